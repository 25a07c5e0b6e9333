"""Hash-consed symbolic values with a normal form.

Integer and real expressions share one polynomial normal form (exact
arithmetic), so differently written but equal formulas are the same object.
"""
from fractions import Fraction

class V(object):
    __slots__ = ('op', 'a', 'id', '_h')
    def __repr__(self): return show(self)

_tab = {}
_n = [0]

def mk(op, *a):
    k = (op, a)
    v = _tab.get(k)
    if v is None:
        v = V(); v.op = op; v.a = a; v.id = _n[0]; _n[0] += 1
        _tab[k] = v
    return v

def num(n):
    if isinstance(n, Fraction) and n.denominator == 1: n = int(n)
    if isinstance(n, bool): n = int(n)
    return mk('num', n)

ZERO = num(0); ONE = num(1)
TRUE = ONE; FALSE = ZERO
MAXTERMS = 400

def isnum(v): return v.op == 'num'

# ------------------------------------------------------------- polynomials
# poly: ('poly', ((mono, coef), ...)); mono = tuple of atoms sorted by id
def terms(v):
    if v.op == 'num': return {(): v.a[0]} if v.a[0] != 0 else {}
    if v.op == 'poly': return dict(v.a[0])
    return {(v,): 1}

def from_terms(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d: return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m: return num(c)
        if c == 1 and len(m) == 1: return m[0]
    items = tuple(sorted(((m, (int(c) if isinstance(c, Fraction) and c.denominator == 1 else c)) for m, c in d.items()),
                  key=lambda t: tuple(x.id for x in t[0])))
    return mk('poly', items)

def add(a, b):
    if a is ZERO: return b
    if b is ZERO: return a
    if a.op == 'num' and b.op == 'num': return num(a.a[0] + b.a[0])
    d = terms(a)
    tb = terms(b)
    if len(d) + len(tb) > MAXTERMS: return mk('bigadd', *sorted((a, b), key=lambda x: x.id))
    for m, c in tb.items(): d[m] = d.get(m, 0) + c
    return from_terms(d)

def scale(a, n):
    if n == 0: return ZERO
    if n == 1: return a
    return from_terms({m: c * n for m, c in terms(a).items()})

def neg(a): return scale(a, -1)
def sub(a, b):
    if a is b: return ZERO
    return add(a, neg(b))

def mul(a, b):
    if a is ZERO or b is ZERO: return ZERO
    if a is ONE: return b
    if b is ONE: return a
    ta, tb = terms(a), terms(b)
    if len(ta) * len(tb) > MAXTERMS: return mk('bigmul', *sorted((a, b), key=lambda x: x.id))
    d = {}
    for m1, c1 in ta.items():
        for m2, c2 in tb.items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id)) if m1 and m2 else (m1 or m2)
            m = _cancel(m)
            d[m] = d.get(m, 0) + c1 * c2
    return from_terms(d)

def _cancel(m):
    invs = [x for x in m if x.op == 'inv']
    if not invs: return m
    m = list(m)
    for x in invs:
        if x.a[0] in m and x in m:
            m.remove(x); m.remove(x.a[0])
    return tuple(m)

def inv(a):
    if a.op == 'num' and a.a[0] != 0: return num(Fraction(1) / Fraction(a.a[0]))
    if a.op == 'inv': return a.a[0]
    if a.op == 'poly' and len(a.a[0]) == 1:
        (m, c), = a.a[0]
        r = num(Fraction(1) / Fraction(c))
        for x in m: r = mul(r, inv(x))
        return r
    if a.op == 'poly':
        # normalise the leading coefficient so that inv(k*p) == inv(p)/k
        c = a.a[0][0][1]
        if c != 1:
            return mul(num(Fraction(1) / Fraction(c)), mk('inv', scale(a, Fraction(1) / Fraction(c))))
    return mk('inv', a)

def fdiv(a, b): return mul(a, inv(b))

def idiv(a, b):
    if a.op == 'num' and b.op == 'num' and b.a[0] != 0:
        x, y = int(a.a[0]), int(b.a[0])
        q = abs(x) // abs(y)
        return num(q if (x < 0) == (y < 0) else -q)
    if b is ONE: return a
    if a is ZERO: return ZERO
    # exact division by a constant
    if b.op == 'num' and b.a[0] > 0:
        t = terms(a)
        if all(isinstance(c, int) and c % b.a[0] == 0 for c in t.values()):
            return from_terms({m: c // b.a[0] for m, c in t.items()})
    if a is b: return ONE
    return mk('idiv', a, b)

def imod(a, b):
    if a.op == 'num' and b.op == 'num' and b.a[0] != 0:
        x, y = int(a.a[0]), int(b.a[0])
        r = abs(x) % abs(y)
        return num(r if x >= 0 else -r)
    if b is ONE: return ZERO
    if b.op == 'num':
        t = terms(a)
        if all(isinstance(c, int) and c % b.a[0] == 0 for c in t.values()): return ZERO
    return mk('imod', a, b)

# ----------------------------------------------------------------- booleans
BOOLOPS = {'ge0', 'gt0', 'fge0', 'eq0', 'eq', 'not', 'and', 'or', 'lit'}

def isbool(v):
    return v.op in BOOLOPS or (v.op == 'num' and v.a[0] in (0, 1))

def tobool(v):
    if v.op in BOOLOPS: return v
    if v.op == 'num': return TRUE if v.a[0] != 0 else FALSE
    if v.op == 'ite':
        c, x, y = v.a
        if x.op in ('num', 'ite') or y.op in ('num', 'ite') or x.op in BOOLOPS or y.op in BOOLOPS:
            return bor(band(c, tobool(x)), band(bnot(c), tobool(y)))
    if v.op in ('addr', 'str', 'fn', 'lam'): return TRUE
    return bnot(eq0(v))

def _norm_sign(p):
    t = terms(p)
    if not t: return p
    # choose sign so that the first (by atom ids) term has positive coefficient
    first = sorted(t.items(), key=lambda kv: tuple(x.id for x in kv[0]), reverse=True)[0]
    if first[1] < 0: return neg(p)
    return p

def eq0(p):
    if p.op == 'num': return TRUE if p.a[0] == 0 else FALSE
    if p.op in BOOLOPS: return bnot(p)
    if p.op == 'ite':
        c, x, y = p.a
        if x.op == 'num' or y.op == 'num':
            return bor(band(c, eq0(x)), band(bnot(c), eq0(y)))
    if p.op == 'poly':
        # (ite - const) == 0
        t = p.a[0]
        if len(t) == 2:
            cst = [c for m, c in t if m == ()]
            oth = [(m, c) for m, c in t if m != ()]
            if cst and len(oth) == 1 and oth[0][1] in (1, -1) and len(oth[0][0]) == 1:
                at = oth[0][0][0]; k = -cst[0] * oth[0][1]
                if at.op == 'ite':
                    c, x, y = at.a
                    if x.op in ('num', 'ite') and y.op in ('num', 'ite'):
                        return bor(band(c, eq0(sub(x, num(k)))), band(bnot(c), eq0(sub(y, num(k)))))
                if at.op in BOOLOPS:
                    return at if k == 1 else bnot(at) if k == 0 else FALSE
    return mk('eq0', _norm_sign(p))

def ge0(p):
    if p.op == 'num': return TRUE if p.a[0] >= 0 else FALSE
    return mk('ge0', p)
def gt0(p):
    if p.op == 'num': return TRUE if p.a[0] > 0 else FALSE
    return mk('gt0', p)
def fge0(p):
    if p.op == 'num': return TRUE if p.a[0] >= 0 else FALSE
    return mk('fge0', p)

_bn = {}
def bnot(c):
    r = _bn.get(c)
    if r is None:
        r = _bn[c] = _bnot(c)
        _bn.setdefault(r, c) if r.op in BOOLOPS else None
    return r
def _bnot(c):
    o = c.op
    if o == 'num': return FALSE if c.a[0] else TRUE
    if o == 'ge0': return ge0(sub(num(-1), c.a[0]))
    if o == 'gt0': return fge0(neg(c.a[0]))
    if o == 'fge0': return gt0(neg(c.a[0]))
    if o == 'not': return c.a[0]
    if o == 'and': return bor(*[bnot(x) for x in c.a])
    if o == 'or': return band(*[bnot(x) for x in c.a])
    if o not in BOOLOPS: return eq0(c)
    return mk('not', c)

def _flat(op, xs):
    out = []
    for x in xs:
        if x.op == op: out.extend(x.a)
        else: out.append(x)
    return out

_ba = {}
def band(*xs):
    r = _ba.get(xs)
    if r is None: r = _ba[xs] = _band(*xs)
    return r
def _band(*xs):
    xs = [x if x.op in BOOLOPS or x.op == 'num' else tobool(x) for x in xs]
    out = []
    seen = set()
    for x in _flat('and', xs):
        if x.op == 'num':
            if x.a[0] == 0: return FALSE
            continue
        if x not in seen: seen.add(x); out.append(x)
    for x in out:
        if bnot(x) in seen: return FALSE
    # x and (x or y) -> x ; x and (not x or y) -> x and y
    ch = True
    while ch:
        ch = False
        for i, x in enumerate(out):
            if x.op == 'or':
                lits = set(x.a)
                if lits & (seen - {x}):
                    out.pop(i); seen.discard(x); ch = True; break
                drop = [l for l in x.a if bnot(l) in seen]
                if drop:
                    y = bor(*[l for l in x.a if l not in drop])
                    out.pop(i); seen.discard(x)
                    return band(*(out + [y]))
    if not out: return TRUE
    if len(out) == 1: return out[0]
    if len(out) > 60: return mk('lit', 'bigand', tuple(sorted(out, key=lambda v: v.id)))
    return mk('and', *sorted(out, key=lambda v: v.id))

_bo = {}
def bor(*xs):
    r = _bo.get(xs)
    if r is None: r = _bo[xs] = _bor(*xs)
    return r
def _bor(*xs):
    xs = [x if x.op in BOOLOPS or x.op == 'num' else tobool(x) for x in xs]
    out = []
    seen = set()
    for x in _flat('or', xs):
        if x.op == 'num':
            if x.a[0]: return TRUE
            continue
        if x not in seen: seen.add(x); out.append(x)
    for x in out:
        if bnot(x) in seen: return TRUE
    if len(out) > 60: return mk('lit', 'bigor', tuple(sorted(out, key=lambda v: v.id)))
    ch = True
    while ch:
        ch = False
        for i, x in enumerate(out):
            if x.op != 'and': continue
            lits = set(x.a)
            if lits & (seen - {x}):            # absorption
                out.pop(i); seen.discard(x); ch = True; break
            drop = [l for l in x.a if bnot(l) in seen]
            if drop:                            # c or (not c and d) -> c or d
                y = band(*[l for l in x.a if l not in drop])
                out.pop(i); seen.discard(x)
                return bor(*(out + [y]))
        if ch: continue
        n = len(out)
        for i in range(n):                      # (X and d) or (X and not d) -> X
            for j in range(i + 1, n):
                x, y = out[i], out[j]
                lx = set(x.a) if x.op == 'and' else {x}
                ly = set(y.a) if y.op == 'and' else {y}
                if len(lx) == len(ly):
                    dx, dy = lx - ly, ly - lx
                    if len(dx) == 1 and bnot(next(iter(dx))) in dy:
                        z = band(*(lx & ly)) if lx & ly else TRUE
                        rest = [o for k, o in enumerate(out) if k not in (i, j)]
                        return bor(*(rest + [z]))
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk('or', *sorted(out, key=lambda v: v.id))

def ite(c, a, b):
    if c.op == 'num': return a if c.a[0] else b
    if a is b: return a
    if c.op == 'not': c, a, b = c.a[0], b, a
    if a is TRUE and b is FALSE: return c
    if a is FALSE and b is TRUE: return bnot(c)
    if a.op in BOOLOPS or b.op in BOOLOPS:
        if isbool(a) and isbool(b):
            return bor(band(c, a), band(bnot(c), b))
    if a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if b.op == 'ite' and b.a[0] is c: b = b.a[2]
    nc = bnot(c)
    if a.op == 'ite' and a.a[0] is nc: a = a.a[2]
    if b.op == 'ite' and b.a[0] is nc: b = b.a[1]
    if a is b: return a
    # canonical polarity
    if nc.id < c.id and nc.op != 'not' and c.op in ('ge0', 'gt0', 'fge0', 'and', 'or'): return mk('ite', nc, b, a)
    return mk('ite', c, a, b)

def compare(op, a, b, kind, unsigned=False):
    """kind: 'i' integer, 'f' real, 'p' anything else"""
    if op in ('==', '!='):
        if kind in 'if':
            r = eq0(sub(a, b))
        else:
            if a is b: r = TRUE
            elif a.op == 'num' and b.op == 'num': r = TRUE if a.a == b.a else FALSE
            elif {a.op, b.op} <= {'addr', 'num', 'fn', 'str'} and (a.op != b.op or a.op == 'str'): r = FALSE if not (a.op == b.op) or a.a != b.a else TRUE
            elif a.op == 'it' and b.op == 'it' and a.a[0] is b.a[0]: r = eq0(sub(a.a[1], b.a[1]))
            elif a.op == 'addr' and b.op == 'addr' and a.a[0].root is not b.a[0].root and a.a[0].root[0] in 'LGH' and b.a[0].root[0] in 'LGH': r = FALSE
            elif b is ZERO or a is ZERO:
                r = eq0(b if a is ZERO else a)
            else:
                if a.op == 'ite' and (a.a[1].op in ('num', 'addr') or a.a[2].op in ('num', 'addr')):
                    r = bor(band(a.a[0], compare('==', a.a[1], b, kind)), band(bnot(a.a[0]), compare('==', a.a[2], b, kind)))
                else:
                    r = mk('eq', *sorted((a, b), key=lambda x: x.id))
        return r if op == '==' else bnot(r)
    if kind == 'p':
        if a.op == 'it' and b.op == 'it' and a.a[0] is b.a[0]:
            a, b, kind = a.a[1], b.a[1], 'i'
        else:
            if op == '>': op, a, b = '<', b, a
            elif op == '>=': op, a, b = '<=', b, a
            r = mk('lit', 'plt', a, b) if op == '<' else bnot(mk('lit', 'plt', b, a))
            return r
    if op == '>': op, a, b = '<', b, a
    elif op == '>=': op, a, b = '<=', b, a
    if kind == 'i':
        if unsigned:
            if op == '<' and a is ZERO: return bnot(eq0(b))
            if op == '<=' and b is ZERO: return eq0(a)
            if op == '<' and b is ONE: return eq0(a)
            if op == '<=' and a is ONE: return bnot(eq0(b))
            if op == '<=' and a is ZERO: return TRUE
            if op == '<' and b is ZERO: return FALSE
        return ge0(sub(sub(b, a), ONE)) if op == '<' else ge0(sub(b, a))
    return gt0(sub(b, a)) if op == '<' else fge0(sub(b, a))

# -------------------------------------------------------------------- misc
def children(v):
    """direct sub-values"""
    if v.op == 'poly':
        for m, c in v.a[0]:
            for x in m: yield x
        return
    for x in v.a:
        if isinstance(x, V): yield x
        elif isinstance(x, LOC):
            for y in loc_values(x): yield y
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, V): yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, V): yield z

LOC = ()
def loc_values(l):
    """values inside a location"""
    if hasattr(l, 'c'):
        yield l.c
        for y in loc_values(l.a): yield y
        for y in loc_values(l.b): yield y
        return
    if l.root[0] == 'D': yield l.root[1]
    for s in l.path:
        if s[0] == 'i': yield s[1]
        elif s[0] == 'x':
            for y in s[1]: yield y

def subvals(v, stop=None):
    seen = set(); st = [v]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        yield x
        if stop and stop(x): continue
        st.extend(children(x))

def lits(c):
    """the conjuncts of a condition"""
    if c.op == 'and': return list(c.a)
    if c is TRUE: return []
    return [c]

def show(v, d=0):
    if not isinstance(v, V): return str(v)
    if d > 7: return '..'
    o = v.op
    if o == 'num': return str(v.a[0]) if not isinstance(v.a[0], Fraction) else repr(float(v.a[0]))
    if o == 'poly':
        r = []
        for m, c in v.a[0]:
            s = '*'.join(show(x, d + 1) for x in m)
            if not m: r.append(str(c) if not isinstance(c, Fraction) else repr(float(c)))
            elif c == 1: r.append(s)
            elif c == -1: r.append('-' + s)
            else: r.append('%s*%s' % (c if not isinstance(c, Fraction) else float(c), s))
        return '(' + ' + '.join(r) + ')'
    if o == 'ge0': return '%s>=0' % show(v.a[0], d + 1)
    if o == 'gt0': return '%s>0.' % show(v.a[0], d + 1)
    if o == 'fge0': return '%s>=0.' % show(v.a[0], d + 1)
    if o == 'eq0': return '%s==0' % show(v.a[0], d + 1)
    if o == 'not': return '!(%s)' % show(v.a[0], d + 1)
    if o in ('and', 'or'): return '(' + (' & ' if o == 'and' else ' | ').join(show(x, d + 1) for x in v.a) + ')'
    if o == 'ite': return '[%s ? %s : %s]' % tuple(show(x, d + 1) for x in v.a)
    if o == 'str': return repr(v.a[0])
    return '%s(%s)' % (o, ', '.join(show(x, d + 1) if isinstance(x, V) else
                       ('(' + ','.join(show(y, d + 1) for y in x) + ')' if isinstance(x, tuple) else str(x)) for x in v.a))
