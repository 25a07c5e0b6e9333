"""C21: quadrature tables are correct for every order."""
import math
from sa.common import *
from checks.c13 import place
from checks.c09 import ABORT

TECHNIQUE = 'constant propagation of the quadrature constructor for each supported order (tables, index formulas and counted loops folded to constants), compared with independently computed Gauss-Legendre nodes and weights'
NOTE = """The value stored for each direction is taken as a formula over the order, the two loop indices and the constant tables, and folded for each of the 15 supported orders and all directions of each. The result is compared
with nodes and weights computed here from the Legendre polynomials. Rounding is allowed for up to 4e-15."""

ORDERS = range(2, 31, 2)
TOL = 4e-15

class Open(Exception): pass
class Wrong(Exception): pass

FUN = {'sqrt': math.sqrt, 'cos': math.cos, 'sin': math.sin, 'acos': math.acos, 'asin': math.asin, 'tan': math.tan, 'atan': math.atan, 'atan2': math.atan2, 'fabs': abs, 'abs': abs, 'pow': pow,
       'exp': math.exp, 'log': math.log, 'floor': math.floor, 'ceil': math.ceil, 'max': max, 'min': min}

class Fold(object):
    """value of an expression when its symbols are the constants of env"""
    def __init__(self, eng, env): self.eng, self.env, self.memo = eng, dict(env), {}
    def __call__(self, v):
        if v in self.env: return self.env[v]
        if v not in self.memo: self.memo[v] = self.go(v)
        return self.memo[v]
    def go(self, v):
        op = v.op
        if op == 'num': return v.a[0]
        if op == 'poly' or op in ('add', 'mul', 'bigadd', 'bigmul'):
            if op != 'poly':
                xs = [self(x) for x in v.a if isinstance(x, V)]
                return sum(xs) if op.endswith('add') else math.prod(xs)
            r = 0
            for m, k in terms(v).items():
                t = k
                for x in m: t = t * self(x)
                r = r + t
            return r
        if op == 'inv':
            x = self(v.a[0])
            if x == 0: raise Open('division by zero')
            return 1.0 / float(x)
        if op in ('idiv', 'imod'):
            a, b = self(v.a[0]), self(v.a[1])
            if b == 0: raise Open('division by zero')
            return a // b if op == 'idiv' else a % b
        if op == 'ite': return self(v.a[1]) if self(v.a[0]) else self(v.a[2])
        if op == 'eq0': return self(v.a[0]) == 0
        if op in ('ge0', 'fge0'): return self(v.a[0]) >= 0
        if op == 'gt0': return self(v.a[0]) > 0
        if op == 'not': return not self(v.a[0])
        if op == 'and': return all(self(x) for x in v.a)
        if op == 'or': return any(self(x) for x in v.a)
        if op == 'lit' and v.a[0] in (True, False): return v.a[0]
        if op in ('max', 'min'): return {'max': max, 'min': min}[op](self(x) for x in v.a)
        if op == 'call':
            n = str(v.a[0]).split('::')[-1]
            if n not in FUN: raise Open('call of ' + n)
            return FUN[n](*[float(self(x)) for x in v.a[1:] if isinstance(x, V)])
        if op == 'sel':
            s = v.a[1]
            if s[0] != 'i': raise Open(op)
            i = self(s[1])
            a = v.a[0]
            while True:
                if a.op == 'store' and a.a[1][0] == 'i':
                    if self(a.a[1][1]) == i: return self(a.a[2])
                    a = a.a[0]
                elif a.op == 'ite': a = a.a[1] if self(a.a[0]) else a.a[2]
                elif a.op == 'zeroed': raise Wrong('element %s of a table is read, which the table does not have' % i)
                else: raise Open(a.op)
        raise Open('%s: %s' % (op, show(v, -3)))

def legendre(n):
    """nodes and weights of the Gauss-Legendre rule with n points"""
    out = []
    for i in range(n):
        x = math.cos(math.pi * (i + 0.75) / (n + 0.5))
        for _ in range(100):
            p0, p1 = 1.0, x
            for k in range(2, n + 1): p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
            d = n * (x * p1 - p0) / (x * x - 1)
            dx = p1 / d
            x -= dx
            if abs(dx) < 1e-16: break
        p0, p1 = 1.0, x
        for k in range(2, n + 1): p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
        d = n * (x * p1 - p0) / (x * x - 1)
        out.append((x, 2 / ((1 - x * x) * d * d)))
    return sorted(out)

def rel(w): return '/'.join(str(w).split('/')[-2:])

def element(eng, v):
    """(field, index) of a value read from an array of the object"""
    pl = place(v)
    if pl is None or pl[0][0] != 'S': return None
    fs = [q[1] for q in pl[1] if q[0] == 'f' and not str(q[1]).startswith('#')]
    ix = [q[1] for q in pl[1] if q[0] == 'i']
    if len(fs) != 1 or len(ix) != 1: return None
    return fs[0], eng.resolve(ix[0])

def getters(R, P):
    """{quantity: (class, field)}"""
    out = {}
    for q in ('getXi', 'getEta', 'getMu', 'getWt', 'getOmega'):
        fs = [f for f in user_funcs(P, lambda g: g['n'].split('::')[-1] == q and g.get('cls'))]
        if len(fs) != 1: R.notes.append('%s: not found' % q); continue
        f = fs[0]
        eng = Engine(P)
        v = eng.resolve(eng.run(f))
        R.analysed(f['n'])
        if not f['params']: R.notes.append('%s: no angle' % q); continue
        a = [s for s in subvals(v) if s.op == 'sym' and s.a[0] == f['params'][0]['n']]
        where = P.where(f) if hasattr(P, 'where') else f.get('f', '')
        if q == 'getOmega':
            comp = []
            for d in range(3):
                c = eng.resolve(eng.project(eng.project(v, ('f', '#d')), ('i', num(d))))
                comp.append(element(eng, c))
            if None in comp: R.notes.append('getOmega: not recognised: %s' % show(v, -6)); continue
            out[q] = (f, comp)
            idx = [c[1] for c in comp]
        else:
            e = element(eng, v)
            if e is None: R.notes.append('%s: not recognised: %s' % (q, show(v, -5))); continue
            out[q] = (f, [e])
            idx = [e[1]]
        R.oblige('%s returns the element of the angle asked for' % q, all(i.op == 'sym' and i.a[0] == f['params'][0]['n'] for i in idx), loc_of(f), '%s returns the element %s of the angle' % (q, ', '.join(show(i, -3) for i in idx)), key=q)
    return out

def loc_of(f):
    for n in walk(f['body']):
        if n.get('loc') or n.get('l'): return str(n.get('loc') or n.get('l'))
    return f['n']

def check(R):
    P = R.prog('sweep')
    R.rule('For every even order N from 2 to 30 the constructor sets 2 N^2 directions: for each of the N roots of the Legendre polynomial of order N, 2N directions of unit length at equal steps of azimuth, symmetric under '
           'reflection in all three coordinates, each with pi/N times the Gauss weight of the root; the weights sum to 4 pi. The queries return the element of the angle they are asked for. No other order is accepted.')
    R.assumption('floating-point rounding below 4e-15 in nodes and weights')
    Q = getters(R, P)
    names = {q: Q[q][1][0][0] for q in ('getXi', 'getEta', 'getMu', 'getWt') if q in Q}
    if len(names) < 4: R.need(0, 1, 'queries of the quadrature'); return
    if 'getOmega' in Q:
        f = Q['getOmega'][0]
        R.oblige('getOmega returns the three coordinates in order', [c[0] for c in Q['getOmega'][1]] == [names[q] for q in ('getXi', 'getEta', 'getMu')], loc_of(f), 'getOmega does not return the first, second and third coordinate in this order', key='getOmega order')
    fld = {v: k for k, v in names.items()}
    R.oblige('the queries return four different arrays', len(fld) == 4, loc_of(Q['getXi'][0]), 'two of the queries return the same quantity', key='fields')
    if len(fld) < 4: return
    cls = Q['getXi'][0].get('cls')
    ctors = [f for f in user_funcs(P, lambda g: g.get('cls') == cls and (g.get('ctor') or g['n'].split('::')[-1] == cls.split('::')[-1]))]
    done = 0
    for f in ctors:
        if len(f['params']) != 1: continue
        eng = Engine(P)
        eng.run(f)
        R.analysed(f['n'])
        writes = []
        bad = None
        for e in eng.events:
            push = e.kind == 'cont' and e.name == 'push' and len(e.args) > 1 and isinstance(e.args[1], V)
            if e.kind != 'write' and not push or len(e.locs) != 1 or not isinstance(e.locs[0], Loc) or e.locs[0].root[0] != 'S': continue
            l = eng.resolve_loc(e.locs[0])
            fs = [q[1] for q in l.path if q[0] == 'f' and not str(q[1]).startswith('#')]
            if not fs or fs[0] not in fld: continue
            ix = [q[1] for q in l.path if q[0] == 'i']
            if push: ix = [e.args[1]]
            if len(ix) != 1: bad = e; continue
            writes.append((fld[fs[0]], eng.resolve(ix[0]), eng.resolve(e.args[0]), e))
        if bad is not None: R.notes.append('%s: not recognised' % rel(bad.where))
        if not writes: R.notes.append('%s: no directions set' % f['n']); continue
        syms = {s for w in writes for v in (w[1], w[2]) + tuple(guards(w[3])) for s in subvals(v) if s.op == 'sym' and s.a[0] == f['params'][0]['n']}
        order = mk('sym', f['params'][0]['n']) if not syms else next(iter(syms))
        # the number of directions
        nwr = [e for e in eng.events if e.kind == 'write' and len(e.locs) == 1 and isinstance(e.locs[0], Loc) and e.locs[0].root[0] == 'G' and str(e.locs[0].root[2]).split('::')[-1] == 'g_nAngles']
        for e in nwr:
            try: ok = all(Fold(eng, {order: n})(eng.resolve(e.args[0])) == 2 * n * n for n in ORDERS)
            except Open as x: R.notes.append('%s: %s' % (rel(e.where), x)); continue
            R.oblige('%s: the number of directions is 2 N^2' % rel(e.where), ok, e.where, 'the number of directions is not twice the square of the order', key='count')
        R.need(len(nwr), 1, 'assignments of the number of directions')
        ends = [e for e in eng.events if e.kind == 'call' and e.name.split('::')[-1] in ABORT or e.kind == 'throw']
        for n in list(ORDERS):
            if any(ended(eng, e, order, n) for e in ends):
                R.oblige('order %d is supported' % n, False, writes[0][3].where, 'order %d is refused' % n, key='supported'); done += 1
                continue
            r = fold_order(R, eng, order, n, writes)
            if r in (None, 'wrong'): continue
            done += 1
            judge(R, n, r, writes)
        for n in [0, 1] + list(range(3, 64, 2)) + [32, 34, 36, 48, 64]:
            if any(ended(eng, e, order, n) for e in ends): R.oblige('order %d is refused' % n, True); continue
            try: r = fold_order(R, eng, order, n, writes, quiet=True)
            except Open: continue
            if r is None: continue
            R.oblige('order %d is refused' % n, r != 'wrong' and not any(r[q] for q in r), writes[0][3].where, 'order %d is accepted, for which there is no table' % n, key='refused')
    if done < 15: R.notes.append('%d of 15 orders were decided' % done)

def fold_order(R, eng, order, n, writes, quiet=False):
    """{quantity: {index: value}}"""
    out = {q: {} for q in ('getXi', 'getEta', 'getMu', 'getWt')}
    times = {}
    for q, ix, v, e in writes:
        try:
            sub0 = {order: num(n)}
            gs = [eng.subst(eng.resolve(g), sub0) for g in guards(e)]
            f0 = Fold(eng, {order: n})
            Ls = loops_of(e)[::-1]
            if gs and not any(s.op in ('iv', 'mu', 'fin') for g in gs for s in subvals(g)) and not all(f0(g) for g in gs): continue
            ixn, vn = eng.resolve(eng.subst(ix, sub0)), eng.resolve(eng.subst(v, sub0))
            def go(k, env):
                if k == len(Ls):
                    fo = Fold(eng, env)
                    if not all(fo(g) for g in gs): return
                    i = fo(ixn)
                    if i in out[q]: times[q] = i
                    out[q][i] = fo(vn)
                    return
                L = Ls[k]
                if L.count is None or L.early: raise Open('loop not counted')
                c = Fold(eng, env)(eng.resolve(L.count))
                if c > 5000: raise Open('loop of %s' % c)
                for j in range(int(c)):
                    env2 = dict(env); env2[L.iv] = j
                    go(k + 1, env2)
            go(0, {order: n})
        except Open as x:
            if quiet: raise
            R.notes.append('%s: order %d: %s' % (rel(e.where), n, x))
            return None
        except Wrong as x:
            if not quiet: R.violation(e.where, 'order %d: %s' % (n, x), key='table')
            return 'wrong'
    return out

def ended(eng, e, order, n):
    try: return all(Fold(eng, {order: n})(eng.resolve(g)) for g in guards(e))
    except (Open, Wrong): return False

def judge(R, n, r, writes):
    where = {q: [w[3].where for w in writes if w[0] == q][-1:] or [writes[0][3].where] for q in r}
    A = range(2 * n * n)
    for q in r:
        R.oblige('order %d: %s is set for every direction' % (n, q[3:]), set(r[q]) == set(A), where[q][0], 'order %d: %d of the %d directions have no %s, or directions that do not exist are set' % (n, len(set(A) - set(r[q])), len(A), q[3:]), key='all ' + q)
        if set(r[q]) != set(A): return
    rule = legendre(n)
    X, Y, Z, W = (r[q] for q in ('getXi', 'getEta', 'getMu', 'getWt'))
    near = lambda a, b: abs(float(a) - b) <= TOL
    R.oblige('order %d: directions have unit length' % n, all(near(X[a] ** 2 + Y[a] ** 2 + Z[a] ** 2, 1.0) for a in A), where['getXi'][0], 'order %d: directions do not have unit length' % n, key='length')
    R.oblige('order %d: weights sum to 4 pi' % n, abs(sum(W.values()) - 4 * math.pi) < 1e-9, where['getWt'][0], 'order %d: the weights sum to %.12g, not 4 pi' % (n, sum(W.values())), key='sum')
    # the product rule on one of the axes
    want = [(z, w * math.pi / n) for z, w in rule]
    okn, okw = True, True
    rings = {}
    for a in A:
        k = min(range(n), key=lambda j: abs(want[j][0] - Z[a]))
        rings.setdefault(k, []).append(a)
        if not near(Z[a], want[k][0]): okn = False
        if not near(W[a], want[k][1]): okw = False
    R.oblige('order %d: the third coordinates are the roots of the Legendre polynomial' % n, okn and all(len(rings.get(k, [])) == 2 * n for k in range(n)), where['getMu'][0], 'order %d: the third coordinates of the directions are not the roots of the Legendre polynomial, each for 2N directions' % n, key='nodes')
    R.oblige('order %d: the weights are those of the roots' % n, okw and all(w > 0 for w in W.values()), where['getWt'][0], 'order %d: the weight of a direction is not pi/N times the Gauss weight of its root' % n, key='weights')
    oks = True
    for k, As in rings.items():
        ph = sorted(math.atan2(Y[a], X[a]) % (2 * math.pi) for a in As)
        if len(ph) < 2: oks = False; continue
        step = 2 * math.pi / len(ph)
        oks = oks and all(abs(b - a - step) < 1e-9 for a, b in zip(ph, ph[1:])) and abs(ph[0] - step / 2) < 1e-9
    R.oblige('order %d: the azimuths are equally spaced and symmetric' % n, oks, where['getXi'][0], 'order %d: the azimuths of the directions are not equally spaced, or not symmetric in the octants' % n, key='azimuth')
