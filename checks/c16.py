"""C16: solver vectors are packed and unpacked the same way."""
from itertools import permutations
from sa.common import *
from sa.p2p import loop_n
from checks.c18 import run_, load

TECHNIQUE = 'enumerations (loop nests with guards, counters in closed form) extracted from packing, unpacking and size code and compared in normal form'
NOTE = """Every place where a flat solver vector is filled, read or sized is turned into an enumeration: the loops with their numbers of iterations, the conditions,
the position in the vector and the entry of the unknown's array. Places that belong to one linear system must give the same enumeration, positions without
gaps, and the size announced to the solver. Decides this for all meshes, partitions, group and angle counts. Whether the linear system has
the right solution is not decided."""

class Odd(Exception): pass
class Wrong(Exception): pass

class Seg(object):
    """entries moved one after another: loops from slowest to fastest, conditions, first position, entry"""
    def __init__(self, start, loops, conds, what, entry, where): self.start, self.loops, self.conds, self.what, self.entry, self.where = start, loops, conds, what, entry, where
    def order(self): return (self.loops, self.conds)
    def text(self):
        return 'for %s%s: %s(%s)' % (' x '.join(show(x) for x in self.loops), ' if ' + ' and '.join(sorted(show(x) for x in self.conds)) if self.conds else '', self.what or 'array', ', '.join(show(x) for x in self.entry))

def syms(n): return [mk('sym', '#%d' % i) for i in range(n)]
def loc_of(c):
    for k in range(20):
        if isinstance(c, Loc): return c
        if c.op in ('havoc', 'mu', 'fin', 'init', 'uninit', 'out') and isinstance(c.a[-1], Loc): return c.a[-1]
        if c.op in ('sel', 'upd', 'store') and isinstance(c.a[0], V): c = c.a[0]; continue
        if c.op == 'ite': c = c.a[1]; continue
        return None
def strip_m(l):
    while l.path and l.path[-1] in (('f', '#m'), ('f', '#size')): l = mkloc(l.root, l.path[:-1])
    return l

# --- totals: what a counter adds up to
def increments(eng, L, l):
    """[(loops, conditions, amount)] that one iteration of L adds to the scalar l"""
    if l not in L.mu or l not in L.next: raise Odd('counter')
    m = L.mu[l]
    out = []
    st = [(eng.resolve(L.next[l]), [])]
    while st:
        v, c = st.pop()
        if v.op == 'ite': st += [(v.a[1], c + lits(v.a[0])), (v.a[2], c + lits(bnot(v.a[0])))]; continue
        d = sub(v, m)
        if v.op == 'fin' or any(x.op == 'fin' and x.a[1] is l for x in subvals(v)):
            base = ZERO
            if v.op != 'fin':
                fs = [x for t in terms(v) for x in t if x.op == 'fin' and x.a[1] is l]
                if len(fs) != 1: raise Odd('counter')
                base, v = sub(v, fs[0]), fs[0]
            M = loop_n(eng, v.a[0])
            i0 = eng.resolve(M.init[l])
            b2 = sub(i0, m)
            if any(x.op in ('mu', 'fin') and x.a[-1] is l for x in subvals(b2)): raise Odd('counter')
            base = add(base, b2)
            if base is not ZERO: out.append(([], c, base))
            out += [([M] + ls, c + cs, a) for ls, cs, a in increments(eng, M, l)]
        elif any(x.op in ('mu', 'fin') and x.a[-1] is l for x in subvals(d)): raise Odd('counter')
        elif d is not ZERO: out.append(([], c, d))
    return out

def total(eng, v, norm):
    """value as a polynomial plus sums over loops: {(counts, conditions): amount}"""
    v = norm(eng, v)
    out = {}
    for m, c in terms(v).items():
        f = [x for x in m if x.op == 'fin']
        rest = from_terms({tuple(x for x in m if x not in f): c})
        if not f: put(out, ((), frozenset()), rest); continue
        if len(f) > 1: raise Odd('size')
        L = loop_n(eng, f[0].a[0]); l = f[0].a[1]
        if L is None or l not in L.mu: raise Odd('size')
        for k, a in total(eng, L.init[l], norm).items(): put(out, k, mul(a, rest))
        for ls, cs, a in increments(eng, L, l):
            k, a = sumkey(eng, [L] + ls, cs, a, norm)
            put(out, k, mul(a, rest))
    return {k: a for k, a in out.items() if a is not ZERO}
def put(d, k, a): d[k] = add(d.get(k, ZERO), a)

def sumkey(eng, Ls, cs, a, norm):
    used, cnt = [], ONE
    a = norm(eng, a)
    cs = [norm(eng, c) for c in cs]
    cs = [c for c in cs if not any(c is x for L in Ls if L.cond is not TRUE for x in lits(eng.resolve(L.cond)))]
    for L in Ls:
        if L.count is None or L.early: raise Odd('loop')
        n = norm(eng, L.count)
        if any(x is L.iv for c in cs + [a] for x in subvals(c)): used.append((L, n))
        else: cnt = mul(cnt, n)
    best = None
    if len(used) > 5: raise Odd('loops')
    for p in permutations(used):
        m = {L.iv: s for (L, n), s in zip(p, syms(len(p)))}
        k = (tuple(eng.subst(n, m) for L, n in p), frozenset(eng.subst(c, m) for c in cs))
        t = (tuple(show(x, -20) for x in k[0]), sorted(show(x, -20) for x in k[1]))
        if best is None or t < best[0]: best = (t, k, eng.subst(a, m))
    return best[1], mul(best[2], cnt)

# --- one moved entry
def seg(eng, e, idx, cls, entry, norm):
    Ls = loops_of(e)
    for L in Ls:
        if L.count is None or L.early: raise Odd('loop')
    I = norm(eng, idx)
    ivs = {L.iv: L for L in Ls}
    t = dict(terms(I))
    ctr = [m for m in t if any(x.op == 'mu' for x in m)]
    if len(ctr) > 1 or ctr and (len(ctr[0]) != 1 or t[ctr[0]] != 1): raise Odd('position')
    deep, outer, start, l = Ls, [], None, None
    gs = [norm(eng, g) for g in guards(e)]
    if ctr:
        mu = ctr[0][0]
        k = [i for i, L in enumerate(Ls) if L.n == mu.a[0]]
        if not k: raise Odd('position')
        outer, deep, l = Ls[:k[0] + 1], Ls[k[0] + 1:], mu.a[1]
        del t[ctr[0]]
    # positions below the counter
    base, co = {}, {}
    for m, c in t.items():
        v = [x for x in m if x in ivs]
        if not v: base[m] = c; continue
        if len(v) != 1 or ivs[v[0]] not in deep: raise Odd('position')
        r = tuple(x for x in m if x is not v[0])
        co[v[0]] = add(co.get(v[0], ZERO), from_terms({r: c}))
    cur, fast = ONE, []
    left = [L for L in deep if L.iv in co]
    if [L for L in deep if L.iv not in co]: raise Wrong('several entries are moved from or to position %s' % show(I))
    while left:
        n = [L for L in left if co[L.iv] is cur]
        if not n: raise Wrong('positions %s leave gaps or overlap' % show(I))
        fast.append(n[0]); left.remove(n[0]); cur = mul(cur, norm(eng, n[0].count))
    loops = outer + fast[::-1]
    base = from_terms(base)
    if ctr:
        i0 = None
        for L in outer:
            v = eng.resolve(L.init[l]) if l in L.init else None
            if v is None: raise Odd('position')
            if i0 is None: i0 = norm(eng, v)
        start = add(i0, base)
        # the counter moves on by exactly the entries moved
        try: inc = [sumkey(eng, [outer[0]] + ls, cs, a, norm) for ls, cs, a in increments(eng, outer[0], l)]
        except Odd: inc = None
        if inc is not None:
            want = sumkey(eng, loops, [g for g in guards(e)], ONE, norm)
            d = {}
            for k, a in inc: put(d, k, a)
            if d.get(want[0]) is not want[1] and len(d) == 1:
                raise Wrong('the position moves on by %s where %s entries are moved' % (totaltext(d), totaltext({want[0]: want[1]})))
    else: start = base
    m = {L.iv: s for L, s in zip(loops, syms(len(loops)))}
    mus = {}
    loops_n = tuple(eng.subst(norm(eng, L.count), m) for L in loops)
    gs = [g for g in gs if not any(g is x for L in Ls if L.cond is not TRUE for x in lits(eng.resolve(L.cond)))]
    if entry is not None: ent = tuple(eng.subst(norm(eng, x), m) for x in entry)
    else: ent = ()
    return Seg(start, loops_n, frozenset(eng.subst(g, m) for g in gs), cls, ent, e.where), sumkey(eng, loops, guards(e), ONE, norm)

def totaltext(d):
    out = []
    for (n, c), a in sorted(d.items(), key=str):
        s = show(a)
        if n or c: s = 'sum of %s over %s%s' % (s, ' x '.join(show(x) for x in n) or '1', ' if ' + ' and '.join(sorted(show(x) for x in c)) if c else '')
        out.append(s)
    return ' + '.join(out) or '0'

# --- sizes of the array classes
def class_sizes(P):
    probe = Engine(P)
    out = {}
    for cls in P.recs:
        if not probe.is_abstract(cls): continue
        ms = [f for f in user_funcs(P) if f.get('cls') == cls]
        c = [f for f in ms if f.get('kind') == 'ctor' and not f['params']]
        s = [f for f in ms if f['n'].split('::')[-1] == 'size']
        if not c or not s: continue
        eng = Engine(P, abstract=False, opaque=MESH_GETTERS)
        eng.begin()
        th = mkloc(root('S', cls))
        try:
            eng.do(c[0], th)
            v = eng.do(s[0], th)
            if isinstance(v, Loc): v = eng.peek(v)
            v = eng.resolve(v)
        except Dead: continue
        if all(x.op in ('init', 'call', 'num', 'poly') for x in subvals(v)): out[cls] = v
    return out

class Trace(object):
    def __init__(self, P, R, F, sizes, roles):
        self.P, self.F, self.eng, self.sizes = P, F, run_(P, R, F), sizes
        eng = self.eng
        self.clsmap = {}
        for e in eng.events:
            if e.kind in ('elem', 'cont') and e.x.get('cls') and e.locs: self.clsmap[strip_m(eng.resolve_loc(e.locs[0]))] = e.x['cls']
        self.aliases = []
        for e in eng.events:
            if e.kind == 'cont' and e.name == 'dims' and len(e.args) == 1 and e.args[0].op == 'addr':
                l = eng.resolve_loc(e.args[0].a[0])
                r = self.role(l, roles, e)
                if r: self.aliases.append((r, l, e))
        self.roles = roles
    def cls(self, c):
        l = loc_of(c)
        return self.clsmap.get(strip_m(self.eng.resolve_loc(l))) if l is not None else None
    def norm(self, eng, v):
        v = eng.resolve(v)
        m = {}
        for x in subvals(v):
            c = None
            if x.op == 'sel' and x.a[1] == ('f', '#size'): c = self.cls(x.a[0])
            elif x.op in ('init', 'fin', 'mu', 'uninit') and isinstance(x.a[-1], Loc) and x.a[-1].path and x.a[-1].path[-1] == ('f', '#size'): c = self.cls(x.a[-1])
            if c in self.sizes: m[x] = self.sizes[c]
        return eng.subst(v, m) if m else v
    def role(self, l, roles, e=None):
        """which of the solver's vectors a location is in"""
        if l is None: return None
        if l.root[0] == 'D' and l.root[1].op == 'vecdata':
            x = l.root[1].a[0]
            x = x.a[-1] if x.op in ('out', 'init', 'havoc', 'mu', 'fin') and isinstance(x.a[-1], Loc) else None
            f = x.path[-1][1].split('::')[-1] if x is not None and x.path and x.path[-1][0] == 'f' else None
            return {roles['b']: 'right hand side', roles['x']: 'solution'}.get(f)
        if l.root[0] == 'P':
            p = [q for q in self.F['params'] if q['n'] == l.root[1]]
            if p and p[0]['t'].k == 'ptr' and p[0]['t'].e.k == 'flt': return 'operand' if p[0]['t'].e.const or 'const' in p[0]['t'].s else 'product'
        return None
    def moves(self):
        """[(role, direction, Seg or None, why, event, total)]"""
        eng = self.eng
        out = []
        for e in eng.events:
            if e.kind != 'write' or not e.locs or not isinstance(e.locs[0], Loc) or not e.locs[0].path or e.locs[0].path[-1][0] not in 'ix': continue
            l, v = eng.resolve_loc(e.locs[0]), eng.resolve(e.args[0])
            to = self.role(l, self.roles) if len(l.path) == 1 else None
            c = load(v)
            cl = loc_of(c[0]) if c else None
            frm = self.role(eng.resolve_loc(cl), self.roles) if cl is not None and strip_m(cl).path == () else None
            if to and frm: continue                      # from vector to vector
            if to and c and c[0] is not None and self.cls(c[0]): out.append(self.move(to, 'in', e, l.path[-1][1], self.cls(c[0]), c[1]))
            elif frm: out.append(self.move(frm, 'out', e, c[1][1], self.cls(mkloc(l.root, l.path[:-1])), l.path[-1]))
        for r, l, e in self.aliases:
            off = l.path[-1][1] if l.path and l.path[-1][0] == 'i' else None
            if off is None or e.x['cls'] not in self.sizes: continue
            n = self.sizes[e.x['cls']]
            out.append((r, 'both', Seg(self.norm(eng, off), (n,), frozenset(), e.x['cls'], (syms(1)[0],), e.where), None, e, (((), frozenset()), n)))
        return out
    def move(self, role, way, e, idx, cls, ent):
        try:
            s, t = seg(self.eng, e, idx, cls, ent[1] if ent[0] == 'x' else (ent[1],), self.norm)
            return role, way, s, None, e, t
        except Odd as o: return role, way, None, o, e, None
        except Wrong as w: return role, way, None, w, e, None

def check(R):
    R.rule('All places that fill or read the flat vectors of one linear system enumerate the same entries in the same order under the same conditions, '
           'at positions without gaps that start where the part before ends; the announced size is the number of entries; the operator combines operand and product over the whole vector.')
    P = R.prog('sweep+noassert')
    sizes = class_sizes(P)
    roles = solver_fields(P, R)
    n = 0
    for F in user_funcs(P):
        if F['n'] == 'main' or F['n'].startswith('KrylovSolver') or not any(x.get('k') == 'ctor' and str(x.get('n', '')).startswith('KrylovSolver::') for x in walk(F['body'])): continue
        T = Trace(P, R, F, sizes, roles)
        ks = [e for e in T.eng.events if e.kind == 'call' and e.name == 'VecSetSizes']
        if not ks: continue
        n += 1
        system(R, P, T, F, ks[0], sizes, roles)
    R.need(n, 1, 'linear systems')

def solver_fields(P, R):
    F = P.fn('KrylovSolver::solve')
    eng = Engine(P); eng.run(F)
    for e in eng.events:
        if e.kind == 'call' and e.name == 'KSPSolve':
            def f(v): return v.a[-1].path[-1][1].split('::')[-1] if isinstance(v.a[-1], Loc) and v.a[-1].path else None
            return {'b': f(eng.resolve(e.args[1])), 'x': f(eng.resolve(e.args[2]))}
    raise Odd('solver')

def system(R, P, T, F, ks, sizes, roles):
    name = F['n']
    cls = F.get('cls')
    ops = {x.a[0] for e in T.eng.events if e.seq > ks.seq for a in e.args if isinstance(a, V) for x in subvals(a) if x.op == 'fn'}
    ops = [P.funcs[u] for u in sorted(ops) if u in P.funcs and P.funcs[u].get('body') and len(P.funcs[u]['params']) == 3 and P.funcs[u]['params'][1]['t'].k == 'ptr' and P.funcs[u]['params'][1]['t'].e.k == 'flt']
    Ts = [T] + [Trace(P, R, f, sizes, roles) for f in user_funcs(P) if cls and f.get('cls') == cls and f is not F and f.get('kind') not in ('ctor', 'dtor')]
    To = [Trace(P, R, f, sizes, roles) for f in ops]
    # values of fields through which the solver hands sizes to its operator
    fields = {}
    for t in Ts:
        for e in t.eng.events:
            if e.kind == 'write' and e.name == '=' and e.locs and isinstance(e.locs[0], Loc) and e.locs[0].path and e.locs[0].path[-1][0] == 'f':
                try: fields.setdefault(e.locs[0].path[-1][1], []).append(total(t.eng, e.args[0], t.norm))
                except Odd: pass
    try: S = total(T.eng, ks.args[1], T.norm)
    except Odd as o:
        R.notes.append('%s: size of the solver\'s vectors not recognised' % name); return
    def tot(t, v):
        v = t.norm(t.eng, v)
        if v.op == 'init' and isinstance(v.a[0], Loc) and v.a[0].path and v.a[0].path[-1][0] == 'f' and v.a[0].path[-1][1] in fields:
            q = fields[v.a[0].path[-1][1]]
            if all(x == q[0] for x in q): return q[0]
            raise Odd('size')
        out = {}
        for m, c in terms(v).items():
            if len(m) == 1 and m[0].op == 'init' and m[0] is not v:
                for k, a in tot(t, m[0]).items(): put(out, k, mul(a, num(c)))
            else:
                for k, a in total(t.eng, from_terms({m: c}), t.norm).items(): put(out, k, a)
        return {k: a for k, a in out.items() if a is not ZERO}
    parts = {}
    for t in Ts + To:
        for role, way, s, why, e, n in t.moves():
            if s is None:
                if isinstance(why, Wrong): R.violation(e.where, '%s: %s: %s' % (t.F['n'], role, why), 'positions %s %s' % (t.F['n'], role))
                else: R.notes.append('%s: enumeration at %s not recognised (%s)' % (t.F['n'], e.where, why))
                continue
            try: st = tot(t, s.start)
            except Odd: R.notes.append('%s: start of a part at %s not recognised' % (t.F['n'], e.where)); continue
            parts.setdefault(s.what, []).append((t, role, way, s, e, st, n))
    place = {}
    for what, ps in sorted(parts.items(), key=lambda x: str(x[0])):
        t0, r0, w0, s0, e0, st0, n0 = ps[0]
        for t, role, way, s, e, st, n in ps[1:]:
            d = ''
            flat = len(s.loops) == 1 and len(s0.loops) == 1
            if s.order() != s0.order() or s.entry != s0.entry:
                d = '%s, but %s at %s' % (s.text(), s0.text(), e0.where)
            R.oblige('%s: %s of %s in the same order' % (name, role, what), not d, e.where, '%s: the %s is enumerated %s' % (t.F['n'], role, d), 'order %s %s %s' % (t.F['n'], role, what))
            R.oblige('%s: %s of %s at the same place' % (name, role, what), st == st0, e.where, '%s: %s starts at %s in the %s, but at %s at %s' % (t.F['n'], what, totaltext(st), role, totaltext(st0), e0.where), 'start %s %s %s' % (t.F['n'], role, what))
        place[what] = (st0, {n0[0]: n0[1]}, e0)
    # parts fill the vector
    cur, left = {}, dict(place)
    while left:
        nx = [w for w in left if left[w][0] == cur]
        if not nx:
            w = sorted(left, key=str)[0]
            R.violation(left[w][2].where, '%s: %s starts at %s, but the part before ends at %s' % (name, w, totaltext(left[w][0]), totaltext(cur)), 'gap %s' % name)
            break
        st, n, e = left.pop(nx[0])
        for k, a in n.items(): put(cur, k, a)
        cur = {k: a for k, a in cur.items() if a is not ZERO}
    if place and not left:
        R.oblige('%s: announced size' % name, cur == S, ks.where, '%s: the solver is told that a vector has %s entries, but %s are enumerated' % (name, totaltext(S), totaltext(cur)), 'size %s' % name)
    # all places are there
    for t in To:
        for role in ('operand', 'product'):
            have = {p[3].what for ps in parts.values() for p in ps if p[0] is t and (p[1] == role or p[2] == 'both')}
            if have and have != set(place):
                R.violation(t.eng.events[0].where if t.eng.events else '', '%s: %s not in the %s' % (t.F['n'], ', '.join(sorted(str(x) for x in set(place) - have)), role), 'missing %s %s' % (t.F['n'], role))
    for role in ('right hand side', 'solution'):
        have = {p[3].what for ps in parts.values() for p in ps if p[1] == role}
        if have and have != set(place):
            R.violation(ks.where, '%s: %s not in the %s' % (name, ', '.join(sorted(str(x) for x in set(place) - have)), role), 'missing %s %s' % (name, role))
    for t in To: combine(R, name, t, S, tot)

def combine(R, name, t, S, tot):
    """the last writes to the product: operand minus what was computed, over the whole vector"""
    eng = t.eng
    ws = []
    for e in eng.events:
        if e.kind != 'write' or not e.locs or not isinstance(e.locs[0], Loc): continue
        l = eng.resolve_loc(e.locs[0])
        if t.role(l, t.roles) != 'product' or len(l.path) != 1: continue
        v = eng.resolve(e.args[0])
        ops = [x for x in subvals(v) if load(x) and loc_of(load(x)[0]) is not None and t.role(eng.resolve_loc(loc_of(load(x)[0])), t.roles) == 'operand']
        if ops: ws.append((e, l, v, ops))
    for e, l, v, ops in ws:
        Ls = loops_of(e)
        if len(Ls) != 1 or Ls[0].count is None or guards(e): R.notes.append('%s: loop over the vector at %s not recognised' % (t.F['n'], e.where)); continue
        i = l.path[-1][1]
        for x in ops:
            R.oblige('%s: same entry of operand and product' % t.F['n'], load(x)[1] == ('i', i), e.where, '%s: entry %s of the product is set from entry %s of the operand' % (t.F['n'], show(i), show(load(x)[1][1])), 'entry %s' % t.F['n'])
        try: n = tot(t, Ls[0].count)
        except Odd: R.notes.append('%s: range at %s not recognised' % (t.F['n'], e.where)); continue
        R.oblige('%s: whole vector' % t.F['n'], n == S and i is Ls[0].iv, e.where, '%s: %s entries of the product are set from the operand, but the vector has %s' % (t.F['n'], totaltext(n), totaltext(S)), 'range %s %s' % (t.F['n'], 'copy' if v in ops else 'combine'))
