"""C15: both sides of a face agree on which is upwind."""
import re
from checks.c01 import kids
from fractions import Fraction
from sa.common import *

TECHNIQUE = 'normal forms of the direction-normal product and of every decision taken on it, with the sign cases enumerated'
NOTE = """The stored product is compared with its definition as a polynomial in the face's points: perpendicular to the face, turned outward by one condition for all three components, so that it
changes sign exactly, rounding included, when the other cell is looked at; the points are taken in an order that comes from the shared face record. Every decision on the product, in every function,
is evaluated for the five cases far below, just below, at, just above and far above zero. That the mesh file gives both cells of a face the same face record is C25's concern."""

OUTIN = re.compile(r'(^|::)is(Outgoing|Incoming)$')
CASES = [('far below', Fraction(-1)), ('just below', Fraction(-1, 10 ** 13)), ('at', Fraction(0)), ('just above', Fraction(1, 10 ** 13)), ('far above', Fraction(1))]

def is_x(v):
    """the product of direction and normal of one (angle, cell, face)"""
    if v.op == 'call' and str(v.a[0]).endswith('getOmegaDotN'): return True
    if v.op == 'init' and isinstance(v.a[0], Loc) and any(p[0] == 'f' and str(p[1]).endswith('c_omegaDotN') for p in v.a[0].path): return True
    return v.op == 'sel' and any(s.op in ('fin', 'mu', 'init') and any(isinstance(a, Loc) and any(p[0] == 'f' and str(p[1]).endswith('c_omegaDotN') for p in a.path) for a in s.a) for s in subvals(v.a[0]))

def xs_of(v):
    out = []
    for s in subvals(v):
        if is_x(s) and s not in out: out.append(s)
    return [s for s in out if not any(s is not t and s in subvals(t) for t in out)]

def expand(eng, evs, v):
    """replace elements of local arrays filled by an earlier loop by the value stored there"""
    rep = {}
    for s in subvals(v):
        if s.op != 'sel' or s.a[1][0] != 'i' or s.a[0].op not in ('fin', 'mu') or not isinstance(s.a[0].a[1], Loc): continue
        l = s.a[0].a[1]
        if l.root[0] != 'L': continue
        n = s.a[0].a[0]
        r = None
        for w in evs:
            if w.kind != 'write' or len(w.locs) != 1 or w.locs[0].root != l.root or w.locs[0].path[:len(l.path)] != l.path: continue
            rest = w.locs[0].path[len(l.path):]
            Ls = [L for L in loops_of(w) if L.n == n]
            if not Ls or len(rest) != 1 or rest[0][0] != 'i' or not w.args: r = None; break
            at = eng.resolve(rest[0][1])
            L = Ls[0]
            if at.op in ('mu', 'iv') and at.a[0] == n or at is L.iv: pass
            else: r = None; break
            g = band(*[eng.resolve(x) for x in inner(w, L)])
            r = ite(g, eng.resolve(w.args[0]), r if r is not None else mk('sym', 'unset', n))
        if r is not None: rep[s] = eng.subst(r, {mk('iv', n): s.a[1][1]})
    return eng.subst(v, rep) if rep else v

def inner(ev, L):
    """branch conditions of an event inside loop L"""
    out = []
    for fr in reversed(frames(ev.ctx)):
        if fr.kind == 'loop' and fr.a is L: break
        if fr.kind == 'if' and fr.up is not None and fr.up.kind == 'loop' and fr.up.a.cond is fr.a: continue
        if fr.kind in ('if', 'assume'): out.append(fr.a)
    return out

def truth(eng, g, xs, val):
    """condition g with every product in xs at val: True, False or None (open)"""
    r = eng.subst(g, {x: num(val) for x in xs})
    return True if r is TRUE else False if r is FALSE else None

def significant(e):
    """does the action matter to another part of the program"""
    if e.kind == 'cont': return e.name not in ('dims', 'reserve', 'clear')
    if e.kind == 'write':
        if e.name in ('++', '--', '+=', '-='): return 'action'
        v = e.args[0] if e.args else None
        if v is None: return False
        if v is ZERO or v is FALSE or v.op == 'num' and v.a[0] == 0: return False
        return not all(isinstance(l, Loc) and l.root[0] == 'L' for l in e.locs)
    if e.kind == 'call': return e.name.startswith('MPI_')
    return False

def check(R):
    P = R.prog('sweep')
    R.rule('For every direction the stored product is the direction times one normal whose sign alone tells the two cells of a face apart; a face is outgoing exactly when the product is positive and '
           'incoming exactly when it is negative; no function acts on a face of product zero as if it were one of the two; a function that leaves out faces near zero leaves them out on both sides.')
    R.assumption('the two cells of a face refer to the same face record (three nodes in one order), as the mesh file is written')
    ctor(R, P)
    classify(R, P)
    users(R, P)

# ---------------------------------------------------------------- the stored product
def ctor(R, P):
    n = 0
    for f in user_funcs(P, lambda f: (f.get('cls') or '').endswith('TychoMesh')):
        if not any(x['k'] == 'mem' and str(x.get('f', x.get('n', ''))).endswith('c_omegaDotN') for x in walk(f['body'])): continue
        eng = Engine(P, opaque=[])
        eng.run(f)
        for e in eng.events:
            if e.kind != 'write' or not e.args or not any(isinstance(l, Loc) and any(p == ('f', q) for p in l.path for q in [p[1]] if str(q).endswith('c_omegaDotN')) for l in e.locs): continue
            if not e.locs[0].path or e.locs[0].path[-1][0] not in ('x', 'i'): continue
            n += 1
            stored(R, P, eng, e)
    R.need(n, 1, 'places where the product of direction and normal is stored')

def left(v):
    """results of loops that have no closed form"""
    return {x for x in subvals(v) if x.op in ('fin', 'mu')}

def stored(R, P, eng, e):
    v = eng.resolve(e.args[0])
    T = terms(v)
    where = e.where
    comp = []
    for m, c in T.items():
        q = [x for x in m if x.op in ('init', 'sel', 'call') and re.search(r'c_xi|c_eta|c_mu|getXi|getEta|getMu', show(x, -2))]
        rest = [x for x in m if x not in q]
        if len(q) != 1: R.notes.append('stored product at %s is not linear in the direction: %s' % (rel(where), show(v, 4)[:200])); return
        comp.append((q[0], c, rest))
    nm = {}
    for q, c, rest in comp:
        w = num(c)
        for x in rest: w = mul(w, x)
        nm[q] = add(nm.get(q, ZERO), w)
    R.oblige('product at %s uses the three components of the direction' % rel(where), len(nm) == 3, where, 'the stored product has %d components of the direction, not three' % len(nm), key='components')
    if len(nm) != 3: return
    R.count('stored products')
    cs, A = [], []
    plain = []
    for q, w in nm.items():
        while w.op not in ('ite',) and len(terms(w)) == 1:
            (m, c), = terms(w).items()
            it = [x for x in m if x.op == 'ite']
            if len(it) != 1: break
            k = num(c)
            for x in m:
                if x is not it[0]: k = mul(k, x)
            w = ite(it[0].a[0], mul(k, it[0].a[1]), mul(k, it[0].a[2])); break
        if w.op != 'ite': plain.append(w); continue
        odd = add(w.a[1], w.a[2]) is ZERO
        if not odd and left(w.a[1]) != left(w.a[2]):
            R.notes.append('a component of the normal at %s is changed by a loop that is not recognised' % rel(where)); return
        R.oblige('component of the normal is turned around exactly', odd, where,
                 'one component of the normal is not the exact negative of the other choice (%s against %s): seen from the two cells of a face the products then differ by more than their sign' % (show(w.a[1], 3)[:150], show(w.a[2], 3)[:150]), key='odd')
        if not odd: return
        cs.append(w.a[0]); A.append((q, w.a[1]))
    if plain and cs:
        R.violation(where, 'only %d of the three components of the normal at %s are turned around for the cell on the other side' % (len(cs), rel(where)), key='one condition'); return
    if plain: R.notes.append('the normal at %s has no orientation choice: %s' % (rel(where), show(plain[0], 4)[:200])); return
    c0 = cs[0]
    ok = all(c is c0 for c in cs)
    R.oblige('one condition turns all components around', ok, where, 'the three components of the normal are turned around under different conditions', key='one condition')
    if not ok: return
    # points of the face: elements (p, d) of one array
    pts = {}
    roots = set()
    foreign = []
    for q, a in A:
        for s in subvals(a):
            pd = point(s)
            if pd: pts[pd[1]] = s; roots.add(pd[0])
    if len(roots) != 1: R.notes.append('points of the face at %s not recognised (%d arrays)' % (rel(where), len(roots))); 
    if len(roots) > 1:
        R.violation(where, 'the normal at %s depends on more than the points of the face' % rel(where), key='normal of the face alone'); return
    if len(pts) != 9: R.notes.append('points of the face at %s not recognised (%d coordinates)' % (rel(where), len(pts))); return
    A = order_axes(eng, A)
    if A is None: R.notes.append('axes of the direction not recognised at %s' % rel(where)); return
    for p in (1, 2):
        dot = ZERO
        for k in range(3): dot = add(dot, mul(A[k], sub(pts[(p, k)], pts[(0, k)])))
        R.oblige('normal is perpendicular to edge %d of the face' % p, dot is ZERO, where, 'the normal is not perpendicular to the edge between points 0 and %d of the face' % p, key='perpendicular')
    # orientation
    if c0.op in ('gt0', 'ge0'):
        D = c0.a[0]; sgn = 1
    elif c0.op == 'not' and c0.a[0].op in ('gt0', 'ge0'):
        D = c0.a[0].a[0]; sgn = -1
    else: R.notes.append('orientation test at %s not recognised: %s' % (rel(where), show(c0, 3)[:200])); return
    other = {}
    for s in subvals(D):
        pd = point2(s)
        if pd and pd[0] not in roots: other.setdefault(pd[1], set()).add(s)
    if set(other) != {0, 1, 2} or any(len(x) != 1 for x in other.values()):
        R.notes.append('orientation test at %s not recognised' % rel(where)); return
    coef = {}
    for k in range(3):
        q = next(iter(other[k])); w = ZERO
        for m, c in terms(D).items():
            if q in m:
                t = num(c); skip = True
                for x in m:
                    if x is q and skip: skip = False
                    else: t = mul(t, x)
                w = add(w, t)
        coef[k] = w
    # D > 0 with value A: the vector must point away from the other point: A = -coef * positive
    prop = all(sub(mul(coef[0], A[k]), mul(coef[k], A[0])) is ZERO for k in range(3))
    flip = all(add(coef[k], A[k]) is ZERO for k in range(3)); same = all(sub(coef[k], A[k]) is ZERO for k in range(3))
    if not prop: R.violation(where, 'the test that turns the normal outward at %s is not made with that normal' % rel(where), key='orientation')
    elif flip or same:
        out = flip if sgn > 0 else same
        R.oblige('the normal points away from the cell', out, where, 'the normal is turned towards the inside of the cell', key='outward')
    # where the points come from
    root_ = next(iter(roots))
    ws = [w for w in eng.events if w.kind == 'write' and len(w.locs) == 1 and w.locs[0].root == root_ and w.seq < e.seq and w.args]
    c_, f_ = None, None
    ix = e.locs[0].path[-1]
    k = 0
    for w in ws:
        val = eng.resolve(w.args[0])
        if not any('c_nodeCoords' in show(s, -4) for s in subvals(val) if s.op in ('sel', 'init')): continue
        idx = [p[1] for p in w.locs[0].path if p[0] == 'i']
        if len(idx) != 2: continue
        k += 1
        f2c = [s for s in subvals(val) if s.op in ('sel', 'init') and field_at(s) and field_at(s)[0].endswith('c_faceToCellVrtx')]
        R.oblige('points of the face are read in the order of the face record', bool(f2c), w.where,
                 'point %s of the face is found without the order in which the shared face record lists its nodes: the two cells of a face may take its points in different orders, and rounding then makes their products differ' % show(idx[0], 2), key='face order')
        if f2c:
            t = field_at(f2c[0])[1]
            R.oblige('point index of the face is the one stored', eng.resolve(t[2]) is idx_value(eng, idx[0]), w.where, 'point %s of the face is stored as point %s' % (show(t[2], 3), show(idx[0], 3)), key='face order')
        axis = axis_of(val)
        if axis is not None:
            R.oblige('coordinate of a face point is the one stored', axis is idx_value(eng, idx[1]), w.where, 'coordinate %s of a point is stored as coordinate %s' % (show(axis, 3), show(idx[1], 3)), key='coordinate')
    R.count('face points', k)
    for w in eng.events:
        if w.kind != 'write' or not w.args or not isinstance(w.locs[0], Loc): continue
        lp = w.locs[0].path
        if len(lp) < 2 or lp[-1][0] != 'x' or not any(p[0] == 'f' and str(p[1]).endswith('c_faceToCellVrtx') for p in lp): continue
        X = eng.resolve(idx_value(eng, lp[-1][1][2]))
        good = False; seen = False
        for g in guards(w):
            for x in lits(eng.resolve(g)):
                if x.op != 'eq0': continue
                fr = [s for s in subvals(x.a[0]) if s.op == 'sel' and s.a[1][0] == 'i' and chain(s) and chain(s)[0].endswith('FaceData::boundingNodes')]
                for s in fr:
                    seen = True
                    Y = s.a[1][1]
                    if Y is X or not cellish(X) and own_ivs(X) <= own_ivs(Y): good = True
        if cellish(X) or seen:
            R.oblige('vertices of a face are numbered by the face record', good, w.where,
                     'the vertex stored as number %s of a face is not matched with the nodes of the shared face record: its number depends on the cell' % show(X, 2)[:150], key='face record')
        else:
            R.oblige('vertices of a face are numbered by the face record', True, w.where, '', key='face record')
        R.count('face vertex numberings')

def idx_value(eng, i):
    i = eng.resolve(i)
    if i.op == 'mu' and i.a[0] in eng.lmap: return eng.lmap[i.a[0]].iv if eng.lmap[i.a[0]].iv is not None else i
    return i

def cellish(v):
    """does a vertex number depend on the cell (rather than on the face record alone)"""
    for s in subvals(v):
        if s.op == 'sel' and any(x.endswith('CellData::boundingNodes') or x.endswith('c_cellNodes') for x in chain(s)): return True
    return False

def chain(v):
    """names of the fields a value is read from, outermost first"""
    out = []
    while v.op == 'sel':
        if v.a[1][0] == 'f': out.append(str(v.a[1][1]))
        v = v.a[0]
    for a in v.a:
        if isinstance(a, Loc): out += [str(p[1]) for p in reversed(a.path) if p[0] == 'f']
    return out

def own_ivs(v):
    """loop symbols a value depends on other than through the face record"""
    out = set(); done = set()
    def go(x):
        if x in done: return
        done.add(x)
        if x.op == 'sel' and any(re.search(r'(Face|Node)Data::', y) for y in chain(x)): return
        if x.op == 'lit' or x.op == 'not': return
        if x.op == 'iv': out.add(x)
        for y in kids(x): go(y)
    go(v)
    return out

def field_at(s):
    if s.op == 'init' and isinstance(s.a[0], Loc):
        p = s.a[0].path
        fs = [x[1] for x in p if x[0] == 'f' and not str(x[1]).startswith('#')]
        if fs and p[-1][0] == 'x': return str(fs[-1]), p[-1][1]
    if s.op == 'sel' and s.a[1][0] == 'x' and s.a[0].op in ('fin', 'mu', 'init'):
        l = next((a for a in s.a[0].a if isinstance(a, Loc)), None)
        if l is not None:
            fs = [x[1] for x in l.path if x[0] == 'f' and not str(x[1]).startswith('#')]
            if fs: return str(fs[-1]), s.a[1][1]
    return None

def axis_of(val):
    f = field_at(val)
    return f[1][1] if f and f[0].endswith('c_nodeCoords') and len(f[1]) == 2 else None

def point(s):
    """((array root), (point, axis)) of an element of a two-index local array at constant indices"""
    if s.op != 'sel' or s.a[1][0] != 'i' or s.a[1][1].op != 'num': return None
    t = s.a[0]
    if t.op != 'sel' or t.a[1][0] != 'i' or t.a[1][1].op != 'num': return None
    l = next((a for a in t.a[0].a if isinstance(a, Loc)), None) if t.a[0].op in ('fin', 'mu', 'init') else None
    return (l.root, (int(t.a[1][1].a[0]), int(s.a[1][1].a[0]))) if l is not None else None

def point2(s):
    """element of a two-index array at a constant axis -> (root, axis)"""
    if s.op != 'sel' or s.a[1][0] != 'i' or s.a[1][1].op != 'num': return None
    t = s.a[0]
    if t.op != 'sel' or t.a[1][0] != 'i': return None
    l = next((a for a in t.a[0].a if isinstance(a, Loc)), None) if t.a[0].op in ('fin', 'mu', 'init') else None
    return (l.root, int(s.a[1][1].a[0])) if l is not None else None

def order_axes(eng, A):
    out = {}
    for q, a in A:
        t = show(q, -2)
        k = 0 if re.search('c_xi|getXi', t) else 1 if re.search('c_eta|getEta', t) else 2
        out[k] = a
    return [out[k] for k in range(3)] if set(out) == {0, 1, 2} else None

# ---------------------------------------------------------------- isIncoming, isOutgoing
def classify(R, P):
    n = 0
    F = {}
    for f in user_funcs(P, lambda f: OUTIN.search(f['n']) and (f.get('cls') or '').endswith('TychoMesh')):
        eng = Engine(P, opaque=['TychoMesh::getOmegaDotN'])
        rs = eng.run(f)
        if isinstance(rs, V): rs = eng.resolve(rs)
        else: R.notes.append('%s: value not recognised' % f['n']); continue
        xs = xs_of(rs)
        if len(xs) != 1: R.notes.append('%s does not depend on one product: %s' % (f['n'], show(rs, 4))); continue
        tb = [truth(eng, rs, xs, c) for _, c in CASES]
        want = [True, True, False, False, False] if f['n'].endswith('Incoming') else [False, False, False, True, True]
        n += 1
        bad = [i for i in range(5) if tb[i] is not None and tb[i] != want[i]]
        R.oblige('%s tells the sign of the product' % f['n'], not bad, f['w'] if 'w' in f else f.get('where', ''),
                 '%s is %s for a product %s zero' % (f['n'], tb[bad[0]] if bad else '', CASES[bad[0]][0] if bad else ''), key=f['n'])
    R.count('sign functions', n)

# ---------------------------------------------------------------- every decision
def users(R, P):
    opaque = [x for x in MESH_GETTERS if not x.endswith(('isOutgoing', 'isIncoming'))] + QUAD_GETTERS
    near = {}
    n = 0
    done = set()
    for f in user_funcs(P):
        if not mentions_x(P, f): continue
        if f['n'] == 'TychoMesh::TychoMesh' or OUTIN.search(f['n']) and (f.get('cls') or '').endswith('TychoMesh'): continue
        eng = Engine(P, opaque=opaque, noinline=[g for g in HEAVY if g != f['n']], virtual_opaque=True)
        eng.run(f)
        R.analysed(f['n'])
        for e in eng.events:
            if e.kind not in ('write', 'cont', 'call'): continue
            gs = [expand(eng, eng.events, eng.resolve(g)) for g in guards(e)]
            gs = [g for g in gs if xs_of(g)]
            if e.kind == 'write' and e.args and significant(e) is True and len(e.locs) == 1 and e.args[0] is not None:
                v = expand(eng, eng.events, eng.resolve(e.args[0]))
                if v.op in ('gt0', 'ge0', 'not', 'and', 'or') and xs_of(v): gs.append(v)
            if not gs: continue
            g = band(*gs)
            xs = xs_of(g)
            if len(xs) != 1: 
                R.notes.append('decision on %d products at %s' % (len(xs), rel(e.where))); continue
            # alternatives the rest of the condition leaves open (forward or backward, ...)
            for h in open_cases(eng, g, xs):
                tb = [truth(eng, h, xs, c) for _, c in CASES]
                n += 1
                if None in tb: continue
                k = (e.where, e.kind, e.name, tuple(tb))
                if k in done: continue
                done.add(k)
                if tb[0] and tb[4] or not any(tb): continue
                fn = fname(e.where)
                if tb[0] and not tb[1]: near.setdefault((fn, 'in'), e)
                if tb[4] and not tb[3]: near.setdefault((fn, 'out'), e)
                if tb[0] and tb[1] and not tb[2]: near.setdefault((fn, 'in0'), e)
                if tb[4] and tb[3] and not tb[2]: near.setdefault((fn, 'out0'), e)
                if not significant(e): continue
                side = 'incoming' if tb[0] else 'outgoing' if tb[4] else None
                if side is None:
                    R.violation(e.where, '%s at %s is done for faces whose product is zero or near zero only' % (e.name, rel(e.where)), key='zero %s' % e.fn); continue
                R.oblige('%s at %s in %s is not done for a face of product zero' % (e.name, rel(e.where), e.fn), not tb[2], e.where,
                         '%s at %s treats a face whose product of direction and normal is exactly zero as %s; on the other side of the face the product is zero as well, and it is not treated as %s there'
                         % (e.name if e.name not in ('=', 'init') else 'the assignment', rel(e.where), side, 'outgoing' if side == 'incoming' else 'incoming'), key='zero %s' % e.fn)
    # thresholds come in pairs
    for (fn, s), e in sorted(near.items()):
        if s.endswith('0'): continue
        o = 'out' if s == 'in' else 'in'
        R.oblige('%s: faces near zero are left out on both sides' % fn, (fn, o) in near and (fn, o + '0') not in near, e.where,
                 'faces whose product is %s zero by less than a tolerance are left out at %s, but those on the other side of zero are not left out in the same way' % ('below' if s == 'in' else 'above', rel(e.where)), key='tolerance')
    R.count('decisions', n)
    R.need(n, 4, 'decisions on the sign of the product')

def fname(w): return w.split('/')[-1].split(':')[0]

def open_cases(eng, g, xs):
    """replace the conditions that do not concern the product by every choice of truth values"""
    at = []
    def atoms(v):
        if v.op in ('eq0', 'ge0', 'gt0', 'lit') and not any(x in subvals(v) for x in xs):
            if v not in at: at.append(v)
            return
        if v in xs: return
        for x in kids(v): atoms(x)
    atoms(g)
    if len(at) > 8: return [g]
    out = []
    for m in range(1 << len(at)):
        r = eng.subst(g, {a: (TRUE if m >> i & 1 else FALSE) for i, a in enumerate(at)})
        if r is FALSE or r in out: continue
        out.append(r)
    return out

def mentions_x(P, f):
    s = getattr(P, '_c15', None)
    if s is None:
        s = set(); fs = user_funcs(P); grown = True
        while grown:
            grown = False
            names = {g['n'] for g in fs if g['usr'] in s and str(g.get('ret')) != 'T<void>'}
            for g in fs:
                if g['usr'] not in s and direct_x(g, names): s.add(g['usr']); grown = True
        P._c15 = s
    return f['usr'] in s

def direct_x(f, names):
    for x in walk(f['body']):
        if x['k'] == 'call' and (re.search(r'getOmegaDotN$|isOutgoing$|isIncoming$', str(x.get('n', ''))) or x.get('n') in names): return True
        if x['k'] == 'mem' and str(x.get('f', x.get('n', ''))).endswith('c_omegaDotN'): return True
    return False

def rel(w): return w.split('/')[-1]
