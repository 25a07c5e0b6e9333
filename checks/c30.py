"""C30: volumes, areas and normals are those of the cells."""
from fractions import Fraction
from math import sqrt
from sa.common import *
from checks.c13 import place
from checks.c14 import relguards
from checks.c29 import getters, rel, line

TECHNIQUE = 'polynomial normal forms of the stored volumes, areas and products in the coordinates of the vertices, compared with the determinant, the cross product and the outward normal derived independently'
NOTE = """The values the mesh stores are brought to polynomial normal form in the coordinates of the cell's vertices and compared, term by term, with the determinant of the edges, the length of the cross product of
the face and its scalar product with the direction; the sign of the normal is decided in both branches. This holds for every mesh (exact arithmetic; rounding is not considered)."""

DIM, CELLV, FACEV = 3, 4, 3
f_ = [[mk('sym', 'f%d%d' % (v, d), 300) for d in range(3)] for v in range(3)]
p_ = [[mk('sym', 'p%d%d' % (v, d), 300) for d in range(3)] for v in range(4)]
o_ = [mk('sym', 'o%d' % d, 300) for d in range(3)]
w_ = [mk('sym', 'w%d' % d, 300) for d in range(3)]

def mul_(a, b):
    return mul(a, b)
def diff(a, b): return [sub(x, y) for x, y in zip(a, b)]
def cross(a, b): return [sub(mul_(a[(d + 1) % 3], b[(d + 2) % 3]), mul_(a[(d + 2) % 3], b[(d + 1) % 3])) for d in range(3)]
def dot(a, b):
    s = num(0)
    for x, y in zip(a, b): s = add(s, mul_(x, y))
    return s
CROSS = cross(diff(f_[1], f_[0]), diff(f_[2], f_[0]))
CROSS2 = dot(CROSS, CROSS)
DET = dot(cross(diff(p_[1], p_[0]), diff(p_[2], p_[0])), diff(p_[3], p_[0]))
OUT = [dot(CROSS, diff(o_, f_[j])) for j in range(3)]
FLUX = dot(w_, CROSS)

def ratio(p, q):
    """r with p = r q as polynomials, or None"""
    a, b = terms(p), terms(q)
    if not a or set(a) != set(b): return None
    k = next(iter(b))
    r = Fraction(a[k]) / Fraction(b[k])
    for t in b:
        if abs(Fraction(a[t]) - r * Fraction(b[t])) > abs(r * Fraction(b[t])) * Fraction(1, 10 ** 12): return None
    return r
def near(x, y): return abs(float(x) - y) <= 1e-12 * abs(y)
def base(n): return str(n).split('::')[-1]
def syms_only(v, allowed=()):
    return all(s.op in ('poly', 'num', 'add', 'mul') or s.op == 'sym' and len(s.a) > 1 and s.a[-1] == 300 or s in allowed for s in subvals(v))

def recognised(v): return all(s.op in ('poly', 'num', 'inv', 'gt0', 'ge0', 'fge0') or s.op == 'sym' and s.a[-1] == 300 or s.op == 'call' and base(s.a[0]) == 'sqrt' for s in subvals(v))

class Geo(object):
    def __init__(g, R, P, eng, G):
        g.R, g.P, g.eng, g.G = R, P, eng, G
        g.bad = None
        g.note = None
    def args(g, v): return [x for x in v.a[1:] if isinstance(x, V)]
    def node(g, v, C, F):
        """the vertex of a node number: ('p', vertex) or ('f', vertex)"""
        a = None
        if v.op == 'call' and base(v.a[0]) == 'getCellNode': a = g.args(v)[-2:]
        else:
            pl = place(v)
            if pl and pl[0][0] == 'S' and any(q == ('f', g.G['getCellNode'][0]) for q in pl[1]):
                ix = [q[1] for q in pl[1] if q[0] == 'x']
                if len(ix) == 1 and len(ix[0]) == 2: a = [g.eng.resolve(i) for i in ix[0]]
        if a is None or len(a) != 2: return None
        if a[0] is not C: return ('bad', 'the nodes of another cell are used')
        return g.vertex(a[1], C, F)
    def vertex(g, v, C, F):
        a = None
        if v.op == 'call' and base(v.a[0]) == 'getFaceToCellVrtx': a = g.args(v)[-3:]
        else:
            pl = place(v)
            if pl and pl[0][0] == 'S' and any(q == ('f', g.G['getFaceToCellVrtx'][0]) for q in pl[1]):
                ix = [q[1] for q in pl[1] if q[0] == 'x']
                if len(ix) == 1 and len(ix[0]) == 3: a = [g.eng.resolve(i) for i in ix[0]]
        if a is not None:
            if a[0] is not C or a[1] is not F: return ('bad', 'the vertices of another face are used')
            return ('f', a[2])
        return ('p', v)
    def leaf(g, s, C, F):
        """the coordinate of a vertex: (kind, vertex, dimension)"""
        eng = g.eng
        if s.op == 'sel' and s.a[0].op == 'sel' and s.a[0].a[0].op == 'sel' and s.a[0].a[0].a[0].op == 'call':
            c = s.a[0].a[0].a[0]
            n = base(c.a[0])
            if s.a[1][0] == 'i' and s.a[0].a[1][0] == 'i' and n in ('getCellVrtxCoords', 'getFaceVrtxCoords'):
                a = g.args(c)
                v, d = eng.resolve(s.a[0].a[1][1]), eng.resolve(s.a[1][1])
                if n == 'getCellVrtxCoords': return ('p', v, d) if a[-1] is C else ('bad', 'the coordinates of another cell are used', d)
                return ('f', v, d) if a[-2:] == [C, F] else ('bad', 'the coordinates of another face are used', d)
        a = None
        if s.op == 'call' and base(s.a[0]) == 'getNodeCoord': a = g.args(s)[-2:]
        elif s.op in ('init', 'sel', 'havoc', 'fin') and 'getNodeCoord' in g.G:
            pl = place(s)
            if pl and pl[0][0] == 'S' and any(q == ('f', g.G['getNodeCoord'][0]) for q in pl[1]):
                ix = [q[1] for q in pl[1] if q[0] == 'x']
                if len(ix) == 1 and len(ix[0]) == 2: a = [eng.resolve(i) for i in ix[0]]
        if a is not None and len(a) == 2:
            n = g.node(a[0], C, F)
            if n is None: return None
            return n + (a[1],)
        return None
    def canon(g, v, C, F):
        """v over the symbols of the coordinates, or None"""
        rep = {}
        for s in subvals(v):
            l = g.leaf(s, C, F)
            if l is None: continue
            if l[0] == 'bad': g.bad = l[1]; return None
            k, i, d = l
            if d.op != 'num' or d.a[0] not in (0, 1, 2): g.note = 'dimension %s' % show(d, 3); return None
            d = int(d.a[0])
            if i.op == 'num':
                t = f_ if k == 'f' else p_
                if not 0 <= i.a[0] < len(t): g.bad = 'vertex %s does not exist' % i.a[0]; return None
                rep[s] = t[int(i.a[0])][d]
            elif k == 'p' and F is not None and i is F: rep[s] = o_[d]
            elif k == 'p':
                o = g.search(i, C, F)
                if o is False: return None
                if o is None: g.note = 'vertex %s' % show(i, -4); continue
                rep[s] = o_[d]
            else: g.note = 'vertex %s' % show(i, -4); return None
        for s in subvals(v):
            if s.op == 'sel' and s.a[1][0] == 'i' and s.a[0].op == 'sel' and s.a[0].a[0].op == 'call' and base(s.a[0].a[0].a[0]) == 'getOmega':
                d = g.eng.resolve(s.a[1][1])
                if d.op != 'num' or d.a[0] not in (0, 1, 2): g.note = 'component %s' % show(d, 3); return None
                rep[s] = w_[int(d.a[0])]
                g.omega.add(g.args(s.a[0].a[0])[-1])
        return g.eng.subst(v, rep) if rep else v
    def search(g, i, C, F):
        """is i the index of the first vertex of the cell whose coordinates are those of no vertex of the face?  True, False or None"""
        eng = g.eng
        if i.op != 'ite' or i.a[0].op != 'lit' or i.a[0].a[0] != 'exits' or F is None: return None
        Lp = eng.lmap.get(i.a[0].a[1])
        if Lp is None or i.a[1] is not Lp.iv and not (i.a[1].op == 'mu' and i.a[1].a[0] == i.a[0].a[1]): return None
        got = set()
        for x in lits(i.a[0].a[2]):
            if x.op == 'ge0': continue
            ds = list(x.a) if x.op == 'or' else [x]
            one = set()
            for d in ds:
                if d.op != 'not' or d.a[0].op != 'eq0': return None
                t = [k[0] for k in terms(d.a[0].a[0]) if len(k) == 1]
                ls = [g.leaf(s, C, F) for s in t]
                if len(ls) != 2 or None in ls: return None
                ls = sorted(ls, key=lambda l: l[0])
                if [l[0] for l in ls] != ['f', 'p'] or ls[0][2] is not ls[1][2] or ls[0][2].op != 'num' or ls[0][1].op != 'num' or ls[1][1] is not Lp.iv and ls[1][1].op != 'mu': return None
                one.add((int(ls[0][1].a[0]), int(ls[0][2].a[0])))
            got.add(frozenset(one))
        if Lp.count is None: return None
        if got == {frozenset((j, d) for d in range(3)) for j in range(3)} and eng.resolve(Lp.count) is num(4): return True
        g.bad = 'the vertex that is taken to be opposite of the face is not certain to be the one that is not in it'
        return False
    def writes(g, q):
        fld = g.G[q][0]
        return [e for e in g.eng.events if e.kind == 'write' and len(e.locs) == 1 and isinstance(e.locs[0], Loc) and e.locs[0].root[0] == 'S' and any(x == ('f', fld) for x in e.locs[0].path) and e.name not in ('ext', 'put', 'fill')]
    def index(g, e):
        ix = [x[1] for x in g.eng.resolve_loc(e.locs[0]).path if x[0] == 'x']
        if not ix: ix = [(x[1],) for x in g.eng.resolve_loc(e.locs[0]).path if x[0] == 'i']
        return [g.eng.resolve(i) for i in ix[0]] if len(ix) == 1 else None
    def whole(g, e, ix, kinds, what):
        """every element is set"""
        eng, R = g.eng, g.R
        if any(i.op != 'iv' for i in ix): return False
        ok = not any(L.early for L in loops_of(e)) and not relguards(eng, e, loops_of(e))
        for i, k in zip(ix, kinds):
            L = eng.lmap.get(i.a[0])
            c = eng.resolve(L.count) if L is not None and L.count is not None else None
            if c is None: R.notes.append('%s: extent not recognised' % rel(e.where)); return False
            ok = ok and (c is num(k) if isinstance(k, int) else is_global(c, k))
        R.oblige('%s: %s is set for every element' % (rel(e.where), what), ok and len(set(ix)) == len(ix), e.where, '%s is not set for every element' % what, key=what)
        return True

def mag(v):
    """(k, X) with v = k |X|"""
    t = terms(v)
    if len(t) == 1:
        (m, k), = t.items()
        if len(m) == 1 and m[0].op == 'call' and base(m[0].a[0]) in ('fabs', 'abs', 'fabsf'): return Fraction(k), [x for x in m[0].a[1:] if isinstance(x, V)][0]
        if len(m) == 1 and m[0].op == 'ite':
            r = mag(m[0])
            return (Fraction(k) * r[0], r[1]) if r else None
    if v.op == 'ite':
        c, a, b = v.a
        n = c.op == 'not'
        if n: c = c.a[0]
        if c.op in ('gt0', 'fge0', 'ge0') and ratio(a, b) == -1:
            r = ratio([x for x in c.a if isinstance(x, V)][0], a)
            if r is not None: return (Fraction(1) if (r > 0) != n else Fraction(-1)), a
    return None

def root(v):
    """(k, Q) with v = k sqrt(Q)"""
    t = terms(v)
    if len(t) != 1: return None
    (m, k), = t.items()
    if len(m) == 1 and m[0].op == 'call' and base(m[0].a[0]) == 'sqrt': return Fraction(k), [x for x in m[0].a[1:] if isinstance(x, V)][0]
    return None

def strip(v):
    """(polynomial without the length, r) where every term of v has the factor 1/sqrt(Q) and Q = r |cross|^2; r None without length; None if mixed"""
    t = terms(v)
    inv, rest = set(), {}
    for m, k in t.items():
        i = [x for x in m if x.op == 'inv']
        if len(i) > 1: return None
        inv.add(i[0] if i else None)
        rest[tuple(x for x in m if x.op != 'inv')] = k
    if len(inv) != 1: return None
    i = inv.pop()
    p = num(0)
    for m, k in rest.items():
        x = num(k)
        for y in m: x = mul_(x, y)
        p = add(p, x)
    if i is None: return p, None
    x = i.a[0]
    q = root(x)
    if q is None: return None
    r = ratio(q[1], CROSS2)
    if r is None or r <= 0: return p, False
    return p, float(q[0]) * sqrt(r)

def check(R):
    P = R.prog('sweep')
    R.rule('The volume of a cell is a sixth of the absolute determinant of its edges; the area of a face is half the length of the cross product of its edges; the stored product is the scalar product of the direction '
           'and the unit normal of the face that points away from the vertex of the cell that is not in the face. Each is set for every cell, face and direction from the coordinates of that cell and face.')
    R.assumption('exact arithmetic; faces are not degenerate')
    G = getters(P)
    for q in ('getCellVolume', 'getFaceArea', 'getOmegaDotN', 'getCellNode', 'getFaceToCellVrtx'):
        if q not in G: R.need(0, 1, q); return
    fields = {q: G[q][0] for q in ('getCellVolume', 'getFaceArea', 'getOmegaDotN')}
    coords(R, P, G)
    found = set()
    for f in user_funcs(P, lambda g: g.get('cls') == G['getCellVolume'][2].get('cls')):
        if f['n'] in [g[2]['n'] for g in G.values()]: continue
        if not any(n.get('k') == 'mem' and any(short(x) in (str(n.get('n')), str(n.get('f')).split('::')[-1]) for x in fields.values()) for n in walk(f['body'])): continue
        eng = Engine(P, opaque=MESH_GETTERS + ['TychoMesh::getCellVrtx'] + QUAD_GETTERS, noinline=['TychoMesh::readTychoMesh'], virtual_opaque=True)
        eng.run(f)
        g = Geo(R, P, eng, G)
        R.analysed(f['n'])
        for q, what, kinds in (('getCellVolume', 'the volume of a cell', ('g_nCells',)), ('getFaceArea', 'the area of a face', ('g_nCells', 4)), ('getOmegaDotN', 'the product of direction and normal', ('g_nAngles', 'g_nCells', 4))):
            for e in g.writes(q):
                ix = g.index(e)
                if ix is None or len(ix) != len(kinds): R.notes.append('%s: index not recognised' % rel(e.where)); continue
                if not g.whole(e, ix, kinds, what): continue
                found.add(q)
                C = ix[-2] if len(ix) > 1 else ix[0]
                F = ix[-1] if len(ix) > 1 else None
                g.bad = g.note = None; g.omega = set()
                v = g.canon(unroll(eng, eng.resolve(e.args[0])), C, F)
                if v is None:
                    if g.bad: R.violation(e.where, '%s: %s' % (what, g.bad), key=q)
                    else: R.notes.append('%s: not recognised: %s' % (rel(e.where), g.note))
                    continue
                {'getCellVolume': volume, 'getFaceArea': area, 'getOmegaDotN': product}[q](R, g, e, v, ix, what, q)
    for q in fields:
        if q not in found: R.notes.append('%s: no value found' % q)

def short(f): return str(f).split('::')[-1]

def volume(R, g, e, v, ix, what, q):
    m = mag(v)
    if m is None or not syms_only(m[1]):
        if syms_only(v): R.oblige('%s: %s' % (rel(e.where), what), False, e.where, '%s is %s, which is not an absolute value' % (what, show(v, -5)), key=q)
        else: R.notes.append('%s: %s not recognised: %s' % (rel(e.where), what, show(v, -5)))
        return
    r = ratio(m[1], DET)
    R.oblige('%s: %s is a sixth of the determinant' % (rel(e.where), what), r is not None and near(m[0] * abs(r), 1.0 / 6), e.where, '%s is %s, not a sixth of the absolute determinant of its edges' % (what, 'another polynomial' if r is None else '%s of the determinant' % float(m[0] * abs(r))), key=q)

def area(R, g, e, v, ix, what, q):
    m = root(v)
    if m is None or not syms_only(m[1]): R.notes.append('%s: %s not recognised: %s' % (rel(e.where), what, show(v, -5))); return
    r = ratio(m[1], CROSS2)
    R.oblige('%s: %s is half the cross product' % (rel(e.where), what), r is not None and r > 0 and near(float(m[0]) * sqrt(r), 0.5), e.where, '%s is %s, not half the length of the cross product of its edges' % (what, 'another polynomial' if r is None else '%s of the length' % (float(m[0]) * sqrt(abs(r)))), key=q)

def product(R, g, e, v, ix, what, q):
    eng = g.eng
    if not g.omega: R.notes.append('%s: product not recognised' % rel(e.where)); return
    R.oblige('%s: the direction is that of the element' % rel(e.where), g.omega == {ix[0]}, e.where, 'the direction of the stored product is not that of the element', key=q)
    conds = {s.a[0] for s in subvals(v) if s.op == 'ite'}
    atoms = {(c.a[0] if c.op == 'not' else c) for c in conds}
    if len(atoms) > 1: R.notes.append('%s: sign of the normal not recognised' % rel(e.where)); return
    if not atoms:
        s = strip(v)
        if s is not None and syms_only(s[0]): R.oblige('%s: the normal points outward' % rel(e.where), False, e.where, 'the sign of the normal does not depend on the side of the face the cell is on', key=q)
        else: R.notes.append('%s: product not recognised' % rel(e.where))
        return
    c = atoms.pop()
    if c.op not in ('gt0', 'fge0', 'ge0'): R.notes.append('%s: sign of the normal not recognised: %s' % (rel(e.where), show(c, -4))); return
    s = strip([x for x in c.a if isinstance(x, V)][0])
    if s is None and recognised(c): s = num(0), None
    if s is None or not syms_only(s[0]): R.notes.append('%s: sign of the normal not recognised: %s' % (rel(e.where), show(c, -6))); return
    rs = [ratio(s[0], x) for x in OUT]
    rs = [x for x in rs if x is not None]
    if not rs or s[1] is False:
        R.oblige('%s: the normal points away from the opposite vertex' % rel(e.where), False, e.where, 'the sign of the normal is not decided by the side of the face the opposite vertex is on', key=q); return
    side = rs[0] * (Fraction(-1) if s[1] is not None and s[1] < 0 else 1)
    for b in (TRUE, FALSE):
        w = eng.subst(v, {x: (b if x is c else bnot(b)) for x in conds | {c} if x is c or x.op == 'not' and x.a[0] is c})
        t = strip(w)
        if t is None and recognised(w): t = num(0), None
        if t is None or not syms_only(t[0]): R.notes.append('%s: product not recognised: %s' % (rel(e.where), show(w, -5))); return
        k = ratio(t[0], FLUX)
        unit = k is not None and t[1] not in (None, False) and near(abs(float(k)) / abs(t[1]), 1.0)
        R.oblige('%s: %s is that with the unit normal' % (rel(e.where), what), unit, e.where, '%s is not the scalar product of the direction and the unit normal of the face' % what, key=q)
        if not unit: continue
        inside = (side > 0) == (b is TRUE)     # the opposite vertex lies on the side the cross product points to
        out = (float(k) / t[1] < 0) == inside
        R.oblige('%s: the normal points away from the opposite vertex' % rel(e.where), out, e.where, 'the normal points into the cell', key=q)

def coords(R, P, G):
    """the functions that collect the coordinates of a cell and a face"""
    for name, n in (('getCellVrtxCoords', 4), ('getFaceVrtxCoords', 3)):
        for f in user_funcs(P, lambda g: base(g['n']) == name):
            eng = Engine(P, opaque=['TychoMesh::getCellNode', 'TychoMesh::getFaceToCellVrtx', 'TychoMesh::getNodeCoord'], virtual_opaque=True)
            eng.run(f)
            g = Geo(R, P, eng, G)
            pn = [p['n'] for p in f['params']]
            C = mk('sym', pn[0]) if pn else None
            seen = {}
            for e in eng.events:
                if e.kind != 'write' or len(e.locs) != 1 or not isinstance(e.locs[0], Loc) or e.locs[0].root[0] != 'L': continue
                ix = [eng.resolve(x[1]) for x in eng.resolve_loc(e.locs[0]).path if x[0] == 'i']
                if len(ix) != 2: continue
                v = eng.resolve(e.args[0])
                par = [s for s in subvals(v) if s.op == 'sym' and s.a[0] in pn]
                Cs = [s for s in par if s.a[0] == pn[0]]; Fs = [s for s in par if len(pn) > 1 and s.a[0] == pn[1]]
                l = g.leaf(v, Cs[0] if Cs else None, Fs[0] if Fs else None)
                if l is None: R.notes.append('%s: coordinate not recognised: %s' % (rel(e.where), show(v, -5))); continue
                if l[0] == 'bad': R.violation(e.where, '%s: %s' % (name, l[1]), key=name); continue
                R.oblige('%s: %s gives the coordinates of the vertex' % (rel(e.where), name), l[0] == ('p' if n == 4 else 'f') and l[1] is ix[0] and l[2] is ix[1], e.where, '%s gives coordinate %s of vertex %s as coordinate %s of vertex %s' % (name, show(l[2], 2), show(l[1], -3), show(ix[1], 2), show(ix[0], 2)), key=name)
                for i, m in zip(ix, (n, 3)):
                    if i.op == 'iv':
                        L = eng.lmap.get(i.a[0])
                        c = eng.resolve(L.count) if L is not None and L.count is not None else None
                        if c is not None and c.op == 'num': R.oblige('%s: %s gives all %d' % (rel(e.where), name, m), c.a[0] == m and not L.early and not relguards(eng, e, loops_of(e)), e.where, '%s sets %s of %d' % (name, c.a[0], m), key=name)
                R.analysed(f['n'])
