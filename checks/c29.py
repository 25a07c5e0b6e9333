"""C29: the connectivity of the mesh is consistent."""
from itertools import permutations
from sa.common import *
from sa.p2p import aloc
from checks.c13 import place
from checks.c14 import relguards
from checks.c15 import inner

TECHNIQUE = 'closed forms of the connectivity arrays extracted from the mesh reader (cell, local face, face record), decided by case analysis over the kind of the face and compared with what each query of the mesh means'
NOTE = """Each query of the mesh is traced to the array it returns; the value the reader stores in that array for a cell and one of its faces is brought to a closed form over the records of the
mesh file (the face record, the records of its two cells, the processes of its two sides) and decided for every kind of face. Numbers of cells, faces and processes are unbounded. What the records hold is C08 and C25."""

MAXU = (1 << 64) - 1
C, L, F, X = (mk('sym', n, 290) for n in ('CELL', 'LFACE', 'FACE', 'VRTX'))

def rel(w): return w.split('/')[-1]

def parse(v):
    """path of a value read from the records of the file: (('cellData', index), ('boundingNodes', index)...)"""
    p = []
    while v.op == 'sel':
        p.append(v.a[1]); v = v.a[0]
    if v.op == 'init' and isinstance(v.a[0], Loc): p += list(reversed(v.a[0].path)); base = v.a[0].root
    elif v.op in ('havoc', 'out') and isinstance(v.a[-1], Loc): p += list(reversed(v.a[-1].path)); base = v.a[-1].root
    else: return None
    return steps(reversed(p))

def steps(path):
    out = []
    for k in path:
        if k[0] == 'f':
            if k[1] in ('#d', '#m'): continue
            out.append([str(k[1]).split('::')[-1], None])
        elif k[0] == 'i' and out and out[-1][1] is None: out[-1][1] = k[1]
        elif k[0] == 'i': out.append(['', k[1]])
        else: return None
    return tuple((a, b) for a, b in out)

def getters(P):
    """query of the mesh -> (root field of the array, order of its parameters in the index)"""
    out = {}
    for g in user_funcs(P, lambda g: g.get('cls') and g['n'].startswith(g['cls'] + '::get') and g['cls'].split('::')[-1] == 'TychoMesh'):
        eng = Engine(P, virtual_opaque=True)
        r = eng.run(g)
        if not isinstance(r, V): continue
        pl = place(eng.resolve(r))
        if pl is None or pl[0][0] != 'S': continue
        fl = [p for p in pl[1] if p[0] == 'f' and not str(p[1]).startswith('#')]
        ix = [p for p in pl[1] if p[0] in 'ix']
        idx = []
        for p in ix: idx += list(p[1]) if p[0] == 'x' else [p[1]]
        names = [p['n'] for p in g['params']]
        pos = []
        for i in idx:
            if isinstance(i, V) and i.op == 'sym' and i.a[0] in names: pos.append(names.index(i.a[0]))
            else: pos.append(None)
        if fl: out[g['n'].split('::')[-1]] = (fl[-1][1], tuple(pos), g)
    return out

def check(R):
    P = R.prog('sweep')
    R.rule('For a face that another cell of the process shares, the adjacent cell is the other cell of the face record and the adjacent face is the number the face has there; other faces are marked as boundary and '
           'get their own side, whose cell and global number are theirs; the adjacent rank is the other one of the record. The local number of a face is that of the cell vertex it does not contain. Vertex numbers of '
           'face and cell are inverse to each other and follow an order both cells of the face share. Every query returns its own array at its own arguments.')
    R.assumption('the records of the file are consistent: an inner face names its two different cells, the four nodes of a cell are different, and a face has three of them')
    G = getters(P)
    R.need(len(G), 6, 'queries of the mesh')
    for n, (fld, pos, g) in sorted(G.items()):
        if None in pos: R.notes.append('%s: index not recognised' % n); continue
        R.analysed(g['n'])
        R.oblige('%s returns the array at its arguments' % n, pos == tuple(range(len(g['params']))), R.where(g) if hasattr(R, 'where') else '%s:%s' % (g['file'], g.get('line', 1)), '%s returns an element at other arguments than its own' % n, key=n)
    by = {}
    for n, (fld, pos, g) in sorted(G.items()):
        if fld in by:
            R.violation('%s:%s' % (g['file'], g['loc'][1] if isinstance(g.get('loc'), (list, tuple)) and len(g['loc']) > 1 else 1), '%s and %s return the same array %s' % (by[fld], n, short(fld)), key='getter ' + n)
        by.setdefault(fld, n)
    fs = [f for f in user_funcs(P, lambda g: g['n'].startswith('TychoMesh::') and has_field_writes(g))]
    reader = [f for f in fs if any(n.get('k') == 'call' and 'readInParallel' in str(n.get('n')) for n in walk(f['body']))]
    if not reader: R.need(0, 1, 'reader of the mesh'); return
    Mesh(R, P, G, reader[0]).run()
    neighbors(R, P, G, reader[0])

def short(f): return str(f).split('::')[-1]
def has_field_writes(g): return any(n.get('k') == 'mem' for n in walk(g['body']))

def opposite(R, P, f):
    """is f(cell nodes, face nodes) the index of the cell node that is not a node of the face?  True, False or None"""
    if len(f['params']) != 2 or any(p['t'].k not in ('ptr', 'arr', 'ref') for p in f['params']): return None
    eng = Engine(P)
    try: r = eng.run(f)
    except Exception: return None
    if not isinstance(r, V): return None
    r = eng.resolve(r)
    if r.op != 'ite' or r.a[0].op != 'lit' or r.a[0].a[0] != 'exits': return None
    Lp = eng.lmap.get(r.a[0].a[1])
    m = r.a[1]
    if Lp is None or m.op not in ('mu', 'iv') or Lp.count is None: return None
    names = [p['n'] for p in f['params']]
    got = set()
    names_ = lambda x: {s.a[0].root[1] for s in subvals(x) if s.op == 'init' and isinstance(s.a[0], Loc) and s.a[0].root[0] == 'P'}
    for x in lits(r.a[0].a[2]):
        y = x.a[0] if x.op == 'not' else None
        if y is None:
            if x.op == 'ge0': continue
            return 'maybe' if any(s.op in ('lit', 'mu', 'fin') for s in subvals(x)) else False if x.op in ('eq0', 'or') else None
        if y.op != 'eq0' or any(s.op in ('lit', 'mu', 'fin') for s in subvals(y)): return 'maybe' if {p['n'] for p in f['params']} <= names_(r) or y.op != 'eq0' else None
        t = [k[0] for k in terms(y.a[0]) if len(k) == 1]
        if len(t) != 2: return None
        ks = {}
        for s in t:
            q = place(s)
            if q is None or q[0][0] != 'P': return None
            ks[q[0][1]] = q[1][-1][1] if q[1] and q[1][-1][0] == 'i' else None
        a, b = ks.get(names[0]), ks.get(names[1])
        if a is None or b is None: return None
        if eng.resolve(a) is not m or b.op != 'num': return None
        got.add(b.a[0])
    n = eng.resolve(Lp.count)
    init = [v for v in Lp.init.values() if isinstance(v, V)] if Lp.init else []
    return got == {0, 1, 2} and n is num(4)

def ordering(R, P, g):
    """a function that puts three points in order gives every one of them one place"""
    cmps = [h for h in user_funcs(P, lambda h: h['file'] == g['file'] and str(h.get('ret')) == 'T<bool>' and len(h['params']) == 2)]
    cmps = [h for h in cmps if any(n.get('k') == 'call' and n.get('n') == h['n'] for n in walk(g['body']))]
    if not cmps: return
    eng = Engine(P, opaque=[h['n'] for h in cmps], virtual_opaque=True)
    eng.run(g)
    pts = [p['n'] for p in g['params'] if 'const' in str(p['t'])]
    outs = [e for e in eng.events if e.kind == 'write' and len(e.locs) == 1 and isinstance(e.locs[0], Loc) and e.locs[0].root[0] == 'P' and e.locs[0].root[1] not in pts]
    if len(pts) != 3 or not outs: return
    R.analysed(g['n'])
    def which(a):
        a = eng.resolve(a)
        if a.op == 'addr' and isinstance(a.a[0], Loc) and a.a[0].root[0] == 'P' and a.a[0].root[1] in pts: return pts.index(a.a[0].root[1])
    for perm in permutations(range(3)):
        at = {}
        for e in outs:
            c = TRUE
            for x in guards(e):
                x = eng.resolve(x)
                rep = {}
                for s in subvals(x):
                    if s.op == 'lit' and s.a[0] in [h['n'] for h in cmps]:
                        a = [which(y) for y in s.a[1:] if isinstance(y, V)]
                        if len(a) == 2 and None not in a: rep[s] = TRUE if perm[a[0]] < perm[a[1]] else FALSE
                c = band(c, eng.subst(x, rep) if rep else x)
            l = eng.resolve_loc(e.locs[0])
            k = [eng.resolve(p[1]) for p in l.path if p[0] == 'i']
            v = eng.resolve(e.args[0])
            if c is FALSE: continue
            if c is not TRUE or len(k) != 1 or k[0].op != 'num' or v.op != 'num': R.notes.append('%s: not recognised' % g['n']); return
            at[k[0].a[0]] = v.a[0]
        R.oblige('%s: three points in order %s' % (g['n'], perm), sorted(at) == [0, 1, 2] and sorted(at.values()) == [0, 1, 2], '%s:%s' % (g['file'], line(g)),
                 'the order of three points %s is %s, which is no permutation' % (perm, [at.get(i) for i in range(3)]), key='order')
    for h in cmps:
        eng = Engine(P, virtual_opaque=True)
        r = eng.run(h)
        if not isinstance(r, V): continue
        r = eng.resolve(r)
        vs = [tuple((i >> k) & 1 for k in range(3)) for i in range(8)]
        T = {(a, b): less(eng, h, r, a, b) for a in vs for b in vs if a != b}
        if None in T.values(): R.notes.append('%s: not recognised' % h['n']); continue
        R.analysed(h['n'])
        bad = [(a, b) for a in vs for b in vs if a != b and T[a, b] == T[b, a]] or [(a, b, c) for a in vs for b in vs for c in vs if len({a, b, c}) == 3 and T[a, b] and T[b, c] and not T[a, c]]
        R.oblige('%s is a total order of points' % h['n'], not bad, '%s:%s' % (h['file'], line(h)), '%s does not order the points %s' % (h['n'], bad[:1]), key='order')

def less(eng, h, r, a, b):
    """value of a comparison of two points, given as triples of 0 and 1"""
    n1, n2 = [p['n'] for p in h['params']]
    def at(x, i):
        rep = {s: num(i) for s in subvals(x) if s.op == 'iv'} if i is not None else {}
        x = eng.subst(x, rep) if rep else x
        rep = {}
        for s in subvals(x):
            p = place(s)
            if s.op == 'init' and p and p[0][0] == 'P' and p[1] and p[1][-1][0] == 'i' and p[1][-1][1].op == 'num' and p[1][-1][1].a[0] in (0, 1, 2): rep[s] = num((a if p[0][1] == n1 else b)[p[1][-1][1].a[0]])
        return eng.subst(x, rep) if rep else x
    ex = [s for s in subvals(r) if s.op == 'lit' and s.a[0] == 'exits']
    if len({s.a[1] for s in ex}) > 1: return None
    if ex:
        Lp = eng.lmap.get(ex[0].a[1])
        n = eng.resolve(Lp.count) if Lp is not None and Lp.count is not None else None
        if n is None or n.op != 'num' or not 0 < n.a[0] < 9: return None
        first = {}
        for s in ex:
            first[s] = 99
            for i in range(n.a[0]):
                c = at(s.a[2], i)
                if c not in (TRUE, FALSE): return None
                if c is TRUE: first[s] = i; break
        least = min(first.values())
        r = eng.subst(r, {s: TRUE if k == least and k < 99 else FALSE for s, k in first.items()})
    r = at(r, None)
    return True if r is TRUE else False if r is FALSE else None

class Mesh(object):
    def __init__(m, R, P, G, f):
        m.R, m.P, m.G, m.f = R, P, G, f
        opp, ords = [], []
        for g in user_funcs(P, lambda g: g['file'] == f['file'] and not g.get('cls')):
            o = opposite(R, P, g)
            if o is not None:
                opp.append(g['n'])
                R.analysed(g['n'])
                if o == 'maybe': R.notes.append('%s: not recognised' % g['n']); continue
                R.oblige('%s is the vertex of the cell that is not in the face' % g['n'], o, '%s:%s' % (g['file'], line(g)), '%s is not certain to be the index of the cell vertex that is not in the face' % g['n'], key='opposite')
            elif len(g['params']) >= 2 and str(g.get('ret')) == 'T<void>': ords.append(g)
        m.opp, m.ords = opp, ords
        for g in ords: ordering(R, P, g)
        m.eng = eng = Engine(P, opaque=opp, noinline=['ParallelMesh::readInParallel'] + [g['n'] for g in ords], virtual_opaque=True)
        eng.run(f)
        m.evs = eng.events
        m.tabs = {}
        m.formulas = {}
        R.analysed(f['n'])
    def loc_of(m, e, fld=None):
        l = m.eng.resolve_loc(e.locs[0])
        ix = []
        for k, p in enumerate(l.path):
            if p[0] == 'i': ix.append(m.eng.resolve(p[1]))
            elif p[0] == 'x': ix += [m.eng.resolve(i) for i in p[1]]
        return l, ix
    def writes(m, what):
        """writes to a field (by name) or local table (by root)"""
        out = []
        for e in m.evs:
            if e.kind != 'write' or len(e.locs) != 1 or not isinstance(e.locs[0], Loc) or e.name in ('ext', 'put', 'fill'): continue
            l = e.locs[0]
            if isinstance(what, str) and l.root[0] == 'S' and any(p == ('f', what) for p in l.path) or not isinstance(what, str) and l.root == what:
                if any(p[0] in 'ix' for p in l.path): out.append(e)
        return out
    def face_of(m, v):
        """(cell, index) of a face number taken from the faces of a cell"""
        p = parse(v)
        if p and len(p) == 2 and p[0][0] == 'cellData' and p[1][0] == 'boundingFaces' and p[1][1] is not None: return p[0][1], p[1][1]
        return None
    def oppcall(m, v):
        """(cell, face) of a call of the function that finds the local number of a face"""
        if v.op != 'call' or v.a[0] not in m.opp: return None
        r = []
        for a, want in zip([x for x in v.a[1:] if isinstance(x, V)], ('cellData', 'faceData')):
            a = m.eng.resolve(a)
            if a.op != 'addr' or not isinstance(a.a[0], Loc): return None
            s = steps(m.eng.resolve_loc(a.a[0]).path)
            if not s or s[0][0] != want or s[-1][0] != 'boundingNodes': return None
            r.append(m.eng.resolve(s[0][1]))
        return tuple(r) if len(r) == 2 else None
    def canon(m, e, more=1):
        """-> (index after cell and face, value, guard) of a write in terms of C, L, F; None if not recognised"""
        eng = m.eng
        l, ix = m.loc_of(e)
        if len(ix) < 2 or ix[0].op != 'iv': return None
        Ls = loops_of(e)
        if any(x.early for x in Ls): return None
        rep = {ix[0]: C}
        v = eng.resolve(e.args[0])
        g = band(*[eng.resolve(x) for x in relguards(eng, e, Ls)]) if Ls else TRUE
        full = m.full_cells(ix[0])
        if ix[1].op == 'iv':
            rep[ix[1]] = L
            Lf = eng.lmap.get(ix[1].a[0])
            full = full and Lf is not None and Lf.count is not None and eng.resolve(Lf.count) is num(4)
            rest = ix[2:]
            sub_ = lambda y: m.handles(eng.subst(y, rep))
        else:
            o = m.oppcall(ix[1])
            if o is None: return None
            q = m.face_of(o[1])
            if q is None or eng.resolve(q[0]) is not ix[0]: return None
            if o[0] is not ix[0]: return ('bad', 'the local number of the face is found with the vertices of another cell (%s)' % show(o[0], 3))
            k = eng.resolve(q[1])
            if k.op != 'iv': return None
            Lf = eng.lmap.get(k.a[0])
            full = full and Lf is not None and Lf.count is not None and eng.resolve(Lf.count) is num(4)
            rep2 = {o[1]: F, ix[1]: L}
            rest = ix[2:]
            sub_ = lambda y: m.known(eng.subst(eng.subst(y, rep2), rep))
        out = [sub_(i) for i in rest], sub_(v), sub_(g), full
        for y in out[0] + [out[1], out[2]]:
            for s in subvals(y):
                if m.face_of(s) == (C, L) and ix[1].op == 'iv': return ('bad', 'the face with a local number is taken to be at that place in the file')
        return out
    def full_cells(m, iv):
        Lc = m.eng.lmap.get(iv.a[0])
        if Lc is None or Lc.count is None: return False
        n = m.eng.resolve(Lc.count)
        if is_global(n, 'g_nCells'): return True
        p = parse(n)
        return bool(p and p[-1][0] == 'numCells')
    def handles(m, v):
        """replace what the table of face handles gives for (C, L) by the face itself"""
        eng = m.eng
        for _ in range(3):
            rep = {}
            for s in subvals(v):
                if s.op == 'sel' and s.a[0].op == 'fin' and isinstance(s.a[0].a[1], Loc) and s.a[1] == ('x', (C, L)) and s.a[0].a[1].root[0] == 'L':
                    t = m.table(s.a[0].a[1].root)
                    if t == 'face': rep[s] = F
                    elif t is not None and t[0] == 'index':
                        for y in subvals(v):
                            q = m.face_of(y)
                            if q and q[0] is C and q[1] is s: rep[y] = F
            if not rep: break
            v = eng.subst(v, rep)
        return m.known(v)
    def known(m, v):
        """replace elements (C, L) of arrays that are recognised already"""
        eng = m.eng
        rep = {}
        for s in subvals(v):
            if s.op == 'sel' and s.a[1] == ('x', (C, L)) and s.a[0].op == 'fin' and isinstance(s.a[0].a[1], Loc):
                for p in s.a[0].a[1].path:
                    if p[0] == 'f' and p[1] in m.formulas: rep[s] = m.formulas[p[1]]
        return eng.subst(v, rep) if rep else v
    def table(m, root):
        """what a local table over (cell, local face) holds: 'face', ('index',) or None"""
        if root in m.tabs: return m.tabs[root]
        m.tabs[root] = None
        ws = m.writes(root)
        if len(ws) != 1: return None
        e = ws[0]
        l, ix = m.loc_of(e)
        if len(ix) != 2: return None
        v = m.eng.resolve(e.args[0])
        o = m.oppcall(ix[1])
        if o is None: return None
        q = m.face_of(o[1])
        if q is None: return None
        ok = o[0] is ix[0] and m.eng.resolve(q[0]) is ix[0] and m.full_cells(ix[0]) and not relguards(m.eng, e, loops_of(e))
        if v is o[1]: r = 'face'
        elif v is m.eng.resolve(q[1]): r = ('index',)
        else: return None
        m.R.oblige('the table of face numbers holds every face under its local number', ok, e.where, 'the table of face numbers is not filled for every face under its own local number', key='handles')
        m.tabs[root] = r
        return r
    def formula(m, getter, what):
        """what an array over (cell, face) holds, as a value over C, L, F"""
        if getter not in m.G: return None
        fld = m.G[getter][0]
        r = None
        for e in m.writes(fld):
            c = m.canon(e)
            if c is None: m.R.notes.append('%s: %s: how the array is filled is not recognised' % (rel(e.where), what)); return None
            if c[0] == 'bad':
                m.R.violation(e.where, '%s: %s' % (what, c[1]), key=getter); return None
            rest, v, g, full = c
            if rest: return None
            m.R.oblige('%s: %s is set for every cell and face' % (rel(e.where), what), full, e.where, '%s is not set for every cell and face' % what, key=getter)
            r = ite(g, v, r if r is not None else mk('uninit', getter))
            at = e.where
        if r is None: return None
        m.formulas[fld] = r
        return r, at
    def face_leaf(m, v, name, i=None):
        return [s for s in subvals(v) if m.is_face(s, name, i)]
    def is_face(m, s, name, i=None):
        p = parse(s)
        return bool(p and len(p) == 2 and p[0] == ('faceData', F) and p[1][0] == name and (i is None and p[1][1] is None or i is not None and p[1][1] is not None and p[1][1] is num(i)))
    def case(m, v, kind, who=None, field='boundingCells', me=C):
        """value for a boundary or inner face where element `who` of the record is this cell"""
        eng = m.eng
        if kind is not None:
            rep = {s: num(kind) for s in m.face_leaf(v, 'boundaryType')}
            v = eng.subst(v, rep) if rep else v
        if who is not None:
            mine, other = m.face_leaf(v, field, who), m.face_leaf(v, field, 1 - who)
            rep = {s: me for s in mine}
            v = eng.subst(v, rep) if rep else v
            rep = {}
            for s in subvals(v):
                if s.op == 'eq0':
                    t = [k[0] for k in terms(s.a[0]) if len(k) == 1]
                    if len(t) == 2 and me in t and any(m.is_face(x, field, 1 - who) for x in t): rep[s] = FALSE
            v = eng.subst(v, rep) if rep else v
        return v
    def verdict(m, getter, name, at, v, ok, msg):
        """True/False obligation unless the value is not decided"""
        if not ok and [s for s in subvals(v) if s.op in ('ite', 'lit', 'mu', 'fin') or s.op == 'sel' and parse(s) is None or s.op == 'uninit' and s.a[0] != getter]:
            if v.op == 'ite' or v.op in ('mu', 'fin') or parse(v) is None and v.op not in ('num', 'uninit') and m.oppcall(v) is None:
                m.R.notes.append('%s: %s: value not recognised: %s' % (rel(at), name, show(v, -6))); return
        m.R.oblige('%s: %s' % (rel(at), name), ok, at, msg % show(v, -6) if '%s' in msg else msg, key=getter)
    def run(m):
        R, eng = m.R, m.eng
        r = m.formula('getAdjCell', 'the adjacent cell')
        adj = None
        if r:
            v, at = r
            adj = v
            for k in (0, 1):
                w = m.case(v, k)
                m.verdict('getAdjCell', 'a face on the boundary (%s) has no adjacent cell' % ('mesh', 'partition')[k], at, w, w is num(MAXU), 'the adjacent cell of a face on the boundary is %s')
            for who in (0, 1):
                w = m.case(v, 2, who)
                m.verdict('getAdjCell', 'the adjacent cell of an inner face is the other cell (record element %d)' % (1 - who), at, w, m.is_face(w, 'boundingCells', 1 - who), 'the adjacent cell of an inner face whose cell %d is this one is %%s' % who)
        r = m.formula('getAdjFace', 'the adjacent face')
        if r:
            v, at = r
            for who in (0, 1):
                w = m.case(v, 2, who)
                o = m.oppcall(w)
                ok = o is not None and o[1] is F and m.is_face(o[0], 'boundingCells', 1 - who)
                if o is not None and not ok or w.op == 'num' or w is L or parse(w): R.oblige('%s: the adjacent face is the number of the face in the other cell' % rel(at), False, at, 'the adjacent face of an inner face is %s' % show(w, -8), key='getAdjFace')
                elif ok: R.oblige('%s: the adjacent face is the number of the face in the other cell' % rel(at), True, at, '', key='getAdjFace')
                else: R.notes.append('adjacent face not recognised: %s' % show(w, -6))
        m.ranks()
        m.sides(adj)
        if 'getNSides' in m.G:
            ws = [e for e in m.evs if e.kind == 'write' and len(e.locs) == 1 and isinstance(e.locs[0], Loc) and e.locs[0].root[0] == 'S' and any(q == ('f', m.G['getNSides'][0]) for q in e.locs[0].path)]
            lw = [e for e in ws if loops_of(e)]
            if len(lw) == 1:
                l = eng.resolve_loc(lw[0].locs[0])
                m.counts(lw[0], (l.root, l.path), None, 0, 'the count of sides')
                lu = loops_of(lw[0])
                R.oblige('%s: the count of sides looks at all faces' % rel(lw[0].where), m.full_cells(lu[0].iv) and lu[1].count is not None and eng.resolve(lu[1].count) is num(4), lw[0].where, 'not all faces are looked at for the count of sides', key='getNSides')
            else: R.notes.append('count of the sides not recognised')
        m.direct()
        m.vertices()
    def ranks(m):
        from checks.c10 import is_rank
        eng = m.eng
        r = m.formula('getAdjRank', 'the adjacent rank')
        if not r: return
        v, at = r
        mes = [s for s in subvals(v) if is_rank(eng, s)]
        if not mes: m.R.notes.append('own rank not found'); return
        me = mes[0]
        for who in (0, 1):
            w = m.case(v, None, who, 'partition', me)
            x = w
            inv = {s: num(MAXU) for s in m.face_leaf(w, 'partition', 1 - who)}
            atoms = {s: FALSE for s in subvals(w) if s.op == 'eq0' and any(t in subvals(s) for t in inv)}
            w = eng.subst(w, {s: FALSE for s in subvals(w) if s.op == 'eq0' and terms(s.a[0]).get((), 0) in (MAXU, -MAXU) and set(k for k in terms(s.a[0]) if k) == {(me,)}}) if me in subvals(w) else w
            a = eng.subst(w, atoms) if atoms else w
            if a is me: a = mk('sym', 'this process', 290)
            m.verdict('getAdjRank', 'the adjacent rank is that of the other side (record element %d)' % (1 - who), at, a, m.is_face(a, 'partition', 1 - who), 'the adjacent rank of a face whose side %d is this process is %%s' % who)
            b = eng.subst(w, inv) if inv else w
            m.verdict('getAdjRank', 'a face without other side has no rank (record element %d)' % (1 - who), at, b, b is num(MAXU), 'the adjacent rank of a face without other side is %s')
    def bcond(m, g):
        """a guard decided for boundary and inner faces"""
        v = m.known(m.handles(g))
        out = []
        for k in (0, 1, 2):
            w = m.case(v, k)
            if k == 2:
                ws = {m.case(w, 2, who) for who in (0, 1)}
                # an inner face has an adjacent cell, so its number is not the mark
                ws = {m.eng.subst(x, {s: FALSE for s in subvals(x) if s.op == 'eq0' and any(m.is_face(y, 'boundingCells', i) for y in subvals(s) for i in (0, 1)) and any(c == -MAXU or c == MAXU for kk, c in terms(s.a[0]).items() if not kk)}) for x in ws}
                out.append(TRUE if ws == {TRUE} else FALSE if ws == {FALSE} else None)
            else: out.append(w if w in (TRUE, FALSE) else None)
        return out
    def sides(m, adj):
        """sides are numbered by a counter that counts every boundary face once"""
        R, eng, G = m.R, m.eng, m.G
        need = [g for g in ('getSide', 'getSideCell', 'getLGSide', 'getGLSide') if g in G]
        if adj is None or len(need) < 4: return
        cnts = {}
        for getter in ('getSide', 'getSideCell', 'getLGSide'):
            for e in m.writes(G[getter][0]):
                l, ix = m.loc_of(e)
                v = eng.resolve(e.args[0])
                Ls = loops_of(e)
                if len(Ls) != 2: R.notes.append('%s: numbers of the sides not recognised' % rel(e.where)); return
                civ = [s for s in Ls if s.iv is not None]
                cell, face = Ls[0].iv, Ls[1].iv
                if cell is None or face is None: R.notes.append('%s: loops over the faces not recognised' % rel(e.where)); return
                rep = {cell: C, face: L}
                g = m.handles(eng.subst(band(*[eng.resolve(x) for x in relguards(eng, e, Ls)]), rep))
                w = m.handles(eng.subst(v, rep))
                iy = [m.handles(eng.subst(i, rep)) for i in ix]
                b = m.bcond(g)
                if getter == 'getSide':
                    if iy[:2] != [C, L]: R.oblige('%s: a side belongs to its cell and face' % rel(e.where), False, e.where, 'the side of face %s is stored for %s' % ('(cell, face)', ', '.join(show(i, 3) for i in iy)), key='getSide'); continue
                    if b[:2] == [FALSE, FALSE]:
                        R.oblige('%s: an inner face has no side' % rel(e.where), w is num(MAXU), e.where, 'an inner face gets side %s' % show(w, 3), key='getSide'); continue
                    idx = w
                else:
                    idx = iy[0]
                    if getter == 'getSideCell': R.oblige('%s: a side lies at its cell' % rel(e.where), w is C, e.where, 'the cell of a side is %s' % show(w, 3), key='getSideCell')
                    else: R.oblige('%s: a side has the global number of its face' % rel(e.where), m.is_face(w, 'globalID'), e.where, 'the global number of a side is %s' % show(w, -6), key='getLGSide')
                if None in b: R.notes.append('%s: condition of a side not recognised' % rel(e.where)); continue
                R.oblige('%s: exactly the faces on the boundary have a side' % rel(e.where), b == [TRUE, TRUE, FALSE], e.where, 'sides are given to other faces than those on the boundary', key='sides')
                R.oblige('%s: all cells and faces are looked at' % rel(e.where), m.full_cells(cell) and eng.resolve(Ls[1].count) is num(4) if Ls[1].count is not None else False, e.where, 'sides are not given to all faces', key='sides')
                m.counter(e, idx, Ls)
        gl = G['getGLSide'][0]
        for e in m.evs:
            if e.kind == 'cont' and len(e.locs) == 1 and e.locs[0] is not None and any(p == ('f', gl) for p in e.locs[0].path) and e.name in ('insert', 'minsert', 'emplace', 'put') or e.kind == 'write' and len(e.locs) == 1 and isinstance(e.locs[0], Loc) and e.locs[0].root[0] == 'S' and any(p == ('f', gl) for p in e.locs[0].path):
                Ls = loops_of(e)
                if len(Ls) != 2 or not e.args or Ls[0].iv is None or Ls[1].iv is None: continue
                rep = {Ls[0].iv: C, Ls[1].iv: L}
                v = m.handles(eng.subst(eng.resolve(e.args[0]), rep))
                if e.kind == 'cont':
                    key, val = getp(v, 'first'), getp(v, 'second')
                    if key is None and len(e.args) > 1: key, val = v, m.handles(eng.subst(eng.resolve(e.args[1]), rep))
                else:
                    l, ix = m.loc_of(e); key = m.handles(eng.subst(ix[-1], rep)) if ix else None; val = v
                if key is None or val is None: continue
                g = m.handles(eng.subst(band(*[eng.resolve(x) for x in relguards(eng, e, Ls)]), rep))
                b = m.bcond(g)
                R.oblige('%s: a global side number leads to the side with that number' % rel(e.where), m.is_face(key, 'globalID'), e.where, 'sides are found under %s' % show(key, -6), key='getGLSide')
                if None not in b: R.oblige('%s: every side is found under its global number' % rel(e.where), b == [TRUE, TRUE, FALSE], e.where, 'not every side is found under its global number', key='getGLSide')
                m.counter(e, val, Ls)
    def counter(m, e, idx, Ls):
        """idx counts the boundary faces before this one"""
        R, eng = m.R, m.eng
        ts = terms(idx)
        one = [k for k in ts.items() if k[0]]
        x = one[0][0][0] if len(one) == 1 and one[0][1] == 1 and len(one[0][0]) == 1 else None
        p = place(x) if x is not None and x.op == 'mu' else None
        if p is None:
            if idx.op in ('num', 'iv') or idx in (C, L): R.oblige('%s: a side has its own number' % rel(e.where), False, e.where, 'the number of a side is %s, which other sides have too' % show(idx, 3), key='counter')
            else: R.notes.append('%s: number of a side not recognised: %s' % (rel(e.where), show(idx, -5)))
            return
        m.counts(e, p, Ls, ts.get((), 0))
    def counts(m, e, p, Ls, off=0, what='the number of a side'):
        R, eng = m.R, m.eng
        same = lambda l: isinstance(l, Loc) and eng.resolve_loc(l).root == p[0] and eng.resolve_loc(l).path == p[1]
        ups = [u for u in m.evs if u.kind == 'write' and len(u.locs) == 1 and same(u.locs[0]) and u.seq >= 0 and loops_of(u) and (Ls is None or loops_of(u)[0].n == Ls[0].n)]
        if len(ups) != 1: R.notes.append('%s: counter of the sides not recognised' % rel(e.where)); return
        u = ups[0]
        lu = loops_of(u)
        if len(lu) != 2 or None in (lu[0].iv, lu[1].iv): R.notes.append('%s: counter of the sides not recognised' % rel(e.where)); return
        v = eng.resolve(u.args[0])
        g = m.handles(eng.subst(band(*[eng.resolve(x) for x in relguards(eng, u, lu)]), {lu[0].iv: C, lu[1].iv: L}))
        b = m.bcond(g) if Ls is not None else m.bcond2(u, lu)
        one = [k for k in terms(v).items() if k[0]]
        ok = terms(v).get((), 0) == 1 and len(one) == 1 and one[0][1] == 1 and one[0][0][0].op == 'mu' and place(one[0][0][0])[0] == p[0]
        R.oblige('%s: %s grows by one' % (rel(u.where), what), ok, u.where, '%s is followed by %s' % (what, show(v, 3)), key='counter')
        if None not in b: R.oblige('%s: %s grows for every side' % (rel(u.where), what), b == [TRUE, TRUE, FALSE], u.where, '%s does not grow exactly once for every side' % what, key='counter')
        init = [eng.resolve(x) for k, x in lu[0].init.items() if isinstance(x, V) and isinstance(k, Loc) and same(k)]
        if len(init) == 1 and init[0].op == 'num': R.oblige('%s: %s starts at zero' % (rel(e.where), what), init[0].a[0] + off == 0, e.where, '%s starts at %s' % (what, init[0].a[0] + off), key='counter')
        else: R.notes.append('%s: start of the counter not found' % rel(e.where))
    def is_handle(m, s): return s.op == 'sel' and s.a[0].op == 'fin' and isinstance(s.a[0].a[1], Loc)
    def bcond2(m, u, lu):
        """the condition of a write for a face on the mesh boundary, on the partition boundary and an inner face, where the face is named by its place in the cell"""
        eng = m.eng
        g = band(*[eng.resolve(x) for x in relguards(eng, u, lu)])
        if any(m.is_handle(s) for s in subvals(g)): return m.bcond(m.handles(eng.subst(g, {lu[0].iv: C, lu[1].iv: L})))
        rep = {}
        for s in subvals(g):
            p = parse(s)
            if p and len(p) == 2 and p[1] == ('boundaryType', None) and p[0][0] == 'faceData':
                q = m.face_of(p[0][1])
                if q and eng.resolve(q[0]) is lu[0].iv and eng.resolve(q[1]) is lu[1].iv: rep[s] = None
        out = []
        for k in (0, 1, 2):
            w = eng.subst(g, {s: num(k) for s in rep}) if rep else g
            out.append(w if w in (TRUE, FALSE) else None)
        return out
    def direct(m):
        """arrays that are taken over from the file"""
        for getter, want, what in (('getLGCell', ('cellData', 'globalID'), 'the global number of a cell'), ('getCellMaterial', ('cellData', 'materialIndex'), 'the material of a cell'),
                                   ('getCellNode', ('cellData', 'boundingNodes'), 'the nodes of a cell'), ('getNodeCoord', ('nodeData', 'coords'), 'the coordinates of a node')):
            if getter not in m.G: continue
            seen = set(); whole = False
            for e in m.writes(m.G[getter][0]):
                l, ix = m.loc_of(e)
                p = parse(m.eng.resolve(e.args[0]))
                if p is None: m.R.notes.append('%s: %s not recognised' % (rel(e.where), what)); continue
                idx = [x for _, x in p if x is not None]
                m.R.oblige('%s: %s is that of the file' % (rel(e.where), what), tuple(n for n, _ in p) == want and len(idx) == len(ix) and all(a is b for a, b in zip(idx, ix)) and not relguards(m.eng, e, loops_of(e)), e.where,
                           '%s is %s' % (what, '.'.join(n + ('[%s]' % show(x, 3) if x is not None else '') for n, x in p)), key=getter)
                if len(ix) > 1: seen.add(ix[1])
                if ix and ix[0].op == 'iv':
                    Lc = m.eng.lmap.get(ix[0].a[0])
                    n = parse(m.eng.resolve(Lc.count)) if Lc is not None and Lc.count is not None else None
                    g = Lc is not None and Lc.count is not None and is_global(m.eng.resolve(Lc.count), 'g_nCells')
                    if n: m.R.oblige('%s: %s is set for all' % (rel(e.where), what), (n[-1][0] == {'cellData': 'numCells', 'nodeData': 'numNodes'}[want[0]] or n[-1][0] == '#n' and n[0][0] == want[0]) and not Lc.early, e.where, '%s is set for %s only' % (what, n[-1][0]), key=getter)
            nums = {x.a[0] for x in seen if x.op == 'num'}
            ivs = [x for x in seen if x.op == 'iv']
            n = {'getCellNode': 4, 'getNodeCoord': 3}.get(getter)
            if n and seen and not ivs: m.R.oblige('%s: all %d of them' % (what, n), nums == set(range(n)), m.f['file'], '%s: elements %s only' % (what, sorted(nums)), key=getter)
            for x in ivs:
                Lx = m.eng.lmap.get(x.a[0])
                c = m.eng.resolve(Lx.count) if Lx is not None and Lx.count is not None else None
                if n and c is not None and c.op == 'num': m.R.oblige('%s: all %d of them' % (what, n), c.a[0] == n and not Lx.early, m.f['file'], '%s: %s of them only' % (what, show(c, 2)), key=getter)
    def vertices(m):
        R, eng, G = m.R, m.eng, m.G
        if 'getFaceToCellVrtx' not in G or 'getCellToFaceVrtx' not in G: return
        got = {}
        for getter in ('getFaceToCellVrtx', 'getCellToFaceVrtx'):
            for e in m.writes(G[getter][0]):
                c = m.canon(e)
                if c is not None and c[0] == 'bad': R.violation(e.where, 'the vertex numbers of a face: ' + c[1], key=getter); return
                if c is None or len(c[0]) != 1: R.notes.append('%s: vertex numbers not recognised' % rel(e.where)); return
                got.setdefault(getter, []).append((e, c))
        if any(len(x) != 1 for x in got.values()) or len(got) != 2: R.notes.append('vertex numbers not recognised'); return
        forms = []
        for getter, x in sorted(got.items()):
            e, (rest, v, g, full) = x[0]
            forms.append(rest[0] if getter == 'getFaceToCellVrtx' else v)
            fv, cv = (rest[0], v) if getter == 'getFaceToCellVrtx' else (v, rest[0])
            R.oblige('%s: vertex numbers are set for every cell and face' % rel(e.where), full, e.where, 'vertex numbers are not set for every cell and face', key=getter)
            # the node of the face with that number is the node of the cell with that number
            ls = lits(g)
            if len(ls) != 1 or ls[0].op != 'eq0': R.notes.append('%s: condition of the vertex numbers not recognised: %s' % (rel(e.where), show(g, -6))); continue
            ps = [parse(k[0]) for k in terms(ls[0].a[0]) if len(k) == 1]
            if len(ps) != 2 or None in ps: R.notes.append('%s: condition of the vertex numbers not recognised' % rel(e.where)); continue
            fn = [p for p in ps if p[0][0] == 'faceData']; cn = [p for p in ps if p[0][0] == 'cellData']
            ok = len(fn) == 1 and len(cn) == 1 and fn[0][0][1] is F and fn[0][1][0] == 'boundingNodes' and cn[0][0][1] is C and cn[0][1][0] == 'boundingNodes'
            if not ok: R.oblige('%s: vertices of the face and its cell are compared' % rel(e.where), False, e.where, 'the vertices compared are not those of the face and its cell', key=getter); continue
            fi, ci = fn[0][1][1], cn[0][1][1]
            shared = fi is fv or m.permuted(fi, fv)
            R.oblige('%s: the number of the cell vertex is that of the node found' % rel(e.where), ci is cv, e.where, 'cell vertex %s is stored for node %s' % (show(cv, 3), show(ci, 3)), key=getter)
            R.oblige('%s: the number of the face vertex is that of the node found, in an order that both cells share' % rel(e.where), shared, e.where, 'face vertex %s is stored for node %s' % (show(fv, 3), show(fi, 3)), key=getter)
            # all nodes are looked at
            for i, n in ((fi, 3), (ci, 4)):
                j = i
                if j.op != 'iv':
                    k = [s for s in subvals(j) if s.op == 'iv']
                    if len(k) != 1 or not m.is_perm(j): continue
                    j = k[0]
                Lx = eng.lmap.get(j.a[0])
                if Lx is None or Lx.count is None: continue
                R.oblige('%s: all %d nodes are compared' % (rel(e.where), n), eng.resolve(Lx.count) is num(n) and not Lx.early, e.where, 'only %s of %d nodes are compared' % (show(eng.resolve(Lx.count), 2), n), key=getter)
        if len(forms) == 2: R.oblige('vertex numbers of face and cell are inverse to each other', m.plain(forms[0]) == m.plain(forms[1]), x[0][0].where, 'the vertices of a face are numbered in one order for the one table and in another for the other', key='inverse')
    def plain(m, v): return 'number' if v.op == 'iv' else 'order' if m.is_perm(v) else show(v, 4)
    def is_perm(m, v):
        """an element of the array that an ordering function fills"""
        return v.op in ('uninit', 'sel', 'out', 'havoc') and any(isinstance(a, Loc) and a.root[0] == 'L' for s in subvals(v) for a in s.a)
    def permuted(m, fi, fv):
        return fv.op == 'iv' and m.is_perm(fi) and [s for s in subvals(fi) if s.op == 'iv'] == [fv]

def getp(v, name):
    for s in (v,):
        while s.op == 'upd':
            if s.a[1][0] == 'f' and str(s.a[1][1]).split('::')[-1] == name: return s.a[2]
            s = s.a[0]
    return None

def line(g):
    l = g.get('loc')
    if isinstance(l, (list, tuple)): return [x for x in l if isinstance(x, int)][0] if [x for x in l if isinstance(x, int)] else 1
    return l if isinstance(l, int) else 1

# ---------------------------------------------------------------- the same vertex in the other cell
def neighbors(R, P, G, reader):
    if 'getNeighborVrtx' not in G: return
    fld = G['getNeighborVrtx'][0]
    look = []
    for g in user_funcs(P, lambda g: g.get('cls') == reader.get('cls') and len(g['params']) == 2):
        o = finds(R, P, g, G)
        if o is not None:
            look.append(g['n'])
            R.oblige('%s finds the vertex of a cell at a node' % g['n'], o, '%s:%s' % (g['file'], line(g)), '%s is not certain to find the vertex of the cell at the node' % g['n'], key='getCellVrtx')
    for f in user_funcs(P, lambda g: g.get('cls') == reader.get('cls') and g is not reader):
        if not any(n.get('k') == 'mem' and n.get('f') == fld or n.get('k') == 'mem' and str(n.get('sn')) == short(fld) for n in walk(f['body'])) or f['n'] == G['getNeighborVrtx'][2]['n']: continue
        eng = Engine(P, opaque=MESH_GETTERS + look + QUAD_GETTERS, noinline=[reader['n']], virtual_opaque=True)
        eng.run(f)
        for e in eng.events:
            if e.kind != 'write' or len(e.locs) != 1 or not isinstance(e.locs[0], Loc) or not any(p == ('f', fld) for p in e.locs[0].path): continue
            ix = [p for p in eng.resolve_loc(e.locs[0]).path if p[0] == 'x']
            if len(ix) != 1 or len(ix[0][1]) != 3: continue
            c, l, fv = (eng.resolve(i) for i in ix[0][1])
            v = eng.resolve(e.args[0])
            adj = [s for s in subvals(band(*[eng.resolve(x) for x in relguards(eng, e, loops_of(e))])) if s.op == 'call' and str(s.a[0]).endswith('::getAdjCell')]
            if v is num(MAXU): continue
            if v.op != 'call' or v.a[0] not in look: R.notes.append('%s: neighbor vertex not recognised: %s' % (rel(e.where), show(v, -5))); continue
            a = [x for x in v.a[1:] if isinstance(x, V)]
            args_ = lambda s: [x for x in s.a[1:] if isinstance(x, V)]
            ok = len(a) == 2 and a[0].op == 'call' and str(a[0].a[0]).endswith('::getAdjCell') and args_(a[0])[-2:] == [c, l]
            n = a[1] if len(a) == 2 else None
            ok2 = n is not None and n.op == 'call' and str(n.a[0]).endswith('::getCellNode') and args_(n)[-2] is c
            if ok2:
                q = args_(n)[-1]
                ok2 = q.op == 'call' and str(q.a[0]).endswith('::getFaceToCellVrtx') and args_(q)[-3:] == [c, l, fv]
            R.analysed(f['n'])
            R.oblige('%s: the neighbor vertex is looked for in the adjacent cell' % rel(e.where), ok, e.where, 'the neighbor vertex is looked for in cell %s' % show(a[0], -4) if a else '', key='getNeighborVrtx')
            R.oblige('%s: the neighbor vertex is at the same node' % rel(e.where), ok2, e.where, 'the neighbor vertex is at node %s' % (show(n, -5) if n is not None else ''), key='getNeighborVrtx')

def finds(R, P, g, G):
    """g(cell, node) is the vertex of the cell at the node: True, False or None"""
    eng = Engine(P, opaque=[], virtual_opaque=True)
    try: r = eng.run(g)
    except Exception: return None
    if not isinstance(r, V): return None
    r = eng.resolve(r)
    if r.op != 'ite' or r.a[0].op != 'lit' or r.a[0].a[0] != 'exits' or r.a[1].op not in ('mu', 'iv'): return None
    Lp = eng.lmap.get(r.a[0].a[1])
    if Lp is None or Lp.count is None: return None
    names = [p['n'] for p in g['params']]
    ls = [x for x in lits(r.a[0].a[2]) if x.op != 'ge0']
    if len(ls) != 1: return None
    x = ls[0]
    if x.op != 'eq0': return False if x.op == 'not' else None
    t = [k[0] for k in terms(x.a[0]) if len(k) == 1]
    nd = [s for s in t if s.op == 'sym' and s.a[0] == names[1]]
    cn = [s for s in t if place(s) and place(s)[0][0] == 'S']
    if len(nd) != 1 or len(cn) != 1: return None
    pl = place(cn[0])
    fl = [p[1] for p in pl[1] if p[0] == 'f' and not str(p[1]).startswith('#')]
    ix = [p[1] for p in pl[1] if p[0] == 'x']
    if not fl or len(ix) != 1: return None
    return fl[-1] == G['getCellNode'][0] and ix[0][0].op == 'sym' and ix[0][0].a[0] == names[0] and eng.resolve(ix[0][1]) is r.a[1] and eng.resolve(Lp.count) is num(4)
