"""C25: partitioning assigns each cell to one partition and links neighbors."""
from sa.common import *
from checks.c13 import place
from checks.c14 import relguards
from checks.c29 import rel

TECHNIQUE = 'closed forms of the sets, index maps and records the partitioned mesh is built from, compared with the partition of the serial mesh they must describe; closed forms and telescoping of the chunk tables of the partitioner'
NOTE = """The sets of cells, faces and vertices of each partition, the maps from global to local numbers and every field of the records of a partition are taken as formulas over the serial mesh and the assignment of cells, and
compared with what the field means, in each case of a cell beside a face (none, same partition, other partition). The assignment of the column partitioner is decided from the closed form of its chunk tables; of the METIS partitioner,
the graph that is given to the library and the copy of its answer are decided, the library is assumed to return numbers in range."""

MAX = 2 ** 64 - 1
base = lambda n: str(n).split('::')[-1]
KIND = {'cellData': 'cell', 'faceData': 'face', 'nodeData': 'node'}
TABLE = {'cell': 'c_cellData', 'face': 'c_faceData', 'node': 'c_nodeData'}
WORD = {'cell': 'cells', 'face': 'faces', 'node': 'vertices'}

class Form(object):
    def __init__(f, R, P, fn, eng):
        f.R, f.P, f.fn, f.eng = R, P, fn, eng
        f.sets, f.maps = {}, {}
    def r(f, v): return f.eng.resolve(v)
    def path(f, v):
        """(root, [(kind, what)]) of a value read from memory, with resolved positions and short field names"""
        p = place(v)
        if p is None: return None
        return p[0], f.short(p[1])
    def short(f, path): return [(k, base(x)) if k == 'f' else (k, f.r(x)) if k == 'i' else (k, x) for k, x in path]
    def serial(f, v):
        """(table, element, field, component) of a value of the serial mesh"""
        p = f.path(v)
        if p is None or p[0][0] not in ('P', 'D') : return None
        s = p[1]
        if len(s) in (4, 5) and s[0][0] == 'f' and s[0][1] in TABLE.values() and s[1] == ('f', '#d') and s[2][0] == 'i' and s[3][0] == 'f':
            return s[0][1], s[2][1], s[3][1], (s[4][1] if len(s) == 5 else None)
        return None
    def pvec(f, v):
        """the cell whose partition v is"""
        p = f.path(v)
        if p is None or p[0][0] not in ('P', 'D') or len(p[1]) != 2 or p[1][0] != ('f', '#d') or p[1][1][0] != 'i': return None
        return p[1][1][1]
    def elem(f, v):
        """(set, partition, loop symbol) of an element met in a loop over a set"""
        if v.op != 'init' or v.a[0].path or v.a[0].root[0] != 'D' or v.a[0].root[1].op != 'mapelem': return None
        c, iv = v.a[0].root[1].a
        if not isinstance(c, Loc) or c.root[0] != 'L': return None
        s = f.short(c.path)
        if len(s) != 2 or s[0] != ('f', '#d') or s[1][0] != 'i': return None
        return c.root, s[1][1], iv
    def eq(f, a, b):
        if a is b: return True
        x, y = f.elem(a), f.elem(b)
        return x is not None and y is not None and x[0] == y[0] and x[1] is y[1] and x[2] is y[2]
    def index(f, v):
        """(map, partition, key) of a number looked up in a map"""
        p = f.path(v)
        if p is None or p[0][0] != 'L': return None
        s = [x for x in p[1] if x != ('f', 'second')]
        if len(s) != 4 or s[0] != ('f', '#d') or s[1][0] != 'i' or s[2] not in (('f', '#d'), ('f', '#m')) or s[3][0] != 'i': return None
        return p[0], s[1][1], s[3][1]
    def local(f, l):
        """(container, partition) of a location that is an element of a local array"""
        if not isinstance(l, Loc) or l.root[0] != 'L': return None
        s = f.short(l.path)
        if len(s) != 2 or s[0] != ('f', '#d') or s[1][0] != 'i': return None
        return l.root, s[1][1]
    def count(f, v):
        L = loop_of(f.eng, v)
        if L is None or L.count is None: return None
        return f.r(L.count)
    def parts(f, v):
        """is v a count of all partitions"""
        if v.op == 'sym' and v.a[0] in [p['n'] for p in f.fn['params']]: return True
        p = f.path(v)
        return p is not None and p[1] and p[1][-1] == ('f', 'c_numPartitions')
    def allparts(f, v): 
        c = f.count(v)
        return c is not None and f.parts(c)
    def plain(f, e): return not any(L.early for L in loops_of(e)) and not relguards(f.eng, e, loops_of(e)[:1] if loops_of(e) else [])
    def name(f, root): return str(root[3]) if len(root) > 3 else str(root)

def conds_in(f, e):
    """conditions of an event inside the outermost loop"""
    out = []
    for g in guards(e): out += lits(f.r(g))
    return [g for g in out if g is not TRUE]

def pairval(v):
    if v.op == 'upd' and v.a[0].op == 'upd' and v.a[0].a[0].op == 'pair':
        d = {v.a[1][1]: v.a[2], v.a[0].a[1][1]: v.a[0].a[2]}
        if set(d) == {'first', 'second'}: return d['first'], d['second']
    return None

def collect(f):
    """the sets and maps"""
    R, eng = f.R, f.eng
    for e in eng.events:
        if e.kind == 'cont' and e.name in ('insert', 'emplace', 'push') and len(e.locs) == 1:
            c = f.local(e.locs[0])
            if c is None or not e.args: continue
            a = [f.r(x) for x in e.args if isinstance(x, V)]
            pr = pairval(a[0])
            if pr is None and e.name == 'emplace' and len(a) == 2: pr = (a[0], a[1])
            if pr: f.maps.setdefault(c[0], []).append((c[1], f.r(pr[0]), f.r(pr[1]), e))
            else: f.sets.setdefault(c[0], []).append((c[1], a[0], e))
        elif e.kind == 'write' and e.name in ('=', 'init') and len(e.locs) == 1 and isinstance(e.locs[0], Loc) and e.locs[0].root[0] == 'L':
            s = f.short(e.locs[0].path)
            if len(s) == 4 and s[0] == ('f', '#d') and s[1][0] == 'i' and s[2] in (('f', '#d'), ('f', '#m')) and s[3][0] == 'i':
                f.maps.setdefault(e.locs[0].root, []).append((s[1][1], s[3][1], f.r(e.args[0]), e))

def judge_sets(f):
    R = f.R
    f.kind = {}
    for root, ins in f.sets.items():
        for part, v, e in ins:
            cell = None
            k = None
            if v.op == 'iv': k, cell = 'cell', v
            else:
                s = f.serial(v)
                if s and s[0] == 'c_cellData' and s[2] in ('boundingFaces', 'boundingNodes') and s[3] is not None:
                    k, cell = {'boundingFaces': 'face', 'boundingNodes': 'node'}[s[2]], s[1]
                    n = f.count(s[3]) if s[3].op == 'iv' else None
                    if n is None or n.op != 'num': R.notes.append('%s: not recognised' % rel(e.where)); f.kind[root] = None; continue
                    R.oblige('%s: all four %s of a cell are in its partition' % (rel(e.where), WORD[k]), n.a[0] == 4, e.where, 'only %s of the four %s of a cell are put in its partition' % (n.a[0], WORD[k]), key='set ' + k)
            if k is None: R.notes.append('%s: what is put in a partition is not recognised: %s' % (rel(e.where), show(v, -4))); f.kind[root] = None; continue
            if f.kind.get(root, k) != k: f.kind[root] = None; continue
            f.kind[root] = k
            pc = f.pvec(part)
            if pc is None:
                if part.op in ('iv', 'num', 'poly', 'imod', 'idiv'): R.violation(e.where, '%s are put in partition %s, not in that of the cell' % (WORD[k], show(part, 3)), key='set ' + k)
                else: R.notes.append('%s: partition not recognised: %s' % (rel(e.where), show(part, -4)))
                continue
            R.oblige('%s: %s are put in the partition of the cell' % (rel(e.where), WORD[k]), pc is cell, e.where, '%s of cell %s are put in the partition of cell %s' % (WORD[k], show(cell, 3), show(pc, 3)), key='set ' + k)
            n = f.count(cell) if cell.op == 'iv' else None
            if n is None: R.notes.append('%s: cells not recognised' % rel(e.where)); continue
            p = f.path(n)
            if p is None: R.notes.append('%s: number of cells not recognised: %s' % (rel(e.where), show(n, -3))); continue
            ok = p[1] and (p[1][-1] == ('f', 'c_numCells') or p[1][-1] == ('f', '#n'))
            R.oblige('%s: the %s of every cell are put in its partition' % (rel(e.where), WORD[k]), ok and not any(L.early for L in loops_of(e)) and not conds_in(f, e), e.where, 'the %s of some cells are not put in their partition' % WORD[k], key='all ' + k)

def judge_maps(f):
    R = f.R
    f.mkind = {}
    for root, ins in f.maps.items():
        for part, key, v, e in ins:
            el = f.elem(key)
            if key.op == 'iv' and f.elem(v): R.violation(e.where, 'local numbers are used as keys and global numbers as values', key='number'); f.mkind[root] = None; continue
            if el is None or el[0] not in f.kind or f.kind[el[0]] is None: R.notes.append('%s: key not recognised: %s' % (rel(e.where), show(key, -4))); f.mkind[root] = None; continue
            k = f.kind[el[0]]
            if f.mkind.get(root, k) != k: f.mkind[root] = None; continue
            f.mkind[root] = k
            R.oblige('%s: the local numbers of a partition are those of its %s' % (rel(e.where), WORD[k]), el[1] is part, e.where, 'the %s of partition %s are numbered in partition %s' % (WORD[k], show(el[1], 2), show(part, 2)), key='number ' + k)
            if v is not el[2]:
                if v.op in ('num', 'poly', 'iv', 'init', 'fin', 'mu'):
                    R.violation(e.where, 'the %s of a partition are not numbered from 0 without gaps: element %s gets number %s' % (WORD[k], show(el[2], 2), show(v, -4)), key='number ' + k)
                else: R.notes.append('%s: number not recognised: %s' % (rel(e.where), show(v, -4)))
                continue
            R.oblige('%s: %s are numbered from 0 without gaps' % (rel(e.where), WORD[k]), not any(L.early for L in loops_of(e)) and not conds_in(f, e) and f.allparts(part), e.where, 'some %s get no local number' % WORD[k], key='number ' + k)

def same(f, v, want, p):
    """v is the number 'want' of partition p: want = ('id', V) or ('map', kind, partition, key V) or ('ser', ...) ; True / False / None"""
    if want[0] == 'id':
        if f.eq(v, want[1]): return True
        return False if v.op in ('num', 'iv', 'init', 'poly', 'sel') else None
    if want[0] == 'ser':
        s = f.serial(v)
        if s is None: return False if v.op in ('num', 'iv') or f.index(v) else None
        return s[0] == want[1] and f.eq(s[1], want[2]) and s[2] == want[3] and s[3] is want[4]
    if want[0] == 'map':
        i = f.index(v)
        if i is None:
            return False if v.op in ('num', 'iv') or f.serial(v) or f.elem(v) or f.pvec(v) is not None else None
        if i[0] not in f.mkind or f.mkind[i[0]] is None: return None
        if f.mkind[i[0]] != want[1]: return False
        q = i[1]
        okp = q is want[2] or want[2] is None
        return okp and i[2] is want[3] if not callable(want[3]) else okp and want[3](i[2])

UNCOND = {'cell': {'globalID': None, 'materialIndex': None, 'boundingFaces': 4, 'boundingNodes': 4},
          'face': {'globalID': None, 'boundingNodes': 3},
          'node': {'globalID': None, 'coords': 3}}
FACE = ('boundaryType', 'boundingCells', 'partition')

def judge_records(f):
    R, eng = f.R, f.eng
    seen = {}
    faces = []
    for e in eng.events:
        if e.kind != 'write' or e.name in ('ext', 'put') or len(e.locs) != 1 or not isinstance(e.locs[0], Loc) or e.locs[0].root[0] != 'S': continue
        s = f.short(eng.resolve_loc(e.locs[0]).path)
        if len(s) == 4 and s[0] == ('f', 'c_partitionData') and s[3][0] == 'f' and s[3][1] in ('numCells', 'numFaces', 'numNodes'):
            k = {'numCells': 'cell', 'numFaces': 'face', 'numNodes': 'node'}[s[3][1]]
            p = f.path(f.r(e.args[0]))
            if p is None or len(p[1]) != 3 or p[1][2] != ('f', '#n') or f.kind.get(p[0], f.mkind.get(p[0])) is None: R.notes.append('%s: %s not recognised: %s' % (rel(e.where), s[3][1], show(f.r(e.args[0]), -4))); continue
            R.oblige('%s: %s is the number of %s of the partition' % (rel(e.where), s[3][1], WORD[k]), f.kind.get(p[0], f.mkind.get(p[0])) == k and p[1][1][1] is s[2][1] and f.allparts(s[2][1]), e.where, '%s of a partition is not the number of its %s' % (s[3][1], WORD[k]), key=s[3][1])
            seen[s[3][1]] = True
            continue
        if len(s) not in (7, 8) or s[0] != ('f', 'c_partitionData') or s[3][0] != 'f' or s[3][1] not in KIND or s[5][0] != 'i' or s[6][0] != 'f': continue
        kind, p, idx, fld_ = KIND[s[3][1]], s[2][1], s[5][1], s[6][1]
        comp = s[7][1] if len(s) == 8 else None
        g = None
        ix = f.index(idx)
        if ix is not None:
            el = f.elem(ix[2])
            if el is None or f.kind.get(el[0]) is None or f.mkind.get(ix[0]) is None: R.notes.append('%s: element not recognised: %s' % (rel(e.where), show(idx, -4))); continue
            R.oblige('%s: a record of a partition is at the local number of its element' % rel(e.where), f.mkind[ix[0]] == kind and f.kind[el[0]] == kind and ix[1] is p and el[1] is p, e.where, 'a record of the %s of a partition is put at the number of another kind or partition' % WORD[kind], key='place ' + kind)
            g = ix[2]
        elif idx.op == 'iv':
            for c in [x for x in subvals(f.r(e.args[0])) if f.elem(x)]:
                el = f.elem(c)
                if el[2] is idx and f.kind.get(el[0]) == kind and el[1] is p: g = c
        if g is None: R.notes.append('%s: element not recognised: %s' % (rel(e.where), show(idx, -4))); continue
        iv = f.elem(g)[2]
        R.oblige('%s: records of all partitions' % rel(e.where), f.allparts(p) and not any(L.early for L in loops_of(e)), e.where, 'not every partition gets its records', key='partitions')
        if fld_ in UNCOND[kind]:
            v = f.r(e.args[0])
            n = UNCOND[kind][fld_]
            if n is not None:
                c = f.count(comp) if comp is not None and comp.op == 'iv' else None
                if comp is None or c is None or c.op != 'num':
                    if comp is not None and comp.op == 'num': seen.setdefault((kind, fld_), set()).add(comp.a[0])
                    else: R.notes.append('%s: component not recognised' % rel(e.where)); continue
                else: R.oblige('%s: all %d %s' % (rel(e.where), n, fld_), c.a[0] == n, e.where, '%s of the %d %s are set' % (c.a[0], n, fld_), key='%s %s' % (kind, fld_))
            want = ('id', g) if fld_ == 'globalID' else ('ser', TABLE[kind], g, fld_, comp) if fld_ in ('materialIndex', 'coords') else None
            if want is None:
                sub_ = {'boundingFaces': 'face', 'boundingNodes': 'node'}[fld_]
                def key(x, g=g, fld_=fld_, comp=comp, kind=kind):
                    s = f.serial(x)
                    return s is not None and s[0] == TABLE[kind] and f.eq(s[1], g) and s[2] == fld_ and s[3] is comp
                want = ('map', sub_, p, key)
            ok = same(f, v, want, p)
            if ok is None: R.notes.append('%s: %s not recognised: %s' % (rel(e.where), fld_, show(v, -6))); continue
            R.oblige('%s: %s of a %s is that of the serial mesh' % (rel(e.where), fld_, kind), ok and not conds_in(f, e), e.where, '%s of a %s of a partition is not that of the same %s of the serial mesh: %s' % (fld_, kind, kind, show(v, -5)), key='%s %s' % (kind, fld_))
            seen.setdefault((kind, fld_), True)
        elif kind == 'face' and fld_ in FACE: faces.append((fld_, comp, p, g, e))
    judge_faces(f, faces, seen)
    for k, fl in UNCOND.items():
        for x in fl:
            if (k, x) not in seen: R.notes.append('%s of %s: no value found' % (x, k))

def judge_faces(f, ws, seen):
    R, eng = f.R, f.eng
    if not ws: R.notes.append('neighbors of faces: no value found'); return
    p, g = ws[0][2], ws[0][3]
    if any(w[2] is not p or w[3] is not g for w in ws): R.notes.append('neighbors of faces: not recognised'); return
    def cellof(x):
        s = f.serial(x)
        return s[3] if s and s[0] == 'c_faceData' and f.eq(s[1], g) and s[2] == 'boundingCells' else None
    TYPE = {n.split('::')[-1]: int(v) for k, x in f.P.enums.items() if base(k) == 'BoundaryType' for n, v in x}
    M, Pb, N = TYPE.get('MeshBoundary', 0), TYPE.get('PartitionBoundary', 1), TYPE.get('NotBoundary', 2)
    R.oblige('kinds of boundary have the numbers of the file format', (M, Pb, N) == (0, 1, 2), ws[0][4].where, 'the numbers of the kinds of boundary are not those of the file format', key='kinds')
    where = ws[0][4].where
    def run(case):
        """values of the fields of a face whose two cells are in the given cases"""
        st = {}
        inner = None
        items = []
        # group events of the loop over the two cells
        order = []
        for fld_, comp, _, _, e in ws:
            loops = [L for L in loops_of(e) if not L.early and L.count is not None and f.r(L.count) is num(2)]
            extra = [L for L in loops_of(e)]
            order.append((fld_, comp, e, loops[-1] if loops else None))
        i = 0
        while i < len(order):
            L = order[i][3]
            if L is None: items.append((order[i], None)); i += 1; continue
            j = i
            while j < len(order) and order[j][3] is L: j += 1
            for c in (0, 1):
                for o in order[i:j]: items.append((o, (L, c)))
            i = j
        for (fld_, comp, e, _), lc in items:
            rep = {}
            def cval(x):
                x = f.r(x)
                return f.r(eng.subst(x, {lc[0].iv: num(lc[1])})) if lc else f.r(x)
            gs = [cval(h) for h in conds_in(f, e)]
            f.absent = False
            bs = [truth(h, case) for h in gs]
            if False in bs: continue
            if None in bs and f.absent:
                R.violation(e.where, 'the partition of a cell that does not exist is looked up', key='absent')
                return {}
            if None in bs:
                R.notes.append('%s: condition not recognised: %s' % (rel(e.where), [show(h, -5) for h, b in zip(gs, bs) if b is None]))
                return None
            cp = None if comp is None else cval(comp)
            if cp is not None and cp.op != 'num': return None
            v = fold(cval(e.args[0]), case)
            if v is None: return None
            st[(fld_, None if cp is None else int(cp.a[0]))] = (v, e)
        return st
    def which(x):
        c = cellof(x)
        return int(c.a[0]) if c is not None and c.op == 'num' and c.a[0] in (0, 1) else None
    def truth(h, case):
        if h is TRUE: return True
        if h is FALSE: return False
        if h.op == 'not':
            b = truth(h.a[0], case)
            return None if b is None else not b
        if h.op in ('and', 'or'):
            bs = [truth(x, case) for x in h.a]
            if h.op == 'and': return False if False in bs else None if None in bs else True
            return True if True in bs else None if None in bs else False
        if h.op == 'eq0':
            t = terms(h.a[0])
            at = [k for k in t if k != ()]
            if len(at) == 1 and len(at[0]) == 1:
                c = which(at[0][0])
                if c is not None and abs(t[at[0]]) == 1:
                    k = -t.get((), 0) * t[at[0]]
                    return case[c] == 'none' if k in (MAX, -1) else None
            if len(at) == 2 and () not in t and {abs(t[a]) for a in at} == {1} and all(len(a) == 1 for a in at) and sum(t.values()) == 0:
                xs = [a[0] for a in at]
                y = [x for x in xs if x is not p]
                if len(y) == 1:
                    c = f.pvec(y[0])
                    c = which(c) if c is not None else None
                    if c is not None:
                        if case[c] == 'none': f.absent = True; return None
                        return case[c] == 'own'
                cs = [f.pvec(x) for x in xs]
                cs = [which(c) if c is not None else None for c in cs]
                if set(cs) == {0, 1}:
                    if 'none' in case: return None
                    return case[0] == case[1] == 'own' if 'own' in case else None
        if h.op == 'ge0':
            t = dict(terms(h.a[0]))
            k = t.pop((), 0)
            if len(t) == 2 and all(len(a) == 1 for a in t) and sorted(t.values()) == [-1, 1]:
                pos = [a[0] for a, n in t.items() if n == 1][0]; neg_ = [a[0] for a, n in t.items() if n == -1][0]
                x, sg = (pos, 1) if neg_ is p else (neg_, -1) if pos is p else (None, 0)
                c = f.pvec(x) if x is not None else None
                c = which(c) if c is not None else None
                if c is not None:
                    if case[c] == 'none': f.absent = True; return None
                    if case[c] == 'own': return k >= 0
                    up = (case[c] == 'above') == (sg == 1)        # the difference is at least 1, or at most -1
                    if up and k >= -1: return True
                    if not up and k < 1: return False
        return None
    def fold(v, case):
        for _ in range(20):
            if v.op != 'ite': return v
            b = truth(v.a[0], case)
            if b is None: return None
            v = f.r(v.a[1] if b else v.a[2])
        return None
    WHAT = {'none': 'no cell', 'own': 'a cell of the same partition', 'above': 'a cell of a higher partition', 'below': 'a cell of a lower partition'}
    for case in (('own', 'own'), ('own', 'above'), ('own', 'below'), ('above', 'own'), ('below', 'own'), ('own', 'none'), ('none', 'own')):
        st = run(case)
        if st == {}: continue
        if st is None: R.notes.append('neighbors of faces: case %s not recognised' % (case,)); continue
        txt = 'a face with %s on one side and %s on the other' % (WHAT[case[0]], WHAT[case[1]])
        bt = st.get(('boundaryType', None))
        want = M if 'none' in case else N if case == ('own', 'own') else Pb
        if bt is None: R.oblige('%s: the kind of boundary is set' % txt, False, where, 'the kind of boundary of %s is not set' % txt, key='boundaryType')
        elif bt[0].op != 'num': R.notes.append('%s: kind of boundary not recognised' % rel(bt[1].where))
        else: R.oblige('%s: the kind of boundary' % txt, bt[0].a[0] == want, bt[1].where, 'the kind of boundary of %s is %s, not %d' % (txt, bt[0].a[0], want), key='boundaryType')
        for c in (0, 1):
            for fld_ in ('boundingCells', 'partition'):
                x = st.get((fld_, c))
                if x is None: R.oblige('%s: %s of cell %d is set' % (txt, fld_, c), False, where, '%s of cell %d is not set for %s' % (fld_, c, txt), key=fld_); continue
                v, e = x
                if case[c] == 'none': ok = v.op == 'num' and v.a[0] in (MAX, -1)
                elif fld_ == 'partition':
                    y = f.pvec(v)
                    ok = (y is not None and which(y) == c) or case[c] == 'own' and v is p
                    if not ok and v.op not in ('num', 'iv') and y is None: R.notes.append('%s: not recognised: %s' % (rel(e.where), show(v, -4))); continue
                else:
                    i = f.index(v)
                    if i is None or f.mkind.get(i[0]) is None:
                        if v.op == 'num' or f.serial(v): ok = False
                        else: R.notes.append('%s: not recognised: %s' % (rel(e.where), show(v, -4))); continue
                    else:
                        y = f.pvec(i[1])
                        ok = f.mkind[i[0]] == 'cell' and which(i[2]) == c and ((y is not None and which(y) == c) or case[c] == 'own' and i[1] is p)
                R.oblige('%s: %s of side %d' % (txt, fld_, c), ok, e.where, '%s of %s on side %d is %s' % (fld_, txt, c, show(v, -14)), key=fld_)
                seen[('face', fld_)] = True

# ------------------------------------------------------------- partitioners
class Table(object): pass

def tables(R, eng):
    """{loop number: (root, N, S)}: arrays with T[0] = 0 and T[N] = S, set by increasing steps in that loop"""
    out = {}
    by = {}
    for e in eng.events:
        if e.kind == 'write' and len(e.locs) == 1 and isinstance(e.locs[0], Loc) and e.locs[0].root[0] == 'L' and e.name not in ('copy', 'sort'):
            p = eng.resolve_loc(e.locs[0]).path
            if len(p) == 2 and p[0] == ('f', '#d') and p[1][0] == 'i' and e.args: by.setdefault(e.locs[0].root, []).append((eng.resolve(p[1][1]), eng.resolve(e.args[0]), e))
    for root, ws in by.items():
        zero = [w for w in ws if w[0] is num(0) and w[1] is num(0)]
        groups = {}
        for w in ws:
            if any(w is z for z in zero): continue
            ls = loops_of(w[2])
            if ls: groups.setdefault(ls[-1].n, []).append(w)
        for n, g in groups.items():
            L = eng.lmap.get(n)
            if L is None or L.count is None or L.early: continue
            N = eng.resolve(L.count)
            iv = L.iv
            if any(w[0] is not add(iv, num(1)) for w in g): continue
            def prev(v):
                """v without the previous entry"""
                for m, k in terms(v).items():
                    if len(m) == 1 and k == 1 and m[0].op == 'sel' and m[0].a[0].op == 'mu' and m[0].a[0].a[0] == n and m[0].a[1][0] == 'i' and eng.resolve(m[0].a[1][1]) is iv and isinstance(m[0].a[0].a[1], Loc) and m[0].a[0].a[1].root == root: return sub(v, m[0])
                return None
            steps = []
            for ix, v, e in g:
                gs = [eng.resolve(x) for fr in frames(e.ctx) if fr.kind in ('if', 'assume') for x in lits(fr.a)]
                gs = [x for x in relguards(eng, e, [L])]
                steps.append((gs, prev(v), e))
            if any(s[1] is None for s in steps): continue
            t = Table(); t.root, t.N, t.L, t.where, t.n = root, N, L, g[-1][2].where, n
            t.zero = bool(zero)
            out[n] = t
            t.total = total(eng, N, iv, steps)
    return out

def total(eng, N, iv, steps):
    """sum of the steps over the loop, or None (not recognised), or False (known not to be a whole)"""
    base_ = [s for s in steps if not s[0]]
    cond = [s for s in steps if s[0]]
    if len(base_) != 1 or len(cond) > 1: return None
    q = base_[0][1]
    c = None
    if cond:
        if len(cond[0][0]) != 1: return None
        c = next(iter(cond[0][0]))
        if sub(cond[0][1], q) is not num(1): return None
    else:
        it = [m[0] for m, k in terms(q).items() if len(m) == 1 and k == 1 and m[0].op == 'ite']
        if len(it) == 1 and it[0].a[1] is num(1) and it[0].a[2] is num(0): c, q = it[0].a[0], sub(q, it[0])
        elif len(it) == 1 and it[0].a[1] is num(0) and it[0].a[2] is num(1): c, q = bnot(it[0].a[0]), sub(q, it[0])
    if q.op != 'idiv' or q.a[1] is not N: return None
    S = q.a[0]
    if c is None: return False
    if iv not in subvals(c): return False
    if c.op != 'ge0': return None
    # imod(S, N) - iv + k >= 0: true imod + k + 1 times
    d = sub(c.a[0], sub(mk('imod', S, N), iv))
    if d.op != 'num': return None
    return S if d.a[0] == -1 else False

def columns(R, P, f, caller=None):
    """the assignment covers all cells once and is in range"""
    eng = Engine(P, virtual_opaque=True, noinline=['ParallelMesh::createFromSerialMesh', 'ParallelMesh::write'])
    eng.run(f)
    R.analysed(f['n'])
    calls = [e for e in eng.events if e.kind == 'call' and base(e.name) == 'createFromSerialMesh']
    if not calls: return False
    call = calls[0]
    vec = [a for a in call.args if isinstance(a, V)]
    NP = eng.resolve(vec[-1])
    T = tables(R, eng)
    pv = []
    def isvec(l):
        return isinstance(l, Loc) and l.root[0] == 'L' and len(l.path) == 2 and l.path[0] == ('f', '#d') and l.path[1][0] == 'i' and str(l.root[3]) == vecname
    vecloc = [a.a[0] for a in call.args if isinstance(a, V) and a.op == 'addr' and isinstance(a.a[0], Loc)] + [l for l in call.locs if isinstance(l, Loc)]
    arrs = {}
    for e in eng.events:
        if e.kind == 'write' and len(e.locs) == 1 and isinstance(e.locs[0], Loc) and e.locs[0].root[0] == 'L' and e.seq < call.seq:
            p = e.locs[0].path
            if len(p) == 2 and p[0] == ('f', '#d') and p[1][0] == 'i': arrs.setdefault(e.locs[0].root, []).append(e)
    roots = {l.root for l in vecloc}
    ws = [e for r, es in arrs.items() if r in roots for e in es]
    if not ws: R.notes.append('%s: assignment not found' % rel(f['n'])); return True
    for e in ws:
        v = eng.resolve(e.args[0])
        ix = eng.resolve(eng.resolve_loc(e.locs[0]).path[1][1])
        if e.name in ('ext',): continue
        range_(R, eng, e, v, NP)
        cover(R, eng, e, ix, T)
    return True

def cells(eng, c):
    """is c the number of cells: True, False, or None (not recognised)"""
    for w in eng.events:
        if w.kind == 'write' and len(w.locs) == 1 and isinstance(w.locs[0], Loc) and w.locs[0].path and w.locs[0].path[-1][0] == 'f' and base(w.locs[0].path[-1][1]) == 'c_numCells' and w.args and isinstance(w.args[0], V):
            if eng.resolve(w.args[0]) is c: return True
    d = [m for m in terms(c) if m]
    if len(d) == 1 and len(d[0]) == 1 and d[0][0] is not c:
        r = cells(eng, d[0][0])
        return False if r else r
    if c.op == 'num': return False
    p = place(c)
    if p is None or not p[1] or p[1][-1][0] != 'f': return None
    return base(p[1][-1][1]) in ('c_numCells', '#n')

def range_(R, eng, e, v, NP):
    """v < NP"""
    if v.op == 'num':
        R.oblige('%s: the partition number is in range' % rel(e.where), v.a[0] == 0, e.where, 'the partition number is the constant %s' % v.a[0], key='range'); return
    if v.op == 'sel' and any(s.op == 'out' for s in subvals(v)): R.count('numbers given by the partitioning library'); return
    u = upper(eng, v)
    if u is None: R.notes.append('%s: partition number not recognised: %s' % (rel(e.where), show(v, -4))); return
    d = sub(sub(NP, num(1)), u)
    if d.op == 'num': R.oblige('%s: the partition number is in range' % rel(e.where), d.a[0] >= 0, e.where, 'the partition number %s is not below the number of partitions' % show(v, -4), key='range')
    else: # different monomials: the largest number is not the number of partitions less one
        R.oblige('%s: the partition number is in range' % rel(e.where), False, e.where, 'the largest partition number is %s, with %s partitions' % (show(u, -4), show(NP, -4)), key='range')

def cover(R, eng, e, ix, T):
    """the cells ix are all cells, each once"""
    Ls = loops_of(e)
    if any(L.early for L in Ls): R.oblige('%s: every cell is assigned' % rel(e.where), False, e.where, 'the loop that assigns cells can end early', key='cover'); return
    if ix.op == 'iv':
        L = loop_of(eng, ix)
        c = eng.resolve(L.count) if L is not None and L.count is not None else None
        ok = cells(eng, c) if c is not None else None
        if ok is None: R.notes.append('%s: cells not recognised' % rel(e.where)); return
        R.oblige('%s: every cell is assigned' % rel(e.where), ok and not relguards(eng, e, Ls[:1]), e.where, 'not every cell is assigned a partition', key='cover')
        return
    # the cell of an entry of a permutation of the cells
    s = ix
    if s.op != 'sel' or s.a[1][0] != 'f' or s.a[0].op != 'sel' or s.a[0].a[1][0] != 'i': R.notes.append('%s: cell not recognised: %s' % (rel(e.where), show(ix, -4))); return
    pos = eng.resolve(s.a[0].a[1][1])
    fldn = s.a[1][1]
    arr = s.a[0].a[0]
    root = arr.a[1].root if arr.op in ('fin', 'mu') and isinstance(arr.a[1], Loc) else None
    if root is None: R.notes.append('%s: cell not recognised' % rel(e.where)); return
    # its entries: the cells in order, then only sorted
    for w in eng.events:
        if w.kind != 'write' or len(w.locs) != 1 or not isinstance(w.locs[0], Loc) or w.locs[0].root != root or w.seq > e.seq: continue
        pth = eng.resolve_loc(w.locs[0]).path
        if pth and pth[-1] == ('f', fldn):
            i = [q[1] for q in pth if q[0] == 'i']
            v = eng.resolve(w.args[0])
            okc = len(i) == 1 and eng.resolve(i[0]) is v and v.op == 'iv'
            L = loop_of(eng, v) if v.op == 'iv' else None
            c = eng.resolve(L.count) if L is not None and L.count is not None else None
            p = cells(eng, c) if c is not None else None
            if p is None: R.notes.append('%s: cells not recognised: %s' % (rel(w.where), show(c, -4) if c is not None else None)); return
            R.oblige('%s: the list holds every cell once' % rel(w.where), okc and p and not L.early and not relguards(eng, w, loops_of(w)[:1]), w.where, 'the list of cells does not hold every cell once', key='list')
        elif w.name not in ('sort', 'memcpy', '=', 'copy', 'init'): R.notes.append('%s: %s of the list not recognised' % (rel(w.where), w.name)); return
    # positions: begin + k, k below end - begin, tiles of the tables
    def entry(x):
        """(table, position, outer index) of a value of a chunk table"""
        if x.op != 'sel' or x.a[1][0] != 'i': return None
        i = eng.resolve(x.a[1][1])
        a = x.a[0]
        if a.op == 'fin' and a.a[0] in T and isinstance(a.a[1], Loc) and a.a[1].root == T[a.a[0]].root: return T[a.a[0]], i, None
        pl = place(x)
        if pl is None: return None
        o = [eng.resolve(q[1]) for q in pl[1] if q[0] == 'i']
        if len(o) != 2: return None
        # an array of tables: what is stored there
        for w in eng.events:
            if w.kind == 'write' and len(w.locs) == 1 and isinstance(w.locs[0], Loc) and w.locs[0].root == pl[0] and w.args and isinstance(w.args[0], V):
                pth = eng.resolve_loc(w.locs[0]).path
                wi = [eng.resolve(q[1]) for q in pth if q[0] == 'i']
                if len(wi) != 1: continue
                c = eng.resolve(w.args[0])
                d = eng.project(c, ('f', '#d')) if c.op != 'fin' else c
                if d.op == 'fin' and d.a[0] in T: return T[d.a[0]], o[1], (o[0], wi[0], loops_of(w))
        return None
    ks = [m[0] for m, k in terms(pos).items() if len(m) == 1 and k == 1 and m[0].op == 'iv' and any(L.iv is m[0] for L in Ls)]
    done = False
    for k in ks:
        L = loop_of(eng, k)
        c = eng.resolve(L.count) if L.count is not None else None
        begin = sub(pos, k)
        if c is None: continue
        bs = [(entry(m[0]), kk) for m, kk in terms(begin).items() if len(m) == 1]
        cs = [(entry(m[0]), kk) for m, kk in terms(c).items() if len(m) == 1]
        if any(b[0] is None for b in bs) or any(b[0] is None for b in cs) or any(len(m) > 1 for x in (begin, c) for m in terms(x)) or not bs or len(cs) != 2: continue
        if any(terms(x).get((), 0) for x in (begin, c)):
            R.oblige('%s: a partition takes one chunk' % rel(e.where), False, e.where, 'the cells of a partition are not those of one chunk', key='chunk'); done = True; continue
        done = True
        lo = [x for x, kk in cs if kk == -1]; hi = [x for x, kk in cs if kk == 1]
        ok = len(lo) == 1 and len(hi) == 1 and lo[0][0] is hi[0][0] and sub(hi[0][1], lo[0][1]) is num(1) and all(kk == 1 for _, kk in bs)
        tl = lo[0] if lo else None
        inb = [x for x, _ in bs]
        ok = ok and any(x[0] is tl[0] and x[1] is tl[1] for x in inb)
        R.oblige('%s: a partition takes one chunk' % rel(e.where), ok, e.where, 'the cells of a partition are not those of one chunk', key='chunk')
        if not ok: continue
        # innermost table: all chunks, its total the length of the outer chunk or the number of cells
        chain_ = [tl] + [x for x in inb if x[0] is not tl[0]]
        for n_, x in enumerate(chain_):
            t, i, outer = x
            Lo = loop_of(eng, i)
            N = eng.resolve(Lo.count) if Lo is not None and Lo.count is not None else None
            if N is None: R.notes.append('%s: chunk not recognised' % rel(e.where)); return
            R.oblige('%s: all chunks are assigned' % rel(e.where), N is norm_count(eng, t, outer, N), e.where, 'not every chunk is assigned to a partition', key='chunks')
            if t.total is None: R.notes.append('%s: chunk table not recognised' % rel(t.where)); continue
            if t.total is False or not t.zero:
                R.oblige('%s: the chunks are the whole' % rel(t.where), False, t.where, 'the chunks do not make up all elements', key='table'); continue
            S = t.total
            nx = chain_[n_ + 1] if n_ + 1 < len(chain_) else None
            if nx is None:
                p = cells(eng, S)
                if p is None: R.notes.append('%s: number of elements not recognised: %s' % (rel(t.where), show(S, -4))); continue
                R.oblige('%s: the chunks are the whole' % rel(t.where), p, t.where, 'the chunks do not make up all cells', key='table')
            else:
                es = [(entry(m[0]), kk) for m, kk in terms(S).items() if len(m) == 1]
                if len(es) != 2 or any(x[0] is None for x in es): R.notes.append('%s: number of elements not recognised: %s' % (rel(t.where), show(S, -4))); continue
                h = [x for x, kk in es if kk == 1]; l = [x for x, kk in es if kk == -1]
                okS = len(h) == 1 and len(l) == 1 and h[0][0] is nx[0] and l[0][0] is nx[0] and sub(h[0][1], l[0][1]) is num(1)
                if okS and outer is not None:
                    okS = outer[0] is nx[1] and outer[1] is l[0][1]      # same chunk when stored and when used
                R.oblige('%s: the chunks are the whole' % rel(t.where), okS, t.where, 'the chunks of a chunk do not make up the chunk', key='table')
    if not done: R.notes.append('%s: position not recognised: %s' % (rel(e.where), show(pos, -5)))

def norm_count(eng, t, outer, N): return t.N

def metis(R, P, f):
    """the graph given to the library, and what becomes of its answer"""
    eng = Engine(P, virtual_opaque=True)
    eng.run(f)
    calls = [e for e in eng.events if e.kind == 'call' and base(e.name).startswith('METIS_PartGraph')]
    if not calls: return
    R.analysed(f['n'])
    call = calls[0]
    def root(i):
        a = call.args[i] if i < len(call.args) else None
        return a.a[0].root if isinstance(a, V) and a.op == 'addr' and isinstance(a.a[0], Loc) else None
    def content(i):
        a = call.args[i]
        r = root(i)
        ws = [e for e in eng.events if e.kind == 'write' and e.seq < call.seq and len(e.locs) == 1 and isinstance(e.locs[0], Loc) and e.locs[0].root == r and not e.locs[0].path]
        return eng.resolve(ws[-1].args[0]) if ws else None
    nv, npart = content(0), content(7)
    if nv is not None:
        p = cells(eng, nv)
        if p is not None: R.oblige('the graph has every cell', p, call.where, 'the graph does not have every cell', key='graph')
    if npart is not None: R.oblige('the library makes as many partitions as asked for', npart.op == 'sym' and npart.a[0] in [p['n'] for p in f['params']], call.where, 'the library makes %s partitions' % show(npart, -3), key='parts')
    out = root(12)
    ok = None
    for e in eng.events:
        if e.kind == 'write' and e.seq > call.seq and len(e.locs) == 1 and isinstance(e.locs[0], Loc) and e.locs[0].root[0] in ('P', 'D') and e.name == '=':
            pth = eng.resolve_loc(e.locs[0]).path
            if len(pth) != 2 or pth[1][0] != 'i': continue
            ix, v = eng.resolve(pth[1][1]), eng.resolve(e.args[0])
            if not any(s.op == 'out' for s in subvals(v)): 
                if v.op in ('num', 'iv', 'poly'): R.violation(e.where, 'the partition of a cell is not the answer of the library', key='answer')
                else: R.notes.append('%s: not recognised: %s' % (rel(e.where), show(v, -4)))
                continue
            okv = v.op == 'sel' and v.a[1][0] == 'i' and v.a[0].op == 'out' and eng.resolve(v.a[1][1]) is ix and any(isinstance(l, Loc) and l.root == out for l in v.a[0].a)
            R.oblige('%s: a cell gets the answer for it' % rel(e.where), okv, e.where, 'a cell gets the partition of another', key='answer')
            cover(R, eng, e, ix, {})
            ok = True
    if ok is None: R.notes.append('the answer of the library: not recognised')

def check(R):
    P = R.prog('PartitionColumns')
    R.rule('Each partition holds the cells assigned to it and all their faces and vertices; local numbers count the elements of each set from 0; each record is that of its element: same global number, material, coordinates, and local '
           'numbers of the faces and vertices of the same partition. A face has the local number and partition of the cell on each side, or none, and the kind of boundary that follows from them. Every cell is assigned a partition '
           'below the number of partitions.')
    R.assumption('the faces of the serial mesh have the cells that have them; the METIS library returns partition numbers in range')
    fs = user_funcs(P, lambda g: base(g['n']) == 'createFromSerialMesh')
    if not fs: R.need(0, 1, 'createFromSerialMesh'); return
    for fn in fs:
        eng = Engine(P)
        eng.run(fn)
        R.analysed(fn['n'])
        f = Form(R, P, fn, eng)
        collect(f)
        judge_sets(f)
        judge_maps(f)
        judge_records(f)
    for f in user_funcs(P, lambda g: g['n'] == 'main'): columns(R, P, f)
    P = R.prog('PartitionMetis')
    for f in user_funcs(P, lambda g: g['n'] == 'main'): columns(R, P, f)
    for f in user_funcs(P, lambda g: base(g['n']) not in ('main',)): 
        if any(n.get('k') == 'call' and 'METIS_' in str(n.get('n') or n.get('f') or n) for n in walk(f['body'])): metis(R, P, f)
