"""Helpers shared by the checks."""
from .vals import *
from . import vals
from .engine import *
from . import engine
from .prog import AnalysisBroken, walk, Node

MESH_GETTERS = ['TychoMesh::' + x for x in
    ('getAdjCell getAdjRank getSide getLGSide getGLSide getSideCell getOmegaDotN isIncoming isOutgoing getAdjCellFromSide '
     'getAdjFaceFromSide getAdjFace getCellToFaceVrtx getFaceToCellVrtx getNeighborVrtx getCellVolume getFaceArea getLGCell '
     'getCellNode getCellMaterial getNodeCoord getCellVrtx getNSides getNNodes getCellVrtxCoords getFaceVrtxCoords').split()]
QUAD_GETTERS = ['Quadrature::' + x for x in 'getWt getMu getEta getXi getOmega'.split()]
HEAVY = ['GraphTraverser::traverse', 'Transport::solve', 'Util::sweepLocal', 'doComputation', 'CommSides::commSides']

def user_funcs(P, pred=None):
    out = []
    for u, f in sorted(P.funcs.items(), key=lambda x: (x[1]['n'], x[0])):
        if f.get('body') and (pred is None or pred(f)): out.append(f)
    return out

def modular(R, P, opaque=MESH_GETTERS + QUAD_GETTERS, noinline=HEAVY, skip=('main',), only=None, **kw):
    """run every function as an entry of its own; -> [(F, engine)]"""
    out = []
    kw.setdefault('virtual_opaque', True)
    for f in user_funcs(P):
        if f['n'] in skip: continue
        if only is not None and not only(f): continue
        eng = Engine(P, opaque=opaque, noinline=[n for n in noinline if n != f['n']], **kw)
        eng.run(f)
        R.analysed(f['n'])
        out.append((f, eng))
    return out

def G(name):
    """initial value of a global by short name is recognised by is_global"""
    return name
def is_global(v, name=None):
    if v.op == 'init' and isinstance(v.a[0], Loc) and v.a[0].root[0] == 'G' and not v.a[0].path:
        return name is None or v.a[0].root[2].split('::')[-1] == name
    return False
def global_name(v):
    return v.a[0].root[2].split('::')[-1] if is_global(v) else None

def loop_of(eng, v):
    """loop whose iteration symbol v is"""
    if v.op != 'iv': return None
    m = getattr(eng, '_lmap', None)
    if m is None or len(m) != len(eng.loops):
        m = eng._lmap = {L.n: L for L in eng.loops}
    return m.get(v.a[0])

def upper(eng, v):
    """largest value of an index expression, or None: every loop symbol at its last iteration"""
    v = eng.resolve(v)
    t = terms(v)
    r = ZERO
    found = False
    for m, c in t.items():
        term = num(c)
        neg_ = c < 0
        for x in m:
            if x.op == 'iv':
                L = loop_of(eng, x)
                if L is None or L.count is None: return None
                found = True
                if neg_: term = ZERO
                else: term = mul(term, sub(eng.resolve(L.count), ONE))
            elif x.op == 'imod' and not neg_:
                found = True
                term = mul(term, sub(x.a[1], ONE))
            elif x.op in ('init', 'sym', 'call', 'sel', 'out', 'idiv', 'mu', 'fin'): 
                term = mul(term, x)
            else: return None
        r = add(r, term)
    return r

def conds(ev, upto=None):
    """literals known to hold at an event"""
    out = []
    f = ev.ctx
    while f is not None and f is not upto:
        if f.kind in ('if', 'assume', 'assert'): out += lits(f.a)
        f = f.up
    return out

def in_frames(ev, pred):
    f = ev.ctx
    while f is not None:
        if pred(f): return f
        f = f.up
    return None

def field_short(l):
    return l.path[-1][1].split('::')[-1] if l.path and l.path[-1][0] == 'f' else None

def guards(ev, eng=None):
    """conditions an event is under, without loop conditions and without what ended runs establish"""
    out = []
    f = ev.ctx
    while f is not None:
        if f.kind == 'if':
            up = f.up
            if up is not None and up.kind == 'loop' and up.a.cond is f.a: pass
            else: out += lits(f.a)
        elif f.kind == 'assume': out += lits(f.a)
        f = f.up
    return out

def loops_of(ev):
    return [f.a for f in frames(ev.ctx) if f.kind == 'loop']

MPI_SIZE = {'ompi_mpi_double': 8, 'ompi_mpi_uint64_t': 8, 'ompi_mpi_int64_t': 8, 'ompi_mpi_byte': 1, 'ompi_mpi_char': 1,
            'ompi_mpi_int': 4, 'ompi_mpi_unsigned': 4, 'ompi_mpi_long': 8, 'ompi_mpi_unsigned_long': 8, 'ompi_mpi_uint32_t': 4,
            'ompi_mpi_float': 4, 'ompi_mpi_int32_t': 4, 'ompi_mpi_unsigned_char': 1, 'ompi_mpi_long_long_int': 8,
            'ompi_mpi_unsigned_long_long': 8, 'ompi_mpi_short': 2}
def mpi_const(v):
    """name of a predefined MPI object"""
    if v.op == 'addr' and isinstance(v.a[0], Loc) and v.a[0].root[0] == 'G': return v.a[0].root[2]
    return None

def word(eng, v, k, size=8):
    """value of the k-th 8-byte word of a buffer with content v (elements of 8 bytes), or None"""
    for _ in range(200):
        if v.op == 'rstore':
            base, at, src, n = v.a
            if at.op != 'num' or n.op != 'num': return None
            # position in elements of the buffer
            if at.a[0] * size <= k * size < at.a[0] * size + n.a[0]:
                if src.op == 'bytes' and src.a[0].op == 'at' and src.a[0].a[1].op == 'num':
                    return eng.project(src.a[0].a[0], ('i', num(src.a[0].a[1].a[0] + k - at.a[0])))
                return None
            v = base; continue
        if v.op in ('store', 'listinit', 'fill', 'init', 'upd'): 
            if v.op == 'store':
                s = v.a[1]
                if s[0] != 'i' or s[1].op != 'num': return None
                if s[1].a[0] == k: return v.a[2]
                v = v.a[0]; continue
            return eng.project(v, ('i', num(k)))
        return None
    return None

def unroll(eng, v, limit=8, depth=6):
    """replace the results of short counted loops by what their passes compute"""
    def states(n, memo={}):
        L = eng.lmap.get(n)
        if L is None or L.early or L.count is None or not isinstance(L.next, dict): return None
        c = eng.resolve(L.count)
        if c.op != 'num' or not 0 <= c.a[0] <= limit: return None
        nx = {k: eng.resolve(x) for k, x in L.next.items() if isinstance(x, V)}
        st = {k: eng.resolve(L.init[k]) for k in nx if k in L.init and isinstance(L.init[k], V)}
        if set(st) != set(nx): return None
        for i in range(int(c.a[0])):
            new = {}
            for k, x in nx.items():
                rep = {}
                for s in subvals(x):
                    if s.op == 'mu' and s.a[0] == n and s.a[1] in st: rep[s] = st[s.a[1]]
                    elif s.op == 'iv' and s.a[0] == n: rep[s] = num(i)
                new[k] = eng.subst(x, rep) if rep else x
            st = new
        return st
    for _ in range(depth):
        rep = {}
        for s in subvals(v):
            if s.op == 'fin' and len(s.a) == 2:
                st = states(s.a[0])
                if st and s.a[1] in st: rep[s] = st[s.a[1]]
        if not rep: return v
        v = eng.resolve(eng.subst(v, rep))
    return v
