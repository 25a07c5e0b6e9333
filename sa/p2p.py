"""Point-to-point messages of a function traced with its callees: starts, completions, and which memory they use."""
from .common import *
from .whole import closure

START = {'MPI_Isend': 6, 'MPI_Irecv': 6, 'MPI_Issend': 6, 'MPI_Irsend': 6, 'MPI_Ibsend': 6}
ISEND = {'MPI_Isend', 'MPI_Issend', 'MPI_Irsend', 'MPI_Ibsend'}
BSEND = {'MPI_Send', 'MPI_Ssend', 'MPI_Rsend'}
RECV = {'MPI_Recv', 'MPI_Irecv', 'MPI_Mrecv'}
DONE = {'MPI_Wait': 0, 'MPI_Waitall': 1, 'MPI_Waitany': 1, 'MPI_Waitsome': 1, 'MPI_Test': 0, 'MPI_Testall': 1, 'MPI_Testany': 1, 'MPI_Testsome': 2}
P2P = set(START) | BSEND | RECV | set(DONE) | {'MPI_Iprobe', 'MPI_Probe', 'MPI_Sendrecv'}

def calls_in(f, names):
    return any(n.get('k') == 'call' and n.get('n') in names for n in walk(f['body']))

def direct(P, names=P2P):
    return [f for f in user_funcs(P) if calls_in(f, names)]

def callers(P):
    c = getattr(P, '_callers2', None)
    if c is None:
        c = P._callers2 = {}
        for f in user_funcs(P):
            for n in walk(f['body']):
                if n.get('k') in ('call', 'ctor', 'fref') and n.get('fn'): c.setdefault(n['fn'], set()).add(f['usr'])
    return c

_tr = {}
def trace(R, P, f):
    k = (P.cfg if hasattr(P, 'cfg') else id(P), f['usr'])
    if k not in _tr:
        eng = Engine(P, opaque=MESH_GETTERS + QUAD_GETTERS, noinline=[h for h in HEAVY if h != f['n']], virtual_opaque=True)
        eng.run(f)
        _tr[k] = eng
    R.analysed(f['n'])
    return _tr[k]

def aloc(eng, v):
    """location an address argument points to, indices resolved"""
    v = eng.resolve(v)
    if v.op == 'addr' and isinstance(v.a[0], Loc): return rloc(eng, v.a[0])
    return None
def rloc(eng, l):
    if isinstance(l, CondLoc): return None
    p = []
    for s in l.path:
        if s[0] == 'i': p.append(('i', eng.resolve(s[1])))
        elif s[0] == 'x': p.append(('x', tuple(eng.resolve(y) for y in s[1])))
        else: p.append(s)
    return mkloc(l.root, tuple(p))

def container(l):
    """the container whose element l is: c for c.#d[i]"""
    p = l.path
    if len(p) >= 2 and p[-1][0] == 'i' and p[-2] == ('f', '#d'): return mkloc(l.root, p[:-2])
    if p and p[-1][0] == 'i': return mkloc(l.root, p[:-1])       # plain array
    return l

def cpchain(cp):
    s = {0}
    while cp is not None: s.add(cp[1]); cp = cp[0]
    return s

def varies(eng, v, Ls):
    """does the value change between the iterations of one of the loops"""
    ns = {L.n for L in Ls}
    def seqin(n):
        e = eng.events[n] if isinstance(n, int) and 0 <= n < len(eng.events) else None
        return e is not None and any(L in Ls for L in loops_of(e))
    for x in subvals(v):
        if x.op in ('iv', 'mu') and x.a[0] in ns: return True
        if x.op == 'fin' and x.a[0] not in ns:
            # a loop inside one of Ls
            L = loop_n(eng, x.a[0])
            if L is not None and any(L2 in Ls for L2 in outer(eng, L)): return True
        if x.op == 'out' and seqin(x.a[0]): return True
        if x.op == 'lit': return True
    return False
def loop_n(eng, n):
    for L in eng.loops:
        if L.n == n: return L
    return None
def outer(eng, L):
    for e in eng.events:
        ls = loops_of(e)
        if L in ls: return ls[:ls.index(L)]
    return []

class Msg(object):
    """one started request"""
    def __init__(m, eng, ev):
        m.eng, m.ev = eng, ev
        m.send = ev.name in ISEND
        m.buf = aloc(eng, ev.args[0])
        m.cnt, m.type = eng.resolve(ev.args[1]), mpi_const(ev.args[2])
        m.peer, m.tag = eng.resolve(ev.args[3]), eng.resolve(ev.args[4])
        m.req = aloc(eng, ev.args[START[ev.name]])
        m.holder, m.stored = m._holder()
        m.done = m._done()
    def _holder(m):
        """container (or variable) the request ends up in, and the event that puts it there"""
        if m.req is None: return None, None
        best, at = m.req, m.ev
        for e in m.eng.events:
            if e.seq <= m.ev.seq: continue
            if e.kind == 'cont' and e.name in ('push', 'insert', 'assign') or e.kind == 'write':
                if e.args and isinstance(e.args[0], V):
                    v = m.eng.resolve(e.args[0])
                    if v.op == 'out' and v.a[0] == m.ev.seq and len(v.a) > 1 and v.a[1] == START[m.ev.name] and e.locs and e.name not in ('ext', 'put'):
                        l = rloc(m.eng, e.locs[0])
                        if l is None: continue
                        if e.kind == 'cont': l = mkloc(l.root, l.path + (('f', '#d'), ('i', ZERO)))
                        if l.root == m.req.root and l.path == m.req.path: continue
                        best, at = l, e
                        # a longer lived holder wins
        return best, at
    def _done(m):
        """completions of the request in this trace"""
        if m.holder is None: return []
        out = []
        hold = {(m.holder.root, container(m.holder).path), (m.holder.root, m.holder.path)}
        if m.req is not None: hold |= {(m.req.root, m.req.path)}
        for e in m.eng.events:
            if e.kind == 'call' and e.name in DONE and e.seq > m.ev.seq:
                l = aloc(m.eng, e.args[DONE[e.name]])
                if l is None: continue
                if (l.root, l.path) in hold or (l.root, container(l).path) in hold: out.append(e)
        return out

def stop_flag(eng, e):
    """a test: is its flag what ends the loop it is in"""
    fi = {'MPI_Test': 1, 'MPI_Testall': 2, 'MPI_Testany': 3}.get(e.name)
    if fi is None: return True
    for L in loops_of(e):
        vs = [x for x in (L.cond, getattr(L, 'pcond', None), getattr(L, 'early', None), getattr(L, 'exitv', None)) if x is not None]
        st = []
        for x in vs: st += list(x) if isinstance(x, (list, tuple)) else list(x.values()) if isinstance(x, dict) else [x]
        for x in st:
            if isinstance(x, V):
                for y in subvals(eng.resolve(x)):
                    if y.op == 'out' and y.a[0] == e.seq: return True
    return None
