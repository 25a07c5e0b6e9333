"""C13: the graph traversal computes every (cell, direction) pair once, upwind first."""
import re
from fractions import Fraction
from itertools import product
from sa.common import *
from sa.arrays import content
from checks.c15 import expand, is_x, xs_of
from checks.c01 import kids
from checks.c06 import leave

TECHNIQUE = 'truth tables of the conditions under which a face is waited for, notified locally and sent, plus value flow of queue entries, dependency counts and packets'
NOTE = """The condition under which a face is counted as a dependency, the one under which a finished pair notifies its neighbor and the one under which it sends a packet are evaluated for every combination
of direction, sign of the product, kind of face and communication setting, and compared: what one side waits for is exactly what the other side delivers. Queue and counter
updates are then followed through one step of the loops. Meshes and schedules are unbounded; that the graph itself has no cycle, and what the user's update computes, are not decided here."""

BIG = (1 << 64) - 1
OPAQUE = [x for x in MESH_GETTERS if not x.endswith(('isOutgoing', 'isIncoming'))] + QUAD_GETTERS
NOINL = ['GraphTraverser::sendAndRecvData', 'GraphTraverser::sendData2Sided', 'GraphTraverser::recvData2Sided', 'sendsDone', 'angleGroupIndex']

def rel(w): return w.split('/')[-1]

def call_leaves(v, name):
    return [s for s in subvals(v) if s.op == 'call' and str(s.a[0]).endswith('::' + name)]

def amount(eng, e, loc_val_ops=None):
    """value added by an update of a counter"""
    v = eng.resolve(e.args[0])
    old = [s for s in subvals(v) if s.op in ('sel', 'init', 'mu', 'fin', 'out') and terms(v).get((s,)) == 1 and same_place(eng, s, e.locs[0])]
    if not old: return None
    return sub(v, old[0])

def place(v):
    """(root, fields, index) of a value read from memory"""
    if v.op == 'init' and isinstance(v.a[0], Loc): return v.a[0].root, v.a[0].path
    if v.op in ('mu', 'fin') and isinstance(v.a[1], Loc): return v.a[1].root, v.a[1].path
    if v.op == 'havoc' and isinstance(v.a[1], Loc): return v.a[1].root, v.a[1].path
    if v.op == 'sel':
        p = place(v.a[0])
        if p: return p[0], p[1] + (v.a[1],)
    return None

def norm(eng, s):
    k = s[0]
    if k == 'x': return ('x', tuple(ivval(eng, i) for i in s[1]))
    if k == 'i': return ('i', ivval(eng, s[1]))
    return s

def ivval(eng, i):
    if not isinstance(i, V): return i
    i = eng.resolve(i)
    rep = {}
    for s in subvals(i):
        if s.op == 'mu' and s.a[0] in eng.lmap and eng.lmap[s.a[0]].iv is not None and s in (eng.lmap[s.a[0]].mu or {}).values(): pass
    return eng.subst(i, rep) if rep else i

def same_place(eng, v, l):
    p = place(v)
    if p is None or p[0] != l.root: return False
    a = tuple(norm(eng, s) for s in p[1]); b = tuple(norm(eng, s) for s in eng.resolve_loc(l).path)
    return a == b

def table_of(l):
    """(root, fields) of an indexed table element"""
    return l.root, tuple(p for p in l.path if p[0] == 'f' and not str(p[1]).startswith('#'))

def index_of(eng, l):
    for p in reversed(l.path):
        if p[0] == 'x': return [ivval(eng, i) for i in p[1]]
    return None

def gconds(eng, e, evs):
    return [expand(eng, evs, eng.resolve(g)) for g in guards(e)]

class Cond:
    """number of times an event happens for one face, as a function of the situation"""
    def __init__(self, eng, evs, e, dirv, commv, mult=ONE):
        self.eng = eng; self.g = band(*gconds(eng, e, evs)); self.mult = expand(eng, evs, mult); self.dirv = dirv; self.commv = commv
    def at(self, d, x, comm, cellB, rankB):
        rep = {}
        for v in (self.g, self.mult):
            for s in subvals(v):
                if is_x(s): rep[s] = num(x)
                elif s.op == 'call' and str(s.a[0]).endswith('::getAdjCell'): rep[s] = num(BIG if cellB else 5)
                elif s.op == 'call' and str(s.a[0]).endswith('::getAdjRank'): rep[s] = num(BIG if rankB else 3)
                elif s is self.dirv: rep[s] = num(d)
                elif s is self.commv: rep[s] = num(1 if comm else 0)
        g = self.eng.subst(self.g, rep); m = self.eng.subst(self.mult, rep)
        if g is FALSE: return 0
        if g is not TRUE:
            # what is left does not depend on the face: the queue, the MPI flavour, the count reaching zero
            left = [s for s in subvals(g) if is_x(s) or s is self.dirv or s is self.commv or s.op == 'call' and str(s.a[0]).endswith(('::getAdjCell', '::getAdjRank'))]
            if left: return None
        if m is TRUE: return 1
        if m is FALSE: return 0
        return int(m.a[0]) if m.op == 'num' else None

def check(R):
    P = R.prog('sweep')
    R.rule('For every sign of the product, traversal direction, kind of face and communication setting a cell counts a face as a dependency exactly when the cell on the other side, finding the product with the '
           'opposite sign, notifies it: in the same process by one decrement, from another by one packet. Pairs whose count is or becomes zero are queued once with their own cell and direction for the thread of the '
           'direction; a popped pair is computed once, subtracted once from what is left and then notifies every downwind face; the traversal ends only when nothing is left; what was sent is not sent again.')
    R.assumption('an interior face has an adjacent cell and a rank, a face between two processes a rank only, a face of the domain neither')
    R.assumption('virtual calls of the traversal data (update, getData, setSideData, getPriority) do not change the queues or counts')
    f = None
    try: f = P.fn('GraphTraverser::traverse')
    except Exception: pass
    ctor = [g for g in user_funcs(P, lambda g: g['n'] == 'GraphTraverser::GraphTraverser')]
    if f is None or not ctor: R.need(0, 1, 'GraphTraverser::traverse and its constructor'); return
    W, T = waits(R, P, ctor[0])
    walk_(R, P, f, W, T)
    collecting(R, P, f)

# ---------------------------------------------------------------- packets that arrive
def collecting(R, P, trav):
    """a message is put behind the packets that are there already, so none of them is lost"""
    from sa.p2p import aloc
    called = {n.get('n') for n in walk(trav['body']) if n.get('k') == 'call'}
    for f in user_funcs(P, lambda g: g['n'] in called and g['file'] == trav['file']):
        eng = Engine(P, opaque=OPAQUE, noinline=[], virtual_opaque=True)
        eng.run(f)
        for e in eng.events:
            if e.kind != 'call' or e.name not in ('MPI_Recv', 'MPI_Irecv') or e.fn is None: continue
            l = aloc(eng, e.args[0])
            if l is None or l.root[0] != 'P': continue
            l = eng.resolve_loc(l)
            ix = [k for k, p in enumerate(l.path) if p == ('f', '#d')]
            if not ix or len(l.path) != ix[-1] + 2 or l.path[-1][0] != 'i': continue
            nl = mkloc(l.root, l.path[:ix[-1]] + (('f', '#n'),))
            pos = eng.resolve(l.path[-1][1])
            # number of elements just before the last change of size ahead of the receive
            size = [c for c in eng.events if c.kind == 'cont' and c.seq < e.seq and len(c.locs) == 1 and c.locs[0] is not None and mkloc(c.locs[0].root, c.locs[0].path + (('f', '#n'),)) is nl]
            here = [c for c in size if c.name == 'resize' and loops_of(c) == loops_of(e)]
            if not here: R.notes.append('%s: how the buffer of the receive grows is not recognised' % rel(e.where)); continue
            lost = [c for c in size if c.name in ('clear', 'assign', 'erase') and loops_of(c)]
            p = place(pos)
            ok = p is not None and pos.op in ('mu', 'init', 'fin', 'havoc') and mkloc(p[0], p[1]) is nl
            new = eng.resolve(here[-1].args[0])
            R.analysed(f['n']); R.count('receives into the list of packets')
            if not ok and not any(s is not pos and place(s) and s.op in ('mu', 'init', 'fin') for s in subvals(pos)) and pos.op not in ('ite', 'num', 'min', 'max'):
                R.notes.append('%s: place of the receive not recognised: %s' % (rel(e.where), show(pos, -5))); continue
            R.oblige('%s: a message is received behind the packets that arrived before' % rel(e.where), ok and not lost, e.where,
                     '%s receives at element %s, which need not be the end of what arrived before: those packets are lost' % (f['n'], show(pos, -5)), key='collect')
            R.oblige('%s: the list of packets grows by the message' % rel(e.where), not ok or sub(new, pos) is eng.resolve(e.args[1]), e.where,
                     '%s makes room for %s elements and receives %s' % (f['n'], show(sub(new, pos), -4), show(eng.resolve(e.args[1]), -4)), key='collect')

# ---------------------------------------------------------------- the constructor
def param_value(eng, evs, field):
    """value a constructor stores in a field"""
    for e in evs:
        if e.kind == 'write' and e.args and len(e.locs) == 1 and isinstance(e.locs[0], Loc) and e.locs[0].path and e.locs[0].path[-1][0] == 'f' and str(e.locs[0].path[-1][1]).endswith('::' + field):
            return eng.resolve(e.args[0])
    return None

def covers(eng, v, what):
    """does an index take every value below `what`: True, False or None (not recognised); -> (verdict, loop)"""
    v = eng.resolve(v)
    t = terms(v)
    ivs = [(m[0], c) for m, c in t.items() if len(m) == 1 and m[0].op == 'iv']
    if len(ivs) != 1 or any(x.op == 'iv' for m, c in t.items() for y in m if y is not ivs[0][0] for x in subvals(y)): return None, None
    iv, c = ivs[0]
    L = eng.lmap.get(iv.a[0])
    if L is None or L.count is None: return None, L
    if L.early: return False, L
    n = eng.resolve(L.count)
    isN = is_global(n, what) if isinstance(what, str) else n is (what if isinstance(what, V) else num(what))
    if not isN:
        # a shorter or unknown range
        return (False if (c in (1, -1)) else None), L
    if c == 1: return sub(v, iv) is ZERO, L
    if c == -1: return add(v, iv) is sub(n, ONE), L
    return None, L

def span(L, eng): return show(eng.resolve(L.count), 3) if L is not None and L.count is not None else 'some'

def waits(R, P, f):
    eng = Engine(P, opaque=OPAQUE, virtual_opaque=True)
    eng.run(f); evs = eng.events
    R.analysed(f['n'])
    dirv, commv = param_value(eng, evs, 'c_direction'), param_value(eng, evs, 'c_doComm')
    if dirv is None or commv is None:
        for s in {s for e in evs for g in guards(e) for s in subvals(eng.resolve(g)) if s.op == 'sym'}:
            if str(s.a[0]) == 'direction': dirv = dirv or s
            if str(s.a[0]) == 'doComm': commv = commv or s
    out = []
    T = None
    for e in evs:
        if e.kind != 'write' or e.name in ('init',) or not e.args or len(e.locs) != 1 or not isinstance(e.locs[0], Loc): continue
        g = band(*gconds(eng, e, evs)); 
        v = eng.resolve(e.args[0])
        if not (xs_of(g) or xs_of(v)): continue
        ix = index_of(eng, e.locs[0])
        if ix is None or len(ix) != 2:
            if len(e.locs[0].path) == 0: continue      # a local flag or counter
            continue
        am = amount(eng, e)
        if am is None: R.notes.append('update of %s at %s not recognised' % (show_loc(e.locs[0]), rel(e.where))); continue
        t = table_of(e.locs[0])
        if T is None: T = t
        xs = xs_of(g) or xs_of(v)
        x = xs[0]
        if x.op == 'call' and len(x.a) >= 4:
            xa = [eng.resolve(a) for a in x.a[-3:]]
            R.oblige('dependency at %s is counted for the pair whose product decides' % rel(e.where), ix[0] is xa[0] and ix[1] is xa[1], e.where,
                     'the count of (direction %s, cell %s) depends on the product of (%s, %s)' % (show(ix[0], 2), show(ix[1], 2), show(xa[0], 2), show(xa[1], 2)), key='dependency index')
            for val, what, nm in ((xa[0], 'g_nAngles', 'directions'), (xa[1], 'g_nCells', 'cells'), (xa[2], 4, 'faces')):
                ok, L = covers(eng, val, what)
                if ok is None: R.notes.append('dependency count at %s: index %s is not a loop over %s' % (rel(e.where), show(val, 3), nm)); continue
                R.oblige('dependencies are counted over all %s' % nm, ok, e.where, 'dependencies are not counted over all %s (%s of %s steps)' % (nm, show(val, 3), span(L, eng)), key='dependency range')
        out.append(Cond(eng, evs, e, dirv, commv, am))
    R.count('places where dependencies are counted', len(out))
    R.need(len(out), 1, 'places where dependencies are counted')
    if dirv is None: R.notes.append('direction of the traversal not recognised in the constructor')
    # rank index tables are inverse to each other
    ins = [e for e in evs if e.kind == 'cont' and e.name in ('insert', 'emplace') and e.locs and 'c_adjRankToRankIndex' in show_loc(e.locs[0])]
    psh = [e for e in evs if e.kind == 'cont' and e.name == 'push' and e.locs and 'c_adjRankIndexToRank' in show_loc(e.locs[0])]
    for i in ins:
        for p in psh:
            v = eng.resolve(i.args[-1])
            first, second = getf(v, 'first'), getf(v, 'second')
            if first is None or second is None: continue
            ok = first is eng.resolve(p.args[0]) and second is eng.resolve(p.args[1]) and set(guards(i)) == set(guards(p))
            R.oblige('index of a rank leads back to the rank', ok, i.where, 'rank %s gets index %s, but the table of ranks holds %s at %s' % (show(first, 2), show(second, 2), show(eng.resolve(p.args[0]), 2), show(eng.resolve(p.args[1]), 2)), key='rank index')
    return out, T

def getf(v, name):
    while v.op == 'upd':
        if v.a[1] == ('f', name) or v.a[1][0] == 'f' and str(v.a[1][1]).split('::')[-1] == name: return v.a[2]
        v = v.a[0]
    return None

def show_loc(l): return str(l)

def total(cs, *s):
    n = 0
    for c in cs:
        r = c.at(*s)
        if r is None: return None
        n += r
    return n

def allfields(v):
    out = {}
    while v.op == 'upd':
        if v.a[1][0] == 'f': out.setdefault(v.a[1][1], v.a[2])
        v = v.a[0]
    return out

# ---------------------------------------------------------------- the traversal
def walk_(R, P, f, W, T):
    eng = Engine(P, opaque=OPAQUE, noinline=NOINL, virtual_opaque=True)
    eng.run(f); evs = eng.events
    R.analysed(f['n'])
    dirv = commv = None
    for e in evs:
        for g in guards(e):
            for s in subvals(expand(eng, evs, eng.resolve(g))):
                if s.op == 'init' and isinstance(s.a[0], Loc) and s.a[0].path and s.a[0].path[-1][0] == 'f':
                    n = str(s.a[0].path[-1][1])
                    if n.endswith('::c_direction'): dirv = s
                    if n.endswith('::c_doComm'): commv = s
    U = [e for e in evs if e.kind == 'call' and re.search(r'TraverseData::update$', e.name)]
    R.need(len(U), 1, 'calls that compute a pair')
    pops = [e for e in evs if e.kind == 'cont' and e.name == 'pop']
    pushes = [e for e in evs if e.kind == 'cont' and e.name in ('push', 'emplace') and e.locs and pops and e.locs[0].root == pops[0].locs[0].root]
    if not pops: R.notes.append('no queue is emptied in %s' % f['n']); return
    u = U[0]; pop = pops[0]
    c, a = eng.resolve(u.args[0]), eng.resolve(u.args[1])
    R.oblige('a pair is computed at one place only', len(U) == 1 and len(pops) == 1, u.where, 'pairs are computed at %d places and taken from the queue at %d' % (len(U), len(pops)), key='once')
    Lp = loops_of(pop)[-1] if loops_of(pop) else None
    same = loops_of(u) == loops_of(pop) and set(map(eng.resolve, guards(u))) == set(map(eng.resolve, guards(pop)))
    R.oblige('every pair taken from the queue is computed once', same, u.where, 'a pair taken from the queue at %s is computed under %s' % (rel(pop.where), 'a further condition or in a further loop'), key='computed')
    # the pair is the one popped
    fc, fa = popped(c), popped(a)
    if fc is None or fa is None:
        R.notes.append('the pair computed at %s is not read from the front of the queue: %s' % (rel(u.where), show(c, 3))); return
    R.oblige('cell and direction computed are of one queue entry', fc[0] is fa[0] and queue_of(fc[0]) == pop.locs[0].root, u.where, 'cell and direction computed do not come from the entry that is taken from the queue', key='popped')
    FC, FA = fc[1], fa[1]
    qidx = [p[1] for p in pop.locs[0].path if p[0] == 'i']
    qi = eng.resolve(qidx[0]) if qidx else None
    # ---- what is left
    outer = [L for L in loops_of(pop) if L.kind != 'omp'][0] if loops_of(pop) else None
    cnt = counters(eng, evs, outer)
    if cnt is None: R.notes.append('the loop of the traversal at %s is not left by a count' % rel(pop.where))
    else:
        cl = cnt
        ini = [e for e in evs if e.kind == 'write' and e.locs == [cl] and outer not in loops_of(e) and e.seq < pop.seq]
        dec = [e for e in evs if e.kind == 'write' and e.locs == [cl] and outer in loops_of(e)]
        if ini:
            v = eng.resolve(ini[-1].args[0])
            t = terms(v)
            ok = len(t) == 1 and list(t.values()) == [1] and sorted(global_name(x) or '?' for x in list(t)[0]) == ['g_nAngles', 'g_nCells']
            R.oblige('the traversal starts with all pairs to compute', ok, ini[-1].where, 'the number of pairs to compute starts as %s, not as the number of cells times directions' % show(v, 4), key='pairs')
        ok = len(dec) == 1 and loops_of(dec[0]) == loops_of(pop) and set(map(eng.resolve, guards(dec[0]))) == set(map(eng.resolve, guards(pop)))
        R.oblige('every computed pair is subtracted once from those left', ok, dec[0].where if dec else pop.where, 'the number of pairs left is changed at %d places, not exactly once for each pair taken from the queue' % len(dec) if len(dec) != 1 else
                 'the number of pairs left is not changed exactly once for each pair taken from the queue', key='pairs left')
        if ok:
            v = eng.resolve(dec[0].args[0])
            def at(L): return {s: num(0) for s in subvals(v) if s.op in ('mu', 'fin') and isinstance(s.a[1], Loc) and s.a[1] == cl}
            t = terms(v)
            k = t.get((), 0)
            R.oblige('one pair is subtracted', k == -1, dec[0].where, 'the number of pairs left changes by %s for one pair' % k, key='pairs left')
        for x in leave(outer):
            x = eng.resolve(x)
            m = [s for s in subvals(x) if s.op == 'mu' and s.a[1] == cl]
            if not m: 
                R.oblige('the traversal goes on while pairs are left', False, pop.where, 'the loop of the traversal can be left under %s although pairs are left' % show(x, 3), key='end'); continue
            bad = [k for k in (1, 2, 10 ** 6) if eng.subst(x, {m[0]: num(k)}) is TRUE]
            R.oblige('the traversal goes on while pairs are left', not bad, pop.where, 'the loop of the traversal is left with %s pairs to compute' % (bad and bad[0]), key='end')
    # ---- dependency table
    decs = []
    for e in evs:
        if e.kind != 'write' or not e.args or len(e.locs) != 1 or e.name == 'init': continue
        ix = index_of(eng, e.locs[0])
        if ix is None or len(ix) != 2: continue
        am = amount(eng, e)
        if am is None: continue
        decs.append((e, ix, am))
    tabs = {table_of(e.locs[0]) for e, _, am in decs if am.op == 'num' and am.a[0] < 0 or xs_of(am)}
    decs = [d for d in decs if table_of(d[0].locs[0]) in tabs]
    R.need(len(decs), 2, 'decrements of dependency counts')
    for t in tabs: start(R, eng, evs, t, T, decs, pop)
    loc_, rec = [], []
    for e, ix, am in decs: (loc_ if pop.seq < e.seq and loops_of(e)[:len(loops_of(pop))] == loops_of(pop) else rec).append((e, ix, am))
    local, sends = [], []
    used = set()
    for e, ix, am in loc_:
        local.append(Cond(eng, evs, e, dirv, commv, neg(am)))
        used.add(table_of(e.locs[0]))
        face = None
        ac = ix[1]
        okc = ac.op == 'call' and str(ac.a[0]).endswith('::getAdjCell') and ac.a[-2] is c
        R.oblige('the neighbor notified at %s is the one across the face, in the same direction' % rel(e.where), ix[0] is a and okc, e.where,
                 'the count of (direction %s, cell %s) goes down when (%s, %s) is finished' % (show(ix[0], 3)[-60:], show(ix[1], 3)[:60], show(a, 1)[-20:], show(c, 1)[-20:]), key='notified')
        if okc: faces(R, eng, e, ac.a[-1], pop)
        queue(R, eng, evs, pushes, e, ix, am, FC, FA, qi, used, tid=True)
    for p in evs:
        if p.kind == 'call' and re.search(r'TraverseData::getData$', p.name):
            sends.append(Cond(eng, evs, p, dirv, commv))
            av = [eng.resolve(x) for x in p.args]
            R.oblige('data sent at %s is that of the finished pair' % rel(p.where), av[0] is c and av[2] is a, p.where, 'the data sent is of cell %s, direction %s' % (show(av[0], 2), show(av[2], 2)), key='sent')
            faces(R, eng, p, av[1], pop)
            packet(R, eng, evs, p, av, dirv, commv)
    relate(R, f, W, local, sends, u)
    for e, ix, am in rec:
        w = ix[0]
        sc = ix[1]
        ok = sc.op == 'call' and str(sc.a[0]).endswith('::getSideCell') and call_leaves(sc, 'getGLSide')
        R.oblige('a packet counts for the cell of its side, in its direction', bool(ok) and w.op == 'bytes', e.where, 'a received packet lowers the count of (direction %s, cell %s)' % (show(w, 3)[:80], show(sc, 3)[:80]), key='received')
        R.oblige('a packet lowers one count by one', am is num(-1), e.where, 'a received packet changes the count by %s' % show(am, 2), key='received')
        sd = [q for q in evs if q.kind == 'call' and re.search(r'TraverseData::setSideData$', q.name) and loops_of(q) == loops_of(e)]
        R.oblige('the data of a packet is stored once', len(sd) == 1 and set(map(eng.resolve, guards(sd[0]))) == set(map(eng.resolve, guards(e))), sd[0].where if sd else e.where,
                 'the data of a packet is stored %d times or not under the condition under which it is counted' % len(sd), key='stored')
        if len(sd) == 1:
            av = [eng.resolve(x) for x in sd[0].args]
            g = call_leaves(sc, 'getGLSide') if ok else []
            R.oblige('data, side and direction of a packet belong together', av[1] is w and (not g or av[0] is g[0]), sd[0].where, 'the data of a packet is stored for side %s, direction %s, but counted for %s, %s' % (show(av[0], 2), show(av[1], 2)[:60], show(sc, 2), show(w, 2)[:60]), key='stored')
        Ls = [L for L in loops_of(e) if L is not outer]
        for L in Ls[-1:]:
            R.oblige('all packets received are unpacked', not L.early and (L.count is None or not clipped(eng, L)), e.where, 'unpacking stops before the last packet', key='unpacked')
        queue(R, eng, evs, pushes, e, ix, am, FC, FA, None, used, tid=False)
    # ---- first entries
    init = [p for p in pushes if p.seq < pop.seq and outer not in loops_of(p)]
    R.need(len(init), 1, 'places where the first pairs are queued')
    for p in init:
        fl = allfields(eng.resolve(p.args[0]))
        pc, pa = fl.get(FC), fl.get(FA)
        if pc is None or pa is None: R.notes.append('entry queued at %s not recognised' % rel(p.where)); continue
        Ls = {}
        for val, what, nm in ((pa, 'g_nAngles', 'directions'), (pc, 'g_nCells', 'cells')):
            ok, L = covers(eng, val, what)
            if ok is None: R.notes.append('entry queued at %s: %s is not a loop over all %s' % (rel(p.where), show(val, 2), nm)); continue
            R.oblige('pairs that wait for nothing are looked for among all %s' % nm, ok, p.where, 'pairs that wait for nothing are not looked for among all %s' % nm, key='first range')
        gs = set()
        for g in guards(p): gs |= set(lits(eng.resolve(g)))
        zero = [x for x in gs if x.op == 'eq0' and counted(eng, x.a[0], tabs | ({T} if T else set()), pa, pc)]
        R.oblige('pairs queued first are those that wait for nothing', bool(zero) and len(gs) == 1, p.where, 'pairs are queued first under %s' % ', '.join(show(x, 4) for x in gs), key='first')
        qindex(R, eng, evs, p, pa)
        used.add(p)
    for p in pushes:
        if p not in used and not any(p is x for x in used):
            R.oblige('pairs are queued only when their count becomes zero', False, p.where, 'a pair is queued at %s without its count having become zero' % rel(p.where), key='queued again')
    buffers(R, eng, evs, outer, pop)

def clipped(eng, L):
    """does the iteration count contain anything but a quotient of the buffer size"""
    c = eng.resolve(L.count)
    if c.op == 'idiv' or c.op in ('mu', 'fin', 'init', 'sel', 'havoc'): return False
    t = terms(c)
    return len(t) > 1 and t.get((), 0) < 0

def counters(eng, evs, outer):
    if outer is None: return None
    for x in leave(outer):
        for s in subvals(eng.resolve(x)):
            if s.op == 'mu' and isinstance(s.a[1], Loc) and s.a[0] == outer.n and not s.a[1].path: return s.a[1]
    return None

def popped(v):
    if v.op == 'sel' and v.a[1][0] == 'f' and v.a[0].op in ('top', 'front', 'back'): return v.a[0], v.a[1][1]
    return None

def queue_of(t):
    p = place(t.a[0])
    return p[0] if p else None

def counted(eng, v, tabs, a, c):
    p = place(v)
    if p is None: return False
    ix = next((s[1] for s in reversed(p[1]) if s[0] == 'x'), None)
    if ix is None or len(ix) != 2: return False
    t = (p[0], tuple(s for s in p[1] if s[0] == 'f' and not str(s[1]).startswith('#')))
    return t in tabs and eng.resolve(ix[0]) is a and eng.resolve(ix[1]) is c

def start(R, eng, evs, t, T, decs, pop):
    """the table starts as a copy of the counts of the constructor"""
    ws = [e for e in evs if e.kind == 'write' and e.args and len(e.locs) == 1 and isinstance(e.locs[0], Loc) and e.locs[0].root == t[0] and e.seq < pop.seq and not any(e is d[0] for d in decs)]
    for e in ws:
        v = eng.resolve(e.args[0])
        ix = index_of(eng, e.locs[0])
        if ix is None: continue
        p = place(v)
        src = None
        if p:
            jx = next((s[1] for s in reversed(p[1]) if s[0] == 'x'), None)
            src = (p[0], tuple(s for s in p[1] if s[0] == 'f' and not str(s[1]).startswith('#')))
        if src is None or jx is None: R.notes.append('start value of the dependency counts at %s not recognised' % rel(e.where)); continue
        names = lambda x: tuple(str(s[1]).split('::')[-1] for s in x[1])
        R.oblige('dependency counts start as counted', [eng.resolve(x) for x in jx] == ix and (T is None or names(src) == names(T)) and not guards(e), e.where, 'the count of %s starts as %s' % (show_loc(e.locs[0]), show(v, 4)), key='start')
        for i, what, nm in ((ix[0], 'g_nAngles', 'directions'), (ix[1], 'g_nCells', 'cells')):
            ok, L = covers(eng, i, what)
            if ok is not None: R.oblige('dependency counts are set for all %s' % nm, ok, e.where, 'dependency counts are not set for all %s' % nm, key='start')

def faces(R, eng, e, fv, pop):
    ok, L = covers(eng, fv, 4)
    if ok is None: R.notes.append('faces notified at %s are not those of a loop: %s' % (rel(e.where), show(fv, 3))); return
    base = len(loops_of(pop))
    R.oblige('all faces of a finished pair are looked at', ok and loops_of(e)[base:] == [L], e.where, 'not every face of a finished pair is looked at exactly once at %s' % rel(e.where), key='faces')

def queue(R, eng, evs, pushes, e, ix, am, FC, FA, qi, used, tid):
    """the pair is queued once, exactly when the count has become zero"""
    new = eng.resolve(e.args[0])
    mine = []
    for p in pushes:
        if p.seq < e.seq: continue
        fl = allfields(eng.resolve(p.args[0]))
        if fl.get(FC) is ix[1] and fl.get(FA) is ix[0]: mine.append((p, fl))
        elif loops_of(p) == loops_of(e):
            gs = set()
            for g in guards(p): gs |= set(lits(eng.resolve(g)))
            if eq0(new) in gs:
                R.oblige('the pair queued at %s is the one whose count became zero' % rel(p.where), False, p.where, 'the pair queued is (%s, %s), not the one whose count became zero' % (show(fl.get(FC), 2) if fl.get(FC) is not None else '?', show(fl.get(FA), 2)[:60] if fl.get(FA) is not None else '?'), key='queued pair')
                used.add(p); return
    R.oblige('a pair is queued where its count goes down at %s' % rel(e.where), len(mine) == 1, e.where, 'a pair whose count goes down at %s is queued at %d places' % (rel(e.where), len(mine)), key='queued')
    if len(mine) != 1: return
    p, fl = mine[0]
    used.add(p)
    gp, ge = set(), set()
    for g in guards(p): gp |= set(lits(eng.resolve(g)))
    for g in guards(e): ge |= set(lits(eng.resolve(g)))
    extra = gp - ge
    # the count read after the decrement
    z = {x for x in extra if x.op == 'eq0' and (x is eq0(new))}
    ok = z and extra == z and ge <= gp
    if not ok and extra and all(x.op in ('eq0', 'not', 'ge0', 'gt0') for x in extra):
        # equivalent tests of the new count
        g = band(*extra)
        k = mk('sym', 'count', 0)
        g2 = eng.subst(g, {s: add(k, neg(am)) for s in subvals(g) if place(s) and same_place(eng, s, e.locs[0])})
        vals = [eng.subst(g2, {k: num(i)}) for i in (0, 1, 2)]
        if vals[0] is TRUE and vals[1] is FALSE and vals[2] is FALSE and ge <= gp: ok = True
    R.oblige('the pair is queued exactly when its count becomes zero', bool(ok) and loops_of(p) == loops_of(e), p.where,
             'a pair whose count goes down at %s is queued under %s, not exactly when the count becomes zero' % (rel(e.where), ' and '.join(show(x, 4) for x in extra) or 'no further condition'), key='queued when zero')
    if tid:
        i = [x[1] for x in p.locs[0].path if x[0] == 'i']
        if i and qi is not None:
            r = eng.resolve(i[0])
            if r is qi: R.oblige('a thread queues pairs of its own directions for itself', True, p.where)
            else: qindex(R, eng, evs, p, fl[FA])
    else: qindex(R, eng, evs, p, fl[FA])

def qindex(R, eng, evs, p, angle):
    i = [x[1] for x in p.locs[0].path if x[0] == 'i']
    if not i: return
    v = eng.resolve(i[0])
    if v.op == 'out' and v.a[1] == 'angleGroupIndex':
        c = next((q for q in evs if q.seq == v.a[0]), None)
        if c is not None:
            R.oblige('a pair is queued for the thread of its direction', eng.resolve(c.args[0]) is angle, p.where, 'a pair of direction %s is queued for the thread of direction %s' % (show(angle, 3)[:80], show(eng.resolve(c.args[0]), 3)[:80]), key='thread')
            return
    if v.op in ('num',) or v.op == 'sym' and v.a[0] == 'tid':
        R.oblige('a pair is queued for the thread of its direction', False, p.where, 'a pair of direction %s is queued for thread %s, whichever thread has the direction' % (show(angle, 3)[:80], show(v, 2)), key='thread'); return
    R.notes.append('queue of the pair at %s not recognised: %s' % (rel(p.where), show(v, 3)))

def relate(R, f, W, local, sends, u):
    n = 0
    names = {0: 'forward', 1: 'backward'}
    sets = {Fraction(-1): 'negative', Fraction(0): 'zero', Fraction(1): 'positive', Fraction(-1, 10 ** 12): 'just below zero', Fraction(1, 10 ** 12): 'just above zero'}
    open_ = 0
    for d, x, comm, (cb, rb) in product((0, 1), sets, (True, False), ((False, False), (True, False), (True, True))):
        w = total(W, d, x, comm, cb, rb); l = total(local, d, -x, comm, cb, rb); s = total(sends, d, -x, comm, cb, rb)
        if w is None or l is None or s is None: open_ += 1; continue
        n += 1
        kind = 'inside the process' if not cb else 'shared with another process' if not rb else 'on the boundary of the domain'
        sit = '%s traversal, %s communication, a face %s whose product is %s for the waiting cell' % (names[d], 'with' if comm else 'without', kind, sets[x])
        want = (w, 0) if not cb else (0, w) if not rb else (0, 0)
        if cb and rb: good = w == 0 and l == 0 and s == 0
        else: good = (l, s) == want
        R.oblige('%s: waited for %d, notified %d, sent %d' % (sit, w, l, s), good, u.where,
                 '%s: the cell waits for the face %d times, while the cell on the other side notifies it %d times and sends %d packets' % (sit, w, l, s), key='waits')
    if open_: R.notes.append('%d situations of a face could not be evaluated' % open_)
    R.count('situations of a face compared', n)
    # upwind first: what is waited for is what comes in
    for d in (0, 1):
        for x in (Fraction(-1), Fraction(1)):
            w = total(W, d, x, True, False, False)
            if w is None: continue
            inc = (x < 0) == (d == 0)
            R.oblige('%s traversal waits for faces of %s product' % (names[d], sets[x]), w == (1 if inc else 0), u.where,
                     'in the %s traversal a cell waits %d times for a face inside the process whose product is %s' % (names[d], w, sets[x]), key='upwind')

def packet(R, eng, evs, p, av, dirv, commv):
    """the packet goes into the buffer of the adjacent rank, once"""
    Ls = loops_of(p)
    ins = [e for e in evs if e.kind == 'cont' and e.name in ('insert', 'append') and loops_of(e) == Ls and e.seq > p.seq]
    if not ins: R.notes.append('no buffer takes the packet of %s' % rel(p.where)); return
    R.oblige('a packet is put into one buffer', len(ins) == 1 and set(map(eng.resolve, guards(ins[0]))) == set(map(eng.resolve, guards(p))), ins[0].where, 'the packet built at %s is appended at %d places or under another condition' % (rel(p.where), len(ins)), key='packet once')
    t = ' '.join(show(x, 9) for s in ins[0].locs[0].path if s[0] in 'xi' for x in (s[1] if s[0] == 'x' else (s[1],)))
    rk = [x for s in eng.resolve_loc(ins[0].locs[0]).path if s[0] in 'xi' for y in (s[1] if s[0] == 'x' else (s[1],)) for x in subvals(y) if x.op == 'call' and str(x.a[0]).endswith('::getAdjRank')]
    for r in rk:
        R.oblige('a packet goes to the process on the other side of its face', eng.resolve(r.a[-2]) is av[0] and eng.resolve(r.a[-1]) is av[1], ins[0].where, 'the packet of (%s, face %s) goes to the process across (%s, face %s)' % (show(av[0], 1), show(av[1], 2), show(r.a[-2], 1), show(r.a[-1], 2)), key='packet rank')
    if not rk: R.notes.append('process that a packet goes to not recognised at %s' % rel(ins[0].where))

def buffers(R, eng, evs, outer, pop):
    """what was appended is cleared before the next round"""
    app = [e for e in evs if e.kind == 'cont' and e.name in ('insert', 'append') and e.locs and outer in loops_of(e)]
    clr = [e for e in evs if e.kind == 'cont' and (e.name in ('clear', 'construct') or e.name == 'resize' and e.args and e.args[0] is ZERO) and outer in loops_of(e)]
    roots = []
    for e in app:
        r = table_of(e.locs[0])
        if r in roots: continue
        roots.append(r)
        # fresh in every round
        if any(q.name == 'construct' and q.locs and q.locs[0].root == r[0] for q in clr): R.oblige('buffer is new in every round', True, e.where); continue
        cs = [q for q in clr if q.locs and table_of(q.locs[0]) == r and q.name != 'construct' and q.seq > e.seq]
        R.oblige('buffer filled at %s is emptied once its content has been sent' % rel(e.where), bool(cs), e.where, 'what is appended at %s is not removed before the next round: packets are sent again' % rel(e.where), key='sent again')
        for q in cs[:1]:
            ixs = [x for s in q.locs[0].path if s[0] in 'xi' for x in (s[1] if s[0] == 'x' else (s[1],))]
            # ranges: as many elements as the container has
            dims = [d for d in evs if d.kind == 'cont' and d.name in ('dims', 'resize', 'construct') and d.args and d.locs and table_of(d.locs[0]) == r and outer not in loops_of(d)]
            if dims and len(dims[-1].args) >= len(ixs):
                for x, s in zip(ixs, dims[-1].args):
                    ok, L = covers(eng, x, eng.resolve(s))
                    if ok is None: continue
                    R.oblige('all buffers are emptied', ok, q.where, 'not all of %s buffers are emptied' % show(eng.resolve(s), 3), key='emptied')
            gq = set()
            for g in guards(q): gq |= set(lits(eng.resolve(g)))
            odd = [g for g in gq if not re.search(r'c_doComm|g_mpiType|g_use', show(g, -8))]
            R.oblige('buffers are emptied in every round', not odd, q.where, 'buffers are emptied only under %s' % ', '.join(show(g, 3) for g in odd), key='emptied')
    # collected buffers keep the rank
    for e in app:
        if pop.seq < e.seq and loops_of(e)[:len(loops_of(pop))] != loops_of(pop):
            l = eng.resolve_loc(e.locs[0])
            dst = [x for s in l.path if s[0] in 'xi' for x in (s[1] if s[0] == 'x' else (s[1],))]
            src = []
            for a in e.args[1:2]:
                if a.op == 'it' and isinstance(a.a[0], Loc):
                    src = [x for s in eng.resolve_loc(a.a[0]).path if s[0] in 'xi' for x in (s[1] if s[0] == 'x' else (s[1],))]
            if len(dst) == 1 and len(src) == 2:
                R.oblige('packets collected from the threads stay with their rank', src[1] is dst[0], e.where, 'packets for rank index %s are collected for rank index %s' % (show(src[1], 2), show(dst[0], 2)), key='collect')
                for v, want in ((src[0], 'g_nThreads'),):
                    ok, L = covers(eng, v, want)
                    if ok is not None: R.oblige('packets of all threads are collected', ok, e.where, 'packets of thread %s only are collected, in %s steps' % (show(v, 3), span(L, eng)), key='collect')
            R.oblige('packets are collected in every round', not [g for g in guards(e) if not re.search(r'c_doComm', show(eng.resolve(g), -8))], e.where, 'packets are collected only under a condition', key='collect')
