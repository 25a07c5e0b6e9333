"""C06: at most one thread at a time is in MPI, and the thread level allows it."""
import re
from sa.common import *

TECHNIQUE = 'effect analysis of parallel regions (callees inlined) with mutual exclusion by designated thread, critical section or token protocol; value check of the requested and granted thread level'
NOTE = """Every MPI call made inside a parallel region, through any function called from it, is found and must be excluded from running at the same time as every
other MPI call of the region. The token protocol is recognised by its shape: a loop left only when an atomically read number equals the thread's own, the calls, then an atomic
write of the number, all in the same iteration. The level requested at start-up must cover what is found, and its being granted must be checked before it is relied on. Holds for every
thread count and schedule; that the token is passed to every thread in turn is checked as the value of the write."""

SAFE = re.compile(r'^P?MPI_(Wtime|Wtick|Initialized|Finalized|Query_thread|Is_thread_main|Get_version|Abort|Get_count)$')
LEVEL = {'MPI_Init': 0}

def leave(L):
    """conditions under which a loop is left (alternatives)"""
    out = list(L.exits or [])
    if L.cond is not TRUE:
        c = bnot(L.cond)
        out += list(c.a) if c.op == 'or' else [c]
    if L.pcond is not None and L.pcond is not TRUE:
        c = bnot(L.pcond)
        out += list(c.a) if c.op == 'or' else [c]
    return out

def number(rg, c):
    """location X if condition c says that X equals the thread's number"""
    for x in lits(c):
        if x.op != 'eq0': continue
        t = [y for y in subvals(x.a[0]) if rg.tid(y)]
        if not t: continue
        for s in (sub(x.a[0], t[0]), add(x.a[0], t[0])):
            for y in (s, neg(s)):
                while y.op in ('trunc',): y = y.a[0]
                if y.op in ('mu', 'fin') and isinstance(y.a[1], Loc): return y.a[1]
                if y.op == 'init' and isinstance(y.a[0], Loc): return y.a[0]
                if y.op == 'havoc' and isinstance(y.a[1], Loc): return y.a[1]
    return None

def atomic(e): return in_frames(e, lambda g: g.kind == 'omp' and g.a.dk.startswith('atomic')) is not None

def tokens(rg):
    """spans of events between waiting for the token and passing it on: [(first, last)]"""
    r = getattr(rg, '_tokens', None)
    if r is not None: return r
    r = rg._tokens = []; rg.tokinfo = []
    eng = rg.eng
    spans = {}
    for e in rg.evs:
        for L in loops_of(e):
            a = spans.setdefault(L, [e.seq, e.seq]); a[1] = e.seq
    for L, (a, b) in spans.items():
        if L.kind == 'omp' or L.count is not None and not L.early: continue
        lv = leave(L)
        xs = [number(rg, c) for c in lv]
        if not lv or any(x is None for x in xs) or len({(x.root, x.path) for x in xs}) != 1: continue
        X = xs[0]
        if not rg.shared(X): continue
        reads = [e for e in rg.evs if e.kind == 'read' and a <= e.seq <= b and any(l is X or l == X for l in e.locs)]
        if not reads or not all(atomic(e) for e in reads): continue
        up = outer_loops(rg, L, a)
        for w in rg.evs:
            if w.kind == 'write' and w.seq > b and any(l == X for l in w.locs) and atomic(w) and loops_of(w) == up:
                if any(q.kind == 'write' and any(l == X for l in q.locs) and b < q.seq < w.seq for q in rg.evs): break
                r.append((b, w.seq)); rg.tokinfo.append((X, L, w))
                break
    # every write of the number ends a section
    ends = {w.seq for _, _, w in rg.tokinfo}
    for X, L, w in list(rg.tokinfo):
        for q in rg.evs:
            if q.kind == 'write' and any(l == X for l in q.locs) and q.seq not in ends:
                r[:] = []; return r
    return r

def outer_loops(rg, L, seq):
    for e in rg.evs:
        Ls = loops_of(e)
        if L in Ls: return Ls[:Ls.index(L)]
    return []

def check(R):
    from checks import c05
    R.rule('Inside every OpenMP parallel region any two MPI calls, callees included, are made by the same designated thread, in critical sections of the same name, or between waiting for '
           'and passing on the communication token; the thread level requested from MPI_Init_thread is at least MPI_THREAD_SERIALIZED (FUNNELED when only the main thread calls), '
           'and the program goes on only when the granted level is sufficient.')
    R.assumption('an implicit barrier ends every parallel region; critical sections and atomics work as OpenMP defines them')
    n = 0
    worst = 0; whereworst = ''
    for cfg in ('sweep', 'sweep+nopetsc'):
        try: P = R.prog(cfg)
        except Exception: continue
        for rg in c05.regions(R, P):
            calls = []
            for e in rg.evs:
                if e.kind == 'call' and re.match(r'P?MPI_', e.name) and not SAFE.match(e.name): calls.append((e, c05.sync(rg, e)))
            n += len(calls)
            R.count('parallel regions')
            for e, s in calls:
                bad = next((f for f, t in calls if not (s & t & ANY(s, t))), None)
                R.oblige('%s in the region at %s is excluded from every other MPI call' % (e.name, rel(rg.begin.where)), bad is None, e.where,
                         '%s at %s can be called by one thread while another thread is in %s at %s: nothing keeps the two apart' % (e.name, rel(e.where), bad and bad.name, bad and rel(bad.where)), key='mpi %s' % e.fn)
                lv = 1 if ('only', '0') in s else 2
                if bad is not None: lv = 3
                if lv > worst: worst, whereworst = lv, e.where
            for X, L, w in getattr(rg, 'tokinfo', []):
                v = rg.eng.resolve(w.args[0])
                t = [y for y in subvals(v) if rg.tid(y)]
                ok = v.op == 'imod' and t and sub(v.a[0], add(t[0], ONE)) is ZERO
                if not ok and v.op == 'ite': ok = bool(t)
                R.oblige('the token is passed to the next thread', bool(ok), w.where, 'the number of the thread that may call MPI next becomes %s, not the next thread in turn' % show(v), key='token')
    R.count('MPI calls in parallel regions', n)
    NAMES = ['MPI_THREAD_SINGLE', 'MPI_THREAD_FUNNELED', 'MPI_THREAD_SERIALIZED', 'MPI_THREAD_MULTIPLE']
    k = 0
    for cfg in ('sweep', 'sweep+nopetsc'):
        try: P = R.prog(cfg)
        except Exception: continue
        for f in user_funcs(P):
            inits = [x for x in walk(f['body']) if x['k'] == 'call' and x.get('n') in ('MPI_Init', 'MPI_Init_thread', 'PMPI_Init', 'PMPI_Init_thread')]
            if not inits: continue
            if f['n'] == 'main': eng = Engine(P, opaque=MESH_GETTERS + QUAD_GETTERS, noinline=[g['n'] for g in user_funcs(P) if g['n'] != 'main' and not g['n'].startswith('Assert') and not has_init(P, g)])
            else: eng = Engine(P, opaque=MESH_GETTERS + QUAD_GETTERS)
            eng.run(f)
            for e in eng.events:
                if e.kind != 'call' or e.name not in ('MPI_Init', 'MPI_Init_thread'): continue
                k += 1
                if e.name == 'MPI_Init': lv, prov = 0, None
                else:
                    v = eng.resolve(e.args[2])
                    lv = int(v.a[0]) if v.op == 'num' else None
                if lv is None: R.notes.append('requested thread level is not a constant: %s' % show(v)); continue
                R.oblige('thread level requested at %s covers the calls of the parallel regions' % rel(e.where), lv >= worst, e.where,
                         'the program asks for %s, but at %s MPI is called as %s requires' % (NAMES[lv], rel(whereworst), NAMES[worst]), key='level')
                if e.name == 'MPI_Init_thread':
                    ok = False; sawlow = None
                    for q in eng.events:
                        if q.seq <= e.seq: continue
                        for fr in frames(q.ctx):
                            if fr.kind not in ('assert', 'assume', 'if'): continue
                            for x in lits(fr.a):
                                need = atleast(eng.resolve(x), e.seq)
                                if need is None: continue
                                if need >= worst: ok = True
                                else: sawlow = need
                    R.oblige('the granted thread level is checked at %s' % rel(e.where), ok, e.where,
                             'the thread level that MPI grants is %s before the threads call MPI; %s is needed' % ('only checked to be at least %s' % NAMES[sawlow] if sawlow is not None else 'not checked', NAMES[worst]), key='granted')
    R.need(n, 3, 'MPI calls in parallel regions'); R.need(k, 1, 'MPI_Init_thread')

def has_init(P, g):
    return any(x['k'] == 'call' and 'MPI_Init' in x.get('n', '') for x in walk(g['body']))

def atleast(x, seq):
    """least level that condition x guarantees for what MPI_Init_thread granted"""
    o = [y for y in subvals(x) if y.op == 'out' and y.a[0] == seq and y.a[1] != 'ret']
    if not o: return None
    p = o[0]
    def holds(l):
        from sa.vals import num
        return _sub(x, p, num(l))
    t = [l for l in range(4) if holds(l) is TRUE]
    f = [l for l in range(4) if holds(l) is FALSE]
    if len(t) + len(f) != 4 or not t: return None
    return min(t)

def _sub(x, p, v):
    if x is p: return v
    if x.op == 'ge0': return ge0(_sub(x.a[0], p, v))
    if x.op == 'eq0': return eq0(_sub(x.a[0], p, v))
    if x.op == 'not': return bnot(_sub(x.a[0], p, v))
    if x.op == 'poly':
        r = ZERO
        for m, c in terms(x).items():
            t = num(c)
            for y in m: t = mul(t, v if y is p else y)
            r = add(r, t)
        return r
    return x

def ANY(s, t): return {x for x in s & t if x[0] in ('critical', 'only', 'token')}
def rel(w): return w.split('/')[-1]
