"""C01: every process enters the same collectives."""
import re
from sa.common import *
from sa.engine import PURE

TECHNIQUE = 'uniformity (taint) analysis of the path conditions of every collective operation, interprocedural through inlining, call-graph reachability and field/global fixpoint'
NOTE = """For every collective MPI and PETSc operation, and every call of a function that can reach one, the conditions and loop limits on the way to it must not contain
a value that can differ between processes: rank, received messages, mesh data and counts, solution data, clocks, per-process file data. Results of all-reductions and
broadcasts, the deck, argument, environment and numbers of processes and threads count as the same everywhere. Conditions whose other side ends the program are left out.
Mesh-size counts passed to collectives are allowed to differ."""

COLL = re.compile(r'^P?MPI_(I?(Barrier|Bcast|Gatherv?|Scatterv?|Allgatherv?|Alltoall[vw]?|Reduce|Allreduce|Reduce_scatter(_block)?|Scan|Exscan)|Init|Init_thread|Finalize|'
                  r'Comm_(dup|split|split_type|create|free)|Cart_create|Win_(create|allocate|free|fence)|File_(open|close|set_view|set_size|preallocate|sync|set_atomicity|\w+_all(_begin|_end)?|\w+_ordered))$')
SAMEOUT = re.compile(r'^P?MPI_(I?(Barrier|Bcast|Allgatherv?|Allreduce)|Init|Init_thread|Finalize|Comm_(size|dup|free)|Initialized|Finalized|Query_thread|Type_\w+|File_(open|close|set_view|set_size|get_size|preallocate|sync)|Abort|Is_thread_main|Op_\w+|Errhandler_\w+|Comm_set_errhandler|Info_\w+)$')
PETSC = re.compile(r'^(Vec|Mat|KSP|PC|SNES|Petsc(Initialize|Finalize|Options|Barrier))[A-Z]?\w*$')
PETSCLOCAL = re.compile(r'^(VecGetArray|VecRestoreArray|VecGet(Local)?Size|VecSetValue|MatShellGetContext|MatGet\w*Size|KSPGet|VecGetOwnershipRange|MatSetValue|VecPlaceArray|VecResetArray|MatShell)\w*$|^PetscPopSignalHandler$')
LOCALDATA = re.compile(r'^(VecGet(Array|LocalSize|OwnershipRange)|MatGet(Local|Ownership))')
PRIVATE = re.compile(r'^P?MPI_|^(std::)?(rand|random|drand48|srand|time|clock|getpid|gethostname|gettimeofday|clock_gettime|omp_get_wtime|sched_getcpu|getrusage|lrand48|usleep)$|^std::chrono|random_device')

def collective(n): return bool(COLL.match(n) or PETSC.match(n) and not PETSCLOCAL.match(n))

def reach(P):
    """functions that may enter a collective operation"""
    cal = {}
    hit = set()
    for f in user_funcs(P):
        s = set()
        for x in walk([f['body'], f.get('inits', [])]):
            if x['k'] not in ('call', 'ctor'): 
                continue
            if collective(x.get('n') or ''): hit.add(f['usr'])
            u = x.get('fn')
            if u in P.funcs:
                s.add(u); s.update(P.over.get(u, []))
        cal[f['usr']] = s
    ch = True
    while ch:
        ch = False
        for u, s in cal.items():
            if u not in hit and s & hit: hit.add(u); ch = True
    return hit

def kids(x):
    if x.op == 'poly': return [y for m in terms(x) for y in m]
    out = []
    def add_(a, d):
        if isinstance(a, V): out.append(a)
        elif isinstance(a, Loc):
            for s in a.path: add_(s[1:], d + 1)
        elif isinstance(a, tuple) and d < 6:
            for b in a: add_(b, d + 1)
    for a in x.a: add_(a, 0)
    return out

def skey(l):
    """name of a place that outlives the function"""
    size = bool(l.path) and l.path[-1][0] == 'f' and l.path[-1][1] in ('#n', '.#n', '#size')
    p = l.path[:-1] if size else l.path
    d = 0
    for s in reversed(p):
        if s[0] in ('i', 'x'): d += 1
        elif s[0] == 'f' and not str(s[1]).startswith(('#', '.#')): return ('f', s[1], d if size else -1)
    if l.root[0] == 'G': return ('g', l.root[2], d if size else -1)
    return None
def is_size(l): return bool(l.path) and l.path[-1][0] == 'f' and str(l.path[-1][1]) in ('#n', '.#n', '#size')

MESHREC = re.compile(r'^(TychoMesh|ParallelMesh|SerialMesh|TychoMeshIO)::')

class Uni(object):
    def __init__(self, F, eng, keys, params, rets):
        self.F, self.eng, self.keys, self.params, self.rets = F, eng, keys, params, rets
        self.memo = {}
        self.why = {}
        self.lm = {L.n: L for L in eng.loops}
        self.bys = {e.seq: e for e in eng.events}
        self.gm = {}
        self.havocs = {}
    def reset(self): self.memo = {}; self.gm = {}; self.why = {}
    def val(self, v):
        """can the value differ between processes?  (least fixpoint)"""
        if v in self.memo: return self.memo[v]
        # collect the values it depends on
        deps, order, st = {}, [], [v]
        while st:
            x = st.pop()
            if x in deps or x in self.memo: continue
            r = self.leaf(x)
            if r is True: self.memo[x] = True; continue
            deps[x] = r if isinstance(r, list) else []
            order.append(x)
            st += deps[x]
        users = {}
        work = []
        for x in order:
            for y in deps[x]:
                if self.memo.get(y): work.append((x, y)) 
                users.setdefault(y, []).append(x)
        bad = set()
        while work:
            x, y = work.pop()
            if x in bad: continue
            bad.add(x); self.why[x] = y
            for u in users.get(x, []): work.append((u, x))
        for x in order: self.memo[x] = x in bad
        return self.memo[v]
    def source(self, v):
        for k in range(1000):
            if v in self.why: v = self.why[v]
            else: return v
        return v
    def leaf(self, x):
        """True: differs; otherwise the values it depends on"""
        if x.op in ('num', 'str', 'addr', 'sym', 'iv', 'flt'): 
            return []
        if x.op == 'out': return self.out(x)
        if x.op == 'call':
            n = x.a[0] if isinstance(x.a[0], str) else ''
            if n.startswith('TychoMesh::'): return True
            return kids(x)
        if x.op == 'lit':
            n = x.a[0]
            if isinstance(n, str) and n.startswith('TychoMesh::'): return True
            if n == 'dyn': return []
            return kids(x)
        if x.op in ('init', 'uninit', 'mu', 'fin', 'havoc') and isinstance(x.a[-1], Loc):
            l = x.a[-1]
            if any(s[0] == 'f' and s[1] == '#m' for s in l.path) and not is_size(l): return True
            if any(s[0] == 'f' and MESHREC.match(str(s[1])) for s in l.path): return True
            if x.op in ('init',):
                if l.root[0] == 'P':
                    if (self.F['usr'], l.root[1]) in self.params: return True
                    if self.F['n'] == 'main': return []
                k = skey(l)
                if k is not None and k in self.keys: return True
                return kids(x)
            if x.op == 'uninit': return []
            if x.op == 'havoc':
                c = x.a[0]
                n = c[1] if isinstance(c, tuple) and len(c) > 1 else None
                e = self.bys.get(n)
                if e is None: return []
                return self.effect(e)
            L = self.lm.get(x.a[0])
            if L is None: return []
            out = []
            for d in (L.init, L.next):
                hit = False
                if l in d and isinstance(d[l], V): out.append(self.eng.resolve(d[l])); hit = True
                if not hit:
                    for m, v in d.items():
                        if isinstance(m, Loc) and isinstance(v, V) and m.root == l.root and (m.path == l.path[:len(m.path)] or l.path == m.path[:len(l.path)]): out.append(self.eng.resolve(v))
            if x.op == 'fin': out += self.limits(L)
            k = skey(l) if l.root[0] != 'L' else None
            if k is not None and k in self.keys: return True
            return out
        return kids(x)
    def limits(self, L):
        out = []
        for c in [L.cond, L.count] + list(L.exits or []):
            if isinstance(c, V): out.append(self.eng.resolve(c))
        return out
    def out(self, x):
        e = self.bys.get(x.a[0])
        if e is None: return []
        n = e.name or ''
        if len(x.a) > 1 and isinstance(x.a[1], str) and x.a[1] not in ('ret',) and e.kind == 'call' and self.user(e):
            return True if self.ret(e) else [self.eng.resolve(a) for a in e.args if isinstance(a, V)]
        return self.effect(e)
    def user(self, e):
        return bool(self.eng.prog.byname.get(e.name))
    def ret(self, e):
        return any(f['usr'] in self.rets for f in self.targets(e))
    def targets(self, e):
        P = self.eng.prog
        out = []
        for f in P.byname.get(e.name or '', []):
            out.append(f)
            out += [P.funcs[u] for u in P.over.get(f['usr'], []) if u in P.funcs]
        return out
    def effect(self, e):
        """what the results of an external call depend on"""
        n = e.name or ''
        if self.user(e): return True
        if SAMEOUT.match(n): return []
        if PETSC.match(n): return True if LOCALDATA.match(n) else []
        if PRIVATE.search(n): return True
        out = [self.eng.resolve(a) for a in e.args if isinstance(a, V)]
        for a in list(out):
            if a.op in ('addr', 'at') and isinstance(a.a[0], Loc):
                k = skey(a.a[0])
                if k in self.keys: return True
        return out
    def guard(self, e):
        """a condition on the way to e that can differ, or None"""
        f = e.ctx
        st = []
        while f is not None and id(f) not in self.gm: st.append(f); f = f.up
        r = self.gm[id(f)] if f is not None else None
        for g in reversed(st):
            if r is None:
                cs = []
                if g.kind in ('if', 'assume', 'loopcond') and isinstance(g.a, V): cs = lits(self.eng.resolve(g.a))
                elif g.kind == 'loop': cs = self.limits(g.a)
                for c in cs:
                    if self.val(c): r = c; break
            self.gm[id(g)] = r
        return r

def one(run, hit, sink):
    eng, F = run.eng, run.F
    P = eng.prog
    new = False
    for e in eng.events:
        if e.kind == 'write' or e.kind == 'cont':
            if not e.locs: continue
            l = eng.resolve_loc(e.locs[0])
            if l.root[0] == 'L': continue
            ks = []
            if e.kind == 'write':
                k = skey(l)
                if k is not None: ks.append(k)
            else:
                k = skey(mkloc(l.root, l.path + (('f', '#n'),)))
                if k is not None: ks.append(k)
                k = skey(l)
                if k is not None and e.name not in ('resize', 'clear', 'dims', 'reserve', 'pop_back', 'pop'): ks.append(k)
            ks = [k for k in ks if k not in run.keys]
            if not ks: continue
            if any(s[0] == 'f' and s[1] == '#m' for s in l.path): continue
            g = run.guard(e) is not None
            v = False
            for a in e.args:
                if isinstance(a, V) and run.val(eng.resolve(a)): v = True
            for k in ks:
                sz = k[2] >= 0
                t = g or v and not (sz and e.kind == 'cont' and e.name in ('push_back', 'push', 'emplace_back', 'push_front', 'emplace'))
                if t: run.keys.add(k); new = True
        elif e.kind == 'call':
            us = run.targets(e) if run.user(e) else []
            for f in us:
                for i, p in enumerate(f.get('params', [])):
                    kk = (f['usr'], p.get('n'))
                    if kk in run.params or i >= len(e.args) or not isinstance(e.args[i], V): continue
                    if run.val(eng.resolve(e.args[i])): run.params.add(kk); new = True
            c = collective(e.name or '')
            if not c and any(f['usr'] in hit for f in us): c = True
            if c and sink is not None:
                g = run.guard(e)
                sink(e, run, g)
    return new

def describe(run, v):
    s = run.source(v)
    if s.op == 'out':
        e = run.bys.get(s.a[0])
        return 'a result of %s' % (e.name if e is not None else 'a call')
    if s.op in ('call', 'lit'): return str(s.a[0])
    if isinstance(s.a[-1] if s.a else None, Loc): return show(s)
    return show(s)

def runs_of(R, P, hit):
    out = []
    keys, params, rets = set(), set(), set()
    for f in user_funcs(P):
        eng = Engine(P, opaque=MESH_GETTERS + QUAD_GETTERS, noinline=[n for n in HEAVY if n != f['n']], virtual_opaque=True)
        r = eng.run(f)
        u = Uni(f, eng, keys, params, rets)
        u.result = r
        out.append(u)
    return out

def check(R):
    R.rule('Functions that can enter a collective operation (MPI collectives, collective file operations, PETSc object operations) are found in the call graph (virtual calls to every override). Every function is evaluated with '
           'its callees inlined; at every collective and every call of a function that can reach one, each condition, loop limit and loop exit on the path (except those whose other side ends the program) is traced to its sources; '
           'fields, globals, parameters and results by fixpoint over all functions.')
    for cfg in ['sweep', 'sweep+nopetsc']:
        P = R.prog(cfg)
        hit = reach(P)
        runs = runs_of(R, P, hit)
        for rnd in range(12):
            new = False
            for u in runs:
                u.reset()
                if one(u, hit, None): new = True
                if u.result is not None and isinstance(u.result, V) and u.F['usr'] not in u.rets:
                    if u.val(u.eng.resolve(u.result)): u.rets.add(u.F['usr']); new = True
            if not new: break
        if rnd == 11: R.notes.append('fixpoint not reached')
        n = 0
        seen = set()
        for u in runs:
            u.reset()
            R.analysed(u.F['n'])
            def sink(e, run, g):
                nonlocal n
                n += 1
                k = (e.file, e.line, e.fn, e.name)
                at = e.where
                what = e.name
                msg = ''
                if g is not None:
                    msg = 'whether %s is entered in %s depends on %s, which can differ between processes (condition %s)' % (what, run.F['n'], describe(run, g), show(g))
                    at = '%s:%s' % (e.file, e.line)
                    if ('v', k) in seen: return
                    seen.add(('v', k))
                R.oblige('%s in %s is entered by all processes (%s)' % (what, run.F['n'], cfg), g is None, at, msg, 'coll %s %s' % (run.F['n'], what))
            one(u, hit, sink)
        R.count('fields and globals that can differ (%s)' % cfg, len(runs[0].keys))
        R.need(n, 20 if cfg == 'sweep' else 10, 'collective operations on analysed paths (%s)' % cfg)
    R.count('functions that can enter a collective', len(hit))
