"""C19: measured times are only ever reported."""
import re
from sa.common import *
from sa.engine import PURE

TECHNIQUE = 'taint analysis (data and control) of clock readings over the effects of every function, callees inlined, fields and globals by fixpoint'
NOTE = """Every value computed from a clock reading, or chosen by a condition on one, is followed through locals, containers, fields, globals, helper functions and
reductions. It may be printed; it must not reach solution data, an index or size, a message or file other than printed reports, or a condition that guards anything
but printing. Decided for all inputs; data races that make results depend on timing are the subject of other properties."""

CLOCK = re.compile(r'(^std::chrono::.*::now$)|^(MPI_Wtime|PMPI_Wtime|MPI_Wtick|omp_get_wtime|omp_get_wtick|clock|time|std::time|std::clock|gettimeofday|clock_gettime|times|getrusage|ftime|__rdtsc|__builtin_ia32_rdtsc)$')
PRINT = re.compile(r'^(std::)?(printf|fprintf|vprintf|vfprintf|sprintf|snprintf|puts|fputs|putchar|putc|fputc|fflush|perror|abort|exit|operator<<|PetscPrintf|PetscFPrintf|strftime|localtime|ctime)$|^std::(basic_)?(o|i|)stream|^std::ostream|ostream')
REDUCE = re.compile(r'^P?MPI_(I?Allreduce|Reduce|I?Bcast|I?All?gatherv?|Gatherv?|Scan|Exscan)$')
QUIET = re.compile(r'^std::(chrono|min|max|numeric_limits|accumulate|max_element|min_element|fabs|abs|sqrt|swap|sort|to_string|isfinite|isnan)')

def key(l):
    """name of a place that outlives the function"""
    for k, n in reversed([s[:2] for s in l.path]):
        if k == 'f' and not str(n).startswith(('#', '.#')): return ('f', n)
    if l.root[0] == 'G': return ('g', l.root[2])
    return None

def base(l):
    """the variable without indices"""
    p = []
    for s in l.path:
        if s[0] != 'f': break
        p.append(s)
    return mkloc(l.root, tuple(p)) if len(p) != len(l.path) else l

class Run(object):
    def __init__(self, F, eng, keys):
        self.F, self.eng, self.keys = F, eng, keys
        self.outs, self.locs, self.memo = set(), set(), {}
        self.evs = eng.events
    def hit(self, l):
        if l in self.locs or base(l) in self.locs: return True
        while l.path:
            l = mkloc(l.root, l.path[:-1])
            if l in self.locs: return True
        return False
    def val(self, v):
        """is a value computed from a clock reading?"""
        m = self.memo
        r = m.get(v)
        if r is not None: return r
        st = [(v, 0)]
        while st:
            x, ph = st.pop()
            if x in m and ph == 0: continue
            if ph == 0:
                m[x] = False
                if self.leaf(x): m[x] = True; continue
                st.append((x, 1))
                for y in kids(x):
                    if y not in m: st.append((y, 0))
            else:
                if any(m.get(y) for y in kids(x)): m[x] = True
        return m[v]
    def leaf(self, x):
        if x.op == 'out': return x.a[0] in self.outs
        if x.op == 'havoc':
            c = x.a[0]
            n = c[1] if isinstance(c, tuple) and len(c) > 1 else None
            if n in self.outs: return True
        if x.op in ('init', 'mu', 'fin', 'havoc', 'uninit') and isinstance(x.a[-1], Loc):
            l = x.a[-1]
            if x.op != 'init' or l.root[0] in ('G', 'S', 'D', 'P', 'H'):
                k = key(l)
                if k in self.keys: return True
            return x.op != 'init' and self.hit(l)
        return False

def kids(x):
    if x.op == 'poly': return [y for m in terms(x) for y in m]
    out = []
    for a in x.a:
        if isinstance(a, V): out.append(a)
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, V): out.append(b)
                elif isinstance(b, tuple): out += [c for c in b if isinstance(c, V)]
        elif isinstance(a, Loc): out += index_vals(a)
    return out
def index_vals(l):
    out = []
    for s in l.path:
        for y in s[1:]:
            if isinstance(y, V): out.append(y)
            elif isinstance(y, tuple): out += [z for z in y if isinstance(z, V)]
    return out

def persistent(l):
    return l.root[0] != 'L'

def one(R, run, report, deckeys):
    """one pass over the events of a function; -> anything new?"""
    eng, F = run.eng, run.F
    new = False
    gm = {}
    def guarded(e):
        f = e.ctx
        if f is None: return False
        st = []
        while f is not None and id(f) not in gm: st.append(f); f = f.up
        r = gm[id(f)] if f is not None else False
        for g in reversed(st):
            if not r:
                if g.kind in ('if', 'assume', 'loopcond'): r = isinstance(g.a, V) and run.val(eng.resolve(g.a))
                elif g.kind == 'loop':
                    L = g.a
                    r = any(isinstance(c, V) and run.val(eng.resolve(c)) for c in (L.cond, L.count))
            gm[id(g)] = r
        return r
    run.memo = {}
    for e in run.evs:
        if e.kind == 'call' and CLOCK.search(e.name or ''):
            if e.seq not in run.outs: run.outs.add(e.seq); new = True
            continue
        if e.kind in ('loop', 'scope', 'read', 'omp', 'par-begin', 'par-end', 'try', 'elem'): continue
        g = guarded(e)
        if e.kind == 'write':
            l = e.locs[0] if e.locs else None
            if l is None: continue
            l = eng.resolve_loc(l)
            v = e.args[0] if e.args else None
            t = g or isinstance(v, V) and run.val(eng.resolve(v))
            if any(run.val(eng.resolve(y)) for y in index_vals(l)):
                report(e, 'an index'); continue
            if not t: continue
            if any(s[0] == 'f' and s[1] == '#m' for s in l.path): report(e, 'data arrays'); continue
            b = base(l)
            if b not in run.locs: run.locs.add(b); new = True; run.memo = {}; gm.clear()
            if persistent(l):
                k = key(l)
                if k is None: k = ('v', l.root)
                if k not in run.keys: run.keys.add(k); new = True; run.memo = {}; gm.clear()
        elif e.kind == 'cont':
            t = any(isinstance(a, V) and run.val(eng.resolve(a)) for a in e.args)
            if not t and not g: continue
            if e.name in ('push_back', 'push', 'emplace_back', 'insert', 'assign', 'copy', 'init', 'fill') and not (e.x or {}).get('cls'):
                l = eng.resolve_loc(e.locs[0])
                b = base(l)
                if b not in run.locs: run.locs.add(b); new = True; run.memo = {}; gm.clear()
                k = key(l) if persistent(l) else None
                if k and k not in run.keys: run.keys.add(k); new = True
            elif t and e.name in ('resize', 'dims', 'reserve', 'erase') or g: report(e, 'the size or content of a container')
        elif e.kind in ('call', 'new', 'throw', 'delete'):
            n = e.name or ''
            if PRINT.search(n): continue
            t = any(isinstance(a, V) and run.val(eng.resolve(a)) for a in e.args)
            locs = [eng.resolve_loc(a.a[0]) for a in e.args if isinstance(a, V) and a.op == 'addr' and isinstance(a.a[0], Loc)] if e.kind == 'call' else []
            tl = any(run.hit(l) or persistent(l) and key(l) in run.keys for l in locs)
            if e.kind == 'call' and (REDUCE.search(n) or QUIET.search(n) or n in PURE):
                if g and REDUCE.search(n): report(e, 'the decision to call %s' % n); continue
                if t or tl or g:
                    if e.seq not in run.outs: run.outs.add(e.seq); new = True; run.memo = {}; gm.clear()
                continue
            if g: report(e, 'the decision to %s' % ('call ' + n if e.kind == 'call' else e.kind)); continue
            if t: report(e, 'the arguments of %s' % (n or e.kind))
            elif tl and (n.startswith(('MPI_', 'fwrite', 'write')) or not n.startswith('std::')) and n not in ('memcpy',): report(e, 'the data given to %s' % n)
    return new

def check(R):
    R.rule('Every function is evaluated with its callees inlined (virtual calls and the large computation entry points as boundaries). Results of clock calls (std::chrono ...::now, MPI_Wtime, '
           'omp_get_wtime, clock, gettimeofday ...) and everything computed from them or chosen by a condition on them are marked; marks pass through locals, containers, fields and globals (to a fixpoint over all '
           'functions) and reductions. A mark in an element of a data array, an index, a size, an argument of anything but printing and reductions, or in the condition that guards anything but printing or marked values is a violation.')
    P = R.prog('sweep')
    runs = []
    keys = set()
    clocks = 0
    allr = modular(R, P, skip=())
    for F, eng in allr: runs.append(Run(F, eng, keys))
    bad = {}
    where = set()
    for rnd in range(6):
        new = False
        for r in runs:
            if rnd == 0:
                r.act = any(e.kind == 'call' and CLOCK.search(e.name or '') for e in r.evs)
                for e in r.evs:
                    if e.kind == 'call' and CLOCK.search(e.name or ''): where.add((e.file, e.line))
            if not r.act and not (rnd > 0 and keys and mentions(r, keys, P)): continue
            r.act = True
            def report(e, what, r=r):
                w = e.where
                if (w, what) not in bad: bad[(w, what)] = (r.F['n'], what)
            for k in range(20):
                if not one(R, r, report, keys): break
                new = True
        if not new: break
    act = [r for r in runs if r.act]
    for r in act:
        mine = [w for (w, what), (n, x) in bad.items() if n == r.F['n']]
        if not mine: R.oblige('times in %s are only reported (%d effects)' % (r.F['n'], len(r.evs)), True, '%s:%s' % (r.F['file'], r.F['loc'][1] if r.F.get('loc') else 0))
    for (w, what), (n, x) in sorted(bad.items()):
        R.oblige('times in %s are only reported' % n, False, w, 'in %s a measured time determines %s' % (n, what), '%s %s' % (n, what))
    R.count('clock calls', len(where)); R.count('effects in functions with times', sum(len(r.evs) for r in act))
    R.count('fields and globals that hold times', len(keys))
    R.notes.append('fields and globals that hold times: ' + ', '.join(sorted(str(k[1]) for k in keys)))
    R.need(len(where), 1, 'clock calls')
    R.need(len(act), 2, 'functions with times')

def mentions(r, keys, P):
    """does a function, or one it calls, name such a field or global?"""
    names = {k[1].split('::')[-1] for k in keys if k[0] in ('f', 'g')}
    memo = P.__dict__.setdefault('_uses', {})
    def uses(f):
        u = f['usr']
        if u not in memo:
            memo[u] = (set(), set())
            for x in walk([f['body'], f.get('inits', [])]):
                if x['k'] in ('mem', 'fref') or x['k'] == 'ref' and x.get('g'): memo[u][0].add((x.get('n') or '').split('::')[-1])
                elif x['k'] in ('call', 'ctor') and x.get('fn') in P.funcs: memo[u][1].add(x['fn'])
        return memo[u]
    st, seen = [r.F], set()
    while st:
        f = st.pop()
        if f['usr'] in seen or not f.get('body'): continue
        seen.add(f['usr'])
        n, c = uses(f)
        if n & names: return True
        st += [P.funcs[u] for u in c]
    return False
