"""C07: results of MPI and file operations are checked."""
from sa.common import *

TECHNIQUE = 'result-use analysis: path conditions of program-ending calls against the symbolic result of every fallible call'
NOTE = """For every call site of an MPI or C file operation (reached from the function that contains it, and from its callers when the result is passed
on) the result, and for reads the transferred count, must be compared with success such that every other result ends the program, with debug
assertions (Assert) switched off. Starting and ending MPI and closing a file after reading are excepted; PETSc calls and C++ streams are not covered."""

ABORT = {'abort', 'exit', '__assert_fail', 'MPI_Abort', '_exit', 'std::abort', 'std::exit', 'std::terminate', 'quick_exit'}
FREE = {'MPI_Init', 'MPI_Finalize', 'MPI_Wtime', 'MPI_Wtick', 'MPI_Abort', 'MPI_Initialized', 'MPI_Finalized', 'MPI_Error_string', 'MPI_Type_size'}
FILEOPS = {'fopen': 'nonnull', 'fread': 'count', 'fwrite': 'count', 'fclose': 'zero', 'fseek': 'zero', 'fflush': 'zero', 'fseeko': 'zero', 'remove': None}
READS = {'MPI_File_read': (2, 4), 'MPI_File_read_at': (3, 5), 'MPI_File_read_all': (2, 4), 'MPI_File_read_at_all': (3, 5)}

def fallible(n):
    return n and (n in FILEOPS and FILEOPS[n] or n.startswith('MPI_') and n not in FREE)

def frame_ifs(ev):
    out, f = [], ev.ctx
    while f is not None:
        if f.kind in ('if', 'assume'): out.append(f)
        f = f.up
    return out

def iflits(ev, eng):
    out = []
    for f in frame_ifs(ev):
        if f.kind == 'if': out += [eng.resolve(x) for x in lits(f.a)]
    return out

def ret(ev): return mk('out', ev.seq, 'ret')

def mentions(eng, v, r, depth=0, seen=None):
    seen = seen if seen is not None else set()
    for y in subvals(v):
        if y is r: return True
        if y.op in ('fin', 'mu') and isinstance(y.a[0], int) and depth < 4 and y not in seen:
            seen.add(y)
            L = eng.lmap.get(y.a[0])
            if L is None: continue
            nx = L.next.get(y.a[1]) if isinstance(L.next, dict) and len(y.a) > 1 else None
            if nx is not None and mentions(eng, nx, r, depth + 1, seen): return True
        if y.op == 'lit' and y.a and y.a[0] == 'exits': pass
    return False

def success(eng, x, name, r, cnt):
    """does literal x say that result r of the call is a success"""
    if name == 'fopen':
        return x.op == 'not' and x.a[0].op == 'eq0' and (x.a[0].a[0] is r or x.a[0].a[0] is neg(r))
    if name in ('fread', 'fwrite'):
        d = sub(r, cnt)
        if x.op == 'eq0': return x.a[0] is d or x.a[0] is neg(d)
        if x.op == 'ge0': return x.a[0] is d
        return False
    if x.op == 'eq0': return x.a[0] is r or x.a[0] is neg(r)
    return False

class Site(object): pass

def judge(eng, ev, ends, retry=True):
    """(verdict, event) for one call: ok, weak, odd, none"""
    r = ret(ev)
    name = ev.name
    cnt = eng.resolve(ev.args[2]) if name in ('fread', 'fwrite') and len(ev.args) > 2 else None
    own = set(iflits(ev, eng))
    ownf = set(id(f) for f in frame_ifs(ev))
    best = ('none', None)
    for a, al in ends:
        if a.seq < ev.seq: continue
        g = [x for x in al if x not in own]
        fact = lits(bnot(band(*g)))
        for x in fact:
            if not mentions(eng, x, r): continue
            if success(eng, x, name, r, cnt): return ('ok', a)
            if x.op == 'or':
                # a second attempt of the same operation
                rs = {y.a[0] for y in subvals(x) if y.op == 'out' and y.a[1] == 'ret' and isinstance(y.a[0], int)}
                if all(eng.events[k].name == name for k in rs) and len(rs) == len(x.a) and \
                   all(any(success(eng, z, name, mk('out', k, 'ret'), eng.resolve(eng.events[k].args[2]) if cnt is not None else None) for k in rs) for z in x.a): return ('ok', a)
            simple = x.op in ('eq0', 'ge0', 'not') and all(len(m) <= 1 for m in terms(inner(x)))
            if (simple or x.op == 'or') and any(y is r for y in subvals(x)) and not any(y.op in ('fin', 'mu') for y in subvals(x)):
                if best[0] in ('none', 'odd'): best = ('weak', a)
            elif best[0] == 'none': best = ('odd', a)
    # a second attempt under the condition that this one failed
    if retry:
        for k in eng.events:
            if k.kind == 'call' and k.name == name and k.seq > ev.seq:
                al = [eng.resolve(x) for f in frame_ifs(k) for x in lits(f.a)]
                if any(success(eng, bnot(x), name, r, cnt) for x in al) and judge(eng, k, ends, False)[0] == 'ok': return ('ok', k)
    return best

def inner(x):
    while x.op == 'not': x = x.a[0]
    return x.a[0] if x.op in ('eq0', 'ge0') else x

def counted(eng, ev, ends):
    """is the number of elements read checked"""
    ci, si = READS[ev.name]
    if len(ev.args) <= si: return ('none', None)
    n = eng.resolve(ev.args[ci])
    own = set(iflits(ev, eng))
    best = ('none', None)
    for k in eng.events:
        if k.kind != 'call' or k.seq < ev.seq or k.name not in ('MPI_Get_count', 'MPI_Get_elements'): continue
        if eng.resolve(k.args[0]) is not eng.resolve(ev.args[si]): continue
        if any(x.kind == 'call' and x.name in READS and ev.seq < x.seq < k.seq and eng.resolve(x.args[READS[x.name][1]]) is eng.resolve(k.args[0]) for x in eng.events): continue
        same_type = k.args[1] is ev.args[ci + 1]
        for a, al in ends:
            if a.seq < k.seq: continue
            g = [x for x in al if x not in own]
            for x in lits(bnot(band(*g))):
                outs = [y for y in subvals(x) if y.op == 'out' and y.a[0] == k.seq and y.a[1] != 'ret']
                if not outs: continue
                d = sub(outs[0], n)
                if same_type and x.op == 'eq0' and (x.a[0] is d or x.a[0] is neg(d)) or x.op == 'ge0' and x.a[0] is d: return ('ok', a)
                best = ('weak', a) if same_type and x.op in ('eq0', 'ge0', 'not') else ('odd', a)
    return best

def check(R):
    R.rule('For every call of an MPI operation or of fopen, fread, fwrite, fseek, fclose there is a program-ending call whose path condition beyond that '
           'of the operation is exactly "the result is not the success value" (MPI_SUCCESS, non-null, the requested count, 0); a repeated attempt may '
           'stand in. Reads with MPI additionally need the count of their status compared with the requested one.')
    R.assumption('file handles given to fclose are classified by the mode of the fopen they come from')
    total = 0
    done = set()
    for cfg in ('sweep+noassert', 'ParallelMeshInfo+noassert', 'RefineSerialMesh+noassert', 'SerialMeshInfo+noassert', 'PartitionColumns+noassert', 'PartitionMetis+noassert'):
        P = R.prog(cfg)
        direct = []
        for f in user_funcs(P):
            key = (f['n'], f['file'], str(f['loc']))
            if key in done: continue
            if any(n.get('k') == 'call' and fallible(n.get('n')) for n in walk(f['body'])):
                direct.append(f); done.add(key)
        cal = {}
        for f in user_funcs(P):
            for n in walk(f['body']):
                if n.get('k') in ('call', 'ctor') and n.get('fn'): cal.setdefault(n['fn'], []).append(f)
        cache = {}
        def run(f):
            if f['usr'] in cache: return cache[f['usr']]
            eng = Engine(P, opaque=MESH_GETTERS + QUAD_GETTERS, noinline=[h for h in HEAVY if h != f['n']], virtual_opaque=True)
            eng.run(f); R.analysed(f['n'])
            ends = [(e, iflits(e, eng)) for e in eng.events if e.kind == 'throw' or e.kind == 'call' and e.name in ABORT]
            cache[f['usr']] = (eng, ends)
            return cache[f['usr']]
        def verdict(F, sites, depth=0, ctx=None):
            """judge the sites (where, name) in entry F"""
            eng, ends = run(F)
            bad = {}
            seen = set()
            for e in eng.events:
                if e.kind != 'call' or not fallible(e.name): continue
                s = (e.where, e.name)
                if s not in sites: continue
                seen.add(s)
                if e.name == 'fclose':
                    h = eng.resolve(e.args[0])
                    if h.op == 'out' and isinstance(h.a[0], int) and eng.events[h.a[0]].name == 'fopen':
                        mode = eng.resolve(eng.events[h.a[0]].args[1])
                        if mode.op == 'str' and str(mode.a[0]).startswith('r') and '+' not in str(mode.a[0]): continue
                    elif h.op == 'init': 
                        pass
                r = judge(eng, e, ends)
                if r[0] != 'ok': bad.setdefault(s, []).append((e, r, 'result'))
                if e.name in READS:
                    c = counted(eng, e, ends)
                    if c[0] != 'ok': bad.setdefault(s, []).append((e, c, 'count'))
            # decided in the callers when the function passes the result on
            if bad and depth < 3 and F['ret'].k not in ('void',) :
                cs = {c['usr']: c for c in cal.get(F['usr'], [])}
                if cs:
                    up = {}
                    for c in cs.values():
                        up.update({s: v for s, v in verdict(c, set(bad), depth + 1)[1].items()})
                    for s in list(bad):
                        if s not in up: del bad[s]
            return seen, bad
        for F in direct:
            sites = {('%s:%s' % (n.file, n.get('l')), n['n']) for n in walk(F['body']) if n.get('k') == 'call' and fallible(n.get('n'))}
            seen, bad = verdict(F, sites)
            for s in sorted(seen):
                total += 1
                b = bad.get(s)
                if not b:
                    R.oblige('%s in %s is checked' % (s[1], F['n']), True, s[0]); continue
                for e, (v, a), what in b:
                    if v == 'odd': R.notes.append('%s in %s: the check at %s is not understood' % (s[1], F['n'], a.where)); continue
                    w = {'result': 'the result', 'count': 'the number of elements read'}[what]
                    msg = {'none': '%s of %s in %s is not checked: a failure is not noticed and the program goes on', 'weak': '%s of %s in %s is checked, but not every failure ends the program'}[v] % (w, s[1], F['n'])
                    R.oblige('%s of %s in %s is checked' % (w, s[1], F['n']), False, e.where, msg, '%s %s %s' % (F['n'], s[1], what))
        # C++ streams: opening must be tested
        for f in user_funcs(P):
            pass
    R.need(total, 20, 'fallible call sites')
