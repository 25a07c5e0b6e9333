"""C09: files that are not a matching mesh are rejected before use."""
from sa.common import *
from checks.c08 import has_call, entry

TECHNIQUE = 'dominance of aborting checks over uses: path conditions of every aborting call against the uses of words read from the file'
NOTE = """For each mesh reader (serial, whole parallel, per process) the conditions under which it ends the program are derived from the source; they must
include the full format name, the version and (per process) the number of partitions differing from the expected values, without further
conditions, before any other word of the file is read or used; a check made by rank 0 only must be followed by a barrier before the others go on.
Decided with and without debug assertions (Assert). NDEBUG is not a build of this program: its mesh readers report every error with assert."""

ABORT = {'abort', 'exit', '__assert_fail', 'MPI_Abort', '_exit', 'std::abort', 'std::exit', 'std::terminate', 'quick_exit'}
RD = {'fread': (0, None), 'MPI_File_read': (1, 2), 'MPI_File_read_at': (2, 3), 'MPI_File_read_all': (1, 2), 'MPI_File_read_at_all': (2, 3)}
WR = {'fwrite', 'MPI_File_write', 'MPI_File_write_at', 'fputs', 'fputc', 'fprintf'}
COLL = {'MPI_Barrier', 'MPI_Bcast', 'MPI_Allreduce', 'MPI_Allgather', 'MPI_Alltoall'}

def is_rank(eng, v):
    return v.op == 'out' and isinstance(v.a[0], int) and eng.events[v.a[0]].name == 'MPI_Comm_rank'
def is_size(eng, v):
    return v.op == 'out' and isinstance(v.a[0], int) and eng.events[v.a[0]].name == 'MPI_Comm_size'

def rank_lit(eng, x):
    return any(is_rank(eng, y) for y in subvals(x))

def file_words(eng, v, reads):
    """file reads a value comes from"""
    return {x.a[0] for x in subvals(v) if x.op == 'out' and x.a[0] in reads and (len(x.a) < 2 or x.a[1] != 'ret')}

def scalar_out(v):
    return v.op == 'out' and v.a[1] != 'ret' and len(v.a) > 2 and isinstance(v.a[2], Loc) and not (v.a[2].path and v.a[2].path[-1][0] != 'f')

def ifs(ev):
    out, f, ls = [], ev.ctx, 0
    while f is not None:
        if f.kind == 'if': out += lits(f.a)
        elif f.kind == 'loop': ls += 1
        f = f.up
    return out, ls

def version_written(P):
    """class -> version constant the writer puts into the file"""
    out = {}
    for f in user_funcs(P):
        if not f.get('cls') or not any(n.get('k') == 'call' and n.get('n') in WR for n in walk(f['body'])): continue
        eng = entry(P, f)
        for e in eng.events:
            if e.kind == 'write' and e.locs and isinstance(e.locs[0], Loc) and field_short(e.locs[0]) and 'ersion' in field_short(e.locs[0]):
                v = eng.resolve(e.args[0])
                if v.op == 'num': out[f['cls']] = v
    return out

def name_fact(eng, x, reads):
    """(read event, number of characters compared, constant content) of a literal 'name equals'"""
    if x.op != 'eq0': return None
    c = x.a[0]
    if c.op != 'call' or c.a[0] not in ('memcmp', 'strcmp', 'strncmp'): return None
    rs, const = set(), None
    for y in c.a[1:3]:
        w = file_words(eng, y, reads)
        if w: rs |= w
        else: const = y
    if len(rs) != 1 or const is None: return None
    n = c.a[3] if len(c.a) > 3 else None
    return rs.pop(), n, const, c.a[0]

def chars(eng, v, n):
    """the first n characters of a constant, or None"""
    out = []
    if v.op != 'at' or v.a[1] is not ZERO: return None
    for i in range(n):
        x = eng.project(v.a[0], ('i', num(i)))
        if x.op != 'num': return None
        out.append(int(x.a[0]))
    return out

def decide(R, P, F, version, par, tag):
    eng = entry(P, F)
    R.analysed(F['n'])
    reads = {e.seq: e for e in eng.events if e.kind == 'call' and e.name in RD}
    if not reads: return 0
    order = sorted(reads)
    n_parts = par
    # conditions that end the program
    ends = []
    for e in eng.events:
        if e.kind == 'call' and e.name in ABORT:
            g, ls = ifs(e)
            g = [eng.resolve(x) for x in g]
            rk = [x for x in g if rank_lit(eng, x)]
            rest = [x for x in g if not rank_lit(eng, x)]
            facts = lits(bnot(band(*rest)))
            ends.append((e, facts, rk, ls))
    first = order[0]
    def find(words, exact):
        """-> (event, exact?) best ending check on the words; exact decides a literal"""
        weak, odd = None, None
        for e, facts, rk, ls in ends:
            for x in facts:
                if not words(x): continue
                r = exact(x) if not ls else None
                if r is True: return (e, True, rk)
                if r is False: weak = weak or (e, False, rk)
                else: odd = odd or (e, None, rk)
        return weak or odd
    def sz(e): return RD[e.name]
    found = {}
    where = '%s:%s' % (F.file, F['loc'][1])
    # the name
    def wn(x): return first in file_words(eng, x, reads)
    info = {}
    def en(x):
        if x.op == 'or':
            return False if all(name_fact(eng, y, reads) or y.op in ('eq0', 'ge0', 'not', 'cond') for y in x.a) else None
        f = name_fact(eng, x, reads)
        if f is None:
            return False if x.op == 'not' and name_fact(eng, x.a[0], reads) else None
        if f[1] is not None and f[1].op == 'num' and (f[3] != 'strcmp'):
            cs = chars(eng, f[2], 32)
            n = int(f[1].a[0])
            info['n'] = n
            if cs is None: return None if n < 32 else True
            need = len(bytes(cs).split(b'\0')[0]) + (1 if any(cs) else 0)
            if not any(cs): return None
            return n >= min(need, 32)
        return True
    found['format name'] = find(wn, en)
    # reads of words after the name
    wreads = [s for s in order[1:]]
    if not wreads: return 0
    hdr = wreads[0]
    def is_word(v, k):
        return v.op == 'sel' and v.a[0].op == 'out' and v.a[0].a[0] == hdr and v.a[1] == ('i', num(k)) or \
               (k == 0 and scalar_out(v) and v.a[0] == hdr)
    def word_read(k):
        """value pattern for the k-th word: in the first read, or by the (k+1)-th read of single words"""
        def m(v):
            if is_word(v, k): return True
            if k < len(wreads):
                s = wreads[k]; e = reads[s]
                c = e.args[sz(e)[1]] if sz(e)[1] is not None else e.args[2]
                return k > 0 and single(k) and scalar_out(v) and v.a[0] == s
            return False
        return m
    def single(k):
        for s in wreads[:k]:
            e = reads[s]; i = RD[e.name][1]
            if eng.resolve(e.args[2]) is not ONE and (i is None or eng.resolve(e.args[2 if i == 2 else 3]) is not ONE): return False
        return True
    def eq(k, other):
        m = word_read(k)
        def words(x): return any(m(y) for y in subvals(x))
        def exact(x):
            if x.op == 'eq0':
                t = terms(x.a[0]); ws = [mm for mm in t if len(mm) == 1 and m(mm[0])]
                if len(ws) == 1 and abs(t[ws[0]]) == 1:
                    c = t[ws[0]]
                    rest = mul(num(Fraction(-1) / c), sub(x.a[0], mul(num(c), ws[0][0])))
                    return other(rest)
                return None
            def linear(y):
                return y.op in ('ge0', 'eq0', 'not') and all(len(mm) <= 1 for mm in terms(y.a[0].a[0] if y.op == 'not' and y.a[0].op in ('ge0', 'eq0') else y.a[0]))
            if linear(x) or x.op == 'or': return False
            return None
        return find(words, exact)
    found['version'] = eq(0, lambda r: (r is version) if version is not None and r.op == 'num' else (True if r.op == 'num' else None))
    if par: found['number of partitions'] = eq(1, lambda r: True if is_size(eng, r) else False if r.op in ('num',) else None)
    n = 0
    last = None
    for what, f in found.items():
        if f is None:
            n += 1
            R.oblige('%s%s: %s' % (F['n'], tag, what), False, where, '%s accepts a file whatever its %s%s' % (F['n'], what, tag), '%s %s' % (F['n'], what)); continue
        e, ok, rk = f
        if ok is None: R.notes.append('%s: the check of the %s is not understood' % (F['n'], what)); continue
        n += 1
        R.oblige('%s%s: files with another %s end the program' % (F['n'], tag, what), ok, e.where,
                 '%s does not reject every file with another %s%s' % (F['n'], what, tag), '%s %s' % (F['n'], what))
        if rk and ok:
            g = band(*rk)
            one = len(rk) == 1 and rk[0].op == 'eq0'
            R.oblige('%s%s: %s checked by a process' % (F['n'], tag, what), one, e.where, 'the %s is only checked under %s, which no process may satisfy' % (what, show(g)), '%s %s rank' % (F['n'], what))
            bar = [x for x in eng.events if x.kind == 'call' and x.name in COLL and x.seq > e.seq and not any(rank_lit(eng, y) for y in ifs(x)[0])]
            uses = [x for x in body_uses(eng, reads, hdr, None) if not any(rank_lit(eng, eng.resolve(y)) for y in ifs(x)[0])]
            late = [x for x in uses if not bar or x.seq < bar[0].seq]
            R.oblige('%s%s: others wait for the check of the %s' % (F['n'], tag, what), bool(bar) and not late, e.where,
                     'the %s is checked by one process but the others go on reading the file without waiting for it' % what, '%s %s wait' % (F['n'], what))
        early = [x for x in body_uses(eng, reads, hdr, par) if x.seq < e.seq and (not rk or any(rank_lit(eng, eng.resolve(y)) for y in ifs(x)[0]))]
        if ok: R.oblige('%s%s: nothing used before the %s is checked' % (F['n'], tag, what), not early, early[0].where if early else e.where,
                 '%s uses data of the file before its %s is checked' % (F['n'], what), '%s %s early' % (F['n'], what))
    return n

def body_uses(eng, reads, hdr, par):
    """events that use words of the file as counts or positions, or read beyond the header"""
    out = []
    hs = [hdr]
    for e in eng.events:
        if e.seq <= hdr: continue
        if e.kind == 'call' and e.name in RD or e.kind == 'call' and e.name in ('MPI_File_seek', 'fseek') or e.kind == 'cont' and e.name in ('resize', 'assign', 'reserve'):
            if e.kind == 'call' and e.name not in RD and not any(file_words(eng, eng.resolve(a), reads) for a in e.args if isinstance(a, V)): continue
            if e.kind == 'cont' and not any(file_words(eng, eng.resolve(a), reads) for a in e.args if isinstance(a, V)): continue
            if e.name in RD and header_read(eng, e, reads): continue
            out.append(e)
    return out

def header_read(eng, e, reads):
    """a read of single words at a fixed place (header fields read one by one)"""
    s = sorted(reads)
    i = s.index(e.seq)
    return i <= 2 and eng.resolve(e.args[2]) is ONE and not any(x.kind == 'call' and x.name in ('MPI_File_seek', 'fseek') and s[1] < x.seq < e.seq for x in eng.events)

def check(R):
    R.rule('For every mesh reader: each condition under which it ends the program is collected; there must be unconditional ones for a format '
           'name that differs in any significant character, a version other than the one the writer of the class stores and (per-process reader) a '
           'number of partitions other than the number of processes, before any further read, allocation, loop or position computed from the file; '
           'a check done on one rank is followed by a barrier before the other ranks use the file.')
    R.assumption('assert() of <cassert> is active: no build of the program defines NDEBUG; Assert() may be inactive')
    n = 0
    for cfg, names in (('ParallelMeshInfo+noassert', ('fread', 'fgetc', 'fscanf')), ('sweep', ('MPI_File_read', 'MPI_File_read_at', 'MPI_File_read_all', 'MPI_File_read_at_all')), ('sweep+noassert', ('MPI_File_read', 'MPI_File_read_at', 'MPI_File_read_all', 'MPI_File_read_at_all'))):
        P = R.prog(cfg)
        ver = version_written(R.prog('ParallelMeshInfo+noassert'))
        fs = [f for f in user_funcs(P) if f.get('cls') in ver and has_call(P, f, names)]
        called = {x.get('fn') for f in fs for x in walk(f['body']) if x.get('k') == 'call'}
        k = 0
        for f in fs:
            if f['usr'] in called: continue
            k += decide(R, P, f, ver.get(f['cls']), names[0] != 'fread', ' without debug assertions' if 'noassert' in cfg else '')
        n += k
    R.need(n, 4, 'reader checks')
