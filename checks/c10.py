"""C10: layout of the angular flux file."""
from sa.common import *

TECHNIQUE = 'symbolic offset and extent of every file write, with its guards and loops'
NOTE = """Every MPI file write reachable from an output routine is reduced to (guard, offset, length, source block) as formulas over the global cell
number and the extents. Decides for all meshes and partitions that blocks start after the header at stride equal to their length, by
global cell number, that all cells are written unconditionally, and that the header holds the globally reduced dimensions and is
written by one process. Trusts that getLGCell is the global cell number (C25)."""

WRITES = {'MPI_File_write_at': 1, 'MPI_File_write_at_all': 1, 'MPI_File_write': 0, 'MPI_File_write_all': 0, 'MPI_File_write_shared': 0,
          'MPI_File_iwrite_at': 1, 'MPI_File_write_ordered': 0, 'MPI_File_iwrite': 0}

def check(R):
    R.rule('Header: written at offset 0 under a guard that holds on exactly one rank, its dimension words are the all-reduced number of '
           'cells and the numbers of angles and groups.  Data: for every local cell, without condition, offset = header bytes + '
           'getLGCell(cell) * block bytes, block = the elements (0..)(0..)(0..) of that cell, of exactly the written length. Files are '
           'created new or truncated.')
    P = R.prog('sweep')
    # entry points: functions that reach a file write, outermost ones
    reach = writers(P)
    probe = Engine(P)
    def arrays_of(f):
        """(this or parameter index, class) of the array objects a function works on"""
        out = []
        if f.get('cls') and probe.is_abstract(f['cls']): out.append((None, f['cls']))
        for i, p in enumerate(f['params']):
            t = p['t'].e if p['t'].k in ('ref', 'ptr') else p['t']
            if t is not None and t.k == 'rec' and probe.is_abstract(t.n): out.append((i, t.n))
        return out
    cand = [f for f in user_funcs(P) if f['usr'] in reach and arrays_of(f)]
    # the outermost ones
    entries = [f for f in cand if not any(c in reach and P.funcs[c] in cand for c in callers(P).get(f['usr'], ()))]
    ndata = nhead = nopen = 0
    for F in entries:
        eng = Engine(P, opaque=MESH_GETTERS, abstract=False)
        eng.begin()
        th = mkloc(root('S', F['cls'])) if F.get('cls') and F.get('kind') != 'func' else None
        alloc = {}
        objs = arrays_of(F)
        try:
            for i, cls in objs:
                l = th if i is None else mkloc(root('P', F['params'][i]['n'] or 'arg'))
                for c in P.byname.get('%s::%s' % (cls, cls.split('::')[-1]), []):
                    if c.get('body') and not c['params']: eng.do(c, l)
            for e in eng.events:
                if e.kind == 'new' and e.args: alloc[e.seq] = e.args[0]
            n0 = len(eng.events)
            eng.do(F, th)
        except Dead: pass
        R.analysed(F['n'])
        evs = eng.events[n0:]
        ws = [e for e in evs if e.kind == 'call' and e.name in WRITES]
        head, data = [], []
        for e in ws:
            if WRITES[e.name] == 0:
                R.violation(e.where, '%s writes the output at the current file position instead of a position given by the global cell number' % F['n'], 'pos'); continue
            off = eng.resolve(e.args[1])
            glob = [x for x in subvals(off) if x.op == 'call' and x.a[0] == 'TychoMesh::getLGCell']
            (data if loops_of(e) and off.op != 'num' or glob else head).append((e, off))
        hbytes = None
        for e, off in head:
            nhead += 1
            cnt, ty = eng.resolve(e.args[3]), mpi_const(e.args[4])
            g = [eng.resolve(x) for x in guards(e)]
            rk = [x for x in g if x.op == 'eq0' and is_rank(eng, x.a[0])]
            R.oblige('%s: header written by one rank' % F['n'], len(rk) == 1 and len(g) == 1, e.where,
                     'the header of the output file is written under %s, not by exactly one process' % (', '.join(show(x) for x in g) or 'no condition (by every process)'), 'header rank')
            R.oblige('%s: header at offset 0' % F['n'], off is ZERO, e.where, 'the header is written at offset %s' % show(off), 'header offset')
            if cnt.op == 'num' and ty in MPI_SIZE: hbytes = cnt.a[0] * MPI_SIZE[ty]
            if e.args[2].op == 'addr' and isinstance(e.args[2].a[0], Loc):
                l = e.args[2].a[0]
                b = mkloc(l.root, l.path[:-1]) if l.path and l.path[-1][0] == 'i' else l
                # content at the time of the write
                v = content_before(eng, e, b)
                if v is not None:
                    for k, what, want in ((5, 'the number of cells of all processes', 'cells'), (6, 'the number of angles', 'g_nAngles'), (7, 'the number of groups', 'g_nGroups')):
                        w = word(eng, v, k)
                        if w is None: continue
                        w = eng.resolve(w)
                        if want == 'cells':
                            ok = reduced_sum(eng, w, 'g_nCells')
                        else: ok = is_global(w, want)
                        if w.op in ('mu', 'fin', 'sel', 'at', 'bytes', 'rstore'): continue
                        R.oblige('%s: header word %d is %s' % (F['n'], k, what), ok, e.where, 'word %d of the header is %s, not %s' % (k, show(w), what), 'header word %d' % k)
        for e, off in data:
            cnt, ty = eng.resolve(e.args[3]), mpi_const(e.args[4])
            sz = MPI_SIZE.get(ty)
            if sz is None: continue
            glob = sorted({x for x in subvals(off) if x.op == 'call' and x.a[0] == 'TychoMesh::getLGCell'}, key=lambda x: x.id)
            if not glob:
                R.violation(e.where, 'the position %s of a data block does not depend on the global cell number' % show(off), 'data position'); continue
            if len(glob) > 1: R.notes.append('two global cells in one offset, not decided'); continue
            ndata += 1
            t = terms(off)
            stride = ZERO; h = ZERO; odd = False
            for m, c in t.items():
                if glob[0] in m:
                    rest = list(m); rest.remove(glob[0])
                    if glob[0] in rest: odd = True
                    stride = add(stride, from_terms({tuple(rest): c}))
                else: h = add(h, from_terms({m: c}))
            length = mul(cnt, num(sz))
            R.oblige('%s: stride of cells is the block length' % F['n'], not odd and stride is length, e.where,
                     'a cell block has %s bytes but consecutive global cells are %s bytes apart' % (show(length), show(stride)), 'data stride')
            if hbytes is not None:
                R.oblige('%s: data starts after the header' % F['n'], h is num(hbytes), e.where,
                         'the header has %s bytes but cell 0 starts at byte %s' % (hbytes, show(h)), 'data start')
            cell = eng.resolve(glob[0].a[1])
            ls = loops_of(e)
            g = [x for x in guards(e)]
            R.oblige('%s: blocks are written unconditionally' % F['n'], not g, e.where, 'the block of a cell is only written if %s' % ', '.join(show(x) for x in g), 'data guard')
            L = loop_of(eng, cell)
            if L is not None and len(ls) == 1 and L.count is not None:
                R.oblige('%s: every local cell is written' % F['n'], is_global(eng.resolve(L.count), 'g_nCells') and not L.early, e.where,
                         'the loop writing the cells runs %s times instead of once per local cell' % show(eng.resolve(L.count)), 'data loop')
            elif len(ls) == 1 and cell.op == 'poly' and ls[0].count is not None:
                R.violation(e.where, 'the cells written are %s, not every local cell' % show(cell), 'data loop')
            p = eng.resolve(e.args[2])
            if p.op == 'addr' and isinstance(p.a[0], Loc) and p.a[0].path and p.a[0].path[-1][0] == 'i':
                idx = p.a[0].path[-1][1]
                want = mul(cnt, cell)
                ba = [x for x in alloc.values()]
                R.oblige('%s: the block is the data of that cell' % F['n'], idx is want, e.where,
                         'the block written for local cell %s starts at element %s of the array instead of %s' % (show(cell), show(idx), show(want)), 'data source')
                if ba and L is not None and L.count is not None:
                    R.oblige('%s: the blocks cover the array' % F['n'], any(mul(cnt, eng.resolve(L.count)) is eng.resolve(x) for x in ba), e.where,
                             'the blocks of all cells have %s elements but the array has %s' % (show(mul(cnt, eng.resolve(L.count))), ', '.join(show(x) for x in ba)), 'data cover')
        for e in evs:
            if e.kind == 'call' and e.name == 'MPI_File_open':
                mode = e.args[2]
                if mode.op != 'num' or not (mode.a[0] & (4 | 8)): continue      # not for writing
                nopen += 1
                trunc = any(x.kind == 'call' and x.name == 'MPI_File_set_size' and x.args[1] is ZERO for x in evs)
                R.oblige('%s: the file is created new' % F['n'], bool(mode.a[0] & 64) or trunc, e.where,
                         'an existing longer file keeps its old end (neither exclusive creation nor truncation)', 'open mode')
    R.need(nhead, 1, 'header writes')
    R.need(ndata, 1, 'data writes')
    R.need(nopen, 1, 'output file openings')

def is_rank(eng, v):
    v = eng.resolve(v)
    return v.op == 'out' and isinstance(v.a[0], int) and eng.events[v.a[0]].name == 'MPI_Comm_rank'

def reduced_sum(eng, v, glob):
    if v.op != 'out' or not isinstance(v.a[0], int): return False
    e = eng.events[v.a[0]]
    if e.name != 'MPI_Allreduce' or mpi_const(e.args[4]) != 'ompi_mpi_op_sum': return False
    a = e.args[0]
    if a.op != 'addr': return False
    x = content_before(eng, e, a.a[0])
    return x is not None and is_global(eng.resolve(x), glob)

def content_before(eng, ev, l):
    """content of base location l just before an event, from the write events before it"""
    best = None
    for e in eng.events[:ev.seq]:
        if e.kind == 'write' and e.locs and isinstance(e.locs[0], Loc):
            w = e.locs[0]
            b, rest = base_of(w)
            if b is not l: continue
            if not rest: best = e.args[0]
            else:
                if best is None: best = mk('uninit', b)
                best = eng._put(best, rest, e.args[0])
    return best

def writers(P):
    """functions that reach an MPI file write"""
    r = set()
    cal = callers(P)
    st = [f['usr'] for f in user_funcs(P) if any(n.get('k') == 'call' and n.get('n') in WRITES for n in walk(f['body']))]
    while st:
        u = st.pop()
        if u in r: continue
        r.add(u); st += list(cal.get(u, ()))
    return r

def callers(P):
    c = getattr(P, '_callers', None)
    if c is None:
        c = P._callers = {}
        for f in user_funcs(P):
            for n in walk(f['body']):
                if n.get('k') in ('call', 'ctor', 'fref') and n.get('fn'): c.setdefault(n['fn'], set()).add(f['usr'])
    return c
