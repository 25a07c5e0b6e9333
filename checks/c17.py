"""C17: index maps are mixed-radix bijections onto the storage; uses stay in range."""
from sa.common import *

TECHNIQUE = 'symbolic evaluation of index maps to polynomial normal form; subscript range and kind analysis over all call sites'
NOTE = """Decides, for every constructor and operator() of the array classes, that the element index is a mixed-radix number filling
exactly the allocated storage, and at every use whose subscripts are loop variables or mesh queries that the subscript has the
extent and kind of its position. Subscripts computed from run-time data are not bounded."""

KIND_CALL = {'TychoMesh::getSide': 'side', 'TychoMesh::getGLSide': 'side', 'TychoMesh::getAdjCell': 'cell', 'TychoMesh::getSideCell': 'cell',
             'TychoMesh::getLGSide': 'global side', 'TychoMesh::getLGCell': 'global cell', 'TychoMesh::getAdjRank': 'rank',
             'TychoMesh::getAdjFace': 'face'}
KIND_EXT = {'g_nCells': 'cell', 'g_nAngles': 'angle', 'g_nGroups': 'group'}

def kind_ext(v):
    n = global_name(v)
    if n: return KIND_EXT.get(n)
    if v.op == 'call' and v.a[0] == 'TychoMesh::getNSides': return 'side'
    return None

def index_of(eng, r):
    """storage location -> flat index value"""
    if isinstance(r, Loc) and r.path and r.path[-1][0] == 'i': return mkloc(r.root, r.path[:-1]), r.path[-1][1]
    return None, None

def radix(idx, params, size):
    """-> ({param: extent}, error).  idx must be a mixed-radix number over params filling [0, size)"""
    t = terms(idx)
    coef = {}
    rest = {}
    for m, c in t.items():
        ps = [x for x in m if x in params]
        if len(ps) != 1 or m.count(ps[0]) != 1: 
            return None, 'the element index %s is not linear in its subscripts' % show(idx)
        q = tuple(x for x in m if x is not ps[0])
        coef[ps[0]] = add(coef.get(ps[0], ZERO), from_terms({q: c}))
    for p in params:
        if p not in coef: return None, 'subscript %s does not influence the element index' % show(p)
    # order by divisibility
    def degree(v):
        t = terms(v)
        (m, c), = t.items()
        return (len(m), c)
    for p in params:
        if len(terms(coef[p])) != 1: return None, 'stride of subscript %s is %s' % (show(p), show(coef[p]))
    left = list(params)
    cur = ONE
    ext = {}
    order = []
    while left:
        nxt = [p for p in left if coef[p] is cur]
        if not nxt: return None, 'strides %s do not form a layout without gaps or overlaps' % ', '.join('%s:%s' % (show(p), show(coef[p])) for p in params)
        p = nxt[0]
        if len(nxt) > 1: return None, 'subscripts %s share one stride' % ', '.join(show(x) for x in nxt)
        left.remove(p); order.append(p)
        # extent of p = next stride / cur
        cands = []
        for q in left:
            r = fdiv(coef[q], cur)
            if not any(x.op == 'inv' for m in terms(r) for x in m) and all(isinstance(c, int) for c in terms(r).values()): cands.append(r)
        if left:
            cands.sort(key=degree)
            if not cands: return None, 'strides do not form a layout without gaps or overlaps'
            ext[p] = cands[0]
            cur = mul(cur, cands[0])
        else:
            r = fdiv(size, cur)
            if any(x.op == 'inv' for m in terms(r) for x in m): return None, 'storage of %s elements is not filled by the index map (stride %s of %s)' % (show(size), show(cur), show(p))
            ext[p] = r
    return ext, None

def check(R):
    R.rule('For every class whose operator() maps integer subscripts to a reference, each constructor (and resize) is evaluated symbolically, '
           'then operator(): the element index must be a mixed-radix polynomial over the subscripts whose radices multiply to the '
           'allocated length, and bounds assertions must equal the radices.  Then, in every function, each subscript that is a loop '
           'variable with a known trip count must run over the extent of its position, and a subscript obtained from the mesh must be of the '
           'kind of its position.')
    P = R.prog('sweep')
    probe = Engine(P)
    classes = sorted(rn for rn in P.recs if probe.is_abstract(rn))
    extents = {}       # class -> list of extents (globals) or None
    ninst = 0
    for cls in classes:
        ms = [f for f in user_funcs(P) if f.get('cls') == cls]
        ops = [m for m in ms if m['n'].endswith('operator()')]
        flats = [m for m in ms if m['n'].endswith('operator[]')]
        makers = [(c, None) for c in ms if c.get('kind') == 'ctor' and not (len(c['params']) == 1 and c['params'][0]['t'].k == 'ref')]
        rs = [m for m in ms if m['n'].split('::')[-1] == 'resize']
        sz = [m for m in ms if m['n'].split('::')[-1] == 'size']
        d0 = [c for c, _ in makers if not c['params']]
        if d0: makers += [(d0[0], r) for r in rs]
        for c, r in makers:
            R.analysed(c['n'])
            eng = Engine(P, abstract=False, opaque=MESH_GETTERS)
            eng.begin()
            th = mkloc(root('S', cls))
            try:
                eng.do(c, th)
                if r is not None: eng.do(r, th)
            except Dead: continue
            news = [e for e in eng.events if e.kind == 'new' and e.args]
            alias = [p for p in c['params'] if p['t'].k == 'ptr']
            if news: size = news[-1].args[0]
            else: size = None
            if sz:
                try:
                    s2 = eng.do(sz[0], th)
                    if isinstance(s2, Loc): s2 = eng.peek(s2)
                    s2 = eng.resolve(s2)
                    if size is not None:
                        R.oblige('%s: size() equals the allocated length' % cls, s2 is size, sz[0].file + ':%s' % sz[0].get('l', ''),
                                 '%s allocates %s elements but size() says %s' % (cls, show(size), show(s2)), 'size %s' % cls)
                    else: size = s2
                except Dead: pass
            if size is None or size is ZERO: continue
            for op in ops:
                params = [mk('sym', p['n']) for p in op['params']]
                n0 = len(frames(eng.st.ctx))
                st = eng.st
                try: loc = eng.do(op, th)
                except Dead: continue
                if isinstance(loc, CondLoc): continue
                base, idx = index_of(eng, loc)
                if idx is None: continue
                idx = eng.resolve(idx)
                where = '%s:%s' % (op.file, op['loc'][1] if op.get('loc') else '')
                if news and base.root[0] == 'H' and base.root[3] != news[-1].locs[0].root[3]: continue
                ext, err = radix(idx, params, eng.resolve(size))
                ninst += 1
                R.oblige('%s made by %s%s: subscripts -> %s fill [0, %s)' % (cls, c['n'], ' and resize' if r is not None else '', show(idx), show(size)),
                         err is None, where, '%s: %s' % (cls, err), 'layout %s' % cls)
                if err: continue
                fs = frames(eng.st.ctx)[n0:]
                for f in fs:
                    if f.kind != 'assert': continue
                    for x in lits(f.a):
                        if x.op != 'ge0': continue
                        for p in params:
                            if terms(x.a[0]).get((p,)) == -1:
                                b = add(add(x.a[0], p), ONE)     # p < b
                                if any(q in list(subvals(b)) for q in params): continue
                                R.oblige('%s: bound of subscript %s is %s' % (cls, show(p), show(ext[p])), b is ext[p], where,
                                         '%s: subscript %s is checked against %s but its extent in storage is %s' % (cls, show(p), show(b), show(ext[p])), 'bound %s %s' % (cls, show(p)))
                dims = [ext[p] for p in params]
                if not c['params']and r is None: extents.setdefault(cls, dims)
                if c['params'] and all(p['t'].isint for p in c['params']) or r is not None:
                    cp = [mk('sym', p['n']) for p in (r or c)['params']]
                    if len(cp) == len(params):
                        for i, (a, b) in enumerate(zip(cp, dims)):
                            R.oblige('%s: dimension %d given at creation bounds subscript %d' % (cls, i, i), a is b, where,
                                     '%s: subscript %d is bounded by %s instead of the dimension given for it (%s)' % (cls, i, show(b), show(a)), 'dims %s %d' % (cls, i))
            for fl in flats:
                try: loc = eng.do(fl, th)
                except Dead: continue
                if isinstance(loc, CondLoc): continue
                b, idx = index_of(eng, loc)
                if idx is None: continue
                p = mk('sym', fl['params'][0]['n'])
                R.oblige('%s: operator[] is the flat element' % cls, eng.resolve(idx) is p, '%s:%s' % (fl.file, fl['loc'][1] if fl.get('loc') else ''),
                         '%s: operator[](%s) gives element %s' % (cls, show(p), show(idx)), 'flat %s' % cls)
    R.need(ninst, 12, 'index maps')
    # ------------------------------------------------------------------ uses
    def fkey(l):
        fs = [x[1] for x in l.path if x[0] == 'f' and not x[1].startswith('#')]
        return fs[-1] if fs else None
    runs = modular(R, P) + modular(R, P, opaque=())
    fdims = {}         # qualified member -> extents it is always created with
    for f, eng in runs:
        for e in eng.events:
            if e.kind == 'cont' and e.name == 'dims' and e.args and e.locs and isinstance(e.locs[0], Loc):
                k = fkey(e.locs[0])
                if k is None: continue
                d = tuple(eng.resolve(a) for a in e.args)
                if k in fdims and fdims[k] != d: fdims[k] = None
                else: fdims[k] = d
    R.count('members with known extents', len([1 for d in fdims.values() if d]))
    nuse = 0
    for f, eng in runs:
        for e in eng.events:
            if e.kind != 'elem' or 'cls' not in e.x or e.name != 'operator()': continue
            cls = e.x['cls']
            ext = extents.get(cls)
            if ext is None and e.locs and isinstance(e.locs[0], Loc):
                d = []
                for i in range(len(e.args)):
                    v = eng.lookup(eng.st, fld(e.locs[0], '#x%d' % i)) if eng.st else None
                    d.append(v)
                ext = d if all(x is not None for x in d) else fdims.get(fkey(e.locs[0]))
            if ext is None or len(ext) != len(e.args): continue
            for i, (a, x) in enumerate(zip(e.args, ext)):
                if x is None or a is None: continue
                a = eng.resolve(a); x = eng.resolve(x)
                nuse += use(R, f, eng, e, cls, i, a, x)
    R.need(nuse, 80, 'subscripts with a known range')

def use(R, f, eng, e, cls, i, a, x):
    if a.op == 'call' and a.a[0] in KIND_CALL and kind_ext(x):
        R.oblige('%s: subscript %d of %s is a %s' % (f['n'], i, cls, KIND_CALL[a.a[0]]), KIND_CALL[a.a[0]] == kind_ext(x), e.where,
                 'in %s, subscript %d of %s is a %s number where a %s is expected' % (e.fn, i, cls, KIND_CALL[a.a[0]], kind_ext(x)),
                 'kind %s %s %d' % (e.fn, cls, i))
        return 1
    if a.op == 'num' and x.op == 'num':
        R.oblige('%s: subscript %d of %s is below %s' % (f['n'], i, cls, show(x)), 0 <= a.a[0] < x.a[0], e.where,
                 'in %s, subscript %d of %s is %s but its extent is %s' % (e.fn, i, cls, show(a), show(x)), 'range %s %s %d' % (e.fn, cls, i))
        return 1
    if not any(y.op == 'iv' for y in subvals(a)): return 0
    u = upper(eng, a)
    if u is None: return 0
    # the guards at the access may exclude the last iterations
    d = sub(u, sub(x, ONE))
    if d.op == 'num':
        if d.a[0] > 0 and guarded(eng, e, a): return 0
        R.oblige('%s: subscript %d of %s stays below %s' % (f['n'], i, cls, show(x)), d.a[0] <= 0, e.where,
                 'in %s, subscript %d of %s reaches %s but its extent is %s' % (e.fn, i, cls, show(u), show(x)), 'range %s %s %d' % (e.fn, cls, i))
        return 1
    k, kx = kind_ext(add(u, ONE)), kind_ext(x)
    if k and (kx and k != kx or x.op == 'num') and not guarded(eng, e, a):
        R.oblige('', False, e.where, 'in %s, subscript %d of %s runs over %ss but its extent is %s' % (e.fn, i, cls, k, show(x)), 'range %s %s %d' % (e.fn, cls, i))
        return 1
    return 0

def guarded(eng, e, a):
    """some condition at the access (other than the loops' own) restricts the subscript"""
    ivs = [y for y in subvals(a) if y.op == 'iv']
    loopc = set()
    for y in ivs:
        L = loop_of(eng, y)
        if L is not None:
            for z in lits(eng.resolve(L.cond)): loopc.add(z)
    for c in conds(e):
        c = eng.resolve(c)
        if c in loopc: continue
        if any(y in ivs for y in subvals(c)): return True
    return False
