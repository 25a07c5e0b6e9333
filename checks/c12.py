"""C12: named options select their documented algorithms."""
from sa.whole import *
from checks.c11 import deck, eqv, ABORT, strip
from checks.c08 import has_call

TECHNIQUE = 'evaluation of path conditions of assignments, allocations and calls for every documented option text'
NOTE = """From main, the path conditions of every assignment of an option variable, every program end and every created solver are evaluated for each documented
text of the option and for any other text. In every function that consults an option the enabled effects are computed for each value: they must not be
empty or shared between values and must show the algorithm's characteristic operations (probing or posted receives, communication inside or outside the
parallel region, pivoting or not, fixed point or Krylov). That the body of an algorithm is right is the subject of other properties."""

DOC = {'MPIType': ('g_mpiType', ['TychoTwoSided', 'CapsaicinTwoSided']),
       'SweepType': ('g_sweepType', ['OriginalTycho1', 'OriginalTycho2', 'TraverseGraph', 'PBJ', 'PBJOuter', 'Schur', 'SchurOuter', 'PBJSI', 'SchurKrylov']),
       'GaussElim': ('g_gaussElim', ['Original', 'NoPivot', 'CramerGlu', 'CramerIntel'])}
CLS = {'OriginalTycho1': 'Sweeper', 'OriginalTycho2': 'Sweeper', 'TraverseGraph': 'SweeperTraverse'}

def gname(l): return l.root[2].split('::')[-1] if isinstance(l, Loc) and l.root[0] == 'G' and not l.path else None

def names(R, D):
    """option -> {name: value}"""
    eng = D.eng; out = {}
    upto = min([e.seq for e in D.solve], default=None)
    for key, (glob, doc) in DOC.items():
        v = D.val.get(key)
        if v is None: R.notes.append('option %s is not read in a form followed here' % key); continue
        atoms = {}
        for e in eng.events:
            for x in lits_of(e, eng):
                for y in subvals(x):
                    if y.op == 'eq' and any(z is v for z in y.a):
                        s = [z for z in y.a if z is not v]
                        if len(s) == 1 and s[0].op == 'str': atoms[s[0].a[0]] = y
        if not atoms: R.notes.append('the comparison of %s with its names is not recognised' % key); continue
        ws = [w for w in eng.events if w.kind == 'write' and w.locs and gname(w.locs[0]) == glob]
        def outcome(name):
            m = {a: n == name for n, a in atoms.items()}
            for a in D.common: m[a] = True
            ends = []
            for e, g, ls in D.ends:
                if upto is not None and e.seq >= upto: continue
                mine = [x for x in g if any(y is v for y in subvals(x))]
                vals = [value(eng, x, m) for x in mine]
                if not mine or any(x is FALSE for x in vals): continue
                if all(x is TRUE for x in vals): 
                    if len(mine) == len(g): ends.append(True)
                else: ends.append(None)
            end = True if True in ends else None if None in ends else False
            val = None
            for w in ws:
                k = enabled(eng, w, m)
                if k is True: val = value(eng, eng.resolve(w.args[0]), m)
                elif k is None: return end, 'unknown', w
            return end, val, (ws[0] if ws else None)
        res = {}
        where = ws[0].where if ws else 'src/Main.cc'
        for n in doc:
            end, val, w = outcome(n)
            if end is None or val == 'unknown': R.notes.append('%s %s: not decided' % (key, n)); continue
            R.oblige('%s %s is accepted' % (key, n), not end and val is not None, where, 'the documented %s %s is rejected or selects nothing' % (key, n), 'accept ' + n)
            if val is not None and isinstance(val, V): res[n] = val
        end, val, w = outcome('\0other')
        if end is not None:
            R.oblige('other texts of %s end the program' % key, end, where, 'an unknown %s goes on with the program' % key, 'unknown ' + key)
        for n in sorted(set(atoms) - set(doc)):
            end, val, w = outcome(n)
            if end is False: R.oblige('%s knows its documented names only' % key, False, where, '%s also accepts %r' % (key, n), 'extra ' + key)
        inv = {}
        for n, val in res.items():
            if val in inv: R.oblige('%s %s has its own value' % (key, n), False, where, '%s %s and %s select the same value: one of them runs the other\'s algorithm' % (key, inv[val], n), 'distinct ' + n)
            else: inv[val] = n; R.oblige('%s %s has its own value' % (key, n), True, where)
        # the constant named after the option
        enum = {}
        for en in D.P.enums.values():
            for c in en:
                cn, cv = (c['n'], c['v']) if isinstance(c, dict) else (c[0], c[1])
                enum[cn] = int(cv)
        for n, val in res.items():
            mine = [c for c in enum if c == '%s_%s' % (key, n) or c.endswith('_' + n) and c.startswith(key[:5])]
            if len(mine) == 1 and val.op == 'num':
                R.oblige('%s %s selects %s' % (key, n, mine[0]), val.a[0] == enum[mine[0]], where, '%s %s does not select %s' % (key, n, mine[0]), 'constant ' + n)
        out[key] = res
        D.atoms[key] = atoms
    return out

def solvers(R, D, opts):
    """the solver object created for each sweep type"""
    eng = D.eng
    atoms = D.atoms.get('SweepType')
    if not atoms: return
    n = 0
    news = [e for e in eng.events if e.kind == 'new' and (e.name.startswith('Sweeper') or e.name == 'GraphTraverser')]
    if not news: R.notes.append('creation of solvers not recognised'); return
    have = {e.name for e in news}
    for name in DOC['SweepType'][1]:
        m = {a: x == name for x, a in atoms.items()}
        for a in D.common: m[a] = True
        on = [(e, enabled(eng, e, m)) for e in news]
        if any(k is None for e, k in on): R.notes.append('solver of %s not decided' % name); continue
        on = [e for e, k in on if k]
        sw = [e for e in on if e.name.startswith('Sweeper')]
        want = CLS.get(name, 'Sweeper' + name)
        if want not in D.P.recs and want not in have: R.notes.append('no class %s' % want); continue
        n += 1
        R.oblige('%s is solved by %s' % (name, want), [e.name for e in sw] == [want], sw[0].where if sw else 'src/Main.cc',
                 'sweep type %s creates %s instead of %s' % (name, ', '.join(e.name for e in sw) or 'no solver', want), 'solver ' + name)
        gt = [e for e in on if e.name == 'GraphTraverser']
        if not name.startswith('Original') and gt:
            # the communication flag stored in the object
            dc = [w for w in eng.events if w.kind == 'write' and w.locs and isinstance(w.locs[0], Loc) and field_short(w.locs[0]) == 'c_doComm' and enabled(eng, w, m) is True and w.seq > gt[0].seq]
            if dc:
                x = value(eng, eng.resolve(dc[-1].args[0]), m)
                if x.op == 'num' or x in (TRUE, FALSE):
                    b = x is TRUE or x.op == 'num' and x.a[0] != 0
                    R.oblige('%s: communication during traversal' % name, b == (name == 'TraverseGraph'), dc[-1].where,
                             'the graph traversal of sweep type %s is created %s communication' % (name, 'with' if b else 'without'), 'comm ' + name)
        if not name.startswith('Original'):
            R.oblige('%s has a graph traversal' % name, len(gt) == 1, sw[0].where if sw else 'src/Main.cc', 'sweep type %s is started without its graph traversal' % name, 'traverser ' + name)
    R.count('sweep types followed to their solver', n)

def reads_global(f, g):
    return any(n.get('k') == 'ref' and n.get('n', '').split('::')[-1] == g for n in walk(f['body']))

def effects(eng, g, k):
    """events under a condition on option g that are enabled for value k; None for undecided ones"""
    out, und = [], 0
    for e in eng.events:
        if e.kind not in ('call', 'write', 'cont', 'throw', 'new'): continue
        gs = [x for x in lits_of(e, eng)]
        mine = [x for x in gs if any(is_global(y, g) for y in subvals(x))]
        if not mine: continue
        r = True
        for x in mine:
            sub_ = {y: k for y in subvals(x) if is_global(y, g)}
            z = eng.subst(x, sub_)
            if z is FALSE: r = False; break
            if z is not TRUE: r = None
        if r: out.append(e)
        elif r is None: und += 1
    return out, und

def in_par(e): return in_frames(e, lambda f: f.kind == 'omp') is not None

def dispatch(R, D, opts):
    P = D.P
    n = 0
    C = closure(P)
    main = P.fn('main')
    for key, (glob, doc) in DOC.items():
        res = opts.get(key)
        if not res or len(res) < len(doc): continue
        for f in user_funcs(P):
            if f['n'] == 'main' or f['usr'] in C and any('KeyValueReader' in P.funcs[y]['n'] for y in C[f['usr']]): continue
            if not reads_global(f, glob): continue
            eng = Engine(P, opaque=MESH_GETTERS + QUAD_GETTERS, noinline=[h for h in HEAVY if h != f['n']], virtual_opaque=True)
            eng.run(f); R.analysed(f['n'])
            eff = {}
            und = 0
            for name in doc:
                eff[name], u = effects(eng, glob, res[name]); und += u
            where = '%s:%s' % (f.file, f['loc'][1])
            if not any(eff.values()): continue
            if und: R.notes.append('%s: some effects under %s not decided' % (f['n'], glob))
            use = doc if key != 'SweepType' else [x for x in doc if x.startswith('Original')] if 'Sweeper::' in f['n'] else doc
            feature = FEATURE.get(key)
            for name in use:
                n += 1
                R.oblige('%s: %s %s does something' % (f['n'], key, name), bool(eff[name]) or bool(und), where, '%s does nothing for %s %s' % (f['n'], key, name), '%s nothing %s' % (f['n'], name))
            for i, a in enumerate(use):
                for b in use[i + 1:]:
                    sa = {e.seq for e in eff[a] if e.kind in ('call', 'new') and not e.name.startswith('printf')} or {e.seq for e in eff[a]}
                    sb = {e.seq for e in eff[b] if e.kind in ('call', 'new') and not e.name.startswith('printf')} or {e.seq for e in eff[b]}
                    if key == 'GaussElim': sa, sb = {e.seq for e in eff[a]}, {e.seq for e in eff[b]}
                    common = sa & sb
                    first = eng.events[min(common)] if common else None
                    if key == 'MPIType' and sa != sb and common and (sa - sb or sb - sa): continue
                    R.oblige('%s: %s and %s do different things' % (f['n'], a, b), not common, first.where if first else where,
                             '%s: code of %s also runs for %s' % (f['n'], a, b), '%s shared %s %s' % (f['n'], a, b))
            if feature: feature(R, f, eng, eff, where)
    return n

def f_mpi(R, f, eng, eff, where):
    ty = [e.name for e in eff['TychoTwoSided'] if e.kind == 'call']; ca = [e.name for e in eff['CapsaicinTwoSided'] if e.kind == 'call']
    probe = {'MPI_Iprobe', 'MPI_Improbe', 'MPI_Testall', 'MPI_Probe'}
    post = {'MPI_Irecv', 'MPI_Waitany'}
    if any(x in probe | post for x in ty):
        R.oblige('%s: TychoTwoSided posts its receives' % f['n'], bool(post & set(ty)) and not probe & set(ty), where, '%s: TychoTwoSided runs the probing exchange' % f['n'], 'tycho mpi')
    if any(x in probe | post for x in ca):
        R.oblige('%s: CapsaicinTwoSided probes for messages' % f['n'], bool(probe & set(ca)) and not post & set(ca), where, '%s: CapsaicinTwoSided runs the exchange with posted receives' % f['n'], 'capsaicin mpi')
    if not ca and any(x in post for x in ty): pass

def f_sweep(R, f, eng, eff, where):
    for name, inside in (('OriginalTycho1', False), ('OriginalTycho2', True)):
        ms = [e for e in eff[name] if e.kind == 'call' and e.name in ('MPI_Isend', 'MPI_Recv', 'MPI_Send', 'MPI_Irecv')]
        if ms:
            R.oblige('%s: %s communicates %s the parallel region' % (f['n'], name, 'in' if inside else 'after'), all(in_par(e) == inside for e in ms), ms[0].where,
                     '%s: %s communicates %s the parallel region' % (f['n'], name, 'outside' if inside else 'inside'), 'region ' + name)

def f_gauss(R, f, eng, eff, where):
    def fab(n): return any(e.kind == 'call' and strip(e.name) in ('fabs', 'abs') for e in eff[n]) or any(y.op == 'call' and y.a[0] in ('fabs', 'abs', 'std::abs') for e in eff[n] for x in list(e.args) + lits_of(e, eng) if isinstance(x, V) for y in subvals(eng.resolve(x)))
    p = {n: fab(n) for n in DOC['GaussElim'][1]}
    if any(p.values()):
        R.oblige('%s: Original pivots' % f['n'], p['Original'], where, '%s: the method Original does not pivot' % f['n'], 'pivot')
        R.oblige('%s: NoPivot does not pivot' % f['n'], not p['NoPivot'], where, '%s: the method NoPivot pivots' % f['n'], 'no pivot')

    # Intel's variant keeps twelve pair products, the Glu variant none
    tw = {}
    for n in ('CramerGlu', 'CramerIntel'):
        mx = {}
        for e in eff[n]:
            if e.kind == 'write' and e.locs and isinstance(e.locs[0], Loc) and e.locs[0].root[0] == 'L' and len(e.locs[0].path) == 1 and e.locs[0].path[0][0] == 'i':
                i = eng.resolve(e.locs[0].path[0][1])
                if i.op == 'num': mx[e.locs[0].root] = max(mx.get(e.locs[0].root, 0), i.a[0])
        tw[n] = 11 in mx.values()
    if sorted(tw.values()) == [False, True]:
        R.oblige("%s: CramerIntel runs Intel's variant" % f['n'], tw['CramerIntel'], where, "%s: CramerGlu and CramerIntel run each other's variant" % f['n'], 'cramer')

FEATURE = {'MPIType': f_mpi, 'SweepType': f_sweep, 'GaussElim': f_gauss}

def switches(R, D):
    """SourceIteration chooses between the two outer solvers"""
    P = D.P; n = 0
    for f in user_funcs(P):
        if not reads_global(f, 'g_useSourceIteration') or f['n'] == 'main' or has_call(P, f, {'CKG_Utils::KeyValueReader::getBool'}) : continue
        C = closure(P)
        if any('KeyValueReader' in P.funcs[y]['n'] for y in C.get(f['usr'], ())): continue
        fp = ['SourceIteration::fixedPoint', 'SourceIteration::krylov']
        eng = Engine(P, opaque=MESH_GETTERS + QUAD_GETTERS, noinline=[h for h in HEAVY if h != f['n']] + fp, virtual_opaque=True)
        eng.run(f); R.analysed(f['n'])
        for k, mine, other in ((num(1), 'fixedPoint', 'krylov'), (num(0), 'krylov', 'fixedPoint')):
            eff, und = effects(eng, 'g_useSourceIteration', k)
            free = [e for e in eng.events if e.kind == 'call' and strip(e.name) in (mine, other) and not any(is_global(y, 'g_useSourceIteration') for x in lits_of(e, eng) for y in subvals(x))]
            calls = [strip(e.name) for e in eff if e.kind == 'call' and strip(e.name) in (mine, other)]
            allc = [e for e in eng.events if e.kind == 'call' and strip(e.name) in (mine, other)]
            if und or not allc: continue
            n += 1
            txt = 'true' if k is ONE else 'false'
            R.oblige('%s: SourceIteration %s runs %s' % (f['n'], txt, mine), mine in calls and other not in calls and not free, allc[0].where,
                     '%s: SourceIteration %s runs %s' % (f['n'], txt, ' and '.join(calls + [strip(e.name) for e in free]) or 'neither solver'), '%s SI %s' % (f['n'], txt))
    return n

def later(R, D):
    """options are not changed after they were read"""
    for f in user_funcs(D.P):
        C = closure(D.P)
        if f['n'] == 'main' or any('KeyValueReader' in D.P.funcs[y]['n'] for y in C.get(f['usr'], ())): continue
        for n in walk(f['body']):
            if n.get('k') == 'asg':
                t = n.get('a') or n.get('l') if isinstance(n.get('a'), Node) else n.get('a')
                t = n.get('a')
                if t is not None and t.get('k') == 'ref' and t.get('n', '').split('::')[-1] in ('g_mpiType', 'g_sweepType', 'g_gaussElim', 'g_useSourceIteration'):
                    R.oblige('options keep their value', False, '%s:%s' % (n.file, n.get('l')), '%s changes the option %s' % (f['n'], t['n']), 'changed %s' % t['n'])

def check(R):
    R.rule('For every documented text of an option the enabled assignment of its variable is a constant of its own, the constant named after it if there is one; every other '
           'text enables a program end. For every sweep type exactly the solver class named after it is created, with the traversal it needs. In every function that consults '
           'an option the enabled effects of different values are disjoint, not empty, and have the features of the algorithm.')
    P = R.prog('sweep+noassert')
    D = deck(R, P); D.P = P; D.atoms = {}
    opts = names(R, D)
    R.need(sum(len(x) for x in opts.values()), 6, 'named options followed')
    solvers(R, D, opts)
    n = dispatch(R, D, opts) + switches(R, D)
    R.need(n, 4, 'places where options are consulted')
    later(R, D)
