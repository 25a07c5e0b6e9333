"""C18: iterations stop exactly on convergence or at their limit."""
from sa.common import *
from sa.p2p import aloc, rloc, loop_n, calls_in
from sa.whole import closure
from checks.c10 import content_before

TECHNIQUE = 'exit conditions of iterations in normal form; provenance of the compared iterates; call ordering for the exchange of boundary data'
NOTE = """Puts the conditions under which each iteration is left (loop condition, breaks, returns) into a normal form over the number of iterations done and
the global error, and follows the two iterates in the error to the calls that produced them. Decides for every input that the iteration ends exactly when
its limit is reached or the error, reduced over all processes, is below the tolerance of the same kind. The convergence test inside PETSc is trusted; what is
decided for it is which tolerance and limit it is given. Convergence itself is not decided (C41)."""

BOUND = ['Util::sweepLocal', 'CommSides::commSides', 'Util::psiToPhi', 'Util::phiToPsi', 'Util::calcTotalSource', 'Util::operatorS',
         'SourceIteration::fixedPoint', 'SourceIteration::krylov', 'Problem::getSource', 'KrylovSolver::solve', 'GraphTraverser::traverse']
LIMITS = {'g_iterMax': 'g_errMax', 'g_ddIterMax': 'g_ddErrMax'}

def run_(P, R, F):
    eng = Engine(P, opaque=MESH_GETTERS + QUAD_GETTERS, noinline=[h for h in HEAVY + BOUND if h != F['n']], virtual_opaque=True)
    eng.run(F)
    R.analysed(F['n'])
    return eng

def reaches(P, names):
    """functions that lead to a call of one of names without a virtual call"""
    cl = closure(P)
    d = {f['usr'] for f in user_funcs(P) if calls_in(f, names) or f['n'] in names}
    return {u for u in cl if u in d or cl[u] & d}

def check(R):
    R.rule('An iteration (a loop whose exits depend on the deck\'s limits or tolerances) is left if and only if as many iterations are done as the limit says, '
           'or the error is at or below the tolerance; limit and tolerance are of the same kind; the error is a sum over all processes, relative to the '
           'norm of the new iterate, of all entries of the difference between the iterate just computed and the one of the iteration before; '
           'boundary data is exchanged after each local sweep that another follows. Krylov solvers are given tolerance and limit of the same kind.')
    R.assumption('Equality of error and tolerance may be decided either way.')
    P = R.prog('sweep+noassert')
    red = reaches(P, {'MPI_Allreduce'})
    n = m = 0
    comm = reaches(P, {'CommSides::commSides'})
    for F in user_funcs(P):
        if F['n'] == 'main' or F['usr'] not in red and not mentions_limit(F): continue
        if not any(x.get('k') in ('for', 'while', 'do', 'rfor') for x in walk(F['body'])) and not any(x.get('k') == 'ctor' for x in walk(F['body'])): continue
        if F['n'].split('::')[0] in ('Comm', 'TychoMeshIO', 'ParallelMesh', 'SerialMesh', 'SweepSchedule', 'Priorities'): continue
        eng = run_(P, R, F)
        for L in eng.loops:
            st = stops(eng, L)
            if not st or not any(limit_atom(eng, a) for c, ph in st for a in c) and not any(a.op in ('gt0', 'fge0') and tol_in(a) for c, ph in st for a in c): continue
            n += 1
            iteration(R, P, F, eng, L, st)
        m += krylov(R, P, F, eng)
        exchange(R, P, F, eng)
    R.need(n, 1, 'iterations')
    R.need(m, 1, 'Krylov solvers')

def mentions_limit(F):
    return any(str(x.get('n', '')) in LIMITS or str(x.get('n', '')) in LIMITS.values() for x in walk(F['body']))

# --- exits
def dnf(v):
    """list of conjunctions"""
    if v is TRUE: return [frozenset()]
    if v is FALSE: return []
    if v.op == 'or':
        out = []
        for x in v.a: out += dnf(x)
        return out
    if v.op == 'and':
        out = [frozenset()]
        for x in v.a:
            d = dnf(x)
            out = [a | b for a in out for b in d]
            if len(out) > 64: return [frozenset([v])]
        return out
    return [frozenset([v])]

def stops(eng, L):
    out = []
    if L.pcond is not None:
        out += [(c, 'tail') for c in dnf(eng.resolve(bnot(L.pcond)))]
    elif L.cond is not TRUE:
        out += [(c, 'head') for c in dnf(eng.resolve(bnot(L.cond)))]
    go = lits(eng.resolve(L.cond)) if L.cond is not TRUE else []
    for x in L.exits:
        for c in dnf(eng.resolve(x)):
            out.append((frozenset(a for a in c if a not in go), 'body'))
    unit = {next(iter(c)) for c, ph in out if len(c) == 1}
    return [(c if len(c) == 1 else frozenset(a for a in c if bnot(a) not in unit), ph) for c, ph in out]     # A or (not A and B) is A or B

def limit_atom(eng, a):
    """(global, p, r): stop iff p*iv + r - limit >= 0"""
    if a.op == 'not' and a.a[0].op == 'eq0': return None
    if a.op not in ('ge0', 'eq0'): return None
    t = dict(terms(a.a[0]))
    g = [(m, global_name(m[0])) for m in t if len(m) == 1 and global_name(m[0]) in LIMITS]
    if len(g) != 1: return None
    s = -t.pop(g[0][0])
    if a.op == 'eq0' and s < 0:
        t = {k: -v for k, v in t.items()}; s = -s
    r = t.pop((), 0)
    if len(t) == 1:
        (m, p), = t.items()
        if len(m) == 1 and m[0].op == 'iv': return g[0][1], s, p, r, m[0]
    return g[0][1], s, None, r, None
def tol_in(v):
    return next((global_name(x) for x in subvals(v) if x.op == 'init' and global_name(x) in LIMITS.values()), None)

def error_atom(v):
    """stop iff tol * N > E, or tol > E / N: (tol, E, N, sign)"""
    if v.op not in ('gt0', 'fge0'): return None
    t = terms(v.a[0])
    ft = [(m, c) for m, c in t.items() if any(global_name(x) in LIMITS.values() for x in m)]
    rest = [(m, c) for m, c in t.items() if (m, c) not in ft]
    if len(ft) != 1 or len(rest) != 1: return None
    (m, c), (m2, c2) = ft[0], rest[0]
    tol = [x for x in m if global_name(x) in LIMITS.values()]
    den = [x for x in m if x not in tol]
    invs = [x.a[0] for x in m2 if x.op == 'inv']
    E = [x for x in m2 if x.op != 'inv']
    if len(tol) != 1 or len(E) != 1 or len(den) + len(invs) > 1 or abs(c) != 1 or abs(c2) != 1:
        return (global_name(tol[0]), None, None, 1 if c > 0 else -1) if tol else None
    return global_name(tol[0]), E[0], (den + invs + [None])[0], 1 if c > 0 and c2 < 0 else -1 if c < 0 and c2 > 0 else 0

def iteration(R, P, F, eng, L, st):
    where = '%s:%s' % (L.file, L.line)
    name = F['n']
    mumap = {m: L.next[l] for l, m in L.mu.items() if L.next.get(l) is not None}
    upd = updates(eng, L)
    lim, err = [], []
    other = []
    for c, ph in st:
        kinds = []
        for a in sorted(c, key=lambda x: x.id):
            la = limit_atom(eng, a)
            if la: kinds.append(('limit', la, a)); continue
            b = a
            if ph == 'head':
                b = eng.resolve(eng.subst(a, mumap))
            ea = error_atom(b)
            if ea: kinds.append(('error', ea, a)); continue
            kinds.append(('other', b, a))
        if len(c) == 1 and kinds[0][0] == 'limit': lim.append((kinds[0][1], ph, kinds[0][2]))
        elif len(c) == 1 and kinds[0][0] == 'error': err.append((kinds[0][1], ph, kinds[0][2]))
        else: other.append((kinds, ph, c))
    # conditions made of several parts
    for kinds, ph, c in other:
        ks = {k for k, _, _ in kinds}
        if ks <= {'limit', 'error'} and c:
            if not lim or not err:
                R.violation(where, '%s: the iteration only ends when several conditions hold together: %s' % (name, ' and '.join(show(a) for a in c)), 'exit together %s' % name)
        elif any(k == 'other' and local_value(eng, b) for k, b, _ in kinds):
            b = [x for k, x, _ in kinds if k == 'other' and local_value(eng, x)][0]
            R.violation(where, '%s: the iteration ends on a value local to one process: %s' % (name, show(b)), 'local exit %s' % name)
        else: R.notes.append('%s: exit condition %s not recognised' % (name, ' and '.join(show(a)[:80] for a in c)))
    if not lim and not any('limit' in {k for k, _, _ in kinds} for kinds, _, _ in other):
        R.violation(where, '%s: the iteration has no limit on the number of iterations' % name, 'no limit %s' % name)
    if not err and not any('error' in {k for k, _, _ in kinds} for kinds, _, _ in other) and not any(k == 'other' for kinds, _, _ in other for k, _, _ in kinds):
        R.violation(where, '%s: the iteration does not end when the error is small enough' % name, 'no tolerance %s' % name)
    for (g, s, p, r, iv), ph, a in lim:
        if p is None or iv is None or iv.a[0] != L.n:
            skip = [c for l, c in uncounted(eng, L, a)]
            if skip: R.violation(where, '%s: iterations are not counted when %s' % (name, show(skip[0])), 'counter %s' % name)
            elif counter_local(eng, a): R.violation(where, '%s: the number of iterations is not counted: %s' % (name, show(a)), 'counter %s' % name)
            else: R.notes.append('%s: counter in %s not recognised' % (name, show(a)))
            continue
        d = 0 if ph == 'head' else 1
        if ph == 'body' and upd and all(bnot(a) in [eng.resolve(x) for x in guards(u)] for u in upd): d = 0
        ok = s == 1 and p == 1 and d - r == 0
        R.oblige('%s: limit %s' % (name, g), ok, where, '%s: the iteration ends %s' % (name,
                 'after %s%+d iterations instead of %s' % (g, d - r, g) if s == 1 and p == 1 else 'on %s' % show(a)), 'limit %s' % name)
    kind = {g for (g, *_), _, _ in lim}
    for (tol, E, N, sg), ph, a in err:
        R.oblige('%s: ends when the error is below %s' % (name, tol), sg == 1, where, '%s: the iteration ends on %s' % (name, show(a)), 'tolerance %s' % name)
        if len(kind) == 1:
            R.oblige('%s: limit and tolerance of the same kind' % name, LIMITS[list(kind)[0]] == tol, where,
                     '%s: the number of iterations is limited by %s but the error is compared with %s' % (name, list(kind)[0], tol), 'kind %s' % name)
        if E is None:
            b = eng.resolve(eng.subst(a, mumap)) if ph == 'head' else a
            xs = [x for m in terms(b.a[0]) for x in m if global_name(x) not in LIMITS.values()]
            if xs and all(is_sum(eng, x.a[0] if x.op == 'inv' else x) for x in xs):
                R.violation(where, '%s: the iteration ends on %s, which is not the error relative to the norm' % (name, show(b)), 'relative %s' % name)
            else: R.notes.append('%s: error in %s not recognised' % (name, show(a)[:100]))
            continue
        if N is None and is_sum(eng, E): R.violation(where, '%s: the error is not relative to the norm of the iterate' % name, 'relative %s' % name)
        measure(R, P, F, eng, L, E, N, ph, where)
    # the error that the first test sees
    for (tol, E, N, sg), ph, a in err:
        if ph != 'head': continue
        inits = {m: L.init[l] for l, m in L.mu.items() if m in set(subvals(a)) and L.init.get(l) is not None}
        v = eng.resolve(eng.subst(a, inits))
        t = terms(v.a[0]) if v.op in ('gt0', 'fge0') else None
        if t is not None and all(len(m) <= 1 for m in t):
            R.oblige('%s: first iteration is done' % name, t.get((), 0) < 0, where, '%s: the error starts so small that no iteration may be done' % name, 'first %s' % name)
    # kind by what is iterated
    inside = [e for e in eng.events if e.kind == 'call' and any(q is L for q in loops_of(e))]
    cs = [e for e in inside if e.name == 'CommSides::commSides']
    if len(kind) == 1 and (cs or any(e.name and e.name.endswith('::sweep') for e in inside)):
        want = 'g_ddIterMax' if cs else 'g_iterMax'
        R.oblige('%s: limit belongs to this iteration' % name, list(kind)[0] == want, where, '%s: an iteration %s is limited by %s' % (name,
                 'over subdomains' if cs else 'over the scattering source', list(kind)[0]), 'whose %s' % name)

def is_sum(eng, x):
    return x.op == 'out' and isinstance(x.a[0], int) and eng.events[x.a[0]].name == 'MPI_Allreduce'

def updates(eng, L):
    return [e for e in eng.events if e.kind == 'call' and e.name and any(q is L for q in loops_of(e)) and
            (e.name in BOUND and e.name not in ('Util::calcTotalSource', 'CommSides::commSides', 'Util::phiToPsi', 'Util::operatorS') or e.name.endswith('::sweep'))]

def local_value(eng, v):
    """depends on something that is not the same on all processes: an accumulated sum that is not reduced, the rank, a clock"""
    for x in subvals(v):
        if x.op == 'fin' and not reduced_in(eng, v, x): return True
        if x.op == 'out' and isinstance(x.a[0], int):
            e = eng.events[x.a[0]]
            if e.name == 'MPI_Comm_rank' or e.name and 'now' in e.name: return True
    return False
def reduced_in(eng, v, x): return any(y.op == 'out' and isinstance(y.a[0], int) and eng.events[y.a[0]].name == 'MPI_Allreduce' for y in subvals(v))
def counter_local(eng, a):
    return not any(x.op in ('iv', 'mu', 'fin') for x in subvals(a))

def uncounted(eng, L, a):
    out = []
    for l, m in L.mu.items():
        if m not in set(subvals(a)) or l not in L.next: continue
        st = [(eng.resolve(L.next[l]), [])]
        while st:
            v, c = st.pop()
            if v.op == 'ite': st += [(v.a[1], c + [v.a[0]]), (v.a[2], c + [bnot(v.a[0])])]
            elif v is m and c: out.append((l, band(*c)))
    return out

# --- error
def local_of(eng, v):
    """value before its reduction over all processes, or None; second: why not"""
    sel_ = None
    if v.op == 'sel' and v.a[0].op == 'out': sel_, v = v.a[1], v.a[0]
    if v.op == 'out' and isinstance(v.a[0], int) and eng.events[v.a[0]].name == 'MPI_Allreduce':
        e = eng.events[v.a[0]]
        op = mpi_const(e.args[4])
        if op != 'ompi_mpi_op_sum': return None, 'reduced by %s' % op
        b = aloc(eng, e.args[0])
        if b is None and mpi_const(e.args[0]) is None: b = aloc(eng, e.args[1])
        if b is None: return None, None
        base, rest = b, ()
        while base.path and base.path[-1][0] == 'i': rest = (base.path[-1],) + rest; base = mkloc(base.root, base.path[:-1])
        x = content_before(eng, e, base)
        if x is None: return None, None
        x = eng.resolve(x)
        if rest:
            k = rest[0][1]
            if sel_ is not None: k = add(k, sel_[1]) if sel_[0] == 'i' else k
            while x.op == 'store':
                if x.a[1] == ('i', k): return eng.resolve(x.a[2]), None
                x = x.a[0]
            return None, None
        return x, None
    if any(x.op == 'out' and isinstance(x.a[0], int) and eng.events[x.a[0]].name == 'MPI_Allreduce' for x in subvals(v)): return None, None
    if any(x.op == 'fin' for x in subvals(v)): return None, 'not reduced over all processes'
    return None, None

def summand(eng, v, depth=0):
    """loops and summand of an accumulated sum that starts at zero"""
    if v.op != 'fin' or depth > 6: return None
    L = loop_n(eng, v.a[0])
    l = v.a[1]
    if L is None or l not in L.mu: return None
    nx = L.next.get(l)
    if nx is None: return None
    nx = eng.resolve(nx)
    m = L.mu[l]
    if nx.op == 'fin':
        r = summand_from(eng, nx, m, depth + 1)
        return ([L] + r[0], r[1], eng.resolve(L.init[l])) if r else None
    t = sub(nx, m)
    if any(x is m for x in subvals(t)): return None
    return [L], eng.resolve(t), eng.resolve(L.init[l])
def summand_from(eng, v, start, depth):
    r = summand(eng, v, depth)
    return r if r and r[2] is start else None

def load(v):
    """(content, index) of an element that is read"""
    if v.op == 'sel' and v.a[1][0] in 'ix': return v.a[0], v.a[1]
    if v.op == 'ite':
        a, b = load(v.a[1]), load(v.a[2])
        return (mk('ite', v.a[0], a[0], b[0]), a[1]) if a and b and a[1] == b[1] else None
    if v.op in ('init', 'uninit') and isinstance(v.a[0], Loc) and v.a[0].path and v.a[0].path[-1][0] in 'ix':
        return mk(v.op, mkloc(v.a[0].root, v.a[0].path[:-1])), v.a[0].path[-1]
    return None

def unwritten(P, R, e, loc):
    """the called function does not change what is passed as this argument"""
    if e.name != 'CommSides::commSides': return False
    k = [i for i, a in enumerate(e.args) if isinstance(a, V) and a.op == 'addr' and a.a[0].root == loc.root and a.a[0].path == loc.path]
    return k == [0]

def origin(P, R, eng, L, c, depth=0):
    if depth > 30: return None
    c = eng.resolve(c)
    o = lambda x: origin(P, R, eng, L, x, depth + 1)
    if c.op == 'sel' and c.a[1] == ('f', '#m'): return o(c.a[0])
    if c.op == 'upd': return o(c.a[2]) if c.a[1] == ('f', '#m') else o(c.a[0])
    if c.op == 'havoc':
        k = c.a[0][1] if isinstance(c.a[0], tuple) else c.a[0]
        e = eng.events[k]
        loc = c.a[1] if len(c.a) > 1 and isinstance(c.a[1], Loc) else None
        if loc is not None and unwritten(P, R, e, loc):
            b = before(eng, L, e, loc)
            return o(b) if b is not None else None
        return ('new', frozenset([k]))
    if c.op == 'out' and isinstance(c.a[0], int): return ('new', frozenset([c.a[0]]))
    if c.op == 'ite':
        a, b = o(c.a[1]), o(c.a[2])
        if a == b: return a
        if a and b and a[0] == b[0] == 'new': return ('new', a[1] | b[1])
        return None
    if c.op == 'mu':
        if c.a[0] == L.n: return ('prev', c.a[1])
        M = loop_n(eng, c.a[0])
        return o(M.init[c.a[1]]) if M is not None and c.a[1] in M.init else None
    if c.op == 'fin':
        M = loop_n(eng, c.a[0])
        if M is None or c.a[1] not in M.mu: return None
        nx = eng.resolve(M.next[c.a[1]])
        if nx is M.mu[c.a[1]]: return o(M.init[c.a[1]])
        w = nx
        if w.op == 'fin': return o(w)
        if w.op in ('store',) and w.a[0] is M.mu[c.a[1]]:
            x = load(eng.resolve(w.a[2]))
            if x is None: return ('mixed',)
            r = o(x[0])
            return ('copy', r) if eng.resolve(same_index(x[1])) is eng.resolve(same_index(w.a[1])) and r is not None else ('mixed',)
        return None
    if c.op in ('fill', 'init', 'uninit', 'zeroed'): return ('const', show(c))
    if c.op == 'store': return ('mixed',)
    return None
def same_index(s): return s[1] if s[0] == 'i' else mk('tup', *s[1])

def before(eng, L, ev, loc):
    """content of a location before an event: from the writes before it in its loop, else as the iteration found it"""
    v = content_before(eng, ev, loc)
    inl = [e for e in eng.events[:ev.seq] if e.kind == 'write' and e.locs and isinstance(e.locs[0], Loc) and e.locs[0].root == loc.root and e.locs[0].path[:len(loc.path)] == loc.path and any(q is L for q in loops_of(e))]
    if inl: return v
    return L.mu.get(loc, v)

def full(eng, Ls, idx, cont):
    """does the index run over the whole array: True, False (with reason) or None"""
    if len(Ls) == 1:
        n = eng.resolve(Ls[0].count) if Ls[0].count is not None else None
        if n is None: return None
        if idx[0] == 'i' and idx[1] is not Ls[0].iv:
            d = sub(add(idx[1], Ls[0].iv), n)
            if d is not num(-1): return None
        if is_size(n): return True
        t = terms(n)
        if any(is_size(x) for m in t for x in m): return False
        return None
    return None
def is_size(n):
    return n.op == 'sel' and n.a[1] == ('f', '#size') or n.op in ('init', 'fin', 'mu', 'uninit') and isinstance(n.a[-1], Loc) and n.a[-1].path and n.a[-1].path[-1] == ('f', '#size')

def measure(R, P, F, eng, L, E, N, ph, where):
    name = F['n']
    le, why = local_of(eng, eng.resolve(E))
    if le is None:
        if why: R.violation(where, '%s: the error is %s' % (name, why), 'error %s' % name)
        else: R.notes.append('%s: where the error comes from is not recognised' % name)
        return
    R.oblige('%s: error reduced over all processes' % name, True, where)
    if N is not None:
        ln, why = local_of(eng, eng.resolve(N))
        if ln is None and why: R.violation(where, '%s: the norm the error is relative to is %s' % (name, why), 'norm %s' % name)
        elif ln is not None: R.oblige('%s: norm reduced over all processes' % name, True, where)
    else: ln = None
    s = summand(eng, le)
    if s is None: R.notes.append('%s: sum in the error not recognised' % name); return
    Ls, t, start = s
    R.oblige('%s: error starts at zero in each iteration' % name, start is ZERO, where,
             '%s: the error sum starts at %s' % (name, show(start)), 'error start %s' % name)
    x = t.a[1] if t.op == 'call' and t.a[0] in ('fabs', 'std::fabs', 'abs', 'std::abs') else None
    if x is None:
        def part(y): return load(y) or y.op == 'call' and 'abs' in y.a[0] and load(y.a[1])
        tt = terms(t)
        if tt and all(m and all(part(y) for y in m) for m in tt) and any(c < 0 for c in tt.values()) and all(len(m) == 1 for m in tt):
            R.violation(where, '%s: the error is a sum in which differences of opposite sign cancel: %s' % (name, show(t)), 'error sign %s' % name)
        else: R.notes.append('%s: error summand %s not recognised' % (name, show(t)[:80]))
        return
    tt = terms(x)
    if len(tt) != 2 or sorted(tt.values()) != [-1, 1] or not all(len(m) == 1 and load(m[0]) for m in tt):
        R.violation(where, '%s: the error is not the difference of two iterates: %s' % (name, show(x)), 'error difference %s' % name) if all(load(y) or y.op in ('num',) for m in tt for y in m) else R.notes.append('%s: error summand not recognised' % name)
        return
    (c1, i1), (c2, i2) = [load(m[0]) for m in tt]
    R.oblige('%s: same entry of both iterates' % name, same_index(i1) is same_index(i2), where, '%s: entry %s is compared with entry %s' % (name, show(same_index(i1)), show(same_index(i2))), 'error entry %s' % name)
    fl = full(eng, Ls, i1, c1)
    if fl is not None: R.oblige('%s: all entries in the error' % name, fl, where, '%s: the error only covers %s entries' % (name, show(Ls[0].count)), 'error range %s' % name)
    o1, o2 = origin(P, R, eng, L, c1), origin(P, R, eng, L, c2)
    if o1 is None or o2 is None: R.notes.append('%s: iterates in the error not followed' % name); return
    def fresh(o): return o[0] == 'new' and all(any(q is L for q in loops_of(eng.events[k])) for k in o[1])
    new = [(o, q) for o, q in ((o1, o2), (o2, o1)) if fresh(o)]
    if len(new) != 1:
        R.violation(where, '%s: the error compares %s' % (name, 'two vectors of which neither is the new iterate' if not new else 'two vectors that are both results of this iteration'), 'iterates %s' % name)
        return
    on, oo = new[0]
    nl = lambda l: origin(P, R, eng, L, L.next[l]) if l in L.next else None
    ok = None
    if oo[0] == 'prev':
        q = nl(oo[1])
        ok = None if q is None else q == ('copy', on) or q == on
        desc = describe(eng, q)
    elif oo[0] == 'copy' and oo[1][0] == 'prev':
        q = nl(oo[1][1])
        ok = None if q is None else q == on or q == ('copy', on)
        desc = describe(eng, q)
    else: ok = False; desc = describe(eng, oo)
    if ok is None: R.notes.append('%s: previous iterate not followed' % name)
    else: R.oblige('%s: error between the two latest iterates' % name, ok, where, '%s: the new iterate is compared with %s instead of the iterate before' % (name, desc), 'previous %s' % name)
    # norm of the new iterate
    if ln is not None:
        s2 = summand(eng, ln)
        if s2 is not None:
            t2 = s2[1]
            y = load(t2.a[1]) if t2.op == 'call' and 'abs' in t2.a[0] else None
            if y is not None:
                o = origin(P, R, eng, L, y[0])
                f2 = full(eng, s2[0], y[1], y[0])
                if f2 is not None: R.oblige('%s: all entries in the norm' % name, f2, where, '%s: the norm only covers %s entries' % (name, show(s2[0][0].count)), 'norm range %s' % name)
                if o is not None: R.oblige('%s: norm of an iterate' % name, o == on or o == oo or o[0] in ('prev', 'copy'), where, '%s: the norm is that of %s' % (name, describe(eng, o)), 'norm of %s' % name)
            elif any(x.op == 'sel' for x in subvals(t2)) and t2.op != 'call' and len(terms(t2)) == 1 and all(c == 1 for c in terms(t2).values()) and all(len(m) == 1 and load(m[0]) for m in terms(t2)):
                R.violation(where, '%s: the norm is a sum of signed entries' % name, 'norm sign %s' % name)
            R.oblige('%s: norm starts at zero in each iteration' % name, s2[2] is ZERO, where, '%s: the norm starts at %s' % (name, show(s2[2])), 'norm start %s' % name)
    # scalar flux made of the flux just swept
    for k in on[1]:
        e = eng.events[k]
        if e.name == 'Util::psiToPhi':
            l = aloc(eng, e.args[1])
            b = before(eng, L, e, l) if l is not None else None
            o = origin(P, R, eng, L, b) if b is not None else None
            if o is not None:
                R.oblige('%s: the new iterate comes from this iteration\'s sweep' % name, fresh(o), e.where, '%s: the scalar flux is computed before the sweep of the iteration' % name, 'stale flux %s' % name)

def describe(eng, o):
    if o is None: return 'something else'
    if o[0] == 'new': return 'the result of %s' % ', '.join(sorted({'%s at line %s' % (eng.events[k].name, eng.events[k].line) for k in o[1]}))
    if o[0] == 'copy': return 'a copy of ' + describe(eng, o[1])
    if o[0] == 'prev': return 'a vector that is not updated (%s)' % o[1]
    if o[0] == 'const': return o[1]
    return 'something else'

# --- boundary data
def exchange(R, P, F, eng):
    cs = [e for e in eng.events if e.kind == 'call' and e.name == 'CommSides::commSides']
    name = F['n']
    within = commfield(P, F)
    if not cs and not within: return
    sw = [e for e in eng.events if e.kind == 'call' and e.name and (e.name in ('Util::sweepLocal', 'SourceIteration::fixedPoint', 'SourceIteration::krylov') or e.name.endswith('::sweep'))]
    for c in cs:
        p, b = aloc(eng, c.args[0]), aloc(eng, c.args[1])
        ls = loops_of(c)
        prev = [s for s in sw if s.seq < c.seq and loops_of(s) == ls]
        if prev:
            s = prev[-1]
            q = aloc(eng, s.args[1 if s.name.startswith('SourceIteration') else 0])
            if p is not None and q is not None:
                R.oblige('%s: the flux just swept is exchanged' % name, p is q, c.where, '%s: %s is exchanged, but %s was swept' % (name, p, q), 'exchanged %s' % name)
            if s.name == 'Util::sweepLocal':
                bb = aloc(eng, s.args[2])
                if bb is not None and b is not None and b.root[0] not in ('P',) and ls:
                    R.oblige('%s: exchanged into the boundary data the next sweep uses' % name, bb is b, c.where, '%s: the exchange sets %s, but the sweep uses %s' % (name, b, bb), 'boundary %s' % name)
        for L in ls:
            inl = [s for s in sw if loops_of(s) == ls]
            if not inl or not L.exits and L.cond is TRUE and L.pcond is None: continue
            # on every way from a sweep to the next one
            go = [bnot(a) for cj, ph in stops(eng, L) for a in cj] 
            extra = [g for g in (eng.resolve(x) for x in guards(c)) if g not in go and not any(g in lits(bnot_all(cj)) for cj, ph in stops(eng, L))]
            R.oblige('%s: exchange in every iteration' % name, not extra, c.where, '%s: boundary data is only exchanged if %s' % (name, ' and '.join(show(x) for x in extra)), 'exchange %s' % name)
    # a loop that sweeps with boundary data of a subdomain needs an exchange
    for L in eng.loops:
        inl = [s for s in sw if (s.name == 'Util::sweepLocal' or within) and loops_of(s) and loops_of(s)[-1] is L]
        if inl and L.exits: R.oblige('%s: sweeps and exchanges in one loop' % name, any(L in loops_of(c) for c in cs), inl[0].where, '%s: the subdomains are swept again without an exchange of boundary data' % name, 'no exchange %s' % name)
    # the boundary part of a system solved over several subdomains
    if within:
        for k in [e for e in eng.events if e.kind == 'call' and e.name == 'KrylovSolver::solve']:
            pre = [s for s in sw if s.seq < k.seq]
            if not pre: continue
            between = [c for c in cs if pre[-1].seq < c.seq < k.seq]
            extra = [show(x) for c in between for x in guards(c) if x not in guards(k)]
            R.oblige('%s: exchange before the boundary system is solved' % name, between and not extra, k.where, '%s: what the sweep gives for other subdomains is not exchanged before the Krylov solve%s' % (name, ' unless ' + extra[0] if extra else ''), 'rhs %s' % name)
def commfield(P, F):
    return bool(F.get('cls')) and any('CommSides' in str(f.get('t')) for f in P.fields_of(F['cls']))
def bnot_all(cj):
    return bor(*[bnot(a) for a in cj]) if cj else FALSE

# --- Krylov
def krylov(R, P, F, eng):
    n = 0
    for e in eng.events:
        if e.kind != 'call' or e.name != 'KSPSetTolerances': continue
        if F['n'].startswith('KrylovSolver'): continue
        n += 1
        tol, its = eng.resolve(e.args[1]), eng.resolve(e.args[4])
        gt, gi = global_name(strip(tol)), global_name(strip(its))
        ok = gi in LIMITS and LIMITS[gi] == gt
        where = e.where
        R.oblige('%s: Krylov tolerance and limit' % F['n'], ok, where, '%s: the Krylov solver is given tolerance %s and limit %s' % (F['n'], show(tol), show(its)), 'krylov %s' % F['n'])
        for i in (2, 3):
            v = eng.resolve(e.args[i])
            if v.op != 'num' : continue
            R.oblige('%s: other tolerances left at their defaults' % F['n'], v.a[0] == -2, where, '%s: Krylov tolerance argument %d is %s' % (F['n'], i, show(v)), 'krylov other %s' % F['n'])
        # what it iterates over
        ops = {x for ev in eng.events for a in ev.args if isinstance(a, V) for x in subvals(a) if x.op == 'fn'}
        us = [P.funcs[x.a[0]] for x in ops if x.a[0] in P.funcs and P.funcs[x.a[0]].get('body') and P.funcs[x.a[0]]['n'] != 'lhsPetsc']
        if ok and us:
            comm = any(direct_reach(P, f, 'CommSides::commSides') for f in us)
            if commfield(P, F) and not comm:
                R.violation(where, '%s: the operator %s does not exchange boundary data' % (F['n'], ', '.join(f['n'] for f in us)), 'operator %s' % F['n'])
                continue
            for f in us if commfield(P, F) else []:
                e2 = run_(P, R, f)
                sw = [x for x in e2.events if x.kind == 'call' and x.name and (x.name == 'Util::sweepLocal' or x.name.startswith('SourceIteration::'))]
                for c in [x for x in e2.events if x.kind == 'call' and x.name == 'CommSides::commSides']:
                    extra = [g for g in guards(c) if not any(g in guards(x) for x in sw)]
                    R.oblige('%s: exchange in every application' % f['n'], not extra, c.where, '%s: boundary data is only exchanged if %s' % (f['n'], ' and '.join(show(x) for x in extra)), 'operator %s' % f['n'])
            R.oblige('%s: Krylov limit of the right kind' % F['n'], gi == ('g_ddIterMax' if comm else 'g_iterMax'), where, '%s: a Krylov solver %s is limited by %s'
                     % (F['n'], 'over subdomain boundaries' if comm else 'over the scalar flux', gi), 'krylov kind %s' % F['n'])
    return n
def strip(v):
    while v.op in ('cast', 'trunc', 'wrap') and isinstance(v.a[0], V): v = v.a[0]
    return v
def direct_reach(P, f, name):
    seen, st = set(), [f]
    while st:
        g = st.pop()
        if g['usr'] in seen: continue
        seen.add(g['usr'])
        if g['n'] == name: return True
        for x in walk(g['body']):
            if x.get('k') in ('call', 'ctor') and x.get('fn') in P.funcs and not x.get('virt') and P.funcs[x['fn']].get('body') and not P.funcs[x['fn']]['n'].startswith('SourceIteration::'): st.append(P.funcs[x['fn']])
    return False
