"""C05: accesses of different threads to shared data are separated."""
from sa.common import *
from sa.p2p import callers, cpchain
from checks.c20 import Eff

TECHNIQUE = 'static race detection: effects of each parallel region (callees inlined) with ownership of index positions by thread number, iteration or angle group, and synchronization'
NOTE = """All reads and writes of shared storage inside every OpenMP parallel region, with everything called from it inlined, are paired; two accesses of which one writes
must be separated by an index position that each thread owns (its thread number, its iteration of the work-shared loop, an angle taken from its own work list), by a
constant position, by atomic operations or a critical section on both sides, by the communication token, or by belonging to one designated thread. That the work lists of
different threads hold different angles is derived from every place that fills them. Valid for all thread counts, angles, meshes and schedules."""

ATOMIC = ('atomic',)

def scalar_pure(P):
    """names of functions from numbers to a number without effects"""
    E = Eff(P); out = []
    for f in user_funcs(P):
        if f.get('cls') or not f['params'] or f['n'] in HEAVY: continue
        if any(p['t'].k in ('ref', 'ptr', 'rec') for p in f['params']): continue
        rt = f.get('ret')
        try:
            if E.func(f, 0): continue
        except Exception: continue
        if any(n['k'] == 'return' and n.get('e') is not None for n in walk(f['body'])): out.append(f['n'])
    return out

def declared(body):
    """ids of the variables declared inside"""
    return {n['d'] for n in walk(body) if n['k'] == 'var' and 'd' in n}

def omp_frames(e): return [g.a for g in frames(e.ctx) if g.kind == 'omp']

def veq(a, b): return sub(a, b) is ZERO

class Acc(object):
    __slots__ = ('e', 'l', 'w', 'own', 'sync', 'phase', 'what', 'hl')

class Region(object):
    def __init__(self, R, P, eng, begin, F):
        self.R, self.P, self.eng, self.F = R, P, eng, F
        self.begin = begin
        self.chain = cpchain(begin.cp)
        self.evs = []
        on = False; self.omp = None
        i0 = eng.events.index(begin)
        for e in eng.events[i0 + 1:]:
            if e.kind == 'par-end': break
            self.evs.append(e)
            if self.omp is None:
                os = [o for o in omp_frames(e) if 'parallel' in o.dk]
                if os: self.omp = os[-1]
        self.decl = set()
        if self.omp is not None: self.decl = declared(self.omp.body)
        self.seqs = {e.seq for e in self.evs}
        self.news = {(e.cp, e.seq) for e in self.evs if e.kind == 'new'}
        self.notes = set()
    # --- storage
    def shared(self, l):
        r = l.root
        if r[0] == 'L':
            if r[1] not in self.chain: return False
            d = r[2]
            if isinstance(d, tuple): return False      # private copy or temporary
            return self.outer.get(d) == r[3] and d not in self.decl
        if r[0] == 'H':
            return r[1] in self.chain and r not in self.heap
        if r[0] == 'D':
            b = self.store(r[1])
            if b is not None and b[0] is not None: return self.shared(b[0])
        return True
    def prepare(self):
        P = self.P
        # variables declared in the functions active at the region
        self.outer = {}
        for u, f in P.funcs.items():
            if f.get('body'):
                self.outer.update({n['d']: n.get('n') for n in walk(f['body']) if n['k'] == 'var' and 'd' in n})
                self.outer.update({p['d']: p['n'] for p in f['params']})
        self.heap = set()
        for e in self.evs:
            if e.kind == 'new':
                for l in e.locs: self.heap.add(l.root)
    # --- where a value was loaded from: (location up to ..., list of steps)
    def store(self, v, depth=0):
        """(innermost location read, all steps from it) of a loaded value, or None"""
        if depth > 60: return None
        o = v.op
        if o == 'init' and isinstance(v.a[0], Loc):
            l = v.a[0]
            steps = list(l.path)
            if l.root[0] == 'D':
                b = self.store(l.root[1], depth + 1)
                if b is not None: return b[0], b[1] + steps
            return l, steps
        if o in ('mu', 'fin') and len(v.a) > 1 and isinstance(v.a[1], Loc): return v.a[1], list(v.a[1].path)
        if o == 'sel':
            b = self.store(v.a[0], depth + 1)
            return None if b is None else (b[0], b[1] + [v.a[1]])
        if o in ('top', 'front', 'back', 'popped', 'store', 'upd', 'pushed', 'append', 'trunc') and v.a and isinstance(v.a[0], V):
            return self.store(v.a[0], depth + 1)
        if o == 'addr' and isinstance(v.a[0], Loc): return v.a[0], list(v.a[0].path)
        if o == 'ite':
            a = self.store(v.a[1], depth + 1); b = self.store(v.a[2], depth + 1)
            if a is not None and b is not None and a[1] == b[1] and a[0].root == b[0].root: return a
        return None
    # --- ownership of an index value
    def tid(self, v):
        return v.op == 'sym' and v.a[0] == 'tid'
    def work_ivs(self, e):
        """iterations of the work-shared loop around an event"""
        Ls = loops_of(e); out = []
        for i, L in enumerate(Ls):
            if L.omp is not None and L.iv is not None and L.kind != 'omp':
                n = 1
                for c in L.omp.cl:
                    if c['ck'] == 'collapse':
                        for x in c['v']:
                            y = x
                            while isinstance(y, dict) and y.get('k') in ('cast', 'paren'): y = y['e']
                            if isinstance(y, dict) and y.get('k') == 'int': n = int(y['v'])
                out = [M.iv for M in Ls[i:i + n]]
        return out
    def linear(self, v, x, e):
        """v = c*x + r with 0 <= r < c for every iteration around e"""
        if not mentions(v, x): return False
        m = {x: ZERO}
        r = self.eng.subst(v, m); c = sub(self.eng.subst(v, {x: ONE}), r)
        if mentions(r, x) or mentions(c, x): return False
        if not veq(sub(v, add(mul(c, x), r)), ZERO): return False
        if c is ONE and not any(y.op == 'iv' for y in subvals(r)) and not any(self.tid(y) for y in subvals(r)): return all(z.op in ('num', 'init') for z in [r]) or r is ZERO
        up = upper(self.eng, r) if r.op != 'num' else r
        if up is None: return None
        return (sub(c, add(up, ONE)).op == 'num' and sub(c, add(up, ONE)).a[0] >= 0) or None
    def owns(self, v, e):
        """class of threads' ownership of index value v at event e, or None"""
        if self.tid(v): return 'thread'
        w = self.work_ivs(e)
        if v in w: return 'iteration %s' % (w[0].a[0],) if len(w) == 1 else ('part', v)
        if len(w) > 1: w = []
        for x in [y for y in subvals(v) if self.tid(y)] + w[:1]:
            if v is x: continue
            if v.op in ('sel', 'init', 'call', 'top', 'bytes', 'out', 'ite', 'mu', 'fin'): break
            r = self.linear(v, x, e)
            if r: return 'thread' if self.tid(x) else 'iteration %s' % (x.a[0],)
            if r is None: self.notes.add('index %s is taken to be different for every thread' % show(v)); return 'thread' if self.tid(x) else 'iteration %s' % (x.a[0],)
        return self.record(v, e)
    def record(self, v, e):
        """is v a field, owned by the thread, of a record from the thread's own work list?"""
        while v.op == 'trunc': v = v.a[0]
        b = self.store(v)
        if b is not None:
            steps = b[1]
            at = [i for i, s in enumerate(steps) if s[0] == 'i' and self.tid(s[1]) or s[0] == 'x' and any(self.tid(y) for y in s[1])]
            flds = [s for s in steps if s[0] == 'f' and not s[1].startswith('#')]
            if at:
                last = steps[-1]
                root = b[0].root
                key = (root, tuple(steps[:at[0]]), steps[at[0]][0], last if last[0] == 'f' else ('f', '#d'))
                return 'work list' if self.filled(key, b[0], e) else None
            if b[0].root[0] in ('L', 'H') and not self.shared(b[0]): return self.message(b[0], v, e)
        return self.message(None, v, e)
    def message(self, l, v, e):
        """data received with a tag of the thread's own"""
        seqs = {x.a[0] for x in subvals(v) if x.op == 'out' and x.a}
        for x in subvals(v):
            if x.op in ('mu', 'fin') and len(x.a) > 1 and isinstance(x.a[1], Loc):
                L = self.loop(x.a[0])
                if L is not None:
                    for y in list(L.init.values()) + list(L.next.values()):
                        if isinstance(y, V): seqs |= {z.a[0] for z in subvals(self.eng.resolve(y)) if z.op == 'out' and z.a}
        for c in self.evs:
            if c.kind == 'call' and c.name in ('MPI_Recv', 'MPI_Irecv') and c.seq in seqs:
                tag = self.eng.resolve(c.args[4])
                if any(self.tid(y) for y in subvals(tag)): return 'work list'
        return None
    # --- who fills the work lists
    _fill = None
    def filled(self, key, base, e):
        if self._fill is None: self._fill = {}
        if key not in self._fill: self._fill[key] = True; self._fill[key] = self.fill(key, base, e)
        return self._fill[key]
    def fill(self, key, base, e):
        root, pre, kind, fldst = key
        eng = self.eng
        if root[0] == 'G' and fldst[0] == 'f' and '::' in fldst[1]: return self.schedule(root, fldst)
        if root[0] == 'P':
            self.notes.add('the work lists come from the caller; the distribution of angles over them is not decided here'); return True
        n = 0; keys = []
        for c in eng.events:
            if c.kind not in ('cont', 'write') or not c.locs: continue
            l = eng.resolve_loc(c.locs[0])
            if isinstance(l, CondLoc) or l.root != root or tuple(l.path[:len(pre)]) != tuple(pre) or len(l.path) <= len(pre): continue
            st = l.path[len(pre)]
            if st[0] not in ('i', 'x'): continue
            if c.kind == 'cont' and c.name not in ('push', 'insert', 'emplace'): continue
            if c.kind == 'write' and l.path[-1] != fldst and fldst != ('f', '#d'): continue
            k = st[1] if st[0] == 'i' else st[1][0]
            rec = eng.resolve(c.args[0]) if c.args and isinstance(c.args[0], V) else None
            if rec is None: continue
            fv = rec if c.kind == 'write' or fldst == ('f', '#d') else eng.resolve(selfield(rec, fldst))
            if c.seq in self.seqs:
                if not (self.tid(k) and self.owns(fv, c)): return False
            else:
                s = self.support(k, fv)
                if s: return False
                keys.append(eng.subst(k, {fv: mk('sym', 'own')}) if fv in set(subvals(k)) else k)
            n += 1
        if n == 0: return False
        closed = [k for k in keys if not any(x.op in ('mu', 'fin') for x in subvals(k))]
        if any(k is not closed[0] for k in closed):
            self.R.violation(e.where, 'the work lists of the threads are filled by two different distributions: %s and %s' % (show(closed[0]), show([k for k in closed if k is not closed[0]][0])), 'distribution')
        self.R.count('places that fill work lists', n)
        return True
    def support(self, k, fv):
        """something other than fv, constants and globals that k depends on"""
        seen = set(); st = [k]; fl = {fv}
        while st:
            v = st.pop()
            if v in seen or v in fl: continue
            seen.add(v)
            if v.op == 'num': continue
            if v.op == 'iv': return v
            if v.op in ('mu', 'fin'):
                r = self.eng.resolve(v)
                if r is not v: st.append(r); continue
                L = self.loop(v.a[0])
                if L is None: return v
                for d in (L.init, L.next):
                    for l, y in d.items():
                        if isinstance(y, V) and l is v.a[1]: st.append(y)
                for y in [L.cond] + list(L.exits or []):
                    if isinstance(y, V): st.append(y)
                continue
            if v.op == 'init':
                if isinstance(v.a[0], Loc) and v.a[0].root[0] in ('G', 'S', 'P'):
                    st += list(loc_vals(v.a[0])); continue
                return v
            if v.op in ('out', 'havoc', 'top', 'bytes'): return v
            ch = [x for x in v.a if isinstance(x, V)]
            for x in v.a:
                if isinstance(x, tuple): ch += [y for y in flat(x) if isinstance(y, V)]
            st += ch
        return None
    def loop(self, n): return self.eng.lmap.get(n)
    def schedule(self, root, fldst):
        """work lists in objects made once per thread: each made from its own part of the angles"""
        P = self.P; ok = None
        for f in user_funcs(P):
            if not any(n['k'] == 'ref' and n.get('g') == root[1] for n in walk(f['body'])): continue
            if not any(n['k'] == 'new' for n in walk(f['body'])): continue
            eng = Engine(P, opaque=MESH_GETTERS + QUAD_GETTERS)
            eng.run(f)
            self.R.analysed(f['n'])
            for e in eng.events:
                if e.kind != 'write' or not e.locs: continue
                l = eng.resolve_loc(e.locs[0])
                if isinstance(l, CondLoc) or not l.path or l.path[-1][0] != 'i': continue
                v = eng.resolve(e.args[0]) if e.args and isinstance(e.args[0], V) else None
                if v is None or v.op != 'addr' or v.a[0].root[0] != 'H': continue
                src = [c for c in eng.events if c.seq < e.seq and c.kind == 'write' and c.locs and not isinstance(c.locs[0], CondLoc)
                       and c.locs[0].path and c.locs[0].path[-1] == fldst]
                if not src: continue
                r = self.parts(eng, e, l.path[-1][1], src, fldst)
                ok = r if ok is None else ok and r
        if ok is None:
            self.notes.add('the place that fills %s is not recognised; the distribution of angles over the threads is not decided' % root[2]); return True
        return ok
    def parts(self, eng, e, k, src, fldst):
        """the object stored at index k is made from a list of angles that belongs to k alone"""
        ls = set(); why = None
        for c in src:
            v = eng.resolve(c.args[0])
            while v.op == 'trunc': v = v.a[0]
            b = v.a[0] if v.op == 'sel' and v.a[1][0] == 'i' else None
            if b is not None and b.op in ('fin', 'mu') and isinstance(b.a[1], Loc): ls.add(b.a[1])
            elif v.op == 'init' and isinstance(v.a[0], Loc) and v.a[0].path and v.a[0].path[-1][0] == 'i':
                ls.add(mkloc(v.a[0].root, v.a[0].path[:-1]))
            else: why = (c, v)
        if why is not None and fldst[1].split('::')[-1] and not ls: return False
        if why is not None and ls:
            if why[1].op == 'sel' and why[1].a[0].op in ('top', 'sel', 'mu', 'fin') and why[1].a[1] == fldst: pass
            else: return False
        if len({(l.root, l.path) for l in ls}) != 1: return False
        l = ls.pop()
        if l.path[-1:] == (('f', '#d'),): l = mkloc(l.root, l.path[:-1])
        return self.disjoint(eng, l, eng.resolve(k), e)
    def disjoint(self, eng, l, k, ctor):
        """elements of list l for different k are different"""
        ws = []
        for c in eng.events:
            if c.seq >= ctor.seq or c.kind not in ('write', 'cont') or not c.locs: continue
            m = eng.resolve_loc(c.locs[0])
            if isinstance(m, CondLoc) or m.root != l.root or tuple(m.path[:len(l.path)]) != tuple(l.path): continue
            if c.kind == 'write' and m.path and m.path[-1][0] == 'i': ws.append((c, m.path[-1][1], eng.resolve(c.args[0])))
            elif c.kind == 'cont' and c.name == 'push': ws.append((c, None, eng.resolve(c.args[0])))
        if k.op not in ('iv',):
            self.notes.add('the index of a schedule is not a loop counter'); return True
        if not ws: self.notes.add('the elements of the list of angles are not derived'); return True
        for c, j, v in ws:
            ivs = [L.iv for L in loops_of(c) if L.iv is not None and L.iv is not k]
            n = None
            for L in loops_of(c):
                if ivs and L.iv is not None and L.iv is ivs[-1]: n = eng.resolve(L.count) if L.count is not None else None
            if not ivs or n is None: self.notes.add('the list of angles is filled in a way that is not recognised'); return True
            i = ivs[-1]
            s = eng.subst(v, {i: ZERO})
            if not veq(sub(v, s), i):
                self.notes.add('the angles of a schedule are not consecutive; not decided'); return True
            s1 = eng.subst(s, {k: add(k, ONE)})
            s1 = eng.resolve(s1)
            if not mentions(s, k):
                self.R.violation(c.where, 'every thread gets angles from %s on, so the same angles are computed by all of them' % show(s), 'angles'); return False
            d = sub(sub(s1, s), n)
            ok = veq(d, ZERO)
            if not ok and d.op != 'num': ok = None
            if ok is None: self.notes.add('whether the angles of different threads are different is not decided'); return True
            if not ok:
                self.R.violation(c.where, 'thread %s gets %s angles beginning at %s, but the angles of the next thread do not begin there' % (show(k), show(n), show(s)), 'angles'); return False
            self.R.count('proved distributions of angles')
        return True
def selfield(v, st):
    """field st of record value v"""
    x = v
    while x.op == 'upd':
        if x.a[1] == st: return x.a[2]
        x = x.a[0]
    return mk('sel', v, st)

def flat(t):
    for x in t:
        if isinstance(x, tuple): yield from flat(x)
        else: yield x

def mentions(v, x): return any(y is x for y in subvals(v))

# --- synchronization of an access
def sync(rg, e):
    """('atomic',), ('critical', name), ('only', which thread) ... all that hold"""
    out = set()
    for o in omp_frames(e):
        if o.dk.startswith('atomic'): out.add(('atomic',))
        elif o.dk.startswith('critical'): out.add(('critical', o.name or ''))
    for x in guards(e):
        if x.op == 'lit' and x.a[0] in ('master', 'masked'): out.add(('only', '0'))
        elif x.op == 'lit' and x.a[0] == 'single': out.add(('only', 'single %s' % (x.a[1],)))
        elif x.op == 'eq0':
            y = rg.eng.resolve(x.a[0])
            t = [z for z in subvals(y) if rg.tid(z)]
            if len(set(t)) == 1:
                r = sub(y, t[0])
                if mentions(r, t[0]): r = add(y, t[0])
                if not mentions(r, t[0]) and invariant(rg, r, e): out.add(('only', show(r)))
    if token(rg, e): out.add(('token',))
    return out

def invariant(rg, v, e):
    """same value for all threads through the region"""
    for x in subvals(v):
        if x.op in ('mu', 'fin', 'out', 'havoc', 'top', 'sel'): return False
        if x.op == 'init' and isinstance(x.a[0], Loc):
            l = x.a[0]
            for a in rg.evs:
                if a.kind == 'write' and a.locs and any(not isinstance(m, CondLoc) and m.root == l.root and m.path[:1] == l.path[:1] for m in a.locs): return False
    return True

def token(rg, e):
    """inside a section that threads enter one after the other, by number"""
    from checks.c06 import tokens
    return any(a < e.seq < b for a, b in tokens(rg))

def norm(l): return l

def relation(a, b, rg):
    """None: the two accesses of different threads cannot meet; else what they may share"""
    pa, pb = a.l.path, b.l.path; parts = set()
    for i in range(min(len(pa), len(pb))):
        x, y = pa[i], pb[i]
        if x[0] != y[0]: return None
        if x[0] == 'f':
            if x[1] != y[1]: return None
            continue
        xs = x[1] if x[0] == 'x' else (x[1],)
        ys = y[1] if y[0] == 'x' else (y[1],)
        if len(xs) != len(ys): continue
        for j, (u, w) in enumerate(zip(xs, ys)):
            if u.op == 'num' and w.op == 'num' and u.a[0] != w.a[0]: return None
            ou, ow = a.own.get((i, j)), b.own.get((i, j))
            if ou and ow and ou == ow and not isinstance(ou, tuple): return None
            if isinstance(ou, tuple) and isinstance(ow, tuple) and ou == ow: parts.add(ou)
    # iterations of collapsed loops are told apart by all their counters together
    if parts and len(parts) == len(rg.work_ivs(a.e)): return None
    return True

def check(R):
    R.rule('For every OpenMP parallel region, with all functions called from it inlined: any two accesses to the same shared storage of which at least one is a write '
           'must be separated for different threads: by an index position equal to the thread number, to the iteration of the work-shared loop, or to an angle taken '
           'from the thread\'s own work list; or both be atomic, or in critical sections of the same name, or in the section guarded by the communication token, or be '
           'made by one designated thread only. Every place that fills the work lists puts an item into the list that is determined by its angle alone, or, inside the '
           'region, into the thread\'s own list with an angle of its own; the lists of the static schedules hold disjoint ranges of angles. Elements of vector<bool> '
           'are not separated by their index.')
    R.assumption('distinct pointers and reference parameters of a function refer to distinct objects; pairs of accesses through containers\' internal state are those of the '
                 'C++ standard library; angles in messages received under a tag of the thread\'s own are angles of that thread (both sides use the same distribution)')
    P = R.prog('sweep')
    nreg = npair = 0
    for rg in regions(R, P):
        nreg += 1
        npair += region(R, rg)
        for x in sorted(rg.notes): R.notes.append('%s: %s' % (rg.F['n'], x))
    R.count('parallel regions', nreg); R.count('pairs of accesses', npair)
    R.need(nreg, 3, 'parallel regions')

def regions(R, P):
    cs = callers(P); pure = scalar_pure(P); done = set()
    for f in user_funcs(P):
        if not any(n['k'] == 'omp' and 'parallel' in n['dk'] for n in walk(f['body'])): continue
        F = f
        for _ in range(4):
            # a helper with a single caller is analysed as part of it
            c = [P.funcs[u] for u in cs.get(F['usr'], ()) if u in P.funcs]
            if len(c) == 1 and c[0]['n'] != 'main' and F['n'] not in HEAVY and not F.get('virtual') and c[0] is not F: F = c[0]
            else: break
        eng = run(P, F, f, pure)
        R.analysed(F['n'])
        for b in [e for e in eng.events if e.kind == 'par-begin']:
            if (F['usr'], b.seq) in done: continue
            if not any(n['k'] == 'omp' and n.get('l') == b.line for n in walk(f['body'])): continue
            done.add((F['usr'], b.seq))
            rg = Region(R, P, eng, b, F); rg.prepare()
            yield rg

_runs = {}
def run(P, F, f, pure):
    k = (id(P), F['usr'])
    if k not in _runs:
        no = []
        if F['n'] == 'main':
            # only what the region itself calls matters
            inside = set()
            for n in walk(F['body']):
                if n['k'] == 'omp':
                    for x in walk(n): 
                        if x['k'] in ('call', 'ctor') and x.get('fn'): inside.add(x['fn'])
            todo = list(inside)
            while todo:
                g = P.funcs.get(todo.pop())
                if g is None or not g.get('body'): continue
                for x in walk(g['body']):
                    if x['k'] in ('call', 'ctor') and x.get('fn') and x['fn'] not in inside: inside.add(x['fn']); todo.append(x['fn'])
            no = [g['n'] for g in user_funcs(P) if g['usr'] not in inside and g['n'] != 'main']
        eng = Engine(P, opaque=MESH_GETTERS + QUAD_GETTERS + list(pure), read_events=True, noinline=no)
        eng.run(F)
        _runs[k] = eng
    return _runs[k]

def region(R, rg):
    eng = rg.eng
    accs = {}; seen = {}; phase = 0
    hasbool = []
    for e in rg.evs:
        if e.kind == 'omp' and e.name == 'barrier' and not [L for L in loops_of(e) if L.kind != 'omp']: phase += 1
        if e.kind not in ('read', 'write', 'cont', 'elem', 'delete'): continue
        if e.kind == 'cont' and e.name in ('dims', 'reserve') and False: continue
        for l in e.locs:
            l = eng.resolve_loc(l)
            if isinstance(l, CondLoc):
                ls = flatcond(l)
            else: ls = [l]
            for l in ls:
                if not rg.shared(l): continue
                if e.kind == 'elem':
                    if 'std::vector<bool' in (e.x or {}).get('cls', '') if isinstance(e.x, dict) else False: hasbool.append((e, l))
                    continue
                s = sync(rg, e)
                k = (e.kind == 'read', l, tuple(sorted(s)), phase, e.where)
                if k in seen: continue
                seen[k] = 1
                a = Acc(); a.e, a.l, a.w, a.sync, a.phase = e, l, e.kind != 'read', s, phase
                a.own = {}
                for i, st in enumerate(l.path):
                    for j, v in enumerate(st[1] if st[0] == 'x' else (st[1],) if st[0] == 'i' else ()):
                        o = rg.owns(v, e)
                        if o: a.own[(i, j)] = o
                if l.root[0] == 'D':
                    # storage behind a pointer of the thread's own
                    b = rg.store(l.root[1])
                    if b is not None and any(s2[0] == 'i' and rg.tid(s2[1]) or s2[0] == 'x' and any(rg.tid(y) for y in s2[1]) for s2 in b[1]): a.own[('r', 0)] = 'thread'
                accs.setdefault(rootkey(rg, l), []).append(a)
    n = 0
    told = set()
    for k, L in accs.items():
        W = [a for a in L if a.w]
        if not W: continue
        for a in W:
            for b in L:
                if b.seq_lt(a) if hasattr(b, 'seq_lt') else False: continue
                if a.phase != b.phase: continue
                if a.own.get(('r', 0)) and b.own.get(('r', 0)): continue
                # a read of a whole object that only passes a reference
                if not b.w and len(b.l.path) < len(a.l.path) and tuple(a.l.path[:len(b.l.path)]) == tuple(b.l.path): continue
                n += 1
                if relation(a, b, rg) is None: continue
                if synced(a, b): continue
                t = (show_place(a.l), a.e.where)
                if t in told: continue
                told.add(t)
                fixed = 'two threads may change' if b.w else 'one thread may change'
                R.violation(a.e.where, '%s %s%s %s (%s, %s): no thread owns it and nothing synchronizes the accesses' % (
                    fixed, show_place(a.l), '' if b.w else ' while another reads it at', '' if b.w else rel(b.e.where), a.e.fn, a.e.name), key='race %s %s' % (a.e.fn, show_place(a.l)))
        R.oblige('accesses to %s in the region at %s' % (show_place(W[0].l), rel(rg.begin.where)), True)
    for e, l in hasbool:
        if any(rg.owns(v, e) for v in loc_vals(l)): continue
        for a in [a for x in accs.values() for a in x if a.w and a.l.root == l.root and tuple(a.l.path[:len(l.path)]) == tuple(l.path)]:
            if synced(a, a): continue
            R.violation(a.e.where, 'elements of the vector<bool> %s are changed by different threads; they share words of memory' % show_place(l), key='bool %s' % show_place(l))
            break
    return n

def rel(w): return w.split('/')[-1]

def show_place(l):
    r = l.root
    n = r[2] if r[0] == 'G' else r[3] if r[0] == 'L' else r[1] if r[0] == 'P' else 'this' if r[0] == 'S' else show(r[1], 6) if r[0] == 'D' else 'an allocated object'
    s = str(n)
    for p in l.path:
        if p[0] == 'f' and not p[1].startswith('#'): s += '.' + p[1].split('::')[-1]
        elif p[0] == 'i': s += '[%s]' % show(p[1], 4)
        elif p[0] == 'x': s += '(%s)' % ', '.join(show(y, 4) for y in p[1])
    return s

def flatcond(l):
    if isinstance(l, CondLoc): return flatcond(l.a) + flatcond(l.b)
    return [l] if l is not None else []

def rootkey(rg, l):
    if l.root[0] == 'D':
        b = rg.store(l.root[1])
        if b is not None: return ('D', b[0].root, tuple(s for s in b[1] if s[0] == 'f'))
    return l.root

def synced(a, b):
    if ('atomic',) in a.sync and ('atomic',) in b.sync: return True
    if ('token',) in a.sync and ('token',) in b.sync: return True
    for x in a.sync & b.sync:
        if x[0] in ('critical', 'only'): return True
    return False
