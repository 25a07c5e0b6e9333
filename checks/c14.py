"""C14: the precomputed schedule has every (cell, direction) pair once, upwind first, and matching communication."""
import re
from fractions import Fraction
from itertools import product
from sa.common import *
from checks.c15 import expand, is_x, xs_of, inner
from checks.c13 import (rel, Cond, amount, place, same_place, table_of, index_of, getf, allfields, covers, popped, queue_of, total, BIG, OPAQUE)
from checks.c06 import leave

TECHNIQUE = 'truth tables of the conditions under which a face is waited for, notified and sent in the construction of a schedule, plus value flow of queue entries, counts, messages and recorded steps'
NOTE = """Every pass over the dependency graph in the constructor (levels, priorities, final order) is analysed: what a cell waits for is compared, for every sign of the product and kind of face, with what the cell on the other
side delivers; queue entries, counters, message words and the recorded work and processes are followed as values. Meshes, partitions and numbers of directions are unbounded; the split of the directions among groups is folded for all numbers up to a bound."""

def fieldv(v, name):
    for k, x in allfields(v).items():
        if str(k).split('::')[-1] == name: return x
    return None

class Flow:
    """values of the constructor with tables, recorded work and searches replaced by what they hold"""
    def __init__(self, eng, evs, R):
        self.eng = eng; self.evs = evs; self.R = R; self.memo = {}; self.wrong = {}
        self.pushes = {}
        for e in evs:
            if e.kind == 'cont' and e.name in ('push', 'emplace') and e.locs and isinstance(e.locs[0], Loc) and not e.locs[0].path: self.pushes.setdefault(e.locs[0].root, []).append(e)
        self.tabs = {}
    def __call__(self, v):
        v = self.eng.resolve(v)
        if v in self.memo: return self.memo[v]
        r = v
        for _ in range(6):
            n = self.step(r)
            n = expand(self.eng, self.evs, n)
            if n is r: break
            r = n
        self.memo[v] = r
        return r
    def step(self, v):
        eng = self.eng
        rep = {}
        for s in subvals(v):
            if s.op == 'sel' and s.a[1][0] == 'f' and s.a[0].op == 'sel' and s.a[0].a[1][0] == 'i' and s.a[0].a[0].op == 'fin':
                w = self.work(s.a[0].a[0])
                if w is not None:
                    x = allfields(w).get(s.a[1][1])
                    if x is not None: rep[s] = x
            elif s.op == 'sel' and s.a[1][0] == 'x' and s.a[0].op == 'fin' and isinstance(s.a[0].a[1], Loc) and s.a[0].a[1].root[0] == 'L':
                x = self.table(s)
                if x is not None: rep[s] = x
            elif s.op == 'ite' and s.a[0].op == 'lit' and s.a[0].a[0] == 'exits':
                x = self.search(s)
                if x is not None: rep[s] = x
        return eng.subst(v, rep) if rep else v
    def work(self, arr):
        """entry of a list that a loop appends to"""
        if not isinstance(arr.a[1], Loc): return None
        ps = self.pushes.get(arr.a[1].root, [])
        ps = [p for p in ps if any(L.n == arr.a[0] for L in loops_of(p))]
        if len(ps) != 1: return None
        return self.eng.resolve(ps[0].args[0])
    def search(self, s):
        """index found by looking for the value of an entry"""
        c, t, e = s.a
        n = c.a[1]
        iv = mk('iv', n)
        if t is not iv: return None
        for x in lits(c.a[2]):
            if x.op != 'eq0': continue
            tt = terms(x.a[0])
            if len(tt) != 2 or sorted(tt.values()) != [-1, 1]: continue
            m = [k[0] for k in tt if len(k) == 1]
            if len(m) != 2: continue
            for a, b in (m, m[::-1]):
                ea = self.eng.subst(a, {iv: mk('sym', 'probe', 1)})
                if ea is a: continue
                # find an index at which the table holds what is looked for
                for y in subvals(b):
                    idx = self.elem(a, b, iv)
                    if idx is not None: return idx
        for x in lits(c.a[2]):
            if x.op not in ('ge0', 'gt0', 'not') or not x.a: continue
            y = x.a[0] if x.op != 'not' else x.a[0].a[0] if isinstance(x.a[0].a[0], V) else None
            if y is None: continue
            tt = terms(y)
            m = [k[0] for k in tt if len(k) == 1]
            if len(m) != 2 or any(k and len(k) != 1 for k in tt): continue
            for a, b in (m, m[::-1]):
                if self.eng.subst(a, {iv: mk('sym', 'probe', 1)}) is a: continue
                if self.elem(a, b, iv) is not None and self.eng.subst(x, {a: b}) is FALSE: self.wrong[n] = x
        return None
    def elem(self, a, b, iv):
        """idx with a[iv := idx] is b"""
        cands = []
        for y in subvals(b):
            if y.op == 'sel' and y.a[1][0] == 'i' and isinstance(y.a[1][1], V): cands.append(y.a[1][1])
            if y.op == 'init' and isinstance(y.a[0], Loc) and y.a[0].path and y.a[0].path[-1][0] == 'i': cands.append(y.a[0].path[-1][1])
        for i in cands:
            if isinstance(i, V) and self.eng.subst(a, {iv: i}) is b: return i
        return None
    def table(self, s):
        """element of a table filled by loops over all its elements"""
        eng = self.eng
        l = s.a[0].a[1]; n = s.a[0].a[0]
        key = (l, n)
        if key not in self.tabs:
            self.tabs[key] = self.fill(l, n)
        f = self.tabs[key]
        if f is None: return None
        val, ivs = f
        idx = s.a[1][1]
        if len(idx) != len(ivs): return None
        return eng.subst(val, {i: x for i, x in zip(ivs, idx)})
    def fill(self, l, n):
        eng = self.eng
        ivs = None; r = None
        for w in self.evs:
            if w.kind != 'write' or len(w.locs) != 1 or w.locs[0].root != l.root or w.locs[0].path[:len(l.path)] != l.path: continue
            Ls = loops_of(w)
            ix = index_of(eng, w.locs[0])
            if not Ls or Ls[0].n != n and not any(L.n == n for L in Ls): 
                if w.name in ('fill', 'init') : continue
                return None
            if w.name not in ('=', 'init') or ix is None or not w.args: return None
            iv = []
            for i in ix:
                t = terms(i)
                if len(t) != 1 or list(t.values()) != [1] or len(list(t)[0]) != 1 or list(t)[0][0].op != 'iv': return None
                iv.append(list(t)[0][0])
            if len(set(iv)) != len(iv): return None
            v = eng.resolve(w.args[0])
            top = Ls[[L.n for L in Ls].index(n)]
            g = band(*[eng.resolve(x) for x in inner(w, top)])
            if ivs is None: ivs = iv; r = ZERO
            elif ivs != iv:
                rep = {a: b for a, b in zip(iv, ivs)}
                v, g = eng.subst(v, rep), eng.subst(g, rep)
            if [s for s in subvals(v) if place(s) and place(s)[0] == l.root]: return None
            r = ite(g, v, r)
            self.R.count('elements of tables replaced by their value', 1) if False else None
        return (r, ivs) if ivs else None

class FCond(Cond):
    def __init__(self, fl, e, mult=ONE):
        self.eng = fl.eng; self.g = band(*[fl(g) for g in guards(e)]); self.mult = fl(mult); self.dirv = self.commv = None
    def at(self, x, cb, rb): return Cond.at(self, 0, x, True, cb, rb)

def extra(R, fl, cond, e, what):
    """conditions on the pair or face itself"""
    for cb, rb, x in product((False, True), (False, True), (Fraction(-1), Fraction(1))):
        rep = {}
        for s in subvals(cond.g):
            if is_x(s): rep[s] = num(x)
            elif s.op == 'call' and str(s.a[0]).endswith('::getAdjCell'): rep[s] = num(BIG if cb else 5)
            elif s.op == 'call' and str(s.a[0]).endswith('::getAdjRank'): rep[s] = num(BIG if rb else 3)
        g = fl.eng.subst(cond.g, rep)
        if g in (TRUE, FALSE): continue
        for l in lits(g):
            ops = {s.op for s in subvals(l)}
            if 'iv' in ops and ops <= {'iv', 'num', 'poly', 'ge0', 'gt0', 'eq0', 'not', 'and', 'or', 'idiv', 'imod'} or 'top' in ops and not ops & {'call', 'mu', 'fin', 'out'} - {'mu'} and not [s for s in subvals(l) if s.op == 'mu' and str(s.a[1]).endswith('#n')]:
                R.oblige('%s at %s depends on the face and its product only' % (what, rel(e.where)), False, e.where, '%s at %s also depends on %s' % (what, rel(e.where), show(l, 4)), key='condition')
                return
    R.oblige('%s at %s depends on the face and its product only' % (what, rel(e.where)), True, e.where)

def tot(cs, x, cb, rb):
    n = 0
    for c in cs:
        r = c.at(x, cb, rb)
        if r is None: return None
        n += r
    return n

def size_of(eng, v, what):
    return v is what

def check(R):
    P = R.prog('sweep')
    R.rule('In every pass over the dependency graph a cell counts a face as a dependency exactly when the cell on the other side, finding the product with the opposite sign, notifies it: inside the process by one decrement, across '
           'processes by one pair of words of a message to the process on the other side. A pair is queued once, when its count is or becomes zero, taken from the queue once and recorded once; the pass ends only when no process has work left. '
           'The processes recorded for a step are those that a message was sent to or received from in that step; the directions are split among the groups without overlap or gap.')
    R.assumption('an interior face has an adjacent cell and a rank, a face between two processes a rank only, a face of the domain neither; directions of a group are distinct')
    fs = user_funcs(P, lambda g: g['n'] == 'SweepSchedule::SweepSchedule')
    fs = [f for f in fs if len(f['params']) >= 3]
    if not fs: R.need(0, 1, 'the constructor of a schedule'); return
    f = fs[0]
    eng = Engine(P, opaque=OPAQUE, virtual_opaque=True)
    eng.run(f); evs = eng.events
    R.analysed(f['n'])
    fl = Flow(eng, evs, R)
    pops = [e for e in evs if e.kind == 'cont' and e.name == 'pop']
    R.need(len(pops), 2, 'passes over the dependency graph')
    R.count('passes over the dependency graph', len(pops))
    final = 0
    for pop in pops: final += one(R, P, eng, evs, fl, f, pop)
    R.need(final, 1, 'passes that record the work of a schedule')
    for n, x in fl.wrong.items():
        w = next((e for e in evs if any(L.n == n for L in loops_of(e))), None)
        R.oblige('the position of a direction is found', False, w.where if w else f['n'], 'the position of a direction is looked for under %s, which does not hold where it is' % show(x, 4), key='search')
    neighbors(R, eng, evs, fl)
    groups(R, P)
    steps(R, P)

# ---------------------------------------------------------------- one pass
def one(R, P, eng, evs, fl, f, pop):
    Ls = loops_of(pop)
    if not Ls: R.notes.append('queue at %s is not emptied by a loop' % rel(pop.where)); return 0
    Lo, Lp = Ls[0], Ls[-1]
    root = pop.locs[0].root
    here = 'pass at %s' % rel(pop.where)
    inn = [e for e in evs if Lo in loops_of(e)]
    pushes = [e for e in evs if e.kind == 'cont' and e.name in ('push', 'emplace') and e.locs and e.locs[0].root == root]
    # ---- the popped pair
    tops = set()
    for e in inn:
        for a in e.args:
            if isinstance(a, V):
                for s in subvals(eng.resolve(a)):
                    p = popped(s) if s.op == 'sel' else None
                    if p and queue_of(p[0]) == root: tops.add((p[0], p[1]))
    F = {str(x[1]).split('::')[-1]: x for x in tops}
    fields = {}
    for t, fn in tops: fields.setdefault(fn, t)
    if len(set(fields.values())) != 1: R.notes.append('%s: entry taken from the queue not recognised' % here); return 0
    top = list(set(fields.values()))[0]
    # ---- tables counted down
    dec = []
    for e in inn:
        if e.kind != 'write' or not e.args or len(e.locs) != 1 or e.name == 'init': continue
        ix = index_of(eng, e.locs[0])
        if ix is None or len(ix) != 2: continue
        am = amount(eng, e)
        if am is None or am.op != 'num' and not xs_of(fl(am)): continue
        if same_place(eng, eng.resolve(e.args[0]), e.locs[0]): continue
        v = eng.resolve(e.args[0])
        if [s for s in subvals(v) if s.op in ('max', 'min')]: continue
        if am.op == 'num' and am.a[0] >= 0: 
            if not any(table_of(e.locs[0]) == table_of(d[0].locs[0]) for d in dec): continue
        dec.append((e, [fl(i) for i in ix], am))
    tabs = {table_of(d[0].locs[0]) for d in dec}
    if not dec: R.notes.append('%s: no dependency count goes down' % here); return 0
    # which field is the cell, which the direction: by the entries queued for a decremented pair
    FC = FA = None
    for p in pushes:
        a = allfields(eng.resolve(p.args[0]))
        for e, ix, am in dec:
            for k, v in a.items():
                if fl(v) is ix[1]: FC = FC or k
                if fl(v) is ix[0]: FA = FA or k
    if FC is None or FA is None or FC == FA: R.notes.append('%s: fields of queue entries not recognised' % here); return 0
    c = mk('sel', top, ('f', FC)) if FC not in fields else next(s for s in all_sels(eng, inn, top) if s.a[1][1] == FC)
    a = next((s for s in all_sels(eng, inn, top) if s.a[1][1] == FA), None)
    if a is None: R.notes.append('%s: direction of the entry taken from the queue is not used' % here); return 0
    # ---- counts before the loop
    W = []
    for e in evs:
        if e.kind != 'write' or Lo in loops_of(e) or e.seq > pop.seq or not e.args or len(e.locs) != 1 or table_of(e.locs[0]) not in tabs: continue
        ix = index_of(eng, e.locs[0])
        if ix is None or len(ix) != 2:
            continue
        am = amount(eng, e)
        if am is None: R.notes.append('%s: start of the count at %s not recognised' % (here, rel(e.where))); return 0
        cond = FCond(fl, e, am)
        W.append(cond)
        extra(R, fl, cond, e, 'counting a dependency')
        pair(R, eng, fl, e, ix, cond, 'counted', full=True)
    if not W: R.notes.append('%s: dependency counts not recognised' % here); return 0
    # ---- notified in the loop
    local, rec = [], []
    for d in dec: (local if Lp in loops_of(d[0]) else rec).append(d)
    LC = []
    used = set()
    for e, ix, am in local:
        cond = FCond(fl, e, neg(am)); LC.append(cond)
        extra(R, fl, cond, e, 'notifying a neighbor')
        ok = ix[0] is a and ix[1].op == 'call' and str(ix[1].a[0]).endswith('::getAdjCell') and ix[1].a[-2] is c
        R.oblige('%s: the neighbor notified is the one across the face, in the same direction' % here, ok, e.where, 'the count of (direction %s, cell %s) goes down when (%s, %s) is taken from the queue' % tuple(show(x, 3)[-70:] for x in (ix[0], ix[1], a, c)), key='notified')
        if ok:
            allfaces(R, eng, e, ix[1].a[-1], len(Ls), here)
            args(R, eng, fl, cond, a, c, ix[1].a[-1], e, here)
        queued(R, eng, fl, pushes, e, ix, FC, FA, used, here)
    # ---- words sent
    S = []
    msgs = []
    apps = [(e, fl(w)) for e in inn if e.locs and e.locs[0].root != root for w in appended(eng, e)]
    for e, v in apps:
            if v.op == 'call' and str(v.a[0]).endswith('::getLGSide') and v.a[-1].op == 'call' and str(v.a[-1].a[0]).endswith('::getSide'):
                sc, sf = v.a[-1].a[-2], v.a[-1].a[-1]
                cond = FCond(fl, e); S.append(cond); msgs.append(e)
                extra(R, fl, cond, e, 'sending a side')
                R.oblige('%s: the side sent is one of a finished cell' % here, sc is c, e.where, 'the side sent is of cell %s, not of the cell taken from the queue' % show(sc, 3), key='sent')
                words(R, eng, fl, apps, e, v, a, c, sf, rec, here)
                args(R, eng, fl, cond, a, c, sf, e, here)
                once(R, eng, fl, e, sf, Lo, Lp, here)
    sends = [e for e in inn if e.kind == 'call' and e.name in ('MPI_Isend', 'MPI_Send', 'MPI_Bsend', 'MPI_Issend')]
    if sends and not S: R.notes.append('%s: sides sent at %s not recognised' % (here, rel(sends[-1].where)))
    relate(R, here, W, LC, S if S or not sends else None, pop)
    # ---- received
    for e, ix, am in rec:
        R.oblige('%s: a received word lowers one count by one' % here, am is num(-1), e.where, 'a received side changes the count by %s' % show(am, 2), key='received')
        sc = ix[1]
        ok = sc.op == 'call' and str(sc.a[0]).endswith('::getSideCell') and sc.a[-1].op == 'call' and str(sc.a[-1].a[0]).endswith('::getGLSide')
        R.oblige('%s: a received side counts for its cell' % here, ok, e.where, 'a received side lowers the count of cell %s' % show(sc, 4)[:120], key='received')
        queued(R, eng, fl, pushes, e, ix, FC, FA, used, here)
    if S and not rec: R.oblige('%s: sides sent are also received' % here, False, msgs[0].where, 'sides are sent at %s, but no count goes down for received sides' % rel(msgs[0].where), key='received')
    # ---- first entries
    for p in pushes:
        if Lo in loops_of(p) or p.seq > pop.seq: continue
        used.add(p)
        a_ = {k: fl(v) for k, v in allfields(eng.resolve(p.args[0])).items()}
        pc, pa = a_.get(FC), a_.get(FA)
        if pc is None or pa is None: continue
        full(R, eng, fl, p, pa, pc, '%s: pairs that wait for nothing' % here, 'first range')
        gs = relguards(eng, p, loops_of(p))
        zero = []
        for x in gs:
            if x.op != 'eq0': continue
            t = terms(x.a[0])
            if len(t) != 1: continue
            s = list(t)[0][0] if list(t)[0] else None
            if s is None: continue
            q = place(s)
            if q is None: continue
            ix = next((z[1] for z in reversed(q[1]) if z[0] == 'x'), None)
            tb = (q[0], tuple(z for z in q[1] if z[0] == 'f' and not str(z[1]).startswith('#')))
            if ix and len(ix) == 2 and tb in tabs and fl(ix[0]) is pa and fl(ix[1]) is pc: zero.append(x)
        R.oblige('%s: pairs queued first are those that wait for nothing' % here, bool(zero) and len(gs) == len(zero), p.where, 'pairs are queued first under %s' % ', '.join(show(x, 4) for x in gs), key='first')
    R.oblige('%s: pairs that wait for nothing are queued first' % here, any(Lo not in loops_of(p) and p.seq < pop.seq for p in pushes), pop.where, 'no pair is queued before the loop', key='first')
    for p in pushes:
        if Lo in loops_of(p) and p not in used:
            R.oblige('%s: pairs are queued only when their count becomes zero' % here, False, p.where, 'a pair is queued at %s without its count having become zero' % rel(p.where), key='queued again')
    # ---- record
    recd = None
    for e in inn:
        if e.kind == 'cont' and e.name in ('push', 'emplace') and Lp in loops_of(e) and e.locs and e.locs[0].root != root:
            vs = {k: fl(x) for k, x in allfields(eng.resolve(e.args[0])).items()}
            if c in vs.values(): recd = (e, vs)
    if recd is None: R.notes.append('%s: taken pairs are not collected' % here); return 0
    e, vs = recd
    R.oblige('%s: every pair taken from the queue is collected once' % here, loops_of(e) == Ls and relguards(eng, e, Ls) == relguards(eng, pop, Ls), e.where, 'a pair taken from the queue is collected only under a condition, or several times', key='recorded')
    others = [v for k, v in vs.items() if v is not c]
    ok = any(v is a or elem_at(v, a) for v in others)
    R.oblige('%s: a pair is collected with its own direction' % here, ok, e.where, 'the direction collected with cell %s is %s' % (show(c, 1)[-40:], ', '.join(show(v, 3)[:80] for v in others)), key='recorded')
    dirs = {x.a[-3] for cond in LC for x in xs_of(cond.g) if x.op == 'call' and len(x.a) >= 4 and not any(s.op in ('out', 'fin', 'havoc') for s in subvals(x.a[-3]))}
    if dirs and recording(eng, inn, e):
        R.oblige('%s: the direction recorded is the one whose products order the cells' % here, bool(dirs & set(others)), e.where, 'the direction recorded is %s, but the order is that of direction %s' % (', '.join(show(v, 3)[:80] for v in others), ', '.join(show(v, 3)[:80] for v in dirs)), key='direction')
    if e.locs[0].root[0] == 'L':
        cs = [q for q in inn if q.kind == 'cont' and q.name in ('construct', 'clear') and q.locs and q.locs[0].root == e.locs[0].root and Lp not in loops_of(q)]
        R.oblige('%s: pairs of earlier rounds are not collected again' % here, bool(cs), e.where, 'the list filled at %s is not emptied between rounds' % rel(e.where), key='recorded')
    # ---- loops end
    for x in leave(Lp):
        x = eng.resolve(x)
        rep, z = {}, {}
        for s in subvals(x):
            if s.op in ('mu', 'init') and place(s):
                pl = place(s)
                if pl[0] == root: rep[s] = num(5); z[s] = ZERO
                elif pl[0] == e.locs[0].root: rep[s] = ZERO; z[s] = ZERO
            if s.op == 'sym' or is_global(s, 'g_maxCellsPerStep'): rep[s] = num(1); z[s] = num(1)
        if eng.subst(x, rep) is TRUE:
            R.oblige('%s: work that is ready is taken from the queue' % here, False, pop.where, 'no pair is taken from the queue although some are ready: the pass never ends', key='taken')
    done(R, eng, evs, fl, Lo, pop, e, here, bool(rec))
    return record(R, eng, evs, fl, inn, Lo, e, W, here)

def all_sels(eng, evs, top):
    seen = set()
    for e in evs:
        for a in e.args:
            if not isinstance(a, V): continue
            for s in subvals(eng.resolve(a)):
                if s.op == 'sel' and s.a[0] is top and s not in seen: seen.add(s); yield s

def elem_at(v, idx):
    return v.op == 'init' and isinstance(v.a[0], Loc) and v.a[0].path and v.a[0].path[-1] == ('i', idx) or v.op == 'sel' and v.a[1] == ('i', idx)

def relguards(eng, e, Ls):
    """conditions of an event inside its innermost common loop"""
    out = set()
    if not Ls: 
        for g in guards(e): out |= set(lits(eng.resolve(g)))
        return out
    for g in inner(e, Ls[-1]): out |= set(lits(eng.resolve(g)))
    return out

def pair(R, eng, fl, e, ix, cond, what, full=False):
    """a count is that of the pair whose product decides; over all pairs and faces"""
    for x in xs_of(cond.g) or xs_of(cond.mult):
        if x.op != 'call' or len(x.a) < 4: continue
        xa = [eng.resolve(v) for v in x.a[-3:]]
        ix = [fl(i) for i in ix]
        R.oblige('dependency at %s is counted for the pair whose product decides' % rel(e.where), (xa[0] is ix[0] or elem_at(xa[0], ix[0])) and xa[1] is ix[1], e.where,
                 'the count of (direction %s, cell %s) depends on the product of (%s, %s)' % tuple(show(v, 2) for v in (ix[0], ix[1], xa[0], xa[1])), key='dependency index')
        if full: full_(R, eng, fl, e, ix[0], ix[1], 'dependencies', 'dependency range')
        ok, L = covers(eng, xa[2], 4)
        if ok is not None: R.oblige('dependencies are counted over all faces', ok, e.where, 'dependencies are not counted over all faces', key='dependency range')
        break

def full_(R, eng, fl, e, a, c, what, key): return full(R, eng, fl, e, a, c, what, key)

def full(R, eng, fl, e, a, c, what, key):
    ok, L = covers(eng, c, 'g_nCells')
    if ok is not None: R.oblige('%s at %s cover all cells' % (what, rel(e.where)), ok, e.where, '%s at %s do not cover all cells' % (what, rel(e.where)), key=key)
    t = [s for s in subvals(a) if s.op == 'iv']
    if len(t) == 1 and eng.lmap.get(t[0].a[0]) is not None and eng.lmap[t[0].a[0]].count is not None:
        L = eng.lmap[t[0].a[0]]
        n = eng.resolve(L.count)
        sz = n.op == 'init' and isinstance(n.a[0], Loc) and n.a[0].path and n.a[0].path[-1] == ('f', '#n') or n.op == 'init' and str(n.a[0]).endswith('#n')
        if not sz and n.op not in ('poly', 'num'): return
        R.oblige('%s at %s cover all directions' % (what, rel(e.where)), sz and not L.early and a is t[0], e.where, '%s at %s cover %s directions' % (what, rel(e.where), show(n, 3)), key=key)

def args(R, eng, fl, cond, a, c, face, e, here):
    """the product that decides is of the finished pair and the face itself"""
    for x in xs_of(cond.g):
        if x.op != 'call' or len(x.a) < 4: continue
        xa = x.a[-3:]
        if any(s.op in ('out', 'fin', 'havoc') for s in subvals(xa[0])): R.notes.append('%s: direction of the product at %s not recognised: %s' % (here, rel(e.where), show(xa[0], 3))); continue
        R.oblige('%s: the face at %s is judged by the product of the finished pair' % (here, rel(e.where)), elem_at(xa[0], a) and xa[1] is c and xa[2] is face, e.where,
                 'the product that decides at %s is of (%s, %s, face %s)' % ((rel(e.where),) + tuple(show(v, 3)[:80] for v in xa)), key='product')

def allfaces(R, eng, e, fv, base, here):
    ok, L = covers(eng, fv, 4)
    if ok is None: R.notes.append('%s: faces at %s are not those of a loop' % (here, rel(e.where))); return
    R.oblige('%s: all faces of a finished pair are looked at' % here, ok and loops_of(e)[base:] == [L], e.where, 'not every face of a finished pair is looked at exactly once at %s' % rel(e.where), key='faces')

def once(R, eng, fl, e, sf, Lo, Lp, here):
    """all faces of all collected pairs"""
    ok, L = covers(eng, sf, 4)
    if ok is not None: R.oblige('%s: all faces of a finished pair are looked at for sending' % here, ok and L is loops_of(e)[-1], e.where, 'not every face of a finished pair is looked at exactly once at %s' % rel(e.where), key='faces')
    for M in loops_of(e):
        if M is Lo or M is L or M is Lp: continue
        if M.count is None: continue
        n = eng.resolve(M.count)
        p = place(n)
        good = p and n.op == 'fin' and p[1] and p[1][-1] == ('f', '#n')
        if not good and n.op == 'fin': good = str(n.a[1]).endswith('#n')
        if M.early or n.op == 'poly': good = False
        elif not good: R.notes.append('%s: %s steps of the loop around %s' % (here, show(n, 3), rel(e.where))); continue
        R.oblige('%s: the sides of all finished pairs are sent' % here, good, e.where, 'the sides of only %s finished pairs are sent' % show(n, 3), key='all sent')

def queued(R, eng, fl, pushes, e, ix, FC, FA, used, here):
    new = eng.resolve(e.args[0])
    mine = []
    for p in pushes:
        if p.seq < e.seq: continue
        a = {k: fl(v) for k, v in allfields(eng.resolve(p.args[0])).items()}
        if a.get(FC) is ix[1] and a.get(FA) is ix[0] and loops_of(p) == loops_of(e): mine.append(p)
        elif loops_of(p) == loops_of(e):
            gs = relguards(eng, p, loops_of(p))
            if eq0(new) in gs:
                R.oblige('%s: the pair queued at %s is the one whose count became zero' % (here, rel(p.where)), False, p.where, 'the pair queued is (%s, %s), not the one whose count became zero' % tuple(show(a[k], 3)[:70] if k in a else '?' for k in (FC, FA)), key='queued pair')
                used.add(p); return
    R.oblige('%s: a pair is queued where its count goes down at %s' % (here, rel(e.where)), len(mine) == 1, e.where, 'a pair whose count goes down at %s is queued at %d places' % (rel(e.where), len(mine)), key='queued')
    if len(mine) != 1: return
    p = mine[0]; used.add(p)
    extra = relguards(eng, p, loops_of(p)) - relguards(eng, e, loops_of(e))
    lost = relguards(eng, e, loops_of(e)) - relguards(eng, p, loops_of(p))
    g = band(*extra) if extra else TRUE
    k = mk('sym', 'count', 0)
    am = sub(new, next(s for s in subvals(new) if place(s) and terms(new).get((s,)) == 1)) if True else None
    g2 = eng.subst(g, {s: add(k, neg(am)) for s in subvals(g) if place(s) and same_place(eng, s, e.locs[0])})
    vals = [eng.subst(g2, {k: num(i)}) for i in (0, 1, 2, 3)]
    ok = vals[0] is TRUE and all(v is FALSE for v in vals[1:]) and not lost
    R.oblige('%s: the pair is queued exactly when its count becomes zero (%s)' % (here, rel(p.where)), ok, p.where, 'a pair whose count goes down at %s is queued under %s, not exactly when the count becomes zero' % (rel(e.where), ' and '.join(show(x, 4) for x in extra) or 'no further condition'), key='queued when zero')

def relate(R, here, W, L, S, pop):
    sets = {Fraction(-1): 'negative', Fraction(0): 'zero', Fraction(1): 'positive', Fraction(-1, 10 ** 12): 'just below zero', Fraction(1, 10 ** 12): 'just above zero', Fraction(1, 10 ** 7): 'small and positive', Fraction(-1, 10 ** 7): 'small and negative'}
    n = open_ = 0
    for x, (cb, rb) in product(sets, ((False, False), (True, False), (True, True))):
        w, l = tot(W, x, cb, rb), tot(L, -x, cb, rb)
        s = tot(S, -x, cb, rb) if S is not None else 0 if not cb or rb else w
        if None in (w, l, s): open_ += 1; continue
        n += 1
        kind = 'inside the process' if not cb else 'shared with another process' if not rb else 'on the boundary of the domain'
        want = (w, 0) if not cb else (0, w) if not rb else (0, 0)
        good = (l, s) == want and w in (0, 1) and not (rb and w)
        R.oblige('%s: face %s, product %s: waited for %d, notified %d, sent %d' % (here, kind, sets[x], w, l, s), good, pop.where,
                 '%s, a face %s whose product is %s for the waiting cell: the cell waits for it %d times, while the cell on the other side notifies it %d times and sends %d words' % (here, kind, sets[x], w, l, s), key='waits')
    if open_: R.notes.append('%s: %d situations of a face could not be evaluated' % (here, open_))
    R.count('situations of a face compared', n)

def appended(eng, e):
    """words an event appends to a buffer"""
    if e.kind != 'cont' or not e.args: return []
    if e.name in ('push', 'emplace'): return [e.args[0]]
    if e.name in ('insert', 'append') and len(e.args) >= 2:
        v = eng.resolve(e.args[1]); w = {}
        while v.op == 'store' and v.a[1][0] == 'i' and isinstance(v.a[1][1], V) and v.a[1][1].op == 'num': w.setdefault(int(v.a[1][1].a[0]), v.a[2]); v = v.a[0]
        if w and sorted(w) == list(range(len(w))): return [w[i] for i in range(len(w))]
    return []

def words(R, eng, fl, apps, e, ev, a, c, sf, rec, here):
    """a message: side, direction, ...; the receiver takes the same words apart"""
    Ls = loops_of(e)
    root = e.locs[0].root
    l0 = eng.resolve_loc(e.locs[0])
    same = [(q, v) for q, v in apps if q.locs[0].root == root and loops_of(q) == Ls and relguards(eng, q, Ls) == relguards(eng, e, Ls) and eng.resolve_loc(q.locs[0]) == l0]
    dst = [v for p in eng.resolve_loc(e.locs[0]).path if p[0] == 'i' for v in [fl(p[1])]]
    for d in dst:
        r = [s for s in subvals(d) if s.op == 'call' and str(s.a[0]).endswith('::getAdjRank')]
        ok = d.op == 'call' and str(d.a[0]).endswith('::getAdjRank') and d.a[-2] is c and d.a[-1] is sf
        if d.op == 'call': R.oblige('%s: a side goes to the process on the other side of its face' % here, ok, e.where, 'the side of (%s, face %s) goes to the process %s' % (show(c, 1)[-40:], show(sf, 2), show(d, 3)[:100]), key='destination')
    vals = [v for q, v in same]
    stride = len(same)
    if a not in vals:
        unk = [v for v in vals if any(s.op in ('out', 'fin', 'havoc') for s in subvals(v))]
        if unk: R.notes.append('%s: direction word at %s not recognised: %s' % (here, rel(e.where), ', '.join(show(v, 3)[:60] for v in unk)))
        else: R.oblige('%s: the direction sent is that of the finished pair' % here, False, e.where, 'the words sent with a side are %s, none of them the position of its direction' % ', '.join(show(v, 3)[:60] for v in vals), key='word')
        return
    R.oblige('%s: the direction sent is that of the finished pair' % here, True, e.where)
    ps, pa = vals.index(ev), vals.index(a)
    for d, ix, am in rec:
        w = {}
        for nm, v in (('side', ix[1]), ('direction', ix[0])):
            s = [y for y in subvals(v) if y.op == 'sel' and y.a[1][0] == 'i' and y.a[0].op == 'out']
            if len(s) == 1: w[nm] = s[0].a[1][1]
        L = loops_of(d)[-1]
        for nm, at in (('side', ps), ('direction', pa)):
            if nm not in w: R.notes.append('%s: %s of a received message not recognised' % (here, nm)); continue
            i = w[nm]
            iv = [s for s in subvals(i) if s.op == 'iv' and s.a[0] == L.n]
            if not iv: R.notes.append('%s: word %s read at %s' % (here, show(i, 3), rel(d.where))); continue
            want = add(mul(num(stride), iv[0]), num(at))
            R.oblige('%s: the %s is read where it was put' % (here, nm), i is want, d.where, 'the %s is word %d of %d sent for a side, but is read from word %s' % (nm, at, stride, show(i, 3)), key='word')
        n = eng.resolve(L.count) if L.count is not None else None
        if L.early: R.oblige('%s: all received sides are taken apart' % here, False, d.where, 'the loop over received sides can end early', key='all received')
        elif n is not None: R.oblige('%s: all received sides are taken apart' % here, n.op in ('out', 'idiv', 'havoc', 'init', 'sel', 'fin'), d.where, 'only %s received sides are taken apart' % show(n, 3), key='all received') if n.op == 'poly' or n.op == 'out' else None

def done(R, eng, evs, fl, Lo, pop, coll, here, comm):
    """the pass ends when no process has work, or when all pairs were taken"""
    root = pop.locs[0].root
    ok = False
    for x in leave(Lo):
        x = eng.resolve(x)
        for s in subvals(x):
            if s.op == 'out' and isinstance(s.a[0], int):
                call = next((q for q in evs if q.seq == s.a[0] and q.kind == 'call' and q.name == 'MPI_Allreduce'), None)
                if call is None: continue
                src = sent(eng, evs, call)
                op = show(eng.resolve(call.args[4]), -4)
                if src is None: R.notes.append('%s: value reduced to end the pass not recognised' % here); continue
                q = [y for y in subvals(src) if place(y) and place(y)[0] == root]
                e0 = eng.resolve(eng.subst(src, {y: ZERO for y in q})); e1 = eng.resolve(eng.subst(src, {y: num(4) for y in q}))
                e0, e1 = (num(1) if v is TRUE else ZERO if v is FALSE else v for v in (e0, e1))
                if e0.op != 'num' or e1.op != 'num': R.notes.append('%s: value reduced to end the pass not recognised' % here); continue
                red = {'max': max, 'min': min, 'sum': lambda *a: sum(a), 'lor': lambda *a: int(any(a)), 'land': lambda *a: int(all(a)), 'bor': lambda a, b: int(a) | int(b)}
                fn = next((red[k] for k in red if k in op), None)
                if fn is None: R.notes.append('%s: reduction %s not recognised' % (here, op)); continue
                mixed = fn(e0.a[0], e1.a[0]); none = fn(e0.a[0], e0.a[0])
                lm = eng.subst(x, {s: num(mixed)}); ln = eng.subst(x, {s: num(none)})
                R.oblige('%s: goes on while a process has work' % here, lm is not TRUE, pop.where, 'the pass ends although a process still has work', key='end')
                R.oblige('%s: ends when no process has work' % here, ln is not FALSE, pop.where, 'the pass does not end when no process has work left', key='end')
                ok = True
        cnt = [s for s in subvals(x) if s.op == 'mu' and s.a[0] == Lo.n and isinstance(s.a[1], Loc) and not s.a[1].path]
        if cnt and not ok:
            cl = cnt[0].a[1]
            ups = [w for w in evs if w.kind == 'write' and w.locs == [cl] and Lo in loops_of(w)]
            if len(ups) == 1:
                v = eng.resolve(ups[0].args[0])
                t = terms(v)
                num_ = [m for m in t if len(m) == 1 and place(m[0]) and place(m[0])[0] == coll.locs[0].root]
                R.oblige('%s: counts the pairs taken' % here, len(num_) == 1 and t[num_[0]] == 1 and t.get((), 0) == 0 or loops_of(ups[0]) == loops_of(pop) and t.get((), 0) == 1, ups[0].where, 'the number of finished pairs changes to %s' % show(v, 4), key='end')
                k = mk('sym', 'nc', 0); m = mk('sym', 'na', 0)
                rep = {}
                for s in subvals(x):
                    if is_global(s, 'g_nCells'): rep[s] = num(7)
                    elif s.op in ('init', 'sym') and s is not cnt[0]: rep[s] = num(3)
                vals = [eng.subst(x, dict(rep, **{}) | {cnt[0]: num(i)}) for i in (0, 1, 20, 21)]
                if all(v in (TRUE, FALSE) for v in vals):
                    R.oblige('%s: goes on until all pairs have been taken' % here, vals == [FALSE] * 3 + [TRUE], pop.where, 'with 7 cells and 3 directions the pass ends with %s pairs taken' % [i for i, v in zip((0, 1, 20, 21), vals) if v is TRUE], key='end')
                ok = True
    if not ok:
        loc = [x for x in leave(Lo) if [s for s in subvals(eng.resolve(x)) if place(s) and place(s)[0] == root]]
        if loc and len(loc) == len(leave(Lo)):
            x = eng.resolve(loc[0])
            R.oblige('%s: does not end while sides can still arrive' % here, not comm, pop.where, 'the pass ends when the own queue is empty, although other processes may still send sides', key='end')
        else: R.notes.append('%s: the condition that ends the pass was not recognised' % here)

def sent(eng, evs, call):
    b = eng.resolve(call.args[0])
    if b.op != 'addr': return None
    l = b.a[0]
    ws = [w for w in evs if w.kind == 'write' and w.locs == [l] and w.seq < call.seq]
    return eng.resolve(ws[-1].args[0]) if ws else None

def record(R, eng, evs, fl, inn, Lo, coll, W, here):
    """work and processes recorded for a step"""
    outs = [e for e in inn if e.kind == 'cont' and e.name in ('push', 'emplace') and e.locs and e.locs[0].root[0] not in ('L', 'H') and e.locs[0].path and e.locs[0].path[-1][0] == 'f']
    outs = [e for e in outs if loops_of(e) == [Lo]] + [e for e in outs if loops_of(e) != [Lo]]
    if not outs: return 0
    by = {}
    for e in outs: by.setdefault(str(e.locs[0].path[-1][1]).split('::')[-1], []).append(e)
    R.count('lists recorded for each step', len(by))
    for nm, es in by.items():
        R.oblige('%s is extended once in every round' % nm, len(es) == 1 and loops_of(es[0]) == [Lo] and not relguards(eng, es[0], [Lo]), es[0].where, '%s is extended at %d places, or not in every round: the steps of the lists no longer match' % (nm, len(es)), key='step')
    # the work
    wrk = [e for e in outs if holds(eng, e, coll.locs[0].root)]
    R.oblige('the pairs taken in a round are recorded as the work of its step', len(wrk) == 1, outs[0].where, 'the pairs taken in a round are recorded %d times' % len(wrk), key='work')
    # upwind first
    for x, want, nm in ((Fraction(-1), 1, 'upwind'), (Fraction(1), 0, 'downwind')):
        for cb, kind in ((False, 'inside the process'), (True, 'shared with another process')):
            w = tot(W, x, cb, False)
            if w is None: continue
            R.oblige('the recorded order waits for faces upwind (%s, %s)' % (nm, kind), w == want, outs[0].where, 'the recorded order waits %d times for a %s face %s' % (w, nm, kind), key='upwind')
    # processes
    sends = [e for e in inn if e.kind == 'call' and e.name in ('MPI_Isend', 'MPI_Send', 'MPI_Bsend', 'MPI_Issend')]
    recvs = [e for e in inn if e.kind == 'call' and e.name in ('MPI_Recv', 'MPI_Irecv')]
    n = 0
    for e in outs:
        if e in wrk: continue
        v = eng.resolve(e.args[0])
        src = listroot(eng, e)
        if src is None: R.notes.append('list recorded at %s not recognised' % rel(e.where)); continue
        ps = [q for q in inn if q.kind == 'cont' and q.name in ('push', 'emplace') and q.locs and q.locs[0].root == src]
        if not ps:
            R.oblige('processes are recorded for each step', False, e.where, 'the list recorded at %s is never filled' % rel(e.where), key='processes'); continue
        R.oblige('list recorded at %s is new in every round' % rel(e.where), any(q.kind == 'cont' and q.name in ('construct', 'clear') and q.locs and q.locs[0].root == src for q in inn), e.where, 'the list recorded at %s keeps the processes of earlier rounds' % rel(e.where), key='processes')
        for p in ps:
            proc = fl(p.args[0])
            com = [q for q in sends + recvs if loops_of(q)[:len(loops_of(p))] == loops_of(p) and eng.resolve(q.args[3]) is proc]
            if not com:
                com2 = [q for q in sends + recvs if loops_of(q)[-1:] == loops_of(p)[-1:]]
                if com2: R.oblige('the process recorded at %s is the one of the message' % rel(p.where), False, p.where, 'the process recorded is %s, that of the message %s' % (show(proc, 3), show(eng.resolve(com2[0].args[3]), 3)), key='processes')
                else: R.notes.append('message that belongs to the process recorded at %s not found' % rel(p.where))
                continue
            n += 1
            # the data message: of data that depends on the number of sides
            data = com[-1]
            gp, gd = band(*relguards(eng, p, loops_of(p))), band(*relguards(eng, data, loops_of(p)))
            same = gp is gd
            if not same: same = equal(eng, gp, gd)
            R.oblige('a process is recorded exactly when its sides are %s' % ('sent' if data in sends else 'received'), same is not False, p.where, 'the process is recorded under %s, but its sides are %s under %s' % (show(gp, 4), 'sent' if data in sends else 'received', show(gd, 4)), key='processes')
    return 1

def equal(eng, a, b):
    """do two conditions on one count agree for small counts: True, False, None"""
    ss = [s for s in subvals(band(a, b)) if place(s) or s.op == 'out']
    ss = [s for s in ss if not any(s is not t and s in subvals(t) for t in ss)]
    if len(set(ss)) != 1: return None
    for i in (0, 1, 2, 3, 4, 6, 9):
        x, y = eng.subst(a, {ss[0]: num(i)}), eng.subst(b, {ss[0]: num(i)})
        if x in (TRUE, FALSE) and y in (TRUE, FALSE) and x is not y: return False
    return True

def listroot(eng, e):
    a = e.args[0]
    for v in (a, eng.resolve(a)):
        for s in subvals(v):
            p = place(s)
            if p and p[0][0] == 'L': return p[0]
            for x in s.a:
                if isinstance(x, Loc) and x.root[0] == 'L': return x.root
    return None

def recording(eng, inn, coll):
    return any(e.kind == 'cont' and e.name in ('push', 'emplace') and e.locs and e.locs[0].root[0] not in ('L', 'H') and holds(eng, e, coll.locs[0].root) for e in inn)

def holds(eng, e, root):
    for v in (e.args[0], eng.resolve(e.args[0])):
        for s in subvals(v):
            p = place(s)
            if p and p[0] == root: return True
            if any(isinstance(x, Loc) and x.root == root for x in s.a): return True
    return False

# ---------------------------------------------------------------- the rest
def neighbors(R, eng, evs, fl):
    ins = [e for e in evs if e.kind == 'cont' and e.name in ('insert', 'emplace') and e.args and eng.resolve(e.args[-1]).op == 'call' and str(eng.resolve(e.args[-1]).a[0]).endswith('::getAdjRank')]
    for e in ins:
        r = eng.resolve(e.args[-1])
        c = FCond(fl, e)
        a, b = c.at(Fraction(1), True, False), c.at(Fraction(1), True, True)
        a2 = c.at(Fraction(-1), True, False)
        if a is None or b is None: R.notes.append('condition of the neighbor at %s not recognised' % rel(e.where)); continue
        extra(R, fl, c, e, 'the set of neighbors')
        R.oblige('processes that share a face are neighbors', a == 1 and a2 == 1, e.where, 'a process that shares a face is not among the neighbors that messages are exchanged with', key='neighbors')
        R.oblige('the domain boundary is no neighbor', b == 0, e.where, 'faces of the domain boundary add a neighbor process', key='neighbors')
        ok, L = covers(eng, r.a[-2], 'g_nCells')
        if ok is not None: R.oblige('neighbors are collected over all cells', ok, e.where, 'neighbors are not collected over all cells', key='neighbors')
        ok, L = covers(eng, r.a[-1], 4)
        if ok is not None: R.oblige('neighbors are collected over all faces', ok, e.where, 'neighbors are not collected over all faces', key='neighbors')
    if not ins: R.notes.append('set of neighbor processes not recognised')

def globals_in(v, *names): return {s: n for s in subvals(v) for n in names if is_global(s, n)}

def groups(R, P):
    """the directions are split among the groups without overlap or gap"""
    fs = [f for f in user_funcs(P, lambda g: g['n'] == 'Sweeper::Sweeper')]
    if not fs: return
    eng = Engine(P, opaque=OPAQUE, virtual_opaque=True)
    eng.run(fs[0]); evs = eng.events
    R.analysed(fs[0]['n'])
    seen = set()
    for e in evs:
        if e.kind != 'write': continue
        for g in guards(e):
            for x in xs_of(eng.resolve(g)):
                if x.op != 'call' or len(x.a) < 4: continue
                d = eng.resolve(x.a[-3])
                if d in seen: continue
                seen.add(d)
                split_(R, eng, evs, e, d)
    if not seen: R.notes.append('directions of a group not recognised')
    # every schedule belongs to its group
    for e in evs:
        if e.kind == 'write' and e.args and len(e.locs) == 1 and 'new@' in str(eng.resolve(e.args[0]).a[:1]) + show(eng.resolve(e.args[0]), -4) and any(p[0] == 'i' for p in e.locs[0].path):
            i = eng.resolve([p[1] for p in e.locs[0].path if p[0] == 'i'][-1])
            ok, L = covers(eng, i, 'g_nAngleGroups')
            if ok is not None: R.oblige('a schedule is made for every group', ok and not relguards(eng, e, loops_of(e)), e.where, 'schedules are not made for all groups', key='groups')

def split_(R, eng, evs, e, d):
    d = expand(eng, evs, d)
    # d = j + T[g], j < T[g+1] - T[g]
    js = [m[0] for m, c in terms(d).items() if len(m) == 1 and m[0].op == 'iv' and c == 1]
    ts = [m[0] for m, c in terms(d).items() if len(m) == 1 and m[0].op == 'sel' and c == 1]
    if len(js) != 1 or len(ts) != 1 or len(terms(d)) != 2: 
        R.notes.append('directions of a group not recognised: %s' % show(d, 4)); return
    j, t = js[0], ts[0]
    L = eng.lmap.get(j.a[0])
    if t.a[1][0] != 'i' or t.a[0].op != 'fin' or not isinstance(t.a[0].a[1], Loc) or L is None or L.count is None: return
    g = t.a[1][1]
    tab = t.a[0]
    nxt = mk('sel', tab, ('i', add(g, num(1))))
    n = expand(eng, evs, eng.resolve(L.count))
    R.oblige('a group has the directions between its two bounds', n is sub(nxt, t) and not L.early, e.where, 'a group that starts at %s has %s directions, so groups overlap or leave out directions' % (show(t, 3), show(n, 4)), key='groups')
    ok, Lg = covers(eng, g, 'g_nAngleGroups')
    if ok is not None: R.oblige('directions are given to all groups', ok, e.where, 'directions are not given to all groups', key='groups')
    # the bounds: T[0] = 0, T[i+1] = T[i] + f(i), sum of f = number of directions
    ws = [w for w in evs if w.kind == 'write' and w.args and len(w.locs) == 1 and w.locs[0].root == tab.a[1].root and w.name in ('=', 'init', '+=')]
    first = step = None
    for w in ws:
        ix = [eng.resolve(p[1]) for p in eng.resolve_loc(w.locs[0]).path if p[0] == 'i']
        if len(ix) != 1: continue
        if not loops_of(w): first = (ix[0], eng.resolve(w.args[0]), w)
        else: step = (ix[0], eng.resolve(w.args[0]), w)
    if first is None or step is None or len([w for w in ws if loops_of(w)]) != 1: R.notes.append('bounds of the groups not recognised'); return
    R.oblige('the first group starts at direction 0', first[0] is ZERO and first[1] is ZERO, first[2].where, 'the first bound of the groups is element %s, value %s' % (show(first[0], 2), show(first[1], 2)), key='groups')
    Ls = loops_of(step[2])
    iv = [s for s in subvals(step[0]) if s.op == 'iv' and s.a[0] == Ls[-1].n]
    if len(iv) != 1: return
    iv = iv[0]
    prev = [s for s in subvals(step[1]) if s.op == 'sel' and place(s) and place(s)[0] == tab.a[1].root and terms(step[1]).get((s,)) == 1]
    if len(prev) != 1: R.notes.append('bounds of the groups not recognised: %s' % show(step[1], 4)); return
    R.oblige('a group starts where the group before it ends', step[0] is add(iv, num(1)) and eng.resolve(prev[0].a[1][1]) is iv, step[2].where, 'bound %s is computed from bound %s' % (show(step[0], 2), show(prev[0].a[1][1], 2)), key='groups')
    ok, _ = covers(eng, iv, 'g_nAngleGroups')
    if ok is not None: R.oblige('a bound is set for every group', ok, step[2].where, 'bounds are not set for all groups', key='groups')
    f = sub(step[1], prev[0])
    bad = open_ = None
    k = 0
    for G in range(1, 13):
        for N in range(0, 41):
            tot_ = 0
            for i in range(G):
                rep = {iv: num(i)}
                for s in subvals(f):
                    if is_global(s, 'g_nAngles'): rep[s] = num(N)
                    elif is_global(s, 'g_nAngleGroups'): rep[s] = num(G)
                v = eng.subst(f, rep)
                if v.op != 'num': open_ = v; break
                tot_ += v.a[0]
            if open_ is not None: break
            k += 1
            if tot_ != N and bad is None: bad = (N, G, tot_)
        if open_ is not None: break
    if open_ is not None: R.notes.append('number of directions of a group not recognised: %s' % show(open_, 4)); return
    R.count('splits of directions among groups folded', k)
    R.oblige('the groups together have all directions', bad is None, step[2].where, '%d directions are split among %d groups of together %d' % (bad or (0, 0, 0)), key='groups')

def steps(R, P):
    """the sweep computes the pairs of a step in the order of the schedule, in all steps"""
    f = next(iter(user_funcs(P, lambda g: g['n'] == 'Sweeper::sweep')), None)
    if f is None: return
    eng = Engine(P, opaque=OPAQUE, noinline=['Transport::solve', 'Transport::populateLocalPsiBound'], virtual_opaque=True)
    eng.run(f); evs = eng.events
    R.analysed(f['n'])
    solves = [e for e in evs if e.kind == 'call' and e.name.endswith('Transport::solve')]
    R.need(len(solves), 1, 'places where the pairs of a schedule are computed')
    for e in solves:
        c, a = eng.resolve(e.args[0]), eng.resolve(e.args[1])
        pc, pa = place(c), place(a)
        if not pc or not pa or not any('c_workOrders' in str(s) for s in pc[1]): R.notes.append('pair computed at %s not recognised: %s' % (rel(e.where), show(c, 4))); continue
        ic = [s[1] for s in pc[1] if s[0] == 'i']
        R.oblige('cell and direction computed are of one entry of the schedule', pc[0] == pa[0] and pc[1][:-1] == pa[1][:-1] and pc[1][-1] != pa[1][-1], e.where, 'cell and direction come from different entries: %s, %s' % (show(c, -3), show(a, -3)), key='entry')
        R.oblige('the cell computed is the cell of its entry', str(pc[1][-1][1]).endswith('cell') or not str(pa[1][-1][1]).endswith('cell'), e.where, 'cell and direction of an entry are exchanged', key='entry')
        if len(ic) < 2: continue
        st, k = eng.resolve(ic[-2]), eng.resolve(ic[-1])
        Ls = loops_of(e)
        Lk = eng.lmap.get(k.a[0]) if k.op == 'iv' else None
        if Lk is not None and Lk.count is not None:
            n = eng.resolve(Lk.count)
            p = place(n)
            good = p is not None and p[0] == pc[0] and [s for s in p[1] if s[0] == 'i'][-1:] and (str(p[1][-1][1]).endswith('#n')) and not Lk.early
            R.oblige('all entries of a step are computed, in their order', bool(good), e.where, 'only %s entries of a step are computed' % show(n, 4), key='entries')
        elif k.op != 'iv': R.oblige('all entries of a step are computed, in their order', not any(s.op == 'iv' for s in subvals(k)), e.where, 'the entry computed is number %s of its step, not the next one' % show(k, 3), key='entries')
        Lt = eng.lmap.get(st.a[0]) if st.op == 'iv' else None
        if Lt is not None and Lt.count is not None:
            R.oblige('no step is left out', not Lt.early, e.where, 'the loop over the steps can end early', key='steps')
            maxsteps(R, eng, evs, Lt, e)
        elif st.op != 'iv': R.oblige('the steps are done in their order', not any(s.op == 'iv' for s in subvals(st)), e.where, 'the step done is %s, not the next one' % show(st, 3), key='steps')
        # the only condition: the step exists
        for g in guards(e):
            for l in lits(eng.resolve(g)):
                if any(is_global(s, 'g_sweepType') for s in subvals(l)): continue
                sz = [s for s in subvals(l) if place(s) and str(place(s)[1][-1:]).find('#n') >= 0 and 'c_workOrders' in str(place(s)[1])]
                if sz and st in subvals(l):
                    vals = [eng.subst(l, {sz[0]: num(3), st: num(i)}) for i in (0, 1, 2, 3, 4)]
                    if all(v in (TRUE, FALSE) for v in vals):
                        R.oblige('every existing step is done', all(v is TRUE for v in vals[:3]), e.where, 'of 3 steps, step %s is left out' % [i for i in range(3) if vals[i] is FALSE], key='steps')
                        R.oblige('only existing steps are done', all(v is FALSE for v in vals[3:]), e.where, 'a step past the last is done', key='steps')

def maxsteps(R, eng, evs, L, e):
    n = eng.resolve(L.count)
    if n.op != 'fin' or not isinstance(n.a[1], Loc):
        R.notes.append('number of steps not recognised: %s' % show(n, 3)); return
    ws = [w for w in evs if w.kind == 'write' and w.locs == [n.a[1]] and w.seq < e.seq]
    done_ = set(); loops_ = []
    for w in ws:
        v = eng.resolve(w.args[0])
        sz = [s for s in subvals(v) if place(s) and 'c_workOrders' in str(place(s)[1])]
        if not sz: continue
        idx = [eng.resolve(s[1]) for s in (list(place(sz[0])[1]) + list(rootidx(sz[0]))) if s[0] == 'i']
        if not idx: continue
        if not loops_of(w): done_.add(idx[0]); continue
        g = band(*[eng.resolve(x) for x in inner(w, loops_of(w)[-1])])
        old = {s for s in subvals(v) | subvals(g) if s.op == 'mu' and s.a[1] == n.a[1]} if isinstance(subvals(v), set) else {s for t in (v, g) for s in subvals(t) if s.op == 'mu' and s.a[1] == n.a[1]}
        def larger(o, z):
            rep = {x: num(o) for x in old}; rep.update({x: num(z) for x in sz})
            c = eng.subst(g, rep)
            r = eng.subst(v, rep)
            if r.op in ('max', 'min') and all(isinstance(t, V) and t.op == 'num' for t in r.a): r = num((max if r.op == 'max' else min)(t.a[0] for t in r.a))
            return (r.a[0] if r.op == 'num' else None) if c is TRUE else o if c is FALSE else None
        x, y = larger(8, 3), larger(3, 8)
        if x is None or y is None: R.notes.append('number of steps at %s not recognised' % rel(w.where))
        else: R.oblige('the number of steps is the largest of all groups', x == 8 and y == 8, w.where, 'the number of steps becomes %s, which is not the larger of the two' % show(v, 3), key='steps')
        Lw = loops_of(w)[-1]
        k = sub(idx[0], mk('iv', Lw.n))
        cnt = eng.resolve(Lw.count) if Lw.count is not None else None
        if k.op != 'num' or cnt is None: continue
        want = sub(next(iter(globals_in(cnt, 'g_nAngleGroups'))), k) if globals_in(cnt, 'g_nAngleGroups') else None
        if want is None: continue
        ok = cnt is want and all(num(i) in done_ for i in range(int(k.a[0])))
        R.oblige('the steps of all groups are counted', ok and not Lw.early, w.where, 'the number of steps is not taken over all groups: from group %s, %s groups' % (show(k, 2), show(cnt, 3)), key='steps')

def rootidx(v):
    """indices within the pointer that a place is read through"""
    p = place(v)
    out = []
    if p and p[0][0] == 'D':
        for s in subvals(p[0][1]):
            q = place(s)
            if q: out += [x for x in q[1] if x[0] == 'i']
            if q and q[0][0] == 'D':
                for t in subvals(q[0][1]):
                    r = place(t)
                    if r: out += [x for x in r[1] if x[0] == 'i']
    return out
