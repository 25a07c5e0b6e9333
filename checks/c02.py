"""C02: message buffers live and stay unchanged until the request completes."""
from sa.common import *
from sa.p2p import *

TECHNIQUE = 'typestate of requests and effect analysis of the memory between start and completion'
NOTE = """Every MPI_Isend/Irecv is followed, with the functions called and with callers where the request is handed out, to the wait or test that
completes it (the container that holds the request, its size, and conditions the wait is under), and every write, container operation, end of
scope, delete and use in between is compared with the memory of the message. Elements whose index changes with the iteration of a loop are
taken as distinct in distinct iterations. Requests kept in members or globals are only noted."""

MODIFY = {'push', 'insert', 'resize', 'assign', 'clear', 'erase', 'pop', 'construct', 'swap', 'dims', 'reserve', 'shrink', 'move'}

def modifies(eng, m, e, l):
    """does event e on location l touch the memory of m; only by its kind (index questions aside)
       -> the part of the buffer path compared, or None"""
    B = m.buf
    if l.root != B.root: return None
    if e.kind == 'write': return ('mem', l)
    if e.kind == 'cont':
        c = l.path
        # the container that directly holds the data?
        n = 0
        inner = None
        for i, s in enumerate(B.path):
            if s in (('f', '#d'), ('f', '#m')): inner = i
        depth = len(c)
        if inner is not None and depth == inner: return ('mem', l)            # the container of the data itself
        if depth < (inner if inner is not None else len(B.path)):
            # an outer container: growing at the end moves, and keeps, the inner data
            if e.name in ('push', 'reserve', 'insert') : return None
            if e.name == 'swap': return ('mem', l)
            return ('mem', l)
        if inner is None: return ('mem', l)
        return None
    if e.kind in ('scope', 'delete'): return ('mem', l)
    return None

def same(eng, m, l, cross, Ls):
    """do locations m.buf and l overlap: True, False, None; cross: event of another iteration of one of the loops Ls"""
    p, q = m.buf.path, l.path
    dunno = False
    for i, (a, b) in enumerate(zip(p, q)):
        if a[0] == 'f' or b[0] == 'f':
            if a == b: continue
            if b in (('f', '#n'),) : return False
            if a[0] == 'f' and b[0] == 'f': return False
            dunno = True; continue
        va = a[1] if a[0] == 'i' else a[1]
        vb = b[1]
        if a[0] != b[0]: dunno = True; continue
        ta = va if isinstance(va, tuple) else (va,)
        tb = vb if isinstance(vb, tuple) else (vb,)
        if len(ta) != len(tb): dunno = True; continue
        last = i == len(p) - 1
        for x, y in zip(ta, tb):
            if cross and (varies(eng, x, Ls) or varies(eng, y, Ls)): return False
            d = sub(y, x)
            if d is ZERO: continue
            if d.op == 'num':
                if last and a[0] == 'i' and m.cnt.op == 'num' and 0 <= d.a[0] < max(1, m.cnt.a[0]) : continue
                if last and a[0] == 'i' and m.cnt.op != 'num' and d.a[0] >= 0: continue
                return False
            if last and a[0] == 'i' and x is ZERO: continue               # inside the message if it is long enough
            dunno = True
    return None if dunno else True

def loopidx(eng, v, not_of):
    """an index that runs over a loop of its own"""
    for x in subvals(v):
        if x.op in ('iv', 'mu'):
            L = loop_n(eng, x.a[0])
            if L is not None and L not in not_of: return True
    return False

def local_to(m):
    r = m.buf.root
    return r[0] == 'L'

def check(R):
    R.rule('Every request that is started is stored in a variable or container that a later wait (or a test whose flag ends its loop) covers, '
           'with a count of all its requests and under no condition the start is not under. Between start and completion nothing writes, '
           'resizes, clears, frees, swaps or ends the scope of the memory of the message, in the same or in another iteration, and nothing '
           'uses data of a receive that is not complete.')
    R.assumption('Element indices that change with the iteration of a loop are different in different iterations; growing a vector of vectors keeps the inner data where it is.')
    P = R.prog('sweep+noassert')
    cal = callers(P)
    n = nd = 0
    todo = [(f, None) for f in direct(P, set(START)) if f['n'] != 'main']
    done_entries = set()
    judged = {}
    pend = []
    level = 0
    while todo and level < 5:
        nxt = []
        for F, only in todo:
            if F['usr'] in done_entries: continue
            done_entries.add(F['usr'])
            eng = trace(R, P, F)
            for ev in eng.events:
                if ev.kind != 'call' or ev.name not in START: continue
                m = Msg(eng, ev)
                if m.buf is None: R.notes.append('%s: buffer of %s not followed' % (rel_(ev), ev.name)); continue
                n += 1
                # is everything needed visible here?
                up = m.holder is not None and m.holder.root[0] == 'P' or m.req is not None and m.req.root[0] == 'P' and not m.done
                if up and not m.done:
                    for u in cal.get(F['usr'], ()):
                        if u in P.funcs and P.funcs[u]['n'] != 'main': nxt.append((P.funcs[u], None))
                    # the memory of the message must outlive this function
                    if m.buf.root[0] == 'L':
                        judge_memory(R, eng, F, m, None)
                    continue
                nd += 1
                judge(R, P, eng, F, m)
        todo = nxt; level += 1
    R.need(n, 3, 'requests started')
    R.need(nd, 3, 'requests followed to their completion')

def rel_(e): return e.where.split('/')[-1]

def judge(R, P, eng, F, m):
    ev = m.ev
    what = 'receive' if not m.send else 'send'
    if m.holder is None: R.notes.append('%s: request not followed' % rel_(ev)); return
    if not m.done:
        if m.holder.root[0] not in ('L',):
            R.notes.append('%s: request kept in %s' % (rel_(ev), show_loc(m.holder))); return
        R.violation(ev.where, 'the request of this %s is never waited for in %s: neither %s nor a copy of it is passed to a wait or test'
                    % (what, F['n'], show_loc(m.holder)), 'not completed %s' % F['n'])
        return
    # is it always put there, and not over another one
    e = m.stored
    if e is not None and e is not ev:
        sgs = {eng.resolve(x) for x in guards(ev)}
        ex = [x for x in (eng.resolve(y) for y in guards(e)) if x not in sgs]
        others = [f for f in stores(eng, m) if f is not e]
        if ex and not others and not any(x.op == 'init' and False for x in ex):
            R.violation(e.where, 'the request of the %s started at %s is only kept if %s' % (what, rel_(ev), ', '.join(show(x) for x in ex)), 'kept %s' % F['n'])
    out_loops = [L for L in loops_of(ev) if any(L not in loops_of(w) for w in m.done)]
    if out_loops and m.stored is not None and m.stored.kind != 'cont':
        idx = [i for s in m.holder.path if s[0] in 'ix' for i in (s[1] if s[0] == 'x' else (s[1],))]
        if not any(varies(eng, i, out_loops) for i in idx):
            R.violation(m.stored.where, 'every iteration keeps the request of its %s in the same place, %s' % (what, show_loc(m.holder)), 'overwritten %s' % F['n'])
    # which of them complete it
    sg = {eng.resolve(x) for x in guards(ev)}
    good = []
    bad = []
    sL = loops_of(ev)
    for w in m.done:
        flag = stop_flag(eng, w)
        if flag is None: bad.append((w, 'its flag is not what ends the loop around it')); continue
        if opposite(eng, sg, [eng.resolve(x) for x in guards(w)]): continue
        c = container(m.holder)
        isarr = c.path != m.holder.path
        if w.name in ('MPI_Waitall', 'MPI_Testall') and isarr:
            cnt = eng.resolve(w.args[0])
            size = sizes(eng, c)
            off = [sub(cnt, s) for s in size]
            if size and cnt.op == 'num' and not any(s.op == 'num' for s in size): bad.append((w, 'it covers %s requests of %s' % (show(cnt), show_loc(c)))); continue
            if any(d.op == 'num' and d.a[0] < 0 for d in off) and not any(d.op == 'num' and d.a[0] == 0 for d in off):
                bad.append((w, 'it covers only %s requests of %s' % (show(cnt), show_loc(c)))); continue
        if w.name == 'MPI_Waitany':
            Ls = [L for L in loops_of(w) if L not in sL]
            if not Ls:
                if [L for L in sL if L not in loops_of(w)]: bad.append((w, 'MPI_Waitany completes one of the requests started in a loop')); continue
            else:
                r = waits_enough(eng, m, Ls[-1])
                if r: bad.append((w, r)); continue
        x = skipped(eng, m, w, sg)
        if x is not None: bad.append((w, 'it is skipped unless %s' % show(x))); continue
        good.append(w)
    if not good:
        if bad:
            w, why = bad[0]
            R.violation(w.where, 'the %s started at %s is not certain to be completed here: %s' % (what, rel_(ev), why), 'completion %s' % F['n'])
        else: R.notes.append('%s: no completion on the same path recognised' % rel_(ev))
        return
    w = good[0]
    R.oblige('%s: %s completed at %s' % (F['n'], what, rel_(w)), True, ev.where)
    judge_memory(R, eng, F, m, w)

def stores(eng, m):
    out = []
    for e in eng.events:
        if e.seq > m.ev.seq and (e.kind == 'cont' and e.name in ('push', 'insert', 'assign') or e.kind == 'write' and e.name not in ('ext', 'put')) and e.args and isinstance(e.args[0], V):
            v = eng.resolve(e.args[0])
            if v.op == 'out' and v.a[0] == m.ev.seq and len(v.a) > 1 and v.a[1] == START[m.ev.name]: out.append(e)
    return out

def opposite(eng, sg, wg):
    """no run does both: the guards contradict each other"""
    for x in wg:
        if bnot(x) in sg: return True
        if x.op == 'eq0':
            for y in sg:
                if y.op == 'eq0':
                    d = sub(x.a[0], y.a[0])
                    if d.op == 'num' and d.a[0] != 0: return True
    return False

def sizes(eng, c):
    """the size of a container as it is built: construct argument, or its size at the end of the loops that fill it"""
    out = []
    for e in eng.events:
        if e.kind == 'cont' and e.locs:
            l = rloc(eng, e.locs[0])
            if l is not None and (l.root, l.path) == (c.root, c.path) and e.name in ('construct', 'resize', 'assign') and e.args: out.append(eng.resolve(e.args[0]))
    return out

def waits_enough(eng, m, L):
    """None if the loop with MPI_Waitany runs at least once per started request, else a reason"""
    if L.count is None: return None
    c = eng.resolve(L.count)
    sL = [x for x in loops_of(m.ev)]
    if not sL: return None
    S = sL[-1]
    n = eng.resolve(S.count) if S.count is not None else None
    if n is None: return None
    d = sub(c, n)
    for y in subvals(c):
        # a counter of the loop that starts the requests
        if y.op == 'fin' and y.a[0] in {x.n for x in sL}:
            k = sub(c, y)
            i0 = None
            for x in sL:
                if x.n == y.a[0]: i0 = x.init.get(y.a[1]) if isinstance(x.init, dict) else None
            i0 = eng.resolve(i0) if isinstance(i0, V) else None
            if k.op == 'num' and k.a[0] < 0 and (i0 is None or i0.op != 'num' or i0.a[0] <= 0):
                return 'the loop waits for %s of the requests counted by %s' % (show(c), show(y))
    if d.op == 'num' and d.a[0] < 0: return 'the loop waits for %s requests of %s' % (show(c), show(n))
    if c.op == 'num' and n.op != 'num': return 'the loop waits for %s requests of %s' % (show(c), show(n))
    return None

def skipped(eng, m, w, sg):
    """a condition of the completion that the start is not under and that has nothing to do with the requests"""
    c = container(m.holder)
    szs = set(sizes(eng, c)) | {eng.resolve(w.args[0])} | {eng.resolve(L.count) for L in loops_of(m.ev) if L.count is not None}
    szs = {y for y in szs if y.op != 'num'}
    for x in guards(w):
        x = eng.resolve(x)
        if x in sg: continue
        rel = False
        for y in subvals(x):
            if y.op in ('fin', 'mu'):
                if not opposite_only(eng, m, y.a[0]): rel = True
            elif y.op in ('out', 'lit'): rel = True
            if y.op == 'init' and isinstance(y.a[0], Loc) and y.a[0].root == c.root: rel = True
            if y in szs: rel = True
        if x.op in ('ge0', 'eq0', 'not') and not rel:
            return x
    return None

def opposite_only(eng, m, n):
    """a loop that starts messages, but none in the direction of m"""
    d = {e.name in ISEND for e in eng.events if e.kind == 'call' and e.name in START and any(L.n == n for L in loops_of(e))}
    return bool(d) and m.send not in d

def judge_memory(R, eng, F, m, w):
    ev = m.ev
    what = 'receive' if not m.send else 'send'
    sL = loops_of(ev)
    wL = loops_of(w) if w is not None else []
    end = w.seq if w is not None else 1 << 60
    Ls = [L for L in sL if L not in wL]
    chain = cpchain(w.cp) if w is not None else None
    # a local of a function that has returned by then
    if w is not None and m.buf.root[0] == 'L' and m.buf.root[1] not in chain:
        R.violation(ev.where, 'the %s uses local variable %s, which is gone when the request is completed at %s' % (what, show_loc(mkloc(m.buf.root)), rel_(w)),
                    'local buffer %s' % F['n']); return
    if w is None and m.buf.root[0] == 'L':
        R.violation(ev.where, 'the %s uses local variable %s of %s but the request is handed to its caller' % (what, show_loc(mkloc(m.buf.root)), F['n']),
                    'local buffer %s' % F['n']); return
    if m.buf.root[0] == 'L' and isinstance(m.buf.root[2], tuple) and m.buf.root[2][0] == 't':
        R.violation(ev.where, 'the %s uses a temporary value' % what, 'temporary %s' % F['n']); return
    if w is None: return
    # the loop that completes receives one by one
    anyloop = [L for L in wL if L not in sL][-1:] if w.name in ('MPI_Waitany', 'MPI_Testany') else []
    hits = 0
    for e in eng.events:
        if e.seq == ev.seq: continue
        le = loops_of(e)
        inwin = ev.seq < e.seq < end
        if anyloop and anyloop[0] in le: inwin = True
        wrap = any(L in Ls for L in le)
        if not inwin and not wrap: continue
        if own(ev, e): continue
        for l0 in e.locs:
            l = rloc(eng, l0) if isinstance(l0, Loc) else None
            if l is None: continue
            k = modifies(eng, m, e, l)
            if k is None: continue
            # cross: in another iteration of a loop that ends before the completion
            verdicts = []
            if inwin and all(L in le for L in Ls) or inwin and not wrap:
                verdicts.append((same(eng, m, l, False, Ls), 'after'))
                if verdicts[-1][0] is None:
                    if done_index(eng, w, l): verdicts[-1] = (False, '')
                    elif any(loopidx(eng, i, sL) for s in l.path if s[0] in 'ix' for i in (s[1] if s[0] == 'x' else (s[1],))): verdicts[-1] = (True, 'after')
                    elif e.kind != 'write' or e.name not in ('ext', 'put'):
                        if any(foreign(eng, w, i) for s in l.path if s[0] in 'ix' for i in (s[1] if s[0] == 'x' else (s[1],))): verdicts[-1] = (True, 'after')
            if wrap:
                verdicts.append((same(eng, m, l, True, [L for L in Ls if L in le]), 'iter'))
            for v, how in verdicts:
                if v is not True: continue
                hits += 1
                R.violation(e.where, 'the memory of the %s started at %s (%s) is %s before the request is completed at %s%s'
                            % (what, rel_(ev), show_loc(m.buf), verb(e), rel_(w), ', in the next iteration' if how == 'iter' else ''),
                            'touched %s %s' % (F['n'], e.kind))
                break
    # uses of received data before completion
    if not m.send:
        for e in eng.events:
            if own(ev, e): continue
            if anyloop and anyloop[0] in loops_of(e) and e.seq > w.seq:
                # only the element whose receive has completed
                for a in list(e.args) + guards(e):
                    if not isinstance(a, V): continue
                    for x in subvals(eng.resolve(a)):
                        i = other_element(eng, m, w, x)
                        if i is not None:
                            hits += 1
                            R.violation(e.where, 'element %s of %s is used after MPI_Waitany at %s, which may have completed another one' % (show(i), show_loc(mkloc(m.buf.root)), rel_(w)), 'wrong element %s' % F['n'])
                            break
                    else: continue
                    break
                continue
            if not ev.seq < e.seq < end: continue
            for a in list(e.args) + guards(e):
                if isinstance(a, V) and any(x.op == 'out' and x.a[0] == ev.seq and len(x.a) > 1 and x.a[1] == 0 for x in subvals(a)) :
                    if e.kind == 'write' and e.name in ('ext', 'put', 'fin') : continue
                    hits += 1
                    R.violation(e.where, 'data of the receive started at %s is used before the request is completed at %s' % (rel_(ev), rel_(w)), 'early use %s' % F['n'])
                    break
    if not hits: R.oblige('%s: memory of the %s untouched until completion' % (F['n'], what), True, ev.where)

def own(ev, e):
    """an effect of the starting call itself"""
    return e.kind == 'write' and e.args and isinstance(e.args[0], V) and any(x.op == 'out' and x.a[0] == ev.seq for x in subvals(e.args[0])) and e.name in ('ext', 'put')
def done_index(eng, w, l):
    for s in l.path:
        if s[0] in 'ix':
            for i in (s[1] if s[0] == 'x' else (s[1],)):
                if any(x.op == 'out' and x.a[0] == w.seq for x in subvals(i)): return True
    return False
def other_element(eng, m, w, x):
    """x reads an element of the array of receive buffers other than the completed one"""
    if x.op != 'sel' or x.a[1][0] != 'i': return None
    b = x.a[0]
    if b.op not in ('fin', 'mu') or not isinstance(b.a[1], Loc) or b.a[1].root != m.buf.root: return None
    p = container(m.buf)
    # the first index of the buffer path is the element
    k = next((j for j, s in enumerate(m.buf.path) if s[0] == 'i'), None)
    if k is None or b.a[1].path != m.buf.path[:k] or not varies(eng, m.buf.path[k][1], loops_of(m.ev)): return None
    i = x.a[1][1]
    if any(y.op == 'out' and y.a[0] == w.seq for y in subvals(i)): return None
    if any(y.op in ('iv', 'mu') for y in subvals(i)) or i.op == 'num': return i
    return None

def foreign(eng, w, i):
    """an index delivered by another completion"""
    return any(x.op == 'out' and isinstance(x.a[0], int) and x.a[0] != w.seq and 0 <= x.a[0] < len(eng.events) and eng.events[x.a[0]].kind == 'call'
               and eng.events[x.a[0]].name in ('MPI_Waitany', 'MPI_Testany') for x in subvals(i))

def verb(e):
    if e.kind == 'write': return 'written'
    if e.kind == 'scope': return 'gone out of scope'
    if e.kind == 'delete': return 'freed'
    return 'changed by %s' % e.name

def show_loc(l):
    s = str(l)
    return s[1:-1] if s[:1] == '[' and s[-1:] == ']' else s
