"""C03: exchanges do not rely on MPI buffering."""
from sa.common import *
from sa.p2p import *
from sa.p2p import callers as callers2

TECHNIQUE = 'ordering analysis of message starts, receives and completions along the traced control flow'
NOTE = """In every function in which the sends and the receives of an exchange meet (helpers inlined), orders the starts of sends, the posting or
serving of matching receives, and the completions. Decides for every number of processes and every message size that no send, and no completion
of a send, can block before the matching receives are posted or served, and that no receive blocks before the sends are started. Sends and
receives are matched by tag formula and element type."""

def sig(eng, e):
    """what a message is matched by"""
    import re
    a = e.args
    t = mpi_const(a[2])
    tag = a[4]
    s = show(eng.resolve(tag), -20)
    s = re.sub(r'(iv|mu)\(\d+(, \w+)?\)|sym\(tid[^)]*\)', 'i', s)
    return (s, {'ompi_mpi_char': 1, 'ompi_mpi_byte': 1}.get(t, t))

def matches(eng, a, b): return sig(eng, a) == sig(eng, b)

def check(R):
    R.rule('For every send there is a matching receive that is posted (MPI_Irecv) or served (MPI_Recv) before the completion of the send may '
           'block, or inside the loop that tests for completion. Blocking sends only follow posted receives. A receive that blocks '
           '(MPI_Recv, or the wait for a posted one) comes after the start of the sends it is matched with.')
    R.assumption('The processes of an exchange run the same code, so the receives matching a send are those in the same function with the same tag and element type.')
    P = R.prog('sweep+noassert')
    cal = callers2(P)
    todo = [f for f in direct(P, set(START) | BSEND | RECV | {'MPI_Sendrecv'}) if f['n'] != 'main']
    seen = set()
    n = 0
    for level in range(5):
        nxt = []
        for F in todo:
            if F['usr'] in seen: continue
            seen.add(F['usr'])
            eng = trace(R, P, F)
            evs = [e for e in eng.events if e.kind == 'call' and e.name in P2P]
            sends = [e for e in evs if e.name in ISEND | BSEND]
            recvs = [e for e in evs if e.name in RECV]
            open_ = False
            for e in evs:
                if e.name == 'MPI_Sendrecv':
                    R.violation(e.where, '%s exchanges with one neighbor after the other by MPI_Sendrecv: each process may wait for one that is waiting for another' % F['n'], 'sendrecv %s' % F['n'])
            for s in sends:
                sg = {eng.resolve(x) for x in guards(s)}
                rs = [r for r in recvs if matches(eng, s, r) and not opposite(eng, sg, [eng.resolve(x) for x in guards(r)])]
                if not rs: open_ = True; continue
                if s.name in BSEND:
                    late = [r for r in rs if r.name != 'MPI_Irecv' or r.seq > s.seq]
                    n += 1
                    R.oblige('%s: blocking send after the receives are posted' % F['n'], not late, s.where,
                             '%s: this send may block until the other process receives, which may be blocked in the same send; the matching receive at %s comes only later'
                             % (F['n'], late[0].where.split('/')[-1] if late else ''), 'blocking send %s' % F['n'])
                    continue
                m = Msg(eng, s)
                for w in m.done:
                    if opposite(eng, sg, [eng.resolve(x) for x in guards(w)]): continue
                    n += 1
                    before = [r for r in rs if r.seq < w.seq and context_ok(r, w, s)]
                    test = w.name.startswith('MPI_Test')
                    inloop = test and any(L in loops_of(r) for r in rs for L in loops_of(w) if L not in loops_of(s))
                    after = [r for r in rs if r.seq > w.seq]
                    R.oblige('%s: sends completed after receiving' % F['n'], bool(before) or inloop or not after, w.where,
                             '%s: waits here for the sends started at %s to complete before the matching receive at %s: two processes that send to each other wait for each other unless MPI buffers the data'
                             % (F['n'], s.where.split('/')[-1], after[0].where.split('/')[-1] if after else ''), 'send completion %s' % F['n'])
            for r in recvs:
                rg = {eng.resolve(x) for x in guards(r)}
                ss = [s for s in sends if matches(eng, s, r) and not opposite(eng, rg, [eng.resolve(x) for x in guards(s)])]
                if not ss: open_ = True; continue
                if r.name == 'MPI_Irecv':
                    m = Msg(eng, r)
                    q = [w for w in m.done if not w.name.startswith('MPI_Test')]
                    if not q: continue
                    b = q[0]
                else: b = r
                n += 1
                R.oblige('%s: sends started before waiting to receive' % F['n'], any(s.seq < b.seq for s in ss), b.where,
                         '%s: blocks here until a message arrives, before its own matching sends (%s) are started: every process waits for its neighbors to send first'
                         % (F['n'], ss[0].where.split('/')[-1]), 'receive first %s' % F['n'])
                # the same for all sends of the exchange inside one branch
            if open_ or not recvs or not sends:
                for u in cal.get(F['usr'], ()):
                    if u in P.funcs and P.funcs[u]['n'] != 'main': nxt.append(P.funcs[u])
        todo = nxt
    R.need(n, 4, 'orderings of sends and receives')

def context_ok(r, w, s):
    """r has happened in the exchange of s when w is reached: it is not in an earlier, unrelated loop"""
    ls, lr = loops_of(s), loops_of(r)
    # loops around r must be loops around s or w, or run between
    if r.name == 'MPI_Irecv': return True
    return r.seq > s.seq or bool(set(ls) & set(lr))

def opposite(eng, sg, wg):
    for x in wg:
        if bnot(x) in sg: return True
        if x.op == 'eq0':
            for y in sg:
                if y.op == 'eq0':
                    d = sub(x.a[0], y.a[0])
                    if d.op == 'num' and d.a[0] != 0: return True
    return False
