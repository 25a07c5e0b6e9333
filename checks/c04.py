"""C04: sender and receiver agree on the content of every message."""
from sa.common import *
from sa.p2p import *
from sa.p2p import callers as callers2
from checks.c03 import matches, sig, opposite

TECHNIQUE = 'symbolic layout of packed and unpacked messages, compared field by field'
NOTE = """Sends and receives are matched by tag formula and element type. Every packing loop that puts a global side id into a message and every
unpacking that takes one out is reduced to its record length and the offset of each field; sender and receiver must agree, as must the factor
between announced and received counts and, per file, the order of (group, vertex) in face data. Whether counts agreed before the exchange (number of faces between
two processes) are equal rests on C15. Roles of fields are taken from the tables they index; a field with no recognised role is only compared by offset."""

def idx_of(l):
    out = []
    for s in l.path:
        if s[0] == 'i': out.append((s[1],))
        elif s[0] == 'x': out.append(s[1])
    return out

def check(R):
    R.rule('Every send has a receive with the same tag and type and every receive a send. In the packing and the unpacking of a message the '
           'record length, the offset of the global side, of the direction and of the data are the same; a side is packed as a global id (getLGSide of '
           'getSide) exactly where the receiver translates it back (getGLSide). Announced sizes are multiplied by what they were divided by. '
           'Face data is unpacked with the index order it was packed with.')
    P = R.prog('sweep+noassert')
    tags(R, P)
    n = formats(R, P)
    R.need(n, 2, 'message formats compared')
    m = payload(R, P)
    R.need(m, 1, 'face data layouts compared')

# --- tags and types
def tags(R, P):
    cal = callers2(P)
    todo = [(f, None) for f in direct(P, ISEND | BSEND | RECV) if f['n'] != 'main']
    seen = set()
    for level in range(6):
        nxt = []
        for F, _ in todo:
            if F['usr'] in seen: continue
            seen.add(F['usr'])
            eng = trace(R, P, F)
            evs = [e for e in eng.events if e.kind == 'call' and e.name in ISEND | BSEND | RECV]
            ups = [u for u in cal.get(F['usr'], ()) if u in P.funcs]
            up = False
            for e in evs:
                g = {eng.resolve(x) for x in guards(e)}
                mine = e.name in RECV
                other = [x for x in evs if (x.name in RECV) != mine]
                hit = [x for x in other if matches(eng, e, x) and not opposite(eng, g, [eng.resolve(y) for y in guards(x)])]
                if hit:
                    R.oblige('%s: %s and %s match' % (F['n'], e.name, hit[0].name), True, e.where)
                    sizes(R, eng, F, e, hit)
                elif other and anyparam(eng, e) is False:
                    # both directions meet here, but nothing fits
                    s = sig(eng, e)
                    near = [x for x in other if sig(eng, x)[0] == s[0] or sig(eng, x)[1] == s[1]]
                    if up_possible(P, ups): up = True
                    unmatched.setdefault((e.where, s), []).append((F, e, near, bool(up_possible(P, ups))))
                else: up = True
                if hit: matched.add((e.where, sig(eng, e)))
            if up or not evs:
                for u in ups:
                    if P.funcs[u]['n'] != 'main': nxt.append((P.funcs[u], None))
        todo = nxt
    for (w, s), l in unmatched.items():
        if (w, s) in matched: continue
        F, e, near, _ = l[-1]
        kind = 'receive' if e.name in RECV else 'send'
        R.violation(w, '%s: no %s matches this %s (tag %s, type %s)%s' % (F['n'], 'send' if kind == 'receive' else 'receive', kind, s[0], s[1],
                    '; closest is %s with tag %s, type %s' % ((near[0].where.split('/')[-1],) + sig(trace(R, P, F), near[0])) if near else ''), 'unmatched %s' % F['n'])
matched = set()
unmatched = {}
def up_possible(P, ups): return [u for u in ups if P.funcs[u]['n'] != 'main']
def anyparam(eng, e):
    t = eng.resolve(e.args[4])
    return any(x.op == 'sym' and len(x.a) == 1 for x in subvals(t))

def sizes(R, eng, F, e, hit):
    """fixed sizes on both sides"""
    if e.name not in RECV: return
    c = eng.resolve(e.args[1])
    if c.op != 'num': return
    nums = [(h, eng.resolve(h.args[1])) for h in hit]
    if all(v.op == 'num' for h, v in nums):
        a = c.a[0] * (MPI_SIZE.get(mpi_const(e.args[2])) or 1)
        for h, v in nums:
            b = v.a[0] * (MPI_SIZE.get(mpi_const(h.args[2])) or 1)
            if len({x for _, x in nums}) == 1:
                R.oblige('%s: sizes of %s and %s' % (F['n'], e.name, h.name), a >= b, e.where,
                         '%s: receives at most %s bytes of a message of %s bytes sent at %s' % (F['n'], a, b, h.where.split('/')[-1]), 'size %s' % F['n'])

# --- records
class Fmt(object):
    def __init__(f, side, stride, fields, where, data=None):
        f.side, f.stride, f.fields, f.where, f.data = side, stride, fields, where, data      # fields: offset(V) -> (value, roles)

def split(eng, off):
    """(stride, offset): coefficient of the loop symbol that counts records and the rest"""
    t = terms(eng.resolve(off))
    ivs = {}
    rest = ZERO
    for m, c in t.items():
        iv = [x for x in m if x.op in ('iv', 'mu')]
        if len(iv) == 1:
            r = list(m); r.remove(iv[0])
            ivs[iv[0]] = add(ivs.get(iv[0], ZERO), from_terms({tuple(r): c}))
        elif not iv: rest = add(rest, from_terms({m: c}))
        else: return None, None
    if len(ivs) > 1: return None, None
    return (list(ivs.values())[0] if ivs else ZERO), rest

def is_gside(v):
    return v.op == 'call' and v.a[0].endswith('getLGSide')
def holds_gside(P, eng, v, R):
    """a global side id, directly or through a member that is only given such"""
    if is_gside(v): return True
    l = v.a[0] if v.op == 'init' and isinstance(v.a[0], Loc) else None
    if l is not None and l.path and l.path[-1][0] == 'f':
        n = l.path[-1][1].split('::')[-1]
        return gfield(P, R).get(l.path[-1][1]) or (n.lower() in ('gside', 'c_gside') and gfield(P, R).get(n)) or False
    if v.op == 'sel' and isinstance(v.a[1], tuple) and v.a[1][0] in ('x', 'i'):
        for x in subvals(v.a[0]):
            if x.op in ('init', 'fin', 'mu') and isinstance(x.a[-1], Loc) and any(s[0] == 'f' and s[1].split('::')[-1] == 'c_lGSides' for s in x.a[-1].path): return True
    if v.op == 'init' and isinstance(v.a[0], Loc) and any(s[0] == 'f' and s[1].split('::')[-1] == 'c_lGSides' for s in v.a[0].path): return True
    return False
_gf = {}
def gfield(P, R):
    """members that hold global side ids: every value stored into them is one"""
    if 'x' in _gf: return _gf['x']
    ok, bad = {}, {}
    _gf['x'] = {}; _gf['bad'] = set()
    for f in user_funcs(P):
        if not any(str(n.get('n', '')).endswith(('getLGSide', 'getSide')) for n in walk(f['body'])): continue
        if f['n'] == 'main': continue
        eng = trace(R, P, f)
        for e in eng.events:
            if e.kind == 'write' and e.args and e.locs and isinstance(e.locs[0], Loc) and e.locs[0].path and e.locs[0].path[-1][0] == 'f':
                v = eng.resolve(e.args[0])
                (ok if is_gside(v) else bad)[e.locs[0].path[-1][1]] = e
    _gf['x'] = {k: e for k, e in ok.items() if k not in bad}
    _gf['bad'] = {k for k in bad if k not in ok}
    return _gf['x']

def message_word(eng, v, recvs):
    """(byte offset, size) if v is read out of a received message"""
    bufs = {}
    for r in recvs:
        b = aloc(eng, r.args[0])
        if b is not None: bufs[b.root] = r
    if v.op == 'sel' and v.a[1][0] == 'i':
        o = v.a[0]
        if o.op == 'out' and any(o.a[0] == r.seq for r in recvs):
            r = eng.events[o.a[0]] 
            sz = MPI_SIZE.get(mpi_const(r.args[2]), 8)
            if sz == 1: sz = 8
            return mul(v.a[1][1], num(sz)), num(8)
        if any(x.op in ('fin', 'mu') and isinstance(x.a[-1], Loc) and x.a[-1].root in bufs for x in subvals(o)) and not bytes_buf(eng, o, bufs): 
            return None
    if v.op == 'bytes' and v.a[0].op == 'at':
        base = v.a[0].a[0]
        for x in subvals(base):
            if x.op in ('fin', 'mu', 'out', 'init') and isinstance(x.a[-1], Loc) and x.a[-1].root in bufs: return v.a[0].a[1], v.a[1]
            if x.op == 'out' and any(x.a[0] == r.seq for r in recvs): return v.a[0].a[1], v.a[1]
    return None
def bytes_buf(eng, o, bufs): return False

def all_values(eng):
    for e in eng.events:
        vs = list(e.args) + guards(e)
        for l in e.locs:
            if isinstance(l, Loc):
                for s in l.path:
                    if s[0] == 'i': vs.append(s[1])
                    elif s[0] == 'x': vs += list(s[1])
        for a in vs:
            if isinstance(a, V): yield e, eng.resolve(a)

def roles(eng):
    """value -> labels: the tables and positions it is an index of"""
    out = {}
    dims = {}
    for e in eng.events:
        if e.kind == 'cont' and e.name == 'dims' and e.locs:
            l = rloc(eng, e.locs[0])
            if l is not None: dims[(l.root, tuple(s for s in l.path if s[0] == 'f'))] = [show(eng.resolve(a)) for a in e.args]
    for e in eng.events:
        if e.kind == 'elem' and e.locs and isinstance(e.locs[0], Loc) and e.name == 'operator()':
            l = e.locs[0]
            nm = [s[1].split('::')[-1] for s in l.path if s[0] == 'f'] or [str(l.root[-1])]
            cls = 'psi' if any('psi' in x.lower() for x in nm + [str(l.root[-1])]) and len(e.args) == 4 else None
            d = dims.get((l.root, tuple(s for s in l.path if s[0] == 'f')))
            for p, a in enumerate(e.args):
                if not isinstance(a, V): continue
                a = eng.resolve(a)
                s = out.setdefault(a, set())
                s.add((nm[-1], p))
                if cls: s.add(('psi', p))
                if d and p < len(d) and d[p] != '0': s.add(('dim', d[p]))
        if e.kind == 'call' and e.name and 'setSideData' in e.name and len(e.args) >= 3: 
            out.setdefault(eng.resolve(e.args[0]), set()).add(('psi', 3))
            out.setdefault(eng.resolve(e.args[1]), set()).add(('psi', 2))
        if e.kind == 'call' and e.name and e.name.split('::')[-1] in ('getData',) and len(e.args) >= 3:
            out.setdefault(eng.resolve(e.args[2]), set()).add(('psi', 2))
    return out

def sent_formats(R, P, eng):
    out = []
    rl = roles(eng)
    # groups of pushes
    groups = {}
    for e in eng.events:
        if e.kind == 'cont' and e.name == 'push' and e.locs and e.args:
            l = rloc(eng, e.locs[0])
            if l is None: continue
            groups.setdefault((l.root, show_path(l), tuple(L.n for L in loops_of(e))), []).append((e, eng.resolve(e.args[0])))
        elif e.kind == 'cont' and e.name in ('insert', 'assign') and e.locs and len(e.args) > 1 and isinstance(e.args[1], V):
            l = rloc(eng, e.locs[0])
            vs = listed(eng.resolve(e.args[1]))
            if l is None or not vs: continue
            groups.setdefault((l.root, show_path(l), tuple(L.n for L in loops_of(e))), []).extend((e, v) for v in vs)
    for k, es in groups.items():
        vs = [v for _, v in es]
        es = [e for e, _ in es]
        if not any(holds_gside(P, eng, v, R) for v in vs):
            if len(vs) > 1 and all(surely_not(P, eng, v, R) for v in vs):
                out.append(Fmt('other', num(8 * len(es)), {num(8 * i): (v, rl.get(v, set())) for i, v in enumerate(vs)}, es[0].where))
            continue
        g = [frozenset(eng.resolve(x) for x in guards(e)) for e in es]
        if len(set(g)) > 1:
            R.violation(es[-1].where, 'the parts of one record are put into the message under different conditions', 'record guards'); continue
        f = {}
        for i, v in enumerate(vs): f[num(8 * i)] = (v, rl.get(v, set()))
        out.append(Fmt('send', num(8 * len(es)), f, es[0].where))
    # memcpy into a packet
    bufs = {}
    for e in eng.events:
        if e.kind == 'call' and e.name in ('memcpy', 'std::memcpy', 'memmove'):
            l = aloc(eng, e.args[0])
            if l is None or not l.path or l.path[-1][0] != 'i': continue
            bufs.setdefault((l.root, str(l.path[:-1]), tuple(L.n for L in loops_of(e))), []).append((e, l.path[-1][1]))
    for k, es in bufs.items():
        rec = {}; stride = None; data = None; gs = False
        bad = False
        for e, off in es:
            s, o = split(eng, off)
            if s is None: bad = True; break
            stride = s if stride is None else stride
            if s is not stride: bad = True
            n = eng.resolve(e.args[2])
            src = memsource(eng, e)
            if n is num(8) and src is not None:
                rec[o] = (src, rl.get(src, set()))
                gs = gs or holds_gside(P, eng, src, R)
            else: data = (o, n)
        if bad or not rec: continue
        if not gs and not (len(rec) > 1 and all(surely_not(P, eng, v, R) for v, _ in rec.values())): continue
        if stride is ZERO:
            # one packet, appended to a buffer as a whole
            stride = None
            for e in eng.events:
                if e.kind == 'cont' and e.name in ('resize', 'construct') and e.locs:
                    l = rloc(eng, e.locs[0])
                    if l is not None and l.root == k[0] and e.args and eng.resolve(e.args[0]) is not ZERO: stride = eng.resolve(e.args[0])
        out.append(Fmt('send' if gs else 'other', stride, rec, es[0][0].where, data))
    # words written one by one into an array that is sent
    for s in [e for e in eng.events if e.kind == 'call' and e.name in ISEND | BSEND]:
        b = aloc(eng, s.args[0])
        if b is None or not b.path or b.path[-1][0] != 'i': continue
        rec = {}
        for e in eng.events:
            if e.kind == 'write' and e.seq < s.seq and e.args and e.locs and isinstance(e.locs[0], Loc) and e.name not in ('ext', 'put'):
                l = rloc(eng, e.locs[0])
                if l is not None and l.root == b.root and l.path[:-1] == b.path[:-1] and l.path[-1][0] == 'i':
                    d = sub(l.path[-1][1], b.path[-1][1])
                    if d.op == 'num': rec[num(8 * d.a[0])] = (eng.resolve(e.args[0]), rl.get(eng.resolve(e.args[0]), set()))
        if len(rec) > 1 and any(holds_gside(P, eng, v, R) for v, _ in rec.values()):
            c = eng.resolve(s.args[1])
            out.append(Fmt('send', mul(c, num(MPI_SIZE.get(mpi_const(s.args[2]), 8))), rec, s.where))
    return out

def listed(v):
    """values of an initializer list"""
    d = {}
    while v.op == 'store' and len(v.a) == 3:
        k = v.a[1]
        if isinstance(k, tuple): k = k[1]
        if not isinstance(k, V) or k.op != 'num': return None
        d.setdefault(int(k.a[0]), v.a[2]); v = v.a[0]
    return [d[i] for i in sorted(d)] if d and sorted(d) == list(range(len(d))) else None

def surely_not(P, eng, v, R):
    """v is certainly no global side id: a loop counter, a number, a local side, or a member never given one"""
    if v.op in ('iv', 'num'): return True
    if v.op == 'call': return v.a[0].split('::')[-1] in ('getSide', 'getAdjCell', 'getAdjFace', 'getSideCell')
    fs = None
    if v.op == 'sel' and v.a[1][0] == 'f': fs = v.a[1][1]
    elif v.op == 'init' and isinstance(v.a[0], Loc) and v.a[0].path and v.a[0].path[-1][0] == 'f': fs = v.a[0].path[-1][1]
    if fs is None or fs.startswith('#') or fs.startswith('TychoMesh::') or fs.startswith('ParallelMesh'): return False
    gfield(P, R)
    return fs in _gf['bad']

def show_path(l): return str([s if s[0] == 'f' else s[0] for s in l.path])

def memsource(eng, e):
    """the value an 8-byte memcpy takes from a variable"""
    if e.seq + 1 < len(eng.events):
        x = eng.events[e.seq + 1]
        if x.kind == 'write' and x.name == 'put' and x.args and isinstance(x.args[0], V) and x.args[0].op == 'rstore':
            v = [y for y in x.args[0].a[1:] if isinstance(y, V)]
            d = aloc(eng, e.args[0])
            if len(v) >= 2 and d is not None and d.path and d.path[-1][0] == 'i' and v[0] is d.path[-1][1]: return eng.resolve(v[1])
    l = aloc(eng, e.args[1])
    if l is None: return None
    last = None
    for x in eng.events:
        if x.seq >= e.seq: break
        if x.kind == 'write' and x.locs and isinstance(x.locs[0], Loc):
            y = rloc(eng, x.locs[0])
            if y is not None and y.root == l.root and (y.path == l.path or not y.path): last = x
    if last is None:
        if l.root[0] == 'P': return mk('sym', l.root[1]) if not l.path else None
        return None
    return eng.resolve(last.args[0]) if last.args and isinstance(last.args[0], V) else None

def recv_formats(R, P, eng):
    recvs = [e for e in eng.events if e.kind == 'call' and e.name in RECV]
    if not recvs: return []
    rl = roles(eng)
    words = {}
    gs = {}
    raw = {}
    where = {}
    data = {}
    for e, a in all_values(eng):
        for x in subvals(a):
            w = message_word(eng, x, recvs)
            if w is not None:
                b = base_key(x)
                s, o = split(eng, w[0])
                if s is None: continue
                k = (b, s)
                words.setdefault(k, {}).setdefault(o, (x, set()))[1].update(rl.get(x, set()))
                where.setdefault(k, e.where)
            if x.op == 'call' and x.a[0].endswith('getSideCell') and len(x.a) > 1 and message_word(eng, x.a[1], recvs) is not None: raw.setdefault(x.a[1], e)
            if x.op == 'call' and x.a[0].endswith('getGLSide'):
                w = message_word(eng, x.a[1], recvs)
                if w is not None:
                    s, o = split(eng, w[0])
                    if s is not None: gs.setdefault((base_key(x.a[1]), s), set()).add(o); where[(base_key(x.a[1]), s)] = e.where
    for x, ls in rl.items():
        if ('psi', 3) in ls and message_word(eng, x, recvs) is not None: raw.setdefault(x, recvs[0])
    for x, e in raw.items():
        R.violation(e.where, '%s: a side taken out of a message is used as a side of this process without translation (%s)' % (eng.F['n'] if hasattr(eng, 'F') else 'message', show(x)), 'side not translated')
    # copies of words in arrays: roles go through
    for e in eng.events:
        if e.kind == 'write' and e.args and isinstance(e.args[0], V) and e.locs and isinstance(e.locs[0], Loc) and any(s[0] == 'i' for s in e.locs[0].path):
            v = eng.resolve(e.args[0])
            w = message_word(eng, v, recvs)
            if w is None: continue
            for val, lab in rl.items():
                if val.op == 'sel' and any(y.op == 'fin' and isinstance(y.a[1], Loc) and y.a[1].root == e.locs[0].root and y.a[1].path == e.locs[0].path[:-1] for y in subvals(val.a[0])):
                    s, o = split(eng, w[0])
                    k = (base_key(v), s)
                    words.setdefault(k, {}).setdefault(o, (v, set()))[1].update(lab)
    # pointers into the message
    for e in eng.events:
        vals = list(e.args)
        for a in vals:
            if not isinstance(a, V): continue
            if e.kind == 'call' and e.name in ('memcpy', 'std::memcpy', 'MPI_Recv', 'MPI_Irecv'): continue
            a = eng.resolve(a)
            l = a.a[0] if a.op == 'addr' and isinstance(a.a[0], Loc) else None
            for r in recvs:
                b = aloc(eng, r.args[0])
                if l is not None and b is not None and l.root == b.root and l.path and l.path[-1][0] == 'i':
                    s, o = split(eng, rloc(eng, l).path[-1][1])
                    if s is not None and s is not ZERO: data.setdefault(s, set()).add(o)
            # element loads of a copy
            if e.kind == 'write' and a.op == 'sel' and a.a[1][0] == 'i' and any(x.op in ('fin', 'mu', 'out') and isinstance(x.a[-1], Loc) and any((aloc(eng, r.args[0]) or mkloc(root('?'))).root == x.a[-1].root for r in recvs) for x in subvals(a.a[0])):
                t = terms(a.a[1][1])
                # copy loop: own counter with coefficient one
                own = [x for x in {y for m in t for y in m if y.op == 'iv'} if t.get((x,)) == 1 and loops_of(e) and loops_of(e)[-1].n == x.a[0]]
                if own:
                    s, o = split(eng, sub(a.a[1][1], own[0]))
                    if s is not None and s is not ZERO: data.setdefault(s, set()).add(o)
    out = []
    for k, offs in gs.items():
        f = {o: v for o, v in words.get(k, {}).items()}
        fm = Fmt('recv', k[1], f, where[k], None)
        fm.gs = offs
        fm.data = data.get(k[1], set())
        out.append(fm)
    return out

def base_key(x):
    if x.op == 'sel': return show(x.a[0])
    if x.op == 'bytes': return show(x.a[0].a[0])
    return ''

def formats(R, P):
    n = 0
    cl = closure(P)
    pairs = []
    for F in user_funcs(P):
        if F['n'] == 'main' or not any(calls_in(f2, RECV) for f2 in [F] + [P.funcs[u] for u in cl.get(F['usr'], ())]): continue
        if not any(calls_in(f2, RECV | ISEND) for f2 in [F]) and deep(P, cl, F) > 2: continue
        eng = trace(R, P, F)
        rf = recv_formats(R, P, eng)
        if not rf: continue
        sf = sent_formats(R, P, eng)
        srcs = [(eng, sf)]
        if not sf:
            # packed in a function that is not followed from here
            for e in eng.events:
                if e.kind == 'call' and e.name in HEAVY:
                    for f2 in P.byname.get(e.name, []):
                        if f2.get('body'): 
                            e2 = trace(R, P, f2)
                            sf = sf + sent_formats(R, P, e2)
        pairs.append((F, eng, rf, sf))
    for F, eng, rf, sf in pairs:
        if not [s for s in sf if s.side == 'send'] and not any(r.gs & set(s.fields) and (s.stride is r.stride or s.stride is None) for s in sf for r in rf): sf = []
        if not sf: 
            R.notes.append('%s: packing of the messages not recognised' % F['n']); continue
        for r in rf:
            cand = [s for s in sf if s.side == 'send'] or sf
            n += 1
            for o in r.gs:
                for l in r.fields.get(o, (None, ()))[1]:
                    if l[0] == 'dim': continue
                    R.violation(r.where, '%s: offset %s of a record is read as global side and also used as index %s of %s' % (F['n'], show(o), l[1], l[0]), 'two roles %s' % F['n'])
            best = [s for s in cand if s.stride is r.stride or s.stride is None]
            if r.stride is ZERO:
                best = cand
            else:
                R.oblige('%s: record length' % F['n'], bool(best), r.where,
                         '%s: the message is taken apart in records of %s bytes but put together in records of %s bytes (%s)'
                         % (F['n'], show(r.stride), ', '.join(sorted({show(s.stride) for s in cand})), cand[0].where.split('/')[-1]), 'record length %s' % F['n'])
            for s in best:
                so = {o for o, (v, _) in s.fields.items() if holds_gside(P, eng, v, R)}
                R.oblige('%s: global side where it is expected' % F['n'], r.gs <= so, r.where,
                         '%s: offset %s of a record is read as global side, but the sender puts %s there (%s)' % (F['n'], ', '.join(show(o) for o in r.gs - so),
                         ', '.join(show(s.fields[o][0]) if o in s.fields else 'nothing' for o in r.gs - so), s.where.split('/')[-1]), 'side offset %s' % F['n'])
                # labels
                lab_s, lab_r = {}, {}
                for o, (v, ls) in s.fields.items():
                    for l in ls: lab_s.setdefault(l, set()).add(o)
                for o, (v, ls) in r.fields.items():
                    for l in ls: lab_r.setdefault(l, set()).add(o)
                for l in sorted(set(lab_s) & set(lab_r), key=str):
                    if l[0] == 'dim': continue
                    R.oblige('%s: field used as index %s of %s' % (F['n'], l[1], l[0]), lab_r[l] <= lab_s[l], r.where,
                             '%s: offset %s of a record is used as index %s of %s, but the sender puts that at offset %s (%s)'
                             % (F['n'], ', '.join(show(o) for o in lab_r[l]), l[1], l[0], ', '.join(show(o) for o in lab_s[l]), s.where.split('/')[-1]), 'field %s' % F['n'])
                for o in r.fields:
                    if s.fields and o not in s.fields and not (s.data and o is s.data[0]):
                        R.violation(r.where, '%s: offset %s of a record is read, but the sender puts its parts at %s (%s)'
                                    % (F['n'], show(o), ', '.join(show(x) for x in s.fields), s.where.split('/')[-1]), 'offset %s' % F['n'])
                if s.data and r.data:
                    R.oblige('%s: data where it is expected' % F['n'], r.data <= {s.data[0]} | set(s.fields), r.where,
                             '%s: the data of a record is read from offset %s but put at offset %s' % (F['n'], ', '.join(show(x) for x in r.data), show(s.data[0])), 'data offset %s' % F['n'])
                    if s.stride is not None:
                        R.oblige('%s: record holds its data' % F['n'], sub(s.stride, add(s.data[0], s.data[1])) is ZERO, s.where,
                                 '%s: data of %s bytes at offset %s in a record of %s bytes' % (F['n'], show(s.data[1]), show(s.data[0]), show(s.stride)), 'record size %s' % F['n'])
        n += counts(R, P, F, eng, rf, sf)
    presized(R, P)
    return n

def deep(P, cl, F): return 0 if F['n'] in HEAVY else 0

def counts(R, P, F, eng, rf, sf):
    """announced number of records times record length = received words"""
    recvs = [e for e in eng.events if e.kind == 'call' and e.name in RECV]
    ks, where = set(), None
    for r in recvs:
        c = eng.resolve(r.args[1])
        for m, k in terms(c).items():
            if len(m) == 1 and m[0].op in ('sel', 'out') and any(x.op == 'out' and any(x.a[0] == q.seq for q in recvs) for x in subvals(m[0])) and MPI_SIZE.get(mpi_const(r.args[2])) == 8:
                ks.add(k); where = r.where
                if len(terms(c)) > 1: R.violation(r.where, '%s: receives %s words, not a multiple of the announced number of records' % (F['n'], show(c)), 'count %s' % F['n'])
    if not ks: return 0
    ds = set()
    sends = [e for e in eng.events if e.kind == 'call' and e.name in ISEND | BSEND]
    for e, a in all_values(eng):
        for x in subvals(a):
            if x.op == 'idiv' and x.a[1].op == 'num' and is_size(x.a[0]): ds.add(x.a[1].a[0])
    k1, d1 = {k for k in ks if k != 1}, {d for d in ds if d != 1}
    if not d1 and not k1: return 0
    if not d1: return 0
    R.oblige('%s: received number of words' % F['n'], k1 == d1, where, '%s: the number of records announced is the number of words divided by %s, but received are %s words per record'
             % (F['n'], ', '.join(str(d) for d in sorted(d1)), ', '.join(str(k) for k in sorted(ks))), 'count %s' % F['n'])
    for s in sf:
        if s.stride is not None and s.stride.op == 'num' and len(k1) == 1:
            R.oblige('%s: words per record' % F['n'], s.stride.a[0] == 8 * list(k1)[0] , where, '%s: %s words are received per record, the sender puts %s into one'
                     % (F['n'], list(k1)[0], s.stride.a[0] // 8), 'words %s' % F['n'])
    return 1

def is_size(v):
    v2 = v
    return v.op == 'sel' and v.a[1] == ('f', '#n') or v.op in ('init', 'fin', 'mu') and isinstance(v.a[-1], Loc) and v.a[-1].path and v.a[-1].path[-1] == ('f', '#n')

def presized(R, P):
    """buffers of a size both processes work out for themselves"""
    for F in direct(P, {'MPI_Irecv'}):
        eng = trace(R, P, F)
        res = {}
        for e in eng.events:
            if e.kind == 'cont' and e.name in ('resize', 'construct') and e.locs and e.args:
                l = rloc(eng, e.locs[0])
                if l is not None: res.setdefault((l.root, show_path(l)), []).append(e)
        fl = {}
        for s in [e for e in eng.events if e.kind == 'call' and e.name in ISEND | {'MPI_Irecv'}]:
            b = aloc(eng, s.args[0])
            if b is None: continue
            c = container(b)
            for e in res.get((c.root, show_path(c)), []):
                t = eng.resolve(e.args[0])
                names = {field_short2(x) for x in subvals(t) if x.op == 'init' and isinstance(x.a[0], Loc) and x.a[0].root[0] == 'S' and any(q[0] == 'i' for q in x.a[0].path)}
                names.discard(None)
                if len(names) == 1:
                    fac = ZERO
                    for m, k in terms(t).items():
                        r = [x for x in m if not (x.op == 'init' and isinstance(x.a[0], Loc) and field_short2(x) in names and x.a[0].root[0] == 'S')]
                        fac = add(fac, from_terms({tuple(r): k}))
                    fl.setdefault('recv' if s.name == 'MPI_Irecv' else 'send', []).append((list(names)[0], fac, e))
        if 'recv' in fl and 'send' in fl:
            (ns, fs, es), (nr, fr, er) = fl['send'][0], fl['recv'][0]
            R.oblige('%s: record length of buffers' % F['n'], fs is fr, er.where, '%s: the receive buffer has %s bytes per record, the send buffer %s' % (F['n'], show(fr), show(fs)), 'buffer %s' % F['n'])
            # how they are counted
            g = {}
            for f in user_funcs(P):
                if f['n'] == 'main' or f.get('cls') != F.get('cls'): continue
                e2 = trace(R, P, f)
                for e in e2.events:
                    if e.kind == 'write' and e.name in ('++', '+=') and e.locs and isinstance(e.locs[0], Loc):
                        nm = field_short2v(e.locs[0])
                        if nm in (ns, nr): g.setdefault(nm, []).append((e, [e2.resolve(x) for x in guards(e)]))
            def has(gs, what):
                return any(x.op == 'not' or True for x in gs) and any(truth(x, what) for x in gs)
            for nm, what, role in ((ns, 'isOutgoing', 'send'), (nr, 'isIncoming', 'receive')):
                if ns == nr: break
                for e, gs in g.get(nm, []):
                    if any('isOutgoing' in show(x) or 'isIncoming' in show(x) for x in gs):
                        R.oblige('%s: %s packets counted for %s faces' % (F['n'], role, 'outgoing' if role == 'send' else 'incoming'), has(gs, what), e.where,
                                 'the number of packets to %s is counted under %s' % (role, ', '.join(show(x) for x in gs)), 'counted %s' % role)

def truth(x, what):
    """x says that the call holds"""
    if x.op == 'call' and x.a[0].endswith(what): return True
    if x.op == 'lit' and str(x.a[0]).endswith(what): return True
    if x.op == 'not' and x.a[0].op == 'eq0':
        y = x.a[0].a[0]
        return y.op == 'call' and y.a[0].endswith(what)
    return False
def field_short2(x): return field_short2v(x.a[0])
def field_short2v(l):
    fs = [s[1].split('::')[-1] for s in l.path if s[0] == 'f' and not s[1].startswith('#')]
    return fs[-1] if fs else None

# --- face data
def payload(R, P):
    pats = {}
    for F in user_funcs(P):
        if F['n'] == 'main' or not F.get('file', '').startswith(''): continue
        if not any(n.get('k') in ('call', 'mcall', 'opcall') for n in walk(F['body'])): continue
        if not relevant(P, F): continue
        eng = trace(R, P, F)
        for e in eng.events:
            if e.kind != 'write' or not e.args or not isinstance(e.args[0], V) or not e.locs or not isinstance(e.locs[0], Loc): continue
            l = rloc(eng, e.locs[0]); v = eng.resolve(e.args[0])
            if l is None: continue
            src = psi_read(v)
            dst = l if isbound(l) else None
            if src is not None and not ispsi(l):
                pos = index_pattern(eng, l, src[0], src[1])
                if pos: pats.setdefault(e.file, {}).setdefault('send', {}).setdefault(pos, e)
            elif dst is not None and src is None:
                x = [s for s in dst.path if s[0] == 'x'][-1][1]
                r = elem_index(v)
                if r is None: continue
                pos = index_pattern2(eng, r, x)
                if pos: pats.setdefault(e.file, {}).setdefault('recv', {}).setdefault(pos, e)
    n = 0
    for fl, d in sorted(pats.items()):
        if 'send' not in d or 'recv' not in d: continue
        for pr, er in d['recv'].items():
            same = [ps for ps in d['send'] if ps[0] == pr[0]]
            if not same: continue
            n += 1
            R.oblige('%s: order of the face data' % fl.split('/')[-1], pr in d['send'], er.where,
                     'face data is unpacked as %s but packed as %s (%s)' % (pat(pr), ' or '.join(pat(p) for p in same), d['send'][same[0]].where.split('/')[-1]), 'face data order %s' % fl.split('/')[-1])
    return n
def pat(p): return ('element (%s)' if p[0] == 'x' else 'element %s') % ', '.join('%s' % ' + '.join('%s*%s' % (c, n) if c != '1' else n for n, c in q) for q in p[1])
def relevant(P, F):
    return any(n.get('k') == 'pref' or True for n in [F]) and any('PsiBoundData' in str(p['t']) or 'PsiData' in str(p['t']) for p in F['params']) or F.get('cls') in ('SweepData', 'CommSides') or has_psi(F)
def has_psi(F):
    return any(str(n.get('n', '')).split('::')[-1] in ('c_psi', 'c_psiBound') for n in walk(F['body']))
def tuples4(l):
    return [s for s in l.path if s[0] == 'x' and len(s[1]) == 4]
def ispsi(l):
    return bool(tuples4(l))
def isbound(l): return bool(tuples4(l))
def psi_read(v):
    if v.op == 'init' and isinstance(v.a[0], Loc) and tuples4(v.a[0]):
        x = tuples4(v.a[0])[-1][1]
        return x[0], x[1]
    if v.op == 'sel' and v.a[1][0] == 'x' and len(v.a[1][1]) == 4: return v.a[1][1][0], v.a[1][1][1]
    return None
def elem_index(v):
    """index of the element of an array that is read: ('i', poly) or ('x', tuple)"""
    if v.op in ('init', 'uninit') and isinstance(v.a[0], Loc) and v.a[0].path and v.a[0].path[-1][0] in 'ix': return v.a[0].path[-1]
    if v.op == 'sel' and v.a[1][0] in 'ix': return v.a[1]
    return None
def vr(v):
    """the loop symbol that runs over vertices: directly, or as the last argument of a vertex table"""
    if v.op == 'iv': return v
    if v.op == 'call' and 'Vrtx' in v.a[0]:
        v = v.a[-1]
        if v.op == 'iv': return v
    c = [x for x in subvals(v) if x.op == 'iv']
    return c[-1] if len(set(c)) == 1 else None
def turned(v, vi):
    """-1 if the vertex counts down while the loop symbol counts up"""
    if v.op == 'call' and 'Vrtx' in v.a[0]: v = v.a[-1]
    t = terms(v)
    return -1 if all(m in ((), (vi,)) for m in t) and t.get((vi,)) == -1 else 1
def linear(v, names, sg):
    out = {}
    for m, c in terms(v).items():
        k = [x for x in m if x in names]
        if len(k) == 1:
            r = list(m); r.remove(k[0])
            out[names[k[0]]] = show(from_terms({tuple(r): c * (sg if names[k[0]] == 'vertex' else 1)}))
    return tuple(sorted(out.items()))
def index_pattern(eng, l, g, v):
    names = {}
    gi, vi = g if g.op == 'iv' else None, vr(v)
    if gi is None or vi is None or gi is vi: return None
    names[gi] = 'group'; names[vi] = 'vertex'
    sg = turned(v, vi)
    s = l.path[-1] if l.path else None
    if s is None or s[0] not in 'ix': return None
    idx = s[1] if s[0] == 'x' else (s[1],)
    p = tuple(linear(i, names, sg) for i in idx)
    if sum(len(q) for q in p) != 2: return None
    return (s[0] + str(len(idx)), p)
def index_pattern2(eng, r, x):
    gi, vi = x[0] if x[0].op == 'iv' else None, vr(x[1])
    if gi is None or vi is None or gi is vi: return None
    names = {gi: 'group', vi: 'vertex'}
    sg = turned(x[1], vi)
    idx = r[1] if r[0] == 'x' else (r[1],)
    p = tuple(linear(i, names, sg) for i in idx)
    if sum(len(q) for q in p) != 2: return None
    return (r[0] + str(len(idx)), p)
