"""Closed forms of what loop nests leave in arrays and scalars.

elem(content, index) gives the value of one array element after any loops that
wrote it, as a formula over initial contents, with sums over loop indices as
order-free atoms; anything that cannot be closed keeps a loop symbol, and
closed() tells.  Deciding rules only compare closed formulas."""
from .vals import *
from . import vals
from .engine import *
from fractions import Fraction

BAD = {'mu', 'fin', 'prev', 'iv', 'havoc', 'bigadd', 'bigmul', 'uninit', 'rstore', 'sorted', 'append', 'resized'}

NTHREADS = mk('sym', 'nthreads')

class Den(object):
    def __init__(self, eng, ranges=None):
        self.eng = eng
        self.ranges = dict(ranges or {})      # symbol -> extent
        self.memo = {}
        self.busy = set()
        self.wsres = set(); self.share = False

    def loop(self, n):
        m = getattr(self.eng, '_lmap', None)
        if m is None or len(m) != len(self.eng.loops): m = self.eng._lmap = {L.n: L for L in self.eng.loops}
        return m.get(n)

    # ------------------------------------------------------------ elements
    def elem(self, v, t):
        k = (v, t)
        if k in self.memo: return self.memo[k]
        if k in self.busy: return mk('sel', v, t)
        self.busy.add(k)
        r = self._elem(v, t)
        self.busy.discard(k)
        self.memo[k] = r
        return r

    def _elem(self, v, t):
        o = v.op
        if o == 'store':
            s = self.ssel(v.a[1])
            if s[0] != t[0] or len(s) != len(t): return mk('sel', v, t)
            xs = s[1] if s[0] == 'x' else (s[1],)
            ys = t[1] if t[0] == 'x' else (t[1],)
            if len(xs) != len(ys): return mk('sel', v, t)
            c = band(*[eq0(sub(x, y)) for x, y in zip(xs, ys)])
            if c is FALSE: return self.elem(v.a[0], t)
            val = self.scal(v.a[2])
            if c is TRUE: return val
            val = self.use_eqs(c, val)
            return ite(c, val, self.elem(v.a[0], t))
        if o == 'fill': return self.scal(v.a[0])
        if o == 'zeroed': return ZERO
        if o == 'ite': return ite(self.scal(v.a[0]), self.elem(v.a[1], t), self.elem(v.a[2], t))
        if o == 'mu': return mk('prev', v.a[0], v.a[1], t)
        if o == 'fin':
            L = self.loop(v.a[0])
            if L is None or v.a[1] not in L.next: return mk('sel', v, t)
            base = self.elem(L.init[v.a[1]], t)
            E_ = self.elem(L.next[v.a[1]], t)
            return self.close(L, E_, mk('prev', L.n, v.a[1], t), base)
        if o == 'init':
            l = v.a[0]
            return mk('init', mkloc(l.root, l.path + (t,)))
        if o == 'listinit' and t[0] == 'i' and t[1].op == 'num' and 0 <= t[1].a[0] < len(v.a[0]): return self.scal(v.a[0][int(t[1].a[0])])
        if o == 'sel':
            b = v.a[0]
            # element of an element
            return mk('sel', self.scal(v), t)
        return mk('sel', v, t)

    def ssel(self, s):
        if s[0] == 'i': return ('i', self.scal(s[1]))
        if s[0] == 'x': return ('x', tuple(self.scal(x) for x in s[1]))
        return s

    def use_eqs(self, c, val):
        """substitute loop indices that an equality in c fixes"""
        m = {}
        for x in lits(c):
            e = self.iv_eq(x, m)
            if e: m[e[0]] = e[1]
        return self.scal(self.eng.subst(val, m)) if m else val

    def iv_eq(self, x, m):
        """x is an equality that fixes an iv -> (iv, value)"""
        if x.op != 'eq0': return None
        p = x.a[0]
        t = terms(p)
        for mono, c in sorted(t.items(), key=lambda kv: -max([y.a[0] for y in kv[0] if y.op == 'iv'] or [-1])):
            if len(mono) == 1 and mono[0].op == 'iv' and c in (1, -1) and mono[0] not in m:
                iv = mono[0]
                rest = scale(sub(p, scale(iv, c)), -c)
                if not any(y is iv for y in subvals(rest)): return (iv, rest)
        return None

    # -------------------------------------------------------------- scalars
    def scal(self, v):
        k = ('s', v)
        r = self.memo.get(k)
        if r is not None: return r
        if k in self.busy: return v
        self.busy.add(k)
        r = self._scal(v)
        self.busy.discard(k)
        self.memo[k] = r
        return r

    def _scal(self, v):
        v = self.eng.resolve(v)
        o = v.op
        if o in ('num', 'str', 'fn', 'iv', 'sym', 'prev', 'bv', 'mu', 'out', 'havoc'): return v
        if o == 'sel': return self.elem(v.a[0], self.ssel(v.a[1])) if v.a[1][0] != 'f' else v
        if o == 'fin':
            L = self.loop(v.a[0])
            if L is None or v.a[1] not in L.next: return v
            base = self.scal(L.init[v.a[1]])
            return self.close(L, self.scal(L.next[v.a[1]]), mk('mu', L.n, v.a[1]), base)
        if o == 'poly':
            r = ZERO
            for m, c in v.a[0]:
                t = num(c)
                for x in m: t = mul(t, self.scal(x))
                r = add(r, t)
            return r
        if o in ('init', 'addr', 'uninit'):
            l = v.a[0]
            if not isinstance(l, Loc): return v
            p = tuple(self.ssel(s) for s in l.path)
            return mk(o, mkloc(l.root, p)) if p != l.path else v
        if o == 'reduced':
            old, new = self.scal(v.a[1]), self.scal(v.a[2])
            red = [x for x in subvals(new) if x.op == 'sym' and x.a[0] == 'red']
            if len(red) == 1:
                if v.a[0] == '+' and not self.has(sub(new, red[0]), red[0]): return add(old, sub(new, red[0]))
                if v.a[0] == 'max' and new.op == 'max' and red[0] in new.a: return mkmax(old, *[x for x in new.a if x is not red[0]])
            return mk('reduced', v.a[0], old, new)
        na = []; ch = False
        for x in v.a:
            if isinstance(x, V): y = self.scal(x)
            elif isinstance(x, tuple) and x and isinstance(x[0], V): y = tuple(self.scal(z) if isinstance(z, V) else z for z in x)
            else: y = x
            if y is not x: ch = True
            na.append(y)
        return self.eng.rebuild(o, na) if ch else v

    # ---------------------------------------------------------- closing loops
    def has(self, v, x): return any(y is x for y in subvals(v))

    def close(self, L, e, X, base):
        """value after loop L of a variable whose one-iteration update is e (X: value before)"""
        if L.kind == 'omp' and e in self.wsres:
            return self.scal(self.eng.subst(e, {X: base})) if self.has(e, X) else e
        if L.omp is not None:
            loc = X.a[1]
            shared = any(P.kind == 'omp' and P.n < L.n and loc in P.next for P in self.eng.loops)
            save, self.share = self.share, not shared
            try: r = self.close1(L, e, X, base)
            finally: self.share = save
            if shared and r is not base: self.wsres.add(r)
            return r
        return self.close1(L, e, X, base)

    def close1(self, L, e, X, base):
        if e is X: return base
        stuck = mk('fin', L.n, X, e)
        cnt = L.count
        if cnt is None or L.early: return stuck
        cnt = self.scal(cnt)
        if self.has(cnt, L.iv): return stuck
        if e.op == 'ite':
            c, a, b = e.a
            if a is X: c, a, b = bnot(c), b, a
            if b is X:
                # at most one iteration?
                for x in lits(c):
                    q = self.iv_eq(x, {}) if self.has(x, L.iv) else None
                    if q is None or q[0] is not L.iv:
                        q = self.iv_eq_for(x, L.iv)
                    if q:
                        at = q[1]
                        rest = band(*[y for y in lits(c) if y is not x])
                        rest = self.scal(self.eng.subst(rest, {L.iv: at})) if rest is not TRUE else TRUE
                        val = self.scal(self.eng.subst(a, {L.iv: at}))
                        if self.has(rest, X): return stuck
                        val = self.eng.subst(val, {X: base}) if self.has(val, X) else val
                        rng = self.inrange(at, cnt)
                        return ite(band(rest, rng), self.scal(val), base)
                inv_ = [y for y in lits(c) if not self.has(y, L.iv) and not self.has(y, X)]
                dep = [y for y in lits(c) if y not in inv_]
                if inv_:
                    inner = ite(band(*dep), a, X) if dep else a
                    r = self.close1(L, inner, X, base)
                    return ite(band(*inv_), r, base)
                # maximum: c is  a > X
                if len(dep) == 1 and dep[0].op in ('gt0', 'ge0', 'fge0') and not self.has(a, X):
                    d = sub(dep[0].a[0], sub(a, X))
                    if d is ZERO or d.op == 'num': return self.rmax(L, a, base, cnt)
                if not any(self.has(y, X) for y in dep):
                    d = sub(a, X)
                    if not self.has(d, X):    # conditional accumulation
                        return add(base, self.sum(L, ite(c, d, ZERO), cnt))
                return stuck
            if not self.has(c, L.iv) and not self.has(c, X):
                return ite(c, self.close1(L, a, X, base), self.close1(L, b, X, base))
            d1, d2 = sub(a, X), sub(b, X)
            if not self.has(d1, X) and not self.has(d2, X) and not self.has(c, X):
                return add(base, self.sum(L, ite(c, d1, d2), cnt))
            return stuck
        if not self.has(e, X):
            if not self.has(e, L.iv):
                if self.positive(cnt): return e
                return ite(ge0(sub(cnt, ONE)), e, base)
            return self.scal(self.eng.subst(e, {L.iv: sub(cnt, ONE)})) if self.positive(cnt) else stuck
        if e.op == 'call' and e.a[0] in ('std::max', 'max', 'fmax') and X in e.a[1:]:
            o = [y for y in e.a[1:] if y is not X]
            if len(o) == 1 and not self.has(o[0], X): return self.rmax(L, o[0], base, cnt)
        if e.op == 'max' and X in e.a:
            r = base
            for y in e.a:
                if y is X: continue
                if self.has(y, X): return stuck
                r = mkmax(r, self.rmax(L, y, base, cnt)) if self.has(y, L.iv) else mkmax(r, y)
            return r
        d = sub(e, X)
        if not self.has(d, X): return add(base, self.sum(L, d, cnt))
        return stuck

    def iv_eq_for(self, x, iv):
        if x.op != 'eq0': return None
        p = x.a[0]
        c = terms(p).get((iv,), 0)
        if c not in (1, -1): return None
        rest = scale(sub(p, scale(iv, c)), -c)
        return None if self.has(rest, iv) else (iv, rest)

    def positive(self, cnt):
        if cnt.op == 'num': return cnt.a[0] > 0
        if cnt is NTHREADS: return True
        return any(e is cnt for e in self.ranges.values()) or is_ext(cnt)

    def inrange(self, at, cnt):
        if at.op == 'num' and cnt.op == 'num': return TRUE if 0 <= at.a[0] < cnt.a[0] else FALSE
        if at.op == 'num' and at.a[0] == 0 and self.positive(cnt): return TRUE
        if self.extent(at) is cnt: return TRUE
        return band(ge0(at), ge0(sub(sub(cnt, at), ONE)))

    def extent(self, v):
        if v.op == 'bv': return v.a[0]
        if v.op == 'iv':
            L = self.loop(v.a[0])
            return self.scal(L.count) if L is not None and L.count is not None else None
        return self.ranges.get(v)

    def bv(self, L, cnt, body):
        k = 0
        used = {x.a[1] for x in subvals(body) if x.op == 'bv' and x.a[0] is cnt}
        while k in used: k += 1
        b = mk('bv', cnt, k)
        return b, self.scal(self.eng.subst(body, {L.iv: b}))

    def sum(self, L, d, cnt):
        b, body = self.bv(L, cnt, d)
        r = mksum(b, body)
        # a thread does its share of a work-sharing loop
        return mul(r, inv(NTHREADS)) if self.share and L.omp is not None else r

    def rmax(self, L, a, base, cnt):
        b, body = self.bv(L, cnt, a)
        if body.op == 'rmax': bs, args = body.a[0], body.a[1]
        elif body.op == 'max': return mk('fin', L.n, a, base)
        else: bs, args = (), (body,)
        it = tuple(sorted(set(bs) | ({b} if any(self.has(x, b) for x in args) else set()), key=lambda x: x.id))
        r = mk('rmax', it, args) if it else args[0]
        return mkmax(base, r)

def is_ext(v):
    return v.op == 'init' and isinstance(v.a[0], Loc) and v.a[0].root[0] == 'G'

def mkmax(*xs):
    out = []
    for x in xs:
        if x.op == 'max': out += list(x.a)
        else: out.append(x)
    out = sorted(set(out), key=lambda v: v.id)
    return out[0] if len(out) == 1 else mk('max', *out)

def mksum(b, body):
    """sum of body over the index b, linear parts pulled out"""
    r = ZERO
    if body.op == 'ite' and not any(y is b for y in subvals(body.a[0])):
        return ite(body.a[0], mksum(b, body.a[1]), mksum(b, body.a[2]))
    for m, c in terms(body).items():
        dep = [x for x in m if any(y is b for y in subvals(x))]
        ind = [x for x in m if x not in dep]
        if not dep: s = b.a[0]
        else:
            bs = [b]
            inner = []
            for x in dep:
                if x.op == 'sum' and not (set(x.a[0]) & set(bs)): bs += list(x.a[0]); inner.append(x.a[1])
                else: inner.append(x)
            p = ONE
            for x in inner: p = mul(p, x)
            s = mk('sum', tuple(sorted(bs, key=lambda x: x.id)), p)
        t = mul(num(c), s)
        for x in ind: t = mul(t, x)
        r = add(r, t)
    return r

def closed(v):
    return not any(x.op in BAD or (x.op == 'sel') for x in subvals(v))

def approx(a, b, tol=1e-13):
    """equal formulas up to rounding of numeric coefficients"""
    if a is b: return True
    if a.op == 'poly' or b.op == 'poly' or (a.op == 'num' and b.op == 'num'):
        ta, tb = terms(a), terms(b)
        if len(ta) != len(tb): return False
        for m, c in ta.items():
            c2 = tb.get(m)
            if c2 is None:
                for m2 in tb:
                    if len(m2) == len(m) and all(approx(x, y, tol) for x, y in zip(m, m2)): c2 = tb[m2]; break
            if c2 is None: return False
            if abs(float(c) - float(c2)) > tol * max(1e-300, abs(float(c)), abs(float(c2))): return False
        return True
    if a.op != b.op or len(a.a) != len(b.a): return False
    for x, y in zip(a.a, b.a):
        if isinstance(x, V) and isinstance(y, V):
            if not approx(x, y, tol): return False
        elif isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y): return False
            for p, q in zip(x, y):
                if isinstance(p, V) and isinstance(q, V):
                    if not approx(p, q, tol): return False
                elif p != q: return False
        elif x != y and x is not y: return False
    return True
