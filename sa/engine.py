"""Gated value-flow analysis of the resolved program.

Walks the syntax tree of an entry function, following calls into every user
function, with one summary pass over each loop body (values that a loop changes
become loop symbols).  At control-flow joins values are merged under their
gating condition.  The result is a list of events (calls of library functions,
writes, reads in parallel regions, container operations), each with normal-form
argument values and its control context.
"""
import sys
from .vals import *
from . import vals
from .prog import AnalysisBroken, Type, VOIDT, walk, Node

sys.setrecursionlimit(20000)

# ---------------------------------------------------------------- locations
class Loc(object):
    __slots__ = ('root', 'path', 'id', 'kids')
    def __repr__(self):
        r = self.root
        s = {'L': lambda: str(r[3]), 'G': lambda: str(r[2]), 'H': lambda: 'new@%s' % (r[3],), 'P': lambda: str(r[1]),
             'D': lambda: '*(%s)' % show(r[1], 3), 'T': lambda: 'tmp', 'S': lambda: 'this:%s' % r[1]}.get(r[0], lambda: str(r))()
        for x in self.path:
            if x[0] == 'f': s += '.' + x[1].split('::')[-1]
            elif x[0] == 'i': s += '[%s]' % show(x[1], 4)
            else: s += '(%s)' % ', '.join(show(y, 4) for y in x[1])
        return s

_roots = {}
_locs = {}
def root(*k):
    r = _roots.get(k)
    if r is None: r = _roots[k] = k
    return r
def mkloc(rt, path=()):
    k = (id(rt), path)
    l = _locs.get(k)
    if l is None:
        l = Loc(); l.root = rt; l.path = path; l.id = len(_locs); l.kids = []
        _locs[k] = l
        if path:
            p = mkloc(rt, path[:-1])
            if path[-1][0] == 'f': p.kids.append(l)
    return l
def sub_loc(l, sel):
    if isinstance(l, CondLoc): return CondLoc(l.c, sub_loc(l.a, sel), sub_loc(l.b, sel))
    return mkloc(l.root, l.path + (sel,))
def fld(l, f): return sub_loc(l, ('f', f))
def elem(l, *idx):
    return sub_loc(l, ('i', idx[0]) if len(idx) == 1 else ('x', tuple(idx)))
def base_of(l):
    """the longest prefix without an index"""
    for i, s in enumerate(l.path):
        if s[0] != 'f': return mkloc(l.root, l.path[:i]), l.path[i:]
    return l, ()
class CondLoc(object):
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
    def __repr__(self): return 'cond(%s,%s,%s)' % (show(self.c), self.a, self.b)

vals.LOC = (Loc, CondLoc)
def addr(l):
    if isinstance(l, CondLoc): return ite(l.c, addr(l.a), addr(l.b))
    return mk('addr', l)

def loc_vals(l):
    for s in l.path:
        if s[0] == 'i': yield s[1]
        elif s[0] == 'x':
            for y in s[1]: yield y

def cont_loc(v):
    """the location whose content a value descends from, or None"""
    while True:
        o = v.op
        if o in ('init', 'uninit'): return v.a[0]
        if o in ('mu', 'fin'): return v.a[1]
        if o in ('store', 'upd', 'rstore', 'resized', 'sorted', 'rinsert', 'minsert', 'popped', 'pushed', 'erased'): v = v.a[0]; continue
        if o == 'sel':
            b = cont_loc(v.a[0])
            return None if b is None else mkloc(b.root, b.path + (v.a[1],))
        if o == 'havoc': return v.a[1]
        if o == 'append': v = v.a[0]; continue
        if o == 'out': return v.a[2] if len(v.a) > 2 and isinstance(v.a[2], Loc) else None
        if o == 'ite':
            x = cont_loc(v.a[1]); y = cont_loc(v.a[2])
            return x if x is y else None
        return None

# ------------------------------------------------------------------- frames
class Frame(object):
    __slots__ = ('up', 'kind', 'a', 'depth')
    def __init__(self, up, kind, a):
        self.up = up; self.kind = kind; self.a = a; self.depth = up.depth + 1 if up else 0
def frames(ctx):
    out = []
    while ctx is not None:
        out.append(ctx); ctx = ctx.up
    out.reverse()
    return out

class Loop(object):
    __slots__ = ('key', 'node', 'fn', 'kind', 'mu', 'init', 'next', 'cond', 'iv', 'count', 'line', 'file', 'early', 'inner',
                 'mods', 'omp', 'rng', 'n', 'exitv', 'pcond', 'exits')
    def __repr__(self): return 'loop@%s:%s' % (self.file.split('/')[-1] if self.file else '', self.line)

class Omp(object):
    __slots__ = ('dk', 'cl', 'line', 'file', 'name', 'n', 'decl', 'body')
    def __repr__(self): return 'omp %s@%s' % (self.dk, self.line)
    def clause(self, ck): return [c for c in self.cl if c['ck'] == ck]

class Call(object):
    __slots__ = ('fn', 'name', 'line', 'file', 'args', 'this', 'node')
    def __repr__(self): return 'call %s@%s' % (self.name, self.line)

class Ev(object):
    __slots__ = ('kind', 'name', 'args', 'locs', 'ctx', 'line', 'file', 'fn', 'seq', 'x', 'ret', 'cp')
    def __repr__(self): return '<%s %s(%s) %s:%s>' % (self.kind, self.name, ', '.join(show(a, 5) if isinstance(a, V) else str(a) for a in self.args), self.file.split('/')[-1] if self.file else '', self.line)
    @property
    def where(self): return '%s:%s' % (self.file, self.line)

class Dead(Exception):
    pass

class St(object):
    __slots__ = ('d', 'up', 'ctx')
    def __init__(self, up, ctx): self.d = {}; self.up = up; self.ctx = ctx

TOMB = object()
DEBUG = 0
_same = {}

class Env(object):
    """one activation of a function"""
    __slots__ = ('vars', 'F', 'rets', 'this', 'scopes', 'isref', 'loops', 'sw')
    def __init__(self): self.vars = {}; self.rets = []; self.this = None; self.scopes = []; self.loops = []

class BreakCtx(object):
    __slots__ = ('brk', 'cont', 'isloop', 'nscopes')
    def __init__(self, isloop, ns): self.brk = []; self.cont = []; self.isloop = isloop; self.nscopes = ns

PURE = {'sqrt', 'fabs', 'abs', 'pow', 'exp', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'floor', 'ceil', 'log', 'std::sqrt',
        'std::fabs', 'std::abs', 'std::pow', 'std::exp', 'std::sin', 'std::cos', 'std::acos', 'std::floor', 'std::ceil', 'std::log', 'isnan', 'std::isnan',
        'strcmp', 'strncmp', 'strlen', 'toupper', 'tolower', 'isspace', 'atan2', 'std::atan2', 'round', 'std::round', 'trunc', 'fmod',
        'memcmp'}
NORET = {'abort', 'exit', 'MPI_Abort', '__assert_fail', '_exit', 'std::abort', 'std::exit', 'std::terminate', '__assert', 'quick_exit'}
COPYLIKE = {'std::move', 'std::forward', 'std::ref', 'std::cref'}

class Engine(object):
    def __init__(self, prog, opaque=(), abstract=True, read_events=False, max_depth=40, callbacks=True, write_events=True, pure=(), noinline=(), virtual_opaque=False, indirect=True):
        self.virtual_opaque = virtual_opaque
        self.indirect = indirect
        self.prog = prog
        self.opaque = set(opaque)          # qualified names of pure observers
        self.noinline = set(noinline)      # user functions kept as events
        self.pure = set(pure)
        self.abstract = abstract
        self.read_events = read_events
        self.write_events = write_events
        self.max_depth = max_depth
        self.events = []
        self.lmap = {}; self.loops = []
        self.st = None
        self.env = None
        self.cp = None
        self.cps = {}
        self.depth = 0
        self.active = []
        self.pending = []          # outstanding captured states
        self.modstack = []         # sets of modified base locations
        self.declstack = []
        self.modcache = {}
        self.res = {}              # resolved loop symbols
        self.resgen = 0
        self.resmemo = {}
        self.unknown = {}
        self.callbacks = []        # function values handed to libraries
        self.ctxobj = {}           # Mat/PETSc shell contexts
        self.calls = set()
        self.nloop = 0
        self.line = 0; self.file = ''
        self.inpar = 0
        self.noevents = 0
        self.absrec = {}
        self._effect = {}
        self._assigned = {}
        self.funcs_seen = set()
        self.declcls = {}
        self.casts = None          # conversions between integers of different widths
        from . import model
        self.model = model

    # ---------------------------------------------------------------- utils
    def note(self, what): self.unknown[what] = self.unknown.get(what, 0) + 1

    def is_abstract(self, rn):
        """a user class that is an indexed container: its operator() takes only
        integers and gives a reference"""
        if not self.abstract or rn is None: return False
        r = self.absrec.get(rn)
        if r is None:
            r = False
            rec = self.prog.recs.get(rn)
            if rec:
                for m in rec['methods']:
                    if m['n'] in ('operator()', 'operator[]'):
                        f = self.prog.funcs.get(m['u'])
                        if f and f['ret'].k == 'ref' and f['params'] and all(p['t'].isint for p in f['params']): r = True
            self.absrec[rn] = r
        return r

    def emit(self, kind, name, args=(), locs=(), node=None, **x):
        e = Ev(); e.kind = kind; e.name = name; e.args = list(args); e.locs = list(locs); e.ctx = self.st.ctx
        e.line = node.get('l', self.line) if node is not None else self.line
        if node is not None: e.file = node.file
        else: e.file = self.file
        e.fn = self.env.F['n'] if self.env and self.env.F is not None else ''
        e.seq = len(self.events); e.x = x; e.ret = None; e.cp = self.cp
        self.events.append(e)
        return e

    # ---------------------------------------------------------------- state
    def lookup(self, st, l):
        while st is not None:
            v = st.d.get(l)
            if v is not None: return v
            st = st.up
        return None

    def get(self, st, l):
        """content of a base location"""
        sels = []
        x = l
        while True:
            v = self.lookup(st, x)
            if v is not None and v is not TOMB: break
            if not x.path:
                return mk('init', l)
            sels.append(x.path[-1]); x = mkloc(x.root, x.path[:-1])
        for s in reversed(sels): v = self.project(v, s)
        return v

    def full(self, st, l):
        """content of a base location, including parts written separately"""
        v = self.get(st, l)
        return self._over(st, l, v)
    def _over(self, st, l, v):
        for k in sorted(l.kids, key=lambda z: str(z.path[-1][1])):
            w = self.lookup(st, k)
            if w is None or w is TOMB:
                if w is TOMB: continue
                if not k.kids: continue
                b = self.project(v, k.path[-1])
                w2 = self._over(st, k, b)
                if w2 is not b: v = mk('upd', v, k.path[-1], w2)
                continue
            w = self._over(st, k, w)
            v = mk('upd', v, k.path[-1], w)
        return v

    def same(self, s, t):
        k = (s, t)
        r = _same.get(k, 0)
        if r == 0: r = _same[k] = self._same1(s, t)
        return r
    def _same1(self, s, t):
        """True, False or None (unknown) for two index selectors"""
        if s == t: return True
        if s[0] != t[0]: return None if {s[0], t[0]} == {'i', 'x'} else False
        if s[0] == 'f': return s[1] == t[1]
        xs = (s[1],) if s[0] == 'i' else s[1]
        ys = (t[1],) if t[0] == 'i' else t[1]
        if len(xs) != len(ys): return None
        unk = False
        for x, y in zip(xs, ys):
            if x is y: continue
            d = sub(x, y) if x.op not in ('str', 'addr') and y.op not in ('str', 'addr') else None
            if d is not None and d.op == 'num':
                if d.a[0] != 0: return False
            elif x.op == 'str' and y.op == 'str' and x is not y: return False
            else: unk = True
        return None if unk else True

    def project(self, v, s):
        n = 0
        while True:
            o = v.op
            if o == 'upd':
                if s[0] == 'f':
                    if v.a[1] == s: return v.a[2]
                    v = v.a[0]; continue
                v = v.a[0]; continue
            if o == 'store':
                r = self.same(v.a[1], s)
                if r is True: return v.a[2]
                n += 1
                if r is False and n < 300: v = v.a[0]; continue
                return mk('sel', v, s)
            if o == 'fill':
                if s[0] != 'f': return v.a[0]
                return mk('sel', v, s)
            if o == 'zeroed':
                if s == ('f', '#n'): return ZERO
                return mk('zeroed') if s[0] == 'f' else ZERO
            if o == 'rstore' and s[0] != 'f' and v.a[3].op == 'num' and s[0] == 'i':
                d = sub(s[1], v.a[1])
                if d.op == 'num' and not (0 <= d.a[0] < v.a[3].a[0]): v = v.a[0]; continue
                return mk('sel', v, s)
            if o in ('resized', 'sorted', 'rinsert', 'minsert') and s[0] == 'f': return mk('sel', v, s)
            if o == 'init':
                l = v.a[0]
                return mk('init', mkloc(l.root, l.path + (s,)))
            if o == 'uninit':
                l = v.a[0]
                return mk('uninit', mkloc(l.root, l.path + (s,)))
            if o == 'ite':
                return ite(v.a[0], self.project(v.a[1], s), self.project(v.a[2], s))
            if o == 'listinit':
                if s[0] == 'i' and s[1].op == 'num' and 0 <= s[1].a[0] < len(v.a[0]): return v.a[0][int(s[1].a[0])]
                return mk('sel', v, s)
            return mk('sel', v, s)

    def read(self, l):
        if isinstance(l, CondLoc):
            return ite(l.c, self.read(l.a), self.read(l.b))
        b, rest = base_of(l)
        if not rest:
            v = self.full(self.st, b) if b.kids else self.get(self.st, b)
            if v.op == 'init' and b.root[0] == 'G' and not b.path and v.a[0] is b:
                g = self.prog.globals.get(b.root[1])
                if g and g['t'].const and g.get('init') is not None: v = self.const_global(b.root[1], g) or v
        else:
            v = self.get(self.st, b)
            for s in rest: v = self.project(v, s)
        if self.read_events and self.inpar and not self.noevents:
            self.emit('read', '', [v], [l])
        return v

    def peek(self, l):
        s = self.read_events; self.read_events = False
        try: return self.read(l)
        finally: self.read_events = s

    def setv(self, st, b, v):
        """overwrite a base location"""
        st.d[b] = v
        self._tomb(st, b)
    def _tomb(self, st, b):
        for k in b.kids:
            if self.lookup(st, k) is not None: st.d[k] = TOMB
            if k.kids: self._tomb(st, k)

    def _put(self, v, rest, val):
        if not rest: return val
        s = rest[0]
        if len(rest) == 1: nv = val
        else: nv = self._put(self.project(v, s), rest[1:], val)
        if s[0] == 'f':
            # replace an earlier update of the same field
            if v.op == 'upd' and v.a[1] == s: v = v.a[0]
            return mk('upd', v, s, nv)
        if v.op == 'store' and self.same(v.a[1], s) is True: v = v.a[0]
        return mk('store', v, s, nv)

    def write(self, l, val, node=None, op='='):
        if isinstance(l, CondLoc):
            self.write(l.a, ite(l.c, val, self.peek(l.a)), node, op)
            self.write(l.b, ite(l.c, self.peek(l.b), val), node, op)
            return
        b, rest = base_of(l)
        if (self.write_events or self.inpar) and not self.noevents:
            self.emit('write', op, [val], [l], node)
        if rest:
            v = self._put(self.get(self.st, b), rest, val)
            self.st.d[b] = v
        else:
            self.setv(self.st, b, val)
        if self.modstack: self.modstack[-1].add(b)

    def quiet_write(self, l, val):
        self.noevents += 1
        try: self.write(l, val)
        finally: self.noevents -= 1
    noev_set_up = quiet_write

    def havoc(self, l, tag, node=None):
        if isinstance(l, CondLoc):
            self.havoc(l.a, tag, node); self.havoc(l.b, tag, node); return
        self.write(l, mk('havoc', tag, l), node, 'havoc')

    # ---------------------------------------------------------- fork & join
    def fork(self, st, kind=None, c=None):
        return St(st, Frame(st.ctx, kind, c) if kind else st.ctx)

    def pc(self, ctx, base):
        """condition under which control is at ctx, seen from base"""
        cs = []
        f = ctx
        stack = []
        while f is not base and f is not None:
            stack.append(f); f = f.up
        stack.reverse()
        i = 0
        for i, f in enumerate(stack):
            if f.kind in ('if', 'assume'): cs.append(f.a)
            elif f.kind == 'loop':
                inner = [g.a for g in stack[i + 1:] if g.kind in ('if', 'assume')]
                cs.append(mk('lit', 'exits', f.a.n, band(*inner)))
                break
        return band(*cs)

    def asserts_between(self, ctx, base):
        out = []
        f = ctx
        while f is not base and f is not None:
            if f.kind == 'loop': out = []
            if f.kind in ('assert',): out.append(f)
            f = f.up
        out.reverse()
        return out

    def chain_has(self, st, base):
        while st is not None:
            if st is base: return True
            st = st.up
        return False

    def join(self, base, items, pcs=None):
        """items: live states derived from base; the last is the default.
        Returns a state that continues base, with base's context."""
        keys = {}
        for s in items:
            x = s
            while x is not base:
                if x is None: raise AnalysisBroken('join: base not found')
                for k in x.d: keys[k] = True
                x = x.up
        need_new = any(self.chain_has(p, base) for p in self.pending if p not in items)
        if pcs is None: pcs = [self.pc(s.ctx, base.ctx) for s in items]
        out = {}
        for k in keys:
            raw = [self.lookup(s, k) for s in items]
            if all(r is raw[0] for r in raw): 
                if raw[0] is not None: out[k] = raw[0]
                continue
            if all(r is None or r is TOMB for r in raw):
                out[k] = TOMB; continue
            vs = [self.get(s, k) for s in items]
            v = vs[-1]
            for c, w in zip(reversed(pcs[:-1]), reversed(vs[:-1])): v = self.vite(c, w, v)
            out[k] = v
        if need_new:
            r = St(base, base.ctx)
            r.d.update(out)
        else:
            r = base
            r.d.update(out)
        return r

    def vite(self, c, a, b):
        """merge of two contents; a few store steps are merged inside"""
        if a is b: return a
        if a.op == 'store' and b.op == 'store' and a.a[1] == b.a[1] and a.a[0] is b.a[0]:
            return mk('store', a.a[0], a.a[1], self.vite(c, a.a[2], b.a[2]))
        if a.op == 'store' and a.a[0] is b:
            return mk('store', b, a.a[1], self.vite(c, a.a[2], self.project(b, a.a[1])))
        if b.op == 'store' and b.a[0] is a:
            return mk('store', a, b.a[1], self.vite(c, self.project(a, b.a[1]), b.a[2]))
        if a.op == 'upd' and b.op == 'upd' and a.a[1] == b.a[1] and a.a[0] is b.a[0]:
            return mk('upd', a.a[0], a.a[1], self.vite(c, a.a[2], b.a[2]))
        return ite(c, a, b)

    def settle(self, base, live, died=True, abort=False):
        """join the live states back onto base; note what is known if others ended"""
        if not live: raise Dead()
        base_ctx = base.ctx
        pcs = [self.pc(s.ctx, base_ctx) for s in live]
        asserts = self.asserts_between(live[0].ctx, base_ctx) if len(live) == 1 else self._common_asserts(live, base_ctx)
        st = self.join(base, live, pcs)
        c = bor(*pcs)
        ctx = base_ctx
        if c is not TRUE:
            ctx = Frame(ctx, 'assert' if abort else 'assume', c)
        for f in asserts: ctx = Frame(ctx, 'assert', f.a)
        st.ctx = ctx
        self.st = st
        return st

    def _common_asserts(self, live, base_ctx):
        ls = [[f.a for f in self.asserts_between(s.ctx, base_ctx)] for s in live]
        com = [a for a in ls[0] if all(a in l for l in ls[1:])]
        class F: pass
        out = []
        for a in com:
            f = F(); f.a = a; out.append(f)
        return out

    # ------------------------------------------------------------ resolving
    def resolve(self, v):
        """replace loop symbols by what is known about them"""
        if not self.res: return v
        memo = self.resmemo
        return self._resolve(v, memo)
    def _resolve(self, v, memo):
        r = memo.get(v)
        if r is not None: return r
        o = v.op
        if o == 'num' or o == 'str' or o == 'fn': r = v
        elif v in self.res:
            memo[v] = v
            r = self._resolve(self.res[v], memo)
        elif o in ('mu', 'fin', 'out', 'havoc', 'iv', 'sym'): r = v
        elif o == 'poly':
            r = ZERO; ch = False
            parts = []
            for m, c in v.a[0]:
                ms = [self._resolve(x, memo) for x in m]
                if any(x is not y for x, y in zip(ms, m)): ch = True
                parts.append((ms, c))
            if not ch: r = v
            else:
                for ms, c in parts:
                    t = num(c)
                    for x in ms: t = mul(t, x)
                    r = add(r, t)
        elif o in ('init', 'uninit', 'addr'):
            l = v.a[0]
            if isinstance(l, Loc):
                l2 = self.resolve_loc(l)
                r = v if l2 is l else mk(o, l2)
            else: r = v
        else:
            na = []; ch = False
            for x in v.a:
                if isinstance(x, V):
                    y = self._resolve(x, memo)
                elif isinstance(x, tuple): y = self._rtuple(x, memo)
                else: y = x
                if y is not x: ch = True
                na.append(y)
            r = v if not ch else self.rebuild(o, na)
            if r.op == 'sel':
                q = self.framed(r)
                if q is not r: r = self._resolve(q, memo)
        memo[v] = r
        return r
    def framed(self, v):
        """a part of an object that a loop leaves alone has the value from before the loop"""
        path = []
        x = v
        while x.op == 'sel': path.append(x.a[1]); x = x.a[0]
        if x.op not in ('mu', 'fin') or not isinstance(x.a[0], int): return v
        L = self.lmap.get(x.a[0])
        if L is None: return v
        l = x.a[1]
        nx, m = L.next.get(l), L.mu.get(l)
        if nx is None or m is None: return v
        path.reverse()
        if not any(s[0] == 'f' for s in path): return v
        if not self.untouched(nx, m, path): return v
        r = L.init[l]
        for s in path: r = self.project(r, s)
        return r
    def untouched(self, v, m, path):
        n = 0
        while True:
            if v is m: return True
            if not path: return False
            n += 1
            if n > 400: return False
            o = v.op; s = path[0]
            if o == 'store' and s[0] != 'f' or o == 'upd' and s[0] == 'f':
                k = v.a[1]
                eq = (k == s) if o == 'upd' else self.same(k, s)
                if eq is not False:
                    if not self.untouched(v.a[2], self.project(m, k), path[1:]): return False
                    if eq is True and o == 'upd': return True
                v = v.a[0]; continue
            if o == 'ite':
                return self.untouched(v.a[1], m, path) and self.untouched(v.a[2], m, path)
            if o in ('fin', 'mu') and isinstance(v.a[0], int):
                L = self.lmap.get(v.a[0])
                if L is None or L.next.get(v.a[1]) is None: return False
                if not self.untouched(L.next[v.a[1]], L.mu[v.a[1]], path): return False
                v = L.init[v.a[1]]; continue
            return False
    def _rtuple(self, t, memo):
        out = []; ch = False
        for x in t:
            if isinstance(x, V): y = self._resolve(x, memo)
            elif isinstance(x, tuple): y = self._rtuple(x, memo)
            else: y = x
            if y is not x: ch = True
            out.append(y)
        return tuple(out) if ch else t
    def rebuild(self, o, na):
        if o == 'ge0': return ge0(na[0])
        if o == 'gt0': return gt0(na[0])
        if o == 'fge0': return fge0(na[0])
        if o == 'eq0': return eq0(na[0])
        if o == 'not': return bnot(na[0])
        if o == 'and': return band(*na)
        if o == 'or': return bor(*na)
        if o == 'ite': return ite(tobool(na[0]), na[1], na[2])
        if o == 'idiv': return idiv(na[0], na[1])
        if o == 'imod': return imod(na[0], na[1])
        if o == 'inv': return inv(na[0])
        if o == 'sel':
            return self.project(na[0], na[1])
        if o in ('min', 'max') and len(na) == 2 and all(isinstance(x, V) for x in na):
            if na[0].op == 'num' and na[1].op == 'num':
                return na[0] if (na[0].a[0] >= na[1].a[0]) == (o == 'max') else na[1]
            return mk(o, *sorted(na, key=lambda x: x.id))
        return mk(o, *na)
    def resolve_loc(self, l):
        if isinstance(l, CondLoc): return l
        memo = self.resmemo
        p = []; ch = False
        for s in l.path:
            if s[0] == 'i':
                y = self._resolve(s[1], memo)
                if y is not s[1]: ch = True
                p.append(('i', y))
            elif s[0] == 'x':
                ys = tuple(self._resolve(z, memo) for z in s[1])
                if ys != s[1]: ch = True
                p.append(('x', ys))
            else: p.append(s)
        rt = l.root
        if rt[0] == 'D':
            y = self._resolve(rt[1], memo)
            if y is not rt[1]:
                if y.op == 'addr':
                    return mkloc(y.a[0].root, y.a[0].path + tuple(p))
                rt = root('D', y); ch = True
        return mkloc(rt, tuple(p)) if ch else l
    def set_res(self, k, v):
        self.res[k] = v
        self.resmemo = {}
    def subst(self, v, m):
        """substitute leaves"""
        save, savem = self.res, self.resmemo
        self.res, self.resmemo = m, {}
        try: return self.resolve(v)
        finally: self.res, self.resmemo = save, savem

    # ------------------------------------------------------------- running
    def run(self, F, args=None, this=None, name=None):
        """analyse from function F; parameters without given value are symbolic"""
        self.st = St(None, Frame(None, 'entry', F['n']))
        self.env = Env(); self.env.F = None
        a = []
        for i, p in enumerate(F['params']):
            if args and i < len(args) and args[i] is not None:
                a.append(args[i]); continue
            a.append(self.sym_param(p))
        th = None
        if F.get('kind') in ('method', 'ctor', 'dtor') and not F.get('static'):
            th = this or mkloc(root('S', F['cls']))
        try:
            r = self.inline(F, th, a, None)
        except Dead:
            r = None
        self.finish()
        return r

    def begin(self, name='entry'):
        self.st = St(None, Frame(None, 'entry', name))
        self.env = Env(); self.env.F = None
    def do(self, F, this=None, args=None, node=None):
        """call F in the current state (driver for sequences of calls)"""
        a = []
        for i, p in enumerate(F['params']):
            if args and i < len(args) and args[i] is not None: a.append(args[i])
            else: a.append(self.sym_param(p))
        if node is None:
            node = Node(); node.nid = F.nid; node.file = F['file']; node.T = None
        return self.inline(F, this, a, node)

    def sym_param(self, p):
        t = p['t']
        if t.k == 'ref': return ('l', mkloc(root('P', p['n'] or 'arg')))
        if t.k == 'ptr':
            if t.e.k in ('rec',): return ('v', mk('addr', mkloc(root('P', p['n']))))
            if t.e.k == 'fn': return ('v', mk('sym', p['n']))
            return ('v', mk('addr', mkloc(root('P', p['n']), (('i', ZERO),))))
        if t.k == 'rec': return ('v', mk('init', mkloc(root('P', p['n']))))
        return ('v', mk('sym', p['n']))

    def finish(self):
        self.resmemo = {}

    def callpath(self, node, F):
        k = (id(self.cp) if self.cp else 0, node.nid if node is not None else 0, F['usr'] if 'usr' in F else id(F))
        c = self.cps.get(k)
        if c is None: c = self.cps[k] = (self.cp, len(self.cps) + 1, k)
        return c

    def newlocal(self, d, name, kind='L'):
        r = root(kind, self.cp[1] if self.cp else 0, d, name)
        if self.declstack: self.declstack[-1].add(r)
        return mkloc(r)

    def temp(self, node):
        return self.newlocal(('t', node.nid), 'tmp')

    # ---- calls of user functions
    def inline(self, F, this, args, node):
        """args: ('v', V) or ('l', Loc).  Returns V or Loc (for references)."""
        usr = F.get('usr')
        if self.depth > self.max_depth or sum(1 for x in self.active if x == usr) > 1:
            self.note('recursion ' + F['n'])
            return self.opaque_call(F['n'], this, args, node, F)
        self.funcs_seen.add(usr)
        savecp, saveenv, savel, savef = self.cp, self.env, self.line, self.file
        self.cp = self.callpath(node, F)
        env = Env(); env.F = F; env.this = this
        info = Call(); info.fn = usr; info.name = F['n']; info.line = node.get('l', 0) if node is not None else 0
        info.file = node.file if node is not None else ''; info.this = this; info.args = args; info.node = node
        base = self.st
        base_ctx = base.ctx
        base.ctx = Frame(base_ctx, 'call', info)
        inner_ctx = base.ctx
        self.depth += 1
        self.active.append(usr)
        self.env = env
        try:
            for i, p in enumerate(F['params']):
                if i < len(args): k, a = args[i]
                else: k, a = 'v', mk('sym', p['n'] or 'arg')
                if p['t'].k == 'ref':
                    if k == 'l': env.vars[p['d']] = a
                    else:
                        l = self.newlocal(p['d'], p['n'])
                        self.setv(self.st, l, a)
                        env.vars[p['d']] = l
                else:
                    l = self.newlocal(p['d'], p['n'])
                    env.vars[p['d']] = l
                    v = a if k == 'v' else self.peek(a)
                    self.setv(self.st, l, v)
            if F.get('kind') == 'ctor': self.ctor_inits(F, this)
            env.loops.append(BreakCtx(False, 0))
            try:
                if F.get('body'): self.ex(F['body'])
            except Dead:
                self.st = None
            if self.st is not None:
                self.pending.append(self.st)
                env.rets.append((self.st, None))
            rets = env.rets
            for s, v in rets:
                for i in range(len(self.pending) - 1, -1, -1):
                    if self.pending[i] is s: del self.pending[i]; break
            if not rets: raise Dead()
            states = [s for s, v in rets]
            pcs = [self.pc(s.ctx, inner_ctx) for s in states]
            val = rets[-1][1]
            for c, (s, v) in zip(reversed(pcs[:-1]), reversed(rets[:-1])):
                val = self.merge_ret(c, v, val)
            asserts = self.asserts_between(states[0].ctx, inner_ctx) if len(states) == 1 else self._common_asserts(states, inner_ctx)
            st = self.join(base, states, pcs)
            ctx = base_ctx
            for f in asserts: ctx = Frame(ctx, 'assert', f.a)
            st.ctx = ctx
            base.ctx = base_ctx if st is not base else ctx
            self.st = st
            return val
        finally:
            self.cp, self.env, self.line, self.file = savecp, saveenv, savel, savef
            self.depth -= 1
            self.active.pop()
            if base.ctx is inner_ctx: base.ctx = base_ctx

    def merge_ret(self, c, a, b):
        if a is None: return b
        if b is None: return a
        if isinstance(a, (Loc, CondLoc)) or isinstance(b, (Loc, CondLoc)):
            if a is b: return a
            if isinstance(a, V) or isinstance(b, V): return a if not isinstance(a, V) else b
            return CondLoc(c, a, b)
        return self.vite(c, a, b)

    def ctor_inits(self, F, this):
        done = set()
        rn = F['cls']
        rec = self.prog.recs.get(rn, {'fields': []})
        inits = F.get('inits', [])
        for x in inits:
            if x.get('base') is not None or x.get('deleg'):
                e = x['e']
                self.construct(e, this)
            elif x.get('f'):
                self.init_loc(fld(this, x['f']), x['e'], None)

    def opaque_call(self, name, this, args, node, F=None):
        e = self.emit('call', name, [a if k == 'v' else addr(a) for k, a in args], [this] if this is not None else [], node, opaque=True)
        v = mk('out', e.seq, name)
        for i, (k, a) in enumerate(args):
            if F is not None and i < len(F['params']) and F['params'][i]['t'].k == 'ref' and F['params'][i]['t'].e.const: continue
            if k == 'l': self.havoc(a, ('call', e.seq), node)
        e.ret = v
        return v

    # =========================================================== statements
    def ex(self, n):
        if n is None: return
        k = n['k']
        self.line = n.get('l', self.line); self.file = n.file
        getattr(self, 'ex_' + k)(n)

    def ex_block(self, n):
        env = self.env
        env.scopes.append([])
        try:
            for s in n['s']: self.ex(s)
            self.scope_exit(env.scopes[-1])
        finally:
            env.scopes.pop()

    def scope_exit(self, sc):
        for l, t, name in reversed(sc):
            self.destroy(l, t)
            if not self.noevents and t.k in ('rec', 'arr'): self.emit('scope', name, [], [l])

    def exit_scopes(self, upto):
        for sc in reversed(self.env.scopes[upto:]): self.scope_exit(sc)

    def destroy(self, l, t):
        if t.k == 'rec' and t.n in self.prog.recs and not self.is_abstract(t.n):
            for m in self.prog.recs[t.n]['methods']:
                if m['n'].startswith('~'):
                    f = self.prog.funcs.get(m['u'])
                    if f and f.get('body') and not f.get('defaulted'):
                        self.inline(f, l, [], f['body'])

    def ex_null(self, n): pass
    def ex_unks(self, n): self.note('stmt ' + n.get('cls', '?'))
    def ex_label(self, n): self.ex(n['s'])
    def ex_goto(self, n): self.note('goto')
    def ex_expr(self, n):
        self.ev(n['e'], void=True)

    def ex_decl(self, n):
        for d in n['d']: self.ex_var(d)

    def ex_var(self, d):
        self.line = d.get('l', self.line)
        t = d['t']
        if 'g' in d:           # static local: initialised once, keeps its value
            return
        if t.k == 'ref':
            init = d.get('init')
            if init is None: return
            l = self.lv_or_temp(init)
            self.env.vars[d['d']] = l
            return
        l = self.newlocal(d['d'], d['n'])
        if t.k == 'rec': self.declcls[l.root] = t.n
        self.env.vars[d['d']] = l
        if self.env.scopes: self.env.scopes[-1].append((l, t, d['n']))
        self.noev_set(l, mk('uninit', l))
        if d.get('vla') is not None:
            self.noev_set(fld(l, '#n'), self.ev(d['vla']))
        init = d.get('init')
        if init is not None:
            self.init_loc(l, init, d)

    def noev_set(self, l, v):
        if isinstance(l, CondLoc) or base_of(l)[1]:
            return self.quiet_write(l, v)
        self.setv(self.st, l, v)
        if self.modstack: self.modstack[-1].add(l)

    def init_loc(self, l, e, d):
        """initialise location l from expression e"""
        if e is None: return
        k = e['k']
        while k == 'mat': e = e['e']; k = e['k']
        if k == 'ctor': self.construct(e, l); return
        if k == 'init': self.init_list(l, e); return
        if k == 'zero':
            t = e.T
            if t.k == 'rec' or t.k == 'arr': self.write(l, mk('zeroed'), e, 'init')
            else: self.write(l, ZERO, e, 'init')
            return
        if k == 'arrcopy':
            self.write(l, self.rd(e['e']), e, 'init'); return
        v = self.ev(e)
        self.write(l, v, e, 'init')

    def init_list(self, l, e):
        t = e.T
        if t.k == 'arr':
            self.noev_set(l, mk('zeroed') if 'fill' in e else self.get(self.st, base_of(l)[0]) if False else mk('zeroed'))
            for i, x in enumerate(e['e']):
                self.init_loc(elem(l, num(i)), x, None)
            return
        if t.k == 'rec' and t.n in self.prog.recs:
            fs = self.prog.recs[t.n]['fields']
            for f, x in zip(fs, e['e']): self.init_loc(fld(l, f['n']), x, None)
            return
        if len(e['e']) == 1 and t.k not in ('rec',):
            self.init_loc(l, e['e'][0], None); return
        vs = tuple(self.ev(x) for x in e['e'])
        self.write(l, mk('listinit', vs), e, 'init')

    def ex_if(self, n):
        if n.get('init'): self.ex(n['init'])
        if n.get('cv'): self.ex(n['cv'])
        c = tobool(self.ev(n['c']))
        if c.op == 'num':
            if c.a[0]: self.ex(n['a'])
            elif n.get('b'): self.ex(n['b'])
            return
        self.branch(c, lambda: self.ex(n['a']), (lambda: self.ex(n['b'])) if n.get('b') else None)

    def branch(self, c, fa, fb):
        base = self.st
        live = []
        npend = len(self.pending)
        aborted = True
        t = self.fork(base, 'if', c)
        for br, cc in ((fa, c), (fb, bnot(c))):
            s = self.fork(base, 'if', cc) if cc is not c else t
            self.st = s
            n0 = self.npend_total
            ok = True
            if br is not None:
                try: br()
                except Dead: ok = False
            if ok and self.st is not None: 
                live.append(self.st)
                self.pending.append(self.st)
            if self.npend_total != n0: aborted = False
        for s in live:
            for i in range(len(self.pending) - 1, -1, -1):
                if self.pending[i] is s: del self.pending[i]; break
        self.st = None
        self.settle(base, live, abort=aborted)

    npend_total = 0     # number of early exits recorded so far (returns, breaks, continues, throws)

    def ex_return(self, n):
        env = self.env
        v = None
        if n.get('e') is not None:
            e = n['e']
            rt = env.F['ret'] if env.F is not None and 'ret' in env.F else None
            if rt is not None and rt.k == 'ref': v = self.lv_or_temp(e)
            else:
                v = self.ev(e)
        self.exit_scopes(0)
        self.npend_total += 1
        self.pending.append(self.st)
        env.rets.append((self.st, v))
        raise Dead()

    def ex_break(self, n):
        b = self.env.loops[-1]
        self.exit_scopes(b.nscopes)
        self.npend_total += 1
        self.pending.append(self.st)
        b.brk.append(self.st)
        raise Dead()

    def ex_continue(self, n):
        for b in reversed(self.env.loops):
            if b.isloop: break
        self.exit_scopes(b.nscopes)
        self.npend_total += 1
        self.pending.append(self.st)
        b.cont.append(self.st)
        raise Dead()

    def unpend(self, states):
        for s in states:
            for i in range(len(self.pending) - 1, -1, -1):
                if self.pending[i] is s: del self.pending[i]; break

    def ex_switch(self, n):
        if n.get('cv'): self.ex(n['cv'])
        cv = self.ev(n['c'])
        body = n['s']
        stmts = list(body['s']) if body and body['k'] == 'block' else [body]
        # flatten labels: list of (labels, stmt)
        flat = []
        for s in stmts:
            labs = []
            while s is not None and s['k'] in ('case', 'default'):
                labs.append(s); s = s['s']
            flat.append((labs, s))
        entries = []
        for i, (labs, s) in enumerate(flat):
            for lb in labs: entries.append((i, lb))
        base = self.st
        bctx = BreakCtx(False, len(self.env.scopes))
        conds = []
        allc = []
        for i, lb in entries:
            if lb['k'] == 'case':
                val = num(int(lb['cv'])) if 'cv' in lb else self.ev(lb['v'])
                c = compare('==', cv, val, 'i')
                allc.append(c); conds.append((i, c))
            else: conds.append((i, None))
        dflt = band(*[bnot(c) for c in allc])
        if not any(c is None for _, c in conds): conds.append((len(flat), None))
        # group the labels of the same entry
        groups = {}
        for i, c in conds:
            groups.setdefault(i, []).append(dflt if c is None else c)
        live = []
        for i in sorted(groups):
            c = bor(*groups[i])
            if c is FALSE: continue
            self.st = self.fork(base, 'if', c) if c is not TRUE else self.fork(base)
            self.env.loops.append(bctx)
            try:
                for labs, s in flat[i:]: self.ex(s)
                if self.st is not None:
                    live.append(self.st); self.pending.append(self.st)
            except Dead: pass
            finally: self.env.loops.pop()
        live += bctx.brk
        self.unpend(live)
        self.st = None
        self.settle(base, live)

    def ex_case(self, n): self.ex(n['s'])
    def ex_default(self, n): self.ex(n['s'])

    def ex_try(self, n):
        base = self.st
        self.emit('try', '', [], [], n)
        self.st = self.fork(base)
        live = []
        try:
            self.ex(n['s'])
            live.append(self.st); self.pending.append(self.st)
        except Dead: pass
        for h in n['h']:
            self.st = self.fork(base, 'if', mk('lit', 'caught', h.nid))
            try:
                self.ex(h)
                live.append(self.st); self.pending.append(self.st)
            except Dead: pass
        self.unpend(live)
        self.st = None
        live.reverse()
        if not live: raise Dead()
        pcs = [self.pc(s.ctx, base.ctx) for s in live]
        st = self.join(base, live, pcs)
        self.st = st
        st.ctx = base.ctx

    # ---------------------------------------------------------------- loops
    def assigned_locals(self, n):
        r = self._assigned.get(n.nid)
        if r is not None: return r
        out = set(); decl = set()
        for x in walk(n):
            k = x.get('k')
            tgt = None
            if k == 'asg': tgt = x['a']
            elif k == 'un' and x['op'] in ('++', '--'): tgt = x['e']
            elif k == 'call' and x.get('obj') is not None and not x.get('cst'): tgt = x['obj']
            elif k == 'var' and 'd' in x: decl.add(x['d'])
            if k == 'call' and x.get('op') in ('=', '+=', '-=', '++', '--', '<<', '>>') and x.get('args'): 
                if x.get('obj') is None: self._root_local(x['args'][0], out)
            if tgt is not None: self._root_local(tgt, out)
            if k in ('call', 'ctor'):
                for a, pp in zip(x.get('args', []), x.get('pp', [])):
                    if pp == 'r': self._root_local(a, out)
        r = out - decl
        self._assigned[n.nid] = r
        return r
    def _root_local(self, e, out):
        while isinstance(e, dict):
            k = e.get('k')
            if k == 'ref':
                if 'd' in e: out.add(e['d'])
                return
            if k == 'mem':
                if e.get('arrow'): return
                e = e['b']
            elif k == 'idx': e = e['a']
            elif k == 'cast' and e.get('ck') == 'LValueToRValue' and e.T is not None and e.T.k == 'ptr': return
            elif k in ('cast', 'mat'): e = e['e']
            elif k == 'un' and e['op'] == '&': e = e['e']
            elif k == 'un' and e['op'] in ('++', '--'): e = e['e']
            elif k == 'call' and e.get('obj') is not None: e = e['obj']
            else: return

    def loop_core(self, node, kind, cond, body, inc, post=False, rng=None, frame=None, omp=None):
        """cond, body, inc: callables or None"""
        key = (self.cp[1] if self.cp else 0, node.nid)
        mods = self.modcache.get(key)
        if mods is None:
            mods = set()
            for d in self.assigned_locals(node):
                l = self.env.vars.get(d)
                if isinstance(l, Loc): mods.add(base_of(l)[0])
        base = self.st
        nev = len(self.events)
        nloops = len(self.loops)
        saved_pending = list(self.pending)
        saved_rets = list(self.env.rets)
        saved_brk = [(b, list(b.brk), list(b.cont)) for b in self.env.loops]
        saved_cb = list(self.callbacks)
        saved_res = dict(self.res) if len(self.res) < 3000 else None
        for attempt in range(8):
            L = Loop(); self.nloop += 1; L.n = self.nloop
            L.key = key; L.node = node; L.kind = kind; L.fn = self.env.F['n'] if self.env.F is not None else ''
            L.line = node.get('l', 0); L.file = node.file
            L.iv = mk('iv', L.n); L.mu = {}; L.init = {}; L.next = {}; L.cond = TRUE; L.count = None; L.early = False
            L.rng = rng; L.omp = omp; L.exitv = {}; L.pcond = None; L.exits = []
            self.loops.append(L); self.lmap[L.n] = L
            self.st = base
            H = self.fork(base)
            for l in sorted(mods, key=lambda z: z.id):
                L.init[l] = self.full(base, l)
                m = mk('mu', L.n, l)
                L.mu[l] = m
                self.setv(H, l, m)
            self.modstack.append(set())
            self.declstack.append(set())
            self.st = H
            self.pending.append(H)
            fr = Frame(H.ctx, 'loop', L)
            b = BreakCtx(True, len(self.env.scopes))
            res = None
            try:
                res = self.loop_body(L, H, fr, b, cond, body, inc, post, frame)
            finally:
                self.unpend([H])
                actual = self.modstack.pop()
                inner = self.declstack.pop()
            actual = {l for l in actual if l.root not in inner and not self.mu_root(l.root, L.n)}
            L.inner = inner
            L.mods = actual
            extra = {l for l in mods if l not in actual}
            ptrs = [l for l in extra if attempt < 6 and L.init[l].op in ('addr', 'fn', 'lam', 'it', 'ite', 'upd', 'store')]
            if actual - mods or ptrs:
                # repeat with the exact set
                if DEBUG and attempt > 3: print('retry', attempt, node.file, node.get('l'), [(x, x.root) for x in actual - mods], ptrs)
                mods = (mods | actual) - set(ptrs) if not (actual - mods) else (mods | actual)
                if attempt == 7: raise AnalysisBroken('loop does not settle at %s:%s' % (node.file, node.get('l')))
                del self.events[nev:]
                del self.loops[nloops:]
                self.pending[:] = saved_pending
                self.env.rets[:] = saved_rets
                for bb, x, y in saved_brk: bb.brk[:] = x; bb.cont[:] = y
                self.callbacks[:] = saved_cb
                continue
            break
        self.modcache[key] = frozenset(mods)
        if self.modstack: self.modstack[-1] |= actual
        if self.declstack: self.declstack[-1] |= inner
        return L, b, H, res, base

    def mu_root(self, rt, n):
        return rt[0] == 'D' and any(x.op in ('mu', 'fin', 'iv') and x.a[0] >= n for x in subvals(rt[1]))

    def loop_body(self, L, H, fr, b, cond, body, inc, post, frame):
        env = self.env
        exitst = None
        env.loops.append(b)
        try:
            if not post:
                c = TRUE
                if cond is not None:
                    H.ctx = Frame(H.ctx, 'loopcond', L)
                    try: c = tobool(cond())
                    except Dead: return (None, None)
                    self.st.ctx = H.ctx.up if self.st is H else self.st.ctx
                L.cond = c
                hs = self.st
                hs.ctx = fr.up
                exitst = hs
                B = St(hs, Frame(fr, 'if', c) if c is not TRUE else fr)
            else:
                hs = H
                B = St(H, fr)
            self.st = B
            end = []
            if c_false(L, post): 
                self.st = None
            else:
                try:
                    if frame is not None: self.st.ctx = Frame(self.st.ctx, frame[0], frame[1])
                    body()
                    if self.st is not None:
                        end.append(self.st); self.pending.append(self.st)
                except Dead: pass
            conts = b.cont
            allend = end + conts
            self.unpend(allend)
            E = None
            if allend:
                pcs = [self.pc(s.ctx, fr) for s in allend]
                com = self._common_asserts(allend, fr)
                E = self.join_on(hs, allend, pcs)
                ctx = fr
                for f in com: ctx = Frame(ctx, 'assert', f.a)
                E.ctx = ctx
                self.st = E
                try:
                    if inc is not None: inc()
                    if post:
                        pcnd = tobool(cond()) if cond is not None else TRUE
                        L.pcond = pcnd
                    E = self.st
                except Dead: E = None
                if E is not None:
                    for l in L.mu: L.next[l] = self.full(E, l)
            return (exitst, E)
        finally:
            env.loops.pop()

    def join_on(self, base, states, pcs):
        """like join, but never changes base"""
        r = St(base, base.ctx)
        keys = {}
        for s in states:
            x = s
            while x is not base:
                for k in x.d: keys[k] = True
                x = x.up
        for k in keys:
            raw = [self.lookup(s, k) for s in states]
            if all(q is raw[0] for q in raw):
                if raw[0] is not None: r.d[k] = raw[0]
                continue
            if all(q is None or q is TOMB for q in raw): r.d[k] = TOMB; continue
            vs = [self.get(s, k) for s in states]
            v = vs[-1]
            for c, w in zip(reversed(pcs[:-1]), reversed(vs[:-1])): v = self.vite(c, w, v)
            r.d[k] = v
        return r

    def run_loop(self, node, kind, cond, body, inc, post=False, rng=None, frame=None, omp=None):
        L, b, H, res, base = self.loop_core(node, kind, cond, body, inc, post, rng, frame, omp)
        exitst, E = res
        brk = b.brk
        self.unpend(brk)
        # what is known about the loop's symbols
        for l, m in L.mu.items():
            nx = L.next.get(l)
            if nx is None: continue
            if nx is m: self.set_res(m, L.init[l])
        changed = True
        todo = [l for l in L.mu if L.next.get(l) is not None and L.next[l] is not L.mu[l]]
        muset = set(L.mu.values())
        for _ in range(3):
            again = False
            for l in list(todo):
                m = L.mu[l]
                nx = self.resolve(L.next[l])
                if nx.op in ('poly', 'num') or True:
                    d = sub(nx, m) if nx.op in ('poly', 'mu') else None
                    if d is not None and self.invariant(d, L):
                        self.set_res(m, add(L.init[l], mul(d, L.iv)))
                        todo.remove(l); again = True
            if not again: break
        if rng is not None and L.count is None: L.count = rng[1]
        elif not post: L.count = self.trip(L)
        L.early = bool(brk) or any(self.inside(s, L) for s, _ in self.env.rets)
        if not post and rng is None and L.count is not None and len(lits(self.resolve(L.cond))) > 1: L.early = True
        # state after the loop
        live = []
        pcs = []
        newc = TRUE
        L.exits = [self.pc_in(s.ctx, L) for s in brk] + [self.pc_in(s.ctx, L) for s, _ in self.env.rets if self.inside(s, L)]
        for s in brk:
            live.append(s); pcs.append(mk('lit', 'exits', L.n, self.pc_in(s.ctx, L)))
        S = St(base, base.ctx)
        if post: exitst = E
        if exitst is not None and not (not post and L.cond is TRUE and rng is None):
            m2 = {}
            for l, m in L.mu.items():
                if m in self.res and self.res[m] is L.init[l]: m2[m] = L.init[l]; continue
                f = mk('fin', L.n, l)
                if m in self.res and L.count is not None and not L.early:
                    stepv = self.subst(self.res[m], {L.iv: L.count})
                    f2 = stepv
                    self.set_res(f, f2)
                    m2[m] = f2 if f2.op in ('num', 'poly', 'sym', 'init') else f
                else: m2[m] = f
            src = exitst
            keys = {}
            x = src
            while x is not base and x is not None:
                for k in x.d: keys[k] = True
                x = x.up
            for k in keys:
                if k.root in L.inner: continue
                raw = self.lookup(src, k)
                if raw is TOMB: S.d[k] = TOMB; continue
                if post:
                    v = self.get(src, k)
                    S.d[k] = mk('fin', L.n, k) if self.dependson(v, muset, L) or True else v
                    L.exitv[k] = v
                    continue
                v = raw
                S.d[k] = self.subst(v, m2)
            live.append(S); pcs.append(TRUE)
        if not live:
            self.st = None
            raise Dead()
        self.st = None
        if len(live) == 1 and live[0] is S:
            need_new = any(self.chain_has(p, base) for p in self.pending)
            if need_new:
                st = St(base, base.ctx); st.d = S.d
            else:
                base.d.update(S.d); st = base
            ctx = base.ctx
        else:
            st = self.join_loop(base, live, pcs, L)
            ctx = base.ctx
        rets_in = [s for s, _ in self.env.rets if self.inside(s, L)]
        if rets_in:
            c = bor(*[mk('lit', 'exits', L.n, self.pc_in(s.ctx, L)) for s in rets_in])
            ctx = Frame(ctx, 'assume', bnot(c))
        st.ctx = ctx
        self.st = st
        return L

    def join_loop(self, base, live, pcs, L):
        keys = {}
        for s in live:
            x = s
            while x is not base and x is not None:
                for k in x.d: keys[k] = True
                x = x.up
        r = St(base, base.ctx)
        for k in keys:
            if k.root in L.inner: continue
            raw = [self.lookup(s, k) for s in live]
            if all(q is raw[0] for q in raw):
                if raw[0] is not None: r.d[k] = raw[0]
                continue
            if all(q is None or q is TOMB for q in raw): r.d[k] = TOMB; continue
            vs = [self.get(s, k) for s in live]
            v = vs[-1]
            for c, w in zip(reversed(pcs[:-1]), reversed(vs[:-1])): v = self.vite(c, w, v)
            r.d[k] = v
        return r

    def pc_in(self, ctx, L):
        cs = []
        f = ctx
        while f is not None and not (f.kind == 'loop' and f.a is L):
            if f.kind in ('if', 'assume'): cs.append(f.a)
            f = f.up
        return band(*cs)

    def inside(self, s, L):
        f = s.ctx
        while f is not None:
            if f.kind == 'loop' and f.a is L: return True
            f = f.up
        return False

    def dependson(self, v, muset, L): return any(x in muset or x is L.iv for x in subvals(v))

    def invariant(self, v, L):
        for x in subvals(v):
            if x.op == 'mu' and x.a[0] == L.n: return False
            if x is L.iv: return False
            if x.op == 'sel' or x.op in ('out', 'havoc', 'uninit'):
                if x.op == 'uninit': return False
            if x.op in ('mu', 'iv', 'fin') and x.a[0] > L.n: return False
            if x.op == 'out':
                e = self.events[x.a[0]] if isinstance(x.a[0], int) and x.a[0] < len(self.events) else None
                if e is None: return False
                f = e.ctx
                while f is not None:
                    if f.kind == 'loop' and f.a is L: return False
                    f = f.up
        return True

    def trip(self, L):
        """iteration count from the loop condition"""
        c = self.resolve(L.cond)
        best = None
        for x in lits(c):
            p = None
            if x.op == 'ge0': p = x.a[0]
            elif x.op == 'not' and x.a[0].op == 'eq0':
                p = x.a[0].a[0]
            if p is None: continue
            t = terms(p)
            k = t.get((L.iv,), 0)
            if any(L.iv in m and m != (L.iv,) for m in t): continue
            if k == 0: continue
            rest = sub(p, scale(L.iv, k))
            if not self.invariant(rest, L): continue
            if x.op == 'ge0':
                if k == -1: cnt = add(rest, ONE)
                elif k < 0: cnt = idiv(add(rest, num(-k)), num(-k))
                else: continue
            else:
                if k == -1: cnt = rest
                elif k == 1: cnt = neg(rest)
                else:
                    cnt = idiv(rest if k < 0 else neg(rest), num(abs(k)))
            if best is None: best = cnt
        return best

    def ex_for(self, n, omp=None):
        self.env.scopes.append([])
        try:
            if n.get('i') is not None: self.ex(n['i'])
            self.run_loop(n, 'for', (lambda: self.ev(n['c'])) if n.get('c') is not None else None,
                          lambda: self.ex(n['s']),
                          (lambda: self.ev(n['n'], void=True)) if n.get('n') is not None else None, omp=omp)
        finally: self.env.scopes.pop()

    def ex_while(self, n):
        c0 = n['c']
        cv = n.get('cv')
        def cond():
            if cv: self.ex(cv)
            return self.ev(c0)
        self.run_loop(n, 'while', cond, lambda: self.ex(n['s']), None)

    def ex_do(self, n):
        self.run_loop(n, 'do', lambda: self.ev(n['c']), lambda: self.ex(n['s']), None, post=True)

    def ex_rfor(self, n):
        t = n['r'].T
        r = n['r']
        l = self.lv_or_temp(r)
        info = {}
        if isinstance(l, CondLoc):
            self.note('range over conditional'); l = l.a
        if t.k == 'arr':
            data = l
            count = num(t.cnt) if t.cnt is not None else self.peek(fld(l, '#n'))
        else:
            data = fld(l, '#d')
            count = self.peek(fld(l, '#n')) if t.k == 'rec' else mk('sym', 'rfor-count')
        assoc = t.k == 'rec' and t.tn in ('std::map', 'std::set', 'std::unordered_map', 'std::unordered_set', 'std::multimap')
        v = n['v']
        def body():
            L = self.loops[self._cur]
            if assoc:
                el = mkloc(root('D', mk('mapelem', l, L.iv)))
            else: el = elem(data, L.iv)
            if v['t'].k == 'ref': self.env.vars[v['d']] = el
            else:
                x = self.newlocal(v['d'], v['n'])
                self.env.vars[v['d']] = x
                self.noev_set(x, self.read(el))
            self.ex(n['s'])
        def wrapped():
            save = getattr(self, '_cur', None)
            # the innermost loop object of this node
            for i in range(len(self.loops) - 1, -1, -1):
                if self.loops[i].node is n: self._cur = i; break
            try: body()
            finally: self._cur = save
        self.run_loop(n, 'rfor', lambda: mk('lit', 'more', n.nid), wrapped, None, rng=(l, count))

    # ------------------------------------------------------------------ omp
    def ex_omp(self, n):
        o = Omp(); o.dk = n['dk']; o.cl = n.get('cl', []); o.line = n.get('l'); o.file = n.file; o.name = n.get('name')
        o.n = n.nid; o.body = n.get('s')
        dk = o.dk
        for c in o.cl:
            for x in c['v']:
                if c['ck'] in ('if', 'num_threads', 'schedule'): self.ev(x)
        if n.get('s') is None:
            self.emit('omp', dk, [], [], n); return
        par = 'parallel' in dk
        work = dk.split()[-1] == 'for' or ' for' in dk or dk in ('for', 'for simd')
        body = n['s']
        priv = []
        for c in o.cl:
            if c['ck'] in ('private', 'firstprivate', 'lastprivate', 'reduction', 'linear'):
                for x in c['v']:
                    if x['k'] == 'ref' and 'd' in x: priv.append((c['ck'], x))
        if par:
            self.emit('par-begin', dk, [], [], n)
            self.inpar += 1
            try: self.run_loop(n, 'omp', lambda: mk('lit', 'thread', n.nid), lambda: self.omp_body(o, body, priv, work), None, rng=(None, mk('sym', 'nthreads')), frame=('omp', o))
            finally: self.inpar -= 1
            self.emit('par-end', dk, [], [], n)
            return
        base_ctx = self.st.ctx
        if dk in ('master', 'masked', 'single'):
            self.branch(mk('lit', dk, n.nid), lambda: self.omp_frame(o, body), None)
            return
        self.omp_frame(o, body, priv, work)

    def omp_frame(self, o, body, priv=(), work=False):
        ctx0 = self.st.ctx
        self.st.ctx = Frame(ctx0, 'omp', o)
        fr = self.st.ctx
        try: self.omp_body(o, body, priv, work)
        finally:
            if self.st is not None:
                # drop the frame, keep what was learned
                learned = [f for f in frames(self.st.ctx)[ctx0.depth + 2:] if f.kind in ('assert', 'assume')]
                ctx = ctx0
                for f in learned: ctx = Frame(ctx, f.kind, f.a)
                self.st.ctx = ctx

    def omp_body(self, o, body, priv, work):
        saved = {}
        for ck, x in priv:
            d = x['d']
            old = self.env.vars.get(d)
            saved[d] = old
            l = self.newlocal((d, 'priv', o.n), x['n'])
            self.env.vars[d] = l
            if ck == 'firstprivate' and old is not None: self.noev_set(l, self.peek(old))
            elif ck == 'reduction': self.noev_set(l, mk('sym', 'red', o.n, x['n']))
            else: self.noev_set(l, mk('uninit', l))
        try:
            if work and body['k'] == 'for': self.ex_for(body, omp=o)
            elif work and body['k'] == 'rfor': self.ex_rfor(body)
            else: self.ex(body)
        finally:
            for ck, x in priv:
                d = x['d']
                if saved[d] is not None:
                    inner = self.env.vars[d]
                    self.env.vars[d] = saved[d]
                    if ck in ('reduction', 'lastprivate') and self.st is not None:
                        rop = ''
                        for c in o.cl:
                            if c['ck'] == 'reduction' and any(y['k'] == 'ref' and y.get('d') == d for y in c['v']): rop = c.get('rop', '')
                        v = self.peek(inner)
                        self.write(saved[d], mk('reduced', rop, self.peek(saved[d]), v), x, 'reduction')

    # ========================================================= expressions
    def ev(self, e, void=False):
        """rvalue"""
        k = e['k']
        f = getattr(self, 'ev_' + k, None)
        if f is None:
            self.note('expr ' + k)
            return mk('sym', 'unk', e.nid)
        r = f(e)
        if isinstance(r, (Loc, CondLoc)):
            if void: return ZERO
            return self.read(r)
        return r if r is not None else ZERO

    def rd(self, e): return self.ev(e)

    def lv(self, e):
        """location of an lvalue expression"""
        k = e['k']
        if k == 'ref':
            if 'g' in e: return mkloc(root('G', e['g'], e['n']))
            l = self.env.vars.get(e['d'])
            if l is None:
                l = self.newlocal(e['d'], e['n'])
                self.env.vars[e['d']] = l
            return l
        if k == 'mem':
            b = e['b']
            if e['arrow']: base = self.deref(self.ev(b))
            else: base = self.lv_or_temp(b)
            fname = e['f']
            if fname.startswith('std::'): fname = fname.split('::')[-1]
            if fname in ('first', 'second') and isinstance(base, Loc) and not base.path and base.root[0] == 'D' and base.root[1].op == 'mapit':
                it = base.root[1]
                if fname == 'second': return elem(fld(it.a[0], '#d'), it.a[1])
                l = self.temp(e); self.noev_set(l, it.a[1]); return l
            if e['ft'].k == 'ref':
                v = self.peek(fld(base, fname))
                return self.deref(v)
            return fld(base, fname)
        if k == 'idx':
            a, b = e['a'], e['b']
            if a.T is not None and a.T.k == 'int': a, b = b, a
            p = self.ev(a)
            i = self.ev(b)
            return self.ptr_elem(p, i)
        if k == 'un':
            if e['op'] == '*':
                p = self.ev(e['e'])
                return self.deref(p, e.T)
            if e['op'] in ('++', '--'):
                self.incdec(e); return self.lv(e['e'])
            return self.tmp_of(e)
        if k == 'asg':
            self.ev_asg(e); return self.lv(e['a'])
        if k == 'cast':
            if e.get('lv') or e['ck'] in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast', 'Dynamic'):
                return self.lv(e['e'])
            return self.tmp_of(e)
        if k == 'call':
            r = self.ev_call(e)
            if isinstance(r, (Loc, CondLoc)): return r
            if e.get('lv') and r is not None and r.op in ('addr', 'ite', 'sel', 'it'):
                pass
            l = self.temp(e); self.noev_set(l, r if r is not None else ZERO)
            return l
        if k == 'cond':
            c = tobool(self.ev(e['c']))
            if c.op == 'num': return self.lv(e['a'] if c.a[0] else e['b'])
            return CondLoc(c, self.lv(e['a']), self.lv(e['b']))
        if k == 'this': return self.env.this
        if k == 'bin' and e['op'] == ',':
            self.ev(e['a'], void=True); return self.lv(e['b'])
        if k == 'str': return mkloc(root('T', 'str', e['v'], 0))
        return self.tmp_of(e)

    def lv_or_temp(self, e):
        while e['k'] == 'mat': e = e['e']
        if e.get('lv') or e['k'] in ('ref', 'mem', 'idx'): return self.lv(e)
        if e['k'] == 'cast' and e['ck'] in ('DerivedToBase', 'UncheckedDerivedToBase'): return self.lv_or_temp(e['e'])
        return self.tmp_of(e)

    def tmp_of(self, e):
        l = self.temp(e)
        if e.T is not None and e.T.k == 'rec': self.declcls[l.root] = e.T.n
        self.noev_set(l, mk('uninit', l))
        if e['k'] == 'ctor': self.construct(e, l)
        elif e['k'] == 'init': self.init_list(l, e)
        else:
            r = self.ev(e)
            self.noev_set(l, r)
        return l

    def deref(self, p, T=None):
        o = p.op
        if o == 'addr': return p.a[0]
        if o == 'ite': return CondLoc(p.a[0], self.deref(p.a[1], T), self.deref(p.a[2], T))
        if o == 'it':
            return elem(fld(p.a[0], '#d'), p.a[1])
        if o == 'mapit': return mkloc(root('D', p))
        if o == 'num': return mkloc(root('D', p))
        l = mkloc(root('D', p))
        if T is not None and T.k in ('int', 'flt', 'ptr'): return elem(l, ZERO)
        return l

    def ptr_elem(self, p, i):
        o = p.op
        if o == 'addr':
            l = p.a[0]
            if l.path and l.path[-1][0] == 'i':
                return mkloc(l.root, l.path[:-1] + (('i', add(l.path[-1][1], i)),))
            if i is ZERO: return l
            return mkloc(l.root, l.path + (('i', i),))
        if o == 'ite': return CondLoc(p.a[0], self.ptr_elem(p.a[1], i), self.ptr_elem(p.a[2], i))
        if o == 'padd': return self.ptr_elem(p.a[0], add(p.a[1], i))
        if o == 'it': return elem(fld(p.a[0], '#d'), add(p.a[1], i))
        return mkloc(root('D', p), (('i', i),))

    def ptr_add(self, p, i):
        if i is ZERO: return p
        o = p.op
        if o == 'addr':
            l = p.a[0]
            if l.path and l.path[-1][0] == 'i':
                return mk('addr', mkloc(l.root, l.path[:-1] + (('i', add(l.path[-1][1], i)),)))
            return mk('addr', mkloc(l.root, l.path + (('i', i),)))
        if o == 'ite': return ite(p.a[0], self.ptr_add(p.a[1], i), self.ptr_add(p.a[2], i))
        if o == 'padd': return mk('padd', p.a[0], add(p.a[1], i))
        if o == 'it': return mk('it', p.a[0], add(p.a[1], i))
        return mk('padd', p, i)

    def ev_int(self, e): return num(int(e['v']))
    def ev_flt(self, e):
        from fractions import Fraction
        return num(Fraction(float(e['v'])))
    def ev_str(self, e): return mk('str', e['v'])
    def ev_zero(self, e):
        if e.T.k in ('rec', 'arr'): return mk('zeroed')
        return ZERO
    def ev_mat(self, e): return self.ev(e['e'])
    def ev_this(self, e): return addr(self.env.this)
    def ev_ref(self, e):
        l = self.lv(e)
        if 'g' in e:
            g = self.prog.globals.get(e['g'])
            if g and g['t'].const and g.get('init') is not None and self.lookup(self.st, l) is None:
                v = self.const_global(e['g'], g)
                if v is not None: return v
        return l
    def const_global(self, u, g):
        c = getattr(self, '_cg', None)
        if c is None: c = self._cg = {}
        if u in c: return c[u]
        c[u] = None
        if g['t'].k in ('int', 'flt'):
            try: c[u] = self.ev(g['init'])
            except Dead: pass
        return c[u]
    def ev_mem(self, e): return self.lv(e)
    def ev_idx(self, e):
        if e['a'].get('k') == 'cast' and e['a']['e'].get('k') == 'ref' and 'g' in e['a']['e']: self.load_global_table(e['a']['e'])
        return self.lv(e)
    def load_global_table(self, r):
        g = self.prog.globals.get(r['g'])
        if not g or not g.get('init') or not g['t'].const and not (g['t'].k == 'arr' and g['t'].e.const): return
        l = mkloc(root('G', r['g'], r['n']))
        if self.lookup(self.st, l) is None:
            done = getattr(self, '_gt', None)
            if done is None: done = self._gt = {}
            if r['g'] not in done:
                save = (self.st, self.noevents, list(self.modstack))
                self.st = St(None, self.st.ctx); self.noevents += 1; self.modstack = []
                try:
                    self.init_list(l, g['init']) if g['init']['k'] == 'init' else self.init_loc(l, g['init'], None)
                    done[r['g']] = self.get(self.st, l)
                except Dead: done[r['g']] = None
                finally: self.st, self.noevents, self.modstack = save[0], save[1], save[2]
            if done[r['g']] is not None:
                st = self.st
                while st.up is not None: st = st.up
                st.d[l] = done[r['g']]
    def ev_fref(self, e): return mk('fn', e['fn'], e['n'])
    def ev_lambda(self, e):
        env = self.env
        cap = {}
        for c in e['caps']:
            if c.get('this'): continue
            if c.get('d') is None: continue
            if c['byref']: cap[c['d']] = env.vars.get(c['d'])
            else:
                l = self.newlocal((c['d'], 'cap', e.nid), c['n'])
                src = env.vars.get(c['d'])
                if src is not None: self.noev_set(l, self.peek(src))
                cap[c['d']] = l
        lams = getattr(self, 'lams', None)
        if lams is None: lams = self.lams = {}
        k = (self.cp[1] if self.cp else 0, e.nid)
        lams[k] = (e, cap, env.this, env.F)
        return mk('lam', k)
    def call_lambda(self, v, args, node):
        e, cap, this, F0 = self.lams[v.a[0]]
        F = Node(); F.nid = e.nid; F.file = e.file; F.T = None
        F['n'] = (F0['n'] if F0 is not None else '') + '::lambda'; F['params'] = e['params']; F['body'] = e['body']; F['ret'] = e['ret']; F['usr'] = 'lambda%d' % e.nid
        # bind captures through a wrapper environment
        return self.inline_lam(F, this, args, node, cap)
    def inline_lam(self, F, this, args, node, cap):
        orig = Env.__init__
        self._cap = cap
        save = self.ex
        body = F['body']
        eng = self
        def ex_with_caps(n):
            if n is body:
                for d, l in cap.items():
                    if l is not None: eng.env.vars[d] = l
            return Engine.ex(eng, n)
        self.ex = ex_with_caps
        try: return self.inline(F, this, args, node)
        finally: self.ex = save

    def ev_cast(self, e):
        ck = e['ck']
        s = e['e']
        if ck == 'LValueToRValue':
            if s['k'] == 'ref':
                r = self.ev_ref(s)
                if isinstance(r, V): return r
                return self.read(r)
            if s['k'] == 'idx': return self.read(self.ev_idx(s))
            return self.read(self.lv(s))
        if ck == 'ArrayToPointerDecay':
            if s['k'] == 'str': return mk('str', s['v'])
            if s['k'] == 'ref' and 'g' in s: self.load_global_table(s)
            l = self.lv(s)
            return addr(elem(l, ZERO))
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic', 'LValueBitCast') :
            return self.ev(s) if not s.get('lv') else self.lv(s)
        v = self.ev(s)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return tobool(v)
        if ck == 'NullToPointer': return ZERO
        if ck == 'FloatingToIntegral':
            if v.op == 'num':
                x = v.a[0]
                return num(int(x) if x >= 0 else -int(-x))
            if self.int_valued(v): return v
            return mk('trunc', v)
        if ck == 'IntegralCast':
            t = e.T
            if self.casts is not None and v.op != 'num' and s.T is not None and t is not None and (s.T.w == 64) != (t.w == 64): self.cast(e, s.T, t, v)
            if v.op == 'num' and t.w:
                x = int(v.a[0]) & ((1 << t.w) - 1)
                if t.sg and x >= 1 << (t.w - 1): x -= 1 << t.w
                if t.b: x = 1 if v.a[0] else 0
                return num(x)
            return v
        return v
    def int_valued(self, v): return False
    def cast(self, e, a, b, v):
        if self.noevents: return
        self.casts.append((e, a, b, v, self.st.ctx, e.file or self.file, e.get('l') or self.line))

    def ev_cond(self, e):
        c = tobool(self.ev(e['c']))
        if c.op == 'num': return self.ev(e['a'] if c.a[0] else e['b'])
        if not self.has_effect(e['a']) and not self.has_effect(e['b']):
            a = self.under(c, lambda: self.ev(e['a']))
            b = self.under(bnot(c), lambda: self.ev(e['b']))
            if a is None: return b
            if b is None: return a
            return self.vite(c, a, b)
        out = {}
        def fa(): out['a'] = self.ev(e['a'])
        def fb(): out['b'] = self.ev(e['b'])
        self.branch(c, fa, fb)
        if 'a' not in out: return out['b']
        if 'b' not in out: return out['a']
        return self.vite(c, out['a'], out['b'])

    def under(self, c, f):
        ctx = self.st.ctx
        self.st.ctx = Frame(ctx, 'if', c)
        st = self.st
        try:
            v = f()
        except Dead:
            self.st = st; st.ctx = ctx
            return None
        if self.st is not None: self.st.ctx = ctx
        return v

    def has_effect(self, e):
        r = self._effect.get(e.nid)
        if r is None:
            r = False
            for x in walk(e):
                if x['k'] in ('asg', 'new', 'delete', 'throw') or (x['k'] == 'un' and x['op'] in ('++', '--')): r = True
                elif x['k'] == 'call' and (x.get('u') or x.get('ptr')) and x.get('n') not in self.opaque: r = True
                elif x['k'] == 'call' and x.get('obj') is not None and not x.get('cst') and x.get('sn') not in ('operator[]', 'operator()', 'begin', 'end', 'find', 'at', 'front', 'back', 'operator*', 'operator->'): r = True
                elif x['k'] == 'ctor' and x.get('u'): r = True
                elif x['k'] == 'call' and x.get('obj') is None and not x.get('u') and x.get('n') not in PURE: r = True
            self._effect[e.nid] = r
        return r

    def ev_bin(self, e):
        op = e['op']
        if op in ('&&', '||'):
            a = tobool(self.ev(e['a']))
            if a.op == 'num':
                if op == '&&' and not a.a[0]: return FALSE
                if op == '||' and a.a[0]: return TRUE
                return tobool(self.ev(e['b']))
            g = a if op == '&&' else bnot(a)
            if not self.has_effect(e['b']):
                b = self.under(g, lambda: tobool(self.ev(e['b'])))
                if b is None: raise Dead()
            else:
                out = {}
                def f(): out['b'] = tobool(self.ev(e['b']))
                self.branch(g, f, lambda: None)
                if 'b' not in out: return FALSE if op == '&&' else TRUE
                b = out['b']
            return band(a, b) if op == '&&' else bor(a, b)
        if op == ',':
            self.ev(e['a'], void=True); return self.ev(e['b'])
        a = self.ev(e['a']); b = self.ev(e['b'])
        return self.arith(op, a, b, e['a'].T, e['b'].T, e)

    def arith(self, op, a, b, ta, tb, e):
        pa = ta is not None and ta.k in ('ptr', 'arr'); pb = tb is not None and tb.k in ('ptr', 'arr')
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if pa or pb: kind = 'p'
            elif (ta is not None and ta.isflt) or (tb is not None and tb.isflt): kind = 'f'
            elif ta is not None and ta.isint: kind = 'i'
            else: kind = 'p'
            if kind in 'if' and (not arithable(a) or not arithable(b)): kind = 'p' if kind != 'i' or op in ('==', '!=') else kind
            return compare(op, a, b, kind, ta is not None and ta.isint and not ta.sg)
        if pa or pb:
            if op == '+': return self.ptr_add(a, b) if pa else self.ptr_add(b, a)
            if op == '-':
                if pb:
                    if a.op == 'addr' and b.op == 'addr' and a.a[0].root is b.a[0].root and a.a[0].path[:-1] == b.a[0].path[:-1] and a.a[0].path:
                        return sub(a.a[0].path[-1][1], b.a[0].path[-1][1])
                    return mk('pdiff', a, b)
                return self.ptr_add(a, neg(b))
        isf = (ta is not None and ta.isflt) or (tb is not None and tb.isflt)
        if op == '+': return add(self.ar(a), self.ar(b))
        if op == '-': return sub(self.ar(a), self.ar(b))
        if op == '*': return mul(self.ar(a), self.ar(b))
        if op == '/': return fdiv(a, b) if isf else idiv(a, b)
        if op == '%': return imod(a, b)
        if op in ('<<', '>>', '&', '|', '^'):
            if a.op == 'num' and b.op == 'num':
                x, y = int(a.a[0]), int(b.a[0])
                if y >= 0 or op not in ('<<', '>>'):
                    return num({'<<': lambda: x << y, '>>': lambda: x >> y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y}[op]())
            if op == '<<' and b.op == 'num': return mul(a, num(1 << int(b.a[0])))
            if op == '>>' and b.op == 'num': return idiv(a, num(1 << int(b.a[0])))
            if op in ('&', '|') and isbool(a) and isbool(b): return band(a, b) if op == '&' else bor(a, b)
            if op in ('&', '|', '^'): return mk('bit', op, *sorted((a, b), key=lambda x: x.id))
            return mk('bit', op, a, b)
        self.note('op ' + op)
        return mk('op', op, a, b)

    def ar(self, v):
        """booleans used as numbers"""
        if v.op in BOOLOPS: return mk('ite', v, ONE, ZERO)
        return v

    def ev_un(self, e):
        op = e['op']
        if op in ('++', '--'): return self.incdec(e)
        if op == '*': return self.lv(e)
        if op == '&':
            s = e['e']
            if s['k'] == 'fref': return self.ev(s)
            return addr(self.lv_or_temp(s))
        v = self.ev(e['e'])
        if op == '-': return neg(self.ar(v))
        if op == '+': return v
        if op == '!': return bnot(tobool(v))
        if op == '~': return num(~int(v.a[0])) if v.op == 'num' else mk('bit', '~', v)
        return v

    def incdec(self, e):
        l = self.lv(e['e'])
        old = self.read(l)
        t = e['e'].T
        d = ONE if e['op'] == '++' else num(-1)
        nv = self.ptr_add(old, d) if (t is not None and t.k == 'ptr') else add(self.ar(old), d)
        self.write(l, nv, e, e['op'])
        return old if e.get('post') else nv

    def ev_asg(self, e):
        op = e['op']
        if op == '=':
            l = None
            rhs = e['b']
            if rhs['k'] in ('ctor', 'init') :
                v = self.ev(rhs); l = self.lv(e['a'])
            else:
                v = self.ev(rhs)
                l = self.lv(e['a'])
            self.write(l, v, e)
            return v
        r = self.ev(e['b'])
        l = self.lv(e['a'])
        old = self.read(l)
        v = self.arith(op[:-1], old, r, e['a'].T if not e.get('ct') or e['a'].T.k == 'ptr' else e['ct'] if e['a'].T.k != 'ptr' else e['a'].T, e['b'].T, e)
        if e['a'].T.isint and e.get('ct') is not None and e['ct'].isflt: v = mk('trunc', v)
        if self.casts is not None and e.get('ct') is not None and e['a'].T.isint and e['ct'].w == 64 and e['a'].T.w < 64: self.cast(e, e['ct'], e['a'].T, v)
        self.write(l, v, e, op)
        return v

    def ev_throw(self, e):
        v = self.ev(e['e']) if e.get('e') else ZERO
        self.emit('throw', '', [v], [], e)
        self.npend_total += 1
        raise Dead()

    def ev_new(self, e):
        r = root('H', self.cp[1] if self.cp else 0, e.nid, e['at'].s)
        if self.declstack: self.declstack[-1].add(r)
        l = mkloc(r)
        self.noev_set(l, mk('uninit', l))
        ev = self.emit('new', e['at'].s, [], [l], e, T=e['at'])
        if e.get('size') is not None:
            n = self.ev(e['size'])
            ev.args = [n]
            self.noev_set(fld(l, '#n'), n)
            if e.get('init') is not None and e['init']['k'] in ('zero', 'init'): self.noev_set(l, mk('zeroed'))
            return addr(elem(l, ZERO))
        if e.get('init') is not None: self.init_loc(l, e['init'], None)
        return addr(l)

    def ev_delete(self, e):
        v = self.ev(e['e'])
        self.emit('delete', '', [v], [], e)
        T = e['e'].T
        if v.op == 'addr' and T is not None and T.k == 'ptr' and T.e.k == 'rec': self.destroy(v.a[0], T.e)
        return ZERO

    def ev_init(self, e):
        t = e.T
        if t.k in ('int', 'flt', 'ptr'):
            return self.ev(e['e'][0]) if e['e'] else ZERO
        l = self.temp(e)
        self.noev_set(l, mk('uninit', l))
        self.init_list(l, e)
        return self.read(l)

    def ev_ctor(self, e):
        if (e.get('copy') or e.get('move')) and e['args']:
            return self.ev(e['args'][0])
        l = self.temp(e)
        self.noev_set(l, mk('uninit', l))
        self.construct(e, l)
        return self.peek(l)

    def ev_unk(self, e):
        self.note('expr ' + e.get('cls', '?'))
        for c in e.get('ch', []): self.ev(c)
        return mk('sym', 'unk', e.nid)
    def ev_arrcopy(self, e): return self.ev(e['e'])

    # ------------------------------------------------------------ construct
    def construct(self, e, l):
        """run constructor expression e on location l"""
        while e['k'] in ('mat',) or (e['k'] == 'cast' and e['ck'] in ('DerivedToBase', 'UncheckedDerivedToBase')): e = e['e']
        if e['k'] != 'ctor': self.init_loc(l, e, None); return
        t = e.T
        if t.k == 'arr':
            if t.e.k == 'rec' and t.e.n in self.prog.recs: self.write(l, mk('zeroed'), e, 'init')
            return
        cls = e.get('cls')
        args = e['args']
        if (e.get('copy') or e.get('move')) and e.get('impl') and args or ((e.get('copy') or e.get('move')) and not e.get('u') and args):
            self.write(l, self.ev(args[0]), e, 'copy')
            if self.model.is_container(t): self.emit('cont', 'copy', [], [l], e, T=t)
            return
        if self.model.construct(self, e, l, t): return
        if self.is_abstract(cls):
            a = [self.ev(x) for x in args]
            b = [x for x in a]
            self.model.abs_construct(self, e, l, cls, b)
            return
        F = self.prog.funcs.get(e['fn'])
        if F is not None and F.get('body'):
            self.inline(F, l, self.eval_args(F, args, e), e)
            return
        rec = self.prog.recs.get(t.n)
        if rec is not None and not args:
            for b in rec['bases']: pass
            for f in self.prog.fields_of(t.n):
                if f.get('init') is not None: self.init_loc(fld(l, f['n']), f['init'], None)
                elif f['t'].k == 'rec': self.default_init(fld(l, f['n']), f['t'], e)
            return
        vs = [self.ev(x) for x in args]
        self.write(l, mk('obj', t.tn or t.s, tuple(vs)), e, 'init')

    def default_init(self, l, t, node):
        fake = Node(); fake.nid = node.nid; fake.file = node.file; fake.T = t
        fake.update({'k': 'ctor', 't': t, 'args': [], 'cls': t.n, 'fn': '', 'l': node.get('l', 0), 'pp': []})
        if self.model.construct(self, fake, l, t): return
        if self.is_abstract(t.n): self.model.abs_construct(self, fake, l, t.n, []); return
        rec = self.prog.recs.get(t.n)
        if rec is not None:
            for m in rec['methods']:
                f = self.prog.funcs.get(m['u'])
                if f and f.get('kind') == 'ctor' and not f['params'] and f.get('body'):
                    self.inline(f, l, [], node); return
            for f in rec['fields']:
                if f.get('init') is not None: self.init_loc(fld(l, f['n']), f['init'], None)
                elif f['t'].k == 'rec': self.default_init(fld(l, f['n']), f['t'], node)

    def eval_args(self, F, args, node):
        out = []
        for i, a in enumerate(args):
            p = F['params'][i] if i < len(F['params']) else None
            if p is not None and p['t'].k == 'ref': out.append(('l', self.lv_or_temp(a)))
            else: out.append(('v', self.ev(a)))
        return out

    # ----------------------------------------------------------------- call
    def ev_call(self, e):
        self.line = e.get('l', self.line); self.file = e.file
        fn = e.get('fn')
        if fn is None:
            p = self.ev(e['ptr'])
            return self.call_value(p, e)
        name = e['n']
        F = self.prog.funcs.get(fn)
        obj = e.get('obj')
        # observers kept symbolic
        if name in self.opaque or name in self.pure:
            vs = [self.ev(a) for a in e['args']]
            if name in self.opaque and obj is not None and obj['k'] != 'this': self.ev_objonly(obj)
            v = mk('call', name, *vs)
            if F is not None and F['ret'].b: return mk('lit', name, *vs)
            return v
        if obj is not None and e.get('cls') is not None and self.is_abstract(e['cls']):
            r = self.model.abs_method(self, e, F)
            if r is not NotImplemented: return r
        if e.get('u') and F is not None:
            if name in self.noinline:
                this = None
                if obj is not None: this = self.this_loc(e, obj)
                args = self.eval_args(F, e['args'], e)
                return self.opaque_call(name, this, args, e, F)
            if e.get('virt'):
                if self.virtual_opaque:
                    this = self.this_loc(e, obj)
                    return self.opaque_call(name, this, self.eval_args(F, e['args'], e), e, F)
                return self.virtual(e, F, obj)
            if F.get('body'):
                this = None
                if obj is not None: this = self.this_loc(e, obj)
                args = self.eval_args(F, e['args'], e)
                if isinstance(this, CondLoc): return self.cond_call(F, this, args, e)
                return self.inline(F, this, args, e)
        r = self.model.call(self, e, name)
        if r is not NotImplemented: return r
        return self.model.external(self, e, name)

    def ev_objonly(self, obj): pass

    def this_loc(self, e, obj):
        if e.get('arrow'):
            return self.deref(self.ev(obj))
        return self.lv_or_temp(obj)

    def cond_call(self, F, this, args, e):
        if not isinstance(this, CondLoc): return self.inline(F, this, args, e)
        out = {}
        def fa(): out['a'] = self.cond_call(F, this.a, args, e)
        def fb(): out['b'] = self.cond_call(F, this.b, args, e)
        self.branch(this.c, fa, fb)
        if 'a' not in out: return out['b']
        if 'b' not in out: return out['a']
        return self.merge_ret(this.c, out['a'], out['b'])

    def dyn_class(self, l):
        """class of the object at l if known"""
        if l.root[0] == 'H' and not l.path: return l.root[3]
        return None

    def virtual(self, e, F, obj):
        this = self.this_loc(e, obj)
        args = self.eval_args(F, e['args'], e)
        return self.virt_on(e, F, obj, this, args)

    def virt_on(self, e, F, obj, this, args):
        if isinstance(this, CondLoc):
            out = {}
            def fa(): out['a'] = self.virt_on(e, F, obj, this.a, args)
            def fb(): out['b'] = self.virt_on(e, F, obj, this.b, args)
            self.branch(this.c, fa, fb)
            if 'a' not in out: return out.get('b')
            if 'b' not in out: return out['a']
            return self.merge_ret(this.c, out['a'], out['b'])
        cls = self.dyn_class(this)
        if cls is None and not this.path:
            if this.root[0] == 'S': cls = this.root[1]
            else: cls = self.declcls.get(this.root)
        if cls is not None:
            T = self.find_override(F, cls)
            if T is not None and T.get('body'): return self.inline(T, this, args, e)
        cands = []
        def collect(u):
            f = self.prog.funcs.get(u)
            if f is not None and f.get('body') and f not in cands: cands.append(f)
            for o in self.prog.over.get(u, []): collect(o)
        collect(F['usr'])
        if not cands:
            return self.opaque_call(F['n'], this, args, e, F)
        res = {}
        def go(i):
            if i == len(cands) - 1:
                res[i] = self.inline(cands[i], this, args, e); return
            c = mk('lit', 'dyn', addr(this), cands[i].get('cls', ''))
            def fa(): res[i] = self.inline(cands[i], this, args, e)
            def fb(): go(i + 1)
            self.branch(c, fa, fb)
        go(0)
        v = None
        for i in range(len(cands) - 1, -1, -1):
            if i not in res: continue
            v = res[i] if v is None else self.merge_ret(mk('lit', 'dyn', addr(this), cands[i].get('cls', '')), res[i], v)
        return v

    def find_override(self, F, cls):
        """most derived implementation of F for dynamic class cls"""
        chain = self.prog.bases_of(cls)
        want = {F['usr']}
        def closure(u):
            for o in self.prog.over.get(u, []):
                if o not in want: want.add(o); closure(o)
        closure(F['usr'])
        for c in chain:
            for u in want:
                f = self.prog.funcs.get(u)
                if f is not None and f.get('cls') == c: return f
        return None

    def call_value(self, p, e, args=None):
        if p.op == 'fn':
            F = self.prog.funcs.get(p.a[0])
            if F is not None and F.get('body'):
                return self.inline(F, None, args if args is not None else self.eval_args(F, e['args'], e), e)
            return self.model.external_args(self, e, p.a[1], args)
        if p.op == 'lam':
            le = self.lams[p.a[0]][0]
            return self.call_lambda(p, args if args is not None else self.eval_args({'params': le['params']}, e['args'], e), e)
        if p.op == 'ite':
            out = {}
            if args is None: args = [('v', self.ev(a)) if not a.get('lv') else ('l', self.lv(a)) for a in e['args']]
            def fa(): out['a'] = self.call_value(p.a[1], e, args)
            def fb(): out['b'] = self.call_value(p.a[2], e, args)
            self.branch(p.a[0], fa, fb)
            if 'a' not in out: return out.get('b')
            if 'b' not in out: return out['a']
            return self.merge_ret(p.a[0], out['a'], out['b'])
        if args is None: args = [('v', self.ev(a)) if not a.get('lv') else ('l', self.lv(a)) for a in e['args']]
        self.note('indirect call')
        return self.opaque_call('*indirect', None, args, e)

def c_false(L, post):
    return not post and L.cond is FALSE

def arithable(v):
    return v.op not in ('addr', 'str', 'fn', 'lam')
