"""C08: mesh files are read back as they are written."""
import re
from sa.common import *

TECHNIQUE = 'field-sequence (grammar) extraction of writers and readers with symbolic repetition counts, compared structurally; symbolic partition offsets'
NOTE = """From the event trace of each writer and reader the sequence of words is extracted as a tree of fields and counted repetitions (through the
staging buffers, with symbolic counts) and the trees are compared; offsets in the partition table are compared with the sizes computed from the
writer's tree.  Decides all counts of cells, faces, nodes and partitions.  Shapes the extraction cannot follow are reported in notes, not judged."""

class Odd(Exception): pass

# ------------------------------------------------------------------ canonical names
class Canon(object):
    def __init__(self, eng):
        self.eng = eng
        self.const = {}     # constant -> field path, for constants stored in fields of the object
        self.val = {}       # value -> field path
        for e in eng.events:
            if e.kind == 'write' and e.locs and isinstance(e.locs[0], Loc) and e.name == '=':
                l = eng.resolve_loc(e.locs[0])
                if l.root[0] not in ('S', 'P', 'D'): continue
                v = eng.resolve(e.args[0])
                if v.op == 'num': self.const.setdefault(v.a[0], l)
                elif v.op in ('sel', 'out', 'call', 'init', 'sym'): self.val.setdefault(v, l)
    def path(self, v):
        """location path (tuple of selectors) of a value read from the object, or None"""
        v = self.eng.resolve(v)
        if v.op == 'bytes' and v.a[0].op == 'at':
            b = self.path(v.a[0].a[0])
            return None if b is None else b + (('i', v.a[0].a[1]),)
        if v in self.val: return self.loc(self.val[v])
        if v.op == 'init' and isinstance(v.a[0], Loc): return self.loc(v.a[0])
        if v.op == 'sel':
            b = self.path(v.a[0])
            return None if b is None else b + (v.a[1],)
        if v.op in ('fin', 'mu') and len(v.a) > 1 and isinstance(v.a[1], Loc): return self.loc(v.a[1])
        return None
    def loc(self, l):
        l = self.eng.resolve_loc(l)
        return l.path if l.root[0] in ('S', 'P', 'D') else None
    def name(self, v, ivs=()):
        """text naming a value: the field and its indices relative to the enclosing loops"""
        v = self.eng.resolve(v)
        if v.op == 'num':
            return str(v.a[0])
        p = self.path(v)
        if p is not None: return self.pname(p, ivs)
        if v.op == 'poly':
            out = []
            for m, c in terms(v).items():
                ns = [self.name(x, ivs) for x in m]
                if None in ns: return None
                out.append((tuple(sorted(ns)), c))
            return 'poly' + str(sorted(out))
        return None
    def pname(self, path, ivs):
        out = []
        for s in path:
            if s[0] == 'f':
                f = s[1].split('::')[-1]
                if not f.startswith('#'): out.append(f)
                elif f == '#n': out.append('size')
            elif s[0] == 'i':
                x = self.eng.resolve(s[1])
                if x.op == 'num': out.append('[%s]' % x.a[0])
                else:
                    k = [i for i, L in enumerate(ivs) if is_index(self.eng, x, L)]
                    if not k: return None
                    out.append('[loop %d]' % (len(ivs) - 1 - k[0]))
            else: return None
        return '.'.join(out).replace('.[', '[')

def is_index(eng, x, L):
    return x.op == 'iv' and x.a[0] == L.n

# ------------------------------------------------------------------ trees
class W(object):
    def __init__(self, v=None, path=None, size=8, where='', guard=()): self.v, self.path, self.size, self.where, self.guard = v, path, size, where, guard
class Rep(object):
    def __init__(self, L, count, kids): self.L, self.count, self.kids = L, count, kids

def subst_tree(eng, kids, m):
    out = []
    for k in kids:
        if isinstance(k, Rep):
            out.append(Rep(k.L, eng.subst(k.count, m), subst_tree(eng, k.kids, m)))
        else:
            out.append(W(None if k.v is None else eng.subst(k.v, m), None if k.path is None else spath(eng, k.path, m), k.size, k.where, k.guard))
    return out
def spath(eng, p, m):
    return tuple((s[0], eng.subst(s[1], m)) if s[0] == 'i' else s for s in p)

def unroll(eng, kids):
    out = []
    for k in kids:
        if isinstance(k, Rep):
            c = eng.resolve(k.count)
            if c.op == 'num' and c.a[0] <= 64:
                for i in range(int(c.a[0])): out += unroll(eng, subst_tree(eng, k.kids, {k.L.iv: num(i)}))
            else: out.append(Rep(k.L, c, unroll(eng, k.kids)))
        else: out.append(k)
    return out

def nest(evs, base=()):
    """events -> nested [(event) | (loop, [..])]"""
    root_ = []
    stack = [(None, root_)]
    for e in evs:
        ls = loops_of(e)
        i = 0
        while i < len(ls) and i + 1 < len(stack) and stack[i + 1][0] is ls[i]: i += 1
        stack = stack[:i + 1]
        for L in ls[i:]:
            n = []
            stack[-1][1].append((L, n)); stack.append((L, n))
        stack[-1][1].append(e)
    return root_

def buf_of(eng, p):
    """(location, byte offset) of a buffer pointer"""
    p = eng.resolve(p)
    if p.op == 'addr' and isinstance(p.a[0], Loc): return eng.resolve_loc(p.a[0])
    return None

# ------------------------------------------------------------------ writers
def writer_tree(eng, P):
    evs = [e for e in eng.events if (e.kind == 'cont' and e.name in ('push', 'construct', 'clear', 'resize', 'assign', 'insert'))
           or (e.kind == 'call' and e.name in ('fwrite', 'fputc', 'fseek', 'fprintf'))]
    def go(nodes, bufs):
        stream = []
        for n in nodes:
            if isinstance(n, tuple):
                L, kids = n
                inner = {}
                s = go(kids, inner)
                if L.count is None or L.early: raise Odd('loop at %s' % L)
                if s:
                    if any(v for k, v in inner.items()) or any(v for v in bufs.values()): raise Odd('a buffer is carried through a writing loop')
                    stream.append(Rep(L, L.count, s))
                else:
                    for b, v in inner.items():
                        if v: bufs.setdefault(b, []).append(Rep(L, L.count, v))
                continue
            e = n
            if e.kind == 'cont':
                if not isinstance(e.locs[0], Loc): raise Odd('buffer')
                b = e.locs[0]
                if e.name == 'push':
                    if b.root[0] in ('S', 'P', 'D'): continue
                    bufs.setdefault(b, []).append(W(v=e.args[0], where=e.where, guard=tuple(eng.resolve(g) for g in guards(e))))
                elif e.name in ('construct', 'clear'):
                    bufs[b] = []
                elif b.root[0] in ('S', 'P', 'D'): continue
                elif e.name == 'resize' and e.args and eng.resolve(e.args[0]) is ZERO: bufs[b] = []
                else: raise Odd('buffer filled by %s' % e.name)
            elif e.name == 'fwrite':
                l = buf_of(eng, e.args[0])
                if l is None: raise Odd('fwrite source')
                b = l
                while b.path and (b.path[-1][0] == 'i' or b.path[-1][1] == '#d'): b = mkloc(b.root, b.path[:-1])
                g = tuple(eng.resolve(x) for x in guards(e))
                sz, n = eng.resolve(e.args[1]), eng.resolve(e.args[2])
                if b in bufs:
                    stream += bufs[b]
                    e_n = eng.resolve(e.args[2])
                else:
                    stream += direct(eng, l, sz, n, e.where, g)
            else: raise Odd(e.name)
        return stream
    return unroll(eng, go(nest(evs), {}))

_dl = [0]
def direct(eng, l, sz, n, where, g=()):
    """a transfer straight from or to a field"""
    if sz.op != 'num': raise Odd('element size')
    if l.root[0] not in ('S', 'P', 'D'):
        return [Rep(None, n, [W(v=mk('local', repr(l)), size=sz.a[0], where=where, guard=g)])] if sz.a[0] != 1 else [W(v=mk('local', repr(l)), size=n, where=where, guard=g)]
    if sz.a[0] == 1:
        if l.path and l.path[-1] == ('i', ZERO): l = mkloc(l.root, l.path[:-1])
        return [W(path=l.path, size=n, where=where, guard=g)]
    if n.op == 'num' and n.a[0] == 1 and not (l.path and l.path[-1][0] == 'i'): return [W(path=l.path, where=where, guard=g, size=sz.a[0])]
    if l.path and l.path[-1] == ('i', ZERO):
        L = LoopObj(); L.n = -1 - _dl[0]; _dl[0] += 1
        L.iv = mk('iv', L.n); L.count = n
        return [Rep(L, n, [W(path=l.path[:-1] + (('i', L.iv),), where=where, guard=g, size=sz.a[0])])]
    raise Odd('transfer of a structure')
class LoopObj(object): pass

# ------------------------------------------------------------------ readers
def reader_tree(eng):
    """-> (list of (node or ('seek', value, event)))"""
    reads = {}
    evs = []
    for e in eng.events:
        if e.kind == 'call' and e.name in ('fread', 'MPI_File_read', 'MPI_File_read_at', 'MPI_File_read_all', 'MPI_File_read_at_all', 'MPI_File_seek', 'fseek'):
            evs.append(e)
            if 'read' in e.name: reads[e.seq] = e
    # where the words of each read go
    dest = {k: [] for k in reads}
    for e in eng.events:
        if e.kind == 'write' and e.name != 'ext' and e.locs and isinstance(e.locs[0], Loc):
            v = eng.resolve(e.args[0])
            if v.op == 'bytes' and v.a[0].op == 'at': v = mk('sel', v.a[0].a[0], ('i', v.a[0].a[1])) if not isinstance(v.a[0].a[1], tuple) else v
            while v.op in ('trunc', 'cast') and v.a and isinstance(v.a[-1], V): v = v.a[-1]
            if v.op == 'sel' and v.a[1][0] == 'i' and v.a[0].op == 'out' and v.a[0].a[0] in dest:
                dest[v.a[0].a[0]].append((eng.resolve(v.a[1][1]), e))
            elif v.op == 'out' and v.a[0] in dest and v.a[1] != 'ret':
                dest[v.a[0]].append((None, e))
    def go(nodes, depth):
        out = []
        for n in nodes:
            if isinstance(n, tuple):
                L, kids = n
                if L.count is None or L.early: raise Odd('loop at %s' % L)
                out.append(Rep(L, L.count, go(kids, depth + 1)))
                continue
            e = n
            g = tuple(eng.resolve(x) for x in guards(e))
            if e.name in ('MPI_File_seek', 'fseek'):
                out.append(('seek', eng.resolve(e.args[1]), e, g)); continue
            if e.name == 'fread': ptr, sz, cnt = e.args[0], eng.resolve(e.args[1]), eng.resolve(e.args[2])
            else:
                k = 0
                if '_at' in e.name:
                    out.append(('seek', eng.resolve(e.args[1]), e, g)); k = 1
                ptr, cnt, ty = e.args[1 + k], eng.resolve(e.args[2 + k]), mpi_const(e.args[3 + k])
                if ty not in MPI_SIZE: raise Odd('type')
                sz = num(MPI_SIZE[ty])
            l = buf_of(eng, ptr)
            if l is None: raise Odd('read destination')
            ds = dest[e.seq]
            if l.root[0] in ('S', 'P', 'D'): out += direct(eng, l, sz, cnt, e.where, g); continue
            if sz.op == 'num' and sz.a[0] == 1:
                out.append(W(v=mk('local', repr(l)), size=cnt, where=e.where, guard=g)); continue
            if cnt.op == 'num' and cnt.a[0] == 1 and not ds:
                w = W(v=mk('out', e.seq, 1, l), where=e.where, guard=g); w.read = e.seq
                out.append(w); continue
            out += layout(eng, ds, cnt, depth, e, g)
        return out
    return unroll(eng, go(nest(evs), 0)), dest

def layout(eng, ds, cnt, depth, e, g):
    items = []
    field = lambda w: eng.resolve_loc(w.locs[0]).root[0] in ('S', 'P', 'D')
    used = {i for i, w in ds if field(w)}
    one = set()
    for idx, w in ds:
        if not field(w):
            # a local copy: only if the word has no other use
            if idx in used or (idx, 'l') in one: continue
            one.add((idx, 'l'))
        gs = tuple(eng.resolve(x) for x in guards(w))
        dl = eng.resolve_loc(w.locs[0])
        if dl.root[0] not in ('S', 'P', 'D'):
            word = W(v=mk('local', repr(dl)), where=w.where)
        else: word = W(path=dl.path, where=w.where, guard=gs if gs != g else ())
        items.append((idx if idx is not None else ZERO, loops_of(w)[depth:], word))
    # loops of constant length are written out
    work = []
    while items:
        idx, ls, w = items.pop()
        for i, L in enumerate(ls):
            c = None if L.count is None else eng.resolve(L.count)
            if c is not None and c.op == 'num' and c.a[0] <= 64:
                for k in range(int(c.a[0])):
                    m = {L.iv: num(k)}
                    (w2,) = subst_tree(eng, [w], m)
                    items.append((eng.resolve(eng.subst(idx, m)), ls[:i] + ls[i + 1:], w2))
                break
        else: work.append((idx, ls, w))
    seg = compose(eng, work, e)
    seg.sort(key=lambda s: s[3])
    # chain the segments from the start
    out, at = [], ZERO
    left = list(seg)
    while left:
        nx = [s for s in left if s[0] is at]
        if len(nx) != 1:
            if len(nx) > 1: raise Bad(e.where, 'one word of the file is used for two fields: %s' % ', '.join(show1(s) for s in nx))
            raise Bad(left[0][4], 'the data read at %s is taken apart with a gap or overlap at word %s' % (rel_(e.where), show(at)))
        s = nx[0]; left.remove(s)
        out += s[2]; at = add(at, s[1])
    if at is not cnt:
        raise Bad(e.where, '%s words are read but %s are used' % (show(cnt), show(at)))
    return out
def rel_(w): return w.split('/')[-1]
def show1(s): return s[4].split('/')[-1]
class Bad(Exception):
    def __init__(self, where, msg): self.where, self.msg = where, msg

def compose(eng, items, e):
    """-> [(start, length, nodes, order, where)]"""
    out = []
    groups = {}
    for n, (idx, ls, w) in enumerate(items):
        if not ls: out.append((idx, ONE, [w], n, w.where))
        else: groups.setdefault(ls[0].n, []).append((idx, ls, w))
    for k, its in groups.items():
        L = its[0][1][0]
        if L.count is None or L.early: raise Odd('loop %s' % L)
        S = None
        inner = []
        for idx, ls, w in its:
            t = terms(idx)
            s, rest = ZERO, ZERO
            for m, c in t.items():
                if L.iv in m:
                    q = list(m); q.remove(L.iv)
                    if L.iv in q: raise Odd('quadratic index')
                    s = add(s, from_terms({tuple(q): c}))
                else: rest = add(rest, from_terms({m: c}))
            if S is None: S = s
            if s is not S: raise Bad(w.where, 'the words of one entry are taken with strides %s and %s' % (show(S), show(s)))
            inner.append((rest, ls[1:], w))
        segs = compose(eng, inner, e)
        # contiguous from the smallest start
        starts = {s[0] for s in segs}
        ends = {add(s[0], s[1]) for s in segs}
        first = [s for s in segs if s[0] not in ends]
        if len(first) != 1: raise Bad(segs[0][4], 'the words of one entry are not contiguous or one is used twice')
        at = first[0][0]; nodes = []; ln = ZERO
        left = list(segs)
        while left:
            nx = [s for s in left if s[0] is at]
            if len(nx) != 1: raise Bad(left[0][4], 'the words of one entry are not contiguous or one is used twice')
            s = nx[0]; left.remove(s); nodes += s[2]; at = add(at, s[1]); ln = add(ln, s[1])
        if ln is not S:
            raise Bad(its[0][2].where, 'entries are %s words apart but %s words of each are used' % (show(S), show(ln)))
        out.append((first[0][0], mul(S, eng.resolve(L.count)), [Rep(L, L.count, nodes)], its[0][2].where, its[0][2].where))
    return [(a, b, c, i, w) for i, (a, b, c, d, w) in enumerate(out)]

# ------------------------------------------------------------------ comparison
class Side(object):
    def __init__(self, eng): self.eng = eng; self.c = Canon(eng)
    def word(self, w, ivs):
        if w.path is not None: return self.c.pname(w.path, ivs)
        v = self.eng.resolve(w.v)
        if v.op == 'local': return None
        if v.op == 'num':
            l = self.c.const.get(v.a[0])
            return self.c.pname(l.path, ivs) if l is not None else None
        return self.c.name(v, ivs)

def compare(R, what, A, ta, B, tb, drop='', iva=(), ivb=(), nested=False):
    """A: writer, B: reader"""
    i = 0
    while i < max(len(ta), len(tb)):
        if i >= len(ta) or i >= len(tb):
            x = (tb if i >= len(ta) else ta)[i]
            R.oblige('%s: same length' % what, False, where_of(x), '%s: the %s has %s that the %s does not have' % (
                what, 'reader' if i >= len(ta) else 'writer', desc(B if i >= len(ta) else A, x, ivb if i >= len(ta) else iva), 'writer' if i >= len(ta) else 'reader'), '%s length' % what)
            return
        a, b = ta[i], tb[i]
        if isinstance(a, Rep) != isinstance(b, Rep):
            R.oblige('%s: same structure' % what, False, where_of(b), '%s: where the writer puts %s the reader expects %s' % (what, desc(A, a, iva), desc(B, b, ivb)), '%s structure %d' % (what, i))
            return
        if isinstance(a, Rep):
            ca, cb = A.c.name(a.count, iva), B.c.name(b.count, ivb)
            ca, cb = strip(ca, drop), strip(cb, drop)
            if ca is None or cb is None or 'size' in ca or 'size' in cb: R.notes.append('%s: a count is not comparable (%s, %s)' % (what, show(a.count), show(b.count)))
            else:
                R.oblige('%s: count %s' % (what, ca), ca == cb, where_of(b), '%s: the writer writes %s entries where the reader reads %s' % (what, ca, cb), '%s count %d' % (what, i))
            compare(R, what, A, a.kids, B, b.kids, drop, iva + (a.L,), ivb + (b.L,), True)
        else:
            na, nb = A.word(a, iva), B.word(b, ivb)
            na, nb = strip(na, drop), strip(nb, drop)
            sa, sb = siz(a), siz(b)
            R.oblige('%s: size of word %d' % (what, i), sa is sb, where_of(b), '%s: the writer puts %s bytes where the reader takes %s' % (what, show(sa), show(sb)), '%s size %d' % (what, i))
            if na is not None and nb is not None:
                R.oblige('%s: field %s' % (what, na), na == nb, where_of(b), '%s: the reader stores in %s what the writer takes from %s' % (what, nb, na), '%s field %s' % (what, na))
            else: R.count('words not named')
            ga = [g for g in a.guard]
            if ga and not b.guard: R.oblige('%s: written unconditionally' % what, False, where_of(a), '%s: the writer leaves out a word unless %s' % (what, ', '.join(map(show, ga))), '%s guard' % what)
        i += 1
def strip(n, drop):
    if n is None or not drop: return n
    return re.sub(drop, '', n)
def siz(w): return w.size if isinstance(w.size, V) else num(w.size)
def where_of(x): return where_of(x.kids[0]) if isinstance(x, Rep) else x.where
def desc(S, x, ivs):
    if isinstance(x, Rep): return '%s entries starting with %s' % (S.c.name(x.count, ivs) or show(x.count), desc(S, x.kids[0], ivs + (x.L,)) if x.kids else 'nothing')
    return S.word(x, ivs) or 'a word'

def size_of(A, kids, ivs=()):
    """bytes of a tree as {name: coefficient}; None if not known"""
    r = {}
    for k in kids:
        if isinstance(k, Rep):
            s = size_of(A, k.kids, ivs + (k.L,))
            if s is None or set(s) - {()}: return None
            t = poly_names(A, k.count, ivs)
            if t is None: return None
            for n, c in t.items(): r[n] = r.get(n, 0) + c * s.get((), 0)
        else:
            s = siz(k)
            if s.op != 'num': return None
            r[()] = r.get((), 0) + s.a[0]
    return {k: v for k, v in r.items() if v}
def poly_names(A, v, ivs):
    out = {}
    for m, c in terms(A.eng.resolve(v)).items():
        ns = [A.c.name(x, ivs) for x in m]
        if None in ns: return None
        out[tuple(sorted(ns))] = out.get(tuple(sorted(ns)), 0) + c
    return out

def entry(P, f, **kw):
    eng = Engine(P, **kw)
    eng.run(f)
    return eng

def has_call(P, f, names):
    """functions of the program f reaches that call one of names"""
    seen, st = set(), [f['usr']]
    while st:
        u = st.pop()
        if u in seen or u not in P.funcs: continue
        seen.add(u)
        b = P.funcs[u].get('body')
        if not b: continue
        for n in walk(b):
            if n.get('k') == 'call':
                if n.get('n') in names: return True
                if n.get('fn'): st.append(n['fn'])
    return False

def check(R):
    R.rule('For every class with a method that writes a file and methods that read one: the sequence of fields written (in order, with sizes and symbolic '
           'repetition counts) equals the sequence read.  The table of partition offsets starts at the size of the header and grows by the size of '
           'each partition, both computed from the writer; the per-process reader takes its offset from its own table entry.')
    P = R.prog('PartitionColumns')
    writers, readers, tables = {}, [], []
    for f in user_funcs(P):
        if not f.get('cls'): continue
        if f.get('access') == 'private': pass
        if has_call(P, f, ('fwrite',)): writers.setdefault(f['cls'], []).append(f)
        if has_call(P, f, ('fread',)): readers.append(f)
    n = 0
    trees = {}
    def outer(fs):
        called = {x.get('fn') for f in fs for x in walk(f['body']) if x.get('k') == 'call'}
        return [f for f in fs if f['usr'] not in called]
    for cls, fs in sorted(writers.items()):
        for f in outer(fs):
            eng = entry(P, f); R.analysed(f['n'])
            try: trees[cls] = (Side(eng), writer_tree(eng, P), f)
            except Odd as x: R.notes.append('%s: not followed: %s' % (f['n'], x))
    for f in outer(readers):
        eng = entry(P, f); R.analysed(f['n'])
        if f['cls'] not in trees: continue
        A, ta, w = trees[f['cls']]
        try: tb, _ = reader_tree(eng)
        except Odd as x: R.notes.append('%s: not followed: %s' % (f['n'], x)); continue
        except Bad as x: R.oblige(f['n'], False, x.where, '%s: %s' % (f['n'], x.msg), '%s layout' % f['n']); n += 1; continue
        n += 1
        if any(isinstance(k, tuple) for k in tb): R.notes.append('%s: seeks' % f['n']); continue
        B = Side(eng)
        if not trail(ta): R.notes.append('%s: nothing written' % w['n']); continue
        compare(R, f['n'], A, ta, B, tb)
    R.count('writer/reader pairs', n)
    # ---------------- per-process reader
    m = 0
    P2 = R.prog('sweep')
    par = [f for f in user_funcs(P2) if f.get('cls') in trees and has_call(P2, f, ('MPI_File_read', 'MPI_File_read_at', 'MPI_File_read_all', 'MPI_File_read_at_all'))]
    for f in outer(par):
        A, ta, w = trees[f['cls']]
        eng = entry(P2, f); R.analysed(f['n'])
        try: tb, dest = reader_tree(eng)
        except Odd as x: R.notes.append('%s: not followed: %s' % (f['n'], x)); continue
        except Bad as x: R.oblige(f['n'], False, x.where, '%s: %s' % (f['n'], x.msg), '%s layout' % f['n']); m += 1; continue
        B = Side(eng)
        segs, cur = [], None
        for k in tb:
            if isinstance(k, tuple): cur = (k, []); segs.append(cur)
            elif cur is None: cur = (None, [k]); segs.append(cur)
            else: cur[1].append(k)
        head, table, body = None, None, None
        table_read = None
        for s, kids in segs:
            pos = ZERO if s is None else s[1]
            if pos.op == 'num' : head = (pos, kids)
            elif any(is_rank_(eng, x) for x in subvals(pos)) and table is None:
                table = (s, pos, kids)
            elif kids: body = (s, pos, kids)
        tpos = next((i for i, k in enumerate(ta) if isinstance(k, Rep)), None)
        if tpos is None or not isinstance(ta[-1], Rep): R.notes.append('%s: no partition table in the writer' % w['n']); continue
        m += 1
        if head is not None and head[1]:
            k = head[1]
            for i, b in enumerate(k):
                if i < tpos:
                    R.oblige('%s: header word %d' % (f['n'], i), siz(ta[i]) is siz(b), b.where, '%s: the header word %d has %s bytes in the file but %s are read' % (f['n'], i, show(siz(ta[i])), show(siz(b))), 'header %d' % i)
            R.oblige('%s: header position' % f['n'], head[0] is ZERO, k[0].where, 'the header is read at byte %s' % show(head[0]), 'header pos')
        hb = size_of(A, ta[:tpos])
        if table is not None and hb is not None and set(hb) <= {()}:
            s, pos, kids = table
            want = add(num(hb.get((), 0)), mul(num(8), next(x for x in subvals(pos) if is_rank_(eng, x))))
            R.oblige('%s: own entry of the partition table' % f['n'], pos is want, s[2].where, '%s: the offset of the partition is read at byte %s, but it is at byte %s' % (f['n'], show(pos), show(want)), 'table pos')
            if body is not None:
                bs = body[1]
                okb = bs.op in ('out', 'sel') and (bs.a[0] if bs.op == 'out' else bs.a[0].op == 'out' and bs.a[0].a[0]) in {e.seq for e in eng.events if e.kind == 'call' and 'File_read' in e.name and e.seq > s[2].seq or e is s[2]}
                R.oblige('%s: partition read at its offset' % f['n'], bool(okb), body[0][2].where, '%s: the partition is read at byte %s and not at the offset in the table' % (f['n'], show(bs)), 'body pos')
        if body is not None:
            compare(R, f['n'], A, ta[-1].kids, B, body[2], drop=part_prefix(A, ta[-1]), iva=(ta[-1].L,))
    # ---------------- partition table
    t = 0
    for f in user_funcs(P):
        if f.get('cls') not in trees: continue
        A, ta, w = trees[f['cls']]
        reps = [k for k in ta if isinstance(k, Rep)]
        if len(reps) != 2: continue
        tf = field_of_table(A, reps[0])
        if tf is None or f is w: continue
        if has_call(P, f, ('fread', 'fwrite')): continue
        eng = entry(P, f); C = Side(eng)
        ws = [e for e in eng.events if e.kind == 'write' and e.name in ('=', '+=') and e.locs and isinstance(e.locs[0], Loc) and
              any(s[0] == 'f' and s[1].split('::')[-1] == tf for s in e.locs[0].path) and e.locs[0].path[-1][0] == 'i']
        pushes = [e for e in eng.events if e.kind == 'cont' and e.name == 'push' and e.locs and isinstance(e.locs[0], Loc) and e.locs[0].path and e.locs[0].path[-1] and field_short(e.locs[0]) == tf]
        if not ws and not pushes: continue
        if any(e.name.startswith('ext') or e.name in ('out',) for e in ws): continue
        R.analysed(f['n'])
        tpos = ta.index(reps[0])
        hb = size_of(A, ta[:ta.index(reps[1])])
        pb = size_of(A, reps[1].kids, (reps[1].L,))
        if hb is None or pb is None: R.notes.append('%s: sizes not known' % w['n']); continue
        prefix = part_prefix(A, reps[1])
        first = [(e.locs[0].path[-1][1], e) for e in ws if not loops_of(e)] + [(None, e) for e in pushes if not loops_of(e)]
        step = [e for e in ws + pushes if loops_of(e)]
        for ix, e in first:
            if ix is not None and eng.resolve(ix) is not ZERO: continue
            got = poly_names(C, e.args[0], ())
            if got is None: R.notes.append('%s: first offset %s' % (f['n'], show(eng.resolve(e.args[0])))); continue
            t += 1
            R.oblige('%s: first offset is the header size' % f['n'], got == hb, e.where, '%s: the first partition is said to start at byte %s but the header has %s bytes' % (f['n'], txt(got), txt(hb)), 'first offset')
        if len(step) == 1 and len(loops_of(step[0])) == 1:
            e = step[0]; L = loops_of(e)[0]
            v = eng.resolve(e.args[0])
            prev = None
            if e.kind == 'write':
                ix = eng.resolve(e.locs[0].path[-1][1])
                at = [x for x in subvals(v) if x.op in ('sel', 'mu') ]
            # the part of the value that is not the running offset
            rest, run = {}, 0
            ok = True
            for mm, c in terms(v).items():
                ns = [C.c.name(x, (L,)) for x in mm]
                if None in ns or any(tf in (z or '') for z in ns):
                    if len(mm) == 1 and c == 1 and run == 0 and is_running(eng, mm[0], tf, L): run += 1
                    else: ok = False
                else: rest[tuple(sorted(strip(z, prefix) for z in ns))] = c
            if not ok or run != 1: R.notes.append('%s: step %s' % (f['n'], show(v))); continue
            t += 1
            want = {tuple(strip(z, prefix) for z in k): c for k, c in pb.items()}
            rest = {tuple(z.replace('[loop 0]', '') for z in k): c for k, c in rest.items()}
            want = {tuple(z.replace('[loop 0]', '') for z in k): c for k, c in want.items()}
            R.oblige('%s: offsets grow by the size of a partition' % f['n'], rest == want, e.where, '%s: consecutive offsets differ by %s bytes but a partition has %s bytes' % (f['n'], txt(rest), txt(want)), 'offset step')
            if e.kind == 'write' and L.count is not None:
                R.oblige('%s: every partition has an offset' % f['n'], ix is add(L.iv, ONE) or ix is L.iv, e.where, 'offset %s is stored in the step of partition %s' % (show(ix), show(L.iv)), 'offset index')
    R.need(len(trees), 1, 'file writers')
    R.need(n + m, 1, 'readers compared with their writer')
    R.count('partition table formulas', t)

def is_running(eng, x, tf, L):
    """the previous offset: an element of the table, or a variable carried through the loop"""
    if x.op in ('mu', 'carried'): return True
    s = show(x)
    return x.op in ('sel',) and tf in s or x.op == 'init'
def txt(d): return ' + '.join('%s*%s' % (c, '*'.join(k)) if k else str(c) for k, c in sorted(d.items())) or '0'
def trail(ta): return bool(ta)
def is_rank_(eng, v):
    return v.op == 'out' and isinstance(v.a[0], int) and eng.events[v.a[0]].name == 'MPI_Comm_rank'
def field_of_table(A, rep):
    if len(rep.kids) != 1 or isinstance(rep.kids[0], Rep): return None
    n = A.word(rep.kids[0], (rep.L,))
    return n.split('[')[0].split('.')[-1] if n and n.endswith('[loop 0]') else None
def part_prefix(A, rep):
    """text before the fields of one partition"""
    for k in rep.kids:
        if isinstance(k, W):
            n = A.word(k, (rep.L,))
            if n and '[loop 0].' in n: return re.escape(n.split('[loop 0].')[0]) + r'\[loop \d+\]\.'
    return ''
