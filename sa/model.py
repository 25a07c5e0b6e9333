"""Meaning of library types and functions for the value-flow engine."""
from .vals import *
from .prog import Node
from . import engine as E

CONT = {'std::vector', 'std::list', 'std::deque', 'std::queue', 'std::priority_queue', 'std::stack', 'std::map', 'std::set',
        'std::multimap', 'std::multiset', 'std::unordered_map', 'std::unordered_set', 'std::array'}
ASSOC = {'std::map', 'std::set', 'std::multimap', 'std::multiset', 'std::unordered_map', 'std::unordered_set'}
STR = {'std::basic_string'}
OPAQUE_REC = {'ompi_communicator_t', 'ompi_datatype_t', 'ompi_op_t', 'ompi_file_t', 'ompi_info_t', 'ompi_request_t', '_IO_FILE',
              '_p_Vec', '_p_Mat', '_p_KSP', '_p_PC', '_p_PetscViewer', '_p_PetscOptions', 'PetscObjectList'}
MUTATORS = {'push_back', 'emplace_back', 'push', 'emplace', 'pop', 'pop_back', 'pop_front', 'push_front', 'insert', 'erase',
            'clear', 'resize', 'assign', 'swap', 'reserve', 'shrink_to_fit', 'operator='}

def is_container(t): return t is not None and t.k == 'rec' and t.tn in CONT
def is_string(t): return t is not None and t.k == 'rec' and (t.tn in STR or t.n in ('std::string',) or (t.n or '').startswith('std::basic_string'))
def is_pair(t): return t is not None and t.k == 'rec' and (t.tn == 'std::pair')
def cls_kind(cls):
    for c in CONT:
        if cls == c or cls.startswith(c + '<'): return c
    if cls.startswith('std::basic_string') or cls == 'std::string': return 'string'
    return None
def is_iter(cls): return '__normal_iterator' in cls or '_Rb_tree' in cls or 'reverse_iterator' in cls or '_List_iterator' in cls or '_List_const_iterator' in cls or '_Bit_iterator' in cls or '_Deque_iterator' in cls

def N(l): return E.fld(l, '#n')
def D(l): return E.fld(l, '#d')
def elem(l, i): return E.elem(D(l), i)

def mkpair(a, b):
    return mk('upd', mk('upd', mk('pair'), ('f', 'first'), a), ('f', 'second'), b)

def _noalloc(args):
    return [a for a in args if not (a.T is not None and a.T.k == 'rec' and (a.T.tn == 'std::allocator' or (a.T.n or '').startswith('std::allocator')))]

# ------------------------------------------------------------ construction
def construct(eng, e, l, t):
    """library classes; True when done"""
    if t is None or t.k != 'rec': return False
    if is_string(t):
        args = _noalloc(e['args'])
        v = eng.ev(args[0]) if args else mk('str', '')
        if len(args) == 2: v = mk('call', 'string', v, eng.ev(args[1]))
        eng.write(l, v, e, 'init')
        return True
    if is_pair(t):
        args = e['args']
        if len(args) == 2: eng.write(l, mkpair(eng.ev(args[0]), eng.ev(args[1])), e, 'init')
        elif not args: eng.write(l, mk('zeroed'), e, 'init')
        else: eng.write(l, eng.ev(args[0]), e, 'init')
        return True
    if is_container(t):
        args = _noalloc(e['args'])
        n, d = ZERO, mk('zeroed')
        if args:
            a0 = args[0]
            if a0.T is not None and a0.T.k == 'arr':
                lo = eng.lv_or_temp(a0)
                n = num(a0.T.cnt or 0); d = eng.peek(lo)
            elif a0.T is not None and a0.T.k == 'int':
                n = eng.ev(a0)
                d = mk('fill', eng.ev(args[1])) if len(args) > 1 else mk('fill', ZERO if _scalar_elem(t) else mk('zeroed'))
            elif len(args) == 2:
                b = eng.ev(args[0]); x = eng.ev(args[1])
                n = pdiff(eng, x, b); d = mk('range', content_at(eng, b), x)
            else:
                v = eng.ev(a0)
                eng.write(l, v, e, 'init')
                eng.emit('cont', 'construct', [], [l], e, T=t)
                return True
        eng.noev_set(l, mk('upd', mk('upd', mk('cont0'), ('f', '#n'), n), ('f', '#d'), d))
        eng.emit('cont', 'construct', [n], [l], e, T=t)
        return True
    if t.n in eng.prog.recs: return False
    args = [eng.ev(a) for a in e['args']]
    if is_iter(t.n or '') or is_iter(t.tn or ''):
        eng.write(l, args[0] if args else ZERO, e, 'init'); return True
    if args: eng.write(l, args[0] if len(args) == 1 else mk('obj', t.tn or t.s, tuple(args)), e, 'init')
    return True

def _scalar_elem(t):
    return bool(t.ta) and t.ta[0].k in ('int', 'flt', 'ptr')

def pdiff(eng, a, b):
    if a.op == 'addr' and b.op == 'addr' and a.a[0].root is b.a[0].root and a.a[0].path[:-1] == b.a[0].path[:-1] and a.a[0].path and a.a[0].path[-1][0] == 'i' and b.a[0].path[-1][0] == 'i':
        return sub(a.a[0].path[-1][1], b.a[0].path[-1][1])
    if a.op == 'it' and b.op == 'it' and a.a[0] is b.a[0]: return sub(a.a[1], b.a[1])
    if a.op == 'padd' and b.op == 'padd' and a.a[0] is b.a[0]: return sub(a.a[1], b.a[1])
    if a.op == 'padd' and a.a[0] is b: return a.a[1]
    if b.op == 'padd' and b.a[0] is a: return neg(b.a[1])
    if a is b: return ZERO
    return mk('pdiff', a, b)

def content_at(eng, p):
    """value: content starting at a pointer or iterator"""
    o = p.op
    if o == 'addr':
        l = p.a[0]
        if isinstance(l, E.CondLoc): return ite(l.c, content_at(eng, addr_(l.a)), content_at(eng, addr_(l.b)))
        if l.path and l.path[-1][0] == 'i':
            base = E.mkloc(l.root, l.path[:-1])
            c = eng.peek(base)
            i = l.path[-1][1]
            return mk('at', c, i)
        return eng.peek(l)
    if o == 'it': return mk('at', eng.peek(D(p.a[0])), p.a[1])
    if o == 'padd':
        return mk('at', eng.peek(E.mkloc(E.root('D', p.a[0]))), p.a[1])
    if o in ('num', 'str', 'fn'): return p
    if o == 'ite': return ite(p.a[0], content_at(eng, p.a[1]), content_at(eng, p.a[2]))
    return mk('at', eng.peek(E.mkloc(E.root('D', p))), ZERO)
def addr_(l): return E.addr(l)

# ------------------------------------------------- abstract indexed classes
def abs_construct(eng, e, l, cls, args):
    eng.noev_set(l, mk('uninit', l))
    for i, a in enumerate(args):
        if a.op == 'addr' or (e['args'][i].T is not None and e['args'][i].T.k == 'ptr'):
            eng.noev_set(E.fld(l, '#alias'), a)
        else: eng.noev_set(E.fld(l, '#x%d' % i), a)
    eng.emit('cont', 'dims', args, [l], e, cls=cls)

def abs_method(eng, e, F):
    sn = e.get('sn') or e['n'].split('::')[-1]
    if sn in ('operator()', 'operator[]'):
        l = eng.this_loc(e, e['obj'])
        idx = [eng.ev(a) for a in e['args']]
        m = E.fld(l, '#m')
        r = E.elem(m, *idx)
        if eng.inpar or True: eng.emit('elem', sn, idx, [l], e, cls=e['cls'])
        return r
    if sn == 'size' and not e['args']:
        l = eng.this_loc(e, e['obj'])
        return eng.peek(E.fld(l, '#size'))
    if sn in ('setToValue', 'setAll', 'fill') and len(e['args']) == 1:
        l = eng.this_loc(e, e['obj'])
        v = eng.ev(e['args'][0])
        eng.write(E.fld(l, '#m'), mk('fill', v), e, 'fill')
        return ZERO
    if sn == 'resize':
        l = eng.this_loc(e, e['obj'])
        args = [eng.ev(a) for a in e['args']]
        for i, a in enumerate(args): eng.noev_set(E.fld(l, '#x%d' % i), a)
        eng.emit('cont', 'dims', args, [l], e, cls=e['cls'])
        return ZERO
    if sn == 'operator=':
        l = eng.this_loc(e, e['obj'])
        v = eng.ev(e['args'][0])
        eng.write(l, v, e)
        return l
    return NotImplemented

# ------------------------------------------------------------------- calls
def call(eng, e, name):
    cls = e.get('cls')
    sn = e.get('sn') or name.split('::')[-1]
    obj = e.get('obj')
    if cls is not None and obj is not None:
        k = cls_kind(cls)
        if k == 'string': return string_method(eng, e, sn, obj)
        if k is not None: return cont_method(eng, e, sn, obj, k, cls)
        if is_iter(cls): return iter_method(eng, e, sn, obj, cls)
        if 'std::pair' in cls and sn == 'operator=':
            l = eng.this_loc(e, obj); v = eng.ev(e['args'][0]); eng.write(l, v, e); return l
        if '_Bit_reference' in cls:
            l = eng.lv_or_temp(obj)
            if sn == 'operator=':
                v = eng.ev(e['args'][0]); eng.write(l, v, e); return l
            return eng.read(l)
    if name in ('std::operator==', 'std::operator!=', 'std::operator<', 'std::operator>', 'std::operator<=', 'std::operator>=',
                '__gnu_cxx::operator==', '__gnu_cxx::operator!=') or (sn in ('operator==', 'operator!=') and obj is None and len(e['args']) == 2):
        a = eng.ev(e['args'][0]); b = eng.ev(e['args'][1])
        return compare(sn[8:], a, b, 'p')
    if sn in ('operator==', 'operator!=') and obj is not None and len(e['args']) == 1:
        a = eng.ev(obj); b = eng.ev(e['args'][0])
        return compare(sn[8:], a, b, 'p')
    if sn == 'operator-' and len(e['args']) == 2 and obj is None and 'chrono' not in name:
        return pdiff(eng, eng.ev(e['args'][0]), eng.ev(e['args'][1]))
    if name == 'std::operator+' and len(e['args']) == 2:
        return mk('concat', eng.ev(e['args'][0]), eng.ev(e['args'][1]))
    if name in ('std::max', 'std::min') and len(e['args']) == 2:
        a = eng.ev(e['args'][0]); b = eng.ev(e['args'][1])
        if a.op == 'num' and b.op == 'num': return a if (a.a[0] >= b.a[0]) == (name == 'std::max') else b
        a, b = sorted((a, b), key=lambda x: x.id)
        return mk(name[5:], a, b)
    if name in ('std::numeric_limits<unsigned long>::max',): return num(2 ** 64 - 1)
    if name in ('std::numeric_limits<unsigned int>::max',): return num(2 ** 32 - 1)
    if name in ('std::numeric_limits<int>::max',): return num(2 ** 31 - 1)
    if name == 'std::make_pair': return mkpair(eng.ev(e['args'][0]), eng.ev(e['args'][1]))
    if name in ('std::move', 'std::forward'):
        return eng.lv_or_temp(e['args'][0])
    if name == 'std::swap' and len(e['args']) == 2:
        a = eng.lv_or_temp(e['args'][0]); b = eng.lv_or_temp(e['args'][1])
        va, vb = eng.read(a), eng.read(b)
        eng.write(a, vb, e); eng.write(b, va, e)
        return ZERO
    if name in ('memcpy', 'memmove', '__builtin_memcpy', 'std::memcpy'):
        return do_memcpy(eng, e)
    if name in ('memset', 'std::memset'):
        vs = [eng.ev(a) for a in e['args']]
        eng.emit('call', 'memset', vs, [], e)
        put(eng, vs[0], mk('fill', vs[1]), vs[2], e)
        return vs[0]
    if name == 'std::sort':
        vs = [eng.ev(a) for a in e['args']]
        eng.emit('cont', 'sort', vs, [], e)
        if vs[0].op == 'it':
            l = vs[0].a[0]
            eng.write(D(l), mk('sorted', eng.peek(D(l))), e, 'sort')
        return ZERO
    if name == 'std::copy':
        vs = [eng.ev(a) for a in e['args']]
        n = pdiff(eng, vs[1], vs[0])
        eng.emit('call', 'std::copy', vs, [], e)
        put(eng, vs[2], mk('bytes', content_at(eng, vs[0]), n), n, e, 'e')
        return eng.ptr_add(vs[2], n)
    if name in ('std::fill',):
        vs = [eng.ev(a) for a in e['args']]
        put(eng, vs[0], mk('fill', vs[2]), pdiff(eng, vs[1], vs[0]), e, 'e')
        return ZERO
    if name == 'omp_get_thread_num':
        f = eng.st.ctx
        while f is not None:
            if f.kind == 'omp' and 'parallel' in f.a.dk: return mk('sym', 'tid', f.a.n)
            f = f.up
        return ZERO
    if name in E.PURE:
        vs = [eng.ev(a) for a in e['args']]
        n = name.replace('std::', '')
        if n == 'pow' and len(vs) == 2 and vs[1].op == 'num' and vs[1].a[0] in (2, 3):
            r = vs[0]
            for _ in range(int(vs[1].a[0]) - 1): r = mul(r, vs[0])
            return r
        vs = [E_content(eng, a, v) for a, v in zip(e['args'], vs)]
        return mk('call', n, *vs)
    if 'chrono' in name and sn != 'now':
        vs = []
        l = None
        if obj is not None:
            l = eng.lv_or_temp(obj)
        vs = [eng.ev(a) for a in e['args']]
        if sn == 'operator=': eng.write(l, vs[0], e); return l
        if l is not None: vs = [eng.read(l)] + vs
        return mk('call', 'chrono::' + sn, *vs)
    return NotImplemented

def E_content(eng, a, v):
    """char pointers stand for the string they point to"""
    if v.op == 'addr' and a.T is not None and a.T.k == 'ptr' and not isinstance(v.a[0], E.CondLoc): return content_at(eng, v)
    return v

def put(eng, p, v, n, e, unit='b'):
    """write n bytes (or elements) of v at pointer p"""
    o = p.op
    if o == 'ite':
        # both alternatives may be hit
        put(eng, p.a[1], v, n, e, unit); put(eng, p.a[2], v, n, e, unit)
        return
    if o == 'addr':
        l = p.a[0]
        if isinstance(l, E.CondLoc):
            put(eng, E.addr(l.a), v, n, e, unit); put(eng, E.addr(l.b), v, n, e, unit); return
        if l.path and l.path[-1][0] == 'i':
            base = E.mkloc(l.root, l.path[:-1]); i = l.path[-1][1]
        else:
            eng.write(l, v, e, 'memcpy'); return
    elif o == 'it': base = D(p.a[0]); i = p.a[1]
    elif o == 'padd': base = E.mkloc(E.root('D', p.a[0])); i = p.a[1]
    elif o in ('num', 'str', 'fn', 'lam'): return
    else: base = E.mkloc(E.root('D', p)); i = ZERO
    if n is not None and n is ONE and unit == 'e':
        eng.write(E.elem(base, i), v, e, 'put'); return
    eng.write(base, mk('rstore', eng.peek(base), i, v, n if n is not None else mk('sym', '?')), e, 'put')

def do_memcpy(eng, e):
    vs = [eng.ev(a) for a in e['args']]
    dst, src, n = vs
    c = content_at(eng, src)
    eng.emit('call', 'memcpy', vs, [], e, content=c)
    whole = c.op != 'at'
    v = mk('bytes', c, n)
    # copy of a whole object onto a whole object
    if dst.op == 'addr' and not isinstance(dst.a[0], E.CondLoc):
        l = dst.a[0]
        if not (l.path and l.path[-1][0] == 'i'):
            eng.write(l, c if whole else v, e, 'memcpy')
            return dst
    put(eng, dst, c if whole else v, n, e)
    return dst

# -------------------------------------------------------------- containers
def cont_method(eng, e, sn, obj, k, cls):
    l = eng.this_loc(e, obj)
    if isinstance(l, E.CondLoc):
        # act on both alternatives under their condition
        args = None
        out = {}
        def fa(): out['a'] = _cont(eng, e, sn, l.a, k, cls)
        def fb(): out['b'] = _cont(eng, e, sn, l.b, k, cls)
        eng.branch(l.c, fa, fb)
        if 'a' not in out: return out.get('b', ZERO)
        if 'b' not in out: return out['a']
        return eng.merge_ret(l.c, out['a'], out['b'])
    return _cont(eng, e, sn, l, k, cls)

def _cont(eng, e, sn, l, k, cls):
    A = e['args']
    n = lambda: eng.peek(N(l))
    if sn in ('operator[]', 'at'):
        if k in ASSOC:
            key = eng.ev(A[0])
            return elem(l, key)
        i = eng.ev(A[0])
        eng.emit('elem', sn, [i], [l], e, cls=cls)
        return elem(l, i)
    if sn == 'size': return eng.read(N(l))
    if sn == 'empty': return eq0(eng.read(N(l)))
    if sn == 'data': return addr_(elem(l, ZERO))
    if sn in ('begin', 'cbegin'): return mk('it', l, ZERO)
    if sn in ('end', 'cend'):
        if k in ASSOC: return mk('mapend', l)
        return mk('it', l, n())
    if sn == 'rbegin': return mk('rit', l, ZERO)
    if sn == 'rend': return mk('rit', l, n())
    if sn == 'front': return elem(l, ZERO)
    if sn == 'back': return elem(l, sub(n(), ONE))
    if sn == 'find':
        key = eng.ev(A[0])
        return mk('mapit', l, key, eng.peek(l))
    if sn == 'count':
        key = eng.ev(A[0])
        return mk('mapcount', eng.peek(l), key)
    if sn == 'capacity': return mk('call', 'capacity', eng.peek(l))
    if sn == 'top':
        t = eng.temp(e)
        eng.noev_set(t, mk('top', eng.read(D(l))))
        return t
    # ---- changes
    if sn in ('push_back', 'emplace_back', 'push', 'emplace') and k not in ASSOC:
        if len(A) == 1: x = eng.ev(A[0])
        elif not A: x = mk('zeroed')
        else: x = mk('obj', '', tuple(eng.ev(a) for a in A))
        i = n()
        eng.emit('cont', 'push', [x, i], [l], e, cls=cls)
        if k == 'std::priority_queue':
            eng.noev_set_up(D(l), mk('pushed', eng.peek(D(l)), x))
        else:
            d = D(l)
            eng.quiet_write(E.elem(d, i), x)
        eng.quiet_write(N(l), add(i, ONE))
        return ZERO
    if sn in ('pop', 'pop_back', 'pop_front'):
        eng.emit('cont', 'pop', [], [l], e, cls=cls)
        if sn != 'pop_back': eng.quiet_write(D(l), mk('popped', eng.peek(D(l))))
        eng.quiet_write(N(l), sub(n(), ONE))
        return ZERO
    if sn == 'clear':
        eng.emit('cont', 'clear', [], [l], e, cls=cls)
        eng.quiet_write(N(l), ZERO); eng.quiet_write(D(l), mk('zeroed'))
        return ZERO
    if sn == 'resize':
        a = [eng.ev(x) for x in A]
        old = n()
        eng.emit('cont', 'resize', a, [l], e, cls=cls)
        eng.quiet_write(N(l), a[0])
        f = a[1] if len(a) > 1 else (ZERO if cls.startswith(('std::vector<unsigned', 'std::vector<double', 'std::vector<char', 'std::vector<int', 'std::vector<long', 'std::vector<bool')) else mk('zeroed'))
        if old is ZERO: eng.quiet_write(D(l), mk('fill', f))
        elif old is not a[0]: eng.quiet_write(D(l), mk('resized', eng.peek(D(l)), a[0]))
        return ZERO
    if sn == 'assign':
        a = [eng.ev(x) for x in A]
        eng.emit('cont', 'assign', a, [l], e, cls=cls)
        if A[0].T is not None and A[0].T.k == 'int':
            eng.quiet_write(N(l), a[0]); eng.quiet_write(D(l), mk('fill', a[1]))
        else:
            eng.quiet_write(N(l), pdiff(eng, a[1], a[0])); eng.quiet_write(D(l), mk('range', content_at(eng, a[0]), a[1]))
        return ZERO
    if sn == 'insert':
        a = [eng.ev(x) for x in A]
        eng.emit('cont', 'insert', a, [l], e, cls=cls)
        if k in ASSOC:
            d = eng.peek(D(l))
            eng.quiet_write(D(l), mk('minsert', d, a[-1]))
            eng.quiet_write(N(l), mk('msize', eng.peek(D(l))))
            return mk('out', len(eng.events) - 1, 'ret')
        if len(a) == 3:
            cnt = pdiff(eng, a[2], a[1])
            pos = a[0].a[1] if a[0].op == 'it' else mk('sym', '?')
            eng.quiet_write(D(l), mk('rinsert', eng.peek(D(l)), pos, mk('bytes', content_at(eng, a[1]), cnt), cnt))
            eng.quiet_write(N(l), add(n(), cnt))
            return mk('it', l, pos)
        pos = a[0].a[1] if a[0].op == 'it' else mk('sym', '?')
        eng.quiet_write(D(l), mk('rinsert', eng.peek(D(l)), pos, a[1] if len(a) > 1 else a[0], ONE))
        eng.quiet_write(N(l), add(n(), ONE))
        return mk('it', l, pos)
    if sn == 'erase':
        a = [eng.ev(x) for x in A]
        eng.emit('cont', 'erase', a, [l], e, cls=cls)
        eng.quiet_write(D(l), mk('erased', eng.peek(D(l)), *a))
        eng.quiet_write(N(l), mk('msize', eng.peek(D(l))) if k in ASSOC or len(a) != 1 else sub(n(), ONE))
        return ZERO
    if sn in ('reserve', 'shrink_to_fit'):
        a = [eng.ev(x) for x in A]
        eng.emit('cont', sn, a, [l], e, cls=cls)
        return ZERO
    if sn == 'swap':
        o = eng.lv_or_temp(A[0])
        va, vb = eng.read(l), eng.read(o)
        eng.emit('cont', 'swap', [], [l, o], e, cls=cls)
        eng.write(l, vb, e, 'swap'); eng.write(o, va, e, 'swap')
        return ZERO
    if sn == 'operator=':
        v = eng.ev(A[0])
        eng.emit('cont', 'assign', [v], [l], e, cls=cls)
        eng.write(l, v, e)
        return l
    a = [eng.ev(x) for x in A]
    eng.note('container method ' + sn)
    return mk('call', 'cont::' + sn, eng.peek(l), *a)

def string_method(eng, e, sn, obj):
    l = eng.this_loc(e, obj)
    A = e['args']
    if sn in ('operator=', 'assign'):
        v = eng.ev(A[0]); eng.write(l, v, e); return l
    if sn in ('operator+=', 'append', 'push_back'):
        v = eng.ev(A[0]); eng.write(l, mk('concat', eng.peek(l), v), e, '+='); return l
    if sn in ('c_str', 'data'): return eng.read(l)
    if sn in ('operator[]', 'at'):
        i = eng.ev(A[0])
        return E.elem(l, i)
    if sn == 'empty': return eq0(mk('call', 'strlen', eng.read(l)))
    if sn in ('size', 'length'): return mk('call', 'strlen', eng.read(l))
    if sn == 'clear': eng.write(l, mk('str', ''), e); return ZERO
    if sn in ('begin', 'end'): return mk('sit', sn, eng.read(l))
    a = [eng.ev(x) for x in A]
    if e.get('cst') or sn in ('substr', 'find', 'compare', 'rfind', 'find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of'):
        return mk('call', 'string::' + sn, eng.read(l), *a)
    eng.emit('call', 'string::' + sn, a, [l], e)
    eng.write(l, mk('call', 'string::' + sn, eng.peek(l), *a), e, sn)
    return ZERO

def iter_method(eng, e, sn, obj, cls):
    A = e['args']
    if sn in ('operator*', 'operator->'):
        v = eng.ev(obj)
        l = it_loc(eng, v)
        return l if sn == 'operator*' else addr_(l)
    if sn == 'operator[]': return it_loc(eng, eng.ptr_add(eng.ev(obj), eng.ev(A[0])))
    if sn in ('operator++', 'operator--', 'operator+=', 'operator-='):
        l = eng.lv_or_temp(obj)
        old = eng.read(l)
        if sn in ('operator++', 'operator--'): d = ONE if sn == 'operator++' else num(-1)
        else:
            d = eng.ev(A[0]); d = d if sn == 'operator+=' else neg(d)
        eng.write(l, it_add(eng, old, d), e, sn)
        if A and sn in ('operator++', 'operator--'): return old
        return l
    if sn in ('operator+', 'operator-') and len(A) == 1:
        v = eng.ev(obj); w = eng.ev(A[0])
        if sn == 'operator-' and w.op in ('it', 'addr', 'padd'): return pdiff(eng, v, w)
        return it_add(eng, v, w if sn == 'operator+' else neg(w))
    if sn == 'operator=':
        l = eng.lv_or_temp(obj); v = eng.ev(A[0]); eng.write(l, v, e); return l
    if sn == 'base': return eng.ev(obj)
    if sn in ('operator==', 'operator!='):
        return compare(sn[8:], eng.ev(obj), eng.ev(A[0]), 'p')
    eng.note('iterator ' + sn)
    return mk('call', 'it::' + sn, eng.ev(obj))

def it_add(eng, v, d):
    if v.op == 'rit': return mk('rit', v.a[0], add(v.a[1], d))
    if v.op in ('mapit', 'mapend', 'mu', 'fin', 'iv', 'itn'): return mk('itn', v, d) if v.op != 'itn' else mk('itn', v.a[0], add(v.a[1], d))
    return eng.ptr_add(v, d)

def it_loc(eng, v):
    if v.op == 'it': return elem(v.a[0], v.a[1])
    if v.op == 'rit': return elem(v.a[0], sub(sub(eng.peek(N(v.a[0])), ONE), v.a[1]))
    if v.op == 'ite': return E.CondLoc(v.a[0], it_loc(eng, v.a[1]), it_loc(eng, v.a[2]))
    return eng.deref(v)

# ---------------------------------------------------------------- external
def _opaque_ptr(t):
    """pointer to a library handle: its content is not tracked"""
    if t is None or t.k != 'ptr': return False
    p = t.e
    return p is None or p.k == 'fn' or (p.k == 'rec' and (p.n in OPAQUE_REC or (p.n or '').startswith(('_p_', 'ompi_', '_IO'))) and 'status' not in (p.n or ''))

def external(eng, e, name):
    obj = e.get('obj')
    this = None
    if obj is not None: this = eng.this_loc(e, obj)
    vals = []
    locs = []
    pp = e.get('pp') or []
    for i, a in enumerate(e['args']):
        b = a
        while b['k'] == 'mat': b = b['e']
        m = pp[i] if i < len(pp) else 'v'
        if m == 'r' and b.get('lv'):
            l = eng.lv(b)
            vals.append(E.addr(l)); locs.append(l)
        elif m == 'r' and not (b.T is not None and b.T.k in ('ptr', 'arr', 'int', 'flt')) and b.get('k') not in ('int', 'flt'):
            l = eng.lv_or_temp(b); vals.append(E.addr(l)); locs.append(l)
        else:
            vals.append(eng.ev(a)); locs.append(None)
    sn = name.split('::')[-1]
    ev = eng.emit('call', name, vals, [this] if this is not None else [], e, node=e) if False else eng.emit('call', name, vals, [this] if this is not None else [], e)
    ev.x['n'] = e
    ret = mk('out', ev.seq, 'ret')
    ev.ret = ret
    if name in E.NORET or sn in ('abort', 'exit') and obj is None:
        raise E.Dead()
    cbl = E.mkloc(E.root('G', '#callbacks', '#callbacks'))
    for v in vals:
        if v.op in ('fn', 'lam'): eng.noev_set(E.fld(cbl, '#cb%d' % v.id), v)
    # PETSc objects that carry a user context
    if name == 'MatShellSetContext':
        eng.noev_set(E.mkloc(E.root('G', '#petscctx', '#petscctx')), vals[1])
        return ret
    if name == 'MatShellGetContext':
        c = eng.peek(E.mkloc(E.root('G', '#petscctx', '#petscctx')))
        put1(eng, vals[1], c, e)
        return ret
    if name in ('VecGetArray', 'VecGetArrayRead'):
        put1(eng, vals[1], E.addr(E.mkloc(E.root('D', mk('vecdata', vals[0])), (('i', ZERO),))), e)
        return ret
    if name in ('VecRestoreArray', 'VecRestoreArrayRead'): return ret
    if name == 'KSPSolve':
        run_callbacks(eng, e, vals)
        return ret
    if name in ('std::sort', 'std::for_each', 'std::stable_sort', 'qsort'):
        for v in vals:
            if v.op in ('fn', 'lam'): run_one(eng, e, v)
    # outputs
    cnt = out_count(name, vals)
    for i, a in enumerate(e['args']):
        m = pp[i] if i < len(pp) else 'v'
        if m != 'r': continue
        v = vals[i]
        b = a
        while b['k'] == 'mat': b = b['e']
        if locs[i] is not None:
            if b.T is not None and b.T.k == 'ptr' and _opaque_ptr(b.T) and name in ('KSPSetType',): continue
            eng.write(locs[i], mk('out', ev.seq, i, locs[i] if isinstance(locs[i], E.Loc) else None), e, 'ext')
            continue
        T = b.T
        bb = b
        while bb['k'] == 'cast' and bb.get('e') is not None and bb['e'].T is not None and bb['e'].T.k == 'ptr': bb = bb['e']; T = bb.T if bb.T is not None else T
        if _opaque_ptr(T): continue
        if v.op in ('num', 'str', 'fn', 'lam'): continue
        lo = v.a[0] if v.op == 'addr' and isinstance(v.a[0], E.Loc) else None
        o = mk('out', ev.seq, i, lo)
        if v.op == 'addr' and lo is not None and not (lo.path and lo.path[-1][0] == 'i'):
            eng.write(lo, o, e, 'ext')
        elif single(name, i, vals): put(eng, v, o, ONE, e, 'e')
        else: put_out(eng, v, o, cnt, e)
    return ret

def put1(eng, p, v, e):
    if p.op == 'addr': eng.write(p.a[0], v, e, 'ext')

def put_out(eng, p, o, n, e):
    if p.op == 'addr' and isinstance(p.a[0], E.Loc):
        l = p.a[0]
        if l.path and l.path[-1][0] == 'i' and l.path[-1][1] is ZERO:
            eng.write(E.mkloc(l.root, l.path[:-1]), o, e, 'ext'); return
    put(eng, p, o, n, e, 'e')

def single(name, i, vals):
    """the output argument is one element"""
    if name in ('MPI_Waitany',): return True if i in (2,) else False
    if name in ('MPI_Isend', 'MPI_Irecv') and i == 6: return True
    if name in ('MPI_Recv', 'MPI_Irecv') and i == 0: return vals[1] is ONE
    if name == 'MPI_Recv' and i == 6: return True
    if name == 'fread' and i == 0: return vals[2] is ONE
    if name == 'MPI_File_read' and i == 1: return vals[2] is ONE
    return False
def out_count(name, vals):
    if name in ('MPI_Recv', 'MPI_Irecv') and len(vals) > 1: return vals[1]
    if name == 'fread': return vals[2]
    if name == 'MPI_File_read': return vals[2]
    return None

def run_callbacks(eng, e, vals):
    if not eng.indirect: return
    cbl = E.mkloc(E.root('G', '#callbacks', '#callbacks'))
    cbs = []
    for k in list(cbl.kids):
        v = eng.lookup(eng.st, k)
        while v is not None and v is not E.TOMB and v.op == 'ite': v = v.a[1] if v.a[1].op in ('fn', 'lam') else v.a[2]
        if v is not None and v is not E.TOMB and v.op in ('fn', 'lam'): cbs.append(v)
    seen = []
    for c in cbs:
        if c not in seen: seen.append(c)
    def body():
        for c in seen: run_one(eng, e, c)
    fake = Node(); fake.nid = e.nid * 10 + 5; fake.file = e.file; fake.T = None
    fake.update({'k': 'while', 'l': e.get('l', 0)})
    eng.run_loop(fake, 'callback', lambda: mk('lit', 'callback', e.nid), body, None)

def run_one(eng, e, c):
    if c.op == 'fn':
        F = eng.prog.funcs.get(c.a[0])
        if F is None or not F.get('body'): return
        args = []
        for p in F['params']:
            if p['t'].k == 'ptr': args.append(('v', mk('sym', 'cb', c.a[1], p['n'])))
            elif p['t'].k == 'ref': args.append(('l', E.mkloc(E.root('P', 'cb:' + p['n']))))
            else: args.append(('v', mk('sym', 'cb', c.a[1], p['n'])))
        try: eng.inline(F, None, args, e)
        except E.Dead: pass
    elif c.op == 'lam':
        le = eng.lams[c.a[0]][0]
        args = []
        for p in le['params']:
            if p['t'].k == 'ref': args.append(('l', E.mkloc(E.root('P', 'cb:' + p['n']))))
            else: args.append(('v', mk('sym', 'cb', p['n'])))
        try: eng.call_lambda(c, args, e)
        except E.Dead: pass

def external_args(eng, e, name, args):
    ev = eng.emit('call', name, [a if k == 'v' else E.addr(a) for k, a in (args or [])], [], e)
    ev.x['n'] = e
    ev.ret = mk('out', ev.seq, 'ret')
    if name in E.NORET: raise E.Dead()
    return ev.ret
