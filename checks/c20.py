"""C20: debug assertions have no effect besides ending the program."""
import re
from sa.common import *
from sa.engine import PURE

TECHNIQUE = 'comparison of the resolved syntax trees of builds with and without assertions; effect analysis of assertion conditions; origin analysis of the asserted values'
NOTE = """Every function is compared between the builds with and without debug assertions (ASSERT_ON, NDEBUG): apart from the assertions themselves the resolved
trees must be the same (or have the same effects). The condition of every assertion must be free of effects, through all functions it calls. A debug
assertion (Assert) whose condition is made up of values read from a file, the deck or the environment only is rejected (assert of the mesh file code, which no build
of the project turns off, counts as a check). Assertions about computed values (a zero pivot) are not
judged by what input can make them fail."""

FAIL = {'Assert::my_assert', '__assert_fail', '__assert'}
MUTATORS = set('push_back pop_back push pop insert erase clear resize reserve emplace emplace_back swap assign append '
               'front_inserter reset release push_front pop_front open close read write getline get put seekg seekp flush'.split())

# --- trees
def assertion(n):
    """condition of an assertion statement"""
    if not isinstance(n, dict): return None
    if n.get('k') == 'if' and not n.get('b'):
        b = n.get('a')
        while isinstance(b, dict) and b.get('k') in ('block', 'expr'):
            if b['k'] == 'expr': b = b.get('e')
            else:
                s = [x for x in b.get('s', []) if x.get('k') != 'null']
                if len(s) != 1: return None
                b = s[0]
        if isinstance(b, dict) and b.get('k') == 'call' and b.get('n') in FAIL: return n['c']
    if n.get('k') == 'cond':
        for s in ('a', 'b'):
            if any(x.get('k') == 'call' and x.get('n') in FAIL for x in walk(n.get(s))): return n['c']
    return None

def canon(o, ids):
    """tree without positions and assertions, declarations numbered in order"""
    if isinstance(o, list): return [y for y in (canon(x, ids) for x in o) if y is not None]
    if not isinstance(o, dict): return o.s if hasattr(o, 's') and hasattr(o, 'k') else o
    if o.get('k') == 'null': return None
    if o.get('k') in ('expr',):
        e = o.get('e')
        while isinstance(e, dict) and e.get('k') == 'cast': e = e.get('e')
        if isinstance(e, dict) and assertion(e) is not None: return None
        if isinstance(e, dict) and e.get('k') == 'zero': return None
        if isinstance(e, dict) and e.get('k') == 'int' : return None
    if assertion(o) is not None: return None
    r = []
    if o.get('k') == 'call' and (o.get('sn') or '').endswith('printf'):
        return ('print', o['sn'], [('num',) if isinstance(x, dict) and x.get('k') == 'int' else canon(x, ids) for x in o.get('args', [])])
    for k in sorted(o):
        if k in ('l', 'end', 'loc', 'mac', 'file'): continue
        v = o[k]
        if k == 'd' and isinstance(v, int): v = ids.setdefault(v, len(ids)); r.append((k, v)); continue
        if k in ('a', 'b') and o.get('k') == 'if' or k == 'body' and o.get('k') in ('for', 'while', 'rfor', 'do'):
            v = body(v, ids)
            r.append((k, v)); continue
        r.append((k, canon(v, ids)))
    return tuple(r)

def body(v, ids):
    if isinstance(v, dict) and v.get('k') == 'block': v = v.get('s', [])
    elif isinstance(v, dict): v = [v]
    return [y for y in (canon(x, ids) for x in v or []) if y is not None]

# --- effects of an expression
class Eff(object):
    def __init__(self, P): self.P, self.memo = P, {}
    def expr(self, n, local, depth=0):
        """first effect of an expression on anything outside the locals, or None"""
        for x in walk(n):
            k = x['k']
            if k == 'asg' or k == 'un' and x.get('op') in ('++', '--'):
                t = x.get('a') if k == 'asg' else x.get('e')
                if not self.own(t, local): return 'it changes %s' % self.name(t)
            elif k in ('new', 'delete', 'throw'): return 'it contains a %s' % k
            elif k in ('call', 'ctor'):
                r = self.call(x, local, depth)
                if r: return r
        return None
    def own(self, t, local):
        while isinstance(t, dict) and t.get('k') in ('cast', 'mem', 'idx', 'paren'):
            if t['k'] == 'idx':
                b = t.get('a') or t.get('e')
                ty = b.get('e', {}).get('t') if isinstance(b, dict) and b.get('k') == 'cast' else None
                if ty is None or ty.k != 'arr': return False
                t = b; continue
            if t['k'] == 'mem' and t.get('arrow'): return False
            t = t.get('e') if t.get('e') is not None else t.get('obj')
        return isinstance(t, dict) and t.get('k') == 'ref' and t.get('d') in local
    def name(self, t):
        while isinstance(t, dict) and t.get('k') in ('cast',): t = t.get('e')
        for x in walk(t):
            if x.get('n'): return x['n']
        return 'a value'
    def call(self, x, local, depth):
        n = x.get('n', '')
        if n in FAIL or n == 'Assert::my_insist' or x.get('noret'): return None
        if x.get('u'):
            f = self.P.funcs.get(x.get('fn'))
            if f is None or not f.get('body'):
                return None if x.get('cst') else 'it calls %s' % n
            r = self.func(f, depth + 1, own=x.get('obj') is not None and self.own(x['obj'], local))
            if r is None and x.get('virt'):
                for u in self.P.over.get(x.get('fn'), []):
                    g = self.P.funcs.get(u)
                    if g is not None and g.get('body'): r = r or self.func(g, depth + 1)
            return r and '%s, called in it: %s' % (n, r) if r and not r.startswith('it ') else r and 'it calls %s: %s' % (n, r)
        if x['k'] == 'ctor': return None
        sn = x.get('sn') or n
        if x.get('obj') is not None:
            if x.get('cst'): return None
            if self.own(x['obj'], local): return None
            if sn in MUTATORS or x.get('op') in ('=', '+=', '-=', '++', '--', '<<', '>>'): return 'it changes an object by %s' % sn
            if x.get('op') == '[]' and re.match(r'(const )?std::(unordered_)?map', x.get('cls') or ''): return 'it may insert an element by operator[] of a map'
            return None
        op = x.get('op')
        if op in ('<<', '>>', '=', '+=', '-=', '++', '--'): return 'it changes an object by operator %s' % op
        if re.match(r'MPI_(Comm_(rank|size)|Wtime|Initialized|Finalized|Query_thread|Type_size|Get_count)$', n): return None
        if n in PURE or n.startswith('omp_get') or n in ('strcmp', 'strncmp', 'strlen', 'memcmp', 'isnan', 'isinf', 'isfinite', 'getenv') or op: return None
        if n.startswith('std::') and not re.search(r'sort|copy|fill|swap|reverse|unique|remove|transform|for_each|iota|accumulate|getline|partition|generate|exchange|rotate|shuffle|random', n): return None
        if n.startswith('__builtin') : return None
        return 'it calls %s' % n
    def func(self, f, depth, own=False):
        u = (f['usr'], own)
        if u in self.memo: return self.memo[u]
        self.memo[u] = None
        if depth > 12: return 'it calls too deeply'
        local = set()
        for x in walk(f['body']):
            if x['k'] == 'var' and isinstance(x.get('d'), int):
                t = x.get('t') or x.get('vt')
                if t is not None and t.k in ('ref', 'ptr') : continue
                if x.get('static'): continue
                local.add(x['d'])
        for p in f.get('params', []):
            t = p.get('t')
            if t is not None and t.k not in ('ref', 'ptr') and isinstance(p.get('d'), int): local.add(p['d'])
        r = self.expr([f['body']] + [i for i in f.get('inits', [])], local, depth)
        self.memo[u] = r
        return r

def effects(P, f):
    eng = Engine(P, opaque=MESH_GETTERS + QUAD_GETTERS, noinline=HEAVY, virtual_opaque=True)
    eng.run(f)
    out = {}
    for e in eng.events:
        if e.kind == 'call' and (e.name in FAIL or e.name.split('::')[-1] in ('printf', 'fprintf', 'puts', 'fflush', 'abort')): continue
        if e.kind not in ('call', 'write', 'cont', 'throw', 'new', 'delete'): continue
        k = (e.kind, e.name, len(loops_of(e)))
        out[k] = out.get(k, 0) + 1
    return out

def trees(R, P, Q, what):
    n = 0
    diff = 0
    for u, f in sorted(P.funcs.items(), key=lambda x: (x[1]['n'], x[0])):
        if not f.get('body') or f['n'] in FAIL: continue
        g = Q.funcs.get(u)
        if g is None or not g.get('body'):
            if f['file'].startswith('/usr'): continue
            # a function only one of the builds has
            called = any(x.get('fn') == u for h in user_funcs(Q) for x in walk(h['body']))
            if called: R.violation('%s:%s' % (f['file'], f['loc'][1]), '%s exists only in builds with debug assertions' % f['n'])
            continue
        n += 1
        i1, i2 = {}, {}
        a = (body(f['body'], i1), [canon(x, i1) for x in f.get('inits', [])])
        b = (body(g['body'], i2), [canon(x, i2) for x in g.get('inits', [])])
        R.analysed(f['n'])
        where = '%s:%s' % (f['file'], f['loc'][1] if f.get('loc') else 0)
        if a == b:
            R.oblige('%s is the same %s' % (f['n'], what), True, where); continue
        diff += 1
        ea, eb = effects(P, f), effects(Q, g)
        d = sorted(k for k in set(ea) | set(eb) if ea.get(k, 0) != eb.get(k, 0))
        R.oblige('%s has the same effects %s' % (f['n'], what), not d, where,
                 '%s does something else %s: %s' % (f['n'], what, ', '.join('%s %s (%d times, otherwise %d)' % (k[0], k[1], eb.get(k, 0), ea.get(k, 0)) for k in d[:4])), 'differs ' + f['n'])
        if not d: R.notes.append('%s differs %s, but has the same effects' % (f['n'], what))
    R.count('functions compared ' + what, n)
    return n

# --- where the asserted values come from
FILECLS = ('SerialMesh', 'ParallelMesh', 'Header')
def origin(eng, v, deck, F):
    """'input', 'const' or 'inner' for a value"""
    kinds = set()
    st = [v]
    seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op in ('num', 'str', 'true', 'false') or x is TRUE or x is FALSE: continue
        if x.op in ('init', 'havoc', 'uninit', 'mu', 'fin'):
            l = x.a[-1]
            if isinstance(l, Loc):
                p = [s[1] for s in l.path if s[0] == 'f']
                if any(str(s).split('::')[0] in FILECLS for s in p) or x.op == 'init' and l.root[0] == 'G' and l.root[2].split('::')[-1] in deck: kinds.add('input'); 
                elif x.op == 'havoc' and isinstance(x.a[0], tuple): kinds.add('input' if external(eng, x.a[0][1] if len(x.a[0]) > 1 else x.a[0][0]) else 'inner')
                elif F['n'] == 'main' and l.root[0] == 'P': kinds.add('input')
                else: kinds.add('inner')
                continue
            kinds.add('inner'); continue
        if x.op == 'out':
            kinds.add('input' if external(eng, x.a[0]) else 'inner'); continue
        if x.op == 'call':
            n = x.a[0] if isinstance(x.a[0], str) else ''
            if n in PURE or n.startswith('std::') and len(x.a) > 1:
                st += [y for y in x.a[1:] if isinstance(y, V)]; continue
            kinds.add('inner'); continue
        if x.op in ('iv', 'sym', 'addr', 'obj'): kinds.add('inner'); continue
        sub_ = [y for y in x.a if isinstance(y, V)] if isinstance(x.a, tuple) else []
        if x.op == 'poly': sub_ = [y for m in terms(x) for y in m]
        st += sub_
    return 'inner' if 'inner' in kinds else 'input' if 'input' in kinds else 'const'

EXT = re.compile(r'^(MPI_|PMPI_|f?read|fopen|fclose|fwrite|fseek|ftell|fgets|fscanf|sscanf|getenv|ato|strto|omp_get_max|omp_get_num_procs|remove|rename|std::sto|std::getline|gethostname|access|stat)')
def external(eng, seq):
    e = eng.bseq.get(seq) if hasattr(eng, 'bseq') else None
    if e is None:
        eng.bseq = {e.seq: e for e in eng.events}
        e = eng.bseq.get(seq)
    return e is not None and bool(EXT.match(e.name or ''))

def deck_globals(P):
    """globals that are set while the deck is read: assigned in functions reading keys"""
    out = set()
    for f in user_funcs(P):
        if any(x['k'] == 'call' and (x.get('cls') or '').split('::')[-1] == 'KeyValueReader' for x in walk(f['body'])):
            for x in walk(f['body']):
                t = x.get('a') if x['k'] == 'asg' else None
                args = x.get('args', []) if x['k'] == 'call' and (x.get('cls') or '') == 'KeyValueReader' else []
                for y in ([t] if t else []) + list(args):
                    for z in walk(y):
                        if z['k'] == 'ref' and z.get('g'): out.add(z['n'].split('::')[-1])
                        break
    return out

def check(R):
    R.rule('For the transport program and every utility, each function is resolved with and without debug assertions (ASSERT_ON=0, NDEBUG) and the syntax trees, '
           'assertions taken out, are compared; where they differ the effects (calls, writes, allocations, container changes) must be the same. Every assertion condition is '
           'searched, through the functions it calls, for assignments, increments, allocations, container changes and calls with effects. The value of every asserted condition is '
           'traced to its sources: it must not consist of values from files, the deck, the environment or results of MPI and file operations only.')
    utils = ['PartitionColumns', 'PartitionMetis', 'RefineSerialMesh', 'SerialMeshInfo', 'ParallelMeshInfo']
    nas = 0
    for cfg in ['sweep'] + utils:
        P = R.prog(cfg)
        n = trees(R, P, R.prog(cfg + '+noassert'), 'without debug assertions (%s)' % cfg)
        R.need(n, 3, 'functions compared in ' + cfg)
        if cfg == 'sweep': trees(R, P, R.prog(cfg + '+ndebug'), 'with NDEBUG (%s)' % cfg)
        eff = Eff(P)
        seen = set()
        for f in user_funcs(P):
            for x in walk(f['body']):
                c = assertion(x)
                if c is None: continue
                w = '%s:%s' % (f['file'], x.get('l'))
                if w in seen: continue
                seen.add(w); nas += 1
                r = eff.expr(c, set())
                R.oblige('assertion in %s is free of effects' % f['n'], r is None, w, 'the condition of a debug assertion in %s has an effect that builds without assertions miss: %s' % (f['n'], r), 'effect %s %s' % (f['n'], r))
    R.need(nas, 10, 'assertions')
    P = R.prog('sweep')
    deck = deck_globals(P)
    R.count('globals set from the deck', len(deck))
    todo = [f for f in user_funcs(P) if any(assertion(x) is not None for x in walk(f['body']))]
    done = 0
    for cfg in ['sweep'] + utils:
        P = R.prog(cfg)
        for f in user_funcs(P):
            if cfg != 'sweep' and '/util/' not in f['file']: continue
            if not any(assertion(x) is not None for x in walk(f['body'])): continue
            eng = Engine(P, opaque=MESH_GETTERS + QUAD_GETTERS, noinline=[n for n in HEAVY if n != f['n']], virtual_opaque=True)
            eng.run(f)
            for e in eng.events:
                if e.kind != 'call' or e.name != 'abort' or e.fn != 'Assert::my_assert': continue
                fr = e.ctx
                while fr is not None and fr.kind != 'if': fr = fr.up
                if fr is None: continue
                c = eng.resolve(fr.a)
                done += 1
                o = origin(eng, c, deck, f)
                at = e.where
                pr = eng.events[e.seq - 1] if e.seq else None
                if pr is not None and pr.kind == 'call' and pr.name == 'printf' and len(pr.args) >= 4 and pr.args[2].op == 'str' and pr.args[3].op == 'num': at = '%s:%s' % (pr.args[2].a[0], pr.args[3].a[0])
                R.oblige('assertion in %s is about computed values' % f['n'], o != 'input', at,
                         'in %s only a debug assertion checks a value from a file, the deck or the environment (%s)' % (f['n'], show(bnot(c))), 'input %s %s' % (f['n'], show(c)))
    R.need(done, 10, 'assertions traced')
