"""C24: sizes, offsets and global ids keep 64 bits."""
import re
from sa.common import *
from sa.engine import Engine
from sa.prog import walk

TECHNIQUE = 'width analysis: every conversion between integers of different widths, with the value converted traced to its origin (field, global, query, loop limit) by value flow'
NOTE = """Every conversion of a 64-bit integer to a narrower one, and every use of a narrower loop counter or variable as a 64-bit one, in the solver and the mesh tools, is found
with the value it converts (callees inlined). The value must not be, or be computed from, a number of cells, faces or nodes, a global number, a number of a face, node or cell in
a mesh, or a file offset, unless the program ends where the value does not fit. Arguments handed directly to a library, and the function that builds the graph for METIS in its index type, are the libraries' limits.
Numbers of processes, angles and groups may be narrow. What a received message or an unknown accumulator holds is not traced."""

WIDE = {'g_nCells': 'the number of cells', 'c_nc': 'the number of cells', 'numCells': 'a number of cells', 'numFaces': 'a number of faces', 'numNodes': 'a number of nodes',
        'c_numCells': 'a number of cells', 'c_numFaces': 'a number of faces', 'c_numNodes': 'a number of nodes', 'boundingFaces': 'the number of a face',
        'boundingNodes': 'the number of a node', 'boundingCells': 'the number of a cell', 'globalID': 'a global number', 'c_lGCells': 'a global cell number',
        'c_lGSides': 'a global side number', 'c_bytesOffset': 'an offset in a file', 'getLGCell': 'a global cell number', 'getLGSide': 'a global side number',
        'getAdjCell': 'a cell number', 'getSideCell': 'a cell number', 'getGLSide': 'a side number', 'getSide': 'a side number', 'gSide': 'a global side number'}
LIB = re.compile(r'\b(idx_t|PetscInt|PetscMPIInt|METIS)')
CALLS = re.compile(r'^(ftell|ftello|MPI_File_get_(size|position|byte_offset))$')

def kind(eng, v, d=0, memo=None):
    """what large quantity a number is computed from, or None"""
    if memo is None: memo = {}
    if v in memo: return memo[v]
    memo[v] = None
    r = kind1(eng, v, d, memo)
    memo[v] = r
    return r

def kind1(eng, v, d, memo):
    if d > 60: return None
    op = v.op
    if op == 'num': return None
    if op == 'iv':
        L = loop_of(eng, v)
        if L is None or L.count is None: return None
        return kind(eng, eng.resolve(L.count), d + 1, memo)
    if op == 'init' and v.a and isinstance(v.a[0], Loc):
        l = v.a[0]
        for s in reversed(l.path):
            if s[0] != 'f': continue
            n = s[1]
            if n in ('#d', '#m') or n in ('.#d', '.#m'): continue
            return WIDE.get(str(n).split('::')[-1]) if not str(n).startswith(('#', '.#')) else None
        return WIDE.get(str(l.root[-1]).split('::')[-1]) if l.root[0] == 'G' else None
    if op == 'sel':
        b, s = v.a[0], v.a[1]
        while True:
            if s[0] == 'f':
                n = str(s[1])
                if n not in ('#d', '#m', '.#d', '.#m'):
                    if n.startswith(('#', '.#')): return None
                    return WIDE.get(n.split('::')[-1])
            if b.op != 'sel': break
            b, s = b.a[0], b.a[1]
        return None
    if op in ('obs', 'call', 'opq', 'q', 'app'):
        for x in v.a:
            if isinstance(x, str) and x.split('::')[-1] in WIDE: return WIDE[x.split('::')[-1]]
        return None
    if op in ('fin', 'mu', 'out', 'uninit', 'str', 'addr', 'lit', 'eq', 'ge', 'lt', 'and', 'or', 'not', 'sym', 'bool', 'eq0', 'ge0'): return None
    if op in ('div', 'idiv', 'mod', 'rem', '%', 'band', 'shr'):
        xs = [x for x in v.a if hasattr(x, 'op')]
        if op in ('mod', 'rem', '%'): return kind(eng, xs[1], d + 1, memo) if len(xs) > 1 and kind(eng, xs[0], d + 1, memo) else None
        return kind(eng, xs[0], d + 1, memo) if xs else None
    if op == 'ite':
        return kind(eng, v.a[1], d + 1, memo) or kind(eng, v.a[2], d + 1, memo)
    t = terms(v)
    if len(t) > 1 or any(len(m) != 1 or m[0] is not v for m in t):
        for m in t:
            for x in m:
                k = kind(eng, x, d + 1, memo)
                if k: return k
    return None

def operands(P):
    """conversions directly in the arguments of functions the program does not define"""
    out = set()
    def strip(x):
        while isinstance(x, dict) and x.get('k') in ('cast', 'mat', 'paren') and x.get('e') is not None:
            if x['k'] == 'cast': out.add(id(x))
            x = x['e']
    for f in P.funcs.values():
        if not f.get('body'): continue
        ns = list(walk([f['body'], f.get('inits', [])]))
        if any(n.get('k') == 'call' and str(n.get('n') or '').startswith('METIS_') for n in ns): out |= {id(n) for n in ns}
        for n in ns:
            if n.get('k') in ('call', 'ctor') and not (P.funcs.get(n.get('fn')) or {}).get('body'):
                if re.search(r'std::|operator', str(n.get('n') or '')): continue
                for a in n.get('args') or []: strip(a)
    return out

def bounded(ctx, eng, v):
    """do the conditions say that the value is at most a constant that fits?"""
    class E: pass
    e = E(); e.ctx = ctx
    for c in guards(e):
        for x in [c] + [y for y in subvals(c)]:
            if x.op not in ('ge0', 'ge', 'lt', 'lit'): continue
            p = x.a[0] if x.a and hasattr(x.a[0], 'op') else None
            if p is None: continue
            t = terms(eng.resolve(p)); tv = terms(v)
            if all(t.get(m) == -k for m, k in tv.items() if m) and all(not m or m in tv for m in t):
                k = t.get((), 0)
                if 0 <= k <= 2 ** 32: return True
    return False

def judge(R, P, seen, bad):
    ext = operands(P)
    for f in user_funcs(P):
        eng = Engine(P, opaque=MESH_GETTERS + QUAD_GETTERS, noinline=[n for n in HEAVY if n != f['n']], virtual_opaque=True)
        eng.casts = []
        eng.run(f)
        R.analysed(f['n'])
        memo = {}
        for e, a, b, v, ctx, fl, ln in eng.casts:
            v = eng.resolve(v)
            w = '%s:%s' % (fl, ln)
            narrow = b.w < 64
            k = kind(eng, v, 0, memo)
            key = (w, a.s, b.s)
            if b.b or a.b: continue
            if narrow and (id(e) in ext or LIB.search(b.s)): seen.setdefault(key, 'library'); continue
            if not narrow and (id(e) in ext or LIB.search(a.s)): continue
            if narrow or k: seen.setdefault(key, 'judged')
            if k and bounded(ctx, eng, v): continue
            if k and key not in bad: bad[key] = (f['n'], k, narrow, v)
        for ev in eng.events:
            if ev.kind != 'cont' or ev.name != 'insert' or not ev.args: continue
            m = re.match(r'std::(?:unordered_|multi)*(map|set)<((?:unsigned |signed )?(?:int|short|char))\b|std::(?:unordered_|multi)*(map)<[\w ]+, ((?:unsigned |signed )?(?:int|short|char))\b', str(ev.x.get('cls') if hasattr(ev, 'x') else ev.cls))
            if not m: continue
            x = ev.args[-1]
            if m.group(1) != 'set': x = eng.project(x, ('f', 'first' if m.group(1) else 'second'))
            x = eng.resolve(x)
            k = kind(eng, x, 0, memo)
            key = (ev.where, 'unsigned long', (m.group(2) or m.group(4)) + ' of a table')
            seen.setdefault(key, 'judged')
            if k and key not in bad: bad[key] = (f['n'], k, True, x)

def check(R):
    R.rule('For every conversion of an integer of 64 bits to fewer bits, and of a narrower integer to 64 bits, the value converted is traced: it may not be computed from numbers of cells, faces, nodes, global '
           'numbers or file offsets, unless the program has ended if it does not fit.')
    R.assumption('arguments handed directly to a library, and variables of the index types of METIS and PETSc, are limited by the library')
    for cfg in ('sweep', 'PartitionColumns', 'PartitionMetis', 'RefineSerialMesh', 'SerialMeshInfo', 'ParallelMeshInfo'):
        P = R.prog(cfg)
        seen, bad = {}, {}
        judge(R, P, seen, bad)
        R.count('conversions', len(seen))
        for key in sorted(seen):
            w, a, b = key
            if seen[key] == 'library' and key not in bad: continue
            if key in bad:
                n, k, narrow, v = bad[key]
                R.oblige('%s: %s to %s' % (cfg, a, b), False, w, '%s, which needs 64 bits, %s %s in %s (value %s)' % (k, 'is converted to' if narrow else 'is kept in', b if narrow else a, n, show(v, 5)[:120]),
                         '%s %s' % (n, k))
            else: R.oblige('%s: nothing that needs 64 bits is converted from %s to %s' % (cfg, a, b), True, w)
    R.need(R.counts.get('conversions', 0), 10, 'conversions between integers of different widths')
