"""Obtains the resolved program: runs the dumper on the current sources with the
build's own flags and merges the translation units of one executable."""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
DUMPER = os.path.join(VERIF, 'build', 'astdump')

class AnalysisBroken(Exception):
    pass

def ensure_dumper():
    r = subprocess.run(['bash', os.path.join(VERIF, 'dumper', 'build.sh'), DUMPER], capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken('cannot build the dumper:\n' + r.stderr[-2000:])

COMMON = ['-std=c++11', '-include', 'cstdint', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18',
          '-isystem', os.path.join(VERIF, 'dumper', 'include'),
          '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include',
          '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi', '-w', '-ferror-limit=5']

UTIL_MESH = ['src/SerialMesh.cc', 'src/ParallelMesh.cc']
UTIL_MESH2 = UTIL_MESH + ['src/Comm.cc', 'src/Assert.cc']

def config(name):
    """-> (list of (source, flags))"""
    parts = name.split('+')
    base, opts = parts[0], parts[1:]
    if base == 'sweep':
        fl = ['-fopenmp', '-DASSERT_ON=%d' % (0 if 'noassert' in opts else 1),
              '-DUSE_PETSC=%d' % (0 if 'nopetsc' in opts else 1),
              '-isystem', '/usr/lib/petsc/include', '-I' + REPO + '/src']
        if 'ndebug' in opts: fl.append('-DNDEBUG')
        srcs = sorted(glob.glob(REPO + '/src/*.cc'))
        return [(s, fl) for s in srcs]
    fl = ['-I' + REPO + '/src']
    if 'noassert' in opts: fl.append('-DASSERT_ON=0')
    if 'ndebug' in opts: fl.append('-DNDEBUG')
    if base == 'ParallelMeshInfo': srcs = UTIL_MESH2
    else:
        srcs = UTIL_MESH; fl.append('-DPARALLEL_MESH_READ_SERIAL_ONLY')
    return [(os.path.join(REPO, s), fl) for s in srcs] + [(REPO + '/util/%s.cc' % base, fl)]

def _dump(job):
    src, flags, out = job
    cmd = [DUMPER, out, REPO + '/src:' + REPO + '/util', src, '--'] + COMMON + flags
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise AnalysisBroken('cannot parse %s:\n%s' % (src, r.stderr[-1500:]))
    return out

class Type(object):
    __slots__ = ('s', 'k', 'w', 'sg', 'b', 'e', 'n', 'tn', 'ta', 'cnt', 'const', 'u', 'ch', 'en', 'rv', 'sz')
    def __init__(self):
        self.s = ''; self.k = 'other'; self.w = 0; self.sg = False; self.b = False; self.e = None
        self.n = None; self.tn = None; self.ta = []; self.cnt = None; self.const = False; self.u = False
        self.ch = False; self.en = None; self.rv = False; self.sz = None
    def __repr__(self): return 'T<%s>' % self.s
    @property
    def isint(self): return self.k == 'int'
    @property
    def isflt(self): return self.k == 'flt'
    @property
    def isptr(self): return self.k == 'ptr'

class Node(dict):
    __slots__ = ('nid', 'T', 'file')

VOIDT = Type(); VOIDT.k = 'void'; VOIDT.s = 'void'

class Program(object):
    def __init__(self, cfg):
        self.cfg = cfg
        self.funcs = {}; self.recs = {}; self.globals = {}; self.enums = {}
        self.tus = []
        self.nnodes = 0
        self.types = {}
        ensure_dumper()
        jobs = []
        self.tmp = tempfile.mkdtemp(prefix='sa_')
        try:
            srcs = config(cfg)
            if not srcs: raise AnalysisBroken('no sources for ' + cfg)
            for i, (s, fl) in enumerate(srcs):
                jobs.append((s, fl, os.path.join(self.tmp, '%d.json' % i)))
            with ThreadPoolExecutor(8) as ex: outs = list(ex.map(_dump, jobs))
            for i, o in enumerate(outs):
                with open(o) as f: d = json.load(f)
                self._load(d, i, srcs[i][0])
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        self._index()

    # ------------------------------------------------------------- loading
    def _load(self, d, tu, src):
        self.tus.append(src)
        tt = [Type() for _ in d['types']]
        for t, o in zip(tt, d['types']):
            t.s = o['s']; t.k = o['k']; t.w = o.get('w', 0); t.sg = o.get('sg', False); t.b = o.get('b', False)
            t.const = o.get('c', False); t.n = o.get('n'); t.tn = o.get('tn'); t.cnt = o.get('cnt'); t.u = o.get('u', False)
            t.ch = o.get('ch', False); t.en = o.get('en'); t.rv = o.get('rv', False); t.sz = o.get('sz')
            if 'e' in o: t.e = tt[o['e']]
            t.ta = [tt[x] for x in o.get('ta', [])]
        off = tu * 1000000
        def conv(o, file):
            if isinstance(o, list): return [conv(x, file) for x in o]
            if not isinstance(o, dict): return o
            n = Node()
            for k, v in o.items():
                if k in ('t', 'vt', 'ft', 'at', 'ret', 'ct', 'sizeof'):
                    n[k] = tt[v] if isinstance(v, int) and v >= 0 else VOIDT
                elif k == 'd' and isinstance(v, int): n[k] = v + off
                else: n[k] = conv(v, file)
            self.nnodes += 1
            n.nid = self.nnodes
            n.T = n.get('t')
            n.file = file
            return n
        for u, f in d['funcs'].items():
            old = self.funcs.get(u)
            if old is not None and (old.get('body') or not f.get('body')): continue
            file = f['loc'][0] if f.get('loc') else src
            n = conv(f, file)
            n['usr'] = u; n['file'] = file
            self.funcs[u] = n
        for r, x in d['recs'].items():
            if r in self.recs: continue
            self.recs[r] = conv(x, x['loc'][0] if x.get('loc') else src)
        for g, x in d['globals'].items():
            old = self.globals.get(g)
            if old is not None and (old.get('init') is not None or not x.get('init')): continue
            self.globals[g] = conv(x, x['loc'][0] if x.get('loc') else src)
        for e, x in d['enums'].items(): self.enums[e] = x['e']

    def _index(self):
        self.byname = {}
        for u, f in self.funcs.items():
            self.byname.setdefault(f['n'], []).append(f)
        # virtual overriders: usr -> set of overriding function usrs (transitive)
        self.over = {}
        for u, f in self.funcs.items():
            for b in f.get('ov', []): self.over.setdefault(b, []).append(u)
        for rn, r in self.recs.items():
            for m in r['methods']:
                for b in m['ov']:
                    if m['u'] not in self.over.setdefault(b, []): self.over[b].append(m['u'])
        self.derived = {}
        for rn, r in self.recs.items():
            for b in r['bases']:
                if b.get('n'): self.derived.setdefault(b['n'], []).append(rn)

    def fn(self, name, need=True):
        """the function of that qualified name that has a body"""
        c = [f for f in self.byname.get(name, []) if f.get('body')]
        if not c:
            if need: raise AnalysisBroken('function %s not found' % name)
            return None
        return c[0]
    def fns(self, name):
        return [f for f in self.byname.get(name, []) if f.get('body')]

    def bases_of(self, rn):
        out = [rn]
        for b in self.recs.get(rn, {}).get('bases', []):
            if b.get('n'): out += self.bases_of(b['n'])
        return out

    def fields_of(self, rn):
        out = []
        for b in self.bases_of(rn): out += self.recs.get(b, {}).get('fields', [])
        return out

def walk(n):
    """all nodes below n, n included"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'k' in x: yield x
            st.extend(x.values())
        elif isinstance(x, list): st.extend(x)
