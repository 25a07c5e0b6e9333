"""C11: the input deck is read completely and checked."""
from sa.whole import *
from sa import whole
from checks.c10 import content_before

TECHNIQUE = 'value flow from each deck key to its variable and path conditions of program-ending calls; path conditions of the deck parser under truth assignments'
NOTE = """From main, every documented key must be asked for once, unconditionally, with the getter of its kind; its value must reach its variable unchanged, and
the program must end, before the solve, for every value outside the documented range. In the deck reader, the condition of every throw is evaluated
under all truth assignments of its elementary tests: not opened, malformed line, duplicate key, missing key, malformed number or truth value. The
scanning of characters inside a line (tokens, comments) is checked only for splitting the line at one position. File and mesh names are not checked here."""

def eqv(a, b): return mk('eq', *sorted((a, b), key=lambda x: x.id))

ABORT = {'abort', 'exit', '__assert_fail', 'MPI_Abort', '_exit', 'std::abort', 'std::exit', 'std::terminate', 'quick_exit'}
KEYS = {  # key: (kind, variable, documented range)
    'snOrder': ('Int', 'g_snOrder', 'even 2..30'), 'iterMax': ('Int', 'g_iterMax', (0, None)), 'errMax': ('Double', 'g_errMax', None),
    'maxCellsPerStep': ('Int', 'g_maxCellsPerStep', (1, None)), 'intraAngleP': ('Int', 'g_intraAngleP', (0, 4)),
    'interAngleP': ('Int', 'g_interAngleP', (0, 2)), 'nGroups': ('Int', 'g_nGroups', (1, None)),
    'sigmaT1': ('Double', None, None), 'sigmaS1': ('Double', None, None), 'sigmaT2': ('Double', None, None), 'sigmaS2': ('Double', None, None),
    'OutputFile': ('Bool', 'g_outputFile', None), 'OutputFilename': ('String', 'g_outputFilename', None),
    'DD_IterMax': ('Int', 'g_ddIterMax', (0, None)), 'DD_ErrMax': ('Double', 'g_ddErrMax', None),
    'SourceIteration': ('Bool', 'g_useSourceIteration', None), 'MPIType': ('String', None, None), 'SweepType': ('String', None, None),
    'GaussElim': ('String', None, None)}

class Deck(object): pass

def deck(R, P):
    """the main trace with its key requests"""
    D = Deck()
    eng = D.eng = main_trace(R, P)
    D.gets = {}
    D.odd = []
    for e in eng.events:
        if e.kind != 'call' or 'KeyValueReader::get' not in e.name or len(e.args) < 2: continue
        k = e.args[0]
        s = None
        if k.op == 'addr' and isinstance(k.a[0], Loc):
            v = content_before(eng, e, k.a[0])
            v = eng.resolve(v) if v is not None else None
            if v is not None and v.op == 'str': s = v.a[0]
        if s is None: D.odd.append(e); continue
        D.gets.setdefault(s, []).append(e)
    D.val = {}
    for s, es in D.gets.items():
        for e in es:
            for w in eng.events[e.seq:e.seq + 4]:
                if w.kind == 'write' and w.args and w.args[0].op == 'havoc' and w.args[0].a[0] == ('call', e.seq): D.val.setdefault(s, w.args[0])
    c = None
    for es in D.gets.values():
        for e in es:
            g = set(lits_of(e, eng))
            c = g if c is None else c & g
    D.common = c or set()
    D.ends = []
    for e in eng.events:
        if e.kind == 'throw' or e.kind == 'call' and e.name in ABORT:
            D.ends.append((e, [x for x in lits_of(e, eng) if x not in D.common], loops_of(e)))
    D.solve = [e for e in eng.events if e.kind == 'call' and (e.name.split('::')[-1] == 'solve')]
    return D

def facts(D, upto=None):
    out = []
    for e, g, ls in D.ends:
        if ls or upto is not None and e.seq > upto: continue
        out += [(x, e) for x in lits(bnot(band(*g)))]
    return out

def bound(x, v):
    """('lo', b) / ('hi', b) / ('eq', b) for a literal about v alone"""
    if x.op == 'ge0':
        t = terms(x.a[0])
        c = t.pop((), 0)
        if list(t) == [(v,)] and abs(t[(v,)]) == 1: return ('lo', -c) if t[(v,)] == 1 else ('hi', c)
    if x.op == 'eq0':
        t = terms(x.a[0]); c = t.pop((), 0)
        if list(t) == [(v,)] and abs(t[(v,)]) == 1: return ('eq', -c if t[(v,)] == 1 else c)
    return None

def allowed(fs, v):
    """(predicate int -> bool, understood) over the facts about v"""
    conj, odd = [], []
    for x, e in fs:
        if not any(y is v for y in subvals(x)): continue
        alts = list(x.a) if x.op == 'or' else [x]
        bs = []
        for a in alts:
            cs = []
            for y in lits(a):
                n = y.op == 'not'
                b = bound(y.a[0] if n else y, v)
                if b is None: cs = None; break
                cs.append((n, b))
            if cs is None: bs = None; break
            bs.append(cs)
        if bs is None:
            # arithmetic of the value itself
            try: conj.append(('f', x)); ev(x, v, 2)
            except KeyError: conj.pop(); odd.append(e)
        else: conj.append(('b', bs))
    def ok(n):
        for k, c in conj:
            if k == 'f':
                if not ev(c, v, n): return False
            elif not any(all((not h(b, n)) if neg_ else h(b, n) for neg_, b in cs) for cs in c): return False
        return True
    def h(b, n): return n >= b[1] if b[0] == 'lo' else n <= b[1] if b[0] == 'hi' else n == b[1]
    return ok, odd

def ev(x, v, n):
    """formula over one integer v evaluated at n; KeyError if it contains anything else"""
    if x is v: return n
    if x.op == 'num': return x.a[0]
    if x is TRUE: return True
    if x is FALSE: return False
    if x.op == 'eq0': return ev(x.a[0], v, n) == 0
    if x.op == 'ge0': return ev(x.a[0], v, n) >= 0
    if x.op == 'not': return not ev(x.a[0], v, n)
    if x.op == 'or': return any([ev(y, v, n) for y in x.a])
    if x.op == 'and': return all([ev(y, v, n) for y in x.a])
    if x.op == 'imod':
        a, b = ev(x.a[0], v, n), ev(x.a[1], v, n)
        r = abs(a) % abs(b)
        return r if a >= 0 else -r
    if x.op == 'idiv':
        a, b = ev(x.a[0], v, n), ev(x.a[1], v, n)
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    if x.op == 'poly':
        r = 0
        for m, c in terms(x).items():
            p = c
            for y in m: p *= ev(y, v, n)
            r += p
        return r
    raise KeyError(x.op)

def part_main(R, P):
    D = deck(R, P); eng = D.eng
    for e in D.odd: R.notes.append('the key asked for at %s is not a constant' % e.where)
    main = 'src/Main.cc'
    n = 0
    upto = min([e.seq for e in D.solve], default=None)
    fs = facts(D, upto)
    for k, (kind, glob, rng) in sorted(KEYS.items()):
        es = D.gets.get(k, [])
        if not es:
            if D.odd: continue
            R.oblige('deck key %s is required' % k, False, main, 'the deck key %s is not asked for: a deck without it is accepted' % k, 'key %s' % k); continue
        n += 1
        e = es[0]
        got = e.name.split('::get')[-1]
        R.oblige('deck key %s is read as %s' % (k, kind), got == kind, e.where, 'the value of %s is read as %s instead of %s: malformed values are accepted or changed' % (k, got, kind), 'kind %s' % k)
        extra = [x for x in lits_of(e, eng) if x not in D.common]
        if not loops_of(e):
            R.oblige('deck key %s is always read' % k, not extra, e.where, 'the deck key %s is only asked for if %s' % (k, ', '.join(show(x) for x in extra)), 'always %s' % k)
        v = D.val.get(k)
        if v is None: R.notes.append('%s: destination not followed' % k); continue
        if glob: destination(R, D, k, v, glob, e)
        if rng is not None:
            ok, odd = allowed(fs, v)
            if rng == 'even 2..30': want = lambda i: 2 <= i <= 30 and i % 2 == 0
            else: want = lambda i, r=rng: i >= r[0] and (r[1] is None or i <= r[1])
            bad = [i for i in list(range(-70, 140)) + [-2**31, -2**31 + 1, 2**31 - 1, 2**31 - 2, 4096, 65536] if ok(i) and not want(i)]
            if bad and odd: R.notes.append('%s: range check at %s not understood' % (k, odd[0].where)); continue
            txt = rng if isinstance(rng, str) else 'at least %d' % rng[0] if rng[1] is None else '%d to %d' % rng
            R.oblige('%s is %s' % (k, txt), not bad, e.where, '%s must be %s but the value %s goes on to the computation' % (k, txt, bad[0] if bad else ''), 'range %s' % k)
            rej = [i for i in list(range(0, 40)) + [1000] if want(i) and not ok(i)]
            R.oblige('%s: documented values accepted' % k, not rej, e.where, 'the documented value %s of %s is rejected' % (rej[0] if rej else '', k), 'accept %s' % k)
    R.need(n, 10, 'deck keys asked for')
    sections(R, D)
    swallow(R, P)

def destination(R, D, k, v, glob, e):
    eng = D.eng
    ws = [w for w in eng.events if w.kind == 'write' and w.locs and isinstance(w.locs[0], Loc) and w.locs[0].root[0] == 'G'
          and w.locs[0].root[2].split('::')[-1] == glob and not w.locs[0].path]
    if not ws: R.notes.append('%s: no assignment of %s found' % (k, glob)); return
    endf = {x for x, _ in facts(D)}
    def extra(w): return [x for x in lits_of(w, eng) if x not in D.common and x not in endf]
    last = [w for w in ws if not extra(w) and not loops_of(w)]
    final = ws[ws.index(last[-1]):] if last else ws
    for w in final:
        x = eng.resolve(w.args[0])
        if x.op == 'havoc' and x is not v and 'KeyValueReader' not in str(eng.events[x.a[0][1]].name if isinstance(x.a[0], tuple) else ''): continue
        g = extra(w)
        ok = x is v
        if not ok and x.op == 'cond': R.notes.append('%s: value at %s' % (k, w.where))
        R.oblige('%s receives the value of %s' % (glob, k), ok, w.where, '%s is set to %s instead of the value of the deck key %s%s' % (glob, show(x), k, ' if ' + ', '.join(show(y) for y in g) if g else ''), 'value %s' % k)
    if not last and all(eng.resolve(w.args[0]) is v for w in ws):
        R.oblige('%s is always set' % glob, False, ws[0].where, '%s is only set from the deck if %s' % (glob, ', '.join(show(y) for y in extra(ws[0]))), 'set %s' % k)

def sections(R, D):
    """cross sections reach the material they belong to"""
    eng = D.eng
    want = {('g_sigmaT', 1): 'sigmaT1', ('g_sigmaS', 1): 'sigmaS1', ('g_sigmaT', 2): 'sigmaT2', ('g_sigmaS', 2): 'sigmaS2'}
    back = {v: k for k, v in D.val.items()}
    for w in eng.events:
        if w.kind != 'write' or not w.locs or not isinstance(w.locs[0], Loc): continue
        l = w.locs[0]
        if l.root[0] != 'G' or not l.path: continue
        g = l.root[2].split('::')[-1]
        if g not in ('g_sigmaT', 'g_sigmaS'): continue
        x = eng.resolve(w.args[0])
        ms = []
        for y in lits_of(w, eng):
            if y.op == 'eq0' and y not in D.common:
                t = terms(y.a[0]); c = t.pop((), 0)
                if len(t) == 1 and list(t.values())[0] in (1, -1): ms.append(int(abs(c)))
        if len(ms) != 1: continue
        if x not in back and (x.op == 'ite' or any(y.op in ('fin', 'mu', 'sel', 'iv') for y in subvals(x))): continue
        k = back.get(x) or show(x)
        R.oblige('%s of material %d is %s' % (g, ms[0], want.get((g, ms[0]))), want.get((g, ms[0])) == k, w.where,
                 '%s of material %d gets the deck value %s instead of %s' % (g, ms[0], k, want.get((g, ms[0]))), 'section %s %d' % (g, ms[0]))

def swallow(R, P):
    """no handler outside the reader keeps its errors from ending the program"""
    C = closure(P)
    for f in user_funcs(P):
        if 'KeyValueReader' in f['n']: continue
        for t in walk(f['body']):
            if t.get('k') != 'try': continue
            if not any(n.get('k') == 'call' and n.get('n') and ('KeyValueReader' in n['n'] or n.get('fn') in C and any('KeyValueReader' in P.funcs[y]['n'] for y in C[n['fn']])) for n in walk(t)): continue
            eng = Engine(P, noinline=[g['n'] for g in user_funcs(P) if 'KeyValueReader' in g['n'] or len(C[g['usr']]) > 4 and g is not f], virtual_opaque=True)
            try: eng.run(f)
            except AnalysisBroken: raise
            handlers(R, eng, f, 'an error of the deck reader caught in %s does not end the program' % f['n'], 'swallow ' + f['n'])

def handlers(R, eng, F, msg, key):
    """every catch clause of F ends by throwing on or ending the program"""
    out = True
    ids = []
    for n in walk(F['body']):
        if n.get('k') == 'try':
            for c in n['h']: ids.append((c.nid, n))
    for nid, n in ids:
        lit_ = mk('lit', 'caught', nid)
        ends = [e for e in eng.events if (e.kind == 'throw' or e.kind == 'call' and e.name in ABORT) and lit_ in lits_of(e, eng)]
        def own(e): return [x for x in lits_of(e, eng) if x is not lit_ and x not in common]
        common = set()
        inner_ = [set(lits_of(e, eng)) for e in eng.events if lit_ in lits_of(e, eng)]
        if inner_: common = set.intersection(*inner_)
        ok = any(not own(e) and not loops_of(e) for e in ends)
        R.oblige('%s: caught errors end the program or are passed on' % F['n'], ok, '%s:%s' % (n.file, n.get('l')), msg, key)
    return out

# ------------------------------------------------------------------ the reader
HELP = ['parseLine', 'findKey', 'areStringsEqual', 'popToken', 'deleteWhitespace', 'getRidOfComments', 'printMessage', 'KeyValueReader::getString']

def fn_like(P, suffix):
    r = [f for f in user_funcs(P) if f['n'].split('(')[0].endswith(suffix) and (f['n'].endswith('::' + suffix) or f['n'] == suffix or suffix in f['n'])]
    return r[0] if len(r) == 1 else None

def run(R, P, f, keep=HELP):
    ni = [g['n'] for g in user_funcs(P) if g is not f and any(g['n'].endswith('::' + h) or g['n'] == h for h in keep)]
    eng = Engine(P, noinline=ni, virtual_opaque=True)
    r = eng.run(f)
    R.analysed(f['n'])
    return eng, r

def strip(n): return n.split('::')[-1]

def name_of(eng, x):
    """name of the function a call output comes from"""
    if x.op == 'out' and isinstance(x.a[0], int): return strip(eng.events[x.a[0]].name)
    return None

CONV = {'Int': ('stoi',), 'Double': ('stod',), 'Float': ('stof',)}
WEAK = {'atoi', 'atof', 'atol', 'atoll', 'sscanf', 'strtol', 'strtod', 'strtof', 'stol', 'stoll', 'stoul', 'stoull', 'stof', 'stod', 'stoi', 'stold'}

def number(R, P, kind, f):
    eng, _ = run(R, P, f)
    where = '%s:%s' % (f.file, f['loc'][1])
    gs = [e for e in eng.events if e.kind == 'call' and strip(e.name) == 'getString']
    cs = [e for e in eng.events if e.kind == 'call' and strip(e.name) in WEAK]
    if len(gs) != 1 or len(cs) != 1: R.notes.append('%s: conversion not recognised' % f['n']); return
    g, c = gs[0], cs[0]
    key_ok = g.args[0].op == 'addr' and g.args[0].a[0].root[0] == 'P' and not [w for w in eng.events if w.kind == 'write' and w.locs[0] is g.args[0].a[0]]
    R.oblige('%s asks for its own key' % f['n'], key_ok, g.where, '%s does not look up the key it was given' % f['n'], 'key %s' % kind)
    txt = mk('havoc', ('call', g.seq), g.args[1].a[0]) if g.args[1].op == 'addr' else None
    if strip(c.name) not in CONV[kind]:
        if strip(c.name) in ('strtol', 'strtod', 'strtof', 'strtold', 'sscanf'): R.notes.append('%s: conversion with %s not followed' % (f['n'], c.name)); return
        R.oblige('%s converts without loss' % f['n'], False, c.where, '%s converts the text with %s: malformed or out of range values are accepted' % (f['n'], c.name), 'conv %s' % kind); return
    R.oblige('%s converts the text of the key' % f['n'], txt is not None and eng.resolve(c.args[0]) is txt, c.where, '%s does not convert the text found for the key' % f['n'], 'text %s' % kind)
    if kind == 'Int' and len(c.args) > 2:
        R.oblige('%s reads decimal numbers' % f['n'], eng.resolve(c.args[2]) is num(10), c.where, 'integers are read in base %s' % show(eng.resolve(c.args[2])), 'base')
    out = [w for w in eng.events if w.kind == 'write' and isinstance(w.locs[0], Loc) and w.locs[0].root[0] == 'P' and not w.locs[0].path
           and not any(x.op == 'lit' and x.a[0] == 'caught' for x in lits_of(w, eng))]
    if out:
        v = eng.resolve(out[-1].args[0])
        if v.op in ('out', 'num', 'havoc', 'poly', 'cond', 'call', 'conv'):
            R.oblige('%s returns the converted value' % f['n'], v is mk('out', c.seq, 'ret') and not lits_of(out[-1], eng), out[-1].where, '%s returns %s instead of the converted value' % (f['n'], show(v)), 'value %s' % kind)
    # the whole text must have been converted
    pos = [w.args[0] for w in eng.events if w.kind == 'write' and w.args[0].op == 'out' and w.args[0].a[0] == c.seq and w.args[0].a[1] == 1]
    good, any_ = False, False
    for t in eng.events:
        if t.kind != 'throw' and not (t.kind == 'call' and t.name in ABORT): continue
        ls = [x for x in lits_of(t, eng) if not (x.op == 'lit')]
        if not any(y in pos for x in ls for y in subvals(x)): continue
        any_ = t
        f_ = bnot(band(*ls))
        for x in lits(f_):
            if x.op == 'eq0' and len(pos) == 1:
                d = terms(x.a[0])
                if len(d) == 2 and (pos[0],) in d and any(len(m) == 1 and m[0].op == 'call' and m[0].a[0] == 'strlen' and m[0].a[1] is txt for m in d) and sorted(d.values()) == [-1, 1]: good = True
            if x.op == 'ge0' and len(pos) == 1:
                d = terms(x.a[0])
                if len(d) == 2 and d.get((pos[0],)) == 1 and any(len(m) == 1 and m[0].op == 'call' and m[0].a[0] == 'strlen' and m[0].a[1] is txt and d[m] == -1 for m in d): good = True
    if any_ and not good:
        sh = [x for x in lits_of(any_, eng) if x.op != 'lit']
        R.notes.append('%s: check of the converted length at %s not understood (%s)' % (f['n'], any_.where, ', '.join(show(x) for x in sh)))
        if all(x.op in ('ge0', 'eq0', 'not') and all(y.op in ('out', 'num', 'poly', 'ge0', 'eq0', 'not', 'call', 'havoc') for y in subvals(x)) for x in sh):
            R.oblige('%s rejects trailing characters' % f['n'], False, any_.where, '%s accepts a number followed by other characters' % f['n'], 'rest %s' % kind)
    else: R.oblige('%s rejects trailing characters' % f['n'], good, c.where, '%s accepts a number followed by other characters' % f['n'], 'rest %s' % kind)
    handlers(R, eng, f, '%s goes on when the conversion failed' % f['n'], 'catch %s' % kind)

def boolean(R, P, f):
    eng, _ = run(R, P, f)
    at = {}
    for e in eng.events:
        if e.kind == 'call' and strip(e.name) == 'areStringsEqual':
            for a in e.args:
                if a.op == 'addr':
                    v = content_before(eng, e, a.a[0])
                    v = eng.resolve(v) if v is not None else None
                    if v is not None and v.op == 'str': at[v.a[0]] = bnot(eq0(mk('out', e.seq, e.name)))
    for e in eng.events:
        for x in lits_of(e, eng):
            y = x.a[0] if x.op == 'not' else x
            if y.op == 'eq' :
                for s in y.a:
                    if s.op == 'str': at.setdefault(s.a[0], y)
    if set(at) - {'true', 'false'} and 'true' in at: 
        ex = sorted(set(at) - {'true', 'false'})
        R.oblige('%s knows true and false only' % f['n'], False, '%s:%s' % (f.file, f['loc'][1]), '%s also accepts %s' % (f['n'], ', '.join(repr(x) for x in ex)), 'bool words'); return
    if set(at) != {'true', 'false'}: R.notes.append('%s: comparisons not recognised' % f['n']); return
    for t, fa in ((1, 0), (0, 1), (0, 0)):
        m = {at['true']: bool(t), at['false']: bool(fa)}
        thr = [enabled(eng, e, m) for e in eng.events if e.kind == 'throw' or e.kind == 'call' and e.name in ABORT]
        txt = 'true' if t else 'false' if fa else 'any other text'
        if None in thr: R.notes.append('%s: error condition not understood' % f['n']); continue
        if not t and not fa:
            R.oblige('%s rejects other texts' % f['n'], True in thr, '%s:%s' % (f.file, f['loc'][1]), '%s accepts a value that is neither true nor false' % f['n'], 'bool other'); continue
        R.oblige('%s accepts %s' % (f['n'], txt), True not in thr, '%s:%s' % (f.file, f['loc'][1]), '%s rejects %s' % (f['n'], txt), 'bool accept ' + txt)
        ws = [w for w in eng.events if w.kind == 'write' and isinstance(w.locs[0], Loc) and w.locs[0].root[0] == 'P' and not w.locs[0].path and enabled(eng, w, m) is True]
        if ws:
            v = value(eng, eng.resolve(ws[-1].args[0]), m)
            if v.op == 'num' or v in (TRUE, FALSE):
                b = v is TRUE or v.op == 'num' and v.a[0] != 0
                R.oblige('%s yields %s for %s' % (f['n'], txt, txt), b == bool(t), ws[-1].where, '%s yields %s for the text %s' % (f['n'], str(b).lower(), txt), 'bool value ' + txt)

def text(R, P, f):
    eng, _ = run(R, P, f)
    fk = [e for e in eng.events if e.kind == 'call' and strip(e.name) == 'findKey']
    if len(fk) != 1: R.notes.append('%s: key lookup not recognised' % f['n']); return
    k = fk[0]
    out = mk('out', k.seq, k.name)
    miss = eq0(add(out, ONE))
    read = [x for e in eng.events for x in lits_of(e, eng) if x.op == 'eq0' and x.a[0].op == 'init' and 'isFileRead' in repr(x.a[0])]
    m = {x: False for x in read}
    def thr(extra):
        mm = dict(m); mm.update(extra)
        r = [enabled(eng, e, mm) for e in eng.events if e.kind == 'throw' or e.kind == 'call' and e.name in ABORT]
        return True if True in r else None if None in r else False
    where = '%s:%s' % (f.file, f['loc'][1])
    a = thr({miss: True, ge0(out): False})
    if a is None: R.notes.append('%s: error condition not understood' % f['n'])
    else: R.oblige('%s rejects a missing key' % f['n'], a, k.where, '%s accepts a key that is not in the deck' % f['n'], 'missing key')
    a = thr({miss: False, ge0(out): True})
    if a is not None: R.oblige('%s accepts a present key' % f['n'], not a, k.where, '%s rejects a key that is in the deck' % f['n'], 'present key')
    if read:
        r = [enabled(eng, e, {x: True for x in read}) for e in eng.events if e.kind == 'throw']
        R.oblige('%s needs a deck' % f['n'], True in r, where, '%s goes on when no deck was read' % f['n'], 'no deck')
    ws = [w for w in eng.events if w.kind == 'write' and isinstance(w.locs[0], Loc) and w.locs[0].root[0] == 'P' and not w.locs[0].path]
    if ws:
        v = eng.resolve(ws[-1].args[0])
        if v.op == 'init' and isinstance(v.a[0], Loc) and v.a[0].path and v.a[0].path[-1][0] == 'i':
            R.oblige('%s returns the value stored with the key' % f['n'], v.a[0].path[-1][1] is out and 'alue' in repr(mkloc(v.a[0].root, v.a[0].path[:-1])), ws[-1].where, '%s returns %s instead of the value stored with the key' % (f['n'], show(v)), 'value of key')
    R.oblige('%s looks for its own key' % f['n'], k.args[1].op == 'addr' and k.args[1].a[0].root[0] == 'P' and not k.args[1].a[0].path, k.where, '%s looks for another key' % f['n'], 'own key')

def lookup(R, P, f):
    eng, r = run(R, P, f)
    if r is None: return
    r = eng.resolve(r)
    where = '%s:%s' % (f.file, f['loc'][1])
    if r.op != 'ite' or len(eng.loops) != 1: R.notes.append('%s: search not recognised' % f['n']); return
    L = eng.loops[0]
    c, a, b = r.a
    if c.op == 'not': c, a, b = c.a[0], b, a
    if c.op != 'lit' or c.a[0] != 'exits' or a is not L.iv or L.count is None: R.notes.append('%s: search not recognised' % f['n']); return
    R.oblige('%s says when the key is missing' % f['n'], b is num(-1), where, '%s returns %s when the key is missing' % (f['n'], show(b)), 'missing')
    cnt = eng.resolve(L.count)
    full = cnt.op == 'init' and repr(cnt.a[0]).endswith('#n') or cnt.op == 'init' and cnt.a[0].path and cnt.a[0].path[-1] == ('f', '#n')
    R.oblige('%s looks at all keys' % f['n'], bool(full), where, '%s looks at %s keys only' % (f['n'], show(cnt)), 'all keys')
    call = [e for e in eng.events if e.kind == 'call' and strip(e.name) == 'areStringsEqual']
    if len(call) == 1:
        x = call[0]
        want = bnot(eq0(mk('out', x.seq, x.name)))
        R.oblige('%s stops at an equal key' % f['n'], want in lits(c.a[2]), where, '%s stops at a key that is not equal' % f['n'], 'equal key')
        ls = [y.a[0] for y in x.args if y.op == 'addr']
        R.oblige('%s compares the key with every stored key' % f['n'], any(l.path and l.path[-1] == ('i', L.iv) or l.path and l.path[-1][0] == 'i' and eng.resolve(l.path[-1][1]) is L.iv for l in ls) and any(not l.path for l in ls), x.where, '%s does not compare the key with stored key number i' % f['n'], 'stored key')

def equal(R, P, f):
    eng, r = run(R, P, f)
    if r is None: return
    r = tobool(eng.resolve(r))
    ls = lits(r)
    size = [x for x in ls if x.op == 'eq0' and len(terms(x.a[0])) == 2 and all(len(m) == 1 and m[0].op == 'call' and m[0].a[0] == 'strlen' for m in terms(x.a[0]))]
    ex = [x for x in ls if x.op == 'not' and x.a[0].op == 'lit' and x.a[0].a[0] == 'exits']
    if not ex or len(eng.loops) != 1: R.notes.append('%s: comparison not recognised' % f['n']); return
    where = '%s:%s' % (f.file, f['loc'][1])
    R.oblige('%s compares the lengths' % f['n'], bool(size), where, '%s calls texts of different length equal: a key can match another key' % f['n'], 'lengths')
    L = eng.loops[0]
    cnt = eng.resolve(L.count) if L.count is not None else None
    if cnt is not None:
        R.oblige('%s compares all characters' % f['n'], cnt.op == 'call' and cnt.a[0] == 'strlen', where, '%s compares only %s characters' % (f['n'], show(cnt)), 'characters')
    ivs = {repr(x.a[0].root) for x in subvals(ex[0]) if x.op == 'init' and isinstance(x.a[0], Loc) and x.a[0].path and x.a[0].path[-1][0] == 'i' and x.a[0].path[-1][1] is L.iv}
    ivs |= {repr(x.a[0]) for x in subvals(ex[0]) if x.op == 'sel' and x.a[1] == ('i', L.iv)}
    R.oblige('%s compares the texts character by character' % f['n'], len(ivs) == 2, where, '%s does not compare character i with character i' % f['n'], 'pairs')

def line(R, P, f):
    eng, r = run(R, P, f)
    if r is None: return
    r = tobool(eng.resolve(r))
    where = '%s:%s' % (f.file, f['loc'][1])
    cs = [e for e in eng.events if e.kind == 'call' and strip(e.name) in ('popToken', 'deleteWhitespace')]
    names = [strip(e.name) for e in cs]
    if names != ['deleteWhitespace', 'popToken', 'deleteWhitespace', 'popToken', 'deleteWhitespace']:
        R.notes.append('%s: structure not recognised' % f['n']); return
    E = eq0(mk('call', 'strlen', mk('havoc', ('call', cs[0].seq), cs[0].args[0].a[0])))
    def emp(e): 
        h = mk('havoc', ('call', e.seq), e.args[1].a[0])
        return {eqv(mk('str', ''), h), eq0(mk('call', 'strlen', h))}
    atoms = {'an empty line': {E}, 'a line without key': emp(cs[1]), 'a line without space after the key': {eq0(mk('out', cs[2].seq, cs[2].name))},
             'a line without value': emp(cs[3]), 'a line with more text after the value': {bnot(eq0(mk('call', 'strlen', mk('havoc', ('call', cs[4].seq), cs[4].args[0].a[0]))))}}
    names = list(atoms)
    def val(bad):
        m = {}
        for n in names:
            for x in atoms[n]:
                t = n in bad
                if x.op == 'not': m[x.a[0]] = not t
                else: m[x] = t
        return value(eng, r, m)
    def say(bad, want, text_, key):
        v = val(bad)
        if v not in (TRUE, FALSE): R.notes.append('%s: result for %s not understood: %s' % (f['n'], text_, show(v))); return
        R.oblige('%s: %s is %s' % (f['n'], text_, 'accepted' if want else 'rejected'), (v is TRUE) == want, where, '%s %s %s' % (f['n'], 'rejects' if want else 'accepts', text_), text_)
    say({'an empty line', 'a line without key', 'a line without value'}, True, 'an empty line', 0)
    say(set(), True, 'a well formed line', 0)
    for n in names[1:]: say({n}, False, n, 0)
    ps = [p['n'] for p in f['params']]
    if len(ps) == 3:
        for i, c in ((1, cs[1]), (2, cs[3])):
            ws = [w for w in eng.events if w.kind == 'write' and isinstance(w.locs[0], Loc) and w.locs[0].root[0] == 'P' and ps[i] in w.locs[0].root and not w.locs[0].path]
            if ws:
                v = eng.resolve(ws[-1].args[0])
                R.oblige('%s returns the %s' % (f['n'], ps[i]), v is mk('havoc', ('call', c.seq), c.args[1].a[0]), ws[-1].where, '%s returns %s as %s' % (f['n'], show(v), ps[i]), 'out %d' % i)

def split(R, P, f):
    """token and rest of the line meet at one position"""
    eng, r = run(R, P, f, keep=())
    subs = []
    for w in eng.events:
        if w.kind == 'write' and isinstance(w.locs[0], Loc) and w.locs[0].root[0] == 'P' and not w.locs[0].path:
            v = eng.resolve(w.args[0])
            subs.append((w, v))
    return eng, subs

def whole_file(R, P, f):
    eng, _ = run(R, P, f)
    where = '%s:%s' % (f.file, f['loc'][1])
    def ends(): return [e for e in eng.events if e.kind == 'throw' or e.kind == 'call' and e.name in ABORT]
    already = {x for e in eng.events for x in lits_of(e, eng) if x.op == 'eq0' and x.a[0].op == 'init' and 'isFileRead' in repr(x.a[0])}
    m0 = {x: True for x in already}
    # the file must be open
    opn = [e for e in eng.events if e.kind == 'call' and strip(e.name) == 'open']
    tests = [e for e in eng.events if e.kind == 'call' and strip(e.name) in ('is_open', 'operator bool', 'operator!', 'fail', 'good') and not loops_of(e)]
    pl = [e for e in eng.events if e.kind == 'call' and strip(e.name) == 'parseLine']
    gl = [e for e in eng.events if e.kind == 'call' and strip(e.name) == 'getline']
    if len(pl) != 1 or not loops_of(pl[0]) or not gl: R.notes.append('%s: reading of lines not recognised' % f['n']); return
    p = pl[0]; L = loops_of(p)[-1]
    good = False
    for t in tests:
        if t.seq > gl[0].seq: continue
        bad = strip(t.name) in ('operator!', 'fail')
        x = eq0(mk('out', t.seq, 'ret'))
        m = dict(m0); m[x] = not bad
        if any(enabled(eng, e, m) is True for e in ends() if e.seq < gl[0].seq): good = True
    if tests or opn or True:
        R.oblige('%s rejects a file that cannot be opened' % f['n'], good, opn[0].where if opn else where, '%s goes on when the deck cannot be opened' % f['n'], 'open')
    # the loop reads all lines
    if L.early: R.notes.append('%s: the loop over lines has another exit' % f['n'])
    elif L.cond is not None:
        c = eng.resolve(L.cond)
        names = {name_of(eng, y) for y in subvals(c) if y.op == 'out'}
        if names <= {'operator bool', 'getline', 'operator!', 'fail', 'good', 'eof', 'operator void *', None}:
            R.oblige('%s reads to the end of the file' % f['n'], bool(names - {None}), where, '%s stops reading lines if %s' % (f['n'], show(c)), 'lines')
    R.oblige('%s parses the line just read' % f['n'], p.args[0].op == 'addr' and any(gx.args[1].op == 'addr' and gx.args[1].a[0] is p.args[0].a[0] for gx in gl), p.where, '%s does not parse the line just read' % f['n'], 'line')
    fk = [e for e in eng.events if e.kind == 'call' and strip(e.name) == 'findKey' and L in loops_of(e)]
    ok_ = bnot(eq0(mk('out', p.seq, p.name)))
    key = mk('havoc', ('call', p.seq), p.args[1].a[0]); val = mk('havoc', ('call', p.seq), p.args[2].a[0])
    empty = {eqv(mk('str', ''), key), eq0(mk('call', 'strlen', key))}
    if not fk:
        R.oblige('%s rejects duplicate keys' % f['n'], False, p.where, '%s does not look for duplicate keys' % f['n'], 'duplicate'); 
    fo = mk('out', fk[0].seq, fk[0].name) if fk else None
    if fk:
        a = fk[0].args
        R.oblige('%s looks for the new key among the stored keys' % f['n'], a[1].op == 'addr' and a[1].a[0] is p.args[1].a[0], fk[0].where, '%s does not look for the key of the line' % f['n'], 'dup key')
    def asg(pok, dup, emp):
        m = dict(m0)
        m[ok_ if ok_.op != 'not' else ok_.a[0]] = pok if ok_.op != 'not' else not pok
        if fo is not None: m[eq0(add(fo, ONE))] = not dup; m[ge0(fo)] = dup
        for x in empty: m[x] = emp
        return m
    cond0 = [x for x in (lits_of(p, eng))]
    for t in tests: 
        x = eq0(mk('out', t.seq, 'ret')); m0[x] = strip(t.name) in ('operator!', 'fail')
    after = [e for e in ends() if not loops_of(e) and e.seq > p.seq]
    flags = {}
    for e in after:
        for x in lits_of(e, eng):
            for y in subvals(x):
                if y.op == 'fin' and y.a[0] == L.n: flags.setdefault(y, []).append(e)
    for pok, dup, emp, why in ((False, False, False, 'a malformed line'), (False, False, True, 'a malformed line without key'), (True, True, False, 'a duplicate key')):
        if dup and not fk: continue
        m = asg(pok, dup, emp)
        inl = [enabled(eng, e, m) for e in ends() if L in loops_of(e)]
        verdict = True if True in inl else None if None in inl else False
        if verdict is not True:
            for y, es in flags.items():
                nx = L.next.get(y.a[1])
                if nx is None: continue
                nx = value(eng, eng.resolve(nx), m)
                if nx.op == 'num' or nx in (TRUE, FALSE):
                    mm = {}
                    for e in es:
                        gs = [value(eng, value(eng, eng.subst(x, {y: nx}), m0), m) for x in lits_of(e, eng)]
                        if all(g is TRUE for g in gs):
                            # later good lines must not take it back
                            m2 = asg(True, False, False)
                            n2 = value(eng, eng.subst(eng.resolve(L.next[y.a[1]]), {mk('mu', L.n, y.a[1]): nx}), m2)
                            n3 = value(eng, eng.subst(eng.resolve(L.next[y.a[1]]), {mk('mu', L.n, y.a[1]): nx}), asg(True, False, True))
                            if n2 is nx and n3 is nx: verdict = True
                            elif (n2.op == 'num' or n2 in (TRUE, FALSE)) and verdict is not True: verdict = False
                        elif any(g is FALSE for g in gs) or all(g is TRUE for g, x in zip(gs, lits_of(e, eng)) if any(z is y for z in subvals(x))): pass
                        elif verdict is False: verdict = None
                elif nx.op == 'mu' and verdict is not True: pass
                elif verdict is False: verdict = None
        if verdict is None: R.notes.append('%s: what happens for %s is not understood' % (f['n'], why)); continue
        R.oblige('%s rejects %s' % (f['n'], why), verdict, p.where, '%s accepts a deck with %s' % (f['n'], why), 'reject ' + why)
    # well formed lines are stored
    m = asg(True, False, False)
    ps = [e for e in eng.events if e.kind == 'cont' and e.name == 'push' and L in loops_of(e)]
    for what, v, nm in (('key', key, 'key'), ('value', val, 'value')):
        mine = [e for e in ps if isinstance(e.locs[0], Loc) and e.locs[0].path and nm in field_short(e.locs[0]).lower()]
        if not mine: R.notes.append('%s: storing of the %s not recognised' % (f['n'], what)); continue
        e = mine[0]
        en = enabled(eng, e, m)
        if en is not None:
            R.oblige('%s stores the %s of every well formed line' % (f['n'], what), en, e.where, '%s does not store the %s of a well formed line' % (f['n'], what), 'store ' + what)
        R.oblige('%s stores the %s of the line' % (f['n'], what), eng.resolve(e.args[0]) is v, e.where, '%s stores %s as %s' % (f['n'], show(eng.resolve(e.args[0])), what), 'stored ' + what)

def check(R):
    R.rule('main: each documented key has exactly its getter call on every path, the value reaches its variable unchanged (normal form identity), the conjunction of '
           'negated path conditions of program-ending calls before the solve restricts the value to the documented range (evaluated on the boundary values of every comparison). '
           'Reader: throw conditions evaluated under truth assignments of elementary tests.')
    P = R.prog('sweep+noassert')
    part_main(R, P)
    by = {}
    for f in user_funcs(P):
        if 'CKG_Utils' in f['n']: by.setdefault(f['n'].split('::')[-1], []).append(f)
    def one(n): return by[n][0] if len(by.get(n, [])) == 1 else None
    n = 0
    for name, fun in (('getInt', lambda f: number(R, P, 'Int', f)), ('getDouble', lambda f: number(R, P, 'Double', f)), ('getFloat', lambda f: number(R, P, 'Float', f)),
                      ('getBool', lambda f: boolean(R, P, f)), ('getString', lambda f: text(R, P, f)), ('findKey', lambda f: lookup(R, P, f)),
                      ('areStringsEqual', lambda f: equal(R, P, f)), ('parseLine', lambda f: line(R, P, f)), ('readFile', lambda f: whole_file(R, P, f))):
        f = one(name)
        if f is None: R.notes.append('no function %s in the deck reader' % name); continue
        n += 1
        fun(f)
    R.need(n, 3, 'functions of the deck reader')
