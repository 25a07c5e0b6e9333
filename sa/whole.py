"""The whole program from main, with large parts of it as boundaries, and evaluation of path conditions under truth assignments."""
from .common import *

def closure(P):
    c = getattr(P, '_closure', None)
    if c is not None: return c
    cal = {}
    for f in user_funcs(P):
        cal.setdefault(f['usr'], set()).update(n['fn'] for n in walk(f['body'])
            if n.get('k') in ('call', 'ctor') and n.get('fn') and n['fn'] in P.funcs and P.funcs[n['fn']].get('body'))
    out = {}
    for u in cal:
        s = set(); st = [u]
        while st:
            for y in cal.get(st.pop(), ()):
                if y not in s: s.add(y); st.append(y)
        out[u] = s
    P._closure = out
    return out

def main_trace(R, P, small=4):
    """main with everything small, and what leads to the deck reader, followed"""
    C = closure(P)
    nm = {u: P.funcs[u]['n'] for u in C}
    reach = {u for u in C if any('KeyValueReader::get' in nm.get(y, P.funcs[y]['n']) for y in C[u])}
    ni = [nm[u] for u in C if 'KeyValueReader' in nm[u] or u not in reach and len(C[u]) > small]
    eng = Engine(P, noinline=ni, virtual_opaque=True)
    eng.run(P.fn('main'))
    R.analysed('main', *[nm[u] for u in C if nm[u] not in ni and nm[u] != 'main' and any(f is not None for f in [1]) and u in C.get(P.fn('main')['usr'], ())])
    return eng

def lits_of(ev, eng):
    return [eng.resolve(x) for x in guards(ev)]

def value(eng, v, m):
    """v under the truth assignment m of literals, simplified"""
    full = {}
    for k, b in m.items():
        full[k] = TRUE if b else FALSE
        full[bnot(k)] = FALSE if b else TRUE
    for _ in range(4):
        w = eng.subst(v, full)
        if w is v: break
        v = w
    return v

def enabled(eng, ev, m, skip=()):
    """True/False/None: is the event's path condition true under the assignment"""
    r = True
    for x in lits_of(ev, eng):
        if x in skip: continue
        y = value(eng, x, m)
        if y is FALSE: return False
        if y is not TRUE: r = None
    return r
