"""Shared: final element values of arrays after running a function."""
from .common import *
from .den import *
from fractions import Fraction
import math

def gloc(P, name):
    for u, x in P.globals.items():
        if x.get('n', '').split('::')[-1] == name: return mkloc(root('G', u, x['n']))
    raise AnalysisBroken('global %s not found' % name)
def gval(P, name): return mk('init', gloc(P, name))

def content(eng, l):
    if eng.st is None: return None
    if isinstance(l, CondLoc): return None
    return eng.get(eng.st, l)

def ploc(F, i): return mkloc(root('P', F['params'][i]['n'] or 'arg'))

def element(eng, D, loc, idx):
    """value of element idx (tuple) of the indexed object at loc"""
    v = content(eng, fld(loc, '#m'))
    return None if v is None else D.elem(v, ('x', tuple(idx)))

def init_elem(loc, *idx): return mk('init', elem(fld(loc, '#m'), *idx)) if len(idx) > 1 else mk('init', mkloc(loc.root, loc.path + (('f', '#m'), ('x', (idx[0],)))))
