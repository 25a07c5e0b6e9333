"""C28: closed forms of the moment and source operators."""
from sa.arrays import *

TECHNIQUE = 'value-flow summary of the loop nests to closed element formulas, compared in polynomial normal form'
NOTE = """For every group, vertex, direction and cell the value that psiToPhi, calcTotalSource, phiToPsi and operatorS leave in each output
element is derived from the source for all extents and any number of threads and compared with the defining sum. Exact real arithmetic
(rounding is not modelled); races are decided by C05. Covers also the in-place use of operatorS and the order source, sweep, flux in the solvers."""

def check(R):
    R.rule('The loop nest of each operator is summarised into the value of one arbitrary output element, as a formula over the inputs '
           'with sums over index ranges; it must equal the defining formula (sum over all g_nAngles of weight*psi; external source + '
           'sigmaS/(4 pi)*phi; copy), for every index in the extents, whatever the number of threads.')
    R.assumption('real arithmetic; the output arrays do not overlap the inputs except where a caller passes the same object')
    P = R.prog('sweep')
    G, A, C = gval(P, 'g_nGroups'), gval(P, 'g_nAngles'), gval(P, 'g_nCells')
    g, v, a, c = (mk('sym', 'idx_' + n) for n in ('group', 'vertex', 'angle', 'cell'))
    ext = {g: G, v: num(4), a: A, c: C}
    sig = mk('init', mkloc(gloc(P, 'g_sigmaS').root, (('f', '#d'), ('i', c))))
    k = num(Fraction(1) / (4 * Fraction(math.pi)))
    full = band(*[band(ge0(x), ge0(sub(sub(e, ONE), x))) for x, e in ext.items()])
    def wt(b): return mk('call', 'Quadrature::getWt', b)
    def sumw(psi):
        b = mk('bv', A, 0)
        return mksum(b, mul(wt(b), init_elem(psi, g, v, b, c)))
    def phi(l): return init_elem(l, g, v, c)
    def psi(l): return init_elem(l, g, v, a, c)
    n = 0
    def one(name, types, out, idx, spec, alias=None, what=''):
        nonlocal n
        for F in P.fns(name):
            ps = [p['t'] for p in F['params']]
            got = [(t.e.n if t.k == 'ref' else t.n) for t in ps]
            if got != types:
                R.notes.append('%s has another signature, not decided' % name); continue
            n += 1
            eng = Engine(P, opaque=MESH_GETTERS + QUAD_GETTERS)
            args = None
            if alias: args = [('l', ploc(F, alias[0])) if i in alias else None for i in range(len(ps))]
            eng.run(F, args=args)
            R.analysed(F['n'])
            D = Den(eng, ext)
            l = ploc(F, alias[0] if alias and out in alias else out)
            val = element(eng, D, l, idx)
            if val is None: continue
            # within the extents
            m = {x: TRUE for x in lits(full)}
            val = D.scal(eng.subst(val, m))
            want = spec(*[ploc(F, alias[0] if alias and i in alias else i) for i in range(len(ps))])
            where = '%s:%s' % (F.file, F['loc'][1])
            if not closed(val):
                R.notes.append('%s%s: value %s is not in closed form, not decided' % (name, what, show(val))); continue
            R.oblige('%s%s: every element is %s' % (name, what, show(want)), approx(val, want), where,
                     '%s%s leaves %s in element (%s) of its result; by definition it is %s' % (name, what, show(val), ', '.join(x.a[0][4:] for x in idx), show(want)),
                     '%s%s' % (name, what))
            # written everywhere and nothing else: no other parameter changes
            for i, p in enumerate(F['params']):
                if i == out or (alias and i in alias): continue
                cv = content(eng, fld(ploc(F, i), '#m'))
                R.oblige('%s leaves its input %s alone' % (name, p['n']), cv is None or cv.op == 'init', where, '%s changes its input %s' % (name, p['n']))
    PHI, PSI = 'PhiData', 'PsiData'
    one('Util::psiToPhi', [PHI, PSI], 0, (g, v, c), lambda o, i: sumw(i))
    one('Util::phiToPsi', [PHI, PSI], 1, (g, v, a, c), lambda i, o: phi(i))
    one('Util::calcTotalSource', [PSI, PHI, PSI], 2, (g, v, a, c), lambda s, f, o: add(psi(s), mul(k, mul(sig, phi(f)))))
    one('Util::operatorS', [PHI, PHI], 1, (g, v, c), lambda i, o: mul(k, mul(sig, phi(i))))
    one('Util::operatorS', [PHI, PHI], 1, (g, v, c), lambda i, o: mul(k, mul(sig, phi(i))), alias=(0, 1), what=' in place')
    one('Util::calcTotalSource', [PSI, PHI, PSI], 2, (g, v, a, c), lambda s, f, o: add(psi(s), mul(k, mul(sig, phi(f)))), alias=(0, 2), what=' in place')
    R.need(n, 5, 'operators')
