"""C15: nothing the caller hands over is changed in place."""
from .isolation import solve, LABEL

TECHNIQUE = ('whole-program points-to and mutation analysis: caller-owned values are tainted roots, '
             'everything reachable from them stays caller-owned until it is rebuilt by the package, and '
             'every in-place change reachable from the public API is resolved to the objects it can change')
NOTE = ('May-alias fixpoint, flow-sensitive for locals, call-string sensitive (2 calls, thorough 3). '
        'Sets and objects of foreign classes handed over by the caller are not modelled.')


def run(prog, rep):
    rep.rule('caller', 'no statement reachable from the public API changes in place a dictionary, list '
             'or other value given by the caller, or anything reachable from one')
    rep.section('caller', caller, prog, rep)


def caller(prog, rep):
    p = solve(prog, rep, 2 if rep.tier == 'quick' else 3)
    bad = [m for m in p.muts.values() if not m.shared]
    for m in bad:
        rep.bad('caller', m.fi.loc(m.node), '%s in %s changes %s' % (m.what, m.fi.qual, LABEL),
                key='%s:%s' % (m.fi.qual, m.what))
    if not bad:
        rep.ok('caller', '%d functions, %d contexts' % (len(p.fis), len(p.args)))
    rep.count('in-place changes of caller data', len(bad))
