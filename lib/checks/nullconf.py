"""A NULL configuration block is accepted by every public computational function."""
import front
import ir
import nulls


def check(c):
    nf = 0
    npaths = 0
    for prec in (('FLOAT64', 'FLOAT32') if c.thorough else ('FLOAT64',)):
        M = c.module(prec)
        N = nulls.Nulls(M)
        A = front.api(prec)
        for n in sorted(A):
            if A[n]['file'] not in ('matrix.h', 'sparse.h'):
                continue
            f = M.fns.get(n)
            if f is None:
                continue
            ks = [k for k, p in enumerate(f.params) if 'armas_conf' in p.get('dt', '')]
            if not ks:
                continue
            nf += 1
            npaths += sum(1 for i in f.calls() for k in ks if k in i.args())
            for k in ks:
                if k in N.deref[n]:
                    i = N.deref[n][k]
                    c.report(f.cname, 'dereferences its configuration argument %s, which may be NULL' % f.params[k]['name'],
                             fn=f.cname, where=i.where(), path=N.chain(n, k))
            if len(c.samples) < 12:
                c.samples.append('%s: %s' % (f.cname, 'dereferences ' if ks[0] in N.deref[n] else 'only dereferenced after a NULL test'))
    c.cov.update(obligations=nf, discharged=nf - len(c.findings), functions_analysed=len(M.fns),
                 trusted_base=['clang 18 front end', 'LLVM SROA/inliner', 'lib/nulls.py dataflow'])
    c.require('public functions with a configuration parameter', nf, 150)
