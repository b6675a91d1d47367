"""C05: operands of non-conforming shape are rejected before any element is touched."""
import itertools
import re

import front
import ir
import shapes

LOWER, UPPER, UNIT, LEFT, RIGHT, TA, TB, CTA, CTB = 1, 2, 0x10, 0x20, 0x40, 0x80, 0x100, 0x200, 0x400
ALLT = TA | TB | CTA | CTB
SQ = 'A.rows==A.cols'

# name -> [(mask, value, requirement)]: with (flags & mask) == value the operands must satisfy the requirement
SPEC = {}


def spec(names, *cases):
    for n in names.split():
        SPEC['armas_' + n] = [c if isinstance(c, tuple) else (0, 0, c) for c in cases]


# matrix-matrix
spec('mult ext_mult',
     (ALLT, 0, 'C.rows==A.rows & A.cols==B.rows & C.cols==B.cols'),
     (ALLT, TA, 'C.rows==A.cols & A.rows==B.rows & C.cols==B.cols'),
     (ALLT, TB, 'C.rows==A.rows & A.cols==B.cols & C.cols==B.rows'),
     (ALLT, TA | TB, 'C.rows==A.cols & A.rows==B.cols & C.cols==B.rows'))
spec('mult_sym ext_mult_sym',
     (RIGHT | LEFT | ALLT, LEFT, SQ + ' & C.rows==A.rows & A.cols==B.rows & C.cols==B.cols'),
     (RIGHT | LEFT | ALLT, 0, SQ + ' & C.rows==A.rows & A.cols==B.rows & C.cols==B.cols'),
     (RIGHT | LEFT | ALLT, TB, SQ + ' & C.rows==A.rows & A.cols==B.cols & C.cols==B.rows'),
     (RIGHT | LEFT | ALLT, RIGHT, SQ + ' & C.rows==B.rows & B.cols==A.rows & C.cols==A.cols'),
     (RIGHT | LEFT | ALLT, RIGHT | TB, SQ + ' & C.rows==B.cols & B.rows==A.rows & C.cols==A.cols'))
spec('mult_trm solve_trm ext_mult_trm ext_solve_trm ext_solve_trm_w',
     (RIGHT | LEFT, LEFT, SQ + ' & A.cols==B.rows'),
     (RIGHT | LEFT, 0, SQ + ' & A.cols==B.rows'),
     (RIGHT | LEFT, RIGHT, SQ + ' & A.cols==B.cols'))
spec('update_sym', (ALLT, 0, 'C.rows==C.cols & C.rows==A.rows'), (ALLT, TA, 'C.rows==C.cols & C.rows==A.cols'))
spec('update2_sym', (ALLT, 0, 'C.rows==C.cols & C.rows==A.rows & A.rows==B.rows & A.cols==B.cols'),
     (ALLT, TA, 'C.rows==C.cols & C.rows==A.cols & A.rows==B.rows & A.cols==B.cols'))
spec('update_trm',
     (ALLT, 0, 'C.rows==A.rows & A.cols==B.rows & C.cols==B.cols'),
     (ALLT, TA, 'C.rows==A.cols & A.rows==B.rows & C.cols==B.cols'),
     (ALLT, TB, 'C.rows==A.rows & A.cols==B.cols & C.cols==B.rows'),
     (ALLT, TA | TB, 'C.rows==A.cols & A.rows==B.cols & C.cols==B.rows'))
# matrix-vector
spec('mvmult ext_mvmult', (ALLT, 0, 'vec(x) & vec(y) & x.len==A.cols & y.len==A.rows'),
     (ALLT, TA, 'vec(x) & vec(y) & x.len==A.rows & y.len==A.cols'))
spec('mvmult_sym ext_mvmult_sym', SQ + ' & vec(x) & vec(y) & x.len==A.cols & y.len==A.rows')
spec('mvmult_trm mvsolve_trm ext_mvmult_trm ext_mvsolve_trm ext_mvsolve_trm_w', SQ + ' & vec(x) & x.len==A.cols')
spec('mvupdate ext_mvupdate', 'vec(x) & vec(y) & x.len==A.rows & y.len==A.cols')
spec('mvupdate_trm', 'vec(x) & vec(y) & x.len==A.rows & y.len==A.cols')
spec('mvupdate_sym ext_mvupdate_sym', SQ + ' & vec(x) & x.len==A.cols')
spec('mvupdate2_sym ext_mvupdate2_sym', SQ + ' & vec(x) & vec(y) & x.len==A.cols & y.len==A.cols')
# vectors
spec('swap', 'vec(X) & vec(Y) & X.len==Y.len')
spec('adot ext_adot axpby axpy ext_axpby', 'vec(x) & vec(y) & x.len==y.len')
spec('mcopy', (ALLT, 0, 'vec(A) & vec(B) & A.len==B.len | A.rows==B.rows & A.cols==B.cols'),
     (ALLT, TA, 'vec(A) & vec(B) & A.len==B.len | A.rows==B.cols & A.cols==B.rows'))
# the diagonal given as a column vector
for n in ('mult_diag', 'solve_diag'):
    spec(n, *[(LEFT | RIGHT, v, 'vec(A) & A.len==D.rows | %s==D.rows' % x, ('D.cols', 1))
              for v, x in ((RIGHT, 'A.cols'), (LEFT, 'A.rows'), (0, 'A.rows'))])
# factorizations, inverses, solvers
spec('inverse_trm cholinverse_w luinverse_w ldlinverse_w cholfactor_w cholfactor cholesky ldlfactor_w ldlfactor hessreduce hessreduce_w '
     'trdreduce trdreduce_w bkfactor bkfactor_w luinverse eigen_sym_w eigen_sym eigen_sym_selected eigen_sym_selected_w', SQ)
spec('cholsolve lusolve ldlsolve', SQ + ' & B.rows==A.cols')
spec('bksolve bksolve_w', 'B.rows==A.cols')
spec('qrfactor qrfactor_w qlfactor qlfactor_w', 'A.cols<=A.rows & A.cols<=tau.len & vec(tau)')
spec('lqfactor lqfactor_w', 'A.rows<=A.cols & A.rows<=tau.len & vec(tau)')
spec('rqfactor rqfactor_w', 'A.rows<=A.cols & A.rows<=tau.len & vec(tau)')
spec('qrmult qrmult_w qlmult qlmult_w', (RIGHT | LEFT, LEFT, 'A.cols==tau.len & C.rows==A.rows'),
     (RIGHT | LEFT, 0, 'A.cols==tau.len & C.rows==A.rows'), (RIGHT | LEFT, RIGHT, 'A.cols==tau.len & C.cols==A.rows'))
spec('lqmult lqmult_w rqmult rqmult_w', (RIGHT | LEFT, LEFT, 'A.rows==tau.len & C.rows==A.cols'),
     (RIGHT | LEFT, 0, 'A.rows==tau.len & C.rows==A.cols'), (RIGHT | LEFT, RIGHT, 'A.rows==tau.len & C.cols==A.cols'))
spec('qrtfactor qrtfactor_w', 'A.cols<=A.rows & A.cols<=T.cols')
spec('qrsolve qrsolve_w', 'B.rows==A.rows')
spec('lqsolve lqsolve_w', 'B.rows==A.cols')
spec('qrreflector qlreflector', 'A.cols<=T.cols & A.cols<=T.rows')
spec('rqreflector lqreflector', 'A.rows<=T.cols & A.rows<=T.rows')
spec('pivot_rows', 'P.npivots<=A.rows')
spec('lufactor', 'A.rows<=P.npivots | A.cols<=P.npivots')
spec('pivot_cols', 'P.npivots<=A.cols')
spec('trdeigen trdeigen_w', 'E.len<=D.len & vec(D) & vec(E)')
spec('qsort_vec sort_eigenvec', 'vec(D)')
spec('update2_rbt', SQ + ' & A.rows<=U.rows & A.rows<=V.rows & U.cols==V.cols')
spec('trdsec_solve', 'y.len==d.len & d.len==z.len & d.len==delta.len')
spec('trdmult trdmult_w', 'A.cols==tau.len')
for n in ('ldlfactor', 'ldlfactor_w'):
    SPEC['armas_' + n] = [(0, 0, SQ + ' & A.cols<=P.npivots')]
for n in ('bkfactor', 'bkfactor_w', 'luinverse', 'luinverse_w', 'cholfactor', 'cholfactor_w'):
    SPEC['armas_' + n] = [(m, v, r + ' & P.npivots==A.cols') for m, v, r in SPEC['armas_' + n]]

# sparse
for n, v in (('mvmult', 'y.len==A.%s & x.len==A.%s'),):
    SPEC['armassp_' + n] = [(TA, 0, v % ('rows', 'cols')), (TA, TA, v % ('cols', 'rows'))]
SPEC['armassp_mvmult_sym'] = [(0, 0, SQ + ' & y.len==A.rows & x.len==A.rows')]
SPEC['armassp_mvmult_trm'] = SPEC['armassp_mvsolve_trm'] = [(0, 0, SQ + ' & x.len==A.rows')]
SPEC['armassp_multto_w'] = [(TA | TB, v, 'A.%s==B.%s & C.rows==A.%s & C.cols==B.%s' % d) for v, d in (
    (0, ('cols', 'rows', 'rows', 'cols')), (TA, ('rows', 'rows', 'cols', 'cols')), (TB, ('cols', 'cols', 'rows', 'rows')),
    (TA | TB, ('rows', 'cols', 'cols', 'rows')))]
SPEC['armassp_addto_w'] = [(0, 0, 'A.rows==B.rows & A.cols==B.cols')]
SPEC['armassp_todense'] = [(0, 0, 'A.rows==B.rows & A.cols==B.cols')]
for n in 'cgrad cgne cgnr gmres pcgrad pgmres'.split():
    for w in ('', '_w'):
        SPEC['armassp_' + n + w] = [(0, 0, 'x.len==A.cols & b.len==A.rows')]

# the names of the operands above, in the order of the operand parameters
ORDER = {}
for o, ns in {
        'C A B': 'mult ext_mult mult_sym ext_mult_sym update2_sym update_trm',
        'B A': 'mult_trm solve_trm ext_mult_trm ext_solve_trm ext_solve_trm_w',
        'C A': 'update_sym',
        'y A x': 'mvmult ext_mvmult mvmult_sym ext_mvmult_sym',
        'x A': 'mvmult_trm mvsolve_trm ext_mvmult_trm ext_mvsolve_trm ext_mvsolve_trm_w',
        'A x y': 'mvupdate ext_mvupdate mvupdate_trm mvupdate2_sym ext_mvupdate2_sym',
        'A x': 'mvupdate_sym ext_mvupdate_sym',
        'x y': 'adot ext_adot',
        'y x': 'axpby axpy ext_axpby',
        'Y X': 'swap',
        'A B': 'mcopy',
        'A D': 'mult_diag solve_diag',
        'A': 'inverse_trm cholinverse_w cholesky',
        'A P': 'luinverse_w ldlinverse_w cholfactor_w cholfactor ldlfactor_w ldlfactor bkfactor bkfactor_w luinverse pivot_rows pivot_cols lufactor',
        'A tau': 'hessreduce hessreduce_w qrfactor qrfactor_w qlfactor qlfactor_w lqfactor lqfactor_w rqfactor rqfactor_w',
        'A tauq': 'trdreduce trdreduce_w',
        'D A': 'eigen_sym_w eigen_sym eigen_sym_selected eigen_sym_selected_w',
        'B A P': 'cholsolve lusolve ldlsolve bksolve bksolve_w',
        'C A tau': 'qrmult qrmult_w qlmult qlmult_w lqmult lqmult_w rqmult rqmult_w trdmult trdmult_w',
        'A T': 'qrtfactor qrtfactor_w',
        'B A tau': 'qrsolve qrsolve_w lqsolve lqsolve_w',
        'T A tau': 'qrreflector qlreflector rqreflector lqreflector',
        'D E V': 'trdeigen trdeigen_w',
        'D': 'qsort_vec',
        'D U V C': 'sort_eigenvec',
        'A U V': 'update2_rbt',
        'y d z delta': 'trdsec_solve',
        'y A x ': 'sp_mvmult sp_mvmult_sym',
        'x A ': 'sp_mvmult_trm sp_mvsolve_trm',
        'C A B ': 'sp_multto_w sp_addto_w',
        'A B ': 'sp_todense',
        'x A b': ' '.join('sp_%s%s' % (n, w) for n in 'cgrad cgne cgnr gmres pcgrad pgmres'.split() for w in ('', '_w'))}.items():
    for n in ns.split():
        ORDER['armassp_' + n[3:] if n.startswith('sp_') else 'armas_' + n] = o.split()


class Req:
    def __init__(self, f, text, n, ops):
        self.f = f
        self.text = text
        self.alts = [[x.strip() for x in a.split('&')] for a in text.split('|')]
        self.idx = dict(zip(ORDER[n], sorted(ops)))

    def dim(self, s):
        n, fl = s.split('.')
        return (self.idx[n], fl)

    def atom(self, A, st, d, a):
        m = re.match(r'vec\((\w+)\)$', a)
        if m:
            k = self.idx[m.group(1)]
            return 1 in (A.T.const(A.rep(st, d[(k, 'rows')])), A.T.const(A.rep(st, d[(k, 'cols')])))
        m = re.match(r'([\w.]+)==min\(([\w.]+),([\w.]+)\)$', a)
        if m:
            x, y, z = (self.dim(g) for g in m.groups())
            return (self.eq(A, st, d, x, y) and A.le(st, d[y], d[z])) or (self.eq(A, st, d, x, z) and A.le(st, d[z], d[y]))
        x, op, y = re.match(r'([\w.]+)(==|<=)([\w.]+)$', a).groups()
        x, y = self.dim(x), self.dim(y)
        return self.eq(A, st, d, x, y) if op == '==' else (self.eq(A, st, d, x, y) or A.le(st, d[x], d[y]))

    def eq(self, A, st, d, x, y):
        if A.poly(st, d[x]) == A.poly(st, d[y]):
            return True
        return x[1] != 'len' and y[1] != 'len' and A.le(st, d[x], d[y]) and A.le(st, d[y], d[x])

    def holds(self, A, st, d):
        miss = None
        for alt in self.alts:
            bad = [a for a in alt if not self.atom(A, st, d, a)]
            if not bad:
                return None
            miss = bad if miss is None or len(bad) < len(miss) else miss
        return miss

    def exempt(self, cl, A, st, d):
        """nothing to do: an operand is empty, or the call asks for the workspace size"""
        for k in cl.ops:
            for fl in ('rows', 'cols', 'npivots', 'len'):
                if (k, fl) in d and A.T.const(A.rep(st, d[(k, fl)])) == 0:
                    return True
        return False


def job(x):
    S, n, mask, val, text, pin = x
    f = S.M.f(n)
    req = Req(f, text, n, S.ops(f))
    bad = {}
    cnt = [0, 0, 0]

    def onpoint(cl, A, st, ins, kind):
        d = cl.dims(A)
        if kind == 'return':
            cnt[1] += 1
            if req.exempt(cl, A, st, d) or cl.query(A, st):
                cnt[2] += 1
                return
        else:
            cnt[0] += 1
        m = req.holds(A, st, d)
        if m:
            bad.setdefault((kind, tuple(m)), ins.where() if ins is not None else None)
    fk = [k for k, p in enumerate(f.params) if p['ty'] == 'i32']
    case = {fk[-1]: (mask, val)} if mask and fk else {}
    if pin:
        case[req.dim(pin[0])] = ('dim', pin[1])
    cl, A = S.run(f, case, onpoint)
    return n, mask, val, text, cnt, bad, A.truncated


def check(c):
    npts = nret = nq = nf = 0
    trunc = []
    for prec in (('FLOAT64', 'FLOAT32') if c.thorough else ('FLOAT64',)):
        M = c.module(prec, flags=('--inline-alloc=90',))
        S = shapes.Shapes(M, ir.Effects(M))
        A = front.api(prec)
        pub = {ir.cname(n) for n in A}
        jobs = []
        gone = []
        for n in sorted(SPEC):
            if n not in pub:
                continue
            f = M.f(n)
            if f is None:
                gone.append(n)
                continue
            nf += 1
            for x in SPEC[n]:
                jobs.append((S, n) + tuple(x) + ((None,) if len(x) == 3 else ()))
        for n, mask, val, text, cnt, bad, tr in c.pmap(lambda k: job(jobs[k]), range(len(jobs))):
            npts += cnt[0]
            nret += cnt[1]
            nq += cnt[2]
            if tr:
                trunc.append('%s/%x' % (n, val))
            if len(c.samples) < 12 and cnt[0]:
                c.samples.append('%s flags&%#x==%#x requires %s: %d points' % (n, mask, val, text, cnt[0]))
            for (kind, miss), where in bad.items():
                what = 'may report success' if kind == 'return' else 'touches operand elements (%s)' % kind
                c.report('%s:%x:%s:%s' % (n, val, 'return' if kind == 'return' else 'elem', ','.join(miss)),
                         '%s%s without having established %s' % (what, ' when flags&%#x==%#x' % (mask, val) if mask else '', ' and '.join(miss)),
                         fn=n, where=where)
    c.cov.update(functions=nf, element_access_points=npts, success_returns=nret, exempt_returns=nq, obligations=npts + nret - nq,
                 discharged=npts + nret - nq - len(c.findings), truncated=trunc, trusted_base=['shape table in lib/checks/shapesck.py', 'lib/engine.py'])
    c.assume += ['a shape is the pair of dimensions in the operand header; the header itself is taken to describe its storage']
    c.require('functions with a shape rule', nf, 90)
    c.require('element access points', npts, 500)
    if trunc:
        c.require('functions analysed to the end', -len(trunc), 0)
