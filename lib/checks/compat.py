"""C14: the Fortran and CBLAS entry points ask the library for the operation that the BLAS standard gives their arguments.

Every entry point is evaluated symbolically once per combination of its character (or enumeration) arguments.  At the call that it makes
to the library the operands (first element, sizes, distance of columns, flags) are turned into an equation between strided matrices, and
that equation is compared with the one of the standard.  An equation and its transpose are the same (C = AB and C^T = B^T A^T), and a
triangle of a matrix with unit distance between columns is the opposite triangle of its transpose.  Where an entry point runs over
vectors by itself, the elements it pairs are followed for vectors of one, two and three elements with arbitrary distances."""
import itertools

import engine
import ir
from checks.views import LIM, View, const
from checks.work import padd, pmul

# arguments of the standard; s: side, u: triangle, t: transpose, g: diagonal, n: sizes, l: distances, f: scalars, A: arrays
ROLES = {
    'asum': 'n:n X:x l:incx', 'nrm2': 'n:n X:x l:incx', 'amax': 'n:n X:x l:incx', 'scal': 'n:n f:alpha X:x l:incx',
    'axpy': 'n:n f:alpha X:x l:incx X:y l:incy', 'copy': 'n:n X:x l:incx X:y l:incy', 'dot': 'n:n X:x l:incx X:y l:incy',
    'swap': 'n:n X:x l:incx X:y l:incy', 'rot': 'n:n X:x l:incx X:y l:incy f:c f:s', 'rotg': 'X:a X:b X:c X:s',
    'gemv': 't:t n:m n:n f:alpha X:a l:lda X:x l:incx f:beta X:y l:incy',
    'symv': 'u:u n:n f:alpha X:a l:lda X:x l:incx f:beta X:y l:incy',
    'trmv': 'u:u t:t g:g n:n X:a l:lda X:x l:incx', 'trsv': 'u:u t:t g:g n:n X:a l:lda X:x l:incx',
    'ger': 'n:m n:n f:alpha X:x l:incx X:y l:incy X:a l:lda', 'syr': 'u:u n:n f:alpha X:x l:incx X:a l:lda',
    'syr2': 'u:u n:n f:alpha X:x l:incx X:y l:incy X:a l:lda',
    'gemm': 't:t t:t2 n:m n:n n:k f:alpha X:a l:lda X:b l:ldb f:beta X:c l:ldc',
    'symm': 's:s u:u n:m n:n f:alpha X:a l:lda X:b l:ldb f:beta X:c l:ldc',
    'trmm': 's:s u:u t:t g:g n:m n:n f:alpha X:a l:lda X:b l:ldb', 'trsm': 's:s u:u t:t g:g n:m n:n f:alpha X:a l:lda X:b l:ldb',
    'syrk': 'u:u t:t n:n n:k f:alpha X:a l:lda f:beta X:c l:ldc',
    'syr2k': 'u:u t:t n:n n:k f:alpha X:a l:lda X:b l:ldb f:beta X:c l:ldc',
}
LEVEL1 = ('asum', 'nrm2', 'amax', 'scal', 'axpy', 'copy', 'dot', 'swap', 'rot', 'rotg')
PAIRS = ('axpy', 'copy', 'dot', 'swap', 'rot')
CHARS = {'s': 'LRlr', 'u': 'LUlu', 't': 'NTCntc', 'g': 'NUnu'}
ENUMS = {'s': {141: 'L', 142: 'R'}, 'u': {121: 'U', 122: 'L'}, 't': {111: 'N', 112: 'T', 113: 'C'}, 'g': {131: 'N', 132: 'U'}}
# library function -> operation
CALLS = {'armas_asum': 'asum', 'armas_nrm2': 'nrm2', 'armas_iamax': 'amax', 'armas_scale': 'scal', 'armas_axpy': 'axpy', 'armas_copy': 'copy',
         'armas_dot': 'dot', 'armas_swap': 'swap', 'armas_gvcompute': 'rotg', 'armas_mvmult': 'gemv', 'armas_mvmult_sym': 'symv',
         'armas_mvmult_trm': 'trmv', 'armas_mvsolve_trm': 'trsv', 'armas_mvupdate': 'ger', 'armas_mvupdate_sym': 'syr',
         'armas_mvupdate2_sym': 'syr2', 'armas_mult': 'gemm', 'armas_mult_sym': 'symm', 'armas_mult_trm': 'trmm', 'armas_solve_trm': 'trsm',
         'armas_update_sym': 'syrk', 'armas_update2_sym': 'syr2k'}
LOWER, UPPER, UNIT, LEFT, RIGHT, TRANSA, TRANSB, CTRANSA, CTRANSB = 1, 2, 0x10, 0x20, 0x40, 0x80, 0x100, 0x200, 0x400


def T_(m):
    """transposed strided matrix"""
    return (m[0], m[2], m[1], m[4], m[3])


def flip(u):
    return {'L': 'U', 'U': 'L'}[u]


# normal forms: tuples of pointers ('p', t), polynomials ('z', P), distances in a vector ('d', P, length), scalars ('f', t) and marks ('m', x)
def mat(m):
    return [('p', m[0])] + [('z', x) for x in m[1:]]


def sym(p, n, ld, u, order):
    """triangle u of a symmetric matrix in given order, as of column order"""
    return [('p', p), ('z', n), ('z', ld), ('m', u if order == 'C' else flip(u))]


class Call(View):
    limit = 400

    def __init__(self, name, op, f, case, mode):
        self.name, self.op, self.f, self.case_, self.mode = name, op, f, case, mode
        self.bad, self.n, self.rets, self.calls, self.paired = {}, 0, 0, 0, 0
        self.f0, self.pre, self.touch = {}, [], []
        self.bycase = mode.get('n') is not None

    def init(self, A, st):
        T = A.T
        self.A = A
        self.role = {}
        fortran = self.case_['order'] == 'F'
        rs = ROLES[self.op].split()
        if not fortran:
            rs = ['o:order'] + rs
        for k, r in enumerate(rs):
            kind, nm = r.split(':')
            a = T.mk('arg', k)
            if fortran:
                A.setfact(st, a, nz=True)
            if kind == 'X':
                A.setfact(st, a, nz=True)
                self.role[nm] = a
                continue
            v = a
            if fortran:
                v = T.mk('ld', a, 0)
                st.mem[a] = v
            if kind == 'o':
                A.setfact(st, v, lo=self.case_['ord'], hi=self.case_['ord'])
            elif kind in CHARS:
                c = self.case_[nm]
                c = ord(c) if fortran else c
                A.setfact(st, v, lo=c, hi=c)
                if fortran:
                    st.mem[a] = T.c(c)
            elif kind == 'n':
                n = self.mode.get('n')
                A.setfact(st, v, lo=n or 1, hi=n or LIM)
                if n:
                    v = T.c(n)
                    if fortran:
                        st.mem[a] = v
            elif kind == 'l':
                sg = self.mode.get(nm, 1)
                A.setfact(st, v, lo=1 if sg > 0 else -LIM, hi=LIM if sg > 0 else -1)
            self.role[nm] = v
        self.want = {}
        return ('', ())

    def pinned(self, A, st):
        return list(self.role.values())

    def opt(self, nm):
        """normalised character: first letter of the meaning"""
        c = self.case_[nm]
        if type(c) is int:
            kind = {'s': 's', 'u': 'u', 't': 't', 't2': 't', 'g': 'g'}[nm]
            c = ENUMS[kind][c]
        c = c.upper()
        return 'T' if c == 'C' else c

    # ---- equation of the standard
    def std(self, A, st):
        R, P = self.role, lambda nm: A.poly(st, self.role[nm])
        op = self.op
        row = self.case_['order'] == 'R'
        O = 'R' if row else 'C'
        one = const(1)

        def M(nm, m, n, ld):
            return (R[nm], m, n, P(ld), one) if row else (R[nm], m, n, one, P(ld))

        def V(nm, n, inc):
            return [('p', R[nm]), ('z', n), ('d', self.absinc(A, st, inc), n)]

        def S(nm):
            return [('f', ('t', R[nm]))]
        ONE = [('f', ('one',))]
        if op in ('asum', 'nrm2', 'amax'):
            return [V('x', P('n'), 'incx')]
        if op == 'scal':
            return [V('x', P('n'), 'incx'), S('alpha')]
        if op == 'axpy':
            return [V('y', P('n'), 'incy'), S('alpha'), V('x', P('n'), 'incx')]
        if op in ('copy',):
            return [V('y', P('n'), 'incy'), V('x', P('n'), 'incx')]
        if op in ('dot', 'swap'):
            return [V('y', P('n'), 'incy'), V('x', P('n'), 'incx')]
        if op == 'gemv':
            m = M('a', P('m'), P('n'), 'lda')
            if self.opt('t') == 'T':
                m = T_(m)
            return [S('beta'), V('y', m[1], 'incy'), S('alpha'), mat(m), V('x', m[2], 'incx')]
        if op == 'symv':
            return [S('beta'), V('y', P('n'), 'incy'), S('alpha'), sym(R['a'], P('n'), P('lda'), self.opt('u'), O), V('x', P('n'), 'incx')]
        if op in ('trmv', 'trsv'):
            m, u = M('a', P('n'), P('n'), 'lda'), self.opt('u')
            if self.opt('t') == 'T':
                m, u = T_(m), flip(u)
            return [V('x', P('n'), 'incx'), ONE, mat(m), [('m', u), ('m', self.opt('g'))]]
        if op == 'ger':
            m = M('a', P('m'), P('n'), 'lda')
            return [ONE, mat(m), S('alpha'), V('x', P('m'), 'incx'), V('y', P('n'), 'incy')]
        if op == 'syr':
            return [ONE, sym(R['a'], P('n'), P('lda'), self.opt('u'), O), S('alpha'), V('x', P('n'), 'incx')]
        if op == 'syr2':
            return [ONE, sym(R['a'], P('n'), P('lda'), self.opt('u'), O), S('alpha'), V('x', P('n'), 'incx'), V('y', P('n'), 'incy')]
        if op == 'gemm':
            a, b = M('a', P('m'), P('k'), 'lda'), M('b', P('k'), P('n'), 'ldb')
            if self.opt('t') == 'T':
                a = T_(M('a', P('k'), P('m'), 'lda'))
            if self.opt('t2') == 'T':
                b = T_(M('b', P('n'), P('k'), 'ldb'))
            return [S('beta'), mat(M('c', P('m'), P('n'), 'ldc')), S('alpha'), mat(a), mat(b)]
        if op in ('symm', 'trmm', 'trsm'):
            b = M('b', P('m'), P('n'), 'ldb')
            n = P('m') if self.opt('s') == 'L' else P('n')
            right = self.opt('s') == 'R'
            if op == 'symm':
                c = M('c', P('m'), P('n'), 'ldc')
                return [S('beta'), mat(T_(c) if right else c), S('alpha'), sym(R['a'], n, P('lda'), self.opt('u'), O), mat(T_(b) if right else b)]
            m, u = M('a', n, n, 'lda'), self.opt('u')
            if (self.opt('t') == 'T') != right:
                m, u = T_(m), flip(u)
            return [mat(T_(b) if right else b), S('alpha'), mat(m), [('m', u), ('m', self.opt('g'))]]
        if op in ('syrk', 'syr2k'):
            t = self.opt('t') == 'T'

            def AB(x, ld):
                m = M(x, P('k'), P('n'), ld) if t else M(x, P('n'), P('k'), ld)
                return mat(T_(m) if t else m)
            e = [S('beta'), sym(R['c'], P('n'), P('ldc'), self.opt('u'), O), S('alpha'), AB('a', 'lda')]
            return e + ([AB('b', 'ldb')] if op == 'syr2k' else [])
        raise KeyError(op)

    def absinc(self, A, st, inc):
        P = A.poly(st, self.role[inc])
        return {m: -v for m, v in P.items()} if self.mode.get(inc, 1) < 0 else P

    # ---- equation of the call
    def got(self, A, st, cn, args):
        op = CALLS[cn]
        one = const(1)

        def L(a, m):
            return A.load(st, A.T.mk('f', A.rep(st, a), self.dense, m))

        def M(a):
            return (L(a, 'elems'), A.poly(st, L(a, 'rows')), A.poly(st, L(a, 'cols')), one, A.poly(st, L(a, 'step')))

        def V(a):
            m = M(a)
            if self.equal(A, st, m[2], one):
                return [('p', m[0]), ('z', m[1]), ('d', one, m[1])]
            if self.equal(A, st, m[1], one):
                return [('p', m[0]), ('z', m[2]), ('d', m[4], m[2])]
            return [('p', m[0]), ('m', 'not a vector'), ('m', '')]

        def S(a):
            x = A.rep(st, a)
            t = A.T.tab[x]
            if t == ('fp', 'one') or t[0] == 'fp' and str(t[1]) in ('1', '1.0', '0x3ff0000000000000'):
                return [('f', ('one',))]
            return [('f', ('t', x))]

        def fl(a):
            v = A.T.const(A.rep(st, a))
            if v is None:
                raise LookupError
            return v

        def symm(a, f):
            m = M(a)
            if not self.equal(A, st, m[1], m[2]):
                return [('m', 'not square')] * 4
            return sym(m[0], m[1], m[4], 'U' if f & UPPER else 'L', 'C')
        if op in ('asum', 'nrm2', 'amax'):
            return [V(args[0])]
        if op == 'scal':
            return [V(args[0]), S(args[1])]
        if op == 'axpy':
            return [V(args[0]), S(args[1]), V(args[2])]
        if op in ('copy', 'dot', 'swap'):
            return [V(args[0]), V(args[1])]
        if op == 'gemv':
            f = fl(args[5])
            m = M(args[3])
            m = T_(m) if f & (TRANSA | CTRANSA) else m
            return [S(args[0]), V(args[1]), S(args[2]), mat(m), V(args[4])]
        if op == 'symv':
            return [S(args[0]), V(args[1]), S(args[2]), symm(args[3], fl(args[5])), V(args[4])]
        if op in ('trmv', 'trsv'):
            f = fl(args[3])
            m, u = M(args[2]), 'U' if f & UPPER else 'L'
            if f & (TRANSA | CTRANSA):
                m, u = T_(m), flip(u)
            return [V(args[0]), S(args[1]), mat(m), [('m', u), ('m', 'U' if f & UNIT else 'N')]]
        if op == 'ger':
            return [S(args[0]), mat(M(args[1])), S(args[2]), V(args[3]), V(args[4])]
        if op == 'syr':
            return [S(args[0]), symm(args[1], fl(args[4])), S(args[2]), V(args[3])]
        if op == 'syr2':
            return [S(args[0]), symm(args[1], fl(args[5])), S(args[2]), V(args[3]), V(args[4])]
        if op == 'gemm':
            f = fl(args[5])
            a, b = M(args[3]), M(args[4])
            a = T_(a) if f & (TRANSA | CTRANSA) else a
            b = T_(b) if f & (TRANSB | CTRANSB) else b
            return [S(args[0]), mat(M(args[1])), S(args[2]), mat(a), mat(b)]
        if op == 'symm':
            f = fl(args[5])
            b, c = M(args[4]), M(args[1])
            right = f & RIGHT
            return [S(args[0]), mat(T_(c) if right else c), S(args[2]), symm(args[3], f), mat(T_(b) if right else b)]
        if op in ('trmm', 'trsm'):
            f = fl(args[3])
            b, m, u = M(args[0]), M(args[2]), 'U' if f & UPPER else 'L'
            right = bool(f & RIGHT)
            if bool(f & (TRANSA | CTRANSA)) != right:
                m, u = T_(m), flip(u)
            return [mat(T_(b) if right else b), S(args[1]), mat(m), [('m', u), ('m', 'U' if f & UNIT else 'N')]]
        if op in ('syrk', 'syr2k'):
            f = fl(args[4] if op == 'syrk' else args[5])

            def AB(x):
                m = M(x)
                return mat(T_(m) if f & (TRANSA | CTRANSA) else m)
            e = [S(args[0]), symm(args[1], f), S(args[2]), AB(args[3])]
            return e + ([AB(args[4])] if op == 'syr2k' else [])
        raise KeyError(op)

    def variants(self, e):
        """equations that mean the same"""
        yield e
        if self.op in ('gemm', 'trmm', 'trsm', 'symm', 'ger'):
            def tr(m):
                return [m[0], m[2], m[1], m[4], m[3]]
            if self.op == 'gemm':
                yield [e[0], tr(e[1]), e[2], tr(e[4]), tr(e[3])]
            elif self.op == 'ger':
                yield [e[0], tr(e[1]), e[2], e[4], e[3]]
        if self.op in ('syr2', 'syr2k'):
            yield e[:3] + [e[4], e[3]]
        if self.op in ('dot', 'swap'):
            yield [e[1], e[0]]

    def differ(self, A, st, g, w):
        for x, y in zip(g, w):
            for a, b in zip(x, y):
                if a[0] != b[0]:
                    return a, b
                if a[0] == 'p' and A.rep(st, a[1]) != A.rep(st, b[1]):
                    return a, b
                if a[0] == 'z' and not self.equal(A, st, a[1], b[1]):
                    return a, b
                if a[0] == 'd' and not self.equal(A, st, a[1], b[1]) and not self.equal(A, st, b[2], const(1)):
                    return a, b
                if a[0] == 'm' and a[1] != b[1]:
                    return a, b
                if a[0] == 'f' and (a[1][0] != b[1][0] or a[1][0] == 't' and A.rep(st, a[1][1]) != A.rep(st, b[1][1])):
                    return a, b
        return None

    def say(self, A, st, a):
        if a[0] in 'zd':
            return self.text(A, st, a[1])
        if a[0] == 'm':
            return str(a[1])
        if a[0] == 'f' and a[1][0] == 'one':
            return '1'
        return A.T.show(a[1] if a[0] == 'p' else a[1][1], A.fn)

    def on_call(self, A, st, i, args):
        cn = ir.cname(i.callee() or '')
        T = A.T
        if cn in ('toupper', 'tolower'):
            v = T.const(A.rep(st, args[0]))
            if v is None:
                return None
            s = st.copy()
            A.redefine(s, i.id)
            s.env[i.id] = T.c(ord(getattr(chr(v), cn[2:])()))
            return [s]
        if cn == 'armas_gvrotate':
            s = st.copy()
            A.redefine(s, i.id)
            for k in (0, 1):
                A.store(s, args[k], T.mk('rot', i.id, k, len(st.ps[1])), i.id)
            x = [T.tab[A.rep(st, a)] for a in args[4:6]]
            ok = A.rep(st, args[2]) == A.rep(st, self.role.get('c', args[2])) and A.rep(st, args[3]) == A.rep(st, self.role.get('s', args[3]))
            if not ok and not self.vain(A, st):
                self.fail(i, 'rot', 'the coefficients of the rotation are not those given')
            pl = [self.place(A, st, y[1]) if y[0] == 'ld' else None for y in x]
            s.ps = (st.ps[0], st.ps[1] + (('R',) + tuple((p[0], tuple(sorted(p[1].items()))) if p else None for p in pl),))
            return [s]
        if cn not in CALLS:
            return None
        self.calls += 1
        if CALLS[cn] != self.op:
            if not self.vain(A, st):
                self.fail(i, 'call', 'calls %s' % cn)
            return None
        if self.op == 'rotg':
            self.n += 1
            if [A.rep(st, args[0]), A.rep(st, args[1])] != [self.role['c'], self.role['s']]:
                self.fail(i, 'results', 'the coefficients are not stored where they are asked for')
            for k, nm in ((3, 'a'), (4, 'b')):
                x = T.tab[A.rep(st, args[k])]
                if x != ('ld', self.role[nm], 0):
                    self.fail(i, 'operands', 'does not compute with the value of %s' % nm)
            s = st.copy()
            A.redefine(s, i.id)
            A.store(s, args[2], T.mk('call', i.id), i.id)
            s.ps = (('done', i.id), st.ps[1])
            return [s]
        self.n += 1
        if st.ps[0]:
            self.fail(i, 'twice', 'calls %s a second time' % cn)
        try:
            g = self.got(A, st, cn, args)
        except LookupError:
            if not self.vain(A, st):
                self.fail(i, 'flags', 'flags of the call to %s do not follow from the arguments' % cn)
            g = None
        if g is not None:
            w = self.std(A, st)
            ds = [self.differ(A, st, g, v) for v in self.variants(w)]
            if all(ds) and not self.vain(A, st):
                a, b = ds[0]
                self.fail(i, 'operands', 'call to %s: %s where the standard has %s' % (cn, self.say(A, st, a), self.say(A, st, b)))
        st.ps = (('done', i.id), st.ps[1])
        return None

    # ---- elements
    def access(self, A, st, i, a, w):
        T = A.T
        a = A.firstcell(st, a) or a
        b, off = self.place(A, st, a)
        if b in (self.role.get('x'), self.role.get('y')) and self.op in PAIRS:
            if self.bycase:
                off = tuple(sorted(off.items()))
                val = None
                if w and self.op == 'rot':
                    v = T.tab[A.rep(st, self.val)]
                    val = v[2] if v[0] == 'rot' else None
                st.ps = (st.ps[0], st.ps[1] + (('W' if w else 'L', b, off, val),))
            else:
                st.ps = (st.ps[0], ('some',))

    def on_store(self, A, st, i, a, v):
        self.val = v
        self.access(A, st, i, a, True)

    def on_ret(self, A, st, i, v):
        T = A.T
        self.rets += 1
        d, acc = st.ps
        if d:
            self.n += 1
            r = T.mk('call', d[1])
            if self.op in ('asum', 'nrm2', 'dot'):
                if A.rep(st, v) != A.rep(st, r) and not self.vain(A, st):
                    self.fail(i, 'result', 'does not return the result of the library')
            if self.op == 'amax':
                if not self.equal(A, st, A.poly(st, v), padd(A.poly(st, r), const(1 if self.case_['order'] == 'F' else 0))):
                    self.fail(i, 'result', 'returns %s' % self.text(A, st, A.poly(st, v)))
            if self.op == 'rotg':
                if A.load(st, self.role['a']) != r:
                    self.fail(i, 'length', 'does not return the length of the vector')
            return
        if self.op not in PAIRS:
            if not self.vain(A, st):
                self.fail(i, 'nocall', 'returns without having asked for the operation')
            return
        if not self.bycase:
            if not acc and not self.vain(A, st):
                self.fail(i, 'nocall', 'returns without having asked for the operation')
            return
        self.pairs(A, st, i, acc)

    def pairs(self, A, st, i, acc):
        """elements read and written, in the order of the path"""
        self.paired += 1
        x, y, n = self.role['x'], self.role['y'], self.mode['n']

        def at(b, k):
            inc = 'incx' if b == x else 'incy'
            P = A.poly(st, self.role[inc])
            j = k if self.mode.get(inc, 1) > 0 else k - (n - 1)
            return pmul(P, const(j))

        def idx(b, off):
            for k in range(n):
                if self.equal(A, st, dict(off), at(b, k)):
                    return k
            return None
        if self.vain(A, st):
            return
        lx = ly = None
        seen = {'x': [], 'y': [], 'p': []}
        for e in acc:
            if e[0] == 'R':
                if e[1] is None or e[2] is None or (e[1][0], e[2][0]) != (x, y):
                    return self.fail(i, 'pair', 'does not rotate an element of x with one of y')
                lx, ly = idx(x, e[1][1]), idx(y, e[2][1])
                if lx is None or lx != ly:
                    return self.fail(i, 'pair', 'rotates elements that do not correspond')
                continue
            kind, b, off, val = e
            k = idx(b, off)
            self.n += 1
            if k is None:
                return self.fail(i, 'element', 'accesses element %s, which is not part of the vector' % self.text(A, st, dict(off)))
            nm = 'x' if b == x else 'y'
            if kind == 'L':
                if self.op != 'rot':
                    if nm == 'x':
                        lx = k
                    else:
                        ly = k
                    if self.op == 'dot' and lx is not None and lx == ly:
                        seen['p'].append(k)
                continue
            if self.op in ('dot',) or nm == 'x' and self.op in ('axpy', 'copy'):
                return self.fail(i, 'writes', 'writes to an operand that is only read')
            if self.op == 'rot':
                if (lx if nm == 'x' else ly) != k or val != (0 if nm == 'x' else 1):
                    return self.fail(i, 'pair', 'stores a rotated element in the wrong place')
            elif self.op in ('axpy', 'copy'):
                if lx != k:
                    return self.fail(i, 'pair', 'combines elements that do not correspond')
            elif self.op == 'swap':
                if lx != k or ly != k:
                    return self.fail(i, 'pair', 'exchanges elements that do not correspond')
            seen[nm].append(k)
        full = sorted(range(n))
        need = {'axpy': 'y', 'copy': 'y', 'swap': 'xy', 'rot': 'xy', 'dot': 'p'}[self.op]
        for nm in need:
            if sorted(seen[nm]) != full:
                return self.fail(i, 'every', 'does not treat every element once')


def options(op, order):
    """every combination of character arguments"""
    ks, vs = [], []
    for r in ROLES[op].split():
        kind, nm = r.split(':')
        if kind in CHARS:
            ks.append(nm)
            vs.append(list(CHARS[kind]) if order == 'F' else list(ENUMS[kind]))
    if order == 'F':
        # small letters mean the same as large ones
        for up in (True, False):
            for v in itertools.product(*[[x for x in y if x.isupper() == up] for y in vs]):
                if up or ks:
                    yield dict(zip(ks, v))
    else:
        for v in itertools.product(*vs):
            yield dict(zip(ks, v))


def check(c):
    nf = nc = ob = rets = calls = paired = 0
    trunc, names = [], []
    for prec in ('FLOAT64', 'FLOAT32'):
        M = c.module(prec, only=lambda s: s.startswith('compat/'), extra=('-D__ARMAS_INLINE=static',), flags=('--inline-header=2000', '--inline-local=2000'))
        E = ir.Effects(M)
        p = 'd' if prec == 'FLOAT64' else 's'
        todo = []
        for op in ROLES:
            for nm, order in (('i%samax_' % p if op == 'amax' else p + op + '_', 'F'), ('cblas_i%samax' % p if op == 'amax' else 'cblas_' + p + op, 'X')):
                if nm not in M.fns:
                    continue
                f = M.fns[nm]
                names.append(nm)
                nf += 1
                if len(f.params) != len(ROLES[op].split()) + (order == 'X' and op not in LEVEL1):
                    c.report('%s:arity' % nm, 'does not take the arguments of the standard', fn=nm, where='src/' + f.file)
                    continue
                orders = [('F', None)] if order == 'F' else ([('C', 102), ('R', 101)] if op not in LEVEL1 else [('C', None)])
                for o, code in orders:
                    for case in options(op, order):
                        case.update(order=o, ord=code)
                        if op in PAIRS:
                            for sx, sy in itertools.product((1, -1), (1, -1)):
                                todo.append((nm, op, case, {'incx': sx, 'incy': sy}))
                                for n in (1, 2, 3):
                                    todo.append((nm, op, case, {'incx': sx, 'incy': sy, 'n': n}))
                        else:
                            todo.append((nm, op, case, {}))
        nc += len(todo)

        def job(x):
            nm, op, case, mode = x
            cl = Call(nm, op, M.fns[nm], case, mode)
            cl.dense = 'armas_%s_dense' % p
            A = engine.Analysis(M, E, M.fns[nm], cl)
            A.run()
            return nm, op, case, mode, cl.bad, cl.n, cl.rets, cl.calls, cl.paired, A.truncated
        for nm, op, case, mode, bad, n, r, k, pr, tr in c.pmap(job, todo):
            ob += n
            rets += r
            calls += k
            paired += pr
            lab = ' '.join(['%s=%s' % (a, b) for a, b in sorted(case.items()) if b is not None and a != 'order'] + ['%s%s' % (a, {1: '>0', -1: '<0'}[b])
                            for a, b in sorted(mode.items()) if a != 'n'])
            if tr:
                trunc.append(nm)
            if not r:
                c.report('%s:noreturn' % nm, 'never returns (%s)' % lab, fn=nm, where='src/' + M.fns[nm].file)
            for key, (w, m) in bad.items():
                c.report('%s:%s' % (nm, key), '%s (%s)' % (m, lab), where=w, fn=nm)
    c.cov.update(functions=nf, cases=nc, returns=rets, calls=calls, paths_over_elements=paired, obligations=ob, discharged=ob - len(c.findings),
                 truncated=sorted(set(trunc)), names=names,
                 trusted_base=['clang 18 front end', 'lib/engine.py', 'equations of the standard in lib/checks/compat.py'])
    c.require('functions', nf, 50)
    c.require('calls', calls, 500)
    if trunc:
        c.require('functions analysed to the end', -len(set(trunc)), 0)
