"""C10: the accelerators compute the operation they are given: blocks cover the result once, and each block is computed from its own part
of the operands.

Functions that compute a block are evaluated once per combination of flags: the operands that they pass to the computing routine must be the
parts of the operands that belong to the rows and columns of the block in the equation of the operation.  Functions that divide work are
evaluated path by path: at every point that gives a block away (or computes it), its ranges must be consecutive pieces of the whole, from
nothing to everything, as functions of the index of the block.  Functions that dispatch must pass their own operands, and the result back."""
import itertools

import engine
import ir
from checks.views import LIM, View, const
from checks.work import padd, pmul

LOWER, UPPER, UNIT, LEFT, RIGHT, TRANSA, TRANSB, CTRANSA, CTRANSB = 1, 2, 0x10, 0x20, 0x40, 0x80, 0x100, 0x200, 0x400
EIMP, EINVAL = 4, 3
BLK, ARGS = 'armas_ac_block', 'armas_ac_blas3'
# computing routine -> operation and the members of the argument block that its parameters come from
KERNEL = {
    'armas_mult_kernel': ('gemm', 'beta C alpha A B flags'), 'armas_mult_unsafe': ('gemm', 'beta C alpha A B flags'),
    'armas_mult_sym_unsafe': ('symm', 'beta C alpha A B flags'),
    'armas_mult_trm_unsafe': ('trmm', 'B alpha A flags'), 'armas_solve_trm_unsafe': ('trsm', 'B alpha A flags'),
}
# public function -> operation and its parameters
PUBLIC = {'armas_mult': ('gemm', 'beta C alpha A B flags conf'), 'armas_mult_sym': ('symm', 'beta C alpha A B flags conf'),
          'armas_mult_trm': ('trmm', 'B alpha A flags conf'), 'armas_solve_trm': ('trsm', 'B alpha A flags conf')}
OPCODE = {'ARMAS_AC_GEMM': 'gemm', 'ARMAS_AC_SYMM': 'symm', 'ARMAS_AC_TRMM': 'trmm', 'ARMAS_AC_TRSM': 'trsm'}


NUM = ('int', 'size_t', 'long', 'unsigned int', 'unsigned long', 'long int')


def flagsets(op):
    if op == 'gemm':
        for a, b in itertools.product((0, TRANSA, CTRANSA), (0, TRANSB, CTRANSB)):
            yield a | b
    elif op == 'symm':
        for s, t, u in itertools.product((0, LEFT, RIGHT), (0, TRANSB), (LOWER, UPPER)):
            yield s | t | u
    else:
        for s, t, u, g in itertools.product((0, LEFT, RIGHT), (0, TRANSA), (LOWER, UPPER), (0, UNIT)):
            yield s | t | u | g


def parts(op, f, r, nr, c, nc, dim):
    """operand -> (row, column, rows, columns) of its part for the block of rows [r, r+nr) and columns [c, c+nc); dim(operand, 'rows')"""
    z = {}
    d = {}
    if op == 'gemm':
        d['C'] = (r, c, nr, nc)
        k = dim('A', 'rows') if f & (TRANSA | CTRANSA) else dim('A', 'cols')
        d['A'] = (z, r, k, nr) if f & (TRANSA | CTRANSA) else (r, z, nr, k)
        k = dim('B', 'cols') if f & (TRANSB | CTRANSB) else dim('B', 'rows')
        d['B'] = (c, z, nc, k) if f & (TRANSB | CTRANSB) else (z, c, k, nc)
        return d
    if op == 'symm':
        d['C'] = (r, c, nr, nc)
        if f & RIGHT:
            d['B'] = (z, r, dim('B', 'rows'), nr) if f & (TRANSB | CTRANSB) else (r, z, nr, dim('B', 'cols'))
        else:
            d['B'] = (c, z, nc, dim('B', 'cols')) if f & (TRANSB | CTRANSB) else (z, c, dim('B', 'rows'), nc)
        return d
    d['B'] = (r, z, nr, dim('B', 'cols')) if f & RIGHT else (z, c, dim('B', 'rows'), nc)
    return d


def alike(A, st, P, Q):
    """equal by what is known of sums"""
    D = padd(P, Q, -1)
    if not D:
        return True
    if any(len(m) > 1 for m in D):
        return False
    k = D.pop((), 0)
    L = {m[0]: v for m, v in D.items()}
    return bool(A.sumle(st, L, -k) and A.sumle(st, {m: -v for m, v in L.items()}, k))


class Slice(View):
    """computes one block"""

    def __init__(self, f, flags, dense):
        self.f, self.flags, self.dense = f, flags, dense
        self.bad, self.n, self.rets, self.calls = {}, 0, 0, 0
        self.f0, self.pre, self.touch = {}, [], []
        self.bycase = False
        self.ops = set()

    def init(self, A, st):
        T = A.T
        self.A = A
        a = self.blk = T.mk('arg', 0)
        A.setfact(st, a, nz=True)
        self.v = {}
        for m in ('row', 'column', 'nrows', 'ncolumns'):
            c = T.mk('f', a, BLK, m)
            v = st.mem[c] = self.v[m] = T.mk('ld', c, 0)
            A.setfact(st, v, lo=0, hi=LIM)
        u = T.mk('f', a, BLK, 'u')
        b = st.mem[u] = self.b3 = T.mk('ld', u, 0)
        A.setfact(st, b, nz=True)
        self.m = {}
        for m in ('A', 'B', 'C', 'alpha', 'beta', 'flags'):
            c = T.mk('f', b, ARGS, m)
            v = st.mem[c] = self.m[m] = T.mk('ld', c, 0)
            if m in 'ABC':
                A.setfact(st, v, nz=True)
                for k in ('elems', 'rows', 'cols', 'step'):
                    x = T.mk('f', v, self.dense, k)
                    w = st.mem[x] = self.f0[(m, k)] = T.mk('ld', x, 0)
                    if k != 'elems':
                        A.setfact(st, w, lo=0, hi=LIM)
        st.mem[T.mk('f', b, ARGS, 'flags')] = T.c(self.flags)
        A.setfact(st, self.m['flags'], lo=self.flags, hi=self.flags)
        return ()

    def access(self, A, st, i, a, w):
        pass

    def pinned(self, A, st):
        return list(self.f0.values()) + list(self.v.values())

    def on_call(self, A, st, i, args):
        k = KERNEL.get(ir.cname(i.callee() or ''))
        if not k:
            return None
        op, roles = k
        T = A.T
        self.calls += 1
        self.ops.add(op)
        st.ps = (op,) + tuple(st.ps)
        if len(st.ps) > 1:
            self.fail(i, 'twice', 'block is computed twice')

        def dim(o, m):
            return A.poly(st, self.f0[(o, m)])
        V = {m: A.poly(st, v) for m, v in self.v.items()}
        P = parts(op, self.flags, V['row'], V['nrows'], V['column'], V['ncolumns'], dim)
        for r, x in zip(roles.split(), args):
            x = A.rep(st, x)
            if r in ('alpha', 'beta'):
                self.n += 1
                if x != A.rep(st, self.m[r]):
                    self.fail(i, r, '%s passed on is not that of the operation' % r)
            elif r == 'flags':
                self.n += 1
                if T.const(x) is None or (T.const(x) ^ self.flags) & ~LEFT:
                    self.fail(i, r, 'flags passed on are not those of the operation')
            elif r not in P:
                self.n += 1
                if x != A.rep(st, self.m[r]) and not self.same(A, st, x, r, (const(0), const(0), dim(r, 'rows'), dim(r, 'cols'))):
                    self.fail(i, r, 'operand %s passed on is not that of the operation' % r)
            else:
                self.n += 1
                w = self.same(A, st, x, r, P[r])
                if w is not True:
                    self.fail(i, r, 'part of %s passed on: %s' % (r, w))
        return None

    def same(self, A, st, x, o, P):
        T = A.T

        def L(m):
            return A.load(st, T.mk('f', x, self.dense, m))
        if x == A.rep(st, self.m[o]):
            z = padd({}, {})
            ok = self.equal(A, st, P[0], z) and self.equal(A, st, P[1], z) and \
                self.equal(A, st, P[2], A.poly(st, self.f0[(o, 'rows')])) and self.equal(A, st, P[3], A.poly(st, self.f0[(o, 'cols')]))
            return ok or 'the whole of it'
        r, c, nr, nc = [{k: v for k, v in p.items() if v} for p in P]
        b, off = self.place(A, st, L('elems'))
        if b != A.rep(st, self.f0[(o, 'elems')]):
            return 'is not a part of it'
        want = padd(r, pmul(c, A.poly(st, self.f0[(o, 'step')])))
        for got, w, what in ((off, want, 'starts at element'), (A.poly(st, L('rows')), nr, 'number of rows is'),
                             (A.poly(st, L('cols')), nc, 'number of columns is'),
                             (A.poly(st, L('step')), A.poly(st, self.f0[(o, 'step')]), 'distance of columns is')):
            if not self.equal(A, st, got, w):
                return '%s %s and not %s' % (what, self.text(A, st, got), self.text(A, st, w))
        return True

    def on_ret(self, A, st, i, v):
        self.rets += 1
        self.n += 1
        if not st.ps:
            e = A.load(st, A.T.mk('f', self.blk, BLK, 'error'))
            if A.fact(st, e)[0] <= 0 and not A.fact(st, e)[4]:
                self.fail(i, 'none', 'returns without computing the block or setting its error')


def subst(A, st, t, v, w):
    """term t with w for v"""
    T = A.T
    memo = {}

    def go(x):
        x = A.rep(st, x)
        if x == v:
            return w
        if x in memo:
            return memo[x]
        y = T.tab[x]
        r = x
        if y[0] == 'bin':
            a, b = go(y[2]), go(y[3])
            if y[1] in ('sdiv', 'udiv', 'and') and T.const(a) == 0:
                r = T.zero
            elif (a, b) != (y[2], y[3]):
                r = A.bin(st, y[1], a, b, 'i1' if len(y) > 4 else 'i64')
        elif y[0] == 'fn':
            r = T.mk('fn', y[1], *[go(z) for z in y[2:]])
        elif y[0] == 'zx':
            r = T.mk('zx', go(y[1])) if T.const(go(y[1])) is None else go(y[1])
        memo[x] = r
        return r
    return go(t)


class Part(View):
    """gives blocks away"""
    limit = 24
    loopvars = True

    def __init__(self, f, flags, W):
        self.f, self.flags, self.W = f, flags, W
        self.bad, self.n, self.rets, self.calls = {}, 0, 0, 0
        self.f0, self.pre, self.touch = {}, [], []
        self.bycase = False
        self.gen = set()      # (dimension, start of a block, its index, total)
        self.ends = []        # blocks that reach the end
        self.rec = [k for k, p in enumerate(f.params)]

    def init(self, A, st):
        T = A.T
        self.A = A
        self.b3 = None
        for k, p in enumerate(self.f.params):
            a = T.mk('arg', k)
            if p.get('st') == ARGS:
                self.b3 = a
                A.setfact(st, a, nz=True)
                self.m = {}
                for m in ('A', 'B', 'C', 'flags'):
                    c = T.mk('f', a, ARGS, m)
                    v = st.mem[c] = self.m[m] = T.mk('ld', c, 0)
                    if m in 'ABC':
                        A.setfact(st, v, nz=True)
                        for k2 in ('rows', 'cols'):
                            x = T.mk('f', v, self.W.dense, k2)
                            w = st.mem[x] = self.f0[(m, k2)] = T.mk('ld', x, 0)
                            A.setfact(st, w, lo=1, hi=LIM)
                st.mem[T.mk('f', a, ARGS, 'flags')] = T.c(self.flags)
            elif p.get('dt', '') in ('int', 'size_t', 'long', 'unsigned int', 'unsigned long'):
                A.setfact(st, a, lo=0, hi=LIM)
        d = self.W.dividers.get(self.f.name, {})
        self.ix = [T.mk('arg', k) for k, v in d.items() if v == 'index']
        self.ct = [T.mk('arg', k) for k, v in d.items() if v == 'count']
        for a in self.ix:
            for b in self.ct:
                A.add_rel(st, a, b, -1)
        return ()

    def access(self, A, st, i, a, w):
        pass

    def pinned(self, A, st):
        return list(self.f0.values()) + self.ix + self.ct

    def given(self, A, st, i, args):
        """(block function, pointer to the block) when the call gives a block away"""
        T = A.T
        c = i.callee()
        if c == 'pthread_create':
            fn = T.tab[A.rep(st, args[2])]
            return [(fn[1], A.rep(st, args[3]))] if fn[0] == 'g' and fn[1] in self.W.blocks else []
        if c in self.W.blocks:
            return [(c, A.rep(st, args[0]))]
        if c is None:
            for a in args:
                a = A.rep(st, a)
                for S, m, ma in self.W.taskfn:
                    for o in (a, T.mk('f', a, self.W.taskin.get(S, S), 'task')):
                        fn = T.tab[A.rep(st, A.load(st, T.mk('f', o, S, m)))]
                        if fn[0] == 'g' and fn[1] in self.W.blocks:
                            return [(fn[1], A.rep(st, A.load(st, T.mk('f', o, S, ma))))]
        return []

    def on_call(self, A, st, i, args):
        T = A.T
        if i.callee() in self.W.pieces:
            A.redefine(st, i.id)
            st.env[i.id] = T.mk('fn', i.callee(), *[A.rep(st, a) for a in args])
            return [st]
        if i.callee() in self.W.dividers:
            self.again(A, st, i, args)
            return None
        G = self.given(A, st, i, args)
        if G and any(type(x) is tuple for x in st.ps or ()):
            self.n += 1
            if i.callee() not in self.W.blocks or ('block', G[0][1]) not in st.ps:
                self.fail(i, 'dropped', 'block that could not be given away is not computed')
            st.ps = tuple(x for x in st.ps if type(x) is not tuple)
        for fn, p in G:
            self.calls += 1
            L = {m: A.load(st, T.mk('f', p, BLK, m)) for m in ('row', 'nrows', 'column', 'ncolumns')}
            b = A.rep(st, A.load(st, T.mk('f', p, BLK, 'u')))
            self.n += 1
            if self.b3 is None or b != A.rep(st, self.b3):
                self.fail(i, 'args', 'block given away does not refer to the operation')
                continue
            for op in self.W.blocks[fn]:
                o = 'B' if op in ('trmm', 'trsm') else 'C'
                free = None if op == 'gemm' else ('rows' if self.flags & RIGHT else 'cols')
                for s, k, N in (('row', 'nrows', 'rows'), ('column', 'ncolumns', 'cols')):
                    self.n += 1
                    self.judge(A, st, i, fn, s, L[s], L[k], self.f0[(o, N)], free is None or free == N)
        if G and i.callee() not in self.W.blocks and i.ty != 'void':
            # nothing has changed when it fails
            s2 = st.copy()
            A.redefine(st, i.id)
            A.default_call(st, i, args)
            v = st.env[i.id]
            A.redefine(s2, i.id)
            s2.env[i.id] = v
            if i.callee():
                A.setfact(st, v, lo=0, hi=0)
                A.setfact(s2, v, nz=True)
            else:
                A.setfact(st, v, lo=0)
                A.setfact(s2, v, hi=-1)
            s2.ps = tuple(s2.ps or ()) + (('block', G[0][1]),)
            return [st, s2]
        return None

    def again(self, A, st, i, args):
        """call of a function that divides the work by its parameters"""
        T = A.T
        if any(type(x) is tuple for x in st.ps or ()):
            self.fail(i, 'dropped', 'block that could not be given away is not computed')
        g = self.W.dividers[i.callee()]
        self.n += 1
        for k, a in enumerate(args):
            a, own = A.rep(st, a), T.mk('arg', k)
            if g[k] == 'index':
                if i.callee() == self.f.name:
                    if not self.equal(A, st, A.poly(st, a), padd(A.poly(st, own), const(1))):
                        self.fail(i, 'next', 'next block computed is not the one that follows')
                    if not all(A.le(st, a, b, -1) or A.decide(st, A.mkcmp(st, 'slt', a, b)) for b in self.ct) and 'end' not in st.ps:
                        self.fail(i, 'over', 'blocks are computed beyond the last one')
                elif T.const(a) != 0:
                    self.fail(i, 'first', 'first block computed is not block zero')
            elif g[k] == 'args':
                if self.b3 is None or a != A.rep(st, self.b3):
                    self.fail(i, 'args', 'blocks computed are not those of the operation')
            elif i.callee() == self.f.name and g[k] == 'count' and a != own:
                self.fail(i, 'count', 'number of blocks changes between blocks')
        if i.callee() == self.f.name:
            if 'end' in st.ps:
                self.fail(i, 'last', 'another block is computed after the last one')
            st.ps = ('next',)

    def meet(self, A, st, a, b):
        """a == b"""
        return A.decide(st, A.mkcmp(st, 'eq', a, b)) is True or bool(A.le(st, a, b) and A.le(st, b, a))

    def judge(self, A, st, i, fn, name, s, k, N, free):
        """range [s, s+k) of N"""
        T = A.T
        s, k = [subst(A, st, x, None, None) for x in (s, k)]
        Ps, Pk, PN = A.poly(st, s), A.poly(st, k), A.poly(st, N)
        e = padd(Ps, Pk)
        for x in T.subterms(A.rep(st, s)) | T.subterms(A.rep(st, k)):
            y = T.tab[x]
            if y[0] == 'fn':
                # the piece behind the last one starts at the end
                ki, kc, kt = self.W.pieces[y[1]]
                if self.meet(A, st, y[2 + ki], y[2 + kc]):
                    e = {(y[2 + kt],) if m == (x,) else m: c for m, c in e.items()} if T.const(y[2 + kt]) is None else e
        e = padd({}, e)
        if alike(A, st, Ps, {}) and alike(A, st, e, PN):
            return
        what = 'rows' if name == 'row' else 'columns'
        if not free:
            return self.fail(i, name, '%s of the block are divided, and each block needs all of them' % what)
        # the index: a variable such that the end of the block is where the next one starts
        atoms = set()
        for m in list(Ps) + list(e):
            for t in m:
                atoms |= {x for x in T.subterms(t) if T.tab[x][0] in ('phi', 'arg', 'st', 'opq', 'call')}
        atoms = sorted(v for v in atoms if not (T.tab[v][0] == 'arg' and self.f.params[T.tab[v][1]].get('st')))
        if alike(A, st, e, PN):
            # judged when all is known
            self.ends.append((st.copy(), i, name, s, N, what))
            hit = [T.mk('arg', k) for k, x in self.W.dividers.get(self.f.name, {}).items() if x == 'index']
            if hit:
                st.ps = ('end',)
            return
        for v in atoms:
            nxt = A.bin(st, 'add', v, T.c(1), 'i64')
            s1 = subst(A, st, s, v, nxt)
            if s1 == s or not alike(A, st, e, A.poly(st, s1)):
                continue
            x = T.tab[A.rep(st, s)]
            if x[0] == 'fn':
                ki, kc, kt = self.W.pieces[x[1]]
                cnt = A.rep(st, x[2 + kc])
                if A.rep(st, x[2 + ki]) != v or v in T.subterms(cnt):
                    return self.fail(i, name, '%s of a block are not the piece of its index' % what)
                if not alike(A, st, A.poly(st, x[2 + kt]), PN):
                    return self.fail(i, name, 'pieces of another number than that of the %s' % what)
                if T.tab[v][0] == 'phi' and not self.from0(T.tab[v][1]):
                    return self.fail(i, name, '%s of the first block do not start at the first' % what)
                n = self.count(A, st, v)
                if n is None or not alike(A, st, A.poly(st, n), A.poly(st, cnt)):
                    return self.fail(i, name, '%s are divided in a number of pieces that is not the number of blocks' % what)
                self.gen.add((name, A.rep(st, s), v, N))
                if T.tab[v][0] == 'arg':
                    d = self.W.index.setdefault(self.f.name, {})
                    d[T.tab[v][1]] = 'index'
                    if T.tab[n][0] == 'arg':
                        d[T.tab[n][1]] = 'count'
                    st.ps = ('end',) if self.meet(A, st, nxt, n) else ('mid',)
                return
            if not alike(A, st, A.poly(st, subst(A, st, s, v, T.zero)), {}):
                return self.fail(i, name, '%s of the first block do not start at the first' % what)
            if not self.up(A, st, s, v):
                return self.fail(i, name, '%s of a block may start before those of the previous block' % what)
            n = self.count(A, st, v)
            if n is not None:
                if A.decide(st, A.mkcmp(st, 'eq', nxt, n)) is not False:
                    return self.fail(i, name, '%s of the last block do not reach the end' % what)
                if not self.below(A, st, subst(A, st, s, v, n), n, N):
                    return self.fail(i, name, '%s of a block may start behind the end' % what)
            self.gen.add((name, A.rep(st, s), v, N))
            if T.tab[v][0] == 'arg':
                st.ps = ('mid',)
                self.W.index.setdefault(self.f.name, {})[T.tab[v][1]] = 'index'
                if n is not None:
                    self.W.index[self.f.name][T.tab[n][1]] = 'count'
            return
        if not self.vain(A, st):
            self.fail(i, name, '%s of a block do not end where those of the next block start' % what)
            return
        self.fail(i, name, '%s of the block are not a piece that depends on its index' % what)

    def up(self, A, st, t, v):
        """t does not fall when v grows"""
        T = A.T
        t = A.rep(st, t)
        if t == v or v not in T.subterms(t):
            return True
        x = T.tab[t]
        if x[0] == 'zx':
            return self.up(A, st, x[1], v)
        if x[0] != 'bin':
            return False
        op, a, b = x[1], A.rep(st, x[2]), A.rep(st, x[3])
        ca, cb = T.const(a), T.const(b)
        if op == 'add':
            return self.up(A, st, a, v) and self.up(A, st, b, v)
        if op == 'mul':
            return self.up(A, st, a, v) and self.up(A, st, b, v)
        if op in ('sdiv', 'udiv', 'lshr', 'ashr'):
            return v not in T.subterms(b) and self.up(A, st, a, v)
        if op == 'shl':
            return cb is not None and self.up(A, st, a, v)
        if op == 'and':
            m = cb if cb is not None else ca
            return m is not None and m < 0 and (-m & (-m - 1)) == 0 and self.up(A, st, a if cb is not None else b, v)
        if op == 'sub':
            # down to a multiple
            y = T.tab[b]
            if y[0] == 'bin' and y[1] == 'and':
                m = T.const(A.rep(st, y[3]))
                return A.rep(st, y[2]) == a and m is not None and (m & (m + 1)) == 0 and self.up(A, st, a, v)
            if y[0] == 'bin' and y[1] in ('srem', 'urem'):
                return A.rep(st, y[2]) == a and v not in T.subterms(y[3]) and self.up(A, st, a, v)
            return v not in T.subterms(b) and self.up(A, st, a, v)
        return False

    def below(self, A, st, t, n, N):
        """t, where the index is n, is not over N"""
        T = A.T
        t = A.rep(st, t)
        if self.equal(A, st, A.poly(st, t), A.poly(st, N)) or T.const(t) == 0:
            return True
        x = T.tab[t]
        if x[0] == 'zx':
            return self.below(A, st, x[1], n, N)
        if x[0] != 'bin':
            return False
        if x[1] in ('sdiv', 'udiv'):
            P, d = A.poly(st, x[2]), A.rep(st, x[3])
            if all(d in m for m in P):
                Q = {}
                for m, c in P.items():
                    m = list(m)
                    m.remove(d)
                    Q[tuple(m)] = Q.get(tuple(m), 0) + c
                return self.equal(A, st, Q, A.poly(st, N))
            return False
        if x[1] == 'and':
            return self.below(A, st, x[2], n, N) or self.below(A, st, x[3], n, N)
        if x[1] == 'sub':
            return self.below(A, st, x[2], n, N)
        if x[1] == 'mul':
            # (a/c)*c
            for p, q in ((x[2], x[3]), (x[3], x[2])):
                y = T.tab[A.rep(st, p)]
                if y[0] == 'bin' and y[1] in ('sdiv', 'udiv') and A.rep(st, y[3]) == A.rep(st, q):
                    return self.below(A, st, y[2], n, N)
        return False

    def from0(self, k):
        """variable of a loop starts with zero"""
        i = self.f.ins.get(k)
        if i is None or i.op != 'phi':
            return True
        body = self.W.loops(self.f).get(i.bb)
        return body is None or all(isinstance(o, list) and o[0] == 'c' and o[1] == 0 for b, o in i.a[0] if b not in body and b != i.bb)

    def over(self, o, k, d=0):
        """operand is computed from parameter k"""
        if not isinstance(o, int) or d > 4:
            return False
        if o < self.f.nparams:
            return o == k
        i = self.f.ins[o]
        return i.op in ('add', 'sub', 'sext', 'zext', 'trunc') and any(self.over(p, k, d + 1) for p in self.f.ops(i))

    def count(self, A, st, v):
        """number of values the index takes: the limit of its loop, or the parameter it is compared with before the recursion"""
        T = A.T
        x = T.tab[v]
        f = self.f
        if x[0] == 'arg':
            for ins in f.ins.values():
                if ins.op == 'icmp' and ins.a[0] in ('eq', 'ne', 'slt', 'sge', 'sle', 'sgt', 'ult', 'uge'):
                    ks = [o for o in f.ops(ins) if isinstance(o, int) and o < f.nparams and o != x[1] and not f.params[o].get('st')]
                    if ks and any(self.over(o, x[1]) for o in f.ops(ins)):
                        return T.mk('arg', ks[0])
            return None
        if x[0] == 'phi':
            blk = f.ins[x[1]].bb if x[1] in f.ins else None
            for h, body in self.W.loops(f).items():
                if h != blk:
                    continue
                for b in [h] + sorted(body):
                    t = f.blocks[b][-1]
                    t = f.ins[t] if isinstance(t, int) else t
                    if t.op != 'br' or len(t.a) < 3 or all(s in body for s in f.succ[b]):
                        continue
                    c = f.ins.get(t.a[0]) if isinstance(t.a[0], int) else None
                    if c is None or c.op != 'icmp':
                        continue
                    for o in c.a[1:]:
                        w = A.opnd(st, o) if not isinstance(o, int) or o in st.env else None
                        if w is not None and v not in T.subterms(A.rep(st, w)):
                            return A.rep(st, w)
        return None

    def on_ret(self, A, st, i, v):
        self.rets += 1
        if any(type(x) is tuple for x in st.ps or ()):
            self.fail(i, 'dropped', 'block that could not be given away is not computed')
        if st.ps == ('mid',):
            self.fail(i, 'rest', 'returns when the blocks that follow are not computed')

    def part(self, A, st):
        """what is divided is not mixed up"""
        d = set(self.f0.values())
        tab = A.T.tab
        return frozenset((k, v) for k, v in st.env.items() if v in d or tab[v][0] == 'ix')

    def finish(self, A):
        """blocks that reach the end start where the general block starts"""
        for st, i, name, s, N, what in self.ends:
            ok = False
            for (n2, s2, v, N2) in self.gen:
                n = self.count(A, st, v)
                if n2 == name and self.equal(A, st, A.poly(st, s), A.poly(st, subst(A, st, s2, None, None))) and A.rep(st, N) == A.rep(st, N2) and \
                        (n is None or self.meet(A, st, A.bin(st, 'add', v, A.T.c(1), 'i64'), n)):
                    ok = True
            if not ok:
                self.fail(i, name, '%s of the last block do not start where the others end, or others reach the end too' % what)


class Piece(Part):
    """function of numbers: does it give the start of a piece?  (index, number of pieces, total), and what is known of its index"""
    limit = 24

    def __init__(self, f, roles, case):
        self.f, self.roles, self.case = f, roles, case
        self.bad, self.n, self.rets, self.calls = {}, 0, 0, 0
        self.f0, self.pre, self.touch = {}, [], []
        self.bycase = False
        self.W = None
        self.ok, self.ends, self.gen = True, [], set()

    def init(self, A, st):
        self.A = A
        T = A.T
        self.v, self.cn, self.N = [T.mk('arg', k) for k in self.roles]
        for a in (self.v, self.cn, self.N):
            A.setfact(st, a, lo=0, hi=LIM)
        A.setfact(st, self.cn, lo=1, hi=LIM)
        if self.case == 'first':
            A.setfact(st, self.v, lo=0, hi=0)
        elif self.case == 'last':
            A.assume_eq(st, self.v, self.cn)
        else:
            A.add_rel(st, self.v, self.cn, -1)
        return ()

    def on_call(self, A, st, i, args):
        return None

    def pinned(self, A, st):
        return []

    def on_ret(self, A, st, i, v):
        T = A.T
        self.rets += 1
        v = A.rep(st, v)
        if self.vain(A, st):
            return
        P = A.poly(st, v)
        if self.case == 'first':
            w = subst(A, st, v, self.v, T.zero)
            ok = A.fact(st, v)[:2] == (0, 0) or alike(A, st, A.poly(st, w), {})
        elif self.case == 'last':
            ok = alike(A, st, P, A.poly(st, self.N))
        else:
            ok = self.up(A, st, v, self.v) and self.below(A, st, subst(A, st, v, self.v, self.cn), self.cn, self.N)
            self.one = getattr(self, 'one', v)
            ok = ok and self.one == v
        if not ok:
            self.ok = False


def pieces(M, E, names):
    """functions of numbers that give consecutive pieces: name -> positions of index, number of pieces and total"""
    out, tried = {}, 0
    for n in names:
        f = M.fns[n]
        for roles in itertools.permutations(range(len(f.params)), 3):
            good = True
            for case in ('first', 'last', 'mid'):
                cl = Piece(f, roles, case)
                A = engine.Analysis(M, E, f, cl)
                A.run()
                tried += 1
                if not cl.ok or not cl.rets or A.truncated:
                    good = False
                    break
            if good:
                out[n] = roles
                break
    return out, tried


class Dispatch(View):
    """entry of an accelerator"""

    def __init__(self, f, code, W):
        self.f, self.code, self.W = f, code, W
        self.bad, self.n, self.rets, self.calls = {}, 0, 0, 0
        self.f0, self.pre, self.touch = {}, [], []
        self.bycase = False
        self.ops = set()

    def init(self, A, st):
        self.A = A
        A.setfact(st, A.T.mk('arg', 0), lo=self.code, hi=self.code)
        A.setfact(st, A.T.mk('arg', 1), nz=True)
        return ()

    def access(self, A, st, i, a, w):
        pass

    def on_call(self, A, st, i, args):
        ops = set()
        for t in A.M.targets(i):
            ops |= self.W.does.get(t, set())
        if ops:
            self.calls += 1
            self.ops |= ops
            self.n += 1
            if A.T.mk('arg', 1) not in [A.rep(st, a) for a in args]:
                self.fail(i, 'args', 'operation is computed with other arguments')
            st.ps = st.ps + (i.id,)
        return None

    def on_ret(self, A, st, i, v):
        self.rets += 1
        self.n += 1
        v = A.rep(st, v)
        k = A.T.const(v)
        if st.ps:
            if len(st.ps) > 1:
                self.fail(i, 'twice', 'operation is computed twice')
            if A.T.tab[v] != ('call', st.ps[-1]) and (k is None or A.decide(st, A.mkcmp(st, 'eq', A.T.mk('call', st.ps[-1]), v)) is not True):
                self.fail(i, 'result', 'result of the operation is not returned')
        elif k not in (-EIMP, -EINVAL) and A.fact(st, v)[1] >= 0:
            self.fail(i, 'skipped', 'success is returned and the operation is not computed')


class Caller(View):
    """public function that may have its operation computed by an accelerator"""

    def __init__(self, f, W):
        self.f, self.W = f, W
        self.bad, self.n, self.rets, self.calls = {}, 0, 0, 0
        self.f0, self.pre, self.touch = {}, [], []
        self.bycase = False
        self.codes = set()

    def init(self, A, st):
        self.A = A
        return ()

    def pinned(self, A, st):
        return [A.T.mk('call', x) for x in (st.ps or ())[:1]]

    def done(self, st):
        return st.ps is not None and len(st.ps) == 2

    def access(self, A, st, i, a, w):
        pass

    def on_call(self, A, st, i, args):
        T = A.T
        roles = {r: T.mk('arg', k) for k, r in enumerate(self.roles)}
        if ir.cname(i.callee() or '') != 'armas_ac_dispatch':
            if st.ps and any(A.rep(st, a) == roles['B'] or A.rep(st, a) == roles['A'] for a in args):
                self.n += 1
                self.fail(i, 'again', 'operation is computed here after the accelerator may have computed it')
            return None
        self.calls += 1
        code = T.const(A.rep(st, args[1]))
        self.codes.add(code)
        p = A.rep(st, args[2])
        for r in self.roles:
            if r == 'conf':
                continue
            self.n += 1
            v = A.rep(st, A.load(st, T.mk('f', p, ARGS, r)))
            if v != A.rep(st, roles[r]):
                self.fail(i, r, '%s is not passed on to the accelerator' % r)
        self.n += 1
        A.redefine(st, i.id)
        A.default_call(st, i, args)
        v = st.env[i.id]
        s1, s2 = st.copy(), st.copy()
        s1.ps, s2.ps = (i.id, 'not'), (i.id,)
        return [s for s, t in ((s1, True), (s2, False)) if A.assume(s, A.mkcmp(s, 'eq', v, T.c(-EIMP)), t) is not False]

    def on_ret(self, A, st, i, v):
        self.rets += 1
        if st.ps:
            self.n += 1
            r = A.T.mk('call', st.ps[0])
            if A.decide(st, A.mkcmp(st, 'eq', r, v)) is not True:
                self.fail(i, 'result', 'result of the accelerator is not returned')


class World:
    pass


def uses(f, names):
    """functions of `names` that f calls or takes the address of"""
    r = set()
    for i in f.instrs():
        if i.op == 'call' and i.callee() in names:
            r.add(i.callee())
        for o in (i.a if i.op != 'call' else i.a[1]):
            if isinstance(o, list) and len(o) == 2 and o[0] == 'g' and o[1] in names:
                r.add(o[1])
    return r


def check(c):
    tot = dict(blocks=0, cases=0, divisions=0, given=0, callers=0, dispatches=0, returns=0, obligations=0, unfinished=0)
    for prec in ('FLOAT64', 'FLOAT32'):
        # functions that take the operation are looked at one by one
        M0 = c.module(prec, inline=False, only=lambda s: s.startswith(('threaded/', 'workers/')))
        num = sorted(n for n, f in M0.fns.items() if len(f.params) == 3 and all(p.get('dt', '') in NUM for p in f.params) and f.ret in NUM and
                     not any(i.op in ('call', 'store', 'load') for i in f.instrs()))
        keep = tuple(sorted([n for n, f in M0.fns.items() if any(p.get('st') == ARGS for p in f.params)] + num +
                         sorted({'%s.%d' % (ir.cname(n), k) for n in num for k in range(1, 2000)})))
        M = c.module(prec, keep=keep, only=lambda s: s.startswith(('threaded/', 'workers/', 'base/accel', 'blas/gemm', 'blas/symm', 'blas/trmm', 'blas/trsm', 'eblas/')),
                     extra=('-D__ARMAS_INLINE=static',), flags=('--inline-header=2000', '--inline-local=2000', '--keep-first'))
        E = ir.Effects(M)
        W = World()
        W.dense = 'armas_%s_dense' % ('d' if prec == 'FLOAT64' else 's')
        W.loops = lambda f: f.loops()
        acc = {n: f for n, f in M.fns.items() if '/threaded/' in '/' + f.file or '/workers/' in '/' + f.file}

        def rep(f, bad, lab):
            for key, (w, m) in bad.items():
                c.report('%s:%s:%s' % (ir.cname(f.name).split('.')[0], f.file.replace('src/', ''), key), m + (' (%s)' % lab if lab else ''), fn=ir.cname(f.name), where=w)

        # 1. functions that compute a block
        W.blocks, todo = {}, []
        for n, f in acc.items():
            ops = {KERNEL[ir.cname(i.callee())][0] for i in f.instrs() if i.op == 'call' and ir.cname(i.callee() or '') in KERNEL}
            if ops and len(f.params) == 1:
                W.blocks[n] = ops
                fs = sorted({x for o in ops for x in flagsets(o)})
                todo += [(n, sorted(ops)[0], x) for x in fs]
        tot['blocks'] += len(W.blocks)

        def job(x):
            n, op, fl = x
            cl = Slice(M.fns[n], fl, W.dense)
            cl.op = op
            A = engine.Analysis(M, E, M.fns[n], cl)
            A.run()
            return n, fl, cl.bad, cl.n, cl.rets, cl.calls, A.truncated
        for n, fl, bad, k, r, calls, tr in c.pmap(job, todo):
            tot['cases'] += 1
            tot['obligations'] += k
            tot['returns'] += r
            rep(M.fns[n], bad, 'flags 0x%x' % fl)
            if tr or not calls:
                c.report('%s:nocall' % n, 'block is never computed (flags 0x%x)' % fl, fn=n, where=M.fns[n].file)

        # 2. functions that divide work
        W.taskfn = [(S, m, 'args') for (S, m), v in M.fieldfn.items() if v & set(W.blocks) and 'args' in M.fields.get(S, ())]
        W.taskin = {S: T_ for S, _, _ in W.taskfn for T_ in [t for t, fl in M.fields.items() if fl[:1] == ['task']]}
        W.index, W.dividers = {}, {}
        W.pieces, tried = pieces(M, E, [n for n in sorted(M.fns) if ir.cname(n) in {ir.cname(x) for x in num}])
        tot['obligations'] += tried
        W.does = {n: set(v) for n, v in W.blocks.items()}
        for _ in range(8):
            for n, f in acc.items():
                for g in uses(f, W.does):
                    W.does.setdefault(n, set())
                    W.does[n] |= W.does[g]
        parts_ = [(n, f) for n, f in acc.items() if n not in W.blocks and W.does.get(n) and any(p.get('st') == ARGS for p in f.params)]
        direct = {n for n, f in parts_ if uses(f, W.blocks)}

        def run(n, fl):
            cl = Part(M.fns[n], fl, W)
            A = engine.Analysis(M, E, M.fns[n], cl)
            A.run()
            cl.finish(A)
            return cl, A.truncated

        def pjob(x):
            cl, tr = run(*x)
            return x, cl.bad, cl.n, cl.rets, cl.calls, tr, W.index.get(x[0], {})
        # two rounds: the first finds which parameters are the index of a block and the number of blocks
        for rnd in (1, 2):
            todo = [(n, fl) for n, f in parts_ for fl in ((0,) if W.does[n] == {'gemm'} else (0, LEFT, RIGHT))]
            res = c.pmap(pjob, todo)
            for (n, fl), bad, k, r, calls, tr, ix in res:
                if ix:
                    d = dict(ix)
                    f = M.fns[n]
                    for j, p in enumerate(f.params):
                        if p.get('st') == ARGS:
                            d[j] = 'args'
                        d.setdefault(j, None)
                    W.dividers[n] = d
        for (n, fl), bad, k, r, calls, tr, ix in res:
            tot['obligations'] += k
            tot['returns'] += r
            tot['given'] += calls
            rep(M.fns[n], bad, 'flags 0x%x' % fl if fl else '')
            if n in direct and not calls:
                c.report('%s:nogive' % n, 'no block is given away', fn=n, where=M.fns[n].file)
            tot['unfinished'] += bool(tr)
        tot['divisions'] += len(parts_)

        # 3. entries of accelerators and their callers: one operation per code
        meaning = {}
        for n in sorted(M.fieldfn.get(('armas_ac_vtable', 'dispatch'), ())):
            for code in range(1, 11):
                cl = Dispatch(M.fns[n], code, W)
                A = engine.Analysis(M, E, M.fns[n], cl)
                A.run()
                tot['dispatches'] += 1
                tot['obligations'] += cl.n
                tot['returns'] += cl.rets
                rep(M.fns[n], cl.bad, 'operation %d' % code)
                for op in cl.ops:
                    meaning.setdefault(code, {}).setdefault(op, n)
        for n, f in sorted(M.fns.items()):
            if not any(i.op == 'call' and ir.cname(i.callee() or '') == 'armas_ac_dispatch' for i in f.instrs()):
                continue
            cn = ir.cname(n)
            if cn not in PUBLIC:
                c.report('%s:unknown' % cn, 'has its operation computed by an accelerator, and none of the accelerators computes it', fn=cn, where=f.file)
                continue
            cl = Caller(f, W)
            cl.roles = PUBLIC[cn][1].split()
            A = engine.Analysis(M, E, f, cl)
            A.run()
            tot['callers'] += 1
            tot['obligations'] += cl.n
            tot['returns'] += cl.rets
            rep(f, cl.bad, '')
            for code in cl.codes:
                meaning.setdefault(code, {}).setdefault(PUBLIC[cn][0], cn)
        for code, ops in meaning.items():
            tot['obligations'] += 1
            if len(ops) > 1:
                c.report('code%s' % code, 'operation %s means %s' % (code, ' and '.join('%s in %s' % (o, n) for o, n in sorted(ops.items()))),
                         where=M.fns[M.f(list(ops.values())[0]).name].file if False else 'src/include/accel.h')
    c.cov.update(**{k: v for k, v in tot.items()}, discharged=tot['obligations'] - len(c.findings),
                 trusted_base=['clang 18 front end', 'lib/engine.py', 'equations of the operations in lib/checks/accel.py'])
    c.require('blocks', tot['blocks'], 8)
    c.require('given', tot['given'], 12)
    c.require('callers', tot['callers'], 6)
