"""The workspace protocol: size queries, sufficient space, reservations given back."""
import collections
import heapq
import math
import front
import ir
import engine
import shapes

PRIMS = ('armas_wreserve', 'armas_wreserve_bytes', 'armas_wreserve_bits', 'armas_wpos', 'armas_wsetpos', 'armas_wbytes', 'armas_wptr',
         'armas_wreset', 'armas_make', 'armas_d_make', 'armas_s_make', 'armas_getenv')
EWORK = 5
MAXB = 1 << 44


def padd(P, Q, s=1):
    R = dict(P)
    for k, v in Q.items():
        R[k] = R.get(k, 0) + s * v
        if R[k] == 0:
            del R[k]
    return R


def pmul(P, Q):
    R = {}
    for a, v in P.items():
        for b, w in Q.items():
            k = tuple(sorted(a + b))
            R[k] = R.get(k, 0) + v * w
            if R[k] == 0:
                del R[k]
    return R


class Bound:
    """P <= 0 for a polynomial in terms: quotients are eliminated by x = q*d + r, then the inequalities of the path are used, each
    with a monomial factor, and signs of terms"""

    def __init__(self, A, st):
        self.A, self.st = A, st
        self.ineq = []
        for (p, q), k in st.rel.items():
            P = padd(A.poly(st, p), A.poly(st, q), -1)
            if k:
                P = padd(P, {(): k}, -1)
            if P:
                self.ineq.append(P)
        # quotients by numbers and by sizes
        self.sub, self.slack, self.rem = {}, {}, {}
        T = A.T
        todo = set(st.facts) | set(st.eq) | {t for I in self.ineq for t in self.atoms(I)}
        seen = set()
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            x = T.tab[t]
            if x[0] != 'bin':
                continue
            todo |= {y for y in x[2:] if type(y) is engine.Ref}
            if x[1] not in ('udiv', 'sdiv', 'lshr') or A.rep(st, t) != t or not self.nonneg(x[2]):
                continue
            d = A.poly(st, x[3])
            if x[1] == 'lshr':
                d = {(): 1 << d[()]} if list(d) == [()] else None
            if not d or not self.positive(d):
                continue
            N = A.poly(st, x[2])
            ys = [m[0] for m, v in N.items() if len(m) == 1 and v == 1 and not any(m[0] in k and len(k) > 1 for k in N)]
            ys = [y for y in ys if y not in self.sub]
            if not ys:
                continue
            y = max(ys, key=lambda y: (T.tab[y][0] != 'ld', -y)) if len(ys) > 1 else ys[0]
            # y = t*d + r - (N - y)
            R = padd(padd(pmul({(t,): 1}, d), {(-1 - t,): 1}), padd(N, {(y,): 1}, -1), -1)
            self.sub[y] = R
            self.rem[-1 - t] = padd(padd({(-1 - t,): 1}, d, -1), {(): 1})
            lo = A.fact(st, t)[0]
            if lo > 0 and t not in self.sub:
                self.sub[t] = {(): lo, (-1000000 - t,): 1}
        # factors are counted from their least value
        for I in self.ineq + list(self.sub.values()):
            for m in I:
                if len(m) > 1:
                    for t in m:
                        if t >= 0 and t not in self.sub and T.tab[t][0] != 'bin':
                            f = A.fact(st, t)
                            if 0 < f[0] < engine.BIG // 2:
                                self.sub[t] = {(): f[0], (-1000000 - t,): 1}
                                self.slack[-1000000 - t] = (0, f[1] - f[0] if f[1] < engine.BIG // 2 else engine.BIG)
        self.ineq = [self.subst(I) for I in self.ineq]

    def positive(self, d):
        tot = 0
        for m, v in d.items():
            if v < 0 or not all(self.nonneg(t) for t in m):
                return False
            x = v
            for t in m:
                x *= max(0, self.fact(t)[0])
            tot += x
        return tot > 0

    def subst(self, P):
        for _ in range(12):
            hit = next((t for m in P for t in m if t in self.sub), None)
            if hit is None:
                return P
            R = {}
            for m, v in P.items():
                Q = {(): v}
                for t in m:
                    Q = pmul(Q, self.sub[t] if t == hit else {(t,): 1})
                R = padd(R, Q)
            P = R
        return P

    def atoms(self, P):
        return {t for m in P for t in m}

    def fact(self, t):
        return self.A.fact(self.st, t) if t >= 0 else self.slack.get(t, (0, engine.BIG))

    def nonneg(self, t):
        return t < 0 or self.A.fact(self.st, t)[0] >= 0

    def upper(self, P):
        """largest value of the polynomial by intervals of single terms: <= 0 ?"""
        tot = 0
        for m, v in P.items():
            lo = hi = 1
            for t in m:
                f = self.fact(t)
                a, b = f[0], f[1]
                if a < 0:
                    return False
                lo, hi = lo * a, hi * b
            x = v * hi if v > 0 else v * lo
            if x > 0 and (hi >= engine.BIG):
                return False
            tot += x
        return tot <= 0

    def defs(self, t):
        """what division and masking say about a term"""
        A, st = self.A, self.st
        out = []
        hi = self.fact(t)[1]
        if hi < MAXB:
            out.append({(t,): 1, (): -hi} if hi else {(t,): 1})
        if t < 0:
            return out + ([self.subst(self.rem[t])] if t in self.rem else [])
        x = A.T.tab[t]
        if x[0] == 'bin':
            if x[1] in ('udiv', 'sdiv', 'lshr') and self.nonneg(x[2]):
                d = A.poly(st, x[3])
                if x[1] == 'lshr':
                    d = {(): 1 << d[()]} if list(d) == [()] else None
                if d:
                    out.append(padd(pmul({(t,): 1}, d), A.poly(st, x[2]), -1))
                    # x < t*d + d
                    out.append(padd(padd(A.poly(st, x[2]), pmul({(t,): 1}, d), -1), padd({(): 1}, d, -1)))
            if x[1] == 'and':
                for o, w in ((x[2], x[3]), (x[3], x[2])):
                    c = A.T.const(w)
                    # clearing bits of a nonnegative number, or low bits of any, does not make it larger
                    if self.nonneg(o) or c is not None and c < 0:
                        out.append(padd({(t,): 1}, A.poly(st, o), -1))
        return [I for I in (self.subst(I) for I in out) if I]

    def absurd(self):
        """the inequalities contradict each other"""
        L = self.ineq
        for I in L:
            self.ineq = [J for J in L if J is not I]
            if self.le0(padd({(): 1}, I, -1)):
                self.ineq = L
                return True
        self.ineq = L
        return False

    def le0(self, P):
        P = self.subst(P)
        if self.upper(P):
            return True
        # inequalities that share terms with it, directly or through others
        at, use, rest, dd = self.atoms(P), [], list(self.ineq), {}
        new = True
        while new:
            new = False
            for t in sorted(at):
                if t not in dd:
                    dd[t] = self.defs(t)
                    use += dd[t]
                    new = True
            for I in list(rest):
                if self.atoms(I) & at:
                    rest.remove(I)
                    use.append(I)
                    new = True
            for I in use:
                at |= self.atoms(I)
        ix = {}
        for I in use:
            for im, iv in I.items():
                if iv > 0:
                    ix.setdefault(im[0] if im else None, []).append((I, im, iv))
        # best first: those with fewest positive terms left
        def rank(Q):
            return sum(1 for m, v in Q.items() if v > 0), sum(len(m) for m, v in Q.items() if v > 0), len(Q)
        seen, n = {tuple(sorted(P.items()))}, 0
        heap = [(rank(P), 0, 0, P)]
        while heap:
            _, _, depth, Q = heapq.heappop(heap)
            if depth > 8:
                continue
            for m, v in Q.items():
                if v <= 0:
                    continue
                for h in dict.fromkeys(m) if m else (None,):
                    for I, im, iv in ix.get(h, ()):
                        r = list(m)
                        try:
                            for t in im:
                                r.remove(t)
                        except ValueError:
                            continue
                        if not all(self.nonneg(t) for t in r):
                            continue
                        # g*Q <= g*Q - f*r*I for positive g, f
                        g = math.gcd(v, iv)
                        R = padd(pmul(Q, {(): iv // g}), pmul(I, {tuple(r): v // g}), -1)
                        if self.upper(R):
                            return True
                        k = tuple(sorted(R.items()))
                        if k in seen or len(R) > len(P) + 8:
                            continue
                        seen.add(k)
                        n += 1
                        if n > 400:
                            return False
                        heapq.heappush(heap, (rank(R), n, depth + 1, R))
        return False


class WS(engine.Client):
    """ps: (reservation failed, size stored)"""
    limit = 20
    relsub = True

    def __init__(self, C, f, k, mode):
        self.C, self.f, self.k, self.mode = C, f, k, mode
        self.bad = {}
        self.n = {'restore': 0, 'fit': 0, 'query': 0, 'reserve': 0, 'nofit': 0, 'opaque': 0, 'size': 0, 'delegated': 0, 'cases': 0}
        self.cases = set()
        self.demand = []

    def cells(self, A, w=None):
        T = A.T
        w = T.mk('arg', self.k) if w is None else w
        return T.mk('f', w, 'armas_wbuf', 'bytes'), T.mk('f', w, 'armas_wbuf', 'offset'), T.mk('f', w, 'armas_wbuf', 'buf')

    def init(self, A, st):
        T = A.T
        b, o, p = self.cells(A)
        w = T.mk('arg', self.k)
        self.b0, self.o0 = T.mk('ld', b, 0), T.mk('ld', o, 0)
        self.dims = [self.b0, self.o0]
        self.is_dim = collections.Counter()
        if self.mode != 'size' or T.const(self.case[0]) != 0:
            A.setfact(st, w, nz=True)
        st.mem[b], st.mem[o] = self.b0, self.o0
        for k, q in sorted(enumerate(self.f.params), key=lambda x: x[1].get('st') != 'armas_sparse'):
            if q.get('st') in ('armas_d_dense', 'armas_s_dense', 'armas_sparse', 'armas_pivot'):
                if 'kind' in A.M.fields.get(q['st'], ()):
                    self.dims.append(T.mk('ld', T.mk('f', T.mk('arg', k), q['st'], 'kind'), 0))
                for fl in ('rows', 'cols', 'step', 'npivots', 'nnz', 'size'):
                    if fl in A.M.fields.get(q['st'], ()):
                        t = T.mk('ld', T.mk('f', T.mk('arg', k), q['st'], fl), 0)
                        self.dims.append(t)
                        self.is_dim[len(self.dims) - 1] = fl in ('rows', 'cols')
                        A.setfact(st, t, lo=0, hi=1 << 31)
        env = T.mk('g', 'armas_getenv()')
        for sn in ('armas_env',):
            for fl in A.M.fields.get(sn, ()):
                t = T.mk('ld', T.mk('f', env, sn, fl), 0)
                self.dims.append(t)
                A.setfact(st, t, lo=0, hi=1 << 31)
        self.err = None
        if self.mode == 'query':
            A.setfact(st, self.b0, 0, 0)
            A.setfact(st, self.o0, 0, 0)
        elif self.mode == 'size':
            q, rel, facts = self.case
            if T.const(q) == 0:
                # no workspace is needed: callers hand over none
                A.setfact(st, w, 0, 0)
            A.setfact(st, self.b0, lo=1, hi=MAXB)
            A.setfact(st, self.o0, lo=0, hi=MAXB)
            for t, h in facts:
                A.setfact(st, t, *h)
            for (x, y), k in rel:
                A.add_rel(st, x, y, k)
            d = A.bin(st, 'sub', self.b0, self.o0, 'i64')
            A.setfact(st, d, lo=0, hi=MAXB)
            A.add_rel(st, self.o0, self.b0, 0)
            A.add_rel(st, q, d, 0)
            self.dims += [q, d]
        else:
            A.setfact(st, self.b0, lo=1, hi=MAXB)
            A.setfact(st, self.o0, lo=0, hi=MAXB)
            A.add_rel(st, self.o0, self.b0, -1)
        return (False, False)

    def pinned(self, A, st):
        return self.dims

    def keepmem2(self, A, st, a, v):
        return a in self.cells(A)[:2]

    def part(self, A, st):
        if not hasattr(self, '_ret'):
            self._ret = [i.a[0] for b in self.f.blocks for i in b if i.op == 'ret' and i.a and isinstance(i.a[0], int)]
            self._ph = self.steer(A)
        return (tuple(r in st.env and A.fact(st, st.env[r])[1] < 0 for r in self._ret),
                frozenset((k, A.rep(st, st.env[k])) for k in self._ph if k in st.env),
                frozenset((k, n) for k in self._cmp if k in st.env and A.T.const(A.rep(st, st.env[k])) is None
                          for n, d in enumerate(self.dims) if n > 1 and self.is_dim[n] and A.le(st, d, st.env[k])))

    def steer(self, A):
        """merged values outside of loops from which a size or position is computed, or that carry the outcome of a test"""
        f = A.fn
        out, work = set(), []
        for b in f.blocks:
            for i in b:
                c = i.callee() if i.op in ('call', 'invoke') else None
                if c and ir.cname(c) in PRIMS:
                    work += [a for a in f.ops(i) if isinstance(a, int)]
                if i.op == 'br' and len(i.a) == 3 and isinstance(i.a[0], int):
                    x = i.a[0]
                    if x in f.ins and f.ins[x].op == 'icmp':
                        x = next((o for o in f.ops(f.ins[x]) if isinstance(o, int)), x)
                    if x in f.ins and f.ins[x].op == 'phi' and any(not isinstance(v, int) for _, v in f.ins[x].a[0]):
                        out.add(x)
        # what the size of the workspace is compared with
        ws, todo = set(), [i.id for i in f.ins.values() if i.op == 'call' and i.callee() and ir.cname(i.callee()) == 'armas_wbytes']
        use = {}
        for i in f.ins.values():
            for o in f.ops(i):
                if isinstance(o, int):
                    use.setdefault(o, []).append(i)
        while todo:
            x = todo.pop()
            if x in ws:
                continue
            ws.add(x)
            for i in use.get(x, ()):
                if i.op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'lshr', 'sext', 'zext', 'trunc', 'phi'):
                    todo.append(i.id)
                elif i.op == 'icmp':
                    work += [o for o in i.a[1:3] if isinstance(o, int) and o != x]
        seen = set()
        while work:
            x = work.pop()
            if x in seen or x not in f.ins:
                continue
            seen.add(x)
            i = f.ins[x]
            if i.op == 'phi':
                out.add(x)
                work += [v for _, v in i.a[0] if isinstance(v, int)]
            elif i.op in ('add', 'sub', 'mul', 'and', 'or', 'shl', 'udiv', 'sdiv', 'lshr', 'sext', 'zext', 'trunc', 'select'):
                work += [o for o in f.ops(i) if isinstance(o, int)]
        out = {x for x in out if x not in A.inloop_ids and f.ins[x].ty.startswith('i')}
        # those compared with sizes later on
        self._cmp = set()
        for i in f.ins.values():
            if i.op == 'icmp' and all(isinstance(o, int) for o in i.a[1:3]):
                for o in i.a[1:3]:
                    while o in f.ins and f.ins[o].op in ('sext', 'zext', 'trunc'):
                        o = f.ins[o].a[0]
                    if o in out:
                        self._cmp.add(o)
        return out

    def edge(self, A, st, b, n):
        if self.mode != 'size':
            return True
        # nothing to decide from here on
        if not hasattr(self, '_on'):
            f = self.f
            self._on = {k for k, bl in enumerate(f.blocks) for i in bl
                        if i.op == 'store' and A.T and i.a[0] == ['c', EWORK, 32] or
                        i.op in ('call', 'invoke') and i.callee() and ir.cname(i.callee()).startswith('armas_wreserve')}
            work = list(self._on)
            while work:
                for p in f.pred[work.pop()]:
                    if p not in self._on:
                        self._on.add(p)
                        work.append(p)
        return n in self._on

    def mine(self, A, st, t):
        x = A.T.tab[A.rep(st, t)]
        return x[0] == 'arg' and x[1] == self.k

    def free(self, A, st, w):
        b, o, _ = self.cells(A, w)
        return A.load(st, b), A.load(st, o)

    def on_call(self, A, st, i, args):
        T = A.T
        c = i.callee()
        cn = ir.cname(c) if c else ''
        if cn == 'armas_getenv':
            A.redefine(st, i.id)
            st.env[i.id] = T.mk('g', 'armas_getenv()')
            A.setfact(st, st.env[i.id], nz=True)
            return [st]
        if cn not in PRIMS:
            self.pre = {'asked'} if any(A.T.tab[a][0] == 'al' and A.T.const(A.rep(st, A.load(st, self.cells(A, a)[0]))) == 0
                                        for a in args) else set()
            self.before = self.free(A, st, T.mk('arg', self.k))
            return None
        A.redefine(st, i.id)
        if cn == 'armas_make':
            v, r, cc, s, p = args[:5]
            sn = A.M.fns[c].params[0]['st']
            for fl, x in (('rows', r), ('cols', cc), ('step', s), ('elems', p)):
                if fl in A.M.fields[sn]:
                    st.mem[T.mk('f', v, sn, fl)] = x
            self.fit(A, st, i, r, cc, s, p)
            if i.id is not None and i.ty != 'void':
                st.env[i.id] = v
            return [st]
        w = args[0]
        if A.T.const(A.rep(st, w)) == 0:
            if i.ty != 'void':
                st.env[i.id] = T.zero
            return [st]
        b, o = self.free(A, st, w)
        if cn == 'armas_wpos':
            st.env[i.id] = o
        elif cn == 'armas_wbytes':
            t = A.bin(st, 'sub', b, o, 'i64')
            A.setfact(st, t, lo=0, hi=MAXB)
            st.env[i.id] = t
        elif cn == 'armas_wptr':
            st.env[i.id] = T.mk('wsp', w, o)
            A.setfact(st, st.env[i.id], nz=True)
        elif cn == 'armas_wsetpos':
            A.store(st, self.cells(A, w)[1], args[1], i.id)
        elif cn == 'armas_wreset':
            A.store(st, self.cells(A, w)[1], T.zero, i.id)
        else:
            n = args[1]
            if cn == 'armas_wreserve':
                n = A.bin(st, 'mul', args[1], args[2], 'i64')
            if cn == 'armas_wreserve_bits':
                n = A.bin(st, 'lshr', A.bin(st, 'add', n, T.c(7), 'i64'), T.c(3), 'i64')
            self.n['reserve'] += 1
            out = []
            P = padd(padd(A.poly(st, n), A.poly(st, b), -1), A.poly(st, o))
            B = Bound(A, st)
            if not B.le0(P):
                if self.mode == 'size' and not B.absurd():
                    self.bad.setdefault('size', (i.where(), 'space of %s bytes' % A.T.show(self.case[0], self.f)))
                s2 = st.copy()
                s2.env[i.id] = T.zero
                s2.ps = ('%s [%s]' % (i.where(), self.show(A, P)), st.ps[1])
                out.append(s2)
            A.setfact(st, n, lo=0)
            st.env[i.id] = T.mk('wsr', w, o, n)
            A.setfact(st, st.env[i.id], nz=True)
            o2 = A.bin(st, 'add', o, n, 'i64')
            A.add_rel(st, o2, b, 0)
            A.store(st, self.cells(A, w)[1], o2, i.id)
            out.append(st)
            return out
        return [st]

    def fit(self, A, st, i, r, c, s, p):
        """the view lies within the space that the pointer was taken from"""
        T = A.T
        off = {}
        if 'inlined' in i.where():
            return
        x = T.tab[A.rep(st, p)]
        while x[0] == 'ix':
            sz = x[2]
            off = padd(off, pmul(A.poly(st, x[3]), {(): sz}))
            x = T.tab[x[1]]
        if x[0] not in ('wsp', 'wsr'):
            return
        if A.T.const(A.rep(st, r)) == 0 or A.T.const(A.rep(st, c)) == 0:
            return
        self.n['fit'] += 1
        ext = pmul(pmul(A.poly(st, s), A.poly(st, c)), {(): self.C.elem})
        b, o = self.free(A, st, x[1])
        if x[0] == 'wsr':
            room = A.poly(st, x[3])
        else:
            room = padd(A.poly(st, b), A.poly(st, x[2]), -1)
        D = padd(padd(ext, off), room, -1)
        if any(A.T.show(t).find('opq') >= 0 for m in D for t in m):
            self.n['opaque'] += 1
            return
        if not Bound(A, st).le0(D):
            self.n['nofit'] += 1
            self.bad.setdefault('fit:%s' % i.where(), (i.where(), self.show(A, D)))

    def show(self, A, P):
        return ' + '.join('%d*%s' % (v, '*'.join(A.T.show(t, self.f) for t in m)) for m, v in P.items()) + ' <= 0 not established'

    def on_store(self, A, st, i, a, v):
        x = A.T.tab[a]
        if x[0] == 'f' and x[2] == 'armas_wbuf' and x[3] == 'bytes' and self.mine(A, st, x[1]):
            st.ps = (st.ps[0], True)
        if self.mode == 'size' and x[0] == 'f' and x[2] == 'armas_conf' and x[3] == 'error':
            c = A.T.const(A.rep(st, v))
            if c == EWORK:
                self.n['size'] += 1
                B = Bound(A, st)
                if not B.absurd():
                    self.bad.setdefault('size', (i.where(), 'space of %s bytes' % A.T.show(self.case[0], self.f)))
        if self.mode == 'query' and i.a[2] in shapes.ELEM and A.T.tab[A.root(a)][0] not in ('al', 'g'):
            self.bad.setdefault('qtouch', (i.where(), ''))

    def on_load(self, A, st, i, a):
        if self.mode == 'query' and i.ty in shapes.ELEM and A.T.tab[A.root(a)][0] not in ('al', 'g'):
            self.bad.setdefault('qtouch', (i.where(), ''))

    def after_call(self, A, st, i, args):
        C = self.C
        tg = A.M.targets(i)
        b, o, _ = self.cells(A)
        # settings are made before the first use and do not change
        for k in [k for k in st.ep if type(k) is tuple and k[0] == 'armas_env']:
            del st.ep[k]
        if not any(self.mine(A, st, a) for a in args):
            # the caller's block is not the one in its configuration
            st.mem[b], st.mem[o] = self.before
        for k, a in enumerate(args):
            if self.mine(A, st, a) and tg and all(t in C.wfns and k in C.wfns[t] for t in tg):
                # what the callee does with the block is decided there
                if self.mode != 'query':
                    st.mem[b], st.mem[o] = self.before
                else:
                    st.ps = (st.ps[0], True)
                    v = A.T.mk('res', i.id, 0)
                    A.setfact(st, v, lo=0)
                    st.mem[b] = v
                return
        for k, a in enumerate(args):
            if self.mode == 'query' and tg and all(t in C.wfns and k in C.wfns[t] for t in tg):
                if 'asked' in self.pre and A.T.tab[a][0] == 'al':
                    # a query of its own
                    return
        if self.mode == 'query' and tg and any(t in C.touch for t in tg):
            self.bad.setdefault('qtouch', (i.where(), ir.cname(sorted(tg)[0])))

    def on_ret(self, A, st, i, v):
        if v is not None:
            f = A.fact(st, v)
            neg = f[1] < 0
        else:
            neg = False
        _, o = self.free(A, st, A.T.mk('arg', self.k))
        if self.mode == 'size':
            return
        if self.mode == 'work':
            self.n['restore'] += 1
            if A.poly(st, o) != A.poly(st, self.o0):
                self.bad.setdefault('restore:%s' % ('fail' if neg else 'ok'), (i.where(), A.T.show(o, self.f)))
            if st.ps[0] and not neg:
                self.bad.setdefault('reserve', (i.where(), st.ps[0]))
        else:
            if not neg:
                self.n['query'] += 1
                if True:
                    q = A.rep(st, st.mem[self.cells(A)[0]])
                    ok = lambda t: not A.T.dep[t]
                    null = lambda t: any(A.T.tab[y][0] == 'f' and A.T.const(A.T.tab[y][1]) is not None for y in A.T.subterms(t))
                    if null(q):
                        pass
                    elif ok(q):
                        self.cases.add((q, tuple(sorted((k, v) for k, v in st.rel.items() if ok(k[0]) and ok(k[1]))),
                                        tuple(sorted((t, A.fact(st, t)) for t in list(st.facts) + list(st.eq) if ok(t)
                                                     and t not in (self.b0, self.o0)))))
                    else:
                        self.n['delegated'] += 1


class Prim(engine.Client):
    """the operations on the descriptor: what they return and how they move its offset"""
    limit = 40

    def __init__(self, f, cn):
        self.f, self.cn, self.bad, self.n = f, cn, {}, 0

    def init(self, A, st):
        T = A.T
        w = T.mk('arg', 0)
        self.b, self.o, self.p = (T.mk('f', w, 'armas_wbuf', x) for x in ('bytes', 'offset', 'buf'))
        self.b0, self.o0, self.p0 = (T.mk('ld', x, 0) for x in (self.b, self.o, self.p))
        st.mem[self.b], st.mem[self.o], st.mem[self.p] = self.b0, self.o0, self.p0
        A.setfact(st, self.b0, lo=0, hi=MAXB)
        A.setfact(st, self.o0, lo=0, hi=MAXB)
        A.setfact(st, self.p0, nz=True)
        A.add_rel(st, self.o0, self.b0, 0)
        A.setfact(st, A.bin(st, 'sub', self.b0, self.o0, 'i64'), lo=0, hi=MAXB)
        A.setfact(st, T.mk('arg', 1), lo=0, hi=MAXB)
        A.setfact(st, T.mk('arg', 2), lo=1, hi=1 << 16)
        return None

    def keepmem2(self, A, st, a, v):
        return a in (self.b, self.o, self.p)

    def pinned(self, A, st):
        return [self.b0, self.o0, self.p0]

    def want(self, A, st):
        T = A.T
        a1, a2 = T.mk('arg', 1), T.mk('arg', 2)
        if self.cn == 'armas_wreserve':
            return A.bin(st, 'mul', a1, a2, 'i64')
        if self.cn == 'armas_wreserve_bits':
            return A.bin(st, 'lshr', A.bin(st, 'add', a1, T.c(7), 'i64'), T.c(3), 'i64')
        return a1

    def fail(self, i, k, m):
        self.bad.setdefault(k, (i.where(), m))

    def on_call(self, A, st, i, args):
        c = i.callee()
        cn = ir.cname(c) if c else ''
        if not cn.startswith('armas_wreserve'):
            return None
        # hands on to another one, which is judged for itself
        T = A.T
        n = args[1]
        if cn == 'armas_wreserve':
            n = A.bin(st, 'mul', args[1], args[2], 'i64')
        if A.poly(st, n) != A.poly(st, self.want(A, st)) or A.rep(st, args[0]) != T.mk('arg', 0):
            self.fail(i, 'amount', 'asks for another amount')
        A.redefine(st, i.id)
        st.ps = i.id
        st.env[i.id] = T.mk('call', i.id)
        return [st]

    def on_store(self, A, st, i, a, v):
        if a in (self.b, self.p):
            self.fail(i, 'store', 'changes the block')

    def on_ret(self, A, st, i, v):
        T = A.T
        self.n += 1
        cn = self.cn
        o, w = A.load(st, self.o), T.mk('arg', 0)
        null = A.T.const(A.rep(st, w)) == 0
        same = A.poly(st, o) == A.poly(st, self.o0)
        pos = None
        if v is not None:
            x = T.tab[A.rep(st, v)]
            if x[0] == 'ix' and A.rep(st, x[1]) == A.rep(st, self.p0):
                pos = A.poly(st, x[3])
            elif A.rep(st, v) == A.rep(st, self.p0):
                pos = {}
        if cn.startswith('armas_wreserve'):
            if st.ps is not None:
                if A.rep(st, v) != T.mk('call', st.ps) or not same:
                    self.fail(i, 'result', 'does not hand on what was reserved')
            elif v is not None and T.const(A.rep(st, v)) == 0:
                if not null and not same:
                    self.fail(i, 'failed', 'moves the offset although it fails')
            else:
                n = A.poly(st, self.want(A, st))
                if null or pos != A.poly(st, self.o0):
                    self.fail(i, 'start', 'the space does not start at the offset')
                if A.poly(st, o) != padd(A.poly(st, self.o0), n):
                    self.fail(i, 'advance', 'the offset does not move by the amount reserved')
                if not Bound(A, st).le0(padd(padd(n, A.poly(st, self.o0)), A.poly(st, self.b0), -1)):
                    self.fail(i, 'beyond', 'hands out space beyond the end of the block')
            return
        if null:
            return
        if cn == 'armas_wptr' and (pos != A.poly(st, self.o0) and not (v is not None and T.const(A.rep(st, v)) == 0)):
            self.fail(i, 'start', 'does not point to the free space')
        if cn == 'armas_wpos' and A.poly(st, v) != A.poly(st, self.o0):
            self.fail(i, 'value', 'is not the offset')
        if cn == 'armas_wbytes' and A.poly(st, v) != padd(A.poly(st, self.b0), A.poly(st, self.o0), -1):
            self.fail(i, 'value', 'is not the size of the free space')
        if cn == 'armas_wreset' and A.poly(st, o) != {}:
            self.fail(i, 'value', 'does not release everything')
        if cn == 'armas_wsetpos':
            if not same and A.poly(st, o) != A.poly(st, T.mk('arg', 1)):
                self.fail(i, 'value', 'does not move to the position')
            if not Bound(A, st).le0(padd(A.poly(st, o), A.poly(st, self.b0), -1)):
                self.fail(i, 'beyond', 'moves beyond the end of the block')
            if same and not A.le(st, self.b0, T.mk('arg', 1), 0) and A.poly(st, self.o0) != A.poly(st, T.mk('arg', 1)):
                self.fail(i, 'value', 'does not move to a position inside of the block')
        if cn in ('armas_wpos', 'armas_wbytes', 'armas_wptr') and not same:
            self.fail(i, 'store', 'moves the offset')


class Setup:
    pass


DIMS = {'fit:': 'a view over the workspace may exceed it: %s', 'restore:fail': 'a failing return leaves space reserved (offset %s)',
        'restore:ok': 'a return leaves space reserved (offset %s)', 'reserve': 'returns success although a reservation may have failed: %s',
        'qtouch': 'a size query touches operand elements %s',
        'size': 'a workspace of the size that the query reports is refused: %s'}


def check(c):
    tot = collections.Counter()
    nf, npr, trunc = 0, 0, []
    for prec in (('FLOAT64', 'FLOAT32') if c.thorough else ('FLOAT64',)):
        M = c.module(prec, keep=PRIMS, flags=('--inline-pred=160',))
        E = ir.Effects(M)
        C = Setup()
        C.M = M
        C.elem = 8 if prec == 'FLOAT64' else 4
        C.touch = shapes.touching(M)
        C.wfns = {n: [k for k, p in enumerate(f.params) if p.get('st') == 'armas_wbuf'] for n, f in M.fns.items()
                  if any(p.get('st') == 'armas_wbuf' for p in f.params) and ir.cname(n) not in PRIMS}
        todo = [(n, m) for n in sorted(C.wfns) if n.endswith('_w') for m in ('query', 'work')]
        # the longest first
        todo.sort(key=lambda x: -sum(len(b) for b in M.fns[x[0]].blocks))
        nf += len(todo) // 2

        def job(x):
            n, mode = x
            f = M.fns[n]
            cl = WS(C, f, C.wfns[n][0], mode)
            A = engine.Analysis(M, E, f, cl, maxsteps=150000)
            A.run()
            bad, cnt, tr = cl.bad, cl.n, A.truncated
            if mode == 'query':
                # a block of the size that was stored must do
                for case in sorted(cl.cases):
                    c2 = WS(C, f, C.wfns[n][0], 'size')
                    c2.case = case
                    A2 = engine.Analysis(M, E, f, c2, maxsteps=150000)
                    A2.T = A.T
                    A2.run()
                    tr |= A2.truncated
                    cnt['cases'] += 1
                    for k in c2.bad:
                        bad.setdefault(k, c2.bad[k])
                    for k in c2.n:
                        cnt[k] += c2.n[k]
            return n, mode, bad, cnt, tr
        for n, mode, bad, cnt, tr in c.pmap(job, todo):
            cn = ir.cname(n)
            if tr:
                trunc.append(cn)
            for k, (w, x) in bad.items():
                m = next(v for p, v in DIMS.items() if k.startswith(p))
                c.report('%s:%s' % (cn, k), m % x, where=w, fn=cn)
            for k, v in cnt.items():
                tot[k] += v
            if mode == 'work' and cnt['fit'] > 10 and len(c.samples) < 12:
                c.samples.append('%s: %d returns leave the offset as it was, %d views over the workspace fit' % (cn, cnt['restore'], cnt['fit']))
        M0 = c.module(prec, inst=True, inline=False)
        E0 = ir.Effects(M0)
        for p in PRIMS[:8]:
            f = M0.f(p)
            if f is None or not f.blocks:
                continue
            npr += 1
            cl = Prim(f, p)
            A = engine.Analysis(M0, E0, f, cl)
            A.run()
            tot['prim'] += cl.n
            for k, (w, x) in cl.bad.items():
                c.report('%s:%s' % (p, k), x, where=w, fn=p)
    ob = tot['restore'] + tot['fit'] - tot['opaque'] + tot['query'] + tot['reserve'] + tot['size'] + tot['cases'] + tot['prim']
    c.cov.update(functions=nf, primitives=npr, returns_with_offset_restored=tot['restore'], views_over_workspace=tot['fit'], views_of_opaque_size=tot['opaque'],
                 reservations=tot['reserve'], successful_queries=tot['query'], reported_sizes_tried=tot['cases'], refusals_shown_impossible=tot['size'],
                 queries_answered_by_callees=tot['delegated'], obligations=ob, discharged=ob - len(c.findings), truncated=trunc,
                 trusted_base=['clang 18 front end', 'lib/engine.py', 'lib/checks/work.py Bound'])
    c.assume += ['settings of the environment are not negative', 'the workspace is not the block in the configuration (conf->work)',
                 'products of dimensions and sizes do not overflow', 'the reserved part of a workspace lies within its size at entry']
    c.require('functions', nf, 35)
    c.require('returns', tot['restore'], 500)
    c.require('views over the workspace', tot['fit'], 300)
    c.require('primitives', npr, 8)
    c.require('reported sizes', tot['cases'], 80)
    if trunc:
        c.require('functions analysed to the end', -len(trunc), 0)
