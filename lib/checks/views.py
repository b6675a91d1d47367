"""C08: views, partitions and element accessors address exactly the part of their source that they name.

Every constructor and accessor of the headers is executed over symbolic operands, path by path, once per case of its description (index
given from the start or from the end, block size that fits or not, ...).  At each return the members of the result are compared, as
polynomials over the members of the source, with the description."""
import engine
import front
import ir
from checks.work import Bound, padd, pmul

LIM = 1 << 28
PARTS = ('armas_s_dense', 'armas_d_dense', 'armas_pivot')


def const(k):
    return {(): k} if k else {}


class Sub:
    """one case: facts about the operands at entry, and what has to hold at return"""

    def __init__(self, cl, A, st):
        self.cl, self.A, self.st = cl, A, st

    def arg(self, k):
        return self.A.T.mk('arg', k)

    def f(self, k, name):
        """member of the operand as it is at entry"""
        return self.cl.f0[(k, name)]

    def t(self, x):
        return x if type(x) is engine.Ref else self.A.T.c(x)

    def add(self, *xs):
        r = self.t(xs[0])
        for x in xs[1:]:
            r = self.A.bin(self.st, 'add', r, self.t(x), 'i32')
        return r

    def sub(self, a, *xs):
        r = self.t(a)
        for x in xs:
            r = self.A.bin(self.st, 'sub', r, self.t(x), 'i32')
        return r

    def mul(self, a, b):
        return self.A.bin(self.st, 'mul', self.t(a), self.t(b), 'i32')

    # assumptions
    def range(self, t, lo, hi=LIM):
        self.A.setfact(self.st, t, lo=lo, hi=hi)

    def is_(self, t, k):
        self.A.setfact(self.st, t, lo=k, hi=k)

    def le(self, a, b, k=0):
        """a <= b + k"""
        a, b = self.t(a), self.t(b)
        T = self.A.T
        if T.const(self.A.rep(self.st, b)) is not None:
            self.A.setfact(self.st, a, hi=T.const(self.A.rep(self.st, b)) + k)
        elif T.const(self.A.rep(self.st, a)) is not None:
            self.A.setfact(self.st, b, lo=T.const(self.A.rep(self.st, a)) - k)
        else:
            self.cl.pre.append((a, b, k))
            self.A.add_rel(self.st, a, b, k)


class View(engine.Client):
    limit = 64
    distinct = True

    def __init__(self, name, f, case):
        self.name, self.f, self.case = name, f, case
        self.bad, self.n, self.rets = {}, 0, 0
        self.f0, self.pre, self.touch = {}, [], []

    def init(self, A, st):
        T = A.T
        self.A = A
        for k, p in enumerate(self.f.params):
            s = p.get('st')
            if s in PARTS and p.get('dt', '').count('*') == 1:
                a = T.mk('arg', k)
                A.setfact(st, a, nz=True)
                for m in A.M.fields[s]:
                    c = T.mk('f', a, s, m)
                    v = self.f0[(k, m)] = T.mk('ld', c, 0)
                    st.mem[c] = v
                    if m in ('rows', 'cols', 'step', 'npivots'):
                        A.setfact(st, v, lo=0, hi=LIM)
        self.want = self.case(Sub(self, A, st))
        # the terms of the description, expanded at entry
        self.P = {}
        return None

    def keepmem2(self, A, st, a, v):
        return True

    def pinned(self, A, st):
        return list(self.f0.values()) + [x for r in self.pre for x in r[:2]]

    def on_store(self, A, st, i, a, v):
        self.access(A, st, i, a, True)

    def on_load(self, A, st, i, a):
        self.access(A, st, i, a, False)

    def access(self, A, st, i, a, w):
        a = A.firstcell(st, a) or a
        x = A.T.tab[a]
        if x[0] == 'f' and A.T.tab[x[1]][0] == 'arg':
            if w and self.want.get('frame') is not None and A.T.tab[x[1]][1] not in self.want['frame']:
                self.fail(i, 'frame', 'changes %s' % A.T.show(a, A.fn))
            return
        if x[0] == 'al':
            return
        b, off = self.place(A, st, a)
        st.ps = (st.ps or ()) + ((i.id, w, b, tuple(sorted(off.items()))),)

    def place(self, A, st, t):
        """(base pointer, offset in elements)"""
        T = A.T
        off = {}
        t = A.rep(st, t)
        while T.tab[t][0] == 'ix':
            off = padd(off, self.norm(A, st, A.poly(st, T.tab[t][3])))
            t = A.rep(st, T.tab[t][1])
        return t, off

    def norm(self, A, st, P):
        """remainders as a - (a/b)*b"""
        for _ in range(4):
            hit = next((t for m in P for t in m if A.T.tab[t][0] == 'bin' and A.T.tab[t][1] in ('srem', 'urem')), None)
            if hit is None:
                break
            x = A.T.tab[hit]
            q = A.poly(st, A.bin(st, x[1][0] + 'div', x[2], x[3], 'i64'))
            S = padd(A.poly(st, x[2]), pmul(q, A.poly(st, x[3])), -1)
            R = {}
            for m, v in P.items():
                Q = {(): v}
                for t in m:
                    Q = pmul(Q, S if t == hit else {(t,): 1})
                R = padd(R, Q)
            P = R
        return P

    def fail(self, i, k, m):
        self.bad.setdefault(k, (i.where(), m))

    def bound(self, A, st):
        B = Bound(A, st)
        # what is known of products and sums
        for t in list(st.facts):
            x = A.T.tab[t]
            if x[0] == 'bin' and x[1] in ('add', 'sub', 'mul'):
                f = A.fact(st, t)
                P = A.poly(st, t)
                if f[1] < engine.BIG // 2:
                    B.ineq.append(B.subst(padd(P, const(f[1]), -1)))
                if f[0] > -engine.BIG // 2:
                    B.ineq.append(B.subst(padd(const(f[0]), P, -1)))
            if x[0] == 'bin' and x[1] == 'and':
                # not zero, and a multiple of a power of two
                f = A.fact(st, t)
                g = A.fact(st, x[2]), A.fact(st, x[3])
                z = next(k for k in range(32) if not any((h[2] >> k) & 1 and not (h[3] >> k) & 1 for h in g))
                if (f[0] > 0 or f[4]) and f[0] >= 0 and z:
                    B.ineq.append({(): 1 << z, (t,): -1})
        for a, b, k in self.pre:
            B.ineq.append(B.subst(padd(padd(A.poly(st, a), A.poly(st, b), -1), const(k), -1)))
        return B

    def equal(self, A, st, P, Q):
        D = padd(self.norm(A, st, P), self.norm(A, st, Q), -1)
        if not D:
            return True
        B = self.bound(A, st)
        if B.le0(D) and B.le0({m: -v for m, v in D.items()}):
            return True
        return self.vain(A, st)

    def vain(self, A, st):
        """no operands take this path"""
        return self.bound(A, st).absurd()

    def on_ret(self, A, st, i, v):
        T = A.T
        w = self.want
        self.rets += 1

        def val(P):
            return A.poly(st, P) if type(P) is engine.Ref else const(P)

        def same(k, got, want, what):
            self.n += 1
            if not self.equal(A, st, A.poly(st, got), val(want)):
                self.fail(i, k, '%s is %s' % (what, self.text(A, st, A.poly(st, got))))
        for k, d in w.get('out', {}).items():
            s = self.f.params[k]['st']
            nm = self.f.params[k].get('name') or 'arg%d' % k
            for m, x in d.items():
                got = A.load(st, T.mk('f', T.mk('arg', k), s, m))
                if m in ('elems', 'indexes'):
                    self.n += 1
                    b, off = self.place(A, st, got)
                    if x is None:
                        if T.const(b) != 0 and not self.vain(A, st):
                            self.fail(i, '%d.%s' % (k, m), '%s->%s is not cleared' % (nm, m))
                        continue
                    src, at = x
                    if b != A.rep(st, src):
                        if not self.vain(A, st):
                            self.fail(i, '%d.%s' % (k, m), '%s->%s does not point into the elements of the source' % (nm, m))
                    elif not self.equal(A, st, off, val(at)):
                        self.fail(i, '%d.%s' % (k, m), '%s->%s starts at element %s' % (nm, m, self.text(A, st, off)))
                else:
                    same('%d.%s' % (k, m), got, x, '%s->%s' % (nm, m))
        if 'ret' in w:
            r = w['ret']
            self.n += 1
            if isinstance(r, tuple):
                x = T.tab[A.rep(st, v)]
                b, off = self.place(A, st, x[1]) if x[0] == 'ld' else (None, None)
                if b != A.rep(st, r[0]) or not self.equal(A, st, off, val(r[1])):
                    if not self.vain(A, st):
                        self.fail(i, 'value', 'the value returned is not the element')
            elif type(r) is engine.Ref and T.tab[r][0] == 'arg' and self.f.params[T.tab[r][1]].get('st'):
                if A.rep(st, v) != A.rep(st, r) and not self.vain(A, st):
                    self.fail(i, 'result', 'does not return its first argument')
            elif r == 'true':
                if A.fact(st, v)[0] < 1 and not A.fact(st, v)[4] and not self.vain(A, st):
                    self.fail(i, 'value', 'may return false')
            elif type(r) is float:
                x = T.tab[A.rep(st, v)]
                if x[0] == 'ld' and not self.vain(A, st):
                    self.fail(i, 'value', 'returns an element')
            elif not self.equal(A, st, A.poly(st, v), val(r)):
                self.fail(i, 'value', 'returns %s' % self.text(A, st, A.poly(st, v)))
        if 'touch' in w:
            self.n += 1
            acc = list(st.ps or ())
            want = w['touch']
            for iid, wr, b, off in acc:
                if want is None:
                    if not self.vain(A, st):
                        self.fail(i, 'touch', 'accesses an element')
                    break
                if wr != want[0] or b != A.rep(st, want[1]) or not self.equal(A, st, dict(off), val(want[2])):
                    if not self.vain(A, st):
                        self.fail(i, 'touch', '%s element %s' % ('writes' if wr else 'reads', self.text(A, st, dict(off))))
                    break
            if want is not None and not acc and not self.vain(A, st):
                self.fail(i, 'touch', 'does not %s the element' % ('write' if want[0] else 'read'))

    def text(self, A, st, P):
        if not P:
            return '0'
        out = []
        for m, v in sorted(P.items()):
            s = '*'.join(A.T.show(t, A.fn) for t in m)
            out.append(('%+d' % v) + ('*' + s if s else ''))
        return ' '.join(out)


class Alloc(View):
    """a matrix that owns its elements: the block allocated holds rows x cols elements from the aligned start on"""

    def on_call(self, A, st, i, args):
        cn = ir.cname(i.callee() or '')
        if cn not in ('malloc', 'calloc', 'aligned_alloc'):
            return None
        T = A.T
        n = {'malloc': lambda: args[0], 'calloc': lambda: A.bin(st, 'mul', args[0], args[1], 'i64'), 'aligned_alloc': lambda: args[1]}[cn]()
        out = []
        for ok in (True, False):
            s = st.copy()
            A.redefine(s, i.id)
            t = T.mk('call', i.id)
            s.env[i.id] = t
            if ok:
                # the allocator returns blocks that suit any type
                A.setfact(s, t, lo=1, km=15, kv=0, nz=True)
                s.ps = ('block', t, tuple(sorted(A.poly(s, n).items())))
            else:
                A.setfact(s, t, lo=0, hi=0)
                s.ps = ('none',)
            out.append(s)
        return out

    def access(self, A, st, i, a, w):
        pass

    def on_ret(self, A, st, i, v):
        T = A.T
        self.rets += 1
        self.n += 1
        L = {m: A.load(st, T.mk('f', T.mk('arg', 0), self.f.params[0]['st'], m)) for m in ('elems', 'rows', 'cols', 'step')}
        if T.const(A.rep(st, v)) == 0:
            if st.ps != ('none',) and not self.vain(A, st):
                self.fail(i, 'refused', 'returns NULL although memory was allocated')
            return
        if A.rep(st, v) != T.mk('arg', 0):
            self.fail(i, 'result', 'does not return its first argument')
        if self.want['empty']:
            if T.const(A.rep(st, L['elems'])) != 0 and not self.vain(A, st):
                self.fail(i, 'empty', 'elements of an empty matrix')
            if not any(self.equal(A, st, A.poly(st, L[m]), {}) for m in ('rows', 'cols')):
                self.fail(i, 'empty', 'size of an empty matrix')
            return
        if not st.ps or st.ps[0] != 'block':
            if not self.vain(A, st):
                self.fail(i, 'none', 'returns a matrix without elements')
            return
        self.n += 4
        for m, k in (('rows', 1), ('cols', 2)):
            if not self.equal(A, st, A.poly(st, L[m]), A.poly(st, T.mk('arg', k))):
                self.fail(i, m, '%s is %s' % (m, self.text(A, st, A.poly(st, L[m]))))
        B = self.bound(A, st)
        if not B.le0(padd(A.poly(st, T.mk('arg', 1)), A.poly(st, L['step']), -1)):
            self.fail(i, 'step', 'the step is less than the number of rows')
        b, off, t = None, {}, A.rep(st, L['elems'])
        while T.tab[t][0] == 'ix':
            off = padd(off, pmul(self.norm(A, st, A.poly(st, T.tab[t][3])), const(T.tab[t][2])))
            t = A.rep(st, T.tab[t][1])
        need = padd(off, pmul(pmul(A.poly(st, L['step']), A.poly(st, L['cols'])), const(self.elem)))
        if t != st.ps[1]:
            self.fail(i, 'elems', 'the elements do not lie in the block allocated')
        elif not B.le0(padd(need, dict(st.ps[2]), -1)) and not self.vain(A, st):
            self.fail(i, 'bytes', 'the elements need %s bytes, %s are allocated' % (self.text(A, st, need), self.text(A, st, dict(st.ps[2]))))


# --------------------------------------------------------------------------- descriptions

def block(H, s, r, c, nr, nc):
    """members of the view of source s that starts at (r, c)"""
    return {'elems': (H.f(s, 'elems'), H.add(r, H.mul(c, H.f(s, 'step')))), 'rows': H.t(nr), 'cols': H.t(nc), 'step': H.f(s, 'step')}


def part(s, side, axis, fit, big):
    """two blocks; side 'lo': the block of size nb comes first"""
    def case(H):
        n = H.f(s, axis)
        H.is_(H.arg(4), SIDES[side])
        nb = H.arg(3)
        H.range(nb, 0)
        if big:
            H.le(n, nb, -1)
        else:
            H.le(nb, n)
        k = n if big else nb
        cut = k if side in ('ARMAS_PTOP', 'ARMAS_PLEFT') else H.sub(n, k)
        return grid(H, s, axis, [0, 1], [0, cut, n])
    return case


def grid(H, s, axis, outs, cuts):
    R, C = H.f(s, 'rows'), H.f(s, 'cols')
    out = {}
    for k, a, b in zip(outs, cuts, cuts[1:]):
        out[k] = block(H, s, a, 0, H.sub(b, a), C) if axis == 'rows' else block(H, s, 0, a, R, H.sub(b, a))
    return {'out': out, 'frame': outs}


SIDES = {}


def cases():
    """name -> list of (label, case)"""
    S = {}

    def add(n, label, c):
        S.setdefault(n, []).append((label, c))
    dims = {'rows': ('2x1', '2x1to3x1', '3x1to2x1', 'ARMAS_PTOP', 'ARMAS_PBOTTOM'),
            'cols': ('1x2', '1x2to1x3', '1x3to1x2', 'ARMAS_PLEFT', 'ARMAS_PRIGHT')}
    for axis, (p, rp, ct, lo, hi) in dims.items():
        for side in (lo, hi):
            for big in (False, True):
                add('mat_partition_' + p, '%s%s' % (side[6:], ' with a block larger than the source' if big else ''), part(2, side, axis, True, big))

        def rep(side, big, axis=axis, lo=lo):
            def case(H):
                s = 4
                n, k = H.f(s, axis), H.f(0, axis)
                H.is_(H.arg(6), SIDES[side])
                nb = H.arg(5)
                H.range(nb, 0)
                H.le(k, n)
                if side == lo:
                    # the next block is taken from the first part
                    H.le(k, nb, -1) if big else H.le(nb, k)
                    m = k if big else nb
                    cuts = [0, H.sub(k, m), k, n]
                else:
                    H.le(n, H.add(k, nb), -1) if big else H.le(H.add(k, nb), n)
                    m = H.sub(n, k) if big else nb
                    cuts = [0, k, H.add(k, m), n]
                return grid(H, s, axis, [1, 2, 3], cuts)
            return case

        def cont(side, axis=axis, lo=lo):
            def case(H):
                s = 4
                n, a, b = H.f(s, axis), H.f(2, axis), H.f(3, axis)
                H.is_(H.arg(5), SIDES[side])
                H.le(H.add(a, b), n)
                return grid(H, s, axis, [0, 1], [0, a if side == lo else H.add(a, b), n])
            return case
        for side in (lo, hi):
            for big in (False, True):
                add('mat_repartition_' + rp, '%s%s' % (side[6:], ' with a block larger than what is left' if big else ''), rep(side, big))
            add('mat_continue_' + ct, side[6:], cont(side))

    # two by two
    def grid2(H, s, outs, rc, cc):
        out = {}
        k = 0
        for i in range(len(rc) - 1):
            for j in range(len(cc) - 1):
                if outs[k] is not None:
                    out[outs[k]] = block(H, s, rc[i], cc[j], H.sub(rc[i + 1], rc[i]), H.sub(cc[j + 1], cc[j]))
                k += 1
        return {'out': out, 'frame': [o for o in outs if o is not None]}

    def nulls(H, outs, drop):
        for k in drop:
            H.st.facts.pop(H.arg(k), None)
            H.is_(H.arg(k), 0)
        return [None if k in drop else k for k in outs]

    def part22(side, drop):
        def case(H):
            s = 4
            R, C = H.f(s, 'rows'), H.f(s, 'cols')
            mb, nb = H.arg(5), H.arg(6)
            H.is_(H.arg(7), SIDES[side])
            H.range(mb, 0)
            H.range(nb, 0)
            H.le(mb, R)
            H.le(nb, C)
            rc, cc = (mb, nb) if side == 'ARMAS_PTOPLEFT' else (H.sub(R, mb), H.sub(C, nb))
            return grid2(H, s, nulls(H, [0, 1, 2, 3], drop), [0, rc, R], [0, cc, C])
        return case

    def rep22(side, lim, drop):
        def case(H):
            s = 10
            R, C, r, c = H.f(s, 'rows'), H.f(s, 'cols'), H.f(0, 'rows'), H.f(0, 'cols')
            nb = H.arg(11)
            H.is_(H.arg(12), SIDES[side])
            H.range(nb, 0)
            H.le(r, R)
            H.le(c, C)
            ar, ac = (r, c) if side == 'ARMAS_PTOPLEFT' else (H.sub(R, r), H.sub(C, c))
            m = {'': nb, 'rows': ar, 'columns': ac}[lim]
            for x in (nb, ar, ac):
                if x is not m:
                    H.le(m, x)
            if lim:
                H.le(m, nb, -1)
            if lim == 'columns':
                # rows first where both limit alike
                H.le(m, ar, -1)
            lo = side == 'ARMAS_PTOPLEFT'
            rc = [0, H.sub(r, m), r, R] if lo else [0, r, H.add(r, m), R]
            cc = [0, H.sub(c, m), c, C] if lo else [0, c, H.add(c, m), C]
            return grid2(H, s, nulls(H, list(range(1, 10)), drop), rc, cc)
        return case

    def cont22(side, drop):
        def case(H):
            s = 7
            R, C, r, c, m = H.f(s, 'rows'), H.f(s, 'cols'), H.f(4, 'rows'), H.f(4, 'cols'), H.f(5, 'cols')
            A1 = H.f(5, 'rows')
            H.cl.eqs = None
            H.A.assume_eq(H.st, A1, m)
            H.is_(H.arg(8), SIDES[side])
            H.le(H.add(r, m), R)
            H.le(H.add(c, m), C)
            rc, cc = (r, c) if side == 'ARMAS_PTOPLEFT' else (H.add(r, m), H.add(c, m))
            return grid2(H, s, nulls(H, [0, 1, 2, 3], drop), [0, rc, R], [0, cc, C])
        return case
    for side in ('ARMAS_PTOPLEFT', 'ARMAS_PBOTTOMRIGHT'):
        for drop, dl in ((), ''), ((1, 2), ' without the off-diagonal blocks'):
            add('mat_partition_2x2', side[6:] + dl, part22(side, drop))
            add('mat_continue_3x3to2x2', side[6:] + dl, cont22(side, drop))
        for drop, dl in ((), ''), ((2, 3, 4, 6, 7, 8), ' without the off-diagonal blocks'):
            for lim in ('', 'rows', 'columns'):
                add('mat_repartition_2x2to3x3', side[6:] + (', limited by the ' + lim if lim else '') + dl, rep22(side, lim, drop))

    # merging neighbours
    def merge(axis, which):
        other = 'cols' if axis == 'rows' else 'rows'

        def case(H):
            a, b = 1, 2
            for k, e in ((a, which in ('second', 'none')), (b, which in ('first', 'none'))):
                if e:
                    H.is_(H.f(k, axis), 0)
                else:
                    H.range(H.f(k, axis), 1)
                H.range(H.f(k, other), 1)
            H.A.assume_eq(H.st, H.f(a, 'step'), H.f(b, 'step'))
            H.A.assume_eq(H.st, H.f(a, other), H.f(b, other))
            if which == 'none':
                return {'out': {0: {axis: 0}}, 'frame': [0]}
            src = b if which == 'second' else a
            d = block(H, src, 0, 0, H.f(src, 'rows'), H.f(src, 'cols'))
            d[axis] = H.add(H.f(a, axis), H.f(b, axis))
            return {'out': {0: d}, 'frame': [0]}
        return case
    for axis, n in (('rows', 'mat_merge2x1'), ('cols', 'mat_merge1x2')):
        for w in ('both', 'first', 'second', 'none'):
            add(n, {'both': 'both parts', 'first': 'second part empty', 'second': 'first part empty', 'none': 'both parts empty'}[w], merge(axis, w))

    # vectors
    def vec(H, s, row):
        """fixes the orientation; returns the length"""
        if row:
            H.is_(H.f(s, 'rows'), 1)
            return H.f(s, 'cols')
        H.is_(H.f(s, 'cols'), 1)
        H.A.setfact(H.st, H.f(s, 'rows'), lo=2)
        return H.f(s, 'rows')

    def seg(H, s, row, a, b):
        n = H.sub(b, a)
        return block(H, s, 0, a, 1, n) if row else block(H, s, a, 0, n, 1)

    def vsegs(H, s, row, outs, cuts):
        return {'out': {k: seg(H, s, row, a, b) for k, a, b in zip(outs, cuts, cuts[1:])}, 'frame': outs}

    def sublen(H, k, row):
        """length of a part: a vector of the same orientation, maybe empty"""
        if row:
            H.is_(H.f(k, 'rows'), 1)
            return H.f(k, 'cols')
        H.is_(H.f(k, 'cols'), 1)
        return H.f(k, 'rows')

    def vpart(side, row, big):
        def case(H):
            n = vec(H, 2, row)
            nb = H.arg(3)
            H.is_(H.arg(4), SIDES[side])
            H.range(nb, 0)
            H.le(n, nb, -1) if big else H.le(nb, n)
            m = n if big else nb
            return vsegs(H, 2, row, [0, 1], [0, m if side == 'ARMAS_PTOP' else H.sub(n, m), n])
        return case

    def vrep(side, row, big):
        def case(H):
            n = vec(H, 4, row)
            k = sublen(H, 0, row)
            nb = H.arg(5)
            H.is_(H.arg(6), SIDES[side])
            H.range(nb, 0)
            H.le(k, n)
            if side == 'ARMAS_PTOP':
                H.le(k, nb, -1) if big else H.le(nb, k)
                m = k if big else nb
                cuts = [0, H.sub(k, m), k, n]
            else:
                H.le(n, H.add(k, nb), -1) if big else H.le(H.add(k, nb), n)
                m = H.sub(n, k) if big else nb
                cuts = [0, k, H.add(k, m), n]
            return vsegs(H, 4, row, [1, 2, 3], cuts)
        return case

    def vcont(side, row):
        def case(H):
            n = vec(H, 4, row)
            a, b = sublen(H, 2, row), sublen(H, 3, row)
            H.is_(H.arg(5), SIDES[side])
            H.le(H.add(a, b), n)
            return vsegs(H, 4, row, [0, 1], [0, a if side == 'ARMAS_PTOP' else H.add(a, b), n])
        return case
    for side in ('ARMAS_PTOP', 'ARMAS_PBOTTOM'):
        for row in (False, True):
            o = side[6:] + (', row vector' if row else ', column vector')
            for big in (False, True):
                add('vec_partition_2x1', o + (', block too large' if big else ''), vpart(side, row, big))
                add('vec_repartition_2x1to3x1', o + (', block too large' if big else ''), vrep(side, row, big))
            add('vec_continue_3x1to2x1', o, vcont(side, row))

    # pivots
    def pseg(H, s, outs, cuts):
        out = {}
        for k, a, b in zip(outs, cuts, cuts[1:]):
            out[k] = {'indexes': (H.f(s, 'indexes'), H.t(a)), 'npivots': H.sub(b, a), 'owner': 0}
        return {'out': out, 'frame': outs}

    def ppart(side, big):
        def case(H):
            n, nb = H.f(2, 'npivots'), H.arg(3)
            H.is_(H.arg(4), SIDES[side])
            H.range(nb, 0)
            H.le(n, nb, -1) if big else H.le(nb, n)
            m = n if big else nb
            return pseg(H, 2, [0, 1], [0, m if side == 'ARMAS_PTOP' else H.sub(n, m), n])
        return case

    def prep(side, big):
        def case(H):
            n, k, nb = H.f(4, 'npivots'), H.f(0, 'npivots'), H.arg(5)
            H.is_(H.arg(6), SIDES[side])
            H.range(nb, 0)
            H.le(k, n)
            if side == 'ARMAS_PTOP':
                H.le(k, nb, -1) if big else H.le(nb, k)
                m = k if big else nb
                cuts = [0, H.sub(k, m), k, n]
            else:
                H.le(n, H.add(k, nb), -1) if big else H.le(H.add(k, nb), n)
                m = H.sub(n, k) if big else nb
                cuts = [0, k, H.add(k, m), n]
            return pseg(H, 4, [1, 2, 3], cuts)
        return case

    def pcont(side):
        def case(H):
            n, a, b = H.f(4, 'npivots'), H.f(2, 'npivots'), H.f(3, 'npivots')
            H.is_(H.arg(5), SIDES[side])
            H.le(H.add(a, b), n)
            return pseg(H, 4, [0, 1], [0, a if side == 'ARMAS_PTOP' else H.add(a, b), n])
        return case
    for side in ('ARMAS_PTOP', 'ARMAS_PBOTTOM'):
        for big in (False, True):
            add('pivot_repart_2x1to3x1', side[6:] + (', block too large' if big else ''), prep(side, big))
            add('pivot_2x1', side[6:] + (', block too large' if big else ''), ppart(side, big))
        add('pivot_cont_3x1to2x1', side[6:], pcont(side))

    # single rows, columns, submatrices
    def full(H, s):
        H.range(H.f(s, 'rows'), 1)
        H.range(H.f(s, 'cols'), 1)

    def index(H, k, n, neg):
        """index argument, from the start or from the end"""
        if neg:
            H.range(k, -LIM, -1)
            i = H.add(k, n)
            H.A.add_rel(H.st, H.sub(0, k), n, 0)
            H.cl.pre.append((H.sub(0, k), n, 0))
            return i
        H.range(k, 0)
        H.le(k, n, -1)
        return k

    def line(axis, neg, safe=True):
        def case(H):
            full(H, 1)
            i = index(H, H.arg(2), H.f(1, axis), neg)
            d = block(H, 1, i, 0, 1, H.f(1, 'cols')) if axis == 'rows' else block(H, 1, 0, i, H.f(1, 'rows'), 1)
            return {'out': {0: d}, 'ret': H.arg(0), 'frame': [0], 'touch': None}
        return case

    def empty(axis, nargs, wide=True):
        def case(H):
            H.is_(H.f(1, axis), 0)
            z = {'elems': None, 'rows': 0, 'cols': 0}
            return {'out': {0: z}, 'ret': 0, 'frame': [0], 'touch': None}
        return case
    for n, axis in (('armas_row', 'rows'), ('armas_column', 'cols')):
        add(n, 'index from the start', line(axis, False))
        add(n, 'index from the end', line(axis, True))
        add(n + '_unsafe', 'index from the start', line(axis, False))
    for n in ('armas_row', 'armas_column', 'armas_submatrix', 'armas_submatrix_ext', 'armas_diag'):
        for axis in ('rows', 'cols'):
            add(n, 'source without ' + axis, empty(axis, 0))

    def submat(rn, cn, nrn, ncn, stepn=None):
        def case(H):
            full(H, 1)
            R, C = H.f(1, 'rows'), H.f(1, 'cols')
            r, c = index(H, H.arg(2), R, rn), index(H, H.arg(3), C, cn)
            sz = []
            for k, n, i, neg in ((4, R, r, nrn), (5, C, c, ncn)):
                if neg:
                    H.range(H.arg(k), -LIM, -1)
                    sz.append(H.sub(n, i))
                else:
                    H.range(H.arg(k), 0)
                    H.le(H.add(i, H.arg(k)), n)
                    sz.append(H.arg(k))
            d = block(H, 1, r, c, *sz)
            if stepn is not None:
                if stepn:
                    H.range(H.arg(6), -LIM, -1)
                else:
                    H.range(H.arg(6), 0)
                    d['step'] = H.arg(6)
            return {'out': {0: d}, 'ret': H.arg(0), 'frame': [0], 'touch': None}
        return case
    for rn in (0, 1):
        for cn in (0, 1):
            for nr in (0, 1):
                for nc in (0, 1):
                    lab = 'row from the %s, column from the %s, %s rows, %s columns' % (
                        ('start', 'end')[rn], ('start', 'end')[cn], ('given', 'all')[nr], ('given', 'all')[nc])
                    add('armas_submatrix', lab, submat(rn, cn, nr, nc))
                    for sn in (0, 1):
                        add('armas_submatrix_ext', lab + (', own step' if not sn else ''), submat(rn, cn, nr, nc, sn))
    add('armas_submatrix_unsafe', 'block inside', submat(0, 0, 0, 0))

    def subvec(row, neg, all_):
        def case(H):
            n = vec(H, 1, row)
            H.range(n, 1 if row else 2)
            i = index(H, H.arg(2), n, neg)
            if all_:
                H.range(H.arg(3), -LIM, -1)
                e = n
            else:
                H.range(H.arg(3), 0)
                e = H.add(i, H.arg(3))
                H.le(e, n)
            return {'out': {0: seg(H, 1, row, i, e)}, 'frame': [0], 'ret': H.arg(0), 'touch': None}
        return case

    def notvec(H):
        H.range(H.f(1, 'rows'), 2)
        H.range(H.f(1, 'cols'), 2)
        return {'out': {0: {'rows': 0, 'cols': 0}}, 'frame': [0], 'touch': None}
    for row in (False, True):
        o = 'row vector' if row else 'column vector'
        for neg in (0, 1):
            for al in (0, 1):
                add('armas_subvector', '%s, index from the %s, %s' % (o, ('start', 'end')[neg], ('length given', 'rest')[al]), subvec(row, neg, al))
        add('armas_subvector_unsafe', o, subvec(row, 0, 0))
    add('armas_subvector', 'source is not a vector', notvec)

    def diag(k, lim):
        def case(H):
            full(H, 1)
            R, C, K = H.f(1, 'rows'), H.f(1, 'cols'), H.arg(2)
            if k == 0:
                H.is_(K, 0)
                r, c, a, b, off = 0, 0, R, C, 0
            elif k > 0:
                H.range(K, 1)
                H.le(K, C, -1)
                a, b, off = R, H.sub(C, K), H.mul(K, H.f(1, 'step'))
            else:
                H.range(K, -LIM, -1)
                H.le(H.sub(0, K), R, -1)
                a, b, off = H.add(R, K), C, H.sub(0, K)
            if lim == 'rows':
                H.le(a, b)
                n = a
            else:
                H.le(b, a, -1)
                n = b
            return {'out': {0: {'elems': (H.f(1, 'elems'), H.t(off)), 'rows': 1, 'cols': n, 'step': H.add(H.f(1, 'step'), 1)}},
                    'frame': [0], 'ret': H.arg(0), 'touch': None}
        return case
    for k in (0, 1, -1):
        for lim in ('rows', 'cols'):
            lab = '%s, ended by the %s' % ({0: 'main diagonal', 1: 'diagonal above', -1: 'diagonal below'}[k], {'rows': 'last row', 'cols': 'last column'}[lim])
            add('armas_diag', lab, diag(k, lim))
            add('armas_diag_unsafe', lab, diag(k, lim))

    def make(H):
        return {'out': {0: {'elems': (H.arg(4), 0), 'rows': H.arg(1), 'cols': H.arg(2), 'step': H.arg(3)}}, 'ret': H.arg(0), 'frame': [0], 'touch': None}
    add('armas_make', 'any', make)

    def asrow(H):
        H.is_(H.f(1, 'cols'), 1)
        return {'out': {0: {'elems': (H.f(1, 'elems'), 0), 'rows': 1, 'cols': H.f(1, 'rows'), 'step': 1}}, 'ret': H.arg(0), 'frame': [0], 'touch': None}
    add('armas_col_as_row', 'column vector', asrow)

    # elements
    def at(rn, cn, kind):
        def case(H):
            full(H, 0)
            i, j = index(H, H.arg(1), H.f(0, 'rows'), rn), index(H, H.arg(2), H.f(0, 'cols'), cn)
            off = H.add(i, H.mul(j, H.f(0, 'step')))
            e = H.f(0, 'elems')
            if kind == 'get':
                return {'ret': (e, off), 'touch': (False, e, off), 'frame': []}
            if kind == 'set':
                return {'touch': (True, e, off), 'frame': []}
            return {'ret': off, 'touch': None, 'frame': []}
        return case

    def noel(axis, kind):
        def case(H):
            H.is_(H.f(0, axis), 0)
            d = {'touch': None, 'frame': []}
            if kind == 'get':
                d['ret'] = 0.0
            return d
        return case
    for n, kind in (('get', 'get'), ('set', 'set'), ('index', 'index')):
        for rn in (0, 1):
            for cn in (0, 1):
                add('armas_' + n, 'row from the %s, column from the %s' % (('start', 'end')[rn], ('start', 'end')[cn]), at(rn, cn, kind))
        add('armas_' + n + '_unsafe', 'inside', at(0, 0, kind))
        for axis in ('rows', 'cols'):
            add('armas_' + n, 'matrix without ' + axis, noel(axis, kind))

    def lin(form, neg, kind):
        def case(H):
            R, C, s = H.f(0, 'rows'), H.f(0, 'cols'), H.f(0, 'step')
            k = H.arg(1)
            if form == 'column':
                H.is_(C, 1)
                H.range(R, 1)
                n = R
            elif form == 'row':
                H.is_(R, 1)
                H.range(C, 2)
                H.range(s, 2)
                n = C
            else:
                H.range(R, 2)
                H.range(C, 2)
                n = H.mul(R, C)
                H.le(R, s, 0 if form == 'packed' else -1)
                if form == 'packed':
                    H.A.assume_eq(H.st, R, s)
            i = index(H, k, n, neg)
            if form == 'row':
                off = H.mul(i, s)
            elif form in ('column', 'packed'):
                off = i
            else:
                q = H.A.bin(H.st, 'sdiv', i, R, 'i64')
                off = H.add(H.sub(i, H.mul(q, R)), H.mul(q, s))
            e = H.f(0, 'elems')
            if kind == 'get':
                return {'ret': (e, off), 'touch': (False, e, off), 'frame': []}
            if kind == 'set':
                return {'touch': (True, e, off), 'frame': []}
            return {'ret': off, 'touch': None, 'frame': []}
        return case
    for form in ('column', 'row', 'packed', 'matrix'):
        for neg in (0, 1):
            for n in ('get', 'set'):
                add('armas_%s_at' % n, '%s, index from the %s' % (form, ('start', 'end')[neg]), lin(form, neg, n))
        if form in ('row', 'column'):
            for n in ('get', 'set'):
                add('armas_%s_at_unsafe' % n, form, lin(form, 0, n))
        add('armas_real_index', form, lin(form, 0, 'index'))
    for n in ('get', 'set'):
        for axis in ('rows', 'cols'):
            add('armas_%s_at' % n, 'matrix without ' + axis, noel(axis, n))

    def size(H):
        return {'ret': H.mul(H.f(0, 'rows'), H.f(0, 'cols')), 'touch': None, 'frame': []}
    add('armas_size', 'any', size)

    def isvec(r, c, yes):
        def case(H):
            for t, k in ((H.f(0, 'rows'), r), (H.f(0, 'cols'), c)):
                H.is_(t, k) if k < 2 else H.range(t, 2)
            return {'ret': 'true' if yes else 0, 'touch': None, 'frame': []}
        return case
    for r, c, y in ((1, 2, 1), (2, 1, 1), (1, 1, 1), (2, 2, 0), (0, 2, 0), (2, 0, 0), (0, 0, 0)):
        add('armas_isvector', '%s x %s' % tuple('many' if x == 2 else x for x in (r, c)), isvec(r, c, y))

    def valid(how):
        def case(H):
            full(H, 0)
            n = H.mul(H.f(0, 'rows'), H.f(0, 'cols'))
            k = H.arg(1)
            if how == 'inside':
                H.range(k, 0)
                H.le(k, n, -1)
            elif how == 'from the end':
                H.range(k, -LIM, -1)
                H.le(H.sub(0, k), n)
            elif how == 'beyond':
                H.range(k, 0)
                H.le(n, k)
            else:
                H.range(k, -LIM, -1)
                H.le(n, H.sub(0, k), -1)
            return {'ret': 'true' if how in ('inside', 'from the end') else 0, 'touch': None, 'frame': []}
        return case
    for how in ('inside', 'from the end', 'beyond', 'before the start'):
        add('armas_index_valid', how, valid(how))

    # pivot tables
    def piv(how, kind):
        def case(H):
            k, n = H.arg(1), H.f(0, 'npivots')
            p = H.f(0, 'indexes')
            if how == 'inside':
                H.range(k, 0)
                H.le(k, n, -1)
                return {'ret': (p, k), 'touch': (False, p, k), 'frame': []} if kind == 'get' else {'touch': (True, p, k), 'frame': []}
            if how == 'beyond':
                H.range(k, 0)
                H.le(n, k)
            else:
                H.range(k, -LIM, -1)
            return {'ret': 0, 'touch': None, 'frame': []} if kind == 'get' else {'touch': None, 'frame': []}
        return case
    for n in ('get', 'set'):
        for how in ('inside', 'beyond', 'negative'):
            add('armas_pivot_' + n, how, piv(how, n))
        add('armas_pivot_%s_unsafe' % n, 'inside', piv('inside', n))
    add('armas_pivot_size', 'any', lambda H: {'ret': H.f(0, 'npivots'), 'touch': None, 'frame': []})
    add('armas_pivot_make', 'any', lambda H: {'out': {0: {'indexes': (H.arg(2), 0), 'npivots': H.arg(1), 'owner': 0}}, 'ret': H.arg(0), 'frame': [0], 'touch': None})
    return S


UNIT = ('dlpack.h', 'spdefs.h', 'dtype.h', 'matrix.h', 'internal.h', 'partition.h', 'pivot.h')


def wrap(prec, names):
    """one function per constructor, with everything it calls in the headers in line"""
    api = front.api(prec, headers=UNIT)
    low = {}
    for n in api:
        low.setdefault(ir.cname(n), n)
    txt = '#define __ARMAS_INLINE static\n' + ''.join('#include "%s"\n' % h for h in UNIT)
    have, files = [], {}
    # names after preprocessing, by the names the sources use
    import subprocess
    src = ''.join('#include "%s"\n' % h for h in UNIT) + ''.join('@@%s %s\n' % (n, n) if 0 else '"%s" %s\n' % (n, n) for n in names)
    r = subprocess.run(['clang', '-E', '-P', '-x', 'c', '-D' + prec] + front.DEFS + front.incl() + ['-'], input=src, capture_output=True, text=True)
    real = {}
    for l in r.stdout.splitlines():
        w = l.split()
        if len(w) == 2 and w[0].startswith('"') and w[0].strip('"') in names:
            real[w[0].strip('"')] = w[1]
    for n in names:
        o = api.get(real.get(n, n))
        if o is None or not o['inline']:
            continue
        ps = ['%s p%d' % (t, k) for k, (_, t) in enumerate(o['params'])]
        call = '%s(%s)' % (n, ', '.join('p%d' % k for k in range(len(ps))))
        txt += '%s sa_view_%s(%s) { %s%s; }\n' % (o['ret'], n, ', '.join(ps) or 'void', '' if o['ret'] == 'void' else 'return ', call)
        have.append(n)
        files[n] = o['file']
    pr = {s: s for s in ('ARMAS_PTOP', 'ARMAS_PBOTTOM', 'ARMAS_PLEFT', 'ARMAS_PRIGHT', 'ARMAS_PTOPLEFT', 'ARMAS_PBOTTOMRIGHT')}
    txt += ''.join('int sa_const_%s(void) { return %s; }\n' % (s, s) for s in pr)
    return txt, have, files


def check(c):
    S = cases()
    nf = nc = rets = ob = 0
    trunc = []
    for prec in ('FLOAT64', 'FLOAT32'):
        txt, have, files = wrap(prec, sorted(S))
        M = c.module(prec, text=txt, flags=('--inline-header=2000',))
        E = ir.Effects(M)
        for s in ('ARMAS_PTOP', 'ARMAS_PBOTTOM', 'ARMAS_PLEFT', 'ARMAS_PRIGHT', 'ARMAS_PTOPLEFT', 'ARMAS_PBOTTOMRIGHT'):
            r = [i for b in M.fns['sa_const_' + s].blocks for i in b if i.op == 'ret'][0]
            SIDES[s] = r.a[0][1]
        todo = [(n, k) for n in have for k in range(len(S[n]))]
        nf += len(have)
        nc += len(todo)

        def job(x):
            n, k = x
            f = M.fns['sa_view_' + n]
            lab, case = S[n][k]
            try:
                cl = View(n, f, case)
                A = engine.Analysis(M, E, f, cl)
                A.run()
            except (KeyError, IndexError) as e:
                raise RuntimeError('%s, %s: %r' % (n, lab, e))
            return n, lab, cl.bad, cl.n, cl.rets, A.truncated
        for n, lab, bad, k, rt, tr in c.pmap(job, todo):
            ob += k
            rets += rt
            if tr:
                trunc.append(n)
            if not rt:
                c.report('%s:%s:noreturn' % (n, lab), 'never returns for operands of this case (%s)' % lab, fn=n)
            for key, (w, m) in bad.items():
                c.report('%s:%s' % (n, key), '%s (%s)' % (m, lab), where=('src/include/' + files[n]) if 'sa_unit' in w else w, fn=n)
        M1 = c.module(prec, only=lambda s: s == 'base/matrix.c', flags=('--inline-header=400',))
        E1 = ir.Effects(M1)
        f = M1.f('armas_init')
        for lab in ('nonempty', 'no rows', 'no columns'):
            def case(H, lab=lab):
                H.range(H.arg(1), 1, 1 << 15) if lab != 'no rows' else H.range(H.arg(1), -LIM, 0)
                H.range(H.arg(2), 1, 1 << 15) if lab != 'no columns' else H.range(H.arg(2), -LIM, 0)
                return {'empty': lab != 'nonempty'}
            cl = Alloc('armas_init', f, case)
            cl.elem = 8 if prec == 'FLOAT64' else 4
            A = engine.Analysis(M1, E1, f, cl)
            A.run()
            ob += cl.n
            rets += cl.rets
            nc += 1
            for key, (w, m) in cl.bad.items():
                c.report('armas_init:%s' % key, '%s (%s)' % (m, lab), where=w, fn='armas_init')
    c.cov.update(functions=nf, cases=nc, returns=rets, obligations=ob, discharged=ob - len(c.findings), truncated=trunc,
                 trusted_base=['clang 18 front end', 'lib/engine.py', 'descriptions in lib/checks/views.py'])
    c.require('functions', nf, 40)
    c.require('cases', nc, 180)
    c.require('returns', rets, 180)
    if trunc:
        c.require('functions analysed to the end', -len(trunc), 0)
