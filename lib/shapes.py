"""What is known about operand shapes when a function first touches operand elements, or returns success.

A commit point is the first access to operand elements on a path (a load or store of element type outside the local frame, or a
call of a function that makes one) or a return that may report success.  At each commit point the recorded relations between the
rows, columns and element counts of the operands are tested.
"""
from engine import Analysis, Client
from ir import cname

ELEM = ('double', 'float')


def touching(M):
    """functions that access elements (or may, through an unknown pointer)"""
    base = set()
    for n, f in M.fns.items():
        t = False
        for b in f.blocks:
            for i in b:
                if i.op in ('load', 'store'):
                    ty = i.ty if i.op == 'load' else i.a[2]
                    if ty in ELEM or (isinstance(ty, str) and ty.startswith('<')):
                        t = True
                elif i.op == 'call':
                    c = i.callee()
                    if c is None:
                        t = True
                    elif c.startswith('llvm.mem') and not M.fns.get(c):
                        pass
        if t:
            base.add(n)
    ch = True
    while ch:
        ch = False
        for n, f in M.fns.items():
            if n in base:
                continue
            for i in f.calls():
                if any(t in base for t in M.targets(i)):
                    base.add(n)
                    ch = True
                    break
    return base


class ShapeClient(Client):
    limit = 60

    def __init__(self, S, fn, ops, case, onpoint):
        self.S, self.fn, self.ops, self.case, self.onpoint = S, fn, ops, case, onpoint
        self.npoints = 0
        self.pnz = True
        self._t = None
        self._ret = None
        self.neg = False

    def dims(self, A):
        if self._t is None:
            T = A.T
            d = {}
            for k, (nm, sn) in self.ops.items():
                a = T.mk('arg', k)
                for fl in ('rows', 'cols', 'size', 'nnz', 'kind', 'npivots', 'owner', 'bytes', 'offset'):
                    if fl in A.M.fields.get(sn, ()):
                        d[(k, fl)] = T.mk('ld', T.mk('f', a, sn, fl), 0)
                if 'rows' in A.M.fields.get(sn, ()):
                    d[(k, 'len')] = T.mk('bin', 'mul', d[(k, 'rows')], d[(k, 'cols')])
            for k in range(self.fn.nparams):
                if self.fn.params[k].get('st') == 'armas_wbuf':
                    d[(k, 'wbytes')] = T.mk('ld', T.mk('f', T.mk('arg', k), 'armas_wbuf', 'bytes'), 0)
            for k in range(self.fn.nparams):
                if k not in self.ops and self.fn.params[k]['ty'] in ('i32', 'i64'):
                    d[(k, 'val')] = T.mk('arg', k)
            self._t = d
        return self._t

    def part(self, A, st):
        d = self.dims(A)
        if self._ret is None:
            self._ret = [i.a[0] for b in self.fn.blocks for i in b if i.op == 'ret' and i.a and isinstance(i.a[0], int)]
        neg = tuple(r in st.env and A.fact(st, st.env[r])[1] < 0 for r in self._ret)
        return neg + tuple((k, c) for k, c in ((k, A.T.const(A.rep(st, t))) for k, t in d.items() if k[1] in ('rows', 'cols', 'wbytes')) if c in (0, 1))

    def init(self, A, st):
        T = A.T
        for k in self.ops:
            if self.ops[k][1] != 'armas_pivot' or self.pnz:
                A.setfact(st, A.T.mk('arg', k), nz=True)
        d = self.dims(A)
        for (k, fl), t in d.items():
            if fl == 'wbytes':
                A.setfact(st, t, lo=0)
                st.mem[T.tab[t][1]] = t
            if fl in ('rows', 'cols', 'nnz', 'npivots', 'owner'):
                A.setfact(st, t, lo=0)
                a = A.T.tab[t][1]
                st.mem[a] = t
        for k, (mask, val) in self.case.items():
            if mask == 'dim':
                A.setfact(st, d[k], val, val)
            elif mask == 'wb':
                if val == 'null':
                    A.assume_eq(st, T.mk('arg', k), T.zero)
                else:
                    A.setfact(st, T.mk('arg', k), nz=True)
                    A.setfact(st, d[(k, 'wbytes')], **(dict(hi=0) if val == 'query' else dict(lo=1)))
            else:
                A.setfact(st, A.T.mk('arg', k), km=mask, kv=val)
        return False

    def pinned(self, A, st):
        return list(self.dims(A).values())

    def keepmem2(self, A, st, a, v):
        return False

    def query(self, A, st):
        """does the path hold a workspace block without any bytes (a size query)?"""
        for k, p in enumerate(self.fn.params):
            if p.get('st') == 'armas_wbuf':
                a = A.T.mk('f', A.T.mk('arg', k), 'armas_wbuf', 'bytes')
                if A.T.const(A.rep(st, A.T.mk('ld', a, 0))) == 0:
                    return True
        return False

    def point(self, A, st, ins, kind):
        self.npoints += 1
        self.onpoint(self, A, st, ins, kind)
        return []

    def done(self, st):
        return bool(st.ps)

    def local(self, A, addr):
        x = A.T.tab[A.root(addr)]
        return x[0] in ('al', 'g') or x[0] == 'arg' and (self.fn.params[x[1]].get('st') or '').startswith('armas_conf')

    def on_load(self, A, st, ins, addr):
        if ins.ty in ELEM and not self.local(A, addr) and not st.ps:
            self.point(A, st, ins, 'element read')
            st.ps = True

    def on_store(self, A, st, ins, addr, val):
        if ins.a[2] in ELEM and not self.local(A, addr) and not st.ps:
            self.point(A, st, ins, 'element write')
            st.ps = True

    def on_call(self, A, st, ins, args):
        if st.ps:
            return []
        tg = A.M.targets(ins)
        c = ins.callee()
        if c and c.startswith('llvm.'):
            return None
        if len(tg) == 1 and c in A.M.fns and (c in self.S.touch or self.S.tests(c)):
            r = self.S.apply(self, A, st, ins, args, c)
            if r is not None:
                return r
        if c is None or any(t in self.S.touch for t in tg):
            if any(self.carries(A, st, a) for a in args):
                self.point(A, st, ins, 'call of %s' % cname(c or 'a pointer'))
                return []
        return None

    def carries(self, A, st, a):
        """does an argument give access to operand elements?"""
        x = A.T.tab[A.root(a)]
        if x[0] == 'arg':
            return x[1] in self.ops
        if x[0] == 'al':
            r = A.root(a)
            return any(A.root(m) == r and A.T.tab[A.root(v)][0] not in ('c', 'al') for m, v in st.mem.items())
        return x[0] in ('ld', 'phi', 'phm', 'call', 'opq', 'st')

    def on_ret(self, A, st, ins, val):
        if st.ps:
            return
        if val is not None and (self.fn.ret or '') in ('i32', 'i64', 'int'):
            lo, hi = A.fact(st, val)[:2]
            self.neg = self.neg or lo < 0
            if hi < 0:
                return
        self.retc = A.T.const(A.rep(st, val)) if val is not None else None
        self.point(A, st, ins, 'return')


DIMS = ('rows', 'cols', 'len', 'npivots', 'val')


class Shapes:
    def __init__(self, M, E):
        self.M, self.E = M, E
        self.touch = touching(M)
        self.memo = {}
        self.stack = []
        self.runs = 0

    def ops(self, f):
        o = {}
        for k, p in enumerate(f.params):
            dt = p.get('dt', '')
            sn = p.get('st')
            if sn in ('armas_d_dense', 'armas_s_dense', 'armas_sparse', 'armas_pivot') and dt.count('*') == 1:
                o[k] = (p['name'], sn)
        return o

    def tests(self, t):
        """does a function that touches no elements examine operands for its caller?"""
        f = self.M.fns[t]
        return len(self.ops(f)) > 0 and f.ret in ('i32', 'int', 'i1', '_Bool') and len(f.blocks) > 1

    def relations(self, cl, A, st):
        """what is known about the operands, in terms of the function's own parameters"""
        d = cl.dims(A)
        ks = [k for k in sorted(d) if k[1] in DIMS]
        P = {k: A.poly(st, d[k]) for k in ks}
        out = set()
        for i, a in enumerate(ks):
            c = A.T.const(A.rep(st, d[a]))
            if c is not None:
                out.add(('c', a, c))
                continue
            for b in ks[i + 1:]:
                if P[a] == P[b]:
                    out.add(('==', a, b))
                elif a[1] != 'len' and b[1] != 'len' and A.T.const(A.rep(st, d[b])) is None:
                    if A.le(st, d[a], d[b]):
                        out.add(('<=', a, b))
                    if A.le(st, d[b], d[a]):
                        out.add(('<=', b, a))
        return frozenset(out)

    def outcomes(self, t, case):
        """[(kind, relations)] of the commit points of t, or None when it gives none"""
        key = (t, tuple(sorted(case.items())))
        if key in self.memo:
            return self.memo[key]
        if t in self.stack or len(self.stack) > 4:
            return None
        f = self.M.fns[t]
        if not self.ops(f) or (f.ret or '') not in ('i32', 'i64', 'int'):
            return None
        self.stack.append(t)
        acc = {'elem': set(), 'return': set()}

        def onpoint(cl, A, st, ins, kind):
            r = self.relations(cl, A, st)
            if kind == 'return' and cl.retc is not None:
                acc.setdefault('return=%d' % cl.retc, set()).add(r)
            else:
                acc['return' if kind == 'return' else 'elem'].add(r)
        cl, A = self.run(f, case, onpoint)
        self.stack.pop()
        out = []
        for kind, sets in acc.items():
            # drop the stronger of two comparable sets; too many: their intersection
            sets = [x for x in sets if not any(y < x for y in sets)]
            if len(sets) > 8:
                sets = [frozenset.intersection(*sets)]
            out += [(kind, x) for x in sets]
        if A.truncated or any(k == 'elem' and not x for k, x in out) and not any(x for k, x in out if k == 'elem'):
            out = None
        if out is not None and cl.neg:
            out.append(('neg', frozenset()))
        self.memo[key] = out
        return out

    def term(self, A, st, args, k, fl, f):
        T = A.T
        if fl == 'val':
            return args[k]
        sn = f.params[k].get('st')
        g = lambda x: A.load(st, T.mk('f', args[k], sn, x))
        if fl == 'len':
            return T.mk('bin', 'mul', g('rows'), g('cols'))
        return g(fl)

    def apply(self, cl, A, st, ins, args, t):
        f = self.M.fns[t]
        case = {}
        for k in range(min(f.nparams, len(args))):
            p = f.params[k]
            if p['ty'] == 'i32' and p['name'] in ('flags', 'bits'):
                fa = A.fact(st, args[k])
                if fa[2]:
                    case[k] = (fa[2], fa[3])
        T = A.T
        wk = [k for k in range(min(f.nparams, len(args))) if f.params[k].get('st') == 'armas_wbuf']
        todo = [(st, case)]
        if len(wk) == 1:
            k = wk[0]
            todo = []
            s0, s1 = st.copy(), st.copy()
            if A.assume_eq(s0, args[k], T.zero):
                todo.append((s0, dict(case, **{})))
                todo[-1][1][k] = ('wb', 'null')
            if A.setfact(s1, args[k], nz=True):
                b = A.load(s1, T.mk('f', args[k], 'armas_wbuf', 'bytes'))
                for nm, kw in (('query', dict(lo=0, hi=0)), ('work', dict(lo=1))):
                    s2 = s1.copy()
                    if A.setfact(s2, b, **kw):
                        todo.append((s2, dict(case)))
                        todo[-1][1][k] = ('wb', nm)
        res = []
        for s, cs in todo:
            r = self.apply1(cl, A, s, ins, args, t, f, cs)
            if r is None:
                return None
            res += r
        return res

    def apply1(self, cl, A, st, ins, args, t, f, case):
        outs = self.outcomes(t, case)
        if outs is None:
            return None
        T = A.T
        res = []
        A.redefine(st, ins.id)
        for kind, rel in outs:
            if kind == 'neg':
                continue
            s = st.copy()
            ok = True
            for r in sorted(rel, key=str):
                x = self.term(A, s, args, r[1][0], r[1][1], f)
                y = T.c(r[2]) if r[0] == 'c' else self.term(A, s, args, r[2][0], r[2][1], f)
                ok = A.assume_eq(s, x, y) if r[0] in ('c', '==') else A.add_rel(s, x, y, 0)
                if not ok:
                    break
            if not ok:
                continue
            if kind == 'elem':
                cl.point(A, s, ins, 'call of %s' % cname(t))
            else:
                A.default_call(s, ins, args)
                c = int(kind[7:]) if kind != 'return' else None
                if ins.id in s.env and (A.setfact(s, s.env[ins.id], lo=0) if c is None else A.assume_eq(s, s.env[ins.id], T.c(c))):
                    res.append(s)
        s = st.copy()
        A.default_call(s, ins, args)
        if any(k in ('neg', 'elem') for k, _ in outs) and ins.id in s.env and A.setfact(s, s.env[ins.id], hi=-1):
            res.append(s)
        return res

    def run(self, f, case, onpoint):
        cl = ShapeClient(self, f, self.ops(f), case, onpoint)
        A = Analysis(self.M, self.E, f, cl, maxsteps=250000)
        A.run()
        self.runs += 1
        return cl, A
