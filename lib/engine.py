"""Path-sensitive abstract interpretation over the exported IR.

States are (environment, memory, facts, client state).  Values are interned terms; facts are intervals,
known bits, non-zeroness, equalities (union-find by substitution) and difference bounds between terms.
At most `limit` states are kept per block; beyond it, states with equal client state are joined
(fewer facts kept), so the exploration terminates and over-approximates the executions.
No decision procedure / solver is involved: branch feasibility is decided by the domains alone.
"""
import heapq
from collections import defaultdict
from ir import NORETURN, cname

BIG = 1 << 62


class Terms:
    def __init__(self):
        self.tab = []
        self.idx = {}
        self.dep = []
        self.depth = []
        self.zero = self.c(0)

    def mk(self, *t):
        i = self.idx.get(t)
        if i is None:
            i = len(self.tab)
            self.idx[t] = i
            self.tab.append(t)
            d = frozenset()
            k = t[0]
            if k in ('call', 'opq', 'clob', 'res'):
                d = frozenset((t[1],))
            if k == 'phi':
                d = frozenset((('p', t[1]),))
            if k == 'st':
                d = frozenset((('s', t[1]),))
            if k == 'ld' and t[2]:
                d = frozenset((t[2],))
            if k == 'phm':
                d = frozenset((('m', t[1]),))
            dp = 0
            for x in t[1:]:
                if type(x) is Ref:
                    d = d | self.dep[x]
                    if self.depth[x] >= dp:
                        dp = self.depth[x] + 1
            self.dep.append(d)
            self.depth.append(dp)
        return Ref(i)

    def c(self, v):
        return self.mk('c', int(v))

    def get(self, i):
        return self.tab[i]

    def const(self, t):
        x = self.tab[t]
        return x[1] if x[0] == 'c' else None

    def subterms(self, t, out=None):
        out = set() if out is None else out
        st = [t]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            for y in self.tab[x][1:]:
                if type(y) is Ref:
                    st.append(y)
        return out

    def show(self, t, fn=None, d=0):
        x = self.tab[t]
        k = x[0]
        if d > 8:
            return '..'
        s = lambda y: self.show(y, fn, d + 1)
        if k == 'c':
            return str(x[1])
        if k == 'arg':
            return fn.pname(x[1]) if fn else 'arg%d' % x[1]
        if k == 'al':
            return '&' + ((fn.names.get(x[1]) if fn else None) or 'local%d' % x[1])
        if k == 'g':
            return cname(x[1])
        if k == 'f':
            return '%s.%s' % (s(x[1]), x[3])
        if k == 'ix':
            return '%s[%s]' % (s(x[1]), s(x[3]))
        if k == 'ld':
            a = s(x[1])
            b = self.tab[x[1]]
            r = a[1:] if a.startswith('&') else (a if b[0] == 'f' else '*' + a)
            return r + ("'" if x[2] else '')
        if k == 'bin':
            return '(%s %s %s)' % (s(x[2]), x[1], s(x[3]))
        if k == 'cmp':
            return '(%s %s %s)' % (s(x[2]), x[1], s(x[3]))
        if k == 'call':
            n = ''
            if fn and x[1] in fn.ins and fn.ins[x[1]].op == 'call':
                n = cname(fn.ins[x[1]].callee() or 'indirect')
            return '%s()' % (n or 'call')
        if k in ('phi', 'st', 'opq'):
            n = fn.names.get(x[1]) if fn else None
            return n or '%s%s' % (k, x[1])
        return '%s(%s)' % (k, ','.join(s(y) if type(y) is Ref else str(y) for y in x[1:]))


class Ref(int):
    __slots__ = ()


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
        'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}
COMM = {'add', 'mul', 'and', 'or', 'xor', 'fadd', 'fmul'}

TOPF = (-BIG, BIG, 0, 0, False)


class State:
    __slots__ = ('env', 'mem', 'facts', 'eq', 'rel', 'ep', 'ps', 'trail', 'pred')

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.facts = {}
        self.eq = {}
        self.rel = {}
        self.ep = {}
        self.ps = None
        self.trail = None
        self.pred = -1

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.eq = dict(self.eq)
        s.rel = dict(self.rel)
        s.ep = dict(self.ep)
        s.ps = self.ps
        s.trail = self.trail
        s.pred = self.pred
        return s


class Client:
    """override what is needed; ps must be hashable"""
    limit = 24
    pin = ()
    distinct = False      # operands are different objects

    def init(self, A, st):
        return None

    def on_call(self, A, st, ins, args):
        """before the default treatment; return None, or a list of states that replaces it"""
        return None

    def after_call(self, A, st, ins, args):
        pass

    def done(self, st):
        """true when nothing the client looks for can follow on this path"""
        return False

    def on_load(self, A, st, ins, addr):
        pass

    def on_store(self, A, st, ins, addr, val):
        pass

    def on_ret(self, A, st, ins, val):
        pass

    def on_branch(self, A, st, ins, cond):
        pass

    def pinned(self, A, st):
        return ()

    def join(self, A, a, b):
        return None

    loopvars = False      # counters of loops are variables from the start
    edge = None          # edge(A, st, b, n): may drop the state on its way from block b to block n

    relsub = False        # differences of ordered values are not negative

    def part(self, A, st):
        """states of different parts are not joined"""
        return None


class Analysis:
    def __init__(self, M, E, fn, client, limit=None, maxsteps=400000):
        self.M, self.E, self.fn, self.cl = M, E, fn, client
        self.T = Terms()
        self.limit = limit or client.limit
        self.maxsteps = maxsteps
        self.steps = 0
        self.truncated = False
        self.visits = 0
        self.paths = 0

    # ---- terms and facts -------------------------------------------------
    def rep(self, st, t):
        e = st.eq
        while t in e:
            t = e[t]
        return t

    def fact(self, st, t, d=0):
        t = self.rep(st, t)
        if d > 20:
            return st.facts.get(t, TOPF)
        x = self.T.tab[t]
        k = x[0]
        if k == 'c':
            v = x[1]
            return (v, v, -1, v, v != 0)
        if k in ('al', 'g'):
            return (1, BIG, 0, 0, True)
        f = st.facts.get(t)
        if f is None:
            f = TOPF
        if k == 'cmp' or k == 'fcmp':
            f = (max(f[0], 0), min(f[1], 1), f[2], f[3], f[4])
        elif k in ('f', 'ix'):
            if k == 'f' or self.T.tab[x[1]][0] in ('al', 'g', 'f'):
                return (1, BIG, 0, 0, True)
            return f
        elif k == 'bin':
            f = self.binrange(st, x, f, d)
        elif k == 'zx':
            g = self.fact(st, x[1], d + 1)
            if g[0] >= 0:
                f = (max(f[0], g[0]), min(f[1], g[1]), f[2] | g[2], f[3] | g[3], f[4] or g[4])
            else:
                f = (max(f[0], 0), f[1], f[2], f[3], f[4] or g[4])
        elif k == 'sizeof8':
            pass
        return f

    def binrange(self, st, x, f, d=0):
        op = x[1]
        if op not in ('add', 'sub', 'mul', 'and', 'lshr', 'udiv', 'sdiv', 'or', 'srem', 'urem', 'shl', 'xor', 'ashr'):
            return f
        a = self.fact(st, x[2], d + 1)
        b = self.fact(st, x[3], d + 1)
        lo, hi, km, kv, nz = f
        L, H = -BIG, BIG
        if op == 'add':
            if a[0] > -BIG and b[0] > -BIG:
                L = a[0] + b[0]
            if a[1] < BIG and b[1] < BIG:
                H = a[1] + b[1]
        elif op == 'sub':
            if a[0] > -BIG and b[1] < BIG:
                L = a[0] - b[1]
            if a[1] < BIG and b[0] > -BIG:
                H = a[1] - b[0]
        elif op == 'mul':
            if a[0] >= 0 and b[0] >= 0:
                L = a[0] * b[0]
                if a[1] < BIG and b[1] < BIG:
                    H = a[1] * b[1]
                if a[4] and b[4]:
                    nz = True
        elif op == 'and':
            if b[2] == -1 and b[3] >= 0:
                L, H = 0, b[3]
            elif a[2] == -1 and a[3] >= 0:
                L, H = 0, a[3]
            if a[0] >= 0 and b[0] >= 0:
                L = 0
                H = min(H, a[1], b[1])
            elif a[0] >= 0 and b[2] == -1 and b[3] < 0:
                L, H = 0, a[1]
            # known bits
            one = (a[2] & a[3]) & (b[2] & b[3])
            zero = (a[2] & ~a[3]) | (b[2] & ~b[3])
            km |= one | zero
            kv = (kv | one) & ~zero
            if one:
                nz = True
        elif op == 'or':
            one = (a[2] & a[3]) | (b[2] & b[3])
            zero = (a[2] & ~a[3]) & (b[2] & ~b[3])
            km |= one | zero
            kv = (kv | one) & ~zero
            if one:
                nz = True
            if a[0] >= 0 and b[0] >= 0:
                L = 0
        elif op in ('lshr', 'udiv', 'sdiv', 'ashr'):
            if a[0] >= 0:
                L = 0
                H = a[1]
                if op in ('udiv', 'sdiv') and b[2] == -1 and b[3] > 0:
                    L = a[0] // b[3]
                    H = a[1] // b[3] if a[1] < BIG else BIG
                elif op in ('lshr', 'ashr') and b[2] == -1 and 0 <= b[3] < 63 and a[1] < BIG:
                    L = a[0] >> b[3]
                    H = a[1] >> b[3]
        elif op in ('srem', 'urem'):
            if b[2] == -1 and b[3] > 0:
                H = b[3] - 1
                L = 0 if (a[0] >= 0 or op == 'urem') else -(b[3] - 1)
        elif op == 'shl':
            if a[0] >= 0 and b[2] == -1 and 0 <= b[3] < 62:
                L = a[0] << b[3]
                if a[1] < BIG:
                    H = min(BIG, a[1] << b[3])
        lo = max(lo, L)
        hi = min(hi, H)
        if lo > 0 or hi < 0:
            nz = True
        return (lo, hi, km, kv, nz)

    def setfact(self, st, t, lo=-BIG, hi=BIG, km=0, kv=0, nz=False):
        """returns False when contradictory"""
        t = self.rep(st, t)
        f = self.fact(st, t)
        if (f[2] & km) & (f[3] ^ kv):
            return False
        lo = max(lo, f[0])
        hi = min(hi, f[1])
        km |= f[2]
        kv = kv | f[3]
        nz = nz or f[4]
        if nz and lo == 0:
            lo = 1
        if nz and hi == 0:
            hi = -1
        if lo > hi:
            return False
        if lo == hi and km != -1:
            if km & (lo ^ kv):
                return False
            km, kv = -1, lo
        if km == -1 and not (lo <= kv <= hi):
            return False
        if kv & km and lo >= 0:
            nz = True
        if nz and km == -1 and kv == 0:
            return False
        x = self.T.tab[t]
        if x[0] == 'c':
            return True
        if lo == hi:
            c = self.T.c(lo)
            st.facts.pop(t, None)
            st.eq[t] = c
            return self.on_const(st, t, lo)
        st.facts[t] = (lo, hi, km, kv, nz)
        return True

    def on_const(self, st, t, v):
        """consequences of t == v for composite t"""
        x = self.T.tab[t]
        if x[0] == 'cmp':
            return self.assume_cmp(st, x[1], x[2], x[3], bool(v))
        if x[0] == 'bin':
            op, a, b = x[1], x[2], x[3]
            cb = self.T.const(self.rep(st, b))
            if op == 'and' and cb is not None:
                return self.setfact(st, a, km=cb, kv=v & cb)
            if op == 'add' and cb is not None:
                return self.setfact(st, a, v - cb, v - cb)
            if op == 'sub' and cb is not None:
                return self.setfact(st, a, v + cb, v + cb)
            ca = self.T.const(self.rep(st, a))
            if op == 'sub' and ca is not None and cb is None:
                return self.setfact(st, b, ca - v, ca - v)
            if op == 'or' and v == 0:
                return self.setfact(st, a, 0, 0) and self.setfact(st, b, 0, 0)
            if op == 'and' and v == 1 and len(x) > 4:
                return self.setfact(st, a, 1, 1) and self.setfact(st, b, 1, 1)
            if op in ('sub', 'xor') and v == 0:
                return self.assume_eq(st, a, b)
            if op == 'xor' and cb is not None:
                return self.setfact(st, a, v ^ cb, v ^ cb)
            if op == 'mul' and cb not in (None, 0) and v % cb == 0:
                return self.setfact(st, a, v // cb, v // cb)
        if x[0] == 'zx':
            return self.setfact(st, x[1], v, v)
        return True

    def assume_eq(self, st, a, b):
        a, b = self.rep(st, a), self.rep(st, b)
        if a == b:
            return True
        ca, cb = self.T.const(a), self.T.const(b)
        if ca is not None and cb is not None:
            return ca == cb
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        if cb is not None:
            return self.setfact(st, a, cb, cb)
        ka, kb = self.T.tab[a][0], self.T.tab[b][0]
        if {ka, kb} <= {'al', 'g', 'f'} and ka in ('al', 'g') and kb in ('al', 'g'):
            return False
        if self.occurs(st, a, b):
            if self.occurs(st, b, a) or self.le(st, a, b, -1) or self.le(st, b, a, -1):
                return not (self.le(st, a, b, -1) or self.le(st, b, a, -1))
            a, b = b, a
        elif ka == kb == 'ld' and a < b:
            # the same one whatever path the equality was learned on
            a, b = b, a
        fa = st.facts.pop(a, None)
        st.eq[a] = b
        if fa:
            if not self.setfact(st, b, *fa):
                return False
        # re-key relations
        if st.rel:
            for (x, y) in list(st.rel):
                if x == a or y == a:
                    k = st.rel.pop((x, y))
                    n = (b if x == a else x, b if y == a else y)
                    if n[0] == n[1]:
                        if k < 0:
                            return False
                        continue
                    st.rel[n] = min(k, st.rel.get(n, BIG))
        return True

    def occurs(self, st, a, b):
        """does a occur inside b (through representatives)?"""
        T = self.T
        seen = set()
        work = [b]
        while work:
            x = work.pop()
            for y in T.tab[x][1:]:
                if type(y) is Ref:
                    y = self.rep(st, y)
                    if y == a:
                        return True
                    if y not in seen:
                        seen.add(y)
                        work.append(y)
        return False

    def lin(self, st, t, d=0):
        """term as (dict atom->coef, const)"""
        t = self.rep(st, t)
        x = self.T.tab[t]
        if x[0] == 'c':
            return {}, x[1]
        if x[0] == 'bin' and d < 8:
            if x[1] in ('add', 'sub'):
                a, ca = self.lin(st, x[2], d + 1)
                b, cb = self.lin(st, x[3], d + 1)
                s = 1 if x[1] == 'add' else -1
                r = dict(a)
                for k, v in b.items():
                    r[k] = r.get(k, 0) + s * v
                    if r[k] == 0:
                        del r[k]
                return r, ca + s * cb
            if x[1] == 'mul':
                c = self.T.const(self.rep(st, x[3]))
                o = x[2]
                if c is None:
                    c = self.T.const(self.rep(st, x[2]))
                    o = x[3]
                if c is not None:
                    a, ca = self.lin(st, o, d + 1)
                    return {k: v * c for k, v in a.items() if v * c}, ca * c
            if x[1] == 'shl':
                c = self.T.const(self.rep(st, x[3]))
                if c is not None and 0 <= c < 32:
                    a, ca = self.lin(st, x[2], d + 1)
                    return {k: v << c for k, v in a.items()}, ca << c
        if x[0] == 'zx' and self.fact(st, x[1])[0] >= 0:
            return self.lin(st, x[1], d + 1)
        return {t: 1}, 0

    def poly(self, st, t, d=0):
        """term as polynomial: dict sorted-tuple-of-atoms -> coef"""
        t = self.rep(st, t)
        x = self.T.tab[t]
        if x[0] == 'c':
            return {(): x[1]} if x[1] else {}
        if x[0] == 'bin' and d < 14:
            if x[1] in ('add', 'sub'):
                a = self.poly(st, x[2], d + 1)
                b = self.poly(st, x[3], d + 1)
                s = 1 if x[1] == 'add' else -1
                r = dict(a)
                for k, v in b.items():
                    r[k] = r.get(k, 0) + s * v
                    if r[k] == 0:
                        del r[k]
                return r
            if x[1] == 'mul':
                a = self.poly(st, x[2], d + 1)
                b = self.poly(st, x[3], d + 1)
                if len(a) * len(b) <= 64:
                    r = {}
                    for k1, v1 in a.items():
                        for k2, v2 in b.items():
                            k = tuple(sorted(k1 + k2))
                            r[k] = r.get(k, 0) + v1 * v2
                            if r[k] == 0:
                                del r[k]
                    return r
            if x[1] == 'shl':
                c = self.T.const(self.rep(st, x[3]))
                if c is not None and 0 <= c < 32:
                    return {k: v << c for k, v in self.poly(st, x[2], d + 1).items()}
        if x[0] == 'zx':
            return self.poly(st, x[1], d + 1)
        return {(t,): 1}

    def relbound(self, st, a, b):
        """smallest known k with a - b <= k (atoms), or None"""
        a, b = self.rep(st, a), self.rep(st, b)
        if a == b:
            return 0
        best = None
        fa, fb = self.fact(st, a), self.fact(st, b)
        if fa[1] < BIG and fb[0] > -BIG:
            best = fa[1] - fb[0]
        if st.rel:
            # Bellman-Ford style search on few edges
            dist = {a: 0}
            work = [a]
            n = 0
            while work and n < 200:
                n += 1
                u = work.pop()
                for (p, q), k in st.rel.items():
                    if p == u:
                        nd = dist[u] + k
                        if nd < dist.get(q, BIG):
                            dist[q] = nd
                            work.append(q)
            if b in dist and (best is None or dist[b] < best):
                best = dist[b]
            # bounds through intervals of intermediate nodes
            if fb[0] > -BIG:
                for q, k in dist.items():
                    hq = self.fact(st, q)[1]
                    if hq < BIG and (best is None or k + hq - fb[0] < best):
                        best = k + hq - fb[0]
        return best

    def le(self, st, a, b, k=0):
        """is a - b <= k provable?"""
        A, ca = self.lin(st, a)
        B, cb = self.lin(st, b)
        D = dict(A)
        for t, v in B.items():
            D[t] = D.get(t, 0) - v
            if D[t] == 0:
                del D[t]
        c = ca - cb
        k = k - c        # sum(D) <= k ?
        return self.sumle(st, D, k)

    def sumle(self, st, D, k):
        if not D:
            return 0 <= k
        if len(D) > 5:
            return False
        pos = [(t, v) for t, v in D.items() if v > 0]
        neg = [(t, v) for t, v in D.items() if v < 0]
        # simple upper bound by intervals
        ub = 0
        for t, v in D.items():
            f = self.fact(st, t)
            x = f[1] if v > 0 else f[0]
            if abs(x) >= BIG:
                ub = None
                break
            ub += v * x
        if ub is not None and ub <= k:
            return True
        # pair a positive with a negative atom
        for (t, v) in pos:
            for (u, w) in neg:
                m = min(v, -w)
                rb = self.relbound(st, t, u)
                if rb is not None:
                    D2 = dict(D)
                    D2[t] -= m
                    D2[u] += m
                    D2 = {a: b for a, b in D2.items() if b}
                    if self.sumle(st, D2, k - m * rb):
                        return True
        # relations recorded on composite terms: a - b <= c with lin(a), lin(b)
        for (p, q), c in st.rel.items():
            P, cp = self.lin(st, p)
            Q, cq = self.lin(st, q)
            if len(P) + len(Q) <= 2:
                continue
            R = dict(P)
            for t, v in Q.items():
                R[t] = R.get(t, 0) - v
                if R[t] == 0:
                    del R[t]
            # sum(R) <= c - cp + cq
            if R and all(D.get(t, 0) == v for t, v in R.items()):
                D2 = {t: v for t, v in D.items() if t not in R}
                if self.sumle(st, D2, k - (c - cp + cq)):
                    return True
        return False

    def add_rel(self, st, a, b, k):
        """record a - b <= k"""
        a, b = self.rep(st, a), self.rep(st, b)
        if a == b:
            return k >= 0
        A, ca = self.lin(st, a)
        B, cb = self.lin(st, b)
        if len(A) == 1 and len(B) == 1:
            (x, vx), (y, vy) = list(A.items())[0], list(B.items())[0]
            if vx == 1 and vy == 1:
                kk = k - ca + cb
                if x == y:
                    return kk >= 0
                # contradiction with reverse edge
                r = self.relbound(st, y, x)
                if r is not None and r + kk < 0:
                    return False
                if kk < st.rel.get((x, y), BIG):
                    st.rel[(x, y)] = kk
                fx, fy = self.fact(st, x), self.fact(st, y)
                if fy[1] < BIG and not self.setfact(st, x, hi=fy[1] + kk):
                    return False
                if fx[0] > -BIG and not self.setfact(st, y, lo=fx[0] - kk):
                    return False
                return True
        if len(A) == 0 and len(B) == 0:
            return ca - cb <= k
        D = dict(A)
        for t, v in B.items():
            D[t] = D.get(t, 0) - v
            if D[t] == 0:
                del D[t]
        kk = k - ca + cb
        # contradiction: -D <= -kk-1 provable
        if self.sumle(st, {t: -v for t, v in D.items()}, -kk - 1):
            return False
        if len(D) == 2:
            (x, vx), (y, vy) = list(D.items())
            if vx == -1 and vy == 1:
                x, vx, y, vy = y, vy, x, vx
            if vx == 1 and vy == -1:
                if kk < st.rel.get((x, y), BIG):
                    st.rel[(x, y)] = kk
                return True
        if len(D) == 1:
            (x, vx), = D.items()
            if vx == 1:
                return self.setfact(st, x, hi=kk)
            if vx == -1:
                return self.setfact(st, x, lo=-kk)
        if (a, b) not in st.rel or k < st.rel[(a, b)]:
            st.rel[(a, b)] = k
        return True

    def decide_cmp(self, st, p, a, b):
        """True / False / None"""
        a, b = self.rep(st, a), self.rep(st, b)
        if a == b:
            return p in ('eq', 'sle', 'sge', 'ule', 'uge')
        fa, fb = self.fact(st, a), self.fact(st, b)
        if p in ('eq', 'ne'):
            r = None
            if fa[2] == -1 and fb[2] == -1:
                r = fa[3] == fb[3]
            elif fa[0] > fb[1] or fb[0] > fa[1]:
                r = False
            elif (fa[2] & fb[2]) & (fa[3] ^ fb[3]):
                r = False
            elif fb[2] == -1 and fb[3] == 0 and fa[4]:
                r = False
            elif fa[2] == -1 and fa[3] == 0 and fb[4]:
                r = False
            else:
                ka, kb = self.T.tab[a][0], self.T.tab[b][0]
                if ka in ('al', 'g') and kb in ('al', 'g'):
                    r = False
                elif st.facts.get(self.T.mk('cmp', 'eq', *sorted((a, b)))) is None and \
                        self.T.const(self.rep(st, self.T.mk('cmp', 'eq', *sorted((a, b))))) is not None:
                    r = bool(self.T.const(self.rep(st, self.T.mk('cmp', 'eq', *sorted((a, b))))))
                elif st.rel and (self.le(st, a, b, -1) or self.le(st, b, a, -1)):
                    r = False
            if r is None:
                return None
            return r if p == 'eq' else not r
        if p[0] == 'u':
            if fa[0] >= 0 and fb[0] >= 0:
                p = 's' + p[1:]
            elif p == 'ult' and fb[2] == -1 and fb[3] == 0:
                return False
            else:
                c = self.T.const(self.rep(st, self.T.mk('cmp', p, a, b)))
                return None if c is None else bool(c)
        if p == 'slt':
            if self.le(st, a, b, -1):
                return True
            if self.le(st, b, a, 0):
                return False
        elif p == 'sle':
            if self.le(st, a, b, 0):
                return True
            if self.le(st, b, a, -1):
                return False
        elif p == 'sgt':
            return self.decide_cmp(st, 'slt', b, a)
        elif p == 'sge':
            return self.decide_cmp(st, 'sle', b, a)
        return None

    def assume_cmp(self, st, p, a, b, truth):
        if not truth:
            p = NEG[p]
        a, b = self.rep(st, a), self.rep(st, b)
        d = self.decide_cmp(st, p, a, b)
        if d is False:
            return False
        if d is True and p not in ('eq',):
            return True
        ca, cb = self.T.const(a), self.T.const(b)
        if ca is not None and cb is None:
            a, b, ca, cb = b, a, cb, ca
            p = SWAP[p]
        if p == 'eq':
            return self.assume_eq(st, a, b)
        if p == 'ne':
            if cb is not None:
                x = self.T.tab[a]
                if cb == 0:
                    if x[0] == 'bin' and x[1] == 'and':
                        c = self.T.const(self.rep(st, x[3]))
                        if c is not None and c > 0 and c & (c - 1) == 0:
                            if not self.setfact(st, x[2], km=c, kv=c):
                                return False
                    if x[0] == 'bin' and x[1] == 'mul':
                        if not (self.setfact(st, x[2], nz=True) and self.setfact(st, x[3], nz=True)):
                            return False
                    if x[0] == 'bin' and x[1] in ('sub', 'xor'):
                        if not self.assume_cmp(st, 'ne', x[2], x[3], True):
                            return False
                    if x[0] in ('cmp', 'fcmp') or (x[0] == 'bin' and len(x) > 4 and x[4] == 1):
                        return self.setfact(st, a, 1, 1)
                    if x[0] == 'zx' and not self.setfact(st, x[1], nz=True):
                        return False
                    return self.setfact(st, a, nz=True)
                f = self.fact(st, a)
                if f[0] == cb:
                    return self.setfact(st, a, lo=cb + 1)
                if f[1] == cb:
                    return self.setfact(st, a, hi=cb - 1)
            k = self.T.mk('cmp', 'eq', *sorted((a, b)))
            st.eq[k] = self.T.zero
            if st.rel:
                # sharpen <= to <
                if self.le(st, a, b, 0):
                    return self.add_rel(st, a, b, -1)
                if self.le(st, b, a, 0):
                    return self.add_rel(st, b, a, -1)
            return True
        if p[0] == 'u':
            fa, fb = self.fact(st, a), self.fact(st, b)
            if fa[0] >= 0 and fb[0] >= 0:
                p = 's' + p[1:]
            elif p in ('ult', 'ule') and fb[0] >= 0 and fb[1] < (1 << 62):
                if not self.setfact(st, a, lo=0):
                    return False
                p = 's' + p[1:]
            elif p in ('ugt', 'uge') and fa[0] >= 0 and fa[1] < (1 << 62):
                if not self.setfact(st, b, lo=0):
                    return False
                p = 's' + p[1:]
            else:
                st.eq[self.T.mk('cmp', p, a, b)] = self.T.c(1)
                st.eq[self.T.mk('cmp', NEG[p], a, b)] = self.T.zero
                if p == 'ugt' or p == 'uge' and fb[4]:
                    return self.setfact(st, a, nz=True)
                if p == 'ult' or p == 'ule' and fa[4]:
                    return self.setfact(st, b, nz=True)
                return True
        if p == 'slt':
            return self.add_rel(st, a, b, -1)
        if p == 'sle':
            return self.add_rel(st, a, b, 0)
        if p == 'sgt':
            return self.add_rel(st, b, a, -1)
        if p == 'sge':
            return self.add_rel(st, b, a, 0)
        return True

    def decide(self, st, c):
        """truth of an i1 term"""
        c = self.rep(st, c)
        x = self.T.tab[c]
        if x[0] == 'c':
            return bool(x[1])
        f = st.facts.get(c)
        if f and f[4]:
            return True
        if x[0] == 'cmp':
            return self.decide_cmp(st, x[1], x[2], x[3])
        if x[0] == 'bin':
            a, b = self.decide(st, x[2]), self.decide(st, x[3])
            if x[1] == 'and':
                if a is False or b is False:
                    return False
                if a and b:
                    return True
            elif x[1] == 'or':
                if a or b:
                    return True
                if a is False and b is False:
                    return False
            elif x[1] == 'xor' and a is not None and b is not None:
                return a != b
        return None

    def assume(self, st, c, truth):
        c = self.rep(st, c)
        d = self.decide(st, c)
        if d is not None and d != truth:
            return False
        x = self.T.tab[c]
        if x[0] == 'c':
            return bool(x[1]) == truth
        if x[0] == 'cmp':
            # keep the verdict for identical re-tests as well
            if not self.assume_cmp(st, x[1], x[2], x[3], truth):
                return False
            return True
        if x[0] == 'bin':
            if x[1] == 'and' and truth:
                return self.assume(st, x[2], True) and self.assume(st, x[3], True)
            if x[1] == 'or' and not truth:
                return self.assume(st, x[2], False) and self.assume(st, x[3], False)
            if x[1] == 'xor' and self.T.const(self.rep(st, x[3])) == 1:
                return self.assume(st, x[2], not truth)
        return self.setfact(st, c, int(truth), int(truth))

    # ---- operands --------------------------------------------------------
    def opnd(self, st, o):
        T = self.T
        if isinstance(o, int):
            t = st.env.get(o)
            if t is None:
                if o < self.fn.nparams:
                    t = T.mk('arg', o)
                else:
                    t = T.mk('opq', o)
                st.env[o] = t
            return self.rep(st, t)
        k = o[0]
        if k == 'c':
            return T.c(o[1])
        if k == 'null' or k == 'zero':
            return T.zero
        if k == 'g':
            return T.mk('g', o[1])
        if k == 'gep':
            return self.gep(st, self.opnd(st, o[1]), o[2])
        if k == 'undef':
            return T.mk('undef')
        if k == 'fp':
            return T.mk('fp', o[1])
        return T.mk('k', str(o))

    def gep(self, st, b, steps):
        T = self.T
        for s in steps:
            if s[0] == 'f':
                b = T.mk('f', b, s[1], s[2])
            else:
                i = self.opnd(st, s[2])
                if T.const(i) == 0 and not s[3].startswith('S:'):
                    # keep element 0 as explicit index so that p[0] and p[k] share the base
                    pass
                b = T.mk('ix', b, s[1], i)
        return b

    def root(self, t):
        T = self.T
        while True:
            x = T.tab[t]
            if x[0] in ('f', 'ix'):
                t = x[1]
            else:
                return t

    def touched(self, st, a):
        """memory at a is accessed: its base pointer is not null from here on"""
        r = self.root(a)
        k = self.T.tab[r][0]
        if k in ('arg', 'ld', 'call', 'phi', 'res', 'opq', 'st', 'phm') and not self.fact(st, r)[4]:
            self.setfact(st, r, nz=True)

    def isalloca(self, t):
        return self.T.tab[self.root(t)][0] == 'al'

    def akey(self, addr):
        x = self.T.tab[addr]
        if x[0] == 'f':
            return (x[2], x[3])
        return 'x'

    def load(self, st, addr, ty=None):
        T = self.T
        v = st.mem.get(addr)
        if v is not None:
            return self.rep(st, v)
        r = self.root(addr)
        rx = T.tab[r]
        a = self.firstcell(st, addr)
        if a is not None:
            return self.load(st, a, ty)
        tok = 0
        if rx[0] == 'al':
            tok = st.ep.get(r, 0)
            if not tok:
                # zeroed? copied?
                z = st.ep.get(('z', r))
                if z is not None:
                    return T.zero
                v = T.mk('undef', addr)
                st.mem[addr] = v
                return v
        else:
            tok = st.ep.get(self.akey(addr), 0)
            tok2 = st.ep.get(('r', r), 0)
            tok = tok2 if tok2 else tok
            if rx[0] == 'g' and not tok:
                tok = 0
        v = T.mk('ld', addr, tok)
        st.mem[addr] = v
        return self.rep(st, v)

    def firstcell(self, st, addr):
        """the cell of the first member, for an address that does not name it"""
        T = self.T
        if T.tab[addr][0] == 'arg' and T.tab[addr][1] < self.fn.nparams:
            p = self.fn.params[T.tab[addr][1]]
            fs = self.M.fields.get(p.get('st'))
            if fs and p.get('dt', '').count('*') == 1:
                return T.mk('f', addr, p['st'], fs[0])
        if T.tab[addr][0] == 'al':
            ty = self.fn.ins[T.tab[addr][1]].a[0]
            fs = self.M.fields.get(ty[2:]) if ty.startswith('S:') else None
            if fs:
                return T.mk('f', addr, ty[2:], fs[0])
        if T.tab[addr][0] in ('res', 'ld', 'call', 'phi'):
            for a in st.mem:
                x = T.tab[a]
                if x[0] == 'f' and x[1] == addr and x[2] in self.M.fields:
                    return T.mk('f', addr, x[2], self.M.fields[x[2]][0])
        return None

    def store(self, st, addr, val, iid):
        T = self.T
        if addr not in st.mem:
            a = self.firstcell(st, addr)
            if a is not None:
                addr = a
        r = self.root(addr)
        rx = T.tab[r]
        key = self.akey(addr)
        # invalidate possible aliases
        if rx[0] == 'al':
            if key == 'x' and T.tab[addr][0] == 'ix':
                for a in [a for a in st.mem if a != addr and self.root(a) == r]:
                    x = T.tab[a]
                    y = T.tab[addr]
                    if x[0] == 'ix' and x[1] == y[1] and T.const(x[3]) is not None and T.const(y[3]) is not None:
                        continue
                    del st.mem[a]
                if T.const(T.tab[addr][3]) is None:
                    st.ep[r] = iid
        else:
            for a in [a for a in st.mem if a != addr and self.akey(a) == key]:
                if key == 'x':
                    x, y = T.tab[a], T.tab[addr]
                    if T.tab[self.root(a)][0] == 'al':
                        continue
                    if x[0] == 'ix' and y[0] == 'ix' and x[2] != y[2]:
                        continue
                    if x[0] == 'ix' and y[0] == 'ix' and x[1] == y[1] and T.const(x[3]) is not None and T.const(y[3]) is not None:
                        continue
                elif T.tab[self.root(a)][0] == 'al':
                    continue
                elif self.cl.distinct and rx[0] == 'arg' and T.tab[self.root(a)][0] == 'arg' and self.root(a) != r:
                    continue
                del st.mem[a]
            st.ep[key] = iid
        st.mem[addr] = val

    def clobber_root(self, st, r, iid):
        """everything reachable from local object r may have changed"""
        T = self.T
        seen = set()
        work = [r]
        while work:
            r = work.pop()
            if r in seen:
                continue
            seen.add(r)
            for a in [a for a in st.mem if self.root(a) == r]:
                v = st.mem[a]
                vr = self.root(v)
                if T.tab[vr][0] == 'al':
                    work.append(vr)
                del st.mem[a]
            st.ep[r] = iid
            st.ep.pop(('z', r), None)

    # ---- redefinition of a term in a loop -----------------------------------
    def havoc(self, st, ids):
        """terms that depend on a previous value of one of ids are forgotten"""
        T = self.T
        dep = T.dep
        hit = {}

        def bad(t):
            r = hit.get(t)
            if r is None:
                r = hit[t] = not ids.isdisjoint(dep[t])
            return r
        if any(bad(t) or bad(u) for t, u in st.eq.items()):
            allg = {}
            for t in st.eq:
                allg.setdefault(self.rep(st, t), []).append(t)
            for r, mem in allg.items():
                if not bad(r) and not any(bad(t) for t in mem):
                    continue
                f = st.facts.get(r)
                surv = [t for t in mem if not bad(t)]
                for t in mem:
                    st.eq.pop(t, None)
                if not bad(r):
                    for t in surv:
                        st.eq[t] = r
                elif surv:
                    n = surv[0]
                    for t in surv[1:]:
                        st.eq[t] = n
                    if f:
                        st.facts[n] = f
        for t in [t for t in st.facts if bad(t)]:
            del st.facts[t]
        if st.rel:
            for k in [k for k in st.rel if bad(k[0]) or bad(k[1])]:
                del st.rel[k]

    def redefine(self, st, iid):
        if iid in self.inloop_ids:
            self.rename(st, {iid})

    def rename(self, st, ids, skipenv=(), skipmem=()):
        """the values named by ids change: live values that depend on them get stale names"""
        T = self.T
        dep = T.dep
        ids = set(ids)
        while True:
            ren = [k for k, v in st.env.items() if k not in skipenv and not ids.isdisjoint(dep[v])]
            memr = [a for a, v in st.mem.items() if not (ids.isdisjoint(dep[a]) and ids.isdisjoint(dep[v]))]
            new = {('s', k) for k in ren} | {('m', a) for a in memr}
            if new <= ids:
                break
            ids |= new
        hook = getattr(self.cl, 'rename', None)
        if hook:
            hook(self, st, ids)
        if not ren and not memr:
            self.havoc(st, ids)
            return
        keep = [(k, self.fact(st, st.env[k])) for k in ren]
        memkeep = []
        for a in memr:
            v = st.mem.pop(a)
            if a in skipmem:
                continue
            if ids.isdisjoint(dep[a]):
                memkeep.append((a, self.fact(st, v)))
        self.havoc(st, ids)
        for k, f in keep:
            t = T.mk('st', k)
            st.env[k] = t
            if f != TOPF:
                self.setfact(st, t, *f)
        for a, f in memkeep:
            t = T.mk('phm', a)
            st.mem[a] = t
            if f != TOPF:
                self.setfact(st, t, *f)

    # ---- execution --------------------------------------------------------
    def exec_block(self, st, b):
        """yields (succ block, state)"""
        fn = self.fn
        T = self.T
        states = [st]
        ins_list = fn.blocks[b]
        out = []
        for i in ins_list:
            op = i.op
            if op == 'phi':
                continue
            if op in ('br', 'switch', 'ret', 'unreachable', 'indirectbr'):
                for s in states:
                    self.term(s, i, out)
                return out
            nxt = []
            for s in states:
                self.steps += 1
                r = self.step(s, i)
                if self.cl.done(s):
                    continue
                if r is None:
                    nxt.append(s)
                else:
                    nxt.extend(r)
            states = nxt
            if not states:
                return out
        return out

    def phis(self, st, b):
        """bind the phis of b for an arrival from st.pred"""
        fn = self.fn
        T = self.T
        ph = []
        for i in fn.blocks[b]:
            if i.op != 'phi':
                break
            v = None
            for (pb, o) in i.a[0]:
                if pb == st.pred:
                    v = self.opnd(st, o)
                    break
            if v is None:
                v = T.mk('opq', i.id)
            ph.append((i.id, v))
        if not ph:
            return
        if b in fn.headers:
            ids = {('p', k) for k, _ in ph}
            gen = [(k, v) for k, v in ph if not ids.isdisjoint(T.dep[v]) and T.tab[v] != ('phi', k)]
            if gen:
                self.generalise(st, [(k, v, T.mk('phi', k)) for k, v in gen], ids)
                g = {k for k, _ in gen}
                ph = [(k, v) for k, v in ph if k not in g]
        if b in fn.headers and self.cl.loopvars:
            for k, v in ph:
                n = T.const(v)
                sg = self.stride(k) if n is not None else 0
                if sg:
                    # any value that the counter may have
                    t = T.mk('phi', k)
                    st.env.pop(k, None)
                    self.rename(st, {('p', k)})
                    self.setfact(st, t, **({'lo': n} if sg > 0 else {'hi': n}))
                    ph = [(a, t if a == k else w) for a, w in ph]
        for (k, v) in ph:
            st.env[k] = v

    def stride(self, k):
        """1 or -1 when the variable of a loop changes by a constant of this sign, or not at all"""
        i = self.fn.ins[k]
        s = set()
        for _, o in i.a[0]:
            if isinstance(o, int) and o >= self.fn.nparams and self.fn.ins[o].op in ('add', 'sub', 'phi'):
                a = self.fn.ins[o]
                if o == k:
                    continue
                if a.op in ('add', 'sub') and a.a[0] == k and isinstance(a.a[1], list) and a.a[1][0] == 'c' and a.a[1][1]:
                    s.add((1 if a.a[1][1] > 0 else -1) * (1 if a.op == 'add' else -1))
                else:
                    return 0
        return s.pop() if len(s) == 1 else 0

    def generalise(self, st, items, ids):
        """env[k] := fresh name t for value v, keeping intervals and difference bounds of v"""
        T = self.T
        info = []
        pair = {}
        atoms = None
        for k, v, t in items:
            if v in pair:
                info.append((k, pair[v], None, ()))
                continue
            pair[v] = t
            if atoms is None:
                atoms = {x for p in st.rel for x in p}
            rl = []
            for y in atoms:
                if ids.isdisjoint(T.dep[y]):
                    ub = self.ubound(st, v, y)
                    lb = self.ubound(st, y, v)
                    if ub is not None or lb is not None:
                        rl.append((y, ub, lb))
            info.append((k, t, self.fact(st, v), rl))
        keys = {k for k, _, _ in items}
        for k in keys:
            st.env.pop(k, None)
        self.rename(st, ids)
        for k, t, f, rl in info:
            st.env[k] = t
            if f is not None and f != TOPF:
                self.setfact(st, t, *f)
            for y, ub, lb in rl:
                if ub is not None:
                    st.rel[(self.rep(st, t), y)] = ub
                if lb is not None:
                    st.rel[(y, self.rep(st, t))] = lb

    def ubound(self, st, a, b):
        """least known k with a - b <= k, from single-atom linear forms"""
        A, ca = self.lin(st, a)
        B, cb = self.lin(st, b)
        if len(A) == 1 and len(B) == 1:
            (x, vx), = A.items()
            (y, vy), = B.items()
            if vx == 1 and vy == 1:
                k = self.relbound(st, x, y)
                return None if k is None else k + ca - cb
        return None

    def step(self, st, i):
        T = self.T
        op = i.op
        cl = self.cl
        if op == 'load':
            a = self.opnd(st, i.a[0])
            cl.on_load(self, st, i, a)
            self.touched(st, a)
            v = self.load(st, a, i.ty)
            if T.depth[v] > 24:
                self.redefine(st, i.id)
                v = T.mk('opq', i.id)
            st.env[i.id] = v
            return None
        if op == 'getelementptr':
            st.env[i.id] = self.gep(st, self.opnd(st, i.a[0]), i.a[1])
            return None
        if op == 'store':
            v = self.opnd(st, i.a[0])
            a = self.opnd(st, i.a[1])
            cl.on_store(self, st, i, a, v)
            self.touched(st, a)
            self.redefine(st, i.id)
            self.store(st, a, v, i.id)
            return None
        if op == 'icmp':
            a, b = self.opnd(st, i.a[1]), self.opnd(st, i.a[2])
            p = i.a[0]
            st.env[i.id] = self.mkcmp(st, p, a, b)
            return None
        if op == 'alloca':
            st.env[i.id] = T.mk('al', i.id)
            return None
        if op == 'call':
            return self.call(st, i)
        if op in ('sext', 'bitcast', 'freeze', 'inttoptr', 'ptrtoint', 'addrspacecast', 'fpext', 'fptrunc'):
            st.env[i.id] = self.opnd(st, i.a[0])
            if op == 'sext':
                # sext i1 gives -1
                pass
            return None
        if op == 'zext':
            v = self.opnd(st, i.a[0])
            f = self.fact(st, v)
            x = T.tab[v]
            if f[0] >= 0 or x[0] in ('cmp', 'fcmp', 'c') and f[0] >= 0 or (x[0] == 'bin' and len(x) > 4 and x[4] == 1):
                st.env[i.id] = v
            else:
                st.env[i.id] = T.mk('zx', v)
            return None
        if op == 'trunc':
            v = self.opnd(st, i.a[0])
            f = self.fact(st, v)
            bits = int(i.ty[1:]) if i.ty[1:].isdigit() else 64
            if bits == 1:
                st.env[i.id] = v if 0 <= f[0] and f[1] <= 1 else T.mk('bin', 'and', v, T.c(1), 1)
            elif f[0] >= -(1 << (bits - 1)) and f[1] < (1 << bits):
                st.env[i.id] = v
            else:
                # assume sizes fit (stated assumption): keep the identity for comparisons
                st.env[i.id] = v
            return None
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = self.opnd(st, i.a[0]), self.opnd(st, i.a[1])
            v = self.bin(st, op, a, b, i.ty)
            if T.depth[v] > 24:
                f = self.fact(st, v)
                self.redefine(st, i.id)
                v = T.mk('opq', i.id)
                if f != TOPF:
                    self.setfact(st, v, *f)
            st.env[i.id] = v
            return None
        if op == 'select':
            c = self.opnd(st, i.a[0])
            d = self.decide(st, c)
            if d is None:
                s2 = st.copy()
                r = []
                if self.assume(st, c, True):
                    st.env[i.id] = self.opnd(st, i.a[1])
                    r.append(st)
                if self.assume(s2, c, False):
                    s2.env[i.id] = self.opnd(s2, i.a[2])
                    r.append(s2)
                return r
            st.env[i.id] = self.opnd(st, i.a[1] if d else i.a[2])
            return None
        if op == 'fcmp':
            a, b = self.opnd(st, i.a[1]), self.opnd(st, i.a[2])
            st.env[i.id] = T.mk('fcmp', i.a[0], a, b)
            return None
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
            args = [self.opnd(st, x) for x in i.a]
            if any(T.tab[x][0] == 'undef' for x in args):
                cl_u = getattr(cl, 'on_undef', None)
                if cl_u:
                    cl_u(self, st, i, args)
            self.redefine(st, i.id)
            st.env[i.id] = T.mk('opq', i.id)
            return None
        if op in ('cmpxchg', 'atomicrmw'):
            return self.atomic(st, i)
        if op == 'extractvalue':
            x = T.tab[self.opnd(st, i.a[0])]
            if x[0] == 'pair' and i.a[1] < 2:
                st.env[i.id] = x[1 + i.a[1]]
                return None
        # everything else is opaque
        self.redefine(st, i.id)
        st.env[i.id] = T.mk('opq', i.id)
        return None

    def atomic(self, st, i):
        """compare-and-swap splits into its two outcomes; other read-modify-writes give a fresh value"""
        T = self.T
        a = self.opnd(st, i.a[0])
        self.touched(st, a)
        hook = getattr(self.cl, 'on_atomic', None)
        if i.op == 'atomicrmw':
            vals = [self.opnd(st, i.a[1])]
            self.redefine(st, i.id)
            st.env[i.id] = T.mk('opq', i.id)
            st.ep[self.akey(a)] = i.id
            st.mem.pop(a, None)
            if hook:
                hook(self, st, i, a, vals, None)
            return None
        vals = [self.opnd(st, x) for x in i.a[1:3]]
        self.redefine(st, i.id)
        fresh = T.mk('opq', i.id)
        s2 = st.copy()
        st.env[i.id] = T.mk('pair', vals[0], T.c(1))
        self.store(st, a, vals[1], i.id)
        s2.env[i.id] = T.mk('pair', fresh, T.zero)
        s2.mem.pop(a, None)
        s2.ep[self.akey(a)] = i.id
        out = []
        if hook:
            hook(self, st, i, a, vals, True)
        out.append(st)
        if self.assume_cmp(s2, 'ne', fresh, vals[0], True):
            if hook:
                hook(self, s2, i, a, vals, False)
            out.append(s2)
        return out

    def mkcmp(self, st, p, a, b):
        T = self.T
        ca, cb = T.const(a), T.const(b)
        if ca is not None and cb is None:
            a, b, p = b, a, SWAP[p]
            ca, cb = cb, ca
        # (x cmp ..) ne 0  ->  the comparison itself
        if cb == 0 and p in ('ne', 'eq'):
            x = T.tab[a]
            if x[0] in ('cmp', 'fcmp') or (x[0] == 'bin' and len(x) > 4 and x[4] == 1):
                if p == 'ne':
                    return a
                if x[0] == 'cmp':
                    return T.mk('cmp', NEG[x[1]], x[2], x[3])
                return T.mk('bin', 'xor', a, T.c(1), 1)
        if p in ('eq', 'ne') and cb is None and b < a:
            a, b = b, a
        t = T.mk('cmp', p, a, b)
        d = self.decide_cmp(st, p, a, b)
        if d is not None:
            return T.c(int(d))
        return t

    def bin(self, st, op, a, b, ty):
        T = self.T
        ca, cb = T.const(a), T.const(b)
        if op in COMM and ca is not None and cb is None:
            a, b, ca, cb = b, a, cb, ca
        if ca is not None and cb is not None:
            v = None
            if op == 'add': v = ca + cb
            elif op == 'sub': v = ca - cb
            elif op == 'mul': v = ca * cb
            elif op == 'and': v = ca & cb
            elif op == 'or': v = ca | cb
            elif op == 'xor': v = ca ^ cb
            elif op == 'shl' and 0 <= cb < 63: v = ca << cb
            elif op in ('lshr', 'ashr') and 0 <= cb < 63 and ca >= 0: v = ca >> cb
            elif op in ('udiv', 'sdiv') and cb > 0 and ca >= 0: v = ca // cb
            elif op in ('urem', 'srem') and cb > 0 and ca >= 0: v = ca % cb
            if v is not None:
                return T.c(v)
        if cb == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return a
        if cb == 0 and op in ('mul', 'and'):
            return T.zero
        if cb == 1 and op in ('mul', 'udiv', 'sdiv'):
            return a
        if a == b and op in ('sub', 'xor'):
            return T.zero
        if a == b and op in ('and', 'or'):
            return a
        if op == 'and' and cb is not None:
            f = self.fact(st, a)
            if (f[2] & cb) == cb:
                return T.c(f[3] & cb)
        if op == 'add' and cb is not None:
            x = T.tab[a]
            if x[0] == 'bin' and x[1] == 'add' and T.const(x[3]) is not None:
                return self.bin(st, 'add', x[2], T.c(T.const(x[3]) + cb), ty)
            if x[0] == 'bin' and x[1] == 'sub' and T.const(x[3]) is not None:
                return self.bin(st, 'add', x[2], T.c(cb - T.const(x[3])), ty)
        if op == 'sub' and cb is not None:
            return self.bin(st, 'add', a, T.c(-cb), ty)
        if op in COMM and cb is None and b < a:
            a, b = b, a
        if ty == 'i1':
            return T.mk('bin', op, a, b, 1)
        t = T.mk('bin', op, a, b)
        if op == 'sub' and self.cl.relsub and cb is None and t not in st.facts and self.le(st, b, a, 0):
            self.setfact(st, t, lo=0)
        return t

    def call(self, st, i):
        T = self.T
        M = self.M
        c = i.callee()
        args = [self.opnd(st, x) for x in i.args()]
        if c in NORETURN:
            return []
        r = self.cl.on_call(self, st, i, args)
        if r is not None:
            return r
        self.redefine(st, i.id)
        self.default_call(st, i, args)
        self.cl.after_call(self, st, i, args)
        return None

    def default_call(self, st, i, args):
        T = self.T
        M = self.M
        c = i.callee()
        if i.ty != 'void':
            st.env[i.id] = T.mk('call', i.id)
            if i.ty == 'i1':
                self.setfact(st, st.env[i.id], 0, 1)
        if c and c.startswith('llvm.'):
            if c.startswith('llvm.memset'):
                self.memset(st, i, args)
            elif c.startswith('llvm.memcpy') or c.startswith('llvm.memmove'):
                self.memcpy(st, i, args)
            elif c.startswith('llvm.smax') or c.startswith('llvm.umax') or c.startswith('llvm.smin') or c.startswith('llvm.umin'):
                pass
            elif c.startswith('llvm.abs'):
                self.setfact(st, st.env[i.id], lo=0)
            return
        tg = M.targets(i)
        if not tg or any(t not in M.fns for t in tg):
            # external: objects passed by address may be written
            for a in args:
                r = self.root(a)
                if T.tab[r][0] == 'al' and c not in ('free', 'strcmp', 'strlen', 'strncmp', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'fputs', 'printf', 'fprintf'):
                    self.clobber_root(st, r, i.id)
            if c in ('strlen',):
                self.setfact(st, st.env[i.id], lo=0)
            return
        touched = set()
        for t in tg:
            e = self.E.eff[t]
            for (k, p, key) in e.mod:
                if k < len(args):
                    touched.add((k, p, key))
            for (k, p, fld, r) in e.flow:
                if k < len(args):
                    touched.add((k, p, ('?', fld)))
            for (g, p, key) in e.modg:
                if not p and key[0] != 'e':
                    self.clob_nonlocal(st, key, i.id)
                elif not p:
                    self.clob_global(st, g, i.id)
        for (k, p, key) in touched:
            self.clob_path(st, args[k], p, key, i.id)
        # return value nullness etc. is left to the client

    def clob_global(self, st, g, iid):
        gt = self.T.mk('g', g)
        for a in [a for a in st.mem if self.root(a) == gt]:
            del st.mem[a]
        st.ep[('r', gt)] = iid

    def clob_nonlocal(self, st, key, iid):
        for a in [a for a in st.mem if self.akey(a) == key and not self.isalloca(a)]:
            del st.mem[a]
        st.ep[key] = iid

    def clob_path(self, st, base, path, key, iid):
        T = self.T
        cur = {base}
        for fl in path:
            nx = set()
            for b in cur:
                r = self.root(b)
                if T.tab[r][0] == 'al':
                    for a, v in st.mem.items():
                        if self.root(a) == r:
                            x = T.tab[a]
                            if fl in ('*', '...') or (x[0] == 'f' and x[3] == fl):
                                nx.add(v)
                else:
                    nx.add(T.mk('ld', r, 1))       # some non-local object
            cur = nx
        for b in cur:
            r = self.root(b)
            if T.tab[r][0] == 'al':
                fld = key[1] if key[0] != 'e' else None
                hit = False
                for a in [a for a in st.mem if self.root(a) == r]:
                    x = T.tab[a]
                    if fld is None:
                        if x[0] == 'f' and key[1] not in ('mem', 'ext', 'ptr', 'i32', 'i64', 'double', 'i8'):
                            continue
                        if x[0] == 'f' and b != a and key[1] not in ('mem', 'ext'):
                            # element store through the object's address: only that cell
                            if self.T.tab[b][0] == 'f' and b != a:
                                continue
                        del st.mem[a]
                    elif x[0] == 'f' and x[3] == fld:
                        del st.mem[a]
                if fld is not None:
                    # loads of this field are fresh from now on
                    sname = key[0]
                    done = False
                    if sname != '?':
                        a = T.mk('f', b, sname, fld)
                        v = T.mk('ld', a, iid)
                        st.mem[a] = v
                        done = True
                    if not done:
                        st.ep[r] = iid
                else:
                    st.ep[r] = iid
                    st.ep.pop(('z', r), None)
            else:
                if key[0] == 'e':
                    for a in [a for a in st.mem if self.akey(a) == 'x' and not self.isalloca(a)]:
                        del st.mem[a]
                    st.ep['x'] = iid
                elif key[0] == '?':
                    for a in [a for a in st.mem if not self.isalloca(a) and self.T.tab[a][0] == 'f' and self.T.tab[a][3] == key[1]]:
                        st.ep[self.akey(a)] = iid
                        del st.mem[a]
                else:
                    self.clob_nonlocal(st, key, iid)

    def fields_of(self, addr):
        T = self.T
        x = T.tab[addr]
        if x[0] == 'al':
            ty = self.fn.ins[x[1]].a[0]
            if ty.startswith('S:'):
                return ty[2:]
        if x[0] == 'arg':
            return self.fn.params[x[1]].get('st')
        return None

    def memset(self, st, i, args):
        T = self.T
        d = args[0]
        r = self.root(d)
        v = T.const(args[1])
        for a in [a for a in st.mem if a == d or self._under(a, d)]:
            del st.mem[a]
        if v == 0 and d == r and T.tab[r][0] == 'al':
            st.ep[('z', r)] = i.id
            st.ep.pop(r, None)
        elif v == 0:
            sn = self.fields_of(d)
            n = T.const(args[2])
            for fl in self.M.fields.get(sn, ()):
                if n is None or n == self.M.sizes.get(sn):
                    st.mem[T.mk('f', d, sn, fl)] = T.zero
        else:
            st.ep[r] = i.id

    def _under(self, a, d):
        T = self.T
        while True:
            if a == d:
                return True
            x = T.tab[a]
            if x[0] in ('f', 'ix'):
                a = x[1]
            else:
                return False

    def memcpy(self, st, i, args):
        T = self.T
        d, s = args[0], args[1]
        sn = self.fields_of(d) or self.fields_of(s)
        n = T.const(args[2])
        if sn is None and n is not None:
            c = self.M.structsizes().get(n, [])
            if len(c) == 1:
                sn = c[0]
        if sn and (n is None or n == self.M.sizes.get(sn)):
            vals = []
            for fl in self.M.fields.get(sn, ()):
                vals.append((fl, self.load(st, T.mk('f', s, sn, fl))))
            for a in [a for a in st.mem if self._under(a, d)]:
                del st.mem[a]
            for fl, v in vals:
                a = T.mk('f', d, sn, fl)
                self.store(st, a, v, i.id)
            h = getattr(self.cl, 'on_structcopy', None)
            if h:
                h(self, st, i, d, s, sn)
        else:
            r = self.root(d)
            if T.tab[r][0] == 'al':
                self.clobber_root(st, r, i.id)
            else:
                for a in [a for a in st.mem if self.akey(a) == 'x' and not self.isalloca(a)]:
                    del st.mem[a]
                st.ep['x'] = i.id

    def term(self, st, i, out):
        op = i.op
        if op == 'ret':
            v = self.opnd(st, i.a[0]) if i.a else None
            self.paths += 1
            self.cl.on_ret(self, st, i, v)
            return
        if op == 'br':
            if i.a[0] is None:
                out.append((i.a[1], st))
                return
            c = self.opnd(st, i.a[0])
            self.cl.on_branch(self, st, i, c)
            d = self.decide(st, c)
            if d is not None:
                # still record the facts (equalities) it implies
                if self.assume(st, c, d):
                    out.append((i.a[1] if d else i.a[2], st))
                return
            s2 = st.copy()
            if self.assume(st, c, True):
                out.append((i.a[1], st))
            if self.assume(s2, c, False):
                out.append((i.a[2], s2))
            return
        if op == 'switch':
            c = self.opnd(st, i.a[0])
            self.cl.on_branch(self, st, i, c)
            k = self.T.const(c)
            if k is not None:
                for (v, b) in i.a[2]:
                    if v == k:
                        out.append((b, st))
                        return
                out.append((i.a[1], st))
                return
            for (v, b) in i.a[2]:
                s = st.copy()
                if self.setfact(s, c, v, v):
                    out.append((b, s))
            s = st
            for (v, b) in i.a[2]:
                if not self.assume_cmp(s, 'ne', c, self.T.c(v), True):
                    return
            out.append((i.a[1], s))
            return

    # ---- pruning, joining ----------------------------------------------------
    def prune(self, st, b):
        """forget what can no longer matter at block b"""
        fn = self.fn
        T = self.T
        live = fn.live[b]
        need = set(live)
        for i in fn.blocks[b]:
            if i.op != 'phi':
                break
            need.add(i.id)
        for k in [k for k in st.env if k not in need and k >= fn.nparams]:
            del st.env[k]
        fl = fn.reach_loads(b)
        rel = set()
        for k in need:
            v = st.env.get(k)
            if v is not None and v not in rel:
                T.subterms(v, rel)
        anycall = 'call' in fl
        for a, v in list(st.mem.items()):
            k = self.akey(a)
            if k in fl or (anycall and self.isalloca(a)):
                T.subterms(v, rel)
                T.subterms(a, rel)
            else:
                if not self.keepmem(st, a, v):
                    del st.mem[a]
                else:
                    T.subterms(v, rel)
        for t in self.cl.pinned(self, st):
            T.subterms(t, rel)
        # close under representatives
        for t in list(rel):
            rel.add(self.rep(st, t))
        dep_ok = {}

        def relevant(t):
            r = dep_ok.get(t)
            if r is None:
                x = T.tab[t]
                if t in rel:
                    r = True
                elif x[0] == 'ld':
                    r = self.akey(x[1]) in fl
                elif x[0] == 'arg':
                    r = True
                elif x[0] in ('bin', 'cmp', 'zx', 'fcmp', 'f', 'ix'):
                    r = all(relevant(y) for y in x[1:] if type(y) is Ref)
                elif x[0] in ('c', 'g', 'al', 'undef', 'fp', 'k'):
                    r = True
                else:
                    r = False
                dep_ok[t] = r
            return r
        for t in [t for t in st.facts if not relevant(t)]:
            del st.facts[t]
        for t in [t for t in st.eq if not relevant(t)]:
            # chain through t?  re-link those that point to t
            tgt = st.eq.pop(t)
            for u in [u for u, w in st.eq.items() if w == t]:
                st.eq[u] = tgt
        for k in [k for k in st.rel if not (relevant(k[0]) and relevant(k[1]))]:
            del st.rel[k]

    def keepmem(self, st, a, v):
        km = getattr(self.cl, 'keepmem2', None)
        return km(self, st, a, v) if km else False

    def key(self, st):
        return (st.ps, frozenset(st.env.items()), frozenset(st.mem.items()), frozenset(st.facts.items()),
                frozenset(st.eq.items()), frozenset(st.rel.items()))

    def joinstates(self, a, b, blk):
        """join b into the summary a (new state); same ps"""
        T = self.T
        K = [k for k in sorted(a.env) if k in b.env and self.rep(a, a.env[k]) != self.rep(b, b.env[k])]
        KM = [x for x in a.mem if x in b.mem and self.isalloca(x) and self.rep(a, a.mem[x]) != self.rep(b, b.mem[x])]
        pair = {}
        va, vb = [], []
        for k in K:
            v, w = self.rep(a, a.env[k]), self.rep(b, b.env[k])
            t = pair.get((v, w))
            if t is None:
                t = pair[(v, w)] = T.mk('phi', k)
            va.append((k, v, t))
            vb.append((k, w, t))
        ma, mb = [], []
        for x in sorted(KM):
            v, w = self.rep(a, a.mem[x]), self.rep(b, b.mem[x])
            t = pair.get((v, w))
            if t is None:
                t = pair[(v, w)] = T.mk('phm', x)
            ma.append((x, v, t))
            mb.append((x, w, t))
        if K or KM:
            a, b = a.copy(), b.copy()
            for st, ev, mv in ((a, va, ma), (b, vb, mb)):
                ids = set()
                for k, v, t in ev:
                    if v != t:
                        ids |= T.dep[t]
                for x, v, t in mv:
                    if v != t:
                        ids |= T.dep[t]
                self.regen(st, ev, mv, ids)
        s = State()
        s.ps = a.ps
        s.pred = a.pred
        s.trail = a.trail
        # facts common to both
        for t, f in a.facts.items():
            g = self.fact(b, t)
            h = self.joinfact(f, g)
            if h != TOPF:
                s.facts[t] = h
        for t, f in b.facts.items():
            if t not in a.facts:
                h = self.joinfact(f, self.fact(a, t))
                if h != TOPF and t not in s.facts and t not in a.eq:
                    s.facts[t] = h
        for t in a.eq:
            ra = self.rep(a, t)
            rb = self.rep(b, t)
            if ra == rb and ra != t:
                s.eq[t] = ra
            else:
                h = self.joinfact(self.fact(a, t), self.fact(b, t))
                if h != TOPF and t not in s.facts:
                    s.facts[t] = h
        for t in b.eq:
            if t not in a.eq and t not in s.facts:
                h = self.joinfact(self.fact(a, t), self.fact(b, t))
                if h != TOPF:
                    s.facts[t] = h
        # terms equal on both sides, though not to the same thing
        grp = {}
        seen = set()
        for t in list(a.eq) + list(b.eq) + list(a.eq.values()) + list(b.eq.values()):
            if t not in seen:
                seen.add(t)
                if T.const(t) is None:
                    grp.setdefault((self.rep(a, t), self.rep(b, t)), []).append(t)
        for (ra, rb), ms in grp.items():
            if len(ms) > 1 and ra != rb:
                ms.sort()
                for t in ms[1:]:
                    self.assume_eq(s, t, ms[0])
        for k, v in a.rel.items():
            w = b.rel.get(k)
            if w is not None:
                s.rel[k] = max(v, w)
            elif self.le(b, k[0], k[1], v):
                s.rel[k] = v
        for k, v in b.rel.items():
            if k not in a.rel and self.le(a, k[0], k[1], v):
                s.rel[k] = v
        for k, v in a.env.items():
            w = b.env.get(k)
            if w is None:
                continue
            v, w = self.rep(a, v), self.rep(b, w)
            if v == w:
                s.env[k] = v
            else:
                # generalised to the same name, but that name has a known value on one side
                s.env[k] = a.env[k] if a.env[k] == b.env[k] else T.mk('phi', k)
        for ad, v in a.mem.items():
            w = b.mem.get(ad)
            if w is None:
                continue
            v, w = self.rep(a, v), self.rep(b, w)
            if v == w:
                s.mem[ad] = v
            elif a.mem[ad] == b.mem[ad]:
                s.mem[ad] = a.mem[ad]
            elif T.const(v) == 0 and T.tab[b.mem[ad]][0] == 'res' and self.isnullterm(a, b.mem[ad]):
                s.mem[ad] = b.mem[ad]
            elif T.const(w) == 0 and T.tab[a.mem[ad]][0] == 'res' and self.isnullterm(b, a.mem[ad]):
                s.mem[ad] = a.mem[ad]
            elif self.isalloca(ad):
                s.mem[ad] = T.mk('phm', ad)
        # epochs: union (a later clobber invalidates)
        s.ep = dict(a.ep)
        for k, v in b.ep.items():
            if s.ep.get(k) != v:
                s.ep[k] = v if k not in s.ep else ('j', blk) if False else max(v, s.ep[k]) if isinstance(v, int) and isinstance(s.ep[k], int) else v
        for ad in set(a.mem) ^ set(b.mem):
            if self.isalloca(ad):
                # known on one side only: unknown afterwards
                s.ep[self.root(ad)] = s.ep.get(self.root(ad)) or (-1000 - blk)
        return s

    def regen(self, st, ev, mv, ids):
        """rename stale uses of ids, then bind the listed cells to their joined names"""
        T = self.T
        info = []
        seen = {}
        atoms = {x for p in st.rel for x in p}
        for lst, ismem in ((ev, False), (mv, True)):
            for k, v, t in lst:
                f, rl = None, ()
                if t not in seen:
                    seen[t] = True
                    f = self.fact(st, v)
                    if v != t:
                        rl = []
                        for y in atoms:
                            if ids.isdisjoint(T.dep[y]):
                                ub, lb = self.ubound(st, v, y), self.ubound(st, y, v)
                                if ub is not None or lb is not None:
                                    rl.append((y, ub, lb))
                info.append((k, v, t, f, rl, ismem))
        for k, v, t, f, rl, ismem in info:
            if ismem:
                st.mem.pop(k, None)
            else:
                st.env.pop(k, None)
        if ids:
            self.rename(st, ids)
        for k, v, t, f, rl, ismem in info:
            if ismem:
                st.mem[k] = t
            else:
                st.env[k] = t
            if v != t and f is not None:
                if f != TOPF:
                    st.eq.pop(t, None)
                    st.facts[t] = f
                for y, ub, lb in rl:
                    if ub is not None:
                        st.rel[(t, y)] = ub
                    if lb is not None:
                        st.rel[(y, t)] = lb

    def isnullterm(self, st, t):
        f = self.fact(st, t)
        return f[2] == -1 and f[3] == 0

    def joinfact(self, f, g):
        if f == g:
            return f
        km = f[2] & g[2] & ~(f[3] ^ g[3])
        lo, hi = min(f[0], g[0]), max(f[1], g[1])
        return (lo, hi, km, f[3] & km, f[4] and g[4])

    def widen(self, old, new):
        """drop interval facts that keep growing"""
        for t, f in list(new.facts.items()):
            g = self.fact(old, t)
            lo, hi = f[0], f[1]
            if f[0] < g[0]:
                lo = 0 if f[0] >= 0 else -BIG
            if f[1] > g[1]:
                hi = BIG
            if (lo, hi) != (f[0], f[1]):
                h = (lo, hi, f[2], f[3], f[4])
                if h == TOPF:
                    del new.facts[t]
                else:
                    new.facts[t] = h
        for k, v in list(new.rel.items()):
            w = old.rel.get(k)
            if w is not None and v > w:
                del new.rel[k]

    def run(self, init=None):
        fn = self.fn
        T = self.T
        rpo = fn.rpo
        inl = set()
        for body in fn.loops().values():
            inl |= body
        self.inloop_ids = {i.id for b in inl for i in fn.blocks[b]}
        st = State()
        for k in range(fn.nparams):
            st.env[k] = T.mk('arg', k)
        st.ps = self.cl.init(self, st)
        if init:
            init(self, st)
        store = defaultdict(dict)     # block -> key -> state
        merged = {}                   # (block, ps) -> joined state
        cnt = defaultdict(int)
        heap = []
        seq = 0
        pend = {}

        def push(b, s):
            nonlocal seq
            self.phis(s, b)
            self.prune(s, b)
            k = self.key(s)
            if k in store[b]:
                return
            nps = (b, s.ps)
            lim = self.limit if b not in fn.headers else max(2, self.limit // 4)
            cnt[nps] += 1
            if cnt[nps] > lim:
                # join into the summary state for this predecessor
                mk = (b, s.ps, self.cl.part(self, s))
                old = merged.get(mk)
                if old is not None:
                    new = self.joinstates(old[0], s, b)
                    n = old[1] + 1
                    if n > 3 and b in inl or n > 40:
                        self.widen(old[0], new)
                    if n > 30:
                        new.rel = {}
                    if n > 60:
                        new.facts = {}
                    if self.key(new) == self.key(old[0]):
                        return
                    merged[mk] = (new, n)
                    s = new.copy()
                else:
                    merged[mk] = (s.copy(), 1)
                    s = s.copy()
                k = self.key(s)
                if k in store[b]:
                    return
            store[b][k] = True
            seq += 1
            heapq.heappush(heap, (rpo.get(b, 1 << 30), seq, b, s))
        fn.live
        st.pred = -1
        push(0, st)
        while heap:
            _, _, b, s = heapq.heappop(heap)
            self.visits += 1
            if self.steps > self.maxsteps:
                self.truncated = True
                break
            s = s.copy()
            for (n, s2) in self.exec_block(s, b):
                s2.pred = b
                if self.cl.edge is not None and not self.cl.edge(self, s2, b, n):
                    continue
                push(n, s2)
        return self
