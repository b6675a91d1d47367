"""Failures are reported: the error code is recorded, and a failure seen is not turned into success."""
import time
import front
import ir
import engine

INF = 1 << 40
# internal answers of the accelerator layer ("not implemented here, do it yourself") are not failures of a computation
INTERNAL = ('armas_ac_',)


def retvals(M):
    """function -> what it may return: constants, ('call', g), '?'"""
    out = {}
    for n, f in M.fns.items():
        if f.ret != 'int' or not f.blocks:
            continue
        s = set()
        for b in f.blocks:
            t = b[-1]
            if t.op != 'ret' or not t.a:
                continue
            work, seen = [t.a[0]], set()
            while work:
                o = work.pop()
                if not isinstance(o, int):
                    s.add(o[1] if o[0] == 'c' else '?')
                    continue
                if o in seen:
                    continue
                seen.add(o)
                i = f.ins.get(o)
                if i is None:
                    s.add('?')
                elif i.op == 'phi':
                    work += [v for _, v in i.a[0]]
                elif i.op == 'select':
                    work += i.a[1:3]
                elif i.op == 'call' and M.targets(i):
                    s |= {('call', t) for t in M.targets(i)}
                else:
                    s.add('?')
        out[n] = s
    return out


def status(M):
    """functions whose result is 0 or negative"""
    R = retvals(M)
    ok = set(R)
    ch = True
    while ch:
        ch = False
        for n in list(ok):
            if any(x == '?' or (isinstance(x, int) and x > 0) or (isinstance(x, tuple) and x[1] not in ok) for x in R[n]):
                ok.discard(n)
                ch = True
    can = {n for n in R if any(isinstance(x, int) and x < 0 or x == '?' for x in R[n])}
    ch = True
    while ch:
        ch = False
        for n in R:
            if n not in can and any(isinstance(x, tuple) and x[1] in can for x in R[n]):
                can.add(n)
                ch = True
    return ok, can


def confs(f):
    return [k for k, p in enumerate(f.params) if 'armas_conf' in p.get('dt', '')]


class Recorded(engine.Client):
    """ps: None, or the error code recorded on this path ('*' when a callee did)"""
    limit = 12

    def __init__(self, S):
        self.S = S
        self.bad = {}
        self.n = 0

    def init(self, A, st):
        return None

    def on_store(self, A, st, i, a, v):
        x = A.T.tab[a]
        if x[0] == 'f' and x[3] == 'error' and 'conf' in x[2]:
            c = A.T.const(A.rep(st, v))
            st.ps = None if c == 0 else (c if c is not None else '*')

    def on_call(self, A, st, i, args):
        S = self.S
        tg = A.M.targets(i)
        if not tg or not all(t in S.can for t in tg) or not any(confs(A.M.fns[t]) for t in tg):
            return None
        A.redefine(st, i.id)
        A.default_call(st, i, args)
        v = st.env[i.id]
        if all(t in S.ok for t in tg):
            A.setfact(st, v, hi=0)
        s2 = st.copy()
        out = []
        if A.setfact(st, v, lo=0):
            out.append(st)
        if A.setfact(s2, v, hi=-1):
            s2.ps = '*' if st.ps is not None or not any(t in S.broken for t in tg) else None
            out.append(s2)
        return out

    def after_call(self, A, st, i, args):
        tg = A.M.targets(i)
        if i.ty == 'i32' and tg and all(t in self.S.ok and t not in self.S.can for t in tg):
            A.setfact(st, st.env[i.id], lo=0, hi=0)

    def on_ret(self, A, st, i, v):
        if v is None:
            return
        f = A.fact(st, v)
        if f[1] < 0:
            self.n += 1
            if st.ps is None:
                self.bad.setdefault('none', (i.where(), A.T.const(v)))
            elif isinstance(st.ps, int):
                c = A.T.const(v)
                if c is not None and c != -1 and c != -st.ps:
                    self.bad.setdefault('code', (i.where(), c, st.ps))
        elif f[0] >= 0 and isinstance(st.ps, int):
            self.bad.setdefault('success', (i.where(), st.ps))


class Seen(engine.Client):
    """ps: calls whose failure this path has established by a test"""
    limit = 12

    def __init__(self, S, f):
        self.S, self.bad, self.n = S, {}, 0
        self.ids = [i.id for i in f.calls() if i.ty == 'i32' and S.M.targets(i) and
                    all(t in S.ok and t in S.can for t in S.M.targets(i))]

    def init(self, A, st):
        return frozenset()

    def after_call(self, A, st, i, args):
        if i.id in self.ids:
            st.ps = st.ps - {i.id}
            A.setfact(st, st.env[i.id], hi=0)

    def pinned(self, A, st):
        return [st.env[k] for k in self.ids if k in st.env and A.T.tab[st.env[k]] == ('call', k)]

    def edge(self, A, st, b, n):
        for k in self.ids:
            v = st.env.get(k)
            if v is not None and k not in st.ps and A.T.tab[A.rep(st, v)] == ('call', k):
                self.n += 1
                if A.fact(st, v)[1] < 0:
                    st.ps = st.ps | {k}
        return True

    def on_ret(self, A, st, i, v):
        if v is not None and st.ps and A.fact(st, v)[0] >= 0:
            for k in st.ps:
                c = A.fn.ins[k]
                self.bad.setdefault(ir.cname(c.callee() or '?'), (c.where(), i.where()))


# workspace, singular, not positive definite, no convergence: known only once the computation runs
EWORK = 5
RUNTIME = {EWORK, 6, 7, 9}


def recorded(M, can):
    """function -> error codes it, or what it calls, may record"""
    codes = {n: set() for n in M.fns}

    def iserr(f, a):
        g = f.ins.get(a) if isinstance(a, int) else None
        st = g.a[1] if g is not None and g.op == 'getelementptr' else (a[2] if not isinstance(a, int) and a[0] == 'gep' else [])
        return bool(st) and st[-1][0] == 'f' and st[-1][2] == 'error'
    for n, f in M.fns.items():
        for i in f.instrs():
            if i.op != 'store' or not iserr(f, i.a[1]):
                continue
            work, seen = [i.a[0]], set()
            while work:
                o = work.pop()
                if not isinstance(o, int):
                    if o[0] == 'c':
                        codes[n].add(o[1])
                    continue
                x = f.ins.get(o)
                if o in seen or x is None:
                    continue
                seen.add(o)
                if x.op == 'phi':
                    work += [v for _, v in x.a[0]]
                elif x.op == 'select':
                    work += x.a[1:3]
    ch = True
    while ch:
        ch = False
        for n, f in M.fns.items():
            for i in f.calls():
                for t in M.targets(i):
                    if t in can and codes[t] - codes[n]:
                        codes[n] |= codes[t]
                        ch = True
    return codes


def lost(f, i):
    """a path on which the result of call i is neither tested, stored, passed on nor returned: the place where it is gone, or None"""
    def use(b, k, car):
        for x in b[k:]:
            if x.op == 'phi':
                continue
            if any(o in car for o in f.ops(x)):
                return True
        return False
    bi, k = next((bn, j) for bn, b in enumerate(f.blocks) for j, x in enumerate(b) if x.id == i.id)
    seen = set()
    work = [(bi, k + 1, frozenset([i.id]))]
    while work:
        b, k, car = work.pop()
        blk = f.blocks[b]
        if k == 0 and b == bi:
            # the call runs again: what it said before is gone unless used on the way to it
            j = next(j for j, x in enumerate(blk) if x.id == i.id)
            if not use(blk[:j], 0, car - {i.id}):
                return i.where()
            continue
        if use(blk, k, car):
            continue
        if blk[-1].op in ('ret', 'unreachable'):
            if blk[-1].op == 'ret':
                return blk[-1].where()
            continue
        for n in f.succ[b]:
            c2 = set(car)
            for x in f.blocks[n]:
                if x.op != 'phi':
                    break
                c2.discard(x.id)
                for p, v in x.a[0]:
                    if p == b and isinstance(v, int) and v in car:
                        c2.add(x.id)
            st = (n, frozenset(c2))
            if st not in seen:
                seen.add(st)
                work.append((n, 0, st[1]))
    return None


def nowork(M, i, tg):
    ks = {k for x in tg for k, p in enumerate(M.fns[x].params) if p.get('st') == 'armas_wbuf'}
    args = i.a[1]
    return bool(ks) and all(k < len(args) and args[k] == ['null'] for k in ks)


def dropped(M, can):
    """calls to routines that fail at run time whose result nobody looks at"""
    codes = recorded(M, can)
    num = {n for n in can if codes[n] & RUNTIME}
    out, sites = [], 0
    for n, f in sorted(M.fns.items()):
        used = set()
        for i in f.instrs():
            used.update(o for _, o in i.a[0] if isinstance(o, int)) if i.op == 'phi' else used.update(f.ops(i))
        for i in f.calls():
            t = M.targets(i)
            if t and all(x in num for x in t):
                if nowork(M, i, t) and not all(codes[x] & RUNTIME - {EWORK} for x in t):
                    # called for operands that need no workspace: a fact about them, not about the run
                    continue
                sites += 1
                w = lost(f, i) if i.id in used else i.where()
                if w:
                    out.append((n, sorted(t)[0], i, w))
    return num, sites, out


class Setup:
    pass


def check(c):
    nf = nneg = nseen = npub = nst = nnum = 0
    trunc = []
    for prec in (('FLOAT64', 'FLOAT32') if c.thorough else ('FLOAT64',)):
        M = c.module(prec, inline=False)
        E = ir.Effects(M)
        S = Setup()
        S.M = M
        S.ok, S.can = status(M)
        S.broken = set()
        A_ = front.api(prec)
        pub = {n for n in M.fns if n in A_ and A_[n]['file'] in ('matrix.h', 'sparse.h')}

        def job(n):
            f = M.fns[n]
            cl = Recorded(S)
            A = engine.Analysis(M, E, f, cl, maxsteps=150000)
            A.run()
            return n, cl.bad, cl.n, A.truncated

        def job2(n):
            f = M.fns[n]
            cl = Seen(S, f)
            if not cl.ids:
                return n, {}, 0, False
            A = engine.Analysis(M, E, f, cl, maxsteps=150000)
            A.run()
            return n, cl.bad, cl.n, A.truncated
        todo = sorted(n for n in S.can if confs(M.fns[n]) and not ir.cname(n).startswith(INTERNAL))
        nf += len(todo)
        res = {}
        work = todo
        while work:
            for r in c.pmap(job, work):
                res[r[0]] = r
            # a file-local routine that leaves the code to its callers is judged there
            new = {n for n in work if n in res and 'none' in res[n][1] and n not in pub} - S.broken
            S.broken |= new
            work = sorted({g.name for g in M.fns.values() if g.name in res and
                           any(t in new for i in g.calls() for t in M.targets(i))})
        for n in todo:
            _, bad, k, tr = res[n]
            nneg += k
            if tr:
                trunc.append(ir.cname(n))
            if n in pub:
                npub += 1
            cn = ir.cname(n)
            if 'none' in bad and n in pub:
                w, v = bad['none']
                c.report('%s:none' % cn, 'returns %s without an error code in the configuration block' % ('failure' if v is None else v),
                         fn=cn, where=w)
            if 'code' in bad:
                w, v, e = bad['code']
                c.report('%s:code' % cn, 'returns %d although it recorded error code %d' % (v, e), fn=cn, where=w)
            if 'success' in bad:
                w, e = bad['success']
                c.report('%s:success' % cn, 'may return success although it recorded error code %d' % e, fn=cn, where=w)
            if len(c.samples) < 12 and k > 4:
                c.samples.append('%s: %d failing returns, all with an error code' % (cn, k))
        for n, bad, k, tr in c.pmap(job2, sorted(n for n, f in M.fns.items() if f.ret == 'int' and f.blocks)):
            nseen += k
            if tr:
                trunc.append(ir.cname(n))
            cn = ir.cname(n)
            if cn.startswith(INTERNAL) or ('/workers/' in '/' + (M.fns[n].file or '') and not confs(M.fns[n])):
                # threads that cannot be started are done without
                continue
            for g, (w, rw) in bad.items():
                c.report('%s:seen:%s' % (cn, g), 'has seen %s fail and returns success [%s]' % (g, rw), fn=cn, where=w)
        num, k, drop = dropped(M, S.can)
        nst += k
        nnum += len(num)
        for n, g, i, w in drop:
            c.report('%s:drop:%s' % (ir.cname(n), ir.cname(g)), 'drops the status of %s, which fails at run time (workspace, singularity, convergence) [lost at %s]' % (ir.cname(g), w),
                     fn=ir.cname(n), where=i.where())
    c.cov.update(functions=nf, public=npub, failing_returns=nneg, tested_statuses=nseen, runtime_failing=nnum, statuses_not_dropped=nst, obligations=nneg + nseen + nst,
                 discharged=nneg + nseen + nst - len(c.findings), file_local_left_to_callers=sorted(ir.cname(x) for x in S.broken), truncated=trunc,
                 trusted_base=['clang 18 front end', 'lib/engine.py'])
    c.require('functions', nf, 200)
    c.require('failing returns', nneg, 300)
    c.require('statuses of run-time failures', nst, 60)
    if trunc:
        c.require('functions analysed to the end', -len(trunc), 0)
