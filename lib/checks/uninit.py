"""Local variables, members of local objects and results are set before they are used."""
import front
import ir
import engine

T_SKIP = ('insertelement', 'shufflevector')


class Reads:
    """members of its parameters that a function may read before it could have set them"""

    def __init__(self, M, E):
        self.M, self.E = M, E
        self.rd = {n: frozenset() for n in M.fns}
        for comp in M.bottom_up():
            for n in comp:
                self.rd[n] = self.fn(M.fns[n])

    def key(self, f, o):
        """(param, struct, field) of an address, or None"""
        if isinstance(o, int) and o < f.nparams:
            p = f.params[o]
            if p.get('st') and p.get('dt', '').count('*') == 1:
                fs = self.M.fields.get(p['st'])
                return (o, p['st'], fs[0]) if fs else None
            return (o, None, '')
        steps = None
        if isinstance(o, int):
            i = f.ins.get(o)
            if i is not None and i.op == 'getelementptr':
                b, steps = i.a[0], i.a[1]
        elif o and o[0] == 'gep':
            b, steps = o[1], o[2]
        if steps is None or not isinstance(b, int) or b >= f.nparams or len(steps) != 1 or steps[0][0] != 'f':
            return None
        return (b, steps[0][1], steps[0][2])

    def byflag(self, f, o, d=0):
        """the condition depends on integer arguments alone"""
        hit = False
        work, seen = [o], set()
        while work:
            x = work.pop()
            if not isinstance(x, int) or x in seen:
                continue
            seen.add(x)
            if x < f.nparams:
                if f.params[x]['ty'] == 'ptr':
                    return False
                hit = True
                continue
            i = f.ins.get(x)
            if i is None or i.op in ('load', 'call', 'phi', 'alloca'):
                return False
            work += f.ops(i)
        return hit

    def fn(self, f):
        if not f.blocks:
            return frozenset()
        E = self.E
        fx = []
        for b in f.blocks:
            acts = []
            for i in b:
                if i.op == 'load':
                    k = self.key(f, i.a[0])
                    if k:
                        acts.append(('r', k))
                elif i.op == 'store':
                    k = self.key(f, i.a[1])
                    if k:
                        acts.append(('w', k))
                    if isinstance(i.a[0], int) and i.a[0] < f.nparams:
                        acts.append(('W', i.a[0]))
                elif i.op == 'call':
                    c = i.callee() or ''
                    if c in ir.NORETURN:
                        acts.append(('stop', None))
                        continue
                    tg = self.M.targets(i)
                    args = i.args()
                    if tg and all(t in self.rd for t in tg):
                        common = frozenset().union(*[self.rd[t] for t in tg])
                        for (k, s, fl) in common:
                            if k < len(args) and isinstance(args[k], int) and args[k] < f.nparams:
                                acts.append(('r', (args[k], s, fl)))
                    # what the callee may set counts as set after the call (acts are read backwards)
                    sets = []
                    for k, a in enumerate(args):
                        if not (isinstance(a, int) and a < f.nparams):
                            continue
                        if tg and all(t in E.eff for t in tg):
                            for t in tg:
                                for (q, path, key) in E.eff[t].mod:
                                    if q == k and not path:
                                        sets.append(('wf', (a, key[1])) if key[0] not in ('e', '?') else ('W', a))
                                if any(q == k for (q, _, _, _) in E.eff[t].flow):
                                    sets.append(('W', a))
                        else:
                            sets.append(('W', a))
                    acts += sets
            fx.append(acts)
        inn = {b: frozenset() for b in f.rpo}
        sel = {b for b in f.rpo if f.blocks[b][-1].op in ('br', 'switch') and self.byflag(f, f.blocks[b][-1].a[0])}
        order = sorted(f.rpo, key=lambda b: -f.rpo[b])
        ch = True
        while ch:
            ch = False
            for b in order:
                ss = [inn[x] for x in f.succ[b]]
                if len(ss) > 1 and b in sel:
                    # a flag argument selects what is read: the caller knows; count only what is read either way
                    s = frozenset.intersection(*ss)
                else:
                    s = frozenset().union(*ss)
                for kind, k in reversed(fx[b]):
                    if kind == 'stop':
                        s = frozenset()
                    elif kind == 'r':
                        s = s | {k}
                    elif kind == 'w':
                        s = s - {k}
                    elif kind == 'wf':
                        s = frozenset(x for x in s if x[0] != k[0] or x[2] != k[1])
                    else:
                        s = frozenset(x for x in s if x[0] != k)
                if s != inn[b]:
                    inn[b] = s
                    ch = True
        return inn[0]


class Cl(engine.Client):
    limit = 16

    def __init__(self, R, f):
        self.R = R
        self.bad = {}
        self.n = 0
        self.esc = None

    def escaped(self, A):
        """locals whose address is kept in memory or by a callee: they may be set through it"""
        if self.esc is None:
            f, M, E = A.fn, A.M, A.E
            e = set()

            def base(o, d=0):
                while d < 20:
                    d += 1
                    if isinstance(o, int):
                        i = f.ins.get(o)
                        if i is None:
                            return set()
                        if i.op == 'alloca':
                            return {i.id}
                        if i.op in ('getelementptr', 'bitcast'):
                            o = i.a[0]
                            continue
                        if i.op == 'phi':
                            r = set()
                            for _, v in i.a[0]:
                                r |= base(v, d + 5)
                            return r
                        return set()
                    if o and o[0] == 'gep':
                        o = o[1]
                        continue
                    return set()
                return set()
            used = set()
            for i in f.instrs():
                used.update(o for _, o in i.a[0] if isinstance(o, int)) if i.op == 'phi' else used.update(f.ops(i))
            for i in f.instrs():
                if i.op == 'store':
                    e |= base(i.a[0])
                elif i.op == 'ret' and i.a:
                    e |= base(i.a[0])
                elif i.op == 'call':
                    tg = M.targets(i)
                    for k, a in enumerate(i.args()):
                        b = base(a)
                        if not b:
                            continue
                        if tg and all(t in E.eff for t in tg):
                            if any(r and r[0] == 'p' and r[1] == k for t in tg for (_, _, _, r) in E.eff[t].flow):
                                e |= b
                            if i.id in used and any(r and r[0] == 'p' and r[1] == k for t in tg for r in E.eff[t].ret):
                                e |= b
            self.esc = e
        return self.esc

    def und(self, A, t):
        T = A.T
        for x in T.subterms(t):
            if T.tab[x][0] == 'undef':
                if len(T.tab[x]) > 1:
                    r = T.tab[A.root(T.tab[x][1])]
                    if r[0] == 'al' and r[1] in self.escaped(A):
                        continue
                return x

    def rep(self, A, i, t, kind):
        self.n += 1
        u = self.und(A, t)
        if u is not None:
            x = A.T.tab[u]
            what = A.T.show(x[1], A.fn).lstrip('&') if len(x) > 1 else (A.fn.vname(i.id) or 'a local variable')
            self.bad.setdefault((what, kind), i.where())

    def part(self, A, st):
        return (frozenset(k for k, v in st.env.items() if A.T.tab[v][0] == 'undef'),
                frozenset((k, A.T.tab[v][1]) for k, v in st.env.items()
                          if k in A.fn.ins and A.fn.ins[k].op == 'phi' and A.T.tab[v][0] == 'c' and k in self.sw(A)))

    def sw(self, A):
        """variables that steer a switch"""
        if not hasattr(self, '_sw'):
            f = A.fn
            s = {t.a[0] for b in f.blocks for t in b if t.op == 'switch' and isinstance(t.a[0], int)}
            ph = set()
            for k in s:
                one, work = set(), [k]
                while work:
                    x = work.pop()
                    if x in one:
                        continue
                    if x not in f.ins or f.ins[x].op != 'phi':
                        one = set()         # not a state variable: takes other values than constants
                        break
                    one.add(x)
                    work += [o for _, o in f.ins[x].a[0] if isinstance(o, int)]
                ph |= one
            self._sw = ph
        return self._sw

    def on_load(self, A, st, i, a):
        self.rep(A, i, a, 'as an address')

    def on_store(self, A, st, i, a, v):
        self.rep(A, i, a, 'as an address')

    def on_branch(self, A, st, i, c):
        self.rep(A, i, c, 'in a condition')

    def on_ret(self, A, st, i, v):
        if v is not None:
            self.rep(A, i, v, 'as the result')

    def on_undef(self, A, st, i, args):
        for a in args:
            self.rep(A, i, a, 'in arithmetic')

    def on_call(self, A, st, i, args):
        c = i.callee()
        if not isinstance(c, str) and i.a and isinstance(i.a[0], (list, tuple)) and i.a[0] and i.a[0][0] == 'asm':
            return
        if c and c.startswith('llvm.'):
            if 'x86' in c or c.startswith('llvm.lifetime') or c.startswith('llvm.dbg'):
                return
        tg = A.M.targets(i)
        name = ir.cname(c) if c else 'a callback'
        for k, a in enumerate(args):
            self.rep(A, i, a, 'as argument %d of %s' % (k + 1, name))
        if tg and all(t in self.R.rd for t in tg):
            T = A.T
            for (k, s, fl) in frozenset().union(*[self.R.rd[t] for t in tg]):
                if k >= len(args):
                    continue
                a = args[k]
                if T.tab[A.root(a)][0] != 'al':
                    continue
                self.n += 1
                ad = T.mk('f', a, s, fl) if s else a
                if s and T.tab[a][0] == 'al' and A.fields_of(a) not in (s, None):
                    continue
                v = A.load(st, ad)
                u = self.und(A, v)
                if u is not None and T.tab[v][0] == 'undef':
                    self.bad.setdefault((T.show(ad, A.fn).lstrip('&'), 'by %s' % name), i.where())


class Cl1(Cl):
    """the same, for executions whose loops run at least once"""

    def init(self, A, st):
        f = A.fn
        f.rpo
        self.L = {h: (set(b), self.conds(f, h, set(b))) for h, b in f.loops().items()}
        return frozenset()

    def conds(self, f, h, body):
        """blocks that only evaluate the loop condition"""
        out = set()
        work = [h]
        while work:
            b = work.pop()
            if b in out or b not in body:
                continue
            if all(i.op in ('phi', 'load', 'icmp', 'br', 'getelementptr', 'sext', 'zext', 'trunc', 'add', 'sub', 'and', 'or', 'select') or
                   i.op == 'call' and not any(t for t in [i.callee()] if t and not t.startswith('llvm.')) for i in f.blocks[b]):
                out.add(b)
                work += f.succ[b]
        return out

    def edge(self, A, st, b, n):
        for h, (body, cond) in self.L.items():
            if n == h:
                st.ps = st.ps - {h} if b in body else st.ps | {h}
            elif b in body and n not in body and h in st.ps:
                if b in cond:
                    return False
                st.ps = st.ps - {h}
        return True


def analyse(c, M, E, R, names, client=Cl):
    def job(n):
        f = M.fns[n]
        cl = client(R, f)
        A = engine.Analysis(M, E, f, cl)
        A.run()
        return n, cl.bad, cl.n, A.truncated
    return c.pmap(job, names)


def check(c):
    tot = nf = nr = nconf = 0
    for prec in (('FLOAT64', 'FLOAT32') if c.thorough else ('FLOAT64',)):
        M = c.module(prec, inline=False, inst=True)
        E = ir.Effects(M)
        R = Reads(M, E)
        nr += sum(len(x) for x in R.rd.values())
        tr = []
        cand = {}
        for n, bad, k, t in analyse(c, M, E, R, sorted(n for n in M.fns if M.fns[n].blocks)):
            nf += 1
            tot += k
            if t:
                tr.append(ir.cname(n))
            if bad:
                cand[n] = bad
            if len(c.samples) < 12 and k > 200:
                c.samples.append('%s: %d uses examined' % (ir.cname(n), k))
        if tr:
            c.require('functions analysed to the end', -len(tr), 0)
        # a file-local function is judged for executions whose loops run at least once: how often they do is up to its callers
        local = sorted(n for n in cand if M.fns[n].static)
        nconf += len(local)
        for n, bad, k, t in analyse(c, M, E, R, local, Cl1):
            cand[n] = {k: v for k, v in cand[n].items() if k in bad}
        for n, bad in cand.items():
            for (what, kind), where in bad.items():
                c.report('%s:%s:%s' % (ir.cname(n), what, kind), '%s is used %s before it is set' % (what, kind), fn=ir.cname(n), where=where)
    c.cov.update(functions_analysed=nf, obligations=tot, discharged=tot - len(c.findings), callee_read_rules=nr, judged_for_nonempty_loops=nconf,
                 trusted_base=['clang 18 front end and SROA', 'lib/engine.py'])
    c.require('functions', nf, 800)
    c.require('uses', tot, 20000)
