"""C09: computations share no mutable state.

1. Static storage that is not thread-local is written only by one-time initialisation: every write is reached only through the
   outcome "the flag is clear" of a test of a static flag, the flag is set on every path from there, and nothing guarded by it is
   written after it has been set.
2. A function that takes a configuration block reaches for the shared default block only where its own is NULL, and passes its block on.
3. Library routines that keep hidden state are called by the random number functions only.
4. Strings returned by getenv are not modified.
"""
import re

import front
import ir

HIDDEN = set('strtok rand srand random srandom initstate setstate drand48 lrand48 mrand48 srand48 seed48 lcong48 localtime gmtime '
             'ctime asctime strerror setlocale localeconv putenv setenv unsetenv clearenv tmpnam getlogin ttyname readdir gethostbyname '
             'lgamma lgammaf lgammal signgam ecvt fcvt gcvt crypt ptsname strsignal mblen mbtowc wctomb mbrlen basename dirname '
             'getpwnam getpwuid getgrnam getopt hcreate hsearch hdestroy nftw setitimer signal chdir umask atexit'.split())
RANDOM = ('armas_seed', 'armas_uniform', 'armas_normal', 'armas_uniform_at', 'armas_normal_at', 'armas_gen_rbt', 'armas_gen_rbt_sym')
CONFDEF = '__default_conf'


class Statics:
    def __init__(self, M, E):
        self.M, self.E = M, E
        self.G = {g for g, o in M.globals.items() if o['def'] and not o['const'] and not o['tls']}
        self.callers = {n: [] for n in M.fns}
        for f in M.fns.values():
            for i in f.calls():
                for t in M.targets(i):
                    if t in self.callers:
                        self.callers[t].append((f, i))
        self.writes = {}
        for f in M.fns.values():
            self.writes[f.name] = self._writes(f)

    def roots(self, f, o):
        if isinstance(o, list) and o:
            if o[0] == 'g':
                return {('g', o[1], ())}
            if o[0] == 'gep':
                return self.roots(f, o[1])
            return set()
        return self.E.eff[f.name].val.get(o, set()) if isinstance(o, int) and not isinstance(o, bool) else set()

    def _writes(self, f):
        """[(instruction, global)] written in f itself, or by a callee through a pointer that f passes"""
        out = []

        def add(i, rs):
            for r in rs:
                if r[0] == 'g' and r[1] in self.G:
                    out.append((i, r[1]))
        for i in f.instrs():
            if i.op == 'store':
                add(i, self.roots(f, i.a[1]))
            elif i.op in ('atomicrmw', 'cmpxchg'):
                add(i, self.roots(f, i.a[0]))
            elif i.op == 'call':
                c = i.callee()
                args = i.args()
                if c and c.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                    add(i, self.roots(f, args[0]))
                elif c and c in ir.EXT_MOD:
                    for k in ir.EXT_MOD[c]:
                        if k < len(args):
                            add(i, self.roots(f, args[k]))
                else:
                    for t in self.M.targets(i):
                        if t in self.M.fns:
                            for (k, p, key) in self.E.eff[t].mod:
                                if k < len(args) and not p:
                                    add(i, self.roots(f, args[k]))
        return sorted(set(out), key=lambda x: (x[0].id, x[1]))

    # ---- guards
    def zero_edges(self, f, val):
        """edges taken when the tested value (a load for which val() names a flag, or a parameter) is zero: [(block, succ, flag)]"""
        out = []
        for b, blk in enumerate(f.blocks):
            t = blk[-1]
            if t.op != 'br' or len(t.a) < 3 and len(f.succ[b]) < 2:
                continue
            c = t.a[0]
            neg = False
            d = None
            while isinstance(c, int) and c in f.ins:
                i = f.ins[c]
                if i.op == 'icmp':
                    p, x, y = i.a[0], i.a[1], i.a[2]
                    isz = lambda o: isinstance(o, list) and (o[0] == 'null' or o[0] == 'c' and o[1] == 0)
                    if p in ('eq', 'ne') and (isz(x) or isz(y)):
                        neg ^= p == 'eq'
                        c = x if isz(y) else y
                        continue
                    break
                if i.op in ('zext', 'trunc', 'sext', 'freeze'):
                    c = i.a[0]
                    continue
                if i.op == 'xor' and i.a[1][:2] in (['c', 1], ['c', -1]) and i.ty == 'i1':
                    neg = not neg
                    c = i.a[0]
                    continue
                break
            d = val(c)
            if d is None:
                continue
            s = f.succ[b]
            # a[1] is the true successor
            tr, fa = t.a[1], t.a[2]
            out.append((b, tr if neg else fa, d))
        return out

    def flag(self, f):
        def val(c):
            if isinstance(c, int) and c in f.ins and f.ins[c].op == 'load':
                a = f.ins[c].a[0]
                if isinstance(a, list) and a[0] == 'g' and a[1] in self.G:
                    return a[1]
            return None
        return val

    @staticmethod
    def reach(f, cut, start=0, stop=()):
        seen = {start}
        st = [start]
        while st:
            b = st.pop()
            if b in stop:
                continue
            for s in f.succ[b]:
                if (b, s) not in cut and s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    def guarded(self, f, ins, g, depth=0):
        """None when the write is one-time initialisation, else the reason"""
        ze = self.zero_edges(f, self.flag(f))
        for h in sorted({d for _, _, d in ze}):
            cut = {(b, s) for b, s, d in ze if d == h}
            if ins.bb in self.reach(f, cut):
                continue
            # the flag is set on every path from the guard to a return
            sets = {}
            for i, gg in self.writes[f.name]:
                if gg == h and i.op == 'store' and not (isinstance(i.a[0], list) and i.a[0][:2] == ['c', 0]):
                    sets.setdefault(i.bb, i)
            for b, s in cut:
                for x in self.reach(f, set(), s, stop=set(sets)):
                    if x not in sets and f.blocks[x][-1].op == 'ret':
                        return 'the flag %s that guards it is not set on every path' % h
            # nothing is written after the flag
            if g != h:
                for b, i in sets.items():
                    if ins.bb == b and self.order(f, ins) > self.order(f, i):
                        return 'it is written after the flag %s has been set' % h
                    if any(ins.bb in self.reach(f, set(), s) for s in f.succ[b]):
                        return 'it is written after the flag %s has been set' % h
            return None
        if depth < 4 and f.static and self.callers[f.name]:
            why = None
            for cf, ci in self.callers[f.name]:
                why = self.guarded(cf, ci, g, depth + 1)
                if why:
                    return why
            return None
        return 'no static flag guards it'

    @staticmethod
    def order(f, ins):
        return next(k for k, i in enumerate(f.blocks[ins.bb]) if i is ins)


def confparam(f):
    return [k for k, p in enumerate(f.params) if 'armas_conf' in p.get('dt', '')]


def check(c):
    nw = ncd = npass = next_ = 0
    nf = 0
    for prec in (('FLOAT64', 'FLOAT32') if c.thorough else ('FLOAT64',)):
        M = c.module(prec, inline=False, inst=True)
        E = ir.Effects(M)
        S = Statics(M, E)
        pub = front.api(prec)
        pubc = {ir.cname(n) for n in pub}
        reachers = {}
        for n, f in M.fns.items():
            nf += 1
            for i, g in S.writes[n]:
                if g == CONFDEF:
                    continue
                nw += 1
                if f.cname in RANDOM or f.cname == 'armas_seed' or random_only(S, f):
                    continue
                why = S.guarded(f, i, g)
                if why:
                    c.report('static:%s:%s' % (ir.cname(g), f.cname), 'writes the static object %s: %s' % (g, why), fn=f.cname, where=i.where())
                elif len(c.samples) < 6:
                    c.samples.append('%s: write of %s at %s is one-time initialisation' % (f.cname, g, i.where()))
            cp = confparam(f)
            dcalls = [i for i in f.calls() if i.callee() == 'armas_conf_default']
            if cp:
                def val(x, cp=cp, f=f):
                    while isinstance(x, int) and x in f.ins and f.ins[x].op in ('freeze', 'bitcast'):
                        x = f.ins[x].a[0]
                    return x if isinstance(x, int) and x in cp else None
                cut = {(b, s) for b, s, d in S.zero_edges(f, val)}
                r = S.reach(f, cut)
                for i in dcalls:
                    ncd += 1
                    if i.bb in r and not onlyselect(f, i, cp):
                        c.report('default:%s' % f.cname, 'uses the shared default configuration although it was given one', fn=f.cname, where=i.where())
                for i in f.calls():
                    for t in M.targets(i):
                        if t in M.fns:
                            for k in confparam(M.fns[t]):
                                if k < len(i.args()):
                                    npass += 1
                                    if isinstance(i.args()[k], list) and i.args()[k][0] == 'null' and i.bb in r:
                                        c.report('pass:%s:%s' % (f.cname, ir.cname(t)),
                                                 'does not pass its configuration on to %s, which then uses the shared default one' % ir.cname(t),
                                                 fn=f.cname, where=i.where())
            for i in f.calls():
                cc = i.callee()
                if cc and cc not in M.fns and not cc.startswith('llvm.'):
                    next_ += 1
                    if cc in HIDDEN and not random_only(S, f):
                        c.report('hidden:%s:%s' % (cc, f.cname), 'calls %s, which keeps state shared by all threads' % cc, fn=f.cname, where=i.where())
                    for k, a in enumerate(i.args()):
                        if writes_env(M, E, f, i, k, a):
                            c.report('getenv:%s:%s' % (cc, f.cname), 'lets %s modify the string that getenv returned' % cc, fn=f.cname, where=i.where())
                elif cc in M.fns:
                    for (k, p, key) in E.eff[cc].mod:
                        if k < len(i.args()) and isenv(M, f, E, resolved(f, E, i.args()[k], p)):
                            c.report('getenv:%s:%s' % (ir.cname(cc), f.cname), 'lets %s modify the string that getenv returned' % ir.cname(cc),
                                     fn=f.cname, where=i.where())
            for i in f.instrs():
                if i.op == 'store' and isenv(M, f, E, S.roots(f, i.a[1])):
                    c.report('getenv:store:%s' % f.cname, 'modifies the string that getenv returned', fn=f.cname, where=i.where())
    c.cov.update(functions=nf, static_writes=nw, default_configuration_uses=ncd, configurations_passed_on=npass, external_calls=next_,
                 obligations=nw + ncd + npass + next_, discharged=nw + ncd + npass + next_ - len(c.findings),
                 trusted_base=['lib/ir.py effect summaries', 'list of C library routines with hidden state'])
    c.assume += ['initialisation that races with itself stores the same values', 'the random number functions are not called concurrently',
                 'C library routines outside the list keep no unsynchronised state']
    c.require('functions', nf, 600)
    c.require('static writes', nw, 4)
    c.require('uses of the default configuration', ncd, 100)


def resolved(f, E, a, p):
    e = E.eff[f.name]
    cur = e.val.get(a, set()) if isinstance(a, int) and not isinstance(a, bool) else set()
    for fl in p:
        nx = set()
        for r in cur:
            nx |= e.cont.get((r, fl), set()) | e.cont.get((r, '*'), set())
        cur = nx
    return cur


def isenv(M, f, E, rs):
    return any(r[0] == 'h' and r[1] in f.ins and f.ins[r[1]].op == 'call' and f.ins[r[1]].callee() in ('getenv', 'secure_getenv') and not r[2] for r in rs)


def writes_env(M, E, f, i, k, a):
    cc = i.callee()
    if cc in ('strsep', 'strtok_r') and k == (0 if cc == 'strsep' else 2):
        rs = set()
        for r in e_roots(E, f, a):
            if r[0] == 'a' and not r[2]:
                for st in reaching(f, i, r[1]):
                    rs |= e_roots(E, f, st.a[0])
            else:
                for (q, fl), x in E.eff[f.name].cont.items():
                    if q == r:
                        rs |= x
        return isenv(M, f, E, rs)
    if k in ir.EXT_MOD.get(cc, ()) or cc in ('strtok', 'strtok_r') and k == 0:
        return isenv(M, f, E, e_roots(E, f, a))
    return False


def reaching(f, i, al):
    """stores to the local variable al that reach instruction i"""
    out = []
    seen = set()
    todo = [(i.bb, Statics.order(f, i))]
    while todo:
        b, k = todo.pop()
        for j in reversed(f.blocks[b][:k]):
            if j.op == 'store' and j.a[1] == al:
                out.append(j)
                break
        else:
            for p in f.pred[b]:
                if p not in seen:
                    seen.add(p)
                    todo.append((p, len(f.blocks[p])))
    return out


def e_roots(E, f, a):
    return E.eff[f.name].val.get(a, set()) if isinstance(a, int) and not isinstance(a, bool) else set()


def onlyselect(f, call, cp):
    """the result is used only by selects that take it when the parameter is NULL"""
    uses = [i for i in f.instrs() if i is not call and call.id in flat(i.a)]
    return bool(uses) and all(i.op == 'select' for i in uses)


def flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flat(y)
    else:
        yield x


def random_only(S, f, seen=None):
    """is f called, directly or not, by the random number functions only?"""
    seen = seen or set()
    if f.cname in RANDOM:
        return True
    if f.name in seen:
        return True
    seen.add(f.name)
    cs = S.callers[f.name]
    taken = [g for g in S.M.fns.values() if f.name in {r for r in refs(g)}]
    cs = [x for x, _ in cs] + taken
    return f.static and bool(cs) and all(random_only(S, g, seen) for g in cs)


def refs(g):
    for i in g.instrs():
        args = i.a if i.op != 'call' else i.args()
        for x in args:
            if isinstance(x, list) and len(x) > 1 and x[0] == 'g':
                yield x[1]
