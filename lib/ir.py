"""Loading of the exported IR, names, CFG helpers, interprocedural effect summaries."""
import json, re
from collections import defaultdict

NORETURN = {'exit', 'abort', '__assert_fail', '_exit', '__assert_perror_fail'}


class Ins:
    __slots__ = ('id', 'op', 'ty', 'loc', 'a', 'bb', 'fn')

    def __init__(self, raw, bb, fn):
        self.id, self.op, self.ty, self.loc = raw[0], raw[1], raw[2], raw[3]
        self.a = raw[4:]
        self.bb = bb
        self.fn = fn

    @property
    def line(self):
        return self.loc[0] if self.loc else 0

    def where(self):
        f = self.loc[1] if self.loc else self.fn.file
        l = self.loc[0] if self.loc else self.fn.line
        s = '%s:%d' % (relpath(f), l)
        if self.loc and len(self.loc) > 2:
            s += ' (in %s, inlined)' % cname(self.loc[2])
        return s

    # call helpers
    def callee(self):
        c = self.a[0]
        if isinstance(c, list) and c and c[0] == 'g':
            return c[1]
        return None

    def args(self):
        return self.a[1]


REPO_PREFIX = ['/repo/']


def relpath(f):
    for p in REPO_PREFIX:
        if f.startswith(p):
            return f[len(p):]
    return f


def cname(n):
    """precision independent name: armas_d_mult -> armas_mult"""
    n = re.sub(r'\.\d+$', '', n)
    n = re.sub(r'^(armas|armassp|mat|vec)_[ds]_', r'\1_', n)
    return n


class Fn:
    def __init__(self, o):
        self.name = o['name']
        self.cname = cname(self.name)
        self.static = o['linkage'] == 'static'
        self.file = relpath(o.get('file', '?'))
        self.line = o.get('line', 0)
        self.params = o['params']
        self.ret = o.get('ret', '?')
        self.names = {int(k): v for k, v in o['names'].items()}
        self.nparams = len(self.params)
        self.blocks = []
        self.ins = {}
        for i, b in enumerate(o['blocks']):
            bl = []
            for r in b:
                x = Ins(r, i, self)
                bl.append(x)
                self.ins[x.id] = x
            self.blocks.append(bl)
        self.succ = []
        self.pred = [[] for _ in self.blocks]
        for i, b in enumerate(self.blocks):
            t = b[-1]
            s = []
            if t.op == 'br':
                s = [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
            elif t.op == 'switch':
                s = [t.a[1]] + [c[1] for c in t.a[2]]
            self.succ.append(s)
            for x in set(s):
                self.pred[x].append(i)
        self._rpo = None
        self._live = None

    def calls(self):
        for b in self.blocks:
            for i in b:
                if i.op == 'call':
                    yield i

    def instrs(self):
        for b in self.blocks:
            for i in b:
                yield i

    @property
    def rpo(self):
        if self._rpo is None:
            seen = set()
            order = []
            st = [(0, iter(self.succ[0]))]
            seen.add(0)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succ[s])))
                        break
                else:
                    order.append(b)
                    st.pop()
            order.reverse()
            self._rpo = {b: i for i, b in enumerate(order)}
            # loop headers = targets of retreating edges
            self.headers = set()
            for b in self._rpo:
                for s in self.succ[b]:
                    if self._rpo[s] <= self._rpo[b]:
                        self.headers.add(s)
        return self._rpo

    def ops(self, i):
        """SSA ids used by instruction i (ints), incl. inside gep steps; phis excluded"""
        out = []
        if i.op == 'phi':
            return out

        def rec(o):
            if isinstance(o, bool):
                return
            if isinstance(o, int):
                out.append(o)
            elif isinstance(o, list):
                if o and o[0] == 'gep':
                    rec(o[1])
                    for s in o[2]:
                        if s[0] == 'i':
                            rec(s[2])
                elif o and isinstance(o[0], str):
                    return
        if i.op == 'call':
            rec(i.a[0])
            for x in i.a[1]:
                rec(x)
        elif i.op == 'getelementptr':
            rec(i.a[0])
            for s in i.a[1]:
                if s[0] == 'i':
                    rec(s[2])
        elif i.op == 'br':
            if i.a[0] is not None:
                rec(i.a[0])
        elif i.op == 'switch':
            rec(i.a[0])
        elif i.op == 'alloca':
            rec(i.a[1])
        elif i.op in ('icmp', 'fcmp'):
            rec(i.a[1])
            rec(i.a[2])
        elif i.op == 'store':
            rec(i.a[0])
            rec(i.a[1])
        elif i.op == 'extractvalue':
            rec(i.a[0])
        else:
            for x in i.a:
                rec(x)
        return out

    @property
    def live(self):
        """live-in SSA ids per block"""
        if self._live is None:
            n = len(self.blocks)
            use = [set() for _ in range(n)]
            de = [set() for _ in range(n)]
            phiuse = [set() for _ in range(n)]
            for bi, b in enumerate(self.blocks):
                for i in b:
                    for o in self.ops(i):
                        if o not in de[bi]:
                            use[bi].add(o)
                    de[bi].add(i.id)
                    if i.op == 'phi':
                        for (pb, v) in i.a[0]:
                            if isinstance(v, int) and not isinstance(v, bool):
                                phiuse[pb].add(v)
            live = [set() for _ in range(n)]
            ch = True
            order = sorted(self.rpo, key=lambda b: -self.rpo[b])
            while ch:
                ch = False
                for b in order:
                    out = set(phiuse[b])
                    for s in self.succ[b]:
                        out |= live[s]
                    new = use[b] | (out - de[b])
                    if new != live[b]:
                        live[b] = new
                        ch = True
            self._live = live
            # (struct, field) loaded in blocks reachable from b
            fl = [set() for _ in range(n)]
            for bi, b in enumerate(self.blocks):
                for i in b:
                    if i.op == 'load':
                        fl[bi].add(self.addr_key(i.a[0]))
                    elif i.op == 'call':
                        fl[bi].add('call')
            ch = True
            while ch:
                ch = False
                for b in order:
                    new = set(fl[b])
                    for s in self.succ[b]:
                        new |= fl[s]
                    if new != fl[b]:
                        fl[b] = new
                        ch = True
            self._fl = fl
        return self._live

    def reach_loads(self, b):
        self.live
        return self._fl[b]

    def addr_key(self, o):
        """last (struct, field) of an address operand or 'x'"""
        if isinstance(o, int):
            if o < self.nparams:
                return 'x'
            i = self.ins[o]
            if i.op == 'getelementptr' and i.a[1]:
                s = i.a[1][-1]
                if s[0] == 'f':
                    return (s[1], s[2])
        elif isinstance(o, list) and o and o[0] == 'gep' and o[2]:
            s = o[2][-1]
            if s[0] == 'f':
                return (s[1], s[2])
        return 'x'

    def pname(self, k):
        return self.params[k].get('name', 'arg%d' % k)

    def vname(self, o):
        if isinstance(o, int):
            if o < self.nparams:
                return self.pname(o)
            return self.names.get(o)
        return None

    def loops(self):
        """natural loops: header -> set of blocks"""
        rpo = self.rpo
        res = {}
        for b in rpo:
            for h in self.succ[b]:
                if rpo[h] <= rpo[b]:
                    body = res.setdefault(h, {h})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in self.pred[x] if p in rpo)
        return res


class Module:
    def __init__(self, path):
        self.fns = {}
        self.globals = {}
        self.decls = set()
        self.fields = {}
        self.sizes = {}
        self.inlined = set()
        with open(path) as f:
            for l in f:
                o = json.loads(l)
                k = o['kind']
                if k == 'fn':
                    fn = Fn(o)
                    self.fns[fn.name] = fn
                elif k == 'global':
                    self.globals[o['name']] = o
                elif k == 'decl':
                    self.decls.add(o['name'])
                elif k == 'structs':
                    self.fields = o['fields']
                    self.sizes = o['sizes']
                elif k == 'inlined':
                    self.inlined = set(o['names'])
        self.globals.pop('sa_api_table', None)
        self.bycname = defaultdict(list)
        for f in self.fns.values():
            self.bycname[f.cname].append(f)
        # address taken functions by arity
        self.addr_taken = set()
        for g in self.globals.values():
            for r in g.get('refs', []):
                if r[1] in self.fns:
                    self.addr_taken.add(r[1])

        def scan(o):
            if isinstance(o, list):
                if len(o) == 2 and o[0] == 'g' and o[1] in self.fns:
                    self.addr_taken.add(o[1])
                else:
                    for x in o:
                        scan(x)
        for f in self.fns.values():
            for i in f.instrs():
                if i.op == 'call':
                    for x in i.a[1]:
                        scan(x)
                    if i.callee() is None:
                        scan(i.a[0])
                elif i.op == 'phi':
                    for (_, v) in i.a[0]:
                        scan(v)
                else:
                    for x in i.a:
                        scan(x)
        self.indirect = defaultdict(list)
        for n in sorted(self.addr_taken):
            self.indirect[self.fns[n].nparams].append(n)
        # function pointers by the struct field they are kept in
        self.fieldfn = defaultdict(set)
        for g in self.globals.values():
            if g['ty'].startswith('S:'):
                fl = self.fields.get(g['ty'][2:], [])
                for (k, n) in g.get('refs', []):
                    if n in self.fns and 0 <= k < len(fl):
                        self.fieldfn[(g['ty'][2:], fl[k])].add(n)
        for f in self.fns.values():
            for i in f.instrs():
                if i.op == 'store' and isinstance(i.a[0], list) and i.a[0] and i.a[0][0] == 'g' and i.a[0][1] in self.fns:
                    k = f.addr_key(i.a[1])
                    if k != 'x':
                        self.fieldfn[k].add(i.a[0][1])
        self._sccs = None

    def f(self, cn):
        """function by canonical name (unique extern preferred)"""
        v = self.bycname.get(cn)
        if not v:
            return None
        for x in v:
            if not x.static:
                return x
        return v[0]

    def targets(self, ins):
        c = ins.callee()
        if c is not None:
            return [c]
        if isinstance(ins.a[0], list) and ins.a[0] and ins.a[0][0] == 'asm':
            return []
        o = ins.a[0]
        if isinstance(o, int) and o < ins.fn.nparams:
            return []        # callback supplied by the caller
        if isinstance(o, int) and o >= ins.fn.nparams:
            d = ins.fn.ins[o]
            if d.op == 'load':
                k = ins.fn.addr_key(d.a[0])
                if k in self.fieldfn:
                    return sorted(self.fieldfn[k])
        return list(self.indirect.get(len(ins.a[1]), []))

    def callgraph(self):
        cg = {}
        for f in self.fns.values():
            s = set()
            for i in f.calls():
                for t in self.targets(i):
                    if t in self.fns:
                        s.add(t)
            cg[f.name] = s
        return cg

    def callgraph_cached(self):
        if not hasattr(self, '_cg'):
            self._cg = self.callgraph()
        return self._cg

    def structsizes(self):
        if not hasattr(self, '_ss'):
            d = defaultdict(list)
            for n, z in self.sizes.items():
                if n in self.fields:
                    d[z].append(n)
            self._ss = d
        return self._ss

    def bottom_up(self):
        """SCCs of the call graph, callees first"""
        if self._sccs is not None:
            return self._sccs
        cg = self.callgraph_cached()
        idx, low, onst, st, out = {}, {}, set(), [], []
        n = [0]
        import sys
        sys.setrecursionlimit(100000)

        def sc(v):
            idx[v] = low[v] = n[0]
            n[0] += 1
            st.append(v)
            onst.add(v)
            for w in sorted(cg[v]):
                if w not in idx:
                    sc(w)
                    low[v] = min(low[v], low[w])
                elif w in onst:
                    low[v] = min(low[v], idx[w])
            if low[v] == idx[v]:
                c = []
                while True:
                    w = st.pop()
                    onst.discard(w)
                    c.append(w)
                    if w == v:
                        break
                out.append(c)
        for v in sorted(cg):
            if v not in idx:
                sc(v)
        self._sccs = out
        return out


# ---------------------------------------------------------------------------
# Effects: which memory reachable from a parameter a function writes, which pointer flows it
# creates, what it returns.  Flow-insensitive, field-sensitive, interprocedural (bottom-up).
#   root  = (kind, id, path)   kind 'p' parameter, 'g' global, 'a' local object, 'h' result of a call
#           path: fields loaded through, at most PATHMAX
#   mod   : set of (k, path, key)   key = (struct, field) or ('e', type): writes through parameter k
#   modg  : set of (global, path, key)
#   flow  : set of (k, path, field, root)  pointer `root` (of p/g/h kind) stored in field of *(k.path)
#   ret   : set of roots (p/g/h) returned
PATHMAX = 4
EXT_MOD = {  # external functions that write through an argument
    'memcpy': [0], 'memset': [0], 'memmove': [0], 'snprintf': [0], 'sprintf': [0], 'strcpy': [0], 'strncpy': [0],
    'getline': [0, 1], 'fread': [0], 'fgets': [0], 'strtok_r': [2], 'strsep': [0],
    'gettimeofday': [0], 'clock_gettime': [1], 'sched_getaffinity': [2], 'pthread_getaffinity_np': [2],
    'pthread_create': [0], 'pthread_join': [1], 'frexp': [1], 'frexpf': [1], 'modf': [1],
    'strtol': [1], 'strtod': [1], 'strtof': [1], 'strtoul': [1], 'strtoll': [1],
    'pthread_mutex_init': [0], 'pthread_cond_init': [0], 'sincos': [1, 2], 'free': [0], 'realloc': [0],
    'qsort': [0],
}
EXT_RET = {'memcpy': [0], 'memset': [0], 'memmove': [0], 'strchr': [0], 'strtok': [0], 'strcpy': [0]}
EXT_MODVAR = {'sscanf': 2, '__isoc99_sscanf': 2, 'fscanf': 2, '__isoc99_fscanf': 2, '__isoc23_sscanf': 2, '__isoc23_fscanf': 2}


class Eff:
    __slots__ = ('mod', 'flow', 'ret', 'modg', 'why', 'cont', 'val')

    def __init__(self):
        self.mod = set()
        self.flow = set()
        self.ret = set()
        self.modg = set()
        self.why = {}

    def snap(self):
        return (len(self.mod), len(self.flow), len(self.ret), len(self.modg))


class Effects:
    def __init__(self, M):
        self.M = M
        self.eff = {n: Eff() for n in M.fns}
        self.spec = {}
        self._switchparams()
        for scc in M.bottom_up():
            while True:
                s0 = [self.eff[n].snap() for n in scc]
                for n in scc:
                    self._fn(M.fns[n])
                if len(scc) == 1 and scc[0] not in M.callgraph_cached()[scc[0]]:
                    break
                if [self.eff[n].snap() for n in scc] == s0:
                    break

    def _switchparams(self):
        """parameters a function dispatches on with a switch, directly or in a callee"""
        M = self.M
        sw = {n: set() for n in M.fns}
        ch = True
        while ch:
            ch = False
            for f in M.fns.values():
                for i in f.instrs():
                    add = set()
                    if i.op == 'switch' and isinstance(i.a[0], int) and i.a[0] < f.nparams:
                        add.add(i.a[0])
                    elif i.op == 'call':
                        tg = [t for t in M.targets(i) if t in M.fns]
                        for k, a in enumerate(i.args()):
                            if isinstance(a, int) and a < f.nparams and any(k in sw[t] for t in tg):
                                add.add(a)
                    if not add <= sw[f.name]:
                        sw[f.name] |= add
                        ch = True
        self.sw = sw

    def eff_for(self, t, consts):
        """effects of t when the parameters in consts (dict k->int) have the given values"""
        consts = {k: v for k, v in consts.items() if k in self.sw[t]}
        if not consts:
            return self.eff[t]
        key = (t, tuple(sorted(consts.items())))
        e = self.spec.get(key)
        if e is None:
            e = self.spec[key] = Eff()     # recursion: starts empty, good enough for non-recursive dispatch
            self._fn(self.M.fns[t], e, consts)
        return e

    def _reach(self, f, consts):
        seen = {0}
        st = [0]
        while st:
            b = st.pop()
            t = f.blocks[b][-1]
            s = f.succ[b]
            if t.op == 'switch' and isinstance(t.a[0], int) and t.a[0] in consts:
                v = consts[t.a[0]]
                s = [x for (c, x) in t.a[2] if c == v] or [t.a[1]]
            for x in s:
                if x not in seen:
                    seen.add(x)
                    st.append(x)
        return seen

    def modkeys(self, name):
        """(k -> set of (path,key)) convenience view"""
        out = defaultdict(set)
        for (k, p, key) in self.eff[name].mod:
            out[k].add((p, key))
        return out

    def _fn(self, f, E=None, consts=None):
        M = self.M
        if E is None:
            E = self.eff[f.name]
        consts = consts or {}
        val = {}
        cont = defaultdict(set)       # (root, field) -> roots stored there
        fieldsof = defaultdict(set)   # root -> fields with contents
        E.val, E.cont = val, cont
        chg = [False]
        for k in range(f.nparams):
            val[k] = {('p', k, ())} if f.params[k]['ty'] == 'ptr' else set()

        def roots(o):
            if isinstance(o, bool):
                return ()
            if isinstance(o, int):
                return val.get(o, ())
            if isinstance(o, list) and o:
                if o[0] == 'g':
                    return {('g', o[1], ())}
                if o[0] == 'gep':
                    return roots(o[1])
            return ()

        def load1(r, fld):
            out = set()
            if (r, fld) in cont:
                out |= cont[(r, fld)]
            if fld != '*' and (r, '*') in cont:
                out |= cont[(r, '*')]
            if fld == '*' and r in fieldsof:
                for g in fieldsof[r]:
                    out |= cont[(r, g)]
            if r[0] in 'pgh':
                if len(r[2]) < PATHMAX:
                    out.add((r[0], r[1], r[2] + (fld,)))
                else:
                    out.add((r[0], r[1], r[2][:-1] + ('...',)))
            return out

        def resolve(rs, path):
            cur = set(rs)
            for fl in path:
                nx = set()
                for r in cur:
                    nx |= load1(r, '*' if fl == '...' else fl)
                cur = nx
            if path and path[-1] == '...':
                # anything reachable
                seen = set(cur)
                st = list(cur)
                while st:
                    r = st.pop()
                    for g in fieldsof.get(r, ()):
                        for x in cont[(r, g)]:
                            if x not in seen:
                                seen.add(x)
                                st.append(x)
                cur = seen
            return cur

        def write(rs, key, ins):
            for r in rs:
                if r[0] == 'p':
                    e = (r[1], r[2], key)
                    if e not in E.mod:
                        E.mod.add(e)
                        E.why[e] = ins
                elif r[0] == 'g':
                    e = (r[1], r[2], key)
                    if e not in E.modg:
                        E.modg.add(e)
                        E.why[e] = ins

        def storeptr(dst, fld, src):
            for r in dst:
                c = cont[(r, fld)]
                n0 = len(c)
                c |= {x for x in src if x != r or True}
                if len(c) != n0:
                    chg[0] = True
                    fieldsof[r].add(fld)
                if r[0] == 'p':
                    for x in src:
                        if x[0] in 'pgh' and x != (r[0], r[1], r[2] + (fld,)):
                            E.flow.add((r[1], r[2], fld, x))

        def setv(i, rs):
            o = val.get(i)
            if o is None:
                val[i] = set(rs)
                if rs:
                    chg[0] = True
            elif not o.issuperset(rs):
                o |= set(rs)
                chg[0] = True

        def fkey(o):
            k = f.addr_key(o)
            return k[1] if k != 'x' else '*'

        def key_of(o, ty):
            k = f.addr_key(o)
            return k if k != 'x' else ('e', ty)

        def call(i):
            args = i.args()
            c = i.callee()
            tg = M.targets(i)
            if c and c.startswith('llvm.'):
                if c.startswith('llvm.memcpy') or c.startswith('llvm.memmove'):
                    d, s = roots(args[0]), roots(args[1])
                    write(d, ('e', 'mem'), i)
                    n = args[2]
                    if isinstance(n, list) and n[0] == 'c' and n[1] in M.structsizes():
                        for sn in M.structsizes()[n[1]]:
                            for fl in M.fields.get(sn, ()):
                                src = set()
                                for r in s:
                                    src |= load1(r, fl)
                                if src:
                                    storeptr(d, fl, src)
                elif c.startswith('llvm.memset'):
                    write(roots(args[0]), ('e', 'mem'), i)
                elif 'store' in c or 'scatter' in c:
                    for a in args:
                        write(roots(a), ('e', 'vec'), i)
                return
            if c and c not in M.fns:
                if c in EXT_MOD:
                    for k in EXT_MOD[c]:
                        if k < len(args):
                            write(roots(args[k]), ('e', 'free' if c in ('free', 'realloc') else 'ext'), i)
                if c in EXT_MODVAR:
                    for k in range(EXT_MODVAR[c], len(args)):
                        write(roots(args[k]), ('e', 'ext'), i)
                if c in EXT_RET:
                    s = set()
                    for k in EXT_RET[c]:
                        s |= set(roots(args[k]))
                    setv(i.id, s)
                elif i.ty == 'ptr':
                    setv(i.id, {('h', i.id, ())})
                if c == 'pthread_create' and len(args) > 3:
                    t = args[2]
                    if isinstance(t, list) and t and t[0] == 'g' and t[1] in M.fns:
                        for (k, p, key) in list(self.eff[t[1]].mod):
                            if k == 0:
                                write(resolve(roots(args[3]), p), key, i)
                return
            ret = set()

            def inst(r):
                if r[0] == 'p':
                    if r[1] < len(args):
                        return resolve(roots(args[r[1]]), r[2])
                    return set()
                if r[0] == 'g':
                    return {r}
                return {('h', i.id, r[2])}
            for t in tg:
                cs = {}
                for k in self.sw[t]:
                    if k < len(args):
                        a = args[k]
                        if isinstance(a, list) and a[0] == 'c':
                            cs[k] = a[1]
                        elif isinstance(a, int) and a in consts:
                            cs[k] = consts[a]
                e2 = self.eff_for(t, cs) if cs else self.eff[t]
                n = len(args)
                for (k, p, key) in list(e2.mod):
                    if k < n:
                        write(resolve(roots(args[k]), p), key, i)
                for (k, p, fld, r) in list(e2.flow):
                    if k < n:
                        d = resolve(roots(args[k]), p)
                        s = inst(r)
                        if d and s:
                            storeptr(d, fld, s)
                for r in list(e2.ret):
                    ret |= inst(r)
                for e in e2.modg:
                    if e not in E.modg:
                        E.modg.add(e)
                        E.why[e] = i
            if i.ty == 'ptr':
                setv(i.id, ret)

        blocks = sorted(f.rpo, key=lambda b: f.rpo[b])
        if consts:
            rb = self._reach(f, consts)
            blocks = [b for b in blocks if b in rb]
        rounds = 0
        while True:
            chg[0] = False
            rounds += 1
            for b in blocks:
                for i in f.blocks[b]:
                    op = i.op
                    if op == 'alloca':
                        setv(i.id, {('a', i.id, ())})
                    elif op == 'getelementptr':
                        setv(i.id, roots(i.a[0]))
                    elif op == 'load':
                        if i.ty == 'ptr':
                            s = set()
                            fl = fkey(i.a[0])
                            for r in roots(i.a[0]):
                                s |= load1(r, fl)
                            setv(i.id, s)
                    elif op == 'phi':
                        if i.ty == 'ptr':
                            s = set()
                            for (_, v) in i.a[0]:
                                s |= set(roots(v))
                            setv(i.id, s)
                    elif op == 'select':
                        if i.ty == 'ptr':
                            setv(i.id, set(roots(i.a[1])) | set(roots(i.a[2])))
                    elif op in ('inttoptr', 'ptrtoint', 'bitcast', 'addrspacecast', 'freeze', 'add', 'sub', 'and', 'or'):
                        s = set()
                        for x in i.a:
                            s |= set(roots(x))
                        if s:
                            setv(i.id, s)
                    elif op == 'store':
                        d = roots(i.a[1])
                        write(d, key_of(i.a[1], i.a[2]), i)
                        if i.a[2] == 'ptr':
                            s = roots(i.a[0])
                            if s:
                                storeptr(d, fkey(i.a[1]), set(s))
                    elif op in ('atomicrmw', 'cmpxchg'):
                        write(roots(i.a[0]), ('e', 'atomic'), i)
                    elif op == 'ret':
                        if i.a:
                            for r in roots(i.a[0]):
                                if r[0] in 'pgh':
                                    E.ret.add(r)
                    elif op == 'call':
                        call(i)
            if not chg[0] or rounds > 40:
                break
