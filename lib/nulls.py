"""Which pointer parameters a function may dereference without having established that they are non-null.
Forward dataflow over SSA values per function, bottom-up over the call graph."""
from ir import NORETURN

EXT_DEREF = {'strlen': [0], 'strcmp': [0, 1], 'strncmp': [0, 1], 'strcpy': [0, 1], 'fclose': [0], 'fputs': [0, 1], 'fgetc': [0],
             'strncpy': [0, 1], 'memcpy': [0, 1], 'memmove': [0, 1], 'memset': [0], 'fputc': [1], 'ungetc': [1],
             'pthread_mutex_lock': [0], 'pthread_mutex_unlock': [0], 'pthread_cond_wait': [0, 1], 'pthread_cond_signal': [0],
             'fprintf': [0], 'snprintf': [2], 'sscanf': [0], '__isoc99_sscanf': [0], '__isoc23_sscanf': [0], 'strtol': [0], 'strtod': [0]}


class Nulls:
    def __init__(self, M):
        self.M = M
        self.deref = {}      # fn -> {param k: Ins}
        self.retnn = {}      # fn -> returns never null
        self.fnres = {}
        for comp in M.bottom_up():
            comp = [c for c in comp if c in M.fns]
            for n in comp:
                self.deref[n] = {}
                self.retnn[n] = False
            while True:
                ch = False
                for n in comp:
                    d, r = self._fn(M.fns[n])
                    if set(d) != set(self.deref[n]) or r != self.retnn[n]:
                        self.deref[n], self.retnn[n] = d, r
                        ch = True
                if not ch or len(comp) == 1 and n not in M.callgraph_cached()[n]:
                    break

    # --- one function
    def _isnn_const(self, f, o, nn):
        if isinstance(o, int):
            if o in nn:
                return True
            i = f.ins.get(o)
            if i is None:
                return False
            if i.op == 'alloca':
                return True
            if i.op == 'getelementptr':
                return self._isnn_const(f, i.a[0], nn)
            if i.op in ('bitcast', 'freeze'):
                return self._isnn_const(f, i.a[0], nn)
            if i.op == 'select':
                return self._isnn_const(f, i.a[1], nn) and self._isnn_const(f, i.a[2], nn)
            if i.op == 'call':
                t = self.M.targets(i)
                return bool(t) and all(self.retnn.get(x, False) for x in t)
            return False
        if isinstance(o, list) and o:
            if o[0] in ('g', 'str'):
                return True
            if o[0] == 'gep':
                return self._isnn_const(f, o[1], nn)
        return False

    def _isnull(self, o):
        return isinstance(o, list) and o and o[0] in ('null', 'zero')

    def _edge(self, f, b, s, nn):
        """facts added on edge b -> s"""
        t = f.blocks[b][-1]
        if t.op != 'br' or t.a[0] is None or t.a[1] == t.a[2]:
            return nn
        truth = s == t.a[1]
        add = set()

        def cond(o, truth, d=0):
            if not isinstance(o, int) or o not in f.ins or d > 6:
                return
            i = f.ins[o]
            if i.op == 'icmp':
                p, a, b2 = i.a[0], i.a[1], i.a[2]
                if self._isnull(a):
                    a, b2 = b2, a
                if self._isnull(b2) and isinstance(a, int):
                    if (p == 'ne') == truth and p in ('eq', 'ne'):
                        add.add(a)
                elif isinstance(b2, list) and b2 and b2[0] == 'c' and b2[1] == 0 and isinstance(a, int) and p in ('eq', 'ne'):
                    # (zext cond) ==/!= 0
                    j = f.ins.get(a)
                    if j is not None and j.op in ('zext', 'trunc'):
                        cond(j.a[0], (p == 'ne') == truth, d + 1)
            elif i.op == 'xor' and i.ty == 'i1':
                cond(i.a[0], not truth, d + 1)
            elif i.op in ('and', 'select') and truth and i.ty == 'i1':
                for x in (i.a[:2] if i.op == 'and' else i.a[:2]):
                    cond(x, True, d + 1)
            elif i.op == 'or' and not truth and i.ty == 'i1':
                for x in i.a:
                    cond(x, False, d + 1)
            elif i.op in ('trunc', 'zext', 'freeze'):
                cond(i.a[0], truth, d + 1)
        cond(t.a[0], truth)
        return nn | add if add else nn

    def _fn(self, f):
        rpo = f.rpo
        order = sorted(rpo, key=lambda b: rpo[b])
        IN = {0: frozenset()}
        OUT = {}
        ALL = None
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == 0:
                    cur = set()
                else:
                    cur = None
                    for p in f.pred[b]:
                        if p in OUT:
                            e = self._edge(f, p, b, OUT[p])
                            cur = set(e) if cur is None else cur & e
                    if cur is None:
                        continue
                    for i in f.blocks[b]:
                        if i.op != 'phi':
                            break
                        ok = True
                        for (pb, o) in i.a[0]:
                            if pb not in OUT:
                                continue
                            e = self._edge(f, pb, b, OUT[pb])
                            if not self._isnn_const(f, o, e):
                                ok = False
                                break
                        if ok:
                            cur.add(i.id)
                        else:
                            cur.discard(i.id)
                IN[b] = frozenset(cur)
                # after a dereference the pointer is non-null
                for i in f.blocks[b]:
                    for o in self._bases(i):
                        r = self._root(f, o)
                        if isinstance(r, int):
                            cur.add(r)
                o = frozenset(cur)
                if OUT.get(b) != o:
                    OUT[b] = o
                    ch = True
        # collect
        self._org = {}
        d = {}
        retnn = True
        for b in order:
            nn = set(IN.get(b, ()))
            for i in f.blocks[b]:
                if i.op == 'phi':
                    continue
                for o in self._bases(i):
                    r = self._root(f, o)
                    if isinstance(r, int) and not self._isnn_const(f, r, nn):
                        for k in self._origin(f, r, OUT, set()):
                            d.setdefault(k, i)
                        nn.add(r)
                if i.op == 'ret' and i.a:
                    if not self._isnn_const(f, i.a[0], nn):
                        retnn = False
                if i.op == 'call' and i.callee() in NORETURN:
                    break
        self.fnres[f.name] = (IN, OUT)
        return d, retnn

    def _root(self, f, o):
        while isinstance(o, int) and o in f.ins and f.ins[o].op in ('getelementptr', 'bitcast', 'freeze'):
            o = f.ins[o].a[0]
        while isinstance(o, list) and o and o[0] == 'gep':
            o = o[1]
        return o

    def _origin(self, f, r, OUT, seen):
        if r in seen:
            return set()
        seen.add(r)
        if isinstance(r, int):
            if r < f.nparams:
                return {r}
            i = f.ins.get(r)
            if i is not None and i.op == 'phi':
                s = set()
                for (pb, o) in i.a[0]:
                    if pb in OUT:
                        e = self._edge(f, pb, i.bb, OUT[pb])
                        o = self._root(f, o)
                        if isinstance(o, int) and not self._isnn_const(f, o, e):
                            s |= self._origin(f, o, OUT, seen)
                return s
            if i is not None and i.op == 'select':
                s = set()
                for o in i.a[1:3]:
                    s |= self._origin(f, self._root(f, o), OUT, seen)
                return s
        return set()

    def _bases(self, i):
        """operands the instruction dereferences"""
        if i.op == 'load':
            return [i.a[0]]
        if i.op == 'store':
            return [i.a[1]]
        if i.op == 'call':
            c = i.callee()
            args = i.args()
            if c and c.startswith('llvm.mem'):
                return args[:2] if not c.startswith('llvm.memset') else args[:1]
            out = []
            ts = self.M.targets(i)
            for t in ts:
                if t in self.deref:
                    out += [args[k] for k in self.deref[t] if k < len(args)]
                elif t in EXT_DEREF:
                    out += [args[k] for k in EXT_DEREF[t] if k < len(args)]
            return out
        return []

    def chain(self, n, k):
        """path explaining an unchecked dereference"""
        out = []
        seen = set()
        while (n, k) not in seen and len(out) < 12:
            seen.add((n, k))
            i = self.deref.get(n, {}).get(k)
            if i is None:
                break
            out.append('%s (parameter %s): %s' % (self.M.fns[n].cname, self.M.fns[n].params[k]['name'], i.where()))
            if i.op != 'call':
                break
            nx = None
            f = self.M.fns[n]
            for t in self.M.targets(i):
                for j in self.deref.get(t, {}):
                    if j < len(i.args()) and k in self._origin2(f, i.args()[j]):
                        nx = (t, j)
            if not nx:
                break
            n, k = nx
        return out

    def _origin2(self, f, o):
        return self._origin(f, self._root(f, o), self.fnres[f.name][1], set())
