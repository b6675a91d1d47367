"""C12: text is read and written inside of the buffers, whatever the text is.

The values of all functions that handle text are followed as linear forms over parameters, loop
variables and memory cells (the machinery of term.py, over the whole function and not one loop).
At every access by a computed address to a local array, to a buffer handed over with its length,
and to the buffer of a string stream, what is known from the branches taken must bound the address;
elements are set only at rows and columns that have been compared with the size of the matrix;
library functions that write text get the size of the array they write to."""
import re
import ir
from checks import term
from checks.term import Lin, K

WIDTH = {'i8': 1, 'i16': 2, 'i32': 4, 'float': 4, 'i64': 8, 'double': 8, 'ptr': 8}
# functions that write as much as they are told: destination, size of it
SIZED = {'fgets': (0, 1), 'snprintf': (0, 1), 'vsnprintf': (0, 1), 'strncpy': (0, 2), 'strncat': (0, 2), 'fread': (0, None), 'read': (1, 2),
         'memcpy': (0, 2), 'memmove': (0, 2), 'memset': (0, 2), 'llvm.memcpy': (0, 2), 'llvm.memmove': (0, 2), 'llvm.memset': (0, 2)}
# members that are sizes
SIZES = ('rows', 'cols', 'bytes', 'size', 'nnz')
UNBOUNDED = {'gets', 'strcpy', 'strcat', 'sprintf', 'vsprintf', 'stpcpy'}
# functions that set or get an element: matrix, row, column
SETS = {'armas_set_unsafe': (0, 1, 2), 'armas_get_unsafe': (0, 1, 2), 'armassp_append': (0, 1, 2)}


class Func(term.Func):
    def __init__(self, f, M, E, lens):
        super().__init__(f, M, E)
        self.on = False
        self.sites = {}         # instruction -> (what, held on all paths so far)
        self.inv = {}
        self.lens = lens
        self.allocas = {i.id: i for b in term.blocks(f) for i in b if i.op == 'alloca'}

    # what a pointer is made from
    def base(self, o, seen=None):
        seen = set() if seen is None else seen
        if isinstance(o, list):
            return {('const',)} if o[0] == 'null' or o[0] == 'undef' else {('g', str(o))}
        if o in seen:
            return set()
        seen.add(o)
        if o < self.f.nparams:
            return {('arg', o)}
        i = self.f.ins[o]
        if i.op == 'getelementptr' or i.op in ('bitcast', 'freeze'):
            return self.base(i.a[0], seen)
        if i.op == 'phi':
            return set().union(*[self.base(x, seen) for _, x in i.a[0]])
        if i.op == 'select':
            return self.base(i.a[1], seen) | self.base(i.a[2], seen)
        if i.op == 'alloca':
            return {('al', o)}
        if i.op == 'load':
            k = self.f.addr_key(i.a[0])
            return {('load', o, k[-1] if k != 'x' else None)}
        return {('other', o)}

    def extent(self, o):
        """bytes of a local array"""
        i = self.allocas[o]
        n = self.M.tysize(i.a[0]) if hasattr(self.M, 'tysize') else arraysize(i.a[0])
        return n

    def site(self, p, i, what, ok, detail):
        s = self.sites.setdefault((i.id if i.id is not None else id(i), what), [i, what, True, detail])
        if not ok:
            s[2] = False

    def facts(self, p, extra):
        q = term.Path()
        q.ge = p.ge + extra
        return q

    def holds(self, p, forms, extra=()):
        q = self.facts(p, list(extra) + self.assumed(forms, p))
        return all(self.shown(q, x) for x in forms)

    def assumed(self, forms, p):
        out = []
        for o in self.lens.values():
            out.append(Lin({('v', o): 1}).plus(K(-1)))
        return out

    def shown(self, q, a):
        if self.nonneg(q, a):
            return True
        # a fact and a 'not equal'
        return False

    def access(self, p, i, addr, width):
        R = self.base(addr) - {('const',)}
        V = self.val(p, addr)
        if len(R) != 1:
            return
        r, = R
        ne = [e[1] for e in p.ev if e[0] == 'ne']
        if r[0] == 'al':
            n = arraysize(self.allocas[r[1]].a[0])
            if n is None:
                return
            off = V.plus(self.val(p, r[1]), -1)
            if off.const() is not None and self.straight(addr):
                return
            self.site(p, i, 'array', self.within(p, off, K(n - width), ne), 'local array of %d bytes' % n)
        elif r[0] == 'arg' and width == 1 and r[1] in self.lens:
            off = V.plus(self.val(p, r[1]), -1)
            self.site(p, i, 'buffer', self.within(p, off, self.val(p, self.lens[r[1]]).plus(K(-1)), ne), 'buffer of parameter %s' % self.f.params[r[1]]['name'])
        elif r[0] == 'load' and width == 1 and r[2] == 'buf' and '/io/' in self.f.file:
            atoms = [a for a in V if a is not None and a[0] == 'm' and a[1][1] and a[1][1][-1][-1] == 'buf']
            if len(atoms) != 1:
                self.site(p, i, 'stream', False, 'buffer of a stream')
                return
            a = atoms[0]
            off = V.plus(Lin({a: 1}), -1)
            cells = {'bytes': [], 'offset': []}
            for g in list(p.ge) + [off] + ne:
                for x in g:
                    if x is not None and x[0] == 'm' and x[1][0] == a[1][0] and x[1][1] and x[1][1][-1][-1] in cells and x not in cells[x[1][1][-1][-1]]:
                        cells[x[1][1][-1][-1]].append(x)
            if not cells['bytes']:
                cells['bytes'] = [('m', (a[1][0], a[1][1][:-1] + ((a[1][1][-1][0], 'bytes'),)), 0)]
            extra = [Lin({x: 1}) for c in cells.values() for x in c]
            extra += [Lin({b: 1}).plus(Lin({o: 1}), -1) for b in cells['bytes'] for o in cells['offset'] if o[2] == 0]
            q = self.facts(p, extra)
            ok = any(self.within(q, off, Lin({b: 1}).plus(K(-1)), ne) for b in cells['bytes'])
            self.site(p, i, 'stream', ok, 'buffer of a stream')

    def within(self, p, off, last, ne=()):
        q = self.facts(p, self.assumed((), p))
        for D in ne:            # x is not zero, and x is not negative: x is positive
            for s in (D, Lin().plus(D, -1)):
                if self.nonneg(q, s):
                    q.ge.append(s.plus(K(-1)))
        return self.nonneg(q, off) and self.nonneg(q, last.plus(off, -1))

    def straight(self, o):
        """the address is the same on every way"""
        while isinstance(o, int) and o >= self.f.nparams:
            i = self.f.ins[o]
            if i.op == 'alloca':
                return True
            if i.op != 'getelementptr':
                return False
            o = i.a[0]
        return True

    def step(self, p, i, body):
        if self.on:
            if i.op == 'store':
                self.access(p, i, i.a[1], WIDTH.get(i.a[2] if len(i.a) > 2 else 'i32', 8))
            elif i.op == 'load':
                self.access(p, i, i.a[0], WIDTH.get(i.ty, 8))
        super().step(p, i, body)
        if self.on and i.op == 'call' and i.callee() in ('snprintf', 'vsnprintf') and i.id in p.env:
            n = self.written(i.args()[2])
            if n is not None:
                p.ge.append(K(n).plus(p.env[i.id], -1))

    def cond(self, p, o, truth, d=0):
        i = self.f.ins.get(o) if not isinstance(o, list) else None
        if self.on and i is not None and i.op == 'icmp' and i.a[0] in ('ult', 'ule', 'ugt', 'uge'):
            pr, a, b = i.a
            if not truth:
                pr = {'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}[pr]
            a, b = self.val(p, a), self.val(p, b)
            if pr in ('ugt', 'uge'):
                a, b = b, a
            # below a size as a number without sign: not negative
            if self.nonneg(p, b) or all(x is None or x[0] == 'm' and x[1][1] and x[1][1][-1][-1] in SIZES for x in b):
                p.ge.append(a)
        if self.on and i is not None and i.op == 'icmp' and i.a[0] in ('eq', 'ne') and isinstance(i.a[2], list) and i.a[2][1:2] == [0] and d < 4:
            # a comparison kept in a variable
            x = i.a[1]
            while isinstance(x, int) and x in self.f.ins and self.f.ins[x].op in ('zext', 'sext', 'freeze'):
                x = self.f.ins[x].a[0]
            if isinstance(x, int) and x in self.f.ins and self.f.ins[x].ty == 'i1':
                if not super().cond(p, x, truth == (i.a[0] == 'ne'), d + 1):
                    return False
        return super().cond(p, o, truth, d)

    def addr(self, p, o):
        a = super().addr(p, o)
        if a is None and isinstance(o, int) and self.on:
            v = self.val(p, o)
            if len(v) == 1:
                (x, c), = v.items()
                if c == 1 and x is not None and x[0] in ('n', 'in'):
                    return (x, ())
        return a

    def terminated(self, o):
        """text is read up to its end"""
        for b in self.f.blocks:
            B = self.f.blocks[b] if isinstance(self.f.blocks, dict) else b
            t = B[-1]
            c = self.f.ins.get(t.a[0]) if t.op == 'br' and isinstance(t.a[0], int) else None
            while c is not None and c.op == 'icmp' and c.a[0] in ('ne', 'eq') and isinstance(c.a[2], list) and c.a[2][1:2] == [0]:
                x = c.a[1]
                i = self.f.ins.get(x) if isinstance(x, int) else None
                while i is not None and i.op in ('sext', 'zext'):
                    i = self.f.ins.get(i.a[0]) if isinstance(i.a[0], int) else None
                if i is not None and i.op == 'load' and i.a[0] == o:
                    return True
                c = i if i is not None and i.op == 'icmp' else None
        return False

    def string(self, o):
        g = self.M.globals.get(o[1]) if isinstance(o, list) and o[0] == 'g' else None
        return g['str'] if g and g.get('const') and g.get('str') is not None else None

    def scanned(self, s, args):
        """every conversion stores no more than the object has that it is handed"""
        args = list(args)
        for m in re.finditer(r'%(\*?)(\d*)(hh|h|ll|l|z|j|t|L)?(\[\^?\]?[^\]]*\]|[a-zA-Z%])', s):
            star, w, l, k = m.groups()
            if star or k == '%':
                continue
            if not args:
                return False
            o = args.pop(0)
            if k[0] in 'diuxXon':
                n = {None: 4, 'hh': 1, 'h': 2}.get(l, 8)
            elif k[0] in 'aeEfgG':
                n = {None: 4, 'l': 8}.get(l, 16)
            elif k[0] in 'sc[':
                if not w:
                    return False
                n = int(w) + (k != 'c')
            else:
                return False
            room = self.room(o)
            if room is None and k[0] not in 'sc[':
                continue
            if room is None or (n > room if k[0] in 'sc[' else n != room):
                return False
        return not args

    def room(self, o):
        R = self.base(o) if isinstance(o, int) else set()
        if len(R) != 1 or not self.straight(o) and o >= self.f.nparams:
            return None
        r, = R
        if r[0] == 'al':
            ty = str(self.allocas[r[1]].a[0])
            return WIDTH.get(ty) or arraysize(ty)
        if r[0] == 'arg' and o == r[1]:
            dt = str(self.f.params[r[1]].get('dt', '')).replace('const', '').strip()
            return {'int *': 4, 'DTYPE *': 8 if self.M.double else 4, 'double *': 8, 'float *': 4, 'int*': 4, 'double*': 8, 'float*': 4, 'long *': 8, 'long*': 8}.get(dt)
        return None

    def written(self, o, d=0):
        """characters that printing numbers in a constant format takes, at the most"""
        if isinstance(o, list):
            s = self.string(o)
            return None if s is None else printed(s)
        i = self.f.ins.get(o)
        if i is None or d > 4:
            return None
        xs = [x for _, x in i.a[0]] if i.op == 'phi' else list(i.a[1:3]) if i.op == 'select' else []
        ns = [self.written(x, d + 1) for x in xs]
        return max(ns) if ns and None not in ns else None

    def call(self, p, i):
        if self.on:
            self.sink(p, i)
        super().call(p, i)

    def sink(self, p, i):
        c = i.callee() or ''
        cn = ir.cname(c)
        args = i.args()
        key = '.'.join(c.split('.')[:2]) if c.startswith('llvm.') else c
        ne = [e[1] for e in p.ev if e[0] == 'ne']
        if cn in SETS and '/io' in self.f.file:
            m, r, k = SETS[cn]
            ok = True
            for o, dim in ((args[r], 'rows'), (args[k], 'cols')):
                ok = ok and self.below(p, self.val(p, o), args[m], dim, ne)
            self.site(p, i, 'element', ok, 'row and column for %s' % cn)
        elif re.fullmatch(r'(__isoc\d+_)?(v?[sf]?scanf)', key):
            fmt = next((k for k, o in enumerate(args) if self.string(o) is not None), None)
            self.site(p, i, 'scan', fmt is not None and self.scanned(self.string(args[fmt]), args[fmt + 1:]), 'what the format of %s stores' % c)
        elif key in SIZED:
            d, n = SIZED[key]
            R = self.base(args[d]) if isinstance(args[d], int) else set()
            if len(R) == 1:
                r, = R
                off = self.val(p, args[d])
                size = self.val(p, args[n]) if n is not None else None
                if r[0] == 'al' and arraysize(self.allocas[r[1]].a[0]) is not None and not struct(self.allocas[r[1]].a[0]):
                    off = off.plus(self.val(p, r[1]), -1)
                    room = K(arraysize(self.allocas[r[1]].a[0])).plus(off, -1)
                elif r[0] == 'arg' and r[1] in self.lens:
                    off = off.plus(self.val(p, r[1]), -1)
                    room = self.val(p, self.lens[r[1]]).plus(off, -1)
                else:
                    return
                ok = size is not None and self.holds(p, [off, room.plus(size, -1)])
                self.site(p, i, 'library', ok, 'size given to %s' % c)
        elif c in self.M.fns and self.callees.get(c):
            for a, n in self.callees[c].items():
                R = self.base(args[a]) if isinstance(args[a], int) else set()
                if len(R) != 1:
                    continue
                r, = R
                off, size = self.val(p, args[a]), self.val(p, args[n])
                if r[0] == 'al':
                    if arraysize(self.allocas[r[1]].a[0]) is None:
                        continue
                    off = off.plus(self.val(p, r[1]), -1)
                    room = K(arraysize(self.allocas[r[1]].a[0])).plus(off, -1)
                elif r[0] == 'arg' and r[1] in self.lens:
                    off = off.plus(self.val(p, r[1]), -1)
                    room = self.val(p, self.lens[r[1]]).plus(off, -1)
                else:
                    continue
                ok = self.holds(p, [off, room.plus(size, -1), size.plus(K(-1))])
                self.site(p, i, 'length', ok, 'length handed to %s' % cn)

    def below(self, p, v, m, dim, ne):
        """0 <= v < size of the matrix"""
        a = self.addr(p, m) if isinstance(m, int) else None
        if a is None:
            return False
        q = self.facts(p, [])
        for D in ne:
            for s in (D, Lin().plus(D, -1)):
                if self.nonneg(q, s):
                    q.ge.append(s.plus(K(-1)))
        if not self.nonneg(q, v):
            return False
        for g in q.ge:
            for x in g:
                if x is not None and x[0] == 'm' and x[1][0] == a[0] and x[1][1] and x[1][1][-1][-1] == dim and g[x] == 1:
                    if self.nonneg(q, Lin({x: 1}).plus(v, -1).plus(K(-1))):
                        return True
        return False

    def enter(self, q, b, s):
        old = dict(q.env)
        init = {}
        if s in self.L:
            for x in self.f.blocks[s]:
                if x.op == 'phi':
                    for pb, o in x.a[0]:
                        if pb == b:
                            init[x.id] = self.val(q, o)
        super().enter(q, b, s)
        if s in self.L and self.on:
            F = self.facts(q, self.assumed((), q))
            for C in self.inv.get(s, ()):
                c0, c1 = Lin(), Lin()
                for a, k in C.items():
                    if a is not None and a[0] == 'p':
                        c0 = c0.plus(init.get(a[1], Lin({('q', 9): 1})), k)
                        c1 = c1.plus(q.env[a[1]], k)
                    elif a is not None and a[0] == 'v' and a[1] in old:
                        c0 = c0.plus(old[a[1]], k)
                        c1 = c1.plus(old[a[1]], k)
                    else:
                        c0, c1 = c0.plus(Lin({a: k})), c1.plus(Lin({a: k}))
                if self.nonneg(F, c0):
                    q.ge.append(c1)

    def merge(self, b, S, live):
        return S if self.on and len(S) < 24 else super().merge(b, S, live)

    def invariants(self, h, P):
        """bounds of loop variables that every way around keeps"""
        cand = {}
        for p in P or ():
            for g in p.ge[:80]:
                ps = [a for a in g if a is not None and a[0] == 'p']
                if len(ps) == 1 and all(a is None or a[0] in ('p', 'v') for a in g):
                    for k in (0, 1):
                        C = g.plus(K(k))
                        cand[C.key()] = C
        for x in self.f.blocks[h]:      # from below
            if x.op == 'phi':
                pass
        out = []
        for C in list(cand.values())[:60]:
            ok = True
            for p in P:
                n = Lin()
                for a, k in C.items():
                    n = n.plus(p.nxt.get(a[1], Lin({('q', 8): 1})), k) if a is not None and a[0] == 'p' else n.plus(Lin({a: k}))
                q = self.facts(p, [C])
                if not self.nonneg(q, n):
                    ok = False
                    break
            if ok:
                out.append(C)
        return out

    # variables that only take a few values, followed exactly
    def exact(self):
        """addresses of accesses to local arrays, when the constants of the function are followed on every path"""
        f = self.f
        start = min(f.rpo, key=lambda x: f.rpo[x])
        seen, todo, res, cost = set(), [(start, ())], {}, 0
        while todo:
            b, env = todo.pop()
            if (b, env) in seen:
                continue
            seen.add((b, env))
            if len(seen) > 60000:
                return {}
            known = dict(env)
            for i in f.blocks[b]:
                if i.op in ('store', 'load'):
                    o = i.a[1] if i.op == 'store' else i.a[0]
                    R = self.base(o) if isinstance(o, int) else ()
                    if len(R - {('const',)} if R else ()) == 1 and next(iter(R - {('const',)}))[0] == 'al':
                        v = self.cval(o, known)
                        res.setdefault(i.id if i.id is not None else id(i), set()).add(v)
                elif i.op != 'phi' and i.id is not None and i.ty != 'void' and i.op != 'alloca':
                    v = self.cval(i.id, known)
                    if v is not None:
                        known[i.id] = v
            t = f.blocks[b][-1]
            nx = list(f.succ[b])
            if t.op in ('br', 'switch') and t.a[0] is not None and len(nx) > 1:
                v = self.cval(t.a[0], known)
                if v is not None and not isinstance(v, tuple):
                    if t.op == 'br':
                        nx = [t.a[1] if v else t.a[2]]
                    else:
                        to = self.cases(t)
                        if to is not None:
                            nx = [to[0].get(v, to[1])]
            for y in set(nx):
                new = dict(known)
                # what a branch on a variable says of it
                c = f.ins.get(t.a[0]) if t.op == 'switch' and isinstance(t.a[0], int) else None
                if c is not None and c.op == 'phi':
                    ks = [k for k, d in self.cases(t)[0].items() if d == y]
                    if len(ks) == 1 and self.cases(t)[1] != y:
                        new[c.id] = ks[0]
                upd = {}
                for i in f.blocks[y]:
                    if i.op != 'phi':
                        break
                    o = next((o for q, o in i.a[0] if q == b), None)
                    upd[i.id] = self.cval(o, new) if o is not None else None
                for k, v in upd.items():
                    if v is None:
                        new.pop(k, None)
                    else:
                        new[k] = v
                new = {k: v for k, v in new.items() if k in f.live[y] or f.ins[k].bb == y}
                todo.append((y, tuple(sorted(new.items(), key=lambda e: e[0]))))
        return res

    def cval(self, o, env, d=0):
        if isinstance(o, list):
            return o[1] if o[0] == 'c' else None
        if o in env:
            return env[o]
        i = self.f.ins.get(o)
        if i is None or d > 10:
            return None
        if i.op == 'alloca':
            return ('at', o, 0)
        if i.op == 'getelementptr':
            v = self.cval(i.a[0], env, d + 1)
            if not isinstance(v, tuple):
                return None
            n = 0
            for s in i.a[1]:
                if s[0] != 'i':
                    return None
                k = self.cval(s[2], env, d + 1)
                if k is None or isinstance(k, tuple):
                    return None
                n += s[1] * k
            return (v[0], v[1], v[2] + n)
        if i.op in ('sext', 'zext', 'trunc', 'freeze'):
            return self.cval(i.a[0], env, d + 1)
        if i.op in ('add', 'sub', 'icmp'):
            a, b = self.cval(i.a[-2], env, d + 1), self.cval(i.a[-1], env, d + 1)
            if a is None or b is None or isinstance(a, tuple) or isinstance(b, tuple):
                return None
            if i.op == 'icmp':
                return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}.get(i.a[0])
            v = a + b if i.op == 'add' else a - b
            return v if abs(v) < 64 else None
        return None


def arraysize(ty):
    """bytes of an array type"""
    t = str(ty).strip()
    if not t.startswith('['):
        return None
    n, rest = t[1:-1].split(' x ', 1)
    w = WIDTH.get(rest) or arraysize(rest)
    return int(n) * w if w else None


def printed(s):
    """characters a format of numbers takes, at the most"""
    n, at = 0, 0
    for m in re.finditer(r'%([-+ #0]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%])', s):
        if '%' in s[at:m.start()]:
            return None
        n += m.start() - at
        at = m.end()
        w, prec, k = int(m.group(2) or 0), int(m.group(3)) if m.group(3) else None, m.group(5)
        if k == '%' or k == 'c':
            x = 1
        elif k in 'diuxXo' and m.group(4) in (None, 'h', 'hh'):
            x = 13
        elif k in 'diuxXo':
            x = 25
        elif k in 'eEgG' and m.group(4) != 'L':
            x = (6 if prec is None else prec) + 9
        else:
            return None
        n += max(w, x, (prec or 0) + 3)
    return None if '%' in s[at:] else n + len(s) - at


def struct(ty):
    return not str(ty).startswith('[')


def buffers(f):
    """parameters that are text buffers, with the parameter that has their length"""
    out = {}
    for k in range(f.nparams - 1):
        a, b = f.params[k], f.params[k + 1]
        if a.get('ty') == 'ptr' and b.get('ty') == 'i64' and 'char' in str(a.get('dt', '')) and 'const' not in str(a.get('dt', '')):
            out[k] = k + 1
    return out


def one(M, E, callees, n):
    f = M.fns[n]
    F = Func(f, M, E, callees.get(n, {}))
    F.callees = callees
    for h in F.order:
        F.judge(h)
        F.inv[h] = F.invariants(h, F.P if hasattr(F, 'P') else [])
    start = min(f.rpo, key=lambda x: f.rpo[x])
    if start in F.L:
        return n, None
    F.L[start] = set(f.rpo)
    F.on = True
    r = F.paths(start)
    ex = None
    out = []
    for (k, what), (i, w, ok, detail) in F.sites.items():
        if not ok and what == 'array':
            if ex is None:
                ex = F.exact()
            o = i.a[1] if i.op == 'store' else i.a[0]
            (x,) = F.base(o) - {("const",)}
            size = arraysize(F.allocas[x[1]].a[0])
            width = WIDTH.get((i.a[2] if len(i.a) > 2 else 'i32') if i.op == 'store' else i.ty, 8)
            if i.op == 'load' and width == 1 and F.terminated(o):
                continue
            vs = ex.get(i.id if i.id is not None else id(i))
            ok = bool(vs) and all(isinstance(v, tuple) and 0 <= v[2] <= size - width for v in vs)
        out.append((what, ok, detail, i.where(), term.scope(i)))
    return n, (r is not None or not F.capped, out)


def check(c):
    kinds, total, nf, mods = {}, 0, 0, 0
    for prec in ('FLOAT64', 'FLOAT32'):
        M = c.module(prec, keep=('armas_d_get_unsafe', 'armas_s_get_unsafe', 'armas_d_set_unsafe', 'armas_s_set_unsafe'), flags=('--inline-pred=160', '--keep-first'))
        M.double = prec == 'FLOAT64'
        E = ir.Effects(M)
        callees = {n: buffers(M.fns[n]) for n in M.fns if M.fns[n].blocks}
        todo = []
        for n in sorted(M.fns):
            f = M.fns[n]
            if not f.blocks or '/workers/' in f.file:
                continue
            for i in (i for b in term.blocks(f) for i in b if i.op == 'call' and i.callee() in UNBOUNDED):
                c.report('%s:%s' % (ir.cname(n), i.callee()), '%s writes as much as the text is long' % i.callee(), fn=ir.cname(n), where=i.where())
            text = '/io/' in f.file or f.file.endswith(('sparse/io.c', 'base/env.c', 'base/accel.c')) or callees.get(n)
            if text or any(i.op == 'alloca' and arraysize(i.a[0]) is not None for b in term.blocks(f) for i in b):
                todo.append(n)
        mods += 1
        for n, res in c.pmap(lambda n: one(M, E, callees, n), todo):
            nf += 1
            cn = ir.cname(n)
            if res is None or not res[0]:
                c.report('%s:paths' % cn, 'too many paths to follow', fn=cn)
                continue
            for what, ok, detail, where, sc in res[1]:
                total += 1
                kinds[what] = kinds.get(what, 0) + 1
                if not ok:
                    c.report('%s:%s:%s' % (cn, sc or cn, what), '%s: nothing on a path bounds the access' % detail, fn=cn, where=where)
                elif len(c.samples) < 12 and (what != 'buffer' or total % 5 == 0):
                    c.samples.append('%s: %s, %s' % (where, what, detail))
    c.cov.update(functions_analysed=nf, builds=mods, obligations=total, discharged=total - len(c.findings), by_kind=kinds,
                 trusted_base=['clang 18 front end and SROA', 'lib/checks/term.py', 'lib/checks/bufs.py'])
    c.assume += ['a buffer handed to a public function has the length given, which is not zero', 'streams are set up with the size of their buffer and an offset in it',
                 'index arithmetic does not overflow', 'the C library writes what its manual says']
    c.require('buffer', kinds.get('buffer', 0), 10)
    c.require('array', kinds.get('array', 0), 4)
    c.require('stream', kinds.get('stream', 0), 4)
    c.require('element', kinds.get('element', 0), 4)
    c.require('length', kinds.get('length', 0), 8)
    c.require('library', kinds.get('library', 0), 4)
