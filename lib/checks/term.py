"""C16: loops of the computing routines end, whatever the data.

For every natural loop the paths through its body are enumerated (inner loops collapsed to their variables and what is known of their
direction).  Along a path integer values are linear forms over the variables of the loop and values that do not change; the branches taken
give inequalities.  A loop ends when there is a lexicographic ranking: a linear form taken from its conditions that never grows, is bounded
on the path where it falls, and so on for the paths that remain."""
import itertools
import re

import ir

CAP = 3000
INT = {'i1', 'i8', 'i16', 'i32', 'i64'}


# members that hold block sizes: positive once armas_cache_setup or armas_env_init has been
SIZES = (('armas_cbuf_s', 'cache_s', 'armas_cbuf', 'cache', 'armas_env', 'armas_env_s'), ('NB', 'MB', 'KB', 'rb', 'nb', 'mb', 'kb'))
INDEXES = ('indexes', 'ix', 'ptr')
# functions that take something of the input
INPUT = {'getline', 'strsep', 'strtok', 'strtok_r', 'fgetc', 'getc', 'fgets', 'fscanf', 'getchar', 'fread', 'read'}
ELEMS = ('Acpy', 'Bcpy', 'elems')
# parts of a partition: the members of a part that grow as the consumed part does, by direction
DIRS = {0: ('T', -1), 1: ('T', 1), 2: ('L', -1), 3: ('L', 1), 4: ('TL', -1), 5: ('TL', 1)}


class Lin(dict):
    """linear form: atom -> coefficient, None -> constant"""
    def plus(self, o, k=1):
        r = Lin(self)
        for a, c in o.items():
            v = r.get(a, 0) + k * c
            if v:
                r[a] = v
            else:
                r.pop(a, None)
        return r

    def const(self):
        """its value when it is a number"""
        if not self:
            return 0
        return self[None] if set(self) == {None} else None

    def key(self):
        return frozenset(self.items())


def K(c):
    return Lin({None: c}) if c else Lin()


def blocks(f):
    return f.blocks.values() if isinstance(f.blocks, dict) else f.blocks


class Path:
    def __init__(self):
        self.env, self.ge, self.blocks, self.mem, self.ev, self.wr, self.ty, self.way = {}, [], [], {}, [], [], {}, frozenset()

    def copy(self):
        p = Path()
        p.env, p.ge, p.blocks, p.mem, p.ev = dict(self.env), list(self.ge), list(self.blocks), dict(self.mem), list(self.ev)
        p.wr, p.ty, p.way = list(self.wr), dict(self.ty), self.way
        return p


class Loop:
    def __init__(self, T, f, h, body):
        self.T, self.f, self.h, self.body = T, f, h, body


class Func:
    """loops of one function"""

    def __init__(self, f, M, E):
        self.f, self.M, self.E = f, M, E
        self.L = f.loops()
        self.dirs, self._wr, self.need, self.weak, self.how, self.byparts = {}, {}, {}, {}, {}, {}
        self.capped = False
        self.order = sorted(self.L, key=lambda h: len(self.L[h]))
        self.inner = {h: [g for g in self.L if g != h and g in self.L[h] and self.L[g] <= self.L[h]] for h in self.L}
        self.fresh = itertools.count()

    def val(self, p, o):
        """linear form of an operand"""
        if isinstance(o, list):
            if o[0] == 'c':
                return K(o[1])
            if o[0] == 'null':
                return K(0)
            return Lin({('x', str(o)): 1})
        if o in p.env:
            return p.env[o]
        return Lin({('v', o): 1})

    def cond(self, p, o, truth, d=0):
        """what is known when the condition is so"""
        if isinstance(o, list) or d > 6:
            return True
        c = p.env.get(o)
        if c is not None and c.const() is not None:
            return bool(c.const()) == truth
        i = self.f.ins.get(o)
        if i is None:
            return True
        if i.op == 'icmp' and o in p.env:
            pr, a, b = i.a
            a, b = p.ev_cmp[o] if hasattr(p, 'ev_cmp') and o in p.ev_cmp else (self.val(p, a), self.val(p, b))
            if not truth:
                pr = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}[pr]
            D = b.plus(a, -1)
            k = D.const()
            if pr in ('slt', 'ult'):
                p.ge.append(D.plus(K(-1)))
                return k is None or k >= 1
            if pr in ('sle', 'ule'):
                p.ge.append(D)
                return k is None or k >= 0
            N = a.plus(b, -1)
            if pr in ('sgt', 'ugt'):
                p.ge.append(N.plus(K(-1)))
                return k is None or k <= -1
            if pr in ('sge', 'uge'):
                p.ge.append(N)
                return k is None or k <= 0
            if pr == 'eq':
                p.ge += [D, N]
                return k is None or k == 0
            p.ev.append(('ne', D))
            return k is None or k != 0
        if i.op == 'xor' and isinstance(i.a[1], list) and i.a[1][1] in (1, -1, True):
            return self.cond(p, i.a[0], not truth, d + 1)
        if i.op == 'and' and truth or i.op == 'or' and not truth:
            return self.cond(p, i.a[0], truth, d + 1) and self.cond(p, i.a[1], truth, d + 1)
        if i.op in ('zext', 'freeze', 'trunc'):
            return self.cond(p, i.a[0], truth, d + 1)
        if i.op == 'phi' and ('phi', o) in p.env:
            return self.cond(p, p.env[('phi', o)], truth, d + 1)
        return True

    def step(self, p, i, body):
        op = i.op
        v = None
        if op in ('sext', 'zext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            v = self.val(p, i.a[0])
        elif op == 'add':
            v = self.val(p, i.a[0]).plus(self.val(p, i.a[1]))
        elif op == 'sub':
            v = self.val(p, i.a[0]).plus(self.val(p, i.a[1]), -1)
        elif op in ('mul', 'shl'):
            a, b = self.val(p, i.a[0]), self.val(p, i.a[1])
            if op == 'shl':
                b = K(1 << b.const()) if b.const() is not None and b.const() < 40 else b.plus(Lin({('sh', i.id): 1}))
            for x, y in ((a, b), (b, a)):
                if y.const() is not None:
                    v = Lin({k: c * y.const() for k, c in x.items() if c * y.const()})
            if v is None and op == 'mul' and len(a) == 1 and len(b) == 1:
                (x, c), (y, d) = next(iter(a.items())), next(iter(b.items()))
                v = Lin({('mul',) + tuple(sorted((x, y), key=str)): c * d})
        elif op == 'getelementptr':
            st = i.a[1]
            if len(st) == 1 and st[0][0] == 'i' and len(st[0]) > 2:
                n = self.val(p, st[0][2])
                v = self.val(p, i.a[0]).plus(n, st[0][1])
        elif op in ('lshr', 'ashr', 'sdiv', 'udiv'):
            a, b = self.val(p, i.a[0]), self.val(p, i.a[1]).const()
            if b is not None and b >= (1 if op in ('lshr', 'ashr') else 2):
                v = Lin({('div', op, a.key(), b): 1})
                d = a.plus(v, -1)
                # the part is less when it is positive
                if any(self.least(p, a, g) for g in [1]):
                    p.ge += [d.plus(K(-1)), v]
        elif op == 'load':
            v = self.load(p, i)
        elif op == 'select':
            for t, o in ((True, i.a[1]), (False, i.a[2])):
                pass
            v = Lin({('sel', i.id): 1})
            a, b = self.val(p, i.a[1]), self.val(p, i.a[2])
            for x in (a, b):
                d = x.plus(b if x is a else a, -1).const()
            d = a.plus(b, -1).const()
            if d is not None:
                lo = b if d >= 0 else a
                hi = a if d >= 0 else b
                p.ge += [v.plus(lo, -1), hi.plus(v, -1)]
            else:
                self.least1(p, i, v, a, b)
        elif op == 'call':
            self.call(p, i)
        elif op == 'store':
            self.store(p, i)
        if v is None and i.id is not None and i.ty != 'void':
            v = Lin({('n', i.id, next(self.fresh)): 1}) if self.varies(i, body) else Lin({('v', i.id): 1})
        if v is not None:
            p.env[i.id] = v

    def least1(self, p, i, v, a, b):
        """the lesser (greater) of two values, and positive when both are"""
        c = self.f.ins.get(i.a[0]) if not isinstance(i.a[0], list) else None
        if c is None or c.op != 'icmp':
            return
        pr, x, y = c.a
        x, y = self.val(p, x), self.val(p, y)
        if pr[1:] in ('gt', 'ge'):
            x, y = y, x
        elif pr[1:] not in ('lt', 'le'):
            return
        if not x.plus(y, -1).plus(a, -1).plus(b) or not x.plus(y, -1).plus(b, -1).plus(a):
            same = not x.plus(y, -1).plus(a, -1).plus(b)    # a is taken when it is the lesser
            for w in (a, b):
                p.ge.append(w.plus(v, -1) if same else v.plus(w, -1))
        if self.positive(p, a) and self.positive(p, b):
            p.ge.append(v.plus(K(-1)))

    def positive(self, p, a):
        return self.nonneg(p, a.plus(K(-1))) or len(a) == 1 and self.step_size(next(iter(a)), a)

    def step_size(self, x, a=None):
        """a block size of the configuration"""
        if a is not None and a[x] < 1:
            return False
        return x is not None and x[0] == 'm' and bool(x[1][1]) and isinstance(x[1][1][-1], tuple) and x[1][1][-1][0] in SIZES[0] and x[1][1][-1][1] in SIZES[1]

    def varies(self, i, body):
        return True

    def least(self, p, a, k):
        """a >= k is known"""
        a = a.plus(K(-k))
        return self.nonneg(p, a)

    def nonneg(self, p, a, d=0):
        c = a.const()
        if c is not None:
            return c >= 0
        for g in p.ge:
            r = a.plus(g, -1).const()
            if r is not None and r >= 0:
                return True
        for g, g2 in itertools.combinations_with_replacement(p.ge[:60], 2):
            r = a.plus(g, -1).plus(g2, -1).const()
            if r is not None and r >= 0:
                return True
        return False

    # memory: cells of locals and members reached by unchanging pointers
    def roots(self, o):
        if isinstance(o, int) and not isinstance(o, bool):
            return self.E.eff[self.f.name].val.get(o, ())
        if isinstance(o, list) and o:
            if o[0] == 'g':
                return {('g', o[1], ())}
            if o[0] == 'gep':
                return self.roots(o[1])
        return ()

    def addr(self, p, o):
        """(base, fields) of an address"""
        if isinstance(o, list):
            if o[0] == 'g':
                return (('g', o[1]), ())
            if o[0] == 'gep':
                b = self.addr(p, o[1])
                st = self.steps(o[2], p)
                return None if b is None or st is None else (b[0], b[1] + st)
            return None
        if o < self.f.nparams:
            return (('arg', o), ())
        i = self.f.ins[o]
        if i.op == 'getelementptr':
            st = self.steps(i.a[1], p)
            b = self.addr(p, i.a[0])
            return None if b is None or st is None else (b[0], b[1] + st)
        if i.op == 'alloca':
            return (('al', o), ())
        v = self.val(p, o)
        if len(v) == 1:
            (x, c), = v.items()
            if c == 1 and x is not None and x[0] in ('v', 'm'):
                return (x, ())
        return None

    def steps(self, st, p=None):
        out = []
        for s in st:
            if s[0] == 'f':
                out.append((s[1], s[2]))
            elif s[0] == 'i' and len(s) > 2:
                v = self.val(p, s[2]) if p is not None else Lin()
                if v:
                    out.append(frozenset((a, c) for a, c in v.items()))
            else:
                return None
        return tuple(out)

    def keyof(self, o, ty):
        k = self.f.addr_key(o)
        if k != 'x':
            return k
        if isinstance(o, int) and o >= self.f.nparams and self.f.ins[o].op == 'getelementptr' and ty in INT:
            return ('e', ty + '#')      # element of an array
        return ('e', ty)

    def cell(self, a):
        """address with the first member of a structure made explicit"""
        if a is None or a[1]:
            return a
        st = None
        if a[0][0] == 'arg':
            st = self.f.params[a[0][1]].get('st') if a[0][1] < len(self.f.params) else None
        elif a[0][0] == 'al':
            st = next((x for x in self.f.ins[a[0][1]].a if isinstance(x, str)), None)
            st = st[1:].split('.')[-1] if st and st.startswith('%') else st
        F = self.M.fields.get(st)
        return (a[0], ((st, F[0]),)) if F else a

    def first(self, k):
        F = self.M.fields.get(k[0])
        return bool(F) and F[0] == k[1]

    def hits(self, w, a, ty):
        """may the write change the cell"""
        R, key = w[0], w[1]
        kb = next((x for x in reversed(a[1]) if isinstance(x, tuple)), None) or ('e', ty)
        if key[0] == 'e':
            if R is None and key[1] == 'ext' and kb[0] != 'e':
                return False        # functions of the C library write to buffers and streams
            if key[1] in ('double', 'float', 'vec') or str(key[1]).startswith('<'):
                return False
            if str(key[1]).endswith('#'):
                if kb != ('e', key[1][:-1]):
                    return False
            elif key[1] not in ('mem', 'ext', 'free') and not (kb == key or kb[0] != 'e' and self.first(kb)):
                return False
        elif kb != key:
            return False
        if R is None:
            return not (a[0][0] == 'al' and a[0][1] not in self.esc())
        A = {'al': lambda: {('a', a[0][1], ())}, 'arg': lambda: {('p', a[0][1], ())}, 'g': lambda: {('g', a[0][1], ())},
             'v': lambda: self.roots(a[0][1]), 'm': lambda: self.mroots(a[0][1])}.get(a[0][0], lambda: ())()
        if not A:
            return True
        return any((r[:2] == q[:2] and not (r[2] and q[2] and r[2] != q[2])) or r[0] == 'h' and q[0] == 'h' for r in R for q in A)

    def mroots(self, a):
        """roots of what a member of an object points to"""
        b = {'al': 'a', 'arg': 'p', 'g': 'g'}.get(a[0][0])
        m = [x[1] for x in a[1] if isinstance(x, tuple)]
        return {(b, a[0][1], (m[-1],) if m else ())} if b in ('p', 'g') else ()

    def esc(self):
        if not hasattr(self, '_esc'):
            s = set()
            for r, c in self.E.eff[self.f.name].cont.items():
                s |= {x[1] for x in c if x[0] == 'a'}
            self._esc = s
        return self._esc

    def writes(self, i):
        """[(roots or None, key)] of an instruction"""
        if i.op == 'store':
            ty = i.a[2] if len(i.a) > 2 else 'i32'
            return [(self.roots(i.a[1]) or None, self.keyof(i.a[1], ty))]
        if i.op in ('atomicrmw', 'cmpxchg'):
            return [(None, self.keyof(i.a[0], 'i32'))]
        if i.op != 'call':
            return []
        c = i.callee()
        args = i.args()
        if c and c.startswith('llvm.'):
            if c.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                return [(self.roots(args[0]) or None, ('e', 'mem'))]
            return []
        out = []
        if c and c not in self.M.fns:
            ks = ir.EXT_MOD.get(c, []) + (list(range(ir.EXT_MODVAR[c], len(args))) if c in ir.EXT_MODVAR else [])
            return [(self.roots(args[k]) or None, ('e', 'ext')) for k in ks if k < len(args)]
        for t in self.M.targets(i):
            if t not in self.M.fns:
                continue
            e = self.E.eff[t]
            for (k, path, key) in e.mod:
                if k < len(args):
                    if path and path[-1] in ELEMS and key[0] == 'e':
                        continue        # elements of matrices and their copies
                    if path and path[-1] in INDEXES and key[0] == 'e' and key[1] in INT:
                        key = (key[0], key[1] + '#')
                    R = self.roots(args[k])
                    out.append(({(r[0], r[1], (path[-1],) if path else r[2]) for r in R} or None, key))
            for (g, path, key) in e.modg:
                out.append(({('g', g, ())} if not path else None, key))
        return out

    def dirty(self, p, ws):
        n = next(self.fresh) + 1
        for w in ws:
            p.wr.append((w[0], w[1], n))
            for b in list(p.mem):
                if self.hits(w, b, p.ty.get(b, 'i32')):
                    del p.mem[b]

    def load(self, p, i):
        if i.ty not in INT and i.ty != 'ptr':
            return None
        a = self.cell(self.addr(p, i.a[0]))
        if a is None:
            return None
        v = p.mem.get(a)
        if v is None:
            n = 0
            for w in reversed(p.wr):
                if self.hits(w, a, i.ty):
                    n = w[2]
                    break
            p.ty[a] = i.ty
            v = p.mem[a] = Lin({('m', a, n): 1})
        return v

    def store(self, p, i):
        a = self.cell(self.addr(p, i.a[1]))
        v = self.val(p, i.a[0])
        self.dirty(p, self.writes(i))
        if a is not None:
            p.mem[a] = v
            p.ty[a] = i.a[2] if len(i.a) > 2 else 'i32'

    def call(self, p, i):
        c = i.callee()
        if c and c.startswith('llvm.') and not c.startswith('llvm.mem'):
            return
        args = i.args()
        p.ev.append(('call', ir.cname(c or ''), i.id, [self.addr(p, o) if isinstance(o, int) else None for o in args], [self.val(p, o) for o in args]))
        self.dirty(p, self.writes(i))

    def wrote(self, h):
        """what the loop may write"""
        if h not in self._wr:
            self._wr[h] = [w for b in self.L[h] for i in self.f.blocks[b] for w in self.writes(i)]
        return self._wr[h]

    def paths(self, h):
        """states at the edges back to the header, one per way through the body that makes a difference"""
        f, body = self.f, self.L[h]
        rpo = f.rpo
        live = f.live
        p = Path()
        for i in f.blocks[h]:
            if i.op == 'phi':
                p.env[i.id] = Lin({('p', i.id): 1})
        at = {h: [p]}
        done = []
        for b in sorted(body, key=lambda x: rpo[x]):
            S = self.merge(b, at.pop(b, []), live)
            if len(S) > CAP:
                self.capped = True
                return None
            for p in S:
                dead = False
                p.way |= {b}
                for i in f.blocks[b]:
                    if i.op == 'phi':
                        continue
                    if i.op in ('br', 'switch', 'ret', 'unreachable', 'indirectbr'):
                        break
                    self.step(p, i, body)
                    if i.op == 'call' and self.noreturn(i):
                        dead = True
                if dead:
                    continue
                succ = f.succ[b]
                for s in dict.fromkeys(succ):
                    if s not in body or (s != h and rpo[s] <= rpo[b]):
                        continue
                    q = p.copy()
                    if i.op == 'br' and i.a[0] is not None and len(set(succ)) == 2:
                        if not self.cond(q, i.a[0], s == i.a[1]):
                            continue
                    if s == h:
                        q.nxt = {}
                        for x in f.blocks[h]:
                            if x.op == 'phi':
                                for pb, o in x.a[0]:
                                    if pb == b:
                                        q.nxt[x.id] = self.val(q, o)
                        done.append(q)
                        continue
                    self.enter(q, b, s)
                    at.setdefault(s, []).append(q)
        return done

    def noreturn(self, i):
        return i.callee() in ('abort', 'exit', '__assert_fail')

    def merge(self, b, S, live):
        """states that differ in nothing that matters are one"""
        if len(S) < 2:
            return S
        out = {}
        live = {b: set(live[b]) | {x.id for x in self.f.blocks[b] if x.op == 'phi'}}
        for p in S:
            env = []
            for k, v in p.env.items():
                if isinstance(k, tuple):
                    if k[0] == 'phi':
                        env.append((k, str(v)))
                elif k in live[b]:
                    env.append((k, v.key() if all(a is None or a[0] in ('p', 'in', 'v', 'x', 'm', 'mul', 'div') for a in v) else 0))
            # phi operands that are not live any more do not matter
            env = [e for e in env if not isinstance(e[0], tuple) or e[0][1] in live[b]]
            p.ge = [g for g in p.ge if any(a is not None and a[0] != 'v' for a in g)]
            ge = frozenset(g.key() for g in p.ge)
            ev = tuple(e[1:3] for e in p.ev if e[0] == 'call' and ('partition' in e[1] or 'continue' in e[1] or 'pivot_' in e[1]))
            ne = frozenset(e[1].key() for e in p.ev if e[0] == 'ne')
            key = (frozenset(env), ge, ev, ne)
            q = out.get(key)
            if q is None:
                out[key] = p
            else:
                q.way &= p.way
                for a in list(q.mem):
                    if p.mem.get(a) != q.mem[a]:
                        del q.mem[a]
                        q.wr.append((None, next((x for x in reversed(a[1]) if isinstance(x, tuple)), None) or ('e', q.ty.get(a, 'i32')), next(self.fresh) + 1))
                have = {id(w) for w in q.wr}
                ws = {(w[1], w[2]) for w in q.wr}
                q.wr += [w for w in p.wr if (w[1], w[2]) not in ws]
                for k, v in p.env.items():
                    if isinstance(k, int) and k in q.env and q.env[k] != v:
                        self.hull(q, p, k)
        if len(out) > 64:
            # keep only what is known of all of them
            out2 = {}
            for p in out.values():
                key = (tuple(e[1:3] for e in p.ev if e[0] == 'call' and ('partition' in e[1] or 'continue' in e[1])),
                       next((g.key() for g in p.ge if any(a is not None and a[0] == 'p' for a in g)), None),
                       frozenset((k, v.key()) for k, v in p.env.items() if isinstance(k, int) and k in live[b] and any(a is not None and a[0] == 'p' for a in v)))
                q = out2.get(key)
                if q is None:
                    out2[key] = p
                    continue
                q.way &= p.way
                gs = {g.key() for g in p.ge}
                q.ge = [g for g in q.ge if g.key() in gs]
                for a in list(q.mem):
                    if p.mem.get(a) != q.mem[a]:
                        del q.mem[a]
                        q.wr.append((None, next((x for x in reversed(a[1]) if isinstance(x, tuple)), None) or ('e', q.ty.get(a, 'i32')), next(self.fresh) + 1))
                ws = {(w[1], w[2]) for w in q.wr}
                q.wr += [w for w in p.wr if (w[1], w[2]) not in ws]
                ne = {e[1].key() for e in p.ev if e[0] == 'ne'}
                q.ev = [e for e in q.ev if e[0] != 'ne' or e[1].key() in ne]
                for k, v in list(q.env.items()):
                    if isinstance(k, tuple):
                        if p.env.get(k) != v:
                            del q.env[k]
                    elif k not in p.env:
                        pass
                    elif p.env[k] != v:
                        self.hull(q, p, k)
            return list(out2.values())
        return list(out.values())

    def hull(self, q, p, k):
        """the value is one of two: what bounds both of them is kept"""
        a, b = q.env[k], p.env[k]
        v = q.env[k] = Lin({('n', k, next(self.fresh)): 1})
        d = a.plus(b, -1).const()
        if d is not None:
            lo, hi = (b, a) if d >= 0 else (a, b)
            q.ge += [v.plus(lo, -1), hi.plus(v, -1)]
            return
        for own, other in ((a, b), (b, a)):
            if len(own) == 1 and next(iter(own.values())) == 1 and next(iter(own)) is not None and next(iter(own))[0] == 'n':
                x = next(iter(own))
                for g in list(q.ge if own is a else p.ge):
                    if x in g:
                        c = g[x]
                        r = Lin({y: z for y, z in g.items() if y != x})
                        if (r.plus(other, c).const() or 0) >= 0 and r.plus(other, c).const() is not None:
                            q.ge.append(r.plus(v, c))

    def enter(self, q, b, s):
        new = {}
        for x in self.f.blocks[s]:
            if x.op != 'phi':
                continue
            for pb, o in x.a[0]:
                if pb == b:
                    new[x.id] = self.val(q, o)
                    new[('phi', x.id)] = o
        if s in self.L:
            # an inner loop: its variables have gone some way
            d = self.dirs.get(s, {})
            for x in self.f.blocks[s]:
                if x.op == 'phi':
                    init = new.pop(x.id, None)
                    new.pop(('phi', x.id), None)
                    v = new[x.id] = Lin({('in', x.id, next(self.fresh)): 1})
                    if init is not None and x.id in d:
                        lo, hi = d[x.id]
                        if lo >= 0:
                            q.ge.append(v.plus(init, -1))
                        if hi <= 0:
                            q.ge.append(init.plus(v, -1))
            self.dirty(q, self.wrote(s))
        q.env.update(new)

    def still(self, a, h):
        """address does not change in the loop"""
        return self.fixed(a[0], h) and all(self.invariant(x, h) for st in a[1] if isinstance(st, frozenset) for x, _ in st)

    def fixed(self, base, h):
        """pointer does not change in the loop"""
        if base[0] == 'v':
            i = self.f.ins.get(base[1])
            return i is None or i.bb not in self.L[h]
        if base[0] == 'm':
            return base[2] == 0 and self.still(base[1], h) and not any(self.hits(w, base[1], 'ptr') for w in self.wrote(h))
        return True

    def invariant(self, a, h):
        if a is None:
            return True
        if a[0] == 'v':
            i = self.f.ins.get(a[1])
            return i is None or i.bb not in self.L[h]
        if a[0] == 'x':
            return True
        if a[0] == 'mul':
            return all(self.invariant(x, h) for x in a[1:])
        if a[0] == 'div':
            return all(self.invariant(x, h) for x, _ in a[2])
        return a[0] == 'm' and a[2] == 0 and self.still(a[1], h) and not any(self.hits(w, a[1], 'i32') for w in self.wrote(h))

    def parts(self, p, h):
        """a partition moves on: split off a part, continue with the rest in the same direction, leave by the size of what is left"""
        calls = [e for e in p.ev if e[0] == 'call']
        for a in calls:
            m = re.search(r'(mat|vec|pivot)_repartition_', a[1])
            if not m:
                continue
            d, nb = a[4][-1], a[4][-2]
            if not self.positive(p, nb):
                if len(nb) == 1 and self.invariant(next(iter(nb)), h):
                    self.need.setdefault(h, set()).add(next(iter(nb)))
                else:
                    self.weak.setdefault(h, set()).add(str(nb)[:80])
            for c in calls[calls.index(a) + 1:]:
                if re.search(m[1] + r'_continue_', c[1]) and c[4][-1] == d and c[3][0] == a[3][0] and c[3][-2] == a[3][-3]:
                    tl, br = c[3][0], c[3][{'pivot': 1, 'vec': 1}.get(m[1], 3 if '2x2' in c[1] else 1)]
                    ways = [(tl, br), (br, tl)] if d.const() is None else [(tl, br)] if DIRS.get(d.const(), (0, 1))[1] > 0 else [(br, tl)]
                    zero = [e[1] for e in p.ev if e[0] == 'ne' and not e[1].get(None)]
                    for g in p.ge + zero + [Lin().plus(x, -1) for x in zero]:
                        if any(self.falls(g, h, *w) for w in ways):
                            return True
        return False

    def falls(self, g, h, grow, fall):
        """a sum made of what is left of the whole, that nothing in it makes larger again"""
        left = False
        for x, k in g.items():
            if x is None or self.invariant(x, h):
                continue
            if x[0] == 'p':
                if x[1] not in self.dirs[h] or (self.dirs[h][x[1]][1] > 0 if k > 0 else self.dirs[h][x[1]][0] < 0):
                    return False
                continue
            for y in (x[1:] if x[0] == 'mul' else [x]):
                if y[0] == 'm' and y[2] == 0 and y[1][0] in self.same((fall if k > 0 else grow)[0]):
                    left = True
                elif not self.invariant(y, h):
                    return False
        return left

    def same(self, base):
        """a local and the variables that may hold its address"""
        out = {base}
        if base[0] == 'al':
            for i in self.f.ins.values():
                if i.op in ('phi', 'select') and i.ty == 'ptr' and any(r[:2] == ('a', base[1]) for r in self.roots(i.id)):
                    out.add(('v', i.id))
        return out

    def without(self, g, ge):
        """what follows for the variables of the loop of a fact on what inner loops made of them"""
        for n in range(3):
            x = next((a for a in g if a is not None and a[0] in ('in', 'n')), None)
            if x is None:
                return [g] if n else []
            for o in ge:
                if o is not g and x in o and o[x] == -g[x] and len(o) <= 3:
                    g = g.plus(o)
                    break
            else:
                return []
        return [] if any(a is not None and a[0] in ('in', 'n') for a in g) else [g]

    def deps(self, o, seen=None, d=0):
        """instructions a value is made of"""
        seen = set() if seen is None else seen
        if isinstance(o, int) and not isinstance(o, bool) and o not in seen and o >= self.f.nparams and d < 40:
            seen.add(o)
            i = self.f.ins[o]
            if i.op == 'phi':
                for pb, x in i.a[0]:
                    if isinstance(x, int) and x >= self.f.nparams:
                        if self.f.ins[x].op != 'phi':
                            self.deps(x, seen, d + 1)
                    elif len(set(self.f.succ[pb])) == 2 and self.f.blocks[pb][-1].op == 'br':
                        self.deps(self.f.blocks[pb][-1].a[0], seen, d + 1)
            else:
                for x in self.f.ops(i):
                    self.deps(x, seen, d + 1)
        return seen

    def exits(self, h):
        """conditions on which the loop is left"""
        out = []
        for b in self.L[h]:
            t = self.f.blocks[b][-1]
            if t.op in ('br', 'switch') and any(s not in self.L[h] for s in self.f.succ[b]) and t.a[0] is not None:
                out.append((b, t.a[0]))
        return out

    def scan(self, h, P):
        """looks at one element after the other until one of them ends it"""
        for x in (x.id for x in self.f.blocks[h] if x.op == 'phi'):
            D = {p.nxt.get(x, Lin({('q', 0): 1})).plus(Lin({('p', x): 1}), -1).const() for p in P}
            if len(D) != 1 or None in D or 0 in D:
                continue
            for b, c in self.exits(h):
                for o in self.deps(c):
                    i = self.f.ins[o]
                    if i.op == 'load' and i.bb in self.L[h] and x in self.deps(i.a[0]) and all(b in p.way for p in P):
                        return True
        return False

    def reads(self, h, P):
        """takes something of the input every time around"""
        ins = [i for b in self.L[h] for i in self.f.blocks[b] if i.op == 'call' and self.input(i)]
        ids = {i.id for i in ins}
        # where the result of the call, or a number that stands for the end of the input, is taken
        at = {i.bb for i in ins} | {i.bb for b in self.L[h] for i in self.f.blocks[b] if i.op == 'phi' and any(o in ids for pb, o in i.a[0] if isinstance(o, int))}
        if not ids or not all(at & p.way for p in P):
            return False
        # once the input has ended there is no way around any more
        state, todo = {}, [(e, False) for e in self.begins(h)]
        while todo:
            env, back = todo.pop()
            if back:
                state[env] = 2
                continue
            if state.get(env) == 1 or len(state) > 400:
                return False
            if env in state:
                continue
            state[env] = 1
            todo.append((env, True))
            for e in self.atend(h, self.L[h], 0, env)[0]:
                if state.get(e) == 1:
                    return False
                todo.append((e, False))
        return True

    def begins(self, h):
        """values of loop variables that only take a few constants, one combination after the other"""
        dom = [()]
        for i in self.f.blocks[h]:
            if i.op != 'phi':
                break
            v = self.domain(i.id)
            if v is not None and len(v) * len(dom) <= 200:
                dom = [e + ((i.id, frozenset([k])),) for e in dom for k in sorted(v)]
        return [tuple(sorted(e, key=lambda x: x[0])) for e in dom]

    def domain(self, o, seen=None):
        if isinstance(o, list):
            return {o[1]} if o[0] == 'c' else None
        i = self.f.ins.get(o)
        seen = set() if seen is None else seen
        if i is None or i.op not in ('phi', 'select'):
            return None
        if o in seen:
            return set()
        seen.add(o)
        r = set()
        for x in ([x for _, x in i.a[0]] if i.op == 'phi' else i.a[1:3]):
            v = self.domain(x, seen)
            if v is None:
                return None
            r |= v
        return r

    def atend(self, start, body=None, deep=0, env=()):
        """states in which the loop goes on, and values returned, when all that is read has come to its end"""
        f = self.f
        seen, done, rets = set(), set(), {}
        todo = [(start, env)]
        while todo:
            x, env = todo.pop()
            if (x, env) in seen:
                continue
            seen.add((x, env))
            if len(seen) > 4000:
                return {()}, {b: None for b in f.rpo if f.blocks[b][-1].op == 'ret'}
            known = dict(env)
            t = f.blocks[x][-1]
            nx = list(f.succ[x])
            if t.op == 'ret':
                v = self.endval(t.a[0], known, deep) if t.a and t.a[0] is not None else None
                rets[x] = None if v is None or rets.get(x, ()) is None else set(rets.get(x, ())) | v
            v = self.endval(t.a[0], known, deep) if t.op in ('br', 'switch') and t.a[0] is not None and len(nx) > 1 else None
            if v is not None and t.op == 'br':
                nx = [t.a[1] if k else t.a[2] for k in v]
            elif v is not None:
                to = self.cases(t)
                if to is not None:
                    nx = [to[0].get(k, to[1]) for k in v]
            for y in set(nx):
                if body is not None and y not in body:
                    continue
                new = dict(known)
                for i in f.blocks[y]:
                    if i.op != 'phi':
                        break
                    w = next((self.endval(o, known, deep) for q, o in i.a[0] if q == x), None)
                    if w is None:
                        new.pop(i.id, None)
                    else:
                        new[i.id] = frozenset(w)
                new = tuple(sorted(new.items(), key=lambda e: e[0]))
                if y == start and body is not None:
                    done.add(new)
                else:
                    todo.append((y, new))
        return done, rets

    def cases(self, t):
        try:
            return {(k[1] if isinstance(k, list) else k): b for k, b in t.a[2]}, t.a[1]
        except (TypeError, ValueError, IndexError):
            return None

    def endval(self, o, env, deep, d=0):
        """values of an operand when the input has ended; None if they can be anything"""
        if isinstance(o, list):
            return {o[1]} if o[0] == 'c' else {0} if o[0] == 'null' else None
        i = self.f.ins.get(o)
        if i is None or d > 12:
            return None
        if i.op == 'phi':
            return env.get(o)

        def of(x):
            return self.endval(x, env, deep, d + 1)
        if i.op == 'call':
            c = i.callee()
            if not self.input(i):
                return None
            if c not in self.M.fns:
                return {0} if i.ty == 'ptr' else {-1}
            if deep > 4:
                return None
            g = Func.__new__(Func)
            g.f, g.M = self.M.fns[c], self.M
            r = set()
            for v in g.atend(min(g.f.rpo, key=lambda x: g.f.rpo[x]), None, deep + 1)[1].values():
                if v is None:
                    return None
                r |= v
            return r
        if i.op in ('trunc', 'sext', 'zext', 'freeze'):
            v = of(i.a[0])
            return None if v is None else v if i.op != 'zext' or all(k >= 0 for k in v) else None
        if i.op == 'icmp':
            a, b = of(i.a[1]), of(i.a[2])
            if a is None or b is None or i.a[0][0] == 'u':
                return None
            return {{'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[i.a[0]] for x in a for y in b}
        if i.op in ('and', 'or') and i.ty == 'i1':
            a, b = of(i.a[0]), of(i.a[1])
            k = i.op == 'or'
            if a is not None and set(map(bool, a)) == {k} or b is not None and set(map(bool, b)) == {k}:
                return {k}
            return None if a is None or b is None else {bool(x) or bool(y) if k else bool(x) and bool(y) for x in a for y in b}
        if i.op == 'xor' and i.ty == 'i1':
            a = of(i.a[0])
            return None if a is None else {not x for x in a}
        if i.op == 'select':
            c = of(i.a[0])
            r = set()
            for k, x in ((True, i.a[1]), (False, i.a[2])):
                if c is None or k in set(map(bool, c)):
                    v = of(x)
                    if v is None:
                        return None
                    r |= v
            return r
        return None

    def input(self, i):
        c = i.callee()
        if c in INPUT:
            return True
        if c in self.M.fns:
            g = Func.__new__(Func)
            g.f, g.M = self.M.fns[c], self.M
            return any(i.op == 'call' and i.callee() not in self.M.fns and g.input(i) for B in blocks(g.f) for i in B)
        if c is None:
            return '/io/' in self.f.file        # functions of a stream
        return False

    def grows(self, h, P):
        """a number that is not zero is multiplied by the same factor until it is large"""
        for x in self.f.blocks[h]:
            if x.op != 'phi' or x.ty not in ('double', 'float'):
                continue
            body = [o for pb, o in x.a[0] if pb in self.L[h]]
            init = [o for pb, o in x.a[0] if pb not in self.L[h]]
            if len(body) != 1 or not isinstance(body[0], int):
                continue
            m = self.f.ins[body[0]]
            if m.op != 'fmul' or x.id not in m.a:
                continue
            k = m.a[1] if m.a[0] == x.id else m.a[0]
            k = self.number(k)
            if k is None or k in (0.0, 1.0):
                continue
            if not any(self.towards(c, (m.id, x.id), h, self.f.blocks[b][-1].a[1] in self.L[h], abs(k) > 1) for b, c in self.exits(h)):
                continue
            if all(self.nonzero(o, h) for o in init):
                return True
        return False

    def number(self, o, d=0):
        """value of a constant"""
        if isinstance(o, list):
            try:
                return float(o[1]) if o[0] in ('c', 'fp') else None
            except ValueError:
                return None
        if d < 6 and o >= self.f.nparams and self.f.ins[o].op in ('fpext', 'fptrunc'):
            return self.number(self.f.ins[o].a[0], d + 1)
        if d < 6 and o >= self.f.nparams and self.f.ins[o].op in ('fdiv', 'fmul'):
            a, b = (self.number(x, d + 1) for x in self.f.ins[o].a[:2])
            if a is not None and b:
                return a / b if self.f.ins[o].op == 'fdiv' else a * b
        return None

    def towards(self, c, xs, h, true, up):
        """the number grows (or gets small) until the condition to stay in the loop is false"""
        i = self.f.ins.get(c) if isinstance(c, int) else None
        if i is None or i.op != 'fcmp':
            return False
        pr, a, b = i.a[:3]
        if self.number(a) is not None:
            a, b = b, a
            pr = pr[0] + {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}.get(pr[1:], pr[1:])
        k = self.number(b)
        j = self.f.ins.get(a) if isinstance(a, int) else None
        if j is not None and j.op == 'call' and (j.callee() or '').startswith('llvm.fabs'):
            a = j.args()[0]
        if a not in xs or k is None:
            return False
        if pr[1:] not in ('lt', 'le', 'gt', 'ge'):
            return False
        return ((pr[1] == 'l') == true) == up

    def nonzero(self, o, h):
        """the number has been tested before the loop"""
        if not isinstance(o, int) or o < self.f.nparams:
            return isinstance(o, list) and o[0] in ('c', 'fp') and o[1] not in (0, '0', '0.0')
        vals = {o}
        i = self.f.ins[o]
        if i.op == 'call' and (i.callee() or '').startswith(('hypot', 'llvm.fabs')):
            vals |= {x for x in i.args() if isinstance(x, int)}
        # blocks that can be reached from a block where the value is zero
        for b, B in enumerate(self.f.blocks) if isinstance(self.f.blocks, list) else self.f.blocks.items():
            t = B[-1]
            if t.op != 'br' or t.a[0] is None or not isinstance(t.a[0], int):
                continue
            c = self.f.ins.get(t.a[0])
            if c is None or c.op != 'fcmp':
                continue
            pr, a, z = c.a
            if isinstance(a, list):
                a, z = z, a
            if isinstance(a, int) and a in self.f.ins and self.f.ins[a].op == 'fpext':
                a = self.f.ins[a].a[0]
            if a not in vals or not (isinstance(z, list) and z[0] == 'fp' and float(z[1]) == 0.0):
                continue
            zero = {'oeq': t.a[1], 'ueq': t.a[1], 'une': t.a[2], 'one': t.a[2]}.get(pr)
            if zero is not None and zero != h and not self.reach(zero, h, b):
                return True
        return False

    def guarded(self, o, at):
        """the block cannot be reached when the value is zero"""
        f = self.f
        if not isinstance(o, int):
            return False
        i = f.ins.get(o)
        while i is not None and i.op in ('trunc', 'sext', 'zext', 'freeze') and isinstance(i.a[0], int):
            i = f.ins.get(i.a[0])
        start = min(f.rpo, key=lambda x: f.rpo[x])
        if i is not None and i.op != 'load':
            start = i.bb
        seen, todo = set(), [(None, start)]
        while todo:
            e = todo.pop()
            if e in seen:
                continue
            seen.add(e)
            p, x = e
            if x == at:
                return False
            t = f.blocks[x][-1]
            nx = list(f.succ[x])
            if t.op == 'br' and t.a[0] is not None and len(set(nx)) == 2:
                z = self.atzero(t.a[0], o, p, x)
                if z is not None:
                    nx = [t.a[1] if z else t.a[2]]
            todo += [(x, y) for y in nx]
        return True

    def atzero(self, c, o, p, at, d=0):
        """truth of a condition when the value is zero and the block is entered from p"""
        if isinstance(c, list):
            return bool(c[1]) if c[0] == 'c' else None
        i = self.f.ins.get(c)
        if i is None or d > 8:
            return None
        if i.op == 'icmp':
            pr, x, y = i.a
            if isinstance(x, list):
                x, y = y, x
                pr = pr[0] + {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}[pr[1:]] if pr not in ('eq', 'ne') else pr
            if not (isinstance(y, list) and y[0] == 'c'):
                return None
            k = y[1]
            if self.alike(x, o):
                return {'eq': 0 == k, 'ne': 0 != k, 'slt': 0 < k, 'sle': 0 <= k, 'sgt': 0 > k, 'sge': 0 >= k, 'ult': 0 < k, 'ule': True, 'ugt': False, 'uge': 0 >= k}.get(pr)
            if k == 0 and pr in ('eq', 'ne'):
                z = self.atzero(x, o, p, at, d + 1)
                return None if z is None else z == (pr == 'ne')
            return None
        if i.op in ('zext', 'sext', 'trunc', 'freeze'):
            return self.atzero(i.a[0], o, p, at, d + 1)
        if i.op in ('and', 'or'):
            z = [self.atzero(x, o, p, at, d + 1) for x in i.a[:2]]
            k = i.op == 'or'
            return k if k in z else None if None in z else not k
        if i.op == 'xor' and isinstance(i.a[1], list) and i.a[1][0] == 'c' and i.a[1][1] in (1, -1, True):
            z = self.atzero(i.a[0], o, p, at, d + 1)
            return None if z is None else not z
        if i.op == 'select':
            z = self.atzero(i.a[0], o, p, at, d + 1)
            if z is not None:
                return self.atzero(i.a[1] if z else i.a[2], o, p, at, d + 1)
            w = {self.atzero(x, o, p, at, d + 1) for x in i.a[1:3]}
            return w.pop() if len(w) == 1 else None
        if i.op == 'phi':
            if i.bb == at and p is not None:
                v = next((x for q, x in i.a[0] if q == p), None)
                return None if v is None else self.atzero(v, o, None, None, d + 1)
            w = {self.atzero(x, o, None, None, d + 1) for q, x in i.a[0]}
            return w.pop() if len(w) == 1 else None
        return None

    def alike(self, x, o):
        if x == o:
            return True
        if not isinstance(x, int) or not isinstance(o, int) or x not in self.f.ins or o not in self.f.ins:
            return False
        i, j = self.f.ins[x], self.f.ins[o]
        if i.op != j.op or i.op not in ('load', 'getelementptr', 'trunc', 'sext', 'zext'):
            return False
        a, b = self.f.ops(i), self.f.ops(j)
        return len(a) == len(b) and all(p == q or self.alike(p, q) for p, q in zip(a, b)) and (i.op != 'getelementptr' or i.a[1] == j.a[1])

    def reach(self, a, b, without):
        seen, todo = {a}, [a]
        while todo:
            x = todo.pop()
            if x == b:
                return True
            for s in self.f.succ[x]:
                if s not in seen and s != without:
                    seen.add(s)
                    todo.append(s)
        return False

    def judge(self, h):
        """(ends, paths, reason)"""
        P = self.paths(h)
        if P is None:
            return False, 0, 'too many paths'
        # directions of the variables
        d = {}
        phis = [x.id for x in self.f.blocks[h] if x.op == 'phi']
        for x in phis:
            lo, hi = 0, 0
            for p in P:
                D = p.nxt.get(x, Lin({('q', 0): 1})).plus(Lin({('p', x): 1}), -1)
                c = D.const()
                if c is not None:
                    lo, hi = min(lo, c), max(hi, c)
                else:
                    if not self.nonneg(p, D):
                        lo = -1
                    if not self.nonneg(p, Lin().plus(D, -1)):
                        hi = 1
            d[x] = (lo, hi)
        self.dirs[h] = d
        left = list(range(len(P)))
        cands = []
        seen = set()
        for p in P:
            for g in p.ge:
                if g.const() is None and g.key() not in seen:
                    seen.add(g.key())
                    cands.append(g)
            for e in p.ev:
                if e[0] == 'ne':
                    for D in (e[1], Lin().plus(e[1], -1)):
                        if D.key() not in seen:
                            seen.add(D.key())
                            cands.append(D)
        for p in P:
            for g in p.ge[:40]:
                for g in self.without(g, p.ge):
                    p.ge.append(g)
                    if g.const() is None and g.key() not in seen:
                        seen.add(g.key())
                        cands.append(g)
        self.P = P
        left = [k for k in left if not self.parts(P[k], h)]
        self.byparts[h] = len(left) < len(P)
        cands = [g for g in cands if all(a is None or a[0] in ('p', 'v', 'x', 'm', 'mul', 'div') for a in g)]

        def after(g, p):
            r = Lin()
            for a, c in g.items():
                if a is not None and a[0] == 'p':
                    r = r.plus(p.nxt.get(a[1], Lin({('q', 1): 1})), c)
                elif a is not None and a[0] == 'v':
                    i = self.f.ins.get(a[1])
                    if i is not None and i.bb in self.L[h]:
                        return None
                    r = r.plus(Lin({a: c}))
                elif a is not None and a[0] == 'div':
                    if not self.invariant(a, h):
                        return None
                    r = r.plus(Lin({a: c}))
                elif a is not None and a[0] == 'mul':
                    if not all(self.invariant(x, h) for x in a[1:]):
                        return None
                    r = r.plus(Lin({a: c}))
                elif a is not None and a[0] == 'm':
                    # value of the cell at the start of the iteration -> at its end
                    if a[2] != 0:
                        return None
                    if not self.still(a[1], h):
                        return None
                    v = p.mem.get(a[1])
                    if v is None:
                        if any(self.hits(w, a[1], p.ty.get(a[1], 'i32')) for w in p.wr):
                            return None
                        v = Lin({a: 1})
                    r = r.plus(v, c)
                else:
                    r = r.plus(Lin({a: c}))
            return r

        while left:
            for g in cands:
                drop = []
                ok = True
                for k in left:
                    p = P[k]
                    n = after(g, p)
                    if n is None:
                        ok = False
                        break
                    D = g.plus(n, -1)       # how much it falls
                    c = D.const()
                    if c is None and len(D) == 1 and D[next(iter(D))] == 1 and (self.invariant(next(iter(D)), h) or self.step_size(next(iter(D)))):
                        self.need.setdefault(h, set()).add(next(iter(D)))
                        c = 1
                    if (c is not None and c >= 1) or (c is None and self.nonneg(p, D.plus(K(-1)))):
                        if self.nonneg(p, g.plus(K(4))):
                            drop.append(k)
                        elif c == 1 and any(e[0] == 'ne' and e[1].key() in (g.key(), Lin().plus(g, -1).key()) for e in p.ev):
                            drop.append(k)
                    elif not ((c is not None and c >= 0) or (c is None and self.nonneg(p, D))):
                        ok = False
                        break
                if ok and drop:
                    left = [k for k in left if k not in drop]
                    break
            else:
                for how in ('scan', 'reads', 'grows'):
                    if left and getattr(self, how)(h, P):
                        self.how[h] = how
                        return True, len(P), None
                return False, len(P), P[left[0]]
        return True, len(P), None



# loops whose end depends on properties of numbers; (function, how many), with what ends them
NUMERIC = {
    'armas_scale_to': (1, 'scale factors are split until the rest of the factor is in range'),
    'dqds_goodstep': (1, 'shift is reduced, and zero after two failures'),
    'armas_normal': (1, 'pairs of random numbers are drawn until one is inside of the unit circle'),
    'armas_normal_at': (1, 'pairs of random numbers are drawn until one is inside of the unit circle'),
    'armas_printf': (2, 'index jumps forward once, over the rows or columns that are left out'),
}
FLAGS = ('--inline-header=60', '--inline-pred=160')


class Whole:
    """all functions of the library"""

    def __init__(self, M):
        self.M, self.E = M, ir.Effects(M)
        self.FS = {}
        self.callers = {}
        for n, f in M.fns.items():
            for B in blocks(f):
                for i in B:
                    if i.op == 'call':
                        for t in M.targets(i):
                            self.callers.setdefault(t, []).append((n, i))

    def of(self, n):
        if n not in self.FS:
            self.FS[n] = Func(self.M.fns[n], self.M, self.E)
        return self.FS[n]

    def positive(self, n, o, at, d=0, seen=()):
        """how a value is known to be positive; None if it is not"""
        F = self.of(n)
        f = F.f
        if isinstance(o, list):
            return 'guard' if o[0] == 'c' and o[1] > 0 else None
        if F.guarded(o, at):
            return 'guard'
        if (n, o) in seen:
            return 'guard'      # round a cycle: what comes in from outside decides
        if d > 12:
            return None
        seen = seen + ((n, o),)
        if o < f.nparams:
            r = [self.positive(m, i.args()[o], i.bb, d + 1, seen) for m, i in self.callers.get(n, ())]
            return self.worst(r) if r else None
        i = f.ins[o]
        if i.op in ('trunc', 'sext', 'zext', 'freeze'):
            return self.positive(n, i.a[0], at, d + 1, seen)
        if i.op == 'load':
            k = f.addr_key(i.a[0])
            if k[0] in SIZES[0] and k[1] in SIZES[1] or k == 'x' and self.M.fields.get(self.struct(f, i.a[0]), ('',))[0] in SIZES[1]:
                return 'block size'
            if k[1] in ('rows', 'cols', 'step') and str(k[0]).startswith('armas'):
                return 'size'
            return None
        if i.op in ('shl', 'mul'):
            x, y = i.a[:2] if isinstance(i.a[1], list) or i.op == 'shl' else (i.a[1], i.a[0])
            if isinstance(y, list) and y[0] == 'c' and y[1] > 0:
                return self.positive(n, x, at, d + 1, seen)
        if i.op == 'and' and self.sized(f, o):
            return 'size'       # a size rounded to a multiple
        if i.op in ('sdiv', 'udiv', 'lshr', 'ashr'):
            return 'size' if self.positive(n, i.a[0], at, d + 1, seen) or i.op == 'sdiv' and self.sized(f, i.a[0]) else None
        if i.op == 'phi':
            r = []
            for pb, x in i.a[0]:
                if isinstance(x, int) and x == o:
                    continue
                t = f.blocks[pb][-1]
                r.append(self.positive(n, x, pb, d + 1, seen) or ('guard' if isinstance(x, int) and self.edge(F, x, pb, i.bb) else None))
            return self.worst(r) if r else None
        if i.op == 'select':
            r = []
            for x, side in ((i.a[1], True), (i.a[2], False)):
                r.append(self.positive(n, x, at, d + 1, seen) or ('guard' if self.chosen(F, i.a[0], x, side) else None))
            return self.worst(r)
        return None

    def worst(self, r):
        return None if None in r else 'size' if 'size' in r else 'block size' if 'block size' in r else 'guard'

    def sized(self, f, o, d=0):
        if not isinstance(o, int) or o < f.nparams or d > 6:
            return False
        i = f.ins[o]
        if i.op == 'load':
            return f.addr_key(i.a[0])[-1] in ('rows', 'cols')
        return i.op in ('add', 'sub', 'and', 'shl', 'xor', 'sdiv', 'phi', 'select') and any(self.sized(f, x, d + 1) for x in f.ops(i) if isinstance(x, int))

    def struct(self, f, o):
        return f.params[o].get('st') if isinstance(o, int) and o < len(f.params) else None

    def tests(self, F, c, x):
        """truth of the condition when x is zero"""
        c = F.f.ins.get(c) if isinstance(c, int) else None
        if c is None or c.op != 'icmp':
            return None
        pr, a, b = c.a
        if isinstance(a, list):
            a, b = b, a
            pr = pr if pr in ('eq', 'ne') else pr[0] + {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}[pr[1:]]
        if not F.alike(a, x) or not (isinstance(b, list) and b[0] == 'c'):
            return None
        k = b[1]
        return {'eq': 0 == k, 'ne': 0 != k, 'slt': 0 < k, 'sle': 0 <= k, 'sgt': 0 > k, 'sge': 0 >= k}.get(pr)

    def edge(self, F, x, pb, b):
        t = F.f.blocks[pb][-1]
        if t.op != 'br' or t.a[0] is None or len(set(F.f.succ[pb])) != 2:
            return False
        z = self.tests(F, t.a[0], x)
        return z is not None and (t.a[1] if z else t.a[2]) != b

    def chosen(self, F, c, x, side):
        z = self.tests(F, c, x) if isinstance(x, int) else None
        return z is not None and z != side


def scope(i):
    return ir.cname(i.loc[2]) if i.loc and len(i.loc) > 2 else None


def near(f, L, h):
    """an instruction that shows where the loop is"""
    for b in [h] + sorted(L - {h}, key=lambda b: f.rpo[b]):
        for i in f.blocks[b]:
            if i.op != 'phi' and i.loc and i.loc[0]:
                return i
    return f.blocks[h][-1]


def one(W, n):
    F = W.of(n)
    f = F.f
    out = []
    for h in F.order:
        i = near(f, F.L[h], h)
        ok, paths, why = F.judge(h)
        need = []
        if ok:
            for x in F.need.get(h, ()):
                if x[0] == 'v':
                    need.append((f.vname(x[1]) or 'step', W.positive(n, x[1], h)))
                elif F.step_size(x):
                    need.append((x[1][1][-1][1], 'block size'))
                else:
                    need.append((str(x[1][1][-1][1]) if x[0] == 'm' and x[1][1] else 'step', 'size'))
        out.append((ok, paths, F.how.get(h, 'parts' if ok and F.byparts.get(h) else 'count'), i.where(), scope(i), need, why if isinstance(why, str) else trail(f, why) if why is not None else None))
    return n, out


def trail(f, p):
    """places on a way around on which nothing is known to go on"""
    out = []
    for b in sorted(p.way, key=lambda b: f.rpo[b]):
        w = next((i.where() for i in f.blocks[b] if i.loc and i.loc[0]), None)
        if w and (not out or out[-1] != w):
            out.append(w)
    return out[:12]


def check(c):
    total = proved = npaths = nneed = nf = skipped = 0
    kinds, known, sizes = {}, {}, set()
    for prec in (('FLOAT64', 'FLOAT32') if c.thorough else ('FLOAT64',)):
        M = c.module(prec, inline=True, flags=FLAGS)
        W = Whole(M)
        todo = [n for n in sorted(M.fns) if M.fns[n].blocks and '/workers/' not in M.fns[n].file]
        skipped += len(M.fns) - len(todo)
        for n, res in c.pmap(lambda n: one(W, n), todo):
            nf += 1
            cn = ir.cname(n)
            used = {}
            for ok, paths, how, where, sc, need, why in res:
                if '/workers/' in where:
                    continue
                total += 1
                npaths += paths
                if not ok:
                    ex = next((x for x in (cn, sc) if x in NUMERIC), None)
                    if ex and used.get((n, ex), 0) < NUMERIC[ex][0]:
                        used[(n, ex)] = used.get((n, ex), 0) + 1
                        known[ex] = NUMERIC[ex][1]
                        kinds['ends by its numbers'] = kinds.get('ends by its numbers', 0) + 1
                        continue
                    c.report('%s:%s:loop' % (cn, sc or cn), 'nothing the loop is left by goes on towards its end on a way around the loop' if why != 'too many paths'
                             else 'too many ways around the loop', fn=cn, where=where, path=why if isinstance(why, list) else None)
                    continue
                proved += 1
                kinds[how] = kinds.get(how, 0) + 1
                for nm, k in need:
                    nneed += 1
                    if k is None:
                        c.report('%s:%s:%s' % (cn, sc or cn, nm), 'the loop goes on by %s, which may be zero' % nm, fn=cn, where=where)
                    elif k != 'guard':
                        sizes.add('%s in %s' % (nm, cn))
                if len(c.samples) < 12 and paths > 20:
                    c.samples.append('%s: %d ways around, %s' % (where, paths, how))
    c.cov.update(functions_analysed=nf, loops=total, loops_proved=proved, ways_around=npaths, steps_to_be_positive=nneed, obligations=total + nneed,
                 discharged=total + nneed - len(c.findings), by_argument=kinds, ends_by_numbers=known, steps_assumed_positive=len(sizes),
                 functions_left_to_C11=skipped, trusted_base=['clang 18 front end and SROA', 'lib/checks/term.py'])
    c.assume += ['index arithmetic does not overflow', 'block sizes of the configuration, and sizes of matrices that a loop goes on by, are positive',
                 'input ends; scans for a terminating element find it', 'partition functions divide as property C08 has it',
                 'index arrays of different operands are different']
    c.require('loops', total, 600)
    c.require('partition loops', kinds.get('parts', 0), 60)
