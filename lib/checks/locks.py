"""Threads of the accelerators: locks, conditions, hand-over of memory and tasks, creation and joining."""
import os
import re
from collections import namedtuple

import engine
import front
import ir

ACQ = ('pthread_mutex_lock',)
REL = ('pthread_mutex_unlock',)
WAIT = ('pthread_cond_wait',)
TWAIT = ('pthread_cond_timedwait', 'pthread_cond_clockwait')
SIG = ('pthread_cond_signal', 'pthread_cond_broadcast')
ALLOC = ('malloc', 'calloc', 'aligned_alloc')

# held: locks in the order taken; chg: (address, value at the lock) of members stored to; sig: conditions signalled;
# rck: wait not yet rechecked; pub: objects handed over (object, kind, how, state); exp: local objects others know the address of;
# nocr: thread ids whose creation failed; cur: task a thread works on; ins: times each parameter was put into a queue;
# wcnt: last constant put to the reference count; debt: state of the task prepared here; stop: objects whose threads were joined;
# owe: conditions to signal (condition, key, message)
PS = namedtuple('PS', 'held chg sig rck pub exp nocr cur ins wcnt debt stop owe')
PS0 = PS((), (), frozenset(), None, frozenset(), frozenset(), frozenset(), None, 0, None, None, frozenset(), ())


class World:
    """what the first pass over all functions found"""

    def __init__(self):
        self.kinds = set()        # (struct, mutex member)
        self.guarded = {}         # (struct, member) -> mutex member
        self.locked = {}          # (struct, member) -> {mutex member}
        self.written = set()      # (struct, member) stored outside initialisation
        self.pred = {}            # (struct, condition, site) -> set of literals
        self.conds = {}           # struct -> {condition: mutex}
        self.published = {}       # fn -> {description}
        self.inits = {}           # fn -> {description}
        self.acc = {}             # (fn, ins) -> access
        self.order = {}           # (kind, kind) -> where
        self.ins = {}             # fn -> {param index put into a queue}
        self.qelem = set()        # (struct, member) pointer to the elements of a queue
        self.compl = set()        # (struct, member) pointing to a counter
        self.joined = set()       # (struct, member) of thread ids joined
        self.created = {}         # (struct, member) of thread ids created -> where
        self.refs = set()         # (struct, member) of reference counts
        self.resv = set()         # (struct, member) reserved by compare-and-swap
        self.cas = {}             # (struct, member stored by cas) -> expected constant
        self.joiner = {}
        self.freer = {}
        self.runs = set()         # (struct, member) of function called by threads
        self.atom = {}            # (struct, member) -> where accessed atomically
        self.nacc = 0

    def merge(self, o):
        for k, v in o.__dict__.items():
            w = getattr(self, k)
            if isinstance(v, int):
                setattr(self, k, w + v)
            elif isinstance(v, set):
                w |= v
            else:
                for x, y in v.items():
                    if isinstance(y, set) and x in w:
                        if k == 'pred':
                            w[x] = w[x] & y
                        else:
                            w[x] = w[x] | y
                    elif isinstance(y, dict) and x in w:
                        w[x].update(y)
                    else:
                        w[x] = y


def desc(T, t):
    """an object as an access path, without indexes and times"""
    x = T.tab[t]
    if x[0] == 'arg':
        return 'arg%d' % x[1]
    if x[0] == 'f':
        return '%s.%s' % (desc(T, x[1]), x[3])
    if x[0] == 'ix':
        return desc(T, x[1]) + '[]'
    if x[0] == 'ld':
        return '*' + desc(T, x[1])
    if x[0] in ('st', 'phm', 'phi'):
        return '?'
    return '%s%s' % (x[0], x[1] if len(x) > 1 else '')


class Locks(engine.Client):
    limit = 24

    def __init__(self, W, fn, phase, threadside, starts, cov):
        self.W, self.fn, self.phase = W, fn, phase
        self.thread = fn.name in threadside
        self.start = fn.name in starts
        self.bad = {}
        self.cov = cov
        self.stopped = {}
        # headers of loops that read reference counts
        self.refloops = set()
        for h, body in fn.loops().items():
            if any(i.op == 'load' and len(i.a) > 1 for b in body for i in fn.blocks[b]):
                self.refloops.add(h)
        self.waits = {i.id for b in fn.blocks for i in b if i.op == 'call' and i.callee() in WAIT}
        self.O = World()          # what this function adds

    def init(self, A, st):
        return PS0

    def pinned(self, A, st):
        p = st.ps
        out = list(p.held) + [x for c in p.chg for x in c if x is not None] + [x for e in p.pub for x in (e[0], e[2], e[4]) if type(x) is engine.Ref]
        if p.cur:
            out.append(p.cur[0])
        for a, v in st.mem.items():
            if self.keepmem2(A, st, a, v):
                out += [a, v]
        return out

    def keepmem2(self, A, st, a, v):
        """members of an object whose lock is held"""
        x = A.T.tab[a]
        return x[0] == 'f' and any(A.T.tab[h][0] == 'f' and A.T.tab[h][1] == x[1] for h in st.ps.held)

    def rename(self, A, st, ids):
        T, p = A.T, st.ps

        def bad(t):
            return type(t) is engine.Ref and not ids.isdisjoint(T.dep[t])
        new = []
        for e in p.pub:
            if bad(e[4]):
                e = e[:3] + ('drained' if A.T.const(A.rep(st, e[4])) == 0 else e[3], None)
            if bad(e[2]):
                e = e[:2] + (None,) + e[3:]
            if bad(e[0]):
                if e[1] == 'thread':
                    new.append((None,) + e[1:])
                continue
            new.append(e)
        st.ps = p._replace(
            chg=tuple((a, None if bad(v) else v) for a, v in p.chg if not bad(a)),
            owe=tuple(e[:3] + (tuple(b for b in e[3] if not bad(b[1]) and not bad(b[2])),) for e in p.owe if not bad(e[0])),
            sig=frozenset(c for c in p.sig if not bad(c)), pub=frozenset(new),
            exp=frozenset(x for x in p.exp if not bad(x)), nocr=frozenset(x for x in p.nocr if not bad(x)),
            cur=None if p.cur and bad(p.cur[0]) else p.cur, stop=frozenset(x for x in p.stop if not bad(x)))
        if p.cur and bad(p.cur[0]):
            self.close(A, st, p.cur, None)
        for h in p.held:
            if bad(h):
                self.err('stale', None, 'a mutex is still held when the object that has it is passed over')

    def err(self, what, i, msg):
        k = (what, i.id if i is not None else None)
        if k not in self.bad:
            self.bad[k] = (what, msg, i.where() if i is not None else '%s:%d' % (self.fn.file, self.fn.line))

    # ---- objects ----------------------------------------------------------
    def fresh(self, A, o):
        r = A.T.tab[A.root(o)]
        return r[0] == 'al' or r[0] == 'call' and self.fn.ins[r[1]].callee() in ALLOC

    def private(self, A, st, o):
        """nobody else knows the object yet, or not any more"""
        p = st.ps
        r = A.rep(st, o)
        for e in p.pub:
            if e[0] is not None and self.obj(A, st, r) == e[0] and e[3] == 'pub':
                return False
        if self.fresh(A, o):
            return not any(A.root(o) == A.root(x) and (x == o or self.under(A, x, o)) for x in p.exp)
        ds = desc(A.T, self.obj(A, st, r))
        return ds in self.W.published.get(self.fn.name, ()) or any(desc(A.T, r) == d for d in self.W.inits.get(self.fn.name, ()))

    def under(self, A, x, o):
        while True:
            if x == o:
                return True
            t = A.T.tab[o]
            if t[0] not in ('f', 'ix'):
                return False
            o = t[1]

    def obj(self, A, st, a):
        """the separate object an address belongs to: an element, or the whole"""
        T = A.T
        while T.tab[a][0] == 'f':
            a = A.rep(st, T.tab[a][1])
        if T.tab[a][0] == 'ix' and T.const(T.tab[a][3]) == 0:
            a = T.tab[a][1]
        return a

    # ---- accesses -----------------------------------------------------------
    def access(self, A, st, i, a, rw, atomic):
        T = A.T
        x = T.tab[a]
        if x[0] != 'f':
            return
        if A.isalloca(a) and not any(A.root(e) == A.root(a) for e in st.ps.exp) and not any(e[0] is not None and A.root(e[0]) == A.root(a) for e in st.ps.pub):
            return
        o, S, f = A.rep(st, x[1]), x[2], x[3]
        self.cov['accesses'].add((self.fn.name, i.id))
        p = st.ps
        if p.cur and p.cur[5] and self.obj(A, st, a) == p.cur[0]:
            self.err('gone', i, 'task is accessed after its completion was reported, when its memory may be gone')
        own = None
        for h in p.held:
            y = T.tab[h]
            if y[0] == 'f' and y[2] == S and A.rep(st, y[1]) == o:
                own = y[3]
        priv = self.private(A, st, o)
        if own:
            self.O.locked.setdefault((S, f), set()).add(own)
        if rw == 'w' and not priv:
            self.O.written.add((S, f))
        if atomic:
            self.O.atom.setdefault((S, f), i.where())
        if self.phase == 2:
            m = self.W.guarded.get((S, f))
            if m and not priv and own != m:
                self.err('unguarded', i, '%s.%s is %s without holding %s.%s' % (
                    S.replace('armas_ac_', ''), f, 'changed' if rw == 'w' else 'read', S.replace('armas_ac_', ''), m))
            if m and priv and own != m and self.fresh(A, o) and not self.private(A, st, o):
                pass
        kinds = frozenset((T.tab[h][2], T.tab[h][3]) for h in p.held if T.tab[h][0] == 'f')
        mine = self.thread and T.tab[A.root(a)][0] == 'arg'
        if not priv and not self.hdr:
            k = (self.fn.name, i.id)
            old = self.O.acc.get(k)
            if old:
                kinds = kinds & old[3]
            self.O.acc[k] = (S, f, rw, kinds, atomic, self.thread, mine, i.where(), self.fn.name, self.fn.file)

    def on_load(self, A, st, i, a):
        T = A.T
        atomic = len(i.a) > 1
        self.access(A, st, i, a, 'r', atomic)
        if atomic:
            A.redefine(st, i.id)
            st.mem.pop(a, None)
            st.ep[A.akey(a)] = i.id
            x = T.tab[a]
            if x[0] == 'f' and (x[2], x[3]) in self.W.refs:
                v = A.load(st, a, i.ty)
                o = self.obj(A, st, a)
                # the value read decides, wherever a loop over the tasks has been reached before
                st.ps = st.ps._replace(pub=frozenset(e[:3] + ('done' if e[3] == 'drained' else e[3], v) if e[0] == o else e for e in st.ps.pub))
        q = self.element(A, st, a)
        if q and st.ps.held:
            A.redefine(st, i.id)
            st.mem.pop(a, None)
            st.ep['x'] = i.id
            v = A.load(st, a, i.ty)
            self.O.qelem.add(q)
            if self.start and i.ty == 'ptr':
                if st.ps.cur:
                    self.close(A, st, st.ps.cur, i)
                # task, reserved, reference dropped, runs, completions, gone
                st.ps = st.ps._replace(cur=(v, None, 0, 0, 0, False))

    def element(self, A, st, a):
        """(struct, member) when a is an element of an array that a member of an object with a lock points to"""
        T = A.T
        x = T.tab[a]
        b = x[1] if x[0] == 'ix' else a
        b = A.rep(st, b) if type(b) is engine.Ref else b
        y = T.tab[b]
        if y[0] == 'ld' and T.tab[y[1]][0] == 'f':
            z = T.tab[y[1]]
            if any(k[0] == z[2] for k in self.W.kinds | self.O.kinds) and x[0] == 'ix':
                return (z[2], z[3])
        return None

    def on_store(self, A, st, i, a, v):
        T = A.T
        x = T.tab[a]
        atomic = len(i.a) > 3
        self.access(A, st, i, a, 'w', atomic)
        p = st.ps
        if x[0] == 'f':
            S, f, o = x[2], x[3], A.rep(st, x[1])
            m = self.W.guarded.get((S, f))
            if m and not any(c[0] == a for c in p.chg) and any(self.member(A, st, h)[2] == o for h in p.held):
                p = p._replace(chg=p.chg + ((a, A.load(st, a)),))
            if (S, f) in self.W.refs:
                p = p._replace(wcnt=T.const(A.rep(st, v)) if T.const(A.rep(st, v)) is not None else '?')
            if (S, f) in self.W.compl and not self.thread and not self.hdr:
                if p.debt is not None:
                    self.err('lost', i, 'next task is prepared when the previous one was neither handed over nor computed here')
                p = p._replace(debt='init')
            if m and self.phase == 2 and any(g[0] == S for g in self.counters()):
                # completion of a task
                c = p.cur
                y = T.tab[o]
                if self.thread:
                    if c and y[0] == 'ld' and T.tab[y[1]][0] == 'f' and (T.tab[y[1]][2], T.tab[y[1]][3]) in self.W.compl and \
                            A.rep(st, T.tab[y[1]][1]) == A.rep(st, c[0]):
                        if c[4] >= c[3]:
                            self.err('completion', i, 'completion of a task is counted %s' % ('before it has run' if not c[3] else 'twice'))
                        c = c[:4] + (min(c[4] + 1, 2),) + c[5:]
                        p = p._replace(cur=self.gone(c))
                elif not self.private(A, st, o):
                    if p.debt == 'ran':
                        p = p._replace(debt=None)
                    elif p.debt is not None:
                        self.err('completion', i, 'completion of a task is counted that has not been computed here')
            if self.phase == 2 and (S, f) in self.W.resvid:
                e = self.W.resvid[(S, f)]
                if A.decide(st, A.mkcmp(st, 'ne', A.rep(st, v), T.c(e))) is not True and A.fact(st, v)[0] <= e <= A.fact(st, v)[1] and not A.fact(st, v)[4]:
                    self.err('identity', i, '%s.%s may be %d, the value of a task nobody has reserved' % (S, f, e))
        q = self.element(A, st, a)
        if q and p.held and i.a[2] == 'ptr':
            self.O.qelem.add(q)
            r = T.tab[A.root(A.rep(st, v))]
            if r[0] == 'arg':
                self.O.ins.setdefault(self.fn.name, set()).add(r[1])
                self.O.published.setdefault(self.fn.name, set()).add(desc(T, self.obj(A, st, A.rep(st, v))))
                p = p._replace(ins=min(p.ins + 1, 3), pub=p.pub | {(self.obj(A, st, A.rep(st, v)), 'task', None, 'pub', None)})
        # address of a local or new object stored elsewhere
        vr = A.rep(st, v)
        if T.tab[A.root(vr)][0] in ('al', 'call') and self.fresh(A, vr) and A.root(vr) != A.root(a) and not A.isalloca(a) and self.first(A, vr):
            p = p._replace(exp=p.exp | {vr})
        st.ps = p

    def first(self, A, a):
        """of the elements of an array, the first stands for all"""
        T = A.T
        while T.tab[a][0] in ('f', 'ix'):
            if T.tab[a][0] == 'ix' and T.const(T.tab[a][3]):
                return False
            a = T.tab[a][1]
        return True

    def counters(self):
        return self.W.counters

    def gone(self, c):
        ref = bool(self.W.refs) and self.refs_here
        fin = c[4] >= 1 or c[1] is False
        return c[:5] + (fin and (not ref or c[2] >= 1),)

    def close(self, A, st, c, i):
        """a thread is done with its task"""
        if self.phase != 2:
            return
        T = A.T
        if A.isnullterm(st, c[0]) or A.T.const(A.rep(st, c[0])) == 0:
            return
        f = A.fact(st, c[0])
        if f[0] == 0 and f[1] == 0:
            return
        if c[3] != c[4]:
            self.err('completion', i, 'completion of a task that has run is not counted before the next one is taken')
        if self.refs_here and c[2] != 1:
            self.err('reference', i, 'thread drops its reference to a task %s' % ('twice' if c[2] else 'never') + ' before it takes the next one')
        if c[3] == 0 and c[1] is not False:
            self.err('notrun', i, 'task is taken from the queue and not run')

    def on_atomic(self, A, st, i, a, vals, ok):
        T = A.T
        self.access(A, st, i, a, 'w', True)
        x = T.tab[a]
        if x[0] != 'f':
            return
        k = (x[2], x[3])
        c = st.ps.cur
        if i.op == 'cmpxchg':
            if self.thread:
                self.O.resv.add(k)
                e = T.const(A.rep(st, vals[0]))
                y = T.tab[A.rep(st, vals[1])]
                while y[0] == 'zx':
                    y = T.tab[y[1]]
                if y[0] == 'ld' and T.tab[y[1]][0] == 'f' and e is not None:
                    z = T.tab[y[1]]
                    self.O.cas[(z[2], z[3])] = e
            if c and self.obj(A, st, a) == A.rep(st, c[0]):
                st.ps = st.ps._replace(cur=self.gone((c[0], ok) + c[2:]))
        elif i.op == 'atomicrmw' and self.thread:
            self.O.refs.add(k)
            if c and self.obj(A, st, a) == A.rep(st, c[0]):
                st.ps = st.ps._replace(cur=self.gone(c[:2] + (min(c[2] + 1, 2),) + c[3:]))

    # ---- locks ------------------------------------------------------------
    def member(self, A, st, a):
        x = A.T.tab[a]
        return (x[2], x[3], A.rep(st, x[1])) if x[0] == 'f' else (None, None, a)

    def refresh(self, A, st, o, S, iid):
        """members that other threads change have new values once the lock is taken"""
        A.redefine(st, iid)
        keys = {k for k in self.W.written} | {k for k in self.W.guarded}
        for k in keys:
            A.clob_nonlocal(st, k, iid)
            for a in [a for a in st.mem if A.akey(a) == k and A.isalloca(a) and
                      (A.root(a) == A.root(o) or any(A.root(a) == A.root(e) for e in st.ps.exp))]:
                st.mem[a] = A.T.mk('ld', a, iid)
        for a in [a for a in st.mem if A.akey(a) == 'x' and not A.isalloca(a)]:
            del st.mem[a]
        st.ep['x'] = iid

    def blocked(self, A, st, o, S, P, old):
        """would a wait with predicate P block: True, False or None; old: with the values before this section's stores"""
        T = A.T

        def val(f):
            a = T.mk('f', o, S, f)
            if old:
                for c, v in st.ps.chg:
                    if c == a:
                        return v
            return A.load(st, a)
        r = True
        for l in P:
            if l[0] == 'same':
                if old:
                    continue
                a = T.mk('f', o, S, l[1])
                v = [v for c, v in st.ps.chg if c == a]
                if not v:
                    continue
                if v[0] is None:
                    d = None
                else:
                    d = A.decide(st, A.mkcmp(st, 'eq', A.load(st, a), v[0]))
                    D = A.bin(st, 'sub', A.load(st, a), v[0], 'i32')
                    if T.const(D) not in (None, 0):
                        d = False
            else:
                x = val(l[1])
                y = T.zero if l[0] in ('eq0', 'ne0') else val(l[2])
                if x is None or y is None:
                    d = None
                else:
                    d = A.decide(st, A.mkcmp(st, l[0][:2], x, y))
            if d is False:
                return False
            if d is None:
                r = None
        return r

    def literals(self, A, st, o, S):
        T = A.T
        fs = [f for f in A.M.fields.get(S, ()) if (S, f) in self.W.guarded]
        v = {f: A.load(st, T.mk('f', o, S, f)) for f in fs}
        out = set()
        for f in fs:
            for p, n in (('eq', 'eq0'), ('ne', 'ne0')):
                if A.decide(st, A.mkcmp(st, p, v[f], T.zero)) is True:
                    out.add((n, f))
            for g in list(fs) + [g for g in A.M.fields.get(S, ()) if (S, g) not in self.W.guarded]:
                if g != f and g not in fs or g > f:
                    if g not in v:
                        a = T.mk('f', o, S, g)
                        if a not in st.mem:
                            continue
                        v[g] = st.mem[a]
                    for p in ('eq', 'ne'):
                        if A.decide(st, A.mkcmp(st, p, v[f], v[g])) is True:
                            out.add((p, f, g))
        # a member that still has a value kept in a local variable
        for k, t in list(st.env.items()) + [(a, t) for a, t in st.mem.items() if A.isalloca(a)]:
            if k < self.fn.nparams if isinstance(k, int) and not isinstance(k, engine.Ref) else False:
                continue
            for f in fs:
                t2 = A.rep(st, t)
                x = T.tab[v[f]]
                late = x[0] == 'ld' and x[2] in self.waits
                if t2 == A.rep(st, v[f]) and T.const(t2) is None and (t != v[f] or not late):
                    out.add(('same', f))
        return out

    def release(self, A, st, i, a, what):
        S, m, o = self.member(A, st, a)
        p = st.ps
        if p.rck and p.rck[1] == a and what == 'unlock':
            self.err('recheck', i, 'wait on a condition is not followed by another look at what was waited for')
        if self.phase == 2 and S:
            for (S2, c, site), P in self.W.pred.items():
                if S2 != S or self.W.conds.get(S, {}).get(c) not in (None, m):
                    continue
                ca = A.T.mk('f', o, S, c)
                if p.chg and ca not in p.sig and what != 'init':
                    was = self.blocked(A, st, o, S, P, True)
                    now = self.blocked(A, st, o, S, P, False)
                    self.cov['wakeups'].add((self.fn.name, i.id, site))
                    if was is not False and now is not True:
                        e = (ca, 'nosignal-' + c, 'threads that wait on %s.%s while %s may go on, and the condition is not signalled' % (
                            S.replace('armas_ac_', ''), c, ' and '.join(sorted(show(l) for l in P))))
                        if what == 'unlock' and not any(g[0] == S for g in self.W.counters):
                            # may follow the release of the mutex; a counter may be gone then
                            if not any(x[:2] == e[:2] for x in st.ps.owe):
                                st.ps = p = st.ps._replace(owe=st.ps.owe + (e + (self.before(A, st, o, S, P),),))
                        else:
                            self.err(e[1], i, e[2])
            if not any(self.member(A, st, c[0])[2] == o for c in p.chg) and any(g[0] == S for g in self.W.counters):
                for (S2, c, site), P in self.W.pred.items():
                    if S2 == S and self.blocked(A, st, o, S, P, False) is False:
                        st.ps = p = p._replace(pub=frozenset(e[:3] + ('done',) + e[4:] if e[1] == 'task' and e[3] == 'pub' else e for e in p.pub))
        st.ps = p._replace(chg=tuple(c for c in p.chg if self.member(A, st, c[0])[2] != o),
                           sig=frozenset(c for c in p.sig if self.member(A, st, c)[2] != o))

    def on_call(self, A, st, i, args):
        T = A.T
        c = i.callee()
        p = st.ps
        if c in ACQ:
            a = args[0]
            S, m, o = self.member(A, st, a)
            self.cov['locks'].add((self.fn.name, i.id))
            if S:
                self.O.kinds.add((S, m))
                if self.W.guarded and any(g[0] == S for g in self.W.counters) and not self.thread and p.debt is not None and \
                        p.debt != 'ran' and self.phase == 2:
                    self.err('lost', i, 'task was neither handed over nor computed here when its completion is waited for')
            if a in p.held:
                self.err('double', i, 'mutex is locked that this thread already holds')
            for h in p.held:
                k1, k2 = self.member(A, st, h)[:2], (S, m)
                self.O.order.setdefault((k1, k2), i.where())
            self.refresh(A, st, o, S, i.id)
            st.ps = st.ps._replace(held=st.ps.held + (a,))
            st.env[i.id] = T.zero
            return [st]
        if c in REL:
            a = args[0]
            if a not in p.held:
                self.err('unlock', i, 'mutex is unlocked that is not held here')
            else:
                self.release(A, st, i, a, 'unlock')
                st.ps = st.ps._replace(held=tuple(h for h in st.ps.held if h != a), rck=None if st.ps.rck and st.ps.rck[1] == a else st.ps.rck)
            st.env[i.id] = T.zero
            return [st]
        if c is None or c in WAIT or c in TWAIT or c in ('pthread_join', 'free'):
            self.settle(A, st, i)
            p = st.ps
        if c in WAIT or c in TWAIT:
            ca, a = args[0], args[1]
            S, m, o = self.member(A, st, a)
            Sc, cm, oc = self.member(A, st, ca)
            self.cov['waits'].add((self.fn.name, i.id))
            if a not in p.held:
                self.err('wait', i, 'wait on a condition with a mutex that is not held')
            elif len(p.held) > 1:
                self.err('wait', i, 'wait on a condition while another mutex is held')
            if (Sc, oc) != (S, o):
                self.err('wait', i, 'condition and mutex belong to different objects')
            elif S:
                self.O.conds.setdefault(S, {})[cm] = m
                if c in WAIT:
                    k = (S, cm, i.where())
                    lit = self.literals(A, st, o, S)
                    self.O.pred[k] = self.O.pred[k] & lit if k in self.O.pred else lit
            self.release(A, st, i, a, 'wait')
            self.refresh(A, st, o, S, i.id)
            if c in WAIT:
                st.ps = st.ps._replace(rck=(i.id, a))
                st.env[i.id] = T.zero
            else:
                st.env[i.id] = T.mk('call', i.id)
            return [st]
        if c in SIG:
            st.ps = p._replace(sig=p.sig | {args[0]}, owe=tuple(e for e in p.owe if e[0] != args[0]))
            st.env[i.id] = T.zero
            return [st]
        if c in ('pthread_mutex_init', 'pthread_cond_init', 'pthread_mutex_destroy', 'pthread_cond_destroy'):
            S, m, o = self.member(A, st, args[0])
            if S and c == 'pthread_mutex_init':
                self.O.kinds.add((S, m))
                self.O.inits.setdefault(self.fn.name, set()).add(desc(T, o))
            st.env[i.id] = T.zero
            return [st]
        if c == 'pthread_create':
            self.cov['creates'].add((self.fn.name, i.id))
            tid, arg = args[0], args[3]
            S, f, o = self.member(A, st, tid)
            if S and not A.isalloca(tid):
                self.O.created.setdefault((S, f), i.where())
            ob = self.obj(A, st, A.rep(st, arg))
            self.O.published.setdefault(self.fn.name, set()).add(desc(T, ob))
            A.redefine(st, i.id)
            if A.isalloca(tid):
                st.mem[tid] = T.mk('ld', tid, i.id)
            else:
                A.clob_nonlocal(st, A.akey(tid), i.id)
            v = T.mk('call', i.id)
            s2 = st.copy()
            st.env[i.id] = T.zero
            if self.first(A, ob) and self.first(A, tid):
                st.ps = st.ps._replace(pub=st.ps.pub | {(ob, 'thread', tid, 'pub', None)})
            st.ps = st.ps._replace(nocr=st.ps.nocr - {tid})
            s2.env[i.id] = v
            A.setfact(s2, v, nz=True)
            if self.first(A, tid):
                s2.ps = s2.ps._replace(nocr=s2.ps.nocr | {tid})
            return [st, s2]
        if c in ('pthread_join', 'pthread_detach'):
            self.cov['joins'].add((self.fn.name, i.id))
            v = A.rep(st, args[0])
            x = T.tab[v]
            hit = [e for e in p.pub if e[1] == 'thread' and e[2] is not None and A.rep(st, A.load(st, e[2])) == v]
            for t in p.nocr:
                if A.rep(st, A.load(st, t)) == v and not hit:
                    self.err('nojoin', i, 'thread is joined whose creation failed')
            if x[0] == 'ld' and T.tab[x[1]][0] == 'f':
                self.O.joined.add((T.tab[x[1]][2], T.tab[x[1]][3]))
                self.O.joiner.setdefault(self.fn.name, set()).add(desc(T, A.root(x[1])))
            self.touch_pub(A, st, i)
            st.ps = st.ps._replace(pub=frozenset(e for e in st.ps.pub if e not in hit))
            for e in hit:
                if e[0] is not None:
                    self.thread_wrote(A, st, e[0], i.id)
            st.env[i.id] = T.zero
            return [st]
        if c == 'free':
            r = A.root(A.rep(st, args[0]))
            for e in p.pub:
                if e[0] is not None and A.root(e[0]) == r and self.phase == 2 and e[1] == 'task':
                    dr = e[3] == 'drained' or e[4] is not None and T.const(A.rep(st, e[4])) == 0
                    if e[3] == 'pub' and not dr:
                        self.err('early', i, 'tasks are released before their completion was waited for')
                    elif self.W.refs and not dr:
                        self.err('early', i, 'tasks are released while threads may still have references to them')
                elif e[0] is not None and A.root(e[0]) == r and e[1] == 'thread':
                    self.err('early', i, 'memory given to a thread is released before the thread was joined')
            if T.tab[r][0] == 'arg':
                self.O.freer.setdefault(self.fn.name, set()).add(desc(T, r))
            return None
        tg = A.M.targets(i)
        # hand-over of a task to a queue
        put = [t for t in tg if self.W.ins.get(t)]
        if put and self.phase == 2:
            k = min(self.W.ins[put[0]])
            ob = self.obj(A, st, A.rep(st, args[k]))
            self.cov['handovers'].add((self.fn.name, i.id))
            A.redefine(st, i.id)
            A.default_call(st, i, args)
            v = st.env.get(i.id)
            if v is None:
                return [st]
            out = []
            s2 = st.copy()
            if A.setfact(st, v, lo=0):
                st.ps = st.ps._replace(debt=None)
                if self.first(A, ob):
                    st.ps = st.ps._replace(pub=st.ps.pub | {(ob, 'task', None, 'pub', None)})
                out.append(st)
            if A.setfact(s2, v, hi=-1):
                s2.ps = s2.ps._replace(debt='failed' if s2.ps.debt else None)
                out.append(s2)
            return out
        if put and self.phase == 1:
            k = min(self.W.ins[put[0]])
            self.O.published.setdefault(self.fn.name, set()).add(desc(T, self.obj(A, st, A.rep(st, args[k]))))
        if self.phase == 2 and not self.thread and st.ps.debt in ('init', 'failed') and any(t in self.W.tasks for t in tg):
            st.ps = st.ps._replace(debt='ran')
        if self.start and c is None:
            x = T.tab[A.rep(st, A.opnd(st, i.a[0]))]
            cu = st.ps.cur
            if x[0] == 'ld' and T.tab[x[1]][0] == 'f':
                z = T.tab[x[1]]
                self.O.runs.add((z[2], z[3]))
                if self.phase == 2:
                    self.cov['runs'].add((self.fn.name, i.id))
                    if cu is None or self.obj(A, st, x[1]) != A.rep(st, cu[0]):
                        self.err('notmine', i, 'function of a task is called that was not taken from a queue')
                    else:
                        if self.resv_here and cu[1] is not True:
                            self.err('twice', i, 'task is run by a thread that has not won its reservation')
                        if cu[3]:
                            self.err('twice', i, 'task is run twice')
                        st.ps = st.ps._replace(cur=cu[:3] + (min(cu[3] + 1, 2),) + cu[4:])
        if self.phase == 2 and args:
            a0 = A.rep(st, args[0])
            if any('arg0' in self.W.freer.get(t, ()) and t in self.W.joinable for t in tg) and not self.hdr:
                self.stopped[i.id] = self.stopped.get(i.id, False) or a0 in st.ps.stop
            if any(self.W.joiner.get(t) for t in tg) and self.first(A, a0):
                st.ps = st.ps._replace(stop=st.ps.stop | {a0})
        if tg and st.ps.held and any(t in A.M.fns for t in tg) and any(t in self.W.takers for t in tg):
            self.err('nested', i, 'function that takes locks is called while a lock is held')
        return None

    def touch_pub(self, A, st, i):
        A.redefine(st, i.id)

    def thread_wrote(self, A, st, o, iid):
        """values after the thread has ended"""
        r = A.root(o)
        if A.T.tab[r][0] == 'al':
            for a in [a for a in st.mem if A.root(a) == r and A.akey(a) in self.W.twrites]:
                st.mem[a] = A.T.mk('ld', a, iid)

    def on_branch(self, A, st, i, cond):
        for e in st.ps.owe:
            if any(A.decide(st, A.mkcmp(st, o, x, y)) is False for o, x, y in e[3]):
                st.ps = st.ps._replace(owe=tuple(x for x in st.ps.owe if x is not e))
        if i.bb in self.refloops and any(e[3] == 'done' and e[4] is None for e in st.ps.pub):
            st.ps = st.ps._replace(pub=frozenset(e[:3] + ('drained',) + e[4:] if e[3] == 'done' and e[4] is None else e for e in st.ps.pub))
        p = st.ps
        if p.rck:
            T = A.T
            for t in T.subterms(cond) or ():
                x = T.tab[t]
                if x[0] == 'ld' and x[2] == p.rck[0] and T.tab[x[1]][0] == 'f':
                    st.ps = p._replace(rck=None)
                    return

    def before(self, A, st, o, S, P):
        """the literals of P as comparisons between values from before this section's stores"""
        r = []
        for l in P:
            if l[0] != 'same':
                x, y = [next((v for c, v in st.ps.chg if c == a), None) or A.load(st, a) for a in [A.T.mk('f', o, S, f) for f in l[1:]]] + (
                    [A.T.zero] if len(l) == 2 else [])
                r.append((l[0][:2], x, y))
        return tuple(r)

    def settle(self, A, st, i):
        for c, k, m, B in st.ps.owe:
            if not any(A.decide(st, A.mkcmp(st, o, x, y)) is False for o, x, y in B):
                self.err(k, i, m)
        st.ps = st.ps._replace(owe=())

    def on_ret(self, A, st, i, v):
        self.settle(A, st, i)
        p = st.ps
        if p.held:
            self.err('held', i, 'function returns while it holds a mutex')
        for e in p.pub:
            if e[1] == 'thread' and (e[2] is None and e[0] is None or e[2] is not None and A.isalloca(e[2]) or e[0] is not None and A.isalloca(e[0])):
                if e[2] is not None and not A.isalloca(e[2]) and not (e[0] is not None and A.isalloca(e[0])):
                    continue
                if e[2] is None:
                    continue
                self.err('unjoined', i, 'function returns before the thread it created is joined')
            if e[1] == 'task' and self.phase == 2 and e[0] is not None and e[3] == 'pub' and self.fresh(A, e[0]):
                self.err('early', i, 'function returns before the tasks it handed over are done')
        if self.phase == 2 and p.debt is not None:
            self.err('lost', i, 'function returns when a task was neither handed over nor computed here')
        if p.cur:
            self.close(A, st, p.cur, i)
        if self.phase == 2 and self.fn.name in self.W.ins:
            r = A.T.const(A.rep(st, v)) if v is not None else None
            f = A.fact(st, v) if v is not None else engine.TOPF
            if f[0] >= 0:
                if p.ins == 0:
                    self.err('notput', i, 'success is returned and the task is in no queue')
                elif self.W.refs and self.refs_here and p.wcnt != p.ins:
                    self.err('reference', i, 'task is put to %d queues and its count of references is %s' % (p.ins, p.wcnt))


def show(l):
    return {'eq0': '%s is zero', 'ne0': '%s is not zero', 'eq': '%s equals %s', 'ne': '%s differs from %s', 'same': '%s is unchanged'}[l[0]] % tuple(l[1:])


def unit():
    """text of a unit with all functions of the headers, and the roots among them"""
    d = os.path.join(front.REPO, 'src', 'workers')
    head = ('#include <stdio.h>\n#include <stdlib.h>\n#include <stdint.h>\n#include <unistd.h>\n#include <time.h>\n#include <errno.h>\n#include <assert.h>\n'
            '#include <pthread.h>\n#define __USE_GNU\n#include <sched.h>\n#include "dtype.h"\n#include "matrix.h"\n#include "armas.h"\n#include "accel.h"\n')
    inc = ''.join('#include "%s"\n' % os.path.join(d, h) for h in ('counter.h', 'queue.h', 'scheduler.h', 'workers.h'))
    M = front.load('FLOAT64', inline=False, text=head + '#define static\n#define inline\n' + inc)
    called = set()
    names = set()
    for n, f in M.fns.items():
        if '/workers/' not in '/' + (f.file or ''):
            continue
        names.add(n)
        for b in f.blocks:
            for i in b:
                if i.op == 'call':
                    called |= set(M.targets(i)) - {n}
    roots = sorted(names - called)
    return head + inc + 'void *sa_roots[] = {' + ', '.join('(void *)%s' % r for r in roots) + ', 0};\n', names


FL = ('--inline-header=4000', '--inline-local=4000', '--inline-pred=160', '--keep-first')


def modules(prec):
    t, names = unit()
    H = front.load(prec, text=t, flags=FL)
    L = front.load(prec, only=lambda s: s.startswith(('workers/', 'threaded/')) or s == 'base/accel.c',
                   extra=('-D__ARMAS_INLINE=static',), flags=FL)
    return H, L


def threadside(M):
    starts = set()
    for f in M.fns.values():
        for b in f.blocks:
            for i in b:
                if i.op == 'call' and i.callee() == 'pthread_create':
                    o = i.args()[2]
                    if isinstance(o, list) and o[0] in ('g', 'fn', '@'):
                        starts.add(o[1])
    side, work = set(), list(starts)
    tasks = set()
    while work:
        n = work.pop()
        if n in side or n not in M.fns:
            continue
        side.add(n)
        for b in M.fns[n].blocks:
            for i in b:
                if i.op == 'call':
                    for t in M.targets(i):
                        if i.callee() is None:
                            tasks.add(t)
                        work.append(t)
    return starts, side, tasks


def uses(M, f, words):
    return any(i.op == 'call' and i.callee() in words for b in f.blocks for i in b)


def check(ctx):
    cov = {k: set() for k in ('accesses', 'locks', 'waits', 'creates', 'joins', 'handovers', 'runs', 'wakeups')}
    for prec in ('FLOAT64', 'FLOAT32') if ctx.thorough else ('FLOAT64',):
        run(ctx, prec, cov)
    ctx.cov.update({k: len(v) for k, v in cov.items()})


def run(ctx, prec, cov):
    mods = modules(prec)
    W = World()
    W.resvid, W.counters, W.tasks, W.joinable, W.takers, W.twrites = {}, set(), set(), set(), set(), set()
    info = []
    for M in mods:
        E = ir.Effects(M)
        S = threadside(M)
        fns = [f for f in M.fns.values() if f.blocks and ('/workers/' in '/' + (f.file or '') or '/threaded/' in '/' + (f.file or ''))]
        info.append((M, E, S, fns))
        W.tasks |= S[2]
        for f in fns:
            if uses(M, f, ACQ) and f.name not in W.takers:
                W.takers.add(f.name)
    res = []
    for phase in (1, 1, 1, 2):
        new = World()
        res = []
        for M, E, S, fns in info:
            for f in fns:
                cl = Locks(W, f, phase, S[1], S[0], cov)
                ats = {i.op for b in f.blocks for i in b}
                cl.hdr = M is mods[0]
                cl.refs_here = any(g.file == f.file and any(i.op == 'atomicrmw' for b in g.blocks for i in b) for g in fns if g.name in S[0])
                cl.resv_here = any(g.file == f.file and any(i.op == 'cmpxchg' for b in g.blocks for i in b) for g in fns if g.name in S[0])
                A = engine.Analysis(M, E, f, cl)
                A.run()
                for n, ok in cl.stopped.items():
                    if not ok:
                        cl.err('running', f.ins[n], 'scheduler is released before its threads are stopped')
                new.merge(cl.O)
                res.append((M, f, cl))
        if phase == 1:
            keep = W
            for k in ('kinds', 'locked', 'written', 'published', 'inits', 'ins', 'conds', 'joiner', 'freer', 'refs', 'resv', 'cas', 'joined', 'created', 'atom',
                      'qelem', 'runs'):
                v = getattr(new, k)
                getattr(keep, k).update(v)
            W.pred = new.pred
            W.guarded = {}
            for (s, f), ms in W.locked.items():
                if (s, f) in W.written and len(ms) == 1 and (s, f) not in W.kinds:
                    W.guarded[(s, f)] = next(iter(ms))
            W.resvid = dict(W.cas)
            # members that point to an object with a counter: loaded in a thread to lock what they point to
            for M, E, S, fns in info:
                for f in fns:
                    if f.name in S[0]:
                        for b in f.blocks:
                            for i in b:
                                if i.op == 'call' and i.callee() in ACQ:
                                    W.compl |= complptr(M, f, i, W)
            jf = {f.file for M, E, S, fns in info for f in fns if f.name in W.joiner}
            W.joinable = {f.name for M, E, S, fns in info for f in fns if f.name in W.freer and f.file in jf}
    final(ctx, W, new, res, cov, info)
    return W


def complptr(M, f, i, W):
    """(struct, member) when the mutex of this call is found through a member of a task"""
    def strip(o):
        while isinstance(o, int) and o in f.ins and f.ins[o].op == 'getelementptr':
            o = f.ins[o].a[0]
        while isinstance(o, list) and o and o[0] == 'gep':
            o = o[1]
        return o
    o = strip(i.args()[0])
    if isinstance(o, int) and o in f.ins and f.ins[o].op == 'load':
        g = f.ins[o].a[0]
        if isinstance(g, int) and g in f.ins and f.ins[g].op == 'getelementptr':
            st = [s for s in f.ins[g].a[1] if s[0] == 'f']
            if st:
                k = (st[-1][1], st[-1][2])
                # of a task: a structure with a function that threads call
                if any(r[0] == k[0] for r in W.runs):
                    s2 = mutexstruct(f, i)
                    if s2:
                        W.counters.add((s2,))
                    return {k}
    return set()


def mutexstruct(f, i):
    o = i.args()[0]
    if isinstance(o, int) and o in f.ins and f.ins[o].op == 'getelementptr':
        st = [s for s in f.ins[o].a[1] if s[0] == 'f']
        return st[-1][1] if st else None
    return None


def meet(a, b):
    """a thread whose functions are in file a runs for code in file b"""
    return a == b or all('/workers/' in '/' + x for x in (a, b))


def final(ctx, W, new, res, cov, info):
    for M, f, cl in res:
        for (what, _), (w, msg, where) in sorted(cl.bad.items(), key=lambda x: str(x[0])):
            ctx.report('C11:%s:%s' % (what, ir.cname(f.name)), msg, f.name, where)
    # predicates of waits
    for (S, c, site), P in W.pred.items():
        if not P:
            ctx.report('C11:nopredicate:%s.%s' % (S, c), 'wait on %s.%s does not depend on any member that its mutex guards' % (S, c), None, site)
    # order of locks
    E = {}
    for (a, b), w in new.order.items():
        E.setdefault(a, {})[b] = w
    for a in E:
        seen, work = set(), [a]
        while work:
            x = work.pop()
            for y in E.get(x, ()):
                if y == a:
                    ctx.report('C11:order:%s.%s' % a, 'locks of %s.%s and %s.%s are taken in both orders' % (a + x), None, E[x][y])
                elif y not in seen:
                    seen.add(y)
                    work.append(y)
    # members shared between threads
    tacc, cacc = {}, {}
    for k, (S, f, rw, kinds, atomic, thr, mine, where, fn, fl) in new.acc.items():
        (tacc if thr else cacc).setdefault((S, f), []).append((rw, kinds, atomic, mine, where, fn, fl))
    shared = 0
    for k, ta in tacc.items():
        if k in W.guarded:
            continue
        ca = cacc.get(k, [])
        shared += 1
        for x in ta:
            for y in ca:
                if 'w' in (x[0], y[0]) and meet(x[6], y[6]) and not (x[2] and y[2]) and not (x[1] & y[1]):
                    ctx.report('C11:race:%s.%s:%s' % (k + (ir.cname(y[5]),)),
                               '%s.%s is %s here while a thread (%s, %s) %s it, without a common lock and not both atomically' % (
                                   k + ('stored to' if y[0] == 'w' else 'read', x[5], x[4], 'stores to' if x[0] == 'w' else 'reads')), y[5], y[4])
            for y in ta:
                if x is not y and x[0] == 'w' and meet(x[6], y[6]) and not (x[3] and y[3]) and not (x[2] and y[2]) and not (x[1] & y[1]) and not x[3]:
                    ctx.report('C11:race:%s.%s:%s' % (k + (ir.cname(x[5]),)),
                               'threads store to and access %s.%s (%s) without a common lock and not atomically' % (k + (y[4],)), x[5], x[4])
    # thread ids kept in objects
    for k, w in W.created.items():
        if k not in W.joined:
            ctx.report('C11:neverjoined:%s.%s' % k, 'threads created with id in %s.%s are never joined' % k, None, w)
    ctx.cov['functions'] = ctx.cov.get('functions', 0) + len(res)
    ctx.cov['guarded members'] = len(W.guarded)
    ctx.cov['waited-for conditions'] = len(W.pred)
    ctx.cov['members shared with threads'] = shared
    ctx.require('functions', len(res), 20)
    ctx.require('locks', len(cov['locks']), 20)
    ctx.require('guarded members', len(W.guarded), 3)
    ctx.require('conditions', len(W.pred), 2)
    ctx.require('thread starts', len(cov['creates']), 4)
    ctx.require('joins', len(cov['joins']), 4)
    ctx.require('hand-overs', len(cov['handovers']), 1)
    ctx.require('runs', len(cov['runs']), 2)
    ctx.samples += ['%s.%s is guarded by %s' % (k + (v,)) for k, v in sorted(W.guarded.items())]
    ctx.samples += ['wait on %s.%s while %s' % (s, c, ' and '.join(sorted(show(l) for l in P))) for (s, c, _), P in W.pred.items()]
