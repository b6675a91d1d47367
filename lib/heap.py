"""Ownership typestate of heap objects and files, path-sensitive, with bottom-up function summaries.

A resource is the result of one allocation site on one path.  It is held until it is freed, returned, stored
in memory that outlives the function, or handed to code that keeps it.  Findings:
  leak        a path returns while a resource is held
  overwrite   an allocation site is executed again while its previous result is still held
  doublefree  a pointer is freed after it was freed
  uaf         memory is accessed after it was freed
  nocheck     an allocation result is dereferenced where it may be null
  ignored     a fallible allocating call failed and the object is used as if it had succeeded
"""
from engine import Analysis, Client, Ref
from ir import cname

ALLOC = {'malloc': 'free', 'calloc': 'free', 'realloc': 'free', 'strdup': 'free', 'aligned_alloc': 'free', 'fopen': 'fclose', 'fdopen': 'fclose'}
FREE = {'free': 0, 'fclose': 0}
NOKEEP = {'printf', 'fprintf', 'snprintf', 'sprintf', 'strlen', 'strcmp', 'strncmp', 'memcpy', 'memset', 'memmove', 'fputs', 'fputc', 'puts', 'putchar',
          'fgetc', 'fgets', 'fread', 'fwrite', 'getline', 'sscanf', 'fscanf', '__isoc99_sscanf', '__isoc99_fscanf', '__isoc23_sscanf',
          '__isoc23_fscanf', 'pthread_mutex_init', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_cond_init', 'pthread_cond_signal',
          'pthread_cond_broadcast', 'pthread_cond_wait', 'pthread_cond_timedwait', 'pthread_mutex_destroy', 'pthread_cond_destroy', 'pthread_join', 'pthread_attr_init',
          'pthread_attr_setaffinity_np', 'pthread_attr_destroy', 'ungetc', 'strtol', 'strtod', 'strchr', 'toupper', 'tolower', 'isspace', 'qsort',
          'strsep', 'ferror', 'feof', 'fflush', 'rewind', 'sched_getaffinity', 'pthread_getaffinity_np'}
DEREF0 = {'memset': [0], 'memcpy': [0, 1], 'strcpy': [0, 1], 'strlen': [0], 'fgetc': [0], 'fputs': [1], 'fclose': [0], 'fprintf': [0], 'fputc': [1],
          'getline': [2]}


class Outcome:
    __slots__ = ('rc', 'allocs', 'frees', 'nulls')

    def __init__(self, rc, allocs, frees, nulls):
        self.rc, self.allocs, self.frees, self.nulls = rc, allocs, frees, nulls

    def key(self):
        return (self.rc, self.allocs, self.frees, self.nulls)

    def trivial(self):
        return not self.allocs and not self.frees

    def __repr__(self):
        return 'ret %s%s%s%s' % (self.rc, ''.join(' alloc->%s' % (x,) for x in sorted(self.allocs, key=str)),
                                 ''.join(' free %s' % (x,) for x in sorted(self.frees, key=str)), ' null%s' % sorted(self.nulls) if self.nulls else '')


class HeapClient(Client):
    limit = 40

    def __init__(self, H, fn):
        self.H = H
        self.fn = fn
        self.finds = {}
        self.outs = {}
        self.nsites = set()
        self.nrets = 0

    # ps: (held: frozenset of (sym, kind, where)), freed: frozenset(sym), frees: frozenset of (k,path), failed: frozenset(alloca root))
    def init(self, A, st):
        return (frozenset(), frozenset(), frozenset(), frozenset())

    def after_call(self, A, st, ins, args):
        # views: a pointer argument the callee stores in one field of another argument
        T = A.T
        for t in A.M.targets(ins):
            if t not in A.M.fns:
                continue
            fl = {}
            for (k, p, fld, r) in A.E.eff[t].flow:
                fl.setdefault((k, p, fld), set()).add(r)
            for (k, p, fld), rs in fl.items():
                if len(rs) != 1 or p or k >= len(args):
                    continue
                r = next(iter(rs))
                if r[0] == 'p' and not r[2] and r[1] < len(args) and self.symof(A, args[r[1]]) is not None:
                    a = self.celladdr(A, st, t, args[k], k, (fld,))
                    if a is not None:
                        st.mem[a] = args[r[1]]

    def find(self, kind, ins, sym, A, st, msg, extra=''):
        k = (kind, ins.id if ins is not None else -1, extra)
        if k not in self.finds:
            self.finds[k] = (kind, ins, msg, A.path(st) if hasattr(A, 'path') else None)

    def pinned(self, A, st):
        held, freed, frees, failed = st.ps
        return [h[0] for h in held] + list(freed)

    def keepmem2(self, A, st, a, v):
        held, freed, frees, failed = st.ps
        r = A.root(v)
        for h in held:
            if h[0] == r:
                return True
        if A.T.const(v) == 0:
            x = A.T.tab[A.root(a)]
            if x[0] in ('arg', 'res') or (x[0] == 'al' and self.owner_cell(A, a)):
                return True
        return False

    def owner_cell(self, A, a):
        return True

    def rename(self, A, st, ids):
        held, freed, frees, failed = st.ps
        dep = A.T.dep
        bad = [h for h in held if not ids.isdisjoint(dep[h[0]])]
        fb = [f for f in freed if not ids.isdisjoint(dep[f])]
        if not bad and not fb:
            return
        for h in bad:
            sym, how, where = h[:3]
            if where is None:
                site = A.T.tab[sym][1]
                if site in ids and isinstance(site, int) and how != 'file?':
                    # still referenced from memory that survives?
                    f = A.fact(st, sym)
                    if not (f[2] == -1 and f[3] == 0):
                        self.find('overwrite', self.fn.ins.get(site), sym, A, st, 'result of the previous iteration is lost while still owned')
        st.ps = (held - set(bad), freed - set(fb), frees, failed)

    # --- helpers
    def symof(self, A, t):
        r = A.root(t)
        return r if A.T.tab[r][0] == 'res' else None

    def location(self, A, addr):
        """(k, path) of an address rooted at a parameter, 'glob' for globals/unknown, None for locals, ('in', sym) inside a resource"""
        T = A.T
        path = []
        t = addr
        while True:
            x = T.tab[t]
            if x[0] == 'f':
                path.append(x[3])
                t = x[1]
            elif x[0] == 'ix':
                t = x[1]
                path.append('[]')
            elif x[0] == 'ld':
                path.append('*')
                t = x[1]
            elif x[0] == 'arg':
                return (x[1], tuple(p for p in reversed(path) if p not in ('[]', '*')))
            elif x[0] == 'al':
                return None if '*' not in path else 'glob'
            elif x[0] == 'res':
                return ('in', t)
            else:
                return 'glob'

    def hold(self, A, st, sym, how):
        held, freed, frees, failed = st.ps
        st.ps = (held | {(sym, how, None)}, freed - {sym}, frees, failed)

    def drop(self, A, st, sym):
        held, freed, frees, failed = st.ps
        h2 = frozenset(h for h in held if h[0] != sym)
        if len(h2) != len(held):
            st.ps = (h2, freed, frees, failed)

    def setwhere(self, A, st, sym, where):
        held, freed, frees, failed = st.ps
        h2 = frozenset((h[0], h[1], where if h[0] == sym else h[2]) for h in held)
        st.ps = (h2, freed, frees, failed)

    def free(self, A, st, ins, p, what='free'):
        T = A.T
        if T.const(p) == 0:
            return
        f = A.fact(st, p)
        if f[2] == -1 and f[3] == 0:
            return
        sym = self.symof(A, p)
        held, freed, frees, failed = st.ps
        if sym is not None:
            if sym in freed:
                self.find('doublefree', ins, sym, A, st, 'frees memory that was already freed')
            # things only reachable from it
            for h in held:
                if isinstance(h[2], tuple) and h[2][0] == 'in' and h[2][1] == sym and what == 'free' and not self.isnull(A, st, h[0]):
                    self.find('leak', self.site(T, h[0]), h[0], A, st, 'owned by an object that is freed at %s without being freed itself' % ins.where(), str(T.tab[h[0]][2:]))
            held = frozenset(h for h in held if h[0] != sym and not (isinstance(h[2], tuple) and h[2][0] == 'in' and h[2][1] == sym))
            st.ps = (held, freed | {sym}, frees, failed)
            return
        # a parameter's memory
        x = T.tab[A.root(p)]
        if x[0] == 'arg':
            st.ps = (held, freed, frees | {(x[1], ())}, failed)
        elif x[0] == 'ld':
            loc = self.location(A, x[1])
            if isinstance(loc, tuple) and loc[0] != 'in':
                st.ps = (held, freed, frees | {loc}, failed)

    def isnull(self, A, st, sym):
        f = A.fact(st, sym)
        return f[2] == -1 and f[3] == 0

    def site(self, T, sym):
        return self.fn.ins.get(T.tab[sym][1])

    # --- callbacks
    def deref(self, A, st, ins, addr):
        sym = self.symof(A, addr)
        if sym is None:
            return
        held, freed, frees, failed = st.ps
        if sym in freed:
            self.find('uaf', ins, sym, A, st, 'accesses memory after it was freed')
        if not A.fact(st, sym)[4]:
            self.find('nocheck', self.site(A.T, sym), sym, A, st, 'may be null where it is dereferenced at %s' % ins.where())
            A.setfact(st, sym, nz=True)

    def on_load(self, A, st, ins, addr):
        self.deref(A, st, ins, addr)
        self.failuse(A, st, ins, addr)

    def failuse(self, A, st, ins, addr):
        failed = st.ps[3]
        if failed:
            r = A.root(addr)
            for (fr, site) in failed:
                if fr == r:
                    self.find('ignored', self.fn.ins.get(site), r, A, st, 'its failure is not handled: the object is used at %s' % ins.where())
                    st.ps = st.ps[:3] + (frozenset(x for x in failed if x[0] != fr),)
                    return

    def on_store(self, A, st, ins, addr, val):
        self.deref(A, st, ins, addr)
        if A.T.tab[addr][0] == 'ix':
            self.failuse(A, st, ins, addr)
        sym = self.symof(A, val)
        if sym is None:
            return
        loc = self.location(A, addr)
        if loc == 'glob':
            self.drop(A, st, sym)
        elif loc is not None:
            if loc[0] == 'in' and loc[1] == sym:
                return
            # a pointer into the middle is a view, the owner is the base
            if sym == val or A.T.tab[val][0] != 'f':
                for h in st.ps[0]:
                    if h[0] == sym and (h[2] is None or (isinstance(loc, tuple) and loc[0] != 'in')):
                        if not (h[2] is not None and h[2][0] != 'in'):
                            self.setwhere(A, st, sym, loc)

    def on_call(self, A, st, ins, args):
        T = A.T
        c = ins.callee()
        tg = A.M.targets(ins)
        if c in ALLOC:
            self.nsites.add(ins.id)
            A.redefine(st, ins.id)
            if c == 'realloc':
                old = args[0]
                s2 = st.copy()
                # failure keeps the old block
                s2.env[ins.id] = T.zero
                self.free(A, st, ins, old, 'realloc')
                sym = T.mk('res', ins.id, 'ret')
                st.facts.pop(sym, None)
                A.setfact(st, sym, nz=True)
                st.env[ins.id] = sym
                self.hold(A, st, sym, c)
                return [st, s2]
            sym = T.mk('res', ins.id, 'ret')
            st.facts.pop(sym, None)
            st.eq.pop(sym, None)
            st.env[ins.id] = sym
            self.hold(A, st, sym, c)
            if c == 'calloc':
                pass
            return []  if False else self._split_null(A, st, sym)
        if c in FREE:
            if c == 'fclose':
                self.deref(A, st, ins, args[0])
            self.free(A, st, ins, args[0])
            if ins.ty != 'void':
                A.redefine(st, ins.id)
                st.env[ins.id] = T.mk('call', ins.id)
            return [st]
        if c and c.startswith('llvm.'):
            if c.startswith('llvm.mem'):
                for a in (args[:1] if 'memset' in c else args[:2]):
                    self.deref(A, st, ins, a)
            return None
        # uses of memory
        for k, a in enumerate(args):
            sym = self.symof(A, a)
            if sym is not None:
                held, freed, frees, failed = st.ps
                if sym in freed and (c in DEREF0 or any(t in A.M.fns for t in tg)):
                    self.find('uaf', ins, sym, A, st, 'passes memory that was already freed')
                nn = any(k in self.H.N.deref.get(t, {}) for t in tg) or (c in DEREF0 and k in DEREF0[c])
                if nn and not A.fact(st, sym)[4]:
                    self.find('nocheck', self.site(T, sym), sym, A, st, 'may be null where it is dereferenced by %s at %s' % (cname(c or 'the callee'), ins.where()))
                    A.setfact(st, sym, nz=True)
        outs = None
        if len(tg) == 1 and tg[0] in self.H.summ:
            outs = self.H.summ[tg[0]]
        elif len(tg) > 1:
            # several targets: only what all of them do alike
            cand = [self.H.summ.get(t) for t in tg]
            if all(cand) and len({tuple(sorted(map(str, (o.key() for o in x)))) for x in cand}) == 1:
                outs = cand[0]
        # failed objects used?
        if st.ps[3]:
            rel = outs is not None and all(not o.allocs for o in outs) and any(o.frees for o in outs)
            if not rel:
                for a in args:
                    self.failuse(A, st, ins, a)
        # pointers kept by the callee
        known = [t for t in tg if t in A.M.fns]
        if not known:
            if c not in NOKEEP and c not in DEREF0:
                for a in args:
                    sym = self.symof(A, a)
                    if sym is not None:
                        self.drop(A, st, sym)
                    elif T.tab[A.root(a)][0] == 'al' and (c is None or c in ('pthread_create', 'getline')):
                        for m, v in list(st.mem.items()):
                            if A.root(m) == A.root(a):
                                s = self.symof(A, v)
                                if s is not None:
                                    self.drop(A, st, s)
            if c == 'getline':
                # getline(&p, &n, f) owns through *p
                self.nsites.add(ins.id)
                old = A.load(st, args[0])
                os = self.symof(A, old)
                if os is not None:
                    self.drop(A, st, os)
                A.redefine(st, ins.id)
                A.default_call(st, ins, args)
                sym = T.mk('res', ins.id, 'line')
                st.facts.pop(sym, None)
                st.eq.pop(sym, None)
                st.mem[args[0]] = sym
                self.hold(A, st, sym, c)
                s2 = st.copy()
                self.drop(A, s2, sym)
                s2.ps = (s2.ps[0] | {(sym, 'getline:eof', None)},) + s2.ps[1:]
                r = st.env[ins.id]
                A.setfact(st, r, lo=0)
                A.setfact(st, sym, nz=True)
                A.setfact(s2, r, -1, -1)
                return [st, s2]
        else:
            for t in known:
                done = set()
                for (k, p, fld, r) in sorted(A.E.eff[t].flow, key=lambda x: (x[0], len(x[1]), self.H.rank(x[2]), str(x))):
                    if (k, r) in done:
                        continue
                    done.add((k, r))
                    # parameter r stored in memory reached from parameter k
                    if r[0] == 'p' and not r[2] and r[1] < len(args) and k < len(args):
                        sym = self.symof(A, args[r[1]])
                        if sym is not None:
                            loc = self.location(A, args[k])
                            if loc == 'glob':
                                self.drop(A, st, sym)
                            elif loc is not None and loc[0] != 'in':
                                self.setwhere(A, st, sym, (loc[0], loc[1] + tuple(p) + (fld,)))
                            elif loc is not None:
                                self.setwhere(A, st, sym, loc)
        if outs is None:
            return None
        return self.apply(A, st, ins, args, tg[0], outs)

    def _split_null(self, A, st, sym):
        return [st]

    def apply(self, A, st, ins, args, target, outs):
        T = A.T
        self.nsites.add(ins.id)
        A.redefine(st, ins.id)
        # values of the cells the callee frees, before the call
        res = []
        fr = {}
        for o in outs:
            for (k, path) in o.frees:
                if (k, path) not in fr and k < len(args):
                    fr[(k, path)] = self.cell(A, st, target, args[k], k, path)
        A.default_call(st, ins, args)
        allfail = [o for o in outs if not o.allocs]
        isalloc = any(o.allocs for o in outs)
        # conditional frees: prefer the outcome that frees what is there
        groups = {}
        for o in outs:
            groups.setdefault((o.rc, o.allocs), []).append(o)
        for (rc, allocs), os in groups.items():
            o = max(os, key=lambda x: len(x.frees))
            s = st.copy()
            v = s.env.get(ins.id)
            if rc is not None and v is not None:
                if rc == 'neg' and not A.setfact(s, v, hi=-1):
                    continue
                if rc == 'zero' and not A.setfact(s, v, 0, 0):
                    continue
                if rc == 'pos' and not A.setfact(s, v, lo=1):
                    continue
                if rc == 'nonneg' and not A.setfact(s, v, lo=0):
                    continue
                if rc == 'nonnull' and not A.setfact(s, v, nz=True):
                    continue
                if isinstance(rc, tuple) and rc[1] < len(args):
                    s.env[ins.id] = args[rc[1]]
                if rc == 'null':
                    s.env[ins.id] = T.zero
            for (k, path), val in sorted(fr.items(), key=lambda x: (-len(x[0][1]), str(x[0]))):
                if (k, path) in o.frees:
                    self.free(A, s, ins, val, 'free' if not path else 'callee')
            for (k, path) in o.nulls:
                if k < len(args):
                    a = self.celladdr(A, s, target, args[k], k, path)
                    if a is not None:
                        s.mem[a] = T.zero
            failed = set()
            for al in allocs:
                if al == 'ret':
                    sym = T.mk('res', ins.id, 'ret')
                    s.facts.pop(sym, None)
                    s.eq.pop(sym, None)
                    A.setfact(s, sym, nz=True)
                    s.env[ins.id] = sym
                    self.hold(A, s, sym, cname(target))
                else:
                    k, path = al
                    if k >= len(args):
                        continue
                    sym = T.mk('res', ins.id, (k,) + path)
                    s.facts.pop(sym, None)
                    s.eq.pop(sym, None)
                    A.setfact(s, sym, nz=True)
                    self.hold(A, s, sym, cname(target))
                    a = self.celladdr(A, s, target, args[k], k, path)
                    if a is not None:
                        s.mem[a] = sym
                        loc = self.location(A, a)
                        if loc == 'glob':
                            self.drop(A, s, sym)
                        elif loc is not None:
                            self.setwhere(A, s, sym, loc)
                    else:
                        loc = self.location(A, args[k])
                        if loc is None:
                            pass
                        elif loc == 'glob':
                            self.drop(A, s, sym)
                        else:
                            self.setwhere(A, s, sym, loc)
            if isalloc and not allocs and rc in ('neg', 'null'):
                # the failing outcome of an allocating call
                for o2 in outs:
                    for al in o2.allocs:
                        if al != 'ret' and al[0] < len(args) and al[1]:
                            r = A.root(args[al[0]])
                            if T.tab[r][0] in ('al', 'res', 'arg', 'ld', 'call'):
                                failed.add((r, ins.id))
            if failed:
                s.ps = s.ps[:3] + (s.ps[3] | failed,)
            res.append(s)
        return res

    def celladdr(self, A, st, target, arg, k, path):
        T = A.T
        f = A.M.fns[target]
        sn = f.params[k].get('st')
        a = arg
        for i, fl in enumerate(path):
            # find the struct that has this field
            x = None
            for m in st.mem:
                y = T.tab[m]
                if y[0] == 'f' and y[1] == a and y[3] == fl:
                    x = m
                    break
            if x is None:
                cands = [n for n, fs in A.M.fields.items() if fl in fs]
                if sn in cands:
                    x = T.mk('f', a, sn, fl)
                elif len(cands) == 1:
                    x = T.mk('f', a, cands[0], fl)
                else:
                    return None
            if i == len(path) - 1:
                return x
            a = A.load(st, x)
            sn = None
        return a if path else arg

    def cell(self, A, st, target, arg, k, path):
        if not path:
            return arg
        a = self.celladdr(A, st, target, arg, k, path)
        return A.load(st, a) if a is not None else A.T.zero

    def on_structcopy(self, A, st, ins, d, s, sn):
        for fl in A.M.fields.get(sn, ()):
            v = st.mem.get(A.T.mk('f', d, sn, fl))
            if v is not None:
                sym = self.symof(A, v)
                if sym is not None:
                    self.on_store(A, st, ins, A.T.mk('f', d, sn, fl), v)

    def on_ret(self, A, st, ins, val):
        T = A.T
        self.nrets += 1
        held, freed, frees, failed = st.ps
        rc = None
        fresh = False
        rt = self.fn.ret or ''
        if val is not None:
            f = A.fact(st, val)
            c = T.const(val)
            if '*' in rt or T.tab[A.root(val)][0] in ('res', 'al', 'arg', 'g'):
                if c == 0:
                    rc = 'null'
                elif T.tab[val][0] == 'arg':
                    rc = ('arg', T.tab[val][1])
                elif f[4]:
                    rc = 'nonnull'
                sym = self.symof(A, val)
                if sym is not None:
                    fresh = True
                    f2 = A.fact(st, sym)
                    if not f2[4]:
                        rc = None
            else:
                if c is not None:
                    rc = 'neg' if c < 0 else ('zero' if c == 0 else 'pos')
                elif f[1] < 0:
                    rc = 'neg'
                elif f[0] > 0:
                    rc = 'pos'
                elif f[0] == 0:
                    rc = 'nonneg'
        allocs = set()
        rsym = self.symof(A, val) if val is not None else None
        for h in held:
            sym, how, where = h
            f = A.fact(st, sym)
            if f[2] == -1 and f[3] == 0:
                continue
            if sym == rsym:
                allocs.add('ret')
                continue
            if where is not None:
                if where[0] == 'in':
                    # inside another resource: reported there or escapes with it
                    o = where[1]
                    n = 0
                    while True:
                        nx = [x[2] for x in held if x[0] == o]
                        n += 1
                        if nx and nx[0] is not None and nx[0][0] == 'in' and n < 8:
                            o = nx[0][1]
                        else:
                            break
                    if o == rsym or o not in {x[0] for x in held}:
                        continue
                    nx = [x[2] for x in held if x[0] == o]
                    if nx and nx[0] is not None:
                        continue
                    self.find('leak', self.site(T, sym), sym, A, st, 'still owned when %s returns at %s' % (self.fn.cname, ins.where()), str(T.tab[sym][2:]))
                else:
                    allocs.add(where)
                continue
            if how == 'calloc?':
                continue
            self.find('leak', self.site(T, sym), sym, A, st, 'still owned when %s returns at %s' % (self.fn.cname, ins.where()), str(T.tab[sym][2:]))
        nulls = set()
        for a, v in st.mem.items():
            if T.const(A.rep(st, v)) == 0:
                loc = self.location(A, a)
                if isinstance(loc, tuple) and loc[0] != 'in' and len(loc[1]) == 1:
                    nulls.add(loc)
        o = Outcome(rc, frozenset(allocs), frozenset(frees), frozenset(nulls))
        self.outs[o.key()] = o


class Heap:
    def __init__(self, M, E, N, maxsteps=400000):
        self.M, self.E, self.N = M, E, N
        self.summ = {}
        self.clients = {}
        self.maxsteps = maxsteps
        self._rank = {}
        self.freed = set()
        for f in M.fns.values():
            for i in f.calls():
                if i.callee() == 'free':
                    for fld in self.fieldof(f, i.args()[0], 0):
                        self.freed.add(fld)

    def fieldof(self, f, v, d):
        return ()

    def rank(self, fld):
        # fields that are freed somewhere own what is stored in them; then declaration order
        if fld not in self._rank:
            ix = [fs.index(fld) for fs in self.M.fields.values() if fld in fs]
            self._rank[fld] = (0 if fld in self.freed else 1, min(ix or [99]))
        return self._rank[fld]

    def relevant(self, f):
        for i in f.calls():
            c = i.callee()
            if c in ALLOC or c in FREE or c == 'getline':
                return True
            for t in self.M.targets(i):
                if t in self.summ:
                    return True
        return False

    def run(self):
        self.trunc = []
        for comp in self.M.bottom_up():
            for rnd in range(2 if len(comp) > 1 else 1):
                for n in comp:
                    if n not in self.M.fns:
                        continue
                    f = self.M.fns[n]
                    if not self.relevant(f):
                        continue
                    cl = HeapClient(self, f)
                    A = Analysis(self.M, self.E, f, cl, maxsteps=self.maxsteps)
                    A.run()
                    if A.truncated:
                        self.trunc.append(n)
                    self.clients[n] = cl
                    outs = list(cl.outs.values())
                    if any(not o.trivial() for o in outs):
                        # drop the null bookkeeping of functions that own nothing
                        self.summ[n] = outs
                    else:
                        self.summ.pop(n, None)
        return self
