"""C15: every build defines what the headers declare, under names of its own."""
import os
import re
import subprocess

import front
import ir

HEADERS = front.HEADERS + ('compat.h',)
PRE = {'FLOAT64': 'd', 'FLOAT32': 's'}
LIBS = ('libc.so.6', 'libm.so.6', 'libpthread.so.0', 'libdl.so.2', 'libgcc_s.so.1')


def libc_symbols():
    out = set()
    for d in ('/lib/x86_64-linux-gnu', '/usr/lib/x86_64-linux-gnu', '/lib64', '/usr/lib64'):
        for l in LIBS:
            p = os.path.join(d, l)
            if os.path.exists(p):
                r = subprocess.run(['nm', '-D', '--defined-only', p], capture_output=True, text=True)
                out |= {x.split()[-1].split('@')[0] for x in r.stdout.splitlines()}
    return out


def macros(prec):
    """object-like macros that rename library functions: source name -> symbol"""
    src = ''.join('#include "%s"\n' % h for h in HEADERS)
    r = subprocess.run(['clang', '-E', '-dM', '-x', 'c', '-D' + prec] + front.DEFS + front.incl() + ['-'], input=src, capture_output=True, text=True)
    out = {}
    for m in re.finditer(r'^#define (\w+) (\w+)$', r.stdout, re.M):
        out[m.group(1)] = m.group(2)
    return out


def norm(x):
    if isinstance(x, list):
        if x and x[0] == 'g' and isinstance(x[1], str):
            return ('g', 'str' if x[1].startswith('.') else re.sub(r'\.\d+$', '', re.sub(r'_[ds]_', '_X_', x[1])))
        return tuple(norm(y) for y in x)
    if isinstance(x, str):
        return re.sub(r'\.\d+$', '', re.sub(r'_[ds]_', '_X_', x))
    return x


def check(c):
    libc = libc_symbols()
    c.require('C library symbols', len(libc), 1000)
    nd = nu = nc = nm = nb = 0
    Ms = {}
    for prec in ('FLOAT64', 'FLOAT32'):
        tag = 'single' if prec == 'FLOAT32' else 'double'
        M = Ms[prec] = c.module(prec, inline=False, inst=True)
        A = front.api(prec, HEADERS)
        mac = macros(prec)
        back = {}
        for a, b in mac.items():
            back.setdefault(b, []).append(a)
        # 1. declared means defined
        for n, o in sorted(A.items()):
            nd += 1
            if o['inline'] or n in M.fns:
                continue
            c.report('declared:%s' % ir.cname(n), 'is declared in %s but the %s precision library does not define it' % (o['file'], tag),
                     fn=ir.cname(n), where='src/include/%s' % o['file'])
        # 2. nothing the library refers to is missing
        ref = {}
        for f in M.fns.values():
            for i in f.instrs():
                for x in [i.a[0]] + list(i.args()) if i.op == 'call' else i.a:
                    for g in globs(x):
                        ref.setdefault(g, i)
        for g in M.globals.values():
            for r in g['refs']:
                if isinstance(r, list) and len(r) > 1 and isinstance(r[1], str):
                    ref.setdefault(r[1], None)
        for g, i in sorted(ref.items()):
            if g.startswith('llvm.') or g in M.fns or g in M.globals and M.globals[g]['def']:
                continue
            nu += 1
            base = g.replace('__isoc23_', '').replace('__isoc99_', '')
            if g not in libc and base not in libc:
                c.report('unresolved:%s' % ir.cname(g), '%s precision: refers to %s, which no source defines' % (tag, g),
                         fn=i.fn.cname if i is not None else None, where=i.where() if i is not None else None)
        # 3. calls agree with the definition
        for f in M.fns.values():
            for i in f.calls():
                g = M.fns.get(i.callee() or '')
                if g is None:
                    continue
                nc += 1
                rt = g.ret or 'void'
                bad = None
                if len(i.args()) != g.nparams and not getattr(g, 'vararg', False):
                    bad = '%d arguments, the definition takes %d' % (len(i.args()), g.nparams)
                elif i.ty == 'i32' and rt.rstrip().endswith('*') or i.ty == 'ptr' and rt in ('int', 'i32', 'double', 'float', 'DTYPE', 'ABSTYPE'):
                    bad = 'result used as %s, the definition returns %s' % (i.ty, rt)
                if bad:
                    c.report('call:%s:%s' % (f.cname, g.cname), 'calls %s with %s' % (g.cname, bad), fn=f.cname, where=i.where())
        # 4. public names carry the precision, and each symbol has one name
        p = PRE[prec]
        for n, o in sorted(A.items()):
            src = [a for a in back.get(n, []) if re.match(r'(armas|armassp|mat|vec)_', a)]
            nm += 1
            for a in src:
                want = re.sub(r'^(armas|armassp|mat|vec)_', r'\1_%s_' % p, a)
                if n != want and re.match(r'\w+?_[ds]_', n):
                    c.report('name:%s' % a, '%s precision: %s stands for %s, not %s' % (tag, a, n, want), fn=a, where='src/include/%s' % o['file'])
            if len(src) > 1:
                c.report('name:%s' % '='.join(sorted(src)), '%s precision: %s all stand for %s' % (tag, ', '.join(sorted(src)), n), fn=n)
    # 5. a symbol that both libraries define is the same code
    a = {n for n, f in Ms['FLOAT64'].fns.items() if not f.static}
    b = {n for n, f in Ms['FLOAT32'].fns.items() if not f.static}
    for n in sorted(a & b):
        nb += 1
        x, y = Ms['FLOAT64'].fns[n], Ms['FLOAT32'].fns[n]
        if code(x) != code(y) or [q['ty'] for q in x.params] != [q['ty'] for q in y.params]:
            c.report('shared:%s' % n, 'is defined by both the single and the double precision library, with different code', fn=n,
                     where='%s:%d' % (ir.relpath(x.file), x.line))
    c.samples += ['%s: same code in both libraries' % n for n in sorted(a & b)[:6]]
    n = nd + nu + nc + nm + nb
    c.cov.update(declared=nd, external_references=nu, calls=nc, names=nm, shared_symbols=nb, obligations=n, discharged=n - len(c.findings),
                 trusted_base=['clang 18 front end', 'the dynamic symbol tables of the C libraries'])
    c.require('declared functions', nd, 600)
    c.require('calls', nc, 5000)
    c.require('shared symbols', nb, 40)


def code(f):
    return [(i.op, norm(i.ty), norm(i.a)) for b in f.blocks for i in b]


def globs(x):
    if isinstance(x, list):
        if len(x) > 1 and x[0] == 'g' and isinstance(x[1], str):
            yield x[1]
        else:
            for y in x:
                yield from globs(y)
