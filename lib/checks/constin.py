"""Input operands declared const by the public API are never written, directly or through any callee."""
import re

import front
import ir


def is_const_ptr(t):
    # const pointee of the outermost pointer
    t = t.strip()
    return '*' in t and re.match(r'^(const\s+|struct\s+)*const\s|^\w[\w\s]*\sconst\s*\*', t) is not None and t.count('*') == 1


def check(c):
    nf = no = 0
    for prec in (('FLOAT64', 'FLOAT32') if c.thorough else ('FLOAT64',)):
        M = c.module(prec)
        E = ir.Effects(M)
        A = front.api(prec)
        for n in sorted(A):
            if n not in M.fns:
                continue
            f = M.fns[n]
            ps = A[n]['params']
            todo = [k for k, (pn, t) in enumerate(ps) if is_const_ptr(t) and k < f.nparams]
            if f.params and f.params[0].get('sret'):
                todo = [k + 1 for k in todo if k + 1 < f.nparams]
            if not todo:
                continue
            nf += 1
            e = E.eff[n]
            for k in todo:
                no += 1
                for m in sorted((m for m in e.mod if m[0] == k), key=str):
                    ins = e.why[m]
                    path = why_chain(M, E, f, m)
                    tgt = f.params[k]['name']
                    c.report('%s|%s' % (f.cname, tgt),
                             'writes through its const operand %s (%s)' % (tgt, '.'.join(m[1]) + ('.' if m[1] else '') + str(m[2][1])),
                             fn=f.cname, where=ins.where() if ins is not None else None, path=path)
        if prec == 'FLOAT64':
            c.samples += ['%s: const operands %s' % (n, [p for p, t in A[n]['params'] if is_const_ptr(t)])
                          for n in sorted(A) if n in M.fns and any(is_const_ptr(t) for _, t in A[n]['params'])][:12]
    c.cov.update(functions=nf, obligations=no, discharged=no - len(c.findings),
                 trusted_base=['clang 18 front end', 'LLVM SROA/inliner', 'lib/ir.py effect summaries'])
    c.assume += ['operands do not alias each other', 'user callbacks honour the const of their own parameters']
    c.require('public functions with const operands', nf, 150)


def why_chain(M, E, f, m):
    out = []
    seen = set()
    while f is not None and (f.name, m) not in seen and len(out) < 12:
        seen.add((f.name, m))
        ins = E.eff[f.name].why.get(m)
        if ins is None:
            break
        out.append('%s: %s' % (f.cname, ins.where()))
        if ins.op != 'call':
            break
        nxt = None
        for t in M.targets(ins):
            if t in M.fns:
                for m2 in E.eff[t].mod:
                    if m2[2] == m[2]:
                        nxt = (M.fns[t], m2)
                        break
            if nxt:
                break
        if not nxt:
            break
        f, m = nxt
    return out
