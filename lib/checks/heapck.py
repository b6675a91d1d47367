"""C03 ownership, C04 allocation failures: both from the ownership typestate of lib/heap.py."""
import heap
import ir
import nulls

KINDS = {'C03': ('leak', 'overwrite', 'doublefree', 'uaf'), 'C04': ('nocheck', 'ignored')}


def run(c, kinds, precs):
    nsites = nrets = nfn = nsumm = 0
    trunc = []
    for prec, flags in precs:
        M = c.module(prec, flags=flags) if flags else c.module(prec)
        H = heap.Heap(M, ir.Effects(M), nulls.Nulls(M)).run()
        nsites += sum(len(cl.nsites) for cl in H.clients.values())
        nrets += sum(cl.nrets for cl in H.clients.values())
        nfn += len(H.clients)
        nsumm += len(H.summ)
        trunc += H.trunc
        for n, cl in H.clients.items():
            for k, (kind, ins, msg, p) in cl.finds.items():
                if kind in kinds:
                    what = ir.cname(ins.callee() or '?') if ins is not None and ins.op == 'call' else '?'
                    c.report('%s:%s:%s' % (kind, ir.cname(n), what), '%s: result of %s %s' % (kind, what, msg), fn=ir.cname(n), where=ins.where() if ins else None)
        if len(c.samples) < 10:
            for n, s in H.summ.items():
                if len(c.samples) < 10:
                    c.samples.append('%s: %s' % (ir.cname(n), '; '.join(map(str, s[:3]))))
    c.cov.update(functions=nfn, allocation_sites=nsites, return_states=nrets, summaries=nsumm, obligations=nsites, discharged=nsites - len(c.findings),
                 truncated=[ir.cname(x) for x in trunc])
    c.require('allocation sites', nsites, 60)
    c.require('functions', nfn, 60)
    c.assume += ['external functions other than the listed allocators neither free nor retain their arguments, except pthread_create and function pointers, which end tracking',
                 'a block stored in memory that outlives the function belongs to that memory']
    if trunc:
        c.require('functions analysed to the end', -len(trunc), 0)


def leak(c):
    precs = [('FLOAT64', ('--inline-alloc=90',))]
    if c.thorough:
        precs += [('FLOAT32', ('--inline-alloc=90',)), ('FLOAT64', None)]
    run(c, KINDS['C03'], [p for p in precs if p[1]] )


def failure(c):
    precs = [('FLOAT64', ('--inline-alloc=90',)), ('FLOAT64', None)]
    if c.thorough:
        precs += [('FLOAT32', ('--inline-alloc=90',)), ('FLOAT32', None)]
    run(c, KINDS['C04'], precs)
