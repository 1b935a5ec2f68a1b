"""R01: OpenMP parallel regions are free of data races."""
from .. import race
from ..ast import AnalysisBroken


def shortfn(q):
    return q.replace('fvens::', '')


def races(ctx):
    ctx.rule('Every OpenMP parallel region, with all functions called from it (all overriders of virtual ones), is reduced to the places it reads and writes: variable or pointee, fields, '
             'and indices as linear forms of the work-shared loop variable. Two accesses of different iterations in the same barrier phase, one a write, must have provably different indices '
             '(or face ranges, or sides of a face), or both be atomic, or both be in the same critical section, or both be in the same single section.')
    n = {}
    for f, node in race.regions(ctx.prog):
        n[f.q] = n.get(f.q, 0) + 1
        name = '%s#%d' % (shortfn(f.q), n[f.q])

        def one():
            r = race.Region(ctx.prog, f, node).run()
            bad = {}
            for root, x, y in r.conflicts():
                bad.setdefault(root, (x, y))
            roots = {}
            for ph in r.phases:
                for a in ph:
                    if a.w:
                        roots.setdefault(a.place.root, a)
            for root, a in sorted(roots.items(), key=lambda k: repr(k[0])):
                b = bad.get(root)
                ctx.ob(b is None, '%s:%s' % (name, race.rootname(root)), a.where if b is None else b[0].where,
                       '%s: %s' % (shortfn(f.q), 'no other iteration touches what is written' if b is None else
                                   'one iteration\'s %r%s and another\'s %r%s are not kept apart' % (b[0], prot(b[0]), b[1], prot(b[1]))))
            ctx.ob(True, name + ':analysed', '%s:%s' % (f.file, node['l']), '%d accesses in %d phases' % (sum(map(len, r.phases)), len(r.phases)))
            ctx.count('parallel regions')
            ctx.count('accesses to shared data', sum(map(len, r.phases)))
        ctx.guard('%s (%s:%s)' % (f.q, f.file, node['l']), one)
    ctx.require(n, 'no OpenMP parallel region was found')


def prot(a):
    return '' if a.prot is None else ' [%s]' % ' '.join(x for x in a.prot if x)
