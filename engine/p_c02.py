"""C02: no deadlock through the library's own locks."""
from deadlock import Deadlock, describe, lname
from prog import strip_tpl
from result import Result

RULE = ('interprocedural lock graph (guards, manual locking, destructors run by owners that let go): no cycle between '
        'locks, no lock re-acquired by its holder, no lock held while joining or waiting for a thread, and no lock held '
        'while a listener is called')


def run(P):
    R = Result()
    R.rule = RULE
    D = Deadlock(P)
    vs = D.run()
    R.need(D.stats['acquisition sites'], 60, 'lock acquisitions')
    R.need(D.stats['listener calls'], 5, 'listener calls')
    for k, n in D.stats.items():
        R.count(k, n)
    R.count('lock order edges', len(D.edges))
    nm = lambda k: strip_tpl(k[0]).split('::')[-1] + '::' + k[1]
    for (a, b, kind), w in sorted(D.edges.items(), key=lambda x: str(x[0])):
        R.sample(f'{nm(a)} -> {nm(b)} {kind} in {w[0].short}', 60)
    for v in vs:
        kind, f, node, h, l, tr = v
        loc = f.loc(node) if f else ''
        if kind == 'callback':
            for x in h:
                R.violation(f"callback|{lname(x.lock)}|{l.split('::')[-2]}::{l.split('::')[-1]}", describe(D, v), loc)
        elif kind == 'cycle':
            R.violation('cycle|' + ','.join(sorted(nm(k) for k in h)), describe(D, v), '')
        elif kind == 'wait':
            R.violation(f'wait|{f.short}|{l}', describe(D, v), loc)
        elif kind == 'sameclass':
            R.violation(f'sameclass|{nm(h)}|{nm(l)}', describe(D, v), loc)
        else:
            R.violation(f'reacquire|{f.short}|{lname(h.lock)}', describe(D, v), loc)
    return R
