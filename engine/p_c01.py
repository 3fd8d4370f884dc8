"""C01: shared state is only touched under its lock."""
from races import Races, describe
from prog import strip_tpl
from result import Result
from collections import Counter

RULE = ('lockset dataflow: for every field of a class with a mutex (or of a background task) that is modified outside '
        'construction there is a set of locks that every modification holds exclusively and every read holds at least '
        'one of; obligations not met locally are carried to the callers')


def run(P):
    R = Result()
    R.rule = RULE
    A = Races(P)
    vs = A.run()
    R.need(len(A.lock_choice), 15, 'lock-protected fields')
    R.need(len([c for c in A.guard_of if A.guard_of[c]]), 10, 'classes with a mutex')
    R.count('lockable classes', len(A.guard_of))
    R.count('protected fields', len(A.lock_choice))
    for k, n in A.stats.items():
        R.count(k, n)
    for (c, n), S in sorted(A.lock_choice.items()):
        R.sample(f'{strip_tpl(c).split("::")[-1]}::{n} protected by ' + '+'.join(l[1] for l in S), 80)
    for v in vs:
        leaf = v['leaf']
        key = f"{leaf.short}|{strip_tpl(v['cls']).split('::')[-1]}::{v['field']}|{v['mode']}"
        R.violation(key, describe(v), leaf.loc(v['leafnode']))
    return R
