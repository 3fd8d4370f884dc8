"""C07: questions change nothing."""
from prog import Prog, strip_tpl
from effects import Effects
from cfgutil import *
from result import Result, Broken

RULE = ('interprocedural modification summaries (objects reached through members, pointers, references, smart pointers and iterators belong to the root of their access path): '
        'no const member function modifies its object, anything the object points to, a static object, or an argument that it takes by const reference, except by notifying listeners; '
        'no function modifies an object that it takes as a const reference, pointer to const or shared pointer to const')


def pointee_const(t):
    """Type through which only reading is allowed."""
    t = t.strip()
    if t.startswith('const ') and (t.endswith('&') or t.endswith('*')) and not ptrlike(t):
        return True
    return 'shared_ptr<const ' in t and not t.startswith('std::list') and not t.startswith('std::vector')


def ptrlike(t):
    return 'shared_ptr<' in t or 'unique_ptr<' in t or t.rstrip('& ').endswith('* const')


def run(P):
    R = Result()
    R.rule = RULE
    E = Effects(P)
    listener = {c.name for c in P.classes.values() if is_listener(P, c)}
    if not listener:
        raise Broken('no listener interface found')
    nq = 0
    for f in sorted(P.fns.values(), key=lambda f: f.q):
        if '(anonymous class)' in f.q:
            continue
        s = E.sum[f.u]
        if f.kind == 'method' and f.const:
            nq += 1
            R.count('const queries')
            bad = [r for r in s if r == 'this' or r[0] == 'global']
            for r in sorted(bad, key=str):
                if through_listener(P, E, f.u, r, listener):
                    R.count('notifications of listeners')
                    continue
                what = 'its object' if r == 'this' else f'the static object {r[1]}'
                R.violation(f'{strip_tpl(f.short)}|{r if r == "this" else r[1]}', f'the query {f.short} changes {what}: {E.trace(f.u, r)}', f.loc(s[r][0]))
            R.sample(f'{f.short}: changes only {", ".join(f.params[r[1]]["n"] for r in s if r[0] == "param") or "nothing"}')
        for r in s:
            if r[0] == 'param' and pointee_const(f.params[r[1]]['t']):
                R.count('const arguments')
                if f.params[r[1]]['t'].rstrip(' &') .endswith('*>') or through_listener(P, E, f.u, r, listener):
                    continue
                R.violation(f'{strip_tpl(f.short)}|argument {r[1]}', f'{f.short} changes its constant argument {f.params[r[1]]["n"]}: {E.trace(f.u, r)}', f.loc(s[r][0]))
        if f.kind != 'method' or not f.const:
            R.count('other functions')
        for i, nd in enumerate(f.nodes):
            if nd['k'] == 'decl':
                for v in nd['vars']:
                    if not v.get('static'):
                        continue
                    R.count('static locals')
                    if v.get('init', -1) >= 0 and any(f.nodes[x]['k'] == 'this' or f.nodes[x]['k'] == 'ref' and f.nodes[x].get('vk') in ('local', 'param')
                                                      for x in f.walk(v['init'])):
                        R.violation(f'{strip_tpl(f.short)}|static {v["n"]}', f'{f.short} keeps {v["n"]} from its first call, later calls with other arguments get the same value', f.loc(i))
    # members that const functions may change
    for c in P.classes.values():
        for n, fd in c.fields.items():
            if fd.get('mut'):
                R.count('mutable members')
    R.count('const arguments', sum(1 for f in P.fns.values() for p in f.params if pointee_const(p['t'])))
    R.need(nq, 250, 'const queries')
    return R


def is_listener(P, c):
    vs = [m for m in c.methods if m.get('virt') and not m['n'].startswith('~')]
    return bool(vs) and strip_tpl(c.name).endswith('_listener')


def through_listener(P, E, u, r, listener):
    """The change happens inside a listener that is being notified."""
    seen = set()
    while u is not None and (u, r) not in seen:
        seen.add((u, r))
        f = P.fns[u]
        i, nxt = E.sum[u][r]
        nd = f.nodes[i]
        if nd['k'] == 'call' and nd.get('virt') and nd.get('cls') in listener:
            return True
        if not nxt:
            return False
        u, r = nxt
    return False
