"""M02: constructors leave no member without a value."""
from prog import Prog, strip_tpl
from assign import *
from cfgutil import *
from result import Result, Broken

RULE = ('definite-assignment dataflow over every constructor (initialiser list in the order of execution, body, and the member functions, base classes and '
        'other constructors it calls): every number, flag, enumeration and pointer of the object has a value on every path to the end of the constructor, '
        'none is read before it has one, and hand-written copy operations copy every member')

BASIC = ('scalar', 'ptr', 'enum', 'arr')


def scalars(c):
    out = set()
    for n, f in c.fields.items():
        if f['kd'] in ('scalar', 'ptr', 'enum') or f['kd'] == 'arr' and any(f['t'].startswith(p) for p in ('bool', 'int', 'double', 'float', 'unsigned', 'long', 'usml::types::interp_enum')):
            out.add(n)
        elif f['t'].startswith('std::atomic<'):
            out.add(n)
    return out


def run(P):
    R = Result()
    R.rule = RULE
    known = {}
    nct = 0

    def isthis(fn, i):
        return fn.nodes[i]['k'] == 'this'

    def judge(f, c, allf, sc):
        def follow(fn, e):
            nd = fn.nodes[e]
            if nd['k'] == 'call' and 'u' in nd and nd.get('recv', -1) >= 0 and 'op' not in nd:
                r = nd['recv']
                while fn.nodes[r]['k'] == 'cast' or fn.nodes[r]['k'] == 'un' and fn.nodes[r]['op'] == '*':
                    r = fn.nodes[r]['c'][0]
                if isthis(fn, r):
                    g = P.fns.get(nd['u'])
                    # a virtual call in a constructor runs the version of its own class
                    if nd.get('virt'):
                        for o in P.overriders.get(nd['u'], ()):
                            if o in P.fns and P.fns[o].cls == f.cls:
                                g = P.fns[o]
                    return [g] if g and g.kind == 'method' and not g.static else []
            return []
        D = Definite(P, allf, isthis, follow, sc)

        def inits(fn, e):
            if 'initf' in e:
                w = next((x for x in fn.inits if x.get('f') == e['initf']), None)
                return [e['initf']] if w is None or w['w'] or w.get('inclass') or e['initf'] not in sc or e['initf'] in atomics else []
            if 'initb' in e:
                return sorted(n for b in [e['initb']] + P.all_bases(e['initb']) if b in P.classes for n in P.classes[b].fields)
            if 'deleg' in e:
                return sorted(allf)
        atomics = set()
        D.inits = inits
        # members of base classes are the responsibility of their constructors
        init = frozenset(n for b in P.all_bases(f.cls) if b in P.classes for n in P.classes[b].fields if n not in c.fields)
        # two passes: the first reaches the fixpoint, the second judges reads
        D.run(f, init)
        return D

    for c in P.classes.values():
        own = scalars(c)
        bases = {n for b in P.all_bases(c.name) if b in P.classes for n in P.classes[b].fields}
        allf = set(c.fields) | bases
        for f in P.fns.values():
            if f.cls != c.name or f.kind != 'ctor' or f.r.get('dflt') and f.r.get('cm'):
                continue
            if f.r.get('cm'):
                copy_complete(P, R, f, c)
            nct += 1
            sc = set(own)
            D = judge(f, c, allf, sc)
            out = D.sums.get((f.u, frozenset(n for b in P.all_bases(f.cls) if b in P.classes for n in P.classes[b].fields if n not in c.fields)), frozenset(allf))
            for n in sorted(own):
                R.count('members')
                atom = c.fields[n]['t'].startswith('std::atomic<')
                ini = next((x for x in f.inits if x.get('f') == n), None)
                if n not in out and not (atom and ini and (ini['w'] or ini.get('inclass'))):
                    R.violation(f'{strip_tpl(c.name)}|{n}|{len(f.params)}', f'{f.short} can leave {n} without a value', f.loc())
            for (u, n), (g, e) in sorted(D.early.items(), key=str):
                R.violation(f'{strip_tpl(c.name)}|early {n}', f'{g.short} reads {n} before {f.short} has given it a value', g.loc(e))
            R.sample(f'{f.short}/{len(f.params)}: {len(own)} members')
        # hand-written assignment
        for f in P.fns.values():
            if f.cls == c.name and f.n == 'operator=' and not f.r.get('dflt') and len(f.params) == 1 and strip_tpl(f.params[0]['t']).replace('const ', '').rstrip(' &') == strip_tpl(c.name):
                assign_complete(P, R, f, c)
    # records without constructors are created with a value for every member
    for f in P.fns.values():
        for i, nd in enumerate(f.nodes):
            if nd['k'] == 'ctor' and nd.get('cls') in P.classes and not nd.get('c') and trivial(P, nd['cls']) and not nd.get('zero'):
                pass
    for f in P.fns.values():
        local_values(P, R, f)
    R.count('constructors', nct)
    R.need(nct, 60, 'constructors')
    order(P, R)
    return R


def local_values(P, R, f):
    """Local numbers, flags, enumerations and pointers are assigned before they are read."""
    if f.entry is None:
        return
    names = {}
    for i, nd in enumerate(f.nodes):
        if nd['k'] == 'decl':
            for v in nd['vars']:
                if v.get('init', -1) < 0 and basic(P, v['t']) and not v.get('static'):
                    names[v['d']] = (i, v['n'])
    if not names:
        return
    eff, elems = defaultdict(list), set()
    captured = set()
    for i, nd in enumerate(f.nodes):
        if nd['k'] == 'ref' and nd.get('d') in names and nd.get('vk') != 'func':
            k, at, d = context(f, i)
            if k == READ:
                eff[i].append(('r', nd['d']))
            elif k == RW:
                eff[i].append(('r', nd['d']))
                eff[at].append(('w', nd['d']))
            elif k in (WRITE, SETTER, ELEM):
                eff[at].append(('w', nd['d']))
        elif nd['k'] == 'lambda':
            captured |= {x['d'] for x in nd.get('caps', []) if isinstance(x, dict) and 'd' in x}
    decl = defaultdict(list)
    for d, (i, n) in names.items():
        if d not in captured:
            decl[i].append(d)
    R.count('local variables', len(names))
    IN = {f.entry: frozenset()}
    work = [f.entry]
    bad = {}
    final = False
    while True:
        while work:
            b = work.pop()
            st = IN[b]
            for e in f.blocks[b]['el']:
                if isinstance(e, dict):
                    continue
                for d in decl.get(e, ()):
                    st = st - {d}
                for k, d in eff.get(e, ()):
                    if k == 'r':
                        if final and d not in st and d not in captured:
                            bad.setdefault(d, e)
                    else:
                        st = st | {d}
            if final:
                continue
            for s in f.blocks[b]['su']:
                if s < 0:
                    continue
                n = st if s not in IN else IN[s] & st
                if s not in IN or n != IN[s]:
                    IN[s] = n
                    work.append(s)
        if final:
            break
        final = True
        work = list(IN)
    for d, e in bad.items():
        R.violation(f'{f.short}|local {names[d][1]}', f'{f.short} reads {names[d][1]} on a path on which it has no value', f.loc(e))


def basic(P, t):
    t = t.replace('const ', '').strip()
    if t.endswith('*'):
        return True
    return t in ('bool', 'int', 'unsigned int', 'double', 'float', 'long', 'unsigned long', 'char', 'short', 'unsigned short', 'long long', 'unsigned char') or t in P.enums


def trivial(P, cls):
    return not any(f.cls == cls and f.kind == 'ctor' for f in P.fns.values())


def order(P, R):
    """Initialisers run in the order of declaration: one that reads a member
    declared later reads nothing."""
    for f in P.fns.values():
        if f.kind != 'ctor' or f.cls not in P.classes:
            continue
        c = P.classes[f.cls]
        pos = {n: k for k, n in enumerate(c.fields)}
        for ini in f.inits:
            if 'f' not in ini or ini['f'] not in pos or ini['n'] < 0:
                continue
            for x in f.walk(ini['n']):
                nd = f.nodes[x]
                n = None
                if nd['k'] == 'mem' and nd['n'] in pos and nd.get('c') and f.nodes[nd['c'][0]]['k'] == 'this':
                    n = nd['n']
                    reads = [n] if context(f, x)[0] in (READ, RW, SETTER) or True else []
                elif nd['k'] == 'call' and nd.get('recv', -1) >= 0 and f.nodes[nd['recv']]['k'] == 'this' and nd.get('u') in P.fns:
                    g = P.fns[nd['u']]
                    reads = [m['n'] for j, m in enumerate(g.nodes) if m['k'] == 'mem' and m['n'] in pos and m.get('c') and g.nodes[m['c'][0]]['k'] == 'this' and context(g, j)[0] in (READ, RW)]
                else:
                    continue
                R.count('members read in initialisers', len(reads))
                for n in reads:
                    par = [p for p in f.parents.get(x, []) if f.nodes[p]['k'] == 'un' and f.nodes[p]['op'] == '&']
                    if pos[n] > pos[ini['f']] and not par:
                        R.violation(f'{strip_tpl(c.name)}|order {ini["f"]} {n}', f'{f.short}: the initialiser of {ini["f"]} reads {n}, which is initialised later', f.loc(x))


def copy_complete(P, R, f, c):
    """Every member of a hand-written copy constructor comes from the other object."""
    if len(f.params) != 1:
        return
    d = f.params[0]['d']
    got = set()
    for ini in f.inits:
        if 'f' in ini and any(f.nodes[x].get('d') == d for x in f.walk(ini['n'])):
            m = [f.nodes[x]['n'] for x in f.walk(ini['n']) if f.nodes[x]['k'] == 'mem']
            if ini['f'] in m or not m:
                got.add(ini['f'])
    got |= assigned_from(P, f, d)
    judge_copy(P, R, f, c, got)


def assigned_from(P, f, d, depth=0):
    got = set()
    for i, nd in enumerate(f.nodes):
        if nd['k'] == 'mem' and nd.get('c') and f.nodes[nd['c'][0]]['k'] == 'this':
            k, at, src = context(f, i)
            if k in (WRITE, ELEM):
                if src is None or src < 0:
                    continue
                st = set(f.walk(src))
                # chained assignment of computed values counts when it depends on the other object
                if any(f.nodes[x].get('d') == d for x in st):
                    m = [f.nodes[x]['n'] for x in st if f.nodes[x]['k'] == 'mem']
                    cl = [name(f.nodes[x]) for x in st if f.nodes[x]['k'] == 'call']
                    if nd['n'] in m or nd['n'].lstrip('_') in cl or not m:
                        got.add(nd['n'])
    for i, nd in f.calls():
        if nd['k'] == 'call' and nd.get('recv', -1) >= 0 and f.nodes[nd['recv']]['k'] == 'this' and nd['u'] in P.fns and depth < 3:
            g = P.fns[nd['u']]
            if any(f.nodes[x].get('d') == d for a in nd['c'] for x in f.walk(a)):
                # a member function that is handed values of the other object
                got |= {m['n'] for j, m in enumerate(g.nodes) if m['k'] == 'mem' and m.get('c') and g.nodes[m['c'][0]]['k'] == 'this' and context(g, j)[0] in (WRITE, ELEM)}
                for h in [P.fns[x['u']] for _, x in g.calls() if x['k'] == 'call' and x.get('recv', -1) >= 0 and g.nodes[x['recv']]['k'] == 'this' and x['u'] in P.fns]:
                    got |= {m['n'] for j, m in enumerate(h.nodes) if m['k'] == 'mem' and m.get('c') and h.nodes[m['c'][0]]['k'] == 'this' and context(h, j)[0] in (WRITE, ELEM)}
        # one copy operation built on the other: *this = other
        if nd['k'] == 'call' and nd.get('op') == '=' and nd.get('u') in P.fns and P.fns[nd['u']].cls == f.cls and nd['u'] != f.u:
            got |= set(P.classes[f.cls].fields)
    return got


def assign_complete(P, R, f, c):
    judge_copy(P, R, f, c, assigned_from(P, f, f.params[0]['d']))


def is_nan(f, i):
    nd = f.nodes[i]
    if nd['k'] == 'bin' and nd.get('asg') and nd['op'] == '=':
        return is_nan(f, nd['c'][1])
    if nd['k'] in ('cast', 'paren', 'init') and len(nd.get('c', [])) == 1:
        return is_nan(f, nd['c'][0])
    return nd['k'] == 'call' and (nd.get('q', '').startswith('__builtin_nan') or name(nd) == 'quiet_NaN')


def lazy(P, c):
    """Members that some member function recomputes when it finds them to be NAN."""
    out = set()
    for f in P.fns.values():
        if f.cls == c.name:
            for i, nd in f.calls():
                if name(nd) == 'isnan' and nd.get('c'):
                    m = f.nodes[nd['c'][0]]
                    if m['k'] == 'mem' and m['n'] in c.fields:
                        out.add(m['n'])
    return out


def forgotten(f, c):
    """Members set to NAN by f."""
    out = {x['f'] for x in f.inits if 'f' in x and x['n'] >= 0 and is_nan(f, x['n'])}
    for i, nd in enumerate(f.nodes):
        if nd['k'] == 'mem' and nd.get('c') and f.nodes[nd['c'][0]]['k'] == 'this':
            k, at, src = context(f, i)
            if k == WRITE and src is not None and src >= 0 and is_nan(f, src):
                out.add(nd['n'])
    return out


def judge_copy(P, R, f, c, got):
    got = got | lazy(P, c) & forgotten(f, c)
    for n, fl in c.fields.items():
        if 'mutex' in fl['t'] or 'atomic' in fl['t']:
            continue
        R.count('copied members')
        if n not in got:
            R.violation(f'{strip_tpl(c.name)}|{f.kind} {n}', f'{f.short} does not copy {n}', f.loc())


if __name__ == '__main__':
    R = run(Prog())
    print(dict(R.counts))
    for k, (m, l) in R.violations.items():
        print(l, m, k)
