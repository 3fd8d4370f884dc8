"""Small helpers shared by the path analyses."""
from prog import strip_tpl


def stmts(s):
    """All statements of a statement tree."""
    if isinstance(s, dict):
        if 's' in s:
            yield s
        for v in s.values():
            if isinstance(v, (dict, list)):
                yield from stmts(v)
    elif isinstance(s, list):
        for x in s:
            yield from stmts(x)


def stmt_nodes(fn, s):
    """All expression nodes below statement s."""
    out = set()

    def rec(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ('n', 'c', 'inc', 'range') and isinstance(v, int) and v >= 0:
                    out.update(fn.walk(v))
                elif isinstance(v, (dict, list)):
                    rec(v)
        elif isinstance(x, list):
            for y in x:
                rec(y)
    rec(s)
    return out


LOOPS = {'ForStmt': 'for', 'WhileStmt': 'while', 'DoStmt': 'do', 'CXXForRangeStmt': 'rangefor'}


def loop_of(fn, blk):
    """Loop statement whose condition ends block blk."""
    k = LOOPS.get(blk.get('tk'))
    if not k:
        return None
    for s in stmts(fn.body):
        if s.get('s') == k and s.get('l') == blk.get('tl'):
            return s
    return None


def strip_not(fn, c, truth):
    """Removes casts and negations from condition c."""
    while True:
        nd = fn.nodes[c]
        if nd['k'] == 'un' and nd['op'] == '!':
            c, truth = nd['c'][0], not truth
        elif nd['k'] == 'cast' or nd['k'] == 'init' and len(nd['c']) == 1:
            c = nd['c'][0]
        elif nd['k'] == 'ref' and nd.get('vk') == 'local':
            v = fn.locals.get(nd['d'])
            if v and v['init'] >= 0 and v['t'] in ('bool', 'const bool') and not reassigned(fn, nd['d']):
                c = v['init']
            else:
                return c, truth
        elif nd['k'] == 'bin' and nd['op'] in ('==', '!=') or nd['k'] == 'call' and nd.get('op') in ('==', '!='):
            a = ([nd['recv']] if nd.get('recv', -1) >= 0 else []) + nd['c']
            done = True
            if len(a) == 2:
                for x, y in ((a[0], a[1]), (a[1], a[0])):
                    yn = fn.nodes[y]
                    if yn['k'] == 'lit' and isinstance(yn.get('v'), bool):
                        if (nd['op'] == '==') != yn['v']:
                            truth = not truth
                        c = x
                        done = False
                        break
            if done:
                return c, truth
        else:
            return c, truth


def reassigned(fn, d):
    for nd in fn.nodes:
        if nd['k'] == 'bin' and nd.get('asg'):
            l = fn.nodes[nd['c'][0]]
            if l['k'] == 'ref' and l.get('d') == d:
                return True
        if nd['k'] == 'un' and nd['op'] in ('++', '--', '&'):
            l = fn.nodes[nd['c'][0]]
            if l['k'] == 'ref' and l.get('d') == d:
                return True
    return False


def name(nd):
    return strip_tpl(nd.get('q', '')).split('::')[-1]


def is_true(fn, i):
    nd = fn.nodes[i]
    while nd['k'] in ('cast', 'init', 'ctor') and len(nd.get('c', [])) == 1:
        nd = fn.nodes[nd['c'][0]]
    return nd['k'] == 'lit' and nd.get('v') in (True, 1)


def is_false(fn, i):
    nd = fn.nodes[i]
    while nd['k'] in ('cast', 'init', 'ctor') and len(nd.get('c', [])) == 1:
        nd = fn.nodes[nd['c'][0]]
    return nd['k'] == 'lit' and nd.get('v') in (False, 0)


def field_of(fn, i):
    """(class, field) when node i is a plain member or static member."""
    nd = fn.nodes[i]
    while nd['k'] == 'cast':
        i = nd['c'][0]
        nd = fn.nodes[i]
    if nd['k'] == 'mem':
        return (nd['cls'], nd['n'])
    if nd['k'] == 'ref' and nd.get('vk') == 'smem':
        return (nd['cls'], nd['n'])
    return None


def returned_field(P, fn):
    """(class, field) of a one-line accessor."""
    from locks import simple_return
    r = simple_return(fn)
    if r < 0:
        return None
    while True:
        nd = fn.nodes[r]
        if nd['k'] == 'cast' or nd['k'] == 'ctor' and len(nd.get('c', [])) == 1:
            r = nd['c'][0]
        elif nd['k'] == 'call' and nd.get('recv', -1) >= 0 and (name(nd).startswith('operator ') or name(nd) in ('load', 'get')):
            r = nd['recv']
        else:
            break
    return field_of(fn, r)


def accessor_field(P, cls, meth):
    """Field returned (anywhere) by method `meth` of class cls."""
    for f in P.fns.values():
        if f.cls == cls and f.n == meth:
            r = returned_field(P, f)
            if r:
                return r
            # last return statement that names a field
            for i, nd in enumerate(f.nodes):
                if nd['k'] == 'ret' and nd['c']:
                    for x in f.walk(nd['c'][0]):
                        q = field_of(f, x) if f.nodes[x]['k'] in ('mem', 'ref') else None
                        if q:
                            return q
    return None


RMW_INC = ('fetch_add',)
RMW_DEC = ('fetch_sub',)


def atomic_op(fn, i):
    """(field, op, value node) for an operation on an atomic/integer/bool
    member; op in inc dec store load test_and_set add sub."""
    nd = fn.nodes[i]
    if nd['k'] == 'un' and nd['op'] in ('++', '--'):
        f = field_of(fn, nd['c'][0])
        if f:
            return f, 'inc' if nd['op'] == '++' else 'dec', -1
    if nd['k'] == 'bin' and nd.get('asg'):
        f = field_of(fn, nd['c'][0])
        if f:
            return f, {'=': 'store', '+=': 'inc', '-=': 'dec'}.get(nd['op'], 'store'), nd['c'][1]
    if nd['k'] == 'call' and nd.get('recv', -1) >= 0:
        f = field_of(fn, nd['recv'])
        if f:
            op = nd.get('op')
            nm = name(nd)
            v = nd['c'][0] if nd['c'] else -1
            if op == '++' or nm == 'fetch_add' or op == '+=':
                return f, 'inc', v if nm == 'fetch_add' or op == '+=' else -1
            if op == '--' or nm == 'fetch_sub' or op == '-=':
                return f, 'dec', v if nm == 'fetch_sub' or op == '-=' else -1
            if op == '=' or nm == 'store':
                return f, 'store', v
            if nm == 'exchange':
                return f, 'exchange', v
            if nm.startswith('compare_exchange'):
                return f, 'cas', nd['c'][1] if len(nd['c']) > 1 else -1
            if nm == 'test_and_set':
                return f, 'exchange', -1
            if nm == 'load' or nm.startswith('operator ') and 'atomic' in nd.get('cls', ''):
                return f, 'load', -1
    return None
