"""Classification of what happens to a member field at each mention."""
from prog import strip_tpl
from locks import SMARTQ, ITER


def classify(fn, i):
    """Effect of the context on the object named by node i:
    'read', 'write', 'rw', 'addr' (address/reference escapes),
    'retref' (returned by mutable reference), 'retcref' (by const reference)."""
    nd = fn.nodes[i]
    if nd.get('rd'):
        return 'read'
    res = set()
    ps = fn.parents.get(i, [])
    for p in ps:
        res.add(_ctx(fn, i, p))
    if not ps:
        # appears as a full expression or initializer
        res.add(_decl_ctx(fn, i))
    res.discard(None)
    for r in ('write', 'rw', 'retref', 'addr', 'retcref'):
        if r in res:
            return r
    return 'read'


def classify_iter(fn, i):
    """Effect on the container when node i is an iterator into it."""
    for p in fn.parents.get(i, []):
        nd = fn.nodes[p]
        if nd['k'] == 'call' and nd.get('recv') == i and nd.get('op') in ('*', '->', '[]'):
            if nd['op'] == '->':
                for m in fn.parents.get(p, []):
                    if fn.nodes[m]['k'] == 'mem' and classify(fn, m) in ('write', 'rw', 'addr', 'retref'):
                        return 'write'
                continue
            r = classify(fn, p)
            if r != 'read':
                return r
    return 'read'


def _const_ref(t):
    return t.startswith('const ') and t.endswith('&')


def _ctx(fn, i, p):
    nd = fn.nodes[p]
    k = nd['k']
    c = nd.get('c', [])
    if k == 'bin' and nd.get('asg') and c[0] == i:
        return 'write' if nd['op'] == '=' else 'rw'
    if k == 'un':
        if nd['op'] in ('++', '--'):
            return 'rw'
        if nd['op'] == '&':
            return 'addr'
        return 'read'
    if k == 'mem':
        if nd.get('arrow'):
            return 'read'
        return classify(fn, p)
    if k == 'sub' and c and c[0] == i:
        if fn.nodes[i].get('t', '').endswith('*'):
            return 'read'
        return classify(fn, p)
    if k == 'cast':
        return classify(fn, p) if fn.nodes[p].get('t', '') and not fn.nodes[p].get('rd') else 'read'
    if k == 'cond' and c[0] != i:
        return classify(fn, p)
    if k == 'call':
        if nd.get('recv') == i:
            if nd.get('arrow'):
                return 'read'
            if nd.get('cst') or nd.get('stat'):
                # const accessors of smart pointers/iterators/containers
                return 'read'
            nm = nd.get('q', '').split('::')[-1]
            if nm in ('begin', 'end', 'find', 'rbegin', 'rend', 'cbegin', 'cend', 'lower_bound', 'upper_bound', 'equal_range', 'count', 'size', 'empty'):
                return 'read'
            if nd.get('op') in ('()', '[]') or nm in ('front', 'back', 'at', 'data'):
                cls = strip_tpl(nd.get('cls', ''))
                if nd.get('op') == '[]' and cls.endswith('map'):
                    return 'write'
                # element access: effect decided by what happens to the element
                return classify(fn, p)
            if nd.get('op') == '*' or nd.get('op') == '->':
                return 'read'
            return 'write'
        pt = nd.get('pt', [])
        args = c
        for k2, a in enumerate(args):
            if a == i and k2 < len(pt):
                t = pt[k2]
                if t.endswith('&&'):
                    return 'write'
                if t.endswith('&'):
                    if _const_ref(t):
                        continue
                    return 'write'
        return 'read'
    if k == 'ctor':
        pt = nd.get('pt', [])
        for k2, a in enumerate(c):
            if a == i and k2 < len(pt):
                t = pt[k2]
                if t.endswith('&&'):
                    return 'write'
                if t.endswith('&') and not _const_ref(t):
                    return 'addr'
        return 'read'
    if k == 'ret':
        rt = fn.r['rt']
        if rt.endswith('&') and not rt.endswith('&&'):
            return 'retcref' if _const_ref(rt) else 'retref'
        return 'read'
    if k == 'decl':
        for v in nd['vars']:
            if v['init'] == i:
                return _bind(fn, v)
        return 'read'
    if k == 'lambda':
        for cap in nd['caps']:
            pass
        return 'read'
    return 'read'


def _bind(fn, v):
    t = v['t']
    if t.endswith('&'):
        return 'read'      # alias: uses of the reference are followed separately
    return 'read'


def _decl_ctx(fn, i):
    return 'read'
