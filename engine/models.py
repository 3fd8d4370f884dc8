"""Values of environmental models: the fields evaluator with tables, optional
outputs that are known to be requested or not, and paths that throw left out."""
import re
from fields import FSym, COMPS, is_vec
from algebra import *
from cfgutil import name

GEO = ('wposition', 'wposition1', 'wvector', 'wvector1', 'bvector')
NULL = ('num', 0)


def short(c):
    return (c or '').split('<')[0].split('::')[-1]


class OSym(FSym):
    prune = True

    def call(self, i, nd, c):
        if name(nd) == 'interpolate' and nd.get('recv', -1) >= 0:
            x = self.table(i, nd, c)
            if x is not None:
                return x
        return super().call(i, nd, c)

    def table(self, i, nd, c):
        """Value of a data grid and its slopes."""
        r, pt = nd['recv'], nd.get('pt', [])
        t = self.fn.nodes[r].get('t', '')
        m = re.search(r'data_grid\w*(?:<(\d)>)?', t)
        if not m:
            return None
        who = self.obj(r) if self.isptr(r) else self.v(r)
        point = [j for j, p in enumerate(pt) if p.rstrip().endswith('*')]
        if pt and pt[0].replace('const ', '').strip() == 'double *':
            n = int(m.group(1) or {'data_grid_svp': 3, 'data_grid_bathy': 2}.get(m.group(0), 0))
            a = self.v(c[0])
            if not n or a[0] not in ('&', 'vec', 'loc') and not (a[0] == 'sym' and a[1][0] == 'undef'):
                return None
            l = a[1] if a[0] == '&' else a
            v = a if a[0] == 'vec' else self.load(l, self.st)
            xs = list(v[1:1 + n]) if v[0] == 'vec' else [v] if n == 1 else [self.load(('idx', l, (('num', k),)), self.st) for k in range(n)]
            outs, value = c[1:], None
            if outs and ('[' in self.type_of(outs[0]) or self.v(outs[0])[0] in ('&', 'loc')):
                o = self.v(outs[0])
                o = o[1] if o[0] == '&' else o
                if '[' in self.type_of(outs[0]):
                    o = self.lv(outs[0])
                if n == 1 and '[' not in self.type_of(outs[0]):
                    self.kill(o, ('slope', 0, who) + tuple(xs))
                else:
                    for k in range(n):
                        self.kill(('idx', o, (('num', k),)), ('slope', k, who) + tuple(xs))
            return ('table', who) + tuple(xs)
        xs = [self.v(x) for j, x in enumerate(c) if j not in point]
        outs = [c[j] for j in point]
        for k, o in enumerate(outs):
            v = self.v(o)
            if v[0] == '&':
                v = v[1]
            elif v == NULL:
                continue
            if v[0] in ('loc', 'mem', 'idx'):
                self.kill(v, (('table', who) if k == 0 else ('slope', k - 1, who)) + tuple(xs))
        return ('sym', (self.tag, i))

    def type_of(self, i):
        nd = self.fn.nodes[i]
        while nd['k'] == 'cast' and nd.get('c'):
            nd = self.fn.nodes[nd['c'][0]]
        return nd.get('t', '')


def leaf(r, t):
    if t[0] == 'new' and len(t) == 3 and t[1].split('::')[-1].split('<')[0] == 'vector' and isinstance(t[2], tuple) and t[2][0] != 'num' and not (t[2][0] == 'call' and t[2][1] == 'size'):
        return r(t[2])
    if t[0] == 'table':
        return fn('table ' + label(t[1]), *[r(x) for x in t[2:]])
    if t[0] == 'slope':
        return fn(f'slope {t[1]} of table ' + label(t[2]), *[r(x) for x in t[3:]])
    return None


def family(P, f):
    """Functions that are evaluated as part of f."""
    own = {f.cls} | set(P.all_bases(f.cls) if f.cls else ())

    def inline(g):
        return short(g.cls) in GEO or g.cls in own and g.kind not in ('ctor', 'dtor') or not g.cls and g.r.get('file') == f.r['file'] or bool(g.r.get('lambdaOf'))
    return inline


def evaluate(P, f, missing=(), **kw):
    """f for one generic location; outputs in missing are not requested."""
    st = {}
    for k in missing:
        st[('loc', (f.params[k]['d'],))] = NULL
    return OSym(P, f, pointwise=True, state=st, inline=family(P, f), **kw)
