"""Meaning of values: every identifier of the library that names a physical
role (source or receiver side, elevation or azimuth, latitude, longitude or
altitude, yaw, pitch or roll, ...) gives that role to the values it denotes,
and roles follow values through copies, conversions and helper variables."""
import re
from prog import strip_tpl
from cfgutil import name, reassigned

WORDS = {}


def _w(dim, val, *names):
    for n in names:
        WORDS[n] = (dim, val)


_w('side', 'source', 'source', 'src', 'sources', 'incident')
_w('side', 'receiver', 'receiver', 'rcv', 'receivers', 'scattered')
_w('side', 'target', 'target', 'tgt', 'targets')
_w('angle', 'elevation', 'de', 'grazing')
_w('angle', 'azimuth', 'az', 'direction', 'bearing', 'heading')
_w('coord', 'altitude', 'rho', 'altitude', 'alt')
_w('coord', 'latitude', 'theta', 'latitude', 'lat')
_w('coord', 'longitude', 'phi', 'longitude', 'lng', 'lon')
_w('attitude', 'yaw', 'yaw')
_w('attitude', 'pitch', 'pitch')
_w('attitude', 'roll', 'roll')
_w('axis', 'front', 'front')
_w('axis', 'right', 'right')
_w('axis', 'up', 'up')
_w('event', 'surface', 'surface')
_w('event', 'bottom', 'bottom')
_w('event', 'caustic', 'caustic')
_w('event', 'upper', 'upper')
_w('event', 'lower', 'lower')
_w('limit', 'minimum', 'min', 'minimum')
_w('limit', 'maximum', 'max', 'maximum')
_w('part', 'phase', 'phase')
_w('part', 'amplitude', 'intensity', 'amplitude')
_w('extent', 'length', 'length')
_w('extent', 'width', 'width')
_w('dimension', 'row', 'row', 'rows', 'size1', 't1')
_w('dimension', 'column', 'col', 'cols', 'size2', 't2')

_w('quantity', 'speed', 'speed')
_w('quantity', 'density', 'density')
_w('quantity', 'attenuation', 'att', 'attenuation')
_w('quantity', 'frequency', 'freq', 'frequency', 'frequencies')
_w('quantity', 'temperature', 'temperature', 'temp')
_w('quantity', 'salinity', 'salinity')
_w('quantity', 'time', 'time', 'duration')
_w('quantity', 'depth', 'depth')
_w('quantity', 'range', 'range')
_w('quantity', 'gradient', 'gradient')
_w('quantity', 'steering', 'steering')
_w('quantity', 'orient', 'orient', 'orientation')
_w('quantity', 'position', 'position', 'pos')

COMPARE = ('coord', 'attitude', 'angle', 'axis', 'part', 'dimension')
THROUGH_SUMS = ('coord', 'attitude', 'angle')
PASS = {'to_radians', 'to_degrees', 'abs', 'fabs', 'floor', 'ceil', 'round', 'move', 'forward', 'int', 'fmod', 'make_shared', 'sqrt'}
JOIN = {'min', 'max', 'fmin', 'fmax'}


def split(n):
    n = re.sub(r'([a-z])([A-Z])', r'\1_\2', n)
    return [x for x in re.split(r'[^a-z0-9]+', n.lower()) if x]


def role_of_name(n):
    out, bad = {}, set()
    for t in split(n):
        w = WORDS.get(t) or WORDS.get(re.sub(r'[0-9]+$', '', t))
        if not w:
            continue
        if out.get(w[0], w[1]) != w[1]:
            bad.add(w[0])
        out[w[0]] = w[1]
    for d in bad:
        out.pop(d, None)
    if 'angle' in out:
        out.pop('event', None)       # bounds of an angle, not vertices
        out.pop('extent', None)
    return out


def join(a, b):
    return {d: v for d, v in a.items() if b.get(d) == v}


def both(a, b):
    out = dict(a)
    for d, v in b.items():
        if out.get(d, v) != v:
            out.pop(d)
        else:
            out[d] = v
    return out


class Roles:
    def __init__(self, P):
        self.P = P
        self.memo = {}

    def role(self, fn, i, depth=0):
        if i is None or i < 0 or depth > 30:
            return {}
        key = (fn.u, i)
        if key not in self.memo:
            self.memo[key] = {}
            self.memo[key] = self._role(fn, i, depth + 1)
        return self.memo[key]

    def local(self, fn, d, n, depth):
        r = role_of_name(n)
        if r.get('event') in ('upper', 'lower'):
            del r['event']               # bounds of a search
        v = fn.locals.get(d)
        if v and not v.get('param') and v.get('init', -1) >= 0 and not reassigned(fn, d):
            r = {**self.role(fn, v['init'], depth), **r}
        return r

    def member(self, fn, base, n, depth):
        r = role_of_name(n)
        b = self.role(fn, base, depth)
        out = {**b, **r}
        if 'side' in b:
            out['side'] = b['side']
        return out

    def _role(self, fn, i, depth):
        nd = fn.nodes[i]
        k = nd['k']
        if k == 'ref':
            if nd.get('vk') in ('local', 'param', 'slocal'):
                return self.local(fn, nd.get('d'), nd['n'], depth)
            if nd.get('vk') in ('enum', 'func'):
                return {}
            return role_of_name(nd['n'])
        if k == 'mem':
            return self.member(fn, nd['c'][0], nd['n'], depth)
        if k == 'sub':
            return self.role(fn, nd['c'][0], depth)
        if k == 'cast' or k in ('ctor', 'init') and len(nd.get('c', [])) == 1:
            return self.role(fn, nd['c'][0], depth)
        if k == 'un':
            r = self.role(fn, nd['c'][0], depth) if nd['op'] in ('-', '+', '*', '&', '++', '--') else {}
            return {d: v for d, v in r.items() if d != 'limit'} if nd['op'] == '-' else r
        if k == 'cond':
            return join(self.role(fn, nd['c'][1], depth), self.role(fn, nd['c'][2], depth))
        if k == 'bin':
            a, b = nd['c'][0], nd['c'][1]
            if nd.get('asg'):
                return self.role(fn, b if nd['op'] == '=' else a, depth)
            return self.arith(fn, nd['op'], a, b, depth)
        if k == 'call':
            c = nd.get('c', [])
            recv = nd.get('recv', -1)
            op = nd.get('op')
            if op:
                a = ([recv] if recv >= 0 else []) + c
                if op == '=' and len(a) == 2:
                    return self.role(fn, a[1], depth)
                if op in ('()', '[]', '->', '*', '++', '--') and (len(a) == 1 or op in ('()', '[]', '->')):
                    return self.role(fn, a[0], depth)
                if op == '-' and len(a) == 1:
                    return self.role(fn, a[0], depth)
                if len(a) == 2:
                    return self.arith(fn, op, a[0], a[1], depth)
                return {}
            n = name(nd)
            if n in JOIN and recv < 0 and len(c) == 2:
                return both(self.role(fn, c[0], depth), self.role(fn, c[1], depth))
            if n in PASS and recv < 0 and c:
                return self.role(fn, c[0], depth) if n != 'make_shared' or len(c) == 1 else {}
            if recv >= 0:
                if n in ('get', 'lock', 'data', 'begin', 'end', 'front', 'back', 'load') and self.P.fns.get(nd.get('u')) is None:
                    return self.role(fn, recv, depth)
                if nd.get('u') in self.P.fns:
                    return self.member(fn, recv, n, depth)
                return {}
            if nd.get('u') in self.P.fns:
                return role_of_name(n)
        return {}

    def arith(self, fn, op, a, b, depth):
        if op in ('+', '-'):
            x, y = self.role(fn, a, depth), self.role(fn, b, depth)
            if self.const(fn, b):
                return x
            if self.const(fn, a):
                return {d: v for d, v in y.items() if op == '+' or d != 'limit'}
            return {d: v for d, v in both(x, y).items() if d in THROUGH_SUMS or x.get(d) == y.get(d)}
        if op in ('*', '/'):
            r = self.role(fn, a, depth) if self.const(fn, b) else self.role(fn, b, depth) if op == '*' and self.const(fn, a) else {}
            if op == '*' and not r:
                x, y = self.role(fn, a, depth), self.role(fn, b, depth)
                r = {d: v for d, v in x.items() if y.get(d) == v and d in ('side', 'limit', 'event', 'extent')}
            return {d: v for d, v in r.items() if d != 'quantity'}
        return {}

    def const(self, fn, i):
        nd = fn.nodes[i]
        while nd['k'] in ('cast', 'init', 'ctor') and len(nd.get('c', [])) == 1 or nd['k'] == 'un' and nd['op'] == '-':
            nd = fn.nodes[nd['c'][0]]
        return nd['k'] == 'lit' or nd['k'] == 'ref' and nd.get('vk') == 'global'


def clash(a, b, dims=None, argument=False):
    """Roles in which value a contradicts sink b."""
    out = []
    for d in a:
        if d not in b or a[d] == b[d] or dims is not None and d not in dims:
            continue
        if d == 'side':
            if {a[d], b[d]} == {'receiver', 'target'}:
                continue             # the receiver is a target of the source
            if argument and a[d] == 'source' and b[d] == 'target':
                continue             # any platform can be the target of another one
        out.append((d, a[d], b[d]))
    return out
