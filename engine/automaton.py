"""Typestate engine: runs a finite automaton over every path of a function,
following calls into functions of the code base through summaries."""
from collections import defaultdict


class Automaton:
    """Subclasses define the alphabet and the transitions.

    events(fn, e)         -> iterable of symbols for CFG element e
    branch(fn, c, truth)  -> iterable of symbols for the edge on which the
                             condition node c has the given value
    step(state, sym)      -> iterable of next states, or None to stay
    follow(fn, node)      -> functions whose bodies run at this call
    """
    MAXDEPTH = 12

    def __init__(self, P):
        self.P = P
        self.sum = {}             # (fn.u, state) -> frozenset of exit states
        self.active = set()
        self.errors = {}          # (fn.u, node, sym) -> (state, message)
        self.visited = set()      # functions walked
        self.hits = defaultdict(int)

    def events(self, fn, e):
        return ()

    def branch(self, fn, c, truth):
        return ()

    def step(self, state, sym, fn, e):
        return None

    def follow(self, fn, e):
        return ()

    def error(self, fn, e, sym, msg):
        self.errors.setdefault((fn.u, e if isinstance(e, int) else -1, sym), (fn, e, msg))

    def apply(self, states, sym, fn, e):
        out = set()
        self.hits[sym[0] if isinstance(sym, tuple) else sym] += 1
        for s in states:
            n = self.step(s, sym, fn, e)
            if n is None:
                out.add(s)
            else:
                out.update(n)
        return out

    def element(self, fn, e, states, depth):
        for sym in self.events(fn, e):
            states = self.apply(states, sym, fn, e)
        ts = self.follow(fn, e)
        if ts:
            out = set()
            for t in ts:
                for s in states:
                    out |= self.exits(t, s, depth + 1)
            states = out
        return states

    def on_edge(self, fn, c, truth, out):
        for sym in self.branch(fn, c, truth):
            out = self.apply(out, sym, fn, c)
        return out

    def exits(self, fn, state, depth=0):
        """States in which fn can return when entered in `state`."""
        k = (fn.u, state)
        if k in self.sum:
            return self.sum[k]
        if k in self.active or depth > self.MAXDEPTH or fn.entry is None:
            return {state}
        self.active.add(k)
        self.visited.add(fn.u)
        r = self.run_blocks(fn, {state}, depth)
        self.active.discard(k)
        self.sum[k] = r
        return r

    def run_blocks(self, fn, init, depth):
        IN = defaultdict(set)
        IN[fn.entry] |= init
        work = [fn.entry]
        hs = fn.handlers
        done = defaultdict(set)
        edges = defaultdict(set)
        while work:
            b = work.pop()
            new = IN[b] - done[b]
            if not new:
                continue
            done[b] |= new
            blk = fn.blocks[b]
            st = set(new)
            for e in blk['el']:
                if not st:
                    break
                st = self.element(fn, e, st, depth)
                if hs and isinstance(e, int) and e in hs and fn.nodes[e]['k'] in ('call', 'ctor', 'new', 'throw'):
                    for h in hs[e]:
                        if st - IN[h]:
                            IN[h] |= st
                            work.append(h)
            if blk.get('noret'):
                continue
            throws = any(isinstance(e, int) and fn.nodes[e]['k'] == 'throw' for e in blk['el'])
            su = blk['su']
            for k, s in enumerate(su):
                if s < 0 or throws and s == fn.exit:
                    continue
                out = st
                c = blk.get('lc', blk.get('tc'))
                if len(su) == 2 and c is not None and blk.get('tk') != 'SwitchStmt' and isinstance(c, int) and c >= 0:
                    out = self.on_edge(fn, c, k == 0, out)
                edges[(b, s)] |= out
                if out - IN[s]:
                    IN[s] |= out
                    work.append(s)
        self.last_in = IN
        self.out_edges = edges
        return frozenset(IN[fn.exit]) if fn.exit is not None else frozenset()


class Tracker(Automaton):
    """Automaton whose states also carry the values of local booleans and of
    the last helper's boolean result, so that a test made in one place and
    acted upon in another is followed.  A state is (core, env)."""

    def start(self, core):
        return (core, frozenset())

    def cores(self, fn, core, depth=0):
        return {s[0] for s in self.exits(fn, self.start(core), depth)}

    def atom(self, fn, i, core):
        """[(core', truth)] when node i is a test the automaton knows."""
        return None

    def at_exit(self, fn, e, core):
        """Called for every return statement."""

    def ev(self, fn, i, st):
        """Possible (state, value) of boolean expression i."""
        core, env = st
        a = self.atom(fn, i, core)
        if a is not None:
            return [((c, env), v) for c, v in a]
        nd = fn.nodes[i]
        k = nd['k']
        if k == 'lit' and isinstance(nd['v'], (bool, int)):
            return [(st, bool(nd['v']))]
        if k == 'un' and nd['op'] == '!':
            return [(s, None if v is None else not v) for s, v in self.ev(fn, nd['c'][0], st)]
        if k in ('cast', 'init') and len(nd.get('c', [])) == 1:
            return self.ev(fn, nd['c'][0], st)
        if k == 'ref' and nd.get('vk') in ('local', 'param'):
            d = dict(env)
            return [(st, d.get(nd['d']))]
        if k in ('bin', 'call') and nd.get('op') in ('==', '!='):
            a = ([nd['recv']] if nd.get('recv', -1) >= 0 else []) + nd.get('c', [])
            if len(a) == 2:
                for x, y in ((a[0], a[1]), (a[1], a[0])):
                    yn = fn.nodes[y]
                    if yn['k'] == 'lit' and isinstance(yn.get('v'), bool):
                        same = (nd['op'] == '==') == yn['v']
                        return [(s, v if v is None or same else not v) for s, v in self.ev(fn, x, st)]
            return [(st, None)]
        if k == 'bin' and nd['op'] in ('&&', '||', '&', '|'):
            out = []
            for s, v in self.ev(fn, nd['c'][0], st):
                if v is not None and v == (nd['op'][0] == '|'):
                    out.append((s, v))
                    continue
                for s2, w in self.ev(fn, nd['c'][1], s):
                    if v is None:
                        w = w if w == (nd['op'][0] == '|') else None
                    out.append((s2, w))
            return out
        if k == 'call':
            d = dict(env)
            return [(st, d.get(('ret', i)))]
        return [(st, None)]

    def put(self, env, key, v):
        d = dict(env)
        d.pop(key, None)
        if v is not None:
            d[key] = v
        return frozenset(d.items())

    def apply(self, states, sym, fn, e):
        out = set()
        self.hits[sym[0] if isinstance(sym, tuple) else sym] += 1
        for c, env in states:
            n = self.step(c, sym, fn, e)
            if n is None:
                out.add((c, env))
            else:
                out.update((x, env) for x in n)
        return out

    def element(self, fn, e, states, depth):
        for sym in self.events(fn, e):
            states = self.apply(states, sym, fn, e)
        ts = self.follow(fn, e)
        if ts:
            out = set()
            for t in ts:
                for c, env in states:
                    # boolean arguments
                    ini = frozenset()
                    nd = fn.nodes[e]
                    for k, p in enumerate(t.params):
                        if 'bool' in p['t'] and k < len(nd.get('c', [])):
                            vs = self.ev(fn, nd['c'][k], (c, env))
                            if len(vs) == 1 and vs[0][1] is not None:
                                ini = self.put(ini, p['d'], vs[0][1])
                    for c2, env2 in self.exits(t, (c, ini), depth + 1):
                        out.add((c2, self.put(env, ('ret', e), dict(env2).get('ret'))))
            states = out
        if isinstance(e, int):
            nd = fn.nodes[e]
            if nd['k'] == 'decl':
                for v in nd['vars']:
                    if v['t'].replace('const ', '') in ('bool',) and v['init'] >= 0:
                        states = {(s[0], self.put(s[1], v['d'], val)) for st in states for s, val in self.ev(fn, v['init'], st)}
            elif nd['k'] == 'bin' and nd.get('asg') and fn.nodes[nd['c'][0]]['k'] == 'ref' and fn.nodes[nd['c'][0]].get('t') == 'bool':
                d = fn.nodes[nd['c'][0]].get('d')
                if nd['op'] == '=':
                    states = {(s[0], self.put(s[1], d, val)) for st in states for s, val in self.ev(fn, nd['c'][1], st)}
                else:
                    states = {(c, self.put(env, d, None)) for c, env in states}
            elif nd['k'] == 'ret' and nd['c'] and fn.r.get('rt') == 'bool':
                states = {(s[0], self.put(s[1], 'ret', val)) for st in states for s, val in self.ev(fn, nd['c'][0], st)}
        return states

    def on_edge(self, fn, c, truth, states):
        out = set()
        for st in states:
            for s, v in self.ev(fn, c, st):
                if v is None or v == truth:
                    out.add(s)
        for sym in self.branch(fn, c, truth):
            out = self.apply(out, sym, fn, c)
        return out

    def exits(self, fn, state, depth=0):
        r = super().exits(fn, state, depth)
        # only the result of the function survives it
        return frozenset((c, frozenset((k, v) for k, v in env if k == 'ret')) for c, env in r)
