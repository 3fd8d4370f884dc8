"""Coverage of paths by events, through functions evaluated in place."""


def any_hit(s, hit):
    return bool(hit.get(id(s))) or any(any_hit(x, hit) for x in s.nested.values())


def event_blocks(s, hit):
    """Blocks of s.fn every execution of which passes an event."""
    f = s.fn
    ev = {s.block_of(i) for i in hit.get(id(s), ())}
    for i, x in s.nested.items():
        if any_hit(x, hit) and covered(x, hit):
            ev.add(s.block_of(i))
    ev.discard(None)
    return ev


def loops_hit(s, ev):
    """Loop heads whose every iteration passes an event (assumed to run)."""
    f, heads = s.fn, set()
    for h in sorted(s.heads, key=lambda h: len(s.heads[h])):
        body = s.heads[h]
        if not any(b in body for b in ev) and not any(x in body for x in heads):
            continue
        seen, st, ok = {h}, [x for x in f.blocks[h]['su'] if x in body], True
        while st:
            b = st.pop()
            if b == h:
                ok = h in ev
                break
            if b in seen or b in ev or b in heads:
                continue
            seen.add(b)
            st += [x for x in f.blocks[b]['su'] if x in body]
        if ok:
            heads.add(h)
    return heads


def throws(f, b):
    return any(isinstance(e, int) and f.nodes[e]['k'] == 'throw' for e in f.blocks[b]['el'])


def covered(s, hit, start=None, goals=None):
    """Every path from the blocks `start` (entry) to one of `goals` (exit)
    passes an event."""
    f = s.fn
    ev = event_blocks(s, hit)
    stop = ev | loops_hit(s, ev)
    goals = {f.exit} if goals is None else set(goals)
    seen, st = set(), list(start) if start is not None else [f.entry]
    while st:
        b = st.pop()
        if b in seen or b < 0 or b in stop:
            continue
        seen.add(b)
        if b in goals:
            return False
        if throws(f, b):
            continue
        st += [x for x in f.blocks[b]['su'] if x >= 0]
    return True


def true_returns(s):
    """Blocks from which the function goes on to return something but false."""
    f, out = s.fn, set()

    def add(t, b):
        if t[0] == 'num' and t[1] in (False, 0):
            return
        if t[0] == 'phi' and t[1][:-1] == s.tag and t in s.phi and t[1][-1] not in s.heads:
            for p, v in s.phi[t].items():
                add(v, p)
        else:
            out.add(b)
    for i, nd in enumerate(f.nodes):
        if nd['k'] == 'ret' and nd.get('c') and i in s.val:
            add(s.v(nd['c'][0]), s.block_of(i))
    return out


def after_true(s, call, truth=True):
    """Blocks entered when the call at node `call` gave `truth`; None when it is not tested."""
    f, out = s.fn, set()
    t = s.val.get(call)
    for b, blk in f.blocks.items():
        c = blk.get('lc', blk.get('tc'))
        if c is None or c < 0 or len(blk['su']) != 2:
            continue
        k, v = True, None
        i = c
        while True:
            nd = f.nodes[i]
            if nd['k'] == 'un' and nd['op'] == '!':
                i, k = nd['c'][0], not k
            elif nd['k'] == 'cast' or nd['k'] == 'init' and len(nd['c']) == 1:
                i = nd['c'][0]
            else:
                break
        v = s.val.get(i)
        while v and v[0] == 'op' and v[1] == '!':
            v, k = v[2], not k
        if i == call or t is not None and v == t:
            out.add(blk['su'][0 if k == truth else 1])
    return out or None
