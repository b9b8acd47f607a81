END = {'op': 'destroy', 'a': []}
WALK = {'op': 'walk', 'a': []}


def op(name, *a):
    return {'op': name, 'a': list(a)}


def kinds(h, kind):
    # without a comparison function keys are plain numbers: one object a key
    return [op('new', kind) if o['op'] == 'new' else
            op('add', o['a'][0], 1, o['a'][2]) if o['op'] == 'add' and kind == 3 else o for o in h]


def grow(ctx):
    """Sorted, reversed and zig-zag insertions deep enough to force the tree
    to rebalance, then look-ups from the far end and removals."""
    out = []
    n = ctx.pick(1150, 5000)
    ups = list(range(1, n + 1))
    zig = [x for p in zip(ups, reversed(ups)) for x in p][:n]
    for kind, order in ((0, ups), (0, ups[::-1]), (0, zig), (1, ups), (2, ups[::-1]), (3, ups)):
        h = [op('new', kind)] + [op('add', k, 1, 1) for k in order]
        h += [op('get', order[0]), op('get', order[-1]), op('get', n // 2), WALK]
        h += [op('delete', k) for k in range(3, n, 3)] + [op('remove', k) for k in range(4, n, 5)]
        h += [op('get', order[1]), op('reset')] + [op('nextkey')] * 40 + [WALK, op('clone'), op('empty'), op('swap'), WALK, END]
        out.append(h)
    return out


def run(ctx):
    cover = [h + [WALK, END] for c in ('SplayCover', 'SplayCoverClone')
             for h in ctx.generate('SplayGen', c, workers=1)]
    ctx.conform('SplayTrace', 'splay', cover, label='cover')
    for kind in (1, 2, 3):
        some = [kinds(h, kind) for h in cover[(ctx.seed + kind) % 5::5]] if ctx.quick else [kinds(h, kind) for h in cover]
        ctx.conform('SplayTrace', 'splay', some, label='cover-%d' % kind)
    for cfg, num, depth in (('SplaySim', ctx.pick(400, 5000), 122), ('SplaySimSmall', ctx.pick(1200, 12000), 92)):
        sim = [h + [WALK, END] for h in ctx.generate('SplayGen', cfg, num=num, depth=depth)]
        sim = [kinds(h, 3) if n % 3 == 2 else h for n, h in enumerate(sim)]
        ctx.conform('SplayTrace', 'splay', sim, label='walk-' + cfg)
    ctx.conform('SplayTrace', 'splay', grow(ctx), label='grow', per_trace=30)
