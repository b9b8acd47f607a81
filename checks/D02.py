NEW = {'op': 'dump', 'a': [3]}
ALL = {'op': 'dump', 'a': [40]}
END = {'op': 'destroy', 'a': []}
ITER = [{'op': 'reset', 'a': []}] + [{'op': 'nextkey', 'a': []}] * 4


def tail(h, dump, it):
    """Looks at everything at the end of a behaviour."""
    if not h or h[-1]['op'] == 'destroy':
        return h
    return h + [dump] + it + [END]


def grow(ctx):
    """Many keys, so that tables of every kind grow several times."""
    out = []
    for kind in range(8):
        for cap in (1, 2, 17, 31, 100):
            n = ctx.pick(150, 1200) if kind in (2, 3, 6, 7) else ctx.pick(150, 300)
            h = [{'op': 'new', 'a': [cap, kind]}]
            for k in range(1, n + 1):
                h.append({'op': 'put', 'a': [k, k % 7, k % 5]})
                if k % 11 == 0:
                    h.append({'op': 'put', 'a': [k // 2, 8, 9]})
                if k % 13 == 0:
                    h.append({'op': 'remove', 'a': [k // 3]})
            h += [{'op': 'dump', 'a': [n]}, {'op': 'reset', 'a': []}]
            h += [{'op': 'nextkey', 'a': []}] * (n // 4) + [{'op': 'get', 'a': [n // 2]}]
            h += [{'op': 'nextkey', 'a': []}] * (n - n // 4 + 1) + [END]
            out.append(h)
    return out


def run(ctx):
    cover = ctx.generate('HashmapGen', 'HashmapCover', workers=1)
    cover = [tail(h, NEW, ITER) for h in cover]
    for kind, cap in ((0, 17), (2, 1), (1, 2)):
        some = [[dict(o, a=[cap, kind]) if o['op'] == 'new' else o for o in h] for h in cover]
        ctx.conform('HashmapTrace', 'hashmap', some, label='cover-%d-%d' % (kind, cap))
    sim = ctx.generate('HashmapGen', 'HashmapSim', num=ctx.pick(400, 4000), depth=142)
    sim = [tail(h, ALL, [{'op': 'reset', 'a': []}] + [{'op': 'nextkey', 'a': []}] * 41) for h in sim]
    ctx.conform('HashmapTrace', 'hashmap', sim, label='walk')
    ctx.conform('HashmapTrace', 'hashmap', grow(ctx), label='grow', per_trace=30)
