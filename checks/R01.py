import X02


def run(ctx):
    for depth, n, m in ((8, 600, 5000), (25, 300, 3000)):
        w = ctx.generate('RandomGen', cfg_text=X02.WALK % depth, label='walk%d' % depth, num=ctx.pick(n, m), depth=depth + 2)
        ctx.conform('RandomTrace', 'random', w, label='walk%d' % depth, per_trace=20)
    # long stretches of one stream, cut in different ways
    far = []
    for n, pieces in ((9000, (9000, 1, 7, 33)), (70000, (70000, 100, 257)), (1100000, (1100000, 4096))):
        for h in ctx.pick((1, 4), (1, 2, 3, 4, 5, 6, 7)):
            far.append([{'op': 'far', 'a': [h, 1, n, p]} for p in pieces])
    ctx.conform('RandomTrace', 'random', far, label='far', per_trace=40)
