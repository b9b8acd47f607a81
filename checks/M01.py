import X02


def run(ctx):
    for depth, n, m in ((15, 1500, 10000), (60, 600, 5000)):
        w = ctx.generate('ResourceGen', cfg_text=X02.WALK % depth, label='walk%d' % depth, num=ctx.pick(n, m), depth=depth + 2)
        ctx.conform('ResourceTrace', 'resource', w, label='walk%d' % depth, per_trace=20)
