import X02


def run(ctx):
    for depth, n, m in ((20, 700, 6000), (60, 200, 2500)):
        w = ctx.generate('LogGen', cfg_text=X02.WALK % depth, label='walk%d' % depth, num=ctx.pick(n, m), depth=depth + 2)
        ctx.conform('LogTrace', 'log', w, label='walk%d' % depth, per_trace=20)
