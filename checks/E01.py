import X02


def run(ctx):
    for depth, n, m in ((10, 1500, 10000), (60, 500, 5000)):
        w = ctx.generate('ExceptionsGen', cfg_text=X02.WALK % depth, label='walk%d' % depth, num=ctx.pick(n, m), depth=depth + 2)
        ctx.conform('ExceptionsTrace', 'exceptions', w, label='walk%d' % depth, per_trace=20)
