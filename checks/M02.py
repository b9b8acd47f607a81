import X02


def run(ctx):
    for depth, n, m in ((8, 600, 4000), (40, 250, 2500)):
        w = ctx.generate('TempFileGen', cfg_text=X02.WALK % depth, label='walk%d' % depth, num=ctx.pick(n, m), depth=depth + 2)
        ctx.conform('TempFileTrace', 'resource', w, label='walk%d' % depth, per_trace=20)
