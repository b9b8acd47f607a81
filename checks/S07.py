import U01
import X02


def run(ctx):
    for depth, n, m in ((20, 1200, 12000), (80, 100, 1000)):
        w = ctx.generate('TimesGen', cfg_text=X02.WALK % depth, label='walk%d' % depth, num=ctx.pick(n, m), depth=depth + 2)
        ctx.conform('TimesTrace', 'times', w, label='walk%d' % depth, per_trace=20)
    U01.enum(ctx, (('times', 100),))
