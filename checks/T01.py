import X02


def run(ctx):
    for depth, n, m in ((20, 1200, 9000), (60, 300, 3000)):
        w = ctx.generate('MimeGen', cfg_text=X02.WALK % depth, label='walk%d' % depth, num=ctx.pick(n, m), depth=depth + 2)
        ctx.conform('MimeTrace', 'mime', w, label='walk%d' % depth, per_trace=20)
