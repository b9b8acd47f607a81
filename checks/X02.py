WALK = '''CONSTANTS Init0 <- SInit Ops <- SOps Apply <- Apply1 Depth = %d
INIT GInit
NEXT GPick
INVARIANT EmitFull
CHECK_DEADLOCK FALSE
'''


def run(ctx):
    for depth, n, m in ((12, 800, 8000), (60, 500, 5000)):
        w = ctx.generate('XmlTreeGen', cfg_text=WALK % depth, label='walk%d' % depth, num=ctx.pick(n, m), depth=depth + 2)
        ctx.conform('XmlTreeTrace', 'xml', w, label='walk%d' % depth, per_trace=20)
