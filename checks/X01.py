import L01

WALK = '''CONSTANTS Init0 <- SInit Ops <- SOps Apply <- SApply Depth = %d
INIT GInit
NEXT GPick
INVARIANT Emit3
CHECK_DEADLOCK FALSE
'''


def run(ctx):
    w = ctx.generate('XmlGen', cfg_text=WALK % 70, label='walk', num=ctx.pick(1500, 15000), depth=72)
    ctx.conform('XmlTrace', 'xml', w, label='walk', per_trace=20)
    for kind, n in (('points', 300), ('text', 700), ('attr', 700), ('cuts', 700), ('circle', 64), ('wide', 120), ('long', 15), ('plain', 6), ('nest', 400)):
        cases = ctx.generate('XmlEnum', cfg_text=L01.ENUM % (kind, 0), label=kind)
        ctx.conform('XmlTrace', 'xml', ctx.some(cases, n), label=kind, per_trace=20)
