import L01

WALK = '''CONSTANTS Init0 <- SInit Ops <- SOps Apply <- SApply Depth = %d
INIT GInit
NEXT GPick
INVARIANT EmitFull
CHECK_DEADLOCK FALSE
'''


def run(ctx):
    w = ctx.generate('SecretGen', cfg_text=WALK % 40, label='walk', num=ctx.pick(400, 4000), depth=42)
    ctx.conform('SecretTrace', 'secret', w, label='walk', per_trace=40)
    for kind, n in (('near', 300), ('hash', 120), ('length', 60), ('none', 32), ('flip', 200)):
        cases = ctx.generate('SecretEnum', cfg_text=L01.ENUM % (kind, ctx.pick(40, 70)), label=kind)
        ctx.conform('SecretTrace', 'secret', ctx.some(cases, n), label=kind, per_trace=40)
