import C03


def run(ctx):
    C03.enum(ctx, (('mode', ctx.pick(0, 200)), ('carry', 0)))
    w = ctx.generate('CipherObjGen', cfg_text=C03.WALK % 40, label='walk', num=ctx.pick(140, 4000), depth=42)
    ctx.conform('CipherObjTrace', 'cipher', w, label='walk')
