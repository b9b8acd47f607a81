import random

ENUM = '''CONSTANTS Cases <- CipherCases Kind = "%s" N = %d NObj = 3
INIT EInit
NEXT ENext
INVARIANT Law
CHECK_DEADLOCK FALSE
'''
WALK = '''CONSTANTS Init0 <- CipherObjInit Ops <- CipherObjOps Apply <- CipherObjApply
          NObj = 3 Depth = %d
INIT GInit
NEXT GPick
INVARIANT EmitFull
CHECK_DEADLOCK FALSE
'''


def enum(ctx, kinds):
    for kind, n in kinds:
        ops = ctx.generate('CipherObjEnum', cfg_text=ENUM % (kind, n), label=kind, workers=1)
        # in any order: an object meets long keys after short ones and the other way round
        random.Random(ctx.seed).shuffle(ops)
        ctx.conform('CipherObjTrace', 'cipher', ctx.group(ops, 12), label=kind)


def run(ctx):
    enum(ctx, (('keybit', ctx.pick(4, 1)), ('textbit', ctx.pick(4, 1)), ('random', ctx.pick(60, 1000)), ('chacha', 0)))
