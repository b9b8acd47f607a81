ENUM = '''CONSTANTS Cases <- EntropyCases Kind = "%s" N = %d NObj = 3
INIT EInit
NEXT ENext
INVARIANT Law
CHECK_DEADLOCK FALSE
'''
WALK = '''CONSTANTS Init0 <- EntropyInit Ops <- EntropyOps Apply <- EntropyApply
          NObj = 3 Depth = 40
INIT GInit
NEXT Walk
INVARIANT EmitFull
CHECK_DEADLOCK FALSE
'''


def run(ctx):
    for kind, n in (('rt', 0), ('rtl', ctx.pick(300001, 3000001)), ('flip', ctx.pick(90, 250)), ('cut', ctx.pick(80, 250)),
                    ('flipcut', ctx.pick(120, 250))):
        ops = ctx.generate('EntropyEnum', cfg_text=ENUM % (kind, n), label=kind, workers=1)
        ctx.conform('EntropyTrace', 'entropy', ctx.group(ops, 4 if kind == 'rtl' else 20), label=kind, per_trace=20)
    w = ctx.generate('EntropyGen', cfg_text=WALK, label='walk', num=ctx.pick(300, 5000), depth=42)
    ctx.conform('EntropyTrace', 'entropy', w, label='walk')
