ENUM = '''CONSTANTS Cases <- StreamCases Kind = "%s" N = %d NObj = 3 WithHmac = FALSE MaxMsg = 0
INIT EInit
NEXT ENext
INVARIANT Law
CHECK_DEADLOCK FALSE
'''
WALK = '''CONSTANTS Init0 <- StreamInit Ops <- StreamOps Apply <- StreamApply
          NObj = 3 WithHmac = %s MaxMsg = 400 Depth = %d
INIT GInit
NEXT Walk
INVARIANT EmitFull
CHECK_DEADLOCK FALSE
'''


def enum(ctx, kinds):
    for kind, n in kinds:
        ops = ctx.generate('StreamEnum', cfg_text=ENUM % (kind, n), label=kind, workers=1)
        ctx.conform('StreamTrace', 'stream', ctx.group(ops, 4 if kind == 'vast' else 1 if kind == 'huge' else 3), label=kind,
                    per_trace=20 if kind not in ('huge', 'vast') else 300, variant='asan' if kind not in ('huge', 'vast') else 'plain')


def walks(ctx, hmac, num):
    w = ctx.generate('StreamGen', cfg_text=WALK % (hmac, 40), label='walk', num=num, depth=42)
    ctx.conform('StreamTrace', 'stream', w, label='walk')


def run(ctx):
    enum(ctx, (('edge', ctx.pick(16, 1)), ('bits', 0), ('long', ctx.pick(9000, 70000)), ('huge', 0)))
    if ctx.tier == 'thorough':
        enum(ctx, (('vast', 0),))
    walks(ctx, 'FALSE', ctx.pick(300, 5000))
