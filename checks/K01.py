import L01

WALK = '''CONSTANTS Init0 <- KInit Ops <- KOps Apply <- KApply Depth = %d
INIT GInit
NEXT GPick
INVARIANT EmitFull
CHECK_DEADLOCK FALSE
'''


def enum(ctx, kinds):
    for kind, k, n in kinds:
        sched = ctx.generate('KeyringEnum', cfg_text=L01.ENUM % (kind, k), label=kind)
        ctx.conform('KeyringTrace', 'keyring', ctx.some(sched, n), label=kind, per_trace=20)


def run(ctx):
    w = ctx.generate('KeyringGen', cfg_text=WALK % 40, label='walk', num=ctx.pick(500, 6000), depth=42)
    ctx.conform('KeyringTrace', 'keyring', w, label='walk', per_trace=20)
    enum(ctx, (('fault', 24, 400), ('race', 45, 900), ('expimp', 40, 500)))
