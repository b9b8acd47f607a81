MODEL = '''CONSTANTS P = {1, 2, 3} MaxIno = %d MaxDead = 2
INIT Init
NEXT Next
INVARIANTS Mutex Kept NotBlocked Recovers
CHECK_DEADLOCK FALSE
'''
ENUM = '''CONSTANTS Kind = "%s" K = %d
INIT EInit
NEXT ENext
INVARIANT Emit
CHECK_DEADLOCK FALSE
'''
WALK = '''CONSTANTS Init0 <- LockGenInit Ops <- LockGenOps Apply <- LockGenApply Depth = %d
INIT GInit
NEXT GPick
INVARIANT EmitFull
CHECK_DEADLOCK FALSE
'''


def enum(ctx, kinds):
    for kind, k, n in kinds:
        sched = ctx.generate('LockEnum', cfg_text=ENUM % (kind, k), label=kind)
        ctx.conform('LockTrace', 'lock', ctx.some(sched, n), label=kind, per_trace=20)


def run(ctx):
    ctx.model('LockProtocol', cfg_text=MODEL % ctx.pick(3, 4))
    enum(ctx, (('pair', 14, 1500), ('third', 10, 400)))
    w = ctx.generate('LockGen', cfg_text=WALK % 60, label='walk', num=ctx.pick(600, 6000), depth=62)
    ctx.conform('LockTrace', 'lock', w, label='walk', per_trace=20)
