import L01


def run(ctx):
    ctx.model('LockProtocol', cfg_text=L01.MODEL % ctx.pick(3, 4))
    L01.enum(ctx, (('lone', 15, 300), ('stale', 14, 2000), ('dies', 14, 1000)))
    w = ctx.generate('LockGen', cfg_text=L01.WALK % 40, label='walk', num=ctx.pick(300, 6000), depth=42, seed=ctx.seed + 100)
    ctx.conform('LockTrace', 'lock', w, label='walk', per_trace=20)
