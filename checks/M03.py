import X02


def run(ctx):
    for ops, label, depth, n, m in (('FOps', 'one', 240, 120, 2000), ('SOps', 'walk', 60, 120, 2000)):
        w = ctx.generate('BalanceGen', cfg_text=(X02.WALK % depth).replace('Ops <- SOps', 'Ops <- ' + ops), label=label, num=ctx.pick(n, m), depth=depth + 2)
        ctx.conform('BalanceTrace', 'balance', w, label=label, per_trace=20)
