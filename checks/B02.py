import L01


def run(ctx):
    for kind, n in (('files', 600), ('pipes', 900), ('stdin', 300), ('maps', 300)):
        cases = ctx.some(ctx.generate('TransferEnum', cfg_text=L01.ENUM % (kind, 0), label=kind), n)
        ctx.conform('TransferTrace', 'blob', cases, label=kind, per_trace=20)
