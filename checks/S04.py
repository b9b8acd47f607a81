CFG = '''CONSTANTS Cases <- PathCases Kind = "%s" N = %d
INIT EInit
NEXT ENext
INVARIANT Law
CHECK_DEADLOCK FALSE
'''


def run(ctx):
    for kind, n in (('parts', ctx.pick(5, 6)), ('partsq', 5), ('partslong', 0), ('list', 6), ('chop', 7), ('append', 6)):
        ops = ctx.generate('PathEnum', cfg_text=CFG % (kind, n), label=kind, workers=1)
        ctx.conform('PathTrace', 'path', ctx.group(ctx.some(ops, 10000)), label=kind)
