CFG = '''CONSTANTS Cases <- GlobCases Kind = "%s" N = %d
INIT EInit
NEXT ENext
CHECK_DEADLOCK FALSE
'''


def run(ctx):
    for kind, n in (('tok', ctx.pick(3, 4)), ('esc', ctx.pick(3, 4)), ('raw', ctx.pick(4, 5))):
        ops = ctx.generate('GlobEnum', cfg_text=CFG % (kind, n), label=kind, workers=1)
        ctx.conform('GlobTrace', 'glob', ctx.group(ctx.some(ops, 6000)), label=kind)
