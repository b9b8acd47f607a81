CFG = '''CONSTANTS Cases <- OptionCases Kind = "%s"
INIT EInit
NEXT ENext
CHECK_DEADLOCK FALSE
'''


def run(ctx):
    for kind in ('names', 'one', 'print', 'two', 'three', 'spelled', 'isoption'):
        ops = ctx.generate('OptionEnum', cfg_text=CFG % kind, label=kind, workers=1)
        first = [{'op': 'consts', 'a': []}]
        ctx.conform('OptionTrace', 'option', [first + g for g in ctx.group(ctx.some(ops, 8000))], label=kind)
