CFG = '''CONSTANTS Cases <- CodecCases Kind = "%s" N = %d
INIT EInit
NEXT ENext
INVARIANT Law
CHECK_DEADLOCK FALSE
'''


def run(ctx):
    for kind, n in (('enc1', 0), ('enc', ctx.pick(3, 4)), ('encmix', 0), ('dec', ctx.pick(5, 6)), ('dec4', 0), ('decws', 0),
                    ('hex', 0), ('unhex', 0)):
        ops = ctx.generate('CodecEnum', cfg_text=CFG % (kind, n), label=kind, workers=1)
        ctx.conform('CodecTrace', 'codec', ctx.group(ctx.some(ops, 6000)), label=kind)
