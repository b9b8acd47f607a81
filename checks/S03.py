CFG = '''CONSTANTS Cases <- TextCases Kind = "%s" N = %d
INIT EInit
NEXT ENext
INVARIANT Law
CHECK_DEADLOCK FALSE
'''


def run(ctx):
    for kind, n in (('copy', 4), ('cat', 4), ('append', 0), ('dup', 0), ('subst', ctx.pick(6, 8)), ('substlong', 0),
                    ('strip', ctx.pick(5, 6)), ('args', ctx.pick(5, 6)), ('cmp', 0), ('ncmp', 0), ('lower', 0),
                    ('truth', 0)):
        ops = ctx.generate('TextEnum', cfg_text=CFG % (kind, n), label=kind, workers=1)
        ctx.conform('TextTrace', 'text', ctx.group(ctx.some(ops, 5000)), label=kind)
