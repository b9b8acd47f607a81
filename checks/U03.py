import L01


def run(ctx):
    for kind, n in (('hash', 176), ('one', 99), ('some', 36), ('large', 40), ('names', 200)):
        cases = ctx.generate('ManifestEnum', cfg_text=L01.ENUM % (kind, 0), label=kind)
        ctx.conform('ManifestTrace', 'util', ctx.some(cases, n), label=kind, per_trace=20)
