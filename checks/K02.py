import L01


def run(ctx):
    for kind, k, n in (('glue', 0, 100), ('word', 0, 400), ('cut', 200, 804), ('poke', 200, 1200), ('two', 200, 400)):
        damage = ctx.generate('KeyringFileEnum', cfg_text=L01.ENUM % (kind, k), label=kind)
        ctx.conform('KeyringFileTrace', 'keyring', ctx.some(damage, n), label=kind, per_trace=20)
