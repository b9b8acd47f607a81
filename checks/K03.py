import K01


def run(ctx):
    K01.enum(ctx, (('crash', 75, 600), ('crashexp', 40, 200), ('crash2', 60, 1200)))
