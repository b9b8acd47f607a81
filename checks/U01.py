import L01

LAW = '''CONSTANTS Kind = "law" K = 0
INIT EInit
NEXT ENext
INVARIANT Law
CHECK_DEADLOCK FALSE
'''


def enum(ctx, kinds, sig=None):
    for kind, n in kinds:
        cases = ctx.generate('PacketEnum', cfg_text=L01.ENUM % (kind, 0), label=kind)
        ctx.conform('PacketTrace', 'util', ctx.some(cases, n), label=kind, per_trace=20, sig=sig)


def run(ctx):
    ctx.model('PacketEnum', cfg_text=LAW)
    enum(ctx, (('sizes', 500), ('options', 300), ('keys', 80), ('large', 24), ('names', 80), ('odd', 30), ('tight', 36), ('many', 40)))
