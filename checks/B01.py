import L01

WALK = '''CONSTANTS Init0 <- SInit Ops <- SOps Apply <- Apply1 Depth = %d
INIT GInit
NEXT GPick
INVARIANT EmitFull
CHECK_DEADLOCK FALSE
'''


def sig(t, i, want):
    e = t['ev'][i - 1]
    how = ""
    if e['op'] == 'close':
        # which file the stream was on, and how it was reached
        o = [x for x in t['ev'][:i - 1] if x['op'] in ('wopen', 'ropen') and x['a'][0] == e['a'][0]][-1]
        how = ':%s-%d-%d' % (o['op'], o['a'][1], o['a'][3])
    if any(x['op'] == 'put' and x['a'][1] == 2 and x['a'][5] > 1 for x in t['ev'][:i]):
        how = ':bzip2-parts'
    return '%s%s' % (e['op'], how)


def run(ctx):
    for kind, n in (('trip', 900), ('outside', 400), ('harm', 500), ('full', 200), ('grow', 300), ('bzparts', 20)):
        cases = ctx.some(ctx.generate('BlobEnum', cfg_text=L01.ENUM % (kind, 0), label=kind), n)
        ctx.conform('BlobTrace', 'blob', cases, label=kind, per_trace=20, sig=sig)
    for depth, n, m in ((12, 1200, 8000), (50, 500, 3000)):
        w = ctx.generate('BlobGen', cfg_text=WALK % depth, label='walk%d' % depth, num=ctx.pick(n, m), depth=depth + 2)
        ctx.conform('BlobTrace', 'blob', w, label='walk%d' % depth, per_trace=20, sig=sig)
