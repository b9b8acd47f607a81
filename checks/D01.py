def run(ctx):
    cover = ctx.generate('ListGen', 'ListCover', workers=1)
    ctx.conform('ListTrace', 'list', cover, label='cover')
    sim = ctx.generate('ListGen', 'ListSim', num=ctx.pick(2000, 20000), depth=62)
    ctx.conform('ListTrace', 'list', sim, label='walk')
