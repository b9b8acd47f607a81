import X02


def run(ctx):
    w = ctx.generate('SharedGen', cfg_text=X02.WALK % 1, label='runs', num=ctx.pick(40000, 400000), depth=3)
    for part, variant in ((w[::2], 'sched'), (w[1::2], 'access')):
        ctx.conform('SharedTrace', 'shared', part, label='runs', per_trace=20, variant=variant,
                    sig=lambda t, i, want: 'runs:%s' % {1: 'list', 2: 'bounded list', 3: 'map', 4: 'tree', 5: 'sorted list'}[t['ev'][0]['a'][0]])
