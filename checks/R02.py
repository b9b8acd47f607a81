import X02


def run(ctx):
    # every cut and alteration of one byte, then two more processes
    use = {'op': 'use', 'a': [4, 0, 0]}
    old = {'op': 'use', 'a': [4, 1, 0]}
    one = []
    for k in range(0, 112):
        one.append([use, {'op': 'damage', 'a': ['cut', k, 0]}, use, old, {'op': 'damage', 'a': ['cut', k, 0]}, old, use])
        for x in (1, 128, 255):
            one.append([use, {'op': 'damage', 'a': ['byte', k, x]}, old, use, use])
    ctx.conform('ReservoirTrace', 'random', ctx.some(one, 250), label='one', per_trace=20)
    # an earlier reservoir put back, time and again
    back = [[{'op': 'use', 'a': [h, 0, d]}, {'op': 'damage', 'a': ['keep', 0, 0]}] + 3 * [{'op': 'use', 'a': [h, e, d]}, {'op': 'damage', 'a': ['back', 0, 0]}]
            for h in range(1, 8) for e in (0, 1) for d in (0, 1)]
    ctx.conform('ReservoirTrace', 'random', back, label='back', per_trace=20)
    for depth, n, m in ((8, 300, 3000), (30, 60, 600)):
        w = ctx.generate('ReservoirGen', cfg_text=X02.WALK % depth, label='walk%d' % depth, num=ctx.pick(n, m), depth=depth + 2)
        ctx.conform('ReservoirTrace', 'random', w, label='walk%d' % depth, per_trace=20)
