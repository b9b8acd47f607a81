def long():
    """Strings that outgrow what was set aside for them."""
    out = []
    for n in (0, 3, 4000, 4096, 9000):
        for m in (1, 4095, 4096, 4097, 8192, 9000, 20000):
            p, q = ([(k * k * 31 + k * z + z) % 256 for k in range(j)] for j, z in ((n, 7), (m, 11)))
            out.append([{'op': 'blob', 'a': [1, 0, 0, p]}, {'op': 'blob', 'a': [2, 0, 0, q]}, {'op': 'concat', 'a': [1, 2]},
                        {'op': 'clone', 'a': [3, 1]}, {'op': 'destroy', 'a': [1]}, {'op': 'split', 'a': [3, 1, n]},
                        {'op': 'compare', 'a': [3, 2]}, {'op': 'concat', 'a': [3, 3]}, {'op': 'setlen', 'a': [3, m + 5]},
                        {'op': 'set', 'a': [3, 2]}, {'op': 'tohex', 'a': [2]}])
    return out


def run(ctx):
    cover = ctx.some(ctx.generate('BytesGen', 'BytesCover', workers=1), 12000)
    ctx.conform('BytesTrace', 'bytes', cover, label='cover')
    ctx.conform('BytesTrace', 'bytes', long(), label='long')
    sim = ctx.generate('BytesGen', 'BytesSim', num=ctx.pick(500, 5000), depth=32)
    ctx.conform('BytesTrace', 'bytes', sim, label='walk')
