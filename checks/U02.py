import U01


def sig(t, i, want):
    """Whole chunks moved are known to pass: nothing in a chunk says which it is."""
    hurt = [e for e in t['ev'][:i] if e['op'] in ('cut', 'swap', 'drop', 'dup', 'flip', 'glue')]
    ev = t['ev'][i - 1]
    if ev['op'] != 'cmp' or ev['x'] or len(hurt) != 1 or t['ev'][i - 2]['r'] != 0:
        return 'packet:' + ev['op']
    op, a = hurt[0]['op'], hurt[0]['a']
    enc = [e for e in t['ev'] if e['op'] == 'enc'][0]['a']
    mode, front, z = enc[6] or 'CTR', (16 if enc[7] == 'MD5' else 32) + (enc[8] != 'None'), enc[12]
    piece = front + (z if mode == 'CFB' else (z + 15) // 16 * 16)
    whole = {'cut': a[2:3], 'drop': a[2:], 'dup': a[2:], 'swap': a[2:]}.get(op, [1])
    if a[1] == 1 and all(x % piece == 0 for x in whole):
        return 'whole-chunks:' + op
    if op == 'cut' and a[1] == 1 and mode != 'CFB' and z % 16 == 0 and (a[2] - 16) % piece == 0:
        return 'whole-chunks:cut-after-block'
    return 'packet:' + op


def run(ctx):
    ctx.model('PacketEnum', cfg_text=U01.LAW)
    U01.enum(ctx, (('wrong', 100), ('head', 300), ('body', 400), ('cuthead', 150), ('cutbody', 400), ('glue', 150), ('chunks', 144)), sig)
