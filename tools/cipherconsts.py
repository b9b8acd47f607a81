#!/usr/bin/env python3
"""Writes spec/CipherConst.tla: the tables of the block ciphers, computed from their
definitions (field inverses, the Twofish 4-bit permutations, the Serpent boxes)."""
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mul(a, b, m):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= m
        b >>= 1
    return r


def aes_sbox():
    out = []
    for x in range(256):
        inv = next((y for y in range(256) if mul(x, y, 0x11b) == 1), 0)
        y = 0
        for k in range(8):
            bit = 0
            for d in (0, 4, 5, 6, 7):
                bit ^= (inv >> ((k + d) % 8)) & 1
            y |= (bit ^ ((0x63 >> k) & 1)) << k
        out.append(y)
    return out


QT = (('817D6F320B59ECA4', 'ECB81235F4A6709D', 'BA5E6D90C8F32471', 'D7F4126E9B3085CA'),
      ('28BDF76E31940AC5', '1E2B4C376DA5F908', '4C75169A0ED82B3F', 'B951C3DE647F208A'))


def twofish_q(n):
    t = [[int(c, 16) for c in s] for s in QT[n]]

    def ror4(b):
        return ((b >> 1) | (b << 3)) & 15
    out = []
    for x in range(256):
        a, b = x >> 4, x & 15
        for k in (0, 2):
            a, b = a ^ b, a ^ ror4(b) ^ ((8 * a) & 15)
            a, b = t[k][a], t[k + 1][b]
        out.append(16 * b + a)
    return out


SERPENT = ('3 8 15 1 10 6 5 11 14 13 4 2 7 0 9 12', '15 12 2 7 9 0 5 10 1 11 14 8 6 13 3 4',
           '8 6 7 9 3 12 10 15 13 1 14 4 0 11 5 2', '0 15 11 8 12 9 6 3 13 1 2 4 10 7 5 14',
           '1 15 8 3 12 0 11 6 2 5 4 10 9 14 7 13', '15 5 2 11 4 10 9 12 0 3 14 8 13 6 7 1',
           '7 2 12 5 8 4 6 11 14 9 1 15 13 3 10 0', '1 13 15 0 14 8 2 11 7 4 12 10 9 3 5 6')

RS = ('01 A4 55 87 5A 58 DB 9E', 'A4 56 82 F3 1E C6 68 E5', '02 A1 FC C1 47 AE 3D 19', 'A4 55 87 5A 58 DB 9E 03')


def seq(v):
    return '<<' + ', '.join(map(str, v)) + '>>'


def table(name, vals):
    out, line = [], '  '
    for k, v in enumerate(vals):
        t = str(v) + (',' if k + 1 < len(vals) else '')
        if len(line) + len(t) > 110:
            out.append(line.rstrip())
            line = '  '
        line += t + ' '
    out.append(line.rstrip())
    return '%s == <<\n%s>>\n' % (name, '\n'.join(out))


def main():
    t = '---------------------------- MODULE CipherConst ----------------------------\n'
    t += '(* Generated by tools/cipherconsts.py from the definitions of the tables. *)\n'
    t += table('AesS', aes_sbox())
    t += table('Mul2', [mul(x, 2, 0x11b) for x in range(256)])
    t += table('TwoQ0', twofish_q(0))
    t += table('TwoQ1', twofish_q(1))
    t += table('Mul5B', [mul(x, 0x5b, 0x169) for x in range(256)])
    t += table('MulEF', [mul(x, 0xef, 0x169) for x in range(256)])
    rs = [[int(c, 16) for c in r.split()] for r in RS]
    coeffs = sorted({c for r in rs for c in r})
    t += table('RsMul', [seq([mul(x, c, 0x14d) for x in range(256)]) for c in coeffs])
    t += table('RsRow', [seq([coeffs.index(c) + 1 for c in r]) for r in rs])
    # for every box and output bit, the inputs that set it
    t += table('SerpentOn', [seq([seq([x for x, y in enumerate(map(int, s.split())) if (y >> b) & 1])
                                  for b in range(4)]) for s in SERPENT])
    t += '=============================================================================\n'
    with open(os.path.join(ROOT, 'spec', 'CipherConst.tla'), 'w') as f:
        f.write(t)


main()
