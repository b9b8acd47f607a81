#!/usr/bin/env python3
"""Writes spec/HashConst.tla: the round constants of the hash functions, computed
from their definitions (roots of primes, sines, the Keccak LFSR)."""
import hashlib
import math
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def primes(n):
    p, k = [], 2
    while len(p) < n:
        if all(k % q for q in p):
            p.append(k)
        k += 1
    return p


def frac_root(p, e, bits):
    # floor(frac(p^(1/e)) * 2^bits), by integer root
    n = p << (e * bits)
    lo, hi = 0, 1 << (bits + 16)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** e <= n:
            lo = m
        else:
            hi = m - 1
    return lo & ((1 << bits) - 1)


def w(v, limbs):
    return '<<' + ', '.join(str((v >> (16 * (limbs - 1 - k))) & 0xffff) for k in range(limbs)) + '>>'


def table(name, vals, limbs):
    out, line = [], '  '
    for k, v in enumerate(vals):
        t = w(v, limbs) + (',' if k + 1 < len(vals) else '')
        if len(line) + len(t) > 110:
            out.append(line)
            line = '  '
        line += t + ' '
    out.append(line)
    return '%s == <<\n%s>>\n' % (name, '\n'.join(x.rstrip() for x in out))


def keccak_rc():
    r, out = 1, []
    for _ in range(24):
        v = 0
        for j in range(7):
            if r & 1:
                v ^= 1 << ((1 << j) - 1)
            r = (r << 1) ^ (0x171 if r & 0x80 else 0)
            r &= 0xff
        out.append(v)
    return out


HUGE = 2 ** 29 + 3


def huge():
    # digests of HUGE bytes 97, too many for TLC: taken from an independent implementation
    out = []
    for name in ('md5', 'sha1', 'sha224', 'sha256'):
        h = hashlib.new(name)
        for _ in range(HUGE // 2 ** 20):
            h.update(b'a' * 2 ** 20)
        h.update(b'a' * (HUGE % 2 ** 20))
        out.append('   %s |-> <<%s>>' % (name, ', '.join(map(str, h.digest()))))
    return 'HugeLen == %d\nHuge == [\n%s]\n' % (HUGE, ',\n'.join(out))


def main():
    t = '----------------------------- MODULE HashConst -----------------------------\n'
    t += '(* Generated by tools/hashconsts.py from the definitions of the constants. *)\n'
    t += table('MD5T', [int(abs(math.sin(i + 1)) * 2 ** 32) for i in range(64)], 2)
    t += table('K256', [frac_root(p, 3, 32) for p in primes(64)], 2)
    t += table('H256', [frac_root(p, 2, 32) for p in primes(8)], 2)
    t += table('H224', [frac_root(p, 2, 64) & 0xffffffff for p in primes(16)[8:]], 2)
    t += table('K512', [frac_root(p, 3, 64) for p in primes(80)], 4)
    t += table('H512', [frac_root(p, 2, 64) for p in primes(8)], 4)
    t += table('H384', [frac_root(p, 2, 64) for p in primes(16)[8:]], 4)
    t += table('KRC', keccak_rc(), 4)
    t += huge()
    t += '=============================================================================\n'
    with open(os.path.join(ROOT, 'spec', 'HashConst.tla'), 'w') as f:
        f.write(t)


main()
