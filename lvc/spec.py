"""BLAKE2 as written in RFC 7693 and the BLAKE2 paper, independent of the code under test."""
import struct
from . import term as t

IV = {
    'b': [0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
          0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179],
    's': [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19],
}
SIGMA = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
]
W = {'b': 64, 's': 32}
BLOCK = {'b': 128, 's': 64}
OUT = {'b': 64, 's': 32}
ROUNDS = {'b': 12, 's': 10}
ROT = {'b': (32, 24, 16, 63), 's': (16, 12, 8, 7)}
DEGREE_P = {'b': 4, 's': 8}


def expand(variant, args):
    """RFC 7693 section 3.2 as terms: args = h[8], m[16], t_lo, t_hi, f0, f1 -> 8 terms"""
    w = W[variant]
    h = list(args[:8])
    m = args[8:24]
    tl, th, f0, f1 = args[24:28]
    iv = IV[variant]
    v = h + [t.C(x, w) for x in iv]
    v[12] = t.bxor(v[12], tl)
    v[13] = t.bxor(v[13], th)
    v[14] = t.bxor(v[14], f0)
    v[15] = t.bxor(v[15], f1)
    r1, r2, r3, r4 = ROT[variant]
    add, xor, fshr = t.add, t.bxor, t.fshr

    def G(a, b, c, d, x, y):
        v[a] = add(add(v[a], v[b]), x)
        z = xor(v[d], v[a]); v[d] = fshr(z, z, r1)
        v[c] = add(v[c], v[d])
        z = xor(v[b], v[c]); v[b] = fshr(z, z, r2)
        v[a] = add(add(v[a], v[b]), y)
        z = xor(v[d], v[a]); v[d] = fshr(z, z, r3)
        v[c] = add(v[c], v[d])
        z = xor(v[b], v[c]); v[b] = fshr(z, z, r4)
    for r in range(ROUNDS[variant]):
        s = SIGMA[r % 10]
        G(0, 4, 8, 12, m[s[0]], m[s[1]])
        G(1, 5, 9, 13, m[s[2]], m[s[3]])
        G(2, 6, 10, 14, m[s[4]], m[s[5]])
        G(3, 7, 11, 15, m[s[6]], m[s[7]])
        G(0, 5, 10, 15, m[s[8]], m[s[9]])
        G(1, 6, 11, 12, m[s[10]], m[s[11]])
        G(2, 7, 8, 13, m[s[12]], m[s[13]])
        G(3, 4, 9, 14, m[s[14]], m[s[15]])
    return [xor(h[i], xor(v[i], v[i + 8])) for i in range(8)]


def fcompress(variant, a):
    """the same on Python integers (used to evaluate counterexample models)"""
    w = W[variant]
    mask = (1 << w) - 1
    h = list(a[:8]); m = a[8:24]
    v = h + list(IV[variant])
    v[12] ^= a[24]; v[13] ^= a[25]; v[14] ^= a[26]; v[15] ^= a[27]
    r1, r2, r3, r4 = ROT[variant]

    def G(i, j, k, l, x, y):
        A, Bq, Cq, D = v[i], v[j], v[k], v[l]
        A = (A + Bq + x) & mask
        D ^= A; D = ((D >> r1) | (D << (w - r1))) & mask
        Cq = (Cq + D) & mask
        Bq ^= Cq; Bq = ((Bq >> r2) | (Bq << (w - r2))) & mask
        A = (A + Bq + y) & mask
        D ^= A; D = ((D >> r3) | (D << (w - r3))) & mask
        Cq = (Cq + D) & mask
        Bq ^= Cq; Bq = ((Bq >> r4) | (Bq << (w - r4))) & mask
        v[i], v[j], v[k], v[l] = A, Bq, Cq, D
    for r in range(ROUNDS[variant]):
        s = SIGMA[r % 10]
        G(0, 4, 8, 12, m[s[0]], m[s[1]])
        G(1, 5, 9, 13, m[s[2]], m[s[3]])
        G(2, 6, 10, 14, m[s[4]], m[s[5]])
        G(3, 7, 11, 15, m[s[6]], m[s[7]])
        G(0, 5, 10, 15, m[s[8]], m[s[9]])
        G(1, 6, 11, 12, m[s[10]], m[s[11]])
        G(2, 7, 8, 13, m[s[12]], m[s[13]])
        G(3, 4, 9, 14, m[s[14]], m[s[15]])
    return [h[i] ^ v[i] ^ v[i + 8] for i in range(8)]
