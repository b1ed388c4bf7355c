#!/usr/bin/env python3
"""Writes sim/bch_codes.inc: BCH instantiations with minimal polynomials computed here, independently of the library."""
def minpoly(m, poly, e):
    N = (1 << m) - 1
    exp = [1]
    for _ in range(N - 1):
        a = exp[-1] << 1
        if a >> m: a ^= poly
        exp.append(a)
    log = {v: i for i, v in enumerate(exp)}
    mul = lambda a, b: exp[(log[a] + log[b]) % N] if a and b else 0
    cls = []; c = e % N
    while c not in cls: cls.append(c); c = c * 2 % N
    p = [1]
    for c in cls:
        r = exp[c]; q = [0] * (len(p) + 1)
        for i, x in enumerate(p): q[i + 1] ^= x; q[i] ^= mul(x, r)
        p = q
    return sum(x << i for i, x in enumerate(p)), frozenset(cls)
CODES = [ # m, poly, fcr, nr
 (3,0xb,1,2),(3,0xd,0,3),(3,0xb,1,6),
 (4,0x13,1,2),(4,0x13,1,4),(4,0x13,1,6),(4,0x19,0,3),(4,0x13,0,5),(4,0x19,1,3),(4,0x13,13,5),(4,0x13,1,14),(4,0x19,7,4),
 (5,0x25,1,4),(5,0x25,1,6),(5,0x3d,1,10),(5,0x25,0,7),(5,0x37,2,3),(5,0x2f,1,4),
 (6,0x43,1,4),(6,0x6d,1,6),(6,0x43,0,9),(6,0x5b,62,3),(6,0x43,1,2),
 (7,0x89,1,20),(7,0x89,0,3),(7,0xf7,1,4),(7,0x83,1,5),
 (8,0x11d,1,36),(8,0x12b,1,4),(8,0x14d,1,6),(8,0x11d,0,9),(8,0x187,253,5),(8,0x11d,1,2),
 (9,0x211,1,8),(10,0x409,1,12),(11,0x805,0,5),(12,0x1053,1,10),(13,0x201b,1,6),
 (14,0x402b,1,24),(15,0x802d,1,24),(16,0x1002d,1,24),(16,0x1002d,1,4),(16,0x1100b,0,5),
]
if __name__ == "__main__":
    import os
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim", "bch_codes.inc"), "w") as f:
        f.write("// generated by tools/gen_bch.py: BCH(NR, FCR, K, M, POLY, TYPE, minimal polynomials)\n")
        for m, poly, fcr, nr in CODES:
            N = (1 << m) - 1; seen = set(); ps = []
            for i in range(nr):
                p, c = minpoly(m, poly, fcr + i)
                if c not in seen: seen.add(c); ps.append(p)
            np = sum(len(c) for c in seen)
            f.write("BCH(%d, %d, %d, %d, 0x%x, uint%d_t, %s)\n" % (nr, fcr, N - np, m, poly, 8 if m <= 8 else 16, ", ".join("0x%x" % p for p in ps)))
