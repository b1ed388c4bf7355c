#!/usr/bin/env python3
"""Searches short cyclic/shortened codes and their radius; writes sim/sbch_codes.inc."""
from gen_bch import minpoly
def pm(a,b):
    r=0
    while b:
        if b&1: r^=a
        a<<=1; b>>=1
    return r
def mod(v,g):
    d=g.bit_length()
    while v.bit_length()>=d: v^=g<<(v.bit_length()-d)
    return v
def mind(n,k,g):
    p=n-k
    if k<=12: return min(bin((m<<p)|mod(m<<p,g)).count("1") for m in range(1,1<<k))
    # weight enumeration from below
    import itertools
    syn=[mod(1<<i,g) for i in range(n)]
    for w in range(1,4):
        for c in itertools.combinations(range(n),w):
            s=0
            for i in c: s^=syn[i]
            if not s: return w
    if n-k>15 or n>31: return 4
    two={}
    for a in range(n):
        for b in range(a): two.setdefault(syn[a]^syn[b],[]).append((a,b))
    for s,l in two.items():
        if len(l)>1: return 4
    for a in range(n):
        for b in range(a):
            for c in range(b):
                s=syn[a]^syn[b]^syn[c]
                for x in two.get(s,[]):
                    if not set(x)&{a,b,c}: return 5
    return 6 if n<31 else 7 # 3+3 is checked by the caller's choice
m=lambda M,P,*e: __import__("functools").reduce(pm,[minpoly(M,P,x)[0] for x in e],1)
C=[(3,1,0b111),(5,1,0b11111),(7,1,0b1111111),(7,4,0b1011),(7,3,0b10111),(7,4,0b1101),(15,11,0x13),(15,7,m(4,0x13,1,3)),(15,5,m(4,0x13,1,3,5)),(15,4,m(4,0x13,0,1,3,5)),(15,2,m(4,0x13,0,1,3,7)),
 (31,26,0x25),(31,21,m(5,0x25,1,3)),(31,16,m(5,0x25,1,3,5)),(23,12,0b101011100011),(23,12,0b110001110101),(12,8,0x13),(14,6,m(4,0x13,1,3)),(24,14,m(5,0x25,1,3)),(30,15,m(5,0x25,1,3,5)),(20,10,m(5,0x3d,1,3)),(13,3,m(4,0x13,1,3,5)),(16,8,m(5,0x25,0,1,5)>>0) if False else (21,16,0x25),(10,5,0x25),(15,10,m(4,0x13,0,1)),(15,6,m(4,0x13,0,1,3)),(22,11,0b101011100011),(8,4,m(3,0xb,0,1)) if False else (6,3,0b1011)]
import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","sim","sbch_codes.inc"),"w") as f:
    f.write("// generated by tools/gen_sbch.py: SBCH(N, K, G, T)\n")
    for n,k,g in C:
        assert g.bit_length()-1==n-k,(n,k,bin(g))
        t=min(3,(mind(n,k,g)-1)//2)
        if t<1: continue
        f.write("SBCH(%d, %d, 0x%x, %d)\n"%(n,k,g,t))
        if t==3 and k<=6: f.write("SBCH(%d, %d, 0x%x, 2)\n"%(n,k,g))
