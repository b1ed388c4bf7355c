#!/usr/bin/env python3
"""Writes sim/ldpc_tables.inc: the standard tables used by the library's own test, and smaller quasi-cyclic ones."""
import os, random, re
R = random.Random(7)
H = os.path.dirname(os.path.abspath(__file__))
src = open("/repo/tests/ldpc_regression_test.cc").read()
out = ["// generated by tools/gen_ldpc.py"]
names = []
for m in re.finditer(r"struct (DVB_T2_TABLE_(\w+))\s*\{(.*?)\n\};", src, re.S):
    body = m.group(3)
    out.append("struct T_%s {%s\n};" % (m.group(2), body))
    for a in ("DEG", "LEN", "POS"): out.append("constexpr int T_%s::%s[];" % (m.group(2), a))
    names.append("T_" + m.group(2))
def custom(name, M, q, groups):
    """groups: list of (columns, degree); no two links of a column hit the same check bit"""
    K = M * sum(n for n, d in groups); Rr = q * M; N = K + Rr
    rows = [0] * q; pos = []; deg = []; ln = []; edges = 0
    for n, d in groups:
        deg.append(d); ln.append(n)
        for _ in range(n):
            col = []
            while len(col) < d:
                low = min(rows); r = R.choice([i for i in range(q) if rows[i] <= low + 1])
                for _try in range(50):
                    s = R.randrange(M)
                    if all(not (r == r2 and s == s2) for r2, s2 in col): break
                else: continue
                col.append((r, s)); rows[r] += 1
            pos += [r + q * s for r, s in col]; edges += d
    assert min(rows) >= 1 and max(rows) <= 32, rows
    f = lambda l: ", ".join(map(str, l))
    out.append("struct %s {\n\tstatic const int M = %d, N = %d, K = %d, LINKS_MIN_CN = %d, LINKS_MAX_CN = %d, LINKS_TOTAL = %d, DEG_MAX = %d;\n\tstatic constexpr int DEG[] = { %s, 0 };\n\tstatic constexpr int LEN[] = { %s, 0 };\n\tstatic constexpr int POS[] = { %s };\n};" % (name, M, N, K, min(rows) + 1, max(rows) + 2, edges * M + 2 * Rr - 1, max(deg), f(deg), f(ln), f(pos)))
    for a in ("DEG", "LEN", "POS"): out.append("constexpr int %s::%s[];" % (name, a))
    names.append(name)
custom("T_30a", 30, 4, [(1, 6), (3, 3)])
custom("T_30b", 30, 2, [(2, 6), (4, 4)])          # many repeated block columns
custom("T_60a", 60, 5, [(1, 8), (4, 3)])
custom("T_60b", 60, 3, [(3, 5), (6, 4)])          # high rate, repeated block columns
custom("T_90a", 90, 3, [(2, 6), (7, 3)])
custom("T_180a", 180, 9, [(1, 9), (2, 4)])         # low rate
custom("T_120a", 120, 6, [(2, 7), (4, 3)])
custom("T_60c", 60, 4, [(10, 4), (24, 3)])         # 30 links per check, like rate 9/10
custom("T_360c", 360, 5, [(5, 4), (35, 3)])        # the dimensions of the short rate-8/9 frames
out.append("#define LDPC_TABLES(F) " + " ".join("F(%s)" % n for n in names))
open(os.path.join(H, "..", "sim", "ldpc_tables.inc"), "w").write("\n".join(out) + "\n")
print(names)
