// generated by tools/gen_sbch.py: SBCH(N, K, G, T)
SBCH(3, 1, 0x7, 1)
SBCH(5, 1, 0x1f, 2)
SBCH(7, 1, 0x7f, 3)
SBCH(7, 1, 0x7f, 2)
SBCH(7, 4, 0xb, 1)
SBCH(7, 3, 0x17, 1)
SBCH(7, 4, 0xd, 1)
SBCH(15, 11, 0x13, 1)
SBCH(15, 7, 0x1d1, 2)
SBCH(15, 5, 0x537, 3)
SBCH(15, 5, 0x537, 2)
SBCH(15, 4, 0xf59, 3)
SBCH(15, 4, 0xf59, 2)
SBCH(15, 2, 0x36db, 3)
SBCH(15, 2, 0x36db, 2)
SBCH(31, 26, 0x25, 1)
SBCH(31, 21, 0x769, 2)
SBCH(31, 16, 0x8faf, 3)
SBCH(23, 12, 0xae3, 3)
SBCH(23, 12, 0xc75, 3)
SBCH(12, 8, 0x13, 1)
SBCH(14, 6, 0x1d1, 2)
SBCH(24, 14, 0x769, 2)
SBCH(30, 15, 0x8faf, 2)
SBCH(20, 10, 0x4c3, 2)
SBCH(13, 3, 0x537, 3)
SBCH(13, 3, 0x537, 2)
SBCH(21, 16, 0x25, 1)
SBCH(10, 5, 0x25, 1)
SBCH(15, 10, 0x35, 1)
SBCH(15, 6, 0x273, 2)
SBCH(22, 11, 0xae3, 3)
SBCH(6, 3, 0xb, 1)
