// generated by tools/gen_bch.py: BCH(NR, FCR, K, M, POLY, TYPE, minimal polynomials)
BCH(2, 1, 4, 3, 0xb, uint8_t, 0xb)
BCH(3, 0, 3, 3, 0xd, uint8_t, 0x3, 0xd)
BCH(6, 1, 1, 3, 0xb, uint8_t, 0xb, 0xd)
BCH(2, 1, 11, 4, 0x13, uint8_t, 0x13)
BCH(4, 1, 7, 4, 0x13, uint8_t, 0x13, 0x1f)
BCH(6, 1, 5, 4, 0x13, uint8_t, 0x13, 0x1f, 0x7)
BCH(3, 0, 10, 4, 0x19, uint8_t, 0x3, 0x19)
BCH(5, 0, 6, 4, 0x13, uint8_t, 0x3, 0x13, 0x1f)
BCH(3, 1, 7, 4, 0x19, uint8_t, 0x19, 0x1f)
BCH(5, 13, 6, 4, 0x13, uint8_t, 0x19, 0x3, 0x13)
BCH(14, 1, 1, 4, 0x13, uint8_t, 0x13, 0x1f, 0x7, 0x19)
BCH(4, 7, 1, 4, 0x19, uint8_t, 0x13, 0x19, 0x1f, 0x7)
BCH(4, 1, 21, 5, 0x25, uint8_t, 0x25, 0x3d)
BCH(6, 1, 16, 5, 0x25, uint8_t, 0x25, 0x3d, 0x37)
BCH(10, 1, 11, 5, 0x3d, uint8_t, 0x3d, 0x37, 0x29, 0x3b)
BCH(7, 0, 15, 5, 0x25, uint8_t, 0x3, 0x25, 0x3d, 0x37)
BCH(3, 2, 21, 5, 0x37, uint8_t, 0x37, 0x29)
BCH(4, 1, 21, 5, 0x2f, uint8_t, 0x2f, 0x3b)
BCH(4, 1, 51, 6, 0x43, uint8_t, 0x43, 0x57)
BCH(6, 1, 45, 6, 0x6d, uint8_t, 0x6d, 0x57, 0x61)
BCH(9, 0, 38, 6, 0x43, uint8_t, 0x3, 0x43, 0x57, 0x67, 0x49)
BCH(3, 62, 50, 6, 0x5b, uint8_t, 0x6d, 0x3, 0x5b)
BCH(2, 1, 57, 6, 0x43, uint8_t, 0x43)
BCH(20, 1, 64, 7, 0x89, uint8_t, 0x89, 0x8f, 0x9d, 0xf7, 0xbf, 0xd5, 0x83, 0xef, 0xcb)
BCH(3, 0, 119, 7, 0x89, uint8_t, 0x3, 0x89)
BCH(4, 1, 113, 7, 0xf7, uint8_t, 0xf7, 0xe5)
BCH(5, 1, 106, 7, 0x83, uint8_t, 0x83, 0xab, 0x8f)
BCH(36, 1, 131, 8, 0x11d, uint8_t, 0x11d, 0x177, 0x1f3, 0x169, 0x1bd, 0x1e7, 0x12b, 0x1d7, 0x13, 0x165, 0x18b, 0x163, 0x11b, 0x13f, 0x18d, 0x12d)
BCH(4, 1, 239, 8, 0x12b, uint8_t, 0x12b, 0x1f9)
BCH(6, 1, 231, 8, 0x14d, uint8_t, 0x14d, 0x13f, 0x1f3)
BCH(9, 0, 222, 8, 0x11d, uint8_t, 0x3, 0x11d, 0x177, 0x1f3, 0x169)
BCH(5, 253, 238, 8, 0x187, uint8_t, 0x1c3, 0x3, 0x187)
BCH(2, 1, 247, 8, 0x11d, uint8_t, 0x11d)
BCH(8, 1, 475, 9, 0x211, uint16_t, 0x211, 0x259, 0x331, 0x299)
BCH(12, 1, 963, 10, 0x409, uint16_t, 0x409, 0x40f, 0x50d, 0x7f9, 0x4af, 0x435)
BCH(5, 0, 2024, 11, 0x805, uint16_t, 0x3, 0x805, 0x925)
BCH(10, 1, 4035, 12, 0x1053, uint16_t, 0x1053, 0x145b, 0x104d, 0x146b, 0x13f5)
BCH(6, 1, 8152, 13, 0x201b, uint16_t, 0x201b, 0x26b1, 0x2993)
BCH(24, 1, 16215, 14, 0x402b, uint16_t, 0x402b, 0x4941, 0x4647, 0x5591, 0x6b55, 0x6389, 0x6ce5, 0x4f21, 0x460f, 0x5a49, 0x5811, 0x65ef)
BCH(24, 1, 32587, 15, 0x802d, uint16_t, 0x802d, 0x8c93, 0xb555, 0x8d6d, 0x94d7, 0xb0d1, 0xd8b5, 0xcb55, 0xbab7, 0xbc9f, 0x8a17, 0xed15)
BCH(24, 1, 65343, 16, 0x1002d, uint16_t, 0x1002d, 0x10173, 0x10fbd, 0x15a55, 0x11f2f, 0x1f7b5, 0x1af65, 0x17367, 0x10ea1, 0x175a7, 0x13a2d, 0x11ae3)
BCH(4, 1, 65503, 16, 0x1002d, uint16_t, 0x1002d, 0x10173)
BCH(5, 0, 65502, 16, 0x1100b, uint16_t, 0x3, 0x1100b, 0x11b1d)
