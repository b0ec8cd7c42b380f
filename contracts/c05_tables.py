"""Golden Unicode 3 character data for C05: (first, last, delta) ranges, title-case pairs, letters without case.
Cross-checked against unicodedata; see DESIGN.md for the differences between Unicode 3 and today."""
UPPER = [
    (0x61, 0x7a, -32), (0xb5, 0xb5, 743), (0xe0, 0xf6, -32), (0xf8, 0xfe, -32), (0xff, 0xff, 121), (0x101, 0x101, -1), (0x103, 0x103, -1), (0x105, 0x105, -1),
    (0x107, 0x107, -1), (0x109, 0x109, -1), (0x10b, 0x10b, -1), (0x10d, 0x10d, -1), (0x10f, 0x10f, -1), (0x111, 0x111, -1), (0x113, 0x113, -1), (0x115, 0x115, -1),
    (0x117, 0x117, -1), (0x119, 0x119, -1), (0x11b, 0x11b, -1), (0x11d, 0x11d, -1), (0x11f, 0x11f, -1), (0x121, 0x121, -1), (0x123, 0x123, -1), (0x125, 0x125, -1),
    (0x127, 0x127, -1), (0x129, 0x129, -1), (0x12b, 0x12b, -1), (0x12d, 0x12d, -1), (0x12f, 0x12f, -1), (0x131, 0x131, -232), (0x133, 0x133, -1), (0x135, 0x135, -1),
    (0x137, 0x137, -1), (0x13a, 0x13a, -1), (0x13c, 0x13c, -1), (0x13e, 0x13e, -1), (0x140, 0x140, -1), (0x142, 0x142, -1), (0x144, 0x144, -1), (0x146, 0x146, -1),
    (0x148, 0x148, -1), (0x14b, 0x14b, -1), (0x14d, 0x14d, -1), (0x14f, 0x14f, -1), (0x151, 0x151, -1), (0x153, 0x153, -1), (0x155, 0x155, -1), (0x157, 0x157, -1),
    (0x159, 0x159, -1), (0x15b, 0x15b, -1), (0x15d, 0x15d, -1), (0x15f, 0x15f, -1), (0x161, 0x161, -1), (0x163, 0x163, -1), (0x165, 0x165, -1), (0x167, 0x167, -1),
    (0x169, 0x169, -1), (0x16b, 0x16b, -1), (0x16d, 0x16d, -1), (0x16f, 0x16f, -1), (0x171, 0x171, -1), (0x173, 0x173, -1), (0x175, 0x175, -1), (0x177, 0x177, -1),
    (0x17a, 0x17a, -1), (0x17c, 0x17c, -1), (0x17e, 0x17e, -1), (0x17f, 0x17f, -300), (0x183, 0x183, -1), (0x185, 0x185, -1), (0x188, 0x188, -1), (0x18c, 0x18c, -1),
    (0x192, 0x192, -1), (0x195, 0x195, 97), (0x199, 0x199, -1), (0x1a1, 0x1a1, -1), (0x1a3, 0x1a3, -1), (0x1a5, 0x1a5, -1), (0x1a8, 0x1a8, -1), (0x1ad, 0x1ad, -1),
    (0x1b0, 0x1b0, -1), (0x1b4, 0x1b4, -1), (0x1b6, 0x1b6, -1), (0x1b9, 0x1b9, -1), (0x1bd, 0x1bd, -1), (0x1bf, 0x1bf, 56), (0x1c5, 0x1c5, -1), (0x1c6, 0x1c6, -2),
    (0x1c8, 0x1c8, -1), (0x1c9, 0x1c9, -2), (0x1cb, 0x1cb, -1), (0x1cc, 0x1cc, -2), (0x1ce, 0x1ce, -1), (0x1d0, 0x1d0, -1), (0x1d2, 0x1d2, -1), (0x1d4, 0x1d4, -1),
    (0x1d6, 0x1d6, -1), (0x1d8, 0x1d8, -1), (0x1da, 0x1da, -1), (0x1dc, 0x1dc, -1), (0x1dd, 0x1dd, -79), (0x1df, 0x1df, -1), (0x1e1, 0x1e1, -1), (0x1e3, 0x1e3, -1),
    (0x1e5, 0x1e5, -1), (0x1e7, 0x1e7, -1), (0x1e9, 0x1e9, -1), (0x1eb, 0x1eb, -1), (0x1ed, 0x1ed, -1), (0x1ef, 0x1ef, -1), (0x1f2, 0x1f2, -1), (0x1f3, 0x1f3, -2),
    (0x1f5, 0x1f5, -1), (0x1f9, 0x1f9, -1), (0x1fb, 0x1fb, -1), (0x1fd, 0x1fd, -1), (0x1ff, 0x1ff, -1), (0x201, 0x201, -1), (0x203, 0x203, -1), (0x205, 0x205, -1),
    (0x207, 0x207, -1), (0x209, 0x209, -1), (0x20b, 0x20b, -1), (0x20d, 0x20d, -1), (0x20f, 0x20f, -1), (0x211, 0x211, -1), (0x213, 0x213, -1), (0x215, 0x215, -1),
    (0x217, 0x217, -1), (0x219, 0x219, -1), (0x21b, 0x21b, -1), (0x21d, 0x21d, -1), (0x21f, 0x21f, -1), (0x223, 0x223, -1), (0x225, 0x225, -1), (0x227, 0x227, -1),
    (0x229, 0x229, -1), (0x22b, 0x22b, -1), (0x22d, 0x22d, -1), (0x22f, 0x22f, -1), (0x231, 0x231, -1), (0x233, 0x233, -1), (0x253, 0x253, -210), (0x254, 0x254, -206),
    (0x256, 0x257, -205), (0x259, 0x259, -202), (0x25b, 0x25b, -203), (0x260, 0x260, -205), (0x263, 0x263, -207), (0x268, 0x268, -209), (0x269, 0x269, -211), (0x26f, 0x26f, -211),
    (0x272, 0x272, -213), (0x275, 0x275, -214), (0x280, 0x280, -218), (0x283, 0x283, -218), (0x288, 0x288, -218), (0x28a, 0x28b, -217), (0x292, 0x292, -219), (0x345, 0x345, 84),
    (0x3ac, 0x3ac, -38), (0x3ad, 0x3af, -37), (0x3b1, 0x3c1, -32), (0x3c2, 0x3c2, -31), (0x3c3, 0x3cb, -32), (0x3cc, 0x3cc, -64), (0x3cd, 0x3ce, -63), (0x3d0, 0x3d0, -62),
    (0x3d1, 0x3d1, -57), (0x3d5, 0x3d5, -47), (0x3d6, 0x3d6, -54), (0x3db, 0x3db, -1), (0x3dd, 0x3dd, -1), (0x3df, 0x3df, -1), (0x3e1, 0x3e1, -1), (0x3e3, 0x3e3, -1),
    (0x3e5, 0x3e5, -1), (0x3e7, 0x3e7, -1), (0x3e9, 0x3e9, -1), (0x3eb, 0x3eb, -1), (0x3ed, 0x3ed, -1), (0x3ef, 0x3ef, -1), (0x3f0, 0x3f0, -86), (0x3f1, 0x3f1, -80),
    (0x3f2, 0x3f2, -79), (0x430, 0x44f, -32), (0x450, 0x45f, -80), (0x461, 0x461, -1), (0x463, 0x463, -1), (0x465, 0x465, -1), (0x467, 0x467, -1), (0x469, 0x469, -1),
    (0x46b, 0x46b, -1), (0x46d, 0x46d, -1), (0x46f, 0x46f, -1), (0x471, 0x471, -1), (0x473, 0x473, -1), (0x475, 0x475, -1), (0x477, 0x477, -1), (0x479, 0x479, -1),
    (0x47b, 0x47b, -1), (0x47d, 0x47d, -1), (0x47f, 0x47f, -1), (0x481, 0x481, -1), (0x48d, 0x48d, -1), (0x48f, 0x48f, -1), (0x491, 0x491, -1), (0x493, 0x493, -1),
    (0x495, 0x495, -1), (0x497, 0x497, -1), (0x499, 0x499, -1), (0x49b, 0x49b, -1), (0x49d, 0x49d, -1), (0x49f, 0x49f, -1), (0x4a1, 0x4a1, -1), (0x4a3, 0x4a3, -1),
    (0x4a5, 0x4a5, -1), (0x4a7, 0x4a7, -1), (0x4a9, 0x4a9, -1), (0x4ab, 0x4ab, -1), (0x4ad, 0x4ad, -1), (0x4af, 0x4af, -1), (0x4b1, 0x4b1, -1), (0x4b3, 0x4b3, -1),
    (0x4b5, 0x4b5, -1), (0x4b7, 0x4b7, -1), (0x4b9, 0x4b9, -1), (0x4bb, 0x4bb, -1), (0x4bd, 0x4bd, -1), (0x4bf, 0x4bf, -1), (0x4c2, 0x4c2, -1), (0x4c4, 0x4c4, -1),
    (0x4c8, 0x4c8, -1), (0x4cc, 0x4cc, -1), (0x4d1, 0x4d1, -1), (0x4d3, 0x4d3, -1), (0x4d5, 0x4d5, -1), (0x4d7, 0x4d7, -1), (0x4d9, 0x4d9, -1), (0x4db, 0x4db, -1),
    (0x4dd, 0x4dd, -1), (0x4df, 0x4df, -1), (0x4e1, 0x4e1, -1), (0x4e3, 0x4e3, -1), (0x4e5, 0x4e5, -1), (0x4e7, 0x4e7, -1), (0x4e9, 0x4e9, -1), (0x4eb, 0x4eb, -1),
    (0x4ed, 0x4ed, -1), (0x4ef, 0x4ef, -1), (0x4f1, 0x4f1, -1), (0x4f3, 0x4f3, -1), (0x4f5, 0x4f5, -1), (0x4f9, 0x4f9, -1), (0x561, 0x586, -48), (0x1e01, 0x1e01, -1),
    (0x1e03, 0x1e03, -1), (0x1e05, 0x1e05, -1), (0x1e07, 0x1e07, -1), (0x1e09, 0x1e09, -1), (0x1e0b, 0x1e0b, -1), (0x1e0d, 0x1e0d, -1), (0x1e0f, 0x1e0f, -1), (0x1e11, 0x1e11, -1),
    (0x1e13, 0x1e13, -1), (0x1e15, 0x1e15, -1), (0x1e17, 0x1e17, -1), (0x1e19, 0x1e19, -1), (0x1e1b, 0x1e1b, -1), (0x1e1d, 0x1e1d, -1), (0x1e1f, 0x1e1f, -1), (0x1e21, 0x1e21, -1),
    (0x1e23, 0x1e23, -1), (0x1e25, 0x1e25, -1), (0x1e27, 0x1e27, -1), (0x1e29, 0x1e29, -1), (0x1e2b, 0x1e2b, -1), (0x1e2d, 0x1e2d, -1), (0x1e2f, 0x1e2f, -1), (0x1e31, 0x1e31, -1),
    (0x1e33, 0x1e33, -1), (0x1e35, 0x1e35, -1), (0x1e37, 0x1e37, -1), (0x1e39, 0x1e39, -1), (0x1e3b, 0x1e3b, -1), (0x1e3d, 0x1e3d, -1), (0x1e3f, 0x1e3f, -1), (0x1e41, 0x1e41, -1),
    (0x1e43, 0x1e43, -1), (0x1e45, 0x1e45, -1), (0x1e47, 0x1e47, -1), (0x1e49, 0x1e49, -1), (0x1e4b, 0x1e4b, -1), (0x1e4d, 0x1e4d, -1), (0x1e4f, 0x1e4f, -1), (0x1e51, 0x1e51, -1),
    (0x1e53, 0x1e53, -1), (0x1e55, 0x1e55, -1), (0x1e57, 0x1e57, -1), (0x1e59, 0x1e59, -1), (0x1e5b, 0x1e5b, -1), (0x1e5d, 0x1e5d, -1), (0x1e5f, 0x1e5f, -1), (0x1e61, 0x1e61, -1),
    (0x1e63, 0x1e63, -1), (0x1e65, 0x1e65, -1), (0x1e67, 0x1e67, -1), (0x1e69, 0x1e69, -1), (0x1e6b, 0x1e6b, -1), (0x1e6d, 0x1e6d, -1), (0x1e6f, 0x1e6f, -1), (0x1e71, 0x1e71, -1),
    (0x1e73, 0x1e73, -1), (0x1e75, 0x1e75, -1), (0x1e77, 0x1e77, -1), (0x1e79, 0x1e79, -1), (0x1e7b, 0x1e7b, -1), (0x1e7d, 0x1e7d, -1), (0x1e7f, 0x1e7f, -1), (0x1e81, 0x1e81, -1),
    (0x1e83, 0x1e83, -1), (0x1e85, 0x1e85, -1), (0x1e87, 0x1e87, -1), (0x1e89, 0x1e89, -1), (0x1e8b, 0x1e8b, -1), (0x1e8d, 0x1e8d, -1), (0x1e8f, 0x1e8f, -1), (0x1e91, 0x1e91, -1),
    (0x1e93, 0x1e93, -1), (0x1e95, 0x1e95, -1), (0x1e9b, 0x1e9b, -59), (0x1ea1, 0x1ea1, -1), (0x1ea3, 0x1ea3, -1), (0x1ea5, 0x1ea5, -1), (0x1ea7, 0x1ea7, -1), (0x1ea9, 0x1ea9, -1),
    (0x1eab, 0x1eab, -1), (0x1ead, 0x1ead, -1), (0x1eaf, 0x1eaf, -1), (0x1eb1, 0x1eb1, -1), (0x1eb3, 0x1eb3, -1), (0x1eb5, 0x1eb5, -1), (0x1eb7, 0x1eb7, -1), (0x1eb9, 0x1eb9, -1),
    (0x1ebb, 0x1ebb, -1), (0x1ebd, 0x1ebd, -1), (0x1ebf, 0x1ebf, -1), (0x1ec1, 0x1ec1, -1), (0x1ec3, 0x1ec3, -1), (0x1ec5, 0x1ec5, -1), (0x1ec7, 0x1ec7, -1), (0x1ec9, 0x1ec9, -1),
    (0x1ecb, 0x1ecb, -1), (0x1ecd, 0x1ecd, -1), (0x1ecf, 0x1ecf, -1), (0x1ed1, 0x1ed1, -1), (0x1ed3, 0x1ed3, -1), (0x1ed5, 0x1ed5, -1), (0x1ed7, 0x1ed7, -1), (0x1ed9, 0x1ed9, -1),
    (0x1edb, 0x1edb, -1), (0x1edd, 0x1edd, -1), (0x1edf, 0x1edf, -1), (0x1ee1, 0x1ee1, -1), (0x1ee3, 0x1ee3, -1), (0x1ee5, 0x1ee5, -1), (0x1ee7, 0x1ee7, -1), (0x1ee9, 0x1ee9, -1),
    (0x1eeb, 0x1eeb, -1), (0x1eed, 0x1eed, -1), (0x1eef, 0x1eef, -1), (0x1ef1, 0x1ef1, -1), (0x1ef3, 0x1ef3, -1), (0x1ef5, 0x1ef5, -1), (0x1ef7, 0x1ef7, -1), (0x1ef9, 0x1ef9, -1),
    (0x1f00, 0x1f07, 8), (0x1f10, 0x1f15, 8), (0x1f20, 0x1f27, 8), (0x1f30, 0x1f37, 8), (0x1f40, 0x1f45, 8), (0x1f51, 0x1f51, 8), (0x1f53, 0x1f53, 8), (0x1f55, 0x1f55, 8),
    (0x1f57, 0x1f57, 8), (0x1f60, 0x1f67, 8), (0x1f70, 0x1f71, 74), (0x1f72, 0x1f75, 86), (0x1f76, 0x1f77, 100), (0x1f78, 0x1f79, 128), (0x1f7a, 0x1f7b, 112), (0x1f7c, 0x1f7d, 126),
    (0x1f80, 0x1f87, 8), (0x1f90, 0x1f97, 8), (0x1fa0, 0x1fa7, 8), (0x1fb0, 0x1fb1, 8), (0x1fb3, 0x1fb3, 9), (0x1fbe, 0x1fbe, -7205), (0x1fc3, 0x1fc3, 9), (0x1fd0, 0x1fd1, 8),
    (0x1fe0, 0x1fe1, 8), (0x1fe5, 0x1fe5, 7), (0x1ff3, 0x1ff3, 9), (0x2170, 0x217f, -16), (0x24d0, 0x24e9, -26), (0xff41, 0xff5a, -32),
]
LOWER = [
    (0x41, 0x5a, 32), (0xc0, 0xd6, 32), (0xd8, 0xde, 32), (0x100, 0x100, 1), (0x102, 0x102, 1), (0x104, 0x104, 1), (0x106, 0x106, 1), (0x108, 0x108, 1),
    (0x10a, 0x10a, 1), (0x10c, 0x10c, 1), (0x10e, 0x10e, 1), (0x110, 0x110, 1), (0x112, 0x112, 1), (0x114, 0x114, 1), (0x116, 0x116, 1), (0x118, 0x118, 1),
    (0x11a, 0x11a, 1), (0x11c, 0x11c, 1), (0x11e, 0x11e, 1), (0x120, 0x120, 1), (0x122, 0x122, 1), (0x124, 0x124, 1), (0x126, 0x126, 1), (0x128, 0x128, 1),
    (0x12a, 0x12a, 1), (0x12c, 0x12c, 1), (0x12e, 0x12e, 1), (0x130, 0x130, -199), (0x132, 0x132, 1), (0x134, 0x134, 1), (0x136, 0x136, 1), (0x139, 0x139, 1),
    (0x13b, 0x13b, 1), (0x13d, 0x13d, 1), (0x13f, 0x13f, 1), (0x141, 0x141, 1), (0x143, 0x143, 1), (0x145, 0x145, 1), (0x147, 0x147, 1), (0x14a, 0x14a, 1),
    (0x14c, 0x14c, 1), (0x14e, 0x14e, 1), (0x150, 0x150, 1), (0x152, 0x152, 1), (0x154, 0x154, 1), (0x156, 0x156, 1), (0x158, 0x158, 1), (0x15a, 0x15a, 1),
    (0x15c, 0x15c, 1), (0x15e, 0x15e, 1), (0x160, 0x160, 1), (0x162, 0x162, 1), (0x164, 0x164, 1), (0x166, 0x166, 1), (0x168, 0x168, 1), (0x16a, 0x16a, 1),
    (0x16c, 0x16c, 1), (0x16e, 0x16e, 1), (0x170, 0x170, 1), (0x172, 0x172, 1), (0x174, 0x174, 1), (0x176, 0x176, 1), (0x178, 0x178, -121), (0x179, 0x179, 1),
    (0x17b, 0x17b, 1), (0x17d, 0x17d, 1), (0x181, 0x181, 210), (0x182, 0x182, 1), (0x184, 0x184, 1), (0x186, 0x186, 206), (0x187, 0x187, 1), (0x189, 0x18a, 205),
    (0x18b, 0x18b, 1), (0x18e, 0x18e, 79), (0x18f, 0x18f, 202), (0x190, 0x190, 203), (0x191, 0x191, 1), (0x193, 0x193, 205), (0x194, 0x194, 207), (0x196, 0x196, 211),
    (0x197, 0x197, 209), (0x198, 0x198, 1), (0x19c, 0x19c, 211), (0x19d, 0x19d, 213), (0x19f, 0x19f, 214), (0x1a0, 0x1a0, 1), (0x1a2, 0x1a2, 1), (0x1a4, 0x1a4, 1),
    (0x1a6, 0x1a6, 218), (0x1a7, 0x1a7, 1), (0x1a9, 0x1a9, 218), (0x1ac, 0x1ac, 1), (0x1ae, 0x1ae, 218), (0x1af, 0x1af, 1), (0x1b1, 0x1b2, 217), (0x1b3, 0x1b3, 1),
    (0x1b5, 0x1b5, 1), (0x1b7, 0x1b7, 219), (0x1b8, 0x1b8, 1), (0x1bc, 0x1bc, 1), (0x1c4, 0x1c4, 2), (0x1c5, 0x1c5, 1), (0x1c7, 0x1c7, 2), (0x1c8, 0x1c8, 1),
    (0x1ca, 0x1ca, 2), (0x1cb, 0x1cb, 1), (0x1cd, 0x1cd, 1), (0x1cf, 0x1cf, 1), (0x1d1, 0x1d1, 1), (0x1d3, 0x1d3, 1), (0x1d5, 0x1d5, 1), (0x1d7, 0x1d7, 1),
    (0x1d9, 0x1d9, 1), (0x1db, 0x1db, 1), (0x1de, 0x1de, 1), (0x1e0, 0x1e0, 1), (0x1e2, 0x1e2, 1), (0x1e4, 0x1e4, 1), (0x1e6, 0x1e6, 1), (0x1e8, 0x1e8, 1),
    (0x1ea, 0x1ea, 1), (0x1ec, 0x1ec, 1), (0x1ee, 0x1ee, 1), (0x1f1, 0x1f1, 2), (0x1f2, 0x1f2, 1), (0x1f4, 0x1f4, 1), (0x1f6, 0x1f6, -97), (0x1f7, 0x1f7, -56),
    (0x1f8, 0x1f8, 1), (0x1fa, 0x1fa, 1), (0x1fc, 0x1fc, 1), (0x1fe, 0x1fe, 1), (0x200, 0x200, 1), (0x202, 0x202, 1), (0x204, 0x204, 1), (0x206, 0x206, 1),
    (0x208, 0x208, 1), (0x20a, 0x20a, 1), (0x20c, 0x20c, 1), (0x20e, 0x20e, 1), (0x210, 0x210, 1), (0x212, 0x212, 1), (0x214, 0x214, 1), (0x216, 0x216, 1),
    (0x218, 0x218, 1), (0x21a, 0x21a, 1), (0x21c, 0x21c, 1), (0x21e, 0x21e, 1), (0x222, 0x222, 1), (0x224, 0x224, 1), (0x226, 0x226, 1), (0x228, 0x228, 1),
    (0x22a, 0x22a, 1), (0x22c, 0x22c, 1), (0x22e, 0x22e, 1), (0x230, 0x230, 1), (0x232, 0x232, 1), (0x386, 0x386, 38), (0x388, 0x38a, 37), (0x38c, 0x38c, 64),
    (0x38e, 0x38f, 63), (0x391, 0x3a1, 32), (0x3a3, 0x3ab, 32), (0x3da, 0x3da, 1), (0x3dc, 0x3dc, 1), (0x3de, 0x3de, 1), (0x3e0, 0x3e0, 1), (0x3e2, 0x3e2, 1),
    (0x3e4, 0x3e4, 1), (0x3e6, 0x3e6, 1), (0x3e8, 0x3e8, 1), (0x3ea, 0x3ea, 1), (0x3ec, 0x3ec, 1), (0x3ee, 0x3ee, 1), (0x400, 0x40f, 80), (0x410, 0x42f, 32),
    (0x460, 0x460, 1), (0x462, 0x462, 1), (0x464, 0x464, 1), (0x466, 0x466, 1), (0x468, 0x468, 1), (0x46a, 0x46a, 1), (0x46c, 0x46c, 1), (0x46e, 0x46e, 1),
    (0x470, 0x470, 1), (0x472, 0x472, 1), (0x474, 0x474, 1), (0x476, 0x476, 1), (0x478, 0x478, 1), (0x47a, 0x47a, 1), (0x47c, 0x47c, 1), (0x47e, 0x47e, 1),
    (0x480, 0x480, 1), (0x48c, 0x48c, 1), (0x48e, 0x48e, 1), (0x490, 0x490, 1), (0x492, 0x492, 1), (0x494, 0x494, 1), (0x496, 0x496, 1), (0x498, 0x498, 1),
    (0x49a, 0x49a, 1), (0x49c, 0x49c, 1), (0x49e, 0x49e, 1), (0x4a0, 0x4a0, 1), (0x4a2, 0x4a2, 1), (0x4a4, 0x4a4, 1), (0x4a6, 0x4a6, 1), (0x4a8, 0x4a8, 1),
    (0x4aa, 0x4aa, 1), (0x4ac, 0x4ac, 1), (0x4ae, 0x4ae, 1), (0x4b0, 0x4b0, 1), (0x4b2, 0x4b2, 1), (0x4b4, 0x4b4, 1), (0x4b6, 0x4b6, 1), (0x4b8, 0x4b8, 1),
    (0x4ba, 0x4ba, 1), (0x4bc, 0x4bc, 1), (0x4be, 0x4be, 1), (0x4c1, 0x4c1, 1), (0x4c3, 0x4c3, 1), (0x4c7, 0x4c7, 1), (0x4cb, 0x4cb, 1), (0x4d0, 0x4d0, 1),
    (0x4d2, 0x4d2, 1), (0x4d4, 0x4d4, 1), (0x4d6, 0x4d6, 1), (0x4d8, 0x4d8, 1), (0x4da, 0x4da, 1), (0x4dc, 0x4dc, 1), (0x4de, 0x4de, 1), (0x4e0, 0x4e0, 1),
    (0x4e2, 0x4e2, 1), (0x4e4, 0x4e4, 1), (0x4e6, 0x4e6, 1), (0x4e8, 0x4e8, 1), (0x4ea, 0x4ea, 1), (0x4ec, 0x4ec, 1), (0x4ee, 0x4ee, 1), (0x4f0, 0x4f0, 1),
    (0x4f2, 0x4f2, 1), (0x4f4, 0x4f4, 1), (0x4f8, 0x4f8, 1), (0x531, 0x556, 48), (0x1e00, 0x1e00, 1), (0x1e02, 0x1e02, 1), (0x1e04, 0x1e04, 1), (0x1e06, 0x1e06, 1),
    (0x1e08, 0x1e08, 1), (0x1e0a, 0x1e0a, 1), (0x1e0c, 0x1e0c, 1), (0x1e0e, 0x1e0e, 1), (0x1e10, 0x1e10, 1), (0x1e12, 0x1e12, 1), (0x1e14, 0x1e14, 1), (0x1e16, 0x1e16, 1),
    (0x1e18, 0x1e18, 1), (0x1e1a, 0x1e1a, 1), (0x1e1c, 0x1e1c, 1), (0x1e1e, 0x1e1e, 1), (0x1e20, 0x1e20, 1), (0x1e22, 0x1e22, 1), (0x1e24, 0x1e24, 1), (0x1e26, 0x1e26, 1),
    (0x1e28, 0x1e28, 1), (0x1e2a, 0x1e2a, 1), (0x1e2c, 0x1e2c, 1), (0x1e2e, 0x1e2e, 1), (0x1e30, 0x1e30, 1), (0x1e32, 0x1e32, 1), (0x1e34, 0x1e34, 1), (0x1e36, 0x1e36, 1),
    (0x1e38, 0x1e38, 1), (0x1e3a, 0x1e3a, 1), (0x1e3c, 0x1e3c, 1), (0x1e3e, 0x1e3e, 1), (0x1e40, 0x1e40, 1), (0x1e42, 0x1e42, 1), (0x1e44, 0x1e44, 1), (0x1e46, 0x1e46, 1),
    (0x1e48, 0x1e48, 1), (0x1e4a, 0x1e4a, 1), (0x1e4c, 0x1e4c, 1), (0x1e4e, 0x1e4e, 1), (0x1e50, 0x1e50, 1), (0x1e52, 0x1e52, 1), (0x1e54, 0x1e54, 1), (0x1e56, 0x1e56, 1),
    (0x1e58, 0x1e58, 1), (0x1e5a, 0x1e5a, 1), (0x1e5c, 0x1e5c, 1), (0x1e5e, 0x1e5e, 1), (0x1e60, 0x1e60, 1), (0x1e62, 0x1e62, 1), (0x1e64, 0x1e64, 1), (0x1e66, 0x1e66, 1),
    (0x1e68, 0x1e68, 1), (0x1e6a, 0x1e6a, 1), (0x1e6c, 0x1e6c, 1), (0x1e6e, 0x1e6e, 1), (0x1e70, 0x1e70, 1), (0x1e72, 0x1e72, 1), (0x1e74, 0x1e74, 1), (0x1e76, 0x1e76, 1),
    (0x1e78, 0x1e78, 1), (0x1e7a, 0x1e7a, 1), (0x1e7c, 0x1e7c, 1), (0x1e7e, 0x1e7e, 1), (0x1e80, 0x1e80, 1), (0x1e82, 0x1e82, 1), (0x1e84, 0x1e84, 1), (0x1e86, 0x1e86, 1),
    (0x1e88, 0x1e88, 1), (0x1e8a, 0x1e8a, 1), (0x1e8c, 0x1e8c, 1), (0x1e8e, 0x1e8e, 1), (0x1e90, 0x1e90, 1), (0x1e92, 0x1e92, 1), (0x1e94, 0x1e94, 1), (0x1ea0, 0x1ea0, 1),
    (0x1ea2, 0x1ea2, 1), (0x1ea4, 0x1ea4, 1), (0x1ea6, 0x1ea6, 1), (0x1ea8, 0x1ea8, 1), (0x1eaa, 0x1eaa, 1), (0x1eac, 0x1eac, 1), (0x1eae, 0x1eae, 1), (0x1eb0, 0x1eb0, 1),
    (0x1eb2, 0x1eb2, 1), (0x1eb4, 0x1eb4, 1), (0x1eb6, 0x1eb6, 1), (0x1eb8, 0x1eb8, 1), (0x1eba, 0x1eba, 1), (0x1ebc, 0x1ebc, 1), (0x1ebe, 0x1ebe, 1), (0x1ec0, 0x1ec0, 1),
    (0x1ec2, 0x1ec2, 1), (0x1ec4, 0x1ec4, 1), (0x1ec6, 0x1ec6, 1), (0x1ec8, 0x1ec8, 1), (0x1eca, 0x1eca, 1), (0x1ecc, 0x1ecc, 1), (0x1ece, 0x1ece, 1), (0x1ed0, 0x1ed0, 1),
    (0x1ed2, 0x1ed2, 1), (0x1ed4, 0x1ed4, 1), (0x1ed6, 0x1ed6, 1), (0x1ed8, 0x1ed8, 1), (0x1eda, 0x1eda, 1), (0x1edc, 0x1edc, 1), (0x1ede, 0x1ede, 1), (0x1ee0, 0x1ee0, 1),
    (0x1ee2, 0x1ee2, 1), (0x1ee4, 0x1ee4, 1), (0x1ee6, 0x1ee6, 1), (0x1ee8, 0x1ee8, 1), (0x1eea, 0x1eea, 1), (0x1eec, 0x1eec, 1), (0x1eee, 0x1eee, 1), (0x1ef0, 0x1ef0, 1),
    (0x1ef2, 0x1ef2, 1), (0x1ef4, 0x1ef4, 1), (0x1ef6, 0x1ef6, 1), (0x1ef8, 0x1ef8, 1), (0x1f08, 0x1f0f, -8), (0x1f18, 0x1f1d, -8), (0x1f28, 0x1f2f, -8), (0x1f38, 0x1f3f, -8),
    (0x1f48, 0x1f4d, -8), (0x1f59, 0x1f59, -8), (0x1f5b, 0x1f5b, -8), (0x1f5d, 0x1f5d, -8), (0x1f5f, 0x1f5f, -8), (0x1f68, 0x1f6f, -8), (0x1f88, 0x1f8f, -8), (0x1f98, 0x1f9f, -8),
    (0x1fa8, 0x1faf, -8), (0x1fb8, 0x1fb9, -8), (0x1fba, 0x1fbb, -74), (0x1fbc, 0x1fbc, -9), (0x1fc8, 0x1fcb, -86), (0x1fcc, 0x1fcc, -9), (0x1fd8, 0x1fd9, -8), (0x1fda, 0x1fdb, -100),
    (0x1fe8, 0x1fe9, -8), (0x1fea, 0x1feb, -112), (0x1fec, 0x1fec, -7), (0x1ff8, 0x1ff9, -128), (0x1ffa, 0x1ffb, -126), (0x1ffc, 0x1ffc, -9), (0x2126, 0x2126, -7517), (0x212a, 0x212a, -8383),
    (0x212b, 0x212b, -8262), (0x2160, 0x216f, 16), (0x24b6, 0x24cf, 26), (0xff21, 0xff3a, 32),
]
TITLE = [
    (0x1c4, 1), (0x1c5, 0), (0x1c6, -1), (0x1c7, 1), (0x1c8, 0), (0x1c9, -1), (0x1ca, 1), (0x1cb, 0), (0x1cc, -1), (0x1f1, 1), (0x1f2, 0), (0x1f3, -1),
]
NOCASE = [
    0xaa, 0xba, 0xdf, 0x138, 0x149, 0x180, 0x18d, 0x19a,
    0x19b, 0x19e, 0x1aa, 0x1ab, 0x1ba, 0x1be, 0x1f0, 0x250,
    0x251, 0x252, 0x255, 0x258, 0x25a, 0x25c, 0x25d, 0x25e,
    0x25f, 0x261, 0x262, 0x264, 0x265, 0x266, 0x267, 0x26a,
    0x26b, 0x26c, 0x26d, 0x26e, 0x270, 0x271, 0x273, 0x274,
    0x276, 0x277, 0x278, 0x279, 0x27a, 0x27b, 0x27c, 0x27d,
    0x27e, 0x27f, 0x281, 0x282, 0x284, 0x285, 0x286, 0x287,
    0x289, 0x28c, 0x28d, 0x28e, 0x28f, 0x290, 0x291, 0x293,
    0x294, 0x295, 0x296, 0x297, 0x298, 0x299, 0x29a, 0x29b,
    0x29c, 0x29d, 0x29e, 0x29f, 0x2a0, 0x2a1, 0x2a2, 0x2a3,
    0x2a4, 0x2a5, 0x2a6, 0x2a7, 0x2a8, 0x2a9, 0x2aa, 0x2ab,
    0x2ac, 0x2ad, 0x390, 0x3b0, 0x3d2, 0x3d3, 0x3d4, 0x3d7,
    0x3f3, 0x4c0, 0x587, 0x10a0, 0x10a1, 0x10a2, 0x10a3, 0x10a4,
    0x10a5, 0x10a6, 0x10a7, 0x10a8, 0x10a9, 0x10aa, 0x10ab, 0x10ac,
    0x10ad, 0x10ae, 0x10af, 0x10b0, 0x10b1, 0x10b2, 0x10b3, 0x10b4,
    0x10b5, 0x10b6, 0x10b7, 0x10b8, 0x10b9, 0x10ba, 0x10bb, 0x10bc,
    0x10bd, 0x10be, 0x10bf, 0x10c0, 0x10c1, 0x10c2, 0x10c3, 0x10c4,
    0x10c5, 0x1e96, 0x1e97, 0x1e98, 0x1e99, 0x1e9a, 0x1f50, 0x1f52,
    0x1f54, 0x1f56, 0x1fb2, 0x1fb4, 0x1fb6, 0x1fb7, 0x1fc2, 0x1fc4,
    0x1fc6, 0x1fc7, 0x1fd2, 0x1fd3, 0x1fd6, 0x1fd7, 0x1fe2, 0x1fe3,
    0x1fe4, 0x1fe6, 0x1fe7, 0x1ff2, 0x1ff4, 0x1ff6, 0x1ff7, 0x207f,
    0x2102, 0x2107, 0x210a, 0x210b, 0x210c, 0x210d, 0x210e, 0x210f,
    0x2110, 0x2111, 0x2112, 0x2113, 0x2115, 0x2119, 0x211a, 0x211b,
    0x211c, 0x211d, 0x2124, 0x2128, 0x212c, 0x212d, 0x212f, 0x2130,
    0x2131, 0x2133, 0x2134, 0x2139, 0xfb00, 0xfb01, 0xfb02, 0xfb03,
    0xfb04, 0xfb05, 0xfb06, 0xfb13, 0xfb14, 0xfb15, 0xfb16, 0xfb17,
]
