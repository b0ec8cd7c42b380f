// generated from contracts/c05_tables.py (same golden data, for the executable form of the contract)
static const int G_UPPER[][3] = {
{0x61,0x7A,-32}, {0xB5,0xB5,743}, {0xE0,0xF6,-32}, {0xF8,0xFE,-32}, {0xFF,0xFF,121}, {0x101,0x101,-1}, {0x103,0x103,-1}, {0x105,0x105,-1},
{0x107,0x107,-1}, {0x109,0x109,-1}, {0x10B,0x10B,-1}, {0x10D,0x10D,-1}, {0x10F,0x10F,-1}, {0x111,0x111,-1}, {0x113,0x113,-1}, {0x115,0x115,-1},
{0x117,0x117,-1}, {0x119,0x119,-1}, {0x11B,0x11B,-1}, {0x11D,0x11D,-1}, {0x11F,0x11F,-1}, {0x121,0x121,-1}, {0x123,0x123,-1}, {0x125,0x125,-1},
{0x127,0x127,-1}, {0x129,0x129,-1}, {0x12B,0x12B,-1}, {0x12D,0x12D,-1}, {0x12F,0x12F,-1}, {0x131,0x131,-232}, {0x133,0x133,-1}, {0x135,0x135,-1},
{0x137,0x137,-1}, {0x13A,0x13A,-1}, {0x13C,0x13C,-1}, {0x13E,0x13E,-1}, {0x140,0x140,-1}, {0x142,0x142,-1}, {0x144,0x144,-1}, {0x146,0x146,-1},
{0x148,0x148,-1}, {0x14B,0x14B,-1}, {0x14D,0x14D,-1}, {0x14F,0x14F,-1}, {0x151,0x151,-1}, {0x153,0x153,-1}, {0x155,0x155,-1}, {0x157,0x157,-1},
{0x159,0x159,-1}, {0x15B,0x15B,-1}, {0x15D,0x15D,-1}, {0x15F,0x15F,-1}, {0x161,0x161,-1}, {0x163,0x163,-1}, {0x165,0x165,-1}, {0x167,0x167,-1},
{0x169,0x169,-1}, {0x16B,0x16B,-1}, {0x16D,0x16D,-1}, {0x16F,0x16F,-1}, {0x171,0x171,-1}, {0x173,0x173,-1}, {0x175,0x175,-1}, {0x177,0x177,-1},
{0x17A,0x17A,-1}, {0x17C,0x17C,-1}, {0x17E,0x17E,-1}, {0x17F,0x17F,-300}, {0x183,0x183,-1}, {0x185,0x185,-1}, {0x188,0x188,-1}, {0x18C,0x18C,-1},
{0x192,0x192,-1}, {0x195,0x195,97}, {0x199,0x199,-1}, {0x1A1,0x1A1,-1}, {0x1A3,0x1A3,-1}, {0x1A5,0x1A5,-1}, {0x1A8,0x1A8,-1}, {0x1AD,0x1AD,-1},
{0x1B0,0x1B0,-1}, {0x1B4,0x1B4,-1}, {0x1B6,0x1B6,-1}, {0x1B9,0x1B9,-1}, {0x1BD,0x1BD,-1}, {0x1BF,0x1BF,56}, {0x1C5,0x1C5,-1}, {0x1C6,0x1C6,-2},
{0x1C8,0x1C8,-1}, {0x1C9,0x1C9,-2}, {0x1CB,0x1CB,-1}, {0x1CC,0x1CC,-2}, {0x1CE,0x1CE,-1}, {0x1D0,0x1D0,-1}, {0x1D2,0x1D2,-1}, {0x1D4,0x1D4,-1},
{0x1D6,0x1D6,-1}, {0x1D8,0x1D8,-1}, {0x1DA,0x1DA,-1}, {0x1DC,0x1DC,-1}, {0x1DD,0x1DD,-79}, {0x1DF,0x1DF,-1}, {0x1E1,0x1E1,-1}, {0x1E3,0x1E3,-1},
{0x1E5,0x1E5,-1}, {0x1E7,0x1E7,-1}, {0x1E9,0x1E9,-1}, {0x1EB,0x1EB,-1}, {0x1ED,0x1ED,-1}, {0x1EF,0x1EF,-1}, {0x1F2,0x1F2,-1}, {0x1F3,0x1F3,-2},
{0x1F5,0x1F5,-1}, {0x1F9,0x1F9,-1}, {0x1FB,0x1FB,-1}, {0x1FD,0x1FD,-1}, {0x1FF,0x1FF,-1}, {0x201,0x201,-1}, {0x203,0x203,-1}, {0x205,0x205,-1},
{0x207,0x207,-1}, {0x209,0x209,-1}, {0x20B,0x20B,-1}, {0x20D,0x20D,-1}, {0x20F,0x20F,-1}, {0x211,0x211,-1}, {0x213,0x213,-1}, {0x215,0x215,-1},
{0x217,0x217,-1}, {0x219,0x219,-1}, {0x21B,0x21B,-1}, {0x21D,0x21D,-1}, {0x21F,0x21F,-1}, {0x223,0x223,-1}, {0x225,0x225,-1}, {0x227,0x227,-1},
{0x229,0x229,-1}, {0x22B,0x22B,-1}, {0x22D,0x22D,-1}, {0x22F,0x22F,-1}, {0x231,0x231,-1}, {0x233,0x233,-1}, {0x253,0x253,-210}, {0x254,0x254,-206},
{0x256,0x257,-205}, {0x259,0x259,-202}, {0x25B,0x25B,-203}, {0x260,0x260,-205}, {0x263,0x263,-207}, {0x268,0x268,-209}, {0x269,0x269,-211}, {0x26F,0x26F,-211},
{0x272,0x272,-213}, {0x275,0x275,-214}, {0x280,0x280,-218}, {0x283,0x283,-218}, {0x288,0x288,-218}, {0x28A,0x28B,-217}, {0x292,0x292,-219}, {0x345,0x345,84},
{0x3AC,0x3AC,-38}, {0x3AD,0x3AF,-37}, {0x3B1,0x3C1,-32}, {0x3C2,0x3C2,-31}, {0x3C3,0x3CB,-32}, {0x3CC,0x3CC,-64}, {0x3CD,0x3CE,-63}, {0x3D0,0x3D0,-62},
{0x3D1,0x3D1,-57}, {0x3D5,0x3D5,-47}, {0x3D6,0x3D6,-54}, {0x3DB,0x3DB,-1}, {0x3DD,0x3DD,-1}, {0x3DF,0x3DF,-1}, {0x3E1,0x3E1,-1}, {0x3E3,0x3E3,-1},
{0x3E5,0x3E5,-1}, {0x3E7,0x3E7,-1}, {0x3E9,0x3E9,-1}, {0x3EB,0x3EB,-1}, {0x3ED,0x3ED,-1}, {0x3EF,0x3EF,-1}, {0x3F0,0x3F0,-86}, {0x3F1,0x3F1,-80},
{0x3F2,0x3F2,-79}, {0x430,0x44F,-32}, {0x450,0x45F,-80}, {0x461,0x461,-1}, {0x463,0x463,-1}, {0x465,0x465,-1}, {0x467,0x467,-1}, {0x469,0x469,-1},
{0x46B,0x46B,-1}, {0x46D,0x46D,-1}, {0x46F,0x46F,-1}, {0x471,0x471,-1}, {0x473,0x473,-1}, {0x475,0x475,-1}, {0x477,0x477,-1}, {0x479,0x479,-1},
{0x47B,0x47B,-1}, {0x47D,0x47D,-1}, {0x47F,0x47F,-1}, {0x481,0x481,-1}, {0x48D,0x48D,-1}, {0x48F,0x48F,-1}, {0x491,0x491,-1}, {0x493,0x493,-1},
{0x495,0x495,-1}, {0x497,0x497,-1}, {0x499,0x499,-1}, {0x49B,0x49B,-1}, {0x49D,0x49D,-1}, {0x49F,0x49F,-1}, {0x4A1,0x4A1,-1}, {0x4A3,0x4A3,-1},
{0x4A5,0x4A5,-1}, {0x4A7,0x4A7,-1}, {0x4A9,0x4A9,-1}, {0x4AB,0x4AB,-1}, {0x4AD,0x4AD,-1}, {0x4AF,0x4AF,-1}, {0x4B1,0x4B1,-1}, {0x4B3,0x4B3,-1},
{0x4B5,0x4B5,-1}, {0x4B7,0x4B7,-1}, {0x4B9,0x4B9,-1}, {0x4BB,0x4BB,-1}, {0x4BD,0x4BD,-1}, {0x4BF,0x4BF,-1}, {0x4C2,0x4C2,-1}, {0x4C4,0x4C4,-1},
{0x4C8,0x4C8,-1}, {0x4CC,0x4CC,-1}, {0x4D1,0x4D1,-1}, {0x4D3,0x4D3,-1}, {0x4D5,0x4D5,-1}, {0x4D7,0x4D7,-1}, {0x4D9,0x4D9,-1}, {0x4DB,0x4DB,-1},
{0x4DD,0x4DD,-1}, {0x4DF,0x4DF,-1}, {0x4E1,0x4E1,-1}, {0x4E3,0x4E3,-1}, {0x4E5,0x4E5,-1}, {0x4E7,0x4E7,-1}, {0x4E9,0x4E9,-1}, {0x4EB,0x4EB,-1},
{0x4ED,0x4ED,-1}, {0x4EF,0x4EF,-1}, {0x4F1,0x4F1,-1}, {0x4F3,0x4F3,-1}, {0x4F5,0x4F5,-1}, {0x4F9,0x4F9,-1}, {0x561,0x586,-48}, {0x1E01,0x1E01,-1},
{0x1E03,0x1E03,-1}, {0x1E05,0x1E05,-1}, {0x1E07,0x1E07,-1}, {0x1E09,0x1E09,-1}, {0x1E0B,0x1E0B,-1}, {0x1E0D,0x1E0D,-1}, {0x1E0F,0x1E0F,-1}, {0x1E11,0x1E11,-1},
{0x1E13,0x1E13,-1}, {0x1E15,0x1E15,-1}, {0x1E17,0x1E17,-1}, {0x1E19,0x1E19,-1}, {0x1E1B,0x1E1B,-1}, {0x1E1D,0x1E1D,-1}, {0x1E1F,0x1E1F,-1}, {0x1E21,0x1E21,-1},
{0x1E23,0x1E23,-1}, {0x1E25,0x1E25,-1}, {0x1E27,0x1E27,-1}, {0x1E29,0x1E29,-1}, {0x1E2B,0x1E2B,-1}, {0x1E2D,0x1E2D,-1}, {0x1E2F,0x1E2F,-1}, {0x1E31,0x1E31,-1},
{0x1E33,0x1E33,-1}, {0x1E35,0x1E35,-1}, {0x1E37,0x1E37,-1}, {0x1E39,0x1E39,-1}, {0x1E3B,0x1E3B,-1}, {0x1E3D,0x1E3D,-1}, {0x1E3F,0x1E3F,-1}, {0x1E41,0x1E41,-1},
{0x1E43,0x1E43,-1}, {0x1E45,0x1E45,-1}, {0x1E47,0x1E47,-1}, {0x1E49,0x1E49,-1}, {0x1E4B,0x1E4B,-1}, {0x1E4D,0x1E4D,-1}, {0x1E4F,0x1E4F,-1}, {0x1E51,0x1E51,-1},
{0x1E53,0x1E53,-1}, {0x1E55,0x1E55,-1}, {0x1E57,0x1E57,-1}, {0x1E59,0x1E59,-1}, {0x1E5B,0x1E5B,-1}, {0x1E5D,0x1E5D,-1}, {0x1E5F,0x1E5F,-1}, {0x1E61,0x1E61,-1},
{0x1E63,0x1E63,-1}, {0x1E65,0x1E65,-1}, {0x1E67,0x1E67,-1}, {0x1E69,0x1E69,-1}, {0x1E6B,0x1E6B,-1}, {0x1E6D,0x1E6D,-1}, {0x1E6F,0x1E6F,-1}, {0x1E71,0x1E71,-1},
{0x1E73,0x1E73,-1}, {0x1E75,0x1E75,-1}, {0x1E77,0x1E77,-1}, {0x1E79,0x1E79,-1}, {0x1E7B,0x1E7B,-1}, {0x1E7D,0x1E7D,-1}, {0x1E7F,0x1E7F,-1}, {0x1E81,0x1E81,-1},
{0x1E83,0x1E83,-1}, {0x1E85,0x1E85,-1}, {0x1E87,0x1E87,-1}, {0x1E89,0x1E89,-1}, {0x1E8B,0x1E8B,-1}, {0x1E8D,0x1E8D,-1}, {0x1E8F,0x1E8F,-1}, {0x1E91,0x1E91,-1},
{0x1E93,0x1E93,-1}, {0x1E95,0x1E95,-1}, {0x1E9B,0x1E9B,-59}, {0x1EA1,0x1EA1,-1}, {0x1EA3,0x1EA3,-1}, {0x1EA5,0x1EA5,-1}, {0x1EA7,0x1EA7,-1}, {0x1EA9,0x1EA9,-1},
{0x1EAB,0x1EAB,-1}, {0x1EAD,0x1EAD,-1}, {0x1EAF,0x1EAF,-1}, {0x1EB1,0x1EB1,-1}, {0x1EB3,0x1EB3,-1}, {0x1EB5,0x1EB5,-1}, {0x1EB7,0x1EB7,-1}, {0x1EB9,0x1EB9,-1},
{0x1EBB,0x1EBB,-1}, {0x1EBD,0x1EBD,-1}, {0x1EBF,0x1EBF,-1}, {0x1EC1,0x1EC1,-1}, {0x1EC3,0x1EC3,-1}, {0x1EC5,0x1EC5,-1}, {0x1EC7,0x1EC7,-1}, {0x1EC9,0x1EC9,-1},
{0x1ECB,0x1ECB,-1}, {0x1ECD,0x1ECD,-1}, {0x1ECF,0x1ECF,-1}, {0x1ED1,0x1ED1,-1}, {0x1ED3,0x1ED3,-1}, {0x1ED5,0x1ED5,-1}, {0x1ED7,0x1ED7,-1}, {0x1ED9,0x1ED9,-1},
{0x1EDB,0x1EDB,-1}, {0x1EDD,0x1EDD,-1}, {0x1EDF,0x1EDF,-1}, {0x1EE1,0x1EE1,-1}, {0x1EE3,0x1EE3,-1}, {0x1EE5,0x1EE5,-1}, {0x1EE7,0x1EE7,-1}, {0x1EE9,0x1EE9,-1},
{0x1EEB,0x1EEB,-1}, {0x1EED,0x1EED,-1}, {0x1EEF,0x1EEF,-1}, {0x1EF1,0x1EF1,-1}, {0x1EF3,0x1EF3,-1}, {0x1EF5,0x1EF5,-1}, {0x1EF7,0x1EF7,-1}, {0x1EF9,0x1EF9,-1},
{0x1F00,0x1F07,8}, {0x1F10,0x1F15,8}, {0x1F20,0x1F27,8}, {0x1F30,0x1F37,8}, {0x1F40,0x1F45,8}, {0x1F51,0x1F51,8}, {0x1F53,0x1F53,8}, {0x1F55,0x1F55,8},
{0x1F57,0x1F57,8}, {0x1F60,0x1F67,8}, {0x1F70,0x1F71,74}, {0x1F72,0x1F75,86}, {0x1F76,0x1F77,100}, {0x1F78,0x1F79,128}, {0x1F7A,0x1F7B,112}, {0x1F7C,0x1F7D,126},
{0x1F80,0x1F87,8}, {0x1F90,0x1F97,8}, {0x1FA0,0x1FA7,8}, {0x1FB0,0x1FB1,8}, {0x1FB3,0x1FB3,9}, {0x1FBE,0x1FBE,-7205}, {0x1FC3,0x1FC3,9}, {0x1FD0,0x1FD1,8},
{0x1FE0,0x1FE1,8}, {0x1FE5,0x1FE5,7}, {0x1FF3,0x1FF3,9}, {0x2170,0x217F,-16}, {0x24D0,0x24E9,-26}, {0xFF41,0xFF5A,-32}};
static const int G_LOWER[][3] = {
{0x41,0x5A,32}, {0xC0,0xD6,32}, {0xD8,0xDE,32}, {0x100,0x100,1}, {0x102,0x102,1}, {0x104,0x104,1}, {0x106,0x106,1}, {0x108,0x108,1},
{0x10A,0x10A,1}, {0x10C,0x10C,1}, {0x10E,0x10E,1}, {0x110,0x110,1}, {0x112,0x112,1}, {0x114,0x114,1}, {0x116,0x116,1}, {0x118,0x118,1},
{0x11A,0x11A,1}, {0x11C,0x11C,1}, {0x11E,0x11E,1}, {0x120,0x120,1}, {0x122,0x122,1}, {0x124,0x124,1}, {0x126,0x126,1}, {0x128,0x128,1},
{0x12A,0x12A,1}, {0x12C,0x12C,1}, {0x12E,0x12E,1}, {0x130,0x130,-199}, {0x132,0x132,1}, {0x134,0x134,1}, {0x136,0x136,1}, {0x139,0x139,1},
{0x13B,0x13B,1}, {0x13D,0x13D,1}, {0x13F,0x13F,1}, {0x141,0x141,1}, {0x143,0x143,1}, {0x145,0x145,1}, {0x147,0x147,1}, {0x14A,0x14A,1},
{0x14C,0x14C,1}, {0x14E,0x14E,1}, {0x150,0x150,1}, {0x152,0x152,1}, {0x154,0x154,1}, {0x156,0x156,1}, {0x158,0x158,1}, {0x15A,0x15A,1},
{0x15C,0x15C,1}, {0x15E,0x15E,1}, {0x160,0x160,1}, {0x162,0x162,1}, {0x164,0x164,1}, {0x166,0x166,1}, {0x168,0x168,1}, {0x16A,0x16A,1},
{0x16C,0x16C,1}, {0x16E,0x16E,1}, {0x170,0x170,1}, {0x172,0x172,1}, {0x174,0x174,1}, {0x176,0x176,1}, {0x178,0x178,-121}, {0x179,0x179,1},
{0x17B,0x17B,1}, {0x17D,0x17D,1}, {0x181,0x181,210}, {0x182,0x182,1}, {0x184,0x184,1}, {0x186,0x186,206}, {0x187,0x187,1}, {0x189,0x18A,205},
{0x18B,0x18B,1}, {0x18E,0x18E,79}, {0x18F,0x18F,202}, {0x190,0x190,203}, {0x191,0x191,1}, {0x193,0x193,205}, {0x194,0x194,207}, {0x196,0x196,211},
{0x197,0x197,209}, {0x198,0x198,1}, {0x19C,0x19C,211}, {0x19D,0x19D,213}, {0x19F,0x19F,214}, {0x1A0,0x1A0,1}, {0x1A2,0x1A2,1}, {0x1A4,0x1A4,1},
{0x1A6,0x1A6,218}, {0x1A7,0x1A7,1}, {0x1A9,0x1A9,218}, {0x1AC,0x1AC,1}, {0x1AE,0x1AE,218}, {0x1AF,0x1AF,1}, {0x1B1,0x1B2,217}, {0x1B3,0x1B3,1},
{0x1B5,0x1B5,1}, {0x1B7,0x1B7,219}, {0x1B8,0x1B8,1}, {0x1BC,0x1BC,1}, {0x1C4,0x1C4,2}, {0x1C5,0x1C5,1}, {0x1C7,0x1C7,2}, {0x1C8,0x1C8,1},
{0x1CA,0x1CA,2}, {0x1CB,0x1CB,1}, {0x1CD,0x1CD,1}, {0x1CF,0x1CF,1}, {0x1D1,0x1D1,1}, {0x1D3,0x1D3,1}, {0x1D5,0x1D5,1}, {0x1D7,0x1D7,1},
{0x1D9,0x1D9,1}, {0x1DB,0x1DB,1}, {0x1DE,0x1DE,1}, {0x1E0,0x1E0,1}, {0x1E2,0x1E2,1}, {0x1E4,0x1E4,1}, {0x1E6,0x1E6,1}, {0x1E8,0x1E8,1},
{0x1EA,0x1EA,1}, {0x1EC,0x1EC,1}, {0x1EE,0x1EE,1}, {0x1F1,0x1F1,2}, {0x1F2,0x1F2,1}, {0x1F4,0x1F4,1}, {0x1F6,0x1F6,-97}, {0x1F7,0x1F7,-56},
{0x1F8,0x1F8,1}, {0x1FA,0x1FA,1}, {0x1FC,0x1FC,1}, {0x1FE,0x1FE,1}, {0x200,0x200,1}, {0x202,0x202,1}, {0x204,0x204,1}, {0x206,0x206,1},
{0x208,0x208,1}, {0x20A,0x20A,1}, {0x20C,0x20C,1}, {0x20E,0x20E,1}, {0x210,0x210,1}, {0x212,0x212,1}, {0x214,0x214,1}, {0x216,0x216,1},
{0x218,0x218,1}, {0x21A,0x21A,1}, {0x21C,0x21C,1}, {0x21E,0x21E,1}, {0x222,0x222,1}, {0x224,0x224,1}, {0x226,0x226,1}, {0x228,0x228,1},
{0x22A,0x22A,1}, {0x22C,0x22C,1}, {0x22E,0x22E,1}, {0x230,0x230,1}, {0x232,0x232,1}, {0x386,0x386,38}, {0x388,0x38A,37}, {0x38C,0x38C,64},
{0x38E,0x38F,63}, {0x391,0x3A1,32}, {0x3A3,0x3AB,32}, {0x3DA,0x3DA,1}, {0x3DC,0x3DC,1}, {0x3DE,0x3DE,1}, {0x3E0,0x3E0,1}, {0x3E2,0x3E2,1},
{0x3E4,0x3E4,1}, {0x3E6,0x3E6,1}, {0x3E8,0x3E8,1}, {0x3EA,0x3EA,1}, {0x3EC,0x3EC,1}, {0x3EE,0x3EE,1}, {0x400,0x40F,80}, {0x410,0x42F,32},
{0x460,0x460,1}, {0x462,0x462,1}, {0x464,0x464,1}, {0x466,0x466,1}, {0x468,0x468,1}, {0x46A,0x46A,1}, {0x46C,0x46C,1}, {0x46E,0x46E,1},
{0x470,0x470,1}, {0x472,0x472,1}, {0x474,0x474,1}, {0x476,0x476,1}, {0x478,0x478,1}, {0x47A,0x47A,1}, {0x47C,0x47C,1}, {0x47E,0x47E,1},
{0x480,0x480,1}, {0x48C,0x48C,1}, {0x48E,0x48E,1}, {0x490,0x490,1}, {0x492,0x492,1}, {0x494,0x494,1}, {0x496,0x496,1}, {0x498,0x498,1},
{0x49A,0x49A,1}, {0x49C,0x49C,1}, {0x49E,0x49E,1}, {0x4A0,0x4A0,1}, {0x4A2,0x4A2,1}, {0x4A4,0x4A4,1}, {0x4A6,0x4A6,1}, {0x4A8,0x4A8,1},
{0x4AA,0x4AA,1}, {0x4AC,0x4AC,1}, {0x4AE,0x4AE,1}, {0x4B0,0x4B0,1}, {0x4B2,0x4B2,1}, {0x4B4,0x4B4,1}, {0x4B6,0x4B6,1}, {0x4B8,0x4B8,1},
{0x4BA,0x4BA,1}, {0x4BC,0x4BC,1}, {0x4BE,0x4BE,1}, {0x4C1,0x4C1,1}, {0x4C3,0x4C3,1}, {0x4C7,0x4C7,1}, {0x4CB,0x4CB,1}, {0x4D0,0x4D0,1},
{0x4D2,0x4D2,1}, {0x4D4,0x4D4,1}, {0x4D6,0x4D6,1}, {0x4D8,0x4D8,1}, {0x4DA,0x4DA,1}, {0x4DC,0x4DC,1}, {0x4DE,0x4DE,1}, {0x4E0,0x4E0,1},
{0x4E2,0x4E2,1}, {0x4E4,0x4E4,1}, {0x4E6,0x4E6,1}, {0x4E8,0x4E8,1}, {0x4EA,0x4EA,1}, {0x4EC,0x4EC,1}, {0x4EE,0x4EE,1}, {0x4F0,0x4F0,1},
{0x4F2,0x4F2,1}, {0x4F4,0x4F4,1}, {0x4F8,0x4F8,1}, {0x531,0x556,48}, {0x1E00,0x1E00,1}, {0x1E02,0x1E02,1}, {0x1E04,0x1E04,1}, {0x1E06,0x1E06,1},
{0x1E08,0x1E08,1}, {0x1E0A,0x1E0A,1}, {0x1E0C,0x1E0C,1}, {0x1E0E,0x1E0E,1}, {0x1E10,0x1E10,1}, {0x1E12,0x1E12,1}, {0x1E14,0x1E14,1}, {0x1E16,0x1E16,1},
{0x1E18,0x1E18,1}, {0x1E1A,0x1E1A,1}, {0x1E1C,0x1E1C,1}, {0x1E1E,0x1E1E,1}, {0x1E20,0x1E20,1}, {0x1E22,0x1E22,1}, {0x1E24,0x1E24,1}, {0x1E26,0x1E26,1},
{0x1E28,0x1E28,1}, {0x1E2A,0x1E2A,1}, {0x1E2C,0x1E2C,1}, {0x1E2E,0x1E2E,1}, {0x1E30,0x1E30,1}, {0x1E32,0x1E32,1}, {0x1E34,0x1E34,1}, {0x1E36,0x1E36,1},
{0x1E38,0x1E38,1}, {0x1E3A,0x1E3A,1}, {0x1E3C,0x1E3C,1}, {0x1E3E,0x1E3E,1}, {0x1E40,0x1E40,1}, {0x1E42,0x1E42,1}, {0x1E44,0x1E44,1}, {0x1E46,0x1E46,1},
{0x1E48,0x1E48,1}, {0x1E4A,0x1E4A,1}, {0x1E4C,0x1E4C,1}, {0x1E4E,0x1E4E,1}, {0x1E50,0x1E50,1}, {0x1E52,0x1E52,1}, {0x1E54,0x1E54,1}, {0x1E56,0x1E56,1},
{0x1E58,0x1E58,1}, {0x1E5A,0x1E5A,1}, {0x1E5C,0x1E5C,1}, {0x1E5E,0x1E5E,1}, {0x1E60,0x1E60,1}, {0x1E62,0x1E62,1}, {0x1E64,0x1E64,1}, {0x1E66,0x1E66,1},
{0x1E68,0x1E68,1}, {0x1E6A,0x1E6A,1}, {0x1E6C,0x1E6C,1}, {0x1E6E,0x1E6E,1}, {0x1E70,0x1E70,1}, {0x1E72,0x1E72,1}, {0x1E74,0x1E74,1}, {0x1E76,0x1E76,1},
{0x1E78,0x1E78,1}, {0x1E7A,0x1E7A,1}, {0x1E7C,0x1E7C,1}, {0x1E7E,0x1E7E,1}, {0x1E80,0x1E80,1}, {0x1E82,0x1E82,1}, {0x1E84,0x1E84,1}, {0x1E86,0x1E86,1},
{0x1E88,0x1E88,1}, {0x1E8A,0x1E8A,1}, {0x1E8C,0x1E8C,1}, {0x1E8E,0x1E8E,1}, {0x1E90,0x1E90,1}, {0x1E92,0x1E92,1}, {0x1E94,0x1E94,1}, {0x1EA0,0x1EA0,1},
{0x1EA2,0x1EA2,1}, {0x1EA4,0x1EA4,1}, {0x1EA6,0x1EA6,1}, {0x1EA8,0x1EA8,1}, {0x1EAA,0x1EAA,1}, {0x1EAC,0x1EAC,1}, {0x1EAE,0x1EAE,1}, {0x1EB0,0x1EB0,1},
{0x1EB2,0x1EB2,1}, {0x1EB4,0x1EB4,1}, {0x1EB6,0x1EB6,1}, {0x1EB8,0x1EB8,1}, {0x1EBA,0x1EBA,1}, {0x1EBC,0x1EBC,1}, {0x1EBE,0x1EBE,1}, {0x1EC0,0x1EC0,1},
{0x1EC2,0x1EC2,1}, {0x1EC4,0x1EC4,1}, {0x1EC6,0x1EC6,1}, {0x1EC8,0x1EC8,1}, {0x1ECA,0x1ECA,1}, {0x1ECC,0x1ECC,1}, {0x1ECE,0x1ECE,1}, {0x1ED0,0x1ED0,1},
{0x1ED2,0x1ED2,1}, {0x1ED4,0x1ED4,1}, {0x1ED6,0x1ED6,1}, {0x1ED8,0x1ED8,1}, {0x1EDA,0x1EDA,1}, {0x1EDC,0x1EDC,1}, {0x1EDE,0x1EDE,1}, {0x1EE0,0x1EE0,1},
{0x1EE2,0x1EE2,1}, {0x1EE4,0x1EE4,1}, {0x1EE6,0x1EE6,1}, {0x1EE8,0x1EE8,1}, {0x1EEA,0x1EEA,1}, {0x1EEC,0x1EEC,1}, {0x1EEE,0x1EEE,1}, {0x1EF0,0x1EF0,1},
{0x1EF2,0x1EF2,1}, {0x1EF4,0x1EF4,1}, {0x1EF6,0x1EF6,1}, {0x1EF8,0x1EF8,1}, {0x1F08,0x1F0F,-8}, {0x1F18,0x1F1D,-8}, {0x1F28,0x1F2F,-8}, {0x1F38,0x1F3F,-8},
{0x1F48,0x1F4D,-8}, {0x1F59,0x1F59,-8}, {0x1F5B,0x1F5B,-8}, {0x1F5D,0x1F5D,-8}, {0x1F5F,0x1F5F,-8}, {0x1F68,0x1F6F,-8}, {0x1F88,0x1F8F,-8}, {0x1F98,0x1F9F,-8},
{0x1FA8,0x1FAF,-8}, {0x1FB8,0x1FB9,-8}, {0x1FBA,0x1FBB,-74}, {0x1FBC,0x1FBC,-9}, {0x1FC8,0x1FCB,-86}, {0x1FCC,0x1FCC,-9}, {0x1FD8,0x1FD9,-8}, {0x1FDA,0x1FDB,-100},
{0x1FE8,0x1FE9,-8}, {0x1FEA,0x1FEB,-112}, {0x1FEC,0x1FEC,-7}, {0x1FF8,0x1FF9,-128}, {0x1FFA,0x1FFB,-126}, {0x1FFC,0x1FFC,-9}, {0x2126,0x2126,-7517}, {0x212A,0x212A,-8383},
{0x212B,0x212B,-8262}, {0x2160,0x216F,16}, {0x24B6,0x24CF,26}, {0xFF21,0xFF3A,32}};
static const int G_TITLE[][2] = {{0x1C4,1}, {0x1C5,0}, {0x1C6,-1}, {0x1C7,1}, {0x1C8,0}, {0x1C9,-1}, {0x1CA,1}, {0x1CB,0}, {0x1CC,-1}, {0x1F1,1}, {0x1F2,0}, {0x1F3,-1}};
static const int G_NOCASE[] = {
0xAA, 0xBA, 0xDF, 0x138, 0x149, 0x180, 0x18D, 0x19A, 0x19B, 0x19E, 0x1AA, 0x1AB, 0x1BA, 0x1BE, 0x1F0, 0x250,
0x251, 0x252, 0x255, 0x258, 0x25A, 0x25C, 0x25D, 0x25E, 0x25F, 0x261, 0x262, 0x264, 0x265, 0x266, 0x267, 0x26A,
0x26B, 0x26C, 0x26D, 0x26E, 0x270, 0x271, 0x273, 0x274, 0x276, 0x277, 0x278, 0x279, 0x27A, 0x27B, 0x27C, 0x27D,
0x27E, 0x27F, 0x281, 0x282, 0x284, 0x285, 0x286, 0x287, 0x289, 0x28C, 0x28D, 0x28E, 0x28F, 0x290, 0x291, 0x293,
0x294, 0x295, 0x296, 0x297, 0x298, 0x299, 0x29A, 0x29B, 0x29C, 0x29D, 0x29E, 0x29F, 0x2A0, 0x2A1, 0x2A2, 0x2A3,
0x2A4, 0x2A5, 0x2A6, 0x2A7, 0x2A8, 0x2A9, 0x2AA, 0x2AB, 0x2AC, 0x2AD, 0x390, 0x3B0, 0x3D2, 0x3D3, 0x3D4, 0x3D7,
0x3F3, 0x4C0, 0x587, 0x10A0, 0x10A1, 0x10A2, 0x10A3, 0x10A4, 0x10A5, 0x10A6, 0x10A7, 0x10A8, 0x10A9, 0x10AA, 0x10AB, 0x10AC,
0x10AD, 0x10AE, 0x10AF, 0x10B0, 0x10B1, 0x10B2, 0x10B3, 0x10B4, 0x10B5, 0x10B6, 0x10B7, 0x10B8, 0x10B9, 0x10BA, 0x10BB, 0x10BC,
0x10BD, 0x10BE, 0x10BF, 0x10C0, 0x10C1, 0x10C2, 0x10C3, 0x10C4, 0x10C5, 0x1E96, 0x1E97, 0x1E98, 0x1E99, 0x1E9A, 0x1F50, 0x1F52,
0x1F54, 0x1F56, 0x1FB2, 0x1FB4, 0x1FB6, 0x1FB7, 0x1FC2, 0x1FC4, 0x1FC6, 0x1FC7, 0x1FD2, 0x1FD3, 0x1FD6, 0x1FD7, 0x1FE2, 0x1FE3,
0x1FE4, 0x1FE6, 0x1FE7, 0x1FF2, 0x1FF4, 0x1FF6, 0x1FF7, 0x207F, 0x2102, 0x2107, 0x210A, 0x210B, 0x210C, 0x210D, 0x210E, 0x210F,
0x2110, 0x2111, 0x2112, 0x2113, 0x2115, 0x2119, 0x211A, 0x211B, 0x211C, 0x211D, 0x2124, 0x2128, 0x212C, 0x212D, 0x212F, 0x2130,
0x2131, 0x2133, 0x2134, 0x2139, 0xFB00, 0xFB01, 0xFB02, 0xFB03, 0xFB04, 0xFB05, 0xFB06, 0xFB13, 0xFB14, 0xFB15, 0xFB16, 0xFB17};
