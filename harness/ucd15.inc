{0x0,25,0,0},
{0x9,25,1,0},
{0xE,25,0,0},
{0x20,22,1,0},
{0x21,17,0,0},
{0x24,19,0,0},
{0x25,17,0,0},
{0x28,13,0,0},
{0x29,14,0,0},
{0x2A,17,0,0},
{0x2B,18,0,0},
{0x2C,17,0,0},
{0x2D,12,0,0},
{0x2E,17,0,0},
{0x30,8,32,0},
{0x3A,17,0,0},
{0x3C,18,0,0},
{0x3F,17,0,0},
{0x41,0,60,32},
{0x5B,13,0,0},
{0x5C,17,0,0},
{0x5D,14,0,0},
{0x5E,20,0,0},
{0x5F,11,32,0},
{0x60,20,0,0},
{0x61,1,58,0},
{0x7B,13,0,0},
{0x7C,18,0,0},
{0x7D,14,0,0},
{0x7E,18,0,0},
{0x7F,25,0,0},
{0x85,25,1,0},
{0x86,25,0,0},
{0xA0,22,1,0},
{0xA1,17,0,0},
{0xA2,19,0,0},
{0xA6,21,0,0},
{0xA7,17,0,0},
{0xA8,20,0,0},
{0xA9,21,0,0},
{0xAA,4,58,0},
{0xAB,15,0,0},
{0xAC,18,0,0},
{0xAD,26,0,0},
{0xAE,21,0,0},
{0xAF,20,0,0},
{0xB0,21,0,0},
{0xB1,18,0,0},
{0xB2,10,0,0},
{0xB4,20,0,0},
{0xB5,1,58,775},
{0xB6,17,0,0},
{0xB7,17,32,0},
{0xB8,20,0,0},
{0xB9,10,0,0},
{0xBA,4,58,0},
{0xBB,16,0,0},
{0xBC,10,0,0},
{0xBF,17,0,0},
{0xC0,0,60,32},
{0xD7,18,0,0},
{0xD8,0,60,32},
{0xDF,1,58,0},
{0xF7,18,0,0},
{0xF8,1,58,0},
{0x100,0,60,1},
{0x101,1,58,0},
{0x102,0,60,1},
{0x103,1,58,0},
{0x104,0,60,1},
{0x105,1,58,0},
{0x106,0,60,1},
{0x107,1,58,0},
{0x108,0,60,1},
{0x109,1,58,0},
{0x10A,0,60,1},
{0x10B,1,58,0},
{0x10C,0,60,1},
{0x10D,1,58,0},
{0x10E,0,60,1},
{0x10F,1,58,0},
{0x110,0,60,1},
{0x111,1,58,0},
{0x112,0,60,1},
{0x113,1,58,0},
{0x114,0,60,1},
{0x115,1,58,0},
{0x116,0,60,1},
{0x117,1,58,0},
{0x118,0,60,1},
{0x119,1,58,0},
{0x11A,0,60,1},
{0x11B,1,58,0},
{0x11C,0,60,1},
{0x11D,1,58,0},
{0x11E,0,60,1},
{0x11F,1,58,0},
{0x120,0,60,1},
{0x121,1,58,0},
{0x122,0,60,1},
{0x123,1,58,0},
{0x124,0,60,1},
{0x125,1,58,0},
{0x126,0,60,1},
{0x127,1,58,0},
{0x128,0,60,1},
{0x129,1,58,0},
{0x12A,0,60,1},
{0x12B,1,58,0},
{0x12C,0,60,1},
{0x12D,1,58,0},
{0x12E,0,60,1},
{0x12F,1,58,0},
{0x130,0,60,0},
{0x131,1,58,0},
{0x132,0,60,1},
{0x133,1,58,0},
{0x134,0,60,1},
{0x135,1,58,0},
{0x136,0,60,1},
{0x137,1,58,0},
{0x139,0,60,1},
{0x13A,1,58,0},
{0x13B,0,60,1},
{0x13C,1,58,0},
{0x13D,0,60,1},
{0x13E,1,58,0},
{0x13F,0,60,1},
{0x140,1,58,0},
{0x141,0,60,1},
{0x142,1,58,0},
{0x143,0,60,1},
{0x144,1,58,0},
{0x145,0,60,1},
{0x146,1,58,0},
{0x147,0,60,1},
{0x148,1,58,0},
{0x14A,0,60,1},
{0x14B,1,58,0},
{0x14C,0,60,1},
{0x14D,1,58,0},
{0x14E,0,60,1},
{0x14F,1,58,0},
{0x150,0,60,1},
{0x151,1,58,0},
{0x152,0,60,1},
{0x153,1,58,0},
{0x154,0,60,1},
{0x155,1,58,0},
{0x156,0,60,1},
{0x157,1,58,0},
{0x158,0,60,1},
{0x159,1,58,0},
{0x15A,0,60,1},
{0x15B,1,58,0},
{0x15C,0,60,1},
{0x15D,1,58,0},
{0x15E,0,60,1},
{0x15F,1,58,0},
{0x160,0,60,1},
{0x161,1,58,0},
{0x162,0,60,1},
{0x163,1,58,0},
{0x164,0,60,1},
{0x165,1,58,0},
{0x166,0,60,1},
{0x167,1,58,0},
{0x168,0,60,1},
{0x169,1,58,0},
{0x16A,0,60,1},
{0x16B,1,58,0},
{0x16C,0,60,1},
{0x16D,1,58,0},
{0x16E,0,60,1},
{0x16F,1,58,0},
{0x170,0,60,1},
{0x171,1,58,0},
{0x172,0,60,1},
{0x173,1,58,0},
{0x174,0,60,1},
{0x175,1,58,0},
{0x176,0,60,1},
{0x177,1,58,0},
{0x178,0,60,-121},
{0x179,0,60,1},
{0x17A,1,58,0},
{0x17B,0,60,1},
{0x17C,1,58,0},
{0x17D,0,60,1},
{0x17E,1,58,0},
{0x17F,1,58,-268},
{0x180,1,58,0},
{0x181,0,60,210},
{0x182,0,60,1},
{0x183,1,58,0},
{0x184,0,60,1},
{0x185,1,58,0},
{0x186,0,60,206},
{0x187,0,60,1},
{0x188,1,58,0},
{0x189,0,60,205},
{0x18B,0,60,1},
{0x18C,1,58,0},
{0x18E,0,60,79},
{0x18F,0,60,202},
{0x190,0,60,203},
{0x191,0,60,1},
{0x192,1,58,0},
{0x193,0,60,205},
{0x194,0,60,207},
{0x195,1,58,0},
{0x196,0,60,211},
{0x197,0,60,209},
{0x198,0,60,1},
{0x199,1,58,0},
{0x19C,0,60,211},
{0x19D,0,60,213},
{0x19E,1,58,0},
{0x19F,0,60,214},
{0x1A0,0,60,1},
{0x1A1,1,58,0},
{0x1A2,0,60,1},
{0x1A3,1,58,0},
{0x1A4,0,60,1},
{0x1A5,1,58,0},
{0x1A6,0,60,218},
{0x1A7,0,60,1},
{0x1A8,1,58,0},
{0x1A9,0,60,218},
{0x1AA,1,58,0},
{0x1AC,0,60,1},
{0x1AD,1,58,0},
{0x1AE,0,60,218},
{0x1AF,0,60,1},
{0x1B0,1,58,0},
{0x1B1,0,60,217},
{0x1B3,0,60,1},
{0x1B4,1,58,0},
{0x1B5,0,60,1},
{0x1B6,1,58,0},
{0x1B7,0,60,219},
{0x1B8,0,60,1},
{0x1B9,1,58,0},
{0x1BB,4,56,0},
{0x1BC,0,60,1},
{0x1BD,1,58,0},
{0x1C0,4,56,0},
{0x1C4,0,60,2},
{0x1C5,2,56,1},
{0x1C6,1,58,0},
{0x1C7,0,60,2},
{0x1C8,2,56,1},
{0x1C9,1,58,0},
{0x1CA,0,60,2},
{0x1CB,2,56,1},
{0x1CC,1,58,0},
{0x1CD,0,60,1},
{0x1CE,1,58,0},
{0x1CF,0,60,1},
{0x1D0,1,58,0},
{0x1D1,0,60,1},
{0x1D2,1,58,0},
{0x1D3,0,60,1},
{0x1D4,1,58,0},
{0x1D5,0,60,1},
{0x1D6,1,58,0},
{0x1D7,0,60,1},
{0x1D8,1,58,0},
{0x1D9,0,60,1},
{0x1DA,1,58,0},
{0x1DB,0,60,1},
{0x1DC,1,58,0},
{0x1DE,0,60,1},
{0x1DF,1,58,0},
{0x1E0,0,60,1},
{0x1E1,1,58,0},
{0x1E2,0,60,1},
{0x1E3,1,58,0},
{0x1E4,0,60,1},
{0x1E5,1,58,0},
{0x1E6,0,60,1},
{0x1E7,1,58,0},
{0x1E8,0,60,1},
{0x1E9,1,58,0},
{0x1EA,0,60,1},
{0x1EB,1,58,0},
{0x1EC,0,60,1},
{0x1ED,1,58,0},
{0x1EE,0,60,1},
{0x1EF,1,58,0},
{0x1F1,0,60,2},
{0x1F2,2,56,1},
{0x1F3,1,58,0},
{0x1F4,0,60,1},
{0x1F5,1,58,0},
{0x1F6,0,60,-97},
{0x1F7,0,60,-56},
{0x1F8,0,60,1},
{0x1F9,1,58,0},
{0x1FA,0,60,1},
{0x1FB,1,58,0},
{0x1FC,0,60,1},
{0x1FD,1,58,0},
{0x1FE,0,60,1},
{0x1FF,1,58,0},
{0x200,0,60,1},
{0x201,1,58,0},
{0x202,0,60,1},
{0x203,1,58,0},
{0x204,0,60,1},
{0x205,1,58,0},
{0x206,0,60,1},
{0x207,1,58,0},
{0x208,0,60,1},
{0x209,1,58,0},
{0x20A,0,60,1},
{0x20B,1,58,0},
{0x20C,0,60,1},
{0x20D,1,58,0},
{0x20E,0,60,1},
{0x20F,1,58,0},
{0x210,0,60,1},
{0x211,1,58,0},
{0x212,0,60,1},
{0x213,1,58,0},
{0x214,0,60,1},
{0x215,1,58,0},
{0x216,0,60,1},
{0x217,1,58,0},
{0x218,0,60,1},
{0x219,1,58,0},
{0x21A,0,60,1},
{0x21B,1,58,0},
{0x21C,0,60,1},
{0x21D,1,58,0},
{0x21E,0,60,1},
{0x21F,1,58,0},
{0x220,0,60,-130},
{0x221,1,58,0},
{0x222,0,60,1},
{0x223,1,58,0},
{0x224,0,60,1},
{0x225,1,58,0},
{0x226,0,60,1},
{0x227,1,58,0},
{0x228,0,60,1},
{0x229,1,58,0},
{0x22A,0,60,1},
{0x22B,1,58,0},
{0x22C,0,60,1},
{0x22D,1,58,0},
{0x22E,0,60,1},
{0x22F,1,58,0},
{0x230,0,60,1},
{0x231,1,58,0},
{0x232,0,60,1},
{0x233,1,58,0},
{0x23A,0,60,10795},
{0x23B,0,60,1},
{0x23C,1,58,0},
{0x23D,0,60,-163},
{0x23E,0,60,10792},
{0x23F,1,58,0},
{0x241,0,60,1},
{0x242,1,58,0},
{0x243,0,60,-195},
{0x244,0,60,69},
{0x245,0,60,71},
{0x246,0,60,1},
{0x247,1,58,0},
{0x248,0,60,1},
{0x249,1,58,0},
{0x24A,0,60,1},
{0x24B,1,58,0},
{0x24C,0,60,1},
{0x24D,1,58,0},
{0x24E,0,60,1},
{0x24F,1,58,0},
{0x294,4,56,0},
{0x295,1,58,0},
{0x2B0,3,58,0},
{0x2B9,3,56,0},
{0x2C0,3,58,0},
{0x2C2,20,0,0},
{0x2C6,3,56,0},
{0x2D2,20,0,0},
{0x2E0,3,58,0},
{0x2E5,20,0,0},
{0x2EC,3,56,0},
{0x2ED,20,0,0},
{0x2EE,3,56,0},
{0x2EF,20,0,0},
{0x300,5,32,0},
{0x345,5,42,116},
{0x346,5,32,0},
{0x370,0,60,1},
{0x371,1,58,0},
{0x372,0,60,1},
{0x373,1,58,0},
{0x374,3,56,0},
{0x375,20,0,0},
{0x376,0,60,1},
{0x377,1,58,0},
{0x378,29,0,0},
{0x37A,3,10,0},
{0x37B,1,58,0},
{0x37E,17,0,0},
{0x37F,0,60,116},
{0x380,29,0,0},
{0x384,20,0,0},
{0x386,0,60,38},
{0x387,17,32,0},
{0x388,0,60,37},
{0x38B,29,0,0},
{0x38C,0,60,64},
{0x38D,29,0,0},
{0x38E,0,60,63},
{0x390,1,58,0},
{0x391,0,60,32},
{0x3A2,29,0,0},
{0x3A3,0,60,32},
{0x3AC,1,58,0},
{0x3C2,1,58,1},
{0x3C3,1,58,0},
{0x3CF,0,60,8},
{0x3D0,1,58,-30},
{0x3D1,1,58,-25},
{0x3D2,0,60,0},
{0x3D5,1,58,-15},
{0x3D6,1,58,-22},
{0x3D7,1,58,0},
{0x3D8,0,60,1},
{0x3D9,1,58,0},
{0x3DA,0,60,1},
{0x3DB,1,58,0},
{0x3DC,0,60,1},
{0x3DD,1,58,0},
{0x3DE,0,60,1},
{0x3DF,1,58,0},
{0x3E0,0,60,1},
{0x3E1,1,58,0},
{0x3E2,0,60,1},
{0x3E3,1,58,0},
{0x3E4,0,60,1},
{0x3E5,1,58,0},
{0x3E6,0,60,1},
{0x3E7,1,58,0},
{0x3E8,0,60,1},
{0x3E9,1,58,0},
{0x3EA,0,60,1},
{0x3EB,1,58,0},
{0x3EC,0,60,1},
{0x3ED,1,58,0},
{0x3EE,0,60,1},
{0x3EF,1,58,0},
{0x3F0,1,58,-54},
{0x3F1,1,58,-48},
{0x3F2,1,58,0},
{0x3F4,0,60,-60},
{0x3F5,1,58,-64},
{0x3F6,18,0,0},
{0x3F7,0,60,1},
{0x3F8,1,58,0},
{0x3F9,0,60,-7},
{0x3FA,0,60,1},
{0x3FB,1,58,0},
{0x3FD,0,60,-130},
{0x400,0,60,80},
{0x410,0,60,32},
{0x430,1,58,0},
{0x460,0,60,1},
{0x461,1,58,0},
{0x462,0,60,1},
{0x463,1,58,0},
{0x464,0,60,1},
{0x465,1,58,0},
{0x466,0,60,1},
{0x467,1,58,0},
{0x468,0,60,1},
{0x469,1,58,0},
{0x46A,0,60,1},
{0x46B,1,58,0},
{0x46C,0,60,1},
{0x46D,1,58,0},
{0x46E,0,60,1},
{0x46F,1,58,0},
{0x470,0,60,1},
{0x471,1,58,0},
{0x472,0,60,1},
{0x473,1,58,0},
{0x474,0,60,1},
{0x475,1,58,0},
{0x476,0,60,1},
{0x477,1,58,0},
{0x478,0,60,1},
{0x479,1,58,0},
{0x47A,0,60,1},
{0x47B,1,58,0},
{0x47C,0,60,1},
{0x47D,1,58,0},
{0x47E,0,60,1},
{0x47F,1,58,0},
{0x480,0,60,1},
{0x481,1,58,0},
{0x482,21,0,0},
{0x483,5,32,0},
{0x488,7,0,0},
{0x48A,0,60,1},
{0x48B,1,58,0},
{0x48C,0,60,1},
{0x48D,1,58,0},
{0x48E,0,60,1},
{0x48F,1,58,0},
{0x490,0,60,1},
{0x491,1,58,0},
{0x492,0,60,1},
{0x493,1,58,0},
{0x494,0,60,1},
{0x495,1,58,0},
{0x496,0,60,1},
{0x497,1,58,0},
{0x498,0,60,1},
{0x499,1,58,0},
{0x49A,0,60,1},
{0x49B,1,58,0},
{0x49C,0,60,1},
{0x49D,1,58,0},
{0x49E,0,60,1},
{0x49F,1,58,0},
{0x4A0,0,60,1},
{0x4A1,1,58,0},
{0x4A2,0,60,1},
{0x4A3,1,58,0},
{0x4A4,0,60,1},
{0x4A5,1,58,0},
{0x4A6,0,60,1},
{0x4A7,1,58,0},
{0x4A8,0,60,1},
{0x4A9,1,58,0},
{0x4AA,0,60,1},
{0x4AB,1,58,0},
{0x4AC,0,60,1},
{0x4AD,1,58,0},
{0x4AE,0,60,1},
{0x4AF,1,58,0},
{0x4B0,0,60,1},
{0x4B1,1,58,0},
{0x4B2,0,60,1},
{0x4B3,1,58,0},
{0x4B4,0,60,1},
{0x4B5,1,58,0},
{0x4B6,0,60,1},
{0x4B7,1,58,0},
{0x4B8,0,60,1},
{0x4B9,1,58,0},
{0x4BA,0,60,1},
{0x4BB,1,58,0},
{0x4BC,0,60,1},
{0x4BD,1,58,0},
{0x4BE,0,60,1},
{0x4BF,1,58,0},
{0x4C0,0,60,15},
{0x4C1,0,60,1},
{0x4C2,1,58,0},
{0x4C3,0,60,1},
{0x4C4,1,58,0},
{0x4C5,0,60,1},
{0x4C6,1,58,0},
{0x4C7,0,60,1},
{0x4C8,1,58,0},
{0x4C9,0,60,1},
{0x4CA,1,58,0},
{0x4CB,0,60,1},
{0x4CC,1,58,0},
{0x4CD,0,60,1},
{0x4CE,1,58,0},
{0x4D0,0,60,1},
{0x4D1,1,58,0},
{0x4D2,0,60,1},
{0x4D3,1,58,0},
{0x4D4,0,60,1},
{0x4D5,1,58,0},
{0x4D6,0,60,1},
{0x4D7,1,58,0},
{0x4D8,0,60,1},
{0x4D9,1,58,0},
{0x4DA,0,60,1},
{0x4DB,1,58,0},
{0x4DC,0,60,1},
{0x4DD,1,58,0},
{0x4DE,0,60,1},
{0x4DF,1,58,0},
{0x4E0,0,60,1},
{0x4E1,1,58,0},
{0x4E2,0,60,1},
{0x4E3,1,58,0},
{0x4E4,0,60,1},
{0x4E5,1,58,0},
{0x4E6,0,60,1},
{0x4E7,1,58,0},
{0x4E8,0,60,1},
{0x4E9,1,58,0},
{0x4EA,0,60,1},
{0x4EB,1,58,0},
{0x4EC,0,60,1},
{0x4ED,1,58,0},
{0x4EE,0,60,1},
{0x4EF,1,58,0},
{0x4F0,0,60,1},
{0x4F1,1,58,0},
{0x4F2,0,60,1},
{0x4F3,1,58,0},
{0x4F4,0,60,1},
{0x4F5,1,58,0},
{0x4F6,0,60,1},
{0x4F7,1,58,0},
{0x4F8,0,60,1},
{0x4F9,1,58,0},
{0x4FA,0,60,1},
{0x4FB,1,58,0},
{0x4FC,0,60,1},
{0x4FD,1,58,0},
{0x4FE,0,60,1},
{0x4FF,1,58,0},
{0x500,0,60,1},
{0x501,1,58,0},
{0x502,0,60,1},
{0x503,1,58,0},
{0x504,0,60,1},
{0x505,1,58,0},
{0x506,0,60,1},
{0x507,1,58,0},
{0x508,0,60,1},
{0x509,1,58,0},
{0x50A,0,60,1},
{0x50B,1,58,0},
{0x50C,0,60,1},
{0x50D,1,58,0},
{0x50E,0,60,1},
{0x50F,1,58,0},
{0x510,0,60,1},
{0x511,1,58,0},
{0x512,0,60,1},
{0x513,1,58,0},
{0x514,0,60,1},
{0x515,1,58,0},
{0x516,0,60,1},
{0x517,1,58,0},
{0x518,0,60,1},
{0x519,1,58,0},
{0x51A,0,60,1},
{0x51B,1,58,0},
{0x51C,0,60,1},
{0x51D,1,58,0},
{0x51E,0,60,1},
{0x51F,1,58,0},
{0x520,0,60,1},
{0x521,1,58,0},
{0x522,0,60,1},
{0x523,1,58,0},
{0x524,0,60,1},
{0x525,1,58,0},
{0x526,0,60,1},
{0x527,1,58,0},
{0x528,0,60,1},
{0x529,1,58,0},
{0x52A,0,60,1},
{0x52B,1,58,0},
{0x52C,0,60,1},
{0x52D,1,58,0},
{0x52E,0,60,1},
{0x52F,1,58,0},
{0x530,29,0,0},
{0x531,0,60,48},
{0x557,29,0,0},
{0x559,3,56,0},
{0x55A,17,0,0},
{0x560,1,58,0},
{0x589,17,0,0},
{0x58A,12,0,0},
{0x58B,29,0,0},
{0x58D,21,0,0},
{0x58F,19,0,0},
{0x590,29,0,0},
{0x591,5,32,0},
{0x5B0,5,40,0},
{0x5BE,12,0,0},
{0x5BF,5,40,0},
{0x5C0,17,0,0},
{0x5C1,5,40,0},
{0x5C3,17,0,0},
{0x5C4,5,40,0},
{0x5C6,17,0,0},
{0x5C7,5,40,0},
{0x5C8,29,0,0},
{0x5D0,4,56,0},
{0x5EB,29,0,0},
{0x5EF,4,56,0},
{0x5F3,17,0,0},
{0x5F5,29,0,0},
{0x600,26,0,0},
{0x606,18,0,0},
{0x609,17,0,0},
{0x60B,19,0,0},
{0x60C,17,0,0},
{0x60E,21,0,0},
{0x610,5,40,0},
{0x61B,17,0,0},
{0x61C,26,0,0},
{0x61D,17,0,0},
{0x620,4,56,0},
{0x640,3,56,0},
{0x641,4,56,0},
{0x64B,5,40,0},
{0x658,5,32,0},
{0x659,5,40,0},
{0x660,8,32,0},
{0x66A,17,0,0},
{0x66E,4,56,0},
{0x670,5,40,0},
{0x671,4,56,0},
{0x6D4,17,0,0},
{0x6D5,4,56,0},
{0x6D6,5,40,0},
{0x6DD,26,0,0},
{0x6DE,21,0,0},
{0x6DF,5,32,0},
{0x6E1,5,40,0},
{0x6E5,3,56,0},
{0x6E7,5,40,0},
{0x6E9,21,0,0},
{0x6EA,5,32,0},
{0x6ED,5,40,0},
{0x6EE,4,56,0},
{0x6F0,8,32,0},
{0x6FA,4,56,0},
{0x6FD,21,0,0},
{0x6FF,4,56,0},
{0x700,17,0,0},
{0x70E,29,0,0},
{0x70F,26,0,0},
{0x710,4,56,0},
{0x711,5,40,0},
{0x712,4,56,0},
{0x730,5,40,0},
{0x740,5,32,0},
{0x74B,29,0,0},
{0x74D,4,56,0},
{0x7A6,5,40,0},
{0x7B1,4,56,0},
{0x7B2,29,0,0},
{0x7C0,8,32,0},
{0x7CA,4,56,0},
{0x7EB,5,32,0},
{0x7F4,3,56,0},
{0x7F6,21,0,0},
{0x7F7,17,0,0},
{0x7FA,3,56,0},
{0x7FB,29,0,0},
{0x7FD,5,32,0},
{0x7FE,19,0,0},
{0x800,4,56,0},
{0x816,5,40,0},
{0x818,5,32,0},
{0x81A,3,56,0},
{0x81B,5,40,0},
{0x824,3,56,0},
{0x825,5,40,0},
{0x828,3,56,0},
{0x829,5,40,0},
{0x82D,5,32,0},
{0x82E,29,0,0},
{0x830,17,0,0},
{0x83F,29,0,0},
{0x840,4,56,0},
{0x859,5,32,0},
{0x85C,29,0,0},
{0x85E,17,0,0},
{0x85F,29,0,0},
{0x860,4,56,0},
{0x86B,29,0,0},
{0x870,4,56,0},
{0x888,20,0,0},
{0x889,4,56,0},
{0x88F,29,0,0},
{0x890,26,0,0},
{0x892,29,0,0},
{0x898,5,32,0},
{0x8A0,4,56,0},
{0x8C9,3,56,0},
{0x8CA,5,32,0},
{0x8D4,5,40,0},
{0x8E0,5,32,0},
{0x8E2,26,0,0},
{0x8E3,5,40,0},
{0x8EA,5,32,0},
{0x8F0,5,40,0},
{0x903,6,40,0},
{0x904,4,56,0},
{0x93A,5,40,0},
{0x93B,6,40,0},
{0x93C,5,32,0},
{0x93D,4,56,0},
{0x93E,6,40,0},
{0x941,5,40,0},
{0x949,6,40,0},
{0x94D,5,32,0},
{0x94E,6,40,0},
{0x950,4,56,0},
{0x951,5,32,0},
{0x955,5,40,0},
{0x958,4,56,0},
{0x962,5,40,0},
{0x964,17,0,0},
{0x966,8,32,0},
{0x970,17,0,0},
{0x971,3,56,0},
{0x972,4,56,0},
{0x981,5,40,0},
{0x982,6,40,0},
{0x984,29,0,0},
{0x985,4,56,0},
{0x98D,29,0,0},
{0x98F,4,56,0},
{0x991,29,0,0},
{0x993,4,56,0},
{0x9A9,29,0,0},
{0x9AA,4,56,0},
{0x9B1,29,0,0},
{0x9B2,4,56,0},
{0x9B3,29,0,0},
{0x9B6,4,56,0},
{0x9BA,29,0,0},
{0x9BC,5,32,0},
{0x9BD,4,56,0},
{0x9BE,6,40,0},
{0x9C1,5,40,0},
{0x9C5,29,0,0},
{0x9C7,6,40,0},
{0x9C9,29,0,0},
{0x9CB,6,40,0},
{0x9CD,5,32,0},
{0x9CE,4,56,0},
{0x9CF,29,0,0},
{0x9D7,6,40,0},
{0x9D8,29,0,0},
{0x9DC,4,56,0},
{0x9DE,29,0,0},
{0x9DF,4,56,0},
{0x9E2,5,40,0},
{0x9E4,29,0,0},
{0x9E6,8,32,0},
{0x9F0,4,56,0},
{0x9F2,19,0,0},
{0x9F4,10,0,0},
{0x9FA,21,0,0},
{0x9FB,19,0,0},
{0x9FC,4,56,0},
{0x9FD,17,0,0},
{0x9FE,5,32,0},
{0x9FF,29,0,0},
{0xA01,5,40,0},
{0xA03,6,40,0},
{0xA04,29,0,0},
{0xA05,4,56,0},
{0xA0B,29,0,0},
{0xA0F,4,56,0},
{0xA11,29,0,0},
{0xA13,4,56,0},
{0xA29,29,0,0},
{0xA2A,4,56,0},
{0xA31,29,0,0},
{0xA32,4,56,0},
{0xA34,29,0,0},
{0xA35,4,56,0},
{0xA37,29,0,0},
{0xA38,4,56,0},
{0xA3A,29,0,0},
{0xA3C,5,32,0},
{0xA3D,29,0,0},
{0xA3E,6,40,0},
{0xA41,5,40,0},
{0xA43,29,0,0},
{0xA47,5,40,0},
{0xA49,29,0,0},
{0xA4B,5,40,0},
{0xA4D,5,32,0},
{0xA4E,29,0,0},
{0xA51,5,40,0},
{0xA52,29,0,0},
{0xA59,4,56,0},
{0xA5D,29,0,0},
{0xA5E,4,56,0},
{0xA5F,29,0,0},
{0xA66,8,32,0},
{0xA70,5,40,0},
{0xA72,4,56,0},
{0xA75,5,40,0},
{0xA76,17,0,0},
{0xA77,29,0,0},
{0xA81,5,40,0},
{0xA83,6,40,0},
{0xA84,29,0,0},
{0xA85,4,56,0},
{0xA8E,29,0,0},
{0xA8F,4,56,0},
{0xA92,29,0,0},
{0xA93,4,56,0},
{0xAA9,29,0,0},
{0xAAA,4,56,0},
{0xAB1,29,0,0},
{0xAB2,4,56,0},
{0xAB4,29,0,0},
{0xAB5,4,56,0},
{0xABA,29,0,0},
{0xABC,5,32,0},
{0xABD,4,56,0},
{0xABE,6,40,0},
{0xAC1,5,40,0},
{0xAC6,29,0,0},
{0xAC7,5,40,0},
{0xAC9,6,40,0},
{0xACA,29,0,0},
{0xACB,6,40,0},
{0xACD,5,32,0},
{0xACE,29,0,0},
{0xAD0,4,56,0},
{0xAD1,29,0,0},
{0xAE0,4,56,0},
{0xAE2,5,40,0},
{0xAE4,29,0,0},
{0xAE6,8,32,0},
{0xAF0,17,0,0},
{0xAF1,19,0,0},
{0xAF2,29,0,0},
{0xAF9,4,56,0},
{0xAFA,5,40,0},
{0xAFD,5,32,0},
{0xB00,29,0,0},
{0xB01,5,40,0},
{0xB02,6,40,0},
{0xB04,29,0,0},
{0xB05,4,56,0},
{0xB0D,29,0,0},
{0xB0F,4,56,0},
{0xB11,29,0,0},
{0xB13,4,56,0},
{0xB29,29,0,0},
{0xB2A,4,56,0},
{0xB31,29,0,0},
{0xB32,4,56,0},
{0xB34,29,0,0},
{0xB35,4,56,0},
{0xB3A,29,0,0},
{0xB3C,5,32,0},
{0xB3D,4,56,0},
{0xB3E,6,40,0},
{0xB3F,5,40,0},
{0xB40,6,40,0},
{0xB41,5,40,0},
{0xB45,29,0,0},
{0xB47,6,40,0},
{0xB49,29,0,0},
{0xB4B,6,40,0},
{0xB4D,5,32,0},
{0xB4E,29,0,0},
{0xB55,5,32,0},
{0xB56,5,40,0},
{0xB57,6,40,0},
{0xB58,29,0,0},
{0xB5C,4,56,0},
{0xB5E,29,0,0},
{0xB5F,4,56,0},
{0xB62,5,40,0},
{0xB64,29,0,0},
{0xB66,8,32,0},
{0xB70,21,0,0},
{0xB71,4,56,0},
{0xB72,10,0,0},
{0xB78,29,0,0},
{0xB82,5,40,0},
{0xB83,4,56,0},
{0xB84,29,0,0},
{0xB85,4,56,0},
{0xB8B,29,0,0},
{0xB8E,4,56,0},
{0xB91,29,0,0},
{0xB92,4,56,0},
{0xB96,29,0,0},
{0xB99,4,56,0},
{0xB9B,29,0,0},
{0xB9C,4,56,0},
{0xB9D,29,0,0},
{0xB9E,4,56,0},
{0xBA0,29,0,0},
{0xBA3,4,56,0},
{0xBA5,29,0,0},
{0xBA8,4,56,0},
{0xBAB,29,0,0},
{0xBAE,4,56,0},
{0xBBA,29,0,0},
{0xBBE,6,40,0},
{0xBC0,5,40,0},
{0xBC1,6,40,0},
{0xBC3,29,0,0},
{0xBC6,6,40,0},
{0xBC9,29,0,0},
{0xBCA,6,40,0},
{0xBCD,5,32,0},
{0xBCE,29,0,0},
{0xBD0,4,56,0},
{0xBD1,29,0,0},
{0xBD7,6,40,0},
{0xBD8,29,0,0},
{0xBE6,8,32,0},
{0xBF0,10,0,0},
{0xBF3,21,0,0},
{0xBF9,19,0,0},
{0xBFA,21,0,0},
{0xBFB,29,0,0},
{0xC00,5,40,0},
{0xC01,6,40,0},
{0xC04,5,40,0},
{0xC05,4,56,0},
{0xC0D,29,0,0},
{0xC0E,4,56,0},
{0xC11,29,0,0},
{0xC12,4,56,0},
{0xC29,29,0,0},
{0xC2A,4,56,0},
{0xC3A,29,0,0},
{0xC3C,5,32,0},
{0xC3D,4,56,0},
{0xC3E,5,40,0},
{0xC41,6,40,0},
{0xC45,29,0,0},
{0xC46,5,40,0},
{0xC49,29,0,0},
{0xC4A,5,40,0},
{0xC4D,5,32,0},
{0xC4E,29,0,0},
{0xC55,5,40,0},
{0xC57,29,0,0},
{0xC58,4,56,0},
{0xC5B,29,0,0},
{0xC5D,4,56,0},
{0xC5E,29,0,0},
{0xC60,4,56,0},
{0xC62,5,40,0},
{0xC64,29,0,0},
{0xC66,8,32,0},
{0xC70,29,0,0},
{0xC77,17,0,0},
{0xC78,10,0,0},
{0xC7F,21,0,0},
{0xC80,4,56,0},
{0xC81,5,40,0},
{0xC82,6,40,0},
{0xC84,17,0,0},
{0xC85,4,56,0},
{0xC8D,29,0,0},
{0xC8E,4,56,0},
{0xC91,29,0,0},
{0xC92,4,56,0},
{0xCA9,29,0,0},
{0xCAA,4,56,0},
{0xCB4,29,0,0},
{0xCB5,4,56,0},
{0xCBA,29,0,0},
{0xCBC,5,32,0},
{0xCBD,4,56,0},
{0xCBE,6,40,0},
{0xCBF,5,40,0},
{0xCC0,6,40,0},
{0xCC5,29,0,0},
{0xCC6,5,40,0},
{0xCC7,6,40,0},
{0xCC9,29,0,0},
{0xCCA,6,40,0},
{0xCCC,5,40,0},
{0xCCD,5,32,0},
{0xCCE,29,0,0},
{0xCD5,6,40,0},
{0xCD7,29,0,0},
{0xCDD,4,56,0},
{0xCDF,29,0,0},
{0xCE0,4,56,0},
{0xCE2,5,40,0},
{0xCE4,29,0,0},
{0xCE6,8,32,0},
{0xCF0,29,0,0},
{0xCF1,4,56,0},
{0xCF3,6,40,0},
{0xCF4,29,0,0},
{0xD00,5,40,0},
{0xD02,6,40,0},
{0xD04,4,56,0},
{0xD0D,29,0,0},
{0xD0E,4,56,0},
{0xD11,29,0,0},
{0xD12,4,56,0},
{0xD3B,5,32,0},
{0xD3D,4,56,0},
{0xD3E,6,40,0},
{0xD41,5,40,0},
{0xD45,29,0,0},
{0xD46,6,40,0},
{0xD49,29,0,0},
{0xD4A,6,40,0},
{0xD4D,5,32,0},
{0xD4E,4,56,0},
{0xD4F,21,0,0},
{0xD50,29,0,0},
{0xD54,4,56,0},
{0xD57,6,40,0},
{0xD58,10,0,0},
{0xD5F,4,56,0},
{0xD62,5,40,0},
{0xD64,29,0,0},
{0xD66,8,32,0},
{0xD70,10,0,0},
{0xD79,21,0,0},
{0xD7A,4,56,0},
{0xD80,29,0,0},
{0xD81,5,40,0},
{0xD82,6,40,0},
{0xD84,29,0,0},
{0xD85,4,56,0},
{0xD97,29,0,0},
{0xD9A,4,56,0},
{0xDB2,29,0,0},
{0xDB3,4,56,0},
{0xDBC,29,0,0},
{0xDBD,4,56,0},
{0xDBE,29,0,0},
{0xDC0,4,56,0},
{0xDC7,29,0,0},
{0xDCA,5,32,0},
{0xDCB,29,0,0},
{0xDCF,6,40,0},
{0xDD2,5,40,0},
{0xDD5,29,0,0},
{0xDD6,5,40,0},
{0xDD7,29,0,0},
{0xDD8,6,40,0},
{0xDE0,29,0,0},
{0xDE6,8,32,0},
{0xDF0,29,0,0},
{0xDF2,6,40,0},
{0xDF4,17,0,0},
{0xDF5,29,0,0},
{0xE01,4,56,0},
{0xE31,5,40,0},
{0xE32,4,56,0},
{0xE33,4,40,0},
{0xE34,5,40,0},
{0xE3B,29,0,0},
{0xE3F,19,0,0},
{0xE40,4,56,0},
{0xE46,3,56,0},
{0xE47,5,32,0},
{0xE4D,5,40,0},
{0xE4E,5,32,0},
{0xE4F,17,0,0},
{0xE50,8,32,0},
{0xE5A,17,0,0},
{0xE5C,29,0,0},
{0xE81,4,56,0},
{0xE83,29,0,0},
{0xE84,4,56,0},
{0xE85,29,0,0},
{0xE86,4,56,0},
{0xE8B,29,0,0},
{0xE8C,4,56,0},
{0xEA4,29,0,0},
{0xEA5,4,56,0},
{0xEA6,29,0,0},
{0xEA7,4,56,0},
{0xEB1,5,40,0},
{0xEB2,4,56,0},
{0xEB3,4,40,0},
{0xEB4,5,40,0},
{0xEBA,5,32,0},
{0xEBB,5,40,0},
{0xEBD,4,56,0},
{0xEBE,29,0,0},
{0xEC0,4,56,0},
{0xEC5,29,0,0},
{0xEC6,3,56,0},
{0xEC7,29,0,0},
{0xEC8,5,32,0},
{0xECD,5,40,0},
{0xECE,5,32,0},
{0xECF,29,0,0},
{0xED0,8,32,0},
{0xEDA,29,0,0},
{0xEDC,4,56,0},
{0xEE0,29,0,0},
{0xF00,4,56,0},
{0xF01,21,0,0},
{0xF04,17,0,0},
{0xF13,21,0,0},
{0xF14,17,0,0},
{0xF15,21,0,0},
{0xF18,5,32,0},
{0xF1A,21,0,0},
{0xF20,8,32,0},
{0xF2A,10,0,0},
{0xF34,21,0,0},
{0xF35,5,32,0},
{0xF36,21,0,0},
{0xF37,5,32,0},
{0xF38,21,0,0},
{0xF39,5,32,0},
{0xF3A,13,0,0},
{0xF3B,14,0,0},
{0xF3C,13,0,0},
{0xF3D,14,0,0},
{0xF3E,6,32,0},
{0xF40,4,56,0},
{0xF48,29,0,0},
{0xF49,4,56,0},
{0xF6D,29,0,0},
{0xF71,5,40,0},
{0xF7F,6,40,0},
{0xF80,5,40,0},
{0xF84,5,32,0},
{0xF85,17,0,0},
{0xF86,5,32,0},
{0xF88,4,56,0},
{0xF8D,5,40,0},
{0xF98,29,0,0},
{0xF99,5,40,0},
{0xFBD,29,0,0},
{0xFBE,21,0,0},
{0xFC6,5,32,0},
{0xFC7,21,0,0},
{0xFCD,29,0,0},
{0xFCE,21,0,0},
{0xFD0,17,0,0},
{0xFD5,21,0,0},
{0xFD9,17,0,0},
{0xFDB,29,0,0},
{0x1000,4,56,0},
{0x102B,6,40,0},
{0x102D,5,40,0},
{0x1031,6,40,0},
{0x1032,5,40,0},
{0x1037,5,32,0},
{0x1038,6,40,0},
{0x1039,5,32,0},
{0x103B,6,40,0},
{0x103D,5,40,0},
{0x103F,4,56,0},
{0x1040,8,32,0},
{0x104A,17,0,0},
{0x1050,4,56,0},
{0x1056,6,40,0},
{0x1058,5,40,0},
{0x105A,4,56,0},
{0x105E,5,40,0},
{0x1061,4,56,0},
{0x1062,6,40,0},
{0x1065,4,56,0},
{0x1067,6,40,0},
{0x106E,4,56,0},
{0x1071,5,40,0},
{0x1075,4,56,0},
{0x1082,5,40,0},
{0x1083,6,40,0},
{0x1085,5,40,0},
{0x1087,6,40,0},
{0x108D,5,40,0},
{0x108E,4,56,0},
{0x108F,6,40,0},
{0x1090,8,32,0},
{0x109A,6,40,0},
{0x109D,5,40,0},
{0x109E,21,0,0},
{0x10A0,0,60,7264},
{0x10C6,29,0,0},
{0x10C7,0,60,7264},
{0x10C8,29,0,0},
{0x10CD,0,60,7264},
{0x10CE,29,0,0},
{0x10D0,1,58,0},
{0x10FB,17,0,0},
{0x10FC,3,58,0},
{0x10FD,1,58,0},
{0x1100,4,56,0},
{0x1249,29,0,0},
{0x124A,4,56,0},
{0x124E,29,0,0},
{0x1250,4,56,0},
{0x1257,29,0,0},
{0x1258,4,56,0},
{0x1259,29,0,0},
{0x125A,4,56,0},
{0x125E,29,0,0},
{0x1260,4,56,0},
{0x1289,29,0,0},
{0x128A,4,56,0},
{0x128E,29,0,0},
{0x1290,4,56,0},
{0x12B1,29,0,0},
{0x12B2,4,56,0},
{0x12B6,29,0,0},
{0x12B8,4,56,0},
{0x12BF,29,0,0},
{0x12C0,4,56,0},
{0x12C1,29,0,0},
{0x12C2,4,56,0},
{0x12C6,29,0,0},
{0x12C8,4,56,0},
{0x12D7,29,0,0},
{0x12D8,4,56,0},
{0x1311,29,0,0},
{0x1312,4,56,0},
{0x1316,29,0,0},
{0x1318,4,56,0},
{0x135B,29,0,0},
{0x135D,5,32,0},
{0x1360,17,0,0},
{0x1369,10,32,0},
{0x1372,10,0,0},
{0x137D,29,0,0},
{0x1380,4,56,0},
{0x1390,21,0,0},
{0x139A,29,0,0},
{0x13A0,0,60,0},
{0x13F6,29,0,0},
{0x13F8,1,58,-8},
{0x13FE,29,0,0},
{0x1400,12,0,0},
{0x1401,4,56,0},
{0x166D,21,0,0},
{0x166E,17,0,0},
{0x166F,4,56,0},
{0x1680,22,1,0},
{0x1681,4,56,0},
{0x169B,13,0,0},
{0x169C,14,0,0},
{0x169D,29,0,0},
{0x16A0,4,56,0},
{0x16EB,17,0,0},
{0x16EE,9,56,0},
{0x16F1,4,56,0},
{0x16F9,29,0,0},
{0x1700,4,56,0},
{0x1712,5,40,0},
{0x1714,5,32,0},
{0x1715,6,32,0},
{0x1716,29,0,0},
{0x171F,4,56,0},
{0x1732,5,40,0},
{0x1734,6,32,0},
{0x1735,17,0,0},
{0x1737,29,0,0},
{0x1740,4,56,0},
{0x1752,5,40,0},
{0x1754,29,0,0},
{0x1760,4,56,0},
{0x176D,29,0,0},
{0x176E,4,56,0},
{0x1771,29,0,0},
{0x1772,5,40,0},
{0x1774,29,0,0},
{0x1780,4,56,0},
{0x17B4,5,32,0},
{0x17B6,6,40,0},
{0x17B7,5,40,0},
{0x17BE,6,40,0},
{0x17C6,5,40,0},
{0x17C7,6,40,0},
{0x17C9,5,32,0},
{0x17D4,17,0,0},
{0x17D7,3,56,0},
{0x17D8,17,0,0},
{0x17DB,19,0,0},
{0x17DC,4,56,0},
{0x17DD,5,32,0},
{0x17DE,29,0,0},
{0x17E0,8,32,0},
{0x17EA,29,0,0},
{0x17F0,10,0,0},
{0x17FA,29,0,0},
{0x1800,17,0,0},
{0x1806,12,0,0},
{0x1807,17,0,0},
{0x180B,5,32,0},
{0x180E,26,0,0},
{0x180F,5,32,0},
{0x1810,8,32,0},
{0x181A,29,0,0},
{0x1820,4,56,0},
{0x1843,3,56,0},
{0x1844,4,56,0},
{0x1879,29,0,0},
{0x1880,4,56,0},
{0x1885,5,56,0},
{0x1887,4,56,0},
{0x18A9,5,40,0},
{0x18AA,4,56,0},
{0x18AB,29,0,0},
{0x18B0,4,56,0},
{0x18F6,29,0,0},
{0x1900,4,56,0},
{0x191F,29,0,0},
{0x1920,5,40,0},
{0x1923,6,40,0},
{0x1927,5,40,0},
{0x1929,6,40,0},
{0x192C,29,0,0},
{0x1930,6,40,0},
{0x1932,5,40,0},
{0x1933,6,40,0},
{0x1939,5,32,0},
{0x193C,29,0,0},
{0x1940,21,0,0},
{0x1941,29,0,0},
{0x1944,17,0,0},
{0x1946,8,32,0},
{0x1950,4,56,0},
{0x196E,29,0,0},
{0x1970,4,56,0},
{0x1975,29,0,0},
{0x1980,4,56,0},
{0x19AC,29,0,0},
{0x19B0,4,56,0},
{0x19CA,29,0,0},
{0x19D0,8,32,0},
{0x19DA,10,32,0},
{0x19DB,29,0,0},
{0x19DE,21,0,0},
{0x1A00,4,56,0},
{0x1A17,5,40,0},
{0x1A19,6,40,0},
{0x1A1B,5,40,0},
{0x1A1C,29,0,0},
{0x1A1E,17,0,0},
{0x1A20,4,56,0},
{0x1A55,6,40,0},
{0x1A56,5,40,0},
{0x1A57,6,40,0},
{0x1A58,5,40,0},
{0x1A5F,29,0,0},
{0x1A60,5,32,0},
{0x1A61,6,40,0},
{0x1A62,5,40,0},
{0x1A63,6,40,0},
{0x1A65,5,40,0},
{0x1A6D,6,40,0},
{0x1A73,5,40,0},
{0x1A75,5,32,0},
{0x1A7D,29,0,0},
{0x1A7F,5,32,0},
{0x1A80,8,32,0},
{0x1A8A,29,0,0},
{0x1A90,8,32,0},
{0x1A9A,29,0,0},
{0x1AA0,17,0,0},
{0x1AA7,3,56,0},
{0x1AA8,17,0,0},
{0x1AAE,29,0,0},
{0x1AB0,5,32,0},
{0x1ABE,7,0,0},
{0x1ABF,5,40,0},
{0x1AC1,5,32,0},
{0x1ACC,5,40,0},
{0x1ACF,29,0,0},
{0x1B00,5,40,0},
{0x1B04,6,40,0},
{0x1B05,4,56,0},
{0x1B34,5,32,0},
{0x1B35,6,40,0},
{0x1B36,5,40,0},
{0x1B3B,6,40,0},
{0x1B3C,5,40,0},
{0x1B3D,6,40,0},
{0x1B42,5,40,0},
{0x1B43,6,40,0},
{0x1B44,6,32,0},
{0x1B45,4,56,0},
{0x1B4D,29,0,0},
{0x1B50,8,32,0},
{0x1B5A,17,0,0},
{0x1B61,21,0,0},
{0x1B6B,5,32,0},
{0x1B74,21,0,0},
{0x1B7D,17,0,0},
{0x1B7F,29,0,0},
{0x1B80,5,40,0},
{0x1B82,6,40,0},
{0x1B83,4,56,0},
{0x1BA1,6,40,0},
{0x1BA2,5,40,0},
{0x1BA6,6,40,0},
{0x1BA8,5,40,0},
{0x1BAA,6,32,0},
{0x1BAB,5,32,0},
{0x1BAC,5,40,0},
{0x1BAE,4,56,0},
{0x1BB0,8,32,0},
{0x1BBA,4,56,0},
{0x1BE6,5,32,0},
{0x1BE7,6,40,0},
{0x1BE8,5,40,0},
{0x1BEA,6,40,0},
{0x1BED,5,40,0},
{0x1BEE,6,40,0},
{0x1BEF,5,40,0},
{0x1BF2,6,32,0},
{0x1BF4,29,0,0},
{0x1BFC,17,0,0},
{0x1C00,4,56,0},
{0x1C24,6,40,0},
{0x1C2C,5,40,0},
{0x1C34,6,40,0},
{0x1C36,5,40,0},
{0x1C37,5,32,0},
{0x1C38,29,0,0},
{0x1C3B,17,0,0},
{0x1C40,8,32,0},
{0x1C4A,29,0,0},
{0x1C4D,4,56,0},
{0x1C50,8,32,0},
{0x1C5A,4,56,0},
{0x1C78,3,56,0},
{0x1C7E,17,0,0},
{0x1C80,1,58,-6222},
{0x1C81,1,58,-6221},
{0x1C82,1,58,-6212},
{0x1C83,1,58,-6210},
{0x1C85,1,58,-6211},
{0x1C86,1,58,-6204},
{0x1C87,1,58,-6180},
{0x1C88,1,58,35267},
{0x1C89,29,0,0},
{0x1C90,0,60,-3008},
{0x1CBB,29,0,0},
{0x1CBD,0,60,-3008},
{0x1CC0,17,0,0},
{0x1CC8,29,0,0},
{0x1CD0,5,32,0},
{0x1CD3,17,0,0},
{0x1CD4,5,32,0},
{0x1CE1,6,32,0},
{0x1CE2,5,32,0},
{0x1CE9,4,56,0},
{0x1CED,5,32,0},
{0x1CEE,4,56,0},
{0x1CF4,5,32,0},
{0x1CF5,4,56,0},
{0x1CF7,6,32,0},
{0x1CF8,5,32,0},
{0x1CFA,4,56,0},
{0x1CFB,29,0,0},
{0x1D00,1,58,0},
{0x1D2C,3,58,0},
{0x1D6B,1,58,0},
{0x1D78,3,58,0},
{0x1D79,1,58,0},
{0x1D9B,3,58,0},
{0x1DC0,5,32,0},
{0x1DE7,5,40,0},
{0x1DF5,5,32,0},
{0x1E00,0,60,1},
{0x1E01,1,58,0},
{0x1E02,0,60,1},
{0x1E03,1,58,0},
{0x1E04,0,60,1},
{0x1E05,1,58,0},
{0x1E06,0,60,1},
{0x1E07,1,58,0},
{0x1E08,0,60,1},
{0x1E09,1,58,0},
{0x1E0A,0,60,1},
{0x1E0B,1,58,0},
{0x1E0C,0,60,1},
{0x1E0D,1,58,0},
{0x1E0E,0,60,1},
{0x1E0F,1,58,0},
{0x1E10,0,60,1},
{0x1E11,1,58,0},
{0x1E12,0,60,1},
{0x1E13,1,58,0},
{0x1E14,0,60,1},
{0x1E15,1,58,0},
{0x1E16,0,60,1},
{0x1E17,1,58,0},
{0x1E18,0,60,1},
{0x1E19,1,58,0},
{0x1E1A,0,60,1},
{0x1E1B,1,58,0},
{0x1E1C,0,60,1},
{0x1E1D,1,58,0},
{0x1E1E,0,60,1},
{0x1E1F,1,58,0},
{0x1E20,0,60,1},
{0x1E21,1,58,0},
{0x1E22,0,60,1},
{0x1E23,1,58,0},
{0x1E24,0,60,1},
{0x1E25,1,58,0},
{0x1E26,0,60,1},
{0x1E27,1,58,0},
{0x1E28,0,60,1},
{0x1E29,1,58,0},
{0x1E2A,0,60,1},
{0x1E2B,1,58,0},
{0x1E2C,0,60,1},
{0x1E2D,1,58,0},
{0x1E2E,0,60,1},
{0x1E2F,1,58,0},
{0x1E30,0,60,1},
{0x1E31,1,58,0},
{0x1E32,0,60,1},
{0x1E33,1,58,0},
{0x1E34,0,60,1},
{0x1E35,1,58,0},
{0x1E36,0,60,1},
{0x1E37,1,58,0},
{0x1E38,0,60,1},
{0x1E39,1,58,0},
{0x1E3A,0,60,1},
{0x1E3B,1,58,0},
{0x1E3C,0,60,1},
{0x1E3D,1,58,0},
{0x1E3E,0,60,1},
{0x1E3F,1,58,0},
{0x1E40,0,60,1},
{0x1E41,1,58,0},
{0x1E42,0,60,1},
{0x1E43,1,58,0},
{0x1E44,0,60,1},
{0x1E45,1,58,0},
{0x1E46,0,60,1},
{0x1E47,1,58,0},
{0x1E48,0,60,1},
{0x1E49,1,58,0},
{0x1E4A,0,60,1},
{0x1E4B,1,58,0},
{0x1E4C,0,60,1},
{0x1E4D,1,58,0},
{0x1E4E,0,60,1},
{0x1E4F,1,58,0},
{0x1E50,0,60,1},
{0x1E51,1,58,0},
{0x1E52,0,60,1},
{0x1E53,1,58,0},
{0x1E54,0,60,1},
{0x1E55,1,58,0},
{0x1E56,0,60,1},
{0x1E57,1,58,0},
{0x1E58,0,60,1},
{0x1E59,1,58,0},
{0x1E5A,0,60,1},
{0x1E5B,1,58,0},
{0x1E5C,0,60,1},
{0x1E5D,1,58,0},
{0x1E5E,0,60,1},
{0x1E5F,1,58,0},
{0x1E60,0,60,1},
{0x1E61,1,58,0},
{0x1E62,0,60,1},
{0x1E63,1,58,0},
{0x1E64,0,60,1},
{0x1E65,1,58,0},
{0x1E66,0,60,1},
{0x1E67,1,58,0},
{0x1E68,0,60,1},
{0x1E69,1,58,0},
{0x1E6A,0,60,1},
{0x1E6B,1,58,0},
{0x1E6C,0,60,1},
{0x1E6D,1,58,0},
{0x1E6E,0,60,1},
{0x1E6F,1,58,0},
{0x1E70,0,60,1},
{0x1E71,1,58,0},
{0x1E72,0,60,1},
{0x1E73,1,58,0},
{0x1E74,0,60,1},
{0x1E75,1,58,0},
{0x1E76,0,60,1},
{0x1E77,1,58,0},
{0x1E78,0,60,1},
{0x1E79,1,58,0},
{0x1E7A,0,60,1},
{0x1E7B,1,58,0},
{0x1E7C,0,60,1},
{0x1E7D,1,58,0},
{0x1E7E,0,60,1},
{0x1E7F,1,58,0},
{0x1E80,0,60,1},
{0x1E81,1,58,0},
{0x1E82,0,60,1},
{0x1E83,1,58,0},
{0x1E84,0,60,1},
{0x1E85,1,58,0},
{0x1E86,0,60,1},
{0x1E87,1,58,0},
{0x1E88,0,60,1},
{0x1E89,1,58,0},
{0x1E8A,0,60,1},
{0x1E8B,1,58,0},
{0x1E8C,0,60,1},
{0x1E8D,1,58,0},
{0x1E8E,0,60,1},
{0x1E8F,1,58,0},
{0x1E90,0,60,1},
{0x1E91,1,58,0},
{0x1E92,0,60,1},
{0x1E93,1,58,0},
{0x1E94,0,60,1},
{0x1E95,1,58,0},
{0x1E9B,1,58,-58},
{0x1E9C,1,58,0},
{0x1E9E,0,60,-7615},
{0x1E9F,1,58,0},
{0x1EA0,0,60,1},
{0x1EA1,1,58,0},
{0x1EA2,0,60,1},
{0x1EA3,1,58,0},
{0x1EA4,0,60,1},
{0x1EA5,1,58,0},
{0x1EA6,0,60,1},
{0x1EA7,1,58,0},
{0x1EA8,0,60,1},
{0x1EA9,1,58,0},
{0x1EAA,0,60,1},
{0x1EAB,1,58,0},
{0x1EAC,0,60,1},
{0x1EAD,1,58,0},
{0x1EAE,0,60,1},
{0x1EAF,1,58,0},
{0x1EB0,0,60,1},
{0x1EB1,1,58,0},
{0x1EB2,0,60,1},
{0x1EB3,1,58,0},
{0x1EB4,0,60,1},
{0x1EB5,1,58,0},
{0x1EB6,0,60,1},
{0x1EB7,1,58,0},
{0x1EB8,0,60,1},
{0x1EB9,1,58,0},
{0x1EBA,0,60,1},
{0x1EBB,1,58,0},
{0x1EBC,0,60,1},
{0x1EBD,1,58,0},
{0x1EBE,0,60,1},
{0x1EBF,1,58,0},
{0x1EC0,0,60,1},
{0x1EC1,1,58,0},
{0x1EC2,0,60,1},
{0x1EC3,1,58,0},
{0x1EC4,0,60,1},
{0x1EC5,1,58,0},
{0x1EC6,0,60,1},
{0x1EC7,1,58,0},
{0x1EC8,0,60,1},
{0x1EC9,1,58,0},
{0x1ECA,0,60,1},
{0x1ECB,1,58,0},
{0x1ECC,0,60,1},
{0x1ECD,1,58,0},
{0x1ECE,0,60,1},
{0x1ECF,1,58,0},
{0x1ED0,0,60,1},
{0x1ED1,1,58,0},
{0x1ED2,0,60,1},
{0x1ED3,1,58,0},
{0x1ED4,0,60,1},
{0x1ED5,1,58,0},
{0x1ED6,0,60,1},
{0x1ED7,1,58,0},
{0x1ED8,0,60,1},
{0x1ED9,1,58,0},
{0x1EDA,0,60,1},
{0x1EDB,1,58,0},
{0x1EDC,0,60,1},
{0x1EDD,1,58,0},
{0x1EDE,0,60,1},
{0x1EDF,1,58,0},
{0x1EE0,0,60,1},
{0x1EE1,1,58,0},
{0x1EE2,0,60,1},
{0x1EE3,1,58,0},
{0x1EE4,0,60,1},
{0x1EE5,1,58,0},
{0x1EE6,0,60,1},
{0x1EE7,1,58,0},
{0x1EE8,0,60,1},
{0x1EE9,1,58,0},
{0x1EEA,0,60,1},
{0x1EEB,1,58,0},
{0x1EEC,0,60,1},
{0x1EED,1,58,0},
{0x1EEE,0,60,1},
{0x1EEF,1,58,0},
{0x1EF0,0,60,1},
{0x1EF1,1,58,0},
{0x1EF2,0,60,1},
{0x1EF3,1,58,0},
{0x1EF4,0,60,1},
{0x1EF5,1,58,0},
{0x1EF6,0,60,1},
{0x1EF7,1,58,0},
{0x1EF8,0,60,1},
{0x1EF9,1,58,0},
{0x1EFA,0,60,1},
{0x1EFB,1,58,0},
{0x1EFC,0,60,1},
{0x1EFD,1,58,0},
{0x1EFE,0,60,1},
{0x1EFF,1,58,0},
{0x1F08,0,60,-8},
{0x1F10,1,58,0},
{0x1F16,29,0,0},
{0x1F18,0,60,-8},
{0x1F1E,29,0,0},
{0x1F20,1,58,0},
{0x1F28,0,60,-8},
{0x1F30,1,58,0},
{0x1F38,0,60,-8},
{0x1F40,1,58,0},
{0x1F46,29,0,0},
{0x1F48,0,60,-8},
{0x1F4E,29,0,0},
{0x1F50,1,58,0},
{0x1F58,29,0,0},
{0x1F59,0,60,-8},
{0x1F5A,29,0,0},
{0x1F5B,0,60,-8},
{0x1F5C,29,0,0},
{0x1F5D,0,60,-8},
{0x1F5E,29,0,0},
{0x1F5F,0,60,-8},
{0x1F60,1,58,0},
{0x1F68,0,60,-8},
{0x1F70,1,58,0},
{0x1F7E,29,0,0},
{0x1F80,1,58,0},
{0x1F88,2,56,-8},
{0x1F90,1,58,0},
{0x1F98,2,56,-8},
{0x1FA0,1,58,0},
{0x1FA8,2,56,-8},
{0x1FB0,1,58,0},
{0x1FB5,29,0,0},
{0x1FB6,1,58,0},
{0x1FB8,0,60,-8},
{0x1FBA,0,60,-74},
{0x1FBC,2,56,-9},
{0x1FBD,20,0,0},
{0x1FBE,1,58,-7173},
{0x1FBF,20,0,0},
{0x1FC2,1,58,0},
{0x1FC5,29,0,0},
{0x1FC6,1,58,0},
{0x1FC8,0,60,-86},
{0x1FCC,2,56,-9},
{0x1FCD,20,0,0},
{0x1FD0,1,58,0},
{0x1FD4,29,0,0},
{0x1FD6,1,58,0},
{0x1FD8,0,60,-8},
{0x1FDA,0,60,-100},
{0x1FDC,29,0,0},
{0x1FDD,20,0,0},
{0x1FE0,1,58,0},
{0x1FE8,0,60,-8},
{0x1FEA,0,60,-112},
{0x1FEC,0,60,-7},
{0x1FED,20,0,0},
{0x1FF0,29,0,0},
{0x1FF2,1,58,0},
{0x1FF5,29,0,0},
{0x1FF6,1,58,0},
{0x1FF8,0,60,-128},
{0x1FFA,0,60,-126},
{0x1FFC,2,56,-9},
{0x1FFD,20,0,0},
{0x1FFF,29,0,0},
{0x2000,22,1,0},
{0x200B,26,0,0},
{0x200C,26,64,0},
{0x200E,26,0,0},
{0x2010,12,0,0},
{0x2016,17,0,0},
{0x2018,15,0,0},
{0x2019,16,0,0},
{0x201A,13,0,0},
{0x201B,15,0,0},
{0x201D,16,0,0},
{0x201E,13,0,0},
{0x201F,15,0,0},
{0x2020,17,0,0},
{0x2028,23,1,0},
{0x2029,24,1,0},
{0x202A,26,0,0},
{0x202F,22,1,0},
{0x2030,17,0,0},
{0x2039,15,0,0},
{0x203A,16,0,0},
{0x203B,17,0,0},
{0x203F,11,32,0},
{0x2041,17,0,0},
{0x2044,18,0,0},
{0x2045,13,0,0},
{0x2046,14,0,0},
{0x2047,17,0,0},
{0x2052,18,0,0},
{0x2053,17,0,0},
{0x2054,11,32,0},
{0x2055,17,0,0},
{0x205F,22,1,0},
{0x2060,26,0,0},
{0x2065,29,0,0},
{0x2066,26,0,0},
{0x2070,10,0,0},
{0x2071,3,58,0},
{0x2072,29,0,0},
{0x2074,10,0,0},
{0x207A,18,0,0},
{0x207D,13,0,0},
{0x207E,14,0,0},
{0x207F,3,58,0},
{0x2080,10,0,0},
{0x208A,18,0,0},
{0x208D,13,0,0},
{0x208E,14,0,0},
{0x208F,29,0,0},
{0x2090,3,58,0},
{0x209D,29,0,0},
{0x20A0,19,0,0},
{0x20C1,29,0,0},
{0x20D0,5,32,0},
{0x20DD,7,0,0},
{0x20E1,5,32,0},
{0x20E2,7,0,0},
{0x20E5,5,32,0},
{0x20F1,29,0,0},
{0x2100,21,0,0},
{0x2102,0,60,0},
{0x2103,21,0,0},
{0x2107,0,60,0},
{0x2108,21,0,0},
{0x210A,1,58,0},
{0x210B,0,60,0},
{0x210E,1,58,0},
{0x2110,0,60,0},
{0x2113,1,58,0},
{0x2114,21,0,0},
{0x2115,0,60,0},
{0x2116,21,0,0},
{0x2118,18,48,0},
{0x2119,0,60,0},
{0x211E,21,0,0},
{0x2124,0,60,0},
{0x2125,21,0,0},
{0x2126,0,60,-7517},
{0x2127,21,0,0},
{0x2128,0,60,0},
{0x2129,21,0,0},
{0x212A,0,60,-8383},
{0x212B,0,60,-8262},
{0x212C,0,60,0},
{0x212E,21,48,0},
{0x212F,1,58,0},
{0x2130,0,60,0},
{0x2132,0,60,28},
{0x2133,0,60,0},
{0x2134,1,58,0},
{0x2135,4,56,0},
{0x2139,1,58,0},
{0x213A,21,0,0},
{0x213C,1,58,0},
{0x213E,0,60,0},
{0x2140,18,0,0},
{0x2145,0,60,0},
{0x2146,1,58,0},
{0x214A,21,0,0},
{0x214B,18,0,0},
{0x214C,21,0,0},
{0x214E,1,58,0},
{0x214F,21,0,0},
{0x2150,10,0,0},
{0x2160,9,60,16},
{0x2170,9,58,0},
{0x2180,9,56,0},
{0x2183,0,60,1},
{0x2184,1,58,0},
{0x2185,9,56,0},
{0x2189,10,0,0},
{0x218A,21,0,0},
{0x218C,29,0,0},
{0x2190,18,0,0},
{0x2195,21,0,0},
{0x219A,18,0,0},
{0x219C,21,0,0},
{0x21A0,18,0,0},
{0x21A1,21,0,0},
{0x21A3,18,0,0},
{0x21A4,21,0,0},
{0x21A6,18,0,0},
{0x21A7,21,0,0},
{0x21AE,18,0,0},
{0x21AF,21,0,0},
{0x21CE,18,0,0},
{0x21D0,21,0,0},
{0x21D2,18,0,0},
{0x21D3,21,0,0},
{0x21D4,18,0,0},
{0x21D5,21,0,0},
{0x21F4,18,0,0},
{0x2300,21,0,0},
{0x2308,13,0,0},
{0x2309,14,0,0},
{0x230A,13,0,0},
{0x230B,14,0,0},
{0x230C,21,0,0},
{0x2320,18,0,0},
{0x2322,21,0,0},
{0x2329,13,0,0},
{0x232A,14,0,0},
{0x232B,21,0,0},
{0x237C,18,0,0},
{0x237D,21,0,0},
{0x239B,18,0,0},
{0x23B4,21,0,0},
{0x23DC,18,0,0},
{0x23E2,21,0,0},
{0x2427,29,0,0},
{0x2440,21,0,0},
{0x244B,29,0,0},
{0x2460,10,0,0},
{0x249C,21,0,0},
{0x24B6,21,12,26},
{0x24D0,21,10,0},
{0x24EA,10,0,0},
{0x2500,21,0,0},
{0x25B7,18,0,0},
{0x25B8,21,0,0},
{0x25C1,18,0,0},
{0x25C2,21,0,0},
{0x25F8,18,0,0},
{0x2600,21,0,0},
{0x266F,18,0,0},
{0x2670,21,0,0},
{0x2768,13,0,0},
{0x2769,14,0,0},
{0x276A,13,0,0},
{0x276B,14,0,0},
{0x276C,13,0,0},
{0x276D,14,0,0},
{0x276E,13,0,0},
{0x276F,14,0,0},
{0x2770,13,0,0},
{0x2771,14,0,0},
{0x2772,13,0,0},
{0x2773,14,0,0},
{0x2774,13,0,0},
{0x2775,14,0,0},
{0x2776,10,0,0},
{0x2794,21,0,0},
{0x27C0,18,0,0},
{0x27C5,13,0,0},
{0x27C6,14,0,0},
{0x27C7,18,0,0},
{0x27E6,13,0,0},
{0x27E7,14,0,0},
{0x27E8,13,0,0},
{0x27E9,14,0,0},
{0x27EA,13,0,0},
{0x27EB,14,0,0},
{0x27EC,13,0,0},
{0x27ED,14,0,0},
{0x27EE,13,0,0},
{0x27EF,14,0,0},
{0x27F0,18,0,0},
{0x2800,21,0,0},
{0x2900,18,0,0},
{0x2983,13,0,0},
{0x2984,14,0,0},
{0x2985,13,0,0},
{0x2986,14,0,0},
{0x2987,13,0,0},
{0x2988,14,0,0},
{0x2989,13,0,0},
{0x298A,14,0,0},
{0x298B,13,0,0},
{0x298C,14,0,0},
{0x298D,13,0,0},
{0x298E,14,0,0},
{0x298F,13,0,0},
{0x2990,14,0,0},
{0x2991,13,0,0},
{0x2992,14,0,0},
{0x2993,13,0,0},
{0x2994,14,0,0},
{0x2995,13,0,0},
{0x2996,14,0,0},
{0x2997,13,0,0},
{0x2998,14,0,0},
{0x2999,18,0,0},
{0x29D8,13,0,0},
{0x29D9,14,0,0},
{0x29DA,13,0,0},
{0x29DB,14,0,0},
{0x29DC,18,0,0},
{0x29FC,13,0,0},
{0x29FD,14,0,0},
{0x29FE,18,0,0},
{0x2B00,21,0,0},
{0x2B30,18,0,0},
{0x2B45,21,0,0},
{0x2B47,18,0,0},
{0x2B4D,21,0,0},
{0x2B74,29,0,0},
{0x2B76,21,0,0},
{0x2B96,29,0,0},
{0x2B97,21,0,0},
{0x2C00,0,60,48},
{0x2C30,1,58,0},
{0x2C60,0,60,1},
{0x2C61,1,58,0},
{0x2C62,0,60,-10743},
{0x2C63,0,60,-3814},
{0x2C64,0,60,-10727},
{0x2C65,1,58,0},
{0x2C67,0,60,1},
{0x2C68,1,58,0},
{0x2C69,0,60,1},
{0x2C6A,1,58,0},
{0x2C6B,0,60,1},
{0x2C6C,1,58,0},
{0x2C6D,0,60,-10780},
{0x2C6E,0,60,-10749},
{0x2C6F,0,60,-10783},
{0x2C70,0,60,-10782},
{0x2C71,1,58,0},
{0x2C72,0,60,1},
{0x2C73,1,58,0},
{0x2C75,0,60,1},
{0x2C76,1,58,0},
{0x2C7C,3,58,0},
{0x2C7E,0,60,-10815},
{0x2C80,0,60,1},
{0x2C81,1,58,0},
{0x2C82,0,60,1},
{0x2C83,1,58,0},
{0x2C84,0,60,1},
{0x2C85,1,58,0},
{0x2C86,0,60,1},
{0x2C87,1,58,0},
{0x2C88,0,60,1},
{0x2C89,1,58,0},
{0x2C8A,0,60,1},
{0x2C8B,1,58,0},
{0x2C8C,0,60,1},
{0x2C8D,1,58,0},
{0x2C8E,0,60,1},
{0x2C8F,1,58,0},
{0x2C90,0,60,1},
{0x2C91,1,58,0},
{0x2C92,0,60,1},
{0x2C93,1,58,0},
{0x2C94,0,60,1},
{0x2C95,1,58,0},
{0x2C96,0,60,1},
{0x2C97,1,58,0},
{0x2C98,0,60,1},
{0x2C99,1,58,0},
{0x2C9A,0,60,1},
{0x2C9B,1,58,0},
{0x2C9C,0,60,1},
{0x2C9D,1,58,0},
{0x2C9E,0,60,1},
{0x2C9F,1,58,0},
{0x2CA0,0,60,1},
{0x2CA1,1,58,0},
{0x2CA2,0,60,1},
{0x2CA3,1,58,0},
{0x2CA4,0,60,1},
{0x2CA5,1,58,0},
{0x2CA6,0,60,1},
{0x2CA7,1,58,0},
{0x2CA8,0,60,1},
{0x2CA9,1,58,0},
{0x2CAA,0,60,1},
{0x2CAB,1,58,0},
{0x2CAC,0,60,1},
{0x2CAD,1,58,0},
{0x2CAE,0,60,1},
{0x2CAF,1,58,0},
{0x2CB0,0,60,1},
{0x2CB1,1,58,0},
{0x2CB2,0,60,1},
{0x2CB3,1,58,0},
{0x2CB4,0,60,1},
{0x2CB5,1,58,0},
{0x2CB6,0,60,1},
{0x2CB7,1,58,0},
{0x2CB8,0,60,1},
{0x2CB9,1,58,0},
{0x2CBA,0,60,1},
{0x2CBB,1,58,0},
{0x2CBC,0,60,1},
{0x2CBD,1,58,0},
{0x2CBE,0,60,1},
{0x2CBF,1,58,0},
{0x2CC0,0,60,1},
{0x2CC1,1,58,0},
{0x2CC2,0,60,1},
{0x2CC3,1,58,0},
{0x2CC4,0,60,1},
{0x2CC5,1,58,0},
{0x2CC6,0,60,1},
{0x2CC7,1,58,0},
{0x2CC8,0,60,1},
{0x2CC9,1,58,0},
{0x2CCA,0,60,1},
{0x2CCB,1,58,0},
{0x2CCC,0,60,1},
{0x2CCD,1,58,0},
{0x2CCE,0,60,1},
{0x2CCF,1,58,0},
{0x2CD0,0,60,1},
{0x2CD1,1,58,0},
{0x2CD2,0,60,1},
{0x2CD3,1,58,0},
{0x2CD4,0,60,1},
{0x2CD5,1,58,0},
{0x2CD6,0,60,1},
{0x2CD7,1,58,0},
{0x2CD8,0,60,1},
{0x2CD9,1,58,0},
{0x2CDA,0,60,1},
{0x2CDB,1,58,0},
{0x2CDC,0,60,1},
{0x2CDD,1,58,0},
{0x2CDE,0,60,1},
{0x2CDF,1,58,0},
{0x2CE0,0,60,1},
{0x2CE1,1,58,0},
{0x2CE2,0,60,1},
{0x2CE3,1,58,0},
{0x2CE5,21,0,0},
{0x2CEB,0,60,1},
{0x2CEC,1,58,0},
{0x2CED,0,60,1},
{0x2CEE,1,58,0},
{0x2CEF,5,32,0},
{0x2CF2,0,60,1},
{0x2CF3,1,58,0},
{0x2CF4,29,0,0},
{0x2CF9,17,0,0},
{0x2CFD,10,0,0},
{0x2CFE,17,0,0},
{0x2D00,1,58,0},
{0x2D26,29,0,0},
{0x2D27,1,58,0},
{0x2D28,29,0,0},
{0x2D2D,1,58,0},
{0x2D2E,29,0,0},
{0x2D30,4,56,0},
{0x2D68,29,0,0},
{0x2D6F,3,56,0},
{0x2D70,17,0,0},
{0x2D71,29,0,0},
{0x2D7F,5,32,0},
{0x2D80,4,56,0},
{0x2D97,29,0,0},
{0x2DA0,4,56,0},
{0x2DA7,29,0,0},
{0x2DA8,4,56,0},
{0x2DAF,29,0,0},
{0x2DB0,4,56,0},
{0x2DB7,29,0,0},
{0x2DB8,4,56,0},
{0x2DBF,29,0,0},
{0x2DC0,4,56,0},
{0x2DC7,29,0,0},
{0x2DC8,4,56,0},
{0x2DCF,29,0,0},
{0x2DD0,4,56,0},
{0x2DD7,29,0,0},
{0x2DD8,4,56,0},
{0x2DDF,29,0,0},
{0x2DE0,5,40,0},
{0x2E00,17,0,0},
{0x2E02,15,0,0},
{0x2E03,16,0,0},
{0x2E04,15,0,0},
{0x2E05,16,0,0},
{0x2E06,17,0,0},
{0x2E09,15,0,0},
{0x2E0A,16,0,0},
{0x2E0B,17,0,0},
{0x2E0C,15,0,0},
{0x2E0D,16,0,0},
{0x2E0E,17,0,0},
{0x2E17,12,0,0},
{0x2E18,17,0,0},
{0x2E1A,12,0,0},
{0x2E1B,17,0,0},
{0x2E1C,15,0,0},
{0x2E1D,16,0,0},
{0x2E1E,17,0,0},
{0x2E20,15,0,0},
{0x2E21,16,0,0},
{0x2E22,13,0,0},
{0x2E23,14,0,0},
{0x2E24,13,0,0},
{0x2E25,14,0,0},
{0x2E26,13,0,0},
{0x2E27,14,0,0},
{0x2E28,13,0,0},
{0x2E29,14,0,0},
{0x2E2A,17,0,0},
{0x2E2F,3,8,0},
{0x2E30,17,0,0},
{0x2E3A,12,0,0},
{0x2E3C,17,0,0},
{0x2E40,12,0,0},
{0x2E41,17,0,0},
{0x2E42,13,0,0},
{0x2E43,17,0,0},
{0x2E50,21,0,0},
{0x2E52,17,0,0},
{0x2E55,13,0,0},
{0x2E56,14,0,0},
{0x2E57,13,0,0},
{0x2E58,14,0,0},
{0x2E59,13,0,0},
{0x2E5A,14,0,0},
{0x2E5B,13,0,0},
{0x2E5C,14,0,0},
{0x2E5D,12,0,0},
{0x2E5E,29,0,0},
{0x2E80,21,0,0},
{0x2E9A,29,0,0},
{0x2E9B,21,0,0},
{0x2EF4,29,0,0},
{0x2F00,21,0,0},
{0x2FD6,29,0,0},
{0x2FF0,21,0,0},
{0x2FFC,29,0,0},
{0x3000,22,1,0},
{0x3001,17,0,0},
{0x3004,21,0,0},
{0x3005,3,56,0},
{0x3006,4,56,0},
{0x3007,9,56,0},
{0x3008,13,0,0},
{0x3009,14,0,0},
{0x300A,13,0,0},
{0x300B,14,0,0},
{0x300C,13,0,0},
{0x300D,14,0,0},
{0x300E,13,0,0},
{0x300F,14,0,0},
{0x3010,13,0,0},
{0x3011,14,0,0},
{0x3012,21,0,0},
{0x3014,13,0,0},
{0x3015,14,0,0},
{0x3016,13,0,0},
{0x3017,14,0,0},
{0x3018,13,0,0},
{0x3019,14,0,0},
{0x301A,13,0,0},
{0x301B,14,0,0},
{0x301C,12,0,0},
{0x301D,13,0,0},
{0x301E,14,0,0},
{0x3020,21,0,0},
{0x3021,9,56,0},
{0x302A,5,32,0},
{0x302E,6,32,0},
{0x3030,12,0,0},
{0x3031,3,56,0},
{0x3036,21,0,0},
{0x3038,9,56,0},
{0x303B,3,56,0},
{0x303C,4,56,0},
{0x303D,17,0,0},
{0x303E,21,0,0},
{0x3040,29,0,0},
{0x3041,4,56,0},
{0x3097,29,0,0},
{0x3099,5,32,0},
{0x309B,20,0,0},
{0x309D,3,56,0},
{0x309F,4,56,0},
{0x30A0,12,0,0},
{0x30A1,4,56,0},
{0x30FB,17,0,0},
{0x30FC,3,56,0},
{0x30FF,4,56,0},
{0x3100,29,0,0},
{0x3105,4,56,0},
{0x3130,29,0,0},
{0x3131,4,56,0},
{0x318F,29,0,0},
{0x3190,21,0,0},
{0x3192,10,0,0},
{0x3196,21,0,0},
{0x31A0,4,56,0},
{0x31C0,21,0,0},
{0x31E4,29,0,0},
{0x31F0,4,56,0},
{0x3200,21,0,0},
{0x321F,29,0,0},
{0x3220,10,0,0},
{0x322A,21,0,0},
{0x3248,10,0,0},
{0x3250,21,0,0},
{0x3251,10,0,0},
{0x3260,21,0,0},
{0x3280,10,0,0},
{0x328A,21,0,0},
{0x32B1,10,0,0},
{0x32C0,21,0,0},
{0x3400,4,56,0},
{0x4DC0,21,0,0},
{0x4E00,4,56,0},
{0xA015,3,56,0},
{0xA016,4,56,0},
{0xA48D,29,0,0},
{0xA490,21,0,0},
{0xA4C7,29,0,0},
{0xA4D0,4,56,0},
{0xA4F8,3,56,0},
{0xA4FE,17,0,0},
{0xA500,4,56,0},
{0xA60C,3,56,0},
{0xA60D,17,0,0},
{0xA610,4,56,0},
{0xA620,8,32,0},
{0xA62A,4,56,0},
{0xA62C,29,0,0},
{0xA640,0,60,1},
{0xA641,1,58,0},
{0xA642,0,60,1},
{0xA643,1,58,0},
{0xA644,0,60,1},
{0xA645,1,58,0},
{0xA646,0,60,1},
{0xA647,1,58,0},
{0xA648,0,60,1},
{0xA649,1,58,0},
{0xA64A,0,60,1},
{0xA64B,1,58,0},
{0xA64C,0,60,1},
{0xA64D,1,58,0},
{0xA64E,0,60,1},
{0xA64F,1,58,0},
{0xA650,0,60,1},
{0xA651,1,58,0},
{0xA652,0,60,1},
{0xA653,1,58,0},
{0xA654,0,60,1},
{0xA655,1,58,0},
{0xA656,0,60,1},
{0xA657,1,58,0},
{0xA658,0,60,1},
{0xA659,1,58,0},
{0xA65A,0,60,1},
{0xA65B,1,58,0},
{0xA65C,0,60,1},
{0xA65D,1,58,0},
{0xA65E,0,60,1},
{0xA65F,1,58,0},
{0xA660,0,60,1},
{0xA661,1,58,0},
{0xA662,0,60,1},
{0xA663,1,58,0},
{0xA664,0,60,1},
{0xA665,1,58,0},
{0xA666,0,60,1},
{0xA667,1,58,0},
{0xA668,0,60,1},
{0xA669,1,58,0},
{0xA66A,0,60,1},
{0xA66B,1,58,0},
{0xA66C,0,60,1},
{0xA66D,1,58,0},
{0xA66E,4,56,0},
{0xA66F,5,32,0},
{0xA670,7,0,0},
{0xA673,17,0,0},
{0xA674,5,40,0},
{0xA67C,5,32,0},
{0xA67E,17,0,0},
{0xA67F,3,56,0},
{0xA680,0,60,1},
{0xA681,1,58,0},
{0xA682,0,60,1},
{0xA683,1,58,0},
{0xA684,0,60,1},
{0xA685,1,58,0},
{0xA686,0,60,1},
{0xA687,1,58,0},
{0xA688,0,60,1},
{0xA689,1,58,0},
{0xA68A,0,60,1},
{0xA68B,1,58,0},
{0xA68C,0,60,1},
{0xA68D,1,58,0},
{0xA68E,0,60,1},
{0xA68F,1,58,0},
{0xA690,0,60,1},
{0xA691,1,58,0},
{0xA692,0,60,1},
{0xA693,1,58,0},
{0xA694,0,60,1},
{0xA695,1,58,0},
{0xA696,0,60,1},
{0xA697,1,58,0},
{0xA698,0,60,1},
{0xA699,1,58,0},
{0xA69A,0,60,1},
{0xA69B,1,58,0},
{0xA69C,3,58,0},
{0xA69E,5,40,0},
{0xA6A0,4,56,0},
{0xA6E6,9,56,0},
{0xA6F0,5,32,0},
{0xA6F2,17,0,0},
{0xA6F8,29,0,0},
{0xA700,20,0,0},
{0xA717,3,56,0},
{0xA720,20,0,0},
{0xA722,0,60,1},
{0xA723,1,58,0},
{0xA724,0,60,1},
{0xA725,1,58,0},
{0xA726,0,60,1},
{0xA727,1,58,0},
{0xA728,0,60,1},
{0xA729,1,58,0},
{0xA72A,0,60,1},
{0xA72B,1,58,0},
{0xA72C,0,60,1},
{0xA72D,1,58,0},
{0xA72E,0,60,1},
{0xA72F,1,58,0},
{0xA732,0,60,1},
{0xA733,1,58,0},
{0xA734,0,60,1},
{0xA735,1,58,0},
{0xA736,0,60,1},
{0xA737,1,58,0},
{0xA738,0,60,1},
{0xA739,1,58,0},
{0xA73A,0,60,1},
{0xA73B,1,58,0},
{0xA73C,0,60,1},
{0xA73D,1,58,0},
{0xA73E,0,60,1},
{0xA73F,1,58,0},
{0xA740,0,60,1},
{0xA741,1,58,0},
{0xA742,0,60,1},
{0xA743,1,58,0},
{0xA744,0,60,1},
{0xA745,1,58,0},
{0xA746,0,60,1},
{0xA747,1,58,0},
{0xA748,0,60,1},
{0xA749,1,58,0},
{0xA74A,0,60,1},
{0xA74B,1,58,0},
{0xA74C,0,60,1},
{0xA74D,1,58,0},
{0xA74E,0,60,1},
{0xA74F,1,58,0},
{0xA750,0,60,1},
{0xA751,1,58,0},
{0xA752,0,60,1},
{0xA753,1,58,0},
{0xA754,0,60,1},
{0xA755,1,58,0},
{0xA756,0,60,1},
{0xA757,1,58,0},
{0xA758,0,60,1},
{0xA759,1,58,0},
{0xA75A,0,60,1},
{0xA75B,1,58,0},
{0xA75C,0,60,1},
{0xA75D,1,58,0},
{0xA75E,0,60,1},
{0xA75F,1,58,0},
{0xA760,0,60,1},
{0xA761,1,58,0},
{0xA762,0,60,1},
{0xA763,1,58,0},
{0xA764,0,60,1},
{0xA765,1,58,0},
{0xA766,0,60,1},
{0xA767,1,58,0},
{0xA768,0,60,1},
{0xA769,1,58,0},
{0xA76A,0,60,1},
{0xA76B,1,58,0},
{0xA76C,0,60,1},
{0xA76D,1,58,0},
{0xA76E,0,60,1},
{0xA76F,1,58,0},
{0xA770,3,58,0},
{0xA771,1,58,0},
{0xA779,0,60,1},
{0xA77A,1,58,0},
{0xA77B,0,60,1},
{0xA77C,1,58,0},
{0xA77D,0,60,-35332},
{0xA77E,0,60,1},
{0xA77F,1,58,0},
{0xA780,0,60,1},
{0xA781,1,58,0},
{0xA782,0,60,1},
{0xA783,1,58,0},
{0xA784,0,60,1},
{0xA785,1,58,0},
{0xA786,0,60,1},
{0xA787,1,58,0},
{0xA788,3,56,0},
{0xA789,20,0,0},
{0xA78B,0,60,1},
{0xA78C,1,58,0},
{0xA78D,0,60,-42280},
{0xA78E,1,58,0},
{0xA78F,4,56,0},
{0xA790,0,60,1},
{0xA791,1,58,0},
{0xA792,0,60,1},
{0xA793,1,58,0},
{0xA796,0,60,1},
{0xA797,1,58,0},
{0xA798,0,60,1},
{0xA799,1,58,0},
{0xA79A,0,60,1},
{0xA79B,1,58,0},
{0xA79C,0,60,1},
{0xA79D,1,58,0},
{0xA79E,0,60,1},
{0xA79F,1,58,0},
{0xA7A0,0,60,1},
{0xA7A1,1,58,0},
{0xA7A2,0,60,1},
{0xA7A3,1,58,0},
{0xA7A4,0,60,1},
{0xA7A5,1,58,0},
{0xA7A6,0,60,1},
{0xA7A7,1,58,0},
{0xA7A8,0,60,1},
{0xA7A9,1,58,0},
{0xA7AA,0,60,-42308},
{0xA7AB,0,60,-42319},
{0xA7AC,0,60,-42315},
{0xA7AD,0,60,-42305},
{0xA7AE,0,60,-42308},
{0xA7AF,1,58,0},
{0xA7B0,0,60,-42258},
{0xA7B1,0,60,-42282},
{0xA7B2,0,60,-42261},
{0xA7B3,0,60,928},
{0xA7B4,0,60,1},
{0xA7B5,1,58,0},
{0xA7B6,0,60,1},
{0xA7B7,1,58,0},
{0xA7B8,0,60,1},
{0xA7B9,1,58,0},
{0xA7BA,0,60,1},
{0xA7BB,1,58,0},
{0xA7BC,0,60,1},
{0xA7BD,1,58,0},
{0xA7BE,0,60,1},
{0xA7BF,1,58,0},
{0xA7C0,0,60,1},
{0xA7C1,1,58,0},
{0xA7C2,0,60,1},
{0xA7C3,1,58,0},
{0xA7C4,0,60,-48},
{0xA7C5,0,60,-42307},
{0xA7C6,0,60,-35384},
{0xA7C7,0,60,1},
{0xA7C8,1,58,0},
{0xA7C9,0,60,1},
{0xA7CA,1,58,0},
{0xA7CB,29,0,0},
{0xA7D0,0,60,1},
{0xA7D1,1,58,0},
{0xA7D2,29,0,0},
{0xA7D3,1,58,0},
{0xA7D4,29,0,0},
{0xA7D5,1,58,0},
{0xA7D6,0,60,1},
{0xA7D7,1,58,0},
{0xA7D8,0,60,1},
{0xA7D9,1,58,0},
{0xA7DA,29,0,0},
{0xA7F2,3,58,0},
{0xA7F5,0,60,1},
{0xA7F6,1,58,0},
{0xA7F7,4,56,0},
{0xA7F8,3,58,0},
{0xA7FA,1,58,0},
{0xA7FB,4,56,0},
{0xA802,5,40,0},
{0xA803,4,56,0},
{0xA806,5,32,0},
{0xA807,4,56,0},
{0xA80B,5,40,0},
{0xA80C,4,56,0},
{0xA823,6,40,0},
{0xA825,5,40,0},
{0xA827,6,40,0},
{0xA828,21,0,0},
{0xA82C,5,32,0},
{0xA82D,29,0,0},
{0xA830,10,0,0},
{0xA836,21,0,0},
{0xA838,19,0,0},
{0xA839,21,0,0},
{0xA83A,29,0,0},
{0xA840,4,56,0},
{0xA874,17,0,0},
{0xA878,29,0,0},
{0xA880,6,40,0},
{0xA882,4,56,0},
{0xA8B4,6,40,0},
{0xA8C4,5,32,0},
{0xA8C5,5,40,0},
{0xA8C6,29,0,0},
{0xA8CE,17,0,0},
{0xA8D0,8,32,0},
{0xA8DA,29,0,0},
{0xA8E0,5,32,0},
{0xA8F2,4,56,0},
{0xA8F8,17,0,0},
{0xA8FB,4,56,0},
{0xA8FC,17,0,0},
{0xA8FD,4,56,0},
{0xA8FF,5,40,0},
{0xA900,8,32,0},
{0xA90A,4,56,0},
{0xA926,5,40,0},
{0xA92B,5,32,0},
{0xA92E,17,0,0},
{0xA930,4,56,0},
{0xA947,5,40,0},
{0xA952,6,40,0},
{0xA953,6,32,0},
{0xA954,29,0,0},
{0xA95F,17,0,0},
{0xA960,4,56,0},
{0xA97D,29,0,0},
{0xA980,5,40,0},
{0xA983,6,40,0},
{0xA984,4,56,0},
{0xA9B3,5,32,0},
{0xA9B4,6,40,0},
{0xA9B6,5,40,0},
{0xA9BA,6,40,0},
{0xA9BC,5,40,0},
{0xA9BE,6,40,0},
{0xA9C0,6,32,0},
{0xA9C1,17,0,0},
{0xA9CE,29,0,0},
{0xA9CF,3,56,0},
{0xA9D0,8,32,0},
{0xA9DA,29,0,0},
{0xA9DE,17,0,0},
{0xA9E0,4,56,0},
{0xA9E5,5,40,0},
{0xA9E6,3,56,0},
{0xA9E7,4,56,0},
{0xA9F0,8,32,0},
{0xA9FA,4,56,0},
{0xA9FF,29,0,0},
{0xAA00,4,56,0},
{0xAA29,5,40,0},
{0xAA2F,6,40,0},
{0xAA31,5,40,0},
{0xAA33,6,40,0},
{0xAA35,5,40,0},
{0xAA37,29,0,0},
{0xAA40,4,56,0},
{0xAA43,5,40,0},
{0xAA44,4,56,0},
{0xAA4C,5,40,0},
{0xAA4D,6,40,0},
{0xAA4E,29,0,0},
{0xAA50,8,32,0},
{0xAA5A,29,0,0},
{0xAA5C,17,0,0},
{0xAA60,4,56,0},
{0xAA70,3,56,0},
{0xAA71,4,56,0},
{0xAA77,21,0,0},
{0xAA7A,4,56,0},
{0xAA7B,6,40,0},
{0xAA7C,5,40,0},
{0xAA7D,6,40,0},
{0xAA7E,4,56,0},
{0xAAB0,5,40,0},
{0xAAB1,4,56,0},
{0xAAB2,5,40,0},
{0xAAB5,4,56,0},
{0xAAB7,5,40,0},
{0xAAB9,4,56,0},
{0xAABE,5,40,0},
{0xAABF,5,32,0},
{0xAAC0,4,56,0},
{0xAAC1,5,32,0},
{0xAAC2,4,56,0},
{0xAAC3,29,0,0},
{0xAADB,4,56,0},
{0xAADD,3,56,0},
{0xAADE,17,0,0},
{0xAAE0,4,56,0},
{0xAAEB,6,40,0},
{0xAAEC,5,40,0},
{0xAAEE,6,40,0},
{0xAAF0,17,0,0},
{0xAAF2,4,56,0},
{0xAAF3,3,56,0},
{0xAAF5,6,40,0},
{0xAAF6,5,32,0},
{0xAAF7,29,0,0},
{0xAB01,4,56,0},
{0xAB07,29,0,0},
{0xAB09,4,56,0},
{0xAB0F,29,0,0},
{0xAB11,4,56,0},
{0xAB17,29,0,0},
{0xAB20,4,56,0},
{0xAB27,29,0,0},
{0xAB28,4,56,0},
{0xAB2F,29,0,0},
{0xAB30,1,58,0},
{0xAB5B,20,0,0},
{0xAB5C,3,58,0},
{0xAB60,1,58,0},
{0xAB69,3,58,0},
{0xAB6A,20,0,0},
{0xAB6C,29,0,0},
{0xAB70,1,58,-38864},
{0xABC0,4,56,0},
{0xABE3,6,40,0},
{0xABE5,5,40,0},
{0xABE6,6,40,0},
{0xABE8,5,40,0},
{0xABE9,6,40,0},
{0xABEB,17,0,0},
{0xABEC,6,32,0},
{0xABED,5,32,0},
{0xABEE,29,0,0},
{0xABF0,8,32,0},
{0xABFA,29,0,0},
{0xAC00,4,56,0},
{0xD7A4,29,0,0},
{0xD7B0,4,56,0},
{0xD7C7,29,0,0},
{0xD7CB,4,56,0},
{0xD7FC,29,0,0},
{0xD800,27,0,0},
{0xE000,28,0,0},
{0xF900,4,56,0},
{0xFA6E,29,0,0},
{0xFA70,4,56,0},
{0xFADA,29,0,0},
{0xFB00,1,58,0},
{0xFB07,29,0,0},
{0xFB13,1,58,0},
{0xFB18,29,0,0},
{0xFB1D,4,56,0},
{0xFB1E,5,40,0},
{0xFB1F,4,56,0},
{0xFB29,18,0,0},
{0xFB2A,4,56,0},
{0xFB37,29,0,0},
{0xFB38,4,56,0},
{0xFB3D,29,0,0},
{0xFB3E,4,56,0},
{0xFB3F,29,0,0},
{0xFB40,4,56,0},
{0xFB42,29,0,0},
{0xFB43,4,56,0},
{0xFB45,29,0,0},
{0xFB46,4,56,0},
{0xFBB2,20,0,0},
{0xFBC3,29,0,0},
{0xFBD3,4,56,0},
{0xFC5E,4,8,0},
{0xFC64,4,56,0},
{0xFD3E,14,0,0},
{0xFD3F,13,0,0},
{0xFD40,21,0,0},
{0xFD50,4,56,0},
{0xFD90,29,0,0},
{0xFD92,4,56,0},
{0xFDC8,29,0,0},
{0xFDCF,21,0,0},
{0xFDD0,29,0,0},
{0xFDF0,4,56,0},
{0xFDFA,4,8,0},
{0xFDFC,19,0,0},
{0xFDFD,21,0,0},
{0xFE00,5,32,0},
{0xFE10,17,0,0},
{0xFE17,13,0,0},
{0xFE18,14,0,0},
{0xFE19,17,0,0},
{0xFE1A,29,0,0},
{0xFE20,5,32,0},
{0xFE30,17,0,0},
{0xFE31,12,0,0},
{0xFE33,11,32,0},
{0xFE35,13,0,0},
{0xFE36,14,0,0},
{0xFE37,13,0,0},
{0xFE38,14,0,0},
{0xFE39,13,0,0},
{0xFE3A,14,0,0},
{0xFE3B,13,0,0},
{0xFE3C,14,0,0},
{0xFE3D,13,0,0},
{0xFE3E,14,0,0},
{0xFE3F,13,0,0},
{0xFE40,14,0,0},
{0xFE41,13,0,0},
{0xFE42,14,0,0},
{0xFE43,13,0,0},
{0xFE44,14,0,0},
{0xFE45,17,0,0},
{0xFE47,13,0,0},
{0xFE48,14,0,0},
{0xFE49,17,0,0},
{0xFE4D,11,32,0},
{0xFE50,17,0,0},
{0xFE53,29,0,0},
{0xFE54,17,0,0},
{0xFE58,12,0,0},
{0xFE59,13,0,0},
{0xFE5A,14,0,0},
{0xFE5B,13,0,0},
{0xFE5C,14,0,0},
{0xFE5D,13,0,0},
{0xFE5E,14,0,0},
{0xFE5F,17,0,0},
{0xFE62,18,0,0},
{0xFE63,12,0,0},
{0xFE64,18,0,0},
{0xFE67,29,0,0},
{0xFE68,17,0,0},
{0xFE69,19,0,0},
{0xFE6A,17,0,0},
{0xFE6C,29,0,0},
{0xFE70,4,8,0},
{0xFE71,4,56,0},
{0xFE72,4,8,0},
{0xFE73,4,56,0},
{0xFE74,4,8,0},
{0xFE75,29,0,0},
{0xFE76,4,8,0},
{0xFE77,4,56,0},
{0xFE78,4,8,0},
{0xFE79,4,56,0},
{0xFE7A,4,8,0},
{0xFE7B,4,56,0},
{0xFE7C,4,8,0},
{0xFE7D,4,56,0},
{0xFE7E,4,8,0},
{0xFE7F,4,56,0},
{0xFEFD,29,0,0},
{0xFEFF,26,0,0},
{0xFF00,29,0,0},
{0xFF01,17,0,0},
{0xFF04,19,0,0},
{0xFF05,17,0,0},
{0xFF08,13,0,0},
{0xFF09,14,0,0},
{0xFF0A,17,0,0},
{0xFF0B,18,0,0},
{0xFF0C,17,0,0},
{0xFF0D,12,0,0},
{0xFF0E,17,0,0},
{0xFF10,8,32,0},
{0xFF1A,17,0,0},
{0xFF1C,18,0,0},
{0xFF1F,17,0,0},
{0xFF21,0,60,32},
{0xFF3B,13,0,0},
{0xFF3C,17,0,0},
{0xFF3D,14,0,0},
{0xFF3E,20,0,0},
{0xFF3F,11,32,0},
{0xFF40,20,0,0},
{0xFF41,1,58,0},
{0xFF5B,13,0,0},
{0xFF5C,18,0,0},
{0xFF5D,14,0,0},
{0xFF5E,18,0,0},
{0xFF5F,13,0,0},
{0xFF60,14,0,0},
{0xFF61,17,0,0},
{0xFF62,13,0,0},
{0xFF63,14,0,0},
{0xFF64,17,0,0},
{0xFF66,4,56,0},
{0xFF70,3,56,0},
{0xFF71,4,56,0},
{0xFF9E,3,40,0},
{0xFFA0,4,56,0},
{0xFFBF,29,0,0},
{0xFFC2,4,56,0},
{0xFFC8,29,0,0},
{0xFFCA,4,56,0},
{0xFFD0,29,0,0},
{0xFFD2,4,56,0},
{0xFFD8,29,0,0},
{0xFFDA,4,56,0},
{0xFFDD,29,0,0},
{0xFFE0,19,0,0},
{0xFFE2,18,0,0},
{0xFFE3,20,0,0},
{0xFFE4,21,0,0},
{0xFFE5,19,0,0},
{0xFFE7,29,0,0},
{0xFFE8,21,0,0},
{0xFFE9,18,0,0},
{0xFFED,21,0,0},
{0xFFEF,29,0,0},
{0xFFF9,26,0,0},
{0xFFFC,21,0,0},
{0xFFFE,29,0,0},
{0x10000,4,56,0},
{0x1000C,29,0,0},
{0x1000D,4,56,0},
{0x10027,29,0,0},
{0x10028,4,56,0},
{0x1003B,29,0,0},
{0x1003C,4,56,0},
{0x1003E,29,0,0},
{0x1003F,4,56,0},
{0x1004E,29,0,0},
{0x10050,4,56,0},
{0x1005E,29,0,0},
{0x10080,4,56,0},
{0x100FB,29,0,0},
{0x10100,17,0,0},
{0x10103,29,0,0},
{0x10107,10,0,0},
{0x10134,29,0,0},
{0x10137,21,0,0},
{0x10140,9,56,0},
{0x10175,10,0,0},
{0x10179,21,0,0},
{0x1018A,10,0,0},
{0x1018C,21,0,0},
{0x1018F,29,0,0},
{0x10190,21,0,0},
{0x1019D,29,0,0},
{0x101A0,21,0,0},
{0x101A1,29,0,0},
{0x101D0,21,0,0},
{0x101FD,5,32,0},
{0x101FE,29,0,0},
{0x10280,4,56,0},
{0x1029D,29,0,0},
{0x102A0,4,56,0},
{0x102D1,29,0,0},
{0x102E0,5,32,0},
{0x102E1,10,0,0},
{0x102FC,29,0,0},
{0x10300,4,56,0},
{0x10320,10,0,0},
{0x10324,29,0,0},
{0x1032D,4,56,0},
{0x10341,9,56,0},
{0x10342,4,56,0},
{0x1034A,9,56,0},
{0x1034B,29,0,0},
{0x10350,4,56,0},
{0x10376,5,40,0},
{0x1037B,29,0,0},
{0x10380,4,56,0},
{0x1039E,29,0,0},
{0x1039F,17,0,0},
{0x103A0,4,56,0},
{0x103C4,29,0,0},
{0x103C8,4,56,0},
{0x103D0,17,0,0},
{0x103D1,9,56,0},
{0x103D6,29,0,0},
{0x10400,0,60,40},
{0x10428,1,58,0},
{0x10450,4,56,0},
{0x1049E,29,0,0},
{0x104A0,8,32,0},
{0x104AA,29,0,0},
{0x104B0,0,60,40},
{0x104D4,29,0,0},
{0x104D8,1,58,0},
{0x104FC,29,0,0},
{0x10500,4,56,0},
{0x10528,29,0,0},
{0x10530,4,56,0},
{0x10564,29,0,0},
{0x1056F,17,0,0},
{0x10570,0,60,39},
{0x1057B,29,0,0},
{0x1057C,0,60,39},
{0x1058B,29,0,0},
{0x1058C,0,60,39},
{0x10593,29,0,0},
{0x10594,0,60,39},
{0x10596,29,0,0},
{0x10597,1,58,0},
{0x105A2,29,0,0},
{0x105A3,1,58,0},
{0x105B2,29,0,0},
{0x105B3,1,58,0},
{0x105BA,29,0,0},
{0x105BB,1,58,0},
{0x105BD,29,0,0},
{0x10600,4,56,0},
{0x10737,29,0,0},
{0x10740,4,56,0},
{0x10756,29,0,0},
{0x10760,4,56,0},
{0x10768,29,0,0},
{0x10780,3,58,0},
{0x10781,3,56,0},
{0x10783,3,58,0},
{0x10786,29,0,0},
{0x10787,3,58,0},
{0x107B1,29,0,0},
{0x107B2,3,58,0},
{0x107BB,29,0,0},
{0x10800,4,56,0},
{0x10806,29,0,0},
{0x10808,4,56,0},
{0x10809,29,0,0},
{0x1080A,4,56,0},
{0x10836,29,0,0},
{0x10837,4,56,0},
{0x10839,29,0,0},
{0x1083C,4,56,0},
{0x1083D,29,0,0},
{0x1083F,4,56,0},
{0x10856,29,0,0},
{0x10857,17,0,0},
{0x10858,10,0,0},
{0x10860,4,56,0},
{0x10877,21,0,0},
{0x10879,10,0,0},
{0x10880,4,56,0},
{0x1089F,29,0,0},
{0x108A7,10,0,0},
{0x108B0,29,0,0},
{0x108E0,4,56,0},
{0x108F3,29,0,0},
{0x108F4,4,56,0},
{0x108F6,29,0,0},
{0x108FB,10,0,0},
{0x10900,4,56,0},
{0x10916,10,0,0},
{0x1091C,29,0,0},
{0x1091F,17,0,0},
{0x10920,4,56,0},
{0x1093A,29,0,0},
{0x1093F,17,0,0},
{0x10940,29,0,0},
{0x10980,4,56,0},
{0x109B8,29,0,0},
{0x109BC,10,0,0},
{0x109BE,4,56,0},
{0x109C0,10,0,0},
{0x109D0,29,0,0},
{0x109D2,10,0,0},
{0x10A00,4,56,0},
{0x10A01,5,40,0},
{0x10A04,29,0,0},
{0x10A05,5,40,0},
{0x10A07,29,0,0},
{0x10A0C,5,40,0},
{0x10A10,4,56,0},
{0x10A14,29,0,0},
{0x10A15,4,56,0},
{0x10A18,29,0,0},
{0x10A19,4,56,0},
{0x10A36,29,0,0},
{0x10A38,5,32,0},
{0x10A3B,29,0,0},
{0x10A3F,5,32,0},
{0x10A40,10,0,0},
{0x10A49,29,0,0},
{0x10A50,17,0,0},
{0x10A59,29,0,0},
{0x10A60,4,56,0},
{0x10A7D,10,0,0},
{0x10A7F,17,0,0},
{0x10A80,4,56,0},
{0x10A9D,10,0,0},
{0x10AA0,29,0,0},
{0x10AC0,4,56,0},
{0x10AC8,21,0,0},
{0x10AC9,4,56,0},
{0x10AE5,5,32,0},
{0x10AE7,29,0,0},
{0x10AEB,10,0,0},
{0x10AF0,17,0,0},
{0x10AF7,29,0,0},
{0x10B00,4,56,0},
{0x10B36,29,0,0},
{0x10B39,17,0,0},
{0x10B40,4,56,0},
{0x10B56,29,0,0},
{0x10B58,10,0,0},
{0x10B60,4,56,0},
{0x10B73,29,0,0},
{0x10B78,10,0,0},
{0x10B80,4,56,0},
{0x10B92,29,0,0},
{0x10B99,17,0,0},
{0x10B9D,29,0,0},
{0x10BA9,10,0,0},
{0x10BB0,29,0,0},
{0x10C00,4,56,0},
{0x10C49,29,0,0},
{0x10C80,0,60,64},
{0x10CB3,29,0,0},
{0x10CC0,1,58,0},
{0x10CF3,29,0,0},
{0x10CFA,10,0,0},
{0x10D00,4,56,0},
{0x10D24,5,40,0},
{0x10D28,29,0,0},
{0x10D30,8,32,0},
{0x10D3A,29,0,0},
{0x10E60,10,0,0},
{0x10E7F,29,0,0},
{0x10E80,4,56,0},
{0x10EAA,29,0,0},
{0x10EAB,5,40,0},
{0x10EAD,12,0,0},
{0x10EAE,29,0,0},
{0x10EB0,4,56,0},
{0x10EB2,29,0,0},
{0x10EFD,5,32,0},
{0x10F00,4,56,0},
{0x10F1D,10,0,0},
{0x10F27,4,56,0},
{0x10F28,29,0,0},
{0x10F30,4,56,0},
{0x10F46,5,32,0},
{0x10F51,10,0,0},
{0x10F55,17,0,0},
{0x10F5A,29,0,0},
{0x10F70,4,56,0},
{0x10F82,5,32,0},
{0x10F86,17,0,0},
{0x10F8A,29,0,0},
{0x10FB0,4,56,0},
{0x10FC5,10,0,0},
{0x10FCC,29,0,0},
{0x10FE0,4,56,0},
{0x10FF7,29,0,0},
{0x11000,6,40,0},
{0x11001,5,40,0},
{0x11002,6,40,0},
{0x11003,4,56,0},
{0x11038,5,40,0},
{0x11046,5,32,0},
{0x11047,17,0,0},
{0x1104E,29,0,0},
{0x11052,10,0,0},
{0x11066,8,32,0},
{0x11070,5,32,0},
{0x11071,4,56,0},
{0x11073,5,40,0},
{0x11075,4,56,0},
{0x11076,29,0,0},
{0x1107F,5,32,0},
{0x11080,5,40,0},
{0x11082,6,40,0},
{0x11083,4,56,0},
{0x110B0,6,40,0},
{0x110B3,5,40,0},
{0x110B7,6,40,0},
{0x110B9,5,32,0},
{0x110BB,17,0,0},
{0x110BD,26,0,0},
{0x110BE,17,0,0},
{0x110C2,5,40,0},
{0x110C3,29,0,0},
{0x110CD,26,0,0},
{0x110CE,29,0,0},
{0x110D0,4,56,0},
{0x110E9,29,0,0},
{0x110F0,8,32,0},
{0x110FA,29,0,0},
{0x11100,5,40,0},
{0x11103,4,56,0},
{0x11127,5,40,0},
{0x1112C,6,40,0},
{0x1112D,5,40,0},
{0x11133,5,32,0},
{0x11135,29,0,0},
{0x11136,8,32,0},
{0x11140,17,0,0},
{0x11144,4,56,0},
{0x11145,6,40,0},
{0x11147,4,56,0},
{0x11148,29,0,0},
{0x11150,4,56,0},
{0x11173,5,32,0},
{0x11174,17,0,0},
{0x11176,4,56,0},
{0x11177,29,0,0},
{0x11180,5,40,0},
{0x11182,6,40,0},
{0x11183,4,56,0},
{0x111B3,6,40,0},
{0x111B6,5,40,0},
{0x111BF,6,40,0},
{0x111C0,6,32,0},
{0x111C1,4,56,0},
{0x111C5,17,0,0},
{0x111C9,5,32,0},
{0x111CD,17,0,0},
{0x111CE,6,40,0},
{0x111CF,5,40,0},
{0x111D0,8,32,0},
{0x111DA,4,56,0},
{0x111DB,17,0,0},
{0x111DC,4,56,0},
{0x111DD,17,0,0},
{0x111E0,29,0,0},
{0x111E1,10,0,0},
{0x111F5,29,0,0},
{0x11200,4,56,0},
{0x11212,29,0,0},
{0x11213,4,56,0},
{0x1122C,6,40,0},
{0x1122F,5,40,0},
{0x11232,6,40,0},
{0x11234,5,40,0},
{0x11235,6,32,0},
{0x11236,5,32,0},
{0x11237,5,40,0},
{0x11238,17,0,0},
{0x1123E,5,40,0},
{0x1123F,4,56,0},
{0x11241,5,40,0},
{0x11242,29,0,0},
{0x11280,4,56,0},
{0x11287,29,0,0},
{0x11288,4,56,0},
{0x11289,29,0,0},
{0x1128A,4,56,0},
{0x1128E,29,0,0},
{0x1128F,4,56,0},
{0x1129E,29,0,0},
{0x1129F,4,56,0},
{0x112A9,17,0,0},
{0x112AA,29,0,0},
{0x112B0,4,56,0},
{0x112DF,5,40,0},
{0x112E0,6,40,0},
{0x112E3,5,40,0},
{0x112E9,5,32,0},
{0x112EB,29,0,0},
{0x112F0,8,32,0},
{0x112FA,29,0,0},
{0x11300,5,40,0},
{0x11302,6,40,0},
{0x11304,29,0,0},
{0x11305,4,56,0},
{0x1130D,29,0,0},
{0x1130F,4,56,0},
{0x11311,29,0,0},
{0x11313,4,56,0},
{0x11329,29,0,0},
{0x1132A,4,56,0},
{0x11331,29,0,0},
{0x11332,4,56,0},
{0x11334,29,0,0},
{0x11335,4,56,0},
{0x1133A,29,0,0},
{0x1133B,5,32,0},
{0x1133D,4,56,0},
{0x1133E,6,40,0},
{0x11340,5,40,0},
{0x11341,6,40,0},
{0x11345,29,0,0},
{0x11347,6,40,0},
{0x11349,29,0,0},
{0x1134B,6,40,0},
{0x1134D,6,32,0},
{0x1134E,29,0,0},
{0x11350,4,56,0},
{0x11351,29,0,0},
{0x11357,6,40,0},
{0x11358,29,0,0},
{0x1135D,4,56,0},
{0x11362,6,40,0},
{0x11364,29,0,0},
{0x11366,5,32,0},
{0x1136D,29,0,0},
{0x11370,5,32,0},
{0x11375,29,0,0},
{0x11400,4,56,0},
{0x11435,6,40,0},
{0x11438,5,40,0},
{0x11440,6,40,0},
{0x11442,5,32,0},
{0x11443,5,40,0},
{0x11445,6,40,0},
{0x11446,5,32,0},
{0x11447,4,56,0},
{0x1144B,17,0,0},
{0x11450,8,32,0},
{0x1145A,17,0,0},
{0x1145C,29,0,0},
{0x1145D,17,0,0},
{0x1145E,5,32,0},
{0x1145F,4,56,0},
{0x11462,29,0,0},
{0x11480,4,56,0},
{0x114B0,6,40,0},
{0x114B3,5,40,0},
{0x114B9,6,40,0},
{0x114BA,5,40,0},
{0x114BB,6,40,0},
{0x114BF,5,40,0},
{0x114C1,6,40,0},
{0x114C2,5,32,0},
{0x114C4,4,56,0},
{0x114C6,17,0,0},
{0x114C7,4,56,0},
{0x114C8,29,0,0},
{0x114D0,8,32,0},
{0x114DA,29,0,0},
{0x11580,4,56,0},
{0x115AF,6,40,0},
{0x115B2,5,40,0},
{0x115B6,29,0,0},
{0x115B8,6,40,0},
{0x115BC,5,40,0},
{0x115BE,6,40,0},
{0x115BF,5,32,0},
{0x115C1,17,0,0},
{0x115D8,4,56,0},
{0x115DC,5,40,0},
{0x115DE,29,0,0},
{0x11600,4,56,0},
{0x11630,6,40,0},
{0x11633,5,40,0},
{0x1163B,6,40,0},
{0x1163D,5,40,0},
{0x1163E,6,40,0},
{0x1163F,5,32,0},
{0x11640,5,40,0},
{0x11641,17,0,0},
{0x11644,4,56,0},
{0x11645,29,0,0},
{0x11650,8,32,0},
{0x1165A,29,0,0},
{0x11660,17,0,0},
{0x1166D,29,0,0},
{0x11680,4,56,0},
{0x116AB,5,40,0},
{0x116AC,6,40,0},
{0x116AD,5,40,0},
{0x116AE,6,40,0},
{0x116B0,5,40,0},
{0x116B6,6,32,0},
{0x116B7,5,32,0},
{0x116B8,4,56,0},
{0x116B9,17,0,0},
{0x116BA,29,0,0},
{0x116C0,8,32,0},
{0x116CA,29,0,0},
{0x11700,4,56,0},
{0x1171B,29,0,0},
{0x1171D,5,40,0},
{0x11720,6,40,0},
{0x11722,5,40,0},
{0x11726,6,40,0},
{0x11727,5,40,0},
{0x1172B,5,32,0},
{0x1172C,29,0,0},
{0x11730,8,32,0},
{0x1173A,10,0,0},
{0x1173C,17,0,0},
{0x1173F,21,0,0},
{0x11740,4,56,0},
{0x11747,29,0,0},
{0x11800,4,56,0},
{0x1182C,6,40,0},
{0x1182F,5,40,0},
{0x11838,6,40,0},
{0x11839,5,32,0},
{0x1183B,17,0,0},
{0x1183C,29,0,0},
{0x118A0,0,60,32},
{0x118C0,1,58,0},
{0x118E0,8,32,0},
{0x118EA,10,0,0},
{0x118F3,29,0,0},
{0x118FF,4,56,0},
{0x11907,29,0,0},
{0x11909,4,56,0},
{0x1190A,29,0,0},
{0x1190C,4,56,0},
{0x11914,29,0,0},
{0x11915,4,56,0},
{0x11917,29,0,0},
{0x11918,4,56,0},
{0x11930,6,40,0},
{0x11936,29,0,0},
{0x11937,6,40,0},
{0x11939,29,0,0},
{0x1193B,5,40,0},
{0x1193D,6,32,0},
{0x1193E,5,32,0},
{0x1193F,4,56,0},
{0x11940,6,40,0},
{0x11941,4,56,0},
{0x11942,6,40,0},
{0x11943,5,32,0},
{0x11944,17,0,0},
{0x11947,29,0,0},
{0x11950,8,32,0},
{0x1195A,29,0,0},
{0x119A0,4,56,0},
{0x119A8,29,0,0},
{0x119AA,4,56,0},
{0x119D1,6,40,0},
{0x119D4,5,40,0},
{0x119D8,29,0,0},
{0x119DA,5,40,0},
{0x119DC,6,40,0},
{0x119E0,5,32,0},
{0x119E1,4,56,0},
{0x119E2,17,0,0},
{0x119E3,4,56,0},
{0x119E4,6,40,0},
{0x119E5,29,0,0},
{0x11A00,4,56,0},
{0x11A01,5,40,0},
{0x11A0B,4,56,0},
{0x11A33,5,32,0},
{0x11A35,5,40,0},
{0x11A39,6,40,0},
{0x11A3A,4,56,0},
{0x11A3B,5,40,0},
{0x11A3F,17,0,0},
{0x11A47,5,32,0},
{0x11A48,29,0,0},
{0x11A50,4,56,0},
{0x11A51,5,40,0},
{0x11A57,6,40,0},
{0x11A59,5,40,0},
{0x11A5C,4,56,0},
{0x11A8A,5,40,0},
{0x11A97,6,40,0},
{0x11A98,5,32,0},
{0x11A9A,17,0,0},
{0x11A9D,4,56,0},
{0x11A9E,17,0,0},
{0x11AA3,29,0,0},
{0x11AB0,4,56,0},
{0x11AF9,29,0,0},
{0x11B00,17,0,0},
{0x11B0A,29,0,0},
{0x11C00,4,56,0},
{0x11C09,29,0,0},
{0x11C0A,4,56,0},
{0x11C2F,6,40,0},
{0x11C30,5,40,0},
{0x11C37,29,0,0},
{0x11C38,5,40,0},
{0x11C3E,6,40,0},
{0x11C3F,5,32,0},
{0x11C40,4,56,0},
{0x11C41,17,0,0},
{0x11C46,29,0,0},
{0x11C50,8,32,0},
{0x11C5A,10,0,0},
{0x11C6D,29,0,0},
{0x11C70,17,0,0},
{0x11C72,4,56,0},
{0x11C90,29,0,0},
{0x11C92,5,40,0},
{0x11CA8,29,0,0},
{0x11CA9,6,40,0},
{0x11CAA,5,40,0},
{0x11CB1,6,40,0},
{0x11CB2,5,40,0},
{0x11CB4,6,40,0},
{0x11CB5,5,40,0},
{0x11CB7,29,0,0},
{0x11D00,4,56,0},
{0x11D07,29,0,0},
{0x11D08,4,56,0},
{0x11D0A,29,0,0},
{0x11D0B,4,56,0},
{0x11D31,5,40,0},
{0x11D37,29,0,0},
{0x11D3A,5,40,0},
{0x11D3B,29,0,0},
{0x11D3C,5,40,0},
{0x11D3E,29,0,0},
{0x11D3F,5,40,0},
{0x11D42,5,32,0},
{0x11D43,5,40,0},
{0x11D44,5,32,0},
{0x11D46,4,56,0},
{0x11D47,5,40,0},
{0x11D48,29,0,0},
{0x11D50,8,32,0},
{0x11D5A,29,0,0},
{0x11D60,4,56,0},
{0x11D66,29,0,0},
{0x11D67,4,56,0},
{0x11D69,29,0,0},
{0x11D6A,4,56,0},
{0x11D8A,6,40,0},
{0x11D8F,29,0,0},
{0x11D90,5,40,0},
{0x11D92,29,0,0},
{0x11D93,6,40,0},
{0x11D95,5,40,0},
{0x11D96,6,40,0},
{0x11D97,5,32,0},
{0x11D98,4,56,0},
{0x11D99,29,0,0},
{0x11DA0,8,32,0},
{0x11DAA,29,0,0},
{0x11EE0,4,56,0},
{0x11EF3,5,40,0},
{0x11EF5,6,40,0},
{0x11EF7,17,0,0},
{0x11EF9,29,0,0},
{0x11F00,5,40,0},
{0x11F02,4,56,0},
{0x11F03,6,40,0},
{0x11F04,4,56,0},
{0x11F11,29,0,0},
{0x11F12,4,56,0},
{0x11F34,6,40,0},
{0x11F36,5,40,0},
{0x11F3B,29,0,0},
{0x11F3E,6,40,0},
{0x11F40,5,40,0},
{0x11F41,6,32,0},
{0x11F42,5,32,0},
{0x11F43,17,0,0},
{0x11F50,8,32,0},
{0x11F5A,29,0,0},
{0x11FB0,4,56,0},
{0x11FB1,29,0,0},
{0x11FC0,10,0,0},
{0x11FD5,21,0,0},
{0x11FDD,19,0,0},
{0x11FE1,21,0,0},
{0x11FF2,29,0,0},
{0x11FFF,17,0,0},
{0x12000,4,56,0},
{0x1239A,29,0,0},
{0x12400,9,56,0},
{0x1246F,29,0,0},
{0x12470,17,0,0},
{0x12475,29,0,0},
{0x12480,4,56,0},
{0x12544,29,0,0},
{0x12F90,4,56,0},
{0x12FF1,17,0,0},
{0x12FF3,29,0,0},
{0x13000,4,56,0},
{0x13430,26,0,0},
{0x13440,5,32,0},
{0x13441,4,56,0},
{0x13447,5,32,0},
{0x13456,29,0,0},
{0x14400,4,56,0},
{0x14647,29,0,0},
{0x16800,4,56,0},
{0x16A39,29,0,0},
{0x16A40,4,56,0},
{0x16A5F,29,0,0},
{0x16A60,8,32,0},
{0x16A6A,29,0,0},
{0x16A6E,17,0,0},
{0x16A70,4,56,0},
{0x16ABF,29,0,0},
{0x16AC0,8,32,0},
{0x16ACA,29,0,0},
{0x16AD0,4,56,0},
{0x16AEE,29,0,0},
{0x16AF0,5,32,0},
{0x16AF5,17,0,0},
{0x16AF6,29,0,0},
{0x16B00,4,56,0},
{0x16B30,5,32,0},
{0x16B37,17,0,0},
{0x16B3C,21,0,0},
{0x16B40,3,56,0},
{0x16B44,17,0,0},
{0x16B45,21,0,0},
{0x16B46,29,0,0},
{0x16B50,8,32,0},
{0x16B5A,29,0,0},
{0x16B5B,10,0,0},
{0x16B62,29,0,0},
{0x16B63,4,56,0},
{0x16B78,29,0,0},
{0x16B7D,4,56,0},
{0x16B90,29,0,0},
{0x16E40,0,60,32},
{0x16E60,1,58,0},
{0x16E80,10,0,0},
{0x16E97,17,0,0},
{0x16E9B,29,0,0},
{0x16F00,4,56,0},
{0x16F4B,29,0,0},
{0x16F4F,5,40,0},
{0x16F50,4,56,0},
{0x16F51,6,40,0},
{0x16F88,29,0,0},
{0x16F8F,5,40,0},
{0x16F93,3,56,0},
{0x16FA0,29,0,0},
{0x16FE0,3,56,0},
{0x16FE2,17,0,0},
{0x16FE3,3,56,0},
{0x16FE4,5,32,0},
{0x16FE5,29,0,0},
{0x16FF0,6,40,0},
{0x16FF2,29,0,0},
{0x17000,4,56,0},
{0x187F8,29,0,0},
{0x18800,4,56,0},
{0x18CD6,29,0,0},
{0x18D00,4,56,0},
{0x18D09,29,0,0},
{0x1AFF0,3,56,0},
{0x1AFF4,29,0,0},
{0x1AFF5,3,56,0},
{0x1AFFC,29,0,0},
{0x1AFFD,3,56,0},
{0x1AFFF,29,0,0},
{0x1B000,4,56,0},
{0x1B123,29,0,0},
{0x1B132,4,56,0},
{0x1B133,29,0,0},
{0x1B150,4,56,0},
{0x1B153,29,0,0},
{0x1B155,4,56,0},
{0x1B156,29,0,0},
{0x1B164,4,56,0},
{0x1B168,29,0,0},
{0x1B170,4,56,0},
{0x1B2FC,29,0,0},
{0x1BC00,4,56,0},
{0x1BC6B,29,0,0},
{0x1BC70,4,56,0},
{0x1BC7D,29,0,0},
{0x1BC80,4,56,0},
{0x1BC89,29,0,0},
{0x1BC90,4,56,0},
{0x1BC9A,29,0,0},
{0x1BC9C,21,0,0},
{0x1BC9D,5,32,0},
{0x1BC9E,5,40,0},
{0x1BC9F,17,0,0},
{0x1BCA0,26,0,0},
{0x1BCA4,29,0,0},
{0x1CF00,5,32,0},
{0x1CF2E,29,0,0},
{0x1CF30,5,32,0},
{0x1CF47,29,0,0},
{0x1CF50,21,0,0},
{0x1CFC4,29,0,0},
{0x1D000,21,0,0},
{0x1D0F6,29,0,0},
{0x1D100,21,0,0},
{0x1D127,29,0,0},
{0x1D129,21,0,0},
{0x1D165,6,32,0},
{0x1D167,5,32,0},
{0x1D16A,21,0,0},
{0x1D16D,6,32,0},
{0x1D173,26,0,0},
{0x1D17B,5,32,0},
{0x1D183,21,0,0},
{0x1D185,5,32,0},
{0x1D18C,21,0,0},
{0x1D1AA,5,32,0},
{0x1D1AE,21,0,0},
{0x1D1EB,29,0,0},
{0x1D200,21,0,0},
{0x1D242,5,32,0},
{0x1D245,21,0,0},
{0x1D246,29,0,0},
{0x1D2C0,10,0,0},
{0x1D2D4,29,0,0},
{0x1D2E0,10,0,0},
{0x1D2F4,29,0,0},
{0x1D300,21,0,0},
{0x1D357,29,0,0},
{0x1D360,10,0,0},
{0x1D379,29,0,0},
{0x1D400,0,60,0},
{0x1D41A,1,58,0},
{0x1D434,0,60,0},
{0x1D44E,1,58,0},
{0x1D455,29,0,0},
{0x1D456,1,58,0},
{0x1D468,0,60,0},
{0x1D482,1,58,0},
{0x1D49C,0,60,0},
{0x1D49D,29,0,0},
{0x1D49E,0,60,0},
{0x1D4A0,29,0,0},
{0x1D4A2,0,60,0},
{0x1D4A3,29,0,0},
{0x1D4A5,0,60,0},
{0x1D4A7,29,0,0},
{0x1D4A9,0,60,0},
{0x1D4AD,29,0,0},
{0x1D4AE,0,60,0},
{0x1D4B6,1,58,0},
{0x1D4BA,29,0,0},
{0x1D4BB,1,58,0},
{0x1D4BC,29,0,0},
{0x1D4BD,1,58,0},
{0x1D4C4,29,0,0},
{0x1D4C5,1,58,0},
{0x1D4D0,0,60,0},
{0x1D4EA,1,58,0},
{0x1D504,0,60,0},
{0x1D506,29,0,0},
{0x1D507,0,60,0},
{0x1D50B,29,0,0},
{0x1D50D,0,60,0},
{0x1D515,29,0,0},
{0x1D516,0,60,0},
{0x1D51D,29,0,0},
{0x1D51E,1,58,0},
{0x1D538,0,60,0},
{0x1D53A,29,0,0},
{0x1D53B,0,60,0},
{0x1D53F,29,0,0},
{0x1D540,0,60,0},
{0x1D545,29,0,0},
{0x1D546,0,60,0},
{0x1D547,29,0,0},
{0x1D54A,0,60,0},
{0x1D551,29,0,0},
{0x1D552,1,58,0},
{0x1D56C,0,60,0},
{0x1D586,1,58,0},
{0x1D5A0,0,60,0},
{0x1D5BA,1,58,0},
{0x1D5D4,0,60,0},
{0x1D5EE,1,58,0},
{0x1D608,0,60,0},
{0x1D622,1,58,0},
{0x1D63C,0,60,0},
{0x1D656,1,58,0},
{0x1D670,0,60,0},
{0x1D68A,1,58,0},
{0x1D6A6,29,0,0},
{0x1D6A8,0,60,0},
{0x1D6C1,18,0,0},
{0x1D6C2,1,58,0},
{0x1D6DB,18,0,0},
{0x1D6DC,1,58,0},
{0x1D6E2,0,60,0},
{0x1D6FB,18,0,0},
{0x1D6FC,1,58,0},
{0x1D715,18,0,0},
{0x1D716,1,58,0},
{0x1D71C,0,60,0},
{0x1D735,18,0,0},
{0x1D736,1,58,0},
{0x1D74F,18,0,0},
{0x1D750,1,58,0},
{0x1D756,0,60,0},
{0x1D76F,18,0,0},
{0x1D770,1,58,0},
{0x1D789,18,0,0},
{0x1D78A,1,58,0},
{0x1D790,0,60,0},
{0x1D7A9,18,0,0},
{0x1D7AA,1,58,0},
{0x1D7C3,18,0,0},
{0x1D7C4,1,58,0},
{0x1D7CA,0,60,0},
{0x1D7CB,1,58,0},
{0x1D7CC,29,0,0},
{0x1D7CE,8,32,0},
{0x1D800,21,0,0},
{0x1DA00,5,32,0},
{0x1DA37,21,0,0},
{0x1DA3B,5,32,0},
{0x1DA6D,21,0,0},
{0x1DA75,5,32,0},
{0x1DA76,21,0,0},
{0x1DA84,5,32,0},
{0x1DA85,21,0,0},
{0x1DA87,17,0,0},
{0x1DA8C,29,0,0},
{0x1DA9B,5,32,0},
{0x1DAA0,29,0,0},
{0x1DAA1,5,32,0},
{0x1DAB0,29,0,0},
{0x1DF00,1,58,0},
{0x1DF0A,4,56,0},
{0x1DF0B,1,58,0},
{0x1DF1F,29,0,0},
{0x1DF25,1,58,0},
{0x1DF2B,29,0,0},
{0x1E000,5,40,0},
{0x1E007,29,0,0},
{0x1E008,5,40,0},
{0x1E019,29,0,0},
{0x1E01B,5,40,0},
{0x1E022,29,0,0},
{0x1E023,5,40,0},
{0x1E025,29,0,0},
{0x1E026,5,40,0},
{0x1E02B,29,0,0},
{0x1E030,3,58,0},
{0x1E06E,29,0,0},
{0x1E08F,5,40,0},
{0x1E090,29,0,0},
{0x1E100,4,56,0},
{0x1E12D,29,0,0},
{0x1E130,5,32,0},
{0x1E137,3,56,0},
{0x1E13E,29,0,0},
{0x1E140,8,32,0},
{0x1E14A,29,0,0},
{0x1E14E,4,56,0},
{0x1E14F,21,0,0},
{0x1E150,29,0,0},
{0x1E290,4,56,0},
{0x1E2AE,5,32,0},
{0x1E2AF,29,0,0},
{0x1E2C0,4,56,0},
{0x1E2EC,5,32,0},
{0x1E2F0,8,32,0},
{0x1E2FA,29,0,0},
{0x1E2FF,19,0,0},
{0x1E300,29,0,0},
{0x1E4D0,4,56,0},
{0x1E4EB,3,56,0},
{0x1E4EC,5,32,0},
{0x1E4F0,8,32,0},
{0x1E4FA,29,0,0},
{0x1E7E0,4,56,0},
{0x1E7E7,29,0,0},
{0x1E7E8,4,56,0},
{0x1E7EC,29,0,0},
{0x1E7ED,4,56,0},
{0x1E7EF,29,0,0},
{0x1E7F0,4,56,0},
{0x1E7FF,29,0,0},
{0x1E800,4,56,0},
{0x1E8C5,29,0,0},
{0x1E8C7,10,0,0},
{0x1E8D0,5,32,0},
{0x1E8D7,29,0,0},
{0x1E900,0,60,34},
{0x1E922,1,58,0},
{0x1E944,5,32,0},
{0x1E947,5,40,0},
{0x1E948,5,32,0},
{0x1E94B,3,56,0},
{0x1E94C,29,0,0},
{0x1E950,8,32,0},
{0x1E95A,29,0,0},
{0x1E95E,17,0,0},
{0x1E960,29,0,0},
{0x1EC71,10,0,0},
{0x1ECAC,21,0,0},
{0x1ECAD,10,0,0},
{0x1ECB0,19,0,0},
{0x1ECB1,10,0,0},
{0x1ECB5,29,0,0},
{0x1ED01,10,0,0},
{0x1ED2E,21,0,0},
{0x1ED2F,10,0,0},
{0x1ED3E,29,0,0},
{0x1EE00,4,56,0},
{0x1EE04,29,0,0},
{0x1EE05,4,56,0},
{0x1EE20,29,0,0},
{0x1EE21,4,56,0},
{0x1EE23,29,0,0},
{0x1EE24,4,56,0},
{0x1EE25,29,0,0},
{0x1EE27,4,56,0},
{0x1EE28,29,0,0},
{0x1EE29,4,56,0},
{0x1EE33,29,0,0},
{0x1EE34,4,56,0},
{0x1EE38,29,0,0},
{0x1EE39,4,56,0},
{0x1EE3A,29,0,0},
{0x1EE3B,4,56,0},
{0x1EE3C,29,0,0},
{0x1EE42,4,56,0},
{0x1EE43,29,0,0},
{0x1EE47,4,56,0},
{0x1EE48,29,0,0},
{0x1EE49,4,56,0},
{0x1EE4A,29,0,0},
{0x1EE4B,4,56,0},
{0x1EE4C,29,0,0},
{0x1EE4D,4,56,0},
{0x1EE50,29,0,0},
{0x1EE51,4,56,0},
{0x1EE53,29,0,0},
{0x1EE54,4,56,0},
{0x1EE55,29,0,0},
{0x1EE57,4,56,0},
{0x1EE58,29,0,0},
{0x1EE59,4,56,0},
{0x1EE5A,29,0,0},
{0x1EE5B,4,56,0},
{0x1EE5C,29,0,0},
{0x1EE5D,4,56,0},
{0x1EE5E,29,0,0},
{0x1EE5F,4,56,0},
{0x1EE60,29,0,0},
{0x1EE61,4,56,0},
{0x1EE63,29,0,0},
{0x1EE64,4,56,0},
{0x1EE65,29,0,0},
{0x1EE67,4,56,0},
{0x1EE6B,29,0,0},
{0x1EE6C,4,56,0},
{0x1EE73,29,0,0},
{0x1EE74,4,56,0},
{0x1EE78,29,0,0},
{0x1EE79,4,56,0},
{0x1EE7D,29,0,0},
{0x1EE7E,4,56,0},
{0x1EE7F,29,0,0},
{0x1EE80,4,56,0},
{0x1EE8A,29,0,0},
{0x1EE8B,4,56,0},
{0x1EE9C,29,0,0},
{0x1EEA1,4,56,0},
{0x1EEA4,29,0,0},
{0x1EEA5,4,56,0},
{0x1EEAA,29,0,0},
{0x1EEAB,4,56,0},
{0x1EEBC,29,0,0},
{0x1EEF0,18,0,0},
{0x1EEF2,29,0,0},
{0x1F000,21,0,0},
{0x1F02C,29,0,0},
{0x1F030,21,0,0},
{0x1F094,29,0,0},
{0x1F0A0,21,0,0},
{0x1F0AF,29,0,0},
{0x1F0B1,21,0,0},
{0x1F0C0,29,0,0},
{0x1F0C1,21,0,0},
{0x1F0D0,29,0,0},
{0x1F0D1,21,0,0},
{0x1F0F6,29,0,0},
{0x1F100,10,0,0},
{0x1F10D,21,0,0},
{0x1F130,21,12,0},
{0x1F14A,21,0,0},
{0x1F150,21,12,0},
{0x1F16A,21,0,0},
{0x1F170,21,12,0},
{0x1F18A,21,0,0},
{0x1F1AE,29,0,0},
{0x1F1E6,21,0,0},
{0x1F203,29,0,0},
{0x1F210,21,0,0},
{0x1F23C,29,0,0},
{0x1F240,21,0,0},
{0x1F249,29,0,0},
{0x1F250,21,0,0},
{0x1F252,29,0,0},
{0x1F260,21,0,0},
{0x1F266,29,0,0},
{0x1F300,21,0,0},
{0x1F3FB,20,0,0},
{0x1F400,21,0,0},
{0x1F6D8,29,0,0},
{0x1F6DC,21,0,0},
{0x1F6ED,29,0,0},
{0x1F6F0,21,0,0},
{0x1F6FD,29,0,0},
{0x1F700,21,0,0},
{0x1F777,29,0,0},
{0x1F77B,21,0,0},
{0x1F7DA,29,0,0},
{0x1F7E0,21,0,0},
{0x1F7EC,29,0,0},
{0x1F7F0,21,0,0},
{0x1F7F1,29,0,0},
{0x1F800,21,0,0},
{0x1F80C,29,0,0},
{0x1F810,21,0,0},
{0x1F848,29,0,0},
{0x1F850,21,0,0},
{0x1F85A,29,0,0},
{0x1F860,21,0,0},
{0x1F888,29,0,0},
{0x1F890,21,0,0},
{0x1F8AE,29,0,0},
{0x1F8B0,21,0,0},
{0x1F8B2,29,0,0},
{0x1F900,21,0,0},
{0x1FA54,29,0,0},
{0x1FA60,21,0,0},
{0x1FA6E,29,0,0},
{0x1FA70,21,0,0},
{0x1FA7D,29,0,0},
{0x1FA80,21,0,0},
{0x1FA89,29,0,0},
{0x1FA90,21,0,0},
{0x1FABE,29,0,0},
{0x1FABF,21,0,0},
{0x1FAC6,29,0,0},
{0x1FACE,21,0,0},
{0x1FADC,29,0,0},
{0x1FAE0,21,0,0},
{0x1FAE9,29,0,0},
{0x1FAF0,21,0,0},
{0x1FAF9,29,0,0},
{0x1FB00,21,0,0},
{0x1FB93,29,0,0},
{0x1FB94,21,0,0},
{0x1FBCB,29,0,0},
{0x1FBF0,8,32,0},
{0x1FBFA,29,0,0},
{0x20000,4,56,0},
{0x2A6E0,29,0,0},
{0x2A700,4,56,0},
{0x2B73A,29,0,0},
{0x2B740,4,56,0},
{0x2B81E,29,0,0},
{0x2B820,4,56,0},
{0x2CEA2,29,0,0},
{0x2CEB0,4,56,0},
{0x2EBE1,29,0,0},
{0x2F800,4,56,0},
{0x2FA1E,29,0,0},
{0x30000,4,56,0},
{0x3134B,29,0,0},
{0x31350,4,56,0},
{0x323B0,29,0,0},
{0xE0001,26,0,0},
{0xE0002,29,0,0},
{0xE0020,26,0,0},
{0xE0080,29,0,0},
{0xE0100,5,32,0},
{0xE01F0,29,0,0},
{0xF0000,28,0,0},
{0xFFFFE,29,0,0},
{0x100000,28,0,0},
{0x10FFFE,29,0,0},
