// Base letters of U+00C0..U+017F from Unicode canonical decomposition.
{0xc0,65},{0xc1,65},{0xc2,65},{0xc3,65},{0xc4,65},{0xc5,65},{0xc7,67},{0xc8,69},{0xc9,69},{0xca,69},
{0xcb,69},{0xcc,73},{0xcd,73},{0xce,73},{0xcf,73},{0xd1,78},{0xd2,79},{0xd3,79},{0xd4,79},{0xd5,79},
{0xd6,79},{0xd9,85},{0xda,85},{0xdb,85},{0xdc,85},{0xdd,89},{0xe0,97},{0xe1,97},{0xe2,97},{0xe3,97},
{0xe4,97},{0xe5,97},{0xe7,99},{0xe8,101},{0xe9,101},{0xea,101},{0xeb,101},{0xec,105},{0xed,105},{0xee,105},
{0xef,105},{0xf1,110},{0xf2,111},{0xf3,111},{0xf4,111},{0xf5,111},{0xf6,111},{0xf9,117},{0xfa,117},{0xfb,117},
{0xfc,117},{0xfd,121},{0xff,121},{0x100,65},{0x101,97},{0x102,65},{0x103,97},{0x104,65},{0x105,97},{0x106,67},
{0x107,99},{0x108,67},{0x109,99},{0x10a,67},{0x10b,99},{0x10c,67},{0x10d,99},{0x10e,68},{0x10f,100},{0x112,69},
{0x113,101},{0x114,69},{0x115,101},{0x116,69},{0x117,101},{0x118,69},{0x119,101},{0x11a,69},{0x11b,101},{0x11c,71},
{0x11d,103},{0x11e,71},{0x11f,103},{0x120,71},{0x121,103},{0x122,71},{0x123,103},{0x124,72},{0x125,104},{0x128,73},
{0x129,105},{0x12a,73},{0x12b,105},{0x12c,73},{0x12d,105},{0x12e,73},{0x12f,105},{0x130,73},{0x134,74},{0x135,106},
{0x136,75},{0x137,107},{0x139,76},{0x13a,108},{0x13b,76},{0x13c,108},{0x13d,76},{0x13e,108},{0x143,78},{0x144,110},
{0x145,78},{0x146,110},{0x147,78},{0x148,110},{0x14c,79},{0x14d,111},{0x14e,79},{0x14f,111},{0x150,79},{0x151,111},
{0x154,82},{0x155,114},{0x156,82},{0x157,114},{0x158,82},{0x159,114},{0x15a,83},{0x15b,115},{0x15c,83},{0x15d,115},
{0x15e,83},{0x15f,115},{0x160,83},{0x161,115},{0x162,84},{0x163,116},{0x164,84},{0x165,116},{0x168,85},{0x169,117},
{0x16a,85},{0x16b,117},{0x16c,85},{0x16d,117},{0x16e,85},{0x16f,117},{0x170,85},{0x171,117},{0x172,85},{0x173,117},
{0x174,87},{0x175,119},{0x176,89},{0x177,121},{0x178,89},{0x179,90},{0x17a,122},{0x17b,90},{0x17c,122},{0x17d,90},
{0x17e,122},
