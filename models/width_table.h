// First code point of each range, its width without and with colour emoji; 9 is not checked. Made by tools/gen_width.py from Unicode 15.0.0
static const struct { unsigned first; signed char w[2]; } WIDTHS[] = { {0x0,{0,0}}, {0x1,{-1,-1}}, {0x20,{1,1}}, {0x7f,{-1,-1}}, {0xa0,{1,1}}, {0x300,{0,0}}, {0x370,{1,1}}, {0x378,{9,9}}, {0x37a,{1,1}}, {0x380,{9,9}}, {0x384,{1,1}}, {0x38b,{9,9}}, {0x38c,{1,1}}, {0x38d,{9,9}}, {0x38e,{1,1}}, {0x3a2,{9,9}}, {0x3a3,{1,1}}, {0x483,{0,0}}, {0x487,{9,9}}, {0x488,{0,0}}, {0x48a,{1,1}}, {0x530,{9,9}}, {0x531,{1,1}}, {0x557,{9,9}}, {0x559,{1,1}}, {0x58b,{9,9}}, {0x58d,{1,1}}, {0x590,{9,9}}, {0x591,{0,0}}, {0x5be,{1,1}}, {0x5bf,{0,0}}, {0x5c0,{1,1}}, {0x5c1,{0,0}}, {0x5c3,{1,1}}, {0x5c4,{0,0}}, {0x5c6,{1,1}}, {0x5c7,{0,0}}, {0x5c8,{9,9}}, {0x5d0,{1,1}}, {0x5eb,{9,9}}, {0x5ef,{1,1}}, {0x5f5,{9,9}}, {0x600,{0,0}}, {0x604,{9,9}}, {0x606,{1,1}}, {0x610,{0,0}}, {0x616,{9,9}}, {0x61b,{1,1}}, {0x61c,{9,9}}, {0x61d,{1,1}}, {0x64b,{0,0}}, {0x65f,{9,9}}, {0x660,{1,1}}, {0x670,{0,0}}, {0x671,{1,1}}, {0x6d6,{0,0}}, {0x6de,{9,9}}, {0x6df,{0,0}}, {0x6e5,{1,1}}, {0x6e7,{0,0}}, {0x6e9,{1,1}}, {0x6ea,{0,0}}, {0x6ee,{1,1}}, {0x70e,{9,9}}, {0x70f,{0,0}}, {0x710,{1,1}}, {0x711,{0,0}}, {0x712,{1,1}}, {0x730,{0,0}}, {0x74b,{9,9}}, {0x74d,{1,1}}, {0x7a6,{0,0}}, {0x7b1,{1,1}}, {0x7b2,{9,9}}, {0x7c0,{1,1}}, {0x7eb,{0,0}}, {0x7f4,{1,1}}, {0x7fb,{9,9}}, {0x7fe,{1,1}}, {0x816,{9,9}}, {0x81a,{1,1}}, {0x81b,{9,9}}, {0x824,{1,1}}, {0x825,{9,9}}, {0x828,{1,1}}, {0x829,{9,9}}, {0x830,{1,1}}, {0x83f,{9,9}}, {0x840,{1,1}}, {0x859,{9,9}}, {0x85e,{1,1}}, {0x85f,{9,9}}, {0x860,{1,1}}, {0x86b,{9,9}}, {0x870,{1,1}}, {0x88f,{9,9}}, {0x8a0,{1,1}}, {0x8ca,{9,9}}, {0x901,{0,0}}, {0x903,{1,1}}, {0x93a,{9,9}}, {0x93b,{1,1}}, {0x93c,{0,0}}, {0x93d,{1,1}}, {0x941,{0,0}}, {0x949,{1,1}}, {0x94d,{0,0}}, {0x94e,{1,1}}, {0x951,{0,0}}, {0x955,{9,9}}, {0x958,{1,1}}, {0x962,{0,0}}, {0x964,{1,1}}, {0x981,{0,0}}, {0x982,{1,1}}, {0x984,{9,9}}, {0x985,{1,1}}, {0x98d,{9,9}}, {0x98f,{1,1}}, {0x991,{9,9}}, {0x993,{1,1}}, {0x9a9,{9,9}}, {0x9aa,{1,1}}, {0x9b1,{9,9}}, {0x9b2,{1,1}}, {0x9b3,{9,9}}, {0x9b6,{1,1}}, {0x9ba,{9,9}}, {0x9bc,{0,0}}, {0x9bd,{1,1}}, {0x9c1,{0,0}}, {0x9c5,{9,9}}, {0x9c7,{1,1}}, {0x9c9,{9,9}}, {0x9cb,{1,1}}, {0x9cd,{0,0}}, {0x9ce,{1,1}}, {0x9cf,{9,9}}, {0x9d7,{1,1}}, {0x9d8,{9,9}}, {0x9dc,{1,1}}, {0x9de,{9,9}}, {0x9df,{1,1}}, {0x9e2,{0,0}}, {0x9e4,{9,9}}, {0x9e6,{1,1}}, {0x9fe,{9,9}}, {0xa01,{0,0}}, {0xa03,{1,1}}, {0xa04,{9,9}}, {0xa05,{1,1}}, {0xa0b,{9,9}}, {0xa0f,{1,1}}, {0xa11,{9,9}}, {0xa13,{1,1}}, {0xa29,{9,9}}, {0xa2a,{1,1}}, {0xa31,{9,9}}, {0xa32,{1,1}}, {0xa34,{9,9}}, {0xa35,{1,1}}, {0xa37,{9,9}}, {0xa38,{1,1}}, {0xa3a,{9,9}}, {0xa3c,{0,0}}, {0xa3d,{9,9}}, {0xa3e,{1,1}}, {0xa41,{0,0}}, {0xa43,{9,9}}, {0xa47,{0,0}}, {0xa49,{9,9}}, {0xa4b,{0,0}}, {0xa4e,{9,9}}, {0xa59,{1,1}}, {0xa5d,{9,9}}, {0xa5e,{1,1}}, {0xa5f,{9,9}}, {0xa66,{1,1}}, {0xa70,{0,0}}, {0xa72,{1,1}}, {0xa75,{9,9}}, {0xa76,{1,1}}, {0xa77,{9,9}}, {0xa81,{0,0}}, {0xa83,{1,1}}, {0xa84,{9,9}}, {0xa85,{1,1}}, {0xa8e,{9,9}}, {0xa8f,{1,1}}, {0xa92,{9,9}}, {0xa93,{1,1}}, {0xaa9,{9,9}}, {0xaaa,{1,1}}, {0xab1,{9,9}}, {0xab2,{1,1}}, {0xab4,{9,9}}, {0xab5,{1,1}}, {0xaba,{9,9}}, {0xabc,{0,0}}, {0xabd,{1,1}}, {0xac1,{0,0}}, {0xac6,{9,9}}, {0xac7,{0,0}}, {0xac9,{1,1}}, {0xaca,{9,9}}, {0xacb,{1,1}}, {0xacd,{0,0}}, {0xace,{9,9}}, {0xad0,{1,1}}, {0xad1,{9,9}}, {0xae0,{1,1}}, {0xae2,{0,0}}, {0xae4,{9,9}}, {0xae6,{1,1}}, {0xaf2,{9,9}}, {0xaf9,{1,1}}, {0xafa,{9,9}}, {0xb01,{0,0}}, {0xb02,{1,1}}, {0xb04,{9,9}}, {0xb05,{1,1}}, {0xb0d,{9,9}}, {0xb0f,{1,1}}, {0xb11,{9,9}}, {0xb13,{1,1}}, {0xb29,{9,9}}, {0xb2a,{1,1}}, {0xb31,{9,9}}, {0xb32,{1,1}}, {0xb34,{9,9}}, {0xb35,{1,1}}, {0xb3a,{9,9}}, {0xb3c,{0,0}}, {0xb3d,{1,1}}, {0xb3f,{0,0}}, {0xb40,{1,1}}, {0xb41,{0,0}}, {0xb44,{9,9}}, {0xb47,{1,1}}, {0xb49,{9,9}}, {0xb4b,{1,1}}, {0xb4d,{0,0}}, {0xb4e,{9,9}}, {0xb56,{0,0}}, {0xb57,{1,1}}, {0xb58,{9,9}}, {0xb5c,{1,1}}, {0xb5e,{9,9}}, {0xb5f,{1,1}}, {0xb62,{9,9}}, {0xb66,{1,1}}, {0xb78,{9,9}}, {0xb82,{0,0}}, {0xb83,{1,1}}, {0xb84,{9,9}}, {0xb85,{1,1}}, {0xb8b,{9,9}}, {0xb8e,{1,1}}, {0xb91,{9,9}}, {0xb92,{1,1}}, {0xb96,{9,9}}, {0xb99,{1,1}}, {0xb9b,{9,9}}, {0xb9c,{1,1}}, {0xb9d,{9,9}}, {0xb9e,{1,1}}, {0xba0,{9,9}}, {0xba3,{1,1}}, {0xba5,{9,9}}, {0xba8,{1,1}}, {0xbab,{9,9}}, {0xbae,{1,1}}, {0xbba,{9,9}}, {0xbbe,{1,1}}, {0xbc0,{0,0}}, {0xbc1,{1,1}}, {0xbc3,{9,9}}, {0xbc6,{1,1}}, {0xbc9,{9,9}}, {0xbca,{1,1}}, {0xbcd,{0,0}}, {0xbce,{9,9}}, {0xbd0,{1,1}}, {0xbd1,{9,9}}, {0xbd7,{1,1}}, {0xbd8,{9,9}}, {0xbe6,{1,1}}, {0xbfb,{9,9}}, {0xc01,{1,1}}, {0xc04,{9,9}}, {0xc05,{1,1}}, {0xc0d,{9,9}}, {0xc0e,{1,1}}, {0xc11,{9,9}}, {0xc12,{1,1}}, {0xc29,{9,9}}, {0xc2a,{1,1}}, {0xc3a,{9,9}}, {0xc3d,{1,1}}, {0xc3e,{0,0}}, {0xc41,{1,1}}, {0xc45,{9,9}}, {0xc46,{0,0}}, {0xc49,{9,9}}, {0xc4a,{0,0}}, {0xc4e,{9,9}}, {0xc55,{0,0}}, {0xc57,{9,9}}, {0xc58,{1,1}}, {0xc5b,{9,9}}, {0xc5d,{1,1}}, {0xc5e,{9,9}}, {0xc60,{1,1}}, {0xc62,{9,9}}, {0xc66,{1,1}}, {0xc70,{9,9}}, {0xc77,{1,1}}, {0xc81,{9,9}}, {0xc82,{1,1}}, {0xc8d,{9,9}}, {0xc8e,{1,1}}, {0xc91,{9,9}}, {0xc92,{1,1}}, {0xca9,{9,9}}, {0xcaa,{1,1}}, {0xcb4,{9,9}}, {0xcb5,{1,1}}, {0xcba,{9,9}}, {0xcbc,{0,0}}, {0xcbd,{1,1}}, {0xcbf,{0,0}}, {0xcc0,{1,1}}, {0xcc5,{9,9}}, {0xcc6,{0,0}}, {0xcc7,{1,1}}, {0xcc9,{9,9}}, {0xcca,{1,1}}, {0xccc,{0,0}}, {0xcce,{9,9}}, {0xcd5,{1,1}}, {0xcd7,{9,9}}, {0xcdd,{1,1}}, {0xcdf,{9,9}}, {0xce0,{1,1}}, {0xce2,{0,0}}, {0xce4,{9,9}}, {0xce6,{1,1}}, {0xcf0,{9,9}}, {0xcf1,{1,1}}, {0xcf4,{9,9}}, {0xd02,{1,1}}, {0xd0d,{9,9}}, {0xd0e,{1,1}}, {0xd11,{9,9}}, {0xd12,{1,1}}, {0xd3b,{9,9}}, {0xd3d,{1,1}}, {0xd41,{0,0}}, {0xd44,{9,9}}, {0xd46,{1,1}}, {0xd49,{9,9}}, {0xd4a,{1,1}}, {0xd4d,{0,0}}, {0xd4e,{1,1}}, {0xd50,{9,9}}, {0xd54,{1,1}}, {0xd62,{9,9}}, {0xd66,{1,1}}, {0xd80,{9,9}}, {0xd82,{1,1}}, {0xd84,{9,9}}, {0xd85,{1,1}}, {0xd97,{9,9}}, {0xd9a,{1,1}}, {0xdb2,{9,9}}, {0xdb3,{1,1}}, {0xdbc,{9,9}}, {0xdbd,{1,1}}, {0xdbe,{9,9}}, {0xdc0,{1,1}}, {0xdc7,{9,9}}, {0xdca,{0,0}}, {0xdcb,{9,9}}, {0xdcf,{1,1}}, {0xdd2,{0,0}}, {0xdd5,{9,9}}, {0xdd6,{0,0}}, {0xdd7,{9,9}}, {0xdd8,{1,1}}, {0xde0,{9,9}}, {0xde6,{1,1}}, {0xdf0,{9,9}}, {0xdf2,{1,1}}, {0xdf5,{9,9}}, {0xe01,{1,1}}, {0xe31,{0,0}}, {0xe32,{1,1}}, {0xe34,{0,0}}, {0xe3b,{9,9}}, {0xe3f,{1,1}}, {0xe47,{0,0}}, {0xe4f,{1,1}}, {0xe5c,{9,9}}, {0xe81,{1,1}}, {0xe83,{9,9}}, {0xe84,{1,1}}, {0xe85,{9,9}}, {0xe86,{1,1}}, {0xe8b,{9,9}}, {0xe8c,{1,1}}, {0xea4,{9,9}}, {0xea5,{1,1}}, {0xea6,{9,9}}, {0xea7,{1,1}}, {0xeb1,{0,0}}, {0xeb2,{1,1}}, {0xeb4,{0,0}}, {0xeba,{9,9}}, {0xebb,{0,0}}, {0xebd,{1,1}}, {0xebe,{9,9}}, {0xec0,{1,1}}, {0xec5,{9,9}}, {0xec6,{1,1}}, {0xec7,{9,9}}, {0xec8,{0,0}}, {0xece,{9,9}}, {0xed0,{1,1}}, {0xeda,{9,9}}, {0xedc,{1,1}}, {0xee0,{9,9}}, {0xf00,{1,1}}, {0xf18,{0,0}}, {0xf1a,{1,1}}, {0xf35,{0,0}}, {0xf36,{1,1}}, {0xf37,{0,0}}, {0xf38,{1,1}}, {0xf39,{0,0}}, {0xf3a,{1,1}}, {0xf48,{9,9}}, {0xf49,{1,1}}, {0xf6d,{9,9}}, {0xf71,{0,0}}, {0xf7f,{1,1}}, {0xf80,{0,0}}, {0xf85,{1,1}}, {0xf86,{0,0}}, {0xf88,{1,1}}, {0xf8d,{9,9}}, {0xf90,{0,0}}, {0xf98,{9,9}}, {0xf99,{0,0}}, {0xfbd,{9,9}}, {0xfbe,{1,1}}, {0xfc6,{0,0}}, {0xfc7,{1,1}}, {0xfcd,{9,9}}, {0xfce,{1,1}}, {0xfdb,{9,9}}, {0x1000,{1,1}}, {0x102d,{0,0}}, {0x1031,{1,1}}, {0x1032,{0,0}}, {0x1033,{9,9}}, {0x1036,{0,0}}, {0x1038,{1,1}}, {0x1039,{0,0}}, {0x103a,{9,9}}, {0x103b,{1,1}}, {0x103d,{9,9}}, {0x103f,{1,1}}, {0x1058,{0,0}}, {0x105a,{1,1}}, {0x105e,{9,9}}, {0x1061,{1,1}}, {0x1071,{9,9}}, {0x1075,{1,1}}, {0x1082,{9,9}}, {0x1083,{1,1}}, {0x1085,{9,9}}, {0x1087,{1,1}}, {0x108d,{9,9}}, {0x108e,{1,1}}, {0x109d,{9,9}}, {0x109e,{1,1}}, {0x10c6,{9,9}}, {0x10c7,{1,1}}, {0x10c8,{9,9}}, {0x10cd,{1,1}}, {0x10ce,{9,9}}, {0x10d0,{1,1}}, {0x1100,{2,2}}, {0x1160,{0,0}}, {0x1200,{1,1}}, {0x1249,{9,9}}, {0x124a,{1,1}}, {0x124e,{9,9}}, {0x1250,{1,1}}, {0x1257,{9,9}}, {0x1258,{1,1}}, {0x1259,{9,9}}, {0x125a,{1,1}}, {0x125e,{9,9}}, {0x1260,{1,1}}, {0x1289,{9,9}}, {0x128a,{1,1}}, {0x128e,{9,9}}, {0x1290,{1,1}}, {0x12b1,{9,9}}, {0x12b2,{1,1}}, {0x12b6,{9,9}}, {0x12b8,{1,1}}, {0x12bf,{9,9}}, {0x12c0,{1,1}}, {0x12c1,{9,9}}, {0x12c2,{1,1}}, {0x12c6,{9,9}}, {0x12c8,{1,1}}, {0x12d7,{9,9}}, {0x12d8,{1,1}}, {0x1311,{9,9}}, {0x1312,{1,1}}, {0x1316,{9,9}}, {0x1318,{1,1}}, {0x135b,{9,9}}, {0x135f,{0,0}}, {0x1360,{1,1}}, {0x137d,{9,9}}, {0x1380,{1,1}}, {0x139a,{9,9}}, {0x13a0,{1,1}}, {0x13f6,{9,9}}, {0x13f8,{1,1}}, {0x13fe,{9,9}}, {0x1400,{1,1}}, {0x169d,{9,9}}, {0x16a0,{1,1}}, {0x16f9,{9,9}}, {0x1700,{1,1}}, {0x1712,{0,0}}, {0x1715,{1,1}}, {0x1716,{9,9}}, {0x171f,{1,1}}, {0x1732,{0,0}}, {0x1734,{9,9}}, {0x1735,{1,1}}, {0x1737,{9,9}}, {0x1740,{1,1}}, {0x1752,{0,0}}, {0x1754,{9,9}}, {0x1760,{1,1}}, {0x176d,{9,9}}, {0x176e,{1,1}}, {0x1771,{9,9}}, {0x1772,{0,0}}, {0x1774,{9,9}}, {0x1780,{1,1}}, {0x17b4,{0,0}}, {0x17b6,{1,1}}, {0x17b7,{0,0}}, {0x17be,{1,1}}, {0x17c6,{0,0}}, {0x17c7,{1,1}}, {0x17c9,{0,0}}, {0x17d4,{1,1}}, {0x17dd,{0,0}}, {0x17de,{9,9}}, {0x17e0,{1,1}}, {0x17ea,{9,9}}, {0x17f0,{1,1}}, {0x17fa,{9,9}}, {0x1800,{1,1}}, {0x180b,{0,0}}, {0x180e,{9,9}}, {0x1810,{1,1}}, {0x181a,{9,9}}, {0x1820,{1,1}}, {0x1879,{9,9}}, {0x1880,{1,1}}, {0x1885,{9,9}}, {0x1887,{1,1}}, {0x18a9,{0,0}}, {0x18aa,{1,1}}, {0x18ab,{9,9}}, {0x18b0,{1,1}}, {0x18f6,{9,9}}, {0x1900,{1,1}}, {0x191f,{9,9}}, {0x1920,{0,0}}, {0x1923,{1,1}}, {0x1927,{0,0}}, {0x1929,{1,1}}, {0x192c,{9,9}}, {0x1930,{1,1}}, {0x1932,{0,0}}, {0x1933,{1,1}}, {0x1939,{0,0}}, {0x193c,{9,9}}, {0x1940,{1,1}}, {0x1941,{9,9}}, {0x1944,{1,1}}, {0x196e,{9,9}}, {0x1970,{1,1}}, {0x1975,{9,9}}, {0x1980,{1,1}}, {0x19ac,{9,9}}, {0x19b0,{1,1}}, {0x19ca,{9,9}}, {0x19d0,{1,1}}, {0x19db,{9,9}}, {0x19de,{1,1}}, {0x1a17,{0,0}}, {0x1a19,{1,1}}, {0x1a1b,{9,9}}, {0x1a1e,{1,1}}, {0x1a56,{9,9}}, {0x1a57,{1,1}}, {0x1a58,{9,9}}, {0x1a61,{1,1}}, {0x1a62,{9,9}}, {0x1a63,{1,1}}, {0x1a65,{9,9}}, {0x1a6d,{1,1}}, {0x1a73,{9,9}}, {0x1a80,{1,1}}, {0x1a8a,{9,9}}, {0x1a90,{1,1}}, {0x1a9a,{9,9}}, {0x1aa0,{1,1}}, {0x1aae,{9,9}}, {0x1b00,{0,0}}, {0x1b04,{1,1}}, {0x1b34,{0,0}}, {0x1b35,{1,1}}, {0x1b36,{0,0}}, {0x1b3b,{1,1}}, {0x1b3c,{0,0}}, {0x1b3d,{1,1}}, {0x1b42,{0,0}}, {0x1b43,{1,1}}, {0x1b4d,{9,9}}, {0x1b50,{1,1}}, {0x1b6b,{0,0}}, {0x1b74,{1,1}}, {0x1b7f,{9,9}}, {0x1b82,{1,1}}, {0x1ba2,{9,9}}, {0x1ba6,{1,1}}, {0x1ba8,{9,9}}, {0x1baa,{1,1}}, {0x1bab,{9,9}}, {0x1bae,{1,1}}, {0x1be6,{9,9}}, {0x1be7,{1,1}}, {0x1be8,{9,9}}, {0x1bea,{1,1}}, {0x1bed,{9,9}}, {0x1bee,{1,1}}, {0x1bef,{9,9}}, {0x1bf2,{1,1}}, {0x1bf4,{9,9}}, {0x1bfc,{1,1}}, {0x1c2c,{9,9}}, {0x1c34,{1,1}}, {0x1c36,{9,9}}, {0x1c3b,{1,1}}, {0x1c4a,{9,9}}, {0x1c4d,{1,1}}, {0x1c89,{9,9}}, {0x1c90,{1,1}}, {0x1cbb,{9,9}}, {0x1cbd,{1,1}}, {0x1cc8,{9,9}}, {0x1cd3,{1,1}}, {0x1cd4,{9,9}}, {0x1ce1,{1,1}}, {0x1ce2,{9,9}}, {0x1ce9,{1,1}}, {0x1ced,{9,9}}, {0x1cee,{1,1}}, {0x1cf4,{9,9}}, {0x1cf5,{1,1}}, {0x1cf8,{9,9}}, {0x1cfa,{1,1}}, {0x1cfb,{9,9}}, {0x1d00,{1,1}}, {0x1dc0,{0,0}}, {0x1dcb,{9,9}}, {0x1dfe,{0,0}}, {0x1e00,{1,1}}, {0x1f16,{9,9}}, {0x1f18,{1,1}}, {0x1f1e,{9,9}}, {0x1f20,{1,1}}, {0x1f46,{9,9}}, {0x1f48,{1,1}}, {0x1f4e,{9,9}}, {0x1f50,{1,1}}, {0x1f58,{9,9}}, {0x1f59,{1,1}}, {0x1f5a,{9,9}}, {0x1f5b,{1,1}}, {0x1f5c,{9,9}}, {0x1f5d,{1,1}}, {0x1f5e,{9,9}}, {0x1f5f,{1,1}}, {0x1f7e,{9,9}}, {0x1f80,{1,1}}, {0x1fb5,{9,9}}, {0x1fb6,{1,1}}, {0x1fc5,{9,9}}, {0x1fc6,{1,1}}, {0x1fd4,{9,9}}, {0x1fd6,{1,1}}, {0x1fdc,{9,9}}, {0x1fdd,{1,1}}, {0x1ff0,{9,9}}, {0x1ff2,{1,1}}, {0x1ff5,{9,9}}, {0x1ff6,{1,1}}, {0x1fff,{9,9}}, {0x2000,{1,1}}, {0x200b,{0,0}}, {0x2010,{1,1}}, {0x202a,{0,0}}, {0x202f,{1,1}}, {0x2060,{0,0}}, {0x2064,{9,9}}, {0x206a,{0,0}}, {0x2070,{1,1}}, {0x2072,{9,9}}, {0x2074,{1,1}}, {0x208f,{9,9}}, {0x2090,{1,1}}, {0x209d,{9,9}}, {0x20a0,{1,1}}, {0x20c1,{9,9}}, {0x20d0,{0,0}}, {0x20f0,{9,9}}, {0x2100,{1,1}}, {0x218c,{9,9}}, {0x2190,{1,1}}, {0x231a,{9,2}}, {0x231c,{1,1}}, {0x2329,{2,2}}, {0x232b,{1,1}}, {0x23e9,{9,2}}, {0x23ed,{1,1}}, {0x23f0,{9,2}}, {0x23f1,{1,1}}, {0x23f3,{9,2}}, {0x23f4,{1,1}}, {0x2427,{9,9}}, {0x2440,{1,1}}, {0x244b,{9,9}}, {0x2460,{1,1}}, {0x25fd,{9,2}}, {0x25ff,{1,1}}, {0x2614,{9,2}}, {0x2616,{1,1}}, {0x2648,{9,2}}, {0x2654,{1,1}}, {0x267f,{9,2}}, {0x2680,{1,1}}, {0x2693,{9,2}}, {0x2694,{1,1}}, {0x26a1,{9,2}}, {0x26a2,{1,1}}, {0x26aa,{9,2}}, {0x26ac,{1,1}}, {0x26bd,{9,2}}, {0x26bf,{1,1}}, {0x26c4,{9,2}}, {0x26c6,{1,1}}, {0x26ce,{9,2}}, {0x26cf,{1,1}}, {0x26d4,{9,2}}, {0x26d5,{1,1}}, {0x26ea,{9,2}}, {0x26eb,{1,1}}, {0x26f2,{9,2}}, {0x26f4,{1,1}}, {0x26f5,{9,2}}, {0x26f6,{1,1}}, {0x26fa,{9,2}}, {0x26fb,{1,1}}, {0x26fd,{9,2}}, {0x26fe,{1,1}}, {0x2705,{9,2}}, {0x2706,{1,1}}, {0x270a,{9,2}}, {0x270c,{1,1}}, {0x2728,{9,2}}, {0x2729,{1,1}}, {0x274c,{9,2}}, {0x274d,{1,1}}, {0x274e,{9,2}}, {0x274f,{1,1}}, {0x2753,{9,2}}, {0x2756,{1,1}}, {0x2757,{9,2}}, {0x2758,{1,1}}, {0x2795,{9,2}}, {0x2798,{1,1}}, {0x27b0,{9,2}}, {0x27b1,{1,1}}, {0x27bf,{9,2}}, {0x27c0,{1,1}}, {0x2b1b,{9,2}}, {0x2b1d,{1,1}}, {0x2b50,{9,2}}, {0x2b51,{1,1}}, {0x2b55,{9,2}}, {0x2b56,{1,1}}, {0x2b74,{9,9}}, {0x2b76,{1,1}}, {0x2b96,{9,9}}, {0x2b97,{1,1}}, {0x2cef,{9,9}}, {0x2cf2,{1,1}}, {0x2cf4,{9,9}}, {0x2cf9,{1,1}}, {0x2d26,{9,9}}, {0x2d27,{1,1}}, {0x2d28,{9,9}}, {0x2d2d,{1,1}}, {0x2d2e,{9,9}}, {0x2d30,{1,1}}, {0x2d68,{9,9}}, {0x2d6f,{1,1}}, {0x2d71,{9,9}}, {0x2d80,{1,1}}, {0x2d97,{9,9}}, {0x2da0,{1,1}}, {0x2da7,{9,9}}, {0x2da8,{1,1}}, {0x2daf,{9,9}}, {0x2db0,{1,1}}, {0x2db7,{9,9}}, {0x2db8,{1,1}}, {0x2dbf,{9,9}}, {0x2dc0,{1,1}}, {0x2dc7,{9,9}}, {0x2dc8,{1,1}}, {0x2dcf,{9,9}}, {0x2dd0,{1,1}}, {0x2dd7,{9,9}}, {0x2dd8,{1,1}}, {0x2ddf,{9,9}}, {0x2e00,{1,1}}, {0x2e5e,{9,9}}, {0x2e80,{2,2}}, {0x2e9a,{9,9}}, {0x2e9b,{2,2}}, {0x2ef4,{9,9}}, {0x2f00,{2,2}}, {0x2fd6,{9,9}}, {0x2ff0,{2,2}}, {0x2ffc,{9,9}}, {0x3000,{2,2}}, {0x302a,{0,0}}, {0x302e,{9,9}}, {0x3030,{2,9}}, {0x3031,{2,2}}, {0x303d,{2,9}}, {0x303e,{2,2}}, {0x303f,{1,1}}, {0x3040,{9,9}}, {0x3041,{2,2}}, {0x3097,{9,9}}, {0x3099,{0,0}}, {0x309b,{2,2}}, {0x3100,{9,9}}, {0x3105,{2,2}}, {0x3130,{9,9}}, {0x3131,{2,2}}, {0x318f,{9,9}}, {0x3190,{2,2}}, {0x31e4,{9,9}}, {0x31f0,{2,2}}, {0x321f,{9,9}}, {0x3220,{2,2}}, {0x3248,{1,1}}, {0x3250,{2,2}}, {0x3297,{2,9}}, {0x3298,{2,2}}, {0x3299,{2,9}}, {0x329a,{2,2}}, {0x4dc0,{1,1}}, {0x4e00,{2,2}}, {0xa48d,{9,9}}, {0xa490,{2,2}}, {0xa4c7,{9,9}}, {0xa4d0,{1,1}}, {0xa62c,{9,9}}, {0xa640,{1,1}}, {0xa66f,{9,9}}, {0xa673,{1,1}}, {0xa674,{9,9}}, {0xa67e,{1,1}}, {0xa69e,{9,9}}, {0xa6a0,{1,1}}, {0xa6f0,{9,9}}, {0xa6f2,{1,1}}, {0xa6f8,{9,9}}, {0xa700,{1,1}}, {0xa7cb,{9,9}}, {0xa7d0,{1,1}}, {0xa7d2,{9,9}}, {0xa7d3,{1,1}}, {0xa7d4,{9,9}}, {0xa7d5,{1,1}}, {0xa7da,{9,9}}, {0xa7f2,{1,1}}, {0xa802,{9,9}}, {0xa803,{1,1}}, {0xa806,{0,0}}, {0xa807,{1,1}}, {0xa80b,{0,0}}, {0xa80c,{1,1}}, {0xa825,{0,0}}, {0xa827,{1,1}}, {0xa82c,{9,9}}, {0xa830,{1,1}}, {0xa83a,{9,9}}, {0xa840,{1,1}}, {0xa878,{9,9}}, {0xa880,{1,1}}, {0xa8c4,{9,9}}, {0xa8ce,{1,1}}, {0xa8da,{9,9}}, {0xa8f2,{1,1}}, {0xa8ff,{9,9}}, {0xa900,{1,1}}, {0xa926,{9,9}}, {0xa92e,{1,1}}, {0xa947,{9,9}}, {0xa952,{1,1}}, {0xa954,{9,9}}, {0xa95f,{1,1}}, {0xa960,{9,9}}, {0xa983,{1,1}}, {0xa9b3,{9,9}}, {0xa9b4,{1,1}}, {0xa9b6,{9,9}}, {0xa9ba,{1,1}}, {0xa9bc,{9,9}}, {0xa9be,{1,1}}, {0xa9ce,{9,9}}, {0xa9cf,{1,1}}, {0xa9da,{9,9}}, {0xa9de,{1,1}}, {0xa9e5,{9,9}}, {0xa9e6,{1,1}}, {0xa9ff,{9,9}}, {0xaa00,{1,1}}, {0xaa29,{9,9}}, {0xaa2f,{1,1}}, {0xaa31,{9,9}}, {0xaa33,{1,1}}, {0xaa35,{9,9}}, {0xaa40,{1,1}}, {0xaa43,{9,9}}, {0xaa44,{1,1}}, {0xaa4c,{9,9}}, {0xaa4d,{1,1}}, {0xaa4e,{9,9}}, {0xaa50,{1,1}}, {0xaa5a,{9,9}}, {0xaa5c,{1,1}}, {0xaa7c,{9,9}}, {0xaa7d,{1,1}}, {0xaab0,{9,9}}, {0xaab1,{1,1}}, {0xaab2,{9,9}}, {0xaab5,{1,1}}, {0xaab7,{9,9}}, {0xaab9,{1,1}}, {0xaabe,{9,9}}, {0xaac0,{1,1}}, {0xaac1,{9,9}}, {0xaac2,{1,1}}, {0xaac3,{9,9}}, {0xaadb,{1,1}}, {0xaaec,{9,9}}, {0xaaee,{1,1}}, {0xaaf6,{9,9}}, {0xab01,{1,1}}, {0xab07,{9,9}}, {0xab09,{1,1}}, {0xab0f,{9,9}}, {0xab11,{1,1}}, {0xab17,{9,9}}, {0xab20,{1,1}}, {0xab27,{9,9}}, {0xab28,{1,1}}, {0xab2f,{9,9}}, {0xab30,{1,1}}, {0xab6c,{9,9}}, {0xab70,{1,1}}, {0xabe5,{9,9}}, {0xabe6,{1,1}}, {0xabe8,{9,9}}, {0xabe9,{1,1}}, {0xabed,{9,9}}, {0xabf0,{1,1}}, {0xabfa,{9,9}}, {0xac00,{2,2}}, {0xd7a4,{9,9}}, {0xd7b0,{1,1}}, {0xd7c7,{9,9}}, {0xd7cb,{1,1}}, {0xd7fc,{9,9}}, {0xf900,{2,2}}, {0xfa6e,{9,9}}, {0xfa70,{2,2}}, {0xfada,{9,9}}, {0xfb00,{1,1}}, {0xfb07,{9,9}}, {0xfb13,{1,1}}, {0xfb18,{9,9}}, {0xfb1d,{1,1}}, {0xfb1e,{0,0}}, {0xfb1f,{1,1}}, {0xfb37,{9,9}}, {0xfb38,{1,1}}, {0xfb3d,{9,9}}, {0xfb3e,{1,1}}, {0xfb3f,{9,9}}, {0xfb40,{1,1}}, {0xfb42,{9,9}}, {0xfb43,{1,1}}, {0xfb45,{9,9}}, {0xfb46,{1,1}}, {0xfbc3,{9,9}}, {0xfbd3,{1,1}}, {0xfd90,{9,9}}, {0xfd92,{1,1}}, {0xfdc8,{9,9}}, {0xfdcf,{1,1}}, {0xfdd0,{9,9}}, {0xfdf0,{1,1}}, {0xfe00,{0,0}}, {0xfe10,{2,2}}, {0xfe1a,{9,9}}, {0xfe20,{0,0}}, {0xfe24,{9,9}}, {0xfe30,{2,2}}, {0xfe53,{9,9}}, {0xfe54,{2,2}}, {0xfe67,{9,9}}, {0xfe68,{2,2}}, {0xfe6c,{9,9}}, {0xfe70,{1,1}}, {0xfe75,{9,9}}, {0xfe76,{1,1}}, {0xfefd,{9,9}}, {0xfeff,{0,0}}, {0xff00,{9,9}}, {0xff01,{2,2}}, {0xff61,{1,1}}, {0xffbf,{9,9}}, {0xffc2,{1,1}}, {0xffc8,{9,9}}, {0xffca,{1,1}}, {0xffd0,{9,9}}, {0xffd2,{1,1}}, {0xffd8,{9,9}}, {0xffda,{1,1}}, {0xffdd,{9,9}}, {0xffe0,{2,2}}, {0xffe7,{9,9}}, {0xffe8,{1,1}}, {0xffef,{9,9}}, {0xfff9,{0,0}}, {0xfffc,{1,1}}, {0xfffe,{9,9}}, {0x10000,{1,1}}, {0x1000c,{9,9}}, {0x1000d,{1,1}}, {0x10027,{9,9}}, {0x10028,{1,1}}, {0x1003b,{9,9}}, {0x1003c,{1,1}}, {0x1003e,{9,9}}, {0x1003f,{1,1}}, {0x1004e,{9,9}}, {0x10050,{1,1}}, {0x1005e,{9,9}}, {0x10080,{1,1}}, {0x100fb,{9,9}}, {0x10100,{1,1}}, {0x10103,{9,9}}, {0x10107,{1,1}}, {0x10134,{9,9}}, {0x10137,{1,1}}, {0x1018f,{9,9}}, {0x10190,{1,1}}, {0x1019d,{9,9}}, {0x101a0,{1,1}}, {0x101a1,{9,9}}, {0x101d0,{1,1}}, {0x101fd,{9,9}}, {0x10280,{1,1}}, {0x1029d,{9,9}}, {0x102a0,{1,1}}, {0x102d1,{9,9}}, {0x102e1,{1,1}}, {0x102fc,{9,9}}, {0x10300,{1,1}}, {0x10324,{9,9}}, {0x1032d,{1,1}}, {0x1034b,{9,9}}, {0x10350,{1,1}}, {0x10376,{9,9}}, {0x10380,{1,1}}, {0x1039e,{9,9}}, {0x1039f,{1,1}}, {0x103c4,{9,9}}, {0x103c8,{1,1}}, {0x103d6,{9,9}}, {0x10400,{1,1}}, {0x1049e,{9,9}}, {0x104a0,{1,1}}, {0x104aa,{9,9}}, {0x104b0,{1,1}}, {0x104d4,{9,9}}, {0x104d8,{1,1}}, {0x104fc,{9,9}}, {0x10500,{1,1}}, {0x10528,{9,9}}, {0x10530,{1,1}}, {0x10564,{9,9}}, {0x1056f,{1,1}}, {0x1057b,{9,9}}, {0x1057c,{1,1}}, {0x1058b,{9,9}}, {0x1058c,{1,1}}, {0x10593,{9,9}}, {0x10594,{1,1}}, {0x10596,{9,9}}, {0x10597,{1,1}}, {0x105a2,{9,9}}, {0x105a3,{1,1}}, {0x105b2,{9,9}}, {0x105b3,{1,1}}, {0x105ba,{9,9}}, {0x105bb,{1,1}}, {0x105bd,{9,9}}, {0x10600,{1,1}}, {0x10737,{9,9}}, {0x10740,{1,1}}, {0x10756,{9,9}}, {0x10760,{1,1}}, {0x10768,{9,9}}, {0x10780,{1,1}}, {0x10786,{9,9}}, {0x10787,{1,1}}, {0x107b1,{9,9}}, {0x107b2,{1,1}}, {0x107bb,{9,9}}, {0x10800,{1,1}}, {0x10806,{9,9}}, {0x10808,{1,1}}, {0x10809,{9,9}}, {0x1080a,{1,1}}, {0x10836,{9,9}}, {0x10837,{1,1}}, {0x10839,{9,9}}, {0x1083c,{1,1}}, {0x1083d,{9,9}}, {0x1083f,{1,1}}, {0x10856,{9,9}}, {0x10857,{1,1}}, {0x1089f,{9,9}}, {0x108a7,{1,1}}, {0x108b0,{9,9}}, {0x108e0,{1,1}}, {0x108f3,{9,9}}, {0x108f4,{1,1}}, {0x108f6,{9,9}}, {0x108fb,{1,1}}, {0x1091c,{9,9}}, {0x1091f,{1,1}}, {0x1093a,{9,9}}, {0x1093f,{1,1}}, {0x10940,{9,9}}, {0x10980,{1,1}}, {0x109b8,{9,9}}, {0x109bc,{1,1}}, {0x109d0,{9,9}}, {0x109d2,{1,1}}, {0x10a01,{0,0}}, {0x10a04,{9,9}}, {0x10a05,{0,0}}, {0x10a07,{9,9}}, {0x10a0c,{0,0}}, {0x10a10,{1,1}}, {0x10a14,{9,9}}, {0x10a15,{1,1}}, {0x10a18,{9,9}}, {0x10a19,{1,1}}, {0x10a36,{9,9}}, {0x10a38,{0,0}}, {0x10a3b,{9,9}}, {0x10a3f,{0,0}}, {0x10a40,{1,1}}, {0x10a49,{9,9}}, {0x10a50,{1,1}}, {0x10a59,{9,9}}, {0x10a60,{1,1}}, {0x10aa0,{9,9}}, {0x10ac0,{1,1}}, {0x10ae5,{9,9}}, {0x10aeb,{1,1}}, {0x10af7,{9,9}}, {0x10b00,{1,1}}, {0x10b36,{9,9}}, {0x10b39,{1,1}}, {0x10b56,{9,9}}, {0x10b58,{1,1}}, {0x10b73,{9,9}}, {0x10b78,{1,1}}, {0x10b92,{9,9}}, {0x10b99,{1,1}}, {0x10b9d,{9,9}}, {0x10ba9,{1,1}}, {0x10bb0,{9,9}}, {0x10c00,{1,1}}, {0x10c49,{9,9}}, {0x10c80,{1,1}}, {0x10cb3,{9,9}}, {0x10cc0,{1,1}}, {0x10cf3,{9,9}}, {0x10cfa,{1,1}}, {0x10d24,{9,9}}, {0x10d30,{1,1}}, {0x10d3a,{9,9}}, {0x10e60,{1,1}}, {0x10e7f,{9,9}}, {0x10e80,{1,1}}, {0x10eaa,{9,9}}, {0x10ead,{1,1}}, {0x10eae,{9,9}}, {0x10eb0,{1,1}}, {0x10eb2,{9,9}}, {0x10f00,{1,1}}, {0x10f28,{9,9}}, {0x10f30,{1,1}}, {0x10f46,{9,9}}, {0x10f51,{1,1}}, {0x10f5a,{9,9}}, {0x10f70,{1,1}}, {0x10f82,{9,9}}, {0x10f86,{1,1}}, {0x10f8a,{9,9}}, {0x10fb0,{1,1}}, {0x10fcc,{9,9}}, {0x10fe0,{1,1}}, {0x10ff7,{9,9}}, {0x11000,{1,1}}, {0x11001,{9,9}}, {0x11002,{1,1}}, {0x11038,{9,9}}, {0x11047,{1,1}}, {0x1104e,{9,9}}, {0x11052,{1,1}}, {0x11070,{9,9}}, {0x11071,{1,1}}, {0x11073,{9,9}}, {0x11075,{1,1}}, {0x11076,{9,9}}, {0x11082,{1,1}}, {0x110b3,{9,9}}, {0x110b7,{1,1}}, {0x110b9,{9,9}}, {0x110bb,{1,1}}, {0x110bd,{9,9}}, {0x110be,{1,1}}, {0x110c2,{9,9}}, {0x110d0,{1,1}}, {0x110e9,{9,9}}, {0x110f0,{1,1}}, {0x110fa,{9,9}}, {0x11103,{1,1}}, {0x11127,{9,9}}, {0x1112c,{1,1}}, {0x1112d,{9,9}}, {0x11136,{1,1}}, {0x11148,{9,9}}, {0x11150,{1,1}}, {0x11173,{9,9}}, {0x11174,{1,1}}, {0x11177,{9,9}}, {0x11182,{1,1}}, {0x111b6,{9,9}}, {0x111bf,{1,1}}, {0x111c9,{9,9}}, {0x111cd,{1,1}}, {0x111cf,{9,9}}, {0x111d0,{1,1}}, {0x111e0,{9,9}}, {0x111e1,{1,1}}, {0x111f5,{9,9}}, {0x11200,{1,1}}, {0x11212,{9,9}}, {0x11213,{1,1}}, {0x1122f,{9,9}}, {0x11232,{1,1}}, {0x11234,{9,9}}, {0x11235,{1,1}}, {0x11236,{9,9}}, {0x11238,{1,1}}, {0x1123e,{9,9}}, {0x1123f,{1,1}}, {0x11241,{9,9}}, {0x11280,{1,1}}, {0x11287,{9,9}}, {0x11288,{1,1}}, {0x11289,{9,9}}, {0x1128a,{1,1}}, {0x1128e,{9,9}}, {0x1128f,{1,1}}, {0x1129e,{9,9}}, {0x1129f,{1,1}}, {0x112aa,{9,9}}, {0x112b0,{1,1}}, {0x112df,{9,9}}, {0x112e0,{1,1}}, {0x112e3,{9,9}}, {0x112f0,{1,1}}, {0x112fa,{9,9}}, {0x11302,{1,1}}, {0x11304,{9,9}}, {0x11305,{1,1}}, {0x1130d,{9,9}}, {0x1130f,{1,1}}, {0x11311,{9,9}}, {0x11313,{1,1}}, {0x11329,{9,9}}, {0x1132a,{1,1}}, {0x11331,{9,9}}, {0x11332,{1,1}}, {0x11334,{9,9}}, {0x11335,{1,1}}, {0x1133a,{9,9}}, {0x1133d,{1,1}}, {0x11340,{9,9}}, {0x11341,{1,1}}, {0x11345,{9,9}}, {0x11347,{1,1}}, {0x11349,{9,9}}, {0x1134b,{1,1}}, {0x1134e,{9,9}}, {0x11350,{1,1}}, {0x11351,{9,9}}, {0x11357,{1,1}}, {0x11358,{9,9}}, {0x1135d,{1,1}}, {0x11364,{9,9}}, {0x11400,{1,1}}, {0x11438,{9,9}}, {0x11440,{1,1}}, {0x11442,{9,9}}, {0x11445,{1,1}}, {0x11446,{9,9}}, {0x11447,{1,1}}, {0x1145c,{9,9}}, {0x1145d,{1,1}}, {0x1145e,{9,9}}, {0x1145f,{1,1}}, {0x11462,{9,9}}, {0x11480,{1,1}}, {0x114b3,{9,9}}, {0x114b9,{1,1}}, {0x114ba,{9,9}}, {0x114bb,{1,1}}, {0x114bf,{9,9}}, {0x114c1,{1,1}}, {0x114c2,{9,9}}, {0x114c4,{1,1}}, {0x114c8,{9,9}}, {0x114d0,{1,1}}, {0x114da,{9,9}}, {0x11580,{1,1}}, {0x115b2,{9,9}}, {0x115b8,{1,1}}, {0x115bc,{9,9}}, {0x115be,{1,1}}, {0x115bf,{9,9}}, {0x115c1,{1,1}}, {0x115dc,{9,9}}, {0x11600,{1,1}}, {0x11633,{9,9}}, {0x1163b,{1,1}}, {0x1163d,{9,9}}, {0x1163e,{1,1}}, {0x1163f,{9,9}}, {0x11641,{1,1}}, {0x11645,{9,9}}, {0x11650,{1,1}}, {0x1165a,{9,9}}, {0x11660,{1,1}}, {0x1166d,{9,9}}, {0x11680,{1,1}}, {0x116ab,{9,9}}, {0x116ac,{1,1}}, {0x116ad,{9,9}}, {0x116ae,{1,1}}, {0x116b0,{9,9}}, {0x116b6,{1,1}}, {0x116b7,{9,9}}, {0x116b8,{1,1}}, {0x116ba,{9,9}}, {0x116c0,{1,1}}, {0x116ca,{9,9}}, {0x11700,{1,1}}, {0x1171b,{9,9}}, {0x11720,{1,1}}, {0x11722,{9,9}}, {0x11726,{1,1}}, {0x11727,{9,9}}, {0x11730,{1,1}}, {0x11747,{9,9}}, {0x11800,{1,1}}, {0x1182f,{9,9}}, {0x11838,{1,1}}, {0x11839,{9,9}}, {0x1183b,{1,1}}, {0x1183c,{9,9}}, {0x118a0,{1,1}}, {0x118f3,{9,9}}, {0x118ff,{1,1}}, {0x11907,{9,9}}, {0x11909,{1,1}}, {0x1190a,{9,9}}, {0x1190c,{1,1}}, {0x11914,{9,9}}, {0x11915,{1,1}}, {0x11917,{9,9}}, {0x11918,{1,1}}, {0x11936,{9,9}}, {0x11937,{1,1}}, {0x11939,{9,9}}, {0x1193d,{1,1}}, {0x1193e,{9,9}}, {0x1193f,{1,1}}, {0x11943,{9,9}}, {0x11944,{1,1}}, {0x11947,{9,9}}, {0x11950,{1,1}}, {0x1195a,{9,9}}, {0x119a0,{1,1}}, {0x119a8,{9,9}}, {0x119aa,{1,1}}, {0x119d4,{9,9}}, {0x119dc,{1,1}}, {0x119e0,{9,9}}, {0x119e1,{1,1}}, {0x119e5,{9,9}}, {0x11a00,{1,1}}, {0x11a01,{9,9}}, {0x11a0b,{1,1}}, {0x11a33,{9,9}}, {0x11a39,{1,1}}, {0x11a3b,{9,9}}, {0x11a3f,{1,1}}, {0x11a47,{9,9}}, {0x11a50,{1,1}}, {0x11a51,{9,9}}, {0x11a57,{1,1}}, {0x11a59,{9,9}}, {0x11a5c,{1,1}}, {0x11a8a,{9,9}}, {0x11a97,{1,1}}, {0x11a98,{9,9}}, {0x11a9a,{1,1}}, {0x11aa3,{9,9}}, {0x11ab0,{1,1}}, {0x11af9,{9,9}}, {0x11b00,{1,1}}, {0x11b0a,{9,9}}, {0x11c00,{1,1}}, {0x11c09,{9,9}}, {0x11c0a,{1,1}}, {0x11c30,{9,9}}, {0x11c3e,{1,1}}, {0x11c3f,{9,9}}, {0x11c40,{1,1}}, {0x11c46,{9,9}}, {0x11c50,{1,1}}, {0x11c6d,{9,9}}, {0x11c70,{1,1}}, {0x11c90,{9,9}}, {0x11ca9,{1,1}}, {0x11caa,{9,9}}, {0x11cb1,{1,1}}, {0x11cb2,{9,9}}, {0x11cb4,{1,1}}, {0x11cb5,{9,9}}, {0x11d00,{1,1}}, {0x11d07,{9,9}}, {0x11d08,{1,1}}, {0x11d0a,{9,9}}, {0x11d0b,{1,1}}, {0x11d31,{9,9}}, {0x11d46,{1,1}}, {0x11d47,{9,9}}, {0x11d50,{1,1}}, {0x11d5a,{9,9}}, {0x11d60,{1,1}}, {0x11d66,{9,9}}, {0x11d67,{1,1}}, {0x11d69,{9,9}}, {0x11d6a,{1,1}}, {0x11d8f,{9,9}}, {0x11d93,{1,1}}, {0x11d95,{9,9}}, {0x11d96,{1,1}}, {0x11d97,{9,9}}, {0x11d98,{1,1}}, {0x11d99,{9,9}}, {0x11da0,{1,1}}, {0x11daa,{9,9}}, {0x11ee0,{1,1}}, {0x11ef3,{9,9}}, {0x11ef5,{1,1}}, {0x11ef9,{9,9}}, {0x11f02,{1,1}}, {0x11f11,{9,9}}, {0x11f12,{1,1}}, {0x11f36,{9,9}}, {0x11f3e,{1,1}}, {0x11f40,{9,9}}, {0x11f41,{1,1}}, {0x11f42,{9,9}}, {0x11f43,{1,1}}, {0x11f5a,{9,9}}, {0x11fb0,{1,1}}, {0x11fb1,{9,9}}, {0x11fc0,{1,1}}, {0x11ff2,{9,9}}, {0x11fff,{1,1}}, {0x1239a,{9,9}}, {0x12400,{1,1}}, {0x1246f,{9,9}}, {0x12470,{1,1}}, {0x12475,{9,9}}, {0x12480,{1,1}}, {0x12544,{9,9}}, {0x12f90,{1,1}}, {0x12ff3,{9,9}}, {0x13000,{1,1}}, {0x13430,{9,9}}, {0x13441,{1,1}}, {0x13447,{9,9}}, {0x14400,{1,1}}, {0x14647,{9,9}}, {0x16800,{1,1}}, {0x16a39,{9,9}}, {0x16a40,{1,1}}, {0x16a5f,{9,9}}, {0x16a60,{1,1}}, {0x16a6a,{9,9}}, {0x16a6e,{1,1}}, {0x16abf,{9,9}}, {0x16ac0,{1,1}}, {0x16aca,{9,9}}, {0x16ad0,{1,1}}, {0x16aee,{9,9}}, {0x16af5,{1,1}}, {0x16af6,{9,9}}, {0x16b00,{1,1}}, {0x16b30,{9,9}}, {0x16b37,{1,1}}, {0x16b46,{9,9}}, {0x16b50,{1,1}}, {0x16b5a,{9,9}}, {0x16b5b,{1,1}}, {0x16b62,{9,9}}, {0x16b63,{1,1}}, {0x16b78,{9,9}}, {0x16b7d,{1,1}}, {0x16b90,{9,9}}, {0x16e40,{1,1}}, {0x16e9b,{9,9}}, {0x16f00,{1,1}}, {0x16f4b,{9,9}}, {0x16f50,{1,1}}, {0x16f88,{9,9}}, {0x16f93,{1,1}}, {0x16fa0,{9,9}}, {0x1bc00,{1,1}}, {0x1bc6b,{9,9}}, {0x1bc70,{1,1}}, {0x1bc7d,{9,9}}, {0x1bc80,{1,1}}, {0x1bc89,{9,9}}, {0x1bc90,{1,1}}, {0x1bc9a,{9,9}}, {0x1bc9c,{1,1}}, {0x1bc9d,{9,9}}, {0x1bc9f,{1,1}}, {0x1bca0,{9,9}}, {0x1cf50,{1,1}}, {0x1cfc4,{9,9}}, {0x1d000,{1,1}}, {0x1d0f6,{9,9}}, {0x1d100,{1,1}}, {0x1d127,{9,9}}, {0x1d129,{1,1}}, {0x1d167,{0,0}}, {0x1d16a,{1,1}}, {0x1d173,{0,0}}, {0x1d183,{1,1}}, {0x1d185,{0,0}}, {0x1d18c,{1,1}}, {0x1d1aa,{0,0}}, {0x1d1ae,{1,1}}, {0x1d1eb,{9,9}}, {0x1d200,{1,1}}, {0x1d242,{0,0}}, {0x1d245,{1,1}}, {0x1d246,{9,9}}, {0x1d2c0,{1,1}}, {0x1d2d4,{9,9}}, {0x1d2e0,{1,1}}, {0x1d2f4,{9,9}}, {0x1d300,{1,1}}, {0x1d357,{9,9}}, {0x1d360,{1,1}}, {0x1d379,{9,9}}, {0x1d400,{1,1}}, {0x1d455,{9,9}}, {0x1d456,{1,1}}, {0x1d49d,{9,9}}, {0x1d49e,{1,1}}, {0x1d4a0,{9,9}}, {0x1d4a2,{1,1}}, {0x1d4a3,{9,9}}, {0x1d4a5,{1,1}}, {0x1d4a7,{9,9}}, {0x1d4a9,{1,1}}, {0x1d4ad,{9,9}}, {0x1d4ae,{1,1}}, {0x1d4ba,{9,9}}, {0x1d4bb,{1,1}}, {0x1d4bc,{9,9}}, {0x1d4bd,{1,1}}, {0x1d4c4,{9,9}}, {0x1d4c5,{1,1}}, {0x1d506,{9,9}}, {0x1d507,{1,1}}, {0x1d50b,{9,9}}, {0x1d50d,{1,1}}, {0x1d515,{9,9}}, {0x1d516,{1,1}}, {0x1d51d,{9,9}}, {0x1d51e,{1,1}}, {0x1d53a,{9,9}}, {0x1d53b,{1,1}}, {0x1d53f,{9,9}}, {0x1d540,{1,1}}, {0x1d545,{9,9}}, {0x1d546,{1,1}}, {0x1d547,{9,9}}, {0x1d54a,{1,1}}, {0x1d551,{9,9}}, {0x1d552,{1,1}}, {0x1d6a6,{9,9}}, {0x1d6a8,{1,1}}, {0x1d7cc,{9,9}}, {0x1d7ce,{1,1}}, {0x1da00,{9,9}}, {0x1da37,{1,1}}, {0x1da3b,{9,9}}, {0x1da6d,{1,1}}, {0x1da75,{9,9}}, {0x1da76,{1,1}}, {0x1da84,{9,9}}, {0x1da85,{1,1}}, {0x1da8c,{9,9}}, {0x1df00,{1,1}}, {0x1df1f,{9,9}}, {0x1df25,{1,1}}, {0x1df2b,{9,9}}, {0x1e030,{1,1}}, {0x1e06e,{9,9}}, {0x1e100,{1,1}}, {0x1e12d,{9,9}}, {0x1e137,{1,1}}, {0x1e13e,{9,9}}, {0x1e140,{1,1}}, {0x1e14a,{9,9}}, {0x1e14e,{1,1}}, {0x1e150,{9,9}}, {0x1e290,{1,1}}, {0x1e2ae,{9,9}}, {0x1e2c0,{1,1}}, {0x1e2ec,{9,9}}, {0x1e2f0,{1,1}}, {0x1e2fa,{9,9}}, {0x1e2ff,{1,1}}, {0x1e300,{9,9}}, {0x1e4d0,{1,1}}, {0x1e4ec,{9,9}}, {0x1e4f0,{1,1}}, {0x1e4fa,{9,9}}, {0x1e7e0,{1,1}}, {0x1e7e7,{9,9}}, {0x1e7e8,{1,1}}, {0x1e7ec,{9,9}}, {0x1e7ed,{1,1}}, {0x1e7ef,{9,9}}, {0x1e7f0,{1,1}}, {0x1e7ff,{9,9}}, {0x1e800,{1,1}}, {0x1e8c5,{9,9}}, {0x1e8c7,{1,1}}, {0x1e8d0,{9,9}}, {0x1e900,{1,1}}, {0x1e944,{9,9}}, {0x1e94b,{1,1}}, {0x1e94c,{9,9}}, {0x1e950,{1,1}}, {0x1e95a,{9,9}}, {0x1e95e,{1,1}}, {0x1e960,{9,9}}, {0x1ec71,{1,1}}, {0x1ecb5,{9,9}}, {0x1ed01,{1,1}}, {0x1ed3e,{9,9}}, {0x1ee00,{1,1}}, {0x1ee04,{9,9}}, {0x1ee05,{1,1}}, {0x1ee20,{9,9}}, {0x1ee21,{1,1}}, {0x1ee23,{9,9}}, {0x1ee24,{1,1}}, {0x1ee25,{9,9}}, {0x1ee27,{1,1}}, {0x1ee28,{9,9}}, {0x1ee29,{1,1}}, {0x1ee33,{9,9}}, {0x1ee34,{1,1}}, {0x1ee38,{9,9}}, {0x1ee39,{1,1}}, {0x1ee3a,{9,9}}, {0x1ee3b,{1,1}}, {0x1ee3c,{9,9}}, {0x1ee42,{1,1}}, {0x1ee43,{9,9}}, {0x1ee47,{1,1}}, {0x1ee48,{9,9}}, {0x1ee49,{1,1}}, {0x1ee4a,{9,9}}, {0x1ee4b,{1,1}}, {0x1ee4c,{9,9}}, {0x1ee4d,{1,1}}, {0x1ee50,{9,9}}, {0x1ee51,{1,1}}, {0x1ee53,{9,9}}, {0x1ee54,{1,1}}, {0x1ee55,{9,9}}, {0x1ee57,{1,1}}, {0x1ee58,{9,9}}, {0x1ee59,{1,1}}, {0x1ee5a,{9,9}}, {0x1ee5b,{1,1}}, {0x1ee5c,{9,9}}, {0x1ee5d,{1,1}}, {0x1ee5e,{9,9}}, {0x1ee5f,{1,1}}, {0x1ee60,{9,9}}, {0x1ee61,{1,1}}, {0x1ee63,{9,9}}, {0x1ee64,{1,1}}, {0x1ee65,{9,9}}, {0x1ee67,{1,1}}, {0x1ee6b,{9,9}}, {0x1ee6c,{1,1}}, {0x1ee73,{9,9}}, {0x1ee74,{1,1}}, {0x1ee78,{9,9}}, {0x1ee79,{1,1}}, {0x1ee7d,{9,9}}, {0x1ee7e,{1,1}}, {0x1ee7f,{9,9}}, {0x1ee80,{1,1}}, {0x1ee8a,{9,9}}, {0x1ee8b,{1,1}}, {0x1ee9c,{9,9}}, {0x1eea1,{1,1}}, {0x1eea4,{9,9}}, {0x1eea5,{1,1}}, {0x1eeaa,{9,9}}, {0x1eeab,{1,1}}, {0x1eebc,{9,9}}, {0x1eef0,{1,1}}, {0x1eef2,{9,9}}, {0x1f000,{1,1}}, {0x1f004,{9,2}}, {0x1f005,{1,1}}, {0x1f02c,{9,9}}, {0x1f030,{1,1}}, {0x1f094,{9,9}}, {0x1f0a0,{1,1}}, {0x1f0af,{9,9}}, {0x1f0b1,{1,1}}, {0x1f0c0,{9,9}}, {0x1f0c1,{1,1}}, {0x1f0cf,{9,2}}, {0x1f0d0,{9,9}}, {0x1f0d1,{1,1}}, {0x1f0f6,{9,9}}, {0x1f100,{1,1}}, {0x1f18e,{9,2}}, {0x1f18f,{1,1}}, {0x1f191,{9,2}}, {0x1f19b,{1,1}}, {0x1f1ae,{9,9}}, {0x1f1e6,{1,1}}, {0x1f200,{9,9}}, {0x1f201,{9,2}}, {0x1f202,{9,9}}, {0x1f21a,{9,2}}, {0x1f21b,{9,9}}, {0x1f22f,{9,2}}, {0x1f230,{9,9}}, {0x1f232,{9,2}}, {0x1f237,{9,9}}, {0x1f238,{9,2}}, {0x1f23b,{9,9}}, {0x1f250,{9,2}}, {0x1f252,{9,9}}, {0x1f300,{9,2}}, {0x1f321,{1,1}}, {0x1f32d,{9,2}}, {0x1f336,{1,1}}, {0x1f337,{9,2}}, {0x1f37d,{1,1}}, {0x1f37e,{9,2}}, {0x1f394,{1,1}}, {0x1f3a0,{9,2}}, {0x1f3cb,{1,1}}, {0x1f3cf,{9,2}}, {0x1f3d4,{1,1}}, {0x1f3e0,{9,2}}, {0x1f3f1,{1,1}}, {0x1f3f4,{9,2}}, {0x1f3f5,{1,1}}, {0x1f3f8,{9,2}}, {0x1f3fb,{9,9}}, {0x1f400,{9,2}}, {0x1f43f,{1,1}}, {0x1f440,{9,2}}, {0x1f441,{1,1}}, {0x1f442,{9,2}}, {0x1f4fd,{1,1}}, {0x1f4ff,{9,2}}, {0x1f53e,{1,1}}, {0x1f54b,{9,2}}, {0x1f54f,{1,1}}, {0x1f550,{9,2}}, {0x1f568,{1,1}}, {0x1f57a,{9,2}}, {0x1f57b,{1,1}}, {0x1f595,{9,2}}, {0x1f597,{1,1}}, {0x1f5a4,{9,2}}, {0x1f5a5,{1,1}}, {0x1f5fb,{9,2}}, {0x1f650,{1,1}}, {0x1f680,{9,2}}, {0x1f6c6,{1,1}}, {0x1f6cc,{9,2}}, {0x1f6cd,{1,1}}, {0x1f6d0,{9,2}}, {0x1f6d3,{1,1}}, {0x1f6d5,{9,2}}, {0x1f6d8,{9,9}}, {0x1f6dc,{9,2}}, {0x1f6e0,{1,1}}, {0x1f6eb,{9,2}}, {0x1f6ed,{9,9}}, {0x1f6f0,{1,1}}, {0x1f6f4,{9,2}}, {0x1f6fd,{9,9}}, {0x1f700,{1,1}}, {0x1f777,{9,9}}, {0x1f77b,{1,1}}, {0x1f7da,{9,9}}, {0x1f7e0,{9,2}}, {0x1f7ec,{9,9}}, {0x1f7f0,{9,2}}, {0x1f7f1,{9,9}}, {0x1f800,{1,1}}, {0x1f80c,{9,9}}, {0x1f810,{1,1}}, {0x1f848,{9,9}}, {0x1f850,{1,1}}, {0x1f85a,{9,9}}, {0x1f860,{1,1}}, {0x1f888,{9,9}}, {0x1f890,{1,1}}, {0x1f8ae,{9,9}}, {0x1f8b0,{1,1}}, {0x1f8b2,{9,9}}, {0x1f900,{1,1}}, {0x1f90c,{9,2}}, {0x1f93b,{1,1}}, {0x1f93c,{9,2}}, {0x1f946,{1,1}}, {0x1f947,{9,2}}, {0x1fa00,{1,1}}, {0x1fa54,{9,9}}, {0x1fa60,{1,1}}, {0x1fa6e,{9,9}}, {0x1fa70,{9,2}}, {0x1fa7d,{9,9}}, {0x1fa80,{9,2}}, {0x1fa89,{9,9}}, {0x1fa90,{9,2}}, {0x1fabe,{9,9}}, {0x1fabf,{9,2}}, {0x1fac6,{9,9}}, {0x1face,{9,2}}, {0x1fadc,{9,9}}, {0x1fae0,{9,2}}, {0x1fae9,{9,9}}, {0x1faf0,{9,2}}, {0x1faf9,{9,9}}, {0x1fb00,{1,1}}, {0x1fb93,{9,9}}, {0x1fb94,{1,1}}, {0x1fbcb,{9,9}}, {0x1fbf0,{1,1}}, {0x1fbfa,{9,9}}, {0x20000,{2,2}}, {0x2a6e0,{9,9}}, {0x2a700,{2,2}}, {0x2b73a,{9,9}}, {0x2b740,{2,2}}, {0x2b81e,{9,9}}, {0x2b820,{2,2}}, {0x2cea2,{9,9}}, {0x2ceb0,{2,2}}, {0x2ebe1,{9,9}}, {0x2f800,{2,2}}, {0x2fa1e,{9,9}}, {0x30000,{2,2}}, {0x3134b,{9,9}}, {0x31350,{2,2}}, {0x323b0,{9,9}}, {0xe0001,{0,0}}, {0xe0002,{9,9}}, {0xe0020,{0,0}}, {0xe0080,{9,9}}, {0xe0100,{0,0}}, {0xe01f0,{9,9}} };
