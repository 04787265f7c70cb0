/* Characters of the basic plane per category, Unicode 15.0 (generated from Python's unicodedata): first, last */
static const struct { const char *cat; int a, b; } vcat[] = {
 {"Ll",0x61,0x7a}, {"Ll",0xb5,0xb5}, {"Ll",0xdf,0xf6}, {"Ll",0xf8,0xff}, {"Ll",0x101,0x101}, {"Ll",0x103,0x103}, {"Ll",0x105,0x105}, {"Ll",0x107,0x107}, {"Ll",0x109,0x109}, {"Ll",0x10b,0x10b}, {"Ll",0x10d,0x10d}, {"Ll",0x10f,0x10f}, {"Ll",0x111,0x111}, {"Ll",0x113,0x113}, {"Ll",0x115,0x115}, {"Ll",0x117,0x117}, {"Ll",0x119,0x119}, {"Ll",0x11b,0x11b}, {"Ll",0x11d,0x11d}, {"Ll",0x11f,0x11f}, {"Ll",0x121,0x121}, {"Ll",0x123,0x123}, {"Ll",0x125,0x125}, {"Ll",0x127,0x127}, {"Ll",0x129,0x129}, {"Ll",0x12b,0x12b}, {"Ll",0x12d,0x12d}, {"Ll",0x12f,0x12f}, {"Ll",0x131,0x131}, {"Ll",0x133,0x133}, {"Ll",0x135,0x135}, {"Ll",0x137,0x138}, {"Ll",0x13a,0x13a}, {"Ll",0x13c,0x13c}, {"Ll",0x13e,0x13e}, {"Ll",0x140,0x140}, {"Ll",0x142,0x142}, {"Ll",0x144,0x144}, {"Ll",0x146,0x146}, {"Ll",0x148,0x149}, {"Ll",0x14b,0x14b}, {"Ll",0x14d,0x14d}, {"Ll",0x14f,0x14f}, {"Ll",0x151,0x151}, {"Ll",0x153,0x153}, {"Ll",0x155,0x155}, {"Ll",0x157,0x157}, {"Ll",0x159,0x159}, {"Ll",0x15b,0x15b}, {"Ll",0x15d,0x15d}, {"Ll",0x15f,0x15f}, {"Ll",0x161,0x161}, {"Ll",0x163,0x163}, {"Ll",0x165,0x165}, {"Ll",0x167,0x167}, {"Ll",0x169,0x169}, {"Ll",0x16b,0x16b}, {"Ll",0x16d,0x16d}, {"Ll",0x16f,0x16f}, {"Ll",0x171,0x171}, {"Ll",0x173,0x173}, {"Ll",0x175,0x175}, {"Ll",0x177,0x177}, {"Ll",0x17a,0x17a}, {"Ll",0x17c,0x17c}, {"Ll",0x17e,0x180}, {"Ll",0x183,0x183}, {"Ll",0x185,0x185}, {"Ll",0x188,0x188}, {"Ll",0x18c,0x18d}, {"Ll",0x192,0x192}, {"Ll",0x195,0x195}, {"Ll",0x199,0x19b}, {"Ll",0x19e,0x19e}, {"Ll",0x1a1,0x1a1}, {"Ll",0x1a3,0x1a3}, {"Ll",0x1a5,0x1a5}, {"Ll",0x1a8,0x1a8}, {"Ll",0x1aa,0x1ab}, {"Ll",0x1ad,0x1ad}, {"Ll",0x1b0,0x1b0}, {"Ll",0x1b4,0x1b4}, {"Ll",0x1b6,0x1b6}, {"Ll",0x1b9,0x1ba}, {"Ll",0x1bd,0x1bf}, {"Ll",0x1c6,0x1c6}, {"Ll",0x1c9,0x1c9}, {"Ll",0x1cc,0x1cc}, {"Ll",0x1ce,0x1ce}, {"Ll",0x1d0,0x1d0}, {"Ll",0x1d2,0x1d2}, {"Ll",0x1d4,0x1d4}, {"Ll",0x1d6,0x1d6}, {"Ll",0x1d8,0x1d8}, {"Ll",0x1da,0x1da}, {"Ll",0x1dc,0x1dd}, {"Ll",0x1df,0x1df}, {"Ll",0x1e1,0x1e1}, {"Ll",0x1e3,0x1e3}, {"Ll",0x1e5,0x1e5}, {"Ll",0x1e7,0x1e7}, {"Ll",0x1e9,0x1e9}, {"Ll",0x1eb,0x1eb}, {"Ll",0x1ed,0x1ed}, {"Ll",0x1ef,0x1f0}, {"Ll",0x1f3,0x1f3}, {"Ll",0x1f5,0x1f5}, {"Ll",0x1f9,0x1f9}, {"Ll",0x1fb,0x1fb}, {"Ll",0x1fd,0x1fd}, {"Ll",0x1ff,0x1ff}, {"Ll",0x201,0x201}, {"Ll",0x203,0x203}, {"Ll",0x205,0x205}, {"Ll",0x207,0x207}, {"Ll",0x209,0x209}, {"Ll",0x20b,0x20b}, {"Ll",0x20d,0x20d}, {"Ll",0x20f,0x20f}, {"Ll",0x211,0x211}, {"Ll",0x213,0x213}, {"Ll",0x215,0x215}, {"Ll",0x217,0x217}, {"Ll",0x219,0x219}, {"Ll",0x21b,0x21b}, {"Ll",0x21d,0x21d}, {"Ll",0x21f,0x21f}, {"Ll",0x221,0x221}, {"Ll",0x223,0x223}, {"Ll",0x225,0x225}, {"Ll",0x227,0x227}, {"Ll",0x229,0x229}, {"Ll",0x22b,0x22b}, {"Ll",0x22d,0x22d}, {"Ll",0x22f,0x22f}, {"Ll",0x231,0x231}, {"Ll",0x233,0x239}, {"Ll",0x23c,0x23c}, {"Ll",0x23f,0x240}, {"Ll",0x242,0x242}, {"Ll",0x247,0x247}, {"Ll",0x249,0x249}, {"Ll",0x24b,0x24b}, {"Ll",0x24d,0x24d}, {"Ll",0x24f,0x293}, {"Ll",0x295,0x2af}, {"Ll",0x371,0x371}, {"Ll",0x373,0x373}, {"Ll",0x377,0x377}, {"Ll",0x37b,0x37d}, {"Ll",0x390,0x390}, {"Ll",0x3ac,0x3ce}, {"Ll",0x3d0,0x3d1}, {"Ll",0x3d5,0x3d7}, {"Ll",0x3d9,0x3d9}, {"Ll",0x3db,0x3db}, {"Ll",0x3dd,0x3dd}, {"Ll",0x3df,0x3df}, {"Ll",0x3e1,0x3e1}, {"Ll",0x3e3,0x3e3}, {"Ll",0x3e5,0x3e5}, {"Ll",0x3e7,0x3e7}, {"Ll",0x3e9,0x3e9}, {"Ll",0x3eb,0x3eb}, {"Ll",0x3ed,0x3ed}, {"Ll",0x3ef,0x3f3}, {"Ll",0x3f5,0x3f5}, {"Ll",0x3f8,0x3f8}, {"Ll",0x3fb,0x3fc}, {"Ll",0x430,0x45f}, {"Ll",0x461,0x461}, {"Ll",0x463,0x463}, {"Ll",0x465,0x465}, {"Ll",0x467,0x467}, {"Ll",0x469,0x469}, {"Ll",0x46b,0x46b}, {"Ll",0x46d,0x46d}, {"Ll",0x46f,0x46f}, {"Ll",0x471,0x471}, {"Ll",0x473,0x473}, {"Ll",0x475,0x475}, {"Ll",0x477,0x477}, {"Ll",0x479,0x479}, {"Ll",0x47b,0x47b}, {"Ll",0x47d,0x47d}, {"Ll",0x47f,0x47f}, {"Ll",0x481,0x481}, {"Ll",0x48b,0x48b}, {"Ll",0x48d,0x48d}, {"Ll",0x48f,0x48f}, {"Ll",0x491,0x491}, {"Ll",0x493,0x493}, {"Ll",0x495,0x495}, {"Ll",0x497,0x497}, {"Ll",0x499,0x499}, {"Ll",0x49b,0x49b}, {"Ll",0x49d,0x49d}, {"Ll",0x49f,0x49f}, {"Ll",0x4a1,0x4a1}, {"Ll",0x4a3,0x4a3}, {"Ll",0x4a5,0x4a5}, {"Ll",0x4a7,0x4a7}, {"Ll",0x4a9,0x4a9}, {"Ll",0x4ab,0x4ab}, {"Ll",0x4ad,0x4ad}, {"Ll",0x4af,0x4af}, {"Ll",0x4b1,0x4b1}, {"Ll",0x4b3,0x4b3}, {"Ll",0x4b5,0x4b5}, {"Ll",0x4b7,0x4b7}, {"Ll",0x4b9,0x4b9}, {"Ll",0x4bb,0x4bb}, {"Ll",0x4bd,0x4bd}, {"Ll",0x4bf,0x4bf}, {"Ll",0x4c2,0x4c2}, {"Ll",0x4c4,0x4c4}, {"Ll",0x4c6,0x4c6}, {"Ll",0x4c8,0x4c8}, {"Ll",0x4ca,0x4ca}, {"Ll",0x4cc,0x4cc}, {"Ll",0x4ce,0x4cf}, {"Ll",0x4d1,0x4d1}, {"Ll",0x4d3,0x4d3}, {"Ll",0x4d5,0x4d5}, {"Ll",0x4d7,0x4d7}, {"Ll",0x4d9,0x4d9}, {"Ll",0x4db,0x4db}, {"Ll",0x4dd,0x4dd}, {"Ll",0x4df,0x4df}, {"Ll",0x4e1,0x4e1}, {"Ll",0x4e3,0x4e3}, {"Ll",0x4e5,0x4e5}, {"Ll",0x4e7,0x4e7}, {"Ll",0x4e9,0x4e9}, {"Ll",0x4eb,0x4eb}, {"Ll",0x4ed,0x4ed}, {"Ll",0x4ef,0x4ef}, {"Ll",0x4f1,0x4f1}, {"Ll",0x4f3,0x4f3}, {"Ll",0x4f5,0x4f5}, {"Ll",0x4f7,0x4f7}, {"Ll",0x4f9,0x4f9}, {"Ll",0x4fb,0x4fb}, {"Ll",0x4fd,0x4fd}, {"Ll",0x4ff,0x4ff}, {"Ll",0x501,0x501}, {"Ll",0x503,0x503}, {"Ll",0x505,0x505}, {"Ll",0x507,0x507}, {"Ll",0x509,0x509}, {"Ll",0x50b,0x50b}, {"Ll",0x50d,0x50d}, {"Ll",0x50f,0x50f}, {"Ll",0x511,0x511}, {"Ll",0x513,0x513}, {"Ll",0x515,0x515}, {"Ll",0x517,0x517}, {"Ll",0x519,0x519}, {"Ll",0x51b,0x51b}, {"Ll",0x51d,0x51d}, {"Ll",0x51f,0x51f}, {"Ll",0x521,0x521}, {"Ll",0x523,0x523}, {"Ll",0x525,0x525}, {"Ll",0x527,0x527}, {"Ll",0x529,0x529}, {"Ll",0x52b,0x52b}, {"Ll",0x52d,0x52d}, {"Ll",0x52f,0x52f}, {"Ll",0x560,0x588}, {"Ll",0x10d0,0x10fa}, {"Ll",0x10fd,0x10ff}, {"Ll",0x13f8,0x13fd}, {"Ll",0x1c80,0x1c88}, {"Ll",0x1d00,0x1d2b}, {"Ll",0x1d6b,0x1d77}, {"Ll",0x1d79,0x1d9a}, {"Ll",0x1e01,0x1e01}, {"Ll",0x1e03,0x1e03}, {"Ll",0x1e05,0x1e05}, {"Ll",0x1e07,0x1e07}, {"Ll",0x1e09,0x1e09}, {"Ll",0x1e0b,0x1e0b}, {"Ll",0x1e0d,0x1e0d}, {"Ll",0x1e0f,0x1e0f}, {"Ll",0x1e11,0x1e11}, {"Ll",0x1e13,0x1e13}, {"Ll",0x1e15,0x1e15}, {"Ll",0x1e17,0x1e17}, {"Ll",0x1e19,0x1e19}, {"Ll",0x1e1b,0x1e1b}, {"Ll",0x1e1d,0x1e1d}, {"Ll",0x1e1f,0x1e1f}, {"Ll",0x1e21,0x1e21}, {"Ll",0x1e23,0x1e23}, {"Ll",0x1e25,0x1e25}, {"Ll",0x1e27,0x1e27}, {"Ll",0x1e29,0x1e29}, {"Ll",0x1e2b,0x1e2b}, {"Ll",0x1e2d,0x1e2d}, {"Ll",0x1e2f,0x1e2f}, {"Ll",0x1e31,0x1e31}, {"Ll",0x1e33,0x1e33}, {"Ll",0x1e35,0x1e35}, {"Ll",0x1e37,0x1e37}, {"Ll",0x1e39,0x1e39}, {"Ll",0x1e3b,0x1e3b}, {"Ll",0x1e3d,0x1e3d}, {"Ll",0x1e3f,0x1e3f}, {"Ll",0x1e41,0x1e41}, {"Ll",0x1e43,0x1e43}, {"Ll",0x1e45,0x1e45}, {"Ll",0x1e47,0x1e47}, {"Ll",0x1e49,0x1e49}, {"Ll",0x1e4b,0x1e4b}, {"Ll",0x1e4d,0x1e4d}, {"Ll",0x1e4f,0x1e4f}, {"Ll",0x1e51,0x1e51}, {"Ll",0x1e53,0x1e53}, {"Ll",0x1e55,0x1e55}, {"Ll",0x1e57,0x1e57}, {"Ll",0x1e59,0x1e59}, {"Ll",0x1e5b,0x1e5b}, {"Ll",0x1e5d,0x1e5d}, {"Ll",0x1e5f,0x1e5f}, {"Ll",0x1e61,0x1e61}, {"Ll",0x1e63,0x1e63}, {"Ll",0x1e65,0x1e65}, {"Ll",0x1e67,0x1e67}, {"Ll",0x1e69,0x1e69}, {"Ll",0x1e6b,0x1e6b}, {"Ll",0x1e6d,0x1e6d}, {"Ll",0x1e6f,0x1e6f}, {"Ll",0x1e71,0x1e71}, {"Ll",0x1e73,0x1e73}, {"Ll",0x1e75,0x1e75}, {"Ll",0x1e77,0x1e77}, {"Ll",0x1e79,0x1e79}, {"Ll",0x1e7b,0x1e7b}, {"Ll",0x1e7d,0x1e7d}, {"Ll",0x1e7f,0x1e7f}, {"Ll",0x1e81,0x1e81}, {"Ll",0x1e83,0x1e83}, {"Ll",0x1e85,0x1e85}, {"Ll",0x1e87,0x1e87}, {"Ll",0x1e89,0x1e89}, {"Ll",0x1e8b,0x1e8b}, {"Ll",0x1e8d,0x1e8d}, {"Ll",0x1e8f,0x1e8f}, {"Ll",0x1e91,0x1e91}, {"Ll",0x1e93,0x1e93}, {"Ll",0x1e95,0x1e9d}, {"Ll",0x1e9f,0x1e9f}, {"Ll",0x1ea1,0x1ea1}, {"Ll",0x1ea3,0x1ea3}, {"Ll",0x1ea5,0x1ea5}, {"Ll",0x1ea7,0x1ea7}, {"Ll",0x1ea9,0x1ea9}, {"Ll",0x1eab,0x1eab}, {"Ll",0x1ead,0x1ead}, {"Ll",0x1eaf,0x1eaf}, {"Ll",0x1eb1,0x1eb1}, {"Ll",0x1eb3,0x1eb3}, {"Ll",0x1eb5,0x1eb5}, {"Ll",0x1eb7,0x1eb7}, {"Ll",0x1eb9,0x1eb9}, {"Ll",0x1ebb,0x1ebb}, {"Ll",0x1ebd,0x1ebd}, {"Ll",0x1ebf,0x1ebf}, {"Ll",0x1ec1,0x1ec1}, {"Ll",0x1ec3,0x1ec3}, {"Ll",0x1ec5,0x1ec5}, {"Ll",0x1ec7,0x1ec7}, {"Ll",0x1ec9,0x1ec9}, {"Ll",0x1ecb,0x1ecb}, {"Ll",0x1ecd,0x1ecd}, {"Ll",0x1ecf,0x1ecf}, {"Ll",0x1ed1,0x1ed1}, {"Ll",0x1ed3,0x1ed3}, {"Ll",0x1ed5,0x1ed5}, {"Ll",0x1ed7,0x1ed7}, {"Ll",0x1ed9,0x1ed9}, {"Ll",0x1edb,0x1edb}, {"Ll",0x1edd,0x1edd}, {"Ll",0x1edf,0x1edf}, {"Ll",0x1ee1,0x1ee1}, {"Ll",0x1ee3,0x1ee3}, {"Ll",0x1ee5,0x1ee5}, {"Ll",0x1ee7,0x1ee7}, {"Ll",0x1ee9,0x1ee9}, {"Ll",0x1eeb,0x1eeb}, {"Ll",0x1eed,0x1eed}, {"Ll",0x1eef,0x1eef}, {"Ll",0x1ef1,0x1ef1}, {"Ll",0x1ef3,0x1ef3}, {"Ll",0x1ef5,0x1ef5}, {"Ll",0x1ef7,0x1ef7}, {"Ll",0x1ef9,0x1ef9}, {"Ll",0x1efb,0x1efb}, {"Ll",0x1efd,0x1efd}, {"Ll",0x1eff,0x1f07}, {"Ll",0x1f10,0x1f15}, {"Ll",0x1f20,0x1f27}, {"Ll",0x1f30,0x1f37}, {"Ll",0x1f40,0x1f45}, {"Ll",0x1f50,0x1f57}, {"Ll",0x1f60,0x1f67}, {"Ll",0x1f70,0x1f7d}, {"Ll",0x1f80,0x1f87}, {"Ll",0x1f90,0x1f97}, {"Ll",0x1fa0,0x1fa7}, {"Ll",0x1fb0,0x1fb4}, {"Ll",0x1fb6,0x1fb7}, {"Ll",0x1fbe,0x1fbe}, {"Ll",0x1fc2,0x1fc4}, {"Ll",0x1fc6,0x1fc7}, {"Ll",0x1fd0,0x1fd3}, {"Ll",0x1fd6,0x1fd7}, {"Ll",0x1fe0,0x1fe7}, {"Ll",0x1ff2,0x1ff4}, {"Ll",0x1ff6,0x1ff7}, {"Ll",0x210a,0x210a}, {"Ll",0x210e,0x210f}, {"Ll",0x2113,0x2113}, {"Ll",0x212f,0x212f}, {"Ll",0x2134,0x2134}, {"Ll",0x2139,0x2139}, {"Ll",0x213c,0x213d}, {"Ll",0x2146,0x2149}, {"Ll",0x214e,0x214e}, {"Ll",0x2184,0x2184}, {"Ll",0x2c30,0x2c5f}, {"Ll",0x2c61,0x2c61}, {"Ll",0x2c65,0x2c66}, {"Ll",0x2c68,0x2c68}, {"Ll",0x2c6a,0x2c6a}, {"Ll",0x2c6c,0x2c6c}, {"Ll",0x2c71,0x2c71}, {"Ll",0x2c73,0x2c74}, {"Ll",0x2c76,0x2c7b}, {"Ll",0x2c81,0x2c81}, {"Ll",0x2c83,0x2c83}, {"Ll",0x2c85,0x2c85}, {"Ll",0x2c87,0x2c87}, {"Ll",0x2c89,0x2c89}, {"Ll",0x2c8b,0x2c8b}, {"Ll",0x2c8d,0x2c8d}, {"Ll",0x2c8f,0x2c8f}, {"Ll",0x2c91,0x2c91}, {"Ll",0x2c93,0x2c93}, {"Ll",0x2c95,0x2c95}, {"Ll",0x2c97,0x2c97}, {"Ll",0x2c99,0x2c99}, {"Ll",0x2c9b,0x2c9b}, {"Ll",0x2c9d,0x2c9d}, {"Ll",0x2c9f,0x2c9f}, {"Ll",0x2ca1,0x2ca1}, {"Ll",0x2ca3,0x2ca3}, {"Ll",0x2ca5,0x2ca5}, {"Ll",0x2ca7,0x2ca7}, {"Ll",0x2ca9,0x2ca9}, {"Ll",0x2cab,0x2cab}, {"Ll",0x2cad,0x2cad}, {"Ll",0x2caf,0x2caf}, {"Ll",0x2cb1,0x2cb1}, {"Ll",0x2cb3,0x2cb3}, {"Ll",0x2cb5,0x2cb5}, {"Ll",0x2cb7,0x2cb7}, {"Ll",0x2cb9,0x2cb9}, {"Ll",0x2cbb,0x2cbb}, {"Ll",0x2cbd,0x2cbd}, {"Ll",0x2cbf,0x2cbf}, {"Ll",0x2cc1,0x2cc1}, {"Ll",0x2cc3,0x2cc3}, {"Ll",0x2cc5,0x2cc5}, {"Ll",0x2cc7,0x2cc7}, {"Ll",0x2cc9,0x2cc9}, {"Ll",0x2ccb,0x2ccb}, {"Ll",0x2ccd,0x2ccd}, {"Ll",0x2ccf,0x2ccf}, {"Ll",0x2cd1,0x2cd1}, {"Ll",0x2cd3,0x2cd3}, {"Ll",0x2cd5,0x2cd5}, {"Ll",0x2cd7,0x2cd7}, {"Ll",0x2cd9,0x2cd9}, {"Ll",0x2cdb,0x2cdb}, {"Ll",0x2cdd,0x2cdd}, {"Ll",0x2cdf,0x2cdf}, {"Ll",0x2ce1,0x2ce1}, {"Ll",0x2ce3,0x2ce4}, {"Ll",0x2cec,0x2cec}, {"Ll",0x2cee,0x2cee}, {"Ll",0x2cf3,0x2cf3}, {"Ll",0x2d00,0x2d25}, {"Ll",0x2d27,0x2d27}, {"Ll",0x2d2d,0x2d2d}, {"Ll",0xa641,0xa641}, {"Ll",0xa643,0xa643}, {"Ll",0xa645,0xa645}, {"Ll",0xa647,0xa647}, {"Ll",0xa649,0xa649}, {"Ll",0xa64b,0xa64b}, {"Ll",0xa64d,0xa64d}, {"Ll",0xa64f,0xa64f}, {"Ll",0xa651,0xa651}, {"Ll",0xa653,0xa653}, {"Ll",0xa655,0xa655}, {"Ll",0xa657,0xa657}, {"Ll",0xa659,0xa659}, {"Ll",0xa65b,0xa65b}, {"Ll",0xa65d,0xa65d}, {"Ll",0xa65f,0xa65f}, {"Ll",0xa661,0xa661}, {"Ll",0xa663,0xa663}, {"Ll",0xa665,0xa665}, {"Ll",0xa667,0xa667}, {"Ll",0xa669,0xa669}, {"Ll",0xa66b,0xa66b}, {"Ll",0xa66d,0xa66d}, {"Ll",0xa681,0xa681}, {"Ll",0xa683,0xa683}, {"Ll",0xa685,0xa685}, {"Ll",0xa687,0xa687}, {"Ll",0xa689,0xa689}, {"Ll",0xa68b,0xa68b}, {"Ll",0xa68d,0xa68d}, {"Ll",0xa68f,0xa68f}, {"Ll",0xa691,0xa691}, {"Ll",0xa693,0xa693}, {"Ll",0xa695,0xa695}, {"Ll",0xa697,0xa697}, {"Ll",0xa699,0xa699}, {"Ll",0xa69b,0xa69b}, {"Ll",0xa723,0xa723}, {"Ll",0xa725,0xa725}, {"Ll",0xa727,0xa727}, {"Ll",0xa729,0xa729}, {"Ll",0xa72b,0xa72b}, {"Ll",0xa72d,0xa72d}, {"Ll",0xa72f,0xa731}, {"Ll",0xa733,0xa733}, {"Ll",0xa735,0xa735}, {"Ll",0xa737,0xa737}, {"Ll",0xa739,0xa739}, {"Ll",0xa73b,0xa73b}, {"Ll",0xa73d,0xa73d}, {"Ll",0xa73f,0xa73f}, {"Ll",0xa741,0xa741}, {"Ll",0xa743,0xa743}, {"Ll",0xa745,0xa745}, {"Ll",0xa747,0xa747}, {"Ll",0xa749,0xa749}, {"Ll",0xa74b,0xa74b}, {"Ll",0xa74d,0xa74d}, {"Ll",0xa74f,0xa74f}, {"Ll",0xa751,0xa751}, {"Ll",0xa753,0xa753}, {"Ll",0xa755,0xa755}, {"Ll",0xa757,0xa757}, {"Ll",0xa759,0xa759}, {"Ll",0xa75b,0xa75b}, {"Ll",0xa75d,0xa75d}, {"Ll",0xa75f,0xa75f}, {"Ll",0xa761,0xa761}, {"Ll",0xa763,0xa763}, {"Ll",0xa765,0xa765}, {"Ll",0xa767,0xa767}, {"Ll",0xa769,0xa769}, {"Ll",0xa76b,0xa76b}, {"Ll",0xa76d,0xa76d}, {"Ll",0xa76f,0xa76f}, {"Ll",0xa771,0xa778}, {"Ll",0xa77a,0xa77a}, {"Ll",0xa77c,0xa77c}, {"Ll",0xa77f,0xa77f}, {"Ll",0xa781,0xa781}, {"Ll",0xa783,0xa783}, {"Ll",0xa785,0xa785}, {"Ll",0xa787,0xa787}, {"Ll",0xa78c,0xa78c}, {"Ll",0xa78e,0xa78e}, {"Ll",0xa791,0xa791}, {"Ll",0xa793,0xa795}, {"Ll",0xa797,0xa797}, {"Ll",0xa799,0xa799}, {"Ll",0xa79b,0xa79b}, {"Ll",0xa79d,0xa79d}, {"Ll",0xa79f,0xa79f}, {"Ll",0xa7a1,0xa7a1}, {"Ll",0xa7a3,0xa7a3}, {"Ll",0xa7a5,0xa7a5}, {"Ll",0xa7a7,0xa7a7}, {"Ll",0xa7a9,0xa7a9}, {"Ll",0xa7af,0xa7af}, {"Ll",0xa7b5,0xa7b5}, {"Ll",0xa7b7,0xa7b7}, {"Ll",0xa7b9,0xa7b9}, {"Ll",0xa7bb,0xa7bb}, {"Ll",0xa7bd,0xa7bd}, {"Ll",0xa7bf,0xa7bf}, {"Ll",0xa7c1,0xa7c1}, {"Ll",0xa7c3,0xa7c3}, {"Ll",0xa7c8,0xa7c8}, {"Ll",0xa7ca,0xa7ca}, {"Ll",0xa7d1,0xa7d1}, {"Ll",0xa7d3,0xa7d3}, {"Ll",0xa7d5,0xa7d5}, {"Ll",0xa7d7,0xa7d7}, {"Ll",0xa7d9,0xa7d9}, {"Ll",0xa7f6,0xa7f6}, {"Ll",0xa7fa,0xa7fa}, {"Ll",0xab30,0xab5a}, {"Ll",0xab60,0xab68}, {"Ll",0xab70,0xabbf}, {"Ll",0xfb00,0xfb06}, {"Ll",0xfb13,0xfb17}, {"Ll",0xff41,0xff5a},
 {"Lu",0x41,0x5a}, {"Lu",0xc0,0xd6}, {"Lu",0xd8,0xde}, {"Lu",0x100,0x100}, {"Lu",0x102,0x102}, {"Lu",0x104,0x104}, {"Lu",0x106,0x106}, {"Lu",0x108,0x108}, {"Lu",0x10a,0x10a}, {"Lu",0x10c,0x10c}, {"Lu",0x10e,0x10e}, {"Lu",0x110,0x110}, {"Lu",0x112,0x112}, {"Lu",0x114,0x114}, {"Lu",0x116,0x116}, {"Lu",0x118,0x118}, {"Lu",0x11a,0x11a}, {"Lu",0x11c,0x11c}, {"Lu",0x11e,0x11e}, {"Lu",0x120,0x120}, {"Lu",0x122,0x122}, {"Lu",0x124,0x124}, {"Lu",0x126,0x126}, {"Lu",0x128,0x128}, {"Lu",0x12a,0x12a}, {"Lu",0x12c,0x12c}, {"Lu",0x12e,0x12e}, {"Lu",0x130,0x130}, {"Lu",0x132,0x132}, {"Lu",0x134,0x134}, {"Lu",0x136,0x136}, {"Lu",0x139,0x139}, {"Lu",0x13b,0x13b}, {"Lu",0x13d,0x13d}, {"Lu",0x13f,0x13f}, {"Lu",0x141,0x141}, {"Lu",0x143,0x143}, {"Lu",0x145,0x145}, {"Lu",0x147,0x147}, {"Lu",0x14a,0x14a}, {"Lu",0x14c,0x14c}, {"Lu",0x14e,0x14e}, {"Lu",0x150,0x150}, {"Lu",0x152,0x152}, {"Lu",0x154,0x154}, {"Lu",0x156,0x156}, {"Lu",0x158,0x158}, {"Lu",0x15a,0x15a}, {"Lu",0x15c,0x15c}, {"Lu",0x15e,0x15e}, {"Lu",0x160,0x160}, {"Lu",0x162,0x162}, {"Lu",0x164,0x164}, {"Lu",0x166,0x166}, {"Lu",0x168,0x168}, {"Lu",0x16a,0x16a}, {"Lu",0x16c,0x16c}, {"Lu",0x16e,0x16e}, {"Lu",0x170,0x170}, {"Lu",0x172,0x172}, {"Lu",0x174,0x174}, {"Lu",0x176,0x176}, {"Lu",0x178,0x179}, {"Lu",0x17b,0x17b}, {"Lu",0x17d,0x17d}, {"Lu",0x181,0x182}, {"Lu",0x184,0x184}, {"Lu",0x186,0x187}, {"Lu",0x189,0x18b}, {"Lu",0x18e,0x191}, {"Lu",0x193,0x194}, {"Lu",0x196,0x198}, {"Lu",0x19c,0x19d}, {"Lu",0x19f,0x1a0}, {"Lu",0x1a2,0x1a2}, {"Lu",0x1a4,0x1a4}, {"Lu",0x1a6,0x1a7}, {"Lu",0x1a9,0x1a9}, {"Lu",0x1ac,0x1ac}, {"Lu",0x1ae,0x1af}, {"Lu",0x1b1,0x1b3}, {"Lu",0x1b5,0x1b5}, {"Lu",0x1b7,0x1b8}, {"Lu",0x1bc,0x1bc}, {"Lu",0x1c4,0x1c4}, {"Lu",0x1c7,0x1c7}, {"Lu",0x1ca,0x1ca}, {"Lu",0x1cd,0x1cd}, {"Lu",0x1cf,0x1cf}, {"Lu",0x1d1,0x1d1}, {"Lu",0x1d3,0x1d3}, {"Lu",0x1d5,0x1d5}, {"Lu",0x1d7,0x1d7}, {"Lu",0x1d9,0x1d9}, {"Lu",0x1db,0x1db}, {"Lu",0x1de,0x1de}, {"Lu",0x1e0,0x1e0}, {"Lu",0x1e2,0x1e2}, {"Lu",0x1e4,0x1e4}, {"Lu",0x1e6,0x1e6}, {"Lu",0x1e8,0x1e8}, {"Lu",0x1ea,0x1ea}, {"Lu",0x1ec,0x1ec}, {"Lu",0x1ee,0x1ee}, {"Lu",0x1f1,0x1f1}, {"Lu",0x1f4,0x1f4}, {"Lu",0x1f6,0x1f8}, {"Lu",0x1fa,0x1fa}, {"Lu",0x1fc,0x1fc}, {"Lu",0x1fe,0x1fe}, {"Lu",0x200,0x200}, {"Lu",0x202,0x202}, {"Lu",0x204,0x204}, {"Lu",0x206,0x206}, {"Lu",0x208,0x208}, {"Lu",0x20a,0x20a}, {"Lu",0x20c,0x20c}, {"Lu",0x20e,0x20e}, {"Lu",0x210,0x210}, {"Lu",0x212,0x212}, {"Lu",0x214,0x214}, {"Lu",0x216,0x216}, {"Lu",0x218,0x218}, {"Lu",0x21a,0x21a}, {"Lu",0x21c,0x21c}, {"Lu",0x21e,0x21e}, {"Lu",0x220,0x220}, {"Lu",0x222,0x222}, {"Lu",0x224,0x224}, {"Lu",0x226,0x226}, {"Lu",0x228,0x228}, {"Lu",0x22a,0x22a}, {"Lu",0x22c,0x22c}, {"Lu",0x22e,0x22e}, {"Lu",0x230,0x230}, {"Lu",0x232,0x232}, {"Lu",0x23a,0x23b}, {"Lu",0x23d,0x23e}, {"Lu",0x241,0x241}, {"Lu",0x243,0x246}, {"Lu",0x248,0x248}, {"Lu",0x24a,0x24a}, {"Lu",0x24c,0x24c}, {"Lu",0x24e,0x24e}, {"Lu",0x370,0x370}, {"Lu",0x372,0x372}, {"Lu",0x376,0x376}, {"Lu",0x37f,0x37f}, {"Lu",0x386,0x386}, {"Lu",0x388,0x38a}, {"Lu",0x38c,0x38c}, {"Lu",0x38e,0x38f}, {"Lu",0x391,0x3a1}, {"Lu",0x3a3,0x3ab}, {"Lu",0x3cf,0x3cf}, {"Lu",0x3d2,0x3d4}, {"Lu",0x3d8,0x3d8}, {"Lu",0x3da,0x3da}, {"Lu",0x3dc,0x3dc}, {"Lu",0x3de,0x3de}, {"Lu",0x3e0,0x3e0}, {"Lu",0x3e2,0x3e2}, {"Lu",0x3e4,0x3e4}, {"Lu",0x3e6,0x3e6}, {"Lu",0x3e8,0x3e8}, {"Lu",0x3ea,0x3ea}, {"Lu",0x3ec,0x3ec}, {"Lu",0x3ee,0x3ee}, {"Lu",0x3f4,0x3f4}, {"Lu",0x3f7,0x3f7}, {"Lu",0x3f9,0x3fa}, {"Lu",0x3fd,0x42f}, {"Lu",0x460,0x460}, {"Lu",0x462,0x462}, {"Lu",0x464,0x464}, {"Lu",0x466,0x466}, {"Lu",0x468,0x468}, {"Lu",0x46a,0x46a}, {"Lu",0x46c,0x46c}, {"Lu",0x46e,0x46e}, {"Lu",0x470,0x470}, {"Lu",0x472,0x472}, {"Lu",0x474,0x474}, {"Lu",0x476,0x476}, {"Lu",0x478,0x478}, {"Lu",0x47a,0x47a}, {"Lu",0x47c,0x47c}, {"Lu",0x47e,0x47e}, {"Lu",0x480,0x480}, {"Lu",0x48a,0x48a}, {"Lu",0x48c,0x48c}, {"Lu",0x48e,0x48e}, {"Lu",0x490,0x490}, {"Lu",0x492,0x492}, {"Lu",0x494,0x494}, {"Lu",0x496,0x496}, {"Lu",0x498,0x498}, {"Lu",0x49a,0x49a}, {"Lu",0x49c,0x49c}, {"Lu",0x49e,0x49e}, {"Lu",0x4a0,0x4a0}, {"Lu",0x4a2,0x4a2}, {"Lu",0x4a4,0x4a4}, {"Lu",0x4a6,0x4a6}, {"Lu",0x4a8,0x4a8}, {"Lu",0x4aa,0x4aa}, {"Lu",0x4ac,0x4ac}, {"Lu",0x4ae,0x4ae}, {"Lu",0x4b0,0x4b0}, {"Lu",0x4b2,0x4b2}, {"Lu",0x4b4,0x4b4}, {"Lu",0x4b6,0x4b6}, {"Lu",0x4b8,0x4b8}, {"Lu",0x4ba,0x4ba}, {"Lu",0x4bc,0x4bc}, {"Lu",0x4be,0x4be}, {"Lu",0x4c0,0x4c1}, {"Lu",0x4c3,0x4c3}, {"Lu",0x4c5,0x4c5}, {"Lu",0x4c7,0x4c7}, {"Lu",0x4c9,0x4c9}, {"Lu",0x4cb,0x4cb}, {"Lu",0x4cd,0x4cd}, {"Lu",0x4d0,0x4d0}, {"Lu",0x4d2,0x4d2}, {"Lu",0x4d4,0x4d4}, {"Lu",0x4d6,0x4d6}, {"Lu",0x4d8,0x4d8}, {"Lu",0x4da,0x4da}, {"Lu",0x4dc,0x4dc}, {"Lu",0x4de,0x4de}, {"Lu",0x4e0,0x4e0}, {"Lu",0x4e2,0x4e2}, {"Lu",0x4e4,0x4e4}, {"Lu",0x4e6,0x4e6}, {"Lu",0x4e8,0x4e8}, {"Lu",0x4ea,0x4ea}, {"Lu",0x4ec,0x4ec}, {"Lu",0x4ee,0x4ee}, {"Lu",0x4f0,0x4f0}, {"Lu",0x4f2,0x4f2}, {"Lu",0x4f4,0x4f4}, {"Lu",0x4f6,0x4f6}, {"Lu",0x4f8,0x4f8}, {"Lu",0x4fa,0x4fa}, {"Lu",0x4fc,0x4fc}, {"Lu",0x4fe,0x4fe}, {"Lu",0x500,0x500}, {"Lu",0x502,0x502}, {"Lu",0x504,0x504}, {"Lu",0x506,0x506}, {"Lu",0x508,0x508}, {"Lu",0x50a,0x50a}, {"Lu",0x50c,0x50c}, {"Lu",0x50e,0x50e}, {"Lu",0x510,0x510}, {"Lu",0x512,0x512}, {"Lu",0x514,0x514}, {"Lu",0x516,0x516}, {"Lu",0x518,0x518}, {"Lu",0x51a,0x51a}, {"Lu",0x51c,0x51c}, {"Lu",0x51e,0x51e}, {"Lu",0x520,0x520}, {"Lu",0x522,0x522}, {"Lu",0x524,0x524}, {"Lu",0x526,0x526}, {"Lu",0x528,0x528}, {"Lu",0x52a,0x52a}, {"Lu",0x52c,0x52c}, {"Lu",0x52e,0x52e}, {"Lu",0x531,0x556}, {"Lu",0x10a0,0x10c5}, {"Lu",0x10c7,0x10c7}, {"Lu",0x10cd,0x10cd}, {"Lu",0x13a0,0x13f5}, {"Lu",0x1c90,0x1cba}, {"Lu",0x1cbd,0x1cbf}, {"Lu",0x1e00,0x1e00}, {"Lu",0x1e02,0x1e02}, {"Lu",0x1e04,0x1e04}, {"Lu",0x1e06,0x1e06}, {"Lu",0x1e08,0x1e08}, {"Lu",0x1e0a,0x1e0a}, {"Lu",0x1e0c,0x1e0c}, {"Lu",0x1e0e,0x1e0e}, {"Lu",0x1e10,0x1e10}, {"Lu",0x1e12,0x1e12}, {"Lu",0x1e14,0x1e14}, {"Lu",0x1e16,0x1e16}, {"Lu",0x1e18,0x1e18}, {"Lu",0x1e1a,0x1e1a}, {"Lu",0x1e1c,0x1e1c}, {"Lu",0x1e1e,0x1e1e}, {"Lu",0x1e20,0x1e20}, {"Lu",0x1e22,0x1e22}, {"Lu",0x1e24,0x1e24}, {"Lu",0x1e26,0x1e26}, {"Lu",0x1e28,0x1e28}, {"Lu",0x1e2a,0x1e2a}, {"Lu",0x1e2c,0x1e2c}, {"Lu",0x1e2e,0x1e2e}, {"Lu",0x1e30,0x1e30}, {"Lu",0x1e32,0x1e32}, {"Lu",0x1e34,0x1e34}, {"Lu",0x1e36,0x1e36}, {"Lu",0x1e38,0x1e38}, {"Lu",0x1e3a,0x1e3a}, {"Lu",0x1e3c,0x1e3c}, {"Lu",0x1e3e,0x1e3e}, {"Lu",0x1e40,0x1e40}, {"Lu",0x1e42,0x1e42}, {"Lu",0x1e44,0x1e44}, {"Lu",0x1e46,0x1e46}, {"Lu",0x1e48,0x1e48}, {"Lu",0x1e4a,0x1e4a}, {"Lu",0x1e4c,0x1e4c}, {"Lu",0x1e4e,0x1e4e}, {"Lu",0x1e50,0x1e50}, {"Lu",0x1e52,0x1e52}, {"Lu",0x1e54,0x1e54}, {"Lu",0x1e56,0x1e56}, {"Lu",0x1e58,0x1e58}, {"Lu",0x1e5a,0x1e5a}, {"Lu",0x1e5c,0x1e5c}, {"Lu",0x1e5e,0x1e5e}, {"Lu",0x1e60,0x1e60}, {"Lu",0x1e62,0x1e62}, {"Lu",0x1e64,0x1e64}, {"Lu",0x1e66,0x1e66}, {"Lu",0x1e68,0x1e68}, {"Lu",0x1e6a,0x1e6a}, {"Lu",0x1e6c,0x1e6c}, {"Lu",0x1e6e,0x1e6e}, {"Lu",0x1e70,0x1e70}, {"Lu",0x1e72,0x1e72}, {"Lu",0x1e74,0x1e74}, {"Lu",0x1e76,0x1e76}, {"Lu",0x1e78,0x1e78}, {"Lu",0x1e7a,0x1e7a}, {"Lu",0x1e7c,0x1e7c}, {"Lu",0x1e7e,0x1e7e}, {"Lu",0x1e80,0x1e80}, {"Lu",0x1e82,0x1e82}, {"Lu",0x1e84,0x1e84}, {"Lu",0x1e86,0x1e86}, {"Lu",0x1e88,0x1e88}, {"Lu",0x1e8a,0x1e8a}, {"Lu",0x1e8c,0x1e8c}, {"Lu",0x1e8e,0x1e8e}, {"Lu",0x1e90,0x1e90}, {"Lu",0x1e92,0x1e92}, {"Lu",0x1e94,0x1e94}, {"Lu",0x1e9e,0x1e9e}, {"Lu",0x1ea0,0x1ea0}, {"Lu",0x1ea2,0x1ea2}, {"Lu",0x1ea4,0x1ea4}, {"Lu",0x1ea6,0x1ea6}, {"Lu",0x1ea8,0x1ea8}, {"Lu",0x1eaa,0x1eaa}, {"Lu",0x1eac,0x1eac}, {"Lu",0x1eae,0x1eae}, {"Lu",0x1eb0,0x1eb0}, {"Lu",0x1eb2,0x1eb2}, {"Lu",0x1eb4,0x1eb4}, {"Lu",0x1eb6,0x1eb6}, {"Lu",0x1eb8,0x1eb8}, {"Lu",0x1eba,0x1eba}, {"Lu",0x1ebc,0x1ebc}, {"Lu",0x1ebe,0x1ebe}, {"Lu",0x1ec0,0x1ec0}, {"Lu",0x1ec2,0x1ec2}, {"Lu",0x1ec4,0x1ec4}, {"Lu",0x1ec6,0x1ec6}, {"Lu",0x1ec8,0x1ec8}, {"Lu",0x1eca,0x1eca}, {"Lu",0x1ecc,0x1ecc}, {"Lu",0x1ece,0x1ece}, {"Lu",0x1ed0,0x1ed0}, {"Lu",0x1ed2,0x1ed2}, {"Lu",0x1ed4,0x1ed4}, {"Lu",0x1ed6,0x1ed6}, {"Lu",0x1ed8,0x1ed8}, {"Lu",0x1eda,0x1eda}, {"Lu",0x1edc,0x1edc}, {"Lu",0x1ede,0x1ede}, {"Lu",0x1ee0,0x1ee0}, {"Lu",0x1ee2,0x1ee2}, {"Lu",0x1ee4,0x1ee4}, {"Lu",0x1ee6,0x1ee6}, {"Lu",0x1ee8,0x1ee8}, {"Lu",0x1eea,0x1eea}, {"Lu",0x1eec,0x1eec}, {"Lu",0x1eee,0x1eee}, {"Lu",0x1ef0,0x1ef0}, {"Lu",0x1ef2,0x1ef2}, {"Lu",0x1ef4,0x1ef4}, {"Lu",0x1ef6,0x1ef6}, {"Lu",0x1ef8,0x1ef8}, {"Lu",0x1efa,0x1efa}, {"Lu",0x1efc,0x1efc}, {"Lu",0x1efe,0x1efe}, {"Lu",0x1f08,0x1f0f}, {"Lu",0x1f18,0x1f1d}, {"Lu",0x1f28,0x1f2f}, {"Lu",0x1f38,0x1f3f}, {"Lu",0x1f48,0x1f4d}, {"Lu",0x1f59,0x1f59}, {"Lu",0x1f5b,0x1f5b}, {"Lu",0x1f5d,0x1f5d}, {"Lu",0x1f5f,0x1f5f}, {"Lu",0x1f68,0x1f6f}, {"Lu",0x1fb8,0x1fbb}, {"Lu",0x1fc8,0x1fcb}, {"Lu",0x1fd8,0x1fdb}, {"Lu",0x1fe8,0x1fec}, {"Lu",0x1ff8,0x1ffb}, {"Lu",0x2102,0x2102}, {"Lu",0x2107,0x2107}, {"Lu",0x210b,0x210d}, {"Lu",0x2110,0x2112}, {"Lu",0x2115,0x2115}, {"Lu",0x2119,0x211d}, {"Lu",0x2124,0x2124}, {"Lu",0x2126,0x2126}, {"Lu",0x2128,0x2128}, {"Lu",0x212a,0x212d}, {"Lu",0x2130,0x2133}, {"Lu",0x213e,0x213f}, {"Lu",0x2145,0x2145}, {"Lu",0x2183,0x2183}, {"Lu",0x2c00,0x2c2f}, {"Lu",0x2c60,0x2c60}, {"Lu",0x2c62,0x2c64}, {"Lu",0x2c67,0x2c67}, {"Lu",0x2c69,0x2c69}, {"Lu",0x2c6b,0x2c6b}, {"Lu",0x2c6d,0x2c70}, {"Lu",0x2c72,0x2c72}, {"Lu",0x2c75,0x2c75}, {"Lu",0x2c7e,0x2c80}, {"Lu",0x2c82,0x2c82}, {"Lu",0x2c84,0x2c84}, {"Lu",0x2c86,0x2c86}, {"Lu",0x2c88,0x2c88}, {"Lu",0x2c8a,0x2c8a}, {"Lu",0x2c8c,0x2c8c}, {"Lu",0x2c8e,0x2c8e}, {"Lu",0x2c90,0x2c90}, {"Lu",0x2c92,0x2c92}, {"Lu",0x2c94,0x2c94}, {"Lu",0x2c96,0x2c96}, {"Lu",0x2c98,0x2c98}, {"Lu",0x2c9a,0x2c9a}, {"Lu",0x2c9c,0x2c9c}, {"Lu",0x2c9e,0x2c9e}, {"Lu",0x2ca0,0x2ca0}, {"Lu",0x2ca2,0x2ca2}, {"Lu",0x2ca4,0x2ca4}, {"Lu",0x2ca6,0x2ca6}, {"Lu",0x2ca8,0x2ca8}, {"Lu",0x2caa,0x2caa}, {"Lu",0x2cac,0x2cac}, {"Lu",0x2cae,0x2cae}, {"Lu",0x2cb0,0x2cb0}, {"Lu",0x2cb2,0x2cb2}, {"Lu",0x2cb4,0x2cb4}, {"Lu",0x2cb6,0x2cb6}, {"Lu",0x2cb8,0x2cb8}, {"Lu",0x2cba,0x2cba}, {"Lu",0x2cbc,0x2cbc}, {"Lu",0x2cbe,0x2cbe}, {"Lu",0x2cc0,0x2cc0}, {"Lu",0x2cc2,0x2cc2}, {"Lu",0x2cc4,0x2cc4}, {"Lu",0x2cc6,0x2cc6}, {"Lu",0x2cc8,0x2cc8}, {"Lu",0x2cca,0x2cca}, {"Lu",0x2ccc,0x2ccc}, {"Lu",0x2cce,0x2cce}, {"Lu",0x2cd0,0x2cd0}, {"Lu",0x2cd2,0x2cd2}, {"Lu",0x2cd4,0x2cd4}, {"Lu",0x2cd6,0x2cd6}, {"Lu",0x2cd8,0x2cd8}, {"Lu",0x2cda,0x2cda}, {"Lu",0x2cdc,0x2cdc}, {"Lu",0x2cde,0x2cde}, {"Lu",0x2ce0,0x2ce0}, {"Lu",0x2ce2,0x2ce2}, {"Lu",0x2ceb,0x2ceb}, {"Lu",0x2ced,0x2ced}, {"Lu",0x2cf2,0x2cf2}, {"Lu",0xa640,0xa640}, {"Lu",0xa642,0xa642}, {"Lu",0xa644,0xa644}, {"Lu",0xa646,0xa646}, {"Lu",0xa648,0xa648}, {"Lu",0xa64a,0xa64a}, {"Lu",0xa64c,0xa64c}, {"Lu",0xa64e,0xa64e}, {"Lu",0xa650,0xa650}, {"Lu",0xa652,0xa652}, {"Lu",0xa654,0xa654}, {"Lu",0xa656,0xa656}, {"Lu",0xa658,0xa658}, {"Lu",0xa65a,0xa65a}, {"Lu",0xa65c,0xa65c}, {"Lu",0xa65e,0xa65e}, {"Lu",0xa660,0xa660}, {"Lu",0xa662,0xa662}, {"Lu",0xa664,0xa664}, {"Lu",0xa666,0xa666}, {"Lu",0xa668,0xa668}, {"Lu",0xa66a,0xa66a}, {"Lu",0xa66c,0xa66c}, {"Lu",0xa680,0xa680}, {"Lu",0xa682,0xa682}, {"Lu",0xa684,0xa684}, {"Lu",0xa686,0xa686}, {"Lu",0xa688,0xa688}, {"Lu",0xa68a,0xa68a}, {"Lu",0xa68c,0xa68c}, {"Lu",0xa68e,0xa68e}, {"Lu",0xa690,0xa690}, {"Lu",0xa692,0xa692}, {"Lu",0xa694,0xa694}, {"Lu",0xa696,0xa696}, {"Lu",0xa698,0xa698}, {"Lu",0xa69a,0xa69a}, {"Lu",0xa722,0xa722}, {"Lu",0xa724,0xa724}, {"Lu",0xa726,0xa726}, {"Lu",0xa728,0xa728}, {"Lu",0xa72a,0xa72a}, {"Lu",0xa72c,0xa72c}, {"Lu",0xa72e,0xa72e}, {"Lu",0xa732,0xa732}, {"Lu",0xa734,0xa734}, {"Lu",0xa736,0xa736}, {"Lu",0xa738,0xa738}, {"Lu",0xa73a,0xa73a}, {"Lu",0xa73c,0xa73c}, {"Lu",0xa73e,0xa73e}, {"Lu",0xa740,0xa740}, {"Lu",0xa742,0xa742}, {"Lu",0xa744,0xa744}, {"Lu",0xa746,0xa746}, {"Lu",0xa748,0xa748}, {"Lu",0xa74a,0xa74a}, {"Lu",0xa74c,0xa74c}, {"Lu",0xa74e,0xa74e}, {"Lu",0xa750,0xa750}, {"Lu",0xa752,0xa752}, {"Lu",0xa754,0xa754}, {"Lu",0xa756,0xa756}, {"Lu",0xa758,0xa758}, {"Lu",0xa75a,0xa75a}, {"Lu",0xa75c,0xa75c}, {"Lu",0xa75e,0xa75e}, {"Lu",0xa760,0xa760}, {"Lu",0xa762,0xa762}, {"Lu",0xa764,0xa764}, {"Lu",0xa766,0xa766}, {"Lu",0xa768,0xa768}, {"Lu",0xa76a,0xa76a}, {"Lu",0xa76c,0xa76c}, {"Lu",0xa76e,0xa76e}, {"Lu",0xa779,0xa779}, {"Lu",0xa77b,0xa77b}, {"Lu",0xa77d,0xa77e}, {"Lu",0xa780,0xa780}, {"Lu",0xa782,0xa782}, {"Lu",0xa784,0xa784}, {"Lu",0xa786,0xa786}, {"Lu",0xa78b,0xa78b}, {"Lu",0xa78d,0xa78d}, {"Lu",0xa790,0xa790}, {"Lu",0xa792,0xa792}, {"Lu",0xa796,0xa796}, {"Lu",0xa798,0xa798}, {"Lu",0xa79a,0xa79a}, {"Lu",0xa79c,0xa79c}, {"Lu",0xa79e,0xa79e}, {"Lu",0xa7a0,0xa7a0}, {"Lu",0xa7a2,0xa7a2}, {"Lu",0xa7a4,0xa7a4}, {"Lu",0xa7a6,0xa7a6}, {"Lu",0xa7a8,0xa7a8}, {"Lu",0xa7aa,0xa7ae}, {"Lu",0xa7b0,0xa7b4}, {"Lu",0xa7b6,0xa7b6}, {"Lu",0xa7b8,0xa7b8}, {"Lu",0xa7ba,0xa7ba}, {"Lu",0xa7bc,0xa7bc}, {"Lu",0xa7be,0xa7be}, {"Lu",0xa7c0,0xa7c0}, {"Lu",0xa7c2,0xa7c2}, {"Lu",0xa7c4,0xa7c7}, {"Lu",0xa7c9,0xa7c9}, {"Lu",0xa7d0,0xa7d0}, {"Lu",0xa7d6,0xa7d6}, {"Lu",0xa7d8,0xa7d8}, {"Lu",0xa7f5,0xa7f5}, {"Lu",0xff21,0xff3a},
 {"Lt",0x1c5,0x1c5}, {"Lt",0x1c8,0x1c8}, {"Lt",0x1cb,0x1cb}, {"Lt",0x1f2,0x1f2}, {"Lt",0x1f88,0x1f8f}, {"Lt",0x1f98,0x1f9f}, {"Lt",0x1fa8,0x1faf}, {"Lt",0x1fbc,0x1fbc}, {"Lt",0x1fcc,0x1fcc}, {"Lt",0x1ffc,0x1ffc},
 {"Lm",0x2b0,0x2c1}, {"Lm",0x2c6,0x2d1}, {"Lm",0x2e0,0x2e4}, {"Lm",0x2ec,0x2ec}, {"Lm",0x2ee,0x2ee}, {"Lm",0x374,0x374}, {"Lm",0x37a,0x37a}, {"Lm",0x559,0x559}, {"Lm",0x640,0x640}, {"Lm",0x6e5,0x6e6}, {"Lm",0x7f4,0x7f5}, {"Lm",0x7fa,0x7fa}, {"Lm",0x81a,0x81a}, {"Lm",0x824,0x824}, {"Lm",0x828,0x828}, {"Lm",0x8c9,0x8c9}, {"Lm",0x971,0x971}, {"Lm",0xe46,0xe46}, {"Lm",0xec6,0xec6}, {"Lm",0x10fc,0x10fc}, {"Lm",0x17d7,0x17d7}, {"Lm",0x1843,0x1843}, {"Lm",0x1aa7,0x1aa7}, {"Lm",0x1c78,0x1c7d}, {"Lm",0x1d2c,0x1d6a}, {"Lm",0x1d78,0x1d78}, {"Lm",0x1d9b,0x1dbf}, {"Lm",0x2071,0x2071}, {"Lm",0x207f,0x207f}, {"Lm",0x2090,0x209c}, {"Lm",0x2c7c,0x2c7d}, {"Lm",0x2d6f,0x2d6f}, {"Lm",0x2e2f,0x2e2f}, {"Lm",0x3005,0x3005}, {"Lm",0x3031,0x3035}, {"Lm",0x303b,0x303b}, {"Lm",0x309d,0x309e}, {"Lm",0x30fc,0x30fe}, {"Lm",0xa015,0xa015}, {"Lm",0xa4f8,0xa4fd}, {"Lm",0xa60c,0xa60c}, {"Lm",0xa67f,0xa67f}, {"Lm",0xa69c,0xa69d}, {"Lm",0xa717,0xa71f}, {"Lm",0xa770,0xa770}, {"Lm",0xa788,0xa788}, {"Lm",0xa7f2,0xa7f4}, {"Lm",0xa7f8,0xa7f9}, {"Lm",0xa9cf,0xa9cf}, {"Lm",0xa9e6,0xa9e6}, {"Lm",0xaa70,0xaa70}, {"Lm",0xaadd,0xaadd}, {"Lm",0xaaf3,0xaaf4}, {"Lm",0xab5c,0xab5f}, {"Lm",0xab69,0xab69}, {"Lm",0xff70,0xff70}, {"Lm",0xff9e,0xff9f},
 {"Lo",0xaa,0xaa}, {"Lo",0xba,0xba}, {"Lo",0x1bb,0x1bb}, {"Lo",0x1c0,0x1c3}, {"Lo",0x294,0x294}, {"Lo",0x5d0,0x5ea}, {"Lo",0x5ef,0x5f2}, {"Lo",0x620,0x63f}, {"Lo",0x641,0x64a}, {"Lo",0x66e,0x66f}, {"Lo",0x671,0x6d3}, {"Lo",0x6d5,0x6d5}, {"Lo",0x6ee,0x6ef}, {"Lo",0x6fa,0x6fc}, {"Lo",0x6ff,0x6ff}, {"Lo",0x710,0x710}, {"Lo",0x712,0x72f}, {"Lo",0x74d,0x7a5}, {"Lo",0x7b1,0x7b1}, {"Lo",0x7ca,0x7ea}, {"Lo",0x800,0x815}, {"Lo",0x840,0x858}, {"Lo",0x860,0x86a}, {"Lo",0x870,0x887}, {"Lo",0x889,0x88e}, {"Lo",0x8a0,0x8c8}, {"Lo",0x904,0x939}, {"Lo",0x93d,0x93d}, {"Lo",0x950,0x950}, {"Lo",0x958,0x961}, {"Lo",0x972,0x980}, {"Lo",0x985,0x98c}, {"Lo",0x98f,0x990}, {"Lo",0x993,0x9a8}, {"Lo",0x9aa,0x9b0}, {"Lo",0x9b2,0x9b2}, {"Lo",0x9b6,0x9b9}, {"Lo",0x9bd,0x9bd}, {"Lo",0x9ce,0x9ce}, {"Lo",0x9dc,0x9dd}, {"Lo",0x9df,0x9e1}, {"Lo",0x9f0,0x9f1}, {"Lo",0x9fc,0x9fc}, {"Lo",0xa05,0xa0a}, {"Lo",0xa0f,0xa10}, {"Lo",0xa13,0xa28}, {"Lo",0xa2a,0xa30}, {"Lo",0xa32,0xa33}, {"Lo",0xa35,0xa36}, {"Lo",0xa38,0xa39}, {"Lo",0xa59,0xa5c}, {"Lo",0xa5e,0xa5e}, {"Lo",0xa72,0xa74}, {"Lo",0xa85,0xa8d}, {"Lo",0xa8f,0xa91}, {"Lo",0xa93,0xaa8}, {"Lo",0xaaa,0xab0}, {"Lo",0xab2,0xab3}, {"Lo",0xab5,0xab9}, {"Lo",0xabd,0xabd}, {"Lo",0xad0,0xad0}, {"Lo",0xae0,0xae1}, {"Lo",0xaf9,0xaf9}, {"Lo",0xb05,0xb0c}, {"Lo",0xb0f,0xb10}, {"Lo",0xb13,0xb28}, {"Lo",0xb2a,0xb30}, {"Lo",0xb32,0xb33}, {"Lo",0xb35,0xb39}, {"Lo",0xb3d,0xb3d}, {"Lo",0xb5c,0xb5d}, {"Lo",0xb5f,0xb61}, {"Lo",0xb71,0xb71}, {"Lo",0xb83,0xb83}, {"Lo",0xb85,0xb8a}, {"Lo",0xb8e,0xb90}, {"Lo",0xb92,0xb95}, {"Lo",0xb99,0xb9a}, {"Lo",0xb9c,0xb9c}, {"Lo",0xb9e,0xb9f}, {"Lo",0xba3,0xba4}, {"Lo",0xba8,0xbaa}, {"Lo",0xbae,0xbb9}, {"Lo",0xbd0,0xbd0}, {"Lo",0xc05,0xc0c}, {"Lo",0xc0e,0xc10}, {"Lo",0xc12,0xc28}, {"Lo",0xc2a,0xc39}, {"Lo",0xc3d,0xc3d}, {"Lo",0xc58,0xc5a}, {"Lo",0xc5d,0xc5d}, {"Lo",0xc60,0xc61}, {"Lo",0xc80,0xc80}, {"Lo",0xc85,0xc8c}, {"Lo",0xc8e,0xc90}, {"Lo",0xc92,0xca8}, {"Lo",0xcaa,0xcb3}, {"Lo",0xcb5,0xcb9}, {"Lo",0xcbd,0xcbd}, {"Lo",0xcdd,0xcde}, {"Lo",0xce0,0xce1}, {"Lo",0xcf1,0xcf2}, {"Lo",0xd04,0xd0c}, {"Lo",0xd0e,0xd10}, {"Lo",0xd12,0xd3a}, {"Lo",0xd3d,0xd3d}, {"Lo",0xd4e,0xd4e}, {"Lo",0xd54,0xd56}, {"Lo",0xd5f,0xd61}, {"Lo",0xd7a,0xd7f}, {"Lo",0xd85,0xd96}, {"Lo",0xd9a,0xdb1}, {"Lo",0xdb3,0xdbb}, {"Lo",0xdbd,0xdbd}, {"Lo",0xdc0,0xdc6}, {"Lo",0xe01,0xe30}, {"Lo",0xe32,0xe33}, {"Lo",0xe40,0xe45}, {"Lo",0xe81,0xe82}, {"Lo",0xe84,0xe84}, {"Lo",0xe86,0xe8a}, {"Lo",0xe8c,0xea3}, {"Lo",0xea5,0xea5}, {"Lo",0xea7,0xeb0}, {"Lo",0xeb2,0xeb3}, {"Lo",0xebd,0xebd}, {"Lo",0xec0,0xec4}, {"Lo",0xedc,0xedf}, {"Lo",0xf00,0xf00}, {"Lo",0xf40,0xf47}, {"Lo",0xf49,0xf6c}, {"Lo",0xf88,0xf8c}, {"Lo",0x1000,0x102a}, {"Lo",0x103f,0x103f}, {"Lo",0x1050,0x1055}, {"Lo",0x105a,0x105d}, {"Lo",0x1061,0x1061}, {"Lo",0x1065,0x1066}, {"Lo",0x106e,0x1070}, {"Lo",0x1075,0x1081}, {"Lo",0x108e,0x108e}, {"Lo",0x1100,0x1248}, {"Lo",0x124a,0x124d}, {"Lo",0x1250,0x1256}, {"Lo",0x1258,0x1258}, {"Lo",0x125a,0x125d}, {"Lo",0x1260,0x1288}, {"Lo",0x128a,0x128d}, {"Lo",0x1290,0x12b0}, {"Lo",0x12b2,0x12b5}, {"Lo",0x12b8,0x12be}, {"Lo",0x12c0,0x12c0}, {"Lo",0x12c2,0x12c5}, {"Lo",0x12c8,0x12d6}, {"Lo",0x12d8,0x1310}, {"Lo",0x1312,0x1315}, {"Lo",0x1318,0x135a}, {"Lo",0x1380,0x138f}, {"Lo",0x1401,0x166c}, {"Lo",0x166f,0x167f}, {"Lo",0x1681,0x169a}, {"Lo",0x16a0,0x16ea}, {"Lo",0x16f1,0x16f8}, {"Lo",0x1700,0x1711}, {"Lo",0x171f,0x1731}, {"Lo",0x1740,0x1751}, {"Lo",0x1760,0x176c}, {"Lo",0x176e,0x1770}, {"Lo",0x1780,0x17b3}, {"Lo",0x17dc,0x17dc}, {"Lo",0x1820,0x1842}, {"Lo",0x1844,0x1878}, {"Lo",0x1880,0x1884}, {"Lo",0x1887,0x18a8}, {"Lo",0x18aa,0x18aa}, {"Lo",0x18b0,0x18f5}, {"Lo",0x1900,0x191e}, {"Lo",0x1950,0x196d}, {"Lo",0x1970,0x1974}, {"Lo",0x1980,0x19ab}, {"Lo",0x19b0,0x19c9}, {"Lo",0x1a00,0x1a16}, {"Lo",0x1a20,0x1a54}, {"Lo",0x1b05,0x1b33}, {"Lo",0x1b45,0x1b4c}, {"Lo",0x1b83,0x1ba0}, {"Lo",0x1bae,0x1baf}, {"Lo",0x1bba,0x1be5}, {"Lo",0x1c00,0x1c23}, {"Lo",0x1c4d,0x1c4f}, {"Lo",0x1c5a,0x1c77}, {"Lo",0x1ce9,0x1cec}, {"Lo",0x1cee,0x1cf3}, {"Lo",0x1cf5,0x1cf6}, {"Lo",0x1cfa,0x1cfa}, {"Lo",0x2135,0x2138}, {"Lo",0x2d30,0x2d67}, {"Lo",0x2d80,0x2d96}, {"Lo",0x2da0,0x2da6}, {"Lo",0x2da8,0x2dae}, {"Lo",0x2db0,0x2db6}, {"Lo",0x2db8,0x2dbe}, {"Lo",0x2dc0,0x2dc6}, {"Lo",0x2dc8,0x2dce}, {"Lo",0x2dd0,0x2dd6}, {"Lo",0x2dd8,0x2dde}, {"Lo",0x3006,0x3006}, {"Lo",0x303c,0x303c}, {"Lo",0x3041,0x3096}, {"Lo",0x309f,0x309f}, {"Lo",0x30a1,0x30fa}, {"Lo",0x30ff,0x30ff}, {"Lo",0x3105,0x312f}, {"Lo",0x3131,0x318e}, {"Lo",0x31a0,0x31bf}, {"Lo",0x31f0,0x31ff}, {"Lo",0xa000,0xa014}, {"Lo",0xa016,0xa48c}, {"Lo",0xa4d0,0xa4f7}, {"Lo",0xa500,0xa60b}, {"Lo",0xa610,0xa61f}, {"Lo",0xa62a,0xa62b}, {"Lo",0xa66e,0xa66e}, {"Lo",0xa6a0,0xa6e5}, {"Lo",0xa78f,0xa78f}, {"Lo",0xa7f7,0xa7f7}, {"Lo",0xa7fb,0xa801}, {"Lo",0xa803,0xa805}, {"Lo",0xa807,0xa80a}, {"Lo",0xa80c,0xa822}, {"Lo",0xa840,0xa873}, {"Lo",0xa882,0xa8b3}, {"Lo",0xa8f2,0xa8f7}, {"Lo",0xa8fb,0xa8fb}, {"Lo",0xa8fd,0xa8fe}, {"Lo",0xa90a,0xa925}, {"Lo",0xa930,0xa946}, {"Lo",0xa960,0xa97c}, {"Lo",0xa984,0xa9b2}, {"Lo",0xa9e0,0xa9e4}, {"Lo",0xa9e7,0xa9ef}, {"Lo",0xa9fa,0xa9fe}, {"Lo",0xaa00,0xaa28}, {"Lo",0xaa40,0xaa42}, {"Lo",0xaa44,0xaa4b}, {"Lo",0xaa60,0xaa6f}, {"Lo",0xaa71,0xaa76}, {"Lo",0xaa7a,0xaa7a}, {"Lo",0xaa7e,0xaaaf}, {"Lo",0xaab1,0xaab1}, {"Lo",0xaab5,0xaab6}, {"Lo",0xaab9,0xaabd}, {"Lo",0xaac0,0xaac0}, {"Lo",0xaac2,0xaac2}, {"Lo",0xaadb,0xaadc}, {"Lo",0xaae0,0xaaea}, {"Lo",0xaaf2,0xaaf2}, {"Lo",0xab01,0xab06}, {"Lo",0xab09,0xab0e}, {"Lo",0xab11,0xab16}, {"Lo",0xab20,0xab26}, {"Lo",0xab28,0xab2e}, {"Lo",0xabc0,0xabe2}, {"Lo",0xd7b0,0xd7c6}, {"Lo",0xd7cb,0xd7fb}, {"Lo",0xf900,0xfa6d}, {"Lo",0xfa70,0xfad9}, {"Lo",0xfb1d,0xfb1d}, {"Lo",0xfb1f,0xfb28}, {"Lo",0xfb2a,0xfb36}, {"Lo",0xfb38,0xfb3c}, {"Lo",0xfb3e,0xfb3e}, {"Lo",0xfb40,0xfb41}, {"Lo",0xfb43,0xfb44}, {"Lo",0xfb46,0xfbb1}, {"Lo",0xfbd3,0xfd3d}, {"Lo",0xfd50,0xfd8f}, {"Lo",0xfd92,0xfdc7}, {"Lo",0xfdf0,0xfdfb}, {"Lo",0xfe70,0xfe74}, {"Lo",0xfe76,0xfefc}, {"Lo",0xff66,0xff6f}, {"Lo",0xff71,0xff9d}, {"Lo",0xffa0,0xffbe}, {"Lo",0xffc2,0xffc7}, {"Lo",0xffca,0xffcf}, {"Lo",0xffd2,0xffd7}, {"Lo",0xffda,0xffdc},
 {"Mn",0x300,0x36f}, {"Mn",0x483,0x487}, {"Mn",0x591,0x5bd}, {"Mn",0x5bf,0x5bf}, {"Mn",0x5c1,0x5c2}, {"Mn",0x5c4,0x5c5}, {"Mn",0x5c7,0x5c7}, {"Mn",0x610,0x61a}, {"Mn",0x64b,0x65f}, {"Mn",0x670,0x670}, {"Mn",0x6d6,0x6dc}, {"Mn",0x6df,0x6e4}, {"Mn",0x6e7,0x6e8}, {"Mn",0x6ea,0x6ed}, {"Mn",0x711,0x711}, {"Mn",0x730,0x74a}, {"Mn",0x7a6,0x7b0}, {"Mn",0x7eb,0x7f3}, {"Mn",0x7fd,0x7fd}, {"Mn",0x816,0x819}, {"Mn",0x81b,0x823}, {"Mn",0x825,0x827}, {"Mn",0x829,0x82d}, {"Mn",0x859,0x85b}, {"Mn",0x898,0x89f}, {"Mn",0x8ca,0x8e1}, {"Mn",0x8e3,0x902}, {"Mn",0x93a,0x93a}, {"Mn",0x93c,0x93c}, {"Mn",0x941,0x948}, {"Mn",0x94d,0x94d}, {"Mn",0x951,0x957}, {"Mn",0x962,0x963}, {"Mn",0x981,0x981}, {"Mn",0x9bc,0x9bc}, {"Mn",0x9c1,0x9c4}, {"Mn",0x9cd,0x9cd}, {"Mn",0x9e2,0x9e3}, {"Mn",0x9fe,0x9fe}, {"Mn",0xa01,0xa02}, {"Mn",0xa3c,0xa3c}, {"Mn",0xa41,0xa42}, {"Mn",0xa47,0xa48}, {"Mn",0xa4b,0xa4d}, {"Mn",0xa51,0xa51}, {"Mn",0xa70,0xa71}, {"Mn",0xa75,0xa75}, {"Mn",0xa81,0xa82}, {"Mn",0xabc,0xabc}, {"Mn",0xac1,0xac5}, {"Mn",0xac7,0xac8}, {"Mn",0xacd,0xacd}, {"Mn",0xae2,0xae3}, {"Mn",0xafa,0xaff}, {"Mn",0xb01,0xb01}, {"Mn",0xb3c,0xb3c}, {"Mn",0xb3f,0xb3f}, {"Mn",0xb41,0xb44}, {"Mn",0xb4d,0xb4d}, {"Mn",0xb55,0xb56}, {"Mn",0xb62,0xb63}, {"Mn",0xb82,0xb82}, {"Mn",0xbc0,0xbc0}, {"Mn",0xbcd,0xbcd}, {"Mn",0xc00,0xc00}, {"Mn",0xc04,0xc04}, {"Mn",0xc3c,0xc3c}, {"Mn",0xc3e,0xc40}, {"Mn",0xc46,0xc48}, {"Mn",0xc4a,0xc4d}, {"Mn",0xc55,0xc56}, {"Mn",0xc62,0xc63}, {"Mn",0xc81,0xc81}, {"Mn",0xcbc,0xcbc}, {"Mn",0xcbf,0xcbf}, {"Mn",0xcc6,0xcc6}, {"Mn",0xccc,0xccd}, {"Mn",0xce2,0xce3}, {"Mn",0xd00,0xd01}, {"Mn",0xd3b,0xd3c}, {"Mn",0xd41,0xd44}, {"Mn",0xd4d,0xd4d}, {"Mn",0xd62,0xd63}, {"Mn",0xd81,0xd81}, {"Mn",0xdca,0xdca}, {"Mn",0xdd2,0xdd4}, {"Mn",0xdd6,0xdd6}, {"Mn",0xe31,0xe31}, {"Mn",0xe34,0xe3a}, {"Mn",0xe47,0xe4e}, {"Mn",0xeb1,0xeb1}, {"Mn",0xeb4,0xebc}, {"Mn",0xec8,0xece}, {"Mn",0xf18,0xf19}, {"Mn",0xf35,0xf35}, {"Mn",0xf37,0xf37}, {"Mn",0xf39,0xf39}, {"Mn",0xf71,0xf7e}, {"Mn",0xf80,0xf84}, {"Mn",0xf86,0xf87}, {"Mn",0xf8d,0xf97}, {"Mn",0xf99,0xfbc}, {"Mn",0xfc6,0xfc6}, {"Mn",0x102d,0x1030}, {"Mn",0x1032,0x1037}, {"Mn",0x1039,0x103a}, {"Mn",0x103d,0x103e}, {"Mn",0x1058,0x1059}, {"Mn",0x105e,0x1060}, {"Mn",0x1071,0x1074}, {"Mn",0x1082,0x1082}, {"Mn",0x1085,0x1086}, {"Mn",0x108d,0x108d}, {"Mn",0x109d,0x109d}, {"Mn",0x135d,0x135f}, {"Mn",0x1712,0x1714}, {"Mn",0x1732,0x1733}, {"Mn",0x1752,0x1753}, {"Mn",0x1772,0x1773}, {"Mn",0x17b4,0x17b5}, {"Mn",0x17b7,0x17bd}, {"Mn",0x17c6,0x17c6}, {"Mn",0x17c9,0x17d3}, {"Mn",0x17dd,0x17dd}, {"Mn",0x180b,0x180d}, {"Mn",0x180f,0x180f}, {"Mn",0x1885,0x1886}, {"Mn",0x18a9,0x18a9}, {"Mn",0x1920,0x1922}, {"Mn",0x1927,0x1928}, {"Mn",0x1932,0x1932}, {"Mn",0x1939,0x193b}, {"Mn",0x1a17,0x1a18}, {"Mn",0x1a1b,0x1a1b}, {"Mn",0x1a56,0x1a56}, {"Mn",0x1a58,0x1a5e}, {"Mn",0x1a60,0x1a60}, {"Mn",0x1a62,0x1a62}, {"Mn",0x1a65,0x1a6c}, {"Mn",0x1a73,0x1a7c}, {"Mn",0x1a7f,0x1a7f}, {"Mn",0x1ab0,0x1abd}, {"Mn",0x1abf,0x1ace}, {"Mn",0x1b00,0x1b03}, {"Mn",0x1b34,0x1b34}, {"Mn",0x1b36,0x1b3a}, {"Mn",0x1b3c,0x1b3c}, {"Mn",0x1b42,0x1b42}, {"Mn",0x1b6b,0x1b73}, {"Mn",0x1b80,0x1b81}, {"Mn",0x1ba2,0x1ba5}, {"Mn",0x1ba8,0x1ba9}, {"Mn",0x1bab,0x1bad}, {"Mn",0x1be6,0x1be6}, {"Mn",0x1be8,0x1be9}, {"Mn",0x1bed,0x1bed}, {"Mn",0x1bef,0x1bf1}, {"Mn",0x1c2c,0x1c33}, {"Mn",0x1c36,0x1c37}, {"Mn",0x1cd0,0x1cd2}, {"Mn",0x1cd4,0x1ce0}, {"Mn",0x1ce2,0x1ce8}, {"Mn",0x1ced,0x1ced}, {"Mn",0x1cf4,0x1cf4}, {"Mn",0x1cf8,0x1cf9}, {"Mn",0x1dc0,0x1dff}, {"Mn",0x20d0,0x20dc}, {"Mn",0x20e1,0x20e1}, {"Mn",0x20e5,0x20f0}, {"Mn",0x2cef,0x2cf1}, {"Mn",0x2d7f,0x2d7f}, {"Mn",0x2de0,0x2dff}, {"Mn",0x302a,0x302d}, {"Mn",0x3099,0x309a}, {"Mn",0xa66f,0xa66f}, {"Mn",0xa674,0xa67d}, {"Mn",0xa69e,0xa69f}, {"Mn",0xa6f0,0xa6f1}, {"Mn",0xa802,0xa802}, {"Mn",0xa806,0xa806}, {"Mn",0xa80b,0xa80b}, {"Mn",0xa825,0xa826}, {"Mn",0xa82c,0xa82c}, {"Mn",0xa8c4,0xa8c5}, {"Mn",0xa8e0,0xa8f1}, {"Mn",0xa8ff,0xa8ff}, {"Mn",0xa926,0xa92d}, {"Mn",0xa947,0xa951}, {"Mn",0xa980,0xa982}, {"Mn",0xa9b3,0xa9b3}, {"Mn",0xa9b6,0xa9b9}, {"Mn",0xa9bc,0xa9bd}, {"Mn",0xa9e5,0xa9e5}, {"Mn",0xaa29,0xaa2e}, {"Mn",0xaa31,0xaa32}, {"Mn",0xaa35,0xaa36}, {"Mn",0xaa43,0xaa43}, {"Mn",0xaa4c,0xaa4c}, {"Mn",0xaa7c,0xaa7c}, {"Mn",0xaab0,0xaab0}, {"Mn",0xaab2,0xaab4}, {"Mn",0xaab7,0xaab8}, {"Mn",0xaabe,0xaabf}, {"Mn",0xaac1,0xaac1}, {"Mn",0xaaec,0xaaed}, {"Mn",0xaaf6,0xaaf6}, {"Mn",0xabe5,0xabe5}, {"Mn",0xabe8,0xabe8}, {"Mn",0xabed,0xabed}, {"Mn",0xfb1e,0xfb1e}, {"Mn",0xfe00,0xfe0f}, {"Mn",0xfe20,0xfe2f},
 {"Mc",0x903,0x903}, {"Mc",0x93b,0x93b}, {"Mc",0x93e,0x940}, {"Mc",0x949,0x94c}, {"Mc",0x94e,0x94f}, {"Mc",0x982,0x983}, {"Mc",0x9be,0x9c0}, {"Mc",0x9c7,0x9c8}, {"Mc",0x9cb,0x9cc}, {"Mc",0x9d7,0x9d7}, {"Mc",0xa03,0xa03}, {"Mc",0xa3e,0xa40}, {"Mc",0xa83,0xa83}, {"Mc",0xabe,0xac0}, {"Mc",0xac9,0xac9}, {"Mc",0xacb,0xacc}, {"Mc",0xb02,0xb03}, {"Mc",0xb3e,0xb3e}, {"Mc",0xb40,0xb40}, {"Mc",0xb47,0xb48}, {"Mc",0xb4b,0xb4c}, {"Mc",0xb57,0xb57}, {"Mc",0xbbe,0xbbf}, {"Mc",0xbc1,0xbc2}, {"Mc",0xbc6,0xbc8}, {"Mc",0xbca,0xbcc}, {"Mc",0xbd7,0xbd7}, {"Mc",0xc01,0xc03}, {"Mc",0xc41,0xc44}, {"Mc",0xc82,0xc83}, {"Mc",0xcbe,0xcbe}, {"Mc",0xcc0,0xcc4}, {"Mc",0xcc7,0xcc8}, {"Mc",0xcca,0xccb}, {"Mc",0xcd5,0xcd6}, {"Mc",0xcf3,0xcf3}, {"Mc",0xd02,0xd03}, {"Mc",0xd3e,0xd40}, {"Mc",0xd46,0xd48}, {"Mc",0xd4a,0xd4c}, {"Mc",0xd57,0xd57}, {"Mc",0xd82,0xd83}, {"Mc",0xdcf,0xdd1}, {"Mc",0xdd8,0xddf}, {"Mc",0xdf2,0xdf3}, {"Mc",0xf3e,0xf3f}, {"Mc",0xf7f,0xf7f}, {"Mc",0x102b,0x102c}, {"Mc",0x1031,0x1031}, {"Mc",0x1038,0x1038}, {"Mc",0x103b,0x103c}, {"Mc",0x1056,0x1057}, {"Mc",0x1062,0x1064}, {"Mc",0x1067,0x106d}, {"Mc",0x1083,0x1084}, {"Mc",0x1087,0x108c}, {"Mc",0x108f,0x108f}, {"Mc",0x109a,0x109c}, {"Mc",0x1715,0x1715}, {"Mc",0x1734,0x1734}, {"Mc",0x17b6,0x17b6}, {"Mc",0x17be,0x17c5}, {"Mc",0x17c7,0x17c8}, {"Mc",0x1923,0x1926}, {"Mc",0x1929,0x192b}, {"Mc",0x1930,0x1931}, {"Mc",0x1933,0x1938}, {"Mc",0x1a19,0x1a1a}, {"Mc",0x1a55,0x1a55}, {"Mc",0x1a57,0x1a57}, {"Mc",0x1a61,0x1a61}, {"Mc",0x1a63,0x1a64}, {"Mc",0x1a6d,0x1a72}, {"Mc",0x1b04,0x1b04}, {"Mc",0x1b35,0x1b35}, {"Mc",0x1b3b,0x1b3b}, {"Mc",0x1b3d,0x1b41}, {"Mc",0x1b43,0x1b44}, {"Mc",0x1b82,0x1b82}, {"Mc",0x1ba1,0x1ba1}, {"Mc",0x1ba6,0x1ba7}, {"Mc",0x1baa,0x1baa}, {"Mc",0x1be7,0x1be7}, {"Mc",0x1bea,0x1bec}, {"Mc",0x1bee,0x1bee}, {"Mc",0x1bf2,0x1bf3}, {"Mc",0x1c24,0x1c2b}, {"Mc",0x1c34,0x1c35}, {"Mc",0x1ce1,0x1ce1}, {"Mc",0x1cf7,0x1cf7}, {"Mc",0x302e,0x302f}, {"Mc",0xa823,0xa824}, {"Mc",0xa827,0xa827}, {"Mc",0xa880,0xa881}, {"Mc",0xa8b4,0xa8c3}, {"Mc",0xa952,0xa953}, {"Mc",0xa983,0xa983}, {"Mc",0xa9b4,0xa9b5}, {"Mc",0xa9ba,0xa9bb}, {"Mc",0xa9be,0xa9c0}, {"Mc",0xaa2f,0xaa30}, {"Mc",0xaa33,0xaa34}, {"Mc",0xaa4d,0xaa4d}, {"Mc",0xaa7b,0xaa7b}, {"Mc",0xaa7d,0xaa7d}, {"Mc",0xaaeb,0xaaeb}, {"Mc",0xaaee,0xaaef}, {"Mc",0xaaf5,0xaaf5}, {"Mc",0xabe3,0xabe4}, {"Mc",0xabe6,0xabe7}, {"Mc",0xabe9,0xabea}, {"Mc",0xabec,0xabec},
 {"Me",0x488,0x489}, {"Me",0x1abe,0x1abe}, {"Me",0x20dd,0x20e0}, {"Me",0x20e2,0x20e4}, {"Me",0xa670,0xa672},
 {"Nd",0x30,0x39}, {"Nd",0x660,0x669}, {"Nd",0x6f0,0x6f9}, {"Nd",0x7c0,0x7c9}, {"Nd",0x966,0x96f}, {"Nd",0x9e6,0x9ef}, {"Nd",0xa66,0xa6f}, {"Nd",0xae6,0xaef}, {"Nd",0xb66,0xb6f}, {"Nd",0xbe6,0xbef}, {"Nd",0xc66,0xc6f}, {"Nd",0xce6,0xcef}, {"Nd",0xd66,0xd6f}, {"Nd",0xde6,0xdef}, {"Nd",0xe50,0xe59}, {"Nd",0xed0,0xed9}, {"Nd",0xf20,0xf29}, {"Nd",0x1040,0x1049}, {"Nd",0x1090,0x1099}, {"Nd",0x17e0,0x17e9}, {"Nd",0x1810,0x1819}, {"Nd",0x1946,0x194f}, {"Nd",0x19d0,0x19d9}, {"Nd",0x1a80,0x1a89}, {"Nd",0x1a90,0x1a99}, {"Nd",0x1b50,0x1b59}, {"Nd",0x1bb0,0x1bb9}, {"Nd",0x1c40,0x1c49}, {"Nd",0x1c50,0x1c59}, {"Nd",0xa620,0xa629}, {"Nd",0xa8d0,0xa8d9}, {"Nd",0xa900,0xa909}, {"Nd",0xa9d0,0xa9d9}, {"Nd",0xa9f0,0xa9f9}, {"Nd",0xaa50,0xaa59}, {"Nd",0xabf0,0xabf9}, {"Nd",0xff10,0xff19},
 {"Nl",0x16ee,0x16f0}, {"Nl",0x2160,0x2182}, {"Nl",0x2185,0x2188}, {"Nl",0x3007,0x3007}, {"Nl",0x3021,0x3029}, {"Nl",0x3038,0x303a}, {"Nl",0xa6e6,0xa6ef},
 {"No",0xb2,0xb3}, {"No",0xb9,0xb9}, {"No",0xbc,0xbe}, {"No",0x9f4,0x9f9}, {"No",0xb72,0xb77}, {"No",0xbf0,0xbf2}, {"No",0xc78,0xc7e}, {"No",0xd58,0xd5e}, {"No",0xd70,0xd78}, {"No",0xf2a,0xf33}, {"No",0x1369,0x137c}, {"No",0x17f0,0x17f9}, {"No",0x19da,0x19da}, {"No",0x2070,0x2070}, {"No",0x2074,0x2079}, {"No",0x2080,0x2089}, {"No",0x2150,0x215f}, {"No",0x2189,0x2189}, {"No",0x2460,0x249b}, {"No",0x24ea,0x24ff}, {"No",0x2776,0x2793}, {"No",0x2cfd,0x2cfd}, {"No",0x3192,0x3195}, {"No",0x3220,0x3229}, {"No",0x3248,0x324f}, {"No",0x3251,0x325f}, {"No",0x3280,0x3289}, {"No",0x32b1,0x32bf}, {"No",0xa830,0xa835},
 {"Pc",0x5f,0x5f}, {"Pc",0x203f,0x2040}, {"Pc",0x2054,0x2054}, {"Pc",0xfe33,0xfe34}, {"Pc",0xfe4d,0xfe4f}, {"Pc",0xff3f,0xff3f},
 {"Pd",0x2d,0x2d}, {"Pd",0x58a,0x58a}, {"Pd",0x5be,0x5be}, {"Pd",0x1400,0x1400}, {"Pd",0x1806,0x1806}, {"Pd",0x2010,0x2015}, {"Pd",0x2e17,0x2e17}, {"Pd",0x2e1a,0x2e1a}, {"Pd",0x2e3a,0x2e3b}, {"Pd",0x2e40,0x2e40}, {"Pd",0x2e5d,0x2e5d}, {"Pd",0x301c,0x301c}, {"Pd",0x3030,0x3030}, {"Pd",0x30a0,0x30a0}, {"Pd",0xfe31,0xfe32}, {"Pd",0xfe58,0xfe58}, {"Pd",0xfe63,0xfe63}, {"Pd",0xff0d,0xff0d},
 {"Ps",0x28,0x28}, {"Ps",0x5b,0x5b}, {"Ps",0x7b,0x7b}, {"Ps",0xf3a,0xf3a}, {"Ps",0xf3c,0xf3c}, {"Ps",0x169b,0x169b}, {"Ps",0x201a,0x201a}, {"Ps",0x201e,0x201e}, {"Ps",0x2045,0x2045}, {"Ps",0x207d,0x207d}, {"Ps",0x208d,0x208d}, {"Ps",0x2308,0x2308}, {"Ps",0x230a,0x230a}, {"Ps",0x2329,0x2329}, {"Ps",0x2768,0x2768}, {"Ps",0x276a,0x276a}, {"Ps",0x276c,0x276c}, {"Ps",0x276e,0x276e}, {"Ps",0x2770,0x2770}, {"Ps",0x2772,0x2772}, {"Ps",0x2774,0x2774}, {"Ps",0x27c5,0x27c5}, {"Ps",0x27e6,0x27e6}, {"Ps",0x27e8,0x27e8}, {"Ps",0x27ea,0x27ea}, {"Ps",0x27ec,0x27ec}, {"Ps",0x27ee,0x27ee}, {"Ps",0x2983,0x2983}, {"Ps",0x2985,0x2985}, {"Ps",0x2987,0x2987}, {"Ps",0x2989,0x2989}, {"Ps",0x298b,0x298b}, {"Ps",0x298d,0x298d}, {"Ps",0x298f,0x298f}, {"Ps",0x2991,0x2991}, {"Ps",0x2993,0x2993}, {"Ps",0x2995,0x2995}, {"Ps",0x2997,0x2997}, {"Ps",0x29d8,0x29d8}, {"Ps",0x29da,0x29da}, {"Ps",0x29fc,0x29fc}, {"Ps",0x2e22,0x2e22}, {"Ps",0x2e24,0x2e24}, {"Ps",0x2e26,0x2e26}, {"Ps",0x2e28,0x2e28}, {"Ps",0x2e42,0x2e42}, {"Ps",0x2e55,0x2e55}, {"Ps",0x2e57,0x2e57}, {"Ps",0x2e59,0x2e59}, {"Ps",0x2e5b,0x2e5b}, {"Ps",0x3008,0x3008}, {"Ps",0x300a,0x300a}, {"Ps",0x300c,0x300c}, {"Ps",0x300e,0x300e}, {"Ps",0x3010,0x3010}, {"Ps",0x3014,0x3014}, {"Ps",0x3016,0x3016}, {"Ps",0x3018,0x3018}, {"Ps",0x301a,0x301a}, {"Ps",0x301d,0x301d}, {"Ps",0xfd3f,0xfd3f}, {"Ps",0xfe17,0xfe17}, {"Ps",0xfe35,0xfe35}, {"Ps",0xfe37,0xfe37}, {"Ps",0xfe39,0xfe39}, {"Ps",0xfe3b,0xfe3b}, {"Ps",0xfe3d,0xfe3d}, {"Ps",0xfe3f,0xfe3f}, {"Ps",0xfe41,0xfe41}, {"Ps",0xfe43,0xfe43}, {"Ps",0xfe47,0xfe47}, {"Ps",0xfe59,0xfe59}, {"Ps",0xfe5b,0xfe5b}, {"Ps",0xfe5d,0xfe5d}, {"Ps",0xff08,0xff08}, {"Ps",0xff3b,0xff3b}, {"Ps",0xff5b,0xff5b}, {"Ps",0xff5f,0xff5f}, {"Ps",0xff62,0xff62},
 {"Pe",0x29,0x29}, {"Pe",0x5d,0x5d}, {"Pe",0x7d,0x7d}, {"Pe",0xf3b,0xf3b}, {"Pe",0xf3d,0xf3d}, {"Pe",0x169c,0x169c}, {"Pe",0x2046,0x2046}, {"Pe",0x207e,0x207e}, {"Pe",0x208e,0x208e}, {"Pe",0x2309,0x2309}, {"Pe",0x230b,0x230b}, {"Pe",0x232a,0x232a}, {"Pe",0x2769,0x2769}, {"Pe",0x276b,0x276b}, {"Pe",0x276d,0x276d}, {"Pe",0x276f,0x276f}, {"Pe",0x2771,0x2771}, {"Pe",0x2773,0x2773}, {"Pe",0x2775,0x2775}, {"Pe",0x27c6,0x27c6}, {"Pe",0x27e7,0x27e7}, {"Pe",0x27e9,0x27e9}, {"Pe",0x27eb,0x27eb}, {"Pe",0x27ed,0x27ed}, {"Pe",0x27ef,0x27ef}, {"Pe",0x2984,0x2984}, {"Pe",0x2986,0x2986}, {"Pe",0x2988,0x2988}, {"Pe",0x298a,0x298a}, {"Pe",0x298c,0x298c}, {"Pe",0x298e,0x298e}, {"Pe",0x2990,0x2990}, {"Pe",0x2992,0x2992}, {"Pe",0x2994,0x2994}, {"Pe",0x2996,0x2996}, {"Pe",0x2998,0x2998}, {"Pe",0x29d9,0x29d9}, {"Pe",0x29db,0x29db}, {"Pe",0x29fd,0x29fd}, {"Pe",0x2e23,0x2e23}, {"Pe",0x2e25,0x2e25}, {"Pe",0x2e27,0x2e27}, {"Pe",0x2e29,0x2e29}, {"Pe",0x2e56,0x2e56}, {"Pe",0x2e58,0x2e58}, {"Pe",0x2e5a,0x2e5a}, {"Pe",0x2e5c,0x2e5c}, {"Pe",0x3009,0x3009}, {"Pe",0x300b,0x300b}, {"Pe",0x300d,0x300d}, {"Pe",0x300f,0x300f}, {"Pe",0x3011,0x3011}, {"Pe",0x3015,0x3015}, {"Pe",0x3017,0x3017}, {"Pe",0x3019,0x3019}, {"Pe",0x301b,0x301b}, {"Pe",0x301e,0x301f}, {"Pe",0xfd3e,0xfd3e}, {"Pe",0xfe18,0xfe18}, {"Pe",0xfe36,0xfe36}, {"Pe",0xfe38,0xfe38}, {"Pe",0xfe3a,0xfe3a}, {"Pe",0xfe3c,0xfe3c}, {"Pe",0xfe3e,0xfe3e}, {"Pe",0xfe40,0xfe40}, {"Pe",0xfe42,0xfe42}, {"Pe",0xfe44,0xfe44}, {"Pe",0xfe48,0xfe48}, {"Pe",0xfe5a,0xfe5a}, {"Pe",0xfe5c,0xfe5c}, {"Pe",0xfe5e,0xfe5e}, {"Pe",0xff09,0xff09}, {"Pe",0xff3d,0xff3d}, {"Pe",0xff5d,0xff5d}, {"Pe",0xff60,0xff60}, {"Pe",0xff63,0xff63},
 {"Pi",0xab,0xab}, {"Pi",0x2018,0x2018}, {"Pi",0x201b,0x201c}, {"Pi",0x201f,0x201f}, {"Pi",0x2039,0x2039}, {"Pi",0x2e02,0x2e02}, {"Pi",0x2e04,0x2e04}, {"Pi",0x2e09,0x2e09}, {"Pi",0x2e0c,0x2e0c}, {"Pi",0x2e1c,0x2e1c}, {"Pi",0x2e20,0x2e20},
 {"Pf",0xbb,0xbb}, {"Pf",0x2019,0x2019}, {"Pf",0x201d,0x201d}, {"Pf",0x203a,0x203a}, {"Pf",0x2e03,0x2e03}, {"Pf",0x2e05,0x2e05}, {"Pf",0x2e0a,0x2e0a}, {"Pf",0x2e0d,0x2e0d}, {"Pf",0x2e1d,0x2e1d}, {"Pf",0x2e21,0x2e21},
 {"Po",0x21,0x23}, {"Po",0x25,0x27}, {"Po",0x2a,0x2a}, {"Po",0x2c,0x2c}, {"Po",0x2e,0x2f}, {"Po",0x3a,0x3b}, {"Po",0x3f,0x40}, {"Po",0x5c,0x5c}, {"Po",0xa1,0xa1}, {"Po",0xa7,0xa7}, {"Po",0xb6,0xb7}, {"Po",0xbf,0xbf}, {"Po",0x37e,0x37e}, {"Po",0x387,0x387}, {"Po",0x55a,0x55f}, {"Po",0x589,0x589}, {"Po",0x5c0,0x5c0}, {"Po",0x5c3,0x5c3}, {"Po",0x5c6,0x5c6}, {"Po",0x5f3,0x5f4}, {"Po",0x609,0x60a}, {"Po",0x60c,0x60d}, {"Po",0x61b,0x61b}, {"Po",0x61d,0x61f}, {"Po",0x66a,0x66d}, {"Po",0x6d4,0x6d4}, {"Po",0x700,0x70d}, {"Po",0x7f7,0x7f9}, {"Po",0x830,0x83e}, {"Po",0x85e,0x85e}, {"Po",0x964,0x965}, {"Po",0x970,0x970}, {"Po",0x9fd,0x9fd}, {"Po",0xa76,0xa76}, {"Po",0xaf0,0xaf0}, {"Po",0xc77,0xc77}, {"Po",0xc84,0xc84}, {"Po",0xdf4,0xdf4}, {"Po",0xe4f,0xe4f}, {"Po",0xe5a,0xe5b}, {"Po",0xf04,0xf12}, {"Po",0xf14,0xf14}, {"Po",0xf85,0xf85}, {"Po",0xfd0,0xfd4}, {"Po",0xfd9,0xfda}, {"Po",0x104a,0x104f}, {"Po",0x10fb,0x10fb}, {"Po",0x1360,0x1368}, {"Po",0x166e,0x166e}, {"Po",0x16eb,0x16ed}, {"Po",0x1735,0x1736}, {"Po",0x17d4,0x17d6}, {"Po",0x17d8,0x17da}, {"Po",0x1800,0x1805}, {"Po",0x1807,0x180a}, {"Po",0x1944,0x1945}, {"Po",0x1a1e,0x1a1f}, {"Po",0x1aa0,0x1aa6}, {"Po",0x1aa8,0x1aad}, {"Po",0x1b5a,0x1b60}, {"Po",0x1b7d,0x1b7e}, {"Po",0x1bfc,0x1bff}, {"Po",0x1c3b,0x1c3f}, {"Po",0x1c7e,0x1c7f}, {"Po",0x1cc0,0x1cc7}, {"Po",0x1cd3,0x1cd3}, {"Po",0x2016,0x2017}, {"Po",0x2020,0x2027}, {"Po",0x2030,0x2038}, {"Po",0x203b,0x203e}, {"Po",0x2041,0x2043}, {"Po",0x2047,0x2051}, {"Po",0x2053,0x2053}, {"Po",0x2055,0x205e}, {"Po",0x2cf9,0x2cfc}, {"Po",0x2cfe,0x2cff}, {"Po",0x2d70,0x2d70}, {"Po",0x2e00,0x2e01}, {"Po",0x2e06,0x2e08}, {"Po",0x2e0b,0x2e0b}, {"Po",0x2e0e,0x2e16}, {"Po",0x2e18,0x2e19}, {"Po",0x2e1b,0x2e1b}, {"Po",0x2e1e,0x2e1f}, {"Po",0x2e2a,0x2e2e}, {"Po",0x2e30,0x2e39}, {"Po",0x2e3c,0x2e3f}, {"Po",0x2e41,0x2e41}, {"Po",0x2e43,0x2e4f}, {"Po",0x2e52,0x2e54}, {"Po",0x3001,0x3003}, {"Po",0x303d,0x303d}, {"Po",0x30fb,0x30fb}, {"Po",0xa4fe,0xa4ff}, {"Po",0xa60d,0xa60f}, {"Po",0xa673,0xa673}, {"Po",0xa67e,0xa67e}, {"Po",0xa6f2,0xa6f7}, {"Po",0xa874,0xa877}, {"Po",0xa8ce,0xa8cf}, {"Po",0xa8f8,0xa8fa}, {"Po",0xa8fc,0xa8fc}, {"Po",0xa92e,0xa92f}, {"Po",0xa95f,0xa95f}, {"Po",0xa9c1,0xa9cd}, {"Po",0xa9de,0xa9df}, {"Po",0xaa5c,0xaa5f}, {"Po",0xaade,0xaadf}, {"Po",0xaaf0,0xaaf1}, {"Po",0xabeb,0xabeb}, {"Po",0xfe10,0xfe16}, {"Po",0xfe19,0xfe19}, {"Po",0xfe30,0xfe30}, {"Po",0xfe45,0xfe46}, {"Po",0xfe49,0xfe4c}, {"Po",0xfe50,0xfe52}, {"Po",0xfe54,0xfe57}, {"Po",0xfe5f,0xfe61}, {"Po",0xfe68,0xfe68}, {"Po",0xfe6a,0xfe6b}, {"Po",0xff01,0xff03}, {"Po",0xff05,0xff07}, {"Po",0xff0a,0xff0a}, {"Po",0xff0c,0xff0c}, {"Po",0xff0e,0xff0f}, {"Po",0xff1a,0xff1b}, {"Po",0xff1f,0xff20}, {"Po",0xff3c,0xff3c}, {"Po",0xff61,0xff61}, {"Po",0xff64,0xff65},
 {"Sm",0x2b,0x2b}, {"Sm",0x3c,0x3e}, {"Sm",0x7c,0x7c}, {"Sm",0x7e,0x7e}, {"Sm",0xac,0xac}, {"Sm",0xb1,0xb1}, {"Sm",0xd7,0xd7}, {"Sm",0xf7,0xf7}, {"Sm",0x3f6,0x3f6}, {"Sm",0x606,0x608}, {"Sm",0x2044,0x2044}, {"Sm",0x2052,0x2052}, {"Sm",0x207a,0x207c}, {"Sm",0x208a,0x208c}, {"Sm",0x2118,0x2118}, {"Sm",0x2140,0x2144}, {"Sm",0x214b,0x214b}, {"Sm",0x2190,0x2194}, {"Sm",0x219a,0x219b}, {"Sm",0x21a0,0x21a0}, {"Sm",0x21a3,0x21a3}, {"Sm",0x21a6,0x21a6}, {"Sm",0x21ae,0x21ae}, {"Sm",0x21ce,0x21cf}, {"Sm",0x21d2,0x21d2}, {"Sm",0x21d4,0x21d4}, {"Sm",0x21f4,0x22ff}, {"Sm",0x2320,0x2321}, {"Sm",0x237c,0x237c}, {"Sm",0x239b,0x23b3}, {"Sm",0x23dc,0x23e1}, {"Sm",0x25b7,0x25b7}, {"Sm",0x25c1,0x25c1}, {"Sm",0x25f8,0x25ff}, {"Sm",0x266f,0x266f}, {"Sm",0x27c0,0x27c4}, {"Sm",0x27c7,0x27e5}, {"Sm",0x27f0,0x27ff}, {"Sm",0x2900,0x2982}, {"Sm",0x2999,0x29d7}, {"Sm",0x29dc,0x29fb}, {"Sm",0x29fe,0x2aff}, {"Sm",0x2b30,0x2b44}, {"Sm",0x2b47,0x2b4c}, {"Sm",0xfb29,0xfb29}, {"Sm",0xfe62,0xfe62}, {"Sm",0xfe64,0xfe66}, {"Sm",0xff0b,0xff0b}, {"Sm",0xff1c,0xff1e}, {"Sm",0xff5c,0xff5c}, {"Sm",0xff5e,0xff5e}, {"Sm",0xffe2,0xffe2}, {"Sm",0xffe9,0xffec},
 {"Sc",0x24,0x24}, {"Sc",0xa2,0xa5}, {"Sc",0x58f,0x58f}, {"Sc",0x60b,0x60b}, {"Sc",0x7fe,0x7ff}, {"Sc",0x9f2,0x9f3}, {"Sc",0x9fb,0x9fb}, {"Sc",0xaf1,0xaf1}, {"Sc",0xbf9,0xbf9}, {"Sc",0xe3f,0xe3f}, {"Sc",0x17db,0x17db}, {"Sc",0x20a0,0x20c0}, {"Sc",0xa838,0xa838}, {"Sc",0xfdfc,0xfdfc}, {"Sc",0xfe69,0xfe69}, {"Sc",0xff04,0xff04}, {"Sc",0xffe0,0xffe1}, {"Sc",0xffe5,0xffe6},
 {"Sk",0x5e,0x5e}, {"Sk",0x60,0x60}, {"Sk",0xa8,0xa8}, {"Sk",0xaf,0xaf}, {"Sk",0xb4,0xb4}, {"Sk",0xb8,0xb8}, {"Sk",0x2c2,0x2c5}, {"Sk",0x2d2,0x2df}, {"Sk",0x2e5,0x2eb}, {"Sk",0x2ed,0x2ed}, {"Sk",0x2ef,0x2ff}, {"Sk",0x375,0x375}, {"Sk",0x384,0x385}, {"Sk",0x888,0x888}, {"Sk",0x1fbd,0x1fbd}, {"Sk",0x1fbf,0x1fc1}, {"Sk",0x1fcd,0x1fcf}, {"Sk",0x1fdd,0x1fdf}, {"Sk",0x1fed,0x1fef}, {"Sk",0x1ffd,0x1ffe}, {"Sk",0x309b,0x309c}, {"Sk",0xa700,0xa716}, {"Sk",0xa720,0xa721}, {"Sk",0xa789,0xa78a}, {"Sk",0xab5b,0xab5b}, {"Sk",0xab6a,0xab6b}, {"Sk",0xfbb2,0xfbc2}, {"Sk",0xff3e,0xff3e}, {"Sk",0xff40,0xff40}, {"Sk",0xffe3,0xffe3},
 {"So",0xa6,0xa6}, {"So",0xa9,0xa9}, {"So",0xae,0xae}, {"So",0xb0,0xb0}, {"So",0x482,0x482}, {"So",0x58d,0x58e}, {"So",0x60e,0x60f}, {"So",0x6de,0x6de}, {"So",0x6e9,0x6e9}, {"So",0x6fd,0x6fe}, {"So",0x7f6,0x7f6}, {"So",0x9fa,0x9fa}, {"So",0xb70,0xb70}, {"So",0xbf3,0xbf8}, {"So",0xbfa,0xbfa}, {"So",0xc7f,0xc7f}, {"So",0xd4f,0xd4f}, {"So",0xd79,0xd79}, {"So",0xf01,0xf03}, {"So",0xf13,0xf13}, {"So",0xf15,0xf17}, {"So",0xf1a,0xf1f}, {"So",0xf34,0xf34}, {"So",0xf36,0xf36}, {"So",0xf38,0xf38}, {"So",0xfbe,0xfc5}, {"So",0xfc7,0xfcc}, {"So",0xfce,0xfcf}, {"So",0xfd5,0xfd8}, {"So",0x109e,0x109f}, {"So",0x1390,0x1399}, {"So",0x166d,0x166d}, {"So",0x1940,0x1940}, {"So",0x19de,0x19ff}, {"So",0x1b61,0x1b6a}, {"So",0x1b74,0x1b7c}, {"So",0x2100,0x2101}, {"So",0x2103,0x2106}, {"So",0x2108,0x2109}, {"So",0x2114,0x2114}, {"So",0x2116,0x2117}, {"So",0x211e,0x2123}, {"So",0x2125,0x2125}, {"So",0x2127,0x2127}, {"So",0x2129,0x2129}, {"So",0x212e,0x212e}, {"So",0x213a,0x213b}, {"So",0x214a,0x214a}, {"So",0x214c,0x214d}, {"So",0x214f,0x214f}, {"So",0x218a,0x218b}, {"So",0x2195,0x2199}, {"So",0x219c,0x219f}, {"So",0x21a1,0x21a2}, {"So",0x21a4,0x21a5}, {"So",0x21a7,0x21ad}, {"So",0x21af,0x21cd}, {"So",0x21d0,0x21d1}, {"So",0x21d3,0x21d3}, {"So",0x21d5,0x21f3}, {"So",0x2300,0x2307}, {"So",0x230c,0x231f}, {"So",0x2322,0x2328}, {"So",0x232b,0x237b}, {"So",0x237d,0x239a}, {"So",0x23b4,0x23db}, {"So",0x23e2,0x2426}, {"So",0x2440,0x244a}, {"So",0x249c,0x24e9}, {"So",0x2500,0x25b6}, {"So",0x25b8,0x25c0}, {"So",0x25c2,0x25f7}, {"So",0x2600,0x266e}, {"So",0x2670,0x2767}, {"So",0x2794,0x27bf}, {"So",0x2800,0x28ff}, {"So",0x2b00,0x2b2f}, {"So",0x2b45,0x2b46}, {"So",0x2b4d,0x2b73}, {"So",0x2b76,0x2b95}, {"So",0x2b97,0x2bff}, {"So",0x2ce5,0x2cea}, {"So",0x2e50,0x2e51}, {"So",0x2e80,0x2e99}, {"So",0x2e9b,0x2ef3}, {"So",0x2f00,0x2fd5}, {"So",0x2ff0,0x2ffb}, {"So",0x3004,0x3004}, {"So",0x3012,0x3013}, {"So",0x3020,0x3020}, {"So",0x3036,0x3037}, {"So",0x303e,0x303f}, {"So",0x3190,0x3191}, {"So",0x3196,0x319f}, {"So",0x31c0,0x31e3}, {"So",0x3200,0x321e}, {"So",0x322a,0x3247}, {"So",0x3250,0x3250}, {"So",0x3260,0x327f}, {"So",0x328a,0x32b0}, {"So",0x32c0,0x33ff}, {"So",0x4dc0,0x4dff}, {"So",0xa490,0xa4c6}, {"So",0xa828,0xa82b}, {"So",0xa836,0xa837}, {"So",0xa839,0xa839}, {"So",0xaa77,0xaa79}, {"So",0xfd40,0xfd4f}, {"So",0xfdcf,0xfdcf}, {"So",0xfdfd,0xfdff}, {"So",0xffe4,0xffe4}, {"So",0xffe8,0xffe8}, {"So",0xffed,0xffee}, {"So",0xfffc,0xfffd},
 {"Zs",0x20,0x20}, {"Zs",0xa0,0xa0}, {"Zs",0x1680,0x1680}, {"Zs",0x2000,0x200a}, {"Zs",0x202f,0x202f}, {"Zs",0x205f,0x205f}, {"Zs",0x3000,0x3000},
 {"Zl",0x2028,0x2028},
 {"Zp",0x2029,0x2029},
 {"Cc",0x0,0x1f}, {"Cc",0x7f,0x9f},
 {"Cf",0xad,0xad}, {"Cf",0x600,0x605}, {"Cf",0x61c,0x61c}, {"Cf",0x6dd,0x6dd}, {"Cf",0x70f,0x70f}, {"Cf",0x890,0x891}, {"Cf",0x8e2,0x8e2}, {"Cf",0x180e,0x180e}, {"Cf",0x200b,0x200f}, {"Cf",0x202a,0x202e}, {"Cf",0x2060,0x2064}, {"Cf",0x2066,0x206f}, {"Cf",0xfeff,0xfeff}, {"Cf",0xfff9,0xfffb},
};
