# Inputs, found by exhaustive search (tools/rare_chacha.c, tools/rare_tkip.py), at which one
# inner addition or xor of a cipher gives a word at the edge of its range: what a
# wrong carry or comparison needs, and what no ordinary sample of inputs meets.

def mix(x):
    x ^= x >> 16
    x = x * 0x85ebca6b & 0xffffffff
    x ^= x >> 13
    x = x * 0xc2b2ae35 & 0xffffffff
    return x ^ (x >> 16)


def tkip_words(n):
    """ 14 words of 16 bits: temporal key 8, high packet number 2, address 3, low packet number """
    return [mix((mix(n) + j * 0x9e3779b9) & 0xffffffff) & 0xffff for j in range(14)]


TKIP = [255, 585, 722, 1258, 1419, 1433, 1484, 1731, 1894, 1911, 1962, 2004, 2116, 2731, 2911, 3094, 3454, 3797, 4320, 4350, 4376, 4394, 4630, 4967, 5091,
        5650, 5670, 6409, 6518, 6739, 7075, 7147, 7221, 7566, 7760, 7761, 7926, 8039, 8477, 8494, 8572, 8582, 8610, 8858, 9358, 9408, 9573, 9689,
        9783, 10051, 10371, 10408, 10582, 11002, 11114, 11141, 11198, 11702, 12352, 12566, 12722, 13193, 13453, 13691, 13896, 13957, 14009, 14021,
        14282, 14340, 14378, 14609, 14642, 14698, 15086, 15162, 16018, 16030, 16220, 16654, 16971, 17023, 17047, 17690, 17878, 18545, 18582, 18851,
        18884, 18949, 19225, 19287, 19560, 19980, 20305, 20460, 20520, 20760, 20878, 21171, 21384, 21412, 21744, 21851, 21909, 21919, 21920, 22162,
        22613, 22681, 23415, 23775, 23929, 24042, 24277, 25230, 25421, 25487, 25651, 25935, 26032, 26148, 26158, 26851, 26914, 27033, 27642, 27711,
        28284, 29222, 29357, 30854, 30922, 30955, 31016, 31154, 31323, 31456, 31624, 32169, 32445, 32481, 32583, 32997, 33613, 33616, 33900, 34242,
        34509, 34625, 34948, 35104, 35739, 35885, 36252, 37122, 37616, 38033, 38095, 38177, 38304, 38798, 39398, 39551, 39558, 39634, 39666, 39689,
        40554, 40578, 40702, 40801, 40858, 41284, 41590, 42095, 42659, 42705, 42748, 43085, 43177, 43327, 43440, 43537, 44171, 44635, 44986, 45479,
        45599, 45799, 46121, 46512, 47400, 48000, 48089, 48262, 48815, 48827, 48840, 48985, 49168, 49223, 49326, 49496, 49643, 49657, 49862, 49950,
        50137, 50567, 50934, 51211, 51626, 51710, 51794, 53170, 53447, 53721, 53843, 54179, 54845, 54945, 55052, 55148, 55599, 56197, 56227, 56573,
        56768, 57168, 57885, 57985, 58569, 58914, 59249, 59724, 59913, 59956, 60537, 61416, 61953, 62515, 62635, 63848, 63882, 64337, 64706, 65215,
        65289, 65339, 65503, 65639, 66013, 66130, 67289, 67980, 68078, 68986, 69561, 69729, 72339, 72677, 72800, 73130, 73403, 73599, 73991, 74055,
        75569, 76159, 76500, 76864, 79075, 79102, 79276, 79681, 80314, 81418, 81837, 82820, 83286, 84154, 84776, 85387, 85400, 85775, 85860, 86008,
        86626, 87405, 87661, 88390, 88687, 89035, 89494, 89965, 90627, 91333, 91603, 91641, 92081, 92358, 92490, 93158, 94102, 94277, 95483, 95784,
        96441, 97409, 97452, 98230, 98758, 100397, 100727, 101898, 102382, 105075, 105527, 105532, 105908, 106633, 107803, 108577, 110011, 110245,
        110637, 110688, 111023, 111953, 112320, 113207, 113849, 114062, 114150, 114879, 115110, 115234, 115665, 116038, 116241, 117434, 117627,
        117820, 118747, 118820, 120211, 120430, 121542, 123046, 123408, 125142, 125504, 125593, 126797, 130546, 130624, 131442, 131965, 132406,
        134457, 134669, 135375, 135916, 136715, 136866, 138480, 138608, 139469, 139847, 140452, 142294, 142578, 142709, 144473, 146539, 148995,
        149709, 154797, 154833, 158360, 160060, 160150, 164354, 164841, 166400, 168352, 168787, 170059, 170107, 170265, 171964, 172435, 173191,
        173195, 173663, 175473, 175903, 176185, 179066, 179514, 185313, 187244, 190369, 191385, 192813, 194634, 195483, 196788, 201234, 205316,
        210066, 211692, 215944, 216814, 224491, 224976, 226092, 231328, 234043, 239186, 240607, 242032, 242496, 244577, 247788, 249155, 251837,
        254563, 257231, 258938, 262114, 265282, 268103, 270535, 293981, 297675, 297708, 297755, 301666, 304581, 306665, 316227, 318177, 318408,
        325133, 329897, 329961, 330589, 331339, 337014, 342316, 354534, 358122, 358895, 365400, 367980, 375695, 378322, 402208, 413739, 431779,
        457424, 493079, 516769, 531946, 587992, 593292, 642775, 21194431]


def chacha_words(n):
    """ 12 words of 32 bits: key 8, counter, nonce 3 """
    return [mix((n & 0xffffffff) ^ mix((n >> 32) * 16 + j + 1)) for j in range(12)]


CHACHA = [0x1051c6, 0x5d8b26, 0x67da3d, 0x814544, 0x9acb91, 0xa6bf83, 0xb6a717, 0xc7e9ae, 0xd8432c, 0xde25b9, 0xfc3a1c, 0x122869c, 0x1878b96, 0x1a03402,
          0x1b16603, 0x1d16487, 0x1e7efcb, 0x1ebb812, 0x229eb9d, 0x23b0402, 0x260555b, 0x285ff5d, 0x2acc476, 0x2b48be4, 0x2ba065a, 0x2eba62d,
          0x30c9084, 0x30d04ac, 0x32ae30b, 0x34328f4, 0x36aae02, 0x36ad7d4, 0x3826efe, 0x393955a, 0x3a772e4, 0x3b1a642, 0x3dca3a5, 0x3e95eaf,
          0x405978e, 0x429afcb, 0x441a5f2, 0x45c96e1, 0x49b9208, 0x4ab3919, 0x5282e0a, 0x55ef7d8, 0x5ac0a3e, 0x5c1055d, 0x5f2db96, 0x60666cf,
          0x609ea04, 0x622e604, 0x623cd6a, 0x65e88bd, 0x6bfa6d8, 0x6c75c64, 0x6d66fb3, 0x6f359a6, 0x7245a67, 0x73739a7, 0x7404f91, 0x7525fe2,
          0x76e2e98, 0x76fe625, 0x7788175, 0x7a1135c, 0x7c475cc, 0x7dc5916, 0x7e5d880, 0x8394874, 0x86a2732, 0x86cc566, 0x88de4ae, 0x89c4b40,
          0x89f32f8, 0x8a6fcb0, 0x8b215c7, 0x8b6fcda, 0x8c5ca1e, 0x8cdfa24, 0x909d9cc, 0x90c243d, 0x90d6295, 0x90e6e1d, 0x91c4132, 0x930a9cd,
          0x93e859c, 0x94175ee, 0x941e1e4, 0x94ba171, 0x9752a98, 0x9869928, 0x98b2911, 0x9a1cd9c, 0x9a54582, 0x9d21664, 0x9e375f9, 0x9e5da92,
          0x9f0ce2a, 0xa0f9a74, 0xa150d7a, 0xa8d4221, 0xa90b1f7, 0xa943c3b, 0xaac48f9, 0xac89141, 0xada5680, 0xae06363, 0xaf5bccd, 0xafb04aa,
          0xb0bd927, 0xb0f6bf0, 0xb38cc94, 0xb3d9dfd, 0xb42ed51, 0xb4c03b9, 0xb5e96df, 0xb6977bc, 0xb73ddfe, 0xbca8a2c, 0xbccd6bb, 0xbfcc928,
          0xc039746, 0xc23cb2e, 0xc28b80b, 0xc647f07, 0xc9f51c7, 0xcb2eeb0, 0xcc54e5d, 0xcc9413d, 0xceacdb6, 0xd09d750, 0xd2c1fa8, 0xd3f5e18,
          0xd63afc4, 0xd6ee06f, 0xd7334be, 0xda648e1, 0xdbbcf4f, 0xdc7e440, 0xdce5df3, 0xe306c39, 0xe7034b2, 0xe8a6303, 0xea57609, 0xedc285c,
          0xf194703, 0xf1a5d28, 0xf30028a, 0xf63f9ee, 0xf6c67fa, 0xf6cd672, 0xff76215, 0xffa2bc6, 0xffb3c06, 0x1006ead1, 0x100905f3, 0x1036cd2b,
          0x1041c188, 0x104d46ed, 0x104e920f, 0x109ea0b3, 0x10b5d2b3, 0x1102a7f2, 0x113491ae, 0x1153c8b8, 0x1162f7ae, 0x117f5462, 0x1189368e,
          0x11969eee, 0x11b048e9, 0x11d0f64c, 0x11e7f89a, 0x11f7297f, 0x1203428e, 0x12092728, 0x1210324c, 0x12290dad, 0x1232c2d8, 0x123cc711,
          0x124602db, 0x124fab20, 0x12655a15, 0x12727e48, 0x127a241a, 0x12aee87d, 0x12c5ba85, 0x13004184, 0x1309da80, 0x1330e5f3, 0x1359052b,
          0x137485d6, 0x13dc6eae, 0x13dcd4a9, 0x13dd0c29, 0x13ddcf1c, 0x14001b15, 0x140aa5fd, 0x1433d216, 0x1435514d, 0x145cd655, 0x14aa80f4,
          0x14be9e4a, 0x14c5c53a, 0x14f113b6, 0x1525071c, 0x1544080a, 0x155b2920, 0x155b870b, 0x1567f382, 0x15869cd6, 0x1587dd34, 0x158e32f4,
          0x15b26a3d, 0x15d50453, 0x16130c70, 0x1621e72b, 0x1635ae54, 0x16403f78, 0x1660eab8, 0x166509d7, 0x1673c2f7, 0x1697c145, 0x16a54bff,
          0x16a5e353, 0x16accd1c, 0x16b0a20c, 0x16db5eea, 0x16e9614c, 0x16ec573f, 0x1709bd4c, 0x177b9d4e, 0x1783d412, 0x17953df0, 0x17a5cce4,
          0x17a9c738, 0x17bebcc7, 0x17d31778, 0x17f4faa8, 0x1855edc8, 0x185804a5, 0x189b38aa, 0x18b6528f, 0x18b90f24, 0x18d1de09, 0x1914230c,
          0x191510d7, 0x197a6985, 0x19875897, 0x1998910c, 0x19db0b84, 0x19e88e65, 0x19ec0b91, 0x1a2d6be6, 0x1a3c5d52, 0x1a4d2370, 0x1a775fa3,
          0x1a776dcb, 0x1a7e3805, 0x1a92c61a, 0x1b10e776, 0x1b1a39dc, 0x1b39b15d, 0x1b50831f, 0x1b792fc0, 0x1b7a7f14, 0x1b7cb6f4, 0x1bb4d83c,
          0x1c040d8b, 0x1c397468, 0x1c4eff4f, 0x1c75c3eb, 0x1c762601, 0x1cc8c51f, 0x1d051c15, 0x1d5522d8, 0x1d862cd4, 0x1d9bbfd8, 0x1debf42d,
          0x1deee6b5, 0x1e12b972, 0x1e187a08, 0x1e3754eb, 0x1e687781, 0x1e756a96, 0x1e81f799, 0x1e907268, 0x1e9810f5, 0x1ec3019b, 0x1eee6896,
          0x1eff08a4, 0x1effa479, 0x1f07e540, 0x1f5c4c14, 0x1f647e74, 0x1f656792, 0x1f8ea398, 0x1f91603a, 0x1fa13ba4, 0x1fe647d4, 0x2001bb78,
          0x20085259, 0x2012da26, 0x20167d79, 0x206d2f0e, 0x20982f9b, 0x20c7bfa7, 0x21510dce, 0x21539230, 0x2154572e, 0x21913971, 0x21cfb0f6,
          0x21d91cb1, 0x21e83bba, 0x21ffc004, 0x22104299, 0x2224dc38, 0x223f24ae, 0x22630d6f, 0x22648357, 0x229ef79a, 0x22b70895, 0x22c27e3f,
          0x22f958a8, 0x23593dba, 0x239b91b0, 0x23aa235b, 0x23b3c30c, 0x23b983ca, 0x23cdc0a0, 0x23ee7208, 0x243a05eb, 0x24485c2d, 0x24681779,
          0x2471a1a0, 0x24930561, 0x24a526c4, 0x24cfccb3, 0x24db3255, 0x25185249, 0x252884f5, 0x253acdf5, 0x254c46be, 0x25547644, 0x2568f041,
          0x256aa703, 0x256bf7dd, 0x258b39f1, 0x258de1cc, 0x25b1ca45, 0x25bd7fb0, 0x25df1a62, 0x25dfe06c, 0x25e04a4f, 0x26170ebd, 0x2617c1fb,
          0x261a92ff, 0x26554960, 0x26966d25, 0x26c8e091, 0x26da4ea1, 0x26db1a47, 0x26e50eb9, 0x26e8808a, 0x271db996, 0x274deab6, 0x275c0be7,
          0x27635a81, 0x27a78ca1, 0x27b515a5, 0x27bbf6fb, 0x27db4560, 0x27f2d4ea, 0x27fb6865, 0x282a6810, 0x2856efc6, 0x290b1349, 0x2975e160,
          0x297783e6, 0x299ecec5, 0x29cb7d51, 0x2a05b1bb, 0x2a8fe2b6, 0x2a9b5b28, 0x2abaa5c5, 0x2ac4cc3a, 0x2ae68cfd, 0x2afc5b27, 0x2b2e7e00,
          0x2b47442e, 0x2b80512e, 0x2b94550e, 0x2bc0dc50, 0x2bf1464a, 0x2bf8b6f3, 0x2c176568, 0x2c5d5274, 0x2c75861f, 0x2c862e7b, 0x2c97fbcd,
          0x2ccd5c91, 0x2cd30756, 0x2d055468, 0x2d147c93, 0x2d2e0d70, 0x2d3381e7, 0x2d4c89bd, 0x2d58e231, 0x2d67f4c2, 0x2d80f4a9, 0x2dccd639,
          0x2de6e766, 0x2e05d853, 0x2e0cedc7, 0x2e400085, 0x2e6b5f93, 0x2e751943, 0x2e85868d, 0x2e8b9fdb, 0x2e9c6fc9, 0x2e9d692e, 0x2ec16ff0,
          0x2f17a5cc, 0x2f24093d, 0x2f2efa28, 0x2f335ab6, 0x2f3e5d38, 0x2f823fb5, 0x2f82c64f, 0x2f8d6d40, 0x2f966c31, 0x2fbbf6e6, 0x2fe06a48,
          0x2fe6cbf0, 0x30367d2b, 0x3092603d, 0x30c14fb2, 0x30d55cc0, 0x30f8310d, 0x313477db, 0x313b68e9, 0x3141cbf3, 0x314e30b9, 0x31a0cd6f,
          0x31b665a2, 0x325e244a, 0x3268cc30, 0x3296ea13, 0x32aa7b6f, 0x32b69e1a, 0x32b8d568, 0x32c30348, 0x32dcdf6c, 0x32e1b4f6, 0x3354eac6,
          0x33554112, 0x337d931c, 0x339a1c4e, 0x33a18e78, 0x33c15eca, 0x33df8d9a, 0x33e93f0f, 0x33fea1c1, 0x34555ca8, 0x3478b220, 0x3481fcbf,
          0x349e85e4, 0x352d552c, 0x352fc59b, 0x3536b9a1, 0x3578e277, 0x35820e08, 0x35841cbd, 0x35bbb766, 0x3604cecd, 0x3631852b, 0x371fb89c,
          0x373ed049, 0x3741c91d, 0x37593151, 0x376f1381, 0x377c6546, 0x378ca5f5, 0x37d7aa54, 0x37ff2718, 0x38174c5f, 0x3847a3cc, 0x38947725,
          0x38e74c21, 0x38e85b8a, 0x390a38eb, 0x39110a14, 0x394030be, 0x39467632, 0x39abd78f, 0x39d3abed, 0x39f523af, 0x3a092c5a, 0x3a1ec89d,
          0x3aa5d9b3, 0x3b4692ec, 0x3b51b050, 0x3b8d31a2, 0x3baf97af, 0x3bb9c4b1, 0x3be5b46e, 0x3c3bcaa2, 0x3c835984, 0x3cb45577, 0x3cc0a677,
          0x3cc556e3, 0x3cdeae38, 0x3d0579fe, 0x3d33b24b, 0x3d3d2c4c, 0x3d4274a0, 0x3d5251a8, 0x3d639f26, 0x3d87cd58, 0x3dd278ea, 0x3ded0394,
          0x3e142ac7, 0x3e209334, 0x3e2ade7a, 0x3e7b2034, 0x3e815a4b, 0x3e8a1f63, 0x3e9f2fe1, 0x3ebb72ea, 0x3ec6b090, 0x3edb3a9c, 0x3f067a7f,
          0x3f0b5b85, 0x3f0b7f59, 0x3f23d6ba, 0x3f4d0884, 0x3fb9ac48, 0x3fe64f96, 0x40053fc0, 0x405cb028, 0x4081ef1e, 0x4099ceef, 0x40ad0d08,
          0x40bd1bf4, 0x40ccbc67, 0x40d98c21, 0x410fba12, 0x411750b3, 0x4122db49, 0x413ba364, 0x41516685, 0x4166ddc2, 0x41683bbc, 0x41a6216c,
          0x41a7f1fc, 0x41f0c7cf, 0x4246b2d8, 0x425037e6, 0x427cded2, 0x42db889d, 0x42e91039, 0x42ee58f2, 0x432898e8, 0x433e2072, 0x43526481,
          0x4372314f, 0x4387bf4b, 0x438858cc, 0x441fafd4, 0x444a85ce, 0x447bdcb7, 0x44c4670f, 0x44c72518, 0x44da7e06, 0x44f4dbc4, 0x44f9f085,
          0x450eaee8, 0x454b1822, 0x45529591, 0x45aab63e, 0x464a45f8, 0x4658c23a, 0x465d9777, 0x46867ecf, 0x46adbf15, 0x46c7387c, 0x46d686c6,
          0x46df3752, 0x46e3939e, 0x47332633, 0x473af046, 0x4777190d, 0x478e01fb, 0x47d24224, 0x47d7b5d5, 0x47e12005, 0x481ec6cb, 0x482375b4,
          0x482a8472, 0x4832c293, 0x48402a5f, 0x487890ca, 0x487d2d59, 0x487d5f9c, 0x48b35ec1, 0x48df033a, 0x48e62dd4, 0x48ebc89d, 0x48ed876a,
          0x4934af75, 0x4956a452, 0x4985a634, 0x49bf6488, 0x49db34fb, 0x49ee6024, 0x4a083110, 0x4a0844e7, 0x4a1ef79a, 0x4a4e3573, 0x4a601031,
          0x4a722669, 0x4a725d22, 0x4a753619, 0x4a78963c, 0x4a89a2a0, 0x4a9b0270, 0x4ab0d031, 0x4ae883ce, 0x4aee34a2, 0x4b54f0a8, 0x4b55c823,
          0x4b66fa67, 0x4b7d0a9a, 0x4bffe70a, 0x4c230377, 0x4cad4eee, 0x4cd83aaa, 0x4d1f3554, 0x4d435250, 0x4d52fbfa, 0x4d62483c, 0x4d84866a,
          0x4dad9cfc, 0x4dbbe5ff, 0x4dbddd80, 0x4dc1fb3d, 0x4dc7b772, 0x4de80174, 0x4dee480c, 0x4e0a5297, 0x4e559f31, 0x4eaf0b1d, 0x4edb06d7,
          0x4f13011b, 0x4fa0d204, 0x504c38eb, 0x50599a0e, 0x509dfc6b, 0x50a58d63, 0x50cb1728, 0x50e97023, 0x50f9f878, 0x5142fb07, 0x5154f6d4,
          0x5175696b, 0x517a8852, 0x517d9d6d, 0x5180ae2f, 0x519761ca, 0x51ca3235, 0x51d87bae, 0x51ec7eda, 0x52056995, 0x5214a964, 0x522d7426,
          0x523db42c, 0x5257c7e9, 0x5283f7c8, 0x5291e5e9, 0x52a41cb7, 0x52b426d7, 0x52bc6c5a, 0x52ced8dd, 0x52e03fed, 0x52f34542, 0x52f7b697,
          0x531befe8, 0x535112a7, 0x538c61fa, 0x53adebf5, 0x53be98fa, 0x53c2033b, 0x53c35079, 0x53cf597d, 0x53d1876c, 0x53e017f8, 0x53e65458,
          0x540ea7f3, 0x5418cffc, 0x542a156d, 0x54435b6f, 0x5446bef2, 0x547f60d5, 0x5493ee65, 0x54a2d9be, 0x54ae8701, 0x54c2ec3b, 0x54e797c5,
          0x55031b28, 0x5549b03a, 0x554e81a7, 0x55555d12, 0x5555d85c, 0x556dbb00, 0x55c734ac, 0x55def1c5, 0x55e8bf0d, 0x55ff83fd, 0x56157cd8,
          0x5633bd74, 0x5634a47d, 0x564b0fa5, 0x564d8c9c, 0x567e79d0, 0x5697aefd, 0x56a277d3, 0x56bc28cf, 0x56c567d0, 0x56f36484, 0x57420ecd,
          0x5776ec6d, 0x577a5320, 0x579fbd5f, 0x57a15047, 0x57bf0114, 0x57c9f177, 0x581067ea, 0x58240349, 0x582d25c5, 0x58863def, 0x58a818d3,
          0x58e21541, 0x58e99c6d, 0x59113e3c, 0x5942bdbc, 0x59441797, 0x594c1832, 0x596fbf26, 0x599fca3f, 0x59acc038, 0x59acc424, 0x59dea307,
          0x5a2bc7a7, 0x5a8a071b, 0x5a9e9352, 0x5ad305e9, 0x5affe303, 0x5b0e64d0, 0x5b36147d, 0x5b4d88a9, 0x5b5cffc1, 0x5bba90d6, 0x5bdfdea4,
          0x5be12d07, 0x5bf54bcb, 0x5c0e5828, 0x5c5e105b, 0x5c857d45, 0x5cd14327, 0x5d358491, 0x5d589ce4, 0x5db5f377, 0x5df7af74, 0x5e0894d6,
          0x5e5e3fc8, 0x5ecb1ede, 0x5ed0fe67, 0x5f02f13c, 0x5f3d179d, 0x5f6a3108, 0x5f7db310, 0x5fa2ca5c, 0x5fe01e57, 0x5ff2c269, 0x5ff4fdfd,
          0x60201eaa, 0x60492fb7, 0x60b29310, 0x60b946cf, 0x60da811d, 0x60ed51f9, 0x6141245a, 0x615c7f50, 0x616bc185, 0x61834702, 0x61cce7e1,
          0x61ef2b19, 0x62203732, 0x62274baf, 0x622fb50e, 0x62382762, 0x623ffd61, 0x62683b1e, 0x628aaa5b, 0x62b6325d, 0x62b7a2ba, 0x62d08bc8,
          0x62dc90dd, 0x630a9fcb, 0x631dfc9c, 0x632432bb, 0x639ab1b7, 0x63a884a3, 0x63cca7c8, 0x63da1137, 0x63f725ac, 0x64255787, 0x642a0cba,
          0x644e7878, 0x646c0279, 0x64914572, 0x649b3514, 0x64a50490, 0x64bef702, 0x64df5122, 0x6512e296, 0x651aec0d, 0x65a056f7, 0x65aa7b4e,
          0x65bef00f, 0x661ea460, 0x66409fd9, 0x664a0cc0, 0x67540c7c, 0x676d4686, 0x67c548e9, 0x67cdd7c5, 0x67de4014, 0x68078ec9, 0x6852fe33,
          0x686c413d, 0x68906d3d, 0x68c968d6, 0x68da0401, 0x69028450, 0x69057590, 0x6938cf48, 0x694ead40, 0x69528f25, 0x69b21bbd, 0x69b57cf0,
          0x69d504ce, 0x6a01000c, 0x6a1b55cb, 0x6a266355, 0x6a32eb82, 0x6a3c93e2, 0x6a710bda, 0x6a851b32, 0x6a8cf8e7, 0x6a980a86, 0x6ae3e6bb,
          0x6ae97805, 0x6aefb33c, 0x6b446536, 0x6ba33253, 0x6bbe1d9e, 0x6c2228c1, 0x6c2936a3, 0x6c42e0cc, 0x6c460de9, 0x6cf33bca, 0x6d01f442,
          0x6d3282d7, 0x6d5d2594, 0x6d741a0c, 0x6d784211, 0x6d851383, 0x6dae0aa1, 0x6dc91e15, 0x6de29a23, 0x6de7fc99, 0x6e1f47d5, 0x6e311939,
          0x6eaed205, 0x6ef74890, 0x6efe31e2, 0x6f00097c, 0x6f2a4586, 0x6f36af4c, 0x6f3e691e, 0x6f558c16, 0x6f682731, 0x6f8d327f, 0x6fa77f86,
          0x6fadd528, 0x6fe06c3f, 0x6ff11d78, 0x6ff273ea, 0x6ff9297e, 0x700fee35, 0x701ac72f, 0x701b57eb, 0x70769dab, 0x708efe8f, 0x70aabb9c,
          0x70c49f37, 0x70c63928, 0x70dc254a, 0x70ec67dc, 0x710824c4, 0x7133d0e6, 0x71420091, 0x7144d17d, 0x71689cc6, 0x719fc57a, 0x71b9fedd,
          0x71e7ec64, 0x7201e957, 0x722dc462, 0x723bbc16, 0x72721086, 0x729da951, 0x72a36cc2, 0x72d56307, 0x72d6a063, 0x72e84005, 0x733d7457,
          0x73618a20, 0x73733535, 0x7378f7a4, 0x73d5d59a, 0x73f52b1c, 0x73f584ed, 0x74585f39, 0x745c60f2, 0x7486815f, 0x749d575c, 0x74bfa2d2,
          0x74c3d77c, 0x74e48e68, 0x750365fa, 0x7592a54c, 0x7594467a, 0x75c04d75, 0x75d60e3c, 0x7605b9f2, 0x76293a39, 0x76732bac, 0x76816659,
          0x768739a4, 0x76dd67c0, 0x76e265f1, 0x76f875cf, 0x77086d99, 0x772e1a87, 0x7735837c, 0x77570437, 0x779ab2e4, 0x77ad9d3a, 0x77c064e2,
          0x77d1f513, 0x77f6d1c5, 0x783331c8, 0x793c5bd4, 0x795ecfaa, 0x79785bd3, 0x79798a54, 0x79bef1d1, 0x79c76e8a, 0x79fb984a, 0x79feb98d,
          0x7a0f39d8, 0x7a1a1e55, 0x7a28079d, 0x7a386b13, 0x7a3b7d4d, 0x7a4a59ad, 0x7a6100e1, 0x7a6aaaf0, 0x7aa0f2ab, 0x7ad58af4, 0x7b0f1cc5,
          0x7b3bb288, 0x7b56515e, 0x7b60b9ba, 0x7b658871, 0x7b71b365, 0x7bb28493, 0x7c4a7699, 0x7c969e16, 0x7cdcb1fb, 0x7d14b424, 0x7d397160,
          0x7d4124b4, 0x7d423f41, 0x7daa4486, 0x7e001c70, 0x7e429297, 0x7e5b1074, 0x7e81e634, 0x7e9492a9, 0x7ea22fc4, 0x7eaa34f7, 0x7ebabe4e,
          0x7ede89f8, 0x7f112c2a, 0x7f3af7bf, 0x7f51373b, 0x7fe4ee8f, 0x801dcdc4, 0x80204038, 0x80549304, 0x806863e3, 0x807c191d, 0x80a86124,
          0x80a9bebf, 0x80beb94a, 0x80d15362, 0x80f8bda3, 0x80f9962a, 0x810cf89f, 0x81316f91, 0x81527559, 0x81814c18, 0x81ac58a2, 0x81b05b87,
          0x81cbf9fe, 0x81f035d5, 0x81fed74f, 0x8214021c, 0x821b7214, 0x8230af5b, 0x823a8e3b, 0x825aaadd, 0x82afe1b7, 0x82ca4188, 0x82f6123e,
          0x839ee5d5, 0x83bcbc62, 0x83e1bbf1, 0x83e5599e, 0x840698fb, 0x840a711b, 0x8431dc81, 0x84988685, 0x85243905, 0x853dafbd, 0x8540c819,
          0x8563ad47, 0x858988f9, 0x858df713, 0x85eef6b0, 0x85f5a4d4, 0x862d8bf1, 0x865ca2bd, 0x869f8b6b, 0x8718f1f3, 0x87691e74, 0x87991e53,
          0x880b2e9b, 0x881ea0bc, 0x8820a76b, 0x8849b74e, 0x886aa384, 0x8882bd68, 0x88a1aa37, 0x88c4a87a, 0x89187b5d, 0x898773cf, 0x89a175cd,
          0x89e5db68, 0x89e8e142, 0x89ee9f3d, 0x8a55131d, 0x8a64b41f, 0x8a833f46, 0x8a859f7a, 0x8a981bcd, 0x8ab31601, 0x8acd880a, 0x8b1d5ae6,
          0x8b2779a6, 0x8b38bdf4, 0x8badfbcf, 0x8bb127e7, 0x8bde5966, 0x8c0c5b0d, 0x8c32bed2, 0x8c3f9750, 0x8c418e53, 0x8c9ab4f7, 0x8c9fcace,
          0x8cbe655e, 0x8cd0100a, 0x8d00a1e4, 0x8d12ca2a, 0x8d16a797, 0x8d53b16d, 0x8dbf2608, 0x8dd65b26, 0x8e2f4dc1, 0x8e44fbf0, 0x8e900068,
          0x8ee1ac04, 0x8eedcc5a, 0x8f15642e, 0x8f987c2f, 0x8f9e4ee9, 0x903a8c42, 0x9052dca0, 0x90535ff4, 0x906af149, 0x90a0d9d6, 0x90be3c7d,
          0x90e95a0f, 0x9185e12e, 0x91c227bd, 0x91d47b16, 0x91d9a8db, 0x91fb006f, 0x921c7c13, 0x925b43d5, 0x926aaf85, 0x929300fd, 0x92c7f3a3,
          0x92e5ce25, 0x92fce707, 0x93357f94, 0x934bd193, 0x935a0f5d, 0x93695d0e, 0x93cdedf1, 0x93ce474c, 0x93cf0ed3, 0x93da1f9a, 0x9407d659,
          0x94553f11, 0x95854c33, 0x95873ece, 0x95a6e4a4, 0x95bd4965, 0x95f2976f, 0x964fd193, 0x9690d1bd, 0x9691448c, 0x96a3882c, 0x96af4424,
          0x96d7008c, 0x97024fe4, 0x9702f09d, 0x970b1248, 0x972c14d8, 0x974ea1ed, 0x97513b0c, 0x97869faf, 0x97ca0e30, 0x97cfd6f9, 0x97cfdb28,
          0x98388a7b, 0x983ec330, 0x985418f0, 0x989b2b3a, 0x989fcd72, 0x98ab176d, 0x98c4fe03, 0x990fc5f1, 0x99573dfb, 0x995ccebc, 0x99819ecf,
          0x99ae04e0, 0x9a114100, 0x9a137cc3, 0x9a4bc9ab, 0x9a58bb3f, 0x9ade6a46, 0x9ae9edbd, 0x9b0149ed, 0x9b645b1d, 0x9b70ad6d, 0x9b72ce28,
          0x9b8276f9, 0x9bab3249, 0x9baebaf8, 0x9bf09bc5, 0x9c1c0b86, 0x9c48f4c3, 0x9c885d5d, 0x9cadacb0, 0x9cb23267, 0x9ce119d9, 0x9cf9fc9a,
          0x9d34368b, 0x9d5324d4, 0x9d5bda8c, 0x9db1d0a3, 0x9e4253ef, 0x9e49cf0a, 0x9e7ec64d, 0x9ea2af6b, 0x9ea97695, 0x9eb64727, 0x9ec24d2b,
          0x9f06e703, 0x9f0b8054, 0x9f2757ae, 0x9f3cd2ba, 0x9f8356ab, 0x9faee0a8, 0x9fee3379, 0xa06c34b1, 0xa0b3a780, 0xa0b9dab6, 0xa0b9f0f1,
          0xa0e69290, 0xa0f1c919, 0xa0f2e021, 0xa184cd77, 0xa1e7c3d6, 0xa1ec3c48, 0xa20c500b, 0xa22d3518, 0xa254937d, 0xa291c4c2, 0xa2ed375b,
          0xa3282688, 0xa32c2096, 0xa33c3277, 0xa3ce6a8a, 0xa3f789f1, 0xa4aaa4f2, 0xa4b28214, 0xa4dec460, 0xa4e2c5d3, 0xa53ea77b, 0xa54b7089,
          0xa574b0aa, 0xa59ccd84, 0xa5c11c91, 0xa5f5f3bc, 0xa672a628, 0xa6980b6d, 0xa7316c2d, 0xa74b8c06, 0xa74c14b3, 0xa773e4ff, 0xa7eb16be,
          0xa7fd011a, 0xa86e1413, 0xa8a061e1, 0xa8e7e8ea, 0xa92bdb0b, 0xa93fb3e2, 0xa9768ad1, 0xa988b930, 0xa9a8efbe, 0xa9dd845f, 0xa9f91ea9,
          0xaa04364e, 0xaa232354, 0xaa7a3f5f, 0xaa7b0ac2, 0xaa95abc2, 0xaaab1fac, 0xaab2d5ee, 0xaaebd744, 0xaafd9ccc, 0xab1dfb4d, 0xab25175c,
          0xab6edeb2, 0xab976b4c, 0xabbe9a1a, 0xabde91c8, 0xac0d348e, 0xac238aed, 0xac39e3f9, 0xad113044, 0xad8c5216, 0xadd23989, 0xae01f501,
          0xae060548, 0xae39b983, 0xae95685b, 0xaec7d962, 0xaedd4007, 0xaf8d374a, 0xafa0edeb, 0xaffa61c7, 0xb01ac25a, 0xb0429d52, 0xb055cb26,
          0xb063a9ee, 0xb08ec8f5, 0xb0e8c7f4, 0xb0ea09b0, 0xb0ea5658, 0xb1370dda, 0xb1716513, 0xb1e3c193, 0xb200cd40, 0xb294a692, 0xb2cf0fd8,
          0xb2d725ac, 0xb2d7a326, 0xb3041355, 0xb33ebb2d, 0xb36b06a6, 0xb39b2e3b, 0xb426b209, 0xb450c3fd, 0xb4633ea3, 0xb46f2ccb, 0xb4818f2f,
          0xb486ead0, 0xb495698e, 0xb4ccf9d4, 0xb4dbbd5f, 0xb52e0773, 0xb52f71bb, 0xb5540348, 0xb5543ee1, 0xb559204d, 0xb5f0c6ad, 0xb671996e,
          0xb671c3b8, 0xb693e054, 0xb6edd0b8, 0xb72e0747, 0xb7cd7525, 0xb7df7c39, 0xb7f51c9b, 0xb80b1f84, 0xb83ffa8e, 0xb8eb1f4a, 0xb9278ccf,
          0xb937a820, 0xb950e6db, 0xb97ff805, 0xb98b3bf4, 0xba5f7cae, 0xba7d75de, 0xba8658f3, 0xba96b90d, 0xba9e18c6, 0xbac75911, 0xbac7da23,
          0xbb06a324, 0xbb1ed87e, 0xbb7d1573, 0xbb7f4f27, 0xbb8b8e36, 0xbb93bd57, 0xbb9d1bde, 0xbbc097d0, 0xbbd86831, 0xbbe5bca0, 0xbc069c8c,
          0xbc1aab94, 0xbc72d600, 0xbcb060d4, 0xbd2781ac, 0xbd4ad5d4, 0xbd654afa, 0xbd802109, 0xbda82325, 0xbdc3d043, 0xbe860367, 0xbf3f08af,
          0xbf4bc0ae, 0xbff5d464, 0xc02c7a56, 0xc05b42fc, 0xc06b4766, 0xc0740c74, 0xc0b234f3, 0xc0f51373, 0xc0f8c123, 0xc11c9e93, 0xc165b8d3,
          0xc18ec59a, 0xc19aac4b, 0xc1a62b60, 0xc1be68e0, 0xc1cd4337, 0xc2bf8c06, 0xc2e768ef, 0xc317263a, 0xc39c0c28, 0xc3e66e3a, 0xc440432f,
          0xc47bbb25, 0xc4b85625, 0xc4ba9286, 0xc56b2b7c, 0xc6043f89, 0xc609fabe, 0xc6c92d03, 0xc70680e0, 0xc708f337, 0xc71d9f32, 0xc75922c5,
          0xc7975867, 0xc7bd0b42, 0xc7c23701, 0xc7fba102, 0xc81b68fe, 0xc822a25a, 0xc823c01a, 0xc85f228d, 0xc8a9dcf3, 0xc8c51793, 0xc8dfade5,
          0xc9478497, 0xc99250c8, 0xc9d5cb9f, 0xca0331b0, 0xca05f813, 0xca1e27a7, 0xca352def, 0xca519e89, 0xca70fa4a, 0xca7afe5e, 0xca8c0b14,
          0xca8e1d74, 0xcad17744, 0xcad5b03a, 0xcb26351b, 0xcb2af16d, 0xcb5de11c, 0xcbe65e08, 0xcbfdc764, 0xcc20ec55, 0xcc24cd9a, 0xcc6f191d,
          0xcc8bb90d, 0xccc316c7, 0xccd0031b, 0xcd20f8bd, 0xcd29b206, 0xcd80ad2d, 0xcd90f8e5, 0xcdad0e6e, 0xce35bded, 0xceaf55e8, 0xcf441171,
          0xcf703e23, 0xcfbf6f3d, 0xcfe0e4db, 0xcfe1de4f, 0xd00f3d95, 0xd0121e1e, 0xd047c1ba, 0xd051b020, 0xd07d2baf, 0xd0baf3f3, 0xd0d6dfd1,
          0xd126b0f2, 0xd1724089, 0xd19a5412, 0xd19d4524, 0xd1ade441, 0xd1bcf44d, 0xd1d4ea2e, 0xd1fc1005, 0xd222928a, 0xd25d4a2c, 0xd290cd15,
          0xd2df628a, 0xd2e614cb, 0xd31f5509, 0xd37a6a56, 0xd38ee731, 0xd4513e13, 0xd4703c16, 0xd481af73, 0xd494151c, 0xd4c2251c, 0xd50184c7,
          0xd5069a2b, 0xd52e3b43, 0xd53d572d, 0xd5901268, 0xd590f262, 0xd5a590a0, 0xd5c5f344, 0xd5d63350, 0xd63caa2b, 0xd66eabfc, 0xd68412d3,
          0xd6949703, 0xd7a0fab0, 0xd7a2896c, 0xd8188379, 0xd83275a9, 0xd8793772, 0xd8cd85fd, 0xd8e545a5, 0xd949ada2, 0xd94b962c, 0xd97c698f,
          0xd990e1a2, 0xd9e294b7, 0xd9f9f0a5, 0xda42ebfd, 0xdac33459, 0xdb1c7ddd, 0xdb4c4d49, 0xdb5bb01f, 0xdc4acbbe, 0xdcb63a86, 0xdcda74f8,
          0xdd5ddb85, 0xdd7eaed6, 0xddf2e387, 0xde088871, 0xde0d486c, 0xde5ba1b8, 0xdeb8c57a, 0xdebdd167, 0xdf263953, 0xdf2877a2, 0xdfebe01b,
          0xe0015d08, 0xe02383df, 0xe02992ed, 0xe03f05a5, 0xe0638764, 0xe07879e1, 0xe0d544c2, 0xe10a2dbe, 0xe19b7368, 0xe1af9416, 0xe21eaab0,
          0xe24fe519, 0xe2b6fe1b, 0xe31631a2, 0xe349016f, 0xe4484f99, 0xe4622a77, 0xe4728926, 0xe4a50ccd, 0xe4c57af6, 0xe51ecde3, 0xe5521d6f,
          0xe569e95c, 0xe5c5be9a, 0xe5d9c587, 0xe5e5a622, 0xe5e9c02f, 0xe5f6dc11, 0xe6303510, 0xe67dc64d, 0xe6c78ab6, 0xe74b702c, 0xe7550bef,
          0xe773e82a, 0xe77539aa, 0xe77b447d, 0xe872d931, 0xe8d11b59, 0xe90f62e5, 0xe942da00, 0xe957b62b, 0xe95ade3e, 0xe98ece5c, 0xe999802e,
          0xe9c8702e, 0xe9d0cd02, 0xea2d5f72, 0xea3e905c, 0xea48a944, 0xeab63590, 0xeb23978a, 0xeb576ec7, 0xeb9d77dd, 0xebce8945, 0xebdd2b46,
          0xebe0a4f4, 0xebe3c434, 0xebf3b03e, 0xecf7a4c4, 0xed478183, 0xed54aa91, 0xed7b0fd1, 0xed8bfbc6, 0xedad91e0, 0xede153e6, 0xee3ef208,
          0xee87142a, 0xee9f27d2, 0xeebcab67, 0xeecec0c6, 0xeecf96db, 0xef21f31d, 0xef2dab67, 0xefe5d285, 0xefe91ce0, 0xefed869e, 0xf06fc646,
          0xf0858dcf, 0xf0a6c711, 0xf0cb11bb, 0xf10b42d6, 0xf16e3d02, 0xf1bd3a4a, 0xf2409409, 0xf24c18b1, 0xf259fa4b, 0xf276c774, 0xf27d2f78,
          0xf2d91c40, 0xf3b6ff50, 0xf4758a05, 0xf48d980b, 0xf52a682b, 0xf55526fc, 0xf5720afa, 0xf5fdcfd8, 0xf68f1fe8, 0xf7008093, 0xf879c34f,
          0xf899d4b3, 0xf8a70539, 0xf8b3ed4f, 0xf9255433, 0xf9278ccd, 0xf95f6f73, 0xf97a9054, 0xf9a8f0a0, 0xf9c1beb1, 0xfa02c9df, 0xfa1c2d8e,
          0xfbb0c88e, 0xfc00b000, 0xfc2f8565, 0xfc3b4034, 0xfc802567, 0xfca26cc7, 0xfccca545, 0xfd12e85c, 0xfd6b76b5, 0xfe088617, 0xff0e5d22,
          0xff27b3a8, 0xff3b3a66, 0xff3e66b2, 0x200353867, 0x200ae8468, 0x201a1dbe8, 0x201d93b5c, 0x201f5ea0e, 0x2021d2f98, 0x2026d4c89, 0x20284d9e9,
          0x2035284e2, 0x203528b08, 0x2038f0199, 0x20420ec94, 0x204e5a0d1, 0x20540d7eb, 0x205bcd606, 0x205f428b5, 0x205fb6c7f, 0x206116287,
          0x2063c66b4, 0x206da1714, 0x207617bf1, 0x2083137d7, 0x2083c89a2, 0x2084c5abc, 0x2084cd99b, 0x208595f24, 0x208738a3c, 0x2089cff84,
          0x208a3c0d1, 0x208d41717, 0x209033a0b, 0x2093e70b4, 0x20950c0f9, 0x20959da81, 0x209933eb5, 0x209ca1715, 0x20a57c702, 0x20aadecef,
          0x20b27bc20, 0x20b58f55a, 0x20b9229a7, 0x20befbf41, 0x20bf114b6, 0x20c8007b9, 0x20cb5fd7a, 0x20d5d5c86, 0x20d7082fb, 0x20d9e23d7,
          0x20dc42c5f, 0x20e18ac23, 0x20e21fdd6, 0x20e7518f1, 0x20eb3348e, 0x20ec4f7cd, 0x20f105e4f, 0x20f349e94, 0x20f4d4675, 0x20f4fe54a,
          0x21010157c, 0x2110ce0a4, 0x211189754, 0x2112c819c, 0x21154db3b, 0x21156cd66, 0x212708061, 0x21336abe0, 0x2133b80a4, 0x2134268a4,
          0x213720cdc, 0x214066a68, 0x214ae4bd8, 0x214ccb33f, 0x214e8608b, 0x2150550f4, 0x21586cae6, 0x215a06bfe, 0x215b82944, 0x215ecf960,
          0x216172072, 0x2161d24a4, 0x2167246d0, 0x2168ae907, 0x2176956cb, 0x217b5b601, 0x217bb8141, 0x217d069b7, 0x217dba11c, 0x217de70b7,
          0x218a4ba94, 0x218b11e51, 0x218cf8da1, 0x218ff4c29, 0x219650d96, 0x2198fca18, 0x21990a263, 0x219ca54ec, 0x21a1773a4, 0x21aea5590,
          0x21aebe625, 0x21b06181e, 0x21b18ae4e, 0x21b1ae044, 0x21b20bf4d, 0x21b33b13a, 0x21b39f28a, 0x21b53e4e1, 0x21b91da54, 0x21bdf8bc5,
          0x21c3ce568, 0x21c3f8d5b, 0x21c719270, 0x21d90059b, 0x21d92970a, 0x21d9f431b, 0x21e5a3d2a, 0x21f2d544c, 0x21fcebd2a, 0x21fd46cf7,
          0x21fee77fe, 0x22001d725, 0x220781e56, 0x2208d2b08, 0x22091f7e9, 0x2210f3a8e, 0x221300b21, 0x221807fd6, 0x22198c6dc, 0x22253761e,
          0x22259f065, 0x2229fa265, 0x222e4ed34, 0x22364553b, 0x224635fce, 0x224663497, 0x2248c317b, 0x224a4e4d5, 0x224afaf45, 0x22618286e,
          0x22669fdee, 0x226ed93ae, 0x227fbec84, 0x2281fa4a7, 0x229328980, 0x229394b4e, 0x2296f652b, 0x22a1ee99b, 0x22aa1c999, 0x22aa61f6d,
          0x22b2bc98c, 0x22b84a4d8, 0x22bfa6c0f, 0x22cc9feeb, 0x22d6d1f2e, 0x22dd2153b, 0x22de4e276, 0x22e00c076, 0x22e47c806, 0x22e57eba6,
          0x22ef47183, 0x22f423368, 0x22f5208a4, 0x22f5dd39c, 0x22fa300b5, 0x230abb6ca, 0x230f92bbd, 0x2313e6da6, 0x2315a7a97, 0x2318e76bd,
          0x2321bc968, 0x232391329, 0x233078c5f, 0x2334bfb22, 0x233585afd, 0x2338e8818, 0x233eb72ca, 0x233f71073, 0x23442b486, 0x23448ca91,
          0x23485f5fd, 0x234c5e4bf, 0x235189200, 0x235402d10, 0x23592c634, 0x235d2ce2e, 0x235f6d318, 0x2360a9801, 0x236849ee7, 0x236c5a619,
          0x236d94270, 0x236f4a76d, 0x23717f2b1, 0x237cfc20b, 0x237d5435c, 0x237d75e7a, 0x237ee545b, 0x2381401db, 0x23825ac25, 0x2383bda52,
          0x2384c4f49, 0x238b99127, 0x23914b422, 0x239ba90e8, 0x23a07f350, 0x23ba58a67, 0x23c0d2816, 0x23cdaf468, 0x23cfb62fd, 0x23d189640,
          0x23d9db8d2, 0x23e8600cd, 0x23fc6fa28, 0x23ffe05bf, 0x2404d8ac4, 0x240c58bd6, 0x240cfba6a, 0x240ee82d5, 0x240f72f1b, 0x2417ef574,
          0x24259f888, 0x242c7fb6c, 0x24300bf77, 0x2433092a7, 0x24330e053, 0x243350777, 0x243b64df8, 0x243f92cb5, 0x244243a3d, 0x2445e92ae,
          0x244ef179f, 0x244fffeef, 0x2450cf832, 0x2459b1a20, 0x245e26711, 0x246465ba2, 0x246665ddd, 0x24673159e, 0x2473b8c2e, 0x2476e04b8,
          0x2477c36a3, 0x247af0026, 0x247fc1351, 0x248465dd4, 0x24863551a, 0x24869b63e, 0x2489a690c, 0x249066d16, 0x24989eb44, 0x24997686d,
          0x249cabe5c, 0x24a7e666f, 0x24a8b7163, 0x24aab5682, 0x24b3bd565, 0x24b497a88, 0x24b72fef5, 0x24cc3f5ff, 0x24ccfff25, 0x24d3d4cd4,
          0x24d720d9f, 0x24da7663b, 0x24db1eff4, 0x24dbb2f4a, 0x24e1df825, 0x24ea47115, 0x24eb64587, 0x24ee4c2dd, 0x24f17f4de, 0x24fb23edc,
          0x250035739, 0x2506b3a29, 0x2509804ab, 0x251551e0f, 0x2516a6eba, 0x251864065, 0x2527cc026, 0x252d39eb4, 0x25300cde0, 0x25441ac2f,
          0x25484592c, 0x255cafd00, 0x25622cc7a, 0x2568f0b98, 0x256feb434, 0x25707ec78, 0x2574e628d, 0x2576d9104, 0x257971702, 0x2582b62ca,
          0x25878a8dc, 0x2587ca147, 0x258e40603, 0x258e95b16, 0x258eb96d8, 0x258ff56c4, 0x2592e5565, 0x2594148bb, 0x25947e1d1, 0x2596dfbdd,
          0x25a5079fe, 0x25b8d2818, 0x25bbc7f82, 0x25bd7dfaf, 0x25bdcb6ba, 0x25bf9f0f5, 0x25c147ba7, 0x25d3f0a77, 0x25e690e9e, 0x25ee40ef1,
          0x25f887a5e, 0x25fb94928, 0x26107792a, 0x261214715, 0x261c20486, 0x26200497d, 0x2621ff8e5, 0x2622a94c2, 0x262f681f7, 0x26405d67e,
          0x26431d151, 0x264707efa, 0x2648b244b, 0x264d8757d, 0x265dbe632, 0x265f9f8cc, 0x2660fadab, 0x266bbfcff, 0x268cddb3d, 0x268d45bf5,
          0x2694aa5da, 0x26a416055, 0x26b8ffa00, 0x26ba915ca, 0x26c032ba6, 0x26c6501c1, 0x26c7a9823, 0x26c7f64a2, 0x26c9ab910, 0x26c9b1a6d,
          0x26ced3371, 0x26d11ed5b, 0x26d818da1, 0x26db80069, 0x26dece7a2, 0x26e591104, 0x26f4cae64, 0x26f4ee149, 0x26fb7f2b3, 0x26fe92156,
          0x26ffbb82d, 0x2700f9372, 0x27048eff1, 0x271129546, 0x271b1fdad, 0x271dbf320, 0x2725cf684, 0x272e48c1d, 0x272f5d2c6, 0x272f8b575,
          0x27366dd59, 0x273bbf6da, 0x274196ffe, 0x27423b330, 0x2743c23a9, 0x274b057d3, 0x274d793ad, 0x276110dfc, 0x2768650e1, 0x27734f3d4,
          0x277821d80, 0x2779c603e, 0x277e20427, 0x2780e7fa6, 0x278134df9, 0x2786164fb, 0x2794eda5a, 0x2798122e8, 0x2799339a3, 0x279ba26db,
          0x27a44994c, 0x27a5575ce, 0x27a8f35c5, 0x27b330c97, 0x27c09b2de, 0x27cc052b5, 0x27ce2c494, 0x27cfaa578, 0x27d61a085, 0x27d7c781b,
          0x27dae4481, 0x27e3b68c5, 0x27e40a2b5, 0x27ee7cf26, 0x27eeb9bae, 0x27f31b437, 0x27ff8a3fd, 0x2813cf9f5, 0x281519d7b, 0x281a84f56,
          0x282dc9332, 0x282e82dbc, 0x282eed4b3, 0x283702d2d, 0x284220ddd, 0x28467baf2, 0x284904dc8, 0x2849f3085, 0x284a220a9, 0x284d6fbdb,
          0x2850bc744, 0x285735b5b, 0x286949f72, 0x287c5ca01, 0x287da86b1, 0x287dfddc4, 0x288466a63, 0x28887d6e8, 0x2889048e8, 0x2899bc861,
          0x28a4c4683, 0x28b5d5bec, 0x28b954196, 0x28c20850c, 0x28cd9ba68, 0x28ce05413, 0x28fef6e3f, 0x290641739, 0x290c30bc4, 0x291f98c4f,
          0x292170b60, 0x293d29a63, 0x2940f91f5, 0x294582740, 0x2951c6697, 0x2964cc24e, 0x296771f41, 0x29952196d, 0x2997ed456, 0x2999ac66d,
          0x299c2fbe4, 0x299d1676d, 0x29a1ea907, 0x29a6abf9b, 0x29acd85a7, 0x29b289730, 0x29e6eca51, 0x29e899d1a, 0x29ef9e6f3, 0x29f2de554,
          0x29fb7095c, 0x2a0122f0d, 0x2a051920b, 0x2a0df95d9, 0x2a12b1865, 0x2a22307fe, 0x2a2d5858d, 0x2a379b0e1, 0x2a3cdfb5a, 0x2a3ded066,
          0x2a4355a21, 0x2a46625c3, 0x2a5b53383, 0x2a6273246, 0x2a73714e8, 0x2a763b22d, 0x2a7c7d63d, 0x2a823e58c, 0x2a867e30b, 0x2a9317267,
          0x2a9d7adae, 0x2ac08cfd6, 0x2ae25c333, 0x2af49c4a0, 0x2af6c473e, 0x2b0d7d469, 0x2b1a0d929, 0x2b1cc86c9, 0x2b1ef02cc, 0x2b1f77d95,
          0x2b2a91e0e, 0x2b2ea78e7, 0x2b2f67126, 0x2b3bd461f, 0x2b3c7c39a, 0x2b53922e0, 0x2b65271bf, 0x2b68b1a96, 0x2b6b8756c, 0x2b7118adc,
          0x2b71798cd, 0x2b732dc92, 0x2b7c0c66e, 0x2b7f0ac18, 0x2b7f559ed, 0x2b8551f36, 0x2b86c57a9, 0x2ba08f452, 0x2ba0bf6d0, 0x2bb4e7e58,
          0x2bbd65dd9, 0x2bc118cae, 0x2bcbb8fd9, 0x2bcd6f435, 0x2bd28fc30, 0x2bd4692fb, 0x2bd51a5cc, 0x2bd5d46bf, 0x2bdebe1aa, 0x2be0642ae,
          0x2be2c418a, 0x2be72fcb8, 0x2bf45e710, 0x2bf7748d4, 0x2bf9b097c, 0x2bf9b64a9, 0x2c088e943, 0x2c097929f, 0x2c0b128d0, 0x2c1641bb7,
          0x2c390a36a, 0x2c3e09333, 0x2c40a5239, 0x2c40d4d56, 0x2c48fb58a, 0x2c5435d1d, 0x2c7291fc9, 0x2c8372eda, 0x2c873970d, 0x2c889aef9,
          0x2c8cb6f45, 0x2c90dc4e3, 0x2c91e078f, 0x2c9eaf471, 0x2ca400e39, 0x2cad57b9b, 0x2cd2ea467, 0x2cd56beba, 0x2cd617f9b, 0x2cd9e29f4,
          0x2ce07dc77, 0x2ceacc05a, 0x2cee7ab45, 0x2cefb10e0, 0x2cf0db768, 0x2cf790228, 0x2cfcdd36c, 0x2d222246f, 0x2d35d1e38, 0x2d40c707d,
          0x2d4c7583f, 0x2d6654f59, 0x2d73159d1, 0x2d742d2a6, 0x2d87e82bd, 0x2d898e3f6, 0x2d8a952c6, 0x2d97eb39e, 0x2d9d642e8, 0x2dbdb328a,
          0x2dc79c41c, 0x2dcb26e86, 0x2dd5b18ff, 0x2dd9ff036, 0x2deca4280, 0x2dfc9a2f8, 0x2e0c9553c, 0x2e0f72016, 0x2e14936bc, 0x2e161dc56,
          0x2e1be6a78, 0x2e1e0e7e9, 0x2e2312b77, 0x2e24eb60f, 0x2e2b505ad, 0x2e5e7e374, 0x2e6a9260d, 0x2e83ba153, 0x2e8546e7e, 0x2e88abf82,
          0x2e8eede1b, 0x2e9652975, 0x2e999fbb2, 0x2ea1ee9dd, 0x2ea3de94e, 0x2ea9e0f81, 0x2eb21ef7a, 0x2ebbe5284, 0x2ed4dd9be, 0x2ed6adf77,
          0x2ee62ead6, 0x2eed1cab4, 0x2eef929ef, 0x2efcb07c5, 0x2f226e50d, 0x2f24935f9, 0x2f258527f, 0x2f313f1c0, 0x2f3bffc25, 0x2f462d759,
          0x2f4fcd273, 0x2f50a4da0, 0x2f58bdcee, 0x2f6714120, 0x2f6f53b16, 0x2f76f2011, 0x2f8b48b2c, 0x2f8d43545, 0x2f93b6716, 0x2f9d05fb8,
          0x2f9f44942, 0x2fab41bf6, 0x2fb7ad307, 0x2fd79dc79, 0x2fe24d4fc, 0x2fe812b70, 0x400d5ddf8, 0x400ef9aae, 0x401296363, 0x402138138,
          0x402ef00fd, 0x40307cd19, 0x40429729c, 0x4062cbc6e, 0x408b62aa7, 0x409fc24bc, 0x40a55cd45, 0x40a824337, 0x40b71c67d, 0x40c9c8403,
          0x40cd0ef5a, 0x40e28d03d, 0x40e618c1f, 0x40e6d1953, 0x40fc7b8f6, 0x410962f0c, 0x410bacb66, 0x413c0f393, 0x414d1a6f6, 0x415a92399,
          0x4165e1bde, 0x41795c937, 0x4189f5208, 0x41a899584, 0x41a9e34f6, 0x41b728b5f, 0x41cc83660, 0x41cf67abf, 0x41d4f1f50, 0x41d84f06b,
          0x41e05da4c, 0x41ee81941, 0x41f6ac3e0, 0x421783296, 0x421cd9738, 0x422099e7e, 0x422476792, 0x423539a77, 0x42361074a, 0x423f1b818,
          0x4253aab17, 0x425e6d0b1, 0x4261e0712, 0x426cebd7f, 0x4275284cb, 0x42774204f, 0x428aa9127, 0x42989bb2c, 0x4299ebfc0, 0x42a9b2fdc,
          0x42beeccc6, 0x42cf5ef1d, 0x42d2ff2f1, 0x42e7511c1, 0x42ff04f20, 0x43082b5cc, 0x4309b818a, 0x4309d5b72, 0x430bd1336, 0x431d254e0,
          0x431ffee0d, 0x433cb3079, 0x434ff13be, 0x4355e15fb, 0x43634a9a3, 0x436bfb6c1, 0x4371f307f, 0x439c905c8, 0x43a00b578, 0x43a0c5aff,
          0x43b0b1a98, 0x43b10a951, 0x43c210ca6, 0x43c8ad158, 0x43c902560, 0x43d84bd45, 0x43ed5577d, 0x43ed7f9d7, 0x43f634530, 0x440af586f,
          0x4415fb759, 0x44173f23d, 0x4427e7b0f, 0x442b1ef4d, 0x442dc5a12, 0x443dc5afa, 0x448599d3a, 0x4497cefd0, 0x449fa5fa8, 0x44a3a7031,
          0x44b423793, 0x44b6080d8, 0x44c9389c7, 0x44fd9b3a2, 0x451df327e, 0x4525f9ee6, 0x452dc850f, 0x4539b2bdb, 0x4553a370e, 0x4555b786f,
          0x45564ef6c, 0x455a02c41, 0x45701f57f, 0x457756197, 0x4590a1975, 0x45910d6d0, 0x4594f7990, 0x45b854e3e, 0x45bc02396, 0x45d2d35cf,
          0x45da811d6, 0x45e95dfcb, 0x45f902b2e, 0x45f96d562, 0x45fb83dd1, 0x464d7b1c1, 0x464e2899d, 0x46513bd16, 0x4680b974e, 0x46973dfa0,
          0x469dce9e8, 0x46a0fbbc8, 0x46b059d53, 0x46b31ba7f, 0x46b9ff723, 0x46e0541e9, 0x46e4fe80e, 0x46ea0aeb7, 0x46ef1c508, 0x46f62b033,
          0x474820a1b, 0x474d38d44, 0x4782e57b8, 0x478430b5f, 0x47e710f54, 0x47ec01ffa, 0x47ee96782, 0x47f0e4596, 0x4802b4e13, 0x4803b9122,
          0x482c86181, 0x485a50dd4, 0x487208d06, 0x488f08aba, 0x488f0bd99, 0x4891d8e90, 0x48953dea6, 0x48bd4a202, 0x48c2f9316, 0x48c804379,
          0x48ed470c5, 0x48fbe9773, 0x48fd1b4b2, 0x490b5f006, 0x490eb0a36, 0x492bb9de4, 0x497f150e0, 0x498e79f47, 0x499edc057, 0x49eb28ed7,
          0x49f888e83, 0x4a08fc93c, 0x4a15643c8, 0x4a3d20b6c, 0x4a42fadaf, 0x4a8c337d8, 0x4ab5352f9, 0x4acc0e0fc, 0x4ae4fda29, 0x4aeb4e751,
          0x4aed03405, 0x4af294bf1, 0x4b06ca1ed, 0x4b411c837, 0x4b4417eda, 0x4b4928060, 0x4b74714f8, 0x4b9b34cae, 0x4b9eb7af0, 0x4baec0cd7,
          0x4bd58f8bd, 0x4bf31a3f6, 0x4bf9f5029, 0x4bf9fa893, 0x4c138c77f, 0x4c178907f, 0x4c25dc4c1, 0x4c69cecdf, 0x4c811c461, 0x4c837b1c4,
          0x4c86dc945, 0x4c8c03266, 0x4c9d69ccd, 0x4cee0955a, 0x4d0af744b, 0x4d1437919, 0x4d1459bd2, 0x4d3b150a2, 0x4d43c457c, 0x4d6b5cf6e,
          0x4d6e97512, 0x4d75692fb, 0x4d83ebf62, 0x4d86b5125, 0x4de64ffc8, 0x4dfdd3620, 0x4e29cdd68, 0x4e319dee9, 0x4e6b9cda6, 0x4e785c061,
          0x4e7e7824d, 0x4e817bc61, 0x4e8ab0933, 0x4ea36f97e, 0x4ec31127b, 0x4ec33a8f2, 0x4ecbada7c, 0x4eff57acb, 0x4f1053383, 0x4f2ca0ea2,
          0x4f34c2384, 0x4f466c656, 0x4f9cab4d6, 0x4fab11ae0, 0x4fd92cb3b, 0x6017bd91a, 0x602b0fadd, 0x60473868c, 0x604e94ef0, 0x605670d90,
          0x60997a3e5, 0x612c2ab7f, 0x61312a5f0, 0x613574859, 0x614379cc4, 0x6155458c0, 0x61681dc62, 0x6179e639d, 0x617edf8c9, 0x6187e6109,
          0x61e8ee1d1, 0x622327347, 0x622abe9a2, 0x6262ad108, 0x6279305a9, 0x628354791, 0x62a61d18d, 0x62c4ac47c, 0x62c7c00d3, 0x62ce538c5,
          0x62d98e39e, 0x62df958bb, 0x62ec7a328, 0x631d704ab, 0x63290ba1f, 0x638bc2b4d, 0x63dd2df12, 0x63fa04bb7, 0x6408df57c, 0x644666e52,
          0x64b7c1e59, 0x64f5c2a8c, 0x65094ef3e, 0x650b92d0d, 0x65249a48d, 0x652503c81, 0x6526e15e9, 0x653bb7028, 0x655bd8674, 0x65b6d211b,
          0x66037d9f4, 0x66431f9ee, 0x668212bde, 0x66a0d1494, 0x66a8a5799, 0x66e7b8b10, 0x66f503543, 0x670d425d6, 0x672928149, 0x672a6fda4,
          0x6749b025a, 0x680a7135d, 0x6827398e3, 0x683af949f, 0x68993608c, 0x690364939, 0x69e27cf0a, 0x69e2d3bc4, 0x6a76aacaf, 0x6ad4d8a18,
          0x6b4908b17, 0x6b51dadda, 0x6b68226a7, 0x6b76bd330, 0x6bbcd9494, 0x6bfed8830, 0x6c14a121f, 0x6c16e4ddb, 0x6c1778ac2, 0x6c4a7b3bf,
          0x6c6bff78b, 0x6c711b4b6, 0x6c9bf7f65, 0x6cbddd9e2, 0x6d2b84ecd, 0x6deeacb66, 0x6e5dd8362, 0x6ef8c21eb, 0x6f0d91469, 0x6f38faf0b,
          0x6f5c2b5a8, 0x80084ab2e, 0x8008bf261, 0x8038319c8, 0x808783316, 0x80e154cae, 0x80e778b0e, 0x80eda25ab, 0x80fe83de3, 0x813a2a4e5,
          0x81790ae78, 0x819cf8cc3, 0x820d0e9b0, 0x826dea08b, 0x82b924f7f, 0x831ddb99a, 0x840dbddb7, 0x847f03153, 0x86f7c7847, 0x8707e6860,
          0x872386154, 0x883103ee6, 0x891aa1ed1, 0x891d72358, 0x8a37c82ef, 0x8a45f0991, 0x8af32417b, 0x8c1d511e4, 0x8d9f8660a, 0x8e8fb2a44,
          0x8eb49723a, 0x8f61168bf, 0x8fc979f8a, 0xa1604ced1, 0xa25fd8911, 0xa2d4d873f, 0xa541e9b8f, 0xa567c556c, 0xa5d723afb, 0xa62789347,
          0xa6da28101, 0xa70420ddd, 0xa96a58185, 0xc29b6716f, 0xc2b324e26, 0xc30ac29e5, 0xc421ec26f, 0xe312dfaf6, 0xe3f3f6424, 0xe72b76ac0]
