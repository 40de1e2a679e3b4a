// Generated by tools/mkpio2.py: values next to multiples of pi/2.
static const double g_pio2_f64[] = {
0x3243f6a8885a3p-47, 0x3243f6a8885a3p-46, 0x16c6cbc45dc8dep-47, 0xb6365e22ee46fp-46,
0x743d2a65bb509p-45, 0xb6365e22ee46fp-45, 0x9539c44454cbcp-44, 0x4a9ce2222a65ep-43,
0x254e71111532fp-42, 0xb6365e22ee46fp-44, 0xb6365e22ee46fp-43, 0xb6365e22ee46fp-42,
0x6dc2679a01bcfp-41, 0xb6365e22ee46fp-41, 0x91fc62de7801fp-40, 0xb6365e22ee46fp-40,
0xa4196080b3247p-39, 0xb6365e22ee46fp-39, 0xad27df51d0b5bp-38, 0xb6365e22ee46fp-38,
0xb1af1eba5f7e5p-37, 0x57b5bf830c0d0p-35, 0xb1af1eba5f7e5p-36, 0x167e57cdd4dc54p-37,
0x59f95f3753715p-35, 0xb3f2be6ea6e2ap-36, 0x59f95f3753715p-34, 0x139c6fd67805a7p-34,
0xc9e02e4f69e5ep-33, 0x139c6fd67805a7p-33, 0x6a6b731fe5b3cp-31, 0x3535b98ff2d9ep-30,
0x139c6fd67805a7p-32, 0xcf5b8a479aa6bp-31, 0x19eb7148f354d6p-32, 0xcf5b8a479aa6bp-30,
0xcf5b8a479aa6bp-29, 0x1b951f1572eba5p-29, 0x5115af73d92c2p-26, 0xa22b5ee7b2584p-27,
0x14456bdcf64b08p-28, 0x288ad7b9ec961p-25, 0x1b951f1572eba5p-28, 0x1b951f1572eba5p-27,
0x1b951f1572eba5p-26, 0xee9bbab58fccp-21, 0x1b951f1572eba5p-25, 0xf0ee64888da83p-24,
0x6431c66750891p-22, 0x1b951f1572eba5p-24, 0x55480abbf78c5p-21, 0x155202aefde314p-23,
0xaa901577ef18ap-22, 0x1b951f1572eba5p-23, 0x55480abbf78c5p-20, 0x55480abbf78c5p-19,
0xae4a8462c557dp-19, 0x15c9508c58aafap-20, 0xae4a8462c557dp-18, 0x67ce3a3ad4cp-9,
0x33e71d1d6a6p-8, 0x19f38e8eb53p-7, 0x9809e5f911e4fp-17, 0x1de5e5054e921bp-18,
0x4674cb621c15cp-15, 0x9809e5f911e4fp-16, 0x146546a5bd73ccp-17, 0x51951a96f5cf3p-15,
0xa32a352deb9e6p-16, 0x51951a96f5cf3p-14, 0x319926b7be6a5p-12, 0x10cd9664115bfp-10,
0xb4c7680672a3dp-13, 0x319926b7be6a5p-11, 0x1bb23eaa3db16dp-14, 0x832e414eb4398p-12,
0x419720a75a1ccp-11, 0x1065c829d6873p-9, 0x1065c829d68730p-13, 0x20cb9053ad0e6p-10,
0x1065c829d6873p-8, 0x1065c829d6873p-7, 0x83fdddc329e3p-6, 0x1065c829d6873p-6,
0x164ac3e719da9ap-5, 0xb2561f38ced4dp-4, 0x17512069b7430dp-5, 0x30aef9d8a9570p-2,
0x615df3b152aep1, 0x17512069b7430dp-4, 0x113b412ea2182dp-3, 0x17512069b7430dp-3,
0x144630cc2cad9dp-2, 0x144630cc2cad9dp-1, 0x15cba89af1f855p-1, 0x1508ecb38f52f9p0,
0x15cba89af1f855p0, 0x156a4aa740a5a7p1, 0x2a73375acff8ap5, 0xa9ccdd6b3fe28p3,
0x156a4aa740a5a7p2, 0xacd7cd08ca77fp3, 0x159af9a1194efep2, 0x101be3bbe6a693p4,
0x1ae9608c734e12p4, 0xd74b04639a709p5, 0xd74b04639a709p6, 0x7642500881367p7,
0x22defaed7a4cbp9, 0xe0625a6b8924p11, 0x1c3cfa4749cdd7p6, 0x7642500881367p8,
0x22defaed7a4cbp10, 0x29b1aa8d8374ep10, 0xa6c6aa360dd38p8, 0x5363551b06e9cp9,
0x14d8d546c1ba70p7, 0x14d8d546c1ba7p11, 0x14d8d546c1ba7p12, 0x14d8d546c1ba7p13,
0x17e4211ccfb65p16, 0xd3f9de2d3f6cfp13, 0x1a7f3bc5a7ed9ep12, 0x746959ba0093bp14,
0x17e4211ccfb65p17, 0xd3f9de2d3f6cfp14, 0xd3f9de2d3f6cfp15, 0x1782b7a20df6d4p15,
0xbc15bd106fb6ap16, 0x5e0ade8837db5p17, 0x3af77fd283c8dp18, 0x5e0ade8837db5p18,
0x4c812f2d5dd21p19, 0x5e0ade8837db5p19, 0x554606dacad6bp20, 0x5e0ade8837db5p20,
0x2cd43958c0ac8p22, 0x59a872b181590p21, 0x5e0ade8837db5p21, 0x5e0ade8837db5p22,
0x693fecde68067p24, 0xd27fd9bcd00cep23, 0x1308ab84507e83p23, 0x693fecde68067p25,
0xcce55291b7f75p25, 0x199caa5236feeap24, 0x4d894fdc07ff7p27, 0x9b129fb80ffeep26,
0xcce55291b7f75p26, 0xcce55291b7f75p27, 0x8d375136dffb6p28, 0xcce55291b7f75p28,
0x22701f65a4feap32, 0x11380fb2d27f5p33, 0x11380fb2d27f50p29, 0x44e03ecb49fd4p31,
0x89c07d9693fa8p30, 0x1e0664dbedfec5p29, 0x11380fb2d27f5p34, 0x1e0664dbedfec5p30,
0x1e0664dbedfec5p31, 0x1e0664dbedfec5p32, 0x1f19e5d71b26bap33, 0xf8cf2eb8d935dp34,
0x85039f35d5da9p35, 0xf8cf2eb8d935dp35, 0xbee966f757883p36, 0xf8cf2eb8d935dp36,
0x1b7b895b030bep40, 0xdbdc4ad8185fp41, 0x6dee256c0c2f8p38, 0x36f712b60617cp39,
0xf8cf2eb8d935dp37, 0x1d4ab7990f194dp37, 0x166bd5424e5655p38, 0x166bd5424e5655p39,
0x166bd5424e5655p40, 0x166bd5424e5655p41, 0xba3d8c693375ap42, 0x166bd5424e5655p42,
0x84cf46f825d54p44, 0x4267a37c12eaap45, 0x166bd5424e5655p43, 0xe1ee0d2cbf901p44,
0x1c3dc1a597f202p43, 0xe1ee0d2cbf901p45, 0xe1ee0d2cbf901p46, 0x51626099b6fcp52,
0x28b1304cdb7e0p49, 0x1e50fec1788957p46, 0x58dfbf288904bp49, 0xb1bf7e5112096p48,
0x1637efca22412cp47, 0x1e50fec1788957p47, 0x58dfbf288904bp50, 0x1e50fec1788957p48,
0x11ef7d5a008cd1p50, 0xbbebca6448e8ep51, 0x5df5e53224747p52, 0x5df5e53224747p53,
0x1dae3a00451b5fp51, 0x2f9db75a45a83p55, 0x19b729f0bd1ep60, 0x336e53e17a3cp59,
0x11c6cc29b3b153p53, 0x2f9db75a45a83p56, 0x11c6cc29b3b153p54, 0x1203d5f226fa9p58,
0x2f9db75a45a83p57, 0xeccf0b40f56d0p55, 0x1d99e1681eadap58, 0xeccf0b40f56dp59,
0x1d99e1681eada0p54, 0x3b33c2d03d5b4p57, 0x766785a07ab68p56, 0xeccf0b40f56dp60,
0x26f3af0299010p64, 0x1379d7814c808p65, 0x9bcebc0a6404p66, 0x5cb44eb94158dp63,
0xc8358e2692087p62, 0x19f380d013367bp61, 0x6b813f6d50afap63, 0x35c09fb6a857dp64,
0xd7027edaa15f4p62, 0x1ae04fdb542be8p61, 0x35c09fb6a857dp65, 0x35c09fb6a857dp66,
0x35c09fb6a857dp67, 0xcd459319fb1fp70, 0x35c09fb6a857dp68, 0xcd459319fb1fp71,
0x35c09fb6a857dp69, 0x51d88d0a114bcp69, 0x147623428452f0p67, 0xa3b11a1422978p68,
0x28ec468508a5ep70, 0x147623428452fp71, 0x147623428452fp72, 0x147623428452fp73,
0x147623428452fp74, 0x147623428452fp75, 0x29e07fc7253ap78, 0x53c0ff8e4a74p77,
0x147623428452fp76, 0xf3a13499fabb0p73, 0xf3a13499fabbp77, 0x1e7426933f576p76,
0x3ce84d267eaecp75, 0x79d09a4cfd5d8p74, 0x1e7426933f5760p72, 0xf3a13499fabbp78,
0xf3a13499fabbp79, 0x1504cac51f1eafp79, 0xafc35fcdc8cb5p80, 0x1504cac51f1eafp80,
0x80040307eead9p82, 0x10008060fdd5b2p81, 0x1504cac51f1eafp81, 0x1504cac51f1eafp82,
0x74142bd678262p84, 0xe82857acf04c4p83, 0x3a0a15eb3c131p85, 0x1504cac51f1eafp83,
0x393786e531cap90, 0x288b9aa40f6c7p87, 0x1504cac51f1eafp84, 0xfe62e803c8c9p89,
0x8b214b335aebfp86, 0x288b9aa40f6c7p88, 0x1504cac51f1eafp85, 0x18a56c23d2dfep89,
0x6295b08f4b7f8p87, 0x314ad847a5bfcp88, 0xc52b611e96ff0p86, 0xc52b611e96ffp90,
0xa741780d642e5p92, 0x14e82f01ac85cap91, 0x15ad5a62cb1cc9p91, 0x15ad5a62cb1cc9p92,
0x1010b8f1d0afd7p93, 0x15ad5a62cb1cc9p93, 0x12df09aa4de650p94, 0x25be13549bccap97,
0x4b7c26a937994p96, 0x15ad5a62cb1cc9p94, 0x15ad5a62cb1cc9p95, 0x1f1cdf37f20ff1p95,
0x1a651ccd5e965dp96, 0x1a651ccd5e965dp97, 0x64dcb0cae6dfep100, 0x326e5865736ffp101,
0xc9b96195cdbfcp99, 0x1a651ccd5e965dp98, 0x1b930d680374c2p98, 0xdc986b401ba61p99,
0xdc986b401ba61p100, 0xdc986b401ba61p101, 0x878361d2c78b0p102, 0x878361d2c78bp106,
0xdc986b401ba61p102, 0x878361d2c78bp107, 0xdc986b401ba61p103, 0x1205a1c297f6b9p103,
0xfe7943b4cd88dp104, 0x1205a1c297f6b9p104, 0x10f69afef267a3p105, 0x1205a1c297f6b9p105,
0x8bf0f30629797p107, 0x117e1e60c52f2ep106, 0x4a349491aaf91p108, 0x8bf0f30629797p108,
0x8bf0f30629797p109, 0x8bf0f30629797p110, 0x182f4a9d83d2c2p109, 0xc17a54ec1e961p110,
0x29ad68fe4901fp113, 0x535ad1fc9203ep112, 0xa6b5a3f92407cp111, 0x1682ff8e5429ddp111,
0x1682ff8e5429ddp112, 0x1682ff8e5429ddp113, 0xc8eeb0f1c5cfep114, 0x64775878e2e7fp115,
0x1682ff8e5429ddp114, 0x64775878e2e7fp116, 0x64775878e2e7fp117, 0x1cca7515e2585cp115,
0xe653a8af12c2ep116, 0x7329d45789617p117, 0x6f7d355fdfc31p119, 0x152243f1748e79p118,
0x1a7e91bb18556p122, 0x36d372f20579fp121, 0x6f7d355fdfc31p120, 0x1c54e136ed249p122,
0x38a9c26dda492p121, 0x1c54e136ed2490p118, 0x715384dbb4924p120, 0xe2a709b769248p119,
0x1c54e136ed249p123, 0x17d8eb8a79706p127, 0xbec75c53cb83p128, 0x1d28d5c4c5e73bp123,
0xf7711ec1a5cc2p124, 0x7bb88f60d2e61p125, 0x1d28d5c4c5e73bp124, 0xab6a6675c5c6dp126,
0x1d28d5c4c5e73bp125, 0x93917aeb4c567p127, 0x12722f5d698acep126, 0x93917aeb4c567p128,
0x4fbef85844875p129, 0x93917aeb4c567p129, 0x93917aeb4c567p130, 0x10539b48d14c55p130,
0x6632cbde1846fp132, 0xcc6597bc308dep131, 0x10539b48d14c55p131, 0x10539b48d14c55p132,
0xb5b6403596862p133, 0x5adb201acb431p134, 0x10539b48d14c55p133, 0xc10debf8e38ap138,
0x10539b48d14c55p134, 0xb00a6a53f0043p135, 0x42b9629baed1dp137, 0xb00a6a53f0043p136,
0x6d5107b841326p137, 0xdaa20f708264cp136, 0x36a883dc20993p138, 0x1b5441ee104c98p135,
0x36a883dc20993p140, 0xc252053255a65p140, 0x184a40a64ab4cap139, 0x1bb4c8e40cbe5dp139,
0x3e3ea2439d8fep142, 0xc252053255a65p141, 0x13ecf49b990c61p141, 0x10090a775f3363p142,
0x70b8ab2a12372p144, 0x10090a775f3363p143, 0x11faff897c1fe2p143, 0x8fd7fc4be0ff1p144,
0xaef74d6dafc7p148, 0x15dee9adb5f8ep147, 0x8fd7fc4be0ff1p145, 0x8fd7fc4be0ff1p146,
0xf3f2253c560c6p146, 0x79f9129e2b063p147, 0x1e7e44a78ac18cp145, 0x79f9129e2b063p148,
0x427443ba83015p149, 0x79f9129e2b063p149, 0x5e36ab2c5703cp150, 0x2f1b55962b81ep151,
0x178daacb15c0fp152, 0x79f9129e2b063p150, 0x79f9129e2b063p151, 0x79f9129e2b063p152,
0x615e38a965b4ep154, 0x30af1c54b2da7p155, 0x13cb583f0f66ffp153, 0x1b6ae968f21762p153,
0xdb574b4790bb1p154, 0xdb574b4790bb1p155, 0x860333ce21cacp156, 0xdb574b4790bb1p156,
0xdb574b4790bb1p157, 0x11e58e52ea1a07p157, 0x7e6c0c1d8c96ep159, 0xfcd8183b192dcp158,
0x3f36060ec64b7p160, 0x11e58e52ea1a07p158, 0x11e58e52ea1a07p159, 0x11e58e52ea1a07p160,
0xaec7759eb3f5fp161, 0xaec7759eb3f5fp162, 0xe6902d66aacb3p162, 0x1cd205acd55966p161,
0xcaabd182af609p163, 0x5e5cd1c858d5ap165, 0xcaabd182af609p164, 0x6c4effba568afp165,
0xd89dff74ad15ep164, 0x1b13bfee95a2bcp163, 0x26df5a27a0bd7p168, 0x4dbeb44f417aep167,
0x107cc6858d980bp166, 0x1741b6813300bap166, 0xba0db4099805dp167, 0xba0db4099805dp168,
0x707687189c61ap169, 0x383b438c4e30dp170, 0xba0db4099805dp169, 0x81d2707d49d5p174,
0x103a4e0fa93aap173, 0x20749c1f52754p172, 0xba0db4099805dp170, 0xba0db4099805dp171,
0x133322fd48b212p171, 0x999917ea45909p172, 0x999917ea45909p173, 0x999917ea45909p174,
0x50db1f790d16fp175, 0x999917ea45909p175, 0x999917ea45909p176, 0x999917ea45909p177,
0x1a86c4b863474ep176, 0xd43625c31a3a7p177, 0xb6e79ed6afe58p178, 0xd43625c31a3a7p178,
0xd43625c31a3a7p179, 0x12fa9f52e722d3p179, 0x101f00d78c633dp180, 0x12fa9f52e722d3p180,
0x118cd01539c308p181, 0x2319a02a73861p184, 0x8c6680a9ce184p182, 0x46334054e70c2p183,
0x12fa9f52e722d3p181, 0x2319a02a73861p185, 0x1bc1075d840457p182, 0x2319a02a73861p186,
0x1bc1075d840457p183, 0x2319a02a73861p187, 0x3be542c056797p187, 0x77ca8580acf2ep186,
0xef950b0159e5cp185, 0x1df2a1602b3cb8p184, 0x8f8a3e3b5f72cp189, 0x11f147c76bee58p188,
0x15af9bf37155efp188, 0x15af9bf37155efp189, 0x15af9bf37155efp190, 0x1a2bede54c5185p190,
0x17edc4ec5ed3bap191, 0xbf6e2762f69ddp192, 0x1a2bede54c5185p191, 0x71a85b78e73d4p193,
0x1a2bede54c5185p192, 0x1311682dbdddb1p193, 0x1311682dbdddb1p194, 0x169eab0985179bp194,
0xa6c04cdd0bd53p196, 0x14d8099ba17aa6p195, 0x169eab0985179bp195, 0x18654c7768b49p199,
0x169eab0985179bp196, 0x18654c7768b49p200, 0x108557ebaaea77p197, 0x169eab0985179bp197,
0x1392017a980109p198, 0x169eab0985179bp198, 0x151856420e8c52p199, 0xa8c2b21074629p200,
0x10956b15462ee2p201, 0x84ab58aa31771p202, 0x1b2196364d750bp201, 0x1b2196364d750bp202,
0x11b625e078463ep203, 0x8db12f03c231fp204, 0x1b2196364d750bp203, 0x491a0d184547bp206,
0x56a2ce9e9e60p210, 0x1b2196364d750bp204, 0x11fe549344cc15p205, 0x491a0d184547bp207,
0x1b2196364d750bp205, 0x1bfa224eb3069p209, 0x491a0d184547bp208, 0x2d1feac992412p209,
0x168ff564c9209p210, 0x5a3fd59324824p208, 0x168ff564c92090p206, 0xb47fab2649048p207,
0x168ff564c9209p211, 0x168ff564c9209p212, 0x5aed1b3061bfp217, 0xb5da3660c37ep216,
0x2d768d9830df8p214, 0xcc6a2bc58c9e9p212, 0x198d4578b193d2p211, 0xcc6a2bc58c9e9p213,
0x9ef39e2d5bbf1p214, 0x13de73c5ab77e2p213, 0xb5aee4f9742edp215, 0x154a28326cfedep215,
0xaa51419367f6fp216, 0xa4a26fe061dbp221, 0xaa51419367f6fp217, 0xa4a26fe061dbp222,
0x8128a59b4f803p219, 0x102514b369f006p218, 0x1aca28cca06f75p218, 0x95bcf3975bbb9p220,
0x1aca28cca06f75p219, 0x8b72cc99559dep221, 0x116e59932ab3bcp220, 0x45b9664caacefp222,
0x2801c6a558765p223, 0x45b9664caacefp223, 0x45b9664caacefp224, 0x10809c95f020f7p224,
0xa6e197d5d66f3p225, 0x10809c95f020f7p225, 0xd775b09a6c3f5p226, 0x10809c95f020f7p226,
0xefbfbcfcb7276p227, 0x10809c95f020f7p227, 0x4814f570533dep229, 0x240a7ab8299efp230,
0x10809c95f020f7p228, 0xbff4d3eeaed19p229, 0x17fe9a7dd5da32p228, 0xbff4d3eeaed19p230,
0x1c7fe9d4db0e1p233, 0x38ffd3a9b61c2p232, 0x131f47b421b09dp231, 0x1f1e94f30c9db6p231,
0xf8f4a79864edbp232, 0xf8f4a79864edbp233, 0x8aba48b69ffdep234, 0xf8f4a79864edbp234,
0x59cbc19e8a776p236, 0xf8f4a79864edbp235, 0x13e51cbf3b4ecap235, 0x9f28e5f9da765p236,
0x9f28e5f9da765p237, 0x660763648fd90p238, 0xcc0ec6c91fb2p241, 0x660763648fd9p242,
0x16b37acc2fa285p237, 0x10530495e6a4f5p238, 0x10530495e6a4f5p239, 0x13833fb10b23bdp239,
0x11eb222378e459p240, 0x13833fb10b23bdp240, 0x12b730ea42040bp241, 0x12b730ea42040bp242,
0x98e9c26d349f2p243, 0x4c74e1369a4f9p244, 0x1c45cd11154dfdp243, 0x1c45cd11154dfdp244,
0x10868d923f797bp245, 0x1c45cd11154dfdp245, 0x5998b546a98efp248, 0xb3316a8d531dep247,
0x16662d51aa63bcp246, 0x1c45cd11154dfdp246, 0x16f25627ab066p251, 0x2de4ac4f560ccp250,
0x1c45cd11154dfdp247, 0xb5620de555a87p249, 0x1c45cd11154dfdp248, 0x877d6195ff9bbp250,
0x10efac32bff376p249, 0x877d6195ff9bbp251, 0x877d6195ff9bbp252, 0x11a73ee3fd4ba9p252,
0x497b4654ea8f7p254, 0x687c53f575159p254, 0xd0f8a7eaea2b2p253, 0xb1f79a4a5fa5p258,
0x687c53f575159p255, 0x1eb6c962abee5bp253, 0xb1f79a4a5fa5p259, 0x687c53f575159p256,
0x94fa3a880cfedp256, 0x129f4751019fdap255, 0xb1f79a4a5fa5p260, 0xb1f79a4a5fa5p261,
0x44ed6071b3824p259, 0x113b581c6ce09p261, 0x113b581c6ce090p257, 0x2276b038d9c12p260,
0x89dac0e367048p258, 0x1a8afbc4edb07dp257, 0x113b581c6ce09p262, 0x1331e42c3c457p266,
0x144599ae031379p262, 0xaaca797e4f0c1p263, 0x1331e42c3c457p267, 0x144599ae031379p263,
0xf7920a2f4021dp264, 0x144599ae031379p264, 0x11df5d287b8acbp265, 0x144599ae031379p265,
0x9893db59fa791p267, 0x13127b6b3f4f22p266, 0x9893db59fa791p268, 0x9893db59fa791p269,
0x1870a967710516p268, 0xc3854b3b8828bp269, 0x570649a560a87p271, 0xc3854b3b8828bp270,
0x570649a560a87p272, 0x17191de8649799p270, 0x11a8b94e0e8d12p271, 0x8d45ca7074689p272,
0x3913050575444p274, 0xff6bd47b5ef11p273, 0x18cb19eebd359ap273, 0xc658cf75e9acdp274,
0xc658cf75e9acdp275, 0x5c0a071a462dep277, 0x2e05038d2316fp278, 0xc658cf75e9acdp276,
0x6a4ec85ba37efp277, 0xd49d90b746fdep276, 0x1a93b216e8dfbcp275, 0x7893899d00dp285,
0xf127133a01ap284, 0x6a4ec85ba37efp278, 0x4c29e5f4634afp279, 0x6a4ec85ba37efp279,
0x5b3c57280364fp280, 0x6a4ec85ba37efp280, 0xcd14581d76f0ep281, 0x1376320791a6fdp281,
0x686c7a352f7bbp283, 0x1376320791a6fdp282, 0x677b5321f57a1p284, 0xcef6a643eaf42p283,
0x19ded4c87d5e84p282, 0x677b5321f57a1p285, 0x33f9f355c93d7p286, 0x677b5321f57a1p286,
0x677b5321f57a1p287, 0x677b5321f57a1p288, 0x11cb1497fca4fep287, 0x8e58a4bfe527fp288,
0x8e58a4bfe527fp289, 0x8e58a4bfe527fp290, 0xcbcda2b85bd07p290, 0x1979b4570b7a0ep289,
0xad1323bc207c3p291, 0xcbcda2b85bd07p291, 0xbc70633a3e265p292, 0xcbcda2b85bd07p292,
0x620f817ca67dbp294, 0xcbcda2b85bd07p293, 0x620f817ca67dbp295, 0x18feca5b1a8cbdp293,
0x96ee921a81271p295, 0x12ddd2435024e2p294, 0x3e3f84e5c9e93p297, 0x7c7f09cb93d26p296,
0x96ee921a81271p296, 0x96ee921a81271p297, 0x96ee921a81271p298, 0x30d1862d37318p300,
0x96ee921a81271p299, 0x198742fb527d64p298, 0x661d0bed49f59p300, 0xcc3a17da93eb2p299,
0xe4a2daf12f83ep301, 0x72516d7897c1fp302, 0x14abfe6de79797p301, 0x1b0dcf2cbc36fp305,
0x6c373cb2f0dbcp303, 0x14abfe6de79797p302, 0x1b0dcf2cbc36fp306, 0xde88aa2b889dbp303,
0xde88aa2b889dbp304, 0x114a44885010b9p304, 0x7ccb3cac226a5p306, 0xf996795844d4ap305,
0x25f642f637a85p308, 0x25f642f637a85p309, 0xc8b7c29891bafp307, 0x14582ff44b4254p307,
0x5160bfd12d095p309, 0xa2c17fa25a12ap308, 0x3bab8163b258dp310, 0x5160bfd12d095p310,
0x5160bfd12d095p311, 0x4eaa18037db34p313, 0x18c091fdf23d65p311, 0xeeb4efd8286fdp312,
0x13aa8600df6cdp316, 0x18c091fdf23d65p312, 0x13d5f07dba6231p313, 0x13d5f07dba6231p314,
0x164b413dd64fcbp314, 0xa884c6ee42c7fp316, 0x151098ddc858fep315, 0x164b413dd64fcbp315,
0x215b2c9e53fdp323, 0xa884c6ee42c7fp317, 0x1069c6d65d3e25p317, 0x215b2c9e53fdp324,
0x6bc84d1505aa9p319, 0xd7909a2a0b552p318, 0x26b50814338dfp321, 0x1de2d078fdf377p318,
0x26b50814338dfp322, 0xb9325d3d6cc67p320, 0x1de2d078fdf377p319, 0x124faaa527271p324,
0x927d552939388p321, 0x124faaa5272710p320, 0x249f554a4e4e2p323, 0x493eaa949c9c4p322,
0xa32aeb786337p325, 0x124faaa527271p325, 0x124faaa527271p326, 0x124faaa527271p327,
0xe9fd2c6c2c82p330, 0x10e9c81b67ad02p326, 0x874e40db3d681p327, 0x874e40db3d681p328,
0x874e40db3d681p329, 0x78ae6e147a9ffp330, 0x1e2b9b851ea7fcp328, 0xf15cdc28f53fep329,
0x3fff2bbbee02p336, 0x1fff95ddf7010p333, 0x3fff2bbbee020p332, 0x7ffe5777dc04p335,
0xf8acc58c56a3fp331, 0x1715b33a0d143ep331, 0xb8ad99d068a1fp332, 0xb8ad99d068a1fp333,
0xc8ad64bf64227p334, 0xc0ad7f47e6623p335, 0x1815afe8fccc46p334, 0xc0ad7f47e6623p336,
0xc0ad7f47e6623p337, 0x6156bc52e2e92p338, 0x30ab5e2971749p339, 0x1835af7edac347p337,
0x122043b9ac94b5p338, 0x3c56375c55f5bp341, 0x122043b9ac94b5p339, 0x3c56375c55f5bp342,
0x122043b9ac94b5p340, 0x72d7021f39aadp342, 0x1cb5c087ce6ab4p340, 0xe5ae043e7355ap341,
0x15e5a72f71f41p345, 0x72d7021f39aadp343, 0x15e5a72f71f41p346, 0x9ea2507e1d92fp344,
0x1b01ba31b74d0bp343, 0x445e54a755cf7p346, 0x11179529d573dcp344, 0x88bca94eab9eep345,
0x13e9b5088bb1f8p347, 0x9f4da8445d8fcp348, 0x182f9a53010eefp347, 0x27d36a111763fp351,
0x182f9a53010eefp348, 0x182f9a53010eefp349, 0x1d2a079523fb6dp349, 0x2b64c763df316p353,
0x15b263b1ef98bp354, 0xd56687a094297p351, 0x1aacd0f412852ep350, 0x1d2a079523fb6dp350,
0xd56687a094297p352, 0x15403807969f02p352, 0xaa01c03cb4f81p353, 0xaa01c03cb4f81p354,
0xaa01c03cb4f81p355, 0x109dbd23407407p355, 0x109dbd23407407p356, 0x1e3ca9b6c655cbp356,
0x176d336d0364e9p357, 0x1e3ca9b6c655cbp357, 0xd6a7748f26eadp359, 0x1ad4ee91e4dd5ap358,
0x1e3ca9b6c655cbp358, 0x8691936e9f38fp360, 0x2f43516f2db00p362, 0x1e3ca9b6c655cbp359,
0x8691936e9f38fp361, 0xae9c83fee311ep361, 0x574e41ff7188fp362, 0x15d3907fdc623cp360,
0x574e41ff7188fp363, 0x5d36ac2d573efp365, 0xba6d585aae7dep364, 0x1cc28f2b4ce84bp363,
0x111bb9a5a2006dp364, 0x111bb9a5a2006dp365, 0x5bbc91a1ddd17p367, 0xb7792343bba2ep366,
0x1c934bd9ddba9bp366, 0xb6bc15fdfeec2p368, 0x1c934bd9ddba9bp367, 0x11278a79fdcbd9p368,
0x2dc6a7283751ep371, 0x5b8d4e506ea3cp370, 0x16e353941ba8fp372, 0x11278a79fdcbd9p369,
0x16dd6b29edc33ap369, 0xb6eb594f6e19dp370, 0xb6eb594f6e19dp371, 0x72415e931b1fp376,
0xb6eb594f6e19dp372, 0x66e75671c4e16p373, 0x72415e931b1fp377, 0xb6eb594f6e19dp373,
0x41bbd70b45d49p375, 0xea5f0488508a8p374, 0x752f824428454p375, 0x3a97c1221422ap376,
0x1d4be0910a115p377, 0x1a14a5dd7bea45p374, 0x183fe7d46b493p381, 0x307fcfa8d6926p380,
0x7e4b7fe2b7361p379, 0x119e2e056787d7p378, 0x9b976073c1476p379, 0x1372ec0e7828ecp378,
0x4dcbb039e0a3bp380, 0x4dcbb039e0a3bp381, 0x3305cc0725f67p382, 0x4dcbb039e0a3bp382,
0x471a372d31f86p384, 0xdc001e9444947p383, 0x129cbcece25382p383, 0x94e5e767129c1p384,
0xb87302fdab984p385, 0x14d58ea64be345p385, 0x14d58ea64be345p386, 0x1a9926be394007p386,
0x17b75ab24291a6p387, 0xbdbad592148d3p388, 0x1a9926be394007p387, 0x75ebcb28bfb9ap389,
0x1a9926be394007p388, 0x133a6a0bad446dp389, 0x3e2c2ec99d1a8p392, 0xf8b0bb26746ap394,
0x7c585d933a350p391, 0x133a6a0bad446dp390, 0xb74e43279a11dp391, 0x16e9c864f3423ap390,
0xb74e43279a11dp392, 0xd6645a8c689f1p393, 0x18db29db402b0ep393, 0xc6d94eda01587p394,
0xc6d94eda01587p395, 0x33a7b52ccd3efp397, 0x674f6a599a7dep396, 0x19578238d36543p395,
0x24cc666b4d066p399, 0x12e28b9339bd65p396, 0x12e28b9339bd65p397, 0x58741b981a455p399,
0xb0e83730348aap398, 0x58741b981a455p400, 0x1df10f063d060fp398, 0x58741b981a455p401,
0x11bc285fdf5532p400, 0x8de142fefaa99p401, 0x732aaf4b8a777p402, 0x8de142fefaa99p402,
0x4042fc92a1484p404, 0x20217e4950a42p405, 0x10e673c243d3a1p403, 0xce243f919bf1dp404,
0x19c487f2337e3ap403, 0xce243f919bf1dp405, 0xce243f919bf1dp406, 0x1ac593e47e035bp406,
0x9e9f5f765f09ep408, 0x4f4fafbb2f84fp409, 0x13d3ebeecbe13cp407, 0x1ac593e47e035bp407,
0x4f4fafbb2f84fp410, 0x1ac593e47e035bp408, 0xfdd4770187dd5p410, 0x1fba8ee030fbaap409,
0xa692135e5bb12p411, 0x534909af2dd89p412, 0x1453172d4babbp415, 0x534909af2dd89p413,
0x1a4668a5fe38e7p411, 0x1453172d4babbp416, 0x534909af2dd89p414, 0x1f7af940f1167p416,
0x1f7af940f11670p412, 0xfbd7ca0788b38p413, 0x3ef5f281e22cep415, 0x7debe503c459cp414,
0x19e708371e611p417, 0x1f7af940f1167p417, 0x26a7396ff3056p420, 0x6cc96c20d7213p419,
0xf90dd1829f58dp418, 0x11888cac3906f4p418, 0x8c446561c837ap419, 0x462232b0e41bdp420,
0x462232b0e41bdp421, 0x462232b0e41bdp422, 0x462232b0e41bdp423, 0x5c7fa68b1b837p423,
0x171fe9a2c6e0dcp421, 0xb8ff4d163706ep422, 0x5150ec9dffcfap424, 0x5c7fa68b1b837p424,
0x42940e6d0db5ap426, 0xe1a7c36536eebp425, 0x9f13b4f829391p426, 0x13e2769f052722p425,
0x1f726b7068979p429, 0x9f13b4f829391p427, 0x1f726b7068979p430, 0x9f13b4f829391p428,
0xf7e423f70836p432, 0x7bf211fb841bp433, 0x1f726b7068979p431, 0x7fa14987c0a18p429,
0xff42930f8143p432, 0x1fe85261f02860p427, 0x1fe85261f0286p431, 0x3fd0a4c3e050cp430,
0xff42930f81430p428, 0xff42930f8143p433, 0x11b106168d1822p434, 0x12b048a99c9965p434,
0x4ebe2cf2b06aap436, 0x275f167958355p437, 0x12b048a99c9965p435, 0x1b88cbb4e32576p435,
0xdc465da7192bbp436, 0xdc465da7192bbp437, 0x40e95d081c584p439, 0x81d2ba1038b08p438,
0xdc465da7192bbp438, 0xdc465da7192bbp439, 0xdc465da7192bbp440, 0x2ae5d5f840fa6p443,
0x66060332890adp442, 0xdc465da7192bbp441, 0x3b202d3a48107p443, 0x76405a749020ep442,
0x1d90169d240838p440, 0xec80b4e92041cp441, 0x3b202d3a48107p444, 0x17833fa59d0dfdp444,
0xd9aa13ca0c782p445, 0x6cd509e5063c1p446, 0x17833fa59d0dfdp445, 0x6cd509e5063c1p447,
0x1e509043ed71bep446, 0xf284821f6b8dfp447, 0x57d663011c728p449, 0x2beb31808e394p450,
0xf284821f6b8dfp448, 0x1a2314821a472fp448, 0x14a5ae52088007p449, 0x14a5ae52088007p450,
0x14a5ae52088007p451, 0x160507de0cf1d1p451, 0x55556c602ae3bp454, 0x15555b180ab8ecp452,
0xaaaad8c055c76p453, 0x160507de0cf1d1p452, 0x55556c602ae3bp455, 0x160507de0cf1d1p453,
0x55556c602ae3bp456, 0xdad2f5207d006p455, 0x1b5a5ea40fa00cp454, 0x6d697a903e803p456,
0x615f737834b1fp457, 0x6d697a903e803p457, 0x35337c651e065p460, 0xd4cdf19478194p458,
0x142376c24b6997p458, 0x35337c651e065p461, 0x142376c24b6997p459, 0x35337c651e065p462,
0x1ac9e64eef2a61p459, 0xbbb57444ea4fep461, 0x5ddaba227527fp462, 0x1776ae889d49fcp460,
0x49871b43c9972p463, 0x5ddaba227527fp463, 0x1053c8f88b3e7p467, 0x20a791f1167cep466,
0x9f29de04a221bp465, 0x19c2e762bb96b5p464, 0xfd0498271749ap465, 0x7e824c138ba4dp466,
0x1fa09304e2e934p464, 0x7e824c138ba4dp467, 0x476b0a860b71ap468, 0x7e824c138ba4dp468,
0x16b331b4217bp475, 0x7e824c138ba4dp469, 0x16b331b4217bp476, 0x120ba1d6a1d027p469,
0x16b331b4217bp477, 0xcf9e34bed453ap470, 0x67cf1a5f6a29dp471, 0x1f0585228f1561p470,
0xc4449be4c3962p472, 0x1f0585228f1561p471, 0x12c13b6442dbffp472, 0x64f8b428e5fa7p474,
0x12c13b6442dbffp473, 0x18e3604368f8bp477, 0xc71b021b47c58p474, 0x31c6c086d1f16p476,
0x638d810da3e2cp475, 0x18e3604368f8b0p473, 0xd2749af55883p478, 0x18e3604368f8bp478,
0x18e3604368f8bp479, 0x18e3604368f8bp480, 0x92653bef70f8p484, 0x49329df7b87cp485,
0x24994efbdc3ep486, 0x156913865b3e16p479, 0xab489c32d9f0bp480, 0x86af4d36fdb2bp482,
0x10d5e9a6dfb656p481, 0x1b8a736a0d5561p481, 0x98fbf4b4ebd1bp483, 0x1b8a736a0d5561p482,
0x11fab41ebe9846p483, 0x8fd5a0f5f4c23p484, 0x8fd5a0f5f4c23p485, 0x8fd5a0f5f4c23p486,
0x23ac359f85781p489, 0x8fd5a0f5f4c23p487, 0x23ac359f85781p490, 0x8fd5a0f5f4c23p488,
0x1b0a5ad59bd288p487, 0xd852d6acde944p488, 0x6c296b566f4a2p489, 0x3614b5ab37a51p490,
0x3614b5ab37a51p491, 0x3614b5ab37a51p492, 0x13b4801fd74c7ep491, 0x9da400feba63fp492,
0x69dc5b54f9048p493, 0x9da400feba63fp493, 0x9da400feba63fp494, 0x9da400feba63fp495,
0xb81b17d3f8a51p495, 0x170362fa7f14a2p494, 0x556fc634acc24p497, 0x155bf18d2b309p499,
0xb81b17d3f8a51p496, 0x155bf18d2b309p500, 0x162faa43d52299p496, 0x10d8ade08a5675p497,
0x10d8ade08a5675p498, 0x13842c122fbc87p498, 0x917367cae84bfp500, 0x122e6cf95d097ep499,
0x29b3d65604df2p502, 0xe4db1476f20a3p501, 0x1764e7c41da562p501, 0xbb273e20ed2b1p502,
0xbb273e20ed2b1p503, 0x18b28676cdcc5bp503, 0x12327d2c6e4f86p504, 0x9193e963727c3p505,
0x18b28676cdcc5bp504, 0x1f328fc12d493p508, 0x18b28676cdcc5bp505, 0x1f328fc12d493p509,
0x10e5e286827a0fp506, 0x18b28676cdcc5bp506, 0x1f328fc12d493p510, 0x14cc347ea82335p507,
0x18b28676cdcc5bp507, 0x1f328fc12d493p511, 0xb5faebd5d7be4p509, 0x16bf5d7abaf7c8p508,
0x5afd75eaebdf2p510, 0x2d7ebaf575ef9p511, 0x2658a55b519c6p512, 0x132c52ada8ce3p513,
0x2d7ebaf575ef9p512, 0x2d7ebaf575ef9p513, 0x98a6f449297e2p515, 0x15ecca387c8ebdp514,
0xc625af3e9f6dbp515, 0x18c4b5e7d3edb6p514, 0xc625af3e9f6dbp516, 0x893c94b19a166p517,
0x449e4a58cd0b3p518, 0x1d89ed8a1d39a7p516, 0x14f6243f039841p517, 0x14f6243f039841p518,
0xca0047248347ap519, 0x6500239241a3dp520, 0x14f6243f039841p519, 0x6500239241a3dp521,
0xda3133c13d93fp521, 0x1b46267827b27ep520, 0x9f98aba9bf9bep522, 0xda3133c13d93fp522,
0x45326ef62ee3p528, 0x45326ef62ee30p524, 0x8a64ddec5dc6p527, 0x114c9bbd8bb8cp526,
0xda3133c13d93fp523, 0x94fec4cb0eb0fp524, 0x129fd89961d61ep523, 0xb797fc4626227p525,
0x14c96c11134d36p525, 0xa64b60889a69bp526, 0xa64b60889a69bp527, 0xa64b60889a69bp528,
0x554f43bbfeabfp529, 0xa64b60889a69bp529, 0x7dcd52224c8adp530, 0xa64b60889a69bp530,
0x920c5955737a4p531, 0xa64b60889a69bp531, 0xe30876220f38p535, 0xa64b60889a69bp532,
0x40e425199ec59p534, 0xa64b60889a69bp533, 0x32b39db77dd21p535, 0x1959cedbbee908p532,
0x65673b6efba42p534, 0xcace76ddf7484p533, 0x3479aea3c1f08p538, 0x68f35d4783e10p537,
0x68f35d4783e1p541, 0xd1e6ba8f07c2p540, 0x1049a584685941p536, 0x1374df5fe03662p536,
0x9ba6faff01b31p537, 0x9ba6faff01b31p538, 0xb5e3d250e2ab5p539, 0xa8c566a7f22f3p540,
0x1518acd4fe45e6p539, 0xa8c566a7f22f3p541, 0x2bd5271f1a9b5p543, 0x57aa4e3e3536ap542,
0xa8c566a7f22f3p542, 0xa8c566a7f22f3p543, 0x1a9351b8e1995p546, 0xa8c566a7f22f3p544,
0x1a9351b8e1995p547, 0x11312ad8b78947p544, 0x11312ad8b78947p545, 0x7c3fade94b7d9p547,
0xf87f5bd296fb2p546, 0x1f0feb7a52df64p545, 0x4b697fd1168b7p548, 0x7c3fade94b7d9p548,
0x15c53f2afc7ffap549, 0xae29f957e3ffdp550, 0x1d893a099137d3p549, 0x1bf146c369574p554,
0x1d893a099137d3p550, 0x445d206278cf1p553, 0x9534d3a097bebp552, 0xa1af667c3ddf4p552,
0x50d7b33e1eefap553, 0x1435eccf87bbe8p551, 0x286bd99f0f77dp554, 0x1d893a099137d3p551,
0x803fde8e08bd4p556, 0x200ff7a3822f5p558, 0x401fef47045eap557, 0x128eb96bb20f25p555,
0x15157705a306a2p555, 0xa8abb82d18351p556, 0xa8abb82d18351p557, 0x2226f02265817p560,
0xa8abb82d18351p558, 0x2226f02265817p561, 0xa8abb82d18351p559, 0x10d09901565674p559,
0x434264055959dp561, 0x8684c80ab2b3ap560, 0x434264055959dp562, 0x183009e2e9e2ebp562,
0xe3218119fbc44p563, 0x7190c08cfde22p564, 0x38c860467ef11p565, 0x183009e2e9e2ebp563,
0x183009e2e9e2ebp564, 0x183009e2e9e2ebp565, 0xdde47f3a8e8fep566, 0xa7ba9fe3c639p571,
0x183009e2e9e2ebp566, 0x8a072f48ab736p568, 0xa7ba9fe3c639p572, 0x183009e2e9e2ebp567,
0xf8f96ee5f2bb5p568, 0x1f1f2ddcbe576ap567, 0xa7ba9fe3c639p573, 0x59faeba0ce80dp570,
0xf8f96ee5f2bb5p569, 0x13dfd068a4875p573, 0x4f7f41a2921d4p571, 0x9efe8345243a8p570,
0x13dfd068a48750p569, 0x27bfa0d1490eap572, 0x13dfd068a4875p577, 0x4462d4a0f2d52p576,
0x22316a50796a9p577, 0x88c5a941e5aa4p575, 0x1118b5283cb548p574, 0x1256b22ec6fdbdp574,
0x22316a50796a9p578, 0x1ae30cc2e55861p575, 0x22316a50796a9p579, 0x1f293a0cf485b3p576,
0x10a62858fe0e2ep578, 0x853142c7f0717p579, 0x853142c7f0717p580, 0x853142c7f0717p581,
0x15e13dc1c15d0ep580, 0xaf09ee0e0ae87p581, 0xaf09ee0e0ae87p582, 0x1f8317487137ddp582,
0xa493c33c844abp584, 0x1539db14a8f332p583, 0xa9ced8a547999p584, 0x1f8317487137ddp583,
0x5398a6f872f91p586, 0xa9ced8a547999p585, 0x5398a6f872f91p587, 0x1510026962d8bbp585,
0xfd677f9dba92ap586, 0x7eb3bfcedd495p587, 0x7eb3bfcedd495p588, 0x39f67ccca15aap590,
0x1668db30162b3dp588, 0xf2a0b9681ffe9p589, 0x1668db30162b3dp589, 0xc37102d11938p594,
0x12c973634c1593p590, 0x35695ec073d45p593, 0x87cdfbe73855fp592, 0x12c973634c1593p591,
0x14992749b12068p591, 0x52649d26c481ap593, 0x29324e936240dp594, 0xa4c93a4d89034p592,
0x1a21299d85f51ep595, 0xd1094cec2fa8fp596, 0x1cb44e86bc192bp595, 0x7d1dcdbfc8f4ep597,
0x3e8ee6dfe47a7p598, 0x1cb44e86bc192bp596, 0x249e998312cbap600, 0x14e271aabf89ddp597,
0x87cc19e60a11bp599, 0x14e271aabf89ddp598, 0xc65b00c5ee8c2p599, 0x632d8062f7461p600,
0x3abe66924055fp602, 0x13436cd4f26efp604, 0xd8aa4d8777f1fp601, 0x3abe66924055fp603,
0x1fd9f922059ep608, 0x4754f2df5385p607, 0x964ae659ef53p606, 0x13436cd4f26efp605,
0x4ef5f37a9bce0p603, 0x13bd7cdea6f380p601, 0x277af9bd4de7p608, 0x277af9bd4de70p604,
0x4ef5f37a9bcep607, 0x9debe6f5379c0p602, 0x9debe6f5379cp606, 0x13bd7cdea6f38p605,
0x277af9bd4de7p609, 0x141c5fceb2921dp609, 0xa21ed6437f002p610, 0x510f6b21bf801p611,
0x141c5fceb2921dp610, 0x3c2da4725a687p613, 0x141c5fceb2921dp611, 0xc96ab4067450fp612,
0x3c2da4725a687p614, 0x141c5fceb2921dp612, 0x82cc2c3c675cbp614, 0x105985878ceb96p613,
0x82cc2c3c675cbp615, 0x82cc2c3c675cbp616, 0x1e7e16d0c96f8ap615, 0xf3f0b6864b7c5p616,
0x176bce2c2b2d9p620, 0xf3f0b6864b7c5p617, 0x176bce2c2b2d9p621, 0x1af4f27e7a4e8dp617,
0x1519fef36f8329p618, 0x176bce2c2b2d9p622, 0x1af4f27e7a4e8dp618, 0x180778b8f4e8dbp619,
0x1af4f27e7a4e8dp619, 0x65f8d66ede6edp622, 0x197e359bb79bb4p620, 0xcbf1acddbcddap621,
0x3eb2524d84ce3p623, 0x65f8d66ede6edp623, 0x65f8d66ede6edp624, 0x65f8d66ede6edp625,
0x11e47413bee7c2p624, 0x8f23a09df73e1p625, 0x84d8ee12310a4p627, 0x109b1dc2462148p626,
0x198d57cc259529p626, 0x198d57cc259529p627, 0x198d57cc259529p628, 0x1db41f3cb71d7bp628,
0x2ef3e827b9a2p636, 0xdd05dc2372ca9p630, 0x1ba0bb846e5952p629, 0x1db41f3cb71d7bp629,
0x1db41f3cb71d7bp630, 0x15c23e7f772512p631, 0xae11f3fbb9289p632, 0x1db41f3cb71d7bp631,
0x1db41f3cb71d7bp632, 0x9697ffe7dc579p634, 0xa254f9f1cac01p634, 0x144a9f3e395802p633,
0x1db41f3cb71d7bp633, 0xa254f9f1cac01p635, 0x13ecb76de9e4bep635, 0x9f65bb6f4f25fp636,
0x9f65bb6f4f25fp637, 0x9f65bb6f4f25fp638, 0x1dfa8d18f2b3eep637, 0xefd468c7959f7p638,
0xc79d121b7262bp639, 0xefd468c7959f7p639, 0xdbb8bd7184011p640, 0xefd468c7959f7p640,
0xe5c6931c8cd04p641, 0x72e3498e46682p642, 0xefd468c7959f7p641, 0x10dfde9c8b00dp645,
0xefd468c7959f7p642, 0x10dfde9c8b00dp646, 0x5b3162003935bp644, 0xefd468c7959f7p643,
0x4a518363ae34ep645, 0x129460d8eb8d38p643, 0x94a306c75c69cp644, 0x2528c1b1d71a7p646,
0x1b045027310dap647, 0x2528c1b1d71a7p647, 0xadf87baa143a6p649, 0x56fc3dd50a1d3p650,
0x18119b905ff8f3p648, 0x1a6427ab7d6a9ap648, 0xd3213d5beb54dp649, 0xd3213d5beb54dp650,
0x950ebd987ab9p655, 0x950ebd987ab90p651, 0x2543af661eae4p653, 0xd3213d5beb54dp651,
0x950ebd987ab9p656, 0x11da89c2828b15p652, 0xf864ecc20a031p653, 0x1f0c9d98414062p652,
0xf864ecc20a031p654, 0x10b06c475195a3p654, 0x101b5d89b91aeap655, 0x80daec4dc8d75p656,
0x4515ec13a8417p657, 0x80daec4dc8d75p657, 0x62f86c30b88c6p658, 0x317c36185c463p659,
0x80daec4dc8d75p658, 0x80daec4dc8d75p659, 0x164ae44cc4a3bp662, 0x2c95c89989476p661,
0xda067d80db661p660, 0xad70b4e7521ebp661, 0x15ae169cea43d6p660, 0x9725d09a8d7bp666,
0x12e4ba1351af6p665, 0xad70b4e7521ebp662, 0x61ddcc9a0b613p663, 0xad70b4e7521ebp663,
0xad70b4e7521ebp664, 0x13517f5a800deap664, 0x9a8bfad4006f5p665, 0x9a8bfad4006f5p666,
0xa3fe57dda947p670, 0x9a8bfad4006f5p667, 0xa3fe57dda947p671, 0x9a8bfad4006f5p668,
0x187172196d5822p667, 0xc38b90cb6ac11p668, 0xc38b90cb6ac11p669, 0x17297569b20594p669,
0xb94bab4d902cap670, 0x5ca5d5a6c8165p671, 0x3372dd9251556p672, 0x5ca5d5a6c8165p672,
0x5ca5d5a6c8165p673, 0x765f446ff0c1p677, 0x765f446ff0c1p678, 0x18c50c5644903fp673,
0xf47b4d85888d2p674, 0x7a3da6c2c4469p675, 0x18c50c5644903fp674, 0x18c50c5644903fp675,
0x81a39b09c352ap677, 0x40d1cd84e1a95p678, 0x10347361386a54p676, 0x18c50c5644903fp676,
0x40d1cd84e1a95p679, 0x1276316f976fffp679, 0x5a0d391f962a5p681, 0x1276316f976fffp680,
0x5a0d391f962a5p682, 0x1db7d8938a3549p680, 0x5a0d391f962a5p683, 0x1817050190d2a4p681,
0xc0b8280c86952p682, 0x605c1406434a9p683, 0x5d34a692ecba7p684, 0x605c1406434a9p684,
0x605c1406434a9p685, 0x605c1406434a9p686, 0x605c1406434a9p687, 0xf01c56b2d2966p686,
0x780e2b59694b3p687, 0x1e038ad65a52ccp685, 0x361a8fd7eb257p689, 0x6c351fafd64aep688,
0x780e2b59694b3p688, 0x780e2b59694b3p689, 0x6791447909c1cp691, 0x33c8a23c84e0ep692,
0x14730b44b7ccebp690, 0xdf9f6fd2730cfp691, 0x1bf3edfa4e619ep690, 0xdf9f6fd2730cfp692,
0xdf9f6fd2730cfp693, 0x7cc1e0785abebp694, 0x1d92330c3288a5p693, 0x7cc1e0785abebp695,
0xae30a82566e5dp695, 0x15c61504acdcbap694, 0xae30a82566e5dp696, 0x255e5113b8349p699,
0xae30a82566e5dp697, 0x1f1da9499ae9dep696, 0xf8ed4a4cd74efp697, 0xd38ef9391f1a6p698,
0x69c77c9c8f8d3p699, 0x69c77c9c8f8d3p700, 0x1cc7c4385f6695p698, 0x22ff04983ece6p702,
0x69c77c9c8f8d3p701, 0x11b21e01142fb4p700, 0x46c8780450bedp702, 0x8d90f008a17dap701,
0xb08ff4a0e04cp706, 0x1611fe941c098p705, 0x72ec752c88d1dp704, 0x12ca1625d62627p703,
0x5cda76986cc85p705, 0x17369da61b3214p703, 0xb9b4ed30d990ap704, 0x5cda76986cc85p706,
0x5cda76986cc85p707, 0xbf396cd5e093p711, 0xbf396cd5e093p712, 0x1d5c8d09f26ebfp707,
0x8ca8d1cde4ed1p709, 0x11951a39bc9da2p708, 0xbf396cd5e093p713, 0x1d5c8d09f26ebfp708,
0x1d5c8d09f26ebfp709, 0x4c4e344da17b2p712, 0x989c689b42f64p711, 0x13138d13685ec8p710,
0x26271a26d0bd9p713, 0x1d5c8d09f26ebfp710, 0x26271a26d0bd9p714, 0x26271a26d0bd9p715,
0x14a4629b09d4fep714, 0xa52314d84ea7fp715, 0xa52314d84ea7fp716, 0xa52314d84ea7fp717,
0x1afeb41302d02ap716, 0xd7f5a09816815p717, 0xd7f5a09816815p718, 0x19681fb504915fp718,
0x1373bcdf42fcbap719, 0x9b9de6fa17e5dp720, 0x19681fb504915fp719, 0x7d720a2b18981p721,
0x19681fb504915fp720, 0x7d720a2b18981p722, 0x8c87f892983efp722, 0x1190ff125307dep721,
0x8c87f892983efp723, 0x8c87f892983efp724, 0xcf0679420474bp724, 0x19e0cf28408e96p723,
0xadc738ea4e59dp725, 0xcf0679420474bp725, 0xbe66d91629674p726, 0xcf0679420474bp726,
0xcf0679420474bp727, 0x3f16c15262p741, 0x7e2d82a4c40p736, 0x12e39e5cd19285p727,
0x7f5017c3c7674p729, 0xfea02f878ece8p728, 0x12e39e5cd19285p728, 0x1fd405f0f1d9dp732,
0x12e39e5cd19285p729, 0x12e39e5cd19285p730, 0x16de1f1aefcdbfp730, 0x21ccbbfb84e9dp734,
0xa706f5df05811p732, 0x14e0debbe0b022p731, 0x16de1f1aefcdbfp731, 0x21ccbbfb84e9dp735,
0xa706f5df05811p733, 0x429d1cf1c04bap735, 0x10a7473c7012e8p733, 0x853a39e380974p734,
0x214e8e78e025dp736, 0x214e8e78e025dp737, 0x215671510a721p740, 0x63fb711af509fp739,
0x1f3d96fd674993p737, 0x21527fe4f54bfp741, 0x42a4ffc9ea97ep740, 0x10a93ff27aa5f8p738,
0x8549ff93d52fcp739, 0x1f3d96fd674993p738, 0x21527fe4f54bfp742, 0x21527fe4f54bfp743,
0xb746bbc64a6b3p743, 0x16e8d778c94d66p742, 0x6c4c9dd59fdb9p744, 0xb746bbc64a6b3p744,
0x91c9accdf5236p745, 0x48e4d666fa91bp746, 0xb746bbc64a6b3p745, 0xb746bbc64a6b3p746,
0x6b3f04ffb8p759, 0xd67e09ff70p758, 0x1acfc13fee0p757, 0x359f827fdcp760,
0xb746bbc64a6b3p747, 0x76313376212dp752, 0x2173f3e8f0f5p754, 0x9bae426e7674dp748,
0xc44a405a4e7p756, 0x1c92631aae20dp751, 0x76313376212dp753, 0x1eea340a33754dp747,
0x2173f3e8f0f5p755, 0x46f102e1463cdp750, 0x9bae426e7674dp749, 0x2a5e9fc6981cp755,
0x152f4fe34c0e0p752, 0x54bd3f8d3038p754, 0xa97a7f1a60700p749, 0x152f4fe34c0e00p748,
0x152f4fe34c0ep756, 0x2a5e9fc6981c0p751, 0xa97a7f1a6070p753, 0xa97a7f1a607p757,
0x54bd3f8d30380p750, 0xa97a7f1a607p758, 0xa97a7f1a607p759, 0xa97a7f1a607p760,
0x448571a22efdp767, 0x114bbb0852575cp761, 0x8a5dd84292baep762, 0x115652b043fd63p761,
0x448571a22efdp768, 0x115652b043fd63p762, 0xc2f8acf4e6fp771, 0x681b1f717b3c6p764,
0x448571a22efdp769, 0x115652b043fd63p763, 0xad4a0b92c499dp764, 0x15a9417258933ap763,
0xc2f8acf4e6fp772, 0x448571a22efdp770, 0x1c2af36970470p768, 0x3855e6d2e08e0p767,
0x3855e6d2e08ep771, 0x70abcda5c11c0p766, 0xe1579b4b82380p765, 0x70abcda5c11cp770,
0xe1579b4b8238p769, 0x1c2af3697047p772, 0x18ea1a6de46d1dp765, 0x1c2af3697047p773,
0x1c2af3697047p774, 0x1ff4d748407eddp766, 0x1c2af3697047p775, 0x1c2af3697047p776,
0x1c2af3697047p777, 0x480e18ecfb724p775, 0x901c31d9f6e48p774, 0x1203863b3edc90p773,
0x1203863b3edc9p777, 0x24070c767db92p776, 0x1203863b3edc9p779, 0x3746f608d9f3cp781,
0x1de3ebcbd4d572p778, 0xef1f5e5ea6ab9p779, 0x1f04242f88c33bp778, 0xef1f5e5ea6ab9p780,
0x16fb0d0ab996fap780, 0xb7d86855ccb7dp781, 0xb7d86855ccb7dp782, 0x2398cbf3ca504p785,
0x55035569cb1d7p784, 0xb7d86855ccb7dp783, 0x18b544bb006698p782, 0xc5aa25d80334cp783,
0x62d512ec019a6p784, 0x316a897600cd3p785, 0x316a897600cd3p786, 0x4e92e7af7a7ddp788,
0x16bb62833eac47p786, 0xce9058d4f5c8dp787, 0xfffae24af696p791, 0x4e92e7af7a7ddp789,
0x16bb62833eac47p787, 0x8e91a04238235p789, 0x11d2340847046ap788, 0xfd23e43b1173ep790,
0x7e91f21d88b9fp791, 0x18bb5847d49973p790, 0x7e91f21d88b9fp792, 0x10523bb4d69289p792,
0xc1dad6b578f14p793, 0x60ed6b5abc78ap794, 0x10523bb4d69289p793, 0x10523bb4d69289p794,
0x6a5682d005762p796, 0x10523bb4d69289p795, 0x1359a70fac764ep795, 0x9acd387d63b27p796,
0x67fc3cf2b336cp798, 0xcff879e5666d8p797, 0x19ff0f3caccdbp800, 0x33fe1e79599b6p799,
0x16ac5b262ca1ffp797, 0x16ac5b262ca1ffp798, 0x16ac5b262ca1ffp799, 0x16ac5b262ca1ffp800,
0xc26260cfbb76dp801, 0x16ac5b262ca1ffp801, 0x8b4a04cca165bp803, 0x11694099942cb6p802,
0x16ac5b262ca1ffp802, 0x16ac5b262ca1ffp803, 0x37deeb658a2e9p806, 0xfb07db97b5c2dp804,
0x16ac5b262ca1ffp804, 0x132e6c6fd3ff16p805, 0x9973637e9ff8bp806, 0x16ac5b262ca1ffp805,
0x9973637e9ff8bp807, 0x1021c8af0b50c5p807, 0x1021c8af0b50c5p808, 0x1cfe482285f8edp808,
0x16900868c8a4d9p809, 0x1cfe482285f8edp809, 0x19b8fee6f5505p814, 0x19c72845a74ee3p810,
0x1cfe482285f8edp810, 0x1b62b83416a3e8p811, 0x36c570682d47dp814, 0xdb15c1a0b51f4p812,
0x6d8ae0d05a8fap813, 0x1cfe482285f8edp811, 0x36c570682d47dp815, 0x1cfe482285f8edp812,
0x1cfe482285f8edp813, 0x1991f11c03247p818, 0x10354f948466b5p815, 0x9d0d34d839d99p816,
0x1991f11c03247p819, 0x10354f948466b5p816, 0x10354f948466b5p817, 0x1d3861058868dcp817,
0xe9c3082c4346ep818, 0x74e1841621a37p819, 0x5e0d9f579a03bp821, 0x130fcc2c555aadp820,
0x5e0d9f579a03bp822, 0x697791b6ddd39p822, 0xd2ef236dbba72p821, 0x1a5de46db774e4p820,
0x31e14c439df5dp824, 0x63c298873bebap823, 0x697791b6ddd39p823, 0x697791b6ddd39p824,
0x4dac6efd3de4bp825, 0x697791b6ddd39p825, 0x1dd748c4eb72cp828, 0x697791b6ddd39p827,
0x4ba048f1f260dp828, 0x12e8123c7c9834p826, 0x974091e3e4c1ap827, 0x197f8b57ea756dp826,
0x53161b232d3d8p830, 0xf1cc7f384cdbdp829, 0x13d6cc82a3f3cap829, 0x9eb664151f9e5p830,
0x9eb664151f9e5p831, 0x9eb664151f9e5p832, 0x166f7d5bbd5db6p831, 0xb37beaddeaedbp832,
0xa919277985460p833, 0xa91927798546p837, 0x152324ef30a8cp836, 0x548c93bcc2a30p834,
0x2a4649de61518p835, 0x15c9512577033bp833, 0x1b121a61432d6bp834, 0x1db67eff294283p835,
0x1f08b14e1c4d0fp836, 0x1f08b14e1c4d0fp837, 0x7ad092e97e29bp840, 0xf5a125d2fc536p839,
0x1f08b14e1c4d0fp838, 0x1f5d3de1d90fb2p838, 0xfae9ef0ec87d9p839, 0xfae9ef0ec87d9p840,
0x5d6ea07e11a9dp842, 0xfae9ef0ec87d9p841, 0x5d6ea07e11a9dp843, 0x1b5c7300aebd13p841,
0x158588f8cda276p842, 0xac2c47c66d13bp843, 0x21335d088fd7bp846, 0x84cd74223f5ecp844,
0xac2c47c66d13bp844, 0x21335d088fd7bp847, 0xee9301d78cc31p845, 0x19abf499df9d6cp845,
0x66afd2677e75bp847, 0xcd5fa4cefceb6p846, 0x43f197b80726bp848, 0x66afd2677e75bp848,
0x5550b50fc2ce3p849, 0x66afd2677e75bp849, 0x66afd2677e75bp850, 0x6483eebc8700cp852,
0xc907dd790e018p851, 0x1f8bf8d599a78bp850, 0x12fb7afe08c773p851, 0x1920fbaf21c03p855,
0x12fb7afe08c773p852, 0x12fb7afe08c773p853, 0x161f9a73ecff79p853, 0x11696b4316ab7p858,
0x22d2d6862d56ep857, 0x148d8ab8fae376p854, 0xa46c55c7d71bbp855, 0x161f9a73ecff79p854,
0xa46c55c7d71bbp856, 0x10332fe835389ap856, 0x81997f41a9c4dp857, 0x81997f41a9c4dp858,
0x4981754260382p859, 0x24c0baa1301c1p860, 0x81997f41a9c4dp859, 0x81997f41a9c4dp860,
0x81997f41a9c4dp861, 0x3531a70cc5ad5p863, 0x156601b74c07a1p861, 0x3531a70cc5ad5p864,
0xebfccd5b351f7p862, 0x156601b74c07a1p862, 0x3531a70cc5ad5p865, 0x1212e7467facccp863,
0x484b9d19feb33p865, 0x90973a33fd666p864, 0x3ebea21362304p866, 0xfafa884d88c1p868,
0x1f5f5109b1182p867, 0x484b9d19feb33p866, 0x484b9d19feb33p867, 0x484b9d19feb33p868,
0x484b9d19feb33p869, 0xbc94dd036906p873, 0x2f253740da418p871, 0x5e4a6e81b483p874,
0x104e07a1d67b93p869, 0x104e07a1d67b93p870, 0xd5bb42dc8d77bp871, 0x1ab7685b91aef6p870,
0xed4dde7cfa987p872, 0xe18490acc4081p873, 0x1c309215988102p872, 0xe18490acc4081p874,
0x73b49bca6fa82p875, 0xe18490acc4081p875, 0x29ea90b1e30dp882, 0x53d52163c61ap881,
0x11b5ede91fbdc2p876, 0x8daf6f48fdee1p877, 0x1fce36f3ebfe43p876, 0x1fce36f3ebfe43p877,
0x145496f43dee92p878, 0xa2a4b7a1ef749p879, 0x1fce36f3ebfe43p878, 0xad1f5bce6837dp880,
0x1fce36f3ebfe43p879, 0xa7e209b82bd63p881, 0x14fc4137057ac6p880, 0xa7e209b82bd63p882,
0x2aa02cb0d281cp884, 0x155016586940ep885, 0xaa80b2c34a07p886, 0xfd226319d0d9bp883,
0x1a5046cd1fcafep883, 0xd2823668fe57fp884, 0xd2823668fe57fp885, 0x18fb45679936fp889,
0x31f68acf326dep888, 0xd2823668fe57fp886, 0xd2823668fe57fp887, 0x14117573397d42p887,
0xa08bab99cbea1p888, 0xa08bab99cbea1p889, 0x1730de202ca42p892, 0x2e61bc4059484p891,
0x5cc37880b2908p890, 0xa08bab99cbea1p890, 0xa08bab99cbea1p891, 0xa08bab99cbea1p892,
0x56120d54f11e1p894, 0x14cafc643ae263p893, 0x56120d54f11e1p895, 0x1ed3b71dd7a104p893,
0x7b4edc775e841p895, 0xf69db8eebd082p894, 0x68b074e627d11p896, 0x7b4edc775e841p896,
0x7b4edc775e841p897, 0x1689d619d8032bp897, 0x78fb0f8537adbp899, 0xf1f61f0a6f5b6p898,
0x1689d619d8032bp898, 0x78fb0f8537adbp900, 0x1e1987122b7e06p899, 0xf0cc38915bf03p900,
0xb4e3a40b49cefp901, 0xf0cc38915bf03p901, 0xd2d7ee4e52df9p902, 0xf0cc38915bf03p902,
0xe1d2136fd767ep903, 0xf0cc38915bf03p903, 0x3ff1976cb81e2p905, 0xf0cc38915bf03p904,
0xb0daa124a3d21p905, 0x161b5424947a42p904, 0xd0d36cdaffe12p906, 0x6869b66d7ff09p907,
0x181ae0dffa3b33p906, 0x6869b66d7ff09p908, 0x6869b66d7ff09p909, 0x1ea17c46d23a3cp907,
0xf50be23691d1ep908, 0x7a85f11b48e8fp909, 0x7a85f11b48e8fp910, 0x1e109a7163f279p910,
0x12dc7cc18c4084p911, 0x4b71f30631021p913, 0x96e3e60c62042p912, 0x1e109a7163f279p911,
0x1e109a7163f279p912, 0x6565ed0403896p915, 0xcacbda080712cp914, 0x32b2f68201c4bp916,
0x1e109a7163f279p913, 0x1163dcd0e3814dp914, 0x1163dcd0e3814dp915, 0x1163dcd0e3814dp916,
0x291e1872073b3p919, 0x523c30e40e766p918, 0x1163dcd0e3814dp917, 0x1bab62ed655019p917,
0x16879fdf2468b3p918, 0x4fd6f9600fd4p925, 0x4fd6f9600fd40p921, 0x13f5be5803f5p927,
0x16879fdf2468b3p919, 0xc8cc0b3226e33p920, 0x13f5be5803f5p928, 0x16879fdf2468b3p920,
0x118a3049236b73p921, 0x13f5be5803f5p929, 0x118a3049236b73p922, 0x1408e81423ea13p922,
0x12c98c2ea3aac3p923, 0x1408e81423ea13p923, 0x13693a2163ca6bp924, 0x1408e81423ea13p924,
0x13b9111ac3da3fp925, 0x13b9111ac3da3fp926, 0x13e0fc9773e229p926, 0x9e6836c8def1ap928,
0x4f341b646f78dp929, 0x13cd06d91bde34p927, 0x2839bba4f7dc1p930, 0x4f341b646f78dp930,
0x129533db20214ep931, 0x94a99ed9010a7p932, 0x178875916718dbp931, 0x38f76e8f5c20dp934,
0x178875916718dbp932, 0x38f76e8f5c20dp935, 0x106987bf7b94c1p933, 0x178875916718dbp933,
0x13f8fea87156cep934, 0x9fc7f5438ab67p935, 0x362fd8f4b9b5dp937, 0x6c5fb1e9736bap936,
0x9fc7f5438ab67p936, 0x9fc7f5438ab67p937, 0x9fc7f5438ab67p938, 0x10ac3dc5facec9p938,
0x1aa8bd1a337a3p942, 0xd545e8d19bd18p939, 0x35517a3466f46p941, 0x6aa2f468cde8cp940,
0x1e009c53148be1p939, 0x1e009c53148be1p940, 0x1e009c53148be1p941, 0x1e009c53148be1p942,
0xfd594125be1c2p943, 0x7eaca092df0e1p944, 0x1e009c53148be1p943, 0x585749279a6cp950,
0xb0ae924f34d80p945, 0x1615d249e69bp952, 0xb0ae924f34d8p949, 0x1e009c53148be1p944,
0x12f5b32e213e61p945, 0x1615d249e69bp953, 0x12f5b32e213e61p946, 0x1615d249e69bp954,
0x187b27c09ae521p946, 0x15b86d775e11c1p947, 0x187b27c09ae521p947, 0x1719ca9bfc7b71p948,
0x187b27c09ae521p948, 0x17ca792e4bb049p949, 0x17ca792e4bb049p950, 0x17ca792e4bb049p951,
0x17f6a4d2df7d7fp951, 0xbf047804acb72p953, 0x17e08f009596e4p952, 0x5f823c02565b9p954,
0x3071cc937a62ap955, 0x5f823c02565b9p955, 0x11d2556e264a9p958, 0x5f823c02565b9p956,
0x11d2556e264a9p959, 0x5f823c02565b9p957, 0x3415a325d476p962, 0x1a0ad192ea3bp963,
0x81c589ba0487p961, 0x11d2556e264a9p960, 0x4dafe6943011p962, 0x136bf9a50c0440p956,
0x9b5fcd286022p961, 0x136bf9a50c044p960, 0x4dafe69430110p958, 0x9b5fcd2860220p957,
0x26d7f34a18088p959, 0x4dafe6943011p963, 0x33dd5c138d26p964, 0x4dafe6943011p964,
0x4dafe6943011p965, 0x4dafe6943011p966, 0x4dafe6943011p967, 0x1b1c15d78e7c7cp965,
0xd8e0aebc73e3ep966, 0x6c70575e39f1fp967, 0x38a5aae3be798p968, 0x6c70575e39f1fp968,
0x6c70575e39f1fp969, 0x161a3db8c8d129p969, 0xe70a197563824p970, 0x161a3db8c8d129p970
};
static const float g_pio2_f32[] = {
0x4b65f2p-20f, 0x96cbe4p-21f, 0x25b2f9p-19f, 0xfb53dp-17f,
0x1f6a7ap-18f, 0x25b2f9p-18f, 0x25b2f9p-17f, 0x1ae65fp-13f,
0x6b997cp-15f, 0xd732f8p-16f, 0x35ccbep-14f, 0xfce5f1p-16f,
0xfce5f1p-15f, 0x8132bp-10f, 0xfce5f1p-14f, 0x8132bp-9f,
0x2b0cb5p-11f, 0x70ffc9p-12f, 0xfce5f1p-13f, 0x45f314p-11f,
0x8be628p-12f, 0x117cc5p-9f, 0x22f98ap-10f, 0x117cc5p-8f,
0x4c571p-3f, 0x98ae2p-4f, 0xcd246fp-8f, 0x6f509ap-7f,
0x37a84dp-6f, 0xcd246fp-7f, 0x4abe11p-5f, 0xcd246fp-6f,
0x82665ep-5f, 0x41332fp-4f, 0x41332fp-3f, 0x41332fp-2f,
0x41332fp-1f, 0xa562aep-2f, 0x52b157p-1f, 0x49f243p0f,
0x52b157p0f, 0x52b157p1f, 0x508192p2f, 0x2840c9p3f,
0xf3b47bp1f, 0xa332e9p2f, 0x3d791p8f, 0x1ebc88p5f,
0xa332e9p3f, 0x65b9d9p4f, 0x3d791p9f, 0xa332e9p4f,
0x3d791p10f, 0x847661p5f, 0x847661p6f, 0x93d4a5p6f,
0x8c2583p7f, 0x93d4a5p7f, 0x8ffd14p8f, 0x47fe8ap9f,
0x23ff45p10f, 0x23ff45p11f, 0xa3e87fp11f, 0x63f3e2p12f,
0x31f9f1p13f, 0xa3e87fp12f, 0xa3e87fp13f, 0x35789cp15f,
0x6af138p14f, 0x1abc4ep16f, 0xa3e87fp14f, 0xa3e87fp15f,
0xa3e87fp16f, 0x4b452cp18f, 0x25a296p19f, 0x12d14bp20f,
0xa3e87fp17f, 0xb146a6p17f, 0x58a353p18f, 0x58a353p19f,
0x8ba41p23f, 0x58a353p20f, 0x35ba4fp21f, 0x8ba41p24f,
0x58a353p21f, 0x3e749p27f, 0x4fe912p23f, 0x27f489p24f,
0x9fd224p22f, 0xf87577p22f, 0x3e749p28f, 0x3e749p29f,
0x860bp32f, 0x27f489p26f, 0x1a675p31f, 0x3e749p30f,
0x860bp33f, 0x903500p25f, 0x9035p33f, 0x481a80p26f,
0x90350p29f, 0x240d40p27f, 0x1206ap32f, 0x481a8p30f,
0x1206a0p28f, 0x240d4p31f, 0xb82989p25f, 0x9035p34f,
0x9035p35f, 0x9035p36f, 0x9035p37f, 0x9035p38f,
0x10f79ap37f, 0x87bcd0p34f, 0x87bcdp38f, 0x21ef34p36f,
0x43de68p35f, 0x48601p39f, 0x87bcdp39f, 0x680e7p40f,
0x87bcdp40f, 0x30887ep43f, 0x18443fp44f, 0x698cc9p42f,
0xdb955fp41f, 0x39044bp43f, 0xe4112cp41f, 0x720896p42f,
0x39044bp44f, 0x30d448p46f, 0x9aacdbp45f, 0x69d893p46f,
0xd3b126p45f, 0x69d893p47f, 0x69d893p48f, 0xec1b4ap47f,
0x760da5p48f, 0x37f98ep50f, 0x1bfcc7p51f, 0x760da5p49f,
0x22175p55f, 0xe600c1p49f, 0x22175p56f, 0xae0733p50f,
0x24829bp53f, 0xae0733p51f, 0x6501fdp52f, 0x24829bp54f,
0xae0733p52f, 0x44c24cp54f, 0x226126p55f, 0x113093p56f,
0x898498p53f, 0x26a41p59f, 0x9a904p57f, 0x4d482p58f,
0x113093p57f, 0x113093p58f, 0x113093p59f, 0x113093p60f,
0x16b665p63f, 0x2d6ccap62f, 0xc6e3bbp60f, 0x6c0a27p61f,
0xc6e3bbp61f, 0x9976f1p62f, 0x9976f1p63f, 0x5816abp64f,
0x9976f1p64f, 0x78c6cep65f, 0x9976f1p65f, 0x2e89c5p67f,
0x9976f1p66f, 0x9e73dp70f, 0x13ce7ap69f, 0x2e89c5p68f,
0xd5da58p66f, 0x1abb4bp69f, 0x357696p68f, 0x6aed2cp67f,
0x1abb4bp70f, 0x125144p71f, 0x1abb4bp71f, 0x1abb4bp72f,
0xf9be45p72f, 0x8a3cc8p73f, 0x228f32p75f, 0x451e64p74f,
0x114799p76f, 0xf9be45p73f, 0xf9be45p74f, 0xf9be45p75f,
0x3a1dabp78f, 0xf9be45p76f, 0x8582efp77f, 0x3a1dabp79f,
0xf9be45p77f, 0xbfa09ap78f, 0x5fd04dp79f, 0x4cf6fcp80f,
0x267b7ep81f, 0x5fd04dp80f, 0x5fd04dp81f, 0x1cc383p84f,
0x398706p83f, 0x730e0cp82f, 0xd2de59p82f, 0x1cc383p85f,
0xd2de59p83f, 0x1cc383p86f, 0x77d0eep85f, 0x3be877p86f,
0xefa1dcp84f, 0x683e74p87f, 0x1a0f9dp89f, 0x341f3ap88f,
0xa426ebp87f, 0xd84625p88f, 0x2f8da2p91f, 0xd84625p89f,
0x792ae1p90f, 0xd84625p90f, 0xa8b883p91f, 0x185904p94f,
0xc2c82p95f, 0x4878d9p93f, 0xa8b883p92f, 0xc07f54p92f,
0x301fd5p94f, 0x603faap93f, 0x11b09p100f, 0x301fd5p95f,
0x11b09p101f, 0xa8265p98f, 0x301fd5p96f, 0x11b09p102f,
0xa8265p99f, 0x301fd5p97f, 0x259d70p98f, 0x4b3aep101f,
0x259d7p102f, 0x12ceb8p99f, 0x9675cp100f, 0x9675c0p96f,
0x4b3ae0p97f, 0x259d7p103f, 0xbdcda0p103f
};
