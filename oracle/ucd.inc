// generated by gen.py from Unicode 9.0 data
static const int u_ccc[][3] = {{768,788,230},{789,789,232},{790,793,220},{794,794,232},{795,795,216},{796,800,220},{801,802,202},{803,806,220},{807,808,202},{809,819,220},{820,824,1},{825,828,220},{829,836,230},{837,837,240},{838,838,230},{839,841,220},{842,844,230},{845,846,220},{848,850,230},{851,854,220},{855,855,230},{856,856,232},{857,858,220},{859,859,230},{860,860,233},{861,862,234},{863,863,233},{864,865,234},{866,866,233},{867,879,230},{1155,1159,230},{1425,1425,220},{1426,1429,230},{1430,1430,220},{1431,1433,230},{1434,1434,222},{1435,1435,220},{1436,1441,230},{1442,1447,220},{1448,1449,230},{1450,1450,220},{1451,1452,230},{1453,1453,222},{1454,1454,228},{1455,1455,230},{1456,1456,10},{1457,1457,11},{1458,1458,12},{1459,1459,13},{1460,1460,14},{1461,1461,15},{1462,1462,16},{1463,1463,17},{1464,1464,18},{1465,1466,19},{1467,1467,20},{1468,1468,21},{1469,1469,22},{1471,1471,23},{1473,1473,24},{1474,1474,25},{1476,1476,230},{1477,1477,220},{1479,1479,18},{1552,1559,230},{1560,1560,30},{1561,1561,31},{1562,1562,32},{1611,1611,27},{1612,1612,28},{1613,1613,29},{1614,1614,30},{1615,1615,31},{1616,1616,32},{1617,1617,33},{1618,1618,34},{1619,1620,230},{1621,1622,220},{1623,1627,230},{1628,1628,220},{1629,1630,230},{1631,1631,220},{1648,1648,35},{1750,1756,230},{1759,1762,230},{1763,1763,220},{1764,1764,230},{1767,1768,230},{1770,1770,220},{1771,1772,230},{1773,1773,220},{1809,1809,36},{1840,1840,230},{1841,1841,220},{1842,1843,230},{1844,1844,220},{1845,1846,230},{1847,1849,220},{1850,1850,230},{1851,1852,220},{1853,1853,230},{1854,1854,220},{1855,1857,230},{1858,1858,220},{1859,1859,230},{1860,1860,220},{1861,1861,230},{1862,1862,220},{1863,1863,230},{1864,1864,220},{1865,1866,230},{2027,2033,230},{2034,2034,220},{2035,2035,230},{2070,2073,230},{2075,2083,230},{2085,2087,230},{2089,2093,230},{2137,2139,220},{2260,2273,230},{2275,2275,220},{2276,2277,230},{2278,2278,220},{2279,2280,230},{2281,2281,220},{2282,2284,230},{2285,2287,220},{2288,2288,27},{2289,2289,28},{2290,2290,29},{2291,2293,230},{2294,2294,220},{2295,2296,230},{2297,2298,220},{2299,2303,230},{2364,2364,7},{2381,2381,9},{2385,2385,230},{2386,2386,220},{2387,2388,230},{2492,2492,7},{2509,2509,9},{2620,2620,7},{2637,2637,9},{2748,2748,7},{2765,2765,9},{2876,2876,7},{2893,2893,9},{3021,3021,9},{3149,3149,9},{3157,3157,84},{3158,3158,91},{3260,3260,7},{3277,3277,9},{3405,3405,9},{3530,3530,9},{3640,3641,103},{3642,3642,9},{3656,3659,107},{3768,3769,118},{3784,3787,122},{3864,3865,220},{3893,3893,220},{3895,3895,220},{3897,3897,216},{3953,3953,129},{3954,3954,130},{3956,3956,132},{3962,3965,130},{3968,3968,130},{3970,3971,230},{3972,3972,9},{3974,3975,230},{4038,4038,220},{4151,4151,7},{4153,4154,9},{4237,4237,220},{4957,4959,230},{5908,5908,9},{5940,5940,9},{6098,6098,9},{6109,6109,230},{6313,6313,228},{6457,6457,222},{6458,6458,230},{6459,6459,220},{6679,6679,230},{6680,6680,220},{6752,6752,9},{6773,6780,230},{6783,6783,220},{6832,6836,230},{6837,6842,220},{6843,6844,230},{6845,6845,220},{6964,6964,7},{6980,6980,9},{7019,7019,230},{7020,7020,220},{7021,7027,230},{7082,7083,9},{7142,7142,7},{7154,7155,9},{7223,7223,7},{7376,7378,230},{7380,7380,1},{7381,7385,220},{7386,7387,230},{7388,7391,220},{7392,7392,230},{7394,7400,1},{7405,7405,220},{7412,7412,230},{7416,7417,230},{7616,7617,230},{7618,7618,220},{7619,7625,230},{7626,7626,220},{7627,7628,230},{7629,7629,234},{7630,7630,214},{7631,7631,220},{7632,7632,202},{7633,7669,230},{7675,7675,230},{7676,7676,233},{7677,7677,220},{7678,7678,230},{7679,7679,220},{8400,8401,230},{8402,8403,1},{8404,8407,230},{8408,8410,1},{8411,8412,230},{8417,8417,230},{8421,8422,1},{8423,8423,230},{8424,8424,220},{8425,8425,230},{8426,8427,1},{8428,8431,220},{8432,8432,230},{11503,11505,230},{11647,11647,9},{11744,11775,230},{12330,12330,218},{12331,12331,228},{12332,12332,232},{12333,12333,222},{12334,12335,224},{12441,12442,8},{42607,42607,230},{42612,42621,230},{42654,42655,230},{42736,42737,230},{43014,43014,9},{43204,43204,9},{43232,43249,230},{43307,43309,220},{43347,43347,9},{43443,43443,7},{43456,43456,9},{43696,43696,230},{43698,43699,230},{43700,43700,220},{43703,43704,230},{43710,43711,230},{43713,43713,230},{43766,43766,9},{44013,44013,9},{64286,64286,26},{65056,65062,230},{65063,65069,220},{65070,65071,230},{66045,66045,220},{66272,66272,220},{66422,66426,230},{68109,68109,220},{68111,68111,230},{68152,68152,230},{68153,68153,1},{68154,68154,220},{68159,68159,9},{68325,68325,230},{68326,68326,220},{69702,69702,9},{69759,69759,9},{69817,69817,9},{69818,69818,7},{69888,69890,230},{69939,69940,9},{70003,70003,7},{70080,70080,9},{70090,70090,7},{70197,70197,9},{70198,70198,7},{70377,70377,7},{70378,70378,9},{70460,70460,7},{70477,70477,9},{70502,70508,230},{70512,70516,230},{70722,70722,9},{70726,70726,7},{70850,70850,9},{70851,70851,7},{71103,71103,9},{71104,71104,7},{71231,71231,9},{71350,71350,9},{71351,71351,7},{71467,71467,9},{72767,72767,9},{92912,92916,1},{92976,92982,230},{113822,113822,1},{119141,119142,216},{119143,119145,1},{119149,119149,226},{119150,119154,216},{119163,119170,220},{119173,119177,230},{119178,119179,220},{119210,119213,230},{119362,119364,230},{122880,122886,230},{122888,122904,230},{122907,122913,230},{122915,122916,230},{122918,122922,230},{125136,125142,220},{125252,125257,230},{125258,125258,7}};
enum u_gcb_value {U_Other, U_CR, U_Control, U_E_Base, U_E_Base_GAZ, U_E_Modifier, U_Extend, U_Glue_After_Zwj, U_L, U_LF, U_LV, U_LVT, U_Prepend, U_Regional_Indicator, U_SpacingMark, U_T, U_V, U_ZWJ};
static const int u_gcb[][3] = {{0,9,2},{10,10,9},{11,12,2},{13,13,1},{14,31,2},{127,159,2},{173,173,2},{768,879,6},{1155,1161,6},{1425,1469,6},{1471,1471,6},{1473,1474,6},{1476,1477,6},{1479,1479,6},{1536,1541,12},{1552,1562,6},{1564,1564,2},{1611,1631,6},{1648,1648,6},{1750,1756,6},{1757,1757,12},{1759,1764,6},{1767,1768,6},{1770,1773,6},{1807,1807,12},{1809,1809,6},{1840,1866,6},{1958,1968,6},{2027,2035,6},{2070,2073,6},{2075,2083,6},{2085,2087,6},{2089,2093,6},{2137,2139,6},{2260,2273,6},{2274,2274,12},{2275,2306,6},{2307,2307,14},{2362,2362,6},{2363,2363,14},{2364,2364,6},{2366,2368,14},{2369,2376,6},{2377,2380,14},{2381,2381,6},{2382,2383,14},{2385,2391,6},{2402,2403,6},{2433,2433,6},{2434,2435,14},{2492,2492,6},{2494,2494,6},{2495,2496,14},{2497,2500,6},{2503,2504,14},{2507,2508,14},{2509,2509,6},{2519,2519,6},{2530,2531,6},{2561,2562,6},{2563,2563,14},{2620,2620,6},{2622,2624,14},{2625,2626,6},{2631,2632,6},{2635,2637,6},{2641,2641,6},{2672,2673,6},{2677,2677,6},{2689,2690,6},{2691,2691,14},{2748,2748,6},{2750,2752,14},{2753,2757,6},{2759,2760,6},{2761,2761,14},{2763,2764,14},{2765,2765,6},{2786,2787,6},{2817,2817,6},{2818,2819,14},{2876,2876,6},{2878,2879,6},{2880,2880,14},{2881,2884,6},{2887,2888,14},{2891,2892,14},{2893,2893,6},{2902,2903,6},{2914,2915,6},{2946,2946,6},{3006,3006,6},{3007,3007,14},{3008,3008,6},{3009,3010,14},{3014,3016,14},{3018,3020,14},{3021,3021,6},{3031,3031,6},{3072,3072,6},{3073,3075,14},{3134,3136,6},{3137,3140,14},{3142,3144,6},{3146,3149,6},{3157,3158,6},{3170,3171,6},{3201,3201,6},{3202,3203,14},{3260,3260,6},{3262,3262,14},{3263,3263,6},{3264,3265,14},{3266,3266,6},{3267,3268,14},{3270,3270,6},{3271,3272,14},{3274,3275,14},{3276,3277,6},{3285,3286,6},{3298,3299,6},{3329,3329,6},{3330,3331,14},{3390,3390,6},{3391,3392,14},{3393,3396,6},{3398,3400,14},{3402,3404,14},{3405,3405,6},{3406,3406,12},{3415,3415,6},{3426,3427,6},{3458,3459,14},{3530,3530,6},{3535,3535,6},{3536,3537,14},{3538,3540,6},{3542,3542,6},{3544,3550,14},{3551,3551,6},{3570,3571,14},{3633,3633,6},{3635,3635,14},{3636,3642,6},{3655,3662,6},{3761,3761,6},{3763,3763,14},{3764,3769,6},{3771,3772,6},{3784,3789,6},{3864,3865,6},{3893,3893,6},{3895,3895,6},{3897,3897,6},{3902,3903,14},{3953,3966,6},{3967,3967,14},{3968,3972,6},{3974,3975,6},{3981,3991,6},{3993,4028,6},{4038,4038,6},{4141,4144,6},{4145,4145,14},{4146,4151,6},{4153,4154,6},{4155,4156,14},{4157,4158,6},{4182,4183,14},{4184,4185,6},{4190,4192,6},{4209,4212,6},{4226,4226,6},{4228,4228,14},{4229,4230,6},{4237,4237,6},{4253,4253,6},{4352,4447,8},{4448,4519,16},{4520,4607,15},{4957,4959,6},{5906,5908,6},{5938,5940,6},{5970,5971,6},{6002,6003,6},{6068,6069,6},{6070,6070,14},{6071,6077,6},{6078,6085,14},{6086,6086,6},{6087,6088,14},{6089,6099,6},{6109,6109,6},{6155,6157,6},{6158,6158,2},{6277,6278,6},{6313,6313,6},{6432,6434,6},{6435,6438,14},{6439,6440,6},{6441,6443,14},{6448,6449,14},{6450,6450,6},{6451,6456,14},{6457,6459,6},{6679,6680,6},{6681,6682,14},{6683,6683,6},{6741,6741,14},{6742,6742,6},{6743,6743,14},{6744,6750,6},{6752,6752,6},{6754,6754,6},{6757,6764,6},{6765,6770,14},{6771,6780,6},{6783,6783,6},{6832,6846,6},{6912,6915,6},{6916,6916,14},{6964,6964,6},{6965,6965,14},{6966,6970,6},{6971,6971,14},{6972,6972,6},{6973,6977,14},{6978,6978,6},{6979,6980,14},{7019,7027,6},{7040,7041,6},{7042,7042,14},{7073,7073,14},{7074,7077,6},{7078,7079,14},{7080,7081,6},{7082,7082,14},{7083,7085,6},{7142,7142,6},{7143,7143,14},{7144,7145,6},{7146,7148,14},{7149,7149,6},{7150,7150,14},{7151,7153,6},{7154,7155,14},{7204,7211,14},{7212,7219,6},{7220,7221,14},{7222,7223,6},{7376,7378,6},{7380,7392,6},{7393,7393,14},{7394,7400,6},{7405,7405,6},{7410,7411,14},{7412,7412,6},{7416,7417,6},{7616,7669,6},{7675,7679,6},{8203,8203,2},{8204,8204,6},{8205,8205,17},{8206,8207,2},{8232,8238,2},{8288,8303,2},{8400,8432,6},{9757,9757,3},{9977,9977,3},{9994,9997,3},{10084,10084,7},{11503,11505,6},{11647,11647,6},{11744,11775,6},{12330,12335,6},{12441,12442,6},{42607,42610,6},{42612,42621,6},{42654,42655,6},{42736,42737,6},{43010,43010,6},{43014,43014,6},{43019,43019,6},{43043,43044,14},{43045,43046,6},{43047,43047,14},{43136,43137,14},{43188,43203,14},{43204,43205,6},{43232,43249,6},{43302,43309,6},{43335,43345,6},{43346,43347,14},{43360,43388,8},{43392,43394,6},{43395,43395,14},{43443,43443,6},{43444,43445,14},{43446,43449,6},{43450,43451,14},{43452,43452,6},{43453,43456,14},{43493,43493,6},{43561,43566,6},{43567,43568,14},{43569,43570,6},{43571,43572,14},{43573,43574,6},{43587,43587,6},{43596,43596,6},{43597,43597,14},{43644,43644,6},{43696,43696,6},{43698,43700,6},{43703,43704,6},{43710,43711,6},{43713,43713,6},{43755,43755,14},{43756,43757,6},{43758,43759,14},{43765,43765,14},{43766,43766,6},{44003,44004,14},{44005,44005,6},{44006,44007,14},{44008,44008,6},{44009,44010,14},{44012,44012,14},{44013,44013,6},{44032,44032,10},{44033,44059,11},{44060,44060,10},{44061,44087,11},{44088,44088,10},{44089,44115,11},{44116,44116,10},{44117,44143,11},{44144,44144,10},{44145,44171,11},{44172,44172,10},{44173,44199,11},{44200,44200,10},{44201,44227,11},{44228,44228,10},{44229,44255,11},{44256,44256,10},{44257,44283,11},{44284,44284,10},{44285,44311,11},{44312,44312,10},{44313,44339,11},{44340,44340,10},{44341,44367,11},{44368,44368,10},{44369,44395,11},{44396,44396,10},{44397,44423,11},{44424,44424,10},{44425,44451,11},{44452,44452,10},{44453,44479,11},{44480,44480,10},{44481,44507,11},{44508,44508,10},{44509,44535,11},{44536,44536,10},{44537,44563,11},{44564,44564,10},{44565,44591,11},{44592,44592,10},{44593,44619,11},{44620,44620,10},{44621,44647,11},{44648,44648,10},{44649,44675,11},{44676,44676,10},{44677,44703,11},{44704,44704,10},{44705,44731,11},{44732,44732,10},{44733,44759,11},{44760,44760,10},{44761,44787,11},{44788,44788,10},{44789,44815,11},{44816,44816,10},{44817,44843,11},{44844,44844,10},{44845,44871,11},{44872,44872,10},{44873,44899,11},{44900,44900,10},{44901,44927,11},{44928,44928,10},{44929,44955,11},{44956,44956,10},{44957,44983,11},{44984,44984,10},{44985,45011,11},{45012,45012,10},{45013,45039,11},{45040,45040,10},{45041,45067,11},{45068,45068,10},{45069,45095,11},{45096,45096,10},{45097,45123,11},{45124,45124,10},{45125,45151,11},{45152,45152,10},{45153,45179,11},{45180,45180,10},{45181,45207,11},{45208,45208,10},{45209,45235,11},{45236,45236,10},{45237,45263,11},{45264,45264,10},{45265,45291,11},{45292,45292,10},{45293,45319,11},{45320,45320,10},{45321,45347,11},{45348,45348,10},{45349,45375,11},{45376,45376,10},{45377,45403,11},{45404,45404,10},{45405,45431,11},{45432,45432,10},{45433,45459,11},{45460,45460,10},{45461,45487,11},{45488,45488,10},{45489,45515,11},{45516,45516,10},{45517,45543,11},{45544,45544,10},{45545,45571,11},{45572,45572,10},{45573,45599,11},{45600,45600,10},{45601,45627,11},{45628,45628,10},{45629,45655,11},{45656,45656,10},{45657,45683,11},{45684,45684,10},{45685,45711,11},{45712,45712,10},{45713,45739,11},{45740,45740,10},{45741,45767,11},{45768,45768,10},{45769,45795,11},{45796,45796,10},{45797,45823,11},{45824,45824,10},{45825,45851,11},{45852,45852,10},{45853,45879,11},{45880,45880,10},{45881,45907,11},{45908,45908,10},{45909,45935,11},{45936,45936,10},{45937,45963,11},{45964,45964,10},{45965,45991,11},{45992,45992,10},{45993,46019,11},{46020,46020,10},{46021,46047,11},{46048,46048,10},{46049,46075,11},{46076,46076,10},{46077,46103,11},{46104,46104,10},{46105,46131,11},{46132,46132,10},{46133,46159,11},{46160,46160,10},{46161,46187,11},{46188,46188,10},{46189,46215,11},{46216,46216,10},{46217,46243,11},{46244,46244,10},{46245,46271,11},{46272,46272,10},{46273,46299,11},{46300,46300,10},{46301,46327,11},{46328,46328,10},{46329,46355,11},{46356,46356,10},{46357,46383,11},{46384,46384,10},{46385,46411,11},{46412,46412,10},{46413,46439,11},{46440,46440,10},{46441,46467,11},{46468,46468,10},{46469,46495,11},{46496,46496,10},{46497,46523,11},{46524,46524,10},{46525,46551,11},{46552,46552,10},{46553,46579,11},{46580,46580,10},{46581,46607,11},{46608,46608,10},{46609,46635,11},{46636,46636,10},{46637,46663,11},{46664,46664,10},{46665,46691,11},{46692,46692,10},{46693,46719,11},{46720,46720,10},{46721,46747,11},{46748,46748,10},{46749,46775,11},{46776,46776,10},{46777,46803,11},{46804,46804,10},{46805,46831,11},{46832,46832,10},{46833,46859,11},{46860,46860,10},{46861,46887,11},{46888,46888,10},{46889,46915,11},{46916,46916,10},{46917,46943,11},{46944,46944,10},{46945,46971,11},{46972,46972,10},{46973,46999,11},{47000,47000,10},{47001,47027,11},{47028,47028,10},{47029,47055,11},{47056,47056,10},{47057,47083,11},{47084,47084,10},{47085,47111,11},{47112,47112,10},{47113,47139,11},{47140,47140,10},{47141,47167,11},{47168,47168,10},{47169,47195,11},{47196,47196,10},{47197,47223,11},{47224,47224,10},{47225,47251,11},{47252,47252,10},{47253,47279,11},{47280,47280,10},{47281,47307,11},{47308,47308,10},{47309,47335,11},{47336,47336,10},{47337,47363,11},{47364,47364,10},{47365,47391,11},{47392,47392,10},{47393,47419,11},{47420,47420,10},{47421,47447,11},{47448,47448,10},{47449,47475,11},{47476,47476,10},{47477,47503,11},{47504,47504,10},{47505,47531,11},{47532,47532,10},{47533,47559,11},{47560,47560,10},{47561,47587,11},{47588,47588,10},{47589,47615,11},{47616,47616,10},{47617,47643,11},{47644,47644,10},{47645,47671,11},{47672,47672,10},{47673,47699,11},{47700,47700,10},{47701,47727,11},{47728,47728,10},{47729,47755,11},{47756,47756,10},{47757,47783,11},{47784,47784,10},{47785,47811,11},{47812,47812,10},{47813,47839,11},{47840,47840,10},{47841,47867,11},{47868,47868,10},{47869,47895,11},{47896,47896,10},{47897,47923,11},{47924,47924,10},{47925,47951,11},{47952,47952,10},{47953,47979,11},{47980,47980,10},{47981,48007,11},{48008,48008,10},{48009,48035,11},{48036,48036,10},{48037,48063,11},{48064,48064,10},{48065,48091,11},{48092,48092,10},{48093,48119,11},{48120,48120,10},{48121,48147,11},{48148,48148,10},{48149,48175,11},{48176,48176,10},{48177,48203,11},{48204,48204,10},{48205,48231,11},{48232,48232,10},{48233,48259,11},{48260,48260,10},{48261,48287,11},{48288,48288,10},{48289,48315,11},{48316,48316,10},{48317,48343,11},{48344,48344,10},{48345,48371,11},{48372,48372,10},{48373,48399,11},{48400,48400,10},{48401,48427,11},{48428,48428,10},{48429,48455,11},{48456,48456,10},{48457,48483,11},{48484,48484,10},{48485,48511,11},{48512,48512,10},{48513,48539,11},{48540,48540,10},{48541,48567,11},{48568,48568,10},{48569,48595,11},{48596,48596,10},{48597,48623,11},{48624,48624,10},{48625,48651,11},{48652,48652,10},{48653,48679,11},{48680,48680,10},{48681,48707,11},{48708,48708,10},{48709,48735,11},{48736,48736,10},{48737,48763,11},{48764,48764,10},{48765,48791,11},{48792,48792,10},{48793,48819,11},{48820,48820,10},{48821,48847,11},{48848,48848,10},{48849,48875,11},{48876,48876,10},{48877,48903,11},{48904,48904,10},{48905,48931,11},{48932,48932,10},{48933,48959,11},{48960,48960,10},{48961,48987,11},{48988,48988,10},{48989,49015,11},{49016,49016,10},{49017,49043,11},{49044,49044,10},{49045,49071,11},{49072,49072,10},{49073,49099,11},{49100,49100,10},{49101,49127,11},{49128,49128,10},{49129,49155,11},{49156,49156,10},{49157,49183,11},{49184,49184,10},{49185,49211,11},{49212,49212,10},{49213,49239,11},{49240,49240,10},{49241,49267,11},{49268,49268,10},{49269,49295,11},{49296,49296,10},{49297,49323,11},{49324,49324,10},{49325,49351,11},{49352,49352,10},{49353,49379,11},{49380,49380,10},{49381,49407,11},{49408,49408,10},{49409,49435,11},{49436,49436,10},{49437,49463,11},{49464,49464,10},{49465,49491,11},{49492,49492,10},{49493,49519,11},{49520,49520,10},{49521,49547,11},{49548,49548,10},{49549,49575,11},{49576,49576,10},{49577,49603,11},{49604,49604,10},{49605,49631,11},{49632,49632,10},{49633,49659,11},{49660,49660,10},{49661,49687,11},{49688,49688,10},{49689,49715,11},{49716,49716,10},{49717,49743,11},{49744,49744,10},{49745,49771,11},{49772,49772,10},{49773,49799,11},{49800,49800,10},{49801,49827,11},{49828,49828,10},{49829,49855,11},{49856,49856,10},{49857,49883,11},{49884,49884,10},{49885,49911,11},{49912,49912,10},{49913,49939,11},{49940,49940,10},{49941,49967,11},{49968,49968,10},{49969,49995,11},{49996,49996,10},{49997,50023,11},{50024,50024,10},{50025,50051,11},{50052,50052,10},{50053,50079,11},{50080,50080,10},{50081,50107,11},{50108,50108,10},{50109,50135,11},{50136,50136,10},{50137,50163,11},{50164,50164,10},{50165,50191,11},{50192,50192,10},{50193,50219,11},{50220,50220,10},{50221,50247,11},{50248,50248,10},{50249,50275,11},{50276,50276,10},{50277,50303,11},{50304,50304,10},{50305,50331,11},{50332,50332,10},{50333,50359,11},{50360,50360,10},{50361,50387,11},{50388,50388,10},{50389,50415,11},{50416,50416,10},{50417,50443,11},{50444,50444,10},{50445,50471,11},{50472,50472,10},{50473,50499,11},{50500,50500,10},{50501,50527,11},{50528,50528,10},{50529,50555,11},{50556,50556,10},{50557,50583,11},{50584,50584,10},{50585,50611,11},{50612,50612,10},{50613,50639,11},{50640,50640,10},{50641,50667,11},{50668,50668,10},{50669,50695,11},{50696,50696,10},{50697,50723,11},{50724,50724,10},{50725,50751,11},{50752,50752,10},{50753,50779,11},{50780,50780,10},{50781,50807,11},{50808,50808,10},{50809,50835,11},{50836,50836,10},{50837,50863,11},{50864,50864,10},{50865,50891,11},{50892,50892,10},{50893,50919,11},{50920,50920,10},{50921,50947,11},{50948,50948,10},{50949,50975,11},{50976,50976,10},{50977,51003,11},{51004,51004,10},{51005,51031,11},{51032,51032,10},{51033,51059,11},{51060,51060,10},{51061,51087,11},{51088,51088,10},{51089,51115,11},{51116,51116,10},{51117,51143,11},{51144,51144,10},{51145,51171,11},{51172,51172,10},{51173,51199,11},{51200,51200,10},{51201,51227,11},{51228,51228,10},{51229,51255,11},{51256,51256,10},{51257,51283,11},{51284,51284,10},{51285,51311,11},{51312,51312,10},{51313,51339,11},{51340,51340,10},{51341,51367,11},{51368,51368,10},{51369,51395,11},{51396,51396,10},{51397,51423,11},{51424,51424,10},{51425,51451,11},{51452,51452,10},{51453,51479,11},{51480,51480,10},{51481,51507,11},{51508,51508,10},{51509,51535,11},{51536,51536,10},{51537,51563,11},{51564,51564,10},{51565,51591,11},{51592,51592,10},{51593,51619,11},{51620,51620,10},{51621,51647,11},{51648,51648,10},{51649,51675,11},{51676,51676,10},{51677,51703,11},{51704,51704,10},{51705,51731,11},{51732,51732,10},{51733,51759,11},{51760,51760,10},{51761,51787,11},{51788,51788,10},{51789,51815,11},{51816,51816,10},{51817,51843,11},{51844,51844,10},{51845,51871,11},{51872,51872,10},{51873,51899,11},{51900,51900,10},{51901,51927,11},{51928,51928,10},{51929,51955,11},{51956,51956,10},{51957,51983,11},{51984,51984,10},{51985,52011,11},{52012,52012,10},{52013,52039,11},{52040,52040,10},{52041,52067,11},{52068,52068,10},{52069,52095,11},{52096,52096,10},{52097,52123,11},{52124,52124,10},{52125,52151,11},{52152,52152,10},{52153,52179,11},{52180,52180,10},{52181,52207,11},{52208,52208,10},{52209,52235,11},{52236,52236,10},{52237,52263,11},{52264,52264,10},{52265,52291,11},{52292,52292,10},{52293,52319,11},{52320,52320,10},{52321,52347,11},{52348,52348,10},{52349,52375,11},{52376,52376,10},{52377,52403,11},{52404,52404,10},{52405,52431,11},{52432,52432,10},{52433,52459,11},{52460,52460,10},{52461,52487,11},{52488,52488,10},{52489,52515,11},{52516,52516,10},{52517,52543,11},{52544,52544,10},{52545,52571,11},{52572,52572,10},{52573,52599,11},{52600,52600,10},{52601,52627,11},{52628,52628,10},{52629,52655,11},{52656,52656,10},{52657,52683,11},{52684,52684,10},{52685,52711,11},{52712,52712,10},{52713,52739,11},{52740,52740,10},{52741,52767,11},{52768,52768,10},{52769,52795,11},{52796,52796,10},{52797,52823,11},{52824,52824,10},{52825,52851,11},{52852,52852,10},{52853,52879,11},{52880,52880,10},{52881,52907,11},{52908,52908,10},{52909,52935,11},{52936,52936,10},{52937,52963,11},{52964,52964,10},{52965,52991,11},{52992,52992,10},{52993,53019,11},{53020,53020,10},{53021,53047,11},{53048,53048,10},{53049,53075,11},{53076,53076,10},{53077,53103,11},{53104,53104,10},{53105,53131,11},{53132,53132,10},{53133,53159,11},{53160,53160,10},{53161,53187,11},{53188,53188,10},{53189,53215,11},{53216,53216,10},{53217,53243,11},{53244,53244,10},{53245,53271,11},{53272,53272,10},{53273,53299,11},{53300,53300,10},{53301,53327,11},{53328,53328,10},{53329,53355,11},{53356,53356,10},{53357,53383,11},{53384,53384,10},{53385,53411,11},{53412,53412,10},{53413,53439,11},{53440,53440,10},{53441,53467,11},{53468,53468,10},{53469,53495,11},{53496,53496,10},{53497,53523,11},{53524,53524,10},{53525,53551,11},{53552,53552,10},{53553,53579,11},{53580,53580,10},{53581,53607,11},{53608,53608,10},{53609,53635,11},{53636,53636,10},{53637,53663,11},{53664,53664,10},{53665,53691,11},{53692,53692,10},{53693,53719,11},{53720,53720,10},{53721,53747,11},{53748,53748,10},{53749,53775,11},{53776,53776,10},{53777,53803,11},{53804,53804,10},{53805,53831,11},{53832,53832,10},{53833,53859,11},{53860,53860,10},{53861,53887,11},{53888,53888,10},{53889,53915,11},{53916,53916,10},{53917,53943,11},{53944,53944,10},{53945,53971,11},{53972,53972,10},{53973,53999,11},{54000,54000,10},{54001,54027,11},{54028,54028,10},{54029,54055,11},{54056,54056,10},{54057,54083,11},{54084,54084,10},{54085,54111,11},{54112,54112,10},{54113,54139,11},{54140,54140,10},{54141,54167,11},{54168,54168,10},{54169,54195,11},{54196,54196,10},{54197,54223,11},{54224,54224,10},{54225,54251,11},{54252,54252,10},{54253,54279,11},{54280,54280,10},{54281,54307,11},{54308,54308,10},{54309,54335,11},{54336,54336,10},{54337,54363,11},{54364,54364,10},{54365,54391,11},{54392,54392,10},{54393,54419,11},{54420,54420,10},{54421,54447,11},{54448,54448,10},{54449,54475,11},{54476,54476,10},{54477,54503,11},{54504,54504,10},{54505,54531,11},{54532,54532,10},{54533,54559,11},{54560,54560,10},{54561,54587,11},{54588,54588,10},{54589,54615,11},{54616,54616,10},{54617,54643,11},{54644,54644,10},{54645,54671,11},{54672,54672,10},{54673,54699,11},{54700,54700,10},{54701,54727,11},{54728,54728,10},{54729,54755,11},{54756,54756,10},{54757,54783,11},{54784,54784,10},{54785,54811,11},{54812,54812,10},{54813,54839,11},{54840,54840,10},{54841,54867,11},{54868,54868,10},{54869,54895,11},{54896,54896,10},{54897,54923,11},{54924,54924,10},{54925,54951,11},{54952,54952,10},{54953,54979,11},{54980,54980,10},{54981,55007,11},{55008,55008,10},{55009,55035,11},{55036,55036,10},{55037,55063,11},{55064,55064,10},{55065,55091,11},{55092,55092,10},{55093,55119,11},{55120,55120,10},{55121,55147,11},{55148,55148,10},{55149,55175,11},{55176,55176,10},{55177,55203,11},{55216,55238,16},{55243,55291,15},{55296,57343,2},{64286,64286,6},{65024,65039,6},{65056,65071,6},{65279,65279,2},{65438,65439,6},{65520,65531,2},{66045,66045,6},{66272,66272,6},{66422,66426,6},{68097,68099,6},{68101,68102,6},{68108,68111,6},{68152,68154,6},{68159,68159,6},{68325,68326,6},{69632,69632,14},{69633,69633,6},{69634,69634,14},{69688,69702,6},{69759,69761,6},{69762,69762,14},{69808,69810,14},{69811,69814,6},{69815,69816,14},{69817,69818,6},{69821,69821,12},{69888,69890,6},{69927,69931,6},{69932,69932,14},{69933,69940,6},{70003,70003,6},{70016,70017,6},{70018,70018,14},{70067,70069,14},{70070,70078,6},{70079,70080,14},{70082,70083,12},{70090,70092,6},{70188,70190,14},{70191,70193,6},{70194,70195,14},{70196,70196,6},{70197,70197,14},{70198,70199,6},{70206,70206,6},{70367,70367,6},{70368,70370,14},{70371,70378,6},{70400,70401,6},{70402,70403,14},{70460,70460,6},{70462,70462,6},{70463,70463,14},{70464,70464,6},{70465,70468,14},{70471,70472,14},{70475,70477,14},{70487,70487,6},{70498,70499,14},{70502,70508,6},{70512,70516,6},{70709,70711,14},{70712,70719,6},{70720,70721,14},{70722,70724,6},{70725,70725,14},{70726,70726,6},{70832,70832,6},{70833,70834,14},{70835,70840,6},{70841,70841,14},{70842,70842,6},{70843,70844,14},{70845,70845,6},{70846,70846,14},{70847,70848,6},{70849,70849,14},{70850,70851,6},{71087,71087,6},{71088,71089,14},{71090,71093,6},{71096,71099,14},{71100,71101,6},{71102,71102,14},{71103,71104,6},{71132,71133,6},{71216,71218,14},{71219,71226,6},{71227,71228,14},{71229,71229,6},{71230,71230,14},{71231,71232,6},{71339,71339,6},{71340,71340,14},{71341,71341,6},{71342,71343,14},{71344,71349,6},{71350,71350,14},{71351,71351,6},{71453,71455,6},{71456,71457,14},{71458,71461,6},{71462,71462,14},{71463,71467,6},{72751,72751,14},{72752,72758,6},{72760,72765,6},{72766,72766,14},{72767,72767,6},{72850,72871,6},{72873,72873,14},{72874,72880,6},{72881,72881,14},{72882,72883,6},{72884,72884,14},{72885,72886,6},{92912,92916,6},{92976,92982,6},{94033,94078,14},{94095,94098,6},{113821,113822,6},{113824,113827,2},{119141,119141,6},{119142,119142,14},{119143,119145,6},{119149,119149,14},{119150,119154,6},{119155,119162,2},{119163,119170,6},{119173,119179,6},{119210,119213,6},{119362,119364,6},{121344,121398,6},{121403,121452,6},{121461,121461,6},{121476,121476,6},{121499,121503,6},{121505,121519,6},{122880,122886,6},{122888,122904,6},{122907,122913,6},{122915,122916,6},{122918,122922,6},{125136,125142,6},{125252,125258,6},{127462,127487,13},{127877,127877,3},{127939,127940,3},{127946,127947,3},{127995,127999,5},{128066,128067,3},{128070,128080,3},{128102,128105,4},{128110,128110,3},{128112,128120,3},{128124,128124,3},{128129,128131,3},{128133,128135,3},{128139,128139,7},{128170,128170,3},{128373,128373,3},{128378,128378,3},{128400,128400,3},{128405,128406,3},{128488,128488,7},{128581,128583,3},{128587,128591,3},{128675,128675,3},{128692,128694,3},{128704,128704,3},{129304,129310,3},{129318,129318,3},{129328,129328,3},{129331,129337,3},{129340,129342,3},{917504,917535,2},{917536,917631,6},{917632,917759,2},{917760,917999,6},{918000,921599,2}};
static const int u_dec[][6] = {{192,2,65,768,0,0},
{193,2,65,769,0,0},
{194,2,65,770,0,0},
{195,2,65,771,0,0},
{196,2,65,776,0,0},
{197,2,65,778,0,0},
{199,2,67,807,0,0},
{200,2,69,768,0,0},
{201,2,69,769,0,0},
{202,2,69,770,0,0},
{203,2,69,776,0,0},
{204,2,73,768,0,0},
{205,2,73,769,0,0},
{206,2,73,770,0,0},
{207,2,73,776,0,0},
{209,2,78,771,0,0},
{210,2,79,768,0,0},
{211,2,79,769,0,0},
{212,2,79,770,0,0},
{213,2,79,771,0,0},
{214,2,79,776,0,0},
{217,2,85,768,0,0},
{218,2,85,769,0,0},
{219,2,85,770,0,0},
{220,2,85,776,0,0},
{221,2,89,769,0,0},
{224,2,97,768,0,0},
{225,2,97,769,0,0},
{226,2,97,770,0,0},
{227,2,97,771,0,0},
{228,2,97,776,0,0},
{229,2,97,778,0,0},
{231,2,99,807,0,0},
{232,2,101,768,0,0},
{233,2,101,769,0,0},
{234,2,101,770,0,0},
{235,2,101,776,0,0},
{236,2,105,768,0,0},
{237,2,105,769,0,0},
{238,2,105,770,0,0},
{239,2,105,776,0,0},
{241,2,110,771,0,0},
{242,2,111,768,0,0},
{243,2,111,769,0,0},
{244,2,111,770,0,0},
{245,2,111,771,0,0},
{246,2,111,776,0,0},
{249,2,117,768,0,0},
{250,2,117,769,0,0},
{251,2,117,770,0,0},
{252,2,117,776,0,0},
{253,2,121,769,0,0},
{255,2,121,776,0,0},
{256,2,65,772,0,0},
{257,2,97,772,0,0},
{258,2,65,774,0,0},
{259,2,97,774,0,0},
{260,2,65,808,0,0},
{261,2,97,808,0,0},
{262,2,67,769,0,0},
{263,2,99,769,0,0},
{264,2,67,770,0,0},
{265,2,99,770,0,0},
{266,2,67,775,0,0},
{267,2,99,775,0,0},
{268,2,67,780,0,0},
{269,2,99,780,0,0},
{270,2,68,780,0,0},
{271,2,100,780,0,0},
{274,2,69,772,0,0},
{275,2,101,772,0,0},
{276,2,69,774,0,0},
{277,2,101,774,0,0},
{278,2,69,775,0,0},
{279,2,101,775,0,0},
{280,2,69,808,0,0},
{281,2,101,808,0,0},
{282,2,69,780,0,0},
{283,2,101,780,0,0},
{284,2,71,770,0,0},
{285,2,103,770,0,0},
{286,2,71,774,0,0},
{287,2,103,774,0,0},
{288,2,71,775,0,0},
{289,2,103,775,0,0},
{290,2,71,807,0,0},
{291,2,103,807,0,0},
{292,2,72,770,0,0},
{293,2,104,770,0,0},
{296,2,73,771,0,0},
{297,2,105,771,0,0},
{298,2,73,772,0,0},
{299,2,105,772,0,0},
{300,2,73,774,0,0},
{301,2,105,774,0,0},
{302,2,73,808,0,0},
{303,2,105,808,0,0},
{304,2,73,775,0,0},
{308,2,74,770,0,0},
{309,2,106,770,0,0},
{310,2,75,807,0,0},
{311,2,107,807,0,0},
{313,2,76,769,0,0},
{314,2,108,769,0,0},
{315,2,76,807,0,0},
{316,2,108,807,0,0},
{317,2,76,780,0,0},
{318,2,108,780,0,0},
{323,2,78,769,0,0},
{324,2,110,769,0,0},
{325,2,78,807,0,0},
{326,2,110,807,0,0},
{327,2,78,780,0,0},
{328,2,110,780,0,0},
{332,2,79,772,0,0},
{333,2,111,772,0,0},
{334,2,79,774,0,0},
{335,2,111,774,0,0},
{336,2,79,779,0,0},
{337,2,111,779,0,0},
{340,2,82,769,0,0},
{341,2,114,769,0,0},
{342,2,82,807,0,0},
{343,2,114,807,0,0},
{344,2,82,780,0,0},
{345,2,114,780,0,0},
{346,2,83,769,0,0},
{347,2,115,769,0,0},
{348,2,83,770,0,0},
{349,2,115,770,0,0},
{350,2,83,807,0,0},
{351,2,115,807,0,0},
{352,2,83,780,0,0},
{353,2,115,780,0,0},
{354,2,84,807,0,0},
{355,2,116,807,0,0},
{356,2,84,780,0,0},
{357,2,116,780,0,0},
{360,2,85,771,0,0},
{361,2,117,771,0,0},
{362,2,85,772,0,0},
{363,2,117,772,0,0},
{364,2,85,774,0,0},
{365,2,117,774,0,0},
{366,2,85,778,0,0},
{367,2,117,778,0,0},
{368,2,85,779,0,0},
{369,2,117,779,0,0},
{370,2,85,808,0,0},
{371,2,117,808,0,0},
{372,2,87,770,0,0},
{373,2,119,770,0,0},
{374,2,89,770,0,0},
{375,2,121,770,0,0},
{376,2,89,776,0,0},
{377,2,90,769,0,0},
{378,2,122,769,0,0},
{379,2,90,775,0,0},
{380,2,122,775,0,0},
{381,2,90,780,0,0},
{382,2,122,780,0,0},
{416,2,79,795,0,0},
{417,2,111,795,0,0},
{431,2,85,795,0,0},
{432,2,117,795,0,0},
{461,2,65,780,0,0},
{462,2,97,780,0,0},
{463,2,73,780,0,0},
{464,2,105,780,0,0},
{465,2,79,780,0,0},
{466,2,111,780,0,0},
{467,2,85,780,0,0},
{468,2,117,780,0,0},
{469,3,85,776,772,0},
{470,3,117,776,772,0},
{471,3,85,776,769,0},
{472,3,117,776,769,0},
{473,3,85,776,780,0},
{474,3,117,776,780,0},
{475,3,85,776,768,0},
{476,3,117,776,768,0},
{478,3,65,776,772,0},
{479,3,97,776,772,0},
{480,3,65,775,772,0},
{481,3,97,775,772,0},
{482,2,198,772,0,0},
{483,2,230,772,0,0},
{486,2,71,780,0,0},
{487,2,103,780,0,0},
{488,2,75,780,0,0},
{489,2,107,780,0,0},
{490,2,79,808,0,0},
{491,2,111,808,0,0},
{492,3,79,808,772,0},
{493,3,111,808,772,0},
{494,2,439,780,0,0},
{495,2,658,780,0,0},
{496,2,106,780,0,0},
{500,2,71,769,0,0},
{501,2,103,769,0,0},
{504,2,78,768,0,0},
{505,2,110,768,0,0},
{506,3,65,778,769,0},
{507,3,97,778,769,0},
{508,2,198,769,0,0},
{509,2,230,769,0,0},
{510,2,216,769,0,0},
{511,2,248,769,0,0},
{512,2,65,783,0,0},
{513,2,97,783,0,0},
{514,2,65,785,0,0},
{515,2,97,785,0,0},
{516,2,69,783,0,0},
{517,2,101,783,0,0},
{518,2,69,785,0,0},
{519,2,101,785,0,0},
{520,2,73,783,0,0},
{521,2,105,783,0,0},
{522,2,73,785,0,0},
{523,2,105,785,0,0},
{524,2,79,783,0,0},
{525,2,111,783,0,0},
{526,2,79,785,0,0},
{527,2,111,785,0,0},
{528,2,82,783,0,0},
{529,2,114,783,0,0},
{530,2,82,785,0,0},
{531,2,114,785,0,0},
{532,2,85,783,0,0},
{533,2,117,783,0,0},
{534,2,85,785,0,0},
{535,2,117,785,0,0},
{536,2,83,806,0,0},
{537,2,115,806,0,0},
{538,2,84,806,0,0},
{539,2,116,806,0,0},
{542,2,72,780,0,0},
{543,2,104,780,0,0},
{550,2,65,775,0,0},
{551,2,97,775,0,0},
{552,2,69,807,0,0},
{553,2,101,807,0,0},
{554,3,79,776,772,0},
{555,3,111,776,772,0},
{556,3,79,771,772,0},
{557,3,111,771,772,0},
{558,2,79,775,0,0},
{559,2,111,775,0,0},
{560,3,79,775,772,0},
{561,3,111,775,772,0},
{562,2,89,772,0,0},
{563,2,121,772,0,0},
{832,1,768,0,0,0},
{833,1,769,0,0,0},
{835,1,787,0,0,0},
{836,2,776,769,0,0},
{884,1,697,0,0,0},
{894,1,59,0,0,0},
{901,2,168,769,0,0},
{902,2,913,769,0,0},
{903,1,183,0,0,0},
{904,2,917,769,0,0},
{905,2,919,769,0,0},
{906,2,921,769,0,0},
{908,2,927,769,0,0},
{910,2,933,769,0,0},
{911,2,937,769,0,0},
{912,3,953,776,769,0},
{938,2,921,776,0,0},
{939,2,933,776,0,0},
{940,2,945,769,0,0},
{941,2,949,769,0,0},
{942,2,951,769,0,0},
{943,2,953,769,0,0},
{944,3,965,776,769,0},
{970,2,953,776,0,0},
{971,2,965,776,0,0},
{972,2,959,769,0,0},
{973,2,965,769,0,0},
{974,2,969,769,0,0},
{979,2,978,769,0,0},
{980,2,978,776,0,0},
{1024,2,1045,768,0,0},
{1025,2,1045,776,0,0},
{1027,2,1043,769,0,0},
{1031,2,1030,776,0,0},
{1036,2,1050,769,0,0},
{1037,2,1048,768,0,0},
{1038,2,1059,774,0,0},
{1049,2,1048,774,0,0},
{1081,2,1080,774,0,0},
{1104,2,1077,768,0,0},
{1105,2,1077,776,0,0},
{1107,2,1075,769,0,0},
{1111,2,1110,776,0,0},
{1116,2,1082,769,0,0},
{1117,2,1080,768,0,0},
{1118,2,1091,774,0,0},
{1142,2,1140,783,0,0},
{1143,2,1141,783,0,0},
{1217,2,1046,774,0,0},
{1218,2,1078,774,0,0},
{1232,2,1040,774,0,0},
{1233,2,1072,774,0,0},
{1234,2,1040,776,0,0},
{1235,2,1072,776,0,0},
{1238,2,1045,774,0,0},
{1239,2,1077,774,0,0},
{1242,2,1240,776,0,0},
{1243,2,1241,776,0,0},
{1244,2,1046,776,0,0},
{1245,2,1078,776,0,0},
{1246,2,1047,776,0,0},
{1247,2,1079,776,0,0},
{1250,2,1048,772,0,0},
{1251,2,1080,772,0,0},
{1252,2,1048,776,0,0},
{1253,2,1080,776,0,0},
{1254,2,1054,776,0,0},
{1255,2,1086,776,0,0},
{1258,2,1256,776,0,0},
{1259,2,1257,776,0,0},
{1260,2,1069,776,0,0},
{1261,2,1101,776,0,0},
{1262,2,1059,772,0,0},
{1263,2,1091,772,0,0},
{1264,2,1059,776,0,0},
{1265,2,1091,776,0,0},
{1266,2,1059,779,0,0},
{1267,2,1091,779,0,0},
{1268,2,1063,776,0,0},
{1269,2,1095,776,0,0},
{1272,2,1067,776,0,0},
{1273,2,1099,776,0,0},
{1570,2,1575,1619,0,0},
{1571,2,1575,1620,0,0},
{1572,2,1608,1620,0,0},
{1573,2,1575,1621,0,0},
{1574,2,1610,1620,0,0},
{1728,2,1749,1620,0,0},
{1730,2,1729,1620,0,0},
{1747,2,1746,1620,0,0},
{2345,2,2344,2364,0,0},
{2353,2,2352,2364,0,0},
{2356,2,2355,2364,0,0},
{2392,2,2325,2364,0,0},
{2393,2,2326,2364,0,0},
{2394,2,2327,2364,0,0},
{2395,2,2332,2364,0,0},
{2396,2,2337,2364,0,0},
{2397,2,2338,2364,0,0},
{2398,2,2347,2364,0,0},
{2399,2,2351,2364,0,0},
{2507,2,2503,2494,0,0},
{2508,2,2503,2519,0,0},
{2524,2,2465,2492,0,0},
{2525,2,2466,2492,0,0},
{2527,2,2479,2492,0,0},
{2611,2,2610,2620,0,0},
{2614,2,2616,2620,0,0},
{2649,2,2582,2620,0,0},
{2650,2,2583,2620,0,0},
{2651,2,2588,2620,0,0},
{2654,2,2603,2620,0,0},
{2888,2,2887,2902,0,0},
{2891,2,2887,2878,0,0},
{2892,2,2887,2903,0,0},
{2908,2,2849,2876,0,0},
{2909,2,2850,2876,0,0},
{2964,2,2962,3031,0,0},
{3018,2,3014,3006,0,0},
{3019,2,3015,3006,0,0},
{3020,2,3014,3031,0,0},
{3144,2,3142,3158,0,0},
{3264,2,3263,3285,0,0},
{3271,2,3270,3285,0,0},
{3272,2,3270,3286,0,0},
{3274,2,3270,3266,0,0},
{3275,3,3270,3266,3285,0},
{3402,2,3398,3390,0,0},
{3403,2,3399,3390,0,0},
{3404,2,3398,3415,0,0},
{3546,2,3545,3530,0,0},
{3548,2,3545,3535,0,0},
{3549,3,3545,3535,3530,0},
{3550,2,3545,3551,0,0},
{3907,2,3906,4023,0,0},
{3917,2,3916,4023,0,0},
{3922,2,3921,4023,0,0},
{3927,2,3926,4023,0,0},
{3932,2,3931,4023,0,0},
{3945,2,3904,4021,0,0},
{3955,2,3953,3954,0,0},
{3957,2,3953,3956,0,0},
{3958,2,4018,3968,0,0},
{3960,2,4019,3968,0,0},
{3969,2,3953,3968,0,0},
{3987,2,3986,4023,0,0},
{3997,2,3996,4023,0,0},
{4002,2,4001,4023,0,0},
{4007,2,4006,4023,0,0},
{4012,2,4011,4023,0,0},
{4025,2,3984,4021,0,0},
{4134,2,4133,4142,0,0},
{6918,2,6917,6965,0,0},
{6920,2,6919,6965,0,0},
{6922,2,6921,6965,0,0},
{6924,2,6923,6965,0,0},
{6926,2,6925,6965,0,0},
{6930,2,6929,6965,0,0},
{6971,2,6970,6965,0,0},
{6973,2,6972,6965,0,0},
{6976,2,6974,6965,0,0},
{6977,2,6975,6965,0,0},
{6979,2,6978,6965,0,0},
{7680,2,65,805,0,0},
{7681,2,97,805,0,0},
{7682,2,66,775,0,0},
{7683,2,98,775,0,0},
{7684,2,66,803,0,0},
{7685,2,98,803,0,0},
{7686,2,66,817,0,0},
{7687,2,98,817,0,0},
{7688,3,67,807,769,0},
{7689,3,99,807,769,0},
{7690,2,68,775,0,0},
{7691,2,100,775,0,0},
{7692,2,68,803,0,0},
{7693,2,100,803,0,0},
{7694,2,68,817,0,0},
{7695,2,100,817,0,0},
{7696,2,68,807,0,0},
{7697,2,100,807,0,0},
{7698,2,68,813,0,0},
{7699,2,100,813,0,0},
{7700,3,69,772,768,0},
{7701,3,101,772,768,0},
{7702,3,69,772,769,0},
{7703,3,101,772,769,0},
{7704,2,69,813,0,0},
{7705,2,101,813,0,0},
{7706,2,69,816,0,0},
{7707,2,101,816,0,0},
{7708,3,69,807,774,0},
{7709,3,101,807,774,0},
{7710,2,70,775,0,0},
{7711,2,102,775,0,0},
{7712,2,71,772,0,0},
{7713,2,103,772,0,0},
{7714,2,72,775,0,0},
{7715,2,104,775,0,0},
{7716,2,72,803,0,0},
{7717,2,104,803,0,0},
{7718,2,72,776,0,0},
{7719,2,104,776,0,0},
{7720,2,72,807,0,0},
{7721,2,104,807,0,0},
{7722,2,72,814,0,0},
{7723,2,104,814,0,0},
{7724,2,73,816,0,0},
{7725,2,105,816,0,0},
{7726,3,73,776,769,0},
{7727,3,105,776,769,0},
{7728,2,75,769,0,0},
{7729,2,107,769,0,0},
{7730,2,75,803,0,0},
{7731,2,107,803,0,0},
{7732,2,75,817,0,0},
{7733,2,107,817,0,0},
{7734,2,76,803,0,0},
{7735,2,108,803,0,0},
{7736,3,76,803,772,0},
{7737,3,108,803,772,0},
{7738,2,76,817,0,0},
{7739,2,108,817,0,0},
{7740,2,76,813,0,0},
{7741,2,108,813,0,0},
{7742,2,77,769,0,0},
{7743,2,109,769,0,0},
{7744,2,77,775,0,0},
{7745,2,109,775,0,0},
{7746,2,77,803,0,0},
{7747,2,109,803,0,0},
{7748,2,78,775,0,0},
{7749,2,110,775,0,0},
{7750,2,78,803,0,0},
{7751,2,110,803,0,0},
{7752,2,78,817,0,0},
{7753,2,110,817,0,0},
{7754,2,78,813,0,0},
{7755,2,110,813,0,0},
{7756,3,79,771,769,0},
{7757,3,111,771,769,0},
{7758,3,79,771,776,0},
{7759,3,111,771,776,0},
{7760,3,79,772,768,0},
{7761,3,111,772,768,0},
{7762,3,79,772,769,0},
{7763,3,111,772,769,0},
{7764,2,80,769,0,0},
{7765,2,112,769,0,0},
{7766,2,80,775,0,0},
{7767,2,112,775,0,0},
{7768,2,82,775,0,0},
{7769,2,114,775,0,0},
{7770,2,82,803,0,0},
{7771,2,114,803,0,0},
{7772,3,82,803,772,0},
{7773,3,114,803,772,0},
{7774,2,82,817,0,0},
{7775,2,114,817,0,0},
{7776,2,83,775,0,0},
{7777,2,115,775,0,0},
{7778,2,83,803,0,0},
{7779,2,115,803,0,0},
{7780,3,83,769,775,0},
{7781,3,115,769,775,0},
{7782,3,83,780,775,0},
{7783,3,115,780,775,0},
{7784,3,83,803,775,0},
{7785,3,115,803,775,0},
{7786,2,84,775,0,0},
{7787,2,116,775,0,0},
{7788,2,84,803,0,0},
{7789,2,116,803,0,0},
{7790,2,84,817,0,0},
{7791,2,116,817,0,0},
{7792,2,84,813,0,0},
{7793,2,116,813,0,0},
{7794,2,85,804,0,0},
{7795,2,117,804,0,0},
{7796,2,85,816,0,0},
{7797,2,117,816,0,0},
{7798,2,85,813,0,0},
{7799,2,117,813,0,0},
{7800,3,85,771,769,0},
{7801,3,117,771,769,0},
{7802,3,85,772,776,0},
{7803,3,117,772,776,0},
{7804,2,86,771,0,0},
{7805,2,118,771,0,0},
{7806,2,86,803,0,0},
{7807,2,118,803,0,0},
{7808,2,87,768,0,0},
{7809,2,119,768,0,0},
{7810,2,87,769,0,0},
{7811,2,119,769,0,0},
{7812,2,87,776,0,0},
{7813,2,119,776,0,0},
{7814,2,87,775,0,0},
{7815,2,119,775,0,0},
{7816,2,87,803,0,0},
{7817,2,119,803,0,0},
{7818,2,88,775,0,0},
{7819,2,120,775,0,0},
{7820,2,88,776,0,0},
{7821,2,120,776,0,0},
{7822,2,89,775,0,0},
{7823,2,121,775,0,0},
{7824,2,90,770,0,0},
{7825,2,122,770,0,0},
{7826,2,90,803,0,0},
{7827,2,122,803,0,0},
{7828,2,90,817,0,0},
{7829,2,122,817,0,0},
{7830,2,104,817,0,0},
{7831,2,116,776,0,0},
{7832,2,119,778,0,0},
{7833,2,121,778,0,0},
{7835,2,383,775,0,0},
{7840,2,65,803,0,0},
{7841,2,97,803,0,0},
{7842,2,65,777,0,0},
{7843,2,97,777,0,0},
{7844,3,65,770,769,0},
{7845,3,97,770,769,0},
{7846,3,65,770,768,0},
{7847,3,97,770,768,0},
{7848,3,65,770,777,0},
{7849,3,97,770,777,0},
{7850,3,65,770,771,0},
{7851,3,97,770,771,0},
{7852,3,65,803,770,0},
{7853,3,97,803,770,0},
{7854,3,65,774,769,0},
{7855,3,97,774,769,0},
{7856,3,65,774,768,0},
{7857,3,97,774,768,0},
{7858,3,65,774,777,0},
{7859,3,97,774,777,0},
{7860,3,65,774,771,0},
{7861,3,97,774,771,0},
{7862,3,65,803,774,0},
{7863,3,97,803,774,0},
{7864,2,69,803,0,0},
{7865,2,101,803,0,0},
{7866,2,69,777,0,0},
{7867,2,101,777,0,0},
{7868,2,69,771,0,0},
{7869,2,101,771,0,0},
{7870,3,69,770,769,0},
{7871,3,101,770,769,0},
{7872,3,69,770,768,0},
{7873,3,101,770,768,0},
{7874,3,69,770,777,0},
{7875,3,101,770,777,0},
{7876,3,69,770,771,0},
{7877,3,101,770,771,0},
{7878,3,69,803,770,0},
{7879,3,101,803,770,0},
{7880,2,73,777,0,0},
{7881,2,105,777,0,0},
{7882,2,73,803,0,0},
{7883,2,105,803,0,0},
{7884,2,79,803,0,0},
{7885,2,111,803,0,0},
{7886,2,79,777,0,0},
{7887,2,111,777,0,0},
{7888,3,79,770,769,0},
{7889,3,111,770,769,0},
{7890,3,79,770,768,0},
{7891,3,111,770,768,0},
{7892,3,79,770,777,0},
{7893,3,111,770,777,0},
{7894,3,79,770,771,0},
{7895,3,111,770,771,0},
{7896,3,79,803,770,0},
{7897,3,111,803,770,0},
{7898,3,79,795,769,0},
{7899,3,111,795,769,0},
{7900,3,79,795,768,0},
{7901,3,111,795,768,0},
{7902,3,79,795,777,0},
{7903,3,111,795,777,0},
{7904,3,79,795,771,0},
{7905,3,111,795,771,0},
{7906,3,79,795,803,0},
{7907,3,111,795,803,0},
{7908,2,85,803,0,0},
{7909,2,117,803,0,0},
{7910,2,85,777,0,0},
{7911,2,117,777,0,0},
{7912,3,85,795,769,0},
{7913,3,117,795,769,0},
{7914,3,85,795,768,0},
{7915,3,117,795,768,0},
{7916,3,85,795,777,0},
{7917,3,117,795,777,0},
{7918,3,85,795,771,0},
{7919,3,117,795,771,0},
{7920,3,85,795,803,0},
{7921,3,117,795,803,0},
{7922,2,89,768,0,0},
{7923,2,121,768,0,0},
{7924,2,89,803,0,0},
{7925,2,121,803,0,0},
{7926,2,89,777,0,0},
{7927,2,121,777,0,0},
{7928,2,89,771,0,0},
{7929,2,121,771,0,0},
{7936,2,945,787,0,0},
{7937,2,945,788,0,0},
{7938,3,945,787,768,0},
{7939,3,945,788,768,0},
{7940,3,945,787,769,0},
{7941,3,945,788,769,0},
{7942,3,945,787,834,0},
{7943,3,945,788,834,0},
{7944,2,913,787,0,0},
{7945,2,913,788,0,0},
{7946,3,913,787,768,0},
{7947,3,913,788,768,0},
{7948,3,913,787,769,0},
{7949,3,913,788,769,0},
{7950,3,913,787,834,0},
{7951,3,913,788,834,0},
{7952,2,949,787,0,0},
{7953,2,949,788,0,0},
{7954,3,949,787,768,0},
{7955,3,949,788,768,0},
{7956,3,949,787,769,0},
{7957,3,949,788,769,0},
{7960,2,917,787,0,0},
{7961,2,917,788,0,0},
{7962,3,917,787,768,0},
{7963,3,917,788,768,0},
{7964,3,917,787,769,0},
{7965,3,917,788,769,0},
{7968,2,951,787,0,0},
{7969,2,951,788,0,0},
{7970,3,951,787,768,0},
{7971,3,951,788,768,0},
{7972,3,951,787,769,0},
{7973,3,951,788,769,0},
{7974,3,951,787,834,0},
{7975,3,951,788,834,0},
{7976,2,919,787,0,0},
{7977,2,919,788,0,0},
{7978,3,919,787,768,0},
{7979,3,919,788,768,0},
{7980,3,919,787,769,0},
{7981,3,919,788,769,0},
{7982,3,919,787,834,0},
{7983,3,919,788,834,0},
{7984,2,953,787,0,0},
{7985,2,953,788,0,0},
{7986,3,953,787,768,0},
{7987,3,953,788,768,0},
{7988,3,953,787,769,0},
{7989,3,953,788,769,0},
{7990,3,953,787,834,0},
{7991,3,953,788,834,0},
{7992,2,921,787,0,0},
{7993,2,921,788,0,0},
{7994,3,921,787,768,0},
{7995,3,921,788,768,0},
{7996,3,921,787,769,0},
{7997,3,921,788,769,0},
{7998,3,921,787,834,0},
{7999,3,921,788,834,0},
{8000,2,959,787,0,0},
{8001,2,959,788,0,0},
{8002,3,959,787,768,0},
{8003,3,959,788,768,0},
{8004,3,959,787,769,0},
{8005,3,959,788,769,0},
{8008,2,927,787,0,0},
{8009,2,927,788,0,0},
{8010,3,927,787,768,0},
{8011,3,927,788,768,0},
{8012,3,927,787,769,0},
{8013,3,927,788,769,0},
{8016,2,965,787,0,0},
{8017,2,965,788,0,0},
{8018,3,965,787,768,0},
{8019,3,965,788,768,0},
{8020,3,965,787,769,0},
{8021,3,965,788,769,0},
{8022,3,965,787,834,0},
{8023,3,965,788,834,0},
{8025,2,933,788,0,0},
{8027,3,933,788,768,0},
{8029,3,933,788,769,0},
{8031,3,933,788,834,0},
{8032,2,969,787,0,0},
{8033,2,969,788,0,0},
{8034,3,969,787,768,0},
{8035,3,969,788,768,0},
{8036,3,969,787,769,0},
{8037,3,969,788,769,0},
{8038,3,969,787,834,0},
{8039,3,969,788,834,0},
{8040,2,937,787,0,0},
{8041,2,937,788,0,0},
{8042,3,937,787,768,0},
{8043,3,937,788,768,0},
{8044,3,937,787,769,0},
{8045,3,937,788,769,0},
{8046,3,937,787,834,0},
{8047,3,937,788,834,0},
{8048,2,945,768,0,0},
{8049,2,945,769,0,0},
{8050,2,949,768,0,0},
{8051,2,949,769,0,0},
{8052,2,951,768,0,0},
{8053,2,951,769,0,0},
{8054,2,953,768,0,0},
{8055,2,953,769,0,0},
{8056,2,959,768,0,0},
{8057,2,959,769,0,0},
{8058,2,965,768,0,0},
{8059,2,965,769,0,0},
{8060,2,969,768,0,0},
{8061,2,969,769,0,0},
{8064,3,945,787,837,0},
{8065,3,945,788,837,0},
{8066,4,945,787,768,837},
{8067,4,945,788,768,837},
{8068,4,945,787,769,837},
{8069,4,945,788,769,837},
{8070,4,945,787,834,837},
{8071,4,945,788,834,837},
{8072,3,913,787,837,0},
{8073,3,913,788,837,0},
{8074,4,913,787,768,837},
{8075,4,913,788,768,837},
{8076,4,913,787,769,837},
{8077,4,913,788,769,837},
{8078,4,913,787,834,837},
{8079,4,913,788,834,837},
{8080,3,951,787,837,0},
{8081,3,951,788,837,0},
{8082,4,951,787,768,837},
{8083,4,951,788,768,837},
{8084,4,951,787,769,837},
{8085,4,951,788,769,837},
{8086,4,951,787,834,837},
{8087,4,951,788,834,837},
{8088,3,919,787,837,0},
{8089,3,919,788,837,0},
{8090,4,919,787,768,837},
{8091,4,919,788,768,837},
{8092,4,919,787,769,837},
{8093,4,919,788,769,837},
{8094,4,919,787,834,837},
{8095,4,919,788,834,837},
{8096,3,969,787,837,0},
{8097,3,969,788,837,0},
{8098,4,969,787,768,837},
{8099,4,969,788,768,837},
{8100,4,969,787,769,837},
{8101,4,969,788,769,837},
{8102,4,969,787,834,837},
{8103,4,969,788,834,837},
{8104,3,937,787,837,0},
{8105,3,937,788,837,0},
{8106,4,937,787,768,837},
{8107,4,937,788,768,837},
{8108,4,937,787,769,837},
{8109,4,937,788,769,837},
{8110,4,937,787,834,837},
{8111,4,937,788,834,837},
{8112,2,945,774,0,0},
{8113,2,945,772,0,0},
{8114,3,945,768,837,0},
{8115,2,945,837,0,0},
{8116,3,945,769,837,0},
{8118,2,945,834,0,0},
{8119,3,945,834,837,0},
{8120,2,913,774,0,0},
{8121,2,913,772,0,0},
{8122,2,913,768,0,0},
{8123,2,913,769,0,0},
{8124,2,913,837,0,0},
{8126,1,953,0,0,0},
{8129,2,168,834,0,0},
{8130,3,951,768,837,0},
{8131,2,951,837,0,0},
{8132,3,951,769,837,0},
{8134,2,951,834,0,0},
{8135,3,951,834,837,0},
{8136,2,917,768,0,0},
{8137,2,917,769,0,0},
{8138,2,919,768,0,0},
{8139,2,919,769,0,0},
{8140,2,919,837,0,0},
{8141,2,8127,768,0,0},
{8142,2,8127,769,0,0},
{8143,2,8127,834,0,0},
{8144,2,953,774,0,0},
{8145,2,953,772,0,0},
{8146,3,953,776,768,0},
{8147,3,953,776,769,0},
{8150,2,953,834,0,0},
{8151,3,953,776,834,0},
{8152,2,921,774,0,0},
{8153,2,921,772,0,0},
{8154,2,921,768,0,0},
{8155,2,921,769,0,0},
{8157,2,8190,768,0,0},
{8158,2,8190,769,0,0},
{8159,2,8190,834,0,0},
{8160,2,965,774,0,0},
{8161,2,965,772,0,0},
{8162,3,965,776,768,0},
{8163,3,965,776,769,0},
{8164,2,961,787,0,0},
{8165,2,961,788,0,0},
{8166,2,965,834,0,0},
{8167,3,965,776,834,0},
{8168,2,933,774,0,0},
{8169,2,933,772,0,0},
{8170,2,933,768,0,0},
{8171,2,933,769,0,0},
{8172,2,929,788,0,0},
{8173,2,168,768,0,0},
{8174,2,168,769,0,0},
{8175,1,96,0,0,0},
{8178,3,969,768,837,0},
{8179,2,969,837,0,0},
{8180,3,969,769,837,0},
{8182,2,969,834,0,0},
{8183,3,969,834,837,0},
{8184,2,927,768,0,0},
{8185,2,927,769,0,0},
{8186,2,937,768,0,0},
{8187,2,937,769,0,0},
{8188,2,937,837,0,0},
{8189,1,180,0,0,0},
{8192,1,8194,0,0,0},
{8193,1,8195,0,0,0},
{8486,1,937,0,0,0},
{8490,1,75,0,0,0},
{8491,2,65,778,0,0},
{8602,2,8592,824,0,0},
{8603,2,8594,824,0,0},
{8622,2,8596,824,0,0},
{8653,2,8656,824,0,0},
{8654,2,8660,824,0,0},
{8655,2,8658,824,0,0},
{8708,2,8707,824,0,0},
{8713,2,8712,824,0,0},
{8716,2,8715,824,0,0},
{8740,2,8739,824,0,0},
{8742,2,8741,824,0,0},
{8769,2,8764,824,0,0},
{8772,2,8771,824,0,0},
{8775,2,8773,824,0,0},
{8777,2,8776,824,0,0},
{8800,2,61,824,0,0},
{8802,2,8801,824,0,0},
{8813,2,8781,824,0,0},
{8814,2,60,824,0,0},
{8815,2,62,824,0,0},
{8816,2,8804,824,0,0},
{8817,2,8805,824,0,0},
{8820,2,8818,824,0,0},
{8821,2,8819,824,0,0},
{8824,2,8822,824,0,0},
{8825,2,8823,824,0,0},
{8832,2,8826,824,0,0},
{8833,2,8827,824,0,0},
{8836,2,8834,824,0,0},
{8837,2,8835,824,0,0},
{8840,2,8838,824,0,0},
{8841,2,8839,824,0,0},
{8876,2,8866,824,0,0},
{8877,2,8872,824,0,0},
{8878,2,8873,824,0,0},
{8879,2,8875,824,0,0},
{8928,2,8828,824,0,0},
{8929,2,8829,824,0,0},
{8930,2,8849,824,0,0},
{8931,2,8850,824,0,0},
{8938,2,8882,824,0,0},
{8939,2,8883,824,0,0},
{8940,2,8884,824,0,0},
{8941,2,8885,824,0,0},
{9001,1,12296,0,0,0},
{9002,1,12297,0,0,0},
{10972,2,10973,824,0,0},
{12364,2,12363,12441,0,0},
{12366,2,12365,12441,0,0},
{12368,2,12367,12441,0,0},
{12370,2,12369,12441,0,0},
{12372,2,12371,12441,0,0},
{12374,2,12373,12441,0,0},
{12376,2,12375,12441,0,0},
{12378,2,12377,12441,0,0},
{12380,2,12379,12441,0,0},
{12382,2,12381,12441,0,0},
{12384,2,12383,12441,0,0},
{12386,2,12385,12441,0,0},
{12389,2,12388,12441,0,0},
{12391,2,12390,12441,0,0},
{12393,2,12392,12441,0,0},
{12400,2,12399,12441,0,0},
{12401,2,12399,12442,0,0},
{12403,2,12402,12441,0,0},
{12404,2,12402,12442,0,0},
{12406,2,12405,12441,0,0},
{12407,2,12405,12442,0,0},
{12409,2,12408,12441,0,0},
{12410,2,12408,12442,0,0},
{12412,2,12411,12441,0,0},
{12413,2,12411,12442,0,0},
{12436,2,12358,12441,0,0},
{12446,2,12445,12441,0,0},
{12460,2,12459,12441,0,0},
{12462,2,12461,12441,0,0},
{12464,2,12463,12441,0,0},
{12466,2,12465,12441,0,0},
{12468,2,12467,12441,0,0},
{12470,2,12469,12441,0,0},
{12472,2,12471,12441,0,0},
{12474,2,12473,12441,0,0},
{12476,2,12475,12441,0,0},
{12478,2,12477,12441,0,0},
{12480,2,12479,12441,0,0},
{12482,2,12481,12441,0,0},
{12485,2,12484,12441,0,0},
{12487,2,12486,12441,0,0},
{12489,2,12488,12441,0,0},
{12496,2,12495,12441,0,0},
{12497,2,12495,12442,0,0},
{12499,2,12498,12441,0,0},
{12500,2,12498,12442,0,0},
{12502,2,12501,12441,0,0},
{12503,2,12501,12442,0,0},
{12505,2,12504,12441,0,0},
{12506,2,12504,12442,0,0},
{12508,2,12507,12441,0,0},
{12509,2,12507,12442,0,0},
{12532,2,12454,12441,0,0},
{12535,2,12527,12441,0,0},
{12536,2,12528,12441,0,0},
{12537,2,12529,12441,0,0},
{12538,2,12530,12441,0,0},
{12542,2,12541,12441,0,0},
{63744,1,35912,0,0,0},
{63745,1,26356,0,0,0},
{63746,1,36554,0,0,0},
{63747,1,36040,0,0,0},
{63748,1,28369,0,0,0},
{63749,1,20018,0,0,0},
{63750,1,21477,0,0,0},
{63751,1,40860,0,0,0},
{63752,1,40860,0,0,0},
{63753,1,22865,0,0,0},
{63754,1,37329,0,0,0},
{63755,1,21895,0,0,0},
{63756,1,22856,0,0,0},
{63757,1,25078,0,0,0},
{63758,1,30313,0,0,0},
{63759,1,32645,0,0,0},
{63760,1,34367,0,0,0},
{63761,1,34746,0,0,0},
{63762,1,35064,0,0,0},
{63763,1,37007,0,0,0},
{63764,1,27138,0,0,0},
{63765,1,27931,0,0,0},
{63766,1,28889,0,0,0},
{63767,1,29662,0,0,0},
{63768,1,33853,0,0,0},
{63769,1,37226,0,0,0},
{63770,1,39409,0,0,0},
{63771,1,20098,0,0,0},
{63772,1,21365,0,0,0},
{63773,1,27396,0,0,0},
{63774,1,29211,0,0,0},
{63775,1,34349,0,0,0},
{63776,1,40478,0,0,0},
{63777,1,23888,0,0,0},
{63778,1,28651,0,0,0},
{63779,1,34253,0,0,0},
{63780,1,35172,0,0,0},
{63781,1,25289,0,0,0},
{63782,1,33240,0,0,0},
{63783,1,34847,0,0,0},
{63784,1,24266,0,0,0},
{63785,1,26391,0,0,0},
{63786,1,28010,0,0,0},
{63787,1,29436,0,0,0},
{63788,1,37070,0,0,0},
{63789,1,20358,0,0,0},
{63790,1,20919,0,0,0},
{63791,1,21214,0,0,0},
{63792,1,25796,0,0,0},
{63793,1,27347,0,0,0},
{63794,1,29200,0,0,0},
{63795,1,30439,0,0,0},
{63796,1,32769,0,0,0},
{63797,1,34310,0,0,0},
{63798,1,34396,0,0,0},
{63799,1,36335,0,0,0},
{63800,1,38706,0,0,0},
{63801,1,39791,0,0,0},
{63802,1,40442,0,0,0},
{63803,1,30860,0,0,0},
{63804,1,31103,0,0,0},
{63805,1,32160,0,0,0},
{63806,1,33737,0,0,0},
{63807,1,37636,0,0,0},
{63808,1,40575,0,0,0},
{63809,1,35542,0,0,0},
{63810,1,22751,0,0,0},
{63811,1,24324,0,0,0},
{63812,1,31840,0,0,0},
{63813,1,32894,0,0,0},
{63814,1,29282,0,0,0},
{63815,1,30922,0,0,0},
{63816,1,36034,0,0,0},
{63817,1,38647,0,0,0},
{63818,1,22744,0,0,0},
{63819,1,23650,0,0,0},
{63820,1,27155,0,0,0},
{63821,1,28122,0,0,0},
{63822,1,28431,0,0,0},
{63823,1,32047,0,0,0},
{63824,1,32311,0,0,0},
{63825,1,38475,0,0,0},
{63826,1,21202,0,0,0},
{63827,1,32907,0,0,0},
{63828,1,20956,0,0,0},
{63829,1,20940,0,0,0},
{63830,1,31260,0,0,0},
{63831,1,32190,0,0,0},
{63832,1,33777,0,0,0},
{63833,1,38517,0,0,0},
{63834,1,35712,0,0,0},
{63835,1,25295,0,0,0},
{63836,1,27138,0,0,0},
{63837,1,35582,0,0,0},
{63838,1,20025,0,0,0},
{63839,1,23527,0,0,0},
{63840,1,24594,0,0,0},
{63841,1,29575,0,0,0},
{63842,1,30064,0,0,0},
{63843,1,21271,0,0,0},
{63844,1,30971,0,0,0},
{63845,1,20415,0,0,0},
{63846,1,24489,0,0,0},
{63847,1,19981,0,0,0},
{63848,1,27852,0,0,0},
{63849,1,25976,0,0,0},
{63850,1,32034,0,0,0},
{63851,1,21443,0,0,0},
{63852,1,22622,0,0,0},
{63853,1,30465,0,0,0},
{63854,1,33865,0,0,0},
{63855,1,35498,0,0,0},
{63856,1,27578,0,0,0},
{63857,1,36784,0,0,0},
{63858,1,27784,0,0,0},
{63859,1,25342,0,0,0},
{63860,1,33509,0,0,0},
{63861,1,25504,0,0,0},
{63862,1,30053,0,0,0},
{63863,1,20142,0,0,0},
{63864,1,20841,0,0,0},
{63865,1,20937,0,0,0},
{63866,1,26753,0,0,0},
{63867,1,31975,0,0,0},
{63868,1,33391,0,0,0},
{63869,1,35538,0,0,0},
{63870,1,37327,0,0,0},
{63871,1,21237,0,0,0},
{63872,1,21570,0,0,0},
{63873,1,22899,0,0,0},
{63874,1,24300,0,0,0},
{63875,1,26053,0,0,0},
{63876,1,28670,0,0,0},
{63877,1,31018,0,0,0},
{63878,1,38317,0,0,0},
{63879,1,39530,0,0,0},
{63880,1,40599,0,0,0},
{63881,1,40654,0,0,0},
{63882,1,21147,0,0,0},
{63883,1,26310,0,0,0},
{63884,1,27511,0,0,0},
{63885,1,36706,0,0,0},
{63886,1,24180,0,0,0},
{63887,1,24976,0,0,0},
{63888,1,25088,0,0,0},
{63889,1,25754,0,0,0},
{63890,1,28451,0,0,0},
{63891,1,29001,0,0,0},
{63892,1,29833,0,0,0},
{63893,1,31178,0,0,0},
{63894,1,32244,0,0,0},
{63895,1,32879,0,0,0},
{63896,1,36646,0,0,0},
{63897,1,34030,0,0,0},
{63898,1,36899,0,0,0},
{63899,1,37706,0,0,0},
{63900,1,21015,0,0,0},
{63901,1,21155,0,0,0},
{63902,1,21693,0,0,0},
{63903,1,28872,0,0,0},
{63904,1,35010,0,0,0},
{63905,1,35498,0,0,0},
{63906,1,24265,0,0,0},
{63907,1,24565,0,0,0},
{63908,1,25467,0,0,0},
{63909,1,27566,0,0,0},
{63910,1,31806,0,0,0},
{63911,1,29557,0,0,0},
{63912,1,20196,0,0,0},
{63913,1,22265,0,0,0},
{63914,1,23527,0,0,0},
{63915,1,23994,0,0,0},
{63916,1,24604,0,0,0},
{63917,1,29618,0,0,0},
{63918,1,29801,0,0,0},
{63919,1,32666,0,0,0},
{63920,1,32838,0,0,0},
{63921,1,37428,0,0,0},
{63922,1,38646,0,0,0},
{63923,1,38728,0,0,0},
{63924,1,38936,0,0,0},
{63925,1,20363,0,0,0},
{63926,1,31150,0,0,0},
{63927,1,37300,0,0,0},
{63928,1,38584,0,0,0},
{63929,1,24801,0,0,0},
{63930,1,20102,0,0,0},
{63931,1,20698,0,0,0},
{63932,1,23534,0,0,0},
{63933,1,23615,0,0,0},
{63934,1,26009,0,0,0},
{63935,1,27138,0,0,0},
{63936,1,29134,0,0,0},
{63937,1,30274,0,0,0},
{63938,1,34044,0,0,0},
{63939,1,36988,0,0,0},
{63940,1,40845,0,0,0},
{63941,1,26248,0,0,0},
{63942,1,38446,0,0,0},
{63943,1,21129,0,0,0},
{63944,1,26491,0,0,0},
{63945,1,26611,0,0,0},
{63946,1,27969,0,0,0},
{63947,1,28316,0,0,0},
{63948,1,29705,0,0,0},
{63949,1,30041,0,0,0},
{63950,1,30827,0,0,0},
{63951,1,32016,0,0,0},
{63952,1,39006,0,0,0},
{63953,1,20845,0,0,0},
{63954,1,25134,0,0,0},
{63955,1,38520,0,0,0},
{63956,1,20523,0,0,0},
{63957,1,23833,0,0,0},
{63958,1,28138,0,0,0},
{63959,1,36650,0,0,0},
{63960,1,24459,0,0,0},
{63961,1,24900,0,0,0},
{63962,1,26647,0,0,0},
{63963,1,29575,0,0,0},
{63964,1,38534,0,0,0},
{63965,1,21033,0,0,0},
{63966,1,21519,0,0,0},
{63967,1,23653,0,0,0},
{63968,1,26131,0,0,0},
{63969,1,26446,0,0,0},
{63970,1,26792,0,0,0},
{63971,1,27877,0,0,0},
{63972,1,29702,0,0,0},
{63973,1,30178,0,0,0},
{63974,1,32633,0,0,0},
{63975,1,35023,0,0,0},
{63976,1,35041,0,0,0},
{63977,1,37324,0,0,0},
{63978,1,38626,0,0,0},
{63979,1,21311,0,0,0},
{63980,1,28346,0,0,0},
{63981,1,21533,0,0,0},
{63982,1,29136,0,0,0},
{63983,1,29848,0,0,0},
{63984,1,34298,0,0,0},
{63985,1,38563,0,0,0},
{63986,1,40023,0,0,0},
{63987,1,40607,0,0,0},
{63988,1,26519,0,0,0},
{63989,1,28107,0,0,0},
{63990,1,33256,0,0,0},
{63991,1,31435,0,0,0},
{63992,1,31520,0,0,0},
{63993,1,31890,0,0,0},
{63994,1,29376,0,0,0},
{63995,1,28825,0,0,0},
{63996,1,35672,0,0,0},
{63997,1,20160,0,0,0},
{63998,1,33590,0,0,0},
{63999,1,21050,0,0,0},
{64000,1,20999,0,0,0},
{64001,1,24230,0,0,0},
{64002,1,25299,0,0,0},
{64003,1,31958,0,0,0},
{64004,1,23429,0,0,0},
{64005,1,27934,0,0,0},
{64006,1,26292,0,0,0},
{64007,1,36667,0,0,0},
{64008,1,34892,0,0,0},
{64009,1,38477,0,0,0},
{64010,1,35211,0,0,0},
{64011,1,24275,0,0,0},
{64012,1,20800,0,0,0},
{64013,1,21952,0,0,0},
{64016,1,22618,0,0,0},
{64018,1,26228,0,0,0},
{64021,1,20958,0,0,0},
{64022,1,29482,0,0,0},
{64023,1,30410,0,0,0},
{64024,1,31036,0,0,0},
{64025,1,31070,0,0,0},
{64026,1,31077,0,0,0},
{64027,1,31119,0,0,0},
{64028,1,38742,0,0,0},
{64029,1,31934,0,0,0},
{64030,1,32701,0,0,0},
{64032,1,34322,0,0,0},
{64034,1,35576,0,0,0},
{64037,1,36920,0,0,0},
{64038,1,37117,0,0,0},
{64042,1,39151,0,0,0},
{64043,1,39164,0,0,0},
{64044,1,39208,0,0,0},
{64045,1,40372,0,0,0},
{64046,1,37086,0,0,0},
{64047,1,38583,0,0,0},
{64048,1,20398,0,0,0},
{64049,1,20711,0,0,0},
{64050,1,20813,0,0,0},
{64051,1,21193,0,0,0},
{64052,1,21220,0,0,0},
{64053,1,21329,0,0,0},
{64054,1,21917,0,0,0},
{64055,1,22022,0,0,0},
{64056,1,22120,0,0,0},
{64057,1,22592,0,0,0},
{64058,1,22696,0,0,0},
{64059,1,23652,0,0,0},
{64060,1,23662,0,0,0},
{64061,1,24724,0,0,0},
{64062,1,24936,0,0,0},
{64063,1,24974,0,0,0},
{64064,1,25074,0,0,0},
{64065,1,25935,0,0,0},
{64066,1,26082,0,0,0},
{64067,1,26257,0,0,0},
{64068,1,26757,0,0,0},
{64069,1,28023,0,0,0},
{64070,1,28186,0,0,0},
{64071,1,28450,0,0,0},
{64072,1,29038,0,0,0},
{64073,1,29227,0,0,0},
{64074,1,29730,0,0,0},
{64075,1,30865,0,0,0},
{64076,1,31038,0,0,0},
{64077,1,31049,0,0,0},
{64078,1,31048,0,0,0},
{64079,1,31056,0,0,0},
{64080,1,31062,0,0,0},
{64081,1,31069,0,0,0},
{64082,1,31117,0,0,0},
{64083,1,31118,0,0,0},
{64084,1,31296,0,0,0},
{64085,1,31361,0,0,0},
{64086,1,31680,0,0,0},
{64087,1,32244,0,0,0},
{64088,1,32265,0,0,0},
{64089,1,32321,0,0,0},
{64090,1,32626,0,0,0},
{64091,1,32773,0,0,0},
{64092,1,33261,0,0,0},
{64093,1,33401,0,0,0},
{64094,1,33401,0,0,0},
{64095,1,33879,0,0,0},
{64096,1,35088,0,0,0},
{64097,1,35222,0,0,0},
{64098,1,35585,0,0,0},
{64099,1,35641,0,0,0},
{64100,1,36051,0,0,0},
{64101,1,36104,0,0,0},
{64102,1,36790,0,0,0},
{64103,1,36920,0,0,0},
{64104,1,38627,0,0,0},
{64105,1,38911,0,0,0},
{64106,1,38971,0,0,0},
{64107,1,24693,0,0,0},
{64108,1,148206,0,0,0},
{64109,1,33304,0,0,0},
{64112,1,20006,0,0,0},
{64113,1,20917,0,0,0},
{64114,1,20840,0,0,0},
{64115,1,20352,0,0,0},
{64116,1,20805,0,0,0},
{64117,1,20864,0,0,0},
{64118,1,21191,0,0,0},
{64119,1,21242,0,0,0},
{64120,1,21917,0,0,0},
{64121,1,21845,0,0,0},
{64122,1,21913,0,0,0},
{64123,1,21986,0,0,0},
{64124,1,22618,0,0,0},
{64125,1,22707,0,0,0},
{64126,1,22852,0,0,0},
{64127,1,22868,0,0,0},
{64128,1,23138,0,0,0},
{64129,1,23336,0,0,0},
{64130,1,24274,0,0,0},
{64131,1,24281,0,0,0},
{64132,1,24425,0,0,0},
{64133,1,24493,0,0,0},
{64134,1,24792,0,0,0},
{64135,1,24910,0,0,0},
{64136,1,24840,0,0,0},
{64137,1,24974,0,0,0},
{64138,1,24928,0,0,0},
{64139,1,25074,0,0,0},
{64140,1,25140,0,0,0},
{64141,1,25540,0,0,0},
{64142,1,25628,0,0,0},
{64143,1,25682,0,0,0},
{64144,1,25942,0,0,0},
{64145,1,26228,0,0,0},
{64146,1,26391,0,0,0},
{64147,1,26395,0,0,0},
{64148,1,26454,0,0,0},
{64149,1,27513,0,0,0},
{64150,1,27578,0,0,0},
{64151,1,27969,0,0,0},
{64152,1,28379,0,0,0},
{64153,1,28363,0,0,0},
{64154,1,28450,0,0,0},
{64155,1,28702,0,0,0},
{64156,1,29038,0,0,0},
{64157,1,30631,0,0,0},
{64158,1,29237,0,0,0},
{64159,1,29359,0,0,0},
{64160,1,29482,0,0,0},
{64161,1,29809,0,0,0},
{64162,1,29958,0,0,0},
{64163,1,30011,0,0,0},
{64164,1,30237,0,0,0},
{64165,1,30239,0,0,0},
{64166,1,30410,0,0,0},
{64167,1,30427,0,0,0},
{64168,1,30452,0,0,0},
{64169,1,30538,0,0,0},
{64170,1,30528,0,0,0},
{64171,1,30924,0,0,0},
{64172,1,31409,0,0,0},
{64173,1,31680,0,0,0},
{64174,1,31867,0,0,0},
{64175,1,32091,0,0,0},
{64176,1,32244,0,0,0},
{64177,1,32574,0,0,0},
{64178,1,32773,0,0,0},
{64179,1,33618,0,0,0},
{64180,1,33775,0,0,0},
{64181,1,34681,0,0,0},
{64182,1,35137,0,0,0},
{64183,1,35206,0,0,0},
{64184,1,35222,0,0,0},
{64185,1,35519,0,0,0},
{64186,1,35576,0,0,0},
{64187,1,35531,0,0,0},
{64188,1,35585,0,0,0},
{64189,1,35582,0,0,0},
{64190,1,35565,0,0,0},
{64191,1,35641,0,0,0},
{64192,1,35722,0,0,0},
{64193,1,36104,0,0,0},
{64194,1,36664,0,0,0},
{64195,1,36978,0,0,0},
{64196,1,37273,0,0,0},
{64197,1,37494,0,0,0},
{64198,1,38524,0,0,0},
{64199,1,38627,0,0,0},
{64200,1,38742,0,0,0},
{64201,1,38875,0,0,0},
{64202,1,38911,0,0,0},
{64203,1,38923,0,0,0},
{64204,1,38971,0,0,0},
{64205,1,39698,0,0,0},
{64206,1,40860,0,0,0},
{64207,1,141386,0,0,0},
{64208,1,141380,0,0,0},
{64209,1,144341,0,0,0},
{64210,1,15261,0,0,0},
{64211,1,16408,0,0,0},
{64212,1,16441,0,0,0},
{64213,1,152137,0,0,0},
{64214,1,154832,0,0,0},
{64215,1,163539,0,0,0},
{64216,1,40771,0,0,0},
{64217,1,40846,0,0,0},
{64285,2,1497,1460,0,0},
{64287,2,1522,1463,0,0},
{64298,2,1513,1473,0,0},
{64299,2,1513,1474,0,0},
{64300,3,1513,1468,1473,0},
{64301,3,1513,1468,1474,0},
{64302,2,1488,1463,0,0},
{64303,2,1488,1464,0,0},
{64304,2,1488,1468,0,0},
{64305,2,1489,1468,0,0},
{64306,2,1490,1468,0,0},
{64307,2,1491,1468,0,0},
{64308,2,1492,1468,0,0},
{64309,2,1493,1468,0,0},
{64310,2,1494,1468,0,0},
{64312,2,1496,1468,0,0},
{64313,2,1497,1468,0,0},
{64314,2,1498,1468,0,0},
{64315,2,1499,1468,0,0},
{64316,2,1500,1468,0,0},
{64318,2,1502,1468,0,0},
{64320,2,1504,1468,0,0},
{64321,2,1505,1468,0,0},
{64323,2,1507,1468,0,0},
{64324,2,1508,1468,0,0},
{64326,2,1510,1468,0,0},
{64327,2,1511,1468,0,0},
{64328,2,1512,1468,0,0},
{64329,2,1513,1468,0,0},
{64330,2,1514,1468,0,0},
{64331,2,1493,1465,0,0},
{64332,2,1489,1471,0,0},
{64333,2,1499,1471,0,0},
{64334,2,1508,1471,0,0},
{69786,2,69785,69818,0,0},
{69788,2,69787,69818,0,0},
{69803,2,69797,69818,0,0},
{69934,2,69937,69927,0,0},
{69935,2,69938,69927,0,0},
{70475,2,70471,70462,0,0},
{70476,2,70471,70487,0,0},
{70843,2,70841,70842,0,0},
{70844,2,70841,70832,0,0},
{70846,2,70841,70845,0,0},
{71098,2,71096,71087,0,0},
{71099,2,71097,71087,0,0},
{119134,2,119127,119141,0,0},
{119135,2,119128,119141,0,0},
{119136,3,119128,119141,119150,0},
{119137,3,119128,119141,119151,0},
{119138,3,119128,119141,119152,0},
{119139,3,119128,119141,119153,0},
{119140,3,119128,119141,119154,0},
{119227,2,119225,119141,0,0},
{119228,2,119226,119141,0,0},
{119229,3,119225,119141,119150,0},
{119230,3,119226,119141,119150,0},
{119231,3,119225,119141,119151,0},
{119232,3,119226,119141,119151,0},
{194560,1,20029,0,0,0},
{194561,1,20024,0,0,0},
{194562,1,20033,0,0,0},
{194563,1,131362,0,0,0},
{194564,1,20320,0,0,0},
{194565,1,20398,0,0,0},
{194566,1,20411,0,0,0},
{194567,1,20482,0,0,0},
{194568,1,20602,0,0,0},
{194569,1,20633,0,0,0},
{194570,1,20711,0,0,0},
{194571,1,20687,0,0,0},
{194572,1,13470,0,0,0},
{194573,1,132666,0,0,0},
{194574,1,20813,0,0,0},
{194575,1,20820,0,0,0},
{194576,1,20836,0,0,0},
{194577,1,20855,0,0,0},
{194578,1,132380,0,0,0},
{194579,1,13497,0,0,0},
{194580,1,20839,0,0,0},
{194581,1,20877,0,0,0},
{194582,1,132427,0,0,0},
{194583,1,20887,0,0,0},
{194584,1,20900,0,0,0},
{194585,1,20172,0,0,0},
{194586,1,20908,0,0,0},
{194587,1,20917,0,0,0},
{194588,1,168415,0,0,0},
{194589,1,20981,0,0,0},
{194590,1,20995,0,0,0},
{194591,1,13535,0,0,0},
{194592,1,21051,0,0,0},
{194593,1,21062,0,0,0},
{194594,1,21106,0,0,0},
{194595,1,21111,0,0,0},
{194596,1,13589,0,0,0},
{194597,1,21191,0,0,0},
{194598,1,21193,0,0,0},
{194599,1,21220,0,0,0},
{194600,1,21242,0,0,0},
{194601,1,21253,0,0,0},
{194602,1,21254,0,0,0},
{194603,1,21271,0,0,0},
{194604,1,21321,0,0,0},
{194605,1,21329,0,0,0},
{194606,1,21338,0,0,0},
{194607,1,21363,0,0,0},
{194608,1,21373,0,0,0},
{194609,1,21375,0,0,0},
{194610,1,21375,0,0,0},
{194611,1,21375,0,0,0},
{194612,1,133676,0,0,0},
{194613,1,28784,0,0,0},
{194614,1,21450,0,0,0},
{194615,1,21471,0,0,0},
{194616,1,133987,0,0,0},
{194617,1,21483,0,0,0},
{194618,1,21489,0,0,0},
{194619,1,21510,0,0,0},
{194620,1,21662,0,0,0},
{194621,1,21560,0,0,0},
{194622,1,21576,0,0,0},
{194623,1,21608,0,0,0},
{194624,1,21666,0,0,0},
{194625,1,21750,0,0,0},
{194626,1,21776,0,0,0},
{194627,1,21843,0,0,0},
{194628,1,21859,0,0,0},
{194629,1,21892,0,0,0},
{194630,1,21892,0,0,0},
{194631,1,21913,0,0,0},
{194632,1,21931,0,0,0},
{194633,1,21939,0,0,0},
{194634,1,21954,0,0,0},
{194635,1,22294,0,0,0},
{194636,1,22022,0,0,0},
{194637,1,22295,0,0,0},
{194638,1,22097,0,0,0},
{194639,1,22132,0,0,0},
{194640,1,20999,0,0,0},
{194641,1,22766,0,0,0},
{194642,1,22478,0,0,0},
{194643,1,22516,0,0,0},
{194644,1,22541,0,0,0},
{194645,1,22411,0,0,0},
{194646,1,22578,0,0,0},
{194647,1,22577,0,0,0},
{194648,1,22700,0,0,0},
{194649,1,136420,0,0,0},
{194650,1,22770,0,0,0},
{194651,1,22775,0,0,0},
{194652,1,22790,0,0,0},
{194653,1,22810,0,0,0},
{194654,1,22818,0,0,0},
{194655,1,22882,0,0,0},
{194656,1,136872,0,0,0},
{194657,1,136938,0,0,0},
{194658,1,23020,0,0,0},
{194659,1,23067,0,0,0},
{194660,1,23079,0,0,0},
{194661,1,23000,0,0,0},
{194662,1,23142,0,0,0},
{194663,1,14062,0,0,0},
{194664,1,14076,0,0,0},
{194665,1,23304,0,0,0},
{194666,1,23358,0,0,0},
{194667,1,23358,0,0,0},
{194668,1,137672,0,0,0},
{194669,1,23491,0,0,0},
{194670,1,23512,0,0,0},
{194671,1,23527,0,0,0},
{194672,1,23539,0,0,0},
{194673,1,138008,0,0,0},
{194674,1,23551,0,0,0},
{194675,1,23558,0,0,0},
{194676,1,24403,0,0,0},
{194677,1,23586,0,0,0},
{194678,1,14209,0,0,0},
{194679,1,23648,0,0,0},
{194680,1,23662,0,0,0},
{194681,1,23744,0,0,0},
{194682,1,23693,0,0,0},
{194683,1,138724,0,0,0},
{194684,1,23875,0,0,0},
{194685,1,138726,0,0,0},
{194686,1,23918,0,0,0},
{194687,1,23915,0,0,0},
{194688,1,23932,0,0,0},
{194689,1,24033,0,0,0},
{194690,1,24034,0,0,0},
{194691,1,14383,0,0,0},
{194692,1,24061,0,0,0},
{194693,1,24104,0,0,0},
{194694,1,24125,0,0,0},
{194695,1,24169,0,0,0},
{194696,1,14434,0,0,0},
{194697,1,139651,0,0,0},
{194698,1,14460,0,0,0},
{194699,1,24240,0,0,0},
{194700,1,24243,0,0,0},
{194701,1,24246,0,0,0},
{194702,1,24266,0,0,0},
{194703,1,172946,0,0,0},
{194704,1,24318,0,0,0},
{194705,1,140081,0,0,0},
{194706,1,140081,0,0,0},
{194707,1,33281,0,0,0},
{194708,1,24354,0,0,0},
{194709,1,24354,0,0,0},
{194710,1,14535,0,0,0},
{194711,1,144056,0,0,0},
{194712,1,156122,0,0,0},
{194713,1,24418,0,0,0},
{194714,1,24427,0,0,0},
{194715,1,14563,0,0,0},
{194716,1,24474,0,0,0},
{194717,1,24525,0,0,0},
{194718,1,24535,0,0,0},
{194719,1,24569,0,0,0},
{194720,1,24705,0,0,0},
{194721,1,14650,0,0,0},
{194722,1,14620,0,0,0},
{194723,1,24724,0,0,0},
{194724,1,141012,0,0,0},
{194725,1,24775,0,0,0},
{194726,1,24904,0,0,0},
{194727,1,24908,0,0,0},
{194728,1,24910,0,0,0},
{194729,1,24908,0,0,0},
{194730,1,24954,0,0,0},
{194731,1,24974,0,0,0},
{194732,1,25010,0,0,0},
{194733,1,24996,0,0,0},
{194734,1,25007,0,0,0},
{194735,1,25054,0,0,0},
{194736,1,25074,0,0,0},
{194737,1,25078,0,0,0},
{194738,1,25104,0,0,0},
{194739,1,25115,0,0,0},
{194740,1,25181,0,0,0},
{194741,1,25265,0,0,0},
{194742,1,25300,0,0,0},
{194743,1,25424,0,0,0},
{194744,1,142092,0,0,0},
{194745,1,25405,0,0,0},
{194746,1,25340,0,0,0},
{194747,1,25448,0,0,0},
{194748,1,25475,0,0,0},
{194749,1,25572,0,0,0},
{194750,1,142321,0,0,0},
{194751,1,25634,0,0,0},
{194752,1,25541,0,0,0},
{194753,1,25513,0,0,0},
{194754,1,14894,0,0,0},
{194755,1,25705,0,0,0},
{194756,1,25726,0,0,0},
{194757,1,25757,0,0,0},
{194758,1,25719,0,0,0},
{194759,1,14956,0,0,0},
{194760,1,25935,0,0,0},
{194761,1,25964,0,0,0},
{194762,1,143370,0,0,0},
{194763,1,26083,0,0,0},
{194764,1,26360,0,0,0},
{194765,1,26185,0,0,0},
{194766,1,15129,0,0,0},
{194767,1,26257,0,0,0},
{194768,1,15112,0,0,0},
{194769,1,15076,0,0,0},
{194770,1,20882,0,0,0},
{194771,1,20885,0,0,0},
{194772,1,26368,0,0,0},
{194773,1,26268,0,0,0},
{194774,1,32941,0,0,0},
{194775,1,17369,0,0,0},
{194776,1,26391,0,0,0},
{194777,1,26395,0,0,0},
{194778,1,26401,0,0,0},
{194779,1,26462,0,0,0},
{194780,1,26451,0,0,0},
{194781,1,144323,0,0,0},
{194782,1,15177,0,0,0},
{194783,1,26618,0,0,0},
{194784,1,26501,0,0,0},
{194785,1,26706,0,0,0},
{194786,1,26757,0,0,0},
{194787,1,144493,0,0,0},
{194788,1,26766,0,0,0},
{194789,1,26655,0,0,0},
{194790,1,26900,0,0,0},
{194791,1,15261,0,0,0},
{194792,1,26946,0,0,0},
{194793,1,27043,0,0,0},
{194794,1,27114,0,0,0},
{194795,1,27304,0,0,0},
{194796,1,145059,0,0,0},
{194797,1,27355,0,0,0},
{194798,1,15384,0,0,0},
{194799,1,27425,0,0,0},
{194800,1,145575,0,0,0},
{194801,1,27476,0,0,0},
{194802,1,15438,0,0,0},
{194803,1,27506,0,0,0},
{194804,1,27551,0,0,0},
{194805,1,27578,0,0,0},
{194806,1,27579,0,0,0},
{194807,1,146061,0,0,0},
{194808,1,138507,0,0,0},
{194809,1,146170,0,0,0},
{194810,1,27726,0,0,0},
{194811,1,146620,0,0,0},
{194812,1,27839,0,0,0},
{194813,1,27853,0,0,0},
{194814,1,27751,0,0,0},
{194815,1,27926,0,0,0},
{194816,1,27966,0,0,0},
{194817,1,28023,0,0,0},
{194818,1,27969,0,0,0},
{194819,1,28009,0,0,0},
{194820,1,28024,0,0,0},
{194821,1,28037,0,0,0},
{194822,1,146718,0,0,0},
{194823,1,27956,0,0,0},
{194824,1,28207,0,0,0},
{194825,1,28270,0,0,0},
{194826,1,15667,0,0,0},
{194827,1,28363,0,0,0},
{194828,1,28359,0,0,0},
{194829,1,147153,0,0,0},
{194830,1,28153,0,0,0},
{194831,1,28526,0,0,0},
{194832,1,147294,0,0,0},
{194833,1,147342,0,0,0},
{194834,1,28614,0,0,0},
{194835,1,28729,0,0,0},
{194836,1,28702,0,0,0},
{194837,1,28699,0,0,0},
{194838,1,15766,0,0,0},
{194839,1,28746,0,0,0},
{194840,1,28797,0,0,0},
{194841,1,28791,0,0,0},
{194842,1,28845,0,0,0},
{194843,1,132389,0,0,0},
{194844,1,28997,0,0,0},
{194845,1,148067,0,0,0},
{194846,1,29084,0,0,0},
{194847,1,148395,0,0,0},
{194848,1,29224,0,0,0},
{194849,1,29237,0,0,0},
{194850,1,29264,0,0,0},
{194851,1,149000,0,0,0},
{194852,1,29312,0,0,0},
{194853,1,29333,0,0,0},
{194854,1,149301,0,0,0},
{194855,1,149524,0,0,0},
{194856,1,29562,0,0,0},
{194857,1,29579,0,0,0},
{194858,1,16044,0,0,0},
{194859,1,29605,0,0,0},
{194860,1,16056,0,0,0},
{194861,1,16056,0,0,0},
{194862,1,29767,0,0,0},
{194863,1,29788,0,0,0},
{194864,1,29809,0,0,0},
{194865,1,29829,0,0,0},
{194866,1,29898,0,0,0},
{194867,1,16155,0,0,0},
{194868,1,29988,0,0,0},
{194869,1,150582,0,0,0},
{194870,1,30014,0,0,0},
{194871,1,150674,0,0,0},
{194872,1,30064,0,0,0},
{194873,1,139679,0,0,0},
{194874,1,30224,0,0,0},
{194875,1,151457,0,0,0},
{194876,1,151480,0,0,0},
{194877,1,151620,0,0,0},
{194878,1,16380,0,0,0},
{194879,1,16392,0,0,0},
{194880,1,30452,0,0,0},
{194881,1,151795,0,0,0},
{194882,1,151794,0,0,0},
{194883,1,151833,0,0,0},
{194884,1,151859,0,0,0},
{194885,1,30494,0,0,0},
{194886,1,30495,0,0,0},
{194887,1,30495,0,0,0},
{194888,1,30538,0,0,0},
{194889,1,16441,0,0,0},
{194890,1,30603,0,0,0},
{194891,1,16454,0,0,0},
{194892,1,16534,0,0,0},
{194893,1,152605,0,0,0},
{194894,1,30798,0,0,0},
{194895,1,30860,0,0,0},
{194896,1,30924,0,0,0},
{194897,1,16611,0,0,0},
{194898,1,153126,0,0,0},
{194899,1,31062,0,0,0},
{194900,1,153242,0,0,0},
{194901,1,153285,0,0,0},
{194902,1,31119,0,0,0},
{194903,1,31211,0,0,0},
{194904,1,16687,0,0,0},
{194905,1,31296,0,0,0},
{194906,1,31306,0,0,0},
{194907,1,31311,0,0,0},
{194908,1,153980,0,0,0},
{194909,1,154279,0,0,0},
{194910,1,154279,0,0,0},
{194911,1,31470,0,0,0},
{194912,1,16898,0,0,0},
{194913,1,154539,0,0,0},
{194914,1,31686,0,0,0},
{194915,1,31689,0,0,0},
{194916,1,16935,0,0,0},
{194917,1,154752,0,0,0},
{194918,1,31954,0,0,0},
{194919,1,17056,0,0,0},
{194920,1,31976,0,0,0},
{194921,1,31971,0,0,0},
{194922,1,32000,0,0,0},
{194923,1,155526,0,0,0},
{194924,1,32099,0,0,0},
{194925,1,17153,0,0,0},
{194926,1,32199,0,0,0},
{194927,1,32258,0,0,0},
{194928,1,32325,0,0,0},
{194929,1,17204,0,0,0},
{194930,1,156200,0,0,0},
{194931,1,156231,0,0,0},
{194932,1,17241,0,0,0},
{194933,1,156377,0,0,0},
{194934,1,32634,0,0,0},
{194935,1,156478,0,0,0},
{194936,1,32661,0,0,0},
{194937,1,32762,0,0,0},
{194938,1,32773,0,0,0},
{194939,1,156890,0,0,0},
{194940,1,156963,0,0,0},
{194941,1,32864,0,0,0},
{194942,1,157096,0,0,0},
{194943,1,32880,0,0,0},
{194944,1,144223,0,0,0},
{194945,1,17365,0,0,0},
{194946,1,32946,0,0,0},
{194947,1,33027,0,0,0},
{194948,1,17419,0,0,0},
{194949,1,33086,0,0,0},
{194950,1,23221,0,0,0},
{194951,1,157607,0,0,0},
{194952,1,157621,0,0,0},
{194953,1,144275,0,0,0},
{194954,1,144284,0,0,0},
{194955,1,33281,0,0,0},
{194956,1,33284,0,0,0},
{194957,1,36766,0,0,0},
{194958,1,17515,0,0,0},
{194959,1,33425,0,0,0},
{194960,1,33419,0,0,0},
{194961,1,33437,0,0,0},
{194962,1,21171,0,0,0},
{194963,1,33457,0,0,0},
{194964,1,33459,0,0,0},
{194965,1,33469,0,0,0},
{194966,1,33510,0,0,0},
{194967,1,158524,0,0,0},
{194968,1,33509,0,0,0},
{194969,1,33565,0,0,0},
{194970,1,33635,0,0,0},
{194971,1,33709,0,0,0},
{194972,1,33571,0,0,0},
{194973,1,33725,0,0,0},
{194974,1,33767,0,0,0},
{194975,1,33879,0,0,0},
{194976,1,33619,0,0,0},
{194977,1,33738,0,0,0},
{194978,1,33740,0,0,0},
{194979,1,33756,0,0,0},
{194980,1,158774,0,0,0},
{194981,1,159083,0,0,0},
{194982,1,158933,0,0,0},
{194983,1,17707,0,0,0},
{194984,1,34033,0,0,0},
{194985,1,34035,0,0,0},
{194986,1,34070,0,0,0},
{194987,1,160714,0,0,0},
{194988,1,34148,0,0,0},
{194989,1,159532,0,0,0},
{194990,1,17757,0,0,0},
{194991,1,17761,0,0,0},
{194992,1,159665,0,0,0},
{194993,1,159954,0,0,0},
{194994,1,17771,0,0,0},
{194995,1,34384,0,0,0},
{194996,1,34396,0,0,0},
{194997,1,34407,0,0,0},
{194998,1,34409,0,0,0},
{194999,1,34473,0,0,0},
{195000,1,34440,0,0,0},
{195001,1,34574,0,0,0},
{195002,1,34530,0,0,0},
{195003,1,34681,0,0,0},
{195004,1,34600,0,0,0},
{195005,1,34667,0,0,0},
{195006,1,34694,0,0,0},
{195007,1,17879,0,0,0},
{195008,1,34785,0,0,0},
{195009,1,34817,0,0,0},
{195010,1,17913,0,0,0},
{195011,1,34912,0,0,0},
{195012,1,34915,0,0,0},
{195013,1,161383,0,0,0},
{195014,1,35031,0,0,0},
{195015,1,35038,0,0,0},
{195016,1,17973,0,0,0},
{195017,1,35066,0,0,0},
{195018,1,13499,0,0,0},
{195019,1,161966,0,0,0},
{195020,1,162150,0,0,0},
{195021,1,18110,0,0,0},
{195022,1,18119,0,0,0},
{195023,1,35488,0,0,0},
{195024,1,35565,0,0,0},
{195025,1,35722,0,0,0},
{195026,1,35925,0,0,0},
{195027,1,162984,0,0,0},
{195028,1,36011,0,0,0},
{195029,1,36033,0,0,0},
{195030,1,36123,0,0,0},
{195031,1,36215,0,0,0},
{195032,1,163631,0,0,0},
{195033,1,133124,0,0,0},
{195034,1,36299,0,0,0},
{195035,1,36284,0,0,0},
{195036,1,36336,0,0,0},
{195037,1,133342,0,0,0},
{195038,1,36564,0,0,0},
{195039,1,36664,0,0,0},
{195040,1,165330,0,0,0},
{195041,1,165357,0,0,0},
{195042,1,37012,0,0,0},
{195043,1,37105,0,0,0},
{195044,1,37137,0,0,0},
{195045,1,165678,0,0,0},
{195046,1,37147,0,0,0},
{195047,1,37432,0,0,0},
{195048,1,37591,0,0,0},
{195049,1,37592,0,0,0},
{195050,1,37500,0,0,0},
{195051,1,37881,0,0,0},
{195052,1,37909,0,0,0},
{195053,1,166906,0,0,0},
{195054,1,38283,0,0,0},
{195055,1,18837,0,0,0},
{195056,1,38327,0,0,0},
{195057,1,167287,0,0,0},
{195058,1,18918,0,0,0},
{195059,1,38595,0,0,0},
{195060,1,23986,0,0,0},
{195061,1,38691,0,0,0},
{195062,1,168261,0,0,0},
{195063,1,168474,0,0,0},
{195064,1,19054,0,0,0},
{195065,1,19062,0,0,0},
{195066,1,38880,0,0,0},
{195067,1,168970,0,0,0},
{195068,1,19122,0,0,0},
{195069,1,169110,0,0,0},
{195070,1,38923,0,0,0},
{195071,1,38923,0,0,0},
{195072,1,38953,0,0,0},
{195073,1,169398,0,0,0},
{195074,1,39138,0,0,0},
{195075,1,19251,0,0,0},
{195076,1,39209,0,0,0},
{195077,1,39335,0,0,0},
{195078,1,39362,0,0,0},
{195079,1,39422,0,0,0},
{195080,1,19406,0,0,0},
{195081,1,170800,0,0,0},
{195082,1,39698,0,0,0},
{195083,1,40000,0,0,0},
{195084,1,40189,0,0,0},
{195085,1,19662,0,0,0},
{195086,1,19693,0,0,0},
{195087,1,40295,0,0,0},
{195088,1,172238,0,0,0},
{195089,1,19704,0,0,0},
{195090,1,172293,0,0,0},
{195091,1,172558,0,0,0},
{195092,1,172689,0,0,0},
{195093,1,40635,0,0,0},
{195094,1,19798,0,0,0},
{195095,1,40697,0,0,0},
{195096,1,40702,0,0,0},
{195097,1,40709,0,0,0},
{195098,1,40719,0,0,0},
{195099,1,40726,0,0,0},
{195100,1,40763,0,0,0},
{195101,1,173568,0,0,0}};
static const int u_kdec[][7] = {{160,1,32,0,0,0,0},
{168,2,32,776,0,0,0},
{170,1,97,0,0,0,0},
{175,2,32,772,0,0,0},
{178,1,50,0,0,0,0},
{179,1,51,0,0,0,0},
{180,2,32,769,0,0,0},
{181,1,956,0,0,0,0},
{184,2,32,807,0,0,0},
{185,1,49,0,0,0,0},
{186,1,111,0,0,0,0},
{188,3,49,8260,52,0,0},
{189,3,49,8260,50,0,0},
{190,3,51,8260,52,0,0},
{192,2,65,768,0,0,0},
{193,2,65,769,0,0,0},
{194,2,65,770,0,0,0},
{195,2,65,771,0,0,0},
{196,2,65,776,0,0,0},
{197,2,65,778,0,0,0},
{199,2,67,807,0,0,0},
{200,2,69,768,0,0,0},
{201,2,69,769,0,0,0},
{202,2,69,770,0,0,0},
{203,2,69,776,0,0,0},
{204,2,73,768,0,0,0},
{205,2,73,769,0,0,0},
{206,2,73,770,0,0,0},
{207,2,73,776,0,0,0},
{209,2,78,771,0,0,0},
{210,2,79,768,0,0,0},
{211,2,79,769,0,0,0},
{212,2,79,770,0,0,0},
{213,2,79,771,0,0,0},
{214,2,79,776,0,0,0},
{217,2,85,768,0,0,0},
{218,2,85,769,0,0,0},
{219,2,85,770,0,0,0},
{220,2,85,776,0,0,0},
{221,2,89,769,0,0,0},
{224,2,97,768,0,0,0},
{225,2,97,769,0,0,0},
{226,2,97,770,0,0,0},
{227,2,97,771,0,0,0},
{228,2,97,776,0,0,0},
{229,2,97,778,0,0,0},
{231,2,99,807,0,0,0},
{232,2,101,768,0,0,0},
{233,2,101,769,0,0,0},
{234,2,101,770,0,0,0},
{235,2,101,776,0,0,0},
{236,2,105,768,0,0,0},
{237,2,105,769,0,0,0},
{238,2,105,770,0,0,0},
{239,2,105,776,0,0,0},
{241,2,110,771,0,0,0},
{242,2,111,768,0,0,0},
{243,2,111,769,0,0,0},
{244,2,111,770,0,0,0},
{245,2,111,771,0,0,0},
{246,2,111,776,0,0,0},
{249,2,117,768,0,0,0},
{250,2,117,769,0,0,0},
{251,2,117,770,0,0,0},
{252,2,117,776,0,0,0},
{253,2,121,769,0,0,0},
{255,2,121,776,0,0,0},
{256,2,65,772,0,0,0},
{257,2,97,772,0,0,0},
{258,2,65,774,0,0,0},
{259,2,97,774,0,0,0},
{260,2,65,808,0,0,0},
{261,2,97,808,0,0,0},
{262,2,67,769,0,0,0},
{263,2,99,769,0,0,0},
{264,2,67,770,0,0,0},
{265,2,99,770,0,0,0},
{266,2,67,775,0,0,0},
{267,2,99,775,0,0,0},
{268,2,67,780,0,0,0},
{269,2,99,780,0,0,0},
{270,2,68,780,0,0,0},
{271,2,100,780,0,0,0},
{274,2,69,772,0,0,0},
{275,2,101,772,0,0,0},
{276,2,69,774,0,0,0},
{277,2,101,774,0,0,0},
{278,2,69,775,0,0,0},
{279,2,101,775,0,0,0},
{280,2,69,808,0,0,0},
{281,2,101,808,0,0,0},
{282,2,69,780,0,0,0},
{283,2,101,780,0,0,0},
{284,2,71,770,0,0,0},
{285,2,103,770,0,0,0},
{286,2,71,774,0,0,0},
{287,2,103,774,0,0,0},
{288,2,71,775,0,0,0},
{289,2,103,775,0,0,0},
{290,2,71,807,0,0,0},
{291,2,103,807,0,0,0},
{292,2,72,770,0,0,0},
{293,2,104,770,0,0,0},
{296,2,73,771,0,0,0},
{297,2,105,771,0,0,0},
{298,2,73,772,0,0,0},
{299,2,105,772,0,0,0},
{300,2,73,774,0,0,0},
{301,2,105,774,0,0,0},
{302,2,73,808,0,0,0},
{303,2,105,808,0,0,0},
{304,2,73,775,0,0,0},
{306,2,73,74,0,0,0},
{307,2,105,106,0,0,0},
{308,2,74,770,0,0,0},
{309,2,106,770,0,0,0},
{310,2,75,807,0,0,0},
{311,2,107,807,0,0,0},
{313,2,76,769,0,0,0},
{314,2,108,769,0,0,0},
{315,2,76,807,0,0,0},
{316,2,108,807,0,0,0},
{317,2,76,780,0,0,0},
{318,2,108,780,0,0,0},
{319,2,76,183,0,0,0},
{320,2,108,183,0,0,0},
{323,2,78,769,0,0,0},
{324,2,110,769,0,0,0},
{325,2,78,807,0,0,0},
{326,2,110,807,0,0,0},
{327,2,78,780,0,0,0},
{328,2,110,780,0,0,0},
{329,2,700,110,0,0,0},
{332,2,79,772,0,0,0},
{333,2,111,772,0,0,0},
{334,2,79,774,0,0,0},
{335,2,111,774,0,0,0},
{336,2,79,779,0,0,0},
{337,2,111,779,0,0,0},
{340,2,82,769,0,0,0},
{341,2,114,769,0,0,0},
{342,2,82,807,0,0,0},
{343,2,114,807,0,0,0},
{344,2,82,780,0,0,0},
{345,2,114,780,0,0,0},
{346,2,83,769,0,0,0},
{347,2,115,769,0,0,0},
{348,2,83,770,0,0,0},
{349,2,115,770,0,0,0},
{350,2,83,807,0,0,0},
{351,2,115,807,0,0,0},
{352,2,83,780,0,0,0},
{353,2,115,780,0,0,0},
{354,2,84,807,0,0,0},
{355,2,116,807,0,0,0},
{356,2,84,780,0,0,0},
{357,2,116,780,0,0,0},
{360,2,85,771,0,0,0},
{361,2,117,771,0,0,0},
{362,2,85,772,0,0,0},
{363,2,117,772,0,0,0},
{364,2,85,774,0,0,0},
{365,2,117,774,0,0,0},
{366,2,85,778,0,0,0},
{367,2,117,778,0,0,0},
{368,2,85,779,0,0,0},
{369,2,117,779,0,0,0},
{370,2,85,808,0,0,0},
{371,2,117,808,0,0,0},
{372,2,87,770,0,0,0},
{373,2,119,770,0,0,0},
{374,2,89,770,0,0,0},
{375,2,121,770,0,0,0},
{376,2,89,776,0,0,0},
{377,2,90,769,0,0,0},
{378,2,122,769,0,0,0},
{379,2,90,775,0,0,0},
{380,2,122,775,0,0,0},
{381,2,90,780,0,0,0},
{382,2,122,780,0,0,0},
{383,1,115,0,0,0,0},
{416,2,79,795,0,0,0},
{417,2,111,795,0,0,0},
{431,2,85,795,0,0,0},
{432,2,117,795,0,0,0},
{452,3,68,90,780,0,0},
{453,3,68,122,780,0,0},
{454,3,100,122,780,0,0},
{455,2,76,74,0,0,0},
{456,2,76,106,0,0,0},
{457,2,108,106,0,0,0},
{458,2,78,74,0,0,0},
{459,2,78,106,0,0,0},
{460,2,110,106,0,0,0},
{461,2,65,780,0,0,0},
{462,2,97,780,0,0,0},
{463,2,73,780,0,0,0},
{464,2,105,780,0,0,0},
{465,2,79,780,0,0,0},
{466,2,111,780,0,0,0},
{467,2,85,780,0,0,0},
{468,2,117,780,0,0,0},
{469,3,85,776,772,0,0},
{470,3,117,776,772,0,0},
{471,3,85,776,769,0,0},
{472,3,117,776,769,0,0},
{473,3,85,776,780,0,0},
{474,3,117,776,780,0,0},
{475,3,85,776,768,0,0},
{476,3,117,776,768,0,0},
{478,3,65,776,772,0,0},
{479,3,97,776,772,0,0},
{480,3,65,775,772,0,0},
{481,3,97,775,772,0,0},
{482,2,198,772,0,0,0},
{483,2,230,772,0,0,0},
{486,2,71,780,0,0,0},
{487,2,103,780,0,0,0},
{488,2,75,780,0,0,0},
{489,2,107,780,0,0,0},
{490,2,79,808,0,0,0},
{491,2,111,808,0,0,0},
{492,3,79,808,772,0,0},
{493,3,111,808,772,0,0},
{494,2,439,780,0,0,0},
{495,2,658,780,0,0,0},
{496,2,106,780,0,0,0},
{497,2,68,90,0,0,0},
{498,2,68,122,0,0,0},
{499,2,100,122,0,0,0},
{500,2,71,769,0,0,0},
{501,2,103,769,0,0,0},
{504,2,78,768,0,0,0},
{505,2,110,768,0,0,0},
{506,3,65,778,769,0,0},
{507,3,97,778,769,0,0},
{508,2,198,769,0,0,0},
{509,2,230,769,0,0,0},
{510,2,216,769,0,0,0},
{511,2,248,769,0,0,0},
{512,2,65,783,0,0,0},
{513,2,97,783,0,0,0},
{514,2,65,785,0,0,0},
{515,2,97,785,0,0,0},
{516,2,69,783,0,0,0},
{517,2,101,783,0,0,0},
{518,2,69,785,0,0,0},
{519,2,101,785,0,0,0},
{520,2,73,783,0,0,0},
{521,2,105,783,0,0,0},
{522,2,73,785,0,0,0},
{523,2,105,785,0,0,0},
{524,2,79,783,0,0,0},
{525,2,111,783,0,0,0},
{526,2,79,785,0,0,0},
{527,2,111,785,0,0,0},
{528,2,82,783,0,0,0},
{529,2,114,783,0,0,0},
{530,2,82,785,0,0,0},
{531,2,114,785,0,0,0},
{532,2,85,783,0,0,0},
{533,2,117,783,0,0,0},
{534,2,85,785,0,0,0},
{535,2,117,785,0,0,0},
{536,2,83,806,0,0,0},
{537,2,115,806,0,0,0},
{538,2,84,806,0,0,0},
{539,2,116,806,0,0,0},
{542,2,72,780,0,0,0},
{543,2,104,780,0,0,0},
{550,2,65,775,0,0,0},
{551,2,97,775,0,0,0},
{552,2,69,807,0,0,0},
{553,2,101,807,0,0,0},
{554,3,79,776,772,0,0},
{555,3,111,776,772,0,0},
{556,3,79,771,772,0,0},
{557,3,111,771,772,0,0},
{558,2,79,775,0,0,0},
{559,2,111,775,0,0,0},
{560,3,79,775,772,0,0},
{561,3,111,775,772,0,0},
{562,2,89,772,0,0,0},
{563,2,121,772,0,0,0},
{688,1,104,0,0,0,0},
{689,1,614,0,0,0,0},
{690,1,106,0,0,0,0},
{691,1,114,0,0,0,0},
{692,1,633,0,0,0,0},
{693,1,635,0,0,0,0},
{694,1,641,0,0,0,0},
{695,1,119,0,0,0,0},
{696,1,121,0,0,0,0},
{728,2,32,774,0,0,0},
{729,2,32,775,0,0,0},
{730,2,32,778,0,0,0},
{731,2,32,808,0,0,0},
{732,2,32,771,0,0,0},
{733,2,32,779,0,0,0},
{736,1,611,0,0,0,0},
{737,1,108,0,0,0,0},
{738,1,115,0,0,0,0},
{739,1,120,0,0,0,0},
{740,1,661,0,0,0,0},
{832,1,768,0,0,0,0},
{833,1,769,0,0,0,0},
{835,1,787,0,0,0,0},
{836,2,776,769,0,0,0},
{884,1,697,0,0,0,0},
{890,2,32,837,0,0,0},
{894,1,59,0,0,0,0},
{900,2,32,769,0,0,0},
{901,3,32,776,769,0,0},
{902,2,913,769,0,0,0},
{903,1,183,0,0,0,0},
{904,2,917,769,0,0,0},
{905,2,919,769,0,0,0},
{906,2,921,769,0,0,0},
{908,2,927,769,0,0,0},
{910,2,933,769,0,0,0},
{911,2,937,769,0,0,0},
{912,3,953,776,769,0,0},
{938,2,921,776,0,0,0},
{939,2,933,776,0,0,0},
{940,2,945,769,0,0,0},
{941,2,949,769,0,0,0},
{942,2,951,769,0,0,0},
{943,2,953,769,0,0,0},
{944,3,965,776,769,0,0},
{970,2,953,776,0,0,0},
{971,2,965,776,0,0,0},
{972,2,959,769,0,0,0},
{973,2,965,769,0,0,0},
{974,2,969,769,0,0,0},
{976,1,946,0,0,0,0},
{977,1,952,0,0,0,0},
{978,1,933,0,0,0,0},
{979,2,933,769,0,0,0},
{980,2,933,776,0,0,0},
{981,1,966,0,0,0,0},
{982,1,960,0,0,0,0},
{1008,1,954,0,0,0,0},
{1009,1,961,0,0,0,0},
{1010,1,962,0,0,0,0},
{1012,1,920,0,0,0,0},
{1013,1,949,0,0,0,0},
{1017,1,931,0,0,0,0},
{1024,2,1045,768,0,0,0},
{1025,2,1045,776,0,0,0},
{1027,2,1043,769,0,0,0},
{1031,2,1030,776,0,0,0},
{1036,2,1050,769,0,0,0},
{1037,2,1048,768,0,0,0},
{1038,2,1059,774,0,0,0},
{1049,2,1048,774,0,0,0},
{1081,2,1080,774,0,0,0},
{1104,2,1077,768,0,0,0},
{1105,2,1077,776,0,0,0},
{1107,2,1075,769,0,0,0},
{1111,2,1110,776,0,0,0},
{1116,2,1082,769,0,0,0},
{1117,2,1080,768,0,0,0},
{1118,2,1091,774,0,0,0},
{1142,2,1140,783,0,0,0},
{1143,2,1141,783,0,0,0},
{1217,2,1046,774,0,0,0},
{1218,2,1078,774,0,0,0},
{1232,2,1040,774,0,0,0},
{1233,2,1072,774,0,0,0},
{1234,2,1040,776,0,0,0},
{1235,2,1072,776,0,0,0},
{1238,2,1045,774,0,0,0},
{1239,2,1077,774,0,0,0},
{1242,2,1240,776,0,0,0},
{1243,2,1241,776,0,0,0},
{1244,2,1046,776,0,0,0},
{1245,2,1078,776,0,0,0},
{1246,2,1047,776,0,0,0},
{1247,2,1079,776,0,0,0},
{1250,2,1048,772,0,0,0},
{1251,2,1080,772,0,0,0},
{1252,2,1048,776,0,0,0},
{1253,2,1080,776,0,0,0},
{1254,2,1054,776,0,0,0},
{1255,2,1086,776,0,0,0},
{1258,2,1256,776,0,0,0},
{1259,2,1257,776,0,0,0},
{1260,2,1069,776,0,0,0},
{1261,2,1101,776,0,0,0},
{1262,2,1059,772,0,0,0},
{1263,2,1091,772,0,0,0},
{1264,2,1059,776,0,0,0},
{1265,2,1091,776,0,0,0},
{1266,2,1059,779,0,0,0},
{1267,2,1091,779,0,0,0},
{1268,2,1063,776,0,0,0},
{1269,2,1095,776,0,0,0},
{1272,2,1067,776,0,0,0},
{1273,2,1099,776,0,0,0},
{1415,2,1381,1410,0,0,0},
{1570,2,1575,1619,0,0,0},
{1571,2,1575,1620,0,0,0},
{1572,2,1608,1620,0,0,0},
{1573,2,1575,1621,0,0,0},
{1574,2,1610,1620,0,0,0},
{1653,2,1575,1652,0,0,0},
{1654,2,1608,1652,0,0,0},
{1655,2,1735,1652,0,0,0},
{1656,2,1610,1652,0,0,0},
{1728,2,1749,1620,0,0,0},
{1730,2,1729,1620,0,0,0},
{1747,2,1746,1620,0,0,0},
{2345,2,2344,2364,0,0,0},
{2353,2,2352,2364,0,0,0},
{2356,2,2355,2364,0,0,0},
{2392,2,2325,2364,0,0,0},
{2393,2,2326,2364,0,0,0},
{2394,2,2327,2364,0,0,0},
{2395,2,2332,2364,0,0,0},
{2396,2,2337,2364,0,0,0},
{2397,2,2338,2364,0,0,0},
{2398,2,2347,2364,0,0,0},
{2399,2,2351,2364,0,0,0},
{2507,2,2503,2494,0,0,0},
{2508,2,2503,2519,0,0,0},
{2524,2,2465,2492,0,0,0},
{2525,2,2466,2492,0,0,0},
{2527,2,2479,2492,0,0,0},
{2611,2,2610,2620,0,0,0},
{2614,2,2616,2620,0,0,0},
{2649,2,2582,2620,0,0,0},
{2650,2,2583,2620,0,0,0},
{2651,2,2588,2620,0,0,0},
{2654,2,2603,2620,0,0,0},
{2888,2,2887,2902,0,0,0},
{2891,2,2887,2878,0,0,0},
{2892,2,2887,2903,0,0,0},
{2908,2,2849,2876,0,0,0},
{2909,2,2850,2876,0,0,0},
{2964,2,2962,3031,0,0,0},
{3018,2,3014,3006,0,0,0},
{3019,2,3015,3006,0,0,0},
{3020,2,3014,3031,0,0,0},
{3144,2,3142,3158,0,0,0},
{3264,2,3263,3285,0,0,0},
{3271,2,3270,3285,0,0,0},
{3272,2,3270,3286,0,0,0},
{3274,2,3270,3266,0,0,0},
{3275,3,3270,3266,3285,0,0},
{3402,2,3398,3390,0,0,0},
{3403,2,3399,3390,0,0,0},
{3404,2,3398,3415,0,0,0},
{3546,2,3545,3530,0,0,0},
{3548,2,3545,3535,0,0,0},
{3549,3,3545,3535,3530,0,0},
{3550,2,3545,3551,0,0,0},
{3635,2,3661,3634,0,0,0},
{3763,2,3789,3762,0,0,0},
{3804,2,3755,3737,0,0,0},
{3805,2,3755,3745,0,0,0},
{3852,1,3851,0,0,0,0},
{3907,2,3906,4023,0,0,0},
{3917,2,3916,4023,0,0,0},
{3922,2,3921,4023,0,0,0},
{3927,2,3926,4023,0,0,0},
{3932,2,3931,4023,0,0,0},
{3945,2,3904,4021,0,0,0},
{3955,2,3953,3954,0,0,0},
{3957,2,3953,3956,0,0,0},
{3958,2,4018,3968,0,0,0},
{3959,3,4018,3953,3968,0,0},
{3960,2,4019,3968,0,0,0},
{3961,3,4019,3953,3968,0,0},
{3969,2,3953,3968,0,0,0},
{3987,2,3986,4023,0,0,0},
{3997,2,3996,4023,0,0,0},
{4002,2,4001,4023,0,0,0},
{4007,2,4006,4023,0,0,0},
{4012,2,4011,4023,0,0,0},
{4025,2,3984,4021,0,0,0},
{4134,2,4133,4142,0,0,0},
{4348,1,4316,0,0,0,0},
{6918,2,6917,6965,0,0,0},
{6920,2,6919,6965,0,0,0},
{6922,2,6921,6965,0,0,0},
{6924,2,6923,6965,0,0,0},
{6926,2,6925,6965,0,0,0},
{6930,2,6929,6965,0,0,0},
{6971,2,6970,6965,0,0,0},
{6973,2,6972,6965,0,0,0},
{6976,2,6974,6965,0,0,0},
{6977,2,6975,6965,0,0,0},
{6979,2,6978,6965,0,0,0},
{7468,1,65,0,0,0,0},
{7469,1,198,0,0,0,0},
{7470,1,66,0,0,0,0},
{7472,1,68,0,0,0,0},
{7473,1,69,0,0,0,0},
{7474,1,398,0,0,0,0},
{7475,1,71,0,0,0,0},
{7476,1,72,0,0,0,0},
{7477,1,73,0,0,0,0},
{7478,1,74,0,0,0,0},
{7479,1,75,0,0,0,0},
{7480,1,76,0,0,0,0},
{7481,1,77,0,0,0,0},
{7482,1,78,0,0,0,0},
{7484,1,79,0,0,0,0},
{7485,1,546,0,0,0,0},
{7486,1,80,0,0,0,0},
{7487,1,82,0,0,0,0},
{7488,1,84,0,0,0,0},
{7489,1,85,0,0,0,0},
{7490,1,87,0,0,0,0},
{7491,1,97,0,0,0,0},
{7492,1,592,0,0,0,0},
{7493,1,593,0,0,0,0},
{7494,1,7426,0,0,0,0},
{7495,1,98,0,0,0,0},
{7496,1,100,0,0,0,0},
{7497,1,101,0,0,0,0},
{7498,1,601,0,0,0,0},
{7499,1,603,0,0,0,0},
{7500,1,604,0,0,0,0},
{7501,1,103,0,0,0,0},
{7503,1,107,0,0,0,0},
{7504,1,109,0,0,0,0},
{7505,1,331,0,0,0,0},
{7506,1,111,0,0,0,0},
{7507,1,596,0,0,0,0},
{7508,1,7446,0,0,0,0},
{7509,1,7447,0,0,0,0},
{7510,1,112,0,0,0,0},
{7511,1,116,0,0,0,0},
{7512,1,117,0,0,0,0},
{7513,1,7453,0,0,0,0},
{7514,1,623,0,0,0,0},
{7515,1,118,0,0,0,0},
{7516,1,7461,0,0,0,0},
{7517,1,946,0,0,0,0},
{7518,1,947,0,0,0,0},
{7519,1,948,0,0,0,0},
{7520,1,966,0,0,0,0},
{7521,1,967,0,0,0,0},
{7522,1,105,0,0,0,0},
{7523,1,114,0,0,0,0},
{7524,1,117,0,0,0,0},
{7525,1,118,0,0,0,0},
{7526,1,946,0,0,0,0},
{7527,1,947,0,0,0,0},
{7528,1,961,0,0,0,0},
{7529,1,966,0,0,0,0},
{7530,1,967,0,0,0,0},
{7544,1,1085,0,0,0,0},
{7579,1,594,0,0,0,0},
{7580,1,99,0,0,0,0},
{7581,1,597,0,0,0,0},
{7582,1,240,0,0,0,0},
{7583,1,604,0,0,0,0},
{7584,1,102,0,0,0,0},
{7585,1,607,0,0,0,0},
{7586,1,609,0,0,0,0},
{7587,1,613,0,0,0,0},
{7588,1,616,0,0,0,0},
{7589,1,617,0,0,0,0},
{7590,1,618,0,0,0,0},
{7591,1,7547,0,0,0,0},
{7592,1,669,0,0,0,0},
{7593,1,621,0,0,0,0},
{7594,1,7557,0,0,0,0},
{7595,1,671,0,0,0,0},
{7596,1,625,0,0,0,0},
{7597,1,624,0,0,0,0},
{7598,1,626,0,0,0,0},
{7599,1,627,0,0,0,0},
{7600,1,628,0,0,0,0},
{7601,1,629,0,0,0,0},
{7602,1,632,0,0,0,0},
{7603,1,642,0,0,0,0},
{7604,1,643,0,0,0,0},
{7605,1,427,0,0,0,0},
{7606,1,649,0,0,0,0},
{7607,1,650,0,0,0,0},
{7608,1,7452,0,0,0,0},
{7609,1,651,0,0,0,0},
{7610,1,652,0,0,0,0},
{7611,1,122,0,0,0,0},
{7612,1,656,0,0,0,0},
{7613,1,657,0,0,0,0},
{7614,1,658,0,0,0,0},
{7615,1,952,0,0,0,0},
{7680,2,65,805,0,0,0},
{7681,2,97,805,0,0,0},
{7682,2,66,775,0,0,0},
{7683,2,98,775,0,0,0},
{7684,2,66,803,0,0,0},
{7685,2,98,803,0,0,0},
{7686,2,66,817,0,0,0},
{7687,2,98,817,0,0,0},
{7688,3,67,807,769,0,0},
{7689,3,99,807,769,0,0},
{7690,2,68,775,0,0,0},
{7691,2,100,775,0,0,0},
{7692,2,68,803,0,0,0},
{7693,2,100,803,0,0,0},
{7694,2,68,817,0,0,0},
{7695,2,100,817,0,0,0},
{7696,2,68,807,0,0,0},
{7697,2,100,807,0,0,0},
{7698,2,68,813,0,0,0},
{7699,2,100,813,0,0,0},
{7700,3,69,772,768,0,0},
{7701,3,101,772,768,0,0},
{7702,3,69,772,769,0,0},
{7703,3,101,772,769,0,0},
{7704,2,69,813,0,0,0},
{7705,2,101,813,0,0,0},
{7706,2,69,816,0,0,0},
{7707,2,101,816,0,0,0},
{7708,3,69,807,774,0,0},
{7709,3,101,807,774,0,0},
{7710,2,70,775,0,0,0},
{7711,2,102,775,0,0,0},
{7712,2,71,772,0,0,0},
{7713,2,103,772,0,0,0},
{7714,2,72,775,0,0,0},
{7715,2,104,775,0,0,0},
{7716,2,72,803,0,0,0},
{7717,2,104,803,0,0,0},
{7718,2,72,776,0,0,0},
{7719,2,104,776,0,0,0},
{7720,2,72,807,0,0,0},
{7721,2,104,807,0,0,0},
{7722,2,72,814,0,0,0},
{7723,2,104,814,0,0,0},
{7724,2,73,816,0,0,0},
{7725,2,105,816,0,0,0},
{7726,3,73,776,769,0,0},
{7727,3,105,776,769,0,0},
{7728,2,75,769,0,0,0},
{7729,2,107,769,0,0,0},
{7730,2,75,803,0,0,0},
{7731,2,107,803,0,0,0},
{7732,2,75,817,0,0,0},
{7733,2,107,817,0,0,0},
{7734,2,76,803,0,0,0},
{7735,2,108,803,0,0,0},
{7736,3,76,803,772,0,0},
{7737,3,108,803,772,0,0},
{7738,2,76,817,0,0,0},
{7739,2,108,817,0,0,0},
{7740,2,76,813,0,0,0},
{7741,2,108,813,0,0,0},
{7742,2,77,769,0,0,0},
{7743,2,109,769,0,0,0},
{7744,2,77,775,0,0,0},
{7745,2,109,775,0,0,0},
{7746,2,77,803,0,0,0},
{7747,2,109,803,0,0,0},
{7748,2,78,775,0,0,0},
{7749,2,110,775,0,0,0},
{7750,2,78,803,0,0,0},
{7751,2,110,803,0,0,0},
{7752,2,78,817,0,0,0},
{7753,2,110,817,0,0,0},
{7754,2,78,813,0,0,0},
{7755,2,110,813,0,0,0},
{7756,3,79,771,769,0,0},
{7757,3,111,771,769,0,0},
{7758,3,79,771,776,0,0},
{7759,3,111,771,776,0,0},
{7760,3,79,772,768,0,0},
{7761,3,111,772,768,0,0},
{7762,3,79,772,769,0,0},
{7763,3,111,772,769,0,0},
{7764,2,80,769,0,0,0},
{7765,2,112,769,0,0,0},
{7766,2,80,775,0,0,0},
{7767,2,112,775,0,0,0},
{7768,2,82,775,0,0,0},
{7769,2,114,775,0,0,0},
{7770,2,82,803,0,0,0},
{7771,2,114,803,0,0,0},
{7772,3,82,803,772,0,0},
{7773,3,114,803,772,0,0},
{7774,2,82,817,0,0,0},
{7775,2,114,817,0,0,0},
{7776,2,83,775,0,0,0},
{7777,2,115,775,0,0,0},
{7778,2,83,803,0,0,0},
{7779,2,115,803,0,0,0},
{7780,3,83,769,775,0,0},
{7781,3,115,769,775,0,0},
{7782,3,83,780,775,0,0},
{7783,3,115,780,775,0,0},
{7784,3,83,803,775,0,0},
{7785,3,115,803,775,0,0},
{7786,2,84,775,0,0,0},
{7787,2,116,775,0,0,0},
{7788,2,84,803,0,0,0},
{7789,2,116,803,0,0,0},
{7790,2,84,817,0,0,0},
{7791,2,116,817,0,0,0},
{7792,2,84,813,0,0,0},
{7793,2,116,813,0,0,0},
{7794,2,85,804,0,0,0},
{7795,2,117,804,0,0,0},
{7796,2,85,816,0,0,0},
{7797,2,117,816,0,0,0},
{7798,2,85,813,0,0,0},
{7799,2,117,813,0,0,0},
{7800,3,85,771,769,0,0},
{7801,3,117,771,769,0,0},
{7802,3,85,772,776,0,0},
{7803,3,117,772,776,0,0},
{7804,2,86,771,0,0,0},
{7805,2,118,771,0,0,0},
{7806,2,86,803,0,0,0},
{7807,2,118,803,0,0,0},
{7808,2,87,768,0,0,0},
{7809,2,119,768,0,0,0},
{7810,2,87,769,0,0,0},
{7811,2,119,769,0,0,0},
{7812,2,87,776,0,0,0},
{7813,2,119,776,0,0,0},
{7814,2,87,775,0,0,0},
{7815,2,119,775,0,0,0},
{7816,2,87,803,0,0,0},
{7817,2,119,803,0,0,0},
{7818,2,88,775,0,0,0},
{7819,2,120,775,0,0,0},
{7820,2,88,776,0,0,0},
{7821,2,120,776,0,0,0},
{7822,2,89,775,0,0,0},
{7823,2,121,775,0,0,0},
{7824,2,90,770,0,0,0},
{7825,2,122,770,0,0,0},
{7826,2,90,803,0,0,0},
{7827,2,122,803,0,0,0},
{7828,2,90,817,0,0,0},
{7829,2,122,817,0,0,0},
{7830,2,104,817,0,0,0},
{7831,2,116,776,0,0,0},
{7832,2,119,778,0,0,0},
{7833,2,121,778,0,0,0},
{7834,2,97,702,0,0,0},
{7835,2,115,775,0,0,0},
{7840,2,65,803,0,0,0},
{7841,2,97,803,0,0,0},
{7842,2,65,777,0,0,0},
{7843,2,97,777,0,0,0},
{7844,3,65,770,769,0,0},
{7845,3,97,770,769,0,0},
{7846,3,65,770,768,0,0},
{7847,3,97,770,768,0,0},
{7848,3,65,770,777,0,0},
{7849,3,97,770,777,0,0},
{7850,3,65,770,771,0,0},
{7851,3,97,770,771,0,0},
{7852,3,65,803,770,0,0},
{7853,3,97,803,770,0,0},
{7854,3,65,774,769,0,0},
{7855,3,97,774,769,0,0},
{7856,3,65,774,768,0,0},
{7857,3,97,774,768,0,0},
{7858,3,65,774,777,0,0},
{7859,3,97,774,777,0,0},
{7860,3,65,774,771,0,0},
{7861,3,97,774,771,0,0},
{7862,3,65,803,774,0,0},
{7863,3,97,803,774,0,0},
{7864,2,69,803,0,0,0},
{7865,2,101,803,0,0,0},
{7866,2,69,777,0,0,0},
{7867,2,101,777,0,0,0},
{7868,2,69,771,0,0,0},
{7869,2,101,771,0,0,0},
{7870,3,69,770,769,0,0},
{7871,3,101,770,769,0,0},
{7872,3,69,770,768,0,0},
{7873,3,101,770,768,0,0},
{7874,3,69,770,777,0,0},
{7875,3,101,770,777,0,0},
{7876,3,69,770,771,0,0},
{7877,3,101,770,771,0,0},
{7878,3,69,803,770,0,0},
{7879,3,101,803,770,0,0},
{7880,2,73,777,0,0,0},
{7881,2,105,777,0,0,0},
{7882,2,73,803,0,0,0},
{7883,2,105,803,0,0,0},
{7884,2,79,803,0,0,0},
{7885,2,111,803,0,0,0},
{7886,2,79,777,0,0,0},
{7887,2,111,777,0,0,0},
{7888,3,79,770,769,0,0},
{7889,3,111,770,769,0,0},
{7890,3,79,770,768,0,0},
{7891,3,111,770,768,0,0},
{7892,3,79,770,777,0,0},
{7893,3,111,770,777,0,0},
{7894,3,79,770,771,0,0},
{7895,3,111,770,771,0,0},
{7896,3,79,803,770,0,0},
{7897,3,111,803,770,0,0},
{7898,3,79,795,769,0,0},
{7899,3,111,795,769,0,0},
{7900,3,79,795,768,0,0},
{7901,3,111,795,768,0,0},
{7902,3,79,795,777,0,0},
{7903,3,111,795,777,0,0},
{7904,3,79,795,771,0,0},
{7905,3,111,795,771,0,0},
{7906,3,79,795,803,0,0},
{7907,3,111,795,803,0,0},
{7908,2,85,803,0,0,0},
{7909,2,117,803,0,0,0},
{7910,2,85,777,0,0,0},
{7911,2,117,777,0,0,0},
{7912,3,85,795,769,0,0},
{7913,3,117,795,769,0,0},
{7914,3,85,795,768,0,0},
{7915,3,117,795,768,0,0},
{7916,3,85,795,777,0,0},
{7917,3,117,795,777,0,0},
{7918,3,85,795,771,0,0},
{7919,3,117,795,771,0,0},
{7920,3,85,795,803,0,0},
{7921,3,117,795,803,0,0},
{7922,2,89,768,0,0,0},
{7923,2,121,768,0,0,0},
{7924,2,89,803,0,0,0},
{7925,2,121,803,0,0,0},
{7926,2,89,777,0,0,0},
{7927,2,121,777,0,0,0},
{7928,2,89,771,0,0,0},
{7929,2,121,771,0,0,0},
{7936,2,945,787,0,0,0},
{7937,2,945,788,0,0,0},
{7938,3,945,787,768,0,0},
{7939,3,945,788,768,0,0},
{7940,3,945,787,769,0,0},
{7941,3,945,788,769,0,0},
{7942,3,945,787,834,0,0},
{7943,3,945,788,834,0,0},
{7944,2,913,787,0,0,0},
{7945,2,913,788,0,0,0},
{7946,3,913,787,768,0,0},
{7947,3,913,788,768,0,0},
{7948,3,913,787,769,0,0},
{7949,3,913,788,769,0,0},
{7950,3,913,787,834,0,0},
{7951,3,913,788,834,0,0},
{7952,2,949,787,0,0,0},
{7953,2,949,788,0,0,0},
{7954,3,949,787,768,0,0},
{7955,3,949,788,768,0,0},
{7956,3,949,787,769,0,0},
{7957,3,949,788,769,0,0},
{7960,2,917,787,0,0,0},
{7961,2,917,788,0,0,0},
{7962,3,917,787,768,0,0},
{7963,3,917,788,768,0,0},
{7964,3,917,787,769,0,0},
{7965,3,917,788,769,0,0},
{7968,2,951,787,0,0,0},
{7969,2,951,788,0,0,0},
{7970,3,951,787,768,0,0},
{7971,3,951,788,768,0,0},
{7972,3,951,787,769,0,0},
{7973,3,951,788,769,0,0},
{7974,3,951,787,834,0,0},
{7975,3,951,788,834,0,0},
{7976,2,919,787,0,0,0},
{7977,2,919,788,0,0,0},
{7978,3,919,787,768,0,0},
{7979,3,919,788,768,0,0},
{7980,3,919,787,769,0,0},
{7981,3,919,788,769,0,0},
{7982,3,919,787,834,0,0},
{7983,3,919,788,834,0,0},
{7984,2,953,787,0,0,0},
{7985,2,953,788,0,0,0},
{7986,3,953,787,768,0,0},
{7987,3,953,788,768,0,0},
{7988,3,953,787,769,0,0},
{7989,3,953,788,769,0,0},
{7990,3,953,787,834,0,0},
{7991,3,953,788,834,0,0},
{7992,2,921,787,0,0,0},
{7993,2,921,788,0,0,0},
{7994,3,921,787,768,0,0},
{7995,3,921,788,768,0,0},
{7996,3,921,787,769,0,0},
{7997,3,921,788,769,0,0},
{7998,3,921,787,834,0,0},
{7999,3,921,788,834,0,0},
{8000,2,959,787,0,0,0},
{8001,2,959,788,0,0,0},
{8002,3,959,787,768,0,0},
{8003,3,959,788,768,0,0},
{8004,3,959,787,769,0,0},
{8005,3,959,788,769,0,0},
{8008,2,927,787,0,0,0},
{8009,2,927,788,0,0,0},
{8010,3,927,787,768,0,0},
{8011,3,927,788,768,0,0},
{8012,3,927,787,769,0,0},
{8013,3,927,788,769,0,0},
{8016,2,965,787,0,0,0},
{8017,2,965,788,0,0,0},
{8018,3,965,787,768,0,0},
{8019,3,965,788,768,0,0},
{8020,3,965,787,769,0,0},
{8021,3,965,788,769,0,0},
{8022,3,965,787,834,0,0},
{8023,3,965,788,834,0,0},
{8025,2,933,788,0,0,0},
{8027,3,933,788,768,0,0},
{8029,3,933,788,769,0,0},
{8031,3,933,788,834,0,0},
{8032,2,969,787,0,0,0},
{8033,2,969,788,0,0,0},
{8034,3,969,787,768,0,0},
{8035,3,969,788,768,0,0},
{8036,3,969,787,769,0,0},
{8037,3,969,788,769,0,0},
{8038,3,969,787,834,0,0},
{8039,3,969,788,834,0,0},
{8040,2,937,787,0,0,0},
{8041,2,937,788,0,0,0},
{8042,3,937,787,768,0,0},
{8043,3,937,788,768,0,0},
{8044,3,937,787,769,0,0},
{8045,3,937,788,769,0,0},
{8046,3,937,787,834,0,0},
{8047,3,937,788,834,0,0},
{8048,2,945,768,0,0,0},
{8049,2,945,769,0,0,0},
{8050,2,949,768,0,0,0},
{8051,2,949,769,0,0,0},
{8052,2,951,768,0,0,0},
{8053,2,951,769,0,0,0},
{8054,2,953,768,0,0,0},
{8055,2,953,769,0,0,0},
{8056,2,959,768,0,0,0},
{8057,2,959,769,0,0,0},
{8058,2,965,768,0,0,0},
{8059,2,965,769,0,0,0},
{8060,2,969,768,0,0,0},
{8061,2,969,769,0,0,0},
{8064,3,945,787,837,0,0},
{8065,3,945,788,837,0,0},
{8066,4,945,787,768,837,0},
{8067,4,945,788,768,837,0},
{8068,4,945,787,769,837,0},
{8069,4,945,788,769,837,0},
{8070,4,945,787,834,837,0},
{8071,4,945,788,834,837,0},
{8072,3,913,787,837,0,0},
{8073,3,913,788,837,0,0},
{8074,4,913,787,768,837,0},
{8075,4,913,788,768,837,0},
{8076,4,913,787,769,837,0},
{8077,4,913,788,769,837,0},
{8078,4,913,787,834,837,0},
{8079,4,913,788,834,837,0},
{8080,3,951,787,837,0,0},
{8081,3,951,788,837,0,0},
{8082,4,951,787,768,837,0},
{8083,4,951,788,768,837,0},
{8084,4,951,787,769,837,0},
{8085,4,951,788,769,837,0},
{8086,4,951,787,834,837,0},
{8087,4,951,788,834,837,0},
{8088,3,919,787,837,0,0},
{8089,3,919,788,837,0,0},
{8090,4,919,787,768,837,0},
{8091,4,919,788,768,837,0},
{8092,4,919,787,769,837,0},
{8093,4,919,788,769,837,0},
{8094,4,919,787,834,837,0},
{8095,4,919,788,834,837,0},
{8096,3,969,787,837,0,0},
{8097,3,969,788,837,0,0},
{8098,4,969,787,768,837,0},
{8099,4,969,788,768,837,0},
{8100,4,969,787,769,837,0},
{8101,4,969,788,769,837,0},
{8102,4,969,787,834,837,0},
{8103,4,969,788,834,837,0},
{8104,3,937,787,837,0,0},
{8105,3,937,788,837,0,0},
{8106,4,937,787,768,837,0},
{8107,4,937,788,768,837,0},
{8108,4,937,787,769,837,0},
{8109,4,937,788,769,837,0},
{8110,4,937,787,834,837,0},
{8111,4,937,788,834,837,0},
{8112,2,945,774,0,0,0},
{8113,2,945,772,0,0,0},
{8114,3,945,768,837,0,0},
{8115,2,945,837,0,0,0},
{8116,3,945,769,837,0,0},
{8118,2,945,834,0,0,0},
{8119,3,945,834,837,0,0},
{8120,2,913,774,0,0,0},
{8121,2,913,772,0,0,0},
{8122,2,913,768,0,0,0},
{8123,2,913,769,0,0,0},
{8124,2,913,837,0,0,0},
{8125,2,32,787,0,0,0},
{8126,1,953,0,0,0,0},
{8127,2,32,787,0,0,0},
{8128,2,32,834,0,0,0},
{8129,3,32,776,834,0,0},
{8130,3,951,768,837,0,0},
{8131,2,951,837,0,0,0},
{8132,3,951,769,837,0,0},
{8134,2,951,834,0,0,0},
{8135,3,951,834,837,0,0},
{8136,2,917,768,0,0,0},
{8137,2,917,769,0,0,0},
{8138,2,919,768,0,0,0},
{8139,2,919,769,0,0,0},
{8140,2,919,837,0,0,0},
{8141,3,32,787,768,0,0},
{8142,3,32,787,769,0,0},
{8143,3,32,787,834,0,0},
{8144,2,953,774,0,0,0},
{8145,2,953,772,0,0,0},
{8146,3,953,776,768,0,0},
{8147,3,953,776,769,0,0},
{8150,2,953,834,0,0,0},
{8151,3,953,776,834,0,0},
{8152,2,921,774,0,0,0},
{8153,2,921,772,0,0,0},
{8154,2,921,768,0,0,0},
{8155,2,921,769,0,0,0},
{8157,3,32,788,768,0,0},
{8158,3,32,788,769,0,0},
{8159,3,32,788,834,0,0},
{8160,2,965,774,0,0,0},
{8161,2,965,772,0,0,0},
{8162,3,965,776,768,0,0},
{8163,3,965,776,769,0,0},
{8164,2,961,787,0,0,0},
{8165,2,961,788,0,0,0},
{8166,2,965,834,0,0,0},
{8167,3,965,776,834,0,0},
{8168,2,933,774,0,0,0},
{8169,2,933,772,0,0,0},
{8170,2,933,768,0,0,0},
{8171,2,933,769,0,0,0},
{8172,2,929,788,0,0,0},
{8173,3,32,776,768,0,0},
{8174,3,32,776,769,0,0},
{8175,1,96,0,0,0,0},
{8178,3,969,768,837,0,0},
{8179,2,969,837,0,0,0},
{8180,3,969,769,837,0,0},
{8182,2,969,834,0,0,0},
{8183,3,969,834,837,0,0},
{8184,2,927,768,0,0,0},
{8185,2,927,769,0,0,0},
{8186,2,937,768,0,0,0},
{8187,2,937,769,0,0,0},
{8188,2,937,837,0,0,0},
{8189,2,32,769,0,0,0},
{8190,2,32,788,0,0,0},
{8192,1,32,0,0,0,0},
{8193,1,32,0,0,0,0},
{8194,1,32,0,0,0,0},
{8195,1,32,0,0,0,0},
{8196,1,32,0,0,0,0},
{8197,1,32,0,0,0,0},
{8198,1,32,0,0,0,0},
{8199,1,32,0,0,0,0},
{8200,1,32,0,0,0,0},
{8201,1,32,0,0,0,0},
{8202,1,32,0,0,0,0},
{8209,1,8208,0,0,0,0},
{8215,2,32,819,0,0,0},
{8228,1,46,0,0,0,0},
{8229,2,46,46,0,0,0},
{8230,3,46,46,46,0,0},
{8239,1,32,0,0,0,0},
{8243,2,8242,8242,0,0,0},
{8244,3,8242,8242,8242,0,0},
{8246,2,8245,8245,0,0,0},
{8247,3,8245,8245,8245,0,0},
{8252,2,33,33,0,0,0},
{8254,2,32,773,0,0,0},
{8263,2,63,63,0,0,0},
{8264,2,63,33,0,0,0},
{8265,2,33,63,0,0,0},
{8279,4,8242,8242,8242,8242,0},
{8287,1,32,0,0,0,0},
{8304,1,48,0,0,0,0},
{8305,1,105,0,0,0,0},
{8308,1,52,0,0,0,0},
{8309,1,53,0,0,0,0},
{8310,1,54,0,0,0,0},
{8311,1,55,0,0,0,0},
{8312,1,56,0,0,0,0},
{8313,1,57,0,0,0,0},
{8314,1,43,0,0,0,0},
{8315,1,8722,0,0,0,0},
{8316,1,61,0,0,0,0},
{8317,1,40,0,0,0,0},
{8318,1,41,0,0,0,0},
{8319,1,110,0,0,0,0},
{8320,1,48,0,0,0,0},
{8321,1,49,0,0,0,0},
{8322,1,50,0,0,0,0},
{8323,1,51,0,0,0,0},
{8324,1,52,0,0,0,0},
{8325,1,53,0,0,0,0},
{8326,1,54,0,0,0,0},
{8327,1,55,0,0,0,0},
{8328,1,56,0,0,0,0},
{8329,1,57,0,0,0,0},
{8330,1,43,0,0,0,0},
{8331,1,8722,0,0,0,0},
{8332,1,61,0,0,0,0},
{8333,1,40,0,0,0,0},
{8334,1,41,0,0,0,0},
{8336,1,97,0,0,0,0},
{8337,1,101,0,0,0,0},
{8338,1,111,0,0,0,0},
{8339,1,120,0,0,0,0},
{8340,1,601,0,0,0,0},
{8341,1,104,0,0,0,0},
{8342,1,107,0,0,0,0},
{8343,1,108,0,0,0,0},
{8344,1,109,0,0,0,0},
{8345,1,110,0,0,0,0},
{8346,1,112,0,0,0,0},
{8347,1,115,0,0,0,0},
{8348,1,116,0,0,0,0},
{8360,2,82,115,0,0,0},
{8448,3,97,47,99,0,0},
{8449,3,97,47,115,0,0},
{8450,1,67,0,0,0,0},
{8451,2,176,67,0,0,0},
{8453,3,99,47,111,0,0},
{8454,3,99,47,117,0,0},
{8455,1,400,0,0,0,0},
{8457,2,176,70,0,0,0},
{8458,1,103,0,0,0,0},
{8459,1,72,0,0,0,0},
{8460,1,72,0,0,0,0},
{8461,1,72,0,0,0,0},
{8462,1,104,0,0,0,0},
{8463,1,295,0,0,0,0},
{8464,1,73,0,0,0,0},
{8465,1,73,0,0,0,0},
{8466,1,76,0,0,0,0},
{8467,1,108,0,0,0,0},
{8469,1,78,0,0,0,0},
{8470,2,78,111,0,0,0},
{8473,1,80,0,0,0,0},
{8474,1,81,0,0,0,0},
{8475,1,82,0,0,0,0},
{8476,1,82,0,0,0,0},
{8477,1,82,0,0,0,0},
{8480,2,83,77,0,0,0},
{8481,3,84,69,76,0,0},
{8482,2,84,77,0,0,0},
{8484,1,90,0,0,0,0},
{8486,1,937,0,0,0,0},
{8488,1,90,0,0,0,0},
{8490,1,75,0,0,0,0},
{8491,2,65,778,0,0,0},
{8492,1,66,0,0,0,0},
{8493,1,67,0,0,0,0},
{8495,1,101,0,0,0,0},
{8496,1,69,0,0,0,0},
{8497,1,70,0,0,0,0},
{8499,1,77,0,0,0,0},
{8500,1,111,0,0,0,0},
{8501,1,1488,0,0,0,0},
{8502,1,1489,0,0,0,0},
{8503,1,1490,0,0,0,0},
{8504,1,1491,0,0,0,0},
{8505,1,105,0,0,0,0},
{8507,3,70,65,88,0,0},
{8508,1,960,0,0,0,0},
{8509,1,947,0,0,0,0},
{8510,1,915,0,0,0,0},
{8511,1,928,0,0,0,0},
{8512,1,8721,0,0,0,0},
{8517,1,68,0,0,0,0},
{8518,1,100,0,0,0,0},
{8519,1,101,0,0,0,0},
{8520,1,105,0,0,0,0},
{8521,1,106,0,0,0,0},
{8528,3,49,8260,55,0,0},
{8529,3,49,8260,57,0,0},
{8530,4,49,8260,49,48,0},
{8531,3,49,8260,51,0,0},
{8532,3,50,8260,51,0,0},
{8533,3,49,8260,53,0,0},
{8534,3,50,8260,53,0,0},
{8535,3,51,8260,53,0,0},
{8536,3,52,8260,53,0,0},
{8537,3,49,8260,54,0,0},
{8538,3,53,8260,54,0,0},
{8539,3,49,8260,56,0,0},
{8540,3,51,8260,56,0,0},
{8541,3,53,8260,56,0,0},
{8542,3,55,8260,56,0,0},
{8543,2,49,8260,0,0,0},
{8544,1,73,0,0,0,0},
{8545,2,73,73,0,0,0},
{8546,3,73,73,73,0,0},
{8547,2,73,86,0,0,0},
{8548,1,86,0,0,0,0},
{8549,2,86,73,0,0,0},
{8550,3,86,73,73,0,0},
{8551,4,86,73,73,73,0},
{8552,2,73,88,0,0,0},
{8553,1,88,0,0,0,0},
{8554,2,88,73,0,0,0},
{8555,3,88,73,73,0,0},
{8556,1,76,0,0,0,0},
{8557,1,67,0,0,0,0},
{8558,1,68,0,0,0,0},
{8559,1,77,0,0,0,0},
{8560,1,105,0,0,0,0},
{8561,2,105,105,0,0,0},
{8562,3,105,105,105,0,0},
{8563,2,105,118,0,0,0},
{8564,1,118,0,0,0,0},
{8565,2,118,105,0,0,0},
{8566,3,118,105,105,0,0},
{8567,4,118,105,105,105,0},
{8568,2,105,120,0,0,0},
{8569,1,120,0,0,0,0},
{8570,2,120,105,0,0,0},
{8571,3,120,105,105,0,0},
{8572,1,108,0,0,0,0},
{8573,1,99,0,0,0,0},
{8574,1,100,0,0,0,0},
{8575,1,109,0,0,0,0},
{8585,3,48,8260,51,0,0},
{8602,2,8592,824,0,0,0},
{8603,2,8594,824,0,0,0},
{8622,2,8596,824,0,0,0},
{8653,2,8656,824,0,0,0},
{8654,2,8660,824,0,0,0},
{8655,2,8658,824,0,0,0},
{8708,2,8707,824,0,0,0},
{8713,2,8712,824,0,0,0},
{8716,2,8715,824,0,0,0},
{8740,2,8739,824,0,0,0},
{8742,2,8741,824,0,0,0},
{8748,2,8747,8747,0,0,0},
{8749,3,8747,8747,8747,0,0},
{8751,2,8750,8750,0,0,0},
{8752,3,8750,8750,8750,0,0},
{8769,2,8764,824,0,0,0},
{8772,2,8771,824,0,0,0},
{8775,2,8773,824,0,0,0},
{8777,2,8776,824,0,0,0},
{8800,2,61,824,0,0,0},
{8802,2,8801,824,0,0,0},
{8813,2,8781,824,0,0,0},
{8814,2,60,824,0,0,0},
{8815,2,62,824,0,0,0},
{8816,2,8804,824,0,0,0},
{8817,2,8805,824,0,0,0},
{8820,2,8818,824,0,0,0},
{8821,2,8819,824,0,0,0},
{8824,2,8822,824,0,0,0},
{8825,2,8823,824,0,0,0},
{8832,2,8826,824,0,0,0},
{8833,2,8827,824,0,0,0},
{8836,2,8834,824,0,0,0},
{8837,2,8835,824,0,0,0},
{8840,2,8838,824,0,0,0},
{8841,2,8839,824,0,0,0},
{8876,2,8866,824,0,0,0},
{8877,2,8872,824,0,0,0},
{8878,2,8873,824,0,0,0},
{8879,2,8875,824,0,0,0},
{8928,2,8828,824,0,0,0},
{8929,2,8829,824,0,0,0},
{8930,2,8849,824,0,0,0},
{8931,2,8850,824,0,0,0},
{8938,2,8882,824,0,0,0},
{8939,2,8883,824,0,0,0},
{8940,2,8884,824,0,0,0},
{8941,2,8885,824,0,0,0},
{9001,1,12296,0,0,0,0},
{9002,1,12297,0,0,0,0},
{9312,1,49,0,0,0,0},
{9313,1,50,0,0,0,0},
{9314,1,51,0,0,0,0},
{9315,1,52,0,0,0,0},
{9316,1,53,0,0,0,0},
{9317,1,54,0,0,0,0},
{9318,1,55,0,0,0,0},
{9319,1,56,0,0,0,0},
{9320,1,57,0,0,0,0},
{9321,2,49,48,0,0,0},
{9322,2,49,49,0,0,0},
{9323,2,49,50,0,0,0},
{9324,2,49,51,0,0,0},
{9325,2,49,52,0,0,0},
{9326,2,49,53,0,0,0},
{9327,2,49,54,0,0,0},
{9328,2,49,55,0,0,0},
{9329,2,49,56,0,0,0},
{9330,2,49,57,0,0,0},
{9331,2,50,48,0,0,0},
{9332,3,40,49,41,0,0},
{9333,3,40,50,41,0,0},
{9334,3,40,51,41,0,0},
{9335,3,40,52,41,0,0},
{9336,3,40,53,41,0,0},
{9337,3,40,54,41,0,0},
{9338,3,40,55,41,0,0},
{9339,3,40,56,41,0,0},
{9340,3,40,57,41,0,0},
{9341,4,40,49,48,41,0},
{9342,4,40,49,49,41,0},
{9343,4,40,49,50,41,0},
{9344,4,40,49,51,41,0},
{9345,4,40,49,52,41,0},
{9346,4,40,49,53,41,0},
{9347,4,40,49,54,41,0},
{9348,4,40,49,55,41,0},
{9349,4,40,49,56,41,0},
{9350,4,40,49,57,41,0},
{9351,4,40,50,48,41,0},
{9352,2,49,46,0,0,0},
{9353,2,50,46,0,0,0},
{9354,2,51,46,0,0,0},
{9355,2,52,46,0,0,0},
{9356,2,53,46,0,0,0},
{9357,2,54,46,0,0,0},
{9358,2,55,46,0,0,0},
{9359,2,56,46,0,0,0},
{9360,2,57,46,0,0,0},
{9361,3,49,48,46,0,0},
{9362,3,49,49,46,0,0},
{9363,3,49,50,46,0,0},
{9364,3,49,51,46,0,0},
{9365,3,49,52,46,0,0},
{9366,3,49,53,46,0,0},
{9367,3,49,54,46,0,0},
{9368,3,49,55,46,0,0},
{9369,3,49,56,46,0,0},
{9370,3,49,57,46,0,0},
{9371,3,50,48,46,0,0},
{9372,3,40,97,41,0,0},
{9373,3,40,98,41,0,0},
{9374,3,40,99,41,0,0},
{9375,3,40,100,41,0,0},
{9376,3,40,101,41,0,0},
{9377,3,40,102,41,0,0},
{9378,3,40,103,41,0,0},
{9379,3,40,104,41,0,0},
{9380,3,40,105,41,0,0},
{9381,3,40,106,41,0,0},
{9382,3,40,107,41,0,0},
{9383,3,40,108,41,0,0},
{9384,3,40,109,41,0,0},
{9385,3,40,110,41,0,0},
{9386,3,40,111,41,0,0},
{9387,3,40,112,41,0,0},
{9388,3,40,113,41,0,0},
{9389,3,40,114,41,0,0},
{9390,3,40,115,41,0,0},
{9391,3,40,116,41,0,0},
{9392,3,40,117,41,0,0},
{9393,3,40,118,41,0,0},
{9394,3,40,119,41,0,0},
{9395,3,40,120,41,0,0},
{9396,3,40,121,41,0,0},
{9397,3,40,122,41,0,0},
{9398,1,65,0,0,0,0},
{9399,1,66,0,0,0,0},
{9400,1,67,0,0,0,0},
{9401,1,68,0,0,0,0},
{9402,1,69,0,0,0,0},
{9403,1,70,0,0,0,0},
{9404,1,71,0,0,0,0},
{9405,1,72,0,0,0,0},
{9406,1,73,0,0,0,0},
{9407,1,74,0,0,0,0},
{9408,1,75,0,0,0,0},
{9409,1,76,0,0,0,0},
{9410,1,77,0,0,0,0},
{9411,1,78,0,0,0,0},
{9412,1,79,0,0,0,0},
{9413,1,80,0,0,0,0},
{9414,1,81,0,0,0,0},
{9415,1,82,0,0,0,0},
{9416,1,83,0,0,0,0},
{9417,1,84,0,0,0,0},
{9418,1,85,0,0,0,0},
{9419,1,86,0,0,0,0},
{9420,1,87,0,0,0,0},
{9421,1,88,0,0,0,0},
{9422,1,89,0,0,0,0},
{9423,1,90,0,0,0,0},
{9424,1,97,0,0,0,0},
{9425,1,98,0,0,0,0},
{9426,1,99,0,0,0,0},
{9427,1,100,0,0,0,0},
{9428,1,101,0,0,0,0},
{9429,1,102,0,0,0,0},
{9430,1,103,0,0,0,0},
{9431,1,104,0,0,0,0},
{9432,1,105,0,0,0,0},
{9433,1,106,0,0,0,0},
{9434,1,107,0,0,0,0},
{9435,1,108,0,0,0,0},
{9436,1,109,0,0,0,0},
{9437,1,110,0,0,0,0},
{9438,1,111,0,0,0,0},
{9439,1,112,0,0,0,0},
{9440,1,113,0,0,0,0},
{9441,1,114,0,0,0,0},
{9442,1,115,0,0,0,0},
{9443,1,116,0,0,0,0},
{9444,1,117,0,0,0,0},
{9445,1,118,0,0,0,0},
{9446,1,119,0,0,0,0},
{9447,1,120,0,0,0,0},
{9448,1,121,0,0,0,0},
{9449,1,122,0,0,0,0},
{9450,1,48,0,0,0,0},
{10764,4,8747,8747,8747,8747,0},
{10868,3,58,58,61,0,0},
{10869,2,61,61,0,0,0},
{10870,3,61,61,61,0,0},
{10972,2,10973,824,0,0,0},
{11388,1,106,0,0,0,0},
{11389,1,86,0,0,0,0},
{11631,1,11617,0,0,0,0},
{11935,1,27597,0,0,0,0},
{12019,1,40863,0,0,0,0},
{12032,1,19968,0,0,0,0},
{12033,1,20008,0,0,0,0},
{12034,1,20022,0,0,0,0},
{12035,1,20031,0,0,0,0},
{12036,1,20057,0,0,0,0},
{12037,1,20101,0,0,0,0},
{12038,1,20108,0,0,0,0},
{12039,1,20128,0,0,0,0},
{12040,1,20154,0,0,0,0},
{12041,1,20799,0,0,0,0},
{12042,1,20837,0,0,0,0},
{12043,1,20843,0,0,0,0},
{12044,1,20866,0,0,0,0},
{12045,1,20886,0,0,0,0},
{12046,1,20907,0,0,0,0},
{12047,1,20960,0,0,0,0},
{12048,1,20981,0,0,0,0},
{12049,1,20992,0,0,0,0},
{12050,1,21147,0,0,0,0},
{12051,1,21241,0,0,0,0},
{12052,1,21269,0,0,0,0},
{12053,1,21274,0,0,0,0},
{12054,1,21304,0,0,0,0},
{12055,1,21313,0,0,0,0},
{12056,1,21340,0,0,0,0},
{12057,1,21353,0,0,0,0},
{12058,1,21378,0,0,0,0},
{12059,1,21430,0,0,0,0},
{12060,1,21448,0,0,0,0},
{12061,1,21475,0,0,0,0},
{12062,1,22231,0,0,0,0},
{12063,1,22303,0,0,0,0},
{12064,1,22763,0,0,0,0},
{12065,1,22786,0,0,0,0},
{12066,1,22794,0,0,0,0},
{12067,1,22805,0,0,0,0},
{12068,1,22823,0,0,0,0},
{12069,1,22899,0,0,0,0},
{12070,1,23376,0,0,0,0},
{12071,1,23424,0,0,0,0},
{12072,1,23544,0,0,0,0},
{12073,1,23567,0,0,0,0},
{12074,1,23586,0,0,0,0},
{12075,1,23608,0,0,0,0},
{12076,1,23662,0,0,0,0},
{12077,1,23665,0,0,0,0},
{12078,1,24027,0,0,0,0},
{12079,1,24037,0,0,0,0},
{12080,1,24049,0,0,0,0},
{12081,1,24062,0,0,0,0},
{12082,1,24178,0,0,0,0},
{12083,1,24186,0,0,0,0},
{12084,1,24191,0,0,0,0},
{12085,1,24308,0,0,0,0},
{12086,1,24318,0,0,0,0},
{12087,1,24331,0,0,0,0},
{12088,1,24339,0,0,0,0},
{12089,1,24400,0,0,0,0},
{12090,1,24417,0,0,0,0},
{12091,1,24435,0,0,0,0},
{12092,1,24515,0,0,0,0},
{12093,1,25096,0,0,0,0},
{12094,1,25142,0,0,0,0},
{12095,1,25163,0,0,0,0},
{12096,1,25903,0,0,0,0},
{12097,1,25908,0,0,0,0},
{12098,1,25991,0,0,0,0},
{12099,1,26007,0,0,0,0},
{12100,1,26020,0,0,0,0},
{12101,1,26041,0,0,0,0},
{12102,1,26080,0,0,0,0},
{12103,1,26085,0,0,0,0},
{12104,1,26352,0,0,0,0},
{12105,1,26376,0,0,0,0},
{12106,1,26408,0,0,0,0},
{12107,1,27424,0,0,0,0},
{12108,1,27490,0,0,0,0},
{12109,1,27513,0,0,0,0},
{12110,1,27571,0,0,0,0},
{12111,1,27595,0,0,0,0},
{12112,1,27604,0,0,0,0},
{12113,1,27611,0,0,0,0},
{12114,1,27663,0,0,0,0},
{12115,1,27668,0,0,0,0},
{12116,1,27700,0,0,0,0},
{12117,1,28779,0,0,0,0},
{12118,1,29226,0,0,0,0},
{12119,1,29238,0,0,0,0},
{12120,1,29243,0,0,0,0},
{12121,1,29247,0,0,0,0},
{12122,1,29255,0,0,0,0},
{12123,1,29273,0,0,0,0},
{12124,1,29275,0,0,0,0},
{12125,1,29356,0,0,0,0},
{12126,1,29572,0,0,0,0},
{12127,1,29577,0,0,0,0},
{12128,1,29916,0,0,0,0},
{12129,1,29926,0,0,0,0},
{12130,1,29976,0,0,0,0},
{12131,1,29983,0,0,0,0},
{12132,1,29992,0,0,0,0},
{12133,1,30000,0,0,0,0},
{12134,1,30091,0,0,0,0},
{12135,1,30098,0,0,0,0},
{12136,1,30326,0,0,0,0},
{12137,1,30333,0,0,0,0},
{12138,1,30382,0,0,0,0},
{12139,1,30399,0,0,0,0},
{12140,1,30446,0,0,0,0},
{12141,1,30683,0,0,0,0},
{12142,1,30690,0,0,0,0},
{12143,1,30707,0,0,0,0},
{12144,1,31034,0,0,0,0},
{12145,1,31160,0,0,0,0},
{12146,1,31166,0,0,0,0},
{12147,1,31348,0,0,0,0},
{12148,1,31435,0,0,0,0},
{12149,1,31481,0,0,0,0},
{12150,1,31859,0,0,0,0},
{12151,1,31992,0,0,0,0},
{12152,1,32566,0,0,0,0},
{12153,1,32593,0,0,0,0},
{12154,1,32650,0,0,0,0},
{12155,1,32701,0,0,0,0},
{12156,1,32769,0,0,0,0},
{12157,1,32780,0,0,0,0},
{12158,1,32786,0,0,0,0},
{12159,1,32819,0,0,0,0},
{12160,1,32895,0,0,0,0},
{12161,1,32905,0,0,0,0},
{12162,1,33251,0,0,0,0},
{12163,1,33258,0,0,0,0},
{12164,1,33267,0,0,0,0},
{12165,1,33276,0,0,0,0},
{12166,1,33292,0,0,0,0},
{12167,1,33307,0,0,0,0},
{12168,1,33311,0,0,0,0},
{12169,1,33390,0,0,0,0},
{12170,1,33394,0,0,0,0},
{12171,1,33400,0,0,0,0},
{12172,1,34381,0,0,0,0},
{12173,1,34411,0,0,0,0},
{12174,1,34880,0,0,0,0},
{12175,1,34892,0,0,0,0},
{12176,1,34915,0,0,0,0},
{12177,1,35198,0,0,0,0},
{12178,1,35211,0,0,0,0},
{12179,1,35282,0,0,0,0},
{12180,1,35328,0,0,0,0},
{12181,1,35895,0,0,0,0},
{12182,1,35910,0,0,0,0},
{12183,1,35925,0,0,0,0},
{12184,1,35960,0,0,0,0},
{12185,1,35997,0,0,0,0},
{12186,1,36196,0,0,0,0},
{12187,1,36208,0,0,0,0},
{12188,1,36275,0,0,0,0},
{12189,1,36523,0,0,0,0},
{12190,1,36554,0,0,0,0},
{12191,1,36763,0,0,0,0},
{12192,1,36784,0,0,0,0},
{12193,1,36789,0,0,0,0},
{12194,1,37009,0,0,0,0},
{12195,1,37193,0,0,0,0},
{12196,1,37318,0,0,0,0},
{12197,1,37324,0,0,0,0},
{12198,1,37329,0,0,0,0},
{12199,1,38263,0,0,0,0},
{12200,1,38272,0,0,0,0},
{12201,1,38428,0,0,0,0},
{12202,1,38582,0,0,0,0},
{12203,1,38585,0,0,0,0},
{12204,1,38632,0,0,0,0},
{12205,1,38737,0,0,0,0},
{12206,1,38750,0,0,0,0},
{12207,1,38754,0,0,0,0},
{12208,1,38761,0,0,0,0},
{12209,1,38859,0,0,0,0},
{12210,1,38893,0,0,0,0},
{12211,1,38899,0,0,0,0},
{12212,1,38913,0,0,0,0},
{12213,1,39080,0,0,0,0},
{12214,1,39131,0,0,0,0},
{12215,1,39135,0,0,0,0},
{12216,1,39318,0,0,0,0},
{12217,1,39321,0,0,0,0},
{12218,1,39340,0,0,0,0},
{12219,1,39592,0,0,0,0},
{12220,1,39640,0,0,0,0},
{12221,1,39647,0,0,0,0},
{12222,1,39717,0,0,0,0},
{12223,1,39727,0,0,0,0},
{12224,1,39730,0,0,0,0},
{12225,1,39740,0,0,0,0},
{12226,1,39770,0,0,0,0},
{12227,1,40165,0,0,0,0},
{12228,1,40565,0,0,0,0},
{12229,1,40575,0,0,0,0},
{12230,1,40613,0,0,0,0},
{12231,1,40635,0,0,0,0},
{12232,1,40643,0,0,0,0},
{12233,1,40653,0,0,0,0},
{12234,1,40657,0,0,0,0},
{12235,1,40697,0,0,0,0},
{12236,1,40701,0,0,0,0},
{12237,1,40718,0,0,0,0},
{12238,1,40723,0,0,0,0},
{12239,1,40736,0,0,0,0},
{12240,1,40763,0,0,0,0},
{12241,1,40778,0,0,0,0},
{12242,1,40786,0,0,0,0},
{12243,1,40845,0,0,0,0},
{12244,1,40860,0,0,0,0},
{12245,1,40864,0,0,0,0},
{12288,1,32,0,0,0,0},
{12342,1,12306,0,0,0,0},
{12344,1,21313,0,0,0,0},
{12345,1,21316,0,0,0,0},
{12346,1,21317,0,0,0,0},
{12364,2,12363,12441,0,0,0},
{12366,2,12365,12441,0,0,0},
{12368,2,12367,12441,0,0,0},
{12370,2,12369,12441,0,0,0},
{12372,2,12371,12441,0,0,0},
{12374,2,12373,12441,0,0,0},
{12376,2,12375,12441,0,0,0},
{12378,2,12377,12441,0,0,0},
{12380,2,12379,12441,0,0,0},
{12382,2,12381,12441,0,0,0},
{12384,2,12383,12441,0,0,0},
{12386,2,12385,12441,0,0,0},
{12389,2,12388,12441,0,0,0},
{12391,2,12390,12441,0,0,0},
{12393,2,12392,12441,0,0,0},
{12400,2,12399,12441,0,0,0},
{12401,2,12399,12442,0,0,0},
{12403,2,12402,12441,0,0,0},
{12404,2,12402,12442,0,0,0},
{12406,2,12405,12441,0,0,0},
{12407,2,12405,12442,0,0,0},
{12409,2,12408,12441,0,0,0},
{12410,2,12408,12442,0,0,0},
{12412,2,12411,12441,0,0,0},
{12413,2,12411,12442,0,0,0},
{12436,2,12358,12441,0,0,0},
{12443,2,32,12441,0,0,0},
{12444,2,32,12442,0,0,0},
{12446,2,12445,12441,0,0,0},
{12447,2,12424,12426,0,0,0},
{12460,2,12459,12441,0,0,0},
{12462,2,12461,12441,0,0,0},
{12464,2,12463,12441,0,0,0},
{12466,2,12465,12441,0,0,0},
{12468,2,12467,12441,0,0,0},
{12470,2,12469,12441,0,0,0},
{12472,2,12471,12441,0,0,0},
{12474,2,12473,12441,0,0,0},
{12476,2,12475,12441,0,0,0},
{12478,2,12477,12441,0,0,0},
{12480,2,12479,12441,0,0,0},
{12482,2,12481,12441,0,0,0},
{12485,2,12484,12441,0,0,0},
{12487,2,12486,12441,0,0,0},
{12489,2,12488,12441,0,0,0},
{12496,2,12495,12441,0,0,0},
{12497,2,12495,12442,0,0,0},
{12499,2,12498,12441,0,0,0},
{12500,2,12498,12442,0,0,0},
{12502,2,12501,12441,0,0,0},
{12503,2,12501,12442,0,0,0},
{12505,2,12504,12441,0,0,0},
{12506,2,12504,12442,0,0,0},
{12508,2,12507,12441,0,0,0},
{12509,2,12507,12442,0,0,0},
{12532,2,12454,12441,0,0,0},
{12535,2,12527,12441,0,0,0},
{12536,2,12528,12441,0,0,0},
{12537,2,12529,12441,0,0,0},
{12538,2,12530,12441,0,0,0},
{12542,2,12541,12441,0,0,0},
{12543,2,12467,12488,0,0,0},
{12593,1,4352,0,0,0,0},
{12594,1,4353,0,0,0,0},
{12595,1,4522,0,0,0,0},
{12596,1,4354,0,0,0,0},
{12597,1,4524,0,0,0,0},
{12598,1,4525,0,0,0,0},
{12599,1,4355,0,0,0,0},
{12600,1,4356,0,0,0,0},
{12601,1,4357,0,0,0,0},
{12602,1,4528,0,0,0,0},
{12603,1,4529,0,0,0,0},
{12604,1,4530,0,0,0,0},
{12605,1,4531,0,0,0,0},
{12606,1,4532,0,0,0,0},
{12607,1,4533,0,0,0,0},
{12608,1,4378,0,0,0,0},
{12609,1,4358,0,0,0,0},
{12610,1,4359,0,0,0,0},
{12611,1,4360,0,0,0,0},
{12612,1,4385,0,0,0,0},
{12613,1,4361,0,0,0,0},
{12614,1,4362,0,0,0,0},
{12615,1,4363,0,0,0,0},
{12616,1,4364,0,0,0,0},
{12617,1,4365,0,0,0,0},
{12618,1,4366,0,0,0,0},
{12619,1,4367,0,0,0,0},
{12620,1,4368,0,0,0,0},
{12621,1,4369,0,0,0,0},
{12622,1,4370,0,0,0,0},
{12623,1,4449,0,0,0,0},
{12624,1,4450,0,0,0,0},
{12625,1,4451,0,0,0,0},
{12626,1,4452,0,0,0,0},
{12627,1,4453,0,0,0,0},
{12628,1,4454,0,0,0,0},
{12629,1,4455,0,0,0,0},
{12630,1,4456,0,0,0,0},
{12631,1,4457,0,0,0,0},
{12632,1,4458,0,0,0,0},
{12633,1,4459,0,0,0,0},
{12634,1,4460,0,0,0,0},
{12635,1,4461,0,0,0,0},
{12636,1,4462,0,0,0,0},
{12637,1,4463,0,0,0,0},
{12638,1,4464,0,0,0,0},
{12639,1,4465,0,0,0,0},
{12640,1,4466,0,0,0,0},
{12641,1,4467,0,0,0,0},
{12642,1,4468,0,0,0,0},
{12643,1,4469,0,0,0,0},
{12644,1,4448,0,0,0,0},
{12645,1,4372,0,0,0,0},
{12646,1,4373,0,0,0,0},
{12647,1,4551,0,0,0,0},
{12648,1,4552,0,0,0,0},
{12649,1,4556,0,0,0,0},
{12650,1,4558,0,0,0,0},
{12651,1,4563,0,0,0,0},
{12652,1,4567,0,0,0,0},
{12653,1,4569,0,0,0,0},
{12654,1,4380,0,0,0,0},
{12655,1,4573,0,0,0,0},
{12656,1,4575,0,0,0,0},
{12657,1,4381,0,0,0,0},
{12658,1,4382,0,0,0,0},
{12659,1,4384,0,0,0,0},
{12660,1,4386,0,0,0,0},
{12661,1,4387,0,0,0,0},
{12662,1,4391,0,0,0,0},
{12663,1,4393,0,0,0,0},
{12664,1,4395,0,0,0,0},
{12665,1,4396,0,0,0,0},
{12666,1,4397,0,0,0,0},
{12667,1,4398,0,0,0,0},
{12668,1,4399,0,0,0,0},
{12669,1,4402,0,0,0,0},
{12670,1,4406,0,0,0,0},
{12671,1,4416,0,0,0,0},
{12672,1,4423,0,0,0,0},
{12673,1,4428,0,0,0,0},
{12674,1,4593,0,0,0,0},
{12675,1,4594,0,0,0,0},
{12676,1,4439,0,0,0,0},
{12677,1,4440,0,0,0,0},
{12678,1,4441,0,0,0,0},
{12679,1,4484,0,0,0,0},
{12680,1,4485,0,0,0,0},
{12681,1,4488,0,0,0,0},
{12682,1,4497,0,0,0,0},
{12683,1,4498,0,0,0,0},
{12684,1,4500,0,0,0,0},
{12685,1,4510,0,0,0,0},
{12686,1,4513,0,0,0,0},
{12690,1,19968,0,0,0,0},
{12691,1,20108,0,0,0,0},
{12692,1,19977,0,0,0,0},
{12693,1,22235,0,0,0,0},
{12694,1,19978,0,0,0,0},
{12695,1,20013,0,0,0,0},
{12696,1,19979,0,0,0,0},
{12697,1,30002,0,0,0,0},
{12698,1,20057,0,0,0,0},
{12699,1,19993,0,0,0,0},
{12700,1,19969,0,0,0,0},
{12701,1,22825,0,0,0,0},
{12702,1,22320,0,0,0,0},
{12703,1,20154,0,0,0,0},
{12800,3,40,4352,41,0,0},
{12801,3,40,4354,41,0,0},
{12802,3,40,4355,41,0,0},
{12803,3,40,4357,41,0,0},
{12804,3,40,4358,41,0,0},
{12805,3,40,4359,41,0,0},
{12806,3,40,4361,41,0,0},
{12807,3,40,4363,41,0,0},
{12808,3,40,4364,41,0,0},
{12809,3,40,4366,41,0,0},
{12810,3,40,4367,41,0,0},
{12811,3,40,4368,41,0,0},
{12812,3,40,4369,41,0,0},
{12813,3,40,4370,41,0,0},
{12814,4,40,4352,4449,41,0},
{12815,4,40,4354,4449,41,0},
{12816,4,40,4355,4449,41,0},
{12817,4,40,4357,4449,41,0},
{12818,4,40,4358,4449,41,0},
{12819,4,40,4359,4449,41,0},
{12820,4,40,4361,4449,41,0},
{12821,4,40,4363,4449,41,0},
{12822,4,40,4364,4449,41,0},
{12823,4,40,4366,4449,41,0},
{12824,4,40,4367,4449,41,0},
{12825,4,40,4368,4449,41,0},
{12826,4,40,4369,4449,41,0},
{12827,4,40,4370,4449,41,0},
{12828,4,40,4364,4462,41,0},
{12832,3,40,19968,41,0,0},
{12833,3,40,20108,41,0,0},
{12834,3,40,19977,41,0,0},
{12835,3,40,22235,41,0,0},
{12836,3,40,20116,41,0,0},
{12837,3,40,20845,41,0,0},
{12838,3,40,19971,41,0,0},
{12839,3,40,20843,41,0,0},
{12840,3,40,20061,41,0,0},
{12841,3,40,21313,41,0,0},
{12842,3,40,26376,41,0,0},
{12843,3,40,28779,41,0,0},
{12844,3,40,27700,41,0,0},
{12845,3,40,26408,41,0,0},
{12846,3,40,37329,41,0,0},
{12847,3,40,22303,41,0,0},
{12848,3,40,26085,41,0,0},
{12849,3,40,26666,41,0,0},
{12850,3,40,26377,41,0,0},
{12851,3,40,31038,41,0,0},
{12852,3,40,21517,41,0,0},
{12853,3,40,29305,41,0,0},
{12854,3,40,36001,41,0,0},
{12855,3,40,31069,41,0,0},
{12856,3,40,21172,41,0,0},
{12857,3,40,20195,41,0,0},
{12858,3,40,21628,41,0,0},
{12859,3,40,23398,41,0,0},
{12860,3,40,30435,41,0,0},
{12861,3,40,20225,41,0,0},
{12862,3,40,36039,41,0,0},
{12863,3,40,21332,41,0,0},
{12864,3,40,31085,41,0,0},
{12865,3,40,20241,41,0,0},
{12866,3,40,33258,41,0,0},
{12867,3,40,33267,41,0,0},
{12868,1,21839,0,0,0,0},
{12869,1,24188,0,0,0,0},
{12870,1,25991,0,0,0,0},
{12871,1,31631,0,0,0,0},
{12880,3,80,84,69,0,0},
{12881,2,50,49,0,0,0},
{12882,2,50,50,0,0,0},
{12883,2,50,51,0,0,0},
{12884,2,50,52,0,0,0},
{12885,2,50,53,0,0,0},
{12886,2,50,54,0,0,0},
{12887,2,50,55,0,0,0},
{12888,2,50,56,0,0,0},
{12889,2,50,57,0,0,0},
{12890,2,51,48,0,0,0},
{12891,2,51,49,0,0,0},
{12892,2,51,50,0,0,0},
{12893,2,51,51,0,0,0},
{12894,2,51,52,0,0,0},
{12895,2,51,53,0,0,0},
{12896,1,4352,0,0,0,0},
{12897,1,4354,0,0,0,0},
{12898,1,4355,0,0,0,0},
{12899,1,4357,0,0,0,0},
{12900,1,4358,0,0,0,0},
{12901,1,4359,0,0,0,0},
{12902,1,4361,0,0,0,0},
{12903,1,4363,0,0,0,0},
{12904,1,4364,0,0,0,0},
{12905,1,4366,0,0,0,0},
{12906,1,4367,0,0,0,0},
{12907,1,4368,0,0,0,0},
{12908,1,4369,0,0,0,0},
{12909,1,4370,0,0,0,0},
{12910,2,4352,4449,0,0,0},
{12911,2,4354,4449,0,0,0},
{12912,2,4355,4449,0,0,0},
{12913,2,4357,4449,0,0,0},
{12914,2,4358,4449,0,0,0},
{12915,2,4359,4449,0,0,0},
{12916,2,4361,4449,0,0,0},
{12917,2,4363,4449,0,0,0},
{12918,2,4364,4449,0,0,0},
{12919,2,4366,4449,0,0,0},
{12920,2,4367,4449,0,0,0},
{12921,2,4368,4449,0,0,0},
{12922,2,4369,4449,0,0,0},
{12923,2,4370,4449,0,0,0},
{12924,5,4366,4449,4535,4352,4457},
{12925,4,4364,4462,4363,4468,0},
{12926,2,4363,4462,0,0,0},
{12928,1,19968,0,0,0,0},
{12929,1,20108,0,0,0,0},
{12930,1,19977,0,0,0,0},
{12931,1,22235,0,0,0,0},
{12932,1,20116,0,0,0,0},
{12933,1,20845,0,0,0,0},
{12934,1,19971,0,0,0,0},
{12935,1,20843,0,0,0,0},
{12936,1,20061,0,0,0,0},
{12937,1,21313,0,0,0,0},
{12938,1,26376,0,0,0,0},
{12939,1,28779,0,0,0,0},
{12940,1,27700,0,0,0,0},
{12941,1,26408,0,0,0,0},
{12942,1,37329,0,0,0,0},
{12943,1,22303,0,0,0,0},
{12944,1,26085,0,0,0,0},
{12945,1,26666,0,0,0,0},
{12946,1,26377,0,0,0,0},
{12947,1,31038,0,0,0,0},
{12948,1,21517,0,0,0,0},
{12949,1,29305,0,0,0,0},
{12950,1,36001,0,0,0,0},
{12951,1,31069,0,0,0,0},
{12952,1,21172,0,0,0,0},
{12953,1,31192,0,0,0,0},
{12954,1,30007,0,0,0,0},
{12955,1,22899,0,0,0,0},
{12956,1,36969,0,0,0,0},
{12957,1,20778,0,0,0,0},
{12958,1,21360,0,0,0,0},
{12959,1,27880,0,0,0,0},
{12960,1,38917,0,0,0,0},
{12961,1,20241,0,0,0,0},
{12962,1,20889,0,0,0,0},
{12963,1,27491,0,0,0,0},
{12964,1,19978,0,0,0,0},
{12965,1,20013,0,0,0,0},
{12966,1,19979,0,0,0,0},
{12967,1,24038,0,0,0,0},
{12968,1,21491,0,0,0,0},
{12969,1,21307,0,0,0,0},
{12970,1,23447,0,0,0,0},
{12971,1,23398,0,0,0,0},
{12972,1,30435,0,0,0,0},
{12973,1,20225,0,0,0,0},
{12974,1,36039,0,0,0,0},
{12975,1,21332,0,0,0,0},
{12976,1,22812,0,0,0,0},
{12977,2,51,54,0,0,0},
{12978,2,51,55,0,0,0},
{12979,2,51,56,0,0,0},
{12980,2,51,57,0,0,0},
{12981,2,52,48,0,0,0},
{12982,2,52,49,0,0,0},
{12983,2,52,50,0,0,0},
{12984,2,52,51,0,0,0},
{12985,2,52,52,0,0,0},
{12986,2,52,53,0,0,0},
{12987,2,52,54,0,0,0},
{12988,2,52,55,0,0,0},
{12989,2,52,56,0,0,0},
{12990,2,52,57,0,0,0},
{12991,2,53,48,0,0,0},
{12992,2,49,26376,0,0,0},
{12993,2,50,26376,0,0,0},
{12994,2,51,26376,0,0,0},
{12995,2,52,26376,0,0,0},
{12996,2,53,26376,0,0,0},
{12997,2,54,26376,0,0,0},
{12998,2,55,26376,0,0,0},
{12999,2,56,26376,0,0,0},
{13000,2,57,26376,0,0,0},
{13001,3,49,48,26376,0,0},
{13002,3,49,49,26376,0,0},
{13003,3,49,50,26376,0,0},
{13004,2,72,103,0,0,0},
{13005,3,101,114,103,0,0},
{13006,2,101,86,0,0,0},
{13007,3,76,84,68,0,0},
{13008,1,12450,0,0,0,0},
{13009,1,12452,0,0,0,0},
{13010,1,12454,0,0,0,0},
{13011,1,12456,0,0,0,0},
{13012,1,12458,0,0,0,0},
{13013,1,12459,0,0,0,0},
{13014,1,12461,0,0,0,0},
{13015,1,12463,0,0,0,0},
{13016,1,12465,0,0,0,0},
{13017,1,12467,0,0,0,0},
{13018,1,12469,0,0,0,0},
{13019,1,12471,0,0,0,0},
{13020,1,12473,0,0,0,0},
{13021,1,12475,0,0,0,0},
{13022,1,12477,0,0,0,0},
{13023,1,12479,0,0,0,0},
{13024,1,12481,0,0,0,0},
{13025,1,12484,0,0,0,0},
{13026,1,12486,0,0,0,0},
{13027,1,12488,0,0,0,0},
{13028,1,12490,0,0,0,0},
{13029,1,12491,0,0,0,0},
{13030,1,12492,0,0,0,0},
{13031,1,12493,0,0,0,0},
{13032,1,12494,0,0,0,0},
{13033,1,12495,0,0,0,0},
{13034,1,12498,0,0,0,0},
{13035,1,12501,0,0,0,0},
{13036,1,12504,0,0,0,0},
{13037,1,12507,0,0,0,0},
{13038,1,12510,0,0,0,0},
{13039,1,12511,0,0,0,0},
{13040,1,12512,0,0,0,0},
{13041,1,12513,0,0,0,0},
{13042,1,12514,0,0,0,0},
{13043,1,12516,0,0,0,0},
{13044,1,12518,0,0,0,0},
{13045,1,12520,0,0,0,0},
{13046,1,12521,0,0,0,0},
{13047,1,12522,0,0,0,0},
{13048,1,12523,0,0,0,0},
{13049,1,12524,0,0,0,0},
{13050,1,12525,0,0,0,0},
{13051,1,12527,0,0,0,0},
{13052,1,12528,0,0,0,0},
{13053,1,12529,0,0,0,0},
{13054,1,12530,0,0,0,0},
{13056,5,12450,12495,12442,12540,12488},
{13057,4,12450,12523,12501,12449,0},
{13058,5,12450,12531,12504,12442,12450},
{13059,3,12450,12540,12523,0,0},
{13060,5,12452,12491,12531,12463,12441},
{13061,3,12452,12531,12481,0,0},
{13062,3,12454,12457,12531,0,0},
{13064,4,12456,12540,12459,12540,0},
{13065,3,12458,12531,12473,0,0},
{13066,3,12458,12540,12512,0,0},
{13067,3,12459,12452,12522,0,0},
{13068,4,12459,12521,12483,12488,0},
{13069,4,12459,12525,12522,12540,0},
{13070,4,12459,12441,12525,12531,0},
{13071,4,12459,12441,12531,12510,0},
{13072,4,12461,12441,12459,12441,0},
{13073,4,12461,12441,12491,12540,0},
{13074,4,12461,12517,12522,12540,0},
{13076,2,12461,12525,0,0,0},
{13079,5,12461,12525,12527,12483,12488},
{13080,4,12463,12441,12521,12512,0},
{13083,4,12463,12525,12540,12493,0},
{13084,3,12465,12540,12473,0,0},
{13085,3,12467,12523,12490,0,0},
{13086,4,12467,12540,12507,12442,0},
{13087,4,12469,12452,12463,12523,0},
{13088,5,12469,12531,12481,12540,12512},
{13089,5,12471,12522,12531,12463,12441},
{13090,3,12475,12531,12481,0,0},
{13091,3,12475,12531,12488,0,0},
{13092,4,12479,12441,12540,12473,0},
{13093,3,12486,12441,12471,0,0},
{13094,3,12488,12441,12523,0,0},
{13095,2,12488,12531,0,0,0},
{13096,2,12490,12494,0,0,0},
{13097,3,12494,12483,12488,0,0},
{13098,3,12495,12452,12484,0,0},
{13100,4,12495,12442,12540,12484,0},
{13101,5,12495,12441,12540,12524,12523},
{13103,4,12498,12442,12463,12523,0},
{13104,3,12498,12442,12467,0,0},
{13105,3,12498,12441,12523,0,0},
{13107,4,12501,12451,12540,12488,0},
{13109,3,12501,12521,12531,0,0},
{13110,5,12504,12463,12479,12540,12523},
{13111,3,12504,12442,12477,0,0},
{13112,4,12504,12442,12491,12498,0},
{13113,3,12504,12523,12484,0,0},
{13114,4,12504,12442,12531,12473,0},
{13115,5,12504,12442,12540,12471,12441},
{13116,4,12504,12441,12540,12479,0},
{13117,5,12507,12442,12452,12531,12488},
{13118,4,12507,12441,12523,12488,0},
{13119,2,12507,12531,0,0,0},
{13120,5,12507,12442,12531,12488,12441},
{13121,3,12507,12540,12523,0,0},
{13122,3,12507,12540,12531,0,0},
{13123,4,12510,12452,12463,12525,0},
{13124,3,12510,12452,12523,0,0},
{13125,3,12510,12483,12495,0,0},
{13126,3,12510,12523,12463,0,0},
{13127,5,12510,12531,12471,12519,12531},
{13128,4,12511,12463,12525,12531,0},
{13129,2,12511,12522,0,0,0},
{13131,3,12513,12459,12441,0,0},
{13132,5,12513,12459,12441,12488,12531},
{13133,4,12513,12540,12488,12523,0},
{13134,4,12516,12540,12488,12441,0},
{13135,3,12516,12540,12523,0,0},
{13136,3,12518,12450,12531,0,0},
{13137,4,12522,12483,12488,12523,0},
{13138,2,12522,12521,0,0,0},
{13139,4,12523,12498,12442,12540,0},
{13140,5,12523,12540,12501,12441,12523},
{13141,2,12524,12512,0,0,0},
{13143,3,12527,12483,12488,0,0},
{13144,2,48,28857,0,0,0},
{13145,2,49,28857,0,0,0},
{13146,2,50,28857,0,0,0},
{13147,2,51,28857,0,0,0},
{13148,2,52,28857,0,0,0},
{13149,2,53,28857,0,0,0},
{13150,2,54,28857,0,0,0},
{13151,2,55,28857,0,0,0},
{13152,2,56,28857,0,0,0},
{13153,2,57,28857,0,0,0},
{13154,3,49,48,28857,0,0},
{13155,3,49,49,28857,0,0},
{13156,3,49,50,28857,0,0},
{13157,3,49,51,28857,0,0},
{13158,3,49,52,28857,0,0},
{13159,3,49,53,28857,0,0},
{13160,3,49,54,28857,0,0},
{13161,3,49,55,28857,0,0},
{13162,3,49,56,28857,0,0},
{13163,3,49,57,28857,0,0},
{13164,3,50,48,28857,0,0},
{13165,3,50,49,28857,0,0},
{13166,3,50,50,28857,0,0},
{13167,3,50,51,28857,0,0},
{13168,3,50,52,28857,0,0},
{13169,3,104,80,97,0,0},
{13170,2,100,97,0,0,0},
{13171,2,65,85,0,0,0},
{13172,3,98,97,114,0,0},
{13173,2,111,86,0,0,0},
{13174,2,112,99,0,0,0},
{13175,2,100,109,0,0,0},
{13176,3,100,109,50,0,0},
{13177,3,100,109,51,0,0},
{13178,2,73,85,0,0,0},
{13179,2,24179,25104,0,0,0},
{13180,2,26157,21644,0,0,0},
{13181,2,22823,27491,0,0,0},
{13182,2,26126,27835,0,0,0},
{13183,4,26666,24335,20250,31038,0},
{13184,2,112,65,0,0,0},
{13185,2,110,65,0,0,0},
{13186,2,956,65,0,0,0},
{13187,2,109,65,0,0,0},
{13188,2,107,65,0,0,0},
{13189,2,75,66,0,0,0},
{13190,2,77,66,0,0,0},
{13191,2,71,66,0,0,0},
{13192,3,99,97,108,0,0},
{13193,4,107,99,97,108,0},
{13194,2,112,70,0,0,0},
{13195,2,110,70,0,0,0},
{13196,2,956,70,0,0,0},
{13197,2,956,103,0,0,0},
{13198,2,109,103,0,0,0},
{13199,2,107,103,0,0,0},
{13200,2,72,122,0,0,0},
{13201,3,107,72,122,0,0},
{13202,3,77,72,122,0,0},
{13203,3,71,72,122,0,0},
{13204,3,84,72,122,0,0},
{13205,2,956,108,0,0,0},
{13206,2,109,108,0,0,0},
{13207,2,100,108,0,0,0},
{13208,2,107,108,0,0,0},
{13209,2,102,109,0,0,0},
{13210,2,110,109,0,0,0},
{13211,2,956,109,0,0,0},
{13212,2,109,109,0,0,0},
{13213,2,99,109,0,0,0},
{13214,2,107,109,0,0,0},
{13215,3,109,109,50,0,0},
{13216,3,99,109,50,0,0},
{13217,2,109,50,0,0,0},
{13218,3,107,109,50,0,0},
{13219,3,109,109,51,0,0},
{13220,3,99,109,51,0,0},
{13221,2,109,51,0,0,0},
{13222,3,107,109,51,0,0},
{13223,3,109,8725,115,0,0},
{13224,4,109,8725,115,50,0},
{13225,2,80,97,0,0,0},
{13226,3,107,80,97,0,0},
{13227,3,77,80,97,0,0},
{13228,3,71,80,97,0,0},
{13229,3,114,97,100,0,0},
{13230,5,114,97,100,8725,115},
{13232,2,112,115,0,0,0},
{13233,2,110,115,0,0,0},
{13234,2,956,115,0,0,0},
{13235,2,109,115,0,0,0},
{13236,2,112,86,0,0,0},
{13237,2,110,86,0,0,0},
{13238,2,956,86,0,0,0},
{13239,2,109,86,0,0,0},
{13240,2,107,86,0,0,0},
{13241,2,77,86,0,0,0},
{13242,2,112,87,0,0,0},
{13243,2,110,87,0,0,0},
{13244,2,956,87,0,0,0},
{13245,2,109,87,0,0,0},
{13246,2,107,87,0,0,0},
{13247,2,77,87,0,0,0},
{13248,2,107,937,0,0,0},
{13249,2,77,937,0,0,0},
{13250,4,97,46,109,46,0},
{13251,2,66,113,0,0,0},
{13252,2,99,99,0,0,0},
{13253,2,99,100,0,0,0},
{13254,4,67,8725,107,103,0},
{13255,3,67,111,46,0,0},
{13256,2,100,66,0,0,0},
{13257,2,71,121,0,0,0},
{13258,2,104,97,0,0,0},
{13259,2,72,80,0,0,0},
{13260,2,105,110,0,0,0},
{13261,2,75,75,0,0,0},
{13262,2,75,77,0,0,0},
{13263,2,107,116,0,0,0},
{13264,2,108,109,0,0,0},
{13265,2,108,110,0,0,0},
{13266,3,108,111,103,0,0},
{13267,2,108,120,0,0,0},
{13268,2,109,98,0,0,0},
{13269,3,109,105,108,0,0},
{13270,3,109,111,108,0,0},
{13271,2,80,72,0,0,0},
{13272,4,112,46,109,46,0},
{13273,3,80,80,77,0,0},
{13274,2,80,82,0,0,0},
{13275,2,115,114,0,0,0},
{13276,2,83,118,0,0,0},
{13277,2,87,98,0,0,0},
{13278,3,86,8725,109,0,0},
{13279,3,65,8725,109,0,0},
{13280,2,49,26085,0,0,0},
{13281,2,50,26085,0,0,0},
{13282,2,51,26085,0,0,0},
{13283,2,52,26085,0,0,0},
{13284,2,53,26085,0,0,0},
{13285,2,54,26085,0,0,0},
{13286,2,55,26085,0,0,0},
{13287,2,56,26085,0,0,0},
{13288,2,57,26085,0,0,0},
{13289,3,49,48,26085,0,0},
{13290,3,49,49,26085,0,0},
{13291,3,49,50,26085,0,0},
{13292,3,49,51,26085,0,0},
{13293,3,49,52,26085,0,0},
{13294,3,49,53,26085,0,0},
{13295,3,49,54,26085,0,0},
{13296,3,49,55,26085,0,0},
{13297,3,49,56,26085,0,0},
{13298,3,49,57,26085,0,0},
{13299,3,50,48,26085,0,0},
{13300,3,50,49,26085,0,0},
{13301,3,50,50,26085,0,0},
{13302,3,50,51,26085,0,0},
{13303,3,50,52,26085,0,0},
{13304,3,50,53,26085,0,0},
{13305,3,50,54,26085,0,0},
{13306,3,50,55,26085,0,0},
{13307,3,50,56,26085,0,0},
{13308,3,50,57,26085,0,0},
{13309,3,51,48,26085,0,0},
{13310,3,51,49,26085,0,0},
{13311,3,103,97,108,0,0},
{42652,1,1098,0,0,0,0},
{42653,1,1100,0,0,0,0},
{42864,1,42863,0,0,0,0},
{43000,1,294,0,0,0,0},
{43001,1,339,0,0,0,0},
{43868,1,42791,0,0,0,0},
{43869,1,43831,0,0,0,0},
{43870,1,619,0,0,0,0},
{43871,1,43858,0,0,0,0},
{63744,1,35912,0,0,0,0},
{63745,1,26356,0,0,0,0},
{63746,1,36554,0,0,0,0},
{63747,1,36040,0,0,0,0},
{63748,1,28369,0,0,0,0},
{63749,1,20018,0,0,0,0},
{63750,1,21477,0,0,0,0},
{63751,1,40860,0,0,0,0},
{63752,1,40860,0,0,0,0},
{63753,1,22865,0,0,0,0},
{63754,1,37329,0,0,0,0},
{63755,1,21895,0,0,0,0},
{63756,1,22856,0,0,0,0},
{63757,1,25078,0,0,0,0},
{63758,1,30313,0,0,0,0},
{63759,1,32645,0,0,0,0},
{63760,1,34367,0,0,0,0},
{63761,1,34746,0,0,0,0},
{63762,1,35064,0,0,0,0},
{63763,1,37007,0,0,0,0},
{63764,1,27138,0,0,0,0},
{63765,1,27931,0,0,0,0},
{63766,1,28889,0,0,0,0},
{63767,1,29662,0,0,0,0},
{63768,1,33853,0,0,0,0},
{63769,1,37226,0,0,0,0},
{63770,1,39409,0,0,0,0},
{63771,1,20098,0,0,0,0},
{63772,1,21365,0,0,0,0},
{63773,1,27396,0,0,0,0},
{63774,1,29211,0,0,0,0},
{63775,1,34349,0,0,0,0},
{63776,1,40478,0,0,0,0},
{63777,1,23888,0,0,0,0},
{63778,1,28651,0,0,0,0},
{63779,1,34253,0,0,0,0},
{63780,1,35172,0,0,0,0},
{63781,1,25289,0,0,0,0},
{63782,1,33240,0,0,0,0},
{63783,1,34847,0,0,0,0},
{63784,1,24266,0,0,0,0},
{63785,1,26391,0,0,0,0},
{63786,1,28010,0,0,0,0},
{63787,1,29436,0,0,0,0},
{63788,1,37070,0,0,0,0},
{63789,1,20358,0,0,0,0},
{63790,1,20919,0,0,0,0},
{63791,1,21214,0,0,0,0},
{63792,1,25796,0,0,0,0},
{63793,1,27347,0,0,0,0},
{63794,1,29200,0,0,0,0},
{63795,1,30439,0,0,0,0},
{63796,1,32769,0,0,0,0},
{63797,1,34310,0,0,0,0},
{63798,1,34396,0,0,0,0},
{63799,1,36335,0,0,0,0},
{63800,1,38706,0,0,0,0},
{63801,1,39791,0,0,0,0},
{63802,1,40442,0,0,0,0},
{63803,1,30860,0,0,0,0},
{63804,1,31103,0,0,0,0},
{63805,1,32160,0,0,0,0},
{63806,1,33737,0,0,0,0},
{63807,1,37636,0,0,0,0},
{63808,1,40575,0,0,0,0},
{63809,1,35542,0,0,0,0},
{63810,1,22751,0,0,0,0},
{63811,1,24324,0,0,0,0},
{63812,1,31840,0,0,0,0},
{63813,1,32894,0,0,0,0},
{63814,1,29282,0,0,0,0},
{63815,1,30922,0,0,0,0},
{63816,1,36034,0,0,0,0},
{63817,1,38647,0,0,0,0},
{63818,1,22744,0,0,0,0},
{63819,1,23650,0,0,0,0},
{63820,1,27155,0,0,0,0},
{63821,1,28122,0,0,0,0},
{63822,1,28431,0,0,0,0},
{63823,1,32047,0,0,0,0},
{63824,1,32311,0,0,0,0},
{63825,1,38475,0,0,0,0},
{63826,1,21202,0,0,0,0},
{63827,1,32907,0,0,0,0},
{63828,1,20956,0,0,0,0},
{63829,1,20940,0,0,0,0},
{63830,1,31260,0,0,0,0},
{63831,1,32190,0,0,0,0},
{63832,1,33777,0,0,0,0},
{63833,1,38517,0,0,0,0},
{63834,1,35712,0,0,0,0},
{63835,1,25295,0,0,0,0},
{63836,1,27138,0,0,0,0},
{63837,1,35582,0,0,0,0},
{63838,1,20025,0,0,0,0},
{63839,1,23527,0,0,0,0},
{63840,1,24594,0,0,0,0},
{63841,1,29575,0,0,0,0},
{63842,1,30064,0,0,0,0},
{63843,1,21271,0,0,0,0},
{63844,1,30971,0,0,0,0},
{63845,1,20415,0,0,0,0},
{63846,1,24489,0,0,0,0},
{63847,1,19981,0,0,0,0},
{63848,1,27852,0,0,0,0},
{63849,1,25976,0,0,0,0},
{63850,1,32034,0,0,0,0},
{63851,1,21443,0,0,0,0},
{63852,1,22622,0,0,0,0},
{63853,1,30465,0,0,0,0},
{63854,1,33865,0,0,0,0},
{63855,1,35498,0,0,0,0},
{63856,1,27578,0,0,0,0},
{63857,1,36784,0,0,0,0},
{63858,1,27784,0,0,0,0},
{63859,1,25342,0,0,0,0},
{63860,1,33509,0,0,0,0},
{63861,1,25504,0,0,0,0},
{63862,1,30053,0,0,0,0},
{63863,1,20142,0,0,0,0},
{63864,1,20841,0,0,0,0},
{63865,1,20937,0,0,0,0},
{63866,1,26753,0,0,0,0},
{63867,1,31975,0,0,0,0},
{63868,1,33391,0,0,0,0},
{63869,1,35538,0,0,0,0},
{63870,1,37327,0,0,0,0},
{63871,1,21237,0,0,0,0},
{63872,1,21570,0,0,0,0},
{63873,1,22899,0,0,0,0},
{63874,1,24300,0,0,0,0},
{63875,1,26053,0,0,0,0},
{63876,1,28670,0,0,0,0},
{63877,1,31018,0,0,0,0},
{63878,1,38317,0,0,0,0},
{63879,1,39530,0,0,0,0},
{63880,1,40599,0,0,0,0},
{63881,1,40654,0,0,0,0},
{63882,1,21147,0,0,0,0},
{63883,1,26310,0,0,0,0},
{63884,1,27511,0,0,0,0},
{63885,1,36706,0,0,0,0},
{63886,1,24180,0,0,0,0},
{63887,1,24976,0,0,0,0},
{63888,1,25088,0,0,0,0},
{63889,1,25754,0,0,0,0},
{63890,1,28451,0,0,0,0},
{63891,1,29001,0,0,0,0},
{63892,1,29833,0,0,0,0},
{63893,1,31178,0,0,0,0},
{63894,1,32244,0,0,0,0},
{63895,1,32879,0,0,0,0},
{63896,1,36646,0,0,0,0},
{63897,1,34030,0,0,0,0},
{63898,1,36899,0,0,0,0},
{63899,1,37706,0,0,0,0},
{63900,1,21015,0,0,0,0},
{63901,1,21155,0,0,0,0},
{63902,1,21693,0,0,0,0},
{63903,1,28872,0,0,0,0},
{63904,1,35010,0,0,0,0},
{63905,1,35498,0,0,0,0},
{63906,1,24265,0,0,0,0},
{63907,1,24565,0,0,0,0},
{63908,1,25467,0,0,0,0},
{63909,1,27566,0,0,0,0},
{63910,1,31806,0,0,0,0},
{63911,1,29557,0,0,0,0},
{63912,1,20196,0,0,0,0},
{63913,1,22265,0,0,0,0},
{63914,1,23527,0,0,0,0},
{63915,1,23994,0,0,0,0},
{63916,1,24604,0,0,0,0},
{63917,1,29618,0,0,0,0},
{63918,1,29801,0,0,0,0},
{63919,1,32666,0,0,0,0},
{63920,1,32838,0,0,0,0},
{63921,1,37428,0,0,0,0},
{63922,1,38646,0,0,0,0},
{63923,1,38728,0,0,0,0},
{63924,1,38936,0,0,0,0},
{63925,1,20363,0,0,0,0},
{63926,1,31150,0,0,0,0},
{63927,1,37300,0,0,0,0},
{63928,1,38584,0,0,0,0},
{63929,1,24801,0,0,0,0},
{63930,1,20102,0,0,0,0},
{63931,1,20698,0,0,0,0},
{63932,1,23534,0,0,0,0},
{63933,1,23615,0,0,0,0},
{63934,1,26009,0,0,0,0},
{63935,1,27138,0,0,0,0},
{63936,1,29134,0,0,0,0},
{63937,1,30274,0,0,0,0},
{63938,1,34044,0,0,0,0},
{63939,1,36988,0,0,0,0},
{63940,1,40845,0,0,0,0},
{63941,1,26248,0,0,0,0},
{63942,1,38446,0,0,0,0},
{63943,1,21129,0,0,0,0},
{63944,1,26491,0,0,0,0},
{63945,1,26611,0,0,0,0},
{63946,1,27969,0,0,0,0},
{63947,1,28316,0,0,0,0},
{63948,1,29705,0,0,0,0},
{63949,1,30041,0,0,0,0},
{63950,1,30827,0,0,0,0},
{63951,1,32016,0,0,0,0},
{63952,1,39006,0,0,0,0},
{63953,1,20845,0,0,0,0},
{63954,1,25134,0,0,0,0},
{63955,1,38520,0,0,0,0},
{63956,1,20523,0,0,0,0},
{63957,1,23833,0,0,0,0},
{63958,1,28138,0,0,0,0},
{63959,1,36650,0,0,0,0},
{63960,1,24459,0,0,0,0},
{63961,1,24900,0,0,0,0},
{63962,1,26647,0,0,0,0},
{63963,1,29575,0,0,0,0},
{63964,1,38534,0,0,0,0},
{63965,1,21033,0,0,0,0},
{63966,1,21519,0,0,0,0},
{63967,1,23653,0,0,0,0},
{63968,1,26131,0,0,0,0},
{63969,1,26446,0,0,0,0},
{63970,1,26792,0,0,0,0},
{63971,1,27877,0,0,0,0},
{63972,1,29702,0,0,0,0},
{63973,1,30178,0,0,0,0},
{63974,1,32633,0,0,0,0},
{63975,1,35023,0,0,0,0},
{63976,1,35041,0,0,0,0},
{63977,1,37324,0,0,0,0},
{63978,1,38626,0,0,0,0},
{63979,1,21311,0,0,0,0},
{63980,1,28346,0,0,0,0},
{63981,1,21533,0,0,0,0},
{63982,1,29136,0,0,0,0},
{63983,1,29848,0,0,0,0},
{63984,1,34298,0,0,0,0},
{63985,1,38563,0,0,0,0},
{63986,1,40023,0,0,0,0},
{63987,1,40607,0,0,0,0},
{63988,1,26519,0,0,0,0},
{63989,1,28107,0,0,0,0},
{63990,1,33256,0,0,0,0},
{63991,1,31435,0,0,0,0},
{63992,1,31520,0,0,0,0},
{63993,1,31890,0,0,0,0},
{63994,1,29376,0,0,0,0},
{63995,1,28825,0,0,0,0},
{63996,1,35672,0,0,0,0},
{63997,1,20160,0,0,0,0},
{63998,1,33590,0,0,0,0},
{63999,1,21050,0,0,0,0},
{64000,1,20999,0,0,0,0},
{64001,1,24230,0,0,0,0},
{64002,1,25299,0,0,0,0},
{64003,1,31958,0,0,0,0},
{64004,1,23429,0,0,0,0},
{64005,1,27934,0,0,0,0},
{64006,1,26292,0,0,0,0},
{64007,1,36667,0,0,0,0},
{64008,1,34892,0,0,0,0},
{64009,1,38477,0,0,0,0},
{64010,1,35211,0,0,0,0},
{64011,1,24275,0,0,0,0},
{64012,1,20800,0,0,0,0},
{64013,1,21952,0,0,0,0},
{64016,1,22618,0,0,0,0},
{64018,1,26228,0,0,0,0},
{64021,1,20958,0,0,0,0},
{64022,1,29482,0,0,0,0},
{64023,1,30410,0,0,0,0},
{64024,1,31036,0,0,0,0},
{64025,1,31070,0,0,0,0},
{64026,1,31077,0,0,0,0},
{64027,1,31119,0,0,0,0},
{64028,1,38742,0,0,0,0},
{64029,1,31934,0,0,0,0},
{64030,1,32701,0,0,0,0},
{64032,1,34322,0,0,0,0},
{64034,1,35576,0,0,0,0},
{64037,1,36920,0,0,0,0},
{64038,1,37117,0,0,0,0},
{64042,1,39151,0,0,0,0},
{64043,1,39164,0,0,0,0},
{64044,1,39208,0,0,0,0},
{64045,1,40372,0,0,0,0},
{64046,1,37086,0,0,0,0},
{64047,1,38583,0,0,0,0},
{64048,1,20398,0,0,0,0},
{64049,1,20711,0,0,0,0},
{64050,1,20813,0,0,0,0},
{64051,1,21193,0,0,0,0},
{64052,1,21220,0,0,0,0},
{64053,1,21329,0,0,0,0},
{64054,1,21917,0,0,0,0},
{64055,1,22022,0,0,0,0},
{64056,1,22120,0,0,0,0},
{64057,1,22592,0,0,0,0},
{64058,1,22696,0,0,0,0},
{64059,1,23652,0,0,0,0},
{64060,1,23662,0,0,0,0},
{64061,1,24724,0,0,0,0},
{64062,1,24936,0,0,0,0},
{64063,1,24974,0,0,0,0},
{64064,1,25074,0,0,0,0},
{64065,1,25935,0,0,0,0},
{64066,1,26082,0,0,0,0},
{64067,1,26257,0,0,0,0},
{64068,1,26757,0,0,0,0},
{64069,1,28023,0,0,0,0},
{64070,1,28186,0,0,0,0},
{64071,1,28450,0,0,0,0},
{64072,1,29038,0,0,0,0},
{64073,1,29227,0,0,0,0},
{64074,1,29730,0,0,0,0},
{64075,1,30865,0,0,0,0},
{64076,1,31038,0,0,0,0},
{64077,1,31049,0,0,0,0},
{64078,1,31048,0,0,0,0},
{64079,1,31056,0,0,0,0},
{64080,1,31062,0,0,0,0},
{64081,1,31069,0,0,0,0},
{64082,1,31117,0,0,0,0},
{64083,1,31118,0,0,0,0},
{64084,1,31296,0,0,0,0},
{64085,1,31361,0,0,0,0},
{64086,1,31680,0,0,0,0},
{64087,1,32244,0,0,0,0},
{64088,1,32265,0,0,0,0},
{64089,1,32321,0,0,0,0},
{64090,1,32626,0,0,0,0},
{64091,1,32773,0,0,0,0},
{64092,1,33261,0,0,0,0},
{64093,1,33401,0,0,0,0},
{64094,1,33401,0,0,0,0},
{64095,1,33879,0,0,0,0},
{64096,1,35088,0,0,0,0},
{64097,1,35222,0,0,0,0},
{64098,1,35585,0,0,0,0},
{64099,1,35641,0,0,0,0},
{64100,1,36051,0,0,0,0},
{64101,1,36104,0,0,0,0},
{64102,1,36790,0,0,0,0},
{64103,1,36920,0,0,0,0},
{64104,1,38627,0,0,0,0},
{64105,1,38911,0,0,0,0},
{64106,1,38971,0,0,0,0},
{64107,1,24693,0,0,0,0},
{64108,1,148206,0,0,0,0},
{64109,1,33304,0,0,0,0},
{64112,1,20006,0,0,0,0},
{64113,1,20917,0,0,0,0},
{64114,1,20840,0,0,0,0},
{64115,1,20352,0,0,0,0},
{64116,1,20805,0,0,0,0},
{64117,1,20864,0,0,0,0},
{64118,1,21191,0,0,0,0},
{64119,1,21242,0,0,0,0},
{64120,1,21917,0,0,0,0},
{64121,1,21845,0,0,0,0},
{64122,1,21913,0,0,0,0},
{64123,1,21986,0,0,0,0},
{64124,1,22618,0,0,0,0},
{64125,1,22707,0,0,0,0},
{64126,1,22852,0,0,0,0},
{64127,1,22868,0,0,0,0},
{64128,1,23138,0,0,0,0},
{64129,1,23336,0,0,0,0},
{64130,1,24274,0,0,0,0},
{64131,1,24281,0,0,0,0},
{64132,1,24425,0,0,0,0},
{64133,1,24493,0,0,0,0},
{64134,1,24792,0,0,0,0},
{64135,1,24910,0,0,0,0},
{64136,1,24840,0,0,0,0},
{64137,1,24974,0,0,0,0},
{64138,1,24928,0,0,0,0},
{64139,1,25074,0,0,0,0},
{64140,1,25140,0,0,0,0},
{64141,1,25540,0,0,0,0},
{64142,1,25628,0,0,0,0},
{64143,1,25682,0,0,0,0},
{64144,1,25942,0,0,0,0},
{64145,1,26228,0,0,0,0},
{64146,1,26391,0,0,0,0},
{64147,1,26395,0,0,0,0},
{64148,1,26454,0,0,0,0},
{64149,1,27513,0,0,0,0},
{64150,1,27578,0,0,0,0},
{64151,1,27969,0,0,0,0},
{64152,1,28379,0,0,0,0},
{64153,1,28363,0,0,0,0},
{64154,1,28450,0,0,0,0},
{64155,1,28702,0,0,0,0},
{64156,1,29038,0,0,0,0},
{64157,1,30631,0,0,0,0},
{64158,1,29237,0,0,0,0},
{64159,1,29359,0,0,0,0},
{64160,1,29482,0,0,0,0},
{64161,1,29809,0,0,0,0},
{64162,1,29958,0,0,0,0},
{64163,1,30011,0,0,0,0},
{64164,1,30237,0,0,0,0},
{64165,1,30239,0,0,0,0},
{64166,1,30410,0,0,0,0},
{64167,1,30427,0,0,0,0},
{64168,1,30452,0,0,0,0},
{64169,1,30538,0,0,0,0},
{64170,1,30528,0,0,0,0},
{64171,1,30924,0,0,0,0},
{64172,1,31409,0,0,0,0},
{64173,1,31680,0,0,0,0},
{64174,1,31867,0,0,0,0},
{64175,1,32091,0,0,0,0},
{64176,1,32244,0,0,0,0},
{64177,1,32574,0,0,0,0},
{64178,1,32773,0,0,0,0},
{64179,1,33618,0,0,0,0},
{64180,1,33775,0,0,0,0},
{64181,1,34681,0,0,0,0},
{64182,1,35137,0,0,0,0},
{64183,1,35206,0,0,0,0},
{64184,1,35222,0,0,0,0},
{64185,1,35519,0,0,0,0},
{64186,1,35576,0,0,0,0},
{64187,1,35531,0,0,0,0},
{64188,1,35585,0,0,0,0},
{64189,1,35582,0,0,0,0},
{64190,1,35565,0,0,0,0},
{64191,1,35641,0,0,0,0},
{64192,1,35722,0,0,0,0},
{64193,1,36104,0,0,0,0},
{64194,1,36664,0,0,0,0},
{64195,1,36978,0,0,0,0},
{64196,1,37273,0,0,0,0},
{64197,1,37494,0,0,0,0},
{64198,1,38524,0,0,0,0},
{64199,1,38627,0,0,0,0},
{64200,1,38742,0,0,0,0},
{64201,1,38875,0,0,0,0},
{64202,1,38911,0,0,0,0},
{64203,1,38923,0,0,0,0},
{64204,1,38971,0,0,0,0},
{64205,1,39698,0,0,0,0},
{64206,1,40860,0,0,0,0},
{64207,1,141386,0,0,0,0},
{64208,1,141380,0,0,0,0},
{64209,1,144341,0,0,0,0},
{64210,1,15261,0,0,0,0},
{64211,1,16408,0,0,0,0},
{64212,1,16441,0,0,0,0},
{64213,1,152137,0,0,0,0},
{64214,1,154832,0,0,0,0},
{64215,1,163539,0,0,0,0},
{64216,1,40771,0,0,0,0},
{64217,1,40846,0,0,0,0},
{64256,2,102,102,0,0,0},
{64257,2,102,105,0,0,0},
{64258,2,102,108,0,0,0},
{64259,3,102,102,105,0,0},
{64260,3,102,102,108,0,0},
{64261,2,115,116,0,0,0},
{64262,2,115,116,0,0,0},
{64275,2,1396,1398,0,0,0},
{64276,2,1396,1381,0,0,0},
{64277,2,1396,1387,0,0,0},
{64278,2,1406,1398,0,0,0},
{64279,2,1396,1389,0,0,0},
{64285,2,1497,1460,0,0,0},
{64287,2,1522,1463,0,0,0},
{64288,1,1506,0,0,0,0},
{64289,1,1488,0,0,0,0},
{64290,1,1491,0,0,0,0},
{64291,1,1492,0,0,0,0},
{64292,1,1499,0,0,0,0},
{64293,1,1500,0,0,0,0},
{64294,1,1501,0,0,0,0},
{64295,1,1512,0,0,0,0},
{64296,1,1514,0,0,0,0},
{64297,1,43,0,0,0,0},
{64298,2,1513,1473,0,0,0},
{64299,2,1513,1474,0,0,0},
{64300,3,1513,1468,1473,0,0},
{64301,3,1513,1468,1474,0,0},
{64302,2,1488,1463,0,0,0},
{64303,2,1488,1464,0,0,0},
{64304,2,1488,1468,0,0,0},
{64305,2,1489,1468,0,0,0},
{64306,2,1490,1468,0,0,0},
{64307,2,1491,1468,0,0,0},
{64308,2,1492,1468,0,0,0},
{64309,2,1493,1468,0,0,0},
{64310,2,1494,1468,0,0,0},
{64312,2,1496,1468,0,0,0},
{64313,2,1497,1468,0,0,0},
{64314,2,1498,1468,0,0,0},
{64315,2,1499,1468,0,0,0},
{64316,2,1500,1468,0,0,0},
{64318,2,1502,1468,0,0,0},
{64320,2,1504,1468,0,0,0},
{64321,2,1505,1468,0,0,0},
{64323,2,1507,1468,0,0,0},
{64324,2,1508,1468,0,0,0},
{64326,2,1510,1468,0,0,0},
{64327,2,1511,1468,0,0,0},
{64328,2,1512,1468,0,0,0},
{64329,2,1513,1468,0,0,0},
{64330,2,1514,1468,0,0,0},
{64331,2,1493,1465,0,0,0},
{64332,2,1489,1471,0,0,0},
{64333,2,1499,1471,0,0,0},
{64334,2,1508,1471,0,0,0},
{64335,2,1488,1500,0,0,0},
{64336,1,1649,0,0,0,0},
{64337,1,1649,0,0,0,0},
{64338,1,1659,0,0,0,0},
{64339,1,1659,0,0,0,0},
{64340,1,1659,0,0,0,0},
{64341,1,1659,0,0,0,0},
{64342,1,1662,0,0,0,0},
{64343,1,1662,0,0,0,0},
{64344,1,1662,0,0,0,0},
{64345,1,1662,0,0,0,0},
{64346,1,1664,0,0,0,0},
{64347,1,1664,0,0,0,0},
{64348,1,1664,0,0,0,0},
{64349,1,1664,0,0,0,0},
{64350,1,1658,0,0,0,0},
{64351,1,1658,0,0,0,0},
{64352,1,1658,0,0,0,0},
{64353,1,1658,0,0,0,0},
{64354,1,1663,0,0,0,0},
{64355,1,1663,0,0,0,0},
{64356,1,1663,0,0,0,0},
{64357,1,1663,0,0,0,0},
{64358,1,1657,0,0,0,0},
{64359,1,1657,0,0,0,0},
{64360,1,1657,0,0,0,0},
{64361,1,1657,0,0,0,0},
{64362,1,1700,0,0,0,0},
{64363,1,1700,0,0,0,0},
{64364,1,1700,0,0,0,0},
{64365,1,1700,0,0,0,0},
{64366,1,1702,0,0,0,0},
{64367,1,1702,0,0,0,0},
{64368,1,1702,0,0,0,0},
{64369,1,1702,0,0,0,0},
{64370,1,1668,0,0,0,0},
{64371,1,1668,0,0,0,0},
{64372,1,1668,0,0,0,0},
{64373,1,1668,0,0,0,0},
{64374,1,1667,0,0,0,0},
{64375,1,1667,0,0,0,0},
{64376,1,1667,0,0,0,0},
{64377,1,1667,0,0,0,0},
{64378,1,1670,0,0,0,0},
{64379,1,1670,0,0,0,0},
{64380,1,1670,0,0,0,0},
{64381,1,1670,0,0,0,0},
{64382,1,1671,0,0,0,0},
{64383,1,1671,0,0,0,0},
{64384,1,1671,0,0,0,0},
{64385,1,1671,0,0,0,0},
{64386,1,1677,0,0,0,0},
{64387,1,1677,0,0,0,0},
{64388,1,1676,0,0,0,0},
{64389,1,1676,0,0,0,0},
{64390,1,1678,0,0,0,0},
{64391,1,1678,0,0,0,0},
{64392,1,1672,0,0,0,0},
{64393,1,1672,0,0,0,0},
{64394,1,1688,0,0,0,0},
{64395,1,1688,0,0,0,0},
{64396,1,1681,0,0,0,0},
{64397,1,1681,0,0,0,0},
{64398,1,1705,0,0,0,0},
{64399,1,1705,0,0,0,0},
{64400,1,1705,0,0,0,0},
{64401,1,1705,0,0,0,0},
{64402,1,1711,0,0,0,0},
{64403,1,1711,0,0,0,0},
{64404,1,1711,0,0,0,0},
{64405,1,1711,0,0,0,0},
{64406,1,1715,0,0,0,0},
{64407,1,1715,0,0,0,0},
{64408,1,1715,0,0,0,0},
{64409,1,1715,0,0,0,0},
{64410,1,1713,0,0,0,0},
{64411,1,1713,0,0,0,0},
{64412,1,1713,0,0,0,0},
{64413,1,1713,0,0,0,0},
{64414,1,1722,0,0,0,0},
{64415,1,1722,0,0,0,0},
{64416,1,1723,0,0,0,0},
{64417,1,1723,0,0,0,0},
{64418,1,1723,0,0,0,0},
{64419,1,1723,0,0,0,0},
{64420,2,1749,1620,0,0,0},
{64421,2,1749,1620,0,0,0},
{64422,1,1729,0,0,0,0},
{64423,1,1729,0,0,0,0},
{64424,1,1729,0,0,0,0},
{64425,1,1729,0,0,0,0},
{64426,1,1726,0,0,0,0},
{64427,1,1726,0,0,0,0},
{64428,1,1726,0,0,0,0},
{64429,1,1726,0,0,0,0},
{64430,1,1746,0,0,0,0},
{64431,1,1746,0,0,0,0},
{64432,2,1746,1620,0,0,0},
{64433,2,1746,1620,0,0,0},
{64467,1,1709,0,0,0,0},
{64468,1,1709,0,0,0,0},
{64469,1,1709,0,0,0,0},
{64470,1,1709,0,0,0,0},
{64471,1,1735,0,0,0,0},
{64472,1,1735,0,0,0,0},
{64473,1,1734,0,0,0,0},
{64474,1,1734,0,0,0,0},
{64475,1,1736,0,0,0,0},
{64476,1,1736,0,0,0,0},
{64477,2,1735,1652,0,0,0},
{64478,1,1739,0,0,0,0},
{64479,1,1739,0,0,0,0},
{64480,1,1733,0,0,0,0},
{64481,1,1733,0,0,0,0},
{64482,1,1737,0,0,0,0},
{64483,1,1737,0,0,0,0},
{64484,1,1744,0,0,0,0},
{64485,1,1744,0,0,0,0},
{64486,1,1744,0,0,0,0},
{64487,1,1744,0,0,0,0},
{64488,1,1609,0,0,0,0},
{64489,1,1609,0,0,0,0},
{64490,3,1610,1620,1575,0,0},
{64491,3,1610,1620,1575,0,0},
{64492,3,1610,1620,1749,0,0},
{64493,3,1610,1620,1749,0,0},
{64494,3,1610,1620,1608,0,0},
{64495,3,1610,1620,1608,0,0},
{64496,3,1610,1620,1735,0,0},
{64497,3,1610,1620,1735,0,0},
{64498,3,1610,1620,1734,0,0},
{64499,3,1610,1620,1734,0,0},
{64500,3,1610,1620,1736,0,0},
{64501,3,1610,1620,1736,0,0},
{64502,3,1610,1620,1744,0,0},
{64503,3,1610,1620,1744,0,0},
{64504,3,1610,1620,1744,0,0},
{64505,3,1610,1620,1609,0,0},
{64506,3,1610,1620,1609,0,0},
{64507,3,1610,1620,1609,0,0},
{64508,1,1740,0,0,0,0},
{64509,1,1740,0,0,0,0},
{64510,1,1740,0,0,0,0},
{64511,1,1740,0,0,0,0},
{64512,3,1610,1620,1580,0,0},
{64513,3,1610,1620,1581,0,0},
{64514,3,1610,1620,1605,0,0},
{64515,3,1610,1620,1609,0,0},
{64516,3,1610,1620,1610,0,0},
{64517,2,1576,1580,0,0,0},
{64518,2,1576,1581,0,0,0},
{64519,2,1576,1582,0,0,0},
{64520,2,1576,1605,0,0,0},
{64521,2,1576,1609,0,0,0},
{64522,2,1576,1610,0,0,0},
{64523,2,1578,1580,0,0,0},
{64524,2,1578,1581,0,0,0},
{64525,2,1578,1582,0,0,0},
{64526,2,1578,1605,0,0,0},
{64527,2,1578,1609,0,0,0},
{64528,2,1578,1610,0,0,0},
{64529,2,1579,1580,0,0,0},
{64530,2,1579,1605,0,0,0},
{64531,2,1579,1609,0,0,0},
{64532,2,1579,1610,0,0,0},
{64533,2,1580,1581,0,0,0},
{64534,2,1580,1605,0,0,0},
{64535,2,1581,1580,0,0,0},
{64536,2,1581,1605,0,0,0},
{64537,2,1582,1580,0,0,0},
{64538,2,1582,1581,0,0,0},
{64539,2,1582,1605,0,0,0},
{64540,2,1587,1580,0,0,0},
{64541,2,1587,1581,0,0,0},
{64542,2,1587,1582,0,0,0},
{64543,2,1587,1605,0,0,0},
{64544,2,1589,1581,0,0,0},
{64545,2,1589,1605,0,0,0},
{64546,2,1590,1580,0,0,0},
{64547,2,1590,1581,0,0,0},
{64548,2,1590,1582,0,0,0},
{64549,2,1590,1605,0,0,0},
{64550,2,1591,1581,0,0,0},
{64551,2,1591,1605,0,0,0},
{64552,2,1592,1605,0,0,0},
{64553,2,1593,1580,0,0,0},
{64554,2,1593,1605,0,0,0},
{64555,2,1594,1580,0,0,0},
{64556,2,1594,1605,0,0,0},
{64557,2,1601,1580,0,0,0},
{64558,2,1601,1581,0,0,0},
{64559,2,1601,1582,0,0,0},
{64560,2,1601,1605,0,0,0},
{64561,2,1601,1609,0,0,0},
{64562,2,1601,1610,0,0,0},
{64563,2,1602,1581,0,0,0},
{64564,2,1602,1605,0,0,0},
{64565,2,1602,1609,0,0,0},
{64566,2,1602,1610,0,0,0},
{64567,2,1603,1575,0,0,0},
{64568,2,1603,1580,0,0,0},
{64569,2,1603,1581,0,0,0},
{64570,2,1603,1582,0,0,0},
{64571,2,1603,1604,0,0,0},
{64572,2,1603,1605,0,0,0},
{64573,2,1603,1609,0,0,0},
{64574,2,1603,1610,0,0,0},
{64575,2,1604,1580,0,0,0},
{64576,2,1604,1581,0,0,0},
{64577,2,1604,1582,0,0,0},
{64578,2,1604,1605,0,0,0},
{64579,2,1604,1609,0,0,0},
{64580,2,1604,1610,0,0,0},
{64581,2,1605,1580,0,0,0},
{64582,2,1605,1581,0,0,0},
{64583,2,1605,1582,0,0,0},
{64584,2,1605,1605,0,0,0},
{64585,2,1605,1609,0,0,0},
{64586,2,1605,1610,0,0,0},
{64587,2,1606,1580,0,0,0},
{64588,2,1606,1581,0,0,0},
{64589,2,1606,1582,0,0,0},
{64590,2,1606,1605,0,0,0},
{64591,2,1606,1609,0,0,0},
{64592,2,1606,1610,0,0,0},
{64593,2,1607,1580,0,0,0},
{64594,2,1607,1605,0,0,0},
{64595,2,1607,1609,0,0,0},
{64596,2,1607,1610,0,0,0},
{64597,2,1610,1580,0,0,0},
{64598,2,1610,1581,0,0,0},
{64599,2,1610,1582,0,0,0},
{64600,2,1610,1605,0,0,0},
{64601,2,1610,1609,0,0,0},
{64602,2,1610,1610,0,0,0},
{64603,2,1584,1648,0,0,0},
{64604,2,1585,1648,0,0,0},
{64605,2,1609,1648,0,0,0},
{64606,3,32,1612,1617,0,0},
{64607,3,32,1613,1617,0,0},
{64608,3,32,1614,1617,0,0},
{64609,3,32,1615,1617,0,0},
{64610,3,32,1616,1617,0,0},
{64611,3,32,1617,1648,0,0},
{64612,3,1610,1620,1585,0,0},
{64613,3,1610,1620,1586,0,0},
{64614,3,1610,1620,1605,0,0},
{64615,3,1610,1620,1606,0,0},
{64616,3,1610,1620,1609,0,0},
{64617,3,1610,1620,1610,0,0},
{64618,2,1576,1585,0,0,0},
{64619,2,1576,1586,0,0,0},
{64620,2,1576,1605,0,0,0},
{64621,2,1576,1606,0,0,0},
{64622,2,1576,1609,0,0,0},
{64623,2,1576,1610,0,0,0},
{64624,2,1578,1585,0,0,0},
{64625,2,1578,1586,0,0,0},
{64626,2,1578,1605,0,0,0},
{64627,2,1578,1606,0,0,0},
{64628,2,1578,1609,0,0,0},
{64629,2,1578,1610,0,0,0},
{64630,2,1579,1585,0,0,0},
{64631,2,1579,1586,0,0,0},
{64632,2,1579,1605,0,0,0},
{64633,2,1579,1606,0,0,0},
{64634,2,1579,1609,0,0,0},
{64635,2,1579,1610,0,0,0},
{64636,2,1601,1609,0,0,0},
{64637,2,1601,1610,0,0,0},
{64638,2,1602,1609,0,0,0},
{64639,2,1602,1610,0,0,0},
{64640,2,1603,1575,0,0,0},
{64641,2,1603,1604,0,0,0},
{64642,2,1603,1605,0,0,0},
{64643,2,1603,1609,0,0,0},
{64644,2,1603,1610,0,0,0},
{64645,2,1604,1605,0,0,0},
{64646,2,1604,1609,0,0,0},
{64647,2,1604,1610,0,0,0},
{64648,2,1605,1575,0,0,0},
{64649,2,1605,1605,0,0,0},
{64650,2,1606,1585,0,0,0},
{64651,2,1606,1586,0,0,0},
{64652,2,1606,1605,0,0,0},
{64653,2,1606,1606,0,0,0},
{64654,2,1606,1609,0,0,0},
{64655,2,1606,1610,0,0,0},
{64656,2,1609,1648,0,0,0},
{64657,2,1610,1585,0,0,0},
{64658,2,1610,1586,0,0,0},
{64659,2,1610,1605,0,0,0},
{64660,2,1610,1606,0,0,0},
{64661,2,1610,1609,0,0,0},
{64662,2,1610,1610,0,0,0},
{64663,3,1610,1620,1580,0,0},
{64664,3,1610,1620,1581,0,0},
{64665,3,1610,1620,1582,0,0},
{64666,3,1610,1620,1605,0,0},
{64667,3,1610,1620,1607,0,0},
{64668,2,1576,1580,0,0,0},
{64669,2,1576,1581,0,0,0},
{64670,2,1576,1582,0,0,0},
{64671,2,1576,1605,0,0,0},
{64672,2,1576,1607,0,0,0},
{64673,2,1578,1580,0,0,0},
{64674,2,1578,1581,0,0,0},
{64675,2,1578,1582,0,0,0},
{64676,2,1578,1605,0,0,0},
{64677,2,1578,1607,0,0,0},
{64678,2,1579,1605,0,0,0},
{64679,2,1580,1581,0,0,0},
{64680,2,1580,1605,0,0,0},
{64681,2,1581,1580,0,0,0},
{64682,2,1581,1605,0,0,0},
{64683,2,1582,1580,0,0,0},
{64684,2,1582,1605,0,0,0},
{64685,2,1587,1580,0,0,0},
{64686,2,1587,1581,0,0,0},
{64687,2,1587,1582,0,0,0},
{64688,2,1587,1605,0,0,0},
{64689,2,1589,1581,0,0,0},
{64690,2,1589,1582,0,0,0},
{64691,2,1589,1605,0,0,0},
{64692,2,1590,1580,0,0,0},
{64693,2,1590,1581,0,0,0},
{64694,2,1590,1582,0,0,0},
{64695,2,1590,1605,0,0,0},
{64696,2,1591,1581,0,0,0},
{64697,2,1592,1605,0,0,0},
{64698,2,1593,1580,0,0,0},
{64699,2,1593,1605,0,0,0},
{64700,2,1594,1580,0,0,0},
{64701,2,1594,1605,0,0,0},
{64702,2,1601,1580,0,0,0},
{64703,2,1601,1581,0,0,0},
{64704,2,1601,1582,0,0,0},
{64705,2,1601,1605,0,0,0},
{64706,2,1602,1581,0,0,0},
{64707,2,1602,1605,0,0,0},
{64708,2,1603,1580,0,0,0},
{64709,2,1603,1581,0,0,0},
{64710,2,1603,1582,0,0,0},
{64711,2,1603,1604,0,0,0},
{64712,2,1603,1605,0,0,0},
{64713,2,1604,1580,0,0,0},
{64714,2,1604,1581,0,0,0},
{64715,2,1604,1582,0,0,0},
{64716,2,1604,1605,0,0,0},
{64717,2,1604,1607,0,0,0},
{64718,2,1605,1580,0,0,0},
{64719,2,1605,1581,0,0,0},
{64720,2,1605,1582,0,0,0},
{64721,2,1605,1605,0,0,0},
{64722,2,1606,1580,0,0,0},
{64723,2,1606,1581,0,0,0},
{64724,2,1606,1582,0,0,0},
{64725,2,1606,1605,0,0,0},
{64726,2,1606,1607,0,0,0},
{64727,2,1607,1580,0,0,0},
{64728,2,1607,1605,0,0,0},
{64729,2,1607,1648,0,0,0},
{64730,2,1610,1580,0,0,0},
{64731,2,1610,1581,0,0,0},
{64732,2,1610,1582,0,0,0},
{64733,2,1610,1605,0,0,0},
{64734,2,1610,1607,0,0,0},
{64735,3,1610,1620,1605,0,0},
{64736,3,1610,1620,1607,0,0},
{64737,2,1576,1605,0,0,0},
{64738,2,1576,1607,0,0,0},
{64739,2,1578,1605,0,0,0},
{64740,2,1578,1607,0,0,0},
{64741,2,1579,1605,0,0,0},
{64742,2,1579,1607,0,0,0},
{64743,2,1587,1605,0,0,0},
{64744,2,1587,1607,0,0,0},
{64745,2,1588,1605,0,0,0},
{64746,2,1588,1607,0,0,0},
{64747,2,1603,1604,0,0,0},
{64748,2,1603,1605,0,0,0},
{64749,2,1604,1605,0,0,0},
{64750,2,1606,1605,0,0,0},
{64751,2,1606,1607,0,0,0},
{64752,2,1610,1605,0,0,0},
{64753,2,1610,1607,0,0,0},
{64754,3,1600,1614,1617,0,0},
{64755,3,1600,1615,1617,0,0},
{64756,3,1600,1616,1617,0,0},
{64757,2,1591,1609,0,0,0},
{64758,2,1591,1610,0,0,0},
{64759,2,1593,1609,0,0,0},
{64760,2,1593,1610,0,0,0},
{64761,2,1594,1609,0,0,0},
{64762,2,1594,1610,0,0,0},
{64763,2,1587,1609,0,0,0},
{64764,2,1587,1610,0,0,0},
{64765,2,1588,1609,0,0,0},
{64766,2,1588,1610,0,0,0},
{64767,2,1581,1609,0,0,0},
{64768,2,1581,1610,0,0,0},
{64769,2,1580,1609,0,0,0},
{64770,2,1580,1610,0,0,0},
{64771,2,1582,1609,0,0,0},
{64772,2,1582,1610,0,0,0},
{64773,2,1589,1609,0,0,0},
{64774,2,1589,1610,0,0,0},
{64775,2,1590,1609,0,0,0},
{64776,2,1590,1610,0,0,0},
{64777,2,1588,1580,0,0,0},
{64778,2,1588,1581,0,0,0},
{64779,2,1588,1582,0,0,0},
{64780,2,1588,1605,0,0,0},
{64781,2,1588,1585,0,0,0},
{64782,2,1587,1585,0,0,0},
{64783,2,1589,1585,0,0,0},
{64784,2,1590,1585,0,0,0},
{64785,2,1591,1609,0,0,0},
{64786,2,1591,1610,0,0,0},
{64787,2,1593,1609,0,0,0},
{64788,2,1593,1610,0,0,0},
{64789,2,1594,1609,0,0,0},
{64790,2,1594,1610,0,0,0},
{64791,2,1587,1609,0,0,0},
{64792,2,1587,1610,0,0,0},
{64793,2,1588,1609,0,0,0},
{64794,2,1588,1610,0,0,0},
{64795,2,1581,1609,0,0,0},
{64796,2,1581,1610,0,0,0},
{64797,2,1580,1609,0,0,0},
{64798,2,1580,1610,0,0,0},
{64799,2,1582,1609,0,0,0},
{64800,2,1582,1610,0,0,0},
{64801,2,1589,1609,0,0,0},
{64802,2,1589,1610,0,0,0},
{64803,2,1590,1609,0,0,0},
{64804,2,1590,1610,0,0,0},
{64805,2,1588,1580,0,0,0},
{64806,2,1588,1581,0,0,0},
{64807,2,1588,1582,0,0,0},
{64808,2,1588,1605,0,0,0},
{64809,2,1588,1585,0,0,0},
{64810,2,1587,1585,0,0,0},
{64811,2,1589,1585,0,0,0},
{64812,2,1590,1585,0,0,0},
{64813,2,1588,1580,0,0,0},
{64814,2,1588,1581,0,0,0},
{64815,2,1588,1582,0,0,0},
{64816,2,1588,1605,0,0,0},
{64817,2,1587,1607,0,0,0},
{64818,2,1588,1607,0,0,0},
{64819,2,1591,1605,0,0,0},
{64820,2,1587,1580,0,0,0},
{64821,2,1587,1581,0,0,0},
{64822,2,1587,1582,0,0,0},
{64823,2,1588,1580,0,0,0},
{64824,2,1588,1581,0,0,0},
{64825,2,1588,1582,0,0,0},
{64826,2,1591,1605,0,0,0},
{64827,2,1592,1605,0,0,0},
{64828,2,1575,1611,0,0,0},
{64829,2,1575,1611,0,0,0},
{64848,3,1578,1580,1605,0,0},
{64849,3,1578,1581,1580,0,0},
{64850,3,1578,1581,1580,0,0},
{64851,3,1578,1581,1605,0,0},
{64852,3,1578,1582,1605,0,0},
{64853,3,1578,1605,1580,0,0},
{64854,3,1578,1605,1581,0,0},
{64855,3,1578,1605,1582,0,0},
{64856,3,1580,1605,1581,0,0},
{64857,3,1580,1605,1581,0,0},
{64858,3,1581,1605,1610,0,0},
{64859,3,1581,1605,1609,0,0},
{64860,3,1587,1581,1580,0,0},
{64861,3,1587,1580,1581,0,0},
{64862,3,1587,1580,1609,0,0},
{64863,3,1587,1605,1581,0,0},
{64864,3,1587,1605,1581,0,0},
{64865,3,1587,1605,1580,0,0},
{64866,3,1587,1605,1605,0,0},
{64867,3,1587,1605,1605,0,0},
{64868,3,1589,1581,1581,0,0},
{64869,3,1589,1581,1581,0,0},
{64870,3,1589,1605,1605,0,0},
{64871,3,1588,1581,1605,0,0},
{64872,3,1588,1581,1605,0,0},
{64873,3,1588,1580,1610,0,0},
{64874,3,1588,1605,1582,0,0},
{64875,3,1588,1605,1582,0,0},
{64876,3,1588,1605,1605,0,0},
{64877,3,1588,1605,1605,0,0},
{64878,3,1590,1581,1609,0,0},
{64879,3,1590,1582,1605,0,0},
{64880,3,1590,1582,1605,0,0},
{64881,3,1591,1605,1581,0,0},
{64882,3,1591,1605,1581,0,0},
{64883,3,1591,1605,1605,0,0},
{64884,3,1591,1605,1610,0,0},
{64885,3,1593,1580,1605,0,0},
{64886,3,1593,1605,1605,0,0},
{64887,3,1593,1605,1605,0,0},
{64888,3,1593,1605,1609,0,0},
{64889,3,1594,1605,1605,0,0},
{64890,3,1594,1605,1610,0,0},
{64891,3,1594,1605,1609,0,0},
{64892,3,1601,1582,1605,0,0},
{64893,3,1601,1582,1605,0,0},
{64894,3,1602,1605,1581,0,0},
{64895,3,1602,1605,1605,0,0},
{64896,3,1604,1581,1605,0,0},
{64897,3,1604,1581,1610,0,0},
{64898,3,1604,1581,1609,0,0},
{64899,3,1604,1580,1580,0,0},
{64900,3,1604,1580,1580,0,0},
{64901,3,1604,1582,1605,0,0},
{64902,3,1604,1582,1605,0,0},
{64903,3,1604,1605,1581,0,0},
{64904,3,1604,1605,1581,0,0},
{64905,3,1605,1581,1580,0,0},
{64906,3,1605,1581,1605,0,0},
{64907,3,1605,1581,1610,0,0},
{64908,3,1605,1580,1581,0,0},
{64909,3,1605,1580,1605,0,0},
{64910,3,1605,1582,1580,0,0},
{64911,3,1605,1582,1605,0,0},
{64914,3,1605,1580,1582,0,0},
{64915,3,1607,1605,1580,0,0},
{64916,3,1607,1605,1605,0,0},
{64917,3,1606,1581,1605,0,0},
{64918,3,1606,1581,1609,0,0},
{64919,3,1606,1580,1605,0,0},
{64920,3,1606,1580,1605,0,0},
{64921,3,1606,1580,1609,0,0},
{64922,3,1606,1605,1610,0,0},
{64923,3,1606,1605,1609,0,0},
{64924,3,1610,1605,1605,0,0},
{64925,3,1610,1605,1605,0,0},
{64926,3,1576,1582,1610,0,0},
{64927,3,1578,1580,1610,0,0},
{64928,3,1578,1580,1609,0,0},
{64929,3,1578,1582,1610,0,0},
{64930,3,1578,1582,1609,0,0},
{64931,3,1578,1605,1610,0,0},
{64932,3,1578,1605,1609,0,0},
{64933,3,1580,1605,1610,0,0},
{64934,3,1580,1581,1609,0,0},
{64935,3,1580,1605,1609,0,0},
{64936,3,1587,1582,1609,0,0},
{64937,3,1589,1581,1610,0,0},
{64938,3,1588,1581,1610,0,0},
{64939,3,1590,1581,1610,0,0},
{64940,3,1604,1580,1610,0,0},
{64941,3,1604,1605,1610,0,0},
{64942,3,1610,1581,1610,0,0},
{64943,3,1610,1580,1610,0,0},
{64944,3,1610,1605,1610,0,0},
{64945,3,1605,1605,1610,0,0},
{64946,3,1602,1605,1610,0,0},
{64947,3,1606,1581,1610,0,0},
{64948,3,1602,1605,1581,0,0},
{64949,3,1604,1581,1605,0,0},
{64950,3,1593,1605,1610,0,0},
{64951,3,1603,1605,1610,0,0},
{64952,3,1606,1580,1581,0,0},
{64953,3,1605,1582,1610,0,0},
{64954,3,1604,1580,1605,0,0},
{64955,3,1603,1605,1605,0,0},
{64956,3,1604,1580,1605,0,0},
{64957,3,1606,1580,1581,0,0},
{64958,3,1580,1581,1610,0,0},
{64959,3,1581,1580,1610,0,0},
{64960,3,1605,1580,1610,0,0},
{64961,3,1601,1605,1610,0,0},
{64962,3,1576,1581,1610,0,0},
{64963,3,1603,1605,1605,0,0},
{64964,3,1593,1580,1605,0,0},
{64965,3,1589,1605,1605,0,0},
{64966,3,1587,1582,1610,0,0},
{64967,3,1606,1580,1610,0,0},
{65008,3,1589,1604,1746,0,0},
{65009,3,1602,1604,1746,0,0},
{65010,4,1575,1604,1604,1607,0},
{65011,4,1575,1603,1576,1585,0},
{65012,4,1605,1581,1605,1583,0},
{65013,4,1589,1604,1593,1605,0},
{65014,4,1585,1587,1608,1604,0},
{65015,4,1593,1604,1610,1607,0},
{65016,4,1608,1587,1604,1605,0},
{65017,3,1589,1604,1609,0,0},
{65020,4,1585,1740,1575,1604,0},
{65040,1,44,0,0,0,0},
{65041,1,12289,0,0,0,0},
{65042,1,12290,0,0,0,0},
{65043,1,58,0,0,0,0},
{65044,1,59,0,0,0,0},
{65045,1,33,0,0,0,0},
{65046,1,63,0,0,0,0},
{65047,1,12310,0,0,0,0},
{65048,1,12311,0,0,0,0},
{65049,3,46,46,46,0,0},
{65072,2,46,46,0,0,0},
{65073,1,8212,0,0,0,0},
{65074,1,8211,0,0,0,0},
{65075,1,95,0,0,0,0},
{65076,1,95,0,0,0,0},
{65077,1,40,0,0,0,0},
{65078,1,41,0,0,0,0},
{65079,1,123,0,0,0,0},
{65080,1,125,0,0,0,0},
{65081,1,12308,0,0,0,0},
{65082,1,12309,0,0,0,0},
{65083,1,12304,0,0,0,0},
{65084,1,12305,0,0,0,0},
{65085,1,12298,0,0,0,0},
{65086,1,12299,0,0,0,0},
{65087,1,12296,0,0,0,0},
{65088,1,12297,0,0,0,0},
{65089,1,12300,0,0,0,0},
{65090,1,12301,0,0,0,0},
{65091,1,12302,0,0,0,0},
{65092,1,12303,0,0,0,0},
{65095,1,91,0,0,0,0},
{65096,1,93,0,0,0,0},
{65097,2,32,773,0,0,0},
{65098,2,32,773,0,0,0},
{65099,2,32,773,0,0,0},
{65100,2,32,773,0,0,0},
{65101,1,95,0,0,0,0},
{65102,1,95,0,0,0,0},
{65103,1,95,0,0,0,0},
{65104,1,44,0,0,0,0},
{65105,1,12289,0,0,0,0},
{65106,1,46,0,0,0,0},
{65108,1,59,0,0,0,0},
{65109,1,58,0,0,0,0},
{65110,1,63,0,0,0,0},
{65111,1,33,0,0,0,0},
{65112,1,8212,0,0,0,0},
{65113,1,40,0,0,0,0},
{65114,1,41,0,0,0,0},
{65115,1,123,0,0,0,0},
{65116,1,125,0,0,0,0},
{65117,1,12308,0,0,0,0},
{65118,1,12309,0,0,0,0},
{65119,1,35,0,0,0,0},
{65120,1,38,0,0,0,0},
{65121,1,42,0,0,0,0},
{65122,1,43,0,0,0,0},
{65123,1,45,0,0,0,0},
{65124,1,60,0,0,0,0},
{65125,1,62,0,0,0,0},
{65126,1,61,0,0,0,0},
{65128,1,92,0,0,0,0},
{65129,1,36,0,0,0,0},
{65130,1,37,0,0,0,0},
{65131,1,64,0,0,0,0},
{65136,2,32,1611,0,0,0},
{65137,2,1600,1611,0,0,0},
{65138,2,32,1612,0,0,0},
{65140,2,32,1613,0,0,0},
{65142,2,32,1614,0,0,0},
{65143,2,1600,1614,0,0,0},
{65144,2,32,1615,0,0,0},
{65145,2,1600,1615,0,0,0},
{65146,2,32,1616,0,0,0},
{65147,2,1600,1616,0,0,0},
{65148,2,32,1617,0,0,0},
{65149,2,1600,1617,0,0,0},
{65150,2,32,1618,0,0,0},
{65151,2,1600,1618,0,0,0},
{65152,1,1569,0,0,0,0},
{65153,2,1575,1619,0,0,0},
{65154,2,1575,1619,0,0,0},
{65155,2,1575,1620,0,0,0},
{65156,2,1575,1620,0,0,0},
{65157,2,1608,1620,0,0,0},
{65158,2,1608,1620,0,0,0},
{65159,2,1575,1621,0,0,0},
{65160,2,1575,1621,0,0,0},
{65161,2,1610,1620,0,0,0},
{65162,2,1610,1620,0,0,0},
{65163,2,1610,1620,0,0,0},
{65164,2,1610,1620,0,0,0},
{65165,1,1575,0,0,0,0},
{65166,1,1575,0,0,0,0},
{65167,1,1576,0,0,0,0},
{65168,1,1576,0,0,0,0},
{65169,1,1576,0,0,0,0},
{65170,1,1576,0,0,0,0},
{65171,1,1577,0,0,0,0},
{65172,1,1577,0,0,0,0},
{65173,1,1578,0,0,0,0},
{65174,1,1578,0,0,0,0},
{65175,1,1578,0,0,0,0},
{65176,1,1578,0,0,0,0},
{65177,1,1579,0,0,0,0},
{65178,1,1579,0,0,0,0},
{65179,1,1579,0,0,0,0},
{65180,1,1579,0,0,0,0},
{65181,1,1580,0,0,0,0},
{65182,1,1580,0,0,0,0},
{65183,1,1580,0,0,0,0},
{65184,1,1580,0,0,0,0},
{65185,1,1581,0,0,0,0},
{65186,1,1581,0,0,0,0},
{65187,1,1581,0,0,0,0},
{65188,1,1581,0,0,0,0},
{65189,1,1582,0,0,0,0},
{65190,1,1582,0,0,0,0},
{65191,1,1582,0,0,0,0},
{65192,1,1582,0,0,0,0},
{65193,1,1583,0,0,0,0},
{65194,1,1583,0,0,0,0},
{65195,1,1584,0,0,0,0},
{65196,1,1584,0,0,0,0},
{65197,1,1585,0,0,0,0},
{65198,1,1585,0,0,0,0},
{65199,1,1586,0,0,0,0},
{65200,1,1586,0,0,0,0},
{65201,1,1587,0,0,0,0},
{65202,1,1587,0,0,0,0},
{65203,1,1587,0,0,0,0},
{65204,1,1587,0,0,0,0},
{65205,1,1588,0,0,0,0},
{65206,1,1588,0,0,0,0},
{65207,1,1588,0,0,0,0},
{65208,1,1588,0,0,0,0},
{65209,1,1589,0,0,0,0},
{65210,1,1589,0,0,0,0},
{65211,1,1589,0,0,0,0},
{65212,1,1589,0,0,0,0},
{65213,1,1590,0,0,0,0},
{65214,1,1590,0,0,0,0},
{65215,1,1590,0,0,0,0},
{65216,1,1590,0,0,0,0},
{65217,1,1591,0,0,0,0},
{65218,1,1591,0,0,0,0},
{65219,1,1591,0,0,0,0},
{65220,1,1591,0,0,0,0},
{65221,1,1592,0,0,0,0},
{65222,1,1592,0,0,0,0},
{65223,1,1592,0,0,0,0},
{65224,1,1592,0,0,0,0},
{65225,1,1593,0,0,0,0},
{65226,1,1593,0,0,0,0},
{65227,1,1593,0,0,0,0},
{65228,1,1593,0,0,0,0},
{65229,1,1594,0,0,0,0},
{65230,1,1594,0,0,0,0},
{65231,1,1594,0,0,0,0},
{65232,1,1594,0,0,0,0},
{65233,1,1601,0,0,0,0},
{65234,1,1601,0,0,0,0},
{65235,1,1601,0,0,0,0},
{65236,1,1601,0,0,0,0},
{65237,1,1602,0,0,0,0},
{65238,1,1602,0,0,0,0},
{65239,1,1602,0,0,0,0},
{65240,1,1602,0,0,0,0},
{65241,1,1603,0,0,0,0},
{65242,1,1603,0,0,0,0},
{65243,1,1603,0,0,0,0},
{65244,1,1603,0,0,0,0},
{65245,1,1604,0,0,0,0},
{65246,1,1604,0,0,0,0},
{65247,1,1604,0,0,0,0},
{65248,1,1604,0,0,0,0},
{65249,1,1605,0,0,0,0},
{65250,1,1605,0,0,0,0},
{65251,1,1605,0,0,0,0},
{65252,1,1605,0,0,0,0},
{65253,1,1606,0,0,0,0},
{65254,1,1606,0,0,0,0},
{65255,1,1606,0,0,0,0},
{65256,1,1606,0,0,0,0},
{65257,1,1607,0,0,0,0},
{65258,1,1607,0,0,0,0},
{65259,1,1607,0,0,0,0},
{65260,1,1607,0,0,0,0},
{65261,1,1608,0,0,0,0},
{65262,1,1608,0,0,0,0},
{65263,1,1609,0,0,0,0},
{65264,1,1609,0,0,0,0},
{65265,1,1610,0,0,0,0},
{65266,1,1610,0,0,0,0},
{65267,1,1610,0,0,0,0},
{65268,1,1610,0,0,0,0},
{65269,3,1604,1575,1619,0,0},
{65270,3,1604,1575,1619,0,0},
{65271,3,1604,1575,1620,0,0},
{65272,3,1604,1575,1620,0,0},
{65273,3,1604,1575,1621,0,0},
{65274,3,1604,1575,1621,0,0},
{65275,2,1604,1575,0,0,0},
{65276,2,1604,1575,0,0,0},
{65281,1,33,0,0,0,0},
{65282,1,34,0,0,0,0},
{65283,1,35,0,0,0,0},
{65284,1,36,0,0,0,0},
{65285,1,37,0,0,0,0},
{65286,1,38,0,0,0,0},
{65287,1,39,0,0,0,0},
{65288,1,40,0,0,0,0},
{65289,1,41,0,0,0,0},
{65290,1,42,0,0,0,0},
{65291,1,43,0,0,0,0},
{65292,1,44,0,0,0,0},
{65293,1,45,0,0,0,0},
{65294,1,46,0,0,0,0},
{65295,1,47,0,0,0,0},
{65296,1,48,0,0,0,0},
{65297,1,49,0,0,0,0},
{65298,1,50,0,0,0,0},
{65299,1,51,0,0,0,0},
{65300,1,52,0,0,0,0},
{65301,1,53,0,0,0,0},
{65302,1,54,0,0,0,0},
{65303,1,55,0,0,0,0},
{65304,1,56,0,0,0,0},
{65305,1,57,0,0,0,0},
{65306,1,58,0,0,0,0},
{65307,1,59,0,0,0,0},
{65308,1,60,0,0,0,0},
{65309,1,61,0,0,0,0},
{65310,1,62,0,0,0,0},
{65311,1,63,0,0,0,0},
{65312,1,64,0,0,0,0},
{65313,1,65,0,0,0,0},
{65314,1,66,0,0,0,0},
{65315,1,67,0,0,0,0},
{65316,1,68,0,0,0,0},
{65317,1,69,0,0,0,0},
{65318,1,70,0,0,0,0},
{65319,1,71,0,0,0,0},
{65320,1,72,0,0,0,0},
{65321,1,73,0,0,0,0},
{65322,1,74,0,0,0,0},
{65323,1,75,0,0,0,0},
{65324,1,76,0,0,0,0},
{65325,1,77,0,0,0,0},
{65326,1,78,0,0,0,0},
{65327,1,79,0,0,0,0},
{65328,1,80,0,0,0,0},
{65329,1,81,0,0,0,0},
{65330,1,82,0,0,0,0},
{65331,1,83,0,0,0,0},
{65332,1,84,0,0,0,0},
{65333,1,85,0,0,0,0},
{65334,1,86,0,0,0,0},
{65335,1,87,0,0,0,0},
{65336,1,88,0,0,0,0},
{65337,1,89,0,0,0,0},
{65338,1,90,0,0,0,0},
{65339,1,91,0,0,0,0},
{65340,1,92,0,0,0,0},
{65341,1,93,0,0,0,0},
{65342,1,94,0,0,0,0},
{65343,1,95,0,0,0,0},
{65344,1,96,0,0,0,0},
{65345,1,97,0,0,0,0},
{65346,1,98,0,0,0,0},
{65347,1,99,0,0,0,0},
{65348,1,100,0,0,0,0},
{65349,1,101,0,0,0,0},
{65350,1,102,0,0,0,0},
{65351,1,103,0,0,0,0},
{65352,1,104,0,0,0,0},
{65353,1,105,0,0,0,0},
{65354,1,106,0,0,0,0},
{65355,1,107,0,0,0,0},
{65356,1,108,0,0,0,0},
{65357,1,109,0,0,0,0},
{65358,1,110,0,0,0,0},
{65359,1,111,0,0,0,0},
{65360,1,112,0,0,0,0},
{65361,1,113,0,0,0,0},
{65362,1,114,0,0,0,0},
{65363,1,115,0,0,0,0},
{65364,1,116,0,0,0,0},
{65365,1,117,0,0,0,0},
{65366,1,118,0,0,0,0},
{65367,1,119,0,0,0,0},
{65368,1,120,0,0,0,0},
{65369,1,121,0,0,0,0},
{65370,1,122,0,0,0,0},
{65371,1,123,0,0,0,0},
{65372,1,124,0,0,0,0},
{65373,1,125,0,0,0,0},
{65374,1,126,0,0,0,0},
{65375,1,10629,0,0,0,0},
{65376,1,10630,0,0,0,0},
{65377,1,12290,0,0,0,0},
{65378,1,12300,0,0,0,0},
{65379,1,12301,0,0,0,0},
{65380,1,12289,0,0,0,0},
{65381,1,12539,0,0,0,0},
{65382,1,12530,0,0,0,0},
{65383,1,12449,0,0,0,0},
{65384,1,12451,0,0,0,0},
{65385,1,12453,0,0,0,0},
{65386,1,12455,0,0,0,0},
{65387,1,12457,0,0,0,0},
{65388,1,12515,0,0,0,0},
{65389,1,12517,0,0,0,0},
{65390,1,12519,0,0,0,0},
{65391,1,12483,0,0,0,0},
{65392,1,12540,0,0,0,0},
{65393,1,12450,0,0,0,0},
{65394,1,12452,0,0,0,0},
{65395,1,12454,0,0,0,0},
{65396,1,12456,0,0,0,0},
{65397,1,12458,0,0,0,0},
{65398,1,12459,0,0,0,0},
{65399,1,12461,0,0,0,0},
{65400,1,12463,0,0,0,0},
{65401,1,12465,0,0,0,0},
{65402,1,12467,0,0,0,0},
{65403,1,12469,0,0,0,0},
{65404,1,12471,0,0,0,0},
{65405,1,12473,0,0,0,0},
{65406,1,12475,0,0,0,0},
{65407,1,12477,0,0,0,0},
{65408,1,12479,0,0,0,0},
{65409,1,12481,0,0,0,0},
{65410,1,12484,0,0,0,0},
{65411,1,12486,0,0,0,0},
{65412,1,12488,0,0,0,0},
{65413,1,12490,0,0,0,0},
{65414,1,12491,0,0,0,0},
{65415,1,12492,0,0,0,0},
{65416,1,12493,0,0,0,0},
{65417,1,12494,0,0,0,0},
{65418,1,12495,0,0,0,0},
{65419,1,12498,0,0,0,0},
{65420,1,12501,0,0,0,0},
{65421,1,12504,0,0,0,0},
{65422,1,12507,0,0,0,0},
{65423,1,12510,0,0,0,0},
{65424,1,12511,0,0,0,0},
{65425,1,12512,0,0,0,0},
{65426,1,12513,0,0,0,0},
{65427,1,12514,0,0,0,0},
{65428,1,12516,0,0,0,0},
{65429,1,12518,0,0,0,0},
{65430,1,12520,0,0,0,0},
{65431,1,12521,0,0,0,0},
{65432,1,12522,0,0,0,0},
{65433,1,12523,0,0,0,0},
{65434,1,12524,0,0,0,0},
{65435,1,12525,0,0,0,0},
{65436,1,12527,0,0,0,0},
{65437,1,12531,0,0,0,0},
{65438,1,12441,0,0,0,0},
{65439,1,12442,0,0,0,0},
{65440,1,4448,0,0,0,0},
{65441,1,4352,0,0,0,0},
{65442,1,4353,0,0,0,0},
{65443,1,4522,0,0,0,0},
{65444,1,4354,0,0,0,0},
{65445,1,4524,0,0,0,0},
{65446,1,4525,0,0,0,0},
{65447,1,4355,0,0,0,0},
{65448,1,4356,0,0,0,0},
{65449,1,4357,0,0,0,0},
{65450,1,4528,0,0,0,0},
{65451,1,4529,0,0,0,0},
{65452,1,4530,0,0,0,0},
{65453,1,4531,0,0,0,0},
{65454,1,4532,0,0,0,0},
{65455,1,4533,0,0,0,0},
{65456,1,4378,0,0,0,0},
{65457,1,4358,0,0,0,0},
{65458,1,4359,0,0,0,0},
{65459,1,4360,0,0,0,0},
{65460,1,4385,0,0,0,0},
{65461,1,4361,0,0,0,0},
{65462,1,4362,0,0,0,0},
{65463,1,4363,0,0,0,0},
{65464,1,4364,0,0,0,0},
{65465,1,4365,0,0,0,0},
{65466,1,4366,0,0,0,0},
{65467,1,4367,0,0,0,0},
{65468,1,4368,0,0,0,0},
{65469,1,4369,0,0,0,0},
{65470,1,4370,0,0,0,0},
{65474,1,4449,0,0,0,0},
{65475,1,4450,0,0,0,0},
{65476,1,4451,0,0,0,0},
{65477,1,4452,0,0,0,0},
{65478,1,4453,0,0,0,0},
{65479,1,4454,0,0,0,0},
{65482,1,4455,0,0,0,0},
{65483,1,4456,0,0,0,0},
{65484,1,4457,0,0,0,0},
{65485,1,4458,0,0,0,0},
{65486,1,4459,0,0,0,0},
{65487,1,4460,0,0,0,0},
{65490,1,4461,0,0,0,0},
{65491,1,4462,0,0,0,0},
{65492,1,4463,0,0,0,0},
{65493,1,4464,0,0,0,0},
{65494,1,4465,0,0,0,0},
{65495,1,4466,0,0,0,0},
{65498,1,4467,0,0,0,0},
{65499,1,4468,0,0,0,0},
{65500,1,4469,0,0,0,0},
{65504,1,162,0,0,0,0},
{65505,1,163,0,0,0,0},
{65506,1,172,0,0,0,0},
{65507,2,32,772,0,0,0},
{65508,1,166,0,0,0,0},
{65509,1,165,0,0,0,0},
{65510,1,8361,0,0,0,0},
{65512,1,9474,0,0,0,0},
{65513,1,8592,0,0,0,0},
{65514,1,8593,0,0,0,0},
{65515,1,8594,0,0,0,0},
{65516,1,8595,0,0,0,0},
{65517,1,9632,0,0,0,0},
{65518,1,9675,0,0,0,0},
{69786,2,69785,69818,0,0,0},
{69788,2,69787,69818,0,0,0},
{69803,2,69797,69818,0,0,0},
{69934,2,69937,69927,0,0,0},
{69935,2,69938,69927,0,0,0},
{70475,2,70471,70462,0,0,0},
{70476,2,70471,70487,0,0,0},
{70843,2,70841,70842,0,0,0},
{70844,2,70841,70832,0,0,0},
{70846,2,70841,70845,0,0,0},
{71098,2,71096,71087,0,0,0},
{71099,2,71097,71087,0,0,0},
{119134,2,119127,119141,0,0,0},
{119135,2,119128,119141,0,0,0},
{119136,3,119128,119141,119150,0,0},
{119137,3,119128,119141,119151,0,0},
{119138,3,119128,119141,119152,0,0},
{119139,3,119128,119141,119153,0,0},
{119140,3,119128,119141,119154,0,0},
{119227,2,119225,119141,0,0,0},
{119228,2,119226,119141,0,0,0},
{119229,3,119225,119141,119150,0,0},
{119230,3,119226,119141,119150,0,0},
{119231,3,119225,119141,119151,0,0},
{119232,3,119226,119141,119151,0,0},
{119808,1,65,0,0,0,0},
{119809,1,66,0,0,0,0},
{119810,1,67,0,0,0,0},
{119811,1,68,0,0,0,0},
{119812,1,69,0,0,0,0},
{119813,1,70,0,0,0,0},
{119814,1,71,0,0,0,0},
{119815,1,72,0,0,0,0},
{119816,1,73,0,0,0,0},
{119817,1,74,0,0,0,0},
{119818,1,75,0,0,0,0},
{119819,1,76,0,0,0,0},
{119820,1,77,0,0,0,0},
{119821,1,78,0,0,0,0},
{119822,1,79,0,0,0,0},
{119823,1,80,0,0,0,0},
{119824,1,81,0,0,0,0},
{119825,1,82,0,0,0,0},
{119826,1,83,0,0,0,0},
{119827,1,84,0,0,0,0},
{119828,1,85,0,0,0,0},
{119829,1,86,0,0,0,0},
{119830,1,87,0,0,0,0},
{119831,1,88,0,0,0,0},
{119832,1,89,0,0,0,0},
{119833,1,90,0,0,0,0},
{119834,1,97,0,0,0,0},
{119835,1,98,0,0,0,0},
{119836,1,99,0,0,0,0},
{119837,1,100,0,0,0,0},
{119838,1,101,0,0,0,0},
{119839,1,102,0,0,0,0},
{119840,1,103,0,0,0,0},
{119841,1,104,0,0,0,0},
{119842,1,105,0,0,0,0},
{119843,1,106,0,0,0,0},
{119844,1,107,0,0,0,0},
{119845,1,108,0,0,0,0},
{119846,1,109,0,0,0,0},
{119847,1,110,0,0,0,0},
{119848,1,111,0,0,0,0},
{119849,1,112,0,0,0,0},
{119850,1,113,0,0,0,0},
{119851,1,114,0,0,0,0},
{119852,1,115,0,0,0,0},
{119853,1,116,0,0,0,0},
{119854,1,117,0,0,0,0},
{119855,1,118,0,0,0,0},
{119856,1,119,0,0,0,0},
{119857,1,120,0,0,0,0},
{119858,1,121,0,0,0,0},
{119859,1,122,0,0,0,0},
{119860,1,65,0,0,0,0},
{119861,1,66,0,0,0,0},
{119862,1,67,0,0,0,0},
{119863,1,68,0,0,0,0},
{119864,1,69,0,0,0,0},
{119865,1,70,0,0,0,0},
{119866,1,71,0,0,0,0},
{119867,1,72,0,0,0,0},
{119868,1,73,0,0,0,0},
{119869,1,74,0,0,0,0},
{119870,1,75,0,0,0,0},
{119871,1,76,0,0,0,0},
{119872,1,77,0,0,0,0},
{119873,1,78,0,0,0,0},
{119874,1,79,0,0,0,0},
{119875,1,80,0,0,0,0},
{119876,1,81,0,0,0,0},
{119877,1,82,0,0,0,0},
{119878,1,83,0,0,0,0},
{119879,1,84,0,0,0,0},
{119880,1,85,0,0,0,0},
{119881,1,86,0,0,0,0},
{119882,1,87,0,0,0,0},
{119883,1,88,0,0,0,0},
{119884,1,89,0,0,0,0},
{119885,1,90,0,0,0,0},
{119886,1,97,0,0,0,0},
{119887,1,98,0,0,0,0},
{119888,1,99,0,0,0,0},
{119889,1,100,0,0,0,0},
{119890,1,101,0,0,0,0},
{119891,1,102,0,0,0,0},
{119892,1,103,0,0,0,0},
{119894,1,105,0,0,0,0},
{119895,1,106,0,0,0,0},
{119896,1,107,0,0,0,0},
{119897,1,108,0,0,0,0},
{119898,1,109,0,0,0,0},
{119899,1,110,0,0,0,0},
{119900,1,111,0,0,0,0},
{119901,1,112,0,0,0,0},
{119902,1,113,0,0,0,0},
{119903,1,114,0,0,0,0},
{119904,1,115,0,0,0,0},
{119905,1,116,0,0,0,0},
{119906,1,117,0,0,0,0},
{119907,1,118,0,0,0,0},
{119908,1,119,0,0,0,0},
{119909,1,120,0,0,0,0},
{119910,1,121,0,0,0,0},
{119911,1,122,0,0,0,0},
{119912,1,65,0,0,0,0},
{119913,1,66,0,0,0,0},
{119914,1,67,0,0,0,0},
{119915,1,68,0,0,0,0},
{119916,1,69,0,0,0,0},
{119917,1,70,0,0,0,0},
{119918,1,71,0,0,0,0},
{119919,1,72,0,0,0,0},
{119920,1,73,0,0,0,0},
{119921,1,74,0,0,0,0},
{119922,1,75,0,0,0,0},
{119923,1,76,0,0,0,0},
{119924,1,77,0,0,0,0},
{119925,1,78,0,0,0,0},
{119926,1,79,0,0,0,0},
{119927,1,80,0,0,0,0},
{119928,1,81,0,0,0,0},
{119929,1,82,0,0,0,0},
{119930,1,83,0,0,0,0},
{119931,1,84,0,0,0,0},
{119932,1,85,0,0,0,0},
{119933,1,86,0,0,0,0},
{119934,1,87,0,0,0,0},
{119935,1,88,0,0,0,0},
{119936,1,89,0,0,0,0},
{119937,1,90,0,0,0,0},
{119938,1,97,0,0,0,0},
{119939,1,98,0,0,0,0},
{119940,1,99,0,0,0,0},
{119941,1,100,0,0,0,0},
{119942,1,101,0,0,0,0},
{119943,1,102,0,0,0,0},
{119944,1,103,0,0,0,0},
{119945,1,104,0,0,0,0},
{119946,1,105,0,0,0,0},
{119947,1,106,0,0,0,0},
{119948,1,107,0,0,0,0},
{119949,1,108,0,0,0,0},
{119950,1,109,0,0,0,0},
{119951,1,110,0,0,0,0},
{119952,1,111,0,0,0,0},
{119953,1,112,0,0,0,0},
{119954,1,113,0,0,0,0},
{119955,1,114,0,0,0,0},
{119956,1,115,0,0,0,0},
{119957,1,116,0,0,0,0},
{119958,1,117,0,0,0,0},
{119959,1,118,0,0,0,0},
{119960,1,119,0,0,0,0},
{119961,1,120,0,0,0,0},
{119962,1,121,0,0,0,0},
{119963,1,122,0,0,0,0},
{119964,1,65,0,0,0,0},
{119966,1,67,0,0,0,0},
{119967,1,68,0,0,0,0},
{119970,1,71,0,0,0,0},
{119973,1,74,0,0,0,0},
{119974,1,75,0,0,0,0},
{119977,1,78,0,0,0,0},
{119978,1,79,0,0,0,0},
{119979,1,80,0,0,0,0},
{119980,1,81,0,0,0,0},
{119982,1,83,0,0,0,0},
{119983,1,84,0,0,0,0},
{119984,1,85,0,0,0,0},
{119985,1,86,0,0,0,0},
{119986,1,87,0,0,0,0},
{119987,1,88,0,0,0,0},
{119988,1,89,0,0,0,0},
{119989,1,90,0,0,0,0},
{119990,1,97,0,0,0,0},
{119991,1,98,0,0,0,0},
{119992,1,99,0,0,0,0},
{119993,1,100,0,0,0,0},
{119995,1,102,0,0,0,0},
{119997,1,104,0,0,0,0},
{119998,1,105,0,0,0,0},
{119999,1,106,0,0,0,0},
{120000,1,107,0,0,0,0},
{120001,1,108,0,0,0,0},
{120002,1,109,0,0,0,0},
{120003,1,110,0,0,0,0},
{120005,1,112,0,0,0,0},
{120006,1,113,0,0,0,0},
{120007,1,114,0,0,0,0},
{120008,1,115,0,0,0,0},
{120009,1,116,0,0,0,0},
{120010,1,117,0,0,0,0},
{120011,1,118,0,0,0,0},
{120012,1,119,0,0,0,0},
{120013,1,120,0,0,0,0},
{120014,1,121,0,0,0,0},
{120015,1,122,0,0,0,0},
{120016,1,65,0,0,0,0},
{120017,1,66,0,0,0,0},
{120018,1,67,0,0,0,0},
{120019,1,68,0,0,0,0},
{120020,1,69,0,0,0,0},
{120021,1,70,0,0,0,0},
{120022,1,71,0,0,0,0},
{120023,1,72,0,0,0,0},
{120024,1,73,0,0,0,0},
{120025,1,74,0,0,0,0},
{120026,1,75,0,0,0,0},
{120027,1,76,0,0,0,0},
{120028,1,77,0,0,0,0},
{120029,1,78,0,0,0,0},
{120030,1,79,0,0,0,0},
{120031,1,80,0,0,0,0},
{120032,1,81,0,0,0,0},
{120033,1,82,0,0,0,0},
{120034,1,83,0,0,0,0},
{120035,1,84,0,0,0,0},
{120036,1,85,0,0,0,0},
{120037,1,86,0,0,0,0},
{120038,1,87,0,0,0,0},
{120039,1,88,0,0,0,0},
{120040,1,89,0,0,0,0},
{120041,1,90,0,0,0,0},
{120042,1,97,0,0,0,0},
{120043,1,98,0,0,0,0},
{120044,1,99,0,0,0,0},
{120045,1,100,0,0,0,0},
{120046,1,101,0,0,0,0},
{120047,1,102,0,0,0,0},
{120048,1,103,0,0,0,0},
{120049,1,104,0,0,0,0},
{120050,1,105,0,0,0,0},
{120051,1,106,0,0,0,0},
{120052,1,107,0,0,0,0},
{120053,1,108,0,0,0,0},
{120054,1,109,0,0,0,0},
{120055,1,110,0,0,0,0},
{120056,1,111,0,0,0,0},
{120057,1,112,0,0,0,0},
{120058,1,113,0,0,0,0},
{120059,1,114,0,0,0,0},
{120060,1,115,0,0,0,0},
{120061,1,116,0,0,0,0},
{120062,1,117,0,0,0,0},
{120063,1,118,0,0,0,0},
{120064,1,119,0,0,0,0},
{120065,1,120,0,0,0,0},
{120066,1,121,0,0,0,0},
{120067,1,122,0,0,0,0},
{120068,1,65,0,0,0,0},
{120069,1,66,0,0,0,0},
{120071,1,68,0,0,0,0},
{120072,1,69,0,0,0,0},
{120073,1,70,0,0,0,0},
{120074,1,71,0,0,0,0},
{120077,1,74,0,0,0,0},
{120078,1,75,0,0,0,0},
{120079,1,76,0,0,0,0},
{120080,1,77,0,0,0,0},
{120081,1,78,0,0,0,0},
{120082,1,79,0,0,0,0},
{120083,1,80,0,0,0,0},
{120084,1,81,0,0,0,0},
{120086,1,83,0,0,0,0},
{120087,1,84,0,0,0,0},
{120088,1,85,0,0,0,0},
{120089,1,86,0,0,0,0},
{120090,1,87,0,0,0,0},
{120091,1,88,0,0,0,0},
{120092,1,89,0,0,0,0},
{120094,1,97,0,0,0,0},
{120095,1,98,0,0,0,0},
{120096,1,99,0,0,0,0},
{120097,1,100,0,0,0,0},
{120098,1,101,0,0,0,0},
{120099,1,102,0,0,0,0},
{120100,1,103,0,0,0,0},
{120101,1,104,0,0,0,0},
{120102,1,105,0,0,0,0},
{120103,1,106,0,0,0,0},
{120104,1,107,0,0,0,0},
{120105,1,108,0,0,0,0},
{120106,1,109,0,0,0,0},
{120107,1,110,0,0,0,0},
{120108,1,111,0,0,0,0},
{120109,1,112,0,0,0,0},
{120110,1,113,0,0,0,0},
{120111,1,114,0,0,0,0},
{120112,1,115,0,0,0,0},
{120113,1,116,0,0,0,0},
{120114,1,117,0,0,0,0},
{120115,1,118,0,0,0,0},
{120116,1,119,0,0,0,0},
{120117,1,120,0,0,0,0},
{120118,1,121,0,0,0,0},
{120119,1,122,0,0,0,0},
{120120,1,65,0,0,0,0},
{120121,1,66,0,0,0,0},
{120123,1,68,0,0,0,0},
{120124,1,69,0,0,0,0},
{120125,1,70,0,0,0,0},
{120126,1,71,0,0,0,0},
{120128,1,73,0,0,0,0},
{120129,1,74,0,0,0,0},
{120130,1,75,0,0,0,0},
{120131,1,76,0,0,0,0},
{120132,1,77,0,0,0,0},
{120134,1,79,0,0,0,0},
{120138,1,83,0,0,0,0},
{120139,1,84,0,0,0,0},
{120140,1,85,0,0,0,0},
{120141,1,86,0,0,0,0},
{120142,1,87,0,0,0,0},
{120143,1,88,0,0,0,0},
{120144,1,89,0,0,0,0},
{120146,1,97,0,0,0,0},
{120147,1,98,0,0,0,0},
{120148,1,99,0,0,0,0},
{120149,1,100,0,0,0,0},
{120150,1,101,0,0,0,0},
{120151,1,102,0,0,0,0},
{120152,1,103,0,0,0,0},
{120153,1,104,0,0,0,0},
{120154,1,105,0,0,0,0},
{120155,1,106,0,0,0,0},
{120156,1,107,0,0,0,0},
{120157,1,108,0,0,0,0},
{120158,1,109,0,0,0,0},
{120159,1,110,0,0,0,0},
{120160,1,111,0,0,0,0},
{120161,1,112,0,0,0,0},
{120162,1,113,0,0,0,0},
{120163,1,114,0,0,0,0},
{120164,1,115,0,0,0,0},
{120165,1,116,0,0,0,0},
{120166,1,117,0,0,0,0},
{120167,1,118,0,0,0,0},
{120168,1,119,0,0,0,0},
{120169,1,120,0,0,0,0},
{120170,1,121,0,0,0,0},
{120171,1,122,0,0,0,0},
{120172,1,65,0,0,0,0},
{120173,1,66,0,0,0,0},
{120174,1,67,0,0,0,0},
{120175,1,68,0,0,0,0},
{120176,1,69,0,0,0,0},
{120177,1,70,0,0,0,0},
{120178,1,71,0,0,0,0},
{120179,1,72,0,0,0,0},
{120180,1,73,0,0,0,0},
{120181,1,74,0,0,0,0},
{120182,1,75,0,0,0,0},
{120183,1,76,0,0,0,0},
{120184,1,77,0,0,0,0},
{120185,1,78,0,0,0,0},
{120186,1,79,0,0,0,0},
{120187,1,80,0,0,0,0},
{120188,1,81,0,0,0,0},
{120189,1,82,0,0,0,0},
{120190,1,83,0,0,0,0},
{120191,1,84,0,0,0,0},
{120192,1,85,0,0,0,0},
{120193,1,86,0,0,0,0},
{120194,1,87,0,0,0,0},
{120195,1,88,0,0,0,0},
{120196,1,89,0,0,0,0},
{120197,1,90,0,0,0,0},
{120198,1,97,0,0,0,0},
{120199,1,98,0,0,0,0},
{120200,1,99,0,0,0,0},
{120201,1,100,0,0,0,0},
{120202,1,101,0,0,0,0},
{120203,1,102,0,0,0,0},
{120204,1,103,0,0,0,0},
{120205,1,104,0,0,0,0},
{120206,1,105,0,0,0,0},
{120207,1,106,0,0,0,0},
{120208,1,107,0,0,0,0},
{120209,1,108,0,0,0,0},
{120210,1,109,0,0,0,0},
{120211,1,110,0,0,0,0},
{120212,1,111,0,0,0,0},
{120213,1,112,0,0,0,0},
{120214,1,113,0,0,0,0},
{120215,1,114,0,0,0,0},
{120216,1,115,0,0,0,0},
{120217,1,116,0,0,0,0},
{120218,1,117,0,0,0,0},
{120219,1,118,0,0,0,0},
{120220,1,119,0,0,0,0},
{120221,1,120,0,0,0,0},
{120222,1,121,0,0,0,0},
{120223,1,122,0,0,0,0},
{120224,1,65,0,0,0,0},
{120225,1,66,0,0,0,0},
{120226,1,67,0,0,0,0},
{120227,1,68,0,0,0,0},
{120228,1,69,0,0,0,0},
{120229,1,70,0,0,0,0},
{120230,1,71,0,0,0,0},
{120231,1,72,0,0,0,0},
{120232,1,73,0,0,0,0},
{120233,1,74,0,0,0,0},
{120234,1,75,0,0,0,0},
{120235,1,76,0,0,0,0},
{120236,1,77,0,0,0,0},
{120237,1,78,0,0,0,0},
{120238,1,79,0,0,0,0},
{120239,1,80,0,0,0,0},
{120240,1,81,0,0,0,0},
{120241,1,82,0,0,0,0},
{120242,1,83,0,0,0,0},
{120243,1,84,0,0,0,0},
{120244,1,85,0,0,0,0},
{120245,1,86,0,0,0,0},
{120246,1,87,0,0,0,0},
{120247,1,88,0,0,0,0},
{120248,1,89,0,0,0,0},
{120249,1,90,0,0,0,0},
{120250,1,97,0,0,0,0},
{120251,1,98,0,0,0,0},
{120252,1,99,0,0,0,0},
{120253,1,100,0,0,0,0},
{120254,1,101,0,0,0,0},
{120255,1,102,0,0,0,0},
{120256,1,103,0,0,0,0},
{120257,1,104,0,0,0,0},
{120258,1,105,0,0,0,0},
{120259,1,106,0,0,0,0},
{120260,1,107,0,0,0,0},
{120261,1,108,0,0,0,0},
{120262,1,109,0,0,0,0},
{120263,1,110,0,0,0,0},
{120264,1,111,0,0,0,0},
{120265,1,112,0,0,0,0},
{120266,1,113,0,0,0,0},
{120267,1,114,0,0,0,0},
{120268,1,115,0,0,0,0},
{120269,1,116,0,0,0,0},
{120270,1,117,0,0,0,0},
{120271,1,118,0,0,0,0},
{120272,1,119,0,0,0,0},
{120273,1,120,0,0,0,0},
{120274,1,121,0,0,0,0},
{120275,1,122,0,0,0,0},
{120276,1,65,0,0,0,0},
{120277,1,66,0,0,0,0},
{120278,1,67,0,0,0,0},
{120279,1,68,0,0,0,0},
{120280,1,69,0,0,0,0},
{120281,1,70,0,0,0,0},
{120282,1,71,0,0,0,0},
{120283,1,72,0,0,0,0},
{120284,1,73,0,0,0,0},
{120285,1,74,0,0,0,0},
{120286,1,75,0,0,0,0},
{120287,1,76,0,0,0,0},
{120288,1,77,0,0,0,0},
{120289,1,78,0,0,0,0},
{120290,1,79,0,0,0,0},
{120291,1,80,0,0,0,0},
{120292,1,81,0,0,0,0},
{120293,1,82,0,0,0,0},
{120294,1,83,0,0,0,0},
{120295,1,84,0,0,0,0},
{120296,1,85,0,0,0,0},
{120297,1,86,0,0,0,0},
{120298,1,87,0,0,0,0},
{120299,1,88,0,0,0,0},
{120300,1,89,0,0,0,0},
{120301,1,90,0,0,0,0},
{120302,1,97,0,0,0,0},
{120303,1,98,0,0,0,0},
{120304,1,99,0,0,0,0},
{120305,1,100,0,0,0,0},
{120306,1,101,0,0,0,0},
{120307,1,102,0,0,0,0},
{120308,1,103,0,0,0,0},
{120309,1,104,0,0,0,0},
{120310,1,105,0,0,0,0},
{120311,1,106,0,0,0,0},
{120312,1,107,0,0,0,0},
{120313,1,108,0,0,0,0},
{120314,1,109,0,0,0,0},
{120315,1,110,0,0,0,0},
{120316,1,111,0,0,0,0},
{120317,1,112,0,0,0,0},
{120318,1,113,0,0,0,0},
{120319,1,114,0,0,0,0},
{120320,1,115,0,0,0,0},
{120321,1,116,0,0,0,0},
{120322,1,117,0,0,0,0},
{120323,1,118,0,0,0,0},
{120324,1,119,0,0,0,0},
{120325,1,120,0,0,0,0},
{120326,1,121,0,0,0,0},
{120327,1,122,0,0,0,0},
{120328,1,65,0,0,0,0},
{120329,1,66,0,0,0,0},
{120330,1,67,0,0,0,0},
{120331,1,68,0,0,0,0},
{120332,1,69,0,0,0,0},
{120333,1,70,0,0,0,0},
{120334,1,71,0,0,0,0},
{120335,1,72,0,0,0,0},
{120336,1,73,0,0,0,0},
{120337,1,74,0,0,0,0},
{120338,1,75,0,0,0,0},
{120339,1,76,0,0,0,0},
{120340,1,77,0,0,0,0},
{120341,1,78,0,0,0,0},
{120342,1,79,0,0,0,0},
{120343,1,80,0,0,0,0},
{120344,1,81,0,0,0,0},
{120345,1,82,0,0,0,0},
{120346,1,83,0,0,0,0},
{120347,1,84,0,0,0,0},
{120348,1,85,0,0,0,0},
{120349,1,86,0,0,0,0},
{120350,1,87,0,0,0,0},
{120351,1,88,0,0,0,0},
{120352,1,89,0,0,0,0},
{120353,1,90,0,0,0,0},
{120354,1,97,0,0,0,0},
{120355,1,98,0,0,0,0},
{120356,1,99,0,0,0,0},
{120357,1,100,0,0,0,0},
{120358,1,101,0,0,0,0},
{120359,1,102,0,0,0,0},
{120360,1,103,0,0,0,0},
{120361,1,104,0,0,0,0},
{120362,1,105,0,0,0,0},
{120363,1,106,0,0,0,0},
{120364,1,107,0,0,0,0},
{120365,1,108,0,0,0,0},
{120366,1,109,0,0,0,0},
{120367,1,110,0,0,0,0},
{120368,1,111,0,0,0,0},
{120369,1,112,0,0,0,0},
{120370,1,113,0,0,0,0},
{120371,1,114,0,0,0,0},
{120372,1,115,0,0,0,0},
{120373,1,116,0,0,0,0},
{120374,1,117,0,0,0,0},
{120375,1,118,0,0,0,0},
{120376,1,119,0,0,0,0},
{120377,1,120,0,0,0,0},
{120378,1,121,0,0,0,0},
{120379,1,122,0,0,0,0},
{120380,1,65,0,0,0,0},
{120381,1,66,0,0,0,0},
{120382,1,67,0,0,0,0},
{120383,1,68,0,0,0,0},
{120384,1,69,0,0,0,0},
{120385,1,70,0,0,0,0},
{120386,1,71,0,0,0,0},
{120387,1,72,0,0,0,0},
{120388,1,73,0,0,0,0},
{120389,1,74,0,0,0,0},
{120390,1,75,0,0,0,0},
{120391,1,76,0,0,0,0},
{120392,1,77,0,0,0,0},
{120393,1,78,0,0,0,0},
{120394,1,79,0,0,0,0},
{120395,1,80,0,0,0,0},
{120396,1,81,0,0,0,0},
{120397,1,82,0,0,0,0},
{120398,1,83,0,0,0,0},
{120399,1,84,0,0,0,0},
{120400,1,85,0,0,0,0},
{120401,1,86,0,0,0,0},
{120402,1,87,0,0,0,0},
{120403,1,88,0,0,0,0},
{120404,1,89,0,0,0,0},
{120405,1,90,0,0,0,0},
{120406,1,97,0,0,0,0},
{120407,1,98,0,0,0,0},
{120408,1,99,0,0,0,0},
{120409,1,100,0,0,0,0},
{120410,1,101,0,0,0,0},
{120411,1,102,0,0,0,0},
{120412,1,103,0,0,0,0},
{120413,1,104,0,0,0,0},
{120414,1,105,0,0,0,0},
{120415,1,106,0,0,0,0},
{120416,1,107,0,0,0,0},
{120417,1,108,0,0,0,0},
{120418,1,109,0,0,0,0},
{120419,1,110,0,0,0,0},
{120420,1,111,0,0,0,0},
{120421,1,112,0,0,0,0},
{120422,1,113,0,0,0,0},
{120423,1,114,0,0,0,0},
{120424,1,115,0,0,0,0},
{120425,1,116,0,0,0,0},
{120426,1,117,0,0,0,0},
{120427,1,118,0,0,0,0},
{120428,1,119,0,0,0,0},
{120429,1,120,0,0,0,0},
{120430,1,121,0,0,0,0},
{120431,1,122,0,0,0,0},
{120432,1,65,0,0,0,0},
{120433,1,66,0,0,0,0},
{120434,1,67,0,0,0,0},
{120435,1,68,0,0,0,0},
{120436,1,69,0,0,0,0},
{120437,1,70,0,0,0,0},
{120438,1,71,0,0,0,0},
{120439,1,72,0,0,0,0},
{120440,1,73,0,0,0,0},
{120441,1,74,0,0,0,0},
{120442,1,75,0,0,0,0},
{120443,1,76,0,0,0,0},
{120444,1,77,0,0,0,0},
{120445,1,78,0,0,0,0},
{120446,1,79,0,0,0,0},
{120447,1,80,0,0,0,0},
{120448,1,81,0,0,0,0},
{120449,1,82,0,0,0,0},
{120450,1,83,0,0,0,0},
{120451,1,84,0,0,0,0},
{120452,1,85,0,0,0,0},
{120453,1,86,0,0,0,0},
{120454,1,87,0,0,0,0},
{120455,1,88,0,0,0,0},
{120456,1,89,0,0,0,0},
{120457,1,90,0,0,0,0},
{120458,1,97,0,0,0,0},
{120459,1,98,0,0,0,0},
{120460,1,99,0,0,0,0},
{120461,1,100,0,0,0,0},
{120462,1,101,0,0,0,0},
{120463,1,102,0,0,0,0},
{120464,1,103,0,0,0,0},
{120465,1,104,0,0,0,0},
{120466,1,105,0,0,0,0},
{120467,1,106,0,0,0,0},
{120468,1,107,0,0,0,0},
{120469,1,108,0,0,0,0},
{120470,1,109,0,0,0,0},
{120471,1,110,0,0,0,0},
{120472,1,111,0,0,0,0},
{120473,1,112,0,0,0,0},
{120474,1,113,0,0,0,0},
{120475,1,114,0,0,0,0},
{120476,1,115,0,0,0,0},
{120477,1,116,0,0,0,0},
{120478,1,117,0,0,0,0},
{120479,1,118,0,0,0,0},
{120480,1,119,0,0,0,0},
{120481,1,120,0,0,0,0},
{120482,1,121,0,0,0,0},
{120483,1,122,0,0,0,0},
{120484,1,305,0,0,0,0},
{120485,1,567,0,0,0,0},
{120488,1,913,0,0,0,0},
{120489,1,914,0,0,0,0},
{120490,1,915,0,0,0,0},
{120491,1,916,0,0,0,0},
{120492,1,917,0,0,0,0},
{120493,1,918,0,0,0,0},
{120494,1,919,0,0,0,0},
{120495,1,920,0,0,0,0},
{120496,1,921,0,0,0,0},
{120497,1,922,0,0,0,0},
{120498,1,923,0,0,0,0},
{120499,1,924,0,0,0,0},
{120500,1,925,0,0,0,0},
{120501,1,926,0,0,0,0},
{120502,1,927,0,0,0,0},
{120503,1,928,0,0,0,0},
{120504,1,929,0,0,0,0},
{120505,1,920,0,0,0,0},
{120506,1,931,0,0,0,0},
{120507,1,932,0,0,0,0},
{120508,1,933,0,0,0,0},
{120509,1,934,0,0,0,0},
{120510,1,935,0,0,0,0},
{120511,1,936,0,0,0,0},
{120512,1,937,0,0,0,0},
{120513,1,8711,0,0,0,0},
{120514,1,945,0,0,0,0},
{120515,1,946,0,0,0,0},
{120516,1,947,0,0,0,0},
{120517,1,948,0,0,0,0},
{120518,1,949,0,0,0,0},
{120519,1,950,0,0,0,0},
{120520,1,951,0,0,0,0},
{120521,1,952,0,0,0,0},
{120522,1,953,0,0,0,0},
{120523,1,954,0,0,0,0},
{120524,1,955,0,0,0,0},
{120525,1,956,0,0,0,0},
{120526,1,957,0,0,0,0},
{120527,1,958,0,0,0,0},
{120528,1,959,0,0,0,0},
{120529,1,960,0,0,0,0},
{120530,1,961,0,0,0,0},
{120531,1,962,0,0,0,0},
{120532,1,963,0,0,0,0},
{120533,1,964,0,0,0,0},
{120534,1,965,0,0,0,0},
{120535,1,966,0,0,0,0},
{120536,1,967,0,0,0,0},
{120537,1,968,0,0,0,0},
{120538,1,969,0,0,0,0},
{120539,1,8706,0,0,0,0},
{120540,1,949,0,0,0,0},
{120541,1,952,0,0,0,0},
{120542,1,954,0,0,0,0},
{120543,1,966,0,0,0,0},
{120544,1,961,0,0,0,0},
{120545,1,960,0,0,0,0},
{120546,1,913,0,0,0,0},
{120547,1,914,0,0,0,0},
{120548,1,915,0,0,0,0},
{120549,1,916,0,0,0,0},
{120550,1,917,0,0,0,0},
{120551,1,918,0,0,0,0},
{120552,1,919,0,0,0,0},
{120553,1,920,0,0,0,0},
{120554,1,921,0,0,0,0},
{120555,1,922,0,0,0,0},
{120556,1,923,0,0,0,0},
{120557,1,924,0,0,0,0},
{120558,1,925,0,0,0,0},
{120559,1,926,0,0,0,0},
{120560,1,927,0,0,0,0},
{120561,1,928,0,0,0,0},
{120562,1,929,0,0,0,0},
{120563,1,920,0,0,0,0},
{120564,1,931,0,0,0,0},
{120565,1,932,0,0,0,0},
{120566,1,933,0,0,0,0},
{120567,1,934,0,0,0,0},
{120568,1,935,0,0,0,0},
{120569,1,936,0,0,0,0},
{120570,1,937,0,0,0,0},
{120571,1,8711,0,0,0,0},
{120572,1,945,0,0,0,0},
{120573,1,946,0,0,0,0},
{120574,1,947,0,0,0,0},
{120575,1,948,0,0,0,0},
{120576,1,949,0,0,0,0},
{120577,1,950,0,0,0,0},
{120578,1,951,0,0,0,0},
{120579,1,952,0,0,0,0},
{120580,1,953,0,0,0,0},
{120581,1,954,0,0,0,0},
{120582,1,955,0,0,0,0},
{120583,1,956,0,0,0,0},
{120584,1,957,0,0,0,0},
{120585,1,958,0,0,0,0},
{120586,1,959,0,0,0,0},
{120587,1,960,0,0,0,0},
{120588,1,961,0,0,0,0},
{120589,1,962,0,0,0,0},
{120590,1,963,0,0,0,0},
{120591,1,964,0,0,0,0},
{120592,1,965,0,0,0,0},
{120593,1,966,0,0,0,0},
{120594,1,967,0,0,0,0},
{120595,1,968,0,0,0,0},
{120596,1,969,0,0,0,0},
{120597,1,8706,0,0,0,0},
{120598,1,949,0,0,0,0},
{120599,1,952,0,0,0,0},
{120600,1,954,0,0,0,0},
{120601,1,966,0,0,0,0},
{120602,1,961,0,0,0,0},
{120603,1,960,0,0,0,0},
{120604,1,913,0,0,0,0},
{120605,1,914,0,0,0,0},
{120606,1,915,0,0,0,0},
{120607,1,916,0,0,0,0},
{120608,1,917,0,0,0,0},
{120609,1,918,0,0,0,0},
{120610,1,919,0,0,0,0},
{120611,1,920,0,0,0,0},
{120612,1,921,0,0,0,0},
{120613,1,922,0,0,0,0},
{120614,1,923,0,0,0,0},
{120615,1,924,0,0,0,0},
{120616,1,925,0,0,0,0},
{120617,1,926,0,0,0,0},
{120618,1,927,0,0,0,0},
{120619,1,928,0,0,0,0},
{120620,1,929,0,0,0,0},
{120621,1,920,0,0,0,0},
{120622,1,931,0,0,0,0},
{120623,1,932,0,0,0,0},
{120624,1,933,0,0,0,0},
{120625,1,934,0,0,0,0},
{120626,1,935,0,0,0,0},
{120627,1,936,0,0,0,0},
{120628,1,937,0,0,0,0},
{120629,1,8711,0,0,0,0},
{120630,1,945,0,0,0,0},
{120631,1,946,0,0,0,0},
{120632,1,947,0,0,0,0},
{120633,1,948,0,0,0,0},
{120634,1,949,0,0,0,0},
{120635,1,950,0,0,0,0},
{120636,1,951,0,0,0,0},
{120637,1,952,0,0,0,0},
{120638,1,953,0,0,0,0},
{120639,1,954,0,0,0,0},
{120640,1,955,0,0,0,0},
{120641,1,956,0,0,0,0},
{120642,1,957,0,0,0,0},
{120643,1,958,0,0,0,0},
{120644,1,959,0,0,0,0},
{120645,1,960,0,0,0,0},
{120646,1,961,0,0,0,0},
{120647,1,962,0,0,0,0},
{120648,1,963,0,0,0,0},
{120649,1,964,0,0,0,0},
{120650,1,965,0,0,0,0},
{120651,1,966,0,0,0,0},
{120652,1,967,0,0,0,0},
{120653,1,968,0,0,0,0},
{120654,1,969,0,0,0,0},
{120655,1,8706,0,0,0,0},
{120656,1,949,0,0,0,0},
{120657,1,952,0,0,0,0},
{120658,1,954,0,0,0,0},
{120659,1,966,0,0,0,0},
{120660,1,961,0,0,0,0},
{120661,1,960,0,0,0,0},
{120662,1,913,0,0,0,0},
{120663,1,914,0,0,0,0},
{120664,1,915,0,0,0,0},
{120665,1,916,0,0,0,0},
{120666,1,917,0,0,0,0},
{120667,1,918,0,0,0,0},
{120668,1,919,0,0,0,0},
{120669,1,920,0,0,0,0},
{120670,1,921,0,0,0,0},
{120671,1,922,0,0,0,0},
{120672,1,923,0,0,0,0},
{120673,1,924,0,0,0,0},
{120674,1,925,0,0,0,0},
{120675,1,926,0,0,0,0},
{120676,1,927,0,0,0,0},
{120677,1,928,0,0,0,0},
{120678,1,929,0,0,0,0},
{120679,1,920,0,0,0,0},
{120680,1,931,0,0,0,0},
{120681,1,932,0,0,0,0},
{120682,1,933,0,0,0,0},
{120683,1,934,0,0,0,0},
{120684,1,935,0,0,0,0},
{120685,1,936,0,0,0,0},
{120686,1,937,0,0,0,0},
{120687,1,8711,0,0,0,0},
{120688,1,945,0,0,0,0},
{120689,1,946,0,0,0,0},
{120690,1,947,0,0,0,0},
{120691,1,948,0,0,0,0},
{120692,1,949,0,0,0,0},
{120693,1,950,0,0,0,0},
{120694,1,951,0,0,0,0},
{120695,1,952,0,0,0,0},
{120696,1,953,0,0,0,0},
{120697,1,954,0,0,0,0},
{120698,1,955,0,0,0,0},
{120699,1,956,0,0,0,0},
{120700,1,957,0,0,0,0},
{120701,1,958,0,0,0,0},
{120702,1,959,0,0,0,0},
{120703,1,960,0,0,0,0},
{120704,1,961,0,0,0,0},
{120705,1,962,0,0,0,0},
{120706,1,963,0,0,0,0},
{120707,1,964,0,0,0,0},
{120708,1,965,0,0,0,0},
{120709,1,966,0,0,0,0},
{120710,1,967,0,0,0,0},
{120711,1,968,0,0,0,0},
{120712,1,969,0,0,0,0},
{120713,1,8706,0,0,0,0},
{120714,1,949,0,0,0,0},
{120715,1,952,0,0,0,0},
{120716,1,954,0,0,0,0},
{120717,1,966,0,0,0,0},
{120718,1,961,0,0,0,0},
{120719,1,960,0,0,0,0},
{120720,1,913,0,0,0,0},
{120721,1,914,0,0,0,0},
{120722,1,915,0,0,0,0},
{120723,1,916,0,0,0,0},
{120724,1,917,0,0,0,0},
{120725,1,918,0,0,0,0},
{120726,1,919,0,0,0,0},
{120727,1,920,0,0,0,0},
{120728,1,921,0,0,0,0},
{120729,1,922,0,0,0,0},
{120730,1,923,0,0,0,0},
{120731,1,924,0,0,0,0},
{120732,1,925,0,0,0,0},
{120733,1,926,0,0,0,0},
{120734,1,927,0,0,0,0},
{120735,1,928,0,0,0,0},
{120736,1,929,0,0,0,0},
{120737,1,920,0,0,0,0},
{120738,1,931,0,0,0,0},
{120739,1,932,0,0,0,0},
{120740,1,933,0,0,0,0},
{120741,1,934,0,0,0,0},
{120742,1,935,0,0,0,0},
{120743,1,936,0,0,0,0},
{120744,1,937,0,0,0,0},
{120745,1,8711,0,0,0,0},
{120746,1,945,0,0,0,0},
{120747,1,946,0,0,0,0},
{120748,1,947,0,0,0,0},
{120749,1,948,0,0,0,0},
{120750,1,949,0,0,0,0},
{120751,1,950,0,0,0,0},
{120752,1,951,0,0,0,0},
{120753,1,952,0,0,0,0},
{120754,1,953,0,0,0,0},
{120755,1,954,0,0,0,0},
{120756,1,955,0,0,0,0},
{120757,1,956,0,0,0,0},
{120758,1,957,0,0,0,0},
{120759,1,958,0,0,0,0},
{120760,1,959,0,0,0,0},
{120761,1,960,0,0,0,0},
{120762,1,961,0,0,0,0},
{120763,1,962,0,0,0,0},
{120764,1,963,0,0,0,0},
{120765,1,964,0,0,0,0},
{120766,1,965,0,0,0,0},
{120767,1,966,0,0,0,0},
{120768,1,967,0,0,0,0},
{120769,1,968,0,0,0,0},
{120770,1,969,0,0,0,0},
{120771,1,8706,0,0,0,0},
{120772,1,949,0,0,0,0},
{120773,1,952,0,0,0,0},
{120774,1,954,0,0,0,0},
{120775,1,966,0,0,0,0},
{120776,1,961,0,0,0,0},
{120777,1,960,0,0,0,0},
{120778,1,988,0,0,0,0},
{120779,1,989,0,0,0,0},
{120782,1,48,0,0,0,0},
{120783,1,49,0,0,0,0},
{120784,1,50,0,0,0,0},
{120785,1,51,0,0,0,0},
{120786,1,52,0,0,0,0},
{120787,1,53,0,0,0,0},
{120788,1,54,0,0,0,0},
{120789,1,55,0,0,0,0},
{120790,1,56,0,0,0,0},
{120791,1,57,0,0,0,0},
{120792,1,48,0,0,0,0},
{120793,1,49,0,0,0,0},
{120794,1,50,0,0,0,0},
{120795,1,51,0,0,0,0},
{120796,1,52,0,0,0,0},
{120797,1,53,0,0,0,0},
{120798,1,54,0,0,0,0},
{120799,1,55,0,0,0,0},
{120800,1,56,0,0,0,0},
{120801,1,57,0,0,0,0},
{120802,1,48,0,0,0,0},
{120803,1,49,0,0,0,0},
{120804,1,50,0,0,0,0},
{120805,1,51,0,0,0,0},
{120806,1,52,0,0,0,0},
{120807,1,53,0,0,0,0},
{120808,1,54,0,0,0,0},
{120809,1,55,0,0,0,0},
{120810,1,56,0,0,0,0},
{120811,1,57,0,0,0,0},
{120812,1,48,0,0,0,0},
{120813,1,49,0,0,0,0},
{120814,1,50,0,0,0,0},
{120815,1,51,0,0,0,0},
{120816,1,52,0,0,0,0},
{120817,1,53,0,0,0,0},
{120818,1,54,0,0,0,0},
{120819,1,55,0,0,0,0},
{120820,1,56,0,0,0,0},
{120821,1,57,0,0,0,0},
{120822,1,48,0,0,0,0},
{120823,1,49,0,0,0,0},
{120824,1,50,0,0,0,0},
{120825,1,51,0,0,0,0},
{120826,1,52,0,0,0,0},
{120827,1,53,0,0,0,0},
{120828,1,54,0,0,0,0},
{120829,1,55,0,0,0,0},
{120830,1,56,0,0,0,0},
{120831,1,57,0,0,0,0},
{126464,1,1575,0,0,0,0},
{126465,1,1576,0,0,0,0},
{126466,1,1580,0,0,0,0},
{126467,1,1583,0,0,0,0},
{126469,1,1608,0,0,0,0},
{126470,1,1586,0,0,0,0},
{126471,1,1581,0,0,0,0},
{126472,1,1591,0,0,0,0},
{126473,1,1610,0,0,0,0},
{126474,1,1603,0,0,0,0},
{126475,1,1604,0,0,0,0},
{126476,1,1605,0,0,0,0},
{126477,1,1606,0,0,0,0},
{126478,1,1587,0,0,0,0},
{126479,1,1593,0,0,0,0},
{126480,1,1601,0,0,0,0},
{126481,1,1589,0,0,0,0},
{126482,1,1602,0,0,0,0},
{126483,1,1585,0,0,0,0},
{126484,1,1588,0,0,0,0},
{126485,1,1578,0,0,0,0},
{126486,1,1579,0,0,0,0},
{126487,1,1582,0,0,0,0},
{126488,1,1584,0,0,0,0},
{126489,1,1590,0,0,0,0},
{126490,1,1592,0,0,0,0},
{126491,1,1594,0,0,0,0},
{126492,1,1646,0,0,0,0},
{126493,1,1722,0,0,0,0},
{126494,1,1697,0,0,0,0},
{126495,1,1647,0,0,0,0},
{126497,1,1576,0,0,0,0},
{126498,1,1580,0,0,0,0},
{126500,1,1607,0,0,0,0},
{126503,1,1581,0,0,0,0},
{126505,1,1610,0,0,0,0},
{126506,1,1603,0,0,0,0},
{126507,1,1604,0,0,0,0},
{126508,1,1605,0,0,0,0},
{126509,1,1606,0,0,0,0},
{126510,1,1587,0,0,0,0},
{126511,1,1593,0,0,0,0},
{126512,1,1601,0,0,0,0},
{126513,1,1589,0,0,0,0},
{126514,1,1602,0,0,0,0},
{126516,1,1588,0,0,0,0},
{126517,1,1578,0,0,0,0},
{126518,1,1579,0,0,0,0},
{126519,1,1582,0,0,0,0},
{126521,1,1590,0,0,0,0},
{126523,1,1594,0,0,0,0},
{126530,1,1580,0,0,0,0},
{126535,1,1581,0,0,0,0},
{126537,1,1610,0,0,0,0},
{126539,1,1604,0,0,0,0},
{126541,1,1606,0,0,0,0},
{126542,1,1587,0,0,0,0},
{126543,1,1593,0,0,0,0},
{126545,1,1589,0,0,0,0},
{126546,1,1602,0,0,0,0},
{126548,1,1588,0,0,0,0},
{126551,1,1582,0,0,0,0},
{126553,1,1590,0,0,0,0},
{126555,1,1594,0,0,0,0},
{126557,1,1722,0,0,0,0},
{126559,1,1647,0,0,0,0},
{126561,1,1576,0,0,0,0},
{126562,1,1580,0,0,0,0},
{126564,1,1607,0,0,0,0},
{126567,1,1581,0,0,0,0},
{126568,1,1591,0,0,0,0},
{126569,1,1610,0,0,0,0},
{126570,1,1603,0,0,0,0},
{126572,1,1605,0,0,0,0},
{126573,1,1606,0,0,0,0},
{126574,1,1587,0,0,0,0},
{126575,1,1593,0,0,0,0},
{126576,1,1601,0,0,0,0},
{126577,1,1589,0,0,0,0},
{126578,1,1602,0,0,0,0},
{126580,1,1588,0,0,0,0},
{126581,1,1578,0,0,0,0},
{126582,1,1579,0,0,0,0},
{126583,1,1582,0,0,0,0},
{126585,1,1590,0,0,0,0},
{126586,1,1592,0,0,0,0},
{126587,1,1594,0,0,0,0},
{126588,1,1646,0,0,0,0},
{126590,1,1697,0,0,0,0},
{126592,1,1575,0,0,0,0},
{126593,1,1576,0,0,0,0},
{126594,1,1580,0,0,0,0},
{126595,1,1583,0,0,0,0},
{126596,1,1607,0,0,0,0},
{126597,1,1608,0,0,0,0},
{126598,1,1586,0,0,0,0},
{126599,1,1581,0,0,0,0},
{126600,1,1591,0,0,0,0},
{126601,1,1610,0,0,0,0},
{126603,1,1604,0,0,0,0},
{126604,1,1605,0,0,0,0},
{126605,1,1606,0,0,0,0},
{126606,1,1587,0,0,0,0},
{126607,1,1593,0,0,0,0},
{126608,1,1601,0,0,0,0},
{126609,1,1589,0,0,0,0},
{126610,1,1602,0,0,0,0},
{126611,1,1585,0,0,0,0},
{126612,1,1588,0,0,0,0},
{126613,1,1578,0,0,0,0},
{126614,1,1579,0,0,0,0},
{126615,1,1582,0,0,0,0},
{126616,1,1584,0,0,0,0},
{126617,1,1590,0,0,0,0},
{126618,1,1592,0,0,0,0},
{126619,1,1594,0,0,0,0},
{126625,1,1576,0,0,0,0},
{126626,1,1580,0,0,0,0},
{126627,1,1583,0,0,0,0},
{126629,1,1608,0,0,0,0},
{126630,1,1586,0,0,0,0},
{126631,1,1581,0,0,0,0},
{126632,1,1591,0,0,0,0},
{126633,1,1610,0,0,0,0},
{126635,1,1604,0,0,0,0},
{126636,1,1605,0,0,0,0},
{126637,1,1606,0,0,0,0},
{126638,1,1587,0,0,0,0},
{126639,1,1593,0,0,0,0},
{126640,1,1601,0,0,0,0},
{126641,1,1589,0,0,0,0},
{126642,1,1602,0,0,0,0},
{126643,1,1585,0,0,0,0},
{126644,1,1588,0,0,0,0},
{126645,1,1578,0,0,0,0},
{126646,1,1579,0,0,0,0},
{126647,1,1582,0,0,0,0},
{126648,1,1584,0,0,0,0},
{126649,1,1590,0,0,0,0},
{126650,1,1592,0,0,0,0},
{126651,1,1594,0,0,0,0},
{127232,2,48,46,0,0,0},
{127233,2,48,44,0,0,0},
{127234,2,49,44,0,0,0},
{127235,2,50,44,0,0,0},
{127236,2,51,44,0,0,0},
{127237,2,52,44,0,0,0},
{127238,2,53,44,0,0,0},
{127239,2,54,44,0,0,0},
{127240,2,55,44,0,0,0},
{127241,2,56,44,0,0,0},
{127242,2,57,44,0,0,0},
{127248,3,40,65,41,0,0},
{127249,3,40,66,41,0,0},
{127250,3,40,67,41,0,0},
{127251,3,40,68,41,0,0},
{127252,3,40,69,41,0,0},
{127253,3,40,70,41,0,0},
{127254,3,40,71,41,0,0},
{127255,3,40,72,41,0,0},
{127256,3,40,73,41,0,0},
{127257,3,40,74,41,0,0},
{127258,3,40,75,41,0,0},
{127259,3,40,76,41,0,0},
{127260,3,40,77,41,0,0},
{127261,3,40,78,41,0,0},
{127262,3,40,79,41,0,0},
{127263,3,40,80,41,0,0},
{127264,3,40,81,41,0,0},
{127265,3,40,82,41,0,0},
{127266,3,40,83,41,0,0},
{127267,3,40,84,41,0,0},
{127268,3,40,85,41,0,0},
{127269,3,40,86,41,0,0},
{127270,3,40,87,41,0,0},
{127271,3,40,88,41,0,0},
{127272,3,40,89,41,0,0},
{127273,3,40,90,41,0,0},
{127274,3,12308,83,12309,0,0},
{127275,1,67,0,0,0,0},
{127276,1,82,0,0,0,0},
{127277,2,67,68,0,0,0},
{127278,2,87,90,0,0,0},
{127280,1,65,0,0,0,0},
{127281,1,66,0,0,0,0},
{127282,1,67,0,0,0,0},
{127283,1,68,0,0,0,0},
{127284,1,69,0,0,0,0},
{127285,1,70,0,0,0,0},
{127286,1,71,0,0,0,0},
{127287,1,72,0,0,0,0},
{127288,1,73,0,0,0,0},
{127289,1,74,0,0,0,0},
{127290,1,75,0,0,0,0},
{127291,1,76,0,0,0,0},
{127292,1,77,0,0,0,0},
{127293,1,78,0,0,0,0},
{127294,1,79,0,0,0,0},
{127295,1,80,0,0,0,0},
{127296,1,81,0,0,0,0},
{127297,1,82,0,0,0,0},
{127298,1,83,0,0,0,0},
{127299,1,84,0,0,0,0},
{127300,1,85,0,0,0,0},
{127301,1,86,0,0,0,0},
{127302,1,87,0,0,0,0},
{127303,1,88,0,0,0,0},
{127304,1,89,0,0,0,0},
{127305,1,90,0,0,0,0},
{127306,2,72,86,0,0,0},
{127307,2,77,86,0,0,0},
{127308,2,83,68,0,0,0},
{127309,2,83,83,0,0,0},
{127310,3,80,80,86,0,0},
{127311,2,87,67,0,0,0},
{127338,2,77,67,0,0,0},
{127339,2,77,68,0,0,0},
{127376,2,68,74,0,0,0},
{127488,2,12411,12363,0,0,0},
{127489,2,12467,12467,0,0,0},
{127490,1,12469,0,0,0,0},
{127504,1,25163,0,0,0,0},
{127505,1,23383,0,0,0,0},
{127506,1,21452,0,0,0,0},
{127507,2,12486,12441,0,0,0},
{127508,1,20108,0,0,0,0},
{127509,1,22810,0,0,0,0},
{127510,1,35299,0,0,0,0},
{127511,1,22825,0,0,0,0},
{127512,1,20132,0,0,0,0},
{127513,1,26144,0,0,0,0},
{127514,1,28961,0,0,0,0},
{127515,1,26009,0,0,0,0},
{127516,1,21069,0,0,0,0},
{127517,1,24460,0,0,0,0},
{127518,1,20877,0,0,0,0},
{127519,1,26032,0,0,0,0},
{127520,1,21021,0,0,0,0},
{127521,1,32066,0,0,0,0},
{127522,1,29983,0,0,0,0},
{127523,1,36009,0,0,0,0},
{127524,1,22768,0,0,0,0},
{127525,1,21561,0,0,0,0},
{127526,1,28436,0,0,0,0},
{127527,1,25237,0,0,0,0},
{127528,1,25429,0,0,0,0},
{127529,1,19968,0,0,0,0},
{127530,1,19977,0,0,0,0},
{127531,1,36938,0,0,0,0},
{127532,1,24038,0,0,0,0},
{127533,1,20013,0,0,0,0},
{127534,1,21491,0,0,0,0},
{127535,1,25351,0,0,0,0},
{127536,1,36208,0,0,0,0},
{127537,1,25171,0,0,0,0},
{127538,1,31105,0,0,0,0},
{127539,1,31354,0,0,0,0},
{127540,1,21512,0,0,0,0},
{127541,1,28288,0,0,0,0},
{127542,1,26377,0,0,0,0},
{127543,1,26376,0,0,0,0},
{127544,1,30003,0,0,0,0},
{127545,1,21106,0,0,0,0},
{127546,1,21942,0,0,0,0},
{127547,1,37197,0,0,0,0},
{127552,3,12308,26412,12309,0,0},
{127553,3,12308,19977,12309,0,0},
{127554,3,12308,20108,12309,0,0},
{127555,3,12308,23433,12309,0,0},
{127556,3,12308,28857,12309,0,0},
{127557,3,12308,25171,12309,0,0},
{127558,3,12308,30423,12309,0,0},
{127559,3,12308,21213,12309,0,0},
{127560,3,12308,25943,12309,0,0},
{127568,1,24471,0,0,0,0},
{127569,1,21487,0,0,0,0},
{194560,1,20029,0,0,0,0},
{194561,1,20024,0,0,0,0},
{194562,1,20033,0,0,0,0},
{194563,1,131362,0,0,0,0},
{194564,1,20320,0,0,0,0},
{194565,1,20398,0,0,0,0},
{194566,1,20411,0,0,0,0},
{194567,1,20482,0,0,0,0},
{194568,1,20602,0,0,0,0},
{194569,1,20633,0,0,0,0},
{194570,1,20711,0,0,0,0},
{194571,1,20687,0,0,0,0},
{194572,1,13470,0,0,0,0},
{194573,1,132666,0,0,0,0},
{194574,1,20813,0,0,0,0},
{194575,1,20820,0,0,0,0},
{194576,1,20836,0,0,0,0},
{194577,1,20855,0,0,0,0},
{194578,1,132380,0,0,0,0},
{194579,1,13497,0,0,0,0},
{194580,1,20839,0,0,0,0},
{194581,1,20877,0,0,0,0},
{194582,1,132427,0,0,0,0},
{194583,1,20887,0,0,0,0},
{194584,1,20900,0,0,0,0},
{194585,1,20172,0,0,0,0},
{194586,1,20908,0,0,0,0},
{194587,1,20917,0,0,0,0},
{194588,1,168415,0,0,0,0},
{194589,1,20981,0,0,0,0},
{194590,1,20995,0,0,0,0},
{194591,1,13535,0,0,0,0},
{194592,1,21051,0,0,0,0},
{194593,1,21062,0,0,0,0},
{194594,1,21106,0,0,0,0},
{194595,1,21111,0,0,0,0},
{194596,1,13589,0,0,0,0},
{194597,1,21191,0,0,0,0},
{194598,1,21193,0,0,0,0},
{194599,1,21220,0,0,0,0},
{194600,1,21242,0,0,0,0},
{194601,1,21253,0,0,0,0},
{194602,1,21254,0,0,0,0},
{194603,1,21271,0,0,0,0},
{194604,1,21321,0,0,0,0},
{194605,1,21329,0,0,0,0},
{194606,1,21338,0,0,0,0},
{194607,1,21363,0,0,0,0},
{194608,1,21373,0,0,0,0},
{194609,1,21375,0,0,0,0},
{194610,1,21375,0,0,0,0},
{194611,1,21375,0,0,0,0},
{194612,1,133676,0,0,0,0},
{194613,1,28784,0,0,0,0},
{194614,1,21450,0,0,0,0},
{194615,1,21471,0,0,0,0},
{194616,1,133987,0,0,0,0},
{194617,1,21483,0,0,0,0},
{194618,1,21489,0,0,0,0},
{194619,1,21510,0,0,0,0},
{194620,1,21662,0,0,0,0},
{194621,1,21560,0,0,0,0},
{194622,1,21576,0,0,0,0},
{194623,1,21608,0,0,0,0},
{194624,1,21666,0,0,0,0},
{194625,1,21750,0,0,0,0},
{194626,1,21776,0,0,0,0},
{194627,1,21843,0,0,0,0},
{194628,1,21859,0,0,0,0},
{194629,1,21892,0,0,0,0},
{194630,1,21892,0,0,0,0},
{194631,1,21913,0,0,0,0},
{194632,1,21931,0,0,0,0},
{194633,1,21939,0,0,0,0},
{194634,1,21954,0,0,0,0},
{194635,1,22294,0,0,0,0},
{194636,1,22022,0,0,0,0},
{194637,1,22295,0,0,0,0},
{194638,1,22097,0,0,0,0},
{194639,1,22132,0,0,0,0},
{194640,1,20999,0,0,0,0},
{194641,1,22766,0,0,0,0},
{194642,1,22478,0,0,0,0},
{194643,1,22516,0,0,0,0},
{194644,1,22541,0,0,0,0},
{194645,1,22411,0,0,0,0},
{194646,1,22578,0,0,0,0},
{194647,1,22577,0,0,0,0},
{194648,1,22700,0,0,0,0},
{194649,1,136420,0,0,0,0},
{194650,1,22770,0,0,0,0},
{194651,1,22775,0,0,0,0},
{194652,1,22790,0,0,0,0},
{194653,1,22810,0,0,0,0},
{194654,1,22818,0,0,0,0},
{194655,1,22882,0,0,0,0},
{194656,1,136872,0,0,0,0},
{194657,1,136938,0,0,0,0},
{194658,1,23020,0,0,0,0},
{194659,1,23067,0,0,0,0},
{194660,1,23079,0,0,0,0},
{194661,1,23000,0,0,0,0},
{194662,1,23142,0,0,0,0},
{194663,1,14062,0,0,0,0},
{194664,1,14076,0,0,0,0},
{194665,1,23304,0,0,0,0},
{194666,1,23358,0,0,0,0},
{194667,1,23358,0,0,0,0},
{194668,1,137672,0,0,0,0},
{194669,1,23491,0,0,0,0},
{194670,1,23512,0,0,0,0},
{194671,1,23527,0,0,0,0},
{194672,1,23539,0,0,0,0},
{194673,1,138008,0,0,0,0},
{194674,1,23551,0,0,0,0},
{194675,1,23558,0,0,0,0},
{194676,1,24403,0,0,0,0},
{194677,1,23586,0,0,0,0},
{194678,1,14209,0,0,0,0},
{194679,1,23648,0,0,0,0},
{194680,1,23662,0,0,0,0},
{194681,1,23744,0,0,0,0},
{194682,1,23693,0,0,0,0},
{194683,1,138724,0,0,0,0},
{194684,1,23875,0,0,0,0},
{194685,1,138726,0,0,0,0},
{194686,1,23918,0,0,0,0},
{194687,1,23915,0,0,0,0},
{194688,1,23932,0,0,0,0},
{194689,1,24033,0,0,0,0},
{194690,1,24034,0,0,0,0},
{194691,1,14383,0,0,0,0},
{194692,1,24061,0,0,0,0},
{194693,1,24104,0,0,0,0},
{194694,1,24125,0,0,0,0},
{194695,1,24169,0,0,0,0},
{194696,1,14434,0,0,0,0},
{194697,1,139651,0,0,0,0},
{194698,1,14460,0,0,0,0},
{194699,1,24240,0,0,0,0},
{194700,1,24243,0,0,0,0},
{194701,1,24246,0,0,0,0},
{194702,1,24266,0,0,0,0},
{194703,1,172946,0,0,0,0},
{194704,1,24318,0,0,0,0},
{194705,1,140081,0,0,0,0},
{194706,1,140081,0,0,0,0},
{194707,1,33281,0,0,0,0},
{194708,1,24354,0,0,0,0},
{194709,1,24354,0,0,0,0},
{194710,1,14535,0,0,0,0},
{194711,1,144056,0,0,0,0},
{194712,1,156122,0,0,0,0},
{194713,1,24418,0,0,0,0},
{194714,1,24427,0,0,0,0},
{194715,1,14563,0,0,0,0},
{194716,1,24474,0,0,0,0},
{194717,1,24525,0,0,0,0},
{194718,1,24535,0,0,0,0},
{194719,1,24569,0,0,0,0},
{194720,1,24705,0,0,0,0},
{194721,1,14650,0,0,0,0},
{194722,1,14620,0,0,0,0},
{194723,1,24724,0,0,0,0},
{194724,1,141012,0,0,0,0},
{194725,1,24775,0,0,0,0},
{194726,1,24904,0,0,0,0},
{194727,1,24908,0,0,0,0},
{194728,1,24910,0,0,0,0},
{194729,1,24908,0,0,0,0},
{194730,1,24954,0,0,0,0},
{194731,1,24974,0,0,0,0},
{194732,1,25010,0,0,0,0},
{194733,1,24996,0,0,0,0},
{194734,1,25007,0,0,0,0},
{194735,1,25054,0,0,0,0},
{194736,1,25074,0,0,0,0},
{194737,1,25078,0,0,0,0},
{194738,1,25104,0,0,0,0},
{194739,1,25115,0,0,0,0},
{194740,1,25181,0,0,0,0},
{194741,1,25265,0,0,0,0},
{194742,1,25300,0,0,0,0},
{194743,1,25424,0,0,0,0},
{194744,1,142092,0,0,0,0},
{194745,1,25405,0,0,0,0},
{194746,1,25340,0,0,0,0},
{194747,1,25448,0,0,0,0},
{194748,1,25475,0,0,0,0},
{194749,1,25572,0,0,0,0},
{194750,1,142321,0,0,0,0},
{194751,1,25634,0,0,0,0},
{194752,1,25541,0,0,0,0},
{194753,1,25513,0,0,0,0},
{194754,1,14894,0,0,0,0},
{194755,1,25705,0,0,0,0},
{194756,1,25726,0,0,0,0},
{194757,1,25757,0,0,0,0},
{194758,1,25719,0,0,0,0},
{194759,1,14956,0,0,0,0},
{194760,1,25935,0,0,0,0},
{194761,1,25964,0,0,0,0},
{194762,1,143370,0,0,0,0},
{194763,1,26083,0,0,0,0},
{194764,1,26360,0,0,0,0},
{194765,1,26185,0,0,0,0},
{194766,1,15129,0,0,0,0},
{194767,1,26257,0,0,0,0},
{194768,1,15112,0,0,0,0},
{194769,1,15076,0,0,0,0},
{194770,1,20882,0,0,0,0},
{194771,1,20885,0,0,0,0},
{194772,1,26368,0,0,0,0},
{194773,1,26268,0,0,0,0},
{194774,1,32941,0,0,0,0},
{194775,1,17369,0,0,0,0},
{194776,1,26391,0,0,0,0},
{194777,1,26395,0,0,0,0},
{194778,1,26401,0,0,0,0},
{194779,1,26462,0,0,0,0},
{194780,1,26451,0,0,0,0},
{194781,1,144323,0,0,0,0},
{194782,1,15177,0,0,0,0},
{194783,1,26618,0,0,0,0},
{194784,1,26501,0,0,0,0},
{194785,1,26706,0,0,0,0},
{194786,1,26757,0,0,0,0},
{194787,1,144493,0,0,0,0},
{194788,1,26766,0,0,0,0},
{194789,1,26655,0,0,0,0},
{194790,1,26900,0,0,0,0},
{194791,1,15261,0,0,0,0},
{194792,1,26946,0,0,0,0},
{194793,1,27043,0,0,0,0},
{194794,1,27114,0,0,0,0},
{194795,1,27304,0,0,0,0},
{194796,1,145059,0,0,0,0},
{194797,1,27355,0,0,0,0},
{194798,1,15384,0,0,0,0},
{194799,1,27425,0,0,0,0},
{194800,1,145575,0,0,0,0},
{194801,1,27476,0,0,0,0},
{194802,1,15438,0,0,0,0},
{194803,1,27506,0,0,0,0},
{194804,1,27551,0,0,0,0},
{194805,1,27578,0,0,0,0},
{194806,1,27579,0,0,0,0},
{194807,1,146061,0,0,0,0},
{194808,1,138507,0,0,0,0},
{194809,1,146170,0,0,0,0},
{194810,1,27726,0,0,0,0},
{194811,1,146620,0,0,0,0},
{194812,1,27839,0,0,0,0},
{194813,1,27853,0,0,0,0},
{194814,1,27751,0,0,0,0},
{194815,1,27926,0,0,0,0},
{194816,1,27966,0,0,0,0},
{194817,1,28023,0,0,0,0},
{194818,1,27969,0,0,0,0},
{194819,1,28009,0,0,0,0},
{194820,1,28024,0,0,0,0},
{194821,1,28037,0,0,0,0},
{194822,1,146718,0,0,0,0},
{194823,1,27956,0,0,0,0},
{194824,1,28207,0,0,0,0},
{194825,1,28270,0,0,0,0},
{194826,1,15667,0,0,0,0},
{194827,1,28363,0,0,0,0},
{194828,1,28359,0,0,0,0},
{194829,1,147153,0,0,0,0},
{194830,1,28153,0,0,0,0},
{194831,1,28526,0,0,0,0},
{194832,1,147294,0,0,0,0},
{194833,1,147342,0,0,0,0},
{194834,1,28614,0,0,0,0},
{194835,1,28729,0,0,0,0},
{194836,1,28702,0,0,0,0},
{194837,1,28699,0,0,0,0},
{194838,1,15766,0,0,0,0},
{194839,1,28746,0,0,0,0},
{194840,1,28797,0,0,0,0},
{194841,1,28791,0,0,0,0},
{194842,1,28845,0,0,0,0},
{194843,1,132389,0,0,0,0},
{194844,1,28997,0,0,0,0},
{194845,1,148067,0,0,0,0},
{194846,1,29084,0,0,0,0},
{194847,1,148395,0,0,0,0},
{194848,1,29224,0,0,0,0},
{194849,1,29237,0,0,0,0},
{194850,1,29264,0,0,0,0},
{194851,1,149000,0,0,0,0},
{194852,1,29312,0,0,0,0},
{194853,1,29333,0,0,0,0},
{194854,1,149301,0,0,0,0},
{194855,1,149524,0,0,0,0},
{194856,1,29562,0,0,0,0},
{194857,1,29579,0,0,0,0},
{194858,1,16044,0,0,0,0},
{194859,1,29605,0,0,0,0},
{194860,1,16056,0,0,0,0},
{194861,1,16056,0,0,0,0},
{194862,1,29767,0,0,0,0},
{194863,1,29788,0,0,0,0},
{194864,1,29809,0,0,0,0},
{194865,1,29829,0,0,0,0},
{194866,1,29898,0,0,0,0},
{194867,1,16155,0,0,0,0},
{194868,1,29988,0,0,0,0},
{194869,1,150582,0,0,0,0},
{194870,1,30014,0,0,0,0},
{194871,1,150674,0,0,0,0},
{194872,1,30064,0,0,0,0},
{194873,1,139679,0,0,0,0},
{194874,1,30224,0,0,0,0},
{194875,1,151457,0,0,0,0},
{194876,1,151480,0,0,0,0},
{194877,1,151620,0,0,0,0},
{194878,1,16380,0,0,0,0},
{194879,1,16392,0,0,0,0},
{194880,1,30452,0,0,0,0},
{194881,1,151795,0,0,0,0},
{194882,1,151794,0,0,0,0},
{194883,1,151833,0,0,0,0},
{194884,1,151859,0,0,0,0},
{194885,1,30494,0,0,0,0},
{194886,1,30495,0,0,0,0},
{194887,1,30495,0,0,0,0},
{194888,1,30538,0,0,0,0},
{194889,1,16441,0,0,0,0},
{194890,1,30603,0,0,0,0},
{194891,1,16454,0,0,0,0},
{194892,1,16534,0,0,0,0},
{194893,1,152605,0,0,0,0},
{194894,1,30798,0,0,0,0},
{194895,1,30860,0,0,0,0},
{194896,1,30924,0,0,0,0},
{194897,1,16611,0,0,0,0},
{194898,1,153126,0,0,0,0},
{194899,1,31062,0,0,0,0},
{194900,1,153242,0,0,0,0},
{194901,1,153285,0,0,0,0},
{194902,1,31119,0,0,0,0},
{194903,1,31211,0,0,0,0},
{194904,1,16687,0,0,0,0},
{194905,1,31296,0,0,0,0},
{194906,1,31306,0,0,0,0},
{194907,1,31311,0,0,0,0},
{194908,1,153980,0,0,0,0},
{194909,1,154279,0,0,0,0},
{194910,1,154279,0,0,0,0},
{194911,1,31470,0,0,0,0},
{194912,1,16898,0,0,0,0},
{194913,1,154539,0,0,0,0},
{194914,1,31686,0,0,0,0},
{194915,1,31689,0,0,0,0},
{194916,1,16935,0,0,0,0},
{194917,1,154752,0,0,0,0},
{194918,1,31954,0,0,0,0},
{194919,1,17056,0,0,0,0},
{194920,1,31976,0,0,0,0},
{194921,1,31971,0,0,0,0},
{194922,1,32000,0,0,0,0},
{194923,1,155526,0,0,0,0},
{194924,1,32099,0,0,0,0},
{194925,1,17153,0,0,0,0},
{194926,1,32199,0,0,0,0},
{194927,1,32258,0,0,0,0},
{194928,1,32325,0,0,0,0},
{194929,1,17204,0,0,0,0},
{194930,1,156200,0,0,0,0},
{194931,1,156231,0,0,0,0},
{194932,1,17241,0,0,0,0},
{194933,1,156377,0,0,0,0},
{194934,1,32634,0,0,0,0},
{194935,1,156478,0,0,0,0},
{194936,1,32661,0,0,0,0},
{194937,1,32762,0,0,0,0},
{194938,1,32773,0,0,0,0},
{194939,1,156890,0,0,0,0},
{194940,1,156963,0,0,0,0},
{194941,1,32864,0,0,0,0},
{194942,1,157096,0,0,0,0},
{194943,1,32880,0,0,0,0},
{194944,1,144223,0,0,0,0},
{194945,1,17365,0,0,0,0},
{194946,1,32946,0,0,0,0},
{194947,1,33027,0,0,0,0},
{194948,1,17419,0,0,0,0},
{194949,1,33086,0,0,0,0},
{194950,1,23221,0,0,0,0},
{194951,1,157607,0,0,0,0},
{194952,1,157621,0,0,0,0},
{194953,1,144275,0,0,0,0},
{194954,1,144284,0,0,0,0},
{194955,1,33281,0,0,0,0},
{194956,1,33284,0,0,0,0},
{194957,1,36766,0,0,0,0},
{194958,1,17515,0,0,0,0},
{194959,1,33425,0,0,0,0},
{194960,1,33419,0,0,0,0},
{194961,1,33437,0,0,0,0},
{194962,1,21171,0,0,0,0},
{194963,1,33457,0,0,0,0},
{194964,1,33459,0,0,0,0},
{194965,1,33469,0,0,0,0},
{194966,1,33510,0,0,0,0},
{194967,1,158524,0,0,0,0},
{194968,1,33509,0,0,0,0},
{194969,1,33565,0,0,0,0},
{194970,1,33635,0,0,0,0},
{194971,1,33709,0,0,0,0},
{194972,1,33571,0,0,0,0},
{194973,1,33725,0,0,0,0},
{194974,1,33767,0,0,0,0},
{194975,1,33879,0,0,0,0},
{194976,1,33619,0,0,0,0},
{194977,1,33738,0,0,0,0},
{194978,1,33740,0,0,0,0},
{194979,1,33756,0,0,0,0},
{194980,1,158774,0,0,0,0},
{194981,1,159083,0,0,0,0},
{194982,1,158933,0,0,0,0},
{194983,1,17707,0,0,0,0},
{194984,1,34033,0,0,0,0},
{194985,1,34035,0,0,0,0},
{194986,1,34070,0,0,0,0},
{194987,1,160714,0,0,0,0},
{194988,1,34148,0,0,0,0},
{194989,1,159532,0,0,0,0},
{194990,1,17757,0,0,0,0},
{194991,1,17761,0,0,0,0},
{194992,1,159665,0,0,0,0},
{194993,1,159954,0,0,0,0},
{194994,1,17771,0,0,0,0},
{194995,1,34384,0,0,0,0},
{194996,1,34396,0,0,0,0},
{194997,1,34407,0,0,0,0},
{194998,1,34409,0,0,0,0},
{194999,1,34473,0,0,0,0},
{195000,1,34440,0,0,0,0},
{195001,1,34574,0,0,0,0},
{195002,1,34530,0,0,0,0},
{195003,1,34681,0,0,0,0},
{195004,1,34600,0,0,0,0},
{195005,1,34667,0,0,0,0},
{195006,1,34694,0,0,0,0},
{195007,1,17879,0,0,0,0},
{195008,1,34785,0,0,0,0},
{195009,1,34817,0,0,0,0},
{195010,1,17913,0,0,0,0},
{195011,1,34912,0,0,0,0},
{195012,1,34915,0,0,0,0},
{195013,1,161383,0,0,0,0},
{195014,1,35031,0,0,0,0},
{195015,1,35038,0,0,0,0},
{195016,1,17973,0,0,0,0},
{195017,1,35066,0,0,0,0},
{195018,1,13499,0,0,0,0},
{195019,1,161966,0,0,0,0},
{195020,1,162150,0,0,0,0},
{195021,1,18110,0,0,0,0},
{195022,1,18119,0,0,0,0},
{195023,1,35488,0,0,0,0},
{195024,1,35565,0,0,0,0},
{195025,1,35722,0,0,0,0},
{195026,1,35925,0,0,0,0},
{195027,1,162984,0,0,0,0},
{195028,1,36011,0,0,0,0},
{195029,1,36033,0,0,0,0},
{195030,1,36123,0,0,0,0},
{195031,1,36215,0,0,0,0},
{195032,1,163631,0,0,0,0},
{195033,1,133124,0,0,0,0},
{195034,1,36299,0,0,0,0},
{195035,1,36284,0,0,0,0},
{195036,1,36336,0,0,0,0},
{195037,1,133342,0,0,0,0},
{195038,1,36564,0,0,0,0},
{195039,1,36664,0,0,0,0},
{195040,1,165330,0,0,0,0},
{195041,1,165357,0,0,0,0},
{195042,1,37012,0,0,0,0},
{195043,1,37105,0,0,0,0},
{195044,1,37137,0,0,0,0},
{195045,1,165678,0,0,0,0},
{195046,1,37147,0,0,0,0},
{195047,1,37432,0,0,0,0},
{195048,1,37591,0,0,0,0},
{195049,1,37592,0,0,0,0},
{195050,1,37500,0,0,0,0},
{195051,1,37881,0,0,0,0},
{195052,1,37909,0,0,0,0},
{195053,1,166906,0,0,0,0},
{195054,1,38283,0,0,0,0},
{195055,1,18837,0,0,0,0},
{195056,1,38327,0,0,0,0},
{195057,1,167287,0,0,0,0},
{195058,1,18918,0,0,0,0},
{195059,1,38595,0,0,0,0},
{195060,1,23986,0,0,0,0},
{195061,1,38691,0,0,0,0},
{195062,1,168261,0,0,0,0},
{195063,1,168474,0,0,0,0},
{195064,1,19054,0,0,0,0},
{195065,1,19062,0,0,0,0},
{195066,1,38880,0,0,0,0},
{195067,1,168970,0,0,0,0},
{195068,1,19122,0,0,0,0},
{195069,1,169110,0,0,0,0},
{195070,1,38923,0,0,0,0},
{195071,1,38923,0,0,0,0},
{195072,1,38953,0,0,0,0},
{195073,1,169398,0,0,0,0},
{195074,1,39138,0,0,0,0},
{195075,1,19251,0,0,0,0},
{195076,1,39209,0,0,0,0},
{195077,1,39335,0,0,0,0},
{195078,1,39362,0,0,0,0},
{195079,1,39422,0,0,0,0},
{195080,1,19406,0,0,0,0},
{195081,1,170800,0,0,0,0},
{195082,1,39698,0,0,0,0},
{195083,1,40000,0,0,0,0},
{195084,1,40189,0,0,0,0},
{195085,1,19662,0,0,0,0},
{195086,1,19693,0,0,0,0},
{195087,1,40295,0,0,0,0},
{195088,1,172238,0,0,0,0},
{195089,1,19704,0,0,0,0},
{195090,1,172293,0,0,0,0},
{195091,1,172558,0,0,0,0},
{195092,1,172689,0,0,0,0},
{195093,1,40635,0,0,0,0},
{195094,1,19798,0,0,0,0},
{195095,1,40697,0,0,0,0},
{195096,1,40702,0,0,0,0},
{195097,1,40709,0,0,0,0},
{195098,1,40719,0,0,0,0},
{195099,1,40726,0,0,0,0},
{195100,1,40763,0,0,0,0},
{195101,1,173568,0,0,0,0}};
static const int u_kdec_long[][20] = {{12829,7,40,4363,4457,4364,4453,4523,41,0,0,0,0,0,0,0,0,0,0,0},
{12830,6,40,4363,4457,4370,4462,41,0,0,0,0,0,0,0,0,0,0,0,0},
{13063,6,12456,12473,12463,12540,12488,12441,0,0,0,0,0,0,0,0,0,0,0,0},
{13075,6,12461,12441,12523,12479,12441,12540,0,0,0,0,0,0,0,0,0,0,0,0},
{13077,6,12461,12525,12463,12441,12521,12512,0,0,0,0,0,0,0,0,0,0,0,0},
{13078,6,12461,12525,12513,12540,12488,12523,0,0,0,0,0,0,0,0,0,0,0,0},
{13081,6,12463,12441,12521,12512,12488,12531,0,0,0,0,0,0,0,0,0,0,0,0},
{13082,6,12463,12523,12475,12441,12452,12525,0,0,0,0,0,0,0,0,0,0,0,0},
{13099,6,12495,12442,12540,12475,12531,12488,0,0,0,0,0,0,0,0,0,0,0,0},
{13102,6,12498,12442,12450,12473,12488,12523,0,0,0,0,0,0,0,0,0,0,0,0},
{13106,6,12501,12449,12521,12483,12488,12441,0,0,0,0,0,0,0,0,0,0,0,0},
{13108,6,12501,12441,12483,12471,12455,12523,0,0,0,0,0,0,0,0,0,0,0,0},
{13130,6,12511,12522,12495,12441,12540,12523,0,0,0,0,0,0,0,0,0,0,0,0},
{13142,6,12524,12531,12488,12465,12441,12531,0,0,0,0,0,0,0,0,0,0,0,0},
{13231,6,114,97,100,8725,115,50,0,0,0,0,0,0,0,0,0,0,0,0},
{65018,18,1589,1604,1609,32,1575,1604,1604,1607,32,1593,1604,1610,1607,32,1608,1587,1604,1605},
{65019,8,1580,1604,32,1580,1604,1575,1604,1607,0,0,0,0,0,0,0,0,0,0}};
static const int u_comp[][3] = {{60,824,8814},{61,824,8800},{62,824,8815},{65,768,192},{65,769,193},{65,770,194},{65,771,195},{65,772,256},{65,774,258},{65,775,550},{65,776,196},{65,777,7842},{65,778,197},{65,780,461},{65,783,512},{65,785,514},{65,803,7840},{65,805,7680},{65,808,260},{66,775,7682},{66,803,7684},{66,817,7686},{67,769,262},{67,770,264},{67,775,266},{67,780,268},{67,807,199},{68,775,7690},{68,780,270},{68,803,7692},{68,807,7696},{68,813,7698},{68,817,7694},{69,768,200},{69,769,201},{69,770,202},{69,771,7868},{69,772,274},{69,774,276},{69,775,278},{69,776,203},{69,777,7866},{69,780,282},{69,783,516},{69,785,518},{69,803,7864},{69,807,552},{69,808,280},{69,813,7704},{69,816,7706},{70,775,7710},{71,769,500},{71,770,284},{71,772,7712},{71,774,286},{71,775,288},{71,780,486},{71,807,290},{72,770,292},{72,775,7714},{72,776,7718},{72,780,542},{72,803,7716},{72,807,7720},{72,814,7722},{73,768,204},{73,769,205},{73,770,206},{73,771,296},{73,772,298},{73,774,300},{73,775,304},{73,776,207},{73,777,7880},{73,780,463},{73,783,520},{73,785,522},{73,803,7882},{73,808,302},{73,816,7724},{74,770,308},{75,769,7728},{75,780,488},{75,803,7730},{75,807,310},{75,817,7732},{76,769,313},{76,780,317},{76,803,7734},{76,807,315},{76,813,7740},{76,817,7738},{77,769,7742},{77,775,7744},{77,803,7746},{78,768,504},{78,769,323},{78,771,209},{78,775,7748},{78,780,327},{78,803,7750},{78,807,325},{78,813,7754},{78,817,7752},{79,768,210},{79,769,211},{79,770,212},{79,771,213},{79,772,332},{79,774,334},{79,775,558},{79,776,214},{79,777,7886},{79,779,336},{79,780,465},{79,783,524},{79,785,526},{79,795,416},{79,803,7884},{79,808,490},{80,769,7764},{80,775,7766},{82,769,340},{82,775,7768},{82,780,344},{82,783,528},{82,785,530},{82,803,7770},{82,807,342},{82,817,7774},{83,769,346},{83,770,348},{83,775,7776},{83,780,352},{83,803,7778},{83,806,536},{83,807,350},{84,775,7786},{84,780,356},{84,803,7788},{84,806,538},{84,807,354},{84,813,7792},{84,817,7790},{85,768,217},{85,769,218},{85,770,219},{85,771,360},{85,772,362},{85,774,364},{85,776,220},{85,777,7910},{85,778,366},{85,779,368},{85,780,467},{85,783,532},{85,785,534},{85,795,431},{85,803,7908},{85,804,7794},{85,808,370},{85,813,7798},{85,816,7796},{86,771,7804},{86,803,7806},{87,768,7808},{87,769,7810},{87,770,372},{87,775,7814},{87,776,7812},{87,803,7816},{88,775,7818},{88,776,7820},{89,768,7922},{89,769,221},{89,770,374},{89,771,7928},{89,772,562},{89,775,7822},{89,776,376},{89,777,7926},{89,803,7924},{90,769,377},{90,770,7824},{90,775,379},{90,780,381},{90,803,7826},{90,817,7828},{97,768,224},{97,769,225},{97,770,226},{97,771,227},{97,772,257},{97,774,259},{97,775,551},{97,776,228},{97,777,7843},{97,778,229},{97,780,462},{97,783,513},{97,785,515},{97,803,7841},{97,805,7681},{97,808,261},{98,775,7683},{98,803,7685},{98,817,7687},{99,769,263},{99,770,265},{99,775,267},{99,780,269},{99,807,231},{100,775,7691},{100,780,271},{100,803,7693},{100,807,7697},{100,813,7699},{100,817,7695},{101,768,232},{101,769,233},{101,770,234},{101,771,7869},{101,772,275},{101,774,277},{101,775,279},{101,776,235},{101,777,7867},{101,780,283},{101,783,517},{101,785,519},{101,803,7865},{101,807,553},{101,808,281},{101,813,7705},{101,816,7707},{102,775,7711},{103,769,501},{103,770,285},{103,772,7713},{103,774,287},{103,775,289},{103,780,487},{103,807,291},{104,770,293},{104,775,7715},{104,776,7719},{104,780,543},{104,803,7717},{104,807,7721},{104,814,7723},{104,817,7830},{105,768,236},{105,769,237},{105,770,238},{105,771,297},{105,772,299},{105,774,301},{105,776,239},{105,777,7881},{105,780,464},{105,783,521},{105,785,523},{105,803,7883},{105,808,303},{105,816,7725},{106,770,309},{106,780,496},{107,769,7729},{107,780,489},{107,803,7731},{107,807,311},{107,817,7733},{108,769,314},{108,780,318},{108,803,7735},{108,807,316},{108,813,7741},{108,817,7739},{109,769,7743},{109,775,7745},{109,803,7747},{110,768,505},{110,769,324},{110,771,241},{110,775,7749},{110,780,328},{110,803,7751},{110,807,326},{110,813,7755},{110,817,7753},{111,768,242},{111,769,243},{111,770,244},{111,771,245},{111,772,333},{111,774,335},{111,775,559},{111,776,246},{111,777,7887},{111,779,337},{111,780,466},{111,783,525},{111,785,527},{111,795,417},{111,803,7885},{111,808,491},{112,769,7765},{112,775,7767},{114,769,341},{114,775,7769},{114,780,345},{114,783,529},{114,785,531},{114,803,7771},{114,807,343},{114,817,7775},{115,769,347},{115,770,349},{115,775,7777},{115,780,353},{115,803,7779},{115,806,537},{115,807,351},{116,775,7787},{116,776,7831},{116,780,357},{116,803,7789},{116,806,539},{116,807,355},{116,813,7793},{116,817,7791},{117,768,249},{117,769,250},{117,770,251},{117,771,361},{117,772,363},{117,774,365},{117,776,252},{117,777,7911},{117,778,367},{117,779,369},{117,780,468},{117,783,533},{117,785,535},{117,795,432},{117,803,7909},{117,804,7795},{117,808,371},{117,813,7799},{117,816,7797},{118,771,7805},{118,803,7807},{119,768,7809},{119,769,7811},{119,770,373},{119,775,7815},{119,776,7813},{119,778,7832},{119,803,7817},{120,775,7819},{120,776,7821},{121,768,7923},{121,769,253},{121,770,375},{121,771,7929},{121,772,563},{121,775,7823},{121,776,255},{121,777,7927},{121,778,7833},{121,803,7925},{122,769,378},{122,770,7825},{122,775,380},{122,780,382},{122,803,7827},{122,817,7829},{168,768,8173},{168,769,901},{168,834,8129},{194,768,7846},{194,769,7844},{194,771,7850},{194,777,7848},{196,772,478},{197,769,506},{198,769,508},{198,772,482},{199,769,7688},{202,768,7872},{202,769,7870},{202,771,7876},{202,777,7874},{207,769,7726},{212,768,7890},{212,769,7888},{212,771,7894},{212,777,7892},{213,769,7756},{213,772,556},{213,776,7758},{214,772,554},{216,769,510},{220,768,475},{220,769,471},{220,772,469},{220,780,473},{226,768,7847},{226,769,7845},{226,771,7851},{226,777,7849},{228,772,479},{229,769,507},{230,769,509},{230,772,483},{231,769,7689},{234,768,7873},{234,769,7871},{234,771,7877},{234,777,7875},{239,769,7727},{244,768,7891},{244,769,7889},{244,771,7895},{244,777,7893},{245,769,7757},{245,772,557},{245,776,7759},{246,772,555},{248,769,511},{252,768,476},{252,769,472},{252,772,470},{252,780,474},{258,768,7856},{258,769,7854},{258,771,7860},{258,777,7858},{259,768,7857},{259,769,7855},{259,771,7861},{259,777,7859},{274,768,7700},{274,769,7702},{275,768,7701},{275,769,7703},{332,768,7760},{332,769,7762},{333,768,7761},{333,769,7763},{346,775,7780},{347,775,7781},{352,775,7782},{353,775,7783},{360,769,7800},{361,769,7801},{362,776,7802},{363,776,7803},{383,775,7835},{416,768,7900},{416,769,7898},{416,771,7904},{416,777,7902},{416,803,7906},{417,768,7901},{417,769,7899},{417,771,7905},{417,777,7903},{417,803,7907},{431,768,7914},{431,769,7912},{431,771,7918},{431,777,7916},{431,803,7920},{432,768,7915},{432,769,7913},{432,771,7919},{432,777,7917},{432,803,7921},{439,780,494},{490,772,492},{491,772,493},{550,772,480},{551,772,481},{552,774,7708},{553,774,7709},{558,772,560},{559,772,561},{658,780,495},{913,768,8122},{913,769,902},{913,772,8121},{913,774,8120},{913,787,7944},{913,788,7945},{913,837,8124},{917,768,8136},{917,769,904},{917,787,7960},{917,788,7961},{919,768,8138},{919,769,905},{919,787,7976},{919,788,7977},{919,837,8140},{921,768,8154},{921,769,906},{921,772,8153},{921,774,8152},{921,776,938},{921,787,7992},{921,788,7993},{927,768,8184},{927,769,908},{927,787,8008},{927,788,8009},{929,788,8172},{933,768,8170},{933,769,910},{933,772,8169},{933,774,8168},{933,776,939},{933,788,8025},{937,768,8186},{937,769,911},{937,787,8040},{937,788,8041},{937,837,8188},{940,837,8116},{942,837,8132},{945,768,8048},{945,769,940},{945,772,8113},{945,774,8112},{945,787,7936},{945,788,7937},{945,834,8118},{945,837,8115},{949,768,8050},{949,769,941},{949,787,7952},{949,788,7953},{951,768,8052},{951,769,942},{951,787,7968},{951,788,7969},{951,834,8134},{951,837,8131},{953,768,8054},{953,769,943},{953,772,8145},{953,774,8144},{953,776,970},{953,787,7984},{953,788,7985},{953,834,8150},{959,768,8056},{959,769,972},{959,787,8000},{959,788,8001},{961,787,8164},{961,788,8165},{965,768,8058},{965,769,973},{965,772,8161},{965,774,8160},{965,776,971},{965,787,8016},{965,788,8017},{965,834,8166},{969,768,8060},{969,769,974},{969,787,8032},{969,788,8033},{969,834,8182},{969,837,8179},{970,768,8146},{970,769,912},{970,834,8151},{971,768,8162},{971,769,944},{971,834,8167},{974,837,8180},{978,769,979},{978,776,980},{1030,776,1031},{1040,774,1232},{1040,776,1234},{1043,769,1027},{1045,768,1024},{1045,774,1238},{1045,776,1025},{1046,774,1217},{1046,776,1244},{1047,776,1246},{1048,768,1037},{1048,772,1250},{1048,774,1049},{1048,776,1252},{1050,769,1036},{1054,776,1254},{1059,772,1262},{1059,774,1038},{1059,776,1264},{1059,779,1266},{1063,776,1268},{1067,776,1272},{1069,776,1260},{1072,774,1233},{1072,776,1235},{1075,769,1107},{1077,768,1104},{1077,774,1239},{1077,776,1105},{1078,774,1218},{1078,776,1245},{1079,776,1247},{1080,768,1117},{1080,772,1251},{1080,774,1081},{1080,776,1253},{1082,769,1116},{1086,776,1255},{1091,772,1263},{1091,774,1118},{1091,776,1265},{1091,779,1267},{1095,776,1269},{1099,776,1273},{1101,776,1261},{1110,776,1111},{1140,783,1142},{1141,783,1143},{1240,776,1242},{1241,776,1243},{1256,776,1258},{1257,776,1259},{1575,1619,1570},{1575,1620,1571},{1575,1621,1573},{1608,1620,1572},{1610,1620,1574},{1729,1620,1730},{1746,1620,1747},{1749,1620,1728},{2344,2364,2345},{2352,2364,2353},{2355,2364,2356},{2503,2494,2507},{2503,2519,2508},{2887,2878,2891},{2887,2902,2888},{2887,2903,2892},{2962,3031,2964},{3014,3006,3018},{3014,3031,3020},{3015,3006,3019},{3142,3158,3144},{3263,3285,3264},{3270,3266,3274},{3270,3285,3271},{3270,3286,3272},{3274,3285,3275},{3398,3390,3402},{3398,3415,3404},{3399,3390,3403},{3545,3530,3546},{3545,3535,3548},{3545,3551,3550},{3548,3530,3549},{4133,4142,4134},{6917,6965,6918},{6919,6965,6920},{6921,6965,6922},{6923,6965,6924},{6925,6965,6926},{6929,6965,6930},{6970,6965,6971},{6972,6965,6973},{6974,6965,6976},{6975,6965,6977},{6978,6965,6979},{7734,772,7736},{7735,772,7737},{7770,772,7772},{7771,772,7773},{7778,775,7784},{7779,775,7785},{7840,770,7852},{7840,774,7862},{7841,770,7853},{7841,774,7863},{7864,770,7878},{7865,770,7879},{7884,770,7896},{7885,770,7897},{7936,768,7938},{7936,769,7940},{7936,834,7942},{7936,837,8064},{7937,768,7939},{7937,769,7941},{7937,834,7943},{7937,837,8065},{7938,837,8066},{7939,837,8067},{7940,837,8068},{7941,837,8069},{7942,837,8070},{7943,837,8071},{7944,768,7946},{7944,769,7948},{7944,834,7950},{7944,837,8072},{7945,768,7947},{7945,769,7949},{7945,834,7951},{7945,837,8073},{7946,837,8074},{7947,837,8075},{7948,837,8076},{7949,837,8077},{7950,837,8078},{7951,837,8079},{7952,768,7954},{7952,769,7956},{7953,768,7955},{7953,769,7957},{7960,768,7962},{7960,769,7964},{7961,768,7963},{7961,769,7965},{7968,768,7970},{7968,769,7972},{7968,834,7974},{7968,837,8080},{7969,768,7971},{7969,769,7973},{7969,834,7975},{7969,837,8081},{7970,837,8082},{7971,837,8083},{7972,837,8084},{7973,837,8085},{7974,837,8086},{7975,837,8087},{7976,768,7978},{7976,769,7980},{7976,834,7982},{7976,837,8088},{7977,768,7979},{7977,769,7981},{7977,834,7983},{7977,837,8089},{7978,837,8090},{7979,837,8091},{7980,837,8092},{7981,837,8093},{7982,837,8094},{7983,837,8095},{7984,768,7986},{7984,769,7988},{7984,834,7990},{7985,768,7987},{7985,769,7989},{7985,834,7991},{7992,768,7994},{7992,769,7996},{7992,834,7998},{7993,768,7995},{7993,769,7997},{7993,834,7999},{8000,768,8002},{8000,769,8004},{8001,768,8003},{8001,769,8005},{8008,768,8010},{8008,769,8012},{8009,768,8011},{8009,769,8013},{8016,768,8018},{8016,769,8020},{8016,834,8022},{8017,768,8019},{8017,769,8021},{8017,834,8023},{8025,768,8027},{8025,769,8029},{8025,834,8031},{8032,768,8034},{8032,769,8036},{8032,834,8038},{8032,837,8096},{8033,768,8035},{8033,769,8037},{8033,834,8039},{8033,837,8097},{8034,837,8098},{8035,837,8099},{8036,837,8100},{8037,837,8101},{8038,837,8102},{8039,837,8103},{8040,768,8042},{8040,769,8044},{8040,834,8046},{8040,837,8104},{8041,768,8043},{8041,769,8045},{8041,834,8047},{8041,837,8105},{8042,837,8106},{8043,837,8107},{8044,837,8108},{8045,837,8109},{8046,837,8110},{8047,837,8111},{8048,837,8114},{8052,837,8130},{8060,837,8178},{8118,837,8119},{8127,768,8141},{8127,769,8142},{8127,834,8143},{8134,837,8135},{8182,837,8183},{8190,768,8157},{8190,769,8158},{8190,834,8159},{8592,824,8602},{8594,824,8603},{8596,824,8622},{8656,824,8653},{8658,824,8655},{8660,824,8654},{8707,824,8708},{8712,824,8713},{8715,824,8716},{8739,824,8740},{8741,824,8742},{8764,824,8769},{8771,824,8772},{8773,824,8775},{8776,824,8777},{8781,824,8813},{8801,824,8802},{8804,824,8816},{8805,824,8817},{8818,824,8820},{8819,824,8821},{8822,824,8824},{8823,824,8825},{8826,824,8832},{8827,824,8833},{8828,824,8928},{8829,824,8929},{8834,824,8836},{8835,824,8837},{8838,824,8840},{8839,824,8841},{8849,824,8930},{8850,824,8931},{8866,824,8876},{8872,824,8877},{8873,824,8878},{8875,824,8879},{8882,824,8938},{8883,824,8939},{8884,824,8940},{8885,824,8941},{12358,12441,12436},{12363,12441,12364},{12365,12441,12366},{12367,12441,12368},{12369,12441,12370},{12371,12441,12372},{12373,12441,12374},{12375,12441,12376},{12377,12441,12378},{12379,12441,12380},{12381,12441,12382},{12383,12441,12384},{12385,12441,12386},{12388,12441,12389},{12390,12441,12391},{12392,12441,12393},{12399,12441,12400},{12399,12442,12401},{12402,12441,12403},{12402,12442,12404},{12405,12441,12406},{12405,12442,12407},{12408,12441,12409},{12408,12442,12410},{12411,12441,12412},{12411,12442,12413},{12445,12441,12446},{12454,12441,12532},{12459,12441,12460},{12461,12441,12462},{12463,12441,12464},{12465,12441,12466},{12467,12441,12468},{12469,12441,12470},{12471,12441,12472},{12473,12441,12474},{12475,12441,12476},{12477,12441,12478},{12479,12441,12480},{12481,12441,12482},{12484,12441,12485},{12486,12441,12487},{12488,12441,12489},{12495,12441,12496},{12495,12442,12497},{12498,12441,12499},{12498,12442,12500},{12501,12441,12502},{12501,12442,12503},{12504,12441,12505},{12504,12442,12506},{12507,12441,12508},{12507,12442,12509},{12527,12441,12535},{12528,12441,12536},{12529,12441,12537},{12530,12441,12538},{12541,12441,12542},{69785,69818,69786},{69787,69818,69788},{69797,69818,69803},{69937,69927,69934},{69938,69927,69935},{70471,70462,70475},{70471,70487,70476},{70841,70832,70844},{70841,70842,70843},{70841,70845,70846},{71096,71087,71098},{71097,71087,71099}};
