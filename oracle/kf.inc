// codepoints of finding KF-A (kf_a.txt): their recorded decomposition is themselves
static const int u_kfa[][3] = {{160,160,1},{170,170,1},{178,179,1},{185,186,1},{188,190,1},{688,696,1},{736,740,1},{3852,3852,1},{4348,4348,1},{7468,7470,1},{7472,7482,1},{7484,7501,1},{7503,7530,1},{7544,7544,1},{7579,7615,1},{8199,8199,1},{8209,8209,1},{8239,8239,1},{8304,8305,1},{8308,8334,1},{8336,8348,1},{8450,8450,1},{8458,8467,1},{8469,8469,1},{8473,8477,1},{8480,8480,1},{8482,8482,1},{8484,8484,1},{8488,8488,1},{8492,8493,1},{8495,8497,1},{8499,8500,1},{8505,8505,1},{8508,8512,1},{8517,8521,1},{8528,8543,1},{8585,8585,1},{9312,9331,1},{9398,9450,1},{11388,11389,1},{11631,11631,1},{12288,12288,1},{12447,12447,1},{12543,12543,1},{12690,12703,1},{12868,12871,1},{12880,12926,1},{12928,12991,1},{13004,13054,1},{13056,13143,1},{13169,13279,1},{13311,13311,1},{42652,42653,1},{42864,42864,1},{43000,43001,1},{43868,43871,1},{64288,64297,1},{64336,64433,1},{64467,64829,1},{64848,64911,1},{64914,64967,1},{65008,65020,1},{65040,65049,1},{65072,65092,1},{65095,65096,1},{65104,65106,1},{65108,65126,1},{65128,65131,1},{65136,65138,1},{65140,65140,1},{65142,65276,1},{65281,65470,1},{65474,65479,1},{65482,65487,1},{65490,65495,1},{65498,65500,1},{65504,65510,1},{65512,65518,1},{119808,119892,1},{119894,119964,1},{119966,119967,1},{119970,119970,1},{119973,119974,1},{119977,119980,1},{119982,119993,1},{119995,119995,1},{119997,120003,1},{120005,120069,1},{120071,120074,1},{120077,120084,1},{120086,120092,1},{120094,120121,1},{120123,120126,1},{120128,120132,1},{120134,120134,1},{120138,120144,1},{120146,120485,1},{120488,120779,1},{120782,120831,1},{126464,126467,1},{126469,126495,1},{126497,126498,1},{126500,126500,1},{126503,126503,1},{126505,126514,1},{126516,126519,1},{126521,126521,1},{126523,126523,1},{126530,126530,1},{126535,126535,1},{126537,126537,1},{126539,126539,1},{126541,126543,1},{126545,126546,1},{126548,126548,1},{126551,126551,1},{126553,126553,1},{126555,126555,1},{126557,126557,1},{126559,126559,1},{126561,126562,1},{126564,126564,1},{126567,126570,1},{126572,126578,1},{126580,126583,1},{126585,126588,1},{126590,126590,1},{126592,126601,1},{126603,126619,1},{126625,126627,1},{126629,126633,1},{126635,126651,1},{127275,127278,1},{127280,127311,1},{127338,127339,1},{127376,127376,1},{127488,127490,1},{127504,127547,1},{127568,127569,1}};
