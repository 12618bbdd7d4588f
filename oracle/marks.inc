// generated by marks.py
static const int marks2[] = {820,821,2492,2620,2381,2509,1456,1457,1458,1459,1460,1461,1462,1463,1464,1479,1465,1466,1467,1468,1469,1471,1473,1474,64286,1611,2288,1612,2289,1613,2290,1560,1614,1561,1615,1562,1616,1617,1618,1648,1809,3157,3640,3641,3656,3657,3768,3769,3784,3785,3953,3954,3962,3956,801,802,7630,3897,119141,12330,790,791,1434,1453,12334,12335,119149,1454,6313,773,781,789,794,860,863,861,862};
static const int marks1[] = {820,2492,2381,1456,1457,1458,1459,1460,1461,1462,1463,1464,1465,1467,1468,1469,1471,1473,1474,64286,1611,1612,1613,1560,1561,1562,1617,1618,1648,1809,3157,3640,3656,3768,3784,3953,3954,3956,801,7630,3897,12330,790,1434,12334,119149,1454,773,789,860,861};
static const int marks230[] = {773,781,782,784,786,829,830,831,838,842,843,844,848,849,850,855,859,867,868,869,870,871,872,873,874,875,876,877,878,879,1155,1156,1157,1158,1159,1426,1427,1428,1429,1431,1432,1433,1436,1437,1438};
static const int marks220[] = {790,791,792,793,796,797,798,799,800,809,810,811,812,815,818,819,825,826,827,828,839,840,841,845,846,851,852,853,854,857,858,1425,1430,1435,1442,1443,1444,1445,1446,1447,1450,1477,1622,1628,1631};
