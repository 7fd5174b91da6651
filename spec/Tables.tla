------------------------------- MODULE Tables -------------------------------
(* Written by tools/gentab.py: constants in 1/2^20, worked out there with     *)
(* double precision from their definitions.                                   *)
EXTENDS Integers, TLC

\* Exp1[n]: exp(-10/n), the one-pole coefficient of n/10 samples
Exp1 ==
  8 :> 300422 @@ 16 :> 561262 @@ 24 :> 691264 @@ 40 :> 816632 @@ 48 :> 851377 @@ 80 :> 925365 @@
  96 :> 944846 @@ 120 :> 964736 @@ 160 :> 985046 @@ 240 :> 1005783 @@ 320 :> 1016315 @@ 400 :> 1022687 @@
  480 :> 1026957 @@ 800 :> 1035550 @@ 960 :> 1037710 @@ 1600 :> 1042043 @@ 2400 :> 1044216 @@ 4000 :> 1045958 @@
  4800 :> 1046394 @@ 8000 :> 1047266 @@ 9600 :> 1047484 @@ 12000 :> 1047703 @@ 16000 :> 1047921 @@ 24000 :> 1048139 @@
  40000 :> 1048314 @@ 48000 :> 1048358 @@ 144000 :> 1048503 @@ 160000 :> 1048510 @@ 960000 :> 1048565

\* Exp22[n]: exp(-22/n)
Exp22 ==
  8 :> 67033 @@ 16 :> 265122 @@ 24 :> 419273 @@ 40 :> 604976 @@ 48 :> 663053 @@ 80 :> 796469 @@
  96 :> 833823 @@ 120 :> 872930 @@ 160 :> 913870 @@ 240 :> 956730 @@ 320 :> 978909 @@ 400 :> 992462 @@
  480 :> 1001601 @@ 800 :> 1020133 @@ 960 :> 1024819 @@ 1600 :> 1034257 @@ 2400 :> 1039008 @@ 4000 :> 1042825 @@
  4800 :> 1043781 @@ 8000 :> 1045696 @@ 9600 :> 1046176 @@ 12000 :> 1046655 @@ 16000 :> 1047135 @@ 24000 :> 1047615 @@
  40000 :> 1047999 @@ 48000 :> 1048096 @@ 144000 :> 1048416 @@ 160000 :> 1048432 @@ 960000 :> 1048552

\* Gain[d]: d/2 decibels as a factor
Gain ==
  -240 :> 1 @@ -239 :> 1 @@ -238 :> 1 @@ -237 :> 1 @@ -236 :> 1 @@ -235 :> 1 @@
  -234 :> 1 @@ -233 :> 2 @@ -232 :> 2 @@ -231 :> 2 @@ -230 :> 2 @@ -229 :> 2 @@
  -228 :> 2 @@ -227 :> 2 @@ -226 :> 2 @@ -225 :> 2 @@ -224 :> 3 @@ -223 :> 3 @@
  -222 :> 3 @@ -221 :> 3 @@ -220 :> 3 @@ -219 :> 4 @@ -218 :> 4 @@ -217 :> 4 @@
  -216 :> 4 @@ -215 :> 4 @@ -214 :> 5 @@ -213 :> 5 @@ -212 :> 5 @@ -211 :> 6 @@
  -210 :> 6 @@ -209 :> 6 @@ -208 :> 7 @@ -207 :> 7 @@ -206 :> 7 @@ -205 :> 8 @@
  -204 :> 8 @@ -203 :> 9 @@ -202 :> 9 @@ -201 :> 10 @@ -200 :> 10 @@ -199 :> 11 @@
  -198 :> 12 @@ -197 :> 12 @@ -196 :> 13 @@ -195 :> 14 @@ -194 :> 15 @@ -193 :> 16 @@
  -192 :> 17 @@ -191 :> 18 @@ -190 :> 19 @@ -189 :> 20 @@ -188 :> 21 @@ -187 :> 22 @@
  -186 :> 23 @@ -185 :> 25 @@ -184 :> 26 @@ -183 :> 28 @@ -182 :> 30 @@ -181 :> 31 @@
  -180 :> 33 @@ -179 :> 35 @@ -178 :> 37 @@ -177 :> 39 @@ -176 :> 42 @@ -175 :> 44 @@
  -174 :> 47 @@ -173 :> 50 @@ -172 :> 53 @@ -171 :> 56 @@ -170 :> 59 @@ -169 :> 62 @@
  -168 :> 66 @@ -167 :> 70 @@ -166 :> 74 @@ -165 :> 79 @@ -164 :> 83 @@ -163 :> 88 @@
  -162 :> 93 @@ -161 :> 99 @@ -160 :> 105 @@ -159 :> 111 @@ -158 :> 118 @@ -157 :> 125 @@
  -156 :> 132 @@ -155 :> 140 @@ -154 :> 148 @@ -153 :> 157 @@ -152 :> 166 @@ -151 :> 176 @@
  -150 :> 186 @@ -149 :> 198 @@ -148 :> 209 @@ -147 :> 222 @@ -146 :> 235 @@ -145 :> 249 @@
  -144 :> 263 @@ -143 :> 279 @@ -142 :> 296 @@ -141 :> 313 @@ -140 :> 332 @@ -139 :> 351 @@
  -138 :> 372 @@ -137 :> 394 @@ -136 :> 417 @@ -135 :> 442 @@ -134 :> 468 @@ -133 :> 496 @@
  -132 :> 526 @@ -131 :> 557 @@ -130 :> 590 @@ -129 :> 625 @@ -128 :> 662 @@ -127 :> 701 @@
  -126 :> 742 @@ -125 :> 786 @@ -124 :> 833 @@ -123 :> 882 @@ -122 :> 935 @@ -121 :> 990 @@
  -120 :> 1049 @@ -119 :> 1111 @@ -118 :> 1177 @@ -117 :> 1246 @@ -116 :> 1320 @@ -115 :> 1398 @@
  -114 :> 1481 @@ -113 :> 1569 @@ -112 :> 1662 @@ -111 :> 1760 @@ -110 :> 1865 @@ -109 :> 1975 @@
  -108 :> 2092 @@ -107 :> 2216 @@ -106 :> 2347 @@ -105 :> 2487 @@ -104 :> 2634 @@ -103 :> 2790 @@
  -102 :> 2955 @@ -101 :> 3130 @@ -100 :> 3316 @@ -99 :> 3512 @@ -98 :> 3720 @@ -97 :> 3941 @@
  -96 :> 4174 @@ -95 :> 4422 @@ -94 :> 4684 @@ -93 :> 4961 @@ -92 :> 5255 @@ -91 :> 5567 @@
  -90 :> 5897 @@ -89 :> 6246 @@ -88 :> 6616 @@ -87 :> 7008 @@ -86 :> 7423 @@ -85 :> 7863 @@
  -84 :> 8329 @@ -83 :> 8823 @@ -82 :> 9345 @@ -81 :> 9899 @@ -80 :> 10486 @@ -79 :> 11107 @@
  -78 :> 11765 @@ -77 :> 12462 @@ -76 :> 13201 @@ -75 :> 13983 @@ -74 :> 14812 @@ -73 :> 15689 @@
  -72 :> 16619 @@ -71 :> 17604 @@ -70 :> 18647 @@ -69 :> 19751 @@ -68 :> 20922 @@ -67 :> 22162 @@
  -66 :> 23475 @@ -65 :> 24866 @@ -64 :> 26339 @@ -63 :> 27900 @@ -62 :> 29553 @@ -61 :> 31304 @@
  -60 :> 33159 @@ -59 :> 35124 @@ -58 :> 37205 @@ -57 :> 39409 @@ -56 :> 41745 @@ -55 :> 44218 @@
  -54 :> 46838 @@ -53 :> 49614 @@ -52 :> 52553 @@ -51 :> 55667 @@ -50 :> 58966 @@ -49 :> 62460 @@
  -48 :> 66161 @@ -47 :> 70081 @@ -46 :> 74233 @@ -45 :> 78632 @@ -44 :> 83291 @@ -43 :> 88227 @@
  -42 :> 93454 @@ -41 :> 98992 @@ -40 :> 104858 @@ -39 :> 111071 @@ -38 :> 117652 @@ -37 :> 124623 @@
  -36 :> 132008 @@ -35 :> 139830 @@ -34 :> 148115 @@ -33 :> 156892 @@ -32 :> 166188 @@ -31 :> 176035 @@
  -30 :> 186466 @@ -29 :> 197515 @@ -28 :> 209218 @@ -27 :> 221615 @@ -26 :> 234747 @@ -25 :> 248657 @@
  -24 :> 263390 @@ -23 :> 278997 @@ -22 :> 295529 @@ -21 :> 313040 @@ -20 :> 331589 @@ -19 :> 351237 @@
  -18 :> 372049 @@ -17 :> 394094 @@ -16 :> 417446 @@ -15 :> 442181 @@ -14 :> 468382 @@ -13 :> 496135 @@
  -12 :> 525533 @@ -11 :> 556673 @@ -10 :> 589658 @@ -9 :> 624597 @@ -8 :> 661607 @@ -7 :> 700809 @@
  -6 :> 742335 @@ -5 :> 786321 @@ -4 :> 832914 @@ -3 :> 882267 @@ -2 :> 934544 @@ -1 :> 989920 @@
  0 :> 1048576 @@ 1 :> 1110708 @@ 2 :> 1176522 @@ 3 :> 1246235 @@ 4 :> 1320079 @@ 5 :> 1398299 @@
  6 :> 1481153 @@ 7 :> 1568917 @@ 8 :> 1661881 @@ 9 :> 1760354 @@ 10 :> 1864661 @@ 11 :> 1975149 @@
  12 :> 2092184 @@ 13 :> 2216154 @@ 14 :> 2347469 @@ 15 :> 2486566 @@ 16 :> 2633904 @@ 17 :> 2789972 @@
  18 :> 2955289 @@ 19 :> 3130401 @@ 20 :> 3315888 @@ 21 :> 3512367 @@ 22 :> 3720488 @@ 23 :> 3940941 @@
  24 :> 4174456

\* Hp[100 sr + f]: exp(-2 pi f / sr), the pole of a one-pole high-pass
Hp ==
  800200 :> 896151 @@ 800500 :> 708032 @@ 801000 :> 478086 @@ 802000 :> 217978 @@ 804000 :> 45313 @@ 824000 :> 0 @@
  4800200 :> 1021481 @@ 4800500 :> 982145 @@ 4801000 :> 919922 @@ 4802000 :> 807053 @@ 4804000 :> 621161 @@ 4824000 :> 45313

\* DbT[i]: 1 + i/256 in 1/65536 decibels
DbT ==
  0 :> 0 @@ 1 :> 2219 @@ 2 :> 4430 @@ 3 :> 6632 @@ 4 :> 8826 @@ 5 :> 11011 @@
  6 :> 13188 @@ 7 :> 15356 @@ 8 :> 17516 @@ 9 :> 19669 @@ 10 :> 21813 @@ 11 :> 23949 @@
  12 :> 26077 @@ 13 :> 28197 @@ 14 :> 30309 @@ 15 :> 32413 @@ 16 :> 34510 @@ 17 :> 36599 @@
  18 :> 38680 @@ 19 :> 40754 @@ 20 :> 42820 @@ 21 :> 44879 @@ 22 :> 46930 @@ 23 :> 48974 @@
  24 :> 51011 @@ 25 :> 53040 @@ 26 :> 55062 @@ 27 :> 57077 @@ 28 :> 59085 @@ 29 :> 61086 @@
  30 :> 63080 @@ 31 :> 65067 @@ 32 :> 67047 @@ 33 :> 69020 @@ 34 :> 70986 @@ 35 :> 72946 @@
  36 :> 74898 @@ 37 :> 76844 @@ 38 :> 78784 @@ 39 :> 80717 @@ 40 :> 82643 @@ 41 :> 84563 @@
  42 :> 86476 @@ 43 :> 88383 @@ 44 :> 90284 @@ 45 :> 92178 @@ 46 :> 94066 @@ 47 :> 95948 @@
  48 :> 97824 @@ 49 :> 99693 @@ 50 :> 101557 @@ 51 :> 103414 @@ 52 :> 105265 @@ 53 :> 107110 @@
  54 :> 108949 @@ 55 :> 110783 @@ 56 :> 112610 @@ 57 :> 114432 @@ 58 :> 116247 @@ 59 :> 118057 @@
  60 :> 119862 @@ 61 :> 121660 @@ 62 :> 123453 @@ 63 :> 125240 @@ 64 :> 127022 @@ 65 :> 128798 @@
  66 :> 130569 @@ 67 :> 132334 @@ 68 :> 134093 @@ 69 :> 135847 @@ 70 :> 137596 @@ 71 :> 139340 @@
  72 :> 141078 @@ 73 :> 142811 @@ 74 :> 144538 @@ 75 :> 146261 @@ 76 :> 147978 @@ 77 :> 149690 @@
  78 :> 151397 @@ 79 :> 153098 @@ 80 :> 154795 @@ 81 :> 156487 @@ 82 :> 158173 @@ 83 :> 159855 @@
  84 :> 161532 @@ 85 :> 163204 @@ 86 :> 164870 @@ 87 :> 166532 @@ 88 :> 168190 @@ 89 :> 169842 @@
  90 :> 171490 @@ 91 :> 173132 @@ 92 :> 174770 @@ 93 :> 176404 @@ 94 :> 178033 @@ 95 :> 179657 @@
  96 :> 181276 @@ 97 :> 182891 @@ 98 :> 184501 @@ 99 :> 186107 @@ 100 :> 187708 @@ 101 :> 189305 @@
  102 :> 190897 @@ 103 :> 192485 @@ 104 :> 194069 @@ 105 :> 195648 @@ 106 :> 197222 @@ 107 :> 198793 @@
  108 :> 200359 @@ 109 :> 201920 @@ 110 :> 203478 @@ 111 :> 205031 @@ 112 :> 206580 @@ 113 :> 208125 @@
  114 :> 209665 @@ 115 :> 211201 @@ 116 :> 212734 @@ 117 :> 214262 @@ 118 :> 215786 @@ 119 :> 217306 @@
  120 :> 218822 @@ 121 :> 220334 @@ 122 :> 221842 @@ 123 :> 223346 @@ 124 :> 224846 @@ 125 :> 226342 @@
  126 :> 227834 @@ 127 :> 229322 @@ 128 :> 230806 @@ 129 :> 232287 @@ 130 :> 233763 @@ 131 :> 235236 @@
  132 :> 236705 @@ 133 :> 238170 @@ 134 :> 239632 @@ 135 :> 241090 @@ 136 :> 242544 @@ 137 :> 243994 @@
  138 :> 245441 @@ 139 :> 246883 @@ 140 :> 248323 @@ 141 :> 249758 @@ 142 :> 251190 @@ 143 :> 252619 @@
  144 :> 254044 @@ 145 :> 255465 @@ 146 :> 256883 @@ 147 :> 258297 @@ 148 :> 259708 @@ 149 :> 261115 @@
  150 :> 262519 @@ 151 :> 263919 @@ 152 :> 265316 @@ 153 :> 266710 @@ 154 :> 268100 @@ 155 :> 269486 @@
  156 :> 270870 @@ 157 :> 272250 @@ 158 :> 273626 @@ 159 :> 275000 @@ 160 :> 276370 @@ 161 :> 277736 @@
  162 :> 279100 @@ 163 :> 280460 @@ 164 :> 281817 @@ 165 :> 283171 @@ 166 :> 284521 @@ 167 :> 285869 @@
  168 :> 287213 @@ 169 :> 288554 @@ 170 :> 289891 @@ 171 :> 291226 @@ 172 :> 292558 @@ 173 :> 293886 @@
  174 :> 295211 @@ 175 :> 296534 @@ 176 :> 297853 @@ 177 :> 299169 @@ 178 :> 300482 @@ 179 :> 301792 @@
  180 :> 303099 @@ 181 :> 304404 @@ 182 :> 305705 @@ 183 :> 307003 @@ 184 :> 308298 @@ 185 :> 309590 @@
  186 :> 310880 @@ 187 :> 312166 @@ 188 :> 313450 @@ 189 :> 314730 @@ 190 :> 316008 @@ 191 :> 317283 @@
  192 :> 318555 @@ 193 :> 319824 @@ 194 :> 321090 @@ 195 :> 322354 @@ 196 :> 323615 @@ 197 :> 324873 @@
  198 :> 326128 @@ 199 :> 327380 @@ 200 :> 328630 @@ 201 :> 329877 @@ 202 :> 331121 @@ 203 :> 332363 @@
  204 :> 333602 @@ 205 :> 334838 @@ 206 :> 336071 @@ 207 :> 337302 @@ 208 :> 338530 @@ 209 :> 339756 @@
  210 :> 340979 @@ 211 :> 342199 @@ 212 :> 343416 @@ 213 :> 344631 @@ 214 :> 345844 @@ 215 :> 347054 @@
  216 :> 348261 @@ 217 :> 349466 @@ 218 :> 350668 @@ 219 :> 351868 @@ 220 :> 353065 @@ 221 :> 354259 @@
  222 :> 355451 @@ 223 :> 356641 @@ 224 :> 357828 @@ 225 :> 359013 @@ 226 :> 360195 @@ 227 :> 361375 @@
  228 :> 362552 @@ 229 :> 363727 @@ 230 :> 364900 @@ 231 :> 366070 @@ 232 :> 367237 @@ 233 :> 368403 @@
  234 :> 369566 @@ 235 :> 370726 @@ 236 :> 371884 @@ 237 :> 373040 @@ 238 :> 374193 @@ 239 :> 375345 @@
  240 :> 376493 @@ 241 :> 377640 @@ 242 :> 378784 @@ 243 :> 379926 @@ 244 :> 381066 @@ 245 :> 382203 @@
  246 :> 383338 @@ 247 :> 384471 @@ 248 :> 385601 @@ 249 :> 386730 @@ 250 :> 387856 @@ 251 :> 388980 @@
  252 :> 390101 @@ 253 :> 391221 @@ 254 :> 392338 @@ 255 :> 393453 @@ 256 :> 394566

\* AmpT[i]: 2 to the i/256
AmpT ==
  0 :> 1048576 @@ 1 :> 1051419 @@ 2 :> 1054270 @@ 3 :> 1057128 @@ 4 :> 1059994 @@ 5 :> 1062868 @@
  6 :> 1065750 @@ 7 :> 1068639 @@ 8 :> 1071537 @@ 9 :> 1074442 @@ 10 :> 1077355 @@ 11 :> 1080276 @@
  12 :> 1083205 @@ 13 :> 1086142 @@ 14 :> 1089087 @@ 15 :> 1092040 @@ 16 :> 1095000 @@ 17 :> 1097969 @@
  18 :> 1100946 @@ 19 :> 1103931 @@ 20 :> 1106924 @@ 21 :> 1109925 @@ 22 :> 1112935 @@ 23 :> 1115952 @@
  24 :> 1118978 @@ 25 :> 1122012 @@ 26 :> 1125054 @@ 27 :> 1128104 @@ 28 :> 1131163 @@ 29 :> 1134230 @@
  30 :> 1137305 @@ 31 :> 1140388 @@ 32 :> 1143480 @@ 33 :> 1146581 @@ 34 :> 1149689 @@ 35 :> 1152806 @@
  36 :> 1155932 @@ 37 :> 1159066 @@ 38 :> 1162209 @@ 39 :> 1165360 @@ 40 :> 1168519 @@ 41 :> 1171687 @@
  42 :> 1174864 @@ 43 :> 1178050 @@ 44 :> 1181244 @@ 45 :> 1184446 @@ 46 :> 1187658 @@ 47 :> 1190878 @@
  48 :> 1194106 @@ 49 :> 1197344 @@ 50 :> 1200590 @@ 51 :> 1203845 @@ 52 :> 1207109 @@ 53 :> 1210382 @@
  54 :> 1213664 @@ 55 :> 1216954 @@ 56 :> 1220254 @@ 57 :> 1223562 @@ 58 :> 1226880 @@ 59 :> 1230206 @@
  60 :> 1233542 @@ 61 :> 1236886 @@ 62 :> 1240240 @@ 63 :> 1243602 @@ 64 :> 1246974 @@ 65 :> 1250355 @@
  66 :> 1253745 @@ 67 :> 1257144 @@ 68 :> 1260553 @@ 69 :> 1263970 @@ 70 :> 1267397 @@ 71 :> 1270834 @@
  72 :> 1274279 @@ 73 :> 1277734 @@ 74 :> 1281198 @@ 75 :> 1284672 @@ 76 :> 1288155 @@ 77 :> 1291648 @@
  78 :> 1295150 @@ 79 :> 1298661 @@ 80 :> 1302182 @@ 81 :> 1305713 @@ 82 :> 1309253 @@ 83 :> 1312803 @@
  84 :> 1316362 @@ 85 :> 1319931 @@ 86 :> 1323510 @@ 87 :> 1327098 @@ 88 :> 1330696 @@ 89 :> 1334304 @@
  90 :> 1337922 @@ 91 :> 1341549 @@ 92 :> 1345187 @@ 93 :> 1348834 @@ 94 :> 1352491 @@ 95 :> 1356158 @@
  96 :> 1359835 @@ 97 :> 1363522 @@ 98 :> 1367219 @@ 99 :> 1370926 @@ 100 :> 1374642 @@ 101 :> 1378369 @@
  102 :> 1382107 @@ 103 :> 1385854 @@ 104 :> 1389611 @@ 105 :> 1393379 @@ 106 :> 1397157 @@ 107 :> 1400945 @@
  108 :> 1404743 @@ 109 :> 1408552 @@ 110 :> 1412371 @@ 111 :> 1416200 @@ 112 :> 1420040 @@ 113 :> 1423890 @@
  114 :> 1427751 @@ 115 :> 1431622 @@ 116 :> 1435503 @@ 117 :> 1439395 @@ 118 :> 1443298 @@ 119 :> 1447211 @@
  120 :> 1451135 @@ 121 :> 1455069 @@ 122 :> 1459014 @@ 123 :> 1462970 @@ 124 :> 1466937 @@ 125 :> 1470914 @@
  126 :> 1474902 @@ 127 :> 1478901 @@ 128 :> 1482910 @@ 129 :> 1486931 @@ 130 :> 1490962 @@ 131 :> 1495005 @@
  132 :> 1499058 @@ 133 :> 1503123 @@ 134 :> 1507198 @@ 135 :> 1511284 @@ 136 :> 1515382 @@ 137 :> 1519491 @@
  138 :> 1523610 @@ 139 :> 1527741 @@ 140 :> 1531883 @@ 141 :> 1536037 @@ 142 :> 1540201 @@ 143 :> 1544377 @@
  144 :> 1548564 @@ 145 :> 1552763 @@ 146 :> 1556973 @@ 147 :> 1561194 @@ 148 :> 1565427 @@ 149 :> 1569672 @@
  150 :> 1573927 @@ 151 :> 1578195 @@ 152 :> 1582474 @@ 153 :> 1586764 @@ 154 :> 1591066 @@ 155 :> 1595380 @@
  156 :> 1599706 @@ 157 :> 1604043 @@ 158 :> 1608392 @@ 159 :> 1612753 @@ 160 :> 1617125 @@ 161 :> 1621510 @@
  162 :> 1625906 @@ 163 :> 1630314 @@ 164 :> 1634735 @@ 165 :> 1639167 @@ 166 :> 1643611 @@ 167 :> 1648067 @@
  168 :> 1652536 @@ 169 :> 1657016 @@ 170 :> 1661509 @@ 171 :> 1666014 @@ 172 :> 1670531 @@ 173 :> 1675060 @@
  174 :> 1679601 @@ 175 :> 1684155 @@ 176 :> 1688722 @@ 177 :> 1693300 @@ 178 :> 1697891 @@ 179 :> 1702495 @@
  180 :> 1707110 @@ 181 :> 1711739 @@ 182 :> 1716380 @@ 183 :> 1721034 @@ 184 :> 1725700 @@ 185 :> 1730379 @@
  186 :> 1735070 @@ 187 :> 1739774 @@ 188 :> 1744491 @@ 189 :> 1749221 @@ 190 :> 1753964 @@ 191 :> 1758719 @@
  192 :> 1763488 @@ 193 :> 1768269 @@ 194 :> 1773063 @@ 195 :> 1777870 @@ 196 :> 1782691 @@ 197 :> 1787524 @@
  198 :> 1792371 @@ 199 :> 1797230 @@ 200 :> 1802103 @@ 201 :> 1806989 @@ 202 :> 1811888 @@ 203 :> 1816801 @@
  204 :> 1821727 @@ 205 :> 1826666 @@ 206 :> 1831618 @@ 207 :> 1836584 @@ 208 :> 1841564 @@ 209 :> 1846557 @@
  210 :> 1851563 @@ 211 :> 1856583 @@ 212 :> 1861617 @@ 213 :> 1866665 @@ 214 :> 1871726 @@ 215 :> 1876800 @@
  216 :> 1881889 @@ 217 :> 1886991 @@ 218 :> 1892107 @@ 219 :> 1897237 @@ 220 :> 1902381 @@ 221 :> 1907539 @@
  222 :> 1912711 @@ 223 :> 1917897 @@ 224 :> 1923097 @@ 225 :> 1928311 @@ 226 :> 1933539 @@ 227 :> 1938781 @@
  228 :> 1944038 @@ 229 :> 1949309 @@ 230 :> 1954594 @@ 231 :> 1959893 @@ 232 :> 1965207 @@ 233 :> 1970535 @@
  234 :> 1975878 @@ 235 :> 1981235 @@ 236 :> 1986607 @@ 237 :> 1991993 @@ 238 :> 1997394 @@ 239 :> 2002809 @@
  240 :> 2008240 @@ 241 :> 2013685 @@ 242 :> 2019144 @@ 243 :> 2024619 @@ 244 :> 2030108 @@ 245 :> 2035612 @@
  246 :> 2041131 @@ 247 :> 2046665 @@ 248 :> 2052214 @@ 249 :> 2057778 @@ 250 :> 2063358 @@ 251 :> 2068952 @@
  252 :> 2074562 @@ 253 :> 2080186 @@ 254 :> 2085826 @@ 255 :> 2091481 @@ 256 :> 2097152

\* SinT[i]: sin(2 pi i / 1024)
SinT ==
  0 :> 0 @@ 1 :> 6434 @@ 2 :> 12868 @@ 3 :> 19301 @@ 4 :> 25733 @@ 5 :> 32165 @@
  6 :> 38595 @@ 7 :> 45024 @@ 8 :> 51451 @@ 9 :> 57876 @@ 10 :> 64299 @@ 11 :> 70720 @@
  12 :> 77138 @@ 13 :> 83553 @@ 14 :> 89965 @@ 15 :> 96374 @@ 16 :> 102778 @@ 17 :> 109179 @@
  18 :> 115576 @@ 19 :> 121969 @@ 20 :> 128357 @@ 21 :> 134740 @@ 22 :> 141118 @@ 23 :> 147491 @@
  24 :> 153858 @@ 25 :> 160219 @@ 26 :> 166575 @@ 27 :> 172924 @@ 28 :> 179267 @@ 29 :> 185602 @@
  30 :> 191931 @@ 31 :> 198253 @@ 32 :> 204567 @@ 33 :> 210873 @@ 34 :> 217172 @@ 35 :> 223462 @@
  36 :> 229744 @@ 37 :> 236018 @@ 38 :> 242282 @@ 39 :> 248537 @@ 40 :> 254783 @@ 41 :> 261020 @@
  42 :> 267246 @@ 43 :> 273462 @@ 44 :> 279669 @@ 45 :> 285864 @@ 46 :> 292049 @@ 47 :> 298223 @@
  48 :> 304386 @@ 49 :> 310537 @@ 50 :> 316676 @@ 51 :> 322804 @@ 52 :> 328919 @@ 53 :> 335022 @@
  54 :> 341113 @@ 55 :> 347190 @@ 56 :> 353255 @@ 57 :> 359306 @@ 58 :> 365343 @@ 59 :> 371367 @@
  60 :> 377377 @@ 61 :> 383373 @@ 62 :> 389354 @@ 63 :> 395321 @@ 64 :> 401273 @@ 65 :> 407209 @@
  66 :> 413131 @@ 67 :> 419036 @@ 68 :> 424926 @@ 69 :> 430800 @@ 70 :> 436658 @@ 71 :> 442499 @@
  72 :> 448324 @@ 73 :> 454132 @@ 74 :> 459922 @@ 75 :> 465696 @@ 76 :> 471452 @@ 77 :> 477190 @@
  78 :> 482910 @@ 79 :> 488612 @@ 80 :> 494295 @@ 81 :> 499960 @@ 82 :> 505606 @@ 83 :> 511233 @@
  84 :> 516841 @@ 85 :> 522430 @@ 86 :> 527998 @@ 87 :> 533547 @@ 88 :> 539076 @@ 89 :> 544584 @@
  90 :> 550072 @@ 91 :> 555539 @@ 92 :> 560986 @@ 93 :> 566411 @@ 94 :> 571815 @@ 95 :> 577197 @@
  96 :> 582558 @@ 97 :> 587896 @@ 98 :> 593213 @@ 99 :> 598507 @@ 100 :> 603779 @@ 101 :> 609028 @@
  102 :> 614254 @@ 103 :> 619456 @@ 104 :> 624636 @@ 105 :> 629792 @@ 106 :> 634924 @@ 107 :> 640033 @@
  108 :> 645117 @@ 109 :> 650177 @@ 110 :> 655213 @@ 111 :> 660224 @@ 112 :> 665210 @@ 113 :> 670171 @@
  114 :> 675106 @@ 115 :> 680017 @@ 116 :> 684901 @@ 117 :> 689760 @@ 118 :> 694593 @@ 119 :> 699400 @@
  120 :> 704181 @@ 121 :> 708935 @@ 122 :> 713662 @@ 123 :> 718362 @@ 124 :> 723036 @@ 125 :> 727682 @@
  126 :> 732301 @@ 127 :> 736892 @@ 128 :> 741455 @@ 129 :> 745991 @@ 130 :> 750498 @@ 131 :> 754977 @@
  132 :> 759428 @@ 133 :> 763850 @@ 134 :> 768244 @@ 135 :> 772608 @@ 136 :> 776944 @@ 137 :> 781250 @@
  138 :> 785526 @@ 139 :> 789774 @@ 140 :> 793991 @@ 141 :> 798179 @@ 142 :> 802336 @@ 143 :> 806463 @@
  144 :> 810560 @@ 145 :> 814627 @@ 146 :> 818662 @@ 147 :> 822667 @@ 148 :> 826641 @@ 149 :> 830584 @@
  150 :> 834495 @@ 151 :> 838376 @@ 152 :> 842224 @@ 153 :> 846041 @@ 154 :> 849826 @@ 155 :> 853579 @@
  156 :> 857300 @@ 157 :> 860988 @@ 158 :> 864645 @@ 159 :> 868268 @@ 160 :> 871859 @@ 161 :> 875417 @@
  162 :> 878942 @@ 163 :> 882434 @@ 164 :> 885893 @@ 165 :> 889319 @@ 166 :> 892711 @@ 167 :> 896069 @@
  168 :> 899394 @@ 169 :> 902684 @@ 170 :> 905941 @@ 171 :> 909164 @@ 172 :> 912352 @@ 173 :> 915506 @@
  174 :> 918626 @@ 175 :> 921711 @@ 176 :> 924761 @@ 177 :> 927777 @@ 178 :> 930758 @@ 179 :> 933703 @@
  180 :> 936614 @@ 181 :> 939489 @@ 182 :> 942328 @@ 183 :> 945133 @@ 184 :> 947901 @@ 185 :> 950634 @@
  186 :> 953332 @@ 187 :> 955993 @@ 188 :> 958618 @@ 189 :> 961208 @@ 190 :> 963761 @@ 191 :> 966278 @@
  192 :> 968758 @@ 193 :> 971202 @@ 194 :> 973609 @@ 195 :> 975980 @@ 196 :> 978314 @@ 197 :> 980611 @@
  198 :> 982871 @@ 199 :> 985094 @@ 200 :> 987281 @@ 201 :> 989429 @@ 202 :> 991541 @@ 203 :> 993616 @@
  204 :> 995652 @@ 205 :> 997652 @@ 206 :> 999614 @@ 207 :> 1001538 @@ 208 :> 1003425 @@ 209 :> 1005273 @@
  210 :> 1007084 @@ 211 :> 1008857 @@ 212 :> 1010592 @@ 213 :> 1012289 @@ 214 :> 1013948 @@ 215 :> 1015569 @@
  216 :> 1017151 @@ 217 :> 1018696 @@ 218 :> 1020201 @@ 219 :> 1021669 @@ 220 :> 1023098 @@ 221 :> 1024488 @@
  222 :> 1025840 @@ 223 :> 1027153 @@ 224 :> 1028428 @@ 225 :> 1029664 @@ 226 :> 1030861 @@ 227 :> 1032019 @@
  228 :> 1033138 @@ 229 :> 1034219 @@ 230 :> 1035261 @@ 231 :> 1036263 @@ 232 :> 1037227 @@ 233 :> 1038151 @@
  234 :> 1039037 @@ 235 :> 1039883 @@ 236 :> 1040690 @@ 237 :> 1041458 @@ 238 :> 1042187 @@ 239 :> 1042877 @@
  240 :> 1043527 @@ 241 :> 1044138 @@ 242 :> 1044709 @@ 243 :> 1045242 @@ 244 :> 1045735 @@ 245 :> 1046188 @@
  246 :> 1046603 @@ 247 :> 1046978 @@ 248 :> 1047313 @@ 249 :> 1047609 @@ 250 :> 1047865 @@ 251 :> 1048083 @@
  252 :> 1048260 @@ 253 :> 1048398 @@ 254 :> 1048497 @@ 255 :> 1048556 @@ 256 :> 1048576 @@ 257 :> 1048556 @@
  258 :> 1048497 @@ 259 :> 1048398 @@ 260 :> 1048260 @@ 261 :> 1048083 @@ 262 :> 1047865 @@ 263 :> 1047609 @@
  264 :> 1047313 @@ 265 :> 1046978 @@ 266 :> 1046603 @@ 267 :> 1046188 @@ 268 :> 1045735 @@ 269 :> 1045242 @@
  270 :> 1044709 @@ 271 :> 1044138 @@ 272 :> 1043527 @@ 273 :> 1042877 @@ 274 :> 1042187 @@ 275 :> 1041458 @@
  276 :> 1040690 @@ 277 :> 1039883 @@ 278 :> 1039037 @@ 279 :> 1038151 @@ 280 :> 1037227 @@ 281 :> 1036263 @@
  282 :> 1035261 @@ 283 :> 1034219 @@ 284 :> 1033138 @@ 285 :> 1032019 @@ 286 :> 1030861 @@ 287 :> 1029664 @@
  288 :> 1028428 @@ 289 :> 1027153 @@ 290 :> 1025840 @@ 291 :> 1024488 @@ 292 :> 1023098 @@ 293 :> 1021669 @@
  294 :> 1020201 @@ 295 :> 1018696 @@ 296 :> 1017151 @@ 297 :> 1015569 @@ 298 :> 1013948 @@ 299 :> 1012289 @@
  300 :> 1010592 @@ 301 :> 1008857 @@ 302 :> 1007084 @@ 303 :> 1005273 @@ 304 :> 1003425 @@ 305 :> 1001538 @@
  306 :> 999614 @@ 307 :> 997652 @@ 308 :> 995652 @@ 309 :> 993616 @@ 310 :> 991541 @@ 311 :> 989429 @@
  312 :> 987281 @@ 313 :> 985094 @@ 314 :> 982871 @@ 315 :> 980611 @@ 316 :> 978314 @@ 317 :> 975980 @@
  318 :> 973609 @@ 319 :> 971202 @@ 320 :> 968758 @@ 321 :> 966278 @@ 322 :> 963761 @@ 323 :> 961208 @@
  324 :> 958618 @@ 325 :> 955993 @@ 326 :> 953332 @@ 327 :> 950634 @@ 328 :> 947901 @@ 329 :> 945133 @@
  330 :> 942328 @@ 331 :> 939489 @@ 332 :> 936614 @@ 333 :> 933703 @@ 334 :> 930758 @@ 335 :> 927777 @@
  336 :> 924761 @@ 337 :> 921711 @@ 338 :> 918626 @@ 339 :> 915506 @@ 340 :> 912352 @@ 341 :> 909164 @@
  342 :> 905941 @@ 343 :> 902684 @@ 344 :> 899394 @@ 345 :> 896069 @@ 346 :> 892711 @@ 347 :> 889319 @@
  348 :> 885893 @@ 349 :> 882434 @@ 350 :> 878942 @@ 351 :> 875417 @@ 352 :> 871859 @@ 353 :> 868268 @@
  354 :> 864645 @@ 355 :> 860988 @@ 356 :> 857300 @@ 357 :> 853579 @@ 358 :> 849826 @@ 359 :> 846041 @@
  360 :> 842224 @@ 361 :> 838376 @@ 362 :> 834495 @@ 363 :> 830584 @@ 364 :> 826641 @@ 365 :> 822667 @@
  366 :> 818662 @@ 367 :> 814627 @@ 368 :> 810560 @@ 369 :> 806463 @@ 370 :> 802336 @@ 371 :> 798179 @@
  372 :> 793991 @@ 373 :> 789774 @@ 374 :> 785526 @@ 375 :> 781250 @@ 376 :> 776944 @@ 377 :> 772608 @@
  378 :> 768244 @@ 379 :> 763850 @@ 380 :> 759428 @@ 381 :> 754977 @@ 382 :> 750498 @@ 383 :> 745991 @@
  384 :> 741455 @@ 385 :> 736892 @@ 386 :> 732301 @@ 387 :> 727682 @@ 388 :> 723036 @@ 389 :> 718362 @@
  390 :> 713662 @@ 391 :> 708935 @@ 392 :> 704181 @@ 393 :> 699400 @@ 394 :> 694593 @@ 395 :> 689760 @@
  396 :> 684901 @@ 397 :> 680017 @@ 398 :> 675106 @@ 399 :> 670171 @@ 400 :> 665210 @@ 401 :> 660224 @@
  402 :> 655213 @@ 403 :> 650177 @@ 404 :> 645117 @@ 405 :> 640033 @@ 406 :> 634924 @@ 407 :> 629792 @@
  408 :> 624636 @@ 409 :> 619456 @@ 410 :> 614254 @@ 411 :> 609028 @@ 412 :> 603779 @@ 413 :> 598507 @@
  414 :> 593213 @@ 415 :> 587896 @@ 416 :> 582558 @@ 417 :> 577197 @@ 418 :> 571815 @@ 419 :> 566411 @@
  420 :> 560986 @@ 421 :> 555539 @@ 422 :> 550072 @@ 423 :> 544584 @@ 424 :> 539076 @@ 425 :> 533547 @@
  426 :> 527998 @@ 427 :> 522430 @@ 428 :> 516841 @@ 429 :> 511233 @@ 430 :> 505606 @@ 431 :> 499960 @@
  432 :> 494295 @@ 433 :> 488612 @@ 434 :> 482910 @@ 435 :> 477190 @@ 436 :> 471452 @@ 437 :> 465696 @@
  438 :> 459922 @@ 439 :> 454132 @@ 440 :> 448324 @@ 441 :> 442499 @@ 442 :> 436658 @@ 443 :> 430800 @@
  444 :> 424926 @@ 445 :> 419036 @@ 446 :> 413131 @@ 447 :> 407209 @@ 448 :> 401273 @@ 449 :> 395321 @@
  450 :> 389354 @@ 451 :> 383373 @@ 452 :> 377377 @@ 453 :> 371367 @@ 454 :> 365343 @@ 455 :> 359306 @@
  456 :> 353255 @@ 457 :> 347190 @@ 458 :> 341113 @@ 459 :> 335022 @@ 460 :> 328919 @@ 461 :> 322804 @@
  462 :> 316676 @@ 463 :> 310537 @@ 464 :> 304386 @@ 465 :> 298223 @@ 466 :> 292049 @@ 467 :> 285864 @@
  468 :> 279669 @@ 469 :> 273462 @@ 470 :> 267246 @@ 471 :> 261020 @@ 472 :> 254783 @@ 473 :> 248537 @@
  474 :> 242282 @@ 475 :> 236018 @@ 476 :> 229744 @@ 477 :> 223462 @@ 478 :> 217172 @@ 479 :> 210873 @@
  480 :> 204567 @@ 481 :> 198253 @@ 482 :> 191931 @@ 483 :> 185602 @@ 484 :> 179267 @@ 485 :> 172924 @@
  486 :> 166575 @@ 487 :> 160219 @@ 488 :> 153858 @@ 489 :> 147491 @@ 490 :> 141118 @@ 491 :> 134740 @@
  492 :> 128357 @@ 493 :> 121969 @@ 494 :> 115576 @@ 495 :> 109179 @@ 496 :> 102778 @@ 497 :> 96374 @@
  498 :> 89965 @@ 499 :> 83553 @@ 500 :> 77138 @@ 501 :> 70720 @@ 502 :> 64299 @@ 503 :> 57876 @@
  504 :> 51451 @@ 505 :> 45024 @@ 506 :> 38595 @@ 507 :> 32165 @@ 508 :> 25733 @@ 509 :> 19301 @@
  510 :> 12868 @@ 511 :> 6434 @@ 512 :> 0 @@ 513 :> -6434 @@ 514 :> -12868 @@ 515 :> -19301 @@
  516 :> -25733 @@ 517 :> -32165 @@ 518 :> -38595 @@ 519 :> -45024 @@ 520 :> -51451 @@ 521 :> -57876 @@
  522 :> -64299 @@ 523 :> -70720 @@ 524 :> -77138 @@ 525 :> -83553 @@ 526 :> -89965 @@ 527 :> -96374 @@
  528 :> -102778 @@ 529 :> -109179 @@ 530 :> -115576 @@ 531 :> -121969 @@ 532 :> -128357 @@ 533 :> -134740 @@
  534 :> -141118 @@ 535 :> -147491 @@ 536 :> -153858 @@ 537 :> -160219 @@ 538 :> -166575 @@ 539 :> -172924 @@
  540 :> -179267 @@ 541 :> -185602 @@ 542 :> -191931 @@ 543 :> -198253 @@ 544 :> -204567 @@ 545 :> -210873 @@
  546 :> -217172 @@ 547 :> -223462 @@ 548 :> -229744 @@ 549 :> -236018 @@ 550 :> -242282 @@ 551 :> -248537 @@
  552 :> -254783 @@ 553 :> -261020 @@ 554 :> -267246 @@ 555 :> -273462 @@ 556 :> -279669 @@ 557 :> -285864 @@
  558 :> -292049 @@ 559 :> -298223 @@ 560 :> -304386 @@ 561 :> -310537 @@ 562 :> -316676 @@ 563 :> -322804 @@
  564 :> -328919 @@ 565 :> -335022 @@ 566 :> -341113 @@ 567 :> -347190 @@ 568 :> -353255 @@ 569 :> -359306 @@
  570 :> -365343 @@ 571 :> -371367 @@ 572 :> -377377 @@ 573 :> -383373 @@ 574 :> -389354 @@ 575 :> -395321 @@
  576 :> -401273 @@ 577 :> -407209 @@ 578 :> -413131 @@ 579 :> -419036 @@ 580 :> -424926 @@ 581 :> -430800 @@
  582 :> -436658 @@ 583 :> -442499 @@ 584 :> -448324 @@ 585 :> -454132 @@ 586 :> -459922 @@ 587 :> -465696 @@
  588 :> -471452 @@ 589 :> -477190 @@ 590 :> -482910 @@ 591 :> -488612 @@ 592 :> -494295 @@ 593 :> -499960 @@
  594 :> -505606 @@ 595 :> -511233 @@ 596 :> -516841 @@ 597 :> -522430 @@ 598 :> -527998 @@ 599 :> -533547 @@
  600 :> -539076 @@ 601 :> -544584 @@ 602 :> -550072 @@ 603 :> -555539 @@ 604 :> -560986 @@ 605 :> -566411 @@
  606 :> -571815 @@ 607 :> -577197 @@ 608 :> -582558 @@ 609 :> -587896 @@ 610 :> -593213 @@ 611 :> -598507 @@
  612 :> -603779 @@ 613 :> -609028 @@ 614 :> -614254 @@ 615 :> -619456 @@ 616 :> -624636 @@ 617 :> -629792 @@
  618 :> -634924 @@ 619 :> -640033 @@ 620 :> -645117 @@ 621 :> -650177 @@ 622 :> -655213 @@ 623 :> -660224 @@
  624 :> -665210 @@ 625 :> -670171 @@ 626 :> -675106 @@ 627 :> -680017 @@ 628 :> -684901 @@ 629 :> -689760 @@
  630 :> -694593 @@ 631 :> -699400 @@ 632 :> -704181 @@ 633 :> -708935 @@ 634 :> -713662 @@ 635 :> -718362 @@
  636 :> -723036 @@ 637 :> -727682 @@ 638 :> -732301 @@ 639 :> -736892 @@ 640 :> -741455 @@ 641 :> -745991 @@
  642 :> -750498 @@ 643 :> -754977 @@ 644 :> -759428 @@ 645 :> -763850 @@ 646 :> -768244 @@ 647 :> -772608 @@
  648 :> -776944 @@ 649 :> -781250 @@ 650 :> -785526 @@ 651 :> -789774 @@ 652 :> -793991 @@ 653 :> -798179 @@
  654 :> -802336 @@ 655 :> -806463 @@ 656 :> -810560 @@ 657 :> -814627 @@ 658 :> -818662 @@ 659 :> -822667 @@
  660 :> -826641 @@ 661 :> -830584 @@ 662 :> -834495 @@ 663 :> -838376 @@ 664 :> -842224 @@ 665 :> -846041 @@
  666 :> -849826 @@ 667 :> -853579 @@ 668 :> -857300 @@ 669 :> -860988 @@ 670 :> -864645 @@ 671 :> -868268 @@
  672 :> -871859 @@ 673 :> -875417 @@ 674 :> -878942 @@ 675 :> -882434 @@ 676 :> -885893 @@ 677 :> -889319 @@
  678 :> -892711 @@ 679 :> -896069 @@ 680 :> -899394 @@ 681 :> -902684 @@ 682 :> -905941 @@ 683 :> -909164 @@
  684 :> -912352 @@ 685 :> -915506 @@ 686 :> -918626 @@ 687 :> -921711 @@ 688 :> -924761 @@ 689 :> -927777 @@
  690 :> -930758 @@ 691 :> -933703 @@ 692 :> -936614 @@ 693 :> -939489 @@ 694 :> -942328 @@ 695 :> -945133 @@
  696 :> -947901 @@ 697 :> -950634 @@ 698 :> -953332 @@ 699 :> -955993 @@ 700 :> -958618 @@ 701 :> -961208 @@
  702 :> -963761 @@ 703 :> -966278 @@ 704 :> -968758 @@ 705 :> -971202 @@ 706 :> -973609 @@ 707 :> -975980 @@
  708 :> -978314 @@ 709 :> -980611 @@ 710 :> -982871 @@ 711 :> -985094 @@ 712 :> -987281 @@ 713 :> -989429 @@
  714 :> -991541 @@ 715 :> -993616 @@ 716 :> -995652 @@ 717 :> -997652 @@ 718 :> -999614 @@ 719 :> -1001538 @@
  720 :> -1003425 @@ 721 :> -1005273 @@ 722 :> -1007084 @@ 723 :> -1008857 @@ 724 :> -1010592 @@ 725 :> -1012289 @@
  726 :> -1013948 @@ 727 :> -1015569 @@ 728 :> -1017151 @@ 729 :> -1018696 @@ 730 :> -1020201 @@ 731 :> -1021669 @@
  732 :> -1023098 @@ 733 :> -1024488 @@ 734 :> -1025840 @@ 735 :> -1027153 @@ 736 :> -1028428 @@ 737 :> -1029664 @@
  738 :> -1030861 @@ 739 :> -1032019 @@ 740 :> -1033138 @@ 741 :> -1034219 @@ 742 :> -1035261 @@ 743 :> -1036263 @@
  744 :> -1037227 @@ 745 :> -1038151 @@ 746 :> -1039037 @@ 747 :> -1039883 @@ 748 :> -1040690 @@ 749 :> -1041458 @@
  750 :> -1042187 @@ 751 :> -1042877 @@ 752 :> -1043527 @@ 753 :> -1044138 @@ 754 :> -1044709 @@ 755 :> -1045242 @@
  756 :> -1045735 @@ 757 :> -1046188 @@ 758 :> -1046603 @@ 759 :> -1046978 @@ 760 :> -1047313 @@ 761 :> -1047609 @@
  762 :> -1047865 @@ 763 :> -1048083 @@ 764 :> -1048260 @@ 765 :> -1048398 @@ 766 :> -1048497 @@ 767 :> -1048556 @@
  768 :> -1048576 @@ 769 :> -1048556 @@ 770 :> -1048497 @@ 771 :> -1048398 @@ 772 :> -1048260 @@ 773 :> -1048083 @@
  774 :> -1047865 @@ 775 :> -1047609 @@ 776 :> -1047313 @@ 777 :> -1046978 @@ 778 :> -1046603 @@ 779 :> -1046188 @@
  780 :> -1045735 @@ 781 :> -1045242 @@ 782 :> -1044709 @@ 783 :> -1044138 @@ 784 :> -1043527 @@ 785 :> -1042877 @@
  786 :> -1042187 @@ 787 :> -1041458 @@ 788 :> -1040690 @@ 789 :> -1039883 @@ 790 :> -1039037 @@ 791 :> -1038151 @@
  792 :> -1037227 @@ 793 :> -1036263 @@ 794 :> -1035261 @@ 795 :> -1034219 @@ 796 :> -1033138 @@ 797 :> -1032019 @@
  798 :> -1030861 @@ 799 :> -1029664 @@ 800 :> -1028428 @@ 801 :> -1027153 @@ 802 :> -1025840 @@ 803 :> -1024488 @@
  804 :> -1023098 @@ 805 :> -1021669 @@ 806 :> -1020201 @@ 807 :> -1018696 @@ 808 :> -1017151 @@ 809 :> -1015569 @@
  810 :> -1013948 @@ 811 :> -1012289 @@ 812 :> -1010592 @@ 813 :> -1008857 @@ 814 :> -1007084 @@ 815 :> -1005273 @@
  816 :> -1003425 @@ 817 :> -1001538 @@ 818 :> -999614 @@ 819 :> -997652 @@ 820 :> -995652 @@ 821 :> -993616 @@
  822 :> -991541 @@ 823 :> -989429 @@ 824 :> -987281 @@ 825 :> -985094 @@ 826 :> -982871 @@ 827 :> -980611 @@
  828 :> -978314 @@ 829 :> -975980 @@ 830 :> -973609 @@ 831 :> -971202 @@ 832 :> -968758 @@ 833 :> -966278 @@
  834 :> -963761 @@ 835 :> -961208 @@ 836 :> -958618 @@ 837 :> -955993 @@ 838 :> -953332 @@ 839 :> -950634 @@
  840 :> -947901 @@ 841 :> -945133 @@ 842 :> -942328 @@ 843 :> -939489 @@ 844 :> -936614 @@ 845 :> -933703 @@
  846 :> -930758 @@ 847 :> -927777 @@ 848 :> -924761 @@ 849 :> -921711 @@ 850 :> -918626 @@ 851 :> -915506 @@
  852 :> -912352 @@ 853 :> -909164 @@ 854 :> -905941 @@ 855 :> -902684 @@ 856 :> -899394 @@ 857 :> -896069 @@
  858 :> -892711 @@ 859 :> -889319 @@ 860 :> -885893 @@ 861 :> -882434 @@ 862 :> -878942 @@ 863 :> -875417 @@
  864 :> -871859 @@ 865 :> -868268 @@ 866 :> -864645 @@ 867 :> -860988 @@ 868 :> -857300 @@ 869 :> -853579 @@
  870 :> -849826 @@ 871 :> -846041 @@ 872 :> -842224 @@ 873 :> -838376 @@ 874 :> -834495 @@ 875 :> -830584 @@
  876 :> -826641 @@ 877 :> -822667 @@ 878 :> -818662 @@ 879 :> -814627 @@ 880 :> -810560 @@ 881 :> -806463 @@
  882 :> -802336 @@ 883 :> -798179 @@ 884 :> -793991 @@ 885 :> -789774 @@ 886 :> -785526 @@ 887 :> -781250 @@
  888 :> -776944 @@ 889 :> -772608 @@ 890 :> -768244 @@ 891 :> -763850 @@ 892 :> -759428 @@ 893 :> -754977 @@
  894 :> -750498 @@ 895 :> -745991 @@ 896 :> -741455 @@ 897 :> -736892 @@ 898 :> -732301 @@ 899 :> -727682 @@
  900 :> -723036 @@ 901 :> -718362 @@ 902 :> -713662 @@ 903 :> -708935 @@ 904 :> -704181 @@ 905 :> -699400 @@
  906 :> -694593 @@ 907 :> -689760 @@ 908 :> -684901 @@ 909 :> -680017 @@ 910 :> -675106 @@ 911 :> -670171 @@
  912 :> -665210 @@ 913 :> -660224 @@ 914 :> -655213 @@ 915 :> -650177 @@ 916 :> -645117 @@ 917 :> -640033 @@
  918 :> -634924 @@ 919 :> -629792 @@ 920 :> -624636 @@ 921 :> -619456 @@ 922 :> -614254 @@ 923 :> -609028 @@
  924 :> -603779 @@ 925 :> -598507 @@ 926 :> -593213 @@ 927 :> -587896 @@ 928 :> -582558 @@ 929 :> -577197 @@
  930 :> -571815 @@ 931 :> -566411 @@ 932 :> -560986 @@ 933 :> -555539 @@ 934 :> -550072 @@ 935 :> -544584 @@
  936 :> -539076 @@ 937 :> -533547 @@ 938 :> -527998 @@ 939 :> -522430 @@ 940 :> -516841 @@ 941 :> -511233 @@
  942 :> -505606 @@ 943 :> -499960 @@ 944 :> -494295 @@ 945 :> -488612 @@ 946 :> -482910 @@ 947 :> -477190 @@
  948 :> -471452 @@ 949 :> -465696 @@ 950 :> -459922 @@ 951 :> -454132 @@ 952 :> -448324 @@ 953 :> -442499 @@
  954 :> -436658 @@ 955 :> -430800 @@ 956 :> -424926 @@ 957 :> -419036 @@ 958 :> -413131 @@ 959 :> -407209 @@
  960 :> -401273 @@ 961 :> -395321 @@ 962 :> -389354 @@ 963 :> -383373 @@ 964 :> -377377 @@ 965 :> -371367 @@
  966 :> -365343 @@ 967 :> -359306 @@ 968 :> -353255 @@ 969 :> -347190 @@ 970 :> -341113 @@ 971 :> -335022 @@
  972 :> -328919 @@ 973 :> -322804 @@ 974 :> -316676 @@ 975 :> -310537 @@ 976 :> -304386 @@ 977 :> -298223 @@
  978 :> -292049 @@ 979 :> -285864 @@ 980 :> -279669 @@ 981 :> -273462 @@ 982 :> -267246 @@ 983 :> -261020 @@
  984 :> -254783 @@ 985 :> -248537 @@ 986 :> -242282 @@ 987 :> -236018 @@ 988 :> -229744 @@ 989 :> -223462 @@
  990 :> -217172 @@ 991 :> -210873 @@ 992 :> -204567 @@ 993 :> -198253 @@ 994 :> -191931 @@ 995 :> -185602 @@
  996 :> -179267 @@ 997 :> -172924 @@ 998 :> -166575 @@ 999 :> -160219 @@ 1000 :> -153858 @@ 1001 :> -147491 @@
  1002 :> -141118 @@ 1003 :> -134740 @@ 1004 :> -128357 @@ 1005 :> -121969 @@ 1006 :> -115576 @@ 1007 :> -109179 @@
  1008 :> -102778 @@ 1009 :> -96374 @@ 1010 :> -89965 @@ 1011 :> -83553 @@ 1012 :> -77138 @@ 1013 :> -70720 @@
  1014 :> -64299 @@ 1015 :> -57876 @@ 1016 :> -51451 @@ 1017 :> -45024 @@ 1018 :> -38595 @@ 1019 :> -32165 @@
  1020 :> -25733 @@ 1021 :> -19301 @@ 1022 :> -12868 @@ 1023 :> -6434 @@ 1024 :> 0

\* frequencies 1..11: 100 Hz at 8000 Hz, 1000 Hz at 8000 Hz, 2000 Hz at 8000 Hz, 3500 Hz at 8000 Hz, 440 Hz at 44100 Hz, 5000 Hz at 44100 Hz, 200 Hz at 48000 Hz, 1000 Hz at 48000 Hz, 8000 Hz at 48000 Hz, 12000 Hz at 48000 Hz, 20000 Hz at 48000 Hz
\* SinW[i]: sin(2 pi f / sr)
SinW ==
  1 :> 82270 @@ 2 :> 741455 @@ 3 :> 1048576 @@ 4 :> 401273 @@ 5 :> 65692 @@ 6 :> 685387 @@
  7 :> 27449 @@ 8 :> 136867 @@ 9 :> 908093 @@ 10 :> 1048576 @@ 11 :> 524288

\* CosW[i]: cos(2 pi f / sr)
CosW ==
  1 :> 1045344 @@ 2 :> 741455 @@ 3 :> 0 @@ 4 :> -968758 @@ 5 :> 1046516 @@ 6 :> 793572 @@
  7 :> 1048217 @@ 8 :> 1039605 @@ 9 :> 524288 @@ 10 :> 0 @@ 11 :> -908093

\* TanW[i]: tan(pi f / sr)
TanW ==
  1 :> 41199 @@ 2 :> 434334 @@ 3 :> 1048576 @@ 4 :> 5271548 @@ 5 :> 32878 @@ 6 :> 390132 @@
  7 :> 13727 @@ 8 :> 68727 @@ 9 :> 605396 @@ 10 :> 1048576 @@ 11 :> 3913339

\* DcR[10 sr + f]: 1 - 2 pi f / sr
DcR ==
  80001 :> 1047752 @@ 80005 :> 1044458 @@ 80010 :> 1040341 @@ 80020 :> 1032105 @@ 80050 :> 1007399 @@ 80100 :> 966221 @@
  80400 :> 719156 @@ 441001 :> 1048427 @@ 441005 :> 1047829 @@ 441010 :> 1047082 @@ 441020 :> 1045588 @@ 441050 :> 1041106 @@
  441100 :> 1033636 @@ 441400 :> 988817 @@ 480001 :> 1048439 @@ 480005 :> 1047890 @@ 480010 :> 1047203 @@ 480020 :> 1045831 @@
  480050 :> 1041713 @@ 480100 :> 1034850 @@ 480400 :> 993673

\* TanhT[i + 1]: tanh(i/256)
TanhT == <<
  0, 4096, 8192, 12287, 16383, 20477, 24572, 28665, 32757, 36849, 40939, 45028,
  49116, 53202, 57287, 61370, 65451, 69530, 73607, 77681, 81754, 85824, 89891, 93955,
  98017, 102076, 106131, 110184, 114233, 118278, 122321, 126359, 130394, 134424, 138451, 142473,
  146492, 150505, 154515, 158520, 162520, 166515, 170505, 174490, 178470, 182445, 186414, 190378,
  194336, 198288, 202235, 206176, 210110, 214039, 217961, 221877, 225786, 229689, 233585, 237474,
  241357, 245232, 249101, 252962, 256816, 260662, 264502, 268333, 272157, 275973, 279782, 283582,
  287374, 291159, 294935, 298703, 302462, 306213, 309955, 313689, 317414, 321130, 324838, 328536,
  332226, 335906, 339577, 343239, 346891, 350534, 354168, 357791, 361406, 365010, 368605, 372190,
  375765, 379330, 382885, 386430, 389964, 393489, 397003, 400506, 404000, 407482, 410954, 414416,
  417867, 421307, 424736, 428155, 431562, 434959, 438345, 441720, 445083, 448436, 451777, 455107,
  458426, 461733, 465029, 468314, 471587, 474849, 478099, 481338, 484565, 487780, 490984, 494176,
  497357, 500525, 503682, 506827, 509960, 513082, 516191, 519288, 522374, 525447, 528509, 531558,
  534595, 537621, 540634, 543635, 546624, 549601, 552566, 555518, 558458, 561386, 564302, 567206,
  570097, 572976, 575843, 578698, 581540, 584370, 587188, 589993, 592786, 595567, 598335, 601092,
  603835, 606567, 609286, 611993, 614688, 617370, 620040, 622698, 625343, 627976, 630597, 633205,
  635802, 638385, 640957, 643517, 646064, 648599, 651121, 653632, 656130, 658616, 661090, 663552,
  666002, 668440, 670865, 673278, 675680, 678069, 680446, 682811, 685164, 687505, 689835, 692152,
  694457, 696751, 699032, 701302, 703560, 705806, 708040, 710263, 712474, 714673, 716860, 719036,
  721200, 723353, 725494, 727623, 729741, 731848, 733943, 736026, 738099, 740159, 742209, 744247,
  746274, 748290, 750294, 752287, 754270, 756241, 758201, 760150, 762087, 764014, 765930, 767836,
  769730, 771613, 773486, 775348, 777199, 779039, 780869, 782688, 784497, 786295, 788082, 789860,
  791626, 793382, 795128, 796864, 798589, 800304, 802009, 803704, 805389, 807063, 808728, 810382,
  812027, 813662, 815286, 816901, 818506, 820102, 821687, 823263, 824830, 826386, 827934, 829471,
  830999, 832518, 834027, 835527, 837018, 838500, 839972, 841435, 842889, 844334, 845769, 847196,
  848614, 850022, 851422, 852813, 854196, 855569, 856934, 858290, 859637, 860976, 862306, 863628,
  864941, 866246, 867543, 868831, 870110, 871382, 872645, 873900, 875147, 876386, 877617, 878839,
  880054, 881261, 882460, 883651, 884834, 886010, 887177, 888337, 889490, 890635, 891772, 892902,
  894024, 895138, 896246, 897346, 898438, 899524, 900602, 901673, 902736, 903793, 904842, 905885,
  906920, 907949, 908970, 909985, 910993, 911994, 912988, 913975, 914956, 915930, 916897, 917858,
  918813, 919760, 920702, 921637, 922565, 923487, 924403, 925313, 926216, 927113, 928004, 928889,
  929767, 930640, 931506, 932367, 933222, 934070, 934913, 935750, 936581, 937406, 938226, 939040,
  939848, 940651, 941448, 942239, 943025, 943805, 944580, 945350, 946114, 946873, 947626, 948374,
  949117, 949854, 950587, 951314, 952036, 952753, 953465, 954172, 954873, 955570, 956262, 956949,
  957631, 958309, 958981, 959649, 960312, 960970, 961623, 962272, 962916, 963556, 964191, 964821,
  965447, 966069, 966686, 967298, 967907, 968510, 969110, 969705, 970296, 970882, 971465, 972043,
  972617, 973187, 973753, 974314, 974872, 975425, 975975, 976521, 977062, 977600, 978134, 978664,
  979190, 979712, 980230, 980745, 981256, 981763, 982267, 982766, 983263, 983755, 984244, 984730,
  985211, 985690, 986165, 986636, 987104, 987568, 988029, 988487, 988941, 989392, 989840, 990284,
  990725, 991163, 991598, 992029, 992458, 992883, 993305, 993724, 994139, 994552, 994962, 995369,
  995772, 996173, 996570, 996965, 997357, 997746, 998132, 998515, 998896, 999273, 999648, 1000020,
  1000389, 1000755, 1001119, 1001480, 1001838, 1002194, 1002547, 1002898, 1003245, 1003591, 1003933, 1004273,
  1004611, 1004946, 1005278, 1005608, 1005936, 1006261, 1006584, 1006904, 1007222, 1007538, 1007851, 1008161,
  1008470, 1008776, 1009080, 1009382, 1009681, 1009978, 1010273, 1010566, 1010856, 1011144, 1011431, 1011715,
  1011996, 1012276, 1012554, 1012829, 1013103, 1013374, 1013644, 1013911, 1014176, 1014440, 1014701, 1014960,
  1015218, 1015473, 1015727, 1015979, 1016228, 1016476, 1016722, 1016966, 1017209, 1017449, 1017688, 1017925,
  1018160, 1018393, 1018625, 1018854, 1019082, 1019309, 1019533, 1019756, 1019977, 1020197, 1020415, 1020631,
  1020846, 1021059, 1021270, 1021480, 1021688, 1021895, 1022100, 1022303, 1022505, 1022705, 1022904, 1023102,
  1023297, 1023492, 1023685, 1023876, 1024066, 1024255, 1024442, 1024627, 1024812, 1024994, 1025176, 1025356,
  1025535, 1025712, 1025888, 1026063, 1026236, 1026408, 1026579, 1026748, 1026916, 1027083, 1027249, 1027413,
  1027576, 1027738, 1027898, 1028058, 1028216, 1028373, 1028528, 1028683, 1028836, 1028989, 1029140, 1029289,
  1029438, 1029586, 1029732, 1029878, 1030022, 1030165, 1030307, 1030448, 1030588, 1030727, 1030864, 1031001,
  1031137, 1031271, 1031405, 1031537, 1031669, 1031799, 1031929, 1032057, 1032185, 1032311, 1032437, 1032562,
  1032685, 1032808, 1032930, 1033051, 1033171, 1033290, 1033408, 1033525, 1033641, 1033757, 1033871, 1033985,
  1034098, 1034210, 1034321, 1034431, 1034540, 1034649, 1034756, 1034863, 1034969, 1035074, 1035179, 1035282,
  1035385, 1035487, 1035588, 1035689, 1035788, 1035887, 1035986, 1036083, 1036180, 1036275, 1036371, 1036465,
  1036559, 1036652, 1036744, 1036836, 1036926, 1037017, 1037106, 1037195, 1037283, 1037370, 1037457, 1037543,
  1037629, 1037713, 1037797, 1037881, 1037964, 1038046, 1038127, 1038208, 1038289, 1038368, 1038447, 1038526,
  1038604, 1038681, 1038758, 1038834, 1038909, 1038984, 1039058, 1039132, 1039205, 1039278, 1039350, 1039421,
  1039492, 1039563, 1039632, 1039702, 1039770, 1039839, 1039906, 1039974, 1040040, 1040106, 1040172, 1040237,
  1040302, 1040366, 1040430, 1040493, 1040555, 1040618, 1040679, 1040741, 1040801, 1040862, 1040921, 1040981,
  1041040, 1041098, 1041156, 1041214, 1041271, 1041327, 1041384, 1041439, 1041495, 1041550, 1041604, 1041658,
  1041712, 1041765, 1041818, 1041870, 1041922, 1041974, 1042025, 1042076, 1042126, 1042177, 1042226, 1042275,
  1042324, 1042373, 1042421, 1042469, 1042516, 1042563, 1042610, 1042656, 1042702, 1042748, 1042793, 1042838,
  1042882, 1042926, 1042970, 1043014, 1043057, 1043100, 1043142, 1043184, 1043226, 1043268, 1043309, 1043350,
  1043391, 1043431, 1043471, 1043510, 1043550, 1043589, 1043627, 1043666, 1043704, 1043742, 1043779, 1043817,
  1043854, 1043890, 1043927, 1043963, 1043999, 1044034, 1044069, 1044104, 1044139, 1044174, 1044208, 1044242,
  1044275, 1044309, 1044342, 1044375, 1044407, 1044440, 1044472, 1044504, 1044535, 1044567, 1044598, 1044629,
  1044659, 1044690, 1044720, 1044750, 1044780, 1044809, 1044838, 1044867, 1044896, 1044925, 1044953, 1044981,
  1045009, 1045037, 1045065, 1045092, 1045119, 1045146, 1045172, 1045199, 1045225, 1045251, 1045277, 1045303,
  1045328, 1045353, 1045378, 1045403, 1045428, 1045452, 1045477, 1045501, 1045525, 1045548, 1045572, 1045595,
  1045618, 1045641, 1045664, 1045687, 1045709, 1045731, 1045754, 1045775, 1045797, 1045819, 1045840, 1045862,
  1045883, 1045904, 1045924, 1045945, 1045965, 1045986, 1046006, 1046026, 1046046, 1046065, 1046085, 1046104,
  1046123, 1046142, 1046161, 1046180, 1046199, 1046217, 1046236, 1046254, 1046272, 1046290, 1046307, 1046325,
  1046343, 1046360, 1046377, 1046394, 1046411, 1046428, 1046445, 1046461, 1046478, 1046494, 1046510, 1046526,
  1046542, 1046558, 1046574, 1046589, 1046605, 1046620, 1046635, 1046650, 1046665, 1046680, 1046695, 1046710,
  1046724, 1046739, 1046753, 1046767, 1046781, 1046795, 1046809, 1046823, 1046836, 1046850, 1046863, 1046876,
  1046890, 1046903, 1046916, 1046929, 1046942, 1046954, 1046967, 1046979, 1046992, 1047004, 1047016, 1047028,
  1047041, 1047052, 1047064, 1047076, 1047088, 1047099, 1047111, 1047122, 1047133, 1047145, 1047156, 1047167,
  1047178, 1047189, 1047199, 1047210, 1047221, 1047231, 1047242, 1047252, 1047262, 1047273, 1047283, 1047293,
  1047303, 1047313, 1047323, 1047332, 1047342, 1047352, 1047361, 1047371, 1047380, 1047389, 1047398, 1047408,
  1047417, 1047426, 1047435, 1047444, 1047452, 1047461, 1047470, 1047478, 1047487, 1047495, 1047504, 1047512,
  1047520, 1047529, 1047537, 1047545, 1047553, 1047561, 1047569, 1047577, 1047584, 1047592, 1047600, 1047607,
  1047615, 1047622, 1047630, 1047637, 1047644, 1047652, 1047659, 1047666, 1047673, 1047680, 1047687, 1047694,
  1047701, 1047708, 1047714, 1047721, 1047728, 1047734, 1047741, 1047747, 1047754, 1047760, 1047767, 1047773,
  1047779, 1047785, 1047791, 1047798, 1047804, 1047810, 1047816, 1047822, 1047827, 1047833, 1047839, 1047845,
  1047850, 1047856, 1047862, 1047867, 1047873, 1047878, 1047884, 1047889, 1047894, 1047900, 1047905, 1047910,
  1047915, 1047920, 1047926, 1047931, 1047936, 1047941, 1047946, 1047950, 1047955, 1047960, 1047965, 1047970,
  1047974, 1047979, 1047984, 1047988, 1047993, 1047997, 1048002, 1048006, 1048011, 1048015, 1048020, 1048024,
  1048028, 1048033, 1048037, 1048041, 1048045, 1048049, 1048053, 1048057, 1048061, 1048065, 1048069, 1048073,
  1048077, 1048081, 1048085, 1048089, 1048093, 1048096, 1048100, 1048104, 1048107, 1048111, 1048115, 1048118,
  1048122, 1048125, 1048129, 1048132, 1048136, 1048139, 1048143, 1048146, 1048149, 1048153, 1048156, 1048159,
  1048163, 1048166, 1048169, 1048172, 1048175, 1048178, 1048181, 1048185, 1048188, 1048191, 1048194, 1048197,
  1048200, 1048202, 1048205, 1048208, 1048211, 1048214, 1048217, 1048220, 1048222, 1048225, 1048228, 1048231,
  1048233, 1048236, 1048239, 1048241, 1048244, 1048246, 1048249, 1048251, 1048254, 1048256, 1048259, 1048261,
  1048264, 1048266, 1048269, 1048271, 1048273, 1048276, 1048278, 1048280, 1048283, 1048285, 1048287, 1048290,
  1048292, 1048294, 1048296, 1048298, 1048301, 1048303, 1048305, 1048307, 1048309, 1048311, 1048313, 1048315,
  1048317, 1048319, 1048321, 1048323, 1048325, 1048327, 1048329, 1048331, 1048333, 1048335, 1048337, 1048339,
  1048340, 1048342, 1048344, 1048346, 1048348, 1048349, 1048351, 1048353, 1048355, 1048356, 1048358, 1048360,
  1048361, 1048363, 1048365, 1048366, 1048368, 1048370, 1048371, 1048373, 1048374, 1048376, 1048378, 1048379,
  1048381, 1048382, 1048384, 1048385, 1048387, 1048388, 1048390, 1048391, 1048392, 1048394, 1048395, 1048397,
  1048398, 1048400, 1048401, 1048402, 1048404, 1048405, 1048406, 1048408, 1048409, 1048410, 1048412, 1048413,
  1048414, 1048415, 1048417, 1048418, 1048419, 1048420, 1048421, 1048423, 1048424, 1048425, 1048426, 1048427,
  1048429, 1048430, 1048431, 1048432, 1048433, 1048434, 1048435, 1048436, 1048437, 1048439, 1048440, 1048441,
  1048442, 1048443, 1048444, 1048445, 1048446, 1048447, 1048448, 1048449, 1048450, 1048451, 1048452, 1048453,
  1048454, 1048455, 1048456, 1048457, 1048458, 1048458, 1048459, 1048460, 1048461, 1048462, 1048463, 1048464,
  1048465, 1048466, 1048466, 1048467, 1048468, 1048469, 1048470, 1048471, 1048471, 1048472, 1048473, 1048474,
  1048475, 1048475, 1048476, 1048477, 1048478, 1048479, 1048479, 1048480, 1048481, 1048482, 1048482, 1048483,
  1048484, 1048484, 1048485, 1048486, 1048487, 1048487, 1048488, 1048489, 1048489, 1048490, 1048491, 1048491,
  1048492, 1048493, 1048493, 1048494, 1048495, 1048495, 1048496, 1048496, 1048497, 1048498, 1048498, 1048499,
  1048499, 1048500, 1048501, 1048501, 1048502, 1048502, 1048503, 1048504, 1048504, 1048505, 1048505, 1048506,
  1048506, 1048507, 1048507, 1048508, 1048508, 1048509, 1048510, 1048510, 1048511, 1048511, 1048512, 1048512,
  1048513, 1048513, 1048514, 1048514, 1048515, 1048515, 1048515, 1048516, 1048516, 1048517, 1048517, 1048518,
  1048518, 1048519, 1048519, 1048520, 1048520, 1048520, 1048521, 1048521, 1048522, 1048522, 1048523, 1048523,
  1048523, 1048524, 1048524, 1048525, 1048525, 1048525, 1048526, 1048526, 1048527, 1048527, 1048527, 1048528,
  1048528, 1048528, 1048529, 1048529, 1048530, 1048530, 1048530, 1048531, 1048531, 1048531, 1048532, 1048532,
  1048532, 1048533, 1048533, 1048533, 1048534, 1048534, 1048534, 1048535, 1048535, 1048535, 1048536, 1048536,
  1048536, 1048537, 1048537, 1048537, 1048538, 1048538, 1048538, 1048538, 1048539, 1048539, 1048539, 1048540,
  1048540, 1048540, 1048540, 1048541, 1048541, 1048541, 1048542, 1048542, 1048542, 1048542, 1048543, 1048543,
  1048543, 1048543, 1048544, 1048544, 1048544, 1048544, 1048545, 1048545, 1048545, 1048545, 1048546, 1048546,
  1048546, 1048546, 1048547, 1048547, 1048547, 1048547, 1048547, 1048548, 1048548, 1048548, 1048548, 1048549,
  1048549, 1048549, 1048549, 1048549, 1048550, 1048550, 1048550, 1048550, 1048550, 1048551, 1048551, 1048551,
  1048551, 1048551, 1048552, 1048552, 1048552, 1048552, 1048552, 1048552, 1048553, 1048553, 1048553, 1048553,
  1048553, 1048554, 1048554, 1048554, 1048554, 1048554, 1048554, 1048555, 1048555, 1048555, 1048555, 1048555,
  1048555, 1048556, 1048556, 1048556, 1048556, 1048556, 1048556, 1048557, 1048557, 1048557, 1048557, 1048557,
  1048557, 1048557, 1048558, 1048558, 1048558, 1048558, 1048558, 1048558, 1048558, 1048559, 1048559, 1048559,
  1048559, 1048559, 1048559, 1048559, 1048559, 1048560, 1048560, 1048560, 1048560, 1048560, 1048560, 1048560,
  1048560, 1048561, 1048561, 1048561, 1048561, 1048561, 1048561, 1048561, 1048561, 1048562, 1048562, 1048562,
  1048562, 1048562, 1048562, 1048562, 1048562, 1048562, 1048562, 1048563, 1048563, 1048563, 1048563, 1048563,
  1048563, 1048563, 1048563, 1048563, 1048564, 1048564, 1048564, 1048564, 1048564, 1048564, 1048564, 1048564,
  1048564, 1048564, 1048564, 1048565, 1048565, 1048565, 1048565, 1048565, 1048565, 1048565, 1048565, 1048565,
  1048565, 1048565, 1048565, 1048566, 1048566, 1048566, 1048566, 1048566, 1048566, 1048566, 1048566, 1048566,
  1048566, 1048566, 1048566, 1048566, 1048567, 1048567, 1048567, 1048567, 1048567, 1048567, 1048567, 1048567,
  1048567, 1048567, 1048567, 1048567, 1048567, 1048567, 1048568, 1048568, 1048568, 1048568, 1048568, 1048568,
  1048568, 1048568, 1048568, 1048568, 1048568, 1048568, 1048568, 1048568, 1048568, 1048568, 1048569, 1048569,
  1048569, 1048569, 1048569, 1048569, 1048569, 1048569, 1048569, 1048569, 1048569, 1048569, 1048569, 1048569,
  1048569, 1048569, 1048569, 1048569, 1048570, 1048570, 1048570, 1048570, 1048570, 1048570, 1048570, 1048570,
  1048570, 1048570, 1048570, 1048570, 1048570, 1048570, 1048570, 1048570, 1048570, 1048570, 1048570, 1048570,
  1048570, 1048571, 1048571, 1048571, 1048571, 1048571, 1048571, 1048571, 1048571, 1048571, 1048571, 1048571,
  1048571, 1048571, 1048571, 1048571, 1048571, 1048571, 1048571, 1048571, 1048571, 1048571, 1048571, 1048571,
  1048571, 1048571, 1048571, 1048572, 1048572, 1048572, 1048572, 1048572, 1048572, 1048572, 1048572, 1048572,
  1048572, 1048572, 1048572, 1048572, 1048572, 1048572, 1048572, 1048572, 1048572, 1048572, 1048572, 1048572,
  1048572, 1048572, 1048572, 1048572, 1048572, 1048572, 1048572, 1048572, 1048572, 1048572, 1048572, 1048573,
  1048573, 1048573, 1048573, 1048573, 1048573, 1048573, 1048573, 1048573, 1048573, 1048573, 1048573, 1048573,
  1048573, 1048573, 1048573, 1048573, 1048573, 1048573, 1048573, 1048573, 1048573, 1048573, 1048573, 1048573,
  1048573, 1048573, 1048573, 1048573, 1048573, 1048573, 1048573, 1048573, 1048573, 1048573, 1048573, 1048573,
  1048573, 1048573, 1048573, 1048573, 1048573, 1048573, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574,
  1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574,
  1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574,
  1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574,
  1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574,
  1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574,
  1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575,
  1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575,
  1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575,
  1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575,
  1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575,
  1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575,
  1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575,
  1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575,
  1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575,
  1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575,
  1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575,
  1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048576, 1048576, 1048576, 1048576,
  1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576,
  1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576,
  1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576,
  1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576,
  1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576,
  1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576,
  1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576,
  1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576>>

\* AtanT[i + 1]: 2/pi atan(i/1024)
AtanT == <<
  0, 652, 1304, 1956, 2608, 3259, 3911, 4563, 5215, 5867, 6519, 7171,
  7822, 8474, 9126, 9778, 10430, 11081, 11733, 12385, 13036, 13688, 14340, 14991,
  15643, 16294, 16946, 17597, 18249, 18900, 19551, 20203, 20854, 21505, 22156, 22808,
  23459, 24110, 24761, 25412, 26063, 26714, 27364, 28015, 28666, 29317, 29967, 30618,
  31268, 31919, 32569, 33219, 33870, 34520, 35170, 35820, 36470, 37120, 37770, 38420,
  39069, 39719, 40368, 41018, 41667, 42317, 42966, 43615, 44264, 44913, 45562, 46211,
  46860, 47508, 48157, 48805, 49454, 50102, 50750, 51398, 52046, 52694, 53342, 53990,
  54637, 55285, 55932, 56579, 57226, 57874, 58521, 59167, 59814, 60461, 61107, 61754,
  62400, 63046, 63692, 64338, 64984, 65629, 66275, 66920, 67566, 68211, 68856, 69501,
  70146, 70790, 71435, 72079, 72724, 73368, 74012, 74656, 75299, 75943, 76586, 77230,
  77873, 78516, 79159, 79801, 80444, 81086, 81728, 82371, 83012, 83654, 84296, 84937,
  85579, 86220, 86861, 87502, 88142, 88783, 89423, 90063, 90703, 91343, 91983, 92623,
  93262, 93901, 94540, 95179, 95817, 96456, 97094, 97732, 98370, 99008, 99646, 100283,
  100920, 101557, 102194, 102831, 103467, 104103, 104740, 105375, 106011, 106647, 107282, 107917,
  108552, 109187, 109821, 110455, 111090, 111723, 112357, 112991, 113624, 114257, 114890, 115523,
  116155, 116787, 117419, 118051, 118683, 119314, 119945, 120576, 121207, 121838, 122468, 123098,
  123728, 124358, 124987, 125616, 126245, 126874, 127502, 128131, 128759, 129387, 130014, 130642,
  131269, 131896, 132522, 133149, 133775, 134401, 135027, 135652, 136277, 136902, 137527, 138151,
  138776, 139400, 140023, 140647, 141270, 141893, 142516, 143139, 143761, 144383, 145005, 145626,
  146247, 146868, 147489, 148109, 148730, 149350, 149969, 150589, 151208, 151827, 152445, 153064,
  153682, 154300, 154917, 155534, 156151, 156768, 157385, 158001, 158617, 159232, 159848, 160463,
  161078, 161692, 162306, 162920, 163534, 164147, 164761, 165373, 165986, 166598, 167210, 167822,
  168433, 169045, 169655, 170266, 170876, 171486, 172096, 172705, 173314, 173923, 174532, 175140,
  175748, 176355, 176963, 177570, 178176, 178783, 179389, 179995, 180600, 181205, 181810, 182415,
  183019, 183623, 184227, 184830, 185433, 186036, 186638, 187240, 187842, 188443, 189045, 189645,
  190246, 190846, 191446, 192046, 192645, 193244, 193842, 194441, 195039, 195636, 196234, 196831,
  197427, 198024, 198620, 199215, 199811, 200406, 201001, 201595, 202189, 202783, 203376, 203969,
  204562, 205154, 205746, 206338, 206930, 207521, 208111, 208702, 209292, 209882, 210471, 211060,
  211649, 212237, 212825, 213413, 214000, 214587, 215174, 215760, 216346, 216932, 217517, 218102,
  218686, 219271, 219855, 220438, 221021, 221604, 222187, 222769, 223350, 223932, 224513, 225094,
  225674, 226254, 226834, 227413, 227992, 228571, 229149, 229727, 230304, 230881, 231458, 232035,
  232611, 233186, 233762, 234337, 234911, 235486, 236060, 236633, 237206, 237779, 238351, 238924,
  239495, 240067, 240638, 241208, 241778, 242348, 242918, 243487, 244056, 244624, 245192, 245760,
  246327, 246894, 247460, 248027, 248592, 249158, 249723, 250288, 250852, 251416, 251979, 252542,
  253105, 253668, 254230, 254791, 255352, 255913, 256474, 257034, 257594, 258153, 258712, 259271,
  259829, 260387, 260944, 261501, 262058, 262614, 263170, 263726, 264281, 264836, 265390, 265944,
  266498, 267051, 267604, 268156, 268708, 269260, 269811, 270362, 270912, 271462, 272012, 272561,
  273110, 273659, 274207, 274755, 275302, 275849, 276396, 276942, 277488, 278033, 278578, 279123,
  279667, 280211, 280754, 281297, 281840, 282382, 282924, 283465, 284006, 284547, 285087, 285627,
  286167, 286706, 287244, 287783, 288321, 288858, 289395, 289932, 290468, 291004, 291539, 292074,
  292609, 293143, 293677, 294211, 294744, 295276, 295809, 296340, 296872, 297403, 297934, 298464,
  298994, 299523, 300052, 300581, 301109, 301637, 302164, 302691, 303218, 303744, 304270, 304795,
  305320, 305845, 306369, 306893, 307416, 307939, 308461, 308984, 309505, 310027, 310548, 311068,
  311588, 312108, 312627, 313146, 313664, 314182, 314700, 315217, 315734, 316251, 316767, 317282,
  317797, 318312, 318826, 319340, 319854, 320367, 320880, 321392, 321904, 322416, 322927, 323437,
  323948, 324457, 324967, 325476, 325985, 326493, 327001, 327508, 328015, 328521, 329028, 329533,
  330039, 330544, 331048, 331552, 332056, 332559, 333062, 333564, 334066, 334568, 335069, 335570,
  336070, 336570, 337070, 337569, 338068, 338566, 339064, 339561, 340058, 340555, 341051, 341547,
  342043, 342538, 343032, 343526, 344020, 344514, 345006, 345499, 345991, 346483, 346974, 347465,
  347955, 348445, 348935, 349424, 349913, 350401, 350889, 351377, 351864, 352351, 352837, 353323,
  353809, 354294, 354778, 355263, 355746, 356230, 356713, 357196, 357678, 358159, 358641, 359122,
  359602, 360082, 360562, 361041, 361520, 361999, 362477, 362954, 363432, 363909, 364385, 364861,
  365337, 365812, 366286, 366761, 367235, 367708, 368181, 368654, 369126, 369598, 370070, 370541,
  371011, 371482, 371951, 372421, 372890, 373358, 373826, 374294, 374762, 375229, 375695, 376161,
  376627, 377092, 377557, 378021, 378486, 378949, 379412, 379875, 380338, 380800, 381261, 381722,
  382183, 382644, 383103, 383563, 384022, 384481, 384939, 385397, 385855, 386312, 386768, 387225,
  387681, 388136, 388591, 389046, 389500, 389954, 390407, 390860, 391313, 391765, 392217, 392668,
  393119, 393570, 394020, 394470, 394919, 395368, 395816, 396265, 396712, 397160, 397607, 398053,
  398499, 398945, 399390, 399835, 400280, 400724, 401167, 401611, 402053, 402496, 402938, 403380,
  403821, 404262, 404702, 405142, 405582, 406021, 406460, 406898, 407336, 407774, 408211, 408648,
  409085, 409521, 409956, 410391, 410826, 411261, 411695, 412128, 412562, 412994, 413427, 413859,
  414291, 414722, 415153, 415583, 416013, 416443, 416872, 417301, 417729, 418157, 418585, 419012,
  419439, 419866, 420292, 420717, 421143, 421568, 421992, 422416, 422840, 423263, 423686, 424109,
  424531, 424952, 425374, 425795, 426215, 426635, 427055, 427474, 427893, 428312, 428730, 429148,
  429565, 429982, 430399, 430815, 431231, 431647, 432062, 432476, 432891, 433305, 433718, 434131,
  434544, 434956, 435368, 435780, 436191, 436602, 437012, 437422, 437832, 438241, 438650, 439058,
  439466, 439874, 440282, 440688, 441095, 441501, 441907, 442312, 442717, 443122, 443526, 443930,
  444334, 444737, 445139, 445542, 445944, 446345, 446746, 447147, 447548, 447948, 448347, 448747,
  449145, 449544, 449942, 450340, 450737, 451134, 451531, 451927, 452323, 452719, 453114, 453508,
  453903, 454297, 454690, 455084, 455476, 455869, 456261, 456653, 457044, 457435, 457826, 458216,
  458606, 458995, 459384, 459773, 460162, 460550, 460937, 461324, 461711, 462098, 462484, 462870,
  463255, 463640, 464025, 464409, 464793, 465177, 465560, 465943, 466325, 466707, 467089, 467470,
  467851, 468232, 468612, 468992, 469372, 469751, 470130, 470508, 470886, 471264, 471641, 472018,
  472395, 472771, 473147, 473522, 473897, 474272, 474647, 475021, 475394, 475768, 476141, 476513,
  476886, 477258, 477629, 478000, 478371, 478742, 479112, 479481, 479851, 480220, 480589, 480957,
  481325, 481692, 482060, 482427, 482793, 483159, 483525, 483891, 484256, 484621, 484985, 485349,
  485713, 486076, 486439, 486802, 487164, 487526, 487888, 488249, 488610, 488970, 489331, 489690,
  490050, 490409, 490768, 491126, 491484, 491842, 492200, 492557, 492913, 493270, 493626, 493981,
  494337, 494692, 495046, 495401, 495755, 496108, 496461, 496814, 497167, 497519, 497871, 498223,
  498574, 498925, 499275, 499625, 499975, 500325, 500674, 501023, 501371, 501719, 502067, 502415,
  502762, 503109, 503455, 503801, 504147, 504492, 504837, 505182, 505527, 505871, 506214, 506558,
  506901, 507244, 507586, 507928, 508270, 508611, 508953, 509293, 509634, 509974, 510314, 510653,
  510992, 511331, 511669, 512007, 512345, 512683, 513020, 513356, 513693, 514029, 514365, 514700,
  515036, 515370, 515705, 516039, 516373, 516706, 517040, 517372, 517705, 518037, 518369, 518701,
  519032, 519363, 519693, 520024, 520354, 520683, 521013, 521342, 521670, 521999, 522327, 522654,
  522982, 523309, 523635, 523962, 524288, 524614>>

\* Exp3T[i + 1]: (1 - exp(-3 i/1024)) / (1 - exp(-3))
Exp3T == <<
  0, 3228, 6447, 9656, 12856, 16047, 19228, 22400, 25563, 28716, 31861, 34996,
  38121, 41238, 44346, 47444, 50534, 53614, 56685, 59748, 62801, 65846, 68881, 71908,
  74926, 77935, 80935, 83927, 86909, 89883, 92849, 95805, 98753, 101693, 104623, 107546,
  110459, 113364, 116261, 119149, 122029, 124900, 127763, 130617, 133463, 136301, 139131, 141952,
  144765, 147570, 150366, 153154, 155935, 158707, 161471, 164226, 166974, 169714, 172446, 175170,
  177885, 180593, 183293, 185985, 188669, 191346, 194014, 196675, 199328, 201973, 204610, 207240,
  209862, 212476, 215083, 217682, 220273, 222857, 225433, 228002, 230563, 233117, 235663, 238202,
  240733, 243257, 245774, 248283, 250785, 253280, 255767, 258247, 260720, 263185, 265644, 268095,
  270539, 272975, 275405, 277828, 280243, 282652, 285053, 287447, 289835, 292215, 294588, 296955,
  299314, 301667, 304013, 306351, 308683, 311009, 313327, 315639, 317944, 320242, 322533, 324818,
  327096, 329367, 331632, 333890, 336141, 338386, 340625, 342856, 345082, 347300, 349513, 351718,
  353918, 356110, 358297, 360477, 362651, 364818, 366979, 369134, 371282, 373424, 375560, 377690,
  379813, 381930, 384041, 386146, 388244, 390337, 392423, 394503, 396577, 398646, 400708, 402764,
  404814, 406858, 408896, 410928, 412954, 414974, 416988, 418996, 420999, 422996, 424986, 426971,
  428951, 430924, 432892, 434853, 436809, 438760, 440705, 442644, 444577, 446505, 448427, 450343,
  452254, 454159, 456059, 457953, 459841, 461724, 463602, 465474, 467340, 469201, 471057, 472907,
  474752, 476591, 478425, 480254, 482077, 483895, 485708, 487515, 489317, 491114, 492906, 494692,
  496473, 498249, 500019, 501785, 503545, 505300, 507050, 508795, 510535, 512270, 513999, 515724,
  517443, 519158, 520867, 522572, 524271, 525966, 527656, 529340, 531020, 532695, 534365, 536030,
  537690, 539345, 540995, 542641, 544282, 545918, 547549, 549175, 550797, 552414, 554026, 555634,
  557236, 558834, 560428, 562017, 563601, 565180, 566755, 568325, 569891, 571452, 573009, 574561,
  576108, 577651, 579189, 580723, 582252, 583777, 585298, 586814, 588325, 589832, 591335, 592834,
  594327, 595817, 597302, 598783, 600260, 601732, 603200, 604664, 606123, 607578, 609029, 610475,
  611918, 613356, 614790, 616219, 617645, 619066, 620484, 621897, 623306, 624710, 626111, 627508,
  628900, 630289, 631673, 633053, 634430, 635802, 637170, 638534, 639895, 641251, 642603, 643952,
  645296, 646637, 647973, 649306, 650634, 651959, 653280, 654597, 655911, 657220, 658526, 659827,
  661125, 662420, 663710, 664997, 666279, 667559, 668834, 670106, 671373, 672638, 673898, 675155,
  676408, 677658, 678903, 680146, 681384, 682619, 683850, 685078, 686302, 687523, 688740, 689953,
  691163, 692369, 693572, 694771, 695967, 697159, 698348, 699533, 700715, 701893, 703068, 704240,
  705408, 706572, 707734, 708891, 710046, 711197, 712345, 713489, 714630, 715768, 716902, 718033,
  719161, 720285, 721406, 722524, 723638, 724750, 725858, 726963, 728064, 729163, 730258, 731350,
  732438, 733524, 734606, 735685, 736762, 737834, 738904, 739971, 741034, 742095, 743152, 744206,
  745257, 746305, 747350, 748392, 749431, 750467, 751500, 752530, 753556, 754580, 755601, 756619,
  757634, 758645, 759654, 760660, 761663, 762663, 763660, 764655, 765646, 766634, 767620, 768603,
  769582, 770559, 771533, 772504, 773473, 774438, 775401, 776361, 777318, 778272, 779224, 780172,
  781118, 782061, 783002, 783939, 784874, 785806, 786736, 787663, 788587, 789508, 790426, 791342,
  792256, 793166, 794074, 794979, 795882, 796782, 797679, 798574, 799466, 800355, 801242, 802127,
  803008, 803887, 804764, 805638, 806509, 807378, 808245, 809108, 809970, 810828, 811685, 812538,
  813390, 814238, 815085, 815928, 816770, 817608, 818445, 819279, 820110, 820939, 821766, 822590,
  823412, 824232, 825049, 825863, 826675, 827485, 828293, 829098, 829901, 830701, 831499, 832295,
  833088, 833880, 834668, 835455, 836239, 837021, 837801, 838578, 839353, 840126, 840896, 841664,
  842431, 843194, 843956, 844715, 845472, 846227, 846980, 847730, 848479, 849225, 849969, 850710,
  851450, 852187, 852922, 853656, 854387, 855115, 855842, 856567, 857289, 858009, 858727, 859444,
  860158, 860870, 861579, 862287, 862993, 863696, 864398, 865098, 865795, 866490, 867184, 867875,
  868565, 869252, 869937, 870621, 871302, 871981, 872659, 873334, 874007, 874679, 875348, 876016,
  876681, 877345, 878006, 878666, 879324, 879980, 880634, 881286, 881936, 882584, 883230, 883875,
  884517, 885158, 885797, 886434, 887069, 887702, 888333, 888963, 889590, 890216, 890840, 891462,
  892083, 892701, 893318, 893933, 894546, 895157, 895767, 896375, 896981, 897585, 898187, 898788,
  899387, 899984, 900579, 901173, 901765, 902355, 902944, 903530, 904115, 904699, 905280, 905860,
  906439, 907015, 907590, 908163, 908735, 909304, 909873, 910439, 911004, 911567, 912129, 912688,
  913247, 913803, 914358, 914912, 915463, 916014, 916562, 917109, 917654, 918198, 918740, 919281,
  919820, 920357, 920893, 921427, 921960, 922491, 923021, 923549, 924075, 924600, 925123, 925645,
  926166, 926684, 927202, 927717, 928232, 928745, 929256, 929766, 930274, 930781, 931286, 931790,
  932292, 932793, 933293, 933791, 934287, 934782, 935276, 935768, 936259, 936748, 937236, 937722,
  938207, 938691, 939173, 939654, 940133, 940611, 941088, 941563, 942037, 942509, 942980, 943450,
  943918, 944385, 944850, 945315, 945777, 946239, 946699, 947158, 947615, 948071, 948526, 948979,
  949431, 949882, 950332, 950780, 951227, 951672, 952116, 952559, 953001, 953441, 953880, 954318,
  954754, 955190, 955623, 956056, 956487, 956918, 957346, 957774, 958200, 958626, 959049, 959472,
  959893, 960314, 960732, 961150, 961567, 961982, 962396, 962809, 963220, 963631, 964040, 964448,
  964855, 965261, 965665, 966068, 966470, 966871, 967271, 967670, 968067, 968463, 968858, 969252,
  969645, 970037, 970427, 970817, 971205, 971592, 971978, 972363, 972746, 973129, 973510, 973891,
  974270, 974648, 975025, 975401, 975776, 976149, 976522, 976893, 977264, 977633, 978001, 978369,
  978735, 979100, 979464, 979827, 980188, 980549, 980909, 981268, 981625, 981982, 982337, 982692,
  983045, 983398, 983749, 984099, 984449, 984797, 985144, 985491, 985836, 986180, 986524, 986866,
  987207, 987547, 987887, 988225, 988562, 988898, 989234, 989568, 989901, 990234, 990565, 990896,
  991225, 991554, 991881, 992208, 992533, 992858, 993182, 993504, 993826, 994147, 994467, 994786,
  995104, 995421, 995738, 996053, 996367, 996681, 996993, 997305, 997616, 997925, 998234, 998542,
  998849, 999156, 999461, 999765, 1000069, 1000371, 1000673, 1000974, 1001274, 1001573, 1001871, 1002169,
  1002465, 1002761, 1003056, 1003349, 1003642, 1003935, 1004226, 1004516, 1004806, 1005095, 1005383, 1005670,
  1005956, 1006241, 1006526, 1006810, 1007093, 1007375, 1007656, 1007936, 1008216, 1008495, 1008773, 1009050,
  1009326, 1009602, 1009877, 1010151, 1010424, 1010696, 1010968, 1011238, 1011508, 1011777, 1012046, 1012313,
  1012580, 1012846, 1013111, 1013376, 1013640, 1013903, 1014165, 1014426, 1014687, 1014947, 1015206, 1015464,
  1015722, 1015978, 1016235, 1016490, 1016744, 1016998, 1017251, 1017504, 1017755, 1018006, 1018256, 1018506,
  1018755, 1019003, 1019250, 1019496, 1019742, 1019987, 1020231, 1020475, 1020718, 1020960, 1021202, 1021443,
  1021683, 1021922, 1022161, 1022399, 1022636, 1022873, 1023109, 1023344, 1023578, 1023812, 1024045, 1024278,
  1024510, 1024741, 1024971, 1025201, 1025430, 1025659, 1025886, 1026113, 1026340, 1026566, 1026791, 1027015,
  1027239, 1027462, 1027685, 1027906, 1028128, 1028348, 1028568, 1028787, 1029006, 1029224, 1029441, 1029658,
  1029874, 1030090, 1030304, 1030518, 1030732, 1030945, 1031157, 1031369, 1031580, 1031790, 1032000, 1032209,
  1032418, 1032626, 1032833, 1033040, 1033246, 1033452, 1033657, 1033861, 1034065, 1034268, 1034471, 1034673,
  1034874, 1035075, 1035275, 1035475, 1035674, 1035872, 1036070, 1036268, 1036464, 1036661, 1036856, 1037051,
  1037246, 1037439, 1037633, 1037825, 1038018, 1038209, 1038400, 1038591, 1038781, 1038970, 1039159, 1039347,
  1039535, 1039722, 1039909, 1040095, 1040280, 1040465, 1040650, 1040834, 1041017, 1041200, 1041382, 1041564,
  1041745, 1041926, 1042106, 1042286, 1042465, 1042643, 1042822, 1042999, 1043176, 1043353, 1043529, 1043704,
  1043879, 1044054, 1044228, 1044401, 1044574, 1044746, 1044918, 1045090, 1045261, 1045431, 1045601, 1045770,
  1045939, 1046108, 1046276, 1046443, 1046610, 1046777, 1046943, 1047108, 1047273, 1047438, 1047602, 1047765,
  1047928, 1048091, 1048253, 1048415, 1048576, 1048737>>

\* AliasT[4 f]: the coefficient of the anti-aliasing filter of a reduction by f
AliasT ==
  4 :> 1048576 @@ 5 :> 1048576 @@ 6 :> 1048576 @@ 7 :> 1048576 @@ 8 :> 905206 @@ 9 :> 791426 @@
  10 :> 713043 @@ 11 :> 654124 @@ 12 :> 607327 @@ 13 :> 568739 @@ 14 :> 536055 @@ 15 :> 507812 @@
  16 :> 483026 @@ 17 :> 461006 @@ 18 :> 441249 @@ 19 :> 423376 @@ 20 :> 407096 @@ 21 :> 392179 @@
  22 :> 378442 @@ 23 :> 365736 @@ 24 :> 353937 @@ 25 :> 342942 @@ 26 :> 332665 @@ 27 :> 323033 @@
  28 :> 313981 @@ 29 :> 305455 @@ 30 :> 297408 @@ 31 :> 289798 @@ 32 :> 282588 @@ 33 :> 275745 @@
  34 :> 269242 @@ 35 :> 263051 @@ 36 :> 257150 @@ 37 :> 251518 @@ 38 :> 246137 @@ 39 :> 240988 @@
  40 :> 236058 @@ 41 :> 231332 @@ 42 :> 226797 @@ 43 :> 222441 @@ 44 :> 218254 @@ 45 :> 214225 @@
  46 :> 210346 @@ 47 :> 206608 @@ 48 :> 203004 @@ 49 :> 199526 @@ 50 :> 196167 @@ 51 :> 192922 @@
  52 :> 189785 @@ 53 :> 186749 @@ 54 :> 183811 @@ 55 :> 180966 @@ 56 :> 178209 @@ 57 :> 175535 @@
  58 :> 172942 @@ 59 :> 170426 @@ 60 :> 167982 @@ 61 :> 165609 @@ 62 :> 163303 @@ 63 :> 161060 @@
  64 :> 158880 @@ 65 :> 156758 @@ 66 :> 154693 @@ 67 :> 152682 @@ 68 :> 150723 @@ 69 :> 148814 @@
  70 :> 146954 @@ 71 :> 145140 @@ 72 :> 143370 @@ 73 :> 141644 @@ 74 :> 139959 @@ 75 :> 138314 @@
  76 :> 136708 @@ 77 :> 135139 @@ 78 :> 133605 @@ 79 :> 132107 @@ 80 :> 130641 @@ 81 :> 129209 @@
  82 :> 127807 @@ 83 :> 126436 @@ 84 :> 125094 @@ 85 :> 123781 @@ 86 :> 122495 @@ 87 :> 121235 @@
  88 :> 120002 @@ 89 :> 118793 @@ 90 :> 117609 @@ 91 :> 116448 @@ 92 :> 115310 @@ 93 :> 114194 @@
  94 :> 113099 @@ 95 :> 112026 @@ 96 :> 110973 @@ 97 :> 109939 @@ 98 :> 108925 @@ 99 :> 107929 @@
  100 :> 106952 @@ 101 :> 105992 @@ 102 :> 105049 @@ 103 :> 104123 @@ 104 :> 103213 @@ 105 :> 102319 @@
  106 :> 101440 @@ 107 :> 100577 @@ 108 :> 99728 @@ 109 :> 98893 @@ 110 :> 98073 @@ 111 :> 97265 @@
  112 :> 96471 @@ 113 :> 95690 @@ 114 :> 94922 @@ 115 :> 94166 @@ 116 :> 93422 @@ 117 :> 92689 @@
  118 :> 91968 @@ 119 :> 91258 @@ 120 :> 90559 @@ 121 :> 89871 @@ 122 :> 89193 @@ 123 :> 88525 @@
  124 :> 87868 @@ 125 :> 87220 @@ 126 :> 86581 @@ 127 :> 85952 @@ 128 :> 85332 @@ 129 :> 84721 @@
  130 :> 84118 @@ 131 :> 83524 @@ 132 :> 82939 @@ 133 :> 82361 @@ 134 :> 81792 @@ 135 :> 81230 @@
  136 :> 80676 @@ 137 :> 80130 @@ 138 :> 79591 @@ 139 :> 79059 @@ 140 :> 78535 @@ 141 :> 78017 @@
  142 :> 77506 @@ 143 :> 77002 @@ 144 :> 76504 @@ 145 :> 76012 @@ 146 :> 75527 @@ 147 :> 75048 @@
  148 :> 74576 @@ 149 :> 74109 @@ 150 :> 73647 @@ 151 :> 73192 @@ 152 :> 72742 @@ 153 :> 72298 @@
  154 :> 71859 @@ 155 :> 71426 @@ 156 :> 70997 @@ 157 :> 70574 @@ 158 :> 70156 @@ 159 :> 69742 @@
  160 :> 69334 @@ 161 :> 68930 @@ 162 :> 68531 @@ 163 :> 68137 @@ 164 :> 67747 @@ 165 :> 67362 @@
  166 :> 66981 @@ 167 :> 66604 @@ 168 :> 66231 @@ 169 :> 65863 @@ 170 :> 65499 @@ 171 :> 65138 @@
  172 :> 64782 @@ 173 :> 64430 @@ 174 :> 64081 @@ 175 :> 63736 @@ 176 :> 63395 @@ 177 :> 63057 @@
  178 :> 62723 @@ 179 :> 62393 @@ 180 :> 62066 @@ 181 :> 61742 @@ 182 :> 61422 @@ 183 :> 61105 @@
  184 :> 60792 @@ 185 :> 60481 @@ 186 :> 60174 @@ 187 :> 59870 @@ 188 :> 59569 @@ 189 :> 59271 @@
  190 :> 58976 @@ 191 :> 58683 @@ 192 :> 58394 @@ 193 :> 58108 @@ 194 :> 57824 @@ 195 :> 57543 @@
  196 :> 57265 @@ 197 :> 56989 @@ 198 :> 56717 @@ 199 :> 56446 @@ 200 :> 56179 @@ 201 :> 55913 @@
  202 :> 55651 @@ 203 :> 55391 @@ 204 :> 55133 @@ 205 :> 54877 @@ 206 :> 54624 @@ 207 :> 54374 @@
  208 :> 54125 @@ 209 :> 53879 @@ 210 :> 53635 @@ 211 :> 53394 @@ 212 :> 53154 @@ 213 :> 52917 @@
  214 :> 52681 @@ 215 :> 52448 @@ 216 :> 52217 @@ 217 :> 51988 @@ 218 :> 51761 @@ 219 :> 51536 @@
  220 :> 51312 @@ 221 :> 51091 @@ 222 :> 50872 @@ 223 :> 50654 @@ 224 :> 50439 @@ 225 :> 50225 @@
  226 :> 50013 @@ 227 :> 49803 @@ 228 :> 49594 @@ 229 :> 49388 @@ 230 :> 49183 @@ 231 :> 48979 @@
  232 :> 48778 @@ 233 :> 48578 @@ 234 :> 48379 @@ 235 :> 48183 @@ 236 :> 47988 @@ 237 :> 47794 @@
  238 :> 47602 @@ 239 :> 47412 @@ 240 :> 47223 @@ 241 :> 47035 @@ 242 :> 46849 @@ 243 :> 46665 @@
  244 :> 46482 @@ 245 :> 46300 @@ 246 :> 46120 @@ 247 :> 45941 @@ 248 :> 45764 @@ 249 :> 45588 @@
  250 :> 45413 @@ 251 :> 45240 @@ 252 :> 45068 @@ 253 :> 44897 @@ 254 :> 44727 @@ 255 :> 44559 @@
  256 :> 44392 @@ 257 :> 44227 @@ 258 :> 44062 @@ 259 :> 43899 @@ 260 :> 43737 @@ 261 :> 43576 @@
  262 :> 43417 @@ 263 :> 43258 @@ 264 :> 43101 @@ 265 :> 42945 @@ 266 :> 42790 @@ 267 :> 42636 @@
  268 :> 42483 @@ 269 :> 42331 @@ 270 :> 42180 @@ 271 :> 42031 @@ 272 :> 41882 @@ 273 :> 41735 @@
  274 :> 41588 @@ 275 :> 41443 @@ 276 :> 41299 @@ 277 :> 41155 @@ 278 :> 41013 @@ 279 :> 40871 @@
  280 :> 40731 @@ 281 :> 40591 @@ 282 :> 40453 @@ 283 :> 40315 @@ 284 :> 40179 @@ 285 :> 40043 @@
  286 :> 39908 @@ 287 :> 39774 @@ 288 :> 39641 @@ 289 :> 39509 @@ 290 :> 39378 @@ 291 :> 39247 @@
  292 :> 39118 @@ 293 :> 38989 @@ 294 :> 38861 @@ 295 :> 38734 @@ 296 :> 38608 @@ 297 :> 38483 @@
  298 :> 38358 @@ 299 :> 38235 @@ 300 :> 38112 @@ 301 :> 37990 @@ 302 :> 37868 @@ 303 :> 37748 @@
  304 :> 37628 @@ 305 :> 37509 @@ 306 :> 37390 @@ 307 :> 37273 @@ 308 :> 37156 @@ 309 :> 37040 @@
  310 :> 36924 @@ 311 :> 36810 @@ 312 :> 36696 @@ 313 :> 36583 @@ 314 :> 36470 @@ 315 :> 36358 @@
  316 :> 36247 @@ 317 :> 36137 @@ 318 :> 36027 @@ 319 :> 35918 @@ 320 :> 35809 @@ 321 :> 35701 @@
  322 :> 35594 @@ 323 :> 35487 @@ 324 :> 35382 @@ 325 :> 35276 @@ 326 :> 35172 @@ 327 :> 35068 @@
  328 :> 34964 @@ 329 :> 34861 @@ 330 :> 34759 @@ 331 :> 34657 @@ 332 :> 34556 @@ 333 :> 34456 @@
  334 :> 34356 @@ 335 :> 34257 @@ 336 :> 34158 @@ 337 :> 34060 @@ 338 :> 33962 @@ 339 :> 33865 @@
  340 :> 33769 @@ 341 :> 33673 @@ 342 :> 33578 @@ 343 :> 33483 @@ 344 :> 33388 @@ 345 :> 33295 @@
  346 :> 33201 @@ 347 :> 33109 @@ 348 :> 33017 @@ 349 :> 32925 @@ 350 :> 32834 @@ 351 :> 32743 @@
  352 :> 32653 @@ 353 :> 32563 @@ 354 :> 32474 @@ 355 :> 32385 @@ 356 :> 32297 @@ 357 :> 32209 @@
  358 :> 32122 @@ 359 :> 32035 @@ 360 :> 31949 @@ 361 :> 31863 @@ 362 :> 31778 @@ 363 :> 31693 @@
  364 :> 31608 @@ 365 :> 31524 @@ 366 :> 31440 @@ 367 :> 31357 @@ 368 :> 31275 @@ 369 :> 31192 @@
  370 :> 31110 @@ 371 :> 31029 @@ 372 :> 30948 @@ 373 :> 30867 @@ 374 :> 30787 @@ 375 :> 30708 @@
  376 :> 30628 @@ 377 :> 30549 @@ 378 :> 30471 @@ 379 :> 30393 @@ 380 :> 30315 @@ 381 :> 30238 @@
  382 :> 30161 @@ 383 :> 30084 @@ 384 :> 30008 @@ 385 :> 29932 @@ 386 :> 29857 @@ 387 :> 29782 @@
  388 :> 29707 @@ 389 :> 29633 @@ 390 :> 29559 @@ 391 :> 29486 @@ 392 :> 29412 @@ 393 :> 29340 @@
  394 :> 29267 @@ 395 :> 29195 @@ 396 :> 29123 @@ 397 :> 29052 @@ 398 :> 28981 @@ 399 :> 28910 @@
  400 :> 28840

\* WinT[1000 w + 20 n + i]: sample i of window w (rectangular, Hann, Hamming, Blackman, Blackman-Harris, Kaiser 8.6, flat top) of n
WinT ==
  40 :> 1048576 @@ 41 :> 1048576 @@ 80 :> 1048576 @@ 81 :> 1048576 @@ 82 :> 1048576 @@ 83 :> 1048576 @@
  160 :> 1048576 @@ 161 :> 1048576 @@ 162 :> 1048576 @@ 163 :> 1048576 @@ 164 :> 1048576 @@ 165 :> 1048576 @@
  166 :> 1048576 @@ 167 :> 1048576 @@ 320 :> 1048576 @@ 321 :> 1048576 @@ 322 :> 1048576 @@ 323 :> 1048576 @@
  324 :> 1048576 @@ 325 :> 1048576 @@ 326 :> 1048576 @@ 327 :> 1048576 @@ 328 :> 1048576 @@ 329 :> 1048576 @@
  330 :> 1048576 @@ 331 :> 1048576 @@ 332 :> 1048576 @@ 333 :> 1048576 @@ 334 :> 1048576 @@ 335 :> 1048576 @@
  1040 :> 0 @@ 1041 :> 0 @@ 1060 :> 0 @@ 1061 :> 1048576 @@ 1062 :> 0 @@ 1080 :> 0 @@
  1081 :> 786432 @@ 1082 :> 786432 @@ 1083 :> 0 @@ 1100 :> 0 @@ 1101 :> 524288 @@ 1102 :> 1048576 @@
  1103 :> 524288 @@ 1104 :> 0 @@ 1120 :> 0 @@ 1121 :> 362274 @@ 1122 :> 948446 @@ 1123 :> 948446 @@
  1124 :> 362274 @@ 1125 :> 0 @@ 1140 :> 0 @@ 1141 :> 262144 @@ 1142 :> 786432 @@ 1143 :> 1048576 @@
  1144 :> 786432 @@ 1145 :> 262144 @@ 1146 :> 0 @@ 1160 :> 0 @@ 1161 :> 197400 @@ 1162 :> 640953 @@
  1163 :> 996655 @@ 1164 :> 996655 @@ 1165 :> 640953 @@ 1166 :> 197400 @@ 1167 :> 0 @@ 1180 :> 0 @@
  1181 :> 153560 @@ 1182 :> 524288 @@ 1183 :> 895016 @@ 1184 :> 1048576 @@ 1185 :> 895016 @@ 1186 :> 524288 @@
  1187 :> 153560 @@ 1188 :> 0 @@ 1200 :> 0 @@ 1201 :> 122660 @@ 1202 :> 433246 @@ 1203 :> 786432 @@
  1204 :> 1016958 @@ 1205 :> 1016958 @@ 1206 :> 786432 @@ 1207 :> 433246 @@ 1208 :> 122660 @@ 1209 :> 0 @@
  1320 :> 0 @@ 1321 :> 45327 @@ 1322 :> 173471 @@ 1323 :> 362274 @@ 1324 :> 579091 @@ 1325 :> 786432 @@
  1326 :> 948446 @@ 1327 :> 1037119 @@ 1328 :> 1037119 @@ 1329 :> 948446 @@ 1330 :> 786432 @@ 1331 :> 579091 @@
  1332 :> 362274 @@ 1333 :> 173471 @@ 1334 :> 45327 @@ 1335 :> 0 @@ 2040 :> 83886 @@ 2041 :> 83886 @@
  2080 :> 83886 @@ 2081 :> 807404 @@ 2082 :> 807404 @@ 2083 :> 83886 @@ 2160 :> 83886 @@ 2161 :> 265494 @@
  2162 :> 673563 @@ 2163 :> 1000809 @@ 2164 :> 1000809 @@ 2165 :> 673563 @@ 2166 :> 265494 @@ 2167 :> 83886 @@
  2320 :> 83886 @@ 2321 :> 125587 @@ 2322 :> 243479 @@ 2323 :> 417178 @@ 2324 :> 616650 @@ 2325 :> 807404 @@
  2326 :> 956456 @@ 2327 :> 1038036 @@ 2328 :> 1038036 @@ 2329 :> 956456 @@ 2330 :> 807404 @@ 2331 :> 616650 @@
  2332 :> 417178 @@ 2333 :> 243479 @@ 2334 :> 125587 @@ 2335 :> 83886 @@ 3040 :> 0 @@ 3041 :> 0 @@
  3080 :> 0 @@ 3081 :> 660603 @@ 3082 :> 660603 @@ 3083 :> 0 @@ 3160 :> 0 @@ 3161 :> 94847 @@
  3162 :> 481488 @@ 3163 :> 965071 @@ 3164 :> 965071 @@ 3165 :> 481488 @@ 3166 :> 94847 @@ 3167 :> 0 @@
  3320 :> 0 @@ 3321 :> 17572 @@ 3322 :> 80816 @@ 3323 :> 210523 @@ 3324 :> 413152 @@ 3325 :> 660603 @@
  3326 :> 890482 @@ 3327 :> 1029867 @@ 3328 :> 1029867 @@ 3329 :> 890482 @@ 3330 :> 660603 @@ 3331 :> 413152 @@
  3332 :> 210523 @@ 3333 :> 80816 @@ 3334 :> 17572 @@ 3335 :> 0 @@ 4040 :> 63 @@ 4041 :> 63 @@
  4080 :> 63 @@ 4081 :> 545862 @@ 4082 :> 545862 @@ 4083 :> 63 @@ 4160 :> 63 @@ 4161 :> 35014 @@
  4162 :> 349001 @@ 4163 :> 932572 @@ 4164 :> 932572 @@ 4165 :> 349001 @@ 4166 :> 35014 @@ 4167 :> 63 @@
  4320 :> 63 @@ 4321 :> 3775 @@ 4322 :> 27999 @@ 4323 :> 108015 @@ 4324 :> 281006 @@ 4325 :> 545862 @@
  4326 :> 832395 @@ 4327 :> 1022241 @@ 4328 :> 1022241 @@ 4329 :> 832395 @@ 4330 :> 545862 @@ 4331 :> 281006 @@
  4332 :> 108015 @@ 4333 :> 27999 @@ 4334 :> 3775 @@ 4335 :> 63 @@ 5040 :> 1397 @@ 5041 :> 1397 @@
  5080 :> 1397 @@ 5081 :> 661035 @@ 5082 :> 661035 @@ 5083 :> 1397 @@ 5160 :> 1397 @@ 5161 :> 95564 @@
  5162 :> 481971 @@ 5163 :> 965174 @@ 5164 :> 965174 @@ 5165 :> 481971 @@ 5166 :> 95564 @@ 5167 :> 1397 @@
  5320 :> 1397 @@ 5321 :> 20324 @@ 5322 :> 81709 @@ 5323 :> 210821 @@ 5324 :> 413607 @@ 5325 :> 661035 @@
  5326 :> 890677 @@ 5327 :> 1029889 @@ 5328 :> 1029889 @@ 5329 :> 890677 @@ 5330 :> 661035 @@ 5331 :> 413607 @@
  5332 :> 210821 @@ 5333 :> 81709 @@ 5334 :> 20324 @@ 5335 :> 1397 @@ 6040 :> 0 @@ 6041 :> 0 @@
  6080 :> 0 @@ 6081 :> 207839 @@ 6082 :> 207839 @@ 6083 :> 0 @@ 6160 :> 0 @@ 6161 :> 0 @@
  6162 :> 11224 @@ 6163 :> 818806 @@ 6164 :> 818806 @@ 6165 :> 11224 @@ 6166 :> 0 @@ 6167 :> 0 @@
  6320 :> 0 @@ 6321 :> 0 @@ 6322 :> 0 @@ 6323 :> 0 @@ 6324 :> 0 @@ 6325 :> 207839 @@
  6326 :> 636352 @@ 6327 :> 994746 @@ 6328 :> 994746 @@ 6329 :> 636352 @@ 6330 :> 207839 @@ 6331 :> 0 @@
  6332 :> 0 @@ 6333 :> 0 @@ 6334 :> 0 @@ 6335 :> 0

\* KDb[i]: K-weighting in 1/65536 decibels of 1000 Hz at 48000, 1000 Hz at 16000, 1000 Hz at 44100, 100 Hz at 48000, 200 Hz at 16000, 5000 Hz at 48000, 3000 Hz at 16000, 500 Hz at 8000, 40 Hz at 16000, 25 Hz at 48000, 60 Hz at 44100
KDb == <<
  45725, 48346, 45905, -74285, -11701, 263021, 259209, 15517, -359182, -681100, -189754>>

=============================================================================
