// Generated by tools/gen_ucd.py: do not edit
struct ucd_run { int lo, hi; char cat[3]; };
static const ucd_run ucd_runs[] = {
{0,31,"Cc"},{32,32,"Zs"},{33,35,"Po"},{36,36,"Sc"},{37,39,"Po"},{40,40,"Ps"},{41,41,"Pe"},{42,42,"Po"},{43,43,"Sm"},
{44,44,"Po"},{45,45,"Pd"},{46,47,"Po"},{48,57,"Nd"},{58,59,"Po"},{60,62,"Sm"},{63,64,"Po"},{65,90,"Lu"},{91,91,"Ps"},
{92,92,"Po"},{93,93,"Pe"},{94,94,"Sk"},{95,95,"Pc"},{96,96,"Sk"},{97,122,"Ll"},{123,123,"Ps"},{124,124,"Sm"},{125,125,"Pe"},
{126,126,"Sm"},{127,159,"Cc"},{160,160,"Zs"},{161,161,"Po"},{162,165,"Sc"},{166,166,"So"},{168,168,"Sk"},{169,169,"So"},
{171,171,"Pi"},{172,172,"Sm"},{174,174,"So"},{175,175,"Sk"},{176,176,"So"},{177,177,"Sm"},{178,179,"No"},{180,180,"Sk"},
{181,181,"Ll"},{183,183,"Po"},{184,184,"Sk"},{185,185,"No"},{187,187,"Pf"},{188,190,"No"},{191,191,"Po"},{192,214,"Lu"},
{215,215,"Sm"},{216,222,"Lu"},{223,246,"Ll"},{247,247,"Sm"},{248,255,"Ll"},{256,256,"Lu"},{257,257,"Ll"},{258,258,"Lu"},
{259,259,"Ll"},{260,260,"Lu"},{261,261,"Ll"},{262,262,"Lu"},{263,263,"Ll"},{264,264,"Lu"},{265,265,"Ll"},{266,266,"Lu"},
{267,267,"Ll"},{268,268,"Lu"},{269,269,"Ll"},{270,270,"Lu"},{271,271,"Ll"},{272,272,"Lu"},{273,273,"Ll"},{274,274,"Lu"},
{275,275,"Ll"},{276,276,"Lu"},{277,277,"Ll"},{278,278,"Lu"},{279,279,"Ll"},{280,280,"Lu"},{281,281,"Ll"},{282,282,"Lu"},
{283,283,"Ll"},{284,284,"Lu"},{285,285,"Ll"},{286,286,"Lu"},{287,287,"Ll"},{288,288,"Lu"},{289,289,"Ll"},{290,290,"Lu"},
{291,291,"Ll"},{292,292,"Lu"},{293,293,"Ll"},{294,294,"Lu"},{295,295,"Ll"},{296,296,"Lu"},{297,297,"Ll"},{298,298,"Lu"},
{299,299,"Ll"},{300,300,"Lu"},{301,301,"Ll"},{302,302,"Lu"},{303,303,"Ll"},{304,304,"Lu"},{305,305,"Ll"},{306,306,"Lu"},
{307,307,"Ll"},{308,308,"Lu"},{309,309,"Ll"},{310,310,"Lu"},{311,312,"Ll"},{313,313,"Lu"},{314,314,"Ll"},{315,315,"Lu"},
{316,316,"Ll"},{317,317,"Lu"},{318,318,"Ll"},{319,319,"Lu"},{320,320,"Ll"},{321,321,"Lu"},{322,322,"Ll"},{323,323,"Lu"},
{324,324,"Ll"},{325,325,"Lu"},{326,326,"Ll"},{327,327,"Lu"},{328,329,"Ll"},{330,330,"Lu"},{331,331,"Ll"},{332,332,"Lu"},
{333,333,"Ll"},{334,334,"Lu"},{335,335,"Ll"},{336,336,"Lu"},{337,337,"Ll"},{338,338,"Lu"},{339,339,"Ll"},{340,340,"Lu"},
{341,341,"Ll"},{342,342,"Lu"},{343,343,"Ll"},{344,344,"Lu"},{345,345,"Ll"},{346,346,"Lu"},{347,347,"Ll"},{348,348,"Lu"},
{349,349,"Ll"},{350,350,"Lu"},{351,351,"Ll"},{352,352,"Lu"},{353,353,"Ll"},{354,354,"Lu"},{355,355,"Ll"},{356,356,"Lu"},
{357,357,"Ll"},{358,358,"Lu"},{359,359,"Ll"},{360,360,"Lu"},{361,361,"Ll"},{362,362,"Lu"},{363,363,"Ll"},{364,364,"Lu"},
{365,365,"Ll"},{366,366,"Lu"},{367,367,"Ll"},{368,368,"Lu"},{369,369,"Ll"},{370,370,"Lu"},{371,371,"Ll"},{372,372,"Lu"},
{373,373,"Ll"},{374,374,"Lu"},{375,375,"Ll"},{376,377,"Lu"},{378,378,"Ll"},{379,379,"Lu"},{380,380,"Ll"},{381,381,"Lu"},
{382,384,"Ll"},{385,386,"Lu"},{387,387,"Ll"},{388,388,"Lu"},{389,389,"Ll"},{390,391,"Lu"},{392,392,"Ll"},{393,395,"Lu"},
{396,397,"Ll"},{398,401,"Lu"},{402,402,"Ll"},{403,404,"Lu"},{405,405,"Ll"},{406,408,"Lu"},{409,411,"Ll"},{412,413,"Lu"},
{414,414,"Ll"},{415,416,"Lu"},{417,417,"Ll"},{418,418,"Lu"},{419,419,"Ll"},{420,420,"Lu"},{421,421,"Ll"},{422,423,"Lu"},
{424,424,"Ll"},{425,425,"Lu"},{426,427,"Ll"},{428,428,"Lu"},{429,429,"Ll"},{430,431,"Lu"},{432,432,"Ll"},{433,435,"Lu"},
{436,436,"Ll"},{437,437,"Lu"},{438,438,"Ll"},{439,440,"Lu"},{441,442,"Ll"},{443,443,"Lo"},{444,444,"Lu"},{445,447,"Ll"},
{448,451,"Lo"},{452,452,"Lu"},{453,453,"Lt"},{454,454,"Ll"},{455,455,"Lu"},{456,456,"Lt"},{457,457,"Ll"},{458,458,"Lu"},
{459,459,"Lt"},{460,460,"Ll"},{461,461,"Lu"},{462,462,"Ll"},{463,463,"Lu"},{464,464,"Ll"},{465,465,"Lu"},{466,466,"Ll"},
{467,467,"Lu"},{468,468,"Ll"},{469,469,"Lu"},{470,470,"Ll"},{471,471,"Lu"},{472,472,"Ll"},{473,473,"Lu"},{474,474,"Ll"},
{475,475,"Lu"},{476,477,"Ll"},{478,478,"Lu"},{479,479,"Ll"},{480,480,"Lu"},{481,481,"Ll"},{482,482,"Lu"},{483,483,"Ll"},
{484,484,"Lu"},{485,485,"Ll"},{486,486,"Lu"},{487,487,"Ll"},{488,488,"Lu"},{489,489,"Ll"},{490,490,"Lu"},{491,491,"Ll"},
{492,492,"Lu"},{493,493,"Ll"},{494,494,"Lu"},{495,496,"Ll"},{497,497,"Lu"},{498,498,"Lt"},{499,499,"Ll"},{500,500,"Lu"},
{501,501,"Ll"},{502,504,"Lu"},{505,505,"Ll"},{506,506,"Lu"},{507,507,"Ll"},{508,508,"Lu"},{509,509,"Ll"},{510,510,"Lu"},
{511,511,"Ll"},{512,512,"Lu"},{513,513,"Ll"},{514,514,"Lu"},{515,515,"Ll"},{516,516,"Lu"},{517,517,"Ll"},{518,518,"Lu"},
{519,519,"Ll"},{520,520,"Lu"},{521,521,"Ll"},{522,522,"Lu"},{523,523,"Ll"},{524,524,"Lu"},{525,525,"Ll"},{526,526,"Lu"},
{527,527,"Ll"},{528,528,"Lu"},{529,529,"Ll"},{530,530,"Lu"},{531,531,"Ll"},{532,532,"Lu"},{533,533,"Ll"},{534,534,"Lu"},
{535,535,"Ll"},{536,536,"Lu"},{537,537,"Ll"},{538,538,"Lu"},{539,539,"Ll"},{540,540,"Lu"},{541,541,"Ll"},{542,542,"Lu"},
{543,543,"Ll"},{544,544,"Lu"},{546,546,"Lu"},{547,547,"Ll"},{548,548,"Lu"},{549,549,"Ll"},{550,550,"Lu"},{551,551,"Ll"},
{552,552,"Lu"},{553,553,"Ll"},{554,554,"Lu"},{555,555,"Ll"},{556,556,"Lu"},{557,557,"Ll"},{558,558,"Lu"},{559,559,"Ll"},
{560,560,"Lu"},{561,561,"Ll"},{562,562,"Lu"},{563,563,"Ll"},{592,659,"Ll"},{661,685,"Ll"},{688,696,"Lm"},{699,705,"Lm"},
{706,709,"Sk"},{720,721,"Lm"},{722,735,"Sk"},{736,740,"Lm"},{741,747,"Sk"},{749,749,"Sk"},{750,750,"Lm"},{768,847,"Mn"},
{864,879,"Mn"},{885,885,"Sk"},{890,890,"Lm"},{894,894,"Po"},{900,901,"Sk"},{902,902,"Lu"},{903,903,"Po"},{904,906,"Lu"},
{908,908,"Lu"},{910,911,"Lu"},{912,912,"Ll"},{913,929,"Lu"},{931,939,"Lu"},{940,974,"Ll"},{976,977,"Ll"},{978,980,"Lu"},
{981,983,"Ll"},{984,984,"Lu"},{985,985,"Ll"},{986,986,"Lu"},{987,987,"Ll"},{988,988,"Lu"},{989,989,"Ll"},{990,990,"Lu"},
{991,991,"Ll"},{992,992,"Lu"},{993,993,"Ll"},{994,994,"Lu"},{995,995,"Ll"},{996,996,"Lu"},{997,997,"Ll"},{998,998,"Lu"},
{999,999,"Ll"},{1000,1000,"Lu"},{1001,1001,"Ll"},{1002,1002,"Lu"},{1003,1003,"Ll"},{1004,1004,"Lu"},{1005,1005,"Ll"},
{1006,1006,"Lu"},{1007,1011,"Ll"},{1012,1012,"Lu"},{1013,1013,"Ll"},{1014,1014,"Sm"},{1024,1071,"Lu"},{1072,1119,"Ll"},
{1120,1120,"Lu"},{1121,1121,"Ll"},{1122,1122,"Lu"},{1123,1123,"Ll"},{1124,1124,"Lu"},{1125,1125,"Ll"},{1126,1126,"Lu"},
{1127,1127,"Ll"},{1128,1128,"Lu"},{1129,1129,"Ll"},{1130,1130,"Lu"},{1131,1131,"Ll"},{1132,1132,"Lu"},{1133,1133,"Ll"},
{1134,1134,"Lu"},{1135,1135,"Ll"},{1136,1136,"Lu"},{1137,1137,"Ll"},{1138,1138,"Lu"},{1139,1139,"Ll"},{1140,1140,"Lu"},
{1141,1141,"Ll"},{1142,1142,"Lu"},{1143,1143,"Ll"},{1144,1144,"Lu"},{1145,1145,"Ll"},{1146,1146,"Lu"},{1147,1147,"Ll"},
{1148,1148,"Lu"},{1149,1149,"Ll"},{1150,1150,"Lu"},{1151,1151,"Ll"},{1152,1152,"Lu"},{1153,1153,"Ll"},{1154,1154,"So"},
{1155,1158,"Mn"},{1160,1161,"Me"},{1162,1162,"Lu"},{1163,1163,"Ll"},{1164,1164,"Lu"},{1165,1165,"Ll"},{1166,1166,"Lu"},
{1167,1167,"Ll"},{1168,1168,"Lu"},{1169,1169,"Ll"},{1170,1170,"Lu"},{1171,1171,"Ll"},{1172,1172,"Lu"},{1173,1173,"Ll"},
{1174,1174,"Lu"},{1175,1175,"Ll"},{1176,1176,"Lu"},{1177,1177,"Ll"},{1178,1178,"Lu"},{1179,1179,"Ll"},{1180,1180,"Lu"},
{1181,1181,"Ll"},{1182,1182,"Lu"},{1183,1183,"Ll"},{1184,1184,"Lu"},{1185,1185,"Ll"},{1186,1186,"Lu"},{1187,1187,"Ll"},
{1188,1188,"Lu"},{1189,1189,"Ll"},{1190,1190,"Lu"},{1191,1191,"Ll"},{1192,1192,"Lu"},{1193,1193,"Ll"},{1194,1194,"Lu"},
{1195,1195,"Ll"},{1196,1196,"Lu"},{1197,1197,"Ll"},{1198,1198,"Lu"},{1199,1199,"Ll"},{1200,1200,"Lu"},{1201,1201,"Ll"},
{1202,1202,"Lu"},{1203,1203,"Ll"},{1204,1204,"Lu"},{1205,1205,"Ll"},{1206,1206,"Lu"},{1207,1207,"Ll"},{1208,1208,"Lu"},
{1209,1209,"Ll"},{1210,1210,"Lu"},{1211,1211,"Ll"},{1212,1212,"Lu"},{1213,1213,"Ll"},{1214,1214,"Lu"},{1215,1215,"Ll"},
{1216,1217,"Lu"},{1218,1218,"Ll"},{1219,1219,"Lu"},{1220,1220,"Ll"},{1221,1221,"Lu"},{1222,1222,"Ll"},{1223,1223,"Lu"},
{1224,1224,"Ll"},{1225,1225,"Lu"},{1226,1226,"Ll"},{1227,1227,"Lu"},{1228,1228,"Ll"},{1229,1229,"Lu"},{1230,1230,"Ll"},
{1232,1232,"Lu"},{1233,1233,"Ll"},{1234,1234,"Lu"},{1235,1235,"Ll"},{1236,1236,"Lu"},{1237,1237,"Ll"},{1238,1238,"Lu"},
{1239,1239,"Ll"},{1240,1240,"Lu"},{1241,1241,"Ll"},{1242,1242,"Lu"},{1243,1243,"Ll"},{1244,1244,"Lu"},{1245,1245,"Ll"},
{1246,1246,"Lu"},{1247,1247,"Ll"},{1248,1248,"Lu"},{1249,1249,"Ll"},{1250,1250,"Lu"},{1251,1251,"Ll"},{1252,1252,"Lu"},
{1253,1253,"Ll"},{1254,1254,"Lu"},{1255,1255,"Ll"},{1256,1256,"Lu"},{1257,1257,"Ll"},{1258,1258,"Lu"},{1259,1259,"Ll"},
{1260,1260,"Lu"},{1261,1261,"Ll"},{1262,1262,"Lu"},{1263,1263,"Ll"},{1264,1264,"Lu"},{1265,1265,"Ll"},{1266,1266,"Lu"},
{1267,1267,"Ll"},{1268,1268,"Lu"},{1269,1269,"Ll"},{1272,1272,"Lu"},{1273,1273,"Ll"},{1280,1280,"Lu"},{1281,1281,"Ll"},
{1282,1282,"Lu"},{1283,1283,"Ll"},{1284,1284,"Lu"},{1285,1285,"Ll"},{1286,1286,"Lu"},{1287,1287,"Ll"},{1288,1288,"Lu"},
{1289,1289,"Ll"},{1290,1290,"Lu"},{1291,1291,"Ll"},{1292,1292,"Lu"},{1293,1293,"Ll"},{1294,1294,"Lu"},{1295,1295,"Ll"},
{1329,1366,"Lu"},{1369,1369,"Lm"},{1370,1375,"Po"},{1377,1415,"Ll"},{1417,1417,"Po"},{1418,1418,"Pd"},{1425,1441,"Mn"},
{1443,1465,"Mn"},{1467,1469,"Mn"},{1471,1471,"Mn"},{1472,1472,"Po"},{1473,1474,"Mn"},{1475,1475,"Po"},{1476,1476,"Mn"},
{1488,1514,"Lo"},{1520,1522,"Lo"},{1523,1524,"Po"},{1548,1548,"Po"},{1563,1563,"Po"},{1567,1567,"Po"},{1569,1594,"Lo"},
{1600,1600,"Lm"},{1601,1610,"Lo"},{1611,1621,"Mn"},{1632,1641,"Nd"},{1642,1645,"Po"},{1646,1647,"Lo"},{1648,1648,"Mn"},
{1649,1747,"Lo"},{1748,1748,"Po"},{1749,1749,"Lo"},{1750,1756,"Mn"},{1757,1757,"Cf"},{1759,1764,"Mn"},{1765,1766,"Lm"},
{1767,1768,"Mn"},{1769,1769,"So"},{1770,1773,"Mn"},{1776,1785,"Nd"},{1786,1788,"Lo"},{1789,1790,"So"},{1792,1805,"Po"},
{1807,1807,"Cf"},{1808,1808,"Lo"},{1809,1809,"Mn"},{1810,1836,"Lo"},{1840,1866,"Mn"},{1920,1957,"Lo"},{1958,1968,"Mn"},
{1969,1969,"Lo"},{2305,2306,"Mn"},{2307,2307,"Mc"},{2309,2361,"Lo"},{2364,2364,"Mn"},{2365,2365,"Lo"},{2366,2368,"Mc"},
{2369,2376,"Mn"},{2377,2380,"Mc"},{2381,2381,"Mn"},{2384,2384,"Lo"},{2385,2388,"Mn"},{2392,2401,"Lo"},{2402,2403,"Mn"},
{2404,2405,"Po"},{2406,2415,"Nd"},{2416,2416,"Po"},{2433,2433,"Mn"},{2434,2435,"Mc"},{2437,2444,"Lo"},{2447,2448,"Lo"},
{2451,2472,"Lo"},{2474,2480,"Lo"},{2482,2482,"Lo"},{2486,2489,"Lo"},{2492,2492,"Mn"},{2494,2496,"Mc"},{2497,2500,"Mn"},
{2503,2504,"Mc"},{2507,2508,"Mc"},{2509,2509,"Mn"},{2519,2519,"Mc"},{2524,2525,"Lo"},{2527,2529,"Lo"},{2530,2531,"Mn"},
{2534,2543,"Nd"},{2544,2545,"Lo"},{2546,2547,"Sc"},{2548,2553,"No"},{2554,2554,"So"},{2562,2562,"Mn"},{2565,2570,"Lo"},
{2575,2576,"Lo"},{2579,2600,"Lo"},{2602,2608,"Lo"},{2610,2611,"Lo"},{2613,2614,"Lo"},{2616,2617,"Lo"},{2620,2620,"Mn"},
{2622,2624,"Mc"},{2625,2626,"Mn"},{2631,2632,"Mn"},{2635,2637,"Mn"},{2649,2652,"Lo"},{2654,2654,"Lo"},{2662,2671,"Nd"},
{2672,2673,"Mn"},{2674,2676,"Lo"},{2689,2690,"Mn"},{2691,2691,"Mc"},{2693,2699,"Lo"},{2701,2701,"Lo"},{2703,2705,"Lo"},
{2707,2728,"Lo"},{2730,2736,"Lo"},{2738,2739,"Lo"},{2741,2745,"Lo"},{2748,2748,"Mn"},{2749,2749,"Lo"},{2750,2752,"Mc"},
{2753,2757,"Mn"},{2759,2760,"Mn"},{2761,2761,"Mc"},{2763,2764,"Mc"},{2765,2765,"Mn"},{2768,2768,"Lo"},{2784,2784,"Lo"},
{2790,2799,"Nd"},{2817,2817,"Mn"},{2818,2819,"Mc"},{2821,2828,"Lo"},{2831,2832,"Lo"},{2835,2856,"Lo"},{2858,2864,"Lo"},
{2866,2867,"Lo"},{2870,2873,"Lo"},{2876,2876,"Mn"},{2877,2877,"Lo"},{2878,2878,"Mc"},{2879,2879,"Mn"},{2880,2880,"Mc"},
{2881,2883,"Mn"},{2887,2888,"Mc"},{2891,2892,"Mc"},{2893,2893,"Mn"},{2902,2902,"Mn"},{2903,2903,"Mc"},{2908,2909,"Lo"},
{2911,2913,"Lo"},{2918,2927,"Nd"},{2928,2928,"So"},{2946,2946,"Mn"},{2947,2947,"Lo"},{2949,2954,"Lo"},{2958,2960,"Lo"},
{2962,2965,"Lo"},{2969,2970,"Lo"},{2972,2972,"Lo"},{2974,2975,"Lo"},{2979,2980,"Lo"},{2984,2986,"Lo"},{2990,2997,"Lo"},
{2999,3001,"Lo"},{3006,3007,"Mc"},{3008,3008,"Mn"},{3009,3010,"Mc"},{3014,3016,"Mc"},{3018,3020,"Mc"},{3021,3021,"Mn"},
{3031,3031,"Mc"},{3047,3055,"Nd"},{3056,3058,"No"},{3073,3075,"Mc"},{3077,3084,"Lo"},{3086,3088,"Lo"},{3090,3112,"Lo"},
{3114,3123,"Lo"},{3125,3129,"Lo"},{3134,3136,"Mn"},{3137,3140,"Mc"},{3142,3144,"Mn"},{3146,3149,"Mn"},{3157,3158,"Mn"},
{3168,3169,"Lo"},{3174,3183,"Nd"},{3202,3203,"Mc"},{3205,3212,"Lo"},{3214,3216,"Lo"},{3218,3240,"Lo"},{3242,3251,"Lo"},
{3253,3257,"Lo"},{3262,3262,"Mc"},{3263,3263,"Mn"},{3264,3268,"Mc"},{3270,3270,"Mn"},{3271,3272,"Mc"},{3274,3275,"Mc"},
{3276,3277,"Mn"},{3285,3286,"Mc"},{3294,3294,"Lo"},{3296,3297,"Lo"},{3302,3311,"Nd"},{3330,3331,"Mc"},{3333,3340,"Lo"},
{3342,3344,"Lo"},{3346,3368,"Lo"},{3370,3385,"Lo"},{3390,3392,"Mc"},{3393,3395,"Mn"},{3398,3400,"Mc"},{3402,3404,"Mc"},
{3405,3405,"Mn"},{3415,3415,"Mc"},{3424,3425,"Lo"},{3430,3439,"Nd"},{3458,3459,"Mc"},{3461,3478,"Lo"},{3482,3505,"Lo"},
{3507,3515,"Lo"},{3517,3517,"Lo"},{3520,3526,"Lo"},{3530,3530,"Mn"},{3535,3537,"Mc"},{3538,3540,"Mn"},{3542,3542,"Mn"},
{3544,3551,"Mc"},{3570,3571,"Mc"},{3572,3572,"Po"},{3585,3632,"Lo"},{3633,3633,"Mn"},{3634,3635,"Lo"},{3636,3642,"Mn"},
{3647,3647,"Sc"},{3648,3653,"Lo"},{3654,3654,"Lm"},{3655,3662,"Mn"},{3663,3663,"Po"},{3664,3673,"Nd"},{3674,3675,"Po"},
{3713,3714,"Lo"},{3716,3716,"Lo"},{3719,3720,"Lo"},{3722,3722,"Lo"},{3725,3725,"Lo"},{3732,3735,"Lo"},{3737,3743,"Lo"},
{3745,3747,"Lo"},{3749,3749,"Lo"},{3751,3751,"Lo"},{3754,3755,"Lo"},{3757,3760,"Lo"},{3761,3761,"Mn"},{3762,3763,"Lo"},
{3764,3769,"Mn"},{3771,3772,"Mn"},{3773,3773,"Lo"},{3776,3780,"Lo"},{3782,3782,"Lm"},{3784,3789,"Mn"},{3792,3801,"Nd"},
{3804,3805,"Lo"},{3840,3840,"Lo"},{3841,3843,"So"},{3844,3858,"Po"},{3859,3859,"So"},{3861,3863,"So"},{3864,3865,"Mn"},
{3866,3871,"So"},{3872,3881,"Nd"},{3882,3891,"No"},{3892,3892,"So"},{3893,3893,"Mn"},{3894,3894,"So"},{3895,3895,"Mn"},
{3896,3896,"So"},{3897,3897,"Mn"},{3898,3898,"Ps"},{3899,3899,"Pe"},{3900,3900,"Ps"},{3901,3901,"Pe"},{3902,3903,"Mc"},
{3904,3911,"Lo"},{3913,3946,"Lo"},{3953,3966,"Mn"},{3967,3967,"Mc"},{3968,3972,"Mn"},{3973,3973,"Po"},{3974,3975,"Mn"},
{3976,3979,"Lo"},{3984,3991,"Mn"},{3993,4028,"Mn"},{4030,4037,"So"},{4038,4038,"Mn"},{4039,4044,"So"},{4047,4047,"So"},
{4096,4129,"Lo"},{4131,4135,"Lo"},{4137,4138,"Lo"},{4140,4140,"Mc"},{4141,4144,"Mn"},{4145,4145,"Mc"},{4146,4146,"Mn"},
{4150,4151,"Mn"},{4152,4152,"Mc"},{4153,4153,"Mn"},{4160,4169,"Nd"},{4170,4175,"Po"},{4176,4181,"Lo"},{4182,4183,"Mc"},
{4184,4185,"Mn"},{4256,4293,"Lu"},{4347,4347,"Po"},{4352,4441,"Lo"},{4447,4514,"Lo"},{4520,4601,"Lo"},{4608,4614,"Lo"},
{4616,4678,"Lo"},{4680,4680,"Lo"},{4682,4685,"Lo"},{4688,4694,"Lo"},{4696,4696,"Lo"},{4698,4701,"Lo"},{4704,4742,"Lo"},
{4744,4744,"Lo"},{4746,4749,"Lo"},{4752,4782,"Lo"},{4784,4784,"Lo"},{4786,4789,"Lo"},{4792,4798,"Lo"},{4800,4800,"Lo"},
{4802,4805,"Lo"},{4808,4814,"Lo"},{4816,4822,"Lo"},{4824,4846,"Lo"},{4848,4878,"Lo"},{4880,4880,"Lo"},{4882,4885,"Lo"},
{4888,4894,"Lo"},{4896,4934,"Lo"},{4936,4954,"Lo"},{4961,4968,"Po"},{4978,4988,"No"},{5121,5740,"Lo"},{5742,5742,"Po"},
{5743,5750,"Lo"},{5760,5760,"Zs"},{5761,5786,"Lo"},{5787,5787,"Ps"},{5788,5788,"Pe"},{5792,5866,"Lo"},{5867,5869,"Po"},
{5870,5872,"Nl"},{5888,5900,"Lo"},{5902,5905,"Lo"},{5906,5908,"Mn"},{5920,5937,"Lo"},{5938,5939,"Mn"},{5941,5942,"Po"},
{5952,5969,"Lo"},{5970,5971,"Mn"},{5984,5996,"Lo"},{5998,6000,"Lo"},{6002,6003,"Mn"},{6016,6067,"Lo"},{6070,6070,"Mc"},
{6071,6077,"Mn"},{6078,6085,"Mc"},{6086,6086,"Mn"},{6087,6088,"Mc"},{6089,6099,"Mn"},{6100,6102,"Po"},{6103,6103,"Lm"},
{6104,6106,"Po"},{6107,6107,"Sc"},{6108,6108,"Lo"},{6112,6121,"Nd"},{6144,6149,"Po"},{6150,6150,"Pd"},{6151,6154,"Po"},
{6155,6157,"Mn"},{6160,6169,"Nd"},{6176,6210,"Lo"},{6211,6211,"Lm"},{6212,6263,"Lo"},{6272,6276,"Lo"},{6279,6312,"Lo"},
{6313,6313,"Mn"},{7680,7680,"Lu"},{7681,7681,"Ll"},{7682,7682,"Lu"},{7683,7683,"Ll"},{7684,7684,"Lu"},{7685,7685,"Ll"},
{7686,7686,"Lu"},{7687,7687,"Ll"},{7688,7688,"Lu"},{7689,7689,"Ll"},{7690,7690,"Lu"},{7691,7691,"Ll"},{7692,7692,"Lu"},
{7693,7693,"Ll"},{7694,7694,"Lu"},{7695,7695,"Ll"},{7696,7696,"Lu"},{7697,7697,"Ll"},{7698,7698,"Lu"},{7699,7699,"Ll"},
{7700,7700,"Lu"},{7701,7701,"Ll"},{7702,7702,"Lu"},{7703,7703,"Ll"},{7704,7704,"Lu"},{7705,7705,"Ll"},{7706,7706,"Lu"},
{7707,7707,"Ll"},{7708,7708,"Lu"},{7709,7709,"Ll"},{7710,7710,"Lu"},{7711,7711,"Ll"},{7712,7712,"Lu"},{7713,7713,"Ll"},
{7714,7714,"Lu"},{7715,7715,"Ll"},{7716,7716,"Lu"},{7717,7717,"Ll"},{7718,7718,"Lu"},{7719,7719,"Ll"},{7720,7720,"Lu"},
{7721,7721,"Ll"},{7722,7722,"Lu"},{7723,7723,"Ll"},{7724,7724,"Lu"},{7725,7725,"Ll"},{7726,7726,"Lu"},{7727,7727,"Ll"},
{7728,7728,"Lu"},{7729,7729,"Ll"},{7730,7730,"Lu"},{7731,7731,"Ll"},{7732,7732,"Lu"},{7733,7733,"Ll"},{7734,7734,"Lu"},
{7735,7735,"Ll"},{7736,7736,"Lu"},{7737,7737,"Ll"},{7738,7738,"Lu"},{7739,7739,"Ll"},{7740,7740,"Lu"},{7741,7741,"Ll"},
{7742,7742,"Lu"},{7743,7743,"Ll"},{7744,7744,"Lu"},{7745,7745,"Ll"},{7746,7746,"Lu"},{7747,7747,"Ll"},{7748,7748,"Lu"},
{7749,7749,"Ll"},{7750,7750,"Lu"},{7751,7751,"Ll"},{7752,7752,"Lu"},{7753,7753,"Ll"},{7754,7754,"Lu"},{7755,7755,"Ll"},
{7756,7756,"Lu"},{7757,7757,"Ll"},{7758,7758,"Lu"},{7759,7759,"Ll"},{7760,7760,"Lu"},{7761,7761,"Ll"},{7762,7762,"Lu"},
{7763,7763,"Ll"},{7764,7764,"Lu"},{7765,7765,"Ll"},{7766,7766,"Lu"},{7767,7767,"Ll"},{7768,7768,"Lu"},{7769,7769,"Ll"},
{7770,7770,"Lu"},{7771,7771,"Ll"},{7772,7772,"Lu"},{7773,7773,"Ll"},{7774,7774,"Lu"},{7775,7775,"Ll"},{7776,7776,"Lu"},
{7777,7777,"Ll"},{7778,7778,"Lu"},{7779,7779,"Ll"},{7780,7780,"Lu"},{7781,7781,"Ll"},{7782,7782,"Lu"},{7783,7783,"Ll"},
{7784,7784,"Lu"},{7785,7785,"Ll"},{7786,7786,"Lu"},{7787,7787,"Ll"},{7788,7788,"Lu"},{7789,7789,"Ll"},{7790,7790,"Lu"},
{7791,7791,"Ll"},{7792,7792,"Lu"},{7793,7793,"Ll"},{7794,7794,"Lu"},{7795,7795,"Ll"},{7796,7796,"Lu"},{7797,7797,"Ll"},
{7798,7798,"Lu"},{7799,7799,"Ll"},{7800,7800,"Lu"},{7801,7801,"Ll"},{7802,7802,"Lu"},{7803,7803,"Ll"},{7804,7804,"Lu"},
{7805,7805,"Ll"},{7806,7806,"Lu"},{7807,7807,"Ll"},{7808,7808,"Lu"},{7809,7809,"Ll"},{7810,7810,"Lu"},{7811,7811,"Ll"},
{7812,7812,"Lu"},{7813,7813,"Ll"},{7814,7814,"Lu"},{7815,7815,"Ll"},{7816,7816,"Lu"},{7817,7817,"Ll"},{7818,7818,"Lu"},
{7819,7819,"Ll"},{7820,7820,"Lu"},{7821,7821,"Ll"},{7822,7822,"Lu"},{7823,7823,"Ll"},{7824,7824,"Lu"},{7825,7825,"Ll"},
{7826,7826,"Lu"},{7827,7827,"Ll"},{7828,7828,"Lu"},{7829,7835,"Ll"},{7840,7840,"Lu"},{7841,7841,"Ll"},{7842,7842,"Lu"},
{7843,7843,"Ll"},{7844,7844,"Lu"},{7845,7845,"Ll"},{7846,7846,"Lu"},{7847,7847,"Ll"},{7848,7848,"Lu"},{7849,7849,"Ll"},
{7850,7850,"Lu"},{7851,7851,"Ll"},{7852,7852,"Lu"},{7853,7853,"Ll"},{7854,7854,"Lu"},{7855,7855,"Ll"},{7856,7856,"Lu"},
{7857,7857,"Ll"},{7858,7858,"Lu"},{7859,7859,"Ll"},{7860,7860,"Lu"},{7861,7861,"Ll"},{7862,7862,"Lu"},{7863,7863,"Ll"},
{7864,7864,"Lu"},{7865,7865,"Ll"},{7866,7866,"Lu"},{7867,7867,"Ll"},{7868,7868,"Lu"},{7869,7869,"Ll"},{7870,7870,"Lu"},
{7871,7871,"Ll"},{7872,7872,"Lu"},{7873,7873,"Ll"},{7874,7874,"Lu"},{7875,7875,"Ll"},{7876,7876,"Lu"},{7877,7877,"Ll"},
{7878,7878,"Lu"},{7879,7879,"Ll"},{7880,7880,"Lu"},{7881,7881,"Ll"},{7882,7882,"Lu"},{7883,7883,"Ll"},{7884,7884,"Lu"},
{7885,7885,"Ll"},{7886,7886,"Lu"},{7887,7887,"Ll"},{7888,7888,"Lu"},{7889,7889,"Ll"},{7890,7890,"Lu"},{7891,7891,"Ll"},
{7892,7892,"Lu"},{7893,7893,"Ll"},{7894,7894,"Lu"},{7895,7895,"Ll"},{7896,7896,"Lu"},{7897,7897,"Ll"},{7898,7898,"Lu"},
{7899,7899,"Ll"},{7900,7900,"Lu"},{7901,7901,"Ll"},{7902,7902,"Lu"},{7903,7903,"Ll"},{7904,7904,"Lu"},{7905,7905,"Ll"},
{7906,7906,"Lu"},{7907,7907,"Ll"},{7908,7908,"Lu"},{7909,7909,"Ll"},{7910,7910,"Lu"},{7911,7911,"Ll"},{7912,7912,"Lu"},
{7913,7913,"Ll"},{7914,7914,"Lu"},{7915,7915,"Ll"},{7916,7916,"Lu"},{7917,7917,"Ll"},{7918,7918,"Lu"},{7919,7919,"Ll"},
{7920,7920,"Lu"},{7921,7921,"Ll"},{7922,7922,"Lu"},{7923,7923,"Ll"},{7924,7924,"Lu"},{7925,7925,"Ll"},{7926,7926,"Lu"},
{7927,7927,"Ll"},{7928,7928,"Lu"},{7929,7929,"Ll"},{7936,7943,"Ll"},{7944,7951,"Lu"},{7952,7957,"Ll"},{7960,7965,"Lu"},
{7968,7975,"Ll"},{7976,7983,"Lu"},{7984,7991,"Ll"},{7992,7999,"Lu"},{8000,8005,"Ll"},{8008,8013,"Lu"},{8016,8023,"Ll"},
{8025,8025,"Lu"},{8027,8027,"Lu"},{8029,8029,"Lu"},{8031,8031,"Lu"},{8032,8039,"Ll"},{8040,8047,"Lu"},{8048,8061,"Ll"},
{8064,8071,"Ll"},{8072,8079,"Lt"},{8080,8087,"Ll"},{8088,8095,"Lt"},{8096,8103,"Ll"},{8104,8111,"Lt"},{8112,8116,"Ll"},
{8118,8119,"Ll"},{8120,8123,"Lu"},{8124,8124,"Lt"},{8125,8125,"Sk"},{8126,8126,"Ll"},{8127,8129,"Sk"},{8130,8132,"Ll"},
{8134,8135,"Ll"},{8136,8139,"Lu"},{8140,8140,"Lt"},{8141,8143,"Sk"},{8144,8147,"Ll"},{8150,8151,"Ll"},{8152,8155,"Lu"},
{8157,8159,"Sk"},{8160,8167,"Ll"},{8168,8172,"Lu"},{8173,8175,"Sk"},{8178,8180,"Ll"},{8182,8183,"Ll"},{8184,8187,"Lu"},
{8188,8188,"Lt"},{8189,8190,"Sk"},{8192,8202,"Zs"},{8204,8207,"Cf"},{8208,8213,"Pd"},{8214,8215,"Po"},{8216,8216,"Pi"},
{8217,8217,"Pf"},{8218,8218,"Ps"},{8219,8220,"Pi"},{8221,8221,"Pf"},{8222,8222,"Ps"},{8223,8223,"Pi"},{8224,8231,"Po"},
{8232,8232,"Zl"},{8233,8233,"Zp"},{8234,8238,"Cf"},{8239,8239,"Zs"},{8240,8248,"Po"},{8249,8249,"Pi"},{8250,8250,"Pf"},
{8251,8254,"Po"},{8255,8256,"Pc"},{8257,8259,"Po"},{8260,8260,"Sm"},{8261,8261,"Ps"},{8262,8262,"Pe"},{8263,8273,"Po"},
{8274,8274,"Sm"},{8279,8279,"Po"},{8287,8287,"Zs"},{8288,8291,"Cf"},{8298,8303,"Cf"},{8304,8304,"No"},{8308,8313,"No"},
{8314,8316,"Sm"},{8317,8317,"Ps"},{8318,8318,"Pe"},{8320,8329,"No"},{8330,8332,"Sm"},{8333,8333,"Ps"},{8334,8334,"Pe"},
{8352,8369,"Sc"},{8400,8412,"Mn"},{8413,8416,"Me"},{8417,8417,"Mn"},{8418,8420,"Me"},{8421,8426,"Mn"},{8448,8449,"So"},
{8450,8450,"Lu"},{8451,8454,"So"},{8455,8455,"Lu"},{8456,8457,"So"},{8458,8458,"Ll"},{8459,8461,"Lu"},{8462,8463,"Ll"},
{8464,8466,"Lu"},{8467,8467,"Ll"},{8468,8468,"So"},{8469,8469,"Lu"},{8470,8471,"So"},{8473,8477,"Lu"},{8478,8483,"So"},
{8484,8484,"Lu"},{8485,8485,"So"},{8486,8486,"Lu"},{8487,8487,"So"},{8488,8488,"Lu"},{8489,8489,"So"},{8490,8493,"Lu"},
{8494,8494,"So"},{8495,8495,"Ll"},{8496,8497,"Lu"},{8499,8499,"Lu"},{8500,8500,"Ll"},{8501,8504,"Lo"},{8505,8505,"Ll"},
{8506,8506,"So"},{8509,8509,"Ll"},{8510,8511,"Lu"},{8512,8516,"Sm"},{8517,8517,"Lu"},{8518,8521,"Ll"},{8522,8522,"So"},
{8523,8523,"Sm"},{8531,8543,"No"},{8544,8578,"Nl"},{8592,8596,"Sm"},{8597,8601,"So"},{8602,8603,"Sm"},{8604,8607,"So"},
{8608,8608,"Sm"},{8609,8610,"So"},{8611,8611,"Sm"},{8612,8613,"So"},{8614,8614,"Sm"},{8615,8621,"So"},{8622,8622,"Sm"},
{8623,8653,"So"},{8654,8655,"Sm"},{8656,8657,"So"},{8658,8658,"Sm"},{8659,8659,"So"},{8660,8660,"Sm"},{8661,8691,"So"},
{8692,8959,"Sm"},{8960,8967,"So"},{8972,8991,"So"},{8992,8993,"Sm"},{8994,9000,"So"},{9001,9001,"Ps"},{9002,9002,"Pe"},
{9003,9083,"So"},{9084,9084,"Sm"},{9085,9114,"So"},{9115,9139,"Sm"},{9143,9166,"So"},{9216,9254,"So"},{9280,9290,"So"},
{9312,9371,"No"},{9372,9449,"So"},{9450,9470,"No"},{9472,9654,"So"},{9655,9655,"Sm"},{9656,9664,"So"},{9665,9665,"Sm"},
{9666,9719,"So"},{9720,9727,"Sm"},{9728,9747,"So"},{9750,9751,"So"},{9753,9838,"So"},{9839,9839,"Sm"},{9840,9853,"So"},
{9856,9865,"So"},{9985,9988,"So"},{9990,9993,"So"},{9996,10023,"So"},{10025,10059,"So"},{10061,10061,"So"},{10063,10066,"So"},
{10070,10070,"So"},{10072,10078,"So"},{10081,10087,"So"},{10088,10088,"Ps"},{10089,10089,"Pe"},{10090,10090,"Ps"},
{10091,10091,"Pe"},{10092,10092,"Ps"},{10093,10093,"Pe"},{10094,10094,"Ps"},{10095,10095,"Pe"},{10096,10096,"Ps"},
{10097,10097,"Pe"},{10098,10098,"Ps"},{10099,10099,"Pe"},{10100,10100,"Ps"},{10101,10101,"Pe"},{10102,10131,"No"},
{10132,10132,"So"},{10136,10159,"So"},{10161,10174,"So"},{10192,10213,"Sm"},{10214,10214,"Ps"},{10215,10215,"Pe"},
{10216,10216,"Ps"},{10217,10217,"Pe"},{10218,10218,"Ps"},{10219,10219,"Pe"},{10224,10239,"Sm"},{10240,10495,"So"},
{10496,10626,"Sm"},{10627,10627,"Ps"},{10628,10628,"Pe"},{10629,10629,"Ps"},{10630,10630,"Pe"},{10631,10631,"Ps"},
{10632,10632,"Pe"},{10633,10633,"Ps"},{10634,10634,"Pe"},{10635,10635,"Ps"},{10636,10636,"Pe"},{10637,10637,"Ps"},
{10638,10638,"Pe"},{10639,10639,"Ps"},{10640,10640,"Pe"},{10641,10641,"Ps"},{10642,10642,"Pe"},{10643,10643,"Ps"},
{10644,10644,"Pe"},{10645,10645,"Ps"},{10646,10646,"Pe"},{10647,10647,"Ps"},{10648,10648,"Pe"},{10649,10711,"Sm"},
{10712,10712,"Ps"},{10713,10713,"Pe"},{10714,10714,"Ps"},{10715,10715,"Pe"},{10716,10747,"Sm"},{10748,10748,"Ps"},
{10749,10749,"Pe"},{10750,11007,"Sm"},{11904,11929,"So"},{11931,12019,"So"},{12032,12245,"So"},{12272,12283,"So"},
{12288,12288,"Zs"},{12289,12291,"Po"},{12292,12292,"So"},{12293,12293,"Lm"},{12294,12294,"Lo"},{12295,12295,"Nl"},
{12296,12296,"Ps"},{12297,12297,"Pe"},{12298,12298,"Ps"},{12299,12299,"Pe"},{12300,12300,"Ps"},{12301,12301,"Pe"},
{12302,12302,"Ps"},{12303,12303,"Pe"},{12304,12304,"Ps"},{12305,12305,"Pe"},{12306,12307,"So"},{12308,12308,"Ps"},
{12309,12309,"Pe"},{12310,12310,"Ps"},{12311,12311,"Pe"},{12312,12312,"Ps"},{12313,12313,"Pe"},{12314,12314,"Ps"},
{12315,12315,"Pe"},{12316,12316,"Pd"},{12317,12317,"Ps"},{12318,12319,"Pe"},{12320,12320,"So"},{12321,12329,"Nl"},
{12330,12333,"Mn"},{12336,12336,"Pd"},{12337,12341,"Lm"},{12342,12343,"So"},{12344,12346,"Nl"},{12347,12347,"Lm"},
{12348,12348,"Lo"},{12349,12349,"Po"},{12350,12351,"So"},{12353,12438,"Lo"},{12441,12442,"Mn"},{12443,12444,"Sk"},
{12445,12446,"Lm"},{12447,12447,"Lo"},{12448,12448,"Pd"},{12449,12538,"Lo"},{12540,12542,"Lm"},{12543,12543,"Lo"},
{12549,12588,"Lo"},{12593,12686,"Lo"},{12688,12689,"So"},{12690,12693,"No"},{12694,12703,"So"},{12704,12727,"Lo"},
{12784,12799,"Lo"},{12800,12828,"So"},{12832,12841,"No"},{12842,12867,"So"},{12881,12895,"No"},{12896,12923,"So"},
{12927,12927,"So"},{12928,12937,"No"},{12938,12976,"So"},{12977,12991,"No"},{12992,13003,"So"},{13008,13054,"So"},
{13056,13174,"So"},{13179,13277,"So"},{13280,13310,"So"},{13312,19893,"Lo"},{19968,40869,"Lo"},{40960,40980,"Lo"},
{40982,42124,"Lo"},{42128,42182,"So"},{44032,55203,"Lo"},{55296,57343,"Cs"},{57344,63743,"Co"},{63744,64045,"Lo"},
{64048,64106,"Lo"},{64256,64262,"Ll"},{64275,64279,"Ll"},{64285,64285,"Lo"},{64286,64286,"Mn"},{64287,64296,"Lo"},
{64297,64297,"Sm"},{64298,64310,"Lo"},{64312,64316,"Lo"},{64318,64318,"Lo"},{64320,64321,"Lo"},{64323,64324,"Lo"},
{64326,64433,"Lo"},{64467,64829,"Lo"},{64848,64911,"Lo"},{64914,64967,"Lo"},{65008,65019,"Lo"},{65020,65020,"Sc"},
{65024,65039,"Mn"},{65056,65059,"Mn"},{65072,65072,"Po"},{65073,65074,"Pd"},{65075,65076,"Pc"},{65077,65077,"Ps"},
{65078,65078,"Pe"},{65079,65079,"Ps"},{65080,65080,"Pe"},{65081,65081,"Ps"},{65082,65082,"Pe"},{65083,65083,"Ps"},
{65084,65084,"Pe"},{65085,65085,"Ps"},{65086,65086,"Pe"},{65087,65087,"Ps"},{65088,65088,"Pe"},{65089,65089,"Ps"},
{65090,65090,"Pe"},{65091,65091,"Ps"},{65092,65092,"Pe"},{65093,65094,"Po"},{65097,65100,"Po"},{65101,65103,"Pc"},
{65104,65106,"Po"},{65108,65111,"Po"},{65112,65112,"Pd"},{65113,65113,"Ps"},{65114,65114,"Pe"},{65115,65115,"Ps"},
{65116,65116,"Pe"},{65117,65117,"Ps"},{65118,65118,"Pe"},{65119,65121,"Po"},{65122,65122,"Sm"},{65123,65123,"Pd"},
{65124,65126,"Sm"},{65128,65128,"Po"},{65129,65129,"Sc"},{65130,65131,"Po"},{65136,65140,"Lo"},{65142,65276,"Lo"},
{65279,65279,"Cf"},{65281,65283,"Po"},{65284,65284,"Sc"},{65285,65287,"Po"},{65288,65288,"Ps"},{65289,65289,"Pe"},
{65290,65290,"Po"},{65291,65291,"Sm"},{65292,65292,"Po"},{65293,65293,"Pd"},{65294,65295,"Po"},{65296,65305,"Nd"},
{65306,65307,"Po"},{65308,65310,"Sm"},{65311,65312,"Po"},{65313,65338,"Lu"},{65339,65339,"Ps"},{65340,65340,"Po"},
{65341,65341,"Pe"},{65342,65342,"Sk"},{65343,65343,"Pc"},{65344,65344,"Sk"},{65345,65370,"Ll"},{65371,65371,"Ps"},
{65372,65372,"Sm"},{65373,65373,"Pe"},{65374,65374,"Sm"},{65375,65375,"Ps"},{65376,65376,"Pe"},{65377,65377,"Po"},
{65378,65378,"Ps"},{65379,65379,"Pe"},{65380,65380,"Po"},{65382,65391,"Lo"},{65392,65392,"Lm"},{65393,65437,"Lo"},
{65438,65439,"Lm"},{65440,65470,"Lo"},{65474,65479,"Lo"},{65482,65487,"Lo"},{65490,65495,"Lo"},{65498,65500,"Lo"},
{65504,65505,"Sc"},{65506,65506,"Sm"},{65507,65507,"Sk"},{65508,65508,"So"},{65509,65510,"Sc"},{65512,65512,"So"},
{65513,65516,"Sm"},{65517,65518,"So"},{65529,65531,"Cf"},{65532,65533,"So"},{66304,66334,"Lo"},{66336,66339,"No"},
{66352,66368,"Lo"},{66370,66377,"Lo"},{66378,66378,"Nl"},{66560,66597,"Lu"},{66600,66637,"Ll"},{118784,119029,"So"},
{119040,119078,"So"},{119082,119140,"So"},{119141,119142,"Mc"},{119143,119145,"Mn"},{119146,119148,"So"},{119149,119154,"Mc"},
{119155,119162,"Cf"},{119163,119170,"Mn"},{119171,119172,"So"},{119173,119179,"Mn"},{119180,119209,"So"},{119210,119213,"Mn"},
{119214,119261,"So"},{119808,119833,"Lu"},{119834,119859,"Ll"},{119860,119885,"Lu"},{119886,119892,"Ll"},{119894,119911,"Ll"},
{119912,119937,"Lu"},{119938,119963,"Ll"},{119964,119964,"Lu"},{119966,119967,"Lu"},{119970,119970,"Lu"},{119973,119974,"Lu"},
{119977,119980,"Lu"},{119982,119989,"Lu"},{119990,119993,"Ll"},{119995,119995,"Ll"},{119997,120000,"Ll"},{120002,120003,"Ll"},
{120005,120015,"Ll"},{120016,120041,"Lu"},{120042,120067,"Ll"},{120068,120069,"Lu"},{120071,120074,"Lu"},{120077,120084,"Lu"},
{120086,120092,"Lu"},{120094,120119,"Ll"},{120120,120121,"Lu"},{120123,120126,"Lu"},{120128,120132,"Lu"},{120134,120134,"Lu"},
{120138,120144,"Lu"},{120146,120171,"Ll"},{120172,120197,"Lu"},{120198,120223,"Ll"},{120224,120249,"Lu"},{120250,120275,"Ll"},
{120276,120301,"Lu"},{120302,120327,"Ll"},{120328,120353,"Lu"},{120354,120379,"Ll"},{120380,120405,"Lu"},{120406,120431,"Ll"},
{120432,120457,"Lu"},{120458,120483,"Ll"},{120488,120512,"Lu"},{120513,120513,"Sm"},{120514,120538,"Ll"},{120539,120539,"Sm"},
{120540,120545,"Ll"},{120546,120570,"Lu"},{120571,120571,"Sm"},{120572,120596,"Ll"},{120597,120597,"Sm"},{120598,120603,"Ll"},
{120604,120628,"Lu"},{120629,120629,"Sm"},{120630,120654,"Ll"},{120655,120655,"Sm"},{120656,120661,"Ll"},{120662,120686,"Lu"},
{120687,120687,"Sm"},{120688,120712,"Ll"},{120713,120713,"Sm"},{120714,120719,"Ll"},{120720,120744,"Lu"},{120745,120745,"Sm"},
{120746,120770,"Ll"},{120771,120771,"Sm"},{120772,120777,"Ll"},{120782,120831,"Nd"},{131072,173782,"Lo"},{194560,195101,"Lo"},
{917505,917505,"Cf"},{917536,917631,"Cf"},{983040,1048573,"Co"},{1048576,1114109,"Co"},
};
struct ucd_upper_t { int from, to; };
static const ucd_upper_t ucd_upper[] = {
{97,65},{98,66},{99,67},{100,68},{101,69},{102,70},{103,71},{104,72},{105,73},{106,74},{107,75},{108,76},{109,77},
{110,78},{111,79},{112,80},{113,81},{114,82},{115,83},{116,84},{117,85},{118,86},{119,87},{120,88},{121,89},{122,90},
{181,924},{223,-1},{224,192},{225,193},{226,194},{227,195},{228,196},{229,197},{230,198},{231,199},{232,200},{233,201},
{234,202},{235,203},{236,204},{237,205},{238,206},{239,207},{240,208},{241,209},{242,210},{243,211},{244,212},{245,213},
{246,214},{248,216},{249,217},{250,218},{251,219},{252,220},{253,221},{254,222},{255,376},{257,256},{259,258},{261,260},
{263,262},{265,264},{267,266},{269,268},{271,270},{273,272},{275,274},{277,276},{279,278},{281,280},{283,282},{285,284},
{287,286},{289,288},{291,290},{293,292},{295,294},{297,296},{299,298},{301,300},{303,302},{305,73},{307,306},{309,308},
{311,310},{314,313},{316,315},{318,317},{320,319},{322,321},{324,323},{326,325},{328,327},{329,-1},{331,330},{333,332},
{335,334},{337,336},{339,338},{341,340},{343,342},{345,344},{347,346},{349,348},{351,350},{353,352},{355,354},{357,356},
{359,358},{361,360},{363,362},{365,364},{367,366},{369,368},{371,370},{373,372},{375,374},{378,377},{380,379},{382,381},
{383,83},{384,-1},{387,386},{389,388},{392,391},{396,395},{402,401},{405,502},{409,408},{410,-1},{414,544},{417,416},
{419,418},{421,420},{424,423},{429,428},{432,431},{436,435},{438,437},{441,440},{445,444},{447,503},{453,452},{454,452},
{456,455},{457,455},{459,458},{460,458},{462,461},{464,463},{466,465},{468,467},{470,469},{472,471},{474,473},{476,475},
{477,398},{479,478},{481,480},{483,482},{485,484},{487,486},{489,488},{491,490},{493,492},{495,494},{496,-1},{498,497},
{499,497},{501,500},{505,504},{507,506},{509,508},{511,510},{513,512},{515,514},{517,516},{519,518},{521,520},{523,522},
{525,524},{527,526},{529,528},{531,530},{533,532},{535,534},{537,536},{539,538},{541,540},{543,542},{547,546},{549,548},
{551,550},{553,552},{555,554},{557,556},{559,558},{561,560},{563,562},{592,-1},{593,-1},{594,-1},{595,385},{596,390},
{598,393},{599,394},{601,399},{603,400},{604,-1},{608,403},{609,-1},{611,404},{613,-1},{614,-1},{616,407},{617,406},
{618,-1},{619,-1},{620,-1},{623,412},{625,-1},{626,413},{629,415},{637,-1},{640,422},{642,-1},{643,425},{647,-1},
{648,430},{649,-1},{650,433},{651,434},{652,-1},{658,439},{669,-1},{670,-1},{837,921},{912,-1},{940,902},{941,904},
{942,905},{943,906},{944,-1},{945,913},{946,914},{947,915},{948,916},{949,917},{950,918},{951,919},{952,920},{953,921},
{954,922},{955,923},{956,924},{957,925},{958,926},{959,927},{960,928},{961,929},{962,931},{963,931},{964,932},{965,933},
{966,934},{967,935},{968,936},{969,937},{970,938},{971,939},{972,908},{973,910},{974,911},{976,914},{977,920},{981,934},
{982,928},{983,-1},{985,984},{987,986},{989,988},{991,990},{993,992},{995,994},{997,996},{999,998},{1001,1000},
{1003,1002},{1005,1004},{1007,1006},{1008,922},{1009,929},{1010,-1},{1011,-1},{1013,917},{1072,1040},{1073,1041},
{1074,1042},{1075,1043},{1076,1044},{1077,1045},{1078,1046},{1079,1047},{1080,1048},{1081,1049},{1082,1050},{1083,1051},
{1084,1052},{1085,1053},{1086,1054},{1087,1055},{1088,1056},{1089,1057},{1090,1058},{1091,1059},{1092,1060},{1093,1061},
{1094,1062},{1095,1063},{1096,1064},{1097,1065},{1098,1066},{1099,1067},{1100,1068},{1101,1069},{1102,1070},{1103,1071},
{1104,1024},{1105,1025},{1106,1026},{1107,1027},{1108,1028},{1109,1029},{1110,1030},{1111,1031},{1112,1032},{1113,1033},
{1114,1034},{1115,1035},{1116,1036},{1117,1037},{1118,1038},{1119,1039},{1121,1120},{1123,1122},{1125,1124},{1127,1126},
{1129,1128},{1131,1130},{1133,1132},{1135,1134},{1137,1136},{1139,1138},{1141,1140},{1143,1142},{1145,1144},{1147,1146},
{1149,1148},{1151,1150},{1153,1152},{1163,1162},{1165,1164},{1167,1166},{1169,1168},{1171,1170},{1173,1172},{1175,1174},
{1177,1176},{1179,1178},{1181,1180},{1183,1182},{1185,1184},{1187,1186},{1189,1188},{1191,1190},{1193,1192},{1195,1194},
{1197,1196},{1199,1198},{1201,1200},{1203,1202},{1205,1204},{1207,1206},{1209,1208},{1211,1210},{1213,1212},{1215,1214},
{1218,1217},{1220,1219},{1222,1221},{1224,1223},{1226,1225},{1228,1227},{1230,1229},{1233,1232},{1235,1234},{1237,1236},
{1239,1238},{1241,1240},{1243,1242},{1245,1244},{1247,1246},{1249,1248},{1251,1250},{1253,1252},{1255,1254},{1257,1256},
{1259,1258},{1261,1260},{1263,1262},{1265,1264},{1267,1266},{1269,1268},{1273,1272},{1281,1280},{1283,1282},{1285,1284},
{1287,1286},{1289,1288},{1291,1290},{1293,1292},{1295,1294},{1377,1329},{1378,1330},{1379,1331},{1380,1332},{1381,1333},
{1382,1334},{1383,1335},{1384,1336},{1385,1337},{1386,1338},{1387,1339},{1388,1340},{1389,1341},{1390,1342},{1391,1343},
{1392,1344},{1393,1345},{1394,1346},{1395,1347},{1396,1348},{1397,1349},{1398,1350},{1399,1351},{1400,1352},{1401,1353},
{1402,1354},{1403,1355},{1404,1356},{1405,1357},{1406,1358},{1407,1359},{1408,1360},{1409,1361},{1410,1362},{1411,1363},
{1412,1364},{1413,1365},{1414,1366},{1415,-1},{7681,7680},{7683,7682},{7685,7684},{7687,7686},{7689,7688},{7691,7690},
{7693,7692},{7695,7694},{7697,7696},{7699,7698},{7701,7700},{7703,7702},{7705,7704},{7707,7706},{7709,7708},{7711,7710},
{7713,7712},{7715,7714},{7717,7716},{7719,7718},{7721,7720},{7723,7722},{7725,7724},{7727,7726},{7729,7728},{7731,7730},
{7733,7732},{7735,7734},{7737,7736},{7739,7738},{7741,7740},{7743,7742},{7745,7744},{7747,7746},{7749,7748},{7751,7750},
{7753,7752},{7755,7754},{7757,7756},{7759,7758},{7761,7760},{7763,7762},{7765,7764},{7767,7766},{7769,7768},{7771,7770},
{7773,7772},{7775,7774},{7777,7776},{7779,7778},{7781,7780},{7783,7782},{7785,7784},{7787,7786},{7789,7788},{7791,7790},
{7793,7792},{7795,7794},{7797,7796},{7799,7798},{7801,7800},{7803,7802},{7805,7804},{7807,7806},{7809,7808},{7811,7810},
{7813,7812},{7815,7814},{7817,7816},{7819,7818},{7821,7820},{7823,7822},{7825,7824},{7827,7826},{7829,7828},{7830,-1},
{7831,-1},{7832,-1},{7833,-1},{7834,-1},{7835,7776},{7841,7840},{7843,7842},{7845,7844},{7847,7846},{7849,7848},
{7851,7850},{7853,7852},{7855,7854},{7857,7856},{7859,7858},{7861,7860},{7863,7862},{7865,7864},{7867,7866},{7869,7868},
{7871,7870},{7873,7872},{7875,7874},{7877,7876},{7879,7878},{7881,7880},{7883,7882},{7885,7884},{7887,7886},{7889,7888},
{7891,7890},{7893,7892},{7895,7894},{7897,7896},{7899,7898},{7901,7900},{7903,7902},{7905,7904},{7907,7906},{7909,7908},
{7911,7910},{7913,7912},{7915,7914},{7917,7916},{7919,7918},{7921,7920},{7923,7922},{7925,7924},{7927,7926},{7929,7928},
{7936,7944},{7937,7945},{7938,7946},{7939,7947},{7940,7948},{7941,7949},{7942,7950},{7943,7951},{7952,7960},{7953,7961},
{7954,7962},{7955,7963},{7956,7964},{7957,7965},{7968,7976},{7969,7977},{7970,7978},{7971,7979},{7972,7980},{7973,7981},
{7974,7982},{7975,7983},{7984,7992},{7985,7993},{7986,7994},{7987,7995},{7988,7996},{7989,7997},{7990,7998},{7991,7999},
{8000,8008},{8001,8009},{8002,8010},{8003,8011},{8004,8012},{8005,8013},{8016,-1},{8017,8025},{8018,-1},{8019,8027},
{8020,-1},{8021,8029},{8022,-1},{8023,8031},{8032,8040},{8033,8041},{8034,8042},{8035,8043},{8036,8044},{8037,8045},
{8038,8046},{8039,8047},{8048,8122},{8049,8123},{8050,8136},{8051,8137},{8052,8138},{8053,8139},{8054,8154},{8055,8155},
{8056,8184},{8057,8185},{8058,8170},{8059,8171},{8060,8186},{8061,8187},{8064,-1},{8065,-1},{8066,-1},{8067,-1},
{8068,-1},{8069,-1},{8070,-1},{8071,-1},{8072,-1},{8073,-1},{8074,-1},{8075,-1},{8076,-1},{8077,-1},{8078,-1},{8079,-1},
{8080,-1},{8081,-1},{8082,-1},{8083,-1},{8084,-1},{8085,-1},{8086,-1},{8087,-1},{8088,-1},{8089,-1},{8090,-1},{8091,-1},
{8092,-1},{8093,-1},{8094,-1},{8095,-1},{8096,-1},{8097,-1},{8098,-1},{8099,-1},{8100,-1},{8101,-1},{8102,-1},{8103,-1},
{8104,-1},{8105,-1},{8106,-1},{8107,-1},{8108,-1},{8109,-1},{8110,-1},{8111,-1},{8112,8120},{8113,8121},{8114,-1},
{8115,-1},{8116,-1},{8118,-1},{8119,-1},{8124,-1},{8126,921},{8130,-1},{8131,-1},{8132,-1},{8134,-1},{8135,-1},
{8140,-1},{8144,8152},{8145,8153},{8146,-1},{8147,-1},{8150,-1},{8151,-1},{8160,8168},{8161,8169},{8162,-1},{8163,-1},
{8164,-1},{8165,8172},{8166,-1},{8167,-1},{8178,-1},{8179,-1},{8180,-1},{8182,-1},{8183,-1},{8188,-1},{8560,8544},
{8561,8545},{8562,8546},{8563,8547},{8564,8548},{8565,8549},{8566,8550},{8567,8551},{8568,8552},{8569,8553},{8570,8554},
{8571,8555},{8572,8556},{8573,8557},{8574,8558},{8575,8559},{9424,9398},{9425,9399},{9426,9400},{9427,9401},{9428,9402},
{9429,9403},{9430,9404},{9431,9405},{9432,9406},{9433,9407},{9434,9408},{9435,9409},{9436,9410},{9437,9411},{9438,9412},
{9439,9413},{9440,9414},{9441,9415},{9442,9416},{9443,9417},{9444,9418},{9445,9419},{9446,9420},{9447,9421},{9448,9422},
{9449,9423},{64256,-1},{64257,-1},{64258,-1},{64259,-1},{64260,-1},{64261,-1},{64262,-1},{64275,-1},{64276,-1},
{64277,-1},{64278,-1},{64279,-1},{65345,65313},{65346,65314},{65347,65315},{65348,65316},{65349,65317},{65350,65318},
{65351,65319},{65352,65320},{65353,65321},{65354,65322},{65355,65323},{65356,65324},{65357,65325},{65358,65326},
{65359,65327},{65360,65328},{65361,65329},{65362,65330},{65363,65331},{65364,65332},{65365,65333},{65366,65334},
{65367,65335},{65368,65336},{65369,65337},{65370,65338},{66600,66560},{66601,66561},{66602,66562},{66603,66563},
{66604,66564},{66605,66565},{66606,66566},{66607,66567},{66608,66568},{66609,66569},{66610,66570},{66611,66571},
{66612,66572},{66613,66573},{66614,66574},{66615,66575},{66616,66576},{66617,66577},{66618,66578},{66619,66579},
{66620,66580},{66621,66581},{66622,66582},{66623,66583},{66624,66584},{66625,66585},{66626,66586},{66627,66587},
{66628,66588},{66629,66589},{66630,66590},{66631,66591},{66632,66592},{66633,66593},{66634,66594},{66635,66595},
{66636,66596},{66637,66597},
};
struct ucd_lower_t { int from, to; };
static const ucd_lower_t ucd_lower[] = {
{65,97},{66,98},{67,99},{68,100},{69,101},{70,102},{71,103},{72,104},{73,105},{74,106},{75,107},{76,108},{77,109},
{78,110},{79,111},{80,112},{81,113},{82,114},{83,115},{84,116},{85,117},{86,118},{87,119},{88,120},{89,121},{90,122},
{192,224},{193,225},{194,226},{195,227},{196,228},{197,229},{198,230},{199,231},{200,232},{201,233},{202,234},{203,235},
{204,236},{205,237},{206,238},{207,239},{208,240},{209,241},{210,242},{211,243},{212,244},{213,245},{214,246},{216,248},
{217,249},{218,250},{219,251},{220,252},{221,253},{222,254},{256,257},{258,259},{260,261},{262,263},{264,265},{266,267},
{268,269},{270,271},{272,273},{274,275},{276,277},{278,279},{280,281},{282,283},{284,285},{286,287},{288,289},{290,291},
{292,293},{294,295},{296,297},{298,299},{300,301},{302,303},{304,-1},{306,307},{308,309},{310,311},{313,314},{315,316},
{317,318},{319,320},{321,322},{323,324},{325,326},{327,328},{330,331},{332,333},{334,335},{336,337},{338,339},{340,341},
{342,343},{344,345},{346,347},{348,349},{350,351},{352,353},{354,355},{356,357},{358,359},{360,361},{362,363},{364,365},
{366,367},{368,369},{370,371},{372,373},{374,375},{376,255},{377,378},{379,380},{381,382},{385,595},{386,387},{388,389},
{390,596},{391,392},{393,598},{394,599},{395,396},{398,477},{399,601},{400,603},{401,402},{403,608},{404,611},{406,617},
{407,616},{408,409},{412,623},{413,626},{415,629},{416,417},{418,419},{420,421},{422,640},{423,424},{425,643},{428,429},
{430,648},{431,432},{433,650},{434,651},{435,436},{437,438},{439,658},{440,441},{444,445},{452,454},{453,454},{455,457},
{456,457},{458,460},{459,460},{461,462},{463,464},{465,466},{467,468},{469,470},{471,472},{473,474},{475,476},{478,479},
{480,481},{482,483},{484,485},{486,487},{488,489},{490,491},{492,493},{494,495},{497,499},{498,499},{500,501},{502,405},
{503,447},{504,505},{506,507},{508,509},{510,511},{512,513},{514,515},{516,517},{518,519},{520,521},{522,523},{524,525},
{526,527},{528,529},{530,531},{532,533},{534,535},{536,537},{538,539},{540,541},{542,543},{544,414},{546,547},{548,549},
{550,551},{552,553},{554,555},{556,557},{558,559},{560,561},{562,563},{902,940},{904,941},{905,942},{906,943},{908,972},
{910,973},{911,974},{913,945},{914,946},{915,947},{916,948},{917,949},{918,950},{919,951},{920,952},{921,953},{922,954},
{923,955},{924,956},{925,957},{926,958},{927,959},{928,960},{929,961},{931,963},{932,964},{933,965},{934,966},{935,967},
{936,968},{937,969},{938,970},{939,971},{984,985},{986,987},{988,989},{990,991},{992,993},{994,995},{996,997},{998,999},
{1000,1001},{1002,1003},{1004,1005},{1006,1007},{1012,952},{1024,1104},{1025,1105},{1026,1106},{1027,1107},{1028,1108},
{1029,1109},{1030,1110},{1031,1111},{1032,1112},{1033,1113},{1034,1114},{1035,1115},{1036,1116},{1037,1117},{1038,1118},
{1039,1119},{1040,1072},{1041,1073},{1042,1074},{1043,1075},{1044,1076},{1045,1077},{1046,1078},{1047,1079},{1048,1080},
{1049,1081},{1050,1082},{1051,1083},{1052,1084},{1053,1085},{1054,1086},{1055,1087},{1056,1088},{1057,1089},{1058,1090},
{1059,1091},{1060,1092},{1061,1093},{1062,1094},{1063,1095},{1064,1096},{1065,1097},{1066,1098},{1067,1099},{1068,1100},
{1069,1101},{1070,1102},{1071,1103},{1120,1121},{1122,1123},{1124,1125},{1126,1127},{1128,1129},{1130,1131},{1132,1133},
{1134,1135},{1136,1137},{1138,1139},{1140,1141},{1142,1143},{1144,1145},{1146,1147},{1148,1149},{1150,1151},{1152,1153},
{1162,1163},{1164,1165},{1166,1167},{1168,1169},{1170,1171},{1172,1173},{1174,1175},{1176,1177},{1178,1179},{1180,1181},
{1182,1183},{1184,1185},{1186,1187},{1188,1189},{1190,1191},{1192,1193},{1194,1195},{1196,1197},{1198,1199},{1200,1201},
{1202,1203},{1204,1205},{1206,1207},{1208,1209},{1210,1211},{1212,1213},{1214,1215},{1216,-1},{1217,1218},{1219,1220},
{1221,1222},{1223,1224},{1225,1226},{1227,1228},{1229,1230},{1232,1233},{1234,1235},{1236,1237},{1238,1239},{1240,1241},
{1242,1243},{1244,1245},{1246,1247},{1248,1249},{1250,1251},{1252,1253},{1254,1255},{1256,1257},{1258,1259},{1260,1261},
{1262,1263},{1264,1265},{1266,1267},{1268,1269},{1272,1273},{1280,1281},{1282,1283},{1284,1285},{1286,1287},{1288,1289},
{1290,1291},{1292,1293},{1294,1295},{1329,1377},{1330,1378},{1331,1379},{1332,1380},{1333,1381},{1334,1382},{1335,1383},
{1336,1384},{1337,1385},{1338,1386},{1339,1387},{1340,1388},{1341,1389},{1342,1390},{1343,1391},{1344,1392},{1345,1393},
{1346,1394},{1347,1395},{1348,1396},{1349,1397},{1350,1398},{1351,1399},{1352,1400},{1353,1401},{1354,1402},{1355,1403},
{1356,1404},{1357,1405},{1358,1406},{1359,1407},{1360,1408},{1361,1409},{1362,1410},{1363,1411},{1364,1412},{1365,1413},
{1366,1414},{4256,-1},{4257,-1},{4258,-1},{4259,-1},{4260,-1},{4261,-1},{4262,-1},{4263,-1},{4264,-1},{4265,-1},
{4266,-1},{4267,-1},{4268,-1},{4269,-1},{4270,-1},{4271,-1},{4272,-1},{4273,-1},{4274,-1},{4275,-1},{4276,-1},{4277,-1},
{4278,-1},{4279,-1},{4280,-1},{4281,-1},{4282,-1},{4283,-1},{4284,-1},{4285,-1},{4286,-1},{4287,-1},{4288,-1},{4289,-1},
{4290,-1},{4291,-1},{4292,-1},{4293,-1},{7680,7681},{7682,7683},{7684,7685},{7686,7687},{7688,7689},{7690,7691},
{7692,7693},{7694,7695},{7696,7697},{7698,7699},{7700,7701},{7702,7703},{7704,7705},{7706,7707},{7708,7709},{7710,7711},
{7712,7713},{7714,7715},{7716,7717},{7718,7719},{7720,7721},{7722,7723},{7724,7725},{7726,7727},{7728,7729},{7730,7731},
{7732,7733},{7734,7735},{7736,7737},{7738,7739},{7740,7741},{7742,7743},{7744,7745},{7746,7747},{7748,7749},{7750,7751},
{7752,7753},{7754,7755},{7756,7757},{7758,7759},{7760,7761},{7762,7763},{7764,7765},{7766,7767},{7768,7769},{7770,7771},
{7772,7773},{7774,7775},{7776,7777},{7778,7779},{7780,7781},{7782,7783},{7784,7785},{7786,7787},{7788,7789},{7790,7791},
{7792,7793},{7794,7795},{7796,7797},{7798,7799},{7800,7801},{7802,7803},{7804,7805},{7806,7807},{7808,7809},{7810,7811},
{7812,7813},{7814,7815},{7816,7817},{7818,7819},{7820,7821},{7822,7823},{7824,7825},{7826,7827},{7828,7829},{7840,7841},
{7842,7843},{7844,7845},{7846,7847},{7848,7849},{7850,7851},{7852,7853},{7854,7855},{7856,7857},{7858,7859},{7860,7861},
{7862,7863},{7864,7865},{7866,7867},{7868,7869},{7870,7871},{7872,7873},{7874,7875},{7876,7877},{7878,7879},{7880,7881},
{7882,7883},{7884,7885},{7886,7887},{7888,7889},{7890,7891},{7892,7893},{7894,7895},{7896,7897},{7898,7899},{7900,7901},
{7902,7903},{7904,7905},{7906,7907},{7908,7909},{7910,7911},{7912,7913},{7914,7915},{7916,7917},{7918,7919},{7920,7921},
{7922,7923},{7924,7925},{7926,7927},{7928,7929},{7944,7936},{7945,7937},{7946,7938},{7947,7939},{7948,7940},{7949,7941},
{7950,7942},{7951,7943},{7960,7952},{7961,7953},{7962,7954},{7963,7955},{7964,7956},{7965,7957},{7976,7968},{7977,7969},
{7978,7970},{7979,7971},{7980,7972},{7981,7973},{7982,7974},{7983,7975},{7992,7984},{7993,7985},{7994,7986},{7995,7987},
{7996,7988},{7997,7989},{7998,7990},{7999,7991},{8008,8000},{8009,8001},{8010,8002},{8011,8003},{8012,8004},{8013,8005},
{8025,8017},{8027,8019},{8029,8021},{8031,8023},{8040,8032},{8041,8033},{8042,8034},{8043,8035},{8044,8036},{8045,8037},
{8046,8038},{8047,8039},{8072,8064},{8073,8065},{8074,8066},{8075,8067},{8076,8068},{8077,8069},{8078,8070},{8079,8071},
{8088,8080},{8089,8081},{8090,8082},{8091,8083},{8092,8084},{8093,8085},{8094,8086},{8095,8087},{8104,8096},{8105,8097},
{8106,8098},{8107,8099},{8108,8100},{8109,8101},{8110,8102},{8111,8103},{8120,8112},{8121,8113},{8122,8048},{8123,8049},
{8124,8115},{8136,8050},{8137,8051},{8138,8052},{8139,8053},{8140,8131},{8152,8144},{8153,8145},{8154,8054},{8155,8055},
{8168,8160},{8169,8161},{8170,8058},{8171,8059},{8172,8165},{8184,8056},{8185,8057},{8186,8060},{8187,8061},{8188,8179},
{8486,969},{8490,107},{8491,229},{8544,8560},{8545,8561},{8546,8562},{8547,8563},{8548,8564},{8549,8565},{8550,8566},
{8551,8567},{8552,8568},{8553,8569},{8554,8570},{8555,8571},{8556,8572},{8557,8573},{8558,8574},{8559,8575},{9398,9424},
{9399,9425},{9400,9426},{9401,9427},{9402,9428},{9403,9429},{9404,9430},{9405,9431},{9406,9432},{9407,9433},{9408,9434},
{9409,9435},{9410,9436},{9411,9437},{9412,9438},{9413,9439},{9414,9440},{9415,9441},{9416,9442},{9417,9443},{9418,9444},
{9419,9445},{9420,9446},{9421,9447},{9422,9448},{9423,9449},{65313,65345},{65314,65346},{65315,65347},{65316,65348},
{65317,65349},{65318,65350},{65319,65351},{65320,65352},{65321,65353},{65322,65354},{65323,65355},{65324,65356},
{65325,65357},{65326,65358},{65327,65359},{65328,65360},{65329,65361},{65330,65362},{65331,65363},{65332,65364},
{65333,65365},{65334,65366},{65335,65367},{65336,65368},{65337,65369},{65338,65370},{66560,66600},{66561,66601},
{66562,66602},{66563,66603},{66564,66604},{66565,66605},{66566,66606},{66567,66607},{66568,66608},{66569,66609},
{66570,66610},{66571,66611},{66572,66612},{66573,66613},{66574,66614},{66575,66615},{66576,66616},{66577,66617},
{66578,66618},{66579,66619},{66580,66620},{66581,66621},{66582,66622},{66583,66623},{66584,66624},{66585,66625},
{66586,66626},{66587,66627},{66588,66628},{66589,66629},{66590,66630},{66591,66631},{66592,66632},{66593,66633},
{66594,66634},{66595,66635},{66596,66636},{66597,66637},
};
