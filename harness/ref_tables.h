/* Published constants of the tests (expected distributions). */
static const double squeeze_tab[43] = {
0.00002103, 0.00005779, 0.00017554, 0.00046732, 0.00110783, 0.00236784,
0.00460944, 0.00824116, 0.01362781, 0.02096849, 0.03017612, 0.04080197,
0.05204203, 0.06283828, 0.07205637, 0.07869451, 0.08206755, 0.08191935,
0.07844008, 0.07219412, 0.06398679, 0.05470931, 0.04519852, 0.03613661,
0.02800028, 0.02105567, 0.01538652, 0.01094020, 0.00757796, 0.00511956,
0.00337726, 0.00217787, 0.00137439, 0.00084970, 0.00051518, 0.00030666,
0.00017939, 0.00010324, 0.00005851, 0.00003269, 0.00001803, 0.00000982,
0.00001121};
static const double runs_a[6][6] = {
{4529.4, 9044.9, 13568.0, 18091.0, 22615.0, 27892.0},
{9044.9, 18097.0, 27139.0, 36187.0, 45234.0, 55789.0},
{13568.0, 27139.0, 40721.0, 54281.0, 67852.0, 83685.0},
{18091.0, 36187.0, 54281.0, 72414.0, 90470.0, 111580.0},
{22615.0, 45234.0, 67852.0, 90470.0, 113262.0, 139476.0},
{27892.0, 55789.0, 83685.0, 111580.0, 139476.0, 172860.0}};
static const double runs_b[6] = {
1.0/6.0, 5.0/24.0, 11.0/120.0, 19.0/720.0, 29.0/5040.0, 1.0/840.0};
static const double gcd_k[41] = {
0.0, 5.39e-09, 6.077e-08, 4.8421e-07, 2.94869e-06, 1.443266e-05,
5.908569e-05, 0.00020658047, 0.00062764766, 0.00167993762, 0.00399620143, 0.00851629626,
0.01635214339, 0.02843154488, 0.04493723812, 0.06476525706, 0.08533638862, 0.1030000214,
0.11407058851, 0.11604146948, 0.10853040184, 0.09336837411, 0.07389607162, 0.05380182248,
0.03601960159, 0.02215902902, 0.01251328472, 0.00647884418, 0.00306981507, 0.00132828179,
0.00052381841, 0.00018764452, 6.084138e-05, 1.779885e-05, 4.66795e-06, 1.09504e-06,
2.2668e-07, 4.104e-08, 6.42e-09, 8.4e-10, 1.4e-10};
static const double filltree_tab[20] = {
0.0, 0.0, 0.0, 0.0, 0.13333333, 0.20000000,
0.20634921, 0.17857143, 0.13007085, 0.08183633, 0.04338395, 0.01851828,
0.00617270, 0.00151193, 0.00023520, 0.00001680, 0.00000000, 0.00000000,
0.00000000, 0.00000000};
static const double filltree2_tab[128] = {
0, 0, 0, 0, 0,
0, 4.76837158203125E-07, 2.86102294921875E-06, 9.85432416200638E-06, 2.55650229519233E-05, 5.54892931177164E-05,
0.000106380728425393, 0.000186047948883328, 0.00030311244166753, 0.000466749839810675, 0.000686429646575251, 0.000971661742344283,
0.00133175306183679, 0.00177557452024558, 0.00231133638265425, 0.00294636954701581, 0.00368691038033341, 0.00453788756811422,
0.00550271070203945, 0.00658306187040692, 0.00777869319248569, 0.00908723493764983, 0.0105040204946228, 0.0120219359149386,
0.0136313029599996, 0.0153198054448571, 0.0170724691056809, 0.0188717051355292, 0.0206974268550898, 0.0225272476458152,
0.0243367662285437, 0.0260999426084925, 0.0277895645547568, 0.0293778004147126, 0.0308368295109554, 0.0321395365179289,
0.0332602513106519, 0.0341755111120263, 0.0348648176685728, 0.0353113590065781, 0.0355026634060874, 0.0354311528899465,
0.035094565005384, 0.0344962151263554, 0.0336450769511817, 0.0325556661902256, 0.031247721351896, 0.0297456856036487,
0.0280780043276814, 0.0262762635190492, 0.0243742038353947, 0.0224066531487575, 0.0204084261828087, 0.0184132426894747,
0.0164527152702953, 0.0145554542687502, 0.0127463303124921, 0.0110459255065655, 0.00947019265623616, 0.00803032911044744,
0.00673285885868451, 0.00557990440062551, 0.00456961957621112, 0.00369674675854223, 0.0029532570905934, 0.00232903101043375,
0.00181253806897198, 0.00139147961934567, 0.00105336473071676, 0.00078599787487321, 0.000577865708395529, 0.00041841881087046,
0.000298251837753283, 0.000209191678462234, 0.000144307562906168, 9.78595402557837E-05, 6.520247003055E-05, 4.26618834333199E-05,
2.73961611501714E-05, 1.7256844789337E-05, 1.06559535882152E-05, 6.44626192690798E-06, 3.81786954553569E-06, 2.2122334819058E-06,
1.25320523087539E-06, 6.9352747611892E-07, 3.74634041706112E-07, 1.97372359804204E-07, 1.01324484479249E-07, 5.06387688071287E-08,
2.4612770858879E-08, 1.16222051625842E-08, 5.32575018016149E-09, 2.36548132737708E-09, 1.01707372778487E-09, 4.22755189488443E-10,
1.69627368106376E-10, 6.55983218678784E-11, 2.44087465306515E-11, 8.72288816181913E-12, 2.98796462656132E-12, 9.78930546827611E-13,
3.06028628289706E-13, 9.10492627063714E-14, 2.57067414678584E-14, 6.86573813128305E-15, 1.72840983639153E-15, 4.08488586235289E-16,
9.02205965579907E-17, 1.85248682021962E-17, 3.5148157083845E-18, 6.11888831372621E-19, 9.69194996799213E-20, 1.38262127072485E-20,
1.75429503989084E-21, 1.94858024047957E-22, 1.85585143679842E-23, 1.47329706646149E-24, 9.35788996513105E-26, 4.45783630198697E-27,
1.41554277734465E-28, 2.24689329737247E-30, 0};
