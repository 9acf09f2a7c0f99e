// the published vertical structure tables of the magnetised disk (log10 cm, log10 g/cm^3, log10 cm, cm/s), recorded from the original release
#pragma once
#include <vector>
namespace magneto {
static const std::vector<double> lgr = {
    10.848169570835784, 10.859134940659754, 10.870074926723767, 10.881024445344949, 10.892014860573569, 10.902960824351105,
    10.913932586562831, 10.924885589614927, 10.93584953080633, 10.946782718423142, 10.957747351495597, 10.968701922991093,
    10.979672130541898, 10.990619207942363, 11.001598376550799, 11.012541808644304, 11.023502686468719, 11.034473015147212,
    11.045418140670069, 11.056386299037793, 11.067343189763033, 11.078308158407944, 11.089273885393192, 11.100233583579648,
    11.111180971585332, 11.122155880852876, 11.133105061156007, 11.14406707284579, 11.155034255291215, 11.165999496834365,
    11.176956208086006, 11.187917905354803, 11.198877500606399, 11.20982842638832, 11.220800970148407, 11.231751357399867,
    11.24272635513957, 11.253683711514125, 11.264634430356111, 11.275604340647527, 11.286554052882085, 11.297524045042641,
    11.308476386274091, 11.319449114113315, 11.330405747553595, 11.341368290509594, 11.352329586046014, 11.363283001336885,
    11.374247938779753, 11.385216827666545, 11.396170502356474, 11.407138874434713, 11.418091050861483, 11.429055269554718,
    11.440012949137856, 11.450979250735724, 11.461936378713407, 11.472898633793685, 11.48385891662366, 11.494820322287687,
    11.505785477008327, 11.51674737656993, 11.527708501188307, 11.538670928113387, 11.549627836558274, 11.560589540756814,
    11.571557073050791, 11.582515368800047, 11.593473798201227, 11.6044406638177, 11.615401288439617, 11.626363695446413,
    11.637321029082731, 11.64828732381387, 11.6592485689324, 11.670211327424838, 11.681168762508481, 11.692132969450066,
    11.703096725339726, 11.714053334825183, 11.725019377464438, 11.735976329948514, 11.746939791904984, 11.757902560943975,
    11.768863107815829, 11.779824908960997, 11.790786041558361, 11.801749373604363, 11.812712669638277, 11.823673741324356,
    11.83463487427951, 11.845589340559274, 11.856577176723405, 11.867539967739933, 11.878472813398043, 11.889449203648311,
    11.900421194134589, 11.91138236271205, 11.922326774842409, 11.933284204159881, 11.944246985192802, 11.955208001237065,
    11.966193332309162, 11.977130717499827, 11.988110171112153, 11.999061284942945, 12.010038493744526, 12.02097554091249,
    12.031952924041686, 12.042906182684074, 12.053883767666619, 12.064825082063201, 12.075802241287263, 12.086756372253914,
    12.09773071584566, 12.108693515977668, 12.119638887874599, 12.130606159734352, 12.141565181622607, 12.15253111013741,
    12.163496709334314, 12.174455271636093, 12.185420314338222, 12.196384634231306, 12.207341554757887, 12.218303184290477,
    12.229262455116684, 12.240230203724364, 12.251182125111157, 12.262145724402769, 12.273113422065032, 12.284078183714346,
    12.295033493402089, 12.306003210328143, 12.31696497573512, 12.327926850615425, 12.338882102161435, 12.349851513621276,
    12.360814143954979, 12.371776602964212, 12.382732177253837, 12.39369907428881, 12.404657829358868, 12.415625533648029,
    12.426583480158525, 12.437547736397573, 12.44851111306475, 12.459466946744339, 12.470429537620419, 12.481391666859887,
    12.492356371108444, 12.503316732602823, 12.514275595323376, 12.525244386898704, 12.536206851774612, 12.547165300215903,
    12.558130028665788, 12.569093849113667, 12.580050099412839, 12.59101587099466, 12.601976179498044, 12.612939440797639,
    12.623898712228932, 12.634861578559262, 12.645827883264708, 12.656783980742677, 12.667749884781703, 12.678711814056324,
    12.68967568575043, 12.700634629759175, 12.711599902189624, 12.722558584825238, 12.733521188246737, 12.744486144237714,
    12.755446550795766, 12.766406369234682, 12.777369015106739, 12.788332477063209, 12.799294766266778, 12.810258600225827,
    12.821221700036292, 12.832181840619496, 12.843123840638675, 12.854088859701895, 12.865072612470259, 12.876026755189439,
    12.886985946776026, 12.897943099246671, 12.908928925064528, 12.919861863395438, 12.930845433214062, 12.94180005508241,
    12.95275482822076, 12.963735889700898, 12.974702521618994, 12.985649043040077, 12.996600686395288, 13.007580076813376,
    13.018549469798035, 13.029502856270376, 13.040462231440577, 13.051420438477086, 13.06239702639447, 13.073358373744474,
    13.084323760771083, 13.095261889203108, 13.106239068290597, 13.117199541959486, 13.128160308710264, 13.139114624363788,
    13.150077643271901, 13.161042003902681, 13.172000879063532, 13.182967784104557, 13.193935399328872, 13.204896937666721,
    13.215864505864172, 13.226812999496447, 13.237789557148993, 13.248751286782126, 13.259709167095082, 13.270672968821552,
    13.281635531822902, 13.292590220345916, 13.303560948262454, 13.314510502642051, 13.325476583311243, 13.336437322674346,
    13.347399970327045, 13.358370905010934, 13.369329867017125, 13.38029619406988, 13.391250337954977, 13.402210420812263,
    13.413180961920755, 13.424143075069747, 13.435101748701269, 13.446061337111557, 13.457025605726987, 13.46798748405903,
    13.47895045481132, 13.489907711508598, 13.50087203313452, 13.511836175193183, 13.522802491458508, 13.533764090443672,
    13.544723214961603, 13.555681733888772, 13.56664937008129, 13.577610728997579, 13.588575134557013, 13.599535635149245};
static const std::vector<double> lgrho = {
    -2.7152635050857801, -2.7114564773596519, -2.7157736396180883, -2.7314689820458367, -2.7614082652385026, -2.8140202802923477,
    -2.8929999701094178, -2.9974777673063451, -3.1430203359765394, -3.3289490056862174, -3.5600302786958, -3.8103927513461828,
    -4.1378971589717599, -4.4727234379051977, -4.9278783063748293, -5.423508887493627, -6.0263160597817658, -6.6981027257268382,
    -7.3697120016300941, -8.1961783078525912, -9.0077533137231853, -9.7766457006028435, -10.420115015730612, -10.884938117586888,
    -11.248518575679457, -11.464584843309826, -11.608756454855792, -11.705392273686115, -11.781522562233127, -11.848171695887318,
    -11.905670197967996, -11.968589410495488, -12.027134219057324, -12.089546918063149, -12.147054891410725, -12.203831386371785,
    -12.263676185065385, -12.320222213964374, -12.376962172487277, -12.427914906166452, -12.472164765992604, -12.5167344335576,
    -12.548187281713131, -12.581409812710342, -12.617555484126024, -12.624015419629131, -12.559169319328815, -12.513171658536383,
    -12.589539483189339, -12.589762190155382, -12.530146309752064, -12.676940654297542, -12.687094068569461, -12.690572120934448,
    -12.660041982275319, -12.688370116078323, -12.700560075635906, -12.682066402083278, -12.688489937980561, -12.635459573933968,
    -12.580225174095382, -12.561429261479114, -12.534972318584336, -12.530590402058317, -12.583380966438911, -12.600719224825298,
    -12.621988490788084, -12.600295156870716, -12.515579358640005, -12.602419649635886, -12.600034397642286, -12.503933248392874,
    -12.491676303183917, -12.503046187386129, -12.492794898733168, -12.469575134225154, -12.427410969824372, -12.426426695439394,
    -12.471049573565185, -12.414956376988927, -12.348934667393193, -12.365286421110373, -12.315305844837422, -12.307493798460474,
    -12.252101427166231, -12.171973047929995, -12.180594866247604, -12.144490378134392, -12.127367484348873, -12.121319399916066,
    -12.083018002551663, -12.097351590486628, -12.076634603130998, -12.034665348177327, -12.029133869449064, -12.046827628894258,
    -12.051658622150205, -12.084208639513811, -12.064398790630715, -12.0306330857718, -12.006472109962434, -12.001278036831051,
    -11.988992964377864, -11.98668504082598, -11.98895306850693, -12.002791030346115, -12.01201503599613, -12.016251016574438,
    -12.005078730370995, -11.986939107074924, -11.973789870367508, -11.967684368561985, -11.957747461783482, -11.956657265959334,
    -11.927476432034975, -11.926321383641014, -11.936355243334152, -11.926404278768958, -11.921929917002071, -11.905564826647282,
    -11.907597729041953, -11.891314404076203, -11.874159272016215, -11.857632527300691, -11.859121072607349, -11.867569439133931,
    -11.884655633289698, -11.895206175686384, -11.901116532628246, -11.908312824323968, -11.910112385083179, -11.921328609212134,
    -11.920455463225133, -11.91604166360969, -11.914526528634248, -11.911618849118987, -11.899568058505098, -11.893614528816098,
    -11.896268375059897, -11.880775997997555, -11.887975418711223, -11.876222345072319, -11.862048024439559, -11.844969780293386,
    -11.84002100483459, -11.841887964682829, -11.84027589077772, -11.832537774789463, -11.828603971250788, -11.789211511855944,
    -11.766331063338054, -11.761824256153357, -11.770450724365423, -11.789750835988086, -11.783929429320336, -11.789201437404689,
    -11.784522023775942, -11.785919561585297, -11.822540778173781, -11.841671917572031, -11.833239624503179, -11.847554771548255,
    -11.849935043118091, -11.85045674608617, -11.859683557444304, -11.84526770533421, -11.836530004311028, -11.85299301724627,
    -11.87329031559795, -11.905564826647282, -11.908776941703993, -11.909999278031666, -11.906091939095774, -11.907273675552881,
    -11.90867081399502, -11.908094198038484, -11.911218393136807, -11.917352303791287, -11.932638910486469, -11.93345265605884,
    -11.939462427170918, -11.965033359795596, -11.98759878496171, -12.012747667318752, -12.028207122407339, -12.036513072379028,
    -12.043042725601488, -12.049607825436043, -12.064370313860131, -12.091543075238599, -12.1210164918083, -12.139914332759474,
    -12.15811446518398, -12.183907065689528, -12.217983283996082, -12.252086802732983, -12.282460742079323, -12.312355635160236,
    -12.337747867232505, -12.354175280863462, -12.360511106090561, -12.374318767909468, -12.404569984985729, -12.438006206050025,
    -12.472383291160725, -12.515445246764838, -12.556036806082641, -12.579354345567193, -12.595399545569103, -12.608656727851205,
    -12.626882972467673, -12.662292606496315, -12.709397708002049, -12.744718708035974, -12.771121822389343, -12.794910650282837,
    -12.81112325428529, -12.820917529640877, -12.830699412119529, -12.84498123517046, -12.858919939136232, -12.863731176552481,
    -12.876480919663042, -13.073511673741789, -13.137178202603691, -13.151324366992041, -13.161152204502443, -13.167918207325243,
    -13.171596230269483, -13.172861686340161, -13.17095274997841, -13.166078814252399, -13.158267616001792, -13.1464696738421,
    -13.133078261545823, -13.150756532945509, -13.240656201406654, -13.329595342343149, -13.359723423176534, -13.381410484242645,
    -13.407488361498187, -13.431215868208881, -13.456478880486461, -13.481091795043207, -13.505843963976275, -13.529924433774621,
    -13.555242499272813, -13.579261145992765, -13.604488739068536, -13.628898102479122, -13.653211911190022, -13.677680342984816};
static const std::vector<double> lgH = {
    10.848075643604924, 10.859041013428895, 10.869980999492908, 10.88093051811409, 10.891920933342709, 10.902866897120246,
    10.913838659331972, 10.924791662384067, 10.935755603575469, 10.946688791192281, 10.957653424264736, 10.968607995760234,
    10.979578203311037, 10.990525280711502, 11.001504449319938, 11.012447881413445, 11.02340875923786, 11.034379087916351,
    11.04532421343921, 11.056292371806933, 11.067249262532174, 11.078214231177084, 11.089179958162331, 11.100139656348787,
    11.111087044354473, 11.122061953622016, 11.133011133925148, 11.143973145614929, 11.154940328060354, 11.165905569603504,
    11.176862280855147, 11.187823978123943, 11.198783573375538, 11.209734499157459, 11.220707042917546, 11.231657430169006,
    11.24263242790871, 11.253589784283264, 11.264540503125252, 11.275510413416667, 11.286460125651226, 11.29743011781178,
    11.30838245904323, 11.319355186882456, 11.330311820322736, 11.341274363278735, 11.352235658815156, 11.363189074106025,
    11.374154011548892, 11.385122900435684, 11.394759501521097, 11.398890704883932, 11.407632630714433, 11.416116357588431,
    11.425771740824638, 11.435334220560614, 11.444781787143063, 11.454119894033406, 11.462731996398743, 11.470938504827776,
    11.479801382631994, 11.4890620235943, 11.498218732814381, 11.507075944557132, 11.515521578834329, 11.523798521418685,
    11.531874867796851, 11.539666568336468, 11.547237781244112, 11.554578784923807, 11.561886796172427, 11.569074751168825,
    11.576010356859427, 11.582716309875057, 11.589465576967445, 11.595947978227926, 11.601904109615715, 11.606738535991182,
    11.611126998743186, 11.614798588944783, 11.617839135337732, 11.617677755077358, 11.607869925123934, 11.601046390616707,
    11.592961951937154, 11.568488995032679, 11.536681618030764, 11.497787305486849, 11.469442565476122, 11.440802219930523,
    11.415641174603357, 11.372660033105847, 11.315258567836619, 11.266392433459302, 11.240596969464965, 11.228198341994355,
    11.239045911056564, 11.249944901590263, 11.260826446594812, 11.271724125213119, 11.282625589553096, 11.29352372221557,
    11.304444407773413, 11.315322374920958, 11.326241641807325, 11.33713118021252, 11.348045079231415, 11.358917426557747,
    11.369832353190018, 11.380725495208475, 11.391641280328134, 11.402519415372074, 11.413431558298605, 11.424325461596228,
    11.435238685857518, 11.44613885993895, 11.457020098382415, 11.46792612981217, 11.47882533508974, 11.489729870228114,
    11.500632498582307, 11.511526511856326, 11.522088139626176, 11.531718435303983, 11.54130368325775, 11.550853243008305,
    11.560359649520143, 11.569830921032818, 11.579244714246025, 11.588623242138864, 11.597958999725799, 11.607251246818254,
    11.616485755482396, 11.625680907253367, 11.634816148874416, 11.643896415177688, 11.652914262210409, 11.662481708951974,
    11.673382767818795, 11.684282072900174, 11.695172910081642, 11.706073336200532, 11.716963960674381, 11.727861723933771,
    11.738749607759269, 11.749649520020125, 11.760546902617087, 11.771435091350774, 11.782333700422029, 11.793233670065302,
    11.804134600947771, 11.815029574565511, 11.825921376817954, 11.836821319865132, 11.847713204607489, 11.861937677101913,
    11.879724694860343, 11.897570142778292, 11.915462466885558, 11.933428927928931, 11.947889641729466, 11.958794735921233,
    11.969694366671142, 11.980596038887738, 11.991499555741024, 12.002391310525846, 12.021915255520778, 12.043618660787294,
    12.065316415282307, 12.086994383286717, 12.100901826865064, 12.113752067091413, 12.126646197226046, 12.139583025996806,
    12.152555018703634, 12.166767745385942, 12.181191160227453, 12.195673777723181, 12.210213395318245, 12.224814030684954,
    12.237429548753669, 12.248340890354404, 12.259232921982026, 12.270146582115462, 12.281077564821393, 12.291977726481038,
    12.305103684455766, 12.32062873733137, 12.336258328769558, 12.351876269055062, 12.367630447796165, 12.383406911297744,
    12.399247287199751, 12.415175741756009, 12.427275157989877, 12.439377956836037, 12.451512483455806, 12.463704432493227,
    12.475912470378297, 12.488130332197976, 12.500070151042825, 12.510985507189188, 12.521918069787388, 12.532834323359529,
    12.543753441415653, 12.554644231659925, 12.565572683770103, 12.576986578881803, 12.592691607619999, 12.608450474505551,
    12.624284943233782, 12.640184379412412, 12.655550650796259, 12.666477117041669, 12.677403252266677, 12.688322269073204,
    12.699246199779166, 12.710150013689551, 12.721080626710288, 12.732363436537719, 12.744349792032301, 12.75636614164083,
    12.768405124053226, 12.780459898911696, 12.79255729298378, 12.80465674315178, 12.816800388098303, 12.828964553437395,
    12.841157780114678, 12.853387714759485, 12.865632278068386, 12.877913583639572, 12.891417362162976, 12.906101858118681,
    12.920859056954129, 12.935663838807049, 12.950523089951446, 12.965442914107749, 12.980428677289796, 12.995525982721944,
    13.012199844589309, 13.028923987042848, 13.045717329389962, 13.062568192622784, 13.079479529073902, 13.096439967538423,
    13.11345215525121, 13.129320524958173, 13.140288161150691, 13.15124952006698, 13.162213925626414, 13.173174426218646};
static const std::vector<double> v = {
    2434.8078260999755, 4145.4702211615959, 4676.8416205963003, 4408.8083861101359, 2668.318490456546, -1457.266730310404,
    -9807.1717224149415, -23345.542824436357, -39278.39939064638, -53514.126409285585, -67504.052728602081, -73417.07854039887,
    -63462.150217829272, -58287.907406805789, -79957.034225749085, -105357.36042429885, -131731.22310050315, -127607.84732422449,
    -113042.08453514638, -106383.37120855036, -99255.150928191884, -59449.246665965315, -105879.3416846583, -19378.209065143463,
    29240.616899765755, 77090.280002187632, 129622.5845169876, 160764.70457949134, 188258.47943069966, 199457.60118073982,
    192470.23298651009, 198808.57686230345, 204787.88600874908, 195397.74693349961, 184557.65991280723, 166674.96858567779,
    146928.05847155023, 175236.56597781696, 145091.4577406559, 125064.22435707606, 113176.03210724919, 118473.17526793401,
    111861.41263671427, 99492.666210683485, 99233.056483308945, 102301.42251642722, 103716.84789174056, 96074.931767853734,
    96925.567895846907, 100410.96657613068, 119869.26800397482, 139346.90207109146, 177349.3472697481, 218265.49738734239,
    249418.66467228768, 264622.40455736063, 261225.38365660864, 243908.86247960455, 213860.41743880627, 180732.55914244827,
    153100.69401072158, 149841.76339048793, 157961.47188496834, 197717.6636462083, 292309.5058012947, 420954.4111322122,
    433120.16484588088, 385202.83750600507, 267480.87336409098, 179558.79175804209, 77409.268550185079, -81300.652655192869,
    -315536.29098448524, -457934.98825503275, -491035.22849528713, -647891.97813610849, -963027.80730709049, -1403549.6111887563,
    -1865461.599522718, -2247557.4057170595, -2590711.75280522, -2748272.7628766852, -2549698.9394912627, -2190940.3907045266,
    -1690501.2141059381, -953375.29669885605, 64025.558562344238, 1263042.7507613103, 2424727.2356221341, 3520335.5212549157,
    4767566.9348968724, 5950586.3680977849, 6975078.1592636025, 7999984.2212709775, 8884176.2874301281, 9444270.4652126543,
    9975779.9549278766, 10478152.395453723, 10897394.487107506, 11343149.912620818, 11571965.507439766, 11671666.689974032,
    11692518.322332306, 11758801.656981125, 11747754.434539655, 11708260.614311401, 11573622.590805985, 11426418.351773398,
    11235439.493816487, 11024023.274342855, 10862871.916977914, 10697439.760916902, 10548164.167676538, 10383422.463018117,
    10155849.680723839, 9989588.9829797149, 9858265.1262067407, 9735226.6862648688, 9639944.3927071914, 9545352.5505521037,
    9473131.3338409942, 9393177.061420856, 9299137.5803878419, 9182727.4739108533, 9060379.4853715729, 8986777.3658552803,
    8873957.6066717692, 8745119.3749481253, 8661436.6649539899, 8517684.6829343624, 8359295.1311797891, 8238880.4065677654,
    8135726.9670205396, 8080352.7645326704, 8049696.7222575909, 7984794.2904139562, 7889511.9968562778, 7757221.5081196753,
    7619545.4984428575, 7465574.8356648702, 7373882.8894006684, 7304147.2977388892, 7240625.7687004376, 7184146.8439684222,
    7112477.9883793863, 7009738.8196737152, 6902166.4911499023, 6838506.8718309319, 6772085.4469015934, 6662994.1252920777,
    6525870.4767373316, 6415260.162042114, 6323844.3963389508, 6209919.9149112916, 6089643.2805797877, 5999746.5079623256,
    5954867.166793854, 5890102.8252307372, 5855165.9842595877, 5861656.2274439521, 5795234.8025146136, 5632840.6326250052,
    5575947.437051435, 5510492.6440857258, 5406510.6628553905, 5277120.070009673, 5161124.23437424, 5052861.4544478338,
    4963517.0429524453, 4939213.1535812113, 4918499.6115034558, 4926785.028334558, 4831502.7347768806, 4764805.1292865053,
    4687888.8430377701, 4670351.3774119364, 4647704.5714069232, 4600615.7857501581, 4515552.1729508396, 4437254.9838969214,
    4360476.7879287051, 4308831.0230148323, 4240062.0633166824, 4191178.104013178, 4164388.5895926133, 4115642.7205696278,
    4040659.6982481498, 3958772.1619007541, 3882684.4173351293, 3795549.4503280357, 3755088.998136152, 3700543.3373313942,
    3623903.2316436963, 3570462.2930830857, 3521025.9726575078, 3481946.4232708076, 3448114.3045438058, 3406825.3106688121,
    3350622.5664978335, 3296491.1765346308, 3244154.9602181669, 3193890.0981094791, 3146248.9513306399, 3109240.7561517153,
    3073337.2832169379, 3033014.9213055726, 2993383.0107967993, 2955546.2739347648, 2918676.1690363591, 2883325.0572236553,
    2844935.9592395471, 2810275.2988294349, 2773681.374492066, 2735292.2765079578, 2698974.5327316257, 2663209.1500773663,
    2627443.7674231078, 2592783.1070129955, 2560193.8008106593, 2527880.6751693599, 2499295.9871020564, 2470573.2087542345,
    2445164.5971388533, 2413680.0131806643, 2375152.8249160373, 2337454.1783345216, 2302379.2470828546, 2266751.954709114,
    2233196.016543149, 2200330.529779776, 2168293.5846995129, 2138189.9035465075, 2110295.666881796, 2083368.0621807128,
    2058235.6311263684, 2033793.6514746165, 2009075.4912618275, 1980766.9837555611, 1953287.0179324043, 1927326.04519495,
    1899155.6279692019, 1873747.0163538207, 1846957.5019332562, 1821134.61947632, 1795587.9175804208, 1770869.7573676319,
    1745323.0554717325, 1721433.436942054, 1696577.1864487466, 1672963.7484801044, 1649626.4910724992, 1626427.3239454124};
static const std::vector<double> lgM = {
    -1, -0.98492462311557794, -0.96984924623115576, -0.95477386934673369, -0.93969849246231152, -0.92462311557788945,
    -0.90954773869346739, -0.89447236180904521, -0.87939698492462315, -0.86432160804020097, -0.84924623115577891, -0.83417085427135684,
    -0.81909547738693467, -0.8040201005025126, -0.78894472361809043, -0.77386934673366836, -0.7587939698492463, -0.74371859296482412,
    -0.72864321608040195, -0.71356783919597988, -0.69849246231155782, -0.68341708542713575, -0.66834170854271358, -0.6532663316582914,
    -0.63819095477386933, -0.62311557788944727, -0.6080402010050252, -0.59296482412060303, -0.57788944723618085, -0.56281407035175879,
    -0.54773869346733672, -0.53266331658291466, -0.51758793969849248, -0.50251256281407031, -0.48743718592964824, -0.47236180904522612,
    -0.457286432160804, -0.44221105527638188, -0.42713567839195987, -0.4120603015075377, -0.39698492462311563, -0.38190954773869346,
    -0.36683417085427139, -0.35175879396984933, -0.33668341708542715, -0.32160804020100509, -0.30653266331658291, -0.2914572864321609,
    -0.27638190954773861, -0.2613065326633166, -0.24623115577889451, -0.23115577889447236, -0.21608040201005027, -0.2010050251256281,
    -0.18592964824120603, -0.17085427135678397, -0.15577889447236182, -0.14070351758793972, -0.12562814070351758, -0.11055276381909553,
    -0.095477386934673461, -0.080402010050251271, -0.065326633165829179, -0.050251256281407038, -0.035175879396984959, -0.020100502512562922,
    -0.0050251256281407426, 0.010050251256281438, 0.025125628140703519, 0.040201005025125615, 0.055276381909547617, 0.070351758793969682,
    0.085427135678391983, 0.10050251256281402, 0.11557788944723611, 0.13065326633165816, 0.14572864321608026, 0.16080402010050251,
    0.17587939698492458, 0.1909547738693467, 0.20603015075376871, 0.2211055276381908, 0.23618090452261306, 0.25125628140703515,
    0.26633165829145722, 0.28140703517587928, 0.29648241206030135, 0.31155778894472363, 0.3266331658291457, 0.34170854271356776,
    0.35678391959798983, 0.37185929648241189, 0.38693467336683418, 0.40201005025125625, 0.41708542713567831, 0.43216080402010032,
    0.44723618090452266, 0.46231155778894473, 0.47738693467336679, 0.49246231155778886, 0.50753768844221092, 0.52261306532663321,
    0.53768844221105527, 0.55276381909547734, 0.5678391959798994, 0.58291457286432147, 0.59798994974874375, 0.61306532663316582,
    0.62814070351758788, 0.64321608040200995, 0.65829145728643201, 0.6733668341708543, 0.68844221105527637, 0.70351758793969843,
    0.71859296482412049, 0.73366834170854256, 0.74874371859296485, 0.76381909547738691, 0.77889447236180898, 0.79396984924623104,
    0.80904522613065311, 0.82412060301507539, 0.83919597989949746, 0.85427135678391952, 0.86934673366834159, 0.88442211055276365,
    0.89949748743718594, 0.914572864321608, 0.92964824120603007, 0.94472361809045213, 0.9597989949748742, 0.97487437185929648,
    0.98994974874371855, 1.0050251256281406, 1.0201005025125629, 1.0351758793969847, 1.050251256281407, 1.0653266331658289,
    1.0804020100502512, 1.0954773869346734, 1.1105527638190953, 1.1256281407035176, 1.1407035175879394, 1.1557788944723617,
    1.170854271356784, 1.1859296482412058, 1.2010050251256281, 1.21608040201005, 1.2311557788944723, 1.2462311557788945,
    1.2613065326633164, 1.2763819095477387, 1.2914572864321605, 1.3065326633165828, 1.3216080402010051, 1.3366834170854269,
    1.3517587939698492, 1.3668341708542711, 1.3819095477386933, 1.3969849246231156, 1.4120603015075375, 1.4271356783919598,
    1.4422110552763816, 1.4572864321608039, 1.4723618090452262, 1.487437185929648, 1.5025125628140703, 1.5175879396984921,
    1.5326633165829144, 1.5477386934673367, 1.5628140703517586, 1.5778894472361809, 1.5929648241206027, 1.608040201005025,
    1.6231155778894473, 1.6381909547738691, 1.6532663316582914, 1.6683417085427132, 1.6834170854271355, 1.6984924623115578,
    1.7135678391959797, 1.7286432160804019, 1.7437185929648238, 1.7587939698492461, 1.7738693467336684, 1.7889447236180902,
    1.8040201005025125, 1.8190954773869343, 1.8341708542713566, 1.8492462311557789, 1.8643216080402008, 1.879396984924623,
    1.8944723618090453, 1.9095477386934672, 1.9246231155778895, 1.9396984924623113, 1.9547738693467336, 1.9698492462311559,
    1.9849246231155777, 2};
static const std::vector<double> I = {
    0.033534773107561637, 0.034734392236140756, 0.035978060412398705, 0.037267520962047752, 0.038604600025195078, 0.039991211941532649,
    0.041429365121066639, 0.042921168455038197, 0.044468838328688691, 0.046074706305609323, 0.047741227562810094, 0.049470990166181353,
    0.051266725288429259, 0.053131318485828742, 0.055067822166474871, 0.057079469401990907, 0.059169689256898833, 0.061342123835764206,
    0.063600647278742567, 0.065949386971923818, 0.068392747280778016, 0.070935436164931948, 0.073582495091239611, 0.076339332732338644,
    0.079211763021538914, 0.082206048235140633, 0.085328947894149548, 0.088587774423017948, 0.091990456680275182, 0.095545612691608717,
    0.099262633180591572, 0.10315177781775983, 0.10722428651200937, 0.11149250857015065, 0.11597005317893944, 0.12067196545585393,
    0.12561493331948281, 0.13081753171334742, 0.13630051236804913, 0.14208714942779635, 0.14820365406772995, 0.15467967492371851,
    0.16154890607954941, 0.16884983098320988, 0.17662663968309775, 0.18493036919747236, 0.19382033416256078, 0.20336593942889636,
    0.21364900151027641, 0.2247667572678558, 0.23683581481874894, 0.24999741800379588, 0.26442457648752232, 0.28033190152468235,
    0.2979894594771676, 0.31774275441863042, 0.34004235551807077, 0.36548926071408094, 0.39493108439652652, 0.42910755099962344,
    0.46785167716563225, 0.51079446407443474, 0.55743103169271224, 0.60709768920360252, 0.65894587161777551, 0.71191255280114663,
    0.76468669903160902, 0.81567127576995468, 0.86294026299890958, 0.90419007058217937, 0.93668467388137355, 0.95719371051858537,
    0.9619226907701951, 0.94643437560491961, 0.91469161302540913, 0.87831442239772217, 0.83937763301184476, 0.79924116068911344,
    0.75883603234545827, 0.71880598037622445, 0.67959643603602715, 0.6415127771646445, 0.60475973033555819, 0.56946875620925297,
    0.53571751332870143, 0.50354395019975606, 0.47295666542679543, 0.44394262045585792, 0.41647294011207348, 0.39050731020545143,
    0.36599733181350053, 0.34288909052734079, 0.3211251290083233, 0.30064596207143768, 0.2813912384473598, 0.2633006279872549,
    0.24631449445106551, 0.23037440019517366, 0.21542347870066811, 0.20140670302058611, 0.18827107221127232, 0.17596573317638131,
    0.1644420517500296, 0.15365364402822856, 0.14355637674047425, 0.13410834369864799, 0.1252698239647623, 0.1170032262641061,
    0.10927302327604041, 0.10204567871492161, 0.095289569532580498, 0.088974905103570534, 0.083073644873088645, 0.077559415637786608,
    0.072407429377910837, 0.067594402354385491, 0.063098476017842603, 0.058899140141142815, 0.054977158476938147, 0.051314497152693157,
    0.047894255943544642, 0.044700602505393587, 0.041718709604176091, 0.038934695340302507, 0.036335566338102025, 0.033909163847367627,
    0.031644112686623815, 0.029529772944584535, 0.027556194346649021, 0.025714073186551438, 0.023994711718893252, 0.02238997990580438,
    0.020892279410026637, 0.019494509726984646, 0.018190036349652917, 0.016972660862029271, 0.015836592859612714, 0.014776423598314986,
    0.013787101276586651, 0.012863907859121053, 0.012002437354224835, 0.011198575460754734, 0.010448480504360298, 0.0097485655865994416,
    0.0090954818742780344, 0.0084861029600747807, 0.0079175102291328386, 0.0073869791698116241, 0.0068919665701850426, 0.006430098545139944,
    0.0059991593420624092, 0.0055970808760999391, 0.0052219329488512097, 0.0048719141070627707, 0.0045453431005065045, 0.0042406509006731674,
    0.0039563732442512555, 0.0036911436675690808, 0.0034436870002657301, 0.0032128132884287511, 0.002997412119296185, 0.0027964473213741336,
    0.0026089520154722701, 0.0024340239937134236, 0.0022708214050351947, 0.0021185587270747307, 0.0019765030056182972, 0.0018439703440085991,
    0.0017203226260394337, 0.0016049644569337774, 0.0014973403080009884, 0.0013969318515060245, 0.0013032554731616098, 0.0012158599504765908,
    0.0011343242859640328, 0.001058255684933386, 0.00098728766826594312, 0.00092107831120416983, 0.0008593085997760985, 0.00080168089702856529,
    0.00074791751175961815, 0.00069775936292356831, 0.0006509647333337715, 0.00060730810671029791, 0.00056657908251426517, 0.00052858136337921178,
    0.00049313181029442515, 0.00046005956101698094, 0.00042920520748988199, 0.00040042002832459616, 0.00037356527266855209, 0.00034851149202319158,
    0.00032513791680695617, 0.00030333187467122244, 0.00028298824777671524, 0.0002640089664241957, 0.00024630253660710614, 0.0002297835992162493,
    0.00021437251877811514, 0.00019999499974998334};
}
