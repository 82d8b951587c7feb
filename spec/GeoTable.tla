------------------------------ MODULE GeoTable ------------------------------
(* 10^8 times the cosine of 0, 0.05, 0.1, ... 180 degrees *)
EXTENDS Integers
Cos20 == <<
100000000, 99999962, 99999848, 99999657, 99999391, 99999048, 99998629, 99998134, 99997563, 99996916, 99996192, 99995393,
99994517, 99993565, 99992537, 99991433, 99990252, 99988996, 99987663, 99986254, 99984770, 99983208, 99981571, 99979858,
99978068, 99976203, 99974261, 99972243, 99970149, 99967979, 99965732, 99963410, 99961012, 99958537, 99955986, 99953359,
99950656, 99947877, 99945022, 99942090, 99939083, 99935999, 99932839, 99929604, 99926292, 99922904, 99919440, 99915899,
99912283, 99908591, 99904822, 99900978, 99897057, 99893060, 99888987, 99884839, 99880614, 99876313, 99871936, 99867483,
99862953, 99858348, 99853667, 99848910, 99844076, 99839167, 99834182, 99829120, 99823983, 99818769, 99813480, 99808114,
99802673, 99797155, 99791562, 99785892, 99780147, 99774325, 99768428, 99762454, 99756405, 99750280, 99744078, 99737801,
99731448, 99725019, 99718513, 99711932, 99705275, 99698542, 99691733, 99684849, 99677888, 99670851, 99663739, 99656550,
99649286, 99641946, 99634530, 99627038, 99619470, 99611826, 99604107, 99596311, 99588440, 99580493, 99572470, 99564371,
99556196, 99547946, 99539620, 99531218, 99522740, 99514186, 99505557, 99496852, 99488071, 99479214, 99470282, 99461273,
99452190, 99443030, 99433794, 99424483, 99415096, 99405634, 99396096, 99386482, 99376792, 99367027, 99357186, 99347269,
99337277, 99327209, 99317065, 99306846, 99296551, 99286180, 99275734, 99265212, 99254615, 99243942, 99233194, 99222370,
99211470, 99200495, 99189444, 99178318, 99167116, 99155839, 99144486, 99133058, 99121554, 99109975, 99098320, 99086590,
99074784, 99062903, 99050946, 99038914, 99026807, 99014624, 99002366, 98990032, 98977623, 98965139, 98952579, 98939944,
98927233, 98914447, 98901586, 98888650, 98875638, 98862551, 98849389, 98836151, 98822838, 98809450, 98795987, 98782448,
98768834, 98755145, 98741381, 98727541, 98713627, 98699637, 98685572, 98671431, 98657216, 98642926, 98628560, 98614119,
98599604, 98585013, 98570347, 98555606, 98540790, 98525899, 98510933, 98495891, 98480775, 98465584, 98450318, 98434977,
98419561, 98404070, 98388504, 98372863, 98357147, 98341356, 98325491, 98309550, 98293535, 98277445, 98261280, 98245040,
98228725, 98212336, 98195871, 98179332, 98162718, 98146030, 98129266, 98112428, 98095516, 98078528, 98061466, 98044329,
98027117, 98009831, 97992470, 97975035, 97957525, 97939940, 97922281, 97904547, 97886739, 97868856, 97850899, 97832867,
97814760, 97796579, 97778324, 97759994, 97741589, 97723111, 97704557, 97685930, 97667228, 97648451, 97629601, 97610676,
97591676, 97572602, 97553454, 97534232, 97514935, 97495565, 97476119, 97456600, 97437006, 97417339, 97397597, 97377781,
97357890, 97337926, 97317887, 97297775, 97277588, 97257327, 97236992, 97216583, 97196100, 97175543, 97154912, 97134207,
97113428, 97092575, 97071648, 97050647, 97029573, 97008424, 96987202, 96965905, 96944535, 96923091, 96901573, 96879982,
96858316, 96836577, 96814764, 96792877, 96770917, 96748883, 96726775, 96704594, 96682339, 96660010, 96637608, 96615132,
96592583, 96569960, 96547263, 96524493, 96501649, 96478732, 96455742, 96432678, 96409540, 96386330, 96363045, 96339688,
96316257, 96292752, 96269175, 96245524, 96221799, 96198002, 96174131, 96150187, 96126170, 96102079, 96077915, 96053679,
96029369, 96004985, 95980529, 95956000, 95931397, 95906722, 95881973, 95857152, 95832257, 95807290, 95782249, 95757136,
95731950, 95706691, 95681358, 95655953, 95630476, 95604925, 95579301, 95553605, 95527836, 95501994, 95476080, 95450093,
95424033, 95397900, 95371695, 95345417, 95319067, 95292644, 95266148, 95239580, 95212939, 95186226, 95159440, 95132582,
95105652, 95078649, 95051573, 95024425, 94997205, 94969913, 94942548, 94915111, 94887601, 94860019, 94832366, 94804639,
94776841, 94748970, 94721028, 94693013, 94664926, 94636767, 94608536, 94580233, 94551858, 94523410, 94494891, 94466300,
94437637, 94408902, 94380095, 94351216, 94322266, 94293243, 94264149, 94234983, 94205745, 94176436, 94147054, 94117602,
94088077, 94058481, 94028813, 93999073, 93969262, 93939379, 93909425, 93879399, 93849302, 93819134, 93788893, 93758582,
93728199, 93697745, 93667219, 93636622, 93605954, 93575214, 93544403, 93513521, 93482568, 93451543, 93420447, 93389281,
93358043, 93326734, 93295353, 93263902, 93232380, 93200787, 93169123, 93137388, 93105582, 93073705, 93041757, 93009738,
92977649, 92945488, 92913257, 92880955, 92848583, 92816139, 92783625, 92751041, 92718385, 92685660, 92652863, 92619996,
92587058, 92554050, 92520972, 92487823, 92454603, 92421313, 92387953, 92354523, 92321022, 92287450, 92253809, 92220097,
92186315, 92152463, 92118541, 92084548, 92050485, 92016353, 91982150, 91947877, 91913534, 91879121, 91844638, 91810085,
91775463, 91740770, 91706007, 91671175, 91636273, 91601301, 91566259, 91531148, 91495967, 91460716, 91425396, 91390005,
91354546, 91319017, 91283418, 91247749, 91212012, 91176204, 91140328, 91104382, 91068366, 91032281, 90996127, 90959904,
90923611, 90887249, 90850818, 90814317, 90777748, 90741109, 90704401, 90667625, 90630779, 90593864, 90556880, 90519827,
90482705, 90445515, 90408255, 90370927, 90333529, 90296063, 90258528, 90220925, 90183253, 90145512, 90107702, 90069824,
90031877, 89993862, 89955778, 89917626, 89879405, 89841115, 89802758, 89764331, 89725837, 89687274, 89648643, 89609944,
89571176, 89532340, 89493436, 89454464, 89415424, 89376315, 89337139, 89297894, 89258582, 89219201, 89179753, 89140237,
89100652, 89061000, 89021280, 88981493, 88941637, 88901714, 88861723, 88821665, 88781539, 88741345, 88701083, 88660754,
88620358, 88579894, 88539363, 88498764, 88458098, 88417364, 88376563, 88335695, 88294759, 88253757, 88212687, 88171549,
88130345, 88089074, 88047735, 88006330, 87964857, 87923318, 87881711, 87840038, 87798298, 87756490, 87714616, 87672676,
87630668, 87588594, 87546453, 87504245, 87461971, 87419630, 87377222, 87334748, 87292208, 87249601, 87206927, 87164187,
87121381, 87078509, 87035570, 86992564, 86949493, 86906355, 86863151, 86819881, 86776545, 86733143, 86689675, 86646141,
86602540, 86558874, 86515142, 86471344, 86427480, 86383551, 86339555, 86295494, 86251367, 86207174, 86162916, 86118592,
86074203, 86029748, 85985227, 85940641, 85895990, 85851273, 85806491, 85761643, 85716730, 85671752, 85626708, 85581600,
85536426, 85491187, 85445883, 85400514, 85355080, 85309581, 85264016, 85218387, 85172693, 85126935, 85081111, 85035222,
84989269, 84943251, 84897169, 84851021, 84804810, 84758533, 84712192, 84665787, 84619317, 84572782, 84526183, 84479520,
84432793, 84386001, 84339145, 84292224, 84245240, 84198191, 84151078, 84103901, 84056660, 84009355, 83961986, 83914554,
83867057, 83819496, 83771872, 83724183, 83676431, 83628616, 83580736, 83532793, 83484786, 83436716, 83388582, 83340385,
83292124, 83243800, 83195412, 83146961, 83098447, 83049869, 83001229, 82952524, 82903757, 82854927, 82806033, 82757077,
82708057, 82658975, 82609829, 82560621, 82511350, 82462016, 82412619, 82363159, 82313637, 82264052, 82214404, 82164694,
82114921, 82065085, 82015188, 81965227, 81915204, 81865119, 81814972, 81764762, 81714490, 81664156, 81613759, 81563300,
81512780, 81462197, 81411552, 81360845, 81310076, 81259245, 81208353, 81157398, 81106382, 81055304, 81004164, 80952963,
80901699, 80850375, 80798988, 80747541, 80696031, 80644460, 80592828, 80541135, 80489380, 80437564, 80385686, 80333747,
80281748, 80229687, 80177564, 80125381, 80073137, 80020832, 79968466, 79916039, 79863551, 79811002, 79758393, 79705723,
79652992, 79600200, 79547348, 79494435, 79441462, 79388428, 79335334, 79282179, 79228964, 79175689, 79122353, 79068957,
79015501, 78961985, 78908408, 78854772, 78801075, 78747319, 78693502, 78639626, 78585689, 78531693, 78477637, 78423521,
78369346, 78315111, 78260816, 78206461, 78152047, 78097574, 78043041, 77988448, 77933796, 77879085, 77824315, 77769485,
77714596, 77659648, 77604641, 77549574, 77494449, 77439264, 77384021, 77328719, 77273357, 77217937, 77162458, 77106921,
77051324, 76995669, 76939956, 76884183, 76828352, 76772463, 76716515, 76660509, 76604444, 76548321, 76492140, 76435901,
76379603, 76323247, 76266833, 76210361, 76153831, 76097243, 76040597, 75983893, 75927131, 75870311, 75813434, 75756498,
75699506, 75642455, 75585347, 75528181, 75470958, 75413677, 75356339, 75298944, 75241491, 75183981, 75126413, 75068789,
75011107, 74953368, 74895572, 74837719, 74779809, 74721842, 74663818, 74605738, 74547600, 74489406, 74431155, 74372847,
74314483, 74256062, 74197584, 74139050, 74080460, 74021813, 73963109, 73904350, 73845534, 73786662, 73727734, 73668749,
73609709, 73550612, 73491460, 73432251, 73372986, 73313666, 73254290, 73194858, 73135370, 73075827, 73016228, 72956573,
72896863, 72837097, 72777276, 72717399, 72657467, 72597480, 72537437, 72477339, 72417186, 72356978, 72296715, 72236396,
72176023, 72115594, 72055111, 71994573, 71933980, 71873332, 71812630, 71751873, 71691061, 71630194, 71569273, 71508298,
71447268, 71386184, 71325045, 71263852, 71202605, 71141303, 71079947, 71018538, 70957074, 70895556, 70833984, 70772358,
70710678, 70648944, 70587157, 70525316, 70463421, 70401472, 70339470, 70277415, 70215305, 70153143, 70090926, 70028657,
69966334, 69903958, 69841529, 69779046, 69716510, 69653921, 69591280, 69528585, 69465837, 69403036, 69340183, 69277276,
69214317, 69151306, 69088241, 69025124, 68961954, 68898732, 68835458, 68772131, 68708751, 68645319, 68581835, 68518299,
68454711, 68391070, 68327377, 68263633, 68199836, 68135987, 68072087, 68008135, 67944130, 67880075, 67815967, 67751808,
67687597, 67623335, 67559021, 67494655, 67430239, 67365771, 67301251, 67236681, 67172059, 67107386, 67042662, 66977887,
66913061, 66848184, 66783256, 66718277, 66653247, 66588167, 66523035, 66457854, 66392621, 66327338, 66262005, 66196621,
66131187, 66065702, 66000167, 65934582, 65868946, 65803260, 65737525, 65671739, 65605903, 65540017, 65474081, 65408096,
65342060, 65275975, 65209840, 65143656, 65077422, 65011138, 64944805, 64878422, 64811990, 64745509, 64678978, 64612398,
64545769, 64479090, 64412363, 64345586, 64278761, 64211887, 64144963, 64077991, 64010970, 63943900, 63876782, 63809615,
63742399, 63675135, 63607822, 63540461, 63473051, 63405593, 63338087, 63270533, 63202930, 63135280, 63067581, 62999834,
62932039, 62864196, 62796306, 62728367, 62660381, 62592347, 62524266, 62456136, 62387960, 62319735, 62251464, 62183145,
62114778, 62046364, 61977903, 61909395, 61840840, 61772237, 61703588, 61634891, 61566148, 61497357, 61428520, 61359636,
61290705, 61221728, 61152704, 61083633, 61014516, 60945353, 60876143, 60806887, 60737584, 60668235, 60598840, 60529399,
60459911, 60390378, 60320799, 60251173, 60181502, 60111785, 60042023, 59972214, 59902360, 59832460, 59762515, 59692524,
59622487, 59552406, 59482279, 59412106, 59341889, 59271626, 59201318, 59130965, 59060567, 58990124, 58919636, 58849103,
58778525, 58707903, 58637236, 58566524, 58495767, 58424967, 58354121, 58283231, 58212297, 58141318, 58070296, 57999228,
57928117, 57856962, 57785762, 57714519, 57643232, 57571900, 57500525, 57429106, 57357644, 57286137, 57214587, 57142994,
57071357, 56999676, 56927952, 56856185, 56784375, 56712521, 56640624, 56568684, 56496700, 56424674, 56352605, 56280493,
56208338, 56136140, 56063899, 55991616, 55919290, 55846922, 55774511, 55702057, 55629562, 55557023, 55484443, 55411820,
55339155, 55266448, 55193699, 55120907, 55048074, 54975199, 54902282, 54829323, 54756322, 54683280, 54610196, 54537071,
54463904, 54390695, 54317445, 54244154, 54170821, 54097447, 54024032, 53950576, 53877079, 53803540, 53729961, 53656341,
53582679, 53508978, 53435235, 53361452, 53287628, 53213763, 53139858, 53065912, 52991926, 52917900, 52843833, 52769727,
52695580, 52621392, 52547165, 52472898, 52398591, 52324243, 52249856, 52175430, 52100963, 52026457, 51951911, 51877326,
51802701, 51728037, 51653333, 51578590, 51503807, 51428986, 51354125, 51279225, 51204286, 51129309, 51054292, 50979236,
50904142, 50829008, 50753836, 50678626, 50603376, 50528089, 50452762, 50377398, 50301995, 50226553, 50151074, 50075556,
50000000, 49924406, 49848774, 49773104, 49697396, 49621650, 49545867, 49470046, 49394187, 49318290, 49242356, 49166384,
49090375, 49014329, 48938245, 48862124, 48785966, 48709771, 48633538, 48557269, 48480962, 48404619, 48328238, 48251821,
48175367, 48098877, 48022350, 47945786, 47869186, 47792549, 47715876, 47639167, 47562421, 47485639, 47408821, 47331967,
47255076, 47178150, 47101188, 47024190, 46947156, 46870087, 46792981, 46715841, 46638664, 46561452, 46484205, 46406922,
46329604, 46252250, 46174861, 46097437, 46019978, 45942484, 45864955, 45787392, 45709793, 45632159, 45554491, 45476788,
45399050, 45321278, 45243471, 45165630, 45087754, 45009844, 44931900, 44853921, 44775909, 44697862, 44619781, 44541667,
44463518, 44385335, 44307119, 44228869, 44150585, 44072268, 43993917, 43915533, 43837115, 43758663, 43680179, 43601661,
43523110, 43444526, 43365908, 43287258, 43208575, 43129859, 43051110, 42972328, 42893513, 42814666, 42735786, 42656874,
42577929, 42498952, 42419942, 42340900, 42261826, 42182720, 42103581, 42024411, 41945208, 41865974, 41786707, 41707409,
41628079, 41548718, 41469324, 41389899, 41310443, 41230955, 41151436, 41071885, 40992303, 40912690, 40833046, 40753371,
40673664, 40593927, 40514159, 40434360, 40354530, 40274669, 40194778, 40114856, 40034903, 39954920, 39874907, 39794863,
39714789, 39634685, 39554550, 39474386, 39394191, 39313966, 39233712, 39153427, 39073113, 38992769, 38912395, 38831992,
38751559, 38671096, 38590604, 38510083, 38429532, 38348952, 38268343, 38187705, 38107038, 38026341, 37945616, 37864862,
37784079, 37703267, 37622426, 37541557, 37460659, 37379733, 37298778, 37217795, 37136784, 37055744, 36974676, 36893580,
36812455, 36731303, 36650123, 36568914, 36487678, 36406415, 36325123, 36243804, 36162457, 36081083, 35999681, 35918252,
35836795, 35755311, 35673800, 35592262, 35510696, 35429104, 35347484, 35265838, 35184165, 35102465, 35020738, 34938985,
34857205, 34775398, 34693565, 34611706, 34529820, 34447908, 34365969, 34284005, 34202014, 34119998, 34037955, 33955886,
33873792, 33791672, 33709526, 33627354, 33545157, 33462934, 33380686, 33298412, 33216113, 33133789, 33051439, 32969065,
32886665, 32804240, 32721790, 32639315, 32556815, 32474291, 32391742, 32309168, 32226570, 32143947, 32061299, 31978627,
31895931, 31813210, 31730466, 31647697, 31564904, 31482087, 31399246, 31316381, 31233492, 31150579, 31067643, 30984683,
30901699, 30818692, 30735662, 30652608, 30569530, 30486430, 30403306, 30320159, 30236989, 30153796, 30070580, 29987341,
29904079, 29820795, 29737487, 29654157, 29570805, 29487430, 29404033, 29320613, 29237170, 29153706, 29070219, 28986711,
28903180, 28819627, 28736052, 28652455, 28568837, 28485196, 28401534, 28317851, 28234146, 28150419, 28066671, 27982901,
27899111, 27815299, 27731465, 27647611, 27563736, 27479839, 27395922, 27311984, 27228025, 27144045, 27060045, 26976024,
26891982, 26807920, 26723838, 26639735, 26555612, 26471468, 26387305, 26303121, 26218918, 26134694, 26050451, 25966188,
25881905, 25797602, 25713279, 25628937, 25544576, 25460195, 25375794, 25291375, 25206936, 25122478, 25038000, 24953504,
24868989, 24784454, 24699901, 24615329, 24530739, 24446129, 24361501, 24276855, 24192190, 24107506, 24022804, 23938084,
23853346, 23768589, 23683815, 23599022, 23514211, 23429383, 23344536, 23259672, 23174790, 23089891, 23004974, 22920039,
22835087, 22750118, 22665131, 22580127, 22495105, 22410067, 22325012, 22239939, 22154850, 22069744, 21984620, 21899481,
21814324, 21729151, 21643961, 21558755, 21473533, 21388294, 21303039, 21217767, 21132480, 21047176, 20961856, 20876521,
20791169, 20705802, 20620419, 20535020, 20449605, 20364175, 20278730, 20193269, 20107792, 20022300, 19936793, 19851271,
19765734, 19680182, 19594614, 19509032, 19423435, 19337823, 19252197, 19166555, 19080900, 18995229, 18909544, 18823845,
18738131, 18652404, 18566662, 18480905, 18395135, 18309351, 18223553, 18137740, 18051915, 17966075, 17880222, 17794355,
17708474, 17622580, 17536673, 17450752, 17364818, 17278870, 17192910, 17106936, 17020950, 16934950, 16848938, 16762913,
16676875, 16590824, 16504761, 16418685, 16332596, 16246495, 16160382, 16074257, 15988119, 15901969, 15815807, 15729633,
15643447, 15557248, 15471039, 15384817, 15298584, 15212339, 15126082, 15039814, 14953534, 14867243, 14780941, 14694628,
14608303, 14521967, 14435620, 14349262, 14262893, 14176514, 14090123, 14003722, 13917310, 13830888, 13744455, 13658011,
13571557, 13485093, 13398619, 13312134, 13225639, 13139134, 13052619, 12966094, 12879560, 12793015, 12706461, 12619897,
12533323, 12446740, 12360148, 12273546, 12186934, 12100314, 12013684, 11927045, 11840397, 11753740, 11667074, 11580399,
11493715, 11407023, 11320321, 11233612, 11146893, 11060166, 10973431, 10886687, 10799936, 10713175, 10626407, 10539631,
10452846, 10366054, 10279254, 10192446, 10105630, 10018806, 9931975, 9845136, 9758290, 9671436, 9584575, 9497707,
9410831, 9323949, 9237059, 9150162, 9063258, 8976347, 8889430, 8802505, 8715574, 8628637, 8541692, 8454742,
8367784, 8280821, 8193851, 8106875, 8019892, 7932904, 7845910, 7758909, 7671903, 7584891, 7497873, 7410849,
7323820, 7236785, 7149744, 7062699, 6975647, 6888591, 6801529, 6714462, 6627390, 6540313, 6453231, 6366144,
6279052, 6191955, 6104854, 6017748, 5930637, 5843522, 5756403, 5669279, 5582150, 5495018, 5407881, 5320740,
5233596, 5146447, 5059294, 4972137, 4884977, 4797813, 4710645, 4623474, 4536299, 4449120, 4361939, 4274754,
4187565, 4100374, 4013179, 3925982, 3838781, 3751577, 3664371, 3577162, 3489950, 3402735, 3315518, 3228298,
3141076, 3053851, 2966624, 2879395, 2792164, 2704930, 2617695, 2530457, 2443218, 2355976, 2268733, 2181489,
2094242, 2006994, 1919744, 1832493, 1745241, 1657987, 1570732, 1483475, 1396218, 1308960, 1221700, 1134440,
1047178, 959916, 872654, 785390, 698126, 610861, 523596, 436331, 349065, 261799, 174533, 87266,
0, -87266, -174533, -261799, -349065, -436331, -523596, -610861, -698126, -785390, -872654, -959916,
-1047178, -1134440, -1221700, -1308960, -1396218, -1483475, -1570732, -1657987, -1745241, -1832493, -1919744, -2006994,
-2094242, -2181489, -2268733, -2355976, -2443218, -2530457, -2617695, -2704930, -2792164, -2879395, -2966624, -3053851,
-3141076, -3228298, -3315518, -3402735, -3489950, -3577162, -3664371, -3751577, -3838781, -3925982, -4013179, -4100374,
-4187565, -4274754, -4361939, -4449120, -4536299, -4623474, -4710645, -4797813, -4884977, -4972137, -5059294, -5146447,
-5233596, -5320740, -5407881, -5495018, -5582150, -5669279, -5756403, -5843522, -5930637, -6017748, -6104854, -6191955,
-6279052, -6366144, -6453231, -6540313, -6627390, -6714462, -6801529, -6888591, -6975647, -7062699, -7149744, -7236785,
-7323820, -7410849, -7497873, -7584891, -7671903, -7758909, -7845910, -7932904, -8019892, -8106875, -8193851, -8280821,
-8367784, -8454742, -8541692, -8628637, -8715574, -8802505, -8889430, -8976347, -9063258, -9150162, -9237059, -9323949,
-9410831, -9497707, -9584575, -9671436, -9758290, -9845136, -9931975, -10018806, -10105630, -10192446, -10279254, -10366054,
-10452846, -10539631, -10626407, -10713175, -10799936, -10886687, -10973431, -11060166, -11146893, -11233612, -11320321, -11407023,
-11493715, -11580399, -11667074, -11753740, -11840397, -11927045, -12013684, -12100314, -12186934, -12273546, -12360148, -12446740,
-12533323, -12619897, -12706461, -12793015, -12879560, -12966094, -13052619, -13139134, -13225639, -13312134, -13398619, -13485093,
-13571557, -13658011, -13744455, -13830888, -13917310, -14003722, -14090123, -14176514, -14262893, -14349262, -14435620, -14521967,
-14608303, -14694628, -14780941, -14867243, -14953534, -15039814, -15126082, -15212339, -15298584, -15384817, -15471039, -15557248,
-15643447, -15729633, -15815807, -15901969, -15988119, -16074257, -16160382, -16246495, -16332596, -16418685, -16504761, -16590824,
-16676875, -16762913, -16848938, -16934950, -17020950, -17106936, -17192910, -17278870, -17364818, -17450752, -17536673, -17622580,
-17708474, -17794355, -17880222, -17966075, -18051915, -18137740, -18223553, -18309351, -18395135, -18480905, -18566662, -18652404,
-18738131, -18823845, -18909544, -18995229, -19080900, -19166555, -19252197, -19337823, -19423435, -19509032, -19594614, -19680182,
-19765734, -19851271, -19936793, -20022300, -20107792, -20193269, -20278730, -20364175, -20449605, -20535020, -20620419, -20705802,
-20791169, -20876521, -20961856, -21047176, -21132480, -21217767, -21303039, -21388294, -21473533, -21558755, -21643961, -21729151,
-21814324, -21899481, -21984620, -22069744, -22154850, -22239939, -22325012, -22410067, -22495105, -22580127, -22665131, -22750118,
-22835087, -22920039, -23004974, -23089891, -23174790, -23259672, -23344536, -23429383, -23514211, -23599022, -23683815, -23768589,
-23853346, -23938084, -24022804, -24107506, -24192190, -24276855, -24361501, -24446129, -24530739, -24615329, -24699901, -24784454,
-24868989, -24953504, -25038000, -25122478, -25206936, -25291375, -25375794, -25460195, -25544576, -25628937, -25713279, -25797602,
-25881905, -25966188, -26050451, -26134694, -26218918, -26303121, -26387305, -26471468, -26555612, -26639735, -26723838, -26807920,
-26891982, -26976024, -27060045, -27144045, -27228025, -27311984, -27395922, -27479839, -27563736, -27647611, -27731465, -27815299,
-27899111, -27982901, -28066671, -28150419, -28234146, -28317851, -28401534, -28485196, -28568837, -28652455, -28736052, -28819627,
-28903180, -28986711, -29070219, -29153706, -29237170, -29320613, -29404033, -29487430, -29570805, -29654157, -29737487, -29820795,
-29904079, -29987341, -30070580, -30153796, -30236989, -30320159, -30403306, -30486430, -30569530, -30652608, -30735662, -30818692,
-30901699, -30984683, -31067643, -31150579, -31233492, -31316381, -31399246, -31482087, -31564904, -31647697, -31730466, -31813210,
-31895931, -31978627, -32061299, -32143947, -32226570, -32309168, -32391742, -32474291, -32556815, -32639315, -32721790, -32804240,
-32886665, -32969065, -33051439, -33133789, -33216113, -33298412, -33380686, -33462934, -33545157, -33627354, -33709526, -33791672,
-33873792, -33955886, -34037955, -34119998, -34202014, -34284005, -34365969, -34447908, -34529820, -34611706, -34693565, -34775398,
-34857205, -34938985, -35020738, -35102465, -35184165, -35265838, -35347484, -35429104, -35510696, -35592262, -35673800, -35755311,
-35836795, -35918252, -35999681, -36081083, -36162457, -36243804, -36325123, -36406415, -36487678, -36568914, -36650123, -36731303,
-36812455, -36893580, -36974676, -37055744, -37136784, -37217795, -37298778, -37379733, -37460659, -37541557, -37622426, -37703267,
-37784079, -37864862, -37945616, -38026341, -38107038, -38187705, -38268343, -38348952, -38429532, -38510083, -38590604, -38671096,
-38751559, -38831992, -38912395, -38992769, -39073113, -39153427, -39233712, -39313966, -39394191, -39474386, -39554550, -39634685,
-39714789, -39794863, -39874907, -39954920, -40034903, -40114856, -40194778, -40274669, -40354530, -40434360, -40514159, -40593927,
-40673664, -40753371, -40833046, -40912690, -40992303, -41071885, -41151436, -41230955, -41310443, -41389899, -41469324, -41548718,
-41628079, -41707409, -41786707, -41865974, -41945208, -42024411, -42103581, -42182720, -42261826, -42340900, -42419942, -42498952,
-42577929, -42656874, -42735786, -42814666, -42893513, -42972328, -43051110, -43129859, -43208575, -43287258, -43365908, -43444526,
-43523110, -43601661, -43680179, -43758663, -43837115, -43915533, -43993917, -44072268, -44150585, -44228869, -44307119, -44385335,
-44463518, -44541667, -44619781, -44697862, -44775909, -44853921, -44931900, -45009844, -45087754, -45165630, -45243471, -45321278,
-45399050, -45476788, -45554491, -45632159, -45709793, -45787392, -45864955, -45942484, -46019978, -46097437, -46174861, -46252250,
-46329604, -46406922, -46484205, -46561452, -46638664, -46715841, -46792981, -46870087, -46947156, -47024190, -47101188, -47178150,
-47255076, -47331967, -47408821, -47485639, -47562421, -47639167, -47715876, -47792549, -47869186, -47945786, -48022350, -48098877,
-48175367, -48251821, -48328238, -48404619, -48480962, -48557269, -48633538, -48709771, -48785966, -48862124, -48938245, -49014329,
-49090375, -49166384, -49242356, -49318290, -49394187, -49470046, -49545867, -49621650, -49697396, -49773104, -49848774, -49924406,
-50000000, -50075556, -50151074, -50226553, -50301995, -50377398, -50452762, -50528089, -50603376, -50678626, -50753836, -50829008,
-50904142, -50979236, -51054292, -51129309, -51204286, -51279225, -51354125, -51428986, -51503807, -51578590, -51653333, -51728037,
-51802701, -51877326, -51951911, -52026457, -52100963, -52175430, -52249856, -52324243, -52398591, -52472898, -52547165, -52621392,
-52695580, -52769727, -52843833, -52917900, -52991926, -53065912, -53139858, -53213763, -53287628, -53361452, -53435235, -53508978,
-53582679, -53656341, -53729961, -53803540, -53877079, -53950576, -54024032, -54097447, -54170821, -54244154, -54317445, -54390695,
-54463904, -54537071, -54610196, -54683280, -54756322, -54829323, -54902282, -54975199, -55048074, -55120907, -55193699, -55266448,
-55339155, -55411820, -55484443, -55557023, -55629562, -55702057, -55774511, -55846922, -55919290, -55991616, -56063899, -56136140,
-56208338, -56280493, -56352605, -56424674, -56496700, -56568684, -56640624, -56712521, -56784375, -56856185, -56927952, -56999676,
-57071357, -57142994, -57214587, -57286137, -57357644, -57429106, -57500525, -57571900, -57643232, -57714519, -57785762, -57856962,
-57928117, -57999228, -58070296, -58141318, -58212297, -58283231, -58354121, -58424967, -58495767, -58566524, -58637236, -58707903,
-58778525, -58849103, -58919636, -58990124, -59060567, -59130965, -59201318, -59271626, -59341889, -59412106, -59482279, -59552406,
-59622487, -59692524, -59762515, -59832460, -59902360, -59972214, -60042023, -60111785, -60181502, -60251173, -60320799, -60390378,
-60459911, -60529399, -60598840, -60668235, -60737584, -60806887, -60876143, -60945353, -61014516, -61083633, -61152704, -61221728,
-61290705, -61359636, -61428520, -61497357, -61566148, -61634891, -61703588, -61772237, -61840840, -61909395, -61977903, -62046364,
-62114778, -62183145, -62251464, -62319735, -62387960, -62456136, -62524266, -62592347, -62660381, -62728367, -62796306, -62864196,
-62932039, -62999834, -63067581, -63135280, -63202930, -63270533, -63338087, -63405593, -63473051, -63540461, -63607822, -63675135,
-63742399, -63809615, -63876782, -63943900, -64010970, -64077991, -64144963, -64211887, -64278761, -64345586, -64412363, -64479090,
-64545769, -64612398, -64678978, -64745509, -64811990, -64878422, -64944805, -65011138, -65077422, -65143656, -65209840, -65275975,
-65342060, -65408096, -65474081, -65540017, -65605903, -65671739, -65737525, -65803260, -65868946, -65934582, -66000167, -66065702,
-66131187, -66196621, -66262005, -66327338, -66392621, -66457854, -66523035, -66588167, -66653247, -66718277, -66783256, -66848184,
-66913061, -66977887, -67042662, -67107386, -67172059, -67236681, -67301251, -67365771, -67430239, -67494655, -67559021, -67623335,
-67687597, -67751808, -67815967, -67880075, -67944130, -68008135, -68072087, -68135987, -68199836, -68263633, -68327377, -68391070,
-68454711, -68518299, -68581835, -68645319, -68708751, -68772131, -68835458, -68898732, -68961954, -69025124, -69088241, -69151306,
-69214317, -69277276, -69340183, -69403036, -69465837, -69528585, -69591280, -69653921, -69716510, -69779046, -69841529, -69903958,
-69966334, -70028657, -70090926, -70153143, -70215305, -70277415, -70339470, -70401472, -70463421, -70525316, -70587157, -70648944,
-70710678, -70772358, -70833984, -70895556, -70957074, -71018538, -71079947, -71141303, -71202605, -71263852, -71325045, -71386184,
-71447268, -71508298, -71569273, -71630194, -71691061, -71751873, -71812630, -71873332, -71933980, -71994573, -72055111, -72115594,
-72176023, -72236396, -72296715, -72356978, -72417186, -72477339, -72537437, -72597480, -72657467, -72717399, -72777276, -72837097,
-72896863, -72956573, -73016228, -73075827, -73135370, -73194858, -73254290, -73313666, -73372986, -73432251, -73491460, -73550612,
-73609709, -73668749, -73727734, -73786662, -73845534, -73904350, -73963109, -74021813, -74080460, -74139050, -74197584, -74256062,
-74314483, -74372847, -74431155, -74489406, -74547600, -74605738, -74663818, -74721842, -74779809, -74837719, -74895572, -74953368,
-75011107, -75068789, -75126413, -75183981, -75241491, -75298944, -75356339, -75413677, -75470958, -75528181, -75585347, -75642455,
-75699506, -75756498, -75813434, -75870311, -75927131, -75983893, -76040597, -76097243, -76153831, -76210361, -76266833, -76323247,
-76379603, -76435901, -76492140, -76548321, -76604444, -76660509, -76716515, -76772463, -76828352, -76884183, -76939956, -76995669,
-77051324, -77106921, -77162458, -77217937, -77273357, -77328719, -77384021, -77439264, -77494449, -77549574, -77604641, -77659648,
-77714596, -77769485, -77824315, -77879085, -77933796, -77988448, -78043041, -78097574, -78152047, -78206461, -78260816, -78315111,
-78369346, -78423521, -78477637, -78531693, -78585689, -78639626, -78693502, -78747319, -78801075, -78854772, -78908408, -78961985,
-79015501, -79068957, -79122353, -79175689, -79228964, -79282179, -79335334, -79388428, -79441462, -79494435, -79547348, -79600200,
-79652992, -79705723, -79758393, -79811002, -79863551, -79916039, -79968466, -80020832, -80073137, -80125381, -80177564, -80229687,
-80281748, -80333747, -80385686, -80437564, -80489380, -80541135, -80592828, -80644460, -80696031, -80747541, -80798988, -80850375,
-80901699, -80952963, -81004164, -81055304, -81106382, -81157398, -81208353, -81259245, -81310076, -81360845, -81411552, -81462197,
-81512780, -81563300, -81613759, -81664156, -81714490, -81764762, -81814972, -81865119, -81915204, -81965227, -82015188, -82065085,
-82114921, -82164694, -82214404, -82264052, -82313637, -82363159, -82412619, -82462016, -82511350, -82560621, -82609829, -82658975,
-82708057, -82757077, -82806033, -82854927, -82903757, -82952524, -83001229, -83049869, -83098447, -83146961, -83195412, -83243800,
-83292124, -83340385, -83388582, -83436716, -83484786, -83532793, -83580736, -83628616, -83676431, -83724183, -83771872, -83819496,
-83867057, -83914554, -83961986, -84009355, -84056660, -84103901, -84151078, -84198191, -84245240, -84292224, -84339145, -84386001,
-84432793, -84479520, -84526183, -84572782, -84619317, -84665787, -84712192, -84758533, -84804810, -84851021, -84897169, -84943251,
-84989269, -85035222, -85081111, -85126935, -85172693, -85218387, -85264016, -85309581, -85355080, -85400514, -85445883, -85491187,
-85536426, -85581600, -85626708, -85671752, -85716730, -85761643, -85806491, -85851273, -85895990, -85940641, -85985227, -86029748,
-86074203, -86118592, -86162916, -86207174, -86251367, -86295494, -86339555, -86383551, -86427480, -86471344, -86515142, -86558874,
-86602540, -86646141, -86689675, -86733143, -86776545, -86819881, -86863151, -86906355, -86949493, -86992564, -87035570, -87078509,
-87121381, -87164187, -87206927, -87249601, -87292208, -87334748, -87377222, -87419630, -87461971, -87504245, -87546453, -87588594,
-87630668, -87672676, -87714616, -87756490, -87798298, -87840038, -87881711, -87923318, -87964857, -88006330, -88047735, -88089074,
-88130345, -88171549, -88212687, -88253757, -88294759, -88335695, -88376563, -88417364, -88458098, -88498764, -88539363, -88579894,
-88620358, -88660754, -88701083, -88741345, -88781539, -88821665, -88861723, -88901714, -88941637, -88981493, -89021280, -89061000,
-89100652, -89140237, -89179753, -89219201, -89258582, -89297894, -89337139, -89376315, -89415424, -89454464, -89493436, -89532340,
-89571176, -89609944, -89648643, -89687274, -89725837, -89764331, -89802758, -89841115, -89879405, -89917626, -89955778, -89993862,
-90031877, -90069824, -90107702, -90145512, -90183253, -90220925, -90258528, -90296063, -90333529, -90370927, -90408255, -90445515,
-90482705, -90519827, -90556880, -90593864, -90630779, -90667625, -90704401, -90741109, -90777748, -90814317, -90850818, -90887249,
-90923611, -90959904, -90996127, -91032281, -91068366, -91104382, -91140328, -91176204, -91212012, -91247749, -91283418, -91319017,
-91354546, -91390005, -91425396, -91460716, -91495967, -91531148, -91566259, -91601301, -91636273, -91671175, -91706007, -91740770,
-91775463, -91810085, -91844638, -91879121, -91913534, -91947877, -91982150, -92016353, -92050485, -92084548, -92118541, -92152463,
-92186315, -92220097, -92253809, -92287450, -92321022, -92354523, -92387953, -92421313, -92454603, -92487823, -92520972, -92554050,
-92587058, -92619996, -92652863, -92685660, -92718385, -92751041, -92783625, -92816139, -92848583, -92880955, -92913257, -92945488,
-92977649, -93009738, -93041757, -93073705, -93105582, -93137388, -93169123, -93200787, -93232380, -93263902, -93295353, -93326734,
-93358043, -93389281, -93420447, -93451543, -93482568, -93513521, -93544403, -93575214, -93605954, -93636622, -93667219, -93697745,
-93728199, -93758582, -93788893, -93819134, -93849302, -93879399, -93909425, -93939379, -93969262, -93999073, -94028813, -94058481,
-94088077, -94117602, -94147054, -94176436, -94205745, -94234983, -94264149, -94293243, -94322266, -94351216, -94380095, -94408902,
-94437637, -94466300, -94494891, -94523410, -94551858, -94580233, -94608536, -94636767, -94664926, -94693013, -94721028, -94748970,
-94776841, -94804639, -94832366, -94860019, -94887601, -94915111, -94942548, -94969913, -94997205, -95024425, -95051573, -95078649,
-95105652, -95132582, -95159440, -95186226, -95212939, -95239580, -95266148, -95292644, -95319067, -95345417, -95371695, -95397900,
-95424033, -95450093, -95476080, -95501994, -95527836, -95553605, -95579301, -95604925, -95630476, -95655953, -95681358, -95706691,
-95731950, -95757136, -95782249, -95807290, -95832257, -95857152, -95881973, -95906722, -95931397, -95956000, -95980529, -96004985,
-96029369, -96053679, -96077915, -96102079, -96126170, -96150187, -96174131, -96198002, -96221799, -96245524, -96269175, -96292752,
-96316257, -96339688, -96363045, -96386330, -96409540, -96432678, -96455742, -96478732, -96501649, -96524493, -96547263, -96569960,
-96592583, -96615132, -96637608, -96660010, -96682339, -96704594, -96726775, -96748883, -96770917, -96792877, -96814764, -96836577,
-96858316, -96879982, -96901573, -96923091, -96944535, -96965905, -96987202, -97008424, -97029573, -97050647, -97071648, -97092575,
-97113428, -97134207, -97154912, -97175543, -97196100, -97216583, -97236992, -97257327, -97277588, -97297775, -97317887, -97337926,
-97357890, -97377781, -97397597, -97417339, -97437006, -97456600, -97476119, -97495565, -97514935, -97534232, -97553454, -97572602,
-97591676, -97610676, -97629601, -97648451, -97667228, -97685930, -97704557, -97723111, -97741589, -97759994, -97778324, -97796579,
-97814760, -97832867, -97850899, -97868856, -97886739, -97904547, -97922281, -97939940, -97957525, -97975035, -97992470, -98009831,
-98027117, -98044329, -98061466, -98078528, -98095516, -98112428, -98129266, -98146030, -98162718, -98179332, -98195871, -98212336,
-98228725, -98245040, -98261280, -98277445, -98293535, -98309550, -98325491, -98341356, -98357147, -98372863, -98388504, -98404070,
-98419561, -98434977, -98450318, -98465584, -98480775, -98495891, -98510933, -98525899, -98540790, -98555606, -98570347, -98585013,
-98599604, -98614119, -98628560, -98642926, -98657216, -98671431, -98685572, -98699637, -98713627, -98727541, -98741381, -98755145,
-98768834, -98782448, -98795987, -98809450, -98822838, -98836151, -98849389, -98862551, -98875638, -98888650, -98901586, -98914447,
-98927233, -98939944, -98952579, -98965139, -98977623, -98990032, -99002366, -99014624, -99026807, -99038914, -99050946, -99062903,
-99074784, -99086590, -99098320, -99109975, -99121554, -99133058, -99144486, -99155839, -99167116, -99178318, -99189444, -99200495,
-99211470, -99222370, -99233194, -99243942, -99254615, -99265212, -99275734, -99286180, -99296551, -99306846, -99317065, -99327209,
-99337277, -99347269, -99357186, -99367027, -99376792, -99386482, -99396096, -99405634, -99415096, -99424483, -99433794, -99443030,
-99452190, -99461273, -99470282, -99479214, -99488071, -99496852, -99505557, -99514186, -99522740, -99531218, -99539620, -99547946,
-99556196, -99564371, -99572470, -99580493, -99588440, -99596311, -99604107, -99611826, -99619470, -99627038, -99634530, -99641946,
-99649286, -99656550, -99663739, -99670851, -99677888, -99684849, -99691733, -99698542, -99705275, -99711932, -99718513, -99725019,
-99731448, -99737801, -99744078, -99750280, -99756405, -99762454, -99768428, -99774325, -99780147, -99785892, -99791562, -99797155,
-99802673, -99808114, -99813480, -99818769, -99823983, -99829120, -99834182, -99839167, -99844076, -99848910, -99853667, -99858348,
-99862953, -99867483, -99871936, -99876313, -99880614, -99884839, -99888987, -99893060, -99897057, -99900978, -99904822, -99908591,
-99912283, -99915899, -99919440, -99922904, -99926292, -99929604, -99932839, -99935999, -99939083, -99942090, -99945022, -99947877,
-99950656, -99953359, -99955986, -99958537, -99961012, -99963410, -99965732, -99967979, -99970149, -99972243, -99974261, -99976203,
-99978068, -99979858, -99981571, -99983208, -99984770, -99986254, -99987663, -99988996, -99990252, -99991433, -99992537, -99993565,
-99994517, -99995393, -99996192, -99996916, -99997563, -99998134, -99998629, -99999048, -99999391, -99999657, -99999848, -99999962,
-100000000>>
=============================================================================
