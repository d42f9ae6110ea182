// made by tools/gen_hard_floats.py
const struct { uint64_t w; int q; } hard_doubles[] = {
	{14080870906475526509ull, -341},
	{11116477031428047244ull, -341},
	{1235164114603116360ull, -341},
	{1729229760444362905ull, -341},
	{10647114667878863027ull, -340},
	{10054235892869367174ull, -340},
	{1309273961479303342ull, -340},
	{1062241138558680070ull, -340},
	{9523115323590027139ull, -339},
	{9735563551301763153ull, -339},
	{1123999344288835888ull, -339},
	{1168465252414548077ull, -339},
	{17292297604443629ull, -339},
	{12351641146031164ull, -339},
	{10543607915075121876ull, -338},
	{10789652606704062655ull, -338},
	{1009623147276587313ull, -338},
	{1003200293880651108ull, -338},
	{14574936552316773ull, -338},
	{13586805260634280ull, -338},
	{10388990071209103770ull, -337},
	{11190315142199021540ull, -337},
	{1511223294216912867ull, -337},
	{1201987606484876655ull, -337},
	{12079905040818478ull, -337},
	{10795334361631237ull, -337},
	{9590488585385168724ull, -336},
	{9670621092484160501ull, -336},
	{1038899007120910377ull, -336},
	{1119031514219902154ull, -336},
	{10041884251723336ull, -336},
	{10115994098599523ull, -336},
	{12307934863835932332ull, -335},
	{13810472978064601926ull, -335},
	{1005998928731518849ull, -335},
	{1023154864217710294ull, -335},
	{15744142903200083ull, -335},
	{12706133246922258ull, -335},
	{12279171868835274774ull, -334},
	{11508727481720501605ull, -334},
	{1550476439229765524ull, -334},
	{1531301109229327152ull, -334},
	{11607059514466113ull, -334},
	{10999457583210548ull, -334},
	{10128638950414063331ull, -333},
	{9514200973722288633ull, -333},
	{1077663375460660518ull, -333},
	{1224082120883439803ull, -333},
	{10122893725343696ull, -333},
	{10001373339092583ull, -333},
	{13427647700757270138ull, -332},
	{12905854803819272604ull, -332},
	{1060624584668327793ull, -332},
	{1026547003083662343ull, -332},
	{11724204208324833ull, -332},
	{12244958292223132ull, -332},
	{13014845637194560969ull, -331},
	{10277136807349307188ull, -331},
	{1499302639157126274ull, -331},
	{1238406190688127507ull, -331},
	{10916311646221159ull, -331},
	{12937995463044656ull, -331},
	{9549283654445801724ull, -330},
	{10592187896690103483ull, -330},
	{1162453383141272306ull, -330},
	{1357955331585098054ull, -330},
	{10569793060810397ull, -330},
	{10558307521682182ull, -330},
	{15051778634572208050ull, -329},
	{14988768416704048791ull, -329},
	{1022298216647750966ull, -329},
	{1057038973001504581ull, -329},
	{14134730757202822ull, -329},
	{11750448600189062ull, -329},
	{9332102753434768991ull, -328},
	{9269092535566609732ull, -328},
	{1505177863457220805ull, -328},
	{1442167645589061546ull, -328},
	{10166932182719299ull, -328},
	{13300232002248006ull, -328},
	{9295698174378808649ull, -327},
	{9523924588958332126ull, -327},
	{1240546869821736986ull, -327},
	{1167737711709816302ull, -327},
	{10096975513388145ull, -327},
	{10628264191013336ull, -327},
	{13849596131855183691ull, -326},
	{10311938205718526728ull, -326},
	{1034442320867698250ull, -326},
	{1072806687972410877ull, -326},
	{16242501479227886ull, -326},
	{11194531203304104ull, -326},
	{13322685890242718795ull, -325},
	{11666794261634900681ull, -325},
	{1091400935110141505ull, -325},
	{1618311176722606401ull, -325},
	{10253278267825377ull, -325},
	{10081038788366228ull, -325},
	{10658148712194175036ull, -324},
	{10101252500595490861ull, -324},
	{1249317224549980791ull, -324},
	{1053820483224929792ull, -324},
	{10148444403801754ull, -324},
	{10540402013552211ull, -324},
	{17308976969939870163ull, -323},
	{9517094545682384015ull, -323},
	{1071733673694711268ull, -323},
	{1098995417009133939ull, -323},
	{12413307850412379ull, -323},
	{16210548799908596ull, -323},
	{10140818302672910291ull, -322},
	{9427991151826594547ull, -322},
	{1024689029341578882ull, -322},
	{1769763818352792601ull, -322},
	{14058129708645520ull, -322},
	{10087429324230086ull, -322},
	{10860094981152205630ull, -321},
	{9797303782515711609ull, -321},
	{1266796096879991337ull, -321},
	{1273245624512970932ull, -321},
	{11246503766916416ull, -321},
	{11029344697030951ull, -321},
	{9238375039416994454ull, -320},
	{9252164350126865335ull, -320},
	{1086009498115220563ull, -320},
	{1091169120221604239ull, -320},
	{10492971468675724ull, -320},
	{11782876995271643ull, -320},
	{10290865184896429770ull, -319},
	{12987403316145891113ull, -319},
	{1300115624474434470ull, -319},
	{1451452412224549868ull, -319},
	{10478208521628261ull, -319},
	{11232169333451601ull, -319},
	{10984260184616128154ull, -318},
	{9586464204086826787ull, -318},
	{1029086518489642977ull, -318},
	{1018080537399738378ull, -318},
	{10704396765175263ull, -318},
	{10017659888038016ull, -318},
	{9434574388623859862ull, -317},
	{9258478691185386278ull, -317},
	{1102828410897574655ull, -317},
	{1080816448717765457ull, -317},
	{14239101729162254ull, -317},
	{16165603196288275ull, -317},
	{14962808464760181099ull, -316},
	{14132935661314523958ull, -316},
	{1764525457436119448ull, -316},
	{1144212355080072639ull, -316},
	{13592477601310723ull, -316},
	{12932482557030620ull, -316},
	{9805884682119208963ull, -315},
	{10974399407673356310ull, -315},
	{1079671244570632702ull, -315},
	{1248992205624877805ull, -315},
	{11665976134184702ull, -315},
	{10345986045624496ull, -315},
	{9565488936278152144ull, -314},
	{9358557194088232073ull, -314},
	{1195686117034769018ull, -314},
	{1097439940767335631ull, -314},
	{17310614537849827ull, -314},
	{11693103578184252ull, -314},
	{10341018956762565943ull, -313},
	{12955225579350684780ull, -313},
	{1561499430623880895ull, -313},
	{1677306964213790300ull, -313},
	{11235021919331150ull, -313},
	{11027683045104239ull, -313},
	{10178888409736692776ull, -312},
	{10364180463480547824ull, -312},
	{1272361051217086597ull, -312},
	{1295522557935068478ull, -312},
	{10992959916784815ull, -312},
	{10578282168330993ull, -312},
	{9526342647598370475ull, -311},
	{9707611127307395890ull, -311},
	{1077500031131655425ull, -311},
	{1073476457096825792ull, -311},
	{14380828056743872ull, -311},
	{16773069642137903ull, -311},
	{9824419363202470405ull, -310},
	{14303617245333628621ull, -310},
	{1001869934672578617ull, -310},
	{1000047430939683442ull, -310},
	{12461559079552710ull, -310},
	{10699947638429171ull, -310},
	{10301342108169030293ull, -309},
	{12743148725776084262ull, -309},
	{1524214823615739276ull, -309},
	{1322007147074264415ull, -309},
	{10169387724675190ull, -309},
	{12191557149174603ull, -309},
	{9596271629729422605ull, -308},
	{9559706014975632364ull, -308},
	{1109485831522557410ull, -308},
	{1057605717659411532ull, -308},
	{10007023051651100ull, -308},
	{10017182159012065ull, -308},
	{12416553543487853357ull, -307},
	{9479072479408630546ull, -307},
	{1004787815538837987ull, -307},
	{1021977891163048958ull, -307},
	{11954260505362513ull, -307},
	{13985796426210426ull, -307},
	{11108235260421971810ull, -306},
	{11659602951185099791ull, -306},
	{1250687484861964481ull, -306},
	{1365949081269798613ull, -306},
	{12251192923190071ull, -306},
	{10313639010232144ull, -306},
	{9766888541564106365ull, -305},
	{9915178573763924395ull, -305},
	{1110823526042197181ull, -305},
	{1184968542142106196ull, -305},
	{10225651560005198ull, -305},
	{10163674161902605ull, -305},
	{11868556282076745668ull, -304},
	{12867488641063129009ull, -304},
	{1001626930610184611ull, -304},
	{1011066790582563874ull, -304},
	{15923949794934657ull, -304},
	{10363627293008657ull, -304},
	{13300763220391162820ull, -303},
	{10094204441053226539ull, -303},
	{1163129223055703682ull, -303},
	{1386642100004951235ull, -303},
	{10042816354331492ull, -303},
	{12874331381591530ull, -303},
	{10640610576312930256ull, -302},
	{9431916514947760657ull, -302},
	{1330076322039116282ull, -302},
	{1109313680003960988ull, -302},
	{10243801814982235ull, -302},
	{10299465105273224ull, -302},
	{9664854575495699348ull, -301},
	{14588812817063744393ull, -301},
	{1000106837842797702ull, -301},
	{1045285075324688207ull, -301},
	{12078768305889544ull, -301},
	{14829003219981803ull, -301},
	{10909691226846381351ull, -300},
	{9980287942367455309ull, -300},
	{1059425785997462539ull, -300},
	{1319470789034535533ull, -300},
	{10213061627530087ull, -300},
	{12963296541622346ull, -300},
	{10214798236643386748ull, -299},
	{9400490626146226497ull, -299},
	{1219301942589540448ull, -299},
	{1334397616571306239ull, -299},
	{10212474572582562ull, -299},
	{10217171012162762ull, -299},
	{10281567448535612378ull, -298},
	{9375743912824913396ull, -298},
	{1003643424442865345ull, -298},
	{1011114352514579018ull, -298},
	{16105063544849227ull, -298},
	{13748591528692185ull, -298},
	{9874227164451734787ull, -297},
	{13675512341838669082ull, -297},
	{1130131969367499111ull, -297},
	{1141524840310367086ull, -297},
	{13747840098359353ull, -297},
	{10998873222953748ull, -297},
	{10124608077359432280ull, -296},
	{9883341461206029167ull, -296},
	{1265576009669929035ull, -296},
	{1015195096762231542ull, -296},
	{10134482816207511ull, -296},
	{10213883504456622ull, -296},
	{10884865112836819139ull, -295},
	{16711071905695639890ull, -295},
	{1012460807735943228ull, -295},
	{1019752245139378732ull, -295},
	{10163838514442093ull, -295},
	{10343329182720262ull, -295},
	{9770793652457109813ull, -294},
	{13368857524556511912ull, -294},
	{1415257699609289868ull, -294},
	{1671107190569563989ull, -294},
	{10136216097498438ull, -294},
	{10370951599663917ull, -294},
	{9255860470805448690ull, -293},
	{11480769191833754461ull, -293},
	{1033100563034435127ull, -293},
	{1026632163572209365ull, -293},
	{11025547839372952ull, -293},
	{10025726429723818ull, -293},
	{9233792654197275453ull, -292},
	{9223478780361867805ull, -292},
	{1029866363303322246ull, -292},
	{1090762041502206148ull, -292},
	{13759836865661266ull, -292},
	{10525637134548385ull, -292},
	{11402519658425313169ull, -291},
	{9733877413895442100ull, -291},
	{1564361928307093692ull, -291},
	{1355801295861538938ull, -291},
	{14376073375584496ull, -291},
	{11141873644471615ull, -291},
	{11791874754981130853ull, -290},
	{10901942703562895152ull, -290},
	{1084609599696144543ull, -290},
	{1362742837945361894ull, -290},
	{10175741814935837ull, -290},
	{10648884436533031ull, -290},
	{9344365132374191379ull, -289},
	{9433625551957251112ull, -289},
	{1001153909724836034ull, -289},
	{1045705527033649382ull, -289},
	{12147698646690173ull, -289},
	{16344060890070554ull, -289},
	{12156757899010187803ull, -288},
	{11996592135650066002ull, -288},
	{1156927385340249715ull, -288},
	{1459532576116227800ull, -288},
	{10235757892354046ull, -288},
	{12589086730141143ull, -288},
	{11914673746389405335ull, -287},
	{9341008487143857920ull, -287},
	{1327791824253104041ull, -287},
	{1167626060892982240ull, -287},
	{10321876200064082ull, -287},
	{11796747488909555ull, -287},
	{9531738997111524268ull, -286},
	{9405808995520146547ull, -286},
	{1060030850305763513ull, -286},
	{1063701865466963046ull, -286},
	{12455590650615773ull, -286},
	{14595325761162278ull, -286},
	{11284033982495216230ull, -285},
	{15071543581021550393ull, -285},
	{1390880544540955464ull, -285},
	{1107960916782005225ull, -285},
	{14730706789500410ull, -285},
	{10698675552732525ull, -285},
	{9511296515644007870ull, -284},
	{10551379762450905235ull, -284},
	{1128403398249521623ull, -284},
	{1448932876157225325ull, -284},
	{11883541025330378ull, -284},
	{11933028822195403ull, -284},
	{9545314531106545840ull, -283},
	{9685295149542849373ull, -283},
	{1193164316388318230ull, -283},
	{1159146300925780260ull, -283},
	{13615124232513592ull, -283},
	{17048597968761005ull, -283},
	{9269261850820090427ull, -282},
	{13281797106439073048ull, -282},
	{1909062906221309168ull, -282},
	{1660224638304884131ull, -282},
	{10173732448767775ull, -282},
	{13638878375008804ull, -282},
	{10015776654569365538ull, -281},
	{9922465941194031929ull, -281},
	{1477482671393762327ull, -281},
	{1228644403477337290ull, -281},
	{12271823318508562ull, -281},
	{10332093398735855ull, -281},
	{9530537667620345780ull, -280},
	{10084212270177038515ull, -280},
	{1076226236157203441ull, -280},
	{1144661851764876418ull, -280},
	{17301422056565203ull, -280},
	{14192034835607624ull, -280},
	{11990319803701107671ull, -279},
	{10509727745086387765ull, -279},
	{1011516065865358311ull, -279},
	{1005326388170049392ull, -279},
	{15084892533635194ull, -279},
	{11975505312677615ull, -279},
	{9240379968402726354ull, -278},
	{12962311233122763317ull, -278},
	{1080708409234839353ull, -278},
	{1021237139782438200ull, -278},
	{11569248201690693ull, -278},
	{11821490788960048ull, -278},
	{10220175428078214791ull, -277},
	{9982290350268610179ull, -277},
	{1054874789635555172ull, -277},
	{1183235711352714141ull, -277},
	{10016020046044508ull, -277},
	{10031509997561722ull, -277},
	{10378568081779400454ull, -276},
	{15013181737457124743ull, -276},
	{1010419386175167366ull, -276},
	{1009827191659515131ull, -276},
	{15217660061828831ull, -276},
	{10212371397824382ull, -276},
	{10140919881776056736ull, -275},
	{9229777196559065221ull, -275},
	{1267614985222007092ull, -275},
	{1505263185225350810ull, -275},
	{11173070316662175ull, -275},
	{11054631413531728ull, -275},
	{9293655389213313453ull, -274},
	{9269227311355448578ull, -274},
	{1164760433383897291ull, -274},
	{1204210548180280648ull, -274},
	{10004406381503763ull, -274},
	{10135187177644480ull, -274},
	{10185255612144013068ull, -273},
	{14548969270042426390ull, -273},
	{1004699761524477154ull, -273},
	{1001274906848102407ull, -273},
	{15851109260431611ull, -273},
	{10965493688858636ull, -273},
	{10915146883431920875ull, -272},
	{11639175416033941112ull, -272},
	{1456851173232871829ull, -272},
	{1454896927004242639ull, -272},
	{10916143424724814ull, -272},
	{12228844873567947ull, -272},
	{10186428159881190582ull, -271},
	{9453019245381750233ull, -271},
	{1001531497067365217ull, -271},
	{1330020592994837398ull, -271},
	{10077197588403469ull, -271},
	{10051538566477188ull, -271},
	{9894315311667737124ull, -270},
	{13822204792720325287ull, -270},
	{1022394968747087103ull, -270},
	{1016141380815473695ull, -270},
	{10143522681840229ull, -270},
	{11157761210217942ull, -270},
	{11177110408634286976ull, -269},
	{11783668443157764489ull, -269},
	{1397138801079285872ull, -269},
	{1247955583006752439ull, -269},
	{10357505011734707ull, -269},
	{10020586856206700ull, -269},
	{10146944266167709582ull, -268},
	{10272185937965742597ull, -268},
	{1237057615321455444ull, -268},
	{1179349360539110827ull, -268},
	{10162080388871788ull, -268},
	{10652671919821926ull, -268},
	{15130048224046481742ull, -267},
	{17305797018544325764ull, -267},
	{1002904231936758421ull, -267},
	{1022554556403445983ull, -267},
	{14971962079851004ull, -267},
	{17151555616910403ull, -267},
	{10363439543638910176ull, -266},
	{11036202849475948665ull, -266},
	{1295429942954863772ull, -266},
	{1137971065968135217ull, -266},
	{10233894834233284ull, -266},
	{10455252451254521ull, -266},
	{11351120603449405775ull, -265},
	{9501725585417797421ull, -265},
	{1019172835207841310ull, -265},
	{1314034836276731267ull, -265},
	{11054664199022202ull, -265},
	{10329234407672373ull, -265},
	{12007276048546592549ull, -264},
	{15168981956772574451ull, -264},
	{1034056749865335306ull, -264},
	{1017448889125483591ull, -264},
	{13386140220982161ull, -264},
	{10663677847616552ull, -264},
	{10648463148280634199ull, -263},
	{11092543255974699401ull, -263},
	{1816179296551904924ull, -263},
	{1123486557827044377ull, -263},
	{10364122960314185ull, -263},
	{11162935993120497ull, -263},
	{9561412828067867519ull, -262},
	{11314583309821732002ull, -262},
	{1408535426472117419ull, -262},
	{1209645321647481143ull, -262},
	{10009250595984640ull, -262},
	{11309702476033463ull, -262},
	{9231885724877951228ull, -261},
	{9238111368826207445ull, -261},
	{1082220873640315296ull, -261},
	{1004308874036056267ull, -261},
	{14594706248390294ull, -261},
	{12581551756928873ull, -261},
	{10415311118902851362ull, -260},
	{13921652082410580328ull, -260},
	{1736502518457739129ull, -260},
	{1740206510301322541ull, -260},
	{10508294709193813ull, -260},
	{10789658391410806ull, -260},
	{9327850508152131917ull, -259},
	{9446378247146801101ull, -259},
	{1035604724940551677ull, -259},
	{1050420692314885325ull, -259},
	{10443831281325927ull, -259},
	{10854121819278692ull, -259},
	{9502477191000895139ull, -258},
	{9504059653822515416ull, -258},
	{1013380773879051205ull, -258},
	{1188007456727814427ull, -258},
	{10783743100388024ull, -258},
	{10514210000216595ull, -258},
	{9456332065660323687ull, -257},
	{10383981960936613558ull, -257},
	{1066085271298004227ull, -257},
	{1715281951709245109ull, -257},
	{13388277256934569ull, -257},
	{12963971452541942ull, -257},
	{9493564658497104904ull, -256},
	{11199934077702559778ull, -256},
	{1186695582312138113ull, -256},
	{1223928175148919330ull, -256},
	{11073018528251803ull, -256},
	{10031732518519452ull, -256},
	{9447619576835671222ull, -255},
	{9442072013654259311ull, -255},
	{1030635184961981057ull, -255},
	{1179565556309105925ull, -255},
	{11536281335142863ull, -255},
	{15001272497090072ull, -255},
	{9965390881020747274ull, -254},
	{13500602554418204063ull, -254},
	{1085612825334687636ull, -254},
	{1486458857714628558ull, -254},
	{10655030268720728ull, -254},
	{12397528033651221ull, -254},
	{11636682718684661609ull, -253},
	{12021938714823917847ull, -253},
	{1254855769043288729ull, -253},
	{1124587915936399346ull, -253},
	{11027535063203359ull, -253},
	{10615021532893174ull, -253},
	{9903030736058008538ull, -252},
	{9925755768770539268ull, -252},
	{1042410214848556607ull, -252},
	{1053772731204821972ull, -252},
	{15755041652808758ull, -252},
	{19652550712979929ull, -252},
	{10682632741421533306ull, -251},
	{9923483265499286195ull, -251},
	{1001237765972559750ull, -251},
	{1001104382648839021ull, -251},
	{12022538004761661ull, -251},
	{10067521391595415ull, -251},
	{12667329394521390545ull, -250},
	{10078949165917740534ull, -250},
	{1371923064511052175ull, -250},
	{1527388964929506514ull, -250},
	{10527031712310558ull, -250},
	{10326520384529405ull, -250},
	{10133863515617112436ull, -249},
	{9237428165446435570ull, -249},
	{1097538451608841740ull, -249},
	{1042624101909469838ull, -249},
	{10052442524521823ull, -249},
	{10025815727457684ull, -249},
	{10764929411732731529ull, -248},
	{11981349148706399550ull, -248},
	{1006264049569420670ull, -248},
	{1015166927059783887ull, -248},
	{11437370594124995ull, -248},
	{11399943475195180ull, -248},
	{13161199241474011439ull, -247},
	{9585079318965119640ull, -247},
	{1161565270664583823ull, -247},
	{1198134914870639955ull, -247},
	{10003234786899778ull, -247},
	{10522437636984435ull, -247},
	{10212536157372363283ull, -246},
	{9731357895789344168ull, -246},
	{1070141160149443493ull, -246},
	{1216419736973668021ull, -246},
	{10010720210685741ull, -246},
	{10198397527105458ull, -246},
	{9600476894901447346ull, -245},
	{11760006987835299625ull, -245},
	{1027797023609986641ull, -245},
	{1000852068435968816ull, -245},
	{16119387478002796ull, -245},
	{11307845676539303ull, -245},
	{11011677733441683301ull, -244},
	{9408005590268239700ull, -244},
	{1037036211343427793ull, -244},
	{1314965186223632132ull, -244},
	{10200532836267058ull, -244},
	{10586034134864213ull, -244},
	{9882717062609494537ull, -243},
	{10536966261100428464ull, -243},
	{1039191807757349219ull, -243},
	{1317120782637553558ull, -243},
	{10006979472412820ull, -243},
	{10162785420963003ull, -243},
	{10052923401799891422ull, -242},
	{12042247155543346816ull, -242},
	{1002575261223816900ull, -242},
	{1066476967331599333ull, -242},
	{10593583617925024ull, -242},
	{10224786714560812ull, -242},
	{11047585278671619119ull, -241},
	{13581569317824344545ull, -241},
	{1675487233633315237ull, -241},
	{1403157090928680221ull, -241},
	{12065621417333601ull, -241},
	{11486983373203631ull, -241},
	{9602921810337433757ull, -240},
	{10865255454259475636ull, -240},
	{1086991382991379647ull, -240},
	{1082333007337058813ull, -240},
	{10025752612238169ull, -240},
	{10503298698182682ull, -240},
	{9780593259095256406ull, -239},
	{14592367908092842215ull, -239},
	{1015456965922818504ull, -239},
	{1036084453580556365ull, -239},
	{12123485221746598ull, -239},
	{15575366614148987ull, -239},
	{14039922465185909122ull, -238},
	{10175197146885922901ull, -238},
	{1419377605022126667ull, -238},
	{1025571311247641982ull, -238},
	{12926130856751273ull, -238},
	{10596943029590856ull, -238},
	{9859514036653389705ull, -237},
	{10885005588499413506ull, -237},
	{1104252810600920738ull, -237},
	{1183333106962290399ull, -237},
	{10928104521238456ull, -237},
	{10018420742972129ull, -237},
	{10048796287750320533ull, -236},
	{12856908395830091447ull, -236},
	{1041052381033119554ull, -236},
	{1120132677394489215ull, -236},
	{11770321142344541ull, -236},
	{11850080543962722ull, -236},
	{10417769062346746558ull, -235},
	{10307567107611185391ull, -235},
	{1015899824248588170ull, -235},
	{1274670644109453028ull, -235},
	{12496518990647511ull, -235},
	{12656037793883873ull, -235},
	{9382685782903287126ull, -234},
	{10382341417817203877ull, -234},
	{1292874344017591009ull, -234},
	{1182672389282029842ull, -234},
	{10594125351484021ull, -234},
	{10252445277696188ull, -234},
	{9233231035015536893ull, -233},
	{9225111375148810428ull, -233},
	{1078380257108297274ull, -233},
	{1086249590243592435ull, -233},
	{15620108214927276ull, -233},
	{13897713752786806ull, -233},
	{12729589859254227582ull, -232},
	{10031281545627038740ull, -232},
	{1150796896457870103ull, -232},
	{1737999344389747896ull, -232},
	{10334366772842820ull, -232},
	{14069953199000853ull, -232},
	{10066231397817006507ull, -231},
	{10653433845748884300ull, -231},
	{1038078006752671641ull, -231},
	{1003128154562703874ull, -231},
	{10784428387911551ull, -231},
	{10625164274719913ull, -231},
	{9439867142976197092ull, -230},
	{9339229541125257646ull, -230},
	{1026181577665956808ull, -230},
	{1065343384574888430ull, -230},
	{14547033515191221ull, -230},
	{10704796331315732ull, -230},
	{9225113684173633864ull, -229},
	{12003430393506271492ull, -229},
	{1153139210521704233ull, -229},
	{1704549415319821488ull, -229},
	{10869179375377879ull, -229},
	{11711570319170650ull, -229},
	{9258000615749052565ull, -228},
	{9521096068352402173ull, -228},
	{1004159614869978407ull, -228},
	{1445287778708472211ull, -228},
	{11432176869885586ull, -228},
	{10211647199129291ull, -228},
	{9447606653914617567ull, -227},
	{9331490030186837171ull, -227},
	{1129920677706442808ull, -227},
	{1100891521774497709ull, -227},
	{13061922186801631ull, -227},
	{10156610628459794ull, -227},
	{12527383304211601014ull, -226},
	{9261453446107000190ull, -226},
	{1154687112709388328ull, -226},
	{1703001513132137393ull, -226},
	{10835315313788665ull, -226},
	{12764203135525466ull, -226},
	{11041874502032719530ull, -225},
	{9273431718322946973ull, -225},
	{1462481472817502301ull, -225},
	{1035808224695249832ull, -225},
	{11144895751325484ull, -225},
	{11835461822915009ull, -225},
	{9727200537376693871ull, -224},
	{9304946912112614362ull, -224},
	{1104187450203271953ull, -224},
	{1026039763908389529ull, -224},
	{19398808359402701ull, -224},
	{10182800429814018ull, -224},
	{9927873300543707483ull, -223},
	{15704955052948641815ull, -223},
	{1115281797847584144ull, -223},
	{1334607558016683770ull, -223},
	{12134053286280898ull, -223},
	{10099932501223275ull, -223},
	{9551288908855820916ull, -222},
	{12563964042358913452ull, -222},
	{1320136180800608213ull, -222},
	{1067686046413347016ull, -222},
	{11456975572741986ull, -222},
	{12340900144376578ull, -222},
	{9253366691334320028ull, -221},
	{9245003451762299114ull, -221},
	{1158761646309795232ull, -221},
	{1055272620683284479ull, -221},
	{11898937858559282ull, -221},
	{12927913601565792ull, -221},
	{12222973566672404080ull, -220},
	{14393939575500475307ull, -220},
	{1005618917763034331ull, -220},
	{1001437297977023874ull, -220},
	{12001835432859933ull, -220},
	{12825016027265141ull, -220},
	{9778378853337923264ull, -219},
	{11949344862165994491ull, -219},
	{1222297356667240408ull, -219},
	{1477862433950444512ull, -219},
	{12591205211740462ull, -219},
	{12413425730062537ull, -219},
	{9226336818810905598ull, -218},
	{9553966900668333145ull, -218},
	{1002460815037597400ull, -218},
	{1197406997347602603ull, -218},
	{10141034388800164ull, -218},
	{10055946614540421ull, -218},
	{13910800993545004899ull, -217},
	{13903575542655722705ull, -217},
	{1000668551485338255ull, -217},
	{1000555758124847027ull, -217},
	{10724397465649419ull, -217},
	{10496839729101675ull, -217},
	{12522249802001753177ull, -216},
	{11122860434124578164ull, -216},
	{1001357258566119106ull, -216},
	{1530079794284789742ull, -216},
	{10024608150375974ull, -216},
	{12010197227922437ull, -216},
	{9737921968025967539ull, -215},
	{10554434145906569526ull, -215},
	{1115176223768170694ull, -215},
	{1100725321989606306ull, -215},
	{10060859706978390ull, -215},
	{10330702871266169ull, -215},
	{16746913640720093865ull, -214},
	{14461163654539808052ull, -214},
	{1067004136013508463ull, -214},
	{1009200528899250911ull, -214},
	{10085827094554013ull, -214},
	{15806579505097651ull, -214},
	{9693603937110811999ull, -213},
	{12529957915680766559ull, -213},
	{1399389367877175013ull, -213},
	{1240904865624355120ull, -213},
	{10958842031356088ull, -213},
	{11200173426221682ull, -213},
	{9409968539253816543ull, -212},
	{9676937133786489834ull, -212},
	{1009390695823806261ull, -212},
	{1276359290356479552ull, -212},
	{10596844939057697ull, -212},
	{10501761476780022ull, -212},
	{14255103827476790326ull, -211},
	{12252989239153499969ull, -211},
	{1007574144819614719ull, -211},
	{1087874542119879762ull, -211},
	{12196966847895541ull, -211},
	{16590736554500025ull, -211},
	{10603237226652116118ull, -210},
	{12135535047212864467ull, -210},
	{1115814823436037269ull, -210},
	{1708479108471701602ull, -210},
	{11090917744262206ull, -210},
	{13272589243600020ull, -210},
	{11073053994414658126ull, -209},
	{9639034187672407637ull, -209},
	{1248250429770228415ull, -209},
	{1272819933224852880ull, -209},
	{10206078461355538ull, -209},
	{10618071394880016ull, -209},
	{10084281451980325180ull, -208},
	{14661519310898870655ull, -208},
	{1011424347322709691ull, -208},
	{1018255946579882304ull, -208},
	{10996348474385768ull, -208},
	{15910249165310661ull, -208},
	{13016585314160099311ull, -207},
	{11729215448719096524ull, -207},
	{1008428145198032518ull, -207},
	{1737914570153094767ull, -207},
	{13926680182119398ull, -207},
	{10067513702630751ull, -207},
	{10453332113165713845ull, -206},
	{11363036420005612886ull, -206},
	{1104280351084260968ull, -206},
	{1281626600497192733ull, -206},
	{10465395778110175ull, -206},
	{10848935491359719ull, -206},
	{14847480457727517501ull, -205},
	{14221530149948309284ull, -205},
	{1074554366145484669ull, -205},
	{1016112056487658100ull, -205},
	{15813647118886781ull, -205},
	{12942014646981754ull, -205},
	{13982838488768191311ull, -204},
	{9272369997372470117ull, -204},
	{1058271292258871312ull, -204},
	{1296962953438989285ull, -204},
	{11502264706347414ull, -204},
	{10555543761530609ull, -204},
	{9420936982791442388ull, -203},
	{11627604243070330714ull, -203},
	{1317663882946669169ull, -203},
	{1037570362751191428ull, -203},
	{10539808942803303ull, -203},
	{10161120564876581ull, -203},
	{9261615879076434039ull, -202},
	{9369815630864041985ull, -202},
	{1172984694692513152ull, -202},
	{1050723016228841975ull, -202},
	{18327885854570518ull, -202},
	{10779609824541181ull, -202},
	{11032144891807880202ull, -201},
	{10209202634260554137ull, -201},
	{1488350525759485923ull, -201},
	{1173282547089153509ull, -201},
	{12031777988126305ull, -201},
	{14273528967174789ull, -201},
	{9320387397971414162ull, -200},
	{10101049880145480972ull, -200},
	{1123901311869060467ull, -200},
	{1344925460772917728ull, -200},
	{11240111735755617ull, -200},
	{11537964132395974ull, -200},
	{9233865194679355630ull, -199},
	{9364629825890213439ull, -199},
	{1030791810702820544ull, -199},
	{1108858058920227225ull, -199},
	{16106122042231571ull, -199},
	{12111726654964453ull, -199},
	{9400929898221967222ull, -198},
	{13113864138276159555ull, -198},
	{1023830781388545061ull, -198},
	{1609584442762898347ull, -198},
	{14389222928668581ull, -198},
	{14202357208621535ull, -198},
	{12023702725877199133ull, -197},
	{10491091310620927644ull, -197},
	{1203434512237341063ull, -197},
	{1419338315417890848ull, -197},
	{10268665056117405ull, -197},
	{11361885766897228ull, -197},
	{9541114576626508590ull, -196},
	{9390287501725755725ull, -196},
	{1230346090803501790ull, -196},
	{1079519015902748925ull, -196},
	{15175961359169407ull, -196},
	{10481714476372879ull, -196},
	{12110064247149419047ull, -195},
	{12049733417189117901ull, -195},
	{1908222915325301718ull, -195},
	{1126834500207090687ull, -195},
	{14269248386577825ull, -195},
	{10134524718346020ull, -195},
	{10319195212810134177ull, -194},
	{9591522069783053404ull, -194},
	{1532611415256271489ull, -194},
	{1502446000276120916ull, -194},
	{11415398709262260ull, -194},
	{10588453975615899ull, -194},
	{9663178429034721375ull, -193},
	{9761189030372590017ull, -193},
	{1104686835583721495ull, -193},
	{1153692136252655816ull, -193},
	{11900777045330957ull, -193},
	{16610748467526894ull, -193},
	{10207593976322625345ull, -192},
	{10868140971814584877ull, -192},
	{1005238156600659197ull, -192},
	{1007287283677966800ull, -192},
	{10462615920703953ull, -192},
	{15172587342899890ull, -192},
	{9877320478576645579ull, -191},
	{10808263163025938404ull, -191},
	{1546108548645555420ull, -191},
	{1155957242110929181ull, -191},
	{10059967536759065ull, -191},
	{12591091045974585ull, -191},
	{9895094711331554688ull, -190},
	{9673357708931877905ull, -190},
	{1236886838916444336ull, -190},
	{1032924069271676662ull, -190},
	{10048644566844481ull, -190},
	{10072872836779668ull, -190},
	{14285765698195909832ull, -189},
	{9449931464664047627ull, -189},
	{1003728857337082756ull, -189},
	{1005418099205236251ull, -189},
	{13355906684768686ull, -189},
	{12561749987865647ull, -189},
	{9821294993322872660ull, -188},
	{10120548045841169160ull, -188},
	{1190255242600572020ull, -188},
	{1265068505730146145ull, -188},
	{11320050705337380ull, -188},
	{11657899078968079ull, -188},
	{9671668467063724410ull, -187},
	{9911070909078361610ull, -187},
	{1171238409491088807ull, -187},
	{1012054804584116916ull, -187},
	{10178378825110693ull, -187},
	{10069585685162001ull, -187},
	{12872422059701138233ull, -186},
	{15857713454525378576ull, -186},
	{1012634291656391662ull, -186},
	{1015047335109299881ull, -186},
	{11632273727101161ull, -186},
	{12307970474362559ull, -186},
	{12834117668978796281ull, -185},
	{10002043837043923746ull, -185},
	{1460316858223763226ull, -185},
	{1027017457210031741ull, -185},
	{10020222501172471ull, -185},
	{10328985070071691ull, -185},
	{9848826274154555938ull, -184},
	{9675506513749063344ull, -184},
	{1296098194421379215ull, -184},
	{1209438314218632918ull, -184},
	{10402594807979610ull, -184},
	{10174603785622081ull, -184},
	{9378362485004427073ull, -183},
	{14782530508265933252ull, -183},
	{1036878555537103372ull, -183},
	{1055460749605302062ull, -183},
	{14459146736373613ull, -183},
	{14364146520878232ull, -183},
	{11741830747195990612ull, -182},
	{11275083396859501485ull, -182},
	{1701102518567743390ull, -182},
	{1234355168231254263ull, -182},
	{11719317733891500ull, -182},
	{11339316871909976ull, -182},
	{9486814067824090315ull, -181},
	{10663733936096794702ull, -181},
	{1038736774943923241ull, -181},
	{1216279904427977056ull, -181},
	{10051098758062393ull, -181},
	{10558029022983876ull, -181},
	{10917429531052419251ull, -180},
	{10308647677128687072ull, -180},
	{1040020578363410543ull, -180},
	{1070393990582272098ull, -180},
	{13716923279893818ull, -180},
	{13075021570150167ull, -180},
	{11656096523675849860ull, -179},
	{12005108100200185179ull, -179},
	{1152621138497615143ull, -179},
	{1022735999797916713ull, -179},
	{11358679649761245ull, -179},
	{10716777940017594ull, -179},
	{9324877218940679888ull, -178},
	{9673888795465015207ull, -178},
	{1165609652367584986ull, -178},
	{1061701541407826242ull, -178},
	{10815401576358379ull, -178},
	{10026412485632099ull, -178},
	{15199012811524556076ull, -177},
	{12054128793313100494ull, -177},
	{1015614210661874984ull, -177},
	{1058768179040862185ull, -177},
	{16968982929203318ull, -177},
	{14035620562239261ull, -177},
	{9364093773431012140ull, -176},
	{13626570802418828285ull, -176},
	{1764587367668734102ull, -176},
	{1345017509941044177ull, -176},
	{12988513869969843ull, -176},
	{10055151503005786ull, -176},
	{10720073008501803279ull, -175},
	{10901256641935062628ull, -175},
	{1104237320434177184ull, -175},
	{1453248896958512503ull, -175},
	{10343535777110703ull, -175},
	{10808190144273955ull, -175},
	{9230184144483664857ull, -174},
	{9256190074117004629ull, -174},
	{1053888937506854393ull, -174},
	{1100810216467252966ull, -174},
	{14899139018401911ull, -174},
	{13185587034939802ull, -174},
	{12290801465624068961ull, -173},
	{13529916016219389066ull, -173},
	{1381460864378593607ull, -173},
	{1041762998541235304ull, -173},
	{13290152801491216ull, -173},
	{11576600818029107ull, -173},
	{10711989049191390553ull, -172},
	{11703280689667646637ull, -172},
	{1376926984172761528ull, -172},
	{1037229118335403225ull, -172},
	{10773212451398370ull, -172},
	{10174536650572019ull, -172},
	{9483995281410397978ull, -171},
	{9525826714464218375ull, -171},
	{1002412423290583614ull, -171},
	{1066485421973059071ull, -171},
	{13131095116910648ull, -171},
	{12617839516244805ull, -171},
	{9233948214728468451ull, -170},
	{9543619966967142423ull, -170},
	{1827747404833175182ull, -170},
	{1327653271469316128ull, -170},
	{11206349894428597ull, -170},
	{10094271612995844ull, -170},
	{9757892222315025283ull, -169},
	{9359065901233532500ull, -169},
	{1000188266727718108ull, -169},
	{1524132274314274940ull, -169},
	{10966820822121833ull, -169},
	{10658896837710439ull, -169},
	{9530483705511838788ull, -168},
	{9243638809480106419ull, -168},
	{1163315106926539745ull, -168},
	{1219305819451419952ull, -168},
	{15767588065102528ull, -168},
	{16373250237079901ull, -168},
	{13001219845841427994ull, -167},
	{12490412099710174797ull, -167},
	{1350496424951210395ull, -167},
	{1497450544197365200ull, -167},
	{14756793005560851ull, -167},
	{11924937111348889ull, -167},
	{12372848804313250953ull, -166},
	{9583683482863137280ull, -166},
	{1080397139960968316ull, -166},
	{1197960435357892160ull, -166},
	{10754533488024390ull, -166},
	{10590850605503402ull, -166},
	{9262617168660462081ull, -165},
	{9457189194910751948ull, -165},
	{1084862636238699060ull, -165},
	{1107555215671333905ull, -165},
	{15532692476689995ull, -165},
	{14974505441973652ull, -165},
	{9280771232206569957ull, -164},
	{14298662532658932347ull, -164},
	{1000540644364549518ull, -164},
	{1000091226570611149ull, -164},
	{12426153981351996ull, -164},
	{10193405842486624ull, -164},
	{11161316633061055621ull, -163},
	{10786138622342278674ull, -163},
	{1442061830472479071ull, -163},
	{1066883819753702124ull, -163},
	{11702433909119812ull, -163},
	{10026286687404863ull, -163},
	{9529338123598887612ull, -162},
	{9506809108089956311ull, -162},
	{1202431773204326602ull, -162},
	{1003578260090472478ull, -162},
	{10005458200695543ull, -162},
	{10001531613223730ull, -162},
	{12881848153972337800ull, -161},
	{13455098152511663354ull, -161},
	{1016015055784896404ull, -161},
	{1012888954611674336ull, -161},
	{11748735500377577ull, -161},
	{14467171777330800ull, -161},
	{10305478523177870240ull, -160},
	{12215226730764789609ull, -160},
	{1288184815397233780ull, -160},
	{1574809814666896557ull, -160},
	{10955278087066661ull, -160},
	{11573737421864640ull, -160},
	{9542230312669601979ull, -159},
	{9925482099239984826ull, -159},
	{1030547852317787024ull, -159},
	{1107849282158363080ull, -159},
	{10040515230797229ull, -159},
	{10066367522652302ull, -159},
	{12046465730168521259ull, -158},
	{12978474941273057870ull, -158},
	{1034371560142847710ull, -158},
	{1012566003577610100ull, -158},
	{16095847119501654ull, -158},
	{10308580798200479ull, -158},
	{10408915679192155011ull, -157},
	{10382779953018446296ull, -157},
	{1071379122894598813ull, -157},
	{1297847494127305787ull, -157},
	{11843234386595768ull, -157},
	{12111936130589186ull, -157},
	{9461225032383393171ull, -156},
	{9440316451444426199ull, -156},
	{1001786992113296963ull, -156},
	{1280403048875115699ull, -156},
	{10365374794631969ull, -156},
	{10125660035776101ull, -156},
	{15495082300551018489ull, -155},
	{16242780527528544475ull, -155},
	{1003828343479871393ull, -155},
	{1032685871475679348ull, -155},
	{13763784394667376ull, -155},
	{15155627010293413ull, -155},
	{10003431514112731636ull, -154},
	{10119517430005889678ull, -154},
	{1595256573779564937ull, -154},
	{1279450418237380965ull, -154},
	{13101885609630598ull, -154},
	{13169930655183079ull, -154},
	{9727569406500352850ull, -153},
	{10395379537618268464ull, -153},
	{1241379484255704537ull, -153},
	{1299422442202283558ull, -153},
	{10318200378378524ull, -153},
	{10590380560588448ull, -153},
	{16406176501251119986ull, -152},
	{9538708512861391221ull, -152},
	{1059884600516355191ull, -152},
	{1045279026610033374ull, -152},
	{14074072472838253ull, -152},
	{13137515498773874ull, -152},
	{9704301644964560142ull, -151},
	{12761926144343616747ull, -151},
	{1556411105040056456ull, -151},
	{1080180668913722436ull, -151},
	{10535301577599649ull, -151},
	{11957925200361006ull, -151},
	{9313567587892974049ull, -150},
	{11157891995690926889ull, -150},
	{1183001423227412145ull, -150},
	{1032557625301089034ull, -150},
	{10755017415658990ull, -150},
	{10084811252232248ull, -150},
	{10085285993865627358ull, -149},
	{13938867833900290568ull, -149},
	{1096844936508252827ull, -149},
	{1014378424288874062ull, -149},
	{12663227612000641ull, -149},
	{11148294194316060ull, -149},
	{10470644177869093679ull, -148},
	{9549484011935837926ull, -148},
	{1423975542975293679ull, -148},
	{1273531745048970568ull, -148},
	{11948502190822010ull, -148},
	{13292470457851953ull, -148},
	{9850371607788484148ull, -147},
	{10658575686730808247ull, -147},
	{1015125920364113037ull, -147},
	{1203057429225827605ull, -147},
	{10433568773137429ull, -147},
	{10560839718378275ull, -147},
	{9228070967682218372ull, -146},
	{9229460516557073944ull, -146},
	{1018923986876127911ull, -146},
	{1101495541770940573ull, -146},
	{11095201105949032ull, -146},
	{16194304013780163ull, -146},
	{12706861065042802803ull, -145},
	{10591660238675603686ull, -145},
	{1322652854264483119ull, -145},
	{1327871556544352486ull, -145},
	{11155000791968150ull, -145},
	{12575636559822643ull, -145},
	{11430434386030666219ull, -144},
	{9336108368782944570ull, -144},
	{1054991062043664875ull, -144},
	{1060209764323534242ull, -144},
	{11486967694354343ull, -144},
	{10037218533291172ull, -144},
	{9452719915911237280ull, -143},
	{9288239999778536949ull, -143},
	{1181589989488904660ull, -143},
	{1023228824121657014ull, -143},
	{17483836908288629ull, -143},
	{15470570522988659ull, -143},
	{13702772627612022445ull, -142},
	{10979896949507672360ull, -142},
	{1350388559415891040ull, -142},
	{1372487118688459045ull, -142},
	{10855848158709283ull, -142},
	{14463937330338674ull, -142},
	{9328492695227007905ull, -141},
	{10559073745813183171ull, -141},
	{1080310847532712832ull, -141},
	{1097989694950767236ull, -141},
	{11261659500151388ull, -141},
	{10037909347060851ull, -141},
	{9641094698665086392ull, -140},
	{9560465827409799435ull, -140},
	{1205136837333135799ull, -140},
	{1124507966077848842ull, -140},
	{11736000852353470ull, -140},
	{16155712706867071ull, -140},
	{15377374195110966053ull, -139},
	{11924344875639512727ull, -139},
	{1089150271241740034ull, -139},
	{1912093165481959887ull, -139},
	{14907266482107525ull, -139},
	{13808512536396377ull, -139},
	{9636230546017954530ull, -138},
	{9474972803507380616ull, -138},
	{1545800306636625301ull, -138},
	{1184371600438422577ull, -138},
	{11925813185686020ull, -138},
	{11271500032593133ull, -138},
	{9555601674762667573ull, -137},
	{9635109574457483664ull, -137},
	{1044251925857082410ull, -137},
	{1204388696807185458ull, -137},
	{19081301097097632ull, -137},
	{11224586346164406ull, -137},
	{10920687628300191512ull, -136},
	{13843472049139551394ull, -136},
	{1365085953537523939ull, -136},
	{1557698467301835943ull, -136},
	{15152943721631019ull, -136},
	{12983088350684101ull, -136},
	{12520268269792357838ull, -135},
	{11967514545502412298ull, -135},
	{1076167182891055933ull, -135},
	{1017486651513385639ull, -135},
	{10610664992641454ull, -135},
	{11898160665210642ull, -135},
	{9348744673022522463ull, -134},
	{10032876510487602908ull, -134},
	{1022594389936399249ull, -134},
	{1043421758253545046ull, -134},
	{17379965101206915ull, -134},
	{10257721113290362ull, -134},
	{11885963550438390763ull, -133},
	{14202080938138280847ull, -133},
	{1005853212357664340ull, -133},
	{1004887563403285401ull, -133},
	{13903972080965532ull, -133},
	{13733714133531745ull, -133},
	{10727904856588445721ull, -132},
	{10142530734272891567ull, -132},
	{1164403469240526675ull, -132},
	{1444400979617140486ull, -132},
	{11668003096560544ull, -132},
	{10986971306825396ull, -132},
	{9821761182758350913ull, -131},
	{9849843673115114490ull, -131},
	{1224209836550198417ull, -131},
	{1038445959230601558ull, -131},
	{10004514651705804ull, -131},
	{10071501144264373ull, -131},
	{11020591917746222798ull, -130},
	{13390170897365202991ull, -130},
	{1036823925953939331ull, -130},
	{1013066857668275026ull, -130},
	{14681252947974231ull, -130},
	{11779204132127119ull, -130},
	{11622382992068725171ull, -129},
	{11659968309739754470ull, -129},
	{1448099709299711984ull, -129},
	{1485685026970741283ull, -129},
	{11636866806601903ull, -129},
	{12177544565489312ull, -129},
	{10132982032489484317ull, -128},
	{9327974647791803576ull, -128},
	{1128411513302946148ull, -128},
	{1165996830973975447ull, -128},
	{10043505073153131ull, -128},
	{10089379542294659ull, -128},
	{9252804012449744978ull, -127},
	{15266170438227362505ull, -127},
	{1048696560513481347ull, -127},
	{1012342020934231723ull, -127},
	{13011663713038635ull, -127},
	{12597471293585319ull, -127},
	{12849179039187472802ull, -126},
	{10676615282818451510ull, -126},
	{1142536776881876627ull, -126},
	{1255046574276608589ull, -126},
	{10409330970430908ull, -126},
	{10655486588786843ull, -126},
	{9982936148547394243ull, -125},
	{10152094693628861682ull, -125},
	{1348542172779305560ull, -125},
	{1067661528281845151ull, -125},
	{10039080314221958ull, -125},
	{10008972174907960ull, -125},
	{9893558469014599867ull, -124},
	{14954709535906898312ull, -124},
	{1078833738223444448ull, -124},
	{1049041178379179656ull, -124},
	{11073747694256923ull, -124},
	{14994742169474770ull, -124},
	{10492130723010240652ull, -123},
	{12331676855154338149ull, -123},
	{1403973487682691022ull, -123},
	{1219059193069869141ull, -123},
	{10348626147618778ull, -123},
	{11995793735579816ull, -123},
	{9719329411230037277ull, -122},
	{10307216428397418771ull, -122},
	{1197144507991281570ull, -122},
	{1012230213378459689ull, -122},
	{10198263714919285ull, -122},
	{10742475136988274ull, -122},
	{10661868001494671930ull, -121},
	{10925457477821581471ull, -121},
	{1018423670906587668ull, -121},
	{1008826856922466355ull, -121},
	{16861433365939845ull, -121},
	{10667975837811866ull, -121},
	{14201018999340789923ull, -120},
	{13057831078120515857ull, -120},
	{1066186800149467193ull, -120},
	{1483778518617990480ull, -120},
	{13489146692751876ull, -120},
	{10113407821474422ull, -120},
	{10464030865678939866ull, -119},
	{9540597527111457023ull, -119},
	{1319107610198946971ull, -119},
	{1187022814894392384ull, -119},
	{10679713311316115ull, -119},
	{10099599029116482ull, -119},
	{15634329378805324374ull, -118},
	{10903540030984522312ull, -118},
	{1064169089750421167ull, -118},
	{1019754081794103216ull, -118},
	{10454295818768073ull, -118},
	{11463151018291086ull, -118},
	{13268934704894923343ull, -117},
	{11007245630339609381ull, -117},
	{1748119605594029006ull, -117},
	{1032097465736720301ull, -117},
	{10325673543571059ull, -117},
	{13437987325604774ull, -117},
	{10306014376976337623ull, -116},
	{9733196665090490659ull, -116},
	{1066637766538944584ull, -116},
	{1338255735987831119ull, -116},
	{10475995673396856ull, -116},
	{10497169910500411ull, -116},
	{9288656979564605737ull, -115},
	{9343116088571845796ull, -115},
	{1002430995800232187ull, -115},
	{1150610890975527161ull, -115},
	{14812060731140502ull, -115},
	{14820530425981924ull, -115},
	{14794835285895058420ull, -114},
	{12978572578212425825ull, -114},
	{1278002235988692758ull, -114},
	{1680964821190318926ull, -114},
	{10854555144145755ull, -114},
	{10888433923511443ull, -114},
	{11109363145642993698ull, -113},
	{10746110604106467179ull, -113},
	{1479483528589505842ull, -113},
	{1116230987052979323ull, -113},
	{10060513118294379ull, -113},
	{11260045851912865ull, -113},
	{9444566079949689494ull, -112},
	{9504887337507559231ull, -112},
	{1141229442962165048ull, -112},
	{1038285806256994066ull, -112},
	{14338176424082103ull, -112},
	{18016073363060584ull, -112},
	{13517714246068271438ull, -111},
	{11306725943223875413ull, -111},
	{1484483219771342987ull, -111},
	{1547429327021816809ull, -111},
	{14117877383605659ull, -111},
	{12355485059794107ull, -111},
	{9540035180702441861ull, -110},
	{9916661884328243159ull, -110},
	{1137229690016695332ull, -110},
	{1515956273396579898ull, -110},
	{10999320600041719ull, -110},
	{10474350661520902ull, -110},
	{9374590404060239146ull, -109},
	{9485898511344712921ull, -109},
	{1011337475515747688ull, -109},
	{1022771763101096655ull, -109},
	{17493918972362587ull, -109},
	{10989320271906878ull, -109},
	{14194848381117924070ull, -108},
	{11364783353477097158ull, -108},
	{1238153449592861774ull, -108},
	{1260415071049756529ull, -108},
	{11393295697707786ull, -108},
	{10868325759186969ull, -108},
	{11355878704894339256ull, -107},
	{12076751934678682837ull, -107},
	{1419484838111792407ull, -107},
	{1428389486694550309ull, -107},
	{10738736638898097ull, -107},
	{11522884817996658ull, -107},
	{9287567629434732978ull, -106},
	{9819823631432227629ull, -106},
	{1128464151623227604ull, -106},
	{1164082745954259212ull, -106},
	{11839189472582214ull, -106},
	{12851045073618640ull, -106},
	{10523939989664224495ull, -105},
	{13038617858133253671ull, -105},
	{1001694220238278798ull, -105},
	{1001530343721561380ull, -105},
	{13033211011168932ull, -105},
	{10280836058894912ull, -105},
	{11508019010207949565ull, -104},
	{9813120882811288943ull, -104},
	{1476118530815587605ull, -104},
	{1038559337653441571ull, -104},
	{12207498525486726ull, -104},
	{10005598563667510ull, -104},
	{9266601055429709907ull, -103},
	{10087794685944677150ull, -103},
	{1180894824652470084ull, -103},
	{1120708977389119829ull, -103},
	{10023901977163371ull, -103},
	{10027391818913477ull, -103},
	{12138799023758218958ull, -102},
	{12042501668136858550ull, -102},
	{1001427830001430802ull, -102},
	{1008779468594467715ull, -102},
	{14518825207584539ull, -102},
	{11666060130767662ull, -102},
	{10958623195849873205ull, -101},
	{9634001334509486840ull, -101},
	{1252398844624366059ull, -101},
	{1204250166813685855ull, -101},
	{10645619763782283ull, -101},
	{11271728909184826ull, -101},
	{9826596045752207656ull, -100},
	{9706330995534843297ull, -100},
	{1228324505719025957ull, -100},
	{1300654166744382414ull, -100},
	{10251729615184210ull, -100},
	{10093467838969360ull, -100},
	{16474099624287488036ull, -99},
	{15014576149629728179ull, -99},
	{1045060925972299959ull, -99},
	{1002857545621650976ull, -99},
	{13230221967003441ull, -99},
	{10844116938336661ull, -99},
	{10036584001820001590ull, -98},
	{12595470309566886486ull, -98},
	{1619453868891940163ull, -98},
	{1119512759639262142ull, -98},
	{11559948446936695ull, -98},
	{10712150744806134ull, -98},
	{9485014494437117012ull, -97},
	{10591929690879530285ull, -97},
	{1003658400182000159ull, -97},
	{1187514902642961685ull, -97},
	{10350631447574950ull, -97},
	{10267458709129488ull, -97},
	{14675574474579942591ull, -96},
	{9492566857790405246ull, -96},
	{1015246923410136901ull, -96},
	{1022799286763425135ull, -96},
	{11775788670763676ull, -96},
	{10766748702051549ull, -96},
	{9457410021248152344ull, -95},
	{12311221969267904505ull, -95},
	{1182176252656019043ull, -95},
	{1636478858821480216ull, -95},
	{11686339942597411ull, -95},
	{10123871632298886ull, -95},
	{10107496404496699147ull, -94},
	{9848977575414323604ull, -94},
	{1360381611467978222ull, -94},
	{1101862782385602679ull, -94},
	{10338548579897922ull, -94},
	{10364806311825579ull, -94},
	{14358320512372641359ull, -93},
	{10937788105994387241ull, -93},
	{1036601523357907469ull, -93},
	{1091336737608468934ull, -93},
	{13552241664834570ull, -93},
	{12552261946243514ull, -93},
	{10563904219617587069ull, -92},
	{9672982675076035811ull, -92},
	{1077863487729951344ull, -92},
	{1451747374106751516ull, -92},
	{10841793331867656ull, -92},
	{11052292368356930ull, -92},
	{9552059874882905925ull, -91},
	{9227521902805260182ull, -91},
	{1396843716908891830ull, -91},
	{1072305744831246087ull, -91},
	{10357601829835524ull, -91},
	{10189158882537303ull, -91},
	{15283295799812649480ull, -90},
	{14052544111792754913ull, -90},
	{1117474973527113464ull, -90},
	{1019490430435029927ull, -90},
	{16504785748817550ull, -90},
	{10947042850112293ull, -90},
	{12226636639850119584ull, -89},
	{9765133263810330450ull, -89},
	{1528329579981264948ull, -89},
	{1514849539923127267ull, -89},
	{13203828599054040ull, -89},
	{10286851420159591ull, -89},
	{10514368308668777335ull, -88},
	{11477401594991672699ull, -88},
	{1244231728078032248ull, -88},
	{1217271647961756886ull, -88},
	{10563062879243232ull, -88},
	{10925489147755209ull, -88},
	{9251653591738225986ull, -87},
	{9227814060950577627ull, -87},
	{1016953446555446088ull, -87},
	{1144855911540964292ull, -87},
	{10639061539105354ull, -87},
	{14204892595161635ull, -87},
	{9295780239814564634ull, -86},
	{9325623309155470697ull, -86},
	{1100466528689183804ull, -86},
	{1061342829407226576ull, -86},
	{10047493183673493ull, -86},
	{11363914076129308ull, -86},
	{10555598281378663867ull, -85},
	{11599235387133122062ull, -85},
	{1188995146953025709ull, -85},
	{1151727573659278714ull, -85},
	{10044208998980470ull, -85},
	{10570777355962796ull, -85},
	{9392675930378306821ull, -84},
	{9303262765179222500ull, -84},
	{1088358193706954589ull, -84},
	{1058544135071956993ull, -84},
	{13743324236628844ull, -84},
	{11415914074888936ull, -84},
	{13072247156502180880ull, -83},
	{12463959130371686214ull, -83},
	{1634030894562772610ull, -83},
	{1329886881497525277ull, -83},
	{12485362321052955ull, -83},
	{10252208994018982ull, -83},
	{10457797725201744704ull, -82},
	{9726663012784460217ull, -82},
	{1307224715650218088ull, -82},
	{1003080702584970755ull, -82},
	{11467388506228857ull, -82},
	{10289911727901356ull, -82},
	{9584003313483075983ull, -81},
	{9286793104273398637ull, -81},
	{1048157934641556246ull, -81},
	{1093729365974199511ull, -81},
	{10495244896460957ull, -81},
	{18606525530358445ull, -81},
	{10175647207562050450ull, -80},
	{10749062529107967611ull, -80},
	{1128602070558777016ull, -80},
	{1702017392104694177ull, -80},
	{13547879580778536ull, -80},
	{14885220424286756ull, -80},
	{9898331485489658545ull, -79},
	{11045162128581492867ull, -79},
	{1017564720756205045ull, -79},
	{1294880442828596950ull, -79},
	{10204527472007986ull, -79},
	{10719095278738517ull, -79},
	{9324916163943741384ull, -78},
	{9860763730687391843ull, -78},
	{1165614520492967673ull, -78},
	{1035904354262877560ull, -78},
	{13949081833831002ull, -78},
	{13838020860215793ull, -78},
	{13727953913455431850ull, -77},
	{13694498329248960487ull, -77},
	{1724358135233546822ull, -77},
	{1021232647457539548ull, -77},
	{11114841077618718ull, -77},
	{14782767778953221ull, -77},
	{10982363130764345480ull, -76},
	{10948907546557874117ull, -76},
	{1372795391345543185ull, -76},
	{1339339807139071822ull, -76},
	{10536741100413110ull, -76},
	{11003780104003509ull, -76},
	{9254268683502075466ull, -75},
	{9249097426825878632ull, -75},
	{1098236313076434548ull, -75},
	{1064780728869963185ull, -75},
	{11550549842834250ull, -75},
	{16596798445810387ull, -75},
	{12654358773377043702ull, -74},
	{11899296821646030265ull, -74},
	{1019102504128327363ull, -74},
	{1011894261619413407ull, -74},
	{15400733123779000ull, -74},
	{12746615164865637ull, -74},
	{9777507717123735261ull, -73},
	{9519437457316824212ull, -73},
	{1567460658030109745ull, -73},
	{1060894552261147502ull, -73},
	{12320586499023200ull, -73},
	{10518525871794711ull, -73},
	{9773677951585791319ull, -72},
	{9515607691778880270ull, -72},
	{1003557797693064631ull, -72},
	{1250138760886143854ull, -72},
	{10079019842038301ull, -72},
	{10082113482705524ull, -72},
	{12478113821880841501ull, -71},
	{14080742485759389757ull, -71},
	{1009302445999980544ull, -71},
	{1036405998518521525ull, -71},
	{15770350718749696ull, -71},
	{13855467949777725ull, -71},
	{10074170826063019117ull, -70},
	{12363337382593658578ull, -70},
	{1316747937196094115ull, -70},
	{1201971497908911192ull, -70},
	{12999257128794151ull, -70},
	{11084374359822180ull, -70},
	{10348785983123855599ull, -69},
	{9341156826210453054ull, -69},
	{1328013506817711774ull, -69},
	{1052691435399873181ull, -69},
	{10057601209647799ull, -69},
	{10317061582221576ull, -69},
	{9378054946228032096ull, -68},
	{15403966998985653623ull, -68},
	{1026078216922192066ull, -68},
	{1006215328199398323ull, -68},
	{11020402601187726ull, -68},
	{15102481835633523ull, -68},
	{11949640432437225114ull, -67},
	{11117991188636998593ull, -67},
	{1260246824835092024ull, -67},
	{1285792743104596509ull, -67},
	{12506134082708085ull, -67},
	{11265569621617659ull, -67},
	{10225031740989961308ull, -66},
	{9434255966420941963ull, -66},
	{1223908693364975900ull, -66},
	{1005361488032857019ull, -66},
	{10004907266166468ull, -66},
	{10431827349437120ull, -66},
	{9352509027958527611ull, -65},
	{16986666239909312003ull, -65},
	{1066212615165419907ull, -65},
	{1071551337176444742ull, -65},
	{16576154580537423ull, -65},
	{14078947342867959ull, -65},
	{10938331554705386169ull, -64},
	{10305710935050170693ull, -64},
	{1109221573201037017ull, -64},
	{1746113170465072361ull, -64},
	{12239086933649759ull, -64},
	{13306831335854726ull, -64},
	{9256761739488481316ull, -63},
	{9390119427593636200ull, -63},
	{1140425506422915804ull, -63},
	{1173764928449204525ull, -63},
	{10248285502543637ull, -63},
	{10218367307801794ull, -63},
	{14278050749836366748ull, -62},
	{9989400625222562955ull, -62},
	{1058868182285148971ull, -62},
	{1005690786811941062ull, -62},
	{15068094409836910ull, -62},
	{16135838812041877ull, -62},
	{11305284650059181954ull, -61},
	{9648402575118616159ull, -61},
	{1161421058311034996ull, -61},
	{1502419108414981792ull, -61},
	{13900569721979461ull, -61},
	{10787170554359597ull, -61},
	{10298326558273730961ull, -60},
	{10655360666904067152ull, -60},
	{1319091236541896878ull, -60},
	{1331920083363008394ull, -60},
	{10403963406401581ull, -60},
	{10106611798775624ull, -60},
	{16426441826425680725ull, -59},
	{11511807807144716759ull, -59},
	{1024483756862849864ull, -59},
	{1075799144147295928ull, -59},
	{14991055130379009ull, -59},
	{11411441787348761ull, -59},
	{13141153461140544580ull, -58},
	{13969124816785198742ull, -58},
	{1435651343731404532ull, -58},
	{1048262723202557954ull, -58},
	{12634286445358783ull, -58},
	{11694922794101312ull, -58},
	{10512922768912435664ull, -57},
	{10782591821440616315ull, -57},
	{1314115346114054458ull, -57},
	{1169798720819908028ull, -57},
	{10671047347041509ull, -57},
	{10230853027239905ull, -57},
	{9394650050804844752ull, -56},
	{9246272690073234860ull, -56},
	{1058877956115288450ull, -56},
	{1097640408172834813ull, -56},
	{14044122066580802ull, -56},
	{11777854301232019ull, -56},
	{13978690321408987041ull, -55},
	{10359040638994500935ull, -55},
	{1309249188208428114ull, -55},
	{1116771417420411411ull, -55},
	{13215123053008057ull, -55},
	{10948855287659274ull, -55},
	{10613004537274705774ull, -54},
	{9450118524235153261ull, -54},
	{1486355427123397783ull, -54},
	{1101399885547364377ull, -54},
	{10505373967420690ull, -54},
	{10672185154885079ull, -54},
	{9443703013585991425ull, -53},
	{9328750146913067448ull, -53},
	{1031894369743723946ull, -53},
	{1166093768364133431ull, -53},
	{10726710073640046ull, -53},
	{12330587735930505ull, -53},
	{15291388469156997723ull, -52},
	{9387667579882958525ull, -52},
	{1162886013039552513ull, -52},
	{1014677755993384803ull, -52},
	{12163776548466116ull, -52},
	{11468347851034863ull, -52},
	{9910376088357131708ull, -51},
	{9854706524502674815ull, -51},
	{1148065187334935742ull, -51},
	{1029498581698001574ull, -51},
	{11014123368605260ull, -51},
	{11420107008034533ull, -51},
	{9290508695959924649ull, -50},
	{9536744932661358676ull, -50},
	{1063623067803477748ull, -50},
	{1113940701229459568ull, -50},
	{14260471367586442ull, -50},
	{13139762693525784ull, -50},
	{15374412564309867726ull, -49},
	{9728592273851843374ull, -49},
	{1608014010061712077ull, -49},
	{1451709179355291544ull, -49},
	{12304944033317680ull, -49},
	{10337991008374139ull, -49},
	{9411271016182281017ull, -48},
	{9539141838501450218ull, -48},
	{1411455072614506088ull, -48},
	{1098845411201665022ull, -48},
	{11481551063784355ull, -48},
	{10283098143738584ull, -48},
	{9913331112945515239ull, -47},
	{10041201935264684440ull, -47},
	{1028752038738958026ull, -47},
	{1255150241908085555ull, -47},
	{14568318527293218ull, -47},
	{10063526685196364ull, -47},
	{9743949926997897565ull, -46},
	{15443745504137622372ull, -46},
	{1000780462092644662ull, -46},
	{1004120193526468444ull, -46},
	{10150232636622233ull, -46},
	{14101396258391174ull, -46},
	{11070562320111604346ull, -45},
	{10219553140224756565ull, -45},
	{1088810786500277281ull, -45},
	{1482156791185174964ull, -45},
	{12163836079254321ull, -45},
	{11859663025273381ull, -45},
	{9839070569643269365ull, -44},
	{9813343701436448399ull, -44},
	{1028387031074180898ull, -44},
	{1015523596970770415ull, -44},
	{10022723875889321ull, -44},
	{10065042006785835ull, -44},
	{13444585872828566385ull, -43},
	{11146658834227901786ull, -43},
	{1005370389127773577ull, -43},
	{1001034027111111745ull, -43},
	{10485418037276188ull, -43},
	{11890080330671475ull, -43},
	{10755668698262853108ull, -42},
	{10803682475452480577ull, -42},
	{1320451698688042904ull, -42},
	{1368465475877670373ull, -42},
	{10961021250503047ull, -42},
	{11867932984386185ull, -42},
	{9807689616508810787ull, -41},
	{9903717170888065725ull, -41},
	{1065964114388359817ull, -41},
	{1113977891577987286ull, -41},
	{10107263147704605ull, -41},
	{10294950859222694ull, -41},
	{16716284747535643060ull, -40},
	{9855703393698438256ull, -40},
	{1051150099163521341ull, -40},
	{1025620889393346742ull, -40},
	{12863434103410483ull, -40},
	{12929320248959272ull, -40},
	{13329510934322777553ull, -39},
	{13285994070617040658ull, -39},
	{1671628474753564306ull, -39},
	{1628111611047827411ull, -39},
	{11772148805212234ull, -39},
	{11110511418628857ull, -39},
	{9242981851098516498ull, -38},
	{9226166268127354969ull, -38},
	{1007267604160025812ull, -38},
	{1003211499045018737ull, -38},
	{10317101740947902ull, -38},
	{10209463163193450ull, -38},
	{16052855381278905765ull, -37},
	{10562649623660912446ull, -37},
	{1000887865231948585ull, -37},
	{1007968795927093134ull, -37},
	{11227248295501462ull, -37},
	{16565453630843397ull, -37},
	{12842284305023124612ull, -36},
	{13773220699916693599ull, -36},
	{1139817340681106083ull, -36},
	{1000563376822748019ull, -36},
	{12068540146952823ull, -36},
	{11906295942352540ull, -36},
	{9529078328103644500ull, -35},
	{10386776596607895277ull, -35},
	{1209444322610285115ull, -35},
	{1172825259415626010ull, -35},
	{10011769367682881ull, -35},
	{10357143756349923ull, -35},
	{13355357284622965942ull, -34},
	{10401424221885758919ull, -34},
	{1011498333921819018ull, -34},
	{1004986711032114917ull, -34},
	{11888505073432526ull, -34},
	{10082932843362937ull, -34},
	{12197220259972664960ull, -33},
	{11772114251014928254ull, -33},
	{1524652532496583120ull, -33},
	{1312099528017714767ull, -33},
	{10975566586532385ull, -33},
	{10995871330263078ull, -33},
	{9757776207978131968ull, -32},
	{9825350209796119374ull, -32},
	{1219722025997266496ull, -32},
	{1007169021518398143ull, -32},
	{10196484412058609ull, -32},
	{10277703386981381ull, -32},
	{16156356144423288899ull, -31},
	{14741957714304141515ull, -31},
	{1132305224017310398ull, -31},
	{1023079422070404381ull, -31},
	{14647625277863642ull, -31},
	{16144875395619115ull, -31},
	{9552373843642058601ull, -30},
	{11793566171443313212ull, -30},
	{1060798822589360538ull, -30},
	{1180393505211894073ull, -30},
	{12111340183287159ull, -30},
	{12915900316495292ull, -30},
	{11014610146810219399ull, -29},
	{9648049589740085429ull, -29},
	{1414398430119147384ull, -29},
	{1018145389878160883ull, -29},
	{10725960214192479ull, -29},
	{10976368359762740ull, -29},
	{9292611788076910996ull, -28},
	{9266006889472676121ull, -28},
	{1038553009167066917ull, -28},
	{1011287826438134038ull, -28},
	{12377749037806625ull, -28},
	{11541187486700082ull, -28},
	{12517826759587366766ull, -27},
	{9833915031184117609ull, -27},
	{1142457831393125959ull, -27},
	{1738291439958198330ull, -27},
	{11273711918250669ull, -27},
	{12645224606256038ull, -27},
	{9736560455654249438ull, -26},
	{9634949096347703687ull, -26},
	{1094312641600276571ull, -26},
	{1390633151966558664ull, -26},
	{10050151272535030ull, -26},
	{10664784760206978ull, -26},
	{9252341648270915131ull, -25},
	{9333520445449408498ull, -25},
	{1095589676733279845ull, -25},
	{1092184249711937781ull, -25},
	{12461975825880105ull, -25},
	{12249136637046226ull, -25},
	{9228484315317711673ull, -24},
	{9248955565053382077ull, -24},
	{1026900669267008881ull, -24},
	{1048474821670111623ull, -24},
	{10182419849537963ull, -24},
	{10114697420561505ull, -24},
	{9233019726331818689ull, -23},
	{9232499225084196936ull, -23},
	{1003625737733616008ull, -23},
	{1011011255674587117ull, -23},
	{10359463443502712ull, -23},
	{11495250577410367ull, -23},
	{9225153647134168018ull, -22},
	{9223373822944209619ull, -22},
	{1000892111090714032ull, -22},
	{1001823953362410968ull, -22},
	{10557984394388939ull, -22},
	{12375243808641187ull, -22},
	{9223649678782328519ull, -21},
	{9223716200008755077ull, -21},
	{1000014848930790381ull, -21},
	{1000142373373644482ull, -21},
	{10103669540825877ull, -21},
	{10400328261908498ull, -21},
	{9223394629896620317ull, -20},
	{9223432304917832808ull, -20},
	{1000021784581593947ull, -20},
	{1000055045194807226ull, -20},
	{10045609196941774ull, -20},
	{10034693174587117ull, -20},
	{9223385801080621893ull, -19},
	{9223383913274846857ull, -19},
	{1000008701056708596ull, -19},
	{1000018001824150779ull, -19},
	{10002782511081067ull, -19},
	{10010821763884436ull, -19},
	{9223373178571644182ull, -18},
	{9223373491257368606ull, -18},
	{1000000943902887518ull, -18},
	{1000000982988603071ull, -18},
	{10000906655652393ull, -18},
	{10002546088740869ull, -18},
	{9223372337460759951ull, -17},
	{9223372199892755674ull, -17},
	{1000000645682306466ull, -17},
	{1000000039085715553ull, -17},
	{10000269689015822ull, -17},
	{10000723905744726ull, -17},
	{9223372102263494412ull, -16},
	{9223372069834694571ull, -16},
	{1000000141322975864ull, -16},
	{1000000003754971587ull, -16},
	{10000007093885942ull, -16},
	{10000145494004683ull, -16},
	{9223372043617365307ull, -15},
	{9223372066490056568ull, -15},
	{1000000015497691777ull, -15},
	{1000000015019886348ull, -15},
	{10000024091475054ull, -15},
	{10000002142034357ull, -15},
	{9223372042877664353ull, -14},
	{9223372042815695022ull, -14},
	{1000000001911221716ull, -14},
	{1000000004192293909ull, -14},
	{10000003638893822ull, -14},
	{10000002464621803ull, -14},
	{9223372037477454287ull, -13},
	{9223372037229576963ull, -13},
	{1000000000320668114ull, -13},
	{1000000000900035011ull, -13},
	{10000000942116489ull, -13},
	{10000000092862212ull, -13},
	{9223372036880181171ull, -12},
	{9223372037094428204ull, -12},
	{1000000000061969331ull, -12},
	{1000000000058232632ull, -12},
	{10000000212713162ull, -12},
	{10000000010475821ull, -12},
	{9223372036876193434ull, -11},
	{9223372036903103441ull, -11},
	{1000000000007473398ull, -11},
	{1000000000041354727ull, -11},
	{10000000006924841ull, -11},
	{10000000041903284ull, -11},
	{9223372036860024333ull, -10},
	{9223372036860460639ull, -10},
	{1000000000000596717ull, -10},
	{1000000000009168908ull, -10},
	{10000000004973092ull, -10},
	{10000000001597511ull, -10},
	{9223372036854804039ull, -9},
	{9223372036856341362ull, -9},
	{1000000000000433743ull, -9},
	{1000000000000651896ull, -9},
	{10000000000722236ull, -9},
	{10000000001061338ull, -9},
	{9223372036855103302ull, -8},
	{9223372036855052948ull, -8},
	{1000000000000253582ull, -8},
	{1000000000000045681ull, -8},
	{10000000000051523ull, -8},
	{10000000000339102ull, -8},
	{9223372036854788208ull, -7},
	{9223372036854821167ull, -7},
	{1000000000000051651ull, -7},
	{1000000000000026474ull, -7},
	{10000000000049842ull, -7},
	{10000000000028283ull, -7},
	{9223372036854776367ull, -6},
	{9223372036854788086ull, -6},
	{1000000000000003479ull, -6},
	{1000000000000005188ull, -6},
	{10000000000008111ull, -6},
	{10000000000007514ull, -6},
	{9223372036854777343ull, -5},
	{9223372036854777344ull, -5},
	{1000000000000002246ull, -5},
	{1000000000000000293ull, -5},
	{10000000000000457ull, -5},
	{10000000000001931ull, -5},
	{9223372036854776874ull, -4},
	{9223372036854776876ull, -4},
	{1000000000000000078ull, -4},
	{1000000000000000547ull, -4},
	{10000000000000401ull, -4},
	{10000000000000224ull, -4},
	{9223372036854776999ull, -3},
	{9223372036854777001ull, -3},
	{1000000000000000061ull, -3},
	{1000000000000000063ull, -3},
	{10000000000000083ull, -3},
	{10000000000000001ull, -3},
	{9223372036854776799ull, -2},
	{9223372036854776801ull, -2},
	{1000000000000000099ull, -2},
	{1000000000000000101ull, -2},
	{10000000000000007ull, -2},
	{10000000000000004ull, -2},
	{9223372036854776959ull, -1},
	{9223372036854776961ull, -1},
	{1000000000000000079ull, -1},
	{1000000000000000081ull, -1},
	{9223372036854776831ull, 0},
	{9223372036854776833ull, 0},
	{1000000000000000063ull, 0},
	{1000000000000000065ull, 0},
	{9223372036854776627ull, 1},
	{9223372036854783181ull, 1},
	{1000000000000000307ull, 1},
	{1000000000000000717ull, 1},
	{10000000000000007ull, 1},
	{10000000000000001ull, 1},
	{9223372036854801367ull, 2},
	{9223372036854783017ull, 2},
	{1000000000000003031ull, 2},
	{1000000000000001065ull, 2},
	{10000000000000007ull, 2},
	{10000000000000025ull, 2},
	{9223372036854875947ull, 3},
	{9223372036854806741ull, 3},
	{1000000000000010027ull, 3},
	{1000000000000006357ull, 3},
	{10000000000000171ull, 3},
	{10000000000000085ull, 3},
	{9223372036855595375ull, 4},
	{9223372036855004817ull, 4},
	{1000000000000098671ull, 4},
	{1000000000000032401ull, 4},
	{10000000000000879ull, 4},
	{10000000000000145ull, 4},
	{9223372036856093155ull, 5},
	{9223372036857652765ull, 5},
	{1000000000000268771ull, 5},
	{1000000000000255517ull, 5},
	{10000000000000483ull, 5},
	{10000000000003613ull, 5},
	{9223372036867202759ull, 6},
	{9223372036859126073ull, 6},
	{1000000000000630471ull, 6},
	{1000000000000942393ull, 6},
	{10000000000024263ull, 6},
	{10000000000008505ull, 6},
	{9223372036946180443ull, 7},
	{9223372036897588901ull, 7},
	{1000000000009353563ull, 7},
	{1000000000011093669ull, 7},
	{10000000000047451ull, 7},
	{10000000000083621ull, 7},
	{9223372037074383327ull, 8},
	{9223372037172039201ull, 8},
	{1000000000062058975ull, 8},
	{1000000000025497121ull, 8},
	{10000000000127455ull, 8},
	{10000000000265761ull, 8},
	{9223372036952384403ull, 9},
	{9223372038904650861ull, 9},
	{1000000000107832211ull, 9},
	{1000000000181050477ull, 9},
	{10000000003171219ull, 9},
	{10000000000892013ull, 9},
	{9223372040095522999ull, 10},
	{9223372050793897801ull, 10},
	{1000000001506140343ull, 10},
	{1000000001467096905ull, 10},
	{10000000015261879ull, 10},
	{10000000009772873ull, 10},
	{9223372101068441227ull, 11},
	{9223372041360587125ull, 11},
	{1000000001275774603ull, 11},
	{1000000001697462645ull, 11},
	{10000000028165771ull, 11},
	{10000000047200629ull, 11},
	{9223372303959572815ull, 12},
	{9223372044627885745ull, 12},
	{1000000028073247055ull, 12},
	{1000000009259728561ull, 12},
	{10000000284082511ull, 12},
	{10000000261045937ull, 12},
	{9223372062787944515ull, 13},
	{9223374209944862653ull, 13},
	{1000000010239918147ull, 13},
	{1000000095812534205ull, 13},
	{10000001509670979ull, 13},
	{10000001182941117ull, 13},
	{9223377099794897319ull, 14},
	{9223375770007676505ull, 14},
	{1000000443041929639ull, 14},
	{1000000212766336601ull, 14},
	{10000005888694695ull, 14},
	{10000007541335641ull, 14},
	{9223400317331168955ull, 15},
	{9223378940750471493ull, 15},
	{1000001120589831867ull, 15},
	{1000001734241689925ull, 15},
	{10000009126731451ull, 15},
	{10000004303298885ull, 15},
	{9223564170122125247ull, 16},
	{9223461378564137025ull, 16},
	{1000000046636621759ull, 16},
	{1000002808194900033ull, 16},
	{10000189303971775ull, 16},
	{10000202083180609ull, 16},
	{9223888970968653811ull, 17},
	{9223981002647740429ull, 17},
	{1000104945157595123ull, 17},
	{1000056239348326413ull, 17},
	{10000771659259891ull, 17},
	{10000444361613325ull, 17},
	{9223588013668235671ull, 18},
	{9227659659668686441ull, 18},
	{1000296569066420631ull, 18},
	{1000427565392922217ull, 18},
	{10003829323921815ull, 18},
	{10002884255090281ull, 18},
	{9227468471882101227ull, 19},
	{9255304398846414357ull, 19},
	{1000517852583047659ull, 19},
	{1001332181783137813ull, 19},
	{10025001724293611ull, 19},
	{10030090366340629ull, 19},
	{9256617241177308463ull, 20},
	{9334242020608099025ull, 20},
	{1015029923089300783ull, 20},
	{1002582709972681425ull, 20},
	{10093887488081199ull, 20},
	{10031573346730705ull, 20},
	{9446193859833066147ull, 21},
	{9577010966179908957ull, 21},
	{1051484154414461603ull, 21},
	{1038186072685448541ull, 21},
	{10308215561745059ull, 21},
	{10520932714843485ull, 21},
	{10363211830826938503ull, 22},
	{12695218261310001017ull, 22},
	{1087729322527754352ull, 22},
	{1021888027165675385ull, 22},
	{11688087315853447ull, 22},
	{10829910820999033ull, 22},
	{11757183004862902299ull, 23},
	{9933439334507441987ull, 23},
	{1380889463401279515ull, 23},
	{1635020843465080616ull, 23},
	{13296620152520920ull, 23},
	{10293733208776542ull, 23},
	{10073952227511998319ull, 24},
	{10196535516553013609ull, 24},
	{1104711570721023612ull, 24},
	{1166003215241531257ull, 24},
	{10637296122016736ull, 24},
	{10163618236880845ull, 24},
	{9988143925183287616ull, 25},
	{10184277187648912080ull, 25},
	{1051468949397063985ull, 25},
	{1004267191351102875ull, 25},
	{11640792606164465ull, 25},
	{12052483471455841ull, 25},
	{13724257545517828250ull, 26},
	{13506425602538910035ull, 26},
	{1769990178934458085ull, 26},
	{1018427718764891208ull, 26},
	{11434947173518777ull, 26},
	{10959397546097076ull, 26},
	{10979406036414262600ull, 27},
	{10805140482031128028ull, 27},
	{1372425754551782825ull, 27},
	{1328859365955999182ull, 27},
	{11036028060653466ull, 27},
	{10084928805810064ull, 27},
	{17567049658262820160ull, 28},
	{10892273259222695314ull, 28},
	{1097940603641426260ull, 28},
	{1010807826449858974ull, 28},
	{10601348040995173ull, 28},
	{16068275061617646ull, 28},
	{14405683190875259346ull, 29},
	{14581704923007760955ull, 29},
	{1756704965826282016ull, 29},
	{1059642748293743728ull, 29},
	{13285213108176069ull, 29},
	{11132247813766308ull, 29},
	{11313320474141205546ull, 30},
	{11665363938406208764ull, 30},
	{1370159626234525291ull, 30},
	{1094144623620497235ull, 30},
	{10594364972701627ull, 30},
	{11330641586287670ull, 30},
	{9229817459147847780ull, 31},
	{9319565879490364763ull, 31},
	{1060923354561119911ull, 31},
	{1051337431028899397ull, 31},
	{16372848788693235ull, 31},
	{18129026538060272ull, 31},
	{14567984964316219134ull, 32},
	{9227708894006123140ull, 32},
	{1845963491829569556ull, 32},
	{1003671384010512407ull, 32},
	{13098279030954588ull, 32},
	{10668851817560012ull, 32},
	{10499786136918809939ull, 33},
	{10632934783799034815ull, 33},
	{1470113361119644401ull, 33},
	{1022632374560780971ull, 33},
	{10020815092701221ull, 33},
	{10728431896719988ull, 33},
	{9227291204909091511ull, 34},
	{9571537002081026860ull, 34},
	{1069571771391535620ull, 34},
	{1057015185368271343ull, 34},
	{10470716105482203ull, 34},
	{17085977146658954ull, 34},
	{11092415856140999749ull, 35},
	{12955975115009768026ull, 35},
	{1153607074659028934ull, 35},
	{1039554205540890467ull, 35},
	{12960947658717812ull, 35},
	{11595724147647969ull, 35},
	{9464705006104218967ull, 36},
	{11799961082636962234ull, 36},
	{1123158189730566677ull, 36},
	{1513657980918642315ull, 36},
	{10041798540033143ull, 36},
	{10257458078941695ull, 36},
	{9619356388460307110ull, 37},
	{9653383733169808963ull, 37},
	{1022247657669323856ull, 37},
	{1210926384734913852ull, 37},
	{17615411783195141ull, 37},
	{11044243254747318ull, 37},
	{11804280815805910302ull, 38},
	{14641838117285367919ull, 38},
	{1923871277692061422ull, 38},
	{1174739173440937965ull, 38},
	{13975179219829839ull, 38},
	{10149628309487419ull, 38},
	{11177753256637410054ull, 39},
	{10010936112940619765ull, 39},
	{1480080923281040413ull, 39},
	{1148633858475583788ull, 39},
	{11612116692758678ull, 39},
	{10532183400521661ull, 39},
	{9308144859971468751ull, 40},
	{9546910222212980490ull, 40},
	{1014289756095488757ull, 40},
	{1054186879453726521ull, 40},
	{10046024498934287ull, 40},
	{16059290466419890ull, 40},
	{12198733691819799428ull, 41},
	{11005400782938572609ull, 41},
	{1002042675837354535ull, 41},
	{1000098551387928836ull, 41},
	{13668332811300618ull, 41},
	{12847432373135912ull, 41},
	{10236320117008330270ull, 42},
	{11944182346049208740ull, 42},
	{1066057235995931475ull, 42},
	{1495736107565386230ull, 42},
	{12248106950104024ull, 42},
	{11616081715888853ull, 42},
	{9723961448296066729ull, 43},
	{9555345876839366992ull, 43},
	{1023632011700833027ull, 43},
	{1194418234604920874ull, 43},
	{10031200073736752ull, 43},
	{10011542534364447ull, 43},
	{12114100308374341343ull, 44},
	{13821094276836264569ull, 44},
	{1022980816266616594ull, 44},
	{1024717337424527082ull, 44},
	{10606306073774612ull, 44},
	{10823371218513423ull, 44},
	{11260603324143379730ull, 45},
	{9589416295362289037ull, 45},
	{1262342006506026153ull, 45},
	{1298148946186858686ull, 45},
	{12474638921678171ull, 45},
	{10091326930086891ull, 45},
	{9807466973908990125ull, 46},
	{9661030174723954103ull, 46},
	{1126060332414337973ull, 46},
	{1052841932821819962ull, 46},
	{10240189311029110ull, 46},
	{10070060875666574ull, 46},
	{15691947158254384200ull, 47},
	{15183269209660805191ull, 47},
	{1017997705279499196ull, 47},
	{1016714089094816840ull, 47},
	{16006496659420484ull, 47},
	{11249838158917152ull, 47},
	{12553557726603507360ull, 48},
	{11536201829416349342ull, 48},
	{1569194715825438420ull, 48},
	{1060516767231859411ull, 48},
	{12869378136770505ull, 48},
	{12548474090599916ull, 48},
	{10042846181282805888ull, 49},
	{9353716183942302685ull, 49},
	{1255355772660350736ull, 49},
	{1074903723913426542ull, 49},
	{10295502509416404ull, 49},
	{10028034193258058ull, 49},
	{11651008698193942573ull, 50},
	{10436717261098791666ull, 50},
	{1017355897187158018ull, 50},
	{1017933466537045652ull, 50},
	{12814555821940958ull, 50},
	{13862823061691740ull, 50},
	{10292240108231274784ull, 51},
	{9983794397777902403ull, 51},
	{1286530013528909348ull, 51},
	{1431007166396426230ull, 51},
	{10193887722564003ull, 51},
	{11090258449353392ull, 51},
	{9266914378351815029ull, 52},
	{9605862983346520099ull, 52},
	{1214291437095150907ull, 52},
	{1144805733117140984ull, 52},
	{10017615247401919ull, 52},
	{10306399922345736ull, 52},
	{14805369302679966615ull, 53},
	{11009120127657362158ull, 53},
	{1094811433857469678ull, 53},
	{1020237780942253028ull, 53},
	{11810356700980697ull, 53},
	{13186792928854956ull, 53},
	{11844295442143973292ull, 54},
	{10824731094576966293ull, 54},
	{1437152004810312566ull, 54},
	{1155143789564889027ull, 54},
	{13346566304452281ull, 54},
	{10210237747270183ull, 54},
	{9497130056398116065ull, 55},
	{10677219868112649601ull, 55},
	{1388342413727798729ull, 55},
	{1106334198482375190ull, 55},
	{10338056447748043ull, 55},
	{10133546526983467ull, 55},
	{9357427372543725280ull, 56},
	{15795864386240820348ull, 56},
	{1014358652493723061ull, 56},
	{1024770042640290937ull, 56},
	{11551685886467967ull, 56},
	{14154533423109936ull, 56},
	{10555046330882569097ull, 57},
	{13250512395562174053ull, 57},
	{1459495179423315106ull, 57},
	{1609609253424273767ull, 57},
	{10803057231159555ull, 57},
	{13405904767801524ull, 57},
	{10899320610984126376ull, 58},
	{9837133682613027901ull, 58},
	{1362415076373015797ull, 58},
	{1018140796271458518ull, 58},
	{10065997080476125ull, 58},
	{11245293321569613ull, 58},
	{9224708859420220521ull, 59},
	{9242360148332097338ull, 59},
	{1113423331551553948ull, 59},
	{1003458752238245199ull, 59},
	{11460924967460959ull, 59},
	{13258492737664838ull, 59},
	{11894030437176760041ull, 60},
	{11214230803019257017ull, 60},
	{1062186928371098475ull, 60},
	{1599540585219274076ull, 60},
	{12105148780611431ull, 60},
	{11325821298213422ull, 60},
	{11055775099087809170ull, 61},
	{10194531351783002481ull, 61},
	{1008205246628326627ull, 61},
	{1166660950559774474ull, 61},
	{10307581010407552ull, 61},
	{11564734103621283ull, 61},
	{9415553245539368161ull, 62},
	{9405865249737117258ull, 62},
	{1105577509908780917ull, 62},
	{1032999864649859451ull, 62},
	{16594747688384565ull, 62},
	{11299197585839862ull, 62},
	{9363303926813581530ull, 63},
	{9458114568462903889ull, 63},
	{1089617013812455019ull, 63},
	{1422488917771676611ull, 63},
	{13275798150707652ull, 63},
	{11518819870825172ull, 63},
	{9317629273512051864ull, 64},
	{9960535754779730215ull, 64},
	{1027679699284417485ull, 64},
	{1031141034330680512ull, 64},
	{10088621984021925ull, 64},
	{11343122042836924ull, 64},
	{9500327886718170528ull, 65},
	{9465172698095452006ull, 65},
	{1004842372633652652ull, 65},
	{1169963391528412055ull, 65},
	{16141795174435080ull, 65},
	{17456728259286473ull, 65},
	{9768037035812057425ull, 66},
	{10338610522622549741ull, 66},
	{1764453243365554731ull, 66},
	{1016081196229720814ull, 66},
	{12913436139548064ull, 66},
	{12553756680919555ull, 66},
	{10038857180325866376ull, 67},
	{11736111041865906117ull, 67},
	{1254857147540733297ull, 67},
	{1540143890945979455ull, 67},
	{11598503054696671ull, 67},
	{10043005344735644ull, 67},
	{9271880816352338989ull, 68},
	{9856920902054268512ull, 68},
	{1097747176946673011ull, 68},
	{1232115112756783564ull, 68},
	{14730986483250616ull, 68},
	{17313206719545852ull, 68},
	{13224162845666343856ull, 69},
	{9632418536265794165ull, 69},
	{1653020355708292982ull, 69},
	{1367316757724329255ull, 69},
	{13439876365102998ull, 69},
	{13023021786385429ull, 69},
	{9272979916432203321ull, 70},
	{9273273459647243182ull, 70},
	{1017626640955067762ull, 70},
	{1006779037810874079ull, 70},
	{10918642923569426ull, 70},
	{10501788344851857ull, 70},
	{9229295960640388728ull, 71},
	{9230470133500548172ull, 71},
	{1014343005690305671ull, 71},
	{1005782340460966669ull, 71},
	{15300308048872345ull, 71},
	{14354812063943396ull, 71},
	{13850616347215030377ull, 72},
	{9236848996539955596ull, 72},
	{1002803180391109163ull, 72},
	{1003390266821188885ull, 72},
	{12240246439097876ull, 72},
	{12140576704107135ull, 72},
	{12185300572401832609ull, 73},
	{12296755763913626945ull, 73},
	{1004951673874963279ull, 73},
	{1010062673075636170ull, 73},
	{11185387045175730ull, 73},
	{11722510416139259ull, 73},
	{9391583845083724212ull, 74},
	{9837404611130901556ull, 74},
	{1038297461007347605ull, 74},
	{1030960521484097608ull, 74},
	{10061279797429137ull, 74},
	{10022556378067642ull, 74},
	{13046440322851948995ull, 75},
	{13727784378978544444ull, 75},
	{1040935444773637323ull, 75},
	{1028322537717807890ull, 75},
	{11530915630030076ull, 75},
	{12849907513174935ull, 75},
	{10437152258281559196ull, 76},
	{9378970938027894779ull, 76},
	{1152390636285431659ull, 76},
	{1645316060348492624ull, 76},
	{12274910668447891ull, 76},
	{10279926010539948ull, 76},
	{9952978371780188133ull, 77},
	{9863144824529265842ull, 77},
	{1255351489878888803ull, 77},
	{1165517942627966512ull, 77},
	{10232122932892425ull, 77},
	{10100148267367189ull, 77},
	{9511739134228537908ull, 78},
	{11007195442682371935ull, 78},
	{1058181320253664417ull, 78},
	{1050252821550703187ull, 78},
	{12818666770511601ull, 78},
	{13024426485193769ull, 78},
	{12682318845638050544ull, 79},
	{10301212662599731575ull, 79},
	{1585289855704756318ull, 79},
	{1142464918412513847ull, 79},
	{10718567743213935ull, 79},
	{13127306342534853ull, 79},
	{9248581291438140019ull, 80},
	{10744037599891974046ull, 80},
	{1168042986617541086ull, 80},
	{1091101909646908066ull, 80},
	{10160553935163394ull, 80},
	{10660415048087107ull, 80},
	{15994095113064091252ull, 81},
	{13094367352142039807ull, 81},
	{1038387592146607967ull, 81},
	{1068019586555718160ull, 81},
	{13126861286187199ull, 81},
	{13802515653534358ull, 81},
	{9676704675163741695ull, 82},
	{9461498546921797842ull, 82},
	{1282081278418518998ull, 82},
	{1037700930319122158ull, 82},
	{13579132107775080ull, 82},
	{13350244831946477ull, 82},
	{9481200396684224223ull, 83},
	{9657002825401315314ull, 83},
	{1257643243608579314ull, 83},
	{1062138965129061842ull, 83},
	{10863305686220064ull, 83},
	{10634418410391461ull, 83},
	{10439019939319385202ull, 84},
	{10161373579495575465ull, 84},
	{1046528907233595371ull, 84},
	{1071181739770386186ull, 84},
	{17198179277289220ull, 84},
	{10630896023147093ull, 84},
	{10151512446480859139ull, 85},
	{11896279669541448169ull, 85},
	{1739836656553230867ull, 85},
	{1452329163714704804ull, 85},
	{13758543421831376ull, 85},
	{13349364235135385ull, 85},
	{9628082279562682430ull, 86},
	{11023896058011153654ull, 86},
	{1098445152595228835ull, 86},
	{1169752237383536904ull, 86},
	{10348064785350261ull, 86},
	{10679491388108308ull, 86},
	{16716693319868677937ull, 87},
	{9518540131499043043ull, 87},
	{1072350376019907630ull, 87},
	{1046860333836353418ull, 87},
	{14128846316558395ull, 87},
	{13407874297293200ull, 87},
	{14160411659435973979ull, 88},
	{9451298446794974903ull, 88},
	{1278140830216351979ull, 88},
	{1345382514920420119ull, 88},
	{11303077053246716ull, 88},
	{10726299437834560ull, 88},
	{10278919989494070344ull, 89},
	{11698268357588965417ull, 89},
	{1284864998686758793ull, 89},
	{1338658346450013305ull, 89},
	{11239807936434533ull, 89},
	{10339329172858953ull, 89},
	{9234615130519376434ull, 90},
	{9248475751004655845ull, 90},
	{1096588281515368001ull, 90},
	{1070926677160010644ull, 90},
	{11149760060076975ull, 90},
	{12384829586346874ull, 90},
	{14540121303407795196ull, 91},
	{11457433362180590012ull, 91},
	{1348675974286902268ull, 91},
	{1130346373604844587ull, 91},
	{14546156729641011ull, 91},
	{12350517151986245ull, 91},
	{10131811639081205336ull, 92},
	{9420284921988638049ull, 92},
	{1266476454885150667ull, 92},
	{1212545893006596188ull, 92},
	{10017627836888963ull, 92},
	{11390053967029025ull, 92},
	{9467957836264377092ull, 93},
	{9316595563300072715ull, 93},
	{1155486507326633991ull, 93},
	{1051797148638068657ull, 93},
	{17812159024206147ull, 93},
	{10456798498990975ull, 93},
	{11555342726575696799ull, 94},
	{11435443960922313858ull, 94},
	{1519354569355326438ull, 94},
	{1399455803701943497ull, 94},
	{14145433092651327ull, 94},
	{10451321333464592ull, 94},
	{9340193193783263792ull, 95},
	{12141060099200182369ull, 95},
	{1167524149222907974ull, 95},
	{1047625383569525033ull, 95},
	{10994700629138077ull, 95},
	{10255878277300730ull, 95},
	{9318595546088708325ull, 96},
	{9808767091882852248ull, 96},
	{1029938331901032732ull, 96},
	{1226095886485356531ull, 96},
	{11498817823300197ull, 96},
	{11298819544436636ull, 96},
	{11792384966753976854ull, 97},
	{9409928220272504895ull, 97},
	{1504022812257592842ull, 97},
	{1384124046604209901ull, 97},
	{15331757097733596ull, 97},
	{10692230312640805ull, 97},
	{10911341527553417835ull, 98},
	{10290971659473063914ull, 98},
	{1251177756067427450ull, 98},
	{1131278990414044509ull, 98},
	{10004322890258520ull, 98},
	{11163289226792546ull, 98},
	{9710210881728687483ull, 99},
	{9450608805253932856ull, 99},
	{1000942204853941960ull, 99},
	{1181326100656741607ull, 99},
	{11859401316504299ull, 99},
	{13164153804844250ull, 99},
	{12292856069180947834ull, 100},
	{13862676324678472978ull, 100},
	{1004252974791131439ull, 100},
	{1003085194144842902ull, 100},
	{14492232077473149ull, 100},
	{10531323043875400ull, 100},
	{12187794458926146245ull, 101},
	{9468400388950302313ull, 101},
	{1072303581368342269ull, 101},
	{1177365191623143858ull, 101},
	{12385967468698069ull, 101},
	{10438019906719608ull, 101},
	{9750235567140916996ull, 102},
	{10076536948763251791ull, 102},
	{1055628755081447227ull, 102},
	{1100094958513167339ull, 102},
	{10011314394035969ull, 102},
	{10064807358096440ull, 102},
	{11334398214174644441ull, 103},
	{13490121927769259007ull, 103},
	{1004710870293182569ull, 103},
	{1020492290652498079ull, 103},
	{11786605303614677ull, 103},
	{11339902339824911ull, 103},
	{13170133114290650416ull, 104},
	{9439715605877897711ull, 104},
	{1646266639286331302ull, 104},
	{1267330117626981956ull, 104},
	{10362258143168838ull, 104},
	{11940400179100389ull, 104},
	{10256536357377337158ull, 105},
	{9463294689150194013ull, 105},
	{1017242959313958014ull, 105},
	{1221007545733693609ull, 105},
	{10164418279681016ull, 105},
	{10072286387398258ull, 105},
	{13146554031018354114ull, 106},
	{15020349702230555875ull, 106},
	{1029032500950106165ull, 106},
	{1033395836440466012ull, 106},
	{12253679520259920ull, 106},
	{11325403752036382ull, 106},
	{12898713563692256665ull, 107},
	{12016279761784444700ull, 107},
	{1199730469198669223ull, 107},
	{1060818069269149605ull, 107},
	{11083993468337033ull, 107},
	{11214039951830172ull, 107},
	{9789510569809118153ull, 108},
	{9613023809427555760ull, 108},
	{1092699908781866639ull, 108},
	{1201627976178444470ull, 108},
	{10556627380855851ull, 108},
	{10508491784019054ull, 108},
	{16086785136610338788ull, 109},
	{15380838095084089216ull, 109},
	{1017551187877781089ull, 109},
	{1062790732077617285ull, 109},
	{11727895923383536ull, 109},
	{16434085458475437ull, 109},
	{9722665786118828230ull, 110},
	{10610397576404272400ull, 110},
	{1679273217813658836ull, 110},
	{1326299697050534050ull, 110},
	{10126288364878441ull, 110},
	{10915353488265513ull, 110},
	{9456346249033194979ull, 111},
	{10166531681261550315ull, 111},
	{1052562976236215712ull, 111},
	{1061039757640427240ull, 111},
	{10791353478711346ull, 111},
	{10077444184016707ull, 111},
	{10482724413202625605ull, 112},
	{17609021586128986420ull, 112},
	{1106674561793763515ull, 112},
	{1004431742804751304ull, 112},
	{12733198132742120ull, 112},
	{13792795808268561ull, 112},
	{11154009861257878563ull, 113},
	{11319386938207411057ull, 113},
	{1006928172082879437ull, 113},
	{1760902158612898642ull, 113},
	{10186558506193696ull, 113},
	{12305753857246578ull, 113},
	{10030340021284614082ull, 114},
	{9675226447484897459ull, 114},
	{1342570896110505916ull, 114},
	{1070145860785555540ull, 114},
	{10343888941422889ull, 114},
	{10323031255883934ull, 114},
	{17287977827893319758ull, 115},
	{9334728525625571817ull, 115},
	{1002273208032354242ull, 115},
	{1118664466805684842ull, 115},
	{14594794254852026ull, 115},
	{14586451180636444ull, 115},
	{13210665365395687193ull, 116},
	{10649082541407556630ull, 116},
	{1736592797157540499ull, 116},
	{1026365649558107253ull, 116},
	{10708133067228021ull, 116},
	{13617914536561286ull, 116},
	{9709329635345809748ull, 117},
	{9651299494842640030ull, 117},
	{1362424154695696774ull, 117},
	{1064908254140755663ull, 117},
	{10325724254127307ull, 117},
	{10109490624930204ull, 117},
	{9273925292810122773ull, 118},
	{9244999366939494959ull, 118},
	{1095742337806874391ull, 118},
	{1066727267555289532ull, 118},
	{14399418311193878ull, 118},
	{10545157852929037ull, 118},
	{13569867262159057169ull, 119},
	{9244928051434729323ull, 119},
	{1523888455560617299ull, 119},
	{1132033461716594726ull, 119},
	{10428126600234781ull, 119},
	{12247140014768650ull, 119},
	{11407397656796893246ull, 120},
	{9877709752961197257ull, 120},
	{1100100838451279113ull, 120},
	{1062368766910884810ull, 120},
	{10518185827151904ull, 120},
	{11256488518680297ull, 120},
	{9367403383296038136ull, 121},
	{9254822771254745914ull, 121},
	{1170925422912004767ull, 121},
	{1095461279831216161ull, 121},
	{17996118528935348ull, 121},
	{17416173701427479ull, 121},
	{13915515858430593988ull, 122},
	{13352753950156817255ull, 122},
	{1212492261864427569ull, 122},
	{1458058528166935882ull, 122},
	{11953994997138665ull, 122},
	{13468983099135688ull, 122},
	{10626954279005706543ull, 123},
	{10682203160125453804ull, 123},
	{1307650954455808095ull, 123},
	{1053894440878793359ull, 123},
	{10652065963330413ull, 123},
	{11220223478500469ull, 123},
	{9335683819098911294ull, 124},
	{9556679343577900338ull, 124},
	{1046120763564646476ull, 124},
	{1101369644684393737ull, 124},
	{11920872196445037ull, 124},
	{11816729706355152ull, 124},
	{10896258147211015045ull, 125},
	{10650441938932291008ull, 125},
	{1577121450645260413ull, 125},
	{1331305242366536376ull, 125},
	{10064812096124353ull, 125},
	{14755871703610640ull, 125},
	{12400462091499316080ull, 126},
	{10312918096355340021ull, 126},
	{1550057761437414510ull, 126},
	{1304241553158690473ull, 126},
	{11349706595408321ull, 126},
	{11016450627120689ull, 126},
	{9282005041764841670ull, 127},
	{9230569269838882956ull, 127},
	{1240046209149931608ull, 127},
	{1067596108309789131ull, 127},
	{13643994874328497ull, 127},
	{13868295415139588ull, 127},
	{9340697927715706918ull, 128},
	{14649411523008171571ull, 128},
	{1856401008352968334ull, 128},
	{1016239833102782039ull, 128},
	{10556315034165052ull, 128},
	{11453517197409416ull, 128},
	{11759888527169652277ull, 129},
	{9474965854000206335ull, 129},
	{1310493571634760230ull, 129},
	{1444761497919259647ull, 129},
	{11379696324875304ull, 129},
	{10630135906699164ull, 129},
	{10066691900185186111ull, 130},
	{9259505724922885707ull, 130},
	{1236527815861637758ull, 130},
	{1034731272046062657ull, 130},
	{13063936927204615ull, 130},
	{14673221487716312ull, 130},
	{14187119416025114562ull, 131},
	{12058168543803430490ull, 131},
	{1000153120898706628ull, 131},
	{1001829872870675474ull, 131},
	{14471294242522155ull, 131},
	{13669718662787086ull, 131},
	{11101906570939506433ull, 132},
	{9646534835042744392ull, 132},
	{1596713154166263054ull, 132},
	{1205816854380343049ull, 132},
	{11577035394017724ull, 132},
	{12060434102275389ull, 132},
	{9754748298289662371ull, 133},
	{10163755451453298421ull, 133},
	{1299013215982394039ull, 133},
	{1190799752735476060ull, 133},
	{10086434820638806ull, 133},
	{10151372873410965ull, 133},
	{13279002499828640528ull, 134},
	{10041053305504207606ull, 134},
	{1017387217328780319ull, 134},
	{1034441232821108058ull, 134},
	{12168368902536044ull, 134},
	{15790539578079253ull, 134},
	{9844729871985662302ull, 135},
	{10368259028035116446ull, 135},
	{1651695169415307345ull, 135},
	{1014337739845817404ull, 135},
	{10459129257137477ull, 135},
	{11273894796121777ull, 135},
	{10570849084257967008ull, 136},
	{10338671767134178191ull, 136},
	{1321356135532245876ull, 136},
	{1089178818408457059ull, 136},
	{10377652703239047ull, 136},
	{10419569637833904ull, 136},
	{11291050844350084063ull, 137},
	{10826696210102506429ull, 137},
	{1054372446375566367ull, 137},
	{1011553599017782382ull, 137},
	{12705524829442861ull, 137},
	{14097595243460372ull, 137},
	{10603082662450274409ull, 138},
	{11058873527226295246ull, 138},
	{1040516042321271278ull, 138},
	{1496306907097292115ull, 138},
	{11347910299591819ull, 138},
	{10024751653907246ull, 138},
	{10879982689104509630ull, 139},
	{9576364205422669536ull, 139},
	{1018154687556048076ull, 139},
	{1197045525677833692ull, 139},
	{10541155095005071ull, 139},
	{10511745714690729ull, 139},
	{11909175444895490830ull, 140},
	{16182761169711334998ull, 140},
	{1087998268910450963ull, 140},
	{1048794593497471121ull, 140},
	{15391257544550761ull, 140},
	{12489131338139003ull, 140},
	{11786654331609902789ull, 141},
	{10806485425325198461ull, 141},
	{1190917544489549083ull, 141},
	{1068396431203961042ull, 141},
	{10105392388653984ull, 141},
	{13188638222848358ull, 141},
	{9642005329927343081ull, 142},
	{9336232065898141969ull, 142},
	{1148767816848580132ull, 142},
	{1110546158844929993ull, 142},
	{10527804290216203ull, 142},
	{10056050825603421ull, 142},
	{9266250809585700493ull, 143},
	{9260123791101082532ull, 143},
	{1070541465312444733ull, 143},
	{1008027392325584582ull, 143},
	{15092259719594115ull, 143},
	{17056294538253521ull, 143},
	{9260277062925235433ull, 144},
	{9290299068051713634ull, 144},
	{1009185787780460006ull, 144},
	{1015159534440925066ull, 144},
	{12073807775675292ull, 144},
	{10001173383121315ull, 144},
	{9378282128415268015ull, 145},
	{9398746138885002120ull, 145},
	{1009783162446506512ull, 145},
	{1030247172916240617ull, 145},
	{10073573099051029ull, 145},
	{10372260432074282ull, 145},
	{11274402564568055723ull, 146},
	{10410918799995694656ull, 146},
	{1080377906238938039ull, 146},
	{1084470708332884860ull, 146},
	{16177454425086297ull, 146},
	{12682026997185982ull, 146},
	{10524958554713623646ull, 147},
	{13881225066660926208ull, 147},
	{1213788632914041679ull, 147},
	{1735153133332615776ull, 147},
	{10486282283700945ull, 147},
	{13180913406487640ull, 147},
	{10616190358487966838ull, 148},
	{9843938397689948963ull, 148},
	{1225192608385834578ull, 148},
	{1133960804611491386ull, 148},
	{10326123022678221ull, 148},
	{10544730725190112ull, 148},
	{9282163259829700281ull, 149},
	{9312442720336671843ull, 149},
	{1053139529728142216ull, 149},
	{1151563491109580173ull, 149},
	{18158917673863882ull, 149},
	{12953653228366871ull, 149},
	{13444448674049779339ull, 150},
	{12950207419139047899ull, 150},
	{1019372588253383595ull, 150},
	{1011497414164166128ull, 150},
	{11403975471792899ull, 150},
	{12842406993211852ull, 150},
	{9523105871598681858ull, 151},
	{12011149034808658163ull, 151},
	{1013194572566999452ull, 151},
	{1425424465151903709ull, 151},
	{10410528890994022ull, 151},
	{11424670811704644ull, 151},
	{9516371116136154216ull, 152},
	{9263602273696145025ull, 152},
	{1189546389517019277ull, 152},
	{1094065516266136810ull, 152},
	{16147698704740438ull, 152},
	{14742379727180277ull, 152},
	{9960732078105136582ull, 153},
	{12879666692359039969ull, 153},
	{1546073568598998678ull, 153},
	{1270645416941494600ull, 153},
	{11571207871286822ull, 153},
	{14938585602550643ull, 153},
	{10846634025252648609ull, 154},
	{11471307199588793330ull, 154},
	{1277745106364562986ull, 154},
	{1016516333553195680ull, 154},
	{10603917389534986ull, 154},
	{10512683899399800ull, 154},
	{9263370023464036378ull, 155},
	{9778960129895811251ull, 155},
	{1190292851855380190ull, 155},
	{1147130719958879333ull, 155},
	{16256298880949139ull, 155},
	{12706454169414946ull, 155},
	{12615259646563590984ull, 156},
	{13097733333273906418ull, 156},
	{1576907455820448873ull, 156},
	{1818144299175606590ull, 156},
	{12892240033141203ull, 156},
	{10277962407150065ull, 156},
	{9706228767882620440ull, 157},
	{9299437776150998265ull, 157},
	{1213278595985327555ull, 157},
	{1454515439340485272ull, 157},
	{11585101220145634ull, 157},
	{11400642909801731ull, 157},
	{9229430584539936182ull, 158},
	{9301338927350486236ull, 158},
	{1051981075134586479ull, 158},
	{1040630068399324127ull, 158},
	{10613173493886740ull, 158},
	{17650762062582280ull, 158},
	{9274834611480985590ull, 159},
	{9239663260740171941ull, 159},
	{1011861141228937558ull, 159},
	{1002411285693163177ull, 159},
	{10618852557971083ull, 159},
	{14120609650065824ull, 159},
	{12039962126695102830ull, 160},
	{11779615891986864638ull, 160},
	{1025113299163687881ull, 160},
	{1024587684883231106ull, 160},
	{10046758969940491ull, 160},
	{11030885556740998ull, 160},
	{9631969701356082264ull, 161},
	{10120013768577937519ull, 161},
	{1203996212669510283ull, 161},
	{1073823095315391187ull, 161},
	{10032501139198624ull, 161},
	{10070522021176936ull, 161},
	{10347879797661300750ull, 162},
	{14187608317325885204ull, 162},
	{1008904733208077807ull, 162},
	{1008568340068585471ull, 162},
	{12208985894753233ull, 162},
	{12187961323534962ull, 162},
	{9326285736028816061ull, 163},
	{12898902865348593462ull, 163},
	{1034787979766130075ull, 163},
	{1574934933243582202ull, 163},
	{10011073741934530ull, 163},
	{12382093993884752ull, 163},
	{9279325859770880409ull, 164},
	{10438891652038849108ull, 164},
	{1127253783212839906ull, 164},
	{1230005606654872177ull, 164},
	{10051496056820685ull, 164},
	{10328069137758982ull, 164},
	{10888026751138752877ull, 165},
	{11179824589472333786ull, 165},
	{1007441072848388716ull, 165},
	{1042769356553032584ull, 165},
	{13282872063782279ull, 165},
	{14311474063314523ull, 165},
	{11652801579659147190ull, 166},
	{13474149075033516725ull, 166},
	{1001263323613801015ull, 166},
	{1293061161947381924ull, 166},
	{12952616161684180ull, 166},
	{10044718023361234ull, 166},
	{9322241263727317752ull, 167},
	{10050780261877065566ull, 167},
	{1165280157965914719ull, 167},
	{1020336836483328723ull, 167},
	{10362092929347344ull, 167},
	{10140011364666869ull, 167},
	{12541160470513421383ull, 168},
	{13663722110181923870ull, 168},
	{1048178783558800572ull, 168},
	{1077931926002681338ull, 168},
	{15448007791734985ull, 168},
	{10108193004558456ull, 168},
	{11146481475001009173ull, 169},
	{9989827619039643091ull, 169},
	{1275666425736889146ull, 169},
	{1366372211018192387ull, 169},
	{12358406233387988ull, 169},
	{10912048283727045ull, 169},
	{9466048237127541802ull, 170},
	{9599730704880139251ull, 170},
	{1136198526185647925ull, 170},
	{1122561639668502487ull, 170},
	{10175996576642579ull, 170},
	{10072659954209580ull, 170},
	{12294415919568316606ull, 171},
	{15306096140707183822ull, 171},
	{1097188834769697541ull, 171},
	{1037723813578029000ull, 171},
	{12190528567484495ull, 171},
	{10248296735905574ull, 171},
	{10613222294440654863ull, 172},
	{13800256030137750214ull, 172},
	{1103627084401173074ull, 172},
	{1732699622179466007ull, 172},
	{10132616481084782ull, 172},
	{12008542587394083ull, 172},
	{10963929323557111133ull, 173},
	{10402798076970781101ull, 173},
	{1017050384437723183ull, 173},
	{1047720858086712104ull, 173},
	{11137625389974662ull, 173},
	{10377238135780290ull, 173},
	{11545222946037897200ull, 174},
	{13008538190187090385ull, 174},
	{1002142057420533591ull, 174},
	{1022304433314989626ull, 174},
	{11349532139982021ull, 174},
	{16603581017248464ull, 174},
	{9821504454489995034ull, 175},
	{10406830552149672308ull, 175},
	{1154522294603789720ull, 175},
	{1447185343433628357ull, 175},
	{11181245262892194ull, 175},
	{11792032112079812ull, 175},
	{10498087930536704038ull, 176},
	{10114167503319833671ull, 176},
	{1014875214070063506ull, 176},
	{1216280884512870413ull, 176},
	{10557986281870238ull, 176},
	{10240120725442091ull, 176},
	{9289653907879862596ull, 177},
	{9311102573513954447ull, 177},
	{1042252427586173025ull, 177},
	{1134149243964541856ull, 177},
	{14219000498515139ull, 177},
	{13158213017594380ull, 177},
	{11774726572383282813ull, 178},
	{9975200512975010601ull, 178},
	{1243658098028979932ull, 178},
	{1481566719826599531ull, 178},
	{14048977951289353ull, 178},
	{10526570414075504ull, 178},
	{10869776396930512478ull, 179},
	{10880150688427780936ull, 179},
	{1354831690304838388ull, 179},
	{1360018836053472617ull, 179},
	{10983407164496642ull, 179},
	{10790476050123553ull, 179},
	{9406294678960177255ull, 180},
	{9447791844949251087ull, 180},
	{1085940210543324402ull, 180},
	{1091127356291958631ull, 180},
	{13563751392198231ull, 180},
	{14895541961334535ull, 180},
	{10145816256568296210ull, 181},
	{13781178395625280237ull, 181},
	{1881258935792035451ull, 181},
	{1162485941178453412ull, 181},
	{12897856107630079ull, 181},
	{11916433569067628ull, 181},
	{10247540842589965710ull, 182},
	{11752015144311620995ull, 182},
	{1014581625656829621ull, 182},
	{1335821403205494578ull, 182},
	{11355714035830909ull, 182},
	{11608005154707794ull, 182},
	{9263476592739636939ull, 183},
	{9401612115449296796ull, 183},
	{1024754084258996571ull, 183},
	{1162889606968656428ull, 183},
	{10071542154616196ull, 183},
	{10273375049717704ull, 183},
	{11865946680655890835ull, 184},
	{14134970040700879434ull, 184},
	{1398890646538929668ull, 184},
	{1000340183613795891ull, 184},
	{10786038672180629ull, 184},
	{10576124392369966ull, 184},
	{9492757344524712668ull, 185},
	{10081526318202601086ull, 185},
	{1039402424646116979ull, 185},
	{1333786911485061188ull, 185},
	{10172458602166950ull, 185},
	{10776341010529643ull, 185},
	{10002719160103885811ull, 186},
	{9291670768920183330ull, 186},
	{1091485412689211763ull, 186},
	{1184783323923626634ull, 186},
	{16275933763467120ull, 186},
	{19163618984929069ull, 186},
	{14432977215823748542ull, 187},
	{14866673230272293328ull, 187},
	{1002134132381737860ull, 187},
	{1002378231243338225ull, 187},
	{13020747010773696ull, 187},
	{12432744560803336ull, 187},
	{10852468149541327176ull, 188},
	{9657287162725902133ull, 188},
	{1356558518692665897ull, 188},
	{1573406525916938290ull, 188},
	{10162461911810265ull, 188},
	{12373944315806300ull, 188},
	{9445473049665483503ull, 189},
	{10069801765868405056ull, 189},
	{1216362398121466906ull, 189},
	{1258725220733550632ull, 189},
	{10011577369353364ull, 189},
	{10030832397537081ull, 189},
	{12800870711131341093ull, 190},
	{12743785484070090744ull, 190},
	{1001698059675005322ull, 190},
	{1008260346144603667ull, 190},
	{16028287745429397ull, 190},
	{10187017724466229ull, 190},
	{10377701113852073712ull, 191},
	{10149360205607072316ull, 191},
	{1297212639231509214ull, 191},
	{1240127412170258865ull, 191},
	{10524049992197717ull, 191},
	{10011460628156622ull, 191},
	{9640186191279601852ull, 192},
	{10035189751484571618ull, 192},
	{1106272383858707790ull, 192},
	{1303774163961192673ull, 192},
	{10067788327707526ull, 192},
	{10231893098192165ull, 192},
	{12066899004295499152ull, 193},
	{12854412722455961523ull, 193},
	{1015854626405463767ull, 193},
	{1018348028654940928ull, 193},
	{14402533451206682ull, 193},
	{15911687947733452ull, 193},
	{9968524690700584270ull, 194},
	{12749743347001163495ull, 194},
	{1049187156797457441ull, 194},
	{1627362124048323756ull, 194},
	{10104740466313378ull, 194},
	{11312064063534794ull, 194},
	{9462122244918390278ull, 195},
	{9643550946340814951ull, 195},
	{1321826213429827746ull, 195},
	{1228122455970404953ull, 195},
	{10451186534472937ull, 195},
	{10015510128604968ull, 195},
	{9315783521081166357ull, 196},
	{9567392177673992534ull, 196},
	{1059852496142430562ull, 196},
	{1018783705060808897ull, 196},
	{11987110132312230ull, 196},
	{14180233731387277ull, 196},
	{12715212105595938598ull, 197},
	{9472570947854618031ull, 197},
	{1573909963960973032ull, 197},
	{1001238716268208521ull, 197},
	{13417199124024023ull, 197},
	{11782811704924831ull, 197},
	{9523641452928486765ull, 198},
	{10158278897575328447ull, 198},
	{1017666232700857187ull, 198},
	{1334984955024278028ull, 198},
	{10029818986585494ull, 198},
	{10085356233903815ull, 198},
	{10884161660489699160ull, 199},
	{11450977083919773299ull, 199},
	{1054913133763172298ull, 199},
	{1008882496306821629ull, 199},
	{10124703225977610ull, 199},
	{15410549310956757ull, 199},
	{9464699176544920433ull, 200},
	{9459851325805733674ull, 200},
	{1088416166048969916ull, 200},
	{1750508801840587538ull, 200},
	{13499604301303480ull, 200},
	{12035648235630887ull, 200},
	{9239912147468565481ull, 201},
	{9381690415620824184ull, 201},
	{1099398242506880292ull, 201},
	{1021237332321970802ull, 201},
	{10799683441042784ull, 201},
	{10434897407307600ull, 201},
	{15325287446028631358ull, 202},
	{12901703931938515822ull, 202},
	{1091582151488389343ull, 202},
	{1029053423340461751ull, 202},
	{12886662922504304ull, 202},
	{15211715712040065ull, 202},
	{14113495688983573590ull, 203},
	{13101261743791815413ull, 203},
	{1219014200007687879ull, 203},
	{1005011502229128066ull, 203},
	{11872548541701633ull, 203},
	{12169372569632052ull, 203},
	{11290796551186858872ull, 204},
	{10278562605995100695ull, 204},
	{1411349568898357359ull, 204},
	{1166102240304293761ull, 204},
	{10230149758854323ull, 204},
	{10210416500394312ull, 204},
	{9235084029987838733ull, 205},
	{9235452402910096561ull, 205},
	{1002814509331824813ull, 205},
	{1002906602562389270ull, 205},
	{16352453007398908ull, 205},
	{15865694607634231ull, 205},
	{11284547625023758115ull, 206},
	{10687205539769664420ull, 206},
	{1634571735098254900ull, 206},
	{1037229649844161205ull, 206},
	{11832177173298975ull, 206},
	{10192985220867082ull, 206},
	{9505511768222281448ull, 207},
	{11510494060164591175ull, 207},
	{1188188971027785181ull, 207},
	{1068720553976966442ull, 207},
	{10019856702567447ull, 207},
	{10235086591782630ull, 207},
	{9231267000980405097ull, 208},
	{9418242239238824903ull, 208},
	{1046125910462883136ull, 208},
	{1017036067468397621ull, 208},
	{16345717350982549ull, 208},
	{17546247920142410ull, 208},
	{12029093508560145852ull, 209},
	{14570129154694701565ull, 209},
	{1165594327513701875ull, 209},
	{1841679049626334588ull, 209},
	{14375613776866481ull, 209},
	{14036998336113928ull, 209},
	{11353008786447513139ull, 210},
	{11656103323755761252ull, 210},
	{1305465646815346100ull, 210},
	{1235569999319209613ull, 210},
	{10878682006917849ull, 210},
	{10958706316289100ull, 210},
	{9245454193683997647ull, 211},
	{9567358288851207492ull, 211},
	{1044372517452276880ull, 211},
	{1049074906917017313ull, 211},
	{15142723219006718ull, 211},
	{12831540641322127ull, 211},
	{13625491499522911940ull, 212},
	{14644727191655578485ull, 212},
	{1193568591374030720ull, 212},
	{1257949410407472689ull, 212},
	{13054656468153461ull, 212},
	{10297242236806202ull, 212},
	{11511934614897929479ull, 213},
	{11715781753324462788ull, 213},
	{1362549149952291194ull, 213},
	{1083616511166108514ull, 213},
	{10059608489540764ull, 213},
	{11837217561646491ull, 213},
	{9327513010013301585ull, 214},
	{9454164258030183554ull, 214},
	{1130808747647139617ull, 214},
	{1111509775044726782ull, 214},
	{10054730127844134ull, 214},
	{17838533750774134ull, 214},
	{10284991989818247058ull, 215},
	{13358138244298176961ull, 215},
	{1646216285494196740ull, 215},
	{1019235692132666545ull, 215},
	{10833110490137134ull, 215},
	{13200358867998567ull, 215},
	{10535784227162859136ull, 216},
	{10724192187507462177ull, 216},
	{1316973028395357392ull, 216},
	{1066180791050745314ull, 216},
	{10210406200302734ull, 216},
	{11332245998495367ull, 216},
	{10033697700735804608ull, 217},
	{9971564449604710757ull, 217},
	{1254212212591975576ull, 217},
	{1128941606854127130ull, 217},
	{11704896495905294ull, 217},
	{11830409430362887ull, 217},
	{10410513621425010690ull, 218},
	{9695768296286312027ull, 218},
	{1015796420299799231ull, 218},
	{1004173052854109056ull, 218},
	{15564691016387861ull, 218},
	{15690203950845454ull, 218},
	{11945673386051491438ull, 219},
	{11230928060912792775ull, 219},
	{1041051362142501069ull, 219},
	{1314522841971761764ull, 219},
	{12501957986893326ull, 219},
	{10177284497755291ull, 219},
	{10137042141595749995ull, 220},
	{9582660226771986893ull, 220},
	{1042911100933811497ull, 220},
	{1203274511248747058ull, 220},
	{10042978152193529ull, 220},
	{10023447934399102ull, 220},
	{11933990631341796839ull, 221},
	{10090311122756971599ull, 221},
	{1038667301389358610ull, 221},
	{1035472145768569785ull, 221},
	{11217820011866992ull, 221},
	{10287950616211778ull, 221},
	{12487094483917244411ull, 222},
	{11012150877049384219ull, 222},
	{1014023729721653882ull, 222},
	{1427573556904924031ull, 222},
	{10462047042541936ull, 222},
	{12903462376847262ull, 222},
	{9999660822025708973ull, 223},
	{9583043645446481552ull, 223},
	{1152044080415852669ull, 223},
	{1197880455680810194ull, 223},
	{10122885886704325ull, 223},
	{10047467911896048ull, 223},
	{9889653521389810913ull, 224},
	{9693050946082379612ull, 224},
	{1034914404324267952ull, 224},
	{1021657330076666751ull, 224},
	{10061918626812376ull, 224},
	{16417456733509715ull, 224},
	{10966314501784426694ull, 225},
	{11866963801161605579ull, 225},
	{1537281077228202426ull, 225},
	{1595951637567348058ull, 225},
	{11511954962916018ull, 225},
	{10489505164263594ull, 225},
	{9252513715375206723ull, 226},
	{9328673047473509177ull, 226},
	{1089015516968612424ull, 226},
	{1143567898449759175ull, 226},
	{10309636976691795ull, 226},
	{10338016640080980ull, 226},
	{11992541279555894605ull, 227},
	{15111568974968816634ull, 227},
	{1000084435055578070ull, 227},
	{1038164101104729297ull, 227},
	{16958039864864825ull, 227},
	{12377240304707991ull, 227},
	{9594033023644715684ull, 228},
	{13242086283177842280ull, 228},
	{1126235221277025718ull, 228},
	{1655260785397230285ull, 228},
	{13566431891891860ull, 228},
	{10725428015366169ull, 228},
	{10947449214633925409ull, 229},
	{10593669026542273824ull, 229},
	{1265793502974933234ull, 229},
	{1324208628317784228ull, 229},
	{10853145513513488ull, 229},
	{10628929434503523ull, 229},
	{9793960224224227312ull, 230},
	{14478672223481350017ull, 230},
	{1036658739723996109ull, 230},
	{1058051128240409134ull, 230},
	{15092229720401028ull, 230},
	{14115332951024469ull, 230},
	{11809357099163737028ull, 231},
	{12463275348541840301ull, 231},
	{1007698437469754858ull, 231},
	{1520104611611197497ull, 231},
	{10387118736726205ull, 231},
	{10510748945318328ull, 231},
	{9281554050082784673ull, 232},
	{10468415166578087089ull, 232},
	{1294145370105702210ull, 232},
	{1085300039413337343ull, 232},
	{10382260776982035ull, 232},
	{10021086070694006ull, 232},
	{12993031034810211598ull, 233},
	{16728703095989819349ull, 233},
	{1035316296084561768ull, 233},
	{1011121219632380942ull, 233},
	{12953233766746934ull, 233},
	{14664624848059976ull, 233},
	{12174456028523434514ull, 234},
	{14272978077129488097ull, 234},
	{1585065479684443295ull, 234},
	{1227862509430165626ull, 234},
	{10775545623799627ull, 234},
	{11318741268045901ull, 234},
	{9891385165504381165ull, 235},
	{9638351261028325242ull, 235},
	{1452601198160554402ull, 235},
	{1015018479271498713ull, 235},
	{10098188492939390ull, 235},
	{11155132970897461ull, 235},
	{9245178313267524403ull, 236},
	{9364410900776100614ull, 236},
	{1115655468788466078ull, 236},
	{1111474177633232337ull, 236},
	{12138114156964123ull, 236},
	{11975810433469283ull, 236},
	{12559759450055185522ull, 237},
	{10184154493872040546ull, 237},
	{1039327168330125927ull, 237},
	{1083243883376963126ull, 237},
	{12089423039915671ull, 237},
	{11959580061119799ull, 237},
	{9623293349702730607ull, 238},
	{11745864401409819660ull, 238},
	{1407796287691152106ull, 238},
	{1154762383215096183ull, 238},
	{10507796662979285ull, 238},
	{11136306127952638ull, 238},
	{9298391705229214059ull, 239},
	{9396691521127855728ull, 239},
	{1000848763368469175ull, 239},
	{1174586440140981966ull, 239},
	{16227620215709449ull, 239},
	{15642765770652042ull, 239},
	{13440892198502405597ull, 240},
	{11986068104618252262ull, 240},
	{1775095698162063471ull, 240},
	{1134552489606243199ull, 240},
	{11660492377508507ull, 240},
	{12046329060475708ull, 240},
	{9375796880562632351ull, 241},
	{9245951521154530337ull, 241},
	{1281086417111640544ull, 241},
	{1046632133103004792ull, 241},
	{11971601492124910ull, 241},
	{10254401941128088ull, 241},
	{9421005308377188283ull, 242},
	{9491707912116805072ull, 242},
	{1141255061200044702ull, 242},
	{1186463489014600634ull, 242},
	{19154562387399856ull, 242},
	{10152223113679613ull, 242},
	{10474733475965904012ull, 243},
	{13864065894525063107ull, 243},
	{1069499569100311789ull, 243},
	{1258218981114333547ull, 243},
	{12485236115635510ull, 243},
	{10382199881671487ull, 243},
	{10666607168282244982ull, 244},
	{11728221036626758741ull, 244},
	{1067922428949152183ull, 244},
	{1259796121265493153ull, 244},
	{10776758968088211ull, 244},
	{10250314788030149ull, 244},
	{9758492253790803999ull, 245},
	{9477251963338649793ull, 245},
	{1125484536644054474ull, 245},
	{1138363345271050147ull, 245},
	{10776539729186753ull, 245},
	{15769647600384396ull, 245},
	{10334060993256283144ull, 246},
	{11881719990479831517ull, 246},
	{1005911635153029867ull, 246},
	{1000360074222161294ull, 246},
	{11144656025204772ull, 246},
	{11196993508748537ull, 246},
	{10001472948243486294ull, 247},
	{12137453883599004449ull, 247},
	{1010349853757541139ull, 247},
	{1048776929704353098ull, 247},
	{11577499124370666ull, 247},
	{10003586942828233ull, 247},
	{9518095695060887841ull, 248},
	{9727985064959630499ull, 248},
	{1043608658258820824ull, 248},
	{1148553343208192153ull, 248},
	{10064387976636970ull, 248},
	{10034321450806565ull, 248},
	{10480399733061913758ull, 249},
	{15612687935734051982ull, 249},
	{1002358253278564818ull, 249},
	{1000491697487832411ull, 249},
	{15337334389256774ull, 249},
	{11269709211766974ull, 249},
	{10609893729692496144ull, 250},
	{11741889450958184583ull, 250},
	{1326236716211562018ull, 250},
	{1283072050668034556ull, 250},
	{11389350496971440ull, 250},
	{11676471729515954ull, 250},
	{9355094061478135926ull, 251},
	{10141772458395604669ull, 251},
	{1095521105404071584ull, 251},
	{1218325052352743363ull, 251},
	{10231271056446961ull, 251},
	{10259965327755208ull, 251},
	{13745683153247571161ull, 252},
	{14257573963578402862ull, 252},
	{1015276950508514503ull, 252},
	{1052961313350956886ull, 252},
	{10715557199580270ull, 252},
	{10866775572183461ull, 252},
	{10587033874333391568ull, 253},
	{11610815494995054970ull, 253},
	{1323379234291673946ull, 253},
	{1094546019561937121ull, 253},
	{12707450266893133ull, 253},
	{10152405092211443ull, 253},
	{10075143064002559867ull, 254},
	{9288652395996043976ull, 254},
	{1252614835391400227ull, 254},
	{1161081549499505497ull, 254},
	{10068893075144111ull, 254},
	{10042942728141918ull, 254},
	{12415612820179949807ull, 255},
	{15176440100796276718ull, 255},
	{1042783868503821135ull, 255},
	{1023781620661663402ull, 255},
	{16633882484392094ull, 255},
	{10826103283176325ull, 255},
	{13007913803962893113ull, 256},
	{10645197822905936923ull, 256},
	{1674942143680930850ull, 256},
	{1085885136935396061ull, 256},
	{10630666477134712ull, 256},
	{10919967738652751ull, 256},
	{10800549570284794991ull, 257},
	{10881469421011632542ull, 257},
	{1103682116839049061ull, 257},
	{1184601967565886612ull, 257},
	{10358596527694206ull, 257},
	{10172683138641365ull, 257},
	{14143315065685195491ull, 258},
	{17313247252746407006ull, 258},
	{1071962971955795744ull, 258},
	{1060969365070281861ull, 258},
	{11568036937374450ull, 258},
	{11252617994052367ull, 258},
	{9981943297142201746ull, 259},
	{9509796561183634545ull, 259},
	{1406239521495835794ull, 259},
	{1129706228153133418ull, 259},
	{10678187942191800ull, 259},
	{12498406587308077ull, 259},
	{10928911242739827769ull, 260},
	{9358654754451925927ull, 260},
	{1187053024097647055ull, 260},
	{1030562270004955195ull, 260},
	{10820563781421024ull, 260},
	{10078017320411269ull, 260},
	{9666287315276326405ull, 261},
	{11917875233877958648ull, 261},
	{1108807647051301125ull, 261},
	{1017587668276177630ull, 261},
	{12380564559969761ull, 261},
	{11093048553934018ull, 261},
	{14242439135499689687ull, 262},
	{10180270990105926246ull, 262},
	{1064455341169249080ull, 262},
	{1578439015998848921ull, 262},
	{13034266729829646ull, 262},
	{10439346384074133ull, 262},
	{10747980505396192422ull, 263},
	{10444875605191626873ull, 263},
	{1419273788225665440ull, 263},
	{1027967349659199682ull, 263},
	{10300128048285944ull, 263},
	{10962308119962041ull, 263},
	{9246314159619054796ull, 264},
	{9236519398126347142ull, 264},
	{1004236819850099075ull, 264},
	{1094678551836833357ull, 264},
	{17740922352820818ull, 264},
	{10242094689929386ull, 264},
	{11682552172006704959ull, 265},
	{12723861762101431376ull, 265},
	{1598630816011418721ull, 265},
	{1590482720262678922ull, 265},
	{12400582982389396ull, 265},
	{12043704263830001ull, 265},
	{11259509859369822553ull, 266},
	{11454734824190784158ull, 266},
	{1285423129408126816ull, 266},
	{1057605781592206015ull, 266},
	{10816543835845146ull, 266},
	{10531040860997630ull, 266},
	{9333070651037139003ull, 267},
	{9267556551898427040ull, 267},
	{1015499150217793917ull, 267},
	{1002264597130534096ull, 267},
	{17697408267349545ull, 267},
	{13199488948102977ull, 267},
	{11605752708072166942ull, 268},
	{13644164807322040955ull, 268},
	{1228791422952608272ull, 268},
	{1384971394809377556ull, 268},
	{14157926613879636ull, 268},
	{11171918840526337ull, 268},
	{10718042045846516559ull, 269},
	{10915331845857632764ull, 269},
	{1035631293321801267ull, 269},
	{1002780805928072746ull, 269},
	{10617894724554448ull, 269},
	{10030457176991552ull, 269},
	{9481817216209351727ull, 270},
	{9337387197066193282ull, 270},
	{1025720084409059187ull, 270},
	{1012692014840814826ull, 270},
	{10343783821043381ull, 270},
	{10117692431757540ull, 270},
	{11412427391626147569ull, 271},
	{11914808915481458150ull, 271},
	{1112564971543699333ull, 271},
	{1614946495399009914ull, 271},
	{10219893709634105ull, 271},
	{10076395727954448ull, 271},
	{11889019748245405895ull, 272},
	{9531847132385166520ull, 272},
	{1165691724312093560ull, 272},
	{1191480891548145815ull, 272},
	{11686550983622570ull, 272},
	{10138132687332853ull, 272},
	{9511215798596324716ull, 273},
	{9246094613312694881ull, 273},
	{1177043230944462879ull, 273},
	{1015078714605042064ull, 273},
	{11992229830295944ull, 273},
	{17150063277506395ull, 273},
	{13041093937647162599ull, 274},
	{14873807793278628132ull, 274},
	{1320016664881734050ull, 274},
	{1644140046362646383ull, 274},
	{10213151182752642ull, 274},
	{13720050622005116ull, 274},
	{9699789607865143866ull, 275},
	{11532503463496609399ull, 275},
	{1056013331905387240ull, 275},
	{1078418618556188933ull, 275},
	{10233654325086294ull, 275},
	{12007607187046183ull, 275},
	{9458415132001055354ull, 276},
	{9646318229885504689ull, 276},
	{1086185141388398304ull, 276},
	{1229277665971244253ull, 276},
	{13311951879545643ull, 276},
	{13088381418089038ull, 276},
	{13048681604110206686ull, 277},
	{13086262223687096553ull, 277},
	{1005940224939888459ull, 277},
	{1017538430482670953ull, 277},
	{15130618833796853ull, 277},
	{15041190649214211ull, 277},
	{11481336586833906289ull, 278},
	{10499074274611189136ull, 278},
	{1274803664749508775ull, 278},
	{1312384284326398642ull, 278},
	{10586961774428665ull, 278},
	{10229249036098097ull, 278},
	{9774426656800755323ull, 279},
	{10091137101891346328ull, 279},
	{1019842931799607020ull, 279},
	{1261392137736418291ull, 279},
	{10075150445587963ull, 279},
	{10042140074047763ull, 279},
	{14004120862306742871ull, 280},
	{14067462951324861072ull, 280},
	{1021966100969512288ull, 280},
	{1005900612494040219ull, 280},
	{16233616473886788ull, 280},
	{15702824181410471ull, 280},
	{11215965107649017937ull, 281},
	{11279307196667136138ull, 281},
	{1394077877328862467ull, 281},
	{1457419966346980668ull, 281},
	{10410746234986597ull, 281},
	{12349942428137850ull, 281},
	{100186477624507ull, 281},
	{100291684899608ull, 281},
	{132577654659ull, 281},
	{120859306148ull, 281},
	{1327972803ull, 281},
	{1001648033ull, 281},
	{11382059ull, 281},
	{10360873ull, 281},
	{131389ull, 281},
	{146352ull, 281},
	{1009ull, 281},
	{1476ull, 281},
	{10709522752266878753ull, 282},
	{9251477277798934434ull, 282},
	{1077257048452219053ull, 282},
	{1140599137470337254ull, 282},
	{10027132323913492ull, 282},
	{10005297603030880ull, 282},
	{106422541467585ull, 282},
	{140576307095172ull, 282},
	{154829623755ull, 282},
	{112444573406ull, 282},
	{1104524841ull, 282},
	{1034280510ull, 282},
	{15832764ull, 282},
	{16799713ull, 282},
	{117205ull, 282},
	{147131ull, 282},
	{1054ull, 282},
	{1135ull, 282},
	{11913022443611124572ull, 283},
	{14396974274762338608ull, 283},
	{1014062137815504064ull, 283},
	{1026495070208882565ull, 283},
	{15844720903367251ull, 283},
	{15807926308016448ull, 283},
	{121932628524871ull, 283},
	{105102126605977ull, 283},
	{123863699004ull, 283},
	{123564476091ull, 283},
	{1954071729ull, 283},
	{1654848816ull, 283},
	{11892652ull, 283},
	{12443895ull, 283},
	{111843ull, 283},
	{114089ull, 283},
	{1644ull, 283},
	{1816ull, 283},
	{13228522279529797731ull, 284},
	{10376950846663252990ull, 284},
	{1062131479846200355ull, 284},
	{1642392112334212104ull, 284},
	{10145036729597137ull, 284},
	{10071447538895531ull, 284},
	{103489884723776ull, 284},
	{100538077713535ull, 284},
	{100168161690ull, 284},
	{100144323635ull, 284},
	{1079635232ull, 284},
	{1443568218ull, 284},
	{10509997ull, 284},
	{12167364ull, 284},
	{121096ull, 284},
	{155435ull, 284},
	{1040ull, 284},
	{1206ull, 284},
	{10483056627246152539ull, 285},
	{9306673901757094283ull, 285},
	{1184742925352457581ull, 285},
	{1037695084666325299ull, 285},
	{10329009706351152ull, 285},
	{10034652943544728ull, 285},
	{120750952975064ull, 285},
	{152192127824036ull, 285},
	{112426765901ull, 285},
	{131562729500ull, 285},
	{1103086516ull, 285},
	{1214699157ull, 285},
	{14602292ull, 285},
	{14711813ull, 285},
	{152183ull, 285},
	{124348ull, 285},
	{1142ull, 285},
	{1104ull, 285},
	{11672815672516649715ull, 286},
	{10599194647665131278ull, 286},
	{1032678964748285704ull, 286},
	{1080309184742237897ull, 286},
	{15926603827606981ull, 286},
	{11853871297627805ull, 286},
	{118677519590533ull, 286},
	{117470965857764ull, 286},
	{117689275081ull, 286},
	{105250183600ull, 286},
	{1002158378ull, 286},
	{1016347553ull, 286},
	{14026962ull, 286},
	{12985823ull, 286},
	{100206ull, 286},
	{120655ull, 286},
	{1502ull, 286},
	{1750ull, 286},
	{9338252538013319772ull, 287},
	{11377382359166241259ull, 287},
	{1704092079677424190ull, 287},
	{1408658766327015734ull, 287},
	{10056851414828217ull, 287},
	{10151913027174190ull, 287},
	{100250852096610ull, 287},
	{105557571121333ull, 287},
	{100276454052ull, 287},
	{101803898460ull, 287},
	{1124696744ull, 287},
	{1315627295ull, 287},
	{12646170ull, 287},
	{12525559ull, 287},
	{146605ull, 287},
	{141060ull, 287},
	{1389ull, 287},
	{1400ull, 287},
	{10798077081385399429ull, 288},
	{10689964852835284042ull, 288},
	{1363273663741939352ull, 288},
	{1062059675931543355ull, 288},
	{10558124936367163ull, 288},
	{10127978388955190ull, 288},
	{100564767807076ull, 288},
	{168699912156674ull, 288},
	{127678734376ull, 288},
	{101920363835ull, 288},
	{1206199799ull, 288},
	{1052501836ull, 288},
	{10116936ull, 288},
	{10202059ull, 288},
	{115066ull, 288},
	{112848ull, 288},
	{1098ull, 288},
	{1120ull, 288},
	{9299632186161263650ull, 289},
	{14567373908874793427ull, 289},
	{1112241376703574559ull, 289},
	{1004129148153459172ull, 289},
	{14236612876262866ull, 289},
	{11838313782785455ull, 289},
	{101722212430750ull, 289},
	{101045271900723ull, 289},
	{123231210331ull, 289},
	{113409388512ull, 289},
	{1015360078ull, 289},
	{1001238905ull, 289},
	{12236812ull, 289},
	{14552495ull, 289},
	{116175ull, 289},
	{107303ull, 289},
	{1251ull, 289},
	{1792ull, 289},
	{1242000807599354778ull, 290},
	{1445926168032467804ull, 290},
	{12545425193007801ull, 290},
	{12176551319436468ull, 290},
	{100525480519800ull, 290},
	{101763311047293ull, 290},
	{106442425720ull, 290},
	{105441114151ull, 290},
	{1010628799ull, 290},
	{1657885628ull, 290},
	{11651079ull, 290},
	{11641996ull, 290},
	{102023ull, 290},
	{100536ull, 290},
	{1439ull, 290},
	{1201ull, 290},
	{10601781716478619ull, 291},
	{10085853425689750ull, 291},
	{102631728683072ull, 291},
	{103869559210565ull, 291},
	{112616782895ull, 291},
	{102794961076ull, 291},
	{1008765353ull, 291},
	{1011269866ull, 291},
	{10267119ull, 291},
	{10230787ull, 291},
	{148704ull, 291},
	{139621ull, 291},
	{1109ull, 291},
	{1003ull, 291},
	{10503745438333595ull, 292},
	{15831967622221034ull, 292},
	{136520468137218ull, 292},
	{124265933369090ull, 292},
	{114028064535ull, 292},
	{101383679436ull, 292},
	{1031126705ull, 292},
	{1028646094ull, 292},
	{10091674ull, 292},
	{10406232ull, 292},
	{124413ull, 292},
	{115330ull, 292},
	{1015ull, 292},
	{1013ull, 292},
	{102304321818523ull, 293},
	{102165683795768ull, 293},
	{101608786103ull, 293},
	{100254654124ull, 293},
	{1001311569ull, 293},
	{1058461230ull, 293},
	{13044122ull, 293},
	{11057243ull, 293},
	{101347ull, 293},
	{100104ull, 293},
	{1597ull, 293},
	{1098ull, 293},
	{129677238873479ull, 294},
	{161373654811036ull, 294},
	{130421093028ull, 294},
	{141530562419ull, 294},
	{1230497911ull, 294},
	{1027552713ull, 294},
	{10334161ull, 294},
	{10040312ull, 294},
	{112782ull, 294},
	{151007ull, 294},
	{1096ull, 294},
	{1029ull, 294},
	{106540340730ull, 295},
	{107678929025ull, 295},
	{1002127504ull, 295},
	{1075139391ull, 295},
	{13675464ull, 295},
	{10117875ull, 295},
	{104877ull, 295},
	{103764ull, 295},
	{1045ull, 295},
	{111593571181ull, 296},
	{100261638078ull, 296},
	{1246360137ull, 296},
	{1474077796ull, 296},
	{13414421ull, 296},
	{10052544ull, 296},
	{105085ull, 296},
	{100914ull, 296},
	{1516ull, 296},
	{1542ull, 296},
	{131554811733ull, 297},
	{171830851122ull, 297},
	{1206378198ull, 297},
	{1133718705ull, 297},
	{10816439ull, 297},
	{10039534ull, 297},
	{138723ull, 297},
	{102805ull, 297},
	{1192ull, 297},
	{1011ull, 297},
	{1056189622ull, 298},
	{1063980966ull, 298},
	{11116793ull, 298},
	{10360704ull, 298},
	{101020ull, 298},
	{100458ull, 298},
	{1026ull, 298},
	{1053ull, 298},
	{1086811688ull, 299},
	{1261076559ull, 299},
	{10062136ull, 299},
	{10333791ull, 299},
	{105050ull, 299},
	{104157ull, 299},
	{1588ull, 299},
	{1014ull, 299},
	{10495774ull, 300},
	{10550105ull, 300},
	{128468ull, 300},
	{169090ull, 300},
	{1250ull, 300},
	{1051ull, 300},
	{10224927ull, 301},
	{17637570ull, 301},
	{135171ull, 301},
	{135272ull, 301},
	{1000ull, 301},
	{1004ull, 301},
	{108056ull, 302},
	{108460ull, 302},
	{1600ull, 302},
	{1701ull, 302},
	{170781ull, 303},
	{112556ull, 303},
	{1280ull, 303},
	{1381ull, 303},
	{1024ull, 304},
	{1079ull, 304},
	{1249ull, 305},
	{1080ull, 305},
};
const struct { uint64_t w; int q; } hard_singles[] = {
	{10509738482436128031ull, -63},
	{10509738482436128032ull, -63},
	{17446165880843972533ull, -62},
	{15904737570086673755ull, -62},
	{1050973848243612803ull, -62},
	{1050973848243612804ull, -62},
	{13277302949477641747ull, -61},
	{11301472114779649677ull, -61},
	{1758629572727645424ull, -61},
	{1422317941289689327ull, -61},
	{9414623732566283491ull, -60},
	{10422157328415826965ull, -60},
	{1076897869833621919ull, -60},
	{1096516048334169358ull, -60},
	{10509738482436128ull, -60},
	{10509738482436129ull, -60},
	{16822798258989077659ull, -59},
	{9962881756733368170ull, -59},
	{1079770531685487794ull, -59},
	{1141007274576482300ull, -59},
	{11000192944949814ull, -59},
	{16745516648681564ull, -59},
	{13879574022952126500ull, -58},
	{10913529641423645695ull, -58},
	{1832835332905966112ull, -58},
	{1041928466656396109ull, -58},
	{10180433343319796ull, -58},
	{10096355435460307ull, -58},
	{10711989991739825367ull, -57},
	{10118781115434129206ull, -57},
	{1387957402295212650ull, -57},
	{1197827825357157145ull, -57},
	{11295166271690188ull, -57},
	{11410072745764823ull, -57},
	{9362058504832223818ull, -56},
	{9286006674057001616ull, -56},
	{1009596096994259956ull, -56},
	{1173109831290469183ull, -56},
	{13307921320923139ull, -56},
	{17126599766054698ull, -56},
	{9768178958179080765ull, -55},
	{12728141031749128988ull, -55},
	{1221402514019787132ull, -55},
	{1072340006448559019ull, -55},
	{11215691629286006ull, -55},
	{12358997033343981ull, -55},
	{11603781205349600944ull, -54},
	{10774505240113312835ull, -54},
	{1450472650668700118ull, -54},
	{1034314091060947918ull, -54},
	{11198551647119617ull, -54},
	{11427212727931212ull, -54},
	{9237028008085248882ull, -53},
	{9352020398571328565ull, -53},
	{1019954328768291442ull, -53},
	{1183376598632176031ull, -53},
	{13856707914870967ull, -53},
	{17355184055710448ull, -53},
	{11755107434583517094ull, -52},
	{10490008271804915981ull, -52},
	{1785663220017589915ull, -52},
	{1392210452323614810ull, -52},
	{10403963990193805ull, -52},
	{11158537877756484ull, -52},
	{10157095139176093566ull, -51},
	{9533621017023614175ull, -51},
	{1428530576014071932ull, -51},
	{1113768361858891848ull, -51},
	{11350610113991990ull, -51},
	{11346038428198875ull, -51},
	{9521520404707852621ull, -50},
	{9660735963917262364ull, -50},
	{1010869268991304735ull, -50},
	{1022969881307066289ull, -50},
	{12107012675871915ull, -50},
	{18159147508069938ull, -50},
	{14005647025216878117ull, -49},
	{12203034901790226144ull, -49},
	{1294152335852059217ull, -49},
	{1525379362723778268ull, -49},
	{13317256774879795ull, -49},
	{12104269664396046ull, -49},
	{12599403227367723637ull, -48},
	{9230199438249921866ull, -48},
	{1127812679430334994ull, -48},
	{1137253497739755081ull, -48},
	{10653805419903836ull, -48},
	{11618343350475648ull, -48},
	{9375471205480474277ull, -47},
	{9413234478718154625ull, -47},
	{1258996240905830355ull, -47},
	{1000434653962236900ull, -47},
	{18934252333730155ull, -47},
	{16221842612498707ull, -47},
	{15324669345360442686ull, -46},
	{11860633006522256470ull, -46},
	{1007196992724664284ull, -46},
	{1007621359350847859ull, -46},
	{15147401866984124ull, -46},
	{14865637751882983ull, -46},
	{10900470358694219191ull, -45},
	{9488506405217805176ull, -45},
	{1317810390357923290ull, -45},
	{1186063300652225647ull, -45},
	{12343332785668212ull, -45},
	{10004346539622369ull, -45},
	{9318962092944332499ull, -44},
	{9639152106207390336ull, -44},
	{1054248312286338632ull, -44},
	{1204894013275923792ull, -44},
	{10014439390542258ull, -44},
	{10004499786469897ull, -44},
	{15004615129417763593ull, -43},
	{10648206708196853420ull, -43},
	{1031515659817522114ull, -43},
	{1027953213273350601ull, -43},
	{15047595433911173ull, -43},
	{11315402239266230ull, -43},
	{9230820778133387306ull, -42},
	{9428947927645075747ull, -42},
	{1097195916800408277ull, -42},
	{1064820670819685342ull, -42},
	{10504459873157338ull, -42},
	{11298427574218887ull, -42},
	{9237295827329531893ull, -41},
	{9228221402564593550ull, -41},
	{1004932313186807863ull, -41},
	{1203059462698496304ull, -41},
	{10169129816452661ull, -41},
	{10309090381073588ull, -41},
	{15389103082890312373ull, -40},
	{9914066098132496942ull, -40},
	{1023057772990844746ull, -40},
	{1000522730610194399ull, -40},
	{13451973179304979ull, -40},
	{12448223605273369ull, -40},
	{13151794903894159574ull, -39},
	{10121267672409123726ull, -39},
	{1032846924668575051ull, -39},
	{1204461254327577748ull, -39},
	{10088547662658383ull, -39},
	{12548598562676530ull, -39},
	{9778039013091118332ull, -38},
	{10004064176766672473ull, -38},
	{1109242294798612721ull, -38},
	{1335267458474166862ull, -38},
	{10487281272620779ull, -38},
	{10038878850141224ull, -38},
	{9774686282047378986ull, -37},
	{9994005983635454435ull, -37},
	{1003006220492527271ull, -37},
	{1078158487199810842ull, -37},
	{12297488280440487ull, -37},
	{10621122758570814ull, -37},
	{9309225030521313320ull, -36},
	{9911642472670207209ull, -36},
	{1163653128815164165ull, -36},
	{1300609319437992388ull, -36},
	{11179083041848128ull, -36},
	{10249977460398515ull, -36},
	{9462464126745640696ull, -35},
	{10667299011043428474ull, -35},
	{1182808015843205087ull, -35},
	{1281454432409951466ull, -35},
	{10357097107386062ull, -35},
	{10474155442524533ull, -35},
	{16907736362613008229ull, -34},
	{14491743228368383304ull, -34},
	{1108296256280724522ull, -34},
	{1106188467731041399ull, -34},
	{15420059545872253ull, -34},
	{10822386008076684ull, -34},
	{11755022868590930471ull, -33},
	{9822228361195230531ull, -33},
	{1289232267780361001ull, -33},
	{1609959493313188909ull, -33},
	{12757605346634427ull, -33},
	{13484840207314510ull, -33},
	{11175184516372220489ull, -32},
	{9628948910455660537ull, -32},
	{1063036979067634967ull, -32},
	{1028013352544795804ull, -32},
	{10888969518573349ull, -32},
	{10787872165851608ull, -32},
	{14337962783196600558ull, -31},
	{12932341287262560936ull, -31},
	{1019062594454899634ull, -31},
	{1019322396400481473ull, -31},
	{11520543290604614ull, -31},
	{12704338538237095ull, -31},
	{12004547963323508597ull, -30},
	{11414228503342505050ull, -30},
	{1574358427913064018ull, -30},
	{1686849715899080282ull, -30},
	{10798744693997454ull, -30},
	{10163470830589676ull, -30},
	{9721702262655007587ull, -29},
	{11150029857742715933ull, -29},
	{1079500681552825192ull, -29},
	{1141422850334250505ull, -29},
	{10175037827814086ull, -29},
	{11046979642354883ull, -29},
	{9308059045753935834ull, -28},
	{9244505438932293373ull, -28},
	{1050190594209521322ull, -28},
	{1105508774801311489ull, -28},
	{12874145651452229ull, -28},
	{14061410998252033ull, -28},
	{14003048942612394967ull, -27},
	{9546175849806104452ull, -27},
	{1035164565177382201ull, -27},
	{1043586606019886176ull, -27},
	{11909527617565141ull, -27},
	{11538542257077955ull, -27},
	{9233329834046344331ull, -26},
	{10138179717955608794ull, -26},
	{1486747303047764035ull, -26},
	{1194114185310013454ull, -26},
	{10848419731979142ull, -26},
	{10915241974163159ull, -26},
	{9472061890392069472ull, -25},
	{9260280364742357051ull, -25},
	{1184007736299008684ull, -25},
	{1004566847484511527ull, -25},
	{15229266181471246ull, -25},
	{10036856346040679ull, -25},
	{9245050478057237342ull, -24},
	{9232389402313856408ull, -24},
	{1008202332286600722ull, -24},
	{1034839385738450801ull, -24},
	{12116036618436965ull, -24},
	{10118151205773529ull, -24},
	{9228279304807074368ull, -23},
	{9225318717653863132ull, -23},
	{1004893374556559138ull, -23},
	{1004153227768256329ull, -23},
	{11247165687677807ull, -23},
	{10106449011004770ull, -23},
	{9225489047821611166ull, -22},
	{9225646208506077528ull, -22},
	{1001194286800455302ull, -22},
	{1000617885438259691ull, -22},
	{10055725283564243ull, -22},
	{10158477721233794ull, -22},
	{9223471861332654953ull, -21},
	{9223450440913438797ull, -21},
	{1000048068817704916ull, -21},
	{1000205229502171278ull, -21},
	{10182160167460097ull, -21},
	{10116332759935176ull, -21},
	{9223408624529838562ull, -20},
	{9223383292555809021ull, -20},
	{1000028243288397789ull, -20},
	{1000084681436419487ull, -20},
	{10020327681559138ull, -20},
	{10043120346381329ull, -20},
	{9223372042179107666ull, -19},
	{9223378598690032959ull, -19},
	{1000004597008228302ull, -19},
	{1000003032386302948ull, -19},
	{10006141965277493ull, -19},
	{10001945192925632ull, -19},
	{9223373889923095703ull, -18},
	{9223372936248779297ull, -18},
	{1000002443790435791ull, -18},
	{1000000298023223877ull, -18},
	{10000613983720541ull, -18},
	{10001372080296278ull, -18},
	{9223372268676757811ull, -17},
	{9223372268676757813ull, -17},
	{1000000333786010742ull, -17},
	{1000000143051147461ull, -17},
	{10000615194439888ull, -17},
	{10000605508685112ull, -17},
	{9223372497558593749ull, -16},
	{9223372497558593751ull, -16},
	{1000000038146972656ull, -16},
	{1000000114440917969ull, -16},
	{10000038743019104ull, -16},
	{10000113844871521ull, -16},
	{9223372558593749999ull, -15},
	{9223372558593750001ull, -15},
	{1000000030517578124ull, -15},
	{1000000030517578126ull, -15},
	{10000002384185791ull, -15},
	{10000028133392334ull, -15},
	{9223372265624999999ull, -14},
	{9223372265625000001ull, -14},
	{1000000048828124999ull, -14},
	{1000000048828125001ull, -14},
	{10000003433227539ull, -14},
	{10000002670288086ull, -14},
	{9223372187499999999ull, -13},
	{9223372187500000001ull, -13},
	{1000000039062499999ull, -13},
	{1000000039062500001ull, -13},
	{10000000305175781ull, -13},
	{10000000915527344ull, -13},
	{9223372499999999999ull, -12},
	{9223372500000000001ull, -12},
	{1000000031249999999ull, -12},
	{1000000031250000001ull, -12},
	{10000000488281249ull, -12},
	{10000000488281251ull, -12},
	{9223372399999999999ull, -11},
	{9223372400000000001ull, -11},
	{1000000049999999999ull, -11},
	{1000000050000000001ull, -11},
	{10000000390624999ull, -11},
	{10000000390625001ull, -11},
	{9223372479999999999ull, -10},
	{9223372480000000001ull, -10},
	{1000000039999999999ull, -10},
	{1000000040000000001ull, -10},
	{10000000312499999ull, -10},
	{10000000312500001ull, -10},
	{9223372287999999999ull, -9},
	{9223372288000000001ull, -9},
	{1000000031999999999ull, -9},
	{1000000032000000001ull, -9},
	{10000000499999999ull, -9},
	{10000000500000001ull, -9},
	{9223372390399999999ull, -8},
	{9223372390400000001ull, -8},
	{1000000051199999999ull, -8},
	{1000000051200000001ull, -8},
	{10000000399999999ull, -8},
	{10000000400000001ull, -8},
	{9223372472319999999ull, -7},
	{9223372472320000001ull, -7},
	{1000000020479999999ull, -7},
	{1000000020480000001ull, -7},
	{10000000319999999ull, -7},
	{10000000320000001ull, -7},
	{9223372537855999999ull, -6},
	{9223372537856000001ull, -6},
	{1000000028671999999ull, -6},
	{1000000028672000001ull, -6},
	{10000000511999999ull, -6},
	{10000000512000001ull, -6},
	{9223372223283199999ull, -5},
	{9223372223283200001ull, -5},
	{1000000035225599999ull, -5},
	{1000000035225600001ull, -5},
	{10000000204799999ull, -5},
	{10000000204800001ull, -5},
	{9223372139397119999ull, -4},
	{9223372139397120001ull, -4},
	{1000000045711359999ull, -4},
	{1000000045711360001ull, -4},
	{10000000286719999ull, -4},
	{10000000286720001ull, -4},
	{9223373011812351999ull, -3},
	{9223373011812352001ull, -3},
	{1000000020545535999ull, -3},
	{1000000020545536001ull, -3},
	{10000000352255999ull, -3},
	{10000000352256001ull, -3},
	{9223372260193075199ull, -2},
	{9223372260193075201ull, -2},
	{1000000080943513599ull, -2},
	{1000000080943513601ull, -2},
	{10000000457113599ull, -2},
	{10000000457113601ull, -2},
	{9223372517891112959ull, -1},
	{9223372517891112961ull, -1},
	{1000000027256422399ull, -1},
	{1000000027256422401ull, -1},
	{10000000205455359ull, -1},
	{10000000205455361ull, -1},
	{9223372586610589695ull, 0},
	{9223372586610589697ull, 0},
	{1000000018666487807ull, 0},
	{1000000018666487809ull, 0},
	{10000000809435135ull, 0},
	{10000000809435137ull, 0},
	{9223373356268729139ull, 1},
	{9223375115487333581ull, 1},
	{1000000272928551731ull, 1},
	{1000000382879714509ull, 1},
	{10000001131557683ull, 1},
	{10000003708538061ull, 1},
	{9223388573509657559ull, 2},
	{9223373092385938473ull, 2},
	{1000001471396226007ull, 2},
	{1000001383435295785ull, 2},
	{10000007745807319ull, 2},
	{10000005684223017ull, 2},
	{9223398214027609899ull, 3},
	{9223416228426119381ull, 3},
	{1000005614356039467ull, 3},
	{1000006036568504533ull, 3},
	{10000053306820395ull, 3},
	{10000063202425045ull, 3},
	{9223426530410266991ull, 4},
	{9223880493252705937ull, 4},
	{1000029532692185455ull, 4},
	{1000061283069558417ull, 4},
	{10000400862445935ull, 4},
	{10000265402613393ull, 4},
	{9224902900440111587ull, 5},
	{9224092973083125277ull, 5},
	{1000063343466387939ull, 5},
	{1000097841039533597ull, 5},
	{10000401654094307ull, 5},
	{10001913878406685ull, 5},
	{9223453029590474439ull, 6},
	{9232298243373818169ull, 6},
	{1000443059965370055ull, 6},
	{1000281074493972793ull, 6},
	{10011781757771463ull, 6},
	{10008125960773945ull, 6},
	{9258516312495405403ull, 7},
	{9260285355252074149ull, 7},
	{1003418195525286235ull, 7},
	{1005187238281954981ull, 7},
	{10057818341292379ull, 7},
	{10067642493519525ull, 7},
	{9410544877077721567ull, 8},
	{9324429572783541793ull, 8},
	{1033849570168599007ull, 8},
	{1019791859912347169ull, 8},
	{10265817360298463ull, 8},
	{10000380962868769ull, 8},
	{9266429689001865695ull, 9},
	{9675929108268096621ull, 9},
	{1060652403383165843ull, 9},
	{1101075417754672237ull, 9},
	{10187790298997651ull, 9},
	{10078408024169581ull, 9},
	{11578776518424510830ull, 10},
	{10351512805283602249ull, 10},
	{1754162993088290999ull, 10},
	{1704601520732249929ull, 10},
	{11269937295909047ull, 10},
	{11226184385977819ull, 10},
	{9263021214739608664ull, 11},
	{10331688216341185821ull, 11},
	{1157877651842451083ull, 11},
	{1138053062900034655ull, 11},
	{11722484904142658ull, 11},
	{10773636777744208ull, 11},
	{9738067028842038954ull, 12},
	{9302298232366659529ull, 12},
	{1187614535256075725ull, 12},
	{1108316179486410013ull, 12},
	{11817369716782503ull, 12},
	{12963366461238032ull, 12},
	{12136862309930420923ull, 13},
	{13482701396468046081ull, 13},
	{1005823773398295773ull, 13},
	{1012934856408141964ull, 13},
	{13418813561909288ull, 13},
	{11361922616111247ull, 13},
	{9375461129419109899ull, 14},
	{11788247272750117383ull, 14},
	{1450423597691716220ull, 14},
	{1380700590255655512ull, 14},
	{12306131554609465ull, 14},
	{10586186746414634ull, 14},
	{9282711025226983808ull, 15},
	{10024711858763992536ull, 15},
	{1160338878153372976ull, 15},
	{1253088982345499067ull, 15},
	{10050111939086418ull, 15},
	{10076209020754439ull, 15},
	{9876568378923736614ull, 16},
	{9765139910459612393ull, 16},
	{1003497933344982548ull, 16},
	{1002214499009253430ull, 16},
	{13384966997507121ull, 16},
	{12137354584524168ull, 16},
	{101235791922809ull, 16},
	{100931890639117ull, 16},
	{119971886518ull, 16},
	{104085616930ull, 16},
	{1499004156ull, 16},
	{1524781175ull, 16},
	{10657433ull, 16},
	{10163362ull, 16},
	{100864ull, 16},
	{107451ull, 16},
	{1576ull, 16},
	{1425ull, 16},
	{9327539099479779320ull, 17},
	{12749369370360974927ull, 17},
	{1054513918970848194ull, 17},
	{1492114729950681267ull, 17},
	{11834406961964971ull, 17},
	{10579630164432785ull, 17},
	{100909186256646ull, 17},
	{100779939997271ull, 17},
	{146369825875ull, 17},
	{135208193933ull, 17},
	{1194047921ull, 17},
	{1219824940ull, 17},
	{10508436ull, 17},
	{10908347ull, 17},
	{100981ull, 17},
	{179358ull, 17},
	{1023ull, 17},
	{1140ull, 17},
	{9633048360877996090ull, 18},
	{10272843027668585523ull, 18},
	{1044182378412102153ull, 18},
	{1238263171346194702ull, 18},
	{10214660140451902ull, 18},
	{10040464645763899ull, 18},
	{143132595473410ull, 18},
	{104957010213334ull, 18},
	{117095860700ull, 18},
	{123361619331ull, 18},
	{1043987541ull, 18},
	{1147095617ull, 18},
	{14672595ull, 18},
	{11104424ull, 18},
	{101222ull, 18},
	{146643ull, 18},
	{1091ull, 18},
	{1029ull, 18},
	{16153325276564344911ull, 19},
	{16893773175723896078ull, 19},
	{1013631452272280476ull, 19},
	{1006405780468449557ull, 19},
	{15164539185806727ull, 19},
	{15386386954014950ull, 19},
	{114506076378728ull, 19},
	{107341691829495ull, 19},
	{104016389310ull, 19},
	{123909573459ull, 19},
	{1025947282ull, 19},
	{1061661123ull, 19},
	{11738076ull, 19},
	{14038943ull, 19},
	{115763ull, 19},
	{113548ull, 19},
	{1601ull, 19},
	{1082ull, 19},
	{1393198157908569141ull, 20},
	{1204847285129074214ull, 20},
	{11421718490379068ull, 20},
	{10331540558746041ull, 20},
	{100235209604462ull, 20},
	{100169035519662ull, 20},
	{100790602723ull, 20},
	{100747643544ull, 20},
	{1170958607ull, 20},
	{1444935671ull, 20},
	{10791142ull, 20},
	{11157819ull, 20},
	{158413ull, 20},
	{105018ull, 20},
	{1253ull, 20},
	{1101ull, 20},
	{10009517137609676ull, 21},
	{10369662377562217ull, 21},
	{128819956308114ull, 21},
	{133585183660136ull, 21},
	{100053345961ull, 21},
	{137139389244ull, 21},
	{1106397992ull, 21},
	{1168336173ull, 21},
	{10856413ull, 21},
	{15523418ull, 21},
	{117469ull, 21},
	{140024ull, 21},
	{1091ull, 21},
	{1058ull, 21},
	{13463692179072260ull, 22},
	{13802425659501406ull, 22},
	{131202569984125ull, 22},
	{102568854457721ull, 22},
	{100046944457ull, 22},
	{100062697244ull, 22},
	{1000013011ull, 22},
	{1002562696ull, 22},
	{11045321ull, 22},
	{12156491ull, 22},
	{101082ull, 22},
	{107987ull, 22},
	{1214ull, 22},
	{1870ull, 22},
	{104962055987300ull, 23},
	{100090950099598ull, 23},
	{100088303260ull, 23},
	{100223801987ull, 23},
	{1017746629ull, 23},
	{1008834718ull, 23},
	{10934204ull, 23},
	{11823140ull, 23},
	{141681ull, 23},
	{158344ull, 23},
	{1542ull, 23},
	{1496ull, 23},
	{100763573747808ull, 24},
	{135778882298637ull, 24},
	{101074927235ull, 24},
	{163768885286ull, 24},
	{1004447797ull, 24},
	{1022133550ull, 24},
	{10058653ull, 24},
	{10089642ull, 24},
	{104470ull, 24},
	{153336ull, 24},
	{1031ull, 24},
	{1160ull, 24},
	{118642949290ull, 25},
	{108055095722ull, 25},
	{1033970075ull, 25},
	{1015031635ull, 25},
	{14256235ull, 25},
	{11888930ull, 25},
	{113794ull, 25},
	{111117ull, 25},
	{1252ull, 25},
	{1079ull, 25},
	{105045372323ull, 26},
	{103218009615ull, 26},
	{1654352120ull, 26},
	{1197511443ull, 26},
	{10458066ull, 26},
	{12435758ull, 26},
	{100184ull, 26},
	{100317ull, 26},
	{1537ull, 26},
	{1174ull, 26},
	{104131690969ull, 27},
	{139705759622ull, 27},
	{1323481696ull, 27},
	{1304665562ull, 27},
	{10003834ull, 27},
	{10033461ull, 27},
	{115745ull, 27},
	{126226ull, 27},
	{1157ull, 27},
	{1039ull, 27},
	{1012575943ull, 28},
	{1059836049ull, 28},
	{16176983ull, 28},
	{10898681ull, 28},
	{109019ull, 28},
	{113558ull, 28},
	{1002ull, 28},
	{1007ull, 28},
	{1039006439ull, 29},
	{1298057938ull, 29},
	{11059973ull, 29},
	{11563342ull, 29},
	{101212ull, 29},
	{103077ull, 29},
	{1306ull, 29},
	{1339ull, 29},
	{10125549ull, 30},
	{10056064ull, 30},
	{120969ull, 30},
	{157126ull, 30},
	{1025ull, 30},
	{1058ull, 30},
	{13932730ull, 31},
	{16705379ull, 31},
	{111238ull, 31},
	{119601ull, 31},
	{1030ull, 31},
	{1022ull, 31},
	{100108ull, 32},
	{104019ull, 32},
	{1598ull, 32},
	{1057ull, 32},
	{140717ull, 33},
	{126820ull, 33},
	{1164ull, 33},
	{1062ull, 33},
	{1043ull, 34},
	{1011ull, 34},
	{1414ull, 35},
	{1171ull, 35},
};
