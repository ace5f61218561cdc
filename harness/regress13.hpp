// a field whose type of critical point once changed: the difference of one component vanishes along a cell
static const double R13_EB = 0.95898470080932374; static const size_t R13_R1 = 9, R13_R2 = 30;
static const double R13_U[] = {
-0.00061442848608347987,3.6487960273719819,-0.0051223652601867552,-0.0054211851943224585,-5.8685837255576038e-05,-0.31353510740140056,3.6366554875969106,0.002210744275392436,0.8550211166006193,9.9838037302545251e-05,
0.033676193011917703,-0.00031296413239894125,-0.63633861095906508,-0.000833556339422676,-2.1696781000317576e-05,0.36634865201402084,-0.00061793145843200465,-0.076401648576110925,0.00040470522872038361,-0.2826079531908432,
0.0016643464520764485,0.011518351047983781,-0.54426765769811103,-3.9635793972976032e-05,1.4867772728311472,-2.5435170011675547e-05,8.7675453151672805e-05,8.8246118124220043,0.00090263136020711163,-0.002345317144690634,
0.60723170692911843,-0.017036980378728753,2.3728220121869168e-05,-0.070396395961236313,-0.00013475643885784168,0.0014506930106889273,-0.10138768446880606,-0.00078813918588659137,-0.1702057481940388,-1.7788847710358557e-05,
0.038699964548980531,1.2961501422095929,-0.00099627856602477432,0.46552258720695411,0.39867702171415964,-0.0073481612748505865,-0.0073806266567295149,-1.6086070600369258e-05,-0.051272457830361676,-0.39712401463694696,
0.00010795139630732837,-0.015987100963647818,-0.017030488701558027,-0.24187274586581425,0.48466169766513295,0.0059590114120638268,1.3145236564436233e-05,0.00059820755467492883,-8.1252480300387102,-0.042140960367784253,
-5.2928920369154397,0.83720256006389815,-1.4528403626013643e-05,0.015281486291592344,-0.047422629248001634,0.021744720391609587,5.4359485692253396e-05,-0.00015392239015377248,0.13420573976955819,0.00020541298143028592,
-0.084283405415179716,0.28130506841555403,-0.00067762708793205561,-0.22243693800761657,-0.0001126861693279627,2.3927808450980423,0.41836743095963635,-4.3072557854181079e-05,3.3209450128088092,7.3117190093850151e-05,
-3.4891587340471086,-0.00016930843506872086,-1.2242747446158038,1.3245570553593973,-0.026682250513656306,-4.3800864726278066,11.00878357299259,6.6032802108074469,-0.00074353151972113046,-7.5848606920518939,
7.7767584467671682,8.9963842934403436e-05,0.018971292931638642,-0.017276865110218188,-0.5560089274144383,-0.061488355765207024,-0.27505481371844692,-0.085125843626446956,0.01750576527714149,-2.2335056009726468,
0.00030088697089963358,0.00017133519448572353,-0.0032934131161740424,-3.3808737236689126,-10.005582665722343,-6.3326746718527218,-2.1657291704722743,0.0011738524430775163,-0.027486562252006783,-0.0016078100251427573,
-0.09765185976797254,0.2466973122561513,0.08870103302929537,-8.8808346644868118e-05,-0.013983170498814279,0.00012739099096167032,1.9453238770475934e-05,3.0461030205889714,0.014422556286213433,0.004821103522909583,
0.057661879050626925,3.2646710857338075,-0.0012629796280893581,0.00026877617773850634,1.3726702165548068,5.8181043178107022e-05,0.012247477972328891,-10.014143397688128,0.600864200132467,-0.0058656048313994093,
-0.00057965815456815129,-0.0059214995726216283,-0.00018047571621390034,-2.232956880755542,-6.2452532202546225e-05,0.00010455935589782996,-10.059644386834574,4.1169438838128372,-0.010129460976435946,2.4004147139163754e-05,
1.1535786697323998,-3.0758160662861561e-05,-0.0027865306374457353,-0.99421449099198822,0.022960531350130303,0.0054026375212788387,5.5256241555391318e-05,0.00014542607767258417,-0.00012165028574545661,-4.5434212025872742e-05,
-0.0047742955432058289,-1.3785645404621572,-0.00021232882716098087,8.1320692078702841,-0.0011627966037331286,-4.6885286473473089,-0.012987621813892987,-0.021452936876012112,0.0026180839696643339,-9.7522968662335191e-05,
7.1242973116479726,4.6579060337489612e-05,0.00034365675998260524,1.0109735124205705,-1.8275287419875215,-3.4988506059799295e-05,-0.0058821066864589806,-4.2125931584312131,0.001959975290941014,-4.0364823036102653,
0.75093608541963563,0.0016903825062085415,1.4969664055933338,-0.10559942844058005,-2.3211309298355084e-05,-0.09409058302483321,-0.00058818962136730638,-0.00010303403567521866,8.5844405350316653e-05,4.6934307881468355e-05,
4.2293243893270681e-05,-0.0005488424029422216,-1.472865096288666,-1.871353644872096e-05,-2.7416354529514097e-05,-0.0035139834688638519,0.021484263247847957,-0.43784787833441147,1.4792186542417672e-05,0.0020937821126702305,
0.00036475236478824462,0.00048274293944466803,7.4658469309542541,0.0035621384274068741,0.00060606942301054563,-0.0035178843857225995,-0.00011160430907023505,-0.00086407748823116317,0.0007938536870470864,6.8268677220145865e-05,
-0.024794923993768633,-0.020798085625991305,-0.00024547170598769212,8.0335153792939737e-05,-0.0033169138758114103,0.00015058119733642555,0.0048125640560975876,0.010993590255574703,0.010618934446129734,-0.00030010411257412351,
1.5476307550897925e-05,2.2833560793136525,-0.00018524424482557324,-0.0018935755541961904,1.727728787217137e-05,-7.1282230763081102e-05,2.4532702878836923,-0.00027132105612836198,-0.0012921334685335954,-4.4164117441844775e-05,
-8.3777892352942374,-1.7370893655557649,-1.3297608269799222,-0.0001339444834169138,-0.011648205478009063,0.043656003495117578,-0.0012333777181808363,-0.00031902840889966896,-1.1138821486390291,5.6227706016716351e-05,
-4.0158144224158123,-0.010650858817242129,-0.0068207580905424751,0.21215620418041845,0.033037090622874805,0.1302915647314295,0.00034314596347263788,-7.3093258046694745,-6.8062368987157589,0.090310091986993996,
-0.13747426664263176,0.069613132712421477,-5.1274549773974574,0.094006924588611956,0.00023422688954126316,-0.00033565927136990824,0.092167461944293788,0.048721706767805469,-0.00041489063460799084,-0.10205302986955814,
0.062529749954623223,-1.3509775987662247e-05,0.0017508222323271555,-0.042461533867428361,-0.00086482730463343076,0.01823859683725192,-0.21759667625804646,0.36900662047095034,-0.006438136510852629,-0.23757900696200701,
0.095982521962317408,1.7959502208373919e-05,0.00013510855704810295,0.00060203568855858743,6.7724277267021815,2.4158388009172462e-05,0.00027029485999833255,-0.00012537667000421399,6.4201848723044055,0.83486209014741763,
};
static const double R13_V[] = {
-8.4451567285223437,0.02677199953932112,0.013764694372725149,0.00024451192696683445,2.0104383138110728e-05,1.5288355186770155,-8.8931701755239591e-05,2.3282642629553583e-05,-3.4977989513490949e-05,-1.4075809016559955,
-0.065875779675163254,0.022906009489491494,-5.7707567936115103e-05,1.808267189126975,10.535878645759112,-4.1665115132529346e-05,-0.25775228896081265,-0.0019074491450153616,0.0096053618127431156,0.025228457404942665,
6.6509561874750187e-05,0.019705512354009337,0.00036833669586534791,3.5091500847102391e-05,-5.5922163171566339,0.47045071966463686,0.32394937247362965,-6.1013259087948876e-05,-0.27963223422716943,-0.00020184769597131051,
6.3508754182269564,-0.0011317777010550411,2.6938233384063555,-2.0477105087078729e-05,-0.069196234469015613,0.00047342772013141967,-0.024707739477562204,0.001176677030566621,0.013905274474676009,3.7540601810531529,
-0.00042811675981670909,-1.305619714282467,-0.0060255215708989703,4.0009431971088425,0.017591921754200227,0.012734636448938198,0.0012165695488377418,0.056906997177502409,0.0029764746470004526,-0.025131262623233477,
0.001603294376777001,-0.60745852509259046,-2.3688481532091679,-0.056878022139683765,0.89293995259869163,3.5825674288307153e-05,-0.33977188481298976,-0.14041035427330922,-0.00022548254741894188,0.0081487782218583171,
-2.2615878751063241e-05,-0.035785533812991377,0.0034556084370444165,0.12381385765586626,7.1451506725946269e-05,-6.4696603747362019e-05,-0.0013726450126365863,8.4883763673393057e-05,0.015594278281199178,0.49838957443313181,
-0.00044167735437692794,-0.58514759264559446,5.1805432105827807,-0.037987002075064995,1.565120815045786,-0.0035201469502973309,-0.087185858957982171,-0.00012129016959489412,0.02984513779416911,9.2609981845332197,
-0.0012245933641496271,0.30287191968041893,-1.7974530990627709e-05,0.00053268810119242479,-0.00014511323095830125,6.0490845496718264e-05,-1.9762632192091771,-1.5801709284099903,9.3415560303753651,0.016679276900759855,
0.017279947741172728,5.0457342946827561e-05,0.12024625055445083,0.00040997611926436297,-0.0012091594904091903,4.8741311622830072e-05,0.06059503431172801,-0.094574681370760139,0.00010371451024640599,0.85423387904201775,
0.0011865911568880968,-0.00032686157072231057,3.6531881595348792,0.013024776764384821,0.27753732217115673,-0.003314726483483646,-0.036643189070219323,-0.0024302235299462761,1.3264702743217598,-5.4060520669239779e-05,
-0.0070214420228781639,4.042467011424196e-05,0.66509633474744101,1.7697098731512827e-05,1.2328141675447113,0.28678729333678871,0.0090685934834368806,-0.000560462533865614,-0.0024111549735664995,1.5768903794606103e-05,
-2.1360371994916307,-8.3881024993644448e-05,0.045427814586176209,0.0078837747602780398,-0.0015881355025454164,-2.0720391145691708,-0.00017161679373466592,-0.15710511709214445,-0.0068725648080328961,-0.02546144961197325,
-0.0047792724143525863,0.00089891829453030874,-0.00010381664461773018,-0.85952958689466796,-0.046958353894472372,-2.6940967520210313,-0.023990013953539009,-0.0011583155812232972,-0.0028829181952861362,0.96601195860709799,
-2.2201591369066276,4.2841468997616593e-05,-0.12162939557271141,-0.12606525096899274,0.25045646249500136,-0.096821147115496053,0.0052491605493289557,-0.00076472323038894244,-0.00035356768494332742,0.55767124211931485,
0.003294591121151613,0.00062298449259631545,0.00016433525987092303,5.6910961548925103,0.0076962313329356179,0.0081386678148062126,0.0060725329499274113,-0.0011278462585144272,3.4168097587226276,-1.2753744267056273,
-0.11857993448105802,0.016584950495784651,-0.14276490452503784,0.0069704538074499079,-0.025160599877450535,5.012422174538103,-0.54275807625469663,0.55540348346383916,2.7163091544209496e-05,-0.0010126139229950388,
-7.8658826476993808e-05,0.00040206240250449313,0.0027279152933125969,-0.074038962345476439,-10.725479755166832,0.00031568757310513186,0.010011943302320322,4.4687547396448557e-05,0.00020797189219989024,0.0013719677298566569,
1.53875723005268e-05,1.5418857767129464e-05,-0.10795546241201433,0.019123515929133996,-0.00016242553940639984,0.0052344389985004586,-1.4586199812196688e-05,4.9885654958495358e-05,1.3266349903217645,1.0923605694544165,
0.036054665078231109,0.00027582681341005054,-2.1702661817184574,0.28652164619435716,-0.0088825886732230089,8.6099222180305014e-05,2.7303888724317072e-05,11.384784077165168,0.038780036075939071,0.0003888606005059202,
-11.507469743057241,-0.18929948875199265,0.098145471603019827,9.3280109913411575,-4.5871746397937484e-05,-1.7180377108596201,-1.4183306825102044,-0.0077769690790092773,0.23545475432693261,0.018909781192268649,
0.072560320517868898,2.1601923071678746,-0.0028854079499836616,0.0093098894580158058,-0.00099921788548706448,2.212124930446963e-05,-1.9736302000330866e-05,-9.6531387059221601,-0.13078272023815862,-11.280802239977366,
-0.00013496384945335308,-2.1499089773931206,0.013805114770063024,-0.066862656755724212,1.643334056460232e-05,3.3051391676400107e-05,0.0001838635338418092,-0.069279169848462704,-0.0020422648406711597,0.0066101335155047403,
0.0047592755088427833,2.6793268327958515,-0.60752284816893276,-0.035041131462937761,-0.0001447367828180093,4.3360777726068738e-05,-0.00083824948673655872,-3.7713453157674433e-05,-0.0010909316223323415,3.3238971625574711,
-0.036377035480020713,-3.1487561448692225,0.017202933758151302,0.0030268573319112233,-0.00051834161328879113,3.740343400987049e-05,-0.00015269951995658013,-0.085378079824691214,-2.6976014648654636,0.0017908494153182149,
2.7674548205576914,0.012491620923939533,0.18462917825942415,-0.0052693231485649505,-0.00060471815279985346,0.18421485457489256,-2.2061752335147711,-0.29339418831743985,0.0232899985097486,-0.043858845128276154,
0.0061637957288290211,0.0021778419753505441,3.655131155418904e-05,-0.03708204406564166,2.604104663346543e-05,0.0094700758227109477,-1.4511423063459941e-05,2.6960071122645509e-05,8.0540605834960783e-05,-3.6983349552191265,
};
