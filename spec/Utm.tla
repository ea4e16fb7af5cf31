--------------------------------- MODULE Utm ---------------------------------
(***************************************************************************)
(* The UTM grid.  Latitudes and longitudes are counted in half             *)
(* microdegrees: 2k is k microdegrees, 2k-1 and 2k+1 lie just below and    *)
(* just above.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Deg == 2000000
Abs(x) == IF x < 0 THEN -x ELSE x
InRange(lat, lon) == -80 * Deg <= lat /\ lat <= 84 * Deg /\ -180 * Deg <= lon /\ lon <= 180 * Deg
\* the antimeridian counts as -180
Lon(lon) == IF lon = 180 * Deg THEN -180 * Deg ELSE lon
Within(v, lo, hi) == lo * Deg <= v /\ v < hi * Deg
Plain(lon) == (lon + 180 * Deg) \div (6 * Deg) + 1
Norway(lat) == Within(lat, 56, 64)
Svalbard(lat) == 72 * Deg <= lat /\ lat <= 84 * Deg
Zone(lat, lon0) ==
  LET lon == Lon(lon0) IN
  IF Norway(lat) /\ Within(lon, 3, 12) THEN 32
  ELSE IF Svalbard(lat) /\ Within(lon, 0, 42)
       THEN IF Within(lon, 0, 9) THEN 31 ELSE IF Within(lon, 9, 21) THEN 33
            ELSE IF Within(lon, 21, 33) THEN 35 ELSE 37
       ELSE Plain(lon)
Central(z) == 6 * z - 183
Letters == <<"C", "D", "E", "F", "G", "H", "J", "K", "L", "M", "N", "P", "Q", "R", "S", "T", "U", "V", "W", "X">>
Band(lat) == LET k == (lat + 80 * Deg) \div (8 * Deg) + 1 IN Letters[IF k > 20 THEN 20 ELSE k]
Hemi(lat) == IF lat >= 0 THEN "N" ELSE "S"

(*------------- a second definition: the extent of every cell --------------*)
\* <<west, east>> of zone z in the band that holds lat, whole degrees; west = east for none
Extent(lat, z) ==
  IF Norway(lat) /\ z = 31 THEN <<0, 3>> ELSE IF Norway(lat) /\ z = 32 THEN <<3, 12>>
  ELSE IF Svalbard(lat) /\ z \in {32, 34, 36} THEN <<0, 0>>
  ELSE IF Svalbard(lat) /\ z = 31 THEN <<0, 9>> ELSE IF Svalbard(lat) /\ z = 33 THEN <<9, 21>>
  ELSE IF Svalbard(lat) /\ z = 35 THEN <<21, 33>> ELSE IF Svalbard(lat) /\ z = 37 THEN <<33, 42>>
  ELSE <<Central(z) - 3, Central(z) + 3>>
BandFrom(k) == -80 + 8 * (k - 1)

(*--------------- the projection (scale 0.9996, WGS84), in cm ---------------*)
\* row: latitude 0, 4, ..., 84; column: 0, 1, 2, 3, 6 degrees from the central meridian
Offsets == <<0, 1, 2, 3, 6>>
EastCm == <<
  <<0, 11128065, 22259544, 33397856, 66888169>>,
  <<0, 11101133, 22205638, 33316893, 66725117>>,
  <<0, 11020460, 22044170, 33074384, 66236763>>,
  <<0, 10886417, 21775885, 32671459, 65425503>>,
  <<0, 10699621, 21402025, 32110000, 64295316>>,
  <<0, 10460932, 20924323, 31392632, 62851745>>,
  <<0, 10171455, 20344999, 30522719, 61101865>>,
  <<0, 9832534, 19666754, 29504349, 59054248>>,
  <<0, 9445746, 18892764, 28342323, 56718918>>,
  <<0, 9012905, 18026666, 27042137, 54107300>>,
  <<0, 8536046, 17072549, 25609965, 51232162>>,
  <<0, 8017426, 16034941, 24052632, 48107550>>,
  <<0, 7459511, 14918787, 22377592, 44748719>>,
  <<0, 6864970, 13729437, 20592892, 41172056>>,
  <<0, 6236663, 12472615, 18707144, 37395003>>,
  <<0, 5577627, 11154404, 16729482, 33435967>>,
  <<0, 4891064, 9781211, 14669523, 29314234>>,
  <<0, 4180327, 8359739, 12537318, 25049875>>,
  <<0, 3448902, 6896954, 10343305, 20663650>>,
  <<0, 2700387, 5400049, 8098257, 16176903>>,
  <<0, 1938480, 3876406, 5813222, 11611465>>,
  <<0, 1166952, 2333556, 3499466, 6989548>>>>
NorthCm == <<
  <<0, 0, 0, 0, 0>>,
  <<44212739, 44219497, 44239782, 44273625, 44457128>>,
  <<88429785, 88443171, 88483347, 88550376, 88913789>>,
  <<132655364, 132675117, 132734406, 132833318, 133369532>>,
  <<176893538, 176919276, 176996528, 177125402, 177823927>>,
  <<221148131, 221179356, 221273072, 221429403, 222276581>>,
  <<265422654, 265458759, 265567120, 265747871, 266727144>>,
  <<309720237, 309760523, 309881425, 310083082, 311175321>>,
  <<354043569, 354087253, 354218349, 354436991, 355620873>>,
  <<398394845, 398441079, 398579821, 398811196, 400063624>>,
  <<442775722, 442823606, 442967297, 443206906, 444503464>>,
  <<487187284, 487235889, 487381733, 487624913, 488940343>>,
  <<531630022, 531678401, 531823561, 532065579, 533374275>>,
  <<576103821, 576151032, 576292681, 576528825, 577805330>>,
  <<620607959, 620653081, 620788460, 621014133, 622233634>>,
  <<665141119, 665183274, 665309744, 665520548, 666659357>>,
  <<709701416, 709739780, 709854875, 710046705, 711082715>>,
  <<754286430, 754320255, 754421728, 754590845, 755503958>>,
  <<798893250, 798921875, 799007747, 799150854, 799923364>>,
  <<843518537, 843541403, 843609996, 843724304, 844341237>>,
  <<888158582, 888175241, 888225217, 888308496, 888757901>>,
  <<932809383, 932819511, 932849892, 932900518, 933173690>>>>
==============================================================================
