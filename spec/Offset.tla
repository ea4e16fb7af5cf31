------------------------------- MODULE Offset --------------------------------
(***************************************************************************)
(* The Chinese coordinate offsets.  Positions are counted in half          *)
(* microdegrees as in Utm; offsets in 1e-7 degree.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
Window == <<147320000, 270100000, 7720000, 107100000>>
Inside(lon, lat) == Window[1] < lon /\ lon < Window[2] /\ Window[3] < lat /\ lat < Window[4]

\* the published offsets at some places: longitude, latitude (millidegrees),
\* WGS84 to GCJ02 (east, north), GCJ02 to BD09 (east, north)
Table == <<
  <<74162, 4401, 27336, -7104, 64691, 62202>>,
  <<74939, 10415, 24245, -19365, 65121, 57728>>,
  <<74170, 16215, 26985, -17875, 64717, 61957>>,
  <<74277, 22771, 26022, -30809, 64134, 62142>>,
  <<74806, 28266, 25848, -38569, 65572, 58310>>,
  <<74198, 34113, 28412, -20319, 65596, 59177>>,
  <<74729, 40533, 28768, 3828, 64890, 59788>>,
  <<74243, 46561, 31514, 4724, 65509, 59207>>,
  <<74011, 52452, 36875, -2238, 65014, 60184>>,
  <<80641, 4123, 17092, -9180, 65032, 62424>>,
  <<80791, 10281, 19039, -18392, 64839, 59851>>,
  <<80944, 16379, 19066, -20467, 65491, 57627>>,
  <<80272, 22353, 18600, -30676, 64578, 62253>>,
  <<80596, 28150, 17643, -39147, 65471, 58349>>,
  <<80701, 34778, 20914, -16068, 65874, 57510>>,
  <<80798, 40929, 23150, 7598, 65580, 59055>>,
  <<80767, 46904, 25503, 7680, 63558, 62187>>,
  <<80530, 52395, 25103, -1306, 63520, 62015>>,
  <<86869, 4796, 17403, -11075, 64838, 62183>>,
  <<86057, 10135, 20100, -16648, 64860, 61631>>,
  <<86618, 16913, 17123, -19224, 64723, 61043>>,
  <<86866, 22992, 19187, -30859, 64374, 61907>>,
  <<86973, 28878, 21836, -34860, 64711, 60357>>,
  <<86745, 34654, 22914, -15750, 64083, 61768>>,
  <<86407, 40228, 26097, 7482, 64054, 62504>>,
  <<86281, 46679, 26778, 8571, 63592, 62580>>,
  <<86417, 52465, 32872, 3400, 64175, 61732>>,
  <<92101, 4413, 9488, -8165, 64935, 57231>>,
  <<92403, 10379, 9083, -16750, 64703, 62739>>,
  <<92820, 16038, 7537, -19009, 65322, 57188>>,
  <<92626, 22473, 6783, -31813, 64691, 62112>>,
  <<92043, 28042, 11960, -34629, 63994, 62674>>,
  <<92405, 34667, 12809, -12792, 63878, 62633>>,
  <<92331, 40402, 13360, 8375, 65913, 57459>>,
  <<92032, 46886, 16847, 11778, 63541, 62433>>,
  <<92106, 52624, 20554, 5768, 66465, 57351>>,
  <<98463, 4629, 1424, -9761, 65046, 57078>>,
  <<98857, 10827, 1695, -18764, 65080, 61084>>,
  <<98374, 16930, 3517, -15501, 64993, 60631>>,
  <<98409, 22184, 4541, -27270, 64262, 62598>>,
  <<98010, 28138, 3956, -34959, 65020, 60006>>,
  <<98665, 34768, 4609, -13661, 64542, 60700>>,
  <<98796, 40212, 7807, 8023, 65482, 59128>>,
  <<98575, 46656, 6021, 10066, 66180, 57062>>,
  <<98630, 52286, 8456, 3957, 63469, 62471>>,
  <<104003, 4885, 15611, -10735, 64860, 58873>>,
  <<104396, 10673, 19741, -16513, 64616, 63056>>,
  <<104418, 16335, 21306, -16969, 64852, 61863>>,
  <<104784, 22567, 24149, -29540, 64861, 60986>>,
  <<104784, 28597, 26611, -33910, 64915, 61021>>,
  <<104919, 34109, 29146, -17387, 65654, 58633>>,
  <<104047, 40870, 30324, 14152, 63762, 62878>>,
  <<104870, 46529, 37741, 11625, 63609, 62644>>,
  <<104348, 52500, 42490, 8954, 66439, 57140>>,
  <<110401, 4920, 38794, -9417, 64853, 63307>>,
  <<110801, 10584, 40396, -19401, 65362, 58208>>,
  <<110962, 16229, 43341, -19609, 65396, 58675>>,
  <<110643, 22974, 44009, -29123, 64380, 63291>>,
  <<110802, 28332, 49743, -34195, 65613, 58075>>,
  <<110865, 34055, 53674, -16252, 64093, 62295>>,
  <<110176, 40288, 59337, 11979, 64004, 62143>>,
  <<110570, 46904, 66365, 14569, 66082, 57069>>,
  <<110380, 52972, 81941, 13773, 64279, 61691>>,
  <<116247, 4701, 36563, -12373, 65200, 59462>>,
  <<116178, 10129, 39589, -18635, 64930, 62058>>,
  <<116637, 16387, 39751, -20138, 64443, 63446>>,
  <<116470, 22817, 45709, -26992, 65745, 57004>>,
  <<116770, 28354, 49319, -33033, 64453, 63080>>,
  <<116511, 34213, 53402, -13553, 64206, 63150>>,
  <<116691, 40437, 60475, 12494, 66051, 56871>>,
  <<116896, 46581, 68880, 14990, 64230, 62413>>,
  <<116999, 52832, 85110, 13382, 63598, 63587>>,
  <<122122, 4290, 29147, -10797, 64852, 58503>>,
  <<122479, 10628, 30257, -18585, 65093, 57992>>,
  <<122256, 16647, 32539, -18038, 64650, 61107>>,
  <<122715, 22715, 36472, -27966, 65672, 57432>>,
  <<122955, 28237, 40612, -33540, 65781, 57434>>,
  <<122006, 34828, 46285, -7593, 65408, 59294>>,
  <<122136, 40329, 53553, 15539, 64712, 61161>>,
  <<122308, 46886, 61077, 20121, 64670, 60314>>,
  <<122833, 52250, 70851, 12725, 66310, 57175>>,
  <<128315, 4100, 30113, -11557, 65205, 59009>>,
  <<128769, 10484, 34058, -19992, 64868, 63454>>,
  <<128534, 16730, 35301, -18596, 64726, 62878>>,
  <<128054, 22779, 41266, -25731, 64317, 62824>>,
  <<128313, 28268, 44704, -30978, 65053, 59380>>,
  <<128251, 34459, 49795, -9918, 65108, 60245>>,
  <<128925, 40707, 59066, 15725, 66052, 57325>>,
  <<128350, 46496, 68490, 21297, 66247, 56680>>,
  <<128882, 52672, 80966, 14843, 63353, 63815>>,
  <<134351, 4746, 32928, -12563, 65058, 56618>>,
  <<134132, 10687, 36763, -17750, 65038, 60426>>,
  <<134744, 16980, 39204, -16237, 64659, 62705>>,
  <<134699, 22948, 42943, -26444, 65884, 55998>>,
  <<134335, 28831, 49295, -27408, 66031, 56149>>,
  <<134285, 34072, 53965, -10329, 63934, 63871>>,
  <<134948, 40822, 62986, 18370, 66294, 56354>>,
  <<134164, 46756, 74960, 23448, 63488, 63888>>,
  <<134753, 52333, 87114, 17749, 63652, 63820>>>>
==============================================================================
