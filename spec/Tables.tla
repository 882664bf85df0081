------------------------------ MODULE Tables ------------------------------
(* Constants in fixed point, written by tools/gen_tables.py.                *)

\* 1 - 1/(2^b - 1) in 10^-9, for b = 2, 3, ..., 64
MissG == <<666666667, 857142857, 933333333, 967741935, 984126984, 992125984, 996078431, 998043053, 999022483, 
    999511480, 999755800, 999877915, 999938961, 999969481, 999984741, 999992371, 999996185, 999998093, 
    999999046, 999999523, 999999762, 999999881, 999999940, 999999970, 999999985, 999999993, 999999996, 
    999999998, 999999999, 1000000000, 1000000000, 1000000000, 1000000000, 1000000000, 1000000000, 
    1000000000, 1000000000, 1000000000, 1000000000, 1000000000, 1000000000, 1000000000, 1000000000, 
    1000000000, 1000000000, 1000000000, 1000000000, 1000000000, 1000000000, 1000000000, 1000000000, 
    1000000000, 1000000000, 1000000000, 1000000000, 1000000000, 1000000000, 1000000000, 1000000000, 
    1000000000, 1000000000, 1000000000, 1000000000>>

\* -ln(1 - 1/(2^b - 1)) in 10^-9, for b = 2, 3, ..., 64
MissLnG == <<405465108, 154150680, 68992871, 32789823, 16000341, 7905180, 3929278, 1958864, 977995, 488639, 
    244230, 122093, 61041, 30519, 15259, 7629, 3815, 1907, 954, 477, 238, 119, 60, 30, 15, 7, 4, 2, 1, 
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>

\* integer part of -log2(-ln(1 - 1/(2^b - 1))), for b = 2, 3, ..., 64
MissLog2I == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 
    28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 
    53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63>>

\* its fraction in 10^-9
MissLog2F == <<302350324, 697586842, 857408882, 930608083, 965753506, 982986061, 991519989, 995766689, 997885012, 
    998942922, 999471565, 999735808, 999867910, 999933957, 999966978, 999983489, 999991744, 999995872, 
    999997936, 999998968, 999999484, 999999742, 999999871, 999999935, 999999967, 999999983, 999999991, 
    999999995, 999999997, 999999998, 999999999, 999999999, 999999999, 999999999, 999999999, 999999999, 
    999999999, 999999999, 999999999, 999999999, 999999999, 999999999, 999999999, 999999999, 999999999, 
    999999999, 999999999, 999999999, 999999999, 999999999, 999999999, 999999999, 999999999, 999999999, 
    999999999, 999999999, 999999999, 999999999, 999999999, 999999999, 999999999, 999999999, 999999999>>

\* m ln(m/(m-1)) in 10^-9 for m = 2^p, p = 1, ..., 24: the estimate of a HyperLogLog of m registers for one item
OneG == <<1386294361, 1150728290, 1068251141, 1032616338, 1015958346, 1007894846, 1003926715, 1001958226, 
    1000977836, 1000488599, 1000244220, 1000122090, 1000061040, 1000030519, 1000015259, 1000007629, 
    1000003815, 1000001907, 1000000954, 1000000477, 1000000238, 1000000119, 1000000060, 1000000030>>

\* floor(ln(n) * 10^6) for n = 1, ..., 4096
LnMicro == <<0, 693147, 1098612, 1386294, 1609437, 1791759, 1945910, 2079441, 2197224, 2302585, 2397895, 
    2484906, 2564949, 2639057, 2708050, 2772588, 2833213, 2890371, 2944438, 2995732, 3044522, 3091042, 
    3135494, 3178053, 3218875, 3258096, 3295836, 3332204, 3367295, 3401197, 3433987, 3465735, 3496507, 
    3526360, 3555348, 3583518, 3610917, 3637586, 3663561, 3688879, 3713572, 3737669, 3761200, 3784189, 
    3806662, 3828641, 3850147, 3871201, 3891820, 3912023, 3931825, 3951243, 3970291, 3988984, 4007333, 
    4025351, 4043051, 4060443, 4077537, 4094344, 4110873, 4127134, 4143134, 4158883, 4174387, 4189654, 
    4204692, 4219507, 4234106, 4248495, 4262679, 4276666, 4290459, 4304065, 4317488, 4330733, 4343805, 
    4356708, 4369447, 4382026, 4394449, 4406719, 4418840, 4430816, 4442651, 4454347, 4465908, 4477336, 
    4488636, 4499809, 4510859, 4521788, 4532599, 4543294, 4553876, 4564348, 4574710, 4584967, 4595119, 
    4605170, 4615120, 4624972, 4634728, 4644390, 4653960, 4663439, 4672828, 4682131, 4691347, 4700480, 
    4709530, 4718498, 4727387, 4736198, 4744932, 4753590, 4762173, 4770684, 4779123, 4787491, 4795790, 
    4804021, 4812184, 4820281, 4828313, 4836281, 4844187, 4852030, 4859812, 4867534, 4875197, 4882801, 
    4890349, 4897839, 4905274, 4912654, 4919980, 4927253, 4934473, 4941642, 4948759, 4955827, 4962844, 
    4969813, 4976733, 4983606, 4990432, 4997212, 5003946, 5010635, 5017279, 5023880, 5030437, 5036952, 
    5043425, 5049856, 5056245, 5062595, 5068904, 5075173, 5081404, 5087596, 5093750, 5099866, 5105945, 
    5111987, 5117993, 5123963, 5129898, 5135798, 5141663, 5147494, 5153291, 5159055, 5164785, 5170483, 
    5176149, 5181783, 5187385, 5192956, 5198497, 5204006, 5209486, 5214935, 5220355, 5225746, 5231108, 
    5236441, 5241747, 5247024, 5252273, 5257495, 5262690, 5267858, 5272999, 5278114, 5283203, 5288267, 
    5293304, 5298317, 5303304, 5308267, 5313205, 5318119, 5323009, 5327876, 5332718, 5337538, 5342334, 
    5347107, 5351858, 5356586, 5361292, 5365976, 5370638, 5375278, 5379897, 5384495, 5389071, 5393627, 
    5398162, 5402677, 5407171, 5411646, 5416100, 5420534, 5424950, 5429345, 5433722, 5438079, 5442417, 
    5446737, 5451038, 5455321, 5459585, 5463831, 5468060, 5472270, 5476463, 5480638, 5484796, 5488937, 
    5493061, 5497168, 5501258, 5505331, 5509388, 5513428, 5517452, 5521460, 5525452, 5529429, 5533389, 
    5537334, 5541263, 5545177, 5549076, 5552959, 5556828, 5560681, 5564520, 5568344, 5572154, 5575949, 
    5579729, 5583496, 5587248, 5590986, 5594711, 5598421, 5602118, 5605802, 5609471, 5613128, 5616771, 
    5620400, 5624017, 5627621, 5631211, 5634789, 5638354, 5641907, 5645446, 5648974, 5652489, 5655991, 
    5659482, 5662960, 5666426, 5669880, 5673323, 5676753, 5680172, 5683579, 5686975, 5690359, 5693732, 
    5697093, 5700443, 5703782, 5707110, 5710427, 5713732, 5717027, 5720311, 5723585, 5726847, 5730099, 
    5733341, 5736572, 5739792, 5743003, 5746203, 5749392, 5752572, 5755742, 5758901, 5762051, 5765191, 
    5768320, 5771441, 5774551, 5777652, 5780743, 5783825, 5786897, 5789960, 5793013, 5796057, 5799092, 
    5802118, 5805134, 5808142, 5811140, 5814130, 5817111, 5820082, 5823045, 5826000, 5828945, 5831882, 
    5834810, 5837730, 5840641, 5843544, 5846438, 5849324, 5852202, 5855071, 5857933, 5860786, 5863631, 
    5866468, 5869296, 5872117, 5874930, 5877735, 5880532, 5883322, 5886104, 5888877, 5891644, 5894402, 
    5897153, 5899897, 5902633, 5905361, 5908082, 5910796, 5913503, 5916202, 5918893, 5921578, 5924255, 
    5926926, 5929589, 5932245, 5934894, 5937536, 5940171, 5942799, 5945420, 5948034, 5950642, 5953243, 
    5955837, 5958424, 5961005, 5963579, 5966146, 5968707, 5971261, 5973809, 5976350, 5978885, 5981414, 
    5983936, 5986452, 5988961, 5991464, 5993961, 5996452, 5998936, 6001414, 6003887, 6006353, 6008813, 
    6011267, 6013715, 6016157, 6018593, 6021023, 6023447, 6025865, 6028278, 6030685, 6033086, 6035481, 
    6037870, 6040254, 6042632, 6045005, 6047372, 6049733, 6052089, 6054439, 6056784, 6059123, 6061456, 
    6063785, 6066108, 6068425, 6070737, 6073044, 6075346, 6077642, 6079933, 6082218, 6084499, 6086774, 
    6089044, 6091309, 6093569, 6095824, 6098074, 6100318, 6102558, 6104793, 6107022, 6109247, 6111467, 
    6113682, 6115892, 6118097, 6120297, 6122492, 6124683, 6126869, 6129050, 6131226, 6133398, 6135564, 
    6137727, 6139884, 6142037, 6144185, 6146329, 6148468, 6150602, 6152732, 6154858, 6156978, 6159095, 
    6161207, 6163314, 6165417, 6167516, 6169610, 6171700, 6173786, 6175867, 6177944, 6180016, 6182084, 
    6184148, 6186208, 6188264, 6190315, 6192362, 6194405, 6196444, 6198478, 6200509, 6202535, 6204557, 
    6206575, 6208590, 6210600, 6212606, 6214608, 6216606, 6218600, 6220590, 6222576, 6224558, 6226536, 
    6228511, 6230481, 6232448, 6234410, 6236369, 6238324, 6240275, 6242223, 6244166, 6246106, 6248042, 
    6249975, 6251903, 6253828, 6255750, 6257667, 6259581, 6261491, 6263398, 6265301, 6267200, 6269096, 
    6270988, 6272877, 6274762, 6276643, 6278521, 6280395, 6282266, 6284134, 6285998, 6287858, 6289715, 
    6291569, 6293419, 6295266, 6297109, 6298949, 6300785, 6302618, 6304448, 6306275, 6308098, 6309918, 
    6311734, 6313548, 6315358, 6317164, 6318968, 6320768, 6322565, 6324358, 6326149, 6327936, 6329720, 
    6331501, 6333279, 6335054, 6336825, 6338594, 6340359, 6342121, 6343880, 6345636, 6347389, 6349138, 
    6350885, 6352629, 6354370, 6356107, 6357842, 6359573, 6361302, 6363028, 6364750, 6366470, 6368187, 
    6369900, 6371611, 6373319, 6375024, 6376726, 6378426, 6380122, 6381816, 6383506, 6385194, 6386879, 
    6388561, 6390240, 6391917, 6393590, 6395261, 6396929, 6398594, 6400257, 6401917, 6403574, 6405228, 
    6406879, 6408528, 6410174, 6411818, 6413458, 6415096, 6416732, 6418364, 6419994, 6421622, 6423246, 
    6424869, 6426488, 6428105, 6429719, 6431331, 6432940, 6434546, 6436150, 6437751, 6439350, 6440946, 
    6442540, 6444131, 6445719, 6447305, 6448889, 6450470, 6452048, 6453624, 6455198, 6456769, 6458338, 
    6459904, 6461468, 6463029, 6464588, 6466144, 6467698, 6469250, 6470799, 6472346, 6473890, 6475432, 
    6476972, 6478509, 6480044, 6481577, 6483107, 6484635, 6486160, 6487684, 6489204, 6490723, 6492239, 
    6493753, 6495265, 6496774, 6498282, 6499787, 6501289, 6502790, 6504288, 6505784, 6507277, 6508769, 
    6510258, 6511745, 6513230, 6514712, 6516193, 6517671, 6519147, 6520621, 6522092, 6523562, 6525029, 
    6526494, 6527957, 6529418, 6530877, 6532334, 6533788, 6535241, 6536691, 6538139, 6539585, 6541029, 
    6542471, 6543911, 6545349, 6546785, 6548219, 6549650, 6551080, 6552507, 6553933, 6555356, 6556778, 
    6558197, 6559615, 6561030, 6562444, 6563855, 6565264, 6566672, 6568077, 6569481, 6570882, 6572282, 
    6573680, 6575075, 6576469, 6577861, 6579251, 6580639, 6582025, 6583409, 6584791, 6586171, 6587550, 
    6588926, 6590301, 6591673, 6593044, 6594413, 6595780, 6597145, 6598509, 6599870, 6601230, 6602587, 
    6603943, 6605297, 6606650, 6608000, 6609349, 6610696, 6612041, 6613384, 6614725, 6616065, 6617402, 
    6618738, 6620073, 6621405, 6622736, 6624065, 6625392, 6626717, 6628041, 6629363, 6630683, 6632001, 
    6633318, 6634633, 6635946, 6637258, 6638567, 6639875, 6641182, 6642486, 6643789, 6645090, 6646390, 
    6647688, 6648984, 6650279, 6651571, 6652863, 6654152, 6655440, 6656726, 6658011, 6659293, 6660575, 
    6661854, 6663132, 6664409, 6665683, 6666956, 6668228, 6669498, 6670766, 6672032, 6673297, 6674561, 
    6675823, 6677083, 6678342, 6679599, 6680854, 6682108, 6683360, 6684611, 6685860, 6687108, 6688354, 
    6689599, 6690842, 6692083, 6693323, 6694562, 6695798, 6697034, 6698268, 6699500, 6700731, 6701960, 
    6703188, 6704414, 6705639, 6706862, 6708084, 6709304, 6710523, 6711740, 6712956, 6714170, 6715383, 
    6716594, 6717804, 6719013, 6720220, 6721425, 6722629, 6723832, 6725033, 6726233, 6727431, 6728628, 
    6729824, 6731018, 6732210, 6733401, 6734591, 6735780, 6736966, 6738152, 6739336, 6740519, 6741700, 
    6742880, 6744059, 6745236, 6746412, 6747586, 6748759, 6749931, 6751101, 6752270, 6753437, 6754604, 
    6755768, 6756932, 6758094, 6759255, 6760414, 6761572, 6762729, 6763884, 6765038, 6766191, 6767343, 
    6768493, 6769641, 6770789, 6771935, 6773080, 6774223, 6775366, 6776506, 6777646, 6778784, 6779921, 
    6781057, 6782192, 6783325, 6784457, 6785587, 6786716, 6787844, 6788971, 6790097, 6791221, 6792344, 
    6793466, 6794586, 6795705, 6796823, 6797940, 6799055, 6800170, 6801283, 6802394, 6803505, 6804614, 
    6805722, 6806829, 6807934, 6809039, 6810142, 6811244, 6812345, 6813444, 6814542, 6815639, 6816735, 
    6817830, 6818924, 6820016, 6821107, 6822197, 6823286, 6824373, 6825460, 6826545, 6827629, 6828712, 
    6829793, 6830874, 6831953, 6833031, 6834108, 6835184, 6836259, 6837332, 6838405, 6839476, 6840546, 
    6841615, 6842683, 6843749, 6844815, 6845879, 6846943, 6848005, 6849066, 6850126, 6851184, 6852242, 
    6853299, 6854354, 6855408, 6856461, 6857514, 6858565, 6859614, 6860663, 6861711, 6862757, 6863803, 
    6864847, 6865891, 6866933, 6867974, 6869014, 6870053, 6871091, 6872128, 6873163, 6874198, 6875232, 
    6876264, 6877296, 6878326, 6879355, 6880384, 6881411, 6882437, 6883462, 6884486, 6885509, 6886531, 
    6887552, 6888572, 6889591, 6890609, 6891625, 6892641, 6893656, 6894670, 6895682, 6896694, 6897704, 
    6898714, 6899723, 6900730, 6901737, 6902742, 6903747, 6904750, 6905753, 6906754, 6907755, 6908754, 
    6909753, 6910750, 6911747, 6912742, 6913737, 6914730, 6915723, 6916715, 6917705, 6918695, 6919683, 
    6920671, 6921658, 6922643, 6923628, 6924612, 6925595, 6926577, 6927557, 6928537, 6929516, 6930494, 
    6931471, 6932447, 6933423, 6934397, 6935370, 6936342, 6937314, 6938284, 6939253, 6940222, 6941190, 
    6942156, 6943122, 6944087, 6945051, 6946013, 6946975, 6947937, 6948897, 6949856, 6950814, 6951772, 
    6952728, 6953684, 6954638, 6955592, 6956545, 6957497, 6958448, 6959398, 6960347, 6961296, 6962243, 
    6963189, 6964135, 6965080, 6966024, 6966967, 6967909, 6968850, 6969790, 6970730, 6971668, 6972606, 
    6973543, 6974478, 6975413, 6976348, 6977281, 6978213, 6979145, 6980075, 6981005, 6981934, 6982862, 
    6983789, 6984716, 6985641, 6986566, 6987490, 6988413, 6989335, 6990256, 6991176, 6992096, 6993015, 
    6993932, 6994849, 6995766, 6996681, 6997595, 6998509, 6999422, 7000334, 7001245, 7002155, 7003065, 
    7003974, 7004881, 7005789, 7006695, 7007600, 7008505, 7009408, 7010311, 7011213, 7012115, 7013015, 
    7013915, 7014814, 7015712, 7016609, 7017506, 7018401, 7019296, 7020190, 7021083, 7021976, 7022868, 
    7023758, 7024649, 7025538, 7026426, 7027314, 7028201, 7029087, 7029972, 7030857, 7031741, 7032624, 
    7033506, 7034387, 7035268, 7036148, 7037027, 7037905, 7038783, 7039660, 7040536, 7041411, 7042286, 
    7043159, 7044032, 7044905, 7045776, 7046647, 7047517, 7048386, 7049254, 7050122, 7050989, 7051855, 
    7052721, 7053585, 7054449, 7055312, 7056175, 7057036, 7057897, 7058758, 7059617, 7060476, 7061334, 
    7062191, 7063048, 7063903, 7064759, 7065613, 7066466, 7067319, 7068172, 7069023, 7069874, 7070724, 
    7071573, 7072421, 7073269, 7074116, 7074963, 7075808, 7076653, 7077498, 7078341, 7079184, 7080026, 
    7080867, 7081708, 7082548, 7083387, 7084226, 7085064, 7085901, 7086737, 7087573, 7088408, 7089243, 
    7090076, 7090909, 7091742, 7092573, 7093404, 7094234, 7095064, 7095893, 7096721, 7097548, 7098375, 
    7099201, 7100027, 7100851, 7101675, 7102499, 7103322, 7104144, 7104965, 7105786, 7106606, 7107425, 
    7108244, 7109062, 7109879, 7110696, 7111512, 7112327, 7113142, 7113956, 7114769, 7115582, 7116394, 
    7117205, 7118016, 7118826, 7119635, 7120444, 7121252, 7122059, 7122866, 7123672, 7124478, 7125283, 
    7126087, 7126890, 7127693, 7128495, 7129297, 7130098, 7130898, 7131698, 7132497, 7133295, 7134093, 
    7134890, 7135687, 7136483, 7137278, 7138073, 7138867, 7139660, 7140453, 7141245, 7142036, 7142827, 
    7143617, 7144407, 7145196, 7145984, 7146772, 7147559, 7148345, 7149131, 7149916, 7150701, 7151485, 
    7152268, 7153051, 7153833, 7154615, 7155396, 7156176, 7156956, 7157735, 7158513, 7159291, 7160069, 
    7160845, 7161622, 7162397, 7163172, 7163946, 7164720, 7165493, 7166265, 7167037, 7167809, 7168579, 
    7169350, 7170119, 7170888, 7171656, 7172424, 7173191, 7173958, 7174724, 7175489, 7176254, 7177018, 
    7177782, 7178545, 7179307, 7180069, 7180831, 7181591, 7182352, 7183111, 7183870, 7184629, 7185387, 
    7186144, 7186901, 7187657, 7188412, 7189167, 7189922, 7190676, 7191429, 7192182, 7192934, 7193685, 
    7194436, 7195187, 7195937, 7196686, 7197435, 7198183, 7198931, 7199678, 7200424, 7201170, 7201916, 
    7202661, 7203405, 7204149, 7204892, 7205635, 7206377, 7207118, 7207859, 7208600, 7209340, 7210079, 
    7210818, 7211556, 7212294, 7213031, 7213768, 7214504, 7215239, 7215975, 7216709, 7217443, 7218176, 
    7218909, 7219642, 7220373, 7221105, 7221835, 7222566, 7223295, 7224024, 7224753, 7225481, 7226209, 
    7226936, 7227662, 7228388, 7229113, 7229838, 7230563, 7231287, 7232010, 7232733, 7233455, 7234177, 
    7234898, 7235619, 7236339, 7237059, 7237778, 7238496, 7239214, 7239932, 7240649, 7241366, 7242082, 
    7242797, 7243512, 7244227, 7244941, 7245655, 7246368, 7247080, 7247792, 7248504, 7249215, 7249925, 
    7250635, 7251344, 7252053, 7252762, 7253470, 7254177, 7254884, 7255591, 7256297, 7257002, 7257707, 
    7258412, 7259116, 7259819, 7260522, 7261225, 7261927, 7262628, 7263329, 7264030, 7264730, 7265429, 
    7266128, 7266827, 7267525, 7268223, 7268920, 7269616, 7270312, 7271008, 7271703, 7272398, 7273092, 
    7273786, 7274479, 7275172, 7275864, 7276556, 7277247, 7277938, 7278628, 7279318, 7280008, 7280697, 
    7281385, 7282073, 7282761, 7283448, 7284134, 7284820, 7285506, 7286191, 7286876, 7287560, 7288244, 
    7288927, 7289610, 7290292, 7290974, 7291656, 7292337, 7293017, 7293697, 7294377, 7295056, 7295735, 
    7296413, 7297091, 7297768, 7298445, 7299121, 7299797, 7300472, 7301147, 7301822, 7302496, 7303170, 
    7303843, 7304515, 7305188, 7305860, 7306531, 7307202, 7307872, 7308542, 7309212, 7309881, 7310550, 
    7311218, 7311886, 7312553, 7313220, 7313886, 7314552, 7315218, 7315883, 7316548, 7317212, 7317876, 
    7318539, 7319202, 7319864, 7320526, 7321188, 7321849, 7322510, 7323170, 7323830, 7324489, 7325148, 
    7325807, 7326465, 7327123, 7327780, 7328437, 7329093, 7329749, 7330405, 7331060, 7331714, 7332369, 
    7333023, 7333676, 7334329, 7334981, 7335633, 7336285, 7336936, 7337587, 7338238, 7338888, 7339537, 
    7340186, 7340835, 7341483, 7342131, 7342779, 7343426, 7344072, 7344719, 7345364, 7346010, 7346655, 
    7347299, 7347943, 7348587, 7349230, 7349873, 7350516, 7351158, 7351799, 7352441, 7353081, 7353722, 
    7354362, 7355001, 7355641, 7356279, 7356918, 7357556, 7358193, 7358830, 7359467, 7360103, 7360739, 
    7361375, 7362010, 7362645, 7363279, 7363913, 7364547, 7365180, 7365812, 7366445, 7367077, 7367708, 
    7368339, 7368970, 7369600, 7370230, 7370860, 7371489, 7372118, 7372746, 7373374, 7374001, 7374629, 
    7375255, 7375882, 7376508, 7377133, 7377758, 7378383, 7379008, 7379632, 7380255, 7380879, 7381501, 
    7382124, 7382746, 7383368, 7383989, 7384610, 7385230, 7385851, 7386470, 7387090, 7387709, 7388327, 
    7388946, 7389563, 7390181, 7390798, 7391415, 7392031, 7392647, 7393263, 7393878, 7394493, 7395107, 
    7395721, 7396335, 7396948, 7397561, 7398174, 7398786, 7399398, 7400009, 7400620, 7401231, 7401841, 
    7402451, 7403061, 7403670, 7404279, 7404887, 7405495, 7406103, 7406710, 7407317, 7407924, 7408530, 
    7409136, 7409741, 7410347, 7410951, 7411556, 7412160, 7412764, 7413367, 7413970, 7414572, 7415175, 
    7415776, 7416378, 7416979, 7417580, 7418180, 7418780, 7419380, 7419979, 7420578, 7421177, 7421775, 
    7422373, 7422971, 7423568, 7424165, 7424761, 7425357, 7425953, 7426549, 7427144, 7427738, 7428333, 
    7428927, 7429520, 7430114, 7430707, 7431299, 7431891, 7432483, 7433075, 7433666, 7434257, 7434847, 
    7435438, 7436027, 7436617, 7437206, 7437795, 7438383, 7438971, 7439559, 7440146, 7440733, 7441320, 
    7441906, 7442492, 7443078, 7443663, 7444248, 7444833, 7445417, 7446001, 7446585, 7447168, 7447751, 
    7448333, 7448916, 7449498, 7450079, 7450660, 7451241, 7451822, 7452402, 7452982, 7453561, 7454141, 
    7454719, 7455298, 7455876, 7456454, 7457032, 7457609, 7458186, 7458762, 7459338, 7459914, 7460490, 
    7461065, 7461640, 7462214, 7462789, 7463363, 7463936, 7464509, 7465082, 7465655, 7466227, 7466799, 
    7467371, 7467942, 7468513, 7469083, 7469654, 7470224, 7470793, 7471363, 7471932, 7472500, 7473069, 
    7473637, 7474204, 7474772, 7475339, 7475905, 7476472, 7477038, 7477604, 7478169, 7478734, 7479299, 
    7479864, 7480428, 7480992, 7481555, 7482118, 7482681, 7483244, 7483806, 7484368, 7484930, 7485491, 
    7486052, 7486613, 7487173, 7487733, 7488293, 7488852, 7489412, 7489970, 7490529, 7491087, 7491645, 
    7492203, 7492760, 7493317, 7493873, 7494430, 7494986, 7495541, 7496097, 7496652, 7497207, 7497761, 
    7498315, 7498869, 7499423, 7499976, 7500529, 7501082, 7501634, 7502186, 7502738, 7503289, 7503840, 
    7504391, 7504942, 7505492, 7506042, 7506591, 7507141, 7507690, 7508238, 7508787, 7509335, 7509883, 
    7510430, 7510977, 7511524, 7512071, 7512617, 7513163, 7513709, 7514254, 7514799, 7515344, 7515889, 
    7516433, 7516977, 7517520, 7518064, 7518607, 7519149, 7519692, 7520234, 7520776, 7521317, 7521859, 
    7522400, 7522940, 7523481, 7524021, 7524561, 7525100, 7525639, 7526178, 7526717, 7527255, 7527793, 
    7528331, 7528869, 7529406, 7529943, 7530479, 7531016, 7531552, 7532088, 7532623, 7533158, 7533693, 
    7534228, 7534762, 7535296, 7535830, 7536363, 7536897, 7537430, 7537962, 7538494, 7539027, 7539558, 
    7540090, 7540621, 7541152, 7541683, 7542213, 7542743, 7543273, 7543802, 7544332, 7544861, 7545389, 
    7545918, 7546446, 7546974, 7547501, 7548028, 7548555, 7549082, 7549609, 7550135, 7550661, 7551186, 
    7551712, 7552237, 7552762, 7553286, 7553810, 7554334, 7554858, 7555381, 7555905, 7556427, 7556950, 
    7557472, 7557994, 7558516, 7559038, 7559559, 7560080, 7560601, 7561121, 7561641, 7562161, 7562681, 
    7563200, 7563719, 7564238, 7564757, 7565275, 7565793, 7566311, 7566828, 7567345, 7567862, 7568379, 
    7568895, 7569411, 7569927, 7570443, 7570958, 7571473, 7571988, 7572502, 7573017, 7573531, 7574045, 
    7574558, 7575071, 7575584, 7576097, 7576609, 7577121, 7577633, 7578145, 7578656, 7579167, 7579678, 
    7580189, 7580699, 7581209, 7581719, 7582229, 7582738, 7583247, 7583756, 7584264, 7584773, 7585281, 
    7585788, 7586296, 7586803, 7587310, 7587817, 7588323, 7588829, 7589335, 7589841, 7590346, 7590852, 
    7591357, 7591861, 7592366, 7592870, 7593374, 7593877, 7594381, 7594884, 7595387, 7595889, 7596392, 
    7596894, 7597396, 7597897, 7598399, 7598900, 7599401, 7599901, 7600402, 7600902, 7601402, 7601901, 
    7602401, 7602900, 7603399, 7603897, 7604396, 7604894, 7605392, 7605890, 7606387, 7606884, 7607381, 
    7607878, 7608374, 7608870, 7609366, 7609862, 7610357, 7610852, 7611347, 7611842, 7612336, 7612831, 
    7613324, 7613818, 7614312, 7614805, 7615298, 7615791, 7616283, 7616775, 7617267, 7617759, 7618251, 
    7618742, 7619233, 7619724, 7620214, 7620705, 7621195, 7621684, 7622174, 7622663, 7623153, 7623641, 
    7624130, 7624618, 7625107, 7625595, 7626082, 7626570, 7627057, 7627544, 7628031, 7628517, 7629003, 
    7629489, 7629975, 7630461, 7630946, 7631431, 7631916, 7632401, 7632885, 7633369, 7633853, 7634337, 
    7634820, 7635303, 7635786, 7636269, 7636752, 7637234, 7637716, 7638198, 7638679, 7639161, 7639642, 
    7640123, 7640603, 7641084, 7641564, 7642044, 7642524, 7643003, 7643482, 7643961, 7644440, 7644919, 
    7645397, 7645875, 7646353, 7646831, 7647308, 7647786, 7648263, 7648739, 7649216, 7649692, 7650168, 
    7650644, 7651120, 7651595, 7652070, 7652545, 7653020, 7653494, 7653969, 7654443, 7654917, 7655390, 
    7655864, 7656337, 7656810, 7657282, 7657755, 7658227, 7658699, 7659171, 7659642, 7660114, 7660585, 
    7661056, 7661527, 7661997, 7662467, 7662937, 7663407, 7663877, 7664346, 7664815, 7665284, 7665753, 
    7666221, 7666690, 7667158, 7667626, 7668093, 7668561, 7669028, 7669495, 7669961, 7670428, 7670894, 
    7671360, 7671826, 7672292, 7672757, 7673223, 7673688, 7674152, 7674617, 7675081, 7675546, 7676009, 
    7676473, 7676937, 7677400, 7677863, 7678326, 7678788, 7679251, 7679713, 7680175, 7680637, 7681099, 
    7681560, 7682021, 7682482, 7682943, 7683403, 7683863, 7684324, 7684783, 7685243, 7685703, 7686162, 
    7686621, 7687080, 7687538, 7687997, 7688455, 7688913, 7689371, 7689828, 7690286, 7690743, 7691200, 
    7691656, 7692113, 7692569, 7693025, 7693481, 7693937, 7694392, 7694848, 7695303, 7695757, 7696212, 
    7696667, 7697121, 7697575, 7698029, 7698482, 7698936, 7699389, 7699842, 7700295, 7700747, 7701200, 
    7701652, 7702104, 7702556, 7703007, 7703459, 7703910, 7704361, 7704811, 7705262, 7705712, 7706162, 
    7706612, 7707062, 7707512, 7707961, 7708410, 7708859, 7709308, 7709756, 7710205, 7710653, 7711101, 
    7711548, 7711996, 7712443, 7712890, 7713337, 7713784, 7714231, 7714677, 7715123, 7715569, 7716015, 
    7716460, 7716906, 7717351, 7717796, 7718240, 7718685, 7719129, 7719573, 7720017, 7720461, 7720905, 
    7721348, 7721791, 7722234, 7722677, 7723120, 7723562, 7724004, 7724446, 7724888, 7725330, 7725771, 
    7726212, 7726653, 7727094, 7727535, 7727975, 7728415, 7728855, 7729295, 7729735, 7730174, 7730614, 
    7731053, 7731492, 7731930, 7732369, 7732807, 7733245, 7733683, 7734121, 7734558, 7734996, 7735433, 
    7735870, 7736307, 7736743, 7737180, 7737616, 7738052, 7738488, 7738923, 7739359, 7739794, 7740229, 
    7740664, 7741099, 7741533, 7741967, 7742402, 7742835, 7743269, 7743703, 7744136, 7744569, 7745002, 
    7745435, 7745868, 7746300, 7746732, 7747164, 7747596, 7748028, 7748460, 7748891, 7749322, 7749753, 
    7750184, 7750614, 7751045, 7751475, 7751905, 7752335, 7752764, 7753194, 7753623, 7754052, 7754481, 
    7754910, 7755338, 7755767, 7756195, 7756623, 7757051, 7757478, 7757906, 7758333, 7758760, 7759187, 
    7759614, 7760040, 7760467, 7760893, 7761319, 7761744, 7762170, 7762596, 7763021, 7763446, 7763871, 
    7764296, 7764720, 7765144, 7765569, 7765993, 7766416, 7766840, 7767263, 7767687, 7768110, 7768533, 
    7768956, 7769378, 7769800, 7770223, 7770645, 7771067, 7771488, 7771910, 7772331, 7772752, 7773173, 
    7773594, 7774015, 7774435, 7774855, 7775275, 7775695, 7776115, 7776535, 7776954, 7777373, 7777792, 
    7778211, 7778630, 7779048, 7779466, 7779885, 7780303, 7780720, 7781138, 7781555, 7781973, 7782390, 
    7782807, 7783224, 7783640, 7784057, 7784473, 7784889, 7785305, 7785720, 7786136, 7786551, 7786967, 
    7787382, 7787796, 7788211, 7788626, 7789040, 7789454, 7789868, 7790282, 7790696, 7791109, 7791522, 
    7791935, 7792348, 7792761, 7793174, 7793586, 7793999, 7794411, 7794823, 7795234, 7795646, 7796057, 
    7796469, 7796880, 7797291, 7797702, 7798112, 7798523, 7798933, 7799343, 7799753, 7800163, 7800572, 
    7800982, 7801391, 7801800, 7802209, 7802618, 7803026, 7803435, 7803843, 7804251, 7804659, 7805067, 
    7805474, 7805882, 7806289, 7806696, 7807103, 7807510, 7807916, 7808323, 7808729, 7809135, 7809541, 
    7809947, 7810352, 7810758, 7811163, 7811568, 7811973, 7812378, 7812782, 7813187, 7813591, 7813995, 
    7814399, 7814803, 7815207, 7815610, 7816013, 7816416, 7816819, 7817222, 7817625, 7818027, 7818430, 
    7818832, 7819234, 7819636, 7820037, 7820439, 7820840, 7821242, 7821643, 7822044, 7822444, 7822845, 
    7823245, 7823645, 7824046, 7824445, 7824845, 7825245, 7825644, 7826044, 7826443, 7826842, 7827240, 
    7827639, 7828038, 7828436, 7828834, 7829232, 7829630, 7830028, 7830425, 7830822, 7831220, 7831617, 
    7832014, 7832410, 7832807, 7833203, 7833600, 7833996, 7834392, 7834788, 7835183, 7835579, 7835974, 
    7836369, 7836764, 7837159, 7837554, 7837948, 7838343, 7838737, 7839131, 7839525, 7839919, 7840312, 
    7840706, 7841099, 7841492, 7841885, 7842278, 7842671, 7843064, 7843456, 7843848, 7844240, 7844632, 
    7845024, 7845416, 7845807, 7846198, 7846589, 7846980, 7847371, 7847762, 7848153, 7848543, 7848933, 
    7849323, 7849713, 7850103, 7850493, 7850882, 7851271, 7851661, 7852050, 7852439, 7852827, 7853216, 
    7853604, 7853993, 7854381, 7854769, 7855157, 7855544, 7855932, 7856319, 7856706, 7857093, 7857480, 
    7857867, 7858254, 7858640, 7859026, 7859413, 7859799, 7860185, 7860570, 7860956, 7861341, 7861727, 
    7862112, 7862497, 7862882, 7863266, 7863651, 7864035, 7864419, 7864804, 7865187, 7865571, 7865955, 
    7866338, 7866722, 7867105, 7867488, 7867871, 7868254, 7868636, 7869019, 7869401, 7869783, 7870165, 
    7870547, 7870929, 7871311, 7871692, 7872073, 7872455, 7872836, 7873217, 7873597, 7873978, 7874358, 
    7874739, 7875119, 7875499, 7875879, 7876258, 7876638, 7877017, 7877397, 7877776, 7878155, 7878534, 
    7878912, 7879291, 7879669, 7880048, 7880426, 7880804, 7881182, 7881559, 7881937, 7882314, 7882692, 
    7883069, 7883446, 7883823, 7884199, 7884576, 7884952, 7885329, 7885705, 7886081, 7886457, 7886832, 
    7887208, 7887584, 7887959, 7888334, 7888709, 7889084, 7889459, 7889833, 7890208, 7890582, 7890956, 
    7891330, 7891704, 7892078, 7892452, 7892825, 7893198, 7893572, 7893945, 7894318, 7894690, 7895063, 
    7895436, 7895808, 7896180, 7896552, 7896924, 7897296, 7897668, 7898039, 7898411, 7898782, 7899153, 
    7899524, 7899895, 7900266, 7900636, 7901007, 7901377, 7901747, 7902117, 7902487, 7902857, 7903226, 
    7903596, 7903965, 7904334, 7904703, 7905072, 7905441, 7905810, 7906178, 7906547, 7906915, 7907283, 
    7907651, 7908019, 7908387, 7908754, 7909122, 7909489, 7909856, 7910223, 7910590, 7910957, 7911324, 
    7911690, 7912056, 7912423, 7912789, 7913155, 7913521, 7913886, 7914252, 7914617, 7914983, 7915348, 
    7915713, 7916078, 7916442, 7916807, 7917171, 7917536, 7917900, 7918264, 7918628, 7918992, 7919356, 
    7919719, 7920083, 7920446, 7920809, 7921172, 7921535, 7921898, 7922261, 7922623, 7922985, 7923348, 
    7923710, 7924072, 7924434, 7924795, 7925157, 7925518, 7925880, 7926241, 7926602, 7926963, 7927324, 
    7927685, 7928045, 7928406, 7928766, 7929126, 7929486, 7929846, 7930206, 7930565, 7930925, 7931284, 
    7931644, 7932003, 7932362, 7932721, 7933079, 7933438, 7933796, 7934155, 7934513, 7934871, 7935229, 
    7935587, 7935945, 7936302, 7936660, 7937017, 7937374, 7937731, 7938088, 7938445, 7938802, 7939158, 
    7939515, 7939871, 7940227, 7940583, 7940939, 7941295, 7941651, 7942006, 7942362, 7942717, 7943072, 
    7943427, 7943782, 7944137, 7944492, 7944846, 7945201, 7945555, 7945909, 7946263, 7946617, 7946971, 
    7947325, 7947678, 7948031, 7948385, 7948738, 7949091, 7949444, 7949797, 7950149, 7950502, 7950854, 
    7951207, 7951559, 7951911, 7952263, 7952615, 7952966, 7953318, 7953669, 7954021, 7954372, 7954723, 
    7955074, 7955425, 7955775, 7956126, 7956476, 7956827, 7957177, 7957527, 7957877, 7958227, 7958576, 
    7958926, 7959275, 7959625, 7959974, 7960323, 7960672, 7961021, 7961370, 7961718, 7962067, 7962415, 
    7962763, 7963112, 7963460, 7963807, 7964155, 7964503, 7964850, 7965198, 7965545, 7965892, 7966239, 
    7966586, 7966933, 7967280, 7967626, 7967973, 7968319, 7968665, 7969011, 7969357, 7969703, 7970049, 
    7970394, 7970740, 7971085, 7971430, 7971776, 7972121, 7972466, 7972810, 7973155, 7973499, 7973844, 
    7974188, 7974532, 7974876, 7975220, 7975564, 7975908, 7976251, 7976595, 7976938, 7977281, 7977625, 
    7977968, 7978310, 7978653, 7978996, 7979338, 7979681, 7980023, 7980365, 7980707, 7981049, 7981391, 
    7981733, 7982074, 7982416, 7982757, 7983098, 7983440, 7983781, 7984121, 7984462, 7984803, 7985143, 
    7985484, 7985824, 7986164, 7986504, 7986844, 7987184, 7987524, 7987864, 7988203, 7988542, 7988882, 
    7989221, 7989560, 7989899, 7990238, 7990576, 7990915, 7991253, 7991592, 7991930, 7992268, 7992606, 
    7992944, 7993282, 7993619, 7993957, 7994294, 7994632, 7994969, 7995306, 7995643, 7995980, 7996317, 
    7996653, 7996990, 7997326, 7997663, 7997999, 7998335, 7998671, 7999007, 7999342, 7999678, 8000014, 
    8000349, 8000684, 8001019, 8001355, 8001689, 8002024, 8002359, 8002694, 8003028, 8003363, 8003697, 
    8004031, 8004365, 8004699, 8005033, 8005367, 8005700, 8006034, 8006367, 8006700, 8007034, 8007367, 
    8007700, 8008032, 8008365, 8008698, 8009030, 8009363, 8009695, 8010027, 8010359, 8010691, 8011023, 
    8011355, 8011686, 8012018, 8012349, 8012680, 8013012, 8013343, 8013674, 8014004, 8014335, 8014666, 
    8014996, 8015327, 8015657, 8015987, 8016317, 8016647, 8016977, 8017307, 8017637, 8017966, 8018296, 
    8018625, 8018954, 8019283, 8019612, 8019941, 8020270, 8020599, 8020927, 8021256, 8021584, 8021912, 
    8022240, 8022568, 8022896, 8023224, 8023552, 8023879, 8024207, 8024534, 8024862, 8025189, 8025516, 
    8025843, 8026170, 8026496, 8026823, 8027150, 8027476, 8027802, 8028129, 8028455, 8028781, 8029107, 
    8029432, 8029758, 8030084, 8030409, 8030734, 8031060, 8031385, 8031710, 8032035, 8032360, 8032684, 
    8033009, 8033334, 8033658, 8033982, 8034306, 8034631, 8034955, 8035278, 8035602, 8035926, 8036249, 
    8036573, 8036896, 8037220, 8037543, 8037866, 8038189, 8038512, 8038834, 8039157, 8039479, 8039802, 
    8040124, 8040446, 8040768, 8041091, 8041412, 8041734, 8042056, 8042378, 8042699, 8043020, 8043342, 
    8043663, 8043984, 8044305, 8044626, 8044947, 8045267, 8045588, 8045908, 8046229, 8046549, 8046869, 
    8047189, 8047509, 8047829, 8048149, 8048468, 8048788, 8049107, 8049427, 8049746, 8050065, 8050384, 
    8050703, 8051022, 8051340, 8051659, 8051978, 8052296, 8052614, 8052933, 8053251, 8053569, 8053887, 
    8054204, 8054522, 8054840, 8055157, 8055475, 8055792, 8056109, 8056426, 8056743, 8057060, 8057377, 
    8057694, 8058010, 8058327, 8058643, 8058960, 8059276, 8059592, 8059908, 8060224, 8060540, 8060855, 
    8061171, 8061486, 8061802, 8062117, 8062432, 8062747, 8063062, 8063377, 8063692, 8064007, 8064321, 
    8064636, 8064950, 8065265, 8065579, 8065893, 8066207, 8066521, 8066835, 8067149, 8067462, 8067776, 
    8068089, 8068402, 8068716, 8069029, 8069342, 8069655, 8069968, 8070280, 8070593, 8070906, 8071218, 
    8071530, 8071843, 8072155, 8072467, 8072779, 8073091, 8073402, 8073714, 8074026, 8074337, 8074649, 
    8074960, 8075271, 8075582, 8075893, 8076204, 8076515, 8076826, 8077136, 8077447, 8077757, 8078067, 
    8078378, 8078688, 8078998, 8079308, 8079618, 8079927, 8080237, 8080546, 8080856, 8081165, 8081475, 
    8081784, 8082093, 8082402, 8082711, 8083019, 8083328, 8083637, 8083945, 8084254, 8084562, 8084870, 
    8085178, 8085486, 8085794, 8086102, 8086410, 8086717, 8087025, 8087332, 8087640, 8087947, 8088254, 
    8088561, 8088868, 8089175, 8089482, 8089789, 8090095, 8090402, 8090708, 8091015, 8091321, 8091627, 
    8091933, 8092239, 8092545, 8092851, 8093156, 8093462, 8093767, 8094073, 8094378, 8094683, 8094988, 
    8095293, 8095598, 8095903, 8096208, 8096512, 8096817, 8097121, 8097426, 8097730, 8098034, 8098338, 
    8098642, 8098946, 8099250, 8099554, 8099857, 8100161, 8100464, 8100768, 8101071, 8101374, 8101677, 
    8101980, 8102283, 8102586, 8102889, 8103191, 8103494, 8103796, 8104099, 8104401, 8104703, 8105005, 
    8105307, 8105609, 8105911, 8106212, 8106514, 8106816, 8107117, 8107418, 8107720, 8108021, 8108322, 
    8108623, 8108924, 8109224, 8109525, 8109826, 8110126, 8110427, 8110727, 8111027, 8111328, 8111628, 
    8111928, 8112227, 8112527, 8112827, 8113127, 8113426, 8113726, 8114025, 8114324, 8114623, 8114922, 
    8115221, 8115520, 8115819, 8116118, 8116417, 8116715, 8117014, 8117312, 8117610, 8117908, 8118207, 
    8118505, 8118802, 8119100, 8119398, 8119696, 8119993, 8120291, 8120588, 8120886, 8121183, 8121480, 
    8121777, 8122074, 8122371, 8122668, 8122964, 8123261, 8123557, 8123854, 8124150, 8124446, 8124743, 
    8125039, 8125335, 8125630, 8125926, 8126222, 8126518, 8126813, 8127109, 8127404, 8127699, 8127995, 
    8128290, 8128585, 8128880, 8129174, 8129469, 8129764, 8130059, 8130353, 8130647, 8130942, 8131236, 
    8131530, 8131824, 8132118, 8132412, 8132706, 8133000, 8133293, 8133587, 8133880, 8134174, 8134467, 
    8134760, 8135053, 8135346, 8135639, 8135932, 8136225, 8136518, 8136810, 8137103, 8137395, 8137688, 
    8137980, 8138272, 8138564, 8138856, 8139148, 8139440, 8139732, 8140023, 8140315, 8140607, 8140898, 
    8141189, 8141481, 8141772, 8142063, 8142354, 8142645, 8142936, 8143226, 8143517, 8143807, 8144098, 
    8144388, 8144679, 8144969, 8145259, 8145549, 8145839, 8146129, 8146419, 8146709, 8146998, 8147288, 
    8147577, 8147867, 8148156, 8148445, 8148734, 8149023, 8149312, 8149601, 8149890, 8150179, 8150467, 
    8150756, 8151044, 8151333, 8151621, 8151909, 8152198, 8152486, 8152774, 8153061, 8153349, 8153637, 
    8153925, 8154212, 8154500, 8154787, 8155074, 8155362, 8155649, 8155936, 8156223, 8156510, 8156797, 
    8157083, 8157370, 8157657, 8157943, 8158229, 8158516, 8158802, 8159088, 8159374, 8159660, 8159946, 
    8160232, 8160518, 8160803, 8161089, 8161375, 8161660, 8161945, 8162231, 8162516, 8162801, 8163086, 
    8163371, 8163656, 8163940, 8164225, 8164510, 8164794, 8165079, 8165363, 8165647, 8165932, 8166216, 
    8166500, 8166784, 8167068, 8167351, 8167635, 8167919, 8168202, 8168486, 8168769, 8169053, 8169336, 
    8169619, 8169902, 8170185, 8170468, 8170751, 8171034, 8171316, 8171599, 8171882, 8172164, 8172446, 
    8172729, 8173011, 8173293, 8173575, 8173857, 8174139, 8174421, 8174702, 8174984, 8175266, 8175547, 
    8175829, 8176110, 8176391, 8176672, 8176953, 8177234, 8177515, 8177796, 8178077, 8178358, 8178638, 
    8178919, 8179199, 8179480, 8179760, 8180040, 8180320, 8180600, 8180880, 8181160, 8181440, 8181720, 
    8182000, 8182279, 8182559, 8182838, 8183118, 8183397, 8183676, 8183955, 8184234, 8184513, 8184792, 
    8185071, 8185350, 8185628, 8185907, 8186185, 8186464, 8186742, 8187021, 8187299, 8187577, 8187855, 
    8188133, 8188411, 8188689, 8188966, 8189244, 8189522, 8189799, 8190077, 8190354, 8190631, 8190908, 
    8191186, 8191463, 8191740, 8192016, 8192293, 8192570, 8192847, 8193123, 8193400, 8193676, 8193953, 
    8194229, 8194505, 8194781, 8195057, 8195333, 8195609, 8195885, 8196161, 8196436, 8196712, 8196987, 
    8197263, 8197538, 8197814, 8198089, 8198364, 8198639, 8198914, 8199189, 8199464, 8199738, 8200013, 
    8200288, 8200562, 8200837, 8201111, 8201385, 8201660, 8201934, 8202208, 8202482, 8202756, 8203030, 
    8203304, 8203577, 8203851, 8204124, 8204398, 8204671, 8204945, 8205218, 8205491, 8205764, 8206037, 
    8206310, 8206583, 8206856, 8207129, 8207401, 8207674, 8207946, 8208219, 8208491, 8208764, 8209036, 
    8209308, 8209580, 8209852, 8210124, 8210396, 8210668, 8210939, 8211211, 8211482, 8211754, 8212025, 
    8212297, 8212568, 8212839, 8213110, 8213381, 8213652, 8213923, 8214194, 8214465, 8214735, 8215006, 
    8215276, 8215547, 8215817, 8216088, 8216358, 8216628, 8216898, 8217168, 8217438, 8217708, 8217978, 
    8218247, 8218517, 8218787, 8219056, 8219326, 8219595, 8219864, 8220133, 8220403, 8220672, 8220941, 
    8221210, 8221478, 8221747, 8222016, 8222285, 8222553, 8222822, 8223090, 8223358, 8223627, 8223895, 
    8224163, 8224431, 8224699, 8224967, 8225235, 8225503, 8225770, 8226038, 8226305, 8226573, 8226840, 
    8227108, 8227375, 8227642, 8227909, 8228176, 8228443, 8228710, 8228977, 8229244, 8229511, 8229777, 
    8230044, 8230310, 8230577, 8230843, 8231109, 8231376, 8231642, 8231908, 8232174, 8232440, 8232706, 
    8232971, 8233237, 8233503, 8233768, 8234034, 8234299, 8234564, 8234830, 8235095, 8235360, 8235625, 
    8235890, 8236155, 8236420, 8236685, 8236950, 8237214, 8237479, 8237743, 8238008, 8238272, 8238536, 
    8238801, 8239065, 8239329, 8239593, 8239857, 8240121, 8240385, 8240648, 8240912, 8241176, 8241439, 
    8241703, 8241966, 8242229, 8242493, 8242756, 8243019, 8243282, 8243545, 8243808, 8244071, 8244334, 
    8244596, 8244859, 8245121, 8245384, 8245646, 8245909, 8246171, 8246433, 8246695, 8246958, 8247220, 
    8247482, 8247743, 8248005, 8248267, 8248529, 8248790, 8249052, 8249313, 8249575, 8249836, 8250097, 
    8250358, 8250620, 8250881, 8251142, 8251403, 8251663, 8251924, 8252185, 8252446, 8252706, 8252967, 
    8253227, 8253488, 8253748, 8254008, 8254268, 8254528, 8254788, 8255048, 8255308, 8255568, 8255828, 
    8256088, 8256347, 8256607, 8256866, 8257126, 8257385, 8257644, 8257904, 8258163, 8258422, 8258681, 
    8258940, 8259199, 8259458, 8259716, 8259975, 8260234, 8260492, 8260751, 8261009, 8261268, 8261526, 
    8261784, 8262042, 8262300, 8262558, 8262816, 8263074, 8263332, 8263590, 8263848, 8264105, 8264363, 
    8264620, 8264878, 8265135, 8265392, 8265650, 8265907, 8266164, 8266421, 8266678, 8266935, 8267192, 
    8267448, 8267705, 8267962, 8268218, 8268475, 8268731, 8268988, 8269244, 8269500, 8269756, 8270013, 
    8270269, 8270525, 8270781, 8271036, 8271292, 8271548, 8271804, 8272059, 8272315, 8272570, 8272826, 
    8273081, 8273336, 8273591, 8273846, 8274102, 8274357, 8274611, 8274866, 8275121, 8275376, 8275631, 
    8275885, 8276140, 8276394, 8276649, 8276903, 8277157, 8277411, 8277666, 8277920, 8278174, 8278428, 
    8278682, 8278936, 8279189, 8279443, 8279697, 8279950, 8280204, 8280457, 8280711, 8280964, 8281217, 
    8281470, 8281723, 8281977, 8282230, 8282483, 8282735, 8282988, 8283241, 8283494, 8283746, 8283999, 
    8284251, 8284504, 8284756, 8285008, 8285261, 8285513, 8285765, 8286017, 8286269, 8286521, 8286773, 
    8287025, 8287276, 8287528, 8287780, 8288031, 8288283, 8288534, 8288785, 8289037, 8289288, 8289539, 
    8289790, 8290041, 8290292, 8290543, 8290794, 8291045, 8291295, 8291546, 8291797, 8292047, 8292298, 
    8292548, 8292798, 8293049, 8293299, 8293549, 8293799, 8294049, 8294299, 8294549, 8294799, 8295049, 
    8295298, 8295548, 8295798, 8296047, 8296297, 8296546, 8296795, 8297045, 8297294, 8297543, 8297792, 
    8298041, 8298290, 8298539, 8298788, 8299037, 8299285, 8299534, 8299783, 8300031, 8300280, 8300528, 
    8300776, 8301025, 8301273, 8301521, 8301769, 8302017, 8302265, 8302513, 8302761, 8303009, 8303257, 
    8303504, 8303752, 8303999, 8304247, 8304494, 8304742, 8304989, 8305236, 8305484, 8305731, 8305978, 
    8306225, 8306472, 8306719, 8306965, 8307212, 8307459, 8307705, 8307952, 8308199, 8308445, 8308691, 
    8308938, 8309184, 8309430, 8309676, 8309922, 8310169, 8310414, 8310660, 8310906, 8311152, 8311398, 
    8311643, 8311889, 8312135, 8312380, 8312626, 8312871, 8313116, 8313361, 8313607, 8313852, 8314097, 
    8314342, 8314587, 8314832, 8315077, 8315321, 8315566, 8315811, 8316055, 8316300, 8316544, 8316789, 
    8317033, 8317277, 8317521, 8317766>>

===========================================================================
