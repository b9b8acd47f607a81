----------------------------- MODULE HashConst -----------------------------
(* Generated by tools/hashconsts.py from the definitions of the constants. *)
MD5T == <<
  <<55146, 42104>>, <<59591, 46934>>, <<9248, 28891>>, <<49597, 52974>>, <<62844, 4015>>, <<18311, 50730>>,
  <<43056, 17939>>, <<64838, 38145>>, <<27008, 39128>>, <<35652, 63407>>, <<65535, 23473>>, <<35164, 55230>>,
  <<27536, 4386>>, <<64920, 29075>>, <<42617, 17294>>, <<18868, 2081>>, <<63006, 9570>>, <<49216, 45888>>,
  <<9822, 23121>>, <<59830, 51114>>, <<54831, 4189>>, <<580, 5203>>, <<55457, 59009>>, <<59347, 64456>>,
  <<8673, 52710>>, <<49975, 2006>>, <<62677, 3463>>, <<17754, 5357>>, <<43491, 59653>>, <<64751, 41976>>,
  <<26479, 729>>, <<36138, 19594>>, <<65530, 14658>>, <<34673, 63105>>, <<28061, 24866>>, <<64997, 14348>>,
  <<42174, 59972>>, <<19422, 53161>>, <<63163, 19296>>, <<48831, 48240>>, <<10395, 32454>>, <<60065, 10234>>,
  <<54511, 12421>>, <<1160, 7429>>, <<55764, 53305>>, <<59099, 39397>>, <<8098, 31992>>, <<50348, 22117>>,
  <<62505, 8772>>, <<17194, 65431>>, <<43924, 9127>>, <<64659, 41017>>, <<25947, 22979>>, <<36620, 52370>>,
  <<65519, 62589>>, <<34180, 24017>>, <<28584, 32335>>, <<65068, 59104>>, <<41729, 17172>>, <<19976, 4513>>,
  <<63315, 32386>>, <<48442, 62005>>, <<10967, 53947>>, <<60294, 54161>>>>
K256 == <<
  <<17034, 12184>>, <<28983, 17553>>, <<46528, 64463>>, <<59829, 56229>>, <<14678, 49755>>, <<23025, 4593>>,
  <<37439, 33444>>, <<43804, 24277>>, <<55303, 43672>>, <<4739, 23297>>, <<9265, 34238>>, <<21772, 32195>>,
  <<29374, 23924>>, <<32990, 45566>>, <<39900, 1703>>, <<49563, 61812>>, <<58523, 27073>>, <<61374, 18310>>,
  <<4033, 40390>>, <<9228, 41420>>, <<11753, 11375>>, <<19060, 33962>>, <<23728, 43484>>, <<30457, 35034>>,
  <<38974, 20818>>, <<43057, 50797>>, <<45059, 10184>>, <<48985, 32711>>, <<50912, 3059>>, <<54695, 37191>>,
  <<1738, 25425>>, <<5161, 10599>>, <<10167, 2693>>, <<11803, 8504>>, <<19756, 28156>>, <<21304, 3347>>,
  <<25866, 29524>>, <<30314, 2747>>, <<33218, 51502>>, <<37490, 11397>>, <<41663, 59553>>, <<43034, 26187>>,
  <<49739, 35696>>, <<51052, 20899>>, <<53650, 59417>>, <<54937, 1572>>, <<62478, 13701>>, <<4202, 41072>>,
  <<6564, 49430>>, <<7735, 27656>>, <<10056, 30540>>, <<13488, 48309>>, <<14620, 3251>>, <<20184, 43594>>,
  <<23452, 51791>>, <<26670, 28659>>, <<29839, 33518>>, <<30885, 25455>>, <<33992, 30740>>, <<36039, 520>>,
  <<37054, 65530>>, <<42064, 27883>>, <<48889, 41975>>, <<50801, 30962>>>>
H256 == <<
  <<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>, <<20750, 21119>>, <<39685, 26764>>,
  <<8067, 55723>>, <<23520, 52505>>>>
H224 == <<
  <<49413, 40664>>, <<13948, 54535>>, <<12400, 56599>>, <<63246, 22841>>, <<65472, 2865>>, <<26712, 5393>>,
  <<25849, 36775>>, <<48890, 20388>>>>
K512 == <<
  <<17034, 12184, 55080, 44578>>, <<28983, 17553, 9199, 26061>>, <<46528, 64463, 60493, 15151>>,
  <<59829, 56229, 33161, 56252>>, <<14678, 49755, 62280, 46392>>, <<23025, 4593, 46597, 53273>>,
  <<37439, 33444, 44825, 20379>>, <<43804, 24277, 55917, 33048>>, <<55303, 43672, 41731, 578>>,
  <<4739, 23297, 17776, 28606>>, <<9265, 34238, 20196, 45708>>, <<21772, 32195, 54783, 46306>>,
  <<29374, 23924, 62075, 35183>>, <<32990, 45566, 15126, 38577>>, <<39900, 1703, 9671, 4661>>,
  <<49563, 61812, 53097, 9876>>, <<58523, 27073, 40689, 19154>>, <<61374, 18310, 14415, 9699>>,
  <<4033, 40390, 35724, 54709>>, <<9228, 41420, 30636, 40037>>, <<11753, 11375, 22827, 629>>,
  <<19060, 33962, 28326, 58499>>, <<23728, 43484, 48449, 64468>>, <<30457, 35034, 33553, 21429>>,
  <<38974, 20818, 61030, 57259>>, <<43057, 50797, 11700, 12816>>, <<45059, 10184, 39163, 8511>>,
  <<48985, 32711, 48879, 3812>>, <<50912, 3059, 15784, 36802>>, <<54695, 37191, 37642, 42789>>,
  <<1738, 25425, 57347, 33391>>, <<5161, 10599, 2574, 28272>>, <<10167, 2693, 18130, 12284>>,
  <<11803, 8504, 23590, 51494>>, <<19756, 28156, 23236, 10989>>, <<21304, 3347, 40341, 46047>>,
  <<25866, 29524, 35759, 25566>>, <<30314, 2747, 15479, 45736>>, <<33218, 51502, 18413, 44774>>,
  <<37490, 11397, 5250, 13627>>, <<41663, 59553, 19697, 868>>, <<43034, 26187, 48194, 12289>>,
  <<49739, 35696, 53496, 38801>>, <<51052, 20899, 1620, 48688>>, <<53650, 59417, 55023, 21016>>,
  <<54937, 1572, 21861, 43280>>, <<62478, 13701, 22385, 8234>>, <<4202, 41072, 12987, 53688>>,
  <<6564, 49430, 47314, 53448>>, <<7735, 27656, 20801, 43859>>, <<10056, 30540, 57230, 60313>>,
  <<13488, 48309, 57755, 18600>>, <<14620, 3251, 50633, 23139>>, <<20184, 43594, 58177, 35531>>,
  <<23452, 51791, 30563, 58227>>, <<26670, 28659, 54962, 47267>>, <<29839, 33518, 24047, 45820>>,
  <<30885, 25455, 17175, 12128>>, <<33992, 30740, 41456, 43890>>, <<36039, 520, 6756, 14828>>,
  <<37054, 65530, 9059, 7720>>, <<42064, 27883, 56962, 48617>>, <<48889, 41975, 45766, 30997>>,
  <<50801, 30962, 58226, 21291>>, <<51751, 16078, 59942, 24988>>, <<53638, 47303, 8640, 49671>>,
  <<60122, 32214, 52704, 60190>>, <<62845, 20351, 61038, 53624>>, <<1776, 26538, 29207, 28602>>,
  <<2659, 32197, 41672, 39078>>, <<4415, 38916, 48889, 3502>>, <<7025, 2869, 4892, 18203>>,
  <<10459, 30709, 8964, 32132>>, <<13002, 43899, 16583, 9363>>, <<15518, 48650, 5577, 48828>>,
  <<17181, 26564, 39952, 3404>>, <<19653, 54462, 52030, 17078>>, <<22911, 10652, 64613, 32298>>,
  <<24523, 28587, 15062, 64236>>, <<27716, 6540, 19015, 22551>>>>
H512 == <<
  <<27145, 58983, 62396, 51464>>, <<47975, 44677, 33994, 42811>>, <<15470, 62322, 65172, 63531>>,
  <<42319, 62778, 24349, 14065>>, <<20750, 21119, 44518, 33489>>, <<39685, 26764, 11070, 27679>>,
  <<8067, 55723, 64321, 48491>>, <<23520, 52505, 4990, 8569>>>>
H384 == <<
  <<52155, 40285, 49413, 40664>>, <<25242, 10538, 13948, 54535>>, <<37209, 346, 12400, 56599>>,
  <<5423, 60632, 63246, 22841>>, <<26419, 9831, 65472, 2865>>, <<36532, 19079, 26712, 5393>>,
  <<56076, 11789, 25849, 36775>>, <<18357, 18461, 48890, 20388>>>>
KRC == <<
  <<0, 0, 0, 1>>, <<0, 0, 0, 32898>>, <<32768, 0, 0, 32906>>, <<32768, 0, 32768, 32768>>, <<0, 0, 0, 32907>>,
  <<0, 0, 32768, 1>>, <<32768, 0, 32768, 32897>>, <<32768, 0, 0, 32777>>, <<0, 0, 0, 138>>, <<0, 0, 0, 136>>,
  <<0, 0, 32768, 32777>>, <<0, 0, 32768, 10>>, <<0, 0, 32768, 32907>>, <<32768, 0, 0, 139>>,
  <<32768, 0, 0, 32905>>, <<32768, 0, 0, 32771>>, <<32768, 0, 0, 32770>>, <<32768, 0, 0, 128>>,
  <<0, 0, 0, 32778>>, <<32768, 0, 32768, 10>>, <<32768, 0, 32768, 32897>>, <<32768, 0, 0, 32896>>,
  <<0, 0, 32768, 1>>, <<32768, 0, 32768, 32776>>>>
HugeLen == 536870915
Huge == [
   md5 |-> <<26, 55, 7, 42, 228, 172, 17, 32, 224, 145, 52, 136, 65, 131, 119, 48>>,
   sha1 |-> <<118, 54, 14, 163, 58, 64, 0, 208, 168, 3, 153, 11, 109, 17, 48, 133, 164, 11, 38, 24>>,
   sha224 |-> <<92, 54, 253, 52, 119, 197, 241, 120, 176, 151, 64, 164, 165, 224, 63, 93, 241, 236, 126, 148, 180, 161, 169, 161, 219, 53, 192, 209>>,
   sha256 |-> <<64, 141, 97, 96, 23, 24, 56, 127, 197, 94, 252, 80, 142, 138, 37, 55, 177, 56, 180, 58, 159, 103, 51, 12, 82, 106, 130, 213, 213, 247, 209, 131>>]
\* 2^32 + 3 bytes in one piece
Vast == [
   md5 |-> <<131, 237, 201, 8, 137, 220, 114, 169, 168, 52, 196, 218, 57, 140, 75, 164>>,
   sha1 |-> <<164, 227, 254, 68, 19, 124, 3, 71, 252, 219, 126, 66, 152, 230, 243, 250, 202, 38, 246, 101>>,
   sha224 |-> <<13, 104, 205, 245, 169, 21, 234, 120, 120, 116, 142, 2, 28, 127, 173, 241, 105, 250, 171, 46, 65, 251, 11, 238, 13, 193, 174, 22>>,
   sha256 |-> <<238, 192, 133, 216, 20, 142, 189, 152, 204, 5, 144, 253, 121, 162, 236, 148, 186, 134, 221, 192, 164, 174, 7, 75, 75, 88, 155, 157, 137, 149, 58, 28>>]
=============================================================================
