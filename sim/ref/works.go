//go:build go1.24

package ref

// Work is what has to be put into the header of Real to give it another proof
// of work, found by solving that header's graph.
type Work struct {
	Version  uint16
	Height   uint64
	TS       int64
	Scaling  uint32
	Nonce    uint64
	EdgeBits uint8
	Nonces   [42]uint32
}

// Works holds, by kind: cycles of 42 edges (good), and what only looks like
// one: paths of 42 edges, pairs of cycles having 42 edges together (two), and
// shorter cycles with a tail of edges hanging at them (lolli).
var Works = []Work{
	// path
	{1, 65927, 1543822058, 3055, 1000, 29, [42]uint32{6983546, 19519235, 32300500, 35116223, 70637660, 76829778, 81754901, 85141692, 93792588, 94936611, 99299979, 115611888, 117491607, 137731364, 171059496, 190125857, 232025566, 248839733, 258111625, 261618326, 281593623, 285851805, 291753151, 293690367, 328350333, 343757150, 373385313, 374544954, 378006461, 379700423, 392899074, 394416461, 395709854, 397430775, 404829274, 416052078, 446657996, 470031031, 472552376, 477271256, 510523506, 528131136}},
	// good
	{1, 65927, 1543822058, 3055, 1003, 29, [42]uint32{13383316, 22095231, 63148766, 68292705, 87380527, 101171747, 115186207, 127636027, 135389601, 136113818, 151028090, 153864751, 182082725, 193387686, 216247142, 222516411, 240444041, 246809079, 257871353, 263979178, 271326088, 273534937, 276119896, 294627540, 332095047, 336208171, 346982774, 360952169, 376136564, 376811640, 408820730, 414079380, 422392572, 441887221, 444648140, 480208679, 500416753, 500572646, 502802326, 508978087, 514343261, 517555801}},
	// two
	{1, 65927, 1543822058, 3055, 1009, 29, [42]uint32{27355447, 39493033, 39966776, 58172676, 135807162, 154427820, 157740277, 186813535, 189656969, 199024388, 212637693, 213577586, 224875179, 244509190, 280556031, 286870799, 289044642, 291120354, 297195170, 304538307, 316548983, 327813383, 354265527, 359095826, 363124914, 373567244, 397117137, 422263168, 422339795, 446606589, 451576251, 451809065, 455131943, 456382385, 481376163, 482945851, 505028023, 506630229, 528322523, 530853614, 532628859, 535027695}},
	// path
	{1, 3, 1543822118, 1, 1000, 29, [42]uint32{7374034, 43685418, 70545489, 77306858, 78417444, 96173315, 102818045, 110991620, 126006844, 126689565, 126703179, 128413811, 145870697, 151654858, 187372369, 188489337, 195335827, 197289895, 204082647, 223233354, 250587383, 260235734, 267397184, 268966077, 291124571, 293653417, 332896811, 361649658, 366554048, 376852425, 377886092, 379065038, 388318712, 401343431, 421637437, 428022821, 451359848, 466985927, 479671436, 495810949, 503611777, 504881761}},
	// good
	{1, 3, 1543822118, 1, 1015, 29, [42]uint32{7774402, 16278956, 22390574, 25328354, 28085836, 28918757, 45675372, 66129604, 70095865, 74221626, 75837905, 84988868, 85930750, 89560340, 95940221, 101434836, 110287653, 117318745, 122146293, 133255371, 153096212, 160314296, 185555234, 197059250, 199680573, 230933772, 279253075, 340445653, 354706713, 366123749, 368445085, 370614226, 404718228, 410840248, 416514685, 448922857, 449645110, 476387694, 485238140, 495293506, 497915812, 507062643}},
	// two
	{1, 3, 1543822118, 1, 1025, 29, [42]uint32{1567925, 50485563, 63432452, 69377501, 77782856, 89764771, 91066487, 102462387, 110633267, 125776874, 145951903, 218133126, 220549505, 222397492, 235820413, 238399860, 244546726, 261562058, 270848258, 271786633, 273185428, 286764197, 288608159, 303507745, 330733366, 337163005, 345947941, 351757296, 352414203, 375143774, 381142673, 392928921, 398633329, 411105975, 412835766, 418897953, 432756251, 471766556, 494754440, 514172727, 523638404, 527066613}},
	// path
	{2, 95000, 1543822178, 1856, 1000, 29, [42]uint32{21677192, 40965615, 41799957, 45451292, 65765635, 77262710, 86706429, 105019519, 140634108, 143525446, 145224603, 168941281, 174352420, 185900803, 193219311, 193547288, 205006016, 210301327, 222256986, 254079678, 286625702, 307061608, 309834853, 321652076, 326408104, 336907693, 339850696, 354708110, 357813877, 360844512, 367342330, 376742125, 406593618, 408143657, 410332136, 436542515, 449449686, 463738784, 466265655, 472213676, 478590263, 532576955}},
	// path
	{1, 40, 1543822238, 1, 1000, 30, [42]uint32{76604686, 93569765, 101407939, 104738290, 118432991, 124869284, 142709905, 163206263, 175451397, 192755512, 193722486, 287992261, 298389230, 310786896, 327020081, 336637447, 343246218, 446021309, 453019870, 460585943, 490993031, 499234324, 504755229, 543665318, 550131008, 560718623, 579974403, 606145763, 671164251, 697969160, 721689526, 724855323, 752367970, 770290949, 775148083, 826554990, 855585211, 871193362, 895365581, 924799957, 950300079, 1000190949}},
}

// Put puts the work into a copy of the header of Real.
func (k *Work) Put(h *Header) {
	h.Version, h.Height, h.TS, h.Scaling, h.Nonce, h.EdgeBits, h.Nonces = k.Version, k.Height, k.TS, k.Scaling, k.Nonce, k.EdgeBits, k.Nonces
}
