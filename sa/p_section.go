package main

// P20: what the parsers inside a frame's sections read: quantisation tables,
// block contexts, chroma correlation, coefficient orders, modular transforms,
// trees, entropy-coder set-up and the table of contents.

const grammarSection = `
func LFChannelCorrelation() {
	all_default := Bool()
	if all_default {
		Out("colorFactor", 84)
		Out("baseCorrelationX", 0.0)
		Out("baseCorrelationB", 1.0)
		Out("xFactorLF", 128)
		Out("bFactorLF", 128)
	} else {
		colour_factor := U32(84, 0, 256, 0, 2, 8, 258, 16)
		base_x := F16()
		base_b := F16()
		x_factor := u(8)
		b_factor := u(8)
		Out("colorFactor", colour_factor)
		Out("baseCorrelationX", base_x)
		Out("baseCorrelationB", base_b)
		Out("xFactorLF", x_factor)
		Out("bFactorLF", b_factor)
	}
}

func HFBlockContext() {
	all_default := Bool()
	if all_default {
		Out("numClusters", 15)
		Out("numLFContexts", 1)
	} else {
		for i := range 3 {
			nb_lf[i] = u(4)
			for j := range nb_lf[i] {
				threshold := U32(0, 4, 16, 8, 272, 16, 65808, 32)
				Keep(threshold, Unsign(threshold))
			}
		}
		nb_qf := u(4)
		for i := range nb_qf {
			qf_threshold := U32(0, 2, 4, 3, 12, 5, 44, 8)
			Keep(qf_threshold, qf_threshold + 1)
		}
		size := 39 * (nb_qf + 1) * (nb_lf[0] + 1) * (nb_lf[1] + 1) * (nb_lf[2] + 1)
		Reject(size > 39 * 64)
		cmap := Clusters(size, 16)
		Out("numClusters", cmap)
		Out("numLFContexts", (nb_lf[0] + 1) * (nb_lf[1] + 1) * (nb_lf[2] + 1))
	}
}

func WPParams() {
	default_wp := Bool()
	if default_wp {
		Out("param1", 16)
		Out("param2", 10)
		Out("param3a", 7)
		Out("param3b", 7)
		Out("param3c", 7)
		Out("param3d", 0)
		Out("param3e", 0)
		Out("weight[0]", 13)
		Out("weight[1]", 12)
		Out("weight[2]", 12)
		Out("weight[3]", 12)
	} else {
		p1 := u(5)
		p2 := u(5)
		p3a := u(5)
		p3b := u(5)
		p3c := u(5)
		p3d := u(5)
		p3e := u(5)
		w0 := u(4)
		w1 := u(4)
		w2 := u(4)
		w3 := u(4)
		Out("param1", p1)
		Out("param2", p2)
		Out("param3a", p3a)
		Out("param3b", p3b)
		Out("param3c", p3c)
		Out("param3d", p3d)
		Out("param3e", p3e)
		Out("weight[0]", w0)
		Out("weight[1]", w1)
		Out("weight[2]", w2)
		Out("weight[3]", w3)
	}
}

func SqueezeParam() {
	horizontal := Bool()
	in_place := Bool()
	begin_c := U32(0, 3, 8, 6, 72, 10, 1096, 13)
	num_c := U32(1, 0, 2, 0, 3, 0, 4, 4)
	Out("horizontal", horizontal)
	Out("inPlace", in_place)
	Out("beginC", begin_c)
	Out("numC", num_c)
}

func TransformInfo() {
	tr := u(2)
	Unsupported(tr == 3)
	if tr != 2 {
		begin_c := U32(0, 3, 8, 6, 72, 10, 1096, 13)
		Out("beginC", begin_c)
	}
	if tr == 0 {
		rct_type := U32(6, 0, 0, 2, 2, 4, 10, 6)
		Unsupported(rct_type > 41)
		Out("rctType", rct_type)
	}
	if tr == 1 {
		num_c := U32(1, 0, 3, 0, 4, 0, 1, 13)
		nb_colours := U32(0, 8, 256, 10, 1280, 12, 5376, 16)
		nb_deltas := U32(0, 0, 1, 8, 257, 10, 1281, 16)
		d_pred := u(4)
		Unsupported(d_pred > 13)
		Out("numC", num_c)
		Out("nbColours", nb_colours)
		Out("nbDeltas", nb_deltas)
		Out("dPred", d_pred)
	}
	if tr == 2 {
		num_sq := U32(0, 0, 1, 4, 9, 6, 41, 8)
		for i := range num_sq {
			SqueezeParam2()
		}
	}
	Out("tr", tr)
}

func SqueezeParam2() {
	horizontal := Bool()
	in_place := Bool()
	begin_c := U32(0, 3, 8, 6, 72, 10, 1096, 13)
	num_c := U32(1, 0, 2, 0, 3, 0, 4, 4)
	Keep(horizontal, horizontal)
	Keep(in_place, in_place)
	Keep(begin_c, begin_c)
	Keep(num_c, num_c)
}

func HFPass() {
	Domain("used_orders", 0, 1, 2, 5, 19, 64, 95, 4096, 8191)
	used_orders := U32(95, 0, 19, 0, 0, 0, 0, 13)
	if used_orders != 0 {
		es := Entropy(8)
	}
	for b := range 13 {
		for c := range 3 {
			if used_orders & (1 << b) != 0 {
				perm := Permutation(Opaque("size"), Opaque("skip"))
			}
		}
	}
	ctx := Entropy(Opaque("contexts"))
	Out("usedOrders", used_orders)
}

func DctParams() {
	nb_bands := u(4)
	for c := range 3 {
		for i := range nb_bands + 1 {
			band := F16()
		}
	}
}

func HFGlobal() {
	groups := Vals("Frame.numGroups", 1, 2, 3, 4, 5, 8, 9, 100)
	all_default := Bool()
	if !all_default {
		for i := range 17 {
			table := QuantTable(i)
		}
	}
	presets := u(CeilLog2(groups))
	Out("numHFPresets", presets + 1)
}

func QuantTable() {
	index := In("arg3", 0, 16)
	mode := u(3)
	small := index <= 3 || index == 9 || index == 10
	if mode >= 1 && mode <= 5 {
		Reject(!small)
	}
	if mode == 1 {
		for c := range 3 {
			for j := range 3 {
				hornuss := F16()
				Keep(hornuss, 64.0 * hornuss)
			}
		}
	}
	if mode == 2 {
		for c := range 3 {
			for j := range 6 {
				dct2 := F16()
				Keep(dct2, 64.0 * dct2)
			}
		}
	}
	if mode == 3 {
		for c := range 3 {
			for j := range 2 {
				dct4 := F16()
			}
		}
		DctParams()
	}
	if mode == 4 {
		for c := range 3 {
			dct48 := F16()
			Keep(dct48, dct48)
		}
		DctParams()
	}
	if mode == 5 {
		for c := range 3 {
			for j := range 9 {
				afv := F16()
				if j < 6 {
					Keep(afv, 64.0 * afv)
				} else {
					Keep(afv, afv)
				}
			}
		}
		DctParams()
		DctParams()
	}
	if mode == 6 {
		DctParams()
	}
	if mode == 7 {
		den := F16()
		raw := ModularAt(1 + 3 * Vals("Frame.numLFGroups", 1, 2, 5) + index)
		data := ModularData()
	}
}

func HFMetadata() {
	h := Vals("LFGroup.size.Height", 1, 2, 3, 8, 200)
	w := Vals("LFGroup.size.Width", 1, 2, 3, 5, 256)
	nb_blocks := u(CeilLog2(h * w))
	ms := ModularAt(1 + 2 * Vals("Frame.numLFGroups", 1, 2, 5) + Vals("LFGroup.lfGroupID", 0, 1, 4))
	data := ModularData()
	Out("nbBlocks", nb_blocks + 1)
}

func LFCoefficients() {
	flags := Vals("FrameHeader.Flags", 0, 1, 2, 16, 32, 128)
	if flags != 32 {
		extra_precision := u(2)
		ms := ModularCh(1 + Vals("LFGroup.lfGroupID", 0, 1, 4), 3, 0)
		data := ModularData()
	}
}

func LFGroup() {
	flags := Vals("FrameHeader.Flags", 0, 1, 2, 16, 32, 128)
	encoding := Vals("FrameHeader.Encoding", 0, 1)
	lf_groups := Vals("Frame.numLFGroups", 1, 2, 5)
	id := Vals("arg2", 0, 1, 4)
	if encoding == 0 && flags != 32 {
		extra_precision := u(2)
		lfms := ModularCh(1 + id, 3, 0)
		lfdata := ModularData()
	}
	ms := ModularAt(1 + lf_groups + id)
	data := ModularData()
	if encoding == 0 {
		nb_blocks := u(Opaque("bits"))
		hfms := ModularAt(1 + 2 * lf_groups + id)
		hfdata := ModularData()
	}
}

func PassGroup() {
	encoding := Vals("FrameHeader.Encoding", 0, 1)
	lf_groups := Vals("Frame.numLFGroups", 1, 2, 5)
	groups := Vals("Frame.numGroups", 1, 2, 5)
	pass := Vals("arg2", 0, 1, 4)
	group := Vals("arg3", 0, 1, 4)
	if encoding == 0 {
		coeffs := HFCoeffs(pass, group)
	}
	ms := ModularAt(18 + 3 * lf_groups + groups * pass + group)
	data := ModularData()
}

func HFCoefficients() {
	presets := Vals("HFGlobal.numHFPresets", 1, 2, 3, 4, 5, 8, 9, 100)
	preset := u(CeilLog2(presets))
	Rest()
}

func BlockContext() {
	default_ctx := Bool()
	if !default_ctx {
		for i := range 3 {
			nb_lf[i] = u(4)
			for j := range nb_lf[i] {
				threshold := U32(0, 4, 16, 8, 272, 16, 65808, 32)
				Keep(threshold, Unsign(threshold))
			}
		}
		nb_qf := u(4)
		for i := range nb_qf {
			qf_threshold := U32(0, 2, 4, 3, 12, 5, 44, 8)
			Keep(qf_threshold, qf_threshold + 1)
		}
		size := 39 * (nb_qf + 1) * (nb_lf[0] + 1) * (nb_lf[1] + 1) * (nb_lf[2] + 1)
		Reject(size > 39 * 64)
		cmap := Clusters(size, 16)
	}
}

func Correlation() {
	default_corr := Bool()
	if !default_corr {
		colour_factor := U32(84, 0, 256, 0, 2, 8, 258, 16)
		base_x := F16()
		base_b := F16()
		x_factor := u(8)
		b_factor := u(8)
	}
}

func LFGlobal() {
	flags := Vals("FrameHeader.Flags", 0, 1, 2, 4, 8, 16, 32, 64, 128)
	encoding := Vals("FrameHeader.Encoding", 0, 1)
	ycbcr := InBool("FrameHeader.DoYCbCr")
	xyb := InBool("ImageHeader.XybEncoded")
	cs := Vals("ColourEncodingBundle.ColourEncoding", 0, 1, 2)
	extra := In("len(ImageHeader.ExtraChannelInfo)", 0, 3)
	Domain("global_scale", 1, 2049, 4097)
	Domain("quant_lf", 1, 16, 17)
	Unsupported(flags == 1 || flags == 2 || flags == 16)
	default_dequant := Bool()
	if !default_dequant {
		for i := range 3 {
			lf_dequant := F16()
			Out("lfDequant[%d]", i, lf_dequant * (1.0 / 128.0))
		}
	}
	if encoding == 0 {
		global_scale := U32(1, 11, 2049, 11, 4097, 12, 8193, 16)
		quant_lf := U32(16, 0, 1, 5, 1, 8, 1, 16)
		BlockContext()
		Correlation()
		Out("globalScale", global_scale)
		Out("quantLF", quant_lf)
	}
	global_tree := Bool()
	if global_tree {
		tree := MATree()
	}
	colour := If(encoding == 1, If(!ycbcr && !xyb && cs == 1, 1, 3), 0)
	ms := Modular(0, extra + colour, colour)
	data := ModularData()
}

func WP() {
	wp_default := Bool()
	if !wp_default {
		p1 := u(5)
		p2 := u(5)
		for i := range 5 {
			p3 := u(5)
		}
		for i := range 4 {
			w := u(4)
		}
	}
}

func Transform() {
	tr := u(2)
	if tr != 2 {
		begin_c := U32(0, 3, 8, 6, 72, 10, 1096, 13)
	}
	if tr == 0 {
		rct_type := U32(6, 0, 0, 2, 2, 4, 10, 6)
	}
	if tr == 1 {
		num_c := U32(1, 0, 3, 0, 4, 0, 1, 13)
		nb_colours := U32(0, 8, 256, 10, 1280, 12, 5376, 16)
		nb_deltas := U32(0, 0, 1, 8, 257, 10, 1281, 16)
		d_pred := u(4)
	}
	if tr == 2 {
		num_sq := U32(0, 0, 1, 4, 9, 6, 41, 8)
		for i := range num_sq {
			SqueezeParam2()
		}
	}
}

func ModularHeader() {
	channels := In("arg3", 0, 5)
	if channels != 0 {
		use_global_tree := Bool()
		WP()
		nb_transforms := U32(0, 0, 1, 0, 2, 4, 18, 8)
		for i := range nb_transforms {
			Transform()
		}
		if !use_global_tree {
			tree := MATree()
		}
	}
}

func MATree() {
	Domain("mul_log", 0, 1, 29, 30, 31)
	Domain("mul_bits", 0, 1, 2, 3, 4, 2147483645, 2147483646, 2147483647)
	es := Entropy(6)
	for i := range Opaque("nodes") {
		property := Sym(1)
		if property > 0 {
			value := Sym(0)
			Keep(property, property - 1)
			Keep(value, Unsign(value))
		} else {
			predictor := Sym(2)
			Unsupported(predictor > 13)
			offset := Sym(3)
			mul_log := Sym(4)
			Unsupported(mul_log > 30)
			mul_bits := Sym(5)
			Unsupported(mul_bits > (1 << (31 - mul_log)) - 2)
			Keep(predictor, predictor)
			Keep(offset, Unsign(offset))
			Keep(mul_bits, (mul_bits + 1) << mul_log)
		}
	}
	data := Entropy(Opaque("leaves"), false)
}

func HybridConfig() {
	log_alpha := Vals("arg1", 5, 6, 7, 8, 15)
	Domain("split", 0, 1, 2, 4, 5, 6, 7)
	Domain("msb_in_token", 0, 1, 2, 4, 5, 6, 7)
	Domain("lsb_in_token", 0, 1, 2, 4, 5, 6, 7)
	split := u(CeilLog2(log_alpha + 1))
	msb := 0
	lsb := 0
	if split != log_alpha {
		msb_in_token := u(CeilLog2(split + 1))
		Reject(msb_in_token > split)
		lsb_in_token := u(CeilLog2(split - msb_in_token + 1))
		Reject(msb_in_token + lsb_in_token > split)
		msb = msb_in_token
		lsb = lsb_in_token
	}
	Out("SplitExponent", split)
	Out("MsbInToken", msb)
	Out("LsbInToken", lsb)
}

func Entropy0() {
	num_dists := In("arg2", 1, 5)
	nested := InBool("arg3")
	lz77 := Bool()
	n := num_dists
	if lz77 {
		Reject(nested)
		min_symbol := U32(224, 0, 512, 0, 4096, 0, 8, 15)
		min_length := U32(3, 0, 4, 0, 5, 2, 9, 8)
		config := HybridConfig(8)
		n = num_dists + 1
		Out("lz77MinSymbol", min_symbol)
		Out("lz77MinLength", min_length)
	}
	clusters := Clusters(n, n)
	prefix := Bool()
	log_alphabet := 15
	if !prefix {
		log_alpha := u(2)
		log_alphabet = log_alpha + 5
	}
	for i := range clusters {
		cfg := HybridConfig(log_alphabet)
	}
	if prefix {
		for i := range clusters {
			large := Bool()
			if large {
				bits := u(4)
				Domain("size", 0, 1, 5, 1000, 32767)
				size := u(bits)
				Keep(size, 1 + (1 << bits) + size)
			}
		}
		for i := range clusters {
			dist := PrefixDist(Opaque("size"))
		}
	} else {
		for i := range clusters {
			dist := ANSDist(log_alphabet)
		}
	}
	Out("usesLZ77", lz77)
	Out("logAlphabetSize", log_alphabet)
}

func ClustersSimple() {
	n := Vals("len(arg1)", 3)
	most := Vals("arg2", 2, 3, 16)
	simple := Bool()
	Unsupported(!simple)
	bits := u(2)
	Domain("c0", 0, 1, 3)
	c0 := u(bits)
	Domain("c1", 0, 1, 2)
	c1 := u(bits)
	Domain("c2", 0, 2, 3)
	c2 := u(bits)
	Reject(Max(Max(c0, c1), c2) >= most)
	Out("@1[0]", c0)
	Out("@1[1]", c1)
	Out("@1[2]", c2)
	Out("", Max(Max(c0, c1), c2) + 1)
}

func Clusters0() {
	n := In("len(arg1)", 1, 4)
	if n != 1 {
		simple := Bool()
		if simple {
			bits := u(2)
			for i := range n {
				c := u(bits)
				Keep(c, c)
			}
		} else {
			mtf := Bool()
			es := Entropy(1, n <= 2)
			for i := range n {
				c := Sym(0)
				Keep(c, c)
			}
		}
	}
}

func ANS() {
	log_alpha := In("arg1", 5, 8)
	simple := Bool()
	if simple {
		two := Bool()
		if two {
			v1 := U8()
			v2 := U8()
			Reject(v1 == v2)
			Reject(Max(v1, v2) >= 1 << log_alpha)
			freq := u(12)
			Keep(freq, freq)
			Keep(freq, 4096 - freq)
		} else {
			v := U8()
			Unsupported(v >= 1 << log_alpha)
			Out("SymbolDistributionBase.alphabetSize", v + 1)
		}
	} else {
		flat := Bool()
		if flat {
			n := U8()
			Reject(n + 1 > 1 << log_alpha)
			Out("SymbolDistributionBase.alphabetSize", n + 1)
		} else {
			l0 := Bool()
			l := 0
			if l0 {
				l1 := Bool()
				l = 1
				if l1 {
					l2 := Bool()
					l = 2
					if l2 {
						l = 3
					}
				}
			}
			shift_bits := u(l)
			Reject((shift_bits | 1 << l) - 1 > 13)
			len_minus_3 := U8()
			Reject(len_minus_3 + 3 > 1 << log_alpha)
			for i := range Opaque("counts") {
				log_count := VLC()
				if log_count == 13 {
					repeat := U8()
				}
			}
			for i := range Opaque("bits") {
				low := u(Opaque("n"))
			}
			Out("SymbolDistributionBase.alphabetSize", len_minus_3 + 3)
		}
	}
}

func SimplePrefix() {
	log_alpha := In("SymbolDistributionBase.logAlphabetSize", 1, 15)
	nsym_minus_1 := u(2)
	for i := range nsym_minus_1 + 1 {
		sym := u(log_alpha)
	}
	if nsym_minus_1 == 3 {
		tree_select := Bool()
	}
}

func TOC() {
	groups := Vals("Frame.numGroups", 1, 2, 5)
	lf_groups := Vals("Frame.numLFGroups", 1, 2)
	passes := Vals("PassesInfo.numPasses", 1, 2, 3)
	n := If(groups == 1 && passes == 1, 1, 2 + lf_groups + groups * passes)
	permuted := Bool()
	if permuted {
		es := Entropy(8)
		perm := Permutation(n, 0)
	}
	Align()
	for i := range n {
		size := U32(0, 10, 1024, 14, 17408, 22, 4211712, 30)
		Keep(size, size)
	}
	Align()
}
`

var sectionUnits = []gunit{
	{fn: "frame.NewLFChannelCorrelationWithReader", spec: "LFChannelCorrelation"},
	{fn: "frame.NewHFBlockContextWithReader", spec: "HFBlockContext"},
	{fn: "frame.NewWPParams", spec: "WPParams"},
	{fn: "frame.NewSqueezeParam", spec: "SqueezeParam"},
	{fn: "frame.NewTransformInfo", spec: "TransformInfo"},
	{fn: "frame.NewHFPassWithReader", spec: "HFPass"},
	{fn: "frame.NewHFGlobalWithReader", spec: "HFGlobal", opaque: []string{"generateWeights"}},
	{fn: "frame.(*HFGlobal).setupDCTParam", spec: "QuantTable"},
	{fn: "frame.NewHFMetadataWithReader", spec: "HFMetadata"},
	{fn: "frame.NewLFCoefficientsWithReader", spec: "LFCoefficients"},
	{fn: "frame.NewLFGlobalWithReader", spec: "LFGlobal"},
	{fn: "frame.NewLFGroupWithReader", spec: "LFGroup"},
	{fn: "frame.NewPassGroupWithReader", spec: "PassGroup"},
	{fn: "frame.NewHFCoefficientsWithReader", spec: "HFCoefficients"},
	{fn: "frame.NewModularStreamWithChannels", spec: "ModularHeader"},
	{fn: "frame.NewMATreeWithReader", spec: "MATree"},
	{fn: "entropy.NewHybridIntegerConfigWithReader", spec: "HybridConfig"},
	{fn: "entropy.(*EntropyStream).LoadWithReader", spec: "Entropy0"},
	{fn: "entropy.ReadClusterMap", spec: "Clusters0"},
	{fn: "entropy.ReadClusterMap", spec: "ClustersSimple", exact: true, label: "simple"},
	{fn: "entropy.NewANSSymbolDistribution", spec: "ANS"},
	{fn: "entropy.(*PrefixSymbolDistribution).populateSimplePrefix", spec: "SimplePrefix"},
	{fn: "frame.(*Frame).ReadTOC", spec: "TOC"},
}

func init() {
	register("P20", "other", grammarExplain, func(w *World, r *Result, th bool) {
		grammarRules(r)
		w.grammarUnits(r, grammarSection, sectionUnits)
	})
}
