package main

// P21: the codings everything else is built from: what ReadU32, ReadU64, ReadF16
// and the others consume and return, the sign mapping, hybrid integers, and the
// contexts of the coefficient decoder.

const grammarCoding = `
func U32() {
	c0 := Vals("arg1", 0, 1, 5)
	u0 := Vals("arg2", 0, 3, 30)
	c1 := Vals("arg3", 0, 2, 6)
	u1 := Vals("arg4", 0, 4, 31)
	c2 := Vals("arg5", 0, 3, 7)
	u2 := Vals("arg6", 0, 5, 29)
	c3 := Vals("arg7", 0, 4, 8)
	u3 := Vals("arg8", 0, 6, 32)
	Domain("bits", 0, 1, 7, 40)
	choice := u(2)
	bits := u(If(choice == 0, u0, If(choice == 1, u1, If(choice == 2, u2, u3))))
	Out("", If(choice == 0, c0, If(choice == 1, c1, If(choice == 2, c2, c3))) + bits)
}

func U64() {
	choice := u(2)
	if choice == 0 {
		Out("", 0)
	}
	if choice == 1 {
		b4 := u(4)
		Out("", b4 + 1)
	}
	if choice == 2 {
		b8 := u(8)
		Out("", b8 + 17)
	}
	if choice == 3 {
		b12 := u(12)
		Rest()
	}
}

func U64Long() {
	Domain("choice", 3)
	choice := u(2)
	Unsupported(choice != 3)
	Domain("b12", 0, 1, 2730, 4095)
	b12 := u(12)
	m1 := Bool()
	if m1 {
		Domain("x1", 0, 1, 170, 255)
		x1 := u(8)
		m2 := Bool()
		if m2 {
			Domain("x2", 0, 1, 170, 255)
			x2 := u(8)
			m3 := Bool()
			if m3 {
				Domain("x3", 0, 1, 170, 255)
				x3 := u(8)
				m4 := Bool()
				if m4 {
					Domain("x4", 0, 1, 170, 255)
					x4 := u(8)
					m5 := Bool()
					if m5 {
						Domain("x5", 0, 1, 170, 255)
						x5 := u(8)
						m6 := Bool()
						if m6 {
							Domain("x6", 0, 1, 170, 255)
							x6 := u(8)
							m7 := Bool()
							if m7 {
								Domain("x7", 0, 1, 5, 7)
								x7 := u(4)
								Out("", b12 + (x1 << 12) + (x2 << 20) + (x3 << 28) + (x4 << 36) + (x5 << 44) + (x6 << 52) + (x7 << 60))
							} else {
								Out("", b12 + (x1 << 12) + (x2 << 20) + (x3 << 28) + (x4 << 36) + (x5 << 44) + (x6 << 52))
							}
						} else {
							Out("", b12 + (x1 << 12) + (x2 << 20) + (x3 << 28) + (x4 << 36) + (x5 << 44))
						}
					} else {
						Out("", b12 + (x1 << 12) + (x2 << 20) + (x3 << 28) + (x4 << 36))
					}
				} else {
					Out("", b12 + (x1 << 12) + (x2 << 20) + (x3 << 28))
				}
			} else {
				Out("", b12 + (x1 << 12) + (x2 << 20))
			}
		} else {
			Out("", b12 + (x1 << 12))
		}
	} else {
		Out("", b12)
	}
}

func F16() {
	Domain("bits", 0, 1, 2, 1023, 1024, 1025, 15360, 16384, 17505, 31743, 31744, 31745, 32767, 32768, 32769, 33791, 33792, 48128, 64511, 64512, 65535)
	bits := u(16)
	Reject((bits >> 10) & 31 == 31)
	Out("", Fn("half", bits))
}

func Enum() {
	Domain("sel_bits", 0, 1, 2, 17, 18, 19, 63, 64, 81)
	sel_bits := Enum()
	Reject(sel_bits > 63)
	Out("", sel_bits)
}

func U8() {
	Domain("bits", 0, 1, 2, 7, 127)
	some := Bool()
	if some {
		n := u(3)
		bits := u(n)
		Out("", bits + (1 << n))
	} else {
		Out("", 0)
	}
}

func Varint() {
	b0 := u(8)
	if b0 <= 127 {
		Out("", b0)
	} else {
		b1 := u(8)
		if b1 <= 127 {
			Out("", (b0 & 127) + b1 * 128)
		} else {
			Rest()
		}
	}
}

func UnpackSigned() {
	v := Vals("arg0", 0, 1, 2, 3, 4, 5, 254, 255, 65535, 2147483646, 2147483647, 2147483648, 2147483649, 4294967294, 4294967295)
	Out("", Unsign(v))
}

func UnpackSigned64() {
	v := Vals("arg0", 0, 1, 2, 3, 4, 5, 254, 255, 65535, 2147483648, 2147483649, 4294967295, 4294967297)
	Out("", Unsign(v))
}

func HybridInteger() {
	split_exp := Vals("HybridIntegerConfig.SplitExponent", 0, 1, 4, 5)
	msb := Vals("HybridIntegerConfig.MsbInToken", 0, 1, 2)
	lsb := Vals("HybridIntegerConfig.LsbInToken", 0, 1, 2)
	token := Vals("arg3", 0, 1, 2, 15, 16, 17, 31, 32, 33, 38, 47)
	Domain("bits", 0, 1, 5)
	Unsupported(msb + lsb > split_exp)
	if token < 1 << split_exp {
		Out("", token)
	} else {
		n := split_exp - msb - lsb + ((token - (1 << split_exp)) >> (msb + lsb))
		Unsupported(n > 24)
		bits := u(n)
		hi := ((token >> lsb) & ((1 << msb) - 1)) | (1 << msb)
		Out("", (((hi << n) | bits) << lsb) | (token & ((1 << lsb) - 1)))
	}
}

func Symbol() {
	copying := Vals("EntropyStream.numToCopy77", 0, 1, 2)
	lz77 := InBool("EntropyStream.usesLZ77")
	min_symbol := Vals("EntropyStream.lz77MinSymbol", 224, 512)
	min_length := Vals("EntropyStream.lz77MinLength", 3, 9)
	decoded := Vals("EntropyStream.numDecoded77", 0, 5, 3000000)
	mult := Vals("arg3", 0, 1, 300)
	Domain("token", 0, 1, 223, 224, 511, 512, 600)
	Domain("length", 0, 1, 100)
	Domain("distance", 0, 1, 4, 119, 120, 121, 124, 125, 1048575, 1048576, 1048694, 1048695, 1048696)
	if copying == 0 {
		token := Sym(Opaque("state"))
		if lz77 && token >= min_symbol {
			length := Hybrid(Opaque("config"), token - min_symbol)
			distance_token := Sym(Opaque("state"))
			distance := Hybrid(Opaque("config"), distance_token)
			Unsupported(mult != 0 && distance < 120)
			rest := Sym(Opaque("again"))
			Keep(length, min_length + length)
			Keep(distance, decoded - Min(If(mult == 0, distance + 1, distance - 119), 1048576, decoded))
		} else {
			value := Hybrid(Opaque("config"), token)
		}
	}
}

func NonZeroContext() {
	predicted := Vals("arg1", 0, 1, 7, 8, 9, 10, 62, 63, 64, 65, 66, 1000)
	ctx := Vals("arg2", 0, 1, 14)
	clusters := Vals("HFBlockContext.numClusters", 1, 15, 16)
	Out("", ctx + clusters * If(predicted < 8, predicted, 4 + Min(predicted, 64) / 2))
}
`

var codingUnits = []gunit{
	{fn: "jxlio.(*BitStreamReader).ReadU32", spec: "U32"},
	{fn: "jxlio.(*BitStreamReader).ReadU64", spec: "U64"},
	{fn: "jxlio.(*BitStreamReader).ReadU64", spec: "U64Long", exact: true, label: "from 273"},
	{fn: "jxlio.(*BitStreamReader).ReadF16", spec: "F16"},
	{fn: "jxlio.(*BitStreamReader).ReadEnum", spec: "Enum"},
	{fn: "jxlio.(*BitStreamReader).ReadU8", spec: "U8"},
	{fn: "jxlio.(*BitStreamReader).ReadICCVarint", spec: "Varint"},
	{fn: "jxlio.UnpackSigned", spec: "UnpackSigned"},
	{fn: "jxlio.UnpackSigned64", spec: "UnpackSigned64"},
	{fn: "entropy.(*EntropyStream).ReadHybridInteger", spec: "HybridInteger"},
	{fn: "entropy.(*EntropyStream).ReadSymbolWithMultiplier", spec: "Symbol"},
	{fn: "frame.(*HFCoefficients).getNonZeroContext", spec: "NonZeroContext"},
}

func init() {
	register("P21", "other", grammarExplain, func(w *World, r *Result, th bool) {
		grammarRules(r)
		w.grammarUnits(r, grammarCoding, codingUnits)
	})
}
