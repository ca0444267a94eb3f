package main

import "fmt"

// P24: the bit reader itself. A unit is a sequence of operations on a new
// reader; the result of the last one is compared.

type bitOp struct {
	fn string
	n  int // bits
}

func (o bitOp) call() gcall {
	switch o.fn {
	case "ReadBits", "SkipBits", "ShowBits":
		return gcall{"jxlio.(*BitStreamReader)." + o.fn, []int64{int64(o.n)}}
	case "Skip", "ReadBytesUint64":
		return gcall{"jxlio.(*BitStreamReader)." + o.fn, []int64{int64(o.n / 8)}}
	}
	return gcall{"jxlio.(*BitStreamReader)." + o.fn, nil}
}

// bitsSpec: the bits of the last operation, and the bytes all of them take.
func bitsSpec(name string, ops []bitOp) string {
	at, b, last := 0, "", ops[len(ops)-1]
	if last.fn == "ReadBits" || last.fn == "ShowBits" || last.fn == "SkipBits" {
		b += fmt.Sprintf("\tbits := Vals(\"arg1\", %d)\n", last.n)
	} else if last.fn == "Skip" || last.fn == "ReadBytesUint64" {
		b += fmt.Sprintf("\tbits := Vals(\"arg1\", %d)\n", last.n/8)
	}
	bytes, v := 0, "0"
	for i, o := range ops {
		if o.fn == "ZeroPadToByte" {
			o.n = (8 - at%8) % 8
		}
		end := at + o.n
		if o.fn == "Reset" {
			at, end = 0, 0
		}
		for ; bytes*8 < end; bytes++ {
			if o.n == 64 && bytes*8+8 >= end {
				// the highest bit clear: the specification computes with signed numbers
				m := 1<<(end-bytes*8-1) - 1
				b += fmt.Sprintf("\tDomain(\"b%d\", 0, %d, %d, %d)\n", bytes, m&1, m&90, m)
			} else {
				b += fmt.Sprintf("\tDomain(\"b%d\", 0, 1, 90, 165, 128, 255)\n", bytes)
			}
			b += fmt.Sprintf("\tb%d := u(8)\n", bytes)
		}
		if i == len(ops)-1 && o.fn != "SkipBits" && o.fn != "Skip" {
			for at < end {
				take := min(8-at%8, end-at)
				v += fmt.Sprintf(" | (((b%d >> %d) & %d) << %d)", at/8, at%8, 1<<take-1, at-(end-o.n))
				at += take
			}
		}
		at = end
		if o.fn == "ShowBits" || o.fn == "AtEnd" {
			at -= o.n
		}
	}
	switch last.fn {
	case "ReadBits", "ShowBits", "ReadByte", "readBit", "ReadBytesUint64":
		b += fmt.Sprintf("\tOut(\"\", %s)\n", v)
	case "ReadBool":
		b += fmt.Sprintf("\tOut(\"\", (%s) != 0)\n", v)
	case "AtEnd":
		b += "\tOut(\"\", false)\n"
	case "BitsRead", "GetBitsCount":
		b += fmt.Sprintf("\tOut(\"\", %d)\n", at)
	}
	return fmt.Sprintf("func %s() {\n%s}\n\n", name, b)
}

const bitsExplain = "abstract interpretation of sequences of operations on a new bit reader: the stream is a sequence of symbolic bytes, every value is a set of guarded terms over them, and the result of the last operation is compared with the bits that are next"

func bitSequences() [][]bitOp {
	rb := func(n int) bitOp { return bitOp{"ReadBits", n} }
	sb := func(n int) bitOp { return bitOp{"SkipBits", n} }
	var out [][]bitOp
	for k := 0; k < 8; k++ {
		for _, n := range []int{0, 1, 2, 3, 5, 7, 8, 9, 12, 16, 17, 24, 31, 32, 40, 57, 63, 64} {
			out = append(out, []bitOp{rb(k), rb(n)})
			if n >= 8 {
				out = append(out, []bitOp{rb(k), rb(n), {"ReadBool", 1}}, []bitOp{rb(k), rb(n), rb(6)}, []bitOp{rb(k), rb(n), {"ZeroPadToByte", 0}, {"ReadByte", 8}})
			}
		}
		for _, o := range []bitOp{{"ReadBool", 1}, {"readBit", 1}, {"ReadByte", 8}} {
			out = append(out, []bitOp{rb(k), o}, []bitOp{rb(k), o, rb(4)}, []bitOp{rb(k), o, o}, []bitOp{rb(k + 9), o, rb(13)})
		}
		out = append(out, []bitOp{rb(k), {"ZeroPadToByte", 0}, rb(6)}, []bitOp{rb(k + 8), {"ZeroPadToByte", 0}, {"ZeroPadToByte", 0}, rb(9)}, []bitOp{rb(k), {"ZeroPadToByte", 0}, {"ReadBool", 1}, rb(3)})
		for _, n := range []int{0, 1, 3, 8 - k, 7, 8, 9, 15, 16, 20, 24} {
			out = append(out, []bitOp{rb(k), sb(n), rb(5)}, []bitOp{rb(k), sb(n), sb(3), {"ReadBool", 1}})
		}
		out = append(out, []bitOp{rb(k), {"Skip", 8}, rb(5)}, []bitOp{rb(k), {"Skip", 24}, rb(10)})
		for _, c := range []string{"BitsRead", "GetBitsCount"} {
			out = append(out, []bitOp{rb(k), rb(13), sb(6), {c, 0}}, []bitOp{rb(k), {"ReadBool", 1}, {"ZeroPadToByte", 0}, {c, 0}}, []bitOp{rb(k), sb(21), {"ReadByte", 8}, {c, 0}}, []bitOp{rb(k), {"Skip", 16}, {c, 0}})
		}
		for _, n := range []int{1, 4, 8, 11} {
			show := bitOp{"ShowBits", n}
			out = append(out, []bitOp{rb(k), show}, []bitOp{rb(k), show, rb(n + 2)}, []bitOp{rb(k), show, sb(n), rb(9)}, []bitOp{rb(k), show, {"BitsRead", 0}})
		}
		out = append(out, []bitOp{rb(k), {"AtEnd", 1}}, []bitOp{rb(k), {"AtEnd", 1}, rb(9)}, []bitOp{rb(k), {"Reset", 0}, rb(11)}, []bitOp{rb(k + 16), {"Reset", 0}, {"ReadBool", 1}})
		if k > 0 {
			u := bitOp{"ReadBytesUint64", 8 * k}
			out = append(out, []bitOp{u}, []bitOp{rb(8), u}, []bitOp{rb(3), {"ZeroPadToByte", 0}, u, rb(5)})
		}
		for j := 1; j < 8; j++ {
			out = append(out, []bitOp{rb(k), rb(j), rb(11)}, []bitOp{rb(k), rb(j), rb(8 - j), rb(2), rb(9)})
		}
	}
	return out
}

func init() {
	register("P24", "other", bitsExplain, func(w *World, r *Result, th bool) {
		r.Rules = append(r.Rules,
			"the last operation of each sequence returns the next bits of the stream, least significant first, after those the operations before it took",
			"the bytes taken from the stream are the ones that hold the bits taken",
		)
		r.Assume = append(r.Assume, "bits and bytes are compared over a finite set of values of each byte")
		src := ""
		var units []gunit
		for i, ops := range bitSequences() {
			n := fmt.Sprintf("Bits%d", i)
			src += bitsSpec(n, ops)
			u := gunit{fn: ops[len(ops)-1].call().fn, spec: n, exact: true, raw: true, make: "jxlio.NewBitStreamReader"}
			for j, o := range ops {
				if j < len(ops)-1 {
					u.before = append(u.before, o.call())
				}
				if o.n > 0 {
					u.label += fmt.Sprintf("%s(%d) ", o.fn, o.n)
				} else {
					u.label += o.fn + " "
				}
			}
			u.label = u.label[:len(u.label)-1]
			units = append(units, u)
		}
		w.grammarUnits(r, src, units)
	})
}
