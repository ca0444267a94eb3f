package main

import (
	"fmt"
	"strings"
)

// P25: where groups and blocks lie, and the contexts their coefficients are
// coded in.

const geomSpec = `
func padded(size int, vardct bool, up int) (v int) {
	f := 1 << up
	return If(vardct, 8 * f * CeilDiv(CeilDiv(size, 8), f), f * CeilDiv(size, f))
}
`

func init() {
	register("P25", "other", formulaExplain, func(w *World, r *Result, th bool) {
		formulaRules(r)
		src := geomSpec
		var units []gunit
		add := func(fn, name, label, body string) {
			src += fmt.Sprintf("func %s() {\n%s}\n\n", name, body)
			units = append(units, gunit{fn: fn, spec: name, label: label, exact: true})
		}
		for i, up := range [][2][3]int{{{0, 0, 0}, {0, 0, 0}}, {{1, 0, 0}, {0, 1, 0}}, {{0, 1, 1}, {0, 0, 0}}, {{0, 0, 0}, {0, 0, 1}}} {
			add("frame.(*Frame).GetPaddedFrameSize", fmt.Sprintf("Padded%d", i), fmt.Sprintf("upsampling %v", up), upVals(up, "arg0.Header")+`
	enc := Vals("arg0.Header.Encoding", 0, 1)
	h := Vals("arg0.Header.Bounds.Size.Height", 1, 7, 8, 9, 15, 16, 17, 33)
	w := Vals("arg0.Header.Bounds.Size.Width", 1, 7, 8, 9, 16, 24, 25, 1000)
`+fmt.Sprintf("\tOut(\".Height\", padded(h, enc == 0, %d))\n\tOut(\".Width\", padded(w, enc == 0, %d))\n", max3(up[0]), max3(up[1])))
		}
		frameVals := func(lf bool) string {
			return upVals([2][3]int{{0, 0, 0}, {0, 0, 0}}, "arg0.Header") + `
	enc := Vals("arg0.Header.Encoding", 0, 1)
	h := Vals("arg0.Header.Bounds.Size.Height", 513, 1024, 1031, 2048, 2050)
	w := Vals("arg0.Header.Bounds.Size.Width", 513, 1017, 1024, 2047, 2048)
`
		}
		for _, id := range []int{0, 1, 2, 3} {
			// two groups in a row
			add("frame.(*Frame).getLFGroupSize", fmt.Sprintf("LFGroupSize%d", id), fmt.Sprintf("group %d", id), frameVals(true)+fmt.Sprintf(`
	id := Vals("arg1", %d)
	row := Vals("arg0.lfGroupRowStride", 2)
	dim := Vals("arg0.Header.lfGroupDim", 512)
	Out(".Height", Min(dim, padded(h, enc == 0, 0) - %d * dim))
	Out(".Width", Min(dim, padded(w, enc == 0, 0) - %d * dim))
`, id, id/2, id%2))
			add("frame.(*Frame).getGroupSize", fmt.Sprintf("GroupSize%d", id), fmt.Sprintf("group %d", id), frameVals(true)+fmt.Sprintf(`
	id := Vals("arg1", %d)
	row := Vals("arg0.groupRowStride", 2)
	dim := Vals("arg0.Header.groupDim", 256, 512)
	Out(".Height", Min(dim, padded(h, enc == 0, 0) - %d * dim))
	Out(".Width", Min(dim, padded(w, enc == 0, 0) - %d * dim))
`, id, id/2, id%2))
		}
		add("frame.(*Frame).getLFGroupLocation", "LFGroupLocation", "", `
	id := Vals("arg1", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9)
	row := Vals("arg0.lfGroupRowStride", 1, 2, 3, 5)
	Out(".Y", id / row)
	Out(".X", id % row)
`)
		add("frame.(*Frame).getGroupLocation", "GroupLocation", "", `
	id := Vals("arg1", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 30, 31)
	row := Vals("arg0.groupRowStride", 1, 2, 3, 5, 16)
	Out(".Y", id / row)
	Out(".X", id % row)
`)
		add("frame.(*Frame).groupPosInLFGroup", "GroupInLFGroup", "", `
	lf := Vals("arg1", 0, 1, 2, 3, 4, 5)
	id := Vals("arg2", 0, 7, 8, 17, 20, 21, 28, 171, 180, 300)
	row := Vals("arg0.groupRowStride", 10, 20)
	lfrow := Vals("arg0.lfGroupRowStride", 2, 3)
	Out(".Y", id / row - lf / lfrow * 8)
	Out(".X", id % row - lf % lfrow * 8)
`)
		for _, id := range []int{0, 7, 8, 9, 79, 80, 88, 89} {
			add("frame.(*Frame).getLFGroupForGroup", fmt.Sprintf("LFGroupOf%d", id), fmt.Sprintf("group %d", id), fmt.Sprintf(`
	id := Vals("arg1", %d)
	row := Vals("arg0.groupRowStride", 10)
	lfrow := Vals("arg0.lfGroupRowStride", 2)
	n := Vals("len(arg0.lfGroups)", 4)
	a := Vals("arg0.lfGroups[][0].lfGroupID", 10)
	b := Vals("arg0.lfGroups[][1].lfGroupID", 11)
	c := Vals("arg0.lfGroups[][2].lfGroupID", 12)
	d := Vals("arg0.lfGroups[][3].lfGroupID", 13)
	Out(".lfGroupID", %d)
`, id, 10+id/10/8*2+id%10/8))
		}
		for _, n := range []int{1, 2, 3, 7} {
			var cs []string
			for c := -min(3*n, 9); c < 3*n; c++ {
				cs = append(cs, fmt.Sprint(c))
			}
			for _, fn := range []string{"frame.mirrorCoord", "util.MirrorCoordinate"} {
				add(fn, fmt.Sprintf("Mirror%d_%d", n, len(fn)), fmt.Sprintf("size %d", n), fmt.Sprintf(`
	at := Vals("arg0", %s)
	size := Vals("arg1", %d)
	m := (at + %d) %% %d
	Out("", If(m < %d, m, %d - m))
`, strings.Join(cs, ", "), n, 12*n, 2*n, n, 2*n-1))
			}
		}
		add("frame.(*Frame).IsVisible", "Visible", "", `
	kind := Vals("arg0.Header.FrameType", 0, 1, 2, 3)
	last := InBool("arg0.Header.IsLast")
	dur := Vals("arg0.Header.Duration", 0, 1, 50)
	Out("", kind == 0 || kind == 3 && (dur != 0 || last))
`)
		for _, fn := range []string{"GetColourChannelCount", "getColourChannelCount"} {
			add("frame.(*Frame)."+fn, "Colours"+fn, "", `
	enc := Vals("arg0.Header.Encoding", 0, 1)
	xyb := InBool("arg0.GlobalMetadata.XybEncoded")
	space := Vals("arg0.GlobalMetadata.ColourEncoding.ColourEncoding", 0, 1, 2, 3)
	Out("", If(xyb || enc == 0, 3, If(space == 1, 1, 3)))
`)
		}
		src += `
func ctx(x int) (v int) {
	return Min(7, CeilLog2(x + 1))
}
`
		add("frame.ctxFunc", "CtxOf", "", `
	v := Vals("arg0", 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 31, 32, 63, 64, 65, 127, 128, 1000)
	Out("", ctx(v))
`)
		// contexts
		for i, t := range [][]int{{}, {5}, {5, 9}} {
			for _, c := range []int{0, 1, 2} {
				for _, ord := range []int{0, 1, 7, 12} {
					for j, m := range []int{4, 5, 6, 9, 10} {
						lf := (i + j + ord) % 3
						idx := []int{1, 0, 2}[c]*13 + ord
						k := 0
						b := fmt.Sprintf("\tc := Vals(\"arg1\", %d)\n\torder := Vals(\"arg2\", %d)\n\tmult := Vals(\"arg3\", %d)\n\tlf := Vals(\"arg4\", %d)\n\tnlf := Vals(\"arg0.hfctx.numLFContexts\", 3)\n\tnq := Vals(\"len(arg0.hfctx.qfThresholds)\", %d)\n", c, ord, m, lf, len(t))
						for ti, tv := range t {
							b += fmt.Sprintf("\tt%d := Vals(\"arg0.hfctx.qfThresholds[][%d]\", %d)\n", ti, ti, tv)
							if m > tv {
								k++
							}
						}
						idx = (idx*(len(t)+1)+k)*3 + lf
						for e := 0; e < 39*(len(t)+1)*3; e++ {
							b += fmt.Sprintf("\tm%d := Vals(\"arg0.hfctx.clusterMap[][%d]\", %d)\n", e, e, e)
						}
						add("frame.(*HFCoefficients).getBlockContext", fmt.Sprintf("BlockContext%d_%d_%d_%d", i, c, ord, j), fmt.Sprintf("channel %d, order %d, multiplier %d, thresholds %v", c, ord, m, t), b+fmt.Sprintf("\tOut(\"\", %d)\n", idx))
					}
				}
			}
		}
		for _, p := range []modPos{{"", 0, 0, 0}, {"", 0, 2, 0}, {"", 3, 0, 0}, {"", 1, 1, 0}, {"", 3, 2, 0}} {
			for c := 0; c < 3; c++ {
				b := fmt.Sprintf("\tc := Vals(\"arg1\", %d)\n\ty := Vals(\"arg2\", %d)\n\tx := Vals(\"arg3\", %d)\n", c, p.y, p.x)
				for y := 0; y <= p.y; y++ {
					for x := 0; x <= p.x; x++ {
						v := fmt.Sprintf("%d", 1000+y*10+x)
						if y == p.y && x == p.x-1 {
							v = "0, 1, 2, 17"
						} else if y == p.y-1 && x == p.x {
							v = "0, 3, 8"
						}
						b += fmt.Sprintf("\tn%d_%d := Vals(\"arg0[][%d][][%d][][%d]\", %s)\n", y, x, c, y, x, v)
					}
				}
				e := "32"
				n, w := fmt.Sprintf("n%d_%d", p.y-1, p.x), fmt.Sprintf("n%d_%d", p.y, p.x-1)
				switch {
				case p.x > 0 && p.y > 0:
					e = fmt.Sprintf("(%s + %s + 1) / 2", n, w)
				case p.x > 0:
					e = w
				case p.y > 0:
					e = n
				}
				add("frame.getPredictedNonZeros", fmt.Sprintf("NonZeros%d_%d_%d", c, p.y, p.x), fmt.Sprintf("row %d, column %d", p.y, p.x), b+"\tOut(\"\", "+e+")\n")
			}
		}
		for i, k := range []struct{ k, nz, nb, prev int }{{1, 1, 1, 0}, {1, 63, 1, 1}, {63, 5, 1, 0}, {8, 9, 1, 1}, {17, 2, 4, 0}, {255, 252, 4, 1}, {5, 6, 4, 0}, {130, 65, 16, 1}, {700, 16, 16, 0}, {64, 64, 64, 0}, {4095, 130, 64, 1}, {66, 1, 2, 0}, {3, 2, 2, 1}} {
			nz, at := (k.nz+k.nb-1)/k.nb, k.k/k.nb
			add("frame.(*HFCoefficients).getCoefficientContext", fmt.Sprintf("CoefficientContext%d", i), fmt.Sprintf("coefficient %d, %d left, %d blocks", k.k, k.nz, k.nb), fmt.Sprintf(`
	k := Vals("arg1", %d)
	nz := Vals("arg2", %d)
	nb := Vals("arg3", %d)
	prev := Vals("arg4", %d)
	Out("", %d)
`, k.k, k.nz, k.nb, k.prev, (numNonzeroContext[nz]+frequencyContext[at])*2+k.prev))
		}
		for i, ln := range [][3]int{{0, 0, 0}, {1, 0, 2}, {2, 1, 0}, {0, 2, 1}, {1, 1, 1}, {0, 0, 1}} {
			for _, up := range [][2][3]int{{{0, 0, 0}, {0, 0, 0}}, {{1, 0, 1}, {1, 0, 1}}} {
				y, x := 1, 3
				b := fmt.Sprintf("\ty := Vals(\"arg3\", %d)\n\tx := Vals(\"arg4\", %d)\n", y, x)
				b += upVals(up, ifaceFrame+".Header")
				b += "\tnt := Vals(\"len(arg2.lfThresholds)\", 3)\n"
				sum := ""
				for j, c := range []int{0, 2, 1} {
					b += fmt.Sprintf("\tn%d := Vals(\"len(arg2.lfThresholds[][%d])\", %d)\n", c, c, ln[c])
					b += fmt.Sprintf("\tq%d := Vals(\"arg1[][%d][][%d][][%d]\", -1, 0, 3, 4, 5, 9, 10)\n", c, []int{1, 0, 2}[c], y>>up[0][c], x>>up[1][c])
					for o := 0; o < 8; o++ {
						if o/4 != y>>up[0][c] || o%4 != x>>up[1][c] {
							b += fmt.Sprintf("\to%d_%d := Vals(\"arg1[][%d][][%d][][%d]\", 0)\n", c, o, []int{1, 0, 2}[c], o/4, o%4)
						}
					}
					s := "0"
					for t := 0; t < ln[c]; t++ {
						b += fmt.Sprintf("\tt%d_%d := Vals(\"arg2.lfThresholds[][%d][][%d]\", %d)\n", c, t, c, t, []int{4, -1}[t%2])
						s += fmt.Sprintf(" + If(q%d > t%d_%d, 1, 0)", c, c, t)
					}
					if j == 0 {
						sum = "(" + s + ")"
					} else {
						sum = fmt.Sprintf("(%s * %d + %s)", sum, ln[c]+1, s)
					}
				}
				add("frame.(*LFCoefficients).getLFIndex", fmt.Sprintf("LFIndex%d_%d", i, up[0][0]), fmt.Sprintf("thresholds %v, upsampling %v", ln, up), b+"\tOut(\"\", "+sum+")\n")
			}
		}
		for i, t := range [][3]int{{8, 8, 0}, {8, 8, 1}, {16, 8, 0}, {8, 16, 0}, {16, 16, 0}, {32, 8, 0}, {8, 32, 0}, {4, 8, 4}} {
			add("frame.(TransformType).flip", fmt.Sprintf("Flip%d", i), fmt.Sprintf("%v", t), fmt.Sprintf(`
	h := Vals("arg0.pixelHeight", %d)
	w := Vals("arg0.pixelWidth", %d)
	m := Vals("arg0.transformMethod", %d)
	Out("", h > w || m == 0 && h == w)
`, t[0], t[1], t[2]))
		}
		w.grammarUnits(r, src, units)
	})
}
func max3(a [3]int) int { return max(a[0], a[1], a[2]) }

func upVals(up [2][3]int, at string) string {
	s := ""
	for i, d := range []string{"Y", "X"} {
		s += fmt.Sprintf("\tn%[1]s := Vals(\"len(%[2]s.jpegUpsampling%[1]s)\", 3)\n", d, at)
		for c := 0; c < 3; c++ {
			s += fmt.Sprintf("\tu%[1]s%[3]d := Vals(\"%[2]s.jpegUpsampling%[1]s[][%[3]d]\", %[4]d)\n", d, at, c, up[i][c])
		}
	}
	return s
}

const ifaceFrame = "iface:*github.com/kpfaulkner/jxl-go/frame.Frame"

// the context tables of the format
var numNonzeroContext = []int{
	0xbad, 0, 31, 62, 62, 93, 93, 93, 93, 123, 123, 123, 123, 152, 152, 152,
	152, 152, 152, 152, 152, 180, 180, 180, 180, 180, 180, 180, 180, 180, 180, 180,
	180, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206,
	206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206, 206,
}

var frequencyContext = []int{
	0xbad, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14,
	15, 15, 16, 16, 17, 17, 18, 18, 19, 19, 20, 20, 21, 21, 22, 22,
	23, 23, 23, 23, 24, 24, 24, 24, 25, 25, 25, 25, 26, 26, 26, 26,
	27, 27, 27, 27, 28, 28, 28, 28, 29, 29, 29, 29, 30, 30, 30, 30,
}
