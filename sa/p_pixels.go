package main

import (
	"fmt"
	"math"
	"strings"
)

// P26: what happens to samples between a decoded frame and the image.

// orientSpec: sample (y, x) of the source goes to the place the EXIF
// orientation gives it.
func orientSpec(o, h, w int, float bool) string {
	kind, leaf, typ := "IntBuffer", "arg1.IntBuffer", 0
	if float {
		kind, leaf, typ = "FloatBuffer", "arg1.FloatBuffer", 1
	}
	b := fmt.Sprintf("\to := Vals(\"arg2\", %d)\n\tt := Vals(\"arg1.BufferType\", %d)\n\th := Vals(\"arg1.Height\", %d)\n\tw := Vals(\"arg1.Width\", %d)\n\tn := Vals(\"len(%s)\", %d)\n", o, typ, h, w, leaf, h)
	out := ""
	for y := 0; y < h; y++ {
		b += fmt.Sprintf("\tn%d := Vals(\"len(%s[][%d])\", %d)\n", y, leaf, y, w)
		for x := 0; x < w; x++ {
			b += fmt.Sprintf("\ts%d_%d := Vals(\"%s[][%d][][%d]\", %d)\n", y, x, leaf, y, x, 10*y+x+1)
			var ty, tx int
			switch o {
			case 1:
				ty, tx = y, x
			case 2:
				ty, tx = y, w-1-x
			case 3:
				ty, tx = h-1-y, w-1-x
			case 4:
				ty, tx = h-1-y, x
			case 5:
				ty, tx = x, y
			case 6:
				ty, tx = x, h-1-y
			case 7:
				ty, tx = w-1-x, h-1-y
			case 8:
				ty, tx = w-1-x, y
			}
			out += fmt.Sprintf("\tOut(\".%s[%d][%d]\", %d)\n", kind, ty, tx, 10*y+x+1)
		}
	}
	if o > 4 {
		h, w = w, h
	}
	return b + out + fmt.Sprintf("\tOut(\".Height\", %d)\n\tOut(\".Width\", %d)\n\tOut(\".BufferType\", %d)\n", h, w, typ)
}

// blendCase is a frame of fh x fw samples at (oy, ox) of a 2 x 2 image.
type blendCase struct {
	mode, ecMode   int
	alpha          int // 0 none, 1 straight, 2 premultiplied
	clamp          bool
	oy, ox, fh, fw int
	source, ecSrc  int
	float          bool
	fcolours       int // colour channels of the frame
	emptyRef       bool
	intAlpha       bool // the frame's alpha is made of integers
}

func (c blendCase) String() string {
	s := fmt.Sprintf("mode %d, %dx%d at %d,%d", c.mode, c.fh, c.fw, c.oy, c.ox)
	if c.alpha > 0 {
		s += fmt.Sprintf(", alpha %d mode %d", c.alpha, c.ecMode)
	}
	if c.clamp {
		s += ", clamp"
	}
	if !c.float {
		s += ", integers"
	}
	if c.fcolours == 3 {
		s += ", gray of three"
	}
	if c.intAlpha {
		s += ", integer alpha"
	}
	if c.emptyRef {
		s += ", no reference"
	}
	return s
}

func blendSpec(c blendCase) string {
	kind, typ := "IntBuffer", 0
	if c.float {
		kind, typ = "FloatBuffer", 1
	}
	isFloat := c.float
	n := 1
	if c.alpha > 0 {
		n = 2
	}
	var b strings.Builder
	k := 0
	val := func(leaf string, vs ...any) string {
		k++
		v := fmt.Sprintf("v%d", k)
		fmt.Fprintf(&b, "\t%s := Vals(%q", v, leaf)
		for _, x := range vs {
			fmt.Fprintf(&b, ", %v", x)
		}
		b.WriteString(")\n")
		return v
	}
	flag := func(leaf string, on bool) {
		k++
		fmt.Fprintf(&b, "\tv%d := InBool(%q)\n", k, leaf)
		if on {
			fmt.Fprintf(&b, "\tUnsupported(!v%d)\n", k)
		} else {
			fmt.Fprintf(&b, "\tUnsupported(v%d)\n", k)
		}
	}
	val("arg0.imageHeader.Size.Height", 2)
	val("arg0.imageHeader.Size.Width", 2)
	val("arg0.imageHeader.ColourEncoding.ColourEncoding", 1)
	val("arg0.imageHeader.BitDepth.BitsPerSample", 8)
	val("arg2.GlobalMetadata.ColourEncoding.ColourEncoding", 1)
	flag("arg2.GlobalMetadata.XybEncoded", false)
	val("arg2.Header.Encoding", map[bool]int{true: 0, false: 1}[c.fcolours == 3])
	val("len(arg0.imageHeader.AlphaIndices)", n-1)
	val("len(arg0.imageHeader.ExtraChannelInfo)", n-1)
	if c.alpha > 0 {
		val("arg0.imageHeader.ExtraChannelInfo[][0].EcType", 0)
		val("arg0.imageHeader.ExtraChannelInfo[][0].BitDepth.BitsPerSample", 8)
		flag("arg0.imageHeader.ExtraChannelInfo[][0].AlphaAssociated", c.alpha == 2)
	}
	val("arg2.Header.Bounds.Origin.Y", c.oy)
	val("arg2.Header.Bounds.Origin.X", c.ox)
	val("arg2.Header.Bounds.Size.Height", c.fh)
	val("arg2.Header.Bounds.Size.Width", c.fw)
	info := func(at string, mode, src int) {
		val(at+".Mode", mode)
		val(at+".AlphaChannel", 0)
		flag(at+".Clamp", c.clamp)
		val(at+".Source", src)
	}
	info("arg2.Header.BlendingInfo", c.mode, c.source)
	val("len(arg2.Header.EcBlendingInfo)", n-1)
	if c.alpha > 0 {
		info("arg2.Header.EcBlendingInfo[][0]", c.ecMode, c.ecSrc)
	}
	val("len(arg1)", n)
	val("len(arg2.Buffer)", n-1+c.fcolours)
	// a buffer of h x w samples; free names the samples that take several values
	buffer := func(at string, base, h, w int, free func(y, x int) []any) [2][2]string {
		var r [2][2]string
		val(at+".BufferType", typ)
		val(at+".Height", h)
		val(at+".Width", w)
		val("len("+at+"."+kind+")", h)
		val("len("+at+"."+map[string]string{"IntBuffer": "FloatBuffer", "FloatBuffer": "IntBuffer"}[kind]+")", 0)
		for y := 0; y < h; y++ {
			val(fmt.Sprintf("len(%s.%s[][%d])", at, kind, y), w)
			for x := 0; x < w; x++ {
				vs := free(y, x)
				if vs == nil {
					vs = []any{base + 2*y + x}
					if isFloat {
						vs = []any{float64(base+2*y+x) / 512}
					}
				}
				r[y][x] = val(fmt.Sprintf("%s.%s[][%d][][%d]", at, kind, y, x), vs...)
			}
		}
		return r
	}
	// the sample that is compared, in the canvas and in the frame
	cy, cx := max(c.oy, 0), max(c.ox, 0)
	fy, fx := cy-c.oy, cx-c.ox
	samples, alphas := []any{0, 0.25, 1}, []any{0, 0.5, 1}
	if c.clamp {
		samples, alphas = []any{-0.5, 0.5, 1.5}, []any{-0.5, 0, 0.5, 2}
	}
	if !c.float {
		samples, alphas = []any{0, 3, 255}, []any{0, 128, 255}
	}
	pick := func(vs []any, at [2]int) func(y, x int) []any {
		return func(y, x int) []any {
			if y == at[0] && x == at[1] {
				return vs
			}
			return nil
		}
	}
	var canvas, frame, ref [2][2][2]string
	val("len(arg0.reference)", 4)
	done := map[int]bool{}
	var refalpha [2][2]string
	for i := 0; i < n; i++ {
		vs := samples
		if i == 1 {
			vs = alphas
		}
		canvas[i] = buffer(fmt.Sprintf("arg1[][%d]", i), 10+20*i, 2, 2, pick(nil, [2]int{}))
		fc := i
		if c.fcolours == 3 {
			fc = 1 + 2*i
		}
		if i == 1 && c.intAlpha {
			kind, typ, isFloat = "IntBuffer", 0, false
			vs = []any{0, 51, 255}
		}
		frame[i] = buffer(fmt.Sprintf("arg2.Buffer[][%d]", fc), 100+20*i, c.fh, c.fw, pick(vs, [2]int{fy, fx}))
		if i == 1 && c.intAlpha {
			kind, typ, isFloat = "FloatBuffer", 1, true
			for y := 0; y < c.fh; y++ {
				for x := 0; x < c.fw; x++ {
					frame[i][y][x] = "(Float32(" + frame[i][y][x] + ") / 255)"
				}
			}
		}
	}
	for _, s := range []int{c.source, c.ecSrc}[:n] {
		if c.emptyRef {
			val(fmt.Sprintf("len(arg0.reference[][%d])", s), 0)
			continue
		}
		if !done[s] {
			done[s] = true
			val(fmt.Sprintf("len(arg0.reference[][%d])", s), n)
			for j := 0; j < n; j++ {
				vs := samples
				if j == 1 {
					vs = alphas
				}
				r := buffer(fmt.Sprintf("arg0.reference[][%d][][%d]", s, j), 200+50*s+20*j, 2, 2, pick(vs, [2]int{cy, cx}))
				if s == c.source {
					if j == 0 {
						ref[0] = r
					}
				}
				if s == c.ecSrc && j == 1 {
					ref[1] = r
				}
				if s == c.source && j == 1 && c.ecSrc != s {
					refalpha = r // the alpha the colour of the reference goes with
				}
			}
		}
	}
	if n == 2 && c.ecSrc == c.source && !c.emptyRef {
		refalpha = ref[1]
	}
	out := func(i, y, x int, e string) {
		fmt.Fprintf(&b, "\tOut(\"@1.[%d].%s[%d][%d]\", %s)\n", i, kind, y, x, e)
	}
	clip := func(e string) string {
		if c.clamp {
			return fmt.Sprintf("Max(0, Min(1, %s))", e)
		}
		return e
	}
	for i := 0; i < n; i++ {
		for y := 0; y < 2; y++ {
			for x := 0; x < 2; x++ {
				if y < c.oy || y >= c.oy+c.fh || x < c.ox || x >= c.ox+c.fw {
					out(i, y, x, canvas[i][y][x])
				}
			}
		}
		mode := c.mode
		if i == 1 {
			mode = c.ecMode
		}
		for y := cy; y < min(2, c.oy+c.fh); y++ {
			for x := cx; x < min(2, c.ox+c.fw); x++ {
				f := frame[i][y-c.oy][x-c.ox]
				r := ref[i][y][x]
				na, oa := "1", "1"
				if n == 2 {
					na, oa = clip(frame[1][y-c.oy][x-c.ox]), refalpha[y][x]
					if i == 1 {
						oa = r
					}
				}
				e := ""
				switch {
				case mode == 0 || c.emptyRef:
					e = f
				case mode == 1:
					e = f + " + " + r
				case mode == 4:
					e = clip(f) + " * " + r
				case mode == 2 && i == 1:
					e = fmt.Sprintf("%s + %s * (1 - %s)", oa, na, oa)
				case mode == 2 && c.alpha != 1:
					e = fmt.Sprintf("%s + %s * (1 - %s)", f, r, na)
				case mode == 2:
					e = fmt.Sprintf("If(%[6]s + %[7]s * (1 - %[8]s) == 0, 0, (%[1]s * %[2]s + %[3]s * %[4]s * (1 - %[5]s)) / (%[6]s + %[7]s * (1 - %[8]s)))", f, na, r, oa, na, oa, na, oa)
				case mode == 3 && i == 1:
					e = r
				case mode == 3:
					e = fmt.Sprintf("%s + %s * %s", r, na, f)
				}
				out(i, y, x, e)
			}
		}
	}
	return b.String()
}

func init() {
	register("P26", "other", formulaExplain, func(w *World, r *Result, th bool) {
		formulaRules(r)
		src := ""
		var units []gunit
		add := func(fn, name, label, body string) {
			src += fmt.Sprintf("func %s() {\n%s}\n\n", name, body)
			units = append(units, gunit{fn: fn, spec: name, label: label, exact: true})
		}
		for o := 1; o <= 8; o++ {
			for _, s := range [][2]int{{2, 3}, {3, 1}, {1, 1}, {2, 2}} {
				for _, fl := range []bool{false, true} {
					add("core.(*JXLCodestreamDecoder).transposeBuffer", fmt.Sprintf("Orient%d_%d_%d_%v", o, s[0], s[1], fl), fmt.Sprintf("orientation %d, %dx%d", o, s[0], s[1]), orientSpec(o, s[0], s[1], fl))
				}
			}
		}
		add("image.(*ImageBuffer).CastToFloatIfMax", "ToFloat", "", `
	t := Vals("arg0.BufferType", 0)
	h := Vals("arg0.Height", 1)
	w := Vals("arg0.Width", 2)
	m := Vals("arg1", 1, 255, 1023, 65535)
	a := Vals("arg0.IntBuffer[][0][][0]", -3, 0, 1, 17, 255, 70000)
	b := Vals("arg0.IntBuffer[][0][][1]", 9)
	Out("@0.FloatBuffer[0][0]", Float32(a) / Float32(m))
	Out("@0.FloatBuffer[0][1]", Float32(b) / Float32(m))
	Out("@0.BufferType", 1)
`)
		for _, m := range []int{1, 255, 1023, 65535} {
			for j, v := range []float64{-3, -0.25, 0, 0.25, 0.3, 0.7, 0.998, 1, 1.5} {
				e := min(max(int(math.Floor(float64(float32(v)*float32(m)+0.5))), 0), m)
				add("image.(*ImageBuffer).CastToIntIfMax", fmt.Sprintf("ToInt%d_%d", m, j), fmt.Sprintf("%v of %d", v, m), fmt.Sprintf(`
	t := Vals("arg0.BufferType", 1)
	h := Vals("arg0.Height", 1)
	w := Vals("arg0.Width", 1)
	n := Vals("len(arg0.FloatBuffer)", 1)
	n0 := Vals("len(arg0.FloatBuffer[][0])", 1)
	m := Vals("arg1", %d)
	a := Vals("arg0.FloatBuffer[][0][][0]", %v)
	Out("@0.IntBuffer[0][0]", %d)
	Out("@0.BufferType", 0)
`, m, v, e))
			}
		}
		i := 0
		blend := func(c blendCase) {
			i++
			if c.fcolours == 0 {
				c.fcolours = 1
			}
			add("core.(*JXLCodestreamDecoder).blendFrame", fmt.Sprintf("Blend%d", i), c.String(), blendSpec(c))
		}
		for m := 0; m <= 4; m++ {
			for _, at := range [][4]int{{0, 0, 2, 2}, {1, 1, 1, 1}, {0, 1, 1, 1}, {1, 0, 1, 2}, {-1, -1, 2, 2}, {1, 1, 2, 2}, {0, 0, 1, 2}, {-1, 0, 2, 2}, {0, -1, 2, 2}} {
				blend(blendCase{mode: m, float: true, oy: at[0], ox: at[1], fh: at[2], fw: at[3], source: 1})
			}
			blend(blendCase{mode: m, float: true, fh: 2, fw: 2, source: 3, clamp: true})
			blend(blendCase{mode: m, float: true, fh: 2, fw: 2, source: 3, fcolours: 3})
			for alpha := 1; alpha <= 2; alpha++ {
				for ec := 0; ec <= 4; ec++ {
					blend(blendCase{mode: m, ecMode: ec, alpha: alpha, float: true, fh: 2, fw: 2, source: 1, ecSrc: 1})
				}
				blend(blendCase{mode: m, ecMode: 2, alpha: alpha, float: true, fh: 2, fw: 2, source: 1, ecSrc: 1, clamp: true})
				blend(blendCase{mode: m, ecMode: 2, alpha: alpha, float: true, fh: 2, fw: 2, source: 1, ecSrc: 2})
				blend(blendCase{mode: m, ecMode: 3, alpha: alpha, float: true, oy: 1, ox: -1, fh: 2, fw: 2, source: 1, ecSrc: 1})
				blend(blendCase{mode: m, ecMode: 2, alpha: alpha, float: true, fh: 2, fw: 2, fcolours: 3, source: 1, ecSrc: 1})
				blend(blendCase{mode: m, ecMode: 2, alpha: alpha, float: true, fh: 2, fw: 2, fcolours: 3, source: 1, ecSrc: 1, intAlpha: true})
				blend(blendCase{mode: m, ecMode: 0, alpha: alpha, float: true, fh: 2, fw: 2, source: 1, ecSrc: 1, intAlpha: true})
			}
		}
		for m := 0; m <= 1; m++ {
			blend(blendCase{mode: m, fh: 2, fw: 2, source: 1})
			blend(blendCase{mode: m, oy: 1, ox: 0, fh: 1, fw: 1, source: 2})
		}
		filterUnits(add)
		w.grammarUnits(r, src, units)
	})
}
