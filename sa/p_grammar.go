package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// P18..P20: what the header and section parsers read, bit by bit, compared
// with the layout ISO/IEC 18181-1 gives. The specification below uses the
// standard's own notation as far as Go syntax allows: u(n), Bool(), U32 with
// its four (constant, bits) pairs, Enum(), F16(), U64(). Out names the field of
// the parser's result a value must end up in.

const grammarImage = `
func dim9() (v int) {
	return U32(1, 9, 1, 13, 1, 18, 1, 30)
}

func ratioed(r int, h int) (v int) {
	return If(r == 1, h, If(r == 2, h*12/10, If(r == 3, h*4/3, If(r == 4, h*3/2, If(r == 5, h*16/9, If(r == 6, h*5/4, h*2))))))
}

func SizeHeader() (h, w int) {
	div8 := Bool()
	if div8 {
		h8 := u(5)
		hh = (h8 + 1) * 8
	} else {
		ysize := U32(1, 9, 1, 13, 1, 18, 1, 30)
		hh = ysize
	}
	ratio := u(3)
	if ratio != 0 {
		ww = ratioed(ratio, hh)
	} else {
		if div8 {
			w8 := u(5)
			ww = (w8 + 1) * 8
		} else {
			xsize := U32(1, 9, 1, 13, 1, 18, 1, 30)
			ww = xsize
		}
	}
	return hh, ww
}

func PreviewHeader() (h, w int) {
	div8 := Bool()
	if div8 {
		h8 := U32(16, 0, 32, 0, 1, 5, 33, 9)
		hh = h8 * 8
	} else {
		ysize := U32(1, 6, 65, 8, 321, 10, 1345, 12)
		hh = ysize
	}
	ratio := u(3)
	if ratio != 0 {
		ww = ratioed(ratio, hh)
	} else {
		if div8 {
			w8 := U32(16, 0, 32, 0, 1, 5, 33, 9)
			ww = w8 * 8
		} else {
			xsize := U32(1, 6, 65, 8, 321, 10, 1345, 12)
			ww = xsize
		}
	}
	return hh, ww
}

func BitDepth(path string) {
	float_sample := Bool()
	if float_sample {
		bits_per_sample := U32(32, 0, 16, 0, 24, 0, 1, 6)
		exp_bits := u(4)
		bits = bits_per_sample
		exp = exp_bits + 1
	} else {
		bits_per_sample := U32(8, 0, 10, 0, 12, 0, 1, 6)
		bits = bits_per_sample
		exp = 0
	}
	Unsupported(bits > 31)
	Out(path+"UsesFloatSamples", float_sample)
	Out(path+"BitsPerSample", bits)
	Out(path+"ExpBits", exp)
}

func ExtraChannel() {
	d_alpha := Bool()
	alpha_associated := false
	ty := 0
	if !d_alpha {
		ty = Enum()
		Reject(!(ty <= 6 || ty == 15 || ty == 16))
		BitDepth("BitDepth.")
		dim_shift := U32(0, 0, 3, 0, 4, 0, 1, 3)
		name_len := U32(0, 0, 0, 4, 16, 5, 48, 10)
		for i := range name_len {
			name := u(8)
		}
		if ty == 0 {
			alpha_associated = Bool()
		}
		if ty == 2 {
			red := F16()
			green := F16()
			blue := F16()
			solidity := F16()
			Out("Red", red)
			Out("Green", green)
			Out("Blue", blue)
			Out("Solidity", solidity)
		}
		if ty == 5 {
			cfa_channel := U32(1, 0, 0, 2, 3, 4, 19, 8)
			Out("CfaIndex", cfa_channel)
		}
		Out("DimShift", dim_shift)
	} else {
		Out("DimShift", 0)
		Out("BitDepth.BitsPerSample", 8)
		Out("BitDepth.ExpBits", 0)
		Out("BitDepth.UsesFloatSamples", false)
	}
	Out("EcType", ty)
	Out("AlphaAssociated", alpha_associated)
}

func customXY() (x, y int) {
	ux := U32(0, 19, 524288, 19, 1048576, 20, 2097152, 21)
	uy := U32(0, 19, 524288, 19, 1048576, 20, 2097152, 21)
	return ux, uy
}

func ColourEncoding(path string) (icc int) {
	all_default := Bool()
	want_icc := false
	cs := 0
	wp := 1
	prim := 1
	tf := 16777216 + 13
	ri := 1
	if !all_default {
		want_icc = Bool()
		cs = Enum()
		Reject(cs > 3)
		if !want_icc {
			if cs != 2 {
				wp = Enum()
				Reject(!(wp == 1 || wp == 2 || wp == 10 || wp == 11))
				if wp == 2 {
					wx, wy := customXY()
				}
				if cs != 1 {
					prim = Enum()
					Reject(!(prim == 1 || prim == 2 || prim == 9 || prim == 11))
					if prim == 2 {
						rx, ry := customXY()
						gx, gy := customXY()
						bx, by := customXY()
					}
				}
				have_gamma := Bool()
				if have_gamma {
					gamma := u(24)
					tf = gamma
					Reject(gamma > 10000000)
					Unsupported(gamma < 1221)
				} else {
					tfe := Enum()
					tf = 16777216 + tfe
					Reject(!(tfe == 1 || tfe == 2 || tfe == 8 || tfe == 13 || tfe == 16 || tfe == 17 || tfe == 18))
					Unsupported(tfe == 2)
				}
			}
			ri = Enum()
			Reject(ri > 3)
			Unsupported(cs == 3)
		}
	}
	Out(path+"UseIccProfile", want_icc)
	Out(path+"ColourEncoding", cs)
	if want_icc {
	} else {
		Out(path+"RenderingIntent", ri)
		if cs != 2 {
			Out(path+"WhitePoint", wp)
			Out(path+"Tf", tf)
			if cs != 1 {
				Out(path+"Primaries", prim)
			}
		}
	}
	return want_icc
}

func ToneMapping(path string) {
	all_default := Bool()
	if all_default {
		Out(path+"IntensityTarget", 255.0)
		Out(path+"MinNits", 0.0)
		Out(path+"RelativeToMaxDisplay", false)
		Out(path+"LinearBelow", 0.0)
	} else {
		intensity_target := F16()
		Reject(intensity_target <= 0.0)
		min_nits := F16()
		Reject(min_nits < 0.0)
		Reject(min_nits > intensity_target)
		relative := Bool()
		linear_below := F16()
		Reject(linear_below < 0.0)
		Reject(relative && linear_below > 1.0)
		Out(path+"IntensityTarget", intensity_target)
		Out(path+"MinNits", min_nits)
		Out(path+"RelativeToMaxDisplay", relative)
		Out(path+"LinearBelow", linear_below)
	}
}

func OpsinInverse(path string) {
	all_default := Bool()
	if !all_default {
		for i := range 3 {
			for j := range 3 {
				m := F16()
				Out(path+"Matrix[%d][%d]", i, j, m)
			}
		}
		for i := range 3 {
			b := F16()
			Out(path+"OpsinBias[%d]", i, b)
		}
		for i := range 3 {
			q := F16()
			Out(path+"QuantBias[%d]", i, q)
		}
		qn := F16()
		Out(path+"QuantBiasNumerator", qn)
	}
}

func CustomXY() {
	ux := U32(0, 19, 524288, 19, 1048576, 20, 2097152, 21)
	uy := U32(0, 19, 524288, 19, 1048576, 20, 2097152, 21)
}

func Colour() {
	icc := ColourEncoding("")
}

func Tone() {
	ToneMapping("")
}

func Opsin() {
	OpsinInverse("")
}

func Depth() {
	BitDepth("")
}

func Preview() {
	h, w := PreviewHeader()
	Reject(h > 4096 || w > 4096)
	Out("Height", h)
	Out("Width", w)
}

func Size() {
	level := In("arg1", 0, 20)
	h, w := SizeHeader()
	Unsupported(level != 5 && level != 10)
	Unsupported(h > 262144 || w > 262144)
	if level == 5 {
		Reject(h * w > 1073741824)
	}
	Out("Height", h)
	Out("Width", w)
}

func Image() {
	level := In("arg1", 0, 20)
	Unsupported(level != 5 && level != 10)
	magic := u(16)
	Reject(magic != 2815)
	h, w := SizeHeader()
	Unsupported(h > 262144 || w > 262144)
	Unsupported(h * w > 268435456)
	all_default := Bool()
	extra_fields := false
	orientation := 1
	if !all_default {
		extra_fields = Bool()
		if extra_fields {
			orient := u(3)
			orientation = orient + 1
			have_intr := Bool()
			if have_intr {
				ih, iw := SizeHeader()
				Unsupported(ih > 262144 || iw > 262144)
				Unsupported(ih * iw > 268435456)
			}
			have_preview := Bool()
			if have_preview {
				ph, pw := PreviewHeader()
				Reject(ph > 4096 || pw > 4096)
			}
			have_animation := Bool()
			Unsupported(have_animation)
		}
		BitDepth("BitDepth.")
		modular16 := Bool()
		Out("Modular16BitBuffers", modular16)
		num_extra := U32(0, 0, 1, 0, 2, 4, 1, 12)
		for i := range num_extra {
			ExtraChannel()
		}
		xyb_encoded := Bool()
		Out("XybEncoded", xyb_encoded)
		xyb = xyb_encoded
		icc = ColourEncoding("ColourEncoding.")
		if extra_fields {
			ToneMapping("ToneMapping.")
		}
		ext_key := U64()
		Unsupported(ext_key != 0)
	} else {
		xyb = true
		icc = false
		Out("XybEncoded", true)
		Out("Modular16BitBuffers", true)
		Out("BitDepth.BitsPerSample", 8)
		Out("BitDepth.ExpBits", 0)
		Out("BitDepth.UsesFloatSamples", false)
	}
	default_m := Bool()
	cw_mask := 0
	if !default_m {
		if xyb {
			OpsinInverse("OpsinInverseMatrix.")
		}
		cw_mask = u(3)
	}
	if cw_mask == 1 || cw_mask == 3 || cw_mask == 5 || cw_mask == 7 {
		for i := range 15 {
			up2 := F16()
			Out("Up2Weights[%d]", i, up2)
		}
	} else {
		Out("Up2Weights", Global("bundle.DEFAULT_UP2"))
	}
	if cw_mask == 2 || cw_mask == 3 || cw_mask == 6 || cw_mask == 7 {
		for i := range 55 {
			up4 := F16()
			Out("Up4Weights[%d]", i, up4)
		}
	} else {
		Out("Up4Weights", Global("bundle.DEFAULT_UP4"))
	}
	if cw_mask >= 4 {
		for i := range 210 {
			up8 := F16()
			Out("Up8Weights[%d]", i, up8)
		}
	} else {
		Out("Up8Weights", Global("bundle.DEFAULT_UP8"))
	}
	if icc {
		enc_size := U64()
		Unsupported(enc_size > 65535)
		es := Entropy(41)
		for i := range enc_size {
			sym := Sym(Opaque("icc"))
		}
	}
	Align()
	Out("Orientation", orientation)
	Out("Size.Height", h)
	Out("Size.Width", w)
	Out("OrientedHeight", If(orientation > 4, w, h))
	Out("OrientedWidth", If(orientation > 4, h, w))
}
`

const grammarFrame = `
func Blending(path string, extra int, full int) (mode int) {
	bmode := U32(0, 0, 1, 0, 2, 0, 3, 2)
	Unsupported(bmode > 4)
	alpha := 0
	if extra && (bmode == 2 || bmode == 3) {
		alpha_channel := U32(0, 0, 1, 0, 2, 0, 3, 3)
		alpha = alpha_channel
	}
	clamp := false
	if (extra && (bmode == 2 || bmode == 3)) || bmode == 4 {
		clamp_bit := Bool()
		clamp = clamp_bit
	}
	src := 0
	if bmode != 0 || !full {
		source := u(2)
		src = source
	}
	Out(path+"Mode", bmode)
	Out(path+"AlphaChannel", alpha)
	Out(path+"Clamp", clamp)
	Out(path+"Source", src)
	return bmode
}

func BlendingUnit() {
	extra := InBool("arg1")
	full := InBool("arg2")
	m := Blending("", extra, full)
}

func Passes(path string) {
	num_passes := U32(1, 0, 2, 0, 3, 0, 4, 3)
	num_ds := 0
	if num_passes != 1 {
		num_downsample := U32(0, 0, 1, 0, 2, 0, 3, 1)
		num_ds = num_downsample
	}
	Unsupported(num_ds >= num_passes)
	for i := range num_passes - 1 {
		shift := u(2)
	}
	for i := range num_ds {
		downsample := u(2)
	}
	for i := range num_ds {
		last_pass := U32(0, 0, 1, 0, 2, 0, 0, 3)
	}
	Out(path+"numPasses", num_passes)
	Out(path+"numDS", num_ds)
}

func PassesUnit() {
	Passes("")
}

func Extensions() {
	ext_key := U64()
	Unsupported(ext_key != 0)
}

func Restoration(path string, encoding int) {
	all_default := Bool()
	gab := true
	iters := 2
	if !all_default {
		gab_bit := Bool()
		gab = gab_bit
		custom := false
		if gab_bit {
			gab_custom := Bool()
			custom = gab_custom
		}
		if custom {
			for i := range 3 {
				weight1 := F16()
				weight2 := F16()
				Out(path+"gab1Weights[%d]", i, weight1)
				Out(path+"gab2Weights[%d]", i, weight2)
			}
		}
		epf_iters := u(2)
		iters = epf_iters
		if epf_iters > 0 {
			if encoding == 0 {
				epf_sharp_custom := Bool()
				if epf_sharp_custom {
					for i := range 8 {
						epf_sharp := F16()
					}
				}
			}
			if Deviates() {
				epf_weight_custom := false
			} else {
				epf_weight_custom = Bool()
			}
			if epf_weight_custom {
				for i := range 3 {
					epf_channel_scale := F16()
					Out(path+"epfChannelScale[%d]", i, epf_channel_scale)
				}
				epf_zeroflush := u(32)
			}
			epf_sigma_custom := Bool()
			if epf_sigma_custom {
				if encoding == 0 {
					epf_quant_mul := F16()
					Out(path+"epfQuantMul", epf_quant_mul)
				}
				pass0 := F16()
				pass2 := F16()
				border_sad_mul := F16()
				Out(path+"epfPass0SigmaScale", pass0)
				Out(path+"epfPass2SigmaScale", pass2)
				Out(path+"epfBorderSadMul", border_sad_mul)
			}
			if encoding == 1 {
				sigma_for_modular := F16()
				Unsupported(sigma_for_modular <= 0.0)
				Out(path+"epfSigmaForModular", sigma_for_modular)
			}
		}
		Extensions()
	}
	Out(path+"gab", gab)
	Out(path+"epfIterations", iters)
}

func RestorationUnit() {
	encoding := In("arg1", 0, 1)
	Restoration("", encoding)
}

func Frame() {
	xyb := InBool("ImageHeader.XybEncoded")
	noanim := InBool("isnil(ImageHeader.AnimationHeader)")
	num_extra := In("len(ImageHeader.ExtraChannelInfo)", 0, 3)
	W := Vals("ImageHeader.Size.Width", 1, 9, 300)
	H := Vals("ImageHeader.Size.Height", 1, 9, 300)
	Unsupported(!noanim)
	Domain("x0", 0, 1, 2, 3, 18, 600)
	Domain("y0", 0, 1, 2, 3, 18, 600)
	Domain("width", 0, 1, 8, 9, 10, 300, 301)
	Domain("height", 0, 1, 8, 9, 10, 300, 301)
	Domain("flags", 0, 1, 2, 16, 32, 33, 128, 160)
	all_default := Bool()
	frame_type := 0
	encoding := 0
	flags := 0
	lf := false
	ycbcr := false
	ups := 1
	shift := 1
	xqm := 2
	bqm := 2
	lf_level := 0
	crop := false
	fw := W
	fh := H
	ox := 0
	oy := 0
	mode := 0
	last := true
	saveref := 0
	before := false
	mjx := 0
	mjy := 0
	if all_default {
		if xyb {
			xqm = 3
		}
	} else {
		frame_type = u(2)
		encoding = u(1)
		flags = U64()
		lf = flags == 32 || flags == 33 || flags == 160
		if !xyb {
			do_ycbcr := Bool()
			ycbcr = do_ycbcr
		}
		if ycbcr && !lf {
			for i := range 3 {
				jpeg_upsampling[i] = u(2)
			}
			mjx = Max(hs(jpeg_upsampling[0]), hs(jpeg_upsampling[1]), hs(jpeg_upsampling[2]))
			mjy = Max(vs(jpeg_upsampling[0]), vs(jpeg_upsampling[1]), vs(jpeg_upsampling[2]))
			for i := range 3 {
				Out("jpegUpsamplingX[%d]", i, mjx - hs(jpeg_upsampling[i]))
				Out("jpegUpsamplingY[%d]", i, mjy - vs(jpeg_upsampling[i]))
			}
		}
		if !lf {
			upsampling := u(2)
			ups = 1 << upsampling
			for i := range num_extra {
				ec_upsampling := u(2)
			}
		}
		if encoding == 1 {
			group_size_shift := u(2)
			shift = group_size_shift
		}
		if xyb && encoding == 0 {
			x_qm_scale := u(3)
			b_qm_scale := u(3)
			xqm = x_qm_scale
			bqm = b_qm_scale
		}
		if frame_type != 2 {
			Passes("passes.")
		}
		if frame_type == 1 {
			lf_level_minus_1 := u(2)
			lf_level = lf_level_minus_1 + 1
		}
		if frame_type != 1 {
			have_crop := Bool()
			crop = have_crop
			if have_crop {
				if frame_type != 2 {
					x0 := U32(0, 8, 256, 11, 2304, 14, 18688, 30)
					y0 := U32(0, 8, 256, 11, 2304, 14, 18688, 30)
					ox = Unsign(x0)
					oy = Unsign(y0)
				}
				width := U32(0, 8, 256, 11, 2304, 14, 18688, 30)
				height := U32(0, 8, 256, 11, 2304, 14, 18688, 30)
				Unsupported(width == 0 || height == 0)
				fw = width
				fh = height
			}
		}
		full := ox <= 0 && oy <= 0 && fw + ox >= W && fh + oy >= H
		normal := frame_type == 0 || frame_type == 3
		if normal {
			mode = Blending("BlendingInfo.", num_extra > 0, full)
			for i := range num_extra {
				m := Blending("", true, full)
			}
			is_last := Bool()
			last = is_last
		} else {
			last = false
		}
		if frame_type != 1 && !last {
			save_as_reference := u(2)
			saveref = save_as_reference
		}
		if frame_type == 2 || (normal && !last && full && mode == 0) {
			save_before_ct := Bool()
			before = save_before_ct
		}
		name_len := U32(0, 0, 0, 4, 16, 5, 48, 10)
		for i := range name_len {
			name := u(8)
		}
		Restoration("restorationFilter.", encoding)
		Extensions()
	}
	Out("FrameType", frame_type)
	Out("Encoding", encoding)
	Out("Flags", flags)
	Out("DoYCbCr", ycbcr)
	Out("Upsampling", ups)
	Out("groupDim", 128 << shift)
	Out("lfGroupDim", 1024 << shift)
	Out("xqmScale", xqm)
	Out("bqmScale", bqm)
	Out("LfLevel", lf_level)
	Out("Bounds.Origin.X", ox)
	Out("Bounds.Origin.Y", oy)
	Out("IsLast", last)
	Out("SaveAsReference", saveref)
	Out("SaveBeforeCT", before)
	sw := CeilDiv(CeilDiv(fw, ups), 1 << (3 * lf_level))
	sh := CeilDiv(CeilDiv(fh, ups), 1 << (3 * lf_level))
	Out("Bounds.Size.Width", If(mjx == 1, CeilDiv(sw, 2) * 2, sw))
	Out("Bounds.Size.Height", If(mjy == 1, CeilDiv(sh, 2) * 2, sh))
}

func hs(m int) (v int) {
	return If(m == 1 || m == 2, 1, 0)
}

func vs(m int) (v int) {
	return If(m == 1 || m == 3, 1, 0)
}
`

var frameUnits = []gunit{
	{fn: "frame.NewBlendingInfoWithReader", spec: "BlendingUnit"},
	{fn: "frame.NewPassesInfoWithReader", spec: "PassesUnit"},
	{fn: "frame.NewRestorationFilterWithReader", spec: "RestorationUnit", dev: "epf_weights"},
	{fn: "frame.NewFrameHeaderWithReader", spec: "Frame", dev: "epf_weights"},
}

const grammarExtensions = `
func ExtensionsUnit() {
	Domain("ext_key", 0, 1, 2, 3, 5, 0x80000000, 0x100000000, 0x4000000000000000)
	ext_key := U64()
	if ext_key != 0 {
		for i := range 64 {
			if ext_key & (1 << i) != 0 {
				bits[i] = U64()
				Unsupported(bits[i] > 4294967295)
			}
		}
		Rest()
	}
	Out("ExtensionsKey", ext_key)
}
`

// grammarTime is how long the units of a check may take together, unitTime one
// of them; what is not done by then is left undecided.
const (
	grammarTime = 400 * time.Second
	unitTime    = 60 * time.Second
)

func (w *World) grammarUnits(r *Result, src string, units []gunit) {
	funcs := parseSpec(src)
	if o := os.Getenv("GUNIT"); o != "" {
		var some []gunit
		for _, u := range units {
			if u.fn == o || u.spec == o {
				some = append(some, u)
			}
		}
		units = some
	}
	// the units are independent of one another
	type outcome struct {
		res, alt unitResult
		failed   any
	}
	outs := make([]outcome, len(units))
	next := int32(-1)
	until := time.Now().Add(grammarTime)
	var wg sync.WaitGroup
	for range min(6, runtime.NumCPU()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt32(&next, 1))
				if i >= len(units) {
					return
				}
				func() {
					defer func() { outs[i].failed = recover() }()
					if time.Now().After(until) {
						outs[i].res.why = "out of time"
						return
					}
					u := units[i]
					outs[i].res = w.checkUnit(u, funcs, false)
					if u.dev != "" && (len(outs[i].res.probs) > 0 || outs[i].res.why != "") {
						outs[i].alt = w.checkUnit(u, funcs, true)
					}
				}()
			}
		}()
	}
	wg.Wait()
	for i, u := range units {
		if outs[i].failed != nil {
			panic(outs[i].failed)
		}
		res := outs[i].res
		if u.dev != "" && (len(res.probs) > 0 || res.why != "") {
			alt := outs[i].alt
			if alt.why == "" && len(alt.probs) == 0 && len(res.probs) > 0 {
				r.Add(u.fn+"/departs:"+u.dev, res.probs[0].pos, "%s %s", u.fn, res.probs[0].msg)
			}
			res = alt
		}
		if gdebug {
			println(fmt.Sprintf("%s: reads %d fields %d cmps %d undet %d %s", u.fn, res.reads, res.outs, res.cmps, res.undet, res.why))
		}
		name, key := u.fn, u.fn
		if u.label != "" {
			name, key = u.fn+" ("+u.label+"):", u.fn+"/"+u.label
		}
		for _, p := range res.probs {
			r.Add(key+"/"+p.key, p.pos, "%s %s", name, p.msg)
		}
		if res.why != "" {
			r.Count("parsers out of reach", 1)
			r.Sample("not decided: " + u.fn + ": " + res.why)
			continue
		}
		r.Count("parsers", 1)
		r.Count("read sites", res.sites)
		r.Count("reads matched", res.reads)
		r.Count("comparisons", res.cmps)
		r.Count("fields", res.outs)
		r.Count("undetermined comparisons", res.undet)
		r.Sample(fmt.Sprintf("%s: %d reads, %d fields, %d comparisons, %d undetermined", u.fn, res.reads, res.outs, res.cmps, res.undet))
	}
}

func (w *World) fnNamed(n string) *ssa.Function {
	i := strings.Index(n, ".")
	return w.Fn(n[:i], n[i+1:])
}

var imageUnits = []gunit{
	{fn: "bundle.readSizeHeader", spec: "Size"},
	{fn: "bundle.readPreviewHeader", spec: "Preview"},
	{fn: "bundle.NewBitDepthHeaderWithReader", spec: "Depth"},
	{fn: "bundle.NewExtraChannelInfoWithReader", spec: "ExtraChannel"},
	{fn: "colour.NewColourEncodingBundleWithReader", spec: "Colour"},
	{fn: "colour.NewToneMappingWithReader", spec: "Tone"},
	{fn: "colour.NewOpsinInverseMatrixWithReader", spec: "Opsin"},
	{fn: "colour.NewCustomXY", spec: "CustomXY"},
	{fn: "bundle.ParseImageHeader", spec: "Image"},
}

const grammarExplain = "abstract interpretation of each parser in guarded single-assignment form: every value is a set of guarded terms over the bits already read, states are joined at every control-flow join, and guards are decision diagrams; each read of the bit reader, every field of the result and every rejection is compared with the layout of ISO/IEC 18181-1"

func grammarRules(r *Result) {
	r.Rules = append(r.Rules,
		"each call that takes bits from the reader, under the condition it happens, is the next element of the layout: same coding, same parameters",
		"a loop that reads is a repeated group of the layout with the same number of repetitions",
		"when a parser returns without an error every element of the layout was read, the stream is one the format allows, and the listed fields hold the values the format gives them",
	)
	r.Assume = append(r.Assume,
		"conditions and values are compared over a finite set of values of each element, which contains the bounds of its coding, every constant of the code and of the layout and their neighbours",
		"the coding primitives of the bit reader (Bits, U32, U64, F16, Enum) are elements themselves",
		"parameters the format never lets occur in a file (other levels, animation) are not compared",
	)
}

func init() {
	register("P18", "other", grammarExplain, func(w *World, r *Result, th bool) {
		grammarRules(r)
		w.grammarUnits(r, grammarImage, imageUnits)
		w.grammarUnits(r, grammarExtensions, []gunit{{fn: "bundle.NewExtensionsWithReader", spec: "ExtensionsUnit"}})
	})
	register("P19", "other", grammarExplain, func(w *World, r *Result, th bool) {
		grammarRules(r)
		w.grammarUnits(r, grammarFrame, frameUnits)
	})
}
