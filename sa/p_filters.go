package main

import (
	"fmt"
	"math"
	"strings"
)

// specBody builds the body of a specification.
type specBody struct {
	strings.Builder
	k int
}

func (b *specBody) val(leaf string, vs ...any) string {
	b.k++
	v := fmt.Sprintf("q%d", b.k)
	fmt.Fprintf(b, "\t%s := Vals(%q", v, leaf)
	for _, x := range vs {
		fmt.Fprintf(b, ", %v", x)
	}
	b.WriteString(")\n")
	return v
}

func (b *specBody) flag(leaf string, on bool) {
	b.k++
	not := "!"
	if !on {
		not = ""
	}
	fmt.Fprintf(b, "\tq%d := InBool(%q)\n\tUnsupported(%sq%d)\n", b.k, leaf, not, b.k)
}

func (b *specBody) out(path, e string, args ...any) {
	fmt.Fprintf(b, "\tOut(%q, %s)\n", path, fmt.Sprintf(e, args...))
}

// rows declares an h x w matrix of values.
func (b *specBody) rows(at string, h, w int, vals func(y, x int) []any) [][]string {
	b.val("len("+at+")", h)
	r := make([][]string, h)
	for y := range r {
		b.val(fmt.Sprintf("len(%s[][%d])", at, y), w)
		for x := 0; x < w; x++ {
			r[y] = append(r[y], b.val(fmt.Sprintf("%s[][%d][][%d]", at, y, x), vals(y, x)...))
		}
	}
	return r
}

// floats declares an image buffer of fractions.
func (b *specBody) floats(at string, h, w int, vals func(y, x int) []any) [][]string {
	b.val(at+".BufferType", 1)
	b.val(at+".Height", h)
	b.val(at+".Width", w)
	b.val("len("+at+".IntBuffer)", 0)
	return b.rows(at+".FloatBuffer", h, w, vals)
}

// ints declares an image buffer of integers.
func (b *specBody) ints(at string, h, w int, vals func(y, x int) []any) [][]string {
	b.val(at+".BufferType", 0)
	b.val(at+".Height", h)
	b.val(at+".Width", w)
	b.val("len("+at+".FloatBuffer)", 0)
	return b.rows(at+".IntBuffer", h, w, vals)
}

// spread is a value of its own for each sample.
func spread(base int) func(y, x int) []any {
	return func(y, x int) []any { return []any{float64((base+37*y+11*x+5*x*y)%128) / 128} }
}

func clampInt(v, lo, hi int) int { return min(max(v, lo), hi) }

// filterUnits are the steps from coefficients to the samples of a frame.
func filterUnits(add func(fn, name, label, body string)) {
	// XYB to linear light
	{
		b := &specBody{}
		var m [3][3]string
		var bias, cbrt [3]string
		b.val("len(arg0.Matrix)", 3)
		b.val("len(arg0.OpsinBias)", 3)
		b.val("len(arg0.CbrtOpsinBias)", 3)
		for i := 0; i < 3; i++ {
			b.val(fmt.Sprintf("len(arg0.Matrix[][%d])", i), 3)
			for j := 0; j < 3; j++ {
				m[i][j] = b.val(fmt.Sprintf("arg0.Matrix[][%d][][%d]", i, j), float64(3*i+j+2)/8)
			}
			cbrt[i] = b.val(fmt.Sprintf("arg0.CbrtOpsinBias[][%d]", i), -float64(i+1)/8)
			bias[i] = b.val(fmt.Sprintf("arg0.OpsinBias[][%d]", i), -float64(i+1)/16)
		}
		it := b.val("arg2", 255, 510, 80)
		b.val("len(arg1)", 3)
		var p [3][][]string
		for c := 0; c < 3; c++ {
			p[c] = b.rows(fmt.Sprintf("arg1[][%d]", c), 2, 2, func(y, x int) []any {
				if y+x == 0 {
					return []any{-0.25, 0, 0.5}
				}
				return spread(50*c)(y, x)
			})
		}
		for y := 0; y < 2; y++ {
			for x := 0; x < 2; x++ {
				g := [3]string{
					fmt.Sprintf("(%s + %s - %s)", p[1][y][x], p[0][y][x], cbrt[0]),
					fmt.Sprintf("(%s - %s - %s)", p[1][y][x], p[0][y][x], cbrt[1]),
					fmt.Sprintf("(%s - %s)", p[2][y][x], cbrt[2]),
				}
				for c := 0; c < 3; c++ {
					e := ""
					for j := 0; j < 3; j++ {
						if j > 0 {
							e += " + "
						}
						e += fmt.Sprintf("%s * (%s * %s * %s + %s)", m[c][j], g[j], g[j], g[j], bias[j])
					}
					b.out(fmt.Sprintf("@1.[%d][%d][%d]", c, y, x), "(%s) * (Float32(255) / %s)", e, it)
				}
			}
		}
		add("colour.(*OpsinInverseMatrix).InvertXYB", "XYB", "", b.String())
	}
	// chroma subsampling is undone with the weights 3/4 and 1/4
	for i, s := range [][2]int{{0, 0}, {0, 1}, {1, 0}, {1, 1}, {0, 2}, {2, 0}} {
		for _, sz := range [][2]int{{1, 1}, {2, 3}, {3, 2}} {
			for c := 0; c < 3; c++ {
				h, w := sz[0], sz[1]
				b := &specBody{}
				b.val("len(arg0.Header.jpegUpsamplingY)", 3)
				b.val("len(arg0.Header.jpegUpsamplingX)", 3)
				b.val("arg0.GlobalMetadata.BitDepth.BitsPerSample", 8)
				b.val("len(arg0.Buffer)", 3)
				var p [][]string
				for k := 0; k < 3; k++ {
					v := [2]int{}
					if k == c {
						v = s
					}
					b.val(fmt.Sprintf("arg0.Header.jpegUpsamplingY[][%d]", k), v[0])
					b.val(fmt.Sprintf("arg0.Header.jpegUpsamplingX[][%d]", k), v[1])
					q := b.floats(fmt.Sprintf("arg0.Buffer[][%d]", k), h, w, spread(40*k))
					if k == c {
						p = q
					}
				}
				for n := 0; n < s[1]; n++ {
					r := make([][]string, len(p))
					for y := range p {
						for x := 0; x < 2*len(p[y]); x++ {
							o := clampInt(x/2-1+x%2*2, 0, len(p[y])-1)
							r[y] = append(r[y], fmt.Sprintf("(0.75*%s + 0.25*%s)", p[y][x/2], p[y][o]))
						}
					}
					p = r
				}
				for n := 0; n < s[0]; n++ {
					r := make([][]string, 2*len(p))
					for y := range r {
						for x := range p[0] {
							o := clampInt(y/2-1+y%2*2, 0, len(p)-1)
							r[y] = append(r[y], fmt.Sprintf("(0.75*%s + 0.25*%s)", p[y/2][x], p[o][x]))
						}
					}
					p = r
				}
				at := fmt.Sprintf("@0.Buffer[%d]", c)
				for y := range p {
					for x, e := range p[y] {
						b.out(fmt.Sprintf("%s.FloatBuffer[%d][%d]", at, y, x), "%s", e)
					}
				}
				b.out(at+".Height", "%d", len(p))
				b.out(at+".Width", "%d", len(p[0]))
				add("frame.(*Frame).invertSubsampling", fmt.Sprintf("Subsample%d_%d_%d", i, h, c), fmt.Sprintf("%v of %dx%d, channel %d", s, h, w, c), b.String())
			}
		}
	}
	// Gaborish
	for i, sz := range [][2]int{{1, 1}, {1, 3}, {3, 1}, {2, 2}, {3, 3}, {5, 2}} {
		for _, workers := range []int{0, 1, 2, 8} {
			h, w := sz[0], sz[1]
			b := &specBody{}
			b.val("arg0.options.MaxGoroutines", workers)
			b.val("arg0.GlobalMetadata.BitDepth.BitsPerSample", 8)
			b.flag("arg0.GlobalMetadata.XybEncoded", true)
			b.val("arg0.Header.Encoding", 0)
			b.val("len(arg0.Buffer)", 3)
			for c := 0; c < 3; c++ {
				w1, w2 := float64(c+1)/16, float64(c+1)/64
				b.val(fmt.Sprintf("arg0.Header.restorationFilter.gab1Weights[][%d]", c), w1)
				b.val(fmt.Sprintf("arg0.Header.restorationFilter.gab2Weights[][%d]", c), w2)
				p := b.floats(fmt.Sprintf("arg0.Buffer[][%d]", c), h, w, spread(40*c))
				for y := 0; y < h; y++ {
					for x := 0; x < w; x++ {
						at := func(dy, dx int) string { return p[clampInt(y+dy, 0, h-1)][clampInt(x+dx, 0, w-1)] }
						b.out(fmt.Sprintf("@0.Buffer[%d].FloatBuffer[%d][%d]", c, y, x), "(%s + %v * (%s + %s + %s + %s) + %v * (%s + %s + %s + %s)) / %v",
							at(0, 0), w1, at(0, -1), at(0, 1), at(-1, 0), at(1, 0), w2, at(-1, -1), at(-1, 1), at(1, -1), at(1, 1), 1+4*(w1+w2))
					}
				}
			}
			add("frame.(*Frame).performGabConvolution", fmt.Sprintf("Gaborish%d_%d", i, workers), fmt.Sprintf("%dx%d, %d workers", h, w, workers), b.String())
		}
	}
	// upsampling kernels: a symmetric matrix of which the upper triangle is sent
	for l := 0; l < 2; l++ {
		for _, q := range [][2]int{{0, 0}, {0, 1}, {1, 0}, {1, 1}} {
			b := &specBody{}
			b.val("len(arg0.UpWeights)", 0)
			n := [3][]string{}
			for i, name := range []string{"Up2Weights", "Up4Weights", "Up8Weights"} {
				k := 5 << i
				at := "arg0." + name
				b.val("len("+at+")", k*(k+1)/2)
				for j := 0; j < k*(k+1)/2; j++ {
					n[i] = append(n[i], b.val(fmt.Sprintf("%s[][%d]", at, j), j+1000*i))
				}
			}
			k := 2 << l
			for ky := q[0] * k / 2; ky < (q[0]+1)*k/2; ky++ {
				for kx := q[1] * k / 2; kx < (q[1]+1)*k/2; kx++ {
					for iy := 0; iy < 5; iy++ {
						for ix := 0; ix < 5; ix++ {
							j, i := iy+5*ky, ix+5*kx
							if ky >= k/2 {
								j = 4 - iy + 5*(k-1-ky)
							}
							if kx >= k/2 {
								i = 4 - ix + 5*(k-1-kx)
							}
							i, j = max(i, j), min(i, j)
							idx := 0
							for r := 0; r < j; r++ {
								idx += 5*k/2 - r
							}
							b.out(fmt.Sprintf("[%d][%d][%d][%d][%d]", l, ky, kx, iy, ix), "%s", n[l][idx+i-j])
						}
					}
				}
			}
			add("bundle.(*ImageHeader).GetUpWeights", fmt.Sprintf("UpWeights%d_%d%d", l, q[0], q[1]), fmt.Sprintf("factor %d, quadrant %v", k, q), b.String())
		}
	}
	for i, sz := range [][2]int{{1, 1}, {2, 3}, {4, 2}, {3, 5}} {
		for _, k := range []int{1, 2, 4} {
			for _, kind := range []string{"positive", "negative", "extra", "integer extra"} {
				h, w := sz[0], sz[1]
				if k == 4 && h*w > 6 {
					continue
				}
				b := &specBody{}
				b.flag("arg0.GlobalMetadata.XybEncoded", true)
				b.val("arg0.Header.Encoding", 0)
				b.val("arg0.GlobalMetadata.BitDepth.BitsPerSample", 8)
				b.val("len(arg0.GlobalMetadata.ExtraChannelInfo)", 2)
				b.val("arg0.GlobalMetadata.ExtraChannelInfo[][0].BitDepth.BitsPerSample", 8)
				b.val("arg0.GlobalMetadata.ExtraChannelInfo[][1].BitDepth.BitsPerSample", 4)
				b.val("arg0.options.MaxGoroutines", 1+i)
				b.val("len(arg0.Header.EcUpsampling)", 2)
				c, other := 2, 8
				if strings.HasSuffix(kind, "extra") {
					c = 4
					b.val("arg0.Header.Upsampling", other)
					b.val("arg0.Header.EcUpsampling[][0]", other)
					b.val("arg0.Header.EcUpsampling[][1]", k)
				} else {
					b.val("arg0.Header.Upsampling", k)
					b.val("arg0.Header.EcUpsampling[][0]", other)
					b.val("arg0.Header.EcUpsampling[][1]", other)
				}
				b.val("arg2", c)
				l := map[int]int{1: 0, 2: 0, 4: 1}[k]
				wt := map[[4]int]float64{}
				b.val("len(arg0.GlobalMetadata.UpWeights)", 3)
				at := "arg0.GlobalMetadata.UpWeights"
				kk := max(k, 2)
				for ll := 0; ll < 3; ll++ {
					b.val(fmt.Sprintf("len(%s[][%d])", at, ll), 2<<ll)
				}
				for ky := 0; ky < kk; ky++ {
					b.val(fmt.Sprintf("len(%s[][%d][][%d])", at, l, ky), kk)
					for kx := 0; kx < kk; kx++ {
						b.val(fmt.Sprintf("len(%s[][%d][][%d][][%d])", at, l, ky, kx), 5)
						for iy := 0; iy < 5; iy++ {
							b.val(fmt.Sprintf("len(%s[][%d][][%d][][%d][][%d])", at, l, ky, kx, iy), 5)
							for ix := 0; ix < 5; ix++ {
								v := float64((ky*5+kx*3+iy*7+ix*11)%9) / 128
								if iy == 2 && ix == 2 {
									v += 0.25
								}
								if (ky+kx)%3 == 2 {
									v /= 4 // falls below the smallest neighbour
								}
								wt[[4]int{ky, kx, iy, ix}] = v
								b.val(fmt.Sprintf("%s[][%d][][%d][][%d][][%d][][%d]", at, l, ky, kx, iy, ix), v)
							}
						}
					}
				}
				sample := func(y, x int) float64 {
					v := 0.25 + float64((37*y+11*x+5*x*y)%64)/128
					if kind == "negative" {
						v = -v
					}
					return v
				}
				if kind == "integer extra" {
					sample = func(y, x int) float64 { return float64((3+7*y+5*x+3*x*y)%16) / 15 }
					b.ints("arg1", h, w, func(y, x int) []any { return []any{(3 + 7*y + 5*x + 3*x*y) % 16} })
				} else {
					b.floats("arg1", h, w, func(y, x int) []any { return []any{sample(y, x)} })
				}
				if k == 1 && kind == "integer extra" {
					for y := 0; y < h; y++ {
						for x := 0; x < w; x++ {
							b.out(fmt.Sprintf("IntBuffer[%d][%d]", y, x), "%v", (3+7*y+5*x+3*x*y)%16)
						}
					}
				} else if k == 1 {
					for y := 0; y < h; y++ {
						for x := 0; x < w; x++ {
							b.out(fmt.Sprintf("FloatBuffer[%d][%d]", y, x), "%v", sample(y, x))
						}
					}
				} else {
					for y := 0; y < h*k; y++ {
						for x := 0; x < w*k; x++ {
							t, lo, hi := 0.0, math.Inf(1), math.Inf(-1)
							for iy := 0; iy < 5; iy++ {
								for ix := 0; ix < 5; ix++ {
									v := sample(mirrored(y/k+iy-2, h), mirrored(x/k+ix-2, w))
									t += v * wt[[4]int{y % k, x % k, iy, ix}]
									lo, hi = min(lo, v), max(hi, v)
								}
							}
							b.out(fmt.Sprintf("FloatBuffer[%d][%d]", y, x), "%v", max(lo, min(hi, t)))
						}
					}
					b.out("Height", "%d", h*k)
					b.out("Width", "%d", w*k)
				}
				add("frame.(*Frame).performUpsampling", fmt.Sprintf("Upsample%d_%d_%s", i, k, strings.ReplaceAll(kind, " ", "_")), fmt.Sprintf("%dx%d by %d, %s", h, w, k, kind), b.String())
			}
		}
	}
	epfUnits(add)
}

// mirrored is the place a coordinate beyond the edge stands for.
func mirrored(v, n int) int {
	for v < 0 || v >= n {
		if v < 0 {
			v = -v - 1
		} else {
			v = 2*n - 1 - v
		}
	}
	return v
}

// epfUnits are the edge-preserving filter on one or two blocks.
func epfUnits(add func(fn, name, label, body string)) {
	cross := [][2]int{{0, 0}, {0, -1}, {0, 1}, {-1, 0}, {1, 0}}
	double := [][2]int{{0, 0}, {-1, 0}, {1, 0}, {0, -1}, {0, 1}, {1, -1}, {1, 1}, {-1, 1}, {-1, -1}, {-2, 0}, {2, 0}, {0, 2}, {0, -2}}
	for i, e := range []struct {
		iter, h, w int
		vardct     bool
		workers    int
		sigma      float64
	}{{1, 8, 8, true, 1, 0}, {2, 3, 5, false, 2, 1}, {3, 4, 4, false, 3, 1}, {3, 9, 2, false, 1, 1}, {1, 8, 16, true, 2, 0},
		{1, 2, 3, false, 1, 0.25}, {2, 3, 2, false, 1, 0.3125}} {
		b := &specBody{}
		b.WriteString(upVals([2][3]int{}, "arg0.Header"))
		b.val("arg0.Header.Bounds.Size.Height", e.h)
		b.val("arg0.Header.Bounds.Size.Width", e.w)
		b.val("arg0.Header.Encoding", map[bool]int{true: 0, false: 1}[e.vardct])
		b.val("arg0.options.MaxGoroutines", e.workers)
		b.flag("arg0.GlobalMetadata.XybEncoded", true)
		b.val("arg0.GlobalMetadata.BitDepth.BitsPerSample", 8)
		rf := "arg0.Header.restorationFilter."
		b.val(rf+"epfIterations", e.iter)
		b.val(rf+"epfSigmaForModular", e.sigma)
		b.val(rf+"epfPass0SigmaScale", 0.875)
		b.val(rf+"epfPass2SigmaScale", 6.5)
		b.val(rf+"epfBorderSadMul", 0.625)
		b.val("len("+rf+"epfChannelScale)", 3)
		scale := []float64{4, 0.5, 0.375}
		for c, v := range scale {
			b.val(fmt.Sprintf("%sepfChannelScale[][%d]", rf, c), v)
		}
		sigma := []float64{e.sigma, e.sigma}
		if e.vardct {
			b.val("len("+rf+"epfSharpLut)", 8)
			for s := 0; s < 8; s++ {
				b.val(fmt.Sprintf("%sepfSharpLut[][%d]", rf, s), float64(s)/8)
			}
			b.val("arg0.LfGlobal.globalScale", 16384)
			b.val("arg0.lfGroupRowStride", 1)
			b.val("len(arg0.lfGroups)", 1)
			m := "arg0.lfGroups[][0].hfMetadata."
			b.val("len("+m+"hfMultiplier)", 1)
			b.val("len("+m+"hfMultiplier[][0])", 2)
			b.val("len("+m+"hfStreamBuffer)", 4)
			b.val("len("+m+"hfStreamBuffer[][3])", 1)
			b.val("len("+m+"hfStreamBuffer[][3][][0])", 2)
			for x, sh := range []int{3, 1} {
				if e.w == 8 {
					sh = 6
				}
				b.val(fmt.Sprintf("%shfMultiplier[][0][][%d]", m, x), 2-x)
				b.val(fmt.Sprintf("%shfStreamBuffer[][3][][0][][%d]", m, x), sh)
				sigma[x] = 4 * float64(sh) / 8 / float64(2-x)
			}
			if e.w == 16 {
				// so smooth that the block is left alone
				fmt.Fprintf(b, "\tq0 := Vals(%q, 20)\n", m+"hfMultiplier[][0][][2]")
			}
		}
		b.val("len(arg0.Buffer)", 3)
		var p [3][][]float64
		for c := 0; c < 3; c++ {
			p[c] = make([][]float64, e.h)
			for y := range p[c] {
				p[c][y] = make([]float64, e.w)
				for x := range p[c][y] {
					p[c][y][x] = 0.25 + float64((13*c+7*y*y+5*x+3*x*y)%16)/512
				}
			}
			b.floats(fmt.Sprintf("arg0.Buffer[][%d]", c), e.h, e.w, func(y, x int) []any { return []any{p[c][y][x]} })
		}
		for pass := 0; pass < 3; pass++ {
			if pass == 0 && e.iter < 3 || pass == 2 && e.iter < 2 {
				continue
			}
			kernel, mul := cross, 1.65*4*(1-math.Sqrt(0.5))
			if pass == 0 {
				kernel, mul = double, mul*0.875
			}
			if pass == 2 {
				mul *= 6.5
			}
			var r [3][][]float64
			for c := range r {
				r[c] = make([][]float64, e.h)
				for y := range r[c] {
					r[c][y] = append([]float64(nil), p[c][y]...)
				}
			}
			at := func(c, y, x int) float64 { return p[c][mirrored(y, e.h)][mirrored(x, e.w)] }
			for y := 0; y < e.h; y++ {
				for x := 0; x < e.w; x++ {
					sg := sigma[x/8]
					if sg < 0.3 {
						continue
					}
					sum, total := [3]float64{}, 0.0
					for _, k := range kernel {
						dist := 0.0
						for c := 0; c < 3; c++ {
							if pass == 2 {
								dist += math.Abs(at(c, y, x)-at(c, y+k[0], x+k[1])) * scale[c]
								continue
							}
							for _, d := range cross {
								dist += math.Abs(at(c, y+d[0], x+d[1])-at(c, y+k[0]+d[0], x+k[1]+d[1])) * scale[c]
							}
						}
						if y%8 == 0 || y%8 == 7 || x%8 == 0 || x%8 == 7 {
							dist *= 0.625
						}
						wt := math.Max(0, 1-dist*mul/sg)
						total += wt
						for c := range sum {
							sum[c] += wt * at(c, y+k[0], x+k[1])
						}
					}
					for c := range sum {
						r[c][y][x] = sum[c] / total
					}
				}
			}
			p = r
		}
		for c := range p {
			for y := range p[c] {
				for x := range p[c][y] {
					b.out(fmt.Sprintf("@0.Buffer[%d].FloatBuffer[%d][%d]", c, y, x), "%v", p[c][y][x])
				}
			}
		}
		add("frame.(*Frame).performEdgePreservingFilter", fmt.Sprintf("EPF%d", i), fmt.Sprintf("%d iterations, %dx%d, sigma %v", e.iter, e.h, e.w, e.sigma), b.String())
	}
}
