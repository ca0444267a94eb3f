package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// P23: the arithmetic of modular image data. The specifications are generated:
// one per predictor or tree property and position in the channel.

// modPos is a place in a channel, with the width of the channel.
type modPos struct {
	name    string
	y, x, w int
}

var modPositions = []modPos{
	{"inside", 2, 3, 8},
	{"first sample", 0, 0, 8},
	{"first row", 0, 3, 8},
	{"second sample", 0, 1, 8},
	{"first column", 2, 0, 8},
	{"second row", 1, 3, 8},
	{"second row, first column", 1, 0, 8},
	{"second column", 2, 1, 8},
	{"last column", 2, 7, 8},
	{"last but one column", 2, 6, 8},
	{"first row, last column", 0, 7, 8},
	{"a single column", 2, 0, 1},
	{"two columns, first", 2, 0, 2},
}

// modSpec collects the samples a formula uses.
type modSpec struct {
	p    modPos
	leaf string
	used map[string]string
}

func (m *modSpec) at(y, x int) string {
	n := fmt.Sprintf("s%d_%d", y, x)
	m.used[n] = fmt.Sprintf("%s[][%d][][%d]", m.leaf, y, x)
	return n
}

func (m *modSpec) W(y, x int) string {
	switch {
	case x > 0:
		return m.at(y, x-1)
	case y > 0:
		return m.at(y-1, x)
	}
	return "0"
}

func (m *modSpec) N(y, x int) string {
	switch {
	case y > 0:
		return m.at(y-1, x)
	case x > 0:
		return m.at(y, x-1)
	}
	return "0"
}

func (m *modSpec) NW(y, x int) string {
	if x > 0 && y > 0 {
		return m.at(y-1, x-1)
	}
	return m.W(y, x)
}

func (m *modSpec) NE(y, x int) string {
	if y > 0 && x+1 < m.p.w {
		return m.at(y-1, x+1)
	}
	return m.N(y, x)
}

func (m *modSpec) NN(y, x int) string {
	if y > 1 {
		return m.at(y-2, x)
	}
	return m.N(y, x)
}

func (m *modSpec) NEE(y, x int) string {
	if y > 0 && x+2 < m.p.w {
		return m.at(y-1, x+2)
	}
	return m.NE(y, x)
}

func (m *modSpec) WW(y, x int) string {
	if x > 1 {
		return m.at(y, x-2)
	}
	return m.W(y, x)
}

// decls declares the samples: the more there are, the fewer values each.
func (m *modSpec) decls() string {
	vals := "-7, -2, 0, 1, 4, 9"
	switch n := len(m.used); {
	case n > 5:
		vals = "-7, 0, 6"
	case n > 4:
		vals = "-7, 0, 1, 6"
	}
	var b strings.Builder
	for _, n := range sortedKeys(m.used) {
		fmt.Fprintf(&b, "\t%s := Vals(%q, %s)\n", n, m.used[n], vals)
	}
	return b.String()
}

func specAbs(a string) string { return fmt.Sprintf("Max(%s, 0 - (%s))", a, a) }

// specMid is the value between two others: a clamp to the range they span.
func specMid(v, a, b string) string {
	return fmt.Sprintf("Max(Min(%s, Max(%s, %s)), Min(%s, %s))", v, a, b, a, b)
}

func predictorSpec(k int, m *modSpec) string {
	y, x := m.p.y, m.p.x
	switch k {
	case 0:
		return "0"
	case 1:
		return m.W(y, x)
	case 2:
		return m.N(y, x)
	case 3:
		return fmt.Sprintf("(%s + %s) / 2", m.W(y, x), m.N(y, x))
	case 4:
		w, n, nw := m.W(y, x), m.N(y, x), m.NW(y, x)
		return fmt.Sprintf("If(%s < %s, %s, %s)", specAbs(n+" - "+nw), specAbs(w+" - "+nw), w, n)
	case 5:
		w, n, nw := m.W(y, x), m.N(y, x), m.NW(y, x)
		return specMid(w+" + "+n+" - "+nw, w, n)
	case 6:
		m.used["wp"] = fmt.Sprintf("ModularChannel.pred[][%d][][%d]", y, x)
		return "(wp + 3) >> 3"
	case 7:
		return m.NE(y, x)
	case 8:
		return m.NW(y, x)
	case 9:
		return m.WW(y, x)
	case 10:
		return fmt.Sprintf("(%s + %s) / 2", m.W(y, x), m.NW(y, x))
	case 11:
		return fmt.Sprintf("(%s + %s) / 2", m.N(y, x), m.NW(y, x))
	case 12:
		return fmt.Sprintf("(%s + %s) / 2", m.N(y, x), m.NE(y, x))
	case 13:
		return fmt.Sprintf("(6 * %s - 2 * %s + 7 * %s + %s + %s + 3 * %s + 8) / 16",
			m.N(y, x), m.NN(y, x), m.W(y, x), m.WW(y, x), m.NEE(y, x), m.NE(y, x))
	}
	return ""
}

// propertySpec is property k of a tree node for the sample at m.p.
func propertySpec(k int, m *modSpec) string {
	y, x := m.p.y, m.p.x
	switch k {
	case 0:
		return "channel"
	case 1:
		return "stream"
	case 2:
		return fmt.Sprint(y)
	case 3:
		return fmt.Sprint(x)
	case 4:
		return specAbs(m.N(y, x))
	case 5:
		return specAbs(m.W(y, x))
	case 6:
		return m.N(y, x)
	case 7:
		return m.W(y, x)
	case 8:
		if x > 0 {
			return fmt.Sprintf("%s - (%s + %s - %s)", m.W(y, x), m.W(y, x-1), m.N(y, x-1), m.NW(y, x-1))
		}
		return m.W(y, x)
	case 9:
		return fmt.Sprintf("%s + %s - %s", m.W(y, x), m.N(y, x), m.NW(y, x))
	case 10:
		return fmt.Sprintf("%s - %s", m.W(y, x), m.NW(y, x))
	case 11:
		return fmt.Sprintf("%s - %s", m.NW(y, x), m.N(y, x))
	case 12:
		return fmt.Sprintf("%s - %s", m.N(y, x), m.NE(y, x))
	case 13:
		return fmt.Sprintf("%s - %s", m.N(y, x), m.NN(y, x))
	case 14:
		return fmt.Sprintf("%s - %s", m.W(y, x), m.WW(y, x))
	case 15:
		return "max_error"
	}
	return ""
}

const formulaSpec = `
func tendency(a int, b int, c int) (v int) {
	return If(a >= b && b >= c, falling(a, b, c), If(a <= b && b <= c, rising(a, b, c), 0))
}

func falling(a int, b int, c int) (v int) {
	return falling2(b, c, falling1(a, b, (4 * a - 3 * c - b + 6) / 12))
}

func falling1(a int, b int, x int) (v int) {
	return If(x - (x & 1) > 2 * (a - b), 2 * (a - b) + 1, x)
}

func falling2(b int, c int, x int) (v int) {
	return If(x + (x & 1) > 2 * (b - c), 2 * (b - c), x)
}

func rising(a int, b int, c int) (v int) {
	return rising2(b, c, rising1(a, b, (4 * a - 3 * c - b - 6) / 12))
}

func rising1(a int, b int, x int) (v int) {
	return If(x + (x & 1) < 2 * (a - b), 2 * (a - b) - 1, x)
}

func rising2(b int, c int, x int) (v int) {
	return If(x - (x & 1) < 2 * (b - c), 2 * (b - c), x)
}

func Tendency() {
	a := Vals("arg0", -100, -31, -12, -11, -10, -9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 32, 101)
	b := Vals("arg1", -100, -31, -12, -11, -10, -9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 32, 101)
	c := Vals("arg2", -100, -31, -12, -11, -10, -9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 32, 101)
	Out("", tendency(a, b, c))
}
`

// squeezeSpec undoes one squeeze step along a line of n samples.
func squeezeSpec(name string, n int, horizontal bool) string {
	na, nr := (n+1)/2, n/2
	var b strings.Builder
	fmt.Fprintf(&b, "func %s() {\n", name)
	along, across := "Width", "Height"
	cell := func(i int) string { return fmt.Sprintf("[][1][][%d]", i) }
	out := func(i int) string { return fmt.Sprintf("buffer[1][%d]", i) }
	if !horizontal {
		along, across = across, along
		cell = func(i int) string { return fmt.Sprintf("[][%d][][1]", i) }
		out = func(i int) string { return fmt.Sprintf("buffer[%d][1]", i) }
	}
	for i, l := range []int{n, na, nr} {
		fmt.Fprintf(&b, "\tl%d := Vals(\"arg%d.size.%s\", %d)\n\tc%d := Vals(\"arg%d.size.%s\", 2)\n", i, i, along, l, i, i, across)
	}
	if !horizontal {
		for i := 0; i < na; i++ {
			fmt.Fprintf(&b, "\tn%d := Vals(\"len(arg1.buffer[][%d])\", 2)\n", i, i)
		}
	}
	vals := "-21, -1, 0, 5, 16"
	if n > 3 {
		vals = "-21, 0, 5"
	}
	for i := 0; i < na; i++ {
		fmt.Fprintf(&b, "\ta%d := Vals(\"arg1.buffer%s\", %s)\n", i, cell(i), vals)
	}
	for i := 0; i < nr; i++ {
		fmt.Fprintf(&b, "\tr%d := Vals(\"arg2.buffer%s\", -9, 0, 7)\n", i, cell(i))
	}
	for i := 0; i < nr; i++ {
		left, next := fmt.Sprintf("a%d", i), fmt.Sprintf("a%d", i)
		if i > 0 {
			left = fmt.Sprintf("o%d", 2*i-1)
		}
		if i+1 < na {
			next = fmt.Sprintf("a%d", i+1)
		}
		fmt.Fprintf(&b, "\td%d := r%d + tendency(%s, a%d, %s)\n", i, i, left, i, next)
		fmt.Fprintf(&b, "\to%d := a%d + d%d / 2\n\to%d := o%d - d%d\n", 2*i, i, i, 2*i+1, 2*i, i)
	}
	if na > nr {
		fmt.Fprintf(&b, "\to%d := a%d\n", n-1, na-1)
	}
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "\tOut(%q, o%d)\n", out(i), i)
	}
	b.WriteString("}\n\n")
	return b.String()
}

// rctSpec undoes reversible colour transform t on channels first, first+1, first+2.
func rctSpec(name string, t, first int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "func %s() {\n\tnt := Vals(\"len(arg0.transforms)\", 1)\n\ttr := Vals(\"arg0.transforms[][0].tr\", 0)\n", name)
	fmt.Fprintf(&b, "\ttypei := Vals(\"arg0.transforms[][0].rctType\", %d)\n\tbegin := Vals(\"arg0.transforms[][0].beginC\", %d)\n", t, first)
	fmt.Fprintf(&b, "\tnc := Vals(\"len(arg0.channels)\", %d)\n\tdone := InBool(\"arg0.transformed\")\n\tUnsupported(done)\n", first+3)
	for j := 0; j < 3; j++ {
		c := fmt.Sprintf("arg0.channels[][%d]", first+j)
		fmt.Fprintf(&b, "\th%d := Vals(\"%s.size.Height\", 1)\n\tw%d := Vals(\"%s.size.Width\", 2)\n", j, c, j, c)
		fmt.Fprintf(&b, "\tv%d := Vals(\"%s.buffer[][0][][1]\", -300, -7, -2, 0, 1, 4, 9, 255)\n", j, c)
	}
	p, k := t/7, t%7
	o := [3]string{"v0", "v1", "v2"}
	if k == 6 {
		o = [3]string{"(v0 - (v2 >> 1) - (v1 >> 1) + v1)", "(v2 + v0 - (v2 >> 1))", "(v0 - (v2 >> 1) - (v1 >> 1))"}
	} else {
		if k&1 == 1 {
			o[2] = "(v2 + v0)"
		}
		switch k >> 1 {
		case 1:
			o[1] = "(v1 + v0)"
		case 2:
			o[1] = "(v1 + ((v0 + " + o[2] + ") >> 1))"
		}
	}
	to := [3]int{p % 3, (p + 1 + p/3) % 3, (p + 2 - p/3) % 3}
	for j := 0; j < 3; j++ {
		fmt.Fprintf(&b, "\tOut(\"@0.channels[%d].buffer[0][1]\", %s)\n", first+to[j], o[j])
	}
	b.WriteString("}\n\n")
	return b.String()
}

// refSpec is property k: the samples of earlier channels of the same size.
func refSpec(name string, k int, p modPos, same0, same1 bool) string {
	m := &modSpec{p: p, used: map[string]string{}}
	e := "0"
	j := 1
	if !same1 {
		j = 0
	}
	i := (k - 16) / 4
	if same1 && i == 1 {
		j = 0
	}
	if n := map[bool]int{true: 1}[same0] + map[bool]int{true: 1}[same1]; i < n && k-16 < 8 {
		m.leaf = fmt.Sprintf("arg6.channels[][%d].buffer", j)
		c := m.at(p.y, p.x)
		w, n := "0", "0"
		if p.x > 0 {
			w = m.at(p.y, p.x-1)
		}
		if p.y > 0 {
			n = m.at(p.y-1, p.x)
		} else {
			n = w
		}
		nw := w
		if p.x > 0 && p.y > 0 {
			nw = m.at(p.y-1, p.x-1)
		}
		d := fmt.Sprintf("%s - %s", c, specMid(w+" + "+n+" - "+nw, w, n))
		e = []string{specAbs(c), c, specAbs(d), d}[(k-16)%4]
	}
	var b strings.Builder
	fmt.Fprintf(&b, "func %s() {\n\tci := Vals(\"arg1\", 2)\n\txx := Vals(\"arg3\", %d)\n\tyy := Vals(\"arg4\", %d)\n\tkk := Vals(\"then0\", %d)\n", name, p.x, p.y, k)
	fmt.Fprintf(&b, "\tw := Vals(\"arg0.size.Width\", 8)\n\th := Vals(\"arg0.size.Height\", 9)\n\ths := Vals(\"arg0.hshift\", 1)\n\tvs := Vals(\"arg0.vshift\", 2)\n")
	for j, same := range []bool{same0, same1} {
		// what differs
		v := []int{8, 9, 1, 2}
		if !same {
			v[(k+j)%4]++
		}
		for i, f := range []string{"size.Width", "size.Height", "hshift", "vshift"} {
			fmt.Fprintf(&b, "\tf%d_%d := Vals(\"arg6.channels[][%d].%s\", %d)\n", j, i, j, f, v[i])
		}
	}
	for j := 0; j < 2; j++ {
		for i, c := range [][2]int{{p.y, p.x}, {p.y, p.x - 1}, {p.y - 1, p.x}, {p.y - 1, p.x - 1}} {
			l := fmt.Sprintf("arg6.channels[][%d].buffer[][%d][][%d]", j, c[0], c[1])
			used := c[0] < 0 || c[1] < 0
			for _, u := range m.used {
				used = used || u == l
			}
			if !used {
				fmt.Fprintf(&b, "\tother%d_%d := Vals(%q, 5000)\n", j, i, l)
			}
		}
	}
	fmt.Fprintf(&b, "%s\tOut(\"\", %s)\n}\n\n", m.decls(), e)
	return b.String()
}

// paletteSpec looks up index ix, one of the values of dom, for nc channels.
func paletteSpec(name string, ix []int, nc, nbDeltas, pred int, extra bool) string {
	const colours = 5
	var b strings.Builder
	n := 2
	if extra {
		n = 3
	}
	fmt.Fprintf(&b, "func %s() {\n\tnt := Vals(\"len(arg0.transforms)\", 1)\n\ttr := Vals(\"arg0.transforms[][0].tr\", 1)\n\tbc := Vals(\"arg0.transforms[][0].beginC\", 0)\n", name)
	fmt.Fprintf(&b, "\tnumc := Vals(\"arg0.transforms[][0].numC\", %d)\n\tcols := Vals(\"arg0.transforms[][0].nbColours\", %d)\n\tdel := Vals(\"arg0.transforms[][0].nbDeltas\", %d)\n\tdp := Vals(\"arg0.transforms[][0].dPred\", %d)\n", nc, colours, nbDeltas, pred)
	fmt.Fprintf(&b, "\tnch := Vals(\"len(arg0.channels)\", %d)\n\tdone := InBool(\"arg0.transformed\")\n\tUnsupported(done)\n\tgone := InBool(\"isnil(arg0.channels[][1].buffer)\")\n\tUnsupported(gone)\n", n)
	fmt.Fprintf(&b, "\th := Vals(\"arg0.channels[][1].size.Height\", 1)\n\tw := Vals(\"arg0.channels[][1].size.Width\", 1)\n\tlb := Vals(\"len(arg0.channels[][1].buffer)\", 1)\n\tlr := Vals(\"len(arg0.channels[][1].buffer[][0])\", 1)\n")
	fmt.Fprintf(&b, "\tdepth := Vals(\"iface:*github.com/kpfaulkner/jxl-go/frame.Frame.GlobalMetadata.BitDepth.BitsPerSample\", 1, 2, 3, 8, 9, 12, 16, 24)\n")
	s := make([]string, len(ix))
	for i, v := range ix {
		s[i] = fmt.Sprint(v)
	}
	fmt.Fprintf(&b, "\tix := Vals(\"arg0.channels[][1].buffer[][0][][0]\", %s)\n", strings.Join(s, ", "))
	for c := 0; c < nc; c++ {
		e := ""
		switch {
		case ix[0] >= 0 && ix[0] < colours:
			fmt.Fprintf(&b, "\tcol%d := Vals(\"arg0.channels[][0].buffer[][%d][][%d]\", -4, 0, 200)\n", c, c, ix[0])
			e = fmt.Sprintf("col%d", c)
		case ix[0] >= colours && ix[0] < colours+64:
			e = fmt.Sprintf("((ix - %d) >> %d) %% 4 * ((1 << depth) - 1) / 4 + (1 << Max(0, depth - 3))", colours, 2*c)
		case ix[0] >= colours:
			e = fmt.Sprintf("(ix - %d) / %d %% 5 * ((1 << depth) - 1) / 4", colours+64, []int{1, 5, 25, 125}[c])
		case c < 3:
			d := (-ix[0] - 1) % 143
			v := deltaPalette[(d+1)>>1][c]
			if d&1 == 0 {
				v = -v
			}
			e = fmt.Sprintf("If(depth > 8, (%d) << (Min(depth, 24) - 8), %d)", v, v)
		default:
			e = "0"
		}
		fmt.Fprintf(&b, "\tOut(\"@0.channels[%d].buffer[0][0]\", %s)\n", c, e)
	}
	fmt.Fprintf(&b, "\tOut(\"@0.channels.len()\", %d)\n", n-2+nc)
	if extra {
		fmt.Fprintf(&b, "\trest := Vals(\"arg0.channels[][2].buffer[][0][][0]\", -1, 77)\n\tOut(\"@0.channels[%d].buffer[0][0]\", rest)\n", nc)
	}
	b.WriteString("}\n\n")
	return b.String()
}

// deltaSpec: an entry below nbDeltas, or a negative one, is added to the
// prediction from what the channel holds by then. Sample 1 of a row of 3.
func deltaSpec(name string, ix, nbDeltas, pred int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "func %s() {\n\tnt := Vals(\"len(arg0.transforms)\", 1)\n\ttr := Vals(\"arg0.transforms[][0].tr\", 1)\n\tbc := Vals(\"arg0.transforms[][0].beginC\", 0)\n", name)
	fmt.Fprintf(&b, "\tnumc := Vals(\"arg0.transforms[][0].numC\", 1)\n\tcols := Vals(\"arg0.transforms[][0].nbColours\", 5)\n\tdel := Vals(\"arg0.transforms[][0].nbDeltas\", %d)\n\tdp := Vals(\"arg0.transforms[][0].dPred\", %d)\n", nbDeltas, pred)
	fmt.Fprintf(&b, "\tnch := Vals(\"len(arg0.channels)\", 2)\n\tdone := InBool(\"arg0.transformed\")\n\tUnsupported(done)\n\tgone := InBool(\"isnil(arg0.channels[][1].buffer)\")\n\tUnsupported(gone)\n")
	fmt.Fprintf(&b, "\th := Vals(\"arg0.channels[][1].size.Height\", 1)\n\tw := Vals(\"arg0.channels[][1].size.Width\", 3)\n\tlb := Vals(\"len(arg0.channels[][1].buffer)\", 1)\n\tlr := Vals(\"len(arg0.channels[][1].buffer[][0])\", 3)\n")
	fmt.Fprintf(&b, "\tdepth := Vals(\"iface:*github.com/kpfaulkner/jxl-go/frame.Frame.GlobalMetadata.BitDepth.BitsPerSample\", 8)\n")
	fmt.Fprintf(&b, "\ti0 := Vals(\"arg0.channels[][1].buffer[][0][][0]\", 4)\n\ti1 := Vals(\"arg0.channels[][1].buffer[][0][][1]\", %d)\n\ti2 := Vals(\"arg0.channels[][1].buffer[][0][][2]\", 4)\n", ix)
	fmt.Fprintf(&b, "\tc4 := Vals(\"arg0.channels[][0].buffer[][0][][4]\", -4, 0, 200)\n")
	v := ""
	if ix >= 0 {
		fmt.Fprintf(&b, "\tcx := Vals(\"arg0.channels[][0].buffer[][0][][%d]\", -9, 0, 100)\n", ix)
		v = "cx"
	} else {
		d := (-ix - 1) % 143
		n := deltaPalette[(d+1)>>1][0]
		if d&1 == 0 {
			n = -n
		}
		v = fmt.Sprintf("(%d)", n)
	}
	if ix < nbDeltas {
		v += map[int]string{0: "", 1: " + c4", 2: " + c4", 3: " + (c4 + c4) / 2", 5: " + c4", 7: " + c4"}[pred]
	}
	fmt.Fprintf(&b, "\tOut(\"@0.channels[0].buffer[0][1]\", %s)\n\tOut(\"@0.channels[0].buffer[0][2]\", c4)\n}\n\n", v)
	return b.String()
}

var wpValues = regexp.MustCompile(`(Vals\("[^"]*")[^)]*\)`)

// wpSpec: the sub-predictions and the largest error of the self-correcting
// predictor.
func wpSpec(name string, p modPos, what int) string {
	m := &modSpec{p: p, leaf: "arg0.buffer", used: map[string]string{}}
	y, x := p.y, p.x
	errAt := func(y, x int) string {
		n := fmt.Sprintf("e%d_%d", y, x)
		m.used[n] = fmt.Sprintf("arg0.err[][4][][%d][][%d]", y, x)
		return n
	}
	en := func() string {
		if y > 0 {
			return errAt(y-1, x)
		}
		return "0"
	}
	ew := func() string {
		if x > 0 {
			return errAt(y, x-1)
		}
		return "0"
	}
	enw := func() string {
		if x > 0 && y > 0 {
			return errAt(y-1, x-1)
		}
		return en()
	}
	ene := func() string {
		if y > 0 && x+1 < p.w {
			return errAt(y-1, x+1)
		}
		return en()
	}
	out := ""
	switch what {
	case 0:
		out = fmt.Sprintf("Out(\"@0.subpred[0]\", %s * 8 + %s * 8 - %s * 8)", m.W(y, x), m.NE(y, x), m.N(y, x))
	case 1:
		out = fmt.Sprintf("Out(\"@0.subpred[1]\", %s * 8 - ((%s + %s + %s) * p1) >> 5)", m.N(y, x), ew(), en(), ene())
		out = strings.Replace(out, "- ((", "- (((", 1)
		out = strings.Replace(out, ">> 5)", ">> 5))", 1)
	case 2:
		out = fmt.Sprintf("Out(\"@0.subpred[2]\", %s * 8 - (((%s + %s + %s) * p2) >> 5))", m.W(y, x), ew(), en(), enw())
	case 3:
		out = fmt.Sprintf("Out(\"@0.subpred[3]\", %[1]s * 8 - ((%[2]s * p3a + %[3]s * p3b + %[4]s * p3c + (%[5]s * 8 - %[1]s * 8) * p3d + (%[6]s * 8 - %[7]s * 8) * p3e) >> 5))",
			m.N(y, x), enw(), en(), ene(), m.NN(y, x), m.NW(y, x), m.W(y, x))
	case 4:
		out = fmt.Sprintf("Out(\"\", larger(larger(larger(%s, %s), %s), %s))", ew(), en(), enw(), ene())
	}
	d := m.decls()
	if len(m.used) > 6 {
		d = strings.ReplaceAll(d, "-7, 0, 6)", "-7, 6)")
	}
	if what == 4 {
		d = wpValues.ReplaceAllString(d, "$1, -7, 0, 7, 8)")
	}
	ps := ""
	if what < 3 {
		ps = "\tp1 := Vals(\"arg1.param1\", 0, 16, 31)\n\tp2 := Vals(\"arg1.param2\", 0, 10, 31)\n"
	} else if what == 3 {
		ps = "\tp3a := Vals(\"arg1.param3a\", 7)\n\tp3b := Vals(\"arg1.param3b\", 5)\n\tp3c := Vals(\"arg1.param3c\", 11)\n\tp3d := Vals(\"arg1.param3d\", 3)\n\tp3e := Vals(\"arg1.param3e\", 13)\n"
	}
	return fmt.Sprintf("func %s() {\n\txx := Vals(\"arg2\", %d)\n\tyy := Vals(\"arg3\", %d)\n\tww := Vals(\"arg0.size.Width\", %d)\n%s%s\t%s\n}\n\n", name, x, y, p.w, ps, d, out)
}

const sampleSpec = `
func larger(a int, b int) (v int) {
	return If(Max(b, 0 - b) > Max(a, 0 - a), b, a)
}

func Samples() {
	decoded := InBool("arg0.decoded")
	Unsupported(decoded)
	force := InBool("arg0.forceWP")
	Unsupported(force)
	h := Vals("arg0.size.Height", 1)
	w := Vals("arg0.size.Width", 2)
	n := Vals("len(arg0.buffer)", 0)
	prop := Vals("arg4.property", -1)
	ctx := Vals("arg4.context", 3)
	mult := Vals("arg4.multiplier", 1, 3)
	off := Vals("arg4.offset", -5, 0, 2)
	pred := Vals("arg4.predictor", 1)
	dist := Vals("arg8", 77)
	Domain("first", 0, 1, 2, 5)
	Domain("second", 0, 1, 2, 5)
	first := Sym(ctx, dist)
	second := Sym(ctx, dist)
	a := Unsign(first) * mult + off
	Out("@0.buffer[0][0]", a)
	Out("@0.buffer[0][1]", Unsign(second) * mult + off + a)
}
`

// deltaPalette is the palette of differences of the format.
var deltaPalette = [72][3]int{
	{0, 0, 0}, {4, 4, 4}, {11, 0, 0}, {0, 0, -13}, {0, -12, 0}, {-10, -10, -10}, {-18, -18, -18}, {-27, -27, -27},
	{-18, -18, 0}, {0, 0, -32}, {-32, 0, 0}, {-37, -37, -37}, {0, -32, -32}, {24, 24, 45}, {50, 50, 50}, {-45, -24, -24},
	{-24, -45, -45}, {0, -24, -24}, {-34, -34, 0}, {-24, 0, -24}, {-45, -45, -24}, {64, 64, 64}, {-32, 0, -32}, {0, -32, 0},
	{-32, 0, 32}, {-24, -45, -24}, {45, 24, 45}, {24, -24, -45}, {-45, -24, 24}, {80, 80, 80}, {64, 0, 0}, {0, 0, -64},
	{0, -64, -64}, {-24, -24, 45}, {96, 96, 96}, {64, 64, 0}, {45, -24, -24}, {34, -34, 0}, {112, 112, 112}, {24, -45, -45},
	{45, 45, -24}, {0, -32, 32}, {24, -24, 45}, {0, 96, 96}, {45, -24, 24}, {24, -45, -24}, {-24, -45, 24}, {0, -64, 0},
	{96, 0, 0}, {128, 128, 128}, {64, 0, 64}, {144, 144, 144}, {96, 96, 0}, {-36, -36, 36}, {45, -24, -45}, {45, -45, -24},
	{0, 0, -96}, {0, 128, 128}, {0, 96, 0}, {45, 24, -45}, {-128, 0, 0}, {24, -45, 24}, {-45, 24, -45}, {64, 0, -64},
	{64, -64, -64}, {96, 0, 96}, {45, -45, 24}, {24, 45, -45}, {64, 64, -64}, {128, 128, 0}, {0, 0, -128}, {-24, 45, -45},
}

const treeSpec = `
func Leaf() {
	prop := Vals("arg1.property", 15)
	value := Vals("arg1.value", -3, 0, 7)
	error := Vals("arg6", -4, -3, -2, 0, 1, 7, 8)
	lp := Vals("arg1.leftChildNode.property", -1)
	rp := Vals("arg1.rightChildNode.property", 2)
	row := Vals("arg5", 2, 3, 4)
	split := Vals("arg1.rightChildNode.value", 3)
	lp2 := Vals("arg1.rightChildNode.leftChildNode.property", -1)
	rp2 := Vals("arg1.rightChildNode.rightChildNode.property", -1)
	a := Vals("arg1.leftChildNode.context", 11)
	b := Vals("arg1.rightChildNode.leftChildNode.context", 12)
	c := Vals("arg1.rightChildNode.rightChildNode.context", 13)
	Out("context", If(error > value, a, If(row > split, b, c)))
}

func CompactChannel() {
	prop := Vals("arg0.property", 0)
	value := Vals("arg0.value", 0, 1, 2)
	channel := Vals("arg1", 0, 1, 2, 3)
	stream := Vals("arg2", 9)
	lp := Vals("arg0.leftChildNode.property", 3)
	rp := Vals("arg0.rightChildNode.property", -1)
	Out("context", If(channel > value, Vals("arg0.leftChildNode.context", 11), Vals("arg0.rightChildNode.context", 12)))
}

func CompactStream() {
	prop := Vals("arg0.property", 1)
	value := Vals("arg0.value", 0, 1, 2)
	channel := Vals("arg1", 9)
	stream := Vals("arg2", 0, 1, 2, 3)
	lp := Vals("arg0.leftChildNode.property", 3)
	rp := Vals("arg0.rightChildNode.property", -1)
	Out("context", If(stream > value, Vals("arg0.leftChildNode.context", 11), Vals("arg0.rightChildNode.context", 12)))
}

func CompactRow() {
	prop := Vals("arg0.property", 2)
	value := Vals("arg0.value", 0, 1, 2)
	channel := Vals("arg1", 9)
	stream := Vals("arg2", 9)
	row := Vals("arg3", 0, 1, 2, 3)
	lp := Vals("arg0.leftChildNode.property", 3)
	rp := Vals("arg0.rightChildNode.property", -1)
	Out("context", If(row > value, Vals("arg0.leftChildNode.context", 11), Vals("arg0.rightChildNode.context", 12)))
}

func CompactOther() {
	prop := Vals("arg0.property", -1, 3, 4, 8, 15, 16, 20)
	Out("context", Vals("arg0.context", 11))
}

func Weighted() {
	prop := Vals("arg0.property", 0, 2, 14, 15, 16)
	lp := Vals("arg0.leftChildNode.property", -1)
	rp := Vals("arg0.rightChildNode.property", -1)
	p1 := Vals("arg0.leftChildNode.predictor", 0, 5, 6, 7, 13)
	p2 := Vals("arg0.rightChildNode.predictor", 0, 5, 6, 7, 13)
	Out("", prop == 15 || p1 == 6 || p2 == 6)
}
`

const formulaExplain = "abstract interpretation of each function in guarded single-assignment form: every value is a set of guarded terms over the operands, which are named by their path from the parameters; the result and the memory it leaves behind are compared with the formula of ISO/IEC 18181-1"

func formulaRules(r *Result) {
	r.Rules = append(r.Rules,
		"the value returned, or left in memory reached from a parameter, is the term the format gives, under every condition on the operands",
	)
	r.Assume = append(r.Assume,
		"terms are compared over a finite set of values of each operand, which contains the constants of the code and of the formula and their neighbours",
		"functions whose parameters changed place, or whose terms grow too large, are not compared",
	)
}

func init() {
	register("P23", "other", formulaExplain, func(w *World, r *Result, th bool) {
		formulaRules(r)
		src := formulaSpec
		units := []gunit{{fn: "frame.tendancy", spec: "Tendency"}}
		for n := 2; n <= 4; n++ {
			for _, hz := range []bool{true, false} {
				name, fn := fmt.Sprintf("SqueezeH%d", n), "frame.inverseHorizontalSqueeze"
				if !hz {
					name, fn = fmt.Sprintf("SqueezeV%d", n), "frame.inverseVerticalSqueeze"
				}
				src += squeezeSpec(name, n, hz)
				units = append(units, gunit{fn: fn, spec: name, label: fmt.Sprintf("%d samples", n), exact: true})
			}
		}
		src += treeSpec
		for _, u := range []gunit{
			{fn: "frame.(*ModularChannel).getLeafNode", spec: "Leaf"},
			{fn: "frame.(*MATreeNode).compactify", spec: "CompactChannel", label: "channel"},
			{fn: "frame.(*MATreeNode).compactify", spec: "CompactStream", label: "stream"},
			{fn: "frame.(*MATreeNode).compactify", spec: "CompactOther", label: "others"},
			{fn: "frame.(*MATreeNode).compactifyWithY", spec: "CompactChannel", label: "channel"},
			{fn: "frame.(*MATreeNode).compactifyWithY", spec: "CompactStream", label: "stream"},
			{fn: "frame.(*MATreeNode).compactifyWithY", spec: "CompactRow", label: "row"},
			{fn: "frame.(*MATreeNode).compactifyWithY", spec: "CompactOther", label: "others"},
			{fn: "frame.(*MATreeNode).useWeightedPredictor", spec: "Weighted"},
		} {
			u.exact = true
			units = append(units, u)
		}
		for k := 16; k <= 24; k++ {
			for i, p := range []modPos{{"inside", 2, 3, 8}, {"first sample", 0, 0, 8}, {"first row", 0, 3, 8}, {"first column", 2, 0, 8}} {
				for _, same := range [][2]bool{{true, true}, {true, false}, {false, true}, {false, false}} {
					n := fmt.Sprintf("Ref%d_%d_%v_%v", k, i, same[0], same[1])
					src += refSpec(n, k, p, same[0], same[1])
					units = append(units, gunit{fn: "frame.(*ModularChannel).getWalkerFunc", spec: n, label: fmt.Sprintf("property %d, %s", k, p.name), then: true, exact: true})
				}
			}
		}
		for i, ix := range [][]int{{0}, {2}, {4}, {5, 6, 9, 20, 21, 67, 68}, {69, 70, 73, 74, 93, 94, 193, 194}, {-1}, {-2}, {-3}, {-4}, {-5}, {-60}, {-99}, {-142}, {-143}, {-144}, {-145}, {-286}, {-287}} {
			for _, nc := range []int{1, 3} {
				n := fmt.Sprintf("Palette%d_%d", i, nc)
				src += paletteSpec(n, ix, nc, -1000, 0, nc == 3 && i < 4)
				units = append(units, gunit{fn: "frame.(*ModularStream).applyTransforms", spec: n, label: fmt.Sprintf("palette index %d", ix[0]), exact: true})
			}
		}
		for _, ix := range []int{-1, -3, -4, 0, 2, 3} {
			for _, nd := range []int{0, 3} {
				for _, p := range []int{0, 1, 3, 5} {
					n := fmt.Sprintf("Delta%d_%d_%d", ix+10, nd, p)
					src += deltaSpec(n, ix, nd, p)
					units = append(units, gunit{fn: "frame.(*ModularStream).applyTransforms", spec: n, label: fmt.Sprintf("palette index %d of %d deltas", ix, nd), exact: true})
				}
			}
		}
		src += sampleSpec
		units = append(units, gunit{fn: "frame.(*ModularChannel).decode", spec: "Samples", exact: true})
		for i, p := range modPositions {
			for k := 0; k <= 4; k++ {
				n := fmt.Sprintf("WP%d_%d", k, i)
				src += wpSpec(n, p, k)
				units = append(units, gunit{fn: "frame.(*ModularChannel).prePredictWP", spec: n, label: fmt.Sprintf("part %d, %s", k, p.name), exact: true})
			}
		}
		for t := 0; t < 42; t++ {
			n := fmt.Sprintf("RCT%d", t)
			src += rctSpec(n, t, t%2)
			units = append(units, gunit{fn: "frame.(*ModularStream).applyTransforms", spec: n, label: fmt.Sprintf("colour transform %d", t), exact: true})
		}
		for k := 0; k <= 13; k++ {
			for i, p := range modPositions {
				m := &modSpec{p: p, leaf: "ModularChannel.buffer", used: map[string]string{}}
				e := predictorSpec(k, m)
				n := fmt.Sprintf("Predictor%d_%d", k, i)
				src += fmt.Sprintf("func %s() {\n\tyy := Vals(\"arg1\", %d)\n\txx := Vals(\"arg2\", %d)\n\tkk := Vals(\"arg3\", %d)\n\tww := Vals(\"ModularChannel.size.Width\", %d)\n%s\tOut(\"\", %s)\n}\n\n", n, p.y, p.x, k, p.w, m.decls(), e)
				units = append(units, gunit{fn: "frame.(*ModularChannel).prediction", spec: n, label: fmt.Sprintf("predictor %d, %s", k, p.name)})
			}
		}
		for k := 0; k <= 15; k++ {
			for i, p := range modPositions {
				m := &modSpec{p: p, leaf: "ModularChannel.buffer", used: map[string]string{}}
				e := propertySpec(k, m)
				n := fmt.Sprintf("Property%d_%d", k, i)
				src += fmt.Sprintf("func %s() {\n\tchannel := Vals(\"arg1\", 0, 2, 5)\n\tstream := Vals(\"arg2\", 0, 1, 77)\n\txx := Vals(\"arg3\", %d)\n\tyy := Vals(\"arg4\", %d)\n\tmax_error := Vals(\"arg5\", -9, 0, 14)\n\tkk := Vals(\"then0\", %d)\n\tww := Vals(\"ModularChannel.size.Width\", %d)\n%s\tOut(\"\", %s)\n}\n\n", n, p.x, p.y, k, p.w, m.decls(), e)
				units = append(units, gunit{fn: "frame.(*ModularChannel).getWalkerFunc", spec: n, label: fmt.Sprintf("property %d, %s", k, p.name), then: true})
			}
		}
		w.grammarUnits(r, src, units)
	})
}

func sortedKeys(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
