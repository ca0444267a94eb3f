package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
	"time"
)

// Multi-valued decision diagrams over finite-domain variables, and the terms
// that guards and values of the grammar extraction (gram.go) are made of.

// cv is a concrete scalar.
type cv struct {
	k byte // 'i' integer, 'f' float, 'b' boolean, 's' string
	i int64
	u bool // i holds an unsigned 64-bit pattern
	f float64
	s string
}

func cvInt(i int64) cv { return cv{k: 'i', i: i} }
func cvBool(b bool) cv {
	if b {
		return cv{k: 'b', i: 1}
	}
	return cv{k: 'b'}
}

func (c cv) String() string {
	switch c.k {
	case 'i':
		if c.u {
			return fmt.Sprint(uint64(c.i))
		}
		return fmt.Sprint(c.i)
	case 'f':
		return fmt.Sprintf("%.9g", c.f)
	case 'b':
		return fmt.Sprint(c.i == 1)
	}
	return fmt.Sprintf("%q", c.s)
}

func (c cv) float() float64 {
	switch c.k {
	case 'f':
		return c.f
	case 'i':
		if c.u {
			return float64(uint64(c.i))
		}
		return float64(c.i)
	}
	return math.NaN()
}

// outOfRange is the value of an element beyond the end of a slice.
const outOfRange = "(index out of range)"

// sameCV compares numerically; floats within a relative tolerance.
func sameCV(a, b cv) bool {
	if a.k == 's' || b.k == 's' {
		return a.k == b.k && a.s == b.s
	}
	if a.k == 'f' || b.k == 'f' {
		x, y := a.float(), b.float()
		if x == y {
			return true
		}
		return math.Abs(x-y) <= 1e-7+1e-5*math.Max(math.Abs(x), math.Abs(y))
	}
	neg := func(c cv) bool { return c.i < 0 && !c.u }
	return a.i == b.i && neg(a) == neg(b)
}

// gvar is a variable with a finite list of values: everything it can hold when
// its range is small, otherwise values on both sides of every constant it may
// be compared with. A difference found at one of the values is a difference;
// agreement is agreement at those values.
type gvar struct {
	id   int
	name string
	vals []cv
	full bool
}

type bdd = int32

type ddNode struct {
	v  int32
	ch []bdd
}

type dd struct {
	until  time.Time // when to give up
	ticks  int
	vars   []*gvar
	byName map[string]*gvar
	nodes  []ddNode
	uniq   map[string]bdd
	andM   map[[2]bdd]bdd
	notM   map[bdd]bdd
	terms  map[string]*gterm
	atoms  map[*gterm]bdd
	sup    map[bdd]map[int32]bool
	consts []int64
}

func newDD() *dd {
	d := &dd{byName: map[string]*gvar{}, uniq: map[string]bdd{}, andM: map[[2]bdd]bdd{}, notM: map[bdd]bdd{},
		terms: map[string]*gterm{}, atoms: map[*gterm]bdd{}, sup: map[bdd]map[int32]bool{}}
	d.nodes = []ddNode{{v: math.MaxInt32}, {v: math.MaxInt32}}
	return d
}

// ddLimit bounds the number of nodes: beyond it the unit is given up.
const ddLimit = 2_000_000

type giveUp struct{ why string }

func (d *dd) mk(v int32, ch []bdd) bdd {
	same := true
	for _, c := range ch {
		if c != ch[0] {
			same = false
			break
		}
	}
	if same {
		return ch[0]
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", v)
	for _, c := range ch {
		fmt.Fprintf(&sb, ",%d", c)
	}
	k := sb.String()
	if n, ok := d.uniq[k]; ok {
		return n
	}
	if len(d.nodes) > ddLimit {
		panic(giveUp{"guards too large"})
	}
	n := bdd(len(d.nodes))
	d.nodes = append(d.nodes, ddNode{v, append([]bdd(nil), ch...)})
	d.uniq[k] = n
	return n
}

func (d *dd) and(a, b bdd) bdd {
	if a == 0 || b == 0 {
		return 0
	}
	if a == 1 || a == b {
		return b
	}
	if b == 1 {
		return a
	}
	if a > b {
		a, b = b, a
	}
	k := [2]bdd{a, b}
	if r, ok := d.andM[k]; ok {
		return r
	}
	na, nb := d.nodes[a], d.nodes[b]
	v := na.v
	if nb.v < v {
		v = nb.v
	}
	n := len(d.vars[v].vals)
	ch := make([]bdd, n)
	for i := 0; i < n; i++ {
		x, y := a, b
		if na.v == v {
			x = na.ch[i]
		}
		if nb.v == v {
			y = nb.ch[i]
		}
		ch[i] = d.and(x, y)
	}
	r := d.mk(v, ch)
	d.andM[k] = r
	return r
}

func (d *dd) not(a bdd) bdd {
	if a < 2 {
		return 1 - a
	}
	if r, ok := d.notM[a]; ok {
		return r
	}
	n := d.nodes[a]
	ch := make([]bdd, len(n.ch))
	for i, c := range n.ch {
		ch[i] = d.not(c)
	}
	r := d.mk(n.v, ch)
	d.notM[a], d.notM[r] = r, a
	return r
}

func (d *dd) or(a, b bdd) bdd   { return d.not(d.and(d.not(a), d.not(b))) }
func (d *dd) diff(a, b bdd) bdd { return d.and(a, d.not(b)) }

// exists removes the variables for which f holds.
func (d *dd) exists(a bdd, f func(v *gvar) bool) bdd {
	memo := map[bdd]bdd{}
	var rec func(a bdd) bdd
	rec = func(a bdd) bdd {
		if a < 2 {
			return a
		}
		if r, ok := memo[a]; ok {
			return r
		}
		n := d.nodes[a]
		var r bdd
		if f(d.vars[n.v]) {
			for _, c := range n.ch {
				r = d.or(r, rec(c))
				if r == 1 {
					break
				}
			}
		} else {
			ch := make([]bdd, len(n.ch))
			for i, c := range n.ch {
				ch[i] = rec(c)
			}
			r = d.mk(n.v, ch)
		}
		memo[a] = r
		return r
	}
	return rec(a)
}

func (d *dd) support(a bdd) map[int32]bool {
	if s, ok := d.sup[a]; ok {
		return s
	}
	s := map[int32]bool{}
	seen := map[bdd]bool{}
	var rec func(a bdd)
	rec = func(a bdd) {
		if a < 2 || seen[a] {
			return
		}
		seen[a] = true
		s[d.nodes[a].v] = true
		for _, c := range d.nodes[a].ch {
			rec(c)
		}
	}
	rec(a)
	d.sup[a] = s
	return s
}

// restrict fixes variable v to its i-th value.
func (d *dd) restrict(a bdd, v int32, i int) bdd {
	memo := map[bdd]bdd{}
	var rec func(a bdd) bdd
	rec = func(a bdd) bdd {
		if a < 2 || d.nodes[a].v > v {
			return a
		}
		if r, ok := memo[a]; ok {
			return r
		}
		n := d.nodes[a]
		var r bdd
		if n.v == v {
			r = n.ch[i]
		} else {
			ch := make([]bdd, len(n.ch))
			for j, c := range n.ch {
				ch[j] = rec(c)
			}
			r = d.mk(n.v, ch)
		}
		memo[a] = r
		return r
	}
	return rec(a)
}

// witness describes one assignment of a.
func (d *dd) witness(a bdd) string {
	var out []string
	for a > 1 {
		n := d.nodes[a]
		best := -1
		for i, c := range n.ch {
			if c != 0 {
				best = i
				break
			}
		}
		out = append(out, d.vars[n.v].name+"="+d.vars[n.v].vals[best].String())
		a = n.ch[best]
	}
	if len(out) == 0 {
		return "always"
	}
	return strings.Join(out, " ")
}

func (d *dd) newVar(name string, vals []cv, full bool) *gvar {
	if v, ok := d.byName[name]; ok {
		return v
	}
	v := &gvar{id: len(d.vars), name: name, vals: vals, full: full}
	d.vars = append(d.vars, v)
	d.byName[name] = v
	return v
}

// intVals lists the values used for an integer in [lo, hi].
func (d *dd) intVals(lo, hi int64, uns64 bool) ([]cv, bool) {
	if !uns64 && hi-lo < 64 && hi >= lo {
		var out []cv
		for i := lo; i <= hi; i++ {
			out = append(out, cvInt(i))
		}
		return out, true
	}
	set := map[int64]bool{}
	in := func(x int64) {
		if uns64 {
			if x >= 0 {
				set[x] = true
			}
			return
		}
		if x >= lo && x <= hi {
			set[x] = true
		}
	}
	var pows []int64
	for _, c := range d.consts {
		in(c - 1)
		in(c)
		in(c + 1)
		if c > 0 && bits.OnesCount64(uint64(c)) == 1 {
			pows = append(pows, c)
		}
	}
	for i, p := range pows {
		for _, q := range pows[:i] {
			if len(set) < 300 {
				in(p | q)
			}
		}
	}
	in(lo)
	in(lo + 1)
	in(lo + 2)
	in(hi)
	in(hi - 1)
	var xs []int64
	for x := range set {
		xs = append(xs, x)
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i] < xs[j] })
	var out []cv
	for _, x := range xs {
		c := cvInt(x)
		out = append(out, c)
	}
	if uns64 {
		out = append(out, cv{k: 'i', i: -1, u: true})
	}
	return out, false
}

// ---- terms ----

// term is a hash-consed expression. ops: "const", "var", "opq" (unknown value
// with a name), "ptr", "slice", "nil", "agg", "fn", "nonnil", and operators.
type gterm struct {
	op   string
	args []*gterm
	c    cv
	v    *gvar
	kind string // result type of arithmetic: int8..uint64, float32, float64, bool, ""
	key  string
	// payload of ptr / slice / agg / fn
	o    *gobj
	path string
	ln   *gval
	off  int
	cp   int // capacity of a part of a slice, when it is known
	fs   []*gval
	fn   *gfn
	vs   []*gterm // enumerable leaves
	bad  bool     // has a leaf that cannot be enumerated
}

func (d *dd) intern(t *gterm) *gterm {
	if u, ok := d.terms[t.key]; ok {
		return u
	}
	seen := map[*gterm]bool{}
	if t.op == "var" {
		t.vs = []*gterm{t}
	}
	if t.op == "opq" || t.op == "ptr" || t.op == "slice" || t.op == "agg" || t.op == "fn" || t.op == "nonnil" || t.op == "nil" {
		t.bad = true
	}
	for _, a := range t.args {
		if a.bad {
			t.bad = true
		}
		for _, x := range a.vs {
			if !seen[x] {
				seen[x] = true
				t.vs = append(t.vs, x)
			}
		}
	}
	d.terms[t.key] = t
	return t
}

func (d *dd) tConst(c cv) *gterm {
	return d.intern(&gterm{op: "const", c: c, key: string(c.k) + ":" + c.String()})
}
func (d *dd) tVar(v *gvar) *gterm {
	if len(v.vals) == 1 {
		return d.tConst(v.vals[0])
	}
	return d.intern(&gterm{op: "var", v: v, key: "v:" + v.name})
}
func (d *dd) tOpq(name string) *gterm { return d.intern(&gterm{op: "opq", key: "?" + name}) }

// tick gives up when the time is over.
func (d *dd) tick() {
	if d.ticks++; d.ticks%1024 == 0 && !d.until.IsZero() && time.Now().After(d.until) {
		panic(giveUp{"takes too long"})
	}
}

func (d *dd) tApp(op, kind string, args ...*gterm) *gterm {
	d.tick()
	all := true
	ks := make([]string, len(args))
	for i, a := range args {
		if a.op != "const" {
			all = false
		} else if a.c.k == 's' && a.c.s == outOfRange && op != "==" && op != "!=" {
			return a
		}
		ks[i] = a.key
	}
	args = append([]*gterm(nil), args...) // callers reuse the slice
	t := &gterm{op: op, kind: kind, args: args}
	if all {
		if c, ok := applyOp(op, kind, cvs(args)); ok {
			return d.tConst(c)
		}
	}
	// conversions that keep the value disappear
	if op == "conv" {
		if lo, hi, ok := d.rangeOf(args[0]); ok {
			if klo, khi, ok := kindRange(kind); ok && lo >= klo && hi <= khi {
				return args[0]
			}
		}
	}
	if len(args) == 2 && args[1].op == "const" && args[1].c.k == 'i' && args[1].c.i == 0 && (op == "+" || op == "-" || op == "<<" || op == ">>" || op == "|" || op == "^") {
		return args[0]
	}
	t.key = op + kind + "(" + strings.Join(ks, ",") + ")"
	if len(t.key) > 4000 {
		panic(giveUp{"term too large"})
	}
	return d.intern(t)
}

func cvs(ts []*gterm) []cv {
	out := make([]cv, len(ts))
	for i, t := range ts {
		out[i] = t.c
	}
	return out
}

func kindRange(k string) (int64, int64, bool) {
	switch k {
	case "int8":
		return math.MinInt8, math.MaxInt8, true
	case "int16":
		return math.MinInt16, math.MaxInt16, true
	case "int32":
		return math.MinInt32, math.MaxInt32, true
	case "int", "int64":
		return math.MinInt64, math.MaxInt64, true
	case "uint8":
		return 0, math.MaxUint8, true
	case "uint16":
		return 0, math.MaxUint16, true
	case "uint32":
		return 0, math.MaxUint32, true
	case "uint", "uint64", "uintptr":
		return 0, math.MaxInt64, true
	}
	return 0, 0, false
}

func (d *dd) rangeOf(t *gterm) (int64, int64, bool) {
	switch t.op {
	case "const":
		if t.c.k == 'i' && !(t.c.u && t.c.i < 0) {
			return t.c.i, t.c.i, true
		}
	case "var":
		if t.v.vals[0].k != 'i' {
			return 0, 0, false
		}
		lo, hi := t.v.vals[0], t.v.vals[len(t.v.vals)-1]
		if hi.u && hi.i < 0 {
			return 0, 0, false
		}
		return lo.i, hi.i, true
	}
	return 0, 0, false
}

func wrapKind(kind string, i int64, uns bool) cv {
	switch kind {
	case "int8":
		return cvInt(int64(int8(i)))
	case "int16":
		return cvInt(int64(int16(i)))
	case "int32":
		return cvInt(int64(int32(i)))
	case "uint8":
		return cvInt(int64(uint8(i)))
	case "uint16":
		return cvInt(int64(uint16(i)))
	case "uint32":
		return cvInt(int64(uint32(i)))
	case "uint", "uint64", "uintptr":
		return cv{k: 'i', i: i, u: i < 0}
	}
	return cv{k: 'i', i: i}
}

func isUns(kind string) bool { return strings.HasPrefix(kind, "uint") }

// applyOp evaluates an operator on scalars with Go's semantics.
func applyOp(op, kind string, a []cv) (cv, bool) {
	bad := cv{}
	switch op {
	case "!":
		return cvBool(a[0].i == 0), a[0].k == 'b'
	case "neg":
		if a[0].k == 'f' {
			return cv{k: 'f', f: -a[0].f}, true
		}
		return wrapKind(kind, -a[0].i, isUns(kind)), a[0].k == 'i'
	case "compl":
		return wrapKind(kind, ^a[0].i, isUns(kind)), a[0].k == 'i'
	case "conv":
		x := a[0]
		switch {
		case kind == "float32" || kind == "float64":
			f := x.float()
			if kind == "float32" {
				f = float64(float32(f))
			}
			return cv{k: 'f', f: f}, x.k == 'i' || x.k == 'f'
		case x.k == 'f':
			return wrapKind(kind, int64(x.f), isUns(kind)), kind != "" && kind != "string"
		case x.k == 'i' && kind != "" && kind != "string" && kind != "bool":
			return wrapKind(kind, x.i, isUns(kind)), true
		case x.k == 'b' && kind == "bool":
			return x, true
		}
		return bad, false
	case "==", "!=", "<", "<=", ">", ">=":
		x, y := a[0], a[1]
		c := 0
		switch {
		case x.k == 's' && y.k == 's':
			c = strings.Compare(x.s, y.s)
		case x.k == 'b' && y.k == 'b':
			c = int(x.i - y.i)
		case x.k == 'f' || y.k == 'f':
			p, q := x.float(), y.float()
			if p < q {
				c = -1
			} else if p > q {
				c = 1
			}
		case x.k == 'i' && y.k == 'i':
			xb, yb := x.u && x.i < 0, y.u && y.i < 0
			switch {
			case xb && !yb:
				c = 1
			case yb && !xb:
				c = -1
			case xb && yb:
				if uint64(x.i) < uint64(y.i) {
					c = -1
				} else if uint64(x.i) > uint64(y.i) {
					c = 1
				}
			case x.i < y.i:
				c = -1
			case x.i > y.i:
				c = 1
			}
		default:
			return bad, false
		}
		var r bool
		switch op {
		case "==":
			r = c == 0
		case "!=":
			r = c != 0
		case "<":
			r = c < 0
		case "<=":
			r = c <= 0
		case ">":
			r = c > 0
		case ">=":
			r = c >= 0
		}
		return cvBool(r), true
	case "fn:unsign":
		if a[0].k != 'i' {
			return bad, false
		}
		u := uint64(a[0].i)
		if u&1 == 0 {
			return cvInt(int64(u >> 1)), true
		}
		return cvInt(-int64(u>>1) - 1), true
	case "fn:ceillog2":
		if a[0].k != 'i' || a[0].i <= 0 {
			return bad, false
		}
		return cvInt(int64(bits.Len64(uint64(a[0].i) - 1))), true
	case "fn:frombits":
		if a[0].k != 'i' {
			return bad, false
		}
		return cv{k: 'f', f: float64(math.Float32frombits(uint32(a[0].i)))}, true
	case "fn:mathSqrt", "fn:mathAbs", "fn:mathPow":
		for _, v := range a {
			if v.k != 'i' && v.k != 'f' {
				return bad, false
			}
		}
		switch op {
		case "fn:mathSqrt":
			return cv{k: 'f', f: math.Sqrt(a[0].float())}, true
		case "fn:mathAbs":
			return cv{k: 'f', f: math.Abs(a[0].float())}, true
		}
		return cv{k: 'f', f: math.Pow(a[0].float(), a[1].float())}, true
	case "fn:tobits":
		if a[0].k != 'i' && a[0].k != 'f' {
			return bad, false
		}
		return cvInt(int64(math.Float32bits(float32(a[0].float())))), true
	case "fn:half":
		if a[0].k != 'i' {
			return bad, false
		}
		b := a[0].i
		m, e := float64(b&0x3ff), int(b>>10&31)
		if e == 0 {
			m, e = math.Ldexp(m, -24), 0
		} else {
			m = math.Ldexp(m+1024, e-25)
		}
		if b&0x8000 != 0 {
			m = -m
		}
		return cv{k: 'f', f: m}, true
	case "fn:len64", "fn:len32":
		if a[0].k != 'i' {
			return bad, false
		}
		if op == "fn:len32" {
			return cvInt(int64(bits.Len32(uint32(a[0].i)))), true
		}
		return cvInt(int64(bits.Len64(uint64(a[0].i)))), true
	case "max", "min":
		best := a[0]
		for _, x := range a[1:] {
			lt, ok := applyOp("<", "", []cv{x, best})
			if !ok {
				return bad, false
			}
			if (lt.i == 1) == (op == "min") {
				best = x
			}
		}
		return best, true
	}
	if len(a) != 2 {
		return bad, false
	}
	x, y := a[0], a[1]
	if x.k == 'f' || y.k == 'f' {
		p, q := x.float(), y.float()
		var f float64
		switch op {
		case "+":
			f = p + q
		case "-":
			f = p - q
		case "*":
			f = p * q
		case "/":
			f = p / q
		default:
			return bad, false
		}
		if kind == "float32" {
			f = float64(float32(f))
		}
		return cv{k: 'f', f: f}, true
	}
	if x.k != 'i' || y.k != 'i' {
		return bad, false
	}
	uns := isUns(kind)
	var r int64
	switch op {
	case "+":
		r = x.i + y.i
	case "-":
		r = x.i - y.i
	case "*":
		r = x.i * y.i
	case "/", "%":
		if y.i == 0 {
			return bad, false
		}
		if uns {
			if op == "/" {
				r = int64(uint64(x.i) / uint64(y.i))
			} else {
				r = int64(uint64(x.i) % uint64(y.i))
			}
		} else if op == "/" {
			r = x.i / y.i
		} else {
			r = x.i % y.i
		}
	case "&":
		r = x.i & y.i
	case "|":
		r = x.i | y.i
	case "^":
		r = x.i ^ y.i
	case "&^":
		r = x.i &^ y.i
	case "<<", ">>":
		if y.i < 0 && !y.u {
			return bad, false
		}
		s := uint64(y.i)
		if op == "<<" {
			if s < 64 {
				r = x.i << s
			}
		} else if uns || x.u {
			if s < 64 {
				r = int64(uint64(x.i) >> s)
			}
		} else {
			if s > 63 {
				s = 63
			}
			r = x.i >> s
		}
	default:
		return bad, false
	}
	return wrapKind(kind, r, uns), true
}

// eval computes a term under an assignment (variable id -> value index).
func (d *dd) eval(t *gterm, asg map[int]int) (cv, bool) {
	switch t.op {
	case "const":
		return t.c, true
	case "var":
		i, ok := asg[t.v.id]
		if !ok {
			return cv{}, false
		}
		return t.v.vals[i], true
	}
	if t.bad {
		return cv{}, false
	}
	var buf [4]cv
	as := buf[:0]
	for _, a := range t.args {
		c, ok := d.eval(a, asg)
		if !ok {
			return cv{}, false
		}
		as = append(as, c)
	}
	return applyOp(t.op, t.kind, as)
}

// atom turns a boolean term into a guard.
func (d *dd) atom(t *gterm) bdd {
	if t.op == "const" {
		return bdd(t.c.i)
	}
	if r, ok := d.atoms[t]; ok {
		return r
	}
	r, ok := bdd(0), false
	if !t.bad {
		n := 1
		for _, v := range t.vs {
			n *= len(v.v.vals)
			if n > 120000 {
				break
			}
		}
		if n <= 120000 {
			r, ok = d.enumAtom(t)
		}
	}
	if !ok {
		switch t.op {
		case "!":
			r = d.not(d.atom(t.args[0]))
		case "!=":
			r = d.not(d.atom(d.tApp("==", "", t.args...)))
		case ">":
			r = d.atom(d.tApp("<", "", t.args[1], t.args[0]))
		case ">=":
			r = d.not(d.atom(d.tApp("<", "", t.args[0], t.args[1])))
		case "<=":
			r = d.not(d.atom(d.tApp("<", "", t.args[1], t.args[0])))
		default:
			v := d.newVar("["+canonKey(t)+"]", []cv{cvBool(false), cvBool(true)}, true)
			r = d.mk(int32(v.id), []bdd{0, 1})
		}
	}
	d.atoms[t] = r
	return r
}

func canonKey(t *gterm) string {
	if t.op == "conv" {
		return canonKey(t.args[0])
	}
	if t.op == "==" || t.op == "+" || t.op == "*" || t.op == "&" || t.op == "|" {
		var ks []string
		var flat func(x *gterm)
		flat = func(x *gterm) {
			for x.op == "conv" {
				x = x.args[0]
			}
			if x.op == t.op && t.op != "==" {
				for _, a := range x.args {
					flat(a)
				}
				return
			}
			ks = append(ks, canonKey(x))
		}
		for _, a := range t.args {
			flat(a)
		}
		sort.Strings(ks)
		return "(" + strings.Join(ks, " "+t.op+" ") + ")"
	}
	if len(t.args) == 0 {
		return strings.TrimPrefix(strings.TrimPrefix(t.key, "v:"), "i:")
	}
	var ks []string
	for _, a := range t.args {
		ks = append(ks, canonKey(a))
	}
	return t.op + "(" + strings.Join(ks, ",") + ")"
}

func (d *dd) enumAtom(t *gterm) (bdd, bool) {
	vs := append([]*gterm(nil), t.vs...)
	sort.Slice(vs, func(i, j int) bool { return vs[i].v.id < vs[j].v.id })
	asg := map[int]int{}
	okAll := true
	var rec func(k int) bdd
	rec = func(k int) bdd {
		if !okAll {
			return 0
		}
		if k == len(vs) {
			c, ok := d.eval(t, asg)
			if !ok || c.k != 'b' {
				okAll = false
				return 0
			}
			return bdd(c.i)
		}
		v := vs[k].v
		ch := make([]bdd, len(v.vals))
		for i := range v.vals {
			asg[v.id] = i
			ch[i] = rec(k + 1)
		}
		delete(asg, v.id)
		return d.mk(int32(v.id), ch)
	}
	r := rec(0)
	return r, okAll
}

// differ looks for an assignment inside care under which the terms differ.
// It answers -1 (cannot tell), 0 (equal at every value tried), 1 (differ).
func (d *dd) differ(a, b *gterm, care bdd) (int, string) {
	if a == b {
		return 0, ""
	}
	if a.bad || b.bad {
		return -1, ""
	}
	seen := map[int]bool{}
	var vs []*gvar
	for _, t := range append(append([]*gterm(nil), a.vs...), b.vs...) {
		if !seen[t.v.id] {
			seen[t.v.id] = true
			vs = append(vs, t.v)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	n := 1
	per := make([]int, len(vs))
	for i, v := range vs {
		per[i] = len(v.vals)
		n *= per[i]
	}
	for n > 30000 {
		big := 0
		for i := range per {
			if per[i] > per[big] {
				big = i
			}
		}
		n = n / per[big]
		per[big] = (per[big] + 1) / 2
		n *= per[big]
	}
	asg := map[int]int{}
	unknown := false
	wit := ""
	var rec func(k int, care bdd) bool
	rec = func(k int, care bdd) bool {
		if care == 0 {
			return false
		}
		if k == len(vs) {
			x, ok1 := d.eval(a, asg)
			y, ok2 := d.eval(b, asg)
			if !ok1 && !ok2 {
				return false
			}
			if !ok1 || !ok2 {
				unknown = true
				return false
			}
			if sameCV(x, y) {
				return false
			}
			wit = fmt.Sprintf("%s instead of %s", x, y)
			for _, v := range vs {
				wit += fmt.Sprintf(" %s=%s", v.name, v.vals[asg[v.id]])
			}
			return true
		}
		v := vs[k]
		step := len(v.vals)
		for j := 0; j < per[k]; j++ {
			i := j
			if per[k] < step && per[k] > 1 {
				i = j * (step - 1) / (per[k] - 1)
			}
			asg[v.id] = i
			if rec(k+1, d.restrict(care, int32(v.id), i)) {
				return true
			}
		}
		delete(asg, v.id)
		return false
	}
	if rec(0, care) {
		return 1, wit
	}
	if unknown {
		return -1, ""
	}
	return 0, ""
}
