package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Extraction of the read grammar of a parser: one forward pass over the SSA
// form in which every block carries the guard (decision diagram over what was
// read before) under which it runs, every register and memory cell a list of
// guarded terms, and every read of the bit stream becomes an event that is
// handed to the matcher (gspec.go) with its guard. Branches are merged, not
// enumerated; loops with a constant number of rounds are unrolled, other loops
// become one loop event whose body is extracted once.

type gobj struct {
	id  int
	sym string // "" for memory allocated by the parser
	typ types.Type

	beyond bool // no memory: an element beyond the end of a slice
}

type galt struct {
	g bdd
	t *gterm
}

type gval struct{ alts []galt }

type gfn struct {
	f    *ssa.Function
	bind []*gval
}

type gmem map[string]*gval

type gstate struct {
	pc  bdd
	mem gmem
}

type gedge struct {
	from, to *ssa.BasicBlock
	st       gstate
	phis     []*gval
	outs     map[ssa.Value]*gval
}

type gret struct {
	st   gstate
	vals []*gval
}

type gframe struct {
	f     *ssa.Function
	env   map[ssa.Value]*gval
	rets  []gret
	order []*ssa.BasicBlock
	up    *gframe
}

// event sink
type gsink interface {
	read(kind string, args []*gval, pc bdd, pos string) *gval
	enterLoop(pc bdd, count *gval, pos string)
	exitLoop()
}

// gkept is a value derived from what was read, stored or appended somewhere.
type gkept struct {
	v   *gval
	g   bdd
	pos string
	to  string // where it goes
}

// keepStore notes what is stored through p; a store of something unknown makes
// the whole object unknown.
func (x *gx) keepStore(p, v *gval, g bdd) {
	if x.dry != 0 {
		return
	}
	to, exact := "", true
	for _, a := range p.alts {
		if a.t.op != "ptr" {
			return
		}
		path := a.t.path
		if i := strings.Index(path, "[?]"); i >= 0 {
			path, exact = path[:i+3], false
		}
		to += fmt.Sprintf("%d%s ", a.t.o.id, path)
	}
	if exact {
		// what was there before is gone
		for i := range x.kept {
			if x.kept[i].to == to {
				x.kept[i].g = x.d.diff(x.kept[i].g, g)
			}
		}
	}
	for _, a := range v.alts {
		if len(a.t.vs) == 0 && (a.t.bad || a.t.op == "opq") {
			x.keptOpen[to] = x.d.or(x.keptOpen[to], g)
		}
	}
	n := len(x.kept)
	x.keep(v, g)
	for i := n; i < len(x.kept); i++ {
		x.kept[i].to = to
	}
}

// keep records the basic values of v that depend on a read.
func (x *gx) keep(v *gval, g bdd) {
	if x.dry != 0 || v == nil || len(x.kept) > 20000 {
		return
	}
	dep := false
	for _, a := range v.alts {
		if a.t.op == "agg" {
			for _, f := range a.t.fs {
				x.keep(f, x.d.and(g, a.g))
			}
			continue
		}
		if len(a.t.vs) > 0 && a.t.op != "slice" && a.t.op != "ptr" {
			dep = true
		}
	}
	if dep {
		x.kept = append(x.kept, gkept{v, g, x.at, ""})
	}
}

type gx struct {
	w        *World
	d        *dd
	sink     gsink
	nobj     int
	fresh    int
	dry      int
	events   int
	stores   []map[string]bool
	kept     []gkept
	at       string
	keptOpen map[string]bdd
	syms     map[string]*gobj
	fuel     int
	opaque   map[string]bool
	cells0   map[string]*gval // what memory holds at first
	sent     bool             // something was sent to a channel
	exact    bool             // leaves are named by the way to them
	rawPC    bdd              // the condition all reads happen under
	rawPos   int
	rawSeen  []*gval
	raw      bool // bytes come from an io.Reader, and the bit reader is what is analysed
	nfn      map[*ssa.Function]bool
	nread    int
	pos      map[string]bool
}

func newGX(w *World, d *dd, sink gsink) *gx {
	return &gx{w: w, d: d, sink: sink, syms: map[string]*gobj{}, keptOpen: map[string]bdd{}, fuel: 400000, nfn: map[*ssa.Function]bool{}, pos: map[string]bool{}}
}

func (x *gx) one(t *gterm) *gval { return &gval{[]galt{{1, t}}} }
func (x *gx) ci(i int64) *gval   { return x.one(x.d.tConst(cvInt(i))) }
func (x *gx) cb(b bool) *gval    { return x.one(x.d.tConst(cvBool(b))) }
func (x *gx) nilv() *gval        { return x.one(x.d.intern(&gterm{op: "nil", key: "nil"})) }
func (x *gx) unknown() *gval     { x.fresh++; return x.one(x.d.tOpq(fmt.Sprintf("u%d", x.fresh))) }
func (x *gx) freshName() string  { x.fresh++; return fmt.Sprintf("~%d", x.fresh) }
func (x *gx) newObj(t types.Type) *gobj {
	x.nobj++
	return &gobj{id: x.nobj, typ: t}
}

func (x *gx) symObj(name string, t types.Type) *gobj {
	if o, ok := x.syms[name]; ok {
		return o
	}
	x.nobj++
	o := &gobj{id: x.nobj, sym: name, typ: t}
	x.syms[name] = o
	return o
}

func (x *gx) ptr(o *gobj, path string) *gval { return x.one(x.ptrT(o, path)) }

func (x *gx) ptrT(o *gobj, path string) *gterm {
	return x.d.intern(&gterm{op: "ptr", key: fmt.Sprintf("&%d%s", o.id, path), o: o, path: path})
}

func (x *gx) slice(o *gobj, path string, off int, ln *gval) *gval {
	x.fresh++
	key := fmt.Sprintf("[]%d%s+%d#%d", o.id, path, off, x.fresh)
	if o.sym != "" && off == 0 {
		key = fmt.Sprintf("[]%d%s", o.id, path)
	}
	return x.one(x.d.intern(&gterm{op: "slice", key: key, o: o, path: path, off: off, ln: ln}))
}

func (x *gx) agg(fs []*gval) *gval {
	x.fresh++
	return x.one(x.d.intern(&gterm{op: "agg", key: fmt.Sprintf("{}%d", x.fresh), fs: fs}))
}

// norm merges alternatives with the same term and drops impossible ones.
func (x *gx) norm(alts []galt) *gval {
	if len(alts) == 1 {
		return &gval{[]galt{{1, alts[0].t}}}
	}
	idx := map[*gterm]int{}
	var out []galt
	for _, a := range alts {
		if a.g == 0 {
			continue
		}
		if i, ok := idx[a.t]; ok {
			out[i].g = x.d.or(out[i].g, a.g)
			continue
		}
		idx[a.t] = len(out)
		out = append(out, a)
	}
	if len(out) == 0 {
		return x.unknown()
	}
	if len(out) == 1 {
		out[0].g = 1
	}
	if len(out) > 40 {
		return x.unknown()
	}
	return &gval{out}
}

// under keeps the alternatives possible under pc.
func (x *gx) under(v *gval, pc bdd) *gval {
	if len(v.alts) == 1 {
		return v
	}
	var out []galt
	for _, a := range v.alts {
		if g := x.d.and(a.g, pc); g != 0 {
			out = append(out, galt{g, a.t})
		}
	}
	if len(out) == 1 {
		return x.one(out[0].t)
	}
	if len(out) == 0 {
		return v
	}
	return &gval{out}
}

// lift applies f to every combination of alternatives.
func (x *gx) lift(pc bdd, f func(ts []*gterm) *gval, vs ...*gval) *gval {
	var out []galt
	ts := make([]*gterm, len(vs))
	n := 0
	var rec func(i int, g bdd)
	rec = func(i int, g bdd) {
		if i == len(vs) {
			n++
			if n > 400 {
				return
			}
			for _, a := range f(ts).alts {
				if h := x.d.and(g, a.g); h != 0 || g == 1 {
					out = append(out, galt{x.d.and(g, a.g), a.t})
				}
			}
			return
		}
		for _, a := range vs[i].alts {
			h := x.d.and(g, a.g)
			if h == 0 {
				continue
			}
			ts[i] = a.t
			rec(i+1, h)
		}
	}
	single := true
	for i, v := range vs {
		vs[i] = x.under(v, pc)
		if len(vs[i].alts) > 1 {
			single = false
		}
	}
	start := pc
	if single {
		start = 1
	}
	rec(0, start)
	if n > 400 {
		return x.unknown()
	}
	if len(out) == 0 {
		return x.unknown()
	}
	return x.norm(out)
}

func (x *gx) app(pc bdd, op, kind string, vs ...*gval) *gval {
	return x.lift(pc, func(ts []*gterm) *gval {
		for _, t := range ts {
			if t.op == "agg" {
				return x.unknown()
			}
		}
		return x.one(x.d.tApp(op, kind, ts...))
	}, vs...)
}

// cond turns a boolean value into a guard.
func (x *gx) cond(v *gval, pc bdd) bdd {
	v = x.under(v, pc)
	var r bdd
	for _, a := range v.alts {
		r = x.d.or(r, x.d.and(a.g, x.d.atom(a.t)))
	}
	return r
}

// ---- types and symbolic values ----

func basicKind(t types.Type) string {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return ""
	}
	switch b.Kind() {
	case types.UntypedInt:
		return "int"
	case types.UntypedFloat:
		return "float64"
	case types.UntypedBool:
		return "bool"
	case types.UntypedRune:
		return "int32"
	}
	return b.Name()
}

func kindName(t types.Type) string {
	switch k := basicKind(t); k {
	case "byte":
		return "uint8"
	case "rune":
		return "int32"
	default:
		return k
	}
}

func typeShort(t types.Type) string {
	if n := namedOf(t); n != nil {
		return n.Obj().Name()
	}
	return ""
}

// symVal is a value the parser was given.
func (x *gx) symVal(name string, t types.Type) *gval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if v, ok := x.d.byName[name]; ok {
			return x.one(x.d.tVar(v))
		}
		return x.one(x.d.tOpq(name))
	case *types.Pointer:
		return x.ptr(x.symObj(name, u.Elem()), "")
	case *types.Slice:
		if n := x.w.globalLen(name); n >= 0 {
			return x.slice(x.symObj(name+"[]", t), "", 0, x.ci(int64(n)))
		}
		return x.slice(x.symObj(name+"[]", t), "", 0, x.symVal("len("+name+")", types.Typ[types.Int]))
	case *types.Struct:
		var fs []*gval
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, x.symVal(name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return x.agg(fs)
	case *types.Array:
		if u.Len() <= 400 {
			var fs []*gval
			for i := 0; i < int(u.Len()); i++ {
				fs = append(fs, x.symVal(fmt.Sprintf("%s[%d]", name, i), u.Elem()))
			}
			return x.agg(fs)
		}
	case *types.Interface:
		if isErrorType(t) {
			return x.nilv()
		}
	case *types.Tuple:
		var fs []*gval
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, x.symVal(fmt.Sprintf("%s#%d", name, i), u.At(i).Type()))
		}
		return x.agg(fs)
	}
	return x.one(x.d.tOpq(name))
}

func (x *gx) zero(t types.Type) *gval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.cb(false)
		case u.Info()&types.IsInteger != 0:
			return x.ci(0)
		case u.Info()&types.IsFloat != 0:
			return x.one(x.d.tConst(cv{k: 'f'}))
		case u.Info()&types.IsString != 0:
			return x.one(x.d.tConst(cv{k: 's'}))
		}
		return x.unknown()
	case *types.Struct:
		var fs []*gval
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, x.zero(u.Field(i).Type()))
		}
		return x.agg(fs)
	case *types.Array:
		if u.Len() > 400 {
			return x.unknown()
		}
		var fs []*gval
		for i := 0; i < int(u.Len()); i++ {
			fs = append(fs, x.zero(u.Elem()))
		}
		return x.agg(fs)
	}
	return x.nilv()
}

// ---- memory ----

func cellKey(o *gobj, path string) string { return fmt.Sprintf("%d%s", o.id, path) }

// leafOf names a cell of memory the parser was given: by the type that holds
// the field, so that it does not matter how the parser got hold of it.
func (x *gx) leafOf(o *gobj, path string) string {
	if x.exact {
		return o.sym + path
	}
	if n := typeShort(o.typ); n != "" && strings.HasPrefix(path, ".") {
		return n + path
	}
	return o.sym + path
}

func (x *gx) load(mem gmem, o *gobj, path string, t types.Type) *gval {
	if o.beyond {
		return x.one(x.d.tConst(cv{k: 's', s: outOfRange}))
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var fs []*gval
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, x.load(mem, o, path+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return x.agg(fs)
	case *types.Array:
		if u.Len() > 400 {
			return x.unknown()
		}
		var fs []*gval
		for i := 0; i < int(u.Len()); i++ {
			fs = append(fs, x.load(mem, o, fmt.Sprintf("%s[%d]", path, i), u.Elem()))
		}
		return x.agg(fs)
	}
	if v, ok := mem[cellKey(o, path)]; ok {
		return v
	}
	for p := path; ; {
		if v, ok := mem[cellKey(o, p)+"!"]; ok {
			return x.symVal(v.alts[0].t.key+strings.TrimPrefix(path, p), t)
		}
		i := strings.LastIndexAny(p, ".[")
		if i < 0 {
			break
		}
		p = p[:i]
	}
	if o.sym != "" {
		if c := x.w.globalConst(o.sym + path); c != nil && isBasic(t) && (c.k != 'f' || x.exact) {
			return x.one(x.d.tConst(*c))
		}
		v := x.symVal(x.leafOf(o, path), t)
		if !strings.Contains(path, "[?]") {
			if k := cellKey(o, path); x.inits()[k] == nil {
				x.inits()[k] = v
			}
		}
		return v
	}
	if strings.Contains(path, "[?]") {
		return x.symVal(x.freshName(), t)
	}
	return x.zero(t)
}

func (x *gx) note(key string) {
	for _, s := range x.stores {
		s[key] = true
	}
}

func (x *gx) havoc(mem gmem, o *gobj, path string) {
	x.note(cellKey(o, path) + "!")
	x.havocKey(mem, cellKey(o, path))
}

func (x *gx) havocKey(mem gmem, key string) {
	for k := range mem {
		if strings.HasPrefix(k, key) && (len(k) == len(key) || k[len(key)] == '.' || k[len(key)] == '[' || k[len(key)] == '!') {
			delete(mem, k)
		}
	}
	mem[key+"!"] = x.one(x.d.tOpq(x.freshName()))
}

// store writes v at o.path under pc.
func (x *gx) store(st gstate, o *gobj, path string, t types.Type, v *gval, weak bdd) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			x.store(st, o, path+"."+u.Field(i).Name(), u.Field(i).Type(), x.field(v, i, st.pc), weak)
		}
		return
	case *types.Array:
		if u.Len() > 400 {
			x.havoc(st.mem, o, path)
			return
		}
		for i := 0; i < int(u.Len()); i++ {
			x.store(st, o, fmt.Sprintf("%s[%d]", path, i), u.Elem(), x.field(v, i, st.pc), weak)
		}
		return
	}
	k := cellKey(o, path)
	x.note(k)
	if o.sym != "" && !strings.Contains(path, "[?]") {
		x.initCells(o, path, t)
	}
	if weak == 1 {
		st.mem[k] = v
		return
	}
	old := x.load(st.mem, o, path, t)
	var alts []galt
	for _, a := range v.alts {
		alts = append(alts, galt{x.d.and(weak, a.g), a.t})
	}
	for _, a := range old.alts {
		alts = append(alts, galt{x.d.diff(a.g, weak), a.t})
	}
	st.mem[k] = x.norm(alts)
}

func (x *gx) field(v *gval, i int, pc bdd) *gval {
	return x.lift(pc, func(ts []*gterm) *gval {
		if ts[0].op == "agg" && i < len(ts[0].fs) {
			return ts[0].fs[i]
		}
		return x.unknown()
	}, v)
}

// through runs f for every place a pointer value may denote.
func (x *gx) through(p *gval, pc bdd, f func(o *gobj, path string, g bdd)) bool {
	p = x.under(p, pc)
	ok := true
	for _, a := range p.alts {
		if a.t.op == "ptr" {
			g := a.g
			if len(p.alts) == 1 {
				g = 1
			}
			f(a.t.o, a.t.path, g)
		} else if a.t.op != "nil" {
			ok = false
		}
	}
	return ok
}

func (x *gx) loadPtr(p *gval, st gstate, t types.Type) *gval {
	var alts []galt
	n := 0
	ok := x.through(p, st.pc, func(o *gobj, path string, g bdd) {
		n++
		for _, a := range x.load(st.mem, o, path, t).alts {
			alts = append(alts, galt{x.d.and(g, a.g), a.t})
		}
	})
	if !ok || n == 0 {
		return x.symVal(x.freshName(), t)
	}
	if n == 1 && len(alts) > 0 {
		return &gval{alts}
	}
	if len(alts) > 1 && alts[0].t.op == "agg" {
		return x.mergeAgg(alts)
	}
	return x.norm(alts)
}

// mergeAgg merges aggregates field by field.
func (x *gx) mergeAgg(alts []galt) *gval {
	n := len(alts[0].t.fs)
	for _, a := range alts {
		if a.t.op != "agg" || len(a.t.fs) != n {
			return x.norm(alts)
		}
	}
	fs := make([]*gval, n)
	for i := range fs {
		var out []galt
		for _, a := range alts {
			for _, b := range a.t.fs[i].alts {
				if g := x.d.and(a.g, b.g); g != 0 {
					out = append(out, galt{g, b.t})
				}
			}
		}
		if len(out) > 0 && out[0].t.op == "agg" && len(out) > 1 {
			fs[i] = x.mergeAgg(out)
		} else if len(out) == 0 {
			fs[i] = x.unknown()
		} else {
			fs[i] = x.norm(out)
		}
	}
	return x.agg(fs)
}

func (x *gx) mergeVals(pcs []bdd, vs []*gval) *gval {
	same := true
	for _, v := range vs {
		if v != vs[0] {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	var alts []galt
	left := bdd(1)
	for i, v := range vs {
		g := x.d.and(pcs[i], left)
		left = x.d.diff(left, pcs[i])
		for _, a := range v.alts {
			alts = append(alts, galt{x.d.and(g, a.g), a.t})
		}
	}
	var live []galt
	for _, a := range alts {
		if a.g != 0 {
			live = append(live, a)
		}
	}
	if len(live) > 1 && live[0].t.op == "agg" {
		return x.mergeAgg(live)
	}
	if len(live) == 0 {
		return vs[0]
	}
	if len(live) == 1 {
		return x.one(live[0].t)
	}
	return x.norm(live)
}

func (x *gx) mergeStates(sts []gstate) gstate {
	if len(sts) == 1 {
		return gstate{sts[0].pc, cloneMem(sts[0].mem)}
	}
	out := gstate{mem: gmem{}}
	pcs := make([]bdd, len(sts))
	keys := map[string]bool{}
	for i, s := range sts {
		pcs[i] = s.pc
		out.pc = x.d.or(out.pc, s.pc)
		for k := range s.mem {
			keys[k] = true
		}
	}
	// markers of unknown contents first
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if !strings.HasSuffix(k, "!") {
			continue
		}
		var v *gval
		for _, s := range sts {
			if m := s.mem[k]; m == nil {
				v = nil
				break
			} else if v == nil {
				v = m
			} else if m != v {
				v = nil
				break
			}
		}
		if v == nil {
			v = x.one(x.d.tOpq(x.freshName()))
		}
		out.mem[k] = v
	}
	for _, k := range ks {
		if strings.HasSuffix(k, "!") {
			continue
		}
		vs := make([]*gval, len(sts))
		var have *gval
		for i, s := range sts {
			vs[i] = s.mem[k]
			if vs[i] != nil {
				have = vs[i]
			}
		}
		for i, s := range sts {
			if vs[i] == nil {
				vs[i] = x.defaultFor(s.mem, k, have)
			}
		}
		out.mem[k] = x.mergeVals(pcs, vs)
	}
	return out
}

// defaultFor is the content of a cell one branch never wrote.
func (x *gx) defaultFor(mem gmem, key string, like *gval) *gval {
	for p := key; ; {
		if _, ok := mem[p+"!"]; ok {
			return x.unknown()
		}
		i := strings.LastIndexAny(p, ".[")
		if i < 0 {
			break
		}
		p = p[:i]
	}
	if z, ok := x.inits()[key]; ok {
		return z
	}
	return x.unknown()
}

func (x *gx) inits() map[string]*gval {
	if x.cells0 == nil {
		x.cells0 = map[string]*gval{}
	}
	return x.cells0
}

// initCells remembers what a cell holds before anything is stored in it.
func (x *gx) initCells(o *gobj, path string, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			x.initCells(o, path+"."+u.Field(i).Name(), u.Field(i).Type())
		}
	case *types.Array:
		if u.Len() <= 400 {
			for i := 0; i < int(u.Len()); i++ {
				x.initCells(o, fmt.Sprintf("%s[%d]", path, i), u.Elem())
			}
		}
	default:
		k := cellKey(o, path)
		if _, ok := x.inits()[k]; ok {
			return
		}
		if o.sym != "" {
			x.inits()[k] = x.symVal(x.leafOf(o, path), t)
		} else {
			x.inits()[k] = x.zero(t)
		}
	}
}

func cloneMem(m gmem) gmem {
	out := make(gmem, len(m)+8)
	for k, v := range m {
		out[k] = v
	}
	return out
}

// ---- execution ----

func rpo(f *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

// call runs f and returns its merged results and state.
func (x *gx) call(f *ssa.Function, args []*gval, bind []*gval, st gstate, up *gframe) ([]*gval, gstate, []gret) {
	x.nfn[f] = true
	fr := &gframe{f: f, env: map[ssa.Value]*gval{}, order: rpo(f), up: up}
	for i, p := range f.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = x.unknown()
		}
	}
	for i, p := range f.FreeVars {
		if i < len(bind) {
			fr.env[p] = bind[i]
		} else {
			fr.env[p] = x.unknown()
		}
	}
	set := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		set[b] = true
	}
	entry := f.Blocks[0]
	x.region(fr, set, entry, []gedge{{to: entry, st: gstate{st.pc, cloneMem(st.mem)}}}, false, nil)
	rets := fr.rets
	if len(rets) == 0 {
		return nil, gstate{0, st.mem}, nil
	}
	// where guards overlap (left a loop early), believe the successful return
	sort.SliceStable(rets, func(i, j int) bool { return x.okRet(f, rets[i]) && !x.okRet(f, rets[j]) })
	var sts []gstate
	var pcs []bdd
	for _, r := range rets {
		sts = append(sts, r.st)
		pcs = append(pcs, r.st.pc)
	}
	n := f.Signature.Results().Len()
	res := make([]*gval, n)
	for i := 0; i < n; i++ {
		var vs []*gval
		for _, r := range rets {
			vs = append(vs, r.vals[i])
		}
		res[i] = x.mergeVals(pcs, vs)
	}
	return res, x.mergeStates(sts), rets
}

func (x *gx) okRet(f *ssa.Function, r gret) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if isErrorType(rs.At(i).Type()) {
			for _, a := range r.vals[i].alts {
				if a.t.op == "nonnil" {
					return false
				}
			}
		}
	}
	return true
}

// region runs the blocks of set from entry. Edges that leave the set or go back
// to a loop head are handed to sink.
func (x *gx) region(fr *gframe, set map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, in []gedge, isLoop bool, sink func(e gedge)) {
	pending := map[*ssa.BasicBlock][]gedge{entry: in}
	done := map[*ssa.BasicBlock]bool{}
	deliver := func(e gedge) {
		if e.st.pc == 0 {
			return
		}
		if !set[e.to] || (isLoop && e.to == entry) {
			sink(e)
			return
		}
		pending[e.to] = append(pending[e.to], e)
	}
	loops := map[*ssa.BasicBlock]*natLoop{}
	for _, l := range x.w.loopsIn(fr.f) {
		loops[l.head] = l
	}
	for _, b := range fr.order {
		if !set[b] || done[b] {
			continue
		}
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		if l := loops[b]; l != nil && !(isLoop && b == entry) {
			for bb := range l.body {
				done[bb] = true
			}
			x.loop(fr, l, es, deliver)
			continue
		}
		done[b] = true
		x.block(fr, b, es, deliver)
	}
}

// enter merges the incoming edges of b and sets its phis.
func (x *gx) enter(fr *gframe, b *ssa.BasicBlock, es []gedge) gstate {
	var sts []gstate
	var pcs []bdd
	for _, e := range es {
		sts = append(sts, e.st)
		pcs = append(pcs, e.st.pc)
	}
	st := x.mergeStates(sts)
	k := 0
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []*gval
		for _, e := range es {
			if k < len(e.phis) {
				vs = append(vs, e.phis[k])
			} else {
				vs = append(vs, x.unknown())
			}
		}
		fr.env[p] = x.mergeVals(pcs, vs)
		k++
	}
	return st
}

func (x *gx) edge(fr *gframe, from, to *ssa.BasicBlock, st gstate) gedge {
	e := gedge{from: from, to: to, st: st}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e.phis = append(e.phis, x.under(x.val(fr, p.Edges[pi]), st.pc))
	}
	return e
}

func (x *gx) block(fr *gframe, b *ssa.BasicBlock, es []gedge, deliver func(e gedge)) {
	st := x.enter(fr, b, es)
	x.fuel--
	if x.fuel < 0 {
		panic(giveUp{"too many steps"})
	}
	for _, in := range b.Instrs {
		x.d.tick()
		switch in := in.(type) {
		case *ssa.Phi:
		case *ssa.If:
			c := x.cond(x.val(fr, in.Cond), st.pc)
			pt := x.d.and(st.pc, c)
			pf := x.d.diff(st.pc, c)
			if pt != 0 {
				deliver(x.edge(fr, b, b.Succs[0], gstate{pt, st.mem}))
			}
			if pf != 0 {
				m := st.mem
				if pt != 0 {
					m = cloneMem(m)
				}
				deliver(x.edge(fr, b, b.Succs[1], gstate{pf, m}))
			}
			return
		case *ssa.Jump:
			deliver(x.edge(fr, b, b.Succs[0], st))
			return
		case *ssa.Return:
			var vs []*gval
			for _, r := range in.Results {
				vs = append(vs, x.under(x.val(fr, r), st.pc))
			}
			fr.rets = append(fr.rets, gret{st, vs})
			return
		case *ssa.Panic:
			return
		default:
			st = x.instr(fr, in, st)
			if st.pc == 0 {
				return
			}
		}
	}
}

// liveOut lists the values defined in l and used outside of it (not by phis,
// whose operands are taken at the edge).
func liveOut(l *natLoop) []ssa.Value {
	var out []ssa.Value
	for b := range l.body {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if _, phi := r.(*ssa.Phi); !phi && !l.body[r.Block()] {
					out = append(out, v)
					break
				}
			}
		}
	}
	return out
}

func (x *gx) loop(fr *gframe, l *natLoop, in []gedge, deliver func(e gedge)) {
	if x.exact {
		x.unroll(fr, l, in, deliver)
		return
	}
	// a trial round: what does it store, does it read, how often does it run
	pre := x.enter(fr, l.head, in)
	initPhi := map[*ssa.Phi]*gval{}
	for _, i := range l.head.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			initPhi[p] = fr.env[p]
		}
	}
	ev0 := x.events
	mark := x.nobj
	mod := map[string]bool{}
	var count *gval
	saveEnv := cloneEnv(fr.env)
	saveRets := len(fr.rets)
	for round := 0; round < 3; round++ {
		x.dry++
		rec := map[string]bool{}
		x.stores = append(x.stores, rec)
		st := gstate{pre.pc, cloneMem(pre.mem)}
		x.havocAll(st.mem, mod)
		x.runBody(fr, l, st, func(e gedge) {})
		count = x.tripCount(fr, l, initPhi, pre.pc)
		x.stores = x.stores[:len(x.stores)-1]
		x.dry--
		fr.rets = fr.rets[:saveRets]
		n := len(mod)
		for k := range rec {
			if objOf(k) <= mark {
				mod[k] = true
			}
		}
		if round == 0 && count != nil && len(count.alts) == 1 && count.alts[0].t.op == "const" {
			if c := count.alts[0].t.c; c.k == 'i' && c.i <= 400 {
				fr.env = saveEnv
				x.events = ev0
				x.unroll(fr, l, in, deliver)
				return
			}
		}
		if len(mod) == n {
			break
		}
	}
	reads := x.events > ev0
	x.events = ev0
	fr.env = saveEnv
	// the real round
	for k := range mod {
		x.note(k)
	}
	st := gstate{pre.pc, cloneMem(pre.mem)}
	x.havocAll(st.mem, mod)
	after := cloneMem(pre.mem)
	x.havocAll(after, mod)
	if reads {
		x.events++
		if x.dry == 0 {
			x.sink.enterLoop(pre.pc, count, x.w.Pos(instrPos(l.head.Instrs[0])))
		}
	}
	known := len(x.d.vars)
	var exits []gedge
	x.runBody(fr, l, st, func(e gedge) {
		if e.to != l.head {
			exits = append(exits, e)
		}
	})
	if reads && x.dry == 0 {
		x.sink.exitLoop()
	}
	headExit := false
	through := pre.pc // no round leaves in the middle
	test := map[int32]bool{}
	if br, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If); ok {
		if c := fr.env[br.Cond]; c != nil {
			for v := range x.d.support(x.cond(c, st.pc)) {
				if int(v) >= known {
					test[v] = true
				}
			}
		}
	}
	for _, e := range exits {
		if e.from == l.head {
			headExit = true
			continue
		}
		g := x.d.exists(e.st.pc, func(v *gvar) bool { return test[int32(v.id)] })
		for v := range x.d.support(g) {
			if int(v) >= known {
				g = 0
				break
			}
		}
		through = x.d.diff(through, g)
	}
	for _, e := range exits {
		pc := through
		if e.from != l.head || !headExit {
			pc = x.d.exists(e.st.pc, func(v *gvar) bool { return v.id >= known })
		}
		k := 0
		for _, i := range e.to.Instrs {
			p, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			pi := 0
			for j, q := range e.to.Preds {
				if q == e.from {
					pi = j
				}
			}
			if iv, ok := p.Edges[pi].(ssa.Instruction); ok && l.body[iv.Block()] && !isErrorType(p.Type()) {
				e.phis[k] = x.loopUnknown(p.Edges[pi], initPhi)
			}
			k++
		}
		e.st = gstate{pc, cloneMem(after)}
		deliver(e)
	}
	for _, v := range liveOut(l) {
		// an error that ends the loop is the round's own
		if !isErrorType(v.Type()) || fr.env[v] == nil {
			fr.env[v] = x.loopUnknown(v, initPhi)
		}
	}
}

// loopUnknown is the value of a register after a loop with an unknown number of
// rounds.
func (x *gx) loopUnknown(v ssa.Value, initPhi map[*ssa.Phi]*gval) *gval {
	if isErrorType(v.Type()) {
		return x.nilv()
	}
	return x.symVal(x.freshName(), v.Type())
}

func objOf(key string) int {
	n := 0
	for _, c := range key {
		if c < '0' || c > '9' {
			break
		}
		n = n*10 + int(c-'0')
	}
	return n
}

func cloneEnv(m map[ssa.Value]*gval) map[ssa.Value]*gval {
	out := make(map[ssa.Value]*gval, len(m))
	for k, v := range m {
		out[k] = v
	}
	return out
}

func (x *gx) havocAll(mem gmem, mod map[string]bool) {
	for k := range mod {
		if strings.HasSuffix(k, "!") {
			x.havocKey(mem, strings.TrimSuffix(k, "!"))
		} else {
			x.havocKey(mem, k)
		}
	}
}

// runBody runs one round with the loop's own registers unknown; the test that
// ends the loop is taken to hold.
func (x *gx) runBody(fr *gframe, l *natLoop, st gstate, sink func(e gedge)) {
	var phis []*gval
	for _, i := range l.head.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if isErrorType(p.Type()) {
			phis = append(phis, x.nilv())
			continue
		}
		phis = append(phis, x.symVal(x.freshName(), p.Type()))
	}
	x.region(fr, l.body, l.head, []gedge{{to: l.head, st: st, phis: phis}}, true, sink)
}

func (x *gx) unroll(fr *gframe, l *natLoop, in []gedge, deliver func(e gedge)) {
	outs := liveOut(l)
	var pcs []bdd
	var snaps [][]*gval
	es := in
	for n := 0; len(es) > 0; n++ {
		if n > 420 || x.exact && n > 80 {
			panic(giveUp{"loop does not end"})
		}
		var back []gedge
		x.region(fr, l.body, l.head, es, true, func(e gedge) {
			if e.to == l.head {
				back = append(back, e)
				return
			}
			var vs []*gval
			for _, v := range outs {
				vs = append(vs, fr.env[v])
			}
			pcs = append(pcs, e.st.pc)
			snaps = append(snaps, vs)
			deliver(e)
		})
		es = back
	}
	for i, v := range outs {
		var ps []bdd
		var vs []*gval
		for j := range snaps {
			if snaps[j][i] != nil {
				ps = append(ps, pcs[j])
				vs = append(vs, snaps[j][i])
			}
		}
		if len(vs) > 0 {
			fr.env[v] = x.mergeVals(ps, vs)
		}
	}
}

// tripCount reads the number of rounds off the test in the loop head: a counter
// that moves by a constant against something the loop does not change.
func (x *gx) tripCount(fr *gframe, l *natLoop, initPhi map[*ssa.Phi]*gval, pc bdd) *gval {
	last := l.head.Instrs[len(l.head.Instrs)-1]
	br, ok := last.(*ssa.If)
	if !ok {
		return nil
	}
	inT, inF := l.body[l.head.Succs[0]], l.body[l.head.Succs[1]]
	if inT == inF {
		return nil
	}
	c, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	op := c.Op
	if !inT {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		}
	}
	try := func(a, b ssa.Value, op token.Token) *gval {
		off := int64(0)
		v := stripConv(a)
		for {
			if bo, ok := v.(*ssa.BinOp); ok {
				if k, ok := bo.Y.(*ssa.Const); ok && k.Value != nil && (bo.Op == token.ADD || bo.Op == token.SUB) {
					n, _ := constant.Int64Val(constant.ToInt(k.Value))
					if bo.Op == token.SUB {
						n = -n
					}
					off += n
					v = stripConv(bo.X)
					continue
				}
			}
			break
		}
		p, ok := v.(*ssa.Phi)
		if !ok || initPhi[p] == nil {
			return nil
		}
		step := int64(0)
		for i, e := range p.Edges {
			if !l.body[l.head.Preds[i]] {
				continue
			}
			bo, ok := e.(*ssa.BinOp)
			if !ok || bo.X != ssa.Value(p) {
				return nil
			}
			k, ok := bo.Y.(*ssa.Const)
			if !ok || k.Value == nil {
				return nil
			}
			n, _ := constant.Int64Val(constant.ToInt(k.Value))
			switch bo.Op {
			case token.ADD:
			case token.SUB:
				n = -n
			default:
				return nil
			}
			if step != 0 && step != n {
				return nil
			}
			step = n
		}
		if step == 0 {
			return nil
		}
		lim := fr.env[b]
		if k, ok := b.(*ssa.Const); ok {
			lim = x.val(fr, k)
		}
		if lim == nil {
			lim = x.val(fr, b)
		}
		start := x.app(pc, "+", "int64", initPhi[p], x.ci(off))
		var dist *gval
		add := int64(0)
		switch {
		case step > 0 && (op == token.LSS || op == token.NEQ):
			dist = x.app(pc, "-", "int64", lim, start)
		case step > 0 && op == token.LEQ:
			dist = x.app(pc, "-", "int64", lim, start)
			add = 1
		case step < 0 && (op == token.GTR || op == token.NEQ):
			dist = x.app(pc, "-", "int64", start, lim)
		case step < 0 && op == token.GEQ:
			dist = x.app(pc, "-", "int64", start, lim)
			add = 1
		default:
			return nil
		}
		if step < 0 {
			step = -step
		}
		dist = x.app(pc, "+", "int64", dist, x.ci(add))
		if step != 1 {
			dist = x.app(pc, "/", "int64", x.app(pc, "+", "int64", dist, x.ci(step-1)), x.ci(step))
		}
		return dist
	}
	if r := try(c.X, c.Y, op); r != nil {
		return r
	}
	sw := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.NEQ: token.NEQ}
	if o, ok := sw[op]; ok {
		return try(c.Y, c.X, o)
	}
	return nil
}

func (x *gx) val(fr *gframe, v ssa.Value) *gval {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return x.one(x.d.intern(&gterm{op: "fn", key: "fn:" + v.String(), fn: &gfn{f: v}}))
	case *ssa.Global:
		o := x.symObj("global:"+v.Pkg.Pkg.Name()+"."+v.Name(), v.Type().(*types.Pointer).Elem())
		return x.ptr(o, "")
	case *ssa.Builtin:
		return x.unknown()
	}
	if g, ok := fr.env[v]; ok {
		return g
	}
	return x.symVal(x.freshName(), v.Type())
}

func (x *gx) constVal(c *ssa.Const) *gval {
	if c.Value == nil {
		return x.zero(c.Type())
	}
	kind := kindName(c.Type())
	switch c.Value.Kind() {
	case constant.Bool:
		return x.cb(constant.BoolVal(c.Value))
	case constant.String:
		return x.one(x.d.tConst(cv{k: 's', s: constant.StringVal(c.Value)}))
	case constant.Int:
		if kind == "float32" || kind == "float64" {
			f, _ := constant.Float64Val(c.Value)
			return x.one(x.d.tConst(cv{k: 'f', f: f}))
		}
		if i, ok := constant.Int64Val(c.Value); ok {
			return x.ci(i)
		}
		if u, ok := constant.Uint64Val(c.Value); ok {
			return x.one(x.d.tConst(cv{k: 'i', i: int64(u), u: true}))
		}
	case constant.Float:
		f, _ := constant.Float64Val(c.Value)
		if kind == "float32" {
			f = float64(float32(f))
		}
		return x.one(x.d.tConst(cv{k: 'f', f: f}))
	}
	return x.unknown()
}

func isReaderType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/jxlio") &&
		(n.Obj().Name() == "BitReader" || n.Obj().Name() == "BitStreamReader")
}

func (x *gx) instr(fr *gframe, in ssa.Instruction, st gstate) gstate {
	set := func(v ssa.Value, g *gval) { fr.env[v] = g }
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		o := x.newObj(t)
		x.initCells(o, "", t)
		set(in, x.ptr(o, ""))
	case *ssa.BinOp:
		set(in, x.binop(in, x.val(fr, in.X), x.val(fr, in.Y), st.pc))
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			set(in, x.loadPtr(x.val(fr, in.X), st, in.Type()))
		case token.NOT:
			set(in, x.app(st.pc, "!", "", x.val(fr, in.X)))
		case token.SUB:
			set(in, x.app(st.pc, "neg", kindName(in.Type()), x.val(fr, in.X)))
		case token.XOR:
			set(in, x.app(st.pc, "compl", kindName(in.Type()), x.val(fr, in.X)))
		case token.ARROW:
			// nothing was sent: it can only have been closed
			if ch := in.X.Type().Underlying().(*types.Chan); !x.exact || x.sent {
				set(in, x.symVal(x.freshName(), in.Type()))
			} else if in.CommaOk {
				set(in, x.agg([]*gval{x.zero(ch.Elem()), x.cb(false)}))
			} else {
				set(in, x.zero(ch.Elem()))
			}
		default:
			set(in, x.symVal(x.freshName(), in.Type()))
		}
	case *ssa.FieldAddr:
		name := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(in.Field).Name()
		set(in, x.lift(st.pc, func(ts []*gterm) *gval {
			if ts[0].op == "ptr" {
				return x.ptr(ts[0].o, ts[0].path+"."+name)
			}
			return x.unknown()
		}, x.val(fr, in.X)))
	case *ssa.Field:
		set(in, x.field(x.val(fr, in.X), in.Field, st.pc))
	case *ssa.IndexAddr:
		set(in, x.indexAddr(x.val(fr, in.X), x.val(fr, in.Index), in, st))
	case *ssa.Index:
		idx := x.val(fr, in.Index)
		set(in, x.lift(st.pc, func(ts []*gterm) *gval {
			if ts[0].op == "agg" && ts[1].op == "const" && ts[1].c.i >= 0 && int(ts[1].c.i) < len(ts[0].fs) {
				return ts[0].fs[ts[1].c.i]
			}
			return x.symVal(x.freshName(), in.Type())
		}, x.val(fr, in.X), idx))
	case *ssa.Store:
		x.at = x.w.Pos(in.Pos())
		x.keepStore(x.under(x.val(fr, in.Addr), st.pc), x.under(x.val(fr, in.Val), st.pc), st.pc)
		x.storeTo(x.val(fr, in.Addr), in.Val.Type(), x.val(fr, in.Val), st)
	case *ssa.Convert:
		set(in, x.convert(x.val(fr, in.X), in.X.Type(), in.Type(), st.pc))
	case *ssa.ChangeType:
		set(in, x.val(fr, in.X))
	case *ssa.ChangeInterface:
		set(in, x.val(fr, in.X))
	case *ssa.MakeInterface:
		v := x.val(fr, in.X)
		if isErrorType(in.Type()) {
			v = x.one(x.d.intern(&gterm{op: "nonnil", key: "nonnil"}))
		}
		set(in, v)
	case *ssa.Extract:
		set(in, x.field(x.val(fr, in.Tuple), in.Index, st.pc))
	case *ssa.MakeSlice:
		el := in.Type().Underlying().(*types.Slice).Elem()
		o := x.newObj(in.Type())
		ln := x.under(x.val(fr, in.Len), st.pc)
		if len(ln.alts) == 1 && ln.alts[0].t.op == "const" && ln.alts[0].t.c.i <= 400 {
			for i := 0; i < int(ln.alts[0].t.c.i); i++ {
				x.initCells(o, fmt.Sprintf("[%d]", i), el)
			}
		}
		set(in, x.slice(o, "", 0, ln))
	case *ssa.Slice:
		set(in, x.sliceOp(fr, in, st))
	case *ssa.MakeClosure:
		var bind []*gval
		for _, b := range in.Bindings {
			bind = append(bind, x.val(fr, b))
		}
		x.fresh++
		set(in, x.one(x.d.intern(&gterm{op: "fn", key: fmt.Sprintf("fn#%d", x.fresh), fn: &gfn{in.Fn.(*ssa.Function), bind}})))
	case *ssa.Call:
		res, s2 := x.doCall(fr, in, st)
		st = s2
		if res != nil {
			set(in, res)
		}
	case *ssa.TypeAssert:
		v := x.val(fr, in.X)
		if in.CommaOk {
			set(in, x.agg([]*gval{v, x.unknown()}))
		} else {
			set(in, v)
		}
	case *ssa.Go:
		if x.exact {
			st = x.spawn(fr, in, st)
		}
	case *ssa.Send:
		x.sent = true
	case *ssa.MapUpdate, *ssa.Defer, *ssa.RunDefers, *ssa.DebugRef:
	default:
		if v, ok := in.(ssa.Value); ok {
			set(v, x.symVal(x.freshName(), v.Type()))
		}
	}
	return st
}

func (x *gx) storeTo(p *gval, t types.Type, v *gval, st gstate) {
	n := 0
	x.through(p, st.pc, func(o *gobj, path string, g bdd) { n++ })
	x.through(p, st.pc, func(o *gobj, path string, g bdd) {
		if i := strings.Index(path, "[?]"); i >= 0 {
			x.havoc(st.mem, o, path[:i])
			return
		}
		w := bdd(1)
		if n > 1 {
			w = g
		}
		x.store(st, o, path, t, v, w)
	})
}

func (x *gx) indexAddr(base, idx *gval, in *ssa.IndexAddr, st gstate) *gval {
	return x.lift(st.pc, func(ts []*gterm) *gval {
		b, i := ts[0], ts[1]
		var o *gobj
		path, off := "", 0
		switch b.op {
		case "ptr":
			o, path = b.o, b.path
		case "slice":
			o, path, off = b.o, b.path, b.off
		case "const":
			if b.c.k == 's' && b.c.s == outOfRange {
				return x.beyond(in.Type())
			}
			return x.unknown()
		default:
			return x.unknown()
		}
		if n, ok := constLen(b); ok && x.exact && b.op == "slice" && off >= 0 && i.op == "const" && (i.c.i < 0 || i.c.i >= int64(n)) {
			return x.beyond(in.Type())
		}
		if i.op == "const" && off >= 0 {
			return x.ptr(o, fmt.Sprintf("%s[%d]", path, int(i.c.i)+off))
		}
		if n := x.indexed(b, in.X.Type()); n > 0 && n <= 16 && off >= 0 && !i.bad && len(i.vs) > 0 {
			var alts []galt
			for k := 0; k < n; k++ {
				if g := x.d.and(st.pc, x.cond(x.one(x.d.tApp("==", "", i, x.d.tConst(cvInt(int64(k))))), st.pc)); g != 0 {
					alts = append(alts, galt{g, x.ptrT(o, fmt.Sprintf("%s[%d]", path, k+off))})
				}
			}
			if len(alts) > 0 {
				return x.norm(alts)
			}
		}
		if gdebug {
			println("unknown index", x.w.Pos(in.Pos()), b.key, i.key)
		}
		// an unknown element: its own place, so that it can be read back, but
		// stores through it spoil the whole array
		return x.one(x.d.intern(&gterm{op: "ptr", key: fmt.Sprintf("&%d%s[?]%s", o.id, path, i.key), o: o, path: path + "[?]" + i.key}))
	}, base, idx)
}

// matrix is a new matrix of known size.
func (x *gx) matrix(st gstate, t types.Type, dims []*gval) *gval {
	u, ok := t.Underlying().(*types.Slice)
	if !ok || len(dims) == 0 || len(dims[0].alts) != 1 || dims[0].alts[0].t.op != "const" {
		return nil
	}
	n := int(dims[0].alts[0].t.c.i)
	if n < 0 || n > 400 {
		return nil
	}
	o := x.newObj(t)
	for i := 0; i < n; i++ {
		at := fmt.Sprintf("[%d]", i)
		if len(dims) == 1 {
			x.store(st, o, at, u.Elem(), x.zero(u.Elem()), 1)
			continue
		}
		row := x.matrix(st, u.Elem(), dims[1:])
		if row == nil {
			return nil
		}
		x.store(st, o, at, u.Elem(), row, 1)
	}
	return x.slice(o, "", 0, dims[0])
}

// spawn runs a goroutine where it is started: one of its schedules, and all of
// them compute the same when it waits for nobody and shares nothing that is
// written (P11 and P12 see to that).
func (x *gx) spawn(fr *gframe, in *ssa.Go, st gstate) gstate {
	cc := in.Common()
	f, bind := (*ssa.Function)(nil), []*gval(nil)
	if !cc.IsInvoke() {
		f = cc.StaticCallee()
		if v := x.val(fr, cc.Value); len(v.alts) == 1 && v.alts[0].t.op == "fn" {
			f, bind = v.alts[0].t.fn.f, v.alts[0].t.fn.bind
		}
	}
	if f == nil || !inModule(f) || len(f.Blocks) == 0 || receives(f, map[*ssa.Function]bool{}) {
		panic(giveUp{"goroutine"})
	}
	var args []*gval
	for _, a := range cc.Args {
		args = append(args, x.under(x.val(fr, a), st.pc))
	}
	_, s2, _ := x.call(f, args, bind, st, fr)
	return gstate{st.pc, s2.mem}
}

// receives tells whether a function may wait for a channel.
func receives(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Select:
				return true
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return true
				}
			case *ssa.Call:
				if g := in.Call.StaticCallee(); g != nil && inModule(g) && receives(g, seen) {
					return true
				}
			}
		}
	}
	return false
}

// beyond is the place of an element beyond the end of a slice: the program
// panics there, and whatever depends on it has no value.
func (x *gx) beyond(t types.Type) *gval {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return x.unknown()
	}
	switch p.Elem().Underlying().(type) {
	case *types.Basic, *types.Slice:
	default:
		return x.unknown()
	}
	o := x.newObj(t)
	o.beyond = true
	return x.ptr(o, "")
}

// indexed is the number of elements of an array or slice that is known.
func (x *gx) indexed(b *gterm, t types.Type) int {
	if b.op == "slice" {
		n, _ := constLen(b)
		return n
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			return int(a.Len())
		}
	}
	return 0
}

func (x *gx) convert(v *gval, from, to types.Type, pc bdd) *gval {
	k := kindName(to)
	if k == "string" {
		return x.one(x.d.tOpq(x.freshName()))
	}
	if k == "" || kindName(from) == "" || kindName(from) == "string" {
		if _, ok := to.Underlying().(*types.Slice); ok {
			return x.symVal(x.freshName(), to)
		}
		return v
	}
	return x.app(pc, "conv", k, v)
}

func (x *gx) sliceOp(fr *gframe, in *ssa.Slice, st gstate) *gval {
	lo, hi := x.ci(0), (*gval)(nil)
	if in.Low != nil {
		lo = x.val(fr, in.Low)
	}
	if in.High != nil {
		hi = x.val(fr, in.High)
	}
	arr := int64(-1)
	if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			arr = a.Len()
		}
	}
	return x.lift(st.pc, func(ts []*gterm) *gval {
		b, l := ts[0], ts[1]
		off := -1 << 20
		if l.op == "const" {
			off = int(l.c.i)
		}
		switch b.op {
		case "ptr":
			h := hi
			if h == nil {
				h = x.ci(arr)
			}
			return x.slice(b.o, b.path, off, x.app(st.pc, "-", "int", h, x.one(l)))
		case "slice":
			h := hi
			if h == nil {
				h = b.ln
			}
			ln := x.app(st.pc, "-", "int", h, x.one(l))
			if hi == nil {
				return x.slice(b.o, b.path, b.off+off, ln)
			}
			x.fresh++
			t := &gterm{op: "slice", key: fmt.Sprintf("[]%d%s+%d#%d", b.o.id, b.path, b.off+off, x.fresh), o: b.o, path: b.path, off: b.off + off, ln: ln}
			if n, ok := constLen(b); ok && off >= 0 {
				if b.cp > 0 {
					n = b.cp
				}
				t.cp = n - off
			}
			if in.Max != nil {
				t.cp = 0
			}
			return x.one(x.d.intern(t))
		case "nil":
			return x.one(b)
		}
		return x.unknown()
	}, x.val(fr, in.X), lo)
}

func (x *gx) binop(in *ssa.BinOp, a, b *gval, pc bdd) *gval {
	op := in.Op.String()
	kind := kindName(in.Type())
	switch in.Op {
	case token.EQL, token.NEQ:
		if !isBasic(in.X.Type()) {
			r := x.lift(pc, func(ts []*gterm) *gval { return x.one(x.identity(ts[0], ts[1])) }, a, b)
			if in.Op == token.NEQ {
				r = x.app(pc, "!", "", r)
			}
			return r
		}
		kind = ""
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		kind = ""
	}
	return x.app(pc, op, kind, a, b)
}

func isBasic(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

// isParamName: the name given to a parameter of the parser.
func isParamName(s string) bool {
	if !strings.HasPrefix(s, "arg") || len(s) < 4 {
		return false
	}
	for _, c := range s[3:] {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

// identity compares pointers, slices, interfaces and functions.
func (x *gx) identity(a, b *gterm) *gterm {
	if a.op == "nil" {
		a, b = b, a
	}
	if b.op == "nil" {
		switch a.op {
		case "nil":
			return x.d.tConst(cvBool(true))
		case "nonnil", "fn", "agg":
			return x.d.tConst(cvBool(false))
		case "ptr", "slice":
			if a.o.sym == "" {
				return x.d.tConst(cvBool(false))
			}
			if a.op == "ptr" && a.path == "" && isParamName(a.o.sym) {
				return x.d.tConst(cvBool(false)) // callers hand over real objects
			}
			if a.path == "" {
				name := "isnil(" + strings.TrimSuffix(a.o.sym, "[]") + ")"
				if v, ok := x.d.byName[name]; ok {
					return x.d.tVar(v)
				}
				if n, ok := constLen(a); ok && x.exact {
					return x.d.tConst(cvBool(n == 0)) // an empty slice that is left open stands for none
				}
				return x.d.tOpq(name)
			}
			return x.d.tConst(cvBool(false))
		}
		if a.op == "opq" && isParamName(strings.TrimPrefix(a.key, "?")) {
			return x.d.tConst(cvBool(false))
		}
		return x.d.tOpq("isnil(" + a.key + ")")
	}
	if a == b {
		return x.d.tConst(cvBool(true))
	}
	x.fresh++
	return x.d.tOpq(fmt.Sprintf("eq%d", x.fresh))
}

// ---- calls ----

func (x *gx) results(c *ssa.Call, vals []*gval) *gval {
	if len(vals) == 1 {
		return vals[0]
	}
	return x.agg(vals)
}

// unknownCall: results unknown, errors assumed not to happen, memory handed
// over by pointer unknown.
func (x *gx) unknownCall(c *ssa.Call, args []*gval, st gstate, name string) (*gval, gstate) {
	if gdebug {
		println("unknown call", name, x.w.Pos(c.Pos()))
	}
	for i, a := range args {
		if i < len(c.Call.Args) && isReaderType(c.Call.Args[i].Type()) && x.dry == 0 {
			panic(giveUp{"the bit reader is handed to " + name})
		}
		x.through(a, st.pc, func(o *gobj, path string, g bdd) {
			if o.sym == "" {
				x.havoc(st.mem, o, path)
			}
		})
		for _, al := range x.under(a, st.pc).alts {
			if al.t.op == "slice" && al.t.o.sym == "" {
				x.havoc(st.mem, al.t.o, al.t.path)
			}
		}
	}
	rs := c.Call.Signature().Results()
	var vals []*gval
	for i := 0; i < rs.Len(); i++ {
		n := x.freshName()
		if x.exact && len(args) == 0 {
			n = "call:" + name // the same whenever it is asked for
		}
		vals = append(vals, x.symVal(n, rs.At(i).Type()))
	}
	if len(vals) == 0 {
		return nil, st
	}
	return x.results(c, vals), st
}

// bit-reader methods and the event they are; nil-error result is implied.
var readerEvents = map[string]string{
	"ReadBits": "u", "ReadBool": "Bool", "readBit": "Bool", "ReadByte": "u8", "ReadU32": "U32", "ReadU64": "U64",
	"ReadF16": "F16", "ReadEnum": "Enum", "ReadU8": "U8", "ReadICCVarint": "varint",
	"ZeroPadToByte": "align", "SkipBits": "skip", "Skip": "skipbytes",
	"ReadBytesToBuffer": "bytes", "ReadBytesUint64": "bytes64", "ShowBits": "show", "AtEnd": "atend",
	"ReadByteArrayWithOffsetAndLength": "bytesat", "Seek": "seek", "Reset": "reset",
}

// functions that stand for a whole coded object; the arguments that are compared.
var nonterminals = map[string]struct {
	kind string
	args []int // positions counted without the receiver
}{
	"NewEntropyStreamWithReaderAndNumDists": {"Entropy", []int{1}},
	"NewEntropyStreamWithReader":            {"Entropy", []int{1, 2}},
	"ReadSymbol":                            {"Sym", []int{1}},
	"TryReadSymbol":                         {"Sym", []int{1}},
	"ReadHybridInteger":                     {"Hybrid", []int{1, 2}},
	"ReadSymbolWithMultiplier":              {"Sym", []int{1, 2}},
	"ReadClusterMap":                        {"Clusters", []int{1, 2}},
	"NewMATreeWithReader":                   {"MATree", nil},
	"setupDCTParam":                         {"QuantTable", []int{2}},
	"GetVLC":                                {"VLC", nil},
	"NewModularStreamWithReader":            {"Modular", []int{2, 3, 4}},
	"NewModularStreamWithStreamIndex":       {"ModularAt", []int{2}},
	"NewModularStreamWithChannels":          {"ModularCh", []int{2, 3, 4}},
	"decodeChannels":                        {"ModularData", nil},
	"readPermutation":                       {"Permutation", []int{2, 3}},
	"NewHFCoefficientsWithReader":           {"HFCoeffs", []int{2, 3}},
	"NewANSSymbolDistribution":              {"ANSDist", []int{1}},
	"NewPrefixSymbolDistributionWithReader": {"PrefixDist", []int{1}},
	"NewHybridIntegerConfigWithReader":      {"HybridConfig", []int{1}},
}

func (x *gx) doCall(fr *gframe, c *ssa.Call, st gstate) (*gval, gstate) {
	x.fuel--
	if x.fuel < 0 {
		panic(giveUp{"too many steps"})
	}
	cc := c.Common()
	var args []*gval
	for _, a := range cc.Args {
		args = append(args, x.under(x.val(fr, a), st.pc))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(b.Name(), c, args, st)
	}
	pos := x.w.Pos(c.Pos())
	name := ""
	var callees []*ssa.Function
	var bind []*gval
	recvReader := false
	var allArgs []*gval
	if cc.IsInvoke() {
		name = cc.Method.Name()
		recvReader = isReaderType(cc.Value.Type())
	} else if f := cc.StaticCallee(); f != nil {
		name = f.Name()
		callees = []*ssa.Function{f}
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				bind = append(bind, x.val(fr, b))
			}
		}
		if f.Signature.Recv() != nil && isReaderType(f.Signature.Recv().Type()) {
			recvReader = true
			allArgs = args
			args = args[1:]
		}
	} else {
		v := x.under(x.val(fr, cc.Value), st.pc)
		if len(v.alts) == 1 && v.alts[0].t.op == "fn" {
			callees = []*ssa.Function{v.alts[0].t.fn.f}
			bind = v.alts[0].t.fn.bind
			name = callees[0].Name()
		}
	}
	if recvReader {
		if k, ok := readerEvents[name]; ok && !(x.raw && len(callees) == 1 && len(callees[0].Blocks) > 0) {
			return x.event(c, k, args, st, pos)
		}
		if len(callees) == 0 || !inModule(callees[0]) || len(callees[0].Blocks) == 0 {
			return x.unknownCall(c, args, st, name)
		}
		// a helper of the reader itself
		args = allArgs
	}
	if cc.IsInvoke() || callees == nil {
		callees = x.w.Callees(c)
		if !cc.IsInvoke() && len(callees) == 1 {
			name = callees[0].Name()
		}
		if !cc.IsInvoke() && len(callees) > 1 {
			// several functions may be called: fine when they stand for the same thing
			k := ""
			for i, f := range callees {
				nt, ok := nonterminals[f.Name()]
				if !ok || (i > 0 && nt.kind != k) {
					k = ""
					break
				}
				k = nt.kind
			}
			if k != "" {
				name = callees[0].Name()
			}
		}
	}
	if name == "ValidateFinalState" {
		return x.cb(true), st
	}
	if nt, ok := nonterminals[name]; ok {
		as := args
		if !cc.IsInvoke() && len(callees) > 0 && callees[0].Signature.Recv() != nil {
			as = args[1:]
		}
		var sel []*gval
		for _, i := range nt.args {
			if i < len(as) {
				v := as[i]
				if len(v.alts) == 1 && v.alts[0].t.op == "slice" {
					v = v.alts[0].t.ln
				}
				sel = append(sel, v)
			}
		}
		return x.event(c, nt.kind, sel, st, pos)
	}
	if cc.IsInvoke() && x.raw {
		if vs := x.rawCall(c, name, args, st); vs != nil {
			return x.results(c, vs), st
		}
	}
	if cc.IsInvoke() {
		recv := x.under(x.val(fr, cc.Value), st.pc)
		if len(callees) == 1 && callees[0].Signature.Recv() != nil {
			if len(recv.alts) == 1 && recv.alts[0].t.op == "opq" {
				rt := callees[0].Signature.Recv().Type()
				recv = x.symVal("iface:"+types.TypeString(rt, nil), rt)
			}
			args = append([]*gval{recv}, args...)
		} else {
			callees = nil
		}
	}
	if len(callees) != 1 {
		return x.unknownCall(c, args, st, name)
	}
	f := callees[0]
	switch {
	case !inModule(f) || len(f.Blocks) == 0:
		return x.std(f, c, args, st)
	case x.opaque[f.Name()]:
		var vals []*gval
		rs := f.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			vals = append(vals, x.app(st.pc, "fn:"+f.Name(), kindName(rs.At(i).Type()), args...))
		}
		return x.results(c, vals), st
	}
	if o := f.Origin(); o != nil && x.exact && strings.HasSuffix(pkgOf(o), "/util") {
		switch o.Name() {
		case "MakeMatrix2DPooled", "MakeMatrix3DPooled":
			// a zeroed matrix of its own (P13)
			if v := x.matrix(st, c.Type(), args); v != nil {
				return v, st
			}
		case "ReturnMatrix2DToPool", "ReturnMatrix3DToPool":
			return x.results(c, nil), st
		}
	}
	switch f.Name() {
	case "UnpackSigned", "UnpackSigned64":
		return x.app(st.pc, "fn:unsign", "", args[0]), st
	case "CeilLog2":
		return x.app(st.pc, "fn:ceillog2", "", args[0]), st
	}
	depth := 0
	for u := fr; u != nil; u = u.up {
		depth++
		if u.f == f && !x.exact {
			return x.unknownCall(c, args, st, name)
		}
	}
	if depth > 14 {
		return x.unknownCall(c, args, st, name)
	}
	res, s2, _ := x.call(f, args, bind, st, fr)
	if s2.pc == 0 {
		return nil, gstate{0, st.mem}
	}
	if len(res) == 0 {
		return nil, s2
	}
	return x.results(c, res), s2
}

// event reports a read and wraps its value as the call's result.
func (x *gx) event(c *ssa.Call, kind string, args []*gval, st gstate, pos string) (*gval, gstate) {
	x.events++
	rs := c.Call.Signature().Results()
	var v *gval
	if x.dry > 0 {
		if rs.Len() > 0 {
			v = x.symVal(x.freshName(), rs.At(0).Type())
		}
	} else {
		x.nread++
		x.pos[pos] = true
		v = x.sink.read(kind, args, st.pc, pos)
	}
	if rs.Len() == 0 {
		return nil, st
	}
	var vals []*gval
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		switch {
		case isErrorType(t):
			vals = append(vals, x.nilv())
		case v != nil && i == 0 && isBasic(t):
			if kindName(t) == "bool" {
				v = x.lift(st.pc, func(ts []*gterm) *gval {
					if ts[0].op == "var" && ts[0].v.vals[0].k == 'i' {
						return x.one(x.d.tApp("!=", "", ts[0], x.d.tConst(cvInt(0))))
					}
					return x.one(ts[0])
				}, v)
			}
			vals = append(vals, v)
		default:
			vals = append(vals, x.symVal(x.freshName(), t))
		}
	}
	return x.results(c, vals), st
}

func (x *gx) builtin(name string, c *ssa.Call, args []*gval, st gstate) (*gval, gstate) {
	switch name {
	case "len", "cap":
		if _, ok := c.Call.Args[0].Type().Underlying().(*types.Chan); ok && x.exact && !x.sent && name == "len" {
			return x.ci(0), st
		}
		return x.lift(st.pc, func(ts []*gterm) *gval {
			switch t := ts[0]; {
			case t.op == "slice":
				return t.ln
			case t.op == "nil":
				return x.ci(0)
			case t.op == "const" && t.c.k == 's' && t.c.s == outOfRange:
				return x.unknown()
			case t.op == "const" && t.c.k == 's':
				return x.ci(int64(len(t.c.s)))
			case t.op == "agg":
				return x.ci(int64(len(t.fs)))
			case t.op == "ptr":
				if p, ok := c.Call.Args[0].Type().Underlying().(*types.Pointer); ok {
					if a, ok := p.Elem().Underlying().(*types.Array); ok {
						return x.ci(a.Len())
					}
				}
			}
			return x.one(x.d.tOpq("len(" + ts[0].key + ")"))
		}, args[0]), st
	case "append":
		// contents and length known only when everything is
		if len(args) == 2 && len(args[0].alts) == 1 && len(args[1].alts) == 1 {
			a, b := args[0].alts[0].t, args[1].alts[0].t
			ca, ok1 := constLen(a)
			cb, ok2 := constLen(b)
			if ok1 && ok2 && ca+cb <= 400 {
				el := c.Type().Underlying().(*types.Slice).Elem()
				if x.exact && ca+cb <= a.cp {
					// in place, over what follows
					var vs []*gval
					for i := 0; i < cb; i++ {
						vs = append(vs, x.load(st.mem, b.o, fmt.Sprintf("%s[%d]", b.path, b.off+i), el))
					}
					for i, v := range vs {
						x.store(st, a.o, fmt.Sprintf("%s[%d]", a.path, a.off+ca+i), el, v, 1)
					}
					x.fresh++
					return x.one(x.d.intern(&gterm{op: "slice", key: fmt.Sprintf("[]%d%s+%d#%d", a.o.id, a.path, a.off, x.fresh), o: a.o, path: a.path, off: a.off, ln: x.ci(int64(ca + cb)), cp: a.cp})), st
				}
				o := x.newObj(c.Type())
				for i := 0; i < ca+cb; i++ {
					x.initCells(o, fmt.Sprintf("[%d]", i), el)
				}
				for i := 0; i < ca; i++ {
					x.store(st, o, fmt.Sprintf("[%d]", i), el, x.load(st.mem, a.o, fmt.Sprintf("%s[%d]", a.path, a.off+i), el), 1)
				}
				for i := 0; i < cb; i++ {
					x.store(st, o, fmt.Sprintf("[%d]", ca+i), el, x.load(st.mem, b.o, fmt.Sprintf("%s[%d]", b.path, b.off+i), el), 1)
				}
				return x.slice(o, "", 0, x.ci(int64(ca+cb))), st
			}
		}
		o := x.newObj(c.Type())
		st.mem[cellKey(o, "")+"!"] = x.one(x.d.tOpq(x.freshName()))
		return x.slice(o, "", 0, x.unknown()), st
	case "copy":
		if x.exact && len(args) == 2 && len(args[0].alts) == 1 && len(args[1].alts) == 1 {
			a, b := args[0].alts[0].t, args[1].alts[0].t
			na, ok1 := constLen(a)
			nb, ok2 := constLen(b)
			if u, ok := c.Call.Args[0].Type().Underlying().(*types.Slice); ok && ok1 && ok2 && a.op == "slice" && b.op == "slice" && na <= 400 {
				var vs []*gval
				for i := 0; i < na && i < nb; i++ {
					vs = append(vs, x.load(st.mem, b.o, fmt.Sprintf("%s[%d]", b.path, b.off+i), u.Elem()))
				}
				for i, v := range vs {
					x.store(st, a.o, fmt.Sprintf("%s[%d]", a.path, a.off+i), u.Elem(), v, 1)
				}
				return x.ci(int64(len(vs))), st
			}
		}
		for _, al := range args[0].alts {
			if al.t.op == "slice" {
				x.havoc(st.mem, al.t.o, al.t.path)
			}
		}
		return x.unknown(), st
	case "min", "max":
		return x.app(st.pc, name, kindName(c.Type()), args...), st
	}
	if c.Call.Signature().Results().Len() == 0 {
		return nil, st
	}
	return x.symVal(x.freshName(), c.Type()), st
}

func constLen(t *gterm) (int, bool) {
	switch t.op {
	case "nil":
		return 0, true
	case "slice":
		if t.off >= 0 && len(t.ln.alts) == 1 && t.ln.alts[0].t.op == "const" {
			return int(t.ln.alts[0].t.c.i), true
		}
	}
	return 0, false
}

// std models the standard library: errors.New and fmt.Errorf make errors.
func (x *gx) std(f *ssa.Function, c *ssa.Call, args []*gval, st gstate) (*gval, gstate) {
	p := pkgOf(f)
	if (p == "errors" && f.Name() == "New") || (p == "fmt" && f.Name() == "Errorf") {
		return x.one(x.d.intern(&gterm{op: "nonnil", key: "nonnil"})), st
	}
	if o := f.Origin(); o != nil && pkgOf(o) == "slices" && o.Name() == "Clone" && x.exact && len(args) == 1 && len(args[0].alts) == 1 {
		a := args[0].alts[0].t
		u, isSlice := c.Type().Underlying().(*types.Slice)
		if a.op == "nil" {
			return args[0], st
		}
		if n, ok := constLen(a); ok && isSlice && a.op == "slice" && n <= 400 {
			o := x.newObj(c.Type())
			for i := 0; i < n; i++ {
				x.store(st, o, fmt.Sprintf("[%d]", i), u.Elem(), x.load(st.mem, a.o, fmt.Sprintf("%s[%d]", a.path, a.off+i), u.Elem()), 1)
			}
			return x.slice(o, "", 0, x.ci(int64(n))), st
		}
	}
	if p == "math" && len(args) == 1 && f.Name() == "Float32frombits" {
		return x.app(st.pc, "fn:frombits", "float32", args[0]), st
	}
	if p == "math" && x.exact {
		switch n := f.Name(); {
		case len(args) == 1 && (n == "Sqrt" || n == "Abs"), len(args) == 2 && n == "Pow":
			return x.app(st.pc, "fn:math"+n, "float64", args...), st
		}
	}
	if p == "math" && len(args) == 1 && f.Name() == "Float32bits" && x.exact {
		return x.app(st.pc, "fn:tobits", "uint32", args[0]), st
	}
	if p == "math/bits" && len(args) == 1 {
		switch f.Name() {
		case "Len64", "Len":
			return x.app(st.pc, "fn:len64", "", args[0]), st
		case "Len32":
			return x.app(st.pc, "fn:len32", "", args[0]), st
		case "LeadingZeros64", "LeadingZeros":
			return x.app(st.pc, "-", "int", x.ci(64), x.app(st.pc, "fn:len64", "", args[0])), st
		case "LeadingZeros32":
			return x.app(st.pc, "-", "int", x.ci(32), x.app(st.pc, "fn:len32", "", args[0])), st
		}
	}
	if p == "encoding/binary" && x.exact && len(args) == 2 && strings.HasPrefix(f.Name(), "Uint") && f.Signature.Recv() != nil {
		if b := args[1]; len(b.alts) == 1 {
			n, ok := constLen(b.alts[0].t)
			want := map[string]int{"Uint16": 2, "Uint32": 4, "Uint64": 8}[f.Name()]
			t := types.TypeString(f.Signature.Recv().Type(), nil)
			if ok && want > 0 && n >= want && (strings.HasSuffix(t, "littleEndian") || strings.HasSuffix(t, "bigEndian")) {
				b, k := b.alts[0].t, kindName(c.Type())
				v := x.ci(0)
				for i := 0; i < want; i++ {
					sh := 8 * i
					if strings.HasSuffix(t, "bigEndian") {
						sh = 8 * (want - 1 - i)
					}
					e := x.load(st.mem, b.o, fmt.Sprintf("%s[%d]", b.path, b.off+i), types.Typ[types.Uint8])
					v = x.app(st.pc, "|", k, v, x.app(st.pc, "<<", k, x.app(st.pc, "conv", k, e), x.ci(int64(sh))))
				}
				return v, st
			}
		}
	}
	if x.raw {
		if vs := x.rawCall(c, p+"."+f.Name(), args, st); vs != nil {
			return x.results(c, vs), st
		}
	}
	return x.unknownCall(c, args, st, f.String())
}

func (x *gx) known(v *gval) (int64, bool) {
	if len(v.alts) == 1 && v.alts[0].t.op == "const" {
		return v.alts[0].t.c.i, true
	}
	return 0, false
}

// rawCall models the operations on the stream under the bit reader; the place
// in the stream must be the same on all paths.
func (x *gx) rawCall(c *ssa.Call, name string, args []*gval, st gstate) []*gval {
	takes := func(v *gval, n int) {
		b := v.alts[0].t
		for i := 0; i < n; i++ {
			x.store(st, b.o, fmt.Sprintf("%s[%d]", b.path, b.off+i), types.Typ[types.Uint8], x.rawByte(c, st), 1)
		}
	}
	switch name {
	case "io.ReadFull", "io.ReadAtLeast":
		if b := args[1]; len(b.alts) == 1 {
			n, ok := constLen(b.alts[0].t)
			if ok && len(args) == 3 {
				min, known := x.known(args[2])
				ok = known && int(min) == n
			}
			if ok && n <= 16 {
				takes(b, n)
				return []*gval{x.ci(int64(n)), x.nilv()}
			}
		}
	case "io.CopyN":
		n, ok := x.known(args[2])
		if ok && n <= 64 && types.TypeString(c.Call.Args[0].Type(), nil) == "io.Writer" {
			if u, isLoad := c.Call.Args[0].(*ssa.UnOp); isLoad {
				if g, isGlobal := u.X.(*ssa.Global); isGlobal && g.Name() == "Discard" {
					for i := int64(0); i < n; i++ {
						x.rawByte(c, st)
					}
					return []*gval{args[2], x.nilv()}
				}
			}
		}
	case "Seek":
		off, ok1 := x.known(args[0])
		whence, ok2 := x.known(args[1])
		if ok1 && ok2 && whence <= 1 {
			if whence == 1 {
				off += int64(x.rawPos)
			}
			if off >= 0 && off <= int64(x.rawPos)+64 {
				for x.rawPos = min(int(off), len(x.rawSeen)); x.rawPos < int(off); {
					x.rawByte(c, st)
				}
				return []*gval{x.ci(off), x.nilv()}
			}
		}
	default:
		if !touchesStream(c) {
			return nil
		}
	}
	panic(giveUp{"what " + name + " does to the stream is not known"})
}

func touchesStream(c *ssa.Call) bool {
	cc := c.Common()
	vs := cc.Args
	if cc.IsInvoke() {
		vs = append([]ssa.Value{cc.Value}, vs...)
	}
	for _, v := range vs {
		t := v.Type()
		ms := types.NewMethodSet(t)
		if ms.Lookup(nil, "Read") != nil || ms.Lookup(nil, "ReadByte") != nil {
			return true
		}
	}
	return false
}

// rawByte takes a byte from the stream under the bit reader.
func (x *gx) rawByte(c *ssa.Call, st gstate) *gval {
	if x.dry > 0 || x.rawPC == 0 || st.pc != x.rawPC {
		panic(giveUp{"the place in the stream is not the same on all paths"})
	}
	if x.rawPos == len(x.rawSeen) {
		pos := x.w.Pos(c.Pos())
		x.events++
		x.nread++
		x.pos[pos] = true
		x.rawSeen = append(x.rawSeen, x.sink.read("u", []*gval{x.ci(8)}, st.pc, pos))
	}
	x.rawPos++
	return x.rawSeen[x.rawPos-1]
}
