package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Termination: every loop has a ranking argument that can be read off its
// control-flow graph, and every recursion descends.
//
// One iteration of a loop is walked abstractly from its header back to it. A
// measure is an integer the loop carries round (a header phi, a local cell, the
// length of a carried slice), the number of elements in the module's queues, or
// the input that is left. For each way round the walk yields how every measure
// moved and which bounds were tested; the loop ends if every way round moves a
// measure towards a bound it was tested against and no way round moves that
// measure back.

const inf = int64(1) << 40

type dlt struct {
	m      string // measure; "" unknown
	neg    bool   // value = k - m rather than m + k
	sym    bool   // plus something that does not change during the loop
	half   bool   // at most half of it, rounded as [lo,hi] says
	dbl    bool   // at least twice it
	lo, hi int64
}

func (d dlt) plus(lo, hi int64) dlt {
	d.lo = clampInf(d.lo + lo)
	d.hi = clampInf(d.hi + hi)
	return d
}

func clampInf(x int64) int64 {
	if x >= inf/2 {
		return inf
	}
	if x <= -inf/2 {
		return -inf
	}
	return x
}

func (d dlt) String() string {
	if d.m == "" {
		return "?"
	}
	return fmt.Sprintf("%s%v%v%v%v[%d,%d]", d.m, d.neg, d.sym, d.half, d.dbl, d.lo, d.hi)
}

func hull(a, b dlt) dlt {
	if a.m == "" || b.m == "" || a.m != b.m || a.neg != b.neg || a.half != b.half || a.dbl != b.dbl {
		return dlt{}
	}
	a.sym = a.sym || b.sym
	a.lo = min(a.lo, b.lo)
	a.hi = max(a.hi, b.hi)
	return a
}

type guard struct {
	m     string
	hi    bool // bounded from above (else from below)
	other string
	exact bool // only by being different
}

type tstate struct {
	b      *ssa.BasicBlock
	from   *ssa.BasicBlock
	env    map[ssa.Value]dlt
	cells  map[string]dlt
	rng    map[string][2]int64
	guards map[guard]bool
	pend   map[ssa.Value]bool
	input  bool // consumed
	rewind bool
	list   int64
	listLo bool
}

func (s *tstate) clone() *tstate {
	n := &tstate{b: s.b, from: s.from, env: map[ssa.Value]dlt{}, cells: map[string]dlt{}, rng: map[string][2]int64{}, guards: map[guard]bool{}, pend: map[ssa.Value]bool{}, input: s.input, rewind: s.rewind, list: s.list, listLo: s.listLo}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.rng {
		n.rng[k] = v
	}
	for k := range s.guards {
		n.guards[k] = true
	}
	for k := range s.pend {
		n.pend[k] = true
	}
	return n
}

func (s *tstate) key() string {
	var p []string
	for k, v := range s.env {
		if v.m == "" {
			continue
		}
		if _, ok := k.(*ssa.Phi); !ok {
			if u, ok := k.(*ssa.UnOp); !ok || u.Op != token.MUL {
				continue
			}
		}
		p = append(p, k.Name()+"="+v.String())
	}
	for k, v := range s.cells {
		p = append(p, "c"+k+"="+v.String())
	}
	for k, v := range s.rng {
		p = append(p, fmt.Sprintf("r%s=%v", k, v))
	}
	for k := range s.guards {
		p = append(p, fmt.Sprintf("g%v", k))
	}
	for k := range s.pend {
		p = append(p, "p"+k.Name())
	}
	sort.Strings(p)
	f := -1
	if s.from != nil {
		f = s.from.Index
	}
	return fmt.Sprintf("%d %d %v %v %d %v|%s", s.b.Index, f, s.input, s.rewind, s.list, s.listLo, strings.Join(p, ","))
}

type term struct {
	w       *World
	f       *ssa.Function
	l       *natLoop
	mod     *modSet
	elems   map[string]bool // element types stored in the loop, by callees too
	inner   map[*ssa.BasicBlock]*natLoop
	reads   map[*ssa.Function]bool // consumes input on every successful return
	busy    map[*ssa.Function]bool
	elemOf  map[*ssa.Function]map[string]bool
	shrinks map[*ssa.Function]int // queue method: -1 removes, +1 adds
	mins    map[minKey]int64
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isSliceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

// minOf is a lower bound of an integer value (-inf: none known). Values that
// depend on themselves are solved by iterating down from "no bound yet".
func (t *term) minOf(v ssa.Value, at *ssa.BasicBlock) int64 {
	key := minKey{v, at}
	if m, ok := t.mins[key]; ok {
		return m
	}
	e := &minEval{t: t, asm: map[minKey]int64{}}
	var m int64
	for round := 0; ; round++ {
		e.changed = false
		e.on = map[minKey]bool{}
		e.done = map[minKey]int64{}
		e.widen = round >= 4
		m = e.of(v, at, 0)
		if !e.changed || round > 40 {
			break
		}
	}
	if e.changed {
		m = typeMin(v.Type())
	}
	if t.mins == nil {
		t.mins = map[minKey]int64{}
	}
	t.mins[key] = m
	return m
}

type minKey struct {
	v  any
	at any
}

type minEval struct {
	t       *term
	asm     map[minKey]int64
	on      map[minKey]bool
	done    map[minKey]int64
	changed bool
	widen   bool
}

// cyclic evaluates a value that may depend on itself.
func (e *minEval) cyclic(k minKey, floor int64, f func() int64) int64 {
	if e.on[k] {
		if m, ok := e.asm[k]; ok {
			return m
		}
		e.asm[k] = inf
		return inf
	}
	if m, ok := e.done[k]; ok {
		return m
	}
	e.on[k] = true
	m := max(f(), floor)
	delete(e.on, k)
	if old, ok := e.asm[k]; ok && m < old {
		if e.widen {
			m = floor
		}
		if m < old {
			e.asm[k] = m
			e.changed = true
		}
	} else if ok {
		m = old
	}
	e.done[k] = m
	return m
}

// linear writes v as a sum of multiples of atoms plus a constant.
func linear(v ssa.Value, k int64, out map[ssa.Value]int64, c *int64, d int) {
	if n, ok := constInt(v); ok {
		*c = clampInf(*c + k*n)
		return
	}
	if d < 8 {
		switch x := v.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD:
				linear(x.X, k, out, c, d+1)
				linear(x.Y, k, out, c, d+1)
				return
			case token.SUB:
				linear(x.X, k, out, c, d+1)
				linear(x.Y, -k, out, c, d+1)
				return
			case token.MUL:
				if n, ok := constInt(x.Y); ok && n > -1000 && n < 1000 {
					linear(x.X, k*n, out, c, d+1)
					return
				}
				if n, ok := constInt(x.X); ok && n > -1000 && n < 1000 {
					linear(x.Y, k*n, out, c, d+1)
					return
				}
			case token.SHL:
				if n, ok := constInt(x.Y); ok && n >= 0 && n < 8 {
					linear(x.X, k<<uint(n), out, c, d+1)
					return
				}
			}
		case *ssa.UnOp:
			if x.Op == token.SUB {
				linear(x.X, -k, out, c, d+1)
				return
			}
		}
	}
	out[v] += k
}

func (e *minEval) of(v ssa.Value, at *ssa.BasicBlock, depth int) int64 {
	if c, ok := constInt(v); ok {
		return c
	}
	best := typeMin(v.Type())
	if !isIntType(v.Type()) || depth > 40 {
		return best
	}
	up := func(x int64) {
		if x > best {
			best = x
		}
	}
	up(e.guarded(v, at, depth))
	sub := func(x ssa.Value) int64 {
		b := at
		if i, ok := v.(ssa.Instruction); ok && i.Block() != nil && b == nil {
			b = i.Block()
		}
		return e.of(x, b, depth+1)
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB:
			if typeMin(x.Type()) == 0 && x.Op == token.SUB {
				break // may wrap
			}
			atoms := map[ssa.Value]int64{}
			c := int64(0)
			linear(x, 1, atoms, &c, 0)
			for a, k := range atoms {
				if k == 0 {
					continue
				}
				m := int64(-inf)
				if k > 0 && a != v {
					m = sub(a)
				}
				if m <= -inf {
					c = -inf
					break
				}
				if m >= inf {
					c = inf
				} else if c < inf {
					c = clampInf(c + k*m)
				}
			}
			up(c)
		case token.MUL:
			if x.X == x.Y {
				up(0)
			}
			a, b := sub(x.X), sub(x.Y)
			if a >= 0 && b >= 0 {
				up(clampInf(min(a, 1<<20) * min(b, 1<<20)))
			}
		case token.SHL:
			if a := sub(x.X); a >= 0 {
				up(min(a, 1))
			}
		case token.SHR, token.QUO:
			if a := sub(x.X); a >= 0 {
				up(0)
				if c, ok := constInt(x.Y); ok && c > 0 {
					if x.Op == token.QUO {
						up(a / c)
					} else if c < 40 {
						up(a >> uint(c))
					}
				}
			}
		case token.REM:
			if sub(x.X) >= 0 {
				up(0)
			}
		case token.AND:
			if isLowbit(x) {
				z := x.X
				if _, neg := z.(*ssa.UnOp); neg {
					if u := z.(*ssa.UnOp); u.Op == token.SUB {
						z = x.Y
					}
				}
				if sub(z) >= 1 {
					up(1)
				} else {
					up(0)
				}
			}
			if sub(x.X) >= 0 || sub(x.Y) >= 0 {
				up(0)
			}
		case token.OR:
			a, b := sub(x.X), sub(x.Y)
			if a >= 0 && b >= 0 {
				up(max(a, b))
			}
		}
	case *ssa.Convert:
		if isIntType(x.X.Type()) {
			if m := sub(x.X); widens(x.X.Type(), x.Type()) {
				up(m)
			} else if m >= 0 {
				up(m) // sizes that fit
			}
		}
	case *ssa.ChangeType:
		up(sub(x.X))
	case *ssa.Phi:
		g := best
		up(e.cyclic(minKey{v, g}, best, func() int64 {
			m := inf
			seen := map[*ssa.Phi]bool{}
			var leaves func(x *ssa.Phi)
			leaves = func(x *ssa.Phi) {
				if seen[x] {
					return
				}
				seen[x] = true
				for i, ed := range x.Edges {
					if c, ok := constInt(ed); ok && c < g {
						continue // excluded by the test
					}
					if p, ok := ed.(*ssa.Phi); ok && g > typeMin(v.Type()) {
						leaves(p)
						continue
					}
					m = min(m, e.of(ed, x.Block().Preds[i], depth+1))
				}
			}
			leaves(x)
			return m
		}))
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			up(e.result(c, x.Index, best, depth))
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "copy":
				up(0)
			case "min":
				m := inf
				for _, a := range x.Call.Args {
					m = min(m, sub(a))
				}
				up(m)
			case "max":
				for _, a := range x.Call.Args {
					up(sub(a))
				}
			}
			break
		}
		up(e.result(x, 0, best, depth))
	case *ssa.Parameter:
		up(e.cyclic(minKey{v, nil}, best, func() int64 { return e.arg(x.Parent(), paramPos(x), depth) }))
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		var al *ssa.Alloc
		switch a := x.X.(type) {
		case *ssa.Alloc:
			al = a
		case *ssa.FreeVar:
			al = captured(a)
		}
		if al != nil {
			up(e.cyclic(minKey{al, nil}, best, func() int64 { return e.cell(al, depth) }))
		}
		if fv := fieldVarOf(x.X); fv != nil {
			up(e.cyclic(minKey{fv, nil}, best, func() int64 { return e.field(fv, depth) }))
		}
	case *ssa.Field:
		if st := derefStruct(x.X.Type()); st != nil {
			fv := st.Field(x.Field)
			up(e.cyclic(minKey{fv, nil}, best, func() int64 { return e.field(fv, depth) }))
		}
	}
	return best
}

// result: the least value a call returns when it returns no error.
func (e *minEval) result(c *ssa.Call, i int, floor int64, depth int) int64 {
	if c.Call.Signature().Results().Len() <= i || !isIntType(c.Call.Signature().Results().At(i).Type()) {
		return -inf
	}
	gs := e.t.w.Callees(c)
	if len(gs) == 0 {
		return -inf
	}
	m := inf
	for _, g := range gs {
		if len(g.Blocks) == 0 || !inModule(g) {
			return -inf
		}
		ei := errResultIdx(g.Signature)
		m = min(m, e.cyclic(minKey{g, i}, floor, func() int64 {
			m := inf
			for _, b := range g.Blocks {
				r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || (ei >= 0 && e.t.nonNilErr(r.Results[ei], b)) {
					continue
				}
				m = min(m, e.of(r.Results[i], b, depth+1))
			}
			return m
		}))
	}
	return m
}

func paramPos(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if q == p {
			return i
		}
	}
	return -1
}

func captured(fv *ssa.FreeVar) *ssa.Alloc {
	f := fv.Parent()
	if f.Parent() == nil {
		return nil
	}
	k := -1
	for i, v := range f.FreeVars {
		if v == fv {
			k = i
		}
	}
	for _, b := range f.Parent().Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == f {
				switch y := mc.Bindings[k].(type) {
				case *ssa.Alloc:
					return y
				case *ssa.FreeVar:
					return captured(y)
				}
			}
		}
	}
	return nil
}

// callSites of the whole module, package initialisation included.
func (w *World) callSites(f *ssa.Function) []ssa.CallInstruction {
	if w.sites == nil {
		w.sites = map[*ssa.Function][]ssa.CallInstruction{}
		for g := range w.all {
			if !inModule(g) {
				continue
			}
			eachInstr(g, func(ins ssa.Instruction) {
				if c, ok := ins.(ssa.CallInstruction); ok {
					for _, t := range w.Callees(c) {
						w.sites[t] = append(w.sites[t], c)
					}
				}
			})
		}
	}
	return w.sites[f]
}

// arg: the least any call site passes.
func (e *minEval) arg(f *ssa.Function, i int, depth int) int64 {
	if i < 0 {
		return -inf
	}
	cs := e.t.w.callSites(f)
	if len(cs) == 0 {
		return -inf
	}
	for _, r := range e.t.w.roots {
		if r == f {
			return -inf
		}
	}
	m := inf
	for _, c := range cs {
		args := c.Common().Args
		k := i
		if c.Common().IsInvoke() {
			k--
		}
		if k < 0 || k >= len(args) {
			return -inf
		}
		m = min(m, e.of(args[k], c.Block(), depth+1))
		if m <= -inf {
			break
		}
	}
	return m
}

// cell: the least value stored to a local cell.
func (e *minEval) cell(al *ssa.Alloc, depth int) int64 {
	m := inf
	n := 0
	var scan func(v ssa.Value, d int) bool
	scan = func(v ssa.Value, d int) bool {
		if v.Referrers() == nil || d > 3 {
			return false
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr != v {
					return false
				}
				n++
				m = min(m, e.of(x.Val, x.Block(), depth+1))
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				g := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v && !scan(g.FreeVars[i], d+1) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !scan(al, 0) {
		return -inf
	}
	if n == 0 {
		return 0
	}
	return m
}

type fieldStores struct {
	vals    []ssa.Value
	blocks  []*ssa.BasicBlock
	escapes bool
	zero    bool // some value of the type never gets the field
}

// storesOf lists everything the module stores in an integer field.
func (w *World) storesOf(fv *types.Var) *fieldStores {
	if w.fstores == nil {
		w.fstores = map[*types.Var]*fieldStores{}
		get := func(fv *types.Var) *fieldStores {
			fs := w.fstores[fv]
			if fs == nil {
				fs = &fieldStores{}
				w.fstores[fv] = fs
			}
			return fs
		}
		set := map[ssa.Value]map[*types.Var]bool{}
		whole := map[ssa.Value]bool{}
		var allocs []*ssa.Alloc
		for f := range w.all {
			if !inModule(f) {
				continue
			}
			eachInstr(f, func(ins ssa.Instruction) {
				switch x := ins.(type) {
				case *ssa.Store:
					whole[x.Addr] = true
					if fv := fieldVarOf(x.Addr); fv != nil {
						fs := get(fv)
						fs.vals = append(fs.vals, x.Val)
						fs.blocks = append(fs.blocks, x.Block())
						if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
							if set[fa.X] == nil {
								set[fa.X] = map[*types.Var]bool{}
							}
							set[fa.X][fv] = true
						}
					}
				case *ssa.FieldAddr:
					fv := fieldVarOf(x)
					if fv == nil || !isIntType(fv.Type()) {
						return
					}
					for _, r := range *x.Referrers() {
						switch r.(type) {
						case *ssa.UnOp, *ssa.Store, *ssa.DebugRef:
						default:
							get(fv).escapes = true
						}
					}
				case *ssa.Alloc:
					allocs = append(allocs, x)
				}
			})
		}
		for _, al := range allocs {
			st := derefStruct(al.Type())
			if st == nil || whole[al] {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if fv := st.Field(i); isIntType(fv.Type()) && !set[al][fv] {
					get(fv).zero = true
				}
			}
		}
	}
	return w.fstores[fv]
}

// field: the least value any store in the module gives a field; structs built
// without a value for it count as zero.
func (e *minEval) field(fv *types.Var, depth int) int64 {
	fs := e.t.w.storesOf(fv)
	if fs == nil || fs.escapes || len(fs.vals) == 0 || len(fs.vals) > 40 {
		return -inf
	}
	m := inf
	if fs.zero {
		m = 0
	}
	for i, v := range fs.vals {
		m = min(m, e.of(v, fs.blocks[i], depth+1))
		if m <= -inf {
			break
		}
	}
	return m
}

func isLowbit(x *ssa.BinOp) bool {
	n := func(a, b ssa.Value) bool {
		u, ok := b.(*ssa.UnOp)
		return ok && u.Op == token.SUB && sameValue(u.X, a)
	}
	return n(x.X, x.Y) || n(x.Y, x.X)
}

// sameValue: the same SSA value, or two loads of one local cell with nothing
// between them in a block.
func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || x.Op != token.MUL || y.Op != token.MUL || x.X != y.X || x.Block() != y.Block() {
		return false
	}
	in := false
	for _, i := range x.Block().Instrs {
		if i == ssa.Instruction(x) || i == ssa.Instruction(y) {
			if in {
				return true
			}
			in = true
			continue
		}
		if in {
			switch i.(type) {
			case *ssa.Store, ssa.CallInstruction:
				return false
			}
		}
	}
	return false
}

func typeMin(t types.Type) int64 {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		return 0
	}
	return -inf
}

func bitsOf(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, true
	}
	u := b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, u
	case types.Int16, types.Uint16:
		return 16, u
	case types.Int32, types.Uint32:
		return 32, u
	}
	return 64, u
}

func widens(from, to types.Type) bool {
	a, ua := bitsOf(from)
	b, ub := bitsOf(to)
	return b > a || (b == a && ua == ub)
}

func (t *term) guardedMin(v ssa.Value, at *ssa.BasicBlock) int64 {
	e := &minEval{t: t, asm: map[minKey]int64{}, on: map[minKey]bool{}, done: map[minKey]int64{}, widen: true}
	return e.guarded(v, at, 30)
}

// guarded: what the tests that dominate at say about v.
func (e *minEval) guarded(v ssa.Value, at *ssa.BasicBlock, depth int) int64 {
	best := -inf
	if at == nil || v.Referrers() == nil {
		return best
	}
	seenVals := []ssa.Value{v}
	if c, ok := v.(*ssa.Convert); ok && isIntType(c.X.Type()) {
		seenVals = append(seenVals, c.X)
	}
	for _, x := range seenVals {
		if x.Referrers() == nil {
			continue
		}
		for _, r := range *x.Referrers() {
			bo, ok := r.(*ssa.BinOp)
			if !ok {
				continue
			}
			for _, ur := range *bo.Referrers() {
				iff, ok := ur.(*ssa.If)
				if !ok {
					continue
				}
				for k, s := range iff.Block().Succs {
					if len(s.Preds) != 1 || !s.Dominates(at) {
						continue
					}
					op, y := bo.Op, bo.Y
					if bo.X != x {
						op, y = flip(op), bo.X
					}
					if k == 1 {
						op = negateOp(op)
					}
					c, ok := constInt(y)
					if !ok {
						if (op == token.GTR || op == token.GEQ) && depth < 36 {
							m := e.of(y, iff.Block(), depth+2)
							if m > -inf && m < inf {
								if op == token.GTR {
									m++
								}
								best = max(best, m)
							}
						}
						continue
					}
					switch op {
					case token.GTR:
						best = max(best, c+1)
					case token.GEQ, token.EQL:
						best = max(best, c)
					case token.NEQ:
						if c == 0 && (typeMin(x.Type()) == 0) {
							best = max(best, 1)
						}
					}
				}
			}
		}
	}
	return best
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func negateOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

// cellOf names a local cell or a field reached from a value fixed outside the
// loop.
func (t *term) cellOf(addr ssa.Value) (string, *types.Var) {
	if al, ok := addr.(*ssa.Alloc); ok {
		return "@" + al.Name(), nil
	}
	if fv, ok := addr.(*ssa.FreeVar); ok {
		return "@" + fv.Name(), nil
	}
	if p, ok := addr.(*ssa.Phi); ok && p.Block() == t.l.head && isIntType(derefType(p.Type())) {
		return "@" + p.Name(), nil // a loop variable with one cell per round
	}
	if k, fv, ok := fieldKey(addr); ok {
		if i, isI := k.base.(ssa.Instruction); isI {
			if _, al := k.base.(*ssa.Alloc); !al && t.l.body[i.Block()] {
				// a pointer reloaded in the loop: name it by where it comes from
				if u, isU := k.base.(*ssa.UnOp); isU && u.Op == token.MUL && t.invariantAddr(u.X) && t.unmodified(u.X) {
					if n, _ := t.cellOf(u.X); n != "" {
						return n + "*" + k.path, fv
					}
				}
				return "", fv
			}
		}
		return "@" + k.base.Name() + k.path, fv
	}
	return "", nil
}

func (t *term) outside(v ssa.Value) bool {
	i, ok := v.(ssa.Instruction)
	if !ok {
		return true
	}
	return i.Block() == nil || !t.l.body[i.Block()]
}

func (t *term) invariantAddr(a ssa.Value) bool {
	if t.outside(a) {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return t.invariantAddr(x.X)
	case *ssa.IndexAddr:
		return t.invariant(x.X, 0) && t.invariant(x.Index, 0)
	case *ssa.UnOp:
		return t.invariant(x, 0)
	}
	return false
}

// unmodified: nothing in the loop stores to the cell at the address.
func (t *term) unmodified(a ssa.Value) bool {
	if fv := fieldVarOf(a); fv != nil {
		if t.mod.fields[fv] {
			return false
		}
		return true
	}
	switch x := a.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		return !t.storedIn(a)
	case *ssa.Global:
		return !t.storedGlobal(x)
	case *ssa.IndexAddr:
		return !t.elems[derefType(x.Type()).String()]
	case *ssa.UnOp, *ssa.Parameter, *ssa.Phi:
		return !t.elems["*"+derefType(a.Type()).String()]
	}
	return false
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (t *term) storedIn(cell ssa.Value) bool {
	for _, r := range *cell.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == cell && t.l.body[x.Block()] {
				return true
			}
			if x.Val == cell {
				return true
			}
		case *ssa.MakeClosure:
			g := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == cell && cellStored(g.FreeVars[i], 0) {
					return true
				}
			}
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef, *ssa.IndexAddr:
		case ssa.CallInstruction:
			if t.l.body[x.Block()] {
				return true
			}
		}
	}
	return false
}

func cellStored(v ssa.Value, d int) bool {
	if d > 3 || v.Referrers() == nil {
		return true
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			return true
		case *ssa.MakeClosure:
			g := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && cellStored(g.FreeVars[i], d+1) {
					return true
				}
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
		default:
			return true
		}
	}
	return false
}

func (t *term) storedGlobal(g *ssa.Global) bool {
	for b := range t.l.body {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if x.Addr == g {
					return true
				}
			}
		}
	}
	return t.elems["global "+g.String()]
}

// invariant: v does not change while the loop runs.
func (t *term) invariant(v ssa.Value, depth int) bool {
	if depth > 10 {
		return false
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return true
	}
	if t.outside(v) {
		return true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return t.invariant(x.X, depth+1) && t.invariant(x.Y, depth+1)
	case *ssa.Convert:
		return t.invariant(x.X, depth+1)
	case *ssa.ChangeType:
		return t.invariant(x.X, depth+1)
	case *ssa.Field:
		return t.invariant(x.X, depth+1)
	case *ssa.Extract:
		return t.invariant(x.Tuple, depth+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return t.invariantAddr(x.X) && t.unmodified(x.X)
		}
		return t.invariant(x.X, depth+1)
	case *ssa.FieldAddr, *ssa.IndexAddr:
		return t.invariantAddr(v)
	case *ssa.Phi:
		// all the same, or merged from values that do not change
		for _, e := range x.Edges {
			if !t.invariant(e, depth+3) {
				return false
			}
		}
		// which of them it is may vary, but only among finitely many
		return true
	case *ssa.Slice:
		for _, y := range []ssa.Value{x.X, x.Low, x.High} {
			if y != nil && !t.invariant(y, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if !t.invariant(a, depth+1) {
				return false
			}
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "min", "max":
				return true
			}
			return false
		}
		if x.Call.IsInvoke() && !t.invariant(x.Call.Value, depth+1) {
			return false
		}
		gs := t.w.Callees(x)
		if len(gs) == 0 {
			return false
		}
		for _, g := range gs {
			if !t.pureRead(g, 0) {
				return false
			}
		}
		return true
	}
	return false
}

// pureRead: g only computes from values the loop does not change.
func (t *term) pureRead(g *ssa.Function, d int) bool {
	if !inModule(g) {
		switch pkgOf(g) {
		case "math", "math/bits", "image", "strings", "unicode":
			return true
		}
		return false
	}
	if d > 4 || len(g.Blocks) == 0 {
		return false
	}
	if m := t.w.modOf(g); m != nil && (len(m.fields) > 0 || len(m.structs) > 0) {
		return false
	}
	for _, b := range g.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if fv := fieldVarOf(x.X); fv != nil && t.mod.fields[fv] {
						return false
					}
				}
				if x.Op == token.ARROW {
					return false
				}
			case *ssa.Field:
				if st := derefStruct(x.X.Type()); st != nil && t.mod.fields[st.Field(x.Field)] {
					return false
				}
			case ssa.CallInstruction:
				if _, ok := x.Common().Value.(*ssa.Builtin); ok {
					continue
				}
				for _, h := range t.w.Callees(x) {
					if !t.pureRead(h, d+1) {
						return false
					}
				}
			}
		}
	}
	return true
}

// eval: how a value relates to a measure at the start of the iteration.
func (t *term) eval(v ssa.Value, s *tstate) dlt {
	if d, ok := s.env[v]; ok {
		return d
	}
	switch x := v.(type) {
	case *ssa.Convert:
		if isIntType(x.X.Type()) && isIntType(x.Type()) {
			return t.eval(x.X, s)
		}
	case *ssa.ChangeType:
		return t.eval(x.X, s)
	case *ssa.BinOp:
		return t.evalBin(x, s)
	case *ssa.UnOp:
		if x.Op == token.SUB || x.Op == token.XOR {
			d := t.eval(x.X, s)
			if d.m != "" && !d.half && !d.dbl {
				d.neg = !d.neg
				d.lo, d.hi = -d.hi, -d.lo
				if x.Op == token.XOR {
					return d.plus(-1, -1)
				}
				return d
			}
		}
	case *ssa.Slice:
		d := t.eval(x.X, s)
		if d.m == "" || x.Max != nil {
			return dlt{}
		}
		if x.Low != nil {
			if c, ok := constInt(x.Low); ok {
				d = d.plus(-c, -c)
			} else if mn := t.minOf(x.Low, x.Block()); mn >= 0 {
				d = d.plus(-inf, -mn)
			} else {
				return dlt{}
			}
		}
		if x.High != nil {
			// s[:len(s)-c]
			h := t.eval(x.High, s)
			if h.m == d.m && !h.neg && !h.half && !h.sym {
				return h.plus(d.lo-t.eval(x.X, s).lo, d.hi-t.eval(x.X, s).hi)
			}
			// a slice does not get longer by slicing (its capacity aside)
			return dlt{}
		}
		return d
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		if !ok {
			return dlt{}
		}
		switch b.Name() {
		case "len":
			return t.eval(x.Call.Args[0], s)
		case "append":
			d := t.eval(x.Call.Args[0], s)
			if d.m != "" {
				if n, ok := spreadLen(x.Call.Args[1]); ok {
					return d.plus(n, n)
				}
				return d.plus(0, inf)
			}
			// append([]T{x}, s...)
			if d = t.eval(x.Call.Args[1], s); d.m != "" {
				if n, ok := spreadLen(x.Call.Args[0]); ok {
					return d.plus(n, n)
				}
				return d.plus(0, inf)
			}
		case "min":
			for _, a := range x.Call.Args {
				if d := t.eval(a, s); d.m != "" && !d.neg {
					return d.plus(-inf, 0)
				}
			}
		case "max":
			for _, a := range x.Call.Args {
				if d := t.eval(a, s); d.m != "" && !d.neg {
					return d.plus(0, inf)
				}
			}
		}
	}
	return dlt{}
}

func spreadLen(v ssa.Value) (int64, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return 0, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return 0, false
	}
	a, ok := derefType(al.Type()).Underlying().(*types.Array)
	if !ok {
		return 0, false
	}
	return a.Len(), true
}

func (t *term) evalBin(x *ssa.BinOp, s *tstate) dlt {
	if !isIntType(x.Type()) {
		return dlt{}
	}
	a := t.eval(x.X, s)
	b := t.eval(x.Y, s)
	other := func(d dlt, y ssa.Value, sub bool) dlt {
		if d.half || d.dbl {
			if c, ok := constInt(y); ok {
				if sub {
					c = -c
				}
				return d.plus(c, c)
			}
			return dlt{}
		}
		if c, ok := constInt(y); ok {
			if sub {
				c = -c
			}
			return d.plus(c, c)
		}
		mn := t.minOf(y, x.Block())
		if mn >= 0 {
			if sub {
				d = d.plus(-inf, -mn)
			} else {
				d = d.plus(mn, inf)
			}
			return d
		}
		if t.invariant(y, 0) {
			d.sym = true
			d.lo, d.hi = -inf, inf
			return d
		}
		return dlt{}
	}
	switch x.Op {
	case token.ADD:
		if a.m != "" && b.m == "" {
			return other(a, x.Y, false)
		}
		if b.m != "" && a.m == "" {
			return other(b, x.X, false)
		}
		// i + (i & -i), i + i
		if a.m != "" && a == b && !a.neg && !a.half {
			if mn := t.minOf(x.Y, x.Block()); mn >= 0 {
				return a.plus(mn, inf)
			}
		}
	case token.SUB:
		if a.m != "" && b.m == "" {
			return other(a, x.Y, true)
		}
		if b.m != "" && a.m == "" && !b.half && !b.dbl {
			if t.invariant(x.X, 0) {
				b.neg = !b.neg
				b.sym = true
				b.lo, b.hi = -b.hi, -b.lo
				return b
			}
		}
		if a.m != "" && b.m != "" && a.m != b.m && !a.half && !b.half {
			return dlt{} // hi - lo: not needed so far
		}
	case token.SHR:
		if c, ok := constInt(x.Y); ok && c >= 1 && a.m != "" && !a.neg && !a.sym && !a.half && !a.dbl {
			a.half = true
			return a
		}
	case token.QUO:
		if c, ok := constInt(x.Y); ok && c >= 2 && a.m != "" && !a.neg && !a.sym && !a.half && !a.dbl {
			a.half = true
			return a
		}
	case token.SHL:
		if c, ok := constInt(x.Y); ok && c >= 1 && a.m != "" && !a.neg && !a.sym && !a.half && !a.dbl {
			a.dbl = true
			return a
		}
	case token.MUL:
		k, d := x.Y, a
		if d.m == "" {
			k, d = x.X, b
		}
		if c, ok := constInt(k); ok && d.m != "" {
			if c == 1 {
				return d
			}
			if c >= 2 && !d.neg && !d.sym && !d.half && !d.dbl {
				d.dbl = true
				return d
			}
		}
	case token.AND:
		// x & (x-1) clears a bit
		if a.m != "" && b.m == a.m && !a.neg && !b.neg && !a.half && !b.half && min(a.hi, b.hi) < 0 {
			return dlt{m: a.m, lo: -inf, hi: min(a.hi, b.hi)}
		}
		if a.m != "" && !a.neg && !a.half && a.lo == a.hi && a.lo == 0 {
			// masking does not increase
			if typeMin(x.Type()) == 0 {
				return a.plus(-inf, 0)
			}
		}
	}
	return dlt{}
}

// ---- walking one iteration

type tpath struct {
	delta  map[string]dlt
	guards map[guard]bool
	rng    map[string][2]int64
	input  bool
	rewind bool
	list   int64
	listLo bool
	parts  []*ssa.Phi // pointers that moved to a part of what they pointed to
	back   *ssa.BasicBlock
}

type termRun struct {
	*term
	stored   map[string]*types.Var // cells stored in the loop
	maybe    map[string]bool       // cells a callee may store
	phis     map[string]*ssa.Phi
	paths    []tpath
	visited  map[string]bool
	over     bool
	perRound map[string]*ssa.Phi
}

func (r *termRun) run() {
	l := r.l
	r.stored = map[string]*types.Var{}
	r.maybe = map[string]bool{}
	for b := range l.body {
		for _, ins := range b.Instrs {
			if st, ok := ins.(*ssa.Store); ok {
				if c, fv := r.cellOf(st.Addr); c != "" {
					r.stored[c] = fv
				}
			}
			if mc, ok := ins.(*ssa.MakeClosure); ok {
				r.capture(mc)
			}
		}
	}
	for _, b := range r.f.Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok {
				r.capture(mc)
			}
		}
	}
	s := &tstate{b: l.head, env: map[ssa.Value]dlt{}, cells: map[string]dlt{}, rng: map[string][2]int64{}, guards: map[guard]bool{}, pend: map[ssa.Value]bool{}}
	r.phis = map[string]*ssa.Phi{}
	for _, ins := range l.head.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if isIntType(p.Type()) || isSliceType(p.Type()) {
			n := "%" + p.Name()
			r.phis[n] = p
			s.env[p] = dlt{m: n}
			if isIntType(p.Type()) {
				if m := r.minOf(p, l.head); m > -inf {
					s.rng[n] = [2]int64{m, inf}
				}
			}
		}
	}
	r.perRound = map[string]*ssa.Phi{}
	for _, ins := range l.head.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			if _, isP := p.Type().Underlying().(*types.Pointer); isP && isIntType(derefType(p.Type())) {
				c, _ := r.cellOf(p)
				r.perRound[c] = p
				r.stored[c] = nil
			}
		}
	}
	r.visited = map[string]bool{}
	r.block(s, true)
}

func (r *termRun) capture(mc *ssa.MakeClosure) {
	g := mc.Fn.(*ssa.Function)
	for i, b := range mc.Bindings {
		if cellStored(g.FreeVars[i], 0) {
			if c, _ := r.cellOf(b); c != "" {
				r.maybe[c] = true
			}
		}
	}
}

func (r *termRun) block(s *tstate, first bool) {
	if r.over {
		return
	}
	b := s.b
	if !first {
		if il := r.inner[b]; il != nil {
			if il.body[s.from] {
				return // summarised on entry
			}
			r.enterInner(s, il)
		} else {
			var ds []dlt
			var ps []*ssa.Phi
			for _, ins := range b.Instrs {
				p, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				for i, pr := range b.Preds {
					if pr == s.from {
						ds = append(ds, r.eval(p.Edges[i], s))
						ps = append(ps, p)
						if s.pend[p.Edges[i]] {
							s.pend[p] = true
						}
						break
					}
				}
			}
			for i, p := range ps {
				s.env[p] = ds[i]
			}
		}
	}
	k := s.key()
	if r.visited[k] {
		return
	}
	r.visited[k] = true
	if len(r.visited) > 30000 {
		r.over = true
		return
	}
	for _, ins := range b.Instrs {
		r.instr(ins, s)
	}
	last := b.Instrs[len(b.Instrs)-1]
	for i, nx := range b.Succs {
		if !r.l.body[nx] {
			continue
		}
		n := s.clone()
		n.b, n.from = nx, b
		if iff, ok := last.(*ssa.If); ok {
			if !r.assume(iff.Cond, i == 0, n) {
				continue
			}
		}
		if nx == r.l.head {
			r.record(n)
			continue
		}
		r.block(n, false)
	}
}

func (r *termRun) record(s *tstate) {
	p := tpath{delta: map[string]dlt{}, guards: s.guards, rng: s.rng, input: s.input, rewind: s.rewind, list: s.list, listLo: s.listLo, back: s.from}
	for n, ph := range r.phis {
		for i, pr := range r.l.head.Preds {
			if pr == s.from {
				p.delta[n] = r.eval(ph.Edges[i], s)
				if p.delta[n].m == "" {
					p.delta[n] = r.midpoint(ph.Edges[i], n, s)
				}
			}
		}
	}
	for _, ins := range r.l.head.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if _, ok := ph.Type().Underlying().(*types.Pointer); !ok {
			continue
		}
		for i, pr := range r.l.head.Preds {
			if pr == s.from && r.partOf(ph.Edges[i], ph, 0, map[ssa.Value]bool{}) {
				p.parts = append(p.parts, ph)
			}
		}
	}
	for c := range r.stored {
		if ph := r.perRound[c]; ph != nil {
			for i, pr := range r.l.head.Preds {
				if pr == s.from {
					e, _ := r.cellOf(ph.Edges[i])
					p.delta[c] = s.cells[e]
				}
			}
		} else if d, ok := s.cells[c]; ok {
			p.delta[c] = d
		} else {
			p.delta[c] = dlt{m: c}
		}
	}
	r.paths = append(r.paths, p)
}

// midpoint: (lo+hi)/2 or lo+(hi-lo)/2 plus a constant, where lo < hi was tested.
func (r *termRun) midpoint(v ssa.Value, n string, s *tstate) dlt {
	c := int64(0)
	v = bareConv(v)
	if bo, ok := v.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
		if k, ok := constInt(bo.Y); ok {
			c = k
			if bo.Op == token.SUB {
				c = -k
			}
			v = bareConv(bo.X)
		}
	}
	halfOf := func(v ssa.Value) (*ssa.BinOp, bool) {
		bo, ok := bareConv(v).(*ssa.BinOp)
		if !ok {
			return nil, false
		}
		k, isC := constInt(bo.Y)
		if !isC || !(bo.Op == token.QUO && k == 2 || bo.Op == token.SHR && k == 1) {
			return nil, false
		}
		in, ok := bareConv(bo.X).(*ssa.BinOp)
		return in, ok
	}
	var a, b dlt
	if in, ok := halfOf(v); ok && in.Op == token.ADD {
		a, b = r.eval(in.X, s), r.eval(in.Y, s)
	} else if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.ADD {
		if in, ok := halfOf(bo.Y); ok && in.Op == token.SUB {
			a, b = r.eval(bo.X, s), r.eval(in.X, s)
			if r.eval(in.Y, s) != a {
				return dlt{}
			}
		}
	}
	plain := func(d dlt) bool { return d.m != "" && !d.neg && !d.sym && !d.half && !d.dbl && d.lo == 0 && d.hi == 0 }
	if !plain(a) || !plain(b) {
		return dlt{}
	}
	lo, hi := a.m, b.m
	if s.guards[guard{m: hi, hi: true, other: lo}] {
		lo, hi = hi, lo
	}
	if !s.guards[guard{m: lo, hi: true, other: hi}] {
		return dlt{}
	}
	switch n {
	case lo:
		return dlt{m: n, lo: c, hi: inf}
	case hi:
		return dlt{m: n, lo: -inf, hi: c - 1}
	}
	return dlt{}
}

// relDelta bounds v - p for a value computed from p inside an inner loop.
func (r *termRun) relDelta(v ssa.Value, p *ssa.Phi, seen map[ssa.Value]bool) (int64, int64, bool) {
	if v == ssa.Value(p) {
		return 0, 0, true
	}
	if seen[v] {
		return 0, 0, true
	}
	seen[v] = true
	defer delete(seen, v)
	switch x := v.(type) {
	case *ssa.Convert:
		if isIntType(x.X.Type()) {
			return r.relDelta(x.X, p, seen)
		}
	case *ssa.BinOp:
		if x.Op != token.ADD && x.Op != token.SUB {
			return 0, 0, false
		}
		a, y := x.X, x.Y
		lo, hi, ok := r.relDelta(a, p, seen)
		if !ok && x.Op == token.ADD {
			a, y = x.Y, x.X
			lo, hi, ok = r.relDelta(a, p, seen)
		}
		if !ok {
			return 0, 0, false
		}
		ylo, yhi := -inf, inf
		if c, isC := constInt(y); isC {
			ylo, yhi = c, c
		} else if m := r.minOf(y, x.Block()); m >= 0 {
			ylo = m
		}
		if x.Op == token.SUB {
			ylo, yhi = -yhi, -ylo
		}
		return clampInf(lo + ylo), clampInf(hi + yhi), true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			lo, _, ok := r.relDelta(x.Call.Args[0], p, seen)
			return lo, inf, ok
		}
	case *ssa.Phi:
		var head *natLoop
		for _, l := range r.w.loopsIn(r.f) {
			if l.head == x.Block() {
				head = l
			}
		}
		lo, hi, any := int64(0), int64(0), false
		for i, e := range x.Edges {
			if head != nil && head.body[x.Block().Preds[i]] {
				continue
			}
			a, b, ok := r.relDelta(e, p, seen)
			if !ok {
				return 0, 0, false
			}
			if !any {
				lo, hi, any = a, b, true
			}
			lo, hi = min(lo, a), max(hi, b)
		}
		if head != nil {
			for i, e := range x.Edges {
				if !head.body[x.Block().Preds[i]] {
					continue
				}
				a, b, ok := r.relDelta(e, x, map[ssa.Value]bool{})
				if !ok {
					return 0, 0, false
				}
				if a < 0 {
					lo = -inf
				}
				if b > 0 {
					hi = inf
				}
			}
		}
		return lo, hi, any
	}
	return 0, 0, false
}

func (r *termRun) enterInner(s *tstate, il *natLoop) {
	type upd struct {
		p *ssa.Phi
		d dlt
	}
	var us []upd
	for _, ins := range il.head.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var d dlt
		for i, pr := range il.head.Preds {
			if pr == s.from {
				d = r.eval(p.Edges[i], s)
			}
		}
		if d.m != "" {
			lo, hi := int64(0), int64(0)
			for i, pr := range il.head.Preds {
				if !il.body[pr] {
					continue
				}
				a, b, ok := r.relDelta(p.Edges[i], p, map[ssa.Value]bool{})
				if !ok {
					d = dlt{}
					break
				}
				if a < 0 {
					lo = -inf
				}
				if b > 0 {
					hi = inf
				}
			}
			if d.m != "" {
				d = d.plus(lo, hi)
			}
		}
		us = append(us, upd{p, d})
	}
	for _, u := range us {
		s.env[u.p] = u.d
	}
	for b := range il.body {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				r.store(x, s, true)
			case ssa.CallInstruction:
				r.calls(x, s, true)
			}
		}
	}
}

func (r *termRun) clobber(fv *types.Var, except string, s *tstate) {
	for c, v := range r.stored {
		if v != nil && v == fv && c != except {
			s.cells[c] = dlt{}
		}
	}
}

func (r *termRun) store(x *ssa.Store, s *tstate, unknown bool) {
	c, fv := r.cellOf(x.Addr)
	if fv != nil {
		r.clobber(fv, c, s)
	}
	if c == "" {
		return
	}
	if _, ok := x.Val.Type().Underlying().(*types.Struct); ok {
		for k := range r.stored {
			if k != c && strings.HasPrefix(k, c+".") {
				s.cells[k] = dlt{}
			}
		}
		return
	}
	if unknown {
		s.cells[c] = dlt{}
		return
	}
	s.cells[c] = r.eval(x.Val, s)
	if isErrorType(x.Val.Type()) {
		s.cells["err"+c] = dlt{}
		if s.pend[x.Val] {
			s.cells["err"+c] = dlt{m: "pending"}
		}
	}
}

func (r *termRun) instr(ins ssa.Instruction, s *tstate) {
	switch x := ins.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		c, _ := r.cellOf(x.X)
		if c == "" {
			return
		}
		if isErrorType(x.Type()) {
			if s.cells["err"+c].m == "pending" {
				s.pend[x] = true
			}
			return
		}
		if _, ok := r.stored[c]; !ok {
			return
		}
		if !isIntType(x.Type()) && !isSliceType(x.Type()) {
			return
		}
		if d, ok := s.cells[c]; ok {
			s.env[x] = d
		} else {
			s.env[x] = dlt{m: c}
		}
	case *ssa.Store:
		r.store(x, s, false)
	case *ssa.Extract:
		if isErrorType(x.Type()) && s.pend[x.Tuple] {
			s.pend[x] = true
		}
	case *ssa.Select:
		// waiting is the subject of the worker rules
	case ssa.CallInstruction:
		r.calls(x, s, false)
	}
}

func (r *termRun) calls(x ssa.CallInstruction, s *tstate, inner bool) {
	if _, ok := x.Common().Value.(*ssa.Builtin); ok {
		return
	}
	gs := r.w.Callees(x)
	for c := range r.maybe {
		s.cells[c] = dlt{}
	}
	for _, g := range gs {
		if m := r.w.modOf(g); m != nil {
			for c, fv := range r.stored {
				if fv != nil && m.fields[fv] {
					s.cells[c] = dlt{}
				}
			}
		}
	}
	// pointers to local cells handed out
	for _, a := range x.Common().Args {
		if c, _ := r.cellOf(a); c != "" {
			if _, ok := a.Type().Underlying().(*types.Pointer); ok {
				for k := range r.stored {
					if k == c || strings.HasPrefix(k, c+".") {
						if al, ok := a.(*ssa.Alloc); ok && al != nil {
							s.cells[k] = dlt{}
						}
					}
				}
			}
		}
	}
	for _, g := range gs {
		switch r.queueOp(g) {
		case -1:
			if inner {
				continue
			}
			if v, ok := x.(ssa.Value); ok && dereferenced(v) {
				s.list--
			}
		case 1:
			if inner {
				s.listLo = true
			} else {
				s.list++
			}
		}
		break
	}
	if r.rewinds(x) {
		s.rewind = true
	}
	if !inner {
		if v, ok := x.(*ssa.Call); ok && r.consumes(v) {
			if errResultIdx(v.Call.Signature()) >= 0 {
				s.pend[v] = true
			} else {
				s.input = true
			}
		}
	}
}

// rewinds: a seek that may go back.
func (t *term) rewinds(x ssa.CallInstruction) bool {
	args := x.Common().Args
	if x.Common().IsInvoke() {
		if x.Common().Method.Name() != "Seek" {
			return false
		}
	} else {
		f := x.Common().StaticCallee()
		if f == nil || f.Name() != "Seek" || len(args) == 0 {
			return false
		}
		args = args[1:]
	}
	if len(args) != 2 {
		return true
	}
	wh, ok := constInt(args[1])
	return !ok || wh != 1 || t.minOf(args[0], x.Block()) < 0
}

func dereferenced(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
			return true
		}
		if _, ok := r.(*ssa.FieldAddr); ok {
			return true
		}
	}
	return false
}

// queueOp: a method that takes one element out of the slice its receiver
// holds, or puts one in.
func (t *term) queueOp(g *ssa.Function) int {
	if o := g.Origin(); o != nil && len(g.Blocks) == 0 {
		g = o
	}
	if v, ok := t.shrinks[g]; ok {
		return v
	}
	t.shrinks[g] = 0
	if len(g.Blocks) == 0 || len(g.Params) == 0 || !inModule(g) || g.Signature.Recv() == nil {
		return 0
	}
	out := 0
	for _, b := range g.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok || !isSliceType(st.Val.Type()) {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fa.X != ssa.Value(g.Params[0]) {
				continue
			}
			switch v := st.Val.(type) {
			case *ssa.Slice:
				if c, ok := constInt2(v.Low); ok && c >= 1 && v.High == nil {
					out = -1
				}
				if v.Low == nil && v.High != nil {
					if bo, ok := v.High.(*ssa.BinOp); ok && bo.Op == token.SUB {
						out = -1
					}
				}
			case *ssa.Call:
				if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					out = 1
				}
			}
		}
	}
	t.shrinks[g] = out
	return out
}

func constInt2(v ssa.Value) (int64, bool) {
	if v == nil {
		return 0, false
	}
	return constInt(v)
}

// consumes: a successful return of the call means that input was used up.
func (t *term) consumes(c *ssa.Call) bool {
	name := ""
	var args []ssa.Value
	if c.Call.IsInvoke() {
		name = c.Call.Method.Name()
		args = c.Call.Args
		if n := namedOf(c.Call.Value.Type()); n == nil || (n.Obj().Name() != "BitReader" && pkgPath(n) != "io") {
			name = ""
		}
	} else if f := c.Call.StaticCallee(); f != nil {
		if f.Signature.Recv() != nil && len(c.Call.Args) > 0 {
			if n := namedOf(f.Signature.Recv().Type()); n != nil && strings.HasSuffix(pkgPath(n), "/jxlio") {
				name = f.Name()
				args = c.Call.Args[1:]
			}
		} else if pkgOf(f) == "io" && len(c.Call.Args) > 0 {
			switch f.Name() {
			case "ReadFull", "ReadAtLeast":
				return true
			case "CopyN":
				return t.minOf(c.Call.Args[2], c.Block()) >= 1
			}
		}
	}
	argMin := func(i int) int64 {
		if i >= len(args) || !isIntType(args[i].Type()) {
			return -inf
		}
		return t.minOf(args[i], c.Block())
	}
	switch name {
	case "ReadBits", "SkipBits", "Skip", "ReadBytesUint64":
		return argMin(0) >= 1
	case "ReadBytesToBuffer":
		return argMin(1) >= 1
	case "ReadByte", "ReadEnum", "ReadF16", "ReadICCVarint", "ReadU32", "ReadBool", "ReadU64", "ReadU8", "readBit":
		return true
	}
	gs := t.w.Callees(c)
	if len(gs) == 0 {
		return false
	}
	for _, g := range gs {
		if !t.fnConsumes(g) {
			return false
		}
	}
	return true
}

func pkgPath(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path()
}

func (t *term) fnConsumes(g *ssa.Function) bool {
	if v, ok := t.reads[g]; ok {
		return v
	}
	if t.busy[g] || len(g.Blocks) == 0 || !inModule(g) {
		return false
	}
	ei := errResultIdx(g.Signature)
	if ei < 0 {
		return false
	}
	t.busy[g] = true
	defer delete(t.busy, g)
	seen := map[*ssa.BasicBlock]bool{}
	ok := true
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || !ok {
			return
		}
		seen[b] = true
		for _, ins := range b.Instrs {
			if c, isC := ins.(*ssa.Call); isC {
				if _, bi := c.Call.Value.(*ssa.Builtin); !bi && t.consumes(c) {
					return
				}
			}
			if r, isR := ins.(*ssa.Return); isR {
				if !t.nonNilErr(r.Results[ei], b) {
					ok = false
				}
				return
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(g.Blocks[0])
	t.reads[g] = ok
	return ok
}

func (t *term) nonNilErr(v ssa.Value, at *ssa.BasicBlock) bool {
	switch x := v.(type) {
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && !inModule(f) {
			return (pkgOf(f) == "errors" && f.Name() == "New") || (pkgOf(f) == "fmt" && f.Name() == "Errorf")
		}
	case *ssa.MakeInterface:
		return true
	case *ssa.UnOp:
		if _, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			return true
		}
	}
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		bo, ok := r.(*ssa.BinOp)
		if !ok || (bo.Op != token.NEQ && bo.Op != token.EQL) {
			continue
		}
		for _, u := range *bo.Referrers() {
			iff, ok := u.(*ssa.If)
			if !ok {
				continue
			}
			k := 0
			if bo.Op == token.EQL {
				k = 1
			}
			s := iff.Block().Succs[k]
			if len(s.Preds) == 1 && s.Dominates(at) {
				return true
			}
		}
	}
	return false
}

// assume applies a branch; false when it cannot be taken.
func (r *termRun) assume(cond ssa.Value, taken bool, s *tstate) bool {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, taken = u.X, !taken
	}
	if ex, ok := cond.(*ssa.Extract); ok && taken {
		switch x := ex.Tuple.(type) {
		case *ssa.Next:
			if ex.Index == 0 && r.outside(x.Iter) {
				s.guards[guard{m: "range"}] = true
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW && ex.Index == 1 {
				s.guards[guard{m: "chan"}] = true
			}
		}
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return true
	}
	op := bo.Op
	if !taken {
		op = negateOp(op)
	}
	if isErrorType(bo.X.Type()) || isErrorType(bo.Y.Type()) {
		if op == token.EQL {
			if s.pend[bo.X] || s.pend[bo.Y] {
				s.input = true
			}
		}
		return true
	}
	if !isIntType(bo.X.Type()) {
		return true
	}
	if !r.bound(bo.X, op, bo.Y, s) {
		return false
	}
	return r.bound(bo.Y, flip(op), bo.X, s)
}

func (r *termRun) bound(x ssa.Value, op token.Token, y ssa.Value, s *tstate) bool {
	d := r.eval(x, s)
	if d.m == "" {
		// 1 << n compared: monotone in n
		if bo, ok := bareConv(x).(*ssa.BinOp); ok && bo.Op == token.SHL {
			if c, isC := constInt(bo.X); isC && c > 0 {
				if d2 := r.eval(bo.Y, s); d2.m != "" && !d2.neg && (op == token.LSS || op == token.LEQ) && r.invariant(y, 0) {
					s.guards[guard{m: d2.m, hi: true}] = true
				}
			}
		}
		return true
	}
	e := r.eval(y, s)
	other := ""
	if e.m != "" {
		if e.m == d.m || e.neg || e.half || e.dbl || e.sym {
			return true
		}
		other = e.m
	} else if !r.invariant(y, 0) {
		return true
	}
	c, isC := constInt(y)
	if isC && d.neg && !d.sym && !d.half && !d.dbl && d.lo == d.hi {
		rg, ok := s.rng[d.m]
		if !ok {
			rg = [2]int64{-inf, inf}
		}
		switch v := d.lo - c; op { // -m + lo op c
		case token.GTR:
			rg[1] = min(rg[1], v-1)
		case token.GEQ:
			rg[1] = min(rg[1], v)
		case token.LSS:
			rg[0] = max(rg[0], v+1)
		case token.LEQ:
			rg[0] = max(rg[0], v)
		}
		s.rng[d.m] = rg
		if rg[0] > rg[1] {
			return false
		}
	}
	plain := !d.neg && !d.sym && !d.half && !d.dbl && d.lo == d.hi
	ylo := c
	if !isC {
		ylo = -inf
		if other == "" {
			ylo = r.minOf(y, s.from)
		}
	}
	if plain && (isC || ylo > -inf) {
		rg, ok := s.rng[d.m]
		if !ok {
			rg = [2]int64{-inf, inf}
		}
		v := ylo - d.lo
		switch op {
		case token.GTR:
			rg[0] = max(rg[0], v+1)
		case token.GEQ:
			rg[0] = max(rg[0], v)
		case token.LSS:
			if isC {
				rg[1] = min(rg[1], v-1)
			}
		case token.LEQ:
			if isC {
				rg[1] = min(rg[1], v)
			}
		case token.EQL:
			rg[0] = max(rg[0], v)
			if isC {
				rg[1] = min(rg[1], v)
			}
		case token.NEQ:
			if isC && rg[0] == v {
				rg[0] = v + 1
			}
			if isC && rg[1] == v {
				rg[1] = v - 1
			}
		}
		s.rng[d.m] = rg
		if rg[0] > rg[1] {
			return false
		}
	}
	nb, uns := narrowest(x)
	up := false
	switch op {
	case token.LSS, token.LEQ:
		up = true
	case token.GTR, token.GEQ:
	case token.EQL:
		s.guards[guard{m: d.m, hi: true, other: other}] = true
		s.guards[guard{m: d.m, other: other}] = true
		return true
	case token.NEQ:
		up, down := true, true
		if isC {
			up, down = r.starts(d.m, c-d.lo)
		}
		if up {
			s.guards[guard{m: d.m, hi: true, other: other, exact: true}] = true
		}
		if down {
			s.guards[guard{m: d.m, other: other, exact: true}] = true
		}
		return true
	default:
		return true
	}
	// tests the type makes always true
	if up {
		mx := int64(1)<<min(uint(nb), 40) - 1
		if !uns {
			mx = int64(1)<<min(uint(nb-1), 40) - 1
		}
		if isC && ((op == token.LEQ && c >= mx) || (op == token.LSS && c > mx)) {
			return true
		}
		if !isC && nb <= 16 {
			if yb, _ := narrowest(y); yb > nb {
				return true
			}
		}
	} else if uns && isC && op == token.GEQ && c <= 0 {
		return true
	}
	hi := up
	if d.neg {
		hi = !hi
	}
	s.guards[guard{m: d.m, hi: hi, other: other}] = true
	return true
}

// starts: whether a measure can meet the constant c going up, or going down,
// from where it begins.
func (r *termRun) starts(m string, c int64) (bool, bool) {
	p := r.phis[m]
	if p == nil || !isIntType(p.Type()) {
		return false, false
	}
	up, down := true, true
	for i, pr := range p.Block().Preds {
		if r.l.body[pr] {
			continue
		}
		lo := r.minOf(p.Edges[i], pr)
		if lo >= c {
			if k, ok := constInt(p.Edges[i]); !ok || k >= c {
				up = false
			}
		} else if typeMin(p.Type()) != 0 {
			down = false
		}
	}
	return up, down
}

func bareConv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// narrowest is the smallest integer type the value passes through before any
// arithmetic.
func narrowest(v ssa.Value) (int, bool) {
	n, u := bitsOf(v.Type())
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			if !isIntType(x.X.Type()) {
				return n, u
			}
			if b, ub := bitsOf(x.X.Type()); b < n {
				n, u = b, ub
			}
			v = x.X
			continue
		case *ssa.BinOp:
			if _, ok := constInt(x.Y); ok && (x.Op == token.ADD || x.Op == token.SUB) {
				if b, ub := bitsOf(x.X.Type()); b < n {
					n, u = b, ub
				}
				v = x.X
				continue
			}
		}
		return n, u
	}
}

// ---- deciding

func (r *termRun) dir(m string, dec bool) bool {
	for _, p := range r.paths {
		d, ok := p.delta[m]
		if !ok {
			continue
		}
		if d.m != m || d.neg || d.sym && !(d.lo >= 0 && !dec) {
			return false
		}
		if dec {
			if d.dbl || (d.half && p.rng[m][0] < 0) || (d.half && !r.halves(p, m, d)) || (!d.half && d.hi > 0) {
				return false
			}
		} else {
			if d.half || (d.dbl && (rngLo(p, m) < 0 || d.lo < 0)) || (!d.dbl && d.lo < 0) {
				return false
			}
		}
	}
	return true
}

func rngLo(p tpath, m string) int64 {
	if rg, ok := p.rng[m]; ok {
		return rg[0]
	}
	return -inf
}

func (r *termRun) halves(p tpath, m string, d dlt) bool {
	return rngLo(p, m) > 2*d.hi || (d.hi == 1 && rngLo(p, m) > 1)
}

// why returns how the loop ends, or "" and the way round that shows no progress.
func (r *termRun) why() (string, *tpath) {
	if r.over {
		return "", nil
	}
	noRewind, list := true, true
	for _, p := range r.paths {
		if p.rewind {
			noRewind = false
		}
		if p.listLo || p.list > 0 {
			list = false
		}
	}
	valid := map[string]bool{}
	var names []string
	for n := range r.phis {
		names = append(names, n)
	}
	for c := range r.stored {
		names = append(names, c)
	}
	sort.Strings(names)
	for _, n := range names {
		valid["-"+n] = r.dir(n, true)
		valid["+"+n] = r.dir(n, false)
	}
	used := map[string]bool{}
	var desc *ssa.Phi
	if len(r.paths) > 0 {
		for _, ph := range r.paths[0].parts {
			all := true
			for _, p := range r.paths {
				in := false
				for _, q := range p.parts {
					in = in || q == ph
				}
				all = all && in
			}
			if all {
				desc = ph
			}
		}
	}
	for i := range r.paths {
		p := &r.paths[i]
		if desc != nil {
			used["goes down a tree"] = true
			continue
		}
		if p.input && noRewind {
			used["consumes input"] = true
			continue
		}
		if p.guards[guard{m: "range"}] {
			used["ranges over a collection"] = true
			continue
		}
		if p.guards[guard{m: "chan"}] {
			used["receives until the channel is closed"] = true
			continue
		}
		if list && p.list <= -1 {
			used["takes from a queue"] = true
			continue
		}
		ok := false
		for _, n := range names {
			d := p.delta[n]
			if valid["-"+n] && ((!d.half && d.hi <= -1) || (d.half && r.halves(*p, n, d))) {
				for g := range p.guards {
					if g.m == n && !g.hi && (!g.exact || d.lo == -1 || d.half) && (g.other == "" || valid["+"+g.other]) && r.noWrap(n, d, p) {
						ok = true
					}
				}
				if g := (guard{m: n}); !ok && !p.guards[g] {
					// a slice cannot get shorter than empty
					if ph := r.phis[n]; ph != nil && isSliceType(ph.Type()) {
						ok = true
					}
				}
				if ok {
					used["counts down"] = true
					break
				}
			}
			if valid["+"+n] && ((!d.dbl && d.lo >= 1) || (d.dbl && rngLo(*p, n) >= 1)) {
				for g := range p.guards {
					if g.m == n && g.hi && (!g.exact || d.hi == 1) && (g.other == "" || valid["-"+g.other]) {
						ok = true
					}
				}
				if ok {
					used["counts up"] = true
					break
				}
			}
			// other measures a guard speaks of
		}
		if !ok && r.reflects(names) {
			used["reflects into a range"] = true
			continue
		}
		if !ok {
			return "", p
		}
	}
	var ks []string
	for k := range used {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) == 0 {
		ks = []string{"never repeats"}
	}
	return strings.Join(ks, " and "), nil
}

// reflects: a coordinate mirrored at both ends of [0,n): -1-v when below it,
// 2n-1-v when above. For n >= 1 each step brings it closer.
func (r *termRun) reflects(names []string) bool {
	for _, n := range names {
		all := len(r.paths) > 0
		for _, p := range r.paths {
			d := p.delta[n]
			if d.m != n || !d.neg || d.half || d.dbl {
				all = false
				break
			}
			if !d.sym && d.lo == d.hi {
				all = d.lo == -1 && p.guards[guard{m: n, hi: true}]
			} else {
				all = p.guards[guard{m: n}]
			}
			if !all {
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

// noWrap: an unsigned value stepping down by more than one must be tested
// against at least the step.
func (r *termRun) noWrap(n string, d dlt, p *tpath) bool {
	if d.half || d.lo == -1 || d.lo <= -inf/2 {
		return true
	}
	ph := r.phis[n]
	if ph == nil {
		return true
	}
	if _, u := bitsOf(ph.Type()); !u || !isIntType(ph.Type()) {
		return true
	}
	return rngLo(*p, n) >= -d.lo
}

// ---- recursion

// cycles lists the strongly connected parts of the call graph that recurse.
func (w *World) cycles(fns []*ssa.Function) [][]*ssa.Function {
	in := map[*ssa.Function]bool{}
	for _, f := range fns {
		in[f] = true
	}
	succ := map[*ssa.Function][]*ssa.Function{}
	for _, f := range fns {
		seen := map[*ssa.Function]bool{}
		eachInstr(f, func(ins ssa.Instruction) {
			if c, ok := ins.(ssa.CallInstruction); ok {
				for _, g := range w.Callees(c) {
					if in[g] && !seen[g] {
						seen[g] = true
						succ[f] = append(succ[f], g)
					}
				}
			}
		})
	}
	idx := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var st []*ssa.Function
	n := 0
	var out [][]*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		st = append(st, f)
		on[f] = true
		self := false
		for _, g := range succ[f] {
			if g == f {
				self = true
			}
			if idx[g] == 0 {
				visit(g)
				low[f] = min(low[f], low[g])
			} else if on[g] {
				low[f] = min(low[f], idx[g])
			}
		}
		if low[f] == idx[f] {
			var c []*ssa.Function
			for {
				g := st[len(st)-1]
				st = st[:len(st)-1]
				on[g] = false
				c = append(c, g)
				if g == f {
					break
				}
			}
			if len(c) > 1 || self {
				sortFns(c)
				out = append(out, c)
			}
		}
	}
	for _, f := range fns {
		if idx[f] == 0 {
			visit(f)
		}
	}
	return out
}

func newTerm(w *World, f *ssa.Function) *term {
	return &term{w: w, f: f, reads: map[*ssa.Function]bool{}, busy: map[*ssa.Function]bool{}, shrinks: map[*ssa.Function]int{}}
}

// loop prepares the analysis of one loop.
func (t *term) loop(l *natLoop) *termRun {
	t.l = l
	t.inner = map[*ssa.BasicBlock]*natLoop{}
	for _, x := range t.w.loopsIn(t.f) {
		if x != l && l.body[x.head] && x.head != l.head {
			t.inner[x.head] = x
		}
	}
	t.mod = &modSet{map[*types.Var]bool{}, map[string]bool{}}
	t.elems = map[string]bool{}
	for b := range l.body {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if fv := fieldVarOf(x.Addr); fv != nil {
					t.mod.fields[fv] = true
				}
				if st, ok := x.Val.Type().Underlying().(*types.Struct); ok {
					t.w.structParts(st, t.mod)
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					t.elems[derefType(ia.Type()).String()] = true
				}
				if g, ok := x.Addr.(*ssa.Global); ok {
					t.elems["global "+g.String()] = true
				}
			case ssa.CallInstruction:
				for _, g := range t.w.Callees(x) {
					if m := t.w.modOf(g); m != nil {
						for k := range m.fields {
							t.mod.fields[k] = true
						}
					}
				}
			}
		}
	}
	return &termRun{term: t}
}

func checkTerm(w *World, r *Result, th bool) {
	fns := w.WithInits()
	r.Rules = []string{
		"each way round a natural loop consumes input, takes from a queue, steps an iterator, or moves a counter towards a bound it was tested against on that way round; no way round moves that counter back",
		"each recursive group of the call graph descends to a part of its argument, counts down to a test, consumes input first, or is cut by a constant argument",
		"no control flow enters a loop anywhere but at its head",
	}
	r.Assume = []string{
		"a bit reader method that succeeded has consumed input when it was asked for a positive number of bits, and the input is finite",
		"trees built by the decoder have no cycles (their nodes are linked when they are created)",
		"counters do not wrap around before they reach a bound of the same type",
	}
	r.Minimum = map[string]int{"loops": 100, "functions": 100}
	t := newTerm(w, nil)
	kinds := map[string]int{}
	nLoops := 0
	for _, f := range fns {
		t.f = f
		for _, l := range w.loopsIn(f) {
			nLoops++
			tr := t.loop(l)
			tr.run()
			how, bad := tr.why()
			if how == "" {
				pos := w.Pos(loopPos(l))
				if bad == nil {
					r.Add("loop:"+FnName(f), pos, "%s: this loop has too many ways round to establish that it ends", FnName(f))
					continue
				}
				r.Add("loop:"+FnName(f), pos, "%s: this loop can go round (through %s) without using up input or moving any counter towards a bound it tests, so nothing makes it end", FnName(f), w.Pos(blockPos(bad.back)))
				continue
			}
			kinds[how]++
		}
		if !reducible(f) {
			r.Add("irreducible:"+FnName(f), w.Pos(f.Pos()), "%s jumps into the middle of a loop", FnName(f))
		}
	}
	r.Count("loops", nLoops)
	for k, n := range kinds {
		r.Count("loops that end because each round "+k, n)
	}
	r.Count("functions", len(fns))
	cyc := w.cycles(fns)
	for _, c := range cyc {
		r.Count("recursive groups", 1)
		if msg, site := t.descends(c); msg != "" {
			var ns []string
			for _, f := range c {
				ns = append(ns, FnName(f))
			}
			pos := w.Pos(c[0].Pos())
			if site != nil {
				pos = w.Pos(site.Pos())
			}
			r.Add("recursion:"+strings.Join(ns, ","), pos, "%s: %s", strings.Join(ns, ", "), msg)
		}
	}
}

// reducible: every cycle is a natural loop.
func reducible(f *ssa.Function) bool {
	color := map[*ssa.BasicBlock]int{}
	ok := true
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		color[b] = 1
		for _, s := range b.Succs {
			switch color[s] {
			case 0:
				visit(s)
			case 1:
				if !s.Dominates(b) {
					ok = false
				}
			}
		}
		color[b] = 2
	}
	if len(f.Blocks) > 0 {
		visit(f.Blocks[0])
	}
	return ok
}

func loopPos(l *natLoop) token.Pos {
	if p := blockPos(l.head); p.IsValid() {
		return p
	}
	for b := range l.body {
		if p := blockPos(b); p.IsValid() {
			return p
		}
	}
	return l.head.Parent().Pos()
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	for _, p := range b.Preds {
		for k := len(p.Instrs) - 1; k >= 0; k-- {
			if p.Instrs[k].Pos().IsValid() {
				return p.Instrs[k].Pos()
			}
		}
	}
	return token.NoPos
}

// descends: every call that closes the cycle goes to a smaller argument.
func (t *term) descends(c []*ssa.Function) (string, ssa.Instruction) {
	in := map[*ssa.Function]bool{}
	for _, f := range c {
		in[f] = true
	}
	// calls within the group that are not cut by a constant argument
	type edge struct {
		from, to *ssa.Function
		site     ssa.CallInstruction
	}
	var es []edge
	for _, f := range c {
		eachInstr(f, func(ins ssa.Instruction) {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				return
			}
			for _, g := range t.w.Callees(ci) {
				if in[g] {
					es = append(es, edge{f, g, ci})
				}
			}
		})
	}
	bad := func(e edge) bool {
		if t.consumesBefore(e.from, e.site) || t.fieldCut(e.from, e.to, e.site, func(f func(ssa.CallInstruction)) {
			for _, o := range es {
				if o.from == e.to {
					f(o.site)
				}
			}
		}) {
			return false
		}
		for i := range e.to.Params {
			if t.smaller(e.from, e.to, e.site, i) {
				return false
			}
		}
		return true
	}
	// remove descending edges and see whether a cycle is left
	var rest []edge
	for _, e := range es {
		if bad(e) {
			rest = append(rest, e)
		}
	}
	// a call whose constant argument keeps the callee from recursing
	for i := 0; i < len(rest); i++ {
		e := rest[i]
		blocked := true
		n := 0
		for _, o := range rest {
			if o.from == e.to {
				n++
				if !t.cutBy(e.site, e.to, o.site) {
					blocked = false
				}
			}
		}
		if n > 0 && blocked {
			rest = append(rest[:i], rest[i+1:]...)
			i = -1
		}
	}
	succ := map[*ssa.Function][]edge{}
	for _, e := range rest {
		succ[e.from] = append(succ[e.from], e)
	}
	var cyc ssa.Instruction
	state := map[*ssa.Function]int{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		state[f] = 1
		for _, e := range succ[f] {
			if state[e.to] == 1 && cyc == nil {
				cyc = e.site
			}
			if state[e.to] == 0 {
				visit(e.to)
			}
		}
		state[f] = 2
	}
	for _, f := range c {
		if state[f] == 0 {
			visit(f)
		}
	}
	if cyc != nil {
		return "this recursive call does not go to a smaller argument, so nothing bounds how deep it goes", cyc
	}
	return "", nil
}

// smaller: argument i is a part of what the caller was given, or a counter
// brought down.
func (t *term) smaller(from, to *ssa.Function, site ssa.CallInstruction, i int) bool {
	args := site.Common().Args
	k := i
	if site.Common().IsInvoke() {
		k--
	}
	var a ssa.Value
	if k < 0 {
		a = site.Common().Value
	} else if k < len(args) {
		a = args[k]
	} else {
		return false
	}
	pt := to.Params[i].Type()
	for _, p := range from.Params {
		if !types.Identical(p.Type(), pt) {
			continue
		}
		if _, ok := pt.Underlying().(*types.Pointer); ok {
			if t.partOf(a, p, 0, map[ssa.Value]bool{}) {
				return true
			}
		}
		if isIntType(pt) {
			if t.below(a, p, site.Block()) {
				return true
			}
		}
	}
	return false
}

// partOf: v is reached from p through at least one field or element, never
// through one that points back up.
func (t *term) partOf(v, p ssa.Value, depth int, seen map[ssa.Value]bool) bool {
	if seen[v] || depth > 12 {
		return false
	}
	seen[v] = true
	defer delete(seen, v)
	from := func(x ssa.Value) bool { return x == p || t.partOf(x, p, depth+1, seen) }
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			if fv := fieldVarOf(a); fv != nil && t.w.upLink(fv) {
				return false
			}
			return from(a.X)
		case *ssa.IndexAddr:
			return t.partOf(a.X, p, depth+1, seen)
		case *ssa.Alloc:
			any := false
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a {
					any = true
					if !t.partOf(st.Val, p, depth+1, seen) {
						return false
					}
				}
			}
			return any
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.IsNil() {
				continue
			}
			if e != ssa.Value(x) && !t.partOf(e, p, depth+1, seen) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return t.partResult(c, x.Index, p, depth, seen)
		}
	case *ssa.Call:
		return t.partResult(x, 0, p, depth, seen)
	}
	return false
}

// partResult: every non-nil result of the call is part of one of its arguments
// that is p or part of it.
func (t *term) partResult(c *ssa.Call, idx int, p ssa.Value, depth int, seen map[ssa.Value]bool) bool {
	g := c.Call.StaticCallee()
	if g == nil || len(g.Blocks) == 0 || !inModule(g) || c.Call.IsInvoke() {
		return false
	}
	for i, a := range c.Call.Args {
		if i >= len(g.Params) || !(a == p || t.partOf(a, p, depth+1, seen)) {
			continue
		}
		all, any := true, false
		for _, b := range g.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || len(r.Results) <= idx {
				continue
			}
			v := r.Results[idx]
			if k, ok := v.(*ssa.Const); ok && k.IsNil() {
				continue
			}
			any = true
			if !t.partOf(v, g.Params[i], depth+2, map[ssa.Value]bool{}) {
				all = false
			}
		}
		if all && any {
			return true
		}
	}
	return false
}

// upLink: a field that is given the object the holder is part of.
func (w *World) upLink(fv *types.Var) bool {
	if w.uplinks == nil {
		w.uplinks = map[*types.Var]bool{}
		t := newTerm(w, nil)
		for f := range w.all {
			if !inModule(f) {
				continue
			}
			eachInstr(f, func(ins ssa.Instruction) {
				st, ok := ins.(*ssa.Store)
				if !ok {
					return
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					return
				}
				if _, ok := st.Val.Type().Underlying().(*types.Pointer); ok && t.partOf(fa.X, st.Val, 0, map[ssa.Value]bool{}) {
					w.uplinks[fieldVarOf(fa)] = true
				}
			})
		}
	}
	return w.uplinks[fv]
}

// below: v is p brought down, on a path where p is tested from below.
func (t *term) below(v ssa.Value, p *ssa.Parameter, at *ssa.BasicBlock) bool {
	bo, ok := bareConv(v).(*ssa.BinOp)
	if !ok || bareConv(bo.X) != ssa.Value(p) {
		return false
	}
	c, ok := constInt(bo.Y)
	if !ok {
		return false
	}
	down := (bo.Op == token.SUB && c >= 1) || (bo.Op == token.SHR && c >= 1) || (bo.Op == token.QUO && c >= 2) || (bo.Op == token.ADD && c <= -1)
	return down && (t.guardedMin(p, at) > -inf || typeMin(p.Type()) == 0 && t.guardedMin(p, at) >= 1)
}

// cutBy: the constants passed at site make the recursive call next, made by
// the callee, unreachable.
func (t *term) cutBy(site ssa.CallInstruction, to *ssa.Function, next ssa.CallInstruction) bool {
	args := site.Common().Args
	for i, p := range to.Params {
		k := i
		if site.Common().IsInvoke() {
			k--
		}
		if k < 0 || k >= len(args) {
			continue
		}
		cv, ok := args[k].(*ssa.Const)
		if !ok || cv.Value == nil {
			continue
		}
		for _, b := range to.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			val, ok := condUnder(iff.Cond, p, cv)
			if !ok {
				continue
			}
			dead := b.Succs[1]
			if !val {
				dead = b.Succs[0]
			}
			if len(dead.Preds) == 1 && dead.Dominates(next.Block()) {
				return true
			}
		}
	}
	return false
}

// consumesBefore: input is used up on every way from the entry to the call.
func (t *term) consumesBefore(f *ssa.Function, site ssa.CallInstruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	reached := false
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || reached {
			return
		}
		seen[b] = true
		for _, ins := range b.Instrs {
			if ins == site.(ssa.Instruction) {
				reached = true
				return
			}
			if c, ok := ins.(*ssa.Call); ok {
				if _, bi := c.Call.Value.(*ssa.Builtin); !bi && t.consumesPlain(c) {
					return
				}
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(f.Blocks[0])
	return !reached
}

// consumesPlain: a direct read of at least one bit.
func (t *term) consumesPlain(c *ssa.Call) bool {
	for _, g := range t.w.Callees(c) {
		if inModule(g) && !strings.HasSuffix(pkgOf(g), "/jxlio") && !strings.HasSuffix(pkgOf(g), "/testcommon") {
			return false
		}
	}
	return t.consumes(c)
}

// fieldCut: the callee recurses only while a field of its receiver satisfies a
// test, and the caller has just given that field a value that fails it.
func (t *term) fieldCut(from, to *ssa.Function, site ssa.CallInstruction, each func(func(ssa.CallInstruction))) bool {
	if len(to.Params) == 0 || len(site.Common().Args) == 0 || site.Common().IsInvoke() {
		return false
	}
	n, cut := 0, true
	each(func(next ssa.CallInstruction) {
		n++
		if !cut {
			return
		}
		ok := false
		for _, b := range to.Blocks {
			iff, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !isIf {
				continue
			}
			for k, s := range b.Succs {
				if len(s.Preds) != 1 || !s.Dominates(next.Block()) {
					continue
				}
				fv, op, c, isF := fieldTest(iff.Cond, to.Params[0], k == 0)
				if !isF || !firstTest(t.w, to, iff, fv) {
					continue
				}
				if t.fieldFails(from, site, site.Common().Args[0], fv, op, c) {
					ok = true
				}
			}
		}
		if !ok {
			cut = false
		}
	})
	return n > 0 && cut
}

// firstTest: nothing before the test changes the field.
func firstTest(w *World, f *ssa.Function, at *ssa.If, fv *types.Var) bool {
	for _, b := range f.Blocks {
		if b != at.Block() && !reaches(b, at.Block()) {
			continue
		}
		for _, ins := range b.Instrs {
			if mayStore(w, ins, fv) {
				return false
			}
		}
	}
	return true
}

func mayStore(w *World, ins ssa.Instruction, fv *types.Var) bool {
	switch x := ins.(type) {
	case *ssa.Store:
		if fieldVarOf(x.Addr) == fv {
			return true
		}
		if st, ok := x.Val.Type().Underlying().(*types.Struct); ok {
			m := &modSet{map[*types.Var]bool{}, map[string]bool{}}
			w.structParts(st, m)
			return m.fields[fv]
		}
	case ssa.CallInstruction:
		for _, g := range w.Callees(x) {
			if m := w.modOf(g); m != nil && m.fields[fv] {
				return true
			}
		}
	}
	return false
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(a)
}

// fieldTest reads cond (or its negation) as p.F op constant.
func fieldTest(cond ssa.Value, p ssa.Value, taken bool) (*types.Var, token.Token, int64, bool) {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, taken = u.X, !taken
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return nil, 0, 0, false
	}
	op, x, y := bo.Op, bo.X, bo.Y
	if _, isC := constInt(x); isC {
		op, x, y = flip(op), y, x
	}
	c, isC := constInt(y)
	u, isL := bareConv(x).(*ssa.UnOp)
	if !isC || !isL || u.Op != token.MUL {
		return nil, 0, 0, false
	}
	fa, isF := u.X.(*ssa.FieldAddr)
	if !isF || fa.X != p {
		return nil, 0, 0, false
	}
	if !taken {
		op = negateOp(op)
	}
	return fieldVarOf(fa), op, c, true
}

// fieldFails: at the call, obj.F op c is false.
func (t *term) fieldFails(f *ssa.Function, site ssa.CallInstruction, obj ssa.Value, fv *types.Var, op token.Token, c int64) bool {
	// the last store before the call
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok || fieldVarOf(st.Addr) != fv {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fa.X != obj || !domInstr(st, site.(ssa.Instruction)) {
				continue
			}
			clean := true
			for _, b2 := range f.Blocks {
				for _, i2 := range b2.Instrs {
					if i2 == ssa.Instruction(st) || i2 == site.(ssa.Instruction) || !mayStore(t.w, i2, fv) {
						continue
					}
					after := domInstr(st, i2) || (!domInstr(i2, st) && reaches(st.Block(), b2))
					before := b2 == site.Block() && domInstr(i2, site.(ssa.Instruction)) || b2 != site.Block() && reaches(b2, site.Block())
					if after && before {
						clean = false
					}
				}
			}
			if !clean {
				continue
			}
			m := t.minOf(st.Val, site.Block())
			switch op {
			case token.LEQ:
				return m > c
			case token.LSS:
				return m >= c
			case token.EQL:
				return m > c
			case token.NEQ:
				k, isC := constInt(st.Val)
				return isC && k == c
			}
		}
	}
	// what a call returned
	if ex, ok := obj.(*ssa.Extract); ok {
		if call, ok := ex.Tuple.(*ssa.Call); ok {
			return t.returnsFailing(call, ex.Index, fv, op, c)
		}
	}
	if call, ok := obj.(*ssa.Call); ok {
		return t.returnsFailing(call, 0, fv, op, c)
	}
	return false
}

func (t *term) returnsFailing(call *ssa.Call, idx int, fv *types.Var, op token.Token, c int64) bool {
	gs := t.w.Callees(call)
	if len(gs) == 0 {
		return false
	}
	for _, g := range gs {
		if len(g.Blocks) == 0 {
			return false
		}
		ei := errResultIdx(g.Signature)
		for _, b := range g.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || (ei >= 0 && t.nonNilErr(r.Results[ei], b)) {
				continue
			}
			v := r.Results[idx]
			if k, ok := v.(*ssa.Const); ok && k.IsNil() {
				continue
			}
			known := false
			for _, d := range g.Blocks {
				iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				for k, s := range d.Succs {
					if len(s.Preds) != 1 || !s.Dominates(b) {
						continue
					}
					gfv, gop, gc, ok := fieldTest(iff.Cond, v, k == 0)
					if !ok || gfv != fv || gc != c {
						continue
					}
					if gop == negateOp(op) {
						known = true
					}
				}
			}
			// or set just before returning
			for _, d := range g.Blocks {
				for _, ins := range d.Instrs {
					st, ok := ins.(*ssa.Store)
					if !ok || fieldVarOf(st.Addr) != fv || !d.Dominates(b) {
						continue
					}
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.X == v {
						if k, isC := constInt(st.Val); isC && op == token.NEQ && k == c {
							known = true
						}
					}
				}
			}
			if !known {
				return false
			}
		}
	}
	return true
}

func condUnder(c ssa.Value, p *ssa.Parameter, v *ssa.Const) (bool, bool) {
	if c == ssa.Value(p) && v.Value.Kind() == constant.Bool {
		return constant.BoolVal(v.Value), true
	}
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			b, ok := condUnder(x.X, p, v)
			return !b, ok
		}
	case *ssa.BinOp:
		y, ok := x.Y.(*ssa.Const)
		op := x.Op
		other := x.X
		if !ok {
			y, ok = x.X.(*ssa.Const)
			other = x.Y
			op = flip(op)
		}
		if !ok || y.Value == nil || bareConv(other) != ssa.Value(p) || v.Value.Kind() != y.Value.Kind() {
			return false, false
		}
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return constant.Compare(v.Value, op, y.Value), true
		}
	}
	return false, false
}

func init() {
	register("P16", "other", "Every natural loop of every function reachable from the API is walked once round over its SSA form; each way round must consume input, take from a queue, range over a collection, or move a counter towards a bound it was tested against while no way round moves it back. Every recursive group of the call graph must descend to a part of its argument, count down, or be cut by a constant argument.", checkTerm)
}
