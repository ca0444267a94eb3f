package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Synchronisation objects (wait groups, channels, mutexes), the values that
// denote them and the functions that work on them.

type syncObj struct {
	kind   string    // "wg", "chan", "mutex"
	seed   ssa.Value // Alloc / MakeChan; nil for a struct field
	field  *types.Var
	vals   map[ssa.Value]bool // values that denote the object
	cells  map[ssa.Value]bool // addresses of variables that hold it
	fns    map[*ssa.Function]bool
	copied []ssa.Instruction
}

func (o *syncObj) name(w *World) string {
	if o.field != nil {
		return "field " + o.field.Name()
	}
	n := ""
	switch x := o.seed.(type) {
	case *ssa.Alloc:
		n = x.Comment
	case *ssa.Global:
		n = x.Name()
	case *ssa.MakeChan:
		for _, r := range *x.Referrers() {
			if s, ok := r.(*ssa.Store); ok {
				if a, ok := s.Addr.(*ssa.Alloc); ok {
					n = a.Comment
				}
			}
		}
	}
	if n == "" {
		n = o.kind
	}
	if f := o.seed.Parent(); f != nil {
		return n + " of " + FnName(f)
	}
	return n
}

func fieldVar(t types.Type, i int) *types.Var {
	st := derefStruct(t)
	if st == nil {
		if s, ok := t.Underlying().(*types.Struct); ok {
			st = s
		}
	}
	if st == nil || i >= st.NumFields() {
		return nil
	}
	return st.Field(i).Origin()
}

type fieldIndex struct {
	addrs map[*types.Var][]*ssa.FieldAddr
	vals  map[*types.Var][]*ssa.Field
}

func (w *World) fieldIdx() *fieldIndex {
	if w.fidx != nil {
		return w.fidx
	}
	x := &fieldIndex{map[*types.Var][]*ssa.FieldAddr{}, map[*types.Var][]*ssa.Field{}}
	for _, f := range w.ModFns() {
		eachInstr(f, func(ins ssa.Instruction) {
			switch i := ins.(type) {
			case *ssa.FieldAddr:
				if v := fieldVar(i.X.Type(), i.Field); v != nil {
					x.addrs[v] = append(x.addrs[v], i)
				}
			case *ssa.Field:
				if v := fieldVar(i.X.Type(), i.Field); v != nil {
					x.vals[v] = append(x.vals[v], i)
				}
			}
		})
	}
	w.fidx = x
	return x
}

func (w *World) callersOf(f *ssa.Function) []ssa.CallInstruction {
	if w.callers == nil {
		w.callers = map[*ssa.Function][]ssa.CallInstruction{}
		for _, g := range w.ModFns() {
			eachInstr(g, func(ins ssa.Instruction) {
				if c, ok := ins.(ssa.CallInstruction); ok {
					for _, t := range w.Callees(c) {
						w.callers[t] = append(w.callers[t], c)
					}
				}
			})
		}
	}
	return w.callers[f]
}

// argParam returns the parameters of the callees that receive operand v of c.
func (w *World) argParams(c ssa.CallInstruction, v ssa.Value) []*ssa.Parameter {
	var out []*ssa.Parameter
	cc := c.Common()
	for _, g := range w.Callees(c) {
		if !inModule(g) || len(g.Blocks) == 0 {
			continue
		}
		off := 0
		if cc.IsInvoke() {
			off = 1
		}
		for i, a := range cc.Args {
			if a == v && i+off < len(g.Params) {
				out = append(out, g.Params[i+off])
			}
		}
	}
	return out
}

// trace computes everything that may denote the object starting from seeds.
func (w *World) trace(o *syncObj, vals, cells []ssa.Value) {
	o.vals, o.cells, o.fns = map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[*ssa.Function]bool{}
	var wl []ssa.Value
	mark := func(v ssa.Value) {
		if p := v.Parent(); p != nil {
			o.fns[p] = true
		}
	}
	addV := func(v ssa.Value) {
		if v != nil && !o.vals[v] {
			o.vals[v] = true
			mark(v)
			wl = append(wl, v)
		}
	}
	addC := func(v ssa.Value) {
		if v != nil && !o.cells[v] {
			o.cells[v] = true
			mark(v)
			wl = append(wl, v)
		}
	}
	cellField := func(fv *types.Var) {
		for _, a := range w.fieldIdx().addrs[fv] {
			addC(a)
		}
		for _, a := range w.fieldIdx().vals[fv] {
			addV(a)
		}
	}
	for _, v := range vals {
		addV(v)
	}
	for _, c := range cells {
		addC(c)
	}
	for len(wl) > 0 {
		v := wl[len(wl)-1]
		wl = wl[:len(wl)-1]
		isCell := o.cells[v]
		if isCell {
			if fa, ok := v.(*ssa.FieldAddr); ok {
				if fv := fieldVar(fa.X.Type(), fa.Field); fv != nil {
					cellField(fv)
				}
			}
		}
		refs := v.Referrers()
		if refs == nil {
			continue
		}
		for _, r := range *refs {
			switch x := r.(type) {
			case *ssa.Phi:
				if isCell {
					addC(x)
				} else {
					addV(x)
				}
			case *ssa.ChangeType:
				if isCell {
					addC(x)
				} else {
					addV(x)
				}
			case *ssa.Store:
				if x.Val == v && !isCell {
					addC(x.Addr)
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if isCell {
						addV(x)
					} else if o.kind != "chan" {
						o.copied = append(o.copied, x)
					}
				}
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v && i < len(fn.FreeVars) {
						if isCell {
							addC(fn.FreeVars[i])
						} else {
							addV(fn.FreeVars[i])
						}
					}
				}
			case *ssa.Return:
				for _, c := range w.callersOf(x.Parent()) {
					call, ok := c.(*ssa.Call)
					if !ok {
						continue
					}
					if len(x.Results) == 1 {
						if isCell {
							addC(call)
						} else {
							addV(call)
						}
						continue
					}
					for i, res := range x.Results {
						if res != v {
							continue
						}
						for _, rr := range *call.Referrers() {
							if e, ok := rr.(*ssa.Extract); ok && e.Index == i {
								addV(e)
							}
						}
					}
				}
			case ssa.CallInstruction:
				for _, p := range w.argParams(x, v) {
					if isCell {
						addC(p)
					} else {
						addV(p)
					}
				}
			}
		}
	}
}

func isSyncType(t types.Type, names ...string) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
		return false
	}
	for _, x := range names {
		if n.Obj().Name() == x {
			return true
		}
	}
	return false
}

// syncObjects enumerates the objects of one kind.
func (w *World) syncObjects(kind string) []*syncObj {
	var out []*syncObj
	fields := map[*types.Var]bool{}
	want := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		if _, isP := p.Elem().Underlying().(*types.Pointer); isP {
			return false
		}
		if kind == "wg" {
			return isSyncType(p.Elem(), "WaitGroup")
		}
		return isSyncType(p.Elem(), "Mutex", "RWMutex")
	}
	globals := map[*ssa.Global]bool{}
	for _, f := range w.ModFns() {
		eachInstr(f, func(ins ssa.Instruction) {
			v, ok := ins.(ssa.Value)
			if !ok {
				return
			}
			if kind == "chan" {
				if mk, ok := v.(*ssa.MakeChan); ok {
					o := &syncObj{kind: kind, seed: mk}
					w.trace(o, []ssa.Value{mk}, nil)
					out = append(out, o)
				}
				return
			}
			switch x := v.(type) {
			case *ssa.Alloc:
				if want(x.Type()) {
					o := &syncObj{kind: kind, seed: x}
					w.trace(o, []ssa.Value{x}, nil)
					out = append(out, o)
				}
			case *ssa.FieldAddr:
				if want(x.Type()) {
					fv := fieldVar(x.X.Type(), x.Field)
					if fv != nil && !fields[fv] {
						fields[fv] = true
						o := &syncObj{kind: kind, field: fv}
						var vs []ssa.Value
						for _, a := range w.fieldIdx().addrs[fv] {
							vs = append(vs, a)
						}
						w.trace(o, vs, nil)
						out = append(out, o)
					}
				}
			}
			for _, op := range ins.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok && want(g.Type()) && !globals[g] {
					globals[g] = true
				}
			}
		})
	}
	for g := range globals {
		o := &syncObj{kind: kind, seed: g}
		w.trace(o, []ssa.Value{g}, nil)
		for _, f := range w.ModFns() {
			eachInstr(f, func(ins ssa.Instruction) {
				for _, op := range ins.Operands(nil) {
					if *op == ssa.Value(g) {
						o.fns[f] = true
					}
				}
			})
		}
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name(w) < out[j].name(w) })
	return out
}

// spawn describes a statement that starts a goroutine.
type spawn struct {
	site   ssa.CallInstruction
	bodies []*ssa.Function
	wg     ssa.Value // WaitGroup.Go: the receiver
}

func closureFns(v ssa.Value, depth int) []*ssa.Function {
	if depth > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return []*ssa.Function{x.Fn.(*ssa.Function)}
	case *ssa.Function:
		return []*ssa.Function{x}
	case *ssa.ChangeType:
		return closureFns(x.X, depth+1)
	case *ssa.Phi:
		var out []*ssa.Function
		for _, e := range x.Edges {
			out = append(out, closureFns(e, depth+1)...)
		}
		return out
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			var out []*ssa.Function
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					out = append(out, closureFns(s.Val, depth+1)...)
				}
			}
			return out
		}
	}
	return nil
}

func (w *World) spawnOf(ins ssa.Instruction) *spawn {
	switch c := ins.(type) {
	case *ssa.Go:
		return &spawn{site: c, bodies: w.Callees(c)}
	case *ssa.Call:
		if fullName(c.Common()) == "(*sync.WaitGroup).Go" {
			fs := closureFns(c.Common().Args[1], 0)
			if p, ok := c.Common().Args[1].(*ssa.Parameter); ok {
				i := paramIndex(p)
				for _, cs := range w.callersOf(p.Parent()) {
					if i < len(cs.Common().Args) {
						fs = append(fs, closureFns(cs.Common().Args[i], 0)...)
					}
				}
			}
			return &spawn{site: c, bodies: fs, wg: c.Common().Args[0]}
		}
	}
	return nil
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if q == p {
			return i
		}
	}
	return -1
}

// ---- symbolic sizes ---------------------------------------------------------

// stripConv removes conversions and single-assignment variables.
func stripConv(v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if s := onlyStore(x.X); s != nil {
					v = s
					continue
				}
				if p := loopCell(x.X); p != nil {
					return p
				}
			}
		}
		break
	}
	return v
}

// loopCell: the address is that of a loop variable that closures capture, made
// anew for each iteration and only changed by the loop itself. The phi of the
// addresses stands for the variable.
func loopCell(a ssa.Value) *ssa.Phi {
	for i := 0; i < 8; i++ {
		fv, ok := a.(*ssa.FreeVar)
		if !ok {
			break
		}
		b := bindingOf(fv)
		if b == nil {
			return nil
		}
		a = b
	}
	p, ok := a.(*ssa.Phi)
	if !ok {
		return nil
	}
	var readOnly func(v ssa.Value, d int) bool
	readOnly = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v && !readOnly(fn.FreeVars[i], d+1) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !readOnly(p, 0) {
		return nil
	}
	for _, e := range p.Edges {
		al, ok := e.(*ssa.Alloc)
		if !ok {
			return nil
		}
		for _, r := range *al.Referrers() {
			switch x := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Phi:
				if x != p {
					return nil
				}
			case *ssa.Store:
				if x.Addr != ssa.Value(al) || x.Block() != al.Block() {
					return nil
				}
			default:
				return nil
			}
		}
	}
	return p
}

// lastStore: the value a fresh variable holds at the end of its block.
func lastStore(al *ssa.Alloc) ssa.Value {
	var v ssa.Value
	for _, ins := range al.Block().Instrs {
		if st, ok := ins.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			v = st.Val
		}
	}
	return v
}

// stepsBy1: the variable takes over the value of the iteration before plus one.
func stepsBy1(al *ssa.Alloc, p *ssa.Phi) bool {
	loads := map[ssa.Value]int{} // offset from the value of the iteration before
	cur, known := 0, false
	for _, ins := range al.Block().Instrs {
		switch x := ins.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL && x.X == ssa.Value(p) {
				loads[x] = 0
			} else if x.Op == token.MUL && x.X == ssa.Value(al) && known {
				loads[x] = cur
			}
		case *ssa.BinOp:
			if o, ok := loads[x.X]; ok && x.Op == token.ADD && isConstInt(x.Y, 1) {
				loads[x] = o + 1
			}
		case *ssa.Store:
			if x.Addr == ssa.Value(al) {
				cur, known = loads[x.Val], false
				if _, ok := loads[x.Val]; ok {
					known = true
				}
			}
		}
	}
	return known && cur == 1
}

// onlyStore: the value of a local variable that is assigned exactly once (also
// seen through the closures that capture it).
func onlyStore(a ssa.Value) ssa.Value {
	for i := 0; i < 8; i++ {
		fv, ok := a.(*ssa.FreeVar)
		if !ok {
			break
		}
		b := bindingOf(fv)
		if b == nil {
			return nil
		}
		a = b
	}
	al, ok := a.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var st *ssa.Store
	var count func(v ssa.Value, d int) bool
	count = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Val == v {
					return false
				}
				if st != nil {
					return false
				}
				st = x
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v && !count(fn.FreeVars[i], d+1) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !count(al, 0) || st == nil || st.Parent() != al.Parent() {
		return nil
	}
	// a variable read before it is assigned is zero then
	for _, r := range *al.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok || r == ssa.Instruction(st) {
			continue
		}
		if !instrDominates(st, r) {
			return nil
		}
	}
	return st.Val
}

// poly is a sum of products of opaque factors.
type poly map[string]int64

func (p poly) String() string {
	var ks []string
	for k, c := range p {
		s := itoa(int(c))
		if k != "" {
			s += "*" + k
		}
		ks = append(ks, s)
	}
	sort.Strings(ks)
	return strings.Join(ks, " + ")
}

func polyMul(a, b poly) poly {
	out := poly{}
	for x, c := range a {
		for y, d := range b {
			var fs []string
			if x != "" {
				fs = append(fs, strings.Split(x, "·")...)
			}
			if y != "" {
				fs = append(fs, strings.Split(y, "·")...)
			}
			sort.Strings(fs)
			out[strings.Join(fs, "·")] += c * d
		}
	}
	return out
}

func polyAdd(a, b poly) poly {
	out := poly{}
	for x, c := range a {
		out[x] += c
	}
	for x, c := range b {
		out[x] += c
	}
	return out
}

// covers: a >= b whatever the (non-negative) factors are.
func (a poly) covers(b poly) bool {
	spare := int64(0)
	_ = spare
	for k, c := range b {
		if a[k] < c {
			return false
		}
	}
	return true
}

func (w *World) polyOf(v ssa.Value, depth int) poly {
	v = stripConv(v)
	if depth > 8 {
		return poly{w.sizeKey(v): 1}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			if n, ok := constant.Int64Val(x.Value); ok {
				return poly{"": n}
			}
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.MUL:
			return polyMul(w.polyOf(x.X, depth+1), w.polyOf(x.Y, depth+1))
		case token.ADD:
			return polyAdd(w.polyOf(x.X, depth+1), w.polyOf(x.Y, depth+1))
		case token.SUB:
			if c, ok := stripConv(x.Y).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
				return polyAdd(w.polyOf(x.X, depth+1), poly{"": -c.Int64()})
			}
		}
	case *ssa.Parameter:
		// a parameter with one call site stands for its argument
		cs := w.callersOf(x.Parent())
		if len(cs) == 1 && !cs[0].Common().IsInvoke() {
			if i := paramIndex(x); i >= 0 && i < len(cs[0].Common().Args) {
				return w.polyOf(cs[0].Common().Args[i], depth+1)
			}
		}
	}
	return poly{w.sizeKey(v): 1}
}

// sizeKey names a quantity so that equal expressions over variables and fields
// that the function does not change compare equal.
func (w *World) sizeKey(v ssa.Value) string { return w.sizeKeyD(v, nil, 0) }

func (w *World) sizeKeyD(v ssa.Value, env map[ssa.Value]string, d int) string {
	v = stripConv(v)
	if k, ok := env[v]; ok {
		return k
	}
	if d > 10 {
		return fmt.Sprintf("%p", v)
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		cs := w.callersOf(x.Parent())
		if len(cs) == 1 && !cs[0].Common().IsInvoke() && d < 6 {
			if i := paramIndex(x); i >= 0 && i < len(cs[0].Common().Args) {
				return w.sizeKeyD(cs[0].Common().Args[i], env, d+1)
			}
		}
	case *ssa.FreeVar:
		if b := bindingOf(x); b != nil {
			return w.sizeKeyD(b, env, d+1)
		}
	case *ssa.Call:
		if alts := minArgs(x); alts != nil {
			s := "min("
			var ps []poly
			for _, a := range alts {
				s += strings.NewReplacer("·", "*").Replace(w.sizeKeyD(a, env, d+1)) + ","
				ps = append(ps, w.polyOf(a, d+1))
			}
			s += ")"
			if w.minAlts == nil {
				w.minAlts = map[string][]poly{}
			}
			w.minAlts[s] = ps
			return s
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			s := b.Name() + "("
			for _, a := range x.Call.Args {
				s += w.sizeKeyD(a, env, d+1) + ","
			}
			return s + ")"
		}
		if f := x.Call.StaticCallee(); f != nil && len(x.Call.Args) <= 3 {
			var args []string
			for _, a := range x.Call.Args {
				args = append(args, w.sizeKeyD(a, env, d+1))
			}
			// one-line accessors stand for what they return
			if inModule(f) && len(f.Blocks) == 1 {
				if r, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
					e2 := map[ssa.Value]string{}
					for i, p := range f.Params {
						if i < len(args) {
							e2[p] = args[i]
						}
					}
					return w.sizeKeyD(r.Results[0], e2, d+1)
				}
			}
			return FnName(f) + "(" + strings.Join(args, ",") + ")"
		}
	case *ssa.BinOp:
		return "(" + w.sizeKeyD(x.X, env, d+1) + x.Op.String() + w.sizeKeyD(x.Y, env, d+1) + ")"
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return w.sizePlace(x.X, env, d+1)
		}
	case *ssa.Const:
		if x.Value != nil {
			return x.Value.String()
		}
	}
	return valKey(v)
}

func (w *World) sizePlace(a ssa.Value, env map[ssa.Value]string, d int) string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return w.sizeKeyD(x.X, env, d) + "." + itoa(x.Field)
	case *ssa.IndexAddr:
		return w.sizeKeyD(x.X, env, d) + "[" + w.sizeKeyD(x.Index, env, d) + "]"
	case *ssa.FreeVar:
		if b := bindingOf(x); b != nil {
			return w.sizePlace(b, env, d)
		}
	}
	return placeKey(a)
}

// variadic lists the arguments of a call whose only parameter is variadic.
func variadic(c *ssa.Call) []ssa.Value {
	if len(c.Call.Args) != 1 {
		return c.Call.Args
	}
	sl, ok := c.Call.Args[0].(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

// minArgs: the arguments of min(a, b, ...).
func minArgs(c *ssa.Call) []ssa.Value {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "min" {
			return c.Call.Args
		}
		return nil
	}
	if f := c.Call.StaticCallee(); f != nil && pkgOf(f) == modPath+"/util" && strings.HasPrefix(f.Name(), "Min") {
		return variadic(c)
	}
	return nil
}

// natLoop is a natural loop.
type natLoop struct {
	head  *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	latch []*ssa.BasicBlock
}

func (w *World) loopsIn(f *ssa.Function) []*natLoop {
	w.loopMu.Lock()
	defer w.loopMu.Unlock()
	if l, ok := w.loops[f]; ok {
		return l
	}
	if w.loops == nil {
		w.loops = map[*ssa.Function][]*natLoop{}
	}
	by := map[*ssa.BasicBlock]*natLoop{}
	var out []*natLoop
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := by[s]
				if l == nil {
					l = &natLoop{head: s, body: map[*ssa.BasicBlock]bool{}}
					by[s] = l
					out = append(out, l)
				}
				l.latch = append(l.latch, b)
				for x := range loopBody(s, b) {
					l.body[x] = true
				}
			}
		}
	}
	w.loops[f] = out
	return out
}

func (w *World) loopsAround(b *ssa.BasicBlock) []*natLoop {
	var out []*natLoop
	for _, l := range w.loopsIn(b.Parent()) {
		if l.body[b] {
			out = append(out, l)
		}
	}
	sort.Slice(out, func(i, j int) bool { return len(out[i].body) > len(out[j].body) })
	return out
}

// counter describes a loop counted from start by +1 up to bound (exclusive).
type counter struct {
	idx    ssa.Value // the value that takes start, start+1, ... inside the body
	start  ssa.Value // nil: zero
	bound  ssa.Value
	exit   *ssa.BasicBlock // the block that holds the test
	bottom bool            // tested before the loop and at the end of each iteration
}

func (w *World) counterOf(l *natLoop) *counter {
	if c := countTop(l); c != nil {
		return c
	}
	// range over an integer: the test is at the bottom
	if len(l.latch) != 1 {
		return nil
	}
	la := l.latch[0]
	ifi, ok := la.Instrs[len(la.Instrs)-1].(*ssa.If)
	if !ok || la.Succs[0] != l.head || l.body[la.Succs[1]] {
		return nil
	}
	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return nil
	}
	inc, ok := cmp.X.(*ssa.BinOp)
	if !ok || inc.Op != token.ADD || !isConstInt(inc.Y, 1) {
		return nil
	}
	phi, ok := inc.X.(*ssa.Phi)
	if !ok || phi.Block() != l.head {
		return nil
	}
	c := &counter{idx: phi, bound: cmp.Y, exit: la, bottom: true}
	for i, e := range phi.Edges {
		if l.body[l.head.Preds[i]] {
			if e != ssa.Value(inc) {
				return nil
			}
		} else if !isConstInt(e, 0) {
			return nil
		}
	}
	return c
}

func countTop(l *natLoop) *counter {
	h := l.head
	ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	into := l.body[h.Succs[0]] && !l.body[h.Succs[1]]
	out := !l.body[h.Succs[0]] && l.body[h.Succs[1]]
	op, x, y := cmp.Op, cmp.X, cmp.Y
	if out {
		switch op {
		case token.GEQ:
			op = token.LSS
		case token.LEQ:
			op = token.GTR
		case token.EQL:
			op = token.NEQ
		default:
			return nil
		}
	} else if !into {
		return nil
	}
	if op == token.GTR {
		op, x, y = token.LSS, y, x
	}
	if op != token.LSS && op != token.NEQ {
		return nil
	}
	if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
		p := loopCell(u.X)
		if p == nil || p.Block() != h {
			return nil
		}
		c := &counter{idx: p, bound: y, exit: h}
		for i, e := range p.Edges {
			al := e.(*ssa.Alloc)
			if l.body[h.Preds[i]] {
				if !stepsBy1(al, p) {
					return nil
				}
				continue
			}
			v := lastStore(al)
			if v == nil {
				return nil
			}
			if !isConstInt(v, 0) {
				if c.start != nil && c.start != v {
					return nil
				}
				c.start = v
			}
		}
		return c
	}
	phi, _ := x.(*ssa.Phi)
	pre := false
	if phi == nil {
		b, ok := x.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || !isConstInt(b.Y, 1) {
			return nil
		}
		phi, ok = b.X.(*ssa.Phi)
		if !ok {
			return nil
		}
		pre = true
	}
	if phi.Block() != h {
		return nil
	}
	c := &counter{idx: x, bound: y, exit: h}
	for i, e := range phi.Edges {
		if l.body[h.Preds[i]] {
			if pre {
				if e != x {
					return nil
				}
				continue
			}
			b, ok := e.(*ssa.BinOp)
			if !ok || b.Op != token.ADD || b.X != ssa.Value(phi) || !isConstInt(b.Y, 1) {
				return nil
			}
			continue
		}
		if pre {
			if !isConstInt(e, -1) {
				return nil
			}
			continue
		}
		if isConstInt(e, 0) {
			continue
		}
		if c.start != nil && c.start != e {
			return nil
		}
		c.start = e
	}
	return c
}

// trips is an upper bound of the iterations of a loop each time it is entered.
func (w *World) trips(l *natLoop) (poly, bool) {
	if c := w.counterOf(l); c != nil {
		return w.polyOf(c.bound, 0), true
	}
	// range over int/slice written by the compiler is counted; ranges over
	// maps and strings use a Next instruction
	for _, ins := range l.head.Instrs {
		if n, ok := ins.(*ssa.Next); ok {
			if rg, ok := n.Iter.(*ssa.Range); ok {
				return poly{"len(" + w.sizeKey(rg.X) + ",)": 1}, true
			}
		}
	}
	return nil, false
}

// ---- lower bounds -----------------------------------------------------------

const noLB = int64(-1) << 62

func satMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	if a < 0 || b < 0 {
		return noLB
	}
	if a > 1<<20 || b > 1<<20 {
		return 1 << 20
	}
	return a * b
}

// lowerBound is a value v is never below.
func (w *World) lowerBound(v ssa.Value, depth int) int64 {
	if depth > 12 {
		return noLB
	}
	base := noLB
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		base = 0
	}
	max := func(a, b int64) int64 {
		if a > b {
			return a
		}
		return b
	}
	min := func(a, b int64) int64 {
		if a < b {
			return a
		}
		return b
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			if n, ok := constant.Int64Val(x.Value); ok {
				return n
			}
			return base
		}
	case *ssa.Convert:
		// widening keeps the value; narrowing to a signed type of at most the
		// same width may not
		from, ok1 := x.X.Type().Underlying().(*types.Basic)
		to, ok2 := x.Type().Underlying().(*types.Basic)
		if ok1 && ok2 && from.Info()&types.IsInteger != 0 && to.Info()&types.IsInteger != 0 {
			fb, tb := intBits(from), intBits(to)
			fu, tu := from.Info()&types.IsUnsigned != 0, to.Info()&types.IsUnsigned != 0
			lb := w.lowerBound(x.X, depth+1)
			if tb > fb || (tb == fb && fu == tu) {
				if tu && !fu && lb < 0 {
					return base
				}
				return max(base, lb)
			}
			if _, isC := x.X.(*ssa.Const); isC {
				return max(base, lb)
			}
		}
		return base
	case *ssa.ChangeType:
		return w.lowerBound(x.X, depth+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if s := onlyStore(x.X); s != nil {
				return max(base, w.lowerBound(s, depth+1))
			}
			return max(base, w.cellLB(x, depth))
		}
	case *ssa.FreeVar:
		if b := bindingOf(x); b != nil {
			return max(base, w.lowerBound(b, depth+1))
		}
	case *ssa.BinOp:
		a, b := w.lowerBound(x.X, depth+1), w.lowerBound(x.Y, depth+1)
		switch x.Op {
		case token.ADD:
			if a > noLB && b > noLB {
				return max(base, a+b)
			}
		case token.MUL:
			return max(base, satMul(a, b))
		case token.QUO:
			if a >= 0 && b >= 0 {
				return 0
			}
		case token.SHL, token.SHR:
			if a >= 0 {
				return 0
			}
		case token.AND:
			if a >= 0 || b >= 0 {
				return 0
			}
		case token.REM:
			if a >= 0 {
				return 0
			}
		}
		return base
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "len", "cap":
				return 0
			case "max":
				lb := base
				for _, a := range x.Call.Args {
					lb = max(lb, w.lowerBound(a, depth+1))
				}
				return lb
			case "min":
				lb := int64(1) << 40
				for _, a := range x.Call.Args {
					lb = min(lb, w.lowerBound(a, depth+1))
				}
				return max(base, lb)
			}
			return base
		}
		f := x.Call.StaticCallee()
		if f != nil && pkgOf(f) == modPath+"/util" && strings.HasPrefix(f.Name(), "Max") {
			lb := base
			for _, a := range variadic(x) {
				lb = max(lb, w.lowerBound(a, depth+1))
			}
			return lb
		}
		if f != nil && (f.String() == "runtime.GOMAXPROCS" || f.String() == "runtime.NumCPU") {
			return 1
		}
		if f != nil && inModule(f) && len(f.Blocks) > 0 {
			lb := int64(1) << 40
			eachInstr(f, func(ins ssa.Instruction) {
				if r, ok := ins.(*ssa.Return); ok && len(r.Results) == 1 {
					l := w.lowerBoundAt(r.Results[0], r.Block(), depth+1)
					// max(a, b) style helpers: parameters bound by the arguments
					if p, ok := r.Results[0].(*ssa.Parameter); ok {
						if i := paramIndex(p); i >= 0 && i < len(x.Call.Args) {
							l = max(l, w.lowerBound(x.Call.Args[i], depth+1))
							l = max(l, w.paramAtLeastOther(p, r.Block(), x, depth))
						}
					}
					lb = min(lb, l)
				}
			})
			if lb < 1<<40 {
				return max(base, lb)
			}
		}
		return base
	case *ssa.Phi:
		lb := int64(1) << 40
		if depth > 8 {
			return base
		}
		for i, e := range x.Edges {
			if e == ssa.Value(x) {
				continue
			}
			l := w.lowerBound(e, depth+2)
			// refine by the condition of the edge
			l = max(l, edgeLB(x.Block().Preds[i], x.Block(), e))
			lb = min(lb, l)
		}
		return max(base, lb)
	case *ssa.Parameter:
		cs := w.callersOf(x.Parent())
		i := paramIndex(x)
		if len(cs) == 0 || i < 0 || depth > 6 {
			return base
		}
		lb := int64(1) << 40
		for _, c := range cs {
			off := i
			if c.Common().IsInvoke() {
				off--
			}
			if off < 0 || off >= len(c.Common().Args) {
				return base
			}
			lb = min(lb, w.lowerBoundAt(c.Common().Args[off], c.Block(), depth+2))
		}
		return max(base, lb)
	}
	return base
}

// lowerBoundAt adds what the conditions dominating a block say about v.
func (w *World) lowerBoundAt(v ssa.Value, b *ssa.BasicBlock, depth int) int64 {
	lb := w.lowerBound(v, depth)
	for d := b; d.Idom() != nil; d = d.Idom() {
		p := d.Idom()
		for _, s := range p.Succs {
			if s == d && len(d.Preds) == 1 {
				if e := edgeLB(p, d, v); e > lb {
					lb = e
				}
			}
		}
	}
	return lb
}

// paramAtLeastOther: inside max(a, b), `return a` under a > b.
func (w *World) paramAtLeastOther(p *ssa.Parameter, b *ssa.BasicBlock, call *ssa.Call, depth int) int64 {
	best := noLB
	for d := b; d != nil && d.Idom() != nil; d = d.Idom() {
		pr := d.Idom()
		ifi, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 {
			continue
		}
		cmp, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := cmp.Op
		x, y := stripConv(cmp.X), stripConv(cmp.Y)
		if pr.Succs[1] == d {
			op = negOp(op)
		}
		if op == token.LSS || op == token.LEQ {
			x, y = y, x
			if op == token.LSS {
				op = token.GTR
			} else {
				op = token.GEQ
			}
		}
		if (op == token.GTR || op == token.GEQ) && x == ssa.Value(p) {
			if q, ok := y.(*ssa.Parameter); ok {
				if i := paramIndex(q); i >= 0 && i < len(call.Call.Args) {
					if l := w.lowerBound(call.Call.Args[i], depth+1); l > best {
						best = l
					}
				}
			}
		}
	}
	return best
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return token.ILLEGAL
}

// edgeLB: what taking the edge p->s says about v.
func edgeLB(p, s *ssa.BasicBlock, v ssa.Value) int64 {
	if len(p.Instrs) == 0 {
		return noLB
	}
	ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] == p.Succs[1] {
		// an empty forwarding block: look at its only predecessor
		if len(p.Succs) == 1 && len(p.Preds) == 1 {
			return edgeLB(p.Preds[0], p, v)
		}
		return noLB
	}
	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return noLB
	}
	op := cmp.Op
	if p.Succs[1] == s {
		op = negOp(op)
	}
	x, y := cmp.X, cmp.Y
	same := func(a ssa.Value) bool { return a == v || sizeSame(a, v) }
	if same(y) {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	if !same(x) {
		return noLB
	}
	c, ok := y.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return noLB
	}
	n := c.Int64()
	switch op {
	case token.GTR:
		return n + 1
	case token.GEQ, token.EQL:
		return n
	case token.NEQ:
		if n == 0 {
			if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				return 1
			}
		}
	}
	return noLB
}

// sizeSame: two loads of the same field of the same object.
func sizeSame(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL && placeKey(x.X) == placeKey(y.X)
}

// cellLB: lower bound of a variable (captured by closures that only read it)
// at one of its loads, following the assignments and tests that reach it.
func (w *World) cellLB(load *ssa.UnOp, depth int) int64 {
	a := load.X
	var at ssa.Instruction = load
	for i := 0; i < 8; i++ {
		fv, ok := a.(*ssa.FreeVar)
		if !ok {
			break
		}
		mc := closureOf(fv.Parent())
		b := bindingOf(fv)
		if b == nil || mc == nil {
			return noLB
		}
		a, at = b, mc
	}
	al, ok := a.(*ssa.Alloc)
	if !ok {
		return noLB
	}
	f := al.Parent()
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(al) {
				return noLB
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == ssa.Value(al) && !onlyRead(fn.FreeVars[i], 0) {
					return noLB
				}
			}
		default:
			return noLB
		}
	}
	const top = int64(1) << 40
	in := map[*ssa.BasicBlock]int64{}
	for _, b := range f.Blocks {
		in[b] = top
	}
	in[f.Blocks[0]] = 0 // zero value
	flow := func(b *ssa.BasicBlock, stop ssa.Instruction) int64 {
		lb := in[b]
		for _, ins := range b.Instrs {
			if ins == stop {
				return lb
			}
			if s, ok := ins.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
				lb = w.lowerBoundAt(s.Val, b, depth+2)
			}
		}
		return lb
	}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			if in[b] == top {
				continue
			}
			out := flow(b, nil)
			for _, s := range b.Succs {
				o := out
				if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
					if cmp, ok := ifi.Cond.(*ssa.BinOp); ok {
						for _, v := range []ssa.Value{cmp.X, cmp.Y} {
							if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == ssa.Value(al) {
								if e := edgeLB(b, s, u); e > o {
									o = e
								}
							}
						}
					}
				}
				if o < in[s] {
					in[s] = o
					changed = true
				}
			}
		}
	}
	lb := flow(at.Block(), at)
	if lb == top {
		return noLB
	}
	return lb
}

func onlyRead(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && !onlyRead(fn.FreeVars[i], d+1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// closureOf: the only place where a function literal is created.
func closureOf(f *ssa.Function) *ssa.MakeClosure {
	if f.Parent() == nil {
		return nil
	}
	var out *ssa.MakeClosure
	n := 0
	eachInstr(f.Parent(), func(ins ssa.Instruction) {
		if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
			out = mc
			n++
		}
	})
	if n != 1 {
		return nil
	}
	return out
}

func intBits(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}
