package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Reaching definitions for field addresses base.f1.f2 within one function, so
// that a load that can only see a value stored a few lines earlier is not
// merged with every other value the field ever holds.

type memKey struct {
	base ssa.Value
	path string
}

// fieldKey resolves an address made of field selections only.
func fieldKey(a ssa.Value) (memKey, *types.Var, bool) {
	fa, ok := a.(*ssa.FieldAddr)
	if !ok {
		return memKey{}, nil, false
	}
	path := ""
	last := fieldVarOf(fa)
	var cur ssa.Value = fa
	for {
		f, ok := cur.(*ssa.FieldAddr)
		if !ok {
			break
		}
		path = "." + itoa(f.Field) + path
		cur = f.X
	}
	return memKey{cur, path}, last, true
}

type modSet struct {
	fields  map[*types.Var]bool
	structs map[string]bool // whole-struct stores, by type
}

func (w *World) modOf(f *ssa.Function) *modSet {
	if w.mods == nil {
		w.buildMods()
	}
	return w.mods[f]
}

func (w *World) buildMods() {
	w.mods = map[*ssa.Function]*modSet{}
	var fns []*ssa.Function
	for f := range w.all {
		if inModule(f) && len(f.Blocks) > 0 {
			fns = append(fns, f)
		}
	}
	succ := map[*ssa.Function][]*ssa.Function{}
	for _, f := range fns {
		m := &modSet{map[*types.Var]bool{}, map[string]bool{}}
		w.mods[f] = m
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if fv := fieldVarOf(x.Addr); fv != nil {
						m.fields[fv] = true
					}
					if st, ok := x.Val.Type().Underlying().(*types.Struct); ok {
						m.structs[x.Val.Type().String()] = true
						w.structParts(st, m)
					}
				case ssa.CallInstruction:
					succ[f] = append(succ[f], w.Callees(x)...)
				}
			}
		}
		succ[f] = append(succ[f], f.AnonFuncs...)
	}
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			m := w.mods[f]
			for _, g := range succ[f] {
				n := w.mods[g]
				if n == nil {
					continue
				}
				for k := range n.fields {
					if !m.fields[k] {
						m.fields[k] = true
						changed = true
					}
				}
			}
		}
	}
}

// structParts: a whole-struct store writes all its fields.
func (w *World) structParts(st *types.Struct, m *modSet) {
	for i := 0; i < st.NumFields(); i++ {
		m.fields[st.Field(i)] = true
		if s, ok := st.Field(i).Type().Underlying().(*types.Struct); ok {
			w.structParts(s, m)
		}
	}
}

type reach struct {
	stores    []*ssa.Store
	entry     bool // the value on function entry
	zero      bool // freshly allocated
	clobbered bool
}

// reachDefs finds the definitions of key (whose last field is fv) that reach
// the point just before ins.
func (w *World) reachDefs(ins ssa.Instruction, key memKey, fv *types.Var) reach {
	var r reach
	f := ins.Parent()
	seen := map[*ssa.BasicBlock]bool{}
	addStore := func(s *ssa.Store) {
		for _, o := range r.stores {
			if o == s {
				return
			}
		}
		r.stores = append(r.stores, s)
	}
	// the fields the path goes through: a store to any of them moves the whole
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		for i := from; i >= 0; i-- {
			switch x := b.Instrs[i].(type) {
			case *ssa.Store:
				if k, _, ok := fieldKey(x.Addr); ok && k == key {
					addStore(x)
					return
				}
				if v := fieldVarOf(x.Addr); v == fv {
					r.clobbered = true
					return
				}
				if st, ok := x.Val.Type().Underlying().(*types.Struct); ok {
					m := &modSet{map[*types.Var]bool{}, map[string]bool{}}
					w.structParts(st, m)
					if m.fields[fv] {
						r.clobbered = true
						return
					}
				}
			case *ssa.Alloc:
				if ssa.Value(x) == key.base {
					r.zero = true
					return
				}
			case ssa.CallInstruction:
				if _, ok := x.Common().Value.(*ssa.Builtin); ok {
					continue
				}
				if _, isDefer := x.(*ssa.Defer); isDefer {
					continue
				}
				for _, g := range w.Callees(x) {
					if m := w.modOf(g); m != nil && m.fields[fv] {
						r.clobbered = true
						return
					}
				}
			}
			if r.clobbered {
				return
			}
			if v, ok := b.Instrs[i].(ssa.Value); ok && v == key.base {
				// base defined here by something else: its field is unknown
				r.clobbered = true
				return
			}
		}
		if b == f.Blocks[0] {
			r.entry = true
			return
		}
		for _, p := range b.Preds {
			if !seen[p] {
				seen[p] = true
				walk(p, len(p.Instrs)-1)
			}
		}
	}
	b := ins.Block()
	idx := -1
	for i, x := range b.Instrs {
		if x == ins {
			idx = i
		}
	}
	walk(b, idx-1)
	return r
}

// varDefs: the stores to a local variable that a load of it can see, when the
// variable is only ever assigned by its own function (closures may read it).
func varDefs(x *ssa.UnOp, a *ssa.Alloc) ([]*ssa.Store, bool) {
	if a.Referrers() == nil || a.Parent() != x.Parent() {
		return nil, false
	}
	for _, r := range *a.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Addr != ssa.Value(a) {
				return nil, false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for i, b := range y.Bindings {
				if b == ssa.Value(a) && !readOnlyVar(y.Fn.(*ssa.Function).FreeVars[i]) {
					return nil, false
				}
			}
		default:
			return nil, false
		}
	}
	var out []*ssa.Store
	seen := map[*ssa.BasicBlock]bool{}
	// scan goes back over the instructions; false: no definition found
	scan := func(is []ssa.Instruction) bool {
		for i := len(is) - 1; i >= 0; i-- {
			if s, ok := is[i].(*ssa.Store); ok && s.Addr == ssa.Value(a) {
				out = append(out, s)
				return true
			}
			if is[i] == ssa.Instruction(a) {
				return true
			}
		}
		return false
	}
	b := x.Block()
	at := 0
	for i, y := range b.Instrs {
		if y == ssa.Instruction(x) {
			at = i
		}
	}
	var todo []*ssa.BasicBlock
	if !scan(b.Instrs[:at]) {
		todo = append(todo, b.Preds...)
	}
	for len(todo) > 0 {
		b := todo[0]
		todo = todo[1:]
		if seen[b] {
			continue
		}
		seen[b] = true
		if !scan(b.Instrs) {
			todo = append(todo, b.Preds...)
		}
	}
	return out, true
}

func readOnlyVar(v *ssa.FreeVar) bool {
	if v.Referrers() == nil {
		return true
	}
	for _, r := range *v.Referrers() {
		switch y := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for i, b := range y.Bindings {
				if b == ssa.Value(v) && !readOnlyVar(y.Fn.(*ssa.Function).FreeVars[i]) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}
