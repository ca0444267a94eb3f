package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Writes of workers to shared memory that only a lock (or an atomic operation)
// keeps apart happen in whatever order the scheduler picks. orderChecks reports
// those whose outcome depends on that order (part of P07).
func orderChecks(w *World, r *Result) {
	tmp := NewResult("")
	a := newRace(w, tmp)
	a.run()
	r.Count("goroutine start sites", tmp.Units["goroutine start sites"])
	consts := map[*pcell]map[string]bool{}
	for _, l := range a.locked {
		if st, ok := l.acc.ins.(*ssa.Store); ok {
			if consts[l.c] == nil {
				consts[l.c] = map[string]bool{}
			}
			k := "*"
			if c, ok := st.Val.(*ssa.Const); ok {
				k = c.String()
			}
			consts[l.c][k] = true
		}
	}
	for _, l := range a.locked {
		r.Count("writes of workers kept apart by locks or atomics", 1)
		if m := consts[l.c]; len(m) == 1 && !m["*"] {
			continue
		}
		if why := a.orderDep(l); why != "" {
			r.Add("worker-order "+FnName(l.acc.fr.fn)+" "+raceName(l.c), w.Pos(instrPos(l.acc.ins)), "%s %s %s, so the outcome depends on the order in which workers get there", FnName(l.acc.fr.fn), why, raceName(l.c))
		}
	}
	// places claimed from a counter by workers whose results belong to something else
	for fr := range a.group {
		eachInstr(fr.fn, func(ins ssa.Instruction) {
			st, ok := ins.(*ssa.Store)
			if !ok {
				return
			}
			var claim []ssa.Value
			ad := st.Addr
			for d := 0; d < 12 && ad != nil; d++ {
				switch x := ad.(type) {
				case *ssa.FieldAddr:
					ad = x.X
				case *ssa.UnOp:
					ad = x.X
				case *ssa.IndexAddr:
					for v := range backSlice(x.Index) {
						if c, ok := v.(*ssa.Call); ok && isClaim(c) {
							claim = append(claim, c)
						}
					}
					ad = x.X
				default:
					ad = nil
				}
			}
			if len(claim) == 0 {
				return
			}
			vs := backSlice(st.Val)
			if _, ok := st.Val.(*ssa.Const); ok {
				return
			}
			for _, c := range claim {
				if !vs[c] {
					r.Add("worker-order "+FnName(fr.fn)+" claimed place", w.Pos(instrPos(st)), "%s puts a result into a place claimed from a shared counter that the result itself does not depend on, so results end up in the order in which workers get there", FnName(fr.fn))
				}
			}
		})
	}
}

func isClaim(c *ssa.Call) bool {
	n := fullName(c.Common())
	return strings.HasPrefix(n, "sync/atomic.Add") || strings.HasPrefix(n, "(*sync/atomic.") && strings.HasSuffix(n, ").Add")
}

// backSlice: the values a value is computed from within its function.
func backSlice(v ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || out[v] {
			return
		}
		out[v] = true
		if al, ok := v.(*ssa.Alloc); ok {
			for _, rf := range *al.Referrers() {
				switch x := rf.(type) {
				case *ssa.Store:
					if x.Addr == ssa.Value(al) {
						walk(x.Val)
					}
				case *ssa.FieldAddr, *ssa.IndexAddr:
					for _, r2 := range *x.(ssa.Value).Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == x.(ssa.Value) {
							walk(st.Val)
						}
					}
				}
			}
			return
		}
		if ins, ok := v.(ssa.Instruction); ok {
			for _, op := range ins.Operands(nil) {
				if *op != nil {
					walk(*op)
				}
			}
		}
	}
	walk(v)
	return out
}

func isErrLike(t types.Type) bool {
	if isErrorType(t) {
		return true
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return isErrorType(s.Elem())
	}
	return false
}

func hasPool(t types.Type, d int) bool {
	if d > 4 {
		return false
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && n.Obj().Name() == "Pool" {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return hasPool(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPool(u.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Map:
		return hasPool(u.Elem(), d+1)
	}
	return false
}

// orderDep: what makes the outcome of a write depend on when it happens.
func (a *raceAn) orderDep(l lockedWrite) string {
	fr := l.acc.fr
	if a.onceOf(fr.fn) != "" {
		return ""
	}
	switch x := l.acc.ins.(type) {
	case *ssa.Store:
		if isErrLike(x.Val.Type()) {
			return ""
		}
		if commutes(x) {
			return ""
		}
		if b, ok := x.Val.(*ssa.Call); ok {
			if bi, ok := b.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				return "appends to"
			}
		}
		return "sets"
	case *ssa.MapUpdate:
		m := x.Map.Type().Underlying().(*types.Map)
		if isErrLike(m.Elem()) || hasPool(m.Elem(), 0) || owned(a.getSM(fr, x.Key, "")) {
			return ""
		}
		if _, isConst := x.Key.(*ssa.Const); !isConst && backSlice(x.Value)[x.Key] {
			return ""
		}
		return "fills"
	case ssa.CallInstruction:
		n := fullName(x.Common())
		if strings.HasPrefix(n, "sync/atomic.") {
			op := strings.TrimPrefix(n, "sync/atomic.")
			if strings.HasPrefix(op, "Add") || strings.HasPrefix(op, "And") || strings.HasPrefix(op, "Or") {
				return ""
			}
			for _, v := range x.Common().Args[1:] {
				if _, ok := v.(*ssa.Const); !ok {
					return "atomically sets"
				}
			}
			return ""
		}
		return "writes"
	}
	return ""
}

// commutes: an integer sum, product, bit operation, minimum or maximum.
func commutes(st *ssa.Store) bool {
	strip := func(v ssa.Value) ssa.Value {
		for {
			c, ok := v.(*ssa.Convert)
			if !ok {
				return v
			}
			v = c.X
		}
	}
	isLoad := func(v ssa.Value) bool {
		u, ok := strip(v).(*ssa.UnOp)
		return ok && u.Op == token.MUL && valKey(u.X) == valKey(st.Addr)
	}
	if b, ok := st.Val.(*ssa.BinOp); ok && isInt(b.Type()) {
		switch b.Op {
		case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
			if isLoad(b.X) || isLoad(b.Y) {
				return true
			}
		case token.SUB:
			if isLoad(b.X) {
				return true
			}
		}
	}
	if c, ok := st.Val.(*ssa.Call); ok {
		bi, isB := c.Call.Value.(*ssa.Builtin)
		if isB && (bi.Name() == "min" || bi.Name() == "max") {
			for _, v := range c.Call.Args {
				if isLoad(v) {
					return true
				}
			}
		}
	}
	// if v > best { best = v }
	for _, p := range st.Block().Preds {
		ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		c, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		switch c.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if isLoad(c.X) && valKey(strip(c.Y)) == valKey(strip(st.Val)) || isLoad(c.Y) && valKey(strip(c.X)) == valKey(strip(st.Val)) {
				continue
			}
		}
		return false
	}
	return len(st.Block().Preds) > 0
}
