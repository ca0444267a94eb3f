package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// eachInstr visits the instructions of the reachable module functions.
func (w *World) eachInstr(fns []*ssa.Function, fn func(f *ssa.Function, b *ssa.BasicBlock, i int, ins ssa.Instruction)) {
	for _, f := range fns {
		live := liveBlocks(f)
		for _, b := range f.Blocks {
			if !live[b] {
				continue
			}
			for i, ins := range b.Instrs {
				fn(f, b, i, ins)
			}
		}
	}
}

func fullName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return ""
	}
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	return ""
}

// ---- P05: no process-terminating constructs --------------------------------

func terminating(n string) bool {
	switch n {
	case "os.Exit", "runtime.Goexit", "syscall.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln",
		"syscall.Kill", "syscall.Tgkill", "syscall.Exec", "(*os.Process).Kill", "(*os.Process).Signal":
		return true
	}
	if strings.HasPrefix(n, "(*log.Logger).Fatal") || strings.HasPrefix(n, "(*log.Logger).Panic") {
		return true
	}
	if strings.Contains(n, "sirupsen/logrus") {
		i := strings.LastIndex(n, ".")
		m := n[i+1:]
		if strings.HasPrefix(m, "Fatal") || strings.HasPrefix(m, "Panic") || m == "Exit" {
			return true
		}
	}
	return false
}

// panicLevel: a log entry at a level that ends the program.
func panicLevel(n string, c *ssa.CallCommon) bool {
	if !strings.Contains(n, "sirupsen/logrus") {
		return false
	}
	m := n[strings.LastIndex(n, ".")+1:]
	if m != "Log" && m != "Logf" && m != "Logln" {
		return false
	}
	var bad func(v ssa.Value, d int) bool
	bad = func(v ssa.Value, d int) bool {
		switch v := v.(type) {
		case *ssa.Const:
			return v.Value != nil && v.Value.Kind() == constant.Int && v.Uint64() <= 1
		case *ssa.Phi:
			for _, e := range v.Edges {
				if d < 8 && bad(e, d+1) {
					return true
				}
			}
		}
		return false
	}
	for _, a := range c.Args {
		if nt := namedOf(a.Type()); nt != nil && nt.Obj().Name() == "Level" {
			return bad(a, 0)
		}
	}
	return false
}

// mustCall: a Must* function of another package applied to something that is
// not known in advance.
func mustCall(n string, c *ssa.CallCommon) bool {
	if strings.Contains(n, modPath) || !strings.HasPrefix(n[strings.LastIndex(n, ".")+1:], "Must") {
		return false
	}
	for _, a := range c.Args {
		if _, k := a.(*ssa.Const); !k {
			return true
		}
	}
	return false
}

func init() {
	register("P05", "other", "Reachability over the VTA call graph: no explicit panic, no process exit and no unchecked interface type assertion is reachable from the exported decode/export API.", func(w *World, r *Result, th bool) {
		fns := w.ModFns()
		r.Count("functions reachable from the API", len(fns))
		r.Minimum["functions reachable from the API"] = 200
		mi := w.madeInterfaces()
		w.eachInstr(fns, func(f *ssa.Function, b *ssa.BasicBlock, i int, ins ssa.Instruction) {
			switch x := ins.(type) {
			case *ssa.Panic:
				if x.Pos().IsValid() {
					r.Add("panic in "+FnName(f), w.Pos(x.Pos()), "explicit panic reachable from the API in %s", FnName(f))
				}
			case *ssa.TypeAssert:
				r.Count("type assertions inspected", 1)
				if !x.CommaOk && x.Pos().IsValid() && !w.assertHolds(x, mi) {
					r.Add("assert in "+FnName(f)+" to "+x.AssertedType.String(), w.Pos(x.Pos()), "unchecked type assertion to %s panics for any other dynamic type", x.AssertedType)
				}
			case ssa.CallInstruction:
				r.Count("call sites inspected", 1)
				names := []string{}
				for _, g := range w.Callees(x) {
					names = append(names, g.String())
				}
				if len(names) == 0 && x.Common().IsInvoke() {
					if n := namedOf(x.Common().Value.Type()); n != nil && n.Obj().Pkg() != nil {
						names = append(names, n.Obj().Pkg().Path()+"."+x.Common().Method.Name())
					}
				}
				for _, n := range names {
					if terminating(n) || panicLevel(n, x.Common()) {
						r.Add("terminates in "+FnName(f)+" via "+n, w.Pos(instrPos(ins)), "%s terminates the calling program", n)
					} else if mustCall(n, x.Common()) {
						r.Add("must in "+FnName(f)+" via "+n, w.Pos(instrPos(ins)), "%s panics when its argument, which is not a constant, is invalid", n)
					}
				}
			}
		})
		r.Rules = []string{"no ssa.Panic from a panic() call, no os.Exit/log.Fatal*/logrus.Fatal*/Panic*, no x.(T) without ok in any function reachable from the API"}
		r.Assume = []string{"implicit run-time panics (index out of range, nil dereference) are outside this rule"}
	})

	register("P06", "other", "Dataflow over SSA returns: no API-reachable function with an error result can return a nil pointer/interface/map result together with a nil error.", checkNilNil)
	register("P04", "other", "Call-site rule over the resolved program: stream bytes are only consumed through complete reads.", checkChunking)
}

// assertHolds: the unchecked assertion cannot fail for a reason the static
// types do not already exclude.
func (w *World) assertHolds(x *ssa.TypeAssert, mi []types.Type) bool {
	if types.Identical(x.AssertedType, x.X.Type()) {
		return true // nil check of a method value
	}
	if m, ok := x.X.(*ssa.MakeInterface); ok {
		return types.Identical(m.X.Type(), x.AssertedType)
	}
	if call, ok := x.X.(*ssa.Call); ok && fullName(call.Common()) == "(*sync.Pool).Get" {
		// the pool hands out what its New function and the Put calls store:
		// everything stored in pools of this package has to be of this type
		return w.poolHolds(x.AssertedType)
	}
	it, ok := x.X.Type().Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return guardedByTypeSwitch(x)
	}
	// closed world: every value ever converted to this interface
	n := 0
	for _, t := range mi {
		if types.Implements(t, it) {
			n++
			if !typeSatisfies(t, x.AssertedType) {
				return guardedByTypeSwitch(x)
			}
		}
	}
	return n > 0 || guardedByTypeSwitch(x)
}

func typeSatisfies(t, asserted types.Type) bool {
	if it, ok := asserted.Underlying().(*types.Interface); ok {
		return types.Implements(t, it)
	}
	return types.Identical(t, asserted)
}

// poolHolds: some sync.Pool put/New stores the type. Pools are generic over
// the element type (instances are analysed separately), so a pool of T only
// meets values built in the same instance.
func (w *World) poolHolds(t types.Type) bool {
	ok := false
	w.eachInstr(w.ModFns(), func(f *ssa.Function, b *ssa.BasicBlock, i int, ins ssa.Instruction) {
		if c, is := ins.(ssa.CallInstruction); is && fullName(c.Common()) == "(*sync.Pool).Put" {
			if m, is := c.Common().Args[1].(*ssa.MakeInterface); is && types.Identical(m.X.Type(), t) {
				ok = true
			}
		}
	})
	return ok
}

// liveBlocks walks the control-flow graph without the edges a generic
// instance can never take (type tests on a value of known dynamic type,
// constant conditions).
func liveBlocks(f *ssa.Function) map[*ssa.BasicBlock]bool {
	live := map[*ssa.BasicBlock]bool{}
	if len(f.Blocks) == 0 {
		return live
	}
	todo := []*ssa.BasicBlock{f.Blocks[0]}
	if f.Recover != nil {
		todo = append(todo, f.Recover)
	}
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if live[b] {
			continue
		}
		live[b] = true
		if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if v, known := constCond(ifi.Cond); known {
				if v {
					todo = append(todo, b.Succs[0])
				} else {
					todo = append(todo, b.Succs[1])
				}
				continue
			}
		}
		todo = append(todo, b.Succs...)
	}
	return live
}

func constCond(v ssa.Value) (val, known bool) {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Bool {
			return constant.BoolVal(v.Value), true
		}
	case *ssa.UnOp:
		if v.Op == token.NOT {
			x, k := constCond(v.X)
			return !x, k
		}
	case *ssa.Extract:
		if ta, ok := v.Tuple.(*ssa.TypeAssert); ok && v.Index == 1 {
			if m, ok := ta.X.(*ssa.MakeInterface); ok {
				return typeSatisfies(m.X.Type(), ta.AssertedType), true
			}
		}
	}
	return false, false
}

// guardedByTypeSwitch: the same operand passed a comma-ok assertion to the
// same type on the way here.
func guardedByTypeSwitch(x *ssa.TypeAssert) bool {
	for d := x.Block(); d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			return false
		}
		ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] != d || len(d.Preds) != 1 {
			continue
		}
		if e, ok := ifi.Cond.(*ssa.Extract); ok && e.Index == 1 {
			if ta, ok := e.Tuple.(*ssa.TypeAssert); ok && ta.X == x.X && types.Identical(ta.AssertedType, x.AssertedType) {
				return true
			}
		}
	}
	return false
}

// madeInterfaces lists the concrete types converted to interfaces anywhere in
// the reachable program.
func (w *World) madeInterfaces() []types.Type {
	var out []types.Type
	w.eachInstr(w.ModFns(), func(f *ssa.Function, b *ssa.BasicBlock, i int, ins ssa.Instruction) {
		if m, ok := ins.(*ssa.MakeInterface); ok {
			for _, t := range out {
				if types.Identical(t, m.X.Type()) {
					return
				}
			}
			out = append(out, m.X.Type())
		}
	})
	return out
}

// ---- P04 -------------------------------------------------------------------

func isReadSig(sig *types.Signature) bool {
	if sig.Params().Len() != 1 || sig.Results().Len() != 2 {
		return false
	}
	sl, ok := sig.Params().At(0).Type().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	if !ok || b.Kind() != types.Uint8 {
		return false
	}
	r0, ok := sig.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && r0.Kind() == types.Int && isErrorType(sig.Results().At(1).Type())
}

func checkChunking(w *World, r *Result, th bool) {
	fns := w.ModFns()
	w.eachInstr(fns, func(f *ssa.Function, b *ssa.BasicBlock, i int, ins ssa.Instruction) {
		c, ok := ins.(ssa.CallInstruction)
		if !ok {
			return
		}
		com := c.Common()
		name := ""
		if com.IsInvoke() {
			name = com.Method.Name()
		} else if sf := com.StaticCallee(); sf != nil {
			name = sf.Name()
			if sf.Signature.Recv() == nil {
				name = sf.String()
			}
		}
		var sig *types.Signature
		if com.IsInvoke() {
			sig = com.Method.Type().(*types.Signature)
		} else {
			sig = com.Signature()
			if sig.Recv() != nil {
				sig = types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
			}
		}
		switch {
		case name == "Read" && isReadSig(sig):
			r.Count("direct Read calls", 1)
			buf := com.Args[len(com.Args)-1]
			if call, ok := ins.(*ssa.Call); !ok || !handRolledFullRead(call, buf) {
				r.Add("short-read in "+FnName(f), w.Pos(instrPos(ins)), "%s calls Read once: a source that returns fewer bytes than asked for changes the result", FnName(f))
			}
		case name == "io.ReadAtLeast":
			r.Count("io.ReadAtLeast calls", 1)
			if !wholeBuffer(com.Args[2], com.Args[1]) {
				r.Add("short-read in "+FnName(f), w.Pos(instrPos(ins)), "io.ReadAtLeast in %s accepts fewer bytes than the buffer holds", FnName(f))
			}
		case name == "io.ReadFull", name == "io.ReadAll", name == "io.CopyN":
			r.Count("complete-read calls", 1)
			r.Sample(w.Pos(instrPos(ins)) + ": " + name + " in " + FnName(f))
		}
	})
	a := analyseErrors(w)
	for _, x := range a.reps {
		switch x.site.name {
		case "io.ReadFull", "io.ReadAll", "io.CopyN", "io.ReadAtLeast":
			r.Add("short-read-ignored in "+FnName(x.site.fn), w.Pos(instrPos(x.site.instr.(ssa.Instruction))), "the failure of %s (short input) is lost: %s %s", x.site.name, FnName(x.loss.fn), x.loss.why)
		}
	}
	r.Minimum["complete-read calls"] = 3
	r.Count("functions analysed", len(fns))
	r.Rules = []string{"every read of the input is io.ReadFull/io.ReadAll/io.CopyN (or a loop that continues at the returned count until the buffer is full) and its short-input error is propagated; a single Read call is a violation"}
}

func isLenOf(n, s ssa.Value) bool {
	c, ok := n.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && c.Call.Args[0] == s
}

// handRolledFullRead: the Read sits in a loop, its buffer advances by the count
// it returned, and the loop is only left when enough has been read or the read
// failed.
func handRolledFullRead(c *ssa.Call, buf ssa.Value) bool {
	scc := sccOf(c.Parent())
	id, ok := scc[c.Block()]
	if !ok {
		return false
	}
	var cnt, errv ssa.Value
	for _, ref := range *c.Referrers() {
		if e, ok := ref.(*ssa.Extract); ok {
			if e.Index == 0 {
				cnt = e
			} else {
				errv = e
			}
		}
	}
	if cnt == nil {
		return false
	}
	// dep: computed from goal; acc reports that an accumulation is involved
	var dep func(v, goal ssa.Value, seen map[ssa.Value]bool) (hit, acc bool)
	dep = func(v, goal ssa.Value, seen map[ssa.Value]bool) (hit, acc bool) {
		if v == goal {
			return true, false
		}
		if v == nil || seen[v] {
			return false, false
		}
		seen[v] = true
		any := func(vs ...ssa.Value) {
			for _, x := range vs {
				h, a := dep(x, goal, seen)
				hit, acc = hit || h, acc || h && a
			}
		}
		switch v := v.(type) {
		case *ssa.Phi:
			any(v.Edges...)
			acc = acc || hit
		case *ssa.BinOp:
			any(v.X, v.Y)
			if hit && (v.Op == token.ADD || v.Op == token.SUB) {
				acc = true
			}
		case *ssa.Convert:
			any(v.X)
		case *ssa.ChangeInterface:
			any(v.X)
		case *ssa.Slice:
			any(v.X, v.Low)
			acc = acc || hit
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				any(v.Call.Args[0])
			} else if goal == errv {
				any(v.Call.Args...)
			}
		case *ssa.UnOp:
			if v.Op == token.NOT {
				any(v.X)
			}
			if v.Op == token.MUL {
				if al, ok := v.X.(*ssa.Alloc); ok {
					for _, ref := range *al.Referrers() {
						if s, ok := ref.(*ssa.Store); ok && s.Addr == al {
							any(s.Val)
						}
					}
					acc = acc || hit
				}
			}
		}
		return
	}
	adv := false
	var chain func(v ssa.Value, seen map[ssa.Value]bool)
	chain = func(v ssa.Value, seen map[ssa.Value]bool) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Slice:
			if x.Low != nil {
				if h, _ := dep(x.Low, cnt, map[ssa.Value]bool{}); h {
					adv = true
				}
			}
			chain(x.X, seen)
		case *ssa.Phi:
			for _, e := range x.Edges {
				chain(e, seen)
			}
		}
	}
	chain(buf, map[ssa.Value]bool{})
	if !adv {
		return false
	}
	for b, i := range scc {
		if i != id {
			continue
		}
		for _, s := range b.Succs {
			if scc[s] == id {
				continue
			}
			ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				return false
			}
			if _, acc := dep(ifi.Cond, cnt, map[ssa.Value]bool{}); acc {
				continue
			}
			if errv != nil {
				if h, _ := dep(ifi.Cond, errv, map[ssa.Value]bool{}); h {
					continue
				}
			}
			// giving up with an error
			if rt, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok {
				bad := true
				for _, v := range rt.Results {
					if isErrorType(v.Type()) && !isNilConst(v) {
						if _, isPhi := v.(*ssa.Phi); !isPhi {
							bad = false
						}
					}
				}
				if !bad {
					continue
				}
			}
			return false
		}
	}
	return true
}

// wholeBuffer: n is the length of the buffer buf.
func wholeBuffer(n, buf ssa.Value) bool {
	if isLenOf(stripConv(n), buf) {
		return true
	}
	sl, ok := buf.(*ssa.Slice)
	if !ok || sl.High == nil || sl.Low != nil && !isConstInt(sl.Low, 0) {
		return false
	}
	return stripConv(sl.High) == stripConv(n)
}

// ---- P06 -------------------------------------------------------------------

func parseOnlyField(w *World) *types.Var {
	n := w.NamedType("options", "JXLOptions")
	if n == nil {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "ParseOnly" {
			return st.Field(i)
		}
	}
	return nil
}

func fieldVarOf(v ssa.Value) *types.Var {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return derefStruct(v.X.Type()).Field(v.Field)
	case *ssa.Field:
		return derefStruct(v.X.Type()).Field(v.Field)
	}
	return nil
}

func derefStruct(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}
