package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// crash decides whether a run-time panic can leave a function.
type crash struct {
	w       *World
	n       *nwalk
	memo    map[*ssa.Function]ssa.Instruction // what may panic unguarded
	busy    map[*ssa.Function]bool
	handled map[*ssa.Defer]string // "" = a valid guard, else what is wrong
	guards  int
}

// escape returns an instruction of f (or of something f calls) whose panic
// leaves f, nil when there is none.
func (c *crash) escape(f *ssa.Function) ssa.Instruction {
	if len(f.Blocks) == 0 || c.busy[f] {
		return nil
	}
	if v, ok := c.memo[f]; ok {
		return v
	}
	c.busy[f] = true
	defer delete(c.busy, f)
	var guards []*ssa.Defer
	eachInstr(f, func(ins ssa.Instruction) {
		if d, ok := ins.(*ssa.Defer); ok && c.guard(d) == "" {
			guards = append(guards, d)
		}
	})
	var out ssa.Instruction
	eachInstr(f, func(ins ssa.Instruction) {
		if out != nil {
			return
		}
		for _, g := range guards {
			if g != ins && domInstr(g, ins) {
				return
			}
		}
		if c.mayPanic(ins) {
			out = ins
		}
	})
	c.memo[f] = out
	return out
}

func domInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, x := range a.Block().Instrs {
			if x == a {
				return true
			}
			if x == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// safePtr: dereferencing v does not panic (addresses of variables; parameters
// are the caller's business).
func safePtr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.Global, *ssa.FreeVar, *ssa.Parameter:
		return true
	case *ssa.FieldAddr, *ssa.IndexAddr:
		return true // checked where it is formed
	case *ssa.ChangeType:
		return safePtr(x.X)
	case *ssa.UnOp:
		// a captured or spilled parameter
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.FreeVar:
				if al, ok := bindingOf(a).(*ssa.Alloc); ok {
					return holdsParam(al)
				}
			case *ssa.Alloc:
				return holdsParam(a)
			}
		}
	}
	return false
}

func holdsParam(a *ssa.Alloc) bool {
	v := onlyStore(a)
	if v == nil {
		return false
	}
	switch v.(type) {
	case *ssa.Parameter, *ssa.Alloc:
		return true
	}
	return false
}

var quietPkgs = map[string]bool{"errors": true, "fmt": true, "math": true, "math/bits": true, "sync": true, "sync/atomic": true, "strconv": true, "runtime": true, "github.com/sirupsen/logrus": true}

func (c *crash) mayPanic(ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.QUO, token.REM:
			if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if k, ok := x.Y.(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) != 0 {
					return false
				}
				return c.w.lowerBoundAt(x.Y, x.Block(), 0) < 1
			}
		case token.SHL, token.SHR:
			if b, ok := x.Y.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned == 0 {
				_, isConst := x.Y.(*ssa.Const)
				return !isConst && c.w.lowerBoundAt(x.Y, x.Block(), 0) < 0
			}
		}
		return false
	case *ssa.UnOp:
		return x.Op == token.MUL && !safePtr(x.X)
	case *ssa.Store:
		return !safePtr(x.Addr)
	case *ssa.FieldAddr:
		return !safePtr(x.X)
	case *ssa.IndexAddr:
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				if k, ok := x.Index.(*ssa.Const); ok && k.Int64() < a.Len() {
					return !safePtr(x.X)
				}
			}
		}
		return true
	case *ssa.Index, *ssa.MakeSlice, *ssa.SliceToArrayPointer, *ssa.Panic:
		if m, ok := ins.(*ssa.MakeSlice); ok {
			if _, ok := m.Len.(*ssa.Const); ok {
				return false
			}
		}
		return true
	case *ssa.Lookup:
		_, ok := x.X.Type().Underlying().(*types.Map)
		return !ok
	case *ssa.Slice:
		if x.Low == nil && x.High == nil && x.Max == nil {
			return false
		}
		return true
	case *ssa.TypeAssert:
		return !x.CommaOk
	case *ssa.Call:
		return c.callMayPanic(x)
	}
	return false
}

func (c *crash) callMayPanic(x ssa.CallInstruction) bool {
	cc := x.Common()
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return false
	}
	gs := c.w.Callees(x)
	if len(gs) == 0 {
		if cc.IsInvoke() && cc.Method.Name() == "Error" {
			return false
		}
		return true
	}
	for _, g := range gs {
		if inModule(g) || g.Parent() != nil && inModule(g.Parent()) {
			if len(g.Blocks) > 0 && c.escape(g) != nil {
				return true
			}
			continue
		}
		if g.Pkg == nil || !quietPkgs[g.Pkg.Pkg.Path()] {
			if g.Name() == "Error" {
				continue
			}
			return true
		}
	}
	return false
}

// guard: "" when the deferred call recovers every panic and reports it, "-" when
// it does not recover at all, otherwise what is wrong with it.
func (c *crash) guard(d *ssa.Defer) string {
	if v, ok := c.handled[d]; ok {
		return v
	}
	res := "-"
	for _, h := range c.w.Callees(d) {
		if !inModule(h) && (h.Parent() == nil || !inModule(h.Parent())) || len(h.Blocks) == 0 {
			return "-"
		}
		r := c.handler(h, d)
		if r == "-" {
			res = r
			break
		}
		if r != "" || res == "-" {
			res = r
		}
	}
	c.handled[d] = res
	if res == "" {
		c.guards++
	}
	return res
}

func (c *crash) handler(h *ssa.Function, d *ssa.Defer) string {
	var rec *ssa.Call
	eachInstr(h, func(ins ssa.Instruction) {
		if x, ok := ins.(*ssa.Call); ok && isRecover(x) {
			rec = x
		}
	})
	if rec == nil {
		return "-"
	}
	// every way through the handler recovers
	for _, b := range h.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !rec.Block().Dominates(b) {
			return "recovers only under a condition"
		}
	}
	// with a panic in hand every way reports it
	bad := ""
	type key struct {
		b  *ssa.BasicBlock
		ok bool
	}
	seen := map[key]bool{}
	var walk func(b *ssa.BasicBlock, i int, done bool)
	walk = func(b *ssa.BasicBlock, i int, done bool) {
		if i == 0 {
			if seen[key{b, done}] {
				return
			}
			seen[key{b, done}] = true
		}
		for ; i < len(b.Instrs); i++ {
			ins := b.Instrs[i]
			if c.reports(ins, d, 0) {
				done = true
			}
			switch x := ins.(type) {
			case *ssa.Panic:
				if bad == "" {
					bad = "panics again"
				}
				return
			case *ssa.Return:
				if !done && bad == "" {
					bad = "drops the panic it recovers"
				}
				return
			case *ssa.If:
				if bo, ok := x.Cond.(*ssa.BinOp); ok && (bo.X == rec && isNilConst(bo.Y) || bo.Y == rec && isNilConst(bo.X)) {
					switch bo.Op {
					case token.NEQ:
						walk(b.Succs[0], 0, done)
						return
					case token.EQL:
						walk(b.Succs[1], 0, done)
						return
					}
				}
			}
		}
		for _, s := range b.Succs {
			walk(s, 0, done)
		}
	}
	for i, ins := range rec.Block().Instrs {
		if ins == rec {
			walk(rec.Block(), i+1, false)
		}
	}
	return bad
}

// reports: ins hands an error to the caller of the function that deferred d, or
// to whoever waits for it.
func (c *crash) reports(ins ssa.Instruction, d *ssa.Defer, depth int) bool {
	switch x := ins.(type) {
	case *ssa.Send:
		return isErrorType(x.X.Type()) && c.n.exists(x.X, x.Block(), 0) || c.carriesError(x.X)
	case *ssa.Store:
		if !isErrorType(x.Val.Type()) || !c.n.exists(x.Val, x.Block(), 0) {
			return false
		}
		switch a := x.Addr.(type) {
		case *ssa.FreeVar:
			al, ok := bindingOf(a).(*ssa.Alloc)
			if !ok {
				return true
			}
			return c.returnedOrShared(al, d)
		case *ssa.Parameter:
			i := paramIndex(a)
			if i >= 0 && i < len(d.Call.Args) {
				if al, ok := d.Call.Args[i].(*ssa.Alloc); ok {
					return c.returnedOrShared(al, d)
				}
				return true
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			return true
		}
	case *ssa.Call:
		if depth > 3 {
			return false
		}
		for _, g := range c.w.Callees(x) {
			if !inModule(g) && (g.Parent() == nil || !inModule(g.Parent())) || len(g.Blocks) == 0 {
				continue
			}
			hit := false
			eachInstr(g, func(i2 ssa.Instruction) {
				switch y := i2.(type) {
				case *ssa.Send:
					hit = hit || isErrorType(y.X.Type())
				case *ssa.Store:
					if isErrorType(y.Val.Type()) {
						switch y.Addr.(type) {
						case *ssa.FreeVar, *ssa.FieldAddr, *ssa.Parameter, *ssa.IndexAddr:
							hit = true
						}
					}
				}
			})
			if hit {
				return true
			}
		}
	}
	return false
}

// carriesError: a struct (or pointer to one) with an error field is sent.
func (c *crash) carriesError(v ssa.Value) bool {
	t := v.Type().Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	s, ok := t.(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if isErrorType(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

// returnedOrShared: the variable is a named result of the function that defers
// d, or belongs to a function around it.
func (c *crash) returnedOrShared(al *ssa.Alloc, d *ssa.Defer) bool {
	if al.Parent() != d.Parent() {
		return true
	}
	for _, b := range al.Parent().Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, r := range ret.Results {
				if u, ok := r.(*ssa.UnOp); ok && u.X == al {
					return true
				}
			}
		}
	}
	return false
}

// entryPoints: the operations of the public API that decode, query a header or
// export.
func (c *crash) entryPoints() []*ssa.Function {
	var out []*ssa.Function
	dec := c.w.NamedType("core", "JXLDecoder")
	exp, _ := c.w.exporters()
	isExp := map[*ssa.Function]bool{}
	for _, f := range exp {
		isExp[f] = true
	}
	for _, f := range c.w.roots {
		if len(f.Blocks) == 0 || isWrapper(f) || errResultIdx(f.Signature) < 0 {
			continue
		}
		switch {
		case pkgOf(f) == modPath:
			out = append(out, f)
		case dec != nil && len(f.Params) > 0 && namedOf(f.Params[0].Type()) == dec:
			out = append(out, f)
		case isExp[f]:
			io := false
			for i := 0; i < f.Signature.Params().Len(); i++ {
				if f.Signature.Params().At(i).Type().String() == "io.Writer" {
					io = true
				}
			}
			for i := 0; i < f.Signature.Results().Len(); i++ {
				if f.Signature.Results().At(i).Type().String() == "image.Image" {
					io = true
				}
			}
			if io {
				out = append(out, f)
			}
		}
	}
	return out
}

func checkCrash(w *World, r *Result, th bool) {
	c := &crash{w: w, n: newNwalk(w), memo: map[*ssa.Function]ssa.Instruction{}, busy: map[*ssa.Function]bool{}, handled: map[*ssa.Defer]string{}}
	explain := func(f *ssa.Function) string {
		why := "no deferred recover is in force"
		eachInstr(f, func(ins ssa.Instruction) {
			if d, ok := ins.(*ssa.Defer); ok {
				switch g := c.guard(d); g {
				case "-":
				case "":
					why = "the deferred recover is installed too late"
				default:
					why = "its deferred recover " + g
				}
			}
		})
		return why
	}
	for _, f := range c.entryPoints() {
		r.Count("public operations", 1)
		r.Sample(FnName(f))
		if ins := c.escape(f); ins != nil {
			r.Add("panic-escapes "+FnName(f), w.Pos(instrPos(ins)), "a run-time panic while %s runs reaches the caller: %s", FnName(f), explain(f))
		}
	}
	r.Minimum["public operations"] = 6
	fns := w.ModFns()
	for _, f := range fns {
		eachInstr(f, func(ins ssa.Instruction) {
			sp := w.spawnOf(ins)
			if sp == nil {
				return
			}
			r.Count("goroutine start sites", 1)
			for _, g := range sp.bodies {
				if len(g.Blocks) == 0 {
					continue
				}
				r.Count("goroutine bodies", 1)
				if at := c.escape(g); at != nil {
					r.Add("worker-panics "+FnName(g), w.Pos(instrPos(at)), "a run-time panic in the goroutine started in %s kills the process: %s", FnName(f), explain(g))
				}
				c.signOff(g, r)
			}
			c.untilJoin(f, ins, r)
		})
		c.locks(f, r)
	}
	r.Units["deferred recover handlers"] = c.guards
	r.Rules = []string{
		"every public decode, query and export operation, and every goroutine, defers a recover before anything that can panic (or only calls functions that do)",
		"a handler that holds a panic reports it on every path: named error result, captured error variable or channel",
		"between starting workers and joining them, the owner executes nothing that can panic",
		"a worker signs off (WaitGroup, slot) in a deferred call, or before anything that can panic; no call that can panic is made with a lock held that is not released by a deferred call",
	}
	r.Assume = []string{"exhaustion of memory or stack is not a recoverable panic and outside this rule"}
}

// signOff: sign-offs of a worker that a panic would skip.
func (c *crash) signOff(g *ssa.Function, r *Result) {
	eachInstr(g, func(ins ssa.Instruction) {
		what := ""
		switch x := ins.(type) {
		case *ssa.Call:
			switch fullName(x.Common()) {
			case "(*sync.WaitGroup).Done", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
				what = fullName(x.Common())
				if strings.Contains(what, "Mutex") {
					return // see locks
				}
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW && len(*x.Referrers()) == 0 && isSlotType(x.X.Type()) {
				what = "release of a slot"
			}
		}
		if what == "" {
			return
		}
		// something that can panic comes before it
		var at ssa.Instruction
		eachInstr(g, func(p ssa.Instruction) {
			if at == nil && p != ins && precedes(p, ins) && c.mayPanic(p) {
				at = p
			}
		})
		if at != nil {
			r.Add("sign-off-skipped "+FnName(g), c.w.Pos(instrPos(ins)), "%s in %s is skipped when the worker panics at %s: whoever waits for it waits forever", what, FnName(g), c.w.Pos(instrPos(at)))
		}
	})
}

func isSlotType(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	if s, ok := ch.Elem().Underlying().(*types.Struct); ok {
		return s.NumFields() == 0
	}
	b, ok := ch.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// precedes: p can execute before ins.
func precedes(p, ins ssa.Instruction) bool {
	if p.Block() == ins.Block() && domInstr(p, ins) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == ins.Block() {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(p.Block())
}

// untilJoin: what the owner does between starting a worker and joining it.
func (c *crash) untilJoin(f *ssa.Function, site ssa.Instruction, r *Result) {
	joined := false
	eachInstr(f, func(ins ssa.Instruction) {
		if d, ok := ins.(*ssa.Defer); ok && c.waits(d) && domInstr(d, site) {
			joined = true // joined on panics, too
		}
	})
	if joined {
		return
	}
	hasJoin := false
	eachInstr(f, func(ins ssa.Instruction) {
		if x, ok := ins.(ssa.CallInstruction); ok && c.waits(x) {
			hasJoin = true
		}
	})
	if !hasJoin {
		return
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs); i++ {
			ins := b.Instrs[i]
			if x, ok := ins.(*ssa.Call); ok {
				if c.waits(x) {
					return
				}
				if _, b := x.Call.Value.(*ssa.Builtin); !b && c.callMayPanic(x) {
					r.Add("workers-left-behind "+FnName(f), c.w.Pos(instrPos(x)), "%s calls something that can panic between starting workers and joining them: they would still run when the operation has returned", FnName(f))
					return
				}
			}
			if x, ok := ins.(*ssa.TypeAssert); ok && !x.CommaOk {
				r.Add("workers-left-behind "+FnName(f), c.w.Pos(instrPos(x)), "%s can panic between starting workers and joining them", FnName(f))
				return
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	for i, ins := range site.Block().Instrs {
		if ins == site {
			walk(site.Block(), i+1)
		}
	}
}

// waits: the call joins workers.
func (c *crash) waits(x ssa.CallInstruction) bool {
	if fullName(x.Common()) == "(*sync.WaitGroup).Wait" {
		return true
	}
	for _, g := range c.w.Callees(x) {
		if !inModule(g) && (g.Parent() == nil || !inModule(g.Parent())) {
			continue
		}
		hit := false
		eachInstr(g, func(ins ssa.Instruction) {
			if y, ok := ins.(ssa.CallInstruction); ok && fullName(y.Common()) == "(*sync.WaitGroup).Wait" {
				hit = true
			}
		})
		if hit {
			return true
		}
	}
	return false
}

// locks: calls that can panic while a lock is held that only a later statement
// releases.
func (c *crash) locks(f *ssa.Function, r *Result) {
	eachInstr(f, func(ins ssa.Instruction) {
		x, ok := ins.(*ssa.Call)
		if !ok {
			return
		}
		unlock := ""
		switch fullName(x.Common()) {
		case "(*sync.Mutex).Lock":
			unlock = "(*sync.Mutex).Unlock"
		case "(*sync.RWMutex).Lock":
			unlock = "(*sync.RWMutex).Unlock"
		case "(*sync.RWMutex).RLock":
			unlock = "(*sync.RWMutex).RUnlock"
		default:
			return
		}
		r.Count("locks taken", 1)
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock, i int)
		walk = func(b *ssa.BasicBlock, i int) {
			for ; i < len(b.Instrs); i++ {
				if ci, ok := b.Instrs[i].(ssa.CallInstruction); ok {
					if fullName(ci.Common()) == unlock || c.unlocks(ci, unlock) {
						return // released here, or by a deferred call from here on
					}
					if y, ok := ci.(*ssa.Call); ok && c.callMayPanic(y) {
						if _, b := y.Call.Value.(*ssa.Builtin); !b {
							r.Add("lock-kept "+FnName(f), c.w.Pos(instrPos(y)), "%s calls something that can panic with a lock held; the lock is not released by a deferred call, so it would stay locked", FnName(f))
							return
						}
					}
				}
			}
			for _, s := range b.Succs {
				if !seen[s] {
					seen[s] = true
					walk(s, 0)
				}
			}
		}
		for i, y := range x.Block().Instrs {
			if y == ins {
				walk(x.Block(), i+1)
			}
		}
	})
}

func (c *crash) unlocks(d ssa.CallInstruction, name string) bool {
	if _, ok := d.(*ssa.Defer); !ok {
		return false
	}
	hit := false
	for _, g := range c.w.Callees(d) {
		if !inModule(g) && (g.Parent() == nil || !inModule(g.Parent())) {
			continue
		}
		eachInstr(g, func(ins ssa.Instruction) {
			if y, ok := ins.(ssa.CallInstruction); ok && fullName(y.Common()) == name {
				hit = true
			}
		})
	}
	return hit
}

func init() {
	register("P15", "other", "Interprocedural analysis of panic edges over SSA: every public operation and every goroutine recovers run-time panics and reports them, leaving no lock, slot or worker behind.", checkCrash)
}
