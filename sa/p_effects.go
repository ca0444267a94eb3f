package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// calleeName: qualified name of an external function a call may run.
func (w *World) calleeNames(c ssa.CallInstruction) []string {
	com := c.Common()
	if com.IsInvoke() {
		return nil // the receiver was supplied or built elsewhere
	}
	var out []string
	for _, f := range w.Callees(c) {
		if !inModule(f) {
			n := f.String()
			if o := f.Origin(); o != nil {
				n = o.String()
			}
			out = append(out, n)
		}
	}
	return out
}

// funcRefs: external functions whose value is taken (not called) in an instruction.
func funcRefs(ins ssa.Instruction) []*ssa.Function {
	var out []*ssa.Function
	var callee ssa.Value
	if c, ok := ins.(ssa.CallInstruction); ok {
		callee = c.Common().Value
	}
	for _, op := range ins.Operands(nil) {
		if f, ok := (*op).(*ssa.Function); ok && ssa.Value(f) != callee && !inModule(f) {
			out = append(out, f)
		}
	}
	return out
}

func namePkg(n string) string {
	n = strings.TrimPrefix(n, "(")
	n = strings.TrimPrefix(n, "*")
	i := strings.LastIndex(n, "/")
	j := strings.Index(n[i+1:], ".")
	if j < 0 {
		return n
	}
	return n[:i+1+j]
}

func constArg(c ssa.CallInstruction, i int) (int64, bool) {
	a := c.Common().Args
	if i >= len(a) {
		return 0, false
	}
	k, ok := a[i].(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return 0, false
	}
	return k.Int64(), true
}

// sideEffect classifies calls that act on anything but the values handed in.
func sideEffect(n string, c ssa.CallInstruction) string {
	p := namePkg(n)
	switch {
	case strings.HasPrefix(n, "fmt.Print"), strings.HasPrefix(n, "fmt.Scan"):
		return "uses the standard streams"
	case p == "os":
		switch n {
		case "os.IsNotExist", "os.IsExist", "os.IsPermission", "os.IsTimeout":
			return ""
		}
		return "uses the operating system (files, environment, process)"
	case strings.HasPrefix(p, "os/"), p == "syscall", p == "plugin", strings.HasPrefix(p, "golang.org/x/sys"), p == "embed":
		return "uses the operating system"
	case p == "net", strings.HasPrefix(p, "net/"):
		return "uses the network"
	case p == "io/ioutil":
		switch n {
		case "io/ioutil.ReadAll", "io/ioutil.NopCloser":
			return ""
		}
		return "uses the file system"
	case p == "path/filepath":
		switch n {
		case "path/filepath.Glob", "path/filepath.Walk", "path/filepath.WalkDir", "path/filepath.Abs", "path/filepath.EvalSymlinks":
			return "uses the file system"
		}
	case p == "log":
		return "writes to the standard logger"
	case p == "log/slog":
		return "writes to the standard logger"
	case p == "runtime/debug", p == "runtime/pprof", p == "runtime/trace", p == "expvar", p == "flag", p == "testing":
		return "changes process-wide state"
	case n == "runtime.GOMAXPROCS":
		if v, ok := constArg(c, 0); ok && v < 1 {
			return ""
		}
		return "changes the number of processors the program uses"
	case n == "runtime.GC", n == "runtime.LockOSThread", n == "runtime.SetFinalizer", n == "runtime.SetBlockProfileRate", n == "runtime.SetMutexProfileFraction":
		return "changes process-wide state"
	case strings.Contains(p, "sirupsen/logrus"):
		m := n[strings.LastIndex(n, ".")+1:]
		switch {
		case strings.HasPrefix(m, "Set"), strings.HasPrefix(m, "Add"), strings.HasPrefix(m, "Replace"), strings.HasPrefix(m, "Register"):
			return "reconfigures the shared logger"
		}
	case n == "image.RegisterFormat":
		return "registers an image format"
	}
	return ""
}

// nondeterministic sources.
func nondetSource(n string, c ssa.CallInstruction) string {
	p := namePkg(n)
	switch {
	case p == "math/rand", p == "math/rand/v2", p == "crypto/rand", p == "hash/maphash":
		return "random numbers"
	case p == "time":
		switch n {
		case "time.Now", "time.Since", "time.Until", "time.After", "time.Tick", "time.NewTimer", "time.NewTicker", "time.AfterFunc", "time.Sleep":
			return "the clock"
		}
	case p == "os":
		switch n {
		case "os.IsNotExist", "os.IsExist", "os.IsPermission", "os.IsTimeout":
			return ""
		}
		return "the environment"
	case strings.HasPrefix(p, "os/"), p == "syscall", p == "net", strings.HasPrefix(p, "net/"):
		return "the environment"
	case p == "runtime":
		switch n {
		case "runtime.NumCPU", "runtime.NumGoroutine", "runtime.GOMAXPROCS", "runtime.ReadMemStats", "runtime.Stack", "runtime.Caller", "runtime.Callers", "runtime.NumCgoCall":
			return "the state of the runtime"
		}
	case p == "runtime/debug", p == "runtime/metrics":
		return "the state of the runtime"
	case p == "unique", p == "weak":
		return "addresses"
	case n == "context.WithTimeout", n == "context.WithDeadline":
		return "the clock"
	case strings.HasPrefix(n, "(reflect.Value).Pointer"), strings.HasPrefix(n, "(reflect.Value).Unsafe"), strings.HasPrefix(n, "(reflect.Value).MapKeys"), strings.HasPrefix(n, "(reflect.Value).MapRange"):
		return "addresses or map order"
	case n == "(*sync.Map).Range":
		return "map order"
	case n == "maps.Keys", n == "maps.Values", n == "maps.All":
		return "map order"
	case n == "(*sync.Mutex).TryLock", n == "(*sync.RWMutex).TryLock", n == "(*sync.RWMutex).TryRLock":
		return "the schedule"
	}
	return ""
}

// onlyWorkerCount: the value is only used to choose a number of workers, that
// is, stored in an options field.
func onlyWorkerCount(v ssa.Value, depth int) bool {
	if depth > 6 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			fv := fieldVarOf(x.Addr)
			if fv == nil {
				if a, ok := x.Addr.(*ssa.Alloc); ok {
					ok := true
					for _, q := range *a.Referrers() {
						if u, is := q.(*ssa.UnOp); is && !onlyWorkerCount(u, depth+1) {
							ok = false
						}
					}
					if ok {
						continue
					}
				}
				return false
			}
			if fv.Pkg() == nil || !strings.HasSuffix(fv.Pkg().Path(), "/options") {
				return false
			}
		case *ssa.Convert, *ssa.Phi, *ssa.BinOp, *ssa.ChangeType:
			if b, ok := r.(*ssa.BinOp); ok && isBool(b.Type()) {
				continue
			}
			if !onlyWorkerCount(r.(ssa.Value), depth+1) {
				return false
			}
		case *ssa.Call:
			if b, ok := x.Common().Value.(*ssa.Builtin); ok && (b.Name() == "min" || b.Name() == "max") {
				if onlyWorkerCount(x, depth+1) {
					continue
				}
			}
			return false
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// orderInsensitive: the body of a map range loop cannot tell in which order
// the entries come.
func orderInsensitive(rg *ssa.Range) (bool, string) {
	f := rg.Parent()
	// find the loop
	var nx *ssa.Next
	for _, r := range *rg.Referrers() {
		if n, ok := r.(*ssa.Next); ok {
			nx = n
		}
	}
	if nx == nil {
		return true, ""
	}
	h := nx.Block()
	body := map[*ssa.BasicBlock]bool{h: true}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			for b := range loopBody(h, p) {
				body[b] = true
			}
		}
	}
	keyVal := map[ssa.Value]bool{}
	for _, r := range *nx.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
			keyVal[e] = true
		}
	}
	var appended []ssa.Value
	for b := range body {
		for _, s := range b.Succs {
			if !body[s] && b != h {
				return false, "the loop can stop early"
			}
		}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.MapUpdate:
				if !keyVal[x.Key] {
					return false, "another map is filled under a different key"
				}
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if a, ok := ia.X.(*ssa.Alloc); ok && a.Comment == "varargs" {
						continue
					}
				}
				return false, "it writes memory"
			case *ssa.Phi:
				if b == h {
					if !commutative(x, body) {
						// slice of keys, sorted afterwards?
						appended = append(appended, x)
					}
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Return, *ssa.Panic:
				return false, "it has effects"
			case *ssa.Call:
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append", "len", "cap", "min", "max", "delete":
						continue
					}
				}
				if g := x.Common().StaticCallee(); g != nil && pureName(g.String()) {
					continue
				}
				return false, "it calls functions"
			}
		}
	}
	for _, a := range appended {
		if _, ok := a.Type().Underlying().(*types.Slice); !ok || !sortedLater(f, a) {
			return false, "it accumulates in iteration order"
		}
	}
	return true, ""
}

func pureName(n string) bool {
	p := namePkg(n)
	return p == "math" || p == "math/bits" || p == "strings" || p == "strconv"
}

// commutative: the loop-carried value is an integer sum/or/and/xor/min/max.
func commutative(phi *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	b, ok := phi.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
		return false
	}
	for i, e := range phi.Edges {
		if !body[phi.Block().Preds[i]] || e == ssa.Value(phi) {
			continue
		}
		switch x := e.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD, token.OR, token.AND, token.XOR, token.MUL:
				if x.X == ssa.Value(phi) || x.Y == ssa.Value(phi) {
					continue
				}
			}
			return false
		case *ssa.Call:
			if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "min" || bi.Name() == "max") {
				continue
			}
			return false
		default:
			return false
		}
	}
	return true
}

func sortedLater(f *ssa.Function, v ssa.Value) bool {
	ok := false
	eachInstr(f, func(ins ssa.Instruction) {
		if c, is := ins.(ssa.CallInstruction); is {
			n := fullName(c.Common())
			if g := c.Common().StaticCallee(); g != nil && g.Origin() != nil {
				n = g.Origin().String()
			}
			if strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") {
				for _, a := range c.Common().Args {
					if a == v || valKey(a) == valKey(v) {
						ok = true
					}
					if mi, is := a.(*ssa.MakeInterface); is && mi.X == v {
						ok = true
					}
				}
			}
		}
	})
	return ok
}

func init() {
	register("P07", "other", "Reachability over the VTA call graph: no source of nondeterminism (clock, random numbers, environment, runtime state, map iteration order, racing select, arrival order of worker results) is reachable from the decode/export API.", func(w *World, r *Result, th bool) {
		fns := w.WithInits()
		r.Count("functions reachable from the API", len(fns))
		r.Minimum["functions reachable from the API"] = 200
		w.eachInstr(fns, func(f *ssa.Function, b *ssa.BasicBlock, i int, ins ssa.Instruction) {
			for _, g := range funcRefs(ins) {
				if s := nondetSource(g.String(), nil); s != "" {
					r.Add("nondet "+FnName(f)+" "+g.String(), w.Pos(instrPos(ins)), "%s refers to %s (%s)", FnName(f), g.String(), s)
				}
			}
			switch x := ins.(type) {
			case ssa.CallInstruction:
				r.Count("call sites inspected", 1)
				for _, n := range w.calleeNames(x) {
					s := nondetSource(n, x)
					if s == "" || f.Name() == "init" && strings.HasSuffix(n, ".init") {
						continue
					}
					if (n == "runtime.GOMAXPROCS" || n == "runtime.NumCPU") && x.Value() != nil && onlyWorkerCount(x.Value(), 0) {
						r.Count("uses of the processor count that only set the number of workers", 1)
						continue
					}
					if (n == "maps.Keys" || n == "maps.Values" || n == "maps.All") && feedsSorted(x) {
						continue
					}
					r.Add("nondet "+FnName(f)+" "+n, w.Pos(x.Pos()), "%s depends on %s through %s", FnName(f), s, n)
				}
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					r.Count("map iterations", 1)
					if ok, why := orderInsensitive(x); !ok {
						r.Add("map-order "+FnName(f), w.Pos(instrPos(x)), "%s iterates over a map and %s, so its result depends on the iteration order", FnName(f), why)
					}
				}
			case *ssa.Select:
				n := 0
				for _, s := range x.States {
					if s.Dir == types.RecvOnly || s.Dir == types.SendOnly {
						n++
					}
				}
				if n == 1 && !x.Blocking && x.States[0].Dir == types.SendOnly && isErrorType(x.States[0].Send.Type()) {
					n = 0 // an error, unless there is one already
				}
				if n == 1 && !x.Blocking && afterJoin(x) {
					n = 0
				}
				if n > 1 || n == 1 && !x.Blocking {
					r.Add("select "+FnName(f), w.Pos(instrPos(x)), "%s takes whichever communication is ready", FnName(f))
				}
			case *ssa.Convert:
				if isUnsafe(x.Type()) || isUnsafe(x.X.Type()) {
					r.Add("address "+FnName(f), w.Pos(instrPos(x)), "%s converts addresses to numbers", FnName(f))
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					r.Count("channel receives", 1)
					if why := w.arrivalOrder(x); why != "" {
						r.Add("arrival-order "+FnName(f), w.Pos(instrPos(x)), "%s %s in the order in which workers deliver them", FnName(f), why)
					}
				}
			}
		})
		orderChecks(w, r)
		r.Rules = []string{"no call of a clock, random, environment or runtime-state function; map iterations are order-insensitive; no select between ready communications; values received from a channel are not appended, accumulated, kept or placed in arrival order; workers change shared memory under a lock only in ways that do not depend on who comes first (errors aside)"}
		r.Assume = []string{"caller-supplied readers and writers behave the same on every run", "see P12 for data races and P13 for reused buffers"}
	})
	register("P08", "other", "Effect analysis over the VTA call graph: no function reachable from the API touches files, network, environment, processes, the standard streams or process-wide settings.", func(w *World, r *Result, th bool) {
		fns := w.WithInits()
		r.Count("functions reachable from the API", len(fns))
		r.Minimum["functions reachable from the API"] = 200
		w.eachInstr(fns, func(f *ssa.Function, b *ssa.BasicBlock, i int, ins ssa.Instruction) {
			for _, g := range funcRefs(ins) {
				if s := sideEffect(g.String(), nil); s != "" && g.String() != "runtime.GOMAXPROCS" {
					r.Add("effect "+FnName(f)+" "+g.String(), w.Pos(instrPos(ins)), "%s refers to %s, which %s", FnName(f), g.String(), s)
				}
			}
			for _, op := range ins.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil {
					p := g.Pkg.Pkg.Path()
					if p == "os" || p == "log" || p == "flag" || p == "net/http" || p == "syscall" {
						if _, isErr := g.Type().(*types.Pointer).Elem().Underlying().(*types.Interface); !isErr {
							r.Add("effect "+FnName(f)+" "+p+"."+g.Name(), w.Pos(instrPos(ins)), "%s uses %s.%s", FnName(f), p, g.Name())
						}
					}
				}
			}
			if x, ok := ins.(ssa.CallInstruction); ok {
				r.Count("call sites inspected", 1)
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "print" || bi.Name() == "println") {
					r.Add("effect "+FnName(f)+" "+bi.Name(), w.Pos(x.Pos()), "%s prints to standard error", FnName(f))
				}
				if cm := x.Common(); cm.IsInvoke() && cm.Method.Name() == "Close" && asserted(cm.Value, 0) {
					r.Add("closes-source in "+FnName(f), w.Pos(x.Pos()), "%s closes an object it was given as a reader or writer", FnName(f))
				}
				for _, n := range w.calleeNames(x) {
					if strings.HasPrefix(f.Name(), "init") && (n == "image.RegisterFormat" || strings.HasSuffix(n, ".init")) {
						continue // announcing the decoder to the image package is what importing it is for
					}
					if s := sideEffect(n, x); s != "" {
						r.Add("effect "+FnName(f)+" "+n, w.Pos(x.Pos()), "%s calls %s, which %s", FnName(f), n, s)
					}
				}
			}
		})
		r.Rules = []string{"no call of, or reference to, os/net/syscall/log/flag/standard-stream functions and variables, and no process-wide setting changed; diagnostics through the logging library are allowed"}
	})
}

// asserted: the value is the result of an interface conversion that discovers
// methods the caller's object happens to have.
func asserted(v ssa.Value, d int) bool {
	if d > 5 {
		return false
	}
	switch v := v.(type) {
	case *ssa.TypeAssert:
		return true
	case *ssa.Extract:
		return asserted(v.Tuple, d+1)
	case *ssa.ChangeInterface:
		return asserted(v.X, d+1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if asserted(e, d+1) {
				return true
			}
		}
	}
	return false
}

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func feedsSorted(c ssa.CallInstruction) bool {
	v := c.Value()
	if v == nil || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if d, ok := r.(ssa.CallInstruction); ok {
			g := d.Common().StaticCallee()
			if g == nil {
				return false
			}
			n := g.String()
			if g.Origin() != nil {
				n = g.Origin().String()
			}
			if n == "slices.Sorted" || n == "slices.SortedFunc" {
				continue
			}
			return false
		}
	}
	return true
}

// arrivalOrder: received values (other than errors and tokens) are appended or
// summed up as floats.
func (w *World) arrivalOrder(x *ssa.UnOp) string {
	t := x.X.Type().Underlying().(*types.Chan).Elem()
	if isErrorType(t) {
		return ""
	}
	if s, ok := t.Underlying().(*types.Struct); ok && s.NumFields() == 0 {
		return ""
	}
	seen := map[ssa.Value]bool{}
	var follow func(v ssa.Value) string
	follow = func(v ssa.Value) string {
		if seen[v] || v.Referrers() == nil {
			return ""
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch y := r.(type) {
			case *ssa.Store:
				if y.Val == v {
					if ia, ok := y.Addr.(*ssa.IndexAddr); ok {
						if a, ok := ia.X.(*ssa.Alloc); ok && a.Comment == "varargs" {
							for _, q := range *a.Referrers() {
								if sl, ok := q.(*ssa.Slice); ok {
									for _, c := range *sl.Referrers() {
										if cc, ok := c.(*ssa.Call); ok {
											if bi, ok := cc.Common().Value.(*ssa.Builtin); ok && bi.Name() == "append" {
												return "appends results"
											}
										}
									}
								}
							}
						}
					}
					if a, ok := y.Addr.(*ssa.Alloc); ok {
						if s := follow(a); s != "" {
							return s
						}
					}
					if l := innermost(w, x.Block()); l != nil && l.body[y.Block()] && !backSlice(y.Addr)[x] && !commutes(y) && !madeIn(y.Addr, l) {
						return "places or keeps results"
					}
				}
			case *ssa.BinOp:
				if b, ok := y.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
					return "sums up results"
				}
			case *ssa.Extract, *ssa.Field, *ssa.UnOp, *ssa.FieldAddr, *ssa.Convert, *ssa.Phi:
				if ph, ok := y.(*ssa.Phi); ok {
					if l := innermost(w, x.Block()); l != nil && l.head == ph.Block() && usedOutside(ph, l, map[ssa.Value]bool{}) {
						return "keeps results"
					}
				}
				if s := follow(y.(ssa.Value)); s != "" {
					return s
				}
			}
		}
		return ""
	}
	return follow(x)
}

// afterJoin: the workers have been waited for (or the channel closed) before.
func afterJoin(x *ssa.Select) bool {
	ok := false
	eachInstr(x.Parent(), func(ins ssa.Instruction) {
		c, isC := ins.(*ssa.Call)
		if !isC || !instrDominates(ins, x) {
			return
		}
		if b, isB := c.Call.Value.(*ssa.Builtin); isB {
			if b.Name() == "close" && valKey(c.Call.Args[0]) == valKey(x.States[0].Chan) {
				ok = true
			}
		} else if fullName(c.Common()) == "(*sync.WaitGroup).Wait" {
			ok = true
		}
	})
	return ok
}

func innermost(w *World, b *ssa.BasicBlock) *natLoop {
	ls := w.loopsAround(b)
	if len(ls) == 0 {
		return nil
	}
	return ls[len(ls)-1]
}

// madeIn: the address is inside a variable made anew in each iteration.
func madeIn(ad ssa.Value, l *natLoop) bool {
	for d := 0; d < 12; d++ {
		switch x := ad.(type) {
		case *ssa.FieldAddr:
			ad = x.X
		case *ssa.IndexAddr:
			ad = x.X
		case *ssa.UnOp:
			ad = x.X
		case *ssa.Slice:
			ad = x.X
		case *ssa.Alloc:
			return l.body[x.Block()] || !usedOutside(x, l, map[ssa.Value]bool{})
		case *ssa.MakeSlice:
			return l.body[x.Block()]
		case *ssa.Call:
			return l.body[x.Block()]
		default:
			return false
		}
	}
	return false
}

// usedOutside: a value carried round the loop is used after it.
func usedOutside(v ssa.Value, l *natLoop, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		if !l.body[r.Block()] {
			if st, ok := r.(*ssa.Store); ok && st.Val != v {
				continue
			}
			return true
		}
		if ph, ok := r.(*ssa.Phi); ok && usedOutside(ph, l, seen) {
			return true
		}
	}
	return false
}
