package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P11: goroutines are joined, and the library's own synchronisation cannot
// hang. One small state machine per synchronisation object is run over every
// path of the functions that work on it (calls and deferred calls entered).

type mst struct {
	bal    int  // wait group: Add - Done; semaphore: slots held
	run    bool // workers that are not joined
	worker bool // executing the body of a goroutine
	closed bool
	closer bool // a goroutine that closes the channel has been started
	waiter bool // a goroutine that waits for the group has been started
	sw, cw bool // sending / receiving workers started
	recv   bool // this goroutine receives until the channel is closed
	sent   bool
	sym    int // symbolic Add in force (index+1 into syms)
}

type machine struct {
	w     *World
	o     *syncObj
	memo  map[machKey][]mst
	busy  map[machKey]bool
	op    func(m *machine, f *ssa.Function, ins ssa.Instruction, st mst) ([]mst, bool)
	spawn func(m *machine, f *ssa.Function, sp *spawn, st mst) []mst
	loud  bool
	add   func(key string, pos token.Pos, msg string)
	syms  []ssa.Value
	any   func(f *ssa.Function, ins ssa.Instruction, st mst)
	paths int
}

type machKey struct {
	f  *ssa.Function
	st mst
}

func (m *machine) report(f *ssa.Function, rule string, ins ssa.Instruction, format string, a ...any) {
	if !m.loud {
		return
	}
	m.add(rule+"/"+FnName(f)+"/"+m.o.name(m.w), instrPos(ins), fmt.Sprintf(format, a...))
}

func dedupe(in []mst) []mst {
	seen := map[mst]bool{}
	var out []mst
	for _, s := range in {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// exec runs a function from a state and returns the states at its returns.
func (m *machine) exec(f *ssa.Function, in mst) []mst {
	k := machKey{f, in}
	if r, ok := m.memo[k]; ok {
		return r
	}
	if m.busy[k] {
		return nil
	}
	m.busy[k] = true
	defer delete(m.busy, k)
	if len(f.Blocks) == 0 {
		return []mst{in}
	}
	type node struct {
		b    *ssa.BasicBlock
		st   mst
		defs string
	}
	var defTab []ssa.CallInstruction
	defIdx := map[ssa.CallInstruction]int{}
	seen := map[node]bool{}
	var outs []mst
	wl := []node{{f.Blocks[0], in, ""}}
	for len(wl) > 0 {
		n := wl[len(wl)-1]
		wl = wl[:len(wl)-1]
		if seen[n] {
			continue
		}
		seen[n] = true
		m.paths++
		if len(seen) > 20000 {
			break
		}
		type cur struct {
			st   mst
			defs string
		}
		states := []cur{{n.st, n.defs}}
		for _, ins := range n.b.Instrs {
			var next []cur
			for _, c := range states {
				switch x := ins.(type) {
				case *ssa.Defer:
					if _, ok := defIdx[x]; !ok {
						defIdx[x] = len(defTab)
						defTab = append(defTab, x)
					}
					d := c.defs
					if strings.Count(d, ",") < 8 {
						d += itoa(defIdx[x]) + ","
					}
					next = append(next, cur{c.st, d})
				case *ssa.RunDefers:
					sts := []mst{c.st}
					ids := strings.Split(strings.Trim(c.defs, ","), ",")
					for i := len(ids) - 1; i >= 0; i-- {
						if ids[i] == "" {
							continue
						}
						k := 0
						fmt.Sscanf(ids[i], "%d", &k)
						var o2 []mst
						for _, s := range sts {
							o2 = append(o2, m.callLike(f, defTab[k], s)...)
						}
						sts = dedupe(o2)
					}
					for _, s := range sts {
						next = append(next, cur{s, ""})
					}
				case *ssa.Return:
					outs = append(outs, c.st)
				default:
					if v, ok := ins.(ssa.Value); ok && m.o.seed == v {
						// a new object
						if m.o.kind == "wg" && c.st.run {
							m.report(f, "not-joined", ins, "%s goes on while workers it started are still running (%s)", FnName(f), m.o.name(m.w))
						}
						if m.o.kind == "chan" && c.st.bal > 0 {
							m.report(f, "slot-kept", ins, "%s keeps a slot of %s", FnName(f), m.o.name(m.w))
						}
						if m.o.kind == "chan" && c.st.cw && !c.st.closed && !c.st.closer {
							m.report(f, "not-closed", ins, "%s goes on without closing %s, which its workers wait for", FnName(f), m.o.name(m.w))
						}
						next = append(next, cur{mst{worker: c.st.worker}, c.defs})
						continue
					}
					if sp := m.w.spawnOf(ins); sp != nil {
						for _, s := range m.spawn(m, f, sp, c.st) {
							next = append(next, cur{s, c.defs})
						}
						continue
					}
					if call, ok := ins.(*ssa.Call); ok {
						for _, s := range m.callLike(f, call, c.st) {
							next = append(next, cur{s, c.defs})
						}
						continue
					}
					if o2, ok := m.op(m, f, ins, c.st); ok {
						for _, s := range o2 {
							next = append(next, cur{s, c.defs})
						}
						continue
					}
					if m.any != nil {
						m.any(f, ins, c.st)
					}
					next = append(next, c)
				}
			}
			states = next
		}
		for _, c := range states {
			for _, s := range n.b.Succs {
				wl = append(wl, node{s, c.st, c.defs})
			}
		}
	}
	outs = dedupe(outs)
	m.memo[k] = outs
	return outs
}

func (m *machine) callLike(f *ssa.Function, c ssa.CallInstruction, st mst) []mst {
	if o2, ok := m.op(m, f, c, st); ok {
		return o2
	}
	var outs []mst
	hit := false
	for _, g := range m.w.Callees(c) {
		if m.o.fns[g] && len(g.Blocks) > 0 {
			hit = true
			outs = append(outs, m.exec(g, st)...)
		}
	}
	if !hit {
		if m.any != nil {
			m.any(f, c, st)
		}
		return []mst{st}
	}
	return dedupe(outs)
}

// tops: the functions from which the machine is run.
func (m *machine) tops(neutral func(mst) bool) []*ssa.Function {
	o := m.o
	// an object kept in a struct field or handed back to a caller: include
	// the callers as long as a function leaves something open
	local := o.seed != nil && o.seed.Parent() != nil
	if !local {
		for changed := true; changed; {
			changed = false
			for f := range o.fns {
				m.memo = map[machKey][]mst{}
				open := false
				for _, s := range m.exec(f, mst{}) {
					if !neutral(s) {
						open = true
					}
				}
				if !open {
					continue
				}
				for _, c := range m.w.callersOf(f) {
					if _, isGo := c.(*ssa.Go); isGo {
						continue
					}
					if !o.fns[c.Parent()] {
						o.fns[c.Parent()] = true
						changed = true
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for f := range o.fns {
		called := false
		for _, c := range m.w.callersOf(f) {
			if o.fns[c.Parent()] && c.Parent() != f {
				called = true
			}
		}
		if f.Parent() != nil && o.fns[f.Parent()] {
			called = true
		}
		if !called {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return FnName(out[i]) < FnName(out[j]) })
	return out
}

func recvOf(ins ssa.Instruction) *ssa.UnOp {
	u, ok := ins.(*ssa.UnOp)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

// visible: executing the instruction can be observed by other goroutines.
func (w *World) visible(ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.Send, *ssa.MapUpdate:
		return true
	case *ssa.Store:
		for a := x.Addr; ; {
			switch y := a.(type) {
			case *ssa.FieldAddr:
				a = y.X
				continue
			case *ssa.IndexAddr:
				a = y.X
				continue
			case *ssa.Alloc:
				return y.Heap && y.Parent() != x.Parent()
			}
			return true
		}
	case ssa.CallInstruction:
		for _, g := range w.Callees(x) {
			if inModule(g) {
				return true
			}
		}
	}
	return false
}

func init() {
	register("P11", "other",
		"State machines over SSA, one per wait group, channel and mutex used by library code: every goroutine counted before it starts, signed off exactly once on every path and waited for on every path; every channel send covered by the capacity or by a reader, closed once and after its senders; slots and locks released on every path.",
		func(w *World, r *Result, thorough bool) {
			covered := map[ssa.CallInstruction]bool{}
			add := func(key string, pos token.Pos, msg string) { r.Add(key, w.Pos(pos), "%s", msg) }
			wgs := w.syncObjects("wg")
			for _, o := range wgs {
				r.Count("wait groups", 1)
				w.runWG(r, o, covered, add)
			}
			chans := w.syncObjects("chan")
			for _, o := range chans {
				r.Count("channels", 1)
				w.runChan(r, o, add)
			}
			for _, o := range w.syncObjects("mutex") {
				r.Count("mutexes", 1)
				w.runMutex(r, o, add)
			}
			n := 0
			for _, f := range w.ModFns() {
				eachInstr(f, func(ins ssa.Instruction) {
					if sp := w.spawnOf(ins); sp != nil {
						n++
						if !covered[sp.site] {
							r.Add("unjoined/"+FnName(f), w.Pos(instrPos(ins)), "goroutine started in %s is not tied to a wait group that is waited for", FnName(f))
						}
					}
					switch x := ins.(type) {
					case *ssa.Select:
						if x.Blocking {
							// each state is checked as an ordinary send or receive by the channel machine
							r.Count("blocking selects", 1)
						}
					}
				})
			}
			r.Count("goroutine start sites", n)
			r.Minimum["goroutine start sites"] = 1
			r.Minimum["wait groups"] = 1
			r.Assume = append(r.Assume, "a goroutine's own computation terminates (loops and recursion on data are outside this rule)")
		})
}

// ---- wait groups ------------------------------------------------------------

func (w *World) runWG(r *Result, o *syncObj, covered map[ssa.CallInstruction]bool, add func(string, token.Pos, string)) {
	for _, c := range o.copied {
		add("copied/"+FnName(c.Parent())+"/"+o.name(w), instrPos(c), "wait group "+o.name(w)+" is copied")
	}
	m := &machine{w: w, o: o, memo: map[machKey][]mst{}, busy: map[machKey]bool{}, add: add}
	is := func(v ssa.Value) bool { return o.vals[v] }
	m.op = func(m *machine, f *ssa.Function, ins ssa.Instruction, st mst) ([]mst, bool) {
		if u := recvOf(ins); u != nil {
			if st.waiter && u.CommaOk {
				st.run = false
			}
			return []mst{st}, true
		}
		c, ok := ins.(ssa.CallInstruction)
		if !ok {
			return nil, false
		}
		cc := c.Common()
		name := fullName(cc)
		if !strings.HasPrefix(name, "(*sync.WaitGroup).") {
			return nil, false
		}
		if len(cc.Args) == 0 || !is(cc.Args[0]) {
			return []mst{st}, true
		}
		switch name {
		case "(*sync.WaitGroup).Add":
			if k, ok := constArg(c, 1); ok {
				st.bal += int(k)
			} else {
				st.sym = 0
				for i, v := range m.syms {
					if v == cc.Args[1] {
						st.sym = i + 1
					}
				}
				if st.sym == 0 {
					m.syms = append(m.syms, cc.Args[1])
					st.sym = len(m.syms)
				}
			}
		case "(*sync.WaitGroup).Done":
			st.bal--
		case "(*sync.WaitGroup).Wait":
			if st.worker && st.bal == 0 {
				st.waiter = true
			}
			if st.bal > 0 {
				m.report(f, "wait-forever", ins, "%s waits for more workers than it has started", FnName(f))
			}
			st.run, st.sym, st.bal = false, 0, 0
		}
		if st.bal > 3 || st.bal < -3 {
			m.report(f, "count", ins, "the worker count of %s grows by more than the workers started (Add and go not paired on every path)", o.name(w))
			if st.bal > 0 {
				st.bal = 3
			} else {
				st.bal = -3
			}
		}
		return []mst{st}, true
	}
	m.any = func(f *ssa.Function, ins ssa.Instruction, st mst) {
		if st.worker && st.bal < 0 {
			bad := w.visible(ins)
			if c, ok := ins.(ssa.CallInstruction); ok && bad {
				bad = false
				for _, g := range w.Callees(c) {
					if inModule(g) {
						eachInstr(g, func(i2 ssa.Instruction) { bad = bad || w.visible(i2) })
					}
				}
			}
			if bad {
				m.report(f, "early-done", ins, "a worker of %s goes on working after it has signed off", o.name(w))
			}
		}
	}
	m.spawn = func(m *machine, f *ssa.Function, sp *spawn, st mst) []mst {
		if sp.wg != nil && is(sp.wg) {
			for _, b := range sp.bodies {
				if !o.fns[b] {
					continue
				}
				for _, s := range m.exec(b, mst{worker: true}) {
					if s.bal != 0 {
						m.report(f, "sign-off", sp.site, "a worker started by WaitGroup.Go signs off a second time")
					}
				}
			}
			st.run = true
			covered[sp.site] = true
			return []mst{st}
		}
		nets := map[int]bool{}
		waiter := false
		rel := false
		for _, b := range sp.bodies {
			if !o.fns[b] {
				nets[0] = true
				continue
			}
			rel = true
			outs := m.exec(b, mst{worker: true})
			for _, s := range outs {
				nets[s.bal] = true
				waiter = waiter || s.waiter
			}
		}
		if !rel {
			return []mst{st}
		}
		if waiter && nets[0] && len(nets) == 1 {
			st.waiter = true
			covered[sp.site] = true
			return []mst{st}
		}
		if !nets[-1] {
			if nets[0] && len(nets) == 1 {
				return []mst{st} // works on the group but is not a member
			}
		}
		covered[sp.site] = true
		if len(nets) != 1 || !nets[-1] {
			m.report(f, "sign-off", sp.site, "a worker started in %s does not sign off exactly once on every path (%s)", FnName(f), o.name(w))
		}
		st.run = true
		if st.sym > 0 && st.bal == 0 {
			// counted in advance: the loop must start exactly that many
			v := m.syms[st.sym-1]
			if !w.startsExactly(sp.site, v) {
				m.report(f, "count", sp.site, "%s: the number of workers started is not shown to be the number announced with Add", FnName(f))
			}
			return []mst{st}
		}
		st.bal--
		if st.bal < 0 {
			m.report(f, "count", sp.site, "%s starts a worker that has not been counted with Add before", FnName(f))
			st.bal = 0
		}
		return []mst{st}
	}
	neutral := func(s mst) bool { return s.bal == 0 && !s.run && s.sym == 0 }
	tops := m.tops(neutral)
	m.memo = map[machKey][]mst{}
	m.loud = true
	for _, f := range tops {
		for _, s := range m.exec(f, mst{}) {
			if s.run && !s.worker {
				add("not-joined/"+FnName(f)+"/"+o.name(w), f.Pos(), fmt.Sprintf("%s can return while workers it started are still running (%s)", FnName(f), o.name(w)))
			}
		}
	}
	r.Count("path states explored", m.paths)
}

// startsExactly: the go statement is executed in every iteration of a loop
// that runs v times and is left only when it is done.
func (w *World) startsExactly(site ssa.CallInstruction, v ssa.Value) bool {
	ls := w.loopsAround(site.Block())
	if len(ls) == 0 {
		return false
	}
	l := ls[len(ls)-1]
	c := w.counterOf(l)
	if c == nil || c.start != nil {
		return false
	}
	if w.sizeKey(c.bound) != w.sizeKey(v) && w.polyOf(c.bound, 0).String() != w.polyOf(v, 0).String() {
		return false
	}
	for _, la := range l.latch {
		if !site.Block().Dominates(la) {
			return false
		}
	}
	for b := range l.body {
		for _, s := range b.Succs {
			if !l.body[s] && b != l.head {
				return false
			}
		}
	}
	return true
}

// ---- channels ---------------------------------------------------------------

func (w *World) runChan(r *Result, o *syncObj, add func(string, token.Pos, string)) {
	mk := o.seed.(*ssa.MakeChan)
	var sends, recvs, closes []ssa.Instruction
	nonBlocking := map[ssa.Instruction]bool{}
	discard := true
	for f := range o.fns {
		eachInstr(f, func(ins ssa.Instruction) {
			switch x := ins.(type) {
			case *ssa.Send:
				if o.vals[x.Chan] {
					sends = append(sends, x)
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW && o.vals[x.X] {
					recvs = append(recvs, x)
					if x.CommaOk || len(*x.Referrers()) > 0 {
						discard = false
					}
				}
			case *ssa.Select:
				for _, s := range x.States {
					if o.vals[s.Chan] {
						if s.Dir == types.SendOnly {
							sends = append(sends, x)
						} else {
							recvs = append(recvs, x)
							discard = false
						}
						if !x.Blocking {
							nonBlocking[x] = true
						}
					}
				}
			case ssa.CallInstruction:
				if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" && o.vals[x.Common().Args[0]] {
					closes = append(closes, x)
				}
			}
		})
	}
	r.Count("channel operations", len(sends)+len(recvs)+len(closes))
	name := o.name(w)
	capLB := w.lowerBoundAt(mk.Size, mk.Block(), 0)
	if capLB < 0 {
		add("negative-capacity/"+name, mk.Pos(), "the capacity of channel "+name+" is not shown to be non-negative (make would panic)")
	}
	sem := discard && len(closes) == 0 && len(sends) > 0 && len(recvs) > 0
	m := &machine{w: w, o: o, memo: map[machKey][]mst{}, busy: map[machKey]bool{}, add: add}
	if sem {
		r.Count("channels used as semaphores", 1)
		if capLB < 1 {
			add("no-slot/"+name, mk.Pos(), "semaphore "+name+" is not shown to have at least one slot: acquiring it could block forever")
		}
		m.op = func(m *machine, f *ssa.Function, ins ssa.Instruction, st mst) ([]mst, bool) {
			switch x := ins.(type) {
			case *ssa.Send:
				if o.vals[x.Chan] {
					st.bal++
					if st.bal > 1 {
						m.report(f, "slot-kept", ins, "%s takes a slot of %s while it still holds one: with all slots taken this blocks forever", FnName(f), name)
						st.bal = 1
					}
				}
				return []mst{st}, true
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					if o.vals[x.X] {
						st.bal--
						if st.bal < -2 {
							st.bal = -2
						}
					}
					return []mst{st}, true
				}
			}
			return nil, false
		}
		m.spawn = func(m *machine, f *ssa.Function, sp *spawn, st mst) []mst {
			nets := map[int]bool{}
			for _, b := range sp.bodies {
				if o.fns[b] {
					for _, s := range m.exec(b, mst{worker: true}) {
						nets[s.bal] = true
					}
				} else {
					nets[0] = true
				}
			}
			if len(nets) > 1 {
				m.report(f, "slot-kept", sp.site, "a worker started in %s does not give its slot of %s back on every path", FnName(f), name)
			}
			for n := range nets {
				if n > 0 {
					m.report(f, "slot-kept", sp.site, "a worker started in %s keeps its slot of %s", FnName(f), name)
				} else {
					st.bal += n
					break
				}
			}
			return []mst{st}
		}
		tops := m.tops(func(s mst) bool { return s.bal == 0 })
		m.memo = map[machKey][]mst{}
		m.loud = true
		for _, f := range tops {
			for _, s := range m.exec(f, mst{}) {
				if s.bal > 0 {
					add("slot-kept/"+FnName(f)+"/"+name, f.Pos(), FnName(f)+" can return with a slot of "+name+" taken")
				}
				if s.bal < 0 {
					add("slot-release/"+FnName(f)+"/"+name, f.Pos(), FnName(f)+" gives back more slots of "+name+" than were taken (blocks forever)")
				}
			}
		}
		r.Count("path states explored", m.paths)
		return
	}
	m.op = func(m *machine, f *ssa.Function, ins ssa.Instruction, st mst) ([]mst, bool) {
		switch x := ins.(type) {
		case *ssa.Send:
			if o.vals[x.Chan] {
				if st.closed {
					m.report(f, "send-closed", ins, "%s can send on %s after it has been closed", FnName(f), name)
				}
				st.sent = true
			}
			return []mst{st}, true
		case *ssa.Select:
			for _, s := range x.States {
				if o.vals[s.Chan] {
					if s.Dir == types.SendOnly {
						if st.closed {
							m.report(f, "send-closed", ins, "%s can send on %s after it has been closed", FnName(f), name)
						}
						st.sent = true
					} else if x.Blocking && !st.closed {
						if st.worker {
							st.recv = true
						}
					}
				}
			}
			return []mst{st}, true
		case *ssa.UnOp:
			if x.Op != token.ARROW {
				return nil, false
			}
			if o.vals[x.X] && !st.closed {
				switch {
				case w.guardedByLen(x, o):
				case st.worker:
					st.recv = true
				case st.closer && x.CommaOk:
					st.sw = false
				default:
					m.report(f, "receive", ins, "%s can wait forever for a value on %s: nothing guarantees a value, and it is not closed yet", FnName(f), name)
				}
			}
			return []mst{st}, true
		case ssa.CallInstruction:
			if b, ok := x.Common().Value.(*ssa.Builtin); ok {
				if b.Name() == "close" && o.vals[x.Common().Args[0]] {
					if st.closed {
						m.report(f, "close-twice", ins, "%s can close %s twice", FnName(f), name)
					}
					if st.sw && !st.worker {
						m.report(f, "close-early", ins, "%s can close %s while workers that send on it are still running", FnName(f), name)
					}
					st.closed = true
				}
				return []mst{st}, true
			}
			switch fullName(x.Common()) {
			case "(*sync.WaitGroup).Wait":
				if st.cw && !st.closed && !st.closer {
					m.report(f, "not-closed", ins, "%s waits for workers that wait for %s to be closed", FnName(f), name)
				}
				st.sw, st.cw = false, false
				return []mst{st}, true
			}
		}
		return nil, false
	}
	m.spawn = func(m *machine, f *ssa.Function, sp *spawn, st mst) []mst {
		for _, b := range sp.bodies {
			if !o.fns[b] {
				continue
			}
			for _, s := range m.exec(b, mst{worker: true, closed: st.closed}) {
				if s.sent {
					st.sw = true
				}
				if s.recv && !st.closed {
					st.cw = true
				}
				if s.closed && !st.closed {
					st.closer = true
				}
			}
		}
		return []mst{st}
	}
	tops := m.tops(func(s mst) bool { return true })
	m.memo = map[machKey][]mst{}
	m.loud = true
	for _, f := range tops {
		for _, s := range m.exec(f, mst{}) {
			if s.cw && !s.closed && !s.closer {
				add("not-closed/"+FnName(f)+"/"+name, f.Pos(), FnName(f)+" can return without closing "+name+", which its workers wait for")
			}
		}
	}
	r.Count("path states explored", m.paths)
	// room for everything that is sent
	for _, t := range tops {
		start := t
		if mk.Parent() != t {
			start = mk.Parent()
		}
		total := w.sendCount(o, start, mk, nonBlocking, map[*ssa.Function]bool{})
		capacity := w.polyOf(mk.Size, 0)
		if len(total) > 0 && !w.capCovers(mk.Size, capacity, total) && !w.drained(o, sends) {
			add("capacity/"+name, mk.Pos(), fmt.Sprintf("channel %s has room for %v values but up to %v are sent before anything is received: a sender could block forever", name, capacity, total))
		}
		r.Sample(map[string]string{"channel": name, "capacity": capacity.String(), "sent at most": total.String()})
		break
	}
}

// capCovers: also accepts trip counts of the form min(a, b).
func (w *World) capCovers(size ssa.Value, capacity, total poly) bool {
	if capacity.covers(total) {
		return true
	}
	for k, c := range total {
		fs := strings.Split(k, "·")
		for i, f := range fs {
			for _, alt := range w.minAlts[f] {
				rest := poly{strings.Join(append(append([]string{}, fs[:i]...), fs[i+1:]...), "·"): c}
				t2 := polyMul(rest, alt)
				for k2, c2 := range total {
					if k2 != k {
						t2[k2] += c2
					}
				}
				if w.capCovers(size, capacity, t2) {
					return true
				}
			}
		}
	}
	return false
}

// guardedByLen: the receive only happens when len(ch) > 0.
func (w *World) guardedByLen(u *ssa.UnOp, o *syncObj) bool {
	b := u.Block()
	for d := b; d.Idom() != nil; d = d.Idom() {
		p := d.Idom()
		if len(d.Preds) != 1 || d.Preds[0] != p {
			continue
		}
		ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op, x, y := cmp.Op, cmp.X, cmp.Y
		if p.Succs[1] == d {
			op = negOp(op)
		}
		lenOf := func(v ssa.Value) bool {
			c, ok := stripConv(v).(*ssa.Call)
			if !ok {
				return false
			}
			bi, ok := c.Call.Value.(*ssa.Builtin)
			return ok && bi.Name() == "len" && o.vals[c.Call.Args[0]]
		}
		if lenOf(y) {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			}
		}
		if !lenOf(x) {
			continue
		}
		if op == token.GTR && isConstInt(y, 0) || op == token.NEQ && isConstInt(y, 0) || op == token.GEQ && isConstInt(y, 1) {
			return true
		}
	}
	return false
}

// sendCount: upper bound on the sends executed by f (and what it starts).
func (w *World) sendCount(o *syncObj, f *ssa.Function, mk *ssa.MakeChan, skip map[ssa.Instruction]bool, busy map[*ssa.Function]bool) poly {
	if busy[f] {
		return poly{"recursion": 1}
	}
	busy[f] = true
	defer delete(busy, f)
	cost := map[*ssa.BasicBlock]poly{}
	looped := poly{}
	constOnly := true
	handler := poly{} // sends made only when f panics
	final := true     // f cannot panic any more after its other sends
	eachInstr(f, func(ins ssa.Instruction) {
		if skip[ins] {
			return
		}
		if d, ok := ins.(*ssa.Defer); ok && len(w.loopsAround(d.Block())) == 0 {
			only := poly{}
			for _, g := range w.Callees(d) {
				if o.fns[g] && g != f {
					if !w.sendsOnlyOnPanic(g, o) {
						only = nil
						break
					}
					for k, v := range w.sendCount(o, g, mk, skip, busy) {
						if v > only[k] {
							only[k] = v
						}
					}
				}
			}
			if len(only) > 0 {
				handler = polyAdd(handler, only)
				return
			}
		}
		c := poly{}
		switch x := ins.(type) {
		case *ssa.Send:
			if o.vals[x.Chan] {
				c[""] = 1
			}
		case *ssa.Select:
			for _, s := range x.States {
				if s.Dir == types.SendOnly && o.vals[s.Chan] {
					c[""] = 1
				}
			}
		case ssa.CallInstruction:
			var bodies []*ssa.Function
			if sp := w.spawnOf(ins); sp != nil {
				bodies = sp.bodies
			} else {
				bodies = w.Callees(x)
			}
			for _, g := range bodies {
				if o.fns[g] && g != f {
					for k, v := range w.sendCount(o, g, mk, skip, busy) {
						if v > c[k] {
							c[k] = v
						}
					}
				}
			}
		}
		if len(c) == 0 {
			return
		}
		b := ins.Block()
		if !endsQuietly(ins) {
			final = false
		}
		in := false
		for _, l := range w.loopsAround(b) {
			if mk.Parent() == f && l.body[mk.Block()] {
				continue
			}
			in = true
			t, ok := w.trips(l)
			if !ok {
				t = poly{"iterations of a loop in " + FnName(f): 1}
			}
			c = polyMul(c, t)
		}
		if in {
			looped = polyAdd(looped, c)
			return
		}
		for k := range c {
			if k != "" {
				constOnly = false
			}
		}
		cost[b] = polyAdd(cost[b], c)
	})
	out := looped
	if constOnly {
		// the most expensive path
		memo := map[*ssa.BasicBlock]int64{}
		on := map[*ssa.BasicBlock]bool{}
		var best func(b *ssa.BasicBlock) int64
		best = func(b *ssa.BasicBlock) int64 {
			if v, ok := memo[b]; ok {
				return v
			}
			if on[b] {
				return 0
			}
			on[b] = true
			m := int64(0)
			for _, s := range b.Succs {
				if v := best(s); v > m {
					m = v
				}
			}
			on[b] = false
			m += cost[b][""]
			memo[b] = m
			return m
		}
		if n := best(f.Blocks[0]); n > 0 {
			out = polyAdd(out, poly{"": n})
		}
	} else {
		for _, c := range cost {
			out = polyAdd(out, c)
		}
	}
	if !final {
		out = polyAdd(out, handler)
	} else {
		for k, v := range handler {
			if v > out[k] {
				out[k] = v
			}
		}
	}
	for k, v := range out {
		if v == 0 {
			delete(out, k)
		}
	}
	return out
}

// sendsOnlyOnPanic: g sends on the channel only after a recover() that found a
// panic.
func (w *World) sendsOnlyOnPanic(g *ssa.Function, o *syncObj) bool {
	ok, any := true, false
	eachInstr(g, func(ins ssa.Instruction) {
		switch x := ins.(type) {
		case *ssa.Send:
			if o.vals[x.Chan] {
				any = true
				ok = ok && afterRecover(ins.Block())
			}
		case *ssa.Select:
			for _, s := range x.States {
				if s.Dir == types.SendOnly && o.vals[s.Chan] {
					any = true
					ok = ok && afterRecover(ins.Block())
				}
			}
		case ssa.CallInstruction:
			for _, h := range w.Callees(x) {
				if o.fns[h] && h != g {
					any = true
					ok = ok && afterRecover(ins.Block())
				}
			}
		}
	})
	return ok && any
}

// afterRecover: block b is only reached when recover() returned a panic.
func afterRecover(b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] == p.Succs[1] {
			continue
		}
		onTrue := p.Succs[0] == d
		bo, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y := bo.X, bo.Y
		if isNilConst(x) {
			x, y = y, x
		}
		if !isRecover(x) || !isNilConst(y) {
			continue
		}
		if bo.Op == token.NEQ && onTrue || bo.Op == token.EQL && !onTrue {
			return true
		}
	}
	return false
}

func isRecover(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "recover"
}

// endsQuietly: after ins the function only returns.
func endsQuietly(ins ssa.Instruction) bool {
	b := ins.Block()
	i := 0
	for i < len(b.Instrs) && b.Instrs[i] != ins {
		i++
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			switch b.Instrs[i].(type) {
			case *ssa.Jump, *ssa.Return, *ssa.RunDefers, *ssa.Phi, *ssa.DebugRef, *ssa.If:
			default:
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if !walk(s, 0) {
					return false
				}
			}
		}
		return true
	}
	return walk(b, i+1)
}

// drained: another goroutine, started before the sends, receives until the
// channel is closed and cannot stop before.
func (w *World) drained(o *syncObj, sends []ssa.Instruction) bool {
	for f := range o.fns {
		for _, l := range w.loopsIn(f) {
			var rc *ssa.UnOp
			for _, ins := range l.head.Instrs {
				if u := recvOf(ins); u != nil && u.CommaOk && o.vals[u.X] {
					rc = u
				}
			}
			if rc == nil {
				continue
			}
			onlyExit := true
			for b := range l.body {
				for _, s := range b.Succs {
					if !l.body[s] && b != l.head {
						onlyExit = false
					}
				}
				for _, ins := range b.Instrs {
					if _, ok := ins.(*ssa.Return); ok {
						onlyExit = false
					}
				}
			}
			if !onlyExit {
				continue
			}
			ok := true
			for _, s := range sends {
				if s.Parent() == f {
					ok = false
					continue
				}
				// consumer started before the send in the sending function, or the
				// sender is a goroutine started by the consumer's function before
				// it starts to receive
				okS := false
				for _, sp := range w.spawnsOf(f) {
					if sp.Parent() == s.Parent() && instrDominates(sp, s) {
						okS = true
					}
				}
				for _, sp := range w.spawnsOf(s.Parent()) {
					if sp.Parent() == f {
						reached := false
						w.firstOf(sp, func(i ssa.Instruction) bool {
							if i == ssa.Instruction(rc) {
								reached = true
								return true
							}
							if c, ok := i.(*ssa.Call); ok && fullName(c.Common()) == "(*sync.WaitGroup).Wait" {
								reached = false
								return true
							}
							return false
						}, &reached)
						if reached {
							okS = true
						}
					}
				}
				ok = ok && okS
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// firstOf: every path from ins meets stop; *good is left false if any path met
// it with good unset or ended.
func (w *World) firstOf(ins ssa.Instruction, stop func(ssa.Instruction) bool, good *bool) {
	all := mustPass(ins, func(i ssa.Instruction) bool {
		*good = false
		return stop(i) && *good
	})
	*good = all
}

func (w *World) spawnsOf(f *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, g := range w.ModFns() {
		eachInstr(g, func(ins ssa.Instruction) {
			if sp := w.spawnOf(ins); sp != nil {
				for _, b := range sp.bodies {
					if b == f {
						out = append(out, sp.site)
					}
				}
			}
		})
	}
	return out
}

// ---- mutexes ----------------------------------------------------------------

func (w *World) runMutex(r *Result, o *syncObj, add func(string, token.Pos, string)) {
	m := &machine{w: w, o: o, memo: map[machKey][]mst{}, busy: map[machKey]bool{}, add: add}
	// bal: 0 free, 1 held exclusively, 2 held for reading
	m.op = func(m *machine, f *ssa.Function, ins ssa.Instruction, st mst) ([]mst, bool) {
		c, ok := ins.(ssa.CallInstruction)
		if !ok || len(c.Common().Args) == 0 || !o.vals[c.Common().Args[0]] {
			return nil, false
		}
		n := fullName(c.Common())
		if !strings.HasPrefix(n, "(*sync.Mutex).") && !strings.HasPrefix(n, "(*sync.RWMutex).") {
			return nil, false
		}
		switch n[strings.LastIndex(n, ".")+1:] {
		case "Lock":
			if st.bal != 0 {
				m.report(f, "lock-held", ins, "%s takes lock %s while it already holds it: blocks forever", FnName(f), o.name(w))
			}
			st.bal = 1
		case "RLock":
			if st.bal != 0 {
				m.report(f, "lock-held", ins, "%s takes lock %s while it already holds it: can block forever", FnName(f), o.name(w))
			}
			st.bal = 2
		case "Unlock":
			if st.bal == 2 || st.bal == 0 {
				m.report(f, "unlock", ins, "%s unlocks %s, which it does not hold for writing", FnName(f), o.name(w))
			}
			if st.bal == 0 {
				st.bal = -1
			} else {
				st.bal = 0
			}
		case "RUnlock":
			if st.bal == 1 || st.bal == 0 {
				m.report(f, "unlock", ins, "%s read-unlocks %s, which it does not hold for reading", FnName(f), o.name(w))
			}
			if st.bal == 0 {
				st.bal = -1
			} else {
				st.bal = 0
			}
		case "TryLock", "TryRLock":
			b := st
			b.bal = 1
			return []mst{st, b}, true
		}
		return []mst{st}, true
	}
	m.spawn = func(m *machine, f *ssa.Function, sp *spawn, st mst) []mst {
		for _, b := range sp.bodies {
			if o.fns[b] {
				for _, s := range m.exec(b, mst{worker: true}) {
					if s.bal != 0 {
						m.report(f, "lock-kept", sp.site, "a goroutine started in %s ends holding lock %s", FnName(f), o.name(w))
					}
				}
			}
		}
		return []mst{st}
	}
	tops := m.tops(func(s mst) bool { return s.bal == 0 })
	m.memo = map[machKey][]mst{}
	m.loud = true
	for _, f := range tops {
		for _, s := range m.exec(f, mst{}) {
			if s.bal > 0 {
				add("lock-kept/"+FnName(f)+"/"+o.name(w), f.Pos(), FnName(f)+" can return holding lock "+o.name(w))
			}
		}
	}
	r.Count("path states explored", m.paths)
}
