package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type errAnalysis struct {
	reps    []errReport
	sites   []errSite
	e       *errWalk
	workers map[*ssa.Function]bool
	decode  map[*ssa.Function]bool
	export  map[*ssa.Function]bool
	nGo     int
}

var errCache *errAnalysis

// decodeRoots / exportRoots partition the exported API.
func (w *World) splitRoots() (dec, exp []*ssa.Function) {
	for _, f := range w.roots {
		n := FnName(f)
		switch {
		case strings.Contains(n, "JXLImage)") || strings.Contains(n, "PNGWriter") || strings.Contains(n, "WritePFM") || strings.Contains(n, "PFM"):
			exp = append(exp, f)
		default:
			dec = append(dec, f)
		}
	}
	return
}

func analyseErrors(w *World) *errAnalysis {
	if errCache != nil {
		return errCache
	}
	a := &errAnalysis{e: newErrWalk(w), workers: map[*ssa.Function]bool{}}
	if f := w.Fn("core", "(*BoxReader).ReadBoxHeader"); f != nil {
		only := map[*ssa.Function]bool{}
		for g := range reachFrom(w.cg, []*ssa.Function{f}) {
			if inModule(g) && strings.HasSuffix(pkgOf(g), "/core") {
				only[g] = true
			}
		}
		a.e.eofFns = only
	}
	dec, exp := w.splitRoots()
	a.decode = reachFrom(w.cg, dec)
	a.export = reachFrom(w.cg, exp)
	// worker frames: functions started with go, and the functions without an
	// error result that they call.
	var mark func(f *ssa.Function)
	mark = func(f *ssa.Function) {
		if f == nil || a.workers[f] || !inModule(f) || len(f.Blocks) == 0 {
			return
		}
		a.workers[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					for _, g := range w.Callees(c) {
						if errResultIdx(g.Signature) < 0 {
							mark(g)
						}
					}
				}
			}
		}
	}
	for _, f := range w.ModFns() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if g, ok := ins.(*ssa.Go); ok {
					a.nGo++
					for _, c := range w.Callees(g) {
						mark(c)
					}
				}
			}
		}
	}
	a.reps, a.sites = a.e.run(w.ModFns())
	errCache = a
	return a
}

func (a *errAnalysis) emit(w *World, r *Result, want func(f *ssa.Function) bool, also func(errReport) bool) {
	for _, s := range a.sites {
		if want(s.fn) {
			r.Count("fallible call sites", 1)
			if len(r.Samples) < 8 {
				r.Sample(fmt.Sprintf("%s: %s -> %s", w.Pos(instrPos(s.instr.(ssa.Instruction))), FnName(s.fn), s.name))
			}
		}
	}
	for _, x := range a.reps {
		in := want(x.site.fn)
		if also != nil && also(x) {
			in = true
		}
		if !in {
			continue
		}
		if call, ok := x.site.instr.(*ssa.Call); ok && isReadCall(call) && handRolledFullRead(call, call.Call.Args[len(call.Call.Args)-1]) {
			// a loop that reads until its buffer is full, as io.ReadFull does, may
			// ignore the error that came with the last bytes
			continue
		}
		r.Add(fmt.Sprintf("error-lost %s -> %s", FnName(x.site.fn), x.site.name), w.Pos(instrPos(x.site.instr.(ssa.Instruction))),
			"the error of %s, called in %s, may be non-nil when %s %s (exit at %s)", x.site.name, FnName(x.site.fn), FnName(x.loss.fn), x.loss.why, w.Pos(instrPos(x.loss.at)))
	}
	r.Units["functions analysed"] = len(w.ModFns())
	r.Units["control-flow paths followed (whole library)"] = a.e.nPaths
	r.Rules = append(r.Rules, "for every call with an error result: on every CFG path on which the error may be non-nil the function ends in a return whose error result is non-nil (the error, a wrapper, another error), or hands it to a channel/captured variable whose owner does")
}

func init() {
	register("P01", "other", "Path-sensitive SSA dataflow over every call with an error result reachable (VTA call graph) from the decode API, outside goroutine bodies; the deciding step follows each possibly-non-nil error along every CFG path to the function exits.", func(w *World, r *Result, th bool) {
		a := analyseErrors(w)
		a.emit(w, r, func(f *ssa.Function) bool { return a.decode[f] && !a.workers[f] }, nil)
		r.Minimum["fallible call sites"] = 300
		if len(a.e.eofSites) > 1 {
			r.Add("eof-tolerated", "?", "end of input is tolerated at %d reads (%s); only the read of the next box header may treat it as the normal end", len(a.e.eofSites), strings.Join(a.e.eofSites, ", "))
		}
		r.Units["reads allowed to see end of file (box boundary)"] = len(a.e.eofSites)
		r.Assume = []string{"functions of the standard library report their failures through their error result", "logging and formatting do not count as reporting"}
	})
	register("P02", "other", "Same dataflow for code running in goroutines: an error raised in a worker body must be sent to a channel or captured variable, and the function that owns it must drain and return it on every path after starting the workers.", func(w *World, r *Result, th bool) {
		a := analyseErrors(w)
		a.emit(w, r, func(f *ssa.Function) bool { return a.workers[f] }, nil)
		for _, x := range a.e.overwrites(w) {
			r.Add("error-overwritten "+FnName(x.Parent()), w.Pos(instrPos(x)), "the shared error variable is assigned a value that may be nil by a worker of which several run: a success finishing later erases the failure of another")
		}
		r.Rules = append(r.Rules, "a worker of which several run assigns a shared error variable only a non-nil error, or only while it is still nil")
		r.Units["goroutine start sites"] = a.nGo
		r.Units["hand-over points (channels/captured variables) followed into their owner"] = a.e.nTrans
		r.Minimum["goroutine start sites"] = 1
		r.Minimum["fallible call sites"] = 1
	})
	register("P03", "other", "Same dataflow over the functions reachable from the image exporters (PNG, PFM, image.Image conversion).", func(w *World, r *Result, th bool) {
		a := analyseErrors(w)
		a.emit(w, r, func(f *ssa.Function) bool {
			return a.export[f] && !a.workers[f] && !a.decode[f] || (a.export[f] && isExporter(f))
		}, nil)
		unflushed(w, a, r)
		r.Minimum["fallible call sites"] = 30
	})
}

func isExporter(f *ssa.Function) bool {
	return strings.HasSuffix(pkgOf(f), "/core") || strings.HasSuffix(pkgOf(f), "/image")
}

// overwrites: stores, in code run by workers, of a possibly nil error into a
// single shared variable.
func (e *errWalk) overwrites(w *World) (out []ssa.Instruction) {
	type start struct {
		g    *ssa.Go
		loop bool
	}
	workers := map[*ssa.Function][]start{}
	for _, f := range w.ModFns() {
		scc := e.loopsOf(f).scc
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				g, ok := ins.(*ssa.Go)
				if !ok {
					continue
				}
				for h := range reachFrom(w.cg, w.Callees(g)) {
					if inModule(h) && len(h.Blocks) > 0 {
						workers[h] = append(workers[h], start{g, scc[b] != 0})
					}
				}
			}
		}
	}
	for _, f := range w.ModFns() {
		ss := workers[f]
		if len(ss) == 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok || !isErrorType(st.Val.Type()) {
					continue
				}
				key := addrKey(st.Addr)
				root, yes := foreign(f, key)
				if !yes || strings.Contains(key, "[]") {
					continue
				}
				// private to one worker: made by code the worker runs, or
				// anew for each worker
				shared := false
				for _, s := range ss {
					switch r := root.(type) {
					case *ssa.Alloc:
						own := r.Parent()
						if len(workers[own]) > 0 && own != s.g.Parent() {
							continue
						}
						if own == s.g.Parent() {
							scc := e.loopsOf(own).scc
							if s.loop && scc[r.Block()] == scc[s.g.Block()] {
								continue
							}
						}
						if s.loop || len(ss) > 1 || storesTo(own, r) > 0 {
							shared = true
						}
					case *ssa.Parameter:
						if r.Parent() == s.g.Common().StaticCallee() && s.loop {
							// a pointer handed to each worker
							for i, p := range r.Parent().Params {
								if p == r && i < len(s.g.Common().Args) {
									a := s.g.Common().Args[i]
									if al, ok := a.(*ssa.Alloc); ok {
										scc := e.loopsOf(al.Parent()).scc
										if scc[al.Block()] != scc[s.g.Block()] {
											shared = true
										}
									}
								}
							}
						}
					}
				}
				if !shared {
					continue
				}
				if isNilConst(st.Val) || !(e.nonNilAt(b, st.Val, 0) || derivesFromCell(st.Val, st.Addr, 0) || guardedByNil(b, st.Addr)) {
					out = append(out, ins)
				}
			}
		}
	}
	return
}

func storesTo(f *ssa.Function, a *ssa.Alloc) int {
	n := 0
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a && !isNilConst(s.Val) {
			n++
		}
	}
	return n
}

// nonNilAt: block b only executes when v != nil.
func (e *errWalk) nonNilAt(b *ssa.BasicBlock, v ssa.Value, depth int) bool {
	if e.definitelyNonNil(v, nil, 0) {
		return true
	}
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			break
		}
		ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y := bo.X, bo.Y
		if isNilConst(x) {
			x, y = y, x
		}
		if !isNilConst(y) || !sameErrLoad(x, v) {
			continue
		}
		if bo.Op.String() == "!=" && p.Succs[0] == d && len(d.Preds) == 1 {
			return true
		}
		if bo.Op.String() == "==" && p.Succs[1] == d && len(d.Preds) == 1 {
			return true
		}
	}
	if depth > 4 {
		return false
	}
	f := b.Parent()
	switch v := v.(type) {
	case *ssa.Parameter: // non-nil at every call
		pi := -1
		for i, q := range f.Params {
			if q == v {
				pi = i
			}
		}
		cs := e.w.callersOf(f)
		for _, c := range cs {
			if c.Common().IsInvoke() || pi >= len(c.Common().Args) || !e.nonNilAt(c.(ssa.Instruction).Block(), c.Common().Args[pi], depth+1) {
				return false
			}
		}
		return len(cs) > 0
	case *ssa.UnOp: // a variable of the enclosing function, known there
		if f.Parent() == nil {
			return false
		}
		if fv, ok := v.X.(*ssa.FreeVar); !ok || bindingOf(fv) == nil {
			return false
		}
		for _, pb := range f.Parent().Blocks {
			for _, ins := range pb.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == f {
					return e.nonNilAt(pb, v, depth+1)
				}
			}
		}
	}
	return false
}

// sameErrLoad: the same value, or loads of the same private variable.
func sameErrLoad(x, v ssa.Value) bool {
	if x == v {
		return true
	}
	a, ok1 := x.(*ssa.UnOp)
	b, ok2 := v.(*ssa.UnOp)
	return ok1 && ok2 && a.Op == b.Op && a.Op.String() == "*" && addrKey(a.X) == addrKey(b.X)
}

// unflushed: a buffering or compressing writer made for an export has to be
// flushed or closed on every path that reports success, after the last write.
func unflushed(w *World, a *errAnalysis, r *Result) {
	finish := func(t types.Type) string {
		n := namedOf(t)
		if n == nil || n.Obj().Pkg() == nil {
			return ""
		}
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "bufio.Writer":
			return "Flush"
		case "compress/zlib.Writer", "compress/gzip.Writer", "compress/flate.Writer", "compress/lzw.Writer", "encoding/base64.encoder":
			return "Close"
		}
		return ""
	}
	for _, f := range w.ModFns() {
		if !a.export[f] {
			continue
		}
		for _, b := range f.Blocks {
			for i, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				g := c.Call.StaticCallee()
				if g == nil || inModule(g) || !strings.HasPrefix(g.Name(), "NewWriter") {
					continue
				}
				var val ssa.Value = c
				var t types.Type = c.Type()
				if tu, ok := t.(*types.Tuple); ok {
					t = tu.At(0).Type()
					val = nil
					for _, ref := range *c.Referrers() {
						if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 0 {
							val = ex
						}
					}
				}
				m := finish(t)
				if m == "" || val == nil {
					continue
				}
				r.Count("buffering writers", 1)
				// aliases: interface conversions, variables
				names := map[ssa.Value]bool{val: true}
				cells := map[string]bool{}
				for ch := true; ch; {
					ch = false
					for x := range names {
						if x.Referrers() == nil {
							continue
						}
						for _, ref := range *x.Referrers() {
							switch y := ref.(type) {
							case *ssa.MakeInterface:
								if !names[y] {
									names[y], ch = true, true
								}
							case *ssa.ChangeInterface:
								if !names[y] {
									names[y], ch = true, true
								}
							case *ssa.Phi:
								if !names[y] {
									names[y], ch = true, true
								}
							case *ssa.Store:
								if y.Val == x && !cells[addrKey(y.Addr)] {
									cells[addrKey(y.Addr)], ch = true, true
									for h := range a.export {
										for _, hb := range h.Blocks {
											for _, hi := range hb.Instrs {
												if u, ok := hi.(*ssa.UnOp); ok && u.Op == token.MUL && addrKey(u.X) == addrKey(y.Addr) {
													names[u] = true
												}
											}
										}
									}
								}
							}
						}
					}
				}
				returned := false
				for x := range names {
					if x.Referrers() == nil {
						continue
					}
					for _, ref := range *x.Referrers() {
						if _, ok := ref.(*ssa.Return); ok {
							returned = true
						}
					}
				}
				if returned {
					continue // the caller's business
				}
				touches := func(ci ssa.CallInstruction) (fin, write bool) {
					com := ci.Common()
					uses := false
					for _, ar := range com.Args {
						if names[ar] {
							uses = true
						}
						if mc, ok := ar.(*ssa.MakeClosure); ok {
							for _, bd := range mc.Bindings {
								if cells[addrKey(bd)] || names[bd] {
									uses = true
								}
							}
						}
					}
					if com.IsInvoke() && names[com.Value] {
						uses = true
						if com.Method.Name() == m {
							return true, false
						}
					}
					if mc, ok := com.Value.(*ssa.MakeClosure); ok {
						for _, bd := range mc.Bindings {
							if cells[addrKey(bd)] || names[bd] {
								uses = true
							}
						}
					}
					if !uses {
						return false, false
					}
					if sf := com.StaticCallee(); sf != nil {
						if !inModule(sf) && sf.Name() == m {
							return true, false
						}
						if inModule(sf) && finishes(sf, m, t) {
							return true, false
						}
					}
					return false, true
				}
				type pt struct {
					b    *ssa.BasicBlock
					i    int
					open bool
					def  bool // finished by a deferred call
				}
				seen := map[pt]bool{}
				work := []pt{{b, i + 1, true, false}}
				bad := false
				for len(work) > 0 && !bad {
					p := work[len(work)-1]
					work = work[:len(work)-1]
					if seen[p] {
						continue
					}
					seen[p] = true
					open, def := p.open, p.def
					for j := p.i; j < len(p.b.Instrs); j++ {
						switch x := p.b.Instrs[j].(type) {
						case *ssa.Defer:
							// an unchecked deferred finish is reported as a lost error
							if fin, _ := touches(x); fin {
								def = true
							}
						case *ssa.Call:
							if fin, wr := touches(x); fin {
								open = false
							} else if wr {
								open = true
							}
						case *ssa.Return:
							if !open || def {
								continue
							}
							ok := false
							for _, v := range x.Results {
								if isErrorType(v.Type()) && a.e.nonNilAt(p.b, v, 0) {
									ok = true
								}
							}
							if !ok {
								bad = true
							}
						}
					}
					for _, s := range p.b.Succs {
						work = append(work, pt{s, 0, open, def})
					}
				}
				if bad {
					r.Add("unflushed "+FnName(f)+" "+g.String(), w.Pos(c.Pos()), "the writer made by %s in %s may still hold output when the function reports success: %s is not called after the last write on every path", g.String(), FnName(f), m)
				}
			}
		}
	}
	r.Rules = append(r.Rules, "a buffering or compressing writer made during an export is flushed/closed after its last write on every path that returns a possibly nil error")
}

// finishes: the function calls the finishing method on a parameter of the
// writer's kind on every path to a return without an error.
func finishes(f *ssa.Function, m string, t types.Type) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				com := c.Common()
				if com.IsInvoke() && com.Method.Name() == m {
					return true
				}
				if sf := com.StaticCallee(); sf != nil && sf.Name() == m && len(com.Args) > 0 && types.Identical(com.Args[0].Type(), t) {
					return true
				}
			}
		}
	}
	return false
}

func isReadCall(c *ssa.Call) bool {
	if m := c.Call.Method; m != nil {
		return m.Name() == "Read" && isReadSig(m.Type().(*types.Signature))
	}
	f := c.Call.StaticCallee()
	return f != nil && f.Name() == "Read" && isReadSig(f.Signature)
}
