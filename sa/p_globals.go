package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// solveWhole runs the points-to analysis from every exported entry point and
// from package initialisation.
func (w *World) solveWhole() *PTA {
	if w.whole != nil {
		return w.whole
	}
	p := NewPTA(w)
	for _, f := range w.libInits() {
		p.Reach(frame{p.ctx("init", nil, nil), f})
	}
	for _, f := range w.roots {
		if len(f.Blocks) > 0 && !isWrapper(f) {
			p.Root(f, "api:"+f.String())
		}
	}
	p.Solve()
	w.whole = p
	return p
}

func moduleGlobal(o *pobj) bool {
	g, ok := o.site.(*ssa.Global)
	return ok && o.kind == "global" && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
}

func init() {
	register("P09", "other", "Points-to analysis (field-sensitive Andersen, call-site sensitive) from every API entry point: no store, map update or copy outside package initialisation targets a package-level variable or memory built during initialisation.", func(w *World, r *Result, th bool) {
		p := w.solveWhole()
		r.Count("analysed (function, context) pairs", len(p.order))
		g := map[*ssa.Global]bool{}
		for _, o := range p.objs {
			if moduleGlobal(o) {
				g[o.site.(*ssa.Global)] = true
			}
		}
		r.Count("package-level variables", len(g))
		r.Minimum["package-level variables"] = 30
		visit := func(wr pWrite) {
			if wr.fr.ctx.root == "init" {
				return
			}
			r.Count("memory writes checked", 1)
			if len(wr.cells) == 0 {
				r.Count("writes with an empty target set", 1)
			}
			for _, c := range wr.cells {
				if !moduleGlobal(c.obj) && !(c.obj.ctx != nil && c.obj.ctx.root == "init") {
					continue
				}
				if isPoolRegistry(wr, c) {
					r.Count("writes to buffer pool registries (exempt)", 1)
					continue
				}
				r.Add("writes-global in "+FnName(wr.fr.fn)+" "+globalName(c), w.Pos(instrPos(wr.ins)), "%s in %s modifies package-level state %s%s after initialisation", wr.what, FnName(wr.fr.fn), globalName(c), c.FieldPath())
			}
		}
		p.Writes(visit)
		// standard library objects kept in package-level state: sync.Map, atomics,
		// buffers, ...
		for _, fr := range p.order {
			live := p.liveIn(fr)
			for _, b := range fr.fn.Blocks {
				if !live[b] {
					continue
				}
				for _, ins := range b.Instrs {
					c, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if a := mutatedByStd(c.Common()); a != nil {
						visit(pWrite{fr, ins, p.Pts(fr, a), "call of " + c.Common().StaticCallee().String()})
					}
				}
			}
		}
		r.Minimum["memory writes checked"] = 500
		r.Rules = []string{"no write reachable from an exported function targets a package-level variable, or an object allocated by package initialisation; the registry of buffer pools (a map to *sync.Pool) is the only exemption"}
	})
}

func globalName(c *pcell) string {
	if g, ok := c.obj.site.(*ssa.Global); ok {
		return g.Pkg.Pkg.Name() + "." + g.Name()
	}
	if v, ok := c.obj.site.(ssa.Instruction); ok && v.Parent() != nil {
		return "object built by " + FnName(v.Parent())
	}
	return c.String()
}

// mutatedByStd: the object a standard library call modifies.
func mutatedByStd(c *ssa.CallCommon) ssa.Value {
	f := c.StaticCallee()
	if f == nil || inModule(f) || len(c.Args) == 0 {
		return nil
	}
	if _, ok := c.Args[0].Type().Underlying().(*types.Pointer); !ok {
		return nil
	}
	n := f.Name()
	if i := strings.IndexByte(n, '['); i > 0 {
		n = n[:i]
	}
	recv := f.Signature.Recv() != nil
	if !recv && !strings.HasPrefix(f.String(), "sync/atomic.") {
		return nil
	}
	if recv && f.Signature.Recv().Type().String() == "*sync.Pool" {
		return nil
	}
	for _, p := range []string{"Store", "Swap", "CompareAnd", "Add", "Delete", "LoadOrStore", "LoadAndDelete", "Put", "Write", "Reset", "Set", "Or", "And", "Clear", "Push", "Insert", "Remove", "Read", "Truncate", "Grow", "Seed", "Int", "Float", "Perm", "Shuffle"} {
		if strings.HasPrefix(n, p) {
			if recv && f.Signature.Recv().Type().String() == "*sync.WaitGroup" {
				return nil
			}
			return c.Args[0]
		}
	}
	return nil
}

// holdsPools: a struct that registers buffer pools.
func holdsPools(t types.Type) bool {
	if t == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if m, ok := st.Field(i).Type().Underlying().(*types.Map); ok && m.Elem().String() == "*sync.Pool" {
			return true
		}
	}
	return false
}

// isPoolRegistry: a map whose values are *sync.Pool, and the usage counters next
// to it.
func isPoolRegistry(wr pWrite, c *pcell) bool {
	if call, ok := wr.ins.(ssa.CallInstruction); ok {
		if f := call.Common().StaticCallee(); f != nil && f.Signature.Recv() != nil && strings.HasPrefix(f.Signature.Recv().Type().String(), "*sync/atomic.") {
			return holdsPools(c.obj.typ)
		}
		for _, a := range call.Common().Args {
			if mi, ok := a.(*ssa.MakeInterface); ok && mi.X.Type().String() == "*sync.Pool" {
				return true
			}
		}
	}
	mu, ok := wr.ins.(*ssa.MapUpdate)
	if !ok {
		return false
	}
	return mu.Map.Type().Underlying().(*types.Map).Elem().String() == "*sync.Pool"
}
