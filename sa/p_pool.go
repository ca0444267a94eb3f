package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// poolModel: the functions that hand memory to a sync.Pool through one of
// their parameters, and those that hand memory out.
type poolModel struct {
	releases map[*ssa.Function]map[int]bool // parameter indices that end up in Put
	layer    map[*ssa.Function]bool         // functions of the package(s) that call sync.Pool directly
	puts     []ssa.CallInstruction
	gets     []ssa.CallInstruction
}

func (w *World) poolModel() *poolModel {
	m := &poolModel{releases: map[*ssa.Function]map[int]bool{}, layer: map[*ssa.Function]bool{}}
	pkgs := map[string]bool{}
	fns := w.ModFns()
	for _, f := range fns {
		eachInstr(f, func(ins ssa.Instruction) {
			if c, ok := ins.(ssa.CallInstruction); ok {
				switch fullName(c.Common()) {
				case "(*sync.Pool).Put":
					m.puts = append(m.puts, c)
					pkgs[pkgOf(f)] = true
				case "(*sync.Pool).Get":
					m.gets = append(m.gets, c)
					pkgs[pkgOf(f)] = true
				}
			}
		})
	}
	for _, f := range fns {
		if pkgs[pkgOf(f)] {
			m.layer[f] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			for i, p := range f.Params {
				if m.releases[f][i] || !pointerLike(p.Type()) {
					continue
				}
				if m.flowsToRelease(f, p) {
					if m.releases[f] == nil {
						m.releases[f] = map[int]bool{}
					}
					m.releases[f][i] = true
					changed = true
				}
			}
		}
	}
	return m
}

func eachInstr(f *ssa.Function, visit func(ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			visit(ins)
		}
	}
}

// releasedArgs returns the arguments of a call that end up in a pool.
func (m *poolModel) releasedArgs(c ssa.CallInstruction) []ssa.Value {
	com := c.Common()
	if fullName(com) == "(*sync.Pool).Put" {
		return com.Args[1:2]
	}
	f := com.StaticCallee()
	if f == nil {
		return nil
	}
	var out []ssa.Value
	for i := range com.Args {
		if m.releases[f][i] {
			out = append(out, com.Args[i])
		}
	}
	return out
}

// flowsToRelease: the value itself (not something loaded from it) is released.
func (m *poolModel) flowsToRelease(f *ssa.Function, v ssa.Value) bool {
	tainted := map[ssa.Value]bool{v: true}
	hit := false
	for changed := true; changed; {
		changed = false
		set := func(x ssa.Value) {
			if !tainted[x] {
				tainted[x] = true
				changed = true
			}
		}
		eachInstr(f, func(ins ssa.Instruction) {
			switch x := ins.(type) {
			case *ssa.MakeInterface:
				if tainted[x.X] {
					set(x)
				}
			case *ssa.TypeAssert:
				if tainted[x.X] {
					set(x)
				}
			case *ssa.Extract:
				if tainted[x.Tuple] && x.Index == 0 {
					set(x)
				}
			case *ssa.ChangeType:
				if tainted[x.X] {
					set(x)
				}
			case *ssa.ChangeInterface:
				if tainted[x.X] {
					set(x)
				}
			case *ssa.Phi:
				for _, e := range x.Edges {
					if tainted[e] {
						set(x)
					}
				}
			case *ssa.Slice:
				if tainted[x.X] {
					set(x)
				}
			case *ssa.Store:
				if a, ok := x.Addr.(*ssa.Alloc); ok && tainted[x.Val] {
					set(a)
				}
			case *ssa.UnOp:
				if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && tainted[a] {
					set(x)
				}
			case ssa.CallInstruction:
				for _, a := range m.releasedArgs(x) {
					if tainted[a] {
						hit = true
					}
				}
			}
		})
	}
	return hit
}

// valKey renders a value as an access expression so that two loads of the same
// variable compare equal.
func valKey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return placeKey(x.X)
		}
	case *ssa.ChangeType:
		return valKey(x.X)
	case *ssa.MakeInterface:
		return valKey(x.X)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return valKey(x.X)
		}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return valKey(ta.X)
		}
	case *ssa.Const:
		return "const:" + x.String()
	case *ssa.Alloc:
		return "&" + placeKey(x)
	}
	return fmt.Sprintf("%p", v)
}

func placeKey(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.Alloc:
		// a parameter or variable stored exactly once stands for that value
		var st *ssa.Store
		n := 0
		for _, r := range *x.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == x {
				st = s
				n++
			}
		}
		if n == 1 {
			return valKey(st.Val)
		}
		return fmt.Sprintf("%p", x)
	case *ssa.FieldAddr:
		return valKey(x.X) + "." + itoa(x.Field)
	case *ssa.IndexAddr:
		return valKey(x.X) + "[" + valKey(x.Index) + "]"
	}
	return fmt.Sprintf("*%p", a)
}

// ---- complete clearing ------------------------------------------------------

type clearFact struct {
	key string
	blk *ssa.BasicBlock // the value is cleared once control leaves this block forward
}

func zeroConst(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return true
		}
		switch x.Value.Kind() {
		case constant.Int, constant.Float:
			return constant.Sign(x.Value) == 0
		}
	case *ssa.UnOp:
		// var zero T, never assigned
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					return false
				}
				if _, ok := r.(*ssa.UnOp); !ok {
					if _, ok := r.(*ssa.Store); !ok {
						return false
					}
				}
			}
			return true
		}
	}
	return false
}

// fullLoop: idx runs over every index of a slice with the given key. It
// returns the loop header.
func (w *World) fullLoop(idx ssa.Value, sliceKey string) (head, at *ssa.BasicBlock) {
	ins, ok := idx.(ssa.Instruction)
	if !ok {
		return nil, nil
	}
	for _, l := range w.loopsAround(ins.Block()) {
		c := w.counterOf(l)
		if c == nil || c.idx != idx && c.idx != stripConv(idx) || c.start != nil || !isLenOfKey(stripConv(c.bound), sliceKey) {
			continue
		}
		// the loop is only left through its test
		ok := true
		for b := range l.body {
			for _, s := range b.Succs {
				if !l.body[s] && b != c.exit {
					ok = false
				}
			}
		}
		if ok {
			if c.bottom {
				for _, p := range l.head.Preds {
					if !l.body[p] {
						return l.head, p
					}
				}
			}
			return l.head, l.head
		}
	}
	return nil, nil
}

func isLenOfKey(v ssa.Value, sliceKey string) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Common().Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && valKey(c.Common().Args[0]) == sliceKey
}

func loopBody(h, latch *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	stack := []*ssa.BasicBlock{latch}
	for len(stack) > 0 {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if body[b] {
			continue
		}
		body[b] = true
		stack = append(stack, b.Preds...)
	}
	return body
}

// clearFacts lists the values a function zeroes completely.
func (w *World) clearFacts(f *ssa.Function, depth int) []clearFact {
	var facts []clearFact
	seen := map[string]bool{}
	type elem struct {
		sl  ssa.Value
		idx ssa.Value
		blk *ssa.BasicBlock
	}
	var addElem func(e elem)
	var add func(key string, v ssa.Value, blk *ssa.BasicBlock)
	add = func(key string, v ssa.Value, blk *ssa.BasicBlock) {
		id := fmt.Sprintf("%s@%d", key, blk.Index)
		if seen[id] {
			return
		}
		seen[id] = true
		facts = append(facts, clearFact{key, blk})
		// an element of a bigger slice?
		for x := v; x != nil; {
			switch y := x.(type) {
			case *ssa.UnOp:
				if ia, ok := y.X.(*ssa.IndexAddr); ok && y.Op == token.MUL {
					addElem(elem{ia.X, ia.Index, blk})
				}
				if a, ok := y.X.(*ssa.Alloc); ok {
					// local variable holding the element
					x = nil
					for _, r := range *a.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == a {
							x = s.Val
						}
					}
					continue
				}
			}
			break
		}
	}
	addElem = func(e elem) {
		k := valKey(e.sl)
		h, at := w.fullLoop(e.idx, k)
		if h == nil {
			return
		}
		// executed in every iteration
		for _, p := range h.Preds {
			if h.Dominates(p) && !e.blk.Dominates(p) {
				return
			}
		}
		add(k, e.sl, at)
	}
	eachInstr(f, func(ins ssa.Instruction) {
		switch x := ins.(type) {
		case *ssa.Store:
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok && zeroConst(x.Val) && isNumeric(x.Val.Type()) {
				if _, isS := ia.X.Type().Underlying().(*types.Slice); isS {
					addElem(elem{ia.X, ia.Index, x.Block()})
				}
			}
		case *ssa.Call:
			if b, ok := x.Common().Value.(*ssa.Builtin); ok {
				if b.Name() == "clear" {
					if s, ok := x.Common().Args[0].Type().Underlying().(*types.Slice); ok && isNumeric(s.Elem()) {
						add(valKey(x.Common().Args[0]), x.Common().Args[0], x.Block())
					}
				}
				return
			}
			g := x.Common().StaticCallee()
			if g == nil || depth > 3 || len(g.Blocks) == 0 || !inModule(g) {
				return
			}
			sub := w.clearFacts(g, depth+1)
			for i, a := range x.Common().Args {
				if i >= len(g.Params) {
					break
				}
				for _, sf := range sub {
					if sf.key == valKey(g.Params[i]) && onAllReturns(g, sf.blk) {
						add(valKey(a), a, x.Block())
						break
					}
				}
			}
		}
	})
	return facts
}

func isNumeric(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func onAllReturns(f *ssa.Function, b *ssa.BasicBlock) bool {
	for _, x := range f.Blocks {
		if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok && !b.Dominates(x) {
			return false
		}
	}
	return true
}

// ---- the check --------------------------------------------------------------

func init() {
	register("P13", "other", "Ownership analysis of pooled buffers: clearing before every sync.Pool.Put, escape of released memory by points-to, double release and use after release by path analysis.", func(w *World, r *Result, th bool) {
		m := w.poolModel()
		if len(m.puts) == 0 {
			r.Count("pool put sites", 0)
			r.Rules = []string{"no sync.Pool in use"}
			return
		}
		// 1. clearing
		uncleared := []ssa.CallInstruction{}
		for _, c := range m.puts {
			r.Count("pool put sites", 1)
			k := valKey(c.Common().Args[1])
			if a, ok := c.Common().Args[1].(*ssa.MakeInterface); ok {
				if al, ok := a.X.(*ssa.Alloc); ok {
					k = placeKey(al)
				}
			}
			ok := false
			for _, cf := range w.clearFacts(c.Parent(), 0) {
				if cf.key == k && cf.blk.Dominates(c.Block()) {
					ok = true
				}
			}
			if !ok {
				uncleared = append(uncleared, c)
			}
		}
		if len(uncleared) > 0 {
			// handing out cleared memory is as good
			allGets := len(m.gets) > 0
			for _, g := range m.gets {
				f := g.Parent()
				ok := false
				v := g.Value()
				for _, cf := range w.clearFacts(f, 0) {
					if v != nil && derivesFrom(cf.key, f, v) {
						ok = true
					}
				}
				if !ok {
					allGets = false
				}
			}
			if !allGets {
				for _, c := range uncleared {
					r.Add("uncleared-put "+FnName(c.Parent()), w.Pos(c.Pos()), "%s puts memory into the pool without zeroing all of it first", FnName(c.Parent()))
				}
			}
		}

		// 2. escape
		p := NewPTA(w)
		p.freshPool = true
		calls := map[*ssa.Function]map[*ssa.Function]int{}
		for f := range m.layer {
			calls[f] = map[*ssa.Function]int{}
			eachInstr(f, func(ins ssa.Instruction) {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						calls[f][g]++
					}
				}
			})
		}
		p.transparent = func(site ssa.CallInstruction, f *ssa.Function) bool {
			return m.layer[site.Parent()] && calls[site.Parent()][f] <= 1
		}
		for _, f := range w.libInits() {
			p.Reach(frame{p.ctx("init", nil, nil), f})
		}
		for _, f := range w.roots {
			if len(f.Blocks) > 0 && !isWrapper(f) {
				p.Root(f, "api:"+f.String())
			}
		}
		p.Solve()
		cellsOf := map[*pobj][]*pcell{}
		for _, c := range p.cells {
			if c.node != nil {
				cellsOf[c.obj] = append(cellsOf[c.obj], c)
			}
		}
		for _, cs := range cellsOf {
			sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
		}
		for _, fr := range p.order {
			if m.layer[fr.fn] {
				continue
			}
			live := p.liveIn(fr)
			for _, b := range fr.fn.Blocks {
				if !live[b] {
					continue
				}
				for _, ins := range b.Instrs {
					c, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					for _, a := range m.releasedArgs(c) {
						if isForwarded(m, fr.fn, a) {
							continue
						}
						r.Count("(release, context) pairs", 1)
						w.checkEscape(r, p, m, fr, c, a, cellsOf)
					}
				}
			}
		}
		// 3. order
		for _, f := range w.ModFns() {
			if m.layer[f] {
				continue
			}
			w.checkReleaseOrder(r, m, f)
		}
		r.Minimum["pool put sites"] = 1
		if len(m.gets) > 0 {
			r.Count("pool get sites", len(m.gets))
		}
		r.Rules = []string{
			"memory given to sync.Pool.Put is completely zeroed on the way there (or on the way out of Get)",
			"memory given back is afterwards unreachable from parameters, captured variables, globals and results of the function that gives it back, except through a field it overwrites on every path",
			"the same value is not given back twice, nor used after it was given back",
		}
	})
}

// isForwarded: the argument is a parameter of the enclosing function, which is
// then itself treated as the release at its call sites.
func isForwarded(m *poolModel, f *ssa.Function, a ssa.Value) bool {
	for i, p := range f.Params {
		if m.releases[f][i] && (a == ssa.Value(p) || valKey(a) == valKey(p)) {
			return true
		}
	}
	return false
}

func derivesFrom(key string, f *ssa.Function, v ssa.Value) bool {
	// the cleared value is what was loaded from the pool
	hit := false
	eachInstr(f, func(ins ssa.Instruction) {
		if x, ok := ins.(ssa.Value); ok && valKey(x) == key {
			y := x
			for i := 0; i < 6; i++ {
				switch z := y.(type) {
				case *ssa.UnOp:
					y = z.X
					continue
				case *ssa.TypeAssert:
					y = z.X
					continue
				case *ssa.Extract:
					y = z.Tuple
					continue
				}
				break
			}
			if y == v {
				hit = true
			}
		}
	})
	return hit
}

func (w *World) checkEscape(r *Result, p *PTA, m *poolModel, fr frame, c ssa.CallInstruction, a ssa.Value, cellsOf map[*pobj][]*pcell) {
	// memory handed over
	A := map[*pobj]bool{}
	var stack []*pobj
	push := func(n *pnode) {
		for q := range n.pts {
			if q.obj.kind == "slice" || q.obj.kind == "sym" || q.obj.kind == "alloc" {
				if !A[q.obj] {
					A[q.obj] = true
					stack = append(stack, q.obj)
				}
			}
		}
	}
	push(p.val(fr, a, ""))
	for len(stack) > 0 {
		o := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for _, q := range cellsOf[o] {
			push(q.node)
		}
	}
	if len(A) == 0 {
		r.Count("releases of untracked memory", 1)
		return
	}
	w.usedByCallers(r, p, fr, A, argName(a), map[frame]bool{}, 0)
	// fields overwritten on every path afterwards
	killed := map[*pcell]bool{}
	for _, addr := range accessChain(a) {
		fa, ok := addr.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		if _, deferred := c.(*ssa.Defer); !deferred && (overwrittenAfter(c, fa) || overwrittenBefore(c, a, fa)) {
			for q := range p.val(fr, fa, "").pts {
				killed[q] = true
			}
		}
	}
	// everything the function leaves behind
	seen := map[*pobj]bool{}
	type from struct {
		c *pcell
	}
	parent := map[*pobj]*pcell{}
	var q []*pobj
	visit := func(n *pnode, via *pcell) {
		for x := range n.pts {
			if !seen[x.obj] {
				seen[x.obj] = true
				parent[x.obj] = via
				q = append(q, x.obj)
			}
		}
	}
	for _, prm := range fr.fn.Params {
		for _, l := range p.leaves(prm.Type()) {
			visit(p.val(fr, prm, l.path), nil)
		}
	}
	for _, fv := range fr.fn.FreeVars {
		for _, l := range p.leaves(fv.Type()) {
			visit(p.val(fr, fv, l.path), nil)
		}
	}
	rs := fr.fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		for _, l := range p.leaves(rs.At(i).Type()) {
			visit(p.ret(fr, i, l.path), nil)
		}
	}
	for _, o := range p.objs {
		if moduleGlobal(o) && !seen[o] {
			seen[o] = true
			q = append(q, o)
		}
	}
	for len(q) > 0 {
		o := q[len(q)-1]
		q = q[:len(q)-1]
		if A[o] {
			where := "a result, parameter or captured variable"
			if v := parent[o]; v != nil {
				where = v.String()
				if v.typ != nil || v.obj.typ != nil {
					where = typeName(v.obj.typ) + v.FieldPath()
				}
			}
			r.Add("live-release "+FnName(fr.fn)+" "+argName(a), w.Pos(c.Pos()), "%s gives memory back to the pool that is still referenced by %s", FnName(fr.fn), where)
			return
		}
		for _, x := range cellsOf[o] {
			if killed[x] {
				continue
			}
			visit(x.node, x)
		}
	}
}

func typeName(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func argName(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.UnOp:
		if fv := fieldVarOf(x.X); fv != nil {
			return fv.Name()
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			return argName(ia.X) + "[]"
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			return al.Comment
		}
	case *ssa.Call:
		if f := x.Common().StaticCallee(); f != nil {
			return "result of " + f.Name()
		}
	}
	return "value"
}

// accessChain lists the addresses a value was loaded through.
func accessChain(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return out
			}
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FieldAddr:
			out = append(out, x)
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return out
		}
	}
	return out
}

// overwrittenAfter: every path from the call to the end of the function
// assigns the field.
func overwrittenAfter(c ssa.CallInstruction, fa *ssa.FieldAddr) bool {
	key := placeKey(fa)
	kills := func(ins ssa.Instruction) bool {
		s, ok := ins.(*ssa.Store)
		return ok && placeKey(s.Addr) == key
	}
	return mustPass(c, kills)
}

// overwrittenBefore: the field is assigned between the load of the released
// value and its release.
func overwrittenBefore(c ssa.CallInstruction, v ssa.Value, fa *ssa.FieldAddr) bool {
	ld, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	key := placeKey(fa)
	hit := false
	eachInstr(c.Parent(), func(ins ssa.Instruction) {
		if s, ok := ins.(*ssa.Store); ok && placeKey(s.Addr) == key && dominatesInstr(ld, s) && dominatesInstr(s, c) {
			hit = true
		}
	})
	return hit
}

func dominatesInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return indexOf(a.Block(), a) < indexOf(b.Block(), b)
	}
	return a.Block().Dominates(b.Block())
}

// usedByCallers: a caller keeps using memory that a callee gave back.
func (w *World) usedByCallers(r *Result, p *PTA, fr frame, A map[*pobj]bool, what string, seen map[frame]bool, depth int) {
	if depth > 6 || seen[fr] {
		return
	}
	seen[fr] = true
	for _, e := range p.callers[fr] {
		if e.site == nil {
			continue
		}
		if _, isCall := e.site.(*ssa.Call); isCall {
			eachInstr(e.fr.fn, func(ins ssa.Instruction) {
				if ins == ssa.Instruction(e.site) {
					return
				}
				switch ins.(type) {
				case *ssa.Phi, *ssa.DebugRef, *ssa.BinOp:
					return
				}
				for _, op := range ins.Operands(nil) {
					v := *op
					if v == nil || !pointerLike(v.Type()) {
						continue
					}
					d, ok := v.(ssa.Instruction)
					if !ok || !dominatesInstr(d, e.site) {
						continue
					}
					if _, isAlloc := v.(*ssa.Alloc); isAlloc {
						continue
					}
					in := false
					for q := range p.val(e.fr, v, "").pts {
						if A[q.obj] {
							in = true
						}
					}
					if in && reachesWithout(e.site, ins, v, v) {
						r.Add("use-after-release "+FnName(e.fr.fn)+" "+what, w.Pos(instrPos(ins)), "%s uses %s after %s gave it back to the pool", FnName(e.fr.fn), what, FnName(fr.fn))
					}
				}
			})
		}
		w.usedByCallers(r, p, e.fr, A, what, seen, depth+1)
	}
}

// mustPass: every path from just after ins to a return executes an instruction
// satisfying pred.
func mustPass(ins ssa.Instruction, pred func(ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) bool
	walk = func(b *ssa.BasicBlock, from int) bool {
		for i := from; i < len(b.Instrs); i++ {
			if pred(b.Instrs[i]) {
				return true
			}
			switch b.Instrs[i].(type) {
			case *ssa.Return:
				return false
			case *ssa.Panic:
				return true
			}
		}
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			if !walk(s, 0) {
				return false
			}
		}
		return true
	}
	b := ins.Block()
	return walk(b, indexOf(b, ins)+1)
}

func indexOf(b *ssa.BasicBlock, ins ssa.Instruction) int {
	for i, x := range b.Instrs {
		if x == ins {
			return i
		}
	}
	return -1
}

// aliasesOf: SSA values of a function that denote (part of) the memory of v.
func aliasesOf(f *ssa.Function, v ssa.Value) map[ssa.Value]bool {
	al := map[ssa.Value]bool{v: true}
	for changed := true; changed; {
		changed = false
		eachInstr(f, func(ins ssa.Instruction) {
			x, ok := ins.(ssa.Value)
			if !ok || al[x] {
				return
			}
			switch y := x.(type) {
			case *ssa.IndexAddr:
				if !al[y.X] {
					return
				}
			case *ssa.Slice:
				if !al[y.X] {
					return
				}
			case *ssa.UnOp:
				if y.Op != token.MUL || !al[y.X] || !pointerLike(y.Type()) {
					return
				}
			case *ssa.ChangeType:
				if !al[y.X] {
					return
				}
			default:
				return
			}
			al[x] = true
			changed = true
		})
	}
	return al
}

func (w *World) checkReleaseOrder(r *Result, m *poolModel, f *ssa.Function) {
	type rel struct {
		c ssa.CallInstruction
		v ssa.Value
	}
	var rels []rel
	eachInstr(f, func(ins ssa.Instruction) {
		if c, ok := ins.(ssa.CallInstruction); ok {
			for _, a := range m.releasedArgs(c) {
				rels = append(rels, rel{c, a})
			}
		}
	})
	if len(rels) == 0 {
		return
	}
	r.Count("release sites", len(rels))
	for _, x := range rels {
		_, deferred := x.c.(*ssa.Defer)
		// double release
		for _, y := range rels {
			if y.v != x.v && !(sameLoad(x.v, y.v) && !loopVariant(x.v)) {
				continue
			}
			if x.c == y.c {
				if !inLoopWithout(x.c, x.v) {
					continue
				}
			} else if _, yd := y.c.(*ssa.Defer); !yd || deferred {
				if !reachesWithout(x.c, y.c, x.v, y.v) && !(deferred && reachesWithout(y.c, x.c, x.v, y.v)) {
					continue
				}
			} else if !reachesWithout(y.c, x.c, x.v, y.v) && !reachesWithout(x.c, y.c, x.v, y.v) {
				continue
			}
			r.Add("double-release "+FnName(f)+" "+argName(x.v), w.Pos(y.c.Pos()), "%s gives %s back to the pool more than once", FnName(f), argName(x.v))
		}
		if deferred {
			continue
		}
		al := aliasesOf(f, x.v)
		eachInstr(f, func(ins ssa.Instruction) {
			if ins == ssa.Instruction(x.c) {
				return
			}
			if ic, ok := ins.(ssa.CallInstruction); ok {
				for _, a := range m.releasedArgs(ic) {
					if a == x.v {
						return // reported above
					}
				}
			}
			if _, ok := ins.(*ssa.DebugRef); ok {
				return
			}
			if _, ok := ins.(*ssa.Phi); ok {
				return
			}
			for _, op := range ins.Operands(nil) {
				if *op != nil && al[*op] && reachesWithout(x.c, ins, x.v, x.v) {
					if s, ok := ins.(*ssa.Store); ok && s.Addr != *op && false {
						_ = s
					}
					// comparison with nil or taking the length is harmless
					if b, ok := ins.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
						continue
					}
					r.Add("use-after-release "+FnName(f)+" "+argName(x.v), w.Pos(instrPos(ins)), "%s uses %s after giving it back to the pool", FnName(f), argName(x.v))
					return
				}
			}
		})
	}
}

// sameLoad: two values loaded from the same place.
func sameLoad(a, b ssa.Value) bool {
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && placeKey(ua.X) == placeKey(ub.X)
}

func loopVariant(v ssa.Value) bool { return false }

func inLoopWithout(c ssa.CallInstruction, v ssa.Value) bool {
	return reachesWithout(c, c, v, v)
}

// reachesWithout: a path from just after a to b on which neither v1 nor v2 is
// (re)computed and the place they were loaded from is not overwritten.
func reachesWithout(a, b ssa.Instruction, v1, v2 ssa.Value) bool {
	stop := func(ins ssa.Instruction) bool {
		if x, ok := ins.(ssa.Value); ok && x == v1 && x == v2 {
			return true
		}
		if s, ok := ins.(*ssa.Store); ok {
			for _, v := range []ssa.Value{v1, v2} {
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
					k := placeKey(u.X)
					sk := placeKey(s.Addr)
					if k == sk || len(k) > len(sk) && k[:len(sk)] == sk {
						return true
					}
				}
			}
		}
		return false
	}
	// values loaded through an index or loop variable change with it
	for _, v := range []ssa.Value{v1, v2} {
		for x := v; ; {
			u, ok := x.(*ssa.UnOp)
			if !ok {
				break
			}
			ia, ok := u.X.(*ssa.IndexAddr)
			if !ok {
				break
			}
			if _, isC := ia.Index.(*ssa.Const); !isC && a.Block() != b.Block() && v1 != v2 {
				return false
			}
			x = ia.X
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(blk *ssa.BasicBlock, from int) bool
	walk = func(blk *ssa.BasicBlock, from int) bool {
		for i := from; i < len(blk.Instrs); i++ {
			if blk.Instrs[i] == b {
				return true
			}
			if stop(blk.Instrs[i]) {
				return false
			}
		}
		for _, s := range blk.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return walk(a.Block(), indexOf(a.Block(), a)+1)
}
