package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frames kept for later (reference frames, low-frequency frames). A slot is a
// struct field that holds a container of frames, a frame being a slice or an
// array of image buffers. Whatever is read from a slot is represented by one
// symbolic tree ("saved:"), so that changes made through a slot are told from
// changes made to the frame that was put there.

// bufferDepth counts the container layers around image.ImageBuffer.
func (w *World) bufferDepth(t types.Type) int {
	ib := w.NamedType("image", "ImageBuffer")
	if ib == nil {
		die("image.ImageBuffer not found")
	}
	n := 0
	for {
		if types.Identical(types.Unalias(t), ib) {
			return n
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			t = u.Elem()
			n++
		case *types.Array:
			t = u.Elem()
			n++
		case *types.Map:
			t = u.Elem()
			n++
		case *types.Pointer:
			t = u.Elem()
		default:
			return -1
		}
	}
}

func (w *World) slotField(x *ssa.FieldAddr) *types.Var {
	st, ok := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if v := st.Field(x.Field); w.bufferDepth(v.Type()) >= 2 {
		return v
	}
	return nil
}

type saveEvent struct {
	fr   frame
	ins  ssa.Instruction
	val  ssa.Value
	slot *pcell
}

func checkSaved(w *World, r *Result, th bool) {
	p := NewPTA(w)
	p.slotField = w.slotField
	p.freshPool = true
	for _, f := range w.libInits() {
		p.Reach(frame{p.ctx("init", nil, nil), f})
	}
	for _, f := range w.roots {
		if len(f.Blocks) > 0 && !isWrapper(f) {
			p.Root(f, "api:"+f.String())
		}
	}
	p.Solve()
	slots := map[string]bool{}
	var saves []saveEvent
	writers := map[*pobj]map[frame]bool{}
	direct := map[*pobj]map[frame][]ssa.Instruction{}
	p.Writes(func(wr pWrite) {
		if wr.fr.ctx.root == "init" {
			return
		}
		r.Count("memory writes checked", 1)
		for _, c := range wr.cells {
			if saved(c) {
				slots[c.obj.root.name] = true
				d := -1
				if c.typ != nil {
					d = w.bufferDepth(c.typ)
				}
				switch {
				case d >= 2:
					// the container itself is replaced
				case d == 1:
					var v ssa.Value
					switch x := wr.ins.(type) {
					case *ssa.Store:
						v = x.Val
					case *ssa.MapUpdate:
						v = x.Value
					}
					if v != nil {
						saves = append(saves, saveEvent{wr.fr, wr.ins, v, c})
					}
				default:
					r.Add("saved-frame-written "+FnName(wr.fr.fn), w.Pos(instrPos(wr.ins)), "%s: %s changes a frame kept in %s, which later frames still refer to", FnName(wr.fr.fn), wr.what, strings.TrimPrefix(c.obj.root.name, "saved:"))
				}
				continue
			}
			if writers[c.obj] == nil {
				writers[c.obj] = map[frame]bool{}
				direct[c.obj] = map[frame][]ssa.Instruction{}
			}
			writers[c.obj][wr.fr] = true
			direct[c.obj][wr.fr] = append(direct[c.obj][wr.fr], wr.ins)
		}
	})
	for s := range slots {
		r.Sample("slot " + strings.TrimPrefix(s, "saved:"))
	}
	r.Count("frame slots", len(slots))
	r.Count("places where a frame is kept", 0)
	seenSave := map[ssa.Instruction]bool{}
	sub := map[frame]map[frame]bool{} // frames below a frame, itself included
	below := func(fr frame) map[frame]bool {
		if m := sub[fr]; m != nil {
			return m
		}
		m := map[frame]bool{fr: true}
		st := []frame{fr}
		for len(st) > 0 {
			f := st[len(st)-1]
			st = st[:len(st)-1]
			for _, o := range p.out(f) {
				if !m[o] {
					m[o] = true
					st = append(st, o)
				}
			}
		}
		sub[fr] = m
		return m
	}
	// what a call creates, and what can still be reached after it by other
	// ways than through what it created
	type gone struct{ made, left map[*pobj]bool }
	made := map[frame][]*pobj{}
	for _, o := range p.objs {
		if i, ok := o.site.(ssa.Instruction); ok && o.site != nil && i.Parent() != nil {
			fr := frame{o.ctx, i.Parent()}
			made[fr] = append(made[fr], o)
		}
	}
	fc := map[edgeKey]gone{}
	fresh := func(fr frame, c ssa.CallInstruction) gone {
		if g, ok := fc[edgeKey{fr, c}]; ok {
			return g
		}
		g := gone{made: map[*pobj]bool{}}
		for cal := range p.edges[edgeKey{fr, c}] {
			for f := range below(cal) {
				for _, o := range made[f] {
					g.made[o] = true
				}
			}
		}
		var roots []*pcell
		for k, cell := range p.cells {
			_ = k
			if cell.obj.kind == "global" || cell.obj.kind == "sym" && !saved(cell) {
				roots = append(roots, cell)
			}
		}
		var loop *natLoop
		for _, l := range w.loopsIn(fr.fn) {
			if l.body[c.Block()] && (loop == nil || len(l.body) > len(loop.body)) {
				loop = l
			}
		}
		roots = append(roots, p.frameValues(fr, func(v ssa.Value) bool {
			// values that are computed anew after the call do not count
			i, ok := v.(ssa.Instruction)
			return !ok || loop == nil || !loop.body[i.Block()] || !comesFirst(c, i)
		})...)
		up := map[frame]bool{fr: true}
		st := []frame{fr}
		for len(st) > 0 {
			f := st[len(st)-1]
			st = st[:len(st)-1]
			for _, e := range p.callers[f] {
				if e.site != nil && !up[e.fr] {
					up[e.fr] = true
					st = append(st, e.fr)
					roots = append(roots, p.frameValues(e.fr, func(ssa.Value) bool { return true })...)
				}
			}
		}
		g.left = p.reachableBut(roots, g.made)
		fc[edgeKey{fr, c}] = g
		return g
	}
	for _, s := range saves {
		if !seenSave[s.ins] {
			seenSave[s.ins] = true
			r.Count("places where a frame is kept", 1)
		}
		objs := p.reachable(p.Pts(s.fr, s.val))
		for o := range objs {
			if len(writers[o]) == 0 || o.root != nil && strings.HasPrefix(o.root.name, "saved:") {
				continue
			}
			r.Count("kept buffers followed", 1)
			// walk on from the save, and from the calls that lead to it
			type at struct {
				fr  frame
				ins ssa.Instruction
			}
			seen := map[at]bool{}
			todo := []at{{s.fr, s.ins}}
			for len(todo) > 0 {
				a := todo[0]
				todo = todo[1:]
				if seen[a] {
					continue
				}
				seen[a] = true
				w.walkAfter(a.ins, func(i ssa.Instruction) bool {
					// true: stop here
					if v, ok := i.(ssa.Value); ok && o.site == v && o.ctx == a.fr.ctx {
						return true
					}
					if direct[o] != nil {
						for _, d := range direct[o][a.fr] {
							if d == i {
								r.Add("kept-then-written "+FnName(s.fr.fn)+": "+FnName(a.fr.fn), w.Pos(instrPos(i)), "%s keeps a frame in %s (%s), but %s goes on to change its buffers", FnName(s.fr.fn), strings.TrimPrefix(s.slot.obj.root.name, "saved:"), w.Pos(instrPos(s.ins)), FnName(a.fr.fn))
								return true
							}
						}
					}
					c, ok := i.(ssa.CallInstruction)
					if !ok {
						return false
					}
					hit := false
					for cal := range p.edges[edgeKey{a.fr, c}] {
						for f := range writers[o] {
							if below(cal)[f] {
								hit = true
							}
						}
					}
					if g := fresh(a.fr, c); g.made[o] || !g.left[o] {
						return true // from here on it is a new one
					}
					if hit {
						r.Add("kept-then-written "+FnName(s.fr.fn)+": "+calleeLabel(c), w.Pos(instrPos(i)), "%s keeps a frame in %s (%s), but its buffers are shared and change later, in this call of %s", FnName(s.fr.fn), strings.TrimPrefix(s.slot.obj.root.name, "saved:"), w.Pos(instrPos(s.ins)), calleeLabel(c))
						return true
					}
					return false
				})
				for _, e := range p.callers[a.fr] {
					if e.site != nil {
						todo = append(todo, at{e.fr, e.site})
					}
				}
			}
		}
	}
}

func calleeLabel(c ssa.CallInstruction) string {
	if f := c.Common().StaticCallee(); f != nil {
		return FnName(f)
	}
	if c.Common().IsInvoke() {
		return c.Common().Method.Name()
	}
	return "a function value"
}

func saved(c *pcell) bool {
	return c.obj.root != nil && c.obj.root.kind == "sym" && strings.HasPrefix(c.obj.root.name, "saved:")
}

// walkAfter visits the instructions that may run after ins in its function,
// each once, not going on past those for which stop is true.
func (w *World) walkAfter(ins ssa.Instruction, stop func(ssa.Instruction) bool) {
	b := ins.Block()
	start := -1
	for i, x := range b.Instrs {
		if x == ins {
			start = i + 1
		}
	}
	run := func(b *ssa.BasicBlock, from int) bool {
		for _, x := range b.Instrs[from:] {
			if stop(x) {
				return false
			}
		}
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var todo []*ssa.BasicBlock
	if run(b, start) {
		todo = append(todo, b.Succs...)
	}
	for len(todo) > 0 {
		b := todo[0]
		todo = todo[1:]
		if seen[b] {
			continue
		}
		seen[b] = true
		if run(b, 0) {
			todo = append(todo, b.Succs...)
		}
	}
}

// reachable returns the objects reachable from the cells.
func (p *PTA) reachable(cs []*pcell) map[*pobj]bool {
	return p.reachableBut(cs, nil)
}

func (p *PTA) reachableBut(cs []*pcell, but map[*pobj]bool) map[*pobj]bool {
	out := map[*pobj]bool{}
	byObj := p.cellsOf()
	var todo []*pobj
	add := func(o *pobj) {
		if !out[o] && !but[o] {
			out[o] = true
			todo = append(todo, o)
		}
	}
	for _, c := range cs {
		add(c.obj)
	}
	for len(todo) > 0 {
		o := todo[0]
		todo = todo[1:]
		for _, c := range byObj[o] {
			if c.node == nil {
				continue
			}
			for q := range c.node.pts {
				add(q.obj)
			}
		}
	}
	return out
}

// comesFirst: a is i, or is always executed before i.
func comesFirst(a, i ssa.Instruction) bool {
	if a.Block() != i.Block() {
		return a.Block().Dominates(i.Block())
	}
	for _, x := range a.Block().Instrs {
		if x == a {
			return true
		}
		if x == i {
			return false
		}
	}
	return false
}

// frameValues: what the values of a frame point to.
func (p *PTA) frameValues(fr frame, keep func(ssa.Value) bool) []*pcell {
	var out []*pcell
	use := func(v ssa.Value) {
		if v == nil || !keep(v) {
			return
		}
		for _, l := range p.leaves(v.Type()) {
			for c := range p.val(fr, v, l.path).pts {
				out = append(out, c)
			}
		}
	}
	for _, v := range fr.fn.Params {
		use(v)
	}
	for _, v := range fr.fn.FreeVars {
		use(v)
	}
	eachInstr(fr.fn, func(i ssa.Instruction) {
		if v, ok := i.(ssa.Value); ok && v.Type() != nil {
			if t, ok := v.Type().(*types.Tuple); ok && t.Len() == 0 {
				return
			}
			use(v)
		}
	})
	return out
}

func (p *PTA) cellsOf() map[*pobj][]*pcell {
	if p.objCells != nil {
		return p.objCells
	}
	m := map[*pobj][]*pcell{}
	for _, c := range p.cells {
		m[c.obj] = append(m[c.obj], c)
	}
	p.objCells = m
	return m
}

func init() {
	register("P17", "other", "Points-to analysis: memory reachable from a frame kept in a reference or low-frequency slot is never written through the slot, and not written after the save by anything that still shares it (forward walk from each save over the calling contexts).", func(w *World, r *Result, th bool) {
		r.Rules = []string{
			"no store, copy or map update targets a buffer reached through a slot that keeps frames; only whole slots are replaced",
			"on no path after a frame was put into a slot is one of its buffers written through another reference, unless that buffer was created anew on the path",
		}
		r.Minimum = map[string]int{"frame slots": 1, "places where a frame is kept": 1, "memory writes checked": 100}
		checkSaved(w, r, th)
	})
}
