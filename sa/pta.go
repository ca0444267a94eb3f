package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Andersen-style points-to analysis over SSA: field sensitive, flow
// insensitive, k call-site sensitive (heap objects included), with constant
// boolean/integer parameters propagated into the contexts so that the branches
// they switch off are not analysed.

const ptaK = 4

type pctx struct {
	id     int
	sites  []ssa.CallInstruction // most recent last
	consts string
	cvals  map[int]constant.Value // parameter index -> constant
	root   string
	sole   bool
}

type pobj struct {
	id   int
	kind string // alloc, slice, map, chan, box, func, closure, global, sym, ext, str
	site ssa.Value
	ctx  *pctx
	typ  types.Type
	fn   *ssa.Function
	name string // root name for symbolic trees
	up   *pcell // symbolic: the cell that holds the pointer to it
	dep  int
	root *pobj
}

type pcell struct {
	id   int
	obj  *pobj
	path string
	typ  types.Type // nil when unknown
	node *pnode     // contents, per leaf ("" for a pointer-like cell)
}

type nodeKey struct {
	ctx  *pctx
	v    any
	path string
}

type pnode struct {
	key   nodeKey
	pts   map[*pcell]bool
	delta []*pcell
	inWL  bool
	succ  []*pnode
	succS map[*pnode]bool
	filt  []pfilt
	cons  []func(c *pcell)
}

type pfilt struct {
	to   *pnode
	keep func(*pcell) bool
}

type frame struct {
	ctx *pctx
	fn  *ssa.Function
}

type PTA struct {
	w       *World
	nodes   map[nodeKey]*pnode
	cells   map[string]*pcell
	objs    map[string]*pobj
	ctxs    map[string]*pctx
	wl      []*pnode
	reached map[frame]bool
	order   []frame
	nobj    int
	ncell   int
	leafC   map[types.Type][]leaf
	live    map[frame]map[*ssa.BasicBlock]bool
	edges   map[edgeKey]map[frame]bool
	extCall func(p *PTA, fr frame, c ssa.CallInstruction, name string) bool
	skip    func(fn *ssa.Function) bool
	unknown map[string]int

	slotField   func(*ssa.FieldAddr) *types.Var // fields whose contents are one symbolic tree
	objCells    map[*pobj][]*pcell              // once solved
	tagGo       bool                            // mark the contexts of goroutines with the site that starts them
	outs        map[frame][]frame
	freshPool   bool                                                 // a pool hands out fresh memory and keeps nothing
	transparent func(site ssa.CallInstruction, f *ssa.Function) bool // call sites left out of contexts

	callers  map[frame][]edgeKey
	callerCB map[frame][]func(frame, ssa.CallInstruction)
}

func itoa(n int) string { return strconv.Itoa(n) }

type edgeKey struct {
	fr   frame
	site ssa.CallInstruction
}

type leaf struct {
	path string
	typ  types.Type
}

func NewPTA(w *World) *PTA {
	return &PTA{w: w, nodes: map[nodeKey]*pnode{}, cells: map[string]*pcell{}, objs: map[string]*pobj{}, ctxs: map[string]*pctx{},
		reached: map[frame]bool{}, leafC: map[types.Type][]leaf{}, live: map[frame]map[*ssa.BasicBlock]bool{}, edges: map[edgeKey]map[frame]bool{}, unknown: map[string]int{}, callers: map[frame][]edgeKey{}, callerCB: map[frame][]func(frame, ssa.CallInstruction){}}
}

func pointerLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

func (p *PTA) leaves(t types.Type) []leaf {
	if t == nil {
		return nil
	}
	if l, ok := p.leafC[t]; ok {
		return l
	}
	var out []leaf
	if pointerLike(t) {
		out = []leaf{{"", t}}
	} else {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				for _, l := range p.leaves(u.Field(i).Type()) {
					out = append(out, leaf{"." + strconv.Itoa(i) + l.path, l.typ})
				}
			}
		case *types.Array:
			for _, l := range p.leaves(u.Elem()) {
				out = append(out, leaf{"[]" + l.path, l.typ})
			}
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				for _, l := range p.leaves(u.At(i).Type()) {
					out = append(out, leaf{"#" + strconv.Itoa(i) + l.path, l.typ})
				}
			}
		}
	}
	p.leafC[t] = out
	return out
}

// typeAt follows one or more path elements.
func typeAt(t types.Type, path string) types.Type {
	for path != "" && t != nil {
		switch {
		case path[0] == '.':
			j := 1
			for j < len(path) && path[j] >= '0' && path[j] <= '9' {
				j++
			}
			n, _ := strconv.Atoi(path[1:j])
			st, ok := t.Underlying().(*types.Struct)
			if !ok || n >= st.NumFields() {
				return nil
			}
			t = st.Field(n).Type()
			path = path[j:]
		case strings.HasPrefix(path, "[]"):
			switch u := t.Underlying().(type) {
			case *types.Slice:
				t = u.Elem()
			case *types.Array:
				t = u.Elem()
			default:
				return nil
			}
			path = path[2:]
		case strings.HasPrefix(path, "{k}"):
			m, ok := t.Underlying().(*types.Map)
			if !ok {
				return nil
			}
			t = m.Key()
			path = path[3:]
		case strings.HasPrefix(path, "{}"):
			m, ok := t.Underlying().(*types.Map)
			if !ok {
				return nil
			}
			t = m.Elem()
			path = path[2:]
		case strings.HasPrefix(path, "<>"):
			m, ok := t.Underlying().(*types.Chan)
			if !ok {
				return nil
			}
			t = m.Elem()
			path = path[2:]
		default:
			return nil
		}
	}
	return t
}

func (p *PTA) ctx(root string, sites []ssa.CallInstruction, cv map[int]constant.Value) *pctx {
	if len(sites) > ptaK {
		sites = sites[len(sites)-ptaK:]
	}
	var sb strings.Builder
	sb.WriteString(root)
	for _, s := range sites {
		fmt.Fprintf(&sb, "|%p", s)
	}
	cs := ""
	var ks []int
	for k := range cv {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		cs += fmt.Sprintf(";%d=%s", k, cv[k].ExactString())
	}
	key := sb.String() + cs
	if c := p.ctxs[key]; c != nil {
		return c
	}
	c := &pctx{id: len(p.ctxs), sites: append([]ssa.CallInstruction{}, sites...), consts: cs, cvals: cv, root: root}
	p.ctxs[key] = c
	return c
}

func (c *pctx) idOf() int {
	if c == nil {
		return -1
	}
	return c.id
}

func (p *PTA) object(kind string, site ssa.Value, ctx *pctx, typ types.Type, extra string) *pobj {
	key := fmt.Sprintf("%s|%p|%d|%s", kind, site, ctx.idOf(), extra)
	if o := p.objs[key]; o != nil {
		return o
	}
	o := &pobj{id: p.nobj, kind: kind, site: site, ctx: ctx, typ: typ, name: extra}
	o.root = o
	p.nobj++
	p.objs[key] = o
	return o
}

func (p *PTA) cell(o *pobj, path string) *pcell {
	key := strconv.Itoa(o.id) + ":" + path
	if c := p.cells[key]; c != nil {
		return c
	}
	c := &pcell{id: p.ncell, obj: o, path: path}
	p.ncell++
	c.typ = typeAt(o.typ, path)
	p.cells[key] = c
	return c
}

// contents returns the node holding what the pointer-like cell points to.
func (p *PTA) contents(c *pcell, suffix string) *pnode {
	if suffix != "" {
		c = p.cell(c.obj, c.path+suffix)
	}
	if c.node == nil {
		c.node = p.node(nil, c, "")
		if c.obj.kind == "sym" && c.typ != nil && pointerLike(c.typ) {
			p.symPointee(c)
		}
	}
	return c.node
}

func (p *PTA) symPointee(c *pcell) {
	name := c.obj.name + c.path + "*"
	var o *pobj
	mk := func(t types.Type, path string) {
		// recursive types: reuse an ancestor of the same type
		for a := c.obj; a != nil; {
			if a.typ != nil && t != nil && types.Identical(a.typ, t) && a.dep > 0 && c.obj.dep > 3 {
				o = a
				break
			}
			if a.up == nil {
				break
			}
			a = a.up.obj
		}
		if o == nil {
			o = p.object("sym", nil, nil, t, name)
			o.up = c
			o.dep = c.obj.dep + 1
			o.root = c.obj.root
		}
		p.add(c.node, p.cell(o, path))
	}
	switch u := c.typ.Underlying().(type) {
	case *types.Pointer:
		mk(u.Elem(), "")
	case *types.Slice:
		mk(c.typ, "[]")
	case *types.Map, *types.Chan:
		mk(c.typ, "")
	case *types.Interface:
		mk(nil, "")
	}
}

// Symbolic creates a root object of the given type.
func (p *PTA) Symbolic(name string, t types.Type) *pobj {
	return p.object("sym", nil, nil, t, name)
}

func (p *PTA) node(ctx *pctx, v any, path string) *pnode {
	k := nodeKey{ctx, v, path}
	if n := p.nodes[k]; n != nil {
		return n
	}
	n := &pnode{key: k, pts: map[*pcell]bool{}}
	p.nodes[k] = n
	return n
}

func (p *PTA) add(n *pnode, c *pcell) {
	if n.pts[c] {
		return
	}
	n.pts[c] = true
	n.delta = append(n.delta, c)
	if !n.inWL {
		n.inWL = true
		p.wl = append(p.wl, n)
	}
}

func (p *PTA) copyEdge(from, to *pnode) {
	if from == to {
		return
	}
	if from.succS == nil {
		from.succS = map[*pnode]bool{}
	}
	if from.succS[to] {
		return
	}
	from.succS[to] = true
	from.succ = append(from.succ, to)
	for c := range from.pts {
		p.add(to, c)
	}
}

func (p *PTA) filtEdge(from, to *pnode, keep func(*pcell) bool) {
	from.filt = append(from.filt, pfilt{to, keep})
	for c := range from.pts {
		if keep(c) {
			p.add(to, c)
		}
	}
}

func (p *PTA) on(n *pnode, f func(c *pcell)) {
	n.cons = append(n.cons, f)
	var cs []*pcell
	for c := range n.pts {
		cs = append(cs, c)
	}
	for _, c := range cs {
		f(c)
	}
}

// val returns the node of leaf path l of value v in frame context.
func (p *PTA) val(fr frame, v ssa.Value, path string) *pnode {
	switch v := v.(type) {
	case *ssa.Global:
		n := p.node(nil, v, path)
		if path == "" {
			p.add(n, p.globalCell(v))
		}
		return n
	case *ssa.Function:
		n := p.node(nil, v, path)
		o := p.object("func", v, nil, v.Type(), "")
		o.fn = v
		p.add(n, p.cell(o, ""))
		return n
	case *ssa.Const, *ssa.Builtin:
		return p.node(nil, "const", "")
	}
	return p.node(fr.ctx, v, path)
}

func (p *PTA) globalCell(g *ssa.Global) *pcell {
	o := p.object("global", g, nil, g.Type().(*types.Pointer).Elem(), "")
	return p.cell(o, "")
}

func (p *PTA) constOf(fr frame, v ssa.Value) constant.Value {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && (v.Value.Kind() == constant.Bool || v.Value.Kind() == constant.Int) {
			return v.Value
		}
	case *ssa.Parameter:
		if fr.ctx == nil || fr.ctx.cvals == nil {
			return nil
		}
		for i, q := range fr.fn.Params {
			if q == v {
				return fr.ctx.cvals[i]
			}
		}
	case *ssa.UnOp:
		if v.Op == token.NOT {
			if c := p.constOf(fr, v.X); c != nil && c.Kind() == constant.Bool {
				return constant.MakeBool(!constant.BoolVal(c))
			}
		}
	case *ssa.BinOp:
		a, b := p.constOf(fr, v.X), p.constOf(fr, v.Y)
		if a != nil && b != nil {
			switch v.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				if a.Kind() == b.Kind() && (a.Kind() == constant.Int || v.Op == token.EQL || v.Op == token.NEQ) {
					return constant.MakeBool(constant.Compare(a, v.Op, b))
				}
			}
		}
	case *ssa.Extract:
		if b, known := constCond(v); known {
			return constant.MakeBool(b)
		}
	}
	return nil
}

func (p *PTA) liveIn(fr frame) map[*ssa.BasicBlock]bool {
	if l := p.live[fr]; l != nil {
		return l
	}
	live := map[*ssa.BasicBlock]bool{}
	todo := []*ssa.BasicBlock{fr.fn.Blocks[0]}
	if fr.fn.Recover != nil {
		todo = append(todo, fr.fn.Recover)
	}
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if live[b] {
			continue
		}
		live[b] = true
		if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if c := p.constOf(fr, ifi.Cond); c != nil && c.Kind() == constant.Bool {
				if constant.BoolVal(c) {
					todo = append(todo, b.Succs[0])
				} else {
					todo = append(todo, b.Succs[1])
				}
				continue
			}
		}
		todo = append(todo, b.Succs...)
	}
	p.live[fr] = live
	return live
}

func (p *PTA) Reach(fr frame) {
	if p.reached[fr] {
		return
	}
	p.reached[fr] = true
	if len(fr.fn.Blocks) == 0 {
		return
	}
	p.order = append(p.order, fr)
	live := p.liveIn(fr)
	for _, b := range fr.fn.Blocks {
		if !live[b] {
			continue
		}
		for _, ins := range b.Instrs {
			p.gen(fr, ins, live)
		}
	}
}

func (p *PTA) Solve() {
	for len(p.wl) > 0 {
		n := p.wl[len(p.wl)-1]
		p.wl = p.wl[:len(p.wl)-1]
		n.inWL = false
		d := n.delta
		n.delta = nil
		succ := n.succ
		for _, s := range succ {
			for _, c := range d {
				p.add(s, c)
			}
		}
		for _, f := range n.filt {
			for _, c := range d {
				if f.keep(c) {
					p.add(f.to, c)
				}
			}
		}
		for i := 0; i < len(n.cons); i++ {
			f := n.cons[i]
			for _, c := range d {
				f(c)
			}
		}
	}
}

func (p *PTA) copyVal(fr frame, from ssa.Value, fpath string, to ssa.Value, tpath string, t types.Type) {
	for _, l := range p.leaves(t) {
		p.copyEdge(p.val(fr, from, fpath+l.path), p.val(fr, to, tpath+l.path))
	}
}

func (p *PTA) loadFrom(fr frame, ptr ssa.Value, ppath, suffix string, to ssa.Value, tpath string, t types.Type) {
	ls := p.leaves(t)
	if len(ls) == 0 {
		return
	}
	pn := p.val(fr, ptr, ppath)
	for _, l := range ls {
		l := l
		dst := p.val(fr, to, tpath+l.path)
		p.on(pn, func(c *pcell) {
			if c.obj.kind == "func" || c.obj.kind == "closure" {
				return
			}
			p.copyEdge(p.contents(c, suffix+l.path), dst)
		})
	}
}

// forward replaces a load of base.f by the values stored there, when the
// definitions that reach it are known (following parameters into the callers).
func (p *PTA) forward(fr frame, x *ssa.UnOp) bool {
	if len(p.leaves(x.Type())) == 0 {
		return true
	}
	if a, ok := x.X.(*ssa.Alloc); ok {
		ds, ok := varDefs(x, a)
		if ok {
			for _, d := range ds {
				for _, l := range p.leaves(x.Type()) {
					p.copyEdge(p.val(fr, d.Val, l.path), p.val(fr, x, l.path))
				}
			}
			return true
		}
	}
	key, fv, ok := fieldKey(x.X)
	if !ok {
		return false
	}
	if fa, ok := x.X.(*ssa.FieldAddr); ok && p.slotField != nil && p.slotField(fa) != nil {
		return false
	}
	return p.forwardAt(fr, x, key, fv, fr, x, 0)
}

func (p *PTA) forwardAt(fr frame, at ssa.Instruction, key memKey, fv *types.Var, dfr frame, x *ssa.UnOp, depth int) bool {
	r := p.w.reachDefs(at, key, fv)
	if r.clobbered || depth > 3 {
		return false
	}
	if r.entry {
		prm, ok := key.base.(*ssa.Parameter)
		if !ok {
			return false
		}
		idx := -1
		for i, q := range fr.fn.Params {
			if q == prm {
				idx = i
			}
		}
		// resolved edge by edge as callers of this frame turn up
		p.onCaller(fr, func(cfr frame, site ssa.CallInstruction) {
			done := false
			if site != nil {
				com := site.Common()
				ai := idx
				if com.IsInvoke() {
					ai--
				}
				if _, isGo := site.(*ssa.Go); !isGo && ai >= 0 && ai < len(com.Args) {
					base := com.Args[ai]
					path := key.path
					if k, _, ok := fieldKey(base); ok {
						base, path = k.base, k.path+path
					}
					done = p.forwardAt(cfr, site, memKey{base, path}, fv, dfr, x, depth+1)
				}
			}
			if !done {
				p.loadFrom(dfr, x.X, "", "", x, "", x.Type())
			}
		})
	}
	for _, s := range r.stores {
		for _, l := range p.leaves(x.Type()) {
			p.copyEdge(p.val(fr, s.Val, l.path), p.val(dfr, x, l.path))
		}
	}
	return true
}

func (p *PTA) onCaller(fr frame, f func(frame, ssa.CallInstruction)) {
	p.callerCB[fr] = append(p.callerCB[fr], f)
	for _, e := range p.callers[fr] {
		f(e.fr, e.site)
	}
}

func (p *PTA) storeTo(fr frame, ptr ssa.Value, ppath, suffix string, from ssa.Value, fpath string, t types.Type) {
	ls := p.leaves(t)
	if len(ls) == 0 {
		return
	}
	pn := p.val(fr, ptr, ppath)
	for _, l := range ls {
		l := l
		src := p.val(fr, from, fpath+l.path)
		p.on(pn, func(c *pcell) {
			if p.slotField != nil && saved(c) {
				return
			}
			p.copyEdge(src, p.contents(c, suffix+l.path))
		})
	}
}

func (p *PTA) shift(from, to *pnode, suffix string) {
	p.on(from, func(c *pcell) {
		if c.obj.kind == "func" || c.obj.kind == "closure" {
			return
		}
		if c.typ != nil && typeAt(c.typ, suffix) == nil {
			return // mis-typed flow through an interface
		}
		p.add(to, p.cell(c.obj, c.path+suffix))
	})
}

func (p *PTA) gen(fr frame, ins ssa.Instruction, live map[*ssa.BasicBlock]bool) {
	switch x := ins.(type) {
	case *ssa.Alloc:
		p.add(p.val(fr, x, ""), p.cell(p.object("alloc", x, fr.ctx, x.Type().Underlying().(*types.Pointer).Elem(), ""), ""))
	case *ssa.FieldAddr:
		if p.slotField != nil {
			if v := p.slotField(x); v != nil {
				p.add(p.val(fr, x, ""), p.cell(p.Symbolic("saved:"+v.Name(), v.Type()), ""))
				return
			}
		}
		p.shift(p.val(fr, x.X, ""), p.val(fr, x, ""), "."+strconv.Itoa(x.Field))
	case *ssa.Field:
		p.copyVal(fr, x.X, "."+strconv.Itoa(x.Field), x, "", x.Type())
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			p.copyEdge(p.val(fr, x.X, ""), p.val(fr, x, ""))
		} else {
			p.shift(p.val(fr, x.X, ""), p.val(fr, x, ""), "[]")
		}
	case *ssa.Index:
		if _, ok := x.X.Type().Underlying().(*types.Array); ok {
			p.copyVal(fr, x.X, "[]", x, "", x.Type())
		}
	case *ssa.Lookup:
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			tp := ""
			if x.CommaOk {
				tp = "#0"
			}
			p.loadFrom(fr, x.X, "", "{}", x, tp, m.Elem())
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if !p.forward(fr, x) {
				p.loadFrom(fr, x.X, "", "", x, "", x.Type())
			}
		case token.ARROW:
			tp := ""
			if x.CommaOk {
				tp = "#0"
			}
			p.loadFrom(fr, x.X, "", "<>", x, tp, x.X.Type().Underlying().(*types.Chan).Elem())
		}
	case *ssa.Store:
		p.storeTo(fr, x.Addr, "", "", x.Val, "", x.Val.Type())
	case *ssa.MapUpdate:
		m := x.Map.Type().Underlying().(*types.Map)
		p.storeTo(fr, x.Map, "", "{}", x.Value, "", m.Elem())
		p.storeTo(fr, x.Map, "", "{k}", x.Key, "", m.Key())
	case *ssa.Send:
		p.storeTo(fr, x.Chan, "", "<>", x.X, "", x.X.Type())
	case *ssa.Select:
		ri := 2
		for _, s := range x.States {
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			if s.Dir == types.RecvOnly {
				p.loadFrom(fr, s.Chan, "", "<>", x, "#"+strconv.Itoa(ri), et)
				ri++
			} else {
				p.storeTo(fr, s.Chan, "", "<>", s.Send, "", et)
			}
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			if live[x.Block().Preds[i]] {
				p.copyVal(fr, e, "", x, "", x.Type())
			}
		}
	case *ssa.Extract:
		p.copyVal(fr, x.Tuple, "#"+strconv.Itoa(x.Index), x, "", x.Type())
	case *ssa.ChangeType:
		p.copyVal(fr, x.X, "", x, "", x.Type())
	case *ssa.ChangeInterface:
		p.copyVal(fr, x.X, "", x, "", x.Type())
	case *ssa.Convert:
		_, toS := x.Type().Underlying().(*types.Slice)
		_, fromB := x.X.Type().Underlying().(*types.Basic)
		if toS && fromB {
			p.add(p.val(fr, x, ""), p.cell(p.object("slice", x, fr.ctx, x.Type(), ""), "[]"))
		} else {
			p.copyVal(fr, x.X, "", x, "", x.Type())
		}
	case *ssa.MultiConvert:
		p.copyVal(fr, x.X, "", x, "", x.Type())
	case *ssa.SliceToArrayPointer:
		// slice cell (o,path[]) -> treated as the array itself: keep element cell
		p.copyVal(fr, x.X, "", x, "", x.Type())
	case *ssa.Slice:
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			_ = pt
			p.shift(p.val(fr, x.X, ""), p.val(fr, x, ""), "[]")
		} else if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			p.copyEdge(p.val(fr, x.X, ""), p.val(fr, x, ""))
		}
	case *ssa.MakeSlice:
		p.add(p.val(fr, x, ""), p.cell(p.object("slice", x, fr.ctx, x.Type(), ""), "[]"))
	case *ssa.MakeMap:
		p.add(p.val(fr, x, ""), p.cell(p.object("map", x, fr.ctx, x.Type(), ""), ""))
	case *ssa.MakeChan:
		p.add(p.val(fr, x, ""), p.cell(p.object("chan", x, fr.ctx, x.Type(), ""), ""))
	case *ssa.MakeClosure:
		o := p.object("closure", x, fr.ctx, nil, "")
		o.fn = x.Fn.(*ssa.Function)
		c := p.cell(o, "")
		for i, b := range x.Bindings {
			for _, l := range p.leaves(b.Type()) {
				p.copyEdge(p.val(fr, b, l.path), p.contents(c, "fv"+strconv.Itoa(i)+l.path))
			}
		}
		p.add(p.val(fr, x, ""), c)
	case *ssa.MakeInterface:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			p.copyEdge(p.val(fr, x.X, ""), p.val(fr, x, ""))
			return
		}
		o := p.object("box", x, fr.ctx, x.X.Type(), "")
		c := p.cell(o, "")
		for _, l := range p.leaves(x.X.Type()) {
			p.copyEdge(p.val(fr, x.X, l.path), p.contents(c, l.path))
		}
		p.add(p.val(fr, x, ""), c)
	case *ssa.TypeAssert:
		tp := ""
		if x.CommaOk {
			tp = "#0"
		}
		p.unbox(p.val(fr, x.X, ""), func(l string) *pnode { return p.val(fr, x, tp+l) }, x.AssertedType)
	case *ssa.Range:
		p.copyEdge(p.val(fr, x.X, ""), p.val(fr, x, ""))
	case *ssa.Next:
		if x.IsString {
			return
		}
		if m, ok := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map); ok {
			p.loadFrom(fr, x.Iter, "", "{k}", x, "#1", m.Key())
			p.loadFrom(fr, x.Iter, "", "{}", x, "#2", m.Elem())
		}
	case *ssa.Return:
		for i, r := range x.Results {
			for _, l := range p.leaves(r.Type()) {
				p.copyEdge(p.val(fr, r, l.path), p.ret(fr, i, l.path))
			}
		}
	case *ssa.Panic:
	case ssa.CallInstruction:
		p.call(fr, x)
	}
}

func (p *PTA) ret(fr frame, i int, path string) *pnode {
	return p.node(fr.ctx, retKey{fr.fn, i}, path)
}

type retKey struct {
	fn *ssa.Function
	i  int
}

// unbox narrows an interface value to a type.
func (p *PTA) unbox(from *pnode, to func(leaf string) *pnode, t types.Type) {
	switch t.Underlying().(type) {
	case *types.Interface:
		p.copyEdge(from, to(""))
	case *types.Pointer:
		el := t.Underlying().(*types.Pointer).Elem()
		p.filtEdge(from, to(""), func(c *pcell) bool {
			if c.obj.kind == "box" && c.path == "" {
				return false
			}
			return c.typ == nil || types.Identical(c.typ, el)
		})
		if n, ok := t.Underlying().(*types.Pointer); ok {
			_ = n
			// interface of unknown dynamic type: the assertion yields the object
			// reinterpreted with the asserted type
		}
	default:
		for _, l := range p.leaves(t) {
			l := l
			p.on(from, func(c *pcell) {
				if c.obj.kind == "box" && c.path == "" && types.Identical(c.obj.typ, t) {
					p.copyEdge(p.contents(c, l.path), to(l.path))
				}
			})
		}
	}
}

func (p *PTA) call(fr frame, site ssa.CallInstruction) {
	com := site.Common()
	res := site.Value() // nil for go/defer
	if b, ok := com.Value.(*ssa.Builtin); ok {
		p.builtin(fr, site, b, res)
		return
	}
	if com.IsInvoke() {
		recv := p.val(fr, com.Value, "")
		seen := map[*ssa.Function]bool{}
		p.on(recv, func(c *pcell) {
			var fs []*ssa.Function
			isBox := c.obj.kind == "box" && c.path == ""
			var dyn types.Type
			if isBox {
				dyn = c.obj.typ
			} else if c.typ != nil {
				dyn = types.NewPointer(c.typ)
			}
			if dyn == nil {
				for _, f := range p.w.Callees(site) {
					fs = append(fs, f)
				}
			} else {
				ms := p.w.prog.MethodSets.MethodSet(dyn)
				sel := ms.Lookup(com.Method.Pkg(), com.Method.Name())
				if sel == nil {
					return
				}
				if f := p.w.prog.MethodValue(sel); f != nil {
					fs = append(fs, f)
				}
			}
			for _, f := range fs {
				callee := p.enter(fr, site, f, nil)
				if callee == nil {
					if !seen[f] {
						seen[f] = true
						p.external(fr, site, f, res)
					}
					continue
				}
				// receiver
				if len(f.Params) > 0 {
					prm := f.Params[0]
					if isBox {
						for _, l := range p.leaves(prm.Type()) {
							p.copyEdge(p.contents(c, l.path), p.val(*callee, prm, l.path))
						}
					} else if pointerLike(prm.Type()) {
						p.add(p.val(*callee, prm, ""), c)
					} else {
						// promoted through pointer: load
						for _, l := range p.leaves(prm.Type()) {
							p.copyEdge(p.contents(c, l.path), p.val(*callee, prm, l.path))
						}
					}
				}
				if !seen[f] {
					seen[f] = true
					p.bind(fr, *callee, com.Args, 1, res)
				}
			}
		})
		return
	}
	if sf := com.StaticCallee(); sf != nil {
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			_ = mc
		} else {
			callee := p.enter(fr, site, sf, com.Args)
			if callee == nil {
				p.external(fr, site, sf, res)
				return
			}
			p.bind(fr, *callee, com.Args, 0, res)
			return
		}
	}
	fnv := p.val(fr, com.Value, "")
	p.on(fnv, func(c *pcell) {
		if c.obj.fn == nil {
			return
		}
		callee := p.enter(fr, site, c.obj.fn, com.Args)
		if callee == nil {
			p.external(fr, site, c.obj.fn, res)
			return
		}
		if c.obj.kind == "closure" {
			for i, fv := range c.obj.fn.FreeVars {
				for _, l := range p.leaves(fv.Type()) {
					p.copyEdge(p.contents(c, "fv"+strconv.Itoa(i)+l.path), p.val(*callee, fv, l.path))
				}
			}
		}
		p.bind(fr, *callee, com.Args, 0, res)
	})
}

// analysed: functions whose bodies take part.
func (p *PTA) analysed(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	if p.skip != nil && p.skip(f) {
		return false
	}
	if inModule(f) {
		return true
	}
	if f.Origin() != nil {
		switch pkgOf(f) {
		case "slices", "maps", "cmp":
			return true
		}
	}
	return f.Synthetic != "" && strings.HasPrefix(pkgOf(f), modPath)
}

func (p *PTA) enter(fr frame, site ssa.CallInstruction, f *ssa.Function, args []ssa.Value) *frame {
	if !p.analysed(f) {
		return nil
	}
	var cv map[int]constant.Value
	for i, a := range args {
		if c := p.constOf(fr, a); c != nil && i < len(f.Params) {
			if c.Kind() == constant.Int {
				// only enumeration-like small constants matter for branches
				if b, ok := f.Params[i].Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
					continue
				}
			}
			if cv == nil {
				cv = map[int]constant.Value{}
			}
			cv[i] = c
		}
	}
	root := ""
	var sites []ssa.CallInstruction
	if fr.ctx != nil {
		root = fr.ctx.root
		sites = append(sites, fr.ctx.sites...)
		if p.transparent == nil || !p.transparent(site, f) {
			sites = append(sites, site)
		}
	} else {
		sites = []ssa.CallInstruction{site}
	}
	if p.tagGo {
		if t := p.w.goTag(site); t != "" && !strings.Contains(root, t) {
			root += t
		}
	}
	callee := frame{p.ctx(root, sites, cv), f}
	ek := edgeKey{fr, site}
	if p.edges[ek] == nil {
		p.edges[ek] = map[frame]bool{}
	}
	if !p.edges[ek][callee] {
		p.edges[ek][callee] = true
		p.callers[callee] = append(p.callers[callee], ek)
		for _, f := range p.callerCB[callee] {
			f(fr, site)
		}
	}
	p.Reach(callee)
	return &callee
}

func (p *PTA) bind(fr, callee frame, args []ssa.Value, off int, res *ssa.Call) {
	for i, a := range args {
		if i+off >= len(callee.fn.Params) {
			break
		}
		prm := callee.fn.Params[i+off]
		for _, l := range p.leaves(prm.Type()) {
			p.copyEdge(p.val(fr, a, l.path), p.val(callee, prm, l.path))
		}
	}
	if res == nil {
		return
	}
	rs := callee.fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		tp := ""
		if rs.Len() > 1 {
			tp = "#" + strconv.Itoa(i)
		}
		for _, l := range p.leaves(rs.At(i).Type()) {
			p.copyEdge(p.ret(callee, i, l.path), p.val(fr, res, tp+l.path))
		}
	}
}

func (p *PTA) builtin(fr frame, site ssa.CallInstruction, b *ssa.Builtin, res *ssa.Call) {
	com := site.Common()
	switch b.Name() {
	case "append":
		if res == nil {
			return
		}
		dst := p.val(fr, res, "")
		st, ok := res.Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		nc := p.cell(p.object("slice", res, fr.ctx, res.Type(), ""), "[]")
		p.add(dst, nc)
		if !noCapacity(com.Args[0]) {
			p.copyEdge(p.val(fr, com.Args[0], ""), dst)
		}
		ls := p.leaves(st.Elem())
		for _, l := range ls {
			l := l
			tmp := p.node(fr.ctx, appKey{res}, l.path)
			for i, a := range com.Args {
				_ = i
				if _, isS := a.Type().Underlying().(*types.Slice); !isS {
					continue
				}
				p.on(p.val(fr, a, ""), func(c *pcell) { p.copyEdge(p.contents(c, l.path), tmp) })
			}
			p.on(dst, func(c *pcell) { p.copyEdge(tmp, p.contents(c, l.path)) })
		}
	case "copy":
		st, ok := com.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		if _, isS := com.Args[1].Type().Underlying().(*types.Slice); !isS {
			return
		}
		for _, l := range p.leaves(st.Elem()) {
			l := l
			tmp := p.node(fr.ctx, appKey2{site}, l.path)
			p.on(p.val(fr, com.Args[1], ""), func(c *pcell) { p.copyEdge(p.contents(c, l.path), tmp) })
			p.on(p.val(fr, com.Args[0], ""), func(c *pcell) { p.copyEdge(tmp, p.contents(c, l.path)) })
		}
	case "ssa:wrapnilchk":
		if res != nil {
			p.copyVal(fr, com.Args[0], "", res, "", res.Type())
		}
	}
}

// noCapacity: a slice expression s[a:b:0] has no room to append in place.
func noCapacity(v ssa.Value) bool {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Max == nil {
		return false
	}
	c, ok := sl.Max.(*ssa.Const)
	return ok && c.Value != nil && c.Int64() == 0
}

type appKey struct{ c *ssa.Call }
type appKey2 struct{ c ssa.CallInstruction }

// external models functions whose bodies are not analysed.
func (p *PTA) external(fr frame, site ssa.CallInstruction, f *ssa.Function, res *ssa.Call) {
	com := site.Common()
	name := f.String()
	if p.extCall != nil && p.extCall(p, fr, site, name) {
		return
	}
	switch name {
	case "(*sync.Pool).Put":
		if p.freshPool {
			return
		}
		p.storeTo(fr, com.Args[0], "", "pool", com.Args[1], "", com.Args[1].Type())
		return
	case "(*sync.Pool).Get":
		if res == nil {
			return
		}
		if !p.freshPool {
			p.loadFrom(fr, com.Args[0], "", "pool", res, "", res.Type())
		}
		// New
		pt := com.Args[0].Type().Underlying().(*types.Pointer).Elem()
		st := pt.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				suf := "." + strconv.Itoa(i)
				p.on(p.val(fr, com.Args[0], ""), func(c *pcell) {
					p.on(p.contents(c, suf), func(fc *pcell) {
						if fc.obj.fn == nil {
							return
						}
						callee := p.enter(fr, site, fc.obj.fn, nil)
						if callee == nil {
							return
						}
						if fc.obj.kind == "closure" {
							for i, fv := range fc.obj.fn.FreeVars {
								for _, l := range p.leaves(fv.Type()) {
									p.copyEdge(p.contents(fc, "fv"+strconv.Itoa(i)+l.path), p.val(*callee, fv, l.path))
								}
							}
						}
						p.copyEdge(p.ret(*callee, 0, ""), p.val(fr, res, ""))
					})
				})
			}
		}
		return
	}
	if name == "image.RegisterFormat" { // stores its function arguments
		return
	}
	p.unknown[name]++
	// function-typed arguments are called
	args := com.Args
	for _, a := range args {
		if _, ok := a.Type().Underlying().(*types.Signature); ok {
			p.on(p.val(fr, a, ""), func(c *pcell) {
				if c.obj.fn == nil {
					return
				}
				callee := p.enter(fr, site, c.obj.fn, nil)
				if callee != nil && c.obj.kind == "closure" {
					for i, fv := range c.obj.fn.FreeVars {
						for _, l := range p.leaves(fv.Type()) {
							p.copyEdge(p.contents(c, "fv"+strconv.Itoa(i)+l.path), p.val(*callee, fv, l.path))
						}
					}
				}
			})
		}
	}
	if res == nil {
		return
	}
	// results: fresh memory, and conservatively the arguments of identical type
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		tp := ""
		if rs.Len() > 1 {
			tp = "#" + strconv.Itoa(i)
		}
		for _, l := range p.leaves(rs.At(i).Type()) {
			dst := p.val(fr, res, tp+l.path)
			o := p.object("sym", res, fr.ctx, nil, "ext:"+name+tp+l.path)
			switch u := l.typ.Underlying().(type) {
			case *types.Pointer:
				o.typ = u.Elem()
				p.add(dst, p.cell(o, ""))
			case *types.Slice:
				o.typ = l.typ
				p.add(dst, p.cell(o, "[]"))
			case *types.Map, *types.Chan, *types.Interface:
				if _, isI := u.(*types.Interface); !isI {
					o.typ = l.typ
				} else {
					o.typ = nil
				}
				p.add(dst, p.cell(o, ""))
			}
			for _, a := range args {
				if types.Identical(a.Type(), l.typ) {
					if !isErrorType(l.typ) {
						p.copyEdge(p.val(fr, a, ""), dst)
					}
				}
			}
		}
	}
}

// Root starts the analysis at a function with symbolic arguments.
func (p *PTA) Root(f *ssa.Function, tag string) frame {
	fr := frame{p.ctx(tag, nil, nil), f}
	for i, prm := range f.Params {
		for _, l := range p.leaves(prm.Type()) {
			holder := p.object("sym", nil, nil, prm.Type(), tag+":"+prm.Name()+"/"+strconv.Itoa(i))
			holder.dep = 0
			c := p.cell(holder, l.path)
			p.copyEdge(p.contents(c, ""), p.val(fr, prm, l.path))
		}
	}
	p.callers[fr] = append(p.callers[fr], edgeKey{fr, nil})
	p.Reach(fr)
	return fr
}

func (p *PTA) Pts(fr frame, v ssa.Value) []*pcell {
	var out []*pcell
	for c := range p.val(fr, v, "").pts {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// Write is one memory write seen in a frame.
type pWrite struct {
	fr    frame
	ins   ssa.Instruction
	cells []*pcell
	what  string
}

// externalWrites lists external functions that write through an argument.
func externalWrites(name string, c *ssa.CallCommon) []ssa.Value {
	switch {
	case strings.HasPrefix(name, "(encoding/binary.bigEndian).Put"), strings.HasPrefix(name, "(encoding/binary.littleEndian).Put"):
		return []ssa.Value{c.Args[1]}
	case name == "io.ReadFull", name == "io.ReadAtLeast":
		return []ssa.Value{c.Args[1]}
	case len(c.Args) == 0:
		return nil
	case strings.HasPrefix(name, "sort."), strings.HasPrefix(name, "slices.Sort"), strings.HasPrefix(name, "slices.Reverse"):
		return c.Args[:1]
	case name == "encoding/binary.Read":
		return c.Args[2:]
	}
	if c.IsInvoke() && c.Method.Name() == "Read" && len(c.Args) == 1 {
		return c.Args
	}
	if strings.HasSuffix(name, ").Read") && len(c.Args) == 2 {
		return c.Args[1:]
	}
	return nil
}

func (p *PTA) Writes(visit func(pWrite)) {
	for _, fr := range p.order {
		live := p.liveIn(fr)
		for _, b := range fr.fn.Blocks {
			if !live[b] {
				continue
			}
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					visit(pWrite{fr, ins, p.Pts(fr, x.Addr), "store"})
				case *ssa.MapUpdate:
					visit(pWrite{fr, ins, p.Pts(fr, x.Map), "map update"})
				case ssa.CallInstruction:
					com := x.Common()
					if bi, ok := com.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "copy", "clear", "delete":
							visit(pWrite{fr, ins, p.Pts(fr, com.Args[0]), bi.Name()})
						}
						continue
					}
					name := ""
					if f := com.StaticCallee(); f != nil {
						name = f.String()
					}
					for _, a := range externalWrites(name, com) {
						visit(pWrite{fr, ins, p.Pts(fr, a), "call of " + name})
					}
				}
			}
		}
	}
}

func (c *pcell) String() string {
	n := c.obj.kind
	if c.obj.name != "" {
		n += ":" + c.obj.name
	} else if c.obj.site != nil {
		n += ":" + c.obj.site.Name()
		if in, ok := c.obj.site.(ssa.Instruction); ok && in.Parent() != nil {
			n += "@" + FnName(in.Parent())
		}
	}
	return n + c.path
}

// FieldPath renders a cell's field path with field names.
func (c *pcell) FieldPath() string {
	t := c.obj.typ
	path := c.path
	out := ""
	for path != "" && t != nil {
		j := 1
		switch path[0] {
		case '.':
			for j < len(path) && path[j] >= '0' && path[j] <= '9' {
				j++
			}
			n, _ := strconv.Atoi(path[1:j])
			if st, ok := t.Underlying().(*types.Struct); ok {
				out += "." + st.Field(n).Name()
			}
		case '{':
			if strings.HasPrefix(path, "{k}") {
				j = 3
			} else {
				j = 2
			}
			out += path[:j]
		default:
			j = 2
			out += path[:j]
		}
		t = typeAt(t, path[:j])
		path = path[j:]
	}
	return out + path
}
