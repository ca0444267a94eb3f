package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P12: concurrent workers share no memory that one of them writes, other than
// elements selected by the work item the worker owns.
//
// Contexts of a goroutine carry a tag, so memory allocated by a worker is told
// apart from memory it shares. For every access of a worker to shared memory
// the path to it is classified by the indices on it ("marks"): an index that
// identifies the worker's own item makes the access owned.

const (
	mFull  uint8 = 1 << iota // one-to-one with the work item
	mQuot                    // item / n
	mRem                     // item % n
	mWeak                    // depends on the item
	mScale                   // multiplied, so that a division may undo it
	mTop   = 0xff
)

func owned(m uint8) bool { return m&mFull != 0 || m&(mQuot|mRem) == mQuot|mRem }

// goTag names the goroutine started at a call site ("" if it starts none).
func (w *World) goTag(site ssa.CallInstruction) string {
	if w.goTags == nil {
		w.goTags = map[ssa.CallInstruction]string{}
	}
	if t, ok := w.goTags[site]; ok {
		return t
	}
	t := ""
	if w.spawnOf(site) != nil {
		w.nGo++
		t = fmt.Sprintf("|go%d|", w.nGo)
	}
	w.goTags[site] = t
	return t
}

type raceKey struct {
	fr   frame
	v    ssa.Value
	path string
}

type raceAn struct {
	w     *World
	p     *PTA
	r     *Result
	set   map[frame]bool   // frames analysed for marks
	order []frame          // in a fixed order
	group map[frame]string // worker frames -> group
	spawn map[frame][]*ssa.BasicBlock
	heads map[frame]map[*ssa.BasicBlock]uint8 // loop headers around a goroutine start

	sm     map[raceKey]uint8 // marks of integers
	smCell map[*pcell]uint8
	pm     map[raceKey]uint8 // marks of the way a pointer was reached (missing: top)
	pmCell map[*pcell]uint8
	pmByWk map[*pcell]uint8          // stores by workers only
	hot    map[string]map[*pobj]bool // per group: objects reachable without going through an owned element
	change bool
	items  map[*pcell]map[string]uint8
	hands  map[handKey]bool
	locked []lockedWrite // writes of workers that only a lock or atomics keep apart
	spawns []*raceSpawn

	allLv map[types.Type][]leaf
	locks map[frame]map[ssa.Instruction]map[string]bool
	entry map[frame]map[string]bool
	done  map[string]bool
}

func (a *raceAn) allLeaves(t types.Type) []leaf {
	if l, ok := a.allLv[t]; ok {
		return l
	}
	var out []leaf
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range a.allLeaves(u.Field(i).Type()) {
				out = append(out, leaf{"." + strconv.Itoa(i) + l.path, l.typ})
			}
		}
	case *types.Array:
		for _, l := range a.allLeaves(u.Elem()) {
			out = append(out, leaf{"[]" + l.path, l.typ})
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			for _, l := range a.allLeaves(u.At(i).Type()) {
				out = append(out, leaf{"#" + strconv.Itoa(i) + l.path, l.typ})
			}
		}
	default:
		out = []leaf{{"", t}}
	}
	a.allLv[t] = out
	return out
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// local: the cell belongs to one worker of the group only.
func (a *raceAn) local(fr frame, c *pcell) bool {
	g := a.group[fr]
	if g != "" {
		return c.obj.ctx != nil && strings.HasPrefix(c.obj.ctx.root, g)
	}
	// in the function that starts the workers: made anew for every worker
	return a.perIter(fr, c.obj)
}

func (a *raceAn) perIter(fr frame, o *pobj) bool {
	if o.ctx == nil {
		return false
	}
	body := a.spawn[fr]
	if o.site != nil {
		if in, ok := o.site.(ssa.Instruction); ok && in.Parent() == fr.fn && o.ctx == fr.ctx {
			for _, b := range body {
				if in.Block() == b {
					return true
				}
			}
		}
	}
	for _, s := range o.ctx.sites {
		if s.Parent() == fr.fn && a.w.goTag(s) == "" {
			for _, b := range body {
				if s.Block() == b {
					return true
				}
			}
		}
	}
	return false
}

// handed: memory that the function starting the worker made for it alone.
func (a *raceAn) handed(fr frame, o *pobj) bool {
	g := a.group[fr]
	if g == "" {
		return false
	}
	k := handKey{g, o}
	if v, ok := a.hands[k]; ok {
		return v
	}
	v := false
	for _, sp := range a.spawns {
		if !strings.HasPrefix(g, sp.group) || a.group[sp.fr] != "" {
			continue
		}
		v = a.perIter(sp.fr, o)
		if !v {
			break
		}
	}
	a.hands[k] = v
	return v
}

type lockedWrite struct {
	c   *pcell
	acc raceAcc
}

type handKey struct {
	g string
	o *pobj
}

func (a *raceAn) setSM(fr frame, v ssa.Value, path string, m uint8) {
	if m == 0 {
		return
	}
	k := raceKey{fr, v, path}
	if a.sm[k]|m != a.sm[k] {
		a.sm[k] |= m
		a.change = true
	}
}

func (a *raceAn) getSM(fr frame, v ssa.Value, path string) uint8 {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return 0
	}
	return a.sm[raceKey{fr, v, path}]
}

func (a *raceAn) cellSM(c *pcell, m uint8) {
	if m != 0 && a.smCell[c]|m != a.smCell[c] {
		a.smCell[c] |= m
		a.change = true
	}
}

func (a *raceAn) copySM(fr frame, from ssa.Value, fp string, to ssa.Value, tp string, t types.Type) {
	for _, l := range a.allLeaves(t) {
		if isInt(l.typ) {
			a.setSM(fr, to, tp+l.path, a.getSM(fr, from, fp+l.path))
		}
	}
}

func (a *raceAn) cellsAt(fr frame, ptr ssa.Value, suffix string) []*pcell {
	cs := a.p.Pts(fr, ptr)
	if suffix == "" {
		return cs
	}
	out := make([]*pcell, 0, len(cs))
	for _, c := range cs {
		out = append(out, a.p.cell(c.obj, c.path+suffix))
	}
	return out
}

func (a *raceAn) loadSM(fr frame, ptr ssa.Value, suffix string, to ssa.Value, tp string, t types.Type) {
	for _, l := range a.allLeaves(t) {
		if !isInt(l.typ) {
			continue
		}
		for _, c := range a.cellsAt(fr, ptr, suffix+l.path) {
			a.setSM(fr, to, tp+l.path, a.smCell[c])
		}
	}
}

func (a *raceAn) storeSM(fr frame, ptr ssa.Value, suffix string, from ssa.Value, fp string, t types.Type) {
	for _, l := range a.allLeaves(t) {
		if !isInt(l.typ) {
			continue
		}
		if m := a.getSM(fr, from, fp+l.path); m != 0 {
			for _, c := range a.cellsAt(fr, ptr, suffix+l.path) {
				a.cellSM(c, m)
			}
		}
	}
}

// recvSM: an item received is nobody else's; a field of it identifies it to the
// extent that the loop variables it is computed from do.
func (a *raceAn) recvSM(fr frame, ch, v ssa.Value, tp string) {
	elem := ch.Type().Underlying().(*types.Chan).Elem()
	for _, c := range a.p.Pts(fr, ch) {
		for _, l := range a.allLeaves(elem) {
			if isInt(l.typ) {
				m, ok := a.itemMarks(c)[l.path]
				if !ok {
					m = mFull
				}
				a.setSM(fr, v, tp+l.path, m)
			}
		}
	}
}

func (a *raceAn) itemMarks(c *pcell) map[string]uint8 {
	if m, ok := a.items[c]; ok {
		return m
	}
	out := map[string]uint8{}
	a.items[c] = out
	for _, fr := range a.p.order {
		eachInstr(fr.fn, func(ins ssa.Instruction) {
			var val ssa.Value
			switch x := ins.(type) {
			case *ssa.Send:
				if !a.sees(fr, x.Chan, c) {
					return
				}
				val = x.X
			case *ssa.Select:
				for _, s := range x.States {
					if s.Dir == types.SendOnly && a.sees(fr, s.Chan, c) {
						val = s.Send
					}
				}
			}
			if val == nil {
				return
			}
			// loop variables each field depends on
			dep := map[string]map[*ssa.BasicBlock]bool{}
			all := map[*ssa.BasicBlock]bool{}
			for _, l := range a.allLeaves(val.Type()) {
				if !isInt(l.typ) {
					continue
				}
				d := map[*ssa.BasicBlock]bool{}
				a.loopDeps(val, l.path, d, map[ssa.Value]bool{})
				dep[l.path] = d
				for h := range d {
					all[h] = true
				}
			}
			var heads []*ssa.BasicBlock
			for h := range all {
				heads = append(heads, h)
			}
			sort.Slice(heads, func(i, j int) bool { return heads[i].Index < heads[j].Index })
			for p, d := range dep {
				m := uint8(0)
				switch {
				case len(d) == 0:
				case len(d) == len(all):
					m = mFull
				case d[heads[0]]:
					m = mQuot
				default:
					m = mRem
				}
				out[p] |= m
			}
		})
	}
	return out
}

func (a *raceAn) sees(fr frame, ch ssa.Value, c *pcell) bool {
	return a.p.val(fr, ch, "").pts[c]
}

// loopDeps: headers of the loops whose variables a value depends on.
func (a *raceAn) loopDeps(v ssa.Value, path string, out map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) {
	if v == nil || seen[v] && path == "" {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, l := range a.w.loopsIn(x.Parent()) {
			if l.head == x.Block() {
				out[x.Block()] = true
				return
			}
		}
		for _, e := range x.Edges {
			a.loopDeps(e, path, out, seen)
		}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			out[x.Block()] = true
			return
		}
		if x.Op != token.MUL {
			a.loopDeps(x.X, path, out, seen)
			return
		}
		// a local: what is stored there
		switch ad := x.X.(type) {
		case *ssa.Alloc:
			a.storedDeps(ad, path, out, seen)
		case *ssa.Phi:
			a.loopDeps(ad, "", out, seen)
		case *ssa.IndexAddr:
			a.loopDeps(ad.Index, "", out, seen)
		case *ssa.FieldAddr:
			if al, ok := ad.X.(*ssa.Alloc); ok {
				a.storedDeps(al, "."+strconv.Itoa(ad.Field)+path, out, seen)
			}
		}
	case *ssa.Field:
		a.loopDeps(x.X, "."+strconv.Itoa(x.Field)+path, out, seen)
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			out[nx.Block()] = true
			return
		}
		a.loopDeps(x.Tuple, "", out, seen)
	case ssa.Instruction:
		for _, op := range x.Operands(nil) {
			if *op != nil {
				a.loopDeps(*op, "", out, seen)
			}
		}
	}
}

func (a *raceAn) storedDeps(al *ssa.Alloc, path string, out map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) {
	for _, rf := range *al.Referrers() {
		switch y := rf.(type) {
		case *ssa.Store:
			if y.Addr == al {
				a.loopDeps(y.Val, path, out, seen)
			}
		case *ssa.FieldAddr:
			pre := "." + strconv.Itoa(y.Field)
			if path != "" && path != pre && !strings.HasPrefix(path, pre+".") {
				continue
			}
			for _, r2 := range *y.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == y {
					a.loopDeps(st.Val, strings.TrimPrefix(path, pre), out, seen)
				}
			}
		}
	}
}

func divMark(m, kind uint8) uint8 {
	if m&mScale != 0 {
		return m
	}
	if m&mFull != 0 {
		return kind
	}
	if m != 0 {
		return mWeak
	}
	return 0
}

func (a *raceAn) stepSM(fr frame, ins ssa.Instruction, live map[*ssa.BasicBlock]bool) {
	switch x := ins.(type) {
	case *ssa.Phi:
		head := false
		for _, l := range a.w.loopsIn(fr.fn) {
			if l.head == x.Block() {
				head = true
			}
		}
		if head && a.heads[fr][x.Block()] != 0 {
			// the variable of a loop that starts workers
			for _, l := range a.allLeaves(x.Type()) {
				if isInt(l.typ) {
					a.setSM(fr, x, l.path, a.heads[fr][x.Block()])
				}
			}
			return
		}
		for i, e := range x.Edges {
			pr := x.Block().Preds[i]
			if !live[pr] || head && x.Block().Dominates(pr) {
				continue
			}
			a.copySM(fr, e, "", x, "", x.Type())
		}
	case *ssa.BinOp:
		if !isInt(x.Type()) {
			return
		}
		mx, my := a.getSM(fr, x.X, ""), a.getSM(fr, x.Y, "")
		switch x.Op {
		case token.SHL, token.MUL:
			m := mx | my
			if m != 0 && (mx == 0 || my == 0) {
				m |= mScale
			}
			a.setSM(fr, x, "", m)
		case token.ADD, token.SUB, token.XOR, token.OR:
			a.setSM(fr, x, "", mx|my)
		case token.QUO, token.SHR:
			a.setSM(fr, x, "", divMark(mx, mQuot))
		case token.REM, token.AND:
			a.setSM(fr, x, "", divMark(mx|my, mRem))
		default:
			if mx|my != 0 {
				a.setSM(fr, x, "", mWeak)
			}
		}
	case *ssa.Convert:
		if isInt(x.Type()) && isInt(x.X.Type()) {
			a.setSM(fr, x, "", a.getSM(fr, x.X, ""))
		}
	case *ssa.ChangeType:
		a.copySM(fr, x.X, "", x, "", x.Type())
	case *ssa.Field:
		a.copySM(fr, x.X, "."+strconv.Itoa(x.Field), x, "", x.Type())
	case *ssa.Index:
		if _, ok := x.X.Type().Underlying().(*types.Array); ok {
			a.copySM(fr, x.X, "[]", x, "", x.Type())
		}
		if isInt(x.Type()) {
			a.setSM(fr, x, "", a.getSM(fr, x.Index, ""))
		}
	case *ssa.Extract:
		a.copySM(fr, x.Tuple, "#"+strconv.Itoa(x.Index), x, "", x.Type())
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a.loadSM(fr, x.X, "", x, "", x.Type())
			// a loop variable made anew for every iteration
			if ph, ok := x.X.(*ssa.Phi); ok && isInt(x.Type()) && a.heads[fr][ph.Block()] != 0 {
				a.setSM(fr, x, "", a.heads[fr][ph.Block()])
			}
			// an element of a table of items, selected by the item
			if ia, ok := x.X.(*ssa.IndexAddr); ok && isInt(x.Type()) {
				if m := a.getSM(fr, ia.Index, ""); m != 0 {
					a.setSM(fr, x, "", m)
				}
			}
		case token.ARROW:
			tp := ""
			if x.CommaOk {
				tp = "#0"
			}
			a.recvSM(fr, x.X, x, tp)
		case token.SUB, token.XOR:
			a.setSM(fr, x, "", a.getSM(fr, x.X, ""))
		}
	case *ssa.Select:
		ri := 2
		for _, s := range x.States {
			if s.Dir == types.RecvOnly {
				a.recvSM(fr, s.Chan, x, "#"+strconv.Itoa(ri))
				ri++
			}
		}
	case *ssa.Next:
		if m := a.heads[fr][x.Block()]; m != 0 && !x.IsString {
			for _, l := range a.allLeaves(x.Type()) {
				if isInt(l.typ) {
					a.setSM(fr, x, l.path, m)
				}
			}
		}
	case *ssa.Store:
		a.storeSM(fr, x.Addr, "", x.Val, "", x.Val.Type())
	case *ssa.TypeAssert:
		tp := ""
		if x.CommaOk {
			tp = "#0"
		}
		for _, l := range a.allLeaves(x.AssertedType) {
			if isInt(l.typ) {
				for _, c := range a.cellsAt(fr, x.X, l.path) {
					a.setSM(fr, x, tp+l.path, a.smCell[c])
				}
			}
		}
	case *ssa.MakeInterface:
		for _, c := range a.p.Pts(fr, x) {
			if c.obj.kind == "box" {
				for _, l := range a.allLeaves(x.X.Type()) {
					if isInt(l.typ) {
						a.cellSM(a.p.cell(c.obj, c.path+l.path), a.getSM(fr, x.X, l.path))
					}
				}
			}
		}
	case *ssa.Return:
		for i, rv := range x.Results {
			for _, l := range a.allLeaves(rv.Type()) {
				if isInt(l.typ) {
					if m := a.getSM(fr, rv, l.path); m != 0 {
						a.retSM(fr, i, l.path, m)
					}
				}
			}
		}
	case ssa.CallInstruction:
		a.callSM(fr, x)
	}
}

func (a *raceAn) retKeyOf(fr frame, i int, path string) raceKey {
	return raceKey{fr, nil, "ret" + strconv.Itoa(i) + path}
}

func (a *raceAn) retSM(fr frame, i int, path string, m uint8) {
	k := a.retKeyOf(fr, i, path)
	if a.sm[k]|m != a.sm[k] {
		a.sm[k] |= m
		a.change = true
	}
}

func (a *raceAn) callSM(fr frame, site ssa.CallInstruction) {
	com := site.Common()
	res := site.Value()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		if res == nil || !isInt(res.Type()) {
			return
		}
		switch b.Name() {
		case "min", "max":
			for _, x := range com.Args {
				a.setSM(fr, res, "", a.getSM(fr, x, ""))
			}
		}
		return
	}
	name := fullName(com)
	if res != nil && strings.HasPrefix(name, "sync/atomic.Add") || strings.HasPrefix(name, "(*sync/atomic.") && strings.HasSuffix(name, ").Add") {
		if res != nil {
			a.setSM(fr, res, "", mFull)
		}
		return
	}
	for callee := range a.p.edges[edgeKey{fr, site}] {
		if !a.set[callee] {
			continue
		}
		off := 0
		if com.IsInvoke() {
			off = 1
		}
		if !a.viaExternal(site, callee.fn) {
			for i, arg := range com.Args {
				if i+off >= len(callee.fn.Params) {
					break
				}
				prm := callee.fn.Params[i+off]
				for _, l := range a.allLeaves(prm.Type()) {
					if isInt(l.typ) {
						a.setSM(callee, prm, l.path, a.getSM(fr, arg, l.path))
					}
				}
			}
		}
		if res == nil {
			continue
		}
		rs := callee.fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			tp := ""
			if rs.Len() > 1 {
				tp = "#" + strconv.Itoa(i)
			}
			for _, l := range a.allLeaves(rs.At(i).Type()) {
				if isInt(l.typ) {
					a.setSM(fr, res, tp+l.path, a.sm[a.retKeyOf(callee, i, l.path)])
				}
			}
		}
	}
}

// viaExternal: the callee is a function value called back by a library function.
func (a *raceAn) viaExternal(site ssa.CallInstruction, f *ssa.Function) bool {
	if sf := site.Common().StaticCallee(); sf != nil {
		return sf != f && !a.p.analysed(sf)
	}
	return false
}

// ---- how pointers were reached

func (a *raceAn) getPM(fr frame, v ssa.Value, path string) uint8 {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return mTop
	case *ssa.Global:
		return 0
	case *ssa.MakeClosure:
		_ = v
		return mTop
	}
	if m, ok := a.pm[raceKey{fr, v, path}]; ok {
		return m
	}
	return mTop
}

func (a *raceAn) setPM(fr frame, v ssa.Value, path string, m uint8) {
	// memory of the worker's own
	if cs := a.ptsAt(fr, v, path); len(cs) > 0 {
		all := true
		for _, c := range cs {
			if !a.local(fr, c) {
				all = false
			}
		}
		if all {
			m = mTop
		}
	}
	k := raceKey{fr, v, path}
	old, ok := a.pm[k]
	if !ok {
		old = mTop
	}
	if nm := old & m; nm != old {
		a.pm[k] = nm
		a.change = true
	}
}

func (a *raceAn) ptsAt(fr frame, v ssa.Value, path string) []*pcell {
	var out []*pcell
	for c := range a.p.val(fr, v, path).pts {
		out = append(out, c)
	}
	return out
}

func (a *raceAn) copyPM(fr frame, from ssa.Value, fp string, to ssa.Value, tp string, t types.Type) {
	for _, l := range a.p.leaves(t) {
		a.setPM(fr, to, tp+l.path, a.getPM(fr, from, fp+l.path))
	}
}

func (a *raceAn) loadPM(fr frame, ptr ssa.Value, base uint8, matrix bool, suffix string, to ssa.Value, tp string, t types.Type) {
	for _, l := range a.p.leaves(t) {
		m := uint8(mTop)
		cs := a.cellsAt(fr, ptr, suffix+l.path)
		shared := len(cs) == 0
		for _, c := range cs {
			if a.local(fr, c) || a.handed(fr, c.obj) {
				if x, ok := a.pmCell[c]; ok {
					m &= x
				}
			} else {
				shared = true
				// filled in by a worker: what that worker shared is shared
				if x, ok := a.pmByWk[c]; ok && !owned(x) {
					m &= x
				}
			}
		}
		if shared {
			b := base
			if _, isSlice := l.typ.Underlying().(*types.Slice); !(matrix && isSlice) {
				for _, c := range a.ptsAt(fr, to, tp+l.path) {
					if a.hot[a.group[fr]][c.obj] {
						b = 0
					}
				}
			}
			m &= b
		}
		a.setPM(fr, to, tp+l.path, m)
	}
}

func (a *raceAn) storePM(fr frame, ptr ssa.Value, suffix string, from ssa.Value, fp string, t types.Type) {
	for _, l := range a.p.leaves(t) {
		m := a.getPM(fr, from, fp+l.path)
		if m == mTop {
			continue
		}
		for _, c := range a.cellsAt(fr, ptr, suffix+l.path) {
			old, ok := a.pmCell[c]
			if !ok {
				old = mTop
			}
			if old&m != old {
				a.pmCell[c] = old & m
				a.change = true
			}
			if a.group[fr] != "" {
				old, ok := a.pmByWk[c]
				if !ok {
					old = mTop
				}
				if old&m != old {
					a.pmByWk[c] = old & m
					a.change = true
				}
			}
		}
	}
}

func (a *raceAn) stepPM(fr frame, ins ssa.Instruction, live map[*ssa.BasicBlock]bool) {
	switch x := ins.(type) {
	case *ssa.FieldAddr:
		a.setPM(fr, x, "", a.getPM(fr, x.X, ""))
	case *ssa.IndexAddr:
		a.setPM(fr, x, "", a.addIdx(a.getPM(fr, x.X, ""), a.getSM(fr, x.Index, "")))
	case *ssa.Slice:
		m := a.getPM(fr, x.X, "")
		if x.Low != nil {
			m = a.addIdx(m, a.getSM(fr, x.Low, ""))
		}
		a.setPM(fr, x, "", m)
	case *ssa.Field:
		a.copyPM(fr, x.X, "."+strconv.Itoa(x.Field), x, "", x.Type())
	case *ssa.Index:
		if _, ok := x.X.Type().Underlying().(*types.Array); ok {
			a.copyPM(fr, x.X, "[]", x, "", x.Type())
		}
	case *ssa.Lookup:
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			tp := ""
			if x.CommaOk {
				tp = "#0"
			}
			a.loadPM(fr, x.X, a.addIdx(a.getPM(fr, x.X, ""), a.getSM(fr, x.Index, "")), false, "{}", x, tp, m.Elem())
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			_, matrix := x.X.(*ssa.IndexAddr)
			a.loadPM(fr, x.X, a.getPM(fr, x.X, ""), matrix, "", x, "", x.Type())
		case token.ARROW:
			// an item received belongs to the receiver unless it is shared otherwise
			tp := ""
			if x.CommaOk {
				tp = "#0"
			}
			a.loadPM(fr, x.X, mFull, false, "<>", x, tp, x.X.Type().Underlying().(*types.Chan).Elem())
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			if live[x.Block().Preds[i]] {
				a.copyPM(fr, e, "", x, "", x.Type())
			}
		}
	case *ssa.Extract:
		a.copyPM(fr, x.Tuple, "#"+strconv.Itoa(x.Index), x, "", x.Type())
	case *ssa.ChangeType:
		a.copyPM(fr, x.X, "", x, "", x.Type())
	case *ssa.ChangeInterface:
		a.copyPM(fr, x.X, "", x, "", x.Type())
	case *ssa.MakeInterface:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			a.copyPM(fr, x.X, "", x, "", x.X.Type())
			return
		}
		for _, c := range a.p.Pts(fr, x) {
			if c.obj.kind == "box" {
				for _, l := range a.p.leaves(x.X.Type()) {
					cc := a.p.cell(c.obj, c.path+l.path)
					m := a.getPM(fr, x.X, l.path)
					old, ok := a.pmCell[cc]
					if !ok {
						old = mTop
					}
					if old&m != old {
						a.pmCell[cc] = old & m
						a.change = true
					}
				}
			}
		}
	case *ssa.TypeAssert:
		tp := ""
		if x.CommaOk {
			tp = "#0"
		}
		for _, l := range a.p.leaves(x.AssertedType) {
			if l.path == "" {
				m := a.getPM(fr, x.X, "")
				for _, c := range a.p.Pts(fr, x.X) {
					if c.obj.kind == "box" {
						if y, ok := a.pmCell[a.p.cell(c.obj, c.path)]; ok {
							m &= y
						}
					}
				}
				a.setPM(fr, x, tp, m)
			} else {
				m := uint8(mTop)
				for _, c := range a.cellsAt(fr, x.X, l.path) {
					if y, ok := a.pmCell[c]; ok {
						m &= y
					}
				}
				a.setPM(fr, x, tp+l.path, m)
			}
		}
	case *ssa.Store:
		a.storePM(fr, x.Addr, "", x.Val, "", x.Val.Type())
	case *ssa.MapUpdate:
		m := x.Map.Type().Underlying().(*types.Map)
		a.storePM(fr, x.Map, "{}", x.Value, "", m.Elem())
	case *ssa.Return:
		for i, rv := range x.Results {
			for _, l := range a.p.leaves(rv.Type()) {
				m := a.getPM(fr, rv, l.path)
				k := a.retKeyOf(fr, i, l.path)
				old, ok := a.pm[k]
				if !ok {
					old = mTop
				}
				if old&m != old {
					a.pm[k] = old & m
					a.change = true
				}
			}
		}
	case ssa.CallInstruction:
		a.callPM(fr, x)
	}
}

func (a *raceAn) addIdx(m, idx uint8) uint8 { return m | idx }

func (a *raceAn) callPM(fr frame, site ssa.CallInstruction) {
	com := site.Common()
	res := site.Value()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if res != nil {
				m := a.getPM(fr, com.Args[0], "")
				a.setPM(fr, res, "", m)
				if st, ok := res.Type().Underlying().(*types.Slice); ok && len(com.Args) > 1 {
					a.shiftPM(fr, com.Args[1], res, st.Elem())
					a.shiftPM(fr, com.Args[0], res, st.Elem())
				}
			}
		case "copy":
			if st, ok := com.Args[0].Type().Underlying().(*types.Slice); ok {
				a.shiftPM(fr, com.Args[1], com.Args[0], st.Elem())
			}
		case "ssa:wrapnilchk":
			if res != nil {
				a.copyPM(fr, com.Args[0], "", res, "", res.Type())
			}
		}
		return
	}
	tos := a.p.edges[edgeKey{fr, site}]
	ext := len(tos) == 0
	for callee := range tos {
		if a.viaExternal(site, callee.fn) {
			ext = true
		}
		off := 0
		if com.IsInvoke() {
			off = 1
			if len(callee.fn.Params) > 0 {
				for _, l := range a.p.leaves(callee.fn.Params[0].Type()) {
					a.setPM(callee, callee.fn.Params[0], l.path, a.getPM(fr, com.Value, ""))
				}
			}
		}
		if !a.viaExternal(site, callee.fn) {
			for i, arg := range com.Args {
				if i+off >= len(callee.fn.Params) {
					break
				}
				prm := callee.fn.Params[i+off]
				for _, l := range a.p.leaves(prm.Type()) {
					a.setPM(callee, prm, l.path, a.getPM(fr, arg, l.path))
				}
			}
		}
		// captured variables
		if len(callee.fn.FreeVars) > 0 {
			var fv ssa.Value = com.Value
			if a.viaExternal(site, callee.fn) {
				fv = nil
				for _, g := range com.Args {
					if _, ok := g.Type().Underlying().(*types.Signature); ok {
						fv = g
					}
				}
			}
			if fv != nil {
				for _, c := range a.p.Pts(fr, fv) {
					mc, ok := c.obj.site.(*ssa.MakeClosure)
					if !ok || c.obj.fn != callee.fn {
						continue
					}
					cf := frame{c.obj.ctx, mc.Parent()}
					for i, b := range mc.Bindings {
						for _, l := range a.p.leaves(b.Type()) {
							m := uint8(0)
							if a.set[cf] {
								m = a.getPM(cf, b, l.path)
							}
							a.setPM(callee, callee.fn.FreeVars[i], l.path, m)
						}
					}
				}
			}
		}
		if res == nil || a.viaExternal(site, callee.fn) {
			continue
		}
		rs := callee.fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			tp := ""
			if rs.Len() > 1 {
				tp = "#" + strconv.Itoa(i)
			}
			for _, l := range a.p.leaves(rs.At(i).Type()) {
				m := uint8(mTop)
				if a.set[callee] {
					if y, ok := a.pm[a.retKeyOf(callee, i, l.path)]; ok {
						m = y
					}
				} else {
					m = 0
				}
				a.setPM(fr, res, tp+l.path, m)
			}
		}
	}
	if ext && res != nil {
		for _, l := range a.p.leaves(res.Type()) {
			m := uint8(mTop)
			for _, arg := range com.Args {
				if pointerLike(arg.Type()) && !isErrorType(arg.Type()) && types.Identical(arg.Type(), l.typ) {
					m &= a.getPM(fr, arg, "")
				}
			}
			a.setPM(fr, res, l.path, m)
		}
	}
}

// shiftPM copies the marks of the elements of one slice to those of another.
func (a *raceAn) shiftPM(fr frame, from, to ssa.Value, elem types.Type) {
	if _, ok := from.Type().Underlying().(*types.Slice); !ok {
		return
	}
	for _, l := range a.p.leaves(elem) {
		m := uint8(mTop)
		for _, c := range a.cellsAt(fr, from, l.path) {
			if y, ok := a.pmCell[c]; ok && a.local(fr, c) {
				m &= y
			} else if !a.local(fr, c) {
				m &= a.getPM(fr, from, "")
			}
		}
		if m == mTop {
			continue
		}
		for _, c := range a.cellsAt(fr, to, l.path) {
			old, ok := a.pmCell[c]
			if !ok {
				old = mTop
			}
			if old&m != old {
				a.pmCell[c] = old & m
				a.change = true
			}
		}
	}
}

// ---- locks held (function level; locks are named by the field or variable)

func lockName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if f := fieldVar(x.X.Type(), x.Field); f != nil {
			return fmt.Sprintf("field %s@%d", f.Name(), f.Pos())
		}
	case *ssa.Global:
		return "global " + x.String()
	case *ssa.Alloc:
		return fmt.Sprintf("var %s@%d", x.Comment, x.Pos())
	case *ssa.FreeVar:
		if mc := closureOf(x.Parent()); mc != nil {
			for i, fv := range x.Parent().FreeVars {
				if fv == x {
					return lockName(mc.Bindings[i])
				}
			}
		}
	case *ssa.UnOp:
		return lockName(x.X)
	}
	return ""
}

// lockOf names the lock an address stands for in a frame; "" when it is not one
// lock common to all workers.
func (a *raceAn) lockOf(fr frame, v ssa.Value) string {
	cs := a.p.Pts(fr, v)
	for _, c := range cs {
		if a.group[fr] != "" && (a.local(fr, c) || a.handed(fr, c.obj)) {
			return "" // every worker has its own
		}
	}
	if l := lockName(v); l != "" {
		return l
	}
	if len(cs) != 1 || cs[0].obj.site == nil {
		return ""
	}
	if al, ok := cs[0].obj.site.(*ssa.Alloc); ok {
		// a lock handed over by address
		t := al.Type().Underlying().(*types.Pointer).Elem()
		if cs[0].path == "" {
			return lockName(al)
		}
		if f, ok := fieldAt(t, cs[0].path); ok {
			return f
		}
	}
	return ""
}

// fieldAt: the lock name of a field path of depth one.
func fieldAt(t types.Type, path string) (string, bool) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "", false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if path == "."+f.Name() || path == "."+strconv.Itoa(i) {
			return fmt.Sprintf("field %s@%d", f.Name(), f.Pos()), true
		}
	}
	return "", false
}

func (a *raceAn) heldIn(fr frame) map[ssa.Instruction]map[string]bool {
	if h, ok := a.locks[fr]; ok {
		return h
	}
	f := fr.fn
	h := map[ssa.Instruction]map[string]bool{}
	a.locks[fr] = h
	if len(f.Blocks) == 0 {
		return h
	}
	in := map[*ssa.BasicBlock]map[string]bool{f.Blocks[0]: {}}
	todo := []*ssa.BasicBlock{f.Blocks[0]}
	for len(todo) > 0 {
		b := todo[0]
		todo = todo[1:]
		cur := map[string]bool{}
		for k := range in[b] {
			cur[k] = true
		}
		for _, ins := range b.Instrs {
			snap := map[string]bool{}
			for k := range cur {
				snap[k] = true
			}
			h[ins] = snap
			c, ok := ins.(*ssa.Call)
			if !ok || len(c.Common().Args) == 0 {
				continue
			}
			n := fullName(c.Common())
			if n == "(*sync.Once).Do" {
				if l := a.lockOf(fr, c.Common().Args[0]); l != "" {
					cur["once "+l] = true
				}
				continue
			}
			if !strings.HasPrefix(n, "(*sync.Mutex).") && !strings.HasPrefix(n, "(*sync.RWMutex).") {
				continue
			}
			l := a.lockOf(fr, c.Common().Args[0])
			if l == "" {
				continue
			}
			switch n[strings.LastIndex(n, ".")+1:] {
			case "Lock":
				cur[l] = true
				cur[l+" r"] = true
			case "RLock":
				cur[l+" r"] = true
			case "Unlock", "RUnlock":
				delete(cur, l)
				delete(cur, l+" r")
			}
		}
		for _, s := range b.Succs {
			old, ok := in[s]
			if !ok {
				in[s] = cur
				todo = append(todo, s)
				continue
			}
			nw := map[string]bool{}
			for k := range old {
				if cur[k] {
					nw[k] = true
				}
			}
			if len(nw) != len(old) {
				in[s] = nw
				todo = append(todo, s)
			}
		}
	}
	return h
}

// entryLocks: locks held by every caller.
func (a *raceAn) entryLocks(fr frame, busy map[frame]bool) map[string]bool {
	if e, ok := a.entry[fr]; ok {
		return e
	}
	if busy[fr] {
		return nil
	}
	busy[fr] = true
	defer delete(busy, fr)
	var out map[string]bool
	if l := a.onceOf(fr.fn); l != "" {
		return map[string]bool{"once " + l: true}
	}
	for _, e := range a.p.callers[fr] {
		if _, isCall := e.site.(*ssa.Call); !isCall {
			out = map[string]bool{}
			break
		}
		here := a.locksAt(e.fr, e.site, busy)
		if out == nil {
			out = here
			continue
		}
		nw := map[string]bool{}
		for k := range out {
			if here[k] {
				nw[k] = true
			}
		}
		out = nw
	}
	if out == nil {
		out = map[string]bool{}
	}
	if len(busy) == 1 {
		a.entry[fr] = out
	}
	return out
}

// onceOf: the sync.Once that runs the function, if that is its only use.
func (a *raceAn) onceOf(f *ssa.Function) string {
	mc := closureOf(f)
	if mc == nil {
		return ""
	}
	out := ""
	for _, rf := range *mc.Referrers() {
		c, ok := rf.(*ssa.Call)
		if !ok || fullName(c.Common()) != "(*sync.Once).Do" {
			return ""
		}
		out = lockName(c.Common().Args[0])
	}
	return out
}

func (a *raceAn) locksAt(fr frame, ins ssa.Instruction, busy map[frame]bool) map[string]bool {
	out := map[string]bool{}
	for k := range a.heldIn(fr)[ins] {
		out[k] = true
	}
	for k := range a.entryLocks(fr, busy) {
		out[k] = true
	}
	return out
}

// ---- accesses

type raceAcc struct {
	fr    frame
	ins   ssa.Instruction
	write bool
	mark  uint8
	what  string
	atom  bool
}

// accesses calls visit for every memory cell an instruction reads or writes.
func (a *raceAn) accesses(fr frame, ins ssa.Instruction, visit func(c *pcell, acc raceAcc)) {
	at := func(ptr ssa.Value, suffix string, t types.Type, acc raceAcc) {
		acc.fr, acc.ins = fr, ins
		acc.mark |= a.getPM(fr, ptr, "")
		for _, l := range a.allLeaves(t) {
			for _, c := range a.cellsAt(fr, ptr, suffix+l.path) {
				switch c.obj.kind {
				case "func", "closure", "chan", "box", "str":
					continue
				}
				if lt := c.typ; lt != nil && isSyncish(lt) {
					continue
				}
				visit(c, acc)
			}
		}
	}
	switch x := ins.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			at(x.X, "", x.Type(), raceAcc{what: "reads"})
		}
	case *ssa.Store:
		at(x.Addr, "", x.Val.Type(), raceAcc{write: true, what: "writes"})
	case *ssa.Lookup:
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			at(x.X, "{}", m.Elem(), raceAcc{what: "reads"})
		}
	case *ssa.Range:
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			at(x.X, "{}", m.Elem(), raceAcc{what: "ranges over"})
		}
	case *ssa.MapUpdate:
		m := x.Map.Type().Underlying().(*types.Map)
		at(x.Map, "{}", m.Elem(), raceAcc{write: true, what: "updates"})
	case ssa.CallInstruction:
		com := x.Common()
		if b, ok := com.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "copy":
				if st, ok := com.Args[0].Type().Underlying().(*types.Slice); ok {
					at(com.Args[0], "", st.Elem(), raceAcc{write: true, what: "copies into"})
					if _, ok := com.Args[1].Type().Underlying().(*types.Slice); ok {
						at(com.Args[1], "", st.Elem(), raceAcc{what: "copies from"})
					}
				}
			case "clear":
				switch u := com.Args[0].Type().Underlying().(type) {
				case *types.Slice:
					at(com.Args[0], "", u.Elem(), raceAcc{write: true, what: "clears"})
				case *types.Map:
					at(com.Args[0], "{}", u.Elem(), raceAcc{write: true, what: "clears"})
				}
			case "delete":
				if u, ok := com.Args[0].Type().Underlying().(*types.Map); ok {
					at(com.Args[0], "{}", u.Elem(), raceAcc{write: true, what: "deletes from"})
				}
			case "append":
				if st, ok := com.Args[0].Type().Underlying().(*types.Slice); ok {
					if resliced(com.Args[0], 0) {
						at(com.Args[0], "", st.Elem(), raceAcc{write: true, what: "appends into"})
					}
					if len(com.Args) > 1 {
						if _, ok := com.Args[1].Type().Underlying().(*types.Slice); ok {
							at(com.Args[1], "", st.Elem(), raceAcc{what: "reads"})
						}
					}
				}
			}
			return
		}
		name := fullName(com)
		if strings.HasPrefix(name, "sync/atomic.") && len(com.Args) > 0 {
			if pt, ok := com.Args[0].Type().Underlying().(*types.Pointer); ok {
				at(com.Args[0], "", pt.Elem(), raceAcc{write: !strings.HasPrefix(name, "sync/atomic.Load"), what: "atomically accesses", atom: true})
			}
			return
		}
		for _, v := range externalWrites(name, com) {
			switch u := v.Type().Underlying().(type) {
			case *types.Slice:
				at(v, "", u.Elem(), raceAcc{write: true, what: "lets " + name + " write"})
			case *types.Pointer:
				at(v, "", u.Elem(), raceAcc{write: true, what: "lets " + name + " write"})
			}
		}
	}
}

func resliced(v ssa.Value, d int) bool {
	if d > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Slice:
		return x.High != nil || resliced(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if resliced(e, d+1) {
				return true
			}
		}
	}
	return false
}

func isSyncish(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		p := n.Obj().Pkg().Path()
		return p == "sync" || p == "sync/atomic"
	}
	_, ch := t.Underlying().(*types.Chan)
	return ch && false
}

func (p *PTA) out(fr frame) []frame {
	if p.outs == nil {
		p.outs = map[frame][]frame{}
		for ek, tos := range p.edges {
			for t := range tos {
				p.outs[ek.fr] = append(p.outs[ek.fr], t)
			}
		}
	}
	return p.outs[fr]
}

func (p *PTA) below(start []frame) map[frame]bool {
	seen := map[frame]bool{}
	todo := append([]frame{}, start...)
	for len(todo) > 0 {
		f := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if seen[f] {
			continue
		}
		seen[f] = true
		todo = append(todo, p.out(f)...)
	}
	return seen
}

type raceSpawn struct {
	fr     frame
	site   ssa.CallInstruction
	group  string
	multi  bool
	points []spawnPoint // the start itself and, where it is not joined before the return, the calls that lead to it
}

type spawnPoint struct {
	fr   frame
	site ssa.CallInstruction
}

// activeLoops: the loops around a call that can come round again before a join.
func (a *raceAn) activeLoops(site ssa.CallInstruction) []*natLoop {
	reach := map[*ssa.BasicBlock]bool{}
	for _, ins := range a.untilJoin(site) {
		if ins == ins.Block().Instrs[0] {
			reach[ins.Block()] = true
		}
	}
	var out []*natLoop
	for _, l := range a.w.loopsAround(site.Block()) {
		if reach[l.head] {
			out = append(out, l)
		}
	}
	return out
}

func (a *raceAn) addPoint(sp *raceSpawn, fr frame, site ssa.CallInstruction, depth int) {
	for _, q := range sp.points {
		if q.fr == fr && q.site == site {
			return
		}
	}
	sp.points = append(sp.points, spawnPoint{fr, site})
	a.set[fr] = true
	loops := a.activeLoops(site)
	if len(loops) > 0 {
		sp.multi = true
	}
	if a.heads[fr] == nil {
		a.heads[fr] = map[*ssa.BasicBlock]uint8{}
	}
	for i, l := range loops {
		for b := range l.body {
			a.spawn[fr] = append(a.spawn[fr], b)
		}
		m := mFull
		if len(loops) > 1 {
			m = mRem
			if i == 0 {
				m = mQuot
			}
		}
		if old, ok := a.heads[fr][l.head]; ok && old != m {
			m = mFull
		}
		a.heads[fr][l.head] = m
	}
	// not joined before the function returns: its callers go on with the worker running
	left := false
	for _, ins := range a.untilJoin(site) {
		if _, ok := ins.(*ssa.Return); ok {
			left = true
		}
	}
	if !left || depth > 3 || a.group[fr] != "" {
		return
	}
	if len(loops) == 0 {
		a.spawn[fr] = append(a.spawn[fr], fr.fn.Blocks...)
	}
	for _, e := range a.p.callers[fr] {
		if _, ok := e.site.(*ssa.Call); ok {
			a.addPoint(sp, e.fr, e.site, depth+1)
		}
	}
}

func init() {
	register("P12", "other", "Points-to analysis with goroutine-tagged contexts: every memory access of a worker to memory it did not allocate is classified by the path that reaches it, and compared with the accesses of the other workers and of the function that starts them.", func(w *World, r *Result, th bool) {
		newRace(w, r).run()
	})
}

// newRace solves the points-to analysis that tells workers apart.
func newRace(w *World, r *Result) *raceAn {
	p := NewPTA(w)
	p.tagGo = true
	p.freshPool = true
	for _, f := range w.libInits() {
		p.Reach(frame{p.ctx("init", nil, nil), f})
	}
	for _, f := range w.roots {
		if len(f.Blocks) > 0 && !isWrapper(f) && (pkgOf(f) == modPath+"/core" || pkgOf(f) == modPath) {
			p.Root(f, "api:"+f.String())
		}
	}
	p.Solve()
	have := map[ssa.CallInstruction]bool{}
	for ek := range p.edges {
		have[ek.site] = true
	}
	// goroutines that only other exported functions start
	for _, f := range w.ModFns() {
		eachInstr(f, func(ins ssa.Instruction) {
			c, ok := ins.(ssa.CallInstruction)
			if !ok || w.goTag(c) == "" || have[c] || !w.reach[f] {
				return
			}
			for _, rt := range w.roots {
				if len(rt.Blocks) > 0 && !isWrapper(rt) && reachFrom(w.cg, []*ssa.Function{rt})[f] {
					p.Root(rt, "api:"+rt.String())
				}
			}
			p.Solve()
			for ek := range p.edges {
				have[ek.site] = true
			}
		})
	}
	a := &raceAn{w: w, p: p, r: r, set: map[frame]bool{}, group: map[frame]string{}, spawn: map[frame][]*ssa.BasicBlock{}, heads: map[frame]map[*ssa.BasicBlock]uint8{},
		sm: map[raceKey]uint8{}, smCell: map[*pcell]uint8{}, pm: map[raceKey]uint8{}, pmCell: map[*pcell]uint8{}, pmByWk: map[*pcell]uint8{}, hot: map[string]map[*pobj]bool{}, allLv: map[types.Type][]leaf{},
		locks: map[frame]map[ssa.Instruction]map[string]bool{}, entry: map[frame]map[string]bool{}, done: map[string]bool{}, items: map[*pcell]map[string]uint8{}, hands: map[handKey]bool{}}
	return a
}

func (a *raceAn) run() {
	p, w, r := a.p, a.w, a.r
	var spawns []*raceSpawn
	sites := map[ssa.CallInstruction]bool{}
	for _, fr := range p.order {
		eachInstr(fr.fn, func(ins ssa.Instruction) {
			c, ok := ins.(ssa.CallInstruction)
			if !ok || w.goTag(c) == "" {
				return
			}
			tos := p.edges[edgeKey{fr, c}]
			if len(tos) == 0 {
				return
			}
			sp := &raceSpawn{fr: fr, site: c}
			for t := range tos {
				sp.group = t.ctx.root
				for f := range p.below([]frame{t}) {
					if strings.HasPrefix(f.ctx.root, sp.group) {
						a.group[f] = f.ctx.root
						a.set[f] = true
					}
				}
			}
			a.addPoint(sp, fr, c, 0)
			spawns = append(spawns, sp)
			sites[c] = true
		})
	}
	a.spawns = spawns
	// helpers called by the functions that start workers
	for _, sp := range spawns {
		for _, c := range p.out(sp.fr) {
			a.set[c] = true
			for _, d := range p.out(c) {
				a.set[d] = true
			}
		}
	}
	for _, fr := range p.order {
		if a.set[fr] {
			a.order = append(a.order, fr)
		}
	}
	r.Count("goroutine start sites", len(sites))
	r.Count("(function, context) pairs run by workers", len(a.group))
	r.Minimum["goroutine start sites"] = 1

	each := func(step func(frame, ssa.Instruction, map[*ssa.BasicBlock]bool)) {
		for {
			a.change = false
			for _, fr := range a.order {
				live := p.liveIn(fr)
				for _, b := range fr.fn.Blocks {
					if !live[b] {
						continue
					}
					for _, ins := range b.Instrs {
						step(fr, ins, live)
					}
				}
			}
			if !a.change {
				return
			}
		}
	}
	each(a.stepSM)
	groups := map[string][]frame{}
	for _, fr := range p.order {
		if g := a.group[fr]; g != "" {
			groups[g] = append(groups[g], fr)
		}
	}
	for g, frs := range groups {
		a.hot[g] = a.reachable(g, frs, spawns)
	}
	// entry values of the functions analysed that nobody analysed calls
	for _, fr := range a.order {
		known := false
		for _, e := range p.callers[fr] {
			if e.site != nil && a.set[e.fr] {
				known = true
			}
		}
		if !known {
			for _, prm := range fr.fn.Params {
				for _, l := range p.leaves(prm.Type()) {
					a.setPM(fr, prm, l.path, 0)
				}
			}
			for _, fv := range fr.fn.FreeVars {
				a.setPM(fr, fv, "", 0)
			}
		}
	}
	// allocations outside the loops that start workers
	for _, sp := range spawns {
		if a.group[sp.fr] != "" {
			continue
		}
		eachInstr(sp.fr.fn, func(ins ssa.Instruction) {
			switch x := ins.(type) {
			case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
				a.setPM(sp.fr, x.(ssa.Value), "", 0)
			case *ssa.Call:
				if !inBlocks(a.spawn[sp.fr], x.Block()) {
					for _, l := range p.leaves(x.Type()) {
						a.setPM(sp.fr, x, l.path, 0)
					}
				}
			}
		})
	}
	each(a.stepPM)

	names := []string{}
	for g := range groups {
		names = append(names, g)
	}
	sort.Strings(names)
	for _, g := range names {
		a.checkGroup(g, groups[g], spawns)
	}
	r.Rules = []string{
		"memory a worker writes and did not allocate is reached only through indices that identify its own work item (the loop variable or item it was started with, or an item it received), by it and by every other worker that touches it, unless all of them hold the same lock or use atomics",
		"while workers run, the function that started them neither writes memory they touch nor reads memory they write",
	}
}

func inBlocks(bs []*ssa.BasicBlock, b *ssa.BasicBlock) bool {
	for _, x := range bs {
		if x == b {
			return true
		}
	}
	return false
}

// reachable: shared objects a worker can get at without going through an
// element selected by its own item.
func (a *raceAn) reachable(g string, frs []frame, spawns []*raceSpawn) map[*pobj]bool {
	p := a.p
	hot := map[*pobj]bool{}
	var todo []*pobj
	push := func(fr frame, cs []*pcell) {
		for _, c := range cs {
			if !hot[c.obj] && !a.local(fr, c) {
				hot[c.obj] = true
				todo = append(todo, c.obj)
			}
		}
	}
	loaded := map[*pobj]map[*pcell]bool{}
	elemOwned := map[*pcell]bool{}
	elemSeen := map[*pcell]bool{}
	for _, fr := range frs {
		live := p.liveIn(fr)
		for _, b := range fr.fn.Blocks {
			if !live[b] {
				continue
			}
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if gl, ok := (*op).(*ssa.Global); ok {
						push(fr, []*pcell{p.globalCell(gl)})
					}
				}
				if ia, ok := ins.(*ssa.IndexAddr); ok {
					own := owned(a.getSM(fr, ia.Index, ""))
					for _, c := range p.Pts(fr, ia) {
						if !elemSeen[c] {
							elemSeen[c] = true
							elemOwned[c] = own
						} else {
							elemOwned[c] = elemOwned[c] && own
						}
					}
				}
				a.accesses(fr, ins, func(c *pcell, acc raceAcc) {
					if loaded[c.obj] == nil {
						loaded[c.obj] = map[*pcell]bool{}
					}
					loaded[c.obj][c] = true
				})
			}
		}
	}
	for _, sp := range spawns {
		if sp.group != g {
			continue
		}
		for t := range p.edges[edgeKey{sp.fr, sp.site}] {
			com := sp.site.Common()
			_ = com
			for _, prm := range t.fn.Params {
				for _, l := range p.leaves(prm.Type()) {
					// arguments picked by the loop variable are the worker's own
					if a.argOwned(sp, t, prm) {
						continue
					}
					push(t, a.ptsAt(t, prm, l.path))
				}
			}
			for _, fv := range t.fn.FreeVars {
				for _, c := range a.ptsAt(t, fv, "") {
					if a.perIter(sp.fr, c.obj) {
						continue
					}
					push(t, []*pcell{c})
				}
			}
		}
	}
	for len(todo) > 0 {
		o := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for c := range loaded[o] {
			stop := false
			for e, own := range elemOwned {
				if own && e.obj == o && strings.HasPrefix(c.path, e.path) {
					stop = true
				}
			}
			if stop || c.node == nil {
				continue
			}
			for d := range c.node.pts {
				if d.obj.ctx != nil && strings.HasPrefix(d.obj.ctx.root, g) {
					continue
				}
				if !hot[d.obj] {
					hot[d.obj] = true
					todo = append(todo, d.obj)
				}
			}
		}
	}
	return hot
}

// argOwned: the argument of the goroutine is reached through the loop variable.
func (a *raceAn) argOwned(sp *raceSpawn, t frame, prm *ssa.Parameter) bool {
	com := sp.site.Common()
	i := paramIndex(prm)
	if com.IsInvoke() {
		i--
	}
	if i < 0 || i >= len(com.Args) || a.viaExternal(sp.site, t.fn) {
		return false
	}
	if a.picked(sp.fr, com.Args[i], 0) {
		return true
	}
	cs := a.p.Pts(sp.fr, com.Args[i])
	if len(cs) == 0 {
		return false
	}
	for _, c := range cs {
		if !a.perIter(sp.fr, c.obj) {
			return false
		}
	}
	return true
}

// picked: the value is read through an element selected by the loop variable.
func (a *raceAn) picked(fr frame, v ssa.Value, d int) bool {
	if d > 12 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return d > 0 && x.IsNil()
	case *ssa.UnOp:
		return a.picked(fr, x.X, d+1)
	case *ssa.FieldAddr:
		return a.picked(fr, x.X, d+1)
	case *ssa.Slice:
		if x.Low != nil && owned(a.getSM(fr, x.Low, "")) {
			return true
		}
		return a.picked(fr, x.X, d+1)
	case *ssa.IndexAddr:
		return owned(a.getSM(fr, x.Index, "")) || a.picked(fr, x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !a.picked(fr, e, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

func (a *raceAn) accLocks(x raceAcc) map[string]bool {
	if x.atom {
		return map[string]bool{"atomic": true}
	}
	return a.locksAt(x.fr, x.ins, map[frame]bool{})
}

func compatible(a *raceAn, x, y raceAcc) bool {
	lx, ly := a.accLocks(x), a.accLocks(y)
	if x.atom && y.atom {
		return true
	}
	for k := range lx {
		if strings.HasSuffix(k, " r") || !ly[k] && !(ly[k+" r"] && !y.write) {
			continue
		}
		return true
	}
	for k := range ly {
		if strings.HasSuffix(k, " r") || !(lx[k+" r"] && !x.write) {
			continue
		}
		return true
	}
	return false
}

func (a *raceAn) checkGroup(g string, frs []frame, spawns []*raceSpawn) {
	p, w, r := a.p, a.w, a.r
	accs := map[*pcell][]raceAcc{}
	var cells []*pcell
	collect := func(fr frame, ins ssa.Instruction, shared func(c *pcell) bool, into map[*pcell][]raceAcc, list *[]*pcell) {
		a.accesses(fr, ins, func(c *pcell, acc raceAcc) {
			if !shared(c) {
				return
			}
			if into[c] == nil && list != nil {
				*list = append(*list, c)
			}
			into[c] = append(into[c], acc)
		})
	}
	for _, fr := range frs {
		live := p.liveIn(fr)
		for _, b := range fr.fn.Blocks {
			if live[b] {
				for _, ins := range b.Instrs {
					collect(fr, ins, func(c *pcell) bool { return !a.local(fr, c) }, accs, &cells)
				}
			}
		}
	}
	multi := false
	for _, sp := range spawns {
		if sp.group == g && sp.multi {
			multi = true
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
	for _, c := range cells {
		r.Count("shared memory cells touched by workers", 1)
		r.Count("accesses of workers to shared memory", len(accs[c]))
		var wr *raceAcc
		for i := range accs[c] {
			if accs[c][i].write && (wr == nil || owned(wr.mark) && !owned(accs[c][i].mark)) {
				wr = &accs[c][i]
			}
		}
		if wr == nil {
			continue
		}
		r.Count("shared memory cells written by workers", 1)
		if !multi {
			continue
		}
		for _, x := range accs[c] {
			if owned(x.mark) && owned(wr.mark) {
				continue
			}
			bad := x
			if owned(x.mark) {
				bad = *wr
			}
			if compatible(a, x, *wr) {
				if x.write && !owned(x.mark) {
					a.locked = append(a.locked, lockedWrite{c, x})
				}
				continue
			}
			a.report(c, bad, *wr)
		}
	}
	// the function that started them, until they are joined
	for _, sp := range spawns {
		if sp.group != g {
			continue
		}
		for _, pt := range sp.points {
			par := map[*pcell][]raceAcc{}
			var pcs []*pcell
			seen := map[frame]bool{}
			for _, ins := range a.untilJoin(pt.site) {
				fresh := func(c *pcell) bool { return !a.madeAfter(pt, c, ins) }
				collect(pt.fr, ins, fresh, par, &pcs)
				ci, ok := ins.(ssa.CallInstruction)
				if !ok || ci == pt.site {
					continue
				}
				var st []frame
				for t := range p.edges[edgeKey{pt.fr, ci}] {
					st = append(st, t)
				}
				for f := range p.below(st) {
					if seen[f] {
						continue
					}
					seen[f] = true
					a.set[f] = true
					live := p.liveIn(f)
					for _, b := range f.fn.Blocks {
						if live[b] {
							for _, in2 := range b.Instrs {
								collect(f, in2, fresh, par, &pcs)
							}
						}
					}
				}
			}
			r.Count("accesses of the starting function while workers run", len(pcs))
			sort.Slice(pcs, func(i, j int) bool { return pcs[i].id < pcs[j].id })
			for _, c := range pcs {
				if len(accs[c]) == 0 {
					continue
				}
				for _, x := range par[c] {
					for _, y := range accs[c] {
						if !x.write && !y.write || compatible(a, x, y) {
							continue
						}
						if owned(x.mark) && owned(y.mark) && x.fr == pt.fr {
							continue
						}
						k := "spawner/" + FnName(x.fr.fn) + "/" + raceName(c)
						if !a.done[k] {
							a.done[k] = true
							r.Add(k, w.Pos(instrPos(x.ins)), "%s %s %s while workers started at %s, which have not been waited for, %s it (%s)", FnName(x.fr.fn), x.what, raceName(c), w.Pos(instrPos(sp.site)), y.what, w.Pos(instrPos(y.ins)))
						}
					}
				}
			}
		}
	}
}

// madeAfter: the memory did not exist yet when the worker was started, or is
// made anew on the way round to the instruction.
func (a *raceAn) madeAfter(sp spawnPoint, c *pcell, ins ssa.Instruction) bool {
	o := c.obj
	if o.ctx == nil {
		return false
	}
	var at ssa.Instruction
	if in, ok := o.site.(ssa.Instruction); ok && in.Parent() == sp.fr.fn && o.ctx == sp.fr.ctx {
		at = in
	}
	for _, s := range o.ctx.sites {
		if s.Parent() == sp.fr.fn {
			at = s
		}
	}
	if at == nil {
		return false
	}
	if at == ins {
		return true
	}
	return !pathAvoiding(sp.site, ins, at)
}

// pathAvoiding: ins can execute after from without passing via.
func pathAvoiding(from, ins, via ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == ins {
				return true
			}
			if b.Instrs[i] == via {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return walk(from.Block(), indexOf(from.Block(), from)+1)
}

// untilJoin lists the instructions that can run after a goroutine was started
// and before the next Wait.
func (a *raceAn) untilJoin(site ssa.CallInstruction) []ssa.Instruction {
	var out []ssa.Instruction
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs); i++ {
			if c, ok := b.Instrs[i].(*ssa.Call); ok && a.joins(c, 0) {
				return
			}
			out = append(out, b.Instrs[i])
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	walk(site.Block(), indexOf(site.Block(), site)+1)
	return out
}

// joins: the call waits for a wait group on every path.
func (a *raceAn) joins(c *ssa.Call, d int) bool {
	if fullName(c.Common()) == "(*sync.WaitGroup).Wait" {
		return true
	}
	if d > 3 {
		return false
	}
	f := c.Common().StaticCallee()
	if f == nil || !inModule(f) || len(f.Blocks) == 0 {
		return false
	}
	found := false
	eachInstr(f, func(ins ssa.Instruction) {
		if cc, ok := ins.(*ssa.Call); ok && a.joins(cc, d+1) && onAllReturns(f, cc.Block()) {
			found = true
		}
	})
	return found
}

func raceName(c *pcell) string {
	o := c.obj
	fp := c.FieldPath()
	switch {
	case o.kind == "global":
		return "package variable " + globalName(c) + fp
	case o.kind == "sym":
		if o.typ != nil {
			return "a shared " + typeName(o.typ) + fp
		}
		return "shared memory" + fp
	}
	if al, ok := o.site.(*ssa.Alloc); ok {
		if al.Comment != "" && al.Comment != "new" && al.Comment != "complit" && !strings.Contains(al.Comment, "lit") {
			return "the variable " + al.Comment + " of " + FnName(al.Parent()) + fp
		}
		return "a shared " + typeName(o.typ) + fp
	}
	if in, ok := o.site.(ssa.Instruction); ok && in.Parent() != nil {
		return "the " + o.kind + " made by " + FnName(in.Parent()) + fp
	}
	return c.String()
}

func (a *raceAn) report(c *pcell, bad, wr raceAcc) {
	k := "workers/" + FnName(bad.fr.fn) + "/" + raceName(c)
	if a.done[k] {
		return
	}
	a.done[k] = true
	if bad.ins == wr.ins {
		a.r.Add(k, a.w.Pos(instrPos(bad.ins)), "%s %s %s, which other workers running at the same time share: nothing on the way to it identifies the worker's own item", FnName(bad.fr.fn), bad.what, raceName(c))
		return
	}
	a.r.Add(k, a.w.Pos(instrPos(bad.ins)), "%s %s %s without selecting the worker's own item, while another worker %s it (%s)", FnName(bad.fr.fn), bad.what, raceName(c), wr.what, a.w.Pos(instrPos(wr.ins)))
}
