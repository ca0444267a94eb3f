package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A path-sensitive walk that tracks, for pointers, interfaces and errors, whether
// they are nil, and for booleans their value. Calls of module functions are
// walked with the facts of the call; local cells (named results, captured
// variables) and fields are tracked by name.

type nfact uint8

const (
	nUnk   nfact = iota
	nNil         // nil / false
	nNon         // not nil / true
	nMaybe       // nil on an ordinary execution (missing map entry)
)

type nstate struct {
	vals   map[ssa.Value]nfact
	tups   map[ssa.Value][]nfact
	cells  map[string]nfact
	link   map[ssa.Value]string // loaded value -> cell it still equals
	defers []*ssa.Defer
	parse  bool
	ts     *tsState // typestate of tracked objects, when the walk has a machine
}

func newNstate() *nstate {
	return &nstate{vals: map[ssa.Value]nfact{}, tups: map[ssa.Value][]nfact{}, cells: map[string]nfact{}, link: map[ssa.Value]string{}}
}

func (s *nstate) clone() *nstate {
	n := newNstate()
	for k, v := range s.vals {
		n.vals[k] = v
	}
	for k, v := range s.tups {
		n.tups[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.link {
		n.link[k] = v
	}
	n.defers = append([]*ssa.Defer(nil), s.defers...)
	n.parse = s.parse
	n.ts = s.ts.clone()
	return n
}

func (s *nstate) key() string {
	var p []string
	for k, v := range s.vals {
		if v != nUnk {
			p = append(p, fmt.Sprintf("%p=%d", k, v))
		}
	}
	for k, v := range s.tups {
		p = append(p, fmt.Sprintf("%p:%v", k, v))
	}
	for k, v := range s.cells {
		if v != nUnk {
			p = append(p, fmt.Sprintf("%s=%d", k, v))
		}
	}
	for k, v := range s.link {
		p = append(p, fmt.Sprintf("%p~%s", k, v))
	}
	sort.Strings(p)
	return fmt.Sprintf("%v|%v|%s|%s", s.parse, s.defers, strings.Join(p, ","), s.ts.key())
}

type noutcome struct {
	ret   *ssa.Return
	res   []nfact
	parse bool
	cells map[string]nfact // cells of the callers
	ts    *tsState
}

type nwalk struct {
	w         *World
	e         *errWalk
	parseOnly *types.Var
	live      map[*ssa.Function]map[ssa.Value]map[int]bool
	memo      map[string][]noutcome
	steps     int
	gaveUp    map[*ssa.Function]bool
	contexts  map[*ssa.Function]map[string][]nfact // facts of the arguments at the call sites walked
	tm        tsMachine
	chans     []*syncObj
}

func newNwalk(w *World) *nwalk {
	return &nwalk{w: w, e: newErrWalk(w), parseOnly: parseOnlyField(w), live: map[*ssa.Function]map[ssa.Value]map[int]bool{}, memo: map[string][]noutcome{}, gaveUp: map[*ssa.Function]bool{}, contexts: map[*ssa.Function]map[string][]nfact{}}
}

func nTracked(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.Bool || u.Kind() == types.UntypedNil
	}
	return false
}

// liveAt: value v may still be used in block b or after it.
func (n *nwalk) liveAt(f *ssa.Function, v ssa.Value, b *ssa.BasicBlock) bool {
	m := n.live[f]
	if m == nil {
		m = map[ssa.Value]map[int]bool{}
		n.live[f] = m
	}
	lv, ok := m[v]
	if !ok {
		lv = map[int]bool{}
		var def *ssa.BasicBlock
		if i, ok := v.(ssa.Instruction); ok {
			def = i.Block()
		}
		var mark func(b *ssa.BasicBlock)
		mark = func(b *ssa.BasicBlock) {
			if lv[b.Index] {
				return
			}
			lv[b.Index] = true
			if b == def {
				return
			}
			for _, p := range b.Preds {
				mark(p)
			}
		}
		if v.Referrers() != nil {
			for _, u := range *v.Referrers() {
				if u.Parent() != f {
					continue
				}
				if ph, ok := u.(*ssa.Phi); ok {
					for i, x := range ph.Edges {
						if x == v {
							mark(ph.Block().Preds[i])
						}
					}
					continue
				}
				mark(u.Block())
			}
		}
		m[v] = lv
	}
	return lv[b.Index]
}

func (n *nwalk) fact(s *nstate, v ssa.Value) nfact {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := x.Type().Underlying().(*types.Struct); ok {
				return nNon
			}
			return nNil
		}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			if x.Value.String() == "true" {
				return nNon
			}
			return nNil
		}
		return nNon
	case *ssa.Alloc, *ssa.Function, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeClosure:
		return nNon
	}
	if f, ok := s.vals[v]; ok {
		return f
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		if isErrorType(x.Type()) {
			return nNon
		}
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return n.fact(s, x.X)
		}
		return nNon
	case *ssa.ChangeInterface:
		return n.fact(s, x.X)
	case *ssa.ChangeType:
		return n.fact(s, x.X)
	case *ssa.Convert:
		return nUnk
	}
	if s.ts != nil && nTracked(v.Type()) && n.tm.tracked(v.Type()) {
		// an object operated on before exists
		k := s.ts.name(v)
		if _, ok := s.ts.st[k]; ok || s.ts.done[k] {
			return nNon
		}
	}
	return nUnk
}

func (n *nwalk) set(s *nstate, v ssa.Value, f nfact) {
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	s.vals[v] = f
	if s.ts != nil && nTracked(v.Type()) && n.tm.tracked(v.Type()) {
		delete(s.ts.nils, s.ts.name(v))
		if f == nNil {
			s.ts.nils[s.ts.name(v)] = true
		}
	}
	if c, ok := s.link[v]; ok {
		s.cells[c] = f
		// other loads of the same cell
		for u, k := range s.link {
			if k == c && u != v {
				s.vals[u] = f
			}
		}
	}
	switch x := v.(type) {
	case *ssa.ChangeInterface:
		n.set(s, x.X, f)
	case *ssa.MakeInterface:
		if !isErrorType(x.Type()) {
			n.set(s, x.X, f)
		}
	}
}

// receivesError: the receive happens only when the channel holds something, and
// nothing but errors that exist is sent on it.
func (n *nwalk) receivesError(u *ssa.UnOp) bool {
	if n.chans == nil {
		n.chans = append([]*syncObj{}, n.w.syncObjects("chan")...)
	}
	for _, o := range n.chans {
		if !o.vals[u.X] || !n.w.guardedByLen(u, o) {
			continue
		}
		ok := true
		for f := range o.fns {
			eachInstr(f, func(ins ssa.Instruction) {
				switch x := ins.(type) {
				case *ssa.Send:
					if o.vals[x.Chan] && !n.exists(x.X, x.Block(), 0) {
						ok = false
					}
				case *ssa.Select:
					for _, st := range x.States {
						if st.Dir == types.SendOnly && o.vals[st.Chan] && !n.exists(st.Send, x.Block(), 0) {
							ok = false
						}
					}
				}
			})
		}
		return ok
	}
	return false
}

// exists: the error v is not nil in block b.
func (n *nwalk) exists(v ssa.Value, b *ssa.BasicBlock, d int) bool {
	for k := b; k != nil; k = k.Idom() {
		if len(k.Preds) != 1 {
			continue
		}
		p := k.Preds[0]
		ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] == p.Succs[1] {
			continue
		}
		if bo, ok := ifi.Cond.(*ssa.BinOp); ok && (bo.X == v && isNilConst(bo.Y) || bo.Y == v && isNilConst(bo.X)) {
			if bo.Op == token.NEQ && p.Succs[0] == k || bo.Op == token.EQL && p.Succs[1] == k {
				return true
			}
		}
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.ChangeInterface:
		return n.exists(x.X, b, d)
	case *ssa.Phi:
		if d > 3 {
			return false
		}
		for i, e := range x.Edges {
			if !n.exists(e, x.Block().Preds[i], d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || d > 3 {
			return false
		}
		switch f.String() {
		case "errors.New", "fmt.Errorf":
			return true
		}
		if len(f.Blocks) == 0 || !inModule(f) || f.Signature.Results().Len() != 1 {
			return false
		}
		for _, fb := range f.Blocks {
			if r, ok := fb.Instrs[len(fb.Instrs)-1].(*ssa.Return); ok && !n.exists(r.Results[0], fb, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

func (n *nwalk) isParseOnly(v ssa.Value) bool {
	if n.parseOnly == nil {
		return false
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		return v.Op == token.MUL && fieldVarOf(v.X) == n.parseOnly
	case *ssa.Field:
		return fieldVarOf(v) == n.parseOnly
	}
	return false
}

type nframe struct {
	f     *ssa.Function
	depth int
	stack []*ssa.Function
	out   []noutcome
	seen  map[string]bool
	nSt   int
	rec   nfact // what recover() returns
}

// walk explores f from the given facts of its parameters and of the caller cells
// its free variables name.
func (n *nwalk) walk(f *ssa.Function, params []nfact, cells map[string]nfact, depth int, stack []*ssa.Function, rec nfact) []noutcome {
	var ck []string
	for k, v := range cells {
		ck = append(ck, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ck)
	mk := fmt.Sprintf("%p|%v|%v|%d", f, params, ck, rec)
	if o, ok := n.memo[mk]; ok {
		return o
	}
	fr := &nframe{f: f, depth: depth, stack: append(append([]*ssa.Function(nil), stack...), f), seen: map[string]bool{}, rec: rec}
	s := newNstate()
	for i, p := range f.Params {
		if i < len(params) && nTracked(p.Type()) && params[i] != nUnk {
			s.vals[p] = params[i]
		}
	}
	for k, v := range cells {
		s.cells[k] = v
	}
	if n.tm != nil {
		s.ts = newTsState()
	}
	n.block(fr, f.Blocks[0], nil, s)
	// dedupe
	var out []noutcome
	have := map[string]bool{}
	for _, o := range fr.out {
		var cs []string
		for k, v := range o.cells {
			cs = append(cs, fmt.Sprintf("%s=%d", k, v))
		}
		sort.Strings(cs)
		k := fmt.Sprintf("%p%v%v%v%s", o.ret, o.res, o.parse, cs, o.ts.key())
		if !have[k] {
			have[k] = true
			out = append(out, o)
		}
	}
	if n.gaveUp[f] {
		out = nil
	}
	n.memo[mk] = out
	return out
}

func (n *nwalk) block(fr *nframe, b *ssa.BasicBlock, pred *ssa.BasicBlock, s *nstate) {
	if n.gaveUp[fr.f] {
		return
	}
	// phis in parallel
	if pred != nil {
		pi := -1
		for i, p := range b.Preds {
			if p == pred {
				pi = i
			}
		}
		upd := map[ssa.Value]nfact{}
		lnk := map[ssa.Value]string{}
		for _, ins := range b.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			delete(s.link, ph)
			if !nTracked(ph.Type()) {
				continue
			}
			upd[ph] = n.fact(s, ph.Edges[pi])
			if c, ok := s.link[ph.Edges[pi]]; ok {
				lnk[ph] = c
			}
		}
		if n.tm != nil {
			s.ts.phis(n.tm, b, pi)
		}
		for k, v := range upd {
			s.vals[k] = v
		}
		for k, v := range lnk {
			s.link[k] = v
		}
	}
	for v := range s.vals {
		if v.Parent() == fr.f && !n.liveAt(fr.f, v, b) {
			delete(s.vals, v)
		}
	}
	for v := range s.tups {
		if !n.liveAt(fr.f, v, b) {
			delete(s.tups, v)
		}
	}
	for v := range s.link {
		if !n.liveAt(fr.f, v, b) {
			delete(s.link, v)
		}
	}
	if s.ts != nil {
		for v := range s.ts.vname {
			if !n.liveAt(fr.f, v, b) {
				delete(s.ts.vname, v)
			}
		}
	}
	k := fmt.Sprintf("%d|%s", b.Index, s.key())
	if fr.seen[k] {
		return
	}
	fr.seen[k] = true
	fr.nSt++
	n.steps++
	if fr.nSt > 30000 {
		n.gaveUp[fr.f] = true
		return
	}
	n.run(fr, b, 0, s)
}

func (n *nwalk) run(fr *nframe, b *ssa.BasicBlock, i int, s *nstate) {
	for ; i < len(b.Instrs); i++ {
		switch x := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Alloc:
			k := addrKey(x)
			et := x.Type().Underlying().(*types.Pointer).Elem()
			if nTracked(et) {
				s.cells[k] = nNil
				for u, c := range s.link {
					if c == k {
						delete(s.link, u)
					}
				}
			}
		case *ssa.Store:
			if n.tm != nil {
				s.ts.store(n.tm, x.Addr, x.Val)
			}
			k := addrKey(x.Addr)
			for u, c := range s.link {
				if c == k || strings.HasPrefix(c, "*("+k+")") || strings.HasPrefix(c, k+".") {
					delete(s.link, u)
				}
			}
			for c := range s.cells {
				if strings.HasPrefix(c, "*("+k+")") || strings.HasPrefix(c, k+".") {
					delete(s.cells, c)
				}
			}
			if nTracked(x.Val.Type()) {
				s.cells[k] = n.fact(s, x.Val)
				if _, ok := x.Val.(*ssa.Const); !ok {
					s.link[x.Val] = k
				}
			}
		case *ssa.UnOp:
			if n.tm != nil && x.Op == token.MUL {
				s.ts.load(n.tm, x)
			}
			delete(s.link, x)
			delete(s.vals, x)
			if x.Op == token.NOT {
				switch n.fact(s, x.X) {
				case nNil:
					s.vals[x] = nNon
				case nNon:
					s.vals[x] = nNil
				}
				continue
			}
			if x.Op == token.ARROW && isErrorType(x.Type()) && n.receivesError(x) {
				s.vals[x] = nNon
			}
			if x.Op != token.MUL || !nTracked(x.Type()) {
				continue
			}
			if n.isParseOnly(x) {
				t := s.clone()
				t.vals[x], t.parse = nNon, true
				n.run(fr, b, i+1, t)
				s.vals[x] = nNil
				continue
			}
			if g, ok := x.X.(*ssa.Global); ok {
				if isErrorType(x.Type()) && n.e.globalErrNonNil(g) {
					s.vals[x] = nNon
				}
				continue
			}
			k := addrKey(x.X)
			if f, ok := s.cells[k]; ok {
				s.vals[x] = f
			}
			s.link[x] = k
		case *ssa.Field:
			if n.isParseOnly(x) {
				t := s.clone()
				t.vals[x], t.parse = nNon, true
				n.run(fr, b, i+1, t)
				s.vals[x] = nNil
			}
		case *ssa.BinOp:
			delete(s.vals, x)
			if x.Op != token.EQL && x.Op != token.NEQ {
				continue
			}
			if n.compare(fr, b, i, s, x) {
				return
			}
		case *ssa.Lookup:
			delete(s.vals, x)
			delete(s.tups, x)
			if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
				continue
			}
			if x.CommaOk {
				tt := x.Type().(*types.Tuple)
				if nTracked(tt.At(0).Type()) {
					t := s.clone()
					t.tups[x] = []nfact{nNil, nNil}
					n.run(fr, b, i+1, t)
				}
				s.tups[x] = []nfact{nUnk, nNon}
				continue
			}
			if nTracked(x.Type()) && !isBoolType(x.Type()) {
				s.vals[x] = nMaybe
			}
		case *ssa.TypeAssert:
			delete(s.vals, x)
			delete(s.tups, x)
			if x.CommaOk {
				if nTracked(x.AssertedType) {
					t := s.clone()
					t.tups[x] = []nfact{nNil, nNil}
					n.run(fr, b, i+1, t)
				}
				t := nUnk
				if types.IsInterface(x.AssertedType) {
					t = nNon
				}
				s.tups[x] = []nfact{t, nNon}
				n.set(s, x.X, nNon)
			}
		case *ssa.Extract:
			delete(s.link, x)
			delete(s.vals, x)
			if t, ok := s.tups[x.Tuple]; ok && x.Index < len(t) && nTracked(x.Type()) {
				s.vals[x] = t[x.Index]
			}
		case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType:
			delete(s.vals, x.(ssa.Value))
		case *ssa.MakeClosure:
			if !n.onlyCalledOrDeferred(x) {
				for _, k := range n.storedCells(x.Fn.(*ssa.Function), map[*ssa.Function]bool{}) {
					s.cells[k] = nUnk
					for u, c := range s.link {
						if c == k {
							delete(s.link, u)
						}
					}
				}
			}
		case *ssa.Defer:
			dup := false
			for _, d := range s.defers {
				if d == x {
					dup = true
				}
			}
			if !dup {
				s.defers = append(s.defers, x)
			}
			if mayRecover(x) && fr.f.Recover != nil {
				t := s.clone()
				n.recovered(fr, t)
			}
		case *ssa.RunDefers:
			outs := n.runDefers(fr, s, nNil)
			for _, o := range outs[1:] {
				n.run(fr, b, i+1, o)
			}
			s = outs[0]
		case *ssa.Call:
			delete(s.link, x)
			delete(s.vals, x)
			delete(s.tups, x)
			if n.tm != nil {
				if outs, done := n.tm.call(n, fr, x, s); done {
					if len(outs) == 0 {
						return
					}
					for _, o := range outs[1:] {
						n.run(fr, b, i+1, o)
					}
					s = outs[0]
					continue
				}
			}
			outs := n.call(fr, x, s)
			if len(outs) == 0 {
				return
			}
			for _, o := range outs[1:] {
				n.run(fr, b, i+1, o)
			}
			s = outs[0]
		case *ssa.If:
			c := n.fact(s, x.Cond)
			if c != nNil {
				t := s
				if c == nUnk || c == nMaybe {
					t = s.clone()
					if n.tracksBool(x.Cond) {
						t.vals[x.Cond] = nNon
					}
				}
				n.block(fr, b.Succs[0], b, t)
			}
			if c != nNon {
				if (c == nUnk || c == nMaybe) && n.tracksBool(x.Cond) {
					s.vals[x.Cond] = nNil
				}
				n.block(fr, b.Succs[1], b, s)
			}
			return
		case *ssa.Jump:
			n.block(fr, b.Succs[0], b, s)
			return
		case *ssa.Return:
			o := noutcome{ret: x, parse: s.parse, cells: map[string]nfact{}}
			if n.tm != nil {
				o.ts = s.ts.atReturn(n.tm, fr.f, x)
			}
			for _, r := range x.Results {
				if nTracked(r.Type()) {
					o.res = append(o.res, n.fact(s, r))
				} else {
					o.res = append(o.res, nUnk)
				}
			}
			for k, v := range s.cells {
				if root, _ := rootOfKey(k); root != nil && root.Parent() != fr.f {
					o.cells[k] = v
				} else if p, ok := root.(*ssa.Parameter); ok && k == rootKey(p) {
					o.cells[k] = v // *p, translated by the caller
				}
			}
			fr.out = append(fr.out, o)
			return
		case *ssa.Panic:
			return
		default:
			if v, ok := x.(ssa.Value); ok {
				delete(s.vals, v)
				delete(s.link, v)
			}
		}
	}
}

func (n *nwalk) tracksBool(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Phi, *ssa.Parameter, *ssa.Extract:
		return true
	}
	return false
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// compare splits the state on x == nil / x != nil; returns true when it has
// continued the walk itself.
func (n *nwalk) compare(fr *nframe, b *ssa.BasicBlock, i int, s *nstate, x *ssa.BinOp) bool {
	a, c := x.X, x.Y
	if isNilConst(a) {
		a, c = c, a
	}
	eq, ne := nNon, nNil
	if x.Op == token.NEQ {
		eq, ne = nNil, nNon
	}
	if isNilConst(c) && nTracked(a.Type()) {
		switch n.fact(s, a) {
		case nNil:
			s.vals[x] = eq
			return false
		case nNon:
			s.vals[x] = ne
			return false
		}
		t := s.clone()
		n.set(t, a, nNil)
		t.vals[x] = eq
		n.run(fr, b, i+1, t)
		n.set(s, a, nNon)
		s.vals[x] = ne
		return false
	}
	if isErrorType(x.X.Type()) && isErrorType(x.Y.Type()) { // err == io.EOF
		fa, fc := n.fact(s, x.X), n.fact(s, x.Y)
		if fa == nNon && fc == nNil || fa == nNil && fc == nNon {
			s.vals[x] = ne
			return false
		}
		if fc == nNon || fa == nNon {
			o := x.X
			if fa == nNon {
				o = x.Y
			}
			t := s.clone()
			n.set(t, o, nNon)
			t.vals[x] = eq
			n.run(fr, b, i+1, t)
			s.vals[x] = ne
		}
	}
	return false
}

func mayRecover(d *ssa.Defer) bool {
	f := d.Call.StaticCallee()
	if f == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// recovered: a panic after the defer statement, recovered by it.
func (n *nwalk) recovered(fr *nframe, s *nstate) {
	for _, o := range n.runDefers(fr, s, nNon) {
		rb := fr.f.Recover
		k := "rec|" + o.key()
		if fr.seen[k] {
			continue
		}
		fr.seen[k] = true
		n.run(fr, rb, 0, o)
	}
}

func (n *nwalk) runDefers(fr *nframe, s *nstate, rec nfact) []*nstate {
	states := []*nstate{s}
	for i := len(s.defers) - 1; i >= 0; i-- {
		d := s.defers[i]
		f := d.Call.StaticCallee()
		if f == nil || !inModule(f) || len(f.Blocks) == 0 {
			continue
		}
		var next []*nstate
		for _, st := range states {
			next = append(next, n.apply(fr, st, f, d.Call.Args, nil, rec)...)
		}
		if len(next) > 0 {
			states = next
		}
		if rec == nNon && mayRecover(d) {
			rec = nNil
		}
	}
	for _, st := range states {
		st.defers = nil
	}
	return states
}

// apply walks a module function from state s and returns the states after it.
func (n *nwalk) apply(fr *nframe, s *nstate, f *ssa.Function, args []ssa.Value, at ssa.Value, rec nfact) []*nstate {
	var params []nfact
	for _, a := range args {
		if nTracked(a.Type()) {
			params = append(params, n.fact(s, a))
		} else {
			params = append(params, nUnk)
		}
	}
	if m := n.contexts[f]; m == nil {
		n.contexts[f] = map[string][]nfact{fmt.Sprint(params): params}
	} else {
		m[fmt.Sprint(params)] = params
	}
	// cells the closure can see
	cells := map[string]nfact{}
	if len(f.FreeVars) > 0 {
		for k, v := range s.cells {
			if root, _ := rootOfKey(k); root != nil {
				if _, ok := root.(*ssa.Alloc); ok {
					cells[k] = v
				}
			}
		}
	}
	// variables handed over by address
	byAddr := map[string]string{}
	for i, a := range args {
		if al, ok := a.(*ssa.Alloc); ok && i < len(f.Params) && nTracked(al.Type().Underlying().(*types.Pointer).Elem()) {
			pk, ak := rootKey(f.Params[i]), rootKey(al)
			byAddr[pk] = ak
			if v, ok := s.cells[ak]; ok {
				cells[pk] = v
			}
		}
	}
	outs := n.walk(f, params, cells, fr.depth+1, fr.stack, rec)
	if n.gaveUp[f] {
		return nil
	}
	var res []*nstate
	for i := range outs {
		o := &outs[i]
		t := s.clone()
		for k, v := range o.cells {
			if root, _ := rootOfKey(k); root != nil {
				if _, ok := root.(*ssa.Parameter); ok {
					if byAddr[k] == "" {
						continue
					}
					k = byAddr[k]
				}
			}
			if t.cells[k] != v {
				for u, c := range t.link {
					if c == k {
						delete(t.link, u)
					}
				}
			}
			t.cells[k] = v
		}
		t.parse = t.parse || o.parse
		if n.tm != nil {
			if o.failed(f) && errResultIdx(f.Signature) >= 0 {
				// the caller sees a failure; what the callee left behind is abandoned
			} else {
				if !t.ts.merge(n.tm, o.ts, f, args, at) {
					continue
				}
			}
		}
		if at != nil {
			if len(o.res) == 1 && nTracked(at.Type()) {
				t.vals[at] = o.res[0]
			} else if len(o.res) > 1 {
				t.tups[at] = o.res
			}
		}
		dup := false
		for _, r := range res {
			if r.key() == t.key() {
				dup = true
			}
		}
		if !dup {
			res = append(res, t)
		}
	}
	return res
}

func (n *nwalk) call(fr *nframe, x *ssa.Call, s *nstate) []*nstate {
	cc := &x.Call
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		if bi.Name() == "recover" {
			s.vals[x] = fr.rec
		}
		return []*nstate{s}
	}
	// addresses handed out: the callee may assign
	for _, a := range cc.Args {
		if _, ok := a.Type().Underlying().(*types.Pointer); ok {
			switch a.(type) {
			case *ssa.Alloc, *ssa.FreeVar:
				k := addrKey(a)
				if _, ok := s.cells[k]; ok {
					s.cells[k] = nUnk
					for u, c := range s.link {
						if c == k {
							delete(s.link, u)
						}
					}
				}
			}
		}
	}
	f := cc.StaticCallee()
	if f == nil {
		if n.tm == nil {
			return []*nstate{s}
		}
		if cc.IsInvoke() {
			n.set(s, cc.Value, nNon)
		}
		var res []*nstate
		for _, g := range n.w.Callees(x) {
			if !inModule(g) || len(g.Blocks) == 0 || fr.depth > 12 || n.onStack(fr, g) {
				continue
			}
			args := cc.Args
			if cc.IsInvoke() {
				args = append([]ssa.Value{cc.Value}, args...)
			}
			res = append(res, n.apply(fr, s, g, args, x, nNil)...)
		}
		if len(res) == 0 {
			return []*nstate{s}
		}
		return dedupeStates(res)
	}
	switch f.String() {
	case "errors.New", "fmt.Errorf", "errors.Join":
		if f.Name() == "Join" {
			return []*nstate{s}
		}
		s.vals[x] = nNon
		return []*nstate{s}
	case "errors.Is", "errors.As":
		t := s.clone()
		n.set(t, cc.Args[0], nNon)
		t.vals[x] = nNon
		s.vals[x] = nNil
		return []*nstate{t, s}
	}
	if !inModule(f) || len(f.Blocks) == 0 {
		return []*nstate{s}
	}
	interesting := len(f.FreeVars) > 0
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if nTracked(f.Signature.Results().At(i).Type()) {
			interesting = true
		}
	}
	if n.tm != nil {
		interesting = interesting || n.tm.interesting(f)
		if f.Signature.Recv() != nil && len(cc.Args) > 0 && nTracked(cc.Args[0].Type()) && n.fact(s, cc.Args[0]) == nNil {
			return nil // a method called on nil
		}
	}
	if !interesting || n.tm == nil && fr.depth > 5 || fr.depth > 12 {
		return []*nstate{s}
	}
	if n.onStack(fr, f) {
		return []*nstate{s}
	}
	outs := n.apply(fr, s, f, cc.Args, x, nNil)
	if n.gaveUp[f] || n.tm == nil && len(outs) > 12 {
		return []*nstate{s}
	}
	return outs
}

func (n *nwalk) onStack(fr *nframe, f *ssa.Function) bool {
	for _, g := range fr.stack {
		if g == f {
			return true
		}
	}
	return false
}

func dedupeStates(in []*nstate) []*nstate {
	var out []*nstate
	have := map[string]bool{}
	for _, s := range in {
		if k := s.key(); !have[k] {
			have[k] = true
			out = append(out, s)
		}
	}
	return out
}

// failed: the outcome reports a failure (a non-nil error, or a false answer of a
// function that has no error result).
func (o *noutcome) failed(f *ssa.Function) bool {
	ei := errResultIdx(f.Signature)
	if ei >= 0 {
		return ei < len(o.res) && o.res[ei] == nNon
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if isBoolType(f.Signature.Results().At(i).Type()) && i < len(o.res) && o.res[i] == nNil {
			return true
		}
	}
	return false
}

// onlyCalledOrDeferred: the closure is used in direct calls and defers only.
func (n *nwalk) onlyCalledOrDeferred(mc *ssa.MakeClosure) bool {
	for _, u := range *mc.Referrers() {
		switch u := u.(type) {
		case *ssa.Call:
			if u.Call.Value != ssa.Value(mc) {
				return false
			}
			for _, a := range u.Call.Args {
				if a == ssa.Value(mc) {
					return false
				}
			}
		case *ssa.Defer:
			if u.Call.Value != ssa.Value(mc) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (n *nwalk) storedCells(f *ssa.Function, seen map[*ssa.Function]bool) []string {
	if seen[f] {
		return nil
	}
	seen[f] = true
	var out []string
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				k := addrKey(x.Addr)
				if root, _ := rootOfKey(k); root != nil && root.Parent() != f {
					out = append(out, k)
				}
			case *ssa.MakeClosure:
				out = append(out, n.storedCells(x.Fn.(*ssa.Function), seen)...)
			}
		}
	}
	return out
}

func checkNilNil(w *World, r *Result, th bool) {
	n := newNwalk(w)
	type target struct {
		f  *ssa.Function
		pi []int
		ei int
	}
	var ts []target
	for _, f := range w.ModFns() {
		if len(f.Blocks) == 0 || isWrapper(f) {
			continue
		}
		sig := f.Signature
		ei := errResultIdx(sig)
		if ei < 0 || sig.Results().Len() < 2 {
			continue
		}
		var pi []int
		for i := 0; i < sig.Results().Len(); i++ {
			if i == ei {
				continue
			}
			switch sig.Results().At(i).Type().Underlying().(type) {
			case *types.Pointer, *types.Interface:
				pi = append(pi, i)
			}
		}
		if len(pi) > 0 {
			ts = append(ts, target{f, pi, ei})
		}
	}
	// contexts of the call sites
	for _, f := range w.ModFns() {
		if len(f.Blocks) > 0 {
			n.walk(f, make([]nfact, len(f.Params)), nil, 0, nil, nNil)
		}
	}
	for _, t := range ts {
		f := t.f
		r.Count("functions returning (pointer, error)", 1)
		if n.tolerated(f, t.pi, map[*ssa.Function]bool{}) {
			r.Count("optional results tested by every caller", 1)
			continue
		}
		ctxs := [][]nfact{make([]nfact, len(f.Params))}
		if cs := w.callersOf(f); len(cs) > 0 && f.Object() != nil && !f.Object().Exported() && !w.addrTaken(f) {
			ctxs = nil
			var ks []string
			for k := range n.contexts[f] {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				ctxs = append(ctxs, n.contexts[f][k])
			}
		}
		for _, c := range ctxs {
			for _, o := range n.walk(f, c, nil, 0, nil, nNil) {
				r.Count("return paths", 1)
				if o.parse || o.res[t.ei] == nNon {
					continue
				}
				for _, i := range t.pi {
					if o.res[i] == nNil || o.res[i] == nMaybe {
						r.Add("nil-nil in "+FnName(f), w.Pos(instrPos(o.ret)), "%s can return a nil %s together with a nil error", FnName(f), f.Signature.Results().At(i).Type())
					}
				}
			}
		}
		if n.gaveUp[f] {
			r.Count("functions too large to enumerate", 1)
		}
	}
	r.Count("states", n.steps)
	r.Minimum["functions returning (pointer, error)"] = 20
	r.Minimum["return paths"] = 60
	r.Rules = []string{"on every path to every return of a function with results (.., *T or interface, .., error) the pointer is not nil or the error is not nil; paths on which options.ParseOnly was read as true are exempt, as are internal helpers whose nil result every caller tests or hands on"}
}

// tolerated: an internal function whose nil result is an expected answer: every
// call site compares the result with nil, stores it in a field that is compared
// with nil somewhere, or returns it.
func (n *nwalk) tolerated(f *ssa.Function, pi []int, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	cs := n.w.callersOf(f)
	if len(cs) == 0 || n.w.addrTaken(f) {
		return false
	}
	if f.Object() != nil && f.Object().Exported() {
		return false
	}
	nilTested := func(v ssa.Value) bool {
		for _, u := range *v.Referrers() {
			if bo, ok := u.(*ssa.BinOp); ok && (isNilConst(bo.X) || isNilConst(bo.Y)) {
				return true
			}
		}
		return false
	}
	var ok func(v ssa.Value, d int) bool
	ok = func(v ssa.Value, d int) bool {
		if d > 5 {
			return false
		}
		if nilTested(v) {
			return true
		}
		good := false
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.DebugRef:
			case *ssa.Return:
				good = true // the caller's own check decides
			case *ssa.Phi:
				if !ok(u, d+1) {
					return false
				}
				good = true
			case *ssa.Store:
				if fv := fieldVarOf(u.Addr); fv != nil && n.w.fieldNilTested(fv) {
					good = true
					continue
				}
				if al, isAl := u.Addr.(*ssa.Alloc); isAl {
					for _, l := range *al.Referrers() {
						if ld, isL := l.(*ssa.UnOp); isL && nilTested(ld) {
							good = true
						}
					}
					if good {
						continue
					}
				}
				return false
			default:
				return false
			}
		}
		return good
	}
	for _, c := range cs {
		call, isCall := c.(*ssa.Call)
		if !isCall {
			return false
		}
		for _, i := range pi {
			var ex ssa.Value
			for _, u := range *call.Referrers() {
				if e, isE := u.(*ssa.Extract); isE && e.Index == i {
					ex = e
				}
			}
			if ex == nil {
				continue
			}
			if !ok(ex, 0) {
				return false
			}
		}
	}
	return true
}

// addrTaken: f is used as a value or implements an interface method that is
// called dynamically.
func (w *World) addrTaken(f *ssa.Function) bool {
	for _, c := range w.callersOf(f) {
		if c.Common().StaticCallee() != f {
			return true
		}
	}
	return false
}

func (w *World) fieldNilTested(fv *types.Var) bool {
	if w.nilTestedFields == nil {
		w.nilTestedFields = map[*types.Var]bool{}
		for f := range w.all {
			if !inModule(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					bo, ok := ins.(*ssa.BinOp)
					if !ok {
						continue
					}
					x, y := bo.X, bo.Y
					if isNilConst(x) {
						x, y = y, x
					}
					if !isNilConst(y) {
						continue
					}
					switch x := x.(type) {
					case *ssa.UnOp:
						if v := fieldVarOf(x.X); v != nil {
							w.nilTestedFields[v] = true
						}
					case *ssa.Field:
						if v := fieldVarOf(x); v != nil {
							w.nilTestedFields[v] = true
						}
					}
				}
			}
		}
	}
	return w.nilTestedFields[fv]
}
