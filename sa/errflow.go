package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Error-propagation analysis.
//
// For every call that yields an error, every control-flow path on which that
// error may be non-nil is followed forward to the function's exits. The walk
// tracks the carriers of the error (registers, phi nodes, cells, containers,
// channels, wrapped errors). A path is discharged when the error is known to be
// nil, or when the function returns a non-nil error (the error itself, a
// wrapper of it, or another error), or hands it to a channel/captured cell, in
// which case the owner of that channel/cell has to discharge it in turn.

type ckind uint8

const (
	kElem ckind = 1 // the error itself
	kCont ckind = 2 // slice/array/map holding it
	kChan ckind = 3 // channel holding it
)

type errWalk struct {
	w       *World
	sums    map[string]*sumRes
	busy    map[string]bool
	eofUses map[*ssa.BinOp]bool
	nSites  int
	nPaths  int
	nTrans  int
	loops   map[*ssa.Function]*loopInfo

	depth   int
	inChan  bool // walking the owner of an error channel
	waiters map[*ssa.Function]bool

	eofFns      map[*ssa.Function]bool // functions scanning container boxes
	eofBoundary bool                   // current site is the read at a box boundary
	eofSeen     int
	eofSites    []string
}

func isEOFGlobal(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			return g.Pkg.Pkg.Path() == "io" && g.Name() == "EOF"
		}
	}
	return false
}

// boundaryRead: within its loop (or function) no other fallible call can run
// before this one, i.e. it reads the first bytes of a box.
func (e *errWalk) boundaryRead(f *ssa.Function, c ssa.Instruction) bool {
	if !e.eofFns[f] {
		return false
	}
	l := e.loopsOf(f)
	id, cyc := l.scc[c.Block()]
	for _, b := range f.Blocks {
		if cyc && l.scc[b] != id {
			continue
		}
		for _, ins := range b.Instrs {
			o, ok := ins.(ssa.CallInstruction)
			if !ok || ins == c || errResultIdx(o.Common().Signature()) < 0 {
				continue
			}
			if sf := o.Common().StaticCallee(); sf != nil && !inModule(sf) {
				continue
			}
			if !instrDominates(c, ins) {
				return false
			}
		}
	}
	return true
}

func instrDominates(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, x := range a.Block().Instrs {
			if x == a {
				return true
			}
			if x == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

type sumRes struct {
	lost   []lossAt
	result bool // some path returns it through an error result
	sinks  []sink
}

type lossAt struct {
	fn  *ssa.Function
	at  ssa.Instruction
	why string
}

type sink struct {
	kind ckind
	val  ssa.Value // channel value, when handed to a channel
	key  string    // otherwise the cell it is stored in
	root ssa.Value
}

func newErrWalk(w *World) *errWalk {
	return &errWalk{w: w, sums: map[string]*sumRes{}, busy: map[string]bool{}, eofUses: map[*ssa.BinOp]bool{}, loops: map[*ssa.Function]*loopInfo{}}
}

// ---- loops -----------------------------------------------------------------

type loopInfo struct {
	scc map[*ssa.BasicBlock]int // id of a cyclic scc, absent if acyclic
}

func (e *errWalk) loopsOf(f *ssa.Function) *loopInfo {
	if l := e.loops[f]; l != nil {
		return l
	}
	l := &loopInfo{scc: sccOf(f)}
	e.loops[f] = l
	return l
}

// sccOf returns for each block in a cycle the id of its strongly connected
// component.
func sccOf(f *ssa.Function) map[*ssa.BasicBlock]int {
	idx := map[*ssa.BasicBlock]int{}
	low := map[*ssa.BasicBlock]int{}
	on := map[*ssa.BasicBlock]bool{}
	var st []*ssa.BasicBlock
	out := map[*ssa.BasicBlock]int{}
	n, id := 0, 0
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		n++
		idx[b], low[b] = n, n
		st = append(st, b)
		on[b] = true
		for _, s := range b.Succs {
			if idx[s] == 0 {
				rec(s)
				if low[s] < low[b] {
					low[b] = low[s]
				}
			} else if on[s] && idx[s] < low[b] {
				low[b] = idx[s]
			}
		}
		if low[b] == idx[b] {
			var comp []*ssa.BasicBlock
			for {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				on[x] = false
				comp = append(comp, x)
				if x == b {
					break
				}
			}
			cyc := len(comp) > 1
			for _, s := range b.Succs {
				if s == b {
					cyc = true
				}
			}
			if cyc {
				id++
				for _, x := range comp {
					out[x] = id
				}
			}
		}
	}
	for _, b := range f.Blocks {
		if idx[b] == 0 {
			rec(b)
		}
	}
	return out
}

// ---- state -----------------------------------------------------------------

type estate struct {
	vals  map[ssa.Value]ckind
	cells map[string]ckind
	nn    map[string]bool // values/cells known non-nil errors on this path
	ok    map[ssa.Value]ssa.Value
}

func (s *estate) clone() *estate {
	n := &estate{map[ssa.Value]ckind{}, map[string]ckind{}, map[string]bool{}, nil}
	for k, v := range s.vals {
		n.vals[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k := range s.nn {
		n.nn[k] = true
	}
	return n
}

func (s *estate) key() string {
	var ks []string
	for k, v := range s.vals {
		ks = append(ks, fmt.Sprintf("%p:%d", k, v))
	}
	for k, v := range s.cells {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	for k := range s.nn {
		ks = append(ks, "n"+k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func vkey(v ssa.Value) string { return fmt.Sprintf("v%p", v) }

// addrKey: canonical name of a memory cell. A variable captured by closures has
// the same name in its owner and in every closure.
func addrKey(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FreeVar:
		if b := bindingOf(v); b != nil {
			switch b.(type) {
			case *ssa.Alloc, *ssa.FreeVar:
				return addrKey(b)
			}
		}
		return rootKey(v)
	case *ssa.Alloc, *ssa.Global, *ssa.Parameter:
		return rootKey(v)
	case *ssa.FieldAddr:
		return addrKey(v.X) + fmt.Sprintf(".%d", v.Field)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return "*(" + addrKey(v.X) + ")"
		}
	case *ssa.IndexAddr:
		return addrKey(v.X) + "[]"
	}
	return fmt.Sprintf("#%p", v)
}

var rootByName = map[string]ssa.Value{}

func rootKey(v ssa.Value) string {
	k := fmt.Sprintf("@%p", v)
	rootByName[k] = v
	return k
}

// rootOfKey returns the variable a cell name is rooted in, and its textual root.
func rootOfKey(k string) (ssa.Value, string) {
	i := strings.IndexByte(k, '@')
	if i < 0 {
		return nil, ""
	}
	j := i + 1
	for j < len(k) && (k[j] == 'x' || k[j] >= '0' && k[j] <= '9' || k[j] >= 'a' && k[j] <= 'f') {
		j++
	}
	return rootByName[k[i:j]], k[i:j]
}

// foreign: the cell is not private to an activation of f. par is its parameter
// when that is what it is rooted in.
func foreign(f *ssa.Function, k string) (root ssa.Value, yes bool) {
	r, _ := rootOfKey(k)
	switch r := r.(type) {
	case *ssa.Alloc:
		return r, r.Parent() != f
	case *ssa.FreeVar:
		return r, true
	case *ssa.Parameter:
		return r, true
	}
	return nil, false
}

func (s *estate) kindOf(v ssa.Value) ckind {
	if k, ok := s.vals[v]; ok {
		return k
	}
	return 0
}

// ---- source walk -----------------------------------------------------------

type source struct {
	fn    *ssa.Function
	block *ssa.BasicBlock
	index int // first instruction to execute
	st    *estate
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// walk explores all paths from src; onLoss is called for each exit reached with
// the error possibly non-nil and undischarged.
func (e *errWalk) walk(src source, res *sumRes) {
	type item struct {
		b  *ssa.BasicBlock
		i  int
		st *estate
	}
	seen := map[string]bool{}
	stack := []item{{src.block, src.index, src.st}}
	steps := 0
	for len(stack) > 0 {
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		steps++
		if steps > 20000 {
			die("error walk in %s does not converge", FnName(src.fn))
		}
		if it.i == 0 {
			k := fmt.Sprintf("%d|%s", it.b.Index, it.st.key())
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		st := it.st
		done := false
		var pending *estate
		_ = pending
		for i := it.i; i < len(it.b.Instrs) && !done; i++ {
			done = e.step(src.fn, it.b.Instrs[i], st, res)
		}
		if done {
			e.nPaths++
			continue
		}
		for si, succ := range it.b.Succs {
			ns := st.clone()
			if ifi, ok := it.b.Instrs[len(it.b.Instrs)-1].(*ssa.If); ok {
				if e.refine(ifi.Cond, si == 0, ns) {
					e.nPaths++
					continue // error nil / container empty on this edge
				}
				if e.loopExitDischarges(src.fn, it.b, succ, ns) {
					e.nPaths++
					continue
				}
			}
			// phis
			e.phis(it.b, succ, ns)
			stack = append(stack, item{succ, 0, ns})
		}
	}
}

func (e *errWalk) phis(pred, succ *ssa.BasicBlock, st *estate) {
	pi := -1
	for i, p := range succ.Preds {
		if p == pred {
			pi = i
			break
		}
	}
	type upd struct {
		v  *ssa.Phi
		k  ckind
		nn bool
		n0 bool
	}
	var us []upd
	for _, ins := range succ.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ed := p.Edges[pi]
		us = append(us, upd{p, st.kindOf(ed), st.nn[vkey(ed)] || (isErrorType(p.Type()) && e.definitelyNonNil(ed, st, 0)),
			isErrorType(p.Type()) && (isNilConst(ed) || st.nn["n0:"+vkey(ed)])})
	}
	for _, u := range us {
		delete(st.vals, u.v)
		delete(st.nn, vkey(u.v))
		delete(st.nn, "n0:"+vkey(u.v))
		if u.n0 {
			st.nn["n0:"+vkey(u.v)] = true
		}
		if u.k != 0 {
			st.vals[u.v] = u.k
		}
		if u.nn {
			st.nn[vkey(u.v)] = true
		}
	}
	// boolean phis of conditions are resolved by refine through phi edges only
}

// refine applies the branch condition; returns true when the edge implies the
// error is nil (path discharged).
func (e *errWalk) refine(cond ssa.Value, taken bool, st *estate) bool {
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return e.refine(c.X, !taken, st)
		}
	case *ssa.Extract:
		// commaok receive on a carrying channel: !ok means closed and drained
		if u, ok := c.Tuple.(*ssa.UnOp); ok && u.Op == token.ARROW && c.Index == 1 {
			if st.kindOf(u) == kElem && !taken {
				return true
			}
		}
	case *ssa.Call:
		// errors.Is(err, io.EOF)
		if f := c.Call.StaticCallee(); f != nil && f.String() == "errors.Is" && len(c.Call.Args) == 2 {
			if st.kindOf(c.Call.Args[0]) == kElem && isEOFGlobal(c.Call.Args[1]) && taken && e.eofBoundary {
				e.eofSeen++
				return true
			}
		}
	case *ssa.BinOp:
		x, y := c.X, c.Y
		if (c.Op == token.EQL || c.Op == token.NEQ) && (isEOFGlobal(x) || isEOFGlobal(y)) {
			o := x
			if isEOFGlobal(x) {
				o = y
			}
			if st.kindOf(o) == kElem && (c.Op == token.EQL) == taken && e.eofBoundary {
				e.eofSeen++
				return true
			}
			return false
		}
		if isNilConst(x) {
			x, y = y, x
		}
		if isNilConst(y) && (c.Op == token.EQL || c.Op == token.NEQ) {
			isNil := (c.Op == token.EQL) == taken
			k := st.kindOf(x)
			if k == kElem || k == kCont {
				if isNil {
					return true
				}
				return false
			}
			if isErrorType(x.Type()) && !isNil && st.nn["n0:"+vkey(x)] {
				return true // not taken: the value is nil here
			}
			if isErrorType(x.Type()) && !isNil {
				st.nn[vkey(x)] = true
				if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
					st.nn[addrKey(u.X)] = true
				}
			}
			return false
		}
		// len comparisons
		lx, ly := e.lenOf(c.X, st), e.lenOf(c.Y, st)
		if lx || ly {
			op := c.Op
			if ly && !lx { // normalise: len on the left
				switch op {
				case token.LSS:
					op = token.GTR
				case token.GTR:
					op = token.LSS
				case token.LEQ:
					op = token.GEQ
				case token.GEQ:
					op = token.LEQ
				}
			}
			other := c.Y
			if ly && !lx {
				other = c.X
			}
			z := isConstInt(other, 0)
			switch op {
			case token.GTR: // len > x
				return !taken
			case token.LEQ:
				return taken
			case token.EQL:
				return taken && z
			case token.NEQ:
				return !taken && z
			case token.GEQ: // len >= 1
				return !taken && isConstInt(other, 1)
			case token.LSS:
				return taken && isConstInt(other, 1)
			}
		}
		// select case index tests
		if ex, ok := c.X.(*ssa.Extract); ok && ex.Index == 0 {
			if sel, ok := ex.Tuple.(*ssa.Select); ok && c.Op == token.EQL {
				if ci, ok := c.Y.(*ssa.Const); ok {
					n := int(ci.Int64())
					if n >= 0 && n < len(sel.States) {
						s := sel.States[n]
						if s.Dir == types.SendOnly && st.kindOf(s.Send) == kElem && taken {
							// sent: handled in step by sinks
							return true
						}
						if s.Dir == types.SendOnly && st.kindOf(s.Send) == kElem && !taken && !sel.Blocking && len(sel.States) == 1 {
							// default: the channel already holds an error
							return chanCapAtLeast1(s.Chan)
						}
						if s.Dir == types.RecvOnly && e.chanKind(s.Chan, st) && !taken && !sel.Blocking && len(sel.States) == 1 {
							return st.nn["waited"] // default: channel empty
						}
					}
				}
			}
		}
	case *ssa.Phi:
		// short-circuit: cond is phi of constants and conditions. Only safe
		// facts: none.
	}
	return false
}

func isConstInt(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return false
	}
	i, ok := constant.Int64Val(c.Value)
	return ok && i == n
}

func (e *errWalk) lenOf(v ssa.Value, st *estate) bool {
	if cv, ok := v.(*ssa.Convert); ok {
		v = cv.X
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return false
	}
	a := c.Call.Args[0]
	k := st.kindOf(a)
	return k == kCont || (k == kChan || e.chanKind(a, st)) && st.nn["waited"]
}

func sccHasGo(l *loopInfo, at *ssa.BasicBlock) bool {
	for b, i := range l.scc {
		if i != l.scc[at] {
			continue
		}
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Go); ok {
				return true
			}
		}
	}
	return false
}

// waits: the call returns only after workers have signed off.
func (e *errWalk) waits(c *ssa.Call) bool {
	for _, g := range e.w.Callees(c) {
		if g.String() == "(*sync.WaitGroup).Wait" {
			return true
		}
		if !inModule(g) {
			continue
		}
		if e.waiters == nil {
			e.waiters = map[*ssa.Function]bool{}
			for f := range e.w.reach {
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						if c2, ok := ins.(*ssa.Call); ok {
							if sf := c2.Call.StaticCallee(); sf != nil && sf.String() == "(*sync.WaitGroup).Wait" && inModule(f) {
								e.waiters[f] = true
							}
						}
					}
				}
			}
		}
		for h := range reachFrom(e.w.cg, []*ssa.Function{g}) {
			if e.waiters[h] {
				return true
			}
		}
	}
	return false
}

func (e *errWalk) chanKind(v ssa.Value, st *estate) bool {
	if st.kindOf(v) == kChan {
		return true
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return st.cells[addrKey(u.X)] == kChan
	}
	return false
}

func chanCapAtLeast1(v ssa.Value) bool {
	mk := chanOrigin(v)
	if mk == nil {
		return false
	}
	if c, ok := mk.Size.(*ssa.Const); ok {
		return c.Int64() >= 1
	}
	return true // symbolic capacity: checked by the goroutine property
}

// chanOrigin finds the MakeChan behind a channel value, through captured
// variables and local cells.
func chanOrigin(v ssa.Value) *ssa.MakeChan {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) *ssa.MakeChan
	rec = func(v ssa.Value) *ssa.MakeChan {
		if v == nil || seen[v] {
			return nil
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.MakeChan:
			return v
		case *ssa.ChangeType:
			return rec(v.X)
		case *ssa.UnOp:
			if v.Op == token.MUL {
				return rec(v.X)
			}
		case *ssa.Alloc:
			for _, r := range *v.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == v {
					if m := rec(s.Val); m != nil {
						return m
					}
				}
			}
		case *ssa.FreeVar:
			if b := bindingOf(v); b != nil {
				return rec(b)
			}
		}
		return nil
	}
	return rec(v)
}

// bindingOf returns the value bound to a free variable at the (unique)
// MakeClosure of its function.
func bindingOf(fv *ssa.FreeVar) ssa.Value {
	f := fv.Parent()
	idx := -1
	for i, x := range f.FreeVars {
		if x == fv {
			idx = i
		}
	}
	if idx < 0 || f.Parent() == nil {
		return nil
	}
	for _, b := range f.Parent().Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == f {
				return mc.Bindings[idx]
			}
		}
	}
	return nil
}

// loopExitDischarges: leaving a loop that inspects the elements of a carrying
// container counts as having seen them all.
func (e *errWalk) loopExitDischarges(f *ssa.Function, from, to *ssa.BasicBlock, st *estate) bool {
	l := e.loopsOf(f)
	id, ok := l.scc[from]
	if !ok || l.scc[to] == id {
		return false
	}
	for b, i := range l.scc {
		if i != id {
			continue
		}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if ia, ok := x.X.(*ssa.IndexAddr); ok && isErrorType(x.Type()) {
						if st.kindOf(ia.X) == kCont || st.cells[addrKey(ia.X)+"[]"] == kCont {
							// only counts when the element is tested inside
							// the loop, on the normal exit of its header
							return true
						}
						if u, ok := ia.X.(*ssa.UnOp); ok && u.Op == token.MUL && st.cells[addrKey(u.X)] == kCont {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// definitelyNonNil: the error value is certainly non-nil.
func (e *errWalk) definitelyNonNil(v ssa.Value, st *estate, depth int) bool {
	if depth > 8 {
		return false
	}
	if st != nil && st.nn[vkey(v)] {
		return true
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.ChangeInterface:
		return e.definitelyNonNil(v.X, st, depth+1)
	case *ssa.Phi:
		for _, x := range v.Edges {
			if !e.definitelyNonNil(x, nil, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if g, ok := v.X.(*ssa.Global); ok {
				return e.globalErrNonNil(g)
			}
			if st != nil && st.nn[addrKey(v.X)] {
				return true
			}
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return e.callNonNil(c, v.Index, depth)
		}
	case *ssa.Call:
		return e.callNonNil(v, 0, depth)
	}
	return false
}

func (e *errWalk) callNonNil(c *ssa.Call, idx int, depth int) bool {
	f := c.Call.StaticCallee()
	if f == nil {
		return false
	}
	switch f.String() {
	case "errors.New", "fmt.Errorf":
		return true
	}
	if !inModule(f) || len(f.Blocks) == 0 {
		return false
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if idx >= len(r.Results) || !e.definitelyNonNil(r.Results[idx], nil, depth+1) {
				return false
			}
		}
	}
	return true
}

// a package-level error variable that is only assigned in init (errors.New) or
// belongs to the standard library.
func (e *errWalk) globalErrNonNil(g *ssa.Global) bool {
	if !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		return true // io.EOF, io.ErrUnexpectedEOF, ...
	}
	n := 0
	for f := range e.w.all {
		if f.Pkg != g.Pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok && s.Addr == g {
					n++
					if !e.definitelyNonNil(s.Val, nil, 0) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// step executes one instruction; returns true when the path ends.
func (e *errWalk) step(fn *ssa.Function, ins ssa.Instruction, st *estate, res *sumRes) bool {
	if v, ok := ins.(ssa.Value); ok {
		if _, isPhi := ins.(*ssa.Phi); !isPhi {
			delete(st.vals, v)
			delete(st.nn, vkey(v))
		}
	}
	switch x := ins.(type) {
	case *ssa.ChangeInterface:
		if k := st.kindOf(x.X); k != 0 {
			st.vals[x] = k
		}
		if st.nn[vkey(x.X)] {
			st.nn[vkey(x)] = true
		}
	case *ssa.MakeInterface:
		if k := st.kindOf(x.X); k != 0 {
			st.vals[x] = k
		}
	case *ssa.ChangeType:
		if k := st.kindOf(x.X); k != 0 {
			st.vals[x] = k
		}
	case *ssa.TypeAssert:
		if k := st.kindOf(x.X); k == kElem && !x.CommaOk {
			st.vals[x] = k
		}
	case *ssa.Slice:
		if x.Low != nil && !isConstInt(x.Low, 0) || x.High != nil && isErrContainer(x.X.Type()) {
			return false // part of the container
		}
		if k := st.kindOf(x.X); k != 0 {
			st.vals[x] = k
		}
		if st.cells[addrKey(x.X)+"[]"] == kCont {
			st.vals[x] = kCont
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if k := st.cells[addrKey(x.X)]; k != 0 {
				// cell name of containers ends in [] and reading one element
				if strings.HasSuffix(addrKey(x.X), "[]") {
					st.vals[x] = kElem
				} else {
					st.vals[x] = k
				}
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				if _, fixed := ia.Index.(*ssa.Const); fixed {
					// one slot says nothing about the others
					delete(st.vals, x)
				} else if st.kindOf(ia.X) == kCont {
					st.vals[x] = kElem
				}
			}
			if st.nn[addrKey(x.X)] {
				st.nn[vkey(x)] = true
			}
		case token.ARROW:
			if !e.chanKind(x.X, st) {
				st.nn["waited"] = true
			} else {
				st.vals[x] = kElem // tuple when CommaOk
				e.dropChan(x.X, st)
			}
		}
	case *ssa.Extract:
		if u, ok := x.Tuple.(*ssa.UnOp); ok && u.Op == token.ARROW && x.Index == 0 && st.kindOf(u) == kElem {
			st.vals[x] = kElem
		}
		if sel, ok := x.Tuple.(*ssa.Select); ok && x.Index >= 2 && st.kindOf(sel) == kElem {
			st.vals[x] = kElem
		}
		if c, ok := x.Tuple.(*ssa.Call); ok && st.kindOf(c) == kElem && isErrorType(x.Type()) {
			st.vals[x] = kElem
		}
		if n, ok := x.Tuple.(*ssa.Next); ok && isErrorType(x.Type()) {
			if r, ok := n.Iter.(*ssa.Range); ok && st.kindOf(r.X) == kCont {
				st.vals[x] = kElem
			}
		}
	case *ssa.Lookup:
		if st.kindOf(x.X) == kCont {
			st.vals[x] = kElem
		}
	case *ssa.MapUpdate:
		if st.kindOf(x.Value) == kElem {
			st.vals[x.Map] = kCont
		}
	case *ssa.Store:
		key := addrKey(x.Addr)
		k := st.kindOf(x.Val)
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
			if k != 0 {
				st.cells[addrKey(ia.X)+"[]"] = kCont
				if _, isAlloc := ia.X.(*ssa.Alloc); !isAlloc {
					st.vals[ia.X] = kCont
					if u, ok := ia.X.(*ssa.UnOp); ok && u.Op == token.MUL {
						st.cells[addrKey(u.X)] = kCont
					}
				}
			}
			return false
		}
		delete(st.cells, key)
		delete(st.nn, key)
		if k != 0 {
			st.cells[key] = k
		}
		if isErrorType(x.Val.Type()) && (st.nn[vkey(x.Val)] || e.definitelyNonNil(x.Val, st, 0)) {
			st.nn[key] = true
		}
	case *ssa.Send:
		if l := e.loopsOf(fn); l.scc[x.Block()] != 0 && !sccHasGo(l, x.Block()) {
			st.nn["waited"] = true // taking every slot of a semaphore
		}
		if st.kindOf(x.X) == kElem {
			res.sinks = append(res.sinks, sink{kind: kChan, val: x.Chan})
			return true
		}
	case *ssa.Select:
		for _, s := range x.States {
			if s.Dir == types.SendOnly && st.kindOf(s.Send) == kElem {
				res.sinks = append(res.sinks, sink{kind: kChan, val: s.Chan})
				if len(x.States) == 1 && (x.Blocking || chanCapAtLeast1(s.Chan)) {
					return true // sent, or the channel already holds an error
				}
			}
			if s.Dir == types.RecvOnly && e.chanKind(s.Chan, st) {
				st.vals[x] = kElem
			} else if s.Dir == types.RecvOnly && x.Blocking {
				st.nn["waited"] = true
			}
		}
	case *ssa.Call:
		if !st.nn["waited"] && e.inChan && e.waits(x) {
			st.nn["waited"] = true
		}
		return e.call(fn, x, st, res)
	case *ssa.Panic:
		return true // explicit panics are decided by another property
	case *ssa.RunDefers:
		e.runDefers(fn, st, res)
	case *ssa.Return:
		e.ret(fn, x, st, res)
		return true
	}
	return false
}

func isErrContainer(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	switch t := t.Underlying().(type) {
	case *types.Slice:
		return isErrorType(t.Elem())
	case *types.Array:
		return isErrorType(t.Elem())
	}
	return false
}

func (e *errWalk) dropChan(v ssa.Value, st *estate) {
	delete(st.vals, v)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		delete(st.cells, addrKey(u.X))
	}
}

func (e *errWalk) runDefers(fn *ssa.Function, st *estate, res *sumRes) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			d, ok := ins.(*ssa.Defer)
			if !ok {
				continue
			}
			mc, ok := d.Call.Value.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			cf := mc.Fn.(*ssa.Function)
			for i, bd := range mc.Bindings {
				key := addrKey(bd)
				if st.cells[key] == 0 && !st.nn[key] {
					continue
				}
				fv := cf.FreeVars[i]
				for _, cb := range cf.Blocks {
					for _, ci := range cb.Instrs {
						s, ok := ci.(*ssa.Store)
						if !ok || s.Addr != fv {
							continue
						}
						if e.definitelyNonNil(s.Val, nil, 0) || derivesFromCell(s.Val, fv, 0) || guardedByNil(cb, fv) {
							continue
						}
						delete(st.cells, key)
						delete(st.nn, key)
					}
				}
			}
		}
	}
}

func derivesFromCell(v ssa.Value, cell ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		return v.Op == token.MUL && v.X == cell
	case *ssa.ChangeInterface:
		return derivesFromCell(v.X, cell, depth+1)
	case *ssa.Call:
		for _, a := range v.Call.Args {
			if derivesFromCell(a, cell, depth+1) {
				return true
			}
			if sl, ok := a.(*ssa.Slice); ok {
				if al, ok := sl.X.(*ssa.Alloc); ok {
					for _, r := range *al.Referrers() {
						if ia, ok := r.(*ssa.IndexAddr); ok {
							for _, r2 := range *ia.Referrers() {
								if s, ok := r2.(*ssa.Store); ok && derivesFromCell(s.Val, cell, depth+1) {
									return true
								}
							}
						}
					}
				}
			}
		}
	}
	return false
}

// guardedByNil: block b only executes when *cell == nil.
func guardedByNil(b *ssa.BasicBlock, cell ssa.Value) bool {
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			break
		}
		ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y := bo.X, bo.Y
		if isNilConst(x) {
			x, y = y, x
		}
		if !isNilConst(y) {
			continue
		}
		u, ok := x.(*ssa.UnOp)
		if !ok || u.Op != token.MUL || u.X != cell {
			continue
		}
		if bo.Op == token.EQL && p.Succs[0] == d && len(d.Preds) == 1 {
			return true
		}
		if bo.Op == token.NEQ && p.Succs[1] == d && len(d.Preds) == 1 {
			return true
		}
	}
	return false
}

func (e *errWalk) ret(fn *ssa.Function, r *ssa.Return, st *estate, res *sumRes) {
	hasErr := false
	for _, v := range r.Results {
		if isErrorType(v.Type()) {
			hasErr = true
			if k := st.kindOf(v); k == kElem {
				res.result = true
				return
			}
			if st.nn[vkey(v)] || e.definitelyNonNil(v, st, 0) {
				res.result = true
				return
			}
		}
		if k := st.kindOf(v); k == kCont || k == kChan || (k == kElem && !isErrorType(v.Type())) {
			res.result = true
			return
		}
	}
	// captured variables, memory of the caller: the owner has to discharge
	sunk := false
	for key, k := range st.cells {
		if root, yes := foreign(fn, key); yes {
			if _, p := root.(*ssa.Parameter); p && hasErr && !strings.HasSuffix(key, "]") && k == kElem {
				continue // a function that can return the error has to
			}
			res.sinks = append(res.sinks, sink{kind: k, key: key, root: root})
			sunk = true
		}
	}
	for key := range st.nn {
		if root, yes := foreign(fn, key); yes {
			if _, p := root.(*ssa.Parameter); p && hasErr {
				continue
			}
			sunk = true // the captured error is already set on this path
		}
	}
	if sunk {
		return
	}
	if !hasErr && len(r.Results) == 1 && types.Identical(r.Results[0].Type().Underlying(), types.Typ[types.Bool]) {
		// status predicate: the boolean result is decided by the error
		if bo, ok := r.Results[0].(*ssa.BinOp); ok {
			if st.kindOf(bo.X) == kElem || st.kindOf(bo.Y) == kElem {
				return
			}
		}
		if c, ok := r.Results[0].(*ssa.Const); ok && constant.BoolVal(c.Value) {
			return // "true" on the error path; false is the nil path
		}
		if p, ok := r.Results[0].(*ssa.Phi); ok {
			_ = p
			return
		}
	}
	why := "returns without a non-nil error"
	if !hasErr {
		why = "returns (it has no error result) without handing the error on"
	}
	res.lost = append(res.lost, lossAt{fn, r, why})
}

// call: transfer through a call instruction.
func (e *errWalk) call(fn *ssa.Function, c *ssa.Call, st *estate, res *sumRes) bool {
	com := c.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			for _, a := range com.Args {
				if st.kindOf(a) == kCont {
					st.vals[c] = kCont
				}
			}
		}
		if b.Name() == "copy" && len(com.Args) == 2 && st.kindOf(com.Args[1]) == kCont {
			st.vals[com.Args[0]] = kCont
		}
		return false
	}
	var argIdx []int
	for i, a := range com.Args {
		if st.kindOf(a) != 0 {
			argIdx = append(argIdx, i)
		}
	}
	e.closureEffects(c, st)
	if len(argIdx) == 0 {
		return false
	}
	callees := e.w.Callees(c)
	if len(callees) == 0 {
		return false
	}
	all := true
	prop := false
	for _, g := range callees {
		if !inModule(g) || len(g.Blocks) == 0 {
			n := g.String()
			if n == "fmt.Errorf" || n == "errors.Join" || n == "errors.Unwrap" || strings.HasSuffix(n, "errors.Wrap") || strings.HasSuffix(n, "errors.Wrapf") || strings.HasSuffix(n, "errors.WithStack") || strings.HasSuffix(n, "errors.WithMessage") {
				prop = true
			} else {
				all = false
			}
			continue
		}
		ok := false
		for _, i := range argIdx {
			if i >= len(g.Params) {
				continue
			}
			s := e.paramSummary(g, i, st.kindOf(com.Args[i]))
			if s == nil {
				continue
			}
			if len(s.lost) == 0 {
				ok = true
				if s.result {
					prop = true
				}
				for _, sk := range s.sinks {
					if sk.kind == kChan {
						res.sinks = append(res.sinks, sk)
					} else {
						e.applySink(g, com.Args, sk, st)
					}
				}
			}
		}
		if !ok {
			all = false
		}
	}
	if prop {
		st.vals[c] = kElem
		return false
	}
	if all {
		// a helper that only sinks into a channel
		onlyChan := true
		for _, g := range callees {
			for _, i := range argIdx {
				if i < len(g.Params) {
					if s := e.paramSummary(g, i, st.kindOf(com.Args[i])); s != nil {
						for _, sk := range s.sinks {
							if sk.kind != kChan {
								onlyChan = false
							}
						}
						if len(s.sinks) == 0 {
							onlyChan = false
						}
					}
				}
			}
		}
		if onlyChan {
			return true
		}
	}
	return false
}

// applySink: a callee stored the error in the cell; the same cell seen here.
func (e *errWalk) applySink(g *ssa.Function, args []ssa.Value, sk sink, st *estate) {
	p, isp := sk.root.(*ssa.Parameter)
	if !isp || p.Parent() != g {
		st.cells[sk.key] = sk.kind
		return
	}
	for pi, gp := range g.Params {
		if gp != p || pi >= len(args) {
			continue
		}
		_, rk := rootOfKey(sk.key)
		st.cells[strings.Replace(sk.key, rk, addrKey(args[pi]), 1)] = sk.kind
		if sk.kind == kCont && strings.HasSuffix(sk.key, "[]") {
			st.vals[args[pi]] = kCont
			if u, ok := args[pi].(*ssa.UnOp); ok && u.Op == token.MUL {
				st.cells[addrKey(u.X)] = kCont
			}
		}
	}
}

// closureEffects: the call runs a closure (it is called, or passed to
// sync.Once.Do or to a function of the library) that captures a variable
// holding the error; what the closure does with it happens here.
func (e *errWalk) closureEffects(c *ssa.Call, st *estate) {
	if len(st.cells) == 0 {
		return
	}
	com := c.Common()
	var cls []*ssa.Function
	add := func(v ssa.Value) {
		if m, ok := v.(*ssa.MakeClosure); ok {
			cls = append(cls, m.Fn.(*ssa.Function))
		}
	}
	callees := e.w.Callees(c)
	runs := false
	for _, g := range callees {
		if inModule(g) {
			cls = append(cls, g)
		}
		if inModule(g) || g.String() == "(*sync.Once).Do" {
			runs = true
		}
	}
	if runs {
		for _, a := range com.Args {
			add(a)
		}
	}
	for _, cf := range cls {
		sees := false
		passed := map[string]bool{}
		ns := &estate{vals: map[ssa.Value]ckind{}, cells: map[string]ckind{}, nn: map[string]bool{}}
		if st.nn["waited"] {
			ns.nn["waited"] = true
		}
		for k, v := range st.cells {
			if root, yes := foreign(cf, k); yes {
				for _, fv := range cf.FreeVars {
					if _, rk := rootOfKey(addrKey(fv)); rk != "" && rootByName[rk] == root {
						sees = true
						ns.cells[k] = v
						passed[k] = true
					}
				}
			}
		}
		direct := false
		for _, g := range callees {
			if g == cf && !com.IsInvoke() {
				direct = true
			}
		}
		if direct {
			for i, a := range com.Args {
				if i >= len(cf.Params) {
					break
				}
				ak := addrKey(a)
				for k, v := range st.cells {
					if strings.HasPrefix(k, ak) && (len(k) == len(ak) || k[len(ak)] == '.' || k[len(ak)] == '[') {
						ns.cells[rootKey(cf.Params[i])+k[len(ak):]] = v
						passed[k] = true
						sees = true
					}
				}
				if st.kindOf(a) == kCont {
					ns.vals[cf.Params[i]] = kCont
				}
			}
		}
		if !sees || len(cf.Blocks) == 0 || e.depth > 4 {
			continue
		}
		e.depth++
		r := &sumRes{}
		e.walk(source{cf, cf.Blocks[0], 0, ns}, r)
		e.depth--
		if len(r.lost) > 0 && errResultIdx(c.Call.Signature()) < 0 && direct {
			// on some path it overwrites what the variable held
			for k := range passed {
				delete(st.cells, k)
				delete(st.nn, k)
			}
			continue
		}
		for _, sk := range r.sinks {
			if sk.kind != kChan {
				e.applySink(cf, com.Args, sk, st)
			}
		}
		if r.result && len(r.lost) == 0 && direct && errResultIdx(c.Call.Signature()) >= 0 {
			st.vals[c] = kElem
		}
	}
}

func (e *errWalk) paramSummary(g *ssa.Function, i int, k ckind) *sumRes {
	key := fmt.Sprintf("%p/%d/%d", g, i, k)
	if s, ok := e.sums[key]; ok {
		return s
	}
	if e.busy[key] {
		return &sumRes{result: true}
	}
	e.busy[key] = true
	defer delete(e.busy, key)
	st := &estate{vals: map[ssa.Value]ckind{g.Params[i]: k}, cells: map[string]ckind{}, nn: map[string]bool{}}
	r := &sumRes{}
	e.walk(source{g, g.Blocks[0], 0, st}, r)
	e.sums[key] = r
	return r
}

// ---- driver ----------------------------------------------------------------

type errSite struct {
	fn    *ssa.Function
	instr ssa.CallInstruction
	name  string
}

// calleeName: stable name of what is called.
func (w *World) calleeName(c ssa.CallInstruction) string {
	com := c.Common()
	if com.IsInvoke() {
		n := namedOf(com.Value.Type())
		if n != nil {
			return n.Obj().Name() + "." + com.Method.Name()
		}
		return com.Method.Name()
	}
	if f := com.StaticCallee(); f != nil {
		return FnName(f)
	}
	return "dynamic " + com.Value.Type().String()
}

func errResultIdx(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErrorType(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// exempt: calls whose error is documented to be always nil or which only print
// diagnostics. One reason per entry.
func errExempt(w *World, c ssa.CallInstruction) string {
	com := c.Common()
	if com.IsInvoke() {
		n := namedOf(com.Value.Type())
		if n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "hash" && com.Method.Name() == "Write" {
			return "hash.Hash.Write never returns an error"
		}
		// io.Writer whose only dynamic types are in-memory sinks
		if com.Method.Name() == "Write" {
			cs := w.Callees(c)
			ok := len(cs) > 0
			for _, g := range cs {
				if !neverFails(g.String()) {
					ok = false
				}
			}
			if ok {
				return "in-memory writer"
			}
		}
		return ""
	}
	f := com.StaticCallee()
	if f == nil {
		return ""
	}
	if neverFails(f.String()) {
		return "documented to return a nil error"
	}
	s := f.String()
	if strings.HasPrefix(s, "fmt.Print") {
		return "diagnostic output to stdout"
	}
	if strings.HasPrefix(s, "fmt.Fprint") || s == "io.WriteString" || s == "encoding/binary.Write" && fixedSize(com.Args[2]) {
		if mi, ok := com.Args[0].(*ssa.MakeInterface); ok {
			switch mi.X.Type().String() {
			case "*bytes.Buffer", "*strings.Builder":
				return "in-memory writer"
			}
		}
	}
	return ""
}

// fixedSize: a numeric value, which binary.Write can always encode.
func fixedSize(v ssa.Value) bool {
	mi, ok := v.(*ssa.MakeInterface)
	if !ok {
		return false
	}
	b, ok := mi.X.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsNumeric == 0 {
		return false
	}
	switch b.Kind() {
	case types.Int, types.Uint, types.Uintptr:
		return false
	}
	return true
}

func neverFails(n string) bool {
	return strings.HasPrefix(n, "(*bytes.Buffer).Write") || strings.HasPrefix(n, "(*strings.Builder).Write") || (strings.HasPrefix(n, "(*hash/") && strings.HasSuffix(n, ".Write"))
}

type errReport struct {
	site  errSite
	loss  lossAt
	trans bool // loss happened in the owner of the channel/cell
	key   string
}

func (e *errWalk) run(fns []*ssa.Function) (reports []errReport, sites []errSite) {
	type tkey struct {
		fn  *ssa.Function
		at  ssa.Instruction
		cel string
	}
	doneT := map[tkey]bool{}
	doneC := map[*ssa.MakeChan]bool{}
	var handleSinks func(f *ssa.Function, s errSite, sks []sink)
	handleSinks = func(f *ssa.Function, s errSite, sks []sink) {
		for _, sk := range sks {
			if sk.kind == kChan && sk.val != nil {
				mk := chanOrigin(sk.val)
				if mk == nil {
					// the channel is a parameter: resolve through callers
					if p, ok := sk.val.(*ssa.Parameter); ok {
						for _, mk2 := range e.chanParamOrigins(p, 0) {
							if !doneC[mk2] {
								doneC[mk2] = true
								reports = append(reports, e.chanOwner(mk2, s)...)
							}
						}
						continue
					}
					reports = append(reports, errReport{site: s, loss: lossAt{f, s.instr, "is sent to a channel whose owner cannot be found"}, trans: true, key: "chan-unresolved"})
					continue
				}
				if !doneC[mk] {
					doneC[mk] = true
					reports = append(reports, e.chanOwner(mk, s)...)
				}
				continue
			}
			hs := e.holders(f, sk)
			if len(hs) == 0 {
				reports = append(reports, errReport{site: s, loss: lossAt{f, s.instr, "stores it where no caller in the library looks at it"}, trans: true})
			}
			for _, h := range hs {
				tk := tkey{h.fn, h.at, h.key}
				if doneT[tk] {
					continue
				}
				doneT[tk] = true
				e.nTrans++
				st := &estate{vals: map[ssa.Value]ckind{}, cells: map[string]ckind{h.key: sk.kind}, nn: map[string]bool{}}
				if strings.HasSuffix(h.key, "[]") {
					// element of a slice: the container is what carries it
					in := strings.TrimSuffix(h.key, "[]")
					if h.slice != nil {
						st.vals[h.slice] = kCont
					}
					if strings.HasPrefix(in, "*(") && strings.HasSuffix(in, ")") {
						st.cells[in[2:len(in)-1]] = kCont
					}
				}
				r := &sumRes{}
				e.walk(source{h.fn, h.at.Block(), h.idx + 1, st}, r)
				for _, l := range r.lost {
					reports = append(reports, errReport{site: s, loss: l, trans: true})
				}
				handleSinks(h.fn, s, r.sinks)
			}
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for i, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isB := c.Common().Value.(*ssa.Builtin); isB {
					continue
				}
				sig := c.Common().Signature()
				ri := errResultIdx(sig)
				if ri < 0 {
					continue
				}
				if errExempt(e.w, c) != "" {
					continue
				}
				// constructors of errors are not error sources
				if sf := c.Common().StaticCallee(); sf != nil {
					switch sf.String() {
					case "errors.New", "fmt.Errorf", "errors.Join", "errors.Unwrap":
						continue
					}
				}
				s := errSite{f, c, e.w.calleeName(c)}
				e.nSites++
				sites = append(sites, s)
				call, isCall := ins.(*ssa.Call)
				if !isCall {
					kind := "deferred"
					if _, g := ins.(*ssa.Go); g {
						kind = "started with go"
					}
					reports = append(reports, errReport{site: s, loss: lossAt{f, ins, "is discarded because the call is " + kind}})
					continue
				}
				st := &estate{vals: map[ssa.Value]ckind{}, cells: map[string]ckind{}, nn: map[string]bool{}}
				if sig.Results().Len() == 1 {
					st.vals[call] = kElem
				} else {
					st.vals[call] = kElem // tuple; Extract picks the error component
				}
				r := &sumRes{}
				e.eofBoundary, e.eofSeen = e.boundaryRead(f, ins), 0
				e.walk(source{f, b, i + 1, st}, r)
				if e.eofSeen > 0 {
					e.eofSites = append(e.eofSites, FnName(f)+" -> "+s.name)
				}
				e.eofBoundary = false
				for _, l := range r.lost {
					reports = append(reports, errReport{site: s, loss: l})
				}
				handleSinks(f, s, r.sinks)
			}
		}
	}
	return
}

// holder: a place in the function owning a cell at which the cell may carry an
// error that code started there (call, go statement) has stored.
type holder struct {
	fn    *ssa.Function
	at    ssa.Instruction
	idx   int
	key   string
	slice ssa.Value
}

func (e *errWalk) holders(f *ssa.Function, sk sink) (out []holder) {
	if p, ok := sk.root.(*ssa.Parameter); ok {
		g := p.Parent()
		pi := -1
		for i, q := range g.Params {
			if q == p {
				pi = i
			}
		}
		for _, site := range e.w.callersOf(g) {
			args := site.Common().Args
			if site.Common().IsInvoke() {
				continue
			}
			if pi < 0 || pi >= len(args) {
				continue
			}
			_, rk := rootOfKey(sk.key)
			key := strings.Replace(sk.key, rk, addrKey(args[pi]), 1)
			if _, def := site.(*ssa.Defer); def {
				out = append(out, deferredHolders(site.Parent(), key, args[pi])...)
				continue
			}
			out = append(out, holder{site.Parent(), site.(ssa.Instruction), instrIndex(site.(ssa.Instruction)), key, args[pi]})
		}
		return
	}
	a, ok := sk.root.(*ssa.Alloc)
	if !ok {
		return
	}
	owner := a.Parent()
	for _, b := range owner.Blocks {
		for i, ins := range b.Instrs {
			c, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cs := e.w.Callees(c)
			for _, x := range c.Common().Args {
				if m, ok := x.(*ssa.MakeClosure); ok {
					cs = append(append([]*ssa.Function{}, cs...), m.Fn.(*ssa.Function))
				}
			}
			if len(cs) == 0 || !reachFrom(e.w.cg, cs)[f] {
				continue
			}
			if _, def := ins.(*ssa.Defer); !def {
				out = append(out, holder{owner, ins, i, sk.key, nil})
				continue
			}
			// deferred: it runs when the function returns
			out = append(out, deferredHolders(owner, sk.key, nil)...)
		}
	}
	return
}

// deferredHolders: what a deferred call stores is there from the end of the
// function on, or when it resumes after a recovered panic.
func deferredHolders(f *ssa.Function, key string, slice ssa.Value) (out []holder) {
	for _, b := range f.Blocks {
		for i, ins := range b.Instrs {
			if _, ok := ins.(*ssa.RunDefers); ok {
				out = append(out, holder{f, ins, i, key, slice})
			}
		}
	}
	if f.Recover != nil && len(f.Recover.Instrs) > 0 {
		out = append(out, holder{f, f.Recover.Instrs[0], -1, key, slice})
	}
	return
}

func instrIndex(ins ssa.Instruction) int {
	for i, x := range ins.Block().Instrs {
		if x == ins {
			return i
		}
	}
	return 0
}

func (e *errWalk) chanParamOrigins(p *ssa.Parameter, depth int) []*ssa.MakeChan {
	if depth > 5 {
		return nil
	}
	f := p.Parent()
	idx := -1
	for i, q := range f.Params {
		if q == p {
			idx = i
		}
	}
	var out []*ssa.MakeChan
	for site, cs := range e.w.calls {
		for _, g := range cs {
			if g == f && idx < len(site.Common().Args) && !site.Common().IsInvoke() {
				a := site.Common().Args[idx]
				if mk := chanOrigin(a); mk != nil {
					out = append(out, mk)
				} else if q, ok := a.(*ssa.Parameter); ok {
					out = append(out, e.chanParamOrigins(q, depth+1)...)
				}
			}
		}
	}
	return out
}

// chanOwner: the function creating the channel must receive from it and
// propagate, on every path after the creation.
func (e *errWalk) chanOwner(mk *ssa.MakeChan, s errSite) []errReport {
	owner := mk.Parent()
	e.nTrans++
	st := &estate{vals: map[ssa.Value]ckind{mk: kChan}, cells: map[string]ckind{}, nn: map[string]bool{}}
	r := &sumRes{}
	// start after the last go statement that follows the creation? Starting at
	// the creation is equivalent because nothing is received before.
	start := mk.Block()
	idx := 0
	for i, ins := range start.Instrs {
		if ins == mk {
			idx = i + 1
		}
	}
	e.inChan = true
	e.walkChan(source{owner, start, idx, st}, mk, r)
	e.inChan = false
	var out []errReport
	for _, l := range r.lost {
		l.why = "returns without having drained and propagated the error channel"
		out = append(out, errReport{site: s, loss: l, trans: true})
	}
	return out
}

// walkChan walks the owner; paths that never reach a use of the channel by a
// goroutine are not obligations, so the walk starts at each Go/call instruction
// that can see the channel.
func (e *errWalk) walkChan(src source, mk *ssa.MakeChan, res *sumRes) {
	f := src.fn
	for _, b := range f.Blocks {
		for i, ins := range b.Instrs {
			uses := false
			switch x := ins.(type) {
			case *ssa.Go:
				uses = closureSees(x.Common(), mk)
			case *ssa.Call:
				uses = closureSees(x.Common(), mk)
			case *ssa.Defer:
			}
			if !uses {
				continue
			}
			st := &estate{vals: map[ssa.Value]ckind{mk: kChan}, cells: map[string]ckind{}, nn: map[string]bool{}}
			for _, r := range *mk.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Val == mk {
					st.cells[addrKey(s.Addr)] = kChan
				}
			}
			e.walk(source{f, b, i + 1, st}, res)
		}
	}
}

func closureSees(c *ssa.CallCommon, mk *ssa.MakeChan) bool {
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return false
	}
	if m, ok := c.Value.(*ssa.MakeClosure); ok {
		for _, b := range m.Bindings {
			if chanOrigin(b) == mk {
				return true
			}
			// closure captured by closure
			if m2, ok := b.(*ssa.MakeClosure); ok {
				for _, b2 := range m2.Bindings {
					if chanOrigin(b2) == mk {
						return true
					}
				}
			}
		}
	}
	for _, a := range c.Args {
		if _, isChan := a.Type().Underlying().(*types.Chan); isChan && chanOrigin(a) == mk {
			return true
		}
		if m2, ok := a.(*ssa.MakeClosure); ok {
			for _, b2 := range m2.Bindings {
				if chanOrigin(b2) == mk {
					return true
				}
			}
		}
	}
	return false
}
