package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// finalMachine: an entropy stream symbols were read from has to pass
// ValidateFinalState before its reader reports success.
type finalMachine struct {
	w       *World
	h       *typeHolds
	entropy string
	uses    map[*ssa.Function]bool
	reads   map[*ssa.Call]bool
	checks  map[*ssa.Call]bool
}

func (m *finalMachine) isStream(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != m.entropy {
		return false
	}
	return n.Obj().Name() == "EntropyStreamer" || n.Obj().Name() == "EntropyStream"
}

func (m *finalMachine) tracked(t types.Type) bool { return m.h.holds(t) }

func (m *finalMachine) interesting(f *ssa.Function) bool { return m.uses[f] }

func (m *finalMachine) op(c ssa.CallInstruction) (string, ssa.Value) {
	cc := c.Common()
	if cc.IsInvoke() {
		if m.isStream(cc.Value.Type()) {
			return cc.Method.Name(), cc.Value
		}
		return "", nil
	}
	f := cc.StaticCallee()
	if f == nil || f.Signature.Recv() == nil || len(cc.Args) == 0 || !m.isStream(f.Signature.Recv().Type()) {
		return "", nil
	}
	return f.Name(), cc.Args[0]
}

func isSymbolRead(n string) bool {
	return strings.HasPrefix(n, "Read") && strings.Contains(n, "Symbol") || strings.HasPrefix(n, "TryRead")
}

func (m *finalMachine) call(n *nwalk, fr *nframe, c *ssa.Call, s *nstate) ([]*nstate, bool) {
	op, recv := m.op(c)
	if recv == nil {
		return nil, false
	}
	if nTracked(recv.Type()) {
		if n.fact(s, recv) == nNil {
			return nil, true // a method called on nil
		}
		n.set(s, recv, nNon)
	}
	switch {
	case isSymbolRead(op):
		m.reads[c] = true
		k := s.ts.name(recv)
		s.ts.st[k] = m.w.Pos(instrPos(c))
		delete(s.ts.done, k)
		return []*nstate{s}, true
	case op == "ValidateFinalState":
		m.checks[c] = true
		k := s.ts.name(recv)
		t := s.clone()
		delete(t.ts.st, k)
		t.ts.done[k] = true
		t.vals[c] = nNon
		s.vals[c] = nNil
		return []*nstate{t, s}, true
	}
	return []*nstate{s}, true
}

func checkFinalState(w *World, r *Result, th bool) {
	m := &finalMachine{w: w, entropy: modPath + "/entropy", uses: map[*ssa.Function]bool{}, reads: map[*ssa.Call]bool{}, checks: map[*ssa.Call]bool{}}
	m.h = &typeHolds{w: w, is: m.isStream, memo: map[types.Type]bool{}}
	tsRegisterAllocs(w)
	// functions that (transitively) operate on streams
	fns := w.ModFns()
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if op, recv := m.op(c); recv != nil && (isSymbolRead(op) || op == "ValidateFinalState") {
						m.uses[f] = true
					}
				}
			}
		}
	}
	m.closeUses(fns)
	n := newNwalk(w)
	n.tm = m
	for _, f := range fns {
		if m.isStreamMethod(f) {
			continue
		}
		if !m.uses[f] {
			continue
		}
		r.Count("functions that read entropy-coded symbols, directly or through calls", 1)
		isRoot := len(w.callersOf(f)) == 0
		for _, o := range n.walk(f, make([]nfact, len(f.Params)), nil, 0, nil, nNil) {
			r.Count("return paths", 1)
			if o.failed(f) {
				continue
			}
			for k, at := range o.ts.st {
				if strings.HasPrefix(k, "lost:") || isRoot {
					r.Add("final-state-unchecked in "+FnName(f), at, "%s can succeed although the final state of the entropy stream read at %s was not found valid", FnName(f), at)
				}
			}
		}
		if n.gaveUp[f] {
			r.Count("functions too large to enumerate", 1)
		}
	}
	r.Units["symbol reads"] = len(m.reads)
	r.Units["final state checks"] = len(m.checks)
	r.Units["states"] = n.steps
	r.Minimum["symbol reads"] = 6
	r.Minimum["final state checks"] = 3
	m.validator(r)
	r.Rules = []string{"typestate per entropy stream: after a symbol is read, every path on which the reading function succeeds passes ValidateFinalState() == true of the same stream, or leaves the stream with its caller, who then has the obligation", "ValidateFinalState answers true only when no state was loaded or the state equals 0x130000"}
}

func (m *finalMachine) isStreamMethod(f *ssa.Function) bool {
	return f.Signature.Recv() != nil && m.isStream(f.Signature.Recv().Type())
}

func (m *finalMachine) closeUses(fns []*ssa.Function) {
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			if m.uses[f] || m.isStreamMethod(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					c, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					for _, g := range m.w.Callees(c) {
						if m.uses[g] && !m.uses[f] {
							m.uses[f] = true
							changed = true
						}
					}
				}
			}
		}
	}
}

// validator checks the implementation of ValidateFinalState.
func (m *finalMachine) validator(r *Result) {
	for _, f := range m.w.ModFns() {
		if f.Name() != "ValidateFinalState" || !m.isStreamMethod(f) {
			continue
		}
		r.Count("implementations of ValidateFinalState", 1)
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			m.answer(r, f, ret.Results[0], b, nil, map[ssa.Value]bool{})
		}
	}
	r.Minimum["implementations of ValidateFinalState"] = 1
}

// answer: every way v can be true is licensed by HasState == false or
// State == 0x130000.
func (m *finalMachine) answer(r *Result, f *ssa.Function, v ssa.Value, b, succ *ssa.BasicBlock, seen map[ssa.Value]bool) {
	bad := func() {
		r.Add("final-state-test in "+FnName(f), m.w.Pos(f.Pos()), "%s can answer true for a state other than the initial 0x130000", FnName(f))
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.String() == "false" {
			return
		}
		if m.licensed(b, succ) {
			return
		}
	case *ssa.Phi:
		if seen[x] {
			return
		}
		seen[x] = true
		for i, e := range x.Edges {
			m.answer(r, f, e, x.Block().Preds[i], x.Block(), seen)
		}
		return
	case *ssa.BinOp:
		if m.test(x) == 1 {
			return
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			if isHasState(x.X) {
				return
			}
			if bo, ok := x.X.(*ssa.BinOp); ok && m.test(bo) == -1 {
				return
			}
		}
	}
	if m.licensed(b, succ) {
		return
	}
	bad()
}

// test: 1 when x means "the state is final", -1 when it means the opposite.
func (m *finalMachine) test(x *ssa.BinOp) int {
	a, c := x.X, x.Y
	if _, ok := a.(*ssa.Const); ok {
		a, c = c, a
	}
	k, ok := c.(*ssa.Const)
	if !ok || k.Value == nil {
		return 0
	}
	if isHasState(a) {
		v := k.Value.String() == "true"
		if (x.Op == token.EQL) != v {
			return 1
		}
		return -1
	}
	if fieldNameOf(a) != "State" || k.Value.String() != "1245184" {
		return 0
	}
	switch x.Op {
	case token.EQL:
		return 1
	case token.NEQ:
		return -1
	}
	return 0
}

func fieldNameOf(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Convert:
		return fieldNameOf(x.X)
	case *ssa.UnOp:
		if fv := fieldVarOf(x.X); fv != nil {
			return fv.Name()
		}
	case *ssa.Field:
		return fieldVarOf(x).Name()
	}
	return ""
}

func isHasState(v ssa.Value) bool { return fieldNameOf(v) == "HasState" }

// licensed: block b (or the edge b->succ) is only reached when the state is final.
func (m *finalMachine) licensed(b, succ *ssa.BasicBlock) bool {
	check := func(p, s *ssa.BasicBlock) bool {
		ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] == p.Succs[1] {
			return false
		}
		onTrue := p.Succs[0] == s
		cond := ifi.Cond
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, onTrue = u.X, !onTrue
		}
		if isHasState(cond) {
			return !onTrue
		}
		if bo, ok := cond.(*ssa.BinOp); ok {
			t := m.test(bo)
			return t == 1 && onTrue || t == -1 && !onTrue
		}
		return false
	}
	if succ != nil && check(b, succ) {
		return true
	}
	for d := b; d != nil && d.Idom() != nil; d = d.Idom() {
		if len(d.Preds) == 1 && check(d.Preds[0], d) {
			return true
		}
	}
	return false
}

func init() {
	register("P14", "other", "Path-sensitive typestate of entropy streams over SSA, interprocedural with access paths; decides that each stream's final state is validated before its section is accepted.", checkFinalState)
}

var _ = fmt.Sprint
