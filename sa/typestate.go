package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Typestate of objects on top of the path-sensitive walk of nilwalk.go. Objects
// are named by the access path through which a function reaches them:
//
//	P0.stream      field of the first parameter
//	C<call>#1      second result of a call
//	A<alloc>       object allocated here
//	R0.stream      (in outcomes) field of the first result
//
// The names of a callee are translated at the call site.

type tsMachine interface {
	// tracked: values of the type are, or hold, the objects of the machine.
	tracked(t types.Type) bool
	// call handles the operations of the machine itself.
	call(n *nwalk, fr *nframe, c *ssa.Call, s *nstate) ([]*nstate, bool)
	// interesting: the function may operate on tracked objects.
	interesting(f *ssa.Function) bool
}

type tsState struct {
	st    map[string]string    // object -> pending obligation (where it arose)
	done  map[string]bool      // objects discharged here (exported to callers)
	vname map[ssa.Value]string // names of phis and loads
	cname map[string]string    // access path -> object stored there
	nils  map[string]bool      // access paths found to hold nil
}

func newTsState() *tsState {
	return &tsState{map[string]string{}, map[string]bool{}, map[ssa.Value]string{}, map[string]string{}, map[string]bool{}}
}

func (t *tsState) clone() *tsState {
	if t == nil {
		return nil
	}
	n := newTsState()
	for k, v := range t.st {
		n.st[k] = v
	}
	for k := range t.done {
		n.done[k] = true
	}
	for k := range t.nils {
		n.nils[k] = true
	}
	for k, v := range t.vname {
		n.vname[k] = v
	}
	for k, v := range t.cname {
		n.cname[k] = v
	}
	return n
}

func (t *tsState) key() string {
	if t == nil {
		return ""
	}
	var p []string
	for k := range t.st {
		p = append(p, "!"+k)
	}
	for k := range t.done {
		p = append(p, "+"+k)
	}
	for k := range t.nils {
		p = append(p, "0"+k)
	}
	for k, v := range t.vname {
		p = append(p, fmt.Sprintf("%p:%s", k, v))
	}
	for k, v := range t.cname {
		p = append(p, k+"="+v)
	}
	sort.Strings(p)
	return strings.Join(p, ",")
}

func (t *tsState) name(v ssa.Value) string {
	if n, ok := t.vname[v]; ok {
		return n
	}
	switch v := v.(type) {
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				return fmt.Sprintf("P%d", i)
			}
		}
	case *ssa.FreeVar:
		if b := bindingOf(v); b != nil {
			switch b := b.(type) {
			case *ssa.Alloc:
				return fmt.Sprintf("A%p", b)
			case *ssa.FreeVar:
				return t.name(b)
			}
		}
		return fmt.Sprintf("F%p", v)
	case *ssa.Alloc:
		return fmt.Sprintf("A%p", v)
	case *ssa.Global:
		return fmt.Sprintf("G%p", v)
	case *ssa.MakeInterface:
		return t.name(v.X)
	case *ssa.ChangeInterface:
		return t.name(v.X)
	case *ssa.ChangeType:
		return t.name(v.X)
	case *ssa.TypeAssert:
		return t.name(v.X)
	case *ssa.Extract:
		if ta, ok := v.Tuple.(*ssa.TypeAssert); ok {
			return t.name(ta.X)
		}
		return fmt.Sprintf("C%p#%d", v.Tuple, v.Index)
	case *ssa.Call:
		return fmt.Sprintf("C%p#0", v)
	case *ssa.FieldAddr:
		return t.name(v.X) + fmt.Sprintf(".%d", v.Field)
	case *ssa.Field:
		return t.resolve(t.name(v.X) + fmt.Sprintf(".%d", v.Field))
	case *ssa.IndexAddr:
		return t.name(v.X) + "[]"
	case *ssa.UnOp:
		return t.resolve(t.name(v.X))
	}
	return fmt.Sprintf("V%p", v)
}

func (t *tsState) resolve(path string) string {
	if n, ok := t.cname[path]; ok {
		return n
	}
	return path
}

func (t *tsState) phis(m tsMachine, b *ssa.BasicBlock, pi int) {
	upd := map[ssa.Value]string{}
	for _, ins := range b.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if m.tracked(ph.Type()) {
			upd[ph] = t.name(ph.Edges[pi])
		}
	}
	for k, v := range upd {
		t.vname[k] = v
	}
}

func (t *tsState) load(m tsMachine, x *ssa.UnOp) {
	if m.tracked(x.Type()) {
		delete(t.vname, x)
		t.vname[x] = t.resolve(t.name(x.X))
	}
}

func (t *tsState) store(m tsMachine, addr, val ssa.Value) {
	if !m.tracked(val.Type()) {
		return
	}
	p := t.name(addr)
	v := t.name(val)
	if strings.HasSuffix(p, "[]") {
		return // element of a container: no longer followed
	}
	if v == p {
		return
	}
	// what the path named so far is replaced
	for k, w := range t.st {
		if k == p || strings.HasPrefix(k, p+".") {
			delete(t.st, k)
			t.st["old:"+k] = w
		}
	}
	for k := range t.cname {
		if strings.HasPrefix(k, p+".") {
			delete(t.cname, k)
		}
	}
	for k := range t.nils {
		if k == p || strings.HasPrefix(k, p+".") {
			delete(t.nils, k)
		}
	}
	t.cname[p] = v
}

// visible returns the names under which a caller of f can reach object n.
func (t *tsState) visible(f *ssa.Function, ret *ssa.Return, n string) []string {
	seen := map[string]bool{}
	var out []string
	var up func(n string, d int)
	up = func(n string, d int) {
		if seen[n] || d > 6 {
			return
		}
		seen[n] = true
		switch n[0] {
		case 'P', 'F', 'G':
			out = append(out, n)
		case 'A':
			// a captured variable of an enclosing function
			if k := rootAlloc(n); k != nil && k.Parent() != f {
				out = append(out, n)
			}
		}
		for i, r := range ret.Results {
			rn := t.name(r)
			if n == rn || strings.HasPrefix(n, rn+".") {
				out = append(out, fmt.Sprintf("R%d%s", i, n[len(rn):]))
			}
		}
		for p, o := range t.cname {
			if n == o || strings.HasPrefix(n, o+".") {
				up(p+n[len(o):], d+1)
			}
		}
	}
	up(n, 0)
	sort.Strings(out)
	return out
}

var tsAllocs = map[string]*ssa.Alloc{}

func rootAlloc(n string) *ssa.Alloc {
	if i := strings.IndexByte(n, '.'); i > 0 {
		n = n[:i]
	}
	return tsAllocs[n]
}

// atReturn: the state as callers see it. Obligations nobody can reach any more
// are kept under a name starting with "lost:".
func (t *tsState) atReturn(m tsMachine, f *ssa.Function, ret *ssa.Return) *tsState {
	o := newTsState()
	for n, w := range t.st {
		vs := t.visible(f, ret, n)
		if len(vs) == 0 {
			o.st["lost:"+n] = w
			continue
		}
		o.st[vs[0]] = w
		for _, v := range vs[1:] {
			o.cname[v] = vs[0]
		}
	}
	for n := range t.done {
		for _, v := range t.visible(f, ret, n) {
			o.done[v] = true
		}
	}
	for n := range t.nils {
		for _, v := range t.visible(f, ret, n) {
			if v[0] != 'R' {
				o.nils[v] = true
			}
		}
	}
	// objects the function stored where its caller finds them
	for p, n := range t.cname {
		if p[0] != 'P' && p[0] != 'A' && p[0] != 'F' {
			continue
		}
		vs := t.visible(f, ret, n)
		ps := t.visible(f, ret, p)
		if len(ps) > 0 && len(vs) > 0 && vs[0] != ps[0] {
			o.cname[ps[0]] = vs[0]
		}
	}
	return o
}

// merge brings the effects of a call into the state of the caller; it answers
// false when the outcome cannot follow this state.
func (t *tsState) merge(m tsMachine, o *tsState, f *ssa.Function, args []ssa.Value, at ssa.Value) bool {
	if o == nil {
		return true
	}
	tr := func(n string) string {
		if n == "" {
			return ""
		}
		root, rest := n, ""
		if i := strings.IndexAny(n, ".["); i > 0 {
			root, rest = n[:i], n[i:]
		}
		base := ""
		switch root[0] {
		case 'P':
			i := 0
			fmt.Sscanf(root, "P%d", &i)
			if i >= len(args) {
				return ""
			}
			base = t.name(args[i])
		case 'R':
			i := 0
			fmt.Sscanf(root, "R%d", &i)
			if at == nil {
				return ""
			}
			base = fmt.Sprintf("C%p#%d", at, i)
		default:
			base = t.resolve(root)
		}
		// resolve field by field
		for rest != "" {
			j := 1
			for j < len(rest) && rest[j] != '.' && rest[j] != '[' {
				j++
			}
			base = t.resolve(base + rest[:j])
			rest = rest[j:]
		}
		return base
	}
	var zero []string
	for n := range o.nils {
		k := tr(n)
		if _, ok := t.st[k]; ok || t.done[k] {
			return false // an object operated on before exists
		}
		if k != "" {
			zero = append(zero, k)
		}
	}
	for _, k := range zero {
		t.nils[k] = true
	}
	type kv struct{ k, v string }
	var adds []kv
	for n, w := range o.st {
		if strings.HasPrefix(n, "lost:") || strings.HasPrefix(n, "old:") {
			continue // reported in the callee
		}
		adds = append(adds, kv{tr(n), w})
	}
	for n := range o.done {
		if k := tr(n); k != "" {
			delete(t.st, k)
			t.done[k] = true
		}
	}
	for _, a := range adds {
		if a.k != "" {
			t.st[a.k] = a.v
			delete(t.done, a.k)
		}
	}
	var cn []kv
	for p, n := range o.cname {
		cn = append(cn, kv{p, n})
	}
	sort.Slice(cn, func(i, j int) bool { return cn[i].k < cn[j].k })
	for _, c := range cn {
		i := strings.LastIndexByte(c.k, '.')
		if i < 0 {
			continue
		}
		p, v := tr(c.k[:i]), tr(c.v)
		if p != "" && v != "" {
			t.cname[p+c.k[i:]] = v
		}
	}
	return true
}

// holds: values of type t lead to an object of the named types.
type typeHolds struct {
	w    *World
	is   func(types.Type) bool
	memo map[types.Type]bool
}

func (h *typeHolds) holds(t types.Type) bool {
	if v, ok := h.memo[t]; ok {
		return v
	}
	h.memo[t] = false
	r := h.is(t)
	if !r {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			r = h.holds(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				switch u.Field(i).Type().Underlying().(type) {
				case *types.Pointer, *types.Interface, *types.Struct:
					if h.holds(u.Field(i).Type()) {
						r = true
					}
				}
			}
		}
	}
	h.memo[t] = r
	return r
}

func tsRegisterAllocs(w *World) {
	for f := range w.all {
		if !inModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if a, ok := ins.(*ssa.Alloc); ok {
					tsAllocs[fmt.Sprintf("A%p", a)] = a
				}
			}
		}
	}
}
