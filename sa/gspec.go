package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The other side of the comparison: what the format lays down, written as
// functions in Go syntax (p_grammar.go) and turned into a list of guarded
// reads, expected field values and rejected streams.

type sitem struct {
	kind string
	args []*gval
	g    bdd
	v    *gval
	name string
	loop []*sitem
	cnt  *gval
}

type sout struct {
	path string
	v    *gval
	g    bdd
}

// skeep: what the code keeps of a read inside a repeated group, wherever it
// puts it.
type skeep struct {
	name string
	vars map[int]bool
	v    *gval
	g    bdd
}

type gspec struct {
	keeps   []skeep
	x       *gx
	d       *dd
	funcs   map[string]*ast.FuncDecl
	items   []*sitem
	outs    []sout
	reject  bdd
	unsup   bdd
	nvar    map[string]int
	nread   int
	inloop  int
	subject string
	dom     map[string][]cv
	dev     bool
}

func parseSpec(src string) map[string]*ast.FuncDecl {
	f, err := parser.ParseFile(token.NewFileSet(), "spec.go", "package spec\n"+src, 0)
	if err != nil {
		die("grammar specification: %v", err)
	}
	out := map[string]*ast.FuncDecl{}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			out[fd.Name.Name] = fd
		}
	}
	return out
}

func specConsts(funcs map[string]*ast.FuncDecl, root string, into map[int64]bool) {
	seen := map[string]bool{}
	var visit func(n string)
	visit = func(n string) {
		fd := funcs[n]
		if fd == nil || seen[n] {
			return
		}
		seen[n] = true
		ast.Inspect(fd, func(m ast.Node) bool {
			switch m := m.(type) {
			case *ast.BasicLit:
				if m.Kind == token.INT {
					if i, err := strconv.ParseInt(m.Value, 0, 64); err == nil {
						into[i] = true
					}
				}
			case *ast.CallExpr:
				if id, ok := m.Fun.(*ast.Ident); ok {
					visit(id.Name)
				}
			}
			return true
		})
	}
	visit(root)
}

// missingKind: an object of the layout that no function of the module stands for.
func (w *World) missingKind(funcs map[string]*ast.FuncDecl, root string) string {
	have := map[string]bool{}
	known := map[string]bool{}
	for _, nt := range nonterminals {
		known[nt.kind] = true
	}
	for f := range w.all {
		if nt, ok := nonterminals[f.Name()]; ok && inModule(f) {
			have[nt.kind] = true
		}
	}
	seen := map[string]bool{}
	missing := ""
	var visit func(n string)
	visit = func(n string) {
		if funcs[n] == nil || seen[n] {
			return
		}
		seen[n] = true
		ast.Inspect(funcs[n], func(m ast.Node) bool {
			if c, ok := m.(*ast.CallExpr); ok {
				if id, ok := c.Fun.(*ast.Ident); ok {
					if k := specReads[id.Name]; k != "" && known[k] && !have[k] {
						missing = k
					}
					visit(id.Name)
				}
			}
			return true
		})
	}
	visit(root)
	return missing
}

type senv struct {
	vars map[string]*gval
	pre  string
}

func (s *gspec) fail(format string, a ...any) {
	die("grammar specification %s: %s", s.subject, fmt.Sprintf(format, a...))
}

func (s *gspec) run(name string) {
	fd := s.funcs[name]
	if fd == nil {
		s.fail("no function %s", name)
	}
	env := &senv{vars: map[string]*gval{}}
	s.block(fd.Body.List, env, 1, &s.items)
}

func (s *gspec) block(list []ast.Stmt, env *senv, pc bdd, items *[]*sitem) []*gval {
	for _, st := range list {
		if r, ok := st.(*ast.ReturnStmt); ok {
			var vs []*gval
			for _, e := range r.Results {
				vs = append(vs, s.expr(e, env, pc, items, ""))
			}
			return vs
		}
		s.stmt(st, env, pc, items)
	}
	return nil
}

func (s *gspec) assign(env *senv, key string, v *gval, pc bdd) {
	if old, ok := env.vars[key]; ok && pc != 1 {
		var alts []galt
		for _, a := range v.alts {
			alts = append(alts, galt{s.d.and(pc, a.g), a.t})
		}
		for _, a := range old.alts {
			alts = append(alts, galt{s.d.diff(a.g, pc), a.t})
		}
		v = s.x.norm(alts)
	}
	env.vars[key] = v
}

func (s *gspec) lhs(e ast.Expr, env *senv, pc bdd, items *[]*sitem) string {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name
	case *ast.IndexExpr:
		i := s.constInt(s.expr(e.Index, env, pc, items, ""))
		return fmt.Sprintf("%s[%d]", s.lhs(e.X, env, pc, items), i)
	}
	s.fail("bad left side")
	return ""
}

// constVal is the constant a value is known to be, fractions included.
func (s *gspec) constVal(v *gval) cv {
	if len(v.alts) == 1 && v.alts[0].t.op == "const" && v.alts[0].t.c.k == 'f' {
		return v.alts[0].t.c
	}
	return cvInt(s.constInt(v))
}

func (s *gspec) constInt(v *gval) int64 {
	if len(v.alts) == 1 && v.alts[0].t.op == "const" && v.alts[0].t.c.k == 'i' {
		return v.alts[0].t.c.i
	}
	s.fail("constant expected")
	return 0
}

func (s *gspec) stmt(st ast.Stmt, env *senv, pc bdd, items *[]*sitem) {
	switch st := st.(type) {
	case *ast.AssignStmt:
		if len(st.Lhs) > 1 && len(st.Rhs) == 1 {
			vs := s.macro(st.Rhs[0].(*ast.CallExpr), env, pc, items)
			for i, l := range st.Lhs {
				if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
					continue
				}
				s.assign(env, s.lhs(l, env, pc, items), vs[i], pc)
			}
			return
		}
		for i, l := range st.Lhs {
			key := s.lhs(l, env, pc, items)
			v := s.expr(st.Rhs[i], env, pc, items, key)
			if key != "_" {
				s.assign(env, key, v, pc)
			}
		}
	case *ast.ExprStmt:
		s.expr(st.X, env, pc, items, "")
	case *ast.IfStmt:
		c := s.cond(st.Cond, env, pc, items)
		if p := s.d.and(pc, c); p != 0 {
			s.block(st.Body.List, env, p, items)
		}
		if st.Else != nil {
			if p := s.d.diff(pc, c); p != 0 {
				switch e := st.Else.(type) {
				case *ast.BlockStmt:
					s.block(e.List, env, p, items)
				default:
					s.stmt(e, env, p, items)
				}
			}
		}
	case *ast.RangeStmt:
		n := s.x.under(s.expr(st.X, env, pc, items, ""), pc)
		if len(n.alts) == 1 && n.alts[0].t.op == "const" {
			for i := int64(0); i < n.alts[0].t.c.i; i++ {
				if id, ok := st.Key.(*ast.Ident); ok && id.Name != "_" {
					env.vars[id.Name] = s.x.ci(i)
				}
				s.block(st.Body.List, env, pc, items)
			}
			return
		}
		it := &sitem{kind: "loop", g: pc, cnt: n, name: "repeat"}
		s.inloop++
		s.block(st.Body.List, env, pc, &it.loop)
		s.inloop--
		*items = append(*items, it)
	default:
		s.fail("unsupported statement %T", st)
	}
}

func (s *gspec) cond(e ast.Expr, env *senv, pc bdd, items *[]*sitem) bdd {
	return s.x.cond(s.boolv(s.expr(e, env, pc, items, "")), pc)
}

func (s *gspec) boolv(v *gval) *gval {
	var out []galt
	for _, a := range v.alts {
		t := a.t
		if (t.op == "var" && t.v.vals[0].k == 'i') || (t.op == "const" && t.c.k == 'i') {
			t = s.d.tApp("!=", "", t, s.d.tConst(cvInt(0)))
		}
		out = append(out, galt{a.g, t})
	}
	return s.x.norm(out)
}

func (s *gspec) macro(c *ast.CallExpr, env *senv, pc bdd, items *[]*sitem) []*gval {
	id, ok := c.Fun.(*ast.Ident)
	if !ok {
		s.fail("bad call")
	}
	fd := s.funcs[id.Name]
	if fd == nil {
		s.fail("no function %s", id.Name)
	}
	s.nvar["/"+id.Name]++
	e2 := &senv{vars: map[string]*gval{}, pre: env.pre + id.Name + "."}
	i := 0
	for _, p := range fd.Type.Params.List {
		for _, n := range p.Names {
			if i < len(c.Args) {
				if lit, ok := c.Args[i].(*ast.BasicLit); ok && lit.Kind == token.STRING {
					str, _ := strconv.Unquote(lit.Value)
					e2.vars[n.Name] = s.x.one(s.d.tConst(cv{k: 's', s: str}))
				} else {
					e2.vars[n.Name] = s.expr(c.Args[i], env, pc, items, "")
				}
			}
			i++
		}
	}
	return s.block(fd.Body.List, e2, pc, items)
}

func (s *gspec) name(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name
	case *ast.IndexExpr:
		return s.name(e.X)
	}
	return "value"
}

func (s *gspec) newVar(env *senv, hint string, vals []cv, full bool) *gval {
	if hint == "" {
		hint = "_"
	}
	name := env.pre + hint
	if dv := s.dom[hint]; dv != nil {
		vals, full = dv, false
	}
	s.nvar[name]++
	if n := s.nvar[name]; n > 1 {
		name = fmt.Sprintf("%s'%d", name, n)
	}
	return s.x.one(s.d.tVar(s.d.newVar(name, vals, full)))
}

func (s *gspec) f16Vals() []cv {
	var out []cv
	for _, f := range []float64{-2, -0.5, 0, 0.25, 1, 2, 300} {
		out = append(out, cv{k: 'f', f: f})
	}
	return out
}

// zeroWidth: where the width n of a field is known to be zero.
func (x *gx) zeroWidth(n *gval, pc bdd) bdd {
	z := bdd(0)
	for _, a := range x.under(n, pc).alts {
		if a.t.bad || len(a.t.vs) > 1 || (a.t.op == "const" && a.t.c.k != 'i') {
			continue
		}
		e := x.d.tApp("==", "", a.t, x.d.tConst(cvInt(0)))
		z = x.d.or(z, x.d.and(a.g, x.cond(x.one(e), 1)))
	}
	return z
}

func (s *gspec) read(env *senv, pc bdd, items *[]*sitem, kind, hint string, args []*gval) *gval {
	it := &sitem{kind: kind, args: args, g: pc, name: env.pre + hint}
	if hint == "" {
		it.name = env.pre + kind
	}
	s.nread++
	switch kind {
	case "u":
		n := int64(32)
		if a := args[0].alts; len(a) == 1 && a[0].t.op == "const" {
			n = a[0].t.c.i
		}
		if n > 62 {
			n = 62
		}
		vals, full := s.d.intVals(0, 1<<uint(n)-1, false)
		it.v = s.newVar(env, hint, vals, full)
		if z := s.x.zeroWidth(args[0], pc); s.d.and(z, pc) != 0 {
			// nothing is there when the field is zero bits wide
			it.g = s.d.diff(pc, z)
			it.v = s.x.norm(append([]galt{{z, s.d.tConst(cvInt(0))}}, galt{s.d.not(z), it.v.alts[0].t}))
		}
	case "Enum":
		vals, full := s.d.intVals(0, 63, false)
		it.v = s.newVar(env, hint, vals, full)
	case "U64":
		vals, full := s.d.intVals(0, math.MaxInt64, true)
		it.v = s.newVar(env, hint, vals, full)
	case "U32":
		set := map[int64]bool{}
		hi := int64(0)
		small := true
		for i := 0; i+1 < len(args); i += 2 {
			c, b := s.constInt(args[i]), s.constInt(args[i+1])
			top := c + 1<<uint(b) - 1
			if top > hi {
				hi = top
			}
			if b > 5 {
				small = false
			} else {
				for v := c; v <= top; v++ {
					set[v] = true
				}
			}
			set[c], set[top] = true, true
		}
		var vals []cv
		full := small
		if !small {
			more, _ := s.d.intVals(0, hi, false)
			for _, m := range more {
				set[m.i] = true
			}
		}
		var xs []int64
		for v := range set {
			xs = append(xs, v)
		}
		sort.Slice(xs, func(i, j int) bool { return xs[i] < xs[j] })
		for _, v := range xs {
			vals = append(vals, cvInt(v))
		}
		it.v = s.newVar(env, hint, vals, full)
	case "F16":
		it.v = s.newVar(env, hint, s.f16Vals(), false)
	case "U8":
		vals, full := s.d.intVals(0, 255, false)
		it.v = s.newVar(env, hint, vals, full)
	case "Sym", "varint", "Clusters", "VLC", "Hybrid":
		vals, full := s.d.intVals(0, math.MaxInt32, false)
		it.v = s.newVar(env, hint, vals, full)
	default:
		it.v = s.x.unknown()
	}
	*items = append(*items, it)
	return it.v
}

var specReads = map[string]string{"u": "u", "Bool": "u", "U32": "U32", "U64": "U64", "F16": "F16", "Enum": "Enum", "U8": "U8",
	"Align": "align", "Rest": "rest", "Varint": "varint", "Entropy": "Entropy", "Sym": "Sym", "Clusters": "Clusters", "MATree": "MATree",
	"Modular": "Modular", "ModularAt": "ModularAt", "ModularCh": "ModularCh", "QuantTable": "QuantTable", "VLC": "VLC", "Hybrid": "Hybrid", "HFCoeffs": "HFCoeffs", "ModularData": "ModularData", "Permutation": "Permutation",
	"ANSDist": "ANSDist", "PrefixDist": "PrefixDist", "HybridConfig": "HybridConfig", "Skip": "skip", "SkipBytes": "skipbytes", "Bytes": "bytes", "Bytes64": "bytes64"}

func (s *gspec) str(e ast.Expr, env *senv) string {
	switch e := e.(type) {
	case *ast.BasicLit:
		v, _ := strconv.Unquote(e.Value)
		return v
	case *ast.Ident:
		if v := env.vars[e.Name]; v != nil && v.alts[0].t.op == "const" {
			return v.alts[0].t.c.s
		}
	case *ast.BinaryExpr:
		return s.str(e.X, env) + s.str(e.Y, env)
	}
	s.fail("string expected")
	return ""
}

func (s *gspec) expr(e ast.Expr, env *senv, pc bdd, items *[]*sitem, hint string) *gval {
	x := s.x
	switch e := e.(type) {
	case *ast.ParenExpr:
		return s.expr(e.X, env, pc, items, hint)
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			i, _ := strconv.ParseInt(e.Value, 0, 64)
			return x.ci(i)
		case token.FLOAT:
			f, _ := strconv.ParseFloat(e.Value, 64)
			return x.one(s.d.tConst(cv{k: 'f', f: f}))
		case token.STRING:
			v, _ := strconv.Unquote(e.Value)
			return x.one(s.d.tConst(cv{k: 's', s: v}))
		}
	case *ast.Ident:
		switch e.Name {
		case "true", "false":
			return x.cb(e.Name == "true")
		case "nil":
			return x.nilv()
		}
		if v, ok := env.vars[e.Name]; ok {
			return v
		}
		s.fail("undefined %s", e.Name)
	case *ast.IndexExpr:
		k := s.lhs(e, env, pc, items)
		if v, ok := env.vars[k]; ok {
			return v
		}
		s.fail("undefined %s", k)
	case *ast.UnaryExpr:
		v := s.expr(e.X, env, pc, items, "")
		switch e.Op {
		case token.NOT:
			return x.app(pc, "!", "", s.boolv(v))
		case token.SUB:
			return x.app(pc, "neg", "", v)
		}
	case *ast.BinaryExpr:
		a := s.expr(e.X, env, pc, items, "")
		b := s.expr(e.Y, env, pc, items, "")
		switch e.Op {
		case token.LAND, token.LOR:
			p, q := x.cond(s.boolv(a), 1), x.cond(s.boolv(b), 1)
			r := s.d.and(p, q)
			if e.Op == token.LOR {
				r = s.d.or(p, q)
			}
			return x.norm2(r)
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return x.app(pc, e.Op.String(), "", a, b)
		}
		return x.app(pc, e.Op.String(), "int64", a, b)
	case *ast.CallExpr:
		id := e.Fun.(*ast.Ident)
		arg := func(i int) *gval { return s.expr(e.Args[i], env, pc, items, "") }
		switch id.Name {
		case "Out":
			path := s.str(e.Args[0], env)
			if n := len(e.Args) - 2; n > 0 {
				var is []any
				for i := 1; i <= n; i++ {
					is = append(is, s.constInt(arg(i)))
				}
				path = fmt.Sprintf(path, is...)
			}
			v := arg(len(e.Args) - 1)
			if s.inloop == 0 {
				s.outs = append(s.outs, sout{path, v, pc})
			}
			return v
		case "Keep":
			of, v := arg(0), arg(1)
			k := skeep{env.pre + s.name(e.Args[0]), map[int]bool{}, v, pc}
			for _, a := range of.alts {
				for _, u := range a.t.vs {
					k.vars[u.v.id] = true
				}
			}
			s.keeps = append(s.keeps, k)
			return v
		case "Reject":
			s.reject = s.d.or(s.reject, s.d.and(pc, s.cond(e.Args[0], env, pc, items)))
			return x.nilv()
		case "Unsupported":
			s.unsup = s.d.or(s.unsup, s.d.and(pc, s.cond(e.Args[0], env, pc, items)))
			return x.nilv()
		case "In":
			name := s.str(e.Args[0], env)
			vals, full := s.d.intVals(s.constInt(arg(1)), s.constInt(arg(2)), false)
			return x.one(s.d.tVar(s.d.newVar(name, vals, full)))
		case "Deviates":
			return x.cb(s.dev)
		case "Vals", "Domain":
			name := s.str(e.Args[0], env)
			var vals []cv
			for i := 1; i < len(e.Args); i++ {
				vals = append(vals, s.constVal(arg(i)))
			}
			if id.Name == "Domain" {
				if s.dom == nil {
					s.dom = map[string][]cv{}
				}
				s.dom[name] = vals
				return x.nilv()
			}
			return x.one(s.d.tVar(s.d.newVar(name, vals, false)))
		case "InBool":
			return x.one(s.d.tVar(s.d.newVar(s.str(e.Args[0], env), []cv{cvBool(false), cvBool(true)}, true)))
		case "Opaque":
			return x.one(s.d.tOpq(s.str(e.Args[0], env)))
		case "Global":
			n := s.str(e.Args[0], env)
			return x.slice(x.symObj("global:"+n+"[]", types.NewSlice(types.Typ[types.Float32])), "", 0, x.unknown())
		case "If":
			c := s.cond(e.Args[0], env, pc, items)
			var alts []galt
			for _, a := range arg(1).alts {
				alts = append(alts, galt{s.d.and(c, a.g), a.t})
			}
			for _, a := range arg(2).alts {
				alts = append(alts, galt{s.d.diff(a.g, c), a.t})
			}
			return x.norm(alts)
		case "Unsign":
			return x.app(pc, "fn:unsign", "", arg(0))
		case "CeilLog2":
			return x.app(pc, "fn:ceillog2", "", arg(0))
		case "CeilDiv":
			a, b := arg(0), arg(1)
			return x.app(pc, "/", "int64", x.app(pc, "-", "int64", x.app(pc, "+", "int64", a, b), x.ci(1)), b)
		case "Max", "Min":
			var vs []*gval
			for i := range e.Args {
				vs = append(vs, arg(i))
			}
			return x.app(pc, strings.ToLower(id.Name), "", vs...)
		case "Fn":
			var vs []*gval
			for i := range e.Args[1:] {
				vs = append(vs, arg(i+1))
			}
			return x.app(pc, "fn:"+s.str(e.Args[0], env), "", vs...)
		case "Float32":
			return x.app(pc, "conv", "float32", arg(0))
		}
		if k, ok := specReads[id.Name]; ok {
			var vs []*gval
			for i := range e.Args {
				vs = append(vs, arg(i))
			}
			if id.Name == "Bool" {
				vs = []*gval{x.ci(1)}
			}
			return s.read(env, pc, items, k, hint, vs)
		}
		vs := s.macro(e, env, pc, items)
		if len(vs) > 0 {
			return vs[0]
		}
		return x.nilv()
	}
	s.fail("unsupported expression %T", e)
	return nil
}

func (x *gx) norm2(r bdd) *gval {
	switch r {
	case 0:
		return x.cb(false)
	case 1:
		return x.cb(true)
	}
	return &gval{[]galt{{r, x.d.tConst(cvBool(true))}, {x.d.not(r), x.d.tConst(cvBool(false))}}}
}

// ---- matching ----

type problem struct {
	g     bdd
	pos   string
	key   string
	msg   string
	fuzzy bool // found where the guard was only known approximately
}

type mctx struct {
	items []*sitem
	dummy bool
	pc    bdd
	name  string
	pos   string
}

type gmatch struct {
	s     *gspec
	x     *gx
	d     *dd
	nspec int // variables known to the specification
	stack []*mctx
	probs []problem
	nread int
	nloop int
	ncmp  int
	undet int
	fuzzy bool
}

func (m *gmatch) codeOnly(v *gvar) bool { return v.id >= m.nspec }

func (m *gmatch) top() *mctx { return m.stack[len(m.stack)-1] }

func (m *gmatch) prob(g bdd, pos, key, format string, a ...any) {
	m.probs = append(m.probs, problem{g, pos, key, fmt.Sprintf(format, a...), m.fuzzy})
}

func showArgs(kind string, args []*gval) string {
	if kind == "u" {
		kind = "Bits"
	}
	var out []string
	for _, a := range args {
		out = append(out, showVal(a))
	}
	return kind + "(" + strings.Join(out, ",") + ")"
}

func showVal(v *gval) string {
	if len(v.alts) == 1 {
		return showTerm(v.alts[0].t)
	}
	var out []string
	for i, a := range v.alts {
		if i == 3 {
			out = append(out, "…")
			break
		}
		out = append(out, showTerm(a.t))
	}
	return strings.Join(out, " or ")
}

func showTerm(t *gterm) string {
	switch t.op {
	case "const":
		return t.c.String()
	case "opq", "ptr", "slice", "agg", "fn":
		return "…"
	}
	k := canonKey(t)
	if len(k) > 120 {
		k = k[:120] + "…"
	}
	return k
}

// cmp compares a value of the code with the one expected.
func (m *gmatch) cmp(code, spec *gval, care bdd) (int, bdd, string) {
	type pair struct {
		a, b *gterm
		g    bdd
	}
	res := 0
	var open []pair
	bad := bdd(0)
	for _, a := range code.alts {
		ga := care
		if len(code.alts) > 1 {
			ga = m.d.and(care, a.g)
		}
		if ga == 0 {
			continue
		}
		for _, b := range spec.alts {
			g := ga
			if len(spec.alts) > 1 {
				g = m.d.and(ga, b.g)
			}
			if g == 0 {
				continue
			}
			r, wit := m.differ(a.t, b.t, g)
			if r == 1 {
				if !m.free(g) {
					return 1, g, wit
				}
				open = append(open, pair{a.t, b.t, g})
				bad = m.d.or(bad, g)
			}
			if r == -1 {
				res = -1
			}
		}
	}
	if len(open) == 0 {
		return res, 0, ""
	}
	// the code chooses by something the layout does not know: different only
	// where every choice is
	ok := m.d.exists(m.d.diff(care, bad), m.codeOnly)
	for _, p := range open {
		g := m.d.diff(m.d.exists(p.g, m.codeOnly), ok)
		if g == 0 {
			continue
		}
		if r, wit := m.differ(p.a, p.b, g); r == 1 {
			return 1, g, wit
		}
	}
	return -1, 0, ""
}

func (m *gmatch) differ(a, b *gterm, g bdd) (int, string) {
	if a == b {
		return 0, ""
	}
	glob := func(t *gterm) bool { return t.op == "slice" && strings.HasPrefix(t.o.sym, "global:") }
	if glob(a) && glob(b) && a.o != b.o {
		return 1, strings.TrimSuffix(strings.TrimPrefix(a.o.sym, "global:"), "[]") + " instead of " + strings.TrimSuffix(strings.TrimPrefix(b.o.sym, "global:"), "[]")
	}
	if b.op == "nil" && (a.op == "ptr" || a.op == "slice") && a.o.sym == "" {
		return 1, "set instead of nil"
	}
	for _, v := range a.vs {
		if m.codeOnly(v.v) {
			return -1, ""
		}
	}
	return m.d.differ(a, b, g)
}

func (m *gmatch) free(g bdd) bool {
	for v := range m.d.support(g) {
		if m.codeOnly(m.d.vars[v]) {
			return true
		}
	}
	return false
}

func (m *gmatch) freeNames(g bdd) string {
	var out []string
	for v := range m.d.support(g) {
		if m.codeOnly(m.d.vars[v]) {
			out = append(out, m.d.vars[v].name)
		}
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

// canonRead turns reads that consume and mean the same into one form.
func (m *gmatch) canonRead(kind string, args []*gval) (string, []*gval, func(*gval, bdd) *gval) {
	if kind != "U32" || len(args) != 8 {
		return kind, args, nil
	}
	var c [8]int64
	for i, a := range args {
		if len(a.alts) != 1 || a.alts[0].t.op != "const" || a.alts[0].t.c.k != 'i' {
			return kind, args, nil
		}
		c[i] = a.alts[0].t.c.i
	}
	if c == [8]int64{0, 0, 1, 0, 2, 4, 18, 6} {
		return "Enum", nil, nil
	}
	if c[1] == 0 && c[3] == 0 && c[5] == 0 && c[7] == 0 {
		// a choice of four constants is two bits
		return "u", []*gval{m.x.ci(2)}, func(v *gval, pc bdd) *gval {
			return m.x.lift(pc, func(ts []*gterm) *gval {
				var alts []galt
				for i := int64(0); i < 4; i++ {
					alts = append(alts, galt{m.d.atom(m.d.tApp("==", "", ts[0], m.d.tConst(cvInt(i)))), m.d.tConst(cvInt(c[2*i]))})
				}
				return m.x.norm(alts)
			}, v)
		}
	}
	return kind, args, nil
}

func (m *gmatch) read(kind string, args []*gval, pc bdd, pos string) *gval {
	k, as, back := m.canonRead(kind, args)
	zero := bdd(0)
	if k == "u" && len(as) == 1 && !m.top().dummy {
		if zero = m.x.zeroWidth(as[0], pc); zero != 0 && m.d.and(zero, pc) != 0 && !m.free(zero) {
			if pc = m.d.diff(pc, zero); pc == 0 {
				return m.x.ci(0)
			}
		} else {
			zero = 0
		}
	}
	v := m.read1(k, as, pc, pos)
	if zero != 0 {
		alts := []galt{{zero, m.d.tConst(cvInt(0))}}
		for _, a := range v.alts {
			alts = append(alts, galt{m.d.diff(a.g, zero), a.t})
		}
		v = m.x.norm(alts)
	}
	if back != nil {
		v = back(v, pc)
	}
	return v
}

func (m *gmatch) read1(kind string, args []*gval, pc bdd, pos string) *gval {
	m.nread++
	switch kind {
	case "Bool":
		kind, args = "u", []*gval{m.x.ci(1)}
	case "u8":
		kind, args = "u", []*gval{m.x.ci(8)}
	}
	cx := m.top()
	if cx.dummy {
		return m.x.unknown()
	}
	g := pc
	fuzzy := m.free(g)
	m.fuzzy = fuzzy
	var gmin bdd
	if fuzzy {
		gmin = m.d.not(m.d.exists(m.d.not(g), m.codeOnly))
		g = m.d.exists(g, m.codeOnly)
	}
	var alts []galt
	prior := bdd(0)
	for _, it := range cx.items {
		if it.g == 0 {
			continue
		}
		ns := m.d.diff(it.g, prior)
		o := m.d.and(g, ns)
		if o == 0 {
			prior = m.d.or(prior, it.g)
			continue
		}
		if it.kind == "rest" {
			alts = append(alts, galt{o, m.x.unknown().alts[0].t})
			g = m.d.diff(g, o)
			if g == 0 || fuzzy {
				g = 0
				break
			}
			prior = m.d.or(prior, it.g)
			continue
		}
		if fuzzy && m.d.diff(gmin, ns) != 0 {
			panic(giveUp{"the condition of a read is out of reach at " + pos + ": " + m.freeNames(pc)})
		}
		if it.kind != kind {
			if it.kind == "loop" || kind == "loop" {
				m.prob(o, pos, "read:"+it.name, "reads %s where the format repeats a group (%s)", showArgs(kind, args), m.d.witness(o))
				return m.x.unknown()
			}
			m.prob(o, pos, "read:"+it.name, "reads %s where the format has %s as %s (%s)", showArgs(kind, args), it.name, showArgs(it.kind, it.args), m.d.witness(o))
		} else if len(args) != len(it.args) && kind != "Entropy" && kind != "Sym" {
			m.prob(o, pos, "read:"+it.name, "reads %s where the format has %s as %s", showArgs(kind, args), it.name, showArgs(it.kind, it.args))
		} else {
			for i := range args {
				if i >= len(it.args) {
					break
				}
				m.ncmp++
				switch r, _, wit := m.cmp(args[i], it.args[i], o); r {
				case 1:
					m.prob(o, pos, "read:"+it.name, "reads %s where the format has %s as %s (%s; %s)", showArgs(kind, args), it.name, showArgs(it.kind, it.args), wit, m.d.witness(o))
				case -1:
					m.undet++
				}
			}
		}
		it.g = m.d.diff(it.g, o)
		g = m.d.diff(g, o)
		for _, a := range it.v.alts {
			alts = append(alts, galt{m.d.and(o, a.g), a.t})
		}
		if g == 0 || fuzzy {
			g = 0
			break
		}
		prior = m.d.or(prior, it.g)
	}
	if g != 0 {
		next := "nothing more"
		m.prob(g, pos, "extra:"+pos2fn(pos), "reads %s where the format has %s (%s)", showArgs(kind, args), next, m.d.witness(g))
		alts = append(alts, galt{g, m.x.unknown().alts[0].t})
	}
	if len(alts) == 0 {
		return m.x.unknown()
	}
	return m.x.norm(alts)
}

// pos2fn strips the line from a position, for stable keys.
func pos2fn(pos string) string {
	if i := strings.LastIndex(pos, ":"); i > 0 {
		return pos[:i]
	}
	return pos
}

func (m *gmatch) enterLoop(pc bdd, count *gval, pos string) {
	m.nloop++
	cx := m.top()
	if cx.dummy {
		m.stack = append(m.stack, &mctx{dummy: true})
		return
	}
	g := pc
	m.fuzzy = m.free(g)
	if m.fuzzy {
		g = m.d.exists(g, m.codeOnly)
	}
	prior := bdd(0)
	for _, it := range cx.items {
		if it.g == 0 {
			continue
		}
		ns := m.d.diff(it.g, prior)
		o := m.d.and(g, ns)
		if o == 0 {
			prior = m.d.or(prior, it.g)
			continue
		}
		if it.kind == "rest" {
			m.stack = append(m.stack, &mctx{dummy: true})
			return
		}
		known := count != nil
		if known {
			for _, a := range count.alts {
				if a.t.bad {
					known = false
				}
				for _, v := range a.t.vs {
					if m.codeOnly(v.v) {
						known = false
					}
				}
			}
		}
		if it.kind != "loop" || m.d.diff(g, o) != 0 {
			if !known {
				panic(giveUp{"the number of rounds of the loop at " + pos + " is out of reach"})
			}
			m.prob(o, pos, "loop:"+it.name, "reads in a loop of %s rounds where the format has %s (%s)", showVal(count), it.name, m.d.witness(o))
			m.stack = append(m.stack, &mctx{dummy: true})
			return
		}
		if known {
			m.ncmp++
			switch r, _, wit := m.cmp(count, it.cnt, o); r {
			case 1:
				m.prob(o, pos, "count:"+loopName(it), "repeats the group of %s %s times where the format repeats it %s times (%s)", loopName(it), showVal(count), showVal(it.cnt), wit)
			case -1:
				m.undet++
			}
		} else {
			m.undet++
		}
		sub := &mctx{pc: o, name: loopName(it), pos: pos}
		for _, b := range it.loop {
			c := *b
			c.g = m.d.and(c.g, o)
			sub.items = append(sub.items, &c)
		}
		it.g = m.d.diff(it.g, o)
		m.stack = append(m.stack, sub)
		return
	}
	m.prob(g, pos, "extra:"+pos2fn(pos), "reads in a loop where the format has nothing more (%s)", m.d.witness(g))
	m.stack = append(m.stack, &mctx{dummy: true})
}

func loopName(it *sitem) string {
	if len(it.loop) > 0 {
		return it.loop[0].name
	}
	return it.name
}

func (m *gmatch) exitLoop() {
	cx := m.top()
	m.stack = m.stack[:len(m.stack)-1]
	for _, it := range cx.items {
		if it.g != 0 {
			m.prob(it.g, cx.pos, "missing:"+it.name, "does not read %s (%s) in a repeated group", it.name, showArgs(it.kind, it.args))
			break
		}
	}
}

// ---- one unit ----

type gunit struct {
	fn     string // package and function, "frame.NewFrameHeaderWithReader"
	spec   string // function of the specification
	dev    string // name of a known departure from the format, switched on by Deviates
	opaque []string
	label  string  // what the unit is about, when it is not all of the function
	exact  bool    // leaves are named by the way to them from the arguments, not by type
	raw    bool    // the bit reader itself: bytes come from an io.Reader
	make   string  // function that makes the receiver
	before []gcall // calls on it before fn
	then   bool    // the unit is the function fn returns, given then0, then1, …
}

// gcall is a call with constant arguments.
type gcall struct {
	fn   string
	args []int64
}

type unitResult struct {
	unit    string
	probs   []problem
	reads   int
	loops   int
	cmps    int
	undet   int
	outs    int
	fns     int
	sites   int
	why     string
	rejects int
}

func (w *World) checkUnit(u gunit, funcs map[string]*ast.FuncDecl, dev bool) (res unitResult) {
	res.unit = u.fn
	i := strings.Index(u.fn, ".")
	f := w.Fn(u.fn[:i], u.fn[i+1:])
	if f == nil || len(f.Blocks) == 0 {
		res.why = "not found"
		return
	}
	if fd := funcs[u.spec]; fd != nil && usesArgs(fd) {
		if why := sigChanged(u.fn, f); why != "" {
			res.why = why
			return
		}
	}
	if k := w.missingKind(funcs, u.spec); k != "" {
		res.why = "no function that reads " + k
		return
	}
	d := newDD()
	d.until = time.Now().Add(unitTime)
	cs := map[int64]bool{}
	specConsts(funcs, u.spec, cs)
	w.codeConsts(f, cs)
	for c := range cs {
		d.consts = append(d.consts, c)
	}
	sort.Slice(d.consts, func(i, j int) bool { return d.consts[i] < d.consts[j] })
	m := &gmatch{d: d}
	x := newGX(w, d, m)
	m.x = x
	x.opaque = map[string]bool{}
	x.exact, x.raw = u.exact, u.raw
	for _, o := range u.opaque {
		x.opaque[o] = true
	}
	s := &gspec{x: x, d: d, funcs: funcs, nvar: map[string]int{}, subject: u.spec, dev: dev}
	m.s = s
	defer func() {

		if r := recover(); r != nil {
			g, ok := r.(giveUp)
			if !ok {
				panic(r)
			}
			res.why = g.why
			res.probs = nil
			// what was read at the wrong place before that stays wrong
			for _, p := range m.probs {
				if gdebug {
					println("prob", p.msg, m.free(p.g), p.fuzzy, d.diff(d.diff(p.g, s.reject), s.unsup))
				}
				if !m.free(p.g) && !p.fuzzy && d.diff(d.diff(p.g, s.reject), s.unsup) != 0 {
					res.probs = append(res.probs, p)
					break
				}
			}
		}
	}()
	s.run(u.spec)
	m.nspec = len(d.vars)
	m.stack = []*mctx{{items: s.items, pc: 1}}
	var args []*gval
	for i, p := range f.Params {
		args = append(args, x.paramVal(i, p, f))
	}
	start := gstate{d.not(s.unsup), gmem{}}
	x.rawPC = start.pc
	if u.make != "" {
		args[0], start = w.prepare(x, u, start)
	}
	vs, st0, rets := x.call(f, args, nil, start, nil)
	if u.then {
		// the unit is the function f returns
		if len(vs) == 0 || len(vs[0].alts) != 1 || vs[0].alts[0].t.op != "fn" {
			panic(giveUp{"no function is returned"})
		}
		fn := vs[0].alts[0].t.fn
		var as []*gval
		for i, p := range fn.f.Params {
			as = append(as, x.symVal(fmt.Sprintf("then%d", i), p.Type()))
		}
		f, args = fn.f, append(as, args...)
		_, _, rets = x.call(f, as, fn.bind, st0, nil)
	}
	// accepted streams: returns without an error
	var acc bdd
	var sts []gstate
	var pcs []bdd
	var vals []*gval
	ei := -1
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if isErrorType(f.Signature.Results().At(i).Type()) {
			ei = i
		}
	}
	for _, r := range rets {
		g := r.st.pc
		if ei >= 0 {
			ok := bdd(0)
			for _, a := range r.vals[ei].alts {
				if a.t.op != "nonnil" {
					ok = d.or(ok, a.g)
				}
			}
			g = d.and(g, ok)
		}
		if g == 0 {
			continue
		}
		acc = d.or(acc, g)
		r.st.pc = g
		sts = append(sts, r.st)
		pcs = append(pcs, g)
		if len(r.vals) > 0 {
			vals = append(vals, r.vals[0])
		}
	}
	accMax := acc
	if m.free(acc) {
		accMax = d.exists(acc, m.codeOnly)
	}
	accMin := d.not(d.exists(d.not(acc), m.codeOnly))
	care := d.diff(d.diff(accMax, s.reject), s.unsup)
	if gdebug {
		for _, r := range rets {
			if len(r.vals) > 0 {
				println("ret", d.witness(r.st.pc), x.dump(r.vals[len(r.vals)-1]))
			}
		}
		println("reject", d.witness(s.reject))
	}
	for _, it := range m.stack[0].items {
		if g := d.and(it.g, care); g != 0 && it.kind != "rest" {
			m.prob(g, w.Pos(f.Pos()), "missing:"+it.name, "never reads %s, which the format has as %s (%s)", it.name, showItem(it), d.witness(g))
			break
		}
	}
	for _, p := range m.probs {
		if d.and(p.g, care) != 0 {
			res.probs = append(res.probs, p)
			break // what follows a first difference is read at the wrong place anyway
		}
	}
	if len(res.probs) == 0 && len(sts) > 0 {
		if g := d.diff(d.and(accMin, s.reject), s.unsup); g != 0 {
			res.probs = append(res.probs, problem{g, w.Pos(f.Pos()), "accepts", "accepts a stream the format forbids: " + d.witness(g), false})
		}
		if g := d.diff(d.diff(d.not(accMax), s.reject), s.unsup); g != 0 {
			res.probs = append(res.probs, problem{g, w.Pos(f.Pos()), "rejects", "rejects a stream the format allows: " + d.witness(g), false})
		}
		st := x.mergeStates(sts)
		var root *gval
		if len(vals) == len(sts) && len(vals) > 0 {
			root = x.mergeVals(pcs, vals)
		}
		rootT := f.Signature.Results().At(0).Type()
		if f.Signature.Recv() != nil && isErrorType(rootT) {
			// a method that fills in its receiver
			root, rootT = args[0], f.Params[0].Type()
		}
		for _, o := range s.outs {
			v := (*gval)(nil)
			if strings.HasPrefix(o.path, "@") {
				// what an argument points to afterwards
				if i := int(o.path[1] - '0'); i < len(args) && i < len(f.Params) {
					v = x.resolve(args[i], f.Params[i].Type(), o.path[3:], st)
				}
			} else if root != nil {
				v = x.resolve(root, rootT, o.path, st)
			}
			if v == nil {
				continue
			}
			if gdebug {
				println("root", x.dump(root))
			}
			res.outs++
			g := d.and(d.and(o.g, care), acc)
			switch r, h, wit := m.cmp(x.under(v, g), x.under(o.v, g), g); r {
			case 1:
				res.probs = append(res.probs, problem{h, w.Pos(f.Pos()), "field:" + o.path, fmt.Sprintf("%s is not what the format says: %s (%s)", outName(o.path), wit, d.witness(h)), false})
			case -1:
				res.undet++
				if gdebug {
					println("undet", o.path, x.dump(x.under(v, g)), "//", x.dump(x.under(o.v, g)))
				}
			}
		}
	}
	if len(res.probs) == 0 {
		m.checkKeeps(care, &res)
	}
	res.reads, res.loops, res.cmps = m.nread, m.nloop, m.ncmp
	res.undet += m.undet
	res.fns = len(x.nfn)
	res.sites = len(x.pos)
	return
}

// prepare makes the receiver of a unit and does the calls that come before.
func (w *World) prepare(x *gx, u gunit, st gstate) (*gval, gstate) {
	mk := w.fnNamed(u.make)
	if mk == nil || len(mk.Blocks) == 0 {
		panic(giveUp{"no " + u.make})
	}
	var args []*gval
	for i, p := range mk.Params {
		args = append(args, x.symVal(fmt.Sprintf("make%d", i), p.Type()))
	}
	vs, st, _ := x.call(mk, args, nil, st, nil)
	if len(vs) == 0 || len(vs[0].alts) != 1 {
		panic(giveUp{"no object from " + u.make})
	}
	for _, c := range u.before {
		f := w.fnNamed(c.fn)
		if f == nil || len(f.Params) != len(c.args)+1 {
			panic(giveUp{"no " + c.fn})
		}
		as := []*gval{vs[0]}
		for _, a := range c.args {
			as = append(as, x.ci(a))
		}
		_, st, _ = x.call(f, as, nil, st, nil)
	}
	return vs[0], st
}

// checkKeeps compares what is stored of a value that was read with what the
// format makes of it. One of the stores has to be right; a difference is only
// reported when every one of them is known to be wrong.
func (m *gmatch) checkKeeps(care bdd, res *unitResult) {
	for _, k := range m.s.keeps {
		g := m.d.and(k.g, care)
		if g == 0 {
			continue
		}
		found, open := false, false
		var first *problem
		for _, st := range m.x.kept {
			dep := false
			for _, a := range st.v.alts {
				for _, u := range a.t.vs {
					if k.vars[u.v.id] {
						dep = true
					}
				}
			}
			if !dep {
				continue
			}
			sg := st.g
			if m.free(sg) {
				sg = m.d.exists(sg, m.codeOnly)
			}
			c := m.d.and(g, sg)
			if c == 0 {
				continue
			}
			switch r, h, wit := m.cmp(m.x.under(st.v, c), m.x.under(k.v, c), c); r {
			case 1:
				if m.d.and(m.d.exists(m.x.keptOpen[st.to], m.codeOnly), c) != 0 {
					open = true
				} else if first == nil {
					first = &problem{h, st.pos, "keep:" + k.name, fmt.Sprintf("keeps something else of %s than the format says: %s (%s)", k.name, wit, m.d.witness(h)), false}
				}
			case -1:
				open = true
			default:
				found = true
			}
			if found {
				break
			}
		}
		m.ncmp++
		switch {
		case found:
		case open || first == nil:
			m.undet++
		default:
			res.probs = append(res.probs, *first)
		}
	}
}

func outName(path string) string {
	if path == "" {
		return "the result"
	}
	return "field " + strings.TrimLeft(path, "@0123456789.")
}

func showItem(it *sitem) string {
	if it.kind == "loop" {
		return "a repeated group"
	}
	return showArgs(it.kind, it.args)
}

func (x *gx) paramVal(i int, p *ssa.Parameter, f *ssa.Function) *gval {
	t := p.Type()
	if isBasic(t) {
		return x.symVal(fmt.Sprintf("arg%d", i), t)
	}
	return x.symVal(fmt.Sprintf("arg%d", i), t)
}

// codeConsts collects the integer constants of the functions f may run.
func (w *World) codeConsts(f *ssa.Function, into map[int64]bool) {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function, depth int)
	visit = func(f *ssa.Function, depth int) {
		if seen[f] || depth > 6 || !inModule(f) || (depth > 0 && nonterminals[f.Name()].kind != "") {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if bo, ok := in.(*ssa.BinOp); ok {
					for _, v := range []ssa.Value{bo.X, bo.Y} {
						if c, ok := v.(*ssa.Const); ok && c.Value != nil && len(into) < 70 {
							if i, exact := constInt64(c); exact {
								into[i] = true
							}
						}
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						visit(g, depth+1)
					}
				}
			}
		}
	}
	visit(f, 0)
}

// resolve follows a path of fields from a value.
func (x *gx) resolve(v *gval, t types.Type, path string, st gstate) *gval {
	var comps []string
	for _, p := range strings.Split(path, ".") {
		for {
			i := strings.Index(p, "[")
			if i < 0 {
				if p != "" {
					comps = append(comps, "."+p)
				}
				break
			}
			if i > 0 {
				comps = append(comps, "."+p[:i])
			}
			j := strings.Index(p, "]")
			comps = append(comps, p[i:j+1])
			p = p[j+1:]
		}
	}
	for _, c := range comps {
		if c == ".len()" {
			return x.lift(st.pc, func(ts []*gterm) *gval {
				switch ts[0].op {
				case "slice":
					return ts[0].ln
				case "nil":
					return x.ci(0)
				}
				return x.unknown()
			}, v)
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
			if c[0] == '.' {
				sst, ok := t.Underlying().(*types.Struct)
				if !ok {
					return nil
				}
				i := fieldIndexOf(sst, c[1:])
				if i < 0 {
					return nil
				}
				ft := sst.Field(i).Type()
				addr := x.lift(st.pc, func(ts []*gterm) *gval {
					if ts[0].op == "ptr" {
						return x.ptr(ts[0].o, ts[0].path+c)
					}
					return x.unknown()
				}, v)
				v = x.loadPtr(addr, st, ft)
				t = ft
				continue
			}
			return nil
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			i := fieldIndexOf(u, c[1:])
			if i < 0 {
				return nil
			}
			v = x.field(v, i, st.pc)
			t = u.Field(i).Type()
		case *types.Slice:
			k, err := strconv.Atoi(strings.Trim(c, "[]"))
			if err != nil {
				return nil
			}
			el := u.Elem()
			addr := x.lift(st.pc, func(ts []*gterm) *gval {
				if ts[0].op == "slice" && ts[0].off >= 0 {
					return x.ptr(ts[0].o, fmt.Sprintf("%s[%d]", ts[0].path, ts[0].off+k))
				}
				return x.unknown()
			}, v)
			v = x.loadPtr(addr, st, el)
			t = el
		case *types.Array:
			k, err := strconv.Atoi(strings.Trim(c, "[]"))
			if err != nil {
				return nil
			}
			v = x.field(v, k, st.pc)
			t = u.Elem()
		default:
			return nil
		}
	}
	return v
}

func fieldIndexOf(s *types.Struct, name string) int {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func constInt64(c *ssa.Const) (int64, bool) {
	if c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

var gdebug = os.Getenv("GDEBUG") != ""

func (x *gx) dump(v *gval) string {
	var out []string
	for _, a := range v.alts {
		out = append(out, "{"+x.d.witness(a.g)+"} "+a.t.key)
	}
	return strings.Join(out, " | ")
}
