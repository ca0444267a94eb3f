package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

// P22: the constant tables. Literals are folded from the type-checked syntax:
// composite literals, constructor calls and concatenations of constants become
// flat sequences, records of a struct type become field -> sequence. They are
// compared with the values of the format (tables.txt); names, nesting, package
// and the place of a table do not matter, unless they are all there is to tell
// which table it is.

//go:embed tables.txt
var goldText string

type tleaf struct {
	known bool
	num   float64
	str   string
	isStr bool
	pos   token.Pos
}

type tcand struct {
	leaves []tleaf
	name   string // variable it initialises or is part of
	fn     string // function it stands in
	label  string // constant index or case it is stored under
	pos    token.Pos
	outer  bool
	rec    *trec
}

type trec struct {
	typ    *types.Named
	fields map[string][]tleaf
	set    map[string]bool
	label  string
	pos    token.Pos
}

type tfold struct {
	w     *World
	inits map[types.Object]ast.Expr
	infos map[types.Object]*packages.Package
	funcs map[types.Object]*ast.FuncDecl
	info  map[ast.Node]*types.Info
	reass map[types.Object]bool
	depth int
}

func (tf *tfold) flat(info *types.Info, e ast.Expr) []tleaf {
	tf.depth++
	defer func() { tf.depth-- }()
	unknown := []tleaf{{pos: e.Pos()}}
	if tf.depth > 30 {
		return unknown
	}
	tv := info.Types[e]
	if tv.Value != nil {
		switch tv.Value.Kind() {
		case constant.Int, constant.Float:
			f, _ := constant.Float64Val(constant.ToFloat(tv.Value))
			return []tleaf{{known: true, num: f, pos: e.Pos()}}
		case constant.String:
			return []tleaf{{known: true, isStr: true, str: constant.StringVal(tv.Value), pos: e.Pos()}}
		case constant.Bool:
			n := 0.0
			if constant.BoolVal(tv.Value) {
				n = 1
			}
			return []tleaf{{known: true, num: n, pos: e.Pos()}}
		}
		return unknown
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return tf.flat(info, e.X)
	case *ast.UnaryExpr:
		if e.Op == token.AND {
			return tf.flat(info, e.X)
		}
	case *ast.StarExpr:
		return tf.flat(info, e.X)
	case *ast.SliceExpr:
		if e.Low == nil && e.High == nil && e.Max == nil {
			return tf.flat(info, e.X)
		}
	case *ast.Ident:
		if e.Name == "nil" {
			return nil
		}
		if o := info.Uses[e]; o != nil && !tf.reass[o] {
			if x, ok := tf.inits[o]; ok {
				return tf.flat(tf.infos[o].TypesInfo, x)
			}
		}
	case *ast.SelectorExpr:
		if o := info.Uses[e.Sel]; o != nil && !tf.reass[o] {
			if x, ok := tf.inits[o]; ok {
				return tf.flat(tf.infos[o].TypesInfo, x)
			}
		}
	case *ast.CompositeLit:
		t := tv.Type
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			vals := make([][]tleaf, u.NumFields())
			set := make([]bool, u.NumFields())
			for i, x := range e.Elts {
				if kv, ok := x.(*ast.KeyValueExpr); ok {
					id, ok := kv.Key.(*ast.Ident)
					if !ok {
						return unknown
					}
					for j := 0; j < u.NumFields(); j++ {
						if u.Field(j).Name() == id.Name {
							vals[j], set[j] = tf.flat(info, kv.Value), true
						}
					}
				} else if i < len(vals) {
					vals[i], set[i] = tf.flat(info, x), true
				}
			}
			var out []tleaf
			for j := range vals {
				if !set[j] {
					if _, ok := u.Field(j).Type().Underlying().(*types.Basic); ok {
						out = append(out, tleaf{known: true, pos: e.Pos()})
					}
					continue
				}
				out = append(out, vals[j]...)
			}
			return out
		case *types.Array, *types.Slice:
			at := map[int64][]tleaf{}
			next, top := int64(0), int64(0)
			for _, x := range e.Elts {
				v := x
				if kv, ok := x.(*ast.KeyValueExpr); ok {
					k := info.Types[kv.Key].Value
					n, ok := constant.Int64Val(k)
					if k == nil || !ok {
						return unknown
					}
					next, v = n, kv.Value
				}
				at[next] = tf.flat(info, v)
				next++
				top = max(top, next)
			}
			if int64(len(at)) != top {
				return unknown
			}
			var out []tleaf
			for i := int64(0); i < top; i++ {
				out = append(out, at[i]...)
			}
			return out
		case *types.Map:
			type kv struct {
				k string
				v []tleaf
			}
			var kvs []kv
			for _, x := range e.Elts {
				p, ok := x.(*ast.KeyValueExpr)
				if !ok || info.Types[p.Key].Value == nil {
					return unknown
				}
				kvs = append(kvs, kv{fmt.Sprintf("%20s", info.Types[p.Key].Value.ExactString()), tf.flat(info, p.Value)})
			}
			sort.Slice(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
			var out []tleaf
			for _, x := range kvs {
				out = append(out, x.v...)
			}
			return out
		}
	case *ast.CallExpr:
		if ft := info.Types[e.Fun]; ft.IsType() && len(e.Args) == 1 {
			return tf.flat(info, e.Args[0])
		} else if ft.IsBuiltin() {
			if id, ok := ast.Unparen(e.Fun).(*ast.Ident); !ok || id.Name != "append" {
				return unknown
			}
		} else if f := calleeObj(info, e); f != nil {
			switch f.FullName() {
			case "slices.Concat", "slices.Clone":
			default:
				if f.Pkg() == nil || tf.w.pkgs[f.Pkg().Path()] == nil || tf.ctor(f) == nil {
					return unknown
				}
			}
		} else {
			return unknown
		}
		var out []tleaf
		for _, a := range e.Args {
			out = append(out, tf.flat(info, a)...)
		}
		return out
	}
	return unknown
}

func tableNamed(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	return namedOf(t)
}

func calleeObj(info *types.Info, c *ast.CallExpr) *types.Func {
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		o, _ := info.Uses[f].(*types.Func)
		return o
	case *ast.SelectorExpr:
		o, _ := info.Uses[f.Sel].(*types.Func)
		return o
	}
	return nil
}

// ctor: a function whose result is a struct it fills; gives the one literal of
// that struct and the fields assigned from parameters.
func (tf *tfold) ctor(f *types.Func) map[string]ast.Expr {
	d := tf.funcs[f.Origin()]
	sig := f.Type().(*types.Signature)
	if d == nil || d.Body == nil || sig.Results().Len() == 0 {
		return nil
	}
	n := tableNamed(sig.Results().At(0).Type())
	if n == nil {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	info := tf.info[d]
	out := map[string]ast.Expr{}
	lits := 0
	ast.Inspect(d.Body, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.CompositeLit:
			if tableNamed(info.Types[x].Type) != n {
				return true
			}
			lits++
			for i, el := range x.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					if id, ok := kv.Key.(*ast.Ident); ok {
						out[id.Name] = kv.Value
					}
				} else if i < st.NumFields() {
					out[st.Field(i).Name()] = el
				}
			}
		case *ast.AssignStmt:
			for i, l := range x.Lhs {
				if s, ok := l.(*ast.SelectorExpr); ok && len(x.Rhs) == len(x.Lhs) && x.Tok == token.ASSIGN {
					if tableNamed(info.Types[s.X].Type) == n {
						if _, dup := out[s.Sel.Name]; dup {
							out[s.Sel.Name] = nil
						} else {
							out[s.Sel.Name] = x.Rhs[i]
						}
					}
				}
			}
		}
		return true
	})
	if lits > 1 || len(out) == 0 {
		return nil
	}
	return out
}

// record gives the fields of a literal or constructor call.
func (tf *tfold) record(info *types.Info, e ast.Expr) *trec {
	switch e := ast.Unparen(e).(type) {
	case *ast.UnaryExpr:
		if e.Op == token.AND {
			return tf.record(info, e.X)
		}
	case *ast.CompositeLit:
		n := tableNamed(info.Types[e].Type)
		if n == nil {
			return nil
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		if len(e.Elts) == 0 {
			return nil
		}
		r := &trec{typ: n, fields: map[string][]tleaf{}, set: map[string]bool{}, pos: e.Pos()}
		for j := 0; j < st.NumFields(); j++ {
			if _, ok := st.Field(j).Type().Underlying().(*types.Basic); ok {
				r.fields[st.Field(j).Name()] = []tleaf{{known: true, pos: e.Pos()}}
			} else {
				r.fields[st.Field(j).Name()] = nil
			}
			r.set[st.Field(j).Name()] = true
		}
		for i, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				if id, ok := kv.Key.(*ast.Ident); ok {
					r.fields[id.Name] = tf.flat(info, kv.Value)
				}
			} else if i < st.NumFields() {
				r.fields[st.Field(i).Name()] = tf.flat(info, x)
			}
		}
		return r
	case *ast.CallExpr:
		f := calleeObj(info, e)
		if f == nil {
			return nil
		}
		fs := tf.ctor(f)
		if fs == nil {
			return nil
		}
		d := tf.funcs[f.Origin()]
		din := tf.info[d]
		args := map[types.Object]ast.Expr{}
		i := 0
		for _, p := range d.Type.Params.List {
			for _, nm := range p.Names {
				if i < len(e.Args) {
					args[din.Defs[nm]] = e.Args[i]
				}
				i++
			}
		}
		if i != len(e.Args) {
			return nil
		}
		r := &trec{typ: tableNamed(f.Type().(*types.Signature).Results().At(0).Type()), fields: map[string][]tleaf{}, set: map[string]bool{}, pos: e.Pos()}
		for name, x := range fs {
			if x == nil {
				continue
			}
			if id, ok := ast.Unparen(x).(*ast.Ident); ok {
				if a, ok := args[din.Uses[id]]; ok {
					r.fields[name], r.set[name] = tf.flat(info, a), true
				}
			}
		}
		if len(r.fields) == 0 {
			return nil
		}
		return r
	}
	return nil
}

func constLabel(info *types.Info, e ast.Expr) string {
	if v := info.Types[e].Value; v != nil && v.Kind() == constant.Int {
		return v.ExactString()
	}
	return ""
}

// candidates lists every literal of the library with the place it stands in.
func (tf *tfold) candidates() []*tcand {
	var out []*tcand
	var paths []string
	for p := range tf.w.pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, path := range paths {
		p := tf.w.pkgs[path]
		if !tableScope(path) {
			continue
		}
		info := p.TypesInfo
		for _, file := range p.Syntax {
			if strings.HasSuffix(tf.w.fset.Position(file.Pos()).Filename, "_test.go") {
				continue
			}
			var walk func(n ast.Node, name, fn, label string, outer bool)
			add := func(e ast.Expr, name, fn, label string, outer bool) {
				c := &tcand{leaves: tf.flat(info, e), name: name, fn: fn, label: label, pos: e.Pos(), outer: outer, rec: tf.record(info, e)}
				if c.rec != nil {
					c.rec.label = label
				}
				out = append(out, c)
			}
			walk = func(n ast.Node, name, fn, label string, outer bool) {
				switch n := n.(type) {
				case nil:
					return
				case *ast.FuncDecl:
					if n.Body != nil {
						walk(n.Body, "", n.Name.Name, "", true)
					}
					return
				case *ast.ValueSpec:
					for i, v := range n.Values {
						nm := ""
						if i < len(n.Names) && len(n.Values) == len(n.Names) {
							nm = n.Names[i].Name
						}
						walk(v, nm, fn, "", true)
					}
					return
				case *ast.AssignStmt:
					for i, r := range n.Rhs {
						nm, lb := "", label
						if len(n.Rhs) == len(n.Lhs) {
							switch l := ast.Unparen(n.Lhs[i]).(type) {
							case *ast.Ident:
								nm = l.Name
							case *ast.IndexExpr:
								if s := constLabel(info, l.Index); s != "" {
									lb = s
								}
								if id, ok := ast.Unparen(l.X).(*ast.Ident); ok {
									nm = id.Name
								}
							case *ast.SelectorExpr:
								nm = l.Sel.Name
							}
						}
						walk(r, nm, fn, lb, true)
					}
					return
				case *ast.CaseClause:
					for i, s := range n.Body {
						_ = i
						lb := ""
						if len(n.List) == 1 {
							lb = constLabel(info, n.List[0])
						}
						walk(s, name, fn, lb, true)
					}
					return
				case *ast.CompositeLit:
					add(n, name, fn, label, outer)
					arr := false
					switch info.Types[n].Type.Underlying().(type) {
					case *types.Array, *types.Slice, *types.Map:
						arr = true
					}
					for i, x := range n.Elts {
						v, lb := x, ""
						if arr {
							lb = strconv.Itoa(i)
						}
						nm := name
						if kv, ok := x.(*ast.KeyValueExpr); ok {
							v = kv.Value
							if arr {
								lb = constLabel(info, kv.Key)
							} else if id, ok := kv.Key.(*ast.Ident); ok {
								nm, lb = id.Name, label
							}
						}
						walk(v, nm, fn, lb, false)
					}
					return
				case *ast.CallExpr:
					if f := calleeObj(info, n); f != nil && tf.ctor(f) != nil {
						add(n, name, fn, label, outer)
					} else if id, ok := ast.Unparen(n.Fun).(*ast.Ident); ok && id.Name == "append" {
						add(n, name, fn, label, outer)
					}
					for _, a := range n.Args {
						walk(a, name, fn, label, false)
					}
					return
				}
				var kids []ast.Node
				first := true
				ast.Inspect(n, func(x ast.Node) bool {
					if first {
						first = false
						return true
					}
					if x != nil {
						kids = append(kids, x)
					}
					return false
				})
				for _, k := range kids {
					walk(k, name, fn, label, outer)
				}
			}
			for _, d := range file.Decls {
				walk(d, "", "", "", true)
			}
		}
	}
	return out
}

func tableScope(path string) bool {
	return strings.HasPrefix(path, modPath) && !strings.Contains(path, "/examples") && !strings.Contains(path, "/cmd") && !strings.HasSuffix(path, ".test")
}

func newFold(w *World) *tfold {
	tf := &tfold{w: w, inits: map[types.Object]ast.Expr{}, infos: map[types.Object]*packages.Package{}, funcs: map[types.Object]*ast.FuncDecl{}, info: map[ast.Node]*types.Info{}, reass: map[types.Object]bool{}}
	for _, p := range w.pkgs {
		for _, file := range p.Syntax {
			for _, d := range file.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					tf.funcs[p.TypesInfo.Defs[d.Name]] = d
					tf.info[d] = p.TypesInfo
				case *ast.GenDecl:
					for _, s := range d.Specs {
						if v, ok := s.(*ast.ValueSpec); ok && d.Tok == token.VAR && len(v.Names) == len(v.Values) {
							for i, n := range v.Names {
								o := p.TypesInfo.Defs[n]
								tf.inits[o], tf.infos[o] = v.Values[i], p
							}
						}
					}
				}
			}
			ast.Inspect(file, func(n ast.Node) bool {
				mark := func(e ast.Expr) {
					for {
						switch x := ast.Unparen(e).(type) {
						case *ast.IndexExpr:
							e = x.X
							continue
						case *ast.Ident:
							if o := p.TypesInfo.Uses[x]; o != nil {
								tf.reass[o] = true
							}
						case *ast.SelectorExpr:
							if o, ok := p.TypesInfo.Uses[x.Sel].(*types.Var); ok && !o.IsField() {
								tf.reass[o] = true
							}
						}
						return
					}
				}
				switch n := n.(type) {
				case *ast.AssignStmt:
					for _, l := range n.Lhs {
						mark(l)
					}
				case *ast.IncDecStmt:
					mark(n.X)
				}
				return true
			})
		}
	}
	return tf
}

// ---- the values of the format ----------------------------------------------

type gold struct {
	kind  string // table, small, case, const, record
	name  string
	key   string // label for case and record
	field string
	desc  string
	vals  []string // number, "a|b" alternatives, "_" any, or 'string
}

func parseGold() []gold {
	var out []gold
	for ln, l := range strings.Split(goldText, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		h, v, ok := strings.Cut(l, "=")
		f := strings.Fields(h)
		if !ok || len(f) < 2 {
			die("tables.txt:%d", ln+1)
		}
		g := gold{kind: f[0], name: f[1], vals: strings.Fields(v)}
		switch g.kind {
		case "case":
			g.key = f[2]
		case "record":
			g.field, g.key = f[2], f[3]
		}
		out = append(out, g)
	}
	return out
}

// goldConsts: codes that are internal to the library, by name.
var goldConsts map[string]string

func goldEq(l tleaf, g string) (eq, known bool) {
	if g == "_" {
		return true, true
	}
	if !l.known {
		return false, false
	}
	if strings.HasPrefix(g, "'") {
		return l.isStr && l.str == g[1:], true
	}
	if l.isStr {
		return false, true
	}
	for _, a := range strings.Split(g, "|") {
		if strings.HasPrefix(a, "@") {
			v, ok := goldConsts[a[1:]]
			if !ok {
				return false, false
			}
			a = v
		}
		f, err := strconv.ParseFloat(a, 64)
		if err != nil {
			die("tables.txt: %q", a)
		}
		if f == l.num {
			return true, true
		}
		if float32(f) == float32(l.num) {
			return true, true
		}
		if d, m := f-l.num, max(f, -f); d <= 1e-13*m && d >= -1e-13*m {
			return true, true
		}
	}
	return false, true
}

// goldDiff compares position by position; -1 when equal, -2 when unknown.
func goldDiff(ls []tleaf, gs []string) int {
	if len(ls) != len(gs) {
		for _, l := range ls {
			if !l.known {
				return -2
			}
		}
		for i := range min(len(ls), len(gs)) {
			if eq, _ := goldEq(ls[i], gs[i]); !eq {
				return i
			}
		}
		return min(len(ls), len(gs))
	}
	first := -1
	for i, l := range ls {
		eq, known := goldEq(l, gs[i])
		if !known {
			return -2
		}
		if !eq && first < 0 {
			first = i
		}
	}
	return first
}

// goldSim is the length of the longest common subsequence.
func goldSim(ls []tleaf, gs []string) int {
	prev := make([]int, len(gs)+1)
	for _, l := range ls {
		cur := make([]int, len(gs)+1)
		for j, g := range gs {
			if eq, _ := goldEq(l, g); eq {
				cur[j+1] = prev[j] + 1
			} else {
				cur[j+1] = max(prev[j+1], cur[j])
			}
		}
		prev = cur
	}
	return prev[len(gs)]
}

func lost(r *Result, g gold) {
	r.Count("tables not found", 1)
	if os.Getenv("TDUMP") != "" {
		fmt.Println("not found:", g.kind, g.name, g.field, g.key)
	}
}

func leafText(ls []tleaf, i int) string {
	if i >= len(ls) {
		return "nothing"
	}
	l := ls[i]
	if l.isStr {
		return strconv.Quote(l.str)
	}
	return strconv.FormatFloat(l.num, 'g', -1, 64)
}

func goldWant(g []string, i int) string {
	if i >= len(g) {
		return "the end of the table"
	}
	return g[i]
}

func (w *World) tables(r *Result) {
	tf := newFold(w)
	cands := tf.candidates()
	if os.Getenv("TDUMP") != "" {
		for _, c := range cands {
			var s []string
			for _, l := range c.leaves {
				if !l.known {
					s = append(s, "?")
				} else if l.isStr {
					s = append(s, "'"+l.str)
				} else {
					s = append(s, strconv.FormatFloat(l.num, 'g', -1, 64))
				}
			}
			fmt.Printf("%s fn=%s label=%s outer=%v %d: %s\n", c.name, c.fn, c.label, c.outer, len(c.leaves), strings.Join(s, " "))
		}
	}
	golds := parseGold()
	goldConsts = map[string]string{}
	for path, p := range w.pkgs {
		if !tableScope(path) || p.Types == nil {
			continue
		}
		for _, n := range p.Types.Scope().Names() {
			if c, ok := p.Types.Scope().Lookup(n).(*types.Const); ok && c.Val().Kind() == constant.Int {
				goldConsts[p.Name+"."+n] = c.Val().ExactString()
			}
		}
	}
	r.Count("literals", len(cands))
	exactFor := map[*tcand]bool{}
	for _, g := range golds {
		if g.kind != "table" {
			continue
		}
		for _, c := range cands {
			if len(c.leaves) == len(g.vals) && goldDiff(c.leaves, g.vals) == -1 {
				exactFor[c] = true
			}
		}
	}
	report := func(g gold, c *tcand, at string, ls []tleaf, i int) {
		pos := c.pos
		if i < len(ls) {
			pos = ls[i].pos
		}
		r.Add("table:"+g.name+at, w.Pos(pos), "%s%s: element %d is %s where the format has %s (%d values, the format has %d)", g.name, at, i, leafText(ls, i), goldWant(g.vals, i), len(ls), len(g.vals))
	}
	for _, g := range golds {
		r.Count("tables", 1)
		r.Count("values of the format", len(g.vals))
		switch g.kind {
		case "const":
			pk, nm, _ := strings.Cut(g.name, ".")
			found := false
			for path, p := range w.pkgs {
				if p.Name != pk || !tableScope(path) {
					continue
				}
				c, ok := p.Types.Scope().Lookup(nm).(*types.Const)
				if !ok {
					continue
				}
				found = true
				f, _ := constant.Float64Val(constant.ToFloat(c.Val()))
				if eq, _ := goldEq(tleaf{known: true, num: f}, g.vals[0]); !eq {
					r.Add("const:"+g.name, w.Pos(c.Pos()), "%s is %v where the format has %s", g.name, c.Val(), g.vals[0])
				}
			}
			if found {
				r.Count("tables matched", 1)
			} else {
				lost(r, g)
			}
		case "table", "small":
			var exact, named, best *tcand
			bestSim := 0
			for _, c := range cands {
				d := goldDiff(c.leaves, g.vals)
				if c.name == g.name && c.outer {
					named = c
				}
				if d == -1 && (g.kind == "table" || c.name == g.name) {
					exact = c
				}
				if g.kind == "table" && d >= 0 && !exactFor[c] && len(c.leaves) >= len(g.vals)-2 && len(c.leaves) <= len(g.vals)+2 {
					if s := goldSim(c.leaves, g.vals); s > bestSim {
						best, bestSim = c, s
					}
				}
			}
			switch {
			case exact != nil:
			case best != nil && bestSim*4 >= len(g.vals)*3 && len(g.vals) >= 8:
				report(g, best, "", best.leaves, goldDiff(best.leaves, g.vals))
			case named != nil && goldDiff(named.leaves, g.vals) >= 0 && len(named.leaves) >= len(g.vals)-2 && len(named.leaves) <= len(g.vals)+2:
				report(g, named, "", named.leaves, goldDiff(named.leaves, g.vals))
			default:
				lost(r, g)
				continue
			}
			r.Count("tables matched", 1)
		case "case":
			// the outermost literal under the label in the function or variable of that name
			var at *tcand
			multi := false
			for _, c := range cands {
				if (c.fn == g.name || c.name == g.name) && c.label == g.key && len(c.leaves) == len(g.vals) {
					if at != nil && at.outer == c.outer {
						multi = true
					}
					if at == nil || c.outer {
						at = c
					}
				}
			}
			if at == nil || multi || goldDiff(at.leaves, g.vals) == -2 {
				lost(r, g)
				continue
			}
			r.Count("tables matched", 1)
			if d := goldDiff(at.leaves, g.vals); d >= 0 {
				report(g, at, "["+g.key+"]", at.leaves, d)
			}
		case "record":
			// name is the type, or type:field when the key is a field of the record
			tn, kf, _ := strings.Cut(g.name, ":")
			var at []*tcand
			for _, c := range cands {
				if c.rec == nil || c.rec.typ == nil || c.rec.typ.Obj().Name() != tn {
					continue
				}
				key := c.rec.label
				if kf != "" {
					key = ""
					if ls := c.rec.fields[kf]; len(ls) == 1 && ls[0].known {
						key = strconv.FormatFloat(ls[0].num, 'g', -1, 64)
					}
				}
				if key == g.key && c.rec.set[g.field] && (kf != "" || c.name == "defaultParams" || c.fn == "setupDefaultParams" || strings.Contains(strings.ToLower(c.name+c.fn), "default")) {
					at = append(at, c)
				}
			}
			if len(at) != 1 {
				lost(r, g)
				continue
			}
			c := at[0]
			d := goldDiff(c.rec.fields[g.field], g.vals)
			if d == -2 {
				lost(r, g)
				continue
			}
			r.Count("tables matched", 1)
			if d >= 0 {
				g.name = tn
				report(g, c, "["+g.key+"]."+g.field, c.rec.fields[g.field], d)
			}
		}
	}
}

func init() {
	register("P22", "other", "Constant tables are folded from the type-checked source and compared value by value with those of the format.", func(w *World, r *Result, th bool) {
		r.Rules = append(r.Rules,
			"every table of the format the library holds as a literal has the values of the format, in the order and under the index, case or field it is looked up by",
			"every named code of the format (transfer functions, primaries, frame types, blend modes, transform modes) has the number the format gives it")
		r.Assume = append(r.Assume, "a table that is no longer written as a constant literal is not compared", "a copy of a table that nothing reads is not told from the one in use")
		w.tables(r)
		r.Minimum["tables matched"] = 20
	})
}
