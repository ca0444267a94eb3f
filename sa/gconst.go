package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"
)

// Elements of package variables that are tables: declared with a literal and
// never assigned to.

// globalLit finds the expression of "global:pkg.Name[][1][][2].Field".
func (w *World) globalLit(name string) (ast.Expr, *types.Info) {
	if !strings.HasPrefix(name, "global:") {
		return nil, nil
	}
	w.foldOnce.Do(func() {
		w.fold = newFold(w)
		w.gvars = map[string]types.Object{}
		for o := range w.fold.inits {
			if o != nil && o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
				w.gvars[o.Pkg().Name()+"."+o.Name()] = o
			}
		}
	})
	rest := strings.TrimPrefix(name, "global:")
	i := strings.IndexByte(rest, '.')
	j := strings.IndexAny(rest[i+1:], ".[")
	base := rest
	if j >= 0 {
		base, rest = rest[:i+1+j], rest[i+1+j:]
	} else {
		rest = ""
	}
	o := w.gvars[base]
	if o == nil || w.fold.reass[o] {
		return nil, nil
	}
	e, info := w.fold.inits[o], w.fold.infos[o].TypesInfo
	for rest != "" {
		e = litOf(e)
		cl, ok := e.(*ast.CompositeLit)
		if !ok {
			return nil, nil
		}
		if rest[0] == '.' {
			n := strings.IndexAny(rest[1:], ".[")
			f := rest[1:]
			if n >= 0 {
				f, rest = rest[1:n+1], rest[n+1:]
			} else {
				rest = ""
			}
			if e = fieldOfLit(cl, info, f); e == nil {
				return nil, nil
			}
			continue
		}
		n := strings.IndexByte(rest, ']')
		ix := rest[1:n]
		rest = rest[n+1:]
		if ix == "" {
			continue
		}
		k, err := strconv.Atoi(ix)
		if err != nil {
			return nil, nil
		}
		if e = elemOfLit(cl, info, k); e == nil {
			return nil, nil
		}
	}
	return e, info
}

func litOf(e ast.Expr) ast.Expr {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.UnaryExpr:
			if x.Op != token.AND {
				return e
			}
			e = x.X
		default:
			return e
		}
	}
}

func fieldOfLit(cl *ast.CompositeLit, info *types.Info, f string) ast.Expr {
	for _, el := range cl.Elts {
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			if id, ok := kv.Key.(*ast.Ident); ok && id.Name == f {
				return kv.Value
			}
		}
	}
	st, ok := info.TypeOf(cl).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if i := fieldIndexOf(st, f); i >= 0 && i < len(cl.Elts) {
		if _, ok := cl.Elts[i].(*ast.KeyValueExpr); !ok {
			return cl.Elts[i]
		}
	}
	return nil
}

func elemOfLit(cl *ast.CompositeLit, info *types.Info, k int) ast.Expr {
	switch info.TypeOf(cl).Underlying().(type) {
	case *types.Slice, *types.Array:
	default:
		return nil
	}
	at := 0
	for _, el := range cl.Elts {
		v := el
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			c := info.Types[kv.Key].Value
			if c == nil {
				return nil
			}
			n, _ := constant.Int64Val(constant.ToInt(c))
			at, v = int(n), kv.Value
		}
		if at == k {
			return v
		}
		at++
	}
	return nil
}

func (w *World) globalConst(name string) *cv {
	e, info := w.globalLit(name)
	if e == nil {
		return nil
	}
	tv := info.Types[e]
	if call, ok := e.(*ast.CallExpr); ok && len(call.Args) == 1 && tv.Value == nil {
		// a root of a constant
		if sel, ok := call.Fun.(*ast.SelectorExpr); ok {
			if f, ok := info.Uses[sel.Sel].(*types.Func); ok && f.FullName() == "math.Sqrt" {
				if a := info.Types[call.Args[0]].Value; a != nil {
					v, _ := constant.Float64Val(a)
					return &cv{k: 'f', f: math.Sqrt(v)}
				}
			}
		}
	}
	if tv.Value == nil {
		return nil
	}
	if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		v, _ := constant.Float64Val(constant.ToFloat(tv.Value))
		if b.Kind() == types.Float32 {
			v = float64(float32(v))
		}
		return &cv{k: 'f', f: v}
	}
	switch tv.Value.Kind() {
	case constant.Bool:
		c := cvBool(constant.BoolVal(tv.Value))
		return &c
	case constant.Int:
		if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if n, ok := constant.Int64Val(tv.Value); ok {
				c := cvInt(n)
				return &c
			}
		}
	}
	return nil
}

// globalLen is the number of elements of a table without keys, or -1.
func (w *World) globalLen(name string) int {
	e, info := w.globalLit(name)
	if e == nil {
		return -1
	}
	cl, ok := litOf(e).(*ast.CompositeLit)
	if !ok {
		return -1
	}
	if _, ok := info.TypeOf(cl).Underlying().(*types.Slice); !ok {
		return -1
	}
	for _, el := range cl.Elts {
		if _, ok := el.(*ast.KeyValueExpr); ok {
			return -1
		}
	}
	return len(cl.Elts)
}
