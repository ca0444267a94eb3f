package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sigs.txt lists the parameters of the functions whose specification names
// them by position. A function whose parameters were reordered, added or
// removed since cannot be compared with it any more.
//
//go:embed sigs.txt
var sigText string

func sigOf(f *ssa.Function) string {
	var ps []string
	for _, p := range f.Params {
		kind := "v"
		if b, ok := p.Type().Underlying().(*types.Basic); !ok {
			kind = "c"
		} else if b.Info()&types.IsBoolean != 0 {
			kind = "b"
		}
		ps = append(ps, p.Name()+":"+kind)
	}
	return strings.Join(ps, ",")
}

// usesArgs reports whether a specification refers to parameters by position.
func usesArgs(fd *ast.FuncDecl) bool {
	found := false
	ast.Inspect(fd, func(n ast.Node) bool {
		if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
			s := l.Value[1:]
			if strings.Contains(s, "arg") || strings.HasPrefix(s, "@") {
				found = true
			}
		}
		return !found
	})
	return found
}

// sigChanged says in what way the parameters of f are not the ones the
// specification was written for, "" if they are.
func sigChanged(name string, f *ssa.Function) string {
	cur := sigOf(f)
	if os.Getenv("SIGDUMP") != "" {
		fmt.Println("SIG", name, cur)
	}
	for _, l := range strings.Split(sigText, "\n") {
		n, want, ok := strings.Cut(l, " ")
		if !ok || n != name || want == cur {
			continue
		}
		a, b := strings.Split(want, ","), strings.Split(cur, ",")
		if len(a) != len(b) {
			return "it has other parameters"
		}
		for i := range a {
			an, ak, _ := strings.Cut(a[i], ":")
			bn, bk, _ := strings.Cut(b[i], ":")
			if ak != bk {
				return "its parameters have other types"
			}
			if i > 0 && an != bn {
				for j := range a {
					if strings.HasPrefix(b[j], an+":") || strings.HasPrefix(a[j], bn+":") {
						return "its parameters are in another order"
					}
				}
			}
		}
	}
	return ""
}
