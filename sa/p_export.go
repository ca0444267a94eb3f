package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// exporters: exported functions that take a decoded image (as receiver or
// parameter), setters aside. The map gives the parameter index.
func (w *World) exporters() (fns []*ssa.Function, param map[*ssa.Function]int) {
	img := w.NamedType("core", "JXLImage")
	if img == nil {
		die("core.JXLImage not found")
	}
	param = map[*ssa.Function]int{}
	for _, f := range w.roots {
		if len(f.Blocks) == 0 || isWrapper(f) || strings.HasPrefix(f.Name(), "Set") {
			continue
		}
		for i, p := range f.Params {
			pt, ok := p.Type().Underlying().(*types.Pointer)
			if ok && types.Identical(types.Unalias(pt.Elem()), img) {
				fns = append(fns, f)
				param[f] = i
				break
			}
		}
	}
	return
}

func init() {
	register("P10", "other", "Points-to analysis with a symbolic image tree: no export operation writes into memory reachable from the image it is given.", func(w *World, r *Result, th bool) {
		fns, param := w.exporters()
		p := w.solveWhole()
		byRoot := map[string]*ssa.Function{}
		for _, f := range fns {
			byRoot["api:"+f.String()] = f
			r.Count("export and query operations", 1)
			r.Sample(FnName(f))
		}
		r.Minimum["export and query operations"] = 5
		p.Writes(func(wr pWrite) {
			f := byRoot[wr.fr.ctx.root]
			if f == nil {
				return
			}
			r.Count("memory writes checked", 1)
			prefix := "api:" + f.String() + ":" + f.Params[param[f]].Name() + "/"
			for _, c := range wr.cells {
				if c.obj.root != nil && c.obj.root.kind == "sym" && strings.HasPrefix(c.obj.root.name, prefix) {
					r.Add("export-writes "+FnName(f)+" in "+FnName(wr.fr.fn), w.Pos(instrPos(wr.ins)), "%s: %s in %s modifies the image being exported (%s)", FnName(f), wr.what, FnName(wr.fr.fn), fieldTrail(c))
				}
			}
		})
		r.Minimum["memory writes checked"] = 40
		r.Rules = []string{"no store/copy/map update in any function reachable from an exported operation on a decoded image (setters aside) targets the image's struct, buffers or samples"}
	})
}

// fieldTrail names the path from the image to the cell.
func fieldTrail(c *pcell) string {
	s := ""
	for c != nil {
		s = c.FieldPath() + s
		if c.obj.up == nil || c.obj.up.obj.up == nil && c.obj.up.path == "" {
			break
		}
		c = c.obj.up
	}
	return "image" + s
}
