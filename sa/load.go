package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/kpfaulkner/jxl-go"

// Library packages whose exported surface is what a program importing the
// decoder can call. (examples/, tools/, benchtesting/ are programs built on top
// of it; testcommon is reached only through the recorder the decoder installs.)
var libPkgs = []string{"", "/core", "/options"}

type World struct {
	foldOnce        sync.Once
	loopMu          sync.Mutex
	fold            *tfold // initialisers of package variables
	gvars           map[string]types.Object
	repo            string
	pkgs            map[string]*packages.Package
	prog            *ssa.Program
	fset            *token.FileSet
	all             map[*ssa.Function]bool
	cg              *callgraph.Graph
	roots           []*ssa.Function // exported API of the library packages
	goTags          map[ssa.CallInstruction]string
	nGo             int
	inits           []*ssa.Function
	reach           map[*ssa.Function]bool // reachable from roots (not from inits)
	calls           map[ssa.CallInstruction][]*ssa.Function
	ncall           int
	whole           *PTA
	mods            map[*ssa.Function]*modSet
	minAlts         map[string][]poly
	fidx            *fieldIndex
	callers         map[*ssa.Function][]ssa.CallInstruction
	loops           map[*ssa.Function][]*natLoop
	nilTestedFields map[*types.Var]bool
	sites           map[*ssa.Function][]ssa.CallInstruction
	fstores         map[*types.Var]*fieldStores
	uplinks         map[*types.Var]bool
}

type fatal struct{ msg string }

func die(format string, a ...any) { panic(fatal{fmt.Sprintf(format, a...)}) }

func Load(repo string) *World {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		die("cannot load %s: %v", repo, err)
	}
	w := &World{repo: repo, pkgs: map[string]*packages.Package{}}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		w.pkgs[p.PkgPath] = p
	})
	if len(errs) > 0 {
		die("type-check/load errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	w.fset = prog.Fset
	w.all = ssautil.AllFunctions(prog)

	for _, lp := range libPkgs {
		pp := w.pkgs[modPath+lp]
		if pp == nil {
			die("library package %s%s not found", modPath, lp)
		}
		sp := prog.Package(pp.Types)
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if m.Object() != nil && m.Object().Exported() {
					w.roots = append(w.roots, m)
				}
			case *ssa.Type:
				if !m.Object().Exported() {
					continue
				}
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						sel := ms.At(i)
						if !sel.Obj().Exported() {
							continue
						}
						if f := prog.MethodValue(sel); f != nil {
							w.roots = append(w.roots, f)
						}
					}
				}
			}
		}
	}
	for _, p := range w.pkgs {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			continue
		}
		if sp := prog.Package(p.Types); sp != nil {
			if f := sp.Func("init"); f != nil {
				w.inits = append(w.inits, f)
			}
		}
	}
	sortFns(w.roots)
	sortFns(w.inits)

	// call graph: iterate VTA over the functions reachable from API and inits,
	// so that fakes and test helpers that the library never instantiates do not
	// pollute interface calls.
	cg := cha.CallGraph(prog)
	start := append(append([]*ssa.Function{}, w.roots...), w.libInits()...)
	set := reachFrom(cg, start)
	for i := 0; i < 3; i++ {
		cg = vta.CallGraph(set, cg)
		set = reachFrom(cg, start)
	}
	w.cg = cg
	w.reach = reachFrom(cg, w.roots)
	w.calls = map[ssa.CallInstruction][]*ssa.Function{}
	for f := range set {
		n := cg.Nodes[f]
		if n == nil {
			continue
		}
		for _, e := range n.Out {
			if e.Site == nil {
				continue
			}
			dup := false
			for _, c := range w.calls[e.Site] {
				if c == e.Callee.Func {
					dup = true
				}
			}
			if !dup {
				w.calls[e.Site] = append(w.calls[e.Site], e.Callee.Func)
			}
		}
	}
	for _, v := range w.calls {
		sortFns(v)
	}
	return w
}

// inits of packages that the library packages import (so not those of the
// example programs).
func (w *World) libInits() []*ssa.Function {
	seen := map[string]bool{}
	var out []*ssa.Function
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p.PkgPath] || !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		seen[p.PkgPath] = true
		for _, i := range p.Imports {
			visit(i)
		}
		if sp := w.prog.Package(p.Types); sp != nil {
			if f := sp.Func("init"); f != nil {
				out = append(out, f)
			}
		}
	}
	for _, lp := range libPkgs {
		visit(w.pkgs[modPath+lp])
	}
	sortFns(out)
	return out
}

func sortFns(fs []*ssa.Function) {
	sort.SliceStable(fs, func(i, j int) bool {
		a, b := fs[i].String(), fs[j].String()
		if a != b {
			return a < b
		}
		return fs[i].Pos() < fs[j].Pos()
	})
}

func reachFrom(cg *callgraph.Graph, start []*ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	push := func(f *ssa.Function) {
		if f != nil && !out[f] {
			out[f] = true
			stack = append(stack, f)
		}
	}
	for _, f := range start {
		push(f)
	}
	for len(stack) > 0 {
		f := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if n := cg.Nodes[f]; n != nil {
			for _, e := range n.Out {
				push(e.Callee.Func)
			}
		}
		// a closure whose creation is reachable may be invoked by code that the
		// call graph attributes to the standard library (sync.Once.Do, ...)
		for _, a := range f.AnonFuncs {
			push(a)
		}
	}
	return out
}

// inModule: function whose source is in the repository (incl. instantiated
// generics and closures).
func inModule(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	return strings.HasPrefix(pkgOf(f), modPath)
}

func pkgOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	// wrappers/thunks: attribute to receiver package
	if f.Signature.Recv() != nil {
		if n := namedOf(f.Signature.Recv().Type()); n != nil && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, isN := t.(*types.Named); !isN {
			t = p.Elem()
		}
	}
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// FnName is the name used in reports and keys: package-relative, without the
// module path and without type arguments.
func FnName(f *ssa.Function) string {
	s := f.String()
	if o := f.Origin(); o != nil {
		s = o.String()
	}
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "jxl_go")
	return s
}

func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := w.fset.Position(p)
	if r, err := filepath.Rel(w.repo, ps.Filename); err == nil && !strings.HasPrefix(r, "..") {
		return fmt.Sprintf("%s:%d", r, ps.Line)
	}
	return fmt.Sprintf("%s:%d", filepath.Base(ps.Filename), ps.Line)
}

func instrPos(i ssa.Instruction) token.Pos {
	if i.Pos().IsValid() {
		return i.Pos()
	}
	// nearest instruction of the block with a position
	b := i.Block()
	if b == nil {
		return token.NoPos
	}
	best := token.NoPos
	for _, x := range b.Instrs {
		if x.Pos().IsValid() {
			best = x.Pos()
		}
		if x == i && best.IsValid() {
			return best
		}
	}
	if best.IsValid() {
		return best
	}
	return i.Parent().Pos()
}

// ModFns returns the functions of the module reachable from the API, sorted,
// restricted to those with bodies. Synthetic wrappers are skipped when skipSyn.
func (w *World) ModFns() []*ssa.Function {
	var out []*ssa.Function
	for f := range w.reach {
		if inModule(f) && len(f.Blocks) > 0 && !isWrapper(f) {
			out = append(out, f)
		}
	}
	sortFns(out)
	return out
}

// WithInits: the functions reachable from the API, and those that run when the
// library packages are initialised.
func (w *World) WithInits() []*ssa.Function {
	out := w.ModFns()
	have := map[*ssa.Function]bool{}
	for _, f := range out {
		have[f] = true
	}
	var in []*ssa.Function
	for f := range reachFrom(w.cg, w.libInits()) {
		if inModule(f) && len(f.Blocks) > 0 && !isWrapper(f) && !have[f] && !strings.HasPrefix(pkgOf(f), modPath+"/testcommon") {
			in = append(in, f)
		}
	}
	sortFns(in)
	return append(out, in...)
}

func isWrapper(f *ssa.Function) bool {
	return f.Synthetic != "" && f.Origin() == nil && f.Name() != "init" && f.Parent() == nil
}

func (w *World) Callees(c ssa.CallInstruction) []*ssa.Function {
	if sc := c.Common().StaticCallee(); sc != nil {
		return []*ssa.Function{sc}
	}
	gs := w.calls[c]
	if c.Common().IsInvoke() || c.Parent() == nil || !inModule(c.Parent()) {
		return gs
	}
	// a function value: closures of the standard library that share a field
	// (sync.Pool.New) with closures of the module do not flow here
	var own []*ssa.Function
	std := false
	for _, g := range gs {
		if inModule(g) || g.Parent() == nil {
			own = append(own, g)
		} else {
			std = true
		}
	}
	if std && len(own) > 0 {
		return own
	}
	return gs
}

// Fn finds a function of the library by package suffix and name ("core",
// "NewBoxReader" or "(*BoxReader).ReadBoxHeader"); nil when absent.
func (w *World) Fn(pkg, name string) *ssa.Function {
	pp := w.pkgs[joinPkg(pkg)]
	if pp == nil {
		return nil
	}
	sp := w.prog.Package(pp.Types)
	if !strings.HasPrefix(name, "(") {
		return sp.Func(name)
	}
	ptr := strings.HasPrefix(name, "(*")
	i := strings.Index(name, ")")
	tn := strings.Trim(name[:i], "(*)")
	mn := name[i+2:]
	o := pp.Types.Scope().Lookup(tn)
	if o == nil {
		return nil
	}
	t := o.Type()
	if ptr {
		t = types.NewPointer(t)
	}
	sel := w.prog.MethodSets.MethodSet(t).Lookup(pp.Types, mn)
	if sel == nil {
		return nil
	}
	return w.prog.MethodValue(sel)
}

func joinPkg(p string) string {
	if p == "" {
		return modPath
	}
	return modPath + "/" + p
}

func (w *World) MustFn(pkg, name string) *ssa.Function {
	f := w.Fn(pkg, name)
	if f == nil || len(f.Blocks) == 0 {
		die("anchor %s.%s not found", pkg, name)
	}
	return f
}

func (w *World) NamedType(pkg, name string) *types.Named {
	pp := w.pkgs[joinPkg(pkg)]
	if pp == nil {
		return nil
	}
	o := pp.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}
