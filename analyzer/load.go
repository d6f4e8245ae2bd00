package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the resolved program under analysis.
type World struct {
	once    map[*ssa.Alloc]bool
	priv    map[*ssa.Alloc]bool
	ownKeys map[*ssa.Function]map[string]bool // what functions may write, if known better
	Dir     string
	Fset    *token.FileSet
	Pkgs    []*packages.Package
	Prog    *ssa.Program
	Main    *ssa.Package // the jsonutils package
	MainP   *packages.Package
	Loc     *packages.Package
	LocS    *ssa.Package
	SMap    *ssa.Package    // sortedmap, analysed from source
	Funcs   []*ssa.Function // all functions with bodies of the main package, sorted
	GoFile  int
	inMain  map[*ssa.Package]bool
	allFns  []*ssa.Function
	globs   map[*ssa.Global]*globalInfo
	srcPkg  map[*ssa.Package]bool
	conts   []types.Type
	left    map[string]bool
}

const (
	sortedmapPath = "yunion.io/x/pkg/sortedmap"
	gotypesPath   = "yunion.io/x/pkg/gotypes"
	tristatePath  = "yunion.io/x/pkg/tristate"
)

// LoadError means the tree does not type-check or an anchor package is gone.
type LoadError struct{ msg string }

func (e *LoadError) Error() string { return e.msg }

func Load(dir string) (*World, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off"),
	}
	pkgs, err := packages.Load(cfg, "./...", sortedmapPath, gotypesPath, tristatePath)
	if err != nil {
		return nil, &LoadError{"packages.Load: " + err.Error()}
	}
	w := &World{Dir: dir, Pkgs: pkgs, inMain: map[*ssa.Package]bool{}, srcPkg: map[*ssa.Package]bool{}}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, &LoadError{fmt.Sprintf("%s does not load: %v", p.PkgPath, e)}
		}
		w.Fset = p.Fset
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	prog.Build()
	w.Prog = prog
	for i, p := range pkgs {
		if sp[i] == nil {
			return nil, &LoadError{"no SSA for " + p.PkgPath}
		}
		w.srcPkg[sp[i]] = true
		switch {
		case p.PkgPath == gotypesPath, p.PkgPath == tristatePath:
		case p.PkgPath == sortedmapPath:
			w.SMap = sp[i]
		case p.Name == "jsonutils":
			w.Main, w.MainP = sp[i], p
			w.inMain[sp[i]] = true
		case p.Name == "locales":
			w.Loc, w.LocS = p, sp[i]
		default:
			if strings.HasPrefix(p.PkgPath, "yunion.io/x/jsonutils") {
				w.inMain[sp[i]] = true
			}
		}
		if strings.HasPrefix(p.PkgPath, "yunion.io/x/jsonutils") {
			w.GoFile += len(p.CompiledGoFiles)
		}
	}
	if w.Main == nil || w.SMap == nil || w.Loc == nil {
		return nil, &LoadError{"package jsonutils, locales or sortedmap is missing"}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil {
			continue
		}
		w.allFns = append(w.allFns, fn)
		if w.IsMain(fn) {
			w.Funcs = append(w.Funcs, fn)
		}
	}
	sort.Slice(w.Funcs, func(i, j int) bool { return fnName(w.Funcs[i]) < fnName(w.Funcs[j]) })
	return w, nil
}

func (w *World) hasSource(p *ssa.Package) bool { return w.srcPkg[p] }

// IsMain reports whether fn belongs to the package under analysis (including
// closures and synthetic wrappers of it).
func (w *World) IsMain(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return w.inMain[f.Pkg]
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg() == w.Main.Pkg
		}
		if f.Origin() != nil && f.Origin() != f {
			return w.IsMain(f.Origin())
		}
	}
	return false
}

func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, "yunion.io/x/jsonutils.", "")
	return s
}

func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := w.Fset.Position(p)
	rel, err := filepath.Rel(w.Dir, ps.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// InstrPos gives the best position known for an instruction.
func (w *World) InstrPos(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		if v, ok := in.(ssa.Value); ok && v.Referrers() != nil {
			for _, r := range *v.Referrers() {
				if r.Pos().IsValid() {
					p = r.Pos()
					break
				}
			}
		}
	}
	if !p.IsValid() {
		b := in.Block()
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				p = x.Pos()
				break
			}
		}
	}
	if !p.IsValid() {
		p = in.Parent().Pos()
	}
	return w.Pos(p)
}

// Func finds a package-level function of the main package.
func (w *World) Func(name string) *ssa.Function { return w.Main.Func(name) }

// NamedType finds a named type of the main package.
func (w *World) NamedType(name string) *types.Named {
	o := w.Main.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// Method finds method `name` of *T or T, following promotion; declared tells
// whether it is declared on T itself.
func (w *World) Method(typ, name string) (fn *ssa.Function, declared bool) {
	n := w.NamedType(typ)
	if n == nil {
		return nil, false
	}
	ptr := types.NewPointer(n)
	sel := types.NewMethodSet(ptr).Lookup(w.Main.Pkg, name)
	if sel == nil {
		return nil, false
	}
	return w.Prog.MethodValue(sel), len(sel.Index()) == 1
}

// NodeTypes lists the struct types of the package that implement the node
// interface, by name.
func (w *World) NodeTypes() []string {
	it := w.NodeIface()
	var out []string
	if it == nil {
		return nil
	}
	for _, name := range w.Main.Pkg.Scope().Names() {
		tn, ok := w.Main.Pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		if _, ok := tn.Type().Underlying().(*types.Struct); !ok {
			continue
		}
		if types.Implements(types.NewPointer(tn.Type()), it) {
			out = append(out, name)
		}
	}
	return out
}

func (w *World) NodeIface() *types.Interface {
	n := w.NamedType("JSONObject")
	if n == nil {
		return nil
	}
	it, _ := n.Underlying().(*types.Interface)
	return it
}

// Implementers resolves an interface method call to the methods of the main
// package's types that can be called.
func (w *World) Implementers(recv types.Type, m *types.Func) []*ssa.Function {
	it, ok := recv.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, name := range w.Main.Pkg.Scope().Names() {
		tn, ok := w.Main.Pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
			continue
		}
		if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
			continue
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			if !types.Implements(t, it) {
				continue
			}
			sel := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name())
			if sel == nil {
				continue
			}
			fn := w.Prog.MethodValue(sel)
			if fn == nil {
				continue
			}
			fn = unwrapPromoted(fn)
			dup := false
			for _, o := range out {
				if o == fn {
					dup = true
				}
			}
			if !dup {
				out = append(out, fn)
			}
			break
		}
	}
	return out
}

// unwrapPromoted follows a synthetic promotion wrapper to the declared method.
func unwrapPromoted(fn *ssa.Function) *ssa.Function {
	if fn.Synthetic != "" && fn.Object() != nil {
		if f, ok := fn.Object().(*types.Func); ok {
			if d := fn.Prog.FuncValue(f); d != nil && d.Blocks != nil {
				return d
			}
		}
	}
	return fn
}

// ExportedFuncs are the exported functions and the exported methods (declared)
// of types of the main package, the API surface.
func (w *World) ExportedFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range w.Funcs {
		if fn.Parent() != nil || fn.Synthetic != "" || fn.Pkg != w.Main || fn.Object() == nil {
			continue
		}
		if fn.Object().Exported() {
			out = append(out, fn)
		}
	}
	return out
}

func recvNamed(fn *ssa.Function) *types.Named {
	r := fn.Signature.Recv()
	if r == nil {
		return nil
	}
	t := r.Type()
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

// calleeFullName names a static callee or interface method.
func calleeFullName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.RelString(nil)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return "dynamic"
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// isErrorLike is true for error and for interfaces and types implementing it.
func isErrorLike(t types.Type) bool {
	if t == nil {
		return false
	}
	e := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	return types.Implements(t, e)
}

func funcDeclFile(w *World, fn *ssa.Function) string {
	return filepath.Base(w.Fset.Position(fn.Pos()).Filename)
}

// MainFuncs are all functions of the package under analysis itself.
func (w *World) MainFuncs() []*ssa.Function { return w.Funcs }

// InstrPos2 is InstrPos that accepts no instruction.
func (w *World) InstrPos2(in ssa.Instruction) string {
	if in == nil {
		return ""
	}
	return w.InstrPos(in)
}
