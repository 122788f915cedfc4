package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/hzw456/go-geo"

type Program struct {
	dir   string
	pkgs  []*packages.Package
	ssa   *ssa.Program
	geo   *ssa.Package
	gj    *ssa.Package
	wkt   *ssa.Package
	impl  map[string][]types.Type
	cglob map[*ssa.Global]bool
	fset  *token.FileSet
}

func repoDir() string {
	if d := os.Getenv("GEO_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// load type-checks the repository (plus overlay files) and builds SSA.
func load(overlay map[string][]byte) (*Program, error) {
	dir := repoDir()
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax | packages.NeedModule,
		Dir:     dir,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{dir: dir, pkgs: ps, ssa: prog, impl: map[string][]types.Type{}, fset: prog.Fset}
	for _, q := range ps {
		sp := prog.Package(q.Types)
		switch q.PkgPath {
		case modPath:
			p.geo = sp
		case modPath + "/geojson":
			p.gj = sp
		case modPath + "/wkt":
			p.wkt = sp
		}
	}
	if p.geo == nil {
		return nil, fmt.Errorf("package %s not found", modPath)
	}
	p.findConstGlobals()
	return p, nil
}

func (p *Program) modPkgs() []*ssa.Package {
	var out []*ssa.Package
	for _, q := range []*ssa.Package{p.geo, p.gj, p.wkt} {
		if q != nil {
			out = append(out, q)
		}
	}
	return out
}

func (p *Program) inModule(f *ssa.Function) bool {
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
	}
	// synthetic wrappers and instantiations
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), modPath)
	}
	if f.Parent() != nil {
		return p.inModule(f.Parent())
	}
	return false
}

// funcs lists every source function of the module (spec files excluded).
func (p *Program) funcs() []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(p.ssa) {
		if !p.inModule(f) || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		if isSpecFile(p.file(f)) || strings.HasSuffix(p.file(f), "_test.go") {
			continue
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func isSpecFile(f string) bool { return strings.HasPrefix(filepath.Base(f), "zz_vspec_") }

func (p *Program) file(f *ssa.Function) string {
	for g := f; g != nil; g = g.Parent() {
		if g.Pos().IsValid() {
			return p.fset.Position(g.Pos()).Filename
		}
	}
	return ""
}

func (p *Program) pos(ps token.Pos) string {
	q := p.fset.Position(ps)
	if r, err := filepath.Rel(p.dir, q.Filename); err == nil {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// posOf finds the position of an instruction, falling back to its operands.
func (p *Program) posOf(in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && (*o).Pos().IsValid() {
			return p.pos((*o).Pos())
		}
	}
	if in.Parent() != nil {
		return p.pos(in.Parent().Pos())
	}
	return "?"
}

// fn looks a function up by name: "F", "T.M", with package prefix "geojson." or "wkt.".
func (p *Program) fn(name string) *ssa.Function {
	pk := p.geo
	if strings.HasPrefix(name, "geojson.") {
		pk, name = p.gj, strings.TrimPrefix(name, "geojson.")
	} else if strings.HasPrefix(name, "wkt.") {
		pk, name = p.wkt, strings.TrimPrefix(name, "wkt.")
	}
	if pk == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn, ok := pk.Members[name[:i]].(*ssa.Type)
		if !ok {
			return nil
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			ms := p.ssa.MethodSets.MethodSet(t)
			for k := 0; k < ms.Len(); k++ {
				if s := ms.At(k); s.Obj().Name() == name[i+1:] {
					f := p.ssa.MethodValue(s)
					if f != nil && f.Synthetic == "" {
						return f
					}
				}
			}
		}
		return nil
	}
	f, _ := pk.Members[name].(*ssa.Function)
	return f
}

// implementers lists the named types of the module that satisfy the interface
// (by value receiver when possible).
func (p *Program) implementers(t types.Type) []types.Type {
	k := tname(t)
	if r, ok := p.impl[k]; ok {
		return r
	}
	it, _ := t.Underlying().(*types.Interface)
	var out []types.Type
	if it != nil && it.NumMethods() > 0 && k != "error" {
		for _, pk := range p.modPkgs() {
			var names []string
			for n := range pk.Members {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				tn, ok := pk.Members[n].(*ssa.Type)
				if !ok || tn.Object().(*types.TypeName).IsAlias() {
					continue
				}
				if types.IsInterface(tn.Type()) {
					continue
				}
				if types.Implements(tn.Type(), it) {
					out = append(out, tn.Type())
				} else if types.Implements(types.NewPointer(tn.Type()), it) {
					out = append(out, types.NewPointer(tn.Type()))
				}
			}
		}
	}
	p.impl[k] = out
	return out
}

// findConstGlobals: globals written only by package initialisation and whose
// address does not escape into a store.
func (p *Program) findConstGlobals() {
	p.cglob = map[*ssa.Global]bool{}
	for _, pk := range p.modPkgs() {
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok {
				p.cglob[g] = true
			}
		}
	}
	for f := range ssautil.AllFunctions(p.ssa) {
		if !p.inModule(f) {
			continue
		}
		isInit := f.Synthetic == "package initializer"
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && !isInit {
						delete(p.cglob, g)
					}
					if g, ok := st.Val.(*ssa.Global); ok {
						delete(p.cglob, g)
					}
					continue
				}
				for _, o := range in.Operands(nil) {
					g, ok := (*o).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
					case *ssa.FieldAddr, *ssa.IndexAddr:
						if !isInit && !readOnly(x.(ssa.Value), 0) {
							delete(p.cglob, g)
						}
					default:
						if !isInit {
							delete(p.cglob, g)
						}
					}
				}
				// element stores and map updates through a loaded global
				if !isInit {
					if u, ok := in.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok && !readOnly(u, 0) {
							if _, basic := u.Type().Underlying().(*types.Basic); !basic {
								delete(p.cglob, g)
							}
						}
					}
				}
			}
		}
	}
}

// readOnly: the reference v is only read through.
func readOnly(v ssa.Value, d int) bool {
	if d > 6 || v.Referrers() == nil {
		return d <= 6
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef, *ssa.Field, *ssa.Index, *ssa.Lookup, *ssa.Range, *ssa.BinOp, *ssa.If:
		case *ssa.FieldAddr:
			if !readOnly(x, d+1) {
				return false
			}
		case *ssa.IndexAddr:
			if !readOnly(x, d+1) {
				return false
			}
		case *ssa.Phi:
			if !readOnly(x, d+1) {
				return false
			}
		case *ssa.Slice:
			if !readOnly(x, d+1) {
				return false
			}
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && strings.HasPrefix(f.String(), "(*regexp.Regexp).") {
				continue
			}
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
			return false
		default:
			return false
		}
	}
	return true
}

func (p *Program) constGlobal(g *ssa.Global) bool { return p.cglob[g] }

// astOf finds the declaration of a function.
func (p *Program) astOf(f *ssa.Function) *ast.FuncDecl {
	d, _ := f.Syntax().(*ast.FuncDecl)
	return d
}

// ---- interpreter set-up

func newInterp(p *Program) *Interp {
	ip := &Interp{prog: p, globals: map[*ssa.Global]*Obj{}, visited: map[*ssa.Function]bool{}, budget: 4000}
	ip.gstate = newState()
	return ip
}

// runInit evaluates the package initialisers to learn constant globals.
func (ip *Interp) runInit() {
	for _, pk := range ip.prog.modPkgs() {
		f := pk.Func("init")
		if f == nil {
			continue
		}
		func() {
			defer func() {
				ip.inInit = false
				ip.depth, ip.stack = 0, nil
				pathCond = pathCond[:1]
				if r := recover(); r != nil {
					if _, ok := r.(undecided); !ok {
						panic(r)
					}
				}
			}()
			ip.inInit = true
			st := ip.gstate.clone()
			r := ip.call(f, nil, nil, st)
			if r.g != 0 && r.st != nil {
				ip.gstate = r.st
			}
		}()
	}
	ip.obls, ip.fdivs, ip.calls = nil, nil, nil
}

// typ finds a named type.
func (p *Program) typ(name string) *types.TypeName {
	pkg := "geo"
	if i := strings.Index(name, "."); i >= 0 {
		pkg, name = name[:i], name[i+1:]
	}
	for _, q := range p.modPkgs() {
		if q.Pkg.Name() == pkg {
			if o, ok := q.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
				return o
			}
		}
	}
	return nil
}
