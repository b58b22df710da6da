package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/cybergarage/go-sqlparser"

// Program is the type-checked repository in SSA form.
type Program struct {
	dir          string
	fset         *token.FileSet
	pkgs         []*packages.Package
	byPath       map[string]*packages.Package
	prog         *ssa.Program
	ssaPkgs      map[string]*ssa.Package
	gram         *Grammar
	eng          *E
	terminalNode types.Type
	loops        map[*ssa.Function]*loopInfo
	allFns       []*ssa.Function
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:   dir,
		Tests: false,
		Env:   os.Environ(),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{dir: dir, byPath: map[string]*packages.Package{}, ssaPkgs: map[string]*ssa.Package{}, loops: map[*ssa.Function]*loopInfo{}}
	var errs []string
	for _, k := range pkgs {
		for _, e := range k.Errors {
			errs = append(errs, e.Error())
		}
		p.byPath[k.PkgPath] = k
		p.fset = k.Fset
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages under %s", dir)
	}
	p.pkgs = pkgs
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p.prog = prog
	for i, s := range sp {
		if s == nil {
			continue
		}
		p.ssaPkgs[pkgs[i].PkgPath] = s
		s.Build()
	}
	gdir := filepath.Join(dir, "sql/parser/sqlite/antlr")
	g, err := loadGrammar(gdir)
	if err != nil {
		return nil, err
	}
	p.gram = g
	for _, im := range prog.AllPackages() {
		if strings.HasPrefix(im.Pkg.Path(), "github.com/antlr4-go/antlr") {
			if o := im.Pkg.Scope().Lookup("TerminalNode"); o != nil {
				p.terminalNode = o.Type()
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	for f := range ssautil.AllFunctions(prog) {
		if !seen[f] && f.Blocks != nil && p.inRepo(f) {
			seen[f] = true
			p.allFns = append(p.allFns, f)
		}
	}
	sort.Slice(p.allFns, func(i, j int) bool {
		if p.allFns[i].Pos() != p.allFns[j].Pos() {
			return p.allFns[i].Pos() < p.allFns[j].Pos()
		}
		return p.allFns[i].String() < p.allFns[j].String()
	})
	return p, nil
}

func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o != f {
			if o.Pkg != nil {
				return o.Pkg.Pkg.Path()
			}
		}
		if ob := f.Object(); ob != nil && ob.Pkg() != nil {
			return ob.Pkg().Path()
		}
	}
	return ""
}

// inRepo reports hand-written repository code (the generated parser excluded).
func (p *Program) inRepo(fn *ssa.Function) bool {
	pp := fnPkgPath(fn)
	return (pp == modPath || strings.HasPrefix(pp, modPath+"/")) && pp != antlrPkg
}

func (p *Program) isExternal(fn *ssa.Function) bool {
	if fn.Synthetic != "" && fn.Blocks != nil && fn.Pkg == nil {
		return false // promoted-method and bound-method wrappers
	}
	pp := fnPkgPath(fn)
	if pp == antlrPkg {
		return !(fn.Name() == "Accept" || strings.HasPrefix(fn.Name(), "Visit"))
	}
	return !(pp == modPath || strings.HasPrefix(pp, modPath+"/"))
}

func (p *Program) loopInfo(fn *ssa.Function) *loopInfo {
	if l, ok := p.loops[fn]; ok {
		return l
	}
	l := computeLoops(fn)
	p.loops[fn] = l
	return l
}

func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	sel := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

func (p *Program) methodNamed(t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Program) posKey(pos token.Pos, fn *ssa.Function, idx int) string {
	return fmt.Sprintf("%s.%d", fn.String(), idx)
}

func (p *Program) where(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.fset.Position(pos)
	rel, err := filepath.Rel(p.dir, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// fn looks up a package-level function, method "(T).M" or "(*T).M".
func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.ssaPkgs[modPath+"/"+pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (p *Program) typ(pkg, name string) types.Type {
	sp := p.ssaPkgs[modPath+"/"+pkg]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// initBase evaluates the package initialisers of the repository.
func (e *E) initBase() {
	p := e.prog
	st := &State{pc: e.True, heap: map[int]*T{}}
	var paths []string
	for k := range p.ssaPkgs {
		if k != antlrPkg {
			paths = append(paths, k)
		}
	}
	sort.Strings(paths)
	for _, k := range paths {
		for _, m := range p.ssaPkgs[k].Members {
			if g, ok := m.(*ssa.Global); ok {
				st.heap[e.globalPtr(g).id] = e.zero(g.Type().Underlying().(*types.Pointer).Elem())
			}
		}
	}
	done := map[string]bool{}
	var run func(path string)
	run = func(path string) {
		if done[path] || p.ssaPkgs[path] == nil || path == antlrPkg {
			return
		}
		done[path] = true
		pk := p.byPath[path]
		var imps []string
		for i := range pk.Imports {
			imps = append(imps, i)
		}
		sort.Strings(imps)
		for _, i := range imps {
			run(i)
		}
		if f := p.ssaPkgs[path].Func("init"); f != nil && f.Blocks != nil {
			e.callFunc(st, f, nil, nil, token.NoPos)
			if st.pc == e.False {
				st.pc = e.True
			}
		}
	}
	for _, k := range paths {
		run(k)
	}
	e.base = st
	e.oblig = map[string]*Obligation{}
	e.oblOrd = nil
	e.events = nil
}
