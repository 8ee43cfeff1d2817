package main

// Loading /repo's packages from source into SSA form.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	osexec "os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog      *ssa.Program
	fset      *token.FileSet
	pkgs      map[string]*ssa.Package // by path
	src       map[string]bool
	fns       map[string]*ssa.Function
	contracts map[string]*Contract
	lemmas    []*Contract
	loops     map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	globals   map[*ssa.Global]*Cell
	gvals     map[*Cell]Val
	ginit     bool
	gstate    *State
	gmut      map[*Cell]bool
	repo      string
	allTypes  []types.Type
	known     map[string]bool // functions the specifications know
	flats     map[*ssa.Function]map[flatLoop]int
	implCache map[string][]types.Type
	specs     *specSet
}

const modpath = "defund"

var rootPkgs = []string{
	"defund/types",
	"defund/x/dex/amm",
	"defund/x/dex/types",
	"defund/x/dex/keeper",
	"defund/x/dex/module",
}

func repoEnv() []string {
	env := os.Environ()
	gobin := "/usr/local/go1.23/bin"
	if out, err := osexec.Command("bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env").Output(); err == nil {
		env = strings.Split(strings.TrimSpace(string(out)), "\n")
	} else {
		env = append(env, "PATH="+gobin+":"+os.Getenv("PATH"), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off")
	}
	return append(env, "GOFLAGS=-mod=readonly -buildvcs=false")
}

func loadProgram(repo string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile,
		Dir: repo,
		Env: repoEnv(),
	}
	// the go command looked up by go/packages comes from PATH of this process
	for _, e := range cfg.Env {
		if strings.HasPrefix(e, "PATH=") {
			os.Setenv("PATH", strings.TrimPrefix(e, "PATH="))
		}
	}
	pk, err := packages.Load(cfg, rootPkgs...)
	if err != nil {
		return nil, err
	}
	var bad []string
	for _, p := range pk {
		for _, e := range p.Errors {
			bad = append(bad, e.Error())
		}
	}
	if len(bad) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(bad, "; "))
	}
	prog, sp := ssautil.Packages(pk, ssa.InstantiateGenerics|ssa.GlobalDebug)
	P := &Program{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, src: map[string]bool{}, fns: map[string]*ssa.Function{},
		contracts: map[string]*Contract{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, globals: map[*ssa.Global]*Cell{},
		gvals: map[*Cell]Val{}, repo: repo, implCache: map[string][]types.Type{}}
	for _, p := range sp {
		if p == nil {
			return nil, fmt.Errorf("package not built")
		}
		p.Build()
		P.pkgs[p.Pkg.Path()] = p
		P.src[p.Pkg.Path()] = true
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && P.src[f.Pkg.Pkg.Path()] {
			P.fns[fnName(f)] = f
		}
	}
	for _, p := range sp {
		for _, m := range p.Members {
			switch mm := m.(type) {
			case *ssa.Function:
				P.fns[fnName(mm)] = mm
			case *ssa.Type:
				P.allTypes = append(P.allTypes, mm.Type(), types.NewPointer(mm.Type()))
				for _, t := range []types.Type{mm.Type(), types.NewPointer(mm.Type())} {
					if types.IsInterface(t) {
						continue
					}
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil {
							P.fns[fnName(f)] = f
						}
					}
				}
			}
		}
	}
	sort.Slice(P.allTypes, func(i, j int) bool { return P.allTypes[i].String() < P.allTypes[j].String() })
	return P, nil
}

func (P *Program) isSource(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return P.src[fn.Pkg.Pkg.Path()] && !isGenerated(P.file(fn))
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return P.src[o.Pkg.Pkg.Path()]
	}
	// promoted method wrappers, bound methods and thunks
	if fn.Synthetic != "" && len(fn.Blocks) > 0 {
		return true
	}
	return false
}

func (P *Program) file(fn *ssa.Function) string {
	if fn.Pos() == token.NoPos {
		return ""
	}
	return P.fset.Position(fn.Pos()).Filename
}

func isGenerated(f string) bool {
	return strings.HasSuffix(f, ".pb.go") && false
}

func (P *Program) pos(p token.Pos) string {
	if p == token.NoPos {
		return "?"
	}
	q := P.fset.Position(p)
	f, err := filepath.Rel(P.repo, q.Filename)
	if err != nil {
		f = q.Filename
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (P *Program) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if l, ok := P.loops[fn]; ok {
		return l
	}
	l := findLoops(fn)
	P.loops[fn] = l
	return l
}

// fn resolves a short name: "amm.Deposit", "keeper.Keeper.SetPair",
// "(*amm.BasicPool).BuyAmountOver", "types.Order.Validate".
func (P *Program) fn(short string) *ssa.Function {
	if f, ok := P.fns[short]; ok {
		return f
	}
	full := func(s string) string {
		for path := range P.pkgs {
			n := P.pkgs[path].Pkg.Name()
			if strings.HasPrefix(s, n+".") {
				// "types" is ambiguous: prefer x/dex/types
				if n == "types" && path == "defund/types" {
					continue
				}
				return path + s[len(n):]
			}
		}
		if strings.HasPrefix(s, "utils.") {
			return "defund/types" + s[len("utils"):]
		}
		return s
	}
	var cands []string
	if strings.HasPrefix(short, "(") {
		i := strings.Index(short, ")")
		recv := short[1:i]
		ptr := strings.HasPrefix(recv, "*")
		r := full(strings.TrimPrefix(recv, "*"))
		if ptr {
			r = "*" + r
		}
		cands = append(cands, "("+r+")"+short[i+1:])
	} else {
		cands = append(cands, full(short))
	}
	for _, c := range cands {
		if f, ok := P.fns[c]; ok {
			return f
		}
	}
	return nil
}

func (P *Program) globalCell(g *ssa.Global) *Cell {
	if c, ok := P.globals[g]; ok {
		return c
	}
	c := newCell("global:"+g.String(), g.Type().(*types.Pointer).Elem())
	P.globals[g] = c
	return c
}

func (P *Program) method(t types.Type, m *types.Func) *ssa.Function {
	ms := P.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return P.prog.MethodValue(sel)
}

// impls: the concrete types of the loaded packages implementing an interface.
func (P *Program) impls(it types.Type) []types.Type {
	k := it.String()
	if r, ok := P.implCache[k]; ok {
		return r
	}
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	for _, t := range P.allTypes {
		if types.IsInterface(t) || strings.Contains(t.String(), "Mock") {
			continue
		}
		if p, ok := t.(*types.Pointer); ok {
			if types.IsInterface(p.Elem()) {
				continue
			}
			if types.Implements(p.Elem(), iface) {
				continue // the value type is listed
			}
		}
		if types.Implements(t, iface) {
			out = append(out, t)
		}
	}
	P.implCache[k] = out
	return out
}

// sharedBase: all implementations resolve the method to one and the same
// pointer-receiver method of an embedded base object.
func (P *Program) sharedBase(impls []types.Type, m *types.Func) *ssa.Function {
	var obj *types.Func
	for _, t := range impls {
		ms := P.prog.MethodSets.MethodSet(t)
		sel := ms.Lookup(m.Pkg(), m.Name())
		if sel == nil {
			return nil
		}
		f := sel.Obj().(*types.Func)
		if obj == nil {
			obj = f
		} else if obj != f {
			return nil
		}
	}
	if obj == nil {
		return nil
	}
	if len(impls) < 2 {
		return nil
	}
	fn := P.prog.FuncValue(obj)
	if fn == nil || fn.Signature.Recv() == nil {
		return nil
	}
	p, ok := fn.Signature.Recv().Type().(*types.Pointer)
	if !ok || !strings.HasSuffix(named(p.Elem()), "amm.BaseOrder") {
		return nil
	}
	return fn
}

// externals lists the external callees of the loaded packages (for development).
func (P *Program) listExternals() {
	cnt := map[string]int{}
	who := map[string]string{}
	for _, f := range P.fns {
		if strings.Contains(P.file(f), ".pb.") || strings.Contains(P.file(f), "autocli") || strings.Contains(P.file(f), "simulation") {
			continue
		}
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						cc := c.Common()
						if s := cc.StaticCallee(); s != nil {
							if s.Parent() == nil && (s.Pkg == nil || !P.src[s.Pkg.Pkg.Path()]) {
								cnt[fnName(s)]++
								who[fnName(s)] = f.String()
							}
						} else if cc.IsInvoke() {
							cnt["invoke "+calleeName(cc)]++
							who["invoke "+calleeName(cc)] = f.String()
						}
					}
				}
			}
			for _, a := range f.AnonFuncs {
				visit(a)
			}
		}
		visit(f)
	}
	var ks []string
	for k := range cnt {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("%4d %s   [%s]\n", cnt[k], k, who[k])
	}
}
