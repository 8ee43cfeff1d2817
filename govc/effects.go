package main

// Frame rule by effects: a unit with "option effects" promises only that the
// function leaves the stores, balances, supplies and parameters alone. The rule
// holds when nothing reachable from the function's body can write them: the
// call graph is closed over static callees, function values made anywhere in
// reachable code, and every implementation of an interface of this module; a
// call that leaves the module must go to a package of the list below, and must
// not receive a context, or must be one of the reading store calls.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var quietPkgs = []string{"cosmossdk.io/math", "cosmossdk.io/errors", "fmt", "sort", "strings", "strconv", "math", "math/big", "errors", "bytes", "time", "slices", "maps", "cmp", "github.com/pkg/errors"}

var quietCalls = []string{
	"cosmos-sdk/types.NewCoin", "cosmos-sdk/types.NewCoins", "cosmos-sdk/types.Coin)", "cosmos-sdk/types.Coins)", "cosmos-sdk/types.AccAddress)",
	"cosmos-sdk/types.AccAddressFromBech32", "cosmos-sdk/types.ValidateDenom",
	"cosmos-sdk/types.UnwrapSDKContext", "cosmos-sdk/types.Context).BlockTime", "cosmos-sdk/types.Context).BlockHeight",
	"params/types.Subspace).Get", "params/types.Subspace).GetParamSet", "params/types.Subspace).GetIfExists", "params/types.Subspace).Has",
}

// freshRoot: the address lies in an object the function (or the function whose
// closure it is) allocated.
func freshRoot(a ssa.Value) bool {
	for {
		switch v := a.(type) {
		case *ssa.FieldAddr:
			a = v.X
		case *ssa.IndexAddr:
			a = v.X
		case *ssa.Slice:
			a = v.X
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.FreeVar:
			return true
		default:
			return false
		}
	}
}

// freshReceivers: a math/big call whose target is a number made here.
func freshReceivers(g *ssa.Function, in ssa.Instruction) bool {
	if g.Signature.Recv() == nil {
		return true // NewInt and the like
	}
	c, ok := in.(ssa.CallInstruction)
	if !ok || c.Common().StaticCallee() != g {
		return false
	}
	switch g.Name() {
	case "Sign", "Cmp", "CmpAbs", "IsInt64", "IsUint64", "Int64", "Uint64", "BitLen", "String":
		return true
	}
	a := c.Common().Args[0]
	for {
		switch v := a.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.Call:
			s := v.Call.StaticCallee()
			if s == nil || s.Pkg == nil || s.Pkg.Pkg.Path() != "math/big" {
				return false
			}
			if s.Signature.Recv() == nil {
				return true
			}
			a = v.Call.Args[0]
		default:
			return false
		}
	}
}

func (x *exec) effectFree(root *ssa.Function, noWrites bool) []string {
	P := x.P
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	var bad []string
	push := func(f *ssa.Function) {
		if f != nil && !seen[f] {
			seen[f] = true
			work = append(work, f)
		}
	}
	inModule := func(f *ssa.Function) bool {
		g := f
		for g.Parent() != nil {
			g = g.Parent()
		}
		if g.Pkg != nil {
			return strings.HasPrefix(g.Pkg.Pkg.Path(), modpath+"/")
		}
		return g.Synthetic != "" && len(f.Blocks) > 0 || g.Origin() != nil && g.Origin().Pkg != nil && strings.HasPrefix(g.Origin().Pkg.Pkg.Path(), modpath+"/")
	}
	quiet := func(name, pkg string) bool {
		for _, q := range quietPkgs {
			if pkg == q {
				return true
			}
		}
		for _, q := range quietCalls {
			if strings.Contains(name, q) && (strings.HasSuffix(q, ")") || strings.HasSuffix(name, q)) {
				return true
			}
		}
		return false
	}
	note := func(f *ssa.Function, what string) {
		s := fmt.Sprintf("%s, reached in %s", what, fnName(f))
		for _, b := range bad {
			if b == s {
				return
			}
		}
		bad = append(bad, s)
	}
	sig := root.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		if _, ok := sig.Params().At(i).Type().Underlying().(*types.Signature); ok {
			return []string{"the function takes a function"}
		}
	}
	push(root)
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if len(f.Blocks) == 0 {
			note(f, "no body")
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if o == nil || *o == nil {
						continue
					}
					if g, ok := (*o).(*ssa.Function); ok {
						if inModule(g) {
							push(g)
						} else {
							pk := ""
							if g.Pkg != nil {
								pk = g.Pkg.Pkg.Path()
							} else if g.Object() != nil && g.Object().Pkg() != nil {
								pk = g.Object().Pkg().Path()
							} else if g.Origin() != nil && g.Origin().Object() != nil && g.Origin().Object().Pkg() != nil {
								pk = g.Origin().Object().Pkg().Path()
							}
							if noWrites && pk == "math/big" && freshReceivers(g, in) {
								continue
							}
							if !quiet(fnName(g), pk) || noWrites && (strings.HasSuffix(g.Name(), "Mut") || pk == "math/big" || pk == "sort" || pk == "slices") {
								note(f, "call of "+fnName(g))
							}
						}
					}
				}
				if noWrites {
					switch w := in.(type) {
					case *ssa.Store:
						if !freshRoot(w.Addr) {
							note(f, "a write to memory it did not allocate")
						}
					case *ssa.MapUpdate:
						if _, ok := w.Map.(*ssa.MakeMap); !ok {
							note(f, "a write to a map it did not make")
						}
					case *ssa.Send, *ssa.Go, *ssa.Select:
						note(f, "concurrency")
					}
				}
				if sto, ok := in.(*ssa.Store); ok {
					if g, ok := sto.Addr.(*ssa.Global); ok {
						note(f, "assignment to "+g.String())
					}
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok || !c.Common().IsInvoke() {
					continue
				}
				cc := c.Common()
				m := cc.Method
				it := cc.Value.Type()
				if n, ok := it.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modpath+"/") {
					im := P.impls(it)
					if len(im) == 0 {
						note(f, "call of "+m.FullName())
					}
					for _, t := range im {
						g := P.method(t, m)
						if g == nil {
							note(f, "method "+m.Name()+" of "+t.String())
							continue
						}
						push(g)
					}
					continue
				}
				pk := ""
				if m.Pkg() != nil {
					pk = m.Pkg().Path()
				}
				if pk != "" && !quiet(m.FullName(), pk) || pk == "" && m.Name() != "Error" {
					note(f, "call of "+m.FullName())
				}
			}
		}
	}
	var names []string
	for f := range seen {
		names = append(names, fnName(f))
	}
	sort.Strings(names)
	for _, n := range names {
		x.inlined[n] = true
	}
	sort.Strings(bad)
	return bad
}

func (u *Unit) runEffects(fn *ssa.Function) {
	st := newState()
	u.reach = 1
	bad := u.x.effectFree(fn, len(u.con.modifies) == 0)
	if len(bad) == 0 {
		trivialCount++
	}
	for _, b := range bad {
		u.oblige("effects", b, st, tFalse)
	}
	for _, m := range u.con.modifies {
		if m != "heap" {
			u.oblige("effects", "modifies clause", st, tFalse)
		}
	}
	for _, q := range u.con.ensures {
		if q.name != "only" || len(q.text) == 0 || strings.TrimSpace(q.text) != "onlychanges()" {
			u.oblige("effects", "postcondition "+q.name, st, tFalse)
		}
	}
}
