package main

// Package-level variables: their values come from symbolically executing the
// package initialisers (straight-line, tolerating what is out of reach).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *exec) runInits() {
	P := x.P
	if P.ginit {
		return
	}
	P.ginit = true
	P.gvals = map[*Cell]Val{}
	P.gstate = newState()
	P.gmut = map[*Cell]bool{}
	for _, fn := range P.fns {
		if !P.isSource(fn) || fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					a := s.Addr
					for {
						if f, ok := a.(*ssa.FieldAddr); ok {
							a = f.X
						} else if f, ok := a.(*ssa.IndexAddr); ok {
							a = f.X
						} else {
							break
						}
					}
					if g, ok := a.(*ssa.Global); ok {
						P.gmut[P.globalCell(g)] = true
					}
				}
			}
		}
	}
	for _, path := range rootPkgs {
		p := P.pkgs[path]
		if p == nil {
			continue
		}
		fn := p.Func("init")
		if fn == nil {
			continue
		}
		fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, unroll: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				x.initInstr(P.gstate, fr, in)
			}
		}
	}
}

func (x *exec) initInstr(st *State, fr *Frame, in ssa.Instruction) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); !ok {
				if _, ok := r.(error); !ok {
					panic(r)
				}
			}
		}
	}()
	switch v := in.(type) {
	case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef:
	case *ssa.Store:
		p, ok := x.val(st, fr, v.Addr).(Ptr)
		if !ok {
			return
		}
		val := x.val(st, fr, v.Val)
		if p.Cell != nil && st.cells[p.Cell] == nil {
			st.cells[p.Cell] = zeroVal(p.Cell.T)
		}
		x.store(st, p, val)
	case *ssa.MapUpdate:
		x.mapUpdate(st, x.val(st, fr, v.Map), x.val(st, fr, v.Key), x.val(st, fr, v.Value))
	case *ssa.Call:
		if f, ok := v.Call.Value.(*ssa.Function); ok && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
			return
		}
		outs := x.call(st, fr, &v.Call, v)
		if len(outs) != 1 || outs[0].kind != oReturn {
			return
		}
		*st = *outs[0].st
		x.setResult(fr, v, outs[0].vals)
	default:
		if vv, ok := in.(ssa.Value); ok {
			if _, ok := vv.(*ssa.TypeAssert); ok {
				return
			}
			fr.env[vv] = x.simple(st, fr, vv)
		}
	}
}

// globalVal is the value of a package variable (or of a cell it refers to).
func (x *exec) globalVal(st *State, c *Cell) Val {
	if x.inInit {
		if v, ok := x.P.gstate.cells[c]; ok {
			return v
		}
		panic(unsupported("package variable not yet initialised"))
	}
	if !strings.HasPrefix(c.name, "global:") {
		panic(unsupported("load of unknown cell " + c.name))
	}
	g := strings.TrimPrefix(c.name, "global:")
	if strings.HasPrefix(g, modpath+"/") {
		if !x.P.ginit {
			saveU, saveR := x.unit, x.recording
			x.inInit, x.recording = true, true
			x.runInits()
			x.inInit, x.recording, x.unit = false, saveR, saveU
		}
		if v, ok := x.P.gstate.cells[c]; ok && !x.P.gmut[c] {
			for k, w := range x.P.gstate.cells {
				if _, ok := st.cells[k]; !ok && !strings.HasPrefix(k.name, "global:") {
					st.cells[k] = w
				}
			}
			st.cells[c] = v
			for _, p := range x.P.gstate.pc {
				st.assume(p)
			}
			return v
		}
	}
	// an unknown but fixed value
	var ls []*Term
	for _, l := range flatten(c.T) {
		ls = append(ls, UF("global:"+g+l.path, l.sort))
	}
	v := build(c.T, ls)
	x.assumeRange(st, c.T, v)
	switch vv := v.(type) {
	case Ptr: // registered errors and the like are never nil
		st.assume(Ne(vv.Ref, I(0)))
	case Iface:
		st.assume(Ne(vv.Ref, I(0)))
	}
	st.cells[c] = v
	return v
}

var _ = types.Typ
