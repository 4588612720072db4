package main

// Methods that change nothing but boolean and integer fields of the session
// objects are analysed once, as entry points of their own under the object
// invariants, and not again at every call: a call forgets those fields, assumes
// the invariants for their new values and returns an unknown result.  A method
// that needs more than the invariants loses its summary and is analysed at every
// call instead.

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type effect struct {
	bools map[string]types.Type // Type.field stores of boolean and integer fields
	bad   string                // any other effect
	loop  bool                  // contains a loop
}

func (p *Program) effects(fn *ssa.Function, single map[string]bool, memo map[*ssa.Function]*effect) *effect {
	if ef := memo[fn]; ef != nil {
		return ef
	}
	ef := &effect{bools: map[string]types.Type{}}
	memo[fn] = ef
	local := func(v ssa.Value) bool {
		for i := 0; i < 20; i++ {
			switch x := v.(type) {
			case *ssa.Alloc, *ssa.MakeSlice:
				return true
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.Slice:
				v = x.X
			default:
				return false
			}
		}
		return false
	}
	for _, b := range fn.Blocks {
		for _, sc := range b.Succs {
			if sc.Dominates(b) {
				ef.loop = true
			}
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if local(in.Addr) {
					continue
				}
				if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
					o, f := fieldOf(fa.X.Type(), fa.Field)
					if bt, isB := in.Val.Type().Underlying().(*types.Basic); isB && bt.Info()&(types.IsBoolean|types.IsInteger) != 0 && single[o] {
						ef.bools[o+"."+f] = in.Val.Type()
						continue
					}
				}
				ef.bad = "store"
			case *ssa.Send, *ssa.Select, *ssa.Go, *ssa.MakeClosure, *ssa.Panic:
				ef.bad = "control"
			case *ssa.MapUpdate:
				if _, ok := in.Map.(*ssa.MakeMap); !ok {
					ef.bad = "map"
				}
			case *ssa.UnOp:
				if in.Op.String() == "<-" {
					ef.bad = "receive"
				}
			}
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			// streams, painters and hooks are code of others that does not call back
			cc := c.Common()
			if !cc.IsInvoke() && cc.StaticCallee() == nil {
				if _, ok := cc.Value.(*ssa.Builtin); !ok && !isFieldLoad(cc.Value) {
					ef.bad = "dynamic call"
				}
			}
			if g := cc.StaticCallee(); g != nil && p.inModule(g) {
				sub := p.effects(g, single, memo)
				if sub.bad != "" {
					ef.bad = sub.bad + " in " + fnName(g)
				}
				for k, t := range sub.bools {
					ef.bools[k] = t
				}
				ef.loop = ef.loop || sub.loop
			}
			if bi, ok := c.Common().Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "copy", "append":
					if bi.Name() == "copy" && !local(c.Common().Args[0]) {
						ef.bad = "copy"
					}
				case "close":
					ef.bad = "close"
				}
			}
		}
	}
	return ef
}

func (p *Program) summaries(singles []string) map[*ssa.Function]*summary {
	single := map[string]bool{}
	for _, s := range singles {
		single[s] = true
	}
	memo := map[*ssa.Function]*effect{}
	out := map[*ssa.Function]*summary{}
next:
	for _, fn := range p.Funcs {
		if !isSource(fn) || fn.Parent() != nil || fn.Signature.Recv() == nil {
			continue
		}
		if _, ok := fn.Params[0].Type().(*types.Pointer); !ok || !single[typeName(fn.Params[0].Type())] {
			continue
		}
		for _, q := range fn.Params[1:] {
			switch q.Type().Underlying().(type) {
			case *types.Signature, *types.Pointer:
				continue next
			}
		}
		// callers need to know what a returned object holds
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if _, ok := fn.Signature.Results().At(i).Type().Underlying().(*types.Pointer); ok {
				continue next
			}
		}
		ef := p.effects(fn, single, memo)
		// a method that changes several fields may be one step of a larger change
		if ef.bad != "" || !ef.loop || len(ef.bools) > 1 {
			continue
		}
		for _, t := range ef.bools {
			if t.Underlying().(*types.Basic).Info()&types.IsInteger != 0 {
				continue next
			}
		}
		sm := &summary{writes: ef.bools}
		for k := range ef.bools {
			sm.keys = append(sm.keys, k)
		}
		sort.Strings(sm.keys)
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			switch u := fn.Signature.Results().At(i).Type().Underlying().(type) {
			case *types.Basic:
				if u.Info()&types.IsInteger != 0 {
					sm.facts = append(sm.facts, &sumFact{res: i, min: 0}, &sumFact{res: i, min: 1})
				}
			case *types.Slice:
				sm.facts = append(sm.facts, &sumFact{res: i, ln: true, min: 1})
			}
		}
		out[fn] = sm
	}
	return out
}

func isFieldLoad(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	_, ok = u.X.(*ssa.FieldAddr)
	return ok
}

// readers are small methods of session objects that only read fields and return
// one slice; the map gives the fields they read.
func (p *Program) readers(singles []string) map[*ssa.Function]map[string]bool {
	single := map[string]bool{}
	for _, s := range singles {
		single[s] = true
	}
	memo := map[*ssa.Function]*effect{}
	out := map[*ssa.Function]map[string]bool{}
next:
	for _, fn := range p.Funcs {
		if !isSource(fn) || fn.Parent() != nil || fn.Signature.Recv() == nil || !single[typeName(fn.Params[0].Type())] || fn.Signature.Results().Len() != 1 {
			continue
		}
		if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice); !ok {
			continue
		}
		for _, q := range fn.Params {
			switch q.Type().Underlying().(type) {
			case *types.Pointer, *types.Interface:
			default:
				continue next
			}
		}
		ef := p.effects(fn, single, memo)
		if ef.bad != "" || len(ef.bools) > 0 || ef.loop || len(fn.Params) < 2 {
			continue
		}
		rd := map[string]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					o, f := fieldOf(in.X.Type(), in.Field)
					rd[o+"."+f] = true
				case ssa.CallInstruction:
					continue next
				case *ssa.IndexAddr, *ssa.Slice:
					continue next
				}
			}
		}
		out[fn] = rd
	}
	return out
}
