package main

// Summaries of pure functions: a function that changes nothing is analysed once
// for all arguments; the facts its results always satisfy (from templates) are
// used at every call.  When an obligation inside it depends on the arguments, it
// has no summary and is analysed at every call instead.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// pureTerm is a coefficient times an integer (or a length) of a result (idx < 0:
// result -1-idx) or an argument.
type pureTerm struct {
	c   int64
	idx int
}

type pureFact struct {
	boolRes int // result index whose truth guards the fact, -1 none
	val     bool
	sign    int // result index (int) whose sign guards the fact, -1 none
	nonneg  bool
	terms   []pureTerm
	k       int64
	nonNil  int // result that is not nil, -1 none
	text    string
}

type pureSum struct {
	fn    *ssa.Function
	ok    bool
	why   string
	facts []pureFact
	eng   *Eng
	split bool
	rets  []retState
	args  []Val
}

type pureSet struct {
	p    *Program
	memo map[*ssa.Function]*pureSum
	eff  map[*ssa.Function]*effect
}

func newPureSet(p *Program) *pureSet {
	return &pureSet{p: p, memo: map[*ssa.Function]*pureSum{}, eff: map[*ssa.Function]*effect{}}
}

func sizedArg(t types.Type) byte {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return 'l'
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return 'i'
		}
		if u.Info()&types.IsString != 0 {
			return 'l'
		}
		if u.Info()&types.IsBoolean != 0 {
			return 'b'
		}
	}
	return 0
}

func (ps *pureSet) eligible(fn *ssa.Function) bool {
	if fn.Blocks == nil || !ps.p.inModule(fn) || fn.Synthetic != "" || fn.Parent() != nil || fn.Signature.Results().Len() == 0 {
		return false
	}
	for _, p := range fn.Params {
		switch u := p.Type().Underlying().(type) {
		case *types.Basic:
		case *types.Struct:
			if u.NumFields() > 0 {
				return false
			}
		case *types.Slice:
			switch u.Elem().Underlying().(type) {
			case *types.Basic, *types.Slice:
			default:
				return false
			}
		default:
			return false
		}
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		switch fn.Signature.Results().At(i).Type().Underlying().(type) {
		case *types.Basic, *types.Slice:
		default:
			return false
		}
	}
	ef := ps.p.effects(fn, nil, ps.eff)
	return ef.bad == "" && len(ef.bools) == 0
}

// get returns the summary of fn, or nil when it is not a pure helper.
func (ps *pureSet) get(fn *ssa.Function) *pureSum {
	if s, ok := ps.memo[fn]; ok {
		return s
	}
	ps.memo[fn] = nil // recursion: no summary
	if !ps.eligible(fn) {
		return nil
	}
	// callees first
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && ps.p.inModule(g) {
					ps.get(g)
				}
			}
		}
	}
	s := ps.analyse(fn)
	ps.memo[fn] = s
	return s
}

func (ps *pureSet) analyse(fn *ssa.Function) (s *pureSum) {
	s = &pureSum{fn: fn}
	defer func() {
		if x := recover(); x != nil {
			s.ok, s.why = false, fmt.Sprint(x)
		}
	}()
	e := newEng(ps.p, nil)
	e.pure = ps
	s.eng = e
	st := newState()
	fi := e.info(fn)
	fr := &Frame{fi: fi, env: make([]Val, len(fi.vals))}
	fr.ctx = e.childCtx(0, nil, fn)
	st.fr, st.frO = fr, true
	args, _ := e.rootArgs(st, fn)
	for i, p := range fn.Params {
		fr.env[fi.num[p]] = args[i]
	}
	_, _, rets := e.runRegion(fi, nil, fn.Blocks[0], []*State{st})
	s.ok, s.rets, s.args = true, rets, args
	for _, k := range e.oblKeys {
		if o := e.obls[k]; o.failed {
			s.ok = false
			s.why = o.rule + ": " + o.msg + " at " + ps.p.instrPos(o.at)
			return s
		}
	}
	// candidate facts
	var as, rs []int // argument / result terms of integer kind
	var bools, ints []int
	for i, p := range fn.Params {
		if k := sizedArg(p.Type()); k == 'l' || k == 'i' && p.Type().Underlying().(*types.Basic).Kind() == types.Int {
			as = append(as, i)
		}
	}
	res := fn.Signature.Results()
	var cands []pureFact
	for i := 0; i < res.Len(); i++ {
		switch sizedArg(res.At(i).Type()) {
		case 'l':
			rs = append(rs, -1-i)
			if _, ok := res.At(i).Type().Underlying().(*types.Slice); ok {
				cands = append(cands, pureFact{boolRes: -1, sign: -1, nonNil: i, text: "result not nil"})
			}
		case 'i':
			rs = append(rs, -1-i)
			ints = append(ints, i)
		case 'b':
			bools = append(bools, i)
		}
	}
	add := func(k int64, ts ...pureTerm) {
		f := pureFact{boolRes: -1, sign: -1, nonNil: -1, terms: ts, k: k}
		cands = append(cands, f)
		for _, b := range bools {
			for _, v := range []bool{true, false} {
				g := f
				g.boolRes, g.val = b, v
				cands = append(cands, g)
			}
		}
		for _, b := range ints {
			for _, v := range []bool{true, false} {
				g := f
				g.sign, g.nonneg = b, v
				cands = append(cands, g)
			}
		}
	}
	for _, r := range rs {
		for _, k := range []int64{0, -1, 1} {
			add(k, pureTerm{1, r})
		}
		for _, a := range as {
			add(0, pureTerm{1, a}, pureTerm{-1, r})
			add(-1, pureTerm{1, a}, pureTerm{-1, r})
			add(0, pureTerm{1, r}, pureTerm{-1, a})
			for _, b := range as {
				if b != a {
					add(0, pureTerm{1, a}, pureTerm{-1, r}, pureTerm{-1, b})
					if b > a {
						add(0, pureTerm{1, a}, pureTerm{1, b}, pureTerm{-1, r})
					}
				}
			}
		}
		for _, q := range rs {
			if q != r {
				add(0, pureTerm{1, q}, pureTerm{-1, r})
			}
		}
	}
	for _, a := range as {
		if len(bools) > 0 || len(ints) > 0 {
			add(-1, pureTerm{1, a})
			for _, b := range as {
				if b != a {
					add(0, pureTerm{1, a}, pureTerm{-1, b})
				}
			}
		}
	}
	have := map[string]bool{}
	for _, f := range cands {
		base := fmt.Sprint(f.terms, f.k, f.nonNil)
		if have[base] {
			continue // unguarded form holds
		}
		if ps.factHolds(e, f, rets, args) {
			if f.boolRes < 0 && f.sign < 0 {
				have[base] = true
			}
			if f.sign >= 0 {
				s.split = true
			}
			s.facts = append(s.facts, f)
		}
	}
	return s
}

func resultOf(v Val, i int) Val {
	if t, ok := v.(TupleV); ok {
		return t[i]
	}
	return v
}

func (e *Eng) pureLin(st *State, f pureFact, args []Val, res Val) Lin {
	l := Lin{K: f.k}
	for _, t := range f.terms {
		var v Val
		if t.idx < 0 {
			v = resultOf(res, -1-t.idx)
		} else {
			v = args[t.idx]
		}
		switch v.(type) {
		case IntV:
			l = l.addMul(e.intOf(st, v, nil), t.c)
		default:
			l = l.addMul(e.lenOf(st, v, nil), t.c)
		}
	}
	return l
}

func (ps *pureSet) factHolds(e *Eng, f pureFact, rets []retState, args []Val) bool {
	n := 0
	for _, r := range rets {
		if r.st.dead {
			continue
		}
		st := r.st
		if f.boolRes >= 0 {
			st = st.fork()
			if st = st.assume(boolOf(e, st, resultOf(r.v, f.boolRes), nil), f.val); st == nil {
				continue
			}
		}
		if f.sign >= 0 {
			st = st.fork()
			if st = st.assume(BoolV{Op: '>', L: e.intOf(st, resultOf(r.v, f.sign), nil)}, f.nonneg); st == nil {
				continue
			}
		}
		n++
		if f.nonNil >= 0 {
			if st.truth(e.nilTest(st, resultOf(r.v, f.nonNil), nil)) != 0 {
				return false
			}
			continue
		}
		if !st.proves(e.pureLin(st, f, args, r.v)) {
			return false
		}
	}
	return n > 0
}

// applyPure replaces a call by the facts of the summary.
func (e *Eng) applyPure(st *State, at ssa.Instruction, s *pureSum, args []Val) []callRes {
	v := e.mat(st, resultType(s.fn.Signature), e.base(st, at, "pure "+fnName(s.fn)))
	for _, f := range s.facts {
		if f.nonNil >= 0 {
			if t, ok := v.(TupleV); ok {
				t[f.nonNil] = e.nonNil(st, t[f.nonNil])
			} else {
				v = e.nonNil(st, v)
			}
			continue
		}
		if f.sign >= 0 {
			continue
		}
		l := e.pureLin(st, f, args, v)
		if f.boolRes >= 0 {
			b := boolOf(e, st, resultOf(v, f.boolRes), at)
			st.addImpl(&impl{g: []guard{{b.S, f.val}}, lins: []Lin{l}})
			continue
		}
		st.addCon(l)
	}
	sts := []*State{st}
	if s.split {
		for i := 0; i < s.fn.Signature.Results().Len(); i++ {
			iv, ok := resultOf(v, i).(IntV)
			if !ok {
				continue
			}
			has := false
			for _, f := range s.facts {
				if f.sign == i {
					has = true
				}
			}
			if !has {
				continue
			}
			var next []*State
			for _, x := range sts {
				for _, nn := range []bool{true, false} {
					y := x.fork().assume(BoolV{Op: '>', L: iv.L}, nn)
					if y == nil {
						continue
					}
					for _, f := range s.facts {
						if f.sign == i && f.nonneg == nn {
							y.addCon(e.pureLin(y, f, args, v))
						}
					}
					next = append(next, y)
				}
			}
			sts = next
		}
	}
	var out []callRes
	for _, x := range sts {
		out = append(out, callRes{x, v})
	}
	return out
}
