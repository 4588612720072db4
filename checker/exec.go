package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (e *Eng) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolK(constant.BoolVal(c.Value))
	case constant.Int:
		if i, ok := constant.Int64Val(c.Value); ok {
			return IntV{L: linK(i)}
		}
		return IntV{L: linS(e.sym("const " + c.Value.ExactString()))}
	case constant.String:
		s := constant.StringVal(c.Value)
		return e.strLit(s)
	}
	if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return IntV{L: linK(i)}
		}
	}
	return OpqV{ID: c.Value.ExactString()}
}

func (e *Eng) strLit(s string) StrV { return StrV{Lit: &s, Len: linK(int64(len(s)))} }

func (e *Eng) get(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Function:
		return FuncV{Fn: v}
	case *ssa.Builtin:
		return FuncV{B: v}
	case *ssa.Global:
		return PtrV{Obj: e.obj("var "+v.Name(), deref(v.Type()))}
	}
	i, ok := st.fr.fi.num[v]
	if !ok {
		panic("unnumbered value " + v.Name() + " in " + st.fr.fi.fn.String())
	}
	x := st.fr.env[i]
	if x == nil {
		// dead on this path (pruned) or produced by an operation we do not track
		x = e.mat(st, v.Type(), e.base(st, nil, "undef"+v.Name()))
		e.set(st, v, x)
	}
	return x
}

func (e *Eng) set(st *State, v ssa.Value, x Val) {
	st.ownFrame()
	st.fr.env[st.fr.fi.num[v]] = x
}

func (st *State) ownFrame() {
	if st.frO {
		return
	}
	f := *st.fr
	f.env = append([]Val{}, st.fr.env...)
	f.defers = st.fr.defers[:len(st.fr.defers):len(st.fr.defers)]
	st.fr = &f
	st.frO = true
}

func (e *Eng) intOf(st *State, v Val, at ssa.Instruction) Lin {
	if i, ok := v.(IntV); ok {
		return i.L
	}
	return e.freshInt(st, at, "int")
}

func boolOf(e *Eng, st *State, v Val, at ssa.Instruction) BoolV {
	if b, ok := v.(BoolV); ok {
		return b
	}
	return BoolV{Op: 's', S: e.fresh(st, at, "bool")}
}

// lenOf is the length of a slice or string value.
func (e *Eng) lenOf(st *State, v Val, at ssa.Instruction) Lin {
	switch v := v.(type) {
	case SliceV:
		return v.Len
	case StrV:
		if v.Lit != nil {
			return linK(int64(len(*v.Lit)))
		}
		return v.Len
	}
	l := e.freshInt(st, at, "len")
	st.addCon(l)
	return l
}

// nilTest is the condition v == nil.
func (e *Eng) nilTest(st *State, v Val, at ssa.Instruction) BoolV {
	sy := func(s Sym) BoolV {
		if s == 0 {
			return boolK(false)
		}
		return BoolV{Op: 's', S: s}
	}
	switch v := v.(type) {
	case PtrV:
		if v.Obj == nil {
			return boolK(true)
		}
		return sy(v.Nil)
	case SliceV:
		if v.Arr == nil {
			return boolK(true)
		}
		if v.Nil != 0 && st.proves(v.Len.AddK(-1)) {
			return boolK(false)
		}
		return sy(v.Nil)
	case IfaceV:
		if v.Null {
			return boolK(true)
		}
		if v.Dyn != nil {
			return boolK(false)
		}
		return sy(v.Nil)
	case FuncV:
		if v.Null {
			return boolK(true)
		}
		if v.Fn != nil || v.B != nil {
			return boolK(false)
		}
		return sy(v.Nil)
	}
	return BoolV{Op: 's', S: e.fresh(st, at, "isnil")}
}

// needNonNil raises the obligation that v is not nil.
func (e *Eng) needNonNil(st *State, at ssa.Instruction, v Val, what string) bool {
	b := e.nilTest(st, v, at)
	switch st.truth(b) {
	case 0:
		e.settle(st, at, "nil", what, "", true, Lin{})
		return true
	case 1:
		e.settle(st, at, "nil", what, what+" is nil here", false, Lin{})
		return false
	}
	e.settle(st, at, "nil", what, what+" may be nil here", false, Lin{})
	return st.assume(b, false) != nil
}

func (e *Eng) mono(st *State, x, y Lin) Lin {
	if x.IsConst() {
		return y.Mul(x.K)
	}
	if y.IsConst() {
		return x.Mul(y.K)
	}
	if len(x.T) > 3 || len(y.T) > 3 {
		a, b := x.Key(), y.Key()
		if a > b {
			a, b = b, a
		}
		return e.signFacts(st, linS(e.sym("mul("+a+"|"+b+")")), x, y)
	}
	p := linK(x.K * y.K)
	p = p.Add(Lin{T: x.T}.Mul(y.K)).Add(Lin{T: y.T}.Mul(x.K))
	for _, s := range x.T {
		for _, t := range y.T {
			a, b := s.S, t.S
			if a > b {
				a, b = b, a
			}
			p = p.Add(linS(e.sym(fmt.Sprintf("mul(%d,%d)", a, b))).Mul(s.C * t.C))
		}
	}
	return e.signFacts(st, p, x, y)
}

func (e *Eng) signFacts(st *State, p, x, y Lin) Lin {
	xp, yp := st.proves(x), st.proves(y)
	xn, yn := !xp && st.proves(x.Neg()), !yp && st.proves(y.Neg())
	switch {
	case xp && yp:
		st.addCon(p)
		if st.proves(x.AddK(-1)) {
			st.addCon(p.Sub(y))
		}
		if st.proves(y.AddK(-1)) {
			st.addCon(p.Sub(x))
		}
	case xn && yp || xp && yn:
		st.addCon(p.Neg())
	case xn && yn:
		st.addCon(p)
	}
	return p
}

type divRes struct {
	st   *State
	q, r Lin
}

// divide computes quotient and remainder with Go's truncation, forking on signs.
func (e *Eng) divide(st *State, x, y Lin) []divRes {
	if x.IsConst() && y.IsConst() && y.K != 0 {
		return []divRes{{st, linK(x.K / y.K), linK(x.K % y.K)}}
	}
	var out []divRes
	// sign of the divisor: only positive divisors are refined
	if !st.proves(y.AddK(-1)) {
		q := linS(e.sym("div(" + x.Key() + "|" + y.Key() + ")"))
		r := linS(e.sym("rem(" + x.Key() + "|" + y.Key() + ")"))
		return []divRes{{st, q, r}}
	}
	split := func(st *State, cond Lin) (a, b *State) {
		if st.proves(cond) {
			return st, nil
		}
		if st.proves(cond.Neg().AddK(-1)) {
			return nil, st
		}
		n := st.fork()
		a = st.assume(BoolV{Op: '>', L: cond}, true)
		b = n.assume(BoolV{Op: '>', L: cond}, false)
		return
	}
	pos, neg := split(st, x)
	name := x.Key() + "|" + y.Key()
	q := linS(e.sym("div(" + name + ")"))
	if pos != nil {
		// x = q*y + r, 0 <= r < y, q >= 0
		pos.addCon(q)
		if !y.IsConst() {
			if pos.proves(y.Sub(x).AddK(-1)) {
				out = append(out, divRes{pos, Lin{}, x})
				pos = nil
			} else {
				hi, lo := split(pos, q.AddK(-1))
				if lo != nil {
					if lo2 := lo.assume(BoolV{Op: '>', L: y.Sub(x).AddK(-1)}, true); lo2 != nil {
						out = append(out, divRes{lo2, Lin{}, x})
					}
				}
				pos = hi
			}
		}
		if pos != nil {
			m := e.mono(pos, q, y)
			r := x.Sub(m)
			ok := pos.addCon(r) && pos.addCon(y.Sub(r).AddK(-1)) && pos.addCon(x.Sub(q))
			if ok && !infeasible(related(pos.cons, r)) {
				out = append(out, divRes{pos, q, r})
			}
		}
	}
	if neg != nil {
		// -y < r <= 0, q <= 0
		m := e.mono(neg, q, y)
		r := x.Sub(m)
		ok := neg.addCon(r.Neg()) && neg.addCon(y.Add(r).AddK(-1)) && neg.addCon(q.Neg()) && neg.addCon(q.Sub(x))
		if ok && !infeasible(related(neg.cons, r)) {
			out = append(out, divRes{neg, q, r})
		}
	}
	return out
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// binop evaluates x op y; several states when it forks.
func (e *Eng) binop(st *State, in *ssa.BinOp, x, y Val) []callRes {
	one := func(v Val) []callRes { return []callRes{{st, v}} }
	lab := labOf(x) | labOf(y)
	switch in.Op {
	case token.EQL, token.NEQ:
		b := e.equal(st, in, x, y)
		if in.Op == token.NEQ {
			b = b.not()
		}
		b.Lab = lab
		return one(b)
	}
	xi, okx := x.(IntV)
	yi, oky := y.(IntV)
	if okx && oky {
		a, b := xi.L, yi.L
		mk := func(l Lin) Val { return IntV{L: l, Lab: lab} }
		switch in.Op {
		case token.ADD:
			return one(e.fit(st, in, mk(a.Add(b)).(IntV), in.Type()))
		case token.SUB:
			d := a.Sub(b)
			if isUnsigned(in.Type()) && !st.proves(d) {
				f := e.freshInt(st, in, "usub")
				st.addCon(f)
				return one(mk(f))
			}
			return one(mk(d))
		case token.MUL:
			return one(e.fit(st, in, mk(e.mono(st, a, b)).(IntV), in.Type()))
		case token.QUO, token.REM:
			e.oblige2(st, in, "div", describe(in.Y), "division by zero", BoolV{Op: '=', L: b, Neg: true})
			var out []callRes
			for _, d := range e.divide(st, a, b) {
				l := d.q
				if in.Op == token.REM {
					l = d.r
				}
				out = append(out, callRes{d.st, mk(l)})
			}
			return out
		case token.LSS:
			return one(BoolV{Op: '>', L: b.Sub(a).AddK(-1), Lab: lab})
		case token.LEQ:
			return one(BoolV{Op: '>', L: b.Sub(a), Lab: lab})
		case token.GTR:
			return one(BoolV{Op: '>', L: a.Sub(b).AddK(-1), Lab: lab})
		case token.GEQ:
			return one(BoolV{Op: '>', L: a.Sub(b), Lab: lab})
		}
		if a.IsConst() && b.IsConst() {
			var k int64
			ok := true
			switch in.Op {
			case token.AND:
				k = a.K & b.K
			case token.OR:
				k = a.K | b.K
			case token.XOR:
				k = a.K ^ b.K
			case token.AND_NOT:
				k = a.K &^ b.K
			case token.SHL:
				if b.K >= 0 && b.K < 40 {
					k = a.K << uint(b.K)
				} else {
					ok = false
				}
			case token.SHR:
				if b.K >= 0 && b.K < 64 {
					k = a.K >> uint(b.K)
				} else {
					ok = false
				}
			default:
				ok = false
			}
			if ok {
				return one(IntV{L: linK(k), Lab: lab})
			}
		}
		bs := e.sym(fmt.Sprintf("bits(%s%s%s)", a.Key(), in.Op, b.Key()))
		if e.bitOps == nil {
			e.bitOps = map[Sym]bitOp{}
		}
		e.bitOps[bs] = bitOp{in.Op, a, b}
		f := linS(bs)
		nn := isUnsigned(in.Type())
		switch in.Op {
		case token.AND:
			if b.IsConst() && b.K >= 0 {
				nn = true
				st.addCon(f.Neg().AddK(b.K))
			} else if a.IsConst() && a.K >= 0 {
				nn = true
				st.addCon(f.Neg().AddK(a.K))
			}
			if st.proves(a) {
				nn = true
				st.addCon(a.Sub(f))
			}
			if st.proves(b) {
				nn = true
				st.addCon(b.Sub(f))
			}
		case token.SHR:
			if st.proves(a) {
				nn = true
				st.addCon(a.Sub(f))
			}
		case token.AND_NOT:
			if st.proves(a) {
				nn = true
				st.addCon(a.Sub(f))
			}
		case token.OR:
			if st.proves(a) && st.proves(b) {
				nn = true
				st.addCon(a.Add(b).Sub(f))
				st.addCon(f.Sub(a))
				st.addCon(f.Sub(b))
			}
		}
		if nn {
			st.addCon(f)
		}
		return one(mk(f))
	}
	if _, ok := x.(StrV); ok {
		switch in.Op {
		case token.ADD:
			return one(e.concat(st, x, y))
		}
	}
	return one(e.mat(st, in.Type(), e.base(st, in, "bin")))
}

// fit keeps sums of narrow unsigned types inside their range.
func (e *Eng) fit(st *State, at ssa.Instruction, v IntV, t types.Type) Val {
	if !isUnsigned(t) {
		return v
	}
	_, hi, _, hh := intRange(t)
	if hh && !st.proves(v.L.Neg().AddK(hi)) {
		f := e.freshInt(st, at, "wrap")
		st.addCon(f)
		st.addCon(f.Neg().AddK(hi))
		return IntV{L: f, Lab: v.Lab}
	}
	return v
}

// oblige2 is oblige for an arbitrary condition.
func (e *Eng) oblige2(st *State, at ssa.Instruction, rule, construct, msg string, b BoolV) {
	t := st.truth(b)
	for _, a := range e.atoms {
		if b.Op == '=' && b.Neg {
			a[b.L.AddK(-1).Key()] = b.L.AddK(-1)
		}
	}
	e.settle(st, at, rule, construct, msg, t == 1, Lin{})
	if t != 1 {
		st.assume(b, true)
	}
}

func (e *Eng) concat(st *State, x, y Val) Val {
	a, ok1 := x.(StrV)
	b, ok2 := y.(StrV)
	if !ok1 || !ok2 {
		n := e.base(st, nil, "cat")
		return e.mat(st, types.Typ[types.String], n)
	}
	lab := a.Lab | b.Lab
	if a.Lit != nil && b.Lit != nil {
		s := e.strLit(*a.Lit + *b.Lit)
		s.Lab = lab
		return s
	}
	if a.Lit != nil && *a.Lit == "" {
		b.Lab = lab
		return b
	}
	if b.Lit != nil && *b.Lit == "" {
		a.Lab = lab
		return a
	}
	id := e.sym("cat(" + e.strID(a) + "," + e.strID(b) + ")")
	e.src[e.name(id)] = TupleV{a, b}
	return StrV{ID: id, Len: e.lenOf(st, a, nil).Add(e.lenOf(st, b, nil)), Lab: lab}
}

func (e *Eng) strID(s StrV) string {
	if s.Lit != nil {
		return fmt.Sprintf("%q", *s.Lit)
	}
	return e.name(s.ID)
}

// equal is the condition x == y.
func (e *Eng) equal(st *State, in *ssa.BinOp, x, y Val) BoolV {
	isNil := func(v ssa.Value) bool { c, ok := v.(*ssa.Const); return ok && c.IsNil() }
	if isNil(in.Y) {
		return e.nilTest(st, x, in)
	}
	if isNil(in.X) {
		return e.nilTest(st, y, in)
	}
	return e.equalVals(st, in, x, y)
}

func (e *Eng) equalVals(st *State, in ssa.Instruction, x, y Val) BoolV {
	switch a := x.(type) {
	case IntV:
		if b, ok := y.(IntV); ok {
			d := a.L.Sub(b.L)
			if d.IsConst() {
				return boolK(d.K == 0)
			}
			return BoolV{Op: '=', L: d}
		}
	case BoolV:
		if b, ok := y.(BoolV); ok {
			if b.Op == 'k' {
				if b.C {
					return a
				}
				return a.not()
			}
			if a.Op == 'k' {
				if a.C {
					return b
				}
				return b.not()
			}
			if valEq(a, b) {
				return boolK(true)
			}
		}
	case StrV:
		if b, ok := y.(StrV); ok {
			if a.Lit != nil && b.Lit != nil {
				return boolK(*a.Lit == *b.Lit)
			}
			if a.Lit != nil {
				a, b = b, a
			}
			if b.Lit != nil && *b.Lit == "" {
				return BoolV{Op: '=', L: a.Len}
			}
			ia, ib := e.strID(a), e.strID(b)
			if ia == ib {
				return boolK(true)
			}
			if ia > ib {
				ia, ib = ib, ia
			}
			s := e.sym("eq(" + ia + "," + ib + ")")
			d := e.lenOf(st, a, nil).Sub(e.lenOf(st, b, nil))
			if !st.addImpl(&impl{g: []guard{{s, true}}, lins: []Lin{d, d.Neg()}}) {
				st.setBoolFact(s, false)
			}
			return BoolV{Op: 's', S: s}
		}
	case PtrV:
		if b, ok := y.(PtrV); ok {
			if a.Obj == nil {
				return e.nilTest(st, b, in)
			}
			if b.Obj == nil {
				return e.nilTest(st, a, in)
			}
			if a.Obj == b.Obj && a.Path == b.Path && a.Nil == b.Nil {
				return boolK(true)
			}
			if a.Obj != b.Obj && (a.Obj.Alloc || a.Obj.Distinct) && (b.Obj.Alloc || b.Obj.Distinct) && a.Nil == 0 && b.Nil == 0 {
				return boolK(false)
			}
			na, nb := a.Obj.Name+a.Path, b.Obj.Name+b.Path
			if na > nb {
				na, nb = nb, na
			}
			s := e.sym("same(" + na + "," + nb + ")")
			im := func(x, y PtrV) {
				// equal pointers are nil together
				if x.Nil == 0 && y.Nil != 0 {
					st.addImpl(&impl{g: []guard{{s, true}}, sets: []guard{{y.Nil, false}}})
				} else if x.Nil != 0 && y.Nil != 0 {
					st.addImpl(&impl{g: []guard{{s, true}, {x.Nil, false}}, sets: []guard{{y.Nil, false}}})
					st.addImpl(&impl{g: []guard{{s, true}, {x.Nil, true}}, sets: []guard{{y.Nil, true}}})
				}
			}
			im(a, b)
			im(b, a)
			return BoolV{Op: 's', S: s}
		}
	case IfaceV:
		if b, ok := y.(IfaceV); ok {
			if b.Null {
				return e.nilTest(st, a, in)
			}
			if a.Null {
				return e.nilTest(st, b, in)
			}
			if a.Dyn != nil && b.Dyn != nil {
				if !types.Identical(a.Dyn, b.Dyn) {
					return boolK(false)
				}
				return e.equalVals(st, in, a.V, b.V)
			}
			if a.ID != "" && b.ID != "" {
				if a.ID == b.ID {
					return boolK(true)
				}
				x, y := a.ID, b.ID
				if x > y {
					x, y = y, x
				}
				return BoolV{Op: 's', S: e.sym("ifeq(" + x + "," + y + ")")}
			}
		}
	}
	return BoolV{Op: 's', S: e.fresh(st, in, "eq")}
}

// ---------------------------------------------------------------------------

type callRes struct {
	st *State
	v  Val
}

type edgeState struct {
	from, to *ssa.BasicBlock
	st       *State
}

type retState struct {
	st *State
	v  Val
	at ssa.Instruction
}

// execBlock runs one block from one state.
func (e *Eng) execBlock(b *ssa.BasicBlock, st *State) (edges []edgeState, rets []retState) {
	states := []*State{st}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		switch in := in.(type) {
		case *ssa.If:
			for _, s := range states {
				c := boolOf(e, s, e.get(s, in.Cond), in)
				if c.Op == '>' || c.Op == '=' {
					for _, a := range e.atoms {
						a[c.L.Key()] = c.L
						if c.Op == '=' {
							n := c.L.Neg()
							a[n.Key()] = n
						}
						n := c.L.Neg().AddK(-1)
						a[n.Key()] = n
					}
				}
				switch s.truth(c) {
				case 1:
					edges = append(edges, edgeState{b, b.Succs[0], s})
				case 0:
					edges = append(edges, edgeState{b, b.Succs[1], s})
				default:
					n := s.fork()
					if t := s.assume(c, true); t != nil {
						t.note(in, "%s: %s is true", e.p.instrPos(in), describe(in.Cond))
						edges = append(edges, edgeState{b, b.Succs[0], t})
					}
					if f := n.assume(c, false); f != nil {
						f.note(in, "%s: %s is false", e.p.instrPos(in), describe(in.Cond))
						edges = append(edges, edgeState{b, b.Succs[1], f})
					}
				}
			}
			return edges, rets
		case *ssa.Jump:
			for _, s := range states {
				edges = append(edges, edgeState{b, b.Succs[0], s})
			}
			return edges, rets
		case *ssa.Return:
			for _, s := range states {
				var v Val
				switch len(in.Results) {
				case 0:
				case 1:
					v = e.get(s, in.Results[0])
				default:
					tv := make(TupleV, len(in.Results))
					for i, r := range in.Results {
						tv[i] = e.get(s, r)
					}
					v = tv
				}
				rets = append(rets, retState{s, v, in})
			}
			return edges, rets
		case *ssa.Panic:
			if selectPanic(in) {
				return edges, rets
			}
			for _, s := range states {
				if !infeasible(s.cons) {
					e.settle(s, in, "panic", describe(in.X), "explicit panic is reachable", false, Lin{})
				}
			}
			return edges, rets
		case *ssa.RunDefers:
			for {
				var next []*State
				again := false
				for _, s := range states {
					n := len(s.fr.defers)
					if n == 0 {
						next = append(next, s)
						continue
					}
					again = true
					d := s.fr.defers[n-1]
					s.ownFrame()
					s.fr.defers = s.fr.defers[: n-1 : n-1]
					for _, r := range e.call(s, d.at, &d.at.Call, d.fn, d.args) {
						next = append(next, r.st)
					}
				}
				states = next
				if !again {
					break
				}
			}
			continue
		}
		var next []*State
		for _, s := range states {
			if s.dead {
				continue
			}
			next = append(next, e.step(s, in)...)
		}
		states = next
		if len(states) == 0 {
			return edges, rets
		}
		if len(states) > e.maxStates {
			states = e.mergeTo(states, e.maxStates, nil, in)
		}
	}
	return edges, rets
}

// step executes one straight-line instruction.
func (e *Eng) step(st *State, in ssa.Instruction) []*State {
	e.steps++
	if e.steps > e.maxSteps {
		panic("step limit exceeded in " + fnName(in.Parent()))
	}
	one := []*State{st}
	switch in := in.(type) {
	case *ssa.DebugRef:
		return one
	case *ssa.Alloc:
		o := e.obj("alloc "+e.base(st, in, in.Comment), deref(in.Type()))
		o.Alloc = true
		o.Site = in
		st.setCell(cellKey{o, "#alloc"}, boolK(true))
		e.set(st, in, PtrV{Obj: o})
		return one
	case *ssa.BinOp:
		var out []*State
		for _, r := range e.binop(st, in, e.get(st, in.X), e.get(st, in.Y)) {
			e.set(r.st, in, r.v)
			out = append(out, r.st)
		}
		return out
	case *ssa.UnOp:
		return e.unop(st, in)
	case *ssa.Call:
		fn, args := e.callee(st, &in.Call)
		var out []*State
		for _, r := range e.call(st, in, &in.Call, fn, args) {
			v := r.v
			if v == nil {
				v = TupleV{}
			}
			e.set(r.st, in, v)
			out = append(out, r.st)
		}
		return out
	case *ssa.Defer:
		fn, args := e.callee(st, &in.Call)
		st.ownFrame()
		st.fr.defers = append(st.fr.defers, deferred{in, fn, args})
		return one
	case *ssa.Go:
		fn, args := e.callee(st, &in.Call)
		if e.inv != nil {
			e.inv.publish(e, st, in, fn, args)
		}
		ev := &Event{Kind: "go", At: in, Args: args, Val: fn}
		return e.fire(st, ev)
	case *ssa.ChangeType:
		e.set(st, in, e.get(st, in.X))
		return one
	case *ssa.ChangeInterface:
		e.set(st, in, e.get(st, in.X))
		return one
	case *ssa.MakeInterface:
		v := e.get(st, in.X)
		e.set(st, in, IfaceV{Dyn: in.X.Type(), V: v, Lab: labOf(v)})
		return one
	case *ssa.Convert:
		e.set(st, in, e.convert(st, in, e.get(st, in.X), in.X.Type(), in.Type()))
		return one
	case *ssa.MultiConvert:
		e.set(st, in, e.convert(st, in, e.get(st, in.X), in.X.Type(), in.Type()))
		return one
	case *ssa.MakeClosure:
		f := FuncV{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.Bind = append(f.Bind, e.get(st, b))
		}
		e.set(st, in, f)
		return one
	case *ssa.MakeSlice:
		l := e.intOf(st, e.get(st, in.Len), in)
		c := e.intOf(st, e.get(st, in.Cap), in)
		e.oblige(st, in, "make", describe(in.Len), "slice made with a negative length", l)
		if !l.Eq(c) {
			e.oblige(st, in, "make", describe(in.Cap), "slice made with a capacity below its length", c.Sub(l))
		}
		o := e.obj("alloc "+e.base(st, in, "make"), in.Type().Underlying().(*types.Slice).Elem())
		o.Alloc, o.Arr, o.Site = true, true, in
		st.setCell(cellKey{o, "#alloc"}, boolK(true))
		e.set(st, in, SliceV{Arr: o, Len: l, Cap: &c})
		return one
	case *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		o := e.obj("alloc "+e.base(st, in, "make"), v.Type())
		o.Alloc, o.Site = true, in
		e.set(st, v, PtrV{Obj: o})
		return one
	case *ssa.FieldAddr:
		v := e.get(st, in.X)
		p, ok := v.(PtrV)
		if !ok {
			p = PtrV{Obj: e.objFor(deref(in.X.Type()), e.base(st, in, "ptr"))}
		}
		if !e.needNonNil(st, in, p, describe(in.X)) {
			return nil
		}
		if p.Obj == nil {
			return nil
		}
		_, f := fieldOf(in.X.Type(), in.Field)
		p.Path += "." + f
		p.Nil = 0
		e.set(st, in, p)
		return one
	case *ssa.Field:
		v := e.get(st, in.X)
		if s, ok := v.(StructV); ok && in.Field < len(s.F) {
			e.set(st, in, s.F[in.Field])
		} else {
			e.set(st, in, e.mat(st, in.Type(), e.base(st, in, "field")))
		}
		return one
	case *ssa.IndexAddr:
		return e.indexAddr(st, in)
	case *ssa.Index:
		idx := e.intOf(st, e.get(st, in.Index), in)
		x := e.get(st, in.X)
		switch t := in.X.Type().Underlying().(type) {
		case *types.Array:
			e.oblige(st, in, "index", describe(in.X), "index out of range", idx, linK(t.Len()-1).Sub(idx))
		default:
			l := e.lenOf(st, x, in)
			e.oblige(st, in, "index", describe(in.X), "index out of range", idx, l.Sub(idx).AddK(-1))
		}
		e.set(st, in, e.strByte(st, in, x, idx, in.Type()))
		return one
	case *ssa.Lookup:
		x := e.get(st, in.X)
		if isString(in.X.Type()) {
			idx := e.intOf(st, e.get(st, in.Index), in)
			l := e.lenOf(st, x, in)
			e.oblige(st, in, "index", describe(in.X), "index out of range", idx, l.Sub(idx).AddK(-1))
			e.set(st, in, e.strByte(st, in, x, idx, in.Type()))
			return one
		}
		e.set(st, in, e.mat(st, in.Type(), e.base(st, in, "lookup")))
		return one
	case *ssa.MapUpdate:
		m := e.get(st, in.Map)
		if !e.needNonNil(st, in, m, describe(in.Map)) {
			return nil
		}
		return one
	case *ssa.Slice:
		return e.slice(st, in)
	case *ssa.SliceToArrayPointer:
		e.set(st, in, e.mat(st, in.Type(), e.base(st, in, "s2a")))
		return one
	case *ssa.Store:
		return e.doStore(st, in)
	case *ssa.Extract:
		t := e.get(st, in.Tuple)
		if tv, ok := t.(TupleV); ok && in.Index < len(tv) {
			e.set(st, in, tv[in.Index])
		} else {
			e.set(st, in, e.mat(st, in.Type(), e.base(st, in, "ext")))
		}
		return one
	case *ssa.TypeAssert:
		return e.typeAssert(st, in)
	case *ssa.Range:
		e.set(st, in, TupleV{e.get(st, in.X)})
		return one
	case *ssa.Next:
		ok := e.fresh(st, in, "next")
		tt := in.Type().(*types.Tuple)
		tv := make(TupleV, 3)
		tv[0] = BoolV{Op: 's', S: ok}
		var lab Lab
		var src Val
		if t, isT := e.get(st, in.Iter).(TupleV); isT && len(t) > 0 {
			src = t[0]
			lab = labOf(src)
		}
		for i := 1; i < 3; i++ {
			if b, isB := tt.At(i).Type().Underlying().(*types.Basic); isB && b.Kind() == types.Invalid {
				tv[i] = OpqV{ID: "blank"}
				continue
			}
			tv[i] = e.mat(st, tt.At(i).Type(), e.base(st, in, fmt.Sprintf("next%d", i)))
		}
		if in.IsString {
			if k, isI := tv[1].(IntV); isI && src != nil {
				l := e.lenOf(st, src, in)
				if !st.addImpl(&impl{g: []guard{{ok, true}}, lins: []Lin{k.L, l.Sub(k.L).AddK(-1)}}) {
					st.setBoolFact(ok, false)
				}
			}
			if r, isI := tv[2].(IntV); isI {
				r.Lab = lab
				tv[2] = r
				st.addImpl(&impl{g: []guard{{ok, true}}, lins: []Lin{r.L, r.L.Neg().AddK(utf8.MaxRune)}})
			}
		}
		e.set(st, in, tv)
		return one
	case *ssa.Send:
		ch := e.get(st, in.Chan)
		v := e.get(st, in.X)
		if !e.sendVal(st, in, in.Chan.Type(), v, describe(in.X)) {
			return nil
		}
		return e.fire(st, &Event{Kind: "send", Name: chanName(ch), At: in, Recv: ch, Val: v})
	case *ssa.Select:
		return e.sel(st, in)
	}
	panic(fmt.Sprintf("unsupported instruction %T in %s", in, fnName(in.Parent())))
}

func chanName(v Val) string {
	if p, ok := v.(PtrV); ok && p.Obj != nil {
		return p.Obj.Name + p.Path
	}
	return "nil"
}

func (e *Eng) fire(st *State, ev *Event) []*State {
	if e.hook == nil {
		return []*State{st}
	}
	if out := e.hook(e, st, ev); out != nil {
		return out
	}
	return []*State{st}
}

func (e *Eng) sel(st *State, in *ssa.Select) []*State {
	var out []*State
	tt := in.Type().(*types.Tuple)
	n := len(in.States)
	lo := 0
	if !in.Blocking {
		lo = -1
	}
	for i := lo; i < n; i++ {
		s := st
		if i < n-1 {
			s = st.fork()
		}
		tv := make(TupleV, tt.Len())
		tv[0] = IntV{L: linK(int64(i))}
		tv[1] = BoolV{Op: 's', S: e.fresh(s, in, "recvok")}
		ri := 2
		for j, c := range in.States {
			if c.Dir != types.RecvOnly {
				continue
			}
			if j == i {
				ch := e.get(s, c.Chan)
				tv[ri] = e.mat(s, tt.At(ri).Type(), e.base(s, in, "recv"))
				tv[ri] = e.recvLab(ch, e.recvVal(s, c.Chan.Type(), tv[ri], tv[1]))
			} else {
				tv[ri] = e.zero(tt.At(ri).Type())
			}
			ri++
		}
		e.set(s, in, tv)
		ev := &Event{Kind: "select", At: in, Name: "default"}
		if i >= 0 {
			c := in.States[i]
			ch := e.get(s, c.Chan)
			if c.Dir == types.SendOnly {
				if !e.sendVal(s, in, c.Chan.Type(), e.get(s, c.Send), describe(c.Send)) {
					continue
				}
				ev = &Event{Kind: "send", Name: chanName(ch), At: in, Recv: ch, Val: e.get(s, c.Send), Args: []Val{boolK(in.Blocking)}}
			} else {
				ev = &Event{Kind: "recv", Name: chanName(ch), At: in, Recv: ch, Args: []Val{boolK(in.Blocking)}}
			}
		} else {
			names := []string{}
			for _, c := range in.States {
				names = append(names, chanName(e.get(s, c.Chan)))
			}
			ev.Name = strings.Join(names, ",")
		}
		out = append(out, e.fire(s, ev)...)
	}
	return out
}

// Pointers sent through the channels of the package are never nil: an obligation
// at every send, a fact at every receive from a channel that is not closed.
func (e *Eng) sendVal(st *State, at ssa.Instruction, ct types.Type, v Val, what string) bool {
	if e.chanElem(ct) == nil {
		return true
	}
	return e.needNonNil(st, at, v, what)
}

func (e *Eng) chanElem(ct types.Type) types.Type {
	c, ok := ct.Underlying().(*types.Chan)
	if !ok {
		return nil
	}
	pt, ok := c.Elem().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() != e.p.Main.Pkg {
		return nil
	}
	return c.Elem()
}

func (e *Eng) recvVal(st *State, ct types.Type, v, ok Val) Val {
	t := e.chanElem(ct)
	if t == nil {
		return v
	}
	if !e.p.closedElem(t) {
		return e.nonNil(st, v)
	}
	if b, isB := ok.(BoolV); isB && b.Op == 's' {
		if nb := e.nilTest(st, v, nil); nb.Op == 's' {
			st.addImpl(&impl{g: []guard{{b.S, !b.Neg}}, sets: []guard{{nb.S, nb.Neg}}})
		}
	}
	return v
}

// closedElem: some channel with this element type is closed in the module.
func (p *Program) closedElem(t types.Type) bool {
	if p.closed == nil {
		p.closed = []types.Type{}
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						if ch, ok := c.Common().Args[0].Type().Underlying().(*types.Chan); ok {
							p.closed = append(p.closed, ch.Elem())
						}
					}
				}
			}
		}
	}
	for _, x := range p.closed {
		if types.Identical(x, t) {
			return true
		}
	}
	return false
}

func (e *Eng) recvLab(ch Val, v Val) Val { return v }

func (e *Eng) unop(st *State, in *ssa.UnOp) []*State {
	x := e.get(st, in.X)
	one := []*State{st}
	switch in.Op {
	case token.NOT:
		e.set(st, in, boolOf(e, st, x, in).not())
	case token.SUB:
		if i, ok := x.(IntV); ok && !isUnsigned(in.Type()) {
			e.set(st, in, IntV{L: i.L.Neg(), Lab: i.Lab})
		} else {
			e.set(st, in, e.mat(st, in.Type(), e.base(st, in, "neg")))
		}
	case token.XOR:
		if i, ok := x.(IntV); ok && i.L.IsConst() && !isUnsigned(in.Type()) {
			e.set(st, in, IntV{L: linK(^i.L.K), Lab: i.Lab})
		} else {
			e.set(st, in, e.mat(st, in.Type(), e.base(st, in, "not")))
		}
	case token.ARROW:
		v := e.mat(st, in.Type(), e.base(st, in, "recv"))
		if t, ok := v.(TupleV); ok && in.CommaOk {
			t[0] = e.recvVal(st, in.X.Type(), t[0], t[1])
		} else {
			v = e.recvVal(st, in.X.Type(), v, nil)
		}
		e.set(st, in, v)
		return e.fire(st, &Event{Kind: "recv", Name: chanName(x), At: in, Recv: x, Val: v})
	case token.MUL:
		p, ok := x.(PtrV)
		if !ok {
			e.set(st, in, e.mat(st, in.Type(), e.base(st, in, "load")))
			return one
		}
		if !e.needNonNil(st, in, p, describe(in.X)) || p.Obj == nil {
			return nil
		}
		v := e.load(st, p.Obj, p.Path, in.Type(), in)
		if _, isElem := in.X.(*ssa.IndexAddr); isElem && e.elemNonNil {
			switch in.Type().Underlying().(type) {
			case *types.Interface, *types.Pointer:
				v = e.nonNil(st, v)
			}
		}
		if p.Lab != 0 {
			v = addLab(v, p.Lab)
		}
		if e.hook != nil {
			e.set(st, in, v)
			return e.fire(st, &Event{Kind: "load", At: in, Cell: cellKey{p.Obj, p.Path}, Val: v})
		}
		e.set(st, in, v)
	default:
		e.set(st, in, e.mat(st, in.Type(), e.base(st, in, "unop")))
	}
	return one
}

func addLab(v Val, l Lab) Val {
	switch v := v.(type) {
	case IntV:
		v.Lab |= l
		return v
	case SliceV:
		v.Lab |= l
		return v
	case StrV:
		v.Lab |= l
		return v
	case PtrV:
		v.Lab |= l
		return v
	case IfaceV:
		v.Lab |= l
		return v
	case BoolV:
		v.Lab |= l
		return v
	case OpqV:
		v.Lab |= l
		return v
	case StructV:
		f := make([]Val, len(v.F))
		for i := range f {
			f[i] = addLab(v.F[i], l)
		}
		return StructV{f}
	case TupleV:
		f := make(TupleV, len(v))
		for i := range f {
			f[i] = addLab(v[i], l)
		}
		return f
	}
	return v
}

func (e *Eng) doStore(st *State, in *ssa.Store) []*State {
	a, ok := e.get(st, in.Addr).(PtrV)
	v := e.get(st, in.Val)
	if !ok {
		return []*State{st}
	}
	if !e.needNonNil(st, in, a, describe(in.Addr)) || a.Obj == nil {
		return nil
	}
	ev := &Event{Kind: "store", At: in, Cell: cellKey{a.Obj, a.Path}, Val: v, Recv: a}
	out := e.fire(st, ev)
	for _, s := range out {
		e.store(s, a.Obj, a.Path, in.Val.Type(), v, in)
	}
	return out
}

func (e *Eng) indexAddr(st *State, in *ssa.IndexAddr) []*State {
	x := e.get(st, in.X)
	idx := e.intOf(st, e.get(st, in.Index), in)
	switch v := x.(type) {
	case SliceV:
		e.oblige(st, in, "index", describe(in.X), "index out of range of "+describe(in.X), idx, v.Len.Sub(idx).AddK(-1))
		if v.Arr == nil {
			return nil
		}
		e.set(st, in, PtrV{Obj: v.Arr, Path: "[" + v.Off.Add(idx).Key() + "]", Lab: v.Lab})
		return []*State{st}
	case PtrV: // pointer to array
		if !e.needNonNil(st, in, v, describe(in.X)) || v.Obj == nil {
			return nil
		}
		if at, ok := deref(in.X.Type()).Underlying().(*types.Array); ok {
			e.oblige(st, in, "index", describe(in.X), "index out of range of "+describe(in.X), idx, linK(at.Len()-1).Sub(idx))
		}
		v.Path += "[" + idx.Key() + "]"
		e.set(st, in, v)
		return []*State{st}
	}
	e.set(st, in, PtrV{Obj: e.objFor(deref(in.Type()), e.base(st, in, "elem"))})
	return []*State{st}
}

func (e *Eng) strByte(st *State, in ssa.Instruction, x Val, idx Lin, t types.Type) Val {
	if s, ok := x.(StrV); ok && s.Lit != nil && idx.IsConst() && idx.K >= 0 && idx.K < int64(len(*s.Lit)) {
		return IntV{L: linK(int64((*s.Lit)[idx.K]))}
	}
	v := e.mat(st, t, e.base(st, in, "byte"))
	return addLab(v, labOf(x))
}

func (e *Eng) slice(st *State, in *ssa.Slice) []*State {
	x := e.get(st, in.X)
	low := Lin{}
	if in.Low != nil {
		low = e.intOf(st, e.get(st, in.Low), in)
	}
	what := describe(in.X)
	check := func(ln Lin, cp *Lin, high Lin) {
		if in.Low == nil && in.High == nil {
			return
		}
		var goals []Lin
		if in.Low != nil {
			goals = append(goals, low)
		}
		goals = append(goals, high.Sub(low))
		if in.High != nil {
			limit := ln
			if cp != nil && !st.proves(ln.Sub(high)) {
				limit = *cp
			}
			goals = append(goals, limit.Sub(high))
		}
		e.oblige(st, in, "slice", what, "slice bounds out of range of "+what, goals...)
	}
	one := []*State{st}
	switch v := x.(type) {
	case SliceV:
		high := v.Len
		if in.High != nil {
			high = e.intOf(st, e.get(st, in.High), in)
		}
		check(v.Len, v.Cap, high)
		n := v
		n.Off = v.Off.Add(low)
		n.Len = high.Sub(low)
		if v.Cap != nil {
			c := v.Cap.Sub(low)
			n.Cap = &c
			if in.Max != nil {
				m := e.intOf(st, e.get(st, in.Max), in).Sub(low)
				n.Cap = &m
			}
		} else if in.Max != nil {
			m := e.intOf(st, e.get(st, in.Max), in).Sub(low)
			n.Cap = &m
		}
		if v.Arr == nil {
			n.Len, n.Off = Lin{}, Lin{}
		}
		e.set(st, in, n)
		return one
	case StrV:
		ln := e.lenOf(st, v, in)
		high := ln
		if in.High != nil {
			high = e.intOf(st, e.get(st, in.High), in)
		}
		check(ln, nil, high)
		if v.Lit != nil && low.IsConst() && high.IsConst() && low.K >= 0 && high.K >= low.K && high.K <= int64(len(*v.Lit)) {
			s := e.strLit((*v.Lit)[low.K:high.K])
			s.Lab = v.Lab
			e.set(st, in, s)
			return one
		}
		e.set(st, in, StrV{ID: e.sym("sub(" + e.strID(v) + "," + low.Key() + "," + high.Key() + ")"), Len: high.Sub(low), Lab: v.Lab})
		return one
	case PtrV:
		if !e.needNonNil(st, in, v, what) || v.Obj == nil {
			return nil
		}
		if at, ok := deref(in.X.Type()).Underlying().(*types.Array); ok {
			n := linK(at.Len())
			high := n
			if in.High != nil {
				high = e.intOf(st, e.get(st, in.High), in)
			}
			check(n, nil, high)
			c := n.Sub(low)
			e.set(st, in, SliceV{Arr: v.Obj, Off: low, Len: high.Sub(low), Cap: &c, Lab: v.Lab})
			return one
		}
	}
	v := e.mat(st, in.Type(), e.base(st, in, "slice"))
	e.set(st, in, addLab(v, labOf(x)))
	return one
}

func (e *Eng) typeAssert(st *State, in *ssa.TypeAssert) []*State {
	x, ok := e.get(st, in.X).(IfaceV)
	if !ok {
		x = IfaceV{ID: e.base(st, in, "iface"), Nil: e.fresh(st, in, "ifnil")}
	}
	ts := types.TypeString(in.AssertedType, nil)
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	okVal := func(s *State) Val {
		if x.Dyn != nil {
			if toIface {
				return x
			}
			return x.V
		}
		if toIface {
			return IfaceV{ID: x.ID, Lab: x.Lab}
		}
		v := e.mat(s, in.AssertedType, "as("+x.ID+","+ts+")")
		return addLab(e.nonNil(s, v), x.Lab)
	}
	finish := func(s *State, v Val, ok bool) *State {
		if in.CommaOk {
			e.set(s, in, TupleV{v, boolK(ok)})
		} else {
			e.set(s, in, v)
		}
		if e.hook != nil {
			e.hook(e, s, &Event{Kind: "assert", Name: ts, At: in, Recv: x, Val: boolK(ok)})
		}
		return s
	}
	known := -1
	if x.Null {
		known = 0
	} else if x.Dyn != nil {
		known = 0
		if toIface {
			if types.Implements(x.Dyn, in.AssertedType.Underlying().(*types.Interface)) {
				known = 1
			}
		} else if types.Identical(x.Dyn, in.AssertedType) {
			known = 1
		}
	} else if n := e.nilTest(st, x, in); st.truth(n) == 1 {
		known = 0
	} else if toIface && st.truth(n) == 0 && types.Implements(in.X.Type(), in.AssertedType.Underlying().(*types.Interface)) {
		known = 1
	}
	if !in.CommaOk {
		e.settle(st, in, "typeassert", describe(in.X)+".("+typeName(in.AssertedType)+")", "type assertion may fail", known == 1, Lin{})
		if known == 0 {
			return nil
		}
		return []*State{finish(st, okVal(st), true)}
	}
	zero := e.zero(in.AssertedType)
	switch known {
	case 1:
		return []*State{finish(st, okVal(st), true)}
	case 0:
		return []*State{finish(st, zero, false)}
	}
	s := e.sym("is(" + x.ID + "," + ts + ")")
	n := st.fork()
	var out []*State
	if st.setSym(s, true) && (x.Nil == 0 || st.setSym(x.Nil, false)) {
		out = append(out, finish(st, okVal(st), true))
	}
	if n.setSym(s, false) {
		out = append(out, finish(n, zero, false))
	}
	return out
}

func (e *Eng) convert(st *State, in ssa.Instruction, v Val, from, to types.Type) Val {
	lab := labOf(v)
	switch {
	case isInt(from) && isInt(to):
		i, ok := v.(IntV)
		if !ok {
			break
		}
		lo, hi, hl, hh := intRange(to)
		flo, fhi, fl, fh := intRange(from)
		okLo := !hl || fl && flo >= lo || st.proves(i.L.AddK(-lo))
		okHi := !hh || fh && fhi <= hi || st.proves(i.L.Neg().AddK(hi))
		if okLo && okHi {
			return i
		}
		f := linS(e.sym("conv(" + i.L.Key() + "," + to.String() + ")"))
		if e.convOf == nil {
			e.convOf = map[Sym]convOp{}
		}
		e.convOf[f.T[0].S] = convOp{i.L, types.SizesFor("gc", "amd64").Sizeof(to) * 8}
		if hl {
			st.addCon(f.AddK(-lo))
		}
		if hh {
			st.addCon(f.Neg().AddK(hi))
		}
		return IntV{L: f, Lab: i.Lab}
	case isString(to):
		if s, ok := v.(SliceV); ok {
			id := e.base(st, in, "str")
			l := linS(e.sym(id + ".len"))
			elem := from.Underlying().(*types.Slice).Elem()
			if b, ok := elem.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				l = s.Len
			} else {
				st.addCon(l.Sub(s.Len))
				st.addCon(s.Len.Mul(4).Sub(l))
			}
			e.src[id] = v
			return StrV{ID: e.sym(id), Len: l, Lab: lab}
		}
		if i, ok := v.(IntV); ok {
			if i.L.IsConst() {
				s := e.strLit(string(rune(i.L.K)))
				s.Lab = lab
				return s
			}
			id := e.sym("chr(" + i.L.Key() + ")")
			l := linS(e.sym("chrlen(" + i.L.Key() + ")"))
			st.addCon(l.AddK(-1))
			st.addCon(l.Neg().AddK(4))
			return StrV{ID: id, Len: l, Lab: lab}
		}
	case isString(from):
		if s, ok := v.(StrV); ok {
			sl, isSl := to.Underlying().(*types.Slice)
			if !isSl {
				break
			}
			o := e.obj("alloc "+e.base(st, in, "runes"), sl.Elem())
			o.Alloc, o.Arr, o.Site = true, true, in
			st.setCell(cellKey{o, "#alloc"}, boolK(true))
			st.setCell(cellKey{o, "#dirty"}, boolK(true))
			e.src[o.Name] = v
			var l Lin
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				l = e.lenOf(st, s, in)
			} else if s.Lit != nil {
				l = linK(int64(utf8.RuneCountInString(*s.Lit)))
			} else {
				l = e.runeLen(st, s)
			}
			return SliceV{Arr: o, Len: l, Lab: lab}
		}
	}
	if _, ok := to.Underlying().(*types.Basic); !ok {
		if types.IdenticalIgnoreTags(from.Underlying(), to.Underlying()) {
			return v
		}
	}
	if p, ok := v.(PtrV); ok {
		if _, isP := to.Underlying().(*types.Pointer); isP {
			return PtrV{Obj: p.Obj, Path: p.Path, Nil: p.Nil, Lab: p.Lab}
		}
		if b, isB := to.Underlying().(*types.Basic); isB && b.Kind() == types.UnsafePointer {
			return p
		}
	}
	return addLab(e.mat(st, to, e.base(st, in, "conv")), lab)
}

// runeLen is the number of runes of a string: a function of the string.
func (e *Eng) runeLen(st *State, s StrV) Lin {
	if s.Lit != nil {
		return linK(int64(utf8.RuneCountInString(*s.Lit)))
	}
	l := linS(e.sym("runelen(" + e.strID(s) + ")"))
	ln := e.lenOf(st, s, nil)
	st.addCon(l)
	st.addCon(ln.Sub(l))
	st.addCon(l.Mul(4).Sub(ln))
	return l
}

// selectPanic: the SSA builder ends the case dispatch of a blocking select with
// a panic that cannot be reached.
func selectPanic(p *ssa.Panic) bool {
	m, ok := p.X.(*ssa.MakeInterface)
	if !ok {
		return false
	}
	c, ok := m.X.(*ssa.Const)
	return ok && c.Value != nil && strings.Contains(c.Value.ExactString(), "blocking select matched no case")
}
