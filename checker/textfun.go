package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The comparison and search helpers against their definition.  A position is
// picked arbitrarily (K inside the compared part, R inside the searched text);
// the run starts with one mismatch there, or with a match, and has to end in a
// result that agrees.  Whether two runes count as equal is left to EqualRune,
// which has its own check.

// txt is one run of one helper.
type txt struct {
	e      *Eng
	mode   string
	fold   int            // 1, 0: the helper folds case or not
	arr    map[string]int // array -> text parameter
	off    map[string]Lin
	at     map[string]Lin // name of a rune -> its position
	src    map[string]int // and its text
	names  []string       // in the order they came up
	alias  map[int]aliasOf
	marks  map[int]Lin
	bad    [2]Sym // the runes that differ
	base   int    // text whose positions R refers to
	R, K   Lin
	result func(s *State, v Val) (BoolV, bool) // the result contradicts the definition
}

type aliasOf struct {
	src int
	d   Lin
}

func (t *txt) rune(s *State, src int, pos Lin) Sym {
	if a, ok := t.alias[src]; ok {
		y := t.rune(s, a.src, pos.Add(a.d))
		if t.fold == 0 {
			return y
		}
		// equal when case is folded
		y = t.e.sym("~" + t.e.name(y))
		s.addCon(linS(y).AddK(1 << 31))
		s.addCon(linS(y).Neg().AddK(1<<31 - 1))
		return y
	}
	// the same position under another name
	for _, n := range t.names {
		if t.src[n] == src && s.provesEq(t.at[n], pos) {
			return t.e.sym(n)
		}
	}
	n := fmt.Sprintf("rune %d[%s]", src, pos.Key())
	if _, ok := t.at[n]; !ok {
		t.names = append(t.names, n)
	}
	t.at[n], t.src[n] = pos, src
	y := t.e.sym(n)
	l := linS(y)
	s.addCon(l.AddK(1 << 31))
	s.addCon(l.Neg().AddK(1<<31 - 1))
	return y
}

// split tells l < m, l == m and l > m apart.
func splitAt(s *State, l, m Lin) []*State {
	if s.provesEq(l, m) || s.proves(l.Sub(m).AddK(-1)) || s.proves(m.Sub(l).AddK(-1)) {
		return []*State{s}
	}
	var out []*State
	for _, d := range []Lin{m.Sub(l).AddK(-1), l.Sub(m).AddK(-1)} {
		if x := s.fork().assume(BoolV{Op: '>', L: d}, true); x != nil && !infeasible(x.cons) {
			out = append(out, x)
		}
	}
	if x := s.fork().assume(BoolV{Op: '=', L: l.Sub(m)}, true); x != nil && !infeasible(x.cons) {
		out = append(out, x)
	}
	return out
}

func (t *txt) hook(s *State, ev *Event) []*State {
	if ev.Kind != "load" {
		return nil
	}
	ld, ok := ev.At.(*ssa.UnOp)
	if !ok || !isInt(ld.Type()) {
		return nil
	}
	arr, pos, ok := (&texts{e: t.e}).elem(s, ld.X)
	if !ok || arr == nil {
		return nil
	}
	src, ok := t.arr[arr.Name]
	if !ok {
		return nil
	}
	pos = pos.Sub(t.off[arr.Name])
	todo := []*State{s}
	if m, ok := t.marks[src]; ok {
		todo = splitAt(s, pos, m)
	}
	for _, x := range todo {
		t.e.set(x, ld, IntV{L: linS(t.rune(x, src, pos))})
	}
	if len(todo) == 0 {
		s.dead = true
		return nil
	}
	return todo
}

func runeSym(v Val) (Sym, bool) {
	i, ok := v.(IntV)
	if !ok {
		return 0, false
	}
	return isSymLin(i.L)
}

// pre: EqualRune is an arbitrary reflexive and symmetric relation.
func (t *txt) pre(s *State, name string, fn *ssa.Function, args []Val) ([]callRes, bool) {
	short := name[strings.LastIndex(name, ".")+1:]
	if short == "IsSpace" && len(args) == 1 {
		if y, ok := runeSym(args[0]); ok {
			return one(s, BoolV{Op: 's', S: t.e.sym("space " + t.e.name(y))}), true
		}
	}
	if short != "EqualRune" && short != "EqualRuneFold" {
		return nil, false
	}
	var rs []Val
	fold := t.fold
	if short == "EqualRuneFold" {
		fold = 1
	}
	for _, a := range args {
		switch a := a.(type) {
		case IntV:
			rs = append(rs, a)
		case BoolV:
			fold = s.truth(a)
		}
	}
	if len(rs) != 2 {
		return nil, false
	}
	a, b := rs[0].(IntV).L, rs[1].(IntV).L
	if fold == 0 {
		return one(s, BoolV{Op: '=', L: a.Sub(b)}), true
	}
	if s.provesEq(a, b) {
		return one(s, boolK(true)), true
	}
	x, y := t.e.str(a), t.e.str(b)
	if x == "~"+y || y == "~"+x {
		return one(s, boolK(true)), true
	}
	if y < x {
		x, y = y, x
	}
	return one(s, BoolV{Op: 's', S: t.e.sym("same " + x + " " + y)}), true
}

// differ: the two runes are not equal in the sense of the helper.
func (t *txt) differ(s *State, a, b Sym) {
	s.assume(BoolV{Op: '=', L: linS(a).Sub(linS(b))}, false)
	x, y := t.e.str(linS(a)), t.e.str(linS(b))
	if y < x {
		x, y = y, x
	}
	if t.fold == 1 {
		s.setSym(t.e.sym("same "+x+" "+y), false)
	}
}

// splitLoop: before a loop starts, how its variables lie to the picked position
// has to be known.
func (t *txt) splitLoop(s *State, l *loopInfo) []*State {
	if l.parent == nil && s.fr.parent == nil || t.R.T == nil {
		return []*State{s}
	}
	var ls []Lin
	seen := map[string]bool{}
	add := func(x Lin) {
		if !x.IsConst() && !seen[x.Key()] {
			seen[x.Key()] = true
			ls = append(ls, x)
		}
	}
	for f := s.fr; f != nil; f = f.parent {
		for i, v := range f.env {
			if i >= len(f.fi.vals) {
				break
			}
			switch v := v.(type) {
			case IntV:
				if p, ok := f.fi.vals[i].(*ssa.Phi); ok && isInt(p.Type()) {
					add(v.L)
				}
			case SliceV:
				if v.Arr != nil && t.src != nil {
					if src, ok := t.arr[v.Arr.Name]; ok && src == t.base {
						add(v.Off.Sub(t.off[v.Arr.Name]))
					}
				}
			}
		}
	}
	out := []*State{s}
	for _, x := range ls {
		var next []*State
		for _, y := range out {
			next = append(next, splitAt(y, x, t.R)...)
		}
		if len(next) > 27 {
			break
		}
		out = next
	}
	return out
}

// enter picks the position and says what the texts hold there.
func (t *txt) enter(s *State, fn *ssa.Function, args []Val) bool {
	var sl []SliceV
	for i, a := range args {
		switch v := a.(type) {
		case SliceV:
			if !isRuneSlice(fn.Params[i].Type()) || v.Arr == nil {
				return false
			}
			t.arr[v.Arr.Name] = len(sl)
			t.off[v.Arr.Name] = v.Off
			sl = append(sl, v)
		case BoolV:
			args[i] = boolK(t.fold == 1)
		}
	}
	pick := func(n string) Lin {
		l := linS(t.e.sym(n))
		s.addCon(l)
		return l
	}
	lt := func(a, b Lin) { s.addCon(b.Sub(a).AddK(-1)) }
	isBool := func(want bool) func(*State, Val) (BoolV, bool) {
		return func(_ *State, v Val) (BoolV, bool) {
			b, ok := v.(BoolV)
			if !want && ok {
				b = b.not()
			}
			return b, ok
		}
	}
	num := func(v Val) (Lin, bool) {
		i, ok := v.(IntV)
		return i.L, ok
	}
	name := fn.Name()
	miss := strings.HasPrefix(t.mode, "mismatch")
	switch {
	case strings.HasPrefix(name, "Equal"), strings.HasPrefix(name, "HasPrefix"):
		n := sl[1].Len
		if strings.HasPrefix(name, "Equal") {
			s.addCon(sl[0].Len.Sub(n))
			s.addCon(n.Sub(sl[0].Len))
		} else {
			s.addCon(sl[0].Len.Sub(n))
		}
		t.result = isBool(miss)
		if miss {
			t.K = pick("K")
			lt(t.K, n)
			t.marks[0], t.marks[1] = t.K, t.K
			t.differ(s, t.rune(s, 0, t.K), t.rune(s, 1, t.K))
		} else {
			t.alias[1] = aliasOf{0, Lin{}}
		}
	case strings.HasPrefix(name, "IndexAll"):
		t.R = pick("R")
		s.addCon(sl[0].Len.Sub(t.R).Sub(sl[1].Len))
		if miss {
			t.K = pick("K")
			lt(t.K, sl[1].Len)
			t.marks[0], t.marks[1] = t.R.Add(t.K), t.K
			t.differ(s, t.rune(s, 0, t.R.Add(t.K)), t.rune(s, 1, t.K))
			t.result = func(s *State, v Val) (BoolV, bool) {
				l, ok := num(v)
				return BoolV{Op: '=', L: l.Sub(t.R)}, ok
			}
		} else {
			s.addCon(sl[1].Len.AddK(-1))
			t.alias[1] = aliasOf{0, t.R}
			t.result = func(s *State, v Val) (BoolV, bool) {
				l, ok := num(v)
				if strings.Contains(name, "Bck") {
					return BoolV{Op: '>', L: t.R.Sub(l).AddK(-1)}, ok
				}
				if s.proves(l) {
					return BoolV{Op: '>', L: l.Sub(t.R).AddK(-1)}, ok
				}
				return BoolV{Op: '>', L: l.Neg().AddK(-1)}, ok
			}
		}
	case name == "Index":
		t.R = pick("R")
		lt(t.R, sl[0].Len)
		t.marks[0] = t.R
		y := linS(t.rune(s, 0, t.R))
		for _, a := range args {
			if i, ok := a.(IntV); ok {
				s.assume(BoolV{Op: '=', L: i.L.Sub(y)}, !miss)
			}
		}
		t.result = func(s *State, v Val) (BoolV, bool) {
			l, ok := num(v)
			if miss {
				return BoolV{Op: '=', L: l.Sub(t.R)}, ok
			}
			if s.proves(l) {
				return BoolV{Op: '>', L: l.Sub(t.R).AddK(-1)}, ok
			}
			return BoolV{Op: '>', L: l.Neg().AddK(-1)}, ok
		}
	case name == "TrimSpaceLeft":
		t.R = pick("R")
		lt(t.R, sl[0].Len)
		t.marks[0] = t.R
		y := t.rune(s, 0, t.R)
		s.setSym(t.e.sym("space "+t.e.name(y)), miss)
		in := sl[0]
		t.result = func(s *State, v Val) (BoolV, bool) {
			o, ok := v.(SliceV)
			if !ok || o.Arr != in.Arr {
				return boolK(!s.provesEq(o.Len, Lin{}) || !miss), ok
			}
			at := o.Off.Sub(in.Off)
			if !s.provesEq(at.Add(o.Len), in.Len) {
				return boolK(true), true
			}
			if miss {
				return BoolV{Op: '=', L: at.Sub(t.R)}, true
			}
			return BoolV{Op: '>', L: at.Sub(t.R).AddK(-1)}, true
		}
	}
	t.e.extraCands = []Lin{}
	for _, m := range []Lin{t.R, t.K} {
		if m.T != nil {
			t.e.extraCands = append(t.e.extraCands, m)
		}
	}
	return t.result != nil
}

func textHelper(f *ssa.Function) bool {
	n, sl := 0, 0
	for _, q := range f.Params {
		if isRuneSlice(q.Type()) {
			sl++
		}
		if !isRuneSlice(q.Type()) {
			n++
		}
	}
	res := f.Signature.Results()
	if res.Len() != 1 {
		return false
	}
	kind := res.At(0).Type().String()
	switch name := f.Name(); {
	case strings.HasPrefix(name, "Equal"), strings.HasPrefix(name, "HasPrefix"):
		return sl == 2 && kind == "bool"
	case strings.HasPrefix(name, "IndexAll"):
		return sl == 2 && kind == "int"
	case name == "Index":
		return sl == 1 && kind == "int"
	case name == "TrimSpaceLeft":
		return sl == 1 && isRuneSlice(res.At(0).Type())
	}
	return false
}

// textDefinitions runs every comparison and search helper.
func (r *Report) textDefinitions(p *Program) {
	type variant struct {
		mode string
		fold int
	}
	vs := map[string]variant{}
	var roots []root
	relation := map[string]bool{}
	for _, f := range p.Funcs {
		if !isSource(f) || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || recvName(f) != "Runes" && f.Pkg != p.Runes {
			continue
		}
		if f.Name() == "EqualRune" || f.Name() == "EqualRuneFold" {
			for _, fold := range []int{0, 1} {
				if fold == 0 && f.Name() == "EqualRuneFold" {
					continue
				}
				n := fmt.Sprintf("%s fold %d", fnName(f), fold)
				vs[n] = variant{"relation", fold}
				relation[n] = true
				roots = append(roots, root{f, n})
			}
			continue
		}
		if !textHelper(f) {
			continue
		}
		folds := []int{0}
		if strings.Contains(f.Name(), "Fold") {
			folds = []int{1}
		}
		for _, q := range f.Params {
			if q.Type().String() == "bool" {
				folds = []int{0, 1}
			}
		}
		for _, fold := range folds {
			for _, m := range []string{"mismatch", "match"} {
				n := fmt.Sprintf("%s %s fold %d", fnName(f), m, fold)
				vs[n] = variant{m, fold}
				roots = append(roots, root{f, n})
			}
		}
	}
	x := newEvRun(r, p)
	x.setup = func(e *Eng, rt root) {
		e.maxStates, e.maxRets = 200, 100
		v := vs[rt.name]
		if v.mode == "relation" {
			e.argPre = func(e *Eng, s *State, fn *ssa.Function, args []Val) {
				for i, a := range args {
					if _, ok := a.(BoolV); ok {
						args[i] = boolK(v.fold == 1)
					}
				}
			}
			e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, res Val) {
				x.met("results compared with the definition")
				e.runeRelation(s, at, v.fold == 1, args, res)
			}
			return
		}
		t := &txt{e: e, mode: v.mode, fold: v.fold, arr: map[string]int{}, off: map[string]Lin{}, at: map[string]Lin{}, src: map[string]int{}, alias: map[int]aliasOf{}, marks: map[int]Lin{}}
		ok := false
		e.argPre = func(e *Eng, s *State, fn *ssa.Function, args []Val) { ok = t.enter(s, fn, args) }
		e.pre = func(e *Eng, s *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool) {
			return t.pre(s, name, fn, args)
		}
		e.hook = func(e *Eng, s *State, ev *Event) []*State { return t.hook(s, ev) }
		e.splitLoop = func(s *State, l *loopInfo) []*State { return t.splitLoop(s, l) }
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, res Val) {
			x.met("results compared with the definition")
			if !ok {
				e.rule(s, at, "definition", "shape", "the parameters of "+fnName(fn)+" are not those of a text helper", false)
				return
			}
			bad, known := t.result(s, res)
			why := "reports a match although the texts differ at one position"
			if v.mode == "match" {
				why = "does not report a match that is there, or not the nearest one"
			}
			good := known
			if known {
				if f := s.fork().assume(bad, true); f != nil && !infeasible(f.cons) {
					good = false
				}
			}
			e.rule(s, at, "definition", v.mode+fmt.Sprintf(" (fold %d)", v.fold), fnName(fn)+" "+why, good)
		}
	}
	x.run(roots...)
	r.floor("results compared with the definition", 20)
	_ = relation
	_ = types.Typ
}

// runeRelation: EqualRune means equal, or with folding the two cases of one
// ASCII letter.
func (e *Eng) runeRelation(s *State, at ssa.Instruction, fold bool, args []Val, res Val) {
	var rs []Lin
	for _, a := range args {
		if i, ok := a.(IntV); ok {
			rs = append(rs, i.L)
		}
	}
	b, ok := res.(BoolV)
	if len(rs) != 2 || !ok {
		return
	}
	possible := func(s *State, conds ...Lin) bool {
		f := s.fork()
		for _, c := range conds {
			if f = f.assume(BoolV{Op: '>', L: c}, true); f == nil {
				return false
			}
		}
		return !infeasible(f.cons)
	}
	yes := s.fork().assume(b, true)
	no := s.fork().assume(b, false)
	x, y := rs[0], rs[1]
	if yes != nil {
		good := true
		for i := 0; i < 2; i++ {
			lo, hi := rs[i], rs[1-i]
			d := hi.Sub(lo)
			if !fold {
				good = good && !possible(yes, d.AddK(-1))
				continue
			}
			// lo < hi and not the two cases of a letter
			for _, c := range []Lin{linK('A' - 1).Sub(lo), lo.AddK(-'Z' - 1), linK(31).Sub(d), d.AddK(-33)} {
				good = good && !possible(yes, d.AddK(-1), c)
			}
		}
		e.rule(s, at, "definition", "equal runes", "two different runes count as equal", good)
	}
	if no != nil {
		good := !possible(no, x.Sub(y), y.Sub(x))
		if fold {
			for i := 0; i < 2; i++ {
				lo, hi := rs[i], rs[1-i]
				d := hi.Sub(lo)
				good = good && !possible(no, d.AddK(-32), linK(32).Sub(d), lo.AddK(-'A'), linK('Z').Sub(lo))
			}
		}
		e.rule(s, at, "definition", "different runes", "two equal runes count as different", good)
	}
}
