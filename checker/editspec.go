package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C22"] = func(r *Report) {
		r.Rules = append(r.Rules,
			"cutting: at every exit of every exported method of the edit buffer that changes the kill text, the text is the text at entry without one contiguous range, the kill text is exactly that range, the cursor is where the range was; every other method leaves the kill text alone",
			"Ctrl-K, Ctrl-U, Ctrl-W, Meta-D, Ctrl-D and Erase cut exactly from/to the cursor",
			"yank inserts the kill text at the cursor, moves the cursor past it and keeps it",
			"the kill text shares no array with the text or the caller's slices")
		editRun(r, "C22")
	}
}

// edit is one analysed exit of an edit buffer method.
type edit struct {
	e               *Eng
	rb              *Obj
	t               *texts
	s               *State
	at              ssa.Instruction
	n, c, m         Lin // length of the text, cursor, length of the kill text at entry
	k               Lin // a position assumed to be a match
	variant         string
	args            []Val
	ret             Val
	buf, kill       []seg
	idx             Lin
	bufV, killV     SliceV
	saved           SliceV
	savedIdx, first Lin
	name            string
	argIn           []string // what the caller's slices hold at entry
}

func (x *edit) B(lo, hi Lin) []seg { return []seg{{src: "B", lo: lo, hi: hi}} }
func (x *edit) K() []seg           { return []seg{{src: "K", hi: x.m}} }

func cat(cs ...[]seg) (out []seg) {
	for _, c := range cs {
		out = append(out, c...)
	}
	return
}

// when runs f in the part of the exit's states where all lins are >= 0.
func (x *edit) when(f func(x *edit), lins ...Lin) {
	y := *x
	y.s = x.s.fork()
	for _, l := range lins {
		y.s.addCon(l)
	}
	if infeasible(y.s.cons) {
		return
	}
	f(&y)
}

func (x *edit) rule(rule, construct, msg string, ok bool) {
	x.e.rule(x.s, x.at, rule, construct, x.name+" "+msg, ok)
}

func (x *edit) text(want []seg) {
	x.rule("effect", "text", fmt.Sprintf("leaves the text %s, expected %s", x.t.show(x.t.norm(x.s, x.buf)), x.t.show(x.t.norm(x.s, want))), x.t.eq(x.s, x.buf, want))
}
func (x *edit) cursor(want Lin) {
	x.rule("effect", "cursor", "leaves the cursor at "+x.e.str(x.idx)+", expected "+x.e.str(want), x.s.provesEq(x.idx, want))
}
func (x *edit) killIs(want []seg) {
	x.rule("kill", "kill text", fmt.Sprintf("leaves the kill text %s, expected %s", x.t.show(x.t.norm(x.s, x.kill)), x.t.show(x.t.norm(x.s, want))), x.t.eq(x.s, x.kill, want))
}
func (x *edit) keep() { x.text(x.B(Lin{}, x.n)); x.killIs(x.K()) }
func (x *edit) cut(a, b Lin) {
	x.text(cat(x.B(Lin{}, a), x.B(b, x.n)))
	x.killIs(x.B(a, b))
	x.cursor(a)
}
func (x *edit) nothing() { x.keep(); x.cursor(x.c) }
func (x *edit) result(want bool) {
	if x.ret == nil {
		return
	}
	b, ok := x.ret.(BoolV)
	w := 0
	if want {
		w = 1
	}
	x.rule("effect", "result", fmt.Sprintf("does not return %v", want), ok && x.s.truth(b) == w)
}

// removed is the range the kill text holds.
func (x *edit) removed() (a, b Lin, ok bool) {
	k := x.t.norm(x.s, x.kill)
	if len(k) == 0 {
		return x.c, x.c, true
	}
	if len(k) == 1 && k[0].src == "B" && !k[0].open {
		return k[0].lo, k[0].hi, true
	}
	return Lin{}, Lin{}, false
}

type editSpec struct {
	variants []string
	check    func(x *edit)
}

func zero() Lin { return Lin{} }

func lt(a, b Lin) Lin { return b.Sub(a).AddK(-1) }
func le(a, b Lin) Lin { return b.Sub(a) }

var plain = []string{""}

// editSpecs: what the commands of the edit buffer do (doc/shortcut.md).
var editSpecs = map[string]editSpec{
	"MoveToLineStart": {plain, func(x *edit) { x.keep(); x.cursor(zero()) }},
	"MoveToLineEnd":   {plain, func(x *edit) { x.keep(); x.cursor(x.n) }},
	"MoveBackward": {plain, func(x *edit) {
		x.keep()
		x.when(func(x *edit) { x.cursor(x.c.AddK(-1)) }, lt(zero(), x.c))
		x.when(func(x *edit) { x.cursor(zero()) }, le(x.c, zero()))
	}},
	"MoveForward": {plain, func(x *edit) {
		x.keep()
		x.when(func(x *edit) { x.cursor(x.c.AddK(1)) }, lt(x.c, x.n))
		x.when(func(x *edit) { x.cursor(x.n) }, le(x.n, x.c))
	}},
	"MoveToPrevWord": {[]string{"", "word before"}, func(x *edit) {
		x.keep()
		x.when(func(x *edit) {
			x.rule("effect", "cursor", "does not move back to the start of a word or of the line", x.s.proves(lt(x.idx, x.c)) && (x.s.provesEq(x.idx, zero()) || x.t.wordStart(x.s, x.idx)))
			x.result(true)
			if x.variant != "" {
				x.rule("effect", "nearest", "passes the start of a word", x.s.proves(le(x.k, x.idx)))
			}
		}, lt(zero(), x.c))
		x.when(func(x *edit) { x.cursor(zero()); x.result(false) }, le(x.c, zero()))
	}},
	"MoveToNextWord": {[]string{"", "word after"}, func(x *edit) {
		x.keep()
		x.rule("effect", "cursor", "does not move forward to the start of a word or the end of the line", x.s.provesEq(x.idx, x.n) || x.s.proves(lt(x.c, x.idx)) && x.t.wordStart(x.s, x.idx))
		if x.variant != "" {
			x.rule("effect", "nearest", "passes the start of a word", x.s.proves(le(x.idx, x.k)))
		}
	}},
	"MoveToEndWord": {[]string{"", "end after"}, func(x *edit) {
		x.keep()
		x.rule("effect", "cursor", "does not move forward to the end of a word or of the line", x.s.provesEq(x.idx, x.n) || x.s.proves(lt(x.c, x.idx)) && x.t.isBreak(x.s, x.idx) == 0 && x.t.isBreak(x.s, x.idx.AddK(1)) == 1)
		if x.variant != "" {
			x.rule("effect", "nearest", "passes the end of a word", x.s.proves(le(x.idx, x.k)))
		}
	}},
	"MoveTo": {[]string{"", "match after", "match before"}, func(x *edit) {
		x.keep()
		ch, ok1 := x.args[1].(IntV)
		prev, ok2 := x.args[2].(BoolV)
		back, ok3 := x.args[3].(BoolV)
		if !ok1 || !ok2 || !ok3 {
			return
		}
		for _, s := range truthForks(x.s, prev, back) {
			y := *x
			y.s = s
			y.moveTo(ch.L, s.truth(prev) == 1, s.truth(back) == 1)
		}
	}},
	"WriteRunes": {plain, func(x *edit) { x.insert(x.args[1]) }},
	"WriteRune": {plain, func(x *edit) {
		if i, ok := x.args[1].(IntV); ok {
			x.inserted([]seg{{src: "'", lo: i.L}}, linK(1))
		}
	}},
	"WriteString": {plain, func(x *edit) {
		x.rule("effect", "text", "does not insert the text at the cursor", func() bool {
			b := x.t.norm(x.s, x.buf)
			// B[0:c] text B[c:n], the inserted text is the one made from the argument
			var mid []seg
			for _, g := range b {
				if g.src != "B" {
					mid = append(mid, g)
				}
			}
			if len(mid) > 1 {
				return false
			}
			if len(mid) == 0 {
				return x.t.eq(x.s, b, x.B(zero(), x.n))
			}
			src, ok := x.e.src[mid[0].src]
			ml := mid[0].len()
			return ok && valEq(src, x.args[1]) && !mid[0].open && x.s.provesEq(mid[0].lo, zero()) &&
				x.t.eq(x.s, b, cat(x.B(zero(), x.c), mid, x.B(x.c, x.n))) && x.s.provesEq(x.idx, x.c.Add(ml))
		}())
		x.killIs(x.K())
	}},
	"Replace": {plain, func(x *edit) {
		x.killIs(x.K())
		x.cursor(x.c)
		ch, ok := x.args[1].(IntV)
		if !ok {
			return
		}
		x.when(func(x *edit) {
			x.text(cat(x.B(zero(), x.c), []seg{{src: "'", lo: ch.L}}, x.B(x.c.AddK(1), x.n)))
		}, lt(x.c, x.n))
		x.when(func(x *edit) { x.nothing() }, le(x.n, x.c))
	}},
	"Erase": {plain, func(x *edit) { x.cut(zero(), x.n) }},
	"Delete": {plain, func(x *edit) {
		x.when(func(x *edit) { x.cut(x.c, x.c.AddK(1)); x.result(true) }, lt(x.c, x.n))
		x.when(func(x *edit) { x.nothing(); x.result(false) }, le(x.n, x.c))
	}},
	"DeleteWord": {[]string{"", "word after", "leading breaks"}, func(x *edit) {
		x.when(func(x *edit) { x.nothing() }, le(x.n, x.c))
		x.when(func(x *edit) {
			a, b, ok := x.removed()
			if !ok {
				x.rule("kill", "kill text", "does not cut one range of the text: the kill text is "+x.t.show(x.kill), false)
				return
			}
			x.cut(a, b)
			x.rule("effect", "range", "does not cut from the cursor to the end of a word or of the line", x.s.provesEq(a, x.c) && (x.s.provesEq(b, x.n) || x.t.wordStart(x.s, b.AddK(1))))
			if x.variant != "" {
				x.rule("effect", "nearest", "cuts into the next word", x.s.proves(lt(b, x.k)))
			}
			if x.variant == "leading breaks" {
				x.rule("effect", "word", "cuts only what is before the next word", x.s.proves(lt(x.first, b)))
			}
		}, lt(x.c, x.n))
	}},
	"BackEscapeWord": {[]string{"", "word before"}, func(x *edit) {
		x.when(func(x *edit) { x.nothing() }, le(x.c, zero()))
		x.when(func(x *edit) {
			a, b, ok := x.removed()
			if !ok {
				x.rule("kill", "kill text", "does not cut one range of the text: the kill text is "+x.t.show(x.kill), false)
				return
			}
			x.cut(a, b)
			x.rule("effect", "range", "does not cut from the start of a word or of the line to the cursor", x.s.provesEq(b, x.c) && x.s.proves(lt(a, b)) && (x.s.provesEq(a, zero()) || x.t.wordStart(x.s, a)))
			if x.variant != "" {
				x.rule("effect", "nearest", "cuts more than the word before the cursor", x.s.proves(le(x.k, a)))
			}
		}, lt(zero(), x.c))
	}},
	"KillFront": {plain, func(x *edit) {
		x.when(func(x *edit) { x.nothing() }, le(x.c, zero()))
		x.when(func(x *edit) { x.cut(zero(), x.c) }, lt(zero(), x.c))
	}},
	"Kill": {plain, func(x *edit) { x.cut(x.c, x.n) }},
	"Transpose": {plain, func(x *edit) {
		x.killIs(x.K())
		swap := func(x *edit, i Lin) {
			x.text(cat(x.B(zero(), i.AddK(-1)), x.B(i, i.AddK(1)), x.B(i.AddK(-1), i), x.B(i.AddK(1), x.n)))
			x.cursor(i.AddK(1))
		}
		x.when(func(x *edit) { x.text(x.B(zero(), x.n)) }, le(x.n, linK(1)))
		x.when(func(x *edit) { swap(x, linK(1)) }, le(linK(2), x.n), le(x.c, zero()))
		x.when(func(x *edit) { swap(x, x.c) }, le(linK(2), x.n), lt(zero(), x.c), lt(x.c, x.n))
		x.when(func(x *edit) { swap(x, x.n.AddK(-1)) }, le(linK(2), x.n), le(x.n, x.c))
	}},
	"Yank": {plain, func(x *edit) {
		x.killIs(x.K())
		x.when(func(x *edit) { x.nothing() }, le(x.m, zero()))
		x.when(func(x *edit) {
			x.text(cat(x.B(zero(), x.c), x.K(), x.B(x.c, x.n)))
			x.cursor(x.c.Add(x.m))
		}, lt(zero(), x.m))
	}},
	"Backspace": {plain, func(x *edit) {
		x.killIs(x.K())
		x.when(func(x *edit) { x.nothing() }, le(x.c, zero()))
		x.when(func(x *edit) {
			x.text(cat(x.B(zero(), x.c.AddK(-1)), x.B(x.c, x.n)))
			x.cursor(x.c.AddK(-1))
		}, lt(zero(), x.c))
	}},
	"Set": {plain, func(x *edit) {
		x.killIs(x.K())
		x.text(x.arg(1))
		if v, ok := x.args[1].(SliceV); ok {
			x.cursor(v.Len)
		}
	}},
	"SetWithIdx": {plain, func(x *edit) {
		x.killIs(x.K())
		x.text(x.arg(2))
		if v, ok := x.args[1].(IntV); ok {
			x.cursor(v.L)
		}
	}},
	"Reset": {plain, func(x *edit) {
		x.killIs(x.K())
		x.text(nil)
		x.cursor(zero())
		x.returns(x.B(zero(), x.n))
	}},
	"Runes": {plain, func(x *edit) {
		x.nothing()
		x.returns(x.B(zero(), x.n))
	}},
	"RuneSlice": {plain, func(x *edit) {
		x.nothing()
		i, ok := x.args[1].(IntV)
		if !ok {
			return
		}
		x.when(func(x *edit) { x.returns(x.B(x.c, x.c.Add(i.L))) }, lt(zero(), i.L), le(x.c.Add(i.L), x.n))
		x.when(func(x *edit) { x.returns(x.B(x.c, x.n)) }, lt(zero(), i.L), le(x.n, x.c.Add(i.L)))
		x.when(func(x *edit) { x.returns(x.B(x.c.Add(i.L), x.c)) }, le(i.L, zero()), le(zero(), x.c.Add(i.L)))
		x.when(func(x *edit) { x.returns(x.B(zero(), x.c)) }, le(i.L, zero()), le(x.c.Add(i.L), zero()))
	}},
	"Restore": {plain, func(x *edit) {
		x.killIs(x.K())
		// the saved text, or nothing was saved
		b := x.t.norm(x.s, x.buf)
		saved := len(b) == 1 && b[0].src == "saved" && x.s.provesEq(b[0].lo, zero()) && x.s.provesEq(b[0].hi, x.saved.Len)
		empty := len(b) == 0 && x.s.provesEq(x.saved.Len, zero())
		if saved || empty {
			x.cursor(x.savedIdx)
			return
		}
		x.nothing()
	}},
	"Backup": {plain, func(x *edit) {
		x.nothing()
		o, _ := dynObj(x.e.peek(x.s, x.e.objFor(x.e.p.namedType("RuneBuffer"), ""), ".bck"))
		if o == nil {
			x.rule("effect", "backup", "saves nothing", false)
			return
		}
		v, ok := x.e.peek(x.s, o, ".buf").(SliceV)
		i, ok2 := x.e.peek(x.s, o, ".idx").(IntV)
		x.rule("effect", "backup", "does not save the text and the cursor", ok && ok2 && x.t.eq(x.s, x.t.of(x.s, v), x.B(zero(), x.n)) && x.s.provesEq(i.L, x.c))
	}},
	"IsCursorInEnd": {plain, func(x *edit) {
		x.nothing()
		x.when(func(x *edit) { x.result(true) }, le(x.n, x.c))
		x.when(func(x *edit) { x.result(false) }, lt(x.c, x.n))
	}},
	"Pos": {plain, func(x *edit) { x.nothing(); x.number(x.c) }},
	"Len": {plain, func(x *edit) { x.nothing(); x.number(x.n) }},
}

func (x *edit) number(want Lin) {
	i, ok := x.ret.(IntV)
	x.rule("effect", "result", "does not return "+x.e.str(want), ok && x.s.provesEq(i.L, want))
}

func (x *edit) arg(i int) []seg {
	v, ok := x.args[i].(SliceV)
	if !ok {
		return nil
	}
	return []seg{{src: fmt.Sprint("arg", i), hi: v.Len}}
}

func (x *edit) insert(v Val) {
	if sv, ok := v.(SliceV); ok {
		x.inserted([]seg{{src: "arg1", hi: sv.Len}}, sv.Len)
	}
}

func (x *edit) inserted(c []seg, l Lin) {
	x.text(cat(x.B(zero(), x.c), c, x.B(x.c, x.n)))
	x.cursor(x.c.Add(l))
	x.killIs(x.K())
}

func (x *edit) returns(want []seg) {
	x.rule("effect", "result", "does not return "+x.t.show(want)+" but "+x.t.show(x.t.norm(x.s, x.t.of(x.s, x.ret))), x.t.eq(x.s, x.t.of(x.s, x.ret), want))
}

// moveTo: the cursor goes to the nearest ch, or stays.
func (x *edit) moveTo(ch Lin, prev, back bool) {
	dir := int64(1)
	if back {
		dir = -1
	}
	off := int64(0)
	if prev {
		off = -dir
	}
	found := x.idx.AddK(-off)
	b, ok := x.ret.(BoolV)
	if !ok {
		return
	}
	// the other direction's match says nothing
	if x.variant == "match after" && back || x.variant == "match before" && !back {
		return
	}
	switch x.s.truth(b) {
	case 0:
		x.cursor(x.c)
		x.rule("effect", "found", "does not find the character although it is there", x.variant == "")
	case 1:
		isCh := false
		for n, p := range x.t.at {
			if x.t.src[n] == "B" && x.s.provesEq(p, found) && x.s.provesEq(linS(x.e.sym(n)), ch) {
				isCh = true
			}
		}
		after := x.s.proves(lt(x.c, found))
		if back {
			after = x.s.proves(lt(found, x.c))
		}
		x.rule("effect", "cursor", "does not stop at, or next to, the wanted character", isCh && after)
		switch x.variant {
		case "match after":
			x.rule("effect", "nearest", "passes the wanted character", x.s.proves(le(found, x.k)))
		case "match before":
			x.rule("effect", "nearest", "passes the wanted character", x.s.proves(le(x.k, found)))
		}
	default:
		x.rule("effect", "result", "has a result that does not depend on what was found", false)
	}
}

// enter names what the edit buffer holds at entry, and assumes a word or a match where the
// variant wants one.
func (x *edit) enter(s *State, args []Val) {
	e, t := x.e, x.t
	o := x.rb
	b, _ := e.peek(s, o, ".buf").(SliceV)
	k, _ := e.peek(s, o, ".lastKill").(SliceV)
	i, _ := e.peek(s, o, ".idx").(IntV)
	x.n, x.m, x.c = b.Len, k.Len, i.L
	s.addCon(i.L)
	s.addCon(b.Len.Sub(i.L))
	t.put(s, b.Arr.Name, []seg{{src: "B", hi: b.Len}, t.unknown(Lin{}, true)})
	t.put(s, k.Arr.Name, []seg{{src: "K", hi: k.Len}, t.unknown(Lin{}, true)})
	if bo, _ := dynObj(e.peek(s, o, ".bck")); bo != nil {
		v, _ := e.peek(s, bo, ".buf").(SliceV)
		j, _ := e.peek(s, bo, ".idx").(IntV)
		x.saved, x.savedIdx = v, j.L
		if v.Arr != nil {
			t.put(s, v.Arr.Name, []seg{{src: "saved", hi: v.Len}, t.unknown(Lin{}, true)})
		}
	}
	pos := linS(e.sym("match"))
	x.k = pos
	if x.variant != "" {
		s.addCon(lt(pos, b.Len))
	}
	switch x.variant {
	case "word before", "word after":
		t.mark = []Lin{pos, pos.AddK(-1)}
		s.addCon(pos.AddK(-1))
		if x.variant == "word before" {
			s.addCon(lt(pos, i.L))
		} else {
			s.addCon(lt(i.L, pos))
		}
		t.assumeBreak(s, pos, false)
		t.assumeBreak(s, pos.AddK(-1), true)
		if x.name == "DeleteWord" {
			t.mark = append(t.mark, i.L)
			if s.provesEq(i.L, pos.AddK(-1)) {
				return
			}
			s.addCon(lt(i.L, pos.AddK(-1)))
			t.assumeBreak(s, i.L, false)
		}
	case "leading breaks":
		first := linS(e.sym("first"))
		s.addCon(lt(i.L, first))
		s.addCon(lt(first, pos.AddK(-1)))
		t.mark = []Lin{pos, pos.AddK(-1), first}
		t.breakLo, t.breakHi = i.L, first
		x.first = first
		t.assumeBreak(s, pos, false)
		t.assumeBreak(s, pos.AddK(-1), true)
		t.assumeBreak(s, first, false)
	case "end after":
		t.mark = []Lin{pos, pos.AddK(1)}
		s.addCon(lt(i.L, pos))
		s.addCon(lt(pos.AddK(1), b.Len))
		t.assumeBreak(s, pos, false)
		t.assumeBreak(s, pos.AddK(1), true)
	case "match after", "match before":
		t.mark = []Lin{pos}
		if x.variant == "match after" {
			s.addCon(lt(i.L, pos))
		} else {
			s.addCon(lt(pos, i.L))
			s.addCon(pos)
		}
		ch, _ := args[1].(IntV)
		y := linS(t.runeAt(s, "B", pos))
		s.addCon(y.Sub(ch.L))
		s.addCon(ch.L.Sub(y))
	}
	e.extraCands = append([]Lin{}, t.mark...)
	t.cursor = i.L
	t.seen(s, 0, linK(-9))
	t.seen(s, 1, linK(-9))
	if x.name == "MoveToEndWord" {
		t.mark = append(t.mark, i.L, i.L.AddK(1))
	}
}

// leave is what the edit buffer holds in s; nil when s cannot happen.
func (x *edit) leave(s *State, at ssa.Instruction) *edit {
	if s = x.t.refine(s); s == nil {
		return nil
	}
	y := *x
	y.s, y.at = s, at
	y.bufV, _ = x.e.peek(s, x.rb, ".buf").(SliceV)
	y.killV, _ = x.e.peek(s, x.rb, ".lastKill").(SliceV)
	i, _ := x.e.peek(s, x.rb, ".idx").(IntV)
	y.buf, y.kill, y.idx = x.t.of(s, y.bufV), x.t.of(s, y.killV), i.L
	return &y
}

func truthForks(s *State, bs ...BoolV) []*State {
	out := []*State{s}
	for _, b := range bs {
		var next []*State
		for _, t := range out {
			for _, v := range []bool{true, false} {
				if u := t.fork().assume(b, v); u != nil && !infeasible(u.cons) {
					next = append(next, u)
				}
			}
		}
		out = next
	}
	return out
}

// editRun interprets every exported method of the edit buffer.
func editRun(r *Report, prop string) {
	r.Assumes = append(r.Assumes, "at entry text, kill text, saved text and arguments share no memory (C09)", "0 <= cursor <= length at entry (C05)", "one goroutine at a time (C16)")
	p := load(r, "linux")
	rb := p.namedType("RuneBuffer")
	if rb == nil {
		r.errf("type RuneBuffer not found")
		return
	}
	w := newEditModel(p)
	writes := w.writes
	var roots []root
	variant := map[string]string{}
	methods := p.methodsOf("RuneBuffer", true)
	if prop == "C09" {
		methods = w.runeHolders(p)
	}
	for _, f := range methods {
		sp, ok := editSpecs[f.Name()]
		vs := plain
		if prop == "C09" {
		} else if ok {
			vs = sp.variants
		} else if !writes[f] {
			continue
		}
		for _, v := range vs {
			n := fnName(f)
			if v != "" {
				n += " with a " + v
			}
			variant[n] = v
			roots = append(roots, root{f, n})
		}
	}
	for n := range editSpecs {
		if prop != "C09" && p.method("RuneBuffer", n) == nil {
			r.errf("anchor RuneBuffer.%s not found", n)
		}
	}
	x := newEvRun(r, p, "RuneBuffer")
	x.setup = func(e *Eng, rt root) {
		e.maxStates, e.maxRets = 400, 200
		t := newTexts(e)
		ed := edit{e: e, t: t, variant: variant[rt.name], name: rt.fn.Name(), rb: e.objFor(rb, "")}
		var argArrs []string
		e.argPre = func(e *Eng, s *State, fn *ssa.Function, args []Val) {
			for i, a := range args {
				if v, ok := a.(SliceV); ok && v.Arr != nil && isRuneSlice(fn.Params[i].Type()) {
					t.put(s, v.Arr.Name, []seg{{src: fmt.Sprint("arg", i), hi: v.Len}, {src: fmt.Sprint("behind arg", i), open: true}})
					argArrs = append(argArrs, v.Arr.Name)
					ed.argIn = append(ed.argIn, s.ghost["text "+v.Arr.Name])
				}
			}
			ed.enter(s, args)
		}
		e.pre = func(e *Eng, s *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool) {
			return w.pre(t, s, at, fn, args)
		}
		e.hook = func(e *Eng, s *State, ev *Event) []*State { return w.hook(t, s, ev) }
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			y := ed.leave(s, at)
			if y == nil {
				return
			}
			s, y.args, y.ret = y.s, args, v
			x.met("exits of edit buffer methods")
			if prop == "C09" {
				y.owned(argArrs)
				return
			}
			if sp, ok := editSpecs[fn.Name()]; ok {
				sp.check(y)
			} else if !t.eq(s, y.kill, y.K()) {
				a, b, ok := y.removed()
				if !ok {
					y.rule("kill", "kill text", "does not cut one range of the text: the kill text is "+t.show(y.kill), false)
				} else {
					y.cut(a, b)
				}
			}
			if prop == "C22" {
				// the kill text is private
				kr, br := "", ""
				if y.killV.Arr != nil {
					kr = t.root(s, y.killV.Arr.Name)
				}
				if y.bufV.Arr != nil {
					br = t.root(s, y.bufV.Arr.Name)
				}
				y.rule("kill", "shared", "lets the kill text share memory with the text or with the caller's slice: later edits change it", kr == "" || kr != br && !contains(argArrs, kr))
			}
		}
	}
	x.filter = func(o *oblig) bool {
		switch prop {
		case "C22":
			return o.rule == "kill" || contains([]string{"Yank", "Kill", "KillFront", "DeleteWord", "BackEscapeWord", "Delete", "Erase"}, methodOf(o.fn))
		}
		return true
	}
	x.run(roots...)
	r.floor("exits of edit buffer methods", 40)
}

func methodOf(fn string) string { return fn[strings.LastIndexByte(fn, '.')+1:] }

// owned: C09 for one exit of an edit buffer method. Text, kill text, saved text,
// the caller's slices and what is returned share no memory.
func (x *edit) owned(args []string) {
	s, t := x.s, x.t
	type holder struct{ what, root string }
	var hs []holder
	add := func(what string, v Val) {
		sl, ok := v.(SliceV)
		if !ok {
			x.rule("owned", what, "leaves "+what+" in a form that is not followed", false)
			return
		}
		if sl.Arr == nil || sl.Cap != nil && s.provesEq(*sl.Cap, linK(0)) {
			return
		}
		hs = append(hs, holder{what, t.root(s, sl.Arr.Name)})
	}
	add("the text", x.bufV)
	add("the kill text", x.killV)
	if bo, _ := dynObj(x.e.peek(s, x.rb, ".bck")); bo != nil {
		add("the saved text", x.e.peek(s, bo, ".buf"))
	}
	own := len(hs)
	ret := x.ret
	if tu, ok := ret.(TupleV); ok {
		for _, v := range tu {
			if _, ok := v.(SliceV); ok {
				add("what it returns", v)
			}
		}
	} else if _, ok := ret.(SliceV); ok {
		add("what it returns", ret)
	}
	for i, h := range hs {
		for _, g := range hs[:i] {
			if i >= own && g.what == h.what {
				continue
			}
			x.rule("owned", g.what+"/"+h.what, "lets "+g.what+" and "+h.what+" share memory", g.root != h.root)
		}
		if i < own {
			x.rule("owned", h.what+"/caller", "keeps the caller's slice as "+h.what, !contains(args, h.root))
		}
	}
	// what the caller's slices hold, also behind their length, is as before
	for i, a := range args {
		x.rule("owned", "caller's memory", "writes to the caller's slice", s.ghost["text "+a] == x.argIn[i])
	}
}

// runeHolders: the methods of the edit buffer that are called from elsewhere and
// take, return or store runes.
func (w *editModel) runeHolders(p *Program) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.methodsOf("RuneBuffer", false) {
		has := w.writes[f]
		for i := 0; i < f.Signature.Results().Len(); i++ {
			has = has || isRuneSlice(f.Signature.Results().At(i).Type())
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			has = has || isRuneSlice(f.Signature.Params().At(i).Type())
		}
		if !has || takesFunc(f) {
			continue
		}
		if f.Object().Exported() {
			out = append(out, f)
			continue
		}
		if n := p.callGraph().Nodes[f]; n != nil {
			for _, in := range n.In {
				if recvName(outermost(in.Caller.Func)) != "RuneBuffer" {
					out = append(out, f)
					break
				}
			}
		}
	}
	return out
}

// editModel: which functions take part in changing the edit buffer.
type editModel struct {
	p      *Program
	writes map[*ssa.Function]bool
}

func newEditModel(p *Program) *editModel {
	fields := []string{"buf", "idx", "lastKill", "bck"}
	return &editModel{p: p, writes: p.staticReach(func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if ow, n := fieldOf(fa.X.Type(), fa.Field); ow == "RuneBuffer" && contains(fields, n) {
						for _, ref := range *fa.Referrers() {
							if _, ok := ref.(*ssa.Store); ok {
								return true
							}
						}
					}
				}
			}
		}
		return false
	})}
}

// takesFunc: f may call a function that changes the buffer (Refresh).
func takesFunc(f *ssa.Function) bool {
	for _, q := range f.Params {
		if _, ok := q.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

func (w *editModel) pre(t *texts, s *State, at ssa.Instruction, fn *ssa.Function, args []Val) ([]callRes, bool) {
	if fn == nil || !w.p.inModule(fn) || fn.Blocks == nil {
		return nil, false
	}
	if fn.Name() == "IsWordBreak" && fn.Signature.Recv() == nil {
		if i, ok := args[0].(IntV); ok {
			return t.breaks(s, i), true
		}
	}
	if fn.Parent() == nil && !w.writes[fn] && !takesFunc(fn) && fn.Signature.Results().Len() == 0 {
		return []callRes{{s, nil}}, true
	}
	return nil, false
}

func (w *editModel) hook(t *texts, s *State, ev *Event) []*State {
	if ev.Kind == "call" && (ev.Fn == nil || !w.p.inModule(ev.Fn)) && !strings.HasPrefix(ev.Name, "builtin") {
		for _, a := range ev.Args {
			if v, ok := a.(SliceV); ok && v.Arr != nil {
				t.clobber(s, v.Arr.Name)
				t.put(s, v.Arr.Name, []seg{t.unknown(Lin{}, true)})
			}
		}
	}
	return t.hook(s, ev)
}
