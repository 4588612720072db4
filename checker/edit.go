package main

// The text of the edit buffer as a sequence of ranges of its text at entry.
// C21: effect of the editing commands.  C22: cutting and yanking.  C09: ownership.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// seg is a range of a named text, or one rune (src "'", lo its value).
type seg struct {
	src    string
	lo, hi Lin
	open   bool // no end
}

func (g seg) key() string {
	switch {
	case g.src == "'":
		return "'" + g.lo.Key()
	case g.open:
		return g.src + "[" + g.lo.Key() + ":"
	}
	return g.src + "[" + g.lo.Key() + ":" + g.hi.Key() + "]"
}

func (g seg) len() Lin {
	if g.src == "'" {
		return linK(1)
	}
	return g.hi.Sub(g.lo)
}

// texts keeps the contents of arrays; a state refers to them with ghosts.
type texts struct {
	e                *Eng
	tab              map[string][]seg
	at               map[string]Lin    // positions of the entry text of which the rune was looked at, by the name of the rune
	src              map[string]string // and the text
	mark             []Lin             // positions a load is compared with
	cursor           Lin               // at entry
	breakLo, breakHi Lin               // the runes of this range break words
	n                int
}

func newTexts(e *Eng) *texts {
	return &texts{e: e, tab: map[string][]seg{}, at: map[string]Lin{}, src: map[string]string{}}
}

func (t *texts) put(s *State, arr string, c []seg) {
	if len(c) > 14 {
		c = []seg{t.unknown(Lin{}, true)}
	}
	var ks []string
	for _, g := range c {
		ks = append(ks, g.key())
	}
	k := strings.Join(ks, "+")
	t.tab[k] = c
	if k == "" {
		k = "empty"
	}
	s.setGhost("text "+arr, k)
}

func (t *texts) unknown(l Lin, open bool) seg {
	return seg{src: "?", hi: l, open: open}
}

func (t *texts) whole(s *State, arr string) []seg {
	k, ok := s.ghost["text "+arr]
	if !ok {
		return []seg{{src: arr, open: true}}
	}
	return t.tab[k]
}

// split cuts the sequence at position p; ok is false when the place is not known.
func (t *texts) split(s *State, c []seg, p Lin) (a, b []seg, ok bool) {
	acc := Lin{}
	for i, g := range c {
		if s.provesEq(acc, p) {
			return c[:i:i], c[i:], true
		}
		if g.open || s.proves(acc.Add(g.len()).Sub(p)) && s.proves(p.Sub(acc)) {
			if g.open && !s.proves(p.Sub(acc)) {
				return nil, nil, false
			}
			if !g.open && s.provesEq(acc.Add(g.len()), p) {
				return c[: i+1 : i+1], c[i+1:], true
			}
			if g.src == "'" {
				return nil, nil, false
			}
			m := g.lo.Add(p.Sub(acc))
			l, r := g, g
			l.hi, l.open = m, false
			r.lo = m
			return append(append([]seg{}, c[:i]...), l), append([]seg{r}, c[i+1:]...), true
		}
		if !s.proves(p.Sub(acc.Add(g.len()))) {
			return nil, nil, false
		}
		acc = acc.Add(g.len())
	}
	if s.provesEq(acc, p) {
		return c, nil, true
	}
	return nil, nil, false
}

func (t *texts) of(s *State, v Val) []seg {
	switch v := v.(type) {
	case SliceV:
		if v.Arr == nil {
			return nil
		}
		_, r, ok := t.split(s, t.whole(s, v.Arr.Name), v.Off)
		if ok {
			l, _, ok2 := t.split(s, r, v.Len)
			if ok2 {
				return l
			}
		}
		return []seg{t.unknown(v.Len, false)}
	}
	return []seg{t.unknown(Lin{}, true)}
}

// root of the arrays that may share memory.
func (t *texts) root(s *State, arr string) string {
	for i := 0; i < 20; i++ {
		b := s.ghost["grown from "+arr]
		if b == "" {
			return arr
		}
		arr = b
	}
	return arr
}

// clobber forgets what the other arrays of the family hold.
func (t *texts) clobber(s *State, arr string, keep ...string) {
	root := t.root(s, arr)
	var names []string
	for k := range s.ghost {
		if n, ok := strings.CutPrefix(k, "grown from "); ok {
			names = append(names, n)
		}
	}
	names = append(names, root)
	sort.Strings(names)
	for _, n := range names {
		if t.root(s, n) == root && !contains(keep, n) {
			t.put(s, n, []seg{t.unknown(Lin{}, true)})
		}
	}
}

func (t *texts) update(s *State, arr string, off Lin, with []seg) {
	n := Lin{}
	for _, g := range with {
		if g.open {
			t.put(s, arr, []seg{t.unknown(Lin{}, true)})
			return
		}
		n = n.Add(g.len())
	}
	a, r, ok := t.split(s, t.whole(s, arr), off)
	if ok {
		if _, b, ok2 := t.split(s, r, n); ok2 {
			c := append(append(append([]seg{}, a...), with...), b...)
			t.clobber(s, arr, arr)
			t.put(s, arr, c)
			return
		}
	}
	t.clobber(s, arr)
	t.put(s, arr, []seg{t.unknown(Lin{}, true)})
}

func isRuneSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

// hook follows the contents through loads, stores, append and copy.
func (t *texts) hook(s *State, ev *Event) []*State {
	e := t.e
	switch ev.Kind {
	case "append":
		a, ok := ev.Args[0].(SliceV)
		v, ok2 := ev.Val.(SliceV)
		if !ok || !ok2 || v.Arr == nil || len(ev.Args) < 2 || v.Arr == a.Arr {
			return nil
		}
		c := append(append([]seg{}, t.of(s, a)...), t.of(s, ev.Args[1])...)
		c = append(c, t.unknown(Lin{}, true))
		full := a.Cap != nil && (s.provesEq(*a.Cap, linK(0)) || s.provesEq(*a.Cap, a.Len) && s.proves(v.Len.Sub(a.Len).AddK(-1)))
		if a.Arr != nil && !full { // otherwise it always moves to new memory
			pre, _, ok := t.split(s, t.whole(s, a.Arr.Name), a.Off.Add(a.Len))
			t.clobber(s, a.Arr.Name, a.Arr.Name)
			if ok {
				t.put(s, a.Arr.Name, append(append([]seg{}, pre...), t.unknown(Lin{}, true)))
			} else {
				t.put(s, a.Arr.Name, []seg{t.unknown(Lin{}, true)})
			}
			s.setGhost("grown from "+v.Arr.Name, a.Arr.Name)
		}
		t.put(s, v.Arr.Name, c)
	case "copy":
		d, ok := ev.Args[0].(SliceV)
		if !ok || d.Arr == nil {
			return nil
		}
		src := t.of(s, ev.Args[1])
		sl := e.lenOf(s, ev.Args[1], ev.At)
		switch {
		case s.proves(d.Len.Sub(sl)):
		case s.proves(sl.Sub(d.Len)):
			l, _, ok := t.split(s, src, d.Len)
			if !ok {
				l = []seg{t.unknown(d.Len, false)}
			}
			src = l
		default:
			src = []seg{t.unknown(Lin{}, true)}
		}
		t.update(s, d.Arr.Name, d.Off, src)
	case "store":
		st, ok := ev.At.(*ssa.Store)
		if !ok || ev.Cell.o == nil {
			return nil
		}
		if _, ok := st.Addr.(*ssa.IndexAddr); !ok && !ev.Cell.o.Arr {
			return nil
		}
		arr, pos, ok := t.elem(s, st.Addr)
		if !ok || arr == nil {
			t.clobber(s, ev.Cell.o.Name)
			return nil
		}
		if i, ok := ev.Val.(IntV); ok {
			t.update(s, arr.Name, pos, []seg{{src: "'", lo: i.L}})
		} else {
			t.update(s, arr.Name, pos, []seg{t.unknown(linK(1), false)})
		}
	case "load":
		ld, ok := ev.At.(*ssa.UnOp)
		if !ok || !isInt(ld.Type()) {
			return nil
		}
		arr, pos, ok := t.elem(s, ld.X)
		if !ok || arr == nil {
			return nil
		}
		_, r, ok := t.split(s, t.whole(s, arr.Name), pos)
		if !ok {
			return nil
		}
		l, _, ok := t.split(s, r, linK(1))
		if !ok || len(l) == 0 {
			return nil
		}
		for len(l) > 1 && s.provesEq(l[0].len(), Lin{}) {
			l = l[1:]
		}
		g := l[0]
		if g.src == "'" {
			e.set(s, ld, IntV{L: g.lo})
			return nil
		}
		if g.src == "?" {
			return nil
		}
		return t.look(s, ld, g.src, g.lo)
	}
	return nil
}

// look is the rune of a text at a position, told apart from the marked ones.
func (t *texts) look(s *State, ld *ssa.UnOp, src string, pos Lin) []*State {
	todo := []*State{s}
	var out []*State
	if src == "B" {
		for mi, m := range t.mark {
			var next []*State
			for _, x := range todo {
				if x.provesEq(pos, m) {
					t.e.set(x, ld, IntV{L: linS(t.runeAt(x, src, m))})
					x.setGhost("look", fmt.Sprint(mi))
					out = append(out, x)
					continue
				}
				lo, hi := x.fork(), x.fork()
				if lo = lo.assume(BoolV{Op: '>', L: m.Sub(pos).AddK(-1)}, true); lo != nil && !infeasible(lo.cons) {
					next = append(next, lo)
				}
				if hi = hi.assume(BoolV{Op: '>', L: pos.Sub(m).AddK(-1)}, true); hi != nil && !infeasible(hi.cons) {
					next = append(next, hi)
				}
				x.addCon(pos.Sub(m))
				x.addCon(m.Sub(pos))
				if !infeasible(x.cons) {
					x.setGhost("look", fmt.Sprint(mi))
					t.e.set(x, ld, IntV{L: linS(t.runeAt(x, src, m))})
					out = append(out, x)
				}
			}
			todo = next
		}
	}
	for _, x := range todo {
		x.setGhost("look", "")
		t.e.set(x, ld, IntV{L: linS(t.runeAt(x, src, pos))})
		out = append(out, x)
	}
	return out
}

func (t *texts) runeAt(s *State, src string, pos Lin) Sym {
	n := "rune " + src + "[" + pos.Key() + "]"
	t.at[n], t.src[n] = pos, src
	y := t.e.sym(n)
	l := linS(y)
	s.addCon(l.AddK(1 << 31))
	s.addCon(l.Neg().AddK(1<<31 - 1))
	return y
}

func (t *texts) elem(s *State, addr ssa.Value) (*Obj, Lin, bool) {
	ia, ok := addr.(*ssa.IndexAddr)
	if !ok {
		return nil, Lin{}, false
	}
	i, ok := t.e.get(s, ia.Index).(IntV)
	if !ok {
		return nil, Lin{}, false
	}
	switch v := t.e.get(s, ia.X).(type) {
	case SliceV:
		return v.Arr, v.Off.Add(i.L), true
	case PtrV:
		if v.Path == "" {
			return v.Obj, i.L, true
		}
	}
	return nil, Lin{}, false
}

// norm drops empty ranges and joins neighbours.
func (t *texts) norm(s *State, c []seg) []seg {
	var out []seg
	for _, g := range c {
		if !g.open && g.src != "'" && s.provesEq(g.lo, g.hi) {
			continue
		}
		// one rune of a text
		if g.src == "'" && len(g.lo.T) == 1 && g.lo.K == 0 && g.lo.T[0].C == 1 {
			if n := t.e.name(g.lo.T[0].S); strings.HasPrefix(n, "rune ") && t.src[n] != "" {
				g = seg{src: t.src[n], lo: t.at[n], hi: t.at[n].AddK(1)}
			}
		}
		if k := len(out) - 1; k >= 0 && out[k].src == g.src && g.src != "'" && g.src != "?" && !out[k].open && s.provesEq(out[k].hi, g.lo) {
			out[k].hi, out[k].open = g.hi, g.open
			continue
		}
		out = append(out, g)
	}
	return out
}

func (t *texts) eq(s *State, a, b []seg) bool {
	a, b = t.norm(s, a), t.norm(s, b)
	if len(a) != len(b) {
		return false
	}
	for i, g := range a {
		h := b[i]
		if g.src != h.src || g.open != h.open || g.src == "?" || !s.provesEq(g.lo, h.lo) || g.src != "'" && !g.open && !s.provesEq(g.hi, h.hi) {
			return false
		}
	}
	return true
}

func (t *texts) show(c []seg) string {
	var out []string
	for _, g := range c {
		switch {
		case g.src == "?":
			out = append(out, "?")
		case g.src == "'":
			out = append(out, "'"+t.e.str(g.lo)+"'")
		case g.open:
			out = append(out, g.src+"["+t.e.str(g.lo)+":]")
		default:
			out = append(out, g.src+"["+t.e.str(g.lo)+":"+t.e.str(g.hi)+"]")
		}
	}
	if out == nil {
		return "nothing"
	}
	return strings.Join(out, " ")
}

// known lists the positions of which it is known whether a word breaks there.
func (t *texts) known(s *State) (at []Lin, brk []int) {
	var names []string
	for n := range t.at {
		if t.src[n] == "B" {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		if r := s.truth(BoolV{Op: 's', S: t.e.sym("break(" + linS(t.e.sym(n)).Key() + ")")}); r >= 0 {
			at, brk = append(at, t.at[n]), append(brk, r)
		}
	}
	for d := int64(-2); d <= 2; d++ {
		switch s.ghost["break "+linK(d).Key()] {
		case "true":
			at, brk = append(at, t.cursor.AddK(d)), append(brk, 1)
		case "false":
			at, brk = append(at, t.cursor.AddK(d)), append(brk, 0)
		}
	}
	return append(at, t.seenAt(s, 0), t.seenAt(s, 1)), append(brk, 0, 1)
}

// isBreak: is the rune at a position of the entry text known to be (not) a word break?
func (t *texts) isBreak(s *State, pos Lin) int {
	at, brk := t.known(s)
	for i, p := range at {
		if s.provesEq(p, pos) {
			return brk[i]
		}
	}
	return -1
}

// refine: a position where a word breaks is not one where none does.
func (t *texts) refine(s *State) *State {
	u := s.fork()
	at, brk := t.known(u)
	n := len(at)
	for i := 0; i < 4*n; i++ {
		i, p := i%n, at[i%n]
		for k, q := range at {
			switch {
			case brk[i] == brk[k]:
			case u.proves(p.Sub(q)):
				u.addCon(p.Sub(q).AddK(-1))
			case u.proves(q.Sub(p)):
				u.addCon(q.Sub(p).AddK(-1))
			}
		}
	}
	if infeasible(u.cons) {
		return nil
	}
	return u
}

// seen keeps the last positions that were (1) and were not (0) a word break.
func (t *texts) seen(s *State, v int, pos Lin) {
	k := t.seenCell(v)
	s.setCell(k, IntV{L: pos})
	t.e.logWrite(k)
}

func (t *texts) seenCell(v int) cellKey {
	o := t.e.obj("last position asked", types.Typ[types.Int])
	o.Single = true
	k := cellKey{o, fmt.Sprint(".break", v)}
	t.e.cellTyp[k] = types.Typ[types.Int]
	return k
}

func (t *texts) seenAt(s *State, v int) Lin {
	if i, ok := s.heap[t.seenCell(v)].(IntV); ok {
		return i.L
	}
	return linK(-9)
}

func (t *texts) assumeBreak(s *State, pos Lin, v bool) {
	y := t.runeAt(s, "B", pos)
	s.assume(BoolV{Op: 's', S: t.e.sym("break(" + linS(y).Key() + ")")}, v)
}

// wordStart: a word is known to start at pos.
func (t *texts) wordStart(s *State, pos Lin) bool {
	return t.isBreak(s, pos) == 0 && t.isBreak(s, pos.AddK(-1)) == 1
}

// breaks forks on whether a rune breaks words; the states stay apart where the rune is next to the cursor.
func (t *texts) breaks(s *State, i IntV) []callRes {
	b := BoolV{Op: 's', S: t.e.sym("break(" + i.L.Key() + ")")}
	pos, ok := t.posOf(i)
	if !ok {
		return []callRes{{s, b}}
	}
	k := ""
	for d := int64(-2); d <= 2; d++ {
		if s.provesEq(pos, t.cursor.AddK(d)) {
			k = "break " + linK(d).Key()
			if g := s.ghost[k]; g != "" {
				if s = s.assume(b, g == "true"); s == nil {
					return nil
				}
			}
		}
	}
	if !t.breakHi.IsConst() && s.proves(pos.Sub(t.breakLo)) && s.proves(t.breakHi.Sub(pos).AddK(-1)) {
		if s = s.assume(b, true); s == nil {
			return nil
		}
	}
	var out []callRes
	for v, w := range []bool{false, true} {
		if u := s.fork().assume(b, w); u != nil && !infeasible(u.cons) {
			if k != "" {
				u.setGhost(k, fmt.Sprint(w))
			}
			l, c := u.ghost["answers"], "FT"[v:v+1]
			if !strings.HasSuffix(l, c) {
				if l += c; len(l) > 3 {
					l = l[len(l)-3:]
				}
				u.setGhost("answers", l)
			}
			t.seen(u, v, pos)
			out = append(out, callRes{u, boolK(w)})
		}
	}
	return out
}

func (t *texts) posOf(i IntV) (Lin, bool) {
	if len(i.L.T) == 1 && i.L.K == 0 {
		if n := t.e.name(i.L.T[0].S); t.src[n] == "B" {
			return t.at[n], true
		}
	}
	return Lin{}, false
}
