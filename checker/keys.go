package main

// C21: the key that was read decides which edit is made.

import (
	"fmt"
	"go/types"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// keyEdits: the editing command behind each key of doc/shortcut.md.
var keyEdits = []struct {
	key  int64
	what string // method whose effect the key has; see editSpecs
}{
	{1, "MoveToLineStart"}, {5, "MoveToLineEnd"}, {2, "MoveBackward"}, {6, "MoveForward"},
	{-1, "MoveToPrevWord"}, {-2, "MoveToNextWord"}, {-3, "DeleteWord"}, {-4, "BackEscapeWord"}, {23, "BackEscapeWord"},
	{4, "Delete"}, {8, "Backspace"}, {127, "Backspace"}, {11, "Kill"}, {21, "KillFront"}, {20, "Transpose"}, {25, "Yank"},
	{7, "nothing"}, {12, "nothing"}, {16, "Prev"}, {14, "Next"}, {'x', "WriteRune"}, {' ', "WriteRune"}, {0, "WriteRune"},
}

func init() {
	checks["C21"] = func(r *Report) {
		r.Rules = append(r.Rules,
			"effect: at every exit of every exported method of the edit buffer, text, cursor and cut text are the documented function of those at entry",
			"dispatch: in normal mode, for every documented editing key and every printable key, one iteration of Operation.ioloop changes text, cursor and cut text as documented for that key",
			"escape: the rune sent for ESC sequences of arrows, Home, End, Delete and the Meta keys is the documented key",
			"word: letters and digits do not break words")
		editRun(r, "C21")
		p := load(r, "linux")
		keyRules(r, p)
		escapeRules(r, p)
		wordRule(r, p)
	}
}

func keyRules(r *Report, p *Program) {
	w := newEditModel(p)
	rb := p.namedType("RuneBuffer")
	f := p.method("Operation", "ioloop")
	if f == nil || rb == nil {
		r.errf("anchor Operation.ioloop not found")
		return
	}
	type variant struct {
		key        int64
		what, with string
	}
	vars := map[string]variant{}
	var roots []root
	for _, k := range keyEdits {
		with := plain
		if sp, ok := editSpecs[k.what]; ok {
			with = sp.variants
		}
		for _, v := range with {
			n := fmt.Sprintf("%s with key %d (%s)", fnName(f), k.key, k.what)
			if k.key == 0 {
				n = fnName(f) + " with any other printable key"
			}
			if v != "" {
				n += ", a " + v
			}
			vars[n] = variant{k.key, k.what, v}
			roots = append(roots, root{f, n})
		}
	}
	x := newEvRun(r, p, sessionSingles...)
	x.setup = func(e *Eng, rt root) {
		e.maxStates, e.maxRets = 400, 200
		va := vars[rt.name]
		t := newTexts(e)
		ed := &edit{e: e, t: t, variant: va.with, name: va.what, rb: e.objFor(rb, "")}
		cfg := e.obj("Config in force", p.namedType("Config"))
		cfg.Single = true
		var key Lin
		hist := map[string]SliceV{}
		e.cutLoop = map[*ssa.BasicBlock]string{}
		for h, l := range e.info(rt.fn).loops {
			if l.parent == nil {
				e.cutLoop[h] = fnName(rt.fn)
			}
		}
		reads := 0
		e.pre = func(e *Eng, s *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool) {
			switch {
			case isMethod(fn, "Terminal", "ReadRune"):
				if s.ghost["key"] != "" {
					return nil, true // a second key
				}
				reads++
				s.setGhost("key", fmt.Sprint(va.key))
				for _, n := range []string{"Listener", "FuncFilterInputRune"} {
					ty := fieldType(cfg.Typ, "."+n)
					if ty == nil {
						continue
					}
					k := cellKey{cfg, "." + n}
					e.cellTyp[k] = ty
					s.setCell(k, e.zero(ty))
				}
				v := IntV{L: linK(va.key)}
				if va.key == 0 {
					v, _ = e.mat(s, types.Typ[types.Rune], e.base(s, at, "rune")).(IntV)
					s.addCon(v.L.AddK(-32))
					for _, k := range []int64{127} {
						if s = s.assume(e.equalVals(s, nil, v, IntV{L: linK(k)}), false); s == nil {
							return nil, true
						}
					}
				}
				key = v.L
				ed.enter(s, []Val{nil, v})
				return one(s, v), true
			case isMethod(fn, "Operation", "GetConfig"):
				return one(s, PtrV{Obj: cfg}), true
			case isMethod(fn, "opSearch", "IsSearchMode"), isMethod(fn, "opCompleter", "IsInCompleteMode"), isMethod(fn, "opCompleter", "IsInCompleteSelectMode"), isMethod(fn, "opVim", "IsEnableVimMode"):
				return one(s, boolK(false)), true
			case isMethod(fn, "opHistory", "Prev", "Next"):
				rs := e.opaqueRes(s, at, fn, name, fn.Signature, args, nil)
				for _, c := range rs {
					v := c.v
					ok := ""
					if tu, is := v.(TupleV); is {
						v = tu[0]
						if b, is := tu[1].(BoolV); is && b.Op == 's' {
							ok = fmt.Sprint(int(b.S))
						}
					}
					if h, is := v.(SliceV); is && h.Arr != nil {
						t.put(c.st, h.Arr.Name, []seg{{src: "H", hi: h.Len}, t.unknown(Lin{}, true)})
						hist[fn.Name()+h.Arr.Name] = h
						c.st.setGhost("recalled", fn.Name()+h.Arr.Name)
						c.st.setGhost("recalled ok", ok)
					}
				}
				return rs, true
			case recvNameOf(fn) == "RuneBuffer" || w.writes[fn] || fn != nil && fn.Parent() != nil:
			case fn != nil && p.inModule(fn) && fn.Blocks != nil && fn.Signature.Results().Len() > 0 && !pureSmall(fn, 0) && contains(sessionSingles, recvName(fn)):
				return e.opaqueRes(s, at, fn, name, fn.Signature, args, nil), true
			}
			return w.pre(t, s, at, fn, args)
		}
		e.hook = func(e *Eng, s *State, ev *Event) []*State { return w.hook(t, s, ev) }
		e.rootExit = func(s *State) {
			if e.dry > 0 || s.ghost["key"] == "" {
				return
			}
			at := lastInstr(rt.fn)
			y := ed.leave(s, at)
			if y == nil {
				return
			}
			y.name = "key " + keyName(va.key)
			y.args = []Val{nil, IntV{L: key}}
			x.met("keys handled")
			y.when(func(y *edit) {
				switch va.what {
				case "nothing":
					y.nothing()
				case "Prev", "Next":
					y.killIs(y.K())
					h, ok := hist[y.s.ghost["recalled"]]
					y.rule("dispatch", va.what, "does not ask the history for the "+map[string]string{"Prev": "previous", "Next": "next"}[va.what]+" line", ok && strings.HasPrefix(y.s.ghost["recalled"], va.what))
					if !ok {
						return
					}
					found := BoolV{Op: 's', S: h.Nil, Neg: true}
					if g := y.s.ghost["recalled ok"]; g != "" {
						n := 0
						fmt.Sscan(g, &n)
						found = BoolV{Op: 's', S: Sym(n)}
					} else if h.Nil == 0 {
						found = boolK(true)
					}
					for _, u := range truthForks(y.s, found) {
						z := *y
						z.s = u
						if u.truth(found) == 1 {
							z.text([]seg{{src: "H", hi: h.Len}})
							z.cursor(h.Len)
						} else {
							z.nothing()
						}
					}
				default:
					if sp, ok := editSpecs[va.what]; ok {
						sp.check(y)
					}
				}
			}, keyNeeds(va.what, ed)...)
		}
	}
	x.run(roots...)
	r.floor("keys handled", 20)
}

// keyNeeds: Ctrl-D on an empty text ends the input (C04).
func keyNeeds(what string, x *edit) []Lin {
	if what == "Delete" {
		return []Lin{x.n.AddK(-1)}
	}
	return nil
}

func recvNameOf(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	return recvName(fn)
}

func keyName(k int64) string {
	switch {
	case k == 0:
		return "of any other printable character"
	case k < 0:
		return fmt.Sprintf("Meta%d", k)
	case k < 32:
		return "Ctrl-" + string(rune('A'+k-1))
	case k == 127:
		return "Backspace"
	}
	return fmt.Sprintf("%q", rune(k))
}

// escapeScripts: the input of a key and the rune that stands for it.
var escapeScripts = []struct {
	in   []int64
	want int64
}{
	{[]int64{'x'}, 'x'}, {[]int64{1}, 1}, {[]int64{127}, 127}, {[]int64{9}, 9}, {[]int64{0x4e16}, 0x4e16},
	{[]int64{27, 'b'}, -1}, {[]int64{27, 'f'}, -2}, {[]int64{27, 'd'}, -3}, {[]int64{27, 127}, -4}, {[]int64{27, 20}, -5},
	{[]int64{27, '[', 'A'}, 16}, {[]int64{27, '[', 'B'}, 14}, {[]int64{27, '[', 'C'}, 6}, {[]int64{27, '[', 'D'}, 2}, {[]int64{27, '[', 'H'}, 1}, {[]int64{27, '[', 'F'}, 5},
	{[]int64{27, 'O', 'A'}, 16}, {[]int64{27, 'O', 'B'}, 14}, {[]int64{27, 'O', 'C'}, 6}, {[]int64{27, 'O', 'D'}, 2}, {[]int64{27, 'O', 'H'}, 1}, {[]int64{27, 'O', 'F'}, 5},
	{[]int64{27, '[', '3', '~'}, 4},
}

// escapeRules: Terminal.ioloop sends the documented rune for the input of each key.
func escapeRules(r *Report, p *Program) {
	f := p.method("Terminal", "ioloop")
	if f == nil {
		r.errf("anchor Terminal.ioloop not found")
		return
	}
	var roots []root
	num := map[string]int{}
	show := func(in []int64) string {
		var out []string
		for _, k := range in {
			if k == 27 {
				out = append(out, "ESC")
			} else {
				out = append(out, fmt.Sprintf("%q", rune(k)))
			}
		}
		return strings.Join(out, " ")
	}
	for i, sc := range escapeScripts {
		n := fnName(f) + " on " + show(sc.in)
		num[n] = i
		roots = append(roots, root{f, n})
	}
	readers := p.staticReach(func(fn *ssa.Function) bool {
		return hasCall(fn, func(c *ssa.CallCommon) bool { return calleeName(c) == "(*bufio.Reader).ReadRune" })
	})
	x := newEvRun(r, p, sessionSingles...)
	x.setup = func(e *Eng, rt root) {
		e.maxStates, e.maxRets = 200, 200
		sc := escapeScripts[num[rt.name]]
		input := append(append([]int64{}, sc.in...), 'A') // and then a key of its own
		e.unroll = map[*ssa.BasicBlock]int{}
		for g := range readers {
			for h := range e.info(g).loops {
				e.unroll[h] = len(input) + 2
			}
		}
		e.unrolled = func(s *State) {
			if s.ghost["over"] == "" {
				e.rule(s, rt.fn.Blocks[0].Instrs[0], "escape", show(sc.in), "the input "+show(sc.in)+" is not consumed one rune at a time", false)
			}
		}
		literal := true // what is read between ESC [ and ~ is known
		for _, k := range sc.in {
			literal = literal && k != '~'
		}
		next := func(s *State) int {
			n := 0
			fmt.Sscan(s.ghost["read"], &n)
			return n
		}
		e.pre = func(e *Eng, s *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool) {
			switch name {
			case "(*bufio.Reader).ReadRune":
				n := next(s)
				rs := e.opaqueRes(s, at, fn, name, fn.Signature, args, nil)
				var out []callRes
				for _, c := range rs {
					tu, ok := c.v.(TupleV)
					if !ok || len(tu) != 3 {
						return rs, true
					}
					u := c.st.assume(e.nilTest(c.st, tu[2], nil), n < len(input))
					if u == nil || infeasible(u.cons) {
						continue
					}
					if n < len(input) {
						u.setGhost("read", fmt.Sprint(n+1))
						out = append(out, callRes{u, TupleV{IntV{L: linK(input[n])}, tu[1], tu[2]}})
						continue
					}
					e.rule(u, at, "escape", show(sc.in), "the input "+show(sc.in)+" or the key after it is swallowed", len(u.ghost["sent"]) == 2 || !literal || u.ghost["over"] != "")
					u.setGhost("over", "1")
					out = append(out, callRes{u, tu})
				}
				return out, true
			case "unicode.IsNumber", "unicode.IsDigit":
				if i, ok := args[0].(IntV); ok && i.L.IsConst() {
					return one(s, boolK(unicode.IsNumber(rune(i.L.K)))), true
				}
			case "(*bytes.Buffer).WriteRune", "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteRune", "(*strings.Builder).WriteByte":
				if i, ok := args[1].(IntV); ok && i.L.IsConst() {
					s.setGhost("attr", s.ghost["attr"]+string(rune(i.L.K)))
				}
			case "(*bytes.Buffer).String", "(*strings.Builder).String":
				a := s.ghost["attr"]
				return one(s, StrV{Lit: &a}), true
			}
			return nil, false
		}
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			switch {
			case ev.Kind == "load" && strings.HasSuffix(ev.Cell.path, ".VimMode"):
				if b, ok := ev.Val.(BoolV); ok {
					if u := s.assume(b, false); u != nil {
						return []*State{u}
					}
				}
			case ev.Kind == "send" && isChan(ev, "outchan"):
				if s.ghost["over"] != "" {
					return nil
				}
				x.met("keys sent")
				i, ok := ev.Val.(IntV)
				got := "?"
				if ok {
					got = e.str(i.L)
				}
				want, from, at := sc.want, show(sc.in), len(sc.in)
				if s.ghost["sent"] != "" {
					want, from, at = 'A', "'A' after "+show(sc.in), len(input)
				}
				e.rule(s, ev.At, "escape", from, fmt.Sprintf("the input %s is delivered as %s, expected %d", from, got, want),
					ok && s.provesEq(i.L, linK(want)) && next(s) == at && len(s.ghost["sent"]) < 2)
				s.setGhost("sent", s.ghost["sent"]+"k")
				if e.dry == 0 && len(s.ghost["sent"]) == 2 {
					x.met("delivered " + show(sc.in))
				}
			}
			return nil
		}
	}
	x.run(roots...)
	for _, sc := range escapeScripts {
		r.floor("delivered "+show(sc.in), 1)
	}
}

// wordRule: letters and digits do not break words, blanks and punctuation do.
func wordRule(r *Report, p *Program) {
	f := p.fn("IsWordBreak")
	if f == nil {
		r.errf("anchor IsWordBreak not found")
		return
	}
	ranges := []struct {
		lo, hi int64
		brk    bool
	}{{'a', 'z', false}, {'A', 'Z', false}, {'0', '9', false}, {0, '0' - 1, true}, {'9' + 1, 'A' - 1, true}, {'Z' + 1, 'a' - 1, true}, {'z' + 1, 127, true}}
	var roots []root
	num := map[string]int{}
	for i, g := range ranges {
		n := fmt.Sprintf("%s for %q to %q", fnName(f), rune(g.lo), rune(g.hi))
		num[n] = i
		roots = append(roots, root{f, n})
	}
	x := newEvRun(r, p)
	x.setup = func(e *Eng, rt root) {
		g := ranges[num[rt.name]]
		e.argPre = func(e *Eng, s *State, fn *ssa.Function, args []Val) {
			if i, ok := args[0].(IntV); ok {
				s.addCon(i.L.AddK(-g.lo))
				s.addCon(i.L.Neg().AddK(g.hi))
			}
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			b, ok := v.(BoolV)
			w := 0
			if g.brk {
				w = 1
			}
			x.met("word break results")
			e.rule(s, at, "word", rt.name, fmt.Sprintf("IsWordBreak is not %v for %q to %q", g.brk, rune(g.lo), rune(g.hi)), ok && s.truth(b) == w)
		}
	}
	x.run(roots...)
	r.floor("word break results", 7)
}
