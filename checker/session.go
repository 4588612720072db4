package main

// Rules about one key press in Operation.ioloop and about the terminal goroutine:
// C03 (input is resumed), C04 (what a read returns), C12 (lines are recorded first).

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// staticReach: the functions of the module from which, through static calls, calls
// of closures and method values made on the way, a function in want is reached.
func (p *Program) staticReach(want func(fn *ssa.Function) bool) map[*ssa.Function]bool {
	rev := map[*ssa.Function][]*ssa.Function{}
	out := map[*ssa.Function]bool{}
	var todo []*ssa.Function
	for _, f := range p.Funcs {
		if want(f) {
			out[f] = true
			todo = append(todo, f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [12]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if g, ok := (*op).(*ssa.Function); ok {
						rev[g] = append(rev[g], f)
						if g.Synthetic != "" && g.Object() != nil {
							if m, ok := g.Object().(*types.Func); ok {
								if d := p.Prog.FuncValue(m); d != nil {
									rev[d] = append(rev[d], f)
								}
							}
						}
					}
				}
			}
		}
	}
	for len(todo) > 0 {
		f := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, c := range rev[f] {
			if !out[c] {
				out[c] = true
				todo = append(todo, c)
			}
		}
	}
	return out
}

// touches: fn itself sends, receives, closes or selects on a field of one of the types.
func chanOpOn(fn *ssa.Function, fields ...string) bool {
	is := func(v ssa.Value) bool {
		if u, ok := v.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				ow, n := fieldOf(fa.X.Type(), fa.Field)
				for _, f := range fields {
					if f == ow+"."+n {
						return true
					}
				}
			}
		}
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Send:
				if is(in.Chan) {
					return true
				}
			case *ssa.UnOp:
				if is(in.X) {
					return true
				}
			case *ssa.Select:
				for _, s := range in.States {
					if is(s.Chan) {
						return true
					}
				}
			}
		}
	}
	return false
}

func isMethod(fn *ssa.Function, typ string, names ...string) bool {
	if fn == nil || recvName(fn) != typ {
		return false
	}
	if len(names) == 0 {
		return true
	}
	for _, n := range names {
		if fn.Name() == n {
			return true
		}
	}
	return false
}

// forget makes every field of the session unknown again: what a method that is
// not interpreted may have changed.
func (e *Eng) forgetSession(st *State, at ssa.Instruction) {
	seen := map[*Obj]bool{}
	var os []*Obj
	for k := range st.heap {
		if k.o.Typ != nil && !k.o.Arr && e.single[typeName(k.o.Typ)] && !seen[k.o] {
			seen[k.o] = true
			os = append(os, k.o)
		}
	}
	sort.Slice(os, func(i, j int) bool { return os[i].Name < os[j].Name })
	for _, o := range os {
		e.havocObj(st, o, at)
	}
}

// keyRun prepares a run of Operation.ioloop: one iteration for an arbitrary state
// of the session, the methods of its parts that cannot deliver a result or touch
// the terminal's input are not entered.
type keyRun struct {
	*evRun
	keep map[*ssa.Function]bool
}

func newKeyRun(r *Report, p *Program) *keyRun {
	k := &keyRun{evRun: newEvRun(r, p, sessionSingles...)}
	k.keep = p.staticReach(func(f *ssa.Function) bool {
		return isMethod(f, "Terminal", "ReadRune", "KickRead") || isMethod(f, "opHistory", "New", "Update", "Revert") ||
			chanOpOn(f, "Operation.outchan", "Operation.errchan", "Operation.eofChan", "Terminal.kickChan", "Terminal.outchan")
	})
	return k
}

// isField: the channel or cell name is field path of an object of type typ.
func (e *Eng) isField(v Val, typ, field string) bool {
	p, ok := v.(PtrV)
	if !ok || p.Obj == nil {
		return false
	}
	return strings.HasSuffix(p.Obj.Name, typ+"."+field) || strings.Contains(p.Obj.Name, "."+field)
}

// skip interprets a call that cannot touch what the rules are about.
func (k *keyRun) skip(e *Eng, s *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool) {
	if fn == nil || !e.p.inModule(fn) || fn.Blocks == nil || k.keep[fn] || fn.Parent() != nil {
		return nil, false
	}
	if dispatcher(fn) || pureSmall(fn, 0) {
		return nil, false
	}
	if fn.Signature.Recv() == nil && len(fn.Blocks) <= 12 && leafFn(fn) {
		return nil, false // a small helper, cheap to follow
	}
	rs := e.opaqueRes(s, at, fn, name, fn.Signature, args, nil)
	for _, r := range rs {
		e.forgetSession(r.st, at)
	}
	return rs, true
}

// dispatcher: a method that decides by a key what happens next.
func dispatcher(fn *ssa.Function) bool {
	sig := fn.Signature
	if sig.Recv() == nil || sig.Results().Len() == 0 || recvName(fn) == "RuneBuffer" || recvName(fn) == "Terminal" {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if types.Identical(sig.Params().At(i).Type(), types.Typ[types.Rune]) {
			return true
		}
	}
	return false
}

// pureSmall: a small function that only reads, with what it calls.
func pureSmall(fn *ssa.Function, depth int) bool {
	if depth > 4 || fn.Blocks == nil || len(fn.Blocks) > 12 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store, *ssa.Send, *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.Alloc, *ssa.MakeClosure:
				return false
			case *ssa.Call:
				f := in.Call.StaticCallee()
				if f == nil || !pureSmall(f, depth+1) {
					return false
				}
			}
		}
	}
	return true
}

func leafFn(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(ssa.CallInstruction); ok {
				return false
			}
		}
	}
	return true
}

// pausedKeys: the keys after which Terminal.ioloop waits to be kicked.
func pausedKeys(r *Report, p *Program) (keys []int64, ok bool) {
	x := newEvRun(r, p, "Terminal", "Config")
	f := p.method("Terminal", "ioloop")
	if f == nil {
		r.errf("anchor Terminal.ioloop not found")
		return nil, false
	}
	cand := keyConsts(p)
	found := map[int64]bool{}
	ok = true
	x.setup = func(e *Eng, rt root) {
		e.maxStates, e.maxRets = 200, 60
		keep := p.staticReach(func(f *ssa.Function) bool {
			return chanOpOn(f, "Terminal.outchan", "Terminal.kickChan", "Terminal.stopChan")
		})
		e.pre = func(e *Eng, s *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool) {
			if fn == nil || !p.inModule(fn) || fn.Blocks == nil || keep[fn] || fn.Parent() != nil {
				return nil, false
			}
			return e.opaqueRes(s, at, fn, name, fn.Signature, args, nil), true
		}
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			switch ev.Kind {
			case "send":
				if !isChan(ev, "outchan") {
					return nil
				}
				x.met("deliveries")
				v, isInt := ev.Val.(IntV)
				if !isInt {
					return nil
				}
				set := ""
				for _, c := range cand {
					if e.canBe(s, v, c) {
						set += fmt.Sprint(c, " ")
					}
				}
				e.rule(s, ev.At, "NUL", "delivered rune", "the terminal delivers the rune 0, which stands for the end of the input", !strings.Contains(" "+set, " 0 "))
				s.setGhost("sent", set)
			case "recv":
				if isChan(ev, "kickChan") {
					x.met("waits")
					if g, was := s.ghost["sent"], s.ghost["kicked"]; was != "" {
						e.rule(s, ev.At, "pause", "Terminal.kickChan", "the terminal stops reading although it delivered no key, nobody will kick it", g != "")
						for _, w := range strings.Fields(g) {
							if e.dry > 0 {
								break
							}
							var n int64
							fmt.Sscan(w, &n)
							x.mu.Lock()
							found[n] = true
							x.mu.Unlock()
						}
					}
					s.setGhost("kicked", "1")
					s.setGhost("sent", "")
				}
			case "call":
				if strings.HasSuffix(ev.Name, "bufio.Reader).ReadRune") {
					x.met("runes read")
					s.setGhost("sent", "")
				}
			}
			return nil
		}
	}
	x.run(root{f, fnName(f)})
	r.floor("deliveries", 1)
	r.floor("waits", 2)
	for k := range found {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	return keys, ok
}

// canBe: v may be c in st.
func (e *Eng) canBe(st *State, v Val, c int64) bool {
	i, ok := v.(IntV)
	if !ok {
		return true
	}
	if st.truth(e.equalVals(st, nil, v, IntV{L: linK(c)})) == 0 {
		return false
	}
	t := st.fork()
	t.addCon(i.L.AddK(-c))
	t.addCon(linK(c).Sub(i.L))
	return !infeasible(t.cons)
}

func isChan(ev *Event, field string) bool {
	return strings.HasSuffix(ev.Name, "."+field) || strings.Contains(ev.Name, "."+field+"@") || strings.Contains(ev.Name, "."+field+" ")
}

// keyConsts: every key constant of the package, all control characters and some letters.
func keyConsts(p *Program) []int64 {
	m := map[int64]bool{'x': true, 0x4e16: true}
	for i := int64(0); i < 128; i++ {
		m[i] = true
	}
	for _, n := range p.Main.Pkg.Scope().Names() {
		c, ok := p.Main.Pkg.Scope().Lookup(n).(*types.Const)
		if !ok || !(strings.HasPrefix(n, "Char") || strings.HasPrefix(n, "Meta")) {
			continue
		}
		var k int64
		if _, err := fmt.Sscan(c.Val().ExactString(), &k); err == nil {
			m[k] = true
		}
	}
	var out []int64
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func init() {
	checks["C03"] = checkC03
	checks["C04"] = checkC04
	checks["C12"] = checkC12
}

// iteration interprets Operation.ioloop.  reads gives the states after one key was
// read, mode fixes the answers of the mode queries.
func (k *keyRun) prepare(e *Eng, reads func(s *State, at ssa.Instruction) []callRes, normal bool) {
	e.maxStates, e.maxRets = 1000, 1000
	cfgT := k.p.namedType("Config")
	cfgO := e.obj("Config in force", cfgT)
	cfgO.Single = true
	e.pre = func(e *Eng, s *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool) {
		if isMethod(fn, "Terminal", "ReadRune") {
			return reads(s, at), true
		}
		if isMethod(fn, "Operation", "GetConfig") {
			return one(s, PtrV{Obj: cfgO}), true
		}
		if isMethod(fn, "Terminal", "KickRead") || isMethod(fn, "opHistory", "New", "Update", "Revert") {
			return e.opaqueRes(s, at, fn, name, fn.Signature, args, nil), true
		}
		if fn == nil && strings.HasSuffix(name, "FuncFilterInputRune") {
			// the rune 0 stands for the end of the input
			var out []callRes
			for _, c := range e.opaqueRes(s, at, nil, name, at.(ssa.CallInstruction).Common().Signature(), args, nil) {
				t, _ := c.v.(TupleV)
				if st := c.st.assume(e.equalVals(c.st, nil, t[0], IntV{L: linK(0)}), false); st != nil {
					out = append(out, callRes{st, t})
				}
			}
			return out, true
		}
		if normal && fn != nil {
			switch {
			case isMethod(fn, "opSearch", "IsSearchMode"), isMethod(fn, "opCompleter", "IsInCompleteMode"), isMethod(fn, "opCompleter", "IsInCompleteSelectMode"), isMethod(fn, "opVim", "IsEnableVimMode"):
				return one(s, boolK(false)), true
			}
		}
		return k.skip(e, s, at, name, fn, args)
	}
}

func (k *keyRun) root(r *Report) []root {
	f := k.p.method("Operation", "ioloop")
	if f == nil {
		r.errf("anchor Operation.ioloop not found")
		return nil
	}
	return []root{{f, fnName(f)}}
}

// otherRune is a rune that is none of ks.
func (e *Eng) otherRune(s *State, at ssa.Instruction, ks []int64) (*State, Val) {
	v := e.mat(s, types.Typ[types.Rune], e.base(s, at, "rune"))
	for _, k := range append([]int64{0}, ks...) {
		if s = s.assume(e.equalVals(s, nil, v, IntV{L: linK(k)}), false); s == nil {
			return nil, nil
		}
	}
	return s, v
}

func checkC03(r *Report) {
	r.Rules = append(r.Rules,
		"the set P of keys after which the terminal goroutine waits to be kicked is computed: for each rune constant, whether a path leads from its delivery to the wait on kickChan without another read",
		"the terminal goroutine waits to be kicked only after it delivered a key since the last kick, and it never delivers the rune 0",
		"on every path through Operation.ioloop from a ReadRune that returned a key of P to the next ReadRune (also the nested reads of vi commands) the terminal is kicked or a result is delivered",
		"Operation.ioloop returns only after ReadRune reported the end of the input",
		"Operation.Runes kicks the terminal before it waits; KickRead is a non-blocking send on a channel with room for one kick")
	r.Assumes = append(r.Assumes, "the configuration is not replaced while a key is being handled", "callbacks of the application return")
	oses := []string{"linux"}
	if r.Tier == "thorough" {
		oses = append(oses, "windows", "darwin")
	}
	for _, goos := range oses {
		p := load(r, goos)
		keys, ok := pausedKeys(r, p)
		if !ok {
			return
		}
		r.count("keys that pause the terminal", len(keys))
		r.sample("keys that pause the terminal: %v", keys)
		for _, need := range []int64{10, 13} {
			has := false
			for _, k := range keys {
				has = has || k == need
			}
			if !has {
				r.sample("key %d does not pause the terminal", need)
			}
		}
		k := newKeyRun(r, p)
		k.setup = func(e *Eng, rt root) {
			_, variant, _ := strings.Cut(rt.name, " with key ")
			k.prepare(e, func(s *State, at ssa.Instruction) []callRes {
				if s.ghost["pend"] != "" && s.ghost["pend"] != "eof" {
					e.rule(s, at, "resume", "ReadRune", "the next key is read although the terminal still waits to be kicked after key "+s.ghost["pend"]+": the session hangs", false)
				} else {
					e.rule(s, at, "resume", "ReadRune", "", true)
				}
				var out []callRes
				t := s.fork()
				if variant == "eof" {
					t.setGhost("pend", "eof")
					out = append(out, callRes{t, IntV{L: linK(0)}})
				} else {
					var key int64
					fmt.Sscan(variant, &key)
					t.setGhost("pend", variant)
					out = append(out, callRes{t, IntV{L: linK(key)}})
				}
				t = s.fork()
				t.setGhost("pend", "")
				if t, v := e.otherRune(t, at, keys); t != nil {
					out = append(out, callRes{t, v})
				}
				return out
			}, false)
			e.hook = func(e *Eng, s *State, ev *Event) []*State {
				switch {
				case ev.Kind == "recv" && isChan(ev, "stopChan"):
					s.setGhost("closed", "1") // the user closed the Terminal
				case ev.Kind == "ret" && isMethod(ev.Fn, "Terminal", "KickRead"):
					k.met("kicks")
					if s.ghost["pend"] != "eof" {
						s.setGhost("pend", "")
					}
				case ev.Kind == "send" && (isChan(ev, "outchan") || isChan(ev, "errchan")):
					k.met("results delivered")
					if s.ghost["pend"] != "eof" {
						s.setGhost("pend", "")
					}
				}
				return nil
			}
			e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
				k.met("ends of the session")
				e.rule(s, at, "end", "return", "the session ends although the input did not", s.ghost["pend"] == "eof" || s.ghost["closed"] != "")
			}
		}
		var roots []root
		for _, rt := range k.root(r) {
			for _, key := range keys {
				roots = append(roots, root{rt.fn, fmt.Sprintf("%s with key %d", rt.name, key)})
			}
			roots = append(roots, root{rt.fn, rt.name + " with key eof"})
		}
		k.run(roots...)
		r.floor("kicks", 3)
		r.floor("results delivered", 3)
		r.floor("ends of the session", 1)
		kickRules(r, p)
	}
}

// kickRules: Runes kicks before waiting, KickRead never blocks and never loses a kick.
func kickRules(r *Report, p *Program) {
	x := newEvRun(r, p, sessionSingles...)
	kr := &keyRun{evRun: x, keep: p.staticReach(func(f *ssa.Function) bool {
		return chanOpOn(f, "Operation.outchan", "Operation.errchan", "Operation.eofChan", "Terminal.kickChan")
	})}
	x.setup = func(e *Eng, rt root) {
		e.maxStates = 60
		e.pre = func(e *Eng, s *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool) {
			return kr.skip(e, s, at, name, fn, args)
		}
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			kick := func() {
				x.met("kick sends")
				s.setGhost("kicked", "1")
				sel, ok := ev.At.(*ssa.Select)
				e.rule(s, ev.At, "kick", "Terminal.kickChan", "a kick may block its sender", ok && !sel.Blocking)
			}
			switch {
			case ev.Kind == "send" && isChan(ev, "kickChan"):
				kick()
			case ev.Kind == "select" && strings.Contains(ev.Name, "kickChan"):
				s.setGhost("kicked", "1") // a kick is pending already
			case ev.Kind == "recv" && (isChan(ev, "outchan") || isChan(ev, "errchan")) && recvName(rt.fn) == "Operation":
				x.met("waits for a result")
				e.rule(s, ev.At, "kick", "Operation.Runes", "a read waits for its result without having resumed the input", s.ghost["kicked"] != "")
			}
			return nil
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			if fn.Name() == "KickRead" {
				e.rule(s, at, "kick", "KickRead", "KickRead returns without having kicked the terminal", s.ghost["kicked"] != "")
			}
		}
	}
	x.run(append(x.methods("Operation", "Runes"), x.methods("Terminal", "KickRead")...)...)
	r.floor("kick sends", 1)
	r.floor("waits for a result", 2)
	n := 0
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if ow, fld := fieldOf(fa.X.Type(), fa.Field); ow == "Terminal" && fld == "kickChan" {
					n++
					r.Obligations++
					mc, ok := st.Val.(*ssa.MakeChan)
					if ok {
						c, isC := mc.Size.(*ssa.Const)
						ok = isC
						if isC {
							size, known := constInt(c)
							ok = known && size >= 1
						}
					}
					if ok {
						r.Discharged++
						continue
					}
					r.add("kick", fnName(f), "Terminal.kickChan", p.instrPos(in), "the kick channel has no room for a kick sent before the terminal waits: the kick is lost", nil)
				}
			}
		}
	}
	r.count("kick channels made", n)
	r.floor("kick channels made", 1)
}

// C04 ------------------------------------------------------------------------

// pureBuf: methods of the edit buffer that leave its text alone.
var pureBuf = map[string]bool{"Len": true, "Pos": true, "Runes": true, "RuneSlice": true, "Refresh": true, "Clean": true, "MoveToLineEnd": true, "MoveToLineStart": true,
	"MoveForward": true, "MoveBackward": true, "MoveToNextWord": true, "MoveToPrevWord": true, "MoveToEndWord": true, "IsCursorInEnd": true, "PromptLen": true, "Prompt": true,
	"CurrentWidth": true, "LineCount": true, "IdxLine": true, "CursorLineCount": true, "SetStyle": true, "SetMask": true, "SetPrompt": true, "OnWidthChange": true, "SetOffset": true, "MoveTo": true}

func sliceID(v Val) string {
	if s, ok := v.(SliceV); ok && s.Arr != nil {
		return s.Arr.Name
	}
	return ""
}

func checkC04(r *Report) {
	r.Rules = append(r.Rules,
		"outside search and menu, filter and vi mode, from one ReadRune to the next: Enter and Ctrl-J deliver exactly one line; Ctrl-C exactly one *InterruptError; Ctrl-D one io.EOF iff the text is empty and nothing otherwise; any other key delivers nothing; the loop ends only with io.EOF delivered",
		"the line delivered is the result of Reset without exactly the runes that were appended at the end since the key was read, no other method that changes the text was called in between",
		"in every mode only io.EOF and *InterruptError go to errchan, and nothing is delivered twice for one key",
		"Runes returns the received line with nil, the line of an *InterruptError with ErrInterrupt, and any other received error with nil; String, Slice, Readline, ReadlineWithDefault, ReadSlice return what Runes returned, converted")
	r.Assumes = append(r.Assumes, "the configuration is not replaced while a key is being handled", "Reset returns the whole text and empties the buffer, WriteRune and WriteString insert at the cursor, MoveToLineEnd moves the cursor to the end (C21, C22)", "the runes of a string are those of its parts")
	p := load(r, "linux")
	k := newKeyRun(r, p)
	k.setup = func(e *Eng, rt root) {
		sufs := map[string]Lin{}
		_, variant, _ := strings.Cut(rt.name, " with key ")
		normal := variant != "any"
		var key int64
		if normal {
			fmt.Sscan(variant, &key)
		}
		boundary := func(s *State, at ssa.Instruction) {
			if s.ghost["read"] == "" || !normal || s.ghost["closed"] != "" {
				return
			}
			del := s.ghost["out"]
			empty := map[string]int{"": -1, "0": 1, "+": 0}[s.ghost["len"]]
			switch {
			case key == 10 || key == 13:
				e.rule(s, at, "enter", variant, "Enter does not deliver exactly one line", del == "line")
			case key == 3:
				e.rule(s, at, "interrupt", variant, "Ctrl-C does not deliver exactly one interrupt", del == "interrupt")
			case key == 4:
				switch del {
				case "eof":
					e.rule(s, at, "ctrl-d", "empty", "Ctrl-D ends the read although the line may not be empty", empty == 1)
				case "":
					e.rule(s, at, "ctrl-d", "not empty", "Ctrl-D on an empty line does not end the read", empty == 0)
				default:
					e.rule(s, at, "ctrl-d", del, "Ctrl-D delivers something else than io.EOF", false)
				}
			case key == 0:
				switch del {
				case "line":
					e.rule(s, at, "end of input", "rest", "the rest of the input is delivered although there is none", empty == 0)
				default:
					e.rule(s, at, "end of input", "empty", "at the end of the input neither the rest of the line nor io.EOF is delivered", del == "eof" && empty == 1)
				}
			default:
				e.rule(s, at, "other key", variant, "a key that does not end the read delivers a result", del == "")
			}
		}
		k.prepare(e, func(s *State, at ssa.Instruction) []callRes {
			boundary(s, at)
			for g := range s.ghost {
				_ = g
			}
			s.ghost, s.ghostO = map[string]string{}, true
			s.setGhost("read", "1")
			if !normal {
				return []callRes{{s, e.mat(s, types.Typ[types.Rune], e.base(s, at, "rune"))}}
			}
			if key == 'x' {
				t, v := e.otherRune(s, at, []int64{3, 4, 10, 13})
				if t == nil {
					return nil
				}
				return []callRes{{t, v}}
			}
			return []callRes{{s, IntV{L: linK(key)}}}
		}, normal)
		if key == 'x' || !normal {
			e.maxStates, e.maxRets = 10, 10
		}
		if normal {
			f := e.obj("Config in force", p.namedType("Config"))
			inner := e.pre
			e.pre = func(e *Eng, s *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool) {
				if fn == nil && strings.HasSuffix(name, "FuncFilterInputRune") {
					return nil, true // no filter
				}
				return inner(e, s, at, name, fn, args)
			}
			e.argPre = func(e *Eng, s *State, fn *ssa.Function, args []Val) {
				v := e.peek(s, f, ".FuncFilterInputRune")
				if v != nil {
					s.assume(e.nilTest(s, v, nil), true)
				}
			}
		}
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			switch {
			case ev.Kind == "recv" && isChan(ev, "stopChan"):
				s.setGhost("closed", "1") // the user closed the Terminal
			case ev.Kind == "call" && isMethod(ev.Fn, "RuneBuffer"):
				n := ev.Fn.Name()
				switch {
				case n == "MoveToLineEnd":
					s.setGhost("end", "1")
				case n == "WriteRune" || n == "WriteString" || n == "WriteRunes":
					if s.ghost["end"] == "" || s.ghost["res"] != "" {
						s.setGhost("txt", "changed by "+n)
						break
					}
					l := linK(1)
					if n != "WriteRune" {
						switch a := ev.Args[1].(type) {
						case StrV:
							l = e.runeLen(s, a)
						case SliceV:
							l = a.Len
						}
					}
					if old, ok := sufs[s.ghost["suf"]]; ok && s.ghost["suf"] != "" {
						l = l.Add(old)
					}
					id := e.str(l)
					k.mu.Lock()
					sufs[id] = l
					k.mu.Unlock()
					s.setGhost("suf", id)
				case n == "Reset":
				case pureBuf[n]:
					if strings.HasPrefix(n, "Move") {
						s.setGhost("end", "")
					}
				default:
					if s.ghost["res"] == "" {
						s.setGhost("txt", "changed by "+n)
					}
				}
			case ev.Kind == "ret" && isMethod(ev.Fn, "RuneBuffer", "Len"):
				v, ok := ev.Val.(IntV)
				if !ok || s.ghost["suf"] != "" || s.ghost["txt"] != "" || s.ghost["res"] != "" {
					return nil
				}
				var out []*State
				for _, g := range []string{"0", "+"} {
					if old := s.ghost["len"]; old != "" && old != g {
						continue // the text did not change in between
					}
					t := s.fork()
					t.setGhost("len", g)
					ok := t.addCon(v.L.AddK(-1))
					if g == "0" {
						t = s.fork()
						t.setGhost("len", g)
						ok = t.addEq(v.L, linK(0))
					}
					if ok {
						out = append(out, t)
					}
				}
				return out
			case ev.Kind == "ret" && isMethod(ev.Fn, "RuneBuffer", "Reset"):
				if s.ghost["res"] == "" {
					s.setGhost("res", sliceID(ev.Val))
					if sv, ok := ev.Val.(SliceV); ok {
						id := e.str(sv.Len)
						k.mu.Lock()
						sufs[id] = sv.Len
						k.mu.Unlock()
						s.setGhost("reslen", id)
					}
				} else {
					s.setGhost("res", "twice")
				}
			case ev.Kind == "send" && isChan(ev, "outchan"):
				k.met("lines delivered")
				e.rule(s, ev.At, "once", "outchan", "a second result is delivered for one key", s.ghost["out"] == "")
				s.setGhost("out", "line")
				if normal {
					e.rule(s, ev.At, "text", "line", "the line delivered is not exactly the text that was edited", e.exactText(k, sufs, s, ev.Val))
				}
			case ev.Kind == "send" && isChan(ev, "errchan"):
				k.met("errors delivered")
				e.rule(s, ev.At, "once", "errchan", "a second result is delivered for one key", s.ghost["out"] == "")
				switch {
				case isEOF(ev.Val):
					s.setGhost("out", "eof")
				case e.isInterrupt(ev.Val):
					s.setGhost("out", "interrupt")
					if normal {
						o, _ := dynObj(ev.Val)
						e.rule(s, ev.At, "text", "interrupt", "the text that goes with an interrupt is not exactly what was typed", e.exactText(k, sufs, s, e.peek(s, o, ".Line")))
					}
				default:
					e.rule(s, ev.At, "error", "errchan", "a read ends with something else than io.EOF or an interrupt", false)
				}
			}
			return nil
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			boundary(s, at)
			if normal {
				e.rule(s, at, "end of input", "return", "the session ends without io.EOF", s.ghost["out"] == "eof" || s.ghost["closed"] != "")
			}
		}
	}
	var roots []root
	for _, rt := range k.root(r) {
		for _, key := range []string{"0", "3", "4", "10", "13", "120", "any"} {
			roots = append(roots, root{rt.fn, rt.name + " with key " + key})
		}
	}
	k.run(roots...)
	r.floor("lines delivered", 1)
	r.floor("errors delivered", 2)
	c04returns(r, p)
	// nobody else sends on the channels of results
	for _, f := range p.Funcs {
		if f.Name() == "ioloop" || !chanOpOn(f, "Operation.outchan", "Operation.errchan") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var vals []ssa.Value
				switch in := in.(type) {
				case *ssa.Send:
					vals = append(vals, in.X)
				case *ssa.Select:
					for _, c := range in.States {
						if c.Dir == types.SendOnly {
							vals = append(vals, c.Send)
						}
					}
				}
				for _, v := range vals {
					r.Obligations++
					ok := false
					if u, isU := v.(*ssa.UnOp); isU {
						if g, isG := u.X.(*ssa.Global); isG && g.Pkg.Pkg.Path() == "io" && g.Name() == "EOF" {
							ok = true
						}
					}
					if ok || k.keep[f] && reachedFromLoop(p, f) {
						r.Discharged++
						continue
					}
					r.add("error", fnName(f), "result channels", p.instrPos(in), "something else than io.EOF is delivered to a read from outside the key loop", nil)
				}
			}
		}
	}
}

// reachedFromLoop: f is a helper of the key loop, called from it and interpreted with it.
func reachedFromLoop(p *Program, f *ssa.Function) bool {
	n := p.callGraph().Nodes[f]
	if n == nil || len(n.In) == 0 {
		return false
	}
	for _, c := range n.In {
		if c.Caller.Func.Name() != "ioloop" {
			return false
		}
	}
	return true
}

func (e *Eng) peekInt(s *State, sym string) *IntV {
	n := 0
	if _, err := fmt.Sscan(sym, &n); err != nil || n == 0 {
		return nil
	}
	return &IntV{L: linS(Sym(n))}
}

func isEOF(v Val) bool {
	i, ok := v.(IfaceV)
	return ok && i.ID == "var EOF"
}

func (e *Eng) isInterrupt(v Val) bool {
	i, ok := v.(IfaceV)
	return ok && i.Dyn != nil && typeName(i.Dyn) == "InterruptError"
}

// exactText: v is the result of Reset without the appended runes.
func (e *Eng) exactText(k *keyRun, sufs map[string]Lin, s *State, v Val) bool {
	sv, ok := v.(SliceV)
	if !ok || s.ghost["txt"] != "" || s.ghost["res"] == "" || sliceID(v) != s.ghost["res"] {
		return false
	}
	k.mu.Lock()
	n, suf := sufs[s.ghost["reslen"]], sufs[s.ghost["suf"]]
	k.mu.Unlock()
	if s.ghost["suf"] == "" {
		suf = linK(0)
	}
	if os.Getenv("VP_T") != "" && e.dry == 0 {
		fmt.Println("TXT", e.str(sv.Off), "|", e.str(sv.Len), "|", e.str(n), "|", e.str(suf), s.ghost)
	}
	return s.provesEq(sv.Off, linK(0)) && s.provesEq(sv.Len, n.Sub(suf))
}

func c04returns(r *Report, p *Program) {
	x := newEvRun(r, p, sessionSingles...)
	kr := &keyRun{evRun: x, keep: p.staticReach(func(f *ssa.Function) bool {
		return chanOpOn(f, "Operation.outchan", "Operation.errchan", "Operation.eofChan")
	})}
	x.setup = func(e *Eng, rt root) {
		e.maxStates = 60
		wrapper := rt.fn.Name() != "Runes"
		e.pre = func(e *Eng, s *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool) {
			if wrapper && isMethod(fn, "Operation", "Runes") {
				return e.opaqueRes(s, at, fn, name, fn.Signature, args, nil), true
			}
			return kr.skip(e, s, at, name, fn, args)
		}
		vals := map[string]Val{}
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			switch {
			case ev.Kind == "recv" && !wrapper:
				for _, c := range []string{"outchan", "errchan", "eofChan"} {
					if isChan(ev, c) {
						s.setGhost("from", c)
						v := e.received(s, ev)
						vals[c] = v
					}
				}
			case ev.Kind == "load" && !wrapper && ev.Cell.path == ".Line":
				if got, ok := vals["errchan"].(IfaceV); ok && strings.Contains(ev.Cell.o.Name, got.ID) {
					s.setGhost("line", sliceID(ev.Val))
				}
			case ev.Kind == "ret" && wrapper && isMethod(ev.Fn, "Operation", "Runes"):
				if t, ok := ev.Val.(TupleV); ok {
					s.setGhost("runes", sliceID(t[0]))
					s.setGhost("err", errSym(t[1]))
				}
			}
			return nil
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			t, ok := v.(TupleV)
			if !ok || len(t) != 2 {
				return
			}
			x.met("returns of a read")
			if wrapper {
				if s.ghost["runes"] == "" {
					e.rule(s, at, "wrapper", "Runes", "a read returns without having read", false)
					return
				}
				e.rule(s, at, "wrapper", "error", "the error of the read is not returned unchanged", errSym(t[1]) == s.ghost["err"] && s.ghost["err"] != "" || t[1].(IfaceV).Null && e.symState(s, s.ghost["err"]) == 1)
				from := false
				parts := e.flat(t[0])
				if len(parts) == 1 && sliceID(parts[0]) == s.ghost["runes"] {
					from = true
				}
				e.rule(s, at, "wrapper", "line", "the line of the read is not returned unchanged", from || e.symState(s, s.ghost["err"]) == 0)
				return
			}
			er, _ := t[1].(IfaceV)
			switch s.ghost["from"] {
			case "outchan":
				e.rule(s, at, "result", "line", "a line is not returned as it was delivered, with a nil error", er.Null && valEq(t[0], vals["outchan"]))
			case "eofChan":
				e.rule(s, at, "result", "end", "the end of the input is not reported as io.EOF", isEOF(er))
			case "errchan":
				got, _ := vals["errchan"].(IfaceV)
				ln, isS := t[0].(SliceV)
				if strings.Contains(er.ID, "ErrInterrupt") {
					e.rule(s, at, "result", "interrupt", "an interrupt does not return the text typed so far", isS && ln.Arr != nil && s.ghost["line"] == ln.Arr.Name && s.proves(ln.Off.Neg()) && ln.Off.K == 0)
					return
				}
				e.rule(s, at, "result", "error", "a delivered error is not returned as it is", er.Nil != 0 && er.Nil == got.Nil && !e.mayBeInterrupt(s, er))
			default:
				e.rule(s, at, "result", "source", "a read returns something that was not delivered", false)
			}
		}
	}
	rs := x.methods("Operation", "Runes", "String", "Slice")
	rs = append(rs, x.methods("Instance", "Readline", "ReadlineWithDefault", "ReadSlice")...)
	x.run(rs...)
	r.floor("returns of a read", 6)
}

func (e *Eng) received(s *State, ev *Event) Val {
	switch in := ev.At.(type) {
	case *ssa.UnOp:
		return e.get(s, in)
	case *ssa.Select:
		t, ok := e.get(s, in).(TupleV)
		if !ok {
			return nil
		}
		idx, _ := t[0].(IntV)
		n := int64(0)
		for i, c := range in.States {
			if c.Dir != types.RecvOnly {
				continue
			}
			if int64(i) == idx.L.K {
				return t[2+n]
			}
			n++
		}
	}
	return nil
}

// mayBeInterrupt: the error may be an *InterruptError in st.
func (e *Eng) mayBeInterrupt(s *State, v IfaceV) bool {
	for y, t := range s.bools {
		if n := e.name(y); !t && strings.HasPrefix(n, "is("+v.ID+",") && strings.Contains(n, "InterruptError") {
			return false
		}
	}
	return true
}

// C12 ------------------------------------------------------------------------

func sliceKey(e *Eng, v Val) string {
	if s, ok := v.(SliceV); ok && s.Arr != nil {
		return s.Arr.Name + "[" + e.str(s.Off) + "+" + e.str(s.Len) + "]"
	}
	return ""
}

func checkC12(r *Report) {
	r.Rules = append(r.Rules,
		"a line is sent to the reader only after opHistory.New was called with that very line since the key was read, or automatic saving is known to be disabled and nothing was saved",
		"before io.EOF or an interrupt is delivered for a key nothing was saved, and the history is reverted to its newest entry before the next key",
		"opHistory.New: disabled history is neither changed nor written; otherwise an entry that is neither empty nor a repetition is stored as a copy and, with a file open, written once; every write error is returned",
		"SaveHistory saves its argument once and returns what New returned")
	r.Assumes = append(r.Assumes, "the configuration is not replaced while a key is being handled")
	p := load(r, "linux")
	k := newKeyRun(r, p)
	k.setup = func(e *Eng, rt root) {
		_, variant, _ := strings.Cut(rt.name, " with key ")
		normal := variant != "any"
		var key int64
		if normal {
			fmt.Sscan(variant, &key)
		}
		boundary := func(s *State, at ssa.Instruction) {
			if key != 0 && (s.ghost["out"] == "interrupt" || s.ghost["out"] == "eof") {
				e.rule(s, at, "revert", "after "+s.ghost["out"], "a line that ended in "+s.ghost["out"]+" stays in the history", s.ghost["rev"] != "")
			}
		}
		k.prepare(e, func(s *State, at ssa.Instruction) []callRes {
			boundary(s, at)
			s.ghost, s.ghostO = map[string]string{}, true
			if !normal {
				return []callRes{{s, e.mat(s, types.Typ[types.Rune], e.base(s, at, "rune"))}}
			}
			return []callRes{{s, IntV{L: linK(key)}}}
		}, normal)
		if !normal {
			e.maxStates, e.maxRets = 10, 10
		}
		save := func(s *State, ev *Event) {
			k.met("lines saved")
			e.rule(s, ev.At, "disabled", shortName(ev.Name), "a line is saved although automatic saving may be disabled", s.ghost["auto"] == "on")
			e.rule(s, ev.At, "once", shortName(ev.Name), "a line is saved twice", s.ghost["rec"] == "")
			s.setGhost("rec", sliceKey(e, ev.Args[1]))
		}
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			switch {
			case ev.Kind == "load" && ev.Cell.path == ".DisableAutoSaveHistory":
				b, ok := ev.Val.(BoolV)
				if !ok {
					return nil
				}
				var out []*State
				t := s.fork()
				if t := t.assume(b, true); t != nil {
					t.setGhost("auto", "off")
					out = append(out, t)
				}
				if u := s.assume(b, false); u != nil {
					u.setGhost("auto", "on")
					out = append(out, u)
				}
				return out
			case ev.Kind == "call" && isMethod(ev.Fn, "opHistory", "New"):
				save(s, ev)
			case ev.Kind == "call" && isMethod(ev.Fn, "opHistory", "Update"):
				if b, ok := ev.Args[2].(BoolV); !ok || s.truth(b) != 0 {
					save(s, ev)
				}
			case ev.Kind == "call" && isMethod(ev.Fn, "opHistory", "Revert"):
				s.setGhost("rev", "1")
			case ev.Kind == "send" && isChan(ev, "outchan"):
				k.met("lines delivered")
				ok := s.ghost["auto"] == "off" && s.ghost["rec"] == "" || s.ghost["rec"] != "" && s.ghost["rec"] == sliceKey(e, ev.Val)
				e.rule(s, ev.At, "recorded first", "outchan", "a line is delivered that was not saved before", ok)
				s.setGhost("out", "line")
			case ev.Kind == "send" && isChan(ev, "errchan"):
				k.met("errors delivered")
				e.rule(s, ev.At, "not recorded", "errchan", "a line that ends without Enter is saved", s.ghost["rec"] == "")
				s.setGhost("out", "eof")
				if e.isInterrupt(ev.Val) {
					s.setGhost("out", "interrupt")
				}
			}
			return nil
		}
	}
	var roots []root
	for _, rt := range k.root(r) {
		for _, key := range []string{"0", "3", "4", "10", "13", "any"} {
			roots = append(roots, root{rt.fn, rt.name + " with key " + key})
		}
	}
	k.run(roots...)
	r.floor("lines saved", 1)
	r.floor("lines delivered", 1)
	r.floor("errors delivered", 2)
	c12save(r, p)
}

func c12save(r *Report, p *Program) {
	x := newEvRun(r, p, "opHistory", "Config", "Operation", "Instance")
	x.setup = func(e *Eng, rt root) {
		e.maxStates, e.maxRets = 120, 120
		self := rt.fn.Name()
		hist := e.obj("opHistory", p.namedType("opHistory"))
		hist.Single = true
		_, variant, _ := strings.Cut(rt.name, " ")
		var line Val
		var fd0 Val
		if self == "SaveHistory" {
			e.pre = func(e *Eng, s *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool) {
				if isMethod(fn, "opHistory", "New") {
					return e.opaqueRes(s, at, fn, name, fn.Signature, args, nil), true
				}
				return nil, false
			}
		}
		e.argPre = func(e *Eng, s *State, fn *ssa.Function, args []Val) {
			line = args[1]
			if self == "SaveHistory" {
				return
			}
			b, _ := e.peek(s, hist, ".enable").(BoolV)
			s.assume(b, variant != "disabled")
			fd0 = e.peek(s, hist, ".fd")
			if variant == "without a file" {
				s.assume(e.nilTest(s, fd0, nil), true)
			} else if variant == "with a file" {
				s.assume(e.nilTest(s, fd0, nil), false)
			}
			l, _ := e.peek(s, hist, ".history").(PtrV)
			s.assume(e.nilTest(s, l, nil), false)
			c, _ := e.peek(s, hist, ".cfg").(PtrV)
			s.assume(e.nilTest(s, c, nil), false)
		}
		isLine := func(s *State, v Val) bool {
			n := sliceID(v)
			return n != "" && (n == sliceID(line) || s.ghost["copy "+n] != "" || copyOf(e, v) == sliceID(line))
		}
		isNewest := func(s *State, v Val) bool {
			n := sliceID(v)
			return n != "" && (s.ghost["source "+n] != "" || s.ghost["source "+copyOf(e, v)] != "")
		}
		// repeated reports that the path compared the two texts as strings and found them equal
		repeated := func(s *State) bool {
			var mine, newest []string
			for n, v := range e.src {
				if isLine(s, v) {
					mine = append(mine, n)
				}
				if isNewest(s, v) {
					newest = append(newest, n)
				}
			}
			for _, a := range mine {
				for _, b := range newest {
					x, y := a, b
					if x > y {
						x, y = y, x
					}
					if s.truth(BoolV{Op: 's', S: e.sym("eq(" + x + "," + y + ")")}) == 1 {
						return true
					}
				}
			}
			return false
		}
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			switch {
			case ev.Kind == "ret" && self == "SaveHistory" && isMethod(ev.Fn, "opHistory", "New"):
				s.setGhost("new", s.ghost["new"]+"1")
				s.setGhost("err", errSym(ev.Val))
				parts := e.flat(ev.Args[1])
				s.setGhost("arg", fmt.Sprint(len(parts) == 1 && valEq(parts[0], line)))
			case ev.Kind == "ret" && strings.HasSuffix(ev.Name, ").Copy") && len(ev.Args) > 0:
				if isLine(s, ev.Args[len(ev.Args)-1]) {
					s.setGhost("copy "+sliceID(ev.Val), "1")
				}
			case ev.Kind == "ret" && ev.Name == "(*container/list.List).Back":
				s.setGhost("back "+objName(ev.Val), "1")
			case ev.Kind == "ret" && ev.Name == "(*container/list.Element).Prev":
				// the last element is the line being edited, the one before it is the newest recorded line
				s.setGhost("newest "+objName(ev.Val), s.ghost["back "+objName(ev.Args[0])])
			case ev.Kind == "load" && ev.Cell.path == ".Value" && s.ghost["newest "+ev.Cell.o.Name] != "":
				if i, ok := ev.Val.(IfaceV); ok {
					s.setGhost("item "+i.ID, "1")
					s.setGhost("entry "+objName(i), "1")
				}
			case ev.Kind == "load" && ev.Cell.path == ".Source":
				if s.ghost["entry "+ev.Cell.o.Name] != "" {
					s.setGhost("source "+sliceID(ev.Val), "1")
				}
				for g := range s.ghost {
					if n, ok := strings.CutPrefix(g, "item "); ok && n != "" && strings.HasPrefix(ev.Cell.o.Name, "*as("+n+",") {
						s.setGhost("source "+sliceID(ev.Val), "1")
					}
				}
			case ev.Kind == "ret" && strings.Contains(ev.Name, "Equal"):
				b, ok := ev.Val.(BoolV)
				mine, other := false, false
				for _, a := range ev.Args {
					mine = mine || isLine(s, a)
					other = other || isNewest(s, a)
				}
				if !ok || !mine || !other {
					return nil
				}
				var out []*State
				t := s.fork()
				if t := t.assume(b, true); t != nil {
					t.setGhost("dup", "1")
					out = append(out, t)
				}
				if u := s.assume(b, false); u != nil {
					out = append(out, u)
				}
				return out
			case ev.Kind == "store" && ev.Cell.path == ".Source":
				e.rule(s, ev.At, "disabled", "store", "a disabled history records a line", variant != "disabled")
				if isLine(s, ev.Val) {
					x.met("entries recorded")
					s.setGhost("stored", "1")
					e.rule(s, ev.At, "copy", "hisItem.Source", "the entry shares memory with the caller's line", sliceID(ev.Val) != sliceID(line))
				}
			case ev.Kind == "call" && strings.HasPrefix(ev.Name, "(*container/list.List).Push"):
				e.rule(s, ev.At, "disabled", "push", "a disabled history records a line", variant != "disabled")
			case ev.Kind == "call" && strings.HasPrefix(ev.Name, "(*os.File).Write"):
				x.met("writes")
				e.rule(s, ev.At, "disabled", "write", "a disabled history writes to its file", variant != "disabled")
				e.rule(s, ev.At, "once", "write", "an entry is written twice", s.ghost["w"] == "")
				s.setGhost("w", "1")
				parts := e.flat(ev.Args[1])
				e.rule(s, ev.At, "written", "text", "what is written is not the saved line", len(parts) > 0 && isLine(s, parts[0]))
			case ev.Kind == "ret" && strings.HasPrefix(ev.Name, "(*os.File).Write"):
				s.setGhost("werr", errSym(lastRes(ev.Val)))
			}
			return nil
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			x.met("returns checked")
			er, _ := v.(IfaceV)
			if self == "SaveHistory" {
				e.rule(s, at, "saved", "SaveHistory", "the line is not saved exactly once", s.ghost["new"] == "1" && s.ghost["arg"] == "true")
				e.rule(s, at, "error", "SaveHistory", "the error of saving is not returned", s.ghost["err"] != "" && errSym(er) == s.ghost["err"])
				return
			}
			if w := s.ghost["werr"]; w != "" {
				e.rule(s, at, "error", "write error", "the error of the history file write is lost", errSym(er) == w || er.Null && e.symState(s, w) == 1 || e.isNonNil(s, er))
			} else {
				e.rule(s, at, "error", "no write", "an error is reported although nothing was written", er.Null || e.isNil(s, er))
			}
			if variant == "disabled" {
				return
			}
			empty := false
			if l, ok := line.(SliceV); ok {
				empty = s.proves(l.Len.Neg())
			}
			if s.ghost["dup"] != "" || empty || repeated(s) {
				return
			}
			e.rule(s, at, "saved", "entry", "a line is neither empty nor a repetition and still not recorded", s.ghost["stored"] != "")
			if variant == "with a file" && s.ghost["w"] == "" {
				// the first entry of a history that was reset is not written
				cur, _ := e.peek(s, hist, ".history").(PtrV)
				_ = cur
				e.rule(s, at, "written", "entry", "a recorded line is not written to the open file", s.ghost["reset"] != "")
			}
		}
	}
	var roots []root
	for _, m := range x.methods("opHistory", "New") {
		for _, v := range []string{"disabled", "without a file", "with a file"} {
			roots = append(roots, root{m.fn, m.name + " " + v})
		}
	}
	roots = append(roots, x.methods("Operation", "SaveHistory")...)
	roots = append(roots, x.methods("Instance", "SaveHistory")...)
	x.run(roots...)
	r.floor("entries recorded", 1)
	r.floor("writes", 1)
	r.floor("returns checked", 6)
}

func copyOf(e *Eng, v Val) string {
	parts := e.flat(v)
	if len(parts) == 1 {
		return sliceID(parts[0])
	}
	return ""
}
