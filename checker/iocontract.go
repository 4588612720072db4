package main

// C20: counts of Read and Write, pre-filled input.  C18: application output.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C18"] = checkC18
	checks["C20"] = checkC20
}

// ioMethods are the module's methods with the signature ([]byte) (int, error).
func ioMethods(p *Program, names ...string) []root {
	var out []root
	for _, f := range p.Funcs {
		sig := f.Signature
		if sig.Recv() == nil || f.Blocks == nil || f.Synthetic != "" || sig.Params().Len() != 1 || sig.Results().Len() != 2 {
			continue
		}
		ok := false
		for _, n := range names {
			ok = ok || f.Name() == n
		}
		sl, isSl := sig.Params().At(0).Type().Underlying().(*types.Slice)
		if !ok || !isSl || !types.Identical(sl.Elem(), types.Typ[types.Byte]) || !isInt(sig.Results().At(0).Type()) || !isErrorType(sig.Results().At(1).Type()) {
			continue
		}
		out = append(out, root{f, fnName(f)})
	}
	return out
}

func checkC20(r *Report) {
	r.Rules = append(r.Rules,
		"every method Read([]byte) (int, error) returns 0 <= n <= len(p) and every Write([]byte) (int, error) returns 0 <= n <= len(p) with n == len(p) or a non-nil error, on every path, given that the reader or writer it wraps does",
		"CancelableStdin: the buffer handed to the reading goroutine is the caller's, the goroutine stores exactly the result of reading into that buffer before it answers, and Read returns exactly what was stored",
		"FillableStdin: the buffer only grows by exactly the bytes just read, at its end, before the next read; Read takes bytes from its start, removes exactly as many as it returns, and reads from the wrapped input only while the buffer is empty",
		"RemoteSvr.Read reports the end only after the receive buffer was found empty after the end was known")
	r.Assumes = append(r.Assumes, "wrapped readers and writers keep the io contracts", "one Read of CancelableStdin at a time (it holds its mutex, C15/C16)")
	for _, goos := range []string{"linux", "windows"} {
		p := load(r, goos)
		c20contract(r, p, goos)
	}
	p := load(r, "linux")
	c20cancelable(r, p)
	c20fillable(r, p)
	c20remote(r, p)
}

// fullOrErr: a Write of a wrapped writer that does not report an error wrote everything.
func fullOrErr(e *Eng, s *State, ev *Event) {
	if ev.Kind != "ret" || shortName(ev.Name) != "Write" && shortName(ev.Name) != "WriteString" {
		return
	}
	t, ok := ev.Val.(TupleV)
	if !ok || len(t) != 2 || len(ev.Args) == 0 {
		return
	}
	if ev.Fn != nil && e.p.inModule(ev.Fn) && ev.Fn.Blocks != nil {
		return // interpreted
	}
	n, ok1 := t[0].(IntV)
	ie, ok2 := t[1].(IfaceV)
	switch b := ev.Args[len(ev.Args)-1].(type) {
	case SliceV, StrV:
		if ok1 && ok2 && ie.Nil != 0 {
			l := e.lenOf(s, b, ev.At)
			s.addImpl(&impl{g: []guard{{ie.Nil, true}}, lins: []Lin{n.L.Sub(l)}})
		}
	}
}

func c20contract(r *Report, p *Program, goos string) {
	x := newEvRun(r, p, "CancelableStdin", "FillableStdin", "RemoteSvr", "RemoteCli", "RuneBuffer", "Operation", "Terminal", "Instance")
	keep := p.staticReach(func(f *ssa.Function) bool { return isMethod(f, "RuneBuffer", "Refresh") })
	x.setup = func(e *Eng, rt root) {
		e.maxStates, e.maxRets = 60, 60
		e.pre = func(e *Eng, s *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool) {
			if fn != nil && (isMethod(fn, "opSearch") || isMethod(fn, "opCompleter") || isMethod(fn, "RuneBuffer") && !keep[fn]) {
				return e.opaqueRes(s, at, fn, name, fn.Signature, args, nil), true
			}
			return nil, false
		}
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			fullOrErr(e, s, ev)
			if ev.Kind == "recv" && isChan(ev, "notify") && isMethod(rt.fn, "CancelableStdin", "Read") {
				// answered: what c20cancelable establishes
				o := e.obj("CancelableStdin", p.namedType("CancelableStdin"))
				if d, ok := e.peek(s, o, ".data").(SliceV); ok {
					n := linS(e.fresh(s, ev.At, "handed"))
					s.addCon(n)
					s.addCon(d.Len.Sub(n))
					s.setCell(cellKey{o, ".read"}, IntV{L: n})
				}
			}
			return nil
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			t, ok := v.(TupleV)
			if !ok || len(t) != 2 {
				return
			}
			n, ok := t[0].(IntV)
			l := e.lenOf(s, args[len(args)-1], at)
			x.met("results checked " + goos)
			e.rule(s, at, "count", "range", fmt.Sprintf("%s may return a count outside 0..len(p)", fnName(fn)), ok && s.proves(n.L) && s.proves(l.Sub(n.L)))
			if fn.Name() == "Write" || fn.Name() == "WriteStdin" {
				full := ok && s.proves(n.L.Sub(l))
				if !full && e.errState(s, t[1]) < 0 {
					// on the paths where the error is nil
					u := s.fork()
					if u = u.assume(e.nilTest(u, t[1], nil), true); u == nil || u.proves(n.L.Sub(l)) {
						full = true
					}
				}
				e.rule(s, at, "count", "short write", fmt.Sprintf("%s may report fewer bytes than it was given without an error", fnName(fn)), full || e.isNonNil(s, t[1]))
			}
		}
	}
	names := []string{"Read", "Write", "WriteStdin"}
	x.run(ioMethods(p, names...)...)
	r.floor("results checked "+goos, 6)
}

func c20cancelable(r *Report, p *Program) {
	x := newEvRun(r, p, "CancelableStdin")
	var roots []root
	roots = append(roots, x.methods("CancelableStdin", "Read")...)
	for _, f := range p.goBodies() {
		if recvName(f) == "CancelableStdin" || f.Parent() != nil && recvName(f.Parent()) == "CancelableStdin" {
			roots = append(roots, root{f, fnName(f)})
		}
	}
	if len(roots) < 2 {
		r.errf("the reading goroutine of CancelableStdin was not found")
	}
	x.setup = func(e *Eng, rt root) {
		read := isMethod(rt.fn, "CancelableStdin", "Read")
		o := func() *Obj { return e.obj("CancelableStdin", p.namedType("CancelableStdin")) }
		var arg string
		e.argPre = func(e *Eng, s *State, fn *ssa.Function, args []Val) {
			if read {
				arg = sliceKey(e, args[1])
			}
		}
		key := func(v Val) string {
			switch v := v.(type) {
			case IntV:
				return v.L.Key()
			case IfaceV:
				if v.Null {
					return "nil"
				}
				return errSym(v)
			}
			return "?"
		}
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			switch {
			case ev.Kind == "send" && isChan(ev, "notify") && read:
				x.met("requests")
				e.rule(s, ev.At, "handoff", "buffer", "the goroutine is asked to read into another buffer than the caller's", sliceKey(e, e.peek(s, o(), ".data")) == arg)
			case ev.Kind == "recv" && isChan(ev, "notify") && read:
				// fresh results
				s.setCell(cellKey{o(), ".read"}, IntV{L: linS(e.fresh(s, ev.At, "got"))})
				er := e.mat(s, types.Universe.Lookup("error").Type(), e.base(s, ev.At, "goterr"))
				s.setCell(cellKey{o(), ".err"}, er)
				s.setGhost("answer", key(e.peek(s, o(), ".read"))+" "+key(er))
			case ev.Kind == "recv" && isChan(ev, "notify"):
				// the caller stored its buffer
				s.setCell(cellKey{o(), ".data"}, e.mat(s, p.fieldT("CancelableStdin", "data"), e.base(s, ev.At, "handed buffer")))
				s.setGhost("want", sliceKey(e, e.peek(s, o(), ".data")))
				s.setGhost("done", "")
			case ev.Kind == "ret" && shortName(ev.Name) == "Read" && !read:
				t, ok := ev.Val.(TupleV)
				if !ok || len(t) != 2 {
					return nil
				}
				x.met("reads of the wrapped input")
				e.rule(s, ev.At, "handoff", "reads once", "the wrapped input is read more than once, or without a request", s.ghost["want"] != "" && s.ghost["done"] == "")
				e.rule(s, ev.At, "handoff", "reads into", "the goroutine reads into another buffer than the one it was handed", sliceKey(e, ev.Args[len(ev.Args)-1]) == s.ghost["want"])
				s.setGhost("done", key(t[0])+" "+key(t[1]))
			case ev.Kind == "send" && isChan(ev, "notify"):
				x.met("answers")
				e.rule(s, ev.At, "handoff", "answer", "the result handed back is not the one of this read", s.ghost["done"] != "" && s.ghost["done"] == key(e.peek(s, o(), ".read"))+" "+key(e.peek(s, o(), ".err")))
				s.setGhost("want", "")
				s.setGhost("done", "")
			}
			return nil
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			if !read {
				return
			}
			t, ok := v.(TupleV)
			if !ok {
				return
			}
			if a := s.ghost["answer"]; a != "" {
				e.rule(s, at, "handoff", "result", "Read does not return what the goroutine read", a == key(t[0])+" "+key(t[1]))
				return
			}
			n, ok := t[0].(IntV)
			e.rule(s, at, "handoff", "no answer", "Read returns data without an answer of the goroutine", ok && s.provesEq(n.L, linK(0)))
		}
	}
	x.run(roots...)
	r.floor("requests", 1)
	r.floor("answers", 1)
	r.floor("reads of the wrapped input", 1)
}

// fieldT is the type of a field of a named struct type of the module.
func (p *Program) fieldT(typ, field string) types.Type {
	return fieldType(p.namedType(typ), field)
}

func c20fillable(r *Report, p *Program) {
	x := newEvRun(r, p, "FillableStdin")
	var roots []root
	roots = append(roots, x.methods("FillableStdin", "Read")...)
	for _, f := range p.goBodies() {
		if recvName(f) == "FillableStdin" || f.Parent() != nil && recvName(f.Parent()) == "FillableStdin" {
			roots = append(roots, root{f, fnName(f)})
		}
	}
	if len(roots) < 2 {
		r.errf("the filling goroutine of FillableStdin was not found")
	}
	x.setup = func(e *Eng, rt root) {
		e.maxStates = 60
		read := isMethod(rt.fn, "FillableStdin", "Read")
		fo := func() *Obj { return e.obj("FillableStdin", p.namedType("FillableStdin")) }
		lins := map[string]Lin{}
		lk := func(l Lin) string { lins[l.Key()] = l; return l.Key() }
		type app struct {
			from, what SliceV
		}
		apps := map[string]app{}
		var arg SliceV
		e.argPre = func(e *Eng, s *State, fn *ssa.Function, args []Val) {
			if read {
				arg, _ = args[1].(SliceV)
			}
		}
		same := func(a, b SliceV) bool { return a.Arr != nil && a.Arr == b.Arr }
		cur := func(s *State) (SliceV, bool) {
			v, ok := e.peek(s, fo(), ".buf").(SliceV)
			return v, ok
		}
		pending := func(s *State, at ssa.Instruction) {
			if g := s.ghost["pend"]; g != "" {
				_, n, _ := strings.Cut(g, "|")
				e.rule(s, at, "fill", "lost", "bytes written to the pre-fill pipe are not put into the buffer", s.proves(lins[n].Neg()))
			}
			s.setGhost("pend", "")
		}
		// nothing: bytes were copied from the buffer, but none
		nothing := func(s *State) bool {
			g := s.ghost["took"]
			return (strings.HasPrefix(g, "a ") || strings.HasPrefix(g, "c ")) && s.proves(lins[g[2:]].Neg())
		}
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			if g := s.ghost["pend"]; g != "" {
				if _, n, _ := strings.Cut(g, "|"); s.proves(lins[n].Neg()) {
					s.setGhost("pend", "") // nothing was read
				}
			}
			switch {
			case ev.Kind == "call" && !read && shortName(ev.Name) == "Read":
				pending(s, ev.At)
			case ev.Kind == "ret" && !read && shortName(ev.Name) == "Read":
				t, ok := ev.Val.(TupleV)
				b, ok2 := ev.Args[len(ev.Args)-1].(SliceV)
				if ok && ok2 && len(t) == 2 && b.Arr != nil {
					x.met("reads of the pre-fill pipe")
					n, _ := t[0].(IntV)
					s.setGhost("pend", b.Arr.Name+"@"+lk(b.Off)+"|"+lk(n.L))
				}
			case ev.Kind == "append":
				a, ok1 := ev.Args[0].(SliceV)
				b, ok2 := ev.Args[1].(SliceV)
				if v, ok := ev.Val.(SliceV); ok && ok1 && ok2 && v.Arr != nil {
					apps[v.Arr.Name] = app{a, b}
				}
			case ev.Kind == "copy" && read:
				d, ok1 := ev.Args[0].(SliceV)
				b, ok2 := ev.Args[1].(SliceV)
				c, ok3 := cur(s)
				if !ok1 || !ok2 || !ok3 || !same(b, c) {
					return nil
				}
				x.met("deliveries of pre-filled bytes")
				e.rule(s, ev.At, "order", "copy", "pre-filled bytes are not taken from the start of the buffer, or not put at the start of the caller's", same(d, arg) && s.provesEq(d.Off, arg.Off) && s.provesEq(b.Off, c.Off) && (s.ghost["took"] == "" || nothing(s)))
				s.setGhost("took", "?")
				if n, ok := ev.Val.(IntV); ok {
					g := "c " + lk(n.L)
					if s.provesEq(b.Len, c.Len) && s.provesEq(d.Len, arg.Len) {
						g = "a " + lk(n.L) // as much as there is and fits
					}
					s.setGhost("took", g)
				}
			case ev.Kind == "call" && read && shortName(ev.Name) == "Read":
				c, ok := cur(s)
				x.met("reads of the wrapped input after the buffer")
				e.rule(s, ev.At, "order", "wrapped input", "the wrapped input is read while pre-filled bytes wait", ok && (s.proves(c.Len.Neg()) || s.proves(arg.Len.Neg()) || nothing(s) && s.ghost["took"][0] == 'a') && (s.ghost["took"] == "" || nothing(s)))
			case ev.Kind == "store" && ev.Cell.o == fo() && ev.Cell.path == ".buf":
				v, ok := ev.Val.(SliceV)
				c, ok2 := cur(s)
				x.met("stores to the pre-fill buffer")
				if read {
					good := ok && ok2 && s.ghost["took"] != "" && same(v, c) && s.proves(v.Off.Sub(c.Off)) && s.provesEq(v.Off.Add(v.Len), c.Off.Add(c.Len))
					e.rule(s, ev.At, "order", "remainder", "what is left in the buffer is not the rest behind the bytes delivered", good)
					if good {
						s.setGhost("took", "n "+lk(v.Off.Sub(c.Off)))
					}
					return nil
				}
				a := apps[sliceID(v)]
				good := ok && ok2 && same(a.from, c) && s.provesEq(a.from.Off, c.Off) && s.provesEq(a.from.Len, c.Len)
				bufn, n, _ := strings.Cut(s.ghost["pend"], "|")
				if ok && v.Arr != nil && ok2 && s.proves(c.Len.Neg()) && v.Arr.Site != nil && inLoop(v.Arr.Site.Block()) {
					// the buffer is empty, memory of its own takes its place
					good, a.what = true, v
				}
				good = good && a.what.Arr != nil && bufn == a.what.Arr.Name+"@"+a.what.Off.Key() && s.provesEq(a.what.Len, lins[n])
				e.rule(s, ev.At, "fill", "append", "the buffer does not grow by exactly the bytes just read", good)
				if good {
					s.setGhost("pend", "")
				}
			}
			return nil
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			if !read {
				pending(s, at)
				return
			}
			t, ok := v.(TupleV)
			if !ok || s.ghost["took"] == "" || nothing(s) {
				return
			}
			n, ok := t[0].(IntV)
			took, known := strings.CutPrefix(s.ghost["took"], "n ")
			e.rule(s, at, "order", "count", "the count returned is not the number of bytes removed from the buffer", ok && known && s.provesEq(n.L, lins[took]))
		}
	}
	x.run(roots...)
	r.floor("reads of the pre-fill pipe", 1)
	r.floor("stores to the pre-fill buffer", 2)
	r.floor("deliveries of pre-filled bytes", 1)
}

func c20remote(r *Report, p *Program) {
	x := newEvRun(r, p, "RemoteSvr")
	x.setup = func(e *Eng, rt root) {
		e.maxStates = 60
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			switch {
			case ev.Kind == "recv" && isChan(ev, "stopChan"):
				s.setGhost("end", "1")
			case ev.Kind == "ret" && strings.HasPrefix(ev.Name, "sync/atomic.LoadInt32"):
				if pv, ok := ev.Args[0].(PtrV); ok && (pv.Path == ".eof" || pv.Path == ".closed") {
					x.met("looks at the end flag")
					iv, ok := ev.Val.(IntV)
					if !ok {
						return nil
					}
					one := BoolV{Op: '=', L: iv.L.AddK(-1)}
					var out []*State
					t := s.fork()
					if t = t.assume(one, true); t != nil {
						t.setGhost("end", "1")
						out = append(out, t)
					}
					if u := s.assume(one, false); u != nil {
						out = append(out, u)
					}
					return out
				}
			case ev.Kind == "ret" && ev.Name == "(*bytes.Buffer).Read":
				// data, or an error without data
				t, ok := ev.Val.(TupleV)
				if !ok {
					return nil
				}
				n, _ := t[0].(IntV)
				var out []*State
				if u := s.fork().assume(e.nilTest(s, t[1], nil), true); u != nil {
					out = append(out, u)
				}
				if u := s.assume(e.nilTest(s, t[1], nil), false); u != nil {
					u.addCon(n.L.Neg())
					out = append(out, u)
				}
				return out
			case ev.Kind == "call" && ev.Name == "(*bytes.Buffer).Read":
				x.met("reads of the receive buffer")
				if s.ghost["end"] != "" {
					s.setGhost("drained", "1")
				}
			}
			return nil
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			t, ok := v.(TupleV)
			if !ok || e.isNil(s, t[1]) {
				return
			}
			x.met("ends reported")
			e.rule(s, at, "drain", "end", "the end of the input is reported although data received before it may still be in the buffer", s.ghost["drained"] != "")
		}
	}
	x.run(x.methods("RemoteSvr", "Read")...)
	r.floor("ends reported", 1)
}

// ---------------------------------------------------------------------------
// C18

func checkC18(r *Report) {
	p := load(r, "linux")
	r.Rules = append(r.Rules,
		"wrapWriter.Write: on every path the target is written exactly once, with exactly the caller's bytes, and the result is what is returned",
		"when a read is in progress and the session is interactive the target is written with the edit buffer locked, after the line was cleared under this lock and not redrawn since, and the line is redrawn under the same lock after it",
		"when no read is in progress, or the session is not interactive, the terminal is not written to besides",
		"Stdout and Stderr hand out a writer to the configured stream of that name; Instance.Write writes once through Stdout and returns its result")
	c18write(r, p)
	c18targets(r, p)
}

func c18write(r *Report, p *Program) {
	x := newEvRun(r, p, sessionSingles...)
	var roots []root
	for _, f := range p.Funcs {
		if recvName(f) == "wrapWriter" && f.Name() == "Write" && f.Synthetic == "" {
			roots = append(roots, root{f, fnName(f)})
		}
	}
	if len(roots) == 0 {
		r.errf("anchor wrapWriter.Write not found")
	}
	x.setup = func(e *Eng, rt root) {
		e.maxStates = 100
		var arg string
		var target, rbw string
		var reading, inter, had BoolV
		var isReading Lin
		rb := func() *Obj { return e.obj("RuneBuffer", p.namedType("RuneBuffer")) }
		e.argPre = func(e *Eng, s *State, fn *ssa.Function, args []Val) {
			arg = sliceKey(e, args[1])
			o, _ := dynObj(args[0])
			if o == nil {
				return
			}
			if i, ok := e.peek(s, o, ".target").(IfaceV); ok {
				target = i.ID
			}
			if i, ok := e.peek(s, rb(), ".w").(IfaceV); ok {
				rbw = i.ID
			}
			inter, _ = e.peek(s, rb(), ".interactive").(BoolV)
			had, _ = e.peek(s, rb(), ".hadClean").(BoolV)
			t := e.obj("Terminal", p.namedType("Terminal"))
			if iv, ok := e.peek(s, t, ".isReading").(IntV); ok {
				isReading = iv.L
			}
		}
		_ = reading
		_ = isReading
		e.pre = func(e *Eng, s *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool) {
			if fn == nil {
				return nil, false
			}
			if isMethod(fn, "Terminal", "IsReading") {
				rs := e.opaqueRes(s, at, fn, name, fn.Signature, args, nil)
				var out []callRes
				for _, c := range rs {
					b, _ := c.v.(BoolV)
					if t := c.st.fork().assume(b, true); t != nil {
						t.setGhost("reading", "1")
						out = append(out, callRes{t, boolK(true)})
					}
					if t := c.st.assume(b, false); t != nil {
						t.setGhost("reading", "0")
						out = append(out, callRes{t, boolK(false)})
					}
				}
				return out, true
			}
			if isMethod(fn, "opSearch") || isMethod(fn, "opCompleter") {
				if fn.Signature.Results().Len() == 0 {
					s.setGhost("menu", "1")
				}
				return e.opaqueRes(s, at, fn, name, fn.Signature, args, nil), true
			}
			if isMethod(fn, "RuneBuffer") && fn.Signature.Results().Len() > 0 {
				// computes what is shown
				rs := e.opaqueRes(s, at, fn, name, fn.Signature, args, nil)
				for _, c := range rs {
					if id := sliceID(c.v); id != "" {
						c.st.setGhost("shown "+id, "1")
					}
				}
				return rs, true
			}
			return nil, false
		}
		locked := func(s *State) bool { return s.ghost["lock"] == "1" }
		clear := func(v Val) bool {
			for _, q := range e.flat(v) {
				if l, ok := litOf(q); ok && strings.Contains(l, "\033[") {
					return true
				}
			}
			return false
		}
		isI := func(v Val, id string) bool {
			i, ok := v.(IfaceV)
			return ok && i.ID == id && id != ""
		}
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			n := ev.Name
			toBuf := func(v Val) {
				x.met("terminal writes")
				e.rule(s, ev.At, "quiet", "terminal", "the terminal is written to although no line is shown", s.ghost["reading"] != "0" && s.truth(inter) != 0)
				e.rule(s, ev.At, "lock", "terminal", "the input line is cleared or redrawn without the edit buffer's lock", locked(s))
				if v != nil && clear(v) {
					s.setGhost("cleared", "1")
					s.setGhost("drawn", "")
				} else {
					s.setGhost("drawn", "1")
					s.setGhost("cleared", "")
				}
			}
			switch {
			case ev.Kind == "call" && (n == "(*sync.Mutex).Lock" || n == "(*sync.Mutex).Unlock") && wireLock(ev.Args[0]) != "" && strings.HasPrefix(wireLock(ev.Args[0]), "RuneBuffer"):
				if shortName(n) == "Lock" {
					s.setGhost("lock", "1")
					return nil
				}
				if s.ghost["wrote"] != "" && s.ghost["redraw"] == "due" {
					e.rule(s, ev.At, "redraw", "unlock", "the edit buffer is unlocked before the line is drawn again", s.ghost["drawn"] != "")
					s.setGhost("redraw", "")
				}
				s.setGhost("lock", "")
			case ev.Kind == "ret" && strings.HasPrefix(n, "bufio.NewWriter") && isI(ev.Args[0], rbw):
				s.setGhost("bw "+objName(ev.Val), "1")
			case ev.Kind == "call" && (strings.HasPrefix(n, "(*bufio.Writer).Write") || n == "io.WriteString" || strings.HasPrefix(n, "fmt.Fprint")) && s.ghost["bw "+objName(ev.Args[0])] != "":
				if s.ghost["dirty"] == "" {
					s.setGhost("dirty", "1")
				}
				if clear(ev.Args[1]) {
					s.setGhost("dirty", "clear")
				}
			case ev.Kind == "call" && n == "(*bufio.Writer).Flush" && s.ghost["bw "+objName(ev.Args[0])] != "":
				toBuf(nil)
				if s.ghost["dirty"] == "clear" {
					s.setGhost("cleared", "1")
					s.setGhost("drawn", "")
				}
				s.setGhost("dirty", "")
			case ev.Kind == "call" && ev.Fn == nil && isI(ev.Recv, rbw):
				toBuf(ev.Args[len(ev.Args)-1])
			case ev.Kind == "call" && n == "io.WriteString" && isI(ev.Args[0], rbw):
				toBuf(ev.Args[1])
			case ev.Kind == "call" && ev.Fn == nil && isI(ev.Recv, target):
				x.met("writes to the target")
				e.rule(s, ev.At, "once", "target", "the caller's bytes are written more than once", s.ghost["wrote"] == "")
				e.rule(s, ev.At, "once", "bytes", "something else than the caller's bytes is written", shortName(n) == "Write" && sliceKey(e, ev.Args[len(ev.Args)-1]) == arg)
				s.setGhost("wrote", "1")
				if s.ghost["reading"] == "0" {
					return nil
				}
				e.rule(s, ev.At, "lock", "target", "output is written during a read without the edit buffer's lock", locked(s) && s.ghost["reading"] == "1")
				if s.truth(inter) == 0 {
					return nil
				}
				e.rule(s, ev.At, "clear", "target", "output is written during a read before the input line was cleared", s.ghost["dirty"] == "" && s.ghost["drawn"] == "" && (s.ghost["cleared"] != "" || s.truth(had) == 1))
				s.setGhost("redraw", "due")
				s.setGhost("drawn", "")
			case ev.Kind == "ret" && ev.Fn == nil && isI(ev.Recv, target):
				if t, ok := ev.Val.(TupleV); ok && len(t) == 2 {
					n, _ := t[0].(IntV)
					s.setGhost("res", n.L.Key()+" "+errSym(t[1]))
				}
			}
			return nil
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			t, ok := v.(TupleV)
			if !ok || len(t) != 2 {
				return
			}
			x.met("exits checked")
			e.rule(s, at, "once", "not written", "Write may return without having written to the target", s.ghost["wrote"] != "")
			n, _ := t[0].(IntV)
			e.rule(s, at, "once", "result", "Write does not return the target's result", s.ghost["res"] == n.L.Key()+" "+errSym(t[1]))
			e.rule(s, at, "redraw", "exit", "the input line is not drawn again after output was written", s.ghost["redraw"] == "")
			e.rule(s, at, "quiet", "menu", "the menu or search line is drawn although no line is read", s.ghost["reading"] != "0" || s.ghost["menu"] == "")
		}
	}
	x.run(roots...)
	r.floor("writes to the target", 2)
	r.floor("terminal writes", 1)
}

func c18targets(r *Report, p *Program) {
	x := newEvRun(r, p, sessionSingles...)
	var roots []root
	for _, t := range []string{"Operation", "Instance"} {
		for _, m := range []string{"Stdout", "Stderr", "Write"} {
			if f := p.method(t, m); f != nil && f.Blocks != nil && f.Synthetic == "" {
				roots = append(roots, root{f, fnName(f)})
			}
		}
	}
	x.setup = func(e *Eng, rt root) {
		var arg string
		e.argPre = func(e *Eng, s *State, fn *ssa.Function, args []Val) {
			if len(args) > 1 {
				arg = sliceKey(e, args[1])
			}
		}
		name := rt.fn.Name()
		e.pre = func(e *Eng, s *State, at ssa.Instruction, n string, fn *ssa.Function, args []Val) ([]callRes, bool) {
			if fn != nil && recvName(fn) == "wrapWriter" && fn.Name() == "Write" {
				x.met("instance writes")
				o, _ := dynObj(args[0])
				e.rule(s, at, "once", "instance", "Instance.Write writes more than once or other bytes", s.ghost["wrote"] == "" && sliceKey(e, args[1]) == arg)
				if o != nil {
					i, _ := e.peek(s, o, ".target").(IfaceV)
					e.rule(s, at, "target", "instance", "Instance.Write does not write to the configured Stdout", fromField(i.ID, "Stdout"))
				}
				s.setGhost("wrote", "1")
				rs := e.opaqueRes(s, at, fn, n, fn.Signature, args, nil)
				for _, c := range rs {
					if t, ok := c.v.(TupleV); ok {
						k, _ := t[0].(IntV)
						c.st.setGhost("res", k.L.Key()+" "+errSym(t[1]))
					}
				}
				return rs, true
			}
			return nil, false
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			if name == "Write" {
				t, ok := v.(TupleV)
				if !ok {
					return
				}
				k, _ := t[0].(IntV)
				e.rule(s, at, "once", "instance result", "Instance.Write does not return the result of its write", s.ghost["wrote"] != "" && s.ghost["res"] == k.L.Key()+" "+errSym(t[1]))
				return
			}
			o, _ := dynObj(v)
			x.met("writers handed out")
			ok := false
			if o != nil && typeName(o.Typ) == "wrapWriter" {
				i, isI := e.peek(s, o, ".target").(IfaceV)
				ok = isI && fromField(i.ID, name)
				for _, f := range []string{".r", ".t"} {
					pv, isP := e.peek(s, o, f).(PtrV)
					ok = ok && isP && pv.Obj != nil
				}
			}
			e.rule(s, at, "target", name, fnName(fn)+" does not hand out a writer to the configured "+name, ok)
		}
	}
	x.run(roots...)
	r.floor("writers handed out", 2)
	r.floor("instance writes", 1)
}

// fromField: the value with this name was loaded from a field.
func fromField(id, field string) bool {
	id, _, _ = strings.Cut(id, "@")
	return strings.HasSuffix(id, "."+field)
}
