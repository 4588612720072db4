package main

// C17: closing is idempotent, nothing waits forever once it is closed.

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C17"] = checkC17 }

// chanSrc: where a channel comes from: "Type.field", "local" (made and kept in the
// function), "lib" (another package) or "?".
func (p *Program) chanSrc(v ssa.Value, out map[string]bool, depth int) {
	if depth > 6 {
		out["?"] = true
		return
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op != token.MUL {
			out["?"] = true
			return
		}
		switch x := v.X.(type) {
		case *ssa.FieldAddr:
			ow, n := fieldOf(x.X.Type(), x.Field)
			if nt := namedOf(deref(x.X.Type())); nt != nil && nt.Obj().Pkg() != nil && nt.Obj().Pkg() != p.Main.Pkg {
				out["lib"] = true
				return
			}
			out[ow+"."+n] = true
		case *ssa.Alloc:
			p.storesTo(x, out, depth)
		case *ssa.FreeVar:
			p.bound(x, func(b ssa.Value) {
				if a, ok := b.(*ssa.Alloc); ok {
					p.storesTo(a, out, depth)
				} else {
					out["?"] = true
				}
			})
		case *ssa.Global:
			out["global "+x.Name()] = true
		default:
			out["?"] = true
		}
	case *ssa.Field:
		ow, n := fieldOf(v.X.Type(), v.Field)
		out[ow+"."+n] = true
	case *ssa.ChangeType:
		p.chanSrc(v.X, out, depth+1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			p.chanSrc(e, out, depth+1)
		}
	case *ssa.MakeChan:
		out["local"] = true
	case *ssa.FreeVar:
		p.bound(v, func(b ssa.Value) { p.chanSrc(b, out, depth+1) })
	case *ssa.Parameter:
		n := 0
		for i, q := range v.Parent().Params {
			if q != v {
				continue
			}
			for _, f := range p.Funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == v.Parent() && i < len(c.Common().Args) {
							n++
							p.chanSrc(c.Common().Args[i], out, depth+1)
						}
					}
				}
			}
		}
		if n == 0 {
			out["?"] = true
		}
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil || !p.inModule(f) {
			out["lib"] = true
			return
		}
		for _, b := range f.Blocks {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
				p.chanSrc(rt.Results[0], out, depth+1)
			}
		}
	default:
		out["?"] = true
	}
}

func (p *Program) storesTo(a *ssa.Alloc, out map[string]bool, depth int) {
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a {
			p.chanSrc(s.Val, out, depth+1)
		}
	}
}

// bound visits what a captured variable is bound to.
func (p *Program) bound(v *ssa.FreeVar, f func(b ssa.Value)) {
	for i, q := range v.Parent().FreeVars {
		if q != v || v.Parent().Parent() == nil {
			continue
		}
		for _, b := range v.Parent().Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == v.Parent() && i < len(mc.Bindings) {
					f(mc.Bindings[i])
				}
			}
		}
	}
}

func (p *Program) chanOf(v ssa.Value) []string {
	m := map[string]bool{}
	p.chanSrc(v, m, 0)
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// blockOp is an instruction that may wait for another goroutine.
type blockOp struct {
	in           ssa.Instruction
	recvs, sends []ssa.Value
	single       bool
}

func blockingOp(in ssa.Instruction) *blockOp {
	switch in := in.(type) {
	case *ssa.Send:
		return &blockOp{in: in, sends: []ssa.Value{in.Chan}, single: true}
	case *ssa.UnOp:
		if in.Op == token.ARROW {
			return &blockOp{in: in, recvs: []ssa.Value{in.X}, single: true}
		}
	case *ssa.Select:
		if !in.Blocking {
			return nil
		}
		o := &blockOp{in: in}
		for _, s := range in.States {
			if s.Dir == types.RecvOnly {
				o.recvs = append(o.recvs, s.Chan)
			} else {
				o.sends = append(o.sends, s.Chan)
			}
		}
		return o
	}
	return nil
}

func isClose(in ssa.Instruction) (ssa.Value, bool) {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil, false
	}
	if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
		return c.Common().Args[0], true
	}
	return nil, false
}

// life is what the module says about its channels.
type life struct {
	p       *Program
	x       *evRun
	closes  map[string][]ssa.Instruction // "Type.field" -> close sites
	reach   map[*ssa.Function]bool       // functions from which a channel operation, a close or a closing flag is reached
	always  map[string]map[string]bool   // root -> channels closed at every exit
	closed  map[string]bool              // channels closed by a first call of Close
	handed  string                       // the field of Terminal the reading goroutine reads from
	reader  bool                         // Close closes it
	readerF []string
}

func (p *Program) closeSites() map[string][]ssa.Instruction {
	out := map[string][]ssa.Instruction{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ch, ok := isClose(in); ok {
					for _, s := range p.chanOf(ch) {
						out[s] = append(out[s], in)
					}
				}
			}
		}
	}
	return out
}

// reachesMod: like staticReach, for the functions of the main package only.
func lifeFn(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Send, *ssa.Select:
				return true
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return true
				}
			case ssa.CallInstruction:
				n := calleeName(in.Common())
				if _, ok := isClose(in); ok {
					return true
				}
				if strings.Contains(n, "CompareAndSwap") || strings.Contains(n, "atomic.Swap") || strings.HasPrefix(n, "(*sync.WaitGroup)") || strings.HasSuffix(n, ".Swap") {
					return true
				}
				if strings.HasSuffix(n, ".Close") {
					return true
				}
			}
		}
	}
	return false
}

// reachesInside: f reaches a channel operation through functions that are not exported.
func (p *Program) reachesInside(f *ssa.Function, exported func(*ssa.Function) bool, seen map[*ssa.Function]bool) bool {
	seen[f] = true
	if lifeFn(f) {
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Go); ok {
				if p.callsDirectGo(in) {
					return true
				}
				continue
			}
			var ops [12]*ssa.Value
			for _, op := range in.Operands(ops[:0]) {
				if g, ok := (*op).(*ssa.Function); ok && g.Pkg == p.Main && !seen[g] && !exported(g) && p.reachesInside(g, exported, seen) {
					return true
				}
			}
		}
	}
	return false
}

// callsDirectGo: a go statement of a function that is waited for.
func (p *Program) callsDirectGo(in ssa.Instruction) bool {
	f := in.(*ssa.Go).Call.StaticCallee()
	if f == nil {
		return false
	}
	return len(p.doneFields(f, map[*ssa.Function]bool{})) > 0
}

func ownerOf(f string) string { o, _, _ := strings.Cut(f, "."); return o }

func checkC17(r *Report) {
	r.Rules = append(r.Rules,
		"close once: a channel is closed on a path that won an atomic compare-and-swap or swap of a flag of the same object that is never reset (or under its lock, or in a sync.Once), or by the only close site, once, in a goroutine that is started once",
		"no stuck goroutine: every operation that can block has a case for a channel closed by Close or at the end of a goroutine; after it received from a stop channel no goroutine waits again; a goroutine closes its end channel on every exit",
		"no send on a channel that another goroutine closes",
		"Close: a first call closes the stop channel, the input the goroutine reads from, the connection, the wrapped readers, on every path, before it waits for the goroutine; Instance.Close closes Terminal and Operation",
		"WaitGroup: Add before go, Done exactly once on every exit, Wait only after the stop channel is closed",
		"reply handshake: every accepted request is answered exactly once before the next wait, every sender of a request waits for the answer (or the answer channel is buffered)")
	r.Assumes = append(r.Assumes, "user callbacks and the Read, Write and Close methods of wrapped streams return, a closed connection or pipe fails pending reads", "channels of the signal handlers of the process (SIGWINCH, SIGCONT, exit signals) live as long as the process")
	p := load(r, "linux")
	l := &life{p: p, closes: p.closeSites(), always: map[string]map[string]bool{}, closed: map[string]bool{}}
	l.reach = p.staticReach(lifeFn)
	l.x = newEvRun(r, p, sessionSingles...)
	x := l.x
	x.setup = l.setup
	// roots
	var roots []root
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && f.Blocks != nil && l.reach[f] && f.Pkg == p.Main {
			seen[f] = true
			roots = append(roots, root{f, fnName(f)})
		}
	}
	for _, f := range p.goBodies() {
		add(f)
	}
	var closers []*ssa.Function
	for _, f := range p.Funcs {
		if f.Pkg != p.Main || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		if f.Name() == "Close" && recvName(f) != "" && !isDebug(f) {
			closers = append(closers, f)
			if !seen[f] {
				seen[f] = true
				roots = append(roots, root{f, fnName(f)})
			}
		}
	}
	exported := func(f *ssa.Function) bool {
		return f.Pkg == p.Main && f.Parent() == nil && f.Synthetic == "" && f.Object() != nil && f.Object().Exported()
	}
	for _, f := range p.Funcs {
		if exported(f) && p.reachesInside(f, exported, map[*ssa.Function]bool{}) {
			add(f)
		}
	}
	for _, f := range p.Funcs {
		if isMethod(f, "Terminal", "ioloop") && !seen[f] {
			add(f)
		}
	}
	x.run(roots...)
	if len(closers) < 6 {
		r.errf("only %d Close methods found", len(closers))
	}
	r.floor("channel closes", 5)
	// what the goroutines and Close methods close
	ends := map[string]bool{}
	for _, f := range p.goBodies() {
		for c := range l.always[fnName(f)] {
			if onceGo(p, f) {
				ends[c] = true
			}
		}
	}
	stops := map[string]bool{}
	for _, f := range closers {
		for c := range l.always[fnName(f)] {
			stops[c] = true
		}
	}
	r.count("stop channels", len(stops))
	r.count("end channels", len(ends))
	l.flags(r)
	l.sites(r, stops, ends)
	l.inputs(r)
}

// sites: every operation that can block can be left.
func (l *life) sites(r *Report, stops, ends map[string]bool) {
	p := l.p
	all := func(v ssa.Value, set map[string]bool) bool {
		src := p.chanOf(v)
		for _, s := range src {
			if !set[s] {
				return false
			}
		}
		return len(src) > 0
	}
	for _, f := range p.Funcs {
		if f.Pkg != p.Main {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				o := blockingOp(in)
				if o == nil {
					continue
				}
				ok, free := false, true
				var names []string
				for _, c := range o.recvs {
					if all(c, stops) || all(c, ends) {
						ok = true
					}
				}
				for _, c := range append(append([]ssa.Value{}, o.recvs...), o.sends...) {
					for _, s := range p.chanOf(c) {
						names = append(names, s)
						if s != "local" && s != "lib" && s != "writeCtx.reply" {
							free = false
						}
					}
				}
				if free {
					continue // signal handlers, the reply handshake
				}
				r.count("blocking operations", 1)
				r.Obligations++
				if ok {
					r.Discharged++
					continue
				}
				r.add("stuck", fnName(f), strings.Join(names, ","), p.instrPos(in), "waits on "+strings.Join(names, ", ")+" without a case for a channel that Close or the end of the goroutine closes: it never returns once the object is closed", nil)
			}
		}
	}
	r.floor("blocking operations", 10)
}

// flags: a flag that guards a close is never reset.
func (l *life) flags(r *Report) {
	p := l.p
	guard := map[string]bool{}
	l.x.mu.Lock()
	for k := range l.x.seen {
		if s, ok := strings.CutPrefix(k, "guards closed by "); ok {
			guard[s] = true
		}
	}
	l.x.mu.Unlock()
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				ow, n := fieldOf(fa.X.Type(), fa.Field)
				if !guard[ow+"."+n] {
					continue
				}
				for _, ref := range *fa.Referrers() {
					bad := ""
					switch ref := ref.(type) {
					case *ssa.Store:
						if c, ok := ref.Val.(*ssa.Const); !ok || isZeroConst(c) {
							bad = "is stored to"
						}
					case ssa.CallInstruction:
						n := calleeName(ref.Common())
						args := ref.Common().Args
						if len(args) < 2 {
							continue
						}
						if c, ok := args[len(args)-1].(*ssa.Const); (strings.Contains(n, "Store") || strings.Contains(n, "Swap") || strings.Contains(n, "Add")) && (!ok || isZeroConst(c)) {
							bad = "is reset by " + n
						}
					}
					r.Obligations++
					if bad == "" {
						r.Discharged++
						continue
					}
					r.add("close once", fnName(f), ow+"."+n, p.instrPos(ref), "the flag "+ow+"."+n+", which makes sure that a channel is closed once, "+bad, nil)
				}
			}
		}
	}
}

func isZeroConst(c *ssa.Const) bool {
	if c.Value == nil {
		return true
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return !constant.BoolVal(c.Value)
	case constant.Int:
		n, ok := constant.Int64Val(c.Value)
		return ok && n == 0
	}
	return false
}

// fieldName: "Type.field" of an address.
func fieldName(v Val) string {
	p, ok := v.(PtrV)
	if !ok || p.Obj == nil || p.Obj.Typ == nil {
		return ""
	}
	return typeName(p.Obj.Typ) + p.Path
}

func (l *life) names(ev *Event) []string {
	p := l.p
	var v ssa.Value
	switch in := ev.At.(type) {
	case *ssa.Send:
		v = in.Chan
	case *ssa.UnOp:
		v = in.X
	case *ssa.Select:
		for _, s := range in.States {
			if (s.Dir == types.RecvOnly) != (ev.Kind == "recv") {
				continue
			}
			for _, n := range p.chanOf(s.Chan) {
				_, f, _ := strings.Cut(n, ".")
				if isChan(ev, f) {
					return []string{n}
				}
			}
		}
		return []string{ev.Name}
	case ssa.CallInstruction:
		if ch, ok := isClose(in); ok {
			v = ch
		}
	}
	if v == nil {
		return []string{ev.Name}
	}
	return p.chanOf(v)
}

func anyGhost(s *State, prefix string) string {
	best := ""
	for k, v := range s.ghost {
		if v != "" && strings.HasPrefix(k, prefix) && (best == "" || k < best) {
			best = k
		}
	}
	return best
}

func (l *life) setup(e *Eng, rt root) {
	p, x := l.p, l.x
	e.maxStates, e.maxRets = 200, 60
	isGo := false
	for _, f := range p.goBodies() {
		isGo = isGo || f == rt.fn
	}
	once := isGo && onceGo(p, rt.fn)
	done := isGo && p.addedBy(rt.fn)
	mine := p.doneFields(rt.fn, map[*ssa.Function]bool{})
	buffered := p.bufferedField("writeCtx", "reply")
	var exits int
	var always map[string]bool
	closeM := rt.fn.Name() == "Close"
	e.pre = func(e *Eng, s *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool) {
		if name == "(*sync.Once).Do" {
			f, ok := args[1].(FuncV)
			fl := fieldName(args[0])
			if !ok || f.Fn == nil || fl == "" {
				return nil, false
			}
			n := s.fork()
			n.setGhost("lost", "1")
			s.setGhost("won:"+fl, "1")
			return append(one(n, nil), e.static(s, at, f.Fn, nil, f.Bind, nil)...), true
		}
		if fn == nil || !p.inModule(fn) || fn.Blocks == nil || l.reach[fn] || fn.Parent() != nil {
			return nil, false
		}
		if pureSmall(fn, 0) {
			return nil, false
		}
		rs := e.opaqueRes(s, at, fn, name, fn.Signature, args, nil)
		for _, c := range rs {
			e.forgetSession(c.st, at)
		}
		return rs, true
	}
	owed := func(s *State, at ssa.Instruction) {
		e.rule(s, at, "handshake", "answer", "an accepted request is not answered before the goroutine goes on", s.ghost["owed"] == "")
		if !buffered {
			e.rule(s, at, "handshake", "wait", "the answer to a request is not waited for, the goroutine that gives it is stuck", s.ghost["sent"] == "")
		}
	}
	e.hook = func(e *Eng, s *State, ev *Event) []*State {
		switch ev.Kind {
		case "close":
			x.met("channel closes")
			for _, n := range l.names(ev) {
				ow := ownerOf(n)
				if n == "local" {
					continue
				}
				w := anyGhost(s, "won:"+ow+".")
				ok := w != "" || once && len(l.closes[n]) == 1
				e.rule(s, ev.At, "close once", n, "the channel "+n+" is closed without a guard against closing it again", ok)
				e.rule(s, ev.At, "close once", n+" twice", "the channel "+n+" is closed twice on one path", s.ghost["closed:"+n] == "")
				if w != "" && e.dry == 0 {
					x.met("guards closed by " + strings.TrimPrefix(w, "won:"))
				}
				s.setGhost("closed:"+n, "1")
			}
		case "send", "recv":
			ns := l.names(ev)
			blocking := true
			if sel, ok := ev.At.(*ssa.Select); ok && !sel.Blocking {
				blocking = false
			}
			for _, n := range ns {
				if ev.Kind == "send" && len(l.closes[n]) > 0 {
					own := false
					for _, c := range l.closes[n] {
						own = own || isGo && (c.Parent() == rt.fn || outermost(c.Parent()) == rt.fn)
					}
					e.rule(s, ev.At, "send on closed", n, "sends on "+n+", which is closed by another goroutine", own && s.ghost["closed:"+n] == "")
				}
			}
			if blocking {
				reply := len(ns) == 1 && ns[0] == "writeCtx.reply"
				e.rule(s, ev.At, "stopped", strings.Join(ns, ","), "waits again after it received from its stop channel: it never ends", anyGhost(s, "stopped:") == "")
				switch {
				case reply && ev.Kind == "send":
					e.rule(s, ev.At, "handshake", "one answer", "an answer is sent to which no request belongs", s.ghost["owed"] != "")
					s.setGhost("owed", "")
				case reply:
					e.rule(s, ev.At, "handshake", "request", "waits for the answer to a request that was not sent", s.ghost["sent"] != "")
					s.setGhost("sent", "")
				default:
					owed(s, ev.At)
				}
			}
			for _, n := range ns {
				if n == "RemoteSvr.writeChan" {
					if ev.Kind == "send" {
						s.setGhost("sent", "1")
						continue
					}
					// a request was accepted unless the channel was closed
					t := s
					if ok, has := e.commaOk(s, ev); has {
						u := s.fork().assume(ok, false)
						t = s.assume(ok, true)
						if t != nil {
							t.setGhost("owed", "1")
						}
						var out []*State
						for _, c := range []*State{t, u} {
							if c != nil {
								out = append(out, c)
							}
						}
						return out
					}
					t.setGhost("owed", "1")
				}
			}
			for _, n := range ns {
				if ev.Kind == "recv" && len(l.closes[n]) > 0 && chanStruct(ev) && !l.endedBy(n) {
					s.setGhost("stopped:"+n, "1")
				}
			}
		case "call":
			switch {
			case ev.Name == "(*sync.WaitGroup).Add":
				e.rule(s, ev.At, "wait group", "Add", "a goroutine adds itself to the wait group: Wait can return before it started", !isGo || !mine[fieldName(ev.Args[0])])
				s.setGhost("add", "1")
			case ev.Name == "(*sync.WaitGroup).Done" && isGo && mine[fieldName(ev.Args[0])]:
				e.rule(s, ev.At, "wait group", "Done twice", "Done is called twice", s.ghost["done"] == "")
				s.setGhost("done", "1")
			case ev.Name == "(*sync.WaitGroup).Wait" && closeM:
				c := anyGhost(s, "closed:"+ownerOf(fieldName(ev.Args[0]))+".")
				e.rule(s, ev.At, "wait group", "Wait", "Close waits for a goroutine it has not told to stop", c != "")
				e.rule(s, ev.At, "wait group", "input", "Close waits for the reading goroutine before its input is closed", s.ghost["input"] != "")
			case ev.Name == "bufio.NewReader" && rt.fn.Name() == "ioloop" && len(ev.Args) > 0:
				if i, ok := ev.Args[0].(IfaceV); ok && recvName(rt.fn) == "Terminal" {
					x.mu.Lock()
					l.readerF = append(l.readerF, i.ID)
					x.mu.Unlock()
				}
			case strings.HasSuffix(ev.Name, ".Close") && ev.Fn == nil:
				if i, ok := ev.Recv.(IfaceV); ok {
					id, _, _ := strings.Cut(i.ID, "@")
					s.setGhost("input", "1")
					s.setGhost("call:"+id, "1")
				}
			case strings.HasSuffix(ev.Name, ".Close"):
				s.setGhost("call:"+fnName(ev.Fn), "1")
			}
		case "assert":
			if i, ok := ev.Recv.(IfaceV); ok && s.truth(ev.Val.(BoolV)) == 0 && fromField(i.ID, "stdin") {
				s.setGhost("closer", "no")
			}
		case "go":
			if f, ok := ev.Val.(FuncV); ok && f.Fn != nil && len(p.doneFields(f.Fn, map[*ssa.Function]bool{})) > 0 {
				e.rule(s, ev.At, "wait group", "go", "a goroutine that calls Done is started before Add", s.ghost["add"] != "")
			}
		case "ret":
			if out, ok := e.flagFork(s, ev, closeM); ok {
				return out
			}
		}
		return l.lockFlag(e, s, ev)
	}
	e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
		owed(s, at)
		if done {
			x.met("exits of a waited-for goroutine")
			e.rule(s, at, "wait group", "Done", "a goroutine ends without Done, Close waits forever", s.ghost["done"] != "")
		}
		now := map[string]bool{}
		for k := range s.ghost {
			if n, ok := strings.CutPrefix(k, "closed:"); ok && s.ghost[k] != "" {
				now[n] = true
			}
		}
		if closeM && s.ghost["lost"] != "" {
			return
		}
		if e.dry == 0 {
			x.mu.Lock()
			exits++
			if always == nil {
				always = now
			} else {
				for k := range always {
					if !now[k] {
						delete(always, k)
					}
				}
			}
			l.always[rt.name] = always
			x.mu.Unlock()
		}
		if closeM {
			l.closeExit(e, s, rt.fn, at)
		}
	}
}

// flagFork splits the state by whether an atomic operation found its flag clear and
// set it ("won:Type.field") or found it set ("lost").
func (e *Eng) flagFork(s *State, ev *Event, loads bool) ([]*State, bool) {
	if ev.Val == nil || len(ev.Args) == 0 || !strings.Contains(ev.Name, "sync/atomic") {
		return nil, false
	}
	fl := fieldName(ev.Args[0])
	cas, swap, load := strings.Contains(ev.Name, "CompareAndSwap"), strings.Contains(ev.Name, "Swap"), strings.Contains(ev.Name, "Load")
	if !swap && !(load && loads) {
		return nil, false
	}
	if cas && (len(ev.Args) != 3 || valEq(ev.Args[1], ev.Args[2])) {
		return nil, false
	}
	if swap && !cas {
		if a, ok := ev.Args[len(ev.Args)-1].(IntV); ok && a.L.IsConst() && a.L.K == 0 {
			return nil, false
		}
		if a, ok := ev.Args[len(ev.Args)-1].(BoolV); ok && s.truth(a) != 1 {
			return nil, false
		}
	}
	var set BoolV // the flag was found set
	switch v := ev.Val.(type) {
	case IntV:
		set = e.equalVals(s, nil, v, IntV{L: linK(0)}).not()
	case BoolV:
		set = v
		if cas {
			set = v.not()
		}
	default:
		return nil, false
	}
	var out []*State
	if t := s.fork().assume(set, true); t != nil {
		t.setGhost("lost", "1")
		out = append(out, t)
	}
	if t := s.assume(set, false); t != nil {
		if swap {
			t.setGhost("won:"+fl, "1")
		}
		out = append(out, t)
	}
	return out, true
}

// lockFlag recognises a flag that is tested and set under a lock of its object.
func (l *life) lockFlag(e *Eng, s *State, ev *Event) []*State {
	switch {
	case ev.Kind == "ret" && strings.HasSuffix(ev.Name, "Mutex).Lock") && len(ev.Args) > 0:
		s.setGhost("lk:"+ownerOf(fieldName(ev.Args[0])), "1")
	case ev.Kind == "call" && strings.HasSuffix(ev.Name, "Mutex).Unlock") && len(ev.Args) > 0:
		ow := ownerOf(fieldName(ev.Args[0]))
		s.setGhost("lk:"+ow, "")
		for k := range s.ghost {
			if strings.HasPrefix(k, "ld:"+ow+".") && s.ghost[k] != "" {
				s.setGhost(k, "")
			}
		}
	case ev.Kind == "load" && ev.Cell.o != nil && ev.Cell.o.Typ != nil:
		f := typeName(ev.Cell.o.Typ) + ev.Cell.path
		if s.ghost["lk:"+ownerOf(f)] == "" {
			return nil
		}
		if b, ok := ev.Val.(BoolV); ok {
			t := s.fork().assume(b, true)
			u := s.assume(b, false)
			var out []*State
			if t != nil {
				t.setGhost("lost", "1")
				out = append(out, t)
			}
			if u != nil {
				u.setGhost("ld:"+f, "0")
				out = append(out, u)
			}
			return out
		}
	case ev.Kind == "store" && ev.Cell.o != nil && ev.Cell.o.Typ != nil:
		f := typeName(ev.Cell.o.Typ) + ev.Cell.path
		if b, ok := ev.Val.(BoolV); ok && s.ghost["ld:"+f] == "0" && s.truth(b) == 1 {
			s.setGhost("won:"+f, "1")
		}
	}
	return nil
}

// commaOk is the second result of a receive.
func (e *Eng) commaOk(s *State, ev *Event) (b BoolV, ok bool) {
	switch in := ev.At.(type) {
	case *ssa.Select:
	case *ssa.UnOp:
		if !in.CommaOk {
			return b, false
		}
	default:
		return b, false
	}
	if t, is := e.get(s, ev.At.(ssa.Value)).(TupleV); is && len(t) > 1 {
		b, ok = t[1].(BoolV)
	}
	return b, ok
}

// endedBy: n is closed by the goroutine that sends on it, a receive sees its end.
func (l *life) endedBy(n string) bool {
	for _, c := range l.closes[n] {
		for _, f := range l.p.goBodies() {
			if outermost(c.Parent()) == f {
				return true
			}
		}
	}
	return false
}

func chanStruct(ev *Event) bool { return true }

func outermost(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// doneFields: the wait groups kept in fields on which f calls Done, itself or
// through functions that are not exported.
func (p *Program) doneFields(f *ssa.Function, seen map[*ssa.Function]bool) map[string]bool {
	out := map[string]bool{}
	if seen[f] || f.Blocks == nil {
		return out
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Go); ok {
				continue
			}
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if calleeName(c.Common()) == "(*sync.WaitGroup).Done" {
				if fa, ok := c.Common().Args[0].(*ssa.FieldAddr); ok {
					ow, n := fieldOf(fa.X.Type(), fa.Field)
					out[ow+"."+n] = true
				}
			}
			g := c.Common().StaticCallee()
			if g != nil && g.Pkg == p.Main && (g.Object() == nil || !g.Object().Exported()) {
				for k := range p.doneFields(g, seen) {
					out[k] = true
				}
			}
		}
	}
	return out
}

// addedBy: f is started by functions that add it to a wait group.
func (p *Program) addedBy(f *ssa.Function) bool {
	n, all := 0, true
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				callee := c.Call.StaticCallee()
				if callee == f {
					n++
					all = all && addsField(g)
				}
			}
		}
	}
	return n > 0 && all
}

func addsField(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && calleeName(c.Common()) == "(*sync.WaitGroup).Add" {
				if _, ok := c.Common().Args[0].(*ssa.FieldAddr); ok {
					return true
				}
			}
		}
	}
	return false
}

func callsDirect(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && calleeName(c.Common()) == name {
				return true
			}
		}
	}
	return false
}

// bufferedField: every channel stored in the field has room for a value.
func (p *Program) bufferedField(typ, field string) bool {
	n := 0
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if ow, nm := fieldOf(fa.X.Type(), fa.Field); ow != typ || nm != field {
					continue
				}
				mc, ok := st.Val.(*ssa.MakeChan)
				if !ok {
					return false
				}
				c, ok := mc.Size.(*ssa.Const)
				if !ok || isZeroConst(c) {
					return false
				}
				n++
			}
		}
	}
	return n > 0
}

// closeExit: what a first call of a Close method must have done.
func (l *life) closeExit(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction) {
	l.x.met("exits of Close")
	called := func(what string) bool {
		for k, v := range s.ghost {
			if v != "" && strings.HasPrefix(k, "call:") && strings.HasSuffix(k, what) {
				return true
			}
		}
		return false
	}
	switch recvName(fn) {
	case "Terminal":
		e.rule(s, at, "Close", "stop channel", "Close does not tell the reading goroutine to stop", s.ghost["closed:Terminal.stopChan"] != "")
		e.rule(s, at, "Close", "input", "Close does not close the input", s.ghost["input"] != "")
		if e.dry == 0 {
			l.x.mu.Lock()
			for k, v := range s.ghost {
				if v != "" && strings.HasPrefix(k, "call:") {
					l.closed[k] = true
				}
			}
			l.x.mu.Unlock()
		}
	case "CancelableStdin":
		e.rule(s, at, "Close", "stop channel", "Close does not release the pending read", s.ghost["closed:CancelableStdin.stop"] != "")
	case "RemoteSvr":
		e.rule(s, at, "Close", "stop channel", "Close does not release pending reads and writes", s.ghost["closed:RemoteSvr.stopChan"] != "")
		e.rule(s, at, "Close", "connection", "Close does not close the connection, the reading goroutine is stuck", called(".conn"))
	case "FillableStdin":
		e.rule(s, at, "Close", "pipe", "Close does not close the pipe of the pre-filled input", called(".stdinBuffer"))
		if s.ghost["closer"] != "no" {
			e.rule(s, at, "Close", "wrapped", "Close does not close the input it wraps", called(".stdin"))
		}
	case "Instance":
		e.rule(s, at, "Close", "Terminal", "Close does not close the terminal", called("(*Terminal).Close"))
		e.rule(s, at, "Close", "Operation", "Close does not close the operation", called("(*Operation).Close"))
	}
}

// inputs: Close closes the input the reading goroutine reads from.
func (l *life) inputs(r *Report) {
	if len(l.readerF) == 0 {
		r.errf("the reader of Terminal.ioloop was not found")
		return
	}
	p := l.p
	for _, id := range l.readerF {
		id, _, _ := strings.Cut(id, "@")
		r.Obligations++
		_, f, _ := strings.Cut(id, ".")
		switch {
		case !strings.HasPrefix(id, "Terminal.") || strings.Contains(f, "."):
			r.add("Close", "(*Terminal).ioloop", "input", p.pos(p.method("Terminal", "ioloop").Pos()), "the goroutine reads from "+id+", which can be replaced: Close cannot interrupt the read and waits for it forever", nil)
		case !l.closed["call:"+id]:
			r.add("Close", "(*Terminal).Close", "reader", p.pos(p.method("Terminal", "Close").Pos()), "Close does not close "+id+", which the goroutine it waits for reads from", nil)
		case !p.fixedFields()["Terminal."+f]:
			r.add("Close", "(*Terminal).ioloop", "input", p.pos(p.method("Terminal", "ioloop").Pos()), id+", which the goroutine reads from, is replaced outside the constructor", nil)
		default:
			r.Discharged++
			r.sample("Terminal.Close closes %s", id)
		}
	}
}
