package main

// C10: the history never outgrows its limit.  C11: how the history file is
// written.  C12: lines are recorded before they are delivered.

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C10"] = checkC10
	checks["C11"] = checkC11
}

// ---------------------------------------------------------------------------
// C10

func checkC10(r *Report) {
	p := load(r, "linux")
	r.Rules = append(r.Rules,
		"inductive: if the list holds at most max(limit,0)+1 elements before an opHistory method it holds at most that many after it (checked for limit >= 0 and limit < 0 separately); saving a line leaves at most max(limit,0) entries besides the one being edited",
		"elements are removed only from the front of the list and added only at its back")
	r.Assumes = append(r.Assumes, "the history file is loaded into a list within its limit", "container/list is modelled by the length of each list")
	for _, limit := range []string{"limit >= 0", "limit < 0"} {
		limit := limit
		x := newEvRun(r, p, "opHistory", "Config")
		x.setup = func(e *Eng, rt root) {
			e.maxStates, e.maxRets = 60, 60
			e.wideCands = true
			listOf := func(s *State) (Lin, Lin, bool) {
				o := e.obj("opHistory", nil)
				l, ok := e.peek(s, o, ".history").(PtrV)
				if !ok || l.Obj == nil {
					return Lin{}, Lin{}, false
				}
				n := e.listLen(s, l, nil)
				c, ok := e.peek(s, o, ".cfg").(PtrV)
				if !ok || c.Obj == nil {
					return n, Lin{}, false
				}
				lim, ok := e.peek(s, c.Obj, ".HistoryLimit").(IntV)
				if !ok {
					return n, Lin{}, false
				}
				return n, lim.L, true
			}
			load := rt.fn.Name() != "New" && rt.fn.Name() != "Update" && rt.fn.Name() != "Compact"
			e.argPre = func(e *Eng, s *State, fn *ssa.Function, args []Val) {
				o, _ := dynObj(args[0])
				if o == nil || typeName(o.Typ) != "opHistory" {
					return
				}
				c, _ := e.peek(s, o, ".cfg").(PtrV)
				s.assume(e.nilTest(s, c, nil), false)
				l, _ := e.peek(s, o, ".history").(PtrV)
				s.assume(e.nilTest(s, l, nil), false)
				n, lim, ok := listOf(s)
				if !ok {
					return
				}
				extra := int64(1)
				if load {
					extra = 0
				}
				if limit == "limit >= 0" {
					s.addCon(lim)
					s.addCon(lim.AddK(extra).Sub(n))
				} else {
					s.addCon(lim.Neg().AddK(-1))
					s.addCon(linK(extra).Sub(n))
				}
			}
			within := func(s *State, extra int64) bool {
				n, lim, ok := listOf(s)
				if !ok {
					return false
				}
				if limit == "limit >= 0" {
					return s.proves(lim.AddK(extra).Sub(n))
				}
				return s.proves(linK(extra).Sub(n))
			}
			e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
				x.met("exits checked")
				e.rule(s, at, "bound", limit, fmt.Sprintf("after %s the history may hold more than the limit plus the entry being edited (%s)", fnName(fn), limit), within(s, 1))
				if fn.Name() == "Update" || fn.Name() == "Compact" {
					saved := fn.Name() == "Compact"
					if fn.Name() == "Update" {
						cur, _ := args[2].(BoolV)
						saved = s.truth(cur) == 1
					}
					if saved {
						e.rule(s, at, "bound", limit+" saved", fmt.Sprintf("after %s the history may hold more entries than the limit (%s)", fnName(fn), limit), within(s, 0))
					}
				}
			}
			e.hook = func(e *Eng, s *State, ev *Event) []*State {
				if !strings.HasPrefix(ev.Name, "(*container/list.List).") {
					return nil
				}
				name := shortName(ev.Name)
				switch {
				case ev.Kind == "ret" && (name == "Front" || name == "Back"):
					// remember where an element came from
					s.setGhost("elem", name+" "+objName(ev.Val)+" of "+objName(ev.Args[0]))
				case ev.Kind == "call" && name == "Remove":
					x.met("removals")
					want := "Front " + objName(ev.Args[1]) + " of " + objName(ev.Args[0])
					e.rule(s, ev.At, "order", "Remove", "an entry is removed that is not the oldest", s.ghost["elem"] == want)
					s.setGhost("elem", "")
				case ev.Kind == "call" && name == "PushBack":
					x.met("insertions")
				case ev.Kind == "call" && (name == "PushFront" || strings.HasPrefix(name, "Insert") || strings.HasPrefix(name, "Move") || strings.HasPrefix(name, "PushFrontList")):
					e.rule(s, ev.At, "order", name, "an entry is not added at the newest end", false)
				}
				return nil
			}
		}
		x.run(x.methods("opHistory", "New", "Update", "Init", "Reset", "Revert", "Prev", "Next")...)
	}
	r.floor("removals", 1)
	r.floor("insertions", 1)
	// lists change only inside opHistory
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := calleeName(c.Common())
				if !strings.HasPrefix(n, "(*container/list.List).") || strings.HasSuffix(n, "Len") || strings.HasSuffix(n, "Front") || strings.HasSuffix(n, "Back") && !strings.Contains(n, "Push") && !strings.Contains(n, "Move") {
					continue
				}
				r.Obligations++
				if recvName(f) == "opHistory" || reachedOnlyFrom(p, f, "opHistory") {
					r.Discharged++
					continue
				}
				r.add("owner", fnName(f), shortName(n), p.instrPos(in), "the history list is changed outside opHistory", nil)
			}
		}
	}
}

func reachedOnlyFrom(p *Program, f *ssa.Function, typ string) bool {
	n := p.callGraph().Nodes[f]
	if n == nil || len(n.In) == 0 {
		return false
	}
	for _, c := range n.In {
		if recvName(c.Caller.Func) != typ {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------------------
// C11

func checkC11(r *Report) {
	p := load(r, "linux")
	r.Rules = append(r.Rules,
		"every open of the history file has O_APPEND and lacks O_TRUNC; only a name built from the history path and a suffix is opened with O_TRUNC",
		"a rename goes from that temporary name to the configured history path, after every buffered write was flushed and every write error is known to be nil on this path, and after every list element was visited from Front to nil by Next and written with a newline",
		"opHistory.fd is replaced only by a file opened for appending or, after the rename succeeded, by the file written; it is closed only then or by Close; when the rename succeeded fd is the new file at return; when anything failed before it fd is the old one",
		"every write to the history file is one call whose text ends with a newline")
	r.Assumes = append(r.Assumes, "bufio.Writer reports any earlier write error at Flush", "os.Rename replaces atomically")
	if checkHistFile(r, p); r.Tier == "thorough" {
		checkHistFile(r, load(r, "windows"))
	}
	r.floor("renames", 1)
	r.floor("opens", 2)
	r.floor("writes to the history file", 2)
}

func checkHistFile(r *Report, p *Program) {
	x := newEvRun(r, p, "opHistory", "Config")
	entered := map[*ssa.Function]bool{}
	x.setup = func(e *Eng, rt root) {
		e.maxStates, e.maxRets = 120, 120
		var first Val
		hist := func(s *State) *Obj { return e.obj("opHistory", p.namedType("opHistory")) }
		e.argPre = func(e *Eng, s *State, fn *ssa.Function, args []Val) {
			o := hist(s)
			o.Single = true
			first = e.peek(s, o, ".fd")
			c, _ := e.peek(s, o, ".cfg").(PtrV)
			s.assume(e.nilTest(s, c, nil), false)
		}
		isTmp := func(v Val) bool {
			parts := e.flat(v)
			if len(parts) < 2 {
				return false
			}
			for _, q := range parts[1:] {
				if l, ok := litOf(q); ok && l != "" {
					return true
				}
			}
			return false
		}
		histPath := func(s *State) Val {
			c, _ := e.peek(s, hist(s), ".cfg").(PtrV)
			if c.Obj == nil {
				return nil
			}
			return e.peek(s, c.Obj, ".HistoryFile")
		}
		id := func(v Val) string {
			if s, ok := v.(StrV); ok {
				return e.strID(s)
			}
			return "?"
		}
		has := func(s *State, k string) bool { return s.ghost[k] != "" }
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			if f := ev.Fn; f != nil {
				x.mu.Lock()
				entered[ev.At.Parent()] = true
				x.mu.Unlock()
			}
			n := ev.Name
			switch ev.Kind {
			case "call":
				switch {
				case n == "os.OpenFile":
					x.met("opens")
					fl, ok := ev.Args[1].(IntV)
					if !ok || !fl.L.IsConst() {
						e.rule(s, ev.At, "open", "flags", "cannot tell the flags of this open", false)
						return nil
					}
					k := int(fl.L.K)
					switch {
					case k&os.O_TRUNC != 0:
						e.rule(s, ev.At, "open", "truncating open", "a file is truncated that is not the temporary copy of the history", isTmp(ev.Args[0]))
					case k&(os.O_WRONLY|os.O_RDWR) != 0 && !isTmp(ev.Args[0]):
						e.rule(s, ev.At, "open", "append", "the history file is opened for writing without O_APPEND", k&os.O_APPEND != 0)
					}
				case n == "os.Create" || n == "os.WriteFile" || n == "io/ioutil.WriteFile" || n == "os.Truncate":
					e.rule(s, ev.At, "open", n, n+" truncates a file that is not the temporary copy of the history", isTmp(ev.Args[0]) && n == "os.Create")
				case n == "(*os.File).Truncate" || n == "(*os.File).WriteAt":
					e.rule(s, ev.At, "open", n, "the history file is rewritten in place", false)
				case n == "os.Remove" || n == "os.RemoveAll":
					e.rule(s, ev.At, "open", n, "a file is removed that is not the temporary copy of the history", isTmp(ev.Args[0]))
				case n == "os.Rename":
					x.met("renames")
					e.rule(s, ev.At, "rename", "source", "what is renamed is not the temporary file just written", has(s, "tmp") && id(ev.Args[0]) == s.ghost["tmppath"])
					e.rule(s, ev.At, "rename", "target", "the rename target is not the configured history file", id(ev.Args[1]) == id(histPath(s)))
					e.rule(s, ev.At, "rename", "flush", "data may still be buffered when the file is renamed", !has(s, "dirty"))
					okw := true
					for k := range s.ghost {
						if strings.HasPrefix(k, "werr ") && e.symState(s, strings.TrimPrefix(k, "werr ")) != 1 {
							okw = false
						}
					}
					e.rule(s, ev.At, "rename", "write errors", "the file is renamed although a write may have failed", okw)
					e.rule(s, ev.At, "rename", "all entries", "the file is renamed before every entry was written", has(s, "visited") && !has(s, "unwritten") && (e.symState(s, s.ghost["elem"]) == 1 || s.ghost["elem"] == "nil"))
				case strings.HasPrefix(n, "(*os.File).Write"):
					o := objName(ev.Args[0])
					if o == s.ghost["tmp"] && o != "" {
						s.setGhost("unwritten", "")
						return nil
					}
					x.met("writes to the history file")
					parts := e.flat(ev.Args[1])
					l, ok := litOf(parts[len(parts)-1])
					e.rule(s, ev.At, "append", "newline", "an entry is written to the history file without a newline at its end", ok && strings.HasSuffix(l, "\n"))
					if len(parts) > 1 {
						_, isLit := litOf(parts[0])
						e.rule(s, ev.At, "append", "text", "the entry written is not the saved line followed by a newline", len(parts) == 2 && !isLit && l == "\n")
					}
				case strings.HasPrefix(n, "(*bufio.Writer).Write"):
					if objName(ev.Args[0]) == s.ghost["buf"] && has(s, "buf") {
						s.setGhost("dirty", "1")
						parts := e.flat(ev.Args[1])
						if l, ok := litOf(parts[len(parts)-1]); ok && strings.HasSuffix(l, "\n") {
							s.setGhost("unwritten", "")
						}
						x.met("writes to the temporary file")
					}
				case n == "(*os.File).Close":
					o := objName(ev.Args[0])
					if o == "" || isDebug(ev.At.Parent()) {
						return nil
					}
					if o == s.ghost["tmp"] {
						s.setGhost("closed "+o, "1")
						return nil
					}
					inClose := false
					for f := range e.stackFns(s) {
						if strings.HasSuffix(f, ".Close") {
							inClose = true
						}
					}
					e.rule(s, ev.At, "close", "old file", "the history file in use is closed although it was not replaced", inClose || e.symState(s, s.ghost["ren"]) == 1)
					s.setGhost("closed "+o, "1")
				case n == "(*container/list.Element).Next":
					e.rule(s, ev.At, "rename", "entry skipped", "an entry is passed over without being written", !has(s, "unwritten"))
				}
			case "ret":
				switch {
				case n == "os.OpenFile" || n == "os.Create":
					tv, ok := ev.Val.(TupleV)
					if !ok {
						return nil
					}
					trunc := n == "os.Create"
					if len(ev.Args) > 1 {
						if fl, ok := ev.Args[1].(IntV); ok && fl.L.IsConst() {
							trunc = int(fl.L.K)&(os.O_TRUNC|os.O_EXCL) != 0
						}
					}
					if isTmp(ev.Args[0]) {
						if trunc {
							s.setGhost("tmp", objName(tv[0]))
							s.setGhost("tmppath", id(ev.Args[0]))
						}
					} else {
						s.setGhost("app "+objName(tv[0]), "1")
					}
				case strings.HasPrefix(n, "bufio.NewWriter"):
					if objName(ev.Args[0]) == s.ghost["tmp"] && has(s, "tmp") {
						s.setGhost("buf", objName(ev.Val))
					}
				case n == "(*bufio.Writer).Flush":
					if objName(ev.Args[0]) == s.ghost["buf"] && has(s, "buf") {
						s.setGhost("dirty", "")
						s.setGhost("werr "+errSym(ev.Val), "1")
					}
				case strings.HasPrefix(n, "(*os.File).Write") && objName(ev.Args[0]) == s.ghost["tmp"] && has(s, "tmp"),
					n == "(*os.File).Sync" && objName(ev.Args[0]) == s.ghost["tmp"] && has(s, "tmp"):
					s.setGhost("werr "+errSym(lastRes(ev.Val)), "1")
				case n == "os.Rename":
					s.setGhost("ren", errSym(ev.Val))
				case (n == "(*container/list.List).Front" || n == "(*container/list.Element).Next") && has(s, "tmp"):
					if n == "(*container/list.List).Front" {
						s.setGhost("visited", "1")
					}
					pv, ok := ev.Val.(PtrV)
					if !ok {
						return nil
					}
					switch s.truth(e.nilTest(s, pv, nil)) {
					case 1:
						s.setGhost("elem", "nil")
						return nil
					case 0:
						s.setGhost("elem", "")
						s.setGhost("unwritten", "1")
						return nil
					}
					t := s.fork()
					var out []*State
					if t = t.assume(e.nilTest(t, pv, nil), true); t != nil {
						t.setGhost("elem", "nil")
						t.setGhost("unwritten", "")
						out = append(out, t)
					}
					if u := s.assume(e.nilTest(s, pv, nil), false); u != nil {
						u.setGhost("elem", "")
						u.setGhost("unwritten", "1")
						out = append(out, u)
					}
					return out
				case n == "(*container/list.List).Back" || n == "(*container/list.Element).Prev":
				}
			case "store":
				if ev.Cell.o != hist(s) || ev.Cell.path != ".fd" {
					return nil
				}
				o := objName(ev.Val)
				x.met("stores to opHistory.fd")
				ok := has(s, "app "+o) || o == s.ghost["tmp"] && has(s, "tmp") && e.symState(s, s.ghost["ren"]) == 1
				e.rule(s, ev.At, "swap", "opHistory.fd", "the descriptor in use is replaced by something else than the reopened or the freshly renamed file", ok && !has(s, "closed "+o))
			}
			return nil
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			now := e.peek(s, hist(s), ".fd")
			x.met("exits checked")
			if has(s, "ren") && e.symState(s, s.ghost["ren"]) == 1 {
				e.rule(s, at, "swap", "after the rename", "the file was replaced but later lines do not go to the new one", objName(now) == s.ghost["tmp"] && !has(s, "closed "+objName(now)))
				return
			}
			if has(s, "ren") && e.symState(s, s.ghost["ren"]) < 0 {
				e.rule(s, at, "swap", "rename result", "the result of the rename is ignored", false)
				return
			}
			e.rule(s, at, "swap", "without a rename", "the descriptor in use changed although nothing was replaced", objName(now) == objName(first) || has(s, "app "+objName(now)))
		}
	}
	var roots []root
	for _, f := range p.methodsOf("opHistory", false) {
		if f.Name() == "historyUpdatePath" || f.Name() == "initHistory" {
			continue // entered through Init with the configured path
		}
		roots = append(roots, root{f, fnName(f)})
	}
	x.run(roots...)
	// nothing else in the session touches files destructively
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				switch n := calleeName(c.Common()); n {
				case "os.Create", "os.Truncate", "os.WriteFile", "os.Rename", "os.Remove", "os.RemoveAll", "(*os.File).Truncate", "(*os.File).WriteAt", "os.OpenFile":
					r.Obligations++
					if entered[f] || f.Name() == "Debug" || isDebug(f) {
						r.Discharged++
						continue
					}
					r.add("open", fnName(f), n, p.instrPos(in), "a file is opened for writing, truncated, renamed or removed outside the history code", nil)
				}
			}
		}
	}
	_ = types.Typ
}

// isDebug: the debug log.
func isDebug(f *ssa.Function) bool {
	return strings.HasPrefix(f.Name(), "Debug") || strings.HasPrefix(f.Name(), "sleep") || strings.HasPrefix(f.Name(), "init")
}
