package main

// C01: raw mode is entered and left in pairs.  C02: what raw mode changes.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = checkC01
	checks["C02"] = checkC02
}

// fieldCall: c calls the function value stored in field typ.name.
func fieldCall(c *ssa.CallCommon, typ string, names ...string) bool {
	if c.IsInvoke() || c.StaticCallee() != nil {
		return false
	}
	v := c.Value
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.UnOp:
			fa, ok := x.X.(*ssa.FieldAddr)
			if !ok {
				return false
			}
			ow, n := fieldOf(fa.X.Type(), fa.Field)
			return ow == typ && contains(names, n)
		case *ssa.Field:
			ow, n := fieldOf(x.X.Type(), x.Field)
			return ow == typ && contains(names, n)
		}
		return false
	}
}

func hasCall(f *ssa.Function, want func(c *ssa.CallCommon) bool) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && want(c.Common()) {
				return true
			}
		}
	}
	return false
}

// mustCall: every path of f to its end makes a wanted call, itself or through a
// function that must make it.
func (p *Program) mustCall(f *ssa.Function, want func(c *ssa.CallCommon) bool, seen map[*ssa.Function]bool) bool {
	if f == nil || f.Blocks == nil || seen[f] {
		return false
	}
	seen[f] = true
	defer delete(seen, f)
	has := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, ok := in.(*ssa.Go); ok {
				continue
			}
			if want(c.Common()) || p.mustCall(c.Common().StaticCallee(), want, seen) || p.mustCall(closureOf(c.Common().Value), want, seen) {
				has[b] = true
			}
		}
	}
	// a block is bad when the end can be reached from it without a wanted call
	vis := map[*ssa.BasicBlock]bool{}
	var escapes func(b *ssa.BasicBlock) bool
	escapes = func(b *ssa.BasicBlock) bool {
		if has[b] || vis[b] {
			return false
		}
		vis[b] = true
		if len(b.Succs) == 0 {
			_, isPanic := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
			return !isPanic
		}
		for _, s := range b.Succs {
			if escapes(s) {
				return true
			}
		}
		return false
	}
	return !escapes(f.Blocks[0])
}

func closureOf(v ssa.Value) *ssa.Function {
	if mc, ok := v.(*ssa.MakeClosure); ok {
		if f, ok := mc.Fn.(*ssa.Function); ok {
			return f
		}
	}
	return nil
}

// pendingCall: some frame has a deferred call that must make a wanted call.
func (e *Eng) pendingCall(s *State, want func(c *ssa.CallCommon) bool) bool {
	for fr := s.fr; fr != nil; fr = fr.parent {
		for _, d := range fr.defers {
			if d.at != nil && want(d.at.Common()) {
				return true
			}
			if f, ok := d.fn.(FuncV); ok && f.Fn != nil && e.p.mustCall(f.Fn, want, map[*ssa.Function]bool{}) {
				return true
			}
		}
	}
	return false
}

func isExitHook(c *ssa.CallCommon) bool  { return fieldCall(c, "Config", "FuncExitRaw") }
func isEnterHook(c *ssa.CallCommon) bool { return fieldCall(c, "Config", "FuncMakeRaw") }

func isRawExit(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	return f != nil && isMethod(f, "RawMode", "Exit")
}

// recvsOn: f waits for a value of the field.
func recvsOn(p *Program, f *ssa.Function, field string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if o := blockingOp(in); o != nil {
				for _, c := range o.recvs {
					if contains(p.chanOf(c), field) {
						return true
					}
				}
			}
		}
	}
	return false
}

func checkC01(r *Report) {
	r.Rules = append(r.Rules,
		"reads: on every path of every function that waits for a line, FuncMakeRaw was called before the wait and not undone; whenever user code is called in raw mode a deferred FuncExitRaw is pending; at every exit FuncExitRaw was called after the last FuncMakeRaw",
		"suspend: FuncExitRaw and WaitForResume before SuspendMe, then the receive of the resume, then FuncMakeRaw, on every path; the guard against nested suspension is cleared",
		"Terminal.Close: the first call ends with FuncExitRaw on every path",
		"ServeBy: RawMode.Enter only with a deferred RawMode.Exit pending")
	r.Assumes = append(r.Assumes, "the raw mode hooks of the configuration do not panic", "the terminal's configuration is not replaced during a read")
	p := load(r, "linux")
	user := p.staticReach(func(f *ssa.Function) bool {
		return hasCall(f, func(c *ssa.CallCommon) bool {
			if c.IsInvoke() {
				return true
			}
			if _, ok := c.Value.(*ssa.Builtin); ok || c.StaticCallee() != nil {
				return false
			}
			return true
		})
	})
	keep := p.staticReach(func(f *ssa.Function) bool {
		return recvsOn(p, f, "Operation.outchan") || hasCall(f, func(c *ssa.CallCommon) bool {
			return isExitHook(c) || isEnterHook(c) || isRawExit(c) || c.StaticCallee() != nil && (isMethod(c.StaticCallee(), "RawMode", "Enter") || c.StaticCallee().Name() == "SuspendMe" || c.StaticCallee().Name() == "WaitForResume")
		})
	})
	exported := func(f *ssa.Function) bool {
		return f.Pkg == p.Main && f.Parent() == nil && f.Synthetic == "" && f.Object() != nil && f.Object().Exported()
	}
	var inside func(f *ssa.Function, want func(*ssa.Function) bool, seen map[*ssa.Function]bool) bool
	inside = func(f *ssa.Function, want func(*ssa.Function) bool, seen map[*ssa.Function]bool) bool {
		seen[f] = true
		if want(f) {
			return true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					continue
				}
				var ops [12]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if g, ok := (*op).(*ssa.Function); ok && g.Pkg == p.Main && !seen[g] && !exported(g) && inside(g, want, seen) {
						return true
					}
				}
			}
		}
		return false
	}
	kinds := map[*ssa.Function]string{}
	var roots []root
	add := func(f *ssa.Function, kind string) {
		if kinds[f] == "" {
			kinds[f] = kind
			roots = append(roots, root{f, fnName(f)})
		}
	}
	for _, f := range p.Funcs {
		if !exported(f) {
			continue
		}
		switch {
		case inside(f, func(f *ssa.Function) bool { return recvsOn(p, f, "Operation.outchan") }, map[*ssa.Function]bool{}):
			add(f, "read")
		case inside(f, func(f *ssa.Function) bool {
			return hasCall(f, func(c *ssa.CallCommon) bool { return c.StaticCallee() != nil && c.StaticCallee().Name() == "SuspendMe" })
		}, map[*ssa.Function]bool{}):
			add(f, "suspend")
		case isMethod(f, "Terminal", "Close"):
			add(f, "close")
		case inside(f, func(f *ssa.Function) bool {
			return hasCall(f, func(c *ssa.CallCommon) bool {
				return c.StaticCallee() != nil && isMethod(c.StaticCallee(), "RawMode", "Enter")
			})
		}, map[*ssa.Function]bool{}):
			add(f, "serve")
		}
	}
	// a function that suspends and is called from elsewhere only
	x := newEvRun(r, p, sessionSingles...)
	x.setup = func(e *Eng, rt root) {
		kind := kinds[rt.fn]
		e.maxStates, e.maxRets = 100, 60
		e.pre = func(e *Eng, s *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool) {
			if fn == nil || !p.inModule(fn) || fn.Blocks == nil || keep[fn] && !isMethod(fn, "RawMode") && fn.Name() != "SuspendMe" && fn.Name() != "WaitForResume" || fn.Parent() != nil || pureSmall(fn, 0) {
				return nil, false
			}
			rs := e.opaqueRes(s, at, fn, name, fn.Signature, args, nil)
			for _, c := range rs {
				e.forgetSession(c.st, at)
			}
			return rs, true
		}
		sawWon := false
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			dyn := ev.Fn == nil
			switch ev.Kind {
			case "call":
				switch {
				case dyn && strings.HasSuffix(ev.Name, "FuncExitRaw"):
					x.met("raw mode left")
					s.setGhost("raw", "")
					s.setGhost("left", "1")
					s.setGhost("resumed", "")
				case dyn && strings.HasSuffix(ev.Name, "FuncMakeRaw"):
				case isMethod(ev.Fn, "RawMode", "Enter") && kind == "serve":
					x.met("raw mode entered")
					e.rule(s, ev.At, "serve", "Enter", "raw mode is entered although no deferred call leaves it", e.pendingCall(s, isRawExit))
					s.setGhost("raw", "1")
				case isMethod(ev.Fn, "RawMode", "Exit"):
					s.setGhost("raw", "")
				case kind == "read" && s.ghost["raw"] != "" && (dyn && !strings.HasPrefix(ev.Name, "builtin") || ev.Fn != nil && user[ev.Fn] && p.inModule(ev.Fn) && !keep[ev.Fn]):
					x.met("calls of user code in raw mode")
					e.rule(s, ev.At, "panic", shortName(ev.Name), "user code is called in raw mode while no deferred call would leave it if it panics", e.pendingCall(s, isExitHook))
				case ev.Fn != nil && ev.Fn.Name() == "WaitForResume":
					s.setGhost("waiting", "1")
				case ev.Fn != nil && ev.Fn.Name() == "SuspendMe":
					x.met("suspensions")
					e.rule(s, ev.At, "suspend", "raw", "the process is suspended while the terminal is in raw mode", s.ghost["left"] != "" && s.ghost["raw"] == "")
					e.rule(s, ev.At, "suspend", "watch", "the process is suspended before the resume is watched for", s.ghost["waiting"] != "")
					s.setGhost("susp", "1")
				case strings.HasPrefix(ev.Name, "sync/atomic.") && strings.Contains(ev.Name, "Store") || strings.HasPrefix(ev.Name, "sync/atomic.Swap"):
					if len(ev.Args) == 2 {
						if v, ok := ev.Args[1].(IntV); ok && v.L.IsConst() && v.L.K == 0 {
							s.setGhost("cleared", "1")
						}
					}
				}
			case "ret":
				if dyn && strings.HasSuffix(ev.Name, "FuncMakeRaw") {
					x.met("raw mode entered")
					s.setGhost("raw", "1")
					s.setGhost("rawerr", errSym(ev.Val))
					if kind == "suspend" {
						e.rule(s, ev.At, "suspend", "enter", "raw mode is entered again before the process was resumed", s.ghost["susp"] == "" || s.ghost["resumed"] != "")
					}
				}
				if out, ok := e.flagFork(s, ev, false); ok {
					for _, t := range out {
						if anyGhost(t, "won:") != "" {
							sawWon = true
						}
					}
					return out
				}
			case "recv":
				if s.ghost["susp"] != "" {
					s.setGhost("resumed", "1")
				}
				if sel, ok := ev.At.(*ssa.Select); ok && !sel.Blocking {
					return nil
				}
				if kind == "read" && (isChan(ev, "outchan") || isChan(ev, "errchan") || isChan(ev, "eofChan")) {
					x.met("waits for a line")
					e.rule(s, ev.At, "read", "wait", "input is waited for outside raw mode", s.ghost["raw"] != "")
				}
			}
			return nil
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			x.met("exits")
			switch kind {
			case "read", "serve":
				e.rule(s, at, kind, "exit", fnName(rt.fn)+" returns in raw mode", s.ghost["raw"] == "" || e.symState(s, s.ghost["rawerr"]) == 0)
			case "close":
				e.rule(s, at, "close", "exit", "Close does not leave raw mode", s.ghost["lost"] != "" || s.ghost["left"] != "")
			case "suspend":
				if s.ghost["lost"] != "" {
					return
				}
				x.met("exits after a suspension")
				e.rule(s, at, "suspend", "resume", "after a suspension raw mode is not entered again", s.ghost["susp"] == "" || s.ghost["raw"] != "")
				e.rule(s, at, "suspend", "done", "SleepToResume returns without having suspended the process", s.ghost["susp"] != "")
				e.rule(s, at, "suspend", "guard", "the guard against nested suspension stays set, the next Ctrl-Z is ignored", !sawWon || s.ghost["cleared"] != "")
			}
		}
	}
	x.run(roots...)
	r.floor("waits for a line", 1)
	r.floor("suspensions", 1)
	r.floor("exits after a suspension", 1)
	r.floor("calls of user code in raw mode", 1)
	r.floor("raw mode left", 3)
	n := 0
	for _, k := range kinds {
		if k == "serve" || k == "close" {
			n++
		}
	}
	if n < 2 {
		r.errf("Terminal.Close or RemoteCli.ServeBy not found")
	}
}

// C02 ------------------------------------------------------------------------

// termConst is an integer constant of a package the module imports.
func (p *Program) termConst(pkg, name string) (int64, bool) {
	for _, q := range p.Prog.AllPackages() {
		if q.Pkg.Path() != pkg {
			continue
		}
		if c, ok := q.Pkg.Scope().Lookup(name).(*types.Const); ok {
			v := constant.ToInt(c.Val())
			if n, ok := constant.Int64Val(v); ok {
				return n, true
			}
			if n, ok := constant.Uint64Val(v); ok {
				return int64(n), true
			}
		}
	}
	return 0, false
}

// bitForm: v as (base &^ clr) | set.
func (e *Eng) bitForm(l Lin) (base string, clr, set int64) {
	if l.IsConst() {
		return "", -1, l.K
	}
	if len(l.T) == 1 && l.K == 0 && l.T[0].C == 1 {
		n := e.name(l.T[0].S)
		if strings.HasPrefix(n, "conv(") {
			// only between integers of the same size
			if k, ok := e.linByKey(strings.TrimPrefix(n[:strings.LastIndexByte(n, ',')], "conv(")); ok {
				return e.bitForm(k)
			}
		}
		if b, ok := e.bitOps[l.T[0].S]; ok {
			x, k := b.a, b.b
			if x.IsConst() && (b.op == token.AND || b.op == token.OR) {
				x, k = k, x
			}
			if k.IsConst() {
				base, clr, set = e.bitForm(x)
				switch b.op {
				case token.AND_NOT:
					return base, clr | k.K, set &^ k.K
				case token.AND:
					return base, clr | ^k.K, set & k.K
				case token.OR:
					return base, clr | k.K, set | k.K
				}
			}
		}
	}
	return l.Key(), 0, 0
}

func (e *Eng) linByKey(k string) (Lin, bool) {
	l, ok := e.numLin["bits "+k]
	return l, ok
}

// tcall is a call that reads or writes the terminal settings.
type tcall struct {
	get, set bool
	ptr      ssa.Value // the structure
	val      ssa.Value // windows: the value written
	fd       ssa.Value
}

// ttyCall recognises the system calls that read and write terminal settings.
func (p *Program) ttyCall(c *ssa.CallCommon, goos string) *tcall {
	f := c.StaticCallee()
	if f == nil || f.Pkg == nil && f.Object() == nil {
		return nil
	}
	n := extName(f)
	unptr := func(v ssa.Value) ssa.Value {
		for {
			x, ok := v.(*ssa.Convert)
			if !ok {
				return v
			}
			v = x.X
		}
	}
	if goos == "windows" {
		if !strings.HasPrefix(n, "syscall.Syscall") || len(c.Args) < 5 {
			return nil
		}
		switch p.procName(c.Args[0]) {
		case "GetConsoleMode":
			return &tcall{get: true, fd: c.Args[2], ptr: unptr(c.Args[3])}
		case "SetConsoleMode":
			return &tcall{set: true, fd: c.Args[2], val: unptr(c.Args[3])}
		}
		return nil
	}
	if strings.HasSuffix(n, "unix.IoctlGetTermios") {
		return &tcall{get: true, fd: c.Args[0]}
	}
	if strings.HasSuffix(n, "unix.IoctlSetTermios") {
		return &tcall{set: true, fd: c.Args[0], ptr: unptr(c.Args[2])}
	}
	if n != "syscall.Syscall6" && n != "syscall.Syscall" && n != "syscall.RawSyscall" && n != "syscall.RawSyscall6" {
		return nil
	}
	req, ok := c.Args[2].(*ssa.Const)
	if nr, is := c.Args[0].(*ssa.Const); !is || !ok {
		return nil
	} else if want, ok := p.termConst("syscall", "SYS_IOCTL"); !ok || ssaConstInt(nr) != want {
		return nil
	}
	k := ssaConstInt(req)
	is := func(names ...string) bool {
		for _, n := range names {
			if v, ok := p.termConst("syscall", n); ok && v == k {
				return true
			}
		}
		return false
	}
	switch {
	case is("TCGETS", "TIOCGETA"):
		return &tcall{get: true, fd: c.Args[1], ptr: unptr(c.Args[3])}
	case is("TCSETS", "TCSETSW", "TCSETSF", "TIOCSETA", "TIOCSETAW", "TIOCSETAF"):
		return &tcall{set: true, fd: c.Args[1], ptr: unptr(c.Args[3])}
	case k == 0x5402 || k == 0x5403 || k == 0x5404:
		return &tcall{set: true, fd: c.Args[1], ptr: unptr(c.Args[3])}
	}
	return nil
}

func ssaConstInt(c *ssa.Const) int64 {
	if c.Value == nil {
		return 0
	}
	v := constant.ToInt(c.Value)
	if n, ok := constant.Int64Val(v); ok {
		return n
	}
	n, _ := constant.Uint64Val(v)
	return int64(n)
}

// procName: the name of the library procedure whose address v is.
func (p *Program) procName(v ssa.Value) string {
	c, ok := v.(*ssa.Call)
	if !ok || len(c.Call.Args) != 1 {
		return ""
	}
	ld, ok := c.Call.Args[0].(*ssa.UnOp)
	if !ok {
		return ""
	}
	g, ok := ld.X.(*ssa.Global)
	if !ok {
		return ""
	}
	name, n := "", 0
	p.eachGlobalStore(func(h *ssa.Global, st *ssa.Store) {
		if h != g {
			return
		}
		n++
		if nc, ok := st.Val.(*ssa.Call); ok {
			for _, a := range nc.Call.Args {
				if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
					name = constant.StringVal(k.Value)
				}
			}
		}
	})
	if n != 1 {
		return ""
	}
	return name
}

func checkC02(r *Report) {
	r.Rules = append(r.Rules,
		"MakeRaw reads the settings, writes one modification of them and returns the unmodified ones; if the settings cannot be read nothing is written",
		"raw mode clears ECHO, ICANON, ISIG, IEXTEN, ICRNL, INLCR, IGNCR, IXON and at most what cfmakeraw clears, keeps output processing and every other field (windows: clears line, echo and processed input only)",
		"restoreTerm writes exactly the settings of the state it is given; RawMode.Exit restores what Enter saved",
		"ReadPassword reads input only with echo off, and its last write on every exit, a panic included, is the original settings",
		"the default raw mode hooks of a configuration are Enter and Exit of one RawMode")
	oss := []string{"linux", "windows", "darwin"}
	if r.Tier == "thorough" {
		oss = append(oss, "freebsd", "openbsd", "netbsd")
	}
	for _, goos := range oss {
		p := load(r, goos)
		if p == nil {
			continue
		}
		c02term(r, p, goos)
	}
	c02hooks(r, load(r, "linux"))
}

func c02term(r *Report, p *Program, goos string) {
	x := newEvRun(r, p, "RawMode")
	var roots []root
	for _, n := range []string{"MakeRaw", "GetState", "restoreTerm", "ReadPassword"} {
		f := p.fn(n)
		if f == nil {
			r.errf("anchor %s not found for %s", n, goos)
			continue
		}
		roots = append(roots, root{f, goos + " " + n})
	}
	x.setup = func(e *Eng, rt root) {
		name := rt.fn.Name()
		e.maxStates, e.maxRets = 200, 100
		fields := func(s *State, o *Obj, path string) map[string]string {
			out := map[string]string{}
			e.termFields(s, o, path, out)
			return out
		}
		same := func(a, b map[string]string) bool { return mapKey(a) == mapKey(b) }
		snaps := map[string]map[string]string{}
		var entry map[string]string
		var fd string
		sameFd := func(s *State, at ssa.Instruction, v ssa.Value) {
			i, ok := e.get(s, v).(IntV)
			e.rule(s, at, "fd", "fd", goos+": the call is made on another file descriptor than the one given", ok && fd != "" && e.stripConv(i.L) == fd)
		}
		e.argPre = func(e *Eng, s *State, fn *ssa.Function, args []Val) {
			if i, ok := args[0].(IntV); ok {
				fd = i.L.Key()
			}
			if name == "restoreTerm" {
				if o, pa := dynObj(args[1]); o != nil {
					entry = fields(s, o, pa)
				}
			}
		}
		e.pre = func(e *Eng, s *State, at ssa.Instruction, cname string, fn *ssa.Function, args []Val) ([]callRes, bool) {
			ci, ok := at.(ssa.CallInstruction)
			if !ok || fn == nil {
				return nil, false
			}
			if p.inModule(fn) {
				return nil, false
			}
			if strings.HasSuffix(cname, "syscall.Read") || cname == "syscall.Read" {
				x.met("password input read")
				sameFd(s, at, ci.Common().Args[0])
				e.rule(s, at, "password", "echo", goos+": the password is read with echo on", s.ghost["mode"] == "noecho")
				if s.ghost["mode"] != "" && s.ghost["mode"] != "orig" {
					e.rule(s, at, "password", "panic", goos+": no deferred call restores the settings", e.pendingCall(s, func(c *ssa.CallCommon) bool {
						t := p.ttyCall(c, goos)
						return t != nil && t.set
					}))
				}
				return nil, false
			}
			t := p.ttyCall(ci.Common(), goos)
			if t == nil {
				return nil, false
			}
			sameFd(s, at, t.fd)
			var ptr *Obj
			var path string
			if t.ptr != nil {
				ptr, path = dynObj(e.get(s, t.ptr))
			}
			// the call fails
			var out []callRes
			ft := s.fork()
			if s.ghost["mode"] != "" && t.set {
				ft.setGhost("failed", "1")
			}
			out = append(out, callRes{ft, e.sysRes(ft, at, fn, false)})
			if t.get {
				x.met("settings read")
				if ptr == nil {
					e.rule(s, at, "settings", "get", goos+": the structure the settings are read into is not known", false)
					return out, true
				}
				k := "settings"
				if s.ghost["mode"] != "" && s.ghost["mode"] != "orig" {
					k = "modified settings"
				}
				tp := ptr.Typ
				if path != "" {
					tp = fieldType(ptr.Typ, path)
				}
				e.store(s, ptr, path, tp, e.mat(s, tp, k), at)
				snap := fields(s, ptr, path)
				snaps[k] = snap
				if s.ghost["mode"] == "" {
					s.setGhost("mode", "orig")
				}
				out = append(out, callRes{s, e.sysRes(s, at, fn, true)})
				return out, true
			}
			x.met("settings written")
			var now map[string]string
			if t.val != nil {
				b, c, st := e.bitForm(e.intOf(s, e.get(s, t.val), at))
				now = map[string]string{"": fmt.Sprintf("%s clr %#x set %#x", b, uint32(c), uint32(st))}
			} else if ptr != nil {
				now = fields(s, ptr, path)
			}
			orig := snaps["settings"]
			switch name {
			case "restoreTerm":
				e.rule(s, at, "restore", "written", goos+": restoring writes other settings than the saved ones: "+diffMap(now, entry), entry != nil && same(now, stripRoot(entry)) || same(now, entry))
				s.setGhost("mode", "restored")
			default:
				if orig == nil {
					e.rule(s, at, "settings", "order", goos+": the settings are written before they were read", false)
					return out, true
				}
				switch {
				case same(now, orig):
					s.setGhost("mode", "orig")
				case name == "MakeRaw":
					e.rule(s, at, "raw", "once", goos+": the settings are changed twice", s.ghost["mode"] == "orig")
					for _, bad := range rawMask(p, goos, now, orig) {
						e.rule(s, at, "raw", bad, goos+": "+bad, false)
					}
					e.rule(s, at, "raw", "mask", "", true)
					s.setGhost("mode", "raw")
				case name == "ReadPassword":
					if echoOff(p, goos, now, orig) {
						s.setGhost("mode", "noecho")
					} else {
						s.setGhost("mode", "other")
					}
				default:
					e.rule(s, at, "settings", "write", goos+": "+name+" changes the settings", false)
				}
			}
			s.setGhost("wrote", "1")
			out = append(out, callRes{s, e.sysRes(s, at, fn, true)})
			return out, true
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			x.met("exits")
			es := -1
			if v != nil {
				es = e.errState(s, lastRes(v))
			}
			switch name {
			case "MakeRaw", "GetState":
				tv, _ := v.(TupleV)
				if len(tv) != 2 {
					return
				}
				o, pa := dynObj(tv[0])
				if es == 0 && (o == nil || e.isNil(s, tv[0])) {
					return // failed
				}
				if name == "MakeRaw" {
					e.rule(s, at, "raw", "set", goos+": MakeRaw reports success although raw mode was not set", s.ghost["mode"] == "raw" || es == 0)
				}
				if o == nil || s.ghost["mode"] == "" {
					e.rule(s, at, "state", "read", goos+": "+name+" reports success although the settings were not read", es == 0)
					return
				}
				got := fields(s, o, pa)
				x.met("states returned")
				e.rule(s, at, "state", "original", goos+": the state returned by "+name+" is not the settings before the change: "+diffMap(stripRoot(got), stripRoot(snaps["settings"])), mapKey(stripRoot(got)) == mapKey(stripRoot(snaps["settings"])))
			case "restoreTerm":
				e.rule(s, at, "restore", "success", goos+": restoring succeeds without writing the settings", s.ghost["mode"] == "restored" || es != 1)
			case "ReadPassword":
				e.rule(s, at, "password", "restored", goos+": the settings are not put back", s.ghost["mode"] == "orig" || s.ghost["mode"] == "" || s.ghost["failed"] != "")
			}
		}
	}
	x.run(roots...)
	r.floor("settings written", 1)
	r.floor("states returned", 1)
}

// sysRes: the results of a system call that worked or failed.
func (e *Eng) sysRes(s *State, at ssa.Instruction, fn *ssa.Function, ok bool) Val {
	rt := fn.Signature.Results()
	v := e.mat(s, resultType(fn.Signature), e.base(s, at, fmt.Sprint("sys", ok)))
	last := v
	tv, isT := v.(TupleV)
	if isT {
		last = tv[len(tv)-1]
	}
	_ = rt
	switch l := last.(type) {
	case IntV:
		if ok {
			last = IntV{}
		} else {
			s.addCon(l.L.AddK(-1))
		}
	case IfaceV:
		if ok {
			last = IfaceV{Null: true}
		} else {
			s.assume(e.nilTest(s, l, at), false)
		}
	}
	if isT {
		tv = append(TupleV{}, tv...)
		tv[len(tv)-1] = last
		return tv
	}
	return last
}

// termFields: the scalar fields below a path, in a canonical form.
func (e *Eng) termFields(s *State, o *Obj, path string, out map[string]string) {
	t := o.Typ
	if path != "" {
		t = fieldType(o.Typ, path)
	}
	if t == nil {
		return
	}
	var walk func(t types.Type, p string)
	walk = func(t types.Type, p string) {
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				walk(st.Field(i).Type(), p+"."+st.Field(i).Name())
			}
			return
		}
		v := e.load(s, o, path+p, t, nil)
		switch v := v.(type) {
		case IntV:
			b, c, st := e.bitForm(v.L)
			out[p] = fmt.Sprintf("%s clr %#x set %#x", b, uint32(c), uint32(st))
		case OpqV:
			out[p] = v.ID
		default:
			out[p] = fmt.Sprintf("%T", v)
		}
	}
	walk(t, "")
}

// stripRoot drops the name of the structure that wraps the settings.
func stripRoot(m map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range m {
		k = strings.TrimPrefix(k, ".termios")
		k = strings.TrimPrefix(k, ".mode")
		out[k] = v
	}
	return out
}

func mapKey(m map[string]string) string {
	var ks []string
	for k, v := range m {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func diffMap(a, b map[string]string) string {
	var out []string
	for k, v := range a {
		if b[k] != v {
			out = append(out, strings.TrimPrefix(k, "."))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, strings.TrimPrefix(k, "."))
		}
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

func parseBits(v string) (base string, clr, set int64, ok bool) {
	i := strings.LastIndex(v, " clr ")
	if i < 0 {
		return v, 0, 0, false
	}
	base = v[:i]
	_, err := fmt.Sscanf(v[i:], " clr 0x%x set 0x%x", &clr, &set)
	return base, clr, set, err == nil
}

// rawMask: what is wrong with the settings written for raw mode.
func rawMask(p *Program, goos string, now, orig map[string]string) (bad []string) {
	k := func(names ...string) (m int64) {
		for _, n := range names {
			v, ok := p.termConst("syscall", n)
			if ok {
				m |= v
			}
		}
		return m & 0xffffffff
	}
	now, orig = stripRoot(now), stripRoot(orig)
	type rule struct{ must, may, set int64 }
	rules := map[string]rule{
		".Lflag": {k("ECHO", "ICANON", "ISIG", "IEXTEN"), k("ECHO", "ECHONL", "ECHOE", "ECHOK", "ICANON", "ISIG", "IEXTEN"), 0},
		".Iflag": {k("ICRNL", "INLCR", "IGNCR", "IXON"), k("IGNBRK", "BRKINT", "PARMRK", "ISTRIP", "INLCR", "IGNCR", "ICRNL", "IXON"), 0},
		".Cflag": {0, k("CSIZE", "PARENB"), k("CS8")},
	}
	if goos == "windows" {
		rules = map[string]rule{"": {1 | 2 | 4, 1 | 2 | 4, 0}}
	}
	for f, v := range now {
		if f == ".Cc" && goos != "windows" {
			bad = append(bad, rawChars(p, v, orig[f])...)
			continue
		}
		if orig[f] == v && rules[f].must == 0 {
			continue
		}
		ru := rules[f]
		base, clr, set, ok := parseBits(v)
		ob, oclr, oset, ook := parseBits(orig[f])
		n := strings.TrimPrefix(f, ".")
		if n == "" {
			n = "mode"
		}
		switch {
		case !ok || !ook || base != ob || oclr != 0 || oset != 0:
			bad = append(bad, n+" is not derived from the settings in force")
		case ru.must&^clr != 0 || ru.must&set != 0:
			bad = append(bad, fmt.Sprintf("raw mode leaves bits %#x of %s on", ru.must&^clr|ru.must&set, n))
		case (clr|set)&^(ru.may|ru.set) != 0:
			bad = append(bad, fmt.Sprintf("raw mode changes bits %#x of %s", (clr|set)&^(ru.may|ru.set), n))
		case set&^ru.set != 0:
			bad = append(bad, fmt.Sprintf("raw mode turns on bits %#x of %s", set&^ru.set, n))
		}
	}
	sort.Strings(bad)
	return bad
}

// rawChars: the control characters, as base{[i]=v;...}, change at most VMIN and VTIME.
func rawChars(p *Program, now, orig string) (bad []string) {
	rest, ok := strings.CutPrefix(now, orig+"{")
	if !ok && now != orig {
		return []string{"Cc is not derived from the settings in force"}
	}
	if !ok {
		rest = ""
	}
	var min, time bool
	vmin, ok1 := p.termConst("syscall", "VMIN")
	vtime, ok2 := p.termConst("syscall", "VTIME")
	for _, kv := range strings.Split(strings.TrimSuffix(rest, "}"), ";") {
		i, v, _ := strings.Cut(kv, "=")
		i = strings.Trim(i, "[]+")
		switch {
		case i == "" && v == "":
		case ok1 && i == fmt.Sprint(vmin) && v == linK(1).Key():
			min = true
		case ok2 && i == fmt.Sprint(vtime) && v == linK(0).Key():
			time = true
		default:
			bad = append(bad, "raw mode sets control character "+i+" to "+v)
		}
	}
	if ok1 && !min || ok2 && !time {
		bad = append(bad, "raw mode does not set VMIN to one and VTIME to zero: a read does not wait for exactly one byte")
	}
	return bad
}

func echoOff(p *Program, goos string, now, orig map[string]string) bool {
	now, orig = stripRoot(now), stripRoot(orig)
	f, echo := ".Lflag", int64(4)
	if goos == "windows" {
		f = ""
	} else {
		echo, _ = p.termConst("syscall", "ECHO")
	}
	base, clr, set, ok := parseBits(now[f])
	ob, _, _, _ := parseBits(orig[f])
	return ok && base == ob && clr&echo != 0 && set&echo == 0
}

// c02hooks: RawMode and the default hooks.
func c02hooks(r *Report, p *Program) {
	x := newEvRun(r, p, "RawMode")
	var fds, skipped []string
	cleared := false
	x.setup = func(e *Eng, rt root) {
		var saved string
		fdOf := func(s *State, v Val) {
			k := "?"
			if i, ok := v.(IntV); ok {
				k = e.stripConv(i.L)
			}
			if !contains(fds, k) {
				fds = append(fds, k)
			}
		}
		e.pre = func(e *Eng, s *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool) {
			if fn == nil {
				return nil, false
			}
			switch fn.Name() {
			case "MakeRaw":
				fdOf(s, args[0])
				rs := e.opaqueRes(s, at, fn, name, fn.Signature, args, nil)
				for _, c := range rs {
					if t, ok := c.v.(TupleV); ok {
						c.st.setGhost("made", objName(t[0]))
					}
				}
				return rs, true
			case "restoreTerm":
				x.met("settings restored")
				fdOf(s, args[0])
				o, pa := dynObj(args[1])
				ok := o != nil && o.Name+pa == saved
				e.rule(s, at, "RawMode", "restore", "Exit restores another state than the saved one", ok)
				s.setGhost("restored", "1")
				return e.opaqueRes(s, at, fn, name, fn.Signature, args, nil), true
			}
			return nil, false
		}
		e.argPre = func(e *Eng, s *State, fn *ssa.Function, args []Val) {
			if o, _ := dynObj(args[0]); o != nil {
				saved = objName(e.peek(s, o, ".state"))
			}
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			o, _ := dynObj(args[0])
			if o == nil {
				return
			}
			st := e.peek(s, o, ".state")
			x.met("ends of RawMode methods")
			switch fn.Name() {
			case "Enter":
				es := e.errState(s, v)
				if s.ghost["made"] == "" && es != 0 {
					skipped = append(skipped, p.instrPos(at))
				}
				e.rule(s, at, "RawMode", "saved", "Enter does not keep the state MakeRaw returned", s.ghost["made"] != "" && objName(st) == s.ghost["made"] || es == 0 || s.ghost["made"] == "" && e.isNonNil(s, st))
			case "Exit":
				if s.ghost["restored"] != "" && e.isNil(s, st) {
					cleared = true
				}
				e.rule(s, at, "RawMode", "exit", "Exit does not restore the saved state", s.ghost["restored"] != "" || e.isNil(s, PtrV{}) && e.savedNil(s, o, saved))
			}
		}
	}
	x.run(x.methods("RawMode", "Enter", "Exit")...)
	r.floor("settings restored", 1)
	if len(fds) != 1 || fds[0] == "?" {
		r.errf("RawMode enters raw mode on one file descriptor and leaves it on another: %s", strings.Join(fds, ", "))
	}
	if len(skipped) > 0 && !cleared {
		r.errf("%s: Enter reports success without entering raw mode, and Exit does not forget the saved state: only the first Readline is in raw mode", skipped[0])
	}
	y := newEvRun(r, p, "Config")
	y.setup = func(e *Eng, rt root) {
		was := map[string]Val{}
		e.argPre = func(e *Eng, s *State, fn *ssa.Function, args []Val) {
			o, _ := dynObj(args[0])
			for _, f := range []string{"FuncMakeRaw", "FuncExitRaw"} {
				was[f] = e.peek(s, o, "."+f)
			}
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			o, _ := dynObj(args[0])
			bind := func(f, method string) (*Obj, bool) {
				fv, ok := e.peek(s, o, "."+f).(FuncV)
				if !ok || fv.Fn == nil {
					return nil, false
				}
				if len(fv.Bind) == 1 && (fv.Fn.Name() == method+"$bound") {
					b, _ := dynObj(fv.Bind[0])
					return b, b != nil && typeName(b.Typ) == "RawMode"
				}
				return nil, false
			}
			set := func(f string) bool { return !valEq(e.peek(s, o, "."+f), was[f]) }
			if !set("FuncMakeRaw") || !set("FuncExitRaw") {
				return
			}
			y.met("default hooks installed")
			a, ok1 := bind("FuncMakeRaw", "Enter")
			b, ok2 := bind("FuncExitRaw", "Exit")
			if !ok1 && !ok2 {
				return // other hooks, compared by C14
			}
			e.rule(s, at, "hooks", "pair", "the default raw mode hooks do not belong to one RawMode: what Enter saved is not what Exit restores", ok1 && ok2 && a == b)
		}
	}
	y.run(y.methods("Config", "Init")...)
	r.floor("default hooks installed", 1)
}

func (e *Eng) savedNil(s *State, o *Obj, saved string) bool {
	return e.isNil(s, e.peek(s, o, ".state"))
}
