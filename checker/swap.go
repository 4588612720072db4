package main

// C26: changing the configuration and reading a password leave no trace.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C26"] = checkC26 }

func checkC26(r *Report) {
	r.Rules = append(r.Rules,
		"SetConfig: at every successful return the operation, the edit buffer, prompt, history and search are those of the new configuration; its own fields and those of the old one keep their values; a fresh history and search are built for it when it brings none",
		"SetConfig: at a failing return, and for the configuration already in force, configuration, prompt, history and search are unchanged",
		"SetHistoryPath: configuration, operation and search share the new history, which has the new path",
		"every exported method that reads a password: at every return configuration, edit buffer, prompt, history and search are those before the call, and the fields of the configuration in force keep their values; while it waits a deferred call that restores them is pending",
		"Instance.SetConfig installs the configuration in instance, operation and terminal")
	r.Assumes = append(r.Assumes, "the history and the search in force are those of the configuration in force (rule 1)", "callbacks do not change the configuration", "nothing else changes the configuration during a password read")
	p := load(r, "linux")
	ct := p.namedType("Config")
	opSet := p.method("Operation", "SetConfig")
	if ct == nil || opSet == nil {
		r.errf("Config or Operation.SetConfig not found")
		return
	}
	cst := ct.Underlying().(*types.Struct)
	initFails := canFail(p.method("Config", "Init"))
	reads := p.staticReach(func(f *ssa.Function) bool { return recvsOn(p, f, "Operation.outchan") })
	var roots []root
	kinds := map[string]string{}
	add := func(f *ssa.Function, kind, variant string) {
		n := fnName(f)
		if variant != "" {
			n += " " + variant
		}
		kinds[n] = kind
		roots = append(roots, root{f, n})
	}
	sets := p.staticReach(func(f *ssa.Function) bool { return f == opSet })
	for _, f := range p.Funcs {
		if f.Pkg != p.Main || f.Parent() != nil || f.Synthetic != "" || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() == nil {
			continue
		}
		on := recvName(f)
		if on != "Operation" && on != "Instance" {
			continue
		}
		withCfg := false
		for _, q := range f.Params[1:] {
			withCfg = withCfg || typeName(q.Type()) == "Config"
		}
		switch {
		case sets[f] && reads[f]:
			add(f, "password", "")
			if withCfg {
				add(f, "password", "same")
			}
		case f.Name() == "SetConfig":
			add(f, "set", "")
			add(f, "set", "same")
			add(f, "set", "fresh")
		case f.Name() == "SetHistoryPath":
			add(f, "path", "")
		}
	}
	x := newEvRun(r, p, "Instance", "Operation", "RuneBuffer", "Terminal", "opCompleter", "opPassword", "opVim")
	x.setup = func(e *Eng, rt root) {
		e.maxStates, e.maxRets = 200, 100
		kind := kinds[rt.name]
		variant := strings.TrimPrefix(strings.TrimPrefix(rt.name, fnName(rt.fn)), " ")
		var op, buf, A, Y *Obj
		var inst, term *Obj
		first := map[string]Val{}
		entry := map[string]Val{}
		fieldsOf := func(s *State, o *Obj) map[string]Val {
			m := map[string]Val{}
			for i := 0; i < cst.NumFields(); i++ {
				n := cst.Field(i).Name()
				m[n] = e.load(s, o, "."+n, cst.Field(i).Type(), nil)
			}
			return m
		}
		session := func(s *State) map[string]Val {
			m := map[string]Val{
				"configuration":                    e.peek(s, op, ".cfg"),
				"configuration of the edit buffer": e.peek(s, buf, ".cfg"),
				"prompt":                           e.prompt(s, buf),
				"history":                          e.peek(s, op, ".history"),
				"search":                           e.peek(s, op, ".opSearch"),
			}
			return m
		}
		single := func(typ, name string) *Obj {
			t := p.namedType(typ)
			o := e.obj(name, t)
			o.Single, o.Distinct = true, true
			return o
		}
		e.argPre = func(e *Eng, s *State, fn *ssa.Function, args []Val) {
			op = single("Operation", "Operation")
			buf = single("RuneBuffer", "RuneBuffer")
			inst, term = single("Instance", "Instance"), single("Terminal", "Terminal")
			A = single("Config", "configuration in force")
			Y = single("Config", "new configuration")
			H, S := single("opHistory", "history in force"), single("opSearch", "search in force")
			put := func(o *Obj, path string, v Val) {
				e.store(s, o, path, fieldType(o.Typ, path), v, nil)
			}
			put(op, ".cfg", PtrV{Obj: A})
			put(buf, ".cfg", PtrV{Obj: A})
			put(inst, ".Config", PtrV{Obj: A})
			put(inst, ".Operation", PtrV{Obj: op})
			put(inst, ".Terminal", PtrV{Obj: term})
			put(term, ".cfg", PtrV{Obj: A})
			put(op, ".buf", PtrV{Obj: buf})
			put(op, ".history", PtrV{Obj: H})
			put(op, ".opSearch", PtrV{Obj: S})
			put(A, ".opHistory", PtrV{Obj: H})
			put(A, ".opSearch", PtrV{Obj: S})
			put(H, ".cfg", PtrV{Obj: A})
			put(S, ".history", PtrV{Obj: H})
			switch variant {
			case "same":
			case "fresh":
				put(Y, ".opHistory", PtrV{})
				put(Y, ".opSearch", PtrV{})
			default:
				H2, S2 := single("opHistory", "history of the new configuration"), single("opSearch", "search of the new configuration")
				if kind == "set" {
					put(Y, ".opHistory", PtrV{Obj: H2})
					put(Y, ".opSearch", PtrV{Obj: S2})
					put(S2, ".history", PtrV{Obj: H2})
				}
			}
			for i, q := range fn.Params {
				switch typeName(q.Type()) {
				case "Config":
					args[i] = PtrV{Obj: Y}
					if variant == "same" {
						args[i] = PtrV{Obj: A}
					}
				case "Operation":
					args[i] = PtrV{Obj: op}
				case "Instance":
					args[i] = PtrV{Obj: inst}
				}
			}
			first = fieldsOf(s, A)
			entry = session(s)
			if kind == "set" && variant != "same" {
				for k, v := range fieldsOf(s, Y) {
					entry["new "+k] = v
				}
			}
		}
		e.pre = func(e *Eng, s *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool) {
			ret := func() ([]callRes, bool) {
				sig := at.(ssa.CallInstruction).Common().Signature()
				var v Val
				if rt := resultType(sig); rt != nil {
					v = e.mat(s, rt, e.base(s, at, "res "+name))
				}
				return []callRes{{s, v}}, true
			}
			if fn == nil {
				if strings.HasPrefix(name, "builtin") {
					return nil, false
				}
				return ret()
			}
			switch {
			case isMethod(fn, "Config", "Init"):
				o, _ := dynObj(args[0])
				k := "init " + objName(args[0])
				if o == A || s.ghost[k] != "" || !initFails {
					s.setGhost(k, "1")
					return []callRes{{s, IfaceV{Null: true}}}, true
				}
				bad := s.fork()
				er := e.mat(bad, resultType(fn.Signature), e.base(bad, at, "init failed"))
				bad.assume(e.nilTest(bad, er, at), false)
				bad.setGhost("failed", "1")
				s.setGhost(k, "1")
				return []callRes{{s, IfaceV{Null: true}}, {bad, er}}, true
			case recvsOn(p, fn, "Operation.outchan"):
				x.met("waits for a password")
				if !e.sameSession(session(s), entry) {
					e.rule(s, at, "pending", fnName(fn), "a password is waited for and no deferred call would restore the session if the read panics", e.pendingCall(s, func(c *ssa.CallCommon) bool { return c.StaticCallee() == opSet }))
				}
				rs := e.opaqueRes(s, at, fn, name, fn.Signature, args, nil)
				return rs, true
			case recvName(fn) == "opHistory" && fn.Signature.Recv() != nil, !p.inModule(fn) && !strings.HasPrefix(name, "(*sync."), recvName(fn) == "Terminal" && fn.Name() != "SetConfig", recvName(fn) == "Config":
				if isMethod(fn, "Config", "useInteractive") {
					s.setGhost("interactive of", objName(args[0]))
				}
				return ret()
			}
			return nil, false
		}
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			if ev.Kind == "store" && ev.Cell.o == buf && ev.Cell.path == ".interactive" {
				s.setGhost("interactive", s.ghost["interactive of"])
			}
			return nil
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			now := session(s)
			fn0 := fnName(fn)
			unchanged := func(rule, why string) {
				for _, k := range []string{"configuration", "configuration of the edit buffer", "prompt", "history", "search"} {
					e.rule(s, at, rule, k, why+": the "+k+" is another one than before", sameVal(now[k], entry[k]))
				}
			}
			kept := func(rule string, o *Obj, was map[string]Val, prefix, why string) {
				cur := fieldsOf(s, o)
				for i := 0; i < cst.NumFields(); i++ {
					n := cst.Field(i).Name()
					e.rule(s, at, rule, "Config."+n, why+" Config."+n, sameVal(cur[n], was[prefix+n]))
				}
			}
			inter := func(rule string, cfg *Obj) {
				if g := s.ghost["interactive"]; g != "" {
					e.rule(s, at, rule, "interactive", "the edit buffer's interactive flag is that of another configuration", g == cfg.Name)
				}
			}
			if o, _ := dynObj(now["configuration of the edit buffer"]); o != nil && variant != "same" && kind != "path" {
				inter(kind, o)
			}
			switch kind {
			case "password":
				x.met("ends of password reads")
				unchanged("password", fn0+" returns")
				kept("password", A, first, "", fn0+" changes the configuration in force: ")
			case "path":
				x.met("history paths set")
				o, _ := dynObj(now["history"])
				so, _ := dynObj(now["search"])
				e.rule(s, at, "path", "history", "the configuration and the session have different histories after SetHistoryPath", sameVal(now["history"], e.peek(s, A, ".opHistory")) && o != nil)
				if so != nil {
					e.rule(s, at, "path", "search", "the search uses another history than the session after SetHistoryPath", sameVal(e.peek(s, so, ".history"), now["history"]))
				}
				e.rule(s, at, "path", "HistoryFile", "SetHistoryPath does not set the path", sameVal(e.peek(s, A, ".HistoryFile"), args[1]))
				if o != nil {
					c, _ := dynObj(e.peek(s, o, ".cfg"))
					e.rule(s, at, "path", "history.cfg", "the new history belongs to another configuration", c == A)
				}
			case "set":
				switch {
				case variant == "same":
					x.met("same configuration installed")
					unchanged("same", fn0+" of the configuration in force")
					kept("same", A, first, "", fn0+" of the configuration in force changes ")
				case s.ghost["failed"] != "":
					x.met("configurations refused")
					unchanged("failed", fn0+" fails")
					kept("failed", A, first, "", fn0+" fails and changes ")
					if tv, ok := v.(TupleV); ok {
						e.rule(s, at, "failed", "error", fn0+" does not report that the configuration is refused", e.errState(s, lastRes(tv)) == 0)
					}
				default:
					x.met("configurations installed")
					isY := func(v Val) bool { o, _ := dynObj(v); return o == Y }
					e.rule(s, at, "set", "configuration", "the operation does not use the new configuration", isY(now["configuration"]))
					e.rule(s, at, "set", "edit buffer", "the edit buffer does not use the new configuration", isY(now["configuration of the edit buffer"]))
					e.rule(s, at, "set", "prompt", "the prompt is not that of the new configuration", sameVal(now["prompt"], entry["new Prompt"]))
					e.rule(s, at, "set", "history", "the history is not that of the new configuration", sameVal(now["history"], e.peek(s, Y, ".opHistory")))
					e.rule(s, at, "set", "search", "the search is not that of the new configuration", sameVal(now["search"], e.peek(s, Y, ".opSearch")))
					ho, _ := dynObj(now["history"])
					so, _ := dynObj(now["search"])
					if so == nil || ho == nil {
						e.rule(s, at, "set", "missing", "no history or no search is installed", false)
						return
					}
					e.rule(s, at, "set", "search history", "the search looks in another history than the session uses", sameVal(e.peek(s, so, ".history"), now["history"]))
					if variant == "fresh" {
						co, _ := dynObj(e.peek(s, ho, ".cfg"))
						e.rule(s, at, "set", "fresh history", "the new history belongs to another configuration", co == Y)
						co, _ = dynObj(e.peek(s, so, ".cfg"))
						e.rule(s, at, "set", "fresh search", "the new search belongs to another configuration", co == Y)
						bo, _ := dynObj(e.peek(s, so, ".buf"))
						e.rule(s, at, "set", "fresh search", "the new search works on another edit buffer", bo == buf)
						delete(entry, "new opHistory")
						delete(entry, "new opSearch")
					}
					kept("old", A, first, "", fn0+" changes the replaced configuration: ")
					cur := fieldsOf(s, Y)
					for n, was := range entry {
						if n, ok := strings.CutPrefix(n, "new "); ok {
							e.rule(s, at, "new", "Config."+n, fn0+" changes Config."+n+" of the new configuration", sameVal(cur[n], was))
						}
					}
					if on := recvName(fn); on == "Instance" {
						e.rule(s, at, "instance", "Config", "Instance.Config is not the new configuration", isY(e.peek(s, inst, ".Config")))
						e.rule(s, at, "instance", "Terminal", "the terminal does not use the new configuration", isY(e.peek(s, term, ".cfg")))
					}
					ro, _ := dynObj(v)
					if tv, ok := v.(TupleV); ok {
						ro, _ = dynObj(tv[0])
					}
					e.rule(s, at, "set", "result", fn0+" does not return the replaced configuration", ro == A)
				}
			}
		}
	}
	x.run(roots...)
	r.floor("configurations installed", 2)
	r.floor("same configuration installed", 2)
	r.floor("ends of password reads", 3)
	r.floor("waits for a password", 1)
	r.floor("history paths set", 1)
}

// prompt is the value the edit buffer's prompt was made from.
func (e *Eng) prompt(s *State, buf *Obj) Val {
	v := e.peek(s, buf, ".prompt")
	for n := 0; n < 20; n++ {
		switch x := v.(type) {
		case SliceV:
			if x.Arr != nil {
				if w, ok := e.src[x.Arr.Name]; ok {
					v = w
					continue
				}
			}
		case StrV:
			if w, ok := e.src[e.name(x.ID)]; ok && x.Lit == nil {
				v = w
				continue
			}
		}
		break
	}
	return v
}

func sameVal(a, b Val) bool {
	return a != nil && b != nil && (valEq(a, b) || valEq(stripNil(a), stripNil(b)))
}

func (e *Eng) sameSession(a, b map[string]Val) bool {
	for k, v := range b {
		if !strings.HasPrefix(k, "new ") && !sameVal(a[k], v) {
			return false
		}
	}
	return true
}

// canFail: some return of f has an error that is not the constant nil.
func canFail(f *ssa.Function) bool {
	if f == nil {
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ret, ok := in.(*ssa.Return); ok {
				c, ok := ret.Results[len(ret.Results)-1].(*ssa.Const)
				if !ok || c.Value != nil {
					return true
				}
			}
		}
	}
	return false
}
