package main

// C14: defaults of Config.Init.  C26: configuration changes leave no trace.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// optional hooks: every use is guarded by a nil test.
var optionalHook = map[string]bool{"Listener": true, "FuncFilterInputRune": true}

func init() {
	checks["C14"] = func(r *Report) {
		r.Rules = append(r.Rules,
			"at every successful return of Config.Init, from any starting value: every mandatory hook, stream and strategy is non-nil, the history limit is not zero, inited is set",
			"at every return a field that was set before keeps its value; the streams read through Stdin end in the reader that was configured (the package default if none was)",
			"on the path where inited was already set nothing is stored into the Config",
			"a *Config is stored into a session structure only after Init succeeded on it, or if it comes from another such structure",
			"every optional hook is called only where it is known to be non-nil")
		r.Assumes = append(r.Assumes, "a Config whose inited field is set went through Init before (only Init sets it: checked)")
		oses := []string{"linux", "windows"}
		if r.Tier == "thorough" {
			oses = append(oses, "darwin")
		}
		for _, goos := range oses {
			p := load(r, goos)
			c14init(r, p)
			c14use(r, p)
		}
		r.floor("Config fields checked", 20)
	}
}

func c14init(r *Report, p *Program) {
	x := newEvRun(r, p)
	st := p.namedType("Config")
	if st == nil {
		r.errf("type Config not found")
		return
	}
	fields := st.Underlying().(*types.Struct)
	x.setup = func(e *Eng, rt root) {
		var recv *Obj
		first := map[string]Val{}
		want, kind, _ := strings.Cut(strings.TrimPrefix(rt.name, "(*Config).Init for "), " ")
		e.argPre = func(e *Eng, s *State, fn *ssa.Function, args []Val) {
			recv, _ = dynObj(args[0])
			for i := 0; i < fields.NumFields(); i++ {
				n := fields.Field(i).Name()
				first[n] = e.load(s, recv, "."+n, fields.Field(i).Type(), nil)
			}
			if want != "inited" {
				s.assume(first["inited"].(BoolV), false)
			} else {
				s.assume(first["inited"].(BoolV), true)
			}
			was := first[want]
			switch kind {
			case "unset":
				if sv, ok := was.(StrV); ok {
					s.addCon(sv.Len.Neg())
				} else if iv, ok := was.(IntV); ok {
					s.addCon(iv.L)
					s.addCon(iv.L.Neg())
				} else {
					s.assume(e.nilTest(s, was, nil), true)
				}
			case "newline":
				s.addCon(was.(StrV).Len.AddK(-1))
				s.assume(e.equalVals(s, nil, was, e.strLit("\n")), true)
			case "set":
				if sv, ok := was.(StrV); ok {
					s.addCon(sv.Len.AddK(-1))
					s.assume(e.equalVals(s, nil, was, e.strLit("\n")), false)
				} else {
					s.assume(e.nilTest(s, was, nil), false)
				}
			case "positive":
				s.addCon(was.(IntV).L.AddK(-1))
			case "negative":
				s.addCon(was.(IntV).L.Neg().AddK(-1))
			}
		}
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			if want == "inited" && ev.Kind == "store" && ev.Cell.o == recv {
				e.rule(s, ev.At, "init twice", "store to Config"+ev.Cell.path, "the Config is changed although it was initialised before", false)
			}
			return nil
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			if er, ok := v.(IfaceV); ok && e.isNonNil(s, er) {
				return // failed
			}
			if want == "inited" {
				for i := 0; i < fields.NumFields(); i++ {
					n := fields.Field(i).Name()
					e.rule(s, at, "init twice", "Config."+n, "a second Init changes Config."+n, valEq(e.load(s, recv, "."+n, fields.Field(i).Type(), at), first[n]))
				}
				return
			}
			b, _ := e.peek(s, recv, ".inited").(BoolV)
			e.rule(s, at, "inited", "Config.inited", "Init does not set inited, the next Init would change the configuration again", s.truth(b) == 1)
			now, was := e.peek(s, recv, "."+want), first[want]
			x.met("Config fields checked")
			nonNil := func() {
				e.rule(s, at, "default", "Config."+want, "Config."+want+" may still be nil after Init", e.isNonNil(s, now))
			}
			keep := func(ok bool) {
				e.rule(s, at, "keep", "Config."+want, "Init replaces the Config."+want+" the user set", ok)
			}
			switch kind {
			case "unset":
				switch n := now.(type) {
				case StrV:
					e.rule(s, at, "default", "Config."+want, "Config."+want+" may still be empty after Init", s.proves(e.lenOf(s, n, at).AddK(-1)))
				case IntV:
					e.rule(s, at, "default", "Config."+want, "Config."+want+" may still be zero after Init", s.proves(n.L.AddK(-1)))
				default:
					nonNil()
				}
				if want == "Stdin" {
					e.stdinChain(s, at, now, was)
				}
			case "set":
				switch {
				case want == "Stdin":
					nonNil()
					e.stdinChain(s, at, now, was)
				case want == "StdinWriter":
					nonNil()
				default:
					keep(valEq(stripNil(now), stripNil(was)))
				}
			case "newline":
				n, ok := now.(StrV)
				e.rule(s, at, "keep", "Config."+want, "a newline as "+want+" does not stand for an empty one any more", ok && s.proves(e.lenOf(s, n, at).Neg()))
			default:
				keep(valEq(now, was))
			}
		}
	}
	init := p.method("Config", "Init")
	if init == nil {
		r.errf("anchor Config.Init not found")
		return
	}
	var roots []root
	for i := 0; i < fields.NumFields(); i++ {
		n := fields.Field(i).Name()
		kinds := []string{"kept"}
		switch fields.Field(i).Type().Underlying().(type) {
		case *types.Interface, *types.Signature:
			kinds = []string{"unset", "set"}
			if optionalHook[n] {
				kinds = []string{"kept"}
			}
		}
		switch n {
		case "HistoryLimit":
			kinds = []string{"unset", "positive", "negative"}
		case "InterruptPrompt", "EOFPrompt":
			kinds = []string{"unset", "set", "newline"}
		}
		for _, k := range kinds {
			roots = append(roots, root{init, "(*Config).Init for " + n + " " + k})
		}
	}
	x.run(roots...)
}

func stripNil(v Val) Val {
	switch v := v.(type) {
	case IfaceV:
		v.Nil = 0
		return v
	case FuncV:
		v.Nil = 0
		return v
	case PtrV:
		v.Nil = 0
		return v
	}
	return v
}

// stdinChain: what Stdin reads from is the configured stream.
func (e *Eng) stdinChain(s *State, at ssa.Instruction, now, was Val) {
	seen := map[*Obj]bool{}
	var walk func(v Val, depth int) bool
	walk = func(v Val, depth int) bool {
		if valEq(stripNil(v), stripNil(was)) {
			return true
		}
		if i, ok := v.(IfaceV); ok && i.Dyn == nil && strings.Contains(i.ID, "Stdin") {
			// the package default, taken only when nothing was set
			return e.isNil(s, was)
		}
		o, path := dynObj(v)
		if o == nil || seen[o] || depth > 6 || !o.Alloc || path != "" {
			return false
		}
		seen[o] = true
		sT, ok := o.Typ.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < sT.NumFields(); i++ {
			if _, ok := sT.Field(i).Type().Underlying().(*types.Interface); ok {
				if walk(e.load(s, o, "."+sT.Field(i).Name(), sT.Field(i).Type(), at), depth+1) {
					return true
				}
			}
		}
		return false
	}
	e.rule(s, at, "keep", "Config.Stdin source", "input is not read from the configured Stdin", walk(now, 0))
}

// c14use: configurations in use are initialised, optional hooks are guarded.
func c14use(r *Report, p *Program) {
	x := newEvRun(r, p)
	x.setup = func(e *Eng, rt root) {
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			if ev.Kind != "store" || ev.Cell.path != ".cfg" || typeName(ev.Cell.o.Typ) == "opPassword" {
				return nil
			}
			o, path := dynObj(ev.Val)
			if o == nil || typeName(o.Typ) != "Config" || path != "" {
				return nil
			}
			if o.Name != "*arg.cfg" && o.Name != "*arg.c" {
				return nil // already in use by another structure
			}
			x.met("Config installations")
			b, _ := e.peek(s, o, ".inited").(BoolV)
			e.rule(s, ev.At, "install", typeName(ev.Cell.o.Typ)+".cfg", "a configuration is installed without a successful Init", s.truth(b) == 1)
			return nil
		}
	}
	x.run(append(x.methods("", "NewTerminal"), append(x.methods("Terminal", "SetConfig"), x.methods("Operation", "SetConfig")...)...)...)
	r.floor("Config installations", 3)
	// only Init sets inited
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if ow, n := fieldOf(fa.X.Type(), fa.Field); ow == "Config" && n == "inited" {
					r.Obligations++
					if isConfigInit(f) {
						r.Discharged++
					} else {
						r.add("inited", fnName(f), "Config.inited", p.instrPos(in), "inited is set outside Config.Init", nil)
					}
				}
			}
		}
	}
}

func isConfigInit(f *ssa.Function) bool {
	return f.Signature.Recv() != nil && typeName(f.Params[0].Type()) == "Config"
}

var _ = fmt.Sprint
