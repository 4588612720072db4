package main

// Event mode of the interpreter: rules about the order of calls, channel
// operations and stores on every path, with a finite automaton (ghost state)
// carried along each path, and rules about the values at chosen points.

import (
	"fmt"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// rule records an obligation of an event rule.
func (e *Eng) rule(st *State, at ssa.Instruction, rule, construct, msg string, ok bool) {
	if e.dry > 0 {
		return
	}
	if !ok && infeasible(st.cons) {
		return
	}
	old := e.numeric
	e.numeric = true
	e.settle(st, at, rule, construct, msg, ok, Lin{})
	e.numeric = old
}

type evRun struct {
	p       *Program
	r       *Report
	singles []string
	assume  []string
	setup   func(e *Eng, rt root)
	engs    []*Eng
	roots   []root
	seen    map[string]int // how often each kind of checked event was met
	filter  func(o *oblig) bool
	mu      sync.Mutex
}

func newEvRun(r *Report, p *Program, singles ...string) *evRun {
	return &evRun{p: p, r: r, singles: singles, seen: map[string]int{}}
}

func (x *evRun) met(k string) {
	x.mu.Lock()
	x.seen[k]++
	x.mu.Unlock()
}

// sessionSingles: the types of which one session has one instance.
var sessionSingles = []string{"Instance", "Operation", "RuneBuffer", "Terminal", "opHistory", "opSearch", "opCompleter", "opPassword", "opVim"}

// run interprets every root and reports the rules that fail.
func (x *evRun) run(roots ...root) {
	x.roots = append(x.roots, roots...)
	x.engs = make([]*Eng, len(roots))
	x.p.closedElem(types.Typ[types.Int])
	x.p.eachGlobalStore(func(*ssa.Global, *ssa.Store) {})
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	for i := range roots {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			defer func() {
				if v := recover(); v != nil {
					if os.Getenv("VP_PANIC") != "" {
						panic(v)
					}
					x.mu.Lock()
					x.r.errf("%s: %v", roots[i].name, v)
					x.mu.Unlock()
				}
			}()
			e := newEng(x.p, nil)
			for _, s := range x.singles {
				e.single[s] = true
			}
			for _, s := range x.assume {
				e.assumeFld[s] = true
			}
			e.numeric = false
			e.maxStates, e.maxRets = 40, 24
			if x.setup != nil {
				x.setup(e, roots[i])
			}
			x.engs[i] = e
			e.runRoot(roots[i], nil)
		}()
	}
	wg.Wait()
	x.collect()
	for _, t := range roots {
		x.r.sample("entry %s", t.name)
	}
}

func (x *evRun) collect() {
	all := map[string]*oblig{}
	var keys []string
	steps, fns := 0, map[*ssa.Function]bool{}
	for _, e := range x.engs {
		if e == nil {
			continue
		}
		steps += e.steps
		for f := range e.entered {
			fns[f] = true
		}
		for _, k := range e.oblKeys {
			o := e.obls[k]
			id := o.rule + "|" + o.fn + "|" + o.construct + "|" + x.p.instrPos(o.at)
			if old := all[id]; old == nil {
				all[id] = o
				keys = append(keys, id)
			} else if o.failed && !old.failed {
				all[id] = o
			}
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		o := all[k]
		if x.filter != nil && !x.filter(o) {
			continue
		}
		x.r.Obligations++
		if !o.failed {
			x.r.Discharged++
			if len(x.r.Samples) < 30 {
				x.r.sample("%s %s: %s", o.rule, x.p.instrPos(o.at), o.construct)
			}
			continue
		}
		x.r.add(o.rule, o.fn, o.construct, x.p.instrPos(o.at), o.msg, o.trace)
	}
	x.r.count("entry points", len(x.engs))
	x.r.count("functions interpreted", len(fns))
	x.r.count("instructions interpreted", steps)
	var ks []string
	for k := range x.seen {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		x.r.count(k, x.seen[k])
	}
	x.engs = nil
}

// rootsOf makes entry points of functions; missing ones are an error.
func (x *evRun) methods(typ string, names ...string) []root {
	var out []root
	for _, n := range names {
		var f *ssa.Function
		if typ == "" {
			f = x.p.fn(n)
		} else {
			f = x.p.method(typ, n)
		}
		if f == nil {
			x.r.errf("anchor %s.%s not found", typ, n)
			continue
		}
		out = append(out, root{f, fnName(f)})
	}
	return out
}

// knownNonNil: v is not nil in st.
func (e *Eng) isNonNil(st *State, v Val) bool { return st.truth(e.nilTest(st, v, nil)) == 0 }
func (e *Eng) isNil(st *State, v Val) bool    { return st.truth(e.nilTest(st, v, nil)) == 1 }

// dynObj is the object an interface or pointer value points to.
func dynObj(v Val) (*Obj, string) {
	switch v := v.(type) {
	case PtrV:
		return v.Obj, v.Path
	case IfaceV:
		if v.V != nil {
			return dynObj(v.V)
		}
	}
	return nil, ""
}

func fieldType(t types.Type, path string) types.Type {
	for _, f := range strings.Split(strings.Trim(path, "."), ".") {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		t = nil
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				t = s.Field(i).Type()
			}
		}
		if t == nil {
			return nil
		}
	}
	return t
}

// peek reads a field of an object without an instruction.
func (e *Eng) peek(st *State, o *Obj, path string) Val {
	t := fieldType(o.Typ, path)
	if t == nil {
		return nil
	}
	return e.load(st, o, path, t, nil)
}

func (st *State) pos(e *Eng) string { return fmt.Sprint(e.stack(st)) }

// flat lists the parts a string or byte slice was put together from: literals and
// values of unknown content.
func (e *Eng) flat(v Val) []Val {
	return e.flat1(v, 0)
}

func (e *Eng) flat1(v Val, depth int) []Val {
	if depth > 12 {
		return []Val{v}
	}
	switch x := v.(type) {
	case StrV:
		if x.Lit != nil {
			return []Val{x}
		}
		switch s := e.src[e.name(x.ID)].(type) {
		case TupleV:
			return append(e.flat1(s[0], depth+1), e.flat1(s[1], depth+1)...)
		case SliceV:
			return e.flat1(s, depth+1)
		}
	case SliceV:
		if x.Arr != nil {
			if s := e.src[x.Arr.Name]; s != nil {
				return e.flat1(s, depth+1)
			}
		}
	}
	return []Val{v}
}

func litOf(v Val) (string, bool) {
	if s, ok := v.(StrV); ok && s.Lit != nil {
		return *s.Lit, true
	}
	return "", false
}

func objName(v Val) string {
	if o, p := dynObj(v); o != nil {
		return o.Name + p
	}
	return ""
}

// errState: whether an error value is known to be nil (1), non-nil (0) or neither.
func (e *Eng) errState(st *State, v Val) int { return st.truth(e.nilTest(st, v, nil)) }
func (e *Eng) symState(st *State, s string) int {
	if s == "" {
		return -1
	}
	n := 0
	fmt.Sscan(s, &n)
	if n == 0 {
		return -1
	}
	return st.truth(BoolV{Op: 's', S: Sym(n)})
}
func errSym(v Val) string {
	if i, ok := v.(IfaceV); ok {
		return fmt.Sprint(int(i.Nil))
	}
	return ""
}
func lastRes(v Val) Val {
	if t, ok := v.(TupleV); ok && len(t) > 0 {
		return t[len(t)-1]
	}
	return v
}

func shortName(n string) string { return n[strings.LastIndexByte(n, '.')+1:] }
