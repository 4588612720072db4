package main

// Panic freedom by abstract interpretation: every index, slice bound, division,
// negative length, nil dereference and failing type assertion reachable from the
// entry points of the package is an obligation.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (p *Program) namedType(name string) *types.Named {
	for _, pk := range []*ssa.Package{p.Main, p.Runes} {
		if o, ok := pk.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
			n, _ := types.Unalias(o.Type()).(*types.Named)
			return n
		}
	}
	return nil
}

// singleTypes are the structs reachable from Instance by pointer fields: the
// library makes one of each per Instance.
func (p *Program) singleTypes(roots ...string) []string {
	seen := map[string]bool{}
	var visit func(t types.Type)
	visit = func(t types.Type) {
		t = types.Unalias(t)
		if pt, ok := t.(*types.Pointer); ok {
			t = types.Unalias(pt.Elem())
		}
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Pkg() != p.Main.Pkg || n.Obj().Name() == "Config" || seen[n.Obj().Name()] {
			return
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			return
		}
		seen[n.Obj().Name()] = true
		for i := 0; i < st.NumFields(); i++ {
			visit(st.Field(i).Type())
		}
	}
	for _, r := range roots {
		if n := p.namedType(r); n != nil {
			visit(n)
		}
	}
	var out []string
	for n := range seen {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

type root struct {
	fn   *ssa.Function
	name string
}

type analysis struct {
	p        *Program
	singles  []string
	roots    []root
	inv      *invSet
	assume   map[string]bool
	pre      func(e *Eng, st *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool)
	setup    func(e *Eng)
	sums     map[*ssa.Function]*summary
	contr    func(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) ([]callRes, bool)
	engs     []*Eng
	pure     *pureSet
	rounds   int
	dropped  []string
	dropComp bool
	readers  map[*ssa.Function]map[string]bool
	modular  map[*ssa.Function]bool
	pres     map[*ssa.Function]*callPre
}

// rootState runs fn as an entry point.
func (a *analysis) newEngine() *Eng {
	e := newEng(a.p, nil)
	for _, s := range a.singles {
		e.single[s] = true
	}
	for k := range a.assume {
		e.assumeFld[k] = true
	}
	e.inv = a.inv
	e.summaries = a.sums
	e.pure = a.pure
	e.readers = a.readers
	e.pre = a.pre
	e.contract = a.contr
	if a.setup != nil {
		a.setup(e)
	}
	return e
}

func (e *Eng) rootArgs(st *State, fn *ssa.Function) (args, binds []Val) {
	for _, p := range fn.Params {
		v := e.mat(st, p.Type(), "arg."+p.Name())
		if _, isP := p.Type().Underlying().(*types.Pointer); isP {
			v = e.nonNil(st, v)
		} else if n, isN := types.Unalias(p.Type()).(*types.Named); isN && types.IsInterface(n) && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "io" || n.Obj().Pkg().Path() == "net") {
			v = e.nonNil(st, v) // streams and connections are not nil
		}
		args = append(args, v)
	}
	for _, f := range fn.FreeVars {
		v := e.mat(st, f.Type(), "free."+f.Name())
		binds = append(binds, e.nonNil(st, v))
	}
	return
}

func (e *Eng) runRoot(r root, inv *invSet) []retState {
	st := newState()
	fi := e.info(r.fn)
	e.entered[r.fn] = true
	fr := &Frame{fi: fi, env: make([]Val, len(fi.vals))}
	fr.ctx = e.childCtx(0, nil, r.fn)
	st.fr, st.frO = fr, true
	args, binds := e.rootArgs(st, r.fn)
	if e.argPre != nil {
		e.argPre(e, st, r.fn, args)
	}
	if e.rootPre != nil {
		if st = e.applyPre(st, r, e.rootPre, args); st == nil {
			return nil
		}
		st.fr, st.frO = fr, true
	}
	for i, p := range r.fn.Params {
		fr.env[fi.num[p]] = args[i]
	}
	for i, f := range r.fn.FreeVars {
		fr.env[fi.num[f]] = binds[i]
		if pv, ok := binds[i].(PtrV); ok && pv.Path == "" {
			// captured variables of enclosing functions hold non-nil values of single types
			if pt, ok := deref(f.Type()).Underlying().(*types.Pointer); ok {
				if e.single[typeName(pt)] {
					k := cellKey{pv.Obj, ""}
					e.cellTyp[k] = pt
					st.setCell(k, PtrV{Obj: e.objFor(pt.Elem(), "cap")})
				}
			}
			if sg, ok := deref(f.Type()).Underlying().(*types.Signature); ok {
				// callbacks given to the library are not nil
				k := cellKey{pv.Obj, ""}
				e.cellTyp[k] = sg
				st.setCell(k, FuncV{Name: "captured " + f.Name()})
			}
		}
	}
	if strings.HasPrefix(r.name, "goroutine ") {
		e.cutLoop = map[*ssa.BasicBlock]string{}
		for h, l := range fi.loops {
			if l.parent != nil {
				continue
			}
			ok := true
			for _, in := range h.Instrs {
				if ph, isP := in.(*ssa.Phi); isP && sizedArg(ph.Type()) != 0 && sizedArg(ph.Type()) != 'b' {
					ok = false
				}
			}
			if ok {
				e.cutLoop[h] = fnName(r.fn)
			}
		}
	}
	if e.rootExit == nil && inv != nil {
		e.rootExit = func(s *State) {
			if e.dry == 0 {
				inv.check(e, s, r.name)
			}
		}
	}
	_, _, rets := e.runRegion(fi, nil, r.fn.Blocks[0], []*State{st})
	for _, x := range rets {
		if e.retPost != nil && e.dry == 0 && !x.st.dead {
			e.retPost(e, x.st, r.fn, lastInstr(r.fn), args, x.v)
		}
		if e.rootExit != nil && !x.st.dead {
			e.rootExit(x.st)
		}
		if sm := e.summaries[r.fn]; sm != nil && e.dry == 0 && !x.st.dead {
			for _, f := range sm.facts {
				if !f.dead && !x.st.proves(f.lin(e, x.st, x.v)) {
					e.factLost = append(e.factLost, f)
				}
			}
		}
	}
	return rets
}

// applyPre assumes what every call of a separately analysed method establishes.
func (e *Eng) applyPre(st *State, r root, pre *callPre, args []Val) *State {
	for i, nn := range pre.args {
		if nn {
			args[i] = e.nonNil(st, args[i])
		}
	}
	var ks []string
	for k := range pre.facts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		i := strings.IndexByte(k, '.')
		t := e.inv.types[k[:i]]
		if t == nil {
			continue
		}
		path, isNil := strings.CutSuffix(k[i:], ".nil")
		for _, f := range invFields(t) {
			if f.path != path {
				continue
			}
			v := e.load(st, e.objFor(t, ""), path, f.typ, nil)
			b := boolK(pre.facts[k])
			if isNil {
				b = e.nilTest(st, v, nil)
			} else {
				b = boolOf(e, st, v, nil)
			}
			if st = st.assume(b, pre.facts[k]); st == nil {
				return nil
			}
		}
	}
	return st
}

func (a *analysis) runAll(idx []int, engs []*Eng) error {
	sem := make(chan bool, runtime.NumCPU())
	var err error
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, i := range idx {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			t0 := time.Now()
			defer func() {
				if x := recover(); x != nil {
					if os.Getenv("VP_PANIC") != "" {
						panic(x)
					}
					mu.Lock()
					err = fmt.Errorf("%s: %v", a.roots[i].name, x)
					mu.Unlock()
				}
				if verbose {
					if d := time.Since(t0); d > 2*time.Second {
						fmt.Fprintf(os.Stderr, "  %-40s %.1fs\n", a.roots[i].name, d.Seconds())
					}
				}
			}()
			e := a.newEngine()
			engs[i] = e
			if strings.HasPrefix(a.roots[i].name, "goroutine ") {
				e.modular = a.modular
			}
			if strings.HasPrefix(a.roots[i].name, "component ") {
				e.rootPre = a.pres[a.roots[i].fn]
				if e.rootPre == nil {
					return
				}
			}
			e.runRoot(a.roots[i], a.inv)
		}()
	}
	wg.Wait()
	return err
}

// solve runs the roots until the invariants are inductive.
func (a *analysis) solve() error {
	// the entry points that do not depend on the callers of components go first
	warm := os.Getenv("VP_WARM") != ""
	for a.rounds = 1; ; a.rounds++ {
		if a.rounds > 60 || os.Getenv("VP_ROUND") != "" && a.rounds > 1 {
			return fmt.Errorf("invariants do not converge")
		}
		engs := make([]*Eng, len(a.roots))
		var first, rest []int
		for i, r := range a.roots {
			if strings.HasPrefix(r.name, "goroutine ") {
				if !warm {
					continue
				}
				first = append(first, i)
			} else {
				rest = append(rest, i)
			}
		}
		if err := a.runAll(first, engs); err != nil {
			return err
		}
		if os.Getenv("VP_ROUND") != "" {
			for _, i := range first {
				for k, v := range engs[i].loopStat {
					fmt.Println("STAT", k, v)
				}
			}
		}
		a.pres = map[*ssa.Function]*callPre{}
		for _, i := range first {
			for fn, p := range engs[i].pres {
				if old := a.pres[fn]; old != nil {
					for k, v := range old.facts {
						if w, ok := p.facts[k]; !ok || w != v {
							delete(old.facts, k)
						}
					}
					for i := range old.args {
						old.args[i] = old.args[i] && p.args[i]
					}
				} else {
					a.pres[fn] = p
				}
			}
		}
		if err := a.runAll(rest, engs); err != nil {
			return err
		}
		a.engs = engs
		lost, again := 0, 0
		for i, e := range engs {
			if e == nil {
				continue
			}
			r := a.roots[i]
			if strings.HasPrefix(r.name, "summary ") && e.anyFailed() {
				delete(a.sums, r.fn)
				a.dropped = append(a.dropped, fnName(r.fn))
				if verbose {
					for _, o := range e.obls {
						if o.failed {
							fmt.Println("DROP", fnName(r.fn), o.construct, o.msg, o.trace)
						}
					}
				}
				again++
				continue
			}
			if a.dropComp && strings.HasPrefix(r.name, "component ") && e.anyFailed() {
				delete(a.modular, r.fn)
				a.dropped = append(a.dropped, fnName(r.fn))
				if verbose {
					for _, o := range e.obls {
						if o.failed {
							fmt.Println("DROP", fnName(r.fn), o.construct, o.msg, o.trace)
						}
					}
				}
				again++
				continue
			}
		}
		for i, e := range engs {
			if e == nil {
				continue
			}
			r := a.roots[i]
			if strings.HasPrefix(r.name, "summary ") && a.sums[r.fn] == nil || strings.HasPrefix(r.name, "component ") && !a.modular[r.fn] {
				continue
			}
			for _, c := range e.invLost {
				if !c.dead {
					c.dead = true
					lost++
				}
			}
			for _, f := range e.factLost {
				if !f.dead {
					f.dead = true
					lost++
				}
			}
		}
		if verbose {
			fmt.Fprintf(os.Stderr, "round %d: %d candidates lost, %d methods analysed at their calls instead: %v\n", a.rounds, lost, again, a.dropped)
		}
		if lost+again == 0 {
			if warm {
				return nil
			}
			warm = true
		}
		var keep []root
		for _, r := range a.roots {
			if strings.HasPrefix(r.name, "summary ") && a.sums[r.fn] == nil || strings.HasPrefix(r.name, "component ") && !a.modular[r.fn] {
				continue
			}
			keep = append(keep, r)
		}
		a.roots = keep
	}
}

func (e *Eng) anyFailed() bool {
	for _, o := range e.obls {
		if o.failed {
			return true
		}
	}
	return false
}

// exportedRoots are the exported functions and methods with source bodies on the
// given receiver types.
func (p *Program) methodsOf(typ string, exportedOnly bool) []*ssa.Function {
	n := p.namedType(typ)
	if n == nil {
		return nil
	}
	var out []*ssa.Function
	ms := p.Prog.MethodSets.MethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		if len(sel.Index()) != 1 {
			continue // promoted
		}
		if exportedOnly && !sel.Obj().Exported() {
			continue
		}
		f := p.Prog.MethodValue(sel)
		if f == nil || f.Synthetic != "" {
			// a value receiver: take the declared function
			if o, ok := sel.Obj().(*types.Func); ok {
				f = p.Prog.FuncValue(o)
			}
		}
		if f != nil && f.Blocks != nil {
			out = append(out, f)
		}
	}
	return out
}

func hasIntParam(fn *ssa.Function) bool {
	ps := fn.Params
	if fn.Signature.Recv() != nil {
		ps = ps[1:]
	}
	for _, q := range ps {
		if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			return true
		}
	}
	return false
}

// goBodies are the functions started as goroutines.
func (p *Program) goBodies() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				var f *ssa.Function
				switch v := g.Call.Value.(type) {
				case *ssa.Function:
					f = v
				case *ssa.MakeClosure:
					f, _ = v.Fn.(*ssa.Function)
				}
				if f != nil && !seen[f] && p.inModule(f) {
					seen[f] = true
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// dump prints the failed obligations (development aid).
func (a *analysis) collect() []*oblig {
	m := map[string]*oblig{}
	var keys []string
	for _, e := range a.engs {
		for _, k := range e.oblKeys {
			o := e.obls[k]
			kk := o.rule + "|" + o.fn + "|" + o.construct + "|" + e.p.instrPos(o.at)
			if p := m[kk]; p == nil {
				m[kk] = o
				keys = append(keys, kk)
			} else {
				for f := range o.owners {
					p.owners[f] = true
				}
				if o.failed && !p.failed {
					for f := range p.owners {
						o.owners[f] = true
					}
					m[kk] = o
				}
			}
		}
	}
	sort.Strings(keys)
	var out []*oblig
	for _, k := range keys {
		out = append(out, m[k])
	}
	return out
}

func isReleasable(s string) bool { return strings.HasPrefix(s, "(*") }

var configHooks = []string{"Config.FuncGetWidth", "Config.FuncIsTerminal", "Config.FuncMakeRaw", "Config.FuncExitRaw", "Config.FuncOnWidthChanged",
	"Config.Stdin", "Config.Stdout", "Config.Stderr", "Config.StdinWriter", "Config.Painter", "Config.AutoComplete"}

func sessionAnalysis(p *Program) *analysis {
	a := &analysis{p: p, assume: map[string]bool{}}
	a.singles = p.singleTypes("Instance", "CancelableStdin", "FillableStdin", "wrapWriter")
	for _, h := range configHooks {
		a.assume[h] = true
	}
	a.inv = newInvSet(p, a.singles)
	for _, t := range a.singles {
		// the methods of unexported types are reached through the exported ones
		if !token.IsExported(t) {
			continue
		}
		for _, f := range p.methodsOf(t, true) {
			if hasIntParam(f) {
				continue
			}
			a.roots = append(a.roots, root{f, fnName(f)})
		}
	}
	for _, f := range p.methodsOf("wrapWriter", true) {
		a.roots = append(a.roots, root{f, fnName(f)})
	}
	for _, f := range p.goBodies() {
		if strings.Contains(fnName(f), "Remote") {
			continue
		}
		a.roots = append(a.roots, root{f, "goroutine " + fnName(f)})
	}
	for _, n := range []string{"NewEx", "New"} {
		if f := p.fn(n); f != nil {
			a.roots = append(a.roots, root{f, n})
		}
	}
	p.closedElem(types.Typ[types.Int])
	a.pre = userModels
	a.sums = p.summaries(a.singles)
	a.readers = p.readers(a.singles)
	a.pure = newPureSet(p)
	for _, f := range p.Funcs {
		a.pure.get(f)
	}
	isRoot := map[*ssa.Function]bool{}
	for _, r := range a.roots {
		isRoot[r.fn] = true
	}
	for _, f := range p.Funcs {
		if a.sums[f] != nil && !isRoot[f] {
			a.roots = append(a.roots, root{f, "summary " + fnName(f)})
		}
	}
	a.modular = map[*ssa.Function]bool{}
	single := map[string]bool{}
	for _, s := range a.singles {
		single[s] = true
	}
	memo := map[*ssa.Function]*effect{}
	for _, f := range p.Funcs {
		if !isSource(f) || f.Parent() != nil || f.Signature.Recv() == nil || a.sums[f] != nil {
			continue
		}
		tn := typeName(f.Params[0].Type())
		if !single[tn] || componentOwner[tn] || !p.effects(f, single, memo).loop {
			continue
		}
		a.modular[f] = true
		a.roots = append(a.roots, root{f, "component " + fnName(f)})
	}
	return a
}

// componentOwner: the types whose methods are analysed at their calls because
// the caller depends on what they do to the text, and the callers themselves.
var componentOwner = map[string]bool{"RuneBuffer": true, "Operation": true, "Instance": true, "Terminal": true, "CancelableStdin": true, "FillableStdin": true}

// crashCheck decides C05, C06 and C07 from one analysis of the whole session:
// own tells which obligations belong to the property, must lists the invariants
// the property itself states.
func crashCheck(own func(fn string, owners map[string]bool) bool, must ...string) checkFn {
	return func(r *Report) {
		p := load(r, "linux")
		a := sessionAnalysis(p)
		if err := a.solve(); err != nil {
			r.errf("%v", err)
			return
		}
		r.Rules = append(r.Rules,
			"every slice expression, index, division, make, nil dereference, type assertion and close reachable from an exported method of a session type or from a session goroutine must be in range / non-zero / non-nil on every path",
			"Houdini: the object invariants used are exactly the template candidates preserved by every entry point")
		r.Assumes = append(r.Assumes,
			"Listener.OnChange returns 0 <= pos <= len(line); AutoCompleter.Do returns 0 <= length <= pos; callbacks do not call back into the session",
			"the hooks set by Config.Init are not nil (C14)",
			"one goroutine at a time changes the session state (C15, C16)",
			"a Config whose history is enabled carries the history search created with it",
			"(Runes).Aggregate is modelled by its contract")
		r.count("entry points", len(a.roots))
		r.count("methods analysed as components", len(a.modular))
		r.count("method summaries", len(a.sums))
		r.count("fixpoint rounds", a.rounds)
		alive := map[string]bool{}
		for _, t := range a.inv.alive() {
			alive[t] = true
		}
		r.count("inductive invariants", len(alive))
		for _, m := range must {
			r.Obligations++
			if alive[m] {
				r.Discharged++
				r.sample("invariant %s", m)
				continue
			}
			why := "not generated"
			for _, cs := range a.inv.cands {
				for _, c := range cs {
					if c.text == m && c.dead {
						why = c.why
					}
				}
			}
			if i := strings.IndexByte(why, '\n'); i > 0 {
				why = why[:i]
			}
			r.add("invariant", why, m, "", fmt.Sprintf("%s does not hold after %s", m, why), nil)
		}
		fns := map[string]bool{}
		for _, o := range a.collect() {
			if !own(o.fn, o.owners) {
				continue
			}
			fns[o.fn] = true
			r.Obligations++
			if !o.failed {
				r.Discharged++
				if len(r.Samples) < 25 {
					r.sample("%s %s: %s", o.rule, p.instrPos(o.at), o.construct)
				}
				continue
			}
			r.add(o.rule, o.fn, o.construct, p.instrPos(o.at), o.msg, o.trace)
		}
		r.count("functions with obligations", len(fns))
		r.floor("entry points", 60)
	}
}

func ownedBy(owners map[string]bool, typ string) bool {
	for f := range owners {
		if strings.HasPrefix(f, "(*"+typ+")") || strings.HasPrefix(f, "("+typ+")") {
			return true
		}
	}
	return false
}

func init() {
	onType := func(fn string, ts ...string) bool {
		for _, t := range ts {
			if strings.HasPrefix(fn, "(*"+t+")") {
				return true
			}
		}
		return false
	}
	checks["C05"] = crashCheck(func(fn string, owners map[string]bool) bool {
		if onType(fn, "opCompleter", "opSearch", "opHistory") {
			return false
		}
		return ownedBy(owners, "RuneBuffer") || ownedBy(owners, "opVim") || ownedBy(owners, "Operation")
	}, "RuneBuffer.idx >= 0", "RuneBuffer.idx <= len(RuneBuffer.buf)")
	checks["C06"] = crashCheck(func(fn string, owners map[string]bool) bool { return ownedBy(owners, "opCompleter") })
	checks["C07"] = crashCheck(func(fn string, owners map[string]bool) bool {
		return ownedBy(owners, "opSearch") || ownedBy(owners, "opHistory")
	})
	checks["X1"] = func(r *Report) {
		p := load(r, "linux")
		a := sessionAnalysis(p)
		if f := os.Getenv("VP_EFF"); f != "" {
			single := map[string]bool{}
			for _, s := range a.singles {
				single[s] = true
			}
			m := map[*ssa.Function]*effect{}
			for _, fn := range p.Funcs {
				p.effects(fn, single, m)
			}
			for _, fn := range p.Funcs {
				if m[fn].bad != "" && strings.Contains(fnName(fn), f) {
					fmt.Println("eff", fnName(fn), m[fn].bad, m[fn].bools)
				}
			}
		}
		if f := os.Getenv("VP_ROOTS"); f != "" {
			var rs []root
			for _, x := range a.roots {
				if strings.HasPrefix(f, "!") && !strings.Contains(x.name, f[1:]) || !strings.HasPrefix(f, "!") && strings.Contains(x.name, f) {
					rs = append(rs, x)
				}
			}
			a.roots = rs
		}
		for _, x := range a.roots {
			fmt.Println("root", x.name)
		}
		for _, f := range p.Funcs {
			if ps := a.pure.memo[f]; ps != nil {
				fmt.Println("pure", fnName(f), ps.ok, ps.why, ps.facts)
			}
		}
		if err := a.solve(); err != nil {
			r.errf("%v", err)
			return
		}
		for _, t := range a.inv.alive() {
			fmt.Println("inv", t)
		}
		for _, cs := range a.inv.cands {
			for _, c := range cs {
				if c.dead && os.Getenv("VP_WHY") != "" && strings.Contains(c.text, os.Getenv("VP_WHY")) {
					fmt.Println("lost", c.text, "::", c.why)
				}
			}
		}
		unk := map[string]int{}
		for _, e := range a.engs {
			for k, n := range e.unknown {
				unk[k] += n
			}
		}
		fmt.Println(unk)
		for _, e := range a.engs {
			fmt.Println(e.loopStat, len(e.ctxI))
		}
		for _, o := range a.collect() {
			r.Obligations++
			if !o.failed {
				r.Discharged++
				continue
			}
			r.add(o.rule, o.fn, o.construct, p.instrPos(o.at), o.msg, o.trace)
		}
	}
}

// userModels are the documented contracts of user callbacks.
func userModels(e *Eng, st *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool) {
	c, ok := at.(ssa.CallInstruction)
	if !ok {
		return nil, false
	}
	switch name {
	case "(Runes).Aggregate":
		// needs a fact about every element of a slice of slices, which the domain
		// cannot express: not decided here
		if v, ok := args[len(args)-1].(SliceV); ok && v.Arr != nil {
			e.havocElems(st, v.Arr)
		}
		r, ok := e.mat(st, resultType(c.Common().Signature()), e.base(st, at, "aggregate")).(TupleV)
		if !ok || len(r) != 2 {
			return nil, false
		}
		st.addCon(e.intOf(st, r[1], at))
		return one(st, r), true
	case "Listener.OnChange":
		v, ok := e.mat(st, resultType(c.Common().Signature()), e.base(st, at, "listener")).(TupleV)
		if !ok || len(v) != 3 {
			return nil, false
		}
		pos := e.intOf(st, v[1], at)
		st.addCon(pos)
		st.addCon(e.lenOf(st, v[0], at).Sub(pos))
		return one(st, v), true
	case "AutoCompleter.Do":
		v, ok := e.mat(st, resultType(c.Common().Signature()), e.base(st, at, "completer")).(TupleV)
		if !ok || len(v) != 2 {
			return nil, false
		}
		n := e.intOf(st, v[1], at)
		st.addCon(n)
		st.addCon(e.intOf(st, args[1], at).Sub(n))
		return one(st, v), true
	}
	return nil, false
}

func lastInstr(fn *ssa.Function) ssa.Instruction {
	for _, b := range fn.Blocks {
		if n := len(b.Instrs); n > 0 {
			if r, ok := b.Instrs[n-1].(*ssa.Return); ok {
				return r
			}
		}
	}
	return fn.Blocks[0].Instrs[0]
}
