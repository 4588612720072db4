package main

// C08, C23, C24, C25: panic freedom of the parts outside the session, with the
// result contracts callers rely on.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// plainAnalysis runs fns as entry points with arbitrary arguments.
func plainAnalysis(p *Program, singles []string, fns []*ssa.Function, assume ...string) *analysis {
	a := &analysis{p: p, assume: map[string]bool{}, singles: singles}
	for _, s := range assume {
		a.assume[s] = true
	}
	a.inv = newInvSet(p, singles)
	seen := map[*ssa.Function]bool{}
	for _, f := range fns {
		if f != nil && !seen[f] {
			seen[f] = true
			a.roots = append(a.roots, root{f, fnName(f)})
		}
	}
	a.pure = newPureSet(p)
	for _, f := range p.Funcs {
		a.pure.get(f)
	}
	a.pre = userModels
	a.setup = func(e *Eng) {}
	// shared before the engines run in parallel
	p.closedElem(types.Typ[types.Int])
	return a
}

func (a *analysis) report(r *Report, own func(o *oblig) bool) {
	if err := a.solve(); err != nil {
		r.errf("%v", err)
		return
	}
	if verbose {
		for _, t := range a.inv.alive() {
			fmt.Println("inv", t)
		}
		for _, cs := range a.inv.cands {
			for _, c := range cs {
				if c.dead && len(c.g) == 0 {
					fmt.Println("lost", c.text, c.why)
				}
			}
		}
	}
	r.count("entry points", len(a.roots))
	for _, t := range a.roots {
		r.sample("entry %s", t.name)
	}
	fns := map[string]bool{}
	for _, o := range a.collect() {
		if own != nil && !own(o) {
			continue
		}
		fns[o.fn] = true
		r.Obligations++
		if !o.failed {
			r.Discharged++
			continue
		}
		r.add(o.rule, o.fn, o.construct, a.p.instrPos(o.at), o.msg, o.trace)
	}
	r.count("functions with obligations", len(fns))
}

// helperFacts: what the boolean and index helpers must imply about lengths.
func (a *analysis) helperFacts(r *Report) {
	r.Rules = append(r.Rules, "results: Equal* true implies equal lengths; HasPrefix* true implies a prefix no longer than the text; Index* lies in -1..len-1 and a match ends inside the text; widths are not negative")
	type want struct{ fn, text string }
	n := 0
	for _, f := range a.p.Funcs {
		ps := a.pure.memo[f]
		if ps == nil || !isSource(f) || f.Parent() != nil {
			continue
		}
		var need []pureFact
		sl := []int{}
		for i, q := range f.Params {
			if s, ok := q.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.Rune]) {
				sl = append(sl, i)
			}
		}
		base := pureFact{boolRes: -1, sign: -1, nonNil: -1}
		res := f.Signature.Results()
		last := pureFact{}
		_ = last
		kind := func(i int) string { return res.At(i).Type().String() }
		switch name := f.Name(); {
		case strings.HasPrefix(name, "Equal") && len(sl) == 2 && res.Len() == 1 && kind(0) == "bool":
			for _, o := range [][2]int{{sl[0], sl[1]}, {sl[1], sl[0]}} {
				g := base
				g.boolRes, g.val, g.terms = 0, true, []pureTerm{{1, o[0]}, {-1, o[1]}}
				need = append(need, g)
			}
		case strings.HasPrefix(name, "HasPrefix") && len(sl) == 2 && res.Len() == 1 && kind(0) == "bool":
			g := base
			g.boolRes, g.val, g.terms = 0, true, []pureTerm{{1, sl[0]}, {-1, sl[1]}}
			need = append(need, g)
		case strings.HasPrefix(name, "IndexAll") && len(sl) == 2 && res.Len() == 1 && kind(0) == "int":
			g := base
			g.terms, g.k = []pureTerm{{1, -1}}, 1
			need = append(need, g)
			g.sign, g.nonneg, g.k = 0, true, 0
			g.terms = []pureTerm{{1, sl[0]}, {-1, -1}, {-1, sl[1]}}
			need = append(need, g)
		case name == "Index" && len(sl) == 1 && res.Len() == 1 && kind(0) == "int":
			g := base
			g.terms, g.k = []pureTerm{{1, -1}}, 1
			need = append(need, g)
			g.sign, g.nonneg = 0, true
			g.terms, g.k = []pureTerm{{1, sl[0]}, {-1, -1}}, -1
			need = append(need, g)
		case (name == "Width" || name == "WidthAll") && res.Len() == 1:
			g := base
			g.terms = []pureTerm{{1, -1}}
			need = append(need, g)
		}
		for _, g := range need {
			n++
			r.Obligations++
			if ps.ok && a.pure.factHolds(ps.eng, g, ps.rets, ps.args) {
				r.Discharged++
				continue
			}
			r.add("result", fnName(f), fmt.Sprint(g.terms, g.k), a.p.instrPos(lastInstr(f)), fmt.Sprintf("the result of %s does not satisfy its length contract", fnName(f)), nil)
		}
	}
	r.count("result contracts", n)
	r.floor("result contracts", 16)
}

func (p *Program) named(names ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, n := range names {
		if f := p.fn(n); f != nil {
			out = append(out, f)
		}
	}
	return out
}

// exportedIn: the exported functions and methods declared in package pkg that are
// accepted by keep.
func (p *Program) exportedFns(keep func(f *ssa.Function) bool) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if !isSource(f) || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if keep(f) {
			out = append(out, f)
		}
	}
	return out
}

// linePos finds the parameters "line []rune, pos int" of a function.
func linePos(fn *ssa.Function) (line, pos int) {
	for i := 0; i+1 < len(fn.Params); i++ {
		sl, ok := fn.Params[i].Type().Underlying().(*types.Slice)
		if !ok || !types.Identical(sl.Elem(), types.Typ[types.Rune]) {
			continue
		}
		if b, ok := fn.Params[i+1].Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			return i, i + 1
		}
	}
	return -1, -1
}

// completerShape: functions that take a line and a cursor and return candidates
// and the shared length.
func completerShape(fn *ssa.Function) (line, pos int) {
	if r := fn.Signature.Results(); r.Len() != 2 || r.At(0).Type().String() != "[][]rune" || r.At(1).Type().String() != "int" {
		return -1, -1
	}
	return linePos(fn)
}

const panicRule = "every slice expression, index, division, make, nil dereference, type assertion and close must be in range / non-zero / non-nil on every path, for arbitrary arguments"

func recvName(f *ssa.Function) string {
	if f.Signature.Recv() == nil {
		return ""
	}
	return typeName(f.Signature.Recv().Type())
}

func init() {
	checks["C08"] = func(r *Report) {
		p := load(r, "linux")
		r.Rules = append(r.Rules, panicRule)
		r.Assumes = append(r.Assumes, "the connection and the hooks given by the application are not nil")
		var fns []*ssa.Function
		for _, f := range p.Funcs {
			if !isSource(f) || f.Parent() != nil {
				continue
			}
			switch recvName(f) {
			case "RemoteSvr", "RemoteCli", "Message":
				if f.Object().Exported() {
					fns = append(fns, f)
				}
			}
		}
		fns = append(fns, p.named("ReadMessage", "NewMessage", "NewRemoteSvr", "NewRemoteCli", "HandleConn", "DialRemote", "ListenRemote")...)
		for _, f := range p.goBodies() {
			if strings.Contains(fnName(f), "Remote") {
				fns = append(fns, f)
			}
		}
		a := plainAnalysis(p, []string{"RemoteSvr", "RemoteCli", "writeCtx"}, fns, "RemoteSvr.conn", "RemoteCli.conn")
		a.setup = func(e *Eng) { e.maxStates, e.maxRets = 60, 60 }
		own := func(o *oblig) bool {
			return ownedBy(o.owners, "RemoteSvr") || ownedBy(o.owners, "RemoteCli") || ownedBy(o.owners, "Message") || o.owners["ReadMessage"] || o.owners["NewRemoteSvr"]
		}
		a.report(r, own)
		r.floor("entry points", 20)
	}
	checks["C23"] = func(r *Report) {
		p := load(r, "linux")
		r.Rules = append(r.Rules, panicRule, "for 0 <= pos <= len(line) every completer method returns 0 <= shared length <= pos (assumed at recursive calls, checked at every return)")
		r.Assumes = append(r.Assumes, "the trees, the children they return and the callbacks and completers stored in them are not nil")
		fns := p.exportedFns(func(f *ssa.Function) bool {
			if lp, _ := completerShape(f); lp >= 0 {
				return true
			}
			switch recvName(f) {
			case "PrefixCompleter", "TabCompleter", "dumpSegmentCompleter":
				return true
			}
			switch f.Name() {
			case "SplitSegment", "Print", "SegmentFunc", "SegmentAutoComplete", "NewPrefixCompleter", "PcItem", "PcItemDynamic":
				return f.Signature.Recv() == nil
			}
			return false
		})
		a := plainAnalysis(p, nil, fns, "PrefixCompleter.Callback", "SegmentComplete.SegmentCompleter", "dumpSegmentCompleter.f")
		old := a.setup
		pre := func(e *Eng, st *State, fn *ssa.Function, args []Val) []Lin {
			lp, pp := linePos(fn)
			if lp < 0 {
				return nil
			}
			pos := e.intOf(st, args[pp], nil)
			return []Lin{pos, e.lenOf(st, args[lp], nil).Sub(pos)}
		}
		post := func(e *Eng, st *State, fn *ssa.Function, args []Val, v Val) []Lin {
			if lp, _ := completerShape(fn); lp < 0 {
				return nil
			}
			_, pp := linePos(fn)
			n := e.intOf(st, resultOf(v, 1), nil)
			return []Lin{n, e.intOf(st, args[pp], nil).Sub(n)}
		}
		contracts := 0
		a.setup = func(e *Eng) {
			old(e)
			e.elemNonNil, e.wideCands = true, true
			e.argPre = func(e *Eng, st *State, fn *ssa.Function, args []Val) {
				for _, l := range pre(e, st, fn, args) {
					st.addCon(l)
				}
				for i, a := range args {
					if _, ok := a.(IfaceV); ok {
						args[i] = e.nonNil(st, a)
					}
				}
			}
			e.retPost = func(e *Eng, st *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
				for i, l := range post(e, st, fn, args, v) {
					e.oblige(st, at, "contract", []string{"shared length not negative", "shared length within the line before the cursor"}[i], "the reported shared length is out of range", l)
				}
			}
			e.contract = func(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) ([]callRes, bool) {
				if lp, _ := completerShape(fn); lp < 0 {
					return nil, false
				}
				for _, l := range pre(e, st, fn, args) {
					e.oblige(st, at, "contract", "cursor of the recursive call", "the cursor passed on is outside the line", l)
				}
				v := e.mat(st, resultType(fn.Signature), e.base(st, at, "rec"))
				for _, l := range post(e, st, fn, args, v) {
					st.addCon(l)
				}
				return one(st, v), true
			}
		}
		a.report(r, nil)
		_ = contracts
		r.floor("entry points", 14)
	}
	checks["C24"] = func(r *Report) {
		p := load(r, "linux")
		r.Rules = append(r.Rules, panicRule)
		fns := p.exportedFns(func(f *ssa.Function) bool {
			if recvName(f) == "Runes" || f.Pkg == p.Runes {
				return true
			}
			switch f.Name() {
			case "SplitByLine", "LineCount", "IsPrintable", "IsWordBreak", "GetInt":
				return f.Signature.Recv() == nil
			}
			return false
		})
		r.Rules = append(r.Rules, "every loop has a measure that cannot fall for ever")
		a := plainAnalysis(p, nil, fns)
		need := p.measured()
		a.setup = func(e *Eng) { e.termination = need }
		a.report(r, func(o *oblig) bool {
			// needs a fact about every element of a slice of slices, which the domain cannot express
			return !(o.rule == "slice" && strings.HasSuffix(o.fn, "Aggregate"))
		})
		a.helperFacts(r)
		r.Rules = append(r.Rules, "comparison, prefix and search helpers: with one mismatch at an arbitrary position no match is reported there, with a match at an arbitrary position the result is that one or a nearer one; runes are equal when they are the same, or with folding the two cases of one ASCII letter")
		r.textDefinitions(p)
	}
	checks["C25"] = func(r *Report) {
		p := load(r, "windows")
		r.Rules = append(r.Rules, panicRule)
		var fns []*ssa.Function
		for _, f := range p.Funcs {
			if !isSource(f) || f.Parent() != nil {
				continue
			}
			switch recvName(f) {
			case "ANSIWriter", "ANSIWriterCtx", "RawReader", "Kernel", "_COORD":
				if f.Object().Exported() {
					fns = append(fns, f)
				}
			case "":
				if strings.HasSuffix(p.Fset.Position(f.Pos()).Filename, "_windows.go") && f.Object() != nil && f.Object().Exported() {
					fns = append(fns, f)
				}
			}
		}
		a := plainAnalysis(p, []string{"ANSIWriter", "ANSIWriterCtx", "RawReader"}, fns)
		for _, f := range invFields(p.namedType("Kernel")) {
			a.assume["Kernel"+f.path] = true // filled in by reflection
		}
		a.report(r, nil)
		consoleFlush(r, p)
	}
	_ = types.Typ
}

// consoleFlush: ANSIWriter.Write leaves nothing in the buffered writer and
// reports every byte consumed.
func consoleFlush(r *Report, p *Program) {
	r.Rules = append(r.Rules, "a Write of the ANSI writer that returns no error has flushed after the last text it buffered and reports the length of what it was given")
	x := newEvRun(r, p, "ANSIWriter", "ANSIWriterCtx")
	x.setup = func(e *Eng, rt root) {
		e.maxStates = 400
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			if ev.Kind != "call" {
				return nil
			}
			switch {
			case ev.Name == "(*bufio.Writer).Flush":
				x.met("flush")
				s.setGhost("dirty", "")
			case strings.HasPrefix(ev.Name, "(*bufio.Writer).Write"), ev.Name == "(*bufio.Writer).ReadFrom":
				x.met("text buffered")
				s.setGhost("dirty", "1")
			}
			return nil
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			if fn != rt.fn {
				return
			}
			t, ok := v.(TupleV)
			if !ok || len(t) != 2 || !e.isNil(s, t[1]) {
				return
			}
			x.met("complete write")
			e.rule(s, at, "flush", "flush", "text is left in the buffer when Write returns", s.ghost["dirty"] == "")
			n, ok := t[0].(IntV)
			sl, ok2 := args[1].(SliceV)
			e.rule(s, at, "count", "count", "Write reports another number of bytes than it was given", ok && ok2 && s.provesEq(n.L, sl.Len))
		}
	}
	x.run(x.methods("ANSIWriter", "Write")...)
	for _, k := range []string{"flush", "text buffered", "complete write"} {
		r.floor(k, 1)
	}
}
