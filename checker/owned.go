package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C09: the edit buffer shares no memory with anyone else. Inside the edit buffer
// every exit of every method that takes, stores or returns runes is analysed
// (edit.owned). Outside, the origins of every slice of runes are followed through
// the module, call by call: where it was allocated, the field, channel or callback
// it came from.

func init() {
	checks["C09"] = func(r *Report) {
		editRun(r, "C09")
		p := load(r, "linux")
		newOrigins(p, isRuneSlice).judge(r)
		newOrigins(p, func(t types.Type) bool {
			sl, ok := t.Underlying().(*types.Slice)
			return ok && isRuneSlice(sl.Elem())
		}).judgeLists(r)
	}
}

// term is one origin of memory that holds runes.
type term struct {
	k byte // n allocation, p parameter, f field, c channel, g global, u user code, x unknown
	s string
	i int
}
type tset map[term]bool

func (t tset) add(o tset) bool {
	n := len(t)
	for k := range o {
		t[k] = true
	}
	return len(t) > n
}

// runeSink: memory is kept or handed out.
type runeSink struct {
	to string // field T.f, chan T.f, callback T.m, global g, #param
	i  int    // #param
	at ssa.Instruction
}
type runeSum struct {
	res    []tset
	sinks  map[runeSink]tset
	writes map[ssa.Instruction]tset
}

type origins struct {
	p  *Program
	is func(t types.Type) bool // the slices that are followed

	sums   map[*ssa.Function]*runeSum
	units  []*ssa.Function
	ids    map[ssa.Instruction]string
	static map[*ssa.Function]bool // called by name somewhere
}

func newOrigins(p *Program, is func(t types.Type) bool) *origins {
	o := &origins{p: p, is: is, sums: map[*ssa.Function]*runeSum{}, ids: map[ssa.Instruction]string{}, static: map[*ssa.Function]bool{}}
	o.solve()
	return o
}

func (o *origins) holds(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return o.is(t) || o.holds(u.Elem())
	case *types.Array:
		return o.is(types.NewSlice(u.Elem())) || o.holds(u.Elem())
	case *types.Pointer:
		return o.holds(u.Elem())
	}
	return false
}

// elems: t is (a pointer to) a followed slice or array, not a slice of such.
func (o *origins) elems(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return o.elems(u.Elem())
	case *types.Slice:
		return o.is(t)
	case *types.Array:
		return o.is(types.NewSlice(u.Elem()))
	}
	return false
}

func (o *origins) id(in ssa.Instruction) string {
	if s, ok := o.ids[in]; ok {
		return s
	}
	s := fmt.Sprintf("%d:%s", len(o.ids), o.p.instrPos(in))
	o.ids[in] = s
	return s
}

func (o *origins) fresh(at ssa.Instruction) tset { return tset{{k: 'n', s: o.id(at)}: true} }

func nested(f *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{f}
	for _, a := range f.AnonFuncs {
		out = append(out, nested(a)...)
	}
	return out
}

func (o *origins) solve() {
	for _, f := range o.p.Funcs {
		if f.Parent() == nil && f.Blocks != nil && f.Synthetic == "" {
			o.units = append(o.units, f)
			o.sums[f] = &runeSum{sinks: map[runeSink]tset{}, writes: map[ssa.Instruction]tset{}}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						o.static[g] = true
					}
				}
			}
		}
	}
	for n := 0; n < 30; n++ {
		change := false
		for _, u := range o.units {
			if o.unit(u) {
				change = true
			}
		}
		if !change {
			return
		}
	}
}

type unitEval struct {
	o      *origins
	u      *ssa.Function
	env    map[ssa.Value]tset
	bind   map[*ssa.FreeVar]ssa.Value
	rets   map[*ssa.Function][]tset
	sum    *runeSum
	change bool // of env
	grown  bool // of the summary
}

// unit recomputes the summary of u and the closures in it.
func (o *origins) unit(u *ssa.Function) bool {
	x := &unitEval{o: o, u: u, env: map[ssa.Value]tset{}, bind: map[*ssa.FreeVar]ssa.Value{}, rets: map[*ssa.Function][]tset{}, sum: o.sums[u]}
	fns := nested(u)
	for _, f := range fns {
		x.rets[f] = make([]tset, f.Signature.Results().Len())
		for i := range x.rets[f] {
			x.rets[f][i] = tset{}
		}
		for i, q := range f.Params {
			if !o.holds(q.Type()) {
				continue
			}
			if f == u {
				x.put(q, tset{{k: 'p', i: i}: true})
			} else if !o.static[f] {
				x.put(q, tset{{k: 'u', s: "an argument of " + fnName(f)}: true})
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeClosure); ok {
					for i, fv := range m.Fn.(*ssa.Function).FreeVars {
						x.bind[fv] = m.Bindings[i]
					}
				}
			}
		}
	}
	for {
		x.change = false
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					x.instr(f, in)
				}
			}
		}
		if !x.change {
			break
		}
	}
	if x.sum.res == nil {
		x.sum.res = make([]tset, len(x.rets[u]))
		for i := range x.sum.res {
			x.sum.res[i] = tset{}
		}
	}
	grown := x.grown
	for i, t := range x.rets[u] {
		if x.sum.res[i].add(t) {
			grown = true
		}
	}
	return grown
}

func (x *unitEval) put(v ssa.Value, t tset) {
	e := x.env[v]
	if e == nil {
		e = tset{}
		x.env[v] = e
	}
	if e.add(t) {
		x.change = true
	}
}

func (x *unitEval) sink(k runeSink, t tset) {
	if len(t) == 0 {
		return
	}
	e := x.sum.sinks[k]
	if e == nil {
		e = tset{}
		x.sum.sinks[k] = e
	}
	if e.add(t) {
		x.grown, x.change = true, true
	}
}

func (x *unitEval) write(at ssa.Instruction, t tset) {
	if len(t) == 0 {
		return
	}
	e := x.sum.writes[at]
	if e == nil {
		e = tset{}
		x.sum.writes[at] = e
	}
	if e.add(t) {
		x.grown, x.change = true, true
	}
}

// at is what the memory behind v may be.
func (x *unitEval) at(v ssa.Value) tset {
	switch v := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.FreeVar:
		if b := x.bind[v]; b != nil {
			return x.at(b)
		}
		return tset{{k: 'x', s: "captured " + v.Name()}: true}
	case *ssa.Global:
		return tset{{k: 'g', s: v.Name()}: true}
	}
	return x.env[v]
}

// cell is the variable or field v points to.
func (x *unitEval) cell(v ssa.Value) (alloc *ssa.Alloc, field string) {
	switch v := v.(type) {
	case *ssa.Alloc:
		return v, ""
	case *ssa.FreeVar:
		if b := x.bind[v]; b != nil {
			return x.cell(b)
		}
	case *ssa.FieldAddr:
		ow, n := fieldOf(v.X.Type(), v.Field)
		return nil, "field " + ow + "." + n
	case *ssa.Global:
		return nil, "global " + v.Name()
	}
	return nil, ""
}

// into adds t to the elements of the slice of slices v.
func (x *unitEval) into(v ssa.Value, t tset, at ssa.Instruction, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch w := v.(type) {
	case *ssa.Slice:
		x.into(w.X, t, at, seen)
	case *ssa.Phi:
		for _, e := range w.Edges {
			x.into(e, t, at, seen)
		}
	case *ssa.UnOp:
		if a, f := x.cell(w.X); a != nil {
			x.put(a, t)
		} else if f != "" {
			x.sink(runeSink{to: f, at: at}, t)
		}
	case *ssa.Call:
		if b, ok := w.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			x.into(w.Call.Args[0], t, at, seen)
		}
	case *ssa.FreeVar:
		if b := x.bind[w]; b != nil {
			x.into(b, t, at, seen)
		}
	case *ssa.Parameter:
		if w.Parent() == x.u {
			for i, q := range x.u.Params {
				if q == w {
					x.sink(runeSink{to: "#param", i: i, at: at}, t)
				}
			}
		}
	}
	x.put(v, t)
}

func (x *unitEval) instr(f *ssa.Function, in ssa.Instruction) {
	o := x.o
	switch v := in.(type) {
	case *ssa.Alloc:
		if t := v.Type().Underlying().(*types.Pointer).Elem(); o.elems(t) {
			if _, ok := t.Underlying().(*types.Array); ok {
				x.put(v, o.fresh(v))
			}
		}
	case *ssa.MakeSlice:
		if o.is(v.Type()) {
			x.put(v, o.fresh(v))
		}
	case *ssa.Phi:
		if o.holds(v.Type()) {
			for _, e := range v.Edges {
				x.put(v, x.at(e))
			}
		}
	case *ssa.Slice:
		if o.holds(v.Type()) {
			x.put(v, x.at(v.X))
		}
	case *ssa.ChangeType:
		if o.holds(v.Type()) {
			x.put(v, x.at(v.X))
		}
	case *ssa.Convert:
		if o.holds(v.Type()) {
			if b, ok := v.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				x.put(v, o.fresh(v))
			} else {
				x.put(v, x.at(v.X))
			}
		}
	case *ssa.Field:
		if o.holds(v.Type()) {
			ow, n := fieldOf(v.X.Type(), v.Field)
			x.put(v, tset{{k: 'f', s: "field " + ow + "." + n}: true})
		}
	case *ssa.FieldAddr, *ssa.IndexAddr:
		if ia, ok := v.(*ssa.IndexAddr); ok && o.holds(ia.Type()) {
			x.put(ia, x.at(ia.X))
		}
	case *ssa.Index:
		if o.holds(v.Type()) {
			x.put(v, x.at(v.X))
		}
	case *ssa.TypeAssert:
		if o.holds(v.AssertedType) {
			x.put(v, tset{{k: 'x', s: "an interface value"}: true})
		}
	case *ssa.Lookup:
		if o.holds(v.Type()) {
			x.put(v, tset{{k: 'x', s: "a map"}: true})
		}
	case *ssa.UnOp:
		if !o.holds(v.Type()) {
			return
		}
		if v.Op == token.ARROW {
			for _, c := range o.p.chanOf(v.X) {
				x.put(v, tset{{k: 'c', s: "chan " + c}: true})
			}
			return
		}
		if a, fld := x.cell(v.X); a != nil {
			x.put(v, x.at(a))
		} else if fld != "" {
			k := byte('f')
			if strings.HasPrefix(fld, "global") {
				k = 'g'
			}
			x.put(v, tset{{k: k, s: fld}: true})
		} else {
			x.put(v, x.at(v.X))
		}
	case *ssa.Extract:
		if !o.holds(v.Type()) {
			return
		}
		switch t := v.Tuple.(type) {
		case *ssa.Call:
			rs := x.call(f, t)
			if v.Index < len(rs) {
				x.put(v, rs[v.Index])
			}
		case *ssa.Select:
			n := 2
			for _, st := range t.States {
				if st.Dir == types.RecvOnly {
					if n == v.Index {
						for _, c := range o.p.chanOf(st.Chan) {
							x.put(v, tset{{k: 'c', s: "chan " + c}: true})
						}
					}
					n++
				}
			}
		case *ssa.UnOp:
			for _, c := range o.p.chanOf(t.X) {
				x.put(v, tset{{k: 'c', s: "chan " + c}: true})
			}
		default:
			x.put(v, tset{{k: 'x', s: "a value that is not followed"}: true})
		}
	case *ssa.Call:
		rs := x.call(f, v)
		if len(rs) == 1 && o.holds(v.Type()) {
			x.put(v, rs[0])
		}
	case *ssa.Go:
		x.call(f, v)
	case *ssa.Defer:
		x.call(f, v)
	case *ssa.Store:
		if ia, ok := v.Addr.(*ssa.IndexAddr); ok && o.elems(ia.X.Type()) {
			x.write(v, x.at(ia.X))
			return
		}
		if !o.holds(v.Val.Type()) {
			return
		}
		t := x.at(v.Val)
		if ia, ok := v.Addr.(*ssa.IndexAddr); ok {
			x.into(ia.X, t, v, map[ssa.Value]bool{})
			return
		}
		if a, fld := x.cell(v.Addr); a != nil {
			x.put(a, t)
		} else if fld != "" {
			x.sink(runeSink{to: fld, at: v}, t)
		} else {
			x.sink(runeSink{to: "an unknown variable", at: v}, t)
		}
	case *ssa.Send:
		if o.holds(v.X.Type()) {
			for _, c := range o.p.chanOf(v.Chan) {
				x.sink(runeSink{to: "chan " + c, at: v}, x.at(v.X))
			}
		}
	case *ssa.Select:
		for _, st := range v.States {
			if st.Dir == types.SendOnly && o.holds(st.Send.Type()) {
				for _, c := range o.p.chanOf(st.Chan) {
					x.sink(runeSink{to: "chan " + c, at: v}, x.at(st.Send))
				}
			}
		}
	case *ssa.Return:
		for i, q := range v.Results {
			if o.holds(q.Type()) && x.rets[f][i].add(x.at(q)) {
				x.change = true
			}
		}
	}
}

// call is the effect of a call and the origins of its results.
func (x *unitEval) call(f *ssa.Function, in ssa.CallInstruction) []tset {
	o, c := x.o, in.Common()
	at := in.(ssa.Instruction)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if !o.holds(c.Args[0].Type()) {
				return nil
			}
			out := tset{}
			if !o.is(c.Args[0].Type()) {
				out.add(x.at(c.Args[0]))
				if len(c.Args) > 1 {
					x.into(c.Args[0], x.at(c.Args[1]), at, map[ssa.Value]bool{})
					out.add(x.at(c.Args[1]))
				}
				return []tset{out}
			}
			out.add(o.fresh(at))
			if !noRoom(c.Args[0]) {
				x.write(at, x.at(c.Args[0]))
				out.add(x.at(c.Args[0]))
			}
			return []tset{out}
		case "copy":
			if o.is(c.Args[0].Type()) {
				x.write(at, x.at(c.Args[0]))
			} else if o.holds(c.Args[0].Type()) {
				x.into(c.Args[0], x.at(c.Args[1]), at, map[ssa.Value]bool{})
			}
		}
		return nil
	}
	args := c.Args
	res := c.Signature().Results()
	out := make([]tset, res.Len())
	for i := range out {
		out[i] = tset{}
	}
	g := c.StaticCallee()
	if g == nil {
		// user code, or an implementation of this module that is judged on its own
		n := calleeName(c)
		if n == "" {
			n = "a function value"
		}
		for _, a := range args {
			if o.holds(a.Type()) {
				x.sink(runeSink{to: "callback " + n, at: at}, x.at(a))
			}
		}
		for i := range out {
			if o.holds(res.At(i).Type()) {
				out[i].add(tset{{k: 'u', s: "what " + n + " returns"}: true})
			}
		}
		return out
	}
	if g.Parent() != nil && x.rets[g] != nil {
		for i, q := range g.Params {
			if i < len(args) && o.holds(q.Type()) {
				x.put(q, x.at(args[i]))
			}
		}
		return x.rets[g]
	}
	sum := o.sums[g]
	if sum == nil {
		n := extName(g)
		pure := false
		for _, s := range []string{"unicode", "fmt.", "slices.Equal", "slices.Clone", "slices.Contains", "slices.Index", "slices.Compare", "len"} {
			pure = pure || strings.HasPrefix(n, s)
		}
		for _, a := range args {
			if o.holds(a.Type()) && !pure {
				x.write(at, x.at(a))
			}
		}
		for i := range out {
			if o.holds(res.At(i).Type()) {
				out[i].add(o.fresh(at))
				for _, a := range args {
					if o.holds(a.Type()) && !pure {
						out[i].add(x.at(a))
					}
				}
			}
		}
		return out
	}
	if recvName(g) == "RuneBuffer" && recvName(x.u) != "RuneBuffer" {
		// analysed by edit.owned
		for i := range out {
			if o.holds(res.At(i).Type()) {
				out[i].add(o.fresh(at))
			}
		}
		for k, t := range sum.sinks {
			if !strings.HasPrefix(k.to, "#") && !bufferField(k.to) {
				x.sink(k, x.subst(t, args, at))
			}
		}
		return out
	}
	for k, t := range sum.sinks {
		t = x.subst(t, args, at)
		if k.to == "#param" {
			if k.i < len(args) {
				x.into(args[k.i], t, at, map[ssa.Value]bool{})
			}
			continue
		}
		x.sink(k, t)
	}
	for w, t := range sum.writes {
		x.write(w, x.subst(t, args, at))
	}
	for i, t := range sum.res {
		out[i] = x.subst(t, args, at)
	}
	return out
}

// subst is t of a callee, seen by the caller.
func (x *unitEval) subst(t tset, args []ssa.Value, at ssa.Instruction) tset {
	out := tset{}
	for k := range t {
		switch k.k {
		case 'p':
			if k.i < len(args) {
				out.add(x.at(args[k.i]))
			}
		case 'n':
			if strings.Count(k.s, "<") < 5 {
				k.s += "<" + x.o.id(at)
			}
			out[k] = true
		default:
			out[k] = true
		}
	}
	return out
}

// noRoom: appending to v always moves to new memory.
func noRoom(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.IsNil()
	case *ssa.Slice:
		if c, ok := v.Max.(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) == 0 {
			return true
		}
	case *ssa.ChangeType:
		return noRoom(v.X)
	}
	return false
}

func bufferField(to string) bool {
	return strings.HasPrefix(to, "field RuneBuffer.") || strings.HasPrefix(to, "field runeBufferBck.")
}

// private: memory that nobody else may hold.
func private(to string) bool {
	return bufferField(to) || strings.HasPrefix(to, "field hisItem.") || strings.HasPrefix(to, "chan ")
}

func (t term) show() string {
	switch t.k {
	case 'f':
		return "the memory of " + strings.TrimPrefix(t.s, "field ")
	case 'c':
		return "what was sent on " + strings.TrimPrefix(t.s, "chan ")
	case 'g':
		return "the variable " + strings.TrimPrefix(t.s, "global ")
	case 'n':
		return "memory that is also kept elsewhere"
	}
	return t.s
}

func sinkName(to string) string {
	switch {
	case strings.HasPrefix(to, "field "):
		return "kept in " + to[6:]
	case strings.HasPrefix(to, "chan "):
		return "sent on " + to[5:]
	case strings.HasPrefix(to, "callback "):
		return "given to " + to[9:]
	case strings.HasPrefix(to, "global "):
		return "kept in the variable " + to[7:]
	}
	return to
}

// exposed: users can call f.
func exposed(f *ssa.Function) bool {
	if f.Object() == nil || !f.Object().Exported() {
		return false
	}
	n := recvName(f)
	return n == "" || token.IsExported(n)
}

func (o *origins) judge(r *Report) {
	type flow struct {
		u    *ssa.Function
		at   ssa.Instruction
		to   string
		ts   tset
		text bool
	}
	var flows, writes []flow
	roots := 0
	for _, u := range o.units {
		// functions that are called are judged with their callers
		if o.static[u] && !exposed(u) && recvName(u) != "RuneBuffer" {
			continue
		}
		roots++
		ground := func(t tset) tset {
			out := tset{}
			for k := range t {
				if k.k == 'p' {
					k = term{k: 'u', s: "an argument of " + fnName(u)}
				}
				out[k] = true
			}
			return out
		}
		for k, t := range o.sums[u].sinks {
			if recvName(u) == "RuneBuffer" && bufferField(k.to) || k.to == "#param" {
				continue
			}
			flows = append(flows, flow{u: u, at: k.at, to: k.to, ts: ground(t)})
		}
		for w, t := range o.sums[u].writes {
			if recvName(u) == "RuneBuffer" {
				continue
			}
			writes = append(writes, flow{u: u, at: w, ts: ground(t)})
		}
		for _, t := range o.sums[u].res {
			if exposed(u) && recvName(u) != "RuneBuffer" && len(t) > 0 && len(u.Blocks) > 0 {
				flows = append(flows, flow{u: u, at: lastInstr(u), to: "returned by " + fnName(u), ts: ground(t)})
			}
		}
	}
	order := func(fs []flow) {
		sort.SliceStable(fs, func(i, j int) bool {
			if a, b := fnName(fs[i].u), fnName(fs[j].u); a != b {
				return a < b
			}
			return o.id(fs[i].at) < o.id(fs[j].at)
		})
	}
	order(flows)
	order(writes)
	kept := map[term]bool{} // memory that is reused for the same purpose
	for _, f := range flows {
		for k := range f.ts {
			if k.k == 'f' && k.s == f.to {
				kept[k] = true
			}
		}
	}
	// what fields that are not private may hold
	held := map[string]tset{}
	for _, f := range flows {
		if strings.HasPrefix(f.to, "field ") && !private(f.to) || strings.HasPrefix(f.to, "global ") {
			if held[f.to] == nil {
				held[f.to] = tset{}
			}
			held[f.to].add(f.ts)
		}
	}
	resolve := func(t tset) tset {
		out := tset{}
		todo := []term{}
		for k := range t {
			todo = append(todo, k)
		}
		for len(todo) > 0 {
			k := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			if out[k] {
				continue
			}
			out[k] = true
			if k.k == 'f' || k.k == 'g' {
				for q := range held[k.s] {
					todo = append(todo, q)
				}
			}
		}
		return out
	}
	bad := func(f flow, rule, construct, msg string, ok bool) {
		r.Obligations++
		if ok {
			r.Discharged++
			return
		}
		r.add(rule, fnName(f.at.Parent()), construct, o.p.instrPos(f.at), msg, []string{"seen from " + fnName(f.u)})
	}
	names := func(t tset, want func(k term) bool) string {
		var out []string
		for k := range t {
			if want(k) && !contains(out, k.show()) {
				out = append(out, k.show())
			}
		}
		sort.Strings(out)
		return strings.Join(out, ", ")
	}
	for _, f := range flows {
		if f.to == "callback Painter.Paint" {
			continue
		}
		r.count("places where runes are kept or handed out", 1)
		if private(f.to) {
			// only memory nobody else has
			w := names(f.ts, func(k term) bool {
				if k.k == 'f' || k.k == 'c' {
					return k.s != f.to
				}
				if k.k != 'n' {
					return true
				}
				for _, g := range flows {
					if g.to != f.to && g.to != "callback Painter.Paint" && g.u == f.u && g.ts[k] {
						return true
					}
				}
				return false
			})
			bad(f, "private", f.to, sinkName(f.to)+": "+w+"; it must be a copy", w == "")
			continue
		}
		if strings.HasPrefix(f.to, "callback ") || strings.HasPrefix(f.to, "returned ") {
			w := names(resolve(f.ts), func(k term) bool { return k.k == 'f' && private(k.s) || k.k == 'x' })
			bad(f, "handed out", f.to, sinkName(f.to)+": "+w+"; it must be a copy", w == "")
		}
	}
	for _, f := range writes {
		r.count("places where runes are changed in place", 1)
		w := names(resolve(f.ts), func(k term) bool {
			return k.k == 'u' || k.k == 'c' || k.k == 'x' || k.k == 'f' && strings.HasPrefix(k.s, "field hisItem.") && !kept[k]
		})
		bad(f, "in place", "write", "changes in place: "+w, w == "")
	}
	r.count("functions whose slices of runes are followed", len(o.units))
	r.floor("functions whose slices of runes are followed", 100)
	r.floor("places where runes are kept or handed out", 15)
	r.floor("places where runes are changed in place", 10)
	_ = roots
}

// judgeLists: lists of candidates that belong to user code are not changed.
func (o *origins) judgeLists(r *Report) {
	for _, u := range o.units {
		if o.static[u] && !exposed(u) {
			continue
		}
		for w, t := range o.sums[u].writes {
			if _, ok := w.(*ssa.Store); !ok {
				continue // append only writes behind the end
			}
			r.count("places where lists of runes are changed in place", 1)
			r.Obligations++
			var bad []string
			for k := range t {
				if k.k == 'u' || k.k == 'x' {
					bad = append(bad, k.show())
				}
			}
			if len(bad) == 0 {
				r.Discharged++
				continue
			}
			sort.Strings(bad)
			r.add("in place", fnName(w.Parent()), "list", o.p.instrPos(w), "changes the list in place: "+strings.Join(bad, ", "), []string{"seen from " + fnName(u)})
		}
	}
}
