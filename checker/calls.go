package main

// Calls: inlining, builtins, and the models of library functions.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type summary struct {
	writes map[string]types.Type // scalar cells of singletons that may change: Type.path
	keys   []string
	facts  []*sumFact
}

func (e *Eng) callee(st *State, c *ssa.CallCommon) (Val, []Val) {
	args := make([]Val, len(c.Args))
	for i, a := range c.Args {
		args[i] = e.get(st, a)
	}
	return e.get(st, c.Value), args
}

func (e *Eng) onStack(st *State, fn *ssa.Function) bool {
	for c := st.fr.ctx; c != 0; c = e.ctxI[c].parent {
		if e.ctxI[c].fn == fn {
			return true
		}
	}
	return false
}

// call evaluates one call; the returned states have the caller's frame.
func (e *Eng) call(st *State, at ssa.Instruction, c *ssa.CallCommon, fn Val, args []Val) []callRes {
	if c.IsInvoke() {
		return e.invoke(st, at, c, fn, args)
	}
	f, ok := fn.(FuncV)
	if !ok {
		return e.opaque(st, at, nil, calleeShort(c), c.Signature(), args, nil)
	}
	if f.B != nil {
		return e.builtin(st, at, c, f.B, args)
	}
	if f.Fn != nil {
		return e.static(st, at, f.Fn, args, f.Bind, nil)
	}
	if !e.needNonNil(st, at, f, "func "+describe(c.Value)) || f.Null {
		return nil
	}
	return e.callback(st, at, f.Name, c.Signature(), args, f)
}

func (e *Eng) invoke(st *State, at ssa.Instruction, c *ssa.CallCommon, recv Val, args []Val) []callRes {
	x, ok := recv.(IfaceV)
	if !ok {
		x = IfaceV{ID: e.base(st, at, "recv"), Nil: e.fresh(st, at, "recvnil")}
	}
	if !e.needNonNil(st, at, x, describe(c.Value)) || x.Null {
		return nil
	}
	if x.Dyn != nil {
		if m := e.p.Prog.LookupMethod(x.Dyn, c.Method.Pkg(), c.Method.Name()); m != nil {
			return e.static(st, at, m, append([]Val{x.V}, args...), nil, nil)
		}
	}
	name := typeName(c.Value.Type()) + "." + c.Method.Name()
	return e.callback(st, at, name, c.Method.Type().(*types.Signature), args, x)
}

// callback is a call to code outside the module through an interface or a
// function value (user code or a library type).
func (e *Eng) callback(st *State, at ssa.Instruction, name string, sig *types.Signature, args []Val, recv Val) []callRes {
	ev := &Event{Kind: "call", Name: name, At: at, Args: args, Recv: recv}
	var out []callRes
	for _, s := range e.fire(st, ev) {
		if e.pre != nil {
			if r, ok := e.pre(e, s, at, name, nil, args); ok {
				out = append(out, r...)
				continue
			}
		}
		out = append(out, e.opaqueRes(s, at, nil, name, sig, args, recv)...)
	}
	return e.after(out, ev)
}

func (e *Eng) after(rs []callRes, ev *Event) []callRes {
	if e.hook == nil {
		return rs
	}
	var out []callRes
	for _, r := range rs {
		a := *ev
		a.Kind = "ret"
		a.Val = r.v
		for _, s := range e.fire(r.st, &a) {
			out = append(out, callRes{s, r.v})
		}
	}
	return out
}

func (e *Eng) static(st *State, at ssa.Instruction, fn *ssa.Function, args, binds []Val, recv Val) []callRes {
	name := extName(fn)
	e.callSites++
	ev := &Event{Kind: "call", Name: name, At: at, Args: args, Fn: fn, Recv: recv}
	var out []callRes
	for _, s := range e.fire(st, ev) {
		if e.pre != nil {
			if r, ok := e.pre(e, s, at, name, fn, args); ok {
				out = append(out, r...)
				continue
			}
		}
		if m, ok := libModels[name]; ok {
			out = append(out, m(e, s, at, fn, args)...)
			continue
		}
		if sm := e.summaries[fn]; sm != nil && e.inv != nil {
			out = append(out, e.applySummary(s, at, fn, sm, args)...)
			continue
		}
		if fn.Blocks == nil || !e.p.inModule(fn) {
			out = append(out, e.external(s, at, fn, name, args)...)
			continue
		}
		if e.pure != nil {
			if ps := e.pure.memo[fn]; ps != nil && ps.ok {
				out = append(out, e.applyPure(s, at, ps, args)...)
				continue
			}
		}
		if e.onStack(s, fn) {
			out = append(out, e.recursive(s, at, fn, name, args)...)
			continue
		}
		if s.fr.depth > 40 {
			panic("inlining too deep at " + fnName(fn))
		}
		if rd := e.readers[fn]; rd != nil && e.inv != nil {
			if r, ok := e.readerCall(s, at, fn, rd, args, binds); ok {
				out = append(out, r...)
				continue
			}
		}
		if e.modular[fn] && e.inv != nil && s.fr.depth == 0 {
			out = append(out, e.modularCall(s, at, fn, args, binds)...)
			continue
		}
		out = append(out, e.inline(s, at, fn, args, binds)...)
	}
	return e.after(out, ev)
}

// readerCall gives the same unknown result to every call of a reader with the same
// arguments until a field it reads is written.
func (e *Eng) readerCall(st *State, at ssa.Instruction, fn *ssa.Function, rd map[string]bool, args, binds []Val) ([]callRes, bool) {
	key := ""
	for _, a := range args {
		switch v := a.(type) {
		case PtrV:
			if v.Obj == nil {
				return nil, false
			}
			key += v.Obj.Name + v.Path + "|"
		case IfaceV:
			q, ok := v.V.(PtrV)
			if v.Dyn == nil || !ok || q.Obj == nil {
				return nil, false
			}
			key += v.Dyn.String() + q.Obj.Name + q.Path + "|"
		default:
			return nil, false
		}
	}
	k := cellKey{e.obj("memo "+fnName(fn), nil), key}
	if v, ok := st.heap[k]; ok {
		return one(st, v), true
	}
	// the obligations inside
	if len(e.inline(st.fork(), at, fn, args, binds)) == 0 {
		return nil, true
	}
	rt := resultType(fn.Signature)
	v := e.mat(st, rt, e.base(st, at, "rd "+fnName(fn)))
	if e.memoReads == nil {
		e.memoReads = map[*Obj]map[string]bool{}
	}
	e.memoReads[k.o] = rd
	e.cellTyp[k] = rt
	st.setCell(k, v)
	return one(st, v), true
}

// forgetMemo drops the results of readers of a field (or of any field of a type).
func (e *Eng) forgetMemo(st *State, o *Obj, path string) {
	if len(e.memoReads) == 0 || o.Typ == nil {
		return
	}
	tn := typeName(o.Typ)
	for _, k := range sortedMemo(st.heap) {
		rd := e.memoReads[k.o]
		if rd == nil {
			continue
		}
		hit := rd[tn+path]
		if path == "" {
			for f := range rd {
				hit = hit || strings.HasPrefix(f, tn+".")
			}
		}
		if hit {
			st.delCell(k)
			e.logWrite(k)
		}
	}
}

func sortedMemo(m map[cellKey]Val) []cellKey {
	var ks []cellKey
	for k := range m {
		if strings.HasPrefix(k.o.Name, "memo ") {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].o.Name+ks[i].path < ks[j].o.Name+ks[j].path })
	return ks
}

// callPre is what every caller of a separately analysed method establishes.
type callPre struct {
	facts map[string]bool // Type.path -> known boolean, Type.path.nil -> known nilness
	args  []bool          // argument is known not to be nil
}

// modularCall stands for a call of a method that is analysed as an entry point
// of its own: the object invariants hold before it and, with every field of the
// session objects unknown, after it.
func (e *Eng) modularCall(st *State, at ssa.Instruction, fn *ssa.Function, args, binds []Val) []callRes {
	p, ok := args[0].(PtrV)
	if !ok || p.Obj == nil || !p.Obj.Single || e.freshSingles(st) {
		if verbose {
			fmt.Println("INLINE", fnName(fn), ok, p.Obj, e.freshSingles(st))
		}
		return e.inline(st, at, fn, args, binds)
	}
	if e.dry == 0 {
		e.inv.check(e, st, "call of "+fnName(fn))
		pre := &callPre{facts: map[string]bool{}}
		for _, k := range sortedCells(st.heap) {
			if !k.o.Single || strings.HasPrefix(k.path, "#") {
				continue
			}
			switch v := st.heap[k].(type) {
			case BoolV:
				if t := st.truth(v); t >= 0 {
					pre.facts[k.o.Name+k.path] = t == 1
				}
			case PtrV, IfaceV, FuncV, SliceV:
				if t := st.truth(e.nilTest(st, v, at)); t >= 0 {
					pre.facts[k.o.Name+k.path+".nil"] = t == 1
				}
			}
		}
		for _, a := range args {
			nn := false
			switch v := a.(type) {
			case PtrV, IfaceV, FuncV, SliceV:
				nn = st.truth(e.nilTest(st, v, at)) == 0
			}
			pre.args = append(pre.args, nn)
		}
		if old := e.pres[fn]; old != nil {
			for k, v := range old.facts {
				if w, ok := pre.facts[k]; !ok || w != v {
					delete(old.facts, k)
				}
			}
			for i := range old.args {
				old.args[i] = old.args[i] && pre.args[i]
			}
		} else {
			e.pres[fn] = pre
		}
	}
	// forget everything shared
	for _, k := range sortedCells(st.heap) {
		if strings.HasPrefix(k.path, "#") {
			if k.path == "#cfg" && !k.o.Alloc {
				st.delCell(k)
			}
			continue
		}
		if k.o.Alloc && !k.o.Single {
			continue
		}
		t := e.cellTyp[k]
		if t == nil || !k.o.Single || strings.HasPrefix(k.path, "[") {
			st.delCell(k)
			continue
		}
		v := e.mat(st, t, e.base(st, nil, "mod"+k.o.Name+k.path))
		if e.assumeFld[typeName(k.o.Typ)+k.path] {
			v = e.nonNil(st, v)
		}
		st.setCell(k, v)
		e.logWrite(k)
	}
	for tn := range e.single {
		t := e.inv.types[tn]
		if t == nil {
			continue
		}
		o := e.objFor(t, "")
		all := map[string]bool{}
		for _, f := range invFields(t) {
			all[f.path] = true
			k := cellKey{o, f.path}
			if _, ok := st.heap[k]; !ok {
				v := e.mat(st, f.typ, e.base(st, nil, "mod"+o.Name+f.path))
				if e.assumeFld[tn+f.path] {
					v = e.nonNil(st, v)
				}
				e.cellTyp[k] = f.typ
				st.setCell(k, v)
			}
		}
		st.setCell(cellKey{o, "#inv"}, boolK(true))
		e.inv.assumeCur(e, st, o, all)
	}
	rt := resultType(fn.Signature)
	if rt == nil {
		return []callRes{{st, nil}}
	}
	return []callRes{{st, e.mat(st, rt, e.base(st, at, "mod "+fnName(fn)))}}
}

func (e *Eng) recursive(st *State, at ssa.Instruction, fn *ssa.Function, name string, args []Val) []callRes {
	if e.contract != nil {
		if r, ok := e.contract(e, st, at, fn, args); ok {
			return r
		}
	}
	e.unknown["recursive "+fnName(fn)]++
	return e.opaqueRes(st, at, fn, name, fn.Signature, args, nil)
}

// inline runs fn in a new frame.
func (e *Eng) inline(st *State, at ssa.Instruction, fn *ssa.Function, args, binds []Val) []callRes {
	if verbose && st.fr != nil && st.fr.depth == 0 {
		t0 := time.Now()
		defer func() {
			e.loopStat["T:"+fnName(fn)] += int(time.Since(t0).Milliseconds())
			e.loopStat["N:"+fnName(fn)]++
		}()
	}
	fi := e.info(fn)
	e.entered[fn] = true
	fr := &Frame{parent: st.fr, fi: fi, env: make([]Val, len(fi.vals))}
	var pc int32
	if st.fr != nil {
		pc = st.fr.ctx
		fr.depth = st.fr.depth + 1
	}
	fr.ctx = e.childCtx(pc, at, fn)
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[fi.num[p]] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			fr.env[fi.num[f]] = binds[i]
		}
	}
	st.fr, st.frO = fr, true
	exits, _, rets := e.runRegion(fi, nil, fn.Blocks[0], []*State{st})
	if len(exits) > 0 {
		panic("edge leaves " + fnName(fn))
	}
	out := make([]callRes, 0, len(rets))
	for _, r := range rets {
		s := r.st
		s.fr = s.fr.parent
		s.frO = false
		out = append(out, callRes{s, r.v})
	}
	max := e.maxRets
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		// what a returned object holds is told apart by the path it came by
		if _, ok := fn.Signature.Results().At(i).Type().Underlying().(*types.Pointer); ok && fn.Signature.Results().Len() > 1 {
			max = e.maxRets * 4
		}
	}
	if e.maxRets > 0 && len(out) > max && out[0].st.fr != nil {
		return e.mergeRets(out, fn, at)
	}
	return out
}

// mergeRets joins the states a call returns with, results included.
func (e *Eng) mergeRets(rs []callRes, fn *ssa.Function, at ssa.Instruction) []callRes {
	ro := e.obj("result of "+fnName(fn), types.Typ[types.Int])
	ro.Alloc = true
	k, ak := cellKey{ro, "v"}, cellKey{ro, "#alloc"}
	hasVal := false
	e.cellTyp[k] = resultType(fn.Signature)
	var sts []*State
	for _, r := range rs {
		if r.v != nil {
			hasVal = true
			r.st.setCell(k, r.v)
			r.st.setCell(ak, boolK(true))
		}
		sts = append(sts, r.st)
	}
	sts = e.mergeTo(sts, e.maxRets, nil, at)
	out := make([]callRes, 0, len(sts))
	for _, s := range sts {
		var v Val
		if hasVal {
			v = s.heap[k]
			s.delCell(k)
			s.delCell(ak)
		}
		out = append(out, callRes{s, v})
	}
	return out
}

// ---------------------------------------------------------------------------

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// mutatesNothing lists packages whose functions do not modify memory reachable
// from slice or pointer arguments (other than their receiver).
func pureArgs(name string) bool {
	for _, p := range []string{"fmt.", "strings.", "bytes.", "(*bytes.Buffer)", "(*bufio.Writer)", "strconv.", "unicode", "io.WriteString", "(*os.File).Write", "os.", "errors.", "Writer.Write", "io.Writer.Write", "net.Conn.Write", "time.", "sort.Search", "utf8."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return strings.HasSuffix(name, ".Write") || strings.HasSuffix(name, ".WriteString")
}

// opaqueRes models a call to unknown code.
func (e *Eng) opaque(st *State, at ssa.Instruction, fn *ssa.Function, name string, sig *types.Signature, args []Val, recv Val) []callRes {
	ev := &Event{Kind: "call", Name: name, At: at, Args: args, Fn: fn, Recv: recv}
	var out []callRes
	for _, s := range e.fire(st, ev) {
		out = append(out, e.opaqueRes(s, at, fn, name, sig, args, recv)...)
	}
	return e.after(out, ev)
}

func (e *Eng) opaqueRes(st *State, at ssa.Instruction, fn *ssa.Function, name string, sig *types.Signature, args []Val, recv Val) []callRes {
	e.unknown[name]++
	if !pureArgs(name) {
		for _, a := range args {
			e.escape(st, at, a)
		}
	}
	rt := resultType(sig)
	if rt == nil {
		return []callRes{{st, nil}}
	}
	v := e.mat(st, rt, e.base(st, at, "res "+name))
	if tv, ok := v.(TupleV); ok {
		n := len(tv)
		rs := sig.Results()
		if isErrorType(rs.At(n - 1).Type()) {
			if ie, ok := tv[n-1].(IfaceV); ok && ie.Nil != 0 {
				for i := 0; i < n-1; i++ {
					var s Sym
					switch x := tv[i].(type) {
					case PtrV:
						s = x.Nil
					case IfaceV:
						s = x.Nil
					}
					if s != 0 {
						st.addImpl(&impl{g: []guard{{ie.Nil, true}}, sets: []guard{{s, false}}})
					}
				}
			}
		}
		// io contracts of Read and Write implemented by others
		if n == 2 && len(args) >= 1 && isInt(rs.At(0).Type()) && isErrorType(rs.At(1).Type()) {
			short := name[strings.LastIndexByte(name, '.')+1:]
			if short == "Read" || short == "Write" || short == "WriteString" || short == "ReadFull" {
				b := args[len(args)-1]
				if i, ok := tv[0].(IntV); ok {
					switch b.(type) {
					case SliceV, StrV:
						st.addCon(i.L)
						st.addCon(e.lenOf(st, b, at).Sub(i.L))
					}
				}
			}
		}
	}
	return []callRes{{st, v}}
}

// escape forgets what unknown code may change through an argument.
func (e *Eng) escape(st *State, at ssa.Instruction, a Val) {
	switch x := a.(type) {
	case PtrV:
		if x.Obj != nil && x.Obj.Alloc {
			e.havocObj(st, x.Obj, at)
		}
	case SliceV:
		if x.Arr != nil {
			e.havocElems(st, x.Arr)
		}
	case IfaceV:
		if x.V != nil {
			e.escape(st, at, x.V)
		}
	case FuncV:
		for i, b := range x.Bind {
			if p, ok := b.(PtrV); ok && p.Obj != nil && p.Obj.Alloc {
				if x.Fn != nil && i < len(x.Fn.FreeVars) && onlyRead(x.Fn.FreeVars[i], 0) {
					continue
				}
				e.havocObj(st, p.Obj, at)
			}
		}
	}
}

// onlyRead: the captured variable is never assigned or passed on by address.
func onlyRead(v ssa.Value, depth int) bool {
	refs := v.Referrers()
	if refs == nil || depth > 10 {
		return false
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == v && !onlyRead(fn.FreeVars[i], depth+1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// constCell: a local variable assigned once, before it can be captured.
func constCell(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	if _, isS := deref(a.Type()).Underlying().(*types.Struct); isS {
		return false
	}
	stores := 0
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != v {
				return false
			}
			stores++
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == v && !onlyRead(fn.FreeVars[i], 0) {
					return false
				}
			}
		default:
			return false
		}
	}
	return stores == 1
}

// capturedConst: the variable behind a free variable is constant.
func capturedConst(f *ssa.FreeVar) bool {
	fn := f.Parent()
	if fn.Parent() == nil {
		return false
	}
	idx := -1
	for i, x := range fn.FreeVars {
		if x == f {
			idx = i
		}
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			m, ok := in.(*ssa.MakeClosure)
			if !ok || m.Fn != fn {
				continue
			}
			switch x := m.Bindings[idx].(type) {
			case *ssa.FreeVar:
				return capturedConst(x)
			default:
				return constCell(x)
			}
		}
	}
	return false
}

var nilSafe = map[string]bool{"os.File": true}

// external is a call to a function whose body is outside the module.
func (e *Eng) external(st *State, at ssa.Instruction, fn *ssa.Function, name string, args []Val) []callRes {
	sig := fn.Signature
	if sig.Recv() != nil && len(args) > 0 {
		if _, isP := sig.Recv().Type().Underlying().(*types.Pointer); isP && !nilSafe[typeName(sig.Recv().Type())] {
			if p, ok := args[0].(PtrV); ok {
				if !e.needNonNil(st, at, p, "receiver of "+name) {
					return nil
				}
			}
		}
		args = args[1:]
	}
	return e.opaqueRes(st, at, fn, name, sig, args, nil)
}

// ---------------------------------------------------------------------------
// builtins

func (e *Eng) builtin(st *State, at ssa.Instruction, c *ssa.CallCommon, b *ssa.Builtin, args []Val) []callRes {
	one := func(v Val) []callRes { return []callRes{{st, v}} }
	switch b.Name() {
	case "len":
		if p, ok := args[0].(PtrV); ok { // map or channel, or pointer to array
			if at2, ok := deref(c.Args[0].Type()).Underlying().(*types.Array); ok {
				return one(IntV{L: linK(at2.Len())})
			}
			_ = p
			l := e.freshInt(st, at, "maplen")
			st.addCon(l)
			return one(IntV{L: l})
		}
		if at2, ok := c.Args[0].Type().Underlying().(*types.Array); ok {
			return one(IntV{L: linK(at2.Len())})
		}
		return one(IntV{L: e.lenOf(st, args[0], at)})
	case "cap":
		if s, ok := args[0].(SliceV); ok {
			if s.Cap != nil {
				return one(IntV{L: *s.Cap})
			}
			l := e.freshInt(st, at, "cap")
			st.addCon(l.Sub(s.Len))
			return one(IntV{L: l})
		}
		l := e.freshInt(st, at, "cap")
		st.addCon(l)
		return one(IntV{L: l})
	case "append":
		v := e.appendVal(st, at, c, args)
		if e.hook == nil {
			return one(v)
		}
		var out []callRes
		for _, s := range e.fire(st, &Event{Kind: "append", At: at, Args: args, Val: v}) {
			out = append(out, callRes{s, v})
		}
		return out
	case "copy":
		n := e.freshInt(st, at, "copied")
		dl, sl := e.lenOf(st, args[0], at), e.lenOf(st, args[1], at)
		switch {
		case st.proves(sl.Sub(dl)):
			n = dl
		case st.proves(dl.Sub(sl)):
			n = sl
		default:
			st.addCon(n)
			st.addCon(dl.Sub(n))
			st.addCon(sl.Sub(n))
		}
		ev := &Event{Kind: "copy", At: at, Args: args, Val: IntV{L: n}}
		if s, ok := args[0].(SliceV); ok && s.Arr != nil {
			var et types.Type = types.Typ[types.Byte]
			if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
				et = sl.Elem()
			}
			e.invalidate(st, cellKey{s.Arr, "[*]"}, et, at)
			e.havocElems(st, s.Arr)
		}
		var out []callRes
		for _, s := range e.fire(st, ev) {
			out = append(out, callRes{s, IntV{L: n}})
		}
		return out
	case "close":
		if !e.needNonNil(st, at, args[0], describe(c.Args[0])) {
			return nil
		}
		var out []callRes
		for _, s := range e.fire(st, &Event{Kind: "close", Name: chanName(args[0]), At: at, Recv: args[0]}) {
			out = append(out, callRes{s, nil})
		}
		return out
	case "delete", "print", "println", "clear":
		return one(nil)
	case "recover":
		return one(e.mat(st, types.NewInterfaceType(nil, nil), e.base(st, at, "recover")))
	case "min", "max":
		if len(args) == 2 {
			a, ok1 := args[0].(IntV)
			d, ok2 := args[1].(IntV)
			if ok1 && ok2 {
				x, y := a.L, d.L
				if b.Name() == "max" {
					x, y = y, x
				}
				// result is x when x <= y (min) ; mirrored for max
				n := st.fork()
				var out []callRes
				if s := st.assume(BoolV{Op: '>', L: d.L.Sub(a.L)}, true); s != nil {
					if b.Name() == "min" {
						out = append(out, callRes{s, a})
					} else {
						out = append(out, callRes{s, d})
					}
				}
				if s := n.assume(BoolV{Op: '>', L: d.L.Sub(a.L)}, false); s != nil {
					if b.Name() == "min" {
						out = append(out, callRes{s, d})
					} else {
						out = append(out, callRes{s, a})
					}
				}
				return out
			}
		}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(PtrV); ok {
			if !e.needNonNil(st, at, p, "receiver") {
				return nil
			}
			p.Nil = 0
			return one(p)
		}
		return one(args[0])
	}
	rt := resultType(c.Signature())
	if rt == nil {
		return one(nil)
	}
	return one(e.mat(st, rt, e.base(st, at, b.Name())))
}

func (e *Eng) appendVal(st *State, at ssa.Instruction, c *ssa.CallCommon, args []Val) Val {
	a, ok := args[0].(SliceV)
	if !ok {
		return e.mat(st, c.Args[0].Type(), e.base(st, at, "append"))
	}
	if len(args) < 2 {
		return a
	}
	bl := e.lenOf(st, args[1], at)
	if bl.IsConst() && bl.K == 0 {
		return a
	}
	elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	o := e.obj("append "+e.base(st, at, "app"), elem)
	o.Arr, o.Site = true, at
	if a.Arr != nil {
		// may grow in place
		e.invalidate(st, cellKey{a.Arr, "[*]"}, elem, at)
		e.havocElems(st, a.Arr)
	} else {
		// nothing to grow: freshly allocated
		o.Alloc = true
		st.setCell(cellKey{o, "#alloc"}, boolK(true))
		st.setCell(cellKey{o, "#dirty"}, boolK(true))
	}
	r := SliceV{Arr: o, Len: a.Len.Add(bl), Lab: a.Lab | labOf(args[1])}
	nilA := e.nilTest(st, a, at)
	if st.truth(nilA) != 0 && !st.proves(r.Len.AddK(-1)) {
		r.Nil = e.fresh(st, at, "appnil")
		st.addImpl(&impl{g: []guard{{r.Nil, true}}, lins: []Lin{r.Len.Neg()}})
	}
	return r
}

func (e *Eng) applySummary(st *State, at ssa.Instruction, fn *ssa.Function, sm *summary, args []Val) []callRes {
	p, ok := args[0].(PtrV)
	if !ok || p.Obj == nil || !p.Obj.Single || e.freshSingles(st) || !e.inv.holdsAll(e, st) {
		return e.inline(st, at, fn, args, nil)
	}
	changed := map[*Obj]map[string]bool{}
	for _, w := range sm.keys {
		i := strings.IndexByte(w, '.')
		o := e.objFor(e.inv.types[w[:i]], "")
		e.inv.touch(e, st, o)
		k := cellKey{o, w[i:]}
		e.cellTyp[k] = sm.writes[w]
		st.setCell(k, e.mat(st, sm.writes[w], e.base(st, at, "sum"+w)))
		e.logWrite(k)
		if changed[o] == nil {
			changed[o] = map[string]bool{}
		}
		changed[o][w[i:]] = true
	}
	for _, w := range sm.keys {
		o := e.objFor(e.inv.types[w[:strings.IndexByte(w, '.')]], "")
		if changed[o] != nil {
			e.inv.assumeCur(e, st, o, changed[o])
			changed[o] = nil
		}
	}
	rt := resultType(fn.Signature)
	if rt == nil {
		return []callRes{{st, nil}}
	}
	v := e.mat(st, rt, e.base(st, at, "sum "+fnName(fn)))
	for _, f := range sm.facts {
		if !f.dead {
			st.addCon(f.lin(e, st, v))
		}
	}
	return []callRes{{st, v}}
}

// sumFact is a candidate lower bound of a result: an integer or a slice length.
type sumFact struct {
	res  int
	ln   bool
	min  int64
	dead bool
}

func (f *sumFact) lin(e *Eng, st *State, v Val) Lin {
	if tv, ok := v.(TupleV); ok {
		v = tv[f.res]
	}
	if f.ln {
		return e.lenOf(st, v, nil).AddK(-f.min)
	}
	return e.intOf(st, v, nil).AddK(-f.min)
}

// freshSingles: the state holds newly made session objects beside the ones in use.
func (e *Eng) freshSingles(st *State) bool {
	for k := range st.heap {
		if k.path == "#alloc" && k.o.Alloc && k.o.Typ != nil && e.single[typeName(k.o.Typ)] && !k.o.Arr && types.Identical(k.o.Typ, e.inv.types[typeName(k.o.Typ)]) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// library models

type libModel func(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) []callRes

var libModels map[string]libModel

func one(st *State, v Val) []callRes { return []callRes{{st, v}} }

func nop(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) []callRes {
	rt := resultType(fn.Signature)
	if rt == nil {
		return one(st, nil)
	}
	return one(st, e.mat(st, rt, e.base(st, at, "res "+fn.Name())))
}

func fnRes(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function) Val {
	return e.mat(st, resultType(fn.Signature), e.base(st, at, "res "+fn.Name()))
}

func nonNilRes(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) []callRes {
	v := e.nonNil(st, fnRes(e, st, at, fn))
	if p, ok := v.(PtrV); ok {
		o := e.obj("alloc "+e.base(st, at, "new "+fn.Name()), p.Obj.Typ)
		o.Alloc, o.Site = true, at
		st.setCell(cellKey{o, "#alloc"}, boolK(true))
		st.setCell(cellKey{o, "#dirty"}, boolK(true))
		p.Obj = o
		v = p
	}
	return one(st, v)
}

func repeatModel(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) []callRes {
	n := e.intOf(st, args[1], at)
	e.oblige(st, at, "repeat", fn.Pkg.Pkg.Name()+".Repeat", "negative Repeat count", n)
	v := fnRes(e, st, at, fn)
	return one(st, addLab(v, labOf(args[0])))
}

func labelRes(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) []callRes {
	v := fnRes(e, st, at, fn)
	for _, a := range args {
		v = addLab(v, labOf(a))
	}
	return one(st, v)
}

// listLen is the tracked length of a container/list.List.
func (e *Eng) listLen(st *State, l PtrV, at ssa.Instruction) Lin {
	k := cellKey{l.Obj, l.Path + "#len"}
	if v, ok := st.heap[k].(IntV); ok {
		return v.L
	}
	var n Lin
	if l.Obj.Alloc && !e.dirty(st, l.Obj) {
		n = Lin{}
	} else {
		n = linS(e.sym(l.Obj.Name + l.Path + "#len" + fmt.Sprint(st.bump(occKey{0, 0, "ll" + l.Obj.Name}))))
		st.addCon(n)
	}
	e.cellTyp[k] = types.Typ[types.Int]
	st.setCell(k, IntV{L: n})
	return n
}

func listRecv(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) (PtrV, bool) {
	p, ok := args[0].(PtrV)
	if !ok {
		p = e.mat(st, fn.Signature.Recv().Type(), e.base(st, at, "list")).(PtrV)
	}
	if !e.needNonNil(st, at, p, "receiver of "+fn.Name()) || p.Obj == nil {
		return p, false
	}
	return p, true
}

// otherLists forgets the lengths of lists that may be the same as l.
func (e *Eng) otherLists(st *State, l PtrV, at ssa.Instruction) {
	for c := range st.heap {
		if strings.HasSuffix(c.path, "#len") && c.o != l.Obj && !c.o.Alloc && !l.Obj.Alloc {
			st.delCell(c)
			e.logWrite(c)
		}
	}
}

func init() {
	libModels = map[string]libModel{
		"(*sync.Mutex).Lock": nop, "(*sync.Mutex).Unlock": nop, "(*sync.RWMutex).Lock": nop, "(*sync.RWMutex).Unlock": nop,
		"(*sync.WaitGroup).Add": nop, "(*sync.WaitGroup).Done": nop, "(*sync.WaitGroup).Wait": nop,
		"bytes.Repeat": repeatModel, "strings.Repeat": repeatModel,
		"bytes.NewBuffer": nonNilRes, "bufio.NewReader": nonNilRes, "bufio.NewWriter": nonNilRes, "bytes.NewReader": nonNilRes, "strings.NewReader": nonNilRes,
		"bufio.NewReaderSize": nonNilRes, "bufio.NewWriterSize": nonNilRes, "time.NewTicker": nonNilRes, "bytes.NewBufferString": nonNilRes,
		"os.FindProcess": func(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) []callRes {
			// always succeeds on unix
			v := fnRes(e, st, at, fn).(TupleV)
			v[0] = e.nonNil(st, v[0])
			return one(st, v)
		},
		"errors.New": nonNilRes, "fmt.Errorf": nonNilRes, "time.NewTimer": nonNilRes,
		"strings.TrimSpace": func(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) []callRes {
			r := labelRes(e, st, at, fn, args)
			st.addCon(e.lenOf(st, args[0], at).Sub(e.lenOf(st, r[0].v, at)))
			return r
		},
		"strings.Split": func(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) []callRes {
			r := labelRes(e, st, at, fn, args)
			if s, ok := args[1].(StrV); ok && s.Lit != nil && *s.Lit != "" {
				sv := r[0].v.(SliceV)
				st.addCon(sv.Len.AddK(-1))
				sv.Nil = 0
				r[0].v = sv
			}
			return r
		},
		"unicode/utf8.DecodeRune": decodeModel, "unicode/utf8.DecodeRuneInString": decodeModel,
		"unicode/utf8.DecodeLastRune": decodeModel, "unicode/utf8.DecodeLastRuneInString": decodeModel,
		"unicode/utf8.RuneCount": countModel, "unicode/utf8.RuneCountInString": countModel,
		"strings.Index": indexModel, "strings.IndexByte": indexModel, "strings.IndexRune": indexModel, "strings.LastIndex": indexModel, "strings.IndexAny": indexModel,
		"bytes.Index": indexModel, "bytes.IndexByte": indexModel, "bytes.IndexRune": indexModel, "bytes.LastIndex": indexModel,
		"strings.SplitN": labelRes, "strconv.Itoa": labelRes, "strconv.Atoi": labelRes,
		"bytes.Split": func(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) []callRes {
			r := labelRes(e, st, at, fn, args)
			if e.lenOf(st, args[1], at).K >= 1 && e.lenOf(st, args[1], at).IsConst() {
				sv := r[0].v.(SliceV)
				st.addCon(sv.Len.AddK(-1))
				sv.Nil = 0
				r[0].v = sv
			}
			return r
		},
		"io.ReadFull": func(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) []callRes {
			e.escape(st, at, args[1])
			v := fnRes(e, st, at, fn).(TupleV)
			n := v[0].(IntV).L
			l := e.lenOf(st, args[1], at)
			st.addCon(n)
			st.addCon(l.Sub(n))
			if er, ok := v[1].(IfaceV); ok && er.Nil != 0 {
				st.addImpl(&impl{g: []guard{{er.Nil, true}}, lins: []Lin{n.Sub(l)}})
			}
			return one(st, v)
		},
		"encoding/binary.Read": func(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) []callRes {
			if i, ok := args[2].(IfaceV); ok {
				if p, ok := i.V.(PtrV); ok && p.Obj != nil {
					t := deref(i.Dyn)
					e.store(st, p.Obj, p.Path, t, e.mat(st, t, e.base(st, at, "decoded")), at)
				} else if i.V != nil {
					e.escape(st, at, i.V)
				}
			}
			return one(st, fnRes(e, st, at, fn))
		},
		"(*sync.Once).Do": func(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) []callRes {
			n := st.fork()
			out := one(n, nil)
			if f, ok := args[1].(FuncV); ok && f.Fn != nil {
				out = append(out, e.static(st, at, f.Fn, nil, f.Bind, nil)...)
			}
			return out
		},
		"container/list.New": func(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) []callRes {
			r := nonNilRes(e, st, at, fn, args)
			p := r[0].v.(PtrV)
			k := cellKey{p.Obj, "#len"}
			e.cellTyp[k] = types.Typ[types.Int]
			st.setCell(k, IntV{})
			return r
		},
		"(*container/list.List).Init": func(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) []callRes {
			p, ok := listRecv(e, st, at, fn, args)
			if !ok {
				return nil
			}
			e.otherLists(st, p, at)
			k := cellKey{p.Obj, p.Path + "#len"}
			st.setCell(k, IntV{})
			e.logWrite(k)
			return one(st, p)
		},
		"(*container/list.List).Len": func(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) []callRes {
			p, ok := listRecv(e, st, at, fn, args)
			if !ok {
				return nil
			}
			return one(st, IntV{L: e.listLen(st, p, at)})
		},
		"(*container/list.List).Front": listEnd, "(*container/list.List).Back": listEnd,
		"(*container/list.List).PushBack": listPush, "(*container/list.List).PushFront": listPush,
		"(*container/list.List).Remove": func(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) []callRes {
			p, ok := listRecv(e, st, at, fn, args)
			if !ok {
				return nil
			}
			if !e.needNonNil(st, at, args[1], "element passed to Remove") {
				return nil
			}
			l := e.listLen(st, p, at)
			e.otherLists(st, p, at)
			k := cellKey{p.Obj, p.Path + "#len"}
			n := e.freshInt(st, at, "removed") // the element may belong to another list
			st.addCon(n)
			st.addCon(l.Sub(n))
			st.addCon(n.Sub(l).AddK(1))
			st.setCell(k, IntV{L: n})
			e.logWrite(k)
			return one(st, fnRes(e, st, at, fn))
		},
		"(*container/list.Element).Next": listStep, "(*container/list.Element).Prev": listStep,
	}
	for _, n := range []string{"Uint16", "Uint32", "Uint64", "PutUint16", "PutUint32", "PutUint64"} {
		n := n
		size := map[string]int64{"16": 2, "32": 4, "64": 8}[n[len(n)-2:]]
		for _, ty := range []string{"bigEndian", "littleEndian"} {
			libModels["(encoding/binary."+ty+")."+n] = func(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) []callRes {
				l := e.lenOf(st, args[1], at)
				e.oblige(st, at, "index", "binary."+n, "buffer too short for "+n, l.AddK(-size))
				if resultType(fn.Signature) == nil {
					e.escape(st, at, args[1])
					return one(st, nil)
				}
				return one(st, fnRes(e, st, at, fn))
			}
		}
	}
}

func listEnd(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) []callRes {
	p, ok := listRecv(e, st, at, fn, args)
	if !ok {
		return nil
	}
	l := e.listLen(st, p, at)
	r := fnRes(e, st, at, fn).(PtrV)
	switch {
	case st.proves(l.AddK(-1)):
		r.Nil = 0
	case st.proves(l.Neg()):
		return one(st, PtrV{})
	default:
		st.addImpl(&impl{g: []guard{{r.Nil, true}}, lins: []Lin{l.Neg()}})
		st.addImpl(&impl{g: []guard{{r.Nil, false}}, lins: []Lin{l.AddK(-1)}})
	}
	return one(st, r)
}

func listPush(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) []callRes {
	p, ok := listRecv(e, st, at, fn, args)
	if !ok {
		return nil
	}
	l := e.listLen(st, p, at)
	e.otherLists(st, p, at)
	k := cellKey{p.Obj, p.Path + "#len"}
	st.setCell(k, IntV{L: l.AddK(1)})
	e.logWrite(k)
	r := fnRes(e, st, at, fn).(PtrV)
	r.Nil = 0
	ek := cellKey{r.Obj, ".Value"}
	e.cellTyp[ek] = types.NewInterfaceType(nil, nil)
	st.setCell(ek, args[1])
	return one(st, r)
}

func listStep(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) []callRes {
	if _, ok := listRecv(e, st, at, fn, args); !ok {
		return nil
	}
	return one(st, fnRes(e, st, at, fn))
}

// listElemType is the only dynamic type ever stored in a list by the module.
func (p *Program) listElemType() types.Type {
	if p.listTypDone {
		return p.listTyp
	}
	p.listTypDone = true
	var t types.Type
	bad := false
	see := func(v ssa.Value) {
		m, ok := v.(*ssa.MakeInterface)
		if !ok || t != nil && !types.Identical(t, m.X.Type()) {
			bad = true
			return
		}
		t = m.X.Type()
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case ssa.CallInstruction:
					f := in.Common().StaticCallee()
					if f == nil {
						continue
					}
					n := extName(f)
					if strings.HasPrefix(n, "(*container/list.List).Push") || strings.HasPrefix(n, "(*container/list.List).Insert") {
						if strings.HasSuffix(n, "List") {
							continue
						}
						see(in.Common().Args[1])
					}
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
						if o, f := fieldOf(fa.X.Type(), fa.Field); o == "list.Element" && f == "Value" {
							see(in.Val)
						}
					}
				}
			}
		}
	}
	if !bad {
		p.listTyp = t
	}
	return p.listTyp
}

// decodeModel: 0 <= size <= len, and size is 0 only for empty input.
func decodeModel(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) []callRes {
	v := fnRes(e, st, at, fn).(TupleV)
	l := e.lenOf(st, args[0], at)
	n := v[1].(IntV).L
	st.addCon(n)
	st.addCon(l.Sub(n))
	st.addCon(linK(4).Sub(n))
	if st.proves(l.AddK(-1)) {
		st.addCon(n.AddK(-1))
	}
	return one(st, v)
}

func countModel(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) []callRes {
	v := fnRes(e, st, at, fn)
	n := v.(IntV).L
	st.addCon(n)
	st.addCon(e.lenOf(st, args[0], at).Sub(n))
	return one(st, v)
}

func indexModel(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) []callRes {
	v := fnRes(e, st, at, fn)
	n := v.(IntV).L
	st.addCon(n.AddK(1))
	st.addCon(e.lenOf(st, args[0], at).Sub(n))
	return one(st, v)
}
