package main

// C13: what a masked session writes.  The program is specialised for
// Config.EnableMask = true by an interprocedural conditional propagation of
// boolean constants (fields, parameters and results included), and the content of
// the typed text is followed through what is left of it, flow-insensitively,
// to every call that writes to the terminal.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type tri uint8 // 0: no value yet, 1: false, 2: true, 3: both

type maskAn struct {
	p       *Program
	vals    map[ssa.Value]tri
	fields  map[string]tri // boolean fields, "Type.field"
	rets    map[*ssa.Function][]tri
	blocks  map[*ssa.BasicBlock]bool
	fns     map[*ssa.Function]bool
	roots   map[*ssa.Function]bool
	taken   map[*ssa.Function]bool // used as a value
	callers map[*ssa.Function][]ssa.CallInstruction
	binds   map[*ssa.Function][]*ssa.MakeClosure
	callees map[ssa.CallInstruction][]*ssa.Function
	changed bool

	tv    map[ssa.Value]string // tainted values and where the taint came from
	tf    map[string]string    // tainted fields
	tr    map[*ssa.Function]map[int]string
	sinks map[ssa.Instruction]string
	seenW map[ssa.Value]bool
	nSink map[ssa.Instruction]bool
	// loads of a text that is known to be empty where it is read
	empty  map[ssa.Instruction]bool
	stored map[*ssa.Function]map[string]bool
}

const (
	maskField  = "Config.EnableMask"
	textSource = "the text being typed"
)

var typedFields = []string{"RuneBuffer.buf", "RuneBuffer.lastKill", "opSearch.data", "opCompleter.candidateSource", "hisItem.Source", "hisItem.Tmp"}

func triOf(b bool) tri {
	if b {
		return 2
	}
	return 1
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (m *maskAn) module(fn *ssa.Function) bool {
	return fn != nil && len(fn.Blocks) > 0 && m.p.inModule(fn)
}

func fieldKey(x types.Type, idx int) string {
	o, f := fieldOf(x, idx)
	return o + "." + f
}

func (m *maskAn) calleesAt(c ssa.CallInstruction) []*ssa.Function {
	if out, ok := m.callees[c]; ok {
		return out
	}
	var out []*ssa.Function
	if f := c.Common().StaticCallee(); f != nil {
		out = []*ssa.Function{f}
	} else if _, ok := c.Common().Value.(*ssa.Builtin); !ok {
		out = m.p.calleesOf(c)
	}
	m.callees[c] = out
	return out
}

// enter makes the entry block of fn reachable.
func (m *maskAn) enter(fn *ssa.Function) {
	if m.module(fn) && !m.fns[fn] {
		m.fns[fn] = true
		m.blocks[fn.Blocks[0]] = true
		m.changed = true
	}
}

func (m *maskAn) get(v ssa.Value) tri {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Bool {
			return triOf(constant.BoolVal(v.Value))
		}
		if isBoolT(v.Type()) {
			return 1
		}
		return 3
	case *ssa.Global, *ssa.FreeVar:
		return 3
	}
	return m.vals[v]
}

func (m *maskAn) join(v ssa.Value, t tri) {
	if n := m.vals[v] | t; n != m.vals[v] {
		m.vals[v] = n
		m.changed = true
	}
}

func (m *maskAn) joinField(k string, t tri) {
	if n := m.fields[k] | t; n != m.fields[k] {
		m.fields[k] = n
		m.changed = true
	}
}

// operands are the arguments of a call aligned with the parameters of fn.
func operands(c *ssa.CallCommon, fn *ssa.Function) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

func (m *maskAn) boolField(addr *ssa.FieldAddr) (string, bool) {
	k := fieldKey(addr.X.Type(), addr.Field)
	return k, isBoolT(deref(addr.Type()))
}

func (m *maskAn) constants() {
	for {
		m.changed = false
		for _, fn := range m.p.Funcs {
			if !m.fns[fn] {
				continue
			}
			for _, q := range fn.Params {
				if isBoolT(q.Type()) && (m.roots[fn] || m.taken[fn]) {
					m.join(q, 3)
				}
			}
			for _, b := range fn.Blocks {
				if !m.blocks[b] {
					continue
				}
				for _, in := range b.Instrs {
					m.constant(in)
				}
			}
		}
		if !m.changed {
			return
		}
	}
}

func (m *maskAn) goTo(b *ssa.BasicBlock) {
	if !m.blocks[b] {
		m.blocks[b] = true
		m.changed = true
	}
}

// edgeTaken reports that control can pass from block a to block b.
func (m *maskAn) edgeTaken(a, b *ssa.BasicBlock) bool {
	if !m.blocks[a] {
		return false
	}
	if i, ok := a.Instrs[len(a.Instrs)-1].(*ssa.If); ok && a.Succs[0] != a.Succs[1] {
		c := m.get(i.Cond)
		return b == a.Succs[0] && c&2 != 0 || b == a.Succs[1] && c&1 != 0
	}
	return true
}

func (m *maskAn) constant(in ssa.Instruction) {
	// every function used as a value may be called
	for _, op := range in.Operands(nil) {
		if f, ok := (*op).(*ssa.Function); ok && m.taken[f] {
			m.enter(f)
		}
	}
	if c, ok := in.(ssa.CallInstruction); ok {
		for _, f := range m.calleesAt(c) {
			m.enter(f)
			if !m.module(f) {
				continue
			}
			args := operands(c.Common(), f)
			for i, q := range f.Params {
				if isBoolT(q.Type()) && i < len(args) {
					m.join(q, m.get(args[i]))
				}
			}
		}
	}
	switch in := in.(type) {
	case *ssa.If:
		c := m.get(in.Cond)
		if c&2 != 0 {
			m.goTo(in.Block().Succs[0])
		}
		if c&1 != 0 {
			m.goTo(in.Block().Succs[1])
		}
	case *ssa.Jump:
		m.goTo(in.Block().Succs[0])
	case *ssa.MakeClosure:
		m.enter(in.Fn.(*ssa.Function))
	case *ssa.Phi:
		if isBoolT(in.Type()) {
			for i, e := range in.Edges {
				if m.edgeTaken(in.Block().Preds[i], in.Block()) {
					m.join(in, m.get(e))
				}
			}
		}
	case *ssa.UnOp:
		switch {
		case in.Op == token.NOT:
			c := m.get(in.X)
			m.join(in, (c&1)<<1|(c&2)>>1)
		case in.Op == token.MUL && isBoolT(in.Type()):
			if fa, ok := in.X.(*ssa.FieldAddr); ok {
				k, _ := m.boolField(fa)
				if k == maskField {
					m.join(in, 2)
				} else if m.tracked(k, fa) {
					m.join(in, m.fields[k]|1)
				} else {
					m.join(in, 3)
				}
			} else {
				m.join(in, 3)
			}
		case isBoolT(in.Type()):
			m.join(in, 3)
		}
	case *ssa.Field:
		if isBoolT(in.Type()) {
			if fieldKey(in.X.Type(), in.Field) == maskField {
				m.join(in, 2)
			} else {
				m.join(in, 3)
			}
		}
	case *ssa.FieldAddr:
		k, ok := m.boolField(in)
		if !ok {
			return
		}
		for _, u := range *in.Referrers() {
			switch u := u.(type) {
			case *ssa.Store:
				if u.Addr == ssa.Value(in) {
					continue
				}
				m.joinField(k, 3)
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				m.joinField(k, 3)
			}
		}
	case *ssa.Store:
		if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
			if k, ok := m.boolField(fa); ok {
				m.joinField(k, m.get(in.Val))
				return
			}
		}
		m.structStore(in.Val)
	case *ssa.BinOp:
		if !isBoolT(in.Type()) {
			return
		}
		if isBoolT(in.X.Type()) && (in.Op == token.EQL || in.Op == token.NEQ) {
			x, y := m.get(in.X), m.get(in.Y)
			if x == 0 || y == 0 {
				return
			}
			if x != 3 && y != 3 {
				m.join(in, triOf((x == y) == (in.Op == token.EQL)))
				return
			}
		}
		m.join(in, 3)
	case *ssa.Return:
		fn := in.Parent()
		rs := m.rets[fn]
		if rs == nil {
			rs = make([]tri, len(in.Results))
			m.rets[fn] = rs
		}
		for i, v := range in.Results {
			if isBoolT(v.Type()) {
				if n := rs[i] | m.get(v); n != rs[i] {
					rs[i] = n
					m.changed = true
				}
			}
		}
	case *ssa.Call:
		if isBoolT(in.Type()) {
			m.result(in, in, 0)
		}
	case *ssa.Extract:
		if !isBoolT(in.Type()) {
			return
		}
		if c, ok := in.Tuple.(*ssa.Call); ok {
			m.result(in, c, in.Index)
		} else {
			m.join(in, 3)
		}
	case ssa.Value:
		if isBoolT(in.Type()) {
			m.join(in, 3)
		}
	}
}

// structStore: a whole struct is copied, its flags may have any value.
func (m *maskAn) structStore(v ssa.Value) {
	st, ok := v.Type().Underlying().(*types.Struct)
	if !ok {
		return
	}
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		if isBoolT(st.Field(i).Type()) {
			m.joinField(fieldKey(v.Type(), i), 3)
		}
	}
}

// tracked reports that a flag is only stored by the module.
func (m *maskAn) tracked(k string, fa *ssa.FieldAddr) bool {
	n := namedOf(fa.X.Type())
	if n == nil || n.Obj().Pkg() != m.p.Main.Pkg {
		return false
	}
	_, f := fieldOf(fa.X.Type(), fa.Field)
	return !token.IsExported(f) || !n.Obj().Exported()
}

func (m *maskAn) result(v ssa.Value, c *ssa.Call, i int) {
	fs := m.calleesAt(c)
	if len(fs) == 0 || c.Call.StaticCallee() == nil {
		m.join(v, 3)
		return
	}
	for _, f := range fs {
		if !m.module(f) {
			m.join(v, 3)
		} else if rs := m.rets[f]; i < len(rs) {
			m.join(v, rs[i])
		}
	}
}

// ---- content flow ----

// carries reports that a library result of this type can hold text.
func carries(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		if t.Info()&types.IsString != 0 {
			return true
		}
		return t.Kind() == types.Int32 || t.Kind() == types.Uint8 || t.Kind() == types.UnsafePointer
	case *types.Interface:
		return !types.Identical(t, types.Universe.Lookup("error").Type().Underlying())
	case *types.Tuple, *types.Signature:
		return false
	}
	return true
}

func (m *maskAn) taint(v ssa.Value, why string) {
	if v == nil {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	if _, ok := m.tv[v]; !ok {
		m.tv[v] = why
		m.changed = true
	}
}

func (m *maskAn) has(v ssa.Value) (string, bool) {
	w, ok := m.tv[v]
	return w, ok
}

func (m *maskAn) why(in ssa.Instruction, from string) string {
	s := m.p.instrPos(in) + " in " + fnName(in.Parent())
	if strings.Count(from, "\n") > 14 || strings.HasPrefix(from, s) {
		return from
	}
	return s + "\n" + from
}

func (m *maskAn) taintField(k, why string) {
	if _, ok := m.tf[k]; !ok {
		m.tf[k] = why
		m.changed = true
	}
}

func (m *maskAn) modStruct(t types.Type) bool {
	n := namedOf(t)
	if n == nil {
		_, ok := deref(t).Underlying().(*types.Struct)
		return ok
	}
	return n.Obj().Pkg() != nil && (n.Obj().Pkg() == m.p.Main.Pkg || m.p.Runes != nil && n.Obj().Pkg() == m.p.Runes.Pkg)
}

// written: text is stored into the memory v refers to.
func (m *maskAn) written(v ssa.Value, why string) {
	if v == nil || m.seenW[v] {
		return
	}
	m.seenW[v] = true
	defer delete(m.seenW, v)
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if m.modStruct(x.X.Type()) {
			m.taintField(fieldKey(x.X.Type(), x.Field), why)
			return
		}
		m.written(x.X, why)
		return
	case *ssa.IndexAddr:
		m.written(x.X, why)
		return
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return
	}
	if _, ok := m.tv[v]; ok {
		return
	}
	m.taint(v, why)
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			m.written(x.X, why)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			m.written(e, why)
		}
	case *ssa.Slice:
		m.written(x.X, why)
	case *ssa.ChangeType:
		m.written(x.X, why)
	case *ssa.ChangeInterface:
		m.written(x.X, why)
	case *ssa.MakeInterface:
		m.written(x.X, why)
	case *ssa.TypeAssert:
		m.written(x.X, why)
	case *ssa.Parameter:
		for i, q := range x.Parent().Params {
			if q == x {
				m.eachArg(x.Parent(), i, func(a ssa.Value) { m.written(a, why) })
			}
		}
	case *ssa.FreeVar:
		for i, q := range x.Parent().FreeVars {
			if q == x {
				for _, mc := range m.binds[x.Parent()] {
					m.written(mc.Bindings[i], why)
				}
			}
		}
	case *ssa.Call:
		m.writtenRes(x, 0, why)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			m.writtenRes(c, x.Index, why)
		}
	}
}

func (m *maskAn) writtenRes(c *ssa.Call, i int, why string) {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		m.written(c.Call.Args[0], why)
	}
	for _, f := range m.calleesAt(c) {
		if !m.module(f) {
			continue
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
				m.written(r.Results[i], why)
			}
		}
	}
}

func (m *maskAn) eachArg(f *ssa.Function, i int, do func(ssa.Value)) {
	for _, c := range m.callers[f] {
		if args := operands(c.Common(), f); i < len(args) {
			do(args[i])
		}
	}
}

// target says where a writer leads: "buffer", "file" or "terminal".
func (m *maskAn) target(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	all := func(vs ...ssa.Value) string {
		out := ""
		for _, w := range vs {
			t := m.target(w, seen)
			if t == "terminal" || out == "" {
				out = t
			} else if t != "" && t != out {
				return "terminal"
			}
		}
		return out
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return all(x.X)
	case *ssa.ChangeInterface:
		return all(x.X)
	case *ssa.Phi:
		return all(x.Edges...)
	}
	switch typeName(v.Type()) {
	case "bytes.Buffer", "strings.Builder":
		return "buffer"
	case "os.File":
		// the file of the history or of the debug log, unless it is a standard stream
		if u, ok := v.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok && (g.Name() == "Stdout" || g.Name() == "Stderr") {
				return "terminal"
			}
		}
		return "file"
	}
	switch x := v.(type) {
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && strings.HasPrefix(extName(f), "bufio.NewWriter") {
			return all(x.Call.Args[0])
		}
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			var vs []ssa.Value
			for _, u := range *a.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
					vs = append(vs, s.Val)
				}
			}
			if len(vs) > 0 {
				return all(vs...)
			}
		}
	case *ssa.Parameter:
		f := x.Parent()
		if m.roots[f] || m.taken[f] || len(m.callers[f]) == 0 {
			return "terminal"
		}
		var vs []ssa.Value
		for i, q := range f.Params {
			if q == x {
				m.eachArg(f, i, func(a ssa.Value) { vs = append(vs, a) })
			}
		}
		if len(vs) > 0 {
			return all(vs...)
		}
	}
	return "terminal"
}

// writeTo: data (tainted or not) is written to dst.
func (m *maskAn) writeTo(in ssa.Instruction, dst ssa.Value, data []ssa.Value) {
	t := m.target(dst, map[ssa.Value]bool{})
	if t == "terminal" {
		m.nSink[in] = true
	}
	for _, d := range data {
		w, ok := m.has(d)
		if !ok {
			continue
		}
		switch t {
		case "buffer":
			m.written(dst, m.why(in, w))
		case "terminal":
			if _, ok := m.sinks[in]; !ok {
				m.sinks[in] = m.why(in, w)
				m.changed = true
			}
		}
	}
}

func (m *maskAn) flow() {
	for {
		m.changed = false
		for _, fn := range m.p.Funcs {
			if !m.fns[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				if !m.blocks[b] {
					continue
				}
				for _, in := range b.Instrs {
					m.step(in)
				}
			}
		}
		if !m.changed {
			return
		}
	}
}

func (m *maskAn) step(in ssa.Instruction) {
	from := func(v ssa.Value, xs ...ssa.Value) {
		for _, x := range xs {
			if w, ok := m.has(x); ok {
				m.taint(v, m.why(in, w))
				return
			}
		}
	}
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			from(x, x.X)
			return
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok && m.modStruct(fa.X.Type()) {
			if m.empty[x] {
				return
			}
			if w, ok := m.tf[fieldKey(fa.X.Type(), fa.Field)]; ok {
				m.taint(x, m.why(in, w))
			}
			return
		}
		from(x, x.X)
	case *ssa.FieldAddr:
		if m.modStruct(x.X.Type()) {
			// the address of a field holding text
			if w, ok := m.tf[fieldKey(x.X.Type(), x.Field)]; ok {
				m.taint(x, m.why(in, w))
			}
			return
		}
		from(x, x.X)
	case *ssa.Field:
		if m.modStruct(x.X.Type()) {
			if w, ok := m.tf[fieldKey(x.X.Type(), x.Field)]; ok {
				m.taint(x, m.why(in, w))
			}
			return
		}
		from(x, x.X)
	case *ssa.IndexAddr:
		from(x, x.X)
	case *ssa.Index:
		from(x, x.X)
	case *ssa.Lookup:
		from(x, x.X)
	case *ssa.Range:
		from(x, x.X)
	case *ssa.Next:
		from(x, x.Iter)
	case *ssa.Phi:
		for i, e := range x.Edges {
			if m.edgeTaken(x.Block().Preds[i], x.Block()) {
				from(x, e)
			}
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return
		}
		from(x, x.X, x.Y)
	case *ssa.Convert:
		from(x, x.X)
	case *ssa.ChangeType:
		from(x, x.X)
	case *ssa.ChangeInterface:
		from(x, x.X)
	case *ssa.SliceToArrayPointer:
		from(x, x.X)
	case *ssa.MakeInterface:
		from(x, x.X)
		// a struct holding text
		if st, ok := deref(x.X.Type()).Underlying().(*types.Struct); ok && m.modStruct(x.X.Type()) {
			_ = st
			// followed through its fields
		}
	case *ssa.TypeAssert:
		from(x, x.X)
	case *ssa.Slice:
		from(x, x.X)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			m.res(x, t, x.Index)
		case *ssa.Next:
			if w, ok := m.has(t); ok && x.Index == 2 {
				m.taint(x, m.why(in, w))
			}
		case *ssa.Select:
			for _, s := range t.States {
				if s.Dir == types.RecvOnly && x.Index >= 2 {
					from(x, s.Chan)
				}
			}
		default:
			if x.Index == 0 {
				from(x, x.Tuple)
			}
		}
	case *ssa.Select:
		for _, s := range x.States {
			if s.Dir == types.SendOnly {
				if w, ok := m.has(s.Send); ok {
					m.written(s.Chan, m.why(in, w))
				}
			}
		}
	case *ssa.Send:
		if w, ok := m.has(x.X); ok {
			m.written(x.Chan, m.why(in, w))
		}
	case *ssa.Store:
		if w, ok := m.has(x.Val); ok {
			m.written(x.Addr, m.why(in, w))
		}
	case *ssa.MapUpdate:
		for _, v := range []ssa.Value{x.Key, x.Value} {
			if w, ok := m.has(v); ok {
				m.written(x.Map, m.why(in, w))
			}
		}
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if w, ok := m.has(b); ok {
				m.taint(f.FreeVars[i], m.why(in, w))
			}
		}
	case *ssa.Return:
		fn := x.Parent()
		for i, v := range x.Results {
			if w, ok := m.has(v); ok {
				if m.tr[fn] == nil {
					m.tr[fn] = map[int]string{}
				}
				if _, ok := m.tr[fn][i]; !ok {
					m.tr[fn][i] = m.why(in, w)
					m.changed = true
				}
			}
		}
	}
	if c, ok := in.(ssa.CallInstruction); ok {
		m.callFlow(in, c)
	}
}

// res: the i-th result of a call.
func (m *maskAn) res(v ssa.Value, c *ssa.Call, i int) {
	mod := false
	for _, f := range m.calleesAt(c) {
		if m.module(f) {
			mod = true
			if w, ok := m.tr[f][i]; ok {
				m.taint(v, m.why(c, w))
			}
		}
	}
	if mod && c.Call.StaticCallee() != nil {
		return
	}
	if !carries(v.Type()) {
		f := c.Call.StaticCallee()
		if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "fmt" && f.Pkg.Pkg.Path() != "errors" || isBoolT(v.Type()) {
			return
		}
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return
		}
	}
	if f := c.Call.StaticCallee(); f != nil && isKeyRead(f) && i == 0 {
		m.taint(v, m.p.instrPos(c)+": a key read from the terminal")
	}
	for _, a := range operands(&c.Call, nil) {
		if w, ok := m.has(a); ok {
			m.taint(v, m.why(c, w))
			return
		}
	}
}

// isKeyRead: the library calls that read what is typed.
func isKeyRead(f *ssa.Function) bool {
	switch extName(f) {
	case "(*bufio.Reader).ReadRune", "(*bufio.Reader).ReadByte":
		return true
	}
	return false
}

func (m *maskAn) callFlow(in ssa.Instruction, c ssa.CallInstruction) {
	cc := c.Common()
	args := operands(cc, nil)
	tainted := func(vs []ssa.Value) (string, bool) {
		for _, a := range vs {
			if w, ok := m.has(a); ok {
				return w, true
			}
		}
		return "", false
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		v, _ := in.(ssa.Value)
		switch b.Name() {
		case "append":
			if w, ok := tainted(cc.Args); ok {
				m.taint(v, m.why(in, w))
			}
			if w, ok := tainted(cc.Args[1:]); ok {
				m.written(cc.Args[0], m.why(in, w))
			}
		case "copy":
			if w, ok := m.has(cc.Args[1]); ok {
				m.written(cc.Args[0], m.why(in, w))
			}
		case "print", "println":
			m.nSink[in] = true
			if w, ok := tainted(cc.Args); ok {
				m.sinks[in] = m.why(in, w)
			}
		case "min", "max":
			if w, ok := tainted(cc.Args); ok {
				m.taint(v, m.why(in, w))
			}
		}
		return
	}
	for _, f := range m.calleesAt(c) {
		if !m.module(f) {
			continue
		}
		as := operands(cc, f)
		for i, q := range f.Params {
			if i < len(as) {
				if w, ok := m.has(as[i]); ok {
					m.taint(q, m.why(in, w))
				}
			}
		}
	}
	if v, ok := in.(*ssa.Call); ok {
		if _, tuple := v.Type().(*types.Tuple); !tuple {
			m.res(v, v, 0)
		}
	}
	if cc.IsInvoke() {
		switch cc.Method.Name() {
		case "Write", "WriteString", "WriteByte", "WriteRune", "WriteAt", "ReadFrom":
			m.writeTo(in, cc.Value, cc.Args)
		}
		return
	}
	f := cc.StaticCallee()
	if f == nil || m.module(f) {
		return
	}
	name := extName(f)
	recv := f.Signature.Recv()
	switch {
	case strings.HasPrefix(name, "fmt.Fprint") || name == "io.WriteString" || strings.HasPrefix(name, "io.Copy") || name == "encoding/binary.Write":
		m.writeTo(in, args[0], args[1:])
	case strings.HasPrefix(name, "fmt.Print") || strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "syscall.Write"):
		m.nSink[in] = true
		if w, ok := tainted(args); ok {
			m.sinks[in] = m.why(in, w)
		}
	case recv != nil && strings.HasPrefix(f.Name(), "Write"):
		m.writeTo(in, args[0], args[1:])
	case recv != nil:
		// a container or queue that keeps what it is given
		if w, ok := tainted(args[1:]); ok {
			if _, ptr := recv.Type().(*types.Pointer); ptr {
				m.written(args[0], m.why(in, w))
			}
		}
	default:
		// atomic stores and the like
		if w, ok := tainted(args); ok && strings.HasPrefix(name, "sync/atomic.") && len(args) > 1 {
			m.written(args[0], m.why(in, w))
		}
	}
}

type emptyFact struct {
	x ssa.Value
	k string
}

// emptyWhen: the text fields that are empty when cond has the value taken.
func (m *maskAn) emptyWhen(cond ssa.Value, taken bool, depth int) []emptyFact {
	if depth > 6 {
		return nil
	}
	// meet of several ways to get the value; impossible ones are left out
	meet := func(sets [][]emptyFact) []emptyFact {
		if len(sets) == 0 {
			return nil
		}
		var out []emptyFact
		for _, f := range sets[0] {
			in := true
			for _, s := range sets[1:] {
				has := false
				for _, g := range s {
					has = has || g == f
				}
				in = in && has
			}
			if in {
				out = append(out, f)
			}
		}
		return out
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return m.emptyWhen(x.X, !taken, depth+1)
		}
	case *ssa.BinOp:
		return emptyCompare(x, taken)
	case *ssa.Phi:
		var sets [][]emptyFact
		for i, e := range x.Edges {
			pred := x.Block().Preds[i]
			if !m.edgeTaken(pred, x.Block()) || m.get(e)&triOf(taken) == 0 {
				continue
			}
			fs := m.emptyWhen(e, taken, depth+1)
			if c, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If); ok && pred.Succs[0] != pred.Succs[1] {
				fs = append(fs, m.emptyWhen(c.Cond, pred.Succs[0] == x.Block(), depth+1)...)
			}
			sets = append(sets, fs)
		}
		return meet(sets)
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if !m.module(f) {
			return nil
		}
		var sets [][]emptyFact
		for _, b := range f.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || !m.blocks[b] || len(r.Results) != 1 || m.get(r.Results[0])&triOf(taken) == 0 {
				continue
			}
			var fs []emptyFact
			for _, g := range m.emptyWhen(r.Results[0], taken, depth+1) {
				for i, q := range f.Params {
					if g.x == ssa.Value(q) {
						fs = append(fs, emptyFact{x.Call.Args[i], g.k})
					}
				}
			}
			sets = append(sets, fs)
		}
		return meet(sets)
	case *ssa.Parameter:
		f := x.Parent()
		if m.roots[f] || m.taken[f] {
			return nil
		}
		var sets [][]emptyFact
		for i, q := range f.Params {
			if q != x {
				continue
			}
			for _, c := range m.callers[f] {
				if !m.blocks[c.Block()] {
					continue
				}
				args := operands(c.Common(), f)
				if c.Common().IsInvoke() || m.get(args[i])&triOf(taken) == 0 {
					continue
				}
				var fs []emptyFact
				for _, g := range m.emptyWhen(args[i], taken, depth+1) {
					for j, a := range args {
						if g.x == a && j < len(f.Params) && !m.stored[c.Parent()][g.k] {
							fs = append(fs, emptyFact{f.Params[j], g.k})
						}
					}
				}
				sets = append(sets, fs)
			}
		}
		return meet(sets)
	}
	return nil
}

func emptyCompare(b *ssa.BinOp, taken bool) []emptyFact {
	x, y, op := b.X, b.Y, b.Op
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	c, ok := x.(*ssa.Call)
	if !ok {
		return nil
	}
	if f, ok := c.Call.Value.(*ssa.Builtin); !ok || f.Name() != "len" {
		return nil
	}
	kc, ok := y.(*ssa.Const)
	if !ok {
		return nil
	}
	k := ssaConstInt(kc)
	if !taken {
		switch op {
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		case token.LSS:
			op = token.GEQ
		case token.GEQ:
			op = token.LSS
		case token.GTR:
			op = token.LEQ
		case token.LEQ:
			op = token.GTR
		}
	}
	if !(k == 0 && (op == token.EQL || op == token.LEQ) || k == 1 && op == token.LSS) {
		return nil
	}
	if u, ok := c.Call.Args[0].(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return []emptyFact{{fa.X, fieldKey(fa.X.Type(), fa.Field)}}
		}
	}
	return nil
}

// emptiness finds the loads of a text field that only happen while it is empty:
// a must-dataflow over the specialised control flow graph.
func (m *maskAn) emptiness() {
	m.empty = map[ssa.Instruction]bool{}
	stores := map[*ssa.Function]map[string]bool{}
	for ch := true; ch; {
		ch = false
		for fn := range m.fns {
			s := stores[fn]
			if s == nil {
				s = map[string]bool{}
				stores[fn] = s
			}
			n := len(s)
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
							s[fieldKey(fa.X.Type(), fa.Field)] = true
						}
					case ssa.CallInstruction:
						for _, f := range m.calleesAt(x) {
							for k := range stores[f] {
								s[k] = true
							}
						}
					}
				}
			}
			ch = ch || len(s) != n
		}
	}
	m.stored = stores
	type fact = emptyFact
	for fn := range m.fns {
		in := map[*ssa.BasicBlock]map[fact]bool{fn.Blocks[0]: {}}
		apply := func(b *ssa.BasicBlock, s map[fact]bool, mark bool) map[fact]bool {
			out := map[fact]bool{}
			for f := range s {
				out[f] = true
			}
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.UnOp:
					if fa, ok := x.X.(*ssa.FieldAddr); ok && mark && x.Op == token.MUL && out[fact{fa.X, fieldKey(fa.X.Type(), fa.Field)}] {
						m.empty[x] = true
					}
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						for f := range out {
							if f.k == fieldKey(fa.X.Type(), fa.Field) {
								delete(out, f)
							}
						}
					}
				case ssa.CallInstruction:
					for _, g := range m.calleesAt(x) {
						for f := range out {
							if stores[g][f.k] {
								delete(out, f)
							}
						}
					}
				}
			}
			return out
		}
		for work := []*ssa.BasicBlock{fn.Blocks[0]}; len(work) > 0; {
			b := work[0]
			work = work[1:]
			out := apply(b, in[b], false)
			for i, s := range b.Succs {
				if !m.edgeTaken(b, s) {
					continue
				}
				n := map[fact]bool{}
				for f := range out {
					n[f] = true
				}
				if c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
					here := false // evaluated right before the branch
					if v, ok := c.Cond.(ssa.Instruction); ok {
						_, cmp := v.(*ssa.BinOp)
						here = cmp && v.Block() == b
					}
					for _, f := range m.emptyWhen(c.Cond, i == 0, 0) {
						if here || !stores[fn][f.k] {
							n[f] = true
						}
					}
				}
				old, ok := in[s]
				if !ok {
					in[s] = n
					work = append(work, s)
					continue
				}
				lost := false
				for f := range old {
					if !n[f] {
						delete(old, f)
						lost = true
					}
				}
				if lost {
					work = append(work, s)
				}
			}
		}
		for b, s := range in {
			apply(b, s, true)
		}
	}
}

func (m *maskAn) build(roots []*ssa.Function) {
	m.vals, m.fields, m.rets = map[ssa.Value]tri{}, map[string]tri{}, map[*ssa.Function][]tri{}
	m.blocks, m.fns, m.roots, m.taken = map[*ssa.BasicBlock]bool{}, map[*ssa.Function]bool{}, map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	m.callers, m.binds = map[*ssa.Function][]ssa.CallInstruction{}, map[*ssa.Function][]*ssa.MakeClosure{}
	m.callees = map[ssa.CallInstruction][]*ssa.Function{}
	m.tv, m.tf, m.tr = map[ssa.Value]string{}, map[string]string{}, map[*ssa.Function]map[int]string{}
	m.sinks, m.nSink, m.seenW = map[ssa.Instruction]string{}, map[ssa.Instruction]bool{}, map[ssa.Value]bool{}
	for _, fn := range m.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, isCall := in.(ssa.CallInstruction)
				for _, op := range in.Operands(nil) {
					f, ok := (*op).(*ssa.Function)
					if !ok || isCall && c.Common().Value == *op && !c.Common().IsInvoke() {
						continue
					}
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == *op {
						m.binds[f] = append(m.binds[f], mc)
					}
					m.taken[f] = true
				}
				if isCall {
					for _, f := range m.calleesAt(c) {
						m.callers[f] = append(m.callers[f], c)
					}
				}
			}
		}
	}
	for _, f := range roots {
		m.roots[f] = true
		m.enter(f)
	}
	m.constants()
	m.emptiness()
	for _, k := range typedFields {
		m.tf[k] = k + ": " + textSource
	}
	m.flow()
}

func init() {
	checks["C13"] = func(r *Report) {
		r.Rules = append(r.Rules, "in the program specialised for EnableMask = true no value derived from the content of the typed text (edit buffer, cut text, search text, history entries, keys read) is passed to a write that reaches the terminal")
		r.Assumes = append(r.Assumes, "the application enters the library through the exported functions and the methods of exported types, not through methods promoted from unexported parts or a RuneBuffer of its own",
			"the mask is not switched on while a search or a completion menu is open", "lengths, widths and positions of the text are not its content")
		for _, goos := range []string{"linux", "windows"} {
			p := load(r, goos)
			for _, k := range typedFields {
				t, f, _ := strings.Cut(k, ".")
				if p.namedType(t) == nil || p.fieldT(t, f) == nil {
					r.errf("%s: no field %s to follow", goos, k)
				}
			}
			var roots []*ssa.Function
			for _, f := range p.exportedFns(func(f *ssa.Function) bool {
				return f.Pkg == p.Main && recvName(f) != "RuneBuffer" && (f.Signature.Recv() == nil || token.IsExported(recvName(f)))
			}) {
				roots = append(roots, f)
			}
			m := &maskAn{p: p}
			m.build(roots)
			if len(m.fns) == 0 {
				r.errf("%s: nothing to analyse", goos)
				continue
			}
			pruned := 0
			for f := range m.fns {
				for _, b := range f.Blocks {
					if !m.blocks[b] {
						pruned++
					}
				}
			}
			r.count(goos+" entry points", len(roots))
			r.count(goos+" functions reached with the mask", len(m.fns))
			r.count(goos+" blocks cut off by the mask", pruned)
			r.count(goos+" tainted values", len(m.tv))
			r.count(goos+" terminal writes", len(m.nSink))
			r.floor(goos+" terminal writes", 5)
			r.floor(goos+" blocks cut off by the mask", 5)
			r.floor(goos+" tainted values", 50)
			var ws []ssa.Instruction
			for in := range m.nSink {
				ws = append(ws, in)
			}
			sort.Slice(ws, func(i, j int) bool { return p.instrPos(ws[i]) < p.instrPos(ws[j]) })
			for _, in := range ws {
				r.Obligations++
				if w, bad := m.sinks[in]; bad {
					r.add("echo", fnName(in.Parent()), fmt.Sprint(in), p.instrPos(in), "typed characters are written to the terminal while the input is masked", strings.Split(w, "\n"))
				} else {
					r.Discharged++
				}
			}
			if goos == "linux" {
				maskCount(r, p)
			}
		}
	}
}

// maskCount: with the mask on, redrawing a line writes one mask rune (or a line
// break) for every character.
func maskCount(r *Report, p *Program) {
	if maskDrawn(&Report{Prop: r.Prop, Counts: map[string]int{}, seenKey: map[string]bool{}}, p, true) {
		r.count("redraws that count in a loop, not decided", 1)
		return
	}
	maskDrawn(r, p, false)
}

func maskDrawn(r *Report, p *Program, probe bool) (looped bool) {
	var mu sync.Mutex
	r.Rules = append(r.Rules, "with the mask on, what is drawn for the line is one mask rune (or a line break) per character, counted symbolically on every path of Refresh")
	x := newEvRun(r, p, "RuneBuffer", "Config", "Operation", "Instance")
	x.setup = func(e *Eng, rt root) {
		e.maxStates, e.maxRets = 200, 200
		var mask IntV
		var text Lin
		lins := map[string]Lin{}
		keep := func(l Lin) string {
			lins[l.Key()] = l
			return l.Key()
		}
		e.argPre = func(e *Eng, s *State, fn *ssa.Function, args []Val) {
			rb := args[0].(PtrV).Obj
			if len(args) > 1 {
				args[1] = e.zero(fn.Params[1].Type())
			}
			if b, ok := e.peek(s, rb, ".interactive").(BoolV); ok {
				s.assume(b, true)
			}
			c, _ := e.peek(s, rb, ".cfg").(PtrV)
			s.assume(e.nilTest(s, c, nil), false)
			if c.Obj == nil {
				return
			}
			if b, ok := e.peek(s, c.Obj, ".EnableMask").(BoolV); ok {
				s.assume(b, true)
			}
			mask, _ = e.peek(s, c.Obj, ".MaskRune").(IntV)
			text = e.lenOf(s, e.peek(s, rb, ".buf"), nil)
		}
		// count is the number of characters of the line a written value stands for
		count := func(s *State, v Val) (Lin, bool) {
			sum, some := Lin{}, false
			for _, q := range e.flat(v) {
				if l, ok := litOf(q); ok {
					if l == "\n" {
						sum, some = sum.AddK(1), true
					}
					continue
				}
				n := ""
				switch y := q.(type) {
				case StrV:
					n = e.name(y.ID)
				case SliceV:
					n = sliceID(y)
					if y.Arr != nil && y.Len.IsConst() && y.Len.K == 1 {
						if c, ok := s.heap[cellKey{y.Arr, "[" + y.Off.Key() + "]"}].(IntV); ok && c.L.IsConst() && c.L.K == '\n' {
							sum, some = sum.AddK(1), true
						}
					}
				case IntV:
					if c := y.L; c.IsConst() && c.K == '\n' {
						sum, some = sum.AddK(1), true
					}
					if valEq(y, mask) {
						sum, some = sum.AddK(1), true
					}
					continue
				}
				if n == "chr("+mask.L.Key()+")" {
					sum, some = sum.AddK(1), true
				} else if k := s.ghost["masks "+n]; k != "" {
					sum, some = sum.Add(lins[k]), true
				}
			}
			return sum, some
		}
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			switch {
			case ev.Kind == "ret" && (ev.Name == "strings.Repeat" || ev.Name == "bytes.Repeat"):
				if one, ok := count(s, ev.Args[0]); ok && one.IsConst() {
					if times, ok := ev.Args[1].(IntV); ok {
						n := ""
						switch y := ev.Val.(type) {
						case StrV:
							n = e.name(y.ID)
						case SliceV:
							n = sliceID(y)
						}
						s.setGhost("masks "+n, keep(times.L.Mul(one.K)))
					}
				}
			case ev.Kind == "call" && ev.Fn != nil && strings.HasPrefix(ev.Name, "(*bytes.Buffer).Write") && len(ev.Args) > 1:
				l, ok := count(s, ev.Args[1])
				if !ok {
					return nil
				}
				x.met("mask writes")
				if inLoop(ev.At.Block()) {
					mu.Lock()
					looped = true
					mu.Unlock()
					return nil
				}
				if k := s.ghost["total"]; k != "" {
					l = l.Add(lins[k])
				}
				s.setGhost("total", keep(l))
			}
			return nil
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			x.met("redraws checked")
			if probe {
				return
			}
			t := lins[s.ghost["total"]]
			e.rule(s, at, "count", "mask runes", "the number of mask runes drawn is not the number of characters typed", s.provesEq(t, text))
		}
	}
	x.run(x.methods("RuneBuffer", "Refresh")...)
	r.floor("redraws checked", 1)
	return looped
}
