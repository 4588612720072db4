package main

// Core of the abstract interpreter: symbols, objects, heap cells, obligations.
//
// The interpreter is a dataflow analysis over SSA.  An abstract state maps SSA
// registers and heap cells to values built from integer symbols, with a
// conjunction of linear inequalities over the symbols (a polyhedral domain),
// a set of known booleans and nilness facts.  Calls are inlined, states are
// joined at control-flow merges, loops are solved by a fixpoint over candidate
// invariants, so the result covers every path and every number of iterations.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ctxInfo struct {
	parent int32
	site   ssa.Instruction
	fn     *ssa.Function
}

type oblig struct {
	rule, fn, construct string
	at                  ssa.Instruction
	failed              bool
	msg                 string
	trace               []string
	owners              map[string]bool // names of all functions on the inlining stack
	n                   int
}

type Event struct {
	Kind string // call, store, send, recv, close, select, go, return
	Name string
	At   ssa.Instruction
	Args []Val
	Recv Val
	Fn   *ssa.Function
	Cell cellKey
	Val  Val
}

type convOp struct {
	from Lin
	bits int64
}

type bitOp struct {
	op   token.Token
	a, b Lin
}

type Eng struct {
	numLin  map[string]Lin // values remembered by event rules
	bitOps  map[Sym]bitOp  // operands of bitwise operations
	convOf  map[Sym]convOp // conversions that may change the number
	p       *Program
	r       *Report
	syms    map[string]Sym
	symName []string
	objs    map[string]*Obj
	fis     map[*ssa.Function]*fnInfo
	ctxs    map[string]int32
	ctxI    []ctxInfo
	ids     map[ssa.Instruction]int32
	dry     int
	writes  []map[cellKey]bool
	atoms   []map[string]Lin
	obls    map[string]*oblig
	oblKeys []string
	cellTyp map[cellKey]types.Type
	single  map[string]bool // singleton struct types
	inv     *invSet
	invLost []*invCand

	numeric     bool // raise index, nil, ... obligations
	readers     map[*ssa.Function]map[string]bool
	memoReads   map[*Obj]map[string]bool
	modular     map[*ssa.Function]bool
	pres        map[*ssa.Function]*callPre
	rootPre     *callPre
	factLost    []*sumFact
	candOff     bool // no loop candidates (event mode)
	loopStat    map[string]int
	pure        *pureSet
	maxStates   int
	maxRets     int
	maxLoop     int
	hook        func(e *Eng, st *State, ev *Event) []*State // nil result: unchanged
	pre         func(e *Eng, st *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool)
	assumeFld   map[string]bool // Type.field pointers and interfaces assumed non-nil
	summaries   map[*ssa.Function]*summary
	sumFns      map[string]bool
	steps       int
	maxSteps    int
	entered     map[*ssa.Function]bool
	callSites   int
	loopsSeen   map[*ssa.BasicBlock]bool
	termination map[*ssa.BasicBlock]bool // loops which need a measure
	unknown     map[string]int           // opaque callees
	cutLoop     map[*ssa.BasicBlock]string
	unroll      map[*ssa.BasicBlock]int // loops executed iteration by iteration, up to this many
	unrolled    func(s *State)          // an iteration beyond that is needed
	quietNil    bool
	limitHit    string
	contract    func(e *Eng, st *State, at ssa.Instruction, fn *ssa.Function, args []Val) ([]callRes, bool)
	rootExit    func(st *State)
	pinPtrs     bool // keep pointers to distinct objects apart by ghost state at loops
	splitLoop   func(s *State, l *loopInfo) []*State
	extraCands  []Lin // compared with what a loop changes
	wideCands   bool  // loop candidates also compare with the lengths in registers
	elemNonNil  bool  // interfaces and pointers kept in slices are not nil
	argPre      func(e *Eng, st *State, fn *ssa.Function, args []Val)
	retPost     func(e *Eng, st *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val)
	strictMerge int
	src         map[string]Val // what a converted string, byte slice or concatenation was made of
	joins       int
}

func newEng(p *Program, r *Report) *Eng {
	return &Eng{p: p, r: r, pres: map[*ssa.Function]*callPre{}, syms: map[string]Sym{}, symName: []string{""}, objs: map[string]*Obj{}, fis: map[*ssa.Function]*fnInfo{},
		ctxs: map[string]int32{}, ctxI: []ctxInfo{{}}, ids: map[ssa.Instruction]int32{}, obls: map[string]*oblig{}, cellTyp: map[cellKey]types.Type{},
		single: map[string]bool{}, numeric: true, loopStat: map[string]int{}, maxStates: 10, maxRets: 8, maxLoop: 3, assumeFld: map[string]bool{}, summaries: map[*ssa.Function]*summary{},
		maxSteps: 30000000, entered: map[*ssa.Function]bool{}, loopsSeen: map[*ssa.BasicBlock]bool{}, unknown: map[string]int{}, sumFns: map[string]bool{}, src: map[string]Val{}}
}

func (e *Eng) sym(name string) Sym {
	if s, ok := e.syms[name]; ok {
		return s
	}
	s := Sym(len(e.symName))
	e.syms[name] = s
	e.symName = append(e.symName, name)
	return s
}
func (e *Eng) name(s Sym) string { return e.symName[s] }
func (e *Eng) str(l Lin) string  { return linStr(l, e.name) }

func (e *Eng) id(in ssa.Instruction) int32 {
	if i, ok := e.ids[in]; ok {
		return i
	}
	i := int32(len(e.ids) + 1)
	e.ids[in] = i
	return i
}

// base makes a name that is unique on the current path but the same on
// different paths through the same code, so that joins can match symbols.
func (e *Eng) base(st *State, at ssa.Instruction, tag string) string {
	var ctx int32
	if st.fr != nil {
		ctx = st.fr.ctx
	}
	id := int32(0)
	if at != nil {
		id = e.id(at)
	}
	n := st.bump(occKey{ctx, id, tag})
	fn := ""
	if at != nil {
		fn = at.Parent().Name()
	}
	return fmt.Sprintf("%s:%s@%d.%d#%d", fn, tag, ctx, id, n)
}
func (e *Eng) fresh(st *State, at ssa.Instruction, tag string) Sym {
	return e.sym(e.base(st, at, tag))
}
func (e *Eng) freshInt(st *State, at ssa.Instruction, tag string) Lin {
	return linS(e.fresh(st, at, tag))
}

func (e *Eng) childCtx(parent int32, site ssa.Instruction, fn *ssa.Function) int32 {
	var id int32
	if site != nil {
		id = e.id(site)
	}
	k := fmt.Sprintf("%d/%d/%s", parent, id, fn.String())
	if c, ok := e.ctxs[k]; ok {
		return c
	}
	c := int32(len(e.ctxI))
	e.ctxs[k] = c
	e.ctxI = append(e.ctxI, ctxInfo{parent, site, fn})
	return c
}

func (e *Eng) obj(name string, t types.Type) *Obj {
	if o, ok := e.objs[name]; ok {
		return o
	}
	o := &Obj{Name: name, Typ: t}
	e.objs[name] = o
	return o
}

func (e *Eng) info(fn *ssa.Function) *fnInfo {
	fi := e.fis[fn]
	if fi == nil {
		fi = buildFnInfo(fn)
		if fi.irreduc {
			panic("irreducible control flow in " + fnName(fn))
		}
		e.fis[fn] = fi
	}
	return fi
}

// pointee object for a pointer of unknown origin.
func (e *Eng) objFor(elem types.Type, name string) *Obj {
	if n, ok := types.Unalias(elem).(*types.Named); ok {
		tn := typeName(n)
		if e.single[tn] {
			o := e.obj(tn, elem)
			o.Single = true
			return o
		}
	}
	return e.obj("*"+name, elem)
}

func intRange(t types.Type) (lo, hi int64, hasLo, hasHi bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255, true, true
	case types.Uint16:
		return 0, 65535, true, true
	case types.Uint32:
		return 0, 1<<32 - 1, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, 0, true, false
	case types.Int8:
		return -128, 127, true, true
	case types.Int16:
		return -32768, 32767, true, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true, true
	}
	return
}

// mat creates an unknown value of type t.
func (e *Eng) mat(st *State, t types.Type, name string) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolV{Op: 's', S: e.sym(name)}
		case u.Info()&types.IsInteger != 0:
			s := linS(e.sym(name))
			lo, hi, hl, hh := intRange(t)
			if hl {
				st.addCon(s.AddK(-lo))
			}
			if hh {
				st.addCon(s.Neg().AddK(hi))
			}
			return IntV{L: s}
		case u.Info()&types.IsString != 0:
			l := linS(e.sym(name + ".len"))
			st.addCon(l)
			return StrV{ID: e.sym(name), Len: l}
		case u.Kind() == types.UnsafePointer:
			return PtrV{Obj: e.obj("*"+name, types.Typ[types.Int]), Nil: e.sym(name + ".nil")}
		case u.Kind() == types.UntypedNil:
			return IfaceV{Null: true}
		}
		return OpqV{ID: name}
	case *types.Pointer:
		return PtrV{Obj: e.objFor(u.Elem(), name), Nil: e.sym(name + ".nil")}
	case *types.Slice:
		l := linS(e.sym(name + ".len"))
		st.addCon(l)
		o := e.obj(name+".arr", u.Elem())
		o.Arr = true
		n := e.sym(name + ".nil")
		st.addImpl(&impl{g: []guard{{n, true}}, lins: []Lin{l.Neg()}})
		return SliceV{Arr: o, Len: l, Nil: n}
	case *types.Interface:
		return IfaceV{Nil: e.sym(name + ".nil"), ID: name}
	case *types.Signature:
		return FuncV{Nil: e.sym(name + ".nil"), Name: name}
	case *types.Map, *types.Chan:
		return PtrV{Obj: e.obj("*"+name, t), Nil: e.sym(name + ".nil")}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = e.mat(st, u.Field(i).Type(), name+"."+u.Field(i).Name())
		}
		return StructV{f}
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = e.mat(st, u.At(i).Type(), fmt.Sprintf("%s.%d", name, i))
		}
		return tv
	}
	return OpqV{ID: name}
}

func (e *Eng) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return boolK(false)
		case u.Info()&types.IsInteger != 0:
			return IntV{}
		case u.Info()&types.IsString != 0:
			s := ""
			return StrV{Lit: &s}
		case u.Kind() == types.UnsafePointer:
			return PtrV{}
		}
		return OpqV{ID: "zero"}
	case *types.Pointer, *types.Map, *types.Chan:
		return PtrV{}
	case *types.Slice:
		return SliceV{}
	case *types.Interface:
		return IfaceV{Null: true}
	case *types.Signature:
		return FuncV{Null: true}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = e.zero(u.Field(i).Type())
		}
		return StructV{f}
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = e.zero(u.At(i).Type())
		}
		return tv
	}
	return OpqV{ID: "zero"}
}

// ---------------------------------------------------------------------------
// heap

func (e *Eng) logWrite(k cellKey) {
	for _, w := range e.writes {
		w[k] = true
	}
}

// load reads a cell; at names the instruction for values seen for the first time.
func (e *Eng) load(st *State, o *Obj, path string, t types.Type, at ssa.Instruction) Val {
	if s, ok := t.Underlying().(*types.Struct); ok {
		if _, isMu := isSyncType(t); isMu {
			return OpqV{ID: o.Name + path}
		}
		f := make([]Val, s.NumFields())
		for i := range f {
			f[i] = e.load(st, o, path+"."+s.Field(i).Name(), s.Field(i).Type(), at)
		}
		return StructV{f}
	}
	k := cellKey{o, path}
	if v, ok := st.heap[k]; ok {
		if a, ok := v.(OpqV); ok {
			if _, isA := t.Underlying().(*types.Array); isA {
				return e.withElems(st, o, path, a)
			}
		}
		return v
	}
	e.touchConfig(st, o, path, at)
	if v, ok := st.heap[k]; ok {
		return v
	}
	var v Val
	switch {
	case o.Alloc && !e.dirty(st, o):
		v = e.zero(t)
	case o.Single && !e.dirty(st, o):
		v = e.mat(st, t, o.Name+path)
		e.cellTyp[k] = t
		st.setCell(k, v)
		if e.assumeFld[o.Name+path] {
			v = e.nonNil(st, v)
			st.setCell(k, v)
		}
		if e.inv != nil {
			e.inv.touch(e, st, o)
			if v2, ok := st.heap[k]; ok {
				v = v2
			}
		}
		return v
	case strings.HasPrefix(o.Name, "var "):
		v = e.globalVal(st, o, path, t)
	default:
		v = e.mat(st, t, e.base(st, at, "ld"+path))
		if path == ".Value" && typeName(o.Typ) == "list.Element" {
			if lt := e.p.listElemType(); lt != nil {
				v = IfaceV{Dyn: lt, V: e.nonNil(st, e.mat(st, lt, e.base(st, at, "item")))}
			}
		}
	}
	if f, ok := v.(FuncV); ok && f.Fn == nil && !f.Null {
		f.Name = typeName(o.Typ) + path
		v = f
	}
	if e.assumeFld[typeName(o.Typ)+path] {
		v = e.nonNil(st, v)
	}
	e.cellTyp[k] = t
	st.setCell(k, v)
	return v
}

func (e *Eng) nonNil(st *State, v Val) Val {
	switch v := v.(type) {
	case PtrV:
		v.Nil = 0
		return v
	case IfaceV:
		v.Nil = 0
		return v
	case FuncV:
		v.Nil = 0
		return v
	case SliceV:
		v.Nil = 0
		return v
	}
	return v
}

func isSyncType(t types.Type) (string, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return "", false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic", "bytes", "bufio", "time", "container/list":
		return n.Obj().Name(), true
	}
	return "", false
}

func (e *Eng) dirty(st *State, o *Obj) bool {
	_, d := st.heap[cellKey{o, "#dirty"}]
	return d
}

func (e *Eng) store(st *State, o *Obj, path string, t types.Type, v Val, at ssa.Instruction) {
	if s, ok := t.Underlying().(*types.Struct); ok {
		if _, isMu := isSyncType(t); isMu {
			return
		}
		sv, ok := v.(StructV)
		for i := 0; i < s.NumFields(); i++ {
			var f Val
			if ok && i < len(sv.F) {
				f = sv.F[i]
			} else {
				f = e.mat(st, s.Field(i).Type(), e.base(st, at, "st"+s.Field(i).Name()))
			}
			e.store(st, o, path+"."+s.Field(i).Name(), s.Field(i).Type(), f, at)
		}
		return
	}
	if _, ok := t.Underlying().(*types.Array); ok {
		e.havocElems(st, o)
		for c := range st.heap {
			if c.o == o && strings.HasPrefix(c.path, path+"[") {
				st.delCell(c)
			}
		}
		if a, ok := v.(OpqV); ok && path != "" {
			k := cellKey{o, path}
			e.cellTyp[k] = t
			st.setCell(k, a)
			e.logWrite(k)
		}
		return
	}
	if i := strings.IndexByte(path, '['); i > 0 {
		e.clobber(st, o, path, i, at)
	}
	k := cellKey{o, path}
	if o.Single && e.inv != nil {
		e.inv.touch(e, st, o)
	}
	e.touchConfig(st, o, path, at)
	e.invalidate(st, k, t, at)
	e.forgetMemo(st, o, path)
	e.cellTyp[k] = t
	st.setCell(k, v)
	e.logWrite(k)
}

// touchConfig: a Config that carries a history carries the search made for it.
func (e *Eng) touchConfig(st *State, o *Obj, path string, at ssa.Instruction) {
	if path != ".opHistory" && path != ".opSearch" || o.Typ == nil || typeName(o.Typ) != "Config" || o.Alloc && !e.dirty(st, o) {
		return
	}
	k := cellKey{o, "#cfg"}
	if _, ok := st.heap[k]; ok {
		return
	}
	s, ok := o.Typ.Underlying().(*types.Struct)
	if !ok {
		return
	}
	st.setCell(k, boolK(true))
	var nil2 [2]Sym
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		for j, n := range []string{"opHistory", "opSearch"} {
			if f.Name() == n {
				ck := cellKey{o, "." + n}
				v := st.heap[ck]
				if v == nil {
					v = e.mat(st, f.Type(), e.base(st, at, "cfg"+o.Name+n))
					e.cellTyp[ck] = f.Type()
					st.setCell(ck, v)
				}
				if p, ok := v.(PtrV); ok {
					nil2[j] = p.Nil
				}
			}
		}
	}
	if nil2[0] != 0 && nil2[1] != 0 {
		st.addImpl(&impl{g: []guard{{nil2[0], false}}, sets: []guard{{nil2[1], false}}})
	}
}

// withElems is the value of an array some elements of which were stored to.
func (e *Eng) withElems(st *State, o *Obj, path string, a OpqV) OpqV {
	var out []string
	for c, v := range st.heap {
		if c.o == o && strings.HasPrefix(c.path, path+"[") {
			w := "?"
			if i, ok := v.(IntV); ok {
				w = i.L.Key()
			}
			out = append(out, c.path[len(path):]+"="+w)
		}
	}
	if out == nil {
		return a
	}
	sort.Strings(out)
	return OpqV{ID: a.ID + "{" + strings.Join(out, ";") + "}"}
}

// clobber forgets the elements of an array field that a store may change.
func (e *Eng) clobber(st *State, o *Obj, path string, i int, at ssa.Instruction) {
	lost := false
	for c := range st.heap {
		if c.o == o && c.path != path && strings.HasPrefix(c.path, path[:i+1]) && !idxDistinct(c.path[i:], path[i:]) {
			st.delCell(c)
			lost = true
		}
	}
	if k := (cellKey{o, path[:i]}); lost {
		if _, ok := st.heap[k]; ok {
			st.setCell(k, OpqV{ID: e.base(st, at, "arr")})
			e.logWrite(k)
		}
	}
}

// invalidate replaces the cells that may be another name for k.
func (e *Eng) invalidate(st *State, k cellKey, t types.Type, at ssa.Instruction) {
	o := k.o
	elem := strings.HasPrefix(k.path, "[")
	if !elem && (o.Single || o.Alloc) {
		return
	}
	var hit []cellKey
	var dirtyObjs []*Obj
	for c := range st.heap {
		if c == k || c.path == "#dirty" || c.path == "#alloc" {
			continue
		}
		if elem {
			if !strings.HasPrefix(c.path, "[") {
				continue
			}
			if c.o == o {
				if idxDistinct(c.path, k.path) {
					continue
				}
			} else if c.o.Alloc && o.Alloc {
				continue
			}
			if !types.Identical(e.cellTyp[c], t) {
				continue
			}
			hit = append(hit, c)
			if c.o.Alloc {
				dirtyObjs = append(dirtyObjs, c.o)
			}
			continue
		}
		if c.path != k.path || c.o == o || c.o.Single || c.o.Alloc {
			continue
		}
		if o.Typ != nil && c.o.Typ != nil && !types.Identical(o.Typ, c.o.Typ) {
			continue
		}
		hit = append(hit, c)
	}
	sort.Slice(hit, func(i, j int) bool {
		if hit[i].o.Name != hit[j].o.Name {
			return hit[i].o.Name < hit[j].o.Name
		}
		return hit[i].path < hit[j].path
	})
	for _, c := range hit {
		if elem {
			st.delCell(c)
			continue
		}
		st.setCell(c, e.mat(st, e.cellTyp[c], e.base(st, at, "inv"+c.o.Name+c.path)))
		e.logWrite(c)
	}
	if elem && o.Alloc {
		e.zeroElems(st, k)
		dirtyObjs = append(dirtyObjs, o)
	}
	for _, d := range dirtyObjs {
		st.setCell(cellKey{d, "#dirty"}, boolK(true))
	}
}

// zeroElems writes down the elements of a small new array that a store at a
// constant index leaves zero.
func (e *Eng) zeroElems(st *State, k cellKey) {
	a, ok := types.Type(nil), false
	if k.o.Typ != nil {
		a, ok = k.o.Typ.Underlying().(*types.Array)
	}
	if !ok || e.dirty(st, k.o) {
		return
	}
	arr := a.(*types.Array)
	if arr.Len() > 8 || !strings.HasPrefix(k.path, "["+linK(1).Key()[:1]) {
		return
	}
	if _, ok := arr.Elem().Underlying().(*types.Basic); !ok {
		return
	}
	for i := int64(0); i < arr.Len(); i++ {
		c := cellKey{k.o, "[" + linK(i).Key() + "]"}
		if _, ok := st.heap[c]; !ok && c.path != k.path {
			e.cellTyp[c] = arr.Elem()
			st.setCell(c, e.zero(arr.Elem()))
		}
	}
}

// constant indices of one array that differ do not alias.
func idxDistinct(a, b string) bool {
	pa, ra := splitIdx(a)
	pb, rb := splitIdx(b)
	if ra != rb && ra != "" && rb != "" {
		return true // different fields of elements
	}
	ia, oka := strings.CutPrefix(pa, "[+")
	ib, okb := strings.CutPrefix(pb, "[+")
	if oka && okb {
		return ia != ib
	}
	// same symbolic part, different constant
	la := strings.LastIndexByte(pa, '+')
	lb := strings.LastIndexByte(pb, '+')
	return la > 0 && lb > 0 && pa[:la] == pb[:lb] && pa[la:] != pb[lb:]
}
func splitIdx(p string) (string, string) {
	i := strings.IndexByte(p, ']')
	if i < 0 {
		return p, ""
	}
	return p[:i], p[i+1:]
}

func (e *Eng) havocElems(st *State, o *Obj) {
	for c := range st.heap {
		if c.o == o && strings.HasPrefix(c.path, "[") {
			st.delCell(c)
		}
	}
	st.setCell(cellKey{o, "#dirty"}, boolK(true))
	e.logWrite(cellKey{o, "#dirty"})
}

// havocObj forgets everything about one object.
func (e *Eng) havocObj(st *State, o *Obj, at ssa.Instruction) {
	if o == nil {
		return
	}
	e.forgetMemo(st, o, "")
	var ks []cellKey
	for c := range st.heap {
		if c.o == o && c.path != "#alloc" && c.path != "#dirty" {
			ks = append(ks, c)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].path < ks[j].path })
	for _, c := range ks {
		t := e.cellTyp[c]
		if t == nil || strings.HasPrefix(c.path, "[") {
			st.delCell(c)
			continue
		}
		if o.Typ != nil && e.p.fixed[typeName(o.Typ)+c.path] {
			continue // only ever set by its constructor
		}
		st.setCell(c, e.mat(st, t, e.base(st, at, "hv"+c.path)))
		e.logWrite(c)
	}
	if o.Alloc {
		st.setCell(cellKey{o, "#dirty"}, boolK(true))
		e.logWrite(cellKey{o, "#dirty"})
	}
}

func (e *Eng) globalVal(st *State, o *Obj, path string, t types.Type) Val {
	name := strings.TrimPrefix(o.Name, "var ")
	if g, ok := e.p.globalInit(name); ok && path == "" {
		if c, ok := g.(*ssa.Const); ok {
			return e.constVal(c)
		}
	}
	if g, ok := e.p.globalInit(name); ok && path == "" {
		// a table: the slice of an array literal that is never replaced
		if sl, isS := g.(*ssa.Slice); isS && sl.Low == nil && sl.High == nil {
			if at, isA := deref(sl.X.Type()).Underlying().(*types.Array); isA {
				if v, isV := e.mat(st, t, o.Name).(SliceV); isV {
					v.Nil, v.Len = 0, linK(at.Len())
					return v
				}
			}
		}
	}
	v := e.mat(st, t, o.Name+path)
	// package-level streams and tables set by initialisers are non-nil
	if e.p.globalNonNil(name) {
		v = e.nonNil(st, v)
	}
	return v
}

// globalInit returns the initial value of a package variable never stored to
// outside the initialiser.
func (p *Program) globalInit(name string) (ssa.Value, bool) {
	var val ssa.Value
	n := 0
	p.eachGlobalStore(func(g *ssa.Global, s *ssa.Store) {
		if g.Name() == name {
			n++
			if s.Parent().Name() == "init" || strings.HasPrefix(s.Parent().Name(), "init#") {
				val = s.Val
			} else {
				n += 10
			}
		}
	})
	if n == 1 && val != nil {
		return val, true
	}
	return nil, n == -1
}

func (p *Program) globalNonNil(name string) bool {
	ok, n := true, 0
	p.eachGlobalStore(func(g *ssa.Global, s *ssa.Store) {
		if g.Name() != name {
			return
		}
		n++
		switch s.Val.(type) {
		case *ssa.Const:
			ok = false
		}
		if s.Parent().Name() != "init" && !strings.HasPrefix(s.Parent().Name(), "init#") {
			ok = false
		}
	})
	return ok && n > 0
}

func (p *Program) eachGlobalStore(f func(*ssa.Global, *ssa.Store)) {
	if p.gstores == nil {
		p.gstores = []gstore{}
		fns := append([]*ssa.Function{}, p.Funcs...)
		seen := map[*ssa.Function]bool{}
		for _, fn := range fns {
			seen[fn] = true
		}
		for _, pk := range []*ssa.Package{p.Main, p.Runes} {
			if in := pk.Func("init"); in != nil && !seen[in] {
				fns = append(fns, in)
			}
		}
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok {
							p.gstores = append(p.gstores, gstore{g, s})
						}
					}
				}
			}
		}
	}
	for _, g := range p.gstores {
		f(g.g, g.s)
	}
}

type gstore struct {
	g *ssa.Global
	s *ssa.Store
}

// ---------------------------------------------------------------------------
// obligations

func (e *Eng) stack(st *State) []string {
	var out []string
	if st.fr == nil {
		return nil
	}
	for c := st.fr.ctx; c != 0; c = e.ctxI[c].parent {
		ci := e.ctxI[c]
		s := fnName(ci.fn)
		if ci.site != nil {
			s += " called at " + e.p.instrPos(ci.site)
		}
		out = append(out, s)
	}
	return out
}

func (e *Eng) stackFns(st *State) map[string]bool {
	m := map[string]bool{}
	for c := st.fr.ctx; c != 0; c = e.ctxI[c].parent {
		m[fnName(e.ctxI[c].fn)] = true
	}
	return m
}

// oblige records that every goal (>= 0) must hold here.
func (e *Eng) oblige(st *State, at ssa.Instruction, rule, construct, msg string, goals ...Lin) {
	for _, a := range e.atoms {
		for _, g := range goals {
			a[g.Key()] = g
		}
	}
	ok := true
	var bad Lin
	for _, g := range goals {
		if !st.proves(g) {
			ok = false
			bad = g
			break
		}
	}
	e.settle(st, at, rule, construct, msg, ok, bad)
	if !ok {
		for _, g := range goals {
			if !st.addCon(g) {
				return
			}
		}
	}
}

func (e *Eng) settle(st *State, at ssa.Instruction, rule, construct, msg string, ok bool, bad Lin) {
	if !e.numeric || e.dry > 0 {
		return
	}
	fn := at.Parent()
	k := fmt.Sprintf("%s|%d|%s", rule, e.id(at), construct)
	o := e.obls[k]
	if o == nil {
		o = &oblig{rule: rule, fn: fnName(fn), construct: construct, at: at, owners: map[string]bool{}}
		e.obls[k] = o
		e.oblKeys = append(e.oblKeys, k)
	}
	o.n++
	if o.n < 20 || !ok {
		for f := range e.stackFns(st) {
			o.owners[f] = true
		}
	}
	if !ok {
		if !o.failed {
			o.failed = true
			o.msg = msg
			if bad.T != nil || bad.K != 0 {
				o.msg += " (cannot show " + e.str(bad) + " >= 0)"
			}
			o.trace = e.stack(st)
			if verbose {
				for _, c := range related(st.cons, bad) {
					o.trace = append(o.trace, "known: "+e.str(c)+" >= 0")
				}
				for s, v := range st.bools {
					o.trace = append(o.trace, fmt.Sprintf("known: %s = %v", e.name(s), v))
				}
			}
			for i, t := 0, st.trace; t != nil && i < 25; i, t = i+1, t.prev {
				o.trace = append(o.trace, t.text)
			}
		}
	}
}

// describe names an operand for reports without using line numbers.
func describe(v ssa.Value) string {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				v = x.X
				continue
			}
			return x.Op.String() + describe(x.X)
		case *ssa.FieldAddr:
			o, f := fieldOf(x.X.Type(), x.Field)
			return o + "." + f
		case *ssa.Field:
			o, f := fieldOf(x.X.Type(), x.Field)
			return o + "." + f
		case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
			return v.Name()
		case *ssa.Alloc:
			return x.Comment
		case *ssa.Phi:
			return x.Comment
		case *ssa.Slice:
			return describe(x.X) + "[:]"
		case *ssa.IndexAddr:
			return describe(x.X) + "[]"
		case *ssa.Index:
			return describe(x.X) + "[]"
		case *ssa.Call:
			return calleeShort(x.Common()) + "()"
		case *ssa.Extract:
			return describe(x.Tuple)
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.TypeAssert:
			v = x.X
			continue
		case *ssa.Const:
			return x.Name()
		case *ssa.BinOp:
			return describe(x.X) + x.Op.String() + describe(x.Y)
		case *ssa.MakeSlice:
			return "make"
		case *ssa.Function:
			return fnName(x)
		}
		break
	}
	return "value"
}

func calleeShort(c *ssa.CallCommon) string {
	if n := calleeName(c); n != "" {
		return n
	}
	return describe(c.Value)
}
