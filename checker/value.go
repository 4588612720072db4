package main

// Abstract values, heap cells and abstract states of the interpreter.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Lab uint32

// Origin / taint labels.
const (
	LTyped Lab = 1 << iota // derived from runes of the edit buffer or typed keys
	LHist                  // memory of a stored history item
	LUser                  // memory owned by user code (callback results / arguments)
	LBuf                   // memory of the edit buffer
	LKill                  // memory of the cut text
	LErrIO                 // error produced by a file write
	LMask                  // the mask rune
	LExt1                  // property specific
	LExt2
)

type Val interface{}

type Obj struct {
	Name   string
	Typ    types.Type // type of the pointee; element type for arrays behind slices
	Alloc  bool       // allocated by analysed code: unset cells are zero
	Arr    bool       // array behind a slice
	Single bool       // stands for the only instance of its type
	// Distinct: differs from every other object with this mark and every allocated one
	Distinct bool
	Site     ssa.Instruction
}

type IntV struct {
	L   Lin
	Lab Lab
}
type BoolV struct {
	Op  byte // 'k' const, '>' L>=0, '=' L==0, 's' symbol
	C   bool
	L   Lin
	S   Sym
	Neg bool
	Lab Lab
}
type PtrV struct {
	Obj  *Obj // nil: nil pointer
	Path string
	Nil  Sym // 0: known non-nil
	Lab  Lab
}
type SliceV struct {
	Arr      *Obj // nil: nil slice
	Off, Len Lin
	Cap      *Lin
	Nil      Sym
	Lab      Lab // labels of the contents
}
type StrV struct {
	Lit *string
	ID  Sym
	Len Lin
	Lab Lab
}
type IfaceV struct {
	Dyn  types.Type
	V    Val
	Nil  Sym // symbolic nilness (Dyn == nil)
	Null bool
	ID   string
	Lab  Lab
}
type FuncV struct {
	Fn   *ssa.Function
	B    *ssa.Builtin
	Bind []Val
	Nil  Sym
	Null bool
	Name string
}
type StructV struct{ F []Val }
type TupleV []Val
type OpqV struct {
	ID  string
	Lab Lab
}

func boolK(b bool) BoolV { return BoolV{Op: 'k', C: b} }

func (b BoolV) not() BoolV {
	switch b.Op {
	case 'k':
		b.C = !b.C
	case '>':
		b.L = b.L.Neg().AddK(-1)
	default:
		b.Neg = !b.Neg
	}
	return b
}

func labOf(v Val) Lab {
	switch v := v.(type) {
	case IntV:
		return v.Lab
	case BoolV:
		return v.Lab
	case PtrV:
		return v.Lab
	case SliceV:
		l := v.Lab
		return l
	case StrV:
		return v.Lab
	case IfaceV:
		if v.V != nil {
			return v.Lab | labOf(v.V)
		}
		return v.Lab
	case StructV:
		var l Lab
		for _, f := range v.F {
			l |= labOf(f)
		}
		return l
	case OpqV:
		return v.Lab
	}
	return 0
}

func valEq(a, b Val) bool {
	switch a := a.(type) {
	case nil:
		return b == nil
	case IntV:
		b, ok := b.(IntV)
		return ok && a.Lab == b.Lab && a.L.Eq(b.L)
	case BoolV:
		b, ok := b.(BoolV)
		return ok && a.Op == b.Op && a.C == b.C && a.S == b.S && a.Neg == b.Neg && a.Lab == b.Lab && a.L.Eq(b.L)
	case PtrV:
		b, ok := b.(PtrV)
		if !ok || a.Obj != b.Obj || a.Path != b.Path || a.Nil != b.Nil {
			return false
		}
		return a.Lab == b.Lab
	case SliceV:
		b, ok := b.(SliceV)
		return ok && a.Arr == b.Arr && a.Nil == b.Nil && a.Lab == b.Lab && a.Len.Eq(b.Len) && a.Off.Eq(b.Off) && (a.Cap == nil) == (b.Cap == nil) && (a.Cap == nil || a.Cap.Eq(*b.Cap))
	case StrV:
		b, ok := b.(StrV)
		if !ok {
			return false
		}
		if (a.Lit == nil) != (b.Lit == nil) {
			return false
		}
		if a.Lit != nil {
			return *a.Lit == *b.Lit
		}
		return a.ID == b.ID && a.Lab == b.Lab && a.Len.Eq(b.Len)
	case IfaceV:
		b, ok := b.(IfaceV)
		if !ok || a.Null != b.Null || a.Nil != b.Nil || a.ID != b.ID || a.Lab != b.Lab {
			return false
		}
		if (a.Dyn == nil) != (b.Dyn == nil) {
			return false
		}
		if a.Dyn != nil {
			return types.Identical(a.Dyn, b.Dyn) && valEq(a.V, b.V)
		}
		return true
	case FuncV:
		b, ok := b.(FuncV)
		if !ok || a.Fn != b.Fn || a.B != b.B || a.Nil != b.Nil || a.Null != b.Null || a.Name != b.Name || len(a.Bind) != len(b.Bind) {
			return false
		}
		for i := range a.Bind {
			if !valEq(a.Bind[i], b.Bind[i]) {
				return false
			}
		}
		return true
	case StructV:
		b, ok := b.(StructV)
		if !ok || len(a.F) != len(b.F) {
			return false
		}
		for i := range a.F {
			if !valEq(a.F[i], b.F[i]) {
				return false
			}
		}
		return true
	case TupleV:
		b, ok := b.(TupleV)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !valEq(a[i], b[i]) {
				return false
			}
		}
		return true
	case OpqV:
		b, ok := b.(OpqV)
		return ok && a == b
	}
	return false
}

// ---------------------------------------------------------------------------

type cellKey struct {
	o    *Obj
	path string
}

type guard struct {
	s   Sym
	val bool
}

type impl struct {
	g    []guard
	lins []Lin
	sets []guard
	key  string
}

func (im *impl) id() string {
	if im.key == "" {
		var sb strings.Builder
		for _, g := range im.g {
			fmt.Fprint(&sb, g.s, g.val, ",")
		}
		sb.WriteString(">")
		for _, l := range im.lins {
			sb.WriteString(l.Key())
			sb.WriteString(",")
		}
		for _, g := range im.sets {
			fmt.Fprint(&sb, g.s, g.val, ",")
		}
		im.key = sb.String()
	}
	return im.key
}

// concludes: the conclusion holds in st anyway.
func (st *State) concludes(im *impl) bool {
	for _, g := range im.sets {
		if v, ok := st.bools[g.s]; !ok || v != g.val {
			return false
		}
	}
	for _, l := range im.lins {
		if !st.proves(l) {
			return false
		}
	}
	return true
}

type occKey struct {
	ctx int32
	at  int32
	tag string
}

// Frame is one inlined call.  Its registers are copied on write.
type Frame struct {
	parent *Frame
	fi     *fnInfo
	env    []Val
	defers []deferred
	ctx    int32
	depth  int
}

type deferred struct {
	at   *ssa.Defer
	fn   Val
	args []Val
}

type State struct {
	cons   []Lin
	neqs   []Lin
	bools  map[Sym]bool
	boolsO bool
	heap   map[cellKey]Val
	heapO  bool
	occ    map[occKey]int
	occO   bool
	ghost  map[string]string
	ghostO bool
	impls  []*impl
	fr     *Frame
	frO    bool
	trace  *traceNode
	dead   bool
}

type traceNode struct {
	prev *traceNode
	n    int
	text string
	at   ssa.Instruction
}

func newState() *State {
	return &State{bools: map[Sym]bool{}, boolsO: true, heap: map[cellKey]Val{}, heapO: true, occ: map[occKey]int{}, occO: true, ghost: map[string]string{}, ghostO: true}
}

func (st *State) fork() *State {
	n := *st
	st.boolsO, st.heapO, st.occO, st.ghostO = false, false, false, false
	st.frO = false
	n.boolsO, n.heapO, n.occO, n.ghostO, n.frO = false, false, false, false, false
	n.cons = st.cons[:len(st.cons):len(st.cons)]
	st.cons = n.cons
	n.neqs = st.neqs[:len(st.neqs):len(st.neqs)]
	st.neqs = n.neqs
	n.impls = st.impls[:len(st.impls):len(st.impls)]
	st.impls = n.impls
	return &n
}

func (st *State) setBoolFact(s Sym, v bool) {
	if !st.boolsO {
		m := make(map[Sym]bool, len(st.bools)+4)
		for k, x := range st.bools {
			m[k] = x
		}
		st.bools, st.boolsO = m, true
	}
	st.bools[s] = v
}
func (st *State) setCell(k cellKey, v Val) {
	st.ownHeap()
	st.heap[k] = v
}
func (st *State) delCell(k cellKey) {
	st.ownHeap()
	delete(st.heap, k)
}
func (st *State) ownHeap() {
	if !st.heapO {
		m := make(map[cellKey]Val, len(st.heap)+8)
		for k, x := range st.heap {
			m[k] = x
		}
		st.heap, st.heapO = m, true
	}
}
func (st *State) bump(k occKey) int {
	if !st.occO {
		m := make(map[occKey]int, len(st.occ)+4)
		for k, x := range st.occ {
			m[k] = x
		}
		st.occ, st.occO = m, true
	}
	st.occ[k]++
	return st.occ[k]
}
func (st *State) setGhost(k, v string) {
	if st.ghost[k] == v {
		return
	}
	if !st.ghostO {
		m := make(map[string]string, len(st.ghost)+2)
		for k, x := range st.ghost {
			m[k] = x
		}
		st.ghost, st.ghostO = m, true
	}
	if v == "" {
		delete(st.ghost, k)
	} else {
		st.ghost[k] = v
	}
}
func (st *State) ghostKey() string {
	if len(st.ghost) == 0 {
		return ""
	}
	ks := make([]string, 0, len(st.ghost))
	for k := range st.ghost {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		sb.WriteString(k)
		sb.WriteByte('=')
		sb.WriteString(st.ghost[k])
		sb.WriteByte(';')
	}
	return sb.String()
}

func (st *State) note(at ssa.Instruction, format string, a ...interface{}) {
	n := 1
	if st.trace != nil {
		n = st.trace.n + 1
	}
	st.trace = &traceNode{prev: st.trace, n: n, text: fmt.Sprintf(format, a...), at: at}
}

// addCon records c >= 0; reports false on a trivially false constraint.
func (st *State) addCon(c Lin) bool {
	c = c.tighten()
	if c.IsConst() {
		if c.K < 0 {
			st.dead = true
			return false
		}
		return true
	}
	for i, o := range st.cons {
		if len(o.T) != len(c.T) {
			continue
		}
		same := true
		for j := range o.T {
			if o.T[j] != c.T[j] {
				same = false
				break
			}
		}
		if !same {
			continue
		}
		if o.K <= c.K {
			return true
		}
		n := make([]Lin, len(st.cons))
		copy(n, st.cons)
		n[i] = c
		st.cons = n
		return true
	}
	st.cons = append(st.cons, c)
	return true
}
func (st *State) addEq(a, b Lin) bool {
	d := a.Sub(b)
	return st.addCon(d) && st.addCon(d.Neg())
}

// proves reports whether st entails goal >= 0.
func (st *State) proves(goal Lin) bool {
	if goal.IsConst() {
		return goal.K >= 0
	}
	if entails(st.cons, goal) {
		return true
	}
	if len(st.neqs) > 0 && st.strengthen(goal) {
		return entails(st.cons, goal)
	}
	return false
}
func (st *State) provesEq(a, b Lin) bool {
	d := a.Sub(b)
	if d.IsConst() {
		return d.K == 0
	}
	return st.proves(d) && st.proves(d.Neg())
}

// strengthen turns disequalities into strict inequalities where one side is known.
func (st *State) strengthen(goal Lin) bool {
	seen := map[Sym]bool{}
	for _, t := range goal.T {
		seen[t.S] = true
	}
	for _, c := range related(st.cons, goal) {
		for _, t := range c.T {
			seen[t.S] = true
		}
	}
	did := false
	for again := true; again; {
		again = false
		for i := 0; i < len(st.neqs); i++ {
			n := st.neqs[i]
			hit := false
			for _, t := range n.T {
				if seen[t.S] {
					hit = true
				}
			}
			if !hit {
				continue
			}
			var add Lin
			switch {
			case entails(st.cons, n):
				add = n.AddK(-1)
			case entails(st.cons, n.Neg()):
				add = n.Neg().AddK(-1)
			default:
				continue
			}
			nn := make([]Lin, 0, len(st.neqs))
			nn = append(nn, st.neqs[:i]...)
			nn = append(nn, st.neqs[i+1:]...)
			st.neqs = nn
			st.addCon(add)
			i--
			did, again = true, true
		}
	}
	return did
}

func (st *State) feasibleWith(c Lin) bool {
	if c.IsConst() {
		return c.K >= 0
	}
	rel := related(st.cons, c)
	rel = append(rel, c)
	return !infeasible(rel)
}

// setSym assumes boolean symbol s == v and fires implications; false: infeasible.
func (st *State) setSym(s Sym, v bool) bool {
	if cur, ok := st.bools[s]; ok {
		return cur == v
	}
	st.setBoolFact(s, v)
	for _, im := range st.impls {
		m := false
		for _, g := range im.g {
			if g.s == s {
				m = true
			}
		}
		if !m {
			continue
		}
		all := true
		for _, g := range im.g {
			cur, ok := st.bools[g.s]
			if !ok || cur != g.val {
				all = false
				break
			}
		}
		if !all {
			continue
		}
		for _, l := range im.lins {
			if !st.feasibleWith(l) {
				return false
			}
			st.addCon(l)
		}
		for _, g := range im.sets {
			if !st.setSym(g.s, g.val) {
				return false
			}
		}
	}
	return true
}

func (st *State) addImpl(im *impl) bool {
	all := true
	for _, g := range im.g {
		cur, ok := st.bools[g.s]
		if ok && cur != g.val {
			return true // vacuous
		}
		if !ok {
			all = false
		}
	}
	if all {
		for _, l := range im.lins {
			if !st.feasibleWith(l) {
				return false
			}
			st.addCon(l)
		}
		for _, g := range im.sets {
			if !st.setSym(g.s, g.val) {
				return false
			}
		}
		return true
	}
	im.id()
	st.impls = append(st.impls, im)
	return true
}

// assume returns st restricted to b == val (st may be modified), nil if infeasible.
func (st *State) assume(b BoolV, val bool) *State {
	if !val {
		b = b.not()
	}
	switch b.Op {
	case 'k':
		if b.C {
			return st
		}
		return nil
	case '>':
		if !st.feasibleWith(b.L) {
			return nil
		}
		if !st.addCon(b.L) {
			return nil
		}
		// a disequality may make it infeasible
		for _, n := range st.neqs {
			if sharesSym(n, b.L) && st.provesEqRaw(n) {
				return nil
			}
		}
		return st
	case '=':
		if !b.Neg {
			if !st.feasibleWith(b.L) || !st.feasibleWith(b.L.Neg()) {
				return nil
			}
			if !st.addCon(b.L) || !st.addCon(b.L.Neg()) {
				return nil
			}
			if !b.L.IsConst() && infeasible(related(st.cons, b.L)) {
				return nil
			}
			for _, n := range st.neqs {
				if st.provesEqRaw(n) {
					return nil
				}
			}
			return st
		}
		if b.L.IsConst() {
			if b.L.K != 0 {
				return st
			}
			return nil
		}
		lo := entails(st.cons, b.L)
		hi := entails(st.cons, b.L.Neg())
		switch {
		case lo && hi:
			return nil
		case lo:
			st.addCon(b.L.AddK(-1))
		case hi:
			st.addCon(b.L.Neg().AddK(-1))
		default:
			if !st.feasibleWith(b.L.AddK(-1)) && !st.feasibleWith(b.L.Neg().AddK(-1)) {
				return nil
			}
			for _, n := range st.neqs {
				if n.Eq(b.L) || n.Eq(b.L.Neg()) {
					return st
				}
			}
			st.neqs = append(st.neqs, b.L)
		}
		return st
	case 's':
		if !st.setSym(b.S, !b.Neg) {
			return nil
		}
		return st
	}
	return st
}

func sharesSym(a, b Lin) bool {
	for _, t := range a.T {
		if b.coef(t.S) != 0 {
			return true
		}
	}
	return false
}

func (st *State) provesEqRaw(n Lin) bool {
	if n.IsConst() {
		return n.K == 0
	}
	return entails(st.cons, n) && entails(st.cons, n.Neg())
}

// truth evaluates b in st: 1 true, 0 false, -1 unknown.
func (st *State) truth(b BoolV) int {
	switch b.Op {
	case 'k':
		if b.C {
			return 1
		}
		return 0
	case '>':
		if st.proves(b.L) {
			return 1
		}
		if st.proves(b.L.Neg().AddK(-1)) {
			return 0
		}
	case '=':
		r := -1
		if b.L.IsConst() {
			r = 0
			if b.L.K == 0 {
				r = 1
			}
		} else if st.provesEqRaw(b.L) {
			r = 1
		} else if st.proves(b.L.AddK(-1)) || st.proves(b.L.Neg().AddK(-1)) {
			r = 0
		} else {
			for _, n := range st.neqs {
				if n.Eq(b.L) || n.Eq(b.L.Neg()) {
					r = 0
				}
			}
		}
		if r >= 0 && b.Neg {
			r = 1 - r
		}
		return r
	case 's':
		if v, ok := st.bools[b.S]; ok {
			if v != b.Neg {
				return 1
			}
			return 0
		}
	}
	return -1
}

func constInt(c *ssa.Const) (int64, bool) {
	if c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}
