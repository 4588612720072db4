package main

// Object invariants.  Candidate invariants over the fields of the types that
// exist once per Instance are generated from templates; those that every entry
// point of the package preserves (assuming them on entry) survive.  Entry points
// are analysed again until no candidate is lost, so the survivors are inductive:
// they hold whenever no operation is in progress, for every history of calls.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type invTerm struct {
	c    int64
	path string // field path, ".len" appended for slice lengths
	ln   bool
}

type invGuard struct {
	path string
	kind byte // 'b' bool field, 'n' nilness of a field
	val  bool
}

type invCand struct {
	typ    string
	g      []invGuard
	terms  []invTerm // sum + k >= 0
	k      int64
	nonNil string // or: field is not nil
	text   string
	paths  map[string]bool
	dead   bool
	why    string
	shadow *invCand // the same conclusion without a guard
}

// active candidates are assumed and checked; a guarded one only matters once
// its unguarded form has been lost.
func (c *invCand) active() bool { return !c.dead && (c.shadow == nil || c.shadow.dead) }

type invSet struct {
	cands map[string][]*invCand // by type
	types map[string]*types.Named
	lost  bool // some candidate was removed in this round
	mu    sync.Mutex
	used  map[*invCand]bool
	fin   bool
}

type fieldInfo struct {
	path string
	typ  types.Type
}

func invFields(n *types.Named) []fieldInfo {
	var out []fieldInfo
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if _, isMu := isSyncType(f.Type()); isMu {
			continue
		}
		if _, isS := f.Type().Underlying().(*types.Struct); isS {
			continue
		}
		out = append(out, fieldInfo{"." + f.Name(), f.Type()})
	}
	return out
}

func newInvSet(p *Program, names []string) *invSet {
	iv := &invSet{cands: map[string][]*invCand{}, types: map[string]*types.Named{}, used: map[*invCand]bool{}}
	for _, n := range names {
		t := p.namedType(n)
		if t == nil {
			continue
		}
		iv.types[n] = t
		iv.gen(n, t)
	}
	return iv
}

func (iv *invSet) gen(tn string, t *types.Named) {
	var ints, slices, ptrs, bools []fieldInfo
	for _, f := range invFields(t) {
		switch u := f.typ.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsBoolean != 0:
				bools = append(bools, f)
			case u.Info()&types.IsInteger != 0 && u.Kind() != types.Int32 && u.Info()&types.IsUnsigned == 0:
				ints = append(ints, f)
			}
		case *types.Slice:
			slices = append(slices, f)
		case *types.Pointer, *types.Interface, *types.Signature:
			ptrs = append(ptrs, f)
		case *types.Chan, *types.Map:
			ptrs = append(ptrs, f)
		}
	}
	guards := [][]invGuard{nil}
	for _, b := range bools {
		for _, v := range []bool{true, false} {
			guards = append(guards, []invGuard{{b.path, 'b', v}})
		}
		for _, s := range slices {
			guards = append(guards, []invGuard{{b.path, 'b', true}, {s.path, 'n', false}})
		}
	}
	for _, s := range slices {
		guards = append(guards, []invGuard{{s.path, 'n', false}})
	}
	for _, s := range ptrs {
		guards = append(guards, []invGuard{{s.path, 'n', false}})
	}
	add := func(c invCand) {
		var un *invCand
		for _, g := range guards {
			n := c
			n.typ, n.g = tn, g
			n.paths = map[string]bool{}
			for _, t := range n.terms {
				n.paths[t.path] = true
			}
			if n.nonNil != "" {
				n.paths[n.nonNil] = true
			}
			skip := false
			var gt []string
			for _, x := range g {
				if x.path == n.nonNil {
					skip = true
				}
				n.paths[x.path] = true
				switch {
				case x.kind == 'n':
					gt = append(gt, tn+x.path+" != nil")
				case x.val:
					gt = append(gt, tn+x.path)
				default:
					gt = append(gt, "!"+tn+x.path)
				}
			}
			if skip {
				continue
			}
			n.text = n.body()
			if len(gt) > 0 {
				n.text = strings.Join(gt, " and ") + " => " + n.text
			}
			iv.cands[tn] = append(iv.cands[tn], &n)
			if len(g) == 0 {
				un = &n
			} else {
				n.shadow = un
			}
		}
	}
	allGuards := guards
	for i, f := range ints {
		for _, k := range []int64{0, -1, 1} {
			add(invCand{terms: []invTerm{{1, f.path, false}}, k: k})
		}
		guards = guards[:1]
		for j, g := range ints {
			if i != j {
				add(invCand{terms: []invTerm{{1, g.path, false}, {-1, f.path, false}}})
			}
		}
		guards = allGuards
		for _, s := range slices {
			add(invCand{terms: []invTerm{{1, s.path, true}, {-1, f.path, false}}})
			add(invCand{terms: []invTerm{{1, s.path, true}, {-1, f.path, false}}, k: -1})
		}
	}
	for _, s := range slices {
		add(invCand{terms: []invTerm{{1, s.path, true}}, k: -1})
	}
	for _, p := range ptrs {
		add(invCand{nonNil: p.path})
	}
}

func (c *invCand) body() string {
	if c.nonNil != "" {
		return c.typ + c.nonNil + " != nil"
	}
	tm := func(t invTerm) string {
		if t.ln {
			return "len(" + c.typ + t.path + ")"
		}
		return c.typ + t.path
	}
	if len(c.terms) == 1 {
		return fmt.Sprintf("%s >= %d", tm(c.terms[0]), -c.k)
	}
	if c.k == 0 {
		return tm(c.terms[1]) + " <= " + tm(c.terms[0])
	}
	return tm(c.terms[1]) + " < " + tm(c.terms[0])
}

// initial symbol of a field when nothing has been stored yet.
func (c *invCand) initLin(e *Eng, o *Obj) Lin {
	r := Lin{K: c.k}
	for _, t := range c.terms {
		n := o.Name + t.path
		if t.ln {
			n += ".len"
		}
		r = r.addMul(linS(e.sym(n)), t.c)
	}
	return r
}

// touch makes the invariants of o available the first time it is used.
func (iv *invSet) touch(e *Eng, st *State, o *Obj) {
	k := cellKey{o, "#inv"}
	if _, ok := st.heap[k]; ok {
		return
	}
	st.setCell(k, boolK(true))
	for _, c := range iv.cands[o.Name] {
		if !c.active() {
			continue
		}
		iv.assumeInit(e, st, o, c)
	}
}

func (iv *invSet) assumeInit(e *Eng, st *State, o *Obj, c *invCand) {
	im := &impl{}
	for _, g := range c.g {
		n := o.Name + g.path
		if g.kind == 'n' {
			if e.assumeFld[n] {
				continue
			}
			n += ".nil"
		}
		im.g = append(im.g, guard{e.sym(n), g.val})
	}
	if c.nonNil != "" {
		if e.assumeFld[o.Name+c.nonNil] {
			return
		}
		im.sets = []guard{{e.sym(o.Name + c.nonNil + ".nil"), false}}
	} else {
		im.lins = []Lin{c.initLin(e, o)}
		for _, t := range c.terms {
			if t.ln {
				st.addCon(linS(e.sym(o.Name + t.path + ".len")))
			}
		}
	}
	if len(im.g) == 0 {
		for _, l := range im.lins {
			st.addCon(l)
		}
		for _, g := range im.sets {
			st.setSym(g.s, g.val)
		}
		return
	}
	st.addImpl(im)
}

// assumeCur assumes the invariants of o that mention a changed field for the
// values the fields have now.
func (iv *invSet) assumeCur(e *Eng, st *State, o *Obj, changed map[string]bool) {
	for _, c := range iv.cands[o.Name] {
		if !c.active() {
			continue
		}
		hit := false
		for p := range c.paths {
			hit = hit || changed[p]
		}
		if hit {
			iv.assumeOne(e, st, o, c)
		}
	}
}

// joined keeps the guarded invariants of the objects whose fields got new
// symbols when two states that both satisfy them were merged.
func (iv *invSet) joined(e *Eng, out, a, b *State) {
	changed := map[*Obj]map[string]bool{}
	var objs []*Obj
	for k, v := range out.heap {
		if !k.o.Single || iv.cands[k.o.Name] == nil || strings.HasPrefix(k.path, "#") {
			continue
		}
		va, oka := a.heap[k]
		vb, okb := b.heap[k]
		if oka && valEq(v, va) && okb && valEq(v, vb) {
			continue
		}
		if changed[k.o] == nil {
			changed[k.o] = map[string]bool{}
			objs = append(objs, k.o)
		}
		changed[k.o][k.path] = true
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Name < objs[j].Name })
	for _, o := range objs {
		for _, c := range iv.cands[o.Name] {
			if !c.active() || len(c.g) == 0 {
				continue
			}
			hit := false
			for p := range c.paths {
				hit = hit || changed[o][p]
			}
			if hit && !iv.holds(e, out, o, c) && iv.holds(e, a, o, c) && iv.holds(e, b, o, c) {
				iv.assumeOne(e, out, o, c)
			}
		}
	}
}

func (iv *invSet) assumeOne(e *Eng, st *State, o *Obj, c *invCand) {
	vals := map[string]Val{}
	for p := range c.paths {
		v, _ := iv.cell(e, st, o, p)
		if v == nil {
			for _, f := range invFields(iv.types[o.Name]) {
				if f.path == p {
					v = e.load(st, o, p, f.typ, nil)
				}
			}
		}
		vals[p] = v
	}
	im := &impl{}
	for _, g := range c.g {
		var b BoolV
		if g.kind == 'n' {
			b = e.nilTest(st, vals[g.path], nil)
		} else {
			b = boolOf(e, st, vals[g.path], nil)
		}
		if t := st.truth(b); t >= 0 {
			if (t == 1) != g.val {
				return
			}
			continue
		}
		if b.Op != 's' {
			return
		}
		im.g = append(im.g, guard{b.S, g.val != b.Neg})
	}
	if c.nonNil != "" {
		b := e.nilTest(st, vals[c.nonNil], nil)
		if st.truth(b) >= 0 || b.Op != 's' {
			return
		}
		im.sets = []guard{{b.S, b.Neg}}
	} else {
		l := Lin{K: c.k}
		for _, t := range c.terms {
			if t.ln {
				l = l.addMul(e.lenOf(st, vals[t.path], nil), t.c)
			} else {
				l = l.addMul(e.intOf(st, vals[t.path], nil), t.c)
			}
		}
		im.lins = []Lin{l}
	}
	if len(im.g) == 0 {
		for _, l := range im.lins {
			st.addCon(l)
		}
		for _, g := range im.sets {
			st.setSym(g.s, g.val)
		}
		return
	}
	st.addImpl(im)
}

// cell reads a field for a check; unchanged reports the initial value.
func (iv *invSet) cell(e *Eng, st *State, o *Obj, path string) (v Val, unchanged bool) {
	v, ok := st.heap[cellKey{o, path}]
	if ok {
		if o.Single {
			n := o.Name + path
			switch x := v.(type) {
			case IntV:
				s, ok := isSymLin(x.L)
				return v, ok && s == e.sym(n)
			case BoolV:
				return v, x.Op == 's' && !x.Neg && x.S == e.sym(n)
			case SliceV:
				s, ok := isSymLin(x.Len)
				return v, ok && s == e.sym(n+".len") && x.Nil == e.sym(n+".nil")
			case PtrV:
				return v, x.Obj != nil && (x.Nil == 0 || x.Nil == e.sym(n+".nil"))
			case IfaceV:
				return v, !x.Null && x.Nil != 0 && x.Nil == e.sym(n+".nil")
			case FuncV:
				return v, !x.Null && x.Nil != 0 && x.Nil == e.sym(n+".nil")
			}
		}
		return v, false
	}
	if o.Single {
		return nil, true
	}
	var ft types.Type
	for _, f := range invFields(iv.types[typeName(o.Typ)]) {
		if f.path == path {
			ft = f.typ
		}
	}
	if e.dirty(st, o) {
		return e.mat(st, ft, e.base(st, nil, "chk"+o.Name+path)), false
	}
	return e.zero(ft), false
}

func (iv *invSet) holds(e *Eng, st *State, o *Obj, c *invCand) bool {
	vals := map[string]Val{}
	same := true
	for p := range c.paths {
		v, un := iv.cell(e, st, o, p)
		vals[p] = v
		if !un {
			same = false
		}
	}
	if same {
		return true
	}
	for p := range c.paths {
		if vals[p] == nil {
			for _, f := range invFields(iv.types[o.Name]) {
				if f.path == p {
					vals[p] = e.mat(st, f.typ, o.Name+p)
				}
			}
		}
	}
	f := st
	forked := false
	for _, g := range c.g {
		var b BoolV
		if g.kind == 'n' {
			b = e.nilTest(f, vals[g.path], nil)
		} else {
			b = boolOf(e, f, vals[g.path], nil)
		}
		switch t := f.truth(b); {
		case t >= 0 && (t == 1) != g.val:
			return true
		case t < 0:
			if !forked {
				f = f.fork()
				forked = true
			}
			if f = f.assume(b, g.val); f == nil {
				return true
			}
		}
	}
	if c.nonNil != "" {
		v := vals[c.nonNil]
		if p, ok := v.(PtrV); ok && p.Obj != nil && p.Nil == 0 {
			return true
		}
		return f.truth(e.nilTest(f, v, nil)) == 0
	}
	l := Lin{K: c.k}
	for _, t := range c.terms {
		v := vals[t.path]
		if t.ln {
			l = l.addMul(e.lenOf(f, v, nil), t.c)
		} else {
			l = l.addMul(e.intOf(f, v, nil), t.c)
		}
	}
	return f.proves(l)
}

func (iv *invSet) objects(e *Eng, st *State) []*Obj {
	seen := map[*Obj]bool{}
	var out []*Obj
	for k := range st.heap {
		o := k.o
		if seen[o] {
			continue
		}
		seen[o] = true
		if o.Typ == nil || o.Arr || iv.types[typeName(o.Typ)] == nil || !types.Identical(o.Typ, iv.types[typeName(o.Typ)]) {
			continue
		}
		if o.Single || o.Alloc {
			out = append(out, o)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

func (iv *invSet) holdsAll(e *Eng, st *State) bool {
	for _, o := range iv.objects(e, st) {
		if !o.Single {
			continue
		}
		for _, c := range iv.cands[typeName(o.Typ)] {
			if c.active() && !iv.holds(e, st, o, c) {
				return false
			}
		}
	}
	return true
}

// check removes the candidates that do not hold when an operation ends.
func (iv *invSet) check(e *Eng, st *State, where string) {
	if st.dead {
		return
	}
	for _, o := range iv.objects(e, st) {
		iv.checkObj(e, st, o, where)
	}
}

func (iv *invSet) checkObj(e *Eng, st *State, o *Obj, where string) {
	for _, c := range iv.cands[typeName(o.Typ)] {
		if !c.active() {
			continue
		}
		if !iv.holds(e, st, o, c) {
			iv.mu.Lock()
			e.invLost = append(e.invLost, c)
			if c.why == "" {
				c.why = where
				if verbose {
					for p := range c.paths {
						v, un := iv.cell(e, st, o, p)
						c.why += fmt.Sprintf(" %s=%v(%v)", p, v, un)
					}
					for _, x := range st.cons {
						c.why += "\n    " + e.str(x)
					}
				}
			}
			iv.mu.Unlock()
		}
	}
}

// publish checks the objects a new goroutine can reach.
func (iv *invSet) publish(e *Eng, st *State, at ssa.Instruction, fn Val, args []Val) {
	if e.dry > 0 {
		return
	}
	seen := map[*Obj]bool{}
	var visit func(v Val)
	var visitObj func(o *Obj)
	visitObj = func(o *Obj) {
		if o == nil || seen[o] || !o.Alloc {
			return
		}
		seen[o] = true
		for k, v := range st.heap {
			if k.o == o {
				visit(v)
			}
		}
	}
	visit = func(v Val) {
		switch x := v.(type) {
		case PtrV:
			visitObj(x.Obj)
		case SliceV:
			visitObj(x.Arr)
		case IfaceV:
			if x.V != nil {
				visit(x.V)
			}
		case FuncV:
			for _, b := range x.Bind {
				visit(b)
			}
		case StructV:
			for _, f := range x.F {
				visit(f)
			}
		}
	}
	visit(fn)
	for _, a := range args {
		visit(a)
	}
	for _, o := range iv.objects(e, st) {
		if seen[o] {
			iv.checkObj(e, st, o, "go statement in "+fnName(at.Parent()))
		}
	}
}

// alive lists the surviving invariants.
func (iv *invSet) alive() []string {
	var out []string
	var ts []string
	for t := range iv.cands {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	for _, t := range ts {
		for _, c := range iv.cands[t] {
			if c.active() {
				out = append(out, c.text)
			}
		}
	}
	return out
}
