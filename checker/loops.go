package main

// Control flow: regions in reverse postorder, joins of states, loop fixpoints.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// runRegion executes the blocks of loop l (nil: the whole function) from start.
func (e *Eng) runRegion(fi *fnInfo, l *loopInfo, start *ssa.BasicBlock, init []*State) (exits, backs []edgeState, rets []retState) {
	pending := map[*ssa.BasicBlock][]*State{start: init}
	in := func(b *ssa.BasicBlock) bool {
		if l == nil {
			return fi.all[b]
		}
		return l.blocks[b]
	}
	send := func(ed edgeState) {
		switch {
		case l != nil && ed.to == l.head:
			backs = append(backs, ed)
		case !in(ed.to):
			exits = append(exits, ed)
		default:
			e.phis(ed.st, ed.from, ed.to)
			pending[ed.to] = append(pending[ed.to], ed.st)
		}
	}
	for _, b := range fi.rpo {
		if !in(b) {
			continue
		}
		sts := pending[b]
		if len(sts) == 0 {
			continue
		}
		delete(pending, b)
		inner := fi.loops[b]
		if inner != nil && inner == l {
			inner = nil
		}
		limit := e.maxStates
		if inner != nil && limit > e.maxLoop {
			limit = e.maxLoop
		}
		if len(sts) > limit {
			sts = e.mergeTo(sts, limit, fi.live[b.Index], b.Instrs[0])
		}
		if inner != nil {
			for _, s := range sts {
				ex, rs := e.runLoopSplit(fi, inner, s)
				rets = append(rets, rs...)
				for _, x := range ex {
					send(x)
				}
			}
			continue
		}
		for _, s := range sts {
			eds, rs := e.execBlock(b, s)
			rets = append(rets, rs...)
			for _, x := range eds {
				send(x)
			}
		}
	}
	return
}

// phis evaluates the phis of to for the edge from->to.
func (e *Eng) phis(st *State, from, to *ssa.BasicBlock) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var ph []*ssa.Phi
	var vs []Val
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, p)
		vs = append(vs, e.get(st, p.Edges[pi]))
	}
	for i, p := range ph {
		e.set(st, p, vs[i])
	}
}

// ---------------------------------------------------------------------------
// joins of values

// joiner joins two values into one that covers both.  Integers that differ
// become symbols named after their location.
type joiner struct {
	e    *Eng
	pre  string
	st   *State // where facts about new symbols go
	sa   *State // state of the left value (nil: none)
	sb   *State
	ints map[Sym][2]Lin
	nils map[Sym][2]BoolV
	ord  []Sym
	nord []Sym
}

func newJoiner(e *Eng, pre string, st, sa, sb *State) *joiner {
	return &joiner{e: e, pre: pre, st: st, sa: sa, sb: sb, ints: map[Sym][2]Lin{}, nils: map[Sym][2]BoolV{}}
}

func (j *joiner) lin(loc string, a, b Lin) Lin {
	if a.Eq(b) {
		return a
	}
	s := j.e.sym(j.pre + loc)
	if _, ok := j.ints[s]; !ok {
		j.ints[s] = [2]Lin{a, b}
		j.ord = append(j.ord, s)
	}
	return linS(s)
}

// knownRunes is the number of runes of a string the state knows something about.
func (e *Eng) knownRunes(st *State, s StrV) (Lin, bool) {
	if s.Lit != nil {
		return linK(int64(utf8.RuneCountInString(*s.Lit))), true
	}
	if st == nil || s.ID == 0 {
		return Lin{}, false
	}
	sy := e.sym("runelen(" + e.strID(s) + ")")
	for _, c := range st.cons {
		for _, t := range c.T {
			if t.S == sy {
				return linS(sy), true
			}
		}
	}
	return Lin{}, false
}

// nilness joins two nil conditions; 0 means known non-nil, isNil means known nil in both.
func (j *joiner) nilness(loc string, a, b BoolV) (Sym, bool) {
	ta, tb := -1, -1
	if a.Op == 'k' {
		ta = 0
		if a.C {
			ta = 1
		}
	} else if j.sa != nil {
		ta = j.sa.truth(a)
	}
	if b.Op == 'k' {
		tb = 0
		if b.C {
			tb = 1
		}
	} else if j.sb != nil {
		tb = j.sb.truth(b)
	}
	if ta == 0 && tb == 0 {
		return 0, false
	}
	if ta == 1 && tb == 1 {
		return 0, true
	}
	if a.Op == 's' && b.Op == 's' && a.S == b.S && a.Neg == b.Neg && !a.Neg {
		return a.S, false
	}
	s := j.e.sym(j.pre + loc + ".nil")
	if _, ok := j.nils[s]; !ok {
		j.nils[s] = [2]BoolV{a, b}
		j.nord = append(j.nord, s)
	}
	return s, false
}

func (j *joiner) val(loc string, t types.Type, a, b Val) Val {
	if a == nil || b == nil {
		return nil
	}
	if valEq(a, b) {
		return a
	}
	switch x := a.(type) {
	case IntV:
		if y, ok := b.(IntV); ok {
			return IntV{L: j.lin(loc, x.L, y.L), Lab: x.Lab | y.Lab}
		}
	case BoolV:
		if y, ok := b.(BoolV); ok {
			s := j.e.sym(j.pre + loc)
			if _, ok := j.nils[s]; !ok {
				j.nils[s] = [2]BoolV{x, y}
				j.nord = append(j.nord, s)
			}
			return BoolV{Op: 's', S: s, Lab: x.Lab | y.Lab}
		}
	case SliceV:
		if y, ok := b.(SliceV); ok {
			r := SliceV{Lab: x.Lab | y.Lab}
			na, nb := j.e.nilTest(j.st, x, nil), j.e.nilTest(j.st, y, nil)
			var isNil bool
			r.Nil, isNil = j.nilness(loc, na, nb)
			if isNil {
				return SliceV{Lab: r.Lab}
			}
			r.Len = j.lin(loc+".len", x.Len, y.Len)
			switch {
			case x.Arr == y.Arr:
				r.Arr = x.Arr
				r.Off = j.lin(loc+".off", x.Off, y.Off)
			case x.Arr == nil:
				r.Arr, r.Off = y.Arr, y.Off
			case y.Arr == nil:
				r.Arr, r.Off = x.Arr, x.Off
			}
			if r.Arr == nil || x.Arr != y.Arr {
				var et types.Type
				if x.Arr != nil {
					et = x.Arr.Typ
				} else if y.Arr != nil {
					et = y.Arr.Typ
				}
				if x.Arr != y.Arr {
					r.Arr = j.e.obj("join "+j.pre+loc+".arr", et)
					r.Arr.Arr = true
					r.Off = Lin{}
				}
			}
			if x.Cap != nil && y.Cap != nil {
				c := j.lin(loc+".cap", *x.Cap, *y.Cap)
				r.Cap = &c
			}
			if r.Nil != 0 {
				j.st.addImpl(&impl{g: []guard{{r.Nil, true}}, lins: []Lin{r.Len.Neg()}})
			}
			return r
		}
	case StrV:
		if y, ok := b.(StrV); ok {
			r := StrV{ID: j.e.sym(j.pre + loc + ".str"), Len: j.lin(loc+".len", j.e.lenOf(j.st, x, nil), j.e.lenOf(j.st, y, nil)), Lab: x.Lab | y.Lab}
			la, oka := j.e.knownRunes(j.sa, x)
			lb, okb := j.e.knownRunes(j.sb, y)
			if rs := j.e.sym("runelen(" + j.e.strID(r) + ")"); oka && okb {
				if _, ok := j.ints[rs]; !ok {
					j.ints[rs] = [2]Lin{la, lb}
					j.ord = append(j.ord, rs)
				}
			}
			return r
		}
	case PtrV:
		if y, ok := b.(PtrV); ok {
			var r PtrV
			n, isNil := j.nilness(loc, j.e.nilTest(j.st, x, nil), j.e.nilTest(j.st, y, nil))
			if isNil {
				return PtrV{}
			}
			r.Lab = x.Lab | y.Lab
			r.Nil = n
			switch {
			case x.Obj == y.Obj && x.Path == y.Path:
				r.Obj, r.Path = x.Obj, x.Path
			case x.Obj == nil && !y.Obj.Alloc && y.Nil == 0 && y.Obj.Single:
				r.Obj, r.Path = y.Obj, y.Path
			case y.Obj == nil && x.Obj.Single:
				r.Obj, r.Path = x.Obj, x.Path
			case j.sa != nil && j.sb != nil && x.Obj == nil:
				r.Obj, r.Path = y.Obj, y.Path
			case j.sa != nil && j.sb != nil && y.Obj == nil:
				r.Obj, r.Path = x.Obj, x.Path
			default:
				et := t
				if t != nil {
					et = deref(t)
				} else if x.Obj != nil && x.Path == "" {
					et = x.Obj.Typ
				}
				if et == nil {
					et = types.Typ[types.Int]
				}
				r.Obj = j.e.objFor(et, "join "+j.pre+loc)
				for _, o := range []*Obj{x.Obj, y.Obj} {
					if o != nil && o.Alloc {
						j.spill(o)
					}
				}
			}
			return r
		}
	case IfaceV:
		if y, ok := b.(IfaceV); ok {
			n, isNil := j.nilness(loc, j.e.nilTest(j.st, x, nil), j.e.nilTest(j.st, y, nil))
			if isNil {
				return IfaceV{Null: true}
			}
			r := IfaceV{Nil: n, Lab: x.Lab | y.Lab, ID: j.pre + loc}
			if n == 0 && x.Dyn != nil && y.Dyn != nil && types.Identical(x.Dyn, y.Dyn) {
				r.Dyn = x.Dyn
				r.V = j.val(loc+".dyn", x.Dyn, x.V, y.V)
			}
			return r
		}
	case FuncV:
		if y, ok := b.(FuncV); ok {
			n, isNil := j.nilness(loc, j.e.nilTest(j.st, x, nil), j.e.nilTest(j.st, y, nil))
			if isNil {
				return FuncV{Null: true}
			}
			return FuncV{Nil: n, Name: j.pre + loc}
		}
	case StructV:
		if y, ok := b.(StructV); ok && len(x.F) == len(y.F) {
			f := make([]Val, len(x.F))
			for i := range f {
				f[i] = j.val(fmt.Sprintf("%s.%d", loc, i), nil, x.F[i], y.F[i])
			}
			return StructV{f}
		}
	case TupleV:
		if y, ok := b.(TupleV); ok && len(x) == len(y) {
			f := make(TupleV, len(x))
			for i := range f {
				f[i] = j.val(fmt.Sprintf("%s.%d", loc, i), nil, x[i], y[i])
			}
			return f
		}
	}
	return OpqV{ID: j.pre + loc, Lab: labOf(a) | labOf(b)}
}

// spill: an allocated object is now reachable through an imprecise pointer.
func (j *joiner) spill(o *Obj) {
	for c := range j.st.heap {
		if c.o == o && c.path != "#alloc" {
			j.st.setCell(cellKey{o, "#spill"}, boolK(true))
		}
	}
}

// ---------------------------------------------------------------------------
// merging states

func (e *Eng) partKey(st *State, live map[int]bool, level int, at ssa.Instruction) string {
	var sb strings.Builder
	sb.WriteString(st.ghostKey())
	fi := st.fr.fi
	if fi.retest != nil {
		var rs []string
		for k, v := range st.heap {
			if b, ok := v.(BoolV); ok && k.o.Typ != nil && fi.retestedAt(at.Block(), typeName(k.o.Typ)+k.path) {
				rs = append(rs, fmt.Sprint(k.o.Name, k.path, st.boolTruthQuick(b)))
			}
		}
		sort.Strings(rs)
		sb.WriteString(strings.Join(rs, ","))
	}
	if level >= 2 {
		return sb.String()
	}
	tv := func(name string, v Val) {
		switch v := v.(type) {
		case BoolV:
			if t := st.boolTruthQuick(v); t >= 0 {
				fmt.Fprintf(&sb, "|%s=%d", name, t)
			}
		case PtrV:
			if level == 0 || v.Obj == nil {
				if v.Obj == nil {
					fmt.Fprintf(&sb, "|%s=nil", name)
				} else {
					fmt.Fprintf(&sb, "|%s=%s%s", name, v.Obj.Name, v.Path)
				}
			}
			if level == 0 && v.Nil != 0 {
				if b, ok := st.bools[v.Nil]; ok {
					fmt.Fprintf(&sb, "|%s.nil=%v", name, b)
				}
			}
		case IfaceV:
			if v.Null {
				fmt.Fprintf(&sb, "|%s=nil", name)
			} else if level == 0 && v.Nil != 0 {
				if b, ok := st.bools[v.Nil]; ok {
					fmt.Fprintf(&sb, "|%s.nil=%v", name, b)
				}
			}
		case SliceV:
			if level == 0 {
				if v.Arr == nil {
					fmt.Fprintf(&sb, "|%s=nil", name)
				} else if v.Nil != 0 {
					if b, ok := st.bools[v.Nil]; ok {
						fmt.Fprintf(&sb, "|%s.nil=%v", name, b)
					}
				}
			}
		case IntV:
			if level == 0 && v.L.IsConst() {
				fmt.Fprintf(&sb, "|%s=%d", name, v.L.K)
			}
		}
	}
	for i, v := range st.fr.env {
		if live != nil && !live[i] {
			if _, isP := st.fr.fi.vals[i].(*ssa.Phi); !isP {
				continue
			}
		}
		tv(fmt.Sprint(i), v)
	}
	var ks []cellKey
	for k, v := range st.heap {
		if k.o.Single {
			if _, ok := v.(BoolV); ok {
				ks = append(ks, k)
			}
		}
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].o.Name != ks[j].o.Name {
			return ks[i].o.Name < ks[j].o.Name
		}
		return ks[i].path < ks[j].path
	})
	for _, k := range ks {
		tv(k.o.Name+k.path, st.heap[k])
	}
	for k, v := range st.heap {
		if k.path == "v" && strings.HasPrefix(k.o.Name, "result of ") {
			if t, ok := v.(TupleV); ok {
				for i, x := range t {
					tv(fmt.Sprint("r", i), x)
				}
			} else {
				tv("r", v)
			}
		}
	}
	return sb.String()
}

func (st *State) boolTruthQuick(b BoolV) int {
	switch b.Op {
	case 'k':
		if b.C {
			return 1
		}
		return 0
	case 's':
		if v, ok := st.bools[b.S]; ok {
			if v != b.Neg {
				return 1
			}
			return 0
		}
	}
	return -1
}

func (e *Eng) mergeTo(sts []*State, max int, live map[int]bool, at ssa.Instruction) []*State {
	for level := 0; level < 3; level++ {
		groups := map[string][]*State{}
		var order []string
		for _, s := range sts {
			k := e.partKey(s, live, level, at)
			if groups[k] == nil {
				order = append(order, k)
			}
			groups[k] = append(groups[k], s)
		}
		if len(order) == len(sts) && level < 2 {
			continue
		}
		if len(order) > max && level < 2 && e.strictMerge == 0 {
			// merge within the groups first, then coarser
			if len(order) > max {
				continue
			}
		}
		var out []*State
		for _, k := range order {
			g := groups[k]
			for len(g) > 1 {
				g = append([]*State{e.join(g[0], g[1], live, at)}, g[2:]...)
			}
			out = append(out, g[0])
		}
		return out
	}
	return sts
}

// join covers a and b (same frames, same ghost) by one state.
func (e *Eng) join(a, b *State, live map[int]bool, at ssa.Instruction) *State {
	e.joins++
	if verbose && a.fr.depth == 0 {
		t0 := time.Now()
		defer func() {
			e.loopStat["T:join0"] += int(time.Since(t0).Milliseconds())
			e.loopStat["N:join0"]++
			e.loopStat["C:join0"] += len(a.cons)
			e.loopStat["I:join0"] += len(a.impls)
			e.loopStat["H:join0"] += len(a.heap)
		}()
	}
	if e.inv != nil {
		for _, p := range [][2]*State{{a, b}, {b, a}} {
			for _, k := range sortedCells(p[0].heap) {
				if k.path == "#inv" {
					e.inv.touch(e, p[1], k.o)
				}
			}
		}
	}
	out := a.fork()
	// facts
	out.cons, out.neqs, out.impls = nil, nil, nil
	out.bools, out.boolsO = map[Sym]bool{}, true
	for s, v := range a.bools {
		if w, ok := b.bools[s]; ok && w == v {
			out.bools[s] = v
		}
	}
	occ := map[occKey]int{}
	for k, v := range a.occ {
		occ[k] = v
	}
	for k, v := range b.occ {
		if v > occ[k] {
			occ[k] = v
		}
	}
	out.occ, out.occO = occ, true
	var ctx int32 = out.fr.ctx
	tag := "J"
	jk := occKey{ctx, e.id(at), tag}
	n := out.bump(jk)
	j := newJoiner(e, fmt.Sprintf("J%d.%d#%d:", ctx, e.id(at), n), out, a, b)
	// frames
	var fjoin func(x, y *Frame, lv map[int]bool, depth int) *Frame
	fjoin = func(x, y *Frame, lv map[int]bool, depth int) *Frame {
		if x == y || x == nil {
			return x
		}
		f := *x
		f.env = make([]Val, len(x.env))
		for i := range x.env {
			if lv != nil && !lv[i] {
				if _, isP := x.fi.vals[i].(*ssa.Phi); !isP {
					continue
				}
			}
			if x.env[i] == nil || y.env[i] == nil {
				continue
			}
			f.env[i] = j.val(fmt.Sprintf("f%d.%s", depth, x.fi.vals[i].Name()), x.fi.vals[i].Type(), x.env[i], y.env[i])
		}
		f.parent = fjoin(x.parent, y.parent, nil, depth+1)
		if len(x.defers) != len(y.defers) {
			panic("states with different pending defers meet in " + fnName(x.fi.fn))
		}
		f.defers = make([]deferred, len(x.defers))
		for i := range x.defers {
			d := x.defers[i]
			d.fn = j.val(fmt.Sprintf("f%d.d%d", depth, i), nil, d.fn, y.defers[i].fn)
			d.args = append([]Val{}, d.args...)
			for k := range d.args {
				d.args[k] = j.val(fmt.Sprintf("f%d.d%d.%d", depth, i, k), nil, d.args[k], y.defers[i].args[k])
			}
			f.defers[i] = d
		}
		return &f
	}
	out.fr = fjoin(a.fr, b.fr, live, 0)
	out.frO = false
	// heap
	heap := map[cellKey]Val{}
	keys := map[cellKey]bool{}
	for k := range a.heap {
		keys[k] = true
	}
	for k := range b.heap {
		keys[k] = true
	}
	ks := make([]cellKey, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].o.Name != ks[j].o.Name {
			return ks[i].o.Name < ks[j].o.Name
		}
		return ks[i].path < ks[j].path
	})
	alloc := func(s *State, o *Obj) bool { _, ok := s.heap[cellKey{o, "#alloc"}]; return ok }
	for _, k := range ks {
		va, oka := a.heap[k]
		vb, okb := b.heap[k]
		if strings.HasPrefix(k.path, "#") && !strings.HasSuffix(k.path, "#len") {
			if oka {
				heap[k] = va
			} else {
				heap[k] = vb
			}
			continue
		}
		if oka && okb {
			heap[k] = j.val(k.o.Name+k.path, e.cellTyp[k], va, vb)
			continue
		}
		s, v := a, va
		if oka {
			s = b
		} else {
			v = vb
		}
		switch {
		case k.o.Single && !strings.HasSuffix(k.path, "#len"):
			w := e.load(s, k.o, k.path, e.cellTyp[k], at)
			if oka {
				heap[k] = j.val(k.o.Name+k.path, e.cellTyp[k], v, w)
			} else {
				heap[k] = j.val(k.o.Name+k.path, e.cellTyp[k], w, v)
			}
		case k.o.Alloc:
			if !alloc(s, k.o) {
				heap[k] = v // exists on one path only
				continue
			}
			if strings.HasPrefix(k.path, "[") || e.dirty(s, k.o) || strings.HasSuffix(k.path, "#len") {
				heap[cellKey{k.o, "#dirty"}] = boolK(true)
				continue
			}
			w := e.zero(e.cellTyp[k])
			if oka {
				heap[k] = j.val(k.o.Name+k.path, e.cellTyp[k], v, w)
			} else {
				heap[k] = j.val(k.o.Name+k.path, e.cellTyp[k], w, v)
			}
		}
	}
	newImpl := out.impls
	newCons := out.cons
	out.heap, out.heapO = heap, true
	out.cons, out.impls = nil, nil
	// implications known on both sides
	inB := map[string]bool{}
	for _, im := range b.impls {
		inB[im.id()] = true
	}
	kept := map[string]bool{}
	for _, im := range a.impls {
		if inB[im.id()] || b.vacuous(im) || b.concludes(im) {
			out.impls = append(out.impls, im)
			kept[im.id()] = true
		}
	}
	for _, im := range b.impls {
		if !kept[im.id()] && (a.vacuous(im) || a.concludes(im)) {
			out.impls = append(out.impls, im)
		}
	}
	// constraints known on both sides
	bk := map[string]int64{}
	for _, c := range b.cons {
		bk[c.linKey()] = c.K
	}
	try := func(c Lin) {
		if c.IsConst() {
			return
		}
		out.addCon(c)
	}
	for _, c := range a.cons {
		if k, ok := bk[c.linKey()]; ok {
			if k > c.K {
				try(c)
			} else {
				c.K = maxI(c.K, k)
				try(c)
			}
			continue
		}
		if b.proves(c) {
			try(c)
		}
	}
	for _, c := range b.cons {
		if a.proves(c) {
			try(c)
		}
	}
	for _, n := range a.neqs {
		if b.truth(BoolV{Op: '=', L: n}) == 0 {
			out.neqs = append(out.neqs, n)
		}
	}
	for _, c := range newCons {
		out.addCon(c)
	}
	out.impls = append(out.impls, newImpl...)
	e.joinCons(out, j, a, b)
	for _, s := range j.nord {
		p := j.nils[s]
		ta, tb := a.truth(p[0]), b.truth(p[1])
		if ta >= 0 && ta == tb {
			out.bools[s] = ta == 1
		}
	}
	if e.inv != nil {
		e.dbgJoinOut(a, b, out, at)
		e.inv.joined(e, out, a, b)
	}
	return out
}

func (st *State) vacuous(im *impl) bool {
	for _, g := range im.g {
		if v, ok := st.bools[g.s]; ok && v != g.val {
			return true
		}
	}
	return false
}

func maxI(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// joinCons adds bounds on the joined integers that hold on both sides.
func (e *Eng) joinCons(out *State, j *joiner, a, b *State) {
	if len(j.ord) == 0 || e.candOff {
		return
	}
	type pr struct{ o, a, b Lin }
	var js []pr
	for _, s := range j.ord {
		p := j.ints[s]
		js = append(js, pr{linS(s), p[0], p[1]})
	}
	ka := newProver(a)
	kb := newProver(b)
	both := func(o, la, lb Lin) bool {
		if ka.proves(la) && kb.proves(lb) {
			out.addCon(o)
			return true
		}
		return false
	}
	bound := func(x, y pr) {
		// x - y >= k for the largest k found
		do, da, db := x.o.Sub(y.o), x.a.Sub(y.a), x.b.Sub(y.b)
		for _, k := range []int64{1, 0, -1} {
			if both(do.AddK(-k), da.AddK(-k), db.AddK(-k)) {
				break
			}
		}
		do, da, db = do.Neg(), da.Neg(), db.Neg()
		for _, k := range []int64{1, 0, -1} {
			if both(do.AddK(-k), da.AddK(-k), db.AddK(-k)) {
				break
			}
		}
	}
	zero := pr{}
	others := map[Sym]bool{}
	collect := func(s *State, l Lin) {
		for _, c := range related(s.cons, l) {
			if len(c.T) > 3 {
				continue
			}
			for _, t := range c.T {
				others[t.S] = true
			}
		}
		for _, t := range l.T {
			others[t.S] = true
		}
	}
	vis := out.visible(e)
	for i, x := range js {
		if x.a.IsConst() && x.b.IsConst() {
			lo, hi := x.a.K, x.b.K
			if lo > hi {
				lo, hi = hi, lo
			}
			out.addCon(x.o.AddK(-lo))
			out.addCon(x.o.Neg().AddK(hi))
		} else {
			bound(x, zero)
		}
		for k := i + 1; k < len(js); k++ {
			bound(x, js[k])
		}
		for s := range others {
			delete(others, s)
		}
		collect(a, x.a)
		collect(b, x.b)
		var os []Sym
		for s := range others {
			if vis[s] && !hasJoined(j, s) {
				os = append(os, s)
			}
		}
		sortSyms(os)
		if len(os) > 24 {
			os = os[:24]
		}
		for _, s := range os {
			if _, isJ := j.ints[s]; isJ {
				continue
			}
			bound(x, pr{linS(s), linS(s), linS(s)})
		}
	}
}

func (x Lin) isZero() bool { return len(x.T) == 0 && x.K == 0 }

// prover memoises entailment tests against one state.
type prover struct {
	st   *State
	memo map[string]bool
}

func newProver(st *State) *prover { return &prover{st, map[string]bool{}} }
func (p *prover) proves(l Lin) bool {
	if l.IsConst() {
		return l.K >= 0
	}
	k := l.Key()
	if v, ok := p.memo[k]; ok {
		return v
	}
	v := p.st.proves(l)
	p.memo[k] = v
	return v
}

// visible collects the symbols mentioned by registers and cells.
func (st *State) visible(e *Eng) map[Sym]bool {
	vis := map[Sym]bool{}
	lin := func(l Lin) {
		for _, t := range l.T {
			vis[t.S] = true
		}
	}
	var see func(v Val)
	see = func(v Val) {
		switch v := v.(type) {
		case IntV:
			lin(v.L)
		case SliceV:
			lin(v.Len)
			lin(v.Off)
		case StrV:
			lin(v.Len)
			if v.Lit == nil && v.ID != 0 {
				vis[e.sym("runelen("+e.strID(v)+")")] = true
			}
		case StructV:
			for _, f := range v.F {
				see(f)
			}
		case TupleV:
			for _, f := range v {
				see(f)
			}
		case IfaceV:
			if v.V != nil {
				see(v.V)
			}
		}
	}
	for f := st.fr; f != nil; f = f.parent {
		for _, v := range f.env {
			if v != nil {
				see(v)
			}
		}
	}
	objs := map[*Obj]bool{}
	for k, v := range st.heap {
		see(v)
		if k.o.Single {
			objs[k.o] = true
		}
	}
	if e.inv != nil {
		// fields not read yet keep their initial names
		for o := range objs {
			t := e.inv.types[o.Name]
			if t == nil {
				continue
			}
			for _, f := range invFields(t) {
				if _, ok := st.heap[cellKey{o, f.path}]; ok {
					continue
				}
				if s, ok := e.syms[o.Name+f.path]; ok {
					vis[s] = true
				}
				if s, ok := e.syms[o.Name+f.path+".len"]; ok {
					vis[s] = true
				}
			}
		}
	}
	return vis
}

// ---------------------------------------------------------------------------
// loops

type slot struct {
	phi  *ssa.Phi
	cell cellKey
	loc  string
	typ  types.Type
	ent  Val // value on entry
	cur  Val // value at the head
}

type cand struct {
	l    Lin
	nilS Sym // 0: unconditional; else holds when nilS is nv
	nv   bool
	dead bool
}

// runLoop solves one loop from one entry state whose phis hold their entry values.
func (e *Eng) runLoopSplit(fi *fnInfo, l *loopInfo, entry *State) (ex []edgeState, rs []retState) {
	if e.splitLoop == nil {
		return e.runLoop(fi, l, entry)
	}
	for _, s := range e.splitLoop(entry, l) {
		x, r := e.runLoop(fi, l, s)
		ex, rs = append(ex, x...), append(rs, r...)
	}
	return
}

func (e *Eng) runLoop(fi *fnInfo, l *loopInfo, entry *State) ([]edgeState, []retState) {
	e.loopsSeen[l.head] = true
	if _, cut := e.cutLoop[l.head]; cut {
		return e.runCut(fi, l, entry)
	}
	if n := e.unroll[l.head]; n > 0 {
		return e.runUnrolled(fi, l, entry, n)
	}
	at := l.head.Instrs[0]
	pre := e.base(entry, at, "L") + ":"
	var slots []*slot
	byCell := map[cellKey]*slot{}
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := e.get(entry, p)
		slots = append(slots, &slot{phi: p, loc: p.Name(), typ: p.Type(), ent: v, cur: v})
	}
	dropped := map[cellKey]bool{}
	dirtied := map[*Obj]bool{}
	var cands []*cand
	candSeen := map[string]bool{}
	genned := map[Sym]Lin{} // head symbol -> entry expression
	gennedN := map[Sym]BoolV{}
	entP := newProver(entry)
	addCand := func(l Lin, nilS Sym, nv bool) {
		if l.IsConst() {
			return
		}
		k := fmt.Sprintf("%s/%d/%v", l.Key(), nilS, nv)
		if candSeen[k] {
			return
		}
		candSeen[k] = true
		// must hold on entry
		el := substEntry(l, genned)
		if nilS != 0 {
			b := gennedN[nilS]
			switch t := entry.truth(b); {
			case t >= 0 && (t == 1) != nv:
			case t >= 0:
				if !entP.proves(el) {
					return
				}
			default:
				return
			}
		} else if !entP.proves(el) {
			return
		}
		cands = append(cands, &cand{l: l, nilS: nilS, nv: nv})
	}
	ghosts := []string{entry.ghostKey()}
	ghostMap := map[string]map[string]string{ghosts[0]: entry.ghost}
	ghostTrace := map[string]*traceNode{ghosts[0]: entry.trace} // how a ghost state came about

	gfacts := map[string]map[Sym]bool{} // nilness and truth known at the head, by ghost state
	entryGhost := ghosts[0]

	// pins: the one object a pointer is known to point to at the head, or nil, by
	// ghost state
	type pinned struct {
		p     PtrV
		known bool
	}
	pins := map[string]map[string]pinned{}
	pin := func(g string, s *slot, v Val) bool {
		if !e.pinPtrs || s.phi == nil {
			return false
		}
		p, ok := v.(PtrV)
		n := pinned{p, ok && (p.Obj == nil || p.Obj.Distinct && p.Nil == 0)}
		if pins[g] == nil {
			pins[g] = map[string]pinned{}
		}
		old, seen := pins[g][s.loc]
		if seen && (!old.known || n.known && old.p.Obj == p.Obj && old.p.Path == p.Path) {
			return false
		}
		n.known = n.known && !seen
		pins[g][s.loc] = n
		return true
	}
	for _, s := range slots {
		pin(entryGhost, s, s.ent)
	}
	mkHead := func(g string) *State {
		h := entry.fork()
		h.ghost, h.ghostO = ghostMap[g], false
		h.trace = ghostTrace[g]
		for k := range dropped {
			if k.o.Single || k.o.Alloc && !strings.HasPrefix(k.path, "[") {
				h.setCell(k, e.mat(h, e.cellTyp[k], pre+"drop "+k.o.Name+k.path))
			} else {
				h.delCell(k)
			}
		}
		for o := range dirtied {
			h.setCell(cellKey{o, "#dirty"}, boolK(true))
		}
		for _, s := range slots {
			if s.phi != nil {
				e.set(h, s.phi, s.cur)
				if n := pins[g][s.loc]; n.known {
					e.set(h, s.phi, n.p)
				}
			} else {
				h.setCell(s.cell, s.cur)
			}
			e.slotFacts(h, s.cur)
		}
		for _, c := range cands {
			if c.dead {
				continue
			}
			if c.nilS == 0 {
				h.addCon(c.l)
			} else {
				h.addImpl(&impl{g: []guard{{c.nilS, c.nv}}, lins: []Lin{c.l}})
			}
		}
		for s, v := range gfacts[g] {
			h.setSym(s, v)
		}
		return h
	}
	var finalBacks []backMap
	var finalAtoms map[string]Lin
	for pass := 0; ; pass++ {
		if verbose {
			e.loopStat[fmt.Sprintf("%s#%d", fnName(fi.fn), l.head.Index)]++
		}
		if pass > 60 {
			panic("loop fixpoint does not converge in " + fnName(fi.fn))
		}
		atoms := map[string]Lin{}
		writes := map[cellKey]bool{}
		e.writes = append(e.writes, writes)
		e.atoms = append(e.atoms, atoms)
		e.dry++
		var backs []edgeState
		var backG []string // the ghost state of the head a back edge started from
		heads := map[*State]bool{}
		var head0 *State
		changed := false
		ghosts = ghosts[:1]
		seenG := map[string]bool{entryGhost: true}
		for gi := 0; gi < len(ghosts); gi++ {
			h := mkHead(ghosts[gi])
			if head0 == nil {
				head0 = h.fork()
			}
			heads[h] = true
			_, bk, _ := e.runRegion(fi, l, l.head, []*State{h})
			for _, b := range bk {
				if b.st.dead {
					continue
				}
				e.phis(b.st, b.from, l.head)
				backs = append(backs, b)
				backG = append(backG, ghosts[gi])
				k := b.st.ghostKey()
				for _, s := range slots {
					if s.phi != nil && pin(k, s, e.get(b.st, s.phi)) {
						changed = true
					}
				}
				if !seenG[k] {
					seenG[k] = true
					ghostMap[k] = b.st.ghost
					ghostTrace[k] = b.st.trace
					b.st.ghostO = false
					ghosts = append(ghosts, k)
					if len(ghosts) > 200 {
						panic("too many ghost states at a loop in " + fnName(fi.fn))
					}
				}
			}
		}
		e.dry--
		e.writes = e.writes[:len(e.writes)-1]
		e.atoms = e.atoms[:len(e.atoms)-1]
		// new cells
		var ws []cellKey
		for k := range writes {
			ws = append(ws, k)
		}
		sort.Slice(ws, func(i, j int) bool {
			if ws[i].o.Name != ws[j].o.Name {
				return ws[i].o.Name < ws[j].o.Name
			}
			return ws[i].path < ws[j].path
		})
		for _, k := range ws {
			if k.path == "#dirty" || strings.HasPrefix(k.path, "[") || byCell[k] != nil || dropped[k] {
				continue
			}
			if _, ok := head0.heap[k]; ok {
				continue // compared below
			}
			_, isAlloc := entry.heap[cellKey{k.o, "#alloc"}]
			if k.o.Single || isAlloc {
				v := e.load(entry, k.o, k.path, e.cellTyp[k], at)
				s := &slot{cell: k, loc: k.o.Name + k.path, typ: e.cellTyp[k], ent: v, cur: v}
				byCell[k] = s
				slots = append(slots, s)
				changed = true
			}
		}
		// cells known at the head
		for _, b := range backs {
			for _, k := range sortedCells(head0.heap) {
				hv := head0.heap[k]
				if byCell[k] != nil || dropped[k] {
					continue
				}
				if k.path == "#alloc" || k.path == "#dirty" {
					continue
				}
				bv, ok := b.st.heap[k]
				if ok && valEq(hv, bv) {
					continue
				}
				if !ok || strings.HasPrefix(k.path, "[") || strings.HasPrefix(k.path, "#") && !strings.HasSuffix(k.path, "#len") {
					dropped[k] = true
					changed = true
					continue
				}
				ev, ok := entry.heap[k]
				if !ok {
					ev = hv
				}
				s := &slot{cell: k, loc: k.o.Name + k.path, typ: e.cellTyp[k], ent: ev, cur: hv}
				byCell[k] = s
				slots = append(slots, s)
				changed = true
			}
			for k := range b.st.heap {
				if k.path == "#dirty" && !dirtied[k.o] {
					if _, ok := head0.heap[k]; !ok {
						if _, ex := entry.heap[cellKey{k.o, "#alloc"}]; ex || !k.o.Alloc {
							dirtied[k.o] = true
							changed = true
						}
					}
				}
			}
		}
		// generalise the slots
		newSyms := false
		for _, b := range backs {
			for _, s := range slots {
				var bv Val
				if s.phi != nil {
					bv = e.get(b.st, s.phi)
				} else {
					bv = b.st.heap[s.cell]
					if bv == nil {
						bv = e.load(b.st, s.cell.o, s.cell.path, s.typ, at)
					}
				}
				// the left value holds at the head, the right one at the back edge
				j := newJoiner(e, pre, head0.fork(), nil, nil)
				j.sb = b.st
				if valEq(s.cur, bv) {
					continue
				}
				nv := j.val(s.loc, s.typ, s.cur, bv)
				if valEq(nv, s.cur) {
					continue
				}
				s.cur = nv
				changed = true
				newSyms = true
			}
		}
		if newSyms {
			for _, s := range slots {
				collectHead(s.cur, s.ent, genned, gennedN, e, entry)
			}
		}
		if newSyms && !e.candOff {
			e.seedCands(slots, genned, gennedN, entry, addCand)
		}
		if !e.candOff {
			nb := len(cands)
			for _, k := range sortedAtoms(atoms) {
				a := atoms[k]
				rel := false
				for _, t := range a.T {
					if _, ok := genned[t.S]; ok {
						rel = true
					}
				}
				if rel {
					addCand(a, 0, false)
					addCand(a.AddK(1), 0, false)
				}
			}
			if len(cands) > nb {
				changed = true
			}
		}
		if changed {
			continue
		}
		// check the candidates on the back edges
		incoming := map[string][]map[Sym]int{}
		outside := map[string][]map[Sym]int{} // not from a head of the same ghost state
		if e.hook != nil {
			m := map[Sym]int{}
			for s, b := range gennedN {
				m[s] = entry.truth(b)
			}
			incoming[entryGhost] = append(incoming[entryGhost], m)
			outside[entryGhost] = append(outside[entryGhost], m)
		}
		finalBacks, finalAtoms = nil, atoms
		for bi, b := range backs {
			m := map[Sym]Lin{}
			mb := map[Sym]BoolV{}
			for _, s := range slots {
				var bv Val
				if s.phi != nil {
					bv = e.get(b.st, s.phi)
				} else {
					bv = b.st.heap[s.cell]
					if bv == nil {
						bv = e.load(b.st, s.cell.o, s.cell.path, s.typ, at)
					}
				}
				matchHead(s.cur, bv, genned, gennedN, m, mb, e, b.st)
			}
			if e.hook != nil {
				t := map[Sym]int{}
				for s := range gennedN {
					t[s] = -1
					if nb, ok := mb[s]; ok {
						t[s] = b.st.truth(nb)
					}
				}
				k := b.st.ghostKey()
				incoming[k] = append(incoming[k], t)
				if backG[bi] != k {
					outside[k] = append(outside[k], t)
				}
			}
			finalBacks = append(finalBacks, backMap{b, m, mb})
			pv := newProver(b.st)
			for _, c := range cands {
				if c.dead {
					continue
				}
				if l, ok := substBack(c.l, genned, m); ok {
					if c.nilS == 0 {
						if pv.proves(l) {
							continue
						}
					} else if nb, ok := mb[c.nilS]; ok {
						switch t := b.st.truth(nb); {
						case t >= 0 && (t == 1) != c.nv:
							continue
						case t >= 0:
							if pv.proves(l) {
								continue
							}
						default:
							f := b.st.fork()
							if g := f.assume(nb, c.nv); g == nil || g.proves(l) {
								continue
							}
						}
					}
				}
				c.dead = true
				changed = true
			}
		}
		for g, ms := range incoming {
			f := gfacts[g]
			if f == nil {
				f = map[Sym]bool{}
				gfacts[g] = f
				// assumed for what comes from outside, verified in the next pass
				if ms = outside[g]; len(ms) == 0 {
					continue
				}
				for s, v := range ms[0] {
					if v >= 0 {
						f[s] = v == 1
						changed = true
					}
				}
			}
			for s, v := range f {
				for _, m := range ms {
					if t, ok := m[s]; !ok || t < 0 || (t == 1) != v {
						delete(f, s)
						changed = true
						break
					}
				}
			}
		}
		if changed {
			var keep []*cand
			for _, c := range cands {
				if !c.dead {
					keep = append(keep, c)
				}
			}
			cands = keep
			continue
		}
		break
	}
	if e.termination[l.head] && e.dry == 0 {
		ok, why := e.ranked(l, finalBacks, genned, gennedN, finalAtoms)
		e.settle(entry, loopPos(l), "termination", fmt.Sprintf("loop %d", l.head.Index), "the loop may go round for ever: "+why, ok, Lin{})
	}
	// recording pass
	var exits []edgeState
	var rets []retState
	for _, g := range ghosts {
		h := mkHead(g)
		ex, _, rs := e.runRegion(fi, l, l.head, []*State{h})
		exits = append(exits, ex...)
		rets = append(rets, rs...)
	}
	return exits, rets
}

// runUnrolled executes the iterations one after the other.
func (e *Eng) runUnrolled(fi *fnInfo, l *loopInfo, entry *State, n int) (exits []edgeState, rets []retState) {
	cur := []*State{entry}
	for ; n > 0 && len(cur) > 0; n-- {
		ex, backs, rs := e.runRegion(fi, l, l.head, cur)
		exits = append(exits, ex...)
		rets = append(rets, rs...)
		cur = nil
		for _, b := range backs {
			if b.st.dead {
				continue
			}
			e.phis(b.st, b.from, b.to)
			cur = append(cur, b.st)
		}
	}
	for _, s := range cur {
		e.unrolled(s)
	}
	return
}

// runCut handles the endless loop of a goroutine: every iteration starts from
// the class invariants and has to re-establish them.
func (e *Eng) runCut(fi *fnInfo, l *loopInfo, entry *State) ([]edgeState, []retState) {
	if e.rootExit != nil {
		e.rootExit(entry)
	}
	h := newState()
	h.fr = entry.fr
	h.ghost, h.ghostO = entry.ghost, false
	h.trace = entry.trace
	for k := range entry.heap {
		if k.path == "#alloc" {
			h.setCell(k, boolK(true))
			h.setCell(cellKey{k.o, "#dirty"}, boolK(true))
		}
	}
	// variables that never change again
	for f := entry.fr; f != nil; f = f.parent {
		for i, v := range f.fi.vals {
			p, ok := f.env[i].(PtrV)
			if !ok || p.Obj == nil || p.Path != "" {
				continue
			}
			keep := false
			switch v := v.(type) {
			case *ssa.Alloc:
				keep = constCell(v)
			case *ssa.FreeVar:
				keep = capturedConst(v)
			}
			if keep {
				if c, ok := entry.heap[cellKey{p.Obj, ""}]; ok {
					h.setCell(cellKey{p.Obj, ""}, c)
				}
			}
		}
	}
	run := func(h *State) ([]edgeState, []edgeState, []retState) {
		for _, in := range l.head.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				e.set(h, p, e.mat(h, p.Type(), e.base(h, p, "cut")))
			}
		}
		return e.runRegion(fi, l, l.head, []*State{h})
	}
	ex, backs, rets := run(h)
	for _, b := range backs {
		if e.rootExit != nil && !b.st.dead {
			e.rootExit(b.st)
		}
	}
	return ex, rets
}

func sortedCells(m map[cellKey]Val) []cellKey {
	ks := make([]cellKey, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].o.Name != ks[j].o.Name {
			return ks[i].o.Name < ks[j].o.Name
		}
		return ks[i].path < ks[j].path
	})
	return ks
}

func sortedAtoms(m map[string]Lin) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// slotFacts adds the facts every value of its type satisfies.
func (e *Eng) slotFacts(h *State, v Val) {
	switch v := v.(type) {
	case SliceV:
		h.addCon(v.Len)
		if v.Cap != nil {
			h.addCon(v.Cap.Sub(v.Len))
		}
		if v.Nil != 0 {
			h.addImpl(&impl{g: []guard{{v.Nil, true}}, lins: []Lin{v.Len.Neg()}})
		}
	case StrV:
		if v.Lit == nil {
			h.addCon(v.Len)
		}
	case StructV:
		for _, f := range v.F {
			e.slotFacts(h, f)
		}
	}
}

func isSymLin(l Lin) (Sym, bool) {
	if len(l.T) == 1 && l.T[0].C == 1 && l.K == 0 {
		return l.T[0].S, true
	}
	return 0, false
}

// collectHead maps the symbols introduced at the head to their entry values.
func collectHead(cur, ent Val, g map[Sym]Lin, gn map[Sym]BoolV, e *Eng, entry *State) {
	lin := func(c, x Lin) {
		if s, ok := isSymLin(c); ok && !c.Eq(x) {
			g[s] = x
		}
	}
	nl := func(n Sym, c, x Val) {
		if n == 0 {
			return
		}
		b := e.nilTest(entry, x, nil)
		if b.Op == 's' && b.S == n && !b.Neg {
			return
		}
		gn[n] = b
	}
	switch c := cur.(type) {
	case IntV:
		if x, ok := ent.(IntV); ok {
			lin(c.L, x.L)
		}
	case SliceV:
		if x, ok := ent.(SliceV); ok {
			lin(c.Len, x.Len)
			lin(c.Off, x.Off)
			if c.Cap != nil && x.Cap != nil {
				lin(*c.Cap, *x.Cap)
			}
			nl(c.Nil, c, x)
		}
	case StrV:
		if x, ok := ent.(StrV); ok {
			lin(c.Len, e.lenOf(entry, x, nil))
		}
	case PtrV:
		if x, ok := ent.(PtrV); ok {
			nl(c.Nil, c, x)
		}
	case IfaceV:
		if x, ok := ent.(IfaceV); ok {
			nl(c.Nil, c, x)
			if c.V != nil && x.V != nil {
				collectHead(c.V, x.V, g, gn, e, entry)
			}
		}
	case FuncV:
		if x, ok := ent.(FuncV); ok {
			nl(c.Nil, c, x)
		}
	case BoolV:
		if x, ok := ent.(BoolV); ok && c.Op == 's' && !c.Neg && !valEq(c, x) {
			gn[c.S] = x
		}
	case StructV:
		if x, ok := ent.(StructV); ok {
			for i := range c.F {
				if i < len(x.F) {
					collectHead(c.F[i], x.F[i], g, gn, e, entry)
				}
			}
		}
	case TupleV:
		if x, ok := ent.(TupleV); ok {
			for i := range c {
				if i < len(x) {
					collectHead(c[i], x[i], g, gn, e, entry)
				}
			}
		}
	}
}

func matchHead(cur, back Val, g map[Sym]Lin, gn map[Sym]BoolV, m map[Sym]Lin, mb map[Sym]BoolV, e *Eng, st *State) {
	lin := func(c, x Lin) {
		if s, ok := isSymLin(c); ok {
			if _, h := g[s]; h {
				m[s] = x
			}
		}
	}
	nl := func(n Sym, x Val) {
		if n == 0 {
			return
		}
		if _, h := gn[n]; h {
			mb[n] = e.nilTest(st, x, nil)
		}
	}
	switch c := cur.(type) {
	case IntV:
		if x, ok := back.(IntV); ok {
			lin(c.L, x.L)
		}
	case SliceV:
		if x, ok := back.(SliceV); ok {
			lin(c.Len, x.Len)
			lin(c.Off, x.Off)
			if c.Cap != nil && x.Cap != nil {
				lin(*c.Cap, *x.Cap)
			}
			nl(c.Nil, x)
		}
	case StrV:
		if x, ok := back.(StrV); ok {
			lin(c.Len, e.lenOf(st, x, nil))
		}
	case PtrV:
		if x, ok := back.(PtrV); ok {
			nl(c.Nil, x)
		}
	case IfaceV:
		if x, ok := back.(IfaceV); ok {
			nl(c.Nil, x)
			if c.V != nil && x.V != nil {
				matchHead(c.V, x.V, g, gn, m, mb, e, st)
			}
		}
	case FuncV:
		if x, ok := back.(FuncV); ok {
			nl(c.Nil, x)
		}
	case BoolV:
		if x, ok := back.(BoolV); ok && c.Op == 's' && !c.Neg {
			if _, h := gn[c.S]; h {
				mb[c.S] = x
			}
		}
	case StructV:
		if x, ok := back.(StructV); ok {
			for i := range c.F {
				if i < len(x.F) {
					matchHead(c.F[i], x.F[i], g, gn, m, mb, e, st)
				}
			}
		}
	case TupleV:
		if x, ok := back.(TupleV); ok {
			for i := range c {
				if i < len(x) {
					matchHead(c[i], x[i], g, gn, m, mb, e, st)
				}
			}
		}
	}
}

func substEntry(l Lin, g map[Sym]Lin) Lin {
	r := Lin{K: l.K}
	for _, t := range l.T {
		if x, ok := g[t.S]; ok {
			r = r.addMul(x, t.C)
		} else {
			r = r.addMul(linS(t.S), t.C)
		}
	}
	return r
}

func substBack(l Lin, g map[Sym]Lin, m map[Sym]Lin) (Lin, bool) {
	r := Lin{K: l.K}
	for _, t := range l.T {
		if _, ok := g[t.S]; ok {
			x, ok := m[t.S]
			if !ok {
				return r, false
			}
			r = r.addMul(x, t.C)
		} else {
			r = r.addMul(linS(t.S), t.C)
		}
	}
	return r, true
}

// seedCands proposes simple invariants for the head symbols.
func (e *Eng) seedCands(slots []*slot, g map[Sym]Lin, gn map[Sym]BoolV, entry *State, add func(Lin, Sym, bool)) {
	var ss []Sym
	for s := range g {
		ss = append(ss, s)
	}
	sortSyms(ss)
	for i, s := range ss {
		x, e0 := linS(s), g[s]
		add(x.Sub(e0), 0, false)
		add(e0.Sub(x), 0, false)
		add(x, 0, false)
		add(x.AddK(-1), 0, false)
		add(x.AddK(1), 0, false)
		for _, m := range e.extraCands {
			for k := int64(-2); k <= 2; k++ {
				add(x.Sub(m).AddK(k), 0, false)
				add(m.Sub(x).AddK(k), 0, false)
			}
		}
		for _, t := range ss[i+1:] {
			y, f0 := linS(t), g[t]
			d := x.Sub(y).Sub(e0.Sub(f0))
			add(d, 0, false)
			add(d.Neg(), 0, false)
			p := x.Add(y).Sub(e0.Add(f0))
			add(p, 0, false)
			add(p.Neg(), 0, false)
			add(x.Sub(y), 0, false)
			add(y.Sub(x), 0, false)
			if e.extraCands != nil {
				add(x.Sub(y).AddK(1), 0, false)
				add(y.Sub(x).AddK(1), 0, false)
			}
		}
	}
	if e.extraCands != nil {
		seen := map[string]bool{}
		for _, v := range entry.fr.env {
			sv, ok := v.(SliceV)
			if !ok || sv.Off.IsConst() || seen[sv.Off.Key()] || len(seen) > 6 {
				continue
			}
			seen[sv.Off.Key()] = true
			for _, s := range ss {
				for _, m := range e.extraCands {
					d := linS(s).Add(sv.Off).Sub(m)
					for k := int64(-2); k <= 2; k++ {
						add(d.AddK(k), 0, false)
						add(d.Neg().AddK(k), 0, false)
					}
				}
			}
		}
	}
	if e.wideCands {
		seen := map[string]bool{}
		for _, v := range entry.fr.env {
			sv, ok := v.(SliceV)
			if !ok || sv.Len.IsConst() || len(seen) > 6 || seen[sv.Len.Key()] {
				continue
			}
			seen[sv.Len.Key()] = true
			for _, s := range ss {
				add(sv.Len.Sub(linS(s)), 0, false)
			}
		}
	}
	var ns []Sym
	for s := range gn {
		ns = append(ns, s)
	}
	sortSyms(ns)
	for _, n := range ns {
		for _, s := range ss {
			if !g[s].IsConst() {
				continue
			}
			for _, v := range []bool{true, false} {
				d := linS(s).Sub(g[s])
				add(d, n, v)
				add(d.Neg(), n, v)
				add(d.AddK(-1), n, v)
			}
		}
	}
}

func hasJoined(j *joiner, s Sym) bool { _, ok := j.ints[s]; return ok }
