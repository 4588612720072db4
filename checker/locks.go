package main

// Lockset analysis: an interprocedural, context-sensitive dataflow over SSA.
// A context is (function, set of locks held on entry, function values bound to
// its parameters and captured variables).  It decides C15 and C16.

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fval struct {
	key   string
	fn    *ssa.Function // nil: the nil function
	binds []*fval       // captured function values (nil entries: not a known function)
}

type lctx struct {
	fn    *ssa.Function
	entry string
	env   map[ssa.Value]*fval
	key   string
}

type lstate struct {
	locks  []string // sorted
	defers []*ssa.Defer
	facts  map[ssa.Value]bool
}

func (s lstate) clone() lstate {
	n := lstate{locks: append([]string{}, s.locks...), defers: append([]*ssa.Defer{}, s.defers...)}
	n.facts = make(map[ssa.Value]bool, len(s.facts))
	for k, v := range s.facts {
		n.facts[k] = v
	}
	return n
}
func (s lstate) key(ids map[ssa.Value]int) string {
	var sb strings.Builder
	sb.WriteString(strings.Join(s.locks, ","))
	sb.WriteByte('|')
	for _, d := range s.defers {
		sb.WriteString(d.Parent().Name())
		sb.WriteString(d.String())
		sb.WriteByte(';')
	}
	var fs []string
	for k, v := range s.facts {
		t := "f"
		if v {
			t = "t"
		}
		fs = append(fs, k.Name()+t)
	}
	sort.Strings(fs)
	sb.WriteString(strings.Join(fs, ","))
	return sb.String()
}
func (s lstate) holds(l string) bool {
	for _, x := range s.locks {
		if x == l {
			return true
		}
	}
	return false
}

type guardedUse struct {
	field string // Type.field
	lock  string
	alias bool // memory reached through the field, not the field itself
}

type lockAnalysis struct {
	p        *Program
	r        *Report
	memo     map[string][]string
	active   map[string]bool
	guards   map[string]string // Type.field -> lock
	atomics  map[string]bool
	cbFields map[string]bool // user callbacks that may re-enter
	cbLocks  map[string]bool
	edges    map[[2]string]string
	taint    map[*ssa.Function]map[ssa.Value]guardedUse
	chain    []string
	wantC15  bool
	wantC16  bool
	lockOps  int
	accesses map[string]int
	contexts int
	fnsSeen  map[*ssa.Function]bool
	roots    []*ssa.Function
	cbCalls  int
}

func lockName(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		o, f := fieldOf(v.X.Type(), v.Field)
		// an anonymous struct inside a named one: use the path
		if o == "" || strings.HasPrefix(o, "struct") {
			return lockName(v.X) + "." + f
		}
		return o + "." + f
	case *ssa.Global:
		return "var " + v.Name()
	case *ssa.Alloc:
		return "local " + fnName(v.Parent()) + "." + v.Comment
	case *ssa.FreeVar:
		return "captured " + v.Name()
	case *ssa.UnOp:
		return lockName(v.X)
	case *ssa.Parameter:
		return "param " + fnName(v.Parent()) + "." + v.Name()
	case *ssa.Phi:
		return "phi"
	}
	return "?"
}

// lockOp recognises lock and unlock calls: +1 acquire, -1 release.
func lockOp(c *ssa.CallCommon) (string, int) {
	f := c.StaticCallee()
	if f == nil {
		if c.IsInvoke() && typeName(c.Value.Type()) == "sync.Locker" {
			if c.Method.Name() == "Lock" {
				return lockName(c.Value), 1
			}
			return lockName(c.Value), -1
		}
		return "", 0
	}
	switch extName(f) {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		return lockName(c.Args[0]), 1
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		return lockName(c.Args[0]), -1
	}
	return "", 0
}

func internFval(fn *ssa.Function, binds []*fval) *fval {
	k := "nil"
	if fn != nil {
		k = fnName(fn) + "@" + fn.String()
		for _, b := range binds {
			if b != nil {
				k += "<" + b.key + ">"
			} else {
				k += "<>"
			}
		}
	}
	return &fval{key: k, fn: fn, binds: binds}
}

// resolve finds the function values v may hold in ctx; ok is false if unknown.
func (a *lockAnalysis) resolve(ctx *lctx, v ssa.Value, depth int) ([]*fval, bool) {
	if depth > 8 {
		return nil, false
	}
	switch v := v.(type) {
	case *ssa.Function:
		return []*fval{internFval(v, nil)}, true
	case *ssa.MakeClosure:
		fn := v.Fn.(*ssa.Function)
		binds := make([]*fval, len(v.Bindings))
		for i, b := range v.Bindings {
			if _, isFn := deref(b.Type()).Underlying().(*types.Signature); isFn {
				if fs, ok := a.resolve(ctx, b, depth+1); ok && len(fs) == 1 {
					binds[i] = fs[0]
				}
			}
		}
		return []*fval{internFval(fn, binds)}, true
	case *ssa.Const:
		if v.Value == nil {
			return []*fval{internFval(nil, nil)}, true
		}
	case *ssa.Parameter, *ssa.FreeVar:
		if f, ok := ctx.env[v]; ok {
			return []*fval{f}, true
		}
	case *ssa.ChangeType:
		return a.resolve(ctx, v.X, depth+1)
	case *ssa.Alloc:
		// a captured variable: single store
		var val ssa.Value
		for _, ref := range *v.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == v {
				if val != nil {
					return nil, false
				}
				val = st.Val
			}
		}
		if val != nil {
			return a.resolve(ctx, val, depth+1)
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			switch v.X.(type) {
			case *ssa.FreeVar, *ssa.Alloc:
				return a.resolve(ctx, v.X, depth+1)
			}
		}
	case *ssa.Phi:
		var out []*fval
		for _, e := range v.Edges {
			fs, ok := a.resolve(ctx, e, depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, fs...)
		}
		return out, true
	}
	return nil, false
}

// callbackName names the user-supplied function behind a dynamic call.
func callbackName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return typeName(c.Value.Type()) + "." + c.Method.Name()
	}
	return funcSource(c.Value, 0)
}

func funcSource(v ssa.Value, d int) string {
	if d > 6 {
		return ""
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			o, f := fieldOf(fa.X.Type(), fa.Field)
			return o + "." + f
		}
		return funcSource(v.X, d+1)
	case *ssa.Field:
		o, f := fieldOf(v.X.Type(), v.Field)
		return o + "." + f
	case *ssa.FieldAddr:
		o, f := fieldOf(v.X.Type(), v.Field)
		return o + "." + f
	case *ssa.Global:
		return "var " + v.Name()
	case *ssa.Parameter:
		return "param " + v.Name() + " of " + fnName(v.Parent())
	case *ssa.FreeVar:
		return "captured " + v.Name()
	case *ssa.Phi:
		return funcSource(v.Edges[0], d+1)
	}
	return v.Name()
}

func (a *lockAnalysis) run(roots []*ssa.Function) {
	a.roots = roots
	for _, f := range roots {
		a.chain = []string{"entry " + fnName(f)}
		a.call(f, nil, nil)
	}
}

func lkey(l []string) string { return strings.Join(l, ",") }

// call analyses fn with the given locks; returns the lock sets on exit.
func (a *lockAnalysis) call(fn *ssa.Function, locks []string, env map[ssa.Value]*fval) [][]string {
	ctx := &lctx{fn: fn, entry: lkey(locks), env: env}
	var ek []string
	for v, f := range env {
		ek = append(ek, v.Name()+"="+f.key)
	}
	sort.Strings(ek)
	ctx.key = fn.String() + "#" + ctx.entry + "#" + strings.Join(ek, ";")
	if ex, ok := a.memo[ctx.key]; ok {
		var out [][]string
		for _, e := range ex {
			if e == "" {
				out = append(out, nil)
			} else {
				out = append(out, strings.Split(e, ","))
			}
		}
		return out
	}
	if a.active[ctx.key] || len(a.chain) > 60 {
		return [][]string{locks}
	}
	a.active[ctx.key] = true
	a.contexts++
	a.fnsSeen[fn] = true
	ex := a.body(ctx, locks)
	delete(a.active, ctx.key)
	a.memo[ctx.key] = ex
	var out [][]string
	for _, e := range ex {
		if e == "" {
			out = append(out, nil)
		} else {
			out = append(out, strings.Split(e, ","))
		}
	}
	return out
}

type lwork struct {
	b    *ssa.BasicBlock
	pred *ssa.BasicBlock
	s    lstate
}

func (a *lockAnalysis) body(ctx *lctx, locks []string) []string {
	fn := ctx.fn
	tainted := a.taintOf(fn)
	exits := map[string]bool{}
	seen := map[string]bool{}
	multi := multiIf(fn)
	work := []lwork{{fn.Blocks[0], nil, lstate{locks: append([]string{}, locks...), facts: map[ssa.Value]bool{}}}}
	n := 0
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		k := w.b.String() + "/" + w.s.key(nil)
		if w.pred != nil {
			k += "/" + w.pred.String()
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		if n++; n > 20000 {
			a.r.errf("lockset analysis of %s does not converge", fnName(fn))
			break
		}
		states := []lstate{w.s}
		for _, in := range w.b.Instrs {
			var next []lstate
			for _, s := range states {
				next = append(next, a.instr(ctx, in, s, tainted, exits, locks)...)
			}
			states = dedupStates(next)
			if len(states) == 0 {
				break
			}
		}
		last := w.b.Instrs[len(w.b.Instrs)-1]
		for _, s := range states {
			switch in := last.(type) {
			case *ssa.If:
				val, known := a.condKnown(ctx, in.Cond, s)
				for i, succ := range w.b.Succs {
					want := i == 0
					if known && val != want {
						continue
					}
					ns := s.clone()
					c, neg := stripNot(in.Cond)
					if multi[c] {
						ns.facts[c] = want != neg
					}
					work = append(work, lwork{succ, w.b, ns})
				}
			case *ssa.Jump:
				work = append(work, lwork{w.b.Succs[0], w.b, s})
			}
		}
	}
	var out []string
	for e := range exits {
		out = append(out, e)
	}
	sort.Strings(out)
	return out
}

func stripNot(v ssa.Value) (ssa.Value, bool) {
	neg := false
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			return v, neg
		}
		neg = !neg
		v = u.X
	}
}

// multiIf finds conditions tested by more than one branch.
func multiIf(fn *ssa.Function) map[ssa.Value]bool {
	cnt := map[ssa.Value]int{}
	for _, b := range fn.Blocks {
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			c, _ := stripNot(i.Cond)
			cnt[c]++
		}
	}
	m := map[ssa.Value]bool{}
	for c, n := range cnt {
		if n > 1 {
			m[c] = true
		}
	}
	return m
}

func (a *lockAnalysis) condKnown(ctx *lctx, c ssa.Value, s lstate) (bool, bool) {
	c, neg := stripNot(c)
	if v, ok := s.facts[c]; ok {
		return v != neg, true
	}
	if k, ok := c.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
		return constant.BoolVal(k.Value) != neg, true
	}
	if b, ok := c.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
		x, y := b.X, b.Y
		if k, ok := x.(*ssa.Const); ok && k.IsNil() {
			x, y = y, x
		}
		if k, ok := y.(*ssa.Const); ok && k.IsNil() {
			if _, isFn := x.Type().Underlying().(*types.Signature); isFn {
				if fs, ok := a.resolve(ctx, x, 0); ok && len(fs) == 1 {
					isNil := fs[0].fn == nil
					return (isNil == (b.Op == token.EQL)) != neg, true
				}
			}
		}
	}
	return false, false
}

func dedupStates(in []lstate) []lstate {
	if len(in) < 2 {
		return in
	}
	seen := map[string]bool{}
	var out []lstate
	for _, s := range in {
		k := s.key(nil)
		if !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	return out
}

func (a *lockAnalysis) report(rule, fn, construct string, at ssa.Instruction, msg string) {
	a.r.add(rule, fn, construct, a.p.instrPos(at), msg, append([]string{}, a.chain...))
}

func (a *lockAnalysis) instr(ctx *lctx, in ssa.Instruction, s lstate, tainted map[ssa.Value]guardedUse, exits map[string]bool, entry []string) []lstate {
	if v, ok := in.(ssa.Value); ok {
		if _, has := s.facts[v]; has {
			s = s.clone()
			delete(s.facts, v)
		}
	}
	if a.wantC16 && len(tainted) > 0 {
		a.checkUses(ctx, in, s, tainted)
	}
	switch in := in.(type) {
	case *ssa.Call:
		return a.doCall(ctx, in, in.Common(), s)
	case *ssa.Go:
		a.goCall(ctx, in)
	case *ssa.Defer:
		s = s.clone()
		for _, d := range s.defers {
			if d == in {
				return []lstate{s} // a defer in a loop: one is enough for locks
			}
		}
		s.defers = append(s.defers, in)
	case *ssa.RunDefers:
		states := []lstate{s}
		for {
			var next []lstate
			again := false
			for _, x := range states {
				if len(x.defers) == 0 {
					next = append(next, x)
					continue
				}
				again = true
				x = x.clone()
				d := x.defers[len(x.defers)-1]
				x.defers = x.defers[:len(x.defers)-1]
				next = append(next, a.doCall(ctx, d, d.Common(), x)...)
			}
			states = dedupStates(next)
			if !again {
				break
			}
		}
		return states
	case *ssa.Return:
		if a.wantC15 {
			a.r.Obligations++
			if len(ctx.env) >= 0 && !a.lockWrapper(ctx.fn) && lkey(s.locks) != lkey(entry) {
				for _, l := range s.locks {
					if !contains(entry, l) {
						a.report("lock-leak", fnName(ctx.fn), l, in, "returns with "+l+" still held")
					}
				}
				for _, l := range entry {
					if !s.holds(l) {
						a.report("lock-leak", fnName(ctx.fn), l, in, "returns without "+l+", which its caller holds")
					}
				}
			} else {
				a.r.Discharged++
			}
		}
		exits[lkey(s.locks)] = true
	}
	return []lstate{s}
}

// lockWrapper: a function without branches whose only purpose is to take or
// release locks for its caller; its callers are checked instead.
func (a *lockAnalysis) lockWrapper(fn *ssa.Function) bool {
	if fn.Synthetic != "" {
		return true
	}
	if fn.Object() != nil && fn.Object().Exported() && fn.Signature.Recv() != nil {
		n := strings.ToLower(fn.Name())
		return n == "lock" || n == "unlock"
	}
	// unexported helper, every caller of which is analysed in its own context
	if fn.Object() != nil && !fn.Object().Exported() {
		for _, r := range a.roots {
			if r == fn {
				return false
			}
		}
		return true
	}
	return false
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (a *lockAnalysis) goCall(ctx *lctx, g *ssa.Go) {
	save := a.chain
	c := g.Common()
	env := map[ssa.Value]*fval{}
	if f := c.StaticCallee(); f != nil && f.Blocks != nil && a.p.inModule(f) {
		a.bindArgs(ctx, f, c, env)
		a.chain = []string{"goroutine started at " + a.p.instrPos(g)}
		a.call(f, nil, env)
	} else if fs, ok := a.resolve(ctx, c.Value, 0); ok && !c.IsInvoke() {
		for _, f := range fs {
			if f.fn != nil && f.fn.Blocks != nil {
				a.chain = []string{"goroutine started at " + a.p.instrPos(g)}
				a.call(f.fn, nil, a.bindFval(f, nil))
			}
		}
	}
	a.chain = save
}

func (a *lockAnalysis) bindArgs(ctx *lctx, f *ssa.Function, c *ssa.CallCommon, env map[ssa.Value]*fval) {
	for i, prm := range f.Params {
		if i >= len(c.Args) {
			break
		}
		if _, ok := prm.Type().Underlying().(*types.Signature); ok {
			if fs, ok := a.resolve(ctx, c.Args[i], 0); ok && len(fs) == 1 {
				env[prm] = fs[0]
			}
		}
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		if fs, ok := a.resolve(ctx, mc, 0); ok {
			a.bindFval(fs[0], env)
		}
	}
}

func (a *lockAnalysis) bindFval(f *fval, env map[ssa.Value]*fval) map[ssa.Value]*fval {
	if env == nil {
		env = map[ssa.Value]*fval{}
	}
	for i, b := range f.binds {
		if b != nil && i < len(f.fn.FreeVars) {
			env[f.fn.FreeVars[i]] = b
		}
	}
	return env
}

func (a *lockAnalysis) doCall(ctx *lctx, in ssa.Instruction, c *ssa.CallCommon, s lstate) []lstate {
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return []lstate{s}
	}
	if l, op := lockOp(c); op != 0 {
		s = s.clone()
		a.lockOps++
		if op > 0 {
			if a.wantC15 {
				a.r.Obligations++
				if s.holds(l) {
					a.report("self-deadlock", fnName(ctx.fn), l, in, "locks "+l+" which this goroutine already holds")
				} else {
					a.r.Discharged++
				}
				for _, h := range s.locks {
					e := [2]string{h, l}
					if _, ok := a.edges[e]; !ok {
						a.edges[e] = a.p.instrPos(in) + " in " + fnName(ctx.fn) + " (" + strings.Join(a.chain, " > ") + ")"
					}
				}
			}
			if !s.holds(l) {
				s.locks = append(s.locks, l)
				sort.Strings(s.locks)
			}
		} else {
			if a.wantC15 {
				a.r.Obligations++
				if !s.holds(l) {
					a.report("unlock-unheld", fnName(ctx.fn), l, in, "unlocks "+l+" which is not held here")
				} else {
					a.r.Discharged++
				}
			}
			var n []string
			for _, h := range s.locks {
				if h != l {
					n = append(n, h)
				}
			}
			s.locks = n
		}
		return []lstate{s}
	}
	var targets []*fval
	known := false
	if f := c.StaticCallee(); f != nil {
		if f.Blocks != nil && a.p.inModule(f) {
			env := map[ssa.Value]*fval{}
			a.bindArgs(ctx, f, c, env)
			return a.enter(ctx, in, f, s, env)
		}
		// external: function arguments run synchronously
		if extName(f) == "time.AfterFunc" {
			return []lstate{s}
		}
		out := []lstate{s}
		for _, arg := range c.Args {
			if _, ok := arg.Type().Underlying().(*types.Signature); !ok {
				continue
			}
			if fs, ok := a.resolve(ctx, arg, 0); ok {
				for _, fv := range fs {
					if fv.fn != nil && fv.fn.Blocks != nil && a.p.inModule(fv.fn) {
						a.enter(ctx, in, fv.fn, s, a.bindFval(fv, nil))
					}
				}
			}
		}
		return out
	}
	if !c.IsInvoke() {
		targets, known = a.resolve(ctx, c.Value, 0)
	}
	name := callbackName(c)
	if !known {
		// user supplied code
		a.cbCalls++
		if a.wantC15 && a.cbFields[name] {
			a.r.Obligations++
			ok := true
			for l := range a.cbLocks {
				if s.holds(l) {
					ok = false
					a.report("callback-under-lock", fnName(ctx.fn), name+" under "+l, in, "calls the user callback "+name+" while holding "+l)
				}
			}
			if ok {
				a.r.Discharged++
			}
		}
		for _, f := range a.p.calleesOf(in.(ssa.CallInstruction)) {
			targets = append(targets, internFval(f, nil))
		}
	}
	var out []lstate
	for _, t := range targets {
		if t.fn == nil || t.fn.Blocks == nil || !a.p.inModule(t.fn) {
			out = append(out, s)
			continue
		}
		env := a.bindFval(t, nil)
		out = append(out, a.enter(ctx, in, t.fn, s, env)...)
	}
	if len(out) == 0 || !known {
		out = append(out, s)
	}
	return dedupStates(out)
}

func (a *lockAnalysis) enter(ctx *lctx, in ssa.Instruction, f *ssa.Function, s lstate, env map[ssa.Value]*fval) []lstate {
	save := a.chain
	a.chain = append(a.chain[:len(a.chain):len(a.chain)], fnName(f)+" called at "+a.p.instrPos(in)+" holding ["+lkey(s.locks)+"]")
	ex := a.call(f, s.locks, env)
	a.chain = save
	var out []lstate
	for _, e := range ex {
		n := s.clone()
		n.locks = append([]string{}, e...)
		out = append(out, n)
	}
	return out
}

// taintOf finds the values of fn that are guarded fields or alias their memory.
func (a *lockAnalysis) taintOf(fn *ssa.Function) map[ssa.Value]guardedUse {
	if t, ok := a.taint[fn]; ok {
		return t
	}
	t := map[ssa.Value]guardedUse{}
	for changed := true; changed; {
		changed = false
		set := func(v ssa.Value, g guardedUse) {
			if _, ok := t[v]; !ok {
				t[v] = g
				changed = true
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					o, f := fieldOf(in.X.Type(), in.Field)
					if lock, ok := a.guards[o+"."+f]; ok && !freshBase(in.X) {
						set(in, guardedUse{o + "." + f, lock, false})
					} else if g, ok := t[in.X]; ok {
						set(in, g)
					}
				case *ssa.IndexAddr:
					if g, ok := t[in.X]; ok {
						g.alias = true
						set(in, g)
					}
				case *ssa.UnOp:
					if in.Op == token.MUL {
						if g, ok := t[in.X]; ok && !g.alias {
							if _, isS := in.Type().Underlying().(*types.Slice); isS {
								g.alias = true
								set(in, g)
							}
						}
					}
				case *ssa.Slice:
					if g, ok := t[in.X]; ok {
						g.alias = true
						set(in, g)
					}
				case *ssa.ChangeType:
					if g, ok := t[in.X]; ok {
						set(in, g)
					}
				case *ssa.Phi:
					for _, e := range in.Edges {
						if g, ok := t[e]; ok {
							set(in, g)
						}
					}
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						if g, ok := t[in.Call.Args[0]]; ok {
							g.alias = true
							set(in, g)
						}
					}
				}
			}
		}
	}
	a.taint[fn] = t
	return t
}

// freshBase: the object was allocated in this function (under construction).
func freshBase(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return freshBase(v.X)
	}
	return false
}

func (a *lockAnalysis) checkUses(ctx *lctx, in ssa.Instruction, s lstate, t map[ssa.Value]guardedUse) {
	check := func(v ssa.Value, what string) {
		g, ok := t[v]
		if !ok {
			return
		}
		a.r.Obligations++
		a.accesses[g.field]++
		if s.holds(g.lock) {
			a.r.Discharged++
			return
		}
		a.report("unlocked-access", fnName(ctx.fn), g.field, in, what+" "+g.field+" without holding "+g.lock)
	}
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op == token.MUL {
			check(in.X, "reads")
		}
	case *ssa.Store:
		check(in.Addr, "writes")
	case *ssa.Return:
		for _, r := range in.Results {
			if g, ok := t[r]; ok && g.alias {
				a.r.Obligations++
				if s.holds(g.lock) {
					a.r.Discharged++
				} else {
					a.report("unlocked-access", fnName(ctx.fn), g.field+" returned", in, "returns memory of "+g.field+" after releasing "+g.lock)
				}
			}
		}
	case *ssa.Call:
		if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "len", "cap":
				return
			}
		}
		if _, op := lockOp(&in.Call); op != 0 {
			return
		}
		if in.Call.IsInvoke() && in.Call.Method.Name() == "Write" {
			check(in.Call.Value, "writes through")
		}
		for _, arg := range in.Call.Args {
			check(arg, "passes on")
		}
	case *ssa.Range:
		check(in.X, "ranges over")
	case *ssa.Convert:
		check(in.X, "reads")
	}
}

func (p *Program) lockRoots() []*ssa.Function {
	called := map[*ssa.Function]bool{}
	cg := p.callGraph()
	for _, n := range cg.Nodes {
		for _, e := range n.Out {
			if e.Caller.Func != e.Callee.Func {
				called[e.Callee.Func] = true
			}
		}
	}
	embedded := map[string]bool{}
	for _, nm := range p.Main.Pkg.Scope().Names() {
		tn, ok := p.Main.Pkg.Scope().Lookup(nm).(*types.TypeName)
		if !ok || !tn.Exported() {
			continue
		}
		if st, ok := tn.Type().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Embedded() {
					embedded[typeName(st.Field(i).Type())] = true
				}
			}
		}
	}
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if !isSource(f) {
			continue
		}
		root := !called[f]
		if f.Object() != nil && f.Object().Exported() {
			if recv := f.Signature.Recv(); recv != nil {
				n := namedOf(recv.Type())
				if n != nil && (n.Obj().Exported() || embedded[n.Obj().Name()]) {
					root = true
				}
			} else {
				root = true
			}
		}
		if root {
			out = append(out, f)
		}
	}
	return out
}

func newLockAnalysis(p *Program, r *Report) *lockAnalysis {
	return &lockAnalysis{p: p, r: r, memo: map[string][]string{}, active: map[string]bool{}, edges: map[[2]string]string{},
		taint: map[*ssa.Function]map[ssa.Value]guardedUse{}, accesses: map[string]int{}, fnsSeen: map[*ssa.Function]bool{}}
}

var lockOSes = []string{"linux", "windows", "darwin", "solaris"}

func init() {
	checks["C15"] = func(r *Report) {
		r.Rules = []string{
			"self-deadlock: no path acquires a lock its goroutine already holds",
			"lock-leak: every return of a function leaves the set of held locks as its callers expect it",
			"unlock-unheld: no path releases a lock that is not held",
			"lock-order: the graph of (held lock, acquired lock) pairs has no cycle",
			"callback-under-lock: Listener, AutoCompleter, segment/dynamic completion functions and FuncFilterInputRune are never called with the edit buffer or operation lock held",
		}
		r.Assumes = []string{"locks are identified by the type and field that hold them, so two instances of one type count as one lock", "a user-supplied stream does not call back into the library"}
		for _, os := range oses(r) {
			p := load(r, os)
			a := newLockAnalysis(p, r)
			a.wantC15 = true
			a.cbFields = map[string]bool{"Listener.OnChange": true, "AutoCompleter.Do": true, "Config.FuncFilterInputRune": true,
				"SegmentCompleter.DoSegment": true, "PrefixCompleter.Callback": true, "DumpListener.f": true, "dumpSegmentCompleter.f": true}
			a.cbLocks = map[string]bool{"RuneBuffer.Mutex": true, "Operation.m": true}
			a.run(p.lockRoots())
			cyc := lockCycles(a.edges)
			r.Obligations += len(a.edges)
			r.Discharged += len(a.edges)
			for _, c := range cyc {
				r.Discharged--
				r.add("lock-order", "", strings.Join(c, " -> "), "", "locks are taken in opposite orders: "+strings.Join(c, " -> "), edgeTrace(a.edges, c))
			}
			if r.Counts["functions in lock contexts"] < len(a.fnsSeen) {
				r.Counts["functions in lock contexts"] = len(a.fnsSeen)
			}
			r.count("call contexts", a.contexts)
			r.count("lock and unlock operations", a.lockOps)
			r.count("callback call sites", a.cbCalls)
			if os == "linux" {
				for e, w := range a.edges {
					r.sample("lock order %s before %s at %s", e[0], e[1], w)
				}
				sort.Strings(r.Samples)
			}
		}
		r.floor("lock and unlock operations", 60)
		r.floor("callback call sites", 5)
	}
	checks["C16"] = func(r *Report) {
		r.Rules = []string{
			"unlocked-access: fields of the edit buffer, pre-filled input, remote receive buffer and callback, and the history file descriptor are read, written or passed on only with their lock held; slices loaded from them are not used after the lock is released",
			"remote-write: RemoteCli writes to its connection only with dataM held",
			"mixed-atomic: a variable accessed through sync/atomic anywhere is accessed through it everywhere outside its constructor",
		}
		r.Assumes = []string{"locks are identified by the type and field that hold them", "an object allocated in the accessing function is not shared yet"}
		for _, os := range oses(r) {
			p := load(r, os)
			a := newLockAnalysis(p, r)
			a.wantC16 = true
			a.guards = map[string]string{}
			for _, f := range []string{"buf", "idx", "prompt", "width", "lastKill", "hadClean", "interactive", "cfg", "bck", "offset"} {
				a.guards["RuneBuffer."+f] = "RuneBuffer.Mutex"
			}
			for _, f := range []string{"buf", "bufErr"} {
				a.guards["FillableStdin."+f] = "FillableStdin.Mutex"
			}
			a.guards["RemoteSvr.dataBuf"] = "RemoteSvr.dataBufM"
			a.guards["RemoteSvr.funcWidthChan"] = "RemoteSvr.funcM"
			a.guards["opHistory.fd"] = "opHistory.fdLock"
			checkFields(p, r, a.guards)
			a.run(p.lockRoots())
			remoteWrites(p, r, a)
			mixedAtomic(p, r)
			r.count("call contexts", a.contexts)
			for f, n := range a.accesses {
				r.count("accesses to "+f, n)
			}
		}
		for _, f := range []string{"RuneBuffer.buf", "RuneBuffer.idx", "RuneBuffer.prompt", "RuneBuffer.width", "RuneBuffer.lastKill", "FillableStdin.buf", "RemoteSvr.dataBuf", "opHistory.fd"} {
			r.floor("accesses to "+f, 2)
		}
		r.floor("atomic variables", 4)
		r.floor("remote client write sites", 1)
	}
}

func oses(r *Report) []string {
	if r.Tier == "thorough" {
		return lockOSes
	}
	return []string{"linux", "windows"}
}

func checkFields(p *Program, r *Report, guards map[string]string) {
	for k := range guards {
		i := strings.Index(k, ".")
		o := p.Main.Pkg.Scope().Lookup(k[:i])
		if o == nil {
			r.errf("type %s not found", k[:i])
			continue
		}
		st, ok := o.Type().Underlying().(*types.Struct)
		found := false
		if ok {
			for j := 0; j < st.NumFields(); j++ {
				if st.Field(j).Name() == k[i+1:] {
					found = true
				}
			}
		}
		if !found {
			// a renamed or removed private field: nothing to protect under this name
			delete(guards, k)
		}
	}
}

func lockCycles(edges map[[2]string]string) [][]string {
	adj := map[string][]string{}
	for e := range edges {
		adj[e[0]] = append(adj[e[0]], e[1])
	}
	var nodes []string
	for n := range adj {
		sort.Strings(adj[n])
		nodes = append(nodes, n)
	}
	sort.Strings(nodes)
	var out [][]string
	for _, n := range nodes {
		// shortest cycle through n whose smallest node is n
		type q struct {
			at   string
			path []string
		}
		seen := map[string]bool{}
		work := []q{{n, []string{n}}}
		for len(work) > 0 {
			w := work[0]
			work = work[1:]
			done := false
			for _, m := range adj[w.at] {
				if m == n {
					out = append(out, append(append([]string{}, w.path...), n))
					done = true
					break
				}
				if m < n || seen[m] {
					continue
				}
				seen[m] = true
				work = append(work, q{m, append(append([]string{}, w.path...), m)})
			}
			if done {
				break
			}
		}
	}
	return out
}

func edgeTrace(edges map[[2]string]string, c []string) []string {
	var out []string
	for i := 0; i+1 < len(c); i++ {
		out = append(out, c[i]+" held when "+c[i+1]+" is taken: "+edges[[2]string{c[i], c[i+1]}])
	}
	return out
}

// mixedAtomic: fields whose address reaches sync/atomic are not accessed plainly.
func mixedAtomic(p *Program, r *Report) {
	key := func(v ssa.Value) string {
		switch v := v.(type) {
		case *ssa.FieldAddr:
			o, f := fieldOf(v.X.Type(), v.Field)
			return o + "." + f
		case *ssa.Global:
			return "var " + v.Name()
		}
		return ""
	}
	isAtomic := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := ci.Common().StaticCallee()
		return f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync/atomic" || f != nil && strings.HasPrefix(extName(f), "sync/atomic.")
	}
	at := map[string]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if isAtomic(in) {
					for _, arg := range in.(ssa.CallInstruction).Common().Args {
						if k := key(arg); k != "" {
							at[k] = true
						}
					}
				}
			}
		}
	}
	r.count("atomic variables", len(at))
	for _, f := range p.Funcs {
		if !isSource(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var addr ssa.Value
				what := "reads"
				switch in := in.(type) {
				case *ssa.UnOp:
					if in.Op == token.MUL {
						addr = in.X
					}
				case *ssa.Store:
					addr = in.Addr
					what = "writes"
				}
				if addr == nil {
					continue
				}
				k := key(addr)
				if k == "" || !at[k] {
					continue
				}
				r.Obligations++
				if fa, ok := addr.(*ssa.FieldAddr); ok && freshBase(fa.X) {
					r.Discharged++
					continue
				}
				r.add("mixed-atomic", fnName(f), k, p.instrPos(in), what+" "+k+" without sync/atomic, which is used for it elsewhere", nil)
			}
		}
	}
}

// remoteWrites: everything RemoteCli writes to its connection is written under dataM.
func remoteWrites(p *Program, r *Report, a *lockAnalysis) {
	// second pass over the contexts: the lock must be in the must-held set of
	// every context in which the write instruction runs
	b := newLockAnalysis(p, r)
	b.guards = map[string]string{}
	b.taint = map[*ssa.Function]map[ssa.Value]guardedUse{}
	b.wantC16 = true
	for _, f := range p.Funcs {
		t := map[ssa.Value]guardedUse{}
		for changed := true; changed; {
			changed = false
			for _, bl := range f.Blocks {
				for _, in := range bl.Instrs {
					switch in := in.(type) {
					case *ssa.UnOp:
						if fa, ok := in.X.(*ssa.FieldAddr); ok && in.Op == token.MUL {
							o, fl := fieldOf(fa.X.Type(), fa.Field)
							if o == "RemoteCli" && fl == "conn" {
								t2 := append(writerUses(in), in)
								for _, x := range t2 {
									if _, ok := t[x]; !ok {
										t[x] = guardedUse{"RemoteCli.conn (as a writer)", "RemoteCli.dataM", true}
										changed = true
									}
								}
							}
						}
					}
				}
			}
		}
		b.taint[f] = t
	}
	b.run(p.lockRoots())
	for _, n := range b.accesses {
		r.count("remote client write sites", n)
	}
}

// writerUses: conversions of v to io.Writer.
func writerUses(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	for _, ref := range *v.Referrers() {
		if ci, ok := ref.(*ssa.ChangeInterface); ok {
			if it, ok := ci.Type().Underlying().(*types.Interface); ok && it.NumMethods() == 1 && it.Method(0).Name() == "Write" {
				out = append(out, ci)
			}
		}
	}
	return out
}
