package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Every loop ends or waits: a cycle through a loop passes an operation that
// waits for somebody else, or takes the next element of a finite sequence, or
// makes a measure that is never negative smaller.

type backMap struct {
	b  edgeState
	m  map[Sym]Lin
	mb map[Sym]BoolV
}

// ranked looks for measures over the head symbols of a loop such that every way
// round the loop makes one of them smaller and the earlier ones no larger.
func (e *Eng) ranked(l *loopInfo, backs []backMap, genned map[Sym]Lin, gennedN map[Sym]BoolV, atoms map[string]Lin) (bool, string) {
	var rs []Lin
	seen := map[string]bool{}
	add := func(r Lin) {
		if r.IsConst() || seen[r.Key()] {
			return
		}
		rel := false
		for _, t := range r.T {
			if _, ok := genned[t.S]; ok {
				rel = true
			}
		}
		if !rel {
			return
		}
		seen[r.Key()] = true
		rs = append(rs, r)
	}
	for _, k := range sortedAtoms(atoms) {
		a := atoms[k]
		for d := int64(-1); d <= 2; d++ {
			add(a.AddK(d))
			add(a.Mul(-1).AddK(d))
		}
	}
	var ss []Sym
	for s := range genned {
		ss = append(ss, s)
	}
	sortSyms(ss)
	for i, s := range ss {
		add(linS(s))
		add(linS(s).AddK(1))
		add(linS(s).Mul(-1))
		for j, t := range ss {
			if i != j {
				add(linS(s).Sub(linS(t)))
				add(linS(s).Sub(linS(t)).AddK(1))
			}
		}
	}
	type verdict struct{ dec, keep bool }
	eval := func(r Lin, b backMap, pv *prover) verdict {
		x, ok := substBack(r, genned, b.m)
		if !ok {
			return verdict{}
		}
		keep := pv.proves(r.Sub(x))
		return verdict{keep && pv.proves(r) && pv.proves(r.Sub(x).AddK(-1)), keep}
	}
	type measure struct {
		key  string
		eval func(b backMap, pv *prover) verdict
	}
	var ms []measure
	for _, r := range rs {
		r := r
		ms = append(ms, measure{r.Key(), func(b backMap, pv *prover) verdict { return eval(r, b, pv) }})
	}
	var bs []Sym
	for s := range gennedN {
		bs = append(bs, s)
	}
	sortSyms(bs)
	for _, s := range bs {
		for to := 0; to < 2; to++ {
			// a flag that only changes to this value
			s, to := s, to
			ms = append(ms, measure{fmt.Sprintf("flag %d %d", s, to), func(b backMap, pv *prover) verdict {
				st := b.b.st
				t0 := st.truth(BoolV{Op: 's', S: s})
				nb, ok := b.mb[s]
				if !ok {
					return verdict{}
				}
				t1 := st.truth(nb)
				same := nb.Op == 's' && nb.S == s && !nb.Neg
				return verdict{t0 == 1-to && t1 == to, same || t1 == to || t0 == 1-to}
			}})
		}
	}
	left := backs
	used := map[string]bool{}
	for len(left) > 0 {
		provers := make([]*prover, len(left))
		for i, b := range left {
			provers[i] = newProver(b.b.st)
		}
		progress := false
		for _, r := range ms {
			if used[r.key] {
				continue
			}
			all := true
			var rest []backMap
			n := 0
			for i, b := range left {
				v := r.eval(b, provers[i])
				if !v.keep {
					all = false
					break
				}
				if v.dec {
					n++
				} else {
					rest = append(rest, b)
				}
			}
			if all && n > 0 {
				used[r.key] = true
				left = rest
				progress = true
				break
			}
		}
		if !progress {
			from := left[0].b.from
			return false, fmt.Sprintf("nothing gets smaller on the way round through block %d", from.Index)
		}
	}
	return true, ""
}

// waits: an instruction that lets the goroutine wait for another party.
func (p *Program) waitsLib(c *ssa.CallCommon) bool {
	if c.IsInvoke() {
		switch c.Method.Name() {
		case "Read", "Accept", "ReadRune", "ReadByte", "ReadString":
			return !p.inModuleType(c.Value.Type())
		}
		return false
	}
	f := c.StaticCallee()
	if f == nil {
		return fieldCall(c, "Kernel", "ReadConsoleInputW")
	}
	if f.Pkg == nil || p.inModule(f) {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "bufio":
		return strings.HasPrefix(f.Name(), "Read") && f.Signature.Recv() != nil || f.Name() == "Scan"
	case "io":
		return strings.HasPrefix(f.Name(), "Read") || strings.HasPrefix(f.Name(), "Copy")
	case "encoding/binary":
		return f.Name() == "Read"
	case "net":
		return f.Name() == "Accept" || f.Name() == "Read"
	case "time":
		return f.Name() == "Sleep"
	case "sync":
		return f.Name() == "Wait"
	case "os":
		return f.Name() == "Read" || f.Name() == "Wait"
	case "syscall":
		return f.Name() == "Read"
	}
	return false
}

func (p *Program) inModuleType(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		for _, f := range p.Funcs {
			if f.Pkg != nil && f.Pkg.Pkg == n.Obj().Pkg() {
				return p.inModule(f)
			}
		}
	}
	return false
}

// paceBlocks: the blocks of f which wait for another party whenever they run.
func (p *Program) mustWait(f *ssa.Function, seen map[*ssa.Function]bool) map[*ssa.BasicBlock]bool {
	has := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if blockingOp(in) != nil {
				has[b] = true
			}
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			switch in.(type) {
			case *ssa.Go, *ssa.Defer:
				continue
			}
			if p.waitsLib(c.Common()) {
				has[b] = true
				continue
			}
			if fs := p.calleesOf(c); len(fs) > 0 {
				all := true
				for _, g := range fs {
					if !p.inModule(g) || !p.alwaysWaits(g, seen) {
						all = false
					}
				}
				if all {
					has[b] = true
				}
			}
		}
	}
	return has
}

func (p *Program) alwaysWaits(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if f.Blocks == nil || seen[f] {
		return false
	}
	seen[f] = true
	defer delete(seen, f)
	has := p.mustWait(f, seen)
	vis := map[*ssa.BasicBlock]bool{}
	var escapes func(b *ssa.BasicBlock) bool
	escapes = func(b *ssa.BasicBlock) bool {
		if has[b] || vis[b] {
			return false
		}
		vis[b] = true
		if len(b.Succs) == 0 {
			_, isPanic := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
			return !isPanic
		}
		for _, s := range b.Succs {
			if escapes(s) {
				return true
			}
		}
		return false
	}
	return !escapes(f.Blocks[0])
}

// leaves: the loop can be left from b in this round.
func (l *loopInfo) leaves(b *ssa.BasicBlock) bool {
	vis := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == l.head || vis[b] {
			return false
		}
		vis[b] = true
		if !l.blocks[b] || len(b.Succs) == 0 {
			return true
		}
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(b)
}

// leavesNext: the loop can be left from b, in this round or in the next one,
// where the flags set on the way have their new value.
func (l *loopInfo) leavesNext(from, b *ssa.BasicBlock) bool {
	if l.leaves(b) && b != l.head {
		return true
	}
	flags := map[*ssa.Phi]bool{}
	vis := map[*ssa.BasicBlock]bool{}
	var back func(from, b *ssa.BasicBlock)
	back = func(from, b *ssa.BasicBlock) {
		if b == l.head {
			for i, p := range b.Preds {
				if p != from {
					continue
				}
				for _, in := range b.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if k, ok := phi.Edges[i].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
						flags[phi] = constant.BoolVal(k.Value)
					}
				}
			}
			return
		}
		if vis[b] || !l.blocks[b] {
			return
		}
		vis[b] = true
		for _, s := range b.Succs {
			back(b, s)
		}
	}
	back(from, b)
	// a test of such a flag that leads out
	for phi, v := range flags {
		for _, u := range *phi.Referrers() {
			i, ok := u.(*ssa.If)
			if !ok {
				continue
			}
			k := 1
			if v {
				k = 0
			}
			if s := i.Block().Succs[k]; !l.blocks[s] || s != l.head && l.leaves(s) {
				return true
			}
		}
	}
	return false
}

// spinsClosed: a loop that goes on waiting on a channel that has been closed.
func (p *Program) spinsClosed(l *loopInfo, closes map[string][]ssa.Instruction) ssa.Instruction {
	closable := func(ch ssa.Value) bool {
		for _, s := range p.chanOf(ch) {
			if s != "?" && s != "lib" && s != "local" && len(closes[s]) > 0 {
				return true
			}
		}
		return false
	}
	for _, b := range l.head.Parent().Blocks {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.UnOp:
				if in.Op != token.ARROW || !closable(in.X) {
					continue
				}
				out, tested := false, false
				if in.CommaOk {
					for _, u := range *in.Referrers() {
						x, ok := u.(*ssa.Extract)
						if !ok || x.Index != 1 {
							continue
						}
						for _, w := range *x.Referrers() {
							if i, ok := w.(*ssa.If); ok {
								tested = true
								if s := i.Block().Succs[1]; !l.blocks[s] || l.leavesNext(i.Block(), s) {
									out = true
								}
							}
						}
					}
				}
				if !tested {
					for _, s := range b.Succs {
						if !l.blocks[s] || l.leavesNext(b, s) {
							out = true
						}
					}
				}
				if !out {
					return in
				}
			case *ssa.Select:
				for k, st := range in.States {
					if st.Dir != types.RecvOnly || !closable(st.Chan) {
						continue
					}
					out := false
					n := 0
					for _, u := range *in.Referrers() {
						x, ok := u.(*ssa.Extract)
						if !ok || x.Index != 0 {
							continue
						}
						for _, w := range *x.Referrers() {
							op, ok := w.(*ssa.BinOp)
							if !ok || op.Op != token.EQL {
								continue
							}
							if c, ok := op.Y.(*ssa.Const); !ok || int(ssaConstInt(c)) != k {
								continue
							}
							for _, w := range *op.Referrers() {
								if i, ok := w.(*ssa.If); ok {
									n++
									if s := i.Block().Succs[0]; !l.blocks[s] || l.leavesNext(i.Block(), s) {
										out = true
									}
								}
							}
						}
					}
					if n > 0 && !out {
						return in
					}
				}
			}
		}
	}
	return nil
}

// sentinels: the particular errors the loop compares the error with, and nil
// for any other error.
func sentinels(l *loopInfo, errs map[ssa.Value]bool) []ssa.Value {
	out := []ssa.Value{nil}
	seen := map[ssa.Value]bool{}
	for v := range errs {
		for _, u := range *v.Referrers() {
			op, ok := u.(*ssa.BinOp)
			if !ok || !l.blocks[op.Block()] {
				continue
			}
			for _, o := range []ssa.Value{op.X, op.Y} {
				if g := globalOf(o); g != nil && !seen[g] {
					seen[g] = true
					out = append(out, g)
				}
			}
		}
	}
	return out
}

func globalOf(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			return g
		}
	}
	return nil
}

// failWalk follows the loop from a read that has failed until it reads again.
type failWalk struct {
	l     *loopInfo
	at    *ssa.Call
	errs  map[ssa.Value]bool // values that hold the error
	mode  ssa.Value          // the variable the error is equal to, nil: none
	zero  bool               // the other results are zero
	noErr bool               // the error is nil
	again bool               // the read can be reached again
	left  bool               // the loop can be left
	seen  map[string]bool
}

func (w *failWalk) run() {
	w.seen = map[string]bool{}
	w.walk(w.at.Block(), nil, true, map[ssa.Value]constant.Value{})
}

func (w *failWalk) value(v ssa.Value, env map[ssa.Value]constant.Value) constant.Value {
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value
	case *ssa.Extract:
		if w.zero && v.Tuple == w.at {
			switch b := v.Type().Underlying().(type) {
			case *types.Basic:
				switch {
				case b.Info()&types.IsInteger != 0:
					return constant.MakeInt64(0)
				case b.Info()&types.IsString != 0:
					return constant.MakeString("")
				case b.Info()&types.IsBoolean != 0:
					return constant.MakeBool(false)
				}
			}
		}
		return nil
	case *ssa.Convert:
		if c := w.value(v.X, env); c != nil && c.Kind() == constant.Int {
			if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return c
			}
		}
	case *ssa.UnOp:
		if v.Op == token.NOT {
			if c := w.value(v.X, env); c != nil {
				return constant.MakeBool(!constant.BoolVal(c))
			}
		}
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "unicode" || len(v.Call.Args) != 1 {
			break
		}
		c := w.value(v.Call.Args[0], env)
		if c == nil {
			break
		}
		n, ok := constant.Int64Val(c)
		is := map[string]func(rune) bool{"IsNumber": unicode.IsNumber, "IsDigit": unicode.IsDigit, "IsLetter": unicode.IsLetter, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsSpace": unicode.IsSpace, "IsPrint": unicode.IsPrint, "IsControl": unicode.IsControl}[f.Name()]
		if ok && is != nil {
			return constant.MakeBool(is(rune(n)))
		}
	case *ssa.BinOp:
		if v.Op == token.EQL || v.Op == token.NEQ {
			for _, o := range [][2]ssa.Value{{v.X, v.Y}, {v.Y, v.X}} {
				if !w.errs[o[0]] {
					continue
				}
				eq := false
				if k, ok := o[1].(*ssa.Const); ok && k.Value == nil {
					eq = w.noErr
				} else if g := globalOf(o[1]); g != nil {
					eq = g == w.mode && !w.noErr
				} else {
					return nil
				}
				return constant.MakeBool(eq == (v.Op == token.EQL))
			}
		}
		x, y := w.value(v.X, env), w.value(v.Y, env)
		if x == nil || y == nil || x.Kind() != y.Kind() {
			break
		}
		switch v.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return constant.MakeBool(constant.Compare(x, v.Op, y))
		}
	}
	return env[v]
}

func (w *failWalk) walk(b, from *ssa.BasicBlock, start bool, env map[ssa.Value]constant.Value) {
	if !w.l.blocks[b] || len(b.Succs) == 0 {
		w.left = true
		return
	}
	if from != nil {
		next := map[ssa.Value]constant.Value{}
		for k, v := range env {
			next[k] = v
		}
		for i, p := range b.Preds {
			if p != from {
				continue
			}
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if c := w.value(phi.Edges[i], env); c != nil {
					next[phi] = c
				} else {
					delete(next, phi)
				}
			}
			break
		}
		env = next
	}
	var ks []string
	for k, v := range env {
		ks = append(ks, k.Name()+"="+v.ExactString())
	}
	sort.Strings(ks)
	key := fmt.Sprint(b.Index, start, ks)
	if w.seen[key] || len(w.seen) > 2000 {
		return
	}
	w.seen[key] = true
	for _, in := range b.Instrs {
		if start {
			start = in != ssa.Instruction(w.at)
			continue
		}
		if in == ssa.Instruction(w.at) || blockingOp(in) != nil {
			w.again = true // or waits for somebody else instead of leaving
			return
		}
	}
	if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
		if c := w.value(i.Cond, env); c != nil && c.Kind() == constant.Bool {
			k := 1
			if constant.BoolVal(c) {
				k = 0
			}
			w.walk(b.Succs[k], b, false, env)
			return
		}
	}
	for _, s := range b.Succs {
		w.walk(s, b, false, env)
	}
}

// spins: a loop that goes on reading from a source which only fails any more.
func (p *Program) spins(l *loopInfo) (ssa.Instruction, string) {
	seen := map[*ssa.Function]bool{}
	paced := map[*ssa.BasicBlock]bool{}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if blockingOp(in) != nil {
				paced[b] = true
			}
		}
	}
	if everyCycle(l, paced) {
		return nil, "" // another goroutine sets the pace
	}
	for _, b := range l.head.Parent().Blocks {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			res := c.Call.Signature().Results()
			if res.Len() == 0 || res.At(res.Len()-1).Type().String() != "error" {
				continue
			}
			wait := p.waitsLib(&c.Call)
			if f := c.Call.StaticCallee(); f != nil && p.inModule(f) {
				wait = p.alwaysWaits(f, seen)
			}
			if !wait {
				continue
			}
			// the error and everything it is merged into
			errs := map[ssa.Value]bool{}
			var follow func(v ssa.Value)
			follow = func(v ssa.Value) {
				if errs[v] || v.Referrers() == nil || len(*v.Referrers()) == 0 {
					return
				}
				errs[v] = true
				for _, u := range *v.Referrers() {
					switch u := u.(type) {
					case *ssa.Phi:
						follow(u)
					case *ssa.Store:
						if a, ok := u.Addr.(*ssa.Alloc); ok {
							for _, ld := range *a.Referrers() {
								if x, ok := ld.(*ssa.UnOp); ok {
									follow(x)
								}
							}
						}
					}
				}
			}
			if res.Len() == 1 {
				follow(c)
			} else {
				for _, u := range *c.Referrers() {
					if x, ok := u.(*ssa.Extract); ok && x.Index == res.Len()-1 {
						follow(x)
					}
				}
			}
			out := true
			if len(errs) == 0 {
				// the error is ignored: what a failed read returns besides it leads out
				w := &failWalk{l: l, at: c, zero: true}
				w.run()
				out = !w.again
			} else {
				// for every error the loop looks for, and for any other one
				for _, mode := range sentinels(l, errs) {
					w := &failWalk{l: l, at: c, errs: errs, mode: mode}
					w.run()
					if !w.left {
						out = false
					}
				}
			}
			if f := c.Call.StaticCallee(); out && f != nil && strings.HasPrefix(extName(f), "io.Copy") {
				// io.Copy reports the end of the source as a copy of nothing
				w := &failWalk{l: l, at: c, errs: errs, zero: true, noErr: true}
				w.run()
				out = !w.again
			}
			if !out {
				return c, "the loop goes on when the read fails, for ever once the source is exhausted"
			}
		}
	}
	return nil, ""
}

// everyCycle: each way round the loop passes one of the blocks.
func everyCycle(l *loopInfo, has map[*ssa.BasicBlock]bool) bool {
	if has[l.head] {
		return true
	}
	vis := map[*ssa.BasicBlock]bool{}
	var free func(b *ssa.BasicBlock) bool // the head can be reached again
	free = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == l.head {
				return true
			}
			if !l.blocks[s] || has[s] || vis[s] {
				continue
			}
			vis[s] = true
			if free(s) {
				return true
			}
		}
		return false
	}
	return !free(l.head)
}

// finiteWalk: the loop takes the next element of a string or map that was
// fixed before, or walks along a list that nobody extends meanwhile.
func (p *Program) finiteWalk(l *loopInfo, grows map[*ssa.Function]bool) string {
	has := map[*ssa.BasicBlock]bool{}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok {
				if d, ok := n.Iter.(ssa.Instruction); ok && !l.blocks[d.Block()] {
					has[b] = true
				}
			}
		}
	}
	if len(has) > 0 && everyCycle(l, has) {
		return "range"
	}
	growing := func() bool {
		for b := range l.blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, f := range p.calleesOf(c) {
					if grows[f] || listAdd(f) {
						return true
					}
				}
			}
		}
		return false
	}
	// every round takes the first or last element out of the list
	for b := range l.blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || extName(c.Call.StaticCallee()) != "(*container/list.List).Remove" {
				continue
			}
			end, ok := c.Call.Args[1].(*ssa.Call)
			if !ok || end.Call.StaticCallee() == nil {
				continue
			}
			switch extName(end.Call.StaticCallee()) {
			case "(*container/list.List).Front", "(*container/list.List).Back":
				if sameField(end.Call.Args[0], c.Call.Args[0]) && l.blocks[end.Block()] {
					has[b] = true
				}
			}
		}
	}
	if len(has) > 0 && everyCycle(l, has) && !growing() {
		return "shrinking list"
	}
	walk := func(phi *ssa.Phi) bool {
		dir := ""
		for i, ed := range phi.Edges {
			if !l.blocks[l.head.Preds[i]] {
				continue
			}
			c, ok := ed.(*ssa.Call)
			if !ok {
				return false
			}
			f := c.Call.StaticCallee()
			if f == nil || extName(f) != "(*container/list.Element).Next" && extName(f) != "(*container/list.Element).Prev" {
				return false
			}
			if c.Call.Args[0] != phi || dir != "" && dir != f.Name() {
				return false
			}
			dir = f.Name()
		}
		return dir != ""
	}
	for _, in := range l.head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !walk(phi) {
			continue
		}
		if growing() {
			return "" // somebody may put elements into the list on the way
		}
		return "list"
	}
	return ""
}

// sameField: both are the same value or loads of the same field.
func sameField(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 {
		return false
	}
	if x.X == y.X {
		return true
	}
	fx, ok1 := x.X.(*ssa.FieldAddr)
	fy, ok2 := y.X.(*ssa.FieldAddr)
	return ok1 && ok2 && fx.Field == fy.Field && sameField(fx.X, fy.X)
}

func listAdd(f *ssa.Function) bool {
	if !strings.HasPrefix(extName(f), "(*container/list.List)") {
		return false
	}
	return strings.HasPrefix(f.Name(), "Push") || strings.HasPrefix(f.Name(), "Insert") || strings.HasPrefix(f.Name(), "Move")
}

// growers: the functions that may put an element into a list.
func (p *Program) growers() map[*ssa.Function]bool {
	g := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range p.Funcs {
			if g[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					for _, h := range p.calleesOf(c) {
						if (g[h] || listAdd(h)) && !g[f] {
							g[f] = true
							ch = true
						}
					}
				}
			}
		}
	}
	return g
}

func (p *Program) loopsOf(f *ssa.Function) []*loopInfo {
	fi := buildFnInfo(f)
	var ls []*loopInfo
	for _, l := range fi.loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].head.Index < ls[j].head.Index })
	return ls
}

func loopPos(l *loopInfo) ssa.Instruction {
	for i := len(l.head.Instrs) - 1; i >= 0; i-- {
		if in := l.head.Instrs[i]; in.Pos().IsValid() {
			return in
		}
		if x, ok := l.head.Instrs[i].(*ssa.If); ok {
			if c, ok := x.Cond.(ssa.Instruction); ok && c.Pos().IsValid() {
				return c
			}
		}
	}
	for _, b := range l.head.Parent().Blocks {
		if l.blocks[b] {
			for _, in := range b.Instrs {
				if in.Pos().IsValid() {
					return in
				}
			}
		}
	}
	return l.head.Instrs[len(l.head.Instrs)-1]
}

// measured: the loops that need a measure.
func (p *Program) measured() map[*ssa.BasicBlock]bool {
	need := map[*ssa.BasicBlock]bool{}
	grows := p.growers()
	for _, f := range p.Funcs {
		if !isSource(f) {
			continue
		}
		var has map[*ssa.BasicBlock]bool
		for _, l := range p.loopsOf(f) {
			if p.finiteWalk(l, grows) != "" {
				continue
			}
			if has == nil {
				has = p.mustWait(f, map[*ssa.Function]bool{})
			}
			if !everyCycle(l, has) {
				need[l.head] = true
			}
		}
	}
	return need
}

func (r *Report) termination(goos string) {
	p := load(r, goos)
	if p == nil {
		return
	}
	grows := p.growers()
	closes := p.closeSites()
	var fns []*ssa.Function
	need := map[*ssa.BasicBlock]bool{}
	heads := map[*ssa.BasicBlock]*loopInfo{}
	for _, f := range p.Funcs {
		if !isSource(f) {
			continue
		}
		todo := false
		var has map[*ssa.BasicBlock]bool
		for _, l := range p.loopsOf(f) {
			r.count("loops", 1)
			if w := p.finiteWalk(l, grows); w != "" {
				r.count("loops over a "+w, 1)
				r.Obligations++
				r.Discharged++
				continue
			}
			if has == nil {
				has = p.mustWait(f, map[*ssa.Function]bool{})
			}
			if everyCycle(l, has) {
				r.count("loops that wait in every round", 1)
				r.Obligations++
				if at := p.spinsClosed(l, closes); at != nil {
					r.add("termination", fnName(f), "closed channel", p.instrPos(at), "the loop goes on receiving from a channel that may have been closed: it never waits again", nil)
					continue
				}
				if at, why := p.spins(l); at != nil {
					r.add("termination", fnName(f), describe(at.(ssa.Value)), p.instrPos(at), why, nil)
					continue
				}
				r.Discharged++
				if len(r.Samples) < 20 {
					r.sample("%s waits: %s", fnName(f), p.instrPos(loopPos(l)))
				}
				continue
			}
			need[l.head] = true
			heads[l.head] = l
			todo = true
		}
		if todo {
			fns = append(fns, f)
		}
	}
	a := plainAnalysis(p, nil, fns)
	a.setup = func(e *Eng) {
		e.termination = need
	}
	a.report(r, func(o *oblig) bool { return o.rule == "termination" })
	done := map[*ssa.BasicBlock]bool{}
	for _, e := range a.engs {
		if e != nil {
			for h := range e.loopsSeen {
				done[h] = true
			}
		}
	}
	n := 0
	for h, l := range heads {
		if done[h] {
			n++
			continue
		}
		r.Obligations++
		r.add("termination", fnName(h.Parent()), fmt.Sprintf("loop %d", h.Index), p.instrPos(loopPos(l)), "no run of the analysis gets to this loop", nil)
	}
	r.count("loops with a measure", n)
}

// recursion: a function reached from itself.
func (r *Report) recursion(goos string) {
	p := load(r, goos)
	if p == nil {
		return
	}
	adj := map[*ssa.Function]map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range p.Funcs {
		adj[f] = map[*ssa.Function][]ssa.CallInstruction{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					continue
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range p.calleesOf(c) {
						if p.inModule(g) {
							adj[f][g] = append(adj[f][g], c)
						}
					}
				}
			}
		}
	}
	reach := func(from, to *ssa.Function) bool {
		vis := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function) bool
		walk = func(f *ssa.Function) bool {
			if f == to {
				return true
			}
			if vis[f] {
				return false
			}
			vis[f] = true
			for g := range adj[f] {
				if walk(g) {
					return true
				}
			}
			return false
		}
		return walk(from)
	}
	var calls []sizeCall
	for _, f := range p.Funcs {
		for g, cs := range adj[f] {
			if !reach(g, f) {
				continue
			}
			for _, c := range cs {
				r.count("recursive calls", 1)
				calls = append(calls, sizeCall{f, g, p.sizeRel(f, g, c), c})
			}
		}
	}
	sort.Slice(calls, func(i, j int) bool { return calls[i].at.Pos() < calls[j].at.Pos() })
	// size-change termination: every way from a function back to itself that
	// repeats makes an argument smaller
	all := map[string]sizeCall{}
	var list []sizeCall
	put := func(c sizeCall) {
		if k := c.key(); all[k].f == nil {
			all[k] = c
			list = append(list, c)
		}
	}
	for _, c := range calls {
		put(c)
	}
	for i := 0; i < len(list) && i < 5000; i++ {
		for j := 0; j <= i; j++ {
			if list[i].g == list[j].f {
				put(list[i].then(list[j]))
			}
			if list[j].g == list[i].f && i != j {
				put(list[j].then(list[i]))
			}
		}
	}
	bad := map[*ssa.Function]bool{}
	for _, c := range list {
		if c.f != c.g || c.then(c).key() != c.key() {
			continue
		}
		ok := false
		for k, strict := range c.rel {
			if k[0] == k[1] && strict {
				ok = true
			}
		}
		r.Obligations++
		if ok {
			r.Discharged++
			continue
		}
		if !bad[c.f] {
			bad[c.f] = true
			r.add("recursion", fnName(c.f), "recursion", p.instrPos(c.at), fnName(c.f)+" calls itself without an argument that is part of its own", nil)
		}
	}
}

// sizeCall is one call with what it does to the arguments: (i, j) when argument
// j is parameter i or, strictly, a part of it.
type sizeCall struct {
	f, g *ssa.Function
	rel  map[[2]int]bool
	at   ssa.CallInstruction
}

func (c sizeCall) key() string {
	var ks []string
	for k, s := range c.rel {
		ks = append(ks, fmt.Sprint(k, s))
	}
	sort.Strings(ks)
	return fmt.Sprintf("%p %p %v", c.f, c.g, ks)
}

func (c sizeCall) then(d sizeCall) sizeCall {
	n := sizeCall{c.f, d.g, map[[2]int]bool{}, c.at}
	for a, s := range c.rel {
		for b, t := range d.rel {
			if a[1] == b[0] {
				k := [2]int{a[0], b[1]}
				n.rel[k] = n.rel[k] || s || t
			}
		}
	}
	return n
}

func (p *Program) sizeRel(f, g *ssa.Function, c ssa.CallInstruction) map[[2]int]bool {
	args := c.Common().Args
	if c.Common().IsInvoke() {
		args = append([]ssa.Value{c.Common().Value}, args...)
	}
	rel := map[[2]int]bool{}
	for j, a := range args {
		if j >= len(g.Params) {
			break
		}
		for i, prm := range f.Params {
			if _, ok := a.(*ssa.Const); ok {
				continue
			}
			if ok, strict := p.partOf(a, prm, map[ssa.Value]bool{}); ok {
				rel[[2]int{i, j}] = strict
			}
		}
	}
	return rel
}

// partOf: v is the parameter or a part of the structure it refers to.
func (p *Program) partOf(v ssa.Value, prm *ssa.Parameter, seen map[ssa.Value]bool) (ok, strict bool) {
	if v == prm {
		return true, false
	}
	if seen[v] {
		return true, true
	}
	seen[v] = true
	defer delete(seen, v)
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil, true
	case *ssa.Phi:
		strict = true
		for _, ed := range v.Edges {
			o, s := p.partOf(ed, prm, seen)
			if !o {
				return false, false
			}
			strict = strict && s
		}
		return true, strict
	case *ssa.MakeInterface:
		return p.partOf(v.X, prm, seen)
	case *ssa.ChangeInterface:
		return p.partOf(v.X, prm, seen)
	case *ssa.ChangeType:
		return p.partOf(v.X, prm, seen)
	case *ssa.TypeAssert:
		return p.partOf(v.X, prm, seen)
	case *ssa.Extract:
		return p.partOf(v.Tuple, prm, seen)
	case *ssa.Slice:
		if _, ok := v.X.Type().Underlying().(*types.Slice); ok {
			return p.partOf(v.X, prm, seen)
		}
	case *ssa.Next:
		return p.partOf(v.Iter, prm, seen)
	case *ssa.Range:
		return p.partOf(v.X, prm, seen)
	case *ssa.Call:
		// the children of a node
		if v.Call.IsInvoke() && v.Call.Method.Name() == "GetChildren" {
			o, _ := p.partOf(v.Call.Value, prm, seen)
			return o, o
		}
		if s := v.Call.StaticCallee(); s != nil && s.Name() == "GetChildren" && len(v.Call.Args) > 0 {
			o, _ := p.partOf(v.Call.Args[0], prm, seen)
			return o, o
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return false, false
		}
		switch x := v.X.(type) {
		case *ssa.IndexAddr:
			return p.partOf(x.X, prm, seen)
		case *ssa.FieldAddr:
			if o, _ := p.partOf(x.X, prm, seen); o && p.fixedFields()[fieldKey(x.X.Type(), x.Field)] {
				return true, true
			}
		case *ssa.Alloc:
			// a variable: everything that is put into it
			strict, n := true, 0
			for _, ref := range *x.Referrers() {
				switch ref := ref.(type) {
				case *ssa.Store:
					if ref.Addr != x {
						return false, false
					}
					o, s := p.partOf(ref.Val, prm, seen)
					if !o {
						return false, false
					}
					strict = strict && s
					n++
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return false, false
				}
			}
			return n > 0, strict
		}
	}
	return false, false
}

func init() {
	checks["C27"] = func(r *Report) {
		r.Rules = append(r.Rules, "every cycle of a loop waits for another party, takes the next element of a finite sequence, or makes a non-negative measure over the loop's variables smaller (lexicographic order)")
		r.termination("linux")
		r.recursion("linux")
		r.termination("windows")
		r.recursion("windows")
		r.floor("loops", 100)
		r.floor("loops with a measure", 70)
	}
}
