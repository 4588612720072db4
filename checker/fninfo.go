package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
}

// fnInfo numbers the values of a function and finds its loops and live registers.
type fnInfo struct {
	fn      *ssa.Function
	num     map[ssa.Value]int
	vals    []ssa.Value
	rpo     []*ssa.BasicBlock
	loops   map[*ssa.BasicBlock]*loopInfo
	live    []map[int]bool // registers live at block entry (after its phis)
	all     map[*ssa.BasicBlock]bool
	irreduc bool
	retest  map[string][]*ssa.BasicBlock // boolean fields tested more than once
	reach   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

func buildFnInfo(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, num: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}, all: map[*ssa.BasicBlock]bool{}}
	add := func(v ssa.Value) {
		fi.num[v] = len(fi.vals)
		fi.vals = append(fi.vals, v)
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, f := range fn.FreeVars {
		add(f)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// reverse postorder
	state := map[*ssa.BasicBlock]int{}
	var post []*ssa.BasicBlock
	type fr struct {
		b *ssa.BasicBlock
		i int
	}
	stack := []fr{{fn.Blocks[0], 0}}
	state[fn.Blocks[0]] = 1
	for len(stack) > 0 {
		f := &stack[len(stack)-1]
		if f.i < len(f.b.Succs) {
			s := f.b.Succs[f.i]
			f.i++
			if state[s] == 0 {
				state[s] = 1
				stack = append(stack, fr{s, 0})
			}
			continue
		}
		state[f.b] = 2
		post = append(post, f.b)
		stack = stack[:len(stack)-1]
	}
	idx := map[*ssa.BasicBlock]int{}
	for i := len(post) - 1; i >= 0; i-- {
		idx[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
		fi.all[post[i]] = true
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if idx[s] <= idx[b] {
				if !s.Dominates(b) {
					fi.irreduc = true
					continue
				}
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if fi.all[p] {
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	for _, l := range fi.loops {
		for _, m := range fi.loops {
			if m != l && m.blocks[l.head] && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
	}
	fi.liveness()
	fi.findRetests()
	return fi
}

func (fi *fnInfo) liveness() {
	n := len(fi.fn.Blocks)
	fi.live = make([]map[int]bool, n)
	for i := range fi.live {
		fi.live[i] = map[int]bool{}
	}
	// live at entry after phis
	for changed := true; changed; {
		changed = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			cur := map[int]bool{}
			for _, s := range b.Succs {
				for v := range fi.live[s.Index] {
					if ph, ok := fi.vals[v].(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					cur[v] = true
				}
				// phi operands
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if k, ok := fi.num[ph.Edges[pi]]; ok {
						cur[k] = true
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(cur, fi.num[v])
				}
				var buf [8]*ssa.Value
				for _, op := range in.Operands(buf[:0]) {
					if *op == nil {
						continue
					}
					if k, ok := fi.num[*op]; ok {
						cur[k] = true
					}
				}
			}
			if len(cur) != len(fi.live[b.Index]) {
				fi.live[b.Index] = cur
				changed = true
			}
		}
	}
}

// retested: the boolean fields of other objects that a function tests more than
// once; states that differ in one of them stay apart until the last test.
func (fi *fnInfo) findRetests() {
	tests := map[string][]*ssa.BasicBlock{}
	for _, b := range fi.rpo {
		if len(b.Instrs) == 0 {
			continue
		}
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		v := i.Cond
		if n, ok := v.(*ssa.UnOp); ok && n.Op == token.NOT {
			v = n.X
		}
		if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if fa, ok := ld.X.(*ssa.FieldAddr); ok {
				o, f := fieldOf(fa.X.Type(), fa.Field)
				tests[o+"."+f] = append(tests[o+"."+f], b)
			}
		}
	}
	for k, bs := range tests {
		if len(bs) > 1 {
			if fi.retest == nil {
				fi.retest = map[string][]*ssa.BasicBlock{}
				fi.reach = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
			}
			fi.retest[k] = bs
		}
	}
	if fi.retest == nil {
		return
	}
	for i := len(fi.rpo) - 1; i >= 0; i-- {
		b := fi.rpo[i]
		m := map[*ssa.BasicBlock]bool{b: true}
		for _, s := range b.Succs {
			for x := range fi.reach[s] { // back edges: not computed yet
				m[x] = true
			}
		}
		fi.reach[b] = m
	}
}

func (fi *fnInfo) retestedAt(b *ssa.BasicBlock, field string) bool {
	for _, t := range fi.retest[field] {
		if fi.reach[b][t] {
			return true
		}
	}
	return false
}
