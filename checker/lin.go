package main

// Linear expressions over symbols and a small decision procedure for
// conjunctions of linear inequalities (Fourier–Motzkin elimination with integer
// tightening).  It is the numeric domain of the abstract interpreter.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type Sym int32

type Term struct {
	S Sym
	C int64
}

// Lin is sum(C*S) + K.
type Lin struct {
	T []Term
	K int64
}

func linK(k int64) Lin { return Lin{K: k} }
func linS(s Sym) Lin   { return Lin{T: []Term{{s, 1}}} }

func (a Lin) IsConst() bool { return len(a.T) == 0 }

func (a Lin) addMul(b Lin, m int64) Lin {
	r := Lin{K: a.K + m*b.K}
	r.T = make([]Term, 0, len(a.T)+len(b.T))
	i, j := 0, 0
	for i < len(a.T) || j < len(b.T) {
		switch {
		case j >= len(b.T) || i < len(a.T) && a.T[i].S < b.T[j].S:
			r.T = append(r.T, a.T[i])
			i++
		case i >= len(a.T) || b.T[j].S < a.T[i].S:
			r.T = append(r.T, Term{b.T[j].S, m * b.T[j].C})
			j++
		default:
			if c := a.T[i].C + m*b.T[j].C; c != 0 {
				r.T = append(r.T, Term{a.T[i].S, c})
			}
			i++
			j++
		}
	}
	return r
}
func (a Lin) Add(b Lin) Lin    { return a.addMul(b, 1) }
func (a Lin) Sub(b Lin) Lin    { return a.addMul(b, -1) }
func (a Lin) AddK(k int64) Lin { a.K += k; return a }
func (a Lin) Mul(m int64) Lin {
	if m == 0 {
		return Lin{}
	}
	r := Lin{K: a.K * m, T: make([]Term, len(a.T))}
	for i, t := range a.T {
		r.T[i] = Term{t.S, t.C * m}
	}
	return r
}
func (a Lin) Neg() Lin { return a.Mul(-1) }
func (a Lin) Eq(b Lin) bool {
	if a.K != b.K || len(a.T) != len(b.T) {
		return false
	}
	for i := range a.T {
		if a.T[i] != b.T[i] {
			return false
		}
	}
	return true
}
func (a Lin) coef(s Sym) int64 {
	for _, t := range a.T {
		if t.S == s {
			return t.C
		}
	}
	return 0
}

// linKey is made of letters (the symbol) and digits with ~ for minus, so that keys
// can be parts of names, paths and lists.
func (a Lin) linKey() string {
	b := make([]byte, 0, 6*len(a.T))
	for _, t := range a.T {
		for n := uint64(t.S); ; n /= 52 {
			if c := byte(n % 52); c < 26 {
				b = append(b, 'a'+c)
			} else {
				b = append(b, 'A'+c-26)
			}
			if n < 52 {
				break
			}
		}
		c := t.C
		if c < 0 {
			b, c = append(b, '~'), -c
		}
		b = strconv.AppendInt(b, c, 10)
	}
	return string(b)
}
func (a Lin) Key() string { return a.linKey() + "+" + strconv.FormatInt(a.K, 10) }

func (a Lin) subst(s Sym, e Lin) Lin {
	c := a.coef(s)
	if c == 0 {
		return a
	}
	r := a.addMul(linS(s), -c)
	return r.addMul(e, c)
}

var symNames = struct {
	n    []string
	byNm map[string]Sym
}{}

func linStr(a Lin, nm func(Sym) string) string {
	var sb strings.Builder
	for i, t := range a.T {
		c := t.C
		if i > 0 {
			if c < 0 {
				sb.WriteString(" - ")
				c = -c
			} else {
				sb.WriteString(" + ")
			}
		} else if c < 0 {
			sb.WriteString("-")
			c = -c
		}
		if c != 1 {
			fmt.Fprintf(&sb, "%d*", c)
		}
		sb.WriteString(nm(t.S))
	}
	if a.K != 0 || len(a.T) == 0 {
		if len(a.T) > 0 {
			if a.K > 0 {
				fmt.Fprintf(&sb, " + %d", a.K)
			} else {
				fmt.Fprintf(&sb, " - %d", -a.K)
			}
		} else {
			fmt.Fprintf(&sb, "%d", a.K)
		}
	}
	return sb.String()
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// tighten divides by the gcd of the coefficients (integers: floor the constant).
func (a Lin) tighten() Lin {
	if len(a.T) == 0 {
		return a
	}
	g := int64(0)
	for _, t := range a.T {
		g = gcd64(g, t.C)
		if g == 1 {
			return a
		}
	}
	r := Lin{K: floorDiv(a.K, g), T: make([]Term, len(a.T))}
	for i, t := range a.T {
		r.T[i] = Term{t.S, t.C / g}
	}
	return r
}

const coefLimit = int64(1) << 40

func tooBig(a Lin) bool {
	if a.K > coefLimit || a.K < -coefLimit {
		return true
	}
	for _, t := range a.T {
		if t.C > coefLimit || t.C < -coefLimit {
			return true
		}
	}
	return false
}

type conSet struct {
	idx map[uint64][]int32
	c   []Lin
	bad bool
}

func (a Lin) hash() uint64 {
	h := uint64(14695981039346656037)
	for _, t := range a.T {
		h = (h ^ uint64(t.S)) * 1099511628211
		h = (h ^ uint64(t.C)) * 1099511628211
		h ^= h >> 29
	}
	return h
}

func (a Lin) negHash() uint64 {
	h := uint64(14695981039346656037)
	for _, t := range a.T {
		h = (h ^ uint64(t.S)) * 1099511628211
		h = (h ^ uint64(-t.C)) * 1099511628211
		h ^= h >> 29
	}
	return h
}

func sameTerms(a, b []Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func negTerms(a, b []Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].S != b[i].S || a[i].C != -b[i].C {
			return false
		}
	}
	return true
}

// add inserts c>=0; reports false if the set became trivially infeasible.
func (s *conSet) add(c Lin) {
	c = c.tighten()
	if c.IsConst() {
		if c.K < 0 {
			s.bad = true
		}
		return
	}
	if tooBig(c) {
		return // dropping a constraint is sound (fewer facts)
	}
	if s.idx == nil {
		// small sets: linear search
		for i := range s.c {
			if sameTerms(s.c[i].T, c.T) {
				if c.K < s.c[i].K {
					s.c[i] = c
				}
				return
			}
		}
		s.c = append(s.c, c)
		if len(s.c) > 24 {
			s.idx = make(map[uint64][]int32, 64)
			for i := range s.c {
				h := s.c[i].hash()
				s.idx[h] = append(s.idx[h], int32(i))
			}
		}
		return
	}
	h := c.hash()
	for _, i := range s.idx[h] {
		if sameTerms(s.c[i].T, c.T) {
			if c.K < s.c[i].K {
				s.c[i] = c
			}
			return
		}
	}
	s.idx[h] = append(s.idx[h], int32(len(s.c)))
	s.c = append(s.c, c)
}

// infeasible reports whether the conjunction of c>=0 has no (rational, gcd
// tightened) solution.  false means "maybe feasible".
func infeasible(cs []Lin) bool {
	s := &conSet{c: make([]Lin, 0, len(cs))}
	for _, c := range cs {
		s.add(c)
		if s.bad {
			return true
		}
	}
	type pn struct {
		s    Sym
		p, n int
	}
	var cnt []pn
	for {
		if len(s.c) == 0 {
			return false
		}
		// equality substitution
		if sym, e, ok := findEq(s); ok {
			n := &conSet{c: make([]Lin, 0, len(s.c))}
			for _, c := range s.c {
				if c.coef(sym) == 0 {
					n.add(c)
				} else {
					n.add(c.subst(sym, e))
				}
				if n.bad {
					return true
				}
			}
			s = n
			continue
		}
		// pick the cheapest variable
		cnt = cnt[:0]
		for _, c := range s.c {
		terms:
			for _, t := range c.T {
				for i := range cnt {
					if cnt[i].s == t.S {
						if t.C > 0 {
							cnt[i].p++
						} else {
							cnt[i].n++
						}
						continue terms
					}
				}
				if t.C > 0 {
					cnt = append(cnt, pn{t.S, 1, 0})
				} else {
					cnt = append(cnt, pn{t.S, 0, 1})
				}
			}
		}
		var best Sym
		bestCost := 1 << 30
		for _, x := range cnt {
			cost := x.p*x.n - x.p - x.n
			if cost < bestCost || cost == bestCost && x.s < best {
				bestCost, best = cost, x.s
			}
		}
		n := &conSet{c: make([]Lin, 0, len(s.c))}
		var pos, neg []Lin
		for _, c := range s.c {
			switch k := c.coef(best); {
			case k > 0:
				pos = append(pos, c)
			case k < 0:
				neg = append(neg, c)
			default:
				n.add(c)
			}
		}
		if len(pos)*len(neg)+len(n.c) > 400 {
			return false
		}
		for _, p := range pos {
			for _, q := range neg {
				a, b := p.coef(best), -q.coef(best)
				g := gcd64(a, b)
				n.add(p.Mul(b / g).Add(q.Mul(a / g)))
				if n.bad {
					return true
				}
			}
		}
		s = n
	}
}

// findEq looks for a pair c>=0, -c>=0 with a unit coefficient.
func findEq(s *conSet) (Sym, Lin, bool) {
	for ci, c := range s.c {
		found := false
		if s.idx == nil {
			for i := ci + 1; i < len(s.c); i++ {
				if s.c[i].K == -c.K && negTerms(s.c[i].T, c.T) {
					found = true
					break
				}
			}
		} else {
			for _, i := range s.idx[c.negHash()] {
				if s.c[i].K == -c.K && negTerms(s.c[i].T, c.T) {
					found = true
					break
				}
			}
		}
		if !found {
			continue
		}
		for _, t := range c.T {
			if t.C == 1 || t.C == -1 {
				// t.C*S + rest = 0  =>  S = -t.C*rest
				rest := c.addMul(linS(t.S), -t.C)
				return t.S, rest.Mul(-t.C), true
			}
		}
	}
	return 0, Lin{}, false
}

const maxRelated = 60

// related returns the constraints connected to the symbols of goal, nearest
// first, up to a limit (fewer facts are sound).
func related(cs []Lin, goal Lin) []Lin {
	seen := make(map[Sym]bool, 32)
	for _, t := range goal.T {
		seen[t.S] = true
	}
	used := make([]bool, len(cs))
	var out []Lin
	for {
		n0 := len(out)
		for i, c := range cs {
			if used[i] {
				continue
			}
			for _, t := range c.T {
				if seen[t.S] {
					used[i] = true
					out = append(out, c)
					break
				}
			}
		}
		if len(out) == n0 || len(out) > maxRelated {
			return out
		}
		for _, c := range out[n0:] {
			for _, t := range c.T {
				seen[t.S] = true
			}
		}
	}
}

func entails(cs []Lin, goal Lin) bool {
	if goal.IsConst() {
		return goal.K >= 0
	}
	goal = goal.tighten()
	for i := range cs {
		if cs[i].K <= goal.K && sameTerms(cs[i].T, goal.T) {
			return true
		}
	}
	// every symbol of the goal must be bounded on the right side
	for _, t := range goal.T {
		ok := false
	look:
		for i := range cs {
			for _, u := range cs[i].T {
				if u.S == t.S && (u.C > 0) == (t.C > 0) {
					ok = true
					break look
				}
			}
		}
		if !ok {
			return false
		}
	}
	rel := related(cs, goal)
	if len(rel) == 0 {
		return false
	}
	rel = append(rel, goal.Neg().AddK(-1))
	return infeasible(rel)
}

func sortSyms(s []Sym) { sort.Slice(s, func(i, j int) bool { return s[i] < s[j] }) }
