package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// C28: incremental search. The entry points of opSearch are interpreted with
// the history search inlined, once per direction and with and without a current
// entry. Prev and Next hand out an element of unknown content that differs from
// the current one; looking for the keyword either finds it or does not.

func checkC28(r *Report) {
	p := load(r, "linux")
	r.Rules = append(r.Rules,
		"a step Prev (searching back) or Next (searching forward) leaves an entry only after the keyword was looked for in it, in the whole entry or, in the entry the search starts at, in all of it on that side of the cursor, and was not found; the walk starts at the current entry and ends with a match or with the last entry",
		"back searches for the last match in an entry, forward for the first, with the configured folding and the keyword as it is now; searching again does not look at or behind the match the cursor is on",
		"a match makes the entry current and shows it once, whole, as edited in this session, with the cursor at the start (back) or end (forward) of the match; without a match neither the line nor the current entry changes",
		"SearchMode remembers the entry it started at, SearchChar adds and SearchBackspace removes one rune of the keyword; ExitSearchMode(true) goes back to that entry and shows it, ExitSearchMode(false) changes neither, both leave search mode with an empty keyword")
	r.Assumes = append(r.Assumes, "IndexAllEx and IndexAllBckEx find the first and last match (C24)", "SetWithIdx shows the text it is given (C22)", "the elements of a list differ and Prev and Next step through them")
	x := newEvRun(r, p, "opSearch", "opHistory", "RuneBuffer", "Config")
	elemT := p.listElemType()
	if elemT == nil {
		r.errf("the history list holds values of several types")
		return
	}
	var pkg string
	for _, f := range p.Funcs {
		if f.Pkg != nil && f.Pkg.Pkg.Name() == "readline" {
			pkg = f.Pkg.Pkg.Path()
		}
	}
	bck, ok1 := p.termConst(pkg, "S_DIR_BCK")
	fwd, ok2 := p.termConst(pkg, "S_DIR_FWD")
	if !ok1 || !ok2 {
		r.errf("the search directions are not constants of the package")
		return
	}
	changes := p.staticReach(func(f *ssa.Function) bool {
		if recvName(outermost(f)) != "RuneBuffer" {
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if k := fieldKey(fa.X.Type(), fa.Field); k == "RuneBuffer.buf" || k == "RuneBuffer.idx" {
							return true
						}
					}
				}
			}
		}
		return false
	})
	type match struct {
		elem     *Obj
		idx, off Lin
	}
	x.setup = func(e *Eng, rt root) {
		e.maxStates, e.maxRets = 200, 200
		e.pinPtrs = true
		method, variant, _ := strings.Cut(rt.name, " ")
		method = method[strings.LastIndexByte(method, '.')+1:]
		has := func(v string) bool { return strings.Contains(variant, v) }
		dir := fwd
		if has("back") {
			dir = bck
		}
		fresh := method != "SearchMode"
		hits := map[string]match{}
		var S, H, C, B, cur, source *Obj
		var walked [2]*Obj
		var first, entrySource Val
		var data SliceV
		var pos Lin
		var inMode BoolV
		single := func(typ, name string, t types.Type) *Obj {
			if t == nil {
				t = p.namedType(typ)
			}
			o := e.obj(name, t)
			o.Single, o.Distinct = true, true
			return o
		}
		put := func(s *State, o *Obj, path string, v Val) {
			e.store(s, o, path, fieldType(o.Typ, path), v, nil)
		}
		// entry makes o an entry with the given text objects, edited since the last
		// accepted line or not.
		entry := func(s *State, o *Obj, edited bool, name string) {
			it := single("", o.Name+"'s item", deref(elemT))
			put(s, o, ".Value", IfaceV{Dyn: elemT, V: PtrV{Obj: it}})
			v, _ := e.peek(s, H, ".historyVer").(IntV)
			if !edited {
				v.L = v.L.AddK(-1)
			}
			put(s, it, ".Version", v)
			for _, f := range []string{".Tmp", ".Source"} {
				put(s, it, f, e.mat(s, fieldType(it.Typ, f), name+f))
			}
		}
		e.argPre = func(e *Eng, s *State, fn *ssa.Function, args []Val) {
			S, H = single("opSearch", "opSearch", nil), single("opHistory", "opHistory", nil)
			C, B = single("Config", "Config", nil), single("RuneBuffer", "RuneBuffer", nil)
			ct, _ := fieldType(H.Typ, ".current").(*types.Pointer)
			cur = single("", "current entry", ct.Elem())
			walked[0] = single("", "entry stepped to", ct.Elem())
			walked[1] = single("", "edited entry stepped to", ct.Elem())
			source = single("", "entry the search started at", ct.Elem())
			put(s, S, ".history", PtrV{Obj: H})
			put(s, S, ".cfg", PtrV{Obj: C})
			put(s, S, ".buf", PtrV{Obj: B})
			put(s, H, ".cfg", PtrV{Obj: C})
			if has("nothing current") {
				put(s, H, ".current", PtrV{})
			} else {
				put(s, H, ".current", PtrV{Obj: cur})
				entry(s, cur, has("edited"), "current")
			}
			entry(s, walked[0], false, "stored")
			entry(s, walked[1], true, "edited")
			switch method {
			case "SearchMode":
				args[1] = IntV{L: linK(dir)}
			case "ExitSearchMode":
				args[1] = boolK(has("reverting"))
				if has("no start") {
					put(s, S, ".source", PtrV{})
				} else {
					put(s, S, ".source", PtrV{Obj: source})
					entry(s, source, has("edited"), "start")
				}
			}
			if method != "SearchMode" {
				put(s, S, ".dir", IntV{L: linK(dir)})
			}
			first, entrySource = e.peek(s, H, ".current"), e.peek(s, S, ".source")
			data, _ = e.peek(s, S, ".data").(SliceV)
			pos = e.peek(s, B, ".idx").(IntV).L
			inMode, _ = e.peek(s, S, ".inMode").(BoolV)
			s.addCon(pos)
		}
		// shown is what showItem returns for an element.
		shown := func(s *State, el *Obj) (SliceV, bool) {
			iv, ok := e.peek(s, el, ".Value").(IfaceV)
			if !ok {
				return SliceV{}, false
			}
			it, ok := iv.V.(PtrV)
			if !ok || it.Obj == nil {
				return SliceV{}, false
			}
			field := ""
			switch s.truth(e.equalVals(s, nil, e.peek(s, it.Obj, ".Version"), e.peek(s, H, ".historyVer"))) {
			case 1:
				field = ".Tmp"
			case 0:
				field = ".Source"
			}
			if field == "" {
				return SliceV{}, false
			}
			sv, ok := e.peek(s, it.Obj, field).(SliceV)
			return sv, ok
		}
		// entryOf: the element whose text sl is part of, and where.
		entryOf := func(s *State, sl Val) (el *Obj, whole SliceV, off Lin) {
			v, ok := sl.(SliceV)
			if !ok || v.Arr == nil {
				return nil, whole, off
			}
			for _, c := range []*Obj{cur, walked[0], walked[1], source} {
				if w, ok := shown(s, c); ok && w.Arr == v.Arr {
					return c, w, v.Off.Sub(w.Off)
				}
			}
			return nil, whole, off
		}
		extra := func(s *State) Lin {
			if !fresh {
				return Lin{}
			}
			return e.lenOf(s, e.peek(s, S, ".data"), nil)
		}
		e.pre = func(e *Eng, s *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool) {
			switch {
			case name == "(*container/list.Element).Prev" || name == "(*container/list.Element).Next":
				x.met("steps")
				from, _ := args[0].(PtrV)
				if from.Obj == nil || e.isNil(s, from) {
					return nil, false
				}
				want := "Next"
				if dir == bck {
					want = "Prev"
				}
				e.rule(s, at, "walk", "direction", fmt.Sprintf("searching %s the history is walked with %s", variant, shortName(name)), shortName(name) == want)
				ok := s.ghost["no"] == from.Obj.Name && s.ghost["hit"] == ""
				if w, have := shown(s, from.Obj); !ok && have && s.ghost["hit"] == "" {
					// the entry is empty, or nothing of it lies on this side of the cursor
					ok = s.proves(w.Len.Neg()) || from.Obj == cur && want == "Next" && s.proves(pos.Sub(extra(s)).Sub(w.Len))
				}
				e.rule(s, at, "walk", "entry skipped", "an entry is passed over although the keyword was not looked for in it or was found", ok)
				e.rule(s, at, "walk", "start", "the search does not start at the current entry", from.Obj == cur || (from.Obj == walked[0] || from.Obj == walked[1]) && s.ghost["walked"] != "")
				s.setGhost("no", "")
				n := s.fork()
				n.setGhost("end", "1")
				m := s.fork()
				s.setGhost("walked", "stored")
				m.setGhost("walked", "edited")
				entry(s, walked[0], false, e.base(s, at, "stored"))
				entry(m, walked[1], true, e.base(m, at, "edited"))
				return []callRes{{s, PtrV{Obj: walked[0]}}, {m, PtrV{Obj: walked[1]}}, {n, PtrV{}}}, true
			case fn == nil:
				return nil, false
			case recvName(fn) == "Runes" && (fn.Name() == "IndexAllEx" || fn.Name() == "IndexAllBckEx"):
				x.met("searches in an entry")
				want := "IndexAllEx"
				if dir == bck {
					want = "IndexAllBckEx"
				}
				e.rule(s, at, "match", "which", "not the match nearest to the cursor is looked for in an entry", fn.Name() == want)
				e.rule(s, at, "match", "keyword", "what is looked for is not the keyword", sliceKey(e, args[2]) == sliceKey(e, e.peek(s, S, ".data")))
				e.rule(s, at, "match", "folding", "the configured case folding is not used", sameVal(args[3], e.peek(s, C, ".HistorySearchFold")))
				el, whole, off := entryOf(s, args[1])
				if el == nil || off.K != 0 && off.IsConst() && off.K < 0 {
					e.rule(s, at, "match", "text", "the keyword is looked for in something else than an entry as it is shown", false)
					return nil, false
				}
				hay := args[1].(SliceV)
				end := off.Add(hay.Len)
				ok := s.provesEq(off, Lin{}) && s.provesEq(hay.Len, whole.Len)
				if el == cur {
					ok = false
					if dir == bck {
						ok = s.provesEq(off, Lin{}) && (s.provesEq(end, whole.Len) || s.proves(end.Sub(pos).Sub(extra(s))))
						if !fresh {
							ok = ok && s.proves(pos.Sub(end))
						}
					} else {
						ok = s.provesEq(end, whole.Len) && (s.provesEq(off, Lin{}) || s.proves(pos.Sub(extra(s)).Sub(off)))
						if !fresh {
							ok = ok && s.proves(off.Sub(pos))
						}
					}
				}
				e.rule(s, at, "match", "range", "the keyword is not looked for in exactly the part of the entry that is to be searched", ok)
				idx := e.freshInt(s, at, "match")
				n := s.fork()
				n.setGhost("no", el.Name)
				key := fmt.Sprintf("%s in %s at %s", el.Name, hay.Arr.Name, e.str(off))
				hits[key] = match{el, idx, off}
				s.setGhost("hit", key)
				s.addCon(idx)
				s.addCon(hay.Len.Sub(idx).Sub(e.lenOf(s, args[2], at)))
				return []callRes{{s, IntV{L: idx}}, {n, IntV{L: linK(-1)}}}, true
			case recvName(fn) == "RuneBuffer" && fn.Parent() == nil:
				switch {
				case fn.Name() == "Pos":
					return one(s, e.peek(s, B, ".idx")), true
				case fn.Name() == "Len":
					return one(s, IntV{L: e.lenOf(s, e.peek(s, B, ".buf"), at)}), true
				case fn.Name() == "SetWithIdx" || fn.Name() == "Set":
					x.met("entries shown")
					text := args[len(args)-1]
					el, whole, off := entryOf(s, text)
					full := el != nil && s.provesEq(off, Lin{}) && s.provesEq(e.lenOf(s, text, at), whole.Len)
					at0 := whole.Len
					if fn.Name() == "SetWithIdx" {
						at0 = args[1].(IntV).L
					}
					e.rule(s, at, "show", "twice", "the line is replaced more than once", s.ghost["shown"] == "")
					if method == "ExitSearchMode" {
						e.rule(s, at, "show", "start entry", "the line shown is not the entry the search started at", full && el == source && s.provesEq(at0, whole.Len))
						s.setGhost("shown", "1")
						return one(s, nil), true
					}
					m, hit := hits[s.ghost["hit"]]
					e.rule(s, at, "show", "entry", "the line shown is not the entry with the match", full && hit && el == m.elem)
					if hit {
						c := m.idx.Add(m.off)
						if dir != bck {
							c = c.Add(e.lenOf(s, e.peek(s, S, ".data"), at))
						}
						e.rule(s, at, "show", "cursor", "the cursor is not placed on the match", s.provesEq(at0, c))
					}
					s.setGhost("shown", "1")
					return one(s, nil), true
				case changes[fn]:
					e.rule(s, at, "show", fn.Name(), "searching changes the line with "+fn.Name(), false)
				}
				return e.opaqueRes(s, at, fn, name, fn.Signature, args, nil), true
			}
			return nil, false
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			x.met("exits checked")
			now, _ := e.peek(s, H, ".current").(PtrV)
			f0, _ := first.(PtrV)
			same := now.Obj == f0.Obj && (now.Obj != nil || e.isNil(s, now))
			d, _ := e.peek(s, S, ".data").(SliceV)
			if method == "ExitSearchMode" {
				src, _ := entrySource.(PtrV)
				if has("reverting") {
					e.rule(s, at, "exit", "current entry", "cancelling the search does not go back to the entry it started at", now.Obj == src.Obj)
					e.rule(s, at, "exit", "line", "cancelling the search does not show the entry it started at", (s.ghost["shown"] != "") == (src.Obj != nil))
				} else {
					e.rule(s, at, "exit", "current entry", "leaving the search changes the current entry", same)
					e.rule(s, at, "exit", "line", "leaving the search changes the line", s.ghost["shown"] == "")
				}
				in, _ := e.peek(s, S, ".inMode").(BoolV)
				e.rule(s, at, "exit", "mode", "search mode stays on", s.truth(in) == 0)
				e.rule(s, at, "exit", "keyword", "the keyword is kept for the next search", s.proves(d.Len.Neg()))
				e.rule(s, at, "exit", "start", "the entry the search started at is kept", e.isNil(s, e.peek(s, S, ".source")))
				return
			}
			if m, hit := hits[s.ghost["hit"]]; hit {
				e.rule(s, at, "result", "current entry", "the entry with the match does not become the current one", now.Obj == m.elem)
				e.rule(s, at, "result", "line", "the entry with the match is not shown", s.ghost["shown"] != "")
			} else {
				e.rule(s, at, "result", "no match", "the current entry or the line changes although nothing matched", same && s.ghost["shown"] == "")
				must := !s.proves(d.Len.Neg())
				switch method {
				case "SearchMode":
					must = must && s.truth(inMode) != 0 && s.truth(v.(BoolV)) != 0
				case "SearchBackspace":
					must = must && !s.proves(data.Len.Neg())
				}
				e.rule(s, at, "result", "given up", "the search ends before every entry was looked at", !must || s.ghost["end"] != "" || f0.Obj == nil)
			}
			switch method {
			case "SearchMode":
				if b, ok := v.(BoolV); ok && s.truth(b) == 0 {
					in, _ := e.peek(s, S, ".inMode").(BoolV)
					e.rule(s, at, "enter", "refused", "search mode changes although it was refused", sameVal(in, inMode) || s.truth(in) == s.truth(inMode) && s.truth(in) >= 0)
					return
				}
				in, _ := e.peek(s, S, ".inMode").(BoolV)
				dv, _ := e.peek(s, S, ".dir").(IntV)
				src, _ := e.peek(s, S, ".source").(PtrV)
				e.rule(s, at, "enter", "mode", "search mode is not on", s.truth(in) == 1)
				e.rule(s, at, "enter", "direction", "the direction is not the one asked for", s.provesEq(dv.L, linK(dir)))
				e.rule(s, at, "enter", "start", "the entry to go back to is not the one the search started at", src.Obj == f0.Obj && (src.Obj != nil || e.isNil(s, src)))
			case "SearchChar":
				e.rule(s, at, "keyword", "added", "the rune is not added to the keyword", s.provesEq(d.Len, data.Len.AddK(1)))
			case "SearchBackspace":
				e.rule(s, at, "keyword", "removed", "not exactly the last rune of the keyword is removed", s.provesEq(d.Len, data.Len.AddK(-1)) || s.proves(data.Len.Neg()) && s.proves(d.Len.Neg()))
			}
		}
	}
	var roots []root
	for _, m := range x.methods("opSearch", "SearchMode", "SearchChar", "SearchBackspace", "ExitSearchMode") {
		var vs []string
		if m.fn.Name() == "ExitSearchMode" {
			vs = []string{"reverting", "reverting, edited", "reverting, no start", "keeping"}
		} else {
			for _, d := range []string{"back", "forward"} {
				vs = append(vs, d, d+", edited", d+", nothing current")
			}
		}
		for _, v := range vs {
			roots = append(roots, root{m.fn, fnName(m.fn) + " " + v})
		}
	}
	x.run(roots...)
	r.floor("steps", 2)
	r.floor("searches in an entry", 2)
	r.floor("entries shown", 2)
	r.floor("exits checked", 10)
}

func init() { checks["C28"] = checkC28 }
