package main

// C19: what one side of the remote protocol encodes the other decodes.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C19"] = checkC19 }

// stripConv undoes a conversion between integer types of which it is not known that
// it keeps the value.
func (e *Eng) stripConv(l Lin) string { return e.stripTo(l, 16) }

// stripTo undoes conversions that keep at least the low bits.
func (e *Eng) stripTo(l Lin, bits int64) string {
	for len(l.T) == 1 && l.K == 0 && l.T[0].C == 1 {
		c, ok := e.convOf[l.T[0].S]
		if !ok || c.bits < bits {
			break
		}
		l = c.from
	}
	return l.Key()
}

// wireField: an integer of w bytes, or the bytes of a slice (w < 0), at an offset.
type wireField struct {
	off, w int64
	order  string
	val    string // key of the value, or of the slice
	lin    Lin
}

// byHand is the big-endian number that was put byte by byte into a slice of two.
func byHand(e *Eng, s *State, sv SliceV) *wireField {
	if sv.Arr == nil || !sv.Off.IsConst() || !s.provesEq(sv.Len, linK(2)) {
		return nil
	}
	var b [2]Lin
	for i := range b {
		v, ok := e.load(s, sv.Arr, "["+sv.Off.AddK(int64(i)).Key()+"]", types.Typ[types.Byte], nil).(IntV)
		if !ok {
			return nil
		}
		b[i] = v.L
	}
	f := &wireField{w: 2, order: "BE", lin: linK(-1)}
	if b[0].IsConst() && b[1].IsConst() {
		f.lin = linK(b[0].K<<8 | b[1].K)
		return f
	}
	low := e.stripTo(b[1], 8)
	for n, op := range e.bitOps {
		if op.op == token.SHR && op.b.IsConst() && op.b.K == 8 && linS(n).Key() == e.stripTo(b[0], 8) && e.stripConv(op.a) == low {
			f.val = low
			return f
		}
	}
	return nil
}

// wire keeps, outside of the states, what the ghost "lay <obj>" of a buffer refers to.
type wire struct {
	fields []wireField
}

func (w *wire) add(f wireField) string {
	for i, g := range w.fields {
		if g.off == f.off && g.w == f.w && g.order == f.order && g.val == f.val {
			return strconv.Itoa(i)
		}
	}
	w.fields = append(w.fields, f)
	return strconv.Itoa(len(w.fields) - 1)
}

func (w *wire) get(s *State, buf string) []wireField {
	var out []wireField
	for _, i := range strings.Fields(s.ghost["lay "+buf]) {
		n, err := strconv.Atoi(i)
		if err != nil {
			out = append(out, wireField{off: -1})
			continue
		}
		out = append(out, w.fields[n])
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].off < out[j].off })
	return out
}

func (w *wire) put(s *State, buf string, f wireField) {
	s.setGhost("lay "+buf, strings.TrimSpace(s.ghost["lay "+buf]+" "+w.add(f)))
}

// end is the offset behind the last field, -1 when that is not constant.
func (w *wire) end(s *State, buf string) int64 {
	n := int64(0)
	for _, f := range w.get(s, buf) {
		if f.w < 0 {
			return -1
		}
		if f.off+f.w > n {
			n = f.off + f.w
		}
	}
	return n
}

func intWidth(t types.Type) int64 {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32:
			return 4
		case types.Int64, types.Uint64:
			return 8
		}
	}
	return 0
}

func orderOf(v Val) string {
	if i, ok := v.(IfaceV); ok && i.Dyn != nil {
		return orderName(typeName(i.Dyn))
	}
	return "?"
}

func orderName(n string) string {
	switch {
	case strings.Contains(n, "bigEndian"):
		return "BE"
	case strings.Contains(n, "littleEndian"):
		return "LE"
	}
	return "?"
}

func ifaceVal(v Val) (types.Type, Val) {
	if i, ok := v.(IfaceV); ok {
		return i.Dyn, i.V
	}
	return nil, v
}

// binFn splits the name of a byte order method: PutUint16 -> "Put", 2.
func binFn(name string) (kind string, w int64, order string) {
	if !strings.HasPrefix(name, "(encoding/binary.") {
		return
	}
	order = orderName(name)
	m := shortName(name)
	for _, k := range []string{"Put", "Append", ""} {
		if strings.HasPrefix(m, k+"Uint") {
			n, _ := strconv.Atoi(strings.TrimPrefix(m, k+"Uint"))
			return k + "Uint", int64(n / 8), order
		}
	}
	return
}

// encode follows the bytes put into buffers and slices.
func (w *wire) encode(e *Eng, s *State, ev *Event) {
	n := ev.Name
	off := func(v Val) (string, int64) {
		sv, ok := v.(SliceV)
		if !ok || sv.Arr == nil {
			return "", -1
		}
		if !sv.Off.IsConst() {
			return sv.Arr.Name, -1
		}
		return sv.Arr.Name, sv.Off.K
	}
	data := func(buf string, at int64, v Val) {
		if at < 0 {
			s.setGhost("lay "+buf, "?")
			return
		}
		if o, k := off(v); o != "" && s.ghost["lay "+o] != "" && k == 0 {
			for _, f := range w.get(s, o) {
				f.off += at
				w.put(s, buf, f)
			}
			return
		}
		w.put(s, buf, wireField{off: at, w: -1, val: sliceKey(e, v)})
	}
	switch {
	case ev.Kind == "ret" && n == "bytes.NewBuffer":
		if sv, ok := ev.Args[0].(SliceV); ok && !(sv.Len.IsConst() && sv.Len.K == 0) {
			if o, k := off(sv); o != "" && k == 0 && s.ghost["lay "+o] != "" {
				s.setGhost("lay "+objName(ev.Val), s.ghost["lay "+o])
			} else {
				data(objName(ev.Val), 0, sv)
			}
		}
	case ev.Kind == "call" && n == "encoding/binary.Write":
		dst := objName(ev.Args[0])
		t, v := ifaceVal(ev.Args[2])
		at := w.end(s, dst)
		if _, ok := v.(SliceV); ok {
			data(dst, at, v)
			return
		}
		w.value(e, s, dst, at, orderOf(ev.Args[1]), t, v)
	case ev.Kind == "call" && (n == "(*bytes.Buffer).Write" || n == "(*bytes.Buffer).WriteString"):
		dst := objName(ev.Args[0])
		data(dst, w.end(s, dst), ev.Args[1])
	case ev.Kind == "ret" && n == "(*bytes.Buffer).Bytes":
		if o, _ := off(ev.Val); o != "" {
			s.setGhost("lay "+o, s.ghost["lay "+objName(ev.Args[0])])
		}
	case ev.Kind == "copy":
		if o, k := off(ev.Args[0]); o != "" {
			data(o, k, ev.Args[1])
		}
	case ev.Kind == "append":
		src, _ := off(ev.Args[0])
		dst, _ := off(ev.Val)
		if dst == "" || dst == src {
			return
		}
		if src != "" {
			s.setGhost("lay "+dst, s.ghost["lay "+src])
		} else {
			s.setGhost("lay "+dst, "")
		}
		data(dst, w.end(s, dst), ev.Args[1])
	}
	if k, wd, ord := binFn(n); k == "PutUint" && ev.Kind == "call" {
		if o, at := off(ev.Args[1]); o != "" {
			w.value(e, s, o, at, ord, nil, ev.Args[2], wd)
		}
	} else if k == "AppendUint" && ev.Kind == "ret" {
		src, _ := off(ev.Args[1])
		if dst, _ := off(ev.Val); dst != "" {
			if src != "" {
				s.setGhost("lay "+dst, s.ghost["lay "+src])
			}
			w.value(e, s, dst, w.end(s, dst), ord, nil, ev.Args[2], wd)
		}
	}
}

func (w *wire) value(e *Eng, s *State, dst string, at int64, order string, t types.Type, v Val, width ...int64) {
	if at < 0 {
		s.setGhost("lay "+dst, "?")
		return
	}
	f := wireField{off: at, order: order}
	if len(width) > 0 {
		f.w = width[0]
	} else if t != nil {
		f.w = intWidth(t)
	}
	iv, ok := v.(IntV)
	if !ok || f.w == 0 {
		s.setGhost("lay "+dst, "?")
		return
	}
	f.lin, f.val = iv.L, e.stripTo(iv.L, f.w*8)
	w.put(s, dst, f)
}

func (w *wire) String(s *State, buf string) string {
	var p []string
	for _, f := range w.get(s, buf) {
		if f.w < 0 {
			p = append(p, fmt.Sprintf("%d: bytes", f.off))
		} else {
			p = append(p, fmt.Sprintf("%d: %d bytes %s", f.off, f.w, f.order))
		}
	}
	return strings.Join(p, ", ")
}

func checkC19(r *Report) {
	p := load(r, "linux")
	r.Rules = append(r.Rules,
		"Message.WriteTo hands the writer, in one write, exactly: 4 bytes big endian len(Data)+2, 2 bytes big endian Type, the bytes of Data",
		"ReadMessage takes from the stream, with reads that cannot be short, in the same order 4 and 2 big-endian bytes and length-2 bytes, and a message returned without an error carries exactly these as Type and Data, every read error being nil",
		"the client's first two frames are the terminal report and the width report, sent before it starts a goroutine, registers a callback or reads; the server accepts the connection only after it received them in this order",
		"reports carry one 16-bit big-endian number, 1 or 0 for the terminal report; the server reads the same and stores it",
		"every frame written to the connection is written with one lock common to all frames of that side, or by a single goroutine started once",
		"each side's handler of a received message has the effect of that message before the next is read; a reader is woken after, not before, the data is stored; what the API methods send has their type and data")
	r.Assumes = append(r.Assumes, "len(Data) fits 31 bits", "binary.Read, io.ReadFull and bytes.Buffer behave as documented")
	c19encode(r, p)
	c19decode(r, p)
	c19side(r, p, "RemoteCli")
	c19side(r, p, "RemoteSvr")
	c19order(r, p)
	c19handlers(r, p)
}

const (
	mData = iota
	mWidth
	mWidthReport
	mTTYReport
	mRaw
	mExitRaw
	mEOF
)

var msgNames = []string{"T_DATA", "T_WIDTH", "T_WIDTH_REPORT", "T_ISTTY_REPORT", "T_RAW", "T_ERAW", "T_EOF"}

func msgConst(p *Program, i int) int64 {
	if c, ok := p.Main.Pkg.Scope().Lookup(msgNames[i]).(*types.Const); ok {
		n, _ := strconv.ParseInt(c.Val().ExactString(), 10, 64)
		return n
	}
	return -1
}

func c19encode(r *Report, p *Program) {
	x := newEvRun(r, p)
	x.setup = func(e *Eng, rt root) {
		w := &wire{}
		var typ, ln Lin
		var dataKey, sink string
		e.argPre = func(e *Eng, s *State, fn *ssa.Function, args []Val) {
			o, _ := dynObj(args[0])
			if o == nil {
				return
			}
			if sv, ok := e.peek(s, o, ".Data").(SliceV); ok {
				s.addCon(sv.Len.Neg().AddK(1<<31 - 3))
				ln, dataKey = sv.Len, sliceKey(e, sv)
			}
			if iv, ok := e.peek(s, o, ".Type").(IntV); ok {
				typ = iv.L
			}
			if i, ok := args[1].(IfaceV); ok {
				sink = i.ID
			}
		}
		isSink := func(v Val) bool {
			i, ok := v.(IfaceV)
			return ok && i.ID == sink && sink != ""
		}
		check := func(s *State, at ssa.Instruction, buf string) {
			x.met("frames encoded")
			fs := w.get(s, buf)
			ok := len(fs) == 3 || len(fs) == 2 && s.provesEq(ln, linK(0))
			lay := "the frame is not length, type and data: " + w.String(s, buf)
			if ok {
				ok = fs[0].off == 0 && fs[0].w == 4 && fs[0].order == "BE" && fs[1].off == 4 && fs[1].w == 2 && fs[1].order == "BE" &&
					(len(fs) == 2 || fs[2].off == 6 && fs[2].w < 0)
			}
			e.rule(s, at, "layout", "frame", lay, ok)
			if ok {
				e.rule(s, at, "layout", "length", "the length written is not the length of the data plus 2", s.provesEq(fs[0].lin, ln.AddK(2)))
				e.rule(s, at, "layout", "type", "the type written is not the type of the message", fs[1].val == e.stripConv(typ))
				e.rule(s, at, "layout", "data", "the data written is not the data of the message", len(fs) == 2 || fs[2].val == dataKey)
			}
			e.rule(s, at, "one write", "frame", "a frame is written by more than one write", s.ghost["written"] == "")
			s.setGhost("written", "1")
		}
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			w.encode(e, s, ev)
			if ev.Kind != "call" {
				return nil
			}
			switch n := ev.Name; {
			case n == "(*bytes.Buffer).WriteTo" && isSink(ev.Args[1]):
				check(s, ev.At, objName(ev.Args[0]))
			case n == "io.Copy" && isSink(ev.Args[0]):
				check(s, ev.At, objName(ev.Args[1]))
			case ev.Fn == nil && strings.HasSuffix(n, "Write") && isSink(ev.Recv):
				check(s, ev.At, sliceID(ev.Args[len(ev.Args)-1]))
			case n == "encoding/binary.Write" && isSink(ev.Args[0]), n == "io.WriteString" && isSink(ev.Args[0]):
				e.rule(s, ev.At, "one write", "frame", "a part of the frame is written on its own", false)
			}
			return nil
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			x.met("exits of WriteTo")
			e.rule(s, at, "one write", "nothing written", "WriteTo may return without an error although nothing was written", s.ghost["written"] != "" || e.isNonNil(s, lastRes(v)))
		}
	}
	x.run(x.methods("Message", "WriteTo")...)
	r.floor("frames encoded", 1)
}

func c19decode(r *Report, p *Program) {
	x := newEvRun(r, p)
	x.setup = func(e *Eng, rt root) {
		type rd struct {
			off, w int64
			order  string
		}
		vals := map[string]Lin{} // "off/w/order" value -> linear expression, by key
		var src string
		e.argPre = func(e *Eng, s *State, fn *ssa.Function, args []Val) {
			if i, ok := args[0].(IfaceV); ok {
				src = i.ID
			}
		}
		isSrc := func(v Val) bool {
			i, ok := v.(IfaceV)
			return ok && i.ID == src && src != ""
		}
		off := func(s *State) int64 {
			if s.ghost["off"] == "" {
				return 0
			}
			n, err := strconv.ParseInt(s.ghost["off"], 10, 64)
			if err != nil {
				return -1
			}
			return n
		}
		got := func(s *State, f rd, l Lin) {
			vals[l.Key()] = l
			s.setGhost(fmt.Sprintf("val %d", f.off), fmt.Sprintf("%d %s %s", f.w, f.order, l.Key()))
		}
		slice := func(s *State, at ssa.Instruction, v Val) {
			sv, ok := v.(SliceV)
			if !ok || sv.Arr == nil {
				return
			}
			o := off(s)
			switch {
			case o < 0:
				e.rule(s, at, "decode", "bytes", "bytes are read after the data of the message", false)
			case sv.Len.IsConst():
				s.setGhost("hdr "+sv.Arr.Name, fmt.Sprint(o-sv.Off.K))
				s.setGhost("off", fmt.Sprint(o+sv.Len.K))
			default:
				s.setGhost("data", fmt.Sprintf("%d %s", o, sv.Arr.Name))
				vals["len "+sv.Arr.Name] = sv.Len
				s.setGhost("off", "end")
			}
		}
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			n := ev.Name
			switch {
			case ev.Kind == "ret" && n == "encoding/binary.Read" && isSrc(ev.Args[0]):
				x.met("reads of the stream")
				s.setGhost("err "+errSym(ev.Val), "1")
				_, v := ifaceVal(ev.Args[2])
				if sv, ok := v.(SliceV); ok {
					slice(s, ev.At, sv)
					return nil
				}
				pv, ok := v.(PtrV)
				if !ok || pv.Obj == nil {
					return nil
				}
				t := pv.Obj.Typ
				if pv.Path != "" {
					t = fieldType(t, pv.Path)
				}
				var fields []string
				var ts []types.Type
				if st, ok := t.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						fields = append(fields, pv.Path+"."+st.Field(i).Name())
						ts = append(ts, st.Field(i).Type())
					}
				} else {
					fields, ts = []string{pv.Path}, []types.Type{t}
				}
				for i, f := range fields {
					o := off(s)
					w := intWidth(ts[i])
					if o < 0 || w == 0 {
						e.rule(s, ev.At, "decode", "field", "cannot tell what is read here", false)
						return nil
					}
					if iv, ok := e.load(s, pv.Obj, f, ts[i], nil).(IntV); ok {
						got(s, rd{o, w, orderOf(ev.Args[1])}, iv.L)
					}
					s.setGhost("off", fmt.Sprint(o+w))
				}
			case ev.Kind == "ret" && (n == "io.ReadFull" || n == "io.ReadAtLeast") && isSrc(ev.Args[0]):
				x.met("reads of the stream")
				s.setGhost("err "+errSym(lastRes(ev.Val)), "1")
				slice(s, ev.At, ev.Args[1])
				if n == "io.ReadAtLeast" {
					m, ok := ev.Args[2].(IntV)
					sv, ok2 := ev.Args[1].(SliceV)
					e.rule(s, ev.At, "decode", "short read", "fewer bytes than the message has may be accepted", ok && ok2 && s.provesEq(m.L, sv.Len))
				}
			case ev.Kind == "call" && ev.Fn == nil && strings.HasSuffix(n, "Read") && isSrc(ev.Recv):
				e.rule(s, ev.At, "decode", "short read", "one Read may return fewer bytes than the message has", false)
			}
			if k, w, ord := binFn(n); k == "Uint" && ev.Kind == "ret" {
				if sv, ok := ev.Args[1].(SliceV); ok && sv.Arr != nil && sv.Off.IsConst() {
					if b := s.ghost["hdr "+sv.Arr.Name]; b != "" {
						base, _ := strconv.ParseInt(b, 10, 64)
						if iv, ok := ev.Val.(IntV); ok {
							got(s, rd{base + sv.Off.K, w, ord}, iv.L)
						}
					}
				}
			}
			return nil
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			t, ok := v.(TupleV)
			if !ok || len(t) != 2 || e.isNonNil(s, t[1]) {
				return
			}
			x.met("messages returned")
			for k := range s.ghost {
				if strings.HasPrefix(k, "err ") {
					e.rule(s, at, "decode", "error", "a message is returned although a read failed", e.symState(s, strings.TrimPrefix(k, "err ")) == 1 || strings.TrimPrefix(k, "err ") == errSym(t[1]) && errSym(t[1]) != "")
				}
			}
			o, _ := dynObj(t[0])
			if o == nil {
				e.rule(s, at, "decode", "nil", "neither a message nor an error is returned", false)
				return
			}
			var length, typ Lin
			f := func(at int64) (w int64, ord string, l Lin, ok bool) {
				p := strings.SplitN(s.ghost[fmt.Sprintf("val %d", at)], " ", 3)
				if len(p) != 3 {
					return
				}
				w, _ = strconv.ParseInt(p[0], 10, 64)
				return w, p[1], vals[p[2]], true
			}
			w, ord, l, ok := f(0)
			e.rule(s, at, "decode", "length", "the first field read is not a 4-byte big-endian length", ok && w == 4 && ord == "BE")
			length = l
			w, ord, l, ok = f(4)
			e.rule(s, at, "decode", "type", "the second field read is not a 2-byte big-endian type", ok && w == 2 && ord == "BE")
			typ = l
			mt, ok1 := e.peek(s, o, ".Type").(IntV)
			e.rule(s, at, "decode", "Type", "the type of the message returned is not the type read", ok1 && e.stripConv(mt.L) == e.stripConv(typ))
			d := s.ghost["data"]
			md, ok2 := e.peek(s, o, ".Data").(SliceV)
			if d == "" {
				e.rule(s, at, "decode", "Data", "a message is returned without its data having been read", ok2 && s.provesEq(length, linK(2)))
				return
			}
			okd := ok2 && md.Arr != nil && d == "6 "+md.Arr.Name
			e.rule(s, at, "decode", "Data", "the data of the message returned is not what was read behind the header", okd)
			// the length may have been converted from an unsigned number
			ln := vals["len "+sliceID(md)]
			okl := okd && s.provesEq(md.Off, linK(0)) && s.provesEq(md.Len, ln)
			e.rule(s, at, "decode", "data length", "the number of data bytes read is not the length minus 2", okl && (s.provesEq(ln, length.AddK(-2)) || e.stripConv(ln.AddK(2)) == e.stripConv(length)))
		}
	}
	x.run(x.methods("", "ReadMessage")...)
	r.floor("messages returned", 1)
}

// sideRoots: what can run on its own in one side: exported functions and methods,
// goroutine bodies and callbacks.
func sideRoots(p *Program, typ string) []root {
	var out []root
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && f.Blocks != nil {
			seen[f] = true
			out = append(out, root{f, fnName(f)})
		}
	}
	for _, f := range p.methodsOf(typ, true) {
		add(f)
	}
	for _, f := range p.goBodies() {
		if recvName(f) == typ || f.Parent() != nil && recvName(f.Parent()) == typ {
			add(f)
		}
	}
	// callbacks
	for _, f := range p.Funcs {
		if f.Parent() != nil && recvName(f.Parent()) == typ {
			add(f)
		}
	}
	return out
}

// frameModel replaces WriteTo: the frame it sends is handed to f.
func frameModel(e *Eng, f func(s *State, at ssa.Instruction, m *Obj, conn Val)) func(e *Eng, s *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool) {
	return func(e *Eng, s *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool) {
		if isMethod(fn, "Message", "WriteTo") {
			o, _ := dynObj(args[0])
			f(s, at, o, args[1])
			return e.opaqueRes(s, at, fn, name, fn.Signature, args, nil), true
		}
		return nil, false
	}
}

func wireLock(v Val) string {
	pv, ok := v.(PtrV)
	if !ok || pv.Obj == nil {
		return "?"
	}
	return typeName(pv.Obj.Typ) + pv.Path
}

// onceGo: fn is only ever started, by one go statement outside of loops in a
// constructor.
func onceGo(p *Program, fn *ssa.Function) bool {
	n := 0
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := c.Common().StaticCallee()
				if callee != fn {
					if mc, ok := c.Common().Value.(*ssa.MakeClosure); !ok || mc.Fn != fn {
						continue
					}
				}
				if _, ok := in.(*ssa.Go); !ok || inLoop(b) || f.Signature.Recv() != nil {
					return false
				}
				n++
			}
		}
	}
	return n == 1
}

func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	todo := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(todo) > 0 {
		c := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if c == b {
			return true
		}
		if !seen[c] {
			seen[c] = true
			todo = append(todo, c.Succs...)
		}
	}
	return false
}

// c19side: frames of one side share a lock.
func c19side(r *Report, p *Program, typ string) {
	x := newEvRun(r, p, typ)
	type site struct {
		at    ssa.Instruction
		locks map[string]bool
		in    string
	}
	var sites []site
	x.setup = func(e *Eng, rt root) {
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			if ev.Kind != "call" {
				return nil
			}
			switch ev.Name {
			case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
				s.setGhost("lock "+wireLock(ev.Args[0]), "1")
			case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
				s.setGhost("lock "+wireLock(ev.Args[0]), "")
			}
			if ev.Fn == nil && strings.HasSuffix(ev.Name, "net.Conn).Write") || ev.Fn == nil && strings.HasSuffix(ev.Name, "Conn.Write") {
				x.mu.Lock()
				if e.dry == 0 {
					sites = append(sites, site{ev.At, locksHeld(s, p, rt.fn), rt.name})
				}
				x.mu.Unlock()
			}
			return nil
		}
		e.pre = frameModel(e, func(s *State, at ssa.Instruction, m *Obj, conn Val) {
			x.mu.Lock()
			if e.dry == 0 {
				sites = append(sites, site{at, locksHeld(s, p, rt.fn), rt.name})
			}
			x.mu.Unlock()
		})
	}
	x.run(sideRoots(p, typ)...)
	common := map[string]bool{}
	for i, t := range sites {
		if i == 0 {
			common = t.locks
			continue
		}
		m := map[string]bool{}
		for l := range common {
			if t.locks[l] {
				m[l] = true
			}
		}
		if len(m) == 0 && len(common) > 0 {
			// name the odd one out
			r.Obligations++
			r.add("interleave", fnName(t.at.Parent()), typ+" frame", p.instrPos(t.at), fmt.Sprintf("this frame is written holding %s, others are written holding %s: they may interleave on the connection", keysOf(t.locks), keysOf(common)), nil)
			return
		}
		common = m
		r.Obligations++
		r.Discharged++
	}
	r.Counts["frame writes of "+typ] += len(sites)
	if len(sites) == 0 {
		r.errf("no frame written by %s was found", typ)
	} else if len(common) == 0 {
		t := sites[0]
		r.Obligations++
		r.add("interleave", fnName(t.at.Parent()), typ+" frame", p.instrPos(t.at), "frames are written without a lock by more than one goroutine: they may interleave on the connection", nil)
	}
}

func keysOf(m map[string]bool) string {
	var k []string
	for n := range m {
		k = append(k, n)
	}
	sort.Strings(k)
	if len(k) == 0 {
		return "nothing"
	}
	return strings.Join(k, ", ")
}

func locksHeld(s *State, p *Program, fn *ssa.Function) map[string]bool {
	m := map[string]bool{}
	for k, v := range s.ghost {
		if strings.HasPrefix(k, "lock ") && v != "" {
			m[strings.TrimPrefix(k, "lock ")] = true
		}
	}
	if onceGo(p, fn) {
		m["goroutine "+fnName(fn)] = true
	}
	return m
}

// c19order: the first two frames.
func c19order(r *Report, p *Program) {
	tty, width := fmt.Sprint(msgConst(p, mTTYReport)), fmt.Sprint(msgConst(p, mWidthReport))
	want := tty + " " + width
	x := newEvRun(r, p, "RemoteCli")
	x.setup = func(e *Eng, rt root) {
		w := &wire{}
		ready := func(s *State, at ssa.Instruction, what string) {
			x.met("points after the reports")
			seq := strings.TrimSpace(s.ghost["seq"])
			e.rule(s, at, "order", what, what+" before the terminal report and then the width report were sent", s.ghost["again"] != "" || strings.HasPrefix(seq, want))
		}
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			w.encode(e, s, ev)
			switch {
			case ev.Kind == "ret" && strings.HasPrefix(ev.Name, "sync/atomic.CompareAndSwap"):
				if b, ok := ev.Val.(BoolV); ok && s.truth(b) < 0 {
					t := s.fork().assume(b, false)
					u := s.assume(b, true)
					var out []*State
					if t != nil {
						t.setGhost("again", "1") // the reports were sent by an earlier call
						out = append(out, t)
					}
					if u != nil {
						out = append(out, u)
					}
					return out
				}
			case ev.Kind == "go":
				ready(s, ev.At, "a goroutine is started")
			case ev.Kind == "call" && ev.Name == "io.Copy":
				ready(s, ev.At, "input is copied")
			case ev.Kind == "call" && (isMethod(ev.Fn, "RemoteCli", "readLoop")):
				ready(s, ev.At, "messages are read")
			case ev.Kind == "call" && strings.HasSuffix(ev.Name, "DefaultOnWidthChanged"):
				ready(s, ev.At, "a width callback is registered")
			}
			return nil
		}
		frame := frameModel(e, func(s *State, at ssa.Instruction, m *Obj, conn Val) {
			if m == nil {
				return
			}
			t, ok := e.peek(s, m, ".Type").(IntV)
			k := "?"
			if ok && t.L.IsConst() {
				k = fmt.Sprint(t.L.K)
			}
			seq := strings.TrimSpace(s.ghost["seq"] + " " + k)
			x.met("client frames in order")
			e.rule(s, at, "order", "frame", "the client sends "+seq+" where the server expects "+want+" first", s.ghost["again"] != "" || strings.HasPrefix(want, seq) || strings.HasPrefix(seq, want+" "))
			if len(strings.Fields(seq)) <= 4 {
				s.setGhost("seq", seq)
			}
			if k == tty || k == width {
				d := e.peek(s, m, ".Data")
				fs := w.get(s, sliceID(d))
				sv, ok := d.(SliceV)
				if f := byHand(e, s, sv); ok && len(fs) == 0 && f != nil {
					fs = append(fs, *f)
				}
				okp := ok && len(fs) == 1 && fs[0].off == 0 && fs[0].w == 2 && fs[0].order == "BE" && s.provesEq(sv.Len, linK(2))
				e.rule(s, at, "payload", "report", "a report does not carry one 2-byte big-endian number: "+w.String(s, sliceID(d)), okp)
				if okp && k == tty {
					c := fs[0].lin
					e.rule(s, at, "payload", "terminal report", "the terminal report is neither 0 nor 1", c.IsConst() && (c.K == 0 || c.K == 1))
					if b := s.ghost["istty"]; b != "" && c.IsConst() {
						e.rule(s, at, "payload", "terminal report", "the terminal report is not what was determined", e.symState(s, b) == int(c.K))
					}
				}
				if okp && k == width {
					e.rule(s, at, "payload", "width report", "the width report is not the screen width", fs[0].val == s.ghost["width"] && fs[0].val != "")
				}
			}
		})
		e.pre = func(e *Eng, s *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool) {
			if isMethod(fn, "RemoteCli", "readLoop") {
				return e.opaqueRes(s, at, fn, name, fn.Signature, args, nil), true
			}
			if fn != nil && (fn.Name() == "GetScreenWidth" || fn.Name() == "DefaultIsTerminal" || fn.Name() == "DefaultOnWidthChanged") {
				rs := e.opaqueRes(s, at, fn, name, fn.Signature, args, nil)
				for _, c := range rs {
					if iv, ok := c.v.(IntV); ok {
						c.st.setGhost("width", e.stripConv(iv.L))
					}
					if b, ok := c.v.(BoolV); ok && b.Op == 's' {
						c.st.setGhost("istty", fmt.Sprint(int(b.S)))
					}
				}
				return rs, true
			}
			return frame(e, s, at, name, fn, args)
		}
	}
	x.run(x.methods("RemoteCli", "ServeBy")...)
	r.floor("client frames in order", 2)
	r.floor("points after the reports", 2)
}

// recvModel replaces ReadMessage: an error, or one message of each type.
func recvModel(e *Eng, kinds []int64, each func(s *State, k int64, m *Obj)) func(s *State, at ssa.Instruction, fn *ssa.Function) []callRes {
	return func(s *State, at ssa.Instruction, fn *ssa.Function) []callRes {
		var out []callRes
		mt := fn.Signature.Results().At(0).Type()
		elem := mt.Underlying().(*types.Pointer).Elem()
		for _, k := range kinds {
			t := s.fork()
			o := e.obj("message "+e.base(t, at, fmt.Sprint("m", k)), elem)
			e.havocObj(t, o, at)
			t.setCell(cellKey{o, ".Type"}, IntV{L: linK(k)})
			each(t, k, o)
			out = append(out, callRes{t, TupleV{PtrV{Obj: o}, IfaceV{Null: true}}})
		}
		rs := e.opaqueRes(s, at, fn, "ReadMessage", fn.Signature, nil, nil)
		for _, c := range rs {
			tv := c.v.(TupleV)
			if st := c.st.assume(e.nilTest(c.st, tv[1], nil), false); st != nil {
				st.setGhost("rx", "error")
				out = append(out, callRes{st, tv})
			}
		}
		return out
	}
}

func c19handlers(r *Report, p *Program) {
	c := func(i int) int64 { return msgConst(p, i) }
	// both read loops, and the handshake
	x := newEvRun(r, p, "RemoteCli", "RemoteSvr")
	var roots []root
	roots = append(roots, x.methods("RemoteSvr", "readLoop")...)
	roots = append(roots, x.methods("RemoteCli", "readLoop")...)
	roots = append(roots, x.methods("", "NewRemoteSvr")...)
	x.setup = func(e *Eng, rt root) {
		e.maxStates = 120
		svr := recvName(rt.fn) == "RemoteSvr"
		shake := rt.fn.Name() == "NewRemoteSvr"
		kinds := []int64{c(mData), c(mEOF), c(mWidthReport), c(mTTYReport), 99}
		if !svr && !shake {
			kinds = []int64{c(mData), c(mRaw), c(mExitRaw), 99}
		}
		done := func(s *State, at ssa.Instruction) {
			k := s.ghost["rx"]
			if k == "" || k == "error" || k == "99" {
				return
			}
			x.met("messages handled")
			n, _ := strconv.ParseInt(k, 10, 64)
			switch {
			case n == c(mData) && !shake:
				e.rule(s, at, "handled", "T_DATA", "received data is dropped or altered", s.ghost["data"] != "")
				if svr {
					e.rule(s, at, "handled", "T_DATA wake", "a blocked reader is not woken after data was received", s.ghost["woken"] != "")
				}
			case n == c(mEOF) && !shake:
				e.rule(s, at, "handled", "T_EOF", "the end of the client's input is not recorded", s.ghost["eof"] != "")
				e.rule(s, at, "handled", "T_EOF wake", "a blocked reader is not woken at the end of the input", s.ghost["woken"] != "")
			case n == c(mWidthReport):
				e.rule(s, at, "handled", "T_WIDTH_REPORT", "a width report has no effect", s.ghost["width"] != "")
			case n == c(mTTYReport):
				e.rule(s, at, "handled", "T_ISTTY_REPORT", "a terminal report has no effect", s.ghost["tty"] != "")
			case n == c(mRaw):
				e.rule(s, at, "handled", "T_RAW", "the request for raw mode has no effect", s.ghost["raw"] == "Enter")
			case n == c(mExitRaw):
				e.rule(s, at, "handled", "T_ERAW", "the request to leave raw mode has no effect", s.ghost["raw"] == "Exit")
			}
		}
		var cur string // the data of the message in flight is message object's field
		_ = cur
		recv := recvModel(e, kinds, func(s *State, k int64, m *Obj) {
			if shake {
				s.setGhost("seq", strings.TrimSpace(s.ghost["seq"]+" "+fmt.Sprint(k)))
			}
			s.setGhost("rx", fmt.Sprint(k))
			for _, g := range []string{"data", "eof", "woken", "width", "tty", "raw", "num"} {
				s.setGhost(g, "")
			}
			if sv, ok := e.peek(s, m, ".Data").(SliceV); ok {
				s.setGhost("msgdata", sliceKey(e, sv))
				if k == c(mTTYReport) || k == c(mWidthReport) {
					s.addCon(sv.Len.AddK(-2))
				}
			}
		})
		e.pre = func(e *Eng, s *State, at ssa.Instruction, name string, fn *ssa.Function, args []Val) ([]callRes, bool) {
			if fn != nil && fn.Name() == "ReadMessage" && fn.Signature.Recv() == nil {
				done(s, at)
				return recv(s, at, fn), true
			}
			if isMethod(fn, "RawMode", "Enter", "Exit") {
				s.setGhost("raw", fn.Name())
				return e.opaqueRes(s, at, fn, name, fn.Signature, args, nil), true
			}
			return nil, false
		}
		isMsg := func(s *State, v Val) bool {
			k := sliceKey(e, v)
			return k != "" && k == s.ghost["msgdata"]
		}
		storeTo := func(s *State, at ssa.Instruction, field string, v Val) []*State {
			iv, _ := v.(IntV)
			if s.ghost["rx"] == "" {
				return nil // nothing received yet
			}
			switch field {
			case ".eof":
				if iv.L.IsConst() && iv.L.K == 1 {
					s.setGhost("eof", "1")
					s.setGhost("woken", "")
				}
			case ".width":
				ok := s.ghost["num"] != "" && e.stripConv(iv.L) == s.ghost["num"]
				x.met("reports decoded")
				e.rule(s, at, "payload", "width", "the width stored is not the 2-byte big-endian number received", ok)
				s.setGhost("width", "1")
			case ".isTerminal":
				x.met("reports decoded")
				ok := iv.L.IsConst() && (iv.L.K == 0 || iv.L.K == 1) && s.ghost["num"] != ""
				if ok {
					n := e.numLin[s.ghost["num"]]
					if iv.L.K == 0 {
						ok = s.provesEq(n, linK(0))
					} else {
						ok = s.proves(n.AddK(-1)) || s.provesEq(n, linK(1)) || s.truth(e.equalVals(s, nil, IntV{L: n}, IntV{L: linK(0)})) == 0
					}
				}
				e.rule(s, at, "payload", "terminal", "the terminal flag stored is not what the report says", ok)
				s.setGhost("tty", "1")
			}
			return nil
		}
		e.numLin = map[string]Lin{}
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			n := ev.Name
			if k, w, ord := binFn(n); k == "Uint" && ev.Kind == "ret" {
				if iv, ok := ev.Val.(IntV); ok && w == 2 && ord == "BE" && isMsgPrefix(s, ev.Args[1]) {
					s.setGhost("num", e.stripConv(iv.L))
					e.numLin[e.stripConv(iv.L)] = iv.L
				}
			}
			switch ev.Kind {
			case "call":
				switch {
				case strings.HasPrefix(n, "sync/atomic.StoreInt32") || strings.HasPrefix(n, "sync/atomic.SwapInt32"):
					if pv, ok := ev.Args[0].(PtrV); ok {
						return storeTo(s, ev.At, pv.Path, ev.Args[1])
					}
				case n == "(*bytes.Buffer).Write" && strings.HasSuffix(objName(ev.Args[0]), ".dataBuf"):
					if isMsg(s, ev.Args[1]) {
						s.setGhost("data", s.ghost["data"]+"1")
						e.rule(s, ev.At, "handled", "T_DATA twice", "received data is delivered twice", s.ghost["data"] == "1")
						s.setGhost("woken", "")
					}
				case n == "(*os.File).Write" && !svr:
					if isMsg(s, ev.Args[1]) {
						s.setGhost("data", s.ghost["data"]+"1")
						e.rule(s, ev.At, "handled", "T_DATA twice", "received data is written twice", s.ghost["data"] == "1")
					}
				case ev.Fn == nil && strings.HasSuffix(n, ".Write") && !svr && len(ev.Args) > 0 && isMsg(s, ev.Args[len(ev.Args)-1]):
					s.setGhost("data", "1")
				}
			case "store":
				if ev.Cell.o != nil && typeName(ev.Cell.o.Typ) == "RemoteSvr" {
					return storeTo(s, ev.At, ev.Cell.path, ev.Val)
				}
			case "send":
				if isChan(ev, "reciveChan") {
					s.setGhost("woken", "1")
				}
			case "select":
				if strings.Contains(ev.Name, "reciveChan") {
					s.setGhost("woken", "1") // a wake-up is pending
				}
			case "go":
				if shake {
					x.met("handshakes")
					done(s, ev.At)
					e.rule(s, ev.At, "order", "handshake", "the server starts its session without a terminal report and then a width report", s.ghost["seq"] == fmt.Sprint(c(mTTYReport), " ", c(mWidthReport)))
				}
			}
			return nil
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			if shake {
				if t, ok := v.(TupleV); ok && e.isNil(s, t[1]) {
					e.rule(s, at, "order", "handshake", "the server accepts a session without a terminal report and then a width report", s.ghost["seq"] == fmt.Sprint(c(mTTYReport), " ", c(mWidthReport)))
				}
				return
			}
			x.met("ends of a read loop")
			e.rule(s, at, "handled", "end of session", "the read loop ends although the connection did not fail", s.ghost["rx"] == "error")
		}
	}
	x.run(roots...)
	r.floor("messages handled", 5)
	r.floor("reports decoded", 2)
	r.floor("handshakes", 1)
	c19wakeCap(r, p)
	c19sends(r, p)
}

func isMsgPrefix(s *State, v Val) bool {
	sv, ok := v.(SliceV)
	if !ok || sv.Arr == nil || !sv.Off.IsConst() || sv.Off.K != 0 {
		return false
	}
	return strings.HasPrefix(s.ghost["msgdata"], sv.Arr.Name+"[")
}

// c19wakeCap: a wake-up that nobody waits for yet is remembered.
func c19wakeCap(r *Report, p *Program) {
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if ow, n := fieldOf(fa.X.Type(), fa.Field); ow != "RemoteSvr" || n != "reciveChan" {
					continue
				}
				mc, ok := st.Val.(*ssa.MakeChan)
				if !ok {
					continue
				}
				r.Obligations++
				k, isC := mc.Size.(*ssa.Const)
				if isC && k.Int64() >= 1 {
					r.Discharged++
					continue
				}
				r.add("handled", fnName(f), "RemoteSvr.reciveChan", p.instrPos(mc), "the channel that wakes a reader has no buffer: a wake-up sent before the reader waits is lost", nil)
			}
		}
	}
}

// c19sends: what the API methods send.
func c19sends(r *Report, p *Program) {
	x := newEvRun(r, p, "RemoteCli", "RemoteSvr")
	type want struct {
		typ int
		arg bool
	}
	table := map[string]want{
		"RemoteCli.Write": {mData, true}, "RemoteCli.Close": {mEOF, false},
		"RemoteSvr.Write": {mData, true}, "RemoteSvr.EnterRawMode": {mRaw, false}, "RemoteSvr.ExitRawMode": {mExitRaw, false},
	}
	var roots []root
	for _, t := range []string{"RemoteCli", "RemoteSvr"} {
		for _, f := range p.methodsOf(t, true) {
			if _, ok := table[t+"."+f.Name()]; ok {
				roots = append(roots, root{f, fnName(f)})
			}
		}
	}
	if len(roots) != len(table) {
		r.errf("only %d of the methods that send messages were found", len(roots))
	}
	x.setup = func(e *Eng, rt root) {
		w := table[recvName(rt.fn)+"."+rt.fn.Name()]
		var arg string
		e.argPre = func(e *Eng, s *State, fn *ssa.Function, args []Val) {
			if w.arg && len(args) > 1 {
				arg = sliceKey(e, args[1])
			}
		}
		check := func(s *State, at ssa.Instruction, m *Obj) {
			if m == nil {
				return
			}
			x.met("messages sent")
			t, ok := e.peek(s, m, ".Type").(IntV)
			e.rule(s, at, "sent", "type", fnName(rt.fn)+" does not send "+msgNames[w.typ], ok && t.L.IsConst() && t.L.K == msgConst(p, w.typ))
			if w.arg {
				d := e.peek(s, m, ".Data")
				e.rule(s, at, "sent", "data", fnName(rt.fn)+" does not send exactly the bytes it was given", sliceKey(e, d) == arg || copyOf(e, d) != "" && strings.HasPrefix(arg, copyOf(e, d)+"["))
			}
			e.rule(s, at, "sent", "once", fnName(rt.fn)+" sends more than one message", s.ghost["sent"] == "")
			s.setGhost("sent", "1")
		}
		e.pre = frameModel(e, func(s *State, at ssa.Instruction, m *Obj, conn Val) { check(s, at, m) })
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			if ev.Kind == "send" && isChan(ev, "writeChan") {
				if o, pa := dynObj(ev.Val); o != nil {
					if m, _ := dynObj(e.peek(s, o, pa+".msg")); m != nil {
						check(s, ev.At, m)
					}
				}
			}
			if ev.Kind == "recv" && isChan(ev, "stopChan") {
				s.setGhost("sent", "stopped")
			}
			return nil
		}
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			bad := v != nil && lastRes(v) != nil && e.isNonNil(s, lastRes(v))
			e.rule(s, at, "sent", "nothing", fnName(rt.fn)+" may return without having sent its message", s.ghost["sent"] != "" || bad)
		}
	}
	x.run(roots...)
	r.floor("messages sent", 5)
	// the server goroutine writes the message it was handed, the hooks are the server's
	y := newEvRun(r, p, "RemoteSvr")
	y.setup = func(e *Eng, rt root) {
		loop := rt.fn.Name() == "writeLoop"
		var got Val
		e.pre = frameModel(e, func(s *State, at ssa.Instruction, m *Obj, conn Val) {
			if !loop {
				return
			}
			y.met("messages forwarded")
			ok := false
			if o, pa := dynObj(got); o != nil {
				x, _ := dynObj(e.peek(s, o, pa+".msg"))
				ok = x != nil && x == m
			}
			e.rule(s, at, "sent", "forward", "the server writes another message than the one it was handed", ok && s.ghost["pend"] == "1")
			s.setGhost("pend", "2")
		})
		e.hook = func(e *Eng, s *State, ev *Event) []*State {
			switch {
			case ev.Kind == "recv" && isChan(ev, "writeChan"):
				got = e.received(s, ev)
				s.setGhost("pend", "1")
			case ev.Kind == "send" && strings.Contains(ev.Name, "reply"):
				e.rule(s, ev.At, "sent", "forward", "a sender is answered before its message was written", s.ghost["pend"] == "2")
				s.setGhost("pend", "")
			}
			return nil
		}
	}
	y.run(y.methods("RemoteSvr", "writeLoop")...)
	r.floor("messages forwarded", 1)
	hooks := map[string]string{"Stdin": "RemoteSvr", "Stdout": "RemoteSvr", "Stderr": "RemoteSvr", "FuncMakeRaw": "EnterRawMode", "FuncExitRaw": "ExitRawMode", "FuncIsTerminal": "IsTerminal", "FuncGetWidth": "GetWidth"}
	z := newEvRun(r, p, "RemoteSvr", "Config")
	z.setup = func(e *Eng, rt root) {
		e.retPost = func(e *Eng, s *State, fn *ssa.Function, at ssa.Instruction, args []Val, v Val) {
			o, _ := dynObj(args[1])
			if o == nil {
				return
			}
			for f, w := range hooks {
				z.met("hooks installed")
				ok := false
				switch v := e.peek(s, o, "."+f).(type) {
				case IfaceV:
					d, _ := dynObj(v)
					ok = d != nil && typeName(d.Typ) == w
				case FuncV:
					ok = v.Fn != nil && (v.Fn.Name() == w+"$bound" || reachesName(v.Fn, w))
				}
				e.rule(s, at, "hooks", "Config."+f, "the configuration of a remote session does not use the server's "+w+" as "+f, ok)
			}
		}
	}
	z.run(z.methods("RemoteSvr", "HandleConfig")...)
}

func reachesName(fn *ssa.Function, name string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && f.Name() == name {
					return true
				}
			}
		}
	}
	return false
}
