package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	GOOS  string
	Pkgs  []*packages.Package
	Prog  *ssa.Program
	Main  *ssa.Package
	Runes *ssa.Package
	Fset  *token.FileSet
	Funcs []*ssa.Function // every function of the module with a body, closures included
	inMod map[*ssa.Package]bool

	cg      *callgraph.Graph
	gstores []gstore

	listTyp     types.Type
	listTypDone bool
	fixed       map[string]bool // Type.field: unexported, stored only while the object is built
	closed      []types.Type    // element types of closed channels
}

var progCache = map[string]*Program{}

// load type-checks the module and builds SSA for one operating system.
func load(r *Report, goos string) *Program {
	if p := progCache[goos]; p != nil {
		return p
	}
	env := append([]string{}, os.Environ()...)
	env = append(env, "GOOS="+goos, "GOARCH=amd64", "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repoDir, Env: env}
	pkgs, err := packages.Load(cfg, ".", "./runes")
	if err != nil {
		panic(fmt.Sprintf("cannot load %s for %s: %v", repoDir, goos, err))
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			panic(fmt.Sprintf("%s does not type-check for %s: %v", p.PkgPath, goos, e))
		}
	}
	prog, ps := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.BareInits&0)
	prog.Build()
	p := &Program{GOOS: goos, Pkgs: pkgs, Prog: prog, Fset: prog.Fset, inMod: map[*ssa.Package]bool{}}
	for _, sp := range ps {
		if sp == nil {
			continue
		}
		p.inMod[sp] = true
		switch sp.Pkg.Name() {
		case "readline":
			p.Main = sp
		case "runes":
			p.Runes = sp
		}
	}
	if p.Main == nil || p.Runes == nil {
		panic("packages readline and runes not found")
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil || !p.inModule(fn) {
			continue
		}
		p.Funcs = append(p.Funcs, fn)
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if fnName(a) != fnName(b) {
			return fnName(a) < fnName(b)
		}
		return a.Pos() < b.Pos()
	})
	p.fixed = p.fixedFields()
	progCache[goos] = p
	return p
}

func (p *Program) inModule(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return p.inMod[f.Pkg]
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return p.inMod[o.Pkg]
		}
		if f.Synthetic != "" && f.Object() != nil && f.Object().Pkg() != nil {
			for sp := range p.inMod {
				if sp.Pkg == f.Object().Pkg() {
					return true
				}
			}
			return false
		}
	}
	return false
}

// isSource reports whether fn was written by hand (not a wrapper or init).
func isSource(fn *ssa.Function) bool {
	return fn.Synthetic == "" && fn.Blocks != nil
}

// fnName is a stable readable name: (*RuneBuffer).Kill, (*RuneBuffer).Kill$1, runes.Index.
func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	if par := fn.Parent(); par != nil {
		n := fn.Name()
		if i := strings.LastIndex(n, "$"); i >= 0 {
			n = n[i:]
		}
		return fnName(par) + n
	}
	pre := ""
	if fn.Pkg != nil && fn.Pkg.Pkg.Name() != "readline" {
		pre = fn.Pkg.Pkg.Name() + "."
	}
	if recv := fn.Signature.Recv(); recv != nil {
		t := types.TypeString(recv.Type(), func(*types.Package) string { return "" })
		if strings.HasPrefix(t, "*") {
			t = "(" + t + ")"
		}
		return pre + t + "." + fn.Name()
	}
	return pre + fn.Name()
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	po := p.Fset.Position(ps)
	rel, err := filepath.Rel(repoDir, po.Filename)
	if err != nil {
		rel = po.Filename
	}
	return fmt.Sprintf("%s:%d", rel, po.Line)
}

// instrPos finds a usable position for an instruction.
func (p *Program) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	if in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	b := in.Block()
	if b != nil {
		at := -1
		for i, x := range b.Instrs {
			if x == in {
				at = i
			}
		}
		for i := at; i >= 0; i-- {
			if b.Instrs[i].Pos().IsValid() {
				return p.pos(b.Instrs[i].Pos())
			}
		}
		for i := at; i < len(b.Instrs); i++ {
			if i >= 0 && b.Instrs[i].Pos().IsValid() {
				return p.pos(b.Instrs[i].Pos())
			}
		}
	}
	return p.pos(in.Parent().Pos())
}

func (p *Program) callGraph() *callgraph.Graph {
	if p.cg == nil {
		all := map[*ssa.Function]bool{}
		for fn := range ssautil.AllFunctions(p.Prog) {
			all[fn] = true
		}
		p.cg = vta.CallGraph(all, cha.CallGraph(p.Prog))
	}
	return p.cg
}

// calleesOf resolves a dynamic call through the type-flow call graph.
func (p *Program) calleesOf(call ssa.CallInstruction) []*ssa.Function {
	n := p.callGraph().Nodes[call.Parent()]
	if n == nil {
		return nil
	}
	var out []*ssa.Function
	for _, e := range n.Out {
		if e.Site == call && e.Callee != nil && e.Callee.Func != nil {
			out = append(out, e.Callee.Func)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

// method finds a method of a named type of package readline.
func (p *Program) method(typ, name string) *ssa.Function {
	o := p.Main.Pkg.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	for _, t := range []types.Type{types.NewPointer(o.Type()), o.Type()} {
		ms := p.Prog.MethodSets.MethodSet(t)
		if sel := ms.Lookup(p.Main.Pkg, name); sel != nil {
			return p.Prog.MethodValue(sel)
		}
	}
	return nil
}

func (p *Program) fn(name string) *ssa.Function { return p.Main.Func(name) }

func deref(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if pt, ok := t.(*types.Pointer); ok {
		t = types.Unalias(pt.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// typeName is pkg.Name for named types outside readline and Name inside.
func typeName(t types.Type) string {
	n := namedOf(t)
	if n == nil {
		return types.TypeString(t, func(*types.Package) string { return "" })
	}
	if n.Obj().Pkg() == nil || n.Obj().Pkg().Name() == "readline" {
		return n.Obj().Name()
	}
	return n.Obj().Pkg().Name() + "." + n.Obj().Name()
}

// fieldOf names the field selected by a FieldAddr / Field instruction.
func fieldOf(x types.Type, idx int) (owner string, name string) {
	st, ok := deref(x).Underlying().(*types.Struct)
	if !ok {
		return "?", "?"
	}
	return typeName(deref(x)), st.Field(idx).Name()
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return typeName(c.Value.Type()) + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return extName(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return ""
}

// extName names any function, with its package: bytes.Repeat, (*sync.Mutex).Lock.
func extName(f *ssa.Function) string {
	if f.Object() != nil {
		if o, ok := f.Object().(*types.Func); ok {
			s := o.FullName()
			s = strings.ReplaceAll(s, "github.com/chzyer/readline/runes.", "runespkg.")
			s = strings.ReplaceAll(s, "github.com/chzyer/readline.", "")
			return s
		}
	}
	return fnName(f)
}

func (p *Program) fixedFields() map[string]bool {
	bad := map[string]bool{}
	all := map[string]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				o, f := fieldOf(fa.X.Type(), fa.Field)
				k := o + "." + f
				all[k] = true
				if token.IsExported(f) && token.IsExported(o) {
					bad[k] = true
				}
				if _, isA := fa.X.(*ssa.Alloc); isA {
					continue
				}
				for _, u := range *fa.Referrers() {
					switch u := u.(type) {
					case *ssa.UnOp:
					case *ssa.DebugRef:
					default:
						_ = u
						bad[k] = true
					}
				}
			}
			for _, in := range b.Instrs {
				// whole-object stores
				if st, ok := in.(*ssa.Store); ok {
					if _, isS := st.Val.Type().Underlying().(*types.Struct); isS {
						if _, isA := st.Addr.(*ssa.Alloc); !isA {
							bad[typeName(st.Val.Type())+".*"] = true
						}
					}
				}
			}
		}
	}
	out := map[string]bool{}
	for k := range all {
		if !bad[k] && !bad[k[:strings.IndexByte(k, '.')]+".*"] {
			out[k] = true
		}
	}
	return out
}
