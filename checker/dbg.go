package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var dbgJoin = os.Getenv("VP_DBGJ") != ""

func (e *Eng) dbgJoinOut(a, b, out *State, at ssa.Instruction) {
	if !dbgJoin || e.dry > 0 || at == nil {
		return
	}
	var o *Obj
	for k := range out.heap {
		if k.o.Name == "RuneBuffer" && k.path == ".buf" {
			o = k.o
		}
	}
	if o == nil {
		return
	}
	pr := func(n string, s *State) bool {
		l := e.lenOf(s, s.heap[cellKey{o, ".buf"}], nil)
		hit := false
		for _, c := range related(s.cons, l) {
			if strings.Contains(e.str(c), "runelen") {
				fmt.Println("   ", n, e.str(l), "::", e.str(c))
				hit = true
			}
		}
		return hit
	}
	fmt.Println("JOIN", fnName(at.Parent()), e.p.instrPos(at))
	pr("a", a)
	pr("b", b)
	pr("o", out)
}
