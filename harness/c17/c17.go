// Package c17 checks the number of temporaries against peak liveness.
package c17

import (
	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/pass"
	"github.com/mmcloughlin/addchain/zzverif/libir"
	"github.com/mmcloughlin/addchain/zzverif/libscript"
	"github.com/mmcloughlin/addchain/zzverif/nd"
)

func check(w libir.Prog) {
	nd.Assume(w.Used())
	p := w.IR()
	a := pass.Allocator{Input: "in", Output: "out", Format: "t%d"}
	nd.Assert(a.Execute(p) == nil, "allocation succeeds")
	peak := w.Peak()
	nd.Observe("peak", peak)
	if peak > 2 {
		nd.Reach("several live values")
	}
	nd.Assert(len(p.Temporaries) <= peak, "temporaries do not exceed the peak number of live values")
}

// Small: every program of the given number of instructions.
func Small() {
	check(libir.Prog(nil).Symbolic(1+nd.Choose("n", nd.Param("n")), 2))
}

// Adds: every program of n additions.
func Adds() {
	check(libir.Prog(nil).Adds(nd.Param("n")))
}

// Pressure: live values that are consumed in some order around arbitrary
// instructions.
func Pressure() {
	live := nd.Param("live")
	shape := nd.Choose("shape", 3)
	var w libir.Prog
	for k := 0; k < live; k++ {
		switch shape {
		case 0:
			w = w.Append(libir.Inst{Kind: libir.Add, X: 0, Y: w.Last()})
		case 1:
			w = w.Append(libir.Inst{Kind: libir.Double, X: w.Last()})
		case 2:
			w = w.Append(libir.Inst{Kind: libir.Shift, X: 0, S: k + 2})
		}
	}
	d := w.Defined()
	w = w.Symbolic(nd.Param("n"), 2)
	order := nd.Choose("order", 3)
	for k := 1; k <= live; k++ {
		x := d[k]
		switch order {
		case 1:
			x = d[live+1-k]
		case 2:
			x = d[(2*k)%(live+1)]
		}
		w = w.Append(libir.Inst{Kind: libir.Add, X: x, Y: w.Last()})
	}
	e := w.Defined()
	for k := live + 1; k < len(e)-1 && k <= live+nd.Param("n"); k++ {
		w = w.Append(libir.Inst{Kind: libir.Add, X: e[k], Y: w.Last()})
	}
	check(w)
}

// Waves: the number of live values rises and falls several times, with
// arbitrary operands at arbitrary places.
func Waves() {
	var w libir.Prog
	high := nd.Param("live")
	var stack []int
	for wave := 0; wave < 2; wave++ {
		for k := 0; k < high; k++ {
			x := 0
			if wave > 0 {
				x = w.Last()
			}
			w = w.Append(libir.Inst{Kind: libir.Shift, X: x, S: 2 + k})
			stack = append(stack, w.Last())
		}
		keep := nd.Choose("keep", 3)
		for len(stack) > keep {
			k := nd.Choose("which", 2) * (len(stack) - 1)
			x := stack[k]
			stack = append(append([]int{}, stack[:k]...), stack[k+1:]...)
			w = w.Append(libir.Inst{Kind: libir.Add, X: x, Y: w.Last()})
		}
	}
	for _, x := range stack {
		w = w.Append(libir.Inst{Kind: libir.Add, X: x, Y: w.Last()})
	}
	check(w)
}

// Tall: many live values, consumed from either end or both, several times.
func Tall() {
	var w libir.Prog
	var stack []int
	for wave := 0; wave < nd.Param("waves"); wave++ {
		high := nd.Param("live")
		for k := 0; k < high; k++ {
			i := libir.Inst{Kind: libir.Add, X: 0, Y: w.Last()}
			if wave > 0 {
				i.X = stack[0]
			}
			w = w.Append(i)
			stack = append(stack, w.Last())
		}
		side := nd.Choose("side", 3)
		keep := []int{1, 2, high / 2}[nd.Choose("keep", 3)]
		for len(stack) > keep {
			k := 0
			if side == 1 || side == 2 && len(stack)%2 == 0 {
				k = len(stack) - 1
			}
			x := stack[k]
			stack = append(append([]int{}, stack[:k]...), stack[k+1:]...)
			w = w.Append(libir.Inst{Kind: libir.Add, X: x, Y: w.Last()})
		}
	}
	w = w.Symbolic(nd.Param("n"), 2)
	d := w.Defined()
	for k := len(d) - 1 - nd.Param("n"); k < len(d)-1; k++ {
		w = w.Append(libir.Inst{Kind: libir.Add, X: d[k], Y: w.Last()})
	}
	for _, x := range stack {
		w = w.Append(libir.Inst{Kind: libir.Add, X: x, Y: w.Last()})
	}
	check(w)
}

// Decompiled: every unrolled operation list, through the decompiler.
func Decompiled() {
	n := 1 + nd.Choose("n", nd.Param("n"))
	var p addchain.Program
	for k := 0; k < n; k++ {
		i := nd.Choose("i", k+1)
		j := i + nd.Choose("j", k+1-i)
		p = append(p, addchain.Op{I: i, J: j})
	}
	r, err := acc.Decompile(p)
	nd.Assert(err == nil, "decompiles")
	w, ok := libir.FromIR(r)
	nd.Assert(ok && w.WellFormed(), "decompiled program is well formed")
	check(w)
}

// Words: programs around the sizes where bytes and machine words end.
func Words() {
	r, err := acc.Decompile(libscript.Tall(nd.Param("shapes"), nd.Param("scale")))
	nd.Assert(err == nil, "decompiles")
	w, ok := libir.FromIR(r)
	nd.Assert(ok && w.WellFormed(), "decompiled program is well formed")
	check(w)
}
