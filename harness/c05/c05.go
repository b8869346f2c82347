// Package c05 checks that allocated programs compute the chain.
package c05

import (
	"fmt"
	"math/big"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/eval"
	"github.com/mmcloughlin/addchain/acc/ir"
	"github.com/mmcloughlin/addchain/acc/pass"
	"github.com/mmcloughlin/addchain/zzverif/libir"
	"github.com/mmcloughlin/addchain/zzverif/libscript"
	"github.com/mmcloughlin/addchain/zzverif/nd"
)

var configs = []pass.Allocator{
	{Input: "in", Output: "out", Format: "t%d"},
	{Input: "x", Output: "z", Format: "tmp%d"},
	{Input: "t", Output: "u", Format: "t_%d"},
}

// machine runs the instructions over named registers; a register written for
// the first time is new storage, unless it is the output aliased to the input.
func machine(p *ir.Program, a pass.Allocator, alias bool, one *big.Int) (*big.Int, bool) {
	store := func(name string) string {
		if alias && name == a.Output {
			return a.Input
		}
		return name
	}
	reg := map[string]*big.Int{a.Input: one}
	get := func(o *ir.Operand) *big.Int {
		x, ok := reg[store(o.Identifier)]
		if !ok {
			return nil
		}
		return x
	}
	for _, i := range p.Instructions {
		var r *big.Int
		switch op := i.Op.(type) {
		case ir.Add:
			x, y := get(op.X), get(op.Y)
			if x == nil || y == nil {
				return nil, false
			}
			r = new(big.Int).Add(x, y)
		case ir.Double:
			x := get(op.X)
			if x == nil {
				return nil, false
			}
			r = new(big.Int).Add(x, x)
		case ir.Shift:
			x := get(op.X)
			if x == nil {
				return nil, false
			}
			r = new(big.Int).Lsh(x, op.S)
		default:
			return nil, false
		}
		reg[store(i.Output.Identifier)] = r
	}
	x, ok := reg[store(a.Output)]
	return x, ok
}

// check allocates p, which is the implementation's form of want.
func check(p *ir.Program, want libir.Prog, a pass.Allocator) {
	nd.Assert(a.Execute(p) == nil, "allocation succeeds")

	// Still the same program.
	got, ok := libir.FromIR(p)
	nd.Assert(ok && libir.Equal(got, want), "instructions unchanged")

	// Names.
	used := map[string]bool{}
	for _, i := range p.Instructions {
		nd.Assert(i.Output.Identifier != "", "output has a name")
		nd.Assert(i.Output.Identifier != a.Input, "input never written")
		used[i.Output.Identifier] = true
		for _, o := range i.Op.Inputs() {
			nd.Assert(o.Identifier != "", "operand has a name")
			used[o.Identifier] = true
		}
	}
	for _, o := range p.Operands {
		nd.Assert(o.Identifier != "", "every operand has a name")
	}
	delete(used, a.Input)
	delete(used, a.Output)
	declared := map[string]bool{}
	for _, t := range p.Temporaries {
		nd.Assert(!declared[t], "temporaries declared once")
		declared[t] = true
		nd.Assert(used[t], "declared temporaries are used")
	}
	nd.Assert(len(declared) == len(used), "used temporaries are declared")

	// Result, for any value of the input.
	one := nd.Big("one", 64)
	v := want.Values(one)[want.Last()]
	for _, alias := range []bool{false, true} {
		r, ok := machine(p, a, alias, one)
		nd.Assert(ok, "registers are written before they are read")
		nd.Assert(nd.EqBig(r, v), fmt.Sprintf("output holds the last element (aliased %v)", alias))

		// The tool's own interpreter.
		m := eval.NewInterpreter()
		x := new(big.Int).Set(one)
		m.Store(a.Input, x)
		if alias {
			m.Store(a.Output, x)
		}
		nd.Assert(m.Execute(p) == nil, "interpreter accepts")
		r, ok = m.Load(a.Output)
		nd.Assert(ok, "output was written")
		nd.Assert(nd.EqBig(r, v), fmt.Sprintf("interpreter leaves the last element in the output (aliased %v)", alias))
		in, ok := m.Load(a.Input)
		nd.Assert(ok, "input is still there")
		nd.Assert(nd.Or(alias, nd.EqBig(in, one)), "interpreter preserves the input")
	}
}

func config() pass.Allocator { return configs[nd.Choose("config", nd.Param("configs"))] }

// Small: every program of the given number of instructions.
func Small() {
	w := libir.Prog(nil).Symbolic(1+nd.Choose("n", nd.Param("n")), nd.Param("shift"))
	p := w.IR()
	if nd.Param("shared") == 1 && nd.Choose("shared", 2) == 1 {
		p = w.SharedIR()
	}
	check(p, w, config())
}

// Adds: every program of n additions.
func Adds() {
	w := libir.Prog(nil).Adds(nd.Param("n"))
	check(w.IR(), w, config())
}

// Prefix: pressure on registers, then arbitrary instructions.
func Prefix() {
	w := pressure(nd.Choose("shape", 4), nd.Param("live"))
	w = w.Symbolic(nd.Param("n"), 2)
	check(w.IR(), w, config())
}

func pressure(shape, live int) libir.Prog {
	var w libir.Prog
	for k := 0; k < live; k++ {
		switch shape {
		case 0: // every element reads the input and its predecessor
			w = w.Append(libir.Inst{Kind: libir.Add, X: 0, Y: w.Last()})
		case 1: // doublings
			w = w.Append(libir.Inst{Kind: libir.Double, X: w.Last()})
		case 2: // shifts of the input, none read so far
			w = w.Append(libir.Inst{Kind: libir.Shift, X: 0, S: k + 1})
		case 3: // mixed
			x := w.Last()
			i := libir.Inst{Kind: k % 3, X: x}
			if i.Kind == libir.Shift {
				i.S = 2
			}
			w = w.Append(i)
		}
	}
	return w
}

// Consumed: n live values consumed one by one, then arbitrary instructions in
// the middle.
func Consumed() {
	live := nd.Param("live")
	w := pressure(nd.Choose("shape", 4), live)
	w = w.Symbolic(nd.Param("n"), 2)
	d := w.Defined()
	back := nd.Choose("order", 2) == 1
	for k := 1; k <= live; k++ {
		x := d[k]
		if back {
			x = d[live+1-k]
		}
		w = w.Append(libir.Inst{Kind: libir.Add, X: x, Y: w.Last()})
	}
	check(w.IR(), w, config())
}

// Decompiled: every unrolled operation list, through the decompiler.
func Decompiled() {
	n := 1 + nd.Choose("n", nd.Param("n"))
	var p addchain.Program
	for k := 0; k < n; k++ {
		i := nd.Choose("i", k+1)
		j := nd.Choose("j", k+1)
		p = append(p, addchain.Op{I: i, J: j})
	}
	r, err := acc.Decompile(p)
	nd.Assert(err == nil, "decompiles")
	w, ok := libir.FromIR(r)
	nd.Assert(ok && w.WellFormed(), "decompiled program is well formed")
	check(r, w, config())
}

// Translated: scripts with aliases, index operands and nesting.
func Translated() {
	c := &ast.Chain{}
	var names []string
	var known []int
	n := 0
	atom := func() ast.Expr {
		k := nd.Choose("atom", len(names)+len(known)+1)
		if k == 0 {
			return ast.Operand(0)
		}
		if k <= len(names) {
			return ast.Identifier(names[k-1])
		}
		return ast.Operand(known[k-1-len(names)])
	}
	ops := 0
	stmts := nd.Param("n")
	for s := 0; s < stmts; s++ {
		var e ast.Expr
		switch nd.Choose("stmt", 5) {
		case 0:
			e = atom()
			nd.Assume(s < stmts-1) // the last statement computes something
		case 1:
			e = ast.Add{X: atom(), Y: atom()}
			n++
			known = append(known, n)
			ops++
		case 2:
			e = ast.Double{X: atom()}
			n++
			known = append(known, n)
			ops++
		case 3:
			e = ast.Shift{X: atom(), S: 2}
			n += 2
			known = append(known, n)
			ops++
		case 4:
			e = ast.Add{X: ast.Shift{X: atom(), S: 3}, Y: atom()}
			n += 4
			known = append(known, n-1, n)
			ops += 2
		}
		name := string(rune('a' + s))
		if s == stmts-1 {
			name = ""
		}
		c.Statements = append(c.Statements, ast.Statement{Name: ast.Identifier(name), Expr: e})
		names = append(names, name)
	}
	p, err := acc.Translate(c)
	nd.Assert(err == nil, "translates")
	w, ok := libir.FromIR(p)
	nd.Assert(ok && w.WellFormed(), "translated program is well formed")
	nd.Assert(len(w) == ops, "one instruction for every operator")
	if nd.Choose("evaluated", 2) == 1 {
		nd.Assert(pass.Eval(p) == nil, "evaluates")
	}
	check(p, w, configs[0])
}

// Tall: programs around the sizes where bytes and machine words end.
func Tall() {
	r, err := acc.Decompile(libscript.Tall(nd.Param("shapes"), nd.Param("scale")))
	nd.Assert(err == nil, "decompiles")
	w, ok := libir.FromIR(r)
	nd.Assert(ok && w.WellFormed(), "decompiled program is well formed")
	check(r, w, config())
}
