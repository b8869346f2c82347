// Package libir builds instruction programs for the harnesses, together with
// their meaning: every instruction is a value over earlier chain elements.
package libir

import (
	"math/big"

	"github.com/mmcloughlin/addchain/acc/ir"
	"github.com/mmcloughlin/addchain/zzverif/nd"
)

// Kinds of instruction.
const (
	Add = iota
	Double
	Shift
)

// Inst is one instruction over chain indices.
type Inst struct {
	Kind int
	X, Y int
	S    int
	Out  int
}

// Reads is the list of elements read.
func (i Inst) Reads() []int {
	if i.Kind == Add {
		return []int{i.X, i.Y}
	}
	return []int{i.X}
}

// Prog is a sequence of instructions.
type Prog []Inst

// Last is the index of the last element.
func (p Prog) Last() int {
	if len(p) == 0 {
		return 0
	}
	return p[len(p)-1].Out
}

// Defined lists element 0 and the outputs.
func (p Prog) Defined() []int {
	d := []int{0}
	for _, i := range p {
		d = append(d, i.Out)
	}
	return d
}

// Append adds an instruction, numbering its output.
func (p Prog) Append(i Inst) Prog {
	i.Out = p.Last() + 1
	if i.Kind == Shift {
		i.Out = p.Last() + i.S
	}
	return append(p, i)
}

// Arbitrary appends n instructions: any kind, any operands among element 0 and
// the outputs so far, shifts of 1 to maxs.
func (p Prog) Arbitrary(n, maxs int) Prog {
	for ; n > 0; n-- {
		d := p.Defined()
		i := Inst{Kind: nd.Choose("kind", 3)}
		i.X = d[nd.Choose("x", len(d))]
		switch i.Kind {
		case Add:
			i.Y = d[nd.Choose("y", len(d))]
		case Shift:
			i.S = 1 + nd.Choose("s", maxs)
		}
		p = p.Append(i)
	}
	return p
}

// defined is an arbitrary element among 0 and the outputs.
func (p Prog) defined(name string) int {
	x := nd.Int(name, 0, p.Last())
	is := false
	for _, d := range p.Defined() {
		is = nd.Or(is, x == d)
	}
	nd.Assume(is)
	return x
}

// Symbolic appends n instructions with symbolic operands: the solver decides
// how they coincide wherever the code under check distinguishes them.
func (p Prog) Symbolic(n, maxs int) Prog {
	for ; n > 0; n-- {
		i := Inst{Kind: nd.Choose("kind", 3)}
		i.X = p.defined("x")
		switch i.Kind {
		case Add:
			i.Y = p.defined("y")
		case Shift:
			i.S = nd.Conc(nd.Int("s", 1, maxs))
		}
		p = p.Append(i)
	}
	return p
}

// Adds appends n additions of any two earlier elements (x <= y).
func (p Prog) Adds(n int) Prog {
	for ; n > 0; n-- {
		x, y := p.defined("x"), p.defined("y")
		nd.Assume(x <= y)
		p = p.Append(Inst{Kind: Add, X: x, Y: y})
	}
	return p
}

// Values of the elements that instructions produce.
func (p Prog) Values(one *big.Int) map[int]*big.Int {
	v := map[int]*big.Int{0: one}
	for _, i := range p {
		x := new(big.Int)
		switch i.Kind {
		case Add:
			x.Add(v[i.X], v[i.Y])
		case Double:
			x.Add(v[i.X], v[i.X])
		case Shift:
			x.Lsh(v[i.X], uint(i.S))
		}
		v[i.Out] = x
	}
	return v
}

// IR is the program with a new operand object for every occurrence.
func (p Prog) IR() *ir.Program {
	r := &ir.Program{}
	for _, i := range p {
		var op ir.Op
		switch i.Kind {
		case Add:
			op = ir.Add{X: ir.Index(i.X), Y: ir.Index(i.Y)}
		case Double:
			op = ir.Double{X: ir.Index(i.X)}
		case Shift:
			op = ir.Shift{X: ir.Index(i.X), S: uint(i.S)}
		}
		r.AddInstruction(&ir.Instruction{Output: ir.Index(i.Out), Op: op})
	}
	return r
}

// SharedIR is the program with one operand object for every element.
func (p Prog) SharedIR() *ir.Program {
	m := map[int]*ir.Operand{}
	for _, k := range p.Defined() {
		m[k] = ir.Index(k)
	}
	r := &ir.Program{}
	for _, i := range p {
		var op ir.Op
		switch i.Kind {
		case Add:
			op = ir.Add{X: m[i.X], Y: m[i.Y]}
		case Double:
			op = ir.Double{X: m[i.X]}
		case Shift:
			op = ir.Shift{X: m[i.X], S: uint(i.S)}
		}
		r.AddInstruction(&ir.Instruction{Output: m[i.Out], Op: op})
	}
	return r
}

// FromIR reads a program back.
func FromIR(r *ir.Program) (Prog, bool) {
	var p Prog
	for _, i := range r.Instructions {
		switch op := i.Op.(type) {
		case ir.Add:
			p = append(p, Inst{Add, op.X.Index, op.Y.Index, 0, i.Output.Index})
		case ir.Double:
			p = append(p, Inst{Double, op.X.Index, 0, 0, i.Output.Index})
		case ir.Shift:
			p = append(p, Inst{Shift, op.X.Index, 0, int(op.S), i.Output.Index})
		default:
			return nil, false
		}
	}
	return p, true
}

// Equal compares programs.
func Equal(p, q Prog) bool {
	if len(p) != len(q) {
		return false
	}
	for i := range p {
		if p[i] != q[i] {
			return false
		}
	}
	return true
}

// WellFormed: every input is element 0 or an earlier output.
func (p Prog) WellFormed() bool {
	def := map[int]bool{0: true}
	for _, i := range p {
		for _, x := range i.Reads() {
			if !def[x] {
				return false
			}
		}
		def[i.Out] = true
	}
	return true
}

// Used: every value other than the last is read by a later instruction.
func (p Prog) Used() bool {
	used := true
	for k, i := range p[:len(p)-1] {
		read := false
		for _, j := range p[k+1:] {
			for _, x := range j.Reads() {
				read = nd.Or(read, x == i.Out)
			}
		}
		used = nd.And(used, read)
	}
	return used
}

// Peak is the largest number of elements live at the same time: computed (or
// element 0) and still to be read, or the result.
func (p Prog) Peak() int {
	live := map[int]bool{p.Last(): true}
	peak := 1
	for k := len(p) - 1; k >= 0; k-- {
		delete(live, p[k].Out)
		for _, x := range p[k].Reads() {
			live[x] = true
		}
		if len(live) > peak {
			peak = len(live)
		}
	}
	return peak
}
