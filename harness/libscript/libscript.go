// Package libscript builds unrolled programs and reads scripts for the
// harnesses.
package libscript

import (
	"math/big"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/zzverif/nd"
)

// Values of the chain a program computes.
func Values(p addchain.Program) []*big.Int {
	c := []*big.Int{big.NewInt(1)}
	for _, op := range p {
		c = append(c, new(big.Int).Add(c[op.I], c[op.J]))
	}
	return c
}

// grow appends one operation with symbolic operands whose value is new.
func grow(p addchain.Program, c []*big.Int, i, j int) (addchain.Program, []*big.Int) {
	x := new(big.Int).Add(c[i], c[j])
	for _, y := range c {
		nd.Assume(!nd.EqBig(x, y))
	}
	return append(p, addchain.Op{I: i, J: j}), append(c, x)
}

// Ordered appends n operations with operands i <= j.
func Ordered(p addchain.Program, n int) addchain.Program {
	c := Values(p)
	for ; n > 0; n-- {
		i := nd.Int("i", 0, len(p))
		j := nd.Int("j", 0, len(p))
		nd.Assume(i <= j)
		p, c = grow(p, c, i, j)
	}
	return p
}

// Arbitrary appends n operations with operands in any order.
func Arbitrary(p addchain.Program, n int) addchain.Program {
	c := Values(p)
	for ; n > 0; n-- {
		i := nd.Int("i", 0, len(p))
		j := nd.Int("j", 0, len(p))
		p, c = grow(p, c, i, j)
	}
	return p
}

// Op appends an operation on concrete operands.
func Op(p addchain.Program, i, j int) addchain.Program {
	return append(p, addchain.Op{I: i, J: j})
}

// Doubles appends n doublings of the last element.
func Doubles(p addchain.Program, n int) addchain.Program {
	for ; n > 0; n-- {
		p = Op(p, len(p), len(p))
	}
	return p
}

// Distinct reports that a concrete program has pairwise distinct values.
func Distinct(p addchain.Program) bool {
	seen := map[string]bool{}
	for _, x := range Values(p) {
		k := x.String()
		if seen[k] {
			return false
		}
		seen[k] = true
	}
	return true
}

// Tall makes programs around the sizes where bytes and machine words end:
// doubling runs, many short statements, all-ones values and powers of two of
// that size, followed by an operation with arbitrary operands out of a few
// places. Scale picks the sizes.
func Tall(shapes, scale int) addchain.Program {
	var sizes []int
	switch scale {
	case 0:
		sizes = []int{31, 63, 64, 65}
	case 1:
		sizes = []int{127, 128, 129}
	case 2:
		sizes = []int{255, 256, 257}
	}
	n := sizes[nd.Choose("size", len(sizes))]
	var p addchain.Program
	mid := 0
	switch nd.Choose("shape", shapes) {
	case 0: // a long run
		p = Doubles(p, n)
		p = Op(p, 0, len(p))
		mid = n
	case 1: // the values 1..n, each used at once
		for k := 0; k < n; k++ {
			p = Op(p, 0, len(p))
		}
		mid = n / 2
	case 2: // Fibonacci
		p = Op(p, 0, 0)
		for k := 1; k < n; k++ {
			p = Op(p, len(p)-1, len(p))
		}
		mid = n / 2
	case 3: // all ones of n bits by way of halves
		p, mid = ones(p, n)
	case 4: // two runs of different length with work in between
		p = Doubles(p, n/2)
		p = Op(p, 0, len(p))
		p = Op(p, 1, len(p))
		mid = len(p)
		p = Doubles(p, n-n/2)
		p = Op(p, mid, len(p))
	}
	if nd.Choose("extra", 2) == 1 {
		c := Values(p)
		at := func(x int) bool {
			return nd.Or(nd.Or(x == 0, x == 1), nd.Or(x == mid, nd.Or(x == len(p)-1, x == len(p))))
		}
		i := nd.Int("i", 0, len(p))
		j := nd.Int("j", 0, len(p))
		nd.Assume(nd.And(at(i), at(j)))
		nd.Assume(i <= j)
		p, _ = grow(p, c, i, j)
	}
	return p
}

// ones computes 2^n - 1.
func ones(p addchain.Program, n int) (addchain.Program, int) {
	if n == 1 {
		return p, len(p)
	}
	p, h := ones(p, n/2)
	p = Op(p, h, h)
	p = Doubles(p, n/2-1)
	p = Op(p, h, len(p))
	if n%2 == 1 {
		p = Op(p, len(p), len(p))
		p = Op(p, 0, len(p))
	}
	return p, len(p)
}

// Fresh reports that the last value of a program is not one of the earlier.
func Fresh(p addchain.Program) bool {
	c := Values(p)
	fresh := true
	for _, y := range c[:len(c)-1] {
		fresh = nd.And(fresh, !nd.EqBig(c[len(c)-1], y))
	}
	return fresh
}

// Elements evaluates a syntax tree: the element each statement denotes and the
// operations performed, in order. Bad is set for undefined names.
func Elements(c *ast.Chain) (elem []int, ops addchain.Program, bad bool) {
	names := map[ast.Identifier]int{}
	var expr func(e ast.Expr) int
	push := func(i, j int) int {
		if i > len(ops) || j > len(ops) {
			bad = true
			return 0
		}
		ops = append(ops, addchain.Op{I: i, J: j})
		return len(ops)
	}
	expr = func(e ast.Expr) int {
		switch e := e.(type) {
		case ast.Operand:
			if int(e) < 0 {
				bad = true
			}
			return int(e)
		case ast.Identifier:
			k, ok := names[e]
			if !ok {
				bad = true
			}
			return k
		case ast.Add:
			x := expr(e.X)
			y := expr(e.Y)
			return push(x, y)
		case ast.Double:
			x := expr(e.X)
			return push(x, x)
		case ast.Shift:
			x := expr(e.X)
			for s := uint(0); s < e.S && !bad; s++ {
				x = push(x, x)
			}
			return x
		}
		bad = true
		return 0
	}
	for _, s := range c.Statements {
		k := expr(s.Expr)
		elem = append(elem, k)
		if s.Name != "" {
			if _, dup := names[s.Name]; dup {
				bad = true
			}
			names[s.Name] = k
		}
		if bad {
			break
		}
	}
	return elem, ops, bad
}

// SameOps compares operations up to the order of their operands.
func SameOps(p, q addchain.Program) bool {
	if len(p) != len(q) {
		return false
	}
	for k := range p {
		a, b := p[k], q[k]
		if !(a.I == b.I && a.J == b.J || a.I == b.J && a.J == b.I) {
			return false
		}
	}
	return true
}
