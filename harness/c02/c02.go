// Package c02 checks chain validation and operation listing.
package c02

import (
	"math/big"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/zzverif/nd"
)

// elems makes a sequence of n arbitrary signed integers.
func elems(n, bits int) addchain.Chain {
	c := addchain.Chain{}
	for i := 0; i < n; i++ {
		c = append(c, nd.BigSigned("c", bits))
	}
	return c
}

func clones(c addchain.Chain) []*big.Int {
	var r []*big.Int
	for _, x := range c {
		r = append(r, new(big.Int).Set(x))
	}
	return r
}

func unchanged(c addchain.Chain, orig []*big.Int) bool {
	if len(c) != len(orig) {
		return false
	}
	ok := true
	for i := range c {
		ok = nd.And(ok, nd.EqBig(c[i], orig[i]))
	}
	return ok
}

func sumsTo(c []*big.Int, i, j, k int) bool {
	return nd.EqBig(new(big.Int).Add(c[i], c[j]), c[k])
}

// specValid is the definition of an addition chain.
func specValid(c []*big.Int) bool {
	if len(c) == 0 {
		return false
	}
	ok := nd.EqBig(c[0], big.NewInt(1))
	zero := new(big.Int)
	for i := range c {
		ok = nd.And(ok, nd.Not(nd.EqBig(c[i], zero)))
		for j := 0; j < i; j++ {
			ok = nd.And(ok, nd.Not(nd.EqBig(c[i], c[j])))
		}
	}
	for k := 1; k < len(c); k++ {
		any := false
		for i := 0; i < k; i++ {
			for j := i; j < k; j++ {
				any = nd.Or(any, sumsTo(c, i, j, k))
			}
		}
		ok = nd.And(ok, any)
	}
	return ok
}

func specAscending(c []*big.Int) bool {
	if len(c) == 0 {
		return false
	}
	ok := nd.EqBig(c[0], big.NewInt(1))
	for i := 1; i < len(c); i++ {
		ok = nd.And(ok, nd.LtBig(c[i-1], c[i]))
	}
	return ok
}

func contains(c []*big.Int, x *big.Int) bool {
	r := false
	for _, y := range c {
		r = nd.Or(r, nd.EqBig(x, y))
	}
	return r
}

// Validate: acceptance is the definition; the derived program re-evaluates.
func Validate() {
	n := nd.Choose("n", nd.Param("len")+1)
	c := elems(n, nd.Param("bits"))
	orig := clones(c)
	err := c.Validate()
	spec := specValid(orig)
	nd.Observe("valid", err == nil)
	nd.Assert(nd.Iff(err == nil, spec), "Validate accepts exactly the addition chains")
	nd.Assert(unchanged(c, orig), "Validate leaves the chain alone")
	p, perr := c.Program()
	nd.Assert((perr == nil) == (err == nil), "Program and Validate agree")
	if err != nil {
		nd.Reach("invalid")
		return
	}
	nd.Reach("valid")
	nd.Assert(len(p) == n-1, "one operation per later element")
	e := p.Evaluate()
	nd.Assert(len(e) == n, "evaluation length")
	ok := true
	for i := range e {
		ok = nd.And(ok, nd.EqBig(e[i], orig[i]))
	}
	nd.Assert(ok, "program evaluates back to the chain")
	nd.Assert(unchanged(c, orig), "Program leaves the chain alone")
}

// Produces and Superset add exactly their conditions.
func Targets() {
	n := nd.Choose("n", nd.Param("len")+1)
	bits := nd.Param("bits")
	c := elems(n, bits)
	orig := clones(c)
	spec := specValid(orig)
	nt := nd.Choose("nt", nd.Param("targets")+1)
	var ts []*big.Int
	for i := 0; i < nt; i++ {
		ts = append(ts, nd.BigSigned("t", bits))
	}
	torig := clones(ts)
	err := c.Superset(ts)
	all := spec
	for _, t := range torig {
		all = nd.And(all, contains(orig, t))
	}
	nd.Observe("superset", err == nil)
	nd.Assert(nd.Iff(err == nil, all), "Superset means valid and every target present")
	nd.Assert(nd.And(unchanged(c, orig), unchanged(ts, torig)), "Superset leaves its arguments alone")
	if nt == 1 {
		err := c.Produces(ts[0])
		last := false
		if n > 0 {
			last = nd.EqBig(orig[n-1], torig[0])
		}
		nd.Observe("produces", err == nil)
		nd.Assert(nd.Iff(err == nil, nd.And(spec, last)), "Produces means valid and last = n")
		nd.Assert(nd.And(unchanged(c, orig), unchanged(ts, torig)), "Produces leaves its arguments alone")
	}
}

// Ascending is strictly increasing from 1.
func Ascending() {
	n := nd.Choose("n", nd.Param("len")+1)
	c := elems(n, nd.Param("bits"))
	orig := clones(c)
	got := c.IsAscending()
	nd.Observe("asc", got)
	nd.Assert(nd.Iff(got, specAscending(orig)), "IsAscending means strictly increasing from 1")
	nd.Assert(unchanged(c, orig), "IsAscending leaves the chain alone")
}

// Ops lists exactly the index pairs summing to the element, for any integers
// in any order.
func Ops() {
	n := 1 + nd.Choose("n", nd.Param("len"))
	k := nd.Choose("k", n)
	c := elems(n, nd.Param("bits"))
	if nd.Param("positive") == 1 {
		one := big.NewInt(1)
		nd.Assume(nd.EqBig(c[0], one))
		for _, x := range c {
			nd.Assume(nd.Not(nd.LtBig(x, one)))
		}
	}
	checkOps(c, k)
}

func checkOps(c addchain.Chain, k int) {
	orig := clones(c)
	ops := c.Ops(k)
	listed := map[addchain.Op]int{}
	for _, o := range ops {
		listed[o]++
		nd.Assert(0 <= o.I && o.I <= o.J && o.J < k, "listed pairs are ordered and earlier")
	}
	nd.Observe("ops", ops)
	ok := true
	for i := 0; i < k; i++ {
		for j := i; j < k; j++ {
			m := listed[addchain.Op{I: i, J: j}]
			if m > 1 {
				nd.Fail("pair listed twice")
			}
			ok = nd.And(ok, nd.Iff(m == 1, sumsTo(orig, i, j, k)))
		}
	}
	nd.Assert(ok, "listed pairs are exactly those that sum to the element")
	nd.Assert(unchanged(c, orig), "Ops leaves the chain alone")
	op, err := c.Op(k)
	nd.Assert((err == nil) == (len(ops) > 0), "Op succeeds exactly when a pair exists")
	if err == nil {
		nd.Assert(listed[op] == 1, "Op returns a listed pair")
	}
}

// AscendingOps exercises the linear scan on ascending prefixes of real size:
// all elements symbolic and increasing.
func AscendingOps() {
	n := nd.Param("n")
	bits := nd.Param("bits")
	c := addchain.Chain{big.NewInt(1)}
	for i := 1; i < n; i++ {
		x := nd.Big("c", bits)
		nd.Assume(nd.LtBig(c[i-1], x))
		c = append(c, x)
	}
	c = append(c, nd.BigSigned("last", bits+2))
	checkOps(c, n)
}

var long = [][]int64{
	{1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233, 377, 610},
	{1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192},
	{1, 2, 4, 3, 7, 6, 14, 12, 13, 26, 24, 25, 50, 49},
	{1, 2, 3, 6, 12, 24, 48, 5, 10, 20, 15, 30, 60, 120},
	{1, 2, 4, 5, 6, 7, 9, 11, 12, 13, 14, 16, 18, 20},
}

// Perturbed: long concrete chains in which some positions hold arbitrary
// integers.
func Perturbed() {
	base := long[nd.Choose("chain", len(long))]
	n := nd.Param("n")
	np := nd.Param("holes")
	c := addchain.Int64s(base[:n]...)
	for i := 0; i < np; i++ {
		p := nd.Choose("pos", n)
		c[p] = nd.BigSigned("x", nd.Param("bits"))
	}
	orig := clones(c)
	err := c.Validate()
	nd.Observe("valid", err == nil)
	nd.Assert(nd.Iff(err == nil, specValid(orig)), "Validate accepts exactly the addition chains")
	nd.Assert(nd.Iff(c.IsAscending(), specAscending(orig)), "IsAscending means strictly increasing from 1")
	nd.Assert(unchanged(c, orig), "Validate leaves the chain alone")
	if err == nil {
		p, _ := c.Program()
		e := p.Evaluate()
		nd.Assert(len(e) == n, "evaluation length")
		ok := true
		for i := range e {
			ok = nd.And(ok, nd.EqBig(e[i], orig[i]))
		}
		nd.Assert(ok, "program evaluates back to the chain")
	}
	k := nd.Choose("k", n)
	checkOps(c, k)
}

// Tall: long concrete chains followed by an integer at or next to the sum of
// two elements, and by another one.
func Tall() {
	n := []int{31, 32, 63, 64, 65, 66, 128, 255, 256, 257}[nd.Choose("size", nd.Param("sizes"))]
	c := addchain.Chain{big.NewInt(1)}
	add := func(i, j int) { c = append(c, new(big.Int).Add(c[i], c[j])) }
	shape := nd.Choose("shape", 4)
	for k := 1; k < n; k++ {
		switch shape {
		case 0: // 1..n
			add(0, k-1)
		case 1: // powers of two
			add(k-1, k-1)
		case 2: // Fibonacci
			add(k-1, later(k-2))
		case 3: // powers of two, then back to numbers between them
			if k <= n/2 {
				add(k-1, k-1)
			} else {
				add(k-n/2-1, k-n/2) // 3, 6, 12, ...
			}
		}
	}
	places := []int{0, n / 2, n - 2, n - 1}
	i := places[nd.Choose("i", len(places))]
	j := places[nd.Choose("j", len(places))]
	x := nd.BigSigned("x", n+4)
	sum := new(big.Int).Add(c[i], c[j])
	one := big.NewInt(1)
	nd.Assume(nd.And(nd.Not(nd.LtBig(x, new(big.Int).Sub(sum, one))), nd.Not(nd.LtBig(new(big.Int).Add(sum, one), x))))
	c = append(c, x)
	good := nd.LtBig(new(big.Int), x)
	issum := false
	for k := 0; k < n; k++ {
		good = nd.And(good, nd.Not(nd.EqBig(c[k], x)))
		for l := k; l < n; l++ {
			issum = nd.Or(issum, sumsTo(c, k, l, n))
		}
	}
	good = nd.And(good, issum)
	orig := clones(c)
	err := c.Validate()
	nd.Assert(nd.Iff(err == nil, good), "Validate accepts exactly the addition chains")
	nd.Assert(nd.Iff(c.IsAscending(), specAscending(orig)), "IsAscending means strictly increasing from 1")
	nd.Assert(unchanged(c, orig), "Validate leaves the chain alone")
	if err == nil {
		nd.Reach("valid")
		p, perr := c.Program()
		nd.Assert(perr == nil && len(p) == n, "one operation per later element")
		e := p.Evaluate()
		nd.Assert(unchanged(e, orig), "program evaluates back to the chain")
		nd.Assert(nd.Iff(c.Superset([]*big.Int{orig[n], orig[n/2], orig[0]}) == nil, true), "Superset means valid and every target present")
		nd.Assert(c.Produces(orig[n]) == nil, "Produces means valid and last = n")
		nd.Assert(c.Produces(orig[n-1]) != nil, "Produces means valid and last = n")
	} else {
		nd.Reach("invalid")
	}
	checkOps(c, n)
}

func later(k int) int {
	if k < 0 {
		return 0
	}
	return k
}
