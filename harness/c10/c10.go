// Package c10 checks redundancy removal.
package c10

import (
	"errors"
	"math/big"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/alg/opt"
	"github.com/mmcloughlin/addchain/zzverif/libchain"
	"github.com/mmcloughlin/addchain/zzverif/nd"
)

func check(c addchain.Chain) {
	orig := libchain.Clones(c)
	ptrs := append([]*big.Int{}, c...)
	o, err := opt.Optimize(c)
	nd.Assert(err == nil, "no error")
	nd.Assert(len(c) == len(orig), "input length unchanged")
	for i := range c {
		nd.Assert(c[i] == ptrs[i], "input slice unchanged")
	}
	nd.Assert(libchain.Same(c, orig), "input chain not modified")
	nd.Observe("len", len(o))
	nd.Assert(len(o) <= len(orig), "never longer")
	if len(o) < 30 {
		nd.Assert(libchain.Valid(o), "result is an addition chain")
	} else {
		nd.Assert(libchain.ValidLong(o), "result is an addition chain")
	}
	nd.Assert(libchain.Subsequence(o, orig), "result is a subsequence")
	nd.Assert(nd.EqBig(o[0], orig[0]), "first element kept")
	nd.Assert(nd.EqBig(o[len(o)-1], orig[len(orig)-1]), "last element kept")
	if len(o) < len(orig) {
		nd.Reach("removed")
	}
	if len(o)+1 < len(orig) {
		nd.Reach("removed several")
	}
}

// Short: every valid chain of arbitrary integers, any order.
func Short() {
	n := 1 + nd.Choose("n", nd.Param("len"))
	c := addchain.Chain{}
	for i := 0; i < n; i++ {
		c = append(c, nd.BigSigned("c", nd.Param("bits")))
	}
	nd.Assume(libchain.Valid(c))
	check(c)
}

var bases = [][]int64{
	{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12},
	{1, 2, 4, 3, 6, 5, 8, 7, 10, 9, 12, 11},
	{1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233},
	{1, 2, 4, 8, 6, 5, 9, 10, 13, 3, 12, 7},
	{1, 2, 3, 6, 9, 12, 15, 18, 21, 24, 27, 30},
	{1, 2, 4, 8, 16, 32, 3, 5, 9, 17, 33, 19},
	{1, 2, 4, 6, 8, 12, 14, 16, 24, 3, 7, 15},
}

// Extended: a concrete redundant chain followed by arbitrary elements.
func Extended() {
	b := bases[nd.Choose("base", len(bases))]
	k := nd.Param("prefix")
	c := addchain.Int64s(b[:k]...)
	for i := 0; i < nd.Param("tail"); i++ {
		c = append(c, nd.BigSigned("x", nd.Param("bits")))
	}
	nd.Assume(libchain.Valid(c))
	check(c)
}

// Inserted: a concrete chain with one arbitrary element at any position.
func Inserted() {
	b := bases[nd.Choose("base", len(bases))]
	n := nd.Param("n")
	p := 1 + nd.Choose("pos", n)
	c := addchain.Int64s(b[:p]...)
	c = append(c, nd.BigSigned("x", nd.Param("bits")))
	c = append(c, addchain.Int64s(b[p:n]...)...)
	nd.Assume(libchain.Valid(c))
	check(c)
}

// Dense: chains drawn from sums with small values, any order: many
// alternatives per position.
func Dense() {
	c := libchain.Grow(addchain.Int64s(1, 2), nd.Param("ops"))
	nd.Assume(libchain.Distinct(c))
	check(c)
}

type stub struct {
	c   addchain.Chain
	err error
	n   *big.Int
}

func (s *stub) FindChain(n *big.Int) (addchain.Chain, error) { s.n = n; return s.c, s.err }
func (s *stub) String() string                              { return "stub" }

// Wrapped: the algorithm wrapper applies the same to the wrapped result.
func Wrapped() {
	n := 1 + nd.Choose("n", nd.Param("len"))
	c := libchain.Elems(n, nd.Param("bits"))
	nd.Assume(libchain.Valid(c))
	orig := libchain.Clones(c)
	target := new(big.Int).Set(c[n-1])
	s := &stub{c: c}
	if nd.Choose("fail", 2) == 1 {
		s.c, s.err = nil, errors.New("nothing found")
	}
	a := opt.Algorithm{Algorithm: s}
	o, err := a.FindChain(target)
	nd.Assert(nd.EqBig(target, orig[n-1]), "target not modified")
	nd.Assert(nd.EqBig(s.n, orig[n-1]), "the wrapped algorithm is asked for the target")
	if s.err != nil {
		nd.Assert(err != nil, "failure is reported")
		return
	}
	nd.Assert(err == nil, "no error")
	nd.Assert(libchain.Same(c, orig), "input chain not modified")
	nd.Assert(len(o) <= n, "never longer")
	nd.Assert(libchain.Valid(o), "result is an addition chain")
	nd.Assert(libchain.Subsequence(o, orig), "result is a subsequence")
	nd.Assert(nd.EqBig(o[len(o)-1], target), "ends in the target")
	nd.Observe("len", len(o))
}

// Tall: long chains with arbitrary sums of a few elements put in.
func Tall() {
	n := []int{64, 65, 258, 66, 128, 129, 257, 259, 260}[nd.Choose("size", nd.Param("sizes"))]
	c := addchain.Int64s(1)
	add := func(i, j int) { c = append(c, new(big.Int).Add(c[i], c[j])) }
	shape := nd.Choose("shape", 3)
	for k := 1; k < n; k++ {
		switch shape {
		case 0: // 1..n
			add(0, k-1)
		case 1: // powers of two
			add(k-1, k-1)
		case 2: // odd numbers
			if k == 1 {
				add(0, 0)
			} else if k == 2 {
				add(0, 1)
			} else {
				add(1, k-1)
			}
		}
	}
	places := []int{0, n - 2, n / 2, n - 1, 31, 1, 30, 32}[:nd.Param("places")]
	x := nd.Big("x", n+3)
	sum := false
	for _, i := range places {
		for _, j := range places {
			sum = nd.Or(sum, nd.EqBig(x, new(big.Int).Add(c[i], c[j])))
		}
	}
	nd.Assume(sum)
	for _, y := range c {
		nd.Assume(nd.Not(nd.EqBig(x, y)))
	}
	x = nd.ConcBig(x)
	// behind the elements it is the sum of
	pos := n - nd.Choose("pos", 2)*(n/3)
	d := append(append(addchain.Chain{}, c[:pos]...), x)
	d = append(d, c[pos:]...)
	if nd.Choose("closed", 2) == 1 {
		d = append(d, new(big.Int).Add(x, d[len(d)-1]))
		for _, y := range d[:len(d)-1] {
			nd.Assume(y.Cmp(d[len(d)-1]) != 0)
		}
	}
	nd.Assume(libchain.ValidLong(d))
	check(d)
}
