// Package c11 checks the expansion of chains of run lengths.
package c11

import (
	"math/big"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/alg/dict"
	"github.com/mmcloughlin/addchain/zzverif/libchain"
	"github.com/mmcloughlin/addchain/zzverif/nd"
)

func ones(l int) *big.Int {
	x := new(big.Int)
	for i := 0; i < l; i++ {
		x.SetBit(x, i, 1)
	}
	return x
}

func check(lc addchain.Chain) {
	orig := libchain.Clones(lc)
	c, err := dict.RunsChain(lc)
	nd.Assert(err == nil, "valid length chains are accepted")
	nd.Assert(libchain.Same(lc, orig), "lengths not modified")
	nd.Observe("len", len(c))
	// The result is concrete once the lengths are: membership in the solver,
	// validity by the definition.
	nd.Assert(validConcrete(c), "result is an addition chain")
	for _, l := range orig {
		nd.Assert(libchain.Contains(c, ones(int(l.Int64()))), "contains the run of every length")
	}
}

// validConcrete decides validity of a long chain with few comparisons.
func validConcrete(c addchain.Chain) bool {
	if len(c) == 0 || c[0].Cmp(big.NewInt(1)) != 0 {
		return false
	}
	at := map[string]int{}
	for i, x := range c {
		if x.Sign() <= 0 {
			return false
		}
		k := x.String()
		if _, dup := at[k]; dup {
			return false
		}
		at[k] = i
	}
	for k := 1; k < len(c); k++ {
		ok := false
		for i := 0; i < k && !ok; i++ {
			d := new(big.Int).Sub(c[k], c[i])
			if j, in := at[d.String()]; in && j < k {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// Short: every valid chain of lengths, any order, small lengths.
func Short() {
	n := 1 + nd.Choose("n", nd.Param("len"))
	lc := libchain.Elems(n, nd.Param("bits"))
	nd.Assume(libchain.Valid(lc))
	for i := range lc {
		lc[i] = nd.ConcBig(lc[i])
	}
	check(lc)
}

var bases = [][]int64{
	{1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024},
	{1, 2, 3, 5, 8, 13, 21, 34, 55, 89},
	{1, 2, 4, 3, 7, 6, 14, 12, 13, 26},
	{1, 2, 4, 8, 16, 5, 32, 3, 64, 63},
	{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12},
	{1, 2, 4, 8, 16, 32, 48, 40, 36, 34, 33},
	{1, 2, 3, 6, 12, 24, 5, 48, 47, 96, 192, 384},
}

// Tail: concrete chain of lengths followed by arbitrary lengths.
func Tail() {
	b := bases[nd.Choose("base", len(bases))]
	k := nd.Param("prefix")
	lc := addchain.Int64s(b[:k]...)
	for i := 0; i < nd.Param("tail"); i++ {
		lc = append(lc, nd.Big("l", nd.Param("bits")))
	}
	nd.Assume(libchain.Valid(lc))
	for i := range lc {
		lc[i] = nd.ConcBig(lc[i])
	}
	check(lc)
}

// Huge: chains reaching lengths beyond a machine word are refused.
func Huge() {
	lc := addchain.New()
	// A doubling prefix of lengths, then jumps beyond 2^64.
	k := nd.Param("doublings")
	for i := 0; i < k; i++ {
		lc = append(lc, new(big.Int).Lsh(lc[len(lc)-1], 1))
	}
	for i := 0; i < nd.Param("tail"); i++ {
		lc = append(lc, nd.Big("l", 70))
	}
	nd.Assume(libchain.Valid(lc))
	big64 := new(big.Int).Lsh(big.NewInt(1), 64)
	anyBig := false
	for _, l := range lc {
		anyBig = nd.Or(anyBig, nd.Not(nd.LtBig(l, big64)))
	}
	nd.Assume(anyBig)
	c, err := dict.RunsChain(lc)
	nd.Assert(err != nil, "lengths beyond a machine word are refused")
	nd.Assert(len(c) == 0, "no chain with the error")
}

// Invalid: sequences that are not chains of lengths are refused.
func Invalid() {
	n := nd.Choose("n", nd.Param("len")+1)
	lc := addchain.Chain{}
	for i := 0; i < n; i++ {
		lc = append(lc, nd.BigSigned("c", nd.Param("bits")))
	}
	nd.Assume(nd.Not(libchain.Valid(lc)))
	_, err := dict.RunsChain(lc)
	nd.Assert(err != nil, "invalid length chains are refused")
}

// Dense: every chain of a few operations, any order.
func Dense() {
	lc := libchain.Grow(addchain.Int64s(1, 2), nd.Param("ops"))
	nd.Assume(libchain.Distinct(lc))
	check(lc)
}

// Tall: long chains of lengths.
func Tall() {
	n := []int{32, 33, 63, 64, 65, 66}[nd.Choose("size", nd.Param("sizes"))]
	lc := addchain.New()
	step := 1
	if nd.Choose("shape", 2) == 1 {
		lc = append(lc, big.NewInt(2))
		step = 2
	}
	for len(lc) < n {
		lc = append(lc, new(big.Int).Add(lc[step-1], lc[len(lc)-1]))
	}
	x := nd.Big("l", 8)
	any := false
	for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
		any = nd.Or(any, nd.EqBig(x, new(big.Int).Add(lc[i], lc[n/2])))
		any = nd.Or(any, nd.EqBig(x, new(big.Int).Add(lc[i], lc[n-1])))
	}
	nd.Assume(any)
	for _, l := range lc {
		nd.Assume(nd.Not(nd.EqBig(l, x)))
	}
	lc = append(lc, nd.ConcBig(x))
	check(lc)
}
