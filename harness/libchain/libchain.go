// Package libchain holds the definitions of addition chains shared by the
// harnesses.
package libchain

import (
	"math/big"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/zzverif/nd"
)

// Clones copies the values.
func Clones(c []*big.Int) []*big.Int {
	var r []*big.Int
	for _, x := range c {
		r = append(r, new(big.Int).Set(x))
	}
	return r
}

// Same reports that both lists hold the same values in the same order.
func Same(c, d []*big.Int) bool {
	if len(c) != len(d) {
		return false
	}
	ok := true
	for i := range c {
		ok = nd.And(ok, nd.EqBig(c[i], d[i]))
	}
	return ok
}

// SumsTo is c[i] + c[j] = c[k].
func SumsTo(c []*big.Int, i, j, k int) bool {
	return nd.EqBig(new(big.Int).Add(c[i], c[j]), c[k])
}

// Valid is the definition of an addition chain.
func Valid(c []*big.Int) bool {
	if len(c) == 0 {
		return false
	}
	ok := nd.EqBig(c[0], big.NewInt(1))
	zero := new(big.Int)
	for i := range c {
		ok = nd.And(ok, nd.Not(nd.EqBig(c[i], zero)))
		for j := 0; j < i; j++ {
			ok = nd.And(ok, nd.Not(nd.EqBig(c[i], c[j])))
		}
	}
	for k := 1; k < len(c); k++ {
		any := false
		for i := 0; i < k; i++ {
			for j := i; j < k; j++ {
				any = nd.Or(any, SumsTo(c, i, j, k))
			}
		}
		ok = nd.And(ok, any)
	}
	return ok
}

// Contains reports membership.
func Contains(c []*big.Int, x *big.Int) bool {
	r := false
	for _, y := range c {
		r = nd.Or(r, nd.EqBig(x, y))
	}
	return r
}

// Subsequence reports that s is obtained from c by deleting elements. (The
// elements of c are pairwise distinct.)
func Subsequence(s, c []*big.Int) bool {
	if len(s) > len(c) {
		return false
	}
	// reach[j]: s[:i] embeds into c[:j]
	reach := make([]bool, len(c)+1)
	for j := range reach {
		reach[j] = true
	}
	for i := range s {
		next := make([]bool, len(c)+1)
		for j := 1; j <= len(c); j++ {
			next[j] = nd.Or(next[j-1], nd.And(reach[j-1], nd.EqBig(s[i], c[j-1])))
		}
		reach = next
	}
	return reach[len(c)]
}

// Elems makes a sequence starting with 1 followed by n-1 arbitrary positive
// integers below 2^bits.
func Elems(n, bits int) addchain.Chain {
	c := addchain.New()
	for i := 1; i < n; i++ {
		x := nd.Big("c", bits)
		c = append(c, x)
	}
	return c
}

// Grow appends n elements, each the sum of two arbitrary earlier ones, with
// the sums chosen by the solver-visible choices; elements may repeat unless
// excluded by the caller.
func Grow(c addchain.Chain, n int) addchain.Chain {
	for ; n > 0; n-- {
		i := nd.Choose("i", len(c))
		j := i + nd.Choose("j", len(c)-i)
		c = append(c, new(big.Int).Add(c[i], c[j]))
	}
	return c
}

// Distinct reports that no value is repeated.
func Distinct(c []*big.Int) bool {
	ok := true
	for i := range c {
		for j := 0; j < i; j++ {
			ok = nd.And(ok, nd.Not(nd.EqBig(c[i], c[j])))
		}
	}
	return ok
}

// ValidLong is Valid for long chains of concrete values.
func ValidLong(c []*big.Int) bool {
	if len(c) == 0 || c[0].Cmp(big.NewInt(1)) != 0 {
		return false
	}
	seen := map[string]bool{"1": true}
	d := new(big.Int)
	for k := 1; k < len(c); k++ {
		s := c[k].String()
		if c[k].Sign() <= 0 || seen[s] {
			return false
		}
		found := false
		for i := k - 1; i >= 0 && !found; i-- {
			d.Sub(c[k], c[i])
			found = seen[d.String()]
		}
		if !found {
			return false
		}
		seen[s] = true
	}
	return true
}
