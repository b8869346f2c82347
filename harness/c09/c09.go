// Package c09 checks the dictionary decompositions.
package c09

import (
	"math/big"

	"github.com/mmcloughlin/addchain/alg/dict"
	"github.com/mmcloughlin/addchain/zzverif/nd"
)

func pow2(e int) *big.Int { return new(big.Int).SetBit(new(big.Int), e, 1) }

// allOnes reports that d is 2^n - 1 for some n with lo <= n <= hi.
func allOnes(d *big.Int, lo, hi int) bool {
	r := false
	for n := lo; n <= hi; n++ {
		r = nd.Or(r, nd.EqBig(d, new(big.Int).Sub(pow2(n), big.NewInt(1))))
	}
	return r
}

func odd(d *big.Int) bool {
	return nd.EqBig(new(big.Int).And(d, big.NewInt(1)), big.NewInt(1))
}

func below(d *big.Int, bits int) bool { return nd.LtBig(d, pow2(bits)) }

// check states the property for one decomposition. kmax is the number of bits
// of x.
func check(name string, x, orig *big.Int, s dict.Sum, bits int, term func(d *big.Int) bool) {
	nd.Assert(nd.EqBig(x, orig), name+": x not modified")
	sum := new(big.Int)
	for i, t := range s {
		nd.Assert(t.D.Sign() > 0, name+": terms are positive")
		if i > 0 {
			nd.Assert(s[i-1].E < t.E, name+": exponents strictly increase")
			nd.Assert(nd.LtBig(new(big.Int).Lsh(s[i-1].D, s[i-1].E), new(big.Int).Lsh(big.NewInt(1), t.E)), name+": bit ranges do not overlap")
		}
		nd.Assert(int(t.E) < bits, name+": exponents in range")
		sum.Add(sum, new(big.Int).Lsh(t.D, t.E))
		nd.Assert(term(t.D), name+": shape of the terms")
	}
	nd.Assert(nd.EqBig(sum, orig), name+": terms sum to x")
	nd.Assert(nd.EqBig(s.Int(), orig), name+": Sum.Int is x")
	nd.Observe("n", len(s))
	before := append(dict.Sum{}, s...)
	var ds []*big.Int
	for _, t := range s {
		ds = append(ds, new(big.Int).Set(t.D))
	}
	dc := s.Dictionary()
	for i := range before {
		nd.Assert(s[i].D == before[i].D && s[i].E == before[i].E, name+": Dictionary leaves the sum alone")
		nd.Assert(nd.EqBig(s[i].D, ds[i]), name+": Dictionary leaves the terms alone")
	}
	for i := range dc {
		if i > 0 {
			nd.Assert(nd.LtBig(dc[i-1], dc[i]), name+": dictionary ascends without repeats")
		}
		nd.Assert(member(ds, dc[i]), name+": dictionary holds only terms")
	}
	for _, d := range ds {
		nd.Assert(member(dc, d), name+": dictionary holds every term")
	}
	nd.Assert(nd.EqBig(x, orig), name+": x not modified")
}

func member(xs []*big.Int, y *big.Int) bool {
	r := false
	for _, x := range xs {
		r = nd.Or(r, nd.EqBig(x, y))
	}
	return r
}

func decompose(x *big.Int, bits int, method, k, t int) {
	orig := new(big.Int).Set(x)
	top := bits
	if t > 0 && t < top {
		top = t
	}
	K, T := uint(k), uint(t)
	switch method {
	case 0:
		check("fixed", x, orig, dict.FixedWindow{K: K}.Decompose(x), bits, func(d *big.Int) bool { return below(d, k) })
	case 1:
		check("sliding", x, orig, dict.SlidingWindow{K: K}.Decompose(x), bits, func(d *big.Int) bool { return nd.And(odd(d), below(d, k)) })
	case 2:
		check("runs", x, orig, dict.RunLength{T: T}.Decompose(x), bits, func(d *big.Int) bool { return allOnes(d, 1, top) })
	case 3:
		check("hybrid", x, orig, dict.Hybrid{K: K, T: T}.Decompose(x), bits, func(d *big.Int) bool {
			return nd.And(odd(d), nd.Or(below(d, k), allOnes(d, k+1, top)))
		})
	}
}

func params(kmax, tmax int) (method, k, t int) {
	method = nd.Choose("method", 4)
	if method != 2 {
		k = 1 + nd.Choose("K", kmax)
	}
	if method >= 2 {
		t = nd.Choose("T", tmax+1)
	}
	return
}

// Short: every x of a few bits, every K and T around that size.
func Short() {
	bits := nd.Param("bits")
	m, k, t := params(nd.Param("kmax"), nd.Param("tmax"))
	x := nd.Big("x", bits)
	nd.Assume(nd.Not(nd.EqBig(x, new(big.Int))))
	decompose(x, bits, m, k, t)
}

var patterns = []string{
	// all ones, long runs split by single zeros, sparse, alternating
	"ffffffffffffffffffffffffffffffffffffff",
	"7ffffffffffffffff7fffffffffffffffeffff",
	"80000000000000000000000000000000000001",
	"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
	"fffffffff00000000000fffffffff000000000",
	"c000000000000003ffffffffffffffffc00000",
}

var ks = []int{1, 2, 3, 5, 8, 15, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 150, 200}
var ts = []int{0, 1, 2, 3, 7, 16, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 151, 152, 200}

// Wide: integers of over 128 bits in which a window of bits anywhere is
// arbitrary, with K and T around word sizes.
func Wide() {
	m := nd.Choose("method", 4)
	k, t := 0, 0
	if m != 2 {
		k = ks[nd.Choose("K", len(ks))]
	}
	if m == 2 {
		t = ts[nd.Choose("T", len(ts))]
	}
	if m == 3 {
		// pairs around each other
		t = []int{0, k - 1, k, k + 1, 2 * k, 64, 129}[nd.Choose("T", 7)]
		nd.Assume(t >= 0)
	}
	x, _ := new(big.Int).SetString(patterns[nd.Choose("pattern", len(patterns))], 16)
	w := nd.Param("window")
	p := nd.Choose("at", nd.Param("ats")) * nd.Param("step")
	y := nd.Big("y", w)
	x.AndNot(x, new(big.Int).Lsh(new(big.Int).Sub(pow2(w), big.NewInt(1)), uint(p)))
	x.Or(x, new(big.Int).Lsh(y, uint(p)))
	nd.Assume(nd.Not(nd.EqBig(x, new(big.Int))))
	decompose(x, 160, m, k, t)
}

// Blocks: integers made of repeated copies of an arbitrary block, so that
// dictionary terms repeat.
func Blocks() {
	w := nd.Param("w")
	m, k, t := params(w+2, w+2)
	y := nd.Big("y", w)
	z := nd.Big("z", w)
	x := new(big.Int)
	shape := nd.Choose("shape", 4)
	for i := 0; i < 3; i++ {
		b := y
		if shape == i {
			b = z
		}
		x.Lsh(x, uint(w+nd.Param("gap")))
		x.Or(x, b)
	}
	nd.Assume(nd.Not(nd.EqBig(x, new(big.Int))))
	decompose(x, 3*(w+nd.Param("gap")), m, k, t)
}

// Dictionary: the dictionary of any sum of terms.
func Dictionary() {
	n := nd.Choose("n", nd.Param("n")+1)
	s := dict.Sum{}
	var ds []*big.Int
	var es []uint
	for i := 0; i < n; i++ {
		d := nd.Big("d", nd.Param("bits"))
		e := uint(nd.Int("e", 0, 70))
		s = append(s, dict.Term{D: d, E: e})
		ds = append(ds, new(big.Int).Set(d))
		es = append(es, e)
	}
	dc := s.Dictionary()
	for i := range s {
		nd.Assert(nd.And(nd.EqBig(s[i].D, ds[i]), s[i].E == es[i]), "Dictionary leaves the sum alone")
	}
	for i := range dc {
		if i > 0 {
			nd.Assert(nd.LtBig(dc[i-1], dc[i]), "dictionary ascends without repeats")
		}
		nd.Assert(member(ds, dc[i]), "dictionary holds only terms")
	}
	for _, d := range ds {
		nd.Assert(member(dc, d), "dictionary holds every term")
	}
	nd.Observe("len", len(dc))
}

// SumInt: the integer and the sorting of a sum of terms with arbitrary
// exponents.
func SumInt() {
	n := nd.Choose("n", nd.Param("n")+1)
	s := dict.Sum{}
	want := new(big.Int)
	for i := 0; i < n; i++ {
		d := nd.Big("d", nd.Param("bits"))
		e := uint(nd.Conc(nd.Int("e", 0, nd.Param("emax"))))
		s = append(s, dict.Term{D: d, E: e})
		want.Add(want, new(big.Int).Mul(d, pow2(int(e))))
		nd.Assert(nd.EqBig(s[i].Int(), new(big.Int).Mul(d, pow2(int(e)))), "Term.Int")
	}
	nd.Assert(nd.EqBig(s.Int(), want), "Sum.Int")
	before := append(dict.Sum{}, s...)
	s.SortByExponent()
	nd.Assert(len(s) == n, "SortByExponent keeps the length")
	nd.Assert(nd.EqBig(s.Int(), want), "SortByExponent keeps the integer")
	for i := 1; i < n; i++ {
		nd.Assert(s[i-1].E <= s[i].E, "sorted by exponent")
	}
	for i := range before {
		found := 0
		for j := range s {
			if s[j].D == before[i].D && s[j].E == before[i].E {
				found++
			}
		}
		nd.Assert(found == 1, "every term kept")
	}
}

// belowAny is d < 2^k for any k.
func belowAny(d *big.Int, k uint64, bits int) bool {
	r := k >= uint64(bits)
	for j := 0; j < bits; j++ {
		r = nd.Or(r, nd.And(k == uint64(j), nd.LtBig(d, pow2(j))))
	}
	return r
}

// runAny is d = 2^n - 1 with more than k ones, at most t unless t is zero.
func runAny(d *big.Int, k, t uint64, bits int) bool {
	r := false
	for n := 1; n <= bits; n++ {
		isRun := nd.EqBig(d, new(big.Int).Sub(pow2(n), big.NewInt(1)))
		r = nd.Or(r, nd.And(isRun, uint64(n) > k, nd.Or(t == 0, uint64(n) <= t)))
	}
	return r
}

// Any: every K and T a caller can write down.
func Any() {
	bits := nd.Param("bits")
	m := nd.Choose("method", 4)
	k, t := uint64(0), uint64(0)
	if m != 2 {
		k = nd.Uint64("K")
		nd.Assume(k >= 1)
	}
	if m >= 2 {
		t = nd.Uint64("T")
	}
	x := nd.Big("x", bits)
	nd.Assume(nd.Not(nd.EqBig(x, new(big.Int))))
	orig := new(big.Int).Set(x)
	var s dict.Sum
	switch m {
	case 0:
		s = dict.FixedWindow{K: uint(k)}.Decompose(x)
	case 1:
		s = dict.SlidingWindow{K: uint(k)}.Decompose(x)
	case 2:
		s = dict.RunLength{T: uint(t)}.Decompose(x)
	case 3:
		s = dict.Hybrid{K: uint(k), T: uint(t)}.Decompose(x)
	}
	check("any", x, orig, s, bits, func(d *big.Int) bool {
		switch m {
		case 0:
			return belowAny(d, k, bits)
		case 1:
			return nd.And(odd(d), belowAny(d, k, bits))
		case 2:
			return runAny(d, 0, t, bits)
		}
		return nd.And(odd(d), nd.Or(belowAny(d, k, bits), runAny(d, k, t, bits)))
	})
}

// Tall: runs and gaps longer than a byte can count, with some bits open.
func Tall() {
	ns := []int{256, 300, 255, 257, 520}
	n := ns[nd.Choose("size", nd.Param("sizes"))]
	x := new(big.Int).Sub(pow2(n), big.NewInt(1))
	switch nd.Choose("shape", 3) {
	case 1: // a long gap
		x = new(big.Int).Lsh(big.NewInt(5), uint(n))
		x.Or(x, big.NewInt(0xb))
	case 2: // two runs
		x.Lsh(x, 40)
		x.Or(x, big.NewInt(0x1ffff))
	}
	bits := n + 40
	w := nd.Param("window")
	p := []int{0, n - 1, 20, 128, 256}[nd.Choose("at", nd.Param("ats"))]
	y := nd.Big("y", w)
	x.AndNot(x, new(big.Int).Lsh(new(big.Int).Sub(pow2(w), big.NewInt(1)), uint(p)))
	x.Or(x, new(big.Int).Lsh(y, uint(p)))
	large := []int{256, 1, 257, 100, 255, 300, 512}
	m := nd.Choose("method", 4)
	k, t := 0, 0
	if m != 2 {
		k = large[nd.Choose("K", nd.Param("ks"))]
	}
	if m >= 2 {
		t = append([]int{0}, large...)[nd.Choose("T", nd.Param("ks")+1)]
	}
	decompose(x, bits, m, k, t)
}
