// Package c08 checks the addition-sequence algorithms.
package c08

import (
	"math/big"

	"github.com/mmcloughlin/addchain/alg"
	"github.com/mmcloughlin/addchain/alg/contfrac"
	"github.com/mmcloughlin/addchain/alg/heuristic"
	"github.com/mmcloughlin/addchain/zzverif/libchain"
	"github.com/mmcloughlin/addchain/zzverif/nd"
)

var (
	halving = heuristic.Halving{}
	delta   = heuristic.DeltaLargest{}
	approx  = heuristic.Approximation{}
)

// total heuristics, alone or at the end of a composition.
func total() []heuristic.Heuristic {
	return []heuristic.Heuristic{
		heuristic.UseFirst(halving, delta),
		heuristic.UseFirst(halving, approx),
		delta,
		approx,
		heuristic.UseFirst(heuristic.UseFirst(), heuristic.UseFirst(halving), halving, heuristic.UseFirst(approx, delta)),
	}
}

func partial() []heuristic.Heuristic {
	return []heuristic.Heuristic{
		halving,
		heuristic.UseFirst(halving, halving),
		heuristic.UseFirst(),
	}
}

// large reports that a strategy is for large inputs: the others try several
// values at each step and are documented not to be.
func large(s contfrac.Strategy) bool { return s.Singleton() || s.String() == "sqrt" }

func check(a alg.SequenceAlgorithm, targets []*big.Int, mayfail bool) {
	ptrs := append([]*big.Int{}, targets...)
	orig := libchain.Clones(targets)
	c, err := a.FindSequence(targets)
	for i := range ptrs {
		nd.Assert(nd.EqBig(ptrs[i], orig[i]), "values of the targets are unchanged")
	}
	if mayfail && err != nil {
		nd.Reach("failure reported")
		return
	}
	nd.Assert(err == nil, "no error")
	nd.Observe("chain", c)
	if len(c) > 20 {
		nd.Assert(libchain.ValidLong(c), "the result is an addition chain")
	} else {
		nd.Assert(libchain.Valid(c), "the result is an addition chain")
	}
	for i := range orig {
		nd.Assert(libchain.Contains(c, orig[i]), "the chain contains every target")
	}
	nd.Reach("found")
}

func small(hi int) []*big.Int {
	n := nd.Param("n")
	var t []*big.Int
	for k := 0; k < n; k++ {
		t = append(t, big.NewInt(int64(nd.Int("t", 1, hi))))
	}
	return t
}

// Total: every list of small targets.
func Total() {
	h := total()
	k := nd.Choose("h", len(h))
	check(heuristic.NewAlgorithm(h[k]), small(nd.Param("hi")), false)
}

// Partial: every list of small targets.
func Partial() {
	h := partial()
	k := nd.Choose("h", len(h))
	check(heuristic.NewAlgorithm(h[k]), small(nd.Param("hi")), true)
}

// Fractions: every list of small targets.
func Fractions() {
	s := contfrac.Strategies[nd.Choose("s", len(contfrac.Strategies))]
	hi := nd.Param("hi")
	if !large(s) {
		hi = nd.Param("few")
	}
	check(contfrac.NewAlgorithm(s), small(hi), false)
}

// wide makes targets around powers of two and multiples of each other.
func wide() []*big.Int {
	e := uint(nd.Param("bits"))
	num := func(name string) *big.Int { return big.NewInt(int64(nd.Conc(nd.Int(name, 0, nd.Param("hi"))))) }
	one := big.NewInt(1)
	top := new(big.Int).Lsh(one, e)
	x := func() *big.Int { return new(big.Int).Add(top, num("a")) }
	y := func() *big.Int { return new(big.Int).Sub(top, new(big.Int).Add(one, num("b"))) }
	z := func() *big.Int { return new(big.Int).Lsh(new(big.Int).Add(one, num("c")), e/2) }
	switch nd.Choose("list", 7) {
	case 0:
		return []*big.Int{x()}
	case 1:
		return []*big.Int{y()}
	case 2:
		return []*big.Int{x(), one, z()}
	case 3:
		z := z()
		return []*big.Int{z, big.NewInt(2), z, one, one}
	case 4:
		x := x()
		return []*big.Int{new(big.Int).Mul(x, z()), x, new(big.Int).Set(x)}
	case 5:
		y, z := y(), z()
		return []*big.Int{new(big.Int).Add(new(big.Int).Mul(y, big.NewInt(5)), z), z, y}
	}
	v := y()
	return []*big.Int{big.NewInt(7), v, new(big.Int).Rsh(v, e-3), big.NewInt(3)}
}

// WideFractions: large targets.
func WideFractions() {
	var s []contfrac.Strategy
	for _, x := range contfrac.Strategies {
		if large(x) {
			s = append(s, x)
		}
	}
	nd.Assert(len(s) > 0, "there are strategies for large inputs")
	check(contfrac.NewAlgorithm(s[nd.Choose("s", len(s))]), wide(), false)
}

// WideHeuristics: large targets, for the compositions that halve.
func WideHeuristics() {
	h := total()[:2]
	check(heuristic.NewAlgorithm(h[nd.Choose("h", len(h))]), wide(), false)
}

// proto makes an arbitrary protosequence and a target above it.
func proto() (f []*big.Int, target *big.Int) {
	n, bits := nd.Param("n"), nd.Param("bits")
	f = []*big.Int{big.NewInt(1), big.NewInt(2)}
	n = nd.Choose("n", n+1)
	for k := 0; k < n; k++ {
		x := nd.Big("f", bits)
		nd.Assume(nd.LtBig(f[len(f)-1], x))
		f = append(f, x)
	}
	target = nd.Big("target", bits)
	nd.Assume(nd.LtBig(f[len(f)-1], target))
	return f, target
}

// step checks what the framework needs of a suggestion: together with the
// protosequence it leads to the target by one addition of smaller values.
func step(h heuristic.Heuristic, f []*big.Int, target *big.Int, mayfail bool) {
	orig := libchain.Clones(f)
	t := new(big.Int).Set(target)
	insert := h.Suggest(f, target)
	nd.Assert(libchain.Same(f, orig), "the protosequence is unchanged")
	nd.Assert(nd.EqBig(target, t), "the target is unchanged")
	if insert == nil {
		nd.Assert(mayfail, "a total heuristic makes a suggestion")
		return
	}
	nd.Reach("suggestion")
	all := append(append([]*big.Int{}, f...), insert...)
	for _, x := range insert {
		nd.Assert(nd.And(x.Sign() > 0, nd.LtBig(x, t)), "suggestions are positive and below the target")
	}
	sum := false
	for i := range all {
		for j := i; j < len(all); j++ {
			sum = nd.Or(sum, libchainSum(all[i], all[j], t))
		}
	}
	nd.Assert(sum, "the target is a sum after the suggestion")
}

func libchainSum(x, y, z *big.Int) bool { return nd.EqBig(new(big.Int).Add(x, y), z) }

// Step: the suggestions of the subtractive heuristics on arbitrary integers.
func Step() {
	f, t := proto()
	if nd.Choose("h", 2) == 0 {
		step(delta, f, t, false)
	} else {
		step(approx, f, t, false)
	}
}

// StepHalving: the suggestions of halving when the target is a few times the
// next value.
func StepHalving() {
	bits := nd.Param("bits")
	next := nd.Big("next", bits)
	nd.Assume(nd.LtBig(big.NewInt(1), next))
	rem := nd.Big("rem", bits)
	nd.Assume(nd.LtBig(rem, next))
	q := 1 + nd.Choose("q", nd.Param("q"))
	t := new(big.Int).Add(new(big.Int).Mul(next, big.NewInt(int64(q))), rem)
	f := []*big.Int{big.NewInt(1), big.NewInt(2)}
	if nd.Not(nd.EqBig(next, big.NewInt(2))) {
		f = append(f, next)
	}
	nd.Assume(nd.LtBig(next, t))
	step(heuristic.Halving{}, f, t, true)
}

var lists = [][]int64{
	{1, 3, 5, 7, 9, 11, 13, 15},
	{3, 6, 12, 24, 48, 5, 10},
	{47, 117},
	{2, 3, 5, 8, 13, 21, 34, 55},
	{170, 85, 42, 21, 10},
	{63, 31, 15, 7, 127, 255},
	{11, 5, 90, 23, 45, 11},
	{257, 256, 255, 128, 129},
	{1000, 999, 333, 111, 37},
}

// Lists: lists of several targets in any order, some arbitrary.
func Lists() {
	var t []*big.Int
	for _, x := range lists[nd.Choose("list", len(lists))] {
		t = append(t, big.NewInt(x))
	}
	for k := 0; k < nd.Param("n"); k++ {
		at := nd.Choose("at", 2) * (len(t) / 2)
		x := big.NewInt(int64(nd.Int("t", 1, nd.Param("hi"))))
		t = append(t[:at:at], append([]*big.Int{x}, t[at:]...)...)
	}
	var as []alg.SequenceAlgorithm
	for _, s := range contfrac.Strategies {
		if large(s) {
			as = append(as, contfrac.NewAlgorithm(s))
		}
	}
	for _, h := range total() {
		as = append(as, heuristic.NewAlgorithm(h))
	}
	check(as[nd.Choose("alg", len(as))], t, false)
}
