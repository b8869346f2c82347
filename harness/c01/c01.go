// Package c01 checks the chain search algorithms.
package c01

import (
	"errors"
	"math/big"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/alg"
	"github.com/mmcloughlin/addchain/alg/binary"
	"github.com/mmcloughlin/addchain/alg/contfrac"
	"github.com/mmcloughlin/addchain/alg/dict"
	"github.com/mmcloughlin/addchain/alg/ensemble"
	"github.com/mmcloughlin/addchain/alg/exec"
	"github.com/mmcloughlin/addchain/alg/heuristic"
	"github.com/mmcloughlin/addchain/alg/opt"
	"github.com/mmcloughlin/addchain/zzverif/libchain"
	"github.com/mmcloughlin/addchain/zzverif/nd"
)

func valid(c []*big.Int) bool {
	if len(c) > 16 {
		return libchain.ValidLong(c)
	}
	return libchain.Valid(c)
}

// verify checks one execution of an algorithm.
func verify(a alg.ChainAlgorithm, n *big.Int) addchain.Chain {
	orig := new(big.Int).Set(n)
	r := exec.Execute(n, a)
	nd.Assert(nd.EqBig(n, orig), "the target is unmodified")
	nd.Assert(r.Err == nil, "no error")
	nd.Assert(r.Target != nil && nd.EqBig(r.Target, orig), "the result names the target")
	c := r.Chain
	nd.Observe("chain", c)
	nd.Assert(len(c) > 0 && valid(c), "the result is an addition chain")
	nd.Assert(nd.EqBig(c[len(c)-1], orig), "the chain ends at the target")
	p := r.Program
	nd.Assert(len(p) == len(c)-1, "one operation per non-initial element")
	ok := true
	for k, op := range p {
		nd.Assert(op.I >= 0 && op.I <= k && op.J >= 0 && op.J <= k, "operands refer to earlier elements")
		ok = nd.And(ok, nd.EqBig(new(big.Int).Add(c[op.I], c[op.J]), c[k+1]))
	}
	nd.Assert(ok, "the operations reproduce the sequence")
	nd.Reach("verified")
	return c
}

// check verifies an algorithm on n, again in arbitrary map order after another
// target, and on a fresh instance.
func check(make func() alg.ChainAlgorithm, n *big.Int) {
	a := make()
	c := libchain.Clones(verify(a, n))
	if nd.Param("again") == 0 {
		return
	}
	if _, err := a.FindChain(new(big.Int).Add(n, big.NewInt(5))); err != nil {
		nd.Fail("no error")
	}
	nd.MapOrder(true)
	d, err := a.FindChain(new(big.Int).Set(n))
	nd.MapOrder(false)
	nd.Assert(err == nil, "no error the second time")
	nd.Assert(libchain.Same(c, d), "the second run returns the same chain")
	d, err = make().FindChain(n)
	nd.Assert(err == nil, "no error from another instance")
	nd.Assert(libchain.Same(c, d), "another instance returns the same chain")
}

// Ensemble: every algorithm of the default ensemble on every small target.
func Ensemble() {
	as := ensemble.Ensemble()
	nd.Assert(len(as) > 0, "the ensemble is not empty")
	i := nd.Choose("alg", len(as))
	n := big.NewInt(int64(nd.Int("n", 1, nd.Param("hi"))))
	check(func() alg.ChainAlgorithm { return ensemble.Ensemble()[i] }, n)
}

var (
	halving = heuristic.Halving{}
	delta   = heuristic.DeltaLargest{}
	approx  = heuristic.Approximation{}
)

// sequence lists sequence algorithms; those that try several values at each
// step come last, and are for small inputs only.
func sequence() (as []alg.SequenceAlgorithm, large int) {
	as = []alg.SequenceAlgorithm{
		heuristic.NewAlgorithm(heuristic.UseFirst(halving, delta)),
		heuristic.NewAlgorithm(heuristic.UseFirst(halving, approx)),
	}
	var few []alg.SequenceAlgorithm
	for _, s := range contfrac.Strategies {
		if s.Singleton() || s.String() == "sqrt" {
			as = append(as, contfrac.NewAlgorithm(s))
		} else {
			few = append(few, contfrac.NewAlgorithm(s))
		}
	}
	large = len(as)
	as = append(as, few...)
	as = append(as, heuristic.NewAlgorithm(delta), heuristic.NewAlgorithm(approx))
	return as, large
}

func decomposers(k, t uint) []dict.Decomposer {
	return []dict.Decomposer{
		dict.FixedWindow{K: k},
		dict.SlidingWindow{K: k},
		dict.RunLength{T: t},
		dict.Hybrid{K: k, T: t},
	}
}

// Configured: other configurations the library exports, small targets.
func Configured() {
	n := big.NewInt(int64(nd.Int("n", 1, nd.Param("hi"))))
	as, _ := sequence()
	s := as[nd.Choose("seq", len(as))]
	var a alg.ChainAlgorithm
	switch nd.Choose("kind", 4) {
	case 0:
		k := uint(1 + nd.Choose("k", nd.Param("k")))
		t := uint(nd.Choose("t", nd.Param("t")+1))
		ds := decomposers(k, t)
		a = dict.NewAlgorithm(ds[nd.Choose("decomp", len(ds))], s)
	case 1:
		a = dict.NewRunsAlgorithm(s)
	case 2:
		a = alg.AsChainAlgorithm(s)
	default:
		a = binary.RightToLeft{}
	}
	if nd.Choose("opt", 2) == 1 {
		a = opt.Algorithm{Algorithm: a}
	}
	check(func() alg.ChainAlgorithm { return a }, n)
}

// patterns are large targets with bits left open: x.
var patterns = []string{
	"x1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111x",
	"1x00000000000000000000000000000000000000000000000000000000000000000000000000000000000000x0",
	"10101010101010101010101010101010101010101010101010101010101010101010101010101010101010xx",
	"1111111111111111111111111111111111x000000000000000000000001111111111111111111111111111xx",
	"110010010000111111011010101000100010000101101000110000100011x0100110001001100011001100x",
	"1xx000000000000000000000000000000000000000000000000000000000000000000000000000000000000x",
}

var longer = []string{
	"1111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111x",
	"1x0000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001",
}

func pattern(p string) *big.Int {
	n := new(big.Int)
	for i := 0; i < len(p); i++ {
		n.Lsh(n, 1)
		switch p[i] {
		case '1':
			n.SetBit(n, 0, 1)
		case 'x':
			if nd.Choose("bit", 2) == 1 {
				n.SetBit(n, 0, 1)
			}
		}
	}
	return n
}

func wide() *big.Int {
	switch nd.Param("long") {
	case 0:
		return pattern(patterns[4])
	case 1:
		return pattern(longer[nd.Choose("pattern", len(longer))])
	case 3:
		return pattern(longer[0])
	}
	return pattern(patterns[nd.Choose("pattern", len(patterns))])
}

// WideEnsemble: the default ensemble on large targets.
func WideEnsemble() {
	n := wide()
	as := ensemble.Ensemble()
	i := nd.Choose("alg", len(as))
	check(func() alg.ChainAlgorithm { return ensemble.Ensemble()[i] }, n)
}

// WideConfigured: other configurations on large targets.
func WideConfigured() {
	n := wide()
	as, large := sequence()
	s := as[nd.Choose("seq", large)]
	ks := []uint{1, 2, 3, 7, 63, 64, 65, 100}
	var a alg.ChainAlgorithm
	switch nd.Choose("kind", 4) {
	case 0:
		k := ks[nd.Choose("k", len(ks))]
		a = dict.NewAlgorithm([]dict.Decomposer{dict.FixedWindow{K: k}, dict.SlidingWindow{K: k}}[nd.Choose("decomp", 2)], s)
	case 1:
		k := ks[nd.Choose("k", len(ks))]
		t := append([]uint{0}, ks...)[nd.Choose("t", len(ks)+1)]
		a = dict.NewAlgorithm(dict.Hybrid{K: k, T: t}, s)
	case 2:
		t := append([]uint{0}, ks...)[nd.Choose("t", len(ks)+1)]
		a = dict.NewAlgorithm(dict.RunLength{T: t}, s)
	default:
		a = []alg.ChainAlgorithm{dict.NewRunsAlgorithm(s), alg.AsChainAlgorithm(s), binary.RightToLeft{}}[nd.Choose("other", 3)]
	}
	if nd.Choose("opt", 2) == 1 {
		a = opt.Algorithm{Algorithm: a}
	}
	check(func() alg.ChainAlgorithm { return a }, n)
}

// decomp is a decomposer that returns an arbitrary sum of disjoint terms.
type decomp struct {
	sum dict.Sum
}

func (d decomp) Decompose(*big.Int) dict.Sum { return append(dict.Sum{}, d.sum...) }
func (d decomp) String() string              { return "decomp" }

// seq is a sequence algorithm that returns any ascending chain with the
// requested values.
type seq struct {
	c       addchain.Chain
	targets []*big.Int
	err     error
}

func (s *seq) FindSequence(ts []*big.Int) (addchain.Chain, error) {
	s.targets = ts
	if s.err != nil {
		return nil, s.err
	}
	return libchain.Clones(s.c), nil
}
func (s *seq) String() string { return "seq" }

// Parts: the dictionary algorithm around any decomposition and any chain for
// its dictionary.
func Parts() {
	c := libchain.Grow(addchain.Int64s(1), nd.Choose("ops", nd.Param("ops")+1))
	for i := 1; i < len(c); i++ {
		nd.Assume(nd.LtBig(c[i-1], c[i]))
	}
	terms := 1 + nd.Choose("terms", nd.Param("terms"))
	var sum dict.Sum
	var dict_ []*big.Int
	n := new(big.Int)
	e := 0
	used := false
	for i := 0; i < terms; i++ {
		k := nd.Choose("d", len(c))
		used = used || k == len(c)-1
		e += nd.Choose("gap", nd.Param("gap"))
		t := dict.Term{D: new(big.Int).Set(c[k]), E: uint(e)}
		sum = append(sum, t)
		dict_ = append(dict_, c[k])
		n.Add(n, new(big.Int).Lsh(c[k], uint(e)))
		e += c[k].BitLen()
	}
	nd.Assume(used) // the chain ends at the largest dictionary entry
	s := &seq{c: c}
	a := dict.NewAlgorithm(decomp{sum}, s)
	check(func() alg.ChainAlgorithm { return a }, n)
	for _, d := range dict_ {
		nd.Assert(libchain.Contains(s.targets, d), "the whole dictionary is requested")
	}
	s.err = errors.New("stub")
	r, err := a.FindChain(n)
	nd.Assert(err != nil && len(r) == 0, "failures of the sequence algorithm are reported")
}

// Edges: targets next to powers of two and their multiples.
func Edges() {
	es := []uint{8, 31, 32, 33, 63, 64, 65, 127, 128}
	e := es[nd.Choose("e", nd.Param("sizes"))]
	n := new(big.Int).Lsh(big.NewInt(int64(1+2*nd.Choose("m", nd.Param("odd")))), e)
	n.Add(n, big.NewInt(int64(nd.Conc(nd.Int("d", -nd.Param("d"), nd.Param("d"))))))
	var a alg.ChainAlgorithm
	as := ensemble.Ensemble()
	i := nd.Choose("alg", len(as)+1)
	if i == len(as) {
		a = binary.RightToLeft{}
	} else {
		a = as[i]
	}
	check(func() alg.ChainAlgorithm { return a }, n)
}
