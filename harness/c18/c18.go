// Package c18 checks the program builders and analyses.
package c18

import (
	"math/big"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/zzverif/nd"
)

type op struct{ i, j int }

func between(x, lo, hi int) bool { return nd.And(lo <= x, x <= hi) }

func same(p addchain.Program, want []op) bool {
	if len(p) != len(want) {
		return false
	}
	ok := true
	for k := range want {
		ok = nd.And(ok, nd.Or(
			nd.And(p[k].I == want[k].i, p[k].J == want[k].j),
			nd.And(p[k].I == want[k].j, p[k].J == want[k].i)))
	}
	return ok
}

// Builders: arbitrary builder call sequences with arbitrary 64-bit operands,
// then all analyses.
func Builders() {
	p := addchain.Program{}
	if pre := nd.Param("prefix"); pre > 0 {
		// start from a longer program
		for k := 0; k < pre; k++ {
			p = append(p, addchain.Op{I: k - k%3, J: k})
		}
	}
	want := []op{}
	for _, o := range p {
		want = append(want, op{o.I, o.J})
	}
	calls := nd.Param("calls")
	const lo, hi = -1 << 63, 1<<63 - 1
	rejected := 0
	for c := 0; c < calls; c++ {
		n := len(want)
		kind := nd.Choose("kind", 3)
		i := nd.Int("i", lo, hi)
		j := i
		s := 1
		var idx int
		var err error
		var good bool
		switch kind {
		case 0:
			j = nd.Int("j", lo, hi)
			good = nd.And(between(i, 0, n), between(j, 0, n))
			idx, err = p.Add(i, j)
		case 1:
			good = between(i, 0, n)
			idx, err = p.Double(i)
		case 2:
			good = between(i, 0, n)
			s = nd.Int("s", 1, hi)
			nd.Assume(nd.Or(nd.Not(good), s <= nd.Param("shift")))
			idx, err = p.Shift(i, uint(s))
		}
		nd.Assert(nd.Iff(err == nil, good), "a call is accepted exactly when its operands exist")
		if err != nil {
			rejected++
			nd.Assert(same(p, want), "a rejected call changes nothing")
			nd.Reach("rejected")
			continue
		}
		want = append(want, op{i, j})
		for k := 1; k < s; k++ {
			want = append(want, op{len(want), len(want)})
		}
		nd.Assert(same(p, want), "an accepted call appends exactly its operations")
		nd.Assert(idx == len(want), "an accepted call returns the new last index")
		nd.Reach("accepted")
	}
	nd.Observe("rejected", rejected)
	nd.Observe("len", len(p))
	analyses(p, want)
}

// Tall: long programs around the sizes where machine words end, followed by a
// builder call with arbitrary operands.
func Tall() {
	sizes := []int{29, 30, 31, 32, 61, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256}
	if nd.Param("wide") == 0 {
		sizes = []int{31, 62, 63, 64, 127, 255}
	}
	n := sizes[nd.Choose("size", len(sizes))]
	p := addchain.Program{}
	want := []op{}
	seed := nd.Choose("shape", 3)
	for k := 0; k < n; k++ {
		o := op{k, k}
		switch seed {
		case 1:
			o = op{k * 5 / 7, k}
			if k%3 == 2 {
				o = op{k / 2, k / 2}
			}
		case 2:
			// every element reads the first one
			o = op{0, k}
		}
		i, err := p.Add(o.i, o.j)
		nd.Assert(err == nil && i == k+1, "an accepted call returns the new last index")
		want = append(want, o)
	}
	const lo, hi = -1 << 63, 1<<63 - 1
	i, j := nd.Int("i", lo, hi), nd.Int("j", lo, hi)
	// the operands that exist are few places of the program
	near := func(x int) bool {
		return nd.Or(nd.Not(between(x, 0, n)), nd.Or(x == 0, nd.Or(x == 31, nd.Or(x == n/2, x >= n-1))))
	}
	nd.Assume(nd.And(near(i), near(j)))
	var idx int
	var err error
	var good bool
	s := 1
	switch nd.Choose("kind", 3) {
	case 0:
		good = nd.And(between(i, 0, n), between(j, 0, n))
		idx, err = p.Add(i, j)
	case 1:
		j = i
		good = between(i, 0, n)
		idx, err = p.Double(i)
	case 2:
		j = i
		good = between(i, 0, n)
		s = []int{1, 2, 63, 64, 65, 256, 257}[nd.Choose("s", nd.Param("shifts"))]
		idx, err = p.Shift(i, uint(s))
	}
	nd.Assert(nd.Iff(err == nil, good), "a call is accepted exactly when its operands exist")
	if err == nil {
		want = append(want, op{i, j})
		for k := 1; k < s; k++ {
			want = append(want, op{len(want), len(want)})
		}
		nd.Assert(idx == len(want), "an accepted call returns the new last index")
		nd.Reach("accepted")
	} else {
		nd.Reach("rejected")
	}
	nd.Assert(same(p, want), "the program holds exactly the accepted operations")
	nd.Observe("len", len(p))
	analyses(p, want)
}

func analyses(p addchain.Program, want []op) {
	n := len(want)
	// evaluation against independently computed values
	vals := []*big.Int{big.NewInt(1)}
	doubles, adds := 0, 0
	reads := make([]int, n+1)
	deps := []*big.Int{big.NewInt(1)}
	for k := range want {
		i, j := nd.Conc(want[k].i), nd.Conc(want[k].j)
		vals = append(vals, new(big.Int).Add(vals[i], vals[j]))
		reads[i]++
		if i == j {
			doubles++
		} else {
			adds++
			reads[j]++
		}
		d := new(big.Int).Or(deps[i], deps[j])
		d.SetBit(d, k+1, 1)
		deps = append(deps, d)
	}
	c := p.Evaluate()
	nd.Assert(len(c) == n+1, "evaluation is one longer than the program")
	for k := range c {
		nd.Assert(c[k].Cmp(vals[k]) == 0, "evaluated element is the sum of its operands")
	}
	gd, ga := p.Count()
	nd.Assert(gd == doubles && ga == adds, "Count")
	nd.Assert(p.Doubles() == doubles && p.Adds() == adds, "Doubles and Adds")
	nd.Assert(gd+ga == n, "doubles + adds = length")
	r := p.ReadCounts()
	nd.Assert(len(r) == n+1, "one read count per element")
	allreads := true
	for k := range r {
		allreads = nd.And(allreads, r[k] == reads[k])
	}
	nd.Assert(allreads, "read count = operations using the element")
	ds := p.Dependencies()
	nd.Assert(len(ds) == n+1, "one dependency set per element")
	for k := range ds {
		nd.Assert(ds[k].Cmp(deps[k]) == 0, "dependency set = reflexive-transitive closure")
	}
	nd.Assert(same(p, want), "analyses leave the program alone")
	e := p.Evaluate()
	e[0].SetInt64(77)
	nd.Assert(p.Evaluate()[0].Cmp(big.NewInt(1)) == 0, "evaluations are independent")
	nd.Observe("reads", r)
}

// ascending makes a valid ascending chain of symbolic elements.
func ascending(name string, n int) addchain.Chain {
	one := big.NewInt(1)
	c := addchain.Chain{big.NewInt(1)}
	for k := 1; k < n; k++ {
		x := nd.Big(name, k+1)
		nd.Assume(nd.LtBig(c[k-1], x))
		any := false
		for i := 0; i < k; i++ {
			for j := i; j < k; j++ {
				any = nd.Or(any, nd.EqBig(new(big.Int).Add(c[i], c[j]), x))
			}
		}
		nd.Assume(any)
		c = append(c, x)
	}
	if k := nd.Param("scale"); k > 0 && n > 0 {
		// prefix of doublings: the chain scaled by 2^k behind 1, 2, ..., 2^k
		w := addchain.Chain{}
		for e := 0; e < k; e++ {
			w = append(w, new(big.Int).Lsh(one, uint(e)))
		}
		for _, x := range c {
			w = append(w, new(big.Int).Lsh(x, uint(k)))
		}
		return w
	}
	return c
}

func clones(c []*big.Int) []*big.Int {
	var r []*big.Int
	for _, x := range c {
		r = append(r, new(big.Int).Set(x))
	}
	return r
}

func equal(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = nd.And(ok, nd.EqBig(a[i], b[i]))
	}
	return ok
}

// valid is the definition of an ascending addition chain's validity.
func valid(c []*big.Int) bool {
	if len(c) == 0 {
		return false
	}
	ok := nd.EqBig(c[0], big.NewInt(1))
	for k := 1; k < len(c); k++ {
		any := false
		for i := 0; i < k; i++ {
			ok = nd.And(ok, nd.Not(nd.EqBig(c[i], c[k])))
			for j := i; j < k; j++ {
				any = nd.Or(any, nd.EqBig(new(big.Int).Add(c[i], c[j]), c[k]))
			}
		}
		ok = nd.And(ok, any)
	}
	return ok
}

// withRoom copies c into a slice with spare capacity, as a caller that built
// the chain by appending has.
func withRoom(c addchain.Chain) addchain.Chain {
	r := make(addchain.Chain, 0, len(c)+8)
	return append(r, c...)
}

// Product of two valid ascending chains.
func Product() {
	a := withRoom(ascending("a", 1+nd.Choose("na", nd.Param("na"))))
	b := withRoom(ascending("b", 1+nd.Choose("nb", nd.Param("nb"))))
	ao, bo := clones(a), clones(b)
	want := new(big.Int).Mul(ao[len(ao)-1], bo[len(bo)-1])
	c := addchain.Product(a, b)
	nd.Assert(valid(c), "the product is a valid chain")
	nd.Assert(nd.EqBig(c[len(c)-1], want), "the product ends at the product of the ends")
	nd.Assert(nd.And(equal(a, ao), equal(b, bo)), "Product leaves its arguments alone")
	co := clones(c)
	addchain.Product(a, a)
	addchain.Product(c, b)
	addchain.Plus(a, a[0])
	nd.Assert(equal(c, co), "a later Product leaves an earlier result alone")
	nd.Assert(nd.And(equal(a, ao), equal(b, bo)), "Product leaves its arguments alone")
	nd.Observe("c", []*big.Int(c))
}

// Plus of a valid ascending chain and one of its members.
func Plus() {
	a := withRoom(ascending("a", 1+nd.Choose("na", nd.Param("na"))))
	ao := clones(a)
	k := nd.Choose("k", len(a))
	x := a[k]
	want := new(big.Int).Add(ao[len(ao)-1], ao[k])
	c := addchain.Plus(a, x)
	nd.Assert(valid(c), "the plus is a valid chain")
	nd.Assert(nd.EqBig(c[len(c)-1], want), "plus ends at the end plus the member")
	nd.Assert(equal(a, ao), "Plus leaves its arguments alone")
	co := clones(c)
	addchain.Plus(a, a[0])
	addchain.Plus(c, c[0])
	addchain.Product(a, a)
	nd.Assert(equal(c, co), "a later Plus leaves an earlier result alone")
	nd.Assert(equal(a, ao), "Plus leaves its arguments alone")
	nd.Observe("c", []*big.Int(c))
}
