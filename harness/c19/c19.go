// Package c19 checks the multi-precision helpers against their definitions.
package c19

import (
	"math/big"

	"github.com/mmcloughlin/addchain/internal/bigint"
	"github.com/mmcloughlin/addchain/internal/bigints"
	"github.com/mmcloughlin/addchain/internal/bigvector"
	"github.com/mmcloughlin/addchain/zzverif/nd"
)

var one = big.NewInt(1)

func pow2(e int) *big.Int { return new(big.Int).SetBit(new(big.Int), e, 1) }

// floorShift is floor(x / 2^l).
func floorShift(x *big.Int, l int) *big.Int {
	return new(big.Int).Div(x, pow2(l)) // Euclidean, positive divisor: floor
}

// Constants: Pow2, Mask, Ones, Zero, One.
func Constants() {
	e := nd.Choose("e", nd.Param("max")+1)
	p := bigint.Pow2(uint(e))
	nd.Assert(p.Cmp(pow2(e)) == 0, "Pow2(e) = 2^e")
	p.SetInt64(5)
	nd.Assert(bigint.Pow2(uint(e)).Cmp(pow2(e)) == 0, "Pow2 results are independent")
	o := bigint.Ones(uint(e))
	want := new(big.Int)
	for i := 0; i < e; i++ {
		want.SetBit(want, i, 1)
	}
	nd.Assert(o.Cmp(want) == 0, "Ones(n) = 2^n - 1")
	l := nd.Choose("l", e+1)
	m := bigint.Mask(uint(l), uint(e))
	want = new(big.Int)
	for i := l; i < e; i++ {
		want.SetBit(want, i, 1)
	}
	nd.Assert(m.Cmp(want) == 0, "Mask has exactly bits l..h-1")
	z, w := bigint.Zero(), bigint.One()
	z.SetInt64(9)
	w.SetInt64(9)
	nd.Assert(bigint.Zero().Sign() == 0 && bigint.One().Cmp(one) == 0, "Zero and One")
	nd.Observe("mask", m)
}

// Extract bits of an arbitrary integer.
func Extract() {
	x := nd.BigSigned("x", nd.Param("bits"))
	o := new(big.Int).Set(x)
	h := nd.Choose("h", nd.Param("max")+1)
	l := nd.Choose("l", h+1)
	e := bigint.Extract(x, uint(l), uint(h))
	want := new(big.Int).Mod(floorShift(o, l), pow2(h-l))
	nd.Assert(nd.EqBig(e, want), "Extract = floor(x/2^l) mod 2^(h-l)")
	nd.Assert(nd.EqBig(x, o), "argument unchanged")
	e.SetInt64(1)
	nd.Assert(nd.EqBig(x, o), "result is independent of the argument")
	nd.Observe("e", want)
}

// Pow2Tests: IsPow2, Pow2UpTo.
func Pow2Tests() {
	bits := nd.Param("bits")
	x := nd.BigSigned("x", bits)
	o := new(big.Int).Set(x)
	spec := false
	for i := 0; i < bits; i++ {
		spec = nd.Or(spec, nd.EqBig(o, pow2(i)))
	}
	got := bigint.IsPow2(x)
	nd.Assert(nd.Iff(got, spec), "IsPow2")
	nd.Assert(nd.EqBig(x, o), "argument unchanged")
	nd.Observe("is", got)
	ps := bigint.Pow2UpTo(x)
	for i := range ps {
		nd.Assert(nd.EqBig(ps[i], pow2(i)), "powers in order")
		nd.Assert(nd.Not(nd.LtBig(o, ps[i])), "powers at most x")
	}
	nd.Assert(nd.LtBig(o, pow2(len(ps))), "all powers listed")
	nd.Assert(nd.EqBig(x, o), "argument unchanged")
	for i := range ps {
		ps[i].SetInt64(int64(100 + i))
	}
	for i := range ps {
		nd.Assert(ps[i].Int64() == int64(100+i), "listed powers are separate values")
	}
	nd.Assert(nd.EqBig(x, o), "argument unchanged")
}

// BitsSet of a sparse or short integer placed anywhere.
func BitsSet() {
	lo := nd.Big("lo", nd.Param("lo"))
	hi := nd.Big("hi", nd.Param("hi"))
	sh := nd.Choose("shift", nd.Param("shift")+1)
	x := new(big.Int).Add(lo, new(big.Int).Lsh(hi, uint(nd.Param("lo")+sh)))
	o := new(big.Int).Set(x)
	s := bigint.BitsSet(x)
	got := new(big.Int)
	for i, b := range s {
		nd.Assert(b >= 0 && (i == 0 || s[i-1] < b), "positions ascend")
		got.SetBit(got, b, 1)
	}
	nd.Assert(nd.EqBig(got, o), "exactly the set bits are listed")
	nd.Assert(nd.EqBig(x, o), "argument unchanged")
	nd.Observe("s", s)
}

// MinMax and comparisons.
func Compare() {
	bits := nd.Param("bits")
	x, y := nd.BigSigned("x", bits), nd.BigSigned("y", bits)
	xo, yo := new(big.Int).Set(x), new(big.Int).Set(y)
	lt := nd.LtBig(xo, yo)
	min, max := bigint.MinMax(x, y)
	nd.Assert(nd.EqBig(min, nd.IteBig(lt, xo, yo)), "minimum")
	nd.Assert(nd.EqBig(max, nd.IteBig(lt, yo, xo)), "maximum")
	nd.Assert(nd.Iff(bigint.Equal(x, y), nd.EqBig(xo, yo)), "Equal")
	nd.Assert(nd.Iff(bigint.IsZero(x), nd.EqBig(xo, new(big.Int))), "IsZero")
	nd.Assert(nd.Iff(bigint.IsNonZero(x), nd.Not(nd.EqBig(xo, new(big.Int)))), "IsNonZero")
	k := nd.Int("k", -1<<63, 1<<63-1)
	nd.Assert(nd.Iff(bigint.EqualInt64(x, int64(k)), nd.EqBig(xo, big.NewInt(int64(k)))), "EqualInt64")
	c := bigint.Clone(x)
	nd.Assert(nd.EqBig(c, xo), "Clone equals")
	c.Add(c, one)
	nd.Assert(nd.And(nd.EqBig(x, xo), nd.EqBig(y, yo)), "arguments unchanged")
	nd.Observe("min", min)
}

// Limbs: Uint64s and BytesLittleEndian.
func Limbs() {
	bits := nd.Param("bits")
	x := nd.Big("x", bits)
	neg := nd.Choose("neg", 2) == 1
	o := new(big.Int).Set(x)
	if !neg {
		ws := bigint.Uint64s(x)
		sum := new(big.Int)
		for i := len(ws) - 1; i >= 0; i-- {
			sum.Lsh(sum, 64)
			sum.Add(sum, new(big.Int).SetUint64(ws[i]))
		}
		nd.Assert(nd.EqBig(sum, o), "limbs represent x")
		if len(ws) > 0 {
			nd.Assert(ws[len(ws)-1] != 0, "no superfluous limb")
		}
		nd.Assert(nd.EqBig(x, o), "argument unchanged")
		nd.Observe("ws", ws)
	} else {
		x.Neg(x)
	}
	bs := bigint.BytesLittleEndian(x)
	sum := new(big.Int)
	for i := len(bs) - 1; i >= 0; i-- {
		sum.Lsh(sum, 8)
		sum.Add(sum, new(big.Int).SetUint64(uint64(bs[i])))
	}
	nd.Assert(nd.EqBig(sum, o), "bytes represent |x|")
	if len(bs) > 0 {
		nd.Assert(bs[len(bs)-1] != 0, "no superfluous byte")
	}
	if neg {
		o.Neg(o)
	}
	nd.Assert(nd.EqBig(x, o), "argument unchanged")
	nd.Observe("bs", bs)
}

// Parse: Hex and Binary on arbitrary strings.
func Parse() {
	n := nd.Choose("n", nd.Param("len")+1)
	base := 16
	f := bigint.Hex
	if nd.Choose("binary", 2) == 1 {
		base, f = 2, bigint.Binary
	}
	s := nd.String("s", n)
	// a sign is neither required nor excluded by the description
	if n > 0 {
		nd.Assume(nd.And(s[0] != '-', s[0] != '+'))
		nd.Assume(nd.And(s[n-1] != '-', s[n-1] != '+'))
	}
	want := new(big.Int)
	digits, bad, sign := 0, false, false
	for i := 0; i < n; i++ {
		c := s[i]
		d := -1
		switch {
		case c >= '0' && c <= '9':
			d = int(c - '0')
		case c >= 'a' && c <= 'f':
			d = int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			d = int(c-'A') + 10
		case c == '_':
			continue
		case c == '-' || c == '+':
			sign = true
		}
		if d < 0 || d >= base {
			bad = true
			continue
		}
		digits++
		want.Mul(want, big.NewInt(int64(base)))
		want.Add(want, big.NewInt(int64(d)))
	}
	if sign {
		return
	}
	x, ok := f(s)
	nd.Observe("ok", ok)
	nd.Assert(ok == (!bad && digits > 0), "accepted exactly when it is digits and underscores")
	if ok {
		nd.Assert(nd.EqBig(x, want), "parsed value")
		nd.Observe("x", x)
	}
}

// LongParse: long literals with underscores anywhere.
func LongParse() {
	n := nd.Param("len")
	us := nd.Choose("us", n)
	every := nd.Choose("every", 4)
	b := nd.Bytes("b", n)
	binary := nd.Choose("binary", 2) == 1
	want := new(big.Int)
	s := ""
	base := int64(16)
	if binary {
		base = 2
	}
	for i := range b {
		d := b[i]
		if i == us || every > 0 && i%every == 0 {
			s += "_"
		}
		if binary {
			nd.Assume(nd.And(d >= '0', d <= '1'))
			want.Mul(want, big.NewInt(base))
			want.Add(want, big.NewInt(int64(d-'0')))
		} else {
			low := nd.And(d >= '0', d <= '9')
			nd.Assume(nd.Or(low, nd.And(d >= 'a', d <= 'f')))
			want.Mul(want, big.NewInt(base))
			want.Add(want, big.NewInt(int64(nd.IteInt(low, int(d)-'0', int(d)-'a'+10))))
		}
		s += string(b[i : i+1])
	}
	f := bigint.Hex
	if binary {
		f = bigint.Binary
	}
	x, ok := f(s)
	nd.Assert(ok, "a long literal is accepted")
	nd.Assert(nd.EqBig(x, want), "long literal value")
}

// --- lists ---

func list(name string, n, bits int) []*big.Int {
	xs := make([]*big.Int, 0, n+4)
	for i := 0; i < n; i++ {
		xs = append(xs, nd.BigSigned(name, bits))
	}
	return xs
}

func sorted(name string, n, bits int, strict bool) []*big.Int {
	xs := list(name, n, bits)
	for i := 1; i < n; i++ {
		if strict {
			nd.Assume(nd.LtBig(xs[i-1], xs[i]))
		} else {
			nd.Assume(nd.Not(nd.LtBig(xs[i], xs[i-1])))
		}
	}
	return xs
}

func clones(c []*big.Int) []*big.Int {
	var r []*big.Int
	for _, x := range c {
		r = append(r, new(big.Int).Set(x))
	}
	return r
}

func equal(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = nd.And(ok, nd.EqBig(a[i], b[i]))
	}
	return ok
}

func count(x *big.Int, xs []*big.Int) int {
	n := 0
	for _, y := range xs {
		n = nd.IteInt(nd.EqBig(x, y), n+1, n)
	}
	return n
}

// Sort returns a sorted permutation.
func Sort() {
	n := nd.Choose("n", nd.Param("n")+1)
	xs := list("x", n, nd.Param("bits"))
	o := clones(xs)
	bigints.Sort(xs)
	nd.Assert(len(xs) == n, "length")
	ok := true
	for i := 1; i < n; i++ {
		ok = nd.And(ok, nd.Not(nd.LtBig(xs[i], xs[i-1])))
	}
	nd.Assert(ok, "sorted ascending")
	perm := true
	for i := range o {
		perm = nd.And(perm, count(o[i], o) == count(o[i], xs))
	}
	nd.Assert(perm, "a permutation")
	nd.Observe("xs", xs)
}

// SortLong: longer lists, mostly concrete.
func SortLong() {
	n := nd.Param("n")
	var xs []*big.Int
	pos := nd.Choose("pos", n)
	for i := 0; i < n; i++ {
		if i == pos {
			xs = append(xs, nd.BigSigned("x", 70))
		} else {
			xs = append(xs, new(big.Int).Lsh(big.NewInt(int64(i*7%n-n/2)), uint(i%3*24)))
		}
	}
	o := clones(xs)
	bigints.Sort(xs)
	ok := true
	for i := 1; i < n; i++ {
		ok = nd.And(ok, nd.Not(nd.LtBig(xs[i], xs[i-1])))
	}
	nd.Assert(ok, "sorted ascending")
	perm := true
	for i := range o {
		perm = nd.And(perm, count(o[i], o) == count(o[i], xs))
	}
	nd.Assert(perm, "a permutation")
}

// Members: Index, Contains, ContainsSorted.
func Members() {
	n := nd.Choose("n", nd.Param("n")+1)
	bits := nd.Param("bits")
	x := nd.BigSigned("v", bits)
	xo := new(big.Int).Set(x)
	var xs []*big.Int
	srt := nd.Choose("sorted", 2) == 1
	if srt {
		xs = sorted("x", n, bits, false)
	} else {
		xs = list("x", n, bits)
	}
	o := clones(xs)
	first := -1
	for i := n - 1; i >= 0; i-- {
		first = nd.IteInt(nd.EqBig(o[i], xo), i, first)
	}
	got := bigints.Index(x, xs)
	nd.Assert(got == first, "Index is the first occurrence or -1")
	nd.Assert(nd.Iff(bigints.Contains(x, xs), first >= 0), "Contains")
	if srt {
		nd.Assert(nd.Iff(bigints.ContainsSorted(x, xs), first >= 0), "ContainsSorted")
	}
	nd.Assert(nd.And(equal(xs, o), nd.EqBig(x, xo)), "arguments unchanged")
	nd.Observe("i", got)
}

// Joins: Clone, Concat, Unique.
func Joins() {
	bits := nd.Param("bits")
	xs := list("x", nd.Choose("nx", nd.Param("n")+1), bits)
	ys := list("y", nd.Choose("ny", nd.Param("ny")+1), bits)
	xo, yo := clones(xs), clones(ys)
	c := bigints.Clone(xs)
	nd.Assert(equal(c, xo), "Clone equals")
	j := bigints.Concat(xs, ys)
	want := append(clones(xo), clones(yo)...)
	nd.Assert(equal(j, want), "Concat is the concatenation")
	bigints.Concat(xs, xs)
	bigints.Concat(j, xs)
	bigints.Concat(c, xs)
	nd.Assert(equal(j, want), "a later Concat leaves an earlier result alone")
	// consecutive de-duplication
	u := bigints.Unique(j)
	k := 0
	for i := range want {
		if i > 0 && want[i].Cmp(want[i-1]) == 0 {
			continue
		}
		if k >= len(u) {
			nd.Fail("Unique dropped an element")
		}
		nd.Assert(nd.EqBig(u[k], want[i]), "Unique keeps the first of each run")
		k++
	}
	nd.Assert(k == len(u), "Unique adds nothing")
	nd.Assert(equal(j, want), "Unique leaves its argument alone")
	if len(c) > 0 {
		c[0] = big.NewInt(12345)
	}
	if len(j) > 0 {
		j[0] = big.NewInt(12345)
	}
	if len(u) > 0 {
		u[0] = big.NewInt(12345)
	}
	nd.Assert(nd.And(equal(xs, xo), equal(ys, yo)), "arguments unchanged")
	nd.Observe("u", len(u))
}

func checkMerged(r, xs, ys []*big.Int) {
	ok := true
	for i := 1; i < len(r); i++ {
		ok = nd.And(ok, nd.LtBig(r[i-1], r[i]))
	}
	nd.Assert(ok, "merged list is sorted and distinct")
	ok = true
	for _, x := range xs {
		ok = nd.And(ok, count(x, r) == 1)
	}
	for _, y := range ys {
		ok = nd.And(ok, count(y, r) == 1)
	}
	nd.Assert(ok, "every element is present once")
	ok = true
	for _, x := range r {
		ok = nd.And(ok, nd.Or(count(x, xs) > 0, count(x, ys) > 0))
	}
	nd.Assert(ok, "nothing else is present")
}

// Merge: MergeUnique and InsertSortedUnique.
func Merge() {
	bits := nd.Param("bits")
	xs := sorted("x", nd.Choose("nx", nd.Param("n")+1), bits, true)
	ys := sorted("y", nd.Choose("ny", nd.Param("n")+1), bits, true)
	xo, yo := clones(xs), clones(ys)
	r := bigints.MergeUnique(xs, ys)
	checkMerged(r, xo, yo)
	ro := clones(r)
	bigints.MergeUnique(ys, xs)
	bigints.MergeUnique(r, xs)
	nd.Assert(equal(r, ro), "a later merge leaves an earlier result alone")
	nd.Assert(nd.And(equal(xs, xo), equal(ys, yo)), "arguments unchanged")
	for i := range r {
		r[i] = one
	}
	nd.Assert(nd.And(equal(xs, xo), equal(ys, yo)), "result is a separate list")
	nd.Observe("r", ro)
}

// Insert: InsertSortedUnique.
func Insert() {
	bits := nd.Param("bits")
	xs := sorted("x", nd.Choose("nx", nd.Param("n")+1), bits, true)
	v := nd.BigSigned("v", bits)
	xo, vo := clones(xs), new(big.Int).Set(v)
	r := bigints.InsertSortedUnique(xs, v)
	checkMerged(r, xo, []*big.Int{vo})
	ro := clones(r)
	bigints.InsertSortedUnique(xs, big.NewInt(-3))
	nd.Assert(equal(r, ro), "a later insertion leaves an earlier result alone")
	nd.Assert(nd.And(equal(xs, xo), nd.EqBig(v, vo)), "arguments unchanged")
	nd.Observe("r", ro)
}

// Vectors: element-wise operations.
func Vectors() {
	bits := nd.Param("bits")
	n := nd.Choose("n", nd.Param("n")+1)
	z := bigvector.New(n)
	nd.Assert(z.Len() == n, "length")
	for i := 0; i < n; i++ {
		nd.Assert(z.Idx(i).Sign() == 0, "zero vector")
	}
	if n == 0 {
		nd.Assert(bigvector.Add(z, z).Len() == 0 && bigvector.Lsh(z, 3).Len() == 0, "empty vectors")
		return
	}
	// arbitrary vectors are sums of shifted basis vectors; the interface lets
	// a caller supply its own as well
	u, v := own(list("u", n, bits)), own(list("v", n, bits))
	uo, vo := clones(u), clones(v)
	s := uint(nd.Choose("s", nd.Param("s")+1))
	w := bigvector.Add(u, v)
	nd.Assert(w.Len() == n, "length of the sum")
	for i := 0; i < n; i++ {
		nd.Assert(nd.EqBig(w.Idx(i), new(big.Int).Add(uo[i], vo[i])), "element-wise sum")
	}
	l := bigvector.Lsh(w, s)
	nd.Assert(l.Len() == n, "length of the shift")
	for i := 0; i < n; i++ {
		nd.Assert(nd.EqBig(l.Idx(i), new(big.Int).Mul(new(big.Int).Add(uo[i], vo[i]), pow2(int(s)))), "element-wise shift")
		nd.Assert(nd.EqBig(w.Idx(i), new(big.Int).Add(uo[i], vo[i])), "the shifted vector is unchanged")
	}
	k := nd.Choose("k", n)
	b := bigvector.NewBasis(n, k)
	a := bigvector.Add(b, bigvector.Add(b, w))
	bl := bigvector.Lsh(b, s)
	for i := 0; i < n; i++ {
		d := big.NewInt(0)
		if i == k {
			d = big.NewInt(1)
		}
		nd.Assert(nd.EqBig(b.Idx(i), d), "basis vector")
		nd.Assert(nd.EqBig(bl.Idx(i), new(big.Int).Mul(d, pow2(int(s)))), "shifted basis vector")
		d.Add(d, d)
		nd.Assert(nd.EqBig(a.Idx(i), d.Add(d, new(big.Int).Add(uo[i], vo[i]))), "sum with basis vectors")
	}
	nd.Assert(b.Len() == n, "length of a basis vector")
	nd.Assert(nd.And(equal(u, uo), equal(v, vo)), "arguments unchanged")
}

type own []*big.Int

func (o own) Len() int           { return len(o) }
func (o own) Idx(i int) *big.Int { return o[i] }

var sizes = []int{64, 257, 128, 65, 256, 63, 127, 129, 255, 300}

// Words: helpers on integers of sizes where bytes and machine words end.
func Words() {
	n := sizes[nd.Choose("size", nd.Param("sizes"))]
	// one arbitrary bit group at the bottom, one at the top
	b := nd.Param("bits")
	x := new(big.Int).Add(nd.Big("lo", b), new(big.Int).Lsh(nd.Big("hi", b), uint(n-b)))
	o := new(big.Int).Set(x)
	want := new(big.Int)
	for i := 0; i < n; i++ {
		want.SetBit(want, i, 1)
	}
	nd.Assert(bigint.Ones(uint(n)).Cmp(want) == 0, "Ones(n) = 2^n - 1")
	nd.Assert(bigint.Pow2(uint(n)).Cmp(want.Add(want, one)) == 0, "Pow2(e) = 2^e")
	l := []int{0, 1, n - 2, n / 2, 64}[nd.Choose("l", 5)]
	h := []int{n, n + 1, n - 1}[nd.Choose("h", 3)]
	nd.Assume(l <= h)
	m := bigint.Mask(uint(l), uint(h))
	nd.Assert(m.Cmp(new(big.Int).Sub(pow2(h), pow2(l))) == 0, "Mask has exactly bits l..h-1")
	e := bigint.Extract(x, uint(l), uint(h))
	nd.Assert(nd.EqBig(e, new(big.Int).Mod(floorShift(o, l), pow2(h-l))), "Extract = floor(x/2^l) mod 2^(h-l)")
	spec := false
	for i := 0; i < n; i++ {
		spec = nd.Or(spec, nd.EqBig(o, pow2(i)))
	}
	nd.Assert(nd.Iff(bigint.IsPow2(x), spec), "IsPow2")
	s := bigint.BitsSet(x)
	got := new(big.Int)
	for i, b := range s {
		nd.Assert(b >= 0 && (i == 0 || s[i-1] < b), "positions ascend")
		got.SetBit(got, b, 1)
	}
	nd.Assert(nd.EqBig(got, o), "exactly the set bits are listed")
	ps := bigint.Pow2UpTo(x)
	for i := range ps {
		nd.Assert(ps[i].Cmp(pow2(i)) == 0, "powers in order")
	}
	nd.Assert(nd.LtBig(o, pow2(len(ps))), "all powers listed")
	nd.Assert(len(ps) == 0 || nd.Not(nd.LtBig(o, pow2(len(ps)-1))), "powers at most x")
	ws := bigint.Uint64s(x)
	sum := new(big.Int)
	for i := len(ws) - 1; i >= 0; i-- {
		sum.Lsh(sum, 64)
		sum.Add(sum, new(big.Int).SetUint64(ws[i]))
	}
	nd.Assert(nd.EqBig(sum, o), "limbs represent x")
	nd.Assert(len(ws) == 0 || ws[len(ws)-1] != 0, "no superfluous limb")
	nd.Assert(nd.EqBig(x, o), "argument unchanged")
	nd.Observe("s", s)
}

// Tall: lists of many elements and an arbitrary one.
func Tall() {
	n := sizes[nd.Choose("size", nd.Param("sizes"))]
	step := int64(1 + nd.Choose("step", 2))
	xs := make([]*big.Int, 0, n+4)
	for i := 0; i < n; i++ {
		xs = append(xs, big.NewInt(3+step*int64(i)))
	}
	xo := clones(xs)
	top := 3 + int(step)*(n-1)
	v := nd.BigSigned("v", 11)
	near := false
	for _, k := range []int{3, top, 3 + n/2, 3 + 31, 3 + 62} {
		near = nd.Or(near, nd.And(nd.Not(nd.LtBig(v, big.NewInt(int64(k-2)))), nd.LtBig(v, big.NewInt(int64(k+3)))))
	}
	nd.Assume(near)
	k := int(nd.ConcBig(v).Int64())
	at := -1
	if k >= 3 && k <= top && (k-3)%int(step) == 0 {
		at = (k - 3) / int(step)
	}
	nd.Assert(bigints.Index(v, xs) == at, "Index is the first position")
	nd.Assert(bigints.Contains(v, xs) == (at >= 0), "Contains")
	nd.Assert(bigints.ContainsSorted(v, xs) == (at >= 0), "ContainsSorted")
	place := 0
	for place < n && xs[place].Cmp(v) < 0 {
		place++
	}
	want := append([]*big.Int{}, xo[:place]...)
	if at < 0 {
		want = append(want, new(big.Int).Set(v))
	}
	want = append(want, xo[place:]...)
	nd.Assert(equal(bigints.InsertSortedUnique(xs, v), want), "InsertSortedUnique")
	nd.Assert(equal(bigints.MergeUnique(xs, []*big.Int{v}), want), "MergeUnique")
	nd.Assert(equal(bigints.MergeUnique(xs, xs), xo), "MergeUnique")
	nd.Assert(equal(bigints.Unique(xs), xo), "Unique of a list without repeats")
	twice := bigints.Concat(xs, []*big.Int{v})
	bigints.Sort(twice)
	nd.Assert(equal(bigints.Unique(twice), want), "sorting and Unique")
	nd.Assert(equal(xs, xo), "arguments unchanged")
	w := bigvector.Lsh(bigvector.NewBasis(n, place%n), 65)
	w = bigvector.Add(w, bigvector.NewBasis(n, n-1))
	for i := 0; i < n; i++ {
		d := new(big.Int)
		if i == place%n {
			d = pow2(65)
		}
		if i == n-1 {
			d.Add(d, one)
		}
		nd.Assert(w.Idx(i).Cmp(d) == 0, "long vectors")
	}
	nd.Assert(w.Len() == n, "long vectors")
}
