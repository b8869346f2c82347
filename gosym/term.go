package main

// SMT terms: booleans and bit-vectors of arbitrary width, hash-consed per
// worker, with constant folding and light algebraic/range simplification.

import (
	"fmt"
	"math/big"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OpVar Op = iota
	OpConst
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpShl
	OpLshr
	OpAshr
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpConcat
	OpExtract
	OpZext
	OpSext
)

var opSMT = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=",
	OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem",
	OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr",
	OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpNeg: "bvneg", OpConcat: "concat",
}

// Term is a hash-consed SMT term. w==0 means Bool.
type Term struct {
	op      Op
	w       int
	a, b, c *Term
	p, q    int      // extract hi,lo ; ext amount ; var index
	u       uint64   // const value (w<=64, and Bool 0/1)
	bc      *big.Int // const value (w>64)
	name    string   // vars
	id      int
	bl      int    // max bit length of the unsigned value
	lo, hi  uint64 // unsigned range if w<=64
	vars    []int32

	// evaluation memo
	gen int
	eu  uint64
	eb  *big.Int

	// solver state
	defined int // solver generation in which this was defined
	sb      int // signed width (memo)
	tt      *vmask
}

type tkey struct {
	op      Op
	w       int
	a, b, c int
	p, q    int
	u       uint64
	s       string
}

// Terms is a hash-consing table.
type Terms struct {
	tab    map[tkey]*Term
	n      int
	True   *Term
	False  *Term
	gen    int
	gctr   int
	model  *Model
	nvars  int
	varsBy map[int]*Term // by index (current table)
}

// Model assigns values to variables by index.
type Model struct {
	v []*big.Int
}

func (m *Model) get(i int) *big.Int {
	if i < len(m.v) && m.v[i] != nil {
		return m.v[i]
	}
	return bigZero
}

func (m *Model) clone() *Model {
	return &Model{v: append([]*big.Int(nil), m.v...)}
}

func (m *Model) set(i int, x *big.Int) {
	for len(m.v) <= i {
		m.v = append(m.v, nil)
	}
	m.v[i] = x
}

var bigZero = new(big.Int)
var bigOne = big.NewInt(1)

func newTerms() *Terms {
	t := &Terms{tab: map[tkey]*Term{}, varsBy: map[int]*Term{}}
	t.True = t.mkRaw(&Term{op: OpConst, w: 0, u: 1})
	t.False = t.mkRaw(&Term{op: OpConst, w: 0, u: 0})
	t.gen, t.gctr = 1, 1
	t.model = &Model{}
	return t
}

func tid(t *Term) int {
	if t == nil {
		return 0
	}
	return t.id
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset quick checks
	i, j := 0, 0
	extra := false
	for i < len(a) && j < len(b) {
		if a[i] == b[j] {
			i++
			j++
		} else if a[i] < b[j] {
			i++
		} else {
			extra = true
			break
		}
	}
	if !extra && j == len(b) {
		return a
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case i == len(a):
			r = append(r, b[j])
			j++
		case j == len(b):
			r = append(r, a[i])
			i++
		case a[i] == b[j]:
			r = append(r, a[i])
			i++
			j++
		case a[i] < b[j]:
			r = append(r, a[i])
			i++
		default:
			r = append(r, b[j])
			j++
		}
	}
	return r
}

func mask64(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (ts *Terms) mkRaw(t *Term) *Term {
	k := tkey{op: t.op, w: t.w, a: tid(t.a), b: tid(t.b), c: tid(t.c), p: t.p, q: t.q, u: t.u, s: t.name}
	if t.bc != nil {
		k.s = string(t.bc.Bytes())
	}
	if x, ok := ts.tab[k]; ok {
		return x
	}
	ts.n++
	t.id = ts.n
	if t.op == OpVar {
		t.vars = []int32{int32(t.p)}
	} else {
		if t.a != nil {
			t.vars = t.a.vars
		}
		if t.b != nil {
			t.vars = mergeVars(t.vars, t.b.vars)
		}
		if t.c != nil {
			t.vars = mergeVars(t.vars, t.c.vars)
		}
	}
	ts.rng(t)
	ts.tab[k] = t
	return t
}

// rng computes unsigned ranges.
func (ts *Terms) rng(t *Term) {
	w := t.w
	if w == 0 {
		t.lo, t.hi = 0, 1
		if t.op == OpConst {
			t.lo, t.hi = t.u, t.u
		}
		return
	}
	t.bl = w
	small := w <= 64
	t.lo, t.hi = 0, mask64(w)
	switch t.op {
	case OpVar:
		// set by NewVar
	case OpConst:
		if small {
			t.lo, t.hi = t.u, t.u
			t.bl = bits.Len64(t.u)
		} else {
			t.bl = t.bc.BitLen()
		}
	case OpIte:
		t.bl = max(t.b.bl, t.c.bl)
		if small {
			t.lo, t.hi = min(t.b.lo, t.c.lo), max(t.b.hi, t.c.hi)
		}
	case OpAdd:
		if small {
			hi := t.a.hi + t.b.hi
			if hi >= t.a.hi && hi <= mask64(w) {
				t.lo, t.hi = t.a.lo+t.b.lo, hi
			}
			t.bl = bits.Len64(t.hi)
		} else {
			t.bl = min(w, max(t.a.bl, t.b.bl)+1)
		}
	case OpSub:
		if small && t.a.lo >= t.b.hi {
			t.lo, t.hi = t.a.lo-t.b.hi, t.a.hi-t.b.lo
			t.bl = bits.Len64(t.hi)
		}
	case OpMul:
		if small {
			h, l := bits.Mul64(t.a.hi, t.b.hi)
			if h == 0 && l <= mask64(w) {
				t.lo, t.hi = t.a.lo*t.b.lo, l
			}
			t.bl = bits.Len64(t.hi)
		} else {
			t.bl = min(w, t.a.bl+t.b.bl)
		}
	case OpUDiv:
		if small && t.b.lo > 0 {
			t.lo, t.hi = t.a.lo/t.b.hi, t.a.hi/t.b.lo
			t.bl = bits.Len64(t.hi)
		}
	case OpURem:
		if small && t.b.lo > 0 {
			t.lo, t.hi = 0, min(t.a.hi, t.b.hi-1)
			t.bl = bits.Len64(t.hi)
		} else if !small && t.b.op == OpConst && t.b.bc.Sign() > 0 {
			t.bl = min(t.a.bl, t.b.bl)
		}
	case OpShl:
		if t.b.op == OpConst {
			s := t.b.constInt()
			if s.IsInt64() && s.Int64() < int64(w) {
				n := uint(s.Int64())
				if small {
					if t.a.bl+int(n) <= w {
						t.lo, t.hi = t.a.lo<<n, t.a.hi<<n
					}
					t.bl = bits.Len64(t.hi)
				} else {
					t.bl = min(w, t.a.bl+int(n))
				}
			}
		}
	case OpLshr:
		if t.b.op == OpConst {
			s := t.b.constInt()
			if s.IsInt64() && s.Int64() < int64(w) {
				n := uint(s.Int64())
				if small {
					t.lo, t.hi = t.a.lo>>n, t.a.hi>>n
				}
				t.bl = max(0, t.a.bl-int(n))
			}
		} else {
			t.bl = t.a.bl
			if small {
				t.hi = t.a.hi
			}
		}
	case OpBAnd:
		t.bl = min(t.a.bl, t.b.bl)
		if small {
			t.hi = min(t.a.hi, t.b.hi)
			if t.bl < 64 {
				t.hi = min(t.hi, mask64(t.bl))
			}
		}
	case OpBOr, OpBXor:
		t.bl = max(t.a.bl, t.b.bl)
		if small {
			t.hi = mask64(t.bl)
			if t.op == OpBOr {
				t.lo = max(t.a.lo, t.b.lo)
			}
		}
	case OpConcat:
		if t.a.bl > 0 {
			t.bl = t.a.bl + t.b.w
		} else {
			t.bl = t.b.bl
		}
		if small {
			t.lo = t.a.lo<<uint(t.b.w) | t.b.lo
			t.hi = t.a.hi<<uint(t.b.w) | t.b.hi
		}
	case OpExtract:
		t.bl = min(w, max(0, t.a.bl-t.q))
		if t.a.w <= 64 {
			if t.a.hi>>uint(t.q) <= mask64(w) {
				t.lo, t.hi = t.a.lo>>uint(t.q), t.a.hi>>uint(t.q)
			}
		} else if small {
			t.hi = mask64(t.bl)
		}
	case OpZext:
		t.bl = t.a.bl
		if small {
			t.lo, t.hi = t.a.lo, t.a.hi
		} else if t.a.w <= 64 {
			t.lo, t.hi = 0, ^uint64(0)
		}
	case OpSext:
		if t.a.bl < t.a.w {
			t.bl = t.a.bl
			if small {
				t.lo, t.hi = t.a.lo, t.a.hi
			}
		}
	}
	if small {
		t.bl = min(t.bl, bits.Len64(t.hi))
		if t.bl < 64 {
			t.hi = min(t.hi, mask64(t.bl))
		}
	}
}

func (t *Term) isConst() bool { return t.op == OpConst }

func (t *Term) constInt() *big.Int {
	if t.bc != nil {
		return t.bc
	}
	return new(big.Int).SetUint64(t.u)
}

// Const makes a BV constant from the low w bits of u.
func (ts *Terms) Const(w int, u uint64) *Term {
	if w > 64 {
		return ts.mkRaw(&Term{op: OpConst, w: w, bc: new(big.Int).SetUint64(u)})
	}
	return ts.mkRaw(&Term{op: OpConst, w: w, u: u & mask64(w)})
}

// ConstBig makes a BV constant from x mod 2^w.
func (ts *Terms) ConstBig(w int, x *big.Int) *Term {
	y := new(big.Int)
	if x.Sign() < 0 || x.BitLen() > w {
		m := new(big.Int).Lsh(bigOne, uint(w))
		y.Mod(x, m)
	} else {
		y.Set(x)
	}
	if w <= 64 {
		return ts.mkRaw(&Term{op: OpConst, w: w, u: y.Uint64()})
	}
	return ts.mkRaw(&Term{op: OpConst, w: w, bc: y})
}

func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.True
	}
	return ts.False
}

// NewVar makes a variable with unsigned range [lo,hi] (if w<=64) or bit length bl.
func (ts *Terms) NewVar(idx int, w int, lo, hi uint64, bl int) *Term {
	name := fmt.Sprintf("v%d_%d_%d_%d_%d", idx, w, lo, hi, bl)
	k := tkey{op: OpVar, w: w, p: idx, s: name}
	if x, ok := ts.tab[k]; ok {
		ts.varsBy[idx] = x
		return x
	}
	t := ts.mkRaw(&Term{op: OpVar, w: w, p: idx, name: name})
	if w > 0 {
		if w <= 64 {
			t.lo, t.hi = lo, hi
			t.bl = bits.Len64(hi)
		} else {
			t.bl = bl
		}
	}
	ts.varsBy[idx] = t
	return t
}

func signed64(u uint64, w int) int64 {
	s := uint(64 - w)
	return int64(u<<s) >> s
}

func toSigned(x *big.Int, w int) *big.Int {
	if x.Bit(w-1) == 1 {
		m := new(big.Int).Lsh(bigOne, uint(w))
		return m.Sub(x, m)
	}
	return x
}

// foldU folds a binary operation on w<=64 constants.
func foldU(op Op, w int, a, b uint64) uint64 {
	m := mask64(w)
	switch op {
	case OpAdd:
		return (a + b) & m
	case OpSub:
		return (a - b) & m
	case OpMul:
		return (a * b) & m
	case OpUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OpURem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSDiv:
		x, y := signed64(a, w), signed64(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OpSRem:
		x, y := signed64(a, w), signed64(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OpLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAshr:
		x := signed64(a, w)
		if b >= uint64(w) {
			b = uint64(w - 1)
		}
		return uint64(x>>b) & m
	case OpBAnd:
		return a & b
	case OpBOr:
		return a | b
	case OpBXor:
		return a ^ b
	}
	panic("foldU")
}

func modw(x *big.Int, w int) *big.Int {
	if x.Sign() >= 0 && x.BitLen() <= w {
		return x
	}
	m := new(big.Int).Lsh(bigOne, uint(w))
	return x.Mod(x, m)
}

func foldB(op Op, w int, a, b *big.Int) *big.Int {
	r := new(big.Int)
	all := func() *big.Int {
		m := new(big.Int).Lsh(bigOne, uint(w))
		return m.Sub(m, bigOne)
	}
	switch op {
	case OpAdd:
		return modw(r.Add(a, b), w)
	case OpSub:
		return modw(r.Sub(a, b), w)
	case OpMul:
		return modw(r.Mul(a, b), w)
	case OpUDiv:
		if b.Sign() == 0 {
			return all()
		}
		return r.Quo(a, b)
	case OpURem:
		if b.Sign() == 0 {
			return a
		}
		return r.Rem(a, b)
	case OpSDiv:
		x, y := toSigned(a, w), toSigned(b, w)
		if y.Sign() == 0 {
			if x.Sign() < 0 {
				return bigOne
			}
			return all()
		}
		return modw(r.Quo(x, y), w)
	case OpSRem:
		x, y := toSigned(a, w), toSigned(b, w)
		if y.Sign() == 0 {
			return a
		}
		return modw(r.Rem(x, y), w)
	case OpShl:
		if !b.IsInt64() || b.Int64() >= int64(w) {
			return bigZero
		}
		return modw(r.Lsh(a, uint(b.Int64())), w)
	case OpLshr:
		if !b.IsInt64() || b.Int64() >= int64(w) {
			return bigZero
		}
		return r.Rsh(a, uint(b.Int64()))
	case OpAshr:
		x := toSigned(a, w)
		n := uint(w - 1)
		if b.IsInt64() && b.Int64() < int64(w) {
			n = uint(b.Int64())
		}
		return modw(r.Rsh(x, n), w)
	case OpBAnd:
		return r.And(a, b)
	case OpBOr:
		return r.Or(a, b)
	case OpBXor:
		return r.Xor(a, b)
	}
	panic("foldB")
}

// --- boolean constructors ---

func (ts *Terms) Not(a *Term) *Term {
	if a.isConst() {
		return ts.Bool(a.u == 0)
	}
	if a.op == OpNot {
		return a.a
	}
	switch a.op {
	case OpUlt:
		return ts.Ule(a.b, a.a)
	case OpUle:
		return ts.Ult(a.b, a.a)
	case OpSlt:
		return ts.Sle(a.b, a.a)
	case OpSle:
		return ts.Slt(a.b, a.a)
	}
	return ts.mkRaw(&Term{op: OpNot, a: a})
}

func (ts *Terms) And(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() {
		if a.u == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.u == 0 {
			return b
		}
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return ts.False
	}
	return ts.mkRaw(&Term{op: OpAnd, a: a, b: b})
}

func (ts *Terms) Or(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() {
		if a.u == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.u == 1 {
			return b
		}
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return ts.True
	}
	return ts.mkRaw(&Term{op: OpOr, a: a, b: b})
}

func (ts *Terms) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.u == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		// boolean ite
		if a.isConst() {
			if a.u == 1 {
				return ts.Or(c, b)
			}
			return ts.And(ts.Not(c), b)
		}
		if b.isConst() {
			if b.u == 1 {
				return ts.Or(ts.Not(c), a)
			}
			return ts.And(c, a)
		}
	}
	if c.op == OpNot {
		return ts.Ite(c.a, b, a)
	}
	return ts.mkRaw(&Term{op: OpIte, w: a.w, a: c, b: a, c: b})
}

// allConstLeaves reports whether t is an ite tree (bounded) with const leaves.
func constLeaves(t *Term, budget *int) bool {
	if t.isConst() {
		return true
	}
	if t.op != OpIte {
		return false
	}
	*budget--
	if *budget < 0 {
		return false
	}
	return constLeaves(t.b, budget) && constLeaves(t.c, budget)
}

// mapLeaves applies f to the leaves of an ite tree.
func (ts *Terms) mapLeaves(t *Term, f func(*Term) *Term) *Term {
	if t.op == OpIte {
		return ts.Ite(t.a, ts.mapLeaves(t.b, f), ts.mapLeaves(t.c, f))
	}
	return f(t)
}

func isIteConst(t *Term) bool {
	if t.op != OpIte {
		return false
	}
	n := 24
	return constLeaves(t, &n)
}

func (ts *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return ts.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return ts.False
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.u == 1 {
				return a
			}
			return ts.Not(a)
		}
	} else {
		if a.w <= 64 && (a.hi < b.lo || b.hi < a.lo) {
			return ts.False
		}
		if b.isConst() {
			if b.bl > a.bl {
				return ts.False
			}
			switch a.op {
			case OpIte:
				if isIteConst(a) {
					return ts.mapLeaves(a, func(x *Term) *Term { return ts.Eq(x, b) })
				}
			case OpZext:
				if b.bl <= a.a.w {
					return ts.Eq(a.a, ts.Trunc(b, a.a.w))
				}
				return ts.False
			case OpSext:
				lowc := ts.Trunc(b, a.a.w)
				if ts.Sext(lowc, a.w) == b {
					return ts.Eq(a.a, lowc)
				}
				return ts.False
			case OpAdd:
				if a.b.isConst() {
					return ts.Eq(a.a, ts.Sub(b, a.b))
				}
			case OpConcat:
				return ts.And(ts.Eq(a.a, ts.Extract(b, a.w-1, a.b.w)), ts.Eq(a.b, ts.Extract(b, a.b.w-1, 0)))
			}
		} else {
			if a.op == OpZext && b.op == OpZext {
				if a.a.w == b.a.w {
					return ts.Eq(a.a, b.a)
				}
				m := max(a.a.w, b.a.w)
				return ts.Eq(ts.Zext(a.a, m), ts.Zext(b.a, m))
			}
			if a.op == OpSext && b.op == OpSext && a.a.w == b.a.w {
				return ts.Eq(a.a, b.a)
			}
			if a.op == OpAdd && b.op == OpAdd {
				if a.a == b.a {
					return ts.Eq(a.b, b.b)
				}
				if a.b == b.b {
					return ts.Eq(a.a, b.a)
				}
				if a.a == b.b {
					return ts.Eq(a.b, b.a)
				}
				if a.b == b.a {
					return ts.Eq(a.a, b.b)
				}
			}
			// narrow equal compare of small values in a wide vector
			m := max(a.bl, b.bl)
			if m == 0 {
				return ts.True
			}
			if m+1 < a.w && (a.op == OpVar || b.op == OpVar) {
				return ts.Eq(ts.Trunc(a, m), ts.Trunc(b, m))
			}
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return ts.mkRaw(&Term{op: OpEq, a: a, b: b})
}

func (ts *Terms) cmpConst(op Op, a, b *Term) bool {
	w := a.w
	if w <= 64 {
		switch op {
		case OpUlt:
			return a.u < b.u
		case OpUle:
			return a.u <= b.u
		case OpSlt:
			return signed64(a.u, w) < signed64(b.u, w)
		case OpSle:
			return signed64(a.u, w) <= signed64(b.u, w)
		}
	}
	switch op {
	case OpUlt:
		return a.bc.Cmp(b.bc) < 0
	case OpUle:
		return a.bc.Cmp(b.bc) <= 0
	case OpSlt:
		return toSigned(a.bc, w).Cmp(toSigned(b.bc, w)) < 0
	case OpSle:
		return toSigned(a.bc, w).Cmp(toSigned(b.bc, w)) <= 0
	}
	panic("cmpConst")
}

func (ts *Terms) nonneg(a *Term) bool { return a.bl < a.w }

func (ts *Terms) cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("cmp width mismatch %d %d", a.w, b.w))
	}
	if a == b {
		return ts.Bool(op == OpUle || op == OpSle)
	}
	if a.isConst() && b.isConst() {
		return ts.Bool(ts.cmpConst(op, a, b))
	}
	if a.op == OpIte && b.isConst() && isIteConst(a) {
		return ts.mapLeaves(a, func(x *Term) *Term { return ts.cmp(op, x, b) })
	}
	if b.op == OpIte && a.isConst() && isIteConst(b) {
		return ts.mapLeaves(b, func(x *Term) *Term { return ts.cmp(op, a, x) })
	}
	if op == OpSlt || op == OpSle {
		na, nb := ts.nonneg(a), ts.nonneg(b)
		if na && nb {
			if op == OpSlt {
				return ts.Ult(a, b)
			}
			return ts.Ule(a, b)
		}
		// const negative vs nonneg
		if na && b.isConst() && !nb {
			return ts.False
		}
		if nb && a.isConst() && !na {
			return ts.True
		}
		if a.op == OpSext && b.op == OpSext && a.a.w == b.a.w {
			return ts.cmp(op, a.a, b.a)
		}
		if a.op == OpSext && b.isConst() {
			lc := ts.Trunc(b, a.a.w)
			if ts.Sext(lc, a.w) == b {
				return ts.cmp(op, a.a, lc)
			}
		}
		if b.op == OpSext && a.isConst() {
			lc := ts.Trunc(a, b.a.w)
			if ts.Sext(lc, b.w) == a {
				return ts.cmp(op, lc, b.a)
			}
		}
		return ts.mkRaw(&Term{op: op, a: a, b: b})
	}
	// unsigned
	if a.w <= 64 {
		if op == OpUlt {
			if a.hi < b.lo {
				return ts.True
			}
			if a.lo >= b.hi {
				return ts.False
			}
		} else {
			if a.hi <= b.lo {
				return ts.True
			}
			if a.lo > b.hi {
				return ts.False
			}
		}
	} else {
		// wide: use bit length bounds with constants
		if b.isConst() && b.bl > a.bl {
			return ts.True
		}
		if a.isConst() && a.bl > b.bl {
			return ts.False
		}
	}
	m := max(a.bl, b.bl)
	if m+1 < a.w && m > 0 {
		na, nb := ts.Trunc(a, m), ts.Trunc(b, m)
		return ts.mkRaw(&Term{op: op, a: na, b: nb})
	}
	return ts.mkRaw(&Term{op: op, a: a, b: b})
}

func (ts *Terms) Ult(a, b *Term) *Term { return ts.cmp(OpUlt, a, b) }
func (ts *Terms) Ule(a, b *Term) *Term { return ts.cmp(OpUle, a, b) }
func (ts *Terms) Slt(a, b *Term) *Term { return ts.cmp(OpSlt, a, b) }
func (ts *Terms) Sle(a, b *Term) *Term { return ts.cmp(OpSle, a, b) }

// --- bit-vector constructors ---

func (ts *Terms) bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("bin %v width mismatch %d %d", opSMT[op], a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		if w <= 64 {
			return ts.Const(w, foldU(op, w, a.u, b.u))
		}
		return ts.ConstBig(w, foldB(op, w, a.bc, b.bc))
	}
	if a.op == OpIte && b.isConst() && isIteConst(a) {
		return ts.mapLeaves(a, func(x *Term) *Term { return ts.bin(op, x, b) })
	}
	if b.op == OpIte && a.isConst() && isIteConst(b) {
		return ts.mapLeaves(b, func(x *Term) *Term { return ts.bin(op, a, x) })
	}
	isz := func(t *Term) bool { return t.isConst() && t.bl == 0 }
	isone := func(t *Term) bool { return t.isConst() && t.bl == 1 }
	switch op {
	case OpAdd:
		if isz(a) {
			return b
		}
		if isz(b) {
			return a
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && a.op == OpAdd && a.b.isConst() {
			return ts.bin(OpAdd, a.a, ts.bin(OpAdd, a.b, b))
		}
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	case OpSub:
		if isz(b) {
			return a
		}
		if a == b {
			return ts.Const(w, 0)
		}
		if b.isConst() {
			return ts.bin(OpAdd, a, ts.Neg(b))
		}
		// (x+y)-x
		if a.op == OpAdd {
			if a.a == b {
				return a.b
			}
			if a.b == b {
				return a.a
			}
		}
	case OpMul:
		if a.isConst() {
			a, b = b, a
		}
		if isz(b) {
			return b
		}
		if isone(b) {
			return a
		}
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	case OpUDiv:
		if isone(b) {
			return a
		}
		if b.isConst() && !isz(b) {
			if r := ts.narrowDiv(op, a, b); r != nil {
				return r
			}
		}
	case OpURem:
		if isone(b) {
			return ts.Const(w, 0)
		}
		if b.isConst() && !isz(b) {
			if a.bl < b.bl {
				return a
			}
			if r := ts.narrowDiv(op, a, b); r != nil {
				return r
			}
		}
	case OpSDiv, OpSRem:
		if ts.nonneg(a) && ts.nonneg(b) {
			if op == OpSDiv {
				return ts.bin(OpUDiv, a, b)
			}
			return ts.bin(OpURem, a, b)
		}
	case OpShl, OpLshr, OpAshr:
		if isz(b) || isz(a) {
			return a
		}
		if b.isConst() {
			n := b.constInt()
			if op != OpAshr && n.Cmp(big.NewInt(int64(w))) >= 0 {
				return ts.Const(w, 0)
			}
			if n.IsInt64() && n.Int64() < int64(w) {
				k := int(n.Int64())
				switch op {
				case OpShl:
					return ts.Concat(ts.Extract(a, w-1-k, 0), ts.Const(k, 0))
				case OpLshr:
					return ts.Zext(ts.Extract(a, w-1, k), w)
				case OpAshr:
					return ts.Sext(ts.Extract(a, w-1, k), w)
				}
			}
		}
		if op == OpAshr && ts.nonneg(a) {
			return ts.bin(OpLshr, a, b)
		}
	case OpBAnd:
		if a == b {
			return a
		}
		if a.isConst() {
			a, b = b, a
		}
		if isz(b) {
			return b
		}
		if b.isConst() {
			x := b.constInt()
			// low mask?
			n := x.BitLen()
			m := new(big.Int).Add(x, bigOne)
			if m.TrailingZeroBits() == uint(n) {
				if n >= a.bl {
					return a
				}
				return ts.Zext(ts.Extract(a, n-1, 0), w)
			}
			// contiguous mask [l,n)
			l := int(x.TrailingZeroBits())
			y := new(big.Int).Rsh(x, uint(l))
			y.Add(y, bigOne)
			if y.TrailingZeroBits() == uint(n-l) {
				return ts.Zext(ts.Concat(ts.Extract(a, n-1, l), ts.Const(l, 0)), w)
			}
		}
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	case OpBOr:
		if a == b {
			return a
		}
		if isz(a) {
			return b
		}
		if isz(b) {
			return a
		}
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	case OpBXor:
		if a == b {
			return ts.Const(w, 0)
		}
		if isz(a) {
			return b
		}
		if isz(b) {
			return a
		}
		if a.isConst() || (!b.isConst() && a.id > b.id) {
			a, b = b, a
		}
	}
	return ts.mkRaw(&Term{op: op, w: w, a: a, b: b})
}

func (ts *Terms) narrowDiv(op Op, a, b *Term) *Term {
	m := max(a.bl, b.bl)
	if m == 0 {
		m = 1
	}
	if m < a.w {
		return ts.Zext(ts.mkDiv(op, ts.Trunc(a, m), ts.Trunc(b, m)), a.w)
	}
	return nil
}

func (ts *Terms) mkDiv(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return ts.bin(op, a, b)
	}
	return ts.mkRaw(&Term{op: op, w: a.w, a: a, b: b})
}

func (ts *Terms) Add(a, b *Term) *Term { return ts.bin(OpAdd, a, b) }
func (ts *Terms) Sub(a, b *Term) *Term { return ts.bin(OpSub, a, b) }
func (ts *Terms) Mul(a, b *Term) *Term { return ts.bin(OpMul, a, b) }

func (ts *Terms) Neg(a *Term) *Term {
	if a.isConst() {
		return ts.ConstBig(a.w, new(big.Int).Neg(a.constInt()))
	}
	if a.op == OpIte && isIteConst(a) {
		return ts.mapLeaves(a, ts.Neg)
	}
	return ts.mkRaw(&Term{op: OpNeg, w: a.w, a: a})
}

func (ts *Terms) BNot(a *Term) *Term {
	if a.isConst() {
		return ts.ConstBig(a.w, new(big.Int).Not(a.constInt()))
	}
	if a.op == OpBNot {
		return a.a
	}
	return ts.mkRaw(&Term{op: OpBNot, w: a.w, a: a})
}

func (ts *Terms) Concat(a, b *Term) *Term {
	if a.w == 0 {
		panic("concat bool")
	}
	if a.isConst() && b.isConst() {
		x := new(big.Int).Lsh(a.constInt(), uint(b.w))
		return ts.ConstBig(a.w+b.w, x.Or(x, b.constInt()))
	}
	if a.isConst() && a.bl == 0 {
		return ts.Zext(b, a.w+b.w)
	}
	if a.op == OpExtract && b.op == OpExtract && a.a == b.a && a.q == b.p+1 {
		return ts.Extract(a.a, a.p, b.q)
	}
	if a.op == OpZext {
		return ts.Zext(ts.Concat(a.a, b), a.w+b.w)
	}
	return ts.mkRaw(&Term{op: OpConcat, w: a.w + b.w, a: a, b: b})
}

func (ts *Terms) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w <= 0 || hi >= a.w || lo < 0 {
		panic(fmt.Sprintf("bad extract [%d:%d] of w=%d", hi, lo, a.w))
	}
	if w == a.w {
		return a
	}
	if a.isConst() {
		return ts.ConstBig(w, new(big.Int).Rsh(a.constInt(), uint(lo)))
	}
	if a.bl <= lo {
		return ts.Const(w, 0)
	}
	switch a.op {
	case OpExtract:
		return ts.Extract(a.a, hi+a.q, lo+a.q)
	case OpZext:
		if hi < a.a.w {
			return ts.Extract(a.a, hi, lo)
		}
		if lo >= a.a.w {
			return ts.Const(w, 0)
		}
		return ts.Zext(ts.Extract(a.a, a.a.w-1, lo), w)
	case OpSext:
		if hi < a.a.w {
			return ts.Extract(a.a, hi, lo)
		}
		if lo < a.a.w {
			return ts.Sext(ts.Extract(a.a, a.a.w-1, lo), w)
		}
	case OpConcat:
		if hi < a.b.w {
			return ts.Extract(a.b, hi, lo)
		}
		if lo >= a.b.w {
			return ts.Extract(a.a, hi-a.b.w, lo-a.b.w)
		}
		return ts.Concat(ts.Extract(a.a, hi-a.b.w, 0), ts.Extract(a.b, a.b.w-1, lo))
	case OpBAnd, OpBOr, OpBXor:
		return ts.bin(a.op, ts.Extract(a.a, hi, lo), ts.Extract(a.b, hi, lo))
	case OpBNot:
		return ts.BNot(ts.Extract(a.a, hi, lo))
	case OpIte:
		if isIteConst(a) {
			return ts.mapLeaves(a, func(x *Term) *Term { return ts.Extract(x, hi, lo) })
		}
		if a.b.isConst() || a.c.isConst() {
			return ts.Ite(a.a, ts.Extract(a.b, hi, lo), ts.Extract(a.c, hi, lo))
		}
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			return ts.bin(a.op, ts.Extract(a.a, hi, 0), ts.Extract(a.b, hi, 0))
		}
	case OpNeg:
		if lo == 0 {
			return ts.Neg(ts.Extract(a.a, hi, 0))
		}
	}
	return ts.mkRaw(&Term{op: OpExtract, w: w, a: a, p: hi, q: lo})
}

// Trunc keeps the low w bits (w <= a.w).
func (ts *Terms) Trunc(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	return ts.Extract(a, w-1, 0)
}

func (ts *Terms) Zext(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		panic("zext narrower")
	}
	if a.isConst() {
		return ts.ConstBig(w, a.constInt())
	}
	if a.op == OpZext {
		return ts.Zext(a.a, w)
	}
	if a.op == OpIte && isIteConst(a) {
		return ts.mapLeaves(a, func(x *Term) *Term { return ts.Zext(x, w) })
	}
	return ts.mkRaw(&Term{op: OpZext, w: w, a: a, p: w - a.w})
}

func (ts *Terms) Sext(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return ts.ConstBig(w, toSigned(a.constInt(), a.w))
	}
	if ts.nonneg(a) {
		return ts.Zext(a, w)
	}
	if a.op == OpSext {
		return ts.Sext(a.a, w)
	}
	if a.op == OpIte && isIteConst(a) {
		return ts.mapLeaves(a, func(x *Term) *Term { return ts.Sext(x, w) })
	}
	return ts.mkRaw(&Term{op: OpSext, w: w, a: a, p: w - a.w})
}

// Resize converts between widths.
func (ts *Terms) Resize(a *Term, w int, signed bool) *Term {
	switch {
	case w == a.w:
		return a
	case w < a.w:
		return ts.Trunc(a, w)
	case signed:
		return ts.Sext(a, w)
	default:
		return ts.Zext(a, w)
	}
}

// BoolToBV converts a Bool to a w-bit 0/1.
func (ts *Terms) BoolToBV(c *Term, w int) *Term {
	return ts.Ite(c, ts.Const(w, 1), ts.Const(w, 0))
}

// --- evaluation ---

func (ts *Terms) SetModel(m *Model) {
	ts.model = m
	ts.gctr++
	ts.gen = ts.gctr
}

// evalSmall evaluates Bool and w<=64 terms.
func (ts *Terms) eval(t *Term) {
	if t.gen == ts.gen {
		return
	}
	switch t.op {
	case OpConst:
		t.eu, t.eb = t.u, t.bc
		t.gen = ts.gen
		return
	case OpVar:
		v := ts.model.get(t.p)
		if t.w <= 64 {
			t.eu = v.Uint64()
		} else {
			t.eb = v
		}
		t.gen = ts.gen
		return
	case OpIte:
		ts.eval(t.a)
		s := t.c
		if t.a.eu == 1 {
			s = t.b
		}
		ts.eval(s)
		t.eu, t.eb = s.eu, s.eb
		t.gen = ts.gen
		return
	case OpAnd:
		ts.eval(t.a)
		t.eu = t.a.eu
		if t.eu == 1 {
			ts.eval(t.b)
			t.eu = t.b.eu
		}
		t.gen = ts.gen
		return
	case OpOr:
		ts.eval(t.a)
		t.eu = t.a.eu
		if t.eu == 0 {
			ts.eval(t.b)
			t.eu = t.b.eu
		}
		t.gen = ts.gen
		return
	}
	ts.eval(t.a)
	if t.b != nil {
		ts.eval(t.b)
	}
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OpNot:
		t.eu = 1 - t.a.eu
	case OpEq, OpUlt, OpUle, OpSlt, OpSle:
		w := t.a.w
		if w <= 64 {
			x, y := t.a.eu, t.b.eu
			switch t.op {
			case OpEq:
				t.eu = b2u(x == y)
			case OpUlt:
				t.eu = b2u(x < y)
			case OpUle:
				t.eu = b2u(x <= y)
			case OpSlt:
				t.eu = b2u(signed64(x, w) < signed64(y, w))
			case OpSle:
				t.eu = b2u(signed64(x, w) <= signed64(y, w))
			}
		} else {
			x, y := t.a.eb, t.b.eb
			switch t.op {
			case OpEq:
				t.eu = b2u(x.Cmp(y) == 0)
			case OpUlt:
				t.eu = b2u(x.Cmp(y) < 0)
			case OpUle:
				t.eu = b2u(x.Cmp(y) <= 0)
			case OpSlt:
				t.eu = b2u(toSigned(x, w).Cmp(toSigned(y, w)) < 0)
			case OpSle:
				t.eu = b2u(toSigned(x, w).Cmp(toSigned(y, w)) <= 0)
			}
		}
	case OpBNot, OpNeg:
		if t.w <= 64 {
			if t.op == OpBNot {
				t.eu = ^t.a.eu & mask64(t.w)
			} else {
				t.eu = -t.a.eu & mask64(t.w)
			}
		} else {
			if t.op == OpBNot {
				t.eb = modw(new(big.Int).Not(t.a.eb), t.w)
			} else {
				t.eb = modw(new(big.Int).Neg(t.a.eb), t.w)
			}
		}
	case OpConcat:
		if t.w <= 64 {
			t.eu = t.a.eu<<uint(t.b.w) | t.b.eu
		} else {
			x := new(big.Int).Lsh(t.a.val(), uint(t.b.w))
			t.eb = x.Or(x, t.b.val())
		}
	case OpExtract:
		if t.a.w <= 64 {
			t.eu = (t.a.eu >> uint(t.q)) & mask64(t.w)
		} else {
			x := modw(new(big.Int).Rsh(t.a.eb, uint(t.q)), t.w)
			if t.w <= 64 {
				t.eu = x.Uint64()
			} else {
				t.eb = x
			}
		}
	case OpZext:
		if t.w <= 64 {
			t.eu = t.a.eu
		} else {
			t.eb = t.a.val()
		}
	case OpSext:
		if t.w <= 64 {
			t.eu = uint64(signed64(t.a.eu, t.a.w)) & mask64(t.w)
		} else {
			t.eb = modw(new(big.Int).Set(toSigned(t.a.val(), t.a.w)), t.w)
		}
	default:
		if t.w <= 64 {
			t.eu = foldU(t.op, t.w, t.a.eu, t.b.eu)
		} else {
			t.eb = foldB(t.op, t.w, t.a.eb, t.b.eb)
		}
	}
	t.gen = ts.gen
}

// val returns the evaluated value (after eval).
func (t *Term) val() *big.Int {
	if t.w <= 64 {
		return new(big.Int).SetUint64(t.eu)
	}
	return t.eb
}

func (ts *Terms) EvalBool(t *Term) bool {
	ts.eval(t)
	return t.eu == 1
}

func (ts *Terms) EvalU(t *Term) uint64 {
	ts.eval(t)
	return t.eu
}

func (ts *Terms) EvalBig(t *Term) *big.Int {
	ts.eval(t)
	return t.val()
}

// --- printing ---

func constSMT(t *Term) string {
	if t.w == 0 {
		if t.u == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%s %d)", t.constInt().String(), t.w)
}

func sortSMT(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func refSMT(t *Term) string {
	if t.op == OpConst {
		return constSMT(t)
	}
	if t.op == OpVar {
		return t.name
	}
	return fmt.Sprintf("t%d", t.id)
}

// defSMT returns the one-level definition body.
func defSMT(t *Term) string {
	switch t.op {
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.p, t.q, refSMT(t.a))
	case OpZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.p, refSMT(t.a))
	case OpSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.p, refSMT(t.a))
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opSMT[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(refSMT(x))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

func newModel() *Model { return &Model{} }
