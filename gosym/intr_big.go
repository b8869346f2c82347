package main

// math/big.Int as an exact integer: concrete, or a signed two's complement
// bit-vector whose width grows so that no operation ever wraps.

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"strings"
)

const bigP = "(*math/big.Int)."

func (m *Machine) bigTerm(b *Big) *Term {
	if b.t != nil {
		return b.t
	}
	return m.ts.ConstBig(b.c.BitLen()+1, b.c)
}

func (m *Machine) mkBig(t *Term) *Big {
	ts := m.ts
	for {
		if t.op == OpConst {
			return &Big{c: toSigned(t.constInt(), t.w)}
		}
		if t.op == OpSext {
			t = t.a
			continue
		}
		if t.bl+1 < t.w {
			t = ts.Trunc(t, t.bl+1)
			continue
		}
		break
	}
	if t.w > m.cfg.maxWidth {
		panic(limitEnd("integer wider than %d bits", m.cfg.maxWidth))
	}
	return &Big{t: t}
}

var bigZ = &Big{c: new(big.Int)}

// bigAt reads the integer at a *big.Int pointer.
func (m *Machine) bigAt(fr *frame, p V) *Big {
	var v V
	switch o := p.o.(type) {
	case *Obj:
		if o.race != nil {
			m.noteLoad(fr, o, int(p.u))
		}
		v = o.cells[p.u]
	case nil:
		fr.g.nilPanic(fr)
	case *SymPtr:
		q := m.concPtr(o)
		v = q.o.(*Obj).cells[q.u]
	default:
		panic(unsupported("big at %T", p.o))
	}
	if v.o == nil {
		return bigZ
	}
	return v.o.(*Big)
}

func (m *Machine) setBig(fr *frame, p V, b *Big) V {
	if sp, ok := p.o.(*SymPtr); ok {
		p = m.concPtr(sp)
	}
	o, _ := p.o.(*Obj)
	if o == nil {
		fr.g.nilPanic(fr)
	}
	if old, ok := o.cells[p.u].o.(*Big); ok && old != nil && old.sharedStorage && (old.c == nil || old.c.Sign() != 0) {
		m.path.suspect = "in-place update of a structurally copied big.Int"
	}
	if o.shared || o.race != nil {
		m.noteStore(fr, o, int(p.u))
	}
	o.cells[p.u] = V{o: b}
	return p
}

func (m *Machine) two(a, b *Big, extra int) (*Term, *Term) {
	x, y := m.bigTerm(a), m.bigTerm(b)
	w := max(x.w, y.w) + extra
	return m.ts.Sext(x, w), m.ts.Sext(y, w)
}

func (m *Machine) bigEqTerm(a, b *Big) *Term {
	if a.c != nil && b.c != nil {
		return m.ts.Bool(a.c.Cmp(b.c) == 0)
	}
	x, y := m.two(a, b, 0)
	return m.ts.Eq(x, y)
}

func (m *Machine) bigSlt(a, b *Big) *Term {
	if a.c != nil && b.c != nil {
		return m.ts.Bool(a.c.Cmp(b.c) < 0)
	}
	x, y := m.two(a, b, 0)
	return m.ts.Slt(x, y)
}

func (m *Machine) bigNeg(a *Big) *Big {
	if a.c != nil {
		return &Big{c: new(big.Int).Neg(a.c)}
	}
	return m.mkBig(m.ts.Neg(m.ts.Sext(a.t, a.t.w+1)))
}

func (m *Machine) isNonneg(a *Big) bool {
	if a.c != nil {
		return a.c.Sign() >= 0
	}
	return m.ts.nonneg(a.t)
}

func (m *Machine) bigAbs(a *Big) *Big {
	if a.c != nil {
		return &Big{c: new(big.Int).Abs(a.c)}
	}
	if m.ts.nonneg(a.t) {
		return a
	}
	w := a.t.w
	x := m.ts.Sext(a.t, w+1)
	neg := m.ts.Slt(a.t, m.ts.Const(w, 0))
	r := m.ts.Ite(neg, m.ts.Neg(x), x)
	// |x| <= 2^(w-1): w bits suffice unsigned; add a zero sign bit
	return m.mkBig(m.ts.Zext(m.ts.Trunc(r, w), w+1))
}

func (m *Machine) bigAdd(a, b *Big) *Big {
	if a.c != nil && b.c != nil {
		return &Big{c: new(big.Int).Add(a.c, b.c)}
	}
	x, y := m.two(a, b, 1)
	return m.mkBig(m.ts.Add(x, y))
}

func (m *Machine) bigSub(a, b *Big) *Big {
	if a.c != nil && b.c != nil {
		return &Big{c: new(big.Int).Sub(a.c, b.c)}
	}
	x, y := m.two(a, b, 1)
	return m.mkBig(m.ts.Sub(x, y))
}

func (m *Machine) bigMul(a, b *Big) *Big {
	if a.c != nil && b.c != nil {
		if a.c.BitLen()+b.c.BitLen() > m.cfg.maxBits {
			panic(limitEnd("integer too large"))
		}
		return &Big{c: new(big.Int).Mul(a.c, b.c)}
	}
	x, y := m.bigTerm(a), m.bigTerm(b)
	w := x.w + y.w
	return m.mkBig(m.ts.Mul(m.ts.Sext(x, w), m.ts.Sext(y, w)))
}

func (m *Machine) bigLsh(fr *frame, a *Big, n V) *Big {
	if n.o != nil {
		t := n.o.(*Term)
		if a.c != nil && a.c.Sign() == 0 {
			return bigZ
		}
		if t.hi <= 400 {
			x := m.bigTerm(a)
			w := x.w + int(t.hi)
			amt := m.ts.Resize(t, w, false)
			return m.mkBig(m.ts.bin(OpShl, m.ts.Sext(x, w), amt))
		}
		n = V{u: m.concTerm(t)}
	}
	if a.c != nil {
		if a.c.Sign() != 0 && n.u > uint64(m.cfg.maxBits) {
			panic(limitEnd("shift by %d", n.u))
		}
		if a.c.Sign() == 0 {
			return bigZ
		}
		return &Big{c: new(big.Int).Lsh(a.c, uint(n.u))}
	}
	if n.u == 0 {
		return a
	}
	if n.u > uint64(m.cfg.maxWidth) {
		panic(limitEnd("shift by %d", n.u))
	}
	return m.mkBig(m.ts.Concat(a.t, m.ts.Const(int(n.u), 0)))
}

func (m *Machine) bigRsh(a *Big, n V) *Big {
	if n.o != nil {
		t := n.o.(*Term)
		x := m.bigTerm(a)
		w := max(x.w, 12)
		if t.w > w {
			// saturate
			big := m.ts.Ule(m.ts.Const(t.w, uint64(w)), t)
			amt := m.ts.Ite(big, m.ts.Const(w, uint64(w-1)), m.ts.Trunc(t, w))
			return m.mkBig(m.ts.bin(OpAshr, m.ts.Sext(x, w), amt))
		}
		return m.mkBig(m.ts.bin(OpAshr, m.ts.Sext(x, w), m.ts.Resize(t, w, false)))
	}
	if a.c != nil {
		k := n.u
		if k > uint64(a.c.BitLen())+1 {
			k = uint64(a.c.BitLen()) + 1
		}
		return &Big{c: new(big.Int).Rsh(a.c, uint(k))}
	}
	w := a.t.w
	if n.u >= uint64(w) {
		if m.ts.nonneg(a.t) {
			return bigZ
		}
		return m.mkBig(m.ts.Extract(a.t, w-1, w-1))
	}
	return m.mkBig(m.ts.Extract(a.t, w-1, int(n.u)))
}

// bigBitLen is the bit length of |a| as an int term.
func (m *Machine) bigBitLen(a *Big) V {
	if a.c != nil {
		return vInt(a.c.BitLen())
	}
	x := m.bigAbs(a)
	if x.c != nil {
		return vInt(x.c.BitLen())
	}
	t := x.t
	r := m.ts.Const(64, 0)
	for i := 0; i < t.w; i++ {
		bit := m.ts.Eq(m.ts.Extract(t, i, i), m.ts.Const(1, 1))
		r = m.ts.Ite(bit, m.ts.Const(64, uint64(i+1)), r)
	}
	return m.vi(r, rtInt)
}

func (m *Machine) bigTZ(a *Big) V {
	if a.c != nil {
		return V{u: uint64(a.c.TrailingZeroBits())}
	}
	t := a.t
	r := m.ts.Const(64, 0)
	for i := t.w - 1; i >= 0; i-- {
		bit := m.ts.Eq(m.ts.Extract(t, i, i), m.ts.Const(1, 1))
		r = m.ts.Ite(bit, m.ts.Const(64, uint64(i)), r)
	}
	return m.vi(r, rtUint64)
}

func (m *Machine) bigBit(fr *frame, a *Big, i V) V {
	if i.o != nil {
		it := i.o.(*Term)
		if m.decideTerm(m.ts.Slt(it, m.ts.Const(64, 0))) {
			fr.g.strPanic("negative bit index")
		}
		x := m.bigRsh(a, i)
		return m.bigBit(fr, x, V{})
	}
	if int64(i.u) < 0 {
		fr.g.strPanic("negative bit index")
	}
	if a.c != nil {
		return V{u: uint64(a.c.Bit(int(i.u)))}
	}
	k := int(i.u)
	if k >= a.t.w {
		k = a.t.w - 1
	}
	return m.vi(m.ts.Zext(m.ts.Extract(a.t, k, k), 64), rtUint64)
}

func (g *G) strPanic(msg string) {
	panic(&goPanic{v: V{o: &Iface{t: rtString, v: vStr(msg)}}, trace: g.trace()})
}

// low64 returns the low 64 bits in two's complement.
func (m *Machine) bigLow64(a *Big) V {
	if a.c != nil {
		x := new(big.Int).And(a.c, new(big.Int).SetUint64(^uint64(0)))
		return V{u: x.Uint64()}
	}
	t := a.t
	if t.w > 64 {
		t = m.ts.Trunc(t, 64)
	} else {
		t = m.ts.Sext(t, 64)
	}
	return m.vi(t, rtUint64)
}

func (m *Machine) bigFromInt(v V, t *RType) *Big {
	if v.o == nil {
		if t.signed {
			return &Big{c: big.NewInt(int64(v.u))}
		}
		return &Big{c: new(big.Int).SetUint64(v.u)}
	}
	tm := m.term(v, t)
	if t.signed {
		return m.mkBig(tm)
	}
	return m.mkBig(m.ts.Zext(tm, t.w+1))
}

func (m *Machine) zeroDiv(fr *frame, y *Big) {
	if y.c != nil {
		if y.c.Sign() == 0 {
			fr.g.strPanic("division by zero")
		}
		return
	}
	if m.decideTerm(m.ts.Eq(y.t, m.ts.Const(y.t.w, 0))) {
		fr.g.strPanic("division by zero")
	}
}

func (m *Machine) quoRem(fr *frame, x, y *Big) (*Big, *Big) {
	m.zeroDiv(fr, y)
	if x.c != nil && y.c != nil {
		q, r := new(big.Int).QuoRem(x.c, y.c, new(big.Int))
		return &Big{c: q}, &Big{c: r}
	}
	a, b := m.two(x, y, 1)
	return m.mkBig(m.ts.bin(OpSDiv, a, b)), m.mkBig(m.ts.bin(OpSRem, a, b))
}

func (m *Machine) divMod(fr *frame, x, y *Big) (*Big, *Big) {
	q, r := m.quoRem(fr, x, y)
	if x.c != nil && y.c != nil {
		d, md := new(big.Int).DivMod(x.c, y.c, new(big.Int))
		return &Big{c: d}, &Big{c: md}
	}
	if m.isNonneg(r) || m.isNonneg(x) {
		return q, r
	}
	rt := m.bigTerm(r)
	neg := m.ts.Slt(rt, m.ts.Const(rt.w, 0))
	yt := m.bigTerm(y)
	yneg := m.ts.Slt(yt, m.ts.Const(yt.w, 0))
	// r<0: y>0: q-1, r+y ; y<0: q+1, r-y
	one := &Big{c: bigOne}
	q2 := m.bigIte(yneg, m.bigAdd(q, one), m.bigSub(q, one))
	r2 := m.bigIte(yneg, m.bigSub(r, y), m.bigAdd(r, y))
	return m.bigIte(neg, q2, q), m.bigIte(neg, r2, r)
}

func (m *Machine) bigIte(c *Term, a, b *Big) *Big {
	if c.isConst() {
		if c.u == 1 {
			return a
		}
		return b
	}
	x, y := m.two(a, b, 0)
	return m.mkBig(m.ts.Ite(c, x, y))
}

func (m *Machine) bigCmpV(a, b *Big) V {
	if a.c != nil && b.c != nil {
		return vInt(a.c.Cmp(b.c))
	}
	ts := m.ts
	lt, eq := m.bigSlt(a, b), m.bigEqTerm(a, b)
	return m.vi(ts.Ite(lt, ts.Const(64, ^uint64(0)), ts.Ite(eq, ts.Const(64, 0), ts.Const(64, 1))), rtInt)
}

func (m *Machine) bigSqrt(fr *frame, x *Big) *Big {
	if !m.isNonneg(x) {
		t := m.bigTerm(x)
		if m.decideTerm(m.ts.Slt(t, m.ts.Const(t.w, 0))) {
			fr.g.strPanic("square root of negative number")
		}
		if x.t != nil {
			// now known non-negative: drop the sign
			x = m.mkBig(m.ts.Zext(m.ts.Trunc(x.t, x.t.w-1), x.t.w))
		}
	}
	if x.c != nil {
		return &Big{c: new(big.Int).Sqrt(x.c)}
	}
	p := m.path
	bl := (x.t.bl + 1) / 2
	w := bl + 1
	var v *Term
	val := new(big.Int).Sqrt(m.ts.EvalBig(x.t))
	lim := mask64(min(bl, 63))
	if w > 64 {
		v = p.newVar(w, 0, 0, bl)
	} else {
		v = p.newVar(w, 0, lim, bl)
	}
	md := p.model.clone()
	md.set(v.p, val)
	p.setModel(md)
	r := &Big{t: v}
	r1 := m.bigAdd(r, &Big{c: bigOne})
	p.addPC(m.ts.Not(m.bigSlt(x, m.bigMul(r, r))))
	p.addPC(m.bigSlt(x, m.bigMul(r1, r1)))
	return m.mkBig(v)
}

func (m *Machine) bigIface(args []V, i int) V { return args[i] }

func regBig() {
	un := func(f func(m *Machine, fr *frame, x *Big) *Big) intrinsic {
		return func(m *Machine, g *G, fr *frame, a []V) V {
			return m.setBig(fr, a[0], f(m, fr, m.bigAt(fr, a[1])))
		}
	}
	bi := func(f func(m *Machine, fr *frame, x, y *Big) *Big) intrinsic {
		return func(m *Machine, g *G, fr *frame, a []V) V {
			return m.setBig(fr, a[0], f(m, fr, m.bigAt(fr, a[1]), m.bigAt(fr, a[2])))
		}
	}
	bw := func(op Op) intrinsic {
		return bi(func(m *Machine, fr *frame, x, y *Big) *Big {
			if x.c != nil && y.c != nil {
				r := new(big.Int)
				switch op {
				case OpBAnd:
					r.And(x.c, y.c)
				case OpBOr:
					r.Or(x.c, y.c)
				default:
					r.Xor(x.c, y.c)
				}
				return &Big{c: r}
			}
			p, q := m.two(x, y, 0)
			return m.mkBig(m.ts.bin(op, p, q))
		})
	}
	reg := func(name string, f intrinsic) { intrinsics[bigP+name] = f }
	reg("Set", un(func(m *Machine, fr *frame, x *Big) *Big {
		if x.sharedStorage {
			nb := *x
			nb.sharedStorage = false
			return &nb
		}
		return x
	}))
	reg("Neg", un(func(m *Machine, fr *frame, x *Big) *Big { return m.bigNeg(x) }))
	reg("Abs", un(func(m *Machine, fr *frame, x *Big) *Big { return m.bigAbs(x) }))
	reg("Sqrt", un(func(m *Machine, fr *frame, x *Big) *Big { return m.bigSqrt(fr, x) }))
	reg("Not", un(func(m *Machine, fr *frame, x *Big) *Big {
		if x.c != nil {
			return &Big{c: new(big.Int).Not(x.c)}
		}
		return m.mkBig(m.ts.BNot(x.t))
	}))
	reg("Add", bi(func(m *Machine, fr *frame, x, y *Big) *Big { return m.bigAdd(x, y) }))
	reg("Sub", bi(func(m *Machine, fr *frame, x, y *Big) *Big { return m.bigSub(x, y) }))
	reg("Mul", bi(func(m *Machine, fr *frame, x, y *Big) *Big { return m.bigMul(x, y) }))
	reg("And", bw(OpBAnd))
	reg("Or", bw(OpBOr))
	reg("Xor", bw(OpBXor))
	reg("AndNot", bi(func(m *Machine, fr *frame, x, y *Big) *Big {
		if x.c != nil && y.c != nil {
			return &Big{c: new(big.Int).AndNot(x.c, y.c)}
		}
		p, q := m.two(x, y, 0)
		return m.mkBig(m.ts.bin(OpBAnd, p, m.ts.BNot(q)))
	}))
	reg("Quo", bi(func(m *Machine, fr *frame, x, y *Big) *Big { q, _ := m.quoRem(fr, x, y); return q }))
	reg("Rem", bi(func(m *Machine, fr *frame, x, y *Big) *Big { _, r := m.quoRem(fr, x, y); return r }))
	reg("Div", bi(func(m *Machine, fr *frame, x, y *Big) *Big { q, _ := m.divMod(fr, x, y); return q }))
	reg("Mod", bi(func(m *Machine, fr *frame, x, y *Big) *Big { _, r := m.divMod(fr, x, y); return r }))
	reg("DivMod", func(m *Machine, g *G, fr *frame, a []V) V {
		q, r := m.divMod(fr, m.bigAt(fr, a[1]), m.bigAt(fr, a[2]))
		z := m.setBig(fr, a[0], q)
		return V{o: tuple{z, m.setBig(fr, a[3], r)}}
	})
	reg("QuoRem", func(m *Machine, g *G, fr *frame, a []V) V {
		q, r := m.quoRem(fr, m.bigAt(fr, a[1]), m.bigAt(fr, a[2]))
		z := m.setBig(fr, a[0], q)
		return V{o: tuple{z, m.setBig(fr, a[3], r)}}
	})
	reg("Lsh", func(m *Machine, g *G, fr *frame, a []V) V {
		return m.setBig(fr, a[0], m.bigLsh(fr, m.bigAt(fr, a[1]), a[2]))
	})
	reg("Rsh", func(m *Machine, g *G, fr *frame, a []V) V {
		return m.setBig(fr, a[0], m.bigRsh(m.bigAt(fr, a[1]), a[2]))
	})
	reg("Cmp", func(m *Machine, g *G, fr *frame, a []V) V { return m.bigCmpV(m.bigAt(fr, a[0]), m.bigAt(fr, a[1])) })
	reg("CmpAbs", func(m *Machine, g *G, fr *frame, a []V) V {
		return m.bigCmpV(m.bigAbs(m.bigAt(fr, a[0])), m.bigAbs(m.bigAt(fr, a[1])))
	})
	reg("Sign", func(m *Machine, g *G, fr *frame, a []V) V { return m.bigCmpV(m.bigAt(fr, a[0]), bigZ) })
	reg("BitLen", func(m *Machine, g *G, fr *frame, a []V) V { return m.bigBitLen(m.bigAt(fr, a[0])) })
	reg("TrailingZeroBits", func(m *Machine, g *G, fr *frame, a []V) V { return m.bigTZ(m.bigAt(fr, a[0])) })
	reg("Bit", func(m *Machine, g *G, fr *frame, a []V) V { return m.bigBit(fr, m.bigAt(fr, a[0]), a[1]) })
	reg("SetBit", func(m *Machine, g *G, fr *frame, a []V) V {
		x := m.bigAt(fr, a[1])
		i := int64(m.concInt(a[2], rtInt))
		if i < 0 {
			g.strPanic("negative bit index")
		}
		b := m.concInt(a[3], rtUint64)
		if x.c != nil {
			if b > 1 {
				g.strPanic("set bit not 0 or 1")
			}
			if i > int64(m.cfg.maxBits) {
				panic(limitEnd("SetBit %d", i))
			}
			return m.setBig(fr, a[0], &Big{c: new(big.Int).SetBit(x.c, int(i), uint(b))})
		}
		w := max(x.t.w, int(i)+2)
		xt := m.ts.Sext(x.t, w)
		mask := m.ts.ConstBig(w, new(big.Int).Lsh(bigOne, uint(i)))
		if b == 1 {
			return m.setBig(fr, a[0], m.mkBig(m.ts.bin(OpBOr, xt, mask)))
		}
		return m.setBig(fr, a[0], m.mkBig(m.ts.bin(OpBAnd, xt, m.ts.BNot(mask))))
	})
	reg("SetInt64", func(m *Machine, g *G, fr *frame, a []V) V { return m.setBig(fr, a[0], m.bigFromInt(a[1], rtInt)) })
	reg("SetUint64", func(m *Machine, g *G, fr *frame, a []V) V { return m.setBig(fr, a[0], m.bigFromInt(a[1], rtUint64)) })
	intrinsics["math/big.NewInt"] = func(m *Machine, g *G, fr *frame, a []V) V {
		return V{o: m.objOf(V{o: m.bigFromInt(a[0], rtInt)})}
	}
	reg("Int64", func(m *Machine, g *G, fr *frame, a []V) V { return m.bigLow64(m.bigAt(fr, a[0])) })
	reg("Uint64", func(m *Machine, g *G, fr *frame, a []V) V { return m.bigLow64(m.bigAt(fr, a[0])) })
	reg("IsInt64", func(m *Machine, g *G, fr *frame, a []V) V {
		x := m.bigAt(fr, a[0])
		if x.c != nil {
			return vBool(x.c.IsInt64())
		}
		if x.t.w <= 64 {
			return vBool(true)
		}
		return m.vb(m.ts.Eq(m.ts.Sext(m.ts.Trunc(x.t, 64), x.t.w), x.t))
	})
	reg("IsUint64", func(m *Machine, g *G, fr *frame, a []V) V {
		x := m.bigAt(fr, a[0])
		if x.c != nil {
			return vBool(x.c.IsUint64())
		}
		nn := m.ts.Not(m.ts.Slt(x.t, m.ts.Const(x.t.w, 0)))
		if x.t.w <= 65 {
			return m.vb(nn)
		}
		return m.vb(m.ts.Eq(m.ts.Zext(m.ts.Trunc(x.t, 64), x.t.w), x.t))
	})
	reg("String", func(m *Machine, g *G, fr *frame, a []V) V {
		if a[0].o == nil {
			return vStr("<nil>")
		}
		x := m.bigAt(fr, a[0])
		if x.c != nil {
			return vStr(x.c.String())
		}
		return V{o: &BigStr{x, 10}}
	})
	reg("Text", func(m *Machine, g *G, fr *frame, a []V) V {
		if a[0].o == nil {
			return vStr("<nil>")
		}
		base := int(m.concInt(a[1], rtInt))
		x := m.bigAt(fr, a[0])
		if x.c != nil {
			return vStr(x.c.Text(base))
		}
		return V{o: &BigStr{x, base}}
	})
	reg("Append", func(m *Machine, g *G, fr *frame, a []V) V {
		base := int(m.concInt(a[2], rtInt))
		s := vStr(m.concBig(m.bigAt(fr, a[0])).Text(base))
		return m.appendSlice(fr, a[1], s, rtUint8, true)
	})
	reg("Bits", func(m *Machine, g *G, fr *frame, a []V) V {
		x := m.bigAbs(m.bigAt(fr, a[0]))
		ws := m.words(x, 64)
		if len(ws) == 0 {
			return V{o: &SliceV{obj: m.newObj(0)}}
		}
		return V{o: &SliceV{obj: m.objOf(ws...), len: len(ws), cap: len(ws)}}
	})
	reg("SetBits", func(m *Machine, g *G, fr *frame, a []V) V {
		s, _ := a[1].o.(*SliceV)
		if s == nil {
			return m.setBig(fr, a[0], bigZ)
		}
		var t *Term
		for i := 0; i < s.len; i++ {
			c := m.term(s.obj.cells[s.off+i], rtUint64)
			if t == nil {
				t = c
			} else {
				t = m.ts.Concat(c, t)
			}
		}
		if t == nil {
			return m.setBig(fr, a[0], bigZ)
		}
		return m.setBig(fr, a[0], m.mkBig(m.ts.Zext(t, t.w+1)))
	})
	reg("Bytes", func(m *Machine, g *G, fr *frame, a []V) V {
		x := m.bigAbs(m.bigAt(fr, a[0]))
		ws := m.words(x, 8)
		for i, j := 0, len(ws)-1; i < j; i, j = i+1, j-1 {
			ws[i], ws[j] = ws[j], ws[i]
		}
		return V{o: &SliceV{obj: m.objOf(ws...), len: len(ws), cap: len(ws)}}
	})
	reg("SetBytes", func(m *Machine, g *G, fr *frame, a []V) V {
		s, _ := a[1].o.(*SliceV)
		if s == nil || s.len == 0 {
			return m.setBig(fr, a[0], bigZ)
		}
		var t *Term
		for i := 0; i < s.len; i++ {
			c := m.term(s.obj.cells[s.off+i], rtUint8)
			if t == nil {
				t = c
			} else {
				t = m.ts.Concat(t, c)
			}
		}
		return m.setBig(fr, a[0], m.mkBig(m.ts.Zext(t, t.w+1)))
	})
	reg("SetString", func(m *Machine, g *G, fr *frame, a []V) V {
		base := int(m.concInt(a[2], rtInt))
		s := m.forceStr(a[1])
		if ss, ok := s.o.(*SymStr); ok && (base == 10 || base == 16 || base == 2 || base == 8) {
			if b, ok := m.parseSym(ss, base); ok {
				z := m.setBig(fr, a[0], b)
				return V{o: tuple{z, vBool(true)}}
			}
			return V{o: tuple{V{}, V{}}}
		}
		if ss, ok := s.o.(*SymStr); ok && base == 0 {
			if b, ok, done := m.parseSym0(ss); done {
				if !ok {
					return V{o: tuple{V{}, V{}}}
				}
				return V{o: tuple{m.setBig(fr, a[0], b), vBool(true)}}
			}
		}
		str := m.goString(s)
		x, ok := new(big.Int).SetString(str, base)
		if !ok {
			return V{o: tuple{V{}, V{}}}
		}
		z := m.setBig(fr, a[0], &Big{c: x})
		return V{o: tuple{z, vBool(true)}}
	})
	reg("Exp", func(m *Machine, g *G, fr *frame, a []V) V {
		x := m.bigAt(fr, a[1])
		y := m.bigAt(fr, a[2])
		var mod *big.Int
		if a[3].o != nil {
			mod = m.concBig(m.bigAt(fr, a[3]))
			if mod.Sign() == 0 {
				mod = nil
			}
		}
		e := m.concBig(y)
		if mod != nil {
			xc := m.concBig(x)
			r := new(big.Int).Exp(xc, e, mod)
			if r == nil {
				return V{}
			}
			return m.setBig(fr, a[0], &Big{c: r})
		}
		if e.Sign() <= 0 {
			return m.setBig(fr, a[0], &Big{c: big.NewInt(1)})
		}
		if x.c != nil {
			bl := x.c.BitLen()
			if bl > 1 && (!e.IsInt64() || e.Int64()*int64(bl) > int64(m.cfg.maxBits) || e.Int64() > int64(m.cfg.maxBits)) {
				panic(limitEnd("exponentiation result too large"))
			}
			return m.setBig(fr, a[0], &Big{c: new(big.Int).Exp(x.c, e, nil)})
		}
		if !e.IsInt64() || e.Int64()*int64(x.t.w) > 4096 {
			xc := m.concBig(x)
			bl := xc.BitLen()
			if bl > 1 && (!e.IsInt64() || e.Int64() > int64(m.cfg.maxBits)/int64(bl)) {
				panic(limitEnd("exponentiation result too large"))
			}
			return m.setBig(fr, a[0], &Big{c: new(big.Int).Exp(xc, e, nil)})
		}
		r := x
		for i := int64(1); i < e.Int64(); i++ {
			r = m.bigMul(r, x)
		}
		return m.setBig(fr, a[0], r)
	})
	reg("Format", func(m *Machine, g *G, fr *frame, a []V) V {
		st := a[1].o.(*Iface)
		ch := rune(m.concInt(a[2], rtInt32))
		if a[0].o == nil {
			m.writeTo(g, fr, st, "<nil>")
			return V{}
		}
		f := "%"
		for _, fl := range "+-# 0" {
			if m.decide(m.callMethod(g, fr, st, nil, "Flag", V{u: uint64(fl)})) {
				f += string(fl)
			}
		}
		w := m.callMethod(g, fr, st, nil, "Width").o.(tuple)
		if m.decide(w[1]) {
			f += fmt.Sprint(int64(m.concInt(w[0], rtInt)))
		}
		pr := m.callMethod(g, fr, st, nil, "Precision").o.(tuple)
		if m.decide(pr[1]) {
			f += "." + fmt.Sprint(int64(m.concInt(pr[0], rtInt)))
		}
		x := m.concBig(m.bigAt(fr, a[0]))
		m.writeTo(g, fr, st, fmt.Sprintf(f+string(ch), x))
		return V{}
	})
}

func (m *Machine) writeTo(g *G, fr *frame, w *Iface, s string) {
	b := m.strToBytes(vStr(s))
	m.callMethod(g, fr, w, nil, "Write", b)
}

// words splits |x| into w-bit little-endian pieces of normalised length.
func (m *Machine) words(x *Big, w int) []V {
	rt := rtUint64
	if w == 8 {
		rt = rtUint8
	}
	if x.c != nil {
		var r []V
		y := new(big.Int).Set(x.c)
		mask := new(big.Int).SetUint64(mask64(w))
		for y.Sign() > 0 {
			r = append(r, V{u: new(big.Int).And(y, mask).Uint64()})
			y.Rsh(y, uint(w))
		}
		return r
	}
	t := x.t
	n := (t.bl + w - 1) / w
	full := m.ts.Resize(t, max(n*w, t.w), false)
	for n > 0 {
		// is the top piece non-zero?
		top := m.ts.Extract(full, n*w-1, (n-1)*w)
		if m.decideTerm(m.ts.Not(m.ts.Eq(top, m.ts.Const(w, 0)))) {
			break
		}
		n--
	}
	var r []V
	for i := 0; i < n; i++ {
		r = append(r, m.vi(m.ts.Extract(full, i*w+w-1, i*w), rt))
	}
	return r
}

// parseSym parses a symbolic digit string.
func (m *Machine) parseSym(s *SymStr, base int) (*Big, bool) {
	b := s.b
	ts := m.ts
	neg := false
	if len(b) > 0 {
		c := m.term(b[0], rtUint8)
		if m.decideTerm(ts.Eq(c, ts.Const(8, '-'))) {
			neg = true
			b = b[1:]
		} else if m.decideTerm(ts.Eq(c, ts.Const(8, '+'))) {
			b = b[1:]
		}
	}
	if len(b) == 0 {
		return nil, false
	}
	valid := ts.True
	var digs []*Term
	for _, v := range b {
		c := m.term(v, rtUint8)
		in := func(lo, hi byte) *Term {
			return ts.And(ts.Ule(ts.Const(8, uint64(lo)), c), ts.Ule(c, ts.Const(8, uint64(hi))))
		}
		hiDig := byte('9')
		if base < 10 {
			hiDig = byte('0' + base - 1)
		}
		ok := in('0', hiDig)
		d := ts.Sub(c, ts.Const(8, '0'))
		if base == 16 {
			lo, up := in('a', 'f'), in('A', 'F')
			ok = ts.Or(ok, ts.Or(lo, up))
			d = ts.Ite(in('0', '9'), d, ts.Ite(lo, ts.Sub(c, ts.Const(8, 'a'-10)), ts.Sub(c, ts.Const(8, 'A'-10))))
		}
		valid = ts.And(valid, ok)
		digs = append(digs, ts.Trunc(d, 4))
	}
	if !m.decideTerm(valid) {
		return nil, false
	}
	var r *Big
	switch base {
	case 16:
		t := digs[0]
		for _, d := range digs[1:] {
			t = ts.Concat(t, d)
		}
		r = m.mkBig(ts.Zext(t, t.w+1))
	case 2:
		t := ts.Trunc(digs[0], 1)
		for _, d := range digs[1:] {
			t = ts.Concat(t, ts.Trunc(d, 1))
		}
		r = m.mkBig(ts.Zext(t, t.w+1))
	default:
		r = bigZ
		bb := &Big{c: big.NewInt(int64(base))}
		for _, d := range digs {
			r = m.bigAdd(m.bigMul(r, bb), m.mkBig(ts.Zext(d, 5)))
		}
	}
	if neg {
		r = m.bigNeg(r)
	}
	return r, true
}

// parseSym0 reads a literal with an optional base prefix. (done is false when
// the string holds an underscore.)
func (m *Machine) parseSym0(s *SymStr) (r *Big, ok, done bool) {
	ts := m.ts
	b := s.b
	us := ts.True
	for _, v := range b {
		us = ts.And(us, ts.Not(ts.Eq(m.term(v, rtUint8), ts.Const(8, '_'))))
	}
	if !m.decideTerm(us) {
		return nil, false, false
	}
	is := func(i int, cs string) bool {
		c := m.term(b[i], rtUint8)
		t := ts.False
		for _, x := range []byte(cs) {
			t = ts.Or(t, ts.Eq(c, ts.Const(8, uint64(x))))
		}
		return m.decideTerm(t)
	}
	neg := false
	if len(b) > 0 {
		if is(0, "-") {
			neg = true
			b = b[1:]
		} else if is(0, "+") {
			b = b[1:]
		}
	}
	if len(b) == 0 || is(0, "+-") {
		return nil, false, true
	}
	base := 10
	if len(b) > 1 && is(0, "0") {
		switch {
		case is(1, "xX"):
			base, b = 16, b[2:]
		case is(1, "bB"):
			base, b = 2, b[2:]
		case is(1, "oO"):
			base, b = 8, b[2:]
		default:
			base, b = 8, b[1:]
		}
		if len(b) == 0 || is(0, "+-") {
			return nil, false, true
		}
	}
	r, ok = m.parseSym(&SymStr{b: b}, base)
	if !ok {
		return nil, false, true
	}
	if neg {
		r = m.bigNeg(r)
	}
	return r, true, true
}

// bigFallback calls the host's method on concretised arguments.
func bigFallback(fn string, sig *types.Signature) intrinsic {
	name := fn[strings.LastIndexByte(fn, '.')+1:]
	meth, ok := reflect.TypeOf((*big.Int)(nil)).MethodByName(name)
	if !ok {
		return nil
	}
	return func(m *Machine, g *G, fr *frame, a []V) (res V) {
		mt := meth.Type
		in := make([]reflect.Value, mt.NumIn())
		hosts := map[*big.Int]V{}
		for i := range in {
			t := mt.In(i)
			switch {
			case t == reflect.TypeOf((*big.Int)(nil)):
				if a[i].o == nil {
					in[i] = reflect.Zero(t)
					continue
				}
				x := new(big.Int).Set(m.concBig(m.bigAt(fr, a[i])))
				for h, v := range hosts {
					if v == a[i] {
						x = h
					}
				}
				hosts[x] = a[i]
				in[i] = reflect.ValueOf(x)
			case t.Kind() >= reflect.Int && t.Kind() <= reflect.Int64:
				in[i] = reflect.ValueOf(int64(m.concInt(a[i], rtInt))).Convert(t)
			case t.Kind() >= reflect.Uint && t.Kind() <= reflect.Uint64:
				in[i] = reflect.ValueOf(m.concInt(a[i], rtUint64)).Convert(t)
			case t.Kind() == reflect.String:
				in[i] = reflect.ValueOf(m.goString(a[i]))
			case t == reflect.TypeOf([]byte(nil)):
				in[i] = reflect.ValueOf([]byte(m.goString(m.bytesToStr(fr, a[i]))))
			default:
				panic(unsupported("%s argument %d", fn, i))
			}
		}
		var out []reflect.Value
		func() {
			defer func() {
				if r := recover(); r != nil {
					g.strPanic(fmt.Sprint(r))
				}
			}()
			out = meth.Func.Call(in)
		}()
		for h, v := range hosts {
			if m.bigAt(fr, v).c == nil || m.bigAt(fr, v).c.Cmp(h) != 0 {
				m.setBig(fr, v, &Big{c: new(big.Int).Set(h)})
			}
		}
		conv := func(o reflect.Value) V {
			t := o.Type()
			switch {
			case t == reflect.TypeOf((*big.Int)(nil)):
				h := o.Interface().(*big.Int)
				if h == nil {
					return V{}
				}
				if v, ok := hosts[h]; ok {
					return v
				}
				return V{o: m.objOf(V{o: &Big{c: h}})}
			case t.Kind() == reflect.Bool:
				return vBool(o.Bool())
			case t.Kind() >= reflect.Int && t.Kind() <= reflect.Int64:
				return V{u: uint64(o.Int())}
			case t.Kind() >= reflect.Uint && t.Kind() <= reflect.Uint64:
				return V{u: o.Uint()}
			case t.Kind() == reflect.String:
				return vStr(o.String())
			case t == reflect.TypeOf([]byte(nil)):
				return m.strToBytes(vStr(string(o.Bytes())))
			case t.Kind() == reflect.Float64:
				return vF(o.Float(), 64)
			}
			panic(unsupported("%s result", fn))
		}
		switch len(out) {
		case 0:
			return V{}
		case 1:
			return conv(out[0])
		}
		var t tuple
		for _, o := range out {
			t = append(t, conv(o))
		}
		return V{o: t}
	}
}
