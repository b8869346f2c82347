package main

// Linear-integer view of bit-vector terms. A term whose arithmetic provably
// never wraps denotes the same number over the integers, so constraints built
// only from such terms can be decided in linear integer arithmetic, where sums,
// comparisons and equalities are far cheaper than bit-blasted adders.

import (
	"fmt"
	"math/big"
	"os"
	"strings"
)

// sbits bounds the signed width of t: -2^(n-1) <= t < 2^(n-1).
func (t *Term) sbits() int {
	if t.sb != 0 {
		return t.sb
	}
	r := t.w
	if t.op == OpConst {
		r = toSigned(t.constInt(), t.w).BitLen() + 1
	} else if t.bl < t.w {
		r = t.bl + 1
	} else {
		switch t.op {
		case OpSext:
			r = t.a.sbits()
		case OpIte:
			r = max(t.b.sbits(), t.c.sbits())
		case OpAdd, OpSub:
			r = min(t.w, max(t.a.sbits(), t.b.sbits())+1)
		case OpNeg:
			r = min(t.w, t.a.sbits()+1)
		case OpMul:
			r = min(t.w, t.a.sbits()+t.b.sbits())
		}
	}
	t.sb = r
	return r
}

var liaDebug = os.Getenv("GOSYM_LIA") != ""

const (
	lvNo = iota
	lvSigned
	lvUnsigned
)

type liaKey struct {
	t      *Term
	signed bool
}

// Lia is the integer encoder attached to a solver process.
type Lia struct {
	m    map[liaKey]string // "" = not expressible
	base map[*Term]int     // variable -> natural view
	decl strings.Builder   // variables and their ranges (asserted at the base level)
	defs strings.Builder
	n    int
	seq  int
}

func newLia() *Lia {
	return &Lia{m: map[liaKey]string{}, base: map[*Term]int{}}
}

func liaNum(x *big.Int) string {
	if x.Sign() < 0 {
		return "(- " + new(big.Int).Neg(x).String() + ")"
	}
	return x.String()
}

func pow2s(n int) string { return new(big.Int).Lsh(bigOne, uint(n)).String() }

func (l *Lia) name(sort, body string) string {
	if len(body) < 24 {
		return body
	}
	l.seq++
	n := fmt.Sprintf("l%d", l.seq)
	fmt.Fprintf(&l.defs, "(define-fun %s () %s %s)\n", n, sort, body)
	return n
}

func (l *Lia) val(t *Term, signed bool) string {
	if t.op != OpConst && t.bl < t.w {
		signed = false
	}
	k := liaKey{t, signed}
	if s, ok := l.m[k]; ok {
		return s
	}
	s := l.val1(t, signed)
	if s == "" && liaDebug && (t.a == nil || l.m[liaKey{t.a, signed}] != "" || t.op != OpIte) {
		warnf("lia %v %s w%d bl%d sb%d a:%s w%d bl%d", signed, defSMT(t), t.w, t.bl, t.sbits(), defSMT(t.a), t.a.w, t.a.bl)
	}
	if s != "" && t.op != OpVar && t.op != OpConst {
		s = l.name("Int", s)
	}
	l.m[k] = s
	l.n++
	return s
}

func (l *Lia) val1(t *Term, signed bool) string {
	bin := func(op, a, b string) string {
		if a == "" || b == "" {
			return ""
		}
		return "(" + op + " " + a + " " + b + ")"
	}
	small := t.bl < t.w // both views agree
	switch t.op {
	case OpConst:
		if signed {
			return liaNum(toSigned(t.constInt(), t.w))
		}
		return liaNum(t.constInt())
	case OpVar:
		v := l.base[t]
		if v == 0 {
			v = lvUnsigned
			lo, hi := "0", pow2s(t.bl)
			if signed {
				v = lvSigned
				lo, hi = "(- "+pow2s(t.w-1)+")", pow2s(t.w-1)
			}
			l.base[t] = v
			fmt.Fprintf(&l.decl, "(declare-const %s Int)\n(assert (and (<= %s %s) (< %s %s)))\n", t.name, lo, t.name, t.name, hi)
		}
		if v == lvSigned == signed {
			return t.name
		}
		if signed {
			return fmt.Sprintf("(ite (< %s %s) %s (- %s %s))", t.name, pow2s(t.w-1), t.name, t.name, pow2s(t.w))
		}
		return fmt.Sprintf("(ite (< %s 0) (+ %s %s) %s)", t.name, t.name, pow2s(t.w), t.name)
	case OpZext:
		return l.val(t.a, false)
	case OpSext:
		if signed || small {
			return l.val(t.a, true)
		}
		return ""
	case OpExtract:
		if t.q == 0 {
			if t.a.bl <= t.w && (!signed || small) {
				return l.val(t.a, false)
			}
			if signed && t.a.sbits() <= t.w {
				return l.val(t.a, true)
			}
		}
		return ""
	case OpIte:
		c := l.boolean(t.a)
		if c == "" {
			return ""
		}
		a, b := l.val(t.b, signed), l.val(t.c, signed)
		if a == "" || b == "" {
			return ""
		}
		return "(ite " + c + " " + a + " " + b + ")"
	case OpAdd:
		if max(t.a.bl, t.b.bl)+1 <= t.w && !signed {
			return bin("+", l.val(t.a, false), l.val(t.b, false))
		}
		if max(t.a.sbits(), t.b.sbits())+1 <= t.w && (signed || small) {
			return bin("+", l.val(t.a, true), l.val(t.b, true))
		}
	case OpSub:
		if max(t.a.sbits(), t.b.sbits())+1 <= t.w && (signed || small) {
			return bin("-", l.val(t.a, true), l.val(t.b, true))
		}
	case OpNeg:
		if t.a.sbits()+1 <= t.w && (signed || small) {
			a := l.val(t.a, true)
			if a == "" {
				return ""
			}
			return "(- " + a + ")"
		}
	case OpMul:
		if t.a.op != OpConst && t.b.op != OpConst {
			return ""
		}
		if t.a.sbits()+t.b.sbits() <= t.w && (signed || small) {
			return bin("*", l.val(t.a, true), l.val(t.b, true))
		}
	case OpShl:
		if t.b.op == OpConst {
			n := t.b.constInt()
			if n.IsInt64() && n.Int64() < int64(t.w) && t.a.sbits()+int(n.Int64()) <= t.w && (signed || small) {
				return bin("*", pow2s(int(n.Int64())), l.val(t.a, true))
			}
		}
	}
	return ""
}

func (l *Lia) boolean(t *Term) string {
	k := liaKey{t, false}
	if s, ok := l.m[k]; ok {
		return s
	}
	s := l.bool1(t)
	if s != "" && t.op != OpVar && t.op != OpConst {
		s = l.name("Bool", s)
	}
	l.m[k] = s
	l.n++
	return s
}

func (l *Lia) bool1(t *Term) string {
	if t.w != 0 {
		return ""
	}
	switch t.op {
	case OpConst:
		if t.u == 1 {
			return "true"
		}
		return "false"
	case OpVar:
		fmt.Fprintf(&l.decl, "(declare-const %s Bool)\n", t.name)
		l.base[t] = lvUnsigned
		return t.name
	case OpNot:
		a := l.boolean(t.a)
		if a == "" {
			return ""
		}
		return "(not " + a + ")"
	case OpAnd, OpOr:
		a := l.boolean(t.a)
		if a == "" {
			return ""
		}
		b := l.boolean(t.b)
		if b == "" {
			return ""
		}
		return "(" + opSMT[t.op] + " " + a + " " + b + ")"
	case OpIte:
		a, b, c := l.boolean(t.a), l.boolean(t.b), l.boolean(t.c)
		if a == "" || b == "" || c == "" {
			return ""
		}
		return "(ite " + a + " " + b + " " + c + ")"
	case OpEq:
		if t.a.w == 0 {
			a, b := l.boolean(t.a), l.boolean(t.b)
			if a == "" || b == "" {
				return ""
			}
			return "(= " + a + " " + b + ")"
		}
		a, b := l.val(t.a, true), l.val(t.b, true)
		if a == "" || b == "" {
			a, b = l.val(t.a, false), l.val(t.b, false)
		}
		if a == "" || b == "" {
			return ""
		}
		return "(= " + a + " " + b + ")"
	case OpSlt, OpSle, OpUlt, OpUle:
		sg := t.op == OpSlt || t.op == OpSle
		a, b := l.val(t.a, sg), l.val(t.b, sg)
		if a == "" || b == "" {
			return ""
		}
		op := "<"
		if t.op == OpSle || t.op == OpUle {
			op = "<="
		}
		return "(" + op + " " + a + " " + b + ")"
	}
	return ""
}
