// Package c13 checks target expressions against a precedence-climbing
// reference evaluator.
package c13

import (
	"math/big"

	"github.com/mmcloughlin/addchain/internal/calc"
	"github.com/mmcloughlin/addchain/zzverif/nd"
)

// token is a literal (op == 0) or an operator.
type token struct {
	op byte
	x  *big.Int
}

// lexer outcomes
const (
	good = iota
	bad
	unspecified // superfluous leading zeros, upper case digits
)

func isDigit(c byte) bool { return nd.And(c >= '0', c <= '9') }
func isHex(c byte) bool   { return nd.Or(isDigit(c), nd.And(c >= 'a', c <= 'f')) }
func isBin(c byte) bool   { return nd.Or(c == '0', c == '1') }
func isUpper(c byte) bool {
	return nd.Or(nd.And(c >= 'A', c <= 'F'), c == 'X', c == 'B')
}

// lex splits s into alternating literals and operators.
func lex(s string) ([]token, int) {
	var ts []token
	status := good
	operand := true
	i := 0
	for {
		for i < len(s) && s[i] == ' ' {
			i++
		}
		if i == len(s) {
			break
		}
		c := s[i]
		if !operand {
			if !nd.Or(c == '+', c == '-', c == '*', c == '/', c == '^') {
				return nil, bad
			}
			// one path per operator
			op := byte('+')
			switch c {
			case '-':
				op = '-'
			case '*':
				op = '*'
			case '/':
				op = '/'
			case '^':
				op = '^'
			}
			ts = append(ts, token{op: op})
			i++
			operand = true
			continue
		}
		neg := false
		if c == '-' {
			neg = true
			i++
		}
		base := 10
		is := isDigit
		if i+1 < len(s) && s[i] == '0' {
			switch {
			case s[i+1] == 'x':
				base, is = 16, isHex
				i += 2
			case s[i+1] == 'b':
				base, is = 2, isBin
				i += 2
			case isUpper(s[i+1]):
				return nil, unspecified
			}
		}
		start := i
		x := new(big.Int)
		for i < len(s) && is(s[i]) {
			i++
		}
		if i == start {
			if base == 16 && i < len(s) && isUpper(s[i]) {
				return nil, unspecified
			}
			return nil, bad
		}
		if base == 10 && i-start > 1 && s[start] == '0' {
			status = unspecified
		}
		if base == 16 && i < len(s) && isUpper(s[i]) {
			return nil, unspecified
		}
		x.SetString(s[start:i], base)
		if neg {
			x.Neg(x)
		}
		ts = append(ts, token{x: x})
		operand = false
	}
	if operand {
		return nil, bad
	}
	return ts, status
}

// parser evaluates tokens by the usual rules.
type parser struct {
	ts  []token
	max int
}

func (p *parser) peek() byte {
	if len(p.ts) == 0 {
		return 0
	}
	return p.ts[0].op
}

func (p *parser) next() token { t := p.ts[0]; p.ts = p.ts[1:]; return t }

func (p *parser) expr() *big.Int {
	x := p.term()
	for p.peek() == '+' || p.peek() == '-' {
		op := p.next().op
		y := p.term()
		if op == '+' {
			x = new(big.Int).Add(x, y)
		} else {
			x = new(big.Int).Sub(x, y)
		}
	}
	return x
}

func (p *parser) term() *big.Int {
	x := p.power()
	for p.peek() == '*' || p.peek() == '/' {
		op := p.next().op
		y := p.power()
		if op == '*' {
			x = new(big.Int).Mul(x, y)
		} else {
			x = euclid(x, y)
		}
	}
	return x
}

// euclid is Euclidean division (math/big's definition of Div).
func euclid(x, y *big.Int) *big.Int {
	nd.Assume(nd.Not(nd.EqBig(y, new(big.Int))))
	return new(big.Int).Div(x, y)
}

func (p *parser) power() *big.Int {
	x := p.next().x
	if p.peek() != '^' {
		return x
	}
	p.next()
	e := p.power()
	nd.Assume(nd.LtBig(e, big.NewInt(int64(p.max)+1)))
	if nd.LtBig(e, big.NewInt(1)) {
		return big.NewInt(1)
	}
	n := int(nd.ConcBig(e).Int64())
	r := big.NewInt(1)
	for i := 0; i < n; i++ {
		r = new(big.Int).Mul(r, x)
	}
	return r
}

func powers(s string) int {
	n := 0
	for i := range []byte(s) {
		n += nd.IteInt(s[i] == '^', 1, 0)
	}
	return nd.Conc(n)
}

func check(s string) {
	ts, status := lex(s)
	if status == unspecified {
		nd.Reach("unspecified")
		return
	}
	if status == bad {
		// (a malformed tail does not stop towers of powers before it)
		if n := powers(s); n > 2 || n == 2 && len(s) > 5 {
			nd.Reach("tower")
			return
		}
		x, err := calc.Eval(s)
		nd.Assert(err != nil, "malformed expressions are errors")
		nd.Assert(x == nil, "no value with an error")
		nd.Reach("malformed")
		return
	}
	p := &parser{ts: ts, max: nd.Param("exp")}
	want := p.expr()
	x, err := calc.Eval(s)
	nd.Assert(err == nil, "well-formed expressions evaluate")
	nd.Assert(nd.EqBig(x, want), "value by the standard rules")
	nd.Observe("x", x)
	nd.Reach("value")
}

// Any: every byte string.
func Any() {
	n := nd.Choose("n", nd.Param("len")+1)
	check(nd.String("s", n))
}

// Operators: every sequence of operators over arbitrary literals of one of the
// forms.
func Operators() {
	n := 1 + nd.Choose("n", nd.Param("ops"))
	var b []byte
	for i := 0; i <= n; i++ {
		if i > 0 {
			b = append(b, "+-*/^"[nd.Choose("op", 5)])
		}
		b = append(b, literal(nd.Param("forms"), nd.Param("digits"))...)
	}
	check(string(b))
}

// literal is a literal with arbitrary digits.
func literal(forms, digits int) []byte {
	var b []byte
	form := nd.Choose("form", forms)
	if form%2 == 1 {
		b = append(b, '-')
	}
	switch form / 2 {
	case 0:
		for i := 0; i < digits; i++ {
			c := nd.Byte("d")
			if i == 0 && digits > 1 {
				nd.Assume(nd.And(c >= '1', c <= '9'))
			} else {
				nd.Assume(isDigit(c))
			}
			b = append(b, c)
		}
	case 1:
		b = append(b, "0x"...)
		letters := digits > 4 && nd.Choose("letters", 2) == 1
		for i := 0; i < digits; i++ {
			c := nd.Byte("h")
			switch {
			case i+2 >= digits:
				nd.Assume(isHex(c))
			case letters:
				nd.Assume(nd.And(c >= 'a', c <= 'f'))
			default:
				nd.Assume(isDigit(c))
			}
			b = append(b, c)
		}
	case 2:
		b = append(b, "0b"...)
		for i := 0; i < digits+1; i++ {
			if digits > 4 && i+2 < digits {
				b = append(b, "1011"[i%4])
				continue
			}
			c := nd.Byte("b")
			nd.Assume(isBin(c))
			b = append(b, c)
		}
	}
	return b
}

// Template: longer expressions with arbitrary bytes at one place.
var templates = []string{
	"2^255 - 19?", "2^25?-2^3+1", "0x1f?*3", "0b10?1+7/2", "1+2*3-4?5", "-7/2?-3", "2^3^2?", "(1?+2)", "3? ^ 2 * 4",
	"10/3?*3", "10-3?-2", " 1 ?+ 2", "1+?", "?", "12?", "-?", "0?", "0x?", "0b?", "2**?", "7/-2?", "5 ?5", "2^-?1", "100/7?/2^2", "2?^3*3^2/2", "- 3?", "-0x1?", "1 - -3?",
}

func Template() {
	t := templates[nd.Choose("t", len(templates))]
	k := nd.Choose("k", nd.Param("hole")+1)
	var b []byte
	for i := 0; i < len(t); i++ {
		if t[i] == '?' {
			b = append(b, nd.Bytes("h", k)...)
		} else {
			b = append(b, t[i])
		}
	}
	check(string(b))
}

// Long: literals far beyond a machine word.
func Long() {
	a := literal(6, nd.Param("digits"))
	op := "+-*"[nd.Choose("op", 3)]
	b := literal(6, nd.Param("digits"))
	check(string(a) + " " + string(op) + string(b))
}

// LongDiv: division of a large literal by a small one.
func LongDiv() {
	a := literal(6, nd.Param("digits"))
	b := literal(4, 1)
	check(string(a) + "/" + string(b))
}
