// Package libacc is a reference reading of scripts: the published grammar as a
// recursive-descent recogniser with ordered choice, and the semantics of the
// statements.
package libacc

import (
	"math/big"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/zzverif/nd"
)

// Kinds of expression.
const (
	Operand = iota
	Ident
	Add
	Shift
	Double
)

// Expr is an expression of the reference.
type Expr struct {
	Kind int
	X, Y *Expr
	N    uint64 // index or shift
	Name string
}

// Stmt is a statement.
type Stmt struct {
	Name string
	E    *Expr
}

// Result of reading a text.
type Result struct {
	Stmts []Stmt
	// Literal is set if some literal read on the way does not fit 64 bits.
	Literal bool
}

type reader struct {
	s   string
	pos int
	lit bool
}

func (r *reader) is(c byte) bool { return r.pos < len(r.s) && r.s[r.pos] == c }

func (r *reader) eat(lit string) bool {
	start := r.pos
	for k := 0; k < len(lit); k++ {
		if !r.is(lit[k]) {
			r.pos = start
			return false
		}
		r.pos++
	}
	return true
}

func (r *reader) space() bool {
	if r.is(' ') || r.is('\t') || r.is('\r') {
		r.pos++
		return true
	}
	return false
}

func (r *reader) spaces() {
	for r.space() {
	}
}

func (r *reader) in(lo, hi byte) bool {
	return r.pos < len(r.s) && nd.And(r.s[r.pos] >= lo, r.s[r.pos] <= hi)
}

func (r *reader) letter() bool { return r.in('a', 'z') || r.in('A', 'Z') || r.is('_') }
func (r *reader) digit() bool  { return r.in('0', '9') }

// Parse reads a script; ok is false for texts outside the grammar.
func Parse(s string) (res Result, ok bool) {
	r := &reader{s: s}
	for {
		start := r.pos
		st, ok := r.assignment()
		if !ok {
			r.pos = start
			break
		}
		res.Stmts = append(res.Stmts, st)
	}
	r.spaces()
	start := r.pos
	if r.eat("return") && r.space() {
		r.spaces()
	} else {
		r.pos = start
	}
	e, ok := r.expr()
	if !ok {
		return res, false
	}
	r.spaces()
	r.eat("\n")
	r.spaces()
	res.Stmts = append(res.Stmts, Stmt{E: e})
	res.Literal = r.lit
	return res, r.pos == len(s)
}

func (r *reader) assignment() (Stmt, bool) {
	r.spaces()
	n, ok := r.ident()
	if !ok {
		return Stmt{}, false
	}
	r.spaces()
	if !r.eat("=") {
		return Stmt{}, false
	}
	r.spaces()
	e, ok := r.expr()
	if !ok {
		return Stmt{}, false
	}
	r.spaces()
	return Stmt{n, e}, r.eat("\n")
}

func (r *reader) expr() (*Expr, bool) {
	r.spaces()
	x, ok := r.shift()
	if !ok {
		return nil, false
	}
	for {
		start := r.pos
		r.spaces()
		if !(r.eat("+") || r.eat("add")) {
			r.pos = start
			break
		}
		r.spaces()
		y, ok := r.shift()
		if !ok {
			r.pos = start
			break
		}
		x = &Expr{Kind: Add, X: x, Y: y}
	}
	r.spaces()
	return x, true
}

func (r *reader) shift() (*Expr, bool) {
	start := r.pos
	// base << n
	r.spaces()
	x, ok := r.base()
	if ok {
		r.spaces()
		if r.eat("<<") || r.eat("shl") {
			r.spaces()
			if n, ok := r.literal(); ok {
				r.spaces()
				return &Expr{Kind: Shift, X: x, N: n}, true
			}
		}
	}
	// 2 * base
	r.pos = start
	r.spaces()
	if r.double() {
		r.spaces()
		if x, ok := r.base(); ok {
			return &Expr{Kind: Double, X: x}, true
		}
	}
	r.pos = start
	return r.base()
}

func (r *reader) double() bool {
	start := r.pos
	if r.eat("2") {
		r.spaces()
		if r.eat("*") {
			return true
		}
	}
	r.pos = start
	if !r.eat("dbl") {
		return false
	}
	if r.letter() || r.digit() {
		r.pos = start
		return false
	}
	return true
}

func (r *reader) base() (*Expr, bool) {
	start := r.pos
	if r.eat("(") {
		r.spaces()
		e, ok := r.expr()
		if ok {
			r.spaces()
			if r.eat(")") {
				return e, true
			}
		}
		r.pos = start
	}
	if r.eat("1") {
		return &Expr{Kind: Operand}, true
	}
	if r.eat("[") {
		r.spaces()
		if n, ok := r.literal(); ok {
			r.spaces()
			if r.eat("]") {
				return &Expr{Kind: Operand, N: n}, true
			}
		}
		r.pos = start
	}
	n, ok := r.ident()
	return &Expr{Kind: Ident, Name: n}, ok
}

func (r *reader) ident() (string, bool) {
	start := r.pos
	if !r.letter() {
		return "", false
	}
	for r.letter() || r.digit() {
		r.pos++
	}
	return r.s[start:r.pos], true
}

// literal reads 0x and hexadecimal digits, 0 and octal digits, or decimal
// digits.
func (r *reader) literal() (uint64, bool) {
	start := r.pos
	if r.eat("0x") {
		n, digits := r.number(16)
		if digits > 0 {
			return n, true
		}
	}
	r.pos = start
	if r.eat("0") {
		n, digits := r.number(8)
		if digits > 0 {
			// 0128 stops in the middle of the digits: what follows a
			// number is never a digit, so such a text is refused.
			return n, true
		}
	}
	r.pos = start
	n, digits := r.number(10)
	if digits > 1 && r.s[start] == '0' {
		r.lit = true // 08: no octal number
	}
	return n, digits > 0
}

func (r *reader) number(base uint64) (n uint64, digits int) {
	for {
		var d uint64
		switch {
		case base <= 10 && r.in('0', byte('0'+base-1)) || base > 10 && r.digit():
			d = uint64(r.s[r.pos] - '0')
		case base > 10 && r.in('a', 'f'):
			d = uint64(r.s[r.pos]-'a') + 10
		case base > 10 && r.in('A', 'F'):
			d = uint64(r.s[r.pos]-'A') + 10
		default:
			return n, digits
		}
		if digits >= 15 && n > (1<<64-1-d)/base {
			r.lit = true
			n = 0
		}
		n = n*base + d
		digits++
		r.pos++
	}
}

// Same compares a tree of the implementation.
func (e *Expr) Same(a ast.Expr) bool {
	switch e.Kind {
	case Operand:
		o, ok := a.(ast.Operand)
		return ok && nd.And(o >= 0, uint64(o) == e.N)
	case Ident:
		i, ok := a.(ast.Identifier)
		return ok && nd.EqString(string(i), e.Name)
	case Add:
		b, ok := a.(ast.Add)
		return ok && nd.And(e.X.Same(b.X), e.Y.Same(b.Y))
	case Shift:
		b, ok := a.(ast.Shift)
		return ok && nd.And(uint64(b.S) == e.N, e.X.Same(b.X))
	case Double:
		b, ok := a.(ast.Double)
		return ok && e.X.Same(b.X)
	}
	return false
}

// AST is the implementation's form of the tree.
func (e *Expr) AST() ast.Expr {
	switch e.Kind {
	case Operand:
		return ast.Operand(int(e.N))
	case Ident:
		return ast.Identifier(e.Name)
	case Add:
		return ast.Add{X: e.X.AST(), Y: e.Y.AST()}
	case Shift:
		return ast.Shift{X: e.X.AST(), S: uint(e.N)}
	}
	return ast.Double{X: e.X.AST()}
}

// SameChain compares all statements.
func SameChain(s []Stmt, c *ast.Chain) bool {
	if len(s) != len(c.Statements) {
		return false
	}
	ok := true
	for k := range s {
		ok = nd.And(ok, nd.EqString(s[k].Name, string(c.Statements[k].Name)), s[k].E.Same(c.Statements[k].Expr))
	}
	return ok
}

// SameAST compares two trees of the implementation.
func SameAST(a, b ast.Expr) bool {
	switch x := a.(type) {
	case ast.Operand:
		y, ok := b.(ast.Operand)
		return ok && x == y
	case ast.Identifier:
		y, ok := b.(ast.Identifier)
		return ok && nd.EqString(string(x), string(y))
	case ast.Add:
		y, ok := b.(ast.Add)
		return ok && nd.And(SameAST(x.X, y.X), SameAST(x.Y, y.Y))
	case ast.Shift:
		y, ok := b.(ast.Shift)
		return ok && nd.And(x.S == y.S, SameAST(x.X, y.X))
	case ast.Double:
		y, ok := b.(ast.Double)
		return ok && SameAST(x.X, y.X)
	}
	return false
}

// SameTree compares two trees of the implementation.
func SameTree(a, b *ast.Chain) bool {
	if len(a.Statements) != len(b.Statements) {
		return false
	}
	ok := true
	for k := range a.Statements {
		x, y := a.Statements[k], b.Statements[k]
		ok = nd.And(ok, nd.EqString(string(x.Name), string(y.Name)), SameAST(x.Expr, y.Expr))
	}
	return ok
}

// Eval is the meaning of the statements. MaxShift bounds shifts.
type Eval struct {
	Ops   addchain.Program
	Chain []*big.Int
	// Bad: an undefined name, a redefinition or an operation on an element
	// that has not been computed.
	Bad bool
	// Unclear: a case the semantics leaves open (a shift by zero, or a name
	// for an element that is not computed yet).
	Unclear bool
	// Big: a shift beyond the bound; nothing is evaluated after it.
	Big   bool
	names []binding
}

type binding struct {
	name string
	elem uint64
}

// Run evaluates the statements.
func Run(s []Stmt, maxshift uint64) *Eval {
	v := &Eval{Chain: []*big.Int{big.NewInt(1)}}
	for _, st := range s {
		k := v.expr(st.E, maxshift)
		if v.Bad || v.Big {
			return v
		}
		if k >= uint64(len(v.Chain)) {
			v.Unclear = true
		}
		if st.Name == "" {
			continue
		}
		for _, b := range v.names {
			if b.name == st.Name {
				v.Bad = true
				return v
			}
		}
		v.names = append(v.names, binding{st.Name, k})
	}
	return v
}

func (v *Eval) push(x, y uint64) uint64 {
	n := uint64(len(v.Chain))
	if x >= n || y >= n {
		v.Bad = true
		return 0
	}
	i, j := nd.Conc(int(x)), nd.Conc(int(y))
	v.Ops = append(v.Ops, addchain.Op{I: i, J: j})
	v.Chain = append(v.Chain, new(big.Int).Add(v.Chain[i], v.Chain[j]))
	return n
}

func (v *Eval) expr(e *Expr, maxshift uint64) uint64 {
	if v.Bad || v.Big {
		return 0
	}
	switch e.Kind {
	case Operand:
		return e.N
	case Ident:
		for _, b := range v.names {
			if b.name == e.Name {
				return b.elem
			}
		}
		v.Bad = true
		return 0
	case Add:
		x := v.expr(e.X, maxshift)
		y := v.expr(e.Y, maxshift)
		if v.Bad || v.Big {
			return 0
		}
		return v.push(x, y)
	case Double:
		x := v.expr(e.X, maxshift)
		if v.Bad || v.Big {
			return 0
		}
		return v.push(x, x)
	}
	x := v.expr(e.X, maxshift)
	if v.Bad || v.Big {
		return 0
	}
	if e.N == 0 {
		v.Unclear = true
		return x
	}
	if x >= uint64(len(v.Chain)) {
		v.Bad = true
		return 0
	}
	if e.N > maxshift {
		v.Big = true
		return 0
	}
	for s := uint64(0); s < e.N; s++ {
		x = v.push(x, x)
	}
	return x
}

// SameOps compares operations up to the order of their operands.
func SameOps(p, q addchain.Program) bool {
	if len(p) != len(q) {
		return false
	}
	ok := true
	for k := range p {
		a, b := p[k], q[k]
		ok = nd.And(ok, nd.Or(nd.And(a.I == b.I, a.J == b.J), nd.And(a.I == b.J, a.J == b.I)))
	}
	return ok
}
