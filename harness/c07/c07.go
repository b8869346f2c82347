// Package c07 checks that printing a syntax tree and parsing it back is the
// identity.
package c07

import (
	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/acc/printer"
	"github.com/mmcloughlin/addchain/zzverif/libacc"
	"github.com/mmcloughlin/addchain/zzverif/libchain"
	"github.com/mmcloughlin/addchain/zzverif/nd"
)

func tree(c *ast.Chain) {
	text, err := printer.String(c)
	nd.Assert(err == nil, "the tree prints")
	back, err := parse.String(text)
	nd.Assert(err == nil, "the printed text parses")
	nd.Assert(libacc.SameTree(c, back), "the printed text parses to the tree")
	again, err := printer.String(back)
	nd.Assert(err == nil, "the tree prints again")
	nd.Assert(nd.EqString(text, again), "formatting is idempotent")
}

func text(s string) {
	c, err := parse.String(s)
	if err != nil {
		return
	}
	nd.Reach("parses")
	tree(c)
	if nd.Param("load") == 1 {
		small := true
		for _, st := range c.Statements {
			small = small && bounded(st.Expr)
		}
		nd.Assume(small)
		p, err := acc.LoadString(s)
		f, perr := printer.String(c)
		nd.Assert(perr == nil, "the tree prints")
		q, ferr := acc.LoadString(f)
		nd.Assert((err == nil) == (ferr == nil), "formatting keeps a script loadable")
		if err == nil {
			nd.Assert(libchain.Same(p.Chain, q.Chain), "formatting keeps the chain")
			nd.Assert(libacc.SameOps(p.Program, q.Program), "formatting keeps the operations")
		}
	}
}

func bounded(e ast.Expr) bool {
	switch e := e.(type) {
	case ast.Add:
		return bounded(e.X) && bounded(e.Y)
	case ast.Double:
		return bounded(e.X)
	case ast.Shift:
		return e.S < 200 && bounded(e.X)
	}
	return true
}

// ASCII: every text of n ASCII characters.
func ASCII() {
	n := nd.Param("n")
	s := nd.String("text", n)
	for k := 0; k < n; k++ {
		nd.Assume(s[k] < 0x80)
	}
	text(s)
}

// Alphabet: every text over the characters of the language.
func Alphabet() {
	n := nd.Param("n")
	s := nd.String("text", n)
	const set = "1a2*+(<)[]=\n "
	for k := 0; k < n; k++ {
		in := false
		for j := 0; j < len(set); j++ {
			in = nd.Or(in, s[k] == set[j])
		}
		nd.Assume(in)
	}
	text(s)
}

// Long: long scripts.
func Long() { text(libacc.Long()) }

// Each ? is any ASCII character.
var holes = []string{
	"return (2?1)??3",
	"return (1 + 1) ?? (1 + 1)",
	"return 1 + (1?1?1)",
	"return 2*(2?(1 + 1))",
	"return (1 << 3)?? 2",
	"return [?]??1",
	"return [922337203685477580?]",
	"return [1844674407370955161?]+1",
	"return [0?777777777777777777777]",
	"return 1 << 1844674407370955161?",
	"a = 1 + 1\n?b = a\nreturn b?? a",
	"return?? = 1\nreturn 1",
	"?? = 1+1\nreturn ??",
	"a=db?\nreturn 1",
	"return 1 a?? 1",
	"return ((1 + 1) << 2) + (1 ?? 1)",
	"a = 1+1\n??a",
	"return 2*(1??)",
}

// Holes: scripts with arbitrary characters at some places.
func Holes() {
	t := []byte(holes[nd.Choose("template", len(holes))])
	for k := range t {
		if t[k] == '?' {
			c := nd.Byte("c")
			nd.Assume(c < 0x80)
			t[k] = c
		}
	}
	text(string(t))
}

var names = []ast.Identifier{"a", "return", "add", "shl", "dbl", "dblx", "_", "x1", "dbl1", "returna", "shla", "A_9"}

func leaf() ast.Expr {
	n := nd.Param("names")
	k := nd.Choose("leaf", 2+n)
	switch k {
	case 0:
		return ast.Operand(0)
	case 1:
		return ast.Operand(nd.Conc(nd.Int("index", 12, 12)))
	}
	return names[k-2]
}

func expr(n int, leaf func() ast.Expr) ast.Expr {
	if n == 0 {
		return leaf()
	}
	switch nd.Choose("node", 3) {
	case 0:
		left := nd.Choose("left", n)
		x := expr(left, leaf)
		return ast.Add{X: x, Y: expr(n-1-left, leaf)}
	case 1:
		return ast.Shift{X: expr(n-1, leaf), S: 3}
	}
	return ast.Double{X: expr(n-1, leaf)}
}

// Trees: every expression tree with the given number of operators, as the
// result or in an assignment before it.
func Trees() {
	n := nd.Choose("ops", nd.Param("ops")+1)
	e := expr(n, leaf)
	c := &ast.Chain{}
	if nd.Choose("position", 2) == 1 {
		c.Statements = append(c.Statements, ast.Statement{Name: "a", Expr: e})
		e = ast.Operand(0)
	}
	c.Statements = append(c.Statements, ast.Statement{Expr: e})
	tree(c)
}

// Shapes: deeper trees over one kind of leaf.
func Shapes() {
	c := &ast.Chain{}
	k := 0
	e := expr(nd.Param("ops"), func() ast.Expr {
		k++
		if k%2 == 0 {
			return ast.Identifier("b")
		}
		return ast.Operand(0)
	})
	c.Statements = append(c.Statements, ast.Statement{Expr: e})
	tree(c)
}

func ident(name string, n int) ast.Identifier {
	s := nd.String(name, n)
	for k := 0; k < n; k++ {
		c := s[k]
		ok := nd.Or(nd.And(c >= 'a', c <= 'z'), nd.And(c >= 'A', c <= 'Z'), c == '_')
		if k > 0 {
			ok = nd.Or(ok, nd.And(c >= '0', c <= '9'))
		}
		nd.Assume(ok)
	}
	return ast.Identifier(s)
}

// Names: any identifier, in every position.
func Names() {
	n := 1 + nd.Choose("len", nd.Param("len"))
	x := ident("x", n)
	var e ast.Expr
	switch nd.Choose("shape", 7) {
	case 0:
		e = x
	case 1:
		e = ast.Add{X: x, Y: ast.Identifier("dbl")}
	case 2:
		e = ast.Add{X: ast.Operand(0), Y: x}
	case 3:
		e = ast.Shift{X: x, S: 1}
	case 4:
		e = ast.Double{X: x}
	case 5:
		e = ast.Add{X: ast.Double{X: x}, Y: ast.Shift{X: ast.Add{X: x, Y: ast.Operand(0)}, S: 2}}
	case 6:
		e = ast.Double{X: ast.Double{X: x}}
	}
	c := &ast.Chain{}
	if nd.Choose("named", 2) == 1 {
		c.Statements = append(c.Statements, ast.Statement{Name: x, Expr: e})
		e = x
	}
	c.Statements = append(c.Statements, ast.Statement{Expr: e})
	tree(c)
}

// Numbers: any index and any shift.
func Numbers() {
	i := nd.Int("index", 0, 1<<63-1)
	s := nd.Uint64("shift")
	// The printer writes digits: one path for each number of digits.
	lim := uint64(1)
	lo := uint64(nd.Choose("digits", nd.Param("digits")))
	for k := uint64(0); k < lo; k++ {
		lim *= 10
	}
	if nd.Choose("which", 2) == 0 {
		nd.Assume(uint64(i) >= lim && uint64(i)-lim < uint64(nd.Param("spread")))
		s = 7
	} else {
		nd.Assume(s >= lim && s-lim < uint64(nd.Param("spread")))
		i = 3
	}
	i = nd.Conc(i)
	s = uint64(nd.Conc(int(s)))
	e := ast.Add{X: ast.Operand(i), Y: ast.Shift{X: ast.Operand(i), S: uint(s)}}
	tree(&ast.Chain{Statements: []ast.Statement{{Expr: e}}})
}

// Layout: many statements of different widths.
func Layout() {
	c := &ast.Chain{}
	n := nd.Param("stmts")
	wide := []ast.Identifier{"a", "bbbb", "ccccccccccccccccc", "return", "x"}
	for k := 0; k < n-1; k++ {
		var e ast.Expr = ast.Operand(k)
		switch nd.Choose("form", 3) {
		case 1:
			e = ast.Shift{X: ast.Add{X: ast.Operand(0), Y: e}, S: uint(k)}
		case 2:
			e = wide[nd.Choose("name", len(wide))]
		}
		c.Statements = append(c.Statements, ast.Statement{Name: wide[nd.Choose("def", len(wide))], Expr: e})
	}
	c.Statements = append(c.Statements, ast.Statement{Expr: ast.Double{X: ast.Identifier("a")}})
	tree(c)
}
