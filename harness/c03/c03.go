// Package c03 compares loading of scripts with the published grammar and
// semantics.
package c03

import (
	"errors"
	"io"
	"strconv"
	"strings"

	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/ir"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/zzverif/libacc"
	"github.com/mmcloughlin/addchain/zzverif/libchain"
	"github.com/mmcloughlin/addchain/zzverif/nd"
)

// Shifts beyond this are not run.
var maxshift uint64 = 200

// check compares the implementation with the reference on any text.
func check(text string) {
	want, in := libacc.Parse(text)
	c, err := parse.String(text)
	if !in {
		nd.Reach("outside the grammar")
		nd.Assert(err != nil, "texts outside the grammar are rejected")
		_, err = acc.LoadString(text)
		nd.Assert(err != nil, "texts outside the grammar are not loaded")
		return
	}
	nd.Reach("in the grammar")
	if want.Literal {
		nd.Assert(err != nil, "literals beyond 64 bits are rejected")
		return
	}
	if err != nil {
		// An index beyond the range of an element index may be refused.
		nd.Assert(hugeIndex(want.Stmts), "texts of the grammar parse")
		return
	}
	nd.Assert(libacc.SameChain(want.Stmts, c), "the tree is the one of the grammar")
	load(text, want.Stmts)
}

func hugeIndex(s []libacc.Stmt) bool {
	huge := false
	for _, st := range s {
		huge = huge || hugeExpr(st.E)
	}
	return huge
}

func hugeExpr(e *libacc.Expr) bool {
	if e == nil {
		return false
	}
	if e.Kind == libacc.Operand {
		return e.N >= 1<<63
	}
	return hugeExpr(e.X) || hugeExpr(e.Y)
}

func load(text string, s []libacc.Stmt) {
	v := libacc.Run(s, maxshift)
	nd.Assume(!v.Big)
	p, err := acc.LoadString(text)
	if v.Bad {
		nd.Reach("meaningless script")
		nd.Assert(err != nil, "undefined names, redefinitions and operations on elements not computed are rejected")
		return
	}
	if err != nil {
		nd.Assert(v.Unclear, "meaningful scripts load")
		return
	}
	nd.Reach("loaded")
	nd.Assert(libchain.Same(p.Chain, v.Chain), "the chain is the one of the statements")
	nd.Assert(libacc.SameOps(p.Program, v.Ops), "the operations are the ones of the statements")
}

// Any: every text of n bytes.
func Any() {
	check(nd.String("text", nd.Choose("n", nd.Param("n")+1)))
}

// ASCII: every text of n ASCII characters.
func ASCII() {
	n := nd.Param("n")
	text := nd.String("text", n)
	for k := 0; k < n; k++ {
		nd.Assume(text[k] < 0x80)
	}
	check(text)
}

// Each ? is any ASCII character.
var holes = []string{
	"return 1??",
	"return 1 ?? 1",
	"return ??1",
	"return (1?1)??",
	"return 1 << ??",
	"return 1<<0?? + 1",
	"return 1 shl 0x?",
	"a = 1 + 1\n? = a + 1\nreturn a + b",
	"a = 1+1\nb ? a + 1?return a?b",
	"a=1\n\nreturn a",
	"a = 1 + 1\nreturn ?? + a",
	"a = 1 + 1\nreturn [?] + [?]",
	"return [??] + 1",
	"return 2?(?+1)",
	"return dbl ?1?",
	"return (1 add 1) ? 1 ? 1",
	"a = ((1 + 1?? + 1\nreturn a",
	"????1",
	"a= 1+1\nreturn?a",
	"return 1 +?1?",
	"return 1 ?hl?3",
	"dbla=1+1\nreturn db??",
	"return (2*1) << 2?? 1",
	"a = 1\n? = ?\nreturn ?+1",
	"a=1+1\nb=?\n?=?\nreturn a",
	"ab=1+1\na?=[?]\nreturn a?",
}

// Holes: scripts with arbitrary characters at some places.
func Holes() {
	t := []byte(holes[nd.Choose("template", len(holes))])
	for k := range t {
		if t[k] == '?' {
			c := nd.Byte("c")
			if nd.Param("narrow") == 1 {
				nd.Assume(in("1a2*+(<)[]=\n 079xAfshld_!\t\r", c))
			}
			nd.Assume(c < 0x80)
			t[k] = c
		}
	}
	check(string(t))
}

// member of the characters that the grammar tells apart.
func member(c byte) bool { return in("1a2*+(<)[]=\n ", c) }

func in(set string, c byte) bool {
	in := false
	for j := 0; j < len(set); j++ {
		in = nd.Or(in, c == set[j])
	}
	return in
}

// Alphabet: every text over the characters of the language.
func Alphabet() {
	n := nd.Param("n")
	text := nd.String("text", n)
	for k := 0; k < n; k++ {
		nd.Assume(member(text[k]))
	}
	check(text)
}

// Rendering of a tree with every spelling.
type render struct {
	variants int // remaining choices
}

func (r *render) choose(name string, n int) int {
	if r.variants <= 0 {
		return 0
	}
	r.variants--
	return nd.Choose(name, n)
}

func (r *render) sp() string { return []string{" ", "", "\t \r"}[r.choose("space", 3)] }

const digits = "0123456789abcdef"

func inBase(n uint64, base uint64) string {
	s := ""
	for {
		s = digits[n%base:n%base+1] + s
		n /= base
		if n == 0 {
			return s
		}
	}
}

func (r *render) number(n uint64) string {
	switch r.choose("base", 4) {
	case 1:
		return "0x" + inBase(n, 16)
	case 2:
		return "0" + inBase(n, 8)
	case 3:
		return "0x0" + inBase(n, 16)
	}
	return inBase(n, 10)
}

func (r *render) expr(e *libacc.Expr, prec int) string {
	s := ""
	p := 4
	switch e.Kind {
	case libacc.Operand:
		s = "[" + r.sp() + r.number(e.N) + r.sp() + "]"
		if e.N == 0 && r.choose("one", 2) == 0 {
			s = "1"
		}
	case libacc.Ident:
		s = e.Name
	case libacc.Add:
		p = 1
		op := r.sp() + "+" + r.sp()
		if r.choose("add", 2) == 1 {
			op = " add "
		}
		s = r.expr(e.X, 1) + op + r.expr(e.Y, 2)
	case libacc.Shift:
		p = 2
		op := r.sp() + "<<" + r.sp()
		if r.choose("shl", 2) == 1 {
			op = " shl "
		}
		s = r.expr(e.X, 4) + op + r.number(e.N)
	case libacc.Double:
		p = 2
		op := "2" + r.sp() + "*" + r.sp()
		if r.choose("dbl", 2) == 1 {
			op = "dbl "
		}
		s = op + r.expr(e.X, 4)
	}
	if p < prec || r.choose("parens", 2) == 1 {
		s = "(" + r.sp() + s + r.sp() + ")"
	}
	return s
}

// tree makes an expression with at most n operators.
func tree(n int, names []string, elems int) *libacc.Expr {
	k := 0
	if n > 0 {
		k = nd.Choose("node", 4)
	}
	switch k {
	case 1:
		left := nd.Choose("left", n)
		x := tree(left, names, elems)
		return &libacc.Expr{Kind: libacc.Add, X: x, Y: tree(n-1-left, names, elems)}
	case 2:
		s := []uint64{2, 1, 9}[nd.Choose("s", nd.Param("shifts"))]
		return &libacc.Expr{Kind: libacc.Shift, X: tree(n-1, names, elems), N: s}
	case 3:
		return &libacc.Expr{Kind: libacc.Double, X: tree(n-1, names, elems)}
	}
	l := nd.Choose("leaf", 1+len(names)+elems)
	switch {
	case l == 0:
		return &libacc.Expr{Kind: libacc.Operand}
	case l <= len(names):
		return &libacc.Expr{Kind: libacc.Ident, Name: names[l-1]}
	}
	return &libacc.Expr{Kind: libacc.Operand, N: uint64(l - len(names))}
}

// Rendered: scripts made from trees, in every spelling.
func Rendered() {
	var s []libacc.Stmt
	var names []string
	ops := nd.Param("ops")
	stmts := nd.Param("stmts")
	for k := 0; k < stmts; k++ {
		name := []string{"a", "return", "x_1", "_Z"}[k]
		if k == stmts-1 {
			name = ""
		}
		s = append(s, libacc.Stmt{Name: name, E: tree(ops, names, nd.Param("elems"))})
		names = append(names, name)
	}
	r := &render{}
	// The choices of spelling are open in one window of the text.
	window := nd.Param("window")
	skip := nd.Choose("skip", nd.Param("skips"))
	r.variants = 0
	text := ""
	for k, st := range s {
		if k == skip%len(s) {
			r.variants = window
		} else {
			r.variants = 0
		}
		lead := r.sp()
		switch {
		case st.Name != "":
			text += lead + st.Name + r.sp() + "=" + r.sp()
		case r.choose("return", 2) == 0:
			text += lead + "return "
		}
		text += r.expr(st.E, 0) + r.sp()
		if st.Name != "" || r.choose("newline", 2) == 0 {
			text += "\n"
		}
	}
	c, err := parse.String(text)
	nd.Assert(err == nil, "well-formed scripts parse")
	nd.Assert(libacc.SameChain(s, c), "well-formed scripts parse to their tree")
	load(text, s)
}

// Long: long scripts.
func Long() { check(libacc.Long()) }

// Shifts: long shifts with arbitrary digits.
func Shifts() {
	maxshift = 1100
	text := []string{
		"return 1 << 25#",
		"return 1 << #0#",
		"a = 1 shl 6#\nb = a shl 12#\nreturn b + [6#]",
		"return ((1 + 1) << 51#) + [51#]",
		"return 1 << 0x1f#",
		"return 2*(1 << 102#)",
		"a = 1 << 0377\nreturn (a << #) + [25#]",
		"return 1 << 65#\n",
	}[nd.Choose("shift", 8)]
	b := []byte(text)
	for k, c := range b {
		if c == '#' {
			b[k] = byte(nd.Int("digit", '0', '9'))
		}
	}
	check(string(b))
}

// Rejected: names and indices that may not be used.
func Rejected() {
	n := nd.Param("stmts")
	var s []libacc.Stmt
	names := []string{"a", "aa"}
	r := &render{}
	text := ""
	for k := 0; k < n; k++ {
		name := names[nd.Choose("name", len(names))]
		if k == n-1 {
			name = ""
		}
		e := tree(1, names, 3)
		s = append(s, libacc.Stmt{Name: name, E: e})
		if name != "" {
			text += name + " = "
		} else {
			text += "return "
		}
		text += r.expr(e, 0) + "\n"
	}
	load(text, s)
}

// slow delivers a text a few bytes at a time.
type slow struct {
	s    string
	step int
	fail bool
}

var errSlow = errors.New("the reader fails")

func (r *slow) Read(b []byte) (int, error) {
	if len(r.s) == 0 {
		if r.fail {
			return 0, errSlow
		}
		return 0, io.EOF
	}
	n := r.step
	if n > len(r.s) {
		n = len(r.s)
	}
	n = copy(b, r.s[:n])
	r.s = r.s[n:]
	return n, nil
}

// Sources: texts from files and from readers.
func Sources() {
	text := ""
	if nd.Choose("long", 2) == 0 {
		text = "a = 1 + 1\nb ? a <<?1\nreturn b + ?"
	} else {
		// beyond the usual sizes of a buffer
		text = "_10 = 2*1\n"
		last := "_10"
		for i := 0; len(text) < nd.Param("size"); i++ {
			name := "x" + strconv.Itoa(i)
			text += name + "\t=   " + last + "   +   1\n"
			last = name
		}
		text += "return 2*?" + last[1:] + "?"
	}
	t := []byte(text)
	for k := range t {
		if t[k] == '?' {
			t[k] = nd.Byte("c")
			nd.Assume(in("1a=<+x\n", t[k]))
		}
	}
	text = string(t)
	want, in := libacc.Parse(text)
	var c *ast.Chain
	var p *ir.Program
	var err, perr error
	switch nd.Choose("from", 4) {
	case 0:
		nd.WriteFile("in.acc", []byte(text))
		c, perr = parse.File(nd.Path("in.acc"))
		p, err = acc.LoadFile(nd.Path("in.acc"))
	case 1:
		c, perr = parse.Reader("in", &slow{s: text, step: 1 + 6*nd.Choose("step", 2)})
		p, err = acc.LoadReader("in", &slow{s: text, step: 1})
	case 2:
		c, perr = parse.Reader("", strings.NewReader(text))
		p, err = acc.LoadReader("", strings.NewReader(text))
	case 3:
		_, perr = parse.Reader("in", &slow{s: text, step: 3, fail: true})
		nd.Assert(perr != nil, "a source that cannot be read to its end is refused")
		_, err = acc.LoadReader("in", &slow{s: text, step: 3, fail: true})
		nd.Assert(err != nil, "a source that cannot be read to its end is not loaded")
		_, err = acc.LoadFile(nd.Path("missing.acc"))
		nd.Assert(err != nil, "a missing file is not loaded")
		return
	}
	if !in {
		nd.Assert(perr != nil && err != nil, "texts outside the grammar are rejected")
		return
	}
	nd.Assert(perr == nil, "texts of the grammar parse")
	nd.Assert(libacc.SameChain(want.Stmts, c), "the tree is the one of the grammar")
	v := libacc.Run(want.Stmts, maxshift)
	nd.Assume(!v.Big)
	if v.Bad {
		nd.Assert(err != nil, "meaningless scripts are rejected")
		return
	}
	nd.Assert(err == nil || v.Unclear, "meaningful scripts load")
	if err == nil {
		nd.Reach("loaded")
		nd.Assert(libchain.Same(p.Chain, v.Chain), "the chain is the one of the statements")
		nd.Assert(libacc.SameOps(p.Program, v.Ops), "the operations are the ones of the statements")
	}
}
