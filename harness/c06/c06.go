// Package c06 reads generated output literally and compares it with the script.
package c06

import (
	"bytes"
	"math/big"
	"strings"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/acc/pass"
	"github.com/mmcloughlin/addchain/internal/gen"
	"github.com/mmcloughlin/addchain/zzverif/libacc"
	"github.com/mmcloughlin/addchain/zzverif/libchain"
	"github.com/mmcloughlin/addchain/zzverif/libscript"
	"github.com/mmcloughlin/addchain/zzverif/nd"
)

const (
	input  = "x"
	output = "z"
)

// number reads a decimal or 0x number.
func number(s string) (*big.Int, bool) {
	base := int64(10)
	if strings.HasPrefix(s, "0x") {
		s, base = s[2:], 16
	}
	if s == "" {
		return nil, false
	}
	x := new(big.Int)
	for k := 0; k < len(s); k++ {
		c := s[k]
		d := int64(99)
		switch {
		case c >= '0' && c <= '9':
			d = int64(c - '0')
		case c >= 'a' && c <= 'f':
			d = int64(c-'a') + 10
		}
		if d >= base {
			return nil, false
		}
		x.Mul(x, big.NewInt(base))
		x.Add(x, big.NewInt(d))
	}
	return x, true
}

// numbers lists the numbers of a line.
func numbers(line string) []*big.Int {
	var r []*big.Int
	for _, f := range strings.FieldsFunc(line, func(c rune) bool { return strings.ContainsRune(" \t[]:+,", c) }) {
		x, ok := number(f)
		nd.Assert(ok, "numbers are listed")
		r = append(r, x)
	}
	return r
}

func lines(s string) []string {
	var r []string
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			r = append(r, l)
		}
	}
	return r
}

// machine executes a listing.
type machine struct {
	reg   map[string]*big.Int
	temp  map[string]bool
	alias bool
}

func (m *machine) at(name string) string {
	if m.alias && name == output {
		return input
	}
	return name
}

func (m *machine) read(name string) *big.Int {
	nd.Assert(m.temp[name] || name == input || name == output, "only declared registers are read")
	v, ok := m.reg[m.at(name)]
	nd.Assert(ok, "registers are written before they are read")
	return v
}

func (m *machine) write(name string, v *big.Int) {
	nd.Assert(m.temp[name] || name == output, "only temporaries and the output are written")
	m.reg[m.at(name)] = v
}

// execute reads the listing and returns the output.
func execute(text string, one *big.Int, alias bool) *big.Int {
	m := &machine{reg: map[string]*big.Int{input: one}, temp: map[string]bool{}, alias: alias}
	ls := lines(text)
	nd.Assert(len(ls) > 0, "the listing has lines")
	for k, l := range ls {
		f := strings.Fields(l)
		if f[0] == "tmp" {
			nd.Assert(k == 0, "temporaries are declared first")
			for _, t := range f[1:] {
				nd.Assert(!m.temp[t] && t != input && t != output, "temporaries are distinct")
				m.temp[t] = true
			}
			continue
		}
		switch f[0] {
		case "add":
			nd.Assert(len(f) == 4, "add takes three registers")
			x := m.read(f[2])
			y := m.read(f[3])
			m.write(f[1], new(big.Int).Add(x, y))
		case "double":
			nd.Assert(len(f) == 3, "double takes two registers")
			x := m.read(f[2])
			m.write(f[1], new(big.Int).Add(x, x))
		case "shift":
			nd.Assert(len(f) == 4, "shift takes two registers and an amount")
			x := m.read(f[2])
			s, ok := number(f[3])
			nd.Assert(ok && s.BitLen() < 20, "the shift amount is a number")
			m.write(f[1], new(big.Int).Lsh(x, uint(s.Uint64())))
		default:
			nd.Fail("instructions are add, double or shift")
		}
	}
	v, ok := m.reg[m.at(output)]
	nd.Assert(ok, "the output is written")
	return v
}

func generate(typ string, d *gen.Data) string {
	t, err := gen.BuiltinTemplate(typ)
	nd.Assert(err == nil, "the template is known")
	var b bytes.Buffer
	nd.Assert(gen.Generate(&b, t, d) == nil, "prepared data generates")
	return b.String()
}

// check compares the outputs for a script with its meaning.
func check(s *ast.Chain) {
	_, ops, bad := libscript.Elements(s)
	d, err := gen.PrepareData(gen.Config{Allocator: pass.Allocator{Input: input, Output: output, Format: "t%d"}}, s)
	if err != nil {
		nd.Reach("refused")
		return
	}
	nd.Reach("accepted")
	nd.Assert(!bad, "meaningless scripts are refused")
	c := libscript.Values(ops)
	compare(generate("listing", d), generate("chain", d), generate("ops", d), generate("script", d), c, ops)
}

func compare(listing, chain, opslist, script string, c []*big.Int, ops addchain.Program) {
	one := big.NewInt(1)
	end := c[len(c)-1]
	nd.Assert(nd.EqBig(execute(listing, one, false), end), "the listing computes the value")
	nd.Assert(nd.EqBig(execute(listing, one, true), end), "the listing computes the value when the output is the input")

	ls := lines(chain)
	nd.Assert(len(ls) == len(c), "the chain output has the length of the chain")
	for k, l := range ls {
		n := numbers(l)
		nd.Assert(len(n) == 2, "the chain output numbers its values")
		nd.Assert(nd.EqBig(n[0], big.NewInt(int64(k+1))), "the chain output is numbered from 1")
		nd.Assert(nd.EqBig(n[1], c[k]), "the chain output lists the chain")
	}

	ls = lines(opslist)
	nd.Assert(len(ls) == len(ops), "the ops output has the length of the operations")
	for k, l := range ls {
		n := numbers(l)
		nd.Assert(len(n) == 4, "the ops output lists number, operands and value")
		i, j := big.NewInt(int64(ops[k].I)), big.NewInt(int64(ops[k].J))
		same := nd.And(nd.EqBig(n[1], i), nd.EqBig(n[2], j))
		swap := nd.And(nd.EqBig(n[1], j), nd.EqBig(n[2], i))
		nd.Assert(nd.Or(same, swap), "the ops output lists the operations")
		nd.Assert(nd.EqBig(n[3], c[k+1]), "the ops output lists the values")
	}

	p, err := acc.LoadString(script)
	nd.Assert(err == nil, "the script output loads")
	nd.Assert(libchain.Same(p.Chain, c), "the script output loads to the chain")
}

func operand(last int) ast.Expr { return ast.Operand(nd.Int("x", 0, last)) }

// Flat: n statements of one operation each on arbitrary elements, including
// ones that are not computed yet or that only a shift passes through.
func Flat() {
	n := 1 + nd.Choose("n", nd.Param("n"))
	s := &ast.Chain{}
	last := 0
	for k := 0; k < n; k++ {
		var e ast.Expr
		hi := last + nd.Param("beyond")
		switch nd.Choose("kind", 3) {
		case 0:
			e = ast.Add{X: operand(hi), Y: operand(hi)}
			last++
		case 1:
			e = ast.Double{X: operand(hi)}
			last++
		case 2:
			b := nd.Conc(nd.Int("s", 1, nd.Param("shift")))
			e = ast.Shift{X: operand(hi), S: uint(b)}
			last += b
		}
		name := ast.Identifier("abcdefgh"[k : k+1])
		if k == n-1 {
			name = ""
		}
		s.Statements = append(s.Statements, ast.Statement{Name: name, Expr: e})
	}
	check(s)
}

// tree is an expression with n operators over arbitrary elements and names.
func tree(n, last int, names []ast.Identifier) ast.Expr {
	if n == 0 {
		k := nd.Choose("leaf", 1+len(names))
		if k > 0 {
			return names[k-1]
		}
		return operand(last)
	}
	switch nd.Choose("node", 3) {
	case 0:
		l := nd.Choose("left", n)
		x := tree(l, last, names)
		return ast.Add{X: x, Y: tree(n-1-l, last, names)}
	case 1:
		return ast.Double{X: tree(n-1, last, names)}
	}
	return ast.Shift{X: tree(n-1, last, names), S: 2}
}

// Nested: scripts of two statements of nested expressions.
func Nested() {
	a := ast.Statement{Name: "a", Expr: tree(nd.Param("first"), nd.Param("last"), nil)}
	r := ast.Statement{Expr: tree(nd.Param("second"), nd.Param("last"), []ast.Identifier{"a"})}
	check(&ast.Chain{Statements: []ast.Statement{a, r}})
}

// Tall: scripts with many live values.
func Tall() {
	s := &ast.Chain{}
	n := nd.Param("live")
	add := func(x, y int) {
		s.Statements = append(s.Statements, ast.Statement{Name: ast.Identifier("n" + itoa(len(s.Statements))), Expr: ast.Add{X: ast.Operand(x), Y: ast.Operand(y)}})
	}
	for k := 0; k < n; k++ {
		add(0, k)
	}
	m := n
	order := nd.Choose("order", 3)
	for k := 1; k <= n; k++ {
		x := k
		switch order {
		case 1:
			x = n + 1 - k
		case 2:
			x = 2 * k % (n + 1)
		}
		add(x, m)
		m++
	}
	s.Statements = append(s.Statements, ast.Statement{Expr: ast.Add{X: operand(m), Y: ast.Operand(m)}})
	check(s)
}

func itoa(n int) string {
	if n < 10 {
		return "0123456789"[n : n+1]
	}
	return itoa(n/10) + itoa(n%10)
}

// command runs the command.
func command(typ, script string) (string, int) {
	out, _, code := nd.RunCLI([]string{"gen", "-type", typ}, []byte(script))
	return string(out), code
}

// Command: the outputs of the command.
func Command() {
	script := libacc.Long()
	if nd.Choose("short", 2) == 1 {
		script = "a = 1 + 1\nb = a << 3\nreturn b + [" + "012345"[nd.Choose("k", 6):][:1] + "]\n"
	}
	s, err := parse.String(script)
	listing, code := command("listing", script)
	nd.Assert(code < 100, "refusing is not crashing")
	if code != 0 {
		nd.Reach("refused")
		return
	}
	nd.Reach("accepted")
	nd.Assert(err == nil, "texts that do not parse are refused")
	_, ops, bad := libscript.Elements(s)
	nd.Assert(!bad, "meaningless scripts are refused")
	chain, c1 := command("chain", script)
	opslist, c2 := command("ops", script)
	back, c3 := command("script", script)
	nd.Assert(c1 == 0 && c2 == 0 && c3 == 0, "every type of output is generated")
	compare(listing, chain, opslist, back, libscript.Values(ops), ops)

	// from a file, to a file, over a longer one
	nd.WriteFile("in.acc", []byte(script))
	nd.WriteFile("out.txt", []byte(strings.Repeat("old text\n", 1+60*nd.Choose("old", 2))))
	out, _, code := nd.RunCLI([]string{"gen", "-out", "out.txt", "-type", "listing", "in.acc"}, nil)
	b, ok := nd.ReadFile("out.txt")
	nd.Assert(code == 0 && ok && len(out) == 0, "the output goes to the file")
	nd.Assert(nd.EqString(string(b), listing), "the file is the listing")
	_, _, code = nd.RunCLI([]string{"gen", "missing.acc"}, []byte(script))
	nd.Assert(code > 0 && code < 100, "a missing file is an error")
}

// Long: long scripts.
func Long() {
	s, err := parse.String(libacc.Long())
	if err == nil {
		check(s)
	}
}

// Words: scripts built for programs around the sizes where bytes and machine
// words end.
func Words() {
	r, err := acc.Decompile(libscript.Tall(nd.Param("shapes"), nd.Param("scale")))
	nd.Assert(err == nil, "decompiles")
	s, err := acc.Build(r)
	nd.Assert(err == nil, "a script is built")
	check(s)
}
