// Package c15 checks that every input ends in a result or a diagnostic.
package c15

import (
	"bytes"
	"strings"

	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/acc/pass"
	"github.com/mmcloughlin/addchain/acc/printer"
	"github.com/mmcloughlin/addchain/internal/calc"
	"github.com/mmcloughlin/addchain/internal/gen"
	"github.com/mmcloughlin/addchain/zzverif/libacc"
	"github.com/mmcloughlin/addchain/zzverif/nd"
)

func bounded(e ast.Expr) bool {
	switch e := e.(type) {
	case ast.Add:
		return bounded(e.X) && bounded(e.Y)
	case ast.Double:
		return bounded(e.X)
	case ast.Shift:
		return e.S < 200 && bounded(e.X)
	}
	return true
}

// small reports that all shifts of the text are small.
func small(c *ast.Chain) bool {
	for _, s := range c.Statements {
		if !bounded(s.Expr) {
			return false
		}
	}
	return true
}

func generate(c *ast.Chain) {
	cfg := gen.Config{Allocator: pass.Allocator{Input: "x", Output: "z", Format: "t%d"}}
	d, err := gen.PrepareData(cfg, c)
	if err != nil {
		nd.Reach("not generated")
		return
	}
	nd.Reach("generated")
	for _, t := range gen.BuiltinTemplateNames() {
		s, err := gen.BuiltinTemplate(t)
		nd.Assert(err == nil, "builtin templates exist")
		var buf bytes.Buffer
		nd.Assert(gen.Generate(&buf, s, d) == nil, "builtin templates apply")
	}
}

// library calls the entry points that take source text.
func library(s string) {
	c, err := parse.String(s)
	if err != nil {
		nd.Assert(c == nil && err.Error() != "", "an error and no tree")
		nd.Reach("syntax error")
		return
	}
	nd.Assert(c != nil && len(c.Statements) > 0, "a tree")
	_, err = parse.Reader("name", strings.NewReader(s))
	nd.Assert(err == nil, "the reader agrees")
	if _, err := printer.String(c); err != nil {
		nd.Reach("not printed")
	}
	if !small(c) {
		return
	}
	p, err := acc.LoadString(s)
	if err == nil {
		nd.Assert(p != nil && len(p.Chain) > 0, "a program with a chain")
		nd.Reach("loaded")
	} else {
		nd.Reach("not loaded")
	}
	p, err = acc.Translate(c)
	if err == nil {
		if b, err := acc.Build(p); err == nil {
			if _, err := printer.String(b); err != nil {
				nd.Reach("built, not printed")
			}
			nd.Reach("built")
		} else {
			nd.Reach("not built")
		}
		if p, err := acc.Translate(c); err == nil {
			if err := pass.Eval(p); err == nil {
				if q, err := acc.Decompile(p.Program); err == nil {
					_, _ = acc.Build(q)
				}
			}
		}
	}
	generate(c)
}

var commands = [][]string{{"eval"}, {"fmt"}, {"fmt", "-b"}, {"gen"}, {"gen", "-type", "ops"}, {"gen", "-type=listing"}}

// ended checks how a run of the command ended.
func ended(out, log []byte, code int, files ...string) {
	nd.Observe("code", code)
	nd.Assert(code != 100, "no crash")
	nd.Assert(code != 101, "no hang")
	nd.Assert(code >= 0 && code <= 2, "a conventional exit status")
	if code == 0 {
		n := len(out) + len(log)
		for _, f := range files {
			b, _ := nd.ReadFile(f)
			n += len(b)
		}
		nd.Assert(n > 0, "a result")
		nd.Reach("success")
	} else {
		nd.Assert(len(log) > 0, "a diagnostic")
		nd.Reach("failure")
	}
}

// command runs the commands that take scripts.
func command(s string) {
	c, err := parse.String(s)
	if err == nil && !small(c) {
		return
	}
	k := nd.Choose("command", len(commands))
	out, log, code := nd.RunCLI(commands[k], []byte(s))
	ended(out, log, code)
	if err != nil {
		nd.Assert(code != 0, "syntax errors are failures")
	}
}

func run(s string) {
	if nd.Param("cli") == 1 {
		command(s)
	} else {
		library(s)
	}
}

// Bytes: every text of n bytes.
func Bytes() { run(nd.String("text", nd.Param("n"))) }

// Alphabet: every text over the characters of the language.
func Alphabet() {
	n := nd.Param("n")
	s := nd.String("text", n)
	const set = "1a2*+(<)[]=\n "
	for k := 0; k < n; k++ {
		in := false
		for j := 0; j < len(set); j++ {
			in = nd.Or(in, s[k] == set[j])
		}
		nd.Assume(in)
	}
	run(s)
}

// Each ? is any byte.
var holes = []string{
	"",
	"?",
	"return ?",
	"?\xe2?\x80?",
	"a = 1 + 1\nreturn a?",
	"a = ?\na",
	"a = ?\nb = a\nc = a\nreturn b + c",
	"a = 1\nb = ?\nreturn a + b",
	"a = b = ?\nreturn a",
	"return a?",
	"a = a + 1?\nreturn a",
	"return 1 << ?",
	"return 1 << ?? << 2",
	"return [?]",
	"return [?] + [1]",
	"return [0x?]",
	"a = 1 + 1\nreturn [?] + [?]",
	"a = [1]\nb = 1 + 1\nreturn a + ?",
	"return (((((((((((((((((((1?))))))))))))))))))) + 1",
	"return 2 * (2 * (2 * ?))",
	"a = 1 + 1\na = a + ?\nreturn a",
	"a = 1 << 3\nb = a << ?\nc = 1\nreturn c",
	"a = 1 + 1\n1?",
	"a = 1 + 1\nreturn 1?\n",
	"x = 1 + 1\nz = x << ?\nt0 = z + x\nreturn t0",
	"_ = 1 + 1\n_1 = _ + _\nreturn _1?",
	"_10 = 2*1\n_1000 = _10 << ?\ni5 = _10 + 1\nreturn i5 + _1000",
	"return [1] +\r\n?",
	"# ?\nreturn 1",
	"return 1 + 1\n\n?",
	"a = ((1 + 1) << ?) + 1\nreturn dbl a shl 2 add 1",
	"return 18446744073709551615 + ?",
	"return [18446744073709551615]?",
	"return 1 << -?",
	"a=1\na\n=?",
	"return =?",
	"a = return ?",
	"add = 1 + 1\nreturn add ad? add",
	"\x00?",
	"\xef\xbb\xbfreturn ?",
}

// Holes: scripts with arbitrary bytes at some places.
func Holes() {
	t := []byte(holes[nd.Choose("template", len(holes))])
	for k := range t {
		if t[k] == '?' {
			t[k] = nd.Byte("c")
		}
	}
	run(string(t))
}

// Long: long scripts.
func Long() { run(libacc.Long()) }

// Repeated: texts of many repetitions around an arbitrary byte.
func Repeated() {
	parts := [][3]string{
		{"", "(", ""},
		{"return 1", " + 1", ""},
		{"return ", "2*", "1"},
		{"return ", "(", "1"},
		{"return 1", " << 1", ""},
		{"return ", "[", "0]"},
		{"a = 1 + 1\n", "a = a + a\n", "return a"},
		{"", "\n", "1"},
		{"", " ", "1"},
		{"return 1", "0", ""},
		{"return ", "a", ""},
	}
	p := parts[nd.Choose("part", len(parts))]
	n := []int{1, 7, nd.Param("reps")}[nd.Choose("reps", 3)]
	s := p[0] + strings.Repeat(p[1], n) + string([]byte{nd.Byte("c")}) + p[2]
	run(s)
}

// Expressions: calc.Eval on every text.
func Expressions() {
	s := nd.String("expr", nd.Param("n"))
	if _, err := calc.Eval(s); err != nil {
		nd.Assert(err.Error() != "", "an error message")
		nd.Reach("refused")
	} else {
		nd.Reach("evaluated")
	}
}

// Each ? is any byte.
var exprs = []string{"?", "2^?", "7/?", "??", "-?", "0x?", "1?0", "0?1", "2-?", "1?2?3", "?-9", "0b1?", " ? ", "3 ?", "?0-?", "2*?-??", "7/?*?", "?(1)", "1/(1-1)?", "1/0?", "1?/0", "5-5/?", "", "- 1", "3^?-9"}

// Search: the search command on expressions.
func Search() {
	e := []byte(exprs[nd.Choose("expr", len(exprs))])
	for i := range e {
		if e[i] == '?' {
			e[i] = nd.Byte("c")
			nd.Assume(e[i] != 0) // (arguments hold no NUL)
		}
	}
	s := string(e)
	args := []string{"search", s}
	if s == "" || s[0] == '-' {
		args = []string{"search", "--", s}
	}
	n, err := calc.Eval(s)
	if err == nil {
		nd.Assume(n.BitLen() <= nd.Param("bits"))
		if n.Sign() > 0 {
			s = nd.ConcString(s)
			args[len(args)-1] = s
		}
	}
	out, log, code := nd.RunCLI(args, nil)
	ended(out, log, code)
	if err != nil || n.Sign() <= 0 {
		nd.Assert(code != 0, "no chain for such a target")
	} else {
		nd.Assert(code == 0, "a chain for a positive target")
	}
}

var settings = []string{
	"-p=?", "-p=-?", "-p=?0", "-p=999999999999999999?", "-add=?", "-double=?", "-add=-?", "-add=1e?00", "-double=1e-3?0", "-add=na?", "-double=in?", "-v=?", "-p=0x?", "-?=1", "-p", "-double", "-help",
}

// Settings: the search command under arbitrary settings.
func Settings() {
	f := []byte(settings[nd.Choose("flag", len(settings))])
	for i := range f {
		if f[i] == '?' {
			f[i] = nd.Byte("c")
			nd.Assume(f[i] != 0)
		}
	}
	e := []string{"3", "1", "0", "1/0"}[nd.Choose("target", 4)]
	out, log, code := nd.RunCLI([]string{"search", string(f), e}, nil)
	ended(out, log, code)
	if e == "0" || e == "1/0" {
		// (a flag without a value may take the target instead)
		nd.Assert(code != 0 || string(f) == "-help", "no chain for such a target")
	}
}

var lines = [][]string{
	{},
	{"?"},
	{"-?"},
	{"help"},
	{"help", "?"},
	{"help", "search"},
	{"flags"},
	{"commands"},
	{"flags", "search"},
	{"search"},
	{"search", ""},
	{"search", "5", "?"},
	{"search", "-v", "-p=1", "-v", "2"},
	{"cite"},
	{"version"},
	{"eval", "?"},
	{"eval", "missing"},
	{"eval", "script"},
	{"eval", "script", "other"},
	{"eval", "-?", "script"},
	{"fmt", "missing"},
	{"fmt", "-b", "script"},
	{"fmt", "-b=?", "script"},
	{"gen", "missing"},
	{"gen", "-type", "?", "script"},
	{"gen", "-type=", "script"},
	{"gen", "-tmpl", "missing", "script"},
	{"gen", "-tmpl", "bad", "script"},
	{"gen", "-tmpl", "wrong", "script"},
	{"gen", "-tmpl", "script", "script"},
	{"gen", "-out", "result", "script"},
	{"gen", "-type", "listing", "-out", "result", "empty"},
}

// Lines: command lines of all kinds.
func Lines() {
	nd.WriteFile("script", []byte("a = 1 + 1\nreturn a + 1\n"))
	nd.WriteFile("empty", nil)
	nd.WriteFile("bad", []byte("{{ range"))
	nd.WriteFile("wrong", []byte("{{ .Nothing.Of }} {{ index .Chain 99 }}"))
	var args []string
	for _, a := range lines[nd.Choose("line", len(lines))] {
		b := []byte(a)
		for i := range b {
			if b[i] == '?' {
				b[i] = nd.Byte("c")
				nd.Assume(nd.And(b[i] != 0, b[i] != '/', b[i] != '.'))
			}
		}
		args = append(args, string(b))
	}
	out, log, code := nd.RunCLI(args, []byte("return 1 + 1\n"))
	ended(out, log, code, "result")
}

// operand chooses an operand.
func operand(k int) string {
	return []string{"1", "a", "b", "[1]", "[0]", "[2]", "x", "[9]", "t0"}[nd.Choose("operand", k)]
}

// Scripts: every script of some statements over few operands.
func Scripts() {
	n, k, m := nd.Param("n"), nd.Param("operands"), nd.Param("names")
	s := ""
	for i := 0; i <= n; i++ {
		if i < n {
			k := i
			if m > 0 {
				k = nd.Choose("name", m)
			}
			s += []string{"a", "b", "x", "z", "t0"}[k] + " = "
		} else {
			s += []string{"return ", "a = "}[nd.Choose("last", 2)]
		}
		x := operand(k)
		switch nd.Choose("form", 7) {
		case 0:
			s += x
		case 1:
			s += x + " + " + operand(k)
		case 2:
			s += "2*" + x
		case 3:
			s += x + " << 1"
		case 4:
			s += x + " << 3"
		case 5:
			s += "(" + x + " + 1) + " + x
		case 6:
			s += x + " << 0"
		}
		s += "\n"
	}
	run(s)
}
