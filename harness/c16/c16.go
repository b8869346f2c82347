// Package c16 checks the names of built scripts.
package c16

import (
	"math/big"
	"strings"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/acc/printer"
	"github.com/mmcloughlin/addchain/zzverif/libscript"
	"github.com/mmcloughlin/addchain/zzverif/nd"
)

func legal(s string) bool {
	if s == "" {
		return false
	}
	for k := 0; k < len(s); k++ {
		c := s[k]
		letter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
		if !letter && !(k > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

func digits(s, set string) bool {
	return s != "" && strings.Trim(s, set) == ""
}

// meaning decodes a name: it must denote element k of the chain c.
func meaning(name string, k int, c []*big.Int) bool {
	switch rest := name[1:]; name[0] {
	case '_':
		if !digits(rest, "01") {
			return false
		}
		v := new(big.Int)
		for _, d := range rest {
			v.Lsh(v, 1)
			if d == '1' {
				v.SetBit(v, 0, 1)
			}
		}
		return c[k].Cmp(v) == 0
	case 'x', 'i':
		if !digits(rest, "0123456789") {
			return false
		}
		n := 0
		for _, d := range rest {
			n = 10*n + int(d-'0')
			if n > 1<<20 {
				return false
			}
		}
		if name[0] == 'i' {
			return n == k
		}
		v := new(big.Int).Lsh(big.NewInt(1), uint(n))
		return c[k].Cmp(v.Sub(v, big.NewInt(1))) == 0
	}
	return false
}

func names(t *ast.Chain, c []*big.Int) {
	nd.Assert(len(t.Statements) > 0, "the script has a statement")
	elem, _, bad := libscript.Elements(t)
	nd.Assert(!bad, "the script evaluates")
	seen := map[string]bool{}
	for k, s := range t.Statements {
		n := string(s.Name)
		if k == len(t.Statements)-1 {
			nd.Assert(n == "", "the final statement is unnamed")
			continue
		}
		nd.Assert(n != "", "other statements are named")
		nd.Assert(!seen[n], "names are defined once")
		seen[n] = true
		nd.Assert(legal(n), "names are identifiers")
		nd.Assert(elem[k] < len(c) && meaning(n, elem[k], c), "a name says what the value is")
	}
}

func check(p addchain.Program) {
	c := libscript.Values(p)
	r, err := acc.Decompile(p)
	nd.Assert(err == nil, "decompiles")
	tree, err := acc.Build(r)
	nd.Assert(err == nil, "a script is built")
	names(tree, c)
	if nd.Param("print") == 1 {
		text, err := printer.String(tree)
		nd.Assert(err == nil, "prints")
		back, err := parse.String(text)
		nd.Assert(err == nil, "parses")
		names(back, c)
		nd.Assert(len(back.Statements) == len(tree.Statements), "statement for statement")
	}
}

// Any: every program, operands in either order.
func Any() { check(libscript.Arbitrary(nil, nd.Choose("n", nd.Param("n")+1))) }

// Ordered: every program with ordered operands.
func Ordered() { check(libscript.Ordered(nil, nd.Param("n"))) }

// Named: chains through the values to which several schemes apply (all-ones
// values around and below 2^8), then arbitrary operations.
func Named() {
	var p addchain.Program
	switch nd.Choose("base", 6) {
	case 0: // 1 3 7 15 ... by doubling and adding one
		for k := 0; k < nd.Param("ones"); k++ {
			p = libscript.Doubles(p, 1)
			p = libscript.Op(p, 0, len(p))
		}
	case 1: // runs 1 2 4 8 16
		for l := 1; l < 32; l *= 2 {
			at := len(p)
			p = libscript.Doubles(p, l)
			p = libscript.Op(p, at, len(p))
		}
	case 2: // powers of two
		p = libscript.Doubles(p, 8+nd.Choose("powers", 3))
	case 3: // odd numbers
		p = libscript.Doubles(p, 1)
		p = libscript.Op(p, 0, 1)
		for k := 0; k < 6; k++ {
			p = libscript.Op(p, 1, len(p))
		}
	case 4: // 1..n
		for k := 0; k < 8; k++ {
			p = libscript.Op(p, 0, len(p))
		}
	case 5: // powers of two and the all-ones values between them
		p = libscript.Doubles(p, 12)
		for k, at := 1, 0; k < 12; k++ {
			p = libscript.Op(p, at, k)
			at = len(p)
		}
	}
	p = libscript.Ordered(p, nd.Param("n"))
	// so that the last of them has a name
	p = libscript.Op(p, 0, len(p))
	nd.Assume(libscript.Fresh(p))
	p = libscript.Doubles(p, 1)
	check(p)
}

// Tall: programs around the sizes where bytes and machine words end.
func Tall() { check(libscript.Tall(nd.Param("shapes"), nd.Param("scale"))) }
