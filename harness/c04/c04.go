// Package c04 checks that the script printed for a chain loads back to it.
package c04

import (
	"bytes"
	"errors"
	"strings"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/pass"
	"github.com/mmcloughlin/addchain/acc/printer"
	"github.com/mmcloughlin/addchain/zzverif/libchain"
	"github.com/mmcloughlin/addchain/zzverif/libir"
	"github.com/mmcloughlin/addchain/zzverif/libscript"
	"github.com/mmcloughlin/addchain/zzverif/nd"
)

// expand lists the operations of an instruction program.
func expand(w libir.Prog) (addchain.Program, bool) {
	var p addchain.Program
	for _, i := range w {
		switch i.Kind {
		case libir.Add:
			p = append(p, addchain.Op{I: i.X, J: i.Y})
		case libir.Double:
			p = append(p, addchain.Op{I: i.X, J: i.X})
		case libir.Shift:
			x := i.X
			for s := 0; s < i.S; s++ {
				p = append(p, addchain.Op{I: x, J: x})
				x = len(p)
			}
		}
		if i.Out != len(p) {
			return nil, false
		}
	}
	return p, true
}

func check(p addchain.Program) {
	orig := append(addchain.Program{}, p...)
	chain := libscript.Values(orig)

	// Instruction form.
	r, err := acc.Decompile(p)
	nd.Assert(err == nil, "decompiles")
	w, ok := libir.FromIR(r)
	nd.Assert(ok, "instructions of the three kinds")
	nd.Assert(w.WellFormed(), "instructions read only what instructions produce")
	q, ok := expand(w)
	nd.Assert(ok && libscript.SameOps(orig, q), "instructions expand to the operations")
	nd.Assert(pass.Validate(r) == nil, "instruction form validates")
	nd.Assert(libscript.SameOps(orig, p), "program not modified")

	// Script.
	tree, err := acc.Build(r)
	nd.Assert(err == nil, "a script is built")
	text, err := printer.String(tree)
	nd.Assert(err == nil, "the script prints")
	nd.Observe("text", text)
	back, err := acc.LoadString(text)
	nd.Assert(err == nil, "the script loads")
	nd.Assert(libchain.Same(back.Chain, chain), "the loaded chain is the chain")
	nd.Assert(libscript.SameOps(back.Program, orig), "the loaded operations are the operations")

	if nd.Param("string") == 1 {
		r, err = acc.Decompile(p)
		nd.Assert(err == nil, "decompiles again")
		s, err := acc.String(r)
		nd.Assert(err == nil && s == text, "acc.String prints the same script")
	}
}

// Saved: scripts written to a file, over what was there before.
func Saved() {
	p := libscript.Ordered(nil, nd.Param("n"))
	if nd.Choose("run", 2) == 1 {
		p = libscript.Doubles(p, nd.Param("run"))
	}
	orig := append(addchain.Program{}, p...)
	name := nd.Path("chain.acc")
	switch nd.Choose("before", 3) {
	case 1:
		nd.WriteFile("chain.acc", []byte("a = 1 + 1\nb = a + 1\n"+strings.Repeat("c = a", 100)+"\n"))
	case 2:
		nd.WriteFile("chain.acc", nil)
	}
	r, err := acc.Decompile(p)
	nd.Assert(err == nil, "decompiles")
	nd.Assert(acc.Save(name, r) == nil, "the script is saved")
	b, ok := nd.ReadFile("chain.acc")
	nd.Assert(ok, "the file exists")
	nd.Observe("text", string(b))
	back, err := acc.LoadFile(name)
	nd.Assert(err == nil, "the file loads")
	nd.Assert(libchain.Same(back.Chain, libscript.Values(orig)), "the loaded chain is the chain")
	nd.Assert(libscript.SameOps(back.Program, orig), "the loaded operations are the operations")
	r, err = acc.Decompile(p)
	nd.Assert(err == nil, "decompiles again")
	var w bytes.Buffer
	nd.Assert(acc.Write(&w, r) == nil && nd.EqString(w.String(), string(b)), "acc.Write writes the same script")
	nd.Assert(acc.Save(nd.Path("missing/chain.acc"), r) != nil, "a script that cannot be written is reported")
	nd.Assert(acc.Write(failing{}, r) != nil, "a failing writer is reported")
}

type failing struct{}

func (failing) Write(b []byte) (int, error) { return 0, errors.New("full") }

// Any: every program, operands in either order.
func Any() { check(libscript.Arbitrary(nil, nd.Choose("n", nd.Param("n")+1))) }

// Ordered: every program with ordered operands.
func Ordered() { check(libscript.Ordered(nil, nd.Param("n"))) }

// Runs: doubling runs whose intermediates may be used again.
func Runs() {
	p := libscript.Arbitrary(nil, nd.Choose("before", 3))
	run := nd.Param("run")
	p = libscript.Doubles(p, 1+nd.Choose("run", run))
	p = libscript.Ordered(p, nd.Param("n"))
	check(p)
}

// Inline: around the limit on the operators of an expression.
func Inline() {
	n := nd.Param("chain")
	var p addchain.Program
	p = libscript.Doubles(p, nd.Choose("start", 3))
	fix := len(p)
	switchAt := nd.Choose("at", n)
	for k := 0; k < n; k++ {
		if k == switchAt {
			p = libscript.Arbitrary(p, nd.Param("n"))
		}
		switch nd.Choose("link", 3) {
		case 0:
			p = libscript.Op(p, len(p), fix)
		case 1:
			p = libscript.Op(p, 0, len(p))
		case 2:
			p = libscript.Doubles(p, 2)
		}
	}
	nd.Assume(libscript.Distinct(p))
	check(p)
}

// Long: additions to and runs over a long concrete chain.
func Long() {
	var p addchain.Program
	switch nd.Choose("base", 4) {
	case 0:
		p = libscript.Doubles(p, 12)
	case 1: // Fibonacci
		p = libscript.Op(p, 0, 0)
		for k := 0; k < 10; k++ {
			p = libscript.Op(p, len(p)-1, len(p))
		}
	case 2: // windows
		p = libscript.Op(p, 0, 0)
		p = libscript.Op(p, 0, 1)
		p = libscript.Op(p, 1, 2)
		for k := 0; k < 3; k++ {
			p = libscript.Doubles(p, 3)
			p = libscript.Op(p, k+1, len(p))
		}
	case 3: // runs
		for l := 1; l < 16; l *= 2 {
			at := len(p)
			p = libscript.Doubles(p, l)
			p = libscript.Op(p, at, len(p))
		}
	}
	p = libscript.Ordered(p, nd.Param("n"))
	check(p)
}

// Tall: programs around the sizes where bytes and machine words end.
func Tall() { check(libscript.Tall(nd.Param("shapes"), nd.Param("scale"))) }
