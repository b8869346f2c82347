// Package c14 checks the search command.
package c14

import (
	"math/big"
	"strconv"
	"strings"

	"github.com/mmcloughlin/addchain/alg/ensemble"
	"github.com/mmcloughlin/addchain/alg/exec"
	"github.com/mmcloughlin/addchain/zzverif/nd"
)

// costs are settings of the add and double costs.
var costs = [][2]string{
	{"1", "1"},
	{"1", "0.5"},
	{"0.8", "1.3"},
	{"1", "1000000"},
	{"1e9", "1"},
	{"0.1", "0.7"},
	{"3", "0.001"},
	{"1e-300", "1e-300"},
}

// variants are two concurrency settings each.
var variants = [][2]string{{"1", "2"}, {"1", "7"}, {"300", "2"}, {"8", "1"}, {"2", "300"}, {"4", "4"}}

func number(s string) float64 {
	x, err := strconv.ParseFloat(s, 64)
	if err != nil {
		nd.Fail("a number: " + s)
	}
	return x
}

// after returns the last line with the marker, from there on.
func after(text, marker string) (string, bool) {
	i := strings.LastIndex(text, marker)
	if i < 0 {
		return "", false
	}
	s := text[i+len(marker):]
	if j := strings.IndexByte(s, '\n'); j >= 0 {
		s = s[:j]
	}
	return strings.TrimSpace(s), true
}

type evaluation struct {
	last          *big.Int
	doubles, adds int
}

// eval runs the eval command on a script and recomputes what it lists.
func eval(script []byte) evaluation {
	out, _, code := nd.RunCLI([]string{"eval"}, script)
	nd.Assert(code == 0, "eval accepts the script")
	var e evaluation
	chain := []*big.Int{big.NewInt(1)}
	for _, l := range strings.Split(string(out), "\n") {
		if !strings.HasPrefix(l, "[") {
			continue
		}
		l = strings.NewReplacer("[", " ", "]", " ", "+", " ").Replace(l)
		f := strings.Fields(l)
		nd.Assert(len(f) == 4, "four numbers")
		i, err := strconv.Atoi(f[1])
		nd.Assert(err == nil && i >= 0 && i < len(chain), "first operand")
		j, err := strconv.Atoi(f[2])
		nd.Assert(err == nil && j >= 0 && j < len(chain), "second operand")
		x, ok := new(big.Int).SetString(f[3], 16)
		nd.Assert(ok, "value")
		nd.Assert(new(big.Int).Add(chain[i], chain[j]).Cmp(x) == 0, "eval lists sums")
		chain = append(chain, x)
		if i == j {
			e.doubles++
		} else {
			e.adds++
		}
	}
	e.last = chain[len(chain)-1]
	return e
}

// best computes the minimum cost from the results of the library.
func best(n *big.Int, add, double float64) float64 {
	min := 0.0
	for i, a := range ensemble.Ensemble() {
		r := exec.Execute(n, a)
		nd.Assert(r.Err == nil, "no algorithm fails")
		doubles, adds := 0, 0
		for _, op := range r.Program {
			if op.I == op.J {
				doubles++
			} else {
				adds++
			}
		}
		c := double*float64(doubles) + add*float64(adds)
		if i == 0 || c < min {
			min = c
		}
	}
	return min
}

func decimal(n *big.Int) string { return n.String() }

// check searches for n, denoted by expr.
func check(expr string, n *big.Int, cost [2]string, full bool) {
	add, double := number(cost[0]), number(cost[1])
	args := func(p string, more ...string) []string {
		a := append([]string{"search", "-add", cost[0], "-double=" + cost[1], "-p", p}, more...)
		return append(a, expr)
	}
	p, q, variant := "1", "", 0
	if full {
		variant = nd.Choose("variant", len(variants))
		p, q = variants[variant][0], variants[variant][1]
	}
	out, log, code := nd.RunCLI(args(p), nil)
	nd.Assert(code == 0, "search succeeds")
	nd.Observe("script", string(out))
	reported, ok := after(string(log), "cost: ")
	nd.Assert(ok, "search reports a cost")
	nd.Observe("cost", reported)

	e := eval(out)
	nd.Assert(nd.EqBig(e.last, n), "the script ends in the target")
	cost_ := double*float64(e.doubles) + add*float64(e.adds)
	nd.Assert(number(reported) == cost_, "the reported cost is that of the script")
	nd.Assert(cost_ == best(n, add, double), "the cost is the minimum over all algorithms")

	_, _, code = nd.RunCLI([]string{"fmt"}, out)
	nd.Assert(code == 0, "fmt accepts the script")
	_, _, code = nd.RunCLI([]string{"fmt", "-b"}, out)
	nd.Assert(code == 0, "fmt -b accepts the script")
	if n.Cmp(big.NewInt(2)) >= 0 {
		g, _, code := nd.RunCLI([]string{"gen"}, out)
		nd.Assert(code == 0, "gen accepts the script")
		nd.Assert(len(g) > 0, "gen prints something")
	}
	nd.Reach("searched")

	if full {
		nd.MapReverse(variant%2 == 1)
		nd.Schedule(variant % 3)
		again, log2, code := nd.RunCLI(args(q), nil)
		nd.MapReverse(false)
		nd.Assert(code == 0, "search succeeds again")
		nd.Assert(string(again) == string(out), "the same script across runs and concurrency settings")
		r2, _ := after(string(log2), "cost: ")
		nd.Assert(r2 == reported, "the same cost across runs and concurrency settings")
		nd.Schedule(0)
		if variant > 0 {
			return
		}
		again, log2, code = nd.RunCLI(args(p, "-v"), nil)
		nd.Assert(code == 0, "verbose search succeeds")
		nd.Assert(string(again) == string(out), "the same script when verbose")
		nd.Assert(strings.Count(string(log2), "doubles:") >= len(ensemble.Ensemble()), "verbose search reports every algorithm")
	}
}

// Small: every small target at each cost.
func Small() {
	width := nd.Param("width")
	expr := nd.String("n", width)
	n := 0
	for i := 0; i < width; i++ {
		nd.Assume(nd.And(expr[i] >= '0', expr[i] <= '9'))
		n = 10*n + int(expr[i]-'0')
	}
	nd.Assume(expr[0] != '0')
	nd.Assume(nd.And(n >= nd.Param("lo"), n <= nd.Param("hi")))
	if width > 1 {
		expr, n = nd.ConcString(expr), nd.Conc(n)
	}
	c := costs[nd.Choose("cost", nd.Param("costs"))]
	check(expr, big.NewInt(int64(n)), c, nd.Param("full") == 1)
}

// expressions of targets with an open digit d.
var expressions = []struct {
	expr  string
	value func(d int64) *big.Int
}{
	{"2^31-#", func(d int64) *big.Int { return new(big.Int).Sub(pow(2, 31), big.NewInt(d)) }},
	{"0xf#f0", func(d int64) *big.Int { return big.NewInt(0xf0f0 + d<<8) }},
	{" 3 ^ 1#", func(d int64) *big.Int { return pow(3, 10+d) }},
	{"2^64 - 2^3# + 5", func(d int64) *big.Int {
		return new(big.Int).Add(new(big.Int).Sub(pow(2, 64), pow(2, 30+d)), big.NewInt(5))
	}},
	{"0b1#1#1#", nil},
	{"2^8#", func(d int64) *big.Int { return pow(2, 80+d) }},
	{"#-5*2+11", func(d int64) *big.Int { return big.NewInt(d + 1) }},
	{"-#+20", func(d int64) *big.Int { return big.NewInt(20 - d) }},
	{"2^12#-1", func(d int64) *big.Int { return new(big.Int).Sub(pow(2, 120+d), big.NewInt(1)) }},
	{"#00000000000000000000000000000000000001", func(d int64) *big.Int {
		return new(big.Int).Add(new(big.Int).Mul(big.NewInt(d), pow(10, 38)), big.NewInt(1))
	}},
}

func pow(b, e int64) *big.Int { return new(big.Int).Exp(big.NewInt(b), big.NewInt(e), nil) }

// Expressions: targets denoted by expressions.
func Expressions() {
	k := nd.Choose("expr", nd.Param("exprs"))
	x := expressions[k]
	hi := nd.Param("digits") - 1
	if x.value == nil {
		hi = 1
	}
	d := nd.Conc(nd.Int("d", 0, hi))
	expr := strings.Replace(x.expr, "#", strconv.Itoa(d), -1)
	var n *big.Int
	if x.value != nil {
		n = x.value(int64(d))
	} else {
		n = big.NewInt(int64(0b101010 + 0b010101*d))
	}
	c := costs[nd.Choose("cost", nd.Param("costs"))]
	if expr[0] == '-' {
		expr = "0" + expr
	}
	check(expr, n, c, nd.Param("full") == 1)
}
