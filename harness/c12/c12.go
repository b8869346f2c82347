// Package c12 checks the parallel executor.
package c12

import (
	"bytes"
	"errors"
	"fmt"
	"log"
	"math/big"
	"strings"
	"sync/atomic"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/alg"
	"github.com/mmcloughlin/addchain/alg/ensemble"
	"github.com/mmcloughlin/addchain/alg/exec"
	"github.com/mmcloughlin/addchain/zzverif/libchain"
	"github.com/mmcloughlin/addchain/zzverif/nd"
)

// monitor watches the runs of a group of algorithms.
type monitor struct {
	limit    int32
	running  int32
	exceeded int32
	finished int32
}

func (m *monitor) enter() {
	if atomic.AddInt32(&m.running, 1) > m.limit {
		atomic.StoreInt32(&m.exceeded, 1)
	}
}

func (m *monitor) leave() {
	atomic.AddInt32(&m.running, -1)
	atomic.AddInt32(&m.finished, 1)
}

// stub is an algorithm with a fixed outcome.
type stub struct {
	id   int
	kind int
	m    *monitor
	n    *big.Int // the expected target
	ok   bool     // it received that target
	runs int
}

func (s *stub) String() string { return fmt.Sprintf("stub%d", s.id) }

func (s *stub) FindChain(n *big.Int) (addchain.Chain, error) {
	if s.m != nil {
		s.m.enter()
		defer s.m.leave()
	}
	s.runs++
	s.ok = nd.EqBig(n, s.n)
	nd.Yield()
	s.ok = nd.And(s.ok, nd.EqBig(n, s.n))
	switch s.kind {
	case 1:
		return nil, errors.New(s.String())
	case 2:
		return addchain.Int64s(1, 2, int64(100+s.id)), nil // not a chain
	case 3:
		return addchain.Int64s(1, 2, 4, 3), nil // not the target
	}
	// 1 2 3 ... n with a detour that tells the algorithms apart
	c := addchain.Int64s(1, 2, 3, 4, 5, 6)
	return append(c[:2+s.id], n), nil
}

func same(a, b exec.Result) bool {
	if (a.Err == nil) != (b.Err == nil) || a.Err != nil && a.Err.Error() != b.Err.Error() {
		return false
	}
	if a.Algorithm != b.Algorithm || a.Target == nil || len(a.Program) != len(b.Program) {
		return false
	}
	for i := range a.Program {
		if a.Program[i] != b.Program[i] {
			return false
		}
	}
	return nd.And(nd.EqBig(a.Target, b.Target), libchain.Same(a.Chain, b.Chain))
}

func group(m *monitor, n *big.Int) ([]alg.ChainAlgorithm, []*stub) {
	var as []alg.ChainAlgorithm
	var ss []*stub
	k := nd.Choose("algs", nd.Param("algs")+1)
	for i := 0; i < k; i++ {
		s := &stub{id: i, m: m, n: new(big.Int).Set(n)}
		if nd.Param("kinds") > 1 {
			s.kind = nd.Choose("kind", nd.Param("kinds"))
		}
		ss = append(ss, s)
		as = append(as, s)
	}
	return as, ss
}

func alone(n *big.Int, as []alg.ChainAlgorithm) []exec.Result {
	var rs []exec.Result
	for _, a := range as {
		rs = append(rs, exec.Execute(new(big.Int).Set(n), a))
	}
	return rs
}

func compare(rs, want []exec.Result) {
	nd.Assert(len(rs) == len(want), "one result per algorithm")
	for i := range rs {
		nd.Assert(same(rs[i], want[i]), "the result of each algorithm, in its place")
	}
}

// target is what every stub chain ends with: a sum in each of them.
func target() *big.Int { return big.NewInt(4) }

// Schedules: every interleaving of a few runs.
func Schedules() {
	n := target()
	limit := 1 + nd.Choose("limit", nd.Param("limit"))
	m := &monitor{limit: int32(limit)}
	as, ss := group(m, n)
	want := alone(n, as)
	for _, s := range ss {
		s.runs = 0
	}
	m.finished = 0
	p := exec.NewParallel()
	p.SetConcurrency(limit)
	rs := p.Execute(n, as)
	nd.Assert(atomic.LoadInt32(&m.finished) == int32(len(as)), "returns after every algorithm has finished")
	nd.Assert(atomic.LoadInt32(&m.exceeded) == 0, "never more runs at once than the limit")
	for _, s := range ss {
		nd.Assert(s.runs == 1, "each algorithm runs once")
		nd.Assert(s.ok, "each algorithm receives the target")
	}
	nd.Assert(nd.EqBig(n, target()), "the target is not written")
	compare(rs, want)
	nd.Observe("results", len(rs))
	nd.Reach("returned")
}

// Races: the runs share nothing but what the executor lets them share.
func Races() {
	n := target()
	limit := 1 + nd.Choose("limit", nd.Param("limit"))
	as, _ := group(nil, n)
	want := alone(n, as)
	p := exec.NewParallel()
	p.SetConcurrency(limit)
	var buf bytes.Buffer
	if nd.Choose("log", 2) == 1 {
		p.SetLogger(log.New(&buf, "", 0))
	}
	rs := p.Execute(n, as)
	compare(rs, want)
	nd.Assert(nd.EqBig(n, target()), "the target is not written")
	for _, a := range as {
		if s := buf.String(); s != "" {
			nd.Assert(strings.Contains(s, a.String()), "the log names every algorithm")
		}
	}
	nd.Reach("returned")
}

// Twice: two uses of one executor.
func Twice() {
	n := target()
	as, _ := group(nil, n)
	want := alone(n, as)
	p := exec.NewParallel()
	p.SetConcurrency(2)
	first := p.Execute(n, as)
	second := p.Execute(n, as)
	compare(first, want)
	compare(second, want)
}

// Pairs: algorithms of the ensemble, which share parts.
func Pairs() {
	as := ensemble.Ensemble()
	k := nd.Choose("first", len(as))
	step := []int{1, 5, 20, 37}[nd.Choose("step", nd.Param("steps"))]
	pair := []alg.ChainAlgorithm{as[k], as[(k+step)%len(as)]}
	n := big.NewInt(int64(nd.Int("n", nd.Param("lo"), nd.Param("hi"))))
	want := alone(n, pair)
	orig := new(big.Int).Set(n)
	p := exec.NewParallel()
	p.SetConcurrency(2)
	rs := p.Execute(n, pair)
	compare(rs, want)
	nd.Assert(nd.EqBig(n, orig), "the target is not written")
	nd.Observe("chain", rs[0].Chain)
	nd.Reach("returned")
}

// Whole: the whole ensemble at once.
func Whole() {
	as := ensemble.Ensemble()
	n := big.NewInt(int64(nd.Int("n", nd.Param("lo"), nd.Param("hi"))))
	orig := new(big.Int).Set(n)
	var rs []exec.Result
	p := exec.NewParallel()
	p.SetConcurrency(nd.Param("limit"))
	for i := 0; i < len(as); i += 100 {
		j := i + 100
		if j > len(as) {
			j = len(as)
		}
		rs = append(rs, p.Execute(n, as[i:j])...)
	}
	compare(rs, alone(n, as))
	nd.Assert(nd.EqBig(n, orig), "the target is not written")
	nd.Reach("returned")
}
