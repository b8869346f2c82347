package main

// Configuration, workers and scheduling of harnesses.

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// RunConfig bounds one harness.
type RunConfig struct {
	params       map[string]int
	maxDepth     int
	maxDecisions int
	maxSteps     int64
	maxWidth     int
	maxBits      int
	maxPreempt   int
	maxVios      int
	schedule     bool
	mapOrder     bool
	race         bool
	lia          bool
	crossEvery   int
	fallback     time.Duration
	verbose      bool
	numCPU       int
	tries        int
	traces       int
}

func fatalf(f string, args ...any) {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", args...)
	os.Exit(3)
}

var warnMu sync.Mutex
var warned = map[string]int{}

func warnf(f string, args ...any) {
	s := fmt.Sprintf(f, args...)
	k := s
	if len(k) > 80 {
		k = k[:80]
	}
	warnMu.Lock()
	warned[k]++
	n := warned[k]
	warnMu.Unlock()
	if n <= 5 {
		fmt.Fprintf(os.Stderr, "gosym: %s\n", s)
	}
}

// job is one harness being explored.
type job struct {
	name   string // pkg.Func
	prop   string
	cfg    *RunConfig
	w      *world
	entry  *ssa.Function
	weight float64

	mu   sync.Mutex
	used time.Duration
	last time.Time
	fin  time.Time
}

func newMachine(p *Prog, timeout time.Duration, wid int, race bool) *Machine {
	m := &Machine{p: p, ts: newTerms(), sol: newSolver(timeout), isol: newSolver(3 * time.Second), wid: wid, raceOn: race}
	m.isol.ints = true
	m.pkginit = map[*ssa.Package]bool{}
	m.methods = map[methKey]methVal{}
	m.impls = map[[2]int]bool{}
	m.cache = map[string]*cacheEnt{}
	m.cover = map[*cfn]int{}
	m.rnd = rand.New(rand.NewSource(int64(wid) + 1))
	m.globals = make([]*Obj, len(p.glist))
	return m
}

// initRepo runs the initialisers of the module's packages.
func (m *Machine) initRepo(cfg *RunConfig) {
	m.cfg = cfg
	m.path = &Path{m: m, facts: newFacts(), model: newModel(), stepLimit: 1 << 60, reach: map[string]bool{}}
	m.ts.SetModel(m.path.model)
	g := &G{m: m, wake: make(chan struct{})}
	m.gs = []*G{g}
	m.cur = g
	m.path.mainG = g
	for _, sp := range m.p.prog.AllPackages() {
		if !isModule(sp.Pkg.Path()) || isHarness(sp.Pkg.Path()) && sp.Pkg.Path() == ndPath {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					m.initing = 0
					if pe, ok := r.(*pathEnd); ok {
						warnf("init of %s: %s", sp.Pkg.Path(), pe.msg)
					} else if gp, ok := r.(*goPanic); ok {
						warnf("init of %s: panic %s", sp.Pkg.Path(), m.panicString(gp.v))
					} else {
						panic(r)
					}
				}
			}()
			m.ensureInit(sp)
		}()
	}
	m.initing = 0
	m.undo = m.undo[:0]
	m.cover = map[*cfn]int{}
}

// resetTerms drops the term table when it has grown large.
func (m *Machine) resetTerms() {
	m.ts = newTerms()
	m.sol.reset()
	m.isol.reset()
	m.cache = map[string]*cacheEnt{}
}

// softDeadline is set when a violation is found: what remains is explored for
// as long again, to report other violations.
var softDeadline int64
var exploreStart time.Time

func past(deadline time.Time) bool {
	now := time.Now()
	if now.After(deadline) {
		return true
	}
	s := atomic.LoadInt64(&softDeadline)
	return s != 0 && now.UnixNano() > s
}

func foundViolation() {
	d := time.Since(exploreStart)
	if d < 15*time.Second {
		d = 15 * time.Second
	}
	atomic.CompareAndSwapInt64(&softDeadline, 0, time.Now().Add(d).UnixNano())
}

const termLimit = 250000

// runJobs explores all jobs until exhaustion or the deadline.
func runJobs(p *Prog, jobs []*job, workers int, deadline time.Time, solTimeout time.Duration) SolverStats {
	exploreStart = time.Now()
	var wg sync.WaitGroup
	var total SolverStats
	var tmu sync.Mutex
	var pickMu sync.Mutex
	pick := func() *job {
		pickMu.Lock()
		defer pickMu.Unlock()
		var best *job
		var bs float64
		for _, j := range jobs {
			j.w.mu.Lock()
			ok := len(j.w.frontier) > 0 && !j.w.stop
			j.w.mu.Unlock()
			if !ok {
				continue
			}
			j.mu.Lock()
			s := float64(j.used) / j.weight
			j.mu.Unlock()
			if best == nil || s < bs {
				best, bs = j, s
			}
		}
		return best
	}
	allDone := func() bool {
		for _, j := range jobs {
			j.w.mu.Lock()
			busy := !j.w.stop && (len(j.w.frontier) > 0 || j.w.active > 0)
			j.w.mu.Unlock()
			if busy {
				return false
			}
		}
		return true
	}
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ms := map[bool]*Machine{}
			defer func() {
				tmu.Lock()
				for _, m := range ms {
					m.sol.stop()
					m.isol.stop()
					total.add(m.sol.st)
					total.add(m.isol.st)
				}
				tmu.Unlock()
			}()
			idle := 0
			for {
				if past(deadline) {
					for _, j := range jobs {
						j.w.mu.Lock()
						j.w.stop = j.w.stop || len(j.w.frontier) > 0
						j.w.mu.Unlock()
					}
					return
				}
				j := pick()
				var it *item
				if j != nil {
					it = j.w.tryPop()
				}
				if it == nil {
					if allDone() {
						return
					}
					idle++
					time.Sleep(time.Duration(min(idle, 20)) * 100 * time.Microsecond)
					continue
				}
				idle = 0
				m := ms[j.cfg.race]
				if m == nil {
					m = newMachine(p, solTimeout, i, j.cfg.race)
					m.initRepo(j.cfg)
					ms[j.cfg.race] = m
				}
				m.cfg = j.cfg
				if m.ts.n > termLimit {
					m.resetTerms()
				}
				t0 := time.Now()
				q0 := m.stats()
				m.runPath(j.w, it, p.cfn(j.entry))
				d := time.Since(t0)
				j.mu.Lock()
				j.used += d
				j.mu.Unlock()
				j.w.mu.Lock()
				j.w.active--
				j.w.queries += m.stats().Queries - q0.Queries
				j.w.solTime += m.stats().Time - q0.Time
				for c, n := range m.cover {
					j.w.cover[c] += n
				}
				j.w.mu.Unlock()
				for c := range m.cover {
					delete(m.cover, c)
				}
				j.mu.Lock()
				j.fin = time.Now()
				j.mu.Unlock()
			}
		}(i)
	}
	// memory watchdog: stop exploring rather than be killed
	quit := make(chan struct{})
	go func() {
		for {
			select {
			case <-quit:
				return
			case <-time.After(time.Second):
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 14<<30 {
					warnf("heap %d MB: stopping", ms.HeapAlloc>>20)
					for _, j := range jobs {
						j.w.mu.Lock()
						j.w.stop = true
						j.w.mu.Unlock()
					}
				}
			}
		}
	}()
	wg.Wait()
	close(quit)
	return total
}

func (w *world) tryPop() *item {
	w.mu.Lock()
	defer w.mu.Unlock()
	n := len(w.frontier)
	if n == 0 || w.stop {
		return nil
	}
	i := n - 1
	switch w.rnd.Intn(8) {
	case 0:
		i = w.rnd.Intn(n)
	case 1:
		i = 0
	}
	it := w.frontier[i]
	w.frontier = append(w.frontier[:i], w.frontier[i+1:]...)
	w.active++
	return it
}

func (m *Machine) stats() SolverStats {
	s := m.sol.st
	s.add(m.isol.st)
	return s
}
