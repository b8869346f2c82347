package main

// Path exploration: every path re-executes the harness from the start, following
// a recorded decision prefix; beyond the prefix each undecided branch is put to
// the solver and the other side is queued when feasible.

import (
	"fmt"
	"math/big"
	"math/rand"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// dec is one recorded decision. kind 0: branch taken false; 1: branch true;
// 2/3: the same but forced (implied by the path condition); 4: choice value n.
type dec struct {
	k uint8
	n uint16
}

type item struct {
	prefix []dec
	model  *Model
	depth  int
}

type ndVal struct {
	Name string `json:"n"`
	Kind string `json:"k"`
	t    *Term  // symbolic, or
	c    *big.Int
	sgn  bool
	arr  []V // bytes
}

type obsVal struct {
	name string
	v    obsNode
}

// obsNode is an immutable snapshot evaluated at path end.
type obsNode struct {
	s    string
	big  *Big
	tm   *Term
	rt   *RType
	list []obsNode
	kind byte // 's','b','t','l','y' (bytes)
	by   []V
}

type Path struct {
	m         *Machine
	facts     *facts
	prefix    []dec
	pos       int
	decs      []dec
	pc        []*Term
	model     *Model
	nvars     int
	nds       []*ndVal
	obs       []obsVal
	noFork    bool
	dead      bool
	exited    chan struct{}
	result    *pathEnd
	mainCh    chan struct{}
	mainG     *G
	failed    bool
	extVal    any
	stepLimit int64
	overSteps bool

	mapOrder    bool
	mapReverse  bool
	mapRanges   int
	schedChoice bool
	maxPreempt  int
	policy      int // of scheduling when it is not explored
	preempts    int

	forks     int
	asserts   int
	reach     map[string]bool
	suspect   string
	stdout    []byte
	silent    int
	nchoices  int
	deadlineT time.Time
	vioMsg    string
	cliPanic  string
	unknownAt int
}

type cacheEnt struct {
	res  Result
	vals map[int]*big.Int
}

func (p *Path) addPC(t *Term) {
	if t.op == OpConst {
		return
	}
	if t.op == OpAnd {
		p.addPC(t.a)
		p.addPC(t.b)
		return
	}
	p.pc = append(p.pc, t)
	p.learn(t)
}

// slice returns the constraints sharing variables (transitively) with t.
func (p *Path) slice(t *Term) []*Term {
	if len(t.vars) == 0 {
		return nil
	}
	in := map[int32]bool{}
	for _, v := range t.vars {
		in[v] = true
	}
	used := make([]bool, len(p.pc))
	n := 0
	for changed := true; changed; {
		changed = false
		for i, c := range p.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
			used[i] = true
			n++
			for _, v := range c.vars {
				if !in[v] {
					in[v] = true
					changed = true
				}
			}
		}
	}
	r := make([]*Term, 0, n)
	for i, c := range p.pc {
		if used[i] {
			r = append(r, c)
		}
	}
	return r
}

// query decides pc and t; on Sat the returned model satisfies both.
func (p *Path) query(t *Term) (Result, *Model) {
	m := p.m
	if t.isConst() {
		if t.u == 1 {
			return Sat, p.model
		}
		return Unsat, nil
	}
	if r, md, ok := p.quick(t); ok {
		m.sol.st.Quick++
		return r, md
	}
	sl := p.slice(t)
	var kb strings.Builder
	for _, c := range sl {
		kb.WriteString(strconv.Itoa(c.id))
		kb.WriteByte(',')
	}
	kb.WriteByte(':')
	kb.WriteString(strconv.Itoa(t.id))
	key := kb.String()
	ent := m.cache[key]
	if ent == nil {
		res, vals := Unknown, map[int]*big.Int(nil)
		if m.cfg.lia && m.isol.encodable(sl, t) {
			res, vals = m.isol.Check(m.ts, sl, t)
		}
		if res == Unknown {
			res, vals = m.sol.Check(m.ts, sl, t)
		}
		if res == Unknown {
			// a second opinion in a fresh process with a longer limit
			m.sol.st.Fallbacks++
			res, vals = portfolio(m.ts, sl, t, m.cfg.fallback)
			if res != Unknown {
				m.sol.st.Unknown--
				if res == Sat {
					m.sol.st.Sat++
				} else {
					m.sol.st.Unsat++
				}
			}
		} else if res == Unsat && m.cfg.crossEvery > 0 && m.stats().Queries%m.cfg.crossEvery == 0 {
			r2 := crossCheck(sl, t, 20*time.Second)
			if r2 != Unknown {
				m.sol.st.CrossChecked++
				if r2 != res {
					m.sol.st.CrossDisagree++
					warnf("solver disagreement: z3 %v cvc5 %v", res, r2)
					res = Unknown
				}
			}
		}
		ent = &cacheEnt{res, vals}
		if len(m.cache) > 200000 {
			m.cache = map[string]*cacheEnt{}
		}
		m.cache[key] = ent
	} else {
		m.sol.st.CacheHits++
	}
	if ent.res != Sat {
		return ent.res, nil
	}
	nm := p.model.clone()
	for i, v := range ent.vals {
		nm.set(i, v)
	}
	return Sat, nm
}

func (p *Path) setModel(md *Model) {
	p.model = md
	p.m.ts.SetModel(md)
}

func (p *Path) replaying() bool { return p.pos < len(p.prefix) }

// decideTerm branches on a boolean term.
func (m *Machine) decideTerm(c *Term) bool {
	if c.isConst() {
		return c.u == 1
	}
	p := m.path
	if p.noFork {
		panic(unsupported("symbolic branch in package initialisation"))
	}
	if p.replaying() {
		d := p.prefix[p.pos]
		p.pos++
		if d.k > 3 {
			panic(unsupported("replay divergence: expected branch"))
		}
		p.decs = append(p.decs, d)
		b := d.k&1 == 1
		if d.k < 2 {
			if b {
				p.addPC(c)
			} else {
				p.addPC(m.ts.Not(c))
			}
		}
		return b
	}
	m.checkBudget()
	b := m.ts.EvalBool(c)
	lit, other := c, m.ts.Not(c)
	if !b {
		lit, other = other, lit
	}
	res, md := p.query(other)
	bit := uint8(0)
	if b {
		bit = 1
	}
	switch res {
	case Unsat:
		p.decs = append(p.decs, dec{k: 2 + bit})
		return b
	case Sat:
		p.fork(dec{k: 1 - bit}, md)
	case Unknown:
		p.unknownAt++
		m.world.noteUnknown("branch")
	}
	p.decs = append(p.decs, dec{k: bit})
	p.addPC(lit)
	return b
}

// fork queues the sibling of the current decision.
func (p *Path) fork(d dec, md *Model) {
	p.forks++
	np := make([]dec, len(p.decs)+1)
	copy(np, p.decs)
	np[len(p.decs)] = d
	p.m.world.push(&item{prefix: np, model: md, depth: len(np)})
}

// feasible asks whether c can hold (no fork); used by intrinsics.
func (m *Machine) mustHold(c *Term) bool {
	if c.isConst() {
		return c.u == 1
	}
	if !m.ts.EvalBool(c) {
		return false
	}
	if m.path.replaying() {
		// the model satisfies more than the pc here: ask
	}
	res, _ := m.path.query(m.ts.Not(c))
	return res == Unsat
}

// assume restricts the path.
func (m *Machine) assume(c *Term) {
	p := m.path
	if c.isConst() {
		if c.u == 0 {
			panic(&pathEnd{"assume", ""})
		}
		return
	}
	if p.replaying() {
		// the prefix's model satisfies it
		if !m.ts.EvalBool(c) {
			panic(unsupported("replay divergence: assume"))
		}
		p.addPC(c)
		return
	}
	if !m.ts.EvalBool(c) {
		res, md := p.query(c)
		switch res {
		case Unsat:
			panic(&pathEnd{"assume", ""})
		case Unknown:
			m.world.noteUnknown("assume")
			panic(limitEnd("solver gave no answer on an assumption"))
		}
		p.setModel(md)
	}
	p.addPC(c)
}

// assert checks that c holds for every value on this path.
func (m *Machine) assert(c *Term, msg string) {
	p := m.path
	p.asserts++
	if p.replaying() {
		// checked by the parent path under a weaker path condition
		return
	}
	if c.isConst() && c.u == 1 {
		m.world.noteAssert(msg, true)
		return
	}
	m.checkBudget()
	if !m.ts.EvalBool(c) {
		p.violation(msg, p.model)
	}
	res, md := p.query(m.ts.Not(c))
	switch res {
	case Unsat:
		m.world.noteAssert(msg, false)
	case Sat:
		p.violation(msg, md)
	case Unknown:
		m.world.noteUnknown("assert: " + msg)
	}
}

func (p *Path) violation(msg string, md *Model) {
	p.setModel(md)
	p.vioMsg = msg
	panic(&pathEnd{"violation", msg})
}

// concTerm forks over the values of t.
func (m *Machine) concTerm(t *Term) uint64 {
	for i := 0; ; i++ {
		if t.isConst() {
			return t.u
		}
		var v uint64
		p := m.path
		if p.replaying() {
			// the value is recorded as a choice decision
			d := p.prefix[p.pos]
			if d.k == 5 {
				p.pos++
				p.decs = append(p.decs, d)
				hi := p.prefix[p.pos : p.pos+4]
				for j := 0; j < 4; j++ {
					v |= uint64(hi[j].n) << (16 * j)
				}
				p.decs = append(p.decs, hi...)
				p.pos += 4
			} else {
				panic(unsupported("replay divergence: expected value"))
			}
		} else {
			v = m.ts.EvalU(t)
			p.decs = append(p.decs, dec{k: 5})
			for j := 0; j < 4; j++ {
				p.decs = append(p.decs, dec{k: 6, n: uint16(v >> (16 * j))})
			}
		}
		if m.decideTerm(m.ts.Eq(t, m.ts.Const(t.w, v))) {
			return v
		}
		if i > 100000 {
			panic(limitEnd("too many values"))
		}
	}
}

// concBig concretises an integer.
func (m *Machine) concBig(b *Big) *big.Int {
	if b == nil {
		return bigZero
	}
	if b.c != nil {
		return b.c
	}
	t := b.t
	if t.w <= 64 {
		v := m.concTerm(t)
		return big.NewInt(signed64(v, t.w))
	}
	// concretise in 64-bit pieces
	x := new(big.Int)
	for lo := 0; lo < t.w; lo += 64 {
		hi := min(lo+63, t.w-1)
		part := m.concTerm(m.ts.Extract(t, hi, lo))
		x.Or(x, new(big.Int).Lsh(new(big.Int).SetUint64(part), uint(lo)))
	}
	return toSigned(x, t.w)
}

// choose forks n ways.
func (p *Path) chooseSilent(n int) int {
	if n <= 1 {
		return 0
	}
	if p.noFork {
		return 0
	}
	p.nchoices++
	if p.replaying() {
		d := p.prefix[p.pos]
		if d.k != 4 || int(d.n) >= n {
			panic(unsupported("replay divergence: expected choice"))
		}
		p.pos++
		p.decs = append(p.decs, d)
		return int(d.n)
	}
	p.m.checkBudget()
	for i := n - 1; i > 0; i-- {
		p.fork(dec{k: 4, n: uint16(i)}, p.model)
	}
	p.decs = append(p.decs, dec{k: 4, n: 0})
	return 0
}

func (p *Path) choose(name string, n int) int {
	i := p.chooseSilent(n)
	p.nds = append(p.nds, &ndVal{Name: name, Kind: "choose", c: big.NewInt(int64(i))})
	return i
}

func (p *Path) newVar(w int, lo, hi uint64, bl int) *Term {
	t := p.m.ts.NewVar(p.nvars, w, lo, hi, bl)
	p.nvars++
	ts := p.m.ts
	// ranges as raw constraints (the simplifier already knows them)
	if w > 0 && w <= 64 {
		if hi < mask64(w) {
			p.addRaw(ts.mkRaw(&Term{op: OpUle, a: t, b: ts.Const(w, hi)}))
		}
		if lo > 0 {
			p.addRaw(ts.mkRaw(&Term{op: OpUle, a: ts.Const(w, lo), b: t}))
			if !p.replaying() || p.model.get(t.p).Sign() == 0 {
				if p.model.get(t.p).Cmp(new(big.Int).SetUint64(lo)) < 0 {
					md := p.model.clone()
					md.set(t.p, new(big.Int).SetUint64(lo))
					p.setModel(md)
				}
			}
		}
	} else if w > 64 && bl < w {
		lim := new(big.Int).Lsh(bigOne, uint(bl))
		p.addRaw(ts.mkRaw(&Term{op: OpUlt, a: t, b: ts.ConstBig(w, lim)}))
	}
	return t
}

func (p *Path) addRaw(t *Term) {
	p.pc = append(p.pc, t)
	p.learn(t)
}

func (m *Machine) checkBudget() {
	w := m.world
	if w.stopped() {
		panic(&pathEnd{"killed", "stopped"})
	}
	if len(m.path.decs) > m.cfg.maxDecisions {
		panic(limitEnd("more than %d decisions on one path", m.cfg.maxDecisions))
	}
}

func (p *Path) overrun() {
	p.overSteps = true
	panic(limitEnd("step limit"))
}

func (p *Path) deadlock(m *Machine) {
	msg := "deadlock:"
	for _, g := range m.gs {
		if !g.done {
			msg += " " + g.reason + ";"
		}
	}
	p.vioMsg = msg
	panic(&pathEnd{"deadlock", msg})
}

func (p *Path) raceFound(g *G, c *raceCell, write bool) {
	k := "read"
	if write {
		k = "write"
	}
	msg := fmt.Sprintf("data race: %s in [%s] unordered with earlier access (write in [%s])", k, g.trace(), c.wpos)
	p.vioMsg = msg
	panic(&pathEnd{"violation", msg})
}

// fail is called by a goroutine whose execution ended with a host panic.
func (p *Path) fail(r any, g *G) {
	p.failed = true
	p.extVal = r
	// wake the main goroutine, which unwinds
	p.m.cur = p.mainG
	p.dead = true
	p.mainG.wake <- struct{}{}
}

// --- worlds: shared exploration state for one harness ---

type violation struct {
	Harness string
	Msg     string
	Inputs  []inputVal
	Kind    string
	Trace   string
}

type inputVal struct {
	N string `json:"n"`
	K string `json:"k"`
	V string `json:"v"`
}

type traceRec struct {
	Inputs []inputVal
	Obs    []string
	End    string
}

type world struct {
	mu       sync.Mutex
	frontier []*item
	active   int
	stop     bool
	deadline time.Time
	rnd      *rand.Rand

	paths, completed, assumed, unsup, limits, forced int
	panics                                           int
	forks                                            int
	decisions                                        int64
	asserts                                          map[string]int
	assertsConst                                     map[string]int
	unknown                                          map[string]int
	unsupMsgs                                        map[string]int
	limitMsgs                                        map[string]int
	vios                                             []*violation
	vioSeen                                          map[string]int
	traces                                           []*traceRec
	suspects                                         []*traceRec
	steps                                            int64
	maxDecs                                          int
	reach                                            map[string]bool
	cover                                            map[*cfn]int
	harness                                          string
	abandoned                                        int
	maxFrontier                                      int
	maxTraces                                        int
	ntr                                              int
	queries                                          int
	solTime                                          time.Duration
}

func newWorld(h string, deadline time.Time, seed int64) *world {
	w := &world{harness: h, deadline: deadline, rnd: rand.New(rand.NewSource(seed)), asserts: map[string]int{}, assertsConst: map[string]int{}, unknown: map[string]int{}, unsupMsgs: map[string]int{}, limitMsgs: map[string]int{}, vioSeen: map[string]int{}, reach: map[string]bool{}, cover: map[*cfn]int{}}
	return w
}

func (w *world) push(it *item) {
	w.mu.Lock()
	w.frontier = append(w.frontier, it)
	if len(w.frontier) > w.maxFrontier {
		w.maxFrontier = len(w.frontier)
	}
	w.forks++
	w.mu.Unlock()
}

func (w *world) stopped() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.stop || past(w.deadline)
}

func (w *world) noteUnknown(s string) {
	w.mu.Lock()
	w.unknown[s]++
	w.mu.Unlock()
}

func (w *world) noteAssert(msg string, constant bool) {
	w.mu.Lock()
	if constant {
		w.assertsConst[msg]++
	} else {
		w.asserts[msg]++
	}
	w.mu.Unlock()
}

// runPath executes one path.
func (m *Machine) runPath(w *world, it *item, entry *cfn) {
	m.world = w
	p := &Path{m: m, facts: newFacts(), prefix: it.prefix, model: it.model, exited: make(chan struct{}), maxPreempt: -1, stepLimit: m.cfg.maxSteps, reach: map[string]bool{}}
	p.schedChoice = m.cfg.schedule
	p.mapOrder = m.cfg.mapOrder
	if m.cfg.maxPreempt >= 0 {
		p.maxPreempt = m.cfg.maxPreempt
	}
	m.path = p
	m.ts.SetModel(p.model)
	if m.raceOn && m.syncVC == nil {
		m.syncVC = map[syncKey][]int32{}
	}
	m.steps = 0
	m.undo = m.undo[:0]
	m.cli = nil
	g := &G{m: m, wake: make(chan struct{})}
	m.gs = []*G{g}
	m.cur = g
	p.mainG = g
	var end *pathEnd
	var gop *goPanic
	var engineErr string
	exec := func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			if p.failed && p.extVal != nil {
				r = p.extVal
			}
			switch r := r.(type) {
			case *pathEnd:
				end = r
			case *goPanic:
				gop = r
			default:
				engineErr = fmt.Sprintf("%v\n%s", r, debug.Stack())
			}
		}()
		fr := &frame{m: m, g: g}
		fr.runFn(entry, nil, nil)
	}
	exec()
	m.initing = 0
	p.noFork = false
	// release other goroutines
	p.dead = true
	for _, x := range m.gs[1:] {
		if !x.done {
			x.wake <- struct{}{}
			<-p.exited
		}
	}
	kind := "ok"
	msg := ""
	var tr string
	switch {
	case engineErr != "":
		kind, msg = "unsupported", "engine: "+firstLine(engineErr)
		if m.cfg.verbose {
			warnf("engine error: %s", engineErr)
		}
	case gop != nil:
		kind = "panic"
		msg = func() (s string) {
			defer func() {
				if r := recover(); r != nil {
					s = "panic"
				}
			}()
			return "panic: " + m.panicString(gop.v)
		}()
		tr = gop.trace
	case end != nil:
		kind, msg = end.kind, end.msg
	}
	m.undoTo(0)
	for _, o := range m.racy {
		o.race = map[int]*raceCell{}
	}
	for _, o := range m.racyM {
		o.race = nil
	}
	m.racy, m.racyM, m.syncVC = m.racy[:0], m.racyM[:0], nil
	if m.raceOn {
		m.syncVC = map[syncKey][]int32{}
	}
	m.clock = 0
	if p.cliPanic != "" {
		tr += " [" + p.cliPanic + "]"
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.paths++
	w.steps += m.steps
	w.decisions += int64(len(p.decs))
	if len(p.decs) > w.maxDecs {
		w.maxDecs = len(p.decs)
	}
	for k := range p.reach {
		w.reach[k] = true
	}
	addTrace := func(end string) {
		// reservoir sampling
		w.ntr++
		if w.maxTraces <= 0 {
			return
		}
		if len(w.traces) < w.maxTraces {
			w.traces = append(w.traces, m.trace(p, end))
		} else if j := w.rnd.Intn(w.ntr); j < w.maxTraces {
			w.traces[j] = m.trace(p, end)
		}
	}
	switch kind {
	case "ok":
		w.completed++
		addTrace("ok")
		if p.suspect != "" && len(w.suspects) < 200 {
			w.suspects = append(w.suspects, m.trace(p, "ok"))
		}
	case "assume":
		w.assumed++
	case "violation", "panic", "deadlock":
		if kind == "panic" {
			w.panics++
		}
		key := kind + msg
		w.vioSeen[key]++
		foundViolation()
		if w.vioSeen[key] <= 6 && len(w.vios) < 60 {
			w.vios = append(w.vios, &violation{Harness: w.harness, Msg: msg, Kind: kind, Inputs: m.inputs(p), Trace: tr})
		}
		if len(w.vios) >= m.cfg.maxVios {
			w.stop = true
		}
	case "unsupported":
		w.unsup++
		w.unsupMsgs[msg]++
		if w.unsupMsgs[msg] <= 3 && len(w.suspects) < 200 {
			// still let the real code have a go at these inputs
			if t := m.trace(p, "unsupported"); t != nil {
				w.suspects = append(w.suspects, t)
			}
		}
	case "limit":
		w.limits++
		w.limitMsgs[msg]++
		if w.limitMsgs[msg] <= 3 && len(w.suspects) < 200 {
			w.suspects = append(w.suspects, m.trace(p, "limit"))
		}
	case "killed":
		w.abandoned++
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		// include the frame that raised it
		for _, l := range strings.Split(s, "\n") {
			if strings.Contains(l, "/gosym/") && !strings.Contains(l, "path.go") {
				return s[:i] + " at " + strings.TrimSpace(l)
			}
		}
		return s[:i]
	}
	return s
}

// inputs evaluates the recorded inputs under the path's model.
func (m *Machine) inputs(p *Path) []inputVal {
	var r []inputVal
	for _, n := range p.nds {
		iv := inputVal{N: n.Name, K: n.Kind}
		switch {
		case n.arr != nil || n.Kind == "bytes":
			b := make([]byte, len(n.arr))
			for i, c := range n.arr {
				if c.o != nil {
					b[i] = byte(m.ts.EvalU(c.o.(*Term)))
				} else {
					b[i] = byte(c.u)
				}
			}
			iv.V = fmt.Sprintf("%x", b)
		case n.t != nil:
			if n.t.w == 0 {
				iv.V = strconv.FormatUint(m.ts.EvalU(n.t), 10)
			} else {
				x := m.ts.EvalBig(n.t)
				if n.sgn {
					x = toSigned(x, n.t.w)
				}
				iv.V = x.String()
			}
		default:
			iv.V = n.c.String()
		}
		r = append(r, iv)
	}
	return r
}

func (m *Machine) trace(p *Path, end string) *traceRec {
	t := &traceRec{Inputs: m.inputs(p), End: end}
	for _, o := range p.obs {
		t.Obs = append(t.Obs, o.name+"="+m.obsString(o.v))
	}
	return t
}

func (m *Machine) obsString(n obsNode) string {
	switch n.kind {
	case 's':
		return n.s
	case 'q':
		if n.big.c != nil {
			return strconv.Quote(n.big.c.String())
		}
		return strconv.Quote(toSigned(m.ts.EvalBig(n.big.t), n.big.t.w).String())
	case 'b':
		if n.big.c != nil {
			return n.big.c.String()
		}
		return toSigned(m.ts.EvalBig(n.big.t), n.big.t.w).String()
	case 't':
		if n.tm.w == 0 {
			if m.ts.EvalBool(n.tm) {
				return "true"
			}
			return "false"
		}
		u := m.ts.EvalU(n.tm)
		if n.rt.signed {
			return strconv.FormatInt(signed64(u, n.tm.w), 10)
		}
		return strconv.FormatUint(u, 10)
	case 'y':
		b := make([]byte, len(n.by))
		for i, c := range n.by {
			if c.o != nil {
				b[i] = byte(m.ts.EvalU(c.o.(*Term)))
			} else {
				b[i] = byte(c.u)
			}
		}
		return strconv.Quote(string(b))
	case 'l':
		var sb strings.Builder
		sb.WriteByte('[')
		for i, e := range n.list {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(m.obsString(e))
		}
		sb.WriteByte(']')
		return sb.String()
	}
	return "?"
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
