package main

// The machine: frames, calls, panics, memory.

import (
	"fmt"
	"go/types"
	"math/rand"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Machine is one worker's interpreter state.
type Machine struct {
	p       *Prog
	ts      *Terms
	sol     *Solver
	isol    *Solver // linear integer encoding
	cfg     *RunConfig
	path    *Path
	globals []*Obj
	pkginit map[*ssa.Package]bool
	undo    []undoRec
	initing int
	methods map[methKey]methVal
	impls   map[[2]int]bool
	steps   int64
	gs      []*G
	cur     *G
	rnd     *rand.Rand
	cache   map[string]*cacheEnt
	cover   map[*cfn]int
	cli     *cliState
	world   *world
	raceOn  bool
	onYield func()
	wid     int
	clock   int64
	syncVC  map[syncKey][]int32
	racy    []*Obj
	racyM   []*MapObj
}

type undoRec struct {
	obj  *Obj
	idx  int
	old  V
	mp   *MapObj
	save *MapObj
}

type methKey struct {
	t    int
	name string
}

type methVal struct {
	fn     *cfn
	native func(m *Machine, g *G, args []V) V
}

// pathEnd is thrown (as a host panic) to abandon the current path.
type pathEnd struct {
	kind string // assume, violation, unsupported, limit, killed, exit
	msg  string
}

func unsupported(f string, args ...any) *pathEnd {
	return &pathEnd{"unsupported", fmt.Sprintf(f, args...)}
}

func limitEnd(f string, args ...any) *pathEnd {
	return &pathEnd{"limit", fmt.Sprintf(f, args...)}
}

// goPanic is an interpreted panic propagating through host frames.
type goPanic struct {
	v     V
	trace string
}

type G struct {
	m     *Machine
	id    int
	slab  []V
	sp    int
	depth int
	// scheduling
	wake      chan struct{}
	done      bool
	abandoned bool
	blocked   func() bool // ready predicate when blocked
	reason    string
	vc        []int32
	top       *frame
}

type frame struct {
	m       *Machine
	g       *G
	f       *cfn
	r       []V
	defers  []*preparedCall
	result  V
	caller  *frame
	pan     *goPanic // panic in progress in this frame (running defers)
	recov   bool     // that panic has been recovered
	deferOf *frame   // frame whose deferred call this is
	block   int
}

func (fr *frame) get(x operand) V {
	if x < 0 {
		return fr.f.consts[-x-1]
	}
	if x < gbase {
		return fr.r[x]
	}
	return V{o: fr.m.global(int(x - gbase))}
}

func (m *Machine) newObj(n int) *Obj {
	o := &Obj{cells: make([]V, n), shared: m.initing > 0}
	if m.raceOn {
		o.race = map[int]*raceCell{}
	}
	return o
}

func (m *Machine) objOf(vs ...V) *Obj {
	o := &Obj{cells: vs, shared: m.initing > 0}
	if m.raceOn {
		o.race = map[int]*raceCell{}
	}
	return o
}

func (m *Machine) globalNamed(mem ssa.Member) *Obj {
	g, ok := mem.(*ssa.Global)
	if !ok {
		panic(unsupported("no such global"))
	}
	return m.global(m.p.globals[g])
}

func (m *Machine) newMap(kt, vt *RType) *MapObj {
	return &MapObj{kt: kt, vt: vt, idx: map[any]int{}, shared: m.initing > 0}
}

func (m *Machine) global(i int) *Obj {
	o := m.globals[i]
	if o == nil {
		g := m.p.glist[i]
		o = &Obj{cells: make([]V, rtypeOf(deref(g.Type())).n), shared: true}
		if m.raceOn {
			o.race = map[int]*raceCell{}
		}
		m.globals[i] = o
		m.initGlobal(g, o)
		m.ensureInit(g.Pkg)
		return o
	}
	return o
}

var skipInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "reflect": true, "time": true, "internal/poll": true,
	"internal/godebug": true, "internal/cpu": true, "sync": true, "internal/reflectlite": true, "runtime/pprof": true,
	"os/signal": true, "runtime/trace": true, "internal/bisect": true, "math/rand": true, "internal/testlog": true,
	"math/big": true, "crypto/rand": true, "math/rand/v2": true, "internal/syscall/unix": true, "unique": true, "net": true,
	"internal/sync": true, "weak": true, "internal/synctest": true,
}

func (m *Machine) ensureInit(pkg *ssa.Package) {
	if m.pkginit[pkg] {
		return
	}
	m.pkginit[pkg] = true
	if skipInit[pkg.Pkg.Path()] {
		return
	}
	f := pkg.Func("init")
	if f == nil {
		return
	}
	m.initing++
	saved := m.path.noFork
	m.path.noFork = true
	defer func() { m.initing--; m.path.noFork = saved }()
	c := m.p.cfn(f)
	m.callInit(c)
}

func (m *Machine) callInit(c *cfn) {
	g := m.cur
	fr := &frame{m: m, g: g, caller: g.top}
	fr.runFn(c, nil, nil)
}

func (m *Machine) noteStore(fr *frame, o *Obj, i int) {
	if o.shared && m.initing == 0 {
		m.undo = append(m.undo, undoRec{obj: o, idx: i, old: o.cells[i]})
	}
	if m.raceOn {
		m.raceAccess(fr, o, i, true)
	}
}

func (m *Machine) noteLoad(fr *frame, o *Obj, i int) {
	if m.raceOn {
		m.raceAccess(fr, o, i, false)
	}
}

func (m *Machine) undoTo(n int) {
	for len(m.undo) > n {
		u := m.undo[len(m.undo)-1]
		m.undo = m.undo[:len(m.undo)-1]
		if u.mp != nil {
			*u.mp = *u.save
		} else {
			u.obj.cells[u.idx] = u.old
		}
	}
}

// --- calls ---

const slabChunk = 1 << 15

func (g *G) alloc(n int) []V {
	if g.sp+n > len(g.slab) {
		sz := slabChunk
		if n > sz {
			sz = n
		}
		g.slab = make([]V, sz)
		g.sp = 0
	}
	r := g.slab[g.sp : g.sp+n : g.sp+n]
	g.sp += n
	return r
}

// invoke calls fn with operands read from fr.
func (fr *frame) invoke(fn *cfn, env []V, recv *V, ops []operand) V {
	if fn.intr != nil {
		args := make([]V, 0, len(ops)+1)
		if recv != nil {
			args = append(args, *recv)
		}
		for _, o := range ops {
			args = append(args, fr.get(o))
		}
		return fn.intr(fr.m, fr.g, fr, args)
	}
	if fn.isInit {
		return V{}
	}
	fn.compile()
	if fn.blocks == nil {
		panic(unsupported("no body: %s", fn.name))
	}
	g := fr.g
	slab, sp := g.slab, g.sp
	regs := g.alloc(fn.nregs)
	i := 0
	if recv != nil {
		regs[0] = *recv
		i = 1
	}
	for _, o := range ops {
		regs[i] = fr.get(o)
		i++
	}
	copy(regs[fn.nparams:], env)
	nf := frame{m: fr.m, g: g, f: fn, r: regs, caller: fr}
	res := nf.run()
	g.slab, g.sp = slab, sp
	return res
}

// runFn calls fn with evaluated arguments, using fr only as the caller.
func (fr *frame) runFn(fn *cfn, env []V, args []V) V {
	return fr.runFnDefer(fn, env, args, nil)
}

func (fr *frame) runFnDefer(fn *cfn, env []V, args []V, deferOf *frame) V {
	if fn.intr != nil {
		return fn.intr(fr.m, fr.g, fr, args)
	}
	fn.compile()
	if fn.blocks == nil {
		panic(unsupported("no body: %s", fn.name))
	}
	g := fr.g
	slab, sp := g.slab, g.sp
	regs := g.alloc(fn.nregs)
	copy(regs, args)
	copy(regs[fn.nparams:], env)
	nf := frame{m: fr.m, g: g, f: fn, r: regs, caller: fr, deferOf: deferOf}
	res := nf.run()
	g.slab, g.sp = slab, sp
	return res
}

// call invokes a function value from an intrinsic.
func (m *Machine) call(g *G, fr *frame, f V, args ...V) V {
	cl, _ := f.o.(*Closure)
	if cl == nil {
		g.nilPanic(fr)
	}
	if fr == nil {
		fr = &frame{m: m, g: g, caller: g.top}
	}
	if cl.native != nil {
		return cl.native(m, g, args)
	}
	return fr.runFn(cl.fn, cl.env, args)
}

// callFunc calls a package-level function by name.
func (m *Machine) callFunc(g *G, fr *frame, pkg, name string, args ...V) V {
	sp := m.p.pkgs[pkg]
	if sp == nil {
		panic(unsupported("package %s not loaded", pkg))
	}
	f := sp.Func(name)
	if f == nil {
		panic(unsupported("no function %s.%s", pkg, name))
	}
	if fr == nil {
		fr = &frame{m: m, g: g, caller: g.top}
	}
	return fr.runFn(m.p.cfn(f), nil, args)
}

func (m *Machine) callMethod(g *G, fr *frame, recv *Iface, pkg *types.Package, name string, args ...V) V {
	fn, native := m.methodByName(recv.t, pkg, name)
	if fr == nil {
		fr = &frame{m: m, g: g, caller: g.top}
	}
	all := append([]V{recv.v}, args...)
	if native != nil {
		return native(m, g, all)
	}
	return fr.runFn(fn, nil, all)
}

const maxDepth = 6000

func (fr *frame) run() V {
	g, m, f := fr.g, fr.m, fr.f
	g.depth++
	if g.depth > m.cfg.maxDepth {
		g.depth = 0
		panic(limitEnd("call depth > %d in %s", m.cfg.maxDepth, f.name))
	}
	saved := g.top
	g.top = fr
	if f.isRepo || f.module {
		m.cover[f]++
	}
	if f.fnHasDefer() {
		fr.runWithDefers()
	} else {
		fr.loop(0)
	}
	g.top = saved
	g.depth--
	return fr.result
}

func (f *cfn) fnHasDefer() bool { return f.recov >= 0 || f.hasDef }

func (fr *frame) loop(b int) {
	f, m := fr.f, fr.m
	prev := -1
	var tmp [8]V
	for {
		blk := f.blocks[b]
		if blk.nph > 0 {
			mv := blk.moves[prev]
			if len(mv) == 1 {
				fr.r[mv[0].dst] = fr.get(mv[0].src)
			} else {
				t := tmp[:0]
				for _, x := range mv {
					t = append(t, fr.get(x.src))
				}
				for i, x := range mv {
					fr.r[x.dst] = t[i]
				}
			}
		}
		m.steps += int64(len(blk.steps)) + 1
		if m.steps > m.path.stepLimit {
			m.path.overrun()
		}
		fr.block = b
		for _, s := range blk.steps {
			s(fr)
		}
		prev = b
		b = blk.term(fr)
		if b < 0 {
			return
		}
	}
}

// runWithDefers runs a function that has deferred calls.
func (fr *frame) runWithDefers() {
	p := fr.protect(func() { fr.loop(0) })
	if p == nil {
		return
	}
	// panicking: run defers
	fr.pan = p
	fr.g.top = fr
	fr.runDefersPanicking()
	if !fr.recov {
		panic(fr.pan)
	}
	fr.pan = nil
	if fr.f.recov >= 0 {
		fr.loop(fr.f.recov)
	} else {
		// no named results: zero values
		fr.result = fr.f.zeroResult()
	}
}

func (f *cfn) zeroResult() V {
	switch len(f.results) {
	case 0:
		return V{}
	case 1:
		return zeroOf(f.results[0])
	}
	t := make(tuple, len(f.results))
	for i, r := range f.results {
		t[i] = zeroOf(r)
	}
	return V{o: t}
}

func zeroOf(t *RType) V {
	if t.agg() {
		return V{o: make(agg, t.n)}
	}
	return V{}
}

// protect runs fn, returning an interpreted panic if one escaped.
func (fr *frame) protect(fn func()) (p *goPanic) {
	depth, slab, sp := fr.g.depth, fr.g.slab, fr.g.sp
	defer func() {
		if r := recover(); r != nil {
			gp, ok := r.(*goPanic)
			if !ok {
				panic(r)
			}
			fr.g.depth, fr.g.slab, fr.g.sp = depth, slab, sp
			p = gp
		}
	}()
	fn()
	return nil
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.callPrepared(d)
	}
}

func (fr *frame) runDefersPanicking() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		p := fr.protect(func() { fr.callPrepared(d) })
		fr.g.top = fr
		if p != nil {
			fr.pan = p
			fr.recov = false
		}
		if fr.recov {
			// remaining defers run normally
			fr.pan = nil
			q := fr.protect(func() { fr.runDefers() })
			if q != nil {
				fr.pan = q
				fr.recov = false
				fr.g.top = fr
				continue
			}
			return
		}
	}
}

func (fr *frame) callPrepared(d *preparedCall) V {
	if d.bi != "" {
		return fr.m.callBuiltin(fr, d.bi, d.args, d.biT)
	}
	if d.native != nil {
		return d.native(fr.m, fr.g, d.args)
	}
	return fr.runFnDefer(d.fn, d.env, d.args, fr)
}

// --- panics ---

func (g *G) trace() string {
	var sb strings.Builder
	n := 0
	for f := g.top; f != nil && n < 40; f = f.caller {
		if f.f == nil {
			continue
		}
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(f.f.name)
		n++
	}
	return sb.String()
}

func (g *G) panicValue(fr *frame, v V) {
	if v.o == nil {
		g.rtPanic(fr, "panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
	}
	panic(&goPanic{v: v, trace: g.trace()})
}

// rtPanic raises a runtime.Error.
func (g *G) rtPanic(fr *frame, msg string) {
	rp := g.m.p.pkgs["runtime"]
	t := rtypeOf(rp.Type("errorString").Type())
	panic(&goPanic{v: V{o: &Iface{t: t, v: vStr(msg)}}, trace: g.trace()})
}

func (g *G) goPanicErr(fr *frame, msg string) {
	rp := g.m.p.pkgs["runtime"]
	t := rtypeOf(rp.Type("plainError").Type())
	panic(&goPanic{v: V{o: &Iface{t: t, v: vStr(msg)}}, trace: g.trace()})
}

func (g *G) nilPanic(fr *frame) {
	g.rtPanic(fr, "invalid memory address or nil pointer dereference")
}

// panicString renders a panic value.
func (m *Machine) panicString(v V) string {
	it, _ := v.o.(*Iface)
	if it == nil {
		return "nil"
	}
	switch it.t.kind {
	case KString:
		s, _ := it.v.o.(string)
		return s
	case KInt:
		return fmt.Sprint(int64(it.v.u))
	}
	var out string
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(*pathEnd); ok && pe.kind == "killed" {
					panic(r)
				}
				out = it.t.String()
			}
		}()
		r := m.callMethod(m.cur, nil, it, nil, "Error")
		r = m.concStr(r)
		s, _ := r.o.(string)
		out = s
	}()
	return out
}

// --- methods ---

func (m *Machine) method(t *RType, meth *types.Func) (*cfn, func(m *Machine, g *G, args []V) V) {
	return m.methodByName(t, meth.Pkg(), meth.Name())
}

func (m *Machine) methodByName(t *RType, pkg *types.Package, name string) (*cfn, func(m *Machine, g *G, args []V) V) {
	key := methKey{t.id, name}
	if pkg != nil && !isExported(name) {
		key.name = pkg.Path() + "." + name
	}
	if v, ok := m.methods[key]; ok {
		return v.fn, v.native
	}
	var mv methVal
	if t == m.rtypeT() {
		mv.native = m.typeMethod(name)
		m.methods[key] = mv
		return nil, mv.native
	}
	ms := m.p.prog.MethodSets.MethodSet(t.t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		panic(unsupported("no method %s on %s", name, t))
	}
	f := m.p.prog.MethodValue(sel)
	if f == nil {
		panic(unsupported("no method value %s on %s", name, t))
	}
	mv.fn = m.p.cfn(f)
	m.methods[key] = mv
	return mv.fn, mv.native
}

func isExported(n string) bool { return n[0] >= 'A' && n[0] <= 'Z' }

func (m *Machine) implements(t, it *RType) bool {
	k := [2]int{t.id, it.id}
	if b, ok := m.impls[k]; ok {
		return b
	}
	b := types.Implements(t.t, it.t.Underlying().(*types.Interface))
	m.impls[k] = b
	return b
}

func (r *RType) Underlying() types.Type { return r.t.Underlying() }

// --- memory ---

func (m *Machine) load(fr *frame, p V, t *RType) V {
	switch o := p.o.(type) {
	case *Obj:
		if o.race != nil {
			m.noteLoad(fr, o, int(p.u))
		}
		if t.agg() {
			return m.loadAgg(fr, p, t.n)
		}
		return o.cells[p.u]
	case *SymPtr:
		if t.agg() {
			return m.loadAgg(fr, m.concPtr(o), t.n)
		}
		return m.loadSym(fr, o, t)
	case nil:
		fr.g.nilPanic(fr)
	}
	panic(unsupported("load through %T", p.o))
}

func (m *Machine) loadAgg(fr *frame, p V, n int) V {
	if sp, ok := p.o.(*SymPtr); ok {
		p = m.concPtr(sp)
	}
	o, ok := p.o.(*Obj)
	if !ok {
		if p.o == nil {
			fr.g.nilPanic(fr)
		}
		panic(unsupported("load through %T", p.o))
	}
	if o.race != nil {
		for i := 0; i < n; i++ {
			m.noteLoad(fr, o, int(p.u)+i)
		}
	}
	a := make(agg, n)
	copy(a, o.cells[p.u:int(p.u)+n])
	return V{o: a}
}

func (m *Machine) storeAgg(fr *frame, p V, n int, v V) {
	if sp, ok := p.o.(*SymPtr); ok {
		p = m.concPtr(sp)
	}
	o, ok := p.o.(*Obj)
	if !ok {
		if p.o == nil {
			fr.g.nilPanic(fr)
		}
		panic(unsupported("store through %T", p.o))
	}
	a := v.o.(agg)
	if o.shared || o.race != nil {
		for i := 0; i < n; i++ {
			m.noteStore(fr, o, int(p.u)+i)
		}
	}
	copy(o.cells[p.u:int(p.u)+n], a)
}

func (m *Machine) storeSlow(fr *frame, p V, v V, t *RType) {
	switch o := p.o.(type) {
	case *SymPtr:
		m.storeSym(fr, o, v, t)
		return
	case nil:
		fr.g.nilPanic(fr)
	}
	panic(unsupported("store through %T", p.o))
}

// storeAt is used by intrinsics.
func (m *Machine) storeAt(fr *frame, o *Obj, i int, v V) {
	if o.shared || o.race != nil {
		m.noteStore(fr, o, i)
	}
	o.cells[i] = v
}

func (m *Machine) symIndex(fr *frame, o *Obj, base, n int, et *RType, iv V, it *RType) V {
	idx := m.term(iv, it)
	w := it.w
	if w < 64 {
		idx = m.ts.Resize(idx, 64, it.signed)
	}
	inb := m.ts.Ult(idx, m.ts.Const(64, uint64(n)))
	if !m.decideTerm(inb) {
		v := m.concTerm(idx)
		fr.g.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", int64(v), n))
	}
	if idx.isConst() {
		return V{o: o, u: uint64(base + int(idx.u)*et.n)}
	}
	return V{o: &SymPtr{obj: o, base: base, stride: et.n, n: n, idx: idx}}
}

func (m *Machine) concPtr(sp *SymPtr) V {
	j := m.concTerm(sp.idx)
	return V{o: sp.obj, u: uint64(sp.base + int(j)*sp.stride)}
}

func (m *Machine) loadSym(fr *frame, sp *SymPtr, t *RType) V {
	if t.kind != KInt && t.kind != KBool {
		return m.load(fr, m.concPtr(sp), t)
	}
	lo, hi := 0, sp.n-1
	if int(sp.idx.lo) > lo {
		lo = int(sp.idx.lo)
	}
	if sp.idx.hi < uint64(hi) {
		hi = int(sp.idx.hi)
	}
	type run struct {
		from int
		v    *Term
	}
	var runs []run
	for i := lo; i <= hi; i++ {
		c := m.term(sp.obj.cells[sp.base+i*sp.stride], t)
		if len(runs) == 0 || runs[len(runs)-1].v != c {
			runs = append(runs, run{i, c})
		}
	}
	var build func(a, b int) *Term
	build = func(a, b int) *Term { // runs[a:b]
		if b-a == 1 {
			return runs[a].v
		}
		mid := (a + b) / 2
		c := m.ts.Ult(sp.idx, m.ts.Const(64, uint64(runs[mid].from)))
		return m.ts.Ite(c, build(a, mid), build(mid, b))
	}
	return m.fromTerm(build(0, len(runs)), t)
}

func (m *Machine) storeSym(fr *frame, sp *SymPtr, v V, t *RType) {
	if t.kind != KInt && t.kind != KBool {
		p := m.concPtr(sp)
		m.storeAt(fr, p.o.(*Obj), int(p.u), v)
		return
	}
	nv := m.term(v, t)
	for i := 0; i < sp.n; i++ {
		if uint64(i) < sp.idx.lo || uint64(i) > sp.idx.hi {
			continue
		}
		k := sp.base + i*sp.stride
		old := m.term(sp.obj.cells[k], t)
		c := m.ts.Eq(sp.idx, m.ts.Const(64, uint64(i)))
		m.storeAt(fr, sp.obj, k, m.fromTerm(m.ts.Ite(c, nv, old), t))
	}
}

// --- terms and values ---

// term converts a bool/int value to a term.
func (m *Machine) term(v V, t *RType) *Term {
	if v.o != nil {
		tm, ok := v.o.(*Term)
		if !ok {
			panic(unsupported("%T used as %s", v.o, t))
		}
		return tm
	}
	if t.kind == KBool {
		return m.ts.Bool(v.u != 0)
	}
	return m.ts.Const(t.w, v.u)
}

func (m *Machine) vb(t *Term) V {
	if t.op == OpConst {
		return V{u: t.u}
	}
	return V{o: t}
}

func (m *Machine) vi(t *Term, rt *RType) V {
	if t.op == OpConst {
		return V{u: canon(t.u, rt)}
	}
	return V{o: t}
}

func (m *Machine) fromTerm(t *Term, rt *RType) V {
	if rt.kind == KBool {
		return m.vb(t)
	}
	return m.vi(t, rt)
}

func (m *Machine) not(v V) V {
	if v.o == nil {
		return V{u: v.u ^ 1}
	}
	return m.vb(m.ts.Not(v.o.(*Term)))
}

func (m *Machine) decide(v V) bool {
	if v.o == nil {
		return v.u != 0
	}
	return m.decideTerm(v.o.(*Term))
}

// concInt concretises an integer value (forking over its feasible values).
func (m *Machine) concInt(v V, t *RType) uint64 {
	if v.o == nil {
		return v.u
	}
	tm, ok := v.o.(*Term)
	if !ok {
		panic(unsupported("concretise %T", v.o))
	}
	return canon(m.concTerm(tm), t)
}

// --- equality ---

func (m *Machine) equal(fr *frame, t *RType, a, b V) V {
	switch t.kind {
	case KInt, KBool:
		if a.o == nil && b.o == nil {
			return vBool(a.u == b.u)
		}
		return m.vb(m.ts.Eq(m.term(a, t), m.term(b, t)))
	case KFloat:
		return vBool(f64(a) == f64(b))
	case KComplex:
		x, _ := a.o.(complex128)
		y, _ := b.o.(complex128)
		return vBool(x == y)
	case KString:
		return m.strEq(a, b)
	case KPtr, KUnsafePtr:
		if sp, ok := a.o.(*SymPtr); ok {
			a = m.concPtr(sp)
		}
		if sp, ok := b.o.(*SymPtr); ok {
			b = m.concPtr(sp)
		}
		return vBool(a.o == b.o && a.u == b.u)
	case KSlice, KMap, KFunc:
		return vBool(a.o == nil && b.o == nil)
	case KChan:
		return vBool(a.o == b.o)
	case KIface:
		x, _ := a.o.(*Iface)
		y, _ := b.o.(*Iface)
		if x == nil || y == nil {
			return vBool(x == nil && y == nil)
		}
		if x.t != y.t {
			return vBool(false)
		}
		switch x.t.kind {
		case KSlice, KMap, KFunc:
			fr.g.rtPanic(fr, "comparing uncomparable type "+x.t.String())
		}
		return m.equal(fr, x.t, x.v, y.v)
	case KStruct:
		x, y := a.o.(agg), b.o.(agg)
		r := vBool(true)
		for i, f := range t.fields {
			if t.st.Field(i).Name() == "_" {
				continue
			}
			r = m.and(r, m.equal(fr, f, sub(x, t.foff[i], f), sub(y, t.foff[i], f)))
			if r.o == nil && r.u == 0 {
				return r
			}
		}
		return r
	case KArray:
		x, y := a.o.(agg), b.o.(agg)
		e := t.elem()
		r := vBool(true)
		for i := 0; i < t.alen; i++ {
			r = m.and(r, m.equal(fr, e, sub(x, i*e.n, e), sub(y, i*e.n, e)))
			if r.o == nil && r.u == 0 {
				return r
			}
		}
		return r
	case KOpaque:
		return vBool(a.o == b.o)
	}
	panic(unsupported("equality on %s", t))
}

func sub(a agg, off int, t *RType) V {
	if t.agg() {
		return V{o: a[off : off+t.n]}
	}
	return a[off]
}

func (m *Machine) and(a, b V) V {
	if a.o == nil {
		if a.u == 0 {
			return a
		}
		return b
	}
	if b.o == nil {
		if b.u == 0 {
			return b
		}
		return a
	}
	return m.vb(m.ts.And(a.o.(*Term), b.o.(*Term)))
}

func (m *Machine) or(a, b V) V {
	return m.not(m.and(m.not(a), m.not(b)))
}
