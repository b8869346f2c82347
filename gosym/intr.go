package main

// Intrinsics for the parts of the standard library that are not executed from
// source: synchronisation, atomics, runtime, time, operating system, and
// assembly routines.

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

// opaque packages: functions without an intrinsic are refused.
var opaquePkgs = map[string]bool{
	"os": true, "syscall": true, "runtime": true, "reflect": true, "internal/poll": true, "os/signal": true,
	"runtime/pprof": true, "runtime/trace": true, "crypto/rand": true, "unique": true, "weak": true,
	"internal/abi": true, "runtime/debug": true, "net": true, "net/http": true, "os/exec": true,
	"github.com/mmcloughlin/profile": true, "internal/runtime/atomic": true, "internal/runtime/maps": true,
}

// lookupIntrinsic is called under the program lock.
func lookupIntrinsic(fn *ssa.Function, name string) intrinsic {
	if f, ok := intrinsics[name]; ok {
		return f
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
		on := o.String()
		if mk, ok := genericIntrinsics[on]; ok {
			return mk(fn)
		}
		if f, ok := intrinsics[on]; ok {
			return f
		}
	}
	if o.Pkg == nil {
		return nil
	}
	path := o.Pkg.Pkg.Path()
	if path == "math/big" {
		if strings.HasPrefix(name, bigP) && o.Parent() == nil {
			if f := bigFallback(name, fn.Signature); f != nil {
				return f
			}
		}
		if o.Parent() == nil && fn.Synthetic == "" {
			recv := fn.Signature.Recv()
			if recv != nil && isNamed(derefAll(recv.Type()), "math/big", "Int") || recv == nil && fn.Name() != "init" {
				return func(m *Machine, g *G, fr *frame, a []V) V { panic(unsupported("call to %s", name)) }
			}
		}
		return nil
	}
	if path == ndPath {
		if f, ok := ndIntrinsics[fn.Name()]; ok && fn.Signature.Recv() == nil {
			return f
		}
	}
	if opaquePkgs[path] && fn.Name() != "init" && fn.Parent() == nil {
		if path == "runtime" && fn.Signature.Recv() != nil {
			return nil
		}
		if path == "reflect" && allowReflectSource[name] {
			return nil
		}
		if path == "os" && allowOSSource[name] {
			return nil
		}
		return func(m *Machine, g *G, fr *frame, a []V) V { panic(unsupported("call to %s", name)) }
	}
	return nil
}

func derefAll(t types.Type) types.Type {
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return t
		}
		t = p.Elem()
	}
}

var allowOSSource = map[string]bool{
	"os.IsNotExist": true, "os.IsExist": true, "os.underlyingError": true, "os.underlyingErrorIs": true,
}

var genericIntrinsics = map[string]func(fn *ssa.Function) intrinsic{
	"reflect.TypeFor": func(fn *ssa.Function) intrinsic {
		t := rtypeOf(fn.TypeArgs()[0])
		return func(m *Machine, g *G, fr *frame, a []V) V { return m.typeV(t) }
	},
	"internal/abi.TypeFor": func(fn *ssa.Function) intrinsic {
		return func(m *Machine, g *G, fr *frame, a []V) V { panic(unsupported("abi.TypeFor")) }
	},
}

func constV(v V) intrinsic { return func(m *Machine, g *G, fr *frame, a []V) V { return v } }

func (m *Machine) ptrObj(fr *frame, p V) (*Obj, int) {
	if sp, ok := p.o.(*SymPtr); ok {
		p = m.concPtr(sp)
	}
	o, _ := p.o.(*Obj)
	if o == nil {
		fr.g.nilPanic(fr)
	}
	return o, int(p.u)
}

// rawStore writes without a race record.
func (m *Machine) rawStore(o *Obj, i int, v V) {
	if o.shared && m.initing == 0 {
		m.undo = append(m.undo, undoRec{obj: o, idx: i, old: o.cells[i]})
	}
	o.cells[i] = v
}

type syncKey struct {
	o *Obj
	i int
}

// hbRel/hbAcq implement happens-before edges through a memory location.
func (m *Machine) hbRel(g *G, o *Obj, i int) {
	if !m.raceOn {
		return
	}
	c := m.hbSend(g)
	k := syncKey{o, i}
	old := m.syncVC[k]
	vcJoin(&c, old)
	m.syncVC[k] = c
}

func (m *Machine) hbAcq(g *G, o *Obj, i int) {
	if !m.raceOn {
		return
	}
	m.hbRecv(g, m.syncVC[syncKey{o, i}])
}

func (m *Machine) initGlobal(g *ssa.Global, o *Obj) {
	name := g.String()
	switch name {
	case "os.Stdin":
		o.cells[0] = V{o: &Obj{cells: []V{{o: &hostFile{kind: 0, name: "/dev/stdin"}}}, shared: true}}
	case "os.Stdout":
		o.cells[0] = V{o: &Obj{cells: []V{{o: &hostFile{kind: 1, name: "/dev/stdout"}}}, shared: true}}
	case "os.Stderr":
		o.cells[0] = V{o: &Obj{cells: []V{{o: &hostFile{kind: 2, name: "/dev/stderr"}}}, shared: true}}
	case "os.Args":
		o.cells[0] = m.strSlice([]V{vStr("addchain")})
	case "os.ErrNotExist", "os.ErrExist", "os.ErrPermission", "os.ErrInvalid", "os.ErrClosed":
		if sp := m.p.pkgs["io/fs"]; sp != nil {
			if fg, ok := sp.Members[g.Name()].(*ssa.Global); ok {
				o.cells[0] = m.global(m.p.globals[fg]).cells[0]
			}
		}
	case "time.UTC":
		if sp := m.p.pkgs["time"]; sp != nil {
			if fg, ok := sp.Members["utcLoc"].(*ssa.Global); ok {
				o.cells[0] = V{o: m.global(m.p.globals[fg])}
			}
		}
	}
	if pats := m.p.embeds[g]; len(pats) > 0 {
		t := rtypeOf(deref(g.Type()))
		switch {
		case t.kind == KString:
			if fs := embedFiles(pats); len(fs) == 1 {
				o.cells[0] = vStr(fs[0].data)
			}
		case t.kind == KSlice:
			if fs := embedFiles(pats); len(fs) == 1 {
				o.cells[0] = m.strToBytes(vStr(fs[0].data))
			}
		default:
			o.cells[0] = V{o: &embedFS{files: embedFiles(pats)}}
		}
	}
}

type embedFile struct{ name, data string }
type embedFS struct{ files []embedFile }

func embedFiles(pats []string) []embedFile {
	var fs []embedFile
	seen := map[string]bool{}
	for _, p := range pats {
		dir, pat, _ := strings.Cut(p, "\x00")
		all := strings.HasPrefix(pat, "all:")
		pat = strings.TrimPrefix(pat, "all:")
		ms, _ := filepath.Glob(filepath.Join(dir, pat))
		for _, x := range ms {
			filepath.Walk(x, func(path string, info os.FileInfo, err error) error {
				if err != nil || info.IsDir() {
					return nil
				}
				b := filepath.Base(path)
				if path != x && !all && (b[0] == '.' || b[0] == '_') {
					return nil
				}
				rel, _ := filepath.Rel(dir, path)
				if !seen[rel] {
					seen[rel] = true
					data, err := os.ReadFile(path)
					if err == nil {
						fs = append(fs, embedFile{rel, string(data)})
					}
				}
				return nil
			})
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].name < fs[j].name })
	return fs
}

func (m *Machine) strSlice(ss []V) V {
	o := m.newObj(len(ss))
	copy(o.cells, ss)
	return V{o: &SliceV{obj: o, len: len(ss), cap: len(ss)}}
}

// errNew makes an error through errors.New.
func (m *Machine) errNew(g *G, fr *frame, msg string) V {
	return m.callFunc(g, fr, "errors", "New", vStr(msg))
}

// pathErr makes a *fs.PathError.
func (m *Machine) pathErr(g *G, fr *frame, op, path, errName string) V {
	sp := m.p.pkgs["io/fs"]
	t := sp.Type("PathError").Type()
	o := m.newObj(rtypeOf(t).n)
	o.cells[0] = vStr(op)
	o.cells[1] = vStr(path)
	fg := sp.Members[errName].(*ssa.Global)
	o.cells[2] = m.global(m.p.globals[fg]).cells[0]
	return V{o: &Iface{t: rtypeOf(types.NewPointer(t)), v: V{o: o}}}
}

// hostFile is the state of an interpreted *os.File.
type hostFile struct {
	kind int // 0 stdin 1 stdout 2 stderr 3 file read 4 file write
	name string
	pos  int

	appends bool
}

// cliState is the simulated process environment.
type cliState struct {
	stdin  []V
	stdout []V
	stderr []V
	files  map[string][]V
	wpos   map[*hostFile]int
	depth  int
	exit   int
}

func (m *Machine) cliOf() *cliState {
	if m.cli == nil {
		m.cli = &cliState{files: map[string][]V{}}
	}
	return m.cli
}

func (m *Machine) fileOf(fr *frame, p V) *hostFile {
	o, i := m.ptrObj(fr, p)
	f, _ := o.cells[i].o.(*hostFile)
	if f == nil {
		panic(unsupported("operation on an unknown file"))
	}
	return f
}

func (m *Machine) fileWrite(g *G, fr *frame, f *hostFile, cells []V) V {
	c := m.cliOf()
	cp := append([]V(nil), cells...)
	switch f.kind {
	case 1:
		c.stdout = append(c.stdout, cp...)
	case 2:
		c.stderr = append(c.stderr, cp...)
	case 4:
		d := c.files[f.name]
		if c.wpos == nil {
			c.wpos = map[*hostFile]int{}
		}
		at := c.wpos[f]
		if f.appends {
			at = len(d)
		}
		n := append([]V{}, d[:min(at, len(d))]...)
		n = append(n, cp...)
		if len(n) < len(d) {
			n = append(n, d[len(n):]...)
		}
		c.files[f.name] = n
		c.wpos[f] = at + len(cp)
	default:
		return V{o: tuple{vInt(0), m.errNew(g, fr, "bad file descriptor")}}
	}
	return V{o: tuple{vInt(len(cells)), V{}}}
}

func sliceCells(v V) []V {
	s, _ := v.o.(*SliceV)
	if s == nil {
		return nil
	}
	return s.obj.cells[s.off : s.off+s.len]
}

func (m *Machine) readCells(g *G, fr *frame, f *hostFile) ([]V, bool) {
	c := m.cliOf()
	switch f.kind {
	case 0:
		return c.stdin, true
	case 3:
		d, ok := c.files[f.name]
		return d, ok
	}
	return nil, false
}

func init() {
	regBig()
	I := intrinsics
	// --- sync ---
	lock := func(m *Machine, g *G, fr *frame, a []V) V {
		o, i := m.ptrObj(fr, a[0])
		m.yield(g, "lock")
		m.block(g, "mutex lock", func() bool { return o.cells[i].u == 0 })
		m.rawStore(o, i, V{u: 1})
		m.hbAcq(g, o, i)
		return V{}
	}
	I["(*sync.Mutex).Lock"] = lock
	I["(*internal/sync.Mutex).Lock"] = lock
	trylock := func(m *Machine, g *G, fr *frame, a []V) V {
		o, i := m.ptrObj(fr, a[0])
		m.yield(g, "trylock")
		if o.cells[i].u != 0 {
			return vBool(false)
		}
		m.rawStore(o, i, V{u: 1})
		m.hbAcq(g, o, i)
		return vBool(true)
	}
	I["(*sync.Mutex).TryLock"] = trylock
	I["(*internal/sync.Mutex).TryLock"] = trylock
	unlock := func(m *Machine, g *G, fr *frame, a []V) V {
		o, i := m.ptrObj(fr, a[0])
		if o.cells[i].u == 0 {
			panic(&pathEnd{"violation", "fatal error: sync: unlock of unlocked mutex"})
		}
		m.hbRel(g, o, i)
		m.rawStore(o, i, V{})
		m.yield(g, "unlock")
		return V{}
	}
	I["(*sync.Mutex).Unlock"] = unlock
	I["(*internal/sync.Mutex).Unlock"] = unlock
	// RWMutex: cell 0 writer, cell 2 readers
	I["(*sync.RWMutex).Lock"] = func(m *Machine, g *G, fr *frame, a []V) V {
		o, i := m.ptrObj(fr, a[0])
		m.yield(g, "lock")
		m.block(g, "rwmutex lock", func() bool { return o.cells[i].u == 0 && o.cells[i+2].u == 0 })
		m.rawStore(o, i, V{u: 1})
		m.hbAcq(g, o, i)
		m.hbAcq(g, o, i+2)
		return V{}
	}
	I["(*sync.RWMutex).Unlock"] = func(m *Machine, g *G, fr *frame, a []V) V {
		o, i := m.ptrObj(fr, a[0])
		if o.cells[i].u == 0 {
			panic(&pathEnd{"violation", "fatal error: sync: Unlock of unlocked RWMutex"})
		}
		m.hbRel(g, o, i)
		m.rawStore(o, i, V{})
		m.yield(g, "unlock")
		return V{}
	}
	I["(*sync.RWMutex).RLock"] = func(m *Machine, g *G, fr *frame, a []V) V {
		o, i := m.ptrObj(fr, a[0])
		m.yield(g, "rlock")
		m.block(g, "rwmutex rlock", func() bool { return o.cells[i].u == 0 })
		m.rawStore(o, i+2, V{u: o.cells[i+2].u + 1})
		m.hbAcq(g, o, i)
		return V{}
	}
	I["(*sync.RWMutex).RUnlock"] = func(m *Machine, g *G, fr *frame, a []V) V {
		o, i := m.ptrObj(fr, a[0])
		if o.cells[i+2].u == 0 {
			panic(&pathEnd{"violation", "fatal error: sync: RUnlock of unlocked RWMutex"})
		}
		m.hbRel(g, o, i+2)
		m.rawStore(o, i+2, V{u: o.cells[i+2].u - 1})
		m.yield(g, "runlock")
		return V{}
	}
	wgAdd := func(m *Machine, g *G, fr *frame, p V, n int64) {
		o, i := m.ptrObj(fr, p)
		c := int64(o.cells[i].u) + n
		if c < 0 {
			g.strPanic("sync: negative WaitGroup counter")
		}
		if n < 0 {
			m.hbRel(g, o, i)
		}
		m.rawStore(o, i, V{u: uint64(c)})
		m.yield(g, "waitgroup")
	}
	I["(*sync.WaitGroup).Add"] = func(m *Machine, g *G, fr *frame, a []V) V {
		wgAdd(m, g, fr, a[0], int64(m.concInt(a[1], rtInt)))
		return V{}
	}
	I["(*sync.WaitGroup).Done"] = func(m *Machine, g *G, fr *frame, a []V) V {
		wgAdd(m, g, fr, a[0], -1)
		return V{}
	}
	I["(*sync.WaitGroup).Wait"] = func(m *Machine, g *G, fr *frame, a []V) V {
		o, i := m.ptrObj(fr, a[0])
		m.yield(g, "wait")
		m.block(g, "waitgroup wait", func() bool { return o.cells[i].u == 0 })
		m.hbAcq(g, o, i)
		return V{}
	}
	I["(*sync.Pool).Get"] = func(m *Machine, g *G, fr *frame, a []V) V {
		o, i := m.ptrObj(fr, a[0])
		if st, ok := o.cells[i].o.(*poolState); ok && st != nil {
			m.hbAcq(g, o, i)
			v := st.v
			if st.next == nil {
				m.rawStore(o, i, V{})
			} else {
				m.rawStore(o, i, V{o: st.next})
			}
			return v
		}
		pt := rtypeOf(m.p.pkgs["sync"].Type("Pool").Type())
		nf := o.cells[i+pt.n-1]
		if nf.o == nil {
			return V{}
		}
		return m.call(g, fr, nf)
	}
	I["(*sync.Pool).Put"] = func(m *Machine, g *G, fr *frame, a []V) V {
		o, i := m.ptrObj(fr, a[0])
		if a[1].o == nil {
			return V{}
		}
		st, _ := o.cells[i].o.(*poolState)
		m.hbRel(g, o, i)
		m.rawStore(o, i, V{o: &poolState{v: a[1], next: st}})
		return V{}
	}
	// sync.Map keeps an interpreted map in its first slot
	smap := func(m *Machine, fr *frame, p V) (*MapObj, *Obj, int) {
		o, i := m.ptrObj(fr, p)
		mp, _ := o.cells[i].o.(*MapObj)
		if mp == nil {
			at := rtypeOf(types.Universe.Lookup("any").Type())
			mp = m.newMap(at, at)
			m.rawStore(o, i, V{o: mp})
		}
		return mp, o, i
	}
	smop := func(f func(m *Machine, g *G, fr *frame, mp *MapObj, a []V) V) intrinsic {
		return func(m *Machine, g *G, fr *frame, a []V) V {
			m.yield(g, "sync.Map")
			mp, o, i := smap(m, fr, a[0])
			m.hbAcq(g, o, i)
			on := m.raceOn
			m.raceOn = false
			var r V
			func() {
				defer func() { m.raceOn = on }()
				r = f(m, g, fr, mp, a)
			}()
			m.hbRel(g, o, i)
			return r
		}
	}
	I["(*sync.Map).Load"] = smop(func(m *Machine, g *G, fr *frame, mp *MapObj, a []V) V {
		v, ok := m.mapGet(fr, mp, a[1])
		return V{o: tuple{v, vBool(ok)}}
	})
	I["(*sync.Map).Store"] = smop(func(m *Machine, g *G, fr *frame, mp *MapObj, a []V) V {
		m.mapSet(fr, mp, a[1], a[2])
		return V{}
	})
	I["(*sync.Map).LoadOrStore"] = smop(func(m *Machine, g *G, fr *frame, mp *MapObj, a []V) V {
		v, ok := m.mapGet(fr, mp, a[1])
		if !ok {
			m.mapSet(fr, mp, a[1], a[2])
			v = a[2]
		}
		return V{o: tuple{v, vBool(ok)}}
	})
	I["(*sync.Map).Delete"] = smop(func(m *Machine, g *G, fr *frame, mp *MapObj, a []V) V {
		m.mapDelete(fr, mp, a[1])
		return V{}
	})
	I["(*sync.Map).Range"] = func(m *Machine, g *G, fr *frame, a []V) V {
		mp, _, _ := smap(m, fr, a[0])
		for _, e := range append([]*mapEntry(nil), mp.entries...) {
			if e.dead {
				continue
			}
			if !m.decide(m.call(g, fr, a[1], e.k, e.v)) {
				break
			}
		}
		return V{}
	}
	for _, n := range []string{"runtime_registerPoolCleanup", "runtime_notifyListCheck"} {
		I["sync."+n] = constV(V{})
	}
	I["sync.fatal"] = func(m *Machine, g *G, fr *frame, a []V) V {
		panic(&pathEnd{"violation", "fatal error: " + m.goString(a[0])})
	}
	I["sync.throw"] = I["sync.fatal"]

	// --- atomics ---
	type at struct {
		n string
		t *RType
	}
	for _, x := range []at{{"Int32", rtInt32}, {"Int64", rtInt}, {"Uint32", rtypeOf(types.Typ[types.Uint32])}, {"Uint64", rtUint64}, {"Uintptr", rtUint64}, {"Pointer", nil}} {
		t := x.t
		yl := func(m *Machine, g *G, fr *frame, p V) (*Obj, int) {
			o, i := m.ptrObj(fr, p)
			m.yield(g, "atomic")
			return o, i
		}
		I["sync/atomic.Load"+x.n] = func(m *Machine, g *G, fr *frame, a []V) V {
			o, i := yl(m, g, fr, a[0])
			m.hbAcq(g, o, i)
			return o.cells[i]
		}
		I["sync/atomic.Store"+x.n] = func(m *Machine, g *G, fr *frame, a []V) V {
			o, i := yl(m, g, fr, a[0])
			m.hbAcq(g, o, i)
			m.hbRel(g, o, i)
			m.rawStore(o, i, a[1])
			return V{}
		}
		I["sync/atomic.Swap"+x.n] = func(m *Machine, g *G, fr *frame, a []V) V {
			o, i := yl(m, g, fr, a[0])
			m.hbAcq(g, o, i)
			m.hbRel(g, o, i)
			old := o.cells[i]
			m.rawStore(o, i, a[1])
			return old
		}
		I["sync/atomic.CompareAndSwap"+x.n] = func(m *Machine, g *G, fr *frame, a []V) V {
			o, i := yl(m, g, fr, a[0])
			m.hbAcq(g, o, i)
			var eq V
			if t == nil {
				eq = vBool(o.cells[i] == a[1])
			} else {
				eq = m.equal(fr, t, o.cells[i], a[1])
			}
			if m.decide(eq) {
				m.hbRel(g, o, i)
				m.rawStore(o, i, a[2])
				return vBool(true)
			}
			return vBool(false)
		}
		if t == nil {
			continue
		}
		rmw := func(op Op, ret bool) intrinsic {
			return func(m *Machine, g *G, fr *frame, a []V) V {
				o, i := yl(m, g, fr, a[0])
				m.hbAcq(g, o, i)
				m.hbRel(g, o, i)
				old := o.cells[i]
				nv := m.symBin(op, old, a[1], t)
				m.rawStore(o, i, nv)
				if ret {
					return nv
				}
				return old
			}
		}
		I["sync/atomic.Add"+x.n] = rmw(OpAdd, true)
		I["sync/atomic.And"+x.n] = rmw(OpBAnd, false)
		I["sync/atomic.Or"+x.n] = rmw(OpBOr, false)
	}
	I["(*sync/atomic.Value).Load"] = I["sync/atomic.LoadPointer"]
	I["(*sync/atomic.Value).Store"] = I["sync/atomic.StorePointer"]
	I["(*sync/atomic.Value).Swap"] = I["sync/atomic.SwapPointer"]

	// --- runtime ---
	I["runtime.NumCPU"] = func(m *Machine, g *G, fr *frame, a []V) V { return vInt(m.cfg.numCPU) }
	I["runtime.GOMAXPROCS"] = I["runtime.NumCPU"]
	I["runtime.NumGoroutine"] = func(m *Machine, g *G, fr *frame, a []V) V {
		n := 0
		for _, x := range m.gs {
			if !x.done {
				n++
			}
		}
		return vInt(n)
	}
	I["runtime.Gosched"] = func(m *Machine, g *G, fr *frame, a []V) V { m.yield(g, "gosched"); return V{} }
	for _, n := range []string{"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "runtime.LockOSThread", "runtime.UnlockOSThread", "runtime/debug.SetGCPercent"} {
		I[n] = constV(V{})
	}
	I["runtime.Caller"] = constV(V{o: tuple{V{}, V{}, V{}, V{}}})
	I["runtime.Callers"] = constV(V{})
	I["runtime/debug.Stack"] = constV(V{})
	I["internal/race.Enabled"] = constV(V{})

	// --- time ---
	timeN := func() int { return 3 }
	I["time.Now"] = func(m *Machine, g *G, fr *frame, a []V) V {
		m.clock++
		v := make(agg, timeN())
		v[1] = V{u: uint64(62135596800 + 1700000000 + m.clock)}
		return V{o: v}
	}
	I["time.runtimeNano"] = func(m *Machine, g *G, fr *frame, a []V) V { m.clock++; return vInt(int(m.clock)) }
	I["time.Since"] = constV(V{u: 1000})
	I["time.Until"] = constV(V{})
	I["time.Sleep"] = func(m *Machine, g *G, fr *frame, a []V) V { m.yield(g, "sleep"); return V{} }

	// --- math ---
	id := func(m *Machine, g *G, fr *frame, a []V) V { return a[0] }
	for _, n := range []string{"math.Float64bits", "math.Float64frombits", "internal/abi.NoEscape", "internal/abi.Escape", "strings.Clone"} {
		I[n] = id
	}
	genericIntrinsics["internal/abi.Escape"] = func(fn *ssa.Function) intrinsic { return id }
	I["math.Float32bits"] = func(m *Machine, g *G, fr *frame, a []V) V {
		return V{u: uint64(math.Float32bits(float32(f64(a[0]))))}
	}
	I["math.Float32frombits"] = func(m *Machine, g *G, fr *frame, a []V) V {
		return vF(float64(math.Float32frombits(uint32(a[0].u))), 32)
	}
	for n, f := range map[string]func(float64) float64{"Sqrt": math.Sqrt, "Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Exp": math.Exp, "Exp2": math.Exp2, "Abs": math.Abs, "Round": math.Round, "sqrt": math.Sqrt, "floor": math.Floor, "ceil": math.Ceil, "trunc": math.Trunc, "log": math.Log} {
		f := f
		h := func(m *Machine, g *G, fr *frame, a []V) V { return vF(f(f64(a[0])), 64) }
		I["math."+n] = h
		I["math.arch"+strings.ToUpper(n[:1])+n[1:]] = h
	}

	// --- assembly byte routines ---
	I["internal/bytealg.IndexByteString"] = func(m *Machine, g *G, fr *frame, a []V) V {
		s := m.forceStr(a[0])
		if c, ok := s.o.(string); ok && a[1].o == nil {
			return vInt(strings.IndexByte(c, byte(a[1].u)))
		}
		return m.indexByte(fr, strCells(s), a[1])
	}
	I["internal/bytealg.IndexByte"] = func(m *Machine, g *G, fr *frame, a []V) V {
		return m.indexByte(fr, m.cellsRead(fr, a[0]), a[1])
	}
	lastIdx := func(m *Machine, fr *frame, cells []V, c V) V {
		for i := len(cells) - 1; i >= 0; i-- {
			if m.decide(m.equal(fr, rtUint8, cells[i], c)) {
				return vInt(i)
			}
		}
		return vInt(-1)
	}
	I["internal/bytealg.LastIndexByteString"] = func(m *Machine, g *G, fr *frame, a []V) V {
		return lastIdx(m, fr, strCells(m.forceStr(a[0])), a[1])
	}
	I["internal/bytealg.LastIndexByte"] = func(m *Machine, g *G, fr *frame, a []V) V {
		return lastIdx(m, fr, m.cellsRead(fr, a[0]), a[1])
	}
	count := func(m *Machine, fr *frame, cells []V, c V) V {
		n := 0
		for _, x := range cells {
			if m.decide(m.equal(fr, rtUint8, x, c)) {
				n++
			}
		}
		return vInt(n)
	}
	I["internal/bytealg.CountString"] = func(m *Machine, g *G, fr *frame, a []V) V {
		return count(m, fr, strCells(m.forceStr(a[0])), a[1])
	}
	I["internal/bytealg.Count"] = func(m *Machine, g *G, fr *frame, a []V) V {
		return count(m, fr, m.cellsRead(fr, a[0]), a[1])
	}
	I["internal/bytealg.IndexString"] = func(m *Machine, g *G, fr *frame, a []V) V { return m.indexStr(fr, a[0], a[1]) }
	I["strings.Index"] = I["internal/bytealg.IndexString"]
	I["internal/stringslite.Index"] = I["internal/bytealg.IndexString"]
	I["internal/bytealg.Index"] = func(m *Machine, g *G, fr *frame, a []V) V {
		return m.indexStr(fr, m.mkStr(m.cellsRead(fr, a[0])), m.mkStr(m.cellsRead(fr, a[1])))
	}
	I["bytes.Index"] = I["internal/bytealg.Index"]
	I["internal/bytealg.Equal"] = func(m *Machine, g *G, fr *frame, a []V) V {
		return m.strEq(m.mkStr(m.cellsRead(fr, a[0])), m.mkStr(m.cellsRead(fr, a[1])))
	}
	I["bytes.Equal"] = I["internal/bytealg.Equal"]
	cmp := func(m *Machine, x, y V) V {
		if m.decide(m.strEq(x, y)) {
			return vInt(0)
		}
		if m.decide(m.strLess(x, y, false)) {
			return vInt(-1)
		}
		return vInt(1)
	}
	I["internal/bytealg.CompareString"] = func(m *Machine, g *G, fr *frame, a []V) V { return cmp(m, a[0], a[1]) }
	I["strings.Compare"] = I["internal/bytealg.CompareString"]
	I["internal/bytealg.Compare"] = func(m *Machine, g *G, fr *frame, a []V) V {
		return cmp(m, m.mkStr(m.cellsRead(fr, a[0])), m.mkStr(m.cellsRead(fr, a[1])))
	}
	I["bytes.Compare"] = I["internal/bytealg.Compare"]
	I["internal/bytealg.MakeNoZero"] = func(m *Machine, g *G, fr *frame, a []V) V {
		n := int(m.concInt(a[0], rtInt))
		if n > 1<<22 {
			panic(limitEnd("allocation of %d bytes", n))
		}
		return V{o: &SliceV{obj: m.newObj(n), len: n, cap: n}}
	}

	// --- errors, sort ---
	I["errors.Is"] = func(m *Machine, g *G, fr *frame, a []V) V { return vBool(m.errorsIs(g, fr, a[0], a[1])) }
	I["errors.As"] = func(m *Machine, g *G, fr *frame, a []V) V { return m.errorsAs(g, fr, a[0], a[1]) }
	sorter := func(fn string, lim bool) intrinsic {
		return func(m *Machine, g *G, fr *frame, a []V) V {
			it := a[0].o.(*Iface)
			s, _ := it.v.o.(*SliceV)
			if s == nil {
				return V{}
			}
			et := it.t.elem()
			sw := V{o: &Closure{nname: "swap", native: func(m *Machine, g *G, args []V) V {
				i, j := int(m.concInt(args[0], rtInt)), int(m.concInt(args[1], rtInt))
				for k := 0; k < et.n; k++ {
					x, y := s.off+i*et.n+k, s.off+j*et.n+k
					vx, vy := s.obj.cells[x], s.obj.cells[y]
					m.storeAt(fr, s.obj, x, vy)
					m.storeAt(fr, s.obj, y, vx)
				}
				return V{}
			}}}
			ls := V{o: agg{a[1], sw}}
			if lim {
				n := 0
				for l := s.len; l > 0; l >>= 1 {
					n++
				}
				return m.callFunc(g, fr, "sort", fn, ls, vInt(0), vInt(s.len), vInt(n))
			}
			return m.callFunc(g, fr, "sort", fn, ls, vInt(s.len))
		}
	}
	I["sort.Slice"] = sorter("pdqsort_func", true)
	I["sort.SliceStable"] = sorter("stable_func", false)
	I["sort.SliceIsSorted"] = func(m *Machine, g *G, fr *frame, a []V) V {
		s, _ := a[0].o.(*Iface).v.o.(*SliceV)
		if s == nil {
			return vBool(true)
		}
		for i := s.len - 1; i > 0; i-- {
			if m.decide(m.call(g, fr, a[1], vInt(i), vInt(i-1))) {
				return vBool(false)
			}
		}
		return vBool(true)
	}

	// --- misc ---
	I["(*internal/godebug.Setting).Value"] = constV(V{})
	I["(*internal/godebug.Setting).IncNonDefault"] = constV(V{})
	I["(*internal/godebug.Setting).Name"] = constV(V{})
	I["internal/godebug.New"] = func(m *Machine, g *G, fr *frame, a []V) V {
		return V{o: m.newObj(rtypeOf(m.p.pkgs["internal/godebug"].Type("Setting").Type()).n)}
	}
	I["github.com/mmcloughlin/profile.Start"] = func(m *Machine, g *G, fr *frame, a []V) V {
		t := m.p.pkgs["github.com/mmcloughlin/profile"].Type("Profile")
		return V{o: m.newObj(rtypeOf(t.Type()).n)}
	}
	I["github.com/mmcloughlin/profile.New"] = I["github.com/mmcloughlin/profile.Start"]
	for _, n := range []string{"(*github.com/mmcloughlin/profile.Profile).Stop", "(*github.com/mmcloughlin/profile.Profile).SetFlags", "(*github.com/mmcloughlin/profile.Profile).Start"} {
		n := n
		I[n] = func(m *Machine, g *G, fr *frame, a []V) V {
			if strings.HasSuffix(n, ".Start") {
				return a[0]
			}
			return V{}
		}
	}
	for _, n := range []string{"AllowMemory", "CPUProfile", "Config"} {
		I["github.com/mmcloughlin/profile."+n] = constV(V{})
	}
	I["github.com/mmcloughlin/profile.WithLogger"] = func(m *Machine, g *G, fr *frame, a []V) V {
		return V{o: &Closure{nname: "profile option", native: func(m *Machine, g *G, args []V) V { return V{} }}}
	}

	// --- math/rand: an arbitrary fixed stream ---
	I["math/rand.runtime_rand"] = func(m *Machine, g *G, fr *frame, a []V) V {
		m.clock++
		return V{u: uint64(m.clock) * 0x9e3779b97f4a7c15}
	}

	// --- os ---
	I["os.Exit"] = func(m *Machine, g *G, fr *frame, a []V) V {
		c := m.cliOf()
		if c.depth == 0 || g != m.path.mainG {
			panic(unsupported("os.Exit outside the command line driver"))
		}
		c.exit = int(int32(m.concInt(a[0], rtInt)))
		panic(&pathEnd{"exit", ""})
	}
	I["os.Getenv"] = constV(V{})
	I["github.com/mmcloughlin/profile.ConfigEnvVar"] = constV(V{})
	I["os.LookupEnv"] = constV(V{o: tuple{V{}, V{}}})
	I["os.runtime_args"] = constV(V{})
	I["(*os.File).Write"] = func(m *Machine, g *G, fr *frame, a []V) V {
		return m.fileWrite(g, fr, m.fileOf(fr, a[0]), m.cellsRead(fr, a[1]))
	}
	I["(*os.File).WriteString"] = func(m *Machine, g *G, fr *frame, a []V) V {
		return m.fileWrite(g, fr, m.fileOf(fr, a[0]), strCells(m.forceStr(a[1])))
	}
	I["(*os.File).ReadFrom"] = func(m *Machine, g *G, fr *frame, a []V) V { panic(unsupported("File.ReadFrom")) }
	I["(*os.File).Name"] = func(m *Machine, g *G, fr *frame, a []V) V { return vStr(m.fileOf(fr, a[0]).name) }
	I["(*os.File).Close"] = constV(V{})
	I["(*os.File).Sync"] = constV(V{})
	I["(*os.File).Read"] = func(m *Machine, g *G, fr *frame, a []V) V {
		f := m.fileOf(fr, a[0])
		d, ok := m.readCells(g, fr, f)
		if !ok {
			return V{o: tuple{vInt(0), m.errNew(g, fr, "bad file descriptor")}}
		}
		dst, _ := a[1].o.(*SliceV)
		if dst == nil || dst.len == 0 {
			return V{o: tuple{vInt(0), V{}}}
		}
		if f.pos >= len(d) {
			eof := m.p.pkgs["io"].Members["EOF"].(*ssa.Global)
			return V{o: tuple{vInt(0), m.global(m.p.globals[eof]).cells[0]}}
		}
		n := min(dst.len, len(d)-f.pos)
		for i := 0; i < n; i++ {
			m.storeAt(fr, dst.obj, dst.off+i, d[f.pos+i])
		}
		// the position is per-path state: replace the slot
		o, i := m.ptrObj(fr, a[0])
		m.rawStore(o, i, V{o: &hostFile{kind: f.kind, name: f.name, pos: f.pos + n}})
		return V{o: tuple{vInt(n), V{}}}
	}
	open := func(m *Machine, g *G, fr *frame, name string, write bool) V {
		c := m.cliOf()
		if write && noDir(name) {
			return V{o: tuple{V{}, m.pathErr(g, fr, "open", name, "ErrNotExist")}}
		}
		if write {
			c.files[name] = []V{}
		} else if _, ok := c.files[name]; !ok {
			return V{o: tuple{V{}, m.pathErr(g, fr, "open", name, "ErrNotExist")}}
		}
		k := 3
		if write {
			k = 4
		}
		o := m.newObj(1)
		o.cells[0] = V{o: &hostFile{kind: k, name: name}}
		return V{o: tuple{V{o: o}, V{}}}
	}
	I["os.Open"] = func(m *Machine, g *G, fr *frame, a []V) V { return open(m, g, fr, m.goString(a[0]), false) }
	I["os.Create"] = func(m *Machine, g *G, fr *frame, a []V) V { return open(m, g, fr, m.goString(a[0]), true) }
	I["os.OpenFile"] = func(m *Machine, g *G, fr *frame, a []V) V {
		c := m.cliOf()
		name := m.goString(a[0])
		flag := int(int64(m.concInt(a[1], rtInt)))
		_, exists := c.files[name]
		if !exists && flag&os.O_CREATE == 0 {
			return V{o: tuple{V{}, m.pathErr(g, fr, "open", name, "ErrNotExist")}}
		}
		if exists && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return V{o: tuple{V{}, m.pathErr(g, fr, "open", name, "ErrExist")}}
		}
		if !exists && noDir(name) {
			return V{o: tuple{V{}, m.pathErr(g, fr, "open", name, "ErrNotExist")}}
		}
		if !exists || flag&os.O_TRUNC != 0 {
			c.files[name] = []V{}
		}
		k := 3
		switch flag & 3 {
		case os.O_WRONLY:
			k = 4
		case os.O_RDWR:
			panic(unsupported("os.OpenFile for reading and writing"))
		}
		o := m.newObj(1)
		o.cells[0] = V{o: &hostFile{kind: k, name: name, appends: flag&os.O_APPEND != 0}}
		return V{o: tuple{V{o: o}, V{}}}
	}
	I["os.ReadFile"] = func(m *Machine, g *G, fr *frame, a []V) V {
		name := m.goString(a[0])
		d, ok := m.cliOf().files[name]
		if !ok {
			return V{o: tuple{V{}, m.pathErr(g, fr, "open", name, "ErrNotExist")}}
		}
		o := m.newObj(len(d))
		copy(o.cells, d)
		return V{o: tuple{V{o: &SliceV{obj: o, len: len(d), cap: len(d)}}, V{}}}
	}
	I["os.WriteFile"] = func(m *Machine, g *G, fr *frame, a []V) V {
		if name := m.goString(a[0]); noDir(name) {
			return m.pathErr(g, fr, "open", name, "ErrNotExist")
		}
		m.cliOf().files[m.goString(a[0])] = append([]V(nil), m.cellsRead(fr, a[1])...)
		return V{}
	}
	// embed.FS
	efs := func(v V) *embedFS {
		if a, ok := v.o.(agg); ok {
			v = a[0]
		}
		f, _ := v.o.(*embedFS)
		if f == nil {
			f = &embedFS{}
		}
		return f
	}
	I["(embed.FS).ReadFile"] = func(m *Machine, g *G, fr *frame, a []V) V {
		name := m.goString(a[1])
		for _, f := range efs(a[0]).files {
			if f.name == name {
				return V{o: tuple{m.strToBytes(vStr(f.data)), V{}}}
			}
		}
		return V{o: tuple{V{}, m.pathErr(g, fr, "open", name, "ErrNotExist")}}
	}
	I["(embed.FS).ReadDir"] = func(m *Machine, g *G, fr *frame, a []V) V {
		name := m.goString(a[1])
		t := m.p.pkgs["embed"].Type("file").Type()
		pt := rtypeOf(types.NewPointer(t))
		rt := rtypeOf(t)
		var out []V
		seen := map[string]bool{}
		for _, f := range efs(a[0]).files {
			rel := f.name
			if name != "." {
				r, ok := strings.CutPrefix(f.name, name+"/")
				if !ok {
					continue
				}
				rel = r
			}
			base, _, isDir := strings.Cut(rel, "/")
			if seen[base] {
				continue
			}
			seen[base] = true
			o := m.newObj(rt.n)
			full := base
			if name != "." {
				full = name + "/" + base
			}
			if isDir {
				full += "/"
			} else {
				o.cells[1] = vStr(f.data)
			}
			o.cells[0] = vStr(full)
			out = append(out, V{o: &Iface{t: pt, v: V{o: o}}})
		}
		return V{o: tuple{m.strSlice(out), V{}}}
	}
	I["flag.isZeroValue"] = func(m *Machine, g *G, fr *frame, a []V) V {
		s := m.goString(a[1])
		return V{o: tuple{vBool(s == "" || s == "0" || s == "false"), V{}}}
	}
	I["net/url.init"] = nil
	delete(I, "net/url.init")
}

type poolState struct {
	v    V
	next *poolState
}

func (m *Machine) cellsRead(fr *frame, v V) []V {
	s, _ := v.o.(*SliceV)
	if s == nil {
		return nil
	}
	if s.obj.race != nil {
		for i := 0; i < s.len; i++ {
			m.noteLoad(fr, s.obj, s.off+i)
		}
	}
	return s.obj.cells[s.off : s.off+s.len]
}

func (m *Machine) indexByte(fr *frame, cells []V, c V) V {
	for i, x := range cells {
		if m.decide(m.equal(fr, rtUint8, x, c)) {
			return vInt(i)
		}
	}
	return vInt(-1)
}

func (m *Machine) indexStr(fr *frame, s, sub V) V {
	s, sub = m.forceStr(s), m.forceStr(sub)
	x, ok1 := s.o.(string)
	y, ok2 := sub.o.(string)
	if (ok1 || s.o == nil) && (ok2 || sub.o == nil) {
		return vInt(strings.Index(x, y))
	}
	n, k := strLen(s), strLen(sub)
	for i := 0; i+k <= n; i++ {
		if m.decide(m.strEq(strSub(s, i, i+k), sub)) {
			return vInt(i)
		}
	}
	return vInt(-1)
}

func (m *Machine) hasMethod(t *RType, name string) bool {
	ms := m.p.prog.MethodSets.MethodSet(t.t)
	return ms.Lookup(nil, name) != nil
}

func comparable_(t *RType) bool { return types.Comparable(t.t) }

func (m *Machine) errorsIs(g *G, fr *frame, err, target V) bool {
	te, _ := target.o.(*Iface)
	e, _ := err.o.(*Iface)
	if e == nil || te == nil {
		return e == nil && te == nil
	}
	cmp := comparable_(te.t)
	for {
		if cmp && e.t == te.t && m.decide(m.equal(fr, e.t, e.v, te.v)) {
			return true
		}
		if m.hasMethod(e.t, "Is") {
			if m.decide(m.callMethod(g, fr, e, nil, "Is", target)) {
				return true
			}
		}
		if !m.hasMethod(e.t, "Unwrap") {
			return false
		}
		r := m.callMethod(g, fr, e, nil, "Unwrap")
		if s, ok := r.o.(*SliceV); ok {
			for i := 0; i < s.len; i++ {
				if m.errorsIs(g, fr, s.obj.cells[s.off+i], target) {
					return true
				}
			}
			return false
		}
		e, _ = r.o.(*Iface)
		if e == nil {
			return false
		}
	}
}

func (m *Machine) errorsAs(g *G, fr *frame, err, target V) V {
	e, _ := err.o.(*Iface)
	if e == nil {
		return vBool(false)
	}
	tg, _ := target.o.(*Iface)
	if tg == nil {
		g.strPanic("errors: target cannot be nil")
	}
	tt := tg.t.elem()
	for {
		match := e.t == tt
		if tt.kind == KIface {
			match = m.implements(e.t, tt)
		}
		if match {
			o, i := m.ptrObj(fr, tg.v)
			if tt.kind == KIface {
				m.storeAt(fr, o, i, V{o: e})
			} else if tt.agg() {
				for k, c := range e.v.o.(agg) {
					m.storeAt(fr, o, i+k, c)
				}
			} else {
				m.storeAt(fr, o, i, e.v)
			}
			return vBool(true)
		}
		if m.hasMethod(e.t, "As") && m.decide(m.callMethod(g, fr, e, nil, "As", target)) {
			return vBool(true)
		}
		if !m.hasMethod(e.t, "Unwrap") {
			return vBool(false)
		}
		r := m.callMethod(g, fr, e, nil, "Unwrap")
		if s, ok := r.o.(*SliceV); ok {
			for i := 0; i < s.len; i++ {
				if x := m.errorsAs(g, fr, s.obj.cells[s.off+i], target); x.u != 0 {
					return x
				}
			}
			return vBool(false)
		}
		e, _ = r.o.(*Iface)
		if e == nil {
			return vBool(false)
		}
	}
}

var _ = fmt.Sprint

func init() {
	intrinsics["fmt.Errorf"] = func(m *Machine, g *G, fr *frame, a []V) V {
		sym := false
		s, _ := a[1].o.(*SliceV)
		args := V{}
		if s != nil {
			o := m.newObj(s.len)
			for i := 0; i < s.len; i++ {
				c := s.obj.cells[s.off+i]
				if it, _ := c.o.(*Iface); it != nil {
					switch x := it.v.o.(type) {
					case *Term, *SymStr, *BigStr:
						sym = true
					case *Obj:
						if off := int(it.v.u); off < len(x.cells) {
							if b, ok := x.cells[off].o.(*Big); ok {
								if b.c == nil {
									sym = true
								}
								cp := m.newObj(1)
								cp.cells[0] = V{o: b}
								c = V{o: &Iface{it.t, V{o: cp}}}
							}
						}
						if strings.HasSuffix(types.TypeString(it.t.t, nil), "nd.lazyError") || strings.HasSuffix(types.TypeString(it.t.t, nil), "nd.lazyWrapError") {
							sym = true
						}
					}
				}
				o.cells[i] = c
			}
			args = V{o: &SliceV{obj: o, len: s.len, cap: s.len}}
		}
		return m.callFunc(g, fr, ndPath, "lazyErrorf", vBool(sym), a[0], args)
	}
}

// noDir reports a file in a directory the model's working directory lacks: it
// has no subdirectories.
func noDir(name string) bool { return strings.Contains(strings.TrimPrefix(name, "./"), "/") }
