package main

// Intrinsics of the harness package nd: symbolic inputs, assumptions, assertions.

import (
	"fmt"
	"math/big"
	"math/bits"
)

var ndIntrinsics = map[string]intrinsic{}

func init() {
	I := ndIntrinsics
	I["Int"] = func(m *Machine, g *G, fr *frame, a []V) V {
		name := m.goString(a[0])
		lo, hi := int64(a[1].u), int64(a[2].u)
		if a[1].o != nil || a[2].o != nil {
			panic(unsupported("nd.Int with symbolic bounds"))
		}
		if lo > hi {
			panic(&pathEnd{"assume", ""})
		}
		p := m.path
		if lo == hi {
			p.nds = append(p.nds, &ndVal{Name: name, Kind: "int", c: big.NewInt(lo)})
			return V{u: uint64(lo)}
		}
		r := uint64(hi) - uint64(lo)
		w := bits.Len64(r)
		t := p.newVar(w, 0, r, w)
		x := m.ts.Zext(t, 64)
		if r == ^uint64(0) {
			// all values: the variable itself
		} else if lo != 0 {
			x = m.ts.Add(x, m.ts.Const(64, uint64(lo)))
		}
		p.nds = append(p.nds, &ndVal{Name: name, Kind: "int", t: x, sgn: true})
		return m.vi(x, rtInt)
	}
	I["Uint64"] = func(m *Machine, g *G, fr *frame, a []V) V {
		p := m.path
		t := p.newVar(64, 0, ^uint64(0), 64)
		p.nds = append(p.nds, &ndVal{Name: m.goString(a[0]), Kind: "uint", t: t})
		return m.vi(t, rtUint64)
	}
	I["Byte"] = func(m *Machine, g *G, fr *frame, a []V) V {
		p := m.path
		t := p.newVar(8, 0, 255, 8)
		p.nds = append(p.nds, &ndVal{Name: m.goString(a[0]), Kind: "uint", t: t})
		return m.vi(t, rtUint8)
	}
	I["Bool"] = func(m *Machine, g *G, fr *frame, a []V) V {
		p := m.path
		t := p.newVar(0, 0, 1, 1)
		p.nds = append(p.nds, &ndVal{Name: m.goString(a[0]), Kind: "bool", t: t})
		return m.vb(t)
	}
	I["Big"] = func(m *Machine, g *G, fr *frame, a []V) V {
		p := m.path
		w := int(m.concInt(a[1], rtInt))
		name := m.goString(a[0])
		if w == 0 {
			p.nds = append(p.nds, &ndVal{Name: name, Kind: "big", c: new(big.Int)})
			return V{o: m.objOf(V{o: bigZ})}
		}
		hi := ^uint64(0)
		if w <= 64 {
			hi = mask64(w)
		}
		t := p.newVar(w, 0, hi, w)
		p.nds = append(p.nds, &ndVal{Name: name, Kind: "big", t: t})
		return V{o: m.objOf(V{o: m.mkBig(m.ts.Zext(t, w+1))})}
	}
	I["BigSigned"] = func(m *Machine, g *G, fr *frame, a []V) V {
		p := m.path
		w := int(m.concInt(a[1], rtInt))
		hi := ^uint64(0)
		if w <= 64 {
			hi = mask64(w)
		}
		t := p.newVar(w, 0, hi, w)
		p.nds = append(p.nds, &ndVal{Name: m.goString(a[0]), Kind: "big", t: t, sgn: true})
		return V{o: m.objOf(V{o: m.mkBig(t)})}
	}
	byteArr := func(m *Machine, fr *frame, a []V) []V {
		p := m.path
		n := int(m.concInt(a[1], rtInt))
		cells := make([]V, n)
		for i := range cells {
			cells[i] = V{o: p.newVar(8, 0, 255, 8)}
		}
		p.nds = append(p.nds, &ndVal{Name: m.goString(a[0]), Kind: "bytes", arr: append([]V(nil), cells...)})
		return cells
	}
	I["Bytes"] = func(m *Machine, g *G, fr *frame, a []V) V {
		c := byteArr(m, fr, a)
		return V{o: &SliceV{obj: &Obj{cells: c}, len: len(c), cap: len(c)}}
	}
	I["String"] = func(m *Machine, g *G, fr *frame, a []V) V {
		return m.mkStr(byteArr(m, fr, a))
	}
	I["Choose"] = func(m *Machine, g *G, fr *frame, a []V) V {
		n := int(m.concInt(a[1], rtInt))
		if n <= 0 {
			panic(&pathEnd{"assume", ""})
		}
		return vInt(m.path.choose(m.goString(a[0]), n))
	}
	I["Conc"] = func(m *Machine, g *G, fr *frame, a []V) V { return V{u: m.concInt(a[0], rtInt)} }
	I["ConcBig"] = func(m *Machine, g *G, fr *frame, a []V) V {
		return V{o: m.objOf(V{o: &Big{c: m.concBig(m.bigAt(fr, a[0]))}})}
	}
	I["ConcString"] = func(m *Machine, g *G, fr *frame, a []V) V { return m.concStr(a[0]) }
	I["Assume"] = func(m *Machine, g *G, fr *frame, a []V) V {
		m.assume(m.term(a[0], rtBool))
		return V{}
	}
	I["Assert"] = func(m *Machine, g *G, fr *frame, a []V) V {
		m.assert(m.term(a[0], rtBool), m.goString(a[1]))
		return V{}
	}
	I["Fail"] = func(m *Machine, g *G, fr *frame, a []V) V {
		m.path.violation(m.goString(a[0]), m.path.model)
		return V{}
	}
	I["Reach"] = func(m *Machine, g *G, fr *frame, a []V) V {
		m.path.reach[m.goString(a[0])] = true
		return V{}
	}
	I["Observe"] = func(m *Machine, g *G, fr *frame, a []V) V {
		m.path.obs = append(m.path.obs, obsVal{m.goString(a[0]), m.snapshot(fr, a[1], 0)})
		return V{}
	}
	red := func(op func(m *Machine, a, b V) V, unit V) intrinsic {
		return func(m *Machine, g *G, fr *frame, a []V) V {
			r := unit
			for _, c := range sliceCells(a[0]) {
				r = op(m, r, c)
			}
			return r
		}
	}
	I["And"] = red(func(m *Machine, a, b V) V { return m.and(a, b) }, vBool(true))
	I["Or"] = red(func(m *Machine, a, b V) V { return m.or(a, b) }, vBool(false))
	I["Not"] = func(m *Machine, g *G, fr *frame, a []V) V { return m.not(a[0]) }
	I["Implies"] = func(m *Machine, g *G, fr *frame, a []V) V { return m.or(m.not(a[0]), a[1]) }
	I["Iff"] = func(m *Machine, g *G, fr *frame, a []V) V { return m.equal(fr, rtBool, a[0], a[1]) }
	I["IteInt"] = func(m *Machine, g *G, fr *frame, a []V) V {
		if a[0].o == nil {
			if a[0].u != 0 {
				return a[1]
			}
			return a[2]
		}
		return m.vi(m.ts.Ite(a[0].o.(*Term), m.term(a[1], rtInt), m.term(a[2], rtInt)), rtInt)
	}
	I["IteBig"] = func(m *Machine, g *G, fr *frame, a []V) V {
		if a[0].o == nil {
			if a[0].u != 0 {
				return a[1]
			}
			return a[2]
		}
		x, y := m.two(m.bigAt(fr, a[1]), m.bigAt(fr, a[2]), 0)
		return V{o: m.objOf(V{o: m.mkBig(m.ts.Ite(a[0].o.(*Term), x, y))})}
	}
	I["EqBig"] = func(m *Machine, g *G, fr *frame, a []V) V {
		return m.vb(m.bigEqTerm(m.bigAt(fr, a[0]), m.bigAt(fr, a[1])))
	}
	I["LtBig"] = func(m *Machine, g *G, fr *frame, a []V) V {
		return m.vb(m.bigSlt(m.bigAt(fr, a[0]), m.bigAt(fr, a[1])))
	}
	I["EqBytes"] = func(m *Machine, g *G, fr *frame, a []V) V {
		return m.strEq(m.mkStr(sliceCells(a[0])), m.mkStr(sliceCells(a[1])))
	}
	I["EqString"] = func(m *Machine, g *G, fr *frame, a []V) V { return m.strEq(a[0], a[1]) }
	I["Must"] = func(m *Machine, g *G, fr *frame, a []V) V { return vBool(m.mustHold(m.term(a[0], rtBool))) }
	I["Param"] = func(m *Machine, g *G, fr *frame, a []V) V {
		n := m.goString(a[0])
		v, ok := m.cfg.params[n]
		if !ok {
			panic(unsupported("no parameter %s", n))
		}
		return vInt(v)
	}
	I["MapOrder"] = func(m *Machine, g *G, fr *frame, a []V) V {
		m.path.mapOrder = a[0].u != 0
		m.path.mapRanges = 0
		return V{}
	}
	I["Yield"] = func(m *Machine, g *G, fr *frame, a []V) V { m.yield(g, "yield"); return V{} }
	I["SetEnsemble"] = func(m *Machine, g *G, fr *frame, a []V) V { return V{} }
	I["WriteFile"] = func(m *Machine, g *G, fr *frame, a []V) V {
		m.files()[m.goString(a[0])] = append([]V{}, sliceCells(a[1])...)
		return V{}
	}
	I["ReadFile"] = func(m *Machine, g *G, fr *frame, a []V) V {
		d, ok := m.files()[m.goString(a[0])]
		o := m.newObj(len(d))
		copy(o.cells, d)
		return V{o: tuple{V{o: &SliceV{obj: o, len: len(d), cap: len(d)}}, vBool(ok)}}
	}
	I["Schedule"] = func(m *Machine, g *G, fr *frame, a []V) V { m.path.policy = int(a[0].u); return V{} }
	I["MapReverse"] = func(m *Machine, g *G, fr *frame, a []V) V { m.path.mapReverse = a[0].u != 0; return V{} }
	I["Path"] = func(m *Machine, g *G, fr *frame, a []V) V { return a[0] }
	I["RunCLI"] = func(m *Machine, g *G, fr *frame, a []V) V { return m.runCLI(g, fr, a) }
}

func (m *Machine) files() map[string][]V {
	return m.cliOf().files
}

// runCLI executes the real main function with a simulated process environment.
func (m *Machine) runCLI(g *G, fr *frame, a []V) V {
	sp := m.p.pkgs[modPath+"/cmd/addchain"]
	if sp == nil || sp.Func("main") == nil {
		panic(unsupported("command not loaded"))
	}
	mark := len(m.undo)
	c := m.cliOf()
	if c.depth > 0 {
		panic(unsupported("nested RunCLI"))
	}
	c.depth++
	c.stdin = append([]V(nil), sliceCells(a[1])...)
	c.stdout, c.stderr = nil, nil
	c.exit = 0
	args := append([]V{vStr("addchain")}, sliceCells(a[0])...)
	og := m.p.pkgs["os"].Members["Args"]
	m.ensureInit(sp)
	o := m.globalNamed(og)
	m.rawStore(o, 0, m.strSlice(args))
	depth, slab, spp, top := g.depth, g.slab, g.sp, g.top
	ngs := len(m.gs)
	var gp *goPanic
	exited := false
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case *goPanic:
				gp = x
			case *pathEnd:
				if x.kind == "exit" && !m.path.dead {
					exited = true
					return
				}
				panic(r)
			default:
				panic(r)
			}
		}()
		fr.runFn(m.p.cfn(sp.Func("main")), nil, nil)
	}()
	g.depth, g.slab, g.sp, g.top = depth, slab, spp, top
	_ = exited
	code := c.exit
	if gp != nil {
		code = 100
		m.path.cliPanic = "panic: " + m.panicString(gp.v) + " at " + gp.trace
	}
	for _, x := range m.gs[ngs:] {
		x.abandoned = true
	}
	m.undoTo(mark)
	c.depth--
	mk := func(cells []V) V {
		o := m.newObj(len(cells))
		copy(o.cells, cells)
		return V{o: &SliceV{obj: o, len: len(cells), cap: len(cells)}}
	}
	return V{o: tuple{mk(c.stdout), mk(c.stderr), vInt(code)}}
}

// snapshot records a value for comparison with the native run.
func (m *Machine) snapshot(fr *frame, v V, depth int) obsNode {
	it, _ := v.o.(*Iface)
	if it == nil {
		return obsNode{kind: 's', s: "nil"}
	}
	return m.snap(fr, it.t, it.v, depth)
}

func (m *Machine) snap(fr *frame, t *RType, v V, depth int) obsNode {
	if depth > 6 {
		return obsNode{kind: 's', s: "..."}
	}
	switch t.kind {
	case KBool:
		if v.o == nil {
			return obsNode{kind: 's', s: fmt.Sprint(v.u != 0)}
		}
		return obsNode{kind: 't', tm: v.o.(*Term), rt: t}
	case KInt:
		if v.o == nil {
			if t.signed {
				return obsNode{kind: 's', s: fmt.Sprint(int64(v.u))}
			}
			return obsNode{kind: 's', s: fmt.Sprint(v.u)}
		}
		return obsNode{kind: 't', tm: v.o.(*Term), rt: t}
	case KString:
		if bs, ok := v.o.(*BigStr); ok && bs.base == 10 {
			return obsNode{kind: 'q', big: bs.x}
		}
		return obsNode{kind: 'y', by: strCells(m.forceStr(v))}
	case KBig:
		if v.o == nil {
			return obsNode{kind: 'b', big: bigZ}
		}
		return obsNode{kind: 'b', big: v.o.(*Big)}
	case KPtr:
		if v.o == nil {
			return obsNode{kind: 's', s: "nil"}
		}
		e := t.elem()
		if _, ok := v.o.(*SymPtr); !ok {
			if _, ok := v.o.(*Obj); !ok {
				return obsNode{kind: 's', s: "ptr"}
			}
		}
		return m.snap(fr, e, m.load(fr, v, e), depth+1)
	case KIface:
		return m.snapshot(fr, v, depth+1)
	case KSlice:
		s, _ := v.o.(*SliceV)
		e := t.elem()
		if s == nil {
			return obsNode{kind: 'l'}
		}
		if e.kind == KInt && e.w == 8 {
			return obsNode{kind: 'y', by: append([]V(nil), s.obj.cells[s.off:s.off+s.len]...)}
		}
		var l []obsNode
		for i := 0; i < s.len; i++ {
			l = append(l, m.snap(fr, e, m.load(fr, V{o: s.obj, u: uint64(s.off + i*e.n)}, e), depth+1))
		}
		return obsNode{kind: 'l', list: l}
	case KStruct:
		var l []obsNode
		a := v.o.(agg)
		for i, f := range t.fields {
			l = append(l, m.snap(fr, f, sub(a, t.foff[i], f), depth+1))
		}
		return obsNode{kind: 'l', list: l}
	case KArray:
		var l []obsNode
		a := v.o.(agg)
		e := t.elem()
		for i := 0; i < t.alen; i++ {
			l = append(l, m.snap(fr, e, sub(a, i*e.n, e), depth+1))
		}
		return obsNode{kind: 'l', list: l}
	}
	return obsNode{kind: 's', s: t.kind.String()}
}
