package main

// Compilation of SSA functions to closures.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type step func(fr *frame)

type operand int32

const gbase operand = 1 << 28

type phiMove struct {
	dst operand
	src operand
}

type cblock struct {
	steps []step
	// terminator: returns next block index or -1 to return
	term  func(fr *frame) int
	preds []int
	moves map[int][]phiMove // by predecessor index
	nph   int
}

type intrinsic func(m *Machine, g *G, fr *frame, args []V) V

type cfn struct {
	p       *Prog
	fn      *ssa.Function
	name    string
	once    sync.Once
	blocks  []*cblock
	consts  []V
	nregs   int
	nparams int
	nfree   int
	recov   int // recover block index or -1
	hasDef  bool
	intr    intrinsic
	isInit  bool
	results []*RType
	named   []operand
	nsteps  int
	covered bool
	isRepo  bool
	module  bool
	cid     int
}

func (p *Prog) cfn(fn *ssa.Function) *cfn {
	p.mu.Lock()
	defer p.mu.Unlock()
	c := p.fns[fn]
	if c == nil {
		c = &cfn{p: p, fn: fn, name: fn.String(), cid: len(p.fns)}
		p.fns[fn] = c
		if fn.Pkg != nil {
			path := fn.Pkg.Pkg.Path()
			c.module = isModule(path)
			c.isRepo = c.module && !isHarness(path)
		} else if o := fn.Origin(); o != nil && o.Pkg != nil {
			path := o.Pkg.Pkg.Path()
			c.module = isModule(path)
			c.isRepo = c.module && !isHarness(path)
		}
		c.intr = lookupIntrinsic(fn, c.name)
		if fn.Synthetic == "package initializer" {
			c.isInit = true
		}
	}
	return c
}

func isModule(path string) bool {
	return path == modPath || len(path) > len(modPath) && path[:len(modPath)+1] == modPath+"/"
}

func isHarness(path string) bool {
	h := modPath + "/zzverif"
	return len(path) >= len(h) && path[:len(h)] == h
}

type compiler struct {
	c    *cfn
	regs map[ssa.Value]operand
	n    int
	cidx map[string]operand
}

func (c *cfn) compile() {
	c.once.Do(func() {
		fn := c.fn
		if fn.Blocks == nil {
			return
		}
		k := &compiler{c: c, regs: map[ssa.Value]operand{}}
		for _, p := range fn.Params {
			k.regs[p] = operand(k.n)
			k.n++
		}
		c.nparams = len(fn.Params)
		for _, p := range fn.FreeVars {
			k.regs[p] = operand(k.n)
			k.n++
		}
		c.nfree = len(fn.FreeVars)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					k.regs[v] = operand(k.n)
					k.n++
				}
			}
		}
		c.recov = -1
		if fn.Recover != nil {
			c.recov = fn.Recover.Index
		}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			c.results = append(c.results, rtypeOf(fn.Signature.Results().At(i).Type()))
		}
		for _, b := range fn.Blocks {
			c.blocks = append(c.blocks, k.block(b))
		}
		c.nregs = k.n
	})
}

func (k *compiler) op(v ssa.Value) operand {
	switch v := v.(type) {
	case *ssa.Const:
		return k.constant(constValue(v))
	case *ssa.Function:
		return k.constant(V{o: &Closure{fn: k.c.p.cfnLocked(v)}})
	case *ssa.Global:
		return gbase + operand(k.c.p.globals[v])
	case *ssa.Builtin:
		panic("builtin as value")
	}
	r, ok := k.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %T %v in %v", v, v, k.c.fn))
	}
	return r
}

// cfnLocked is cfn (compile runs outside p.mu, so this is the same).
func (p *Prog) cfnLocked(fn *ssa.Function) *cfn { return p.cfn(fn) }

func (k *compiler) constant(v V) operand {
	k.c.consts = append(k.c.consts, v)
	return operand(-len(k.c.consts))
}

func constValue(c *ssa.Const) V {
	t := rtypeOf(c.Type())
	if c.Value == nil {
		if t.agg() {
			return V{o: make(agg, t.n)}
		}
		if t.kind == KTuple {
			return V{}
		}
		return V{}
	}
	switch t.kind {
	case KBool:
		return vBool(constant.BoolVal(c.Value))
	case KInt:
		x := constant.ToInt(c.Value)
		if t.signed {
			i, ok := constant.Int64Val(x)
			if !ok {
				u, _ := constant.Uint64Val(x)
				i = int64(u)
			}
			return V{u: uint64(i)}
		}
		u, ok := constant.Uint64Val(x)
		if !ok {
			i, _ := constant.Int64Val(x)
			u = uint64(i)
		}
		return V{u: canon(u, t)}
	case KFloat:
		f, _ := constant.Float64Val(c.Value)
		return vF(f, t.w)
	case KComplex:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return V{o: complex(re, im)}
	case KString:
		if c.Value.Kind() == constant.String {
			return vStr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return vStr(string(rune(i)))
	case KIface:
		panic("const iface")
	}
	panic(fmt.Sprintf("const %v of %v", c, t))
}

func vF(f float64, w int) V {
	if w == 32 {
		return V{u: math.Float64bits(float64(float32(f)))}
	}
	return V{u: math.Float64bits(f)}
}

func canon(u uint64, t *RType) uint64 {
	switch t.w {
	case 64:
		return u
	case 32:
		if t.signed {
			return uint64(int64(int32(u)))
		}
		return uint64(uint32(u))
	case 16:
		if t.signed {
			return uint64(int64(int16(u)))
		}
		return uint64(uint16(u))
	case 8:
		if t.signed {
			return uint64(int64(int8(u)))
		}
		return uint64(uint8(u))
	}
	return u
}

func (k *compiler) block(b *ssa.BasicBlock) *cblock {
	cb := &cblock{moves: map[int][]phiMove{}}
	for _, p := range b.Preds {
		cb.preds = append(cb.preds, p.Index)
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
			cb.nph++
			for i, e := range in.Edges {
				pi := b.Preds[i].Index
				// duplicate predecessors (both branches) share values in practice
				if dupMove(cb.moves[pi], k.regs[in]) {
					continue
				}
				cb.moves[pi] = append(cb.moves[pi], phiMove{k.regs[in], k.op(e)})
			}
		case *ssa.DebugRef:
		case *ssa.If:
			c := k.op(in.Cond)
			t, f := b.Succs[0].Index, b.Succs[1].Index
			cb.term = func(fr *frame) int {
				v := fr.get(c)
				if v.o == nil {
					if v.u != 0 {
						return t
					}
					return f
				}
				if fr.m.decideTerm(v.o.(*Term)) {
					return t
				}
				return f
			}
		case *ssa.Jump:
			t := b.Succs[0].Index
			cb.term = func(fr *frame) int { return t }
		case *ssa.Return:
			ops := make([]operand, len(in.Results))
			for i, r := range in.Results {
				ops[i] = k.op(r)
			}
			switch len(ops) {
			case 0:
				cb.term = func(fr *frame) int { return -1 }
			case 1:
				o := ops[0]
				cb.term = func(fr *frame) int { fr.result = fr.get(o); return -1 }
			default:
				cb.term = func(fr *frame) int {
					t := make(tuple, len(ops))
					for i, o := range ops {
						t[i] = fr.get(o)
					}
					fr.result = V{o: t}
					return -1
				}
			}
		case *ssa.Panic:
			x := k.op(in.X)
			cb.term = func(fr *frame) int {
				fr.g.panicValue(fr, fr.get(x))
				return -1
			}
		default:
			s := k.instr(in)
			if s != nil {
				cb.steps = append(cb.steps, s)
			}
		}
	}
	k.c.nsteps += len(cb.steps) + 1
	if cb.term == nil {
		cb.term = func(fr *frame) int { panic(unsupported("fallthrough block")) }
	}
	return cb
}

func dupMove(ms []phiMove, d operand) bool {
	for _, m := range ms {
		if m.dst == d {
			return true
		}
	}
	return false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (k *compiler) instr(in ssa.Instruction) step {
	var d operand
	if v, ok := in.(ssa.Value); ok {
		d = k.regs[v]
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		t := rtypeOf(deref(in.Type()))
		n := t.n
		return func(fr *frame) {
			fr.r[d] = V{o: fr.m.newObj(n)}
		}
	case *ssa.BinOp:
		return k.binop(in, d)
	case *ssa.UnOp:
		return k.unop(in, d)
	case *ssa.Call:
		return k.call(in.Common(), d, in)
	case *ssa.ChangeInterface:
		x := k.op(in.X)
		return func(fr *frame) { fr.r[d] = fr.get(x) }
	case *ssa.ChangeType:
		x := k.op(in.X)
		return func(fr *frame) { fr.r[d] = fr.get(x) }
	case *ssa.Convert:
		return k.convert(in.X, in.Type(), d)
	case *ssa.MultiConvert:
		return k.convert(in.X, in.Type(), d)
	case *ssa.SliceToArrayPointer:
		x := k.op(in.X)
		n := rtypeOf(deref(in.Type())).alen
		return func(fr *frame) {
			v := fr.get(x)
			s, _ := v.o.(*SliceV)
			if s == nil {
				if n > 0 {
					fr.g.rtPanic(fr, "cannot convert slice to array pointer")
				}
				fr.r[d] = V{}
				return
			}
			if s.len < n {
				fr.g.rtPanic(fr, "cannot convert slice to array pointer: length too short")
			}
			fr.r[d] = V{o: s.obj, u: uint64(s.off)}
		}
	case *ssa.Defer:
		k.c.hasDef = true
		common := in.Common()
		prep := k.prepCall(common)
		return func(fr *frame) {
			fr.defers = append(fr.defers, prep(fr))
		}
	case *ssa.Go:
		prep := k.prepCall(in.Common())
		return func(fr *frame) {
			pc := prep(fr)
			fr.m.spawn(fr, pc)
		}
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }
	case *ssa.Extract:
		x := k.op(in.Tuple)
		i := in.Index
		return func(fr *frame) { fr.r[d] = fr.get(x).o.(tuple)[i] }
	case *ssa.Field:
		x := k.op(in.X)
		st := rtypeOf(in.X.Type())
		ft := st.fields[in.Field]
		off := st.foff[in.Field]
		if ft.agg() {
			n := ft.n
			return func(fr *frame) { fr.r[d] = V{o: append(agg(nil), fr.get(x).o.(agg)[off:off+n]...)} }
		}
		return func(fr *frame) { fr.r[d] = fr.get(x).o.(agg)[off] }
	case *ssa.FieldAddr:
		x := k.op(in.X)
		st := rtypeOf(deref(in.X.Type()))
		off := uint64(st.foff[in.Field])
		return func(fr *frame) {
			v := fr.get(x)
			switch o := v.o.(type) {
			case *Obj:
				fr.r[d] = V{o: o, u: v.u + off}
			case *SymPtr:
				q := *o
				q.base += int(off)
				fr.r[d] = V{o: &q}
			case nil:
				fr.g.nilPanic(fr)
			default:
				panic(unsupported("fieldaddr of %T", o))
			}
		}
	case *ssa.Index:
		return k.index(in, d)
	case *ssa.IndexAddr:
		return k.indexAddr(in, d)
	case *ssa.Lookup:
		return k.lookup(in, d)
	case *ssa.MakeChan:
		sz := k.op(in.Size)
		return func(fr *frame) {
			n := int64(fr.m.concInt(fr.get(sz), rtInt))
			if n < 0 || n > 1<<40 {
				fr.g.rtPanic(fr, "makechan: size out of range")
			}
			fr.r[d] = V{o: &Chan{cap: int(n)}}
		}
	case *ssa.MakeClosure:
		fn := k.c.p.cfnLocked(in.Fn.(*ssa.Function))
		ops := make([]operand, len(in.Bindings))
		for i, b := range in.Bindings {
			ops[i] = k.op(b)
		}
		return func(fr *frame) {
			env := make([]V, len(ops))
			for i, o := range ops {
				env[i] = fr.get(o)
			}
			fr.r[d] = V{o: &Closure{fn: fn, env: env}}
		}
	case *ssa.MakeInterface:
		x := k.op(in.X)
		t := rtypeOf(in.X.Type())
		return func(fr *frame) { fr.r[d] = V{o: &Iface{t: t, v: fr.get(x)}} }
	case *ssa.MakeMap:
		mt := rtypeOf(in.Type())
		kt, vt := mt.key(), mt.elem()
		return func(fr *frame) { fr.r[d] = V{o: fr.m.newMap(kt, vt)} }
	case *ssa.MakeSlice:
		l, c := k.op(in.Len), k.op(in.Cap)
		et := rtypeOf(in.Type()).elem()
		lt, ct := rtypeOf(in.Len.Type()), rtypeOf(in.Cap.Type())
		return func(fr *frame) {
			n := int64(fr.m.concInt(fr.get(l), lt))
			cp := int64(fr.m.concInt(fr.get(c), ct))
			if n < 0 || n > 1<<34 {
				fr.g.rtPanic(fr, "makeslice: len out of range")
			}
			if cp < n || cp > 1<<34 {
				fr.g.rtPanic(fr, "makeslice: cap out of range")
			}
			if cp*int64(et.n) > 1<<24 {
				panic(limitEnd("allocation too large"))
			}
			o := fr.m.newObj(int(cp) * et.n)
			fr.r[d] = V{o: &SliceV{obj: o, len: int(n), cap: int(cp)}}
		}
	case *ssa.MapUpdate:
		mp, key, val := k.op(in.Map), k.op(in.Key), k.op(in.Value)
		return func(fr *frame) {
			mv, _ := fr.get(mp).o.(*MapObj)
			if mv == nil {
				fr.g.goPanicErr(fr, "assignment to entry in nil map")
			}
			fr.m.mapSet(fr, mv, fr.get(key), fr.get(val))
		}
	case *ssa.Next:
		return k.next(in, d)
	case *ssa.Range:
		x := k.op(in.X)
		isStr := rtypeOf(in.X.Type()).kind == KString
		return func(fr *frame) {
			v := fr.get(x)
			if isStr {
				fr.r[d] = V{o: &strIter{s: fr.m.forceStr(v)}}
				return
			}
			mv, _ := v.o.(*MapObj)
			fr.r[d] = V{o: fr.m.mapRange(fr, mv)}
		}
	case *ssa.Select:
		return k.selectInstr(in, d)
	case *ssa.Send:
		ch, x := k.op(in.Chan), k.op(in.X)
		return func(fr *frame) { fr.m.chanSend(fr, fr.get(ch), fr.get(x)) }
	case *ssa.Slice:
		return k.slice(in, d)
	case *ssa.Store:
		a, v := k.op(in.Addr), k.op(in.Val)
		t := rtypeOf(in.Val.Type())
		if t.agg() {
			n := t.n
			return func(fr *frame) {
				p := fr.get(a)
				fr.m.storeAgg(fr, p, n, fr.get(v))
			}
		}
		isBig := t.kind == KBig
		return func(fr *frame) {
			p := fr.get(a)
			if o, ok := p.o.(*Obj); ok {
				val := fr.get(v)
				if isBig {
					val = markSharedBig(val)
				}
				if o.shared || o.race != nil {
					fr.m.noteStore(fr, o, int(p.u))
				}
				o.cells[p.u] = val
				return
			}
			fr.m.storeSlow(fr, p, fr.get(v), t)
		}
	case *ssa.TypeAssert:
		return k.typeAssert(in, d)
	}
	panic(fmt.Sprintf("unhandled instruction %T %v", in, in))
}

func markSharedBig(v V) V {
	if b, ok := v.o.(*Big); ok && b != nil && !b.sharedStorage {
		nb := *b
		nb.sharedStorage = true
		return V{o: &nb}
	}
	return v
}

func (k *compiler) typeAssert(in *ssa.TypeAssert, d operand) step {
	x := k.op(in.X)
	t := rtypeOf(in.AssertedType)
	commaok := in.CommaOk
	zero := func() V {
		if t.agg() {
			return V{o: make(agg, t.n)}
		}
		return V{}
	}
	isI := t.kind == KIface
	return func(fr *frame) {
		v := fr.get(x)
		it, _ := v.o.(*Iface)
		ok := false
		var res V
		if it != nil {
			if isI {
				if fr.m.implements(it.t, t) {
					ok, res = true, v
				}
			} else if it.t == t {
				ok, res = true, it.v
			}
		}
		if commaok {
			if !ok {
				if isI {
					res = V{}
				} else {
					res = zero()
				}
			}
			fr.r[d] = V{o: tuple{res, vBool(ok)}}
			return
		}
		if !ok {
			desc := "nil"
			if it != nil {
				desc = it.t.String()
			}
			fr.g.rtPanic(fr, fmt.Sprintf("interface conversion: interface is %s, not %s", desc, t))
		}
		fr.r[d] = res
	}
}

func (k *compiler) next(in *ssa.Next, d operand) step {
	x := k.op(in.Iter)
	tt := in.Type().(*types.Tuple)
	if in.IsString {
		return func(fr *frame) {
			it := fr.get(x).o.(*strIter)
			n := strLen(it.s)
			if it.pos >= n {
				fr.r[d] = V{o: tuple{V{}, V{}, V{}}}
				return
			}
			pos := it.pos
			r, size := fr.m.decodeRune(fr, it.s, pos)
			it.pos += size
			fr.r[d] = V{o: tuple{vBool(true), vInt(pos), r}}
		}
	}
	ktt, vtt := tt.At(1).Type(), tt.At(2).Type()
	needK := !isInvalid(ktt)
	needV := !isInvalid(vtt)
	return func(fr *frame) {
		it := fr.get(x).o.(*mapIter)
		for it.m != nil && it.pos < len(it.order) {
			e := it.m.entries[it.order[it.pos]]
			it.pos++
			if e.dead {
				continue
			}
			kv, vv := V{}, V{}
			if needK {
				kv = copyAgg(e.k)
			}
			if needV {
				vv = copyAgg(e.v)
			}
			fr.r[d] = V{o: tuple{vBool(true), kv, vv}}
			return
		}
		fr.r[d] = V{o: tuple{V{}, V{}, V{}}}
	}
}

func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

func copyAgg(v V) V {
	if a, ok := v.o.(agg); ok {
		return V{o: append(make(agg, 0, len(a)), a...)}
	}
	return v
}

func (k *compiler) lookup(in *ssa.Lookup, d operand) step {
	x, i := k.op(in.X), k.op(in.Index)
	xt := rtypeOf(in.X.Type())
	if xt.kind == KString {
		it := rtypeOf(in.Index.Type())
		return func(fr *frame) {
			fr.r[d] = fr.m.strIndex(fr, fr.get(x), fr.get(i), it)
		}
	}
	vt := xt.elem()
	commaok := in.CommaOk
	return func(fr *frame) {
		mv, _ := fr.get(x).o.(*MapObj)
		v, ok := fr.m.mapGet(fr, mv, fr.get(i))
		if !ok {
			if vt.agg() {
				v = V{o: make(agg, vt.n)}
			} else {
				v = V{}
			}
		} else {
			v = copyAgg(v)
		}
		if commaok {
			fr.r[d] = V{o: tuple{v, vBool(ok)}}
		} else {
			fr.r[d] = v
		}
	}
}

func (k *compiler) index(in *ssa.Index, d operand) step {
	x, i := k.op(in.X), k.op(in.Index)
	xt, it := rtypeOf(in.X.Type()), rtypeOf(in.Index.Type())
	if xt.kind == KString {
		return func(fr *frame) {
			fr.r[d] = fr.m.strIndex(fr, fr.get(x), fr.get(i), it)
		}
	}
	et := xt.elem()
	n := xt.alen
	return func(fr *frame) {
		a := fr.get(x).o.(agg)
		iv := fr.get(i)
		if iv.o != nil {
			p := fr.m.symIndex(fr, &Obj{cells: a}, 0, n, et, iv, it)
			fr.r[d] = fr.m.load(fr, p, et)
			return
		}
		j := int64(iv.u)
		if j < 0 || j >= int64(n) {
			fr.g.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", j, n))
		}
		if et.agg() {
			fr.r[d] = V{o: append(agg(nil), a[int(j)*et.n:(int(j)+1)*et.n]...)}
		} else {
			fr.r[d] = a[j]
		}
	}
}

func (k *compiler) indexAddr(in *ssa.IndexAddr, d operand) step {
	x, i := k.op(in.X), k.op(in.Index)
	it := rtypeOf(in.Index.Type())
	xt := rtypeOf(in.X.Type())
	if xt.kind == KSlice {
		et := xt.elem()
		es := et.n
		return func(fr *frame) {
			s, _ := fr.get(x).o.(*SliceV)
			iv := fr.get(i)
			n := 0
			if s != nil {
				n = s.len
			}
			if iv.o != nil {
				if s == nil {
					fr.m.concInt(iv, it)
					fr.g.rtPanic(fr, "index out of range with length 0")
				}
				fr.r[d] = fr.m.symIndex(fr, s.obj, s.off, n, et, iv, it)
				return
			}
			j := int64(iv.u)
			if j < 0 || j >= int64(n) {
				fr.g.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", j, n))
			}
			fr.r[d] = V{o: s.obj, u: uint64(s.off + int(j)*es)}
		}
	}
	at := xt.elem() // array
	et := at.elem()
	es := et.n
	n := at.alen
	return func(fr *frame) {
		p := fr.get(x)
		iv := fr.get(i)
		if sp, ok := p.o.(*SymPtr); ok {
			p = fr.m.concPtr(sp)
		}
		o, _ := p.o.(*Obj)
		if o == nil {
			fr.g.nilPanic(fr)
		}
		if iv.o != nil {
			fr.r[d] = fr.m.symIndex(fr, o, int(p.u), n, et, iv, it)
			return
		}
		j := int64(iv.u)
		if j < 0 || j >= int64(n) {
			fr.g.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", j, n))
		}
		fr.r[d] = V{o: o, u: p.u + uint64(int(j)*es)}
	}
}

func (k *compiler) slice(in *ssa.Slice, d operand) step {
	x := k.op(in.X)
	var lo, hi, mx operand
	hasLo, hasHi, hasMx := in.Low != nil, in.High != nil, in.Max != nil
	var lt, ht, mt *RType
	if hasLo {
		lo = k.op(in.Low)
		lt = rtypeOf(in.Low.Type())
	}
	if hasHi {
		hi = k.op(in.High)
		ht = rtypeOf(in.High.Type())
	}
	if hasMx {
		mx = k.op(in.Max)
		mt = rtypeOf(in.Max.Type())
	}
	xt := rtypeOf(in.X.Type())
	kind := xt.kind
	var es, alen int
	switch kind {
	case KSlice:
		es = xt.elem().n
	case KPtr:
		alen = xt.elem().alen
		es = xt.elem().elem().n
	}
	return func(fr *frame) {
		v := fr.get(x)
		if kind == KString {
			v = fr.m.forceStr(v)
			n := strLen(v)
			l, h := int64(0), int64(n)
			if hasLo {
				l = int64(fr.m.concInt(fr.get(lo), lt))
			}
			if hasHi {
				h = int64(fr.m.concInt(fr.get(hi), ht))
			}
			if h < 0 || h > int64(n) || l < 0 || l > h {
				fr.g.rtPanic(fr, fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))
			}
			fr.r[d] = strSub(v, int(l), int(h))
			return
		}
		var obj *Obj
		off, n, c := 0, 0, 0
		if kind == KSlice {
			s, _ := v.o.(*SliceV)
			if s != nil {
				obj, off, n, c = s.obj, s.off, s.len, s.cap
			}
		} else {
			if sp, ok := v.o.(*SymPtr); ok {
				v = fr.m.concPtr(sp)
			}
			o, _ := v.o.(*Obj)
			if o == nil {
				fr.g.nilPanic(fr)
			}
			obj, off, n, c = o, int(v.u), alen, alen
		}
		l, h, mxv := int64(0), int64(n), int64(c)
		if hasLo {
			l = int64(fr.m.concInt(fr.get(lo), lt))
		}
		if hasHi {
			h = int64(fr.m.concInt(fr.get(hi), ht))
		}
		if hasMx {
			mxv = int64(fr.m.concInt(fr.get(mx), mt))
		}
		if mxv < 0 || mxv > int64(c) || h < 0 || h > mxv || l < 0 || l > h {
			fr.g.rtPanic(fr, fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, mxv, c))
		}
		if obj == nil {
			fr.r[d] = V{}
			return
		}
		fr.r[d] = V{o: &SliceV{obj: obj, off: off + int(l)*es, len: int(h - l), cap: int(mxv - l)}}
	}
}

func (k *compiler) unop(in *ssa.UnOp, d operand) step {
	x := k.op(in.X)
	t := rtypeOf(in.Type())
	switch in.Op {
	case token.MUL:
		if t.agg() {
			n := t.n
			return func(fr *frame) {
				fr.r[d] = fr.m.loadAgg(fr, fr.get(x), n)
			}
		}
		if t.kind == KBig {
			return func(fr *frame) {
				p := fr.get(x)
				v := fr.m.load(fr, p, t)
				if o, ok := p.o.(*Obj); ok {
					// structural copy: both now share storage
					v = markSharedBig(v)
					if v.o != nil && o.cells[p.u] != v && !o.shared {
						o.cells[p.u] = v
					}
				}
				fr.r[d] = v
			}
		}
		return func(fr *frame) {
			p := fr.get(x)
			if o, ok := p.o.(*Obj); ok {
				if o.race != nil {
					fr.m.noteLoad(fr, o, int(p.u))
				}
				fr.r[d] = o.cells[p.u]
				return
			}
			fr.r[d] = fr.m.load(fr, p, t)
		}
	case token.ARROW:
		commaok := in.CommaOk
		et := rtypeOf(in.X.Type()).elem()
		return func(fr *frame) {
			v, ok := fr.m.chanRecv(fr, fr.get(x), et)
			if commaok {
				fr.r[d] = V{o: tuple{v, vBool(ok)}}
			} else {
				fr.r[d] = v
			}
		}
	case token.NOT:
		return func(fr *frame) {
			v := fr.get(x)
			if v.o == nil {
				fr.r[d] = V{u: v.u ^ 1}
				return
			}
			fr.r[d] = fr.m.vb(fr.m.ts.Not(v.o.(*Term)))
		}
	case token.SUB:
		switch t.kind {
		case KInt:
			return func(fr *frame) {
				v := fr.get(x)
				if v.o == nil {
					fr.r[d] = V{u: canon(-v.u, t)}
					return
				}
				fr.r[d] = fr.m.vi(fr.m.ts.Neg(v.o.(*Term)), t)
			}
		case KFloat:
			w := t.w
			return func(fr *frame) { fr.r[d] = vF(-math.Float64frombits(fr.get(x).u), w) }
		case KComplex:
			return func(fr *frame) { c, _ := fr.get(x).o.(complex128); fr.r[d] = V{o: -c} }
		}
	case token.XOR:
		return func(fr *frame) {
			v := fr.get(x)
			if v.o == nil {
				fr.r[d] = V{u: canon(^v.u, t)}
				return
			}
			fr.r[d] = fr.m.vi(fr.m.ts.BNot(v.o.(*Term)), t)
		}
	}
	panic(fmt.Sprintf("unop %v", in))
}

func (k *compiler) binop(in *ssa.BinOp, d operand) step {
	x, y := k.op(in.X), k.op(in.Y)
	t := rtypeOf(in.X.Type())
	op := in.Op
	switch op {
	case token.SHL, token.SHR:
		yt := rtypeOf(in.Y.Type())
		left := op == token.SHL
		return func(fr *frame) {
			a, b := fr.get(x), fr.get(y)
			if b.o == nil && yt.signed && int64(b.u) < 0 {
				fr.g.rtPanic(fr, "negative shift amount")
			}
			if a.o == nil && b.o == nil {
				fr.r[d] = V{u: shiftConc(left, a.u, b.u, t)}
				return
			}
			fr.r[d] = fr.m.symShift(fr, left, a, b, t, yt)
		}
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		switch t.kind {
		case KInt, KBool:
			return func(fr *frame) {
				a, b := fr.get(x), fr.get(y)
				if a.o == nil && b.o == nil {
					fr.r[d] = vBool((a.u == b.u) != neg)
					return
				}
				m := fr.m
				e := m.ts.Eq(m.term(a, t), m.term(b, t))
				if neg {
					e = m.ts.Not(e)
				}
				fr.r[d] = m.vb(e)
			}
		}
		yt := rtypeOf(in.Y.Type())
		if yt.kind == KIface && t.kind != KIface {
			// comparison of concrete with interface
			return func(fr *frame) {
				a := V{o: &Iface{t: t, v: fr.get(x)}}
				e := fr.m.equal(fr, yt, a, fr.get(y))
				if neg {
					e = fr.m.not(e)
				}
				fr.r[d] = e
			}
		}
		if t.kind == KIface && yt.kind != KIface && yt.kind != KUnsafePtr {
			return func(fr *frame) {
				b := V{o: &Iface{t: yt, v: fr.get(y)}}
				e := fr.m.equal(fr, t, fr.get(x), b)
				if neg {
					e = fr.m.not(e)
				}
				fr.r[d] = e
			}
		}
		return func(fr *frame) {
			e := fr.m.equal(fr, t, fr.get(x), fr.get(y))
			if neg {
				e = fr.m.not(e)
			}
			fr.r[d] = e
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		switch t.kind {
		case KInt:
			return k.intCmp(op, x, y, t, d)
		case KFloat:
			return func(fr *frame) {
				a, b := math.Float64frombits(fr.get(x).u), math.Float64frombits(fr.get(y).u)
				var r bool
				switch op {
				case token.LSS:
					r = a < b
				case token.LEQ:
					r = a <= b
				case token.GTR:
					r = a > b
				default:
					r = a >= b
				}
				fr.r[d] = vBool(r)
			}
		case KString:
			return func(fr *frame) {
				a, b := fr.get(x), fr.get(y)
				switch op {
				case token.LSS:
					fr.r[d] = fr.m.strLess(a, b, false)
				case token.LEQ:
					fr.r[d] = fr.m.strLess(a, b, true)
				case token.GTR:
					fr.r[d] = fr.m.strLess(b, a, false)
				default:
					fr.r[d] = fr.m.strLess(b, a, true)
				}
			}
		}
	}
	switch t.kind {
	case KInt:
		return k.intArith(op, x, y, t, d)
	case KFloat:
		w := t.w
		return func(fr *frame) {
			a, b := math.Float64frombits(fr.get(x).u), math.Float64frombits(fr.get(y).u)
			var r float64
			switch op {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				r = a / b
			default:
				panic(unsupported("float op %v", op))
			}
			fr.r[d] = vF(r, w)
		}
	case KComplex:
		return func(fr *frame) {
			a, _ := fr.get(x).o.(complex128)
			b, _ := fr.get(y).o.(complex128)
			var r complex128
			switch op {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				r = a / b
			}
			fr.r[d] = V{o: r}
		}
	case KString:
		if op == token.ADD {
			return func(fr *frame) { fr.r[d] = fr.m.strCat(fr.get(x), fr.get(y)) }
		}
	case KBool:
		return func(fr *frame) {
			a, b := fr.get(x), fr.get(y)
			ta, tb := fr.m.term(a, t), fr.m.term(b, t)
			switch op {
			case token.AND, token.LAND:
				fr.r[d] = fr.m.vb(fr.m.ts.And(ta, tb))
			case token.OR, token.LOR:
				fr.r[d] = fr.m.vb(fr.m.ts.Or(ta, tb))
			default:
				panic(unsupported("bool op %v", op))
			}
		}
	}
	panic(fmt.Sprintf("binop %v on %v", in, t))
}

func shiftConc(left bool, a, n uint64, t *RType) uint64 {
	if left {
		if n >= 64 {
			return 0
		}
		return canon(a<<n, t)
	}
	if t.signed {
		if n >= 64 {
			n = 63
		}
		return uint64(int64(a) >> n)
	}
	if n >= 64 {
		return 0
	}
	return a >> n
}

func (k *compiler) intCmp(op token.Token, x, y operand, t *RType, d operand) step {
	sg := t.signed
	conc := func(a, b uint64) bool {
		if sg {
			p, q := int64(a), int64(b)
			switch op {
			case token.LSS:
				return p < q
			case token.LEQ:
				return p <= q
			case token.GTR:
				return p > q
			}
			return p >= q
		}
		switch op {
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		}
		return a >= b
	}
	return func(fr *frame) {
		a, b := fr.get(x), fr.get(y)
		if a.o == nil && b.o == nil {
			fr.r[d] = vBool(conc(a.u, b.u))
			return
		}
		m := fr.m
		ta, tb := m.term(a, t), m.term(b, t)
		fr.r[d] = m.vb(m.cmpTerm(op, ta, tb, sg))
	}
}

func (m *Machine) cmpTerm(op token.Token, a, b *Term, signed bool) *Term {
	if op == token.GTR || op == token.GEQ {
		a, b = b, a
	}
	strict := op == token.LSS || op == token.GTR
	switch {
	case signed && strict:
		return m.ts.Slt(a, b)
	case signed:
		return m.ts.Sle(a, b)
	case strict:
		return m.ts.Ult(a, b)
	}
	return m.ts.Ule(a, b)
}

func (k *compiler) intArith(op token.Token, x, y operand, t *RType, d operand) step {
	switch op {
	case token.ADD:
		return func(fr *frame) {
			a, b := fr.get(x), fr.get(y)
			if a.o == nil && b.o == nil {
				fr.r[d] = V{u: canon(a.u+b.u, t)}
				return
			}
			fr.r[d] = fr.m.symBin(OpAdd, a, b, t)
		}
	case token.SUB:
		return func(fr *frame) {
			a, b := fr.get(x), fr.get(y)
			if a.o == nil && b.o == nil {
				fr.r[d] = V{u: canon(a.u-b.u, t)}
				return
			}
			fr.r[d] = fr.m.symBin(OpSub, a, b, t)
		}
	case token.MUL:
		return func(fr *frame) {
			a, b := fr.get(x), fr.get(y)
			if a.o == nil && b.o == nil {
				fr.r[d] = V{u: canon(a.u*b.u, t)}
				return
			}
			fr.r[d] = fr.m.symBin(OpMul, a, b, t)
		}
	case token.AND:
		return func(fr *frame) {
			a, b := fr.get(x), fr.get(y)
			if a.o == nil && b.o == nil {
				fr.r[d] = V{u: a.u & b.u}
				return
			}
			fr.r[d] = fr.m.symBin(OpBAnd, a, b, t)
		}
	case token.OR:
		return func(fr *frame) {
			a, b := fr.get(x), fr.get(y)
			if a.o == nil && b.o == nil {
				fr.r[d] = V{u: a.u | b.u}
				return
			}
			fr.r[d] = fr.m.symBin(OpBOr, a, b, t)
		}
	case token.XOR:
		return func(fr *frame) {
			a, b := fr.get(x), fr.get(y)
			if a.o == nil && b.o == nil {
				fr.r[d] = V{u: canon(a.u^b.u, t)}
				return
			}
			fr.r[d] = fr.m.symBin(OpBXor, a, b, t)
		}
	case token.AND_NOT:
		return func(fr *frame) {
			a, b := fr.get(x), fr.get(y)
			if a.o == nil && b.o == nil {
				fr.r[d] = V{u: canon(a.u&^b.u, t)}
				return
			}
			m := fr.m
			fr.r[d] = m.vi(m.ts.bin(OpBAnd, m.term(a, t), m.ts.BNot(m.term(b, t))), t)
		}
	case token.QUO, token.REM:
		quo := op == token.QUO
		return func(fr *frame) {
			a, b := fr.get(x), fr.get(y)
			if b.o == nil && b.u == 0 {
				fr.g.rtPanic(fr, "integer divide by zero")
			}
			if a.o == nil && b.o == nil {
				var r uint64
				if t.signed {
					p, q := int64(a.u), int64(b.u)
					switch {
					case q == -1 && quo:
						r = uint64(-p)
					case q == -1:
						r = 0
					case quo:
						r = uint64(p / q)
					default:
						r = uint64(p % q)
					}
				} else if quo {
					r = a.u / b.u
				} else {
					r = a.u % b.u
				}
				fr.r[d] = V{u: canon(r, t)}
				return
			}
			m := fr.m
			ta, tb := m.term(a, t), m.term(b, t)
			if b.o != nil && m.decideTerm(m.ts.Eq(tb, m.ts.Const(t.w, 0))) {
				fr.g.rtPanic(fr, "integer divide by zero")
			}
			var o Op
			switch {
			case t.signed && quo:
				o = OpSDiv
			case t.signed:
				o = OpSRem
			case quo:
				o = OpUDiv
			default:
				o = OpURem
			}
			fr.r[d] = m.vi(m.ts.bin(o, ta, tb), t)
		}
	}
	panic("int op " + op.String())
}

func (m *Machine) symBin(op Op, a, b V, t *RType) V {
	return m.vi(m.ts.bin(op, m.term(a, t), m.term(b, t)), t)
}

func (m *Machine) symShift(fr *frame, left bool, a, b V, t, yt *RType) V {
	ta := m.term(a, t)
	tb := m.term(b, yt)
	if yt.signed && b.o != nil {
		if m.decideTerm(m.ts.Slt(tb, m.ts.Const(yt.w, 0))) {
			fr.g.rtPanic(fr, "negative shift amount")
		}
	}
	op := OpShl
	if !left {
		op = OpLshr
		if t.signed {
			op = OpAshr
		}
	}
	w := t.w
	// bring the amount to width w, saturating
	var amt *Term
	switch {
	case yt.w == w:
		amt = tb
	case yt.w < w:
		amt = m.ts.Zext(tb, w)
	default:
		big := m.ts.Ule(m.ts.Const(yt.w, uint64(w)), tb)
		amt = m.ts.Ite(big, m.ts.Const(w, uint64(w)), m.ts.Trunc(tb, w))
	}
	return m.vi(m.ts.bin(op, ta, amt), t)
}

func (k *compiler) convert(xv ssa.Value, to types.Type, d operand) step {
	x := k.op(xv)
	ft, tt := rtypeOf(xv.Type()), rtypeOf(to)
	switch {
	case ft.kind == KInt && tt.kind == KInt:
		return func(fr *frame) {
			v := fr.get(x)
			if v.o == nil {
				fr.r[d] = V{u: canon(v.u, tt)}
				return
			}
			if _, ok := v.o.(*Term); !ok {
				fr.r[d] = v // uintptr carrying a pointer
				return
			}
			fr.r[d] = fr.m.vi(fr.m.ts.Resize(v.o.(*Term), tt.w, ft.signed), tt)
		}
	case ft.kind == KInt && tt.kind == KFloat:
		return func(fr *frame) {
			u := fr.m.concInt(fr.get(x), ft)
			if ft.signed {
				fr.r[d] = vF(float64(int64(u)), tt.w)
			} else {
				fr.r[d] = vF(float64(u), tt.w)
			}
		}
	case ft.kind == KFloat && tt.kind == KInt:
		return func(fr *frame) {
			f := math.Float64frombits(fr.get(x).u)
			if tt.signed {
				fr.r[d] = V{u: canon(uint64(int64(f)), tt)}
			} else {
				fr.r[d] = V{u: canon(uint64(f), tt)}
			}
		}
	case ft.kind == KFloat && tt.kind == KFloat:
		return func(fr *frame) { fr.r[d] = vF(math.Float64frombits(fr.get(x).u), tt.w) }
	case ft.kind == KComplex && tt.kind == KComplex:
		return func(fr *frame) { fr.r[d] = fr.get(x) }
	case tt.kind == KString && ft.kind == KInt:
		return func(fr *frame) { fr.r[d] = fr.m.runeToStr(fr, fr.get(x), ft) }
	case tt.kind == KString && ft.kind == KSlice:
		if ft.elem().w == 8 {
			return func(fr *frame) { fr.r[d] = fr.m.bytesToStr(fr, fr.get(x)) }
		}
		return func(fr *frame) { fr.r[d] = fr.m.runesToStr(fr, fr.get(x), ft.elem()) }
	case ft.kind == KString && tt.kind == KSlice:
		if tt.elem().w == 8 {
			return func(fr *frame) { fr.r[d] = fr.m.strToBytes(fr.get(x)) }
		}
		return func(fr *frame) { fr.r[d] = fr.m.strToRunes(fr, fr.get(x)) }
	case tt.kind == ft.kind:
		return func(fr *frame) { fr.r[d] = fr.get(x) }
	case ft.kind == KUnsafePtr || tt.kind == KUnsafePtr:
		return func(fr *frame) { fr.r[d] = fr.get(x) }
	}
	panic(fmt.Sprintf("convert %v -> %v", ft, tt))
}

// --- calls ---

type preparedCall struct {
	fn     *cfn
	env    []V
	native func(m *Machine, g *G, args []V) V
	args   []V
	bi     string
	biT    []*RType
	call   *ssa.CallCommon
}

func (k *compiler) argOps(args []ssa.Value) []operand {
	ops := make([]operand, len(args))
	for i, a := range args {
		ops[i] = k.op(a)
	}
	return ops
}

func (k *compiler) prepCall(c *ssa.CallCommon) func(fr *frame) *preparedCall {
	ops := k.argOps(c.Args)
	get := func(fr *frame) []V {
		args := make([]V, len(ops))
		for i, o := range ops {
			args[i] = fr.get(o)
		}
		return args
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		name := b.Name()
		ts := argTypes(c)
		return func(fr *frame) *preparedCall {
			return &preparedCall{bi: name, biT: ts, args: get(fr)}
		}
	}
	if c.IsInvoke() {
		recv := k.op(c.Value)
		meth := c.Method
		return func(fr *frame) *preparedCall {
			v := fr.get(recv)
			it, _ := v.o.(*Iface)
			if it == nil {
				fr.g.nilPanic(fr)
			}
			fn, native := fr.m.method(it.t, meth)
			args := append([]V{it.v}, get(fr)...)
			return &preparedCall{fn: fn, native: native, args: args}
		}
	}
	if f, ok := c.Value.(*ssa.Function); ok {
		fn := k.c.p.cfnLocked(f)
		return func(fr *frame) *preparedCall { return &preparedCall{fn: fn, args: get(fr)} }
	}
	fv := k.op(c.Value)
	return func(fr *frame) *preparedCall {
		cl, _ := fr.get(fv).o.(*Closure)
		if cl == nil {
			return &preparedCall{native: func(m *Machine, g *G, args []V) V { g.nilPanic(nil); return V{} }}
		}
		return &preparedCall{fn: cl.fn, env: cl.env, native: cl.native, args: get(fr)}
	}
}

func argTypes(c *ssa.CallCommon) []*RType {
	var ts []*RType
	for _, a := range c.Args {
		ts = append(ts, rtypeOf(a.Type()))
	}
	return ts
}

func (k *compiler) call(c *ssa.CallCommon, d operand, in *ssa.Call) step {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return k.builtin(b.Name(), c, d, in)
	}
	ops := k.argOps(c.Args)
	if c.IsInvoke() {
		recv := k.op(c.Value)
		meth := c.Method
		return func(fr *frame) {
			v := fr.get(recv)
			it, _ := v.o.(*Iface)
			if it == nil {
				fr.g.nilPanic(fr)
			}
			fn, native := fr.m.method(it.t, meth)
			if native != nil {
				args := make([]V, len(ops)+1)
				args[0] = it.v
				for i, o := range ops {
					args[i+1] = fr.get(o)
				}
				fr.r[d] = native(fr.m, fr.g, args)
				return
			}
			fr.r[d] = fr.invoke(fn, nil, &it.v, ops)
		}
	}
	if f, ok := c.Value.(*ssa.Function); ok {
		fn := k.c.p.cfnLocked(f)
		if fn.intr != nil {
			intr := fn.intr
			return func(fr *frame) {
				var buf [4]V
				args := buf[:0]
				for _, o := range ops {
					args = append(args, fr.get(o))
				}
				fr.r[d] = intr(fr.m, fr.g, fr, args)
			}
		}
		return func(fr *frame) { fr.r[d] = fr.invoke(fn, nil, nil, ops) }
	}
	fv := k.op(c.Value)
	return func(fr *frame) {
		cl, _ := fr.get(fv).o.(*Closure)
		if cl == nil {
			fr.g.nilPanic(fr)
		}
		if cl.native != nil {
			args := make([]V, len(ops))
			for i, o := range ops {
				args[i] = fr.get(o)
			}
			fr.r[d] = cl.native(fr.m, fr.g, args)
			return
		}
		fr.r[d] = fr.invoke(cl.fn, cl.env, nil, ops)
	}
}

var rtInt, rtUint8, rtString, rtUint64, rtBool, rtInt32 *RType

func init() {
	rtInt = rtypeOf(types.Typ[types.Int])
	rtUint8 = rtypeOf(types.Typ[types.Uint8])
	rtString = rtypeOf(types.Typ[types.String])
	rtUint64 = rtypeOf(types.Typ[types.Uint64])
	rtBool = rtypeOf(types.Typ[types.Bool])
	rtInt32 = rtypeOf(types.Typ[types.Int32])
}

var _ = big.NewInt
