package main

// Builtins, strings, maps.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func f64(v V) float64 { return math.Float64frombits(v.u) }

func (k *compiler) builtin(name string, c *ssa.CallCommon, d operand, in *ssa.Call) step {
	ops := k.argOps(c.Args)
	ts := argTypes(c)
	switch name {
	case "len", "cap":
		x := ops[0]
		t := ts[0]
		switch t.kind {
		case KSlice:
			isLen := name == "len"
			return func(fr *frame) {
				s, _ := fr.get(x).o.(*SliceV)
				n := 0
				if s != nil {
					n = s.cap
					if isLen {
						n = s.len
					}
				}
				fr.r[d] = vInt(n)
			}
		case KString:
			return func(fr *frame) {
				v := fr.get(x)
				n := strLen(v)
				if n < 0 {
					n = strLen(fr.m.forceStr(v))
				}
				fr.r[d] = vInt(n)
			}
		case KPtr:
			n := t.elem().alen
			return func(fr *frame) { fr.r[d] = vInt(n) }
		case KArray:
			n := t.alen
			return func(fr *frame) { fr.r[d] = vInt(n) }
		}
	case "Sizeof":
		n := types.SizesFor("gc", "amd64").Sizeof(c.Args[0].Type())
		return func(fr *frame) { fr.r[d] = vInt(int(n)) }
	case "ssa:wrapnilchk":
		x := ops[0]
		return func(fr *frame) {
			v := fr.get(x)
			if v.o == nil {
				fr.g.rtPanic(fr, "value method called using nil pointer")
			}
			fr.r[d] = v
		}
	case "recover":
		return func(fr *frame) { fr.r[d] = fr.doRecover() }
	case "append":
		if len(ops) == 1 {
			return func(fr *frame) { fr.r[d] = fr.get(ops[0]) }
		}
		es := ts[0].elem()
		strSrc := ts[1].kind == KString
		a, b := ops[0], ops[1]
		return func(fr *frame) {
			fr.r[d] = fr.m.appendSlice(fr, fr.get(a), fr.get(b), es, strSrc)
		}
	}
	var rt *RType
	if in != nil && in.Type() != nil {
		if _, ok := in.Type().(*types.Tuple); !ok {
			rt = rtypeOf(in.Type())
		}
	}
	return func(fr *frame) {
		args := make([]V, len(ops))
		for i, o := range ops {
			args[i] = fr.get(o)
		}
		r := fr.m.callBuiltin2(fr, name, args, ts, rt)
		fr.r[d] = r
	}
}

func (fr *frame) doRecover() V {
	p := fr.deferOf
	if p == nil || p.pan == nil || p.recov {
		return V{}
	}
	p.recov = true
	return p.pan.v
}

func (m *Machine) callBuiltin(fr *frame, name string, args []V, ts []*RType) V {
	return m.callBuiltin2(fr, name, args, ts, nil)
}

func (m *Machine) callBuiltin2(fr *frame, name string, args []V, ts []*RType, rt *RType) V {
	switch name {
	case "len", "cap":
		v := args[0]
		switch ts[0].kind {
		case KMap:
			mv, _ := v.o.(*MapObj)
			if mv == nil {
				return vInt(0)
			}
			m.raceMap(fr, mv, false)
			return vInt(mv.n)
		case KChan:
			ch, _ := v.o.(*Chan)
			if ch == nil {
				return vInt(0)
			}
			if name == "cap" {
				return vInt(ch.cap)
			}
			return vInt(len(ch.buf))
		}
	case "copy":
		return m.copySlice(fr, args[0], args[1], ts[0].elem(), ts[1].kind == KString)
	case "delete":
		mv, _ := args[0].o.(*MapObj)
		if mv != nil {
			m.mapDelete(fr, mv, args[1])
		}
		return V{}
	case "close":
		m.chanClose(fr, args[0])
		return V{}
	case "panic":
		fr.g.panicValue(fr, args[0])
	case "print", "println":
		return V{}
	case "min", "max":
		r := args[0]
		for _, x := range args[1:] {
			t := ts[0]
			var less V
			switch t.kind {
			case KInt:
				ta, tb := m.term(x, t), m.term(r, t)
				if t.signed {
					less = m.vb(m.ts.Slt(ta, tb))
				} else {
					less = m.vb(m.ts.Ult(ta, tb))
				}
				c := m.term(less, rtBool)
				if name == "max" {
					c = m.ts.Not(c)
				}
				r = m.vi(m.ts.Ite(c, ta, tb), t)
				continue
			case KFloat:
				if name == "min" {
					r = vF(math.Min(f64(x), f64(r)), t.w)
				} else {
					r = vF(math.Max(f64(x), f64(r)), t.w)
				}
				continue
			case KString:
				less = m.strLess(x, r, false)
			}
			if m.decide(less) == (name == "min") {
				r = x
			}
		}
		return r
	case "clear":
		switch ts[0].kind {
		case KMap:
			mv, _ := args[0].o.(*MapObj)
			if mv != nil {
				m.mapNote(fr, mv)
				mv.idx, mv.entries, mv.n, mv.nsym = map[any]int{}, nil, 0, 0
			}
		case KSlice:
			s, _ := args[0].o.(*SliceV)
			if s != nil {
				n := s.len * ts[0].elem().n
				for i := 0; i < n; i++ {
					m.storeAt(fr, s.obj, s.off+i, V{})
				}
			}
		}
		return V{}
	case "real":
		c, _ := args[0].o.(complex128)
		return vF(real(c), 64)
	case "imag":
		c, _ := args[0].o.(complex128)
		return vF(imag(c), 64)
	case "complex":
		return V{o: complex(f64(args[0]), f64(args[1]))}
	case "append":
		return m.appendSlice(fr, args[0], args[1], ts[0].elem(), ts[1].kind == KString)
	case "recover":
		return fr.doRecover()
	// unsafe
	case "String":
		n := int(m.concInt(args[1], rtInt))
		if n == 0 {
			return V{}
		}
		o := args[0].o.(*Obj)
		return m.mkStr(o.cells[args[0].u : int(args[0].u)+n])
	case "StringData":
		s := m.forceStr(args[0])
		if strLen(s) == 0 {
			return V{}
		}
		b := m.strToBytes(s).o.(*SliceV)
		return V{o: b.obj, u: uint64(b.off)}
	case "Slice":
		n := int(m.concInt(args[1], rtInt))
		if args[0].o == nil {
			return V{}
		}
		return V{o: &SliceV{obj: args[0].o.(*Obj), off: int(args[0].u), len: n, cap: n}}
	case "SliceData":
		s, _ := args[0].o.(*SliceV)
		if s == nil {
			return V{}
		}
		return V{o: s.obj, u: uint64(s.off)}
	case "Add":
		if args[1].o == nil && args[1].u == 0 {
			return args[0]
		}
	}
	panic(unsupported("builtin %s on %v", name, ts))
}

// --- slices ---

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(size int64, noscan bool) int64 {
	req := size
	if !noscan && req > 512 {
		req += 8
		if req <= 32768-8 {
			for _, c := range sizeClasses {
				if c >= req {
					return c - 8
				}
			}
		}
		req -= 8
	} else if req <= 32768-8 {
		for _, c := range sizeClasses {
			if c >= req {
				return c
			}
		}
	}
	return (req + 8191) &^ 8191
}

func growCap(oldCap, newLen int, et *RType) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	es := et.bytes()
	if es == 0 {
		return nc
	}
	r := int(roundupsize(int64(nc)*es, et.noscan) / es)
	if r < newLen {
		r = newLen
	}
	return r
}

func (m *Machine) appendSlice(fr *frame, a, b V, et *RType, strSrc bool) V {
	s, _ := a.o.(*SliceV)
	var src []V
	add := 0
	if strSrc {
		b = m.forceStr(b)
		add = strLen(b)
		if add == 0 {
			return a
		}
		src = strCells(b)
	} else {
		bs, _ := b.o.(*SliceV)
		if bs == nil || bs.len == 0 {
			return a
		}
		add = bs.len
		src = bs.obj.cells[bs.off : bs.off+bs.len*et.n]
		if bs.obj.race != nil {
			for i := range src {
				m.noteLoad(fr, bs.obj, bs.off+i)
			}
		}
	}
	es := et.n
	n, c := 0, 0
	if s != nil {
		n, c = s.len, s.cap
	}
	if n+add <= c {
		base := s.off + n*es
		if s.obj.shared || s.obj.race != nil {
			for i := range src {
				m.noteStore(fr, s.obj, base+i)
			}
		}
		copy(s.obj.cells[base:base+add*es], src)
		return V{o: &SliceV{obj: s.obj, off: s.off, len: n + add, cap: c}}
	}
	nc := growCap(c, n+add, et)
	if nc*es > 1<<24 {
		panic(limitEnd("allocation too large"))
	}
	o := m.newObj(nc * es)
	if s != nil {
		if s.obj.race != nil {
			for i := 0; i < n*es; i++ {
				m.noteLoad(fr, s.obj, s.off+i)
			}
		}
		copy(o.cells, s.obj.cells[s.off:s.off+n*es])
	}
	copy(o.cells[n*es:], src)
	return V{o: &SliceV{obj: o, len: n + add, cap: nc}}
}

func (m *Machine) copySlice(fr *frame, a, b V, et *RType, strSrc bool) V {
	s, _ := a.o.(*SliceV)
	if s == nil {
		return vInt(0)
	}
	var src []V
	n := 0
	if strSrc {
		b = m.forceStr(b)
		n = min(strLen(b), s.len)
		src = strCells(b)[:n]
	} else {
		bs, _ := b.o.(*SliceV)
		if bs == nil {
			return vInt(0)
		}
		n = min(bs.len, s.len)
		src = bs.obj.cells[bs.off : bs.off+n*et.n]
		if bs.obj.race != nil {
			for i := range src {
				m.noteLoad(fr, bs.obj, bs.off+i)
			}
		}
	}
	if s.obj.shared || s.obj.race != nil {
		for i := range src {
			m.noteStore(fr, s.obj, s.off+i)
		}
	}
	copy(s.obj.cells[s.off:s.off+len(src)], src)
	return vInt(n)
}

// --- strings ---

func strCells(v V) []V {
	switch s := v.o.(type) {
	case nil:
		return nil
	case string:
		r := make([]V, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = V{u: uint64(s[i])}
		}
		return r
	case *SymStr:
		return s.b
	}
	panic(unsupported("strCells of %T", v.o))
}

// mkStr builds a string from byte cells.
func (m *Machine) mkStr(cells []V) V {
	conc := true
	for _, c := range cells {
		if c.o != nil {
			conc = false
			break
		}
	}
	if conc {
		b := make([]byte, len(cells))
		for i, c := range cells {
			b[i] = byte(c.u)
		}
		return vStr(string(b))
	}
	return V{o: &SymStr{b: append([]V(nil), cells...)}}
}

// forceStr turns lazy strings into concrete-length ones.
func (m *Machine) forceStr(v V) V {
	if bs, ok := v.o.(*BigStr); ok {
		x := m.concBig(bs.x)
		return vStr(x.Text(bs.base))
	}
	return v
}

// concStr makes a string fully concrete.
func (m *Machine) concStr(v V) V {
	v = m.forceStr(v)
	s, ok := v.o.(*SymStr)
	if !ok {
		return v
	}
	b := make([]byte, len(s.b))
	for i, c := range s.b {
		b[i] = byte(m.concInt(c, rtUint8))
	}
	return vStr(string(b))
}

func (m *Machine) goString(v V) string {
	s, _ := m.concStr(v).o.(string)
	return s
}

func strSub(v V, l, h int) V {
	switch s := v.o.(type) {
	case string:
		return vStr(s[l:h])
	case *SymStr:
		if l == h {
			return V{}
		}
		sub := s.b[l:h]
		for _, c := range sub {
			if c.o != nil {
				return V{o: &SymStr{b: sub}}
			}
		}
		b := make([]byte, len(sub))
		for i, c := range sub {
			b[i] = byte(c.u)
		}
		return vStr(string(b))
	}
	return V{}
}

func (m *Machine) strCat(a, b V) V {
	a, b = m.forceStr(a), m.forceStr(b)
	if a.o == nil {
		return b
	}
	if b.o == nil {
		return a
	}
	x, ok1 := a.o.(string)
	y, ok2 := b.o.(string)
	if ok1 && ok2 {
		return vStr(x + y)
	}
	return V{o: &SymStr{b: append(append([]V(nil), strCells(a)...), strCells(b)...)}}
}

func (m *Machine) strEq(a, b V) V {
	if bs, ok := a.o.(*BigStr); ok {
		return m.bigStrEq(bs, b)
	}
	if bs, ok := b.o.(*BigStr); ok {
		return m.bigStrEq(bs, a)
	}
	la, lb := strLen(a), strLen(b)
	if la != lb {
		return vBool(false)
	}
	if la == 0 {
		return vBool(true)
	}
	x, ok1 := a.o.(string)
	y, ok2 := b.o.(string)
	if ok1 && ok2 {
		return vBool(x == y)
	}
	ca, cb := strCells(a), strCells(b)
	r := m.ts.True
	for i := range ca {
		if ca[i].o == nil && cb[i].o == nil {
			if ca[i].u != cb[i].u {
				return vBool(false)
			}
			continue
		}
		r = m.ts.And(r, m.ts.Eq(m.term(ca[i], rtUint8), m.term(cb[i], rtUint8)))
	}
	return m.vb(r)
}

func (m *Machine) bigStrEq(a *BigStr, b V) V {
	switch y := b.o.(type) {
	case *BigStr:
		if y.base == a.base {
			return m.vb(m.bigEqTerm(a.x, y.x))
		}
	case nil:
		return vBool(false)
	case string:
		z, ok := new(big.Int).SetString(y, a.base)
		if !ok || z.Text(a.base) != y {
			return vBool(false)
		}
		return m.vb(m.bigEqTerm(a.x, &Big{c: z}))
	}
	return m.strEq(m.forceStr(V{o: a}), b)
}

func (m *Machine) strLess(a, b V, orEq bool) V {
	a, b = m.forceStr(a), m.forceStr(b)
	x, ok1 := a.o.(string)
	y, ok2 := b.o.(string)
	if (ok1 || a.o == nil) && (ok2 || b.o == nil) {
		if orEq {
			return vBool(x <= y)
		}
		return vBool(x < y)
	}
	ca, cb := strCells(a), strCells(b)
	n := min(len(ca), len(cb))
	var r *Term
	if len(ca) < len(cb) || (len(ca) == len(cb) && orEq) {
		r = m.ts.True
	} else {
		r = m.ts.False
	}
	for i := n - 1; i >= 0; i-- {
		p, q := m.term(ca[i], rtUint8), m.term(cb[i], rtUint8)
		r = m.ts.Or(m.ts.Ult(p, q), m.ts.And(m.ts.Eq(p, q), r))
	}
	return m.vb(r)
}

func (m *Machine) strIndex(fr *frame, s, i V, it *RType) V {
	s = m.forceStr(s)
	n := strLen(s)
	if i.o != nil {
		o := &Obj{cells: strCells(s)}
		p := m.symIndex(fr, o, 0, n, rtUint8, i, it)
		return m.load(fr, p, rtUint8)
	}
	j := int64(i.u)
	if j < 0 || j >= int64(n) {
		fr.g.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", j, n))
	}
	switch x := s.o.(type) {
	case string:
		return V{u: uint64(x[j])}
	case *SymStr:
		return x.b[j]
	}
	panic("strIndex")
}

func (m *Machine) decodeRune(fr *frame, s V, pos int) (V, int) {
	switch x := s.o.(type) {
	case string:
		r, n := utf8.DecodeRuneInString(x[pos:])
		return V{u: uint64(int64(r))}, n
	case *SymStr:
		c := x.b[pos]
		if c.o == nil && c.u < 0x80 {
			return V{u: c.u}, 1
		}
		if c.o != nil {
			t := c.o.(*Term)
			if m.decideTerm(m.ts.Ult(t, m.ts.Const(8, 0x80))) {
				return m.vi(m.ts.Zext(t, 32), rtInt32), 1
			}
		}
		end := min(len(x.b), pos+4)
		r := m.callFunc(fr.g, fr, "unicode/utf8", "DecodeRuneInString", strSub(s, pos, end)).o.(tuple)
		return r[0], int(m.concInt(r[1], rtInt))
	}
	panic("decodeRune")
}

func (m *Machine) runeToStr(fr *frame, v V, t *RType) V {
	if v.o == nil {
		x := int64(v.u)
		if !t.signed && v.u > 0x10ffff {
			x = -1
		}
		if x < 0 || x > 0x10ffff {
			return vStr("\uFFFD")
		}
		return vStr(string(rune(x)))
	}
	tm := v.o.(*Term)
	w := tm.w
	if m.decideTerm(m.ts.Ult(tm, m.ts.Const(w, 0x80))) {
		return m.mkStr([]V{m.vi(m.ts.Resize(tm, 8, false), rtUint8)})
	}
	r := m.vi(m.ts.Resize(tm, 32, t.signed), rtInt32)
	b := m.callFunc(fr.g, fr, "unicode/utf8", "AppendRune", V{}, r)
	return m.bytesToStr(fr, b)
}

func (m *Machine) bytesToStr(fr *frame, v V) V {
	s, _ := v.o.(*SliceV)
	if s == nil || s.len == 0 {
		return V{}
	}
	if s.obj.race != nil {
		for i := 0; i < s.len; i++ {
			m.noteLoad(fr, s.obj, s.off+i)
		}
	}
	return m.mkStr(s.obj.cells[s.off : s.off+s.len])
}

func (m *Machine) runesToStr(fr *frame, v V, et *RType) V {
	s, _ := v.o.(*SliceV)
	if s == nil {
		return V{}
	}
	r := V{}
	for i := 0; i < s.len; i++ {
		r = m.strCat(r, m.runeToStr(fr, s.obj.cells[s.off+i], et))
	}
	return r
}

func (m *Machine) strToBytes(v V) V {
	v = m.forceStr(v)
	cells := strCells(v)
	n := len(cells)
	o := m.newObj(n)
	copy(o.cells, cells)
	return V{o: &SliceV{obj: o, len: n, cap: n}}
}

func (m *Machine) strToRunes(fr *frame, v V) V {
	v = m.forceStr(v)
	var cells []V
	for pos := 0; pos < strLen(v); {
		r, n := m.decodeRune(fr, v, pos)
		pos += n
		cells = append(cells, r)
	}
	o := m.newObj(len(cells))
	copy(o.cells, cells)
	return V{o: &SliceV{obj: o, len: len(cells), cap: len(cells)}}
}

// --- maps ---

type hkey struct {
	t int
	k any
}

// hashKey returns a comparable Go value for a concrete key, or false.
func (m *Machine) hashKey(fr *frame, t *RType, v V) (any, bool) {
	switch t.kind {
	case KInt, KBool:
		if v.o == nil {
			return v.u, true
		}
		if _, ok := v.o.(*Term); ok {
			return nil, false
		}
		return v, true
	case KFloat:
		return f64(v), true
	case KString:
		switch s := v.o.(type) {
		case nil:
			return "", true
		case string:
			return s, true
		}
		return nil, false
	case KPtr, KUnsafePtr, KChan:
		if sp, ok := v.o.(*SymPtr); ok {
			v = m.concPtr(sp)
		}
		return v, true
	case KIface:
		it, _ := v.o.(*Iface)
		if it == nil {
			return nil, true
		}
		switch it.t.kind {
		case KSlice, KMap, KFunc:
			fr.g.rtPanic(fr, "hash of unhashable type "+it.t.String())
		}
		k, ok := m.hashKey(fr, it.t, it.v)
		return hkey{it.t.id, k}, ok
	case KStruct, KArray:
		a := v.o.(agg)
		var parts strings.Builder
		walk := func(off int, ft *RType) bool {
			k, ok := m.hashKey(fr, ft, sub(a, off, ft))
			if !ok {
				return false
			}
			fmt.Fprintf(&parts, "%T:%#v;", k, k)
			return true
		}
		if t.kind == KStruct {
			for i, f := range t.fields {
				if !walk(t.foff[i], f) {
					return nil, false
				}
			}
		} else {
			e := t.elem()
			for i := 0; i < t.alen; i++ {
				if !walk(i*e.n, e) {
					return nil, false
				}
			}
		}
		return parts.String(), true
	}
	panic(unsupported("map key type %s", t))
}

func (m *Machine) mapNote(fr *frame, mv *MapObj) {
	if mv.shared && m.initing == 0 {
		cp := *mv
		cp.idx = make(map[any]int, len(mv.idx))
		for k, v := range mv.idx {
			cp.idx[k] = v
		}
		cp.entries = nil
		for _, e := range mv.entries {
			ce := *e
			cp.entries = append(cp.entries, &ce)
		}
		m.undo = append(m.undo, undoRec{mp: mv, save: &cp})
	}
	m.raceMap(fr, mv, true)
}

func (m *Machine) mapFind(fr *frame, mv *MapObj, k V) int {
	hk, ok := m.hashKey(fr, mv.kt, k)
	if ok {
		if i, found := mv.idx[hk]; found {
			return i
		}
		if mv.nsym == 0 {
			return -1
		}
		for i, e := range mv.entries {
			if e.dead {
				continue
			}
			if _, c := m.hashKey(fr, mv.kt, e.k); c {
				continue
			}
			if m.decide(m.equal(fr, mv.kt, e.k, k)) {
				return i
			}
		}
		return -1
	}
	for i, e := range mv.entries {
		if e.dead {
			continue
		}
		if m.decide(m.equal(fr, mv.kt, e.k, k)) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapGet(fr *frame, mv *MapObj, k V) (V, bool) {
	if mv == nil {
		return V{}, false
	}
	m.raceMap(fr, mv, false)
	i := m.mapFind(fr, mv, k)
	if i < 0 {
		return V{}, false
	}
	return mv.entries[i].v, true
}

func (m *Machine) mapSet(fr *frame, mv *MapObj, k, v V) {
	m.mapNote(fr, mv)
	i := m.mapFind(fr, mv, k)
	v = copyAgg(v)
	if i >= 0 {
		mv.entries[i].v = v
		return
	}
	k = copyAgg(k)
	hk, ok := m.hashKey(fr, mv.kt, k)
	if ok {
		mv.idx[hk] = len(mv.entries)
	} else {
		mv.nsym++
	}
	mv.entries = append(mv.entries, &mapEntry{k: k, v: v})
	mv.n++
}

func (m *Machine) mapDelete(fr *frame, mv *MapObj, k V) {
	m.mapNote(fr, mv)
	i := m.mapFind(fr, mv, k)
	if i < 0 {
		return
	}
	e := mv.entries[i]
	e.dead = true
	mv.n--
	hk, ok := m.hashKey(fr, mv.kt, e.k)
	if ok {
		delete(mv.idx, hk)
	} else {
		mv.nsym--
	}
}

// mapRange fixes an iteration order. Go leaves it unspecified: in nondet mode
// the path explorer picks the order of small maps.
func (m *Machine) mapRange(fr *frame, mv *MapObj) *mapIter {
	it := &mapIter{m: mv}
	if mv == nil {
		return it
	}
	m.raceMap(fr, mv, false)
	for i, e := range mv.entries {
		if !e.dead {
			it.order = append(it.order, i)
		}
	}
	if m.path.mapReverse && m.initing == 0 {
		for i, j := 0, len(it.order)-1; i < j; i, j = i+1, j-1 {
			it.order[i], it.order[j] = it.order[j], it.order[i]
		}
	}
	if m.path.mapOrder && len(it.order) > 1 && m.initing == 0 {
		m.path.mapRanges++
		if m.path.mapRanges <= 6 {
			// selection permutation for up to 3 leading choices, then reversal
			n := len(it.order)
			for i := 0; i < n-1 && i < 3; i++ {
				j := i + m.path.chooseSilent(n-i)
				it.order[i], it.order[j] = it.order[j], it.order[i]
			}
		}
	}
	return it
}

var _ = constant.MakeBool
