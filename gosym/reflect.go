package main

// A model of package reflect over interpreted values.

import (
	"fmt"
	"go/types"
	"strings"
)

// RV is an interpreted reflect.Value.
type RV struct {
	t    *RType
	v    V
	obj  *Obj
	off  int
	addr bool
	ro   bool
}

var allowReflectSource = map[string]bool{
	"(reflect.Kind).String": true, "(reflect.StructTag).Get": true, "(reflect.StructTag).Lookup": true,
	"(reflect.StructField).IsExported": true, "(reflect.Method).IsExported": true, "(*reflect.ValueError).Error": true,
	"reflect.VisibleFields": true,
}

func (m *Machine) rtypeT() *RType {
	return rtypeOf(types.NewPointer(m.p.pkgs["reflect"].Type("rtype").Type()))
}

// typeV makes a reflect.Type value.
func (m *Machine) typeV(t *RType) V {
	if t == nil {
		return V{}
	}
	return V{o: &Iface{t: m.rtypeT(), v: V{o: t}}}
}

func typeArg(v V) *RType {
	switch x := v.o.(type) {
	case *RType:
		return x
	case *Iface:
		if x == nil {
			return nil
		}
		r, _ := x.v.o.(*RType)
		return r
	}
	return nil
}

func reflectKind(t *RType) int {
	switch t.kind {
	case KBool:
		return 1
	case KInt:
		if b, ok := t.t.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Int:
				return 2
			case types.Int8:
				return 3
			case types.Int16:
				return 4
			case types.Int32:
				return 5
			case types.Int64:
				return 6
			case types.Uint:
				return 7
			case types.Uint8:
				return 8
			case types.Uint16:
				return 9
			case types.Uint32:
				return 10
			case types.Uint64:
				return 11
			case types.Uintptr:
				return 12
			}
		}
		return 2
	case KFloat:
		if t.w == 32 {
			return 13
		}
		return 14
	case KComplex:
		return 16
	case KArray:
		return 17
	case KChan:
		return 18
	case KFunc:
		return 19
	case KIface:
		return 20
	case KMap:
		return 21
	case KPtr:
		return 22
	case KSlice:
		return 23
	case KString:
		return 24
	case KStruct, KBig, KOpaque:
		return 25
	case KUnsafePtr:
		return 26
	}
	return 0
}

func typeString(t *RType) string {
	s := types.TypeString(t.t, func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "interface{}", "interface {}")
	s = strings.ReplaceAll(s, "struct{}", "struct {}")
	if s == "any" || s == "error" {
		if s == "any" {
			s = "interface {}"
		}
		return s
	}
	return fixAny(s)
}

// fixAny spells the predeclared any the way reflect does.
func fixAny(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && (s[j] == '_' || s[j] == '.' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z') {
			j++
		}
		if j == i {
			sb.WriteByte(s[i])
			i++
			continue
		}
		w := s[i:j]
		if w == "any" {
			w = "interface {}"
		}
		sb.WriteString(w)
		i = j
	}
	return sb.String()
}

func (m *Machine) rv(v V) *RV {
	r, _ := v.o.(*RV)
	if r == nil {
		return &RV{}
	}
	return r
}

func (r *RV) V() V {
	if r == nil || r.t == nil {
		return V{}
	}
	return V{o: r}
}

func (m *Machine) rvGet(fr *frame, r *RV) V {
	if !r.addr {
		return r.v
	}
	return m.load(fr, V{o: r.obj, u: uint64(r.off)}, r.t)
}

func (m *Machine) valueErr(g *G, meth string, r *RV) {
	k := "invalid"
	if r.t != nil {
		k = r.t.kind.String()
	}
	g.strPanic("reflect: call of reflect.Value." + meth + " on " + k + " Value")
}

func numExportedMethods(p *Prog, t types.Type) []*types.Selection {
	ms := p.prog.MethodSets.MethodSet(t)
	var out []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			out = append(out, ms.At(i))
		}
	}
	return out
}

func (m *Machine) structField(g *G, t *RType, i int) V {
	f := t.st.Field(i)
	sf := rtypeOf(m.p.pkgs["reflect"].Type("StructField").Type())
	a := make(agg, sf.n)
	a[0] = vStr(f.Name())
	if !f.Exported() {
		a[1] = vStr(f.Pkg().Path())
	}
	a[2] = m.typeV(t.fields[i])
	a[3] = vStr(t.st.Tag(i))
	o := m.newObj(1)
	o.cells[0] = vInt(i)
	a[5] = V{o: &SliceV{obj: o, len: 1, cap: 1}}
	a[6] = vBool(f.Anonymous())
	return V{o: a}
}

func sigOf(t *RType) *types.Signature {
	s, _ := t.t.Underlying().(*types.Signature)
	return s
}

func (m *Machine) assignable(from, to *RType) bool {
	if from == to {
		return true
	}
	return types.AssignableTo(from.t, to.t)
}

// asType converts an interpreted value for assignment to type to.
func (m *Machine) asType(v V, from, to *RType) V {
	if to.kind == KIface && from.kind != KIface {
		return V{o: &Iface{t: from, v: copyAgg(v)}}
	}
	return v
}

func (m *Machine) typeMethod(name string) func(m *Machine, g *G, a []V) V {
	type tm = func(m *Machine, g *G, t *RType, a []V) V
	tbl := map[string]tm{
		"Kind":   func(m *Machine, g *G, t *RType, a []V) V { return vInt(reflectKind(t)) },
		"String": func(m *Machine, g *G, t *RType, a []V) V { return vStr(typeString(t)) },
		"Name": func(m *Machine, g *G, t *RType, a []V) V {
			switch x := t.t.(type) {
			case *types.Named:
				return vStr(x.Obj().Name())
			case *types.Basic:
				return vStr(x.Name())
			}
			return V{}
		},
		"PkgPath": func(m *Machine, g *G, t *RType, a []V) V {
			if x, ok := t.t.(*types.Named); ok && x.Obj().Pkg() != nil {
				return vStr(x.Obj().Pkg().Path())
			}
			return V{}
		},
		"Elem": func(m *Machine, g *G, t *RType, a []V) V { return m.typeV(t.elem()) },
		"Key":  func(m *Machine, g *G, t *RType, a []V) V { return m.typeV(t.key()) },
		"Len":  func(m *Machine, g *G, t *RType, a []V) V { return vInt(t.alen) },
		"Size": func(m *Machine, g *G, t *RType, a []V) V { return vInt(int(t.bytes())) },
		"Bits": func(m *Machine, g *G, t *RType, a []V) V { return vInt(t.w) },
		"NumField": func(m *Machine, g *G, t *RType, a []V) V {
			if t.st == nil {
				g.strPanic("reflect: NumField of non-struct type " + typeString(t))
			}
			return vInt(len(t.fields))
		},
		"Field": func(m *Machine, g *G, t *RType, a []V) V { return m.structField(g, t, int(m.concInt(a[0], rtInt))) },
		"FieldByName": func(m *Machine, g *G, t *RType, a []V) V {
			name := m.goString(a[0])
			if t.st != nil {
				for i := range t.fields {
					if t.st.Field(i).Name() == name {
						return V{o: tuple{m.structField(g, t, i), vBool(true)}}
					}
				}
				// promoted through embedding
				obj, idx, _ := types.LookupFieldOrMethod(t.t, true, m.p.pkgs["reflect"].Pkg, name)
				if fv, ok := obj.(*types.Var); ok && fv.IsField() {
					sf := rtypeOf(m.p.pkgs["reflect"].Type("StructField").Type())
					x := make(agg, sf.n)
					x[0] = vStr(name)
					x[2] = m.typeV(rtypeOf(fv.Type()))
					o := m.newObj(len(idx))
					for i, j := range idx {
						o.cells[i] = vInt(j)
					}
					x[5] = V{o: &SliceV{obj: o, len: len(idx), cap: len(idx)}}
					return V{o: tuple{V{o: x}, vBool(true)}}
				}
			}
			sf := rtypeOf(m.p.pkgs["reflect"].Type("StructField").Type())
			return V{o: tuple{zeroOf(sf), vBool(false)}}
		},
		"NumMethod": func(m *Machine, g *G, t *RType, a []V) V { return vInt(len(numExportedMethods(m.p, t.t))) },
		"MethodByName": func(m *Machine, g *G, t *RType, a []V) V {
			name := m.goString(a[0])
			mt := rtypeOf(m.p.pkgs["reflect"].Type("Method").Type())
			x := make(agg, mt.n)
			for i, s := range numExportedMethods(m.p, t.t) {
				if s.Obj().Name() == name {
					x[0] = vStr(name)
					x[2] = m.typeV(rtypeOf(s.Type()))
					x[mt.n-1] = vInt(i)
					return V{o: tuple{V{o: x}, vBool(true)}}
				}
			}
			return V{o: tuple{V{o: x}, vBool(false)}}
		},
		"Method": func(m *Machine, g *G, t *RType, a []V) V {
			i := int(m.concInt(a[0], rtInt))
			mt := rtypeOf(m.p.pkgs["reflect"].Type("Method").Type())
			x := make(agg, mt.n)
			s := numExportedMethods(m.p, t.t)[i]
			x[0] = vStr(s.Obj().Name())
			x[2] = m.typeV(rtypeOf(s.Type()))
			x[mt.n-1] = vInt(i)
			return V{o: x}
		},
		"NumIn":  func(m *Machine, g *G, t *RType, a []V) V { return vInt(sigOf(t).Params().Len()) },
		"NumOut": func(m *Machine, g *G, t *RType, a []V) V { return vInt(sigOf(t).Results().Len()) },
		"In": func(m *Machine, g *G, t *RType, a []V) V {
			return m.typeV(rtypeOf(sigOf(t).Params().At(int(m.concInt(a[0], rtInt))).Type()))
		},
		"Out": func(m *Machine, g *G, t *RType, a []V) V {
			return m.typeV(rtypeOf(sigOf(t).Results().At(int(m.concInt(a[0], rtInt))).Type()))
		},
		"IsVariadic": func(m *Machine, g *G, t *RType, a []V) V { return vBool(sigOf(t).Variadic()) },
		"Implements": func(m *Machine, g *G, t *RType, a []V) V {
			return vBool(types.Implements(t.t, typeArg(a[0]).t.Underlying().(*types.Interface)))
		},
		"AssignableTo":  func(m *Machine, g *G, t *RType, a []V) V { return vBool(m.assignable(t, typeArg(a[0]))) },
		"ConvertibleTo": func(m *Machine, g *G, t *RType, a []V) V { return vBool(types.ConvertibleTo(t.t, typeArg(a[0]).t)) },
		"Comparable":    func(m *Machine, g *G, t *RType, a []V) V { return vBool(types.Comparable(t.t)) },
		"CanSeq":        func(m *Machine, g *G, t *RType, a []V) V { return vBool(false) },
		"CanSeq2":       func(m *Machine, g *G, t *RType, a []V) V { return vBool(false) },
	}
	f := tbl[name]
	if f == nil {
		return func(m *Machine, g *G, a []V) V { panic(unsupported("reflect.Type.%s", name)) }
	}
	return func(m *Machine, g *G, a []V) V { return f(m, g, typeArg(a[0]), a[1:]) }
}

// boundMethod returns the method value v.name, or nil.
func (m *Machine) boundMethod(fr *frame, r *RV, name string) *RV {
	if r.t == nil {
		return nil
	}
	v := m.rvGet(fr, r)
	t := r.t
	st := t
	if t.kind == KIface {
		it, _ := v.o.(*Iface)
		if it == nil {
			return nil
		}
		t, v = it.t, it.v
	}
	if !isExported(name) {
		return nil
	}
	ms := m.p.prog.MethodSets.MethodSet(t.t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return nil
	}
	if st.kind == KIface {
		// only the interface's own methods
		if m.p.prog.MethodSets.MethodSet(st.t).Lookup(nil, name) == nil {
			return nil
		}
	}
	sig := sel.Type().(*types.Signature)
	ft := rtypeOf(types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic()))
	recv := copyAgg(v)
	rt := t
	cl := &Closure{nname: "bound " + name, native: func(m *Machine, g *G, args []V) V {
		return m.callMethod(g, nil, &Iface{t: rt, v: recv}, nil, name, args...)
	}}
	return &RV{t: ft, v: V{o: cl}, ro: r.ro}
}

func (m *Machine) rvCall(g *G, fr *frame, f *RV, args []*RV) []V {
	sig := sigOf(f.t)
	if sig == nil {
		m.valueErr(g, "Call", f)
	}
	n := sig.Params().Len()
	var in []V
	if sig.Variadic() {
		if len(args) < n-1 {
			g.strPanic("reflect: Call with too few input arguments")
		}
		for i := 0; i < n-1; i++ {
			in = append(in, m.asType(m.rvGet(fr, args[i]), args[i].t, rtypeOf(sig.Params().At(i).Type())))
		}
		et := rtypeOf(sig.Params().At(n - 1).Type()).elem()
		k := len(args) - (n - 1)
		o := m.newObj(k * et.n)
		for i := 0; i < k; i++ {
			x := args[n-1+i]
			v := m.asType(m.rvGet(fr, x), x.t, et)
			if et.agg() {
				copy(o.cells[i*et.n:], v.o.(agg))
			} else {
				o.cells[i] = v
			}
		}
		if k == 0 {
			in = append(in, V{})
		} else {
			in = append(in, V{o: &SliceV{obj: o, len: k, cap: k}})
		}
	} else {
		if len(args) != n {
			g.strPanic("reflect: Call with wrong number of input arguments")
		}
		for i := range args {
			in = append(in, m.asType(m.rvGet(fr, args[i]), args[i].t, rtypeOf(sig.Params().At(i).Type())))
		}
	}
	r := m.call(g, fr, m.rvGet(fr, f), in...)
	var out []V
	switch sig.Results().Len() {
	case 0:
	case 1:
		out = []V{r}
	default:
		out = r.o.(tuple)
	}
	res := make([]V, len(out))
	for i, o := range out {
		res[i] = (&RV{t: rtypeOf(sig.Results().At(i).Type()), v: o}).V()
	}
	return res
}

func (m *Machine) rvField(fr *frame, r *RV, i int) *RV {
	ft := r.t.fields[i]
	f := r.t.st.Field(i)
	x := &RV{t: ft, ro: r.ro || !f.Exported()}
	if r.addr {
		x.addr, x.obj, x.off = true, r.obj, r.off+r.t.foff[i]
	} else {
		x.v = sub(r.v.o.(agg), r.t.foff[i], ft)
	}
	return x
}

func (m *Machine) rvElem(g *G, fr *frame, r *RV) *RV {
	v := m.rvGet(fr, r)
	switch r.t.kind {
	case KIface:
		it, _ := v.o.(*Iface)
		if it == nil {
			return &RV{}
		}
		return &RV{t: it.t, v: it.v, ro: r.ro}
	case KPtr:
		if v.o == nil {
			return &RV{}
		}
		if sp, ok := v.o.(*SymPtr); ok {
			v = m.concPtr(sp)
		}
		o, ok := v.o.(*Obj)
		if !ok {
			panic(unsupported("reflect Elem of %T", v.o))
		}
		return &RV{t: r.t.elem(), addr: true, obj: o, off: int(v.u), ro: r.ro}
	}
	m.valueErr(g, "Elem", r)
	return nil
}

func (m *Machine) rvIndex(g *G, fr *frame, r *RV, i int) *RV {
	oob := func(n int) {
		if i < 0 || i >= n {
			g.strPanic("reflect: " + r.t.kind.String() + " index out of range")
		}
	}
	switch r.t.kind {
	case KSlice:
		s, _ := m.rvGet(fr, r).o.(*SliceV)
		n := 0
		if s != nil {
			n = s.len
		}
		oob(n)
		e := r.t.elem()
		return &RV{t: e, addr: true, obj: s.obj, off: s.off + i*e.n, ro: r.ro}
	case KArray:
		oob(r.t.alen)
		e := r.t.elem()
		if r.addr {
			return &RV{t: e, addr: true, obj: r.obj, off: r.off + i*e.n, ro: r.ro}
		}
		return &RV{t: e, v: sub(r.v.o.(agg), i*e.n, e), ro: r.ro}
	case KString:
		s := m.forceStr(m.rvGet(fr, r))
		oob(strLen(s))
		return &RV{t: rtUint8, v: strCells(s)[i], ro: r.ro}
	}
	m.valueErr(g, "Index", r)
	return nil
}

func (m *Machine) rvLen(g *G, fr *frame, r *RV) int {
	if r.t == nil {
		m.valueErr(g, "Len", r)
	}
	v := m.rvGet(fr, r)
	switch r.t.kind {
	case KSlice:
		if s, _ := v.o.(*SliceV); s != nil {
			return s.len
		}
		return 0
	case KArray:
		return r.t.alen
	case KString:
		return strLen(m.forceStr(v))
	case KMap:
		if mp, _ := v.o.(*MapObj); mp != nil {
			return mp.n
		}
		return 0
	case KChan:
		if c, _ := v.o.(*Chan); c != nil {
			return len(c.buf)
		}
		return 0
	}
	m.valueErr(g, "Len", r)
	return 0
}

func (m *Machine) rvIsZero(fr *frame, t *RType, v V) V {
	switch t.kind {
	case KStruct, KArray:
		r := vBool(true)
		a := v.o.(agg)
		if t.kind == KStruct {
			for i, f := range t.fields {
				r = m.and(r, m.rvIsZero(fr, f, sub(a, t.foff[i], f)))
			}
		} else {
			e := t.elem()
			for i := 0; i < t.alen; i++ {
				r = m.and(r, m.rvIsZero(fr, e, sub(a, i*e.n, e)))
			}
		}
		return r
	case KInt:
		return m.equal(fr, t, v, V{})
	case KBool:
		return m.not(v)
	case KString:
		return vBool(strLen(m.forceStr(v)) == 0)
	case KFloat:
		return vBool(v.u == 0)
	}
	return vBool(v.o == nil)
}

func (m *Machine) rvSet(g *G, fr *frame, r *RV, v V) {
	if !r.addr || r.ro {
		g.strPanic("reflect: reflect.Value.Set using unaddressable value")
	}
	if r.t.agg() {
		m.storeAgg(fr, V{o: r.obj, u: uint64(r.off)}, r.t.n, v)
		return
	}
	m.storeAt(fr, r.obj, r.off, v)
}

type mapIterV struct {
	it    *mapIter
	mp    *RType
	k, v  V
	valid bool
}

func (m *Machine) rvNil(r *RV, v V) bool { return v.o == nil }

func init() {
	I := intrinsics
	type vf = func(m *Machine, g *G, fr *frame, r *RV, a []V) V
	reg := func(name string, f vf) {
		I["(reflect.Value)."+name] = func(m *Machine, g *G, fr *frame, a []V) V {
			return f(m, g, fr, m.rv(a[0]), a[1:])
		}
	}
	I["reflect.ValueOf"] = func(m *Machine, g *G, fr *frame, a []V) V {
		it, _ := a[0].o.(*Iface)
		if it == nil {
			return V{}
		}
		return (&RV{t: it.t, v: it.v}).V()
	}
	I["reflect.TypeOf"] = func(m *Machine, g *G, fr *frame, a []V) V {
		it, _ := a[0].o.(*Iface)
		if it == nil {
			return V{}
		}
		return m.typeV(it.t)
	}
	I["internal/reflectlite.TypeOf"] = func(m *Machine, g *G, fr *frame, a []V) V { panic(unsupported("reflectlite.TypeOf")) }
	I["internal/reflectlite.ValueOf"] = func(m *Machine, g *G, fr *frame, a []V) V { panic(unsupported("reflectlite.ValueOf")) }
	I["reflect.Indirect"] = func(m *Machine, g *G, fr *frame, a []V) V {
		r := m.rv(a[0])
		if r.t == nil || r.t.kind != KPtr {
			return a[0]
		}
		return m.rvElem(g, fr, r).V()
	}
	I["reflect.Zero"] = func(m *Machine, g *G, fr *frame, a []V) V {
		t := typeArg(a[0])
		return (&RV{t: t, v: zeroOf(t)}).V()
	}
	I["reflect.New"] = func(m *Machine, g *G, fr *frame, a []V) V {
		t := typeArg(a[0])
		return (&RV{t: rtypeOf(types.NewPointer(t.t)), v: V{o: m.newObj(t.n)}}).V()
	}
	ptrTo := func(m *Machine, g *G, fr *frame, a []V) V {
		return m.typeV(rtypeOf(types.NewPointer(typeArg(a[0]).t)))
	}
	I["reflect.PointerTo"] = ptrTo
	I["reflect.PtrTo"] = ptrTo
	I["reflect.SliceOf"] = func(m *Machine, g *G, fr *frame, a []V) V {
		return m.typeV(rtypeOf(types.NewSlice(typeArg(a[0]).t)))
	}
	I["reflect.DeepEqual"] = func(m *Machine, g *G, fr *frame, a []V) V {
		at := rtypeOf(types.Universe.Lookup("any").Type())
		return m.deepEq(fr, at, a[0], a[1], 0)
	}
	I["reflect.Swapper"] = func(m *Machine, g *G, fr *frame, a []V) V {
		it := a[0].o.(*Iface)
		s, _ := it.v.o.(*SliceV)
		et := it.t.elem()
		return V{o: &Closure{nname: "swap", native: func(m *Machine, g *G, args []V) V {
			i, j := int(m.concInt(args[0], rtInt)), int(m.concInt(args[1], rtInt))
			for k := 0; k < et.n; k++ {
				x, y := s.off+i*et.n+k, s.off+j*et.n+k
				vx, vy := s.obj.cells[x], s.obj.cells[y]
				m.storeAt(fr, s.obj, x, vy)
				m.storeAt(fr, s.obj, y, vx)
			}
			return V{}
		}}}
	}
	reg("IsValid", func(m *Machine, g *G, fr *frame, r *RV, a []V) V { return vBool(r.t != nil) })
	reg("Kind", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		if r.t == nil {
			return vInt(0)
		}
		return vInt(reflectKind(r.t))
	})
	reg("Type", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		if r.t == nil {
			m.valueErr(g, "Type", r)
		}
		return m.typeV(r.t)
	})
	reg("CanInterface", func(m *Machine, g *G, fr *frame, r *RV, a []V) V { return vBool(!r.ro) })
	reg("CanAddr", func(m *Machine, g *G, fr *frame, r *RV, a []V) V { return vBool(r.addr) })
	reg("CanSet", func(m *Machine, g *G, fr *frame, r *RV, a []V) V { return vBool(r.addr && !r.ro) })
	kindIn := func(lo, hi int) vf {
		return func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
			if r.t == nil {
				return V{}
			}
			k := reflectKind(r.t)
			return vBool(lo <= k && k <= hi)
		}
	}
	reg("CanInt", kindIn(2, 6))
	reg("CanUint", kindIn(7, 12))
	reg("CanFloat", kindIn(13, 14))
	reg("CanComplex", kindIn(15, 16))
	reg("Interface", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		if r.t == nil {
			m.valueErr(g, "Interface", r)
		}
		if r.ro {
			g.strPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		v := m.rvGet(fr, r)
		if r.t.kind == KIface {
			return v
		}
		return V{o: &Iface{t: r.t, v: copyAgg(v)}}
	})
	reg("Addr", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		if !r.addr {
			g.strPanic("reflect.Value.Addr of unaddressable value")
		}
		return (&RV{t: rtypeOf(types.NewPointer(r.t.t)), v: V{o: r.obj, u: uint64(r.off)}, ro: r.ro}).V()
	})
	ext := func(signed bool) vf {
		return func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
			if r.t == nil || r.t.kind != KInt || r.t.signed != signed {
				m.valueErr(g, "Int", r)
			}
			v := m.rvGet(fr, r)
			if tm, ok := v.o.(*Term); ok {
				return m.vi(m.ts.Resize(tm, 64, signed), rtInt)
			}
			return v
		}
	}
	reg("Int", ext(true))
	reg("Uint", ext(false))
	get := func(name string, k Kind) {
		reg(name, func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
			if r.t == nil || r.t.kind != k {
				m.valueErr(g, name, r)
			}
			return m.rvGet(fr, r)
		})
	}
	get("Bool", KBool)
	get("Float", KFloat)
	get("Complex", KComplex)
	reg("String", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		if r.t == nil {
			return vStr("<invalid Value>")
		}
		if r.t.kind != KString {
			return vStr("<" + typeString(r.t) + " Value>")
		}
		return m.rvGet(fr, r)
	})
	reg("Bytes", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		switch r.t.kind {
		case KSlice:
			return m.rvGet(fr, r)
		case KArray:
			if r.addr {
				return V{o: &SliceV{obj: r.obj, off: r.off, len: r.t.alen, cap: r.t.alen}}
			}
		}
		m.valueErr(g, "Bytes", r)
		return V{}
	})
	reg("Len", func(m *Machine, g *G, fr *frame, r *RV, a []V) V { return vInt(m.rvLen(g, fr, r)) })
	reg("Cap", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		if s, _ := m.rvGet(fr, r).o.(*SliceV); s != nil {
			return vInt(s.cap)
		}
		return vInt(r.t.alen)
	})
	reg("Index", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		return m.rvIndex(g, fr, r, int(m.concInt(a[0], rtInt))).V()
	})
	reg("NumField", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		if r.t == nil || r.t.kind != KStruct {
			m.valueErr(g, "NumField", r)
		}
		return vInt(len(r.t.fields))
	})
	reg("Field", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		return m.rvField(fr, r, int(m.concInt(a[0], rtInt))).V()
	})
	byIdx := func(m *Machine, g *G, fr *frame, r *RV, a []V) *RV {
		s, _ := a[0].o.(*SliceV)
		for i := 0; i < s.len; i++ {
			if i > 0 && r.t.kind == KPtr {
				r = m.rvElem(g, fr, r)
			}
			r = m.rvField(fr, r, int(s.obj.cells[s.off+i].u))
		}
		return r
	}
	reg("FieldByIndex", func(m *Machine, g *G, fr *frame, r *RV, a []V) V { return byIdx(m, g, fr, r, a).V() })
	reg("FieldByIndexErr", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		return V{o: tuple{byIdx(m, g, fr, r, a).V(), V{}}}
	})
	reg("FieldByName", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		name := m.goString(a[0])
		for i := range r.t.fields {
			if r.t.st.Field(i).Name() == name {
				return m.rvField(fr, r, i).V()
			}
		}
		return V{}
	})
	reg("Elem", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		if r.t == nil {
			m.valueErr(g, "Elem", r)
		}
		return m.rvElem(g, fr, r).V()
	})
	reg("IsNil", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		if r.t == nil {
			m.valueErr(g, "IsNil", r)
		}
		switch r.t.kind {
		case KPtr, KSlice, KMap, KChan, KFunc, KIface, KUnsafePtr:
			return vBool(m.rvGet(fr, r).o == nil)
		}
		m.valueErr(g, "IsNil", r)
		return V{}
	})
	reg("IsZero", func(m *Machine, g *G, fr *frame, r *RV, a []V) V { return m.rvIsZero(fr, r.t, m.rvGet(fr, r)) })
	reg("Comparable", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		t := r.t
		if t != nil && t.kind == KIface {
			it, _ := m.rvGet(fr, r).o.(*Iface)
			if it == nil {
				return vBool(true)
			}
			t = it.t
		}
		return vBool(t == nil || types.Comparable(t.t))
	})
	ptrNum := func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		v := m.rvGet(fr, r)
		if v.o == nil {
			return V{}
		}
		return V{u: 0xc000000000 + v.u}
	}
	reg("Pointer", ptrNum)
	reg("UnsafePointer", func(m *Machine, g *G, fr *frame, r *RV, a []V) V { return m.rvGet(fr, r) })
	reg("NumMethod", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		if r.t == nil {
			m.valueErr(g, "NumMethod", r)
		}
		return vInt(len(numExportedMethods(m.p, r.t.t)))
	})
	reg("MethodByName", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		return m.boundMethod(fr, r, m.goString(a[0])).V()
	})
	reg("Method", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		ms := numExportedMethods(m.p, r.t.t)
		return m.boundMethod(fr, r, ms[int(m.concInt(a[0], rtInt))].Obj().Name()).V()
	})
	reg("Call", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		var args []*RV
		for _, c := range sliceCells(a[0]) {
			args = append(args, m.rv(c))
		}
		return m.strSlice(m.rvCall(g, fr, r, args))
	})
	reg("MapIndex", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		mp, _ := m.rvGet(fr, r).o.(*MapObj)
		if mp == nil {
			return V{}
		}
		k := m.rv(a[0])
		v, ok := m.mapGet(fr, mp, m.asType(m.rvGet(fr, k), k.t, r.t.key()))
		if !ok {
			return V{}
		}
		return (&RV{t: mp.vt, v: v}).V()
	})
	reg("MapKeys", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		mp, _ := m.rvGet(fr, r).o.(*MapObj)
		var out []V
		if mp != nil {
			it := m.mapRange(fr, mp)
			for _, i := range it.order {
				out = append(out, (&RV{t: mp.kt, v: mp.entries[i].k}).V())
			}
		}
		return m.strSlice(out)
	})
	reg("MapRange", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		mp, _ := m.rvGet(fr, r).o.(*MapObj)
		o := m.newObj(8)
		o.cells[0] = V{o: &mapIterV{it: m.mapRange(fr, mp), mp: r.t}}
		return V{o: o}
	})
	I["(*reflect.MapIter).Next"] = func(m *Machine, g *G, fr *frame, a []V) V {
		o, i := m.ptrObj(fr, a[0])
		x := o.cells[i].o.(*mapIterV)
		for x.it.m != nil && x.it.pos < len(x.it.order) {
			e := x.it.m.entries[x.it.order[x.it.pos]]
			x.it.pos++
			if e.dead {
				continue
			}
			x.k, x.v = copyAgg(e.k), copyAgg(e.v)
			return vBool(true)
		}
		return vBool(false)
	}
	I["(*reflect.MapIter).Key"] = func(m *Machine, g *G, fr *frame, a []V) V {
		o, i := m.ptrObj(fr, a[0])
		x := o.cells[i].o.(*mapIterV)
		return (&RV{t: x.mp.key(), v: x.k}).V()
	}
	I["(*reflect.MapIter).Value"] = func(m *Machine, g *G, fr *frame, a []V) V {
		o, i := m.ptrObj(fr, a[0])
		x := o.cells[i].o.(*mapIterV)
		return (&RV{t: x.mp.elem(), v: x.v}).V()
	}
	reg("Set", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		x := m.rv(a[0])
		m.rvSet(g, fr, r, m.asType(m.rvGet(fr, x), x.t, r.t))
		return V{}
	})
	for _, n := range []string{"SetInt", "SetUint", "SetString", "SetBool", "SetFloat"} {
		reg(n, func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
			v := a[0]
			if r.t.kind == KInt && r.t.w < 64 {
				if tm, ok := v.o.(*Term); ok {
					v = m.vi(m.ts.Trunc(tm, r.t.w), r.t)
				} else {
					v = V{u: canon(v.u, r.t)}
				}
			}
			m.rvSet(g, fr, r, v)
			return V{}
		})
	}
	reg("Slice", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		i, j := int(m.concInt(a[0], rtInt)), int(m.concInt(a[1], rtInt))
		v := m.rvGet(fr, r)
		if r.t.kind == KString {
			return (&RV{t: r.t, v: strSub(m.forceStr(v), i, j)}).V()
		}
		s, _ := v.o.(*SliceV)
		if s == nil {
			return r.V()
		}
		return (&RV{t: r.t, v: V{o: &SliceV{obj: s.obj, off: s.off + i*r.t.elem().n, len: j - i, cap: s.cap - i}}}).V()
	})
	conv := func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		t := typeArg(a[0])
		v := m.rvGet(fr, r)
		if t.kind == KIface {
			return (&RV{t: t, v: m.asType(v, r.t, t)}).V()
		}
		if t.kind == r.t.kind && t.kind != KInt && t.kind != KFloat {
			return (&RV{t: t, v: v}).V()
		}
		if t.kind == KInt && r.t.kind == KInt {
			if tm, ok := v.o.(*Term); ok {
				return (&RV{t: t, v: m.vi(m.ts.Resize(tm, t.w, r.t.signed), t)}).V()
			}
			return (&RV{t: t, v: V{u: canon(v.u, t)}}).V()
		}
		panic(unsupported("reflect Convert %s to %s", r.t, t))
	}
	reg("Convert", conv)
	reg("CanConvert", func(m *Machine, g *G, fr *frame, r *RV, a []V) V {
		return vBool(types.ConvertibleTo(r.t.t, typeArg(a[0]).t))
	})
	for n := range map[string]bool{"Align": true} {
		_ = n
	}
}

func (m *Machine) deepEq(fr *frame, t *RType, a, b V, depth int) V {
	if depth > 200 {
		panic(unsupported("deep DeepEqual"))
	}
	switch t.kind {
	case KIface:
		x, _ := a.o.(*Iface)
		y, _ := b.o.(*Iface)
		if x == nil || y == nil {
			return vBool(x == nil && y == nil)
		}
		if x.t != y.t {
			return vBool(false)
		}
		return m.deepEq(fr, x.t, x.v, y.v, depth+1)
	case KPtr:
		if a.o == nil || b.o == nil {
			return vBool(a.o == nil && b.o == nil)
		}
		if sp, ok := a.o.(*SymPtr); ok {
			a = m.concPtr(sp)
		}
		if sp, ok := b.o.(*SymPtr); ok {
			b = m.concPtr(sp)
		}
		if a == b {
			return vBool(true)
		}
		e := t.elem()
		return m.deepEq(fr, e, m.load(fr, a, e), m.load(fr, b, e), depth+1)
	case KBig:
		x, y := bigZ, bigZ
		if a.o != nil {
			x = a.o.(*Big)
		}
		if b.o != nil {
			y = b.o.(*Big)
		}
		// nil and empty magnitudes are distinguished by the real DeepEqual
		m.path.suspect = "DeepEqual on big.Int"
		return m.vb(m.bigEqTerm(x, y))
	case KSlice:
		x, _ := a.o.(*SliceV)
		y, _ := b.o.(*SliceV)
		if x == nil || y == nil {
			return vBool(x == nil && y == nil)
		}
		if x.len != y.len {
			return vBool(false)
		}
		e := t.elem()
		r := vBool(true)
		for i := 0; i < x.len; i++ {
			p := m.load(fr, V{o: x.obj, u: uint64(x.off + i*e.n)}, e)
			q := m.load(fr, V{o: y.obj, u: uint64(y.off + i*e.n)}, e)
			r = m.and(r, m.deepEq(fr, e, p, q, depth+1))
			if r.o == nil && r.u == 0 {
				break
			}
		}
		return r
	case KStruct:
		x, y := a.o.(agg), b.o.(agg)
		r := vBool(true)
		for i, f := range t.fields {
			r = m.and(r, m.deepEq(fr, f, sub(x, t.foff[i], f), sub(y, t.foff[i], f), depth+1))
		}
		return r
	case KArray:
		x, y := a.o.(agg), b.o.(agg)
		e := t.elem()
		r := vBool(true)
		for i := 0; i < t.alen; i++ {
			r = m.and(r, m.deepEq(fr, e, sub(x, i*e.n, e), sub(y, i*e.n, e), depth+1))
		}
		return r
	case KMap:
		x, _ := a.o.(*MapObj)
		y, _ := b.o.(*MapObj)
		if x == nil || y == nil {
			return vBool(x == nil && y == nil)
		}
		if x.n != y.n {
			return vBool(false)
		}
		r := vBool(true)
		for _, e := range x.entries {
			if e.dead {
				continue
			}
			v, ok := m.mapGet(fr, y, e.k)
			if !ok {
				return vBool(false)
			}
			r = m.and(r, m.deepEq(fr, x.vt, e.v, v, depth+1))
		}
		return r
	case KFunc:
		return vBool(a.o == nil && b.o == nil)
	}
	return m.equal(fr, t, a, b)
}

var _ = fmt.Sprint
