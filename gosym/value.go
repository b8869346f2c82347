package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// V is a register or memory slot. Concrete scalars live in u (sign- or
// zero-extended to 64 bits according to their type); everything else in o.
// The zero V is the zero value of every slot type.
type V struct {
	u uint64
	o any
}

type Kind uint8

const (
	KInvalid Kind = iota
	KBool
	KInt // all integer types; width and signedness in RType
	KFloat
	KComplex
	KString
	KPtr
	KUnsafePtr
	KSlice
	KArray
	KStruct
	KMap
	KChan
	KFunc
	KIface
	KBig    // math/big.Int as one opaque slot
	KOpaque // reflect.Value as one opaque slot
	KTuple
)

// RType is a canonical runtime type.
type RType struct {
	t      types.Type
	id     int
	kind   Kind
	w      int
	signed bool
	n      int // number of slots
	alen   int
	fields []*RType
	foff   []int
	st     *types.Struct

	mu     sync.Mutex
	elem_  *RType
	key_   *RType
	size   int64 // bytes, as laid out by gc on amd64
	noscan bool
}

type Types struct {
	mu   sync.Mutex
	m    typeutil.Map
	n    int
	size types.Sizes
}

var rtypes = &Types{size: types.SizesFor("gc", "amd64")}

func rtypeOf(t types.Type) *RType {
	rtypes.mu.Lock()
	defer rtypes.mu.Unlock()
	return rtypes.get(t)
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

func (ts *Types) get(t types.Type) *RType {
	t = types.Unalias(t)
	if x := ts.m.At(t); x != nil {
		return x.(*RType)
	}
	r := &RType{t: t, id: ts.n, n: 1}
	ts.n++
	ts.m.Set(t, r)
	switch {
	case isNamed(t, "math/big", "Int"):
		r.kind = KBig
		return r
	case isNamed(t, "reflect", "Value"):
		r.kind = KOpaque
		return r
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			r.kind = KBool
		case types.Int, types.Int64, types.UntypedInt:
			r.kind, r.w, r.signed = KInt, 64, true
		case types.Int32, types.UntypedRune:
			r.kind, r.w, r.signed = KInt, 32, true
		case types.Int16:
			r.kind, r.w, r.signed = KInt, 16, true
		case types.Int8:
			r.kind, r.w, r.signed = KInt, 8, true
		case types.Uint, types.Uint64, types.Uintptr:
			r.kind, r.w = KInt, 64
		case types.Uint32:
			r.kind, r.w = KInt, 32
		case types.Uint16:
			r.kind, r.w = KInt, 16
		case types.Uint8:
			r.kind, r.w = KInt, 8
		case types.Float32:
			r.kind, r.w = KFloat, 32
		case types.Float64, types.UntypedFloat:
			r.kind, r.w = KFloat, 64
		case types.Complex64, types.Complex128, types.UntypedComplex:
			r.kind = KComplex
		case types.String, types.UntypedString:
			r.kind = KString
		case types.UnsafePointer:
			r.kind = KUnsafePtr
		case types.UntypedNil:
			r.kind = KUnsafePtr
		default:
			r.kind = KInvalid
		}
	case *types.Pointer:
		r.kind = KPtr
	case *types.Slice:
		r.kind = KSlice
	case *types.Array:
		r.kind = KArray
		e := ts.get(u.Elem())
		r.elem_ = e
		r.alen = int(u.Len())
		r.n = e.n * r.alen
	case *types.Struct:
		r.kind = KStruct
		r.st = u
		r.n = 0
		for i := 0; i < u.NumFields(); i++ {
			f := ts.get(u.Field(i).Type())
			r.fields = append(r.fields, f)
			r.foff = append(r.foff, r.n)
			r.n += f.n
		}
	case *types.Map:
		r.kind = KMap
	case *types.Chan:
		r.kind = KChan
	case *types.Signature:
		r.kind = KFunc
	case *types.Interface:
		r.kind = KIface
	case *types.Tuple:
		r.kind = KTuple
	case *types.TypeParam:
		r.kind = KInvalid
	default:
		panic(fmt.Sprintf("rtype: %T %v", u, t))
	}
	return r
}

func (r *RType) agg() bool { return r.kind == KStruct || r.kind == KArray }

func (r *RType) elem() *RType {
	r.mu.Lock()
	e := r.elem_
	r.mu.Unlock()
	if e != nil {
		return e
	}
	switch u := r.t.Underlying().(type) {
	case *types.Pointer:
		e = rtypeOf(u.Elem())
	case *types.Slice:
		e = rtypeOf(u.Elem())
	case *types.Chan:
		e = rtypeOf(u.Elem())
	case *types.Map:
		e = rtypeOf(u.Elem())
	default:
		panic("elem of " + r.t.String())
	}
	r.mu.Lock()
	r.elem_ = e
	r.mu.Unlock()
	return e
}

func (r *RType) key() *RType {
	r.mu.Lock()
	e := r.key_
	r.mu.Unlock()
	if e != nil {
		return e
	}
	e = rtypeOf(r.t.Underlying().(*types.Map).Key())
	r.mu.Lock()
	r.key_ = e
	r.mu.Unlock()
	return e
}

func (r *RType) bytes() int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.size == 0 {
		r.size = 1 + rtypes.size.Sizeof(r.t)
		r.noscan = !hasPointers(r.t)
	}
	return r.size - 1
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (r *RType) String() string { return r.t.String() }

// Obj is a block of memory slots.
type Obj struct {
	cells  []V
	shared bool // allocated during package initialisation: undo-logged
	race   map[int]*raceCell
}

// SymPtr points at base+stride*idx of obj, 0 <= idx < n.
type SymPtr struct {
	obj          *Obj
	base, stride int
	n            int
	idx          *Term // 64 bits
}

type SliceV struct {
	obj      *Obj
	off      int // slots
	len, cap int // elements
}

type agg []V
type tuple []V

type Iface struct {
	t *RType
	v V
}

type Closure struct {
	fn     *cfn
	env    []V
	native func(m *Machine, g *G, args []V) V
	nname  string
}

// SymStr is a string with concrete length and possibly symbolic bytes.
type SymStr struct {
	b []V
}

// BigStr is the lazily rendered decimal representation of a symbolic integer.
type BigStr struct {
	x    *Big
	base int
}

// Big is an immutable integer value: concrete, or a two's complement term.
type Big struct {
	c *big.Int
	t *Term
	// shared marks values that were copied structurally (*z = *x)
	sharedStorage bool
}

type mapEntry struct {
	k, v V
	dead bool
}

type MapObj struct {
	kt, vt  *RType
	idx     map[any]int
	entries []*mapEntry
	n       int
	nsym    int // live entries with symbolic keys
	shared  bool
	race    *raceCell
}

type mapIter struct {
	m     *MapObj
	order []int
	pos   int
}

type strIter struct {
	s   V
	pos int
}

func strLen(v V) int {
	switch s := v.o.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	return -1
}

func vInt(x int) V  { return V{u: uint64(int64(x))} }
func vU(x uint64) V { return V{u: x} }
func vStr(s string) V {
	if s == "" {
		return V{}
	}
	return V{o: s}
}
func vBool(b bool) V {
	if b {
		return V{u: 1}
	}
	return V{}
}

var kindNames = [...]string{"invalid", "bool", "int", "float", "complex", "string", "ptr", "unsafeptr", "slice", "array", "struct", "map", "chan", "func", "iface", "big", "opaque", "tuple"}

func (k Kind) String() string { return kindNames[k] }
