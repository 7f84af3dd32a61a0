package main

// Runtime values of the symbolic interpreter.

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Val is one value. Scalars use c (concrete bits, zero-extended to the type's
// width) or t (symbolic). Other kinds use o:
//
//	string *Str | pointer *Obj (+c offset) or *SymPtr | slice *Slice | map *MapObj
//	func *Closure | interface *Iface | struct/array/tuple []Val
type Val struct {
	t *Term
	c uint64
	o any
}

type Kind uint8

const (
	KBool Kind = iota
	KInt
	KFloat
	KString
	KPtr
	KSlice
	KMap
	KChan
	KFunc
	KIface
	KStruct
	KArray
	KTuple
	KComplex
)

type tinfo struct {
	kind   Kind
	w      uint8
	signed bool
	size   int // flattened cells
	elem   *tinfo
	key    *tinfo
	fields []*tinfo
	offs   []int
	n      int // array length
	T      types.Type
	isByte bool
}

var (
	tiMu  sync.Mutex
	tiTab typeutil.Map
	rtTab typeutil.Map
)

// rtype is the canonical dynamic type of interface values.
type rtype struct {
	T       types.Type
	ti      *tinfo
	methods sync.Map // key string -> *cfunc
	impl    sync.Map // types.Type -> bool
}

func typeInfo(T types.Type) *tinfo {
	tiMu.Lock()
	defer tiMu.Unlock()
	return typeInfoLocked(T)
}

func typeInfoLocked(T types.Type) *tinfo {
	if v := tiTab.At(T); v != nil {
		return v.(*tinfo)
	}
	ti := &tinfo{T: T, size: 1}
	tiTab.Set(T, ti)
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.kind, ti.w = KBool, 0
		case types.Int, types.Int64, types.UntypedInt:
			ti.kind, ti.w, ti.signed = KInt, 64, true
		case types.Int8:
			ti.kind, ti.w, ti.signed = KInt, 8, true
		case types.Int16:
			ti.kind, ti.w, ti.signed = KInt, 16, true
		case types.Int32, types.UntypedRune:
			ti.kind, ti.w, ti.signed = KInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			ti.kind, ti.w = KInt, 64
		case types.Uint8:
			ti.kind, ti.w = KInt, 8
			ti.isByte = true
		case types.Uint16:
			ti.kind, ti.w = KInt, 16
		case types.Uint32:
			ti.kind, ti.w = KInt, 32
		case types.Float32:
			ti.kind, ti.w = KFloat, 32
		case types.Float64, types.UntypedFloat:
			ti.kind, ti.w = KFloat, 64
		case types.String, types.UntypedString:
			ti.kind = KString
		case types.UnsafePointer:
			ti.kind = KPtr
		case types.UntypedNil:
			ti.kind = KPtr
		case types.Complex64, types.Complex128, types.UntypedComplex:
			ti.kind = KComplex
		default: // Invalid: ssa range iterators
			ti.kind = KTuple
		}
	case *types.Pointer:
		ti.kind = KPtr
	case *types.Slice:
		ti.kind = KSlice
		ti.elem = typeInfoLocked(u.Elem())
	case *types.Map:
		ti.kind = KMap
		ti.elem = typeInfoLocked(u.Elem())
		ti.key = typeInfoLocked(u.Key())
	case *types.Chan:
		ti.kind = KChan
	case *types.Signature:
		ti.kind = KFunc
	case *types.Interface:
		ti.kind = KIface
	case *types.Struct:
		ti.kind = KStruct
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			f := typeInfoLocked(u.Field(i).Type())
			ti.fields = append(ti.fields, f)
			ti.offs = append(ti.offs, off)
			off += f.size
		}
		ti.size = off
	case *types.Array:
		ti.kind = KArray
		ti.elem = typeInfoLocked(u.Elem())
		ti.n = int(u.Len())
		ti.size = ti.n * ti.elem.size
	case *types.Tuple:
		ti.kind = KTuple
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, typeInfoLocked(u.At(i).Type()))
		}
	default:
		ti.kind = KTuple
	}
	return ti
}

func (ti *tinfo) agg() bool { return ti.kind == KStruct || ti.kind == KArray }

func runtimeType(T types.Type) *rtype {
	tiMu.Lock()
	defer tiMu.Unlock()
	T = types.Unalias(T)
	if v := rtTab.At(T); v != nil {
		return v.(*rtype)
	}
	rt := &rtype{T: T, ti: typeInfoLocked(T)}
	rtTab.Set(T, rt)
	return rt
}

type Str struct {
	s   string
	sym []*Term // nil, or len(s) entries (nil entry: concrete byte)
}

// LazyStr is text whose formatting of symbolic values is postponed until
// something looks at it.
type LazyStr struct {
	force func() *Str
	done  bool
	s     *Str
}

type Slice struct {
	obj           *Obj
	off, len, cap int
}

type Obj struct {
	cells  []Val
	b      []byte
	bs     []*Term
	isB    bool
	frozen bool
	poison bool
	repo   bool // allocated by the initialisation of the repository's package
	global *ssa.Global
	name   string
}

func newObjN(elem *tinfo, n int) *Obj {
	if elem.isByte {
		return &Obj{isB: true, b: make([]byte, n)}
	}
	return &Obj{cells: make([]Val, n*elem.size)}
}

func newObj(ti *tinfo) *Obj {
	if ti.isByte {
		return &Obj{isB: true, b: make([]byte, 1)}
	}
	if ti.kind == KArray && ti.elem.isByte {
		return &Obj{isB: true, b: make([]byte, ti.n)}
	}
	return &Obj{cells: make([]Val, ti.size)}
}

func (o *Obj) n() int {
	if o.isB {
		return len(o.b)
	}
	return len(o.cells)
}

func (o *Obj) get(i int) Val {
	if o.isB {
		v := Val{c: uint64(o.b[i])}
		if o.bs != nil && o.bs[i] != nil {
			v.t = o.bs[i]
		}
		return v
	}
	return o.cells[i]
}

// set must only be called through Machine.set (journal).
func (o *Obj) set(i int, v Val) {
	if o.isB {
		if v.t != nil {
			if o.bs == nil {
				o.bs = make([]*Term, len(o.b))
			}
			o.bs[i] = v.t
			o.b[i] = 0
			return
		}
		o.b[i] = byte(v.c)
		if o.bs != nil {
			o.bs[i] = nil
		}
		return
	}
	o.cells[i] = v
}

// SymPtr is the address of an element selected by a symbolic index.
type SymPtr struct {
	obj    *Obj
	off    int
	idx    *Term // 64-bit
	n      int
	stride int
}

type Closure struct {
	fn     *cfunc
	env    []Val
	native func(m *Machine, fr *frame, args []Val) Val
	name   string
}

type Iface struct {
	rt *rtype
	v  Val
}

type mapEnt struct {
	k, v Val
	live bool
}

type MapObj struct {
	ents    []mapEnt
	idx     map[any]int
	n       int
	symKeys bool
	frozen  bool
	key     *tinfo
	elem    *tinfo
}

type mapIter struct {
	m     *MapObj
	i     int
	order []int // indices of entries; insertion order without
}

type strIter struct {
	s *Str
	i int
}

func (s *Str) len() int {
	if s == nil {
		return 0
	}
	return len(s.s)
}

func (s *Str) at(i int) Val {
	v := Val{c: uint64(s.s[i])}
	if s.sym != nil {
		v.t = s.sym[i]
	}
	return v
}

func (s *Str) concrete() bool { return s == nil || s.sym == nil }

func mkStr(s string) Val {
	if s == "" {
		return Val{}
	}
	return Val{o: &Str{s: s}}
}

func (s *Str) sub(lo, hi int) *Str {
	if lo == hi {
		return nil
	}
	r := &Str{s: s.s[lo:hi]}
	if s.sym != nil {
		sub := s.sym[lo:hi]
		for _, t := range sub {
			if t != nil {
				r.sym = sub
				break
			}
		}
	}
	return r
}

func strVal(s *Str) Val {
	if s == nil || len(s.s) == 0 {
		return Val{}
	}
	return Val{o: s}
}

func concatStr(parts ...*Str) *Str {
	n, sym := 0, false
	for _, p := range parts {
		if p != nil {
			n += len(p.s)
			sym = sym || p.sym != nil
		}
	}
	if n == 0 {
		return nil
	}
	var b strings.Builder
	b.Grow(n)
	var ts []*Term
	if sym {
		ts = make([]*Term, 0, n)
	}
	for _, p := range parts {
		if p == nil {
			continue
		}
		b.WriteString(p.s)
		if sym {
			if p.sym != nil {
				ts = append(ts, p.sym...)
			} else {
				ts = append(ts, make([]*Term, len(p.s))...)
			}
		}
	}
	return &Str{s: b.String(), sym: ts}
}

func intVal(i int) Val     { return Val{c: uint64(int64(i))} }
func boolVal(b bool) Val   { return Val{c: b2u(b)} }
func (v Val) isConc() bool { return v.t == nil }
func (v Val) isNilO() bool { return v.o == nil }
func (v Val) String() string {
	return fmt.Sprintf("{t=%v c=%d o=%T}", v.t != nil, v.c, v.o)
}

// termOf gives the term of a scalar of width w.
func (m *Machine) term(v Val, w uint8) *Term {
	if v.t != nil {
		return v.t
	}
	return m.ts.Const(w, v.c)
}

// fromTerm wraps a term, dropping to concrete for constants.
func fromTerm(t *Term) Val {
	if t.isConst() {
		return Val{c: t.k}
	}
	return Val{t: t}
}
