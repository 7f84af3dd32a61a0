package main

// Functions executed natively: assembly, the runtime, fmt, and the harness API.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(m *Machine, fr *frame, a []Val) Val

func findIntrinsic(fn *ssa.Function) intrinsic {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if i, ok := intrinsics[name]; ok {
		return i
	}
	if strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "internal/runtime/atomic.") {
		return atomicIntrinsic(fn)
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == symPkg {
		if i, ok := symIntrinsics[fn.Name()]; ok {
			return i
		}
	}
	return nil
}

func nop(m *Machine, fr *frame, a []Val) Val { return Val{} }

var intrinsics map[string]intrinsic

func sl(v Val) *Slice { s, _ := v.o.(*Slice); return s }

func tup(v ...Val) Val { return Val{o: v} }

var tInt = types.Typ[types.Int]

func init() {
	intrinsics = map[string]intrinsic{
		"internal/bytealg.IndexByte": func(m *Machine, fr *frame, a []Val) Val {
			return m.indexByte(m.bytesToStr(sl(a[0])), a[1])
		},
		"internal/bytealg.IndexByteString": func(m *Machine, fr *frame, a []Val) Val { return m.indexByte(m.S(a[0]), a[1]) },
		"internal/bytealg.Count":           func(m *Machine, fr *frame, a []Val) Val { return m.countByte(m.bytesToStr(sl(a[0])), a[1]) },
		"internal/bytealg.CountString":     func(m *Machine, fr *frame, a []Val) Val { return m.countByte(m.S(a[0]), a[1]) },
		"internal/bytealg.Equal": func(m *Machine, fr *frame, a []Val) Val {
			return fromTerm(m.strEq(m.bytesToStr(sl(a[0])), m.bytesToStr(sl(a[1]))))
		},
		"internal/bytealg.Compare": func(m *Machine, fr *frame, a []Val) Val {
			return m.compareStr(m.bytesToStr(sl(a[0])), m.bytesToStr(sl(a[1])))
		},
		"internal/bytealg.CompareString": func(m *Machine, fr *frame, a []Val) Val { return m.compareStr(m.S(a[0]), m.S(a[1])) },
		"internal/bytealg.MakeNoZero": func(m *Machine, fr *frame, a []Val) Val {
			n := m.concInt(a[0], typeInfo(tInt))
			if n < 0 || n > m.maxAlloc {
				m.chargeHuge(n)
				panic(allocLimit{n})
			}
			return Val{o: &Slice{m.newBytes(int(n)), 0, int(n), int(n)}}
		},
		"strings.Index":              func(m *Machine, fr *frame, a []Val) Val { return m.indexStr(m.S(a[0]), m.S(a[1])) },
		"internal/stringslite.Index": func(m *Machine, fr *frame, a []Val) Val { return m.indexStr(m.S(a[0]), m.S(a[1])) },
		"bytes.Index": func(m *Machine, fr *frame, a []Val) Val {
			return m.indexStr(m.bytesToStr(sl(a[0])), m.bytesToStr(sl(a[1])))
		},
		"strings.Clone":              func(m *Machine, fr *frame, a []Val) Val { return a[0] },
		"internal/stringslite.Clone": func(m *Machine, fr *frame, a []Val) Val { return a[0] },
		"internal/abi.NoEscape":      func(m *Machine, fr *frame, a []Val) Val { return a[0] },
		"internal/abi.Escape":        func(m *Machine, fr *frame, a []Val) Val { return a[0] },
		"unique.Make":                func(m *Machine, fr *frame, a []Val) Val { return Val{o: []Val{{}}} },

		"(*sync.Mutex).Lock":     nop,
		"(*sync.Mutex).Unlock":   nop,
		"(*sync.RWMutex).Lock":   nop,
		"(*sync.RWMutex).Unlock": nop,
		"(*sync.RWMutex).RLock":  nop, "(*sync.RWMutex).RUnlock": nop,
		// A pool of the code under test gives back what was put last.
		"(*sync.Pool).Put": func(m *Machine, fr *frame, a []Val) Val {
			if o := a[0].o.(*Obj); o.global != nil && o.global.Pkg != nil && o.global.Pkg.Pkg.Path() == repoPkg {
				if m.pools == nil {
					m.pools = map[poolKey][]Val{}
				}
				k := poolKey{o, int(a[0].c)}
				m.pools[k] = append(m.pools[k], a[1])
			}
			return Val{}
		},
		"(*sync.Pool).Get": func(m *Machine, fr *frame, a []Val) Val {
			o := a[0].o.(*Obj)
			if o.poison {
				panic(unsupported("sync.Pool of uninitialised package"))
			}
			k := poolKey{o, int(a[0].c)}
			if p := m.pools[k]; len(p) > 0 {
				m.pools[k] = p[:len(p)-1]
				return p[len(p)-1]
			}
			st := m.run.prog.poolTI
			nf := o.cells[int(a[0].c)+st.offs[len(st.offs)-1]]
			if cl, _ := nf.o.(*Closure); cl != nil {
				return m.callClosure(cl, nil, fr)
			}
			return Val{}
		},
		"(*sync.Map).Load": func(m *Machine, fr *frame, a []Val) Val {
			v, ok := m.smapGet(a[0], a[1])
			return tup(v, boolVal(ok))
		},
		"(*sync.Map).Store": func(m *Machine, fr *frame, a []Val) Val {
			m.mapSet(fr, m.smap(a[0]), a[1], a[2])
			return Val{}
		},
		"(*sync.Map).Swap": func(m *Machine, fr *frame, a []Val) Val {
			v, ok := m.smapGet(a[0], a[1])
			m.mapSet(fr, m.smap(a[0]), a[1], a[2])
			return tup(v, boolVal(ok))
		},
		"(*sync.Map).LoadOrStore": func(m *Machine, fr *frame, a []Val) Val {
			v, ok := m.smapGet(a[0], a[1])
			if !ok {
				v = a[2]
				m.mapSet(fr, m.smap(a[0]), a[1], v)
			}
			return tup(v, boolVal(ok))
		},
		"(*sync.Map).LoadAndDelete": func(m *Machine, fr *frame, a []Val) Val {
			v, ok := m.smapGet(a[0], a[1])
			m.mapDelete(fr, m.smap(a[0]), a[1])
			return tup(v, boolVal(ok))
		},
		"(*sync.Map).Delete": func(m *Machine, fr *frame, a []Val) Val {
			m.mapDelete(fr, m.smap(a[0]), a[1])
			return Val{}
		},
		"(*sync.Map).Clear": func(m *Machine, fr *frame, a []Val) Val {
			mo := m.smap(a[0])
			m.specCheck()
			*mo = MapObj{idx: map[any]int{}, key: mo.key, elem: mo.elem}
			return Val{}
		},
		"(*sync.Map).Range": func(m *Machine, fr *frame, a []Val) Val {
			mo := m.smap(a[0])
			order := m.mapOrder(mo)
			for i, n := 0, len(mo.ents); i < n; i++ {
				k := i
				if order != nil {
					k = order[i]
				}
				if e := mo.ents[k]; e.live {
					if !m.decide(m.term(m.callClosure(a[1].o.(*Closure), []Val{e.k, e.v}, fr), 0)) {
						break
					}
				}
			}
			return Val{}
		},
		"runtime.GOMAXPROCS": func(m *Machine, fr *frame, a []Val) Val { return intVal(1) },
		"runtime.NumCPU":     func(m *Machine, fr *frame, a []Val) Val { return intVal(1) },
		"runtime.KeepAlive":  nop, "runtime.SetFinalizer": nop, "runtime.Gosched": nop,
		"internal/godebug.New":                      func(m *Machine, fr *frame, a []Val) Val { return Val{o: &Obj{cells: make([]Val, 16), name: "godebug"}} },
		"(*internal/godebug.Setting).Value":         func(m *Machine, fr *frame, a []Val) Val { return Val{} },
		"(*internal/godebug.Setting).IncNonDefault": nop,
		"(*internal/godebug.Setting).Name":          func(m *Machine, fr *frame, a []Val) Val { return Val{} },
		"time.initLocal": func(m *Machine, fr *frame, a []Val) Val {
			g := m.run.prog.global("time", "localLoc")
			o := m.globalObj(globalIndex(g))
			m.setCell(o, 0, mkStr("UTC"))
			return Val{}
		},
		"time.runtimeNano": func(m *Machine, fr *frame, a []Val) Val { return intVal(1) },
		"time.runtimeNow":  func(m *Machine, fr *frame, a []Val) Val { return tup(intVal(1_700_000_000), Val{}, intVal(1)) },
		"time.now":         func(m *Machine, fr *frame, a []Val) Val { return tup(intVal(1_700_000_000), Val{}, intVal(1)) },

		"fmt.Sprintf": func(m *Machine, fr *frame, a []Val) Val {
			return m.sprintf(fr, m.concStr(a[0]), m.ifaceArgs(a[1])).val()
		},
		"fmt.Sprint":   func(m *Machine, fr *frame, a []Val) Val { return m.sprint(fr, m.ifaceArgs(a[0]), false).val() },
		"fmt.Sprintln": func(m *Machine, fr *frame, a []Val) Val { return m.sprint(fr, m.ifaceArgs(a[0]), true).val() },
		"fmt.Errorf": func(m *Machine, fr *frame, a []Val) Val {
			args := m.ifaceArgs(a[1])
			r := m.sprintf(fr, m.concStr(a[0]), args)
			return m.makeErrorf(r, args)
		},
		"fmt.Fprintf": func(m *Machine, fr *frame, a []Val) Val {
			return m.fwrite(fr, a[0], m.sprintf(fr, m.concStr(a[1]), m.ifaceArgs(a[2])).val())
		},
		"fmt.Fprint": func(m *Machine, fr *frame, a []Val) Val {
			return m.fwrite(fr, a[0], m.sprint(fr, m.ifaceArgs(a[1]), false).val())
		},
		"fmt.Fprintln": func(m *Machine, fr *frame, a []Val) Val {
			return m.fwrite(fr, a[0], m.sprint(fr, m.ifaceArgs(a[1]), true).val())
		},
		"fmt.Appendf": func(m *Machine, fr *frame, a []Val) Val {
			s := m.S(m.sprintf(fr, m.concStr(a[1]), m.ifaceArgs(a[2])).val())
			if s.len() == 0 {
				return a[0]
			}
			dst, off := m.growSlice(a[0], s.len(), typeInfo(types.Typ[types.Uint8]))
			m.writeStr(dst.obj, off, s)
			return Val{o: dst}
		},
		"fmt.Println": func(m *Machine, fr *frame, a []Val) Val { return tup(Val{}, Val{}) },
		"fmt.Printf":  func(m *Machine, fr *frame, a []Val) Val { return tup(Val{}, Val{}) },

		"errors.Is": func(m *Machine, fr *frame, a []Val) Val {
			e, _ := a[0].o.(*Iface)
			t, _ := a[1].o.(*Iface)
			if e == nil || t == nil {
				return boolVal(e == nil && t == nil)
			}
			return boolVal(m.errorsIs(fr, e, t))
		},
		"errors.As": func(m *Machine, fr *frame, a []Val) Val {
			e, _ := a[0].o.(*Iface)
			t, _ := a[1].o.(*Iface)
			if e == nil {
				return Val{}
			}
			if t == nil || t.rt.ti.kind != KPtr || t.v.o == nil {
				m.specCheck()
				panic(&goPanic{v: Val{o: &Iface{m.run.prog.stringRT, mkStr("errors: target must be a non-nil pointer")}}, msg: "errors.As target"})
			}
			return boolVal(m.errorsAs(fr, e, t))
		},
		"sort.Slice":       func(m *Machine, fr *frame, a []Val) Val { return m.sortSlice(fr, a, "pdqsort_func") },
		"sort.SliceStable": func(m *Machine, fr *frame, a []Val) Val { return m.sortSlice(fr, a, "stable_func") },
		"reflect.DeepEqual": func(m *Machine, fr *frame, a []Val) Val {
			panic(unsupported("reflect.DeepEqual"))
		},
		"internal/race.Acquire": nop, "internal/race.Release": nop,
		"os.Exit": func(m *Machine, fr *frame, a []Val) Val { panic(unsupported("os.Exit")) },
	}
}

func (m *Machine) indexByte(s *Str, c Val) Val {
	if s == nil {
		return intVal(-1)
	}
	if s.sym == nil && c.t == nil {
		return intVal(strings.IndexByte(s.s, byte(c.c)))
	}
	ct := m.term(c, 8)
	for i := 0; i < len(s.s); i++ {
		if s.sym != nil && s.sym[i] == nil || s.sym == nil {
			if c.t == nil {
				if s.s[i] == byte(c.c) {
					return intVal(i)
				}
				continue
			}
		}
		if m.decide(m.ts.Eq(m.strTerm(s, i), ct)) {
			return intVal(i)
		}
	}
	return intVal(-1)
}

func (m *Machine) countByte(s *Str, c Val) Val {
	if s == nil {
		return Val{}
	}
	if s.sym == nil && c.t == nil {
		return intVal(strings.Count(s.s, string([]byte{byte(c.c)})))
	}
	ts := m.ts
	acc := ts.Const(64, 0)
	ct := m.term(c, 8)
	for i := 0; i < len(s.s); i++ {
		acc = ts.Add(acc, ts.FromBool(ts.Eq(m.strTerm(s, i), ct), 64))
	}
	return fromTerm(acc)
}

func (m *Machine) indexStr(s, sub *Str) Val {
	n := sub.len()
	if n == 0 {
		return Val{}
	}
	if s.concrete() && sub.concrete() {
		if s == nil {
			return intVal(-1)
		}
		return intVal(strings.Index(s.s, sub.s))
	}
	for i := 0; i+n <= s.len(); i++ {
		if m.decide(m.strEq(s.sub(i, i+n), sub)) {
			return intVal(i)
		}
	}
	return intVal(-1)
}

func (m *Machine) compareStr(a, b *Str) Val {
	ts := m.ts
	eq := m.strEq(a, b)
	lt := m.strLess(a, b, false)
	neg := ts.Const(64, ^uint64(0))
	return fromTerm(ts.Ite(eq, ts.Const(64, 0), ts.Ite(lt, neg, ts.Const(64, 1))))
}

func atomicIntrinsic(fn *ssa.Function) intrinsic {
	if fn.Blocks != nil && fn.Signature.Recv() != nil {
		return nil
	}
	if fn.Blocks != nil && !strings.HasPrefix(fn.String(), "sync/atomic.") {
		return nil
	}
	n := fn.Name()
	sig := fn.Signature
	elem := func() *tinfo {
		p, ok := sig.Params().At(0).Type().Underlying().(*types.Pointer)
		if !ok {
			return nil
		}
		return typeInfo(p.Elem())
	}
	switch {
	case strings.HasPrefix(n, "Load"):
		ti := elem()
		if ti == nil {
			return nil
		}
		return func(m *Machine, fr *frame, a []Val) Val { return m.load(a[0], ti) }
	case strings.HasPrefix(n, "Store"):
		ti := elem()
		if ti == nil {
			return nil
		}
		return func(m *Machine, fr *frame, a []Val) Val { m.store(fr, a[0], a[1], ti); return Val{} }
	case strings.HasPrefix(n, "Add"):
		ti := elem()
		if ti == nil {
			return nil
		}
		return func(m *Machine, fr *frame, a []Val) Val {
			v := m.load(a[0], ti)
			nv := fromTerm(m.ts.Add(m.term(v, ti.w), m.term(a[1], ti.w)))
			m.store(fr, a[0], nv, ti)
			return nv
		}
	case strings.HasPrefix(n, "Swap"):
		ti := elem()
		if ti == nil {
			return nil
		}
		return func(m *Machine, fr *frame, a []Val) Val {
			v := m.load(a[0], ti)
			m.store(fr, a[0], a[1], ti)
			return v
		}
	case strings.HasPrefix(n, "CompareAndSwap"):
		ti := elem()
		if ti == nil {
			return nil
		}
		return func(m *Machine, fr *frame, a []Val) Val {
			v := m.load(a[0], ti)
			if m.decide(m.equal(v, a[1], ti)) {
				m.store(fr, a[0], a[2], ti)
				return boolVal(true)
			}
			return Val{}
		}
	}
	return nil
}

// ---- fmt and errors

func (m *Machine) makeErrorf(r *fmtResult, args []*Iface) Val {
	P := m.run.prog
	msg := r.val()
	errAt := func(i int) Val {
		if args[i] != nil && m.methodVal(args[i].rt, "Error") != nil {
			return Val{o: args[i]}
		}
		return Val{}
	}
	switch len(r.wrapped) {
	case 0:
		o := m.newObj(P.errorStringTI)
		o.cells[0] = msg
		return Val{o: &Iface{P.errorStringRT, Val{o: o}}}
	case 1:
		o := m.newObj(P.wrapErrorTI)
		o.cells[0] = msg
		o.cells[1] = errAt(r.wrapped[0])
		return Val{o: &Iface{P.wrapErrorRT, Val{o: o}}}
	}
	o := m.newObj(P.wrapErrorsTI)
	o.cells[0] = msg
	errs := &Obj{}
	for _, i := range r.wrapped {
		if e := errAt(i); e.o != nil {
			errs.cells = append(errs.cells, e)
		}
	}
	m.track(errs)
	o.cells[1] = Val{o: &Slice{errs, 0, len(errs.cells), len(errs.cells)}}
	return Val{o: &Iface{P.wrapErrorsRT, Val{o: o}}}
}

func (m *Machine) fwrite(fr *frame, w Val, s Val) Val {
	i, _ := w.o.(*Iface)
	if i == nil {
		m.nilDeref()
	}
	str := m.S(s)
	o := m.newBytes(str.len())
	if str != nil {
		m.writeStr(o, 0, str)
	}
	f := m.methodVal(i.rt, "Write")
	if f == nil {
		panic(unsupported("no Write on " + i.rt.T.String()))
	}
	return m.call(f, []Val{i.v, {o: &Slice{o, 0, str.len(), str.len()}}}, nil, fr)
}

func (m *Machine) comparable(rt *rtype) bool { return types.Comparable(rt.T) }

func (m *Machine) errorsIs(fr *frame, e, t *Iface) bool {
	for e != nil {
		if m.comparable(t.rt) && m.decide(m.equal(Val{o: e}, Val{o: t}, m.run.prog.errorTI)) {
			return true
		}
		if f := m.methodVal(e.rt, "Is"); f != nil && f.fn.Signature.Params().Len() == 1 && f.fn.Signature.Results().Len() == 1 {
			r := m.call(f, []Val{e.v, {o: t}}, nil, fr)
			if m.decide(m.term(r, 0)) {
				return true
			}
		}
		f := m.methodVal(e.rt, "Unwrap")
		if f == nil {
			return false
		}
		r := m.call(f, []Val{e.v}, nil, fr)
		if s, ok := r.o.(*Slice); ok {
			for i := 0; i < s.len; i++ {
				if x, _ := s.obj.get(s.off + i).o.(*Iface); x != nil && m.errorsIs(fr, x, t) {
					return true
				}
			}
			return false
		}
		e, _ = r.o.(*Iface)
	}
	return false
}

func (m *Machine) errorsAs(fr *frame, e, t *Iface) bool {
	T := t.rt.T.Underlying().(*types.Pointer).Elem()
	ti := typeInfo(T)
	it, isI := T.Underlying().(*types.Interface)
	for e != nil {
		if isI && e.rt.implements(it) {
			m.store(fr, t.v, Val{o: e}, ti)
			return true
		}
		if !isI && e.rt == runtimeType(T) {
			m.store(fr, t.v, e.v, ti)
			return true
		}
		if f := m.methodVal(e.rt, "As"); f != nil && f.fn.Signature.Params().Len() == 1 {
			if m.decide(m.term(m.call(f, []Val{e.v, {o: t}}, nil, fr), 0)) {
				return true
			}
		}
		f := m.methodVal(e.rt, "Unwrap")
		if f == nil {
			return false
		}
		r := m.call(f, []Val{e.v}, nil, fr)
		if s, ok := r.o.(*Slice); ok {
			for i := 0; i < s.len; i++ {
				if x, _ := s.obj.get(s.off + i).o.(*Iface); x != nil && m.errorsAs(fr, x, t) {
					return true
				}
			}
			return false
		}
		e, _ = r.o.(*Iface)
	}
	return false
}

func (m *Machine) sortSlice(fr *frame, a []Val, impl string) Val {
	m.specCheck()
	x, _ := a[0].o.(*Iface)
	if x == nil {
		return Val{}
	}
	s, _ := x.v.o.(*Slice)
	if s == nil {
		return Val{}
	}
	et := x.rt.ti.elem
	swap := &Closure{name: "swap", native: func(m *Machine, fr *frame, b []Val) Val {
		i := m.index(b[0], typeInfo(tInt), s.len)
		j := m.index(b[1], typeInfo(tInt), s.len)
		pi := Val{o: s.obj, c: uint64(s.off + i*et.size)}
		pj := Val{o: s.obj, c: uint64(s.off + j*et.size)}
		vi, vj := m.load(pi, et), m.load(pj, et)
		m.store(fr, pi, vj, et)
		m.store(fr, pj, vi, et)
		return Val{}
	}}
	ls := Val{o: []Val{a[1], {o: swap}}}
	n := intVal(s.len)
	if impl == "stable_func" {
		m.call(m.run.prog.fn("sort", "stable_func"), []Val{ls, n}, nil, fr)
		return Val{}
	}
	limit := 0
	for k := s.len; k > 0; k >>= 1 {
		limit++
	}
	m.call(m.run.prog.fn("sort", "pdqsort_func"), []Val{ls, {}, n, intVal(limit)}, nil, fr)
	return Val{}
}

// ---- harness API

var symIntrinsics map[string]intrinsic

func (m *Machine) uniq(name string) string {
	m.names[name]++
	if k := m.names[name]; k > 1 {
		return fmt.Sprintf("%s~%d", name, k)
	}
	return name
}

func (m *Machine) input(name string, w uint8) *Term {
	t := m.ts.Var(name, w)
	m.inputs = append(m.inputs, inputVar{name, t})
	return t
}

func bitsFor(n uint64) uint8 {
	w := uint8(1)
	for w < 64 && n > mask(w) {
		w++
	}
	return w
}

// rangeInput makes an integer input lo..hi.
func (m *Machine) rangeInput(name string, lo, hi int64) *Term {
	if lo > hi {
		panic(unsupported("empty input range"))
	}
	span := uint64(hi) - uint64(lo)
	w := bitsFor(span)
	v := m.input(fmt.Sprintf("%s@%d", m.uniq(name), w), w)
	if span < mask(w) {
		m.assume(m.ts.Ule(v, m.ts.Const(w, span)))
	}
	return m.ts.Add(m.ts.ZExt(v, 64), m.ts.Const(64, uint64(lo)))
}

// assume restricts the path; an infeasible restriction ends it.
func (m *Machine) assume(c *Term) {
	m.specCheck()
	if c.isConst() {
		if c.k == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	if v, ok := m.lookupKnown(c); ok {
		if !v {
			panic(pathEnd{"assume"})
		}
		return
	}
	// In the replayed prefix the condition is already part of the model.
	if m.ts.Eval(c, m.model) != 1 {
		r, mod := m.feasible(c, false)
		switch r {
		case Unsat:
			panic(pathEnd{"assume"})
		case Unknown:
			m.note("undecided assumption (solver gave no answer)")
			panic(pathEnd{"assume"})
		}
		m.model = mod
	}
	m.addPC(c)
}

func init() {
	str := func(m *Machine, v Val) string { return m.concStr(v) }
	ti := typeInfo(tInt)
	symIntrinsics = map[string]intrinsic{
		"Byte": func(m *Machine, fr *frame, a []Val) Val {
			m.specCheck()
			return Val{t: m.input(m.uniq(str(m, a[0]))+"@8", 8)}
		},
		"Bool": func(m *Machine, fr *frame, a []Val) Val {
			m.specCheck()
			return Val{t: m.input(m.uniq(str(m, a[0]))+"@0", 0)}
		},
		"Uint64": func(m *Machine, fr *frame, a []Val) Val {
			m.specCheck()
			return Val{t: m.input(m.uniq(str(m, a[0]))+"@64", 64)}
		},
		"Int64": func(m *Machine, fr *frame, a []Val) Val {
			m.specCheck()
			return Val{t: m.input(m.uniq(str(m, a[0]))+"@64", 64)}
		},
		"Int": func(m *Machine, fr *frame, a []Val) Val {
			m.specCheck()
			return fromTerm(m.rangeInput(str(m, a[0]), m.concInt(a[1], ti), m.concInt(a[2], ti)))
		},
		"Choose": func(m *Machine, fr *frame, a []Val) Val {
			m.specCheck()
			t := m.rangeInput(str(m, a[0]), 0, m.concInt(a[1], ti)-1)
			return Val{c: m.concTerm(t)}
		},
		"String": func(m *Machine, fr *frame, a []Val) Val {
			m.specCheck()
			return strVal(m.symString(str(m, a[0]), int(m.concInt(a[1], ti))))
		},
		"Bytes": func(m *Machine, fr *frame, a []Val) Val {
			m.specCheck()
			s := m.symString(str(m, a[0]), int(m.concInt(a[1], ti)))
			o := m.newBytes(s.len())
			if s != nil {
				m.writeStr(o, 0, s)
			}
			return Val{o: &Slice{o, 0, s.len(), s.len()}}
		},
		"Assume": func(m *Machine, fr *frame, a []Val) Val {
			m.assume(m.term(a[0], 0))
			return Val{}
		},
		"Assert": func(m *Machine, fr *frame, a []Val) Val {
			m.specCheck()
			m.assert(m.term(a[0], 0), str(m, a[1]))
			return Val{}
		},
		"Concrete": func(m *Machine, fr *frame, a []Val) Val {
			return Val{c: uint64(m.concInt(a[0], ti))}
		},
		"ConcreteString": func(m *Machine, fr *frame, a []Val) Val { return mkStr(m.concStr(a[0])) },
		"Reach": func(m *Machine, fr *frame, a []Val) Val {
			m.specCheck()
			m.reach[str(m, a[0])] = true
			return Val{}
		},
		"Observe": func(m *Machine, fr *frame, a []Val) Val {
			m.specCheck()
			i, _ := a[1].o.(*Iface)
			o := observation{name: str(m, a[0])}
			if i != nil {
				o.v, o.T = i.v, i.rt.T
				if s, ok := o.v.o.(*Slice); ok && i.rt.ti.elem.isByte {
					o.v = strVal(m.bytesToStr(s)) // snapshot
				}
			}
			m.obs = append(m.obs, o)
			return Val{}
		},
		"Thorough": func(m *Machine, fr *frame, a []Val) Val { return boolVal(m.run.thorough) },
		"And":      func(m *Machine, fr *frame, a []Val) Val { return fromTerm(m.ts.And(m.term(a[0], 0), m.term(a[1], 0))) },
		"Or":       func(m *Machine, fr *frame, a []Val) Val { return fromTerm(m.ts.Or(m.term(a[0], 0), m.term(a[1], 0))) },
		"Not":      func(m *Machine, fr *frame, a []Val) Val { return fromTerm(m.ts.Not(m.term(a[0], 0))) },
		"EqBytes": func(m *Machine, fr *frame, a []Val) Val {
			return fromTerm(m.strEq(m.bytesToStr(sl(a[0])), m.bytesToStr(sl(a[1]))))
		},
		"IsSymbolic": func(m *Machine, fr *frame, a []Val) Val { return boolVal(true) },
		"Concurrently": func(m *Machine, fr *frame, a []Val) Val {
			m.repoWrite = ""
			for _, f := range a[:2] {
				m.callClosure(f.o.(*Closure), nil, fr)
			}
			if m.repoWrite != "" {
				m.raceCandidate()
			}
			return Val{}
		},
		"Memory": func(m *Machine, fr *frame, a []Val) Val {
			m.specCheck()
			if m.memLimit > 0 {
				panic(unsupported("nested sym.Memory"))
			}
			m.memLimit, m.memUsed, m.memMsg = int64(a[0].c), 0, str(m, a[1])
			m.callClosure(a[2].o.(*Closure), nil, fr)
			m.memLimit = 0
			m.assert(m.ts.True, m.memMsg)
			return Val{}
		},
		"Fresh": func(m *Machine, fr *frame, a []Val) Val {
			m.fresh(func() { m.callClosure(a[0].o.(*Closure), nil, fr) })
			return Val{}
		},
		"Ite": func(m *Machine, fr *frame, a []Val) Val {
			return fromTerm(m.ts.Ite(m.term(a[0], 0), m.term(a[1], 64), m.term(a[2], 64)))
		},
	}
}

func (m *Machine) symString(name string, n int) *Str {
	if n == 0 {
		return nil
	}
	name = m.uniq(name)
	s := &Str{s: string(make([]byte, n)), sym: make([]*Term, n)}
	for i := range s.sym {
		s.sym[i] = m.input(fmt.Sprintf("%s[%d]@8", name, i), 8)
	}
	return s
}

// smap is the content of a sync.Map.
func (m *Machine) smap(p Val) *MapObj {
	o, _ := p.o.(*Obj)
	if o == nil {
		panic(unsupported("sync.Map that is not a plain variable"))
	}
	m.specCheck()
	k := poolKey{o, int(p.c)}
	mo := m.smaps[k]
	if mo == nil {
		if m.initing {
			panic(unsupported("sync.Map filled by an init function"))
		}
		ti := typeInfo(types.NewInterfaceType(nil, nil))
		mo = &MapObj{idx: map[any]int{}, key: ti, elem: ti}
		if m.smaps == nil {
			m.smaps = map[poolKey]*MapObj{}
		}
		m.smaps[k] = mo
	}
	return mo
}

func (m *Machine) smapGet(p, k Val) (Val, bool) {
	mo := m.smap(p)
	if i := m.mapFind(mo, k); i >= 0 {
		return mo.ents[i].v, true
	}
	return Val{}, false
}
