package main

// Builtins and maps.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type builtinFn func(m *Machine, fr *frame, args []Val) Val

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon) builtinFn {
	var ats []*tinfo
	for _, a := range cc.Args {
		ats = append(ats, typeInfo(a.Type()))
	}
	var rt *tinfo
	if sig, ok := b.Type().(*types.Signature); ok && sig.Results().Len() == 1 {
		rt = typeInfo(sig.Results().At(0).Type())
	}
	switch b.Name() {
	case "len":
		switch ats[0].kind {
		case KString:
			return func(m *Machine, fr *frame, a []Val) Val { return intVal(m.S(a[0]).len()) }
		case KSlice:
			return func(m *Machine, fr *frame, a []Val) Val {
				if s, _ := a[0].o.(*Slice); s != nil {
					return intVal(s.len)
				}
				return Val{}
			}
		case KMap:
			return func(m *Machine, fr *frame, a []Val) Val {
				if s, _ := a[0].o.(*MapObj); s != nil {
					return intVal(s.n)
				}
				return Val{}
			}
		case KArray:
			return func(m *Machine, fr *frame, a []Val) Val { return intVal(ats[0].n) }
		case KPtr:
			n := typeInfo(cc.Args[0].Type().Underlying().(*types.Pointer).Elem()).n
			return func(m *Machine, fr *frame, a []Val) Val { return intVal(n) }
		}
	case "cap":
		switch ats[0].kind {
		case KSlice:
			return func(m *Machine, fr *frame, a []Val) Val {
				if s, _ := a[0].o.(*Slice); s != nil {
					return intVal(s.cap)
				}
				return Val{}
			}
		case KArray:
			return func(m *Machine, fr *frame, a []Val) Val { return intVal(ats[0].n) }
		case KPtr:
			n := typeInfo(cc.Args[0].Type().Underlying().(*types.Pointer).Elem()).n
			return func(m *Machine, fr *frame, a []Val) Val { return intVal(n) }
		}
	case "append":
		et := ats[0].elem
		if len(ats) == 1 {
			return func(m *Machine, fr *frame, a []Val) Val { return a[0] }
		}
		if ats[1].kind == KString {
			return func(m *Machine, fr *frame, a []Val) Val {
				s := m.S(a[1])
				if s.len() == 0 {
					return a[0]
				}
				dst, off := m.growSlice(a[0], s.len(), et)
				m.writeStr(dst.obj, off, s)
				return Val{o: dst}
			}
		}
		return func(m *Machine, fr *frame, a []Val) Val {
			src, _ := a[1].o.(*Slice)
			if src == nil || src.len == 0 {
				return a[0]
			}
			dst, off := m.growSlice(a[0], src.len, et)
			m.copyCells(dst.obj, off, src.obj, src.off, src.len*et.size)
			return Val{o: dst}
		}
	case "copy":
		et := ats[0].elem
		return func(m *Machine, fr *frame, a []Val) Val {
			m.specCheck()
			dst, _ := a[0].o.(*Slice)
			if ats[1].kind == KString {
				s := m.S(a[1])
				if dst == nil {
					return Val{}
				}
				n := min(dst.len, s.len())
				if n > 0 {
					m.writeStr(dst.obj, dst.off, s.sub(0, n))
				}
				return intVal(n)
			}
			src, _ := a[1].o.(*Slice)
			if dst == nil || src == nil {
				return Val{}
			}
			n := min(dst.len, src.len)
			m.copyCells(dst.obj, dst.off, src.obj, src.off, n*et.size)
			return intVal(n)
		}
	case "delete":
		return func(m *Machine, fr *frame, a []Val) Val {
			m.specCheck()
			mo, _ := a[0].o.(*MapObj)
			if mo != nil {
				m.mapDelete(fr, mo, a[1])
			}
			return Val{}
		}
	case "clear":
		return func(m *Machine, fr *frame, a []Val) Val {
			m.specCheck()
			switch x := a[0].o.(type) {
			case *Slice:
				z := zeroVal(ats[0].elem)
				for i := 0; i < x.len; i++ {
					m.store(fr, Val{o: x.obj, c: uint64(x.off + i*ats[0].elem.size)}, z, ats[0].elem)
				}
			case *MapObj:
				m.mapJournal(x)
				x.ents, x.idx, x.n = nil, map[any]int{}, 0
			}
			return Val{}
		}
	case "min", "max":
		isMax := b.Name() == "max"
		return func(m *Machine, fr *frame, a []Val) Val {
			acc := a[0]
			ti := ats[0]
			for _, x := range a[1:] {
				switch ti.kind {
				case KInt:
					p, q := m.term(acc, ti.w), m.term(x, ti.w)
					var lt *Term
					if ti.signed {
						lt = m.ts.Slt(p, q)
					} else {
						lt = m.ts.Ult(p, q)
					}
					if isMax {
						lt = m.ts.Not(lt)
						acc = fromTerm(m.ts.Ite(lt, p, q))
					} else {
						acc = fromTerm(m.ts.Ite(lt, p, q))
					}
				default:
					panic(unsupported("min/max"))
				}
			}
			return acc
		}
	case "panic":
		return func(m *Machine, fr *frame, a []Val) Val {
			m.specCheck()
			panic(&goPanic{v: a[0], msg: m.panicText(a[0]), where: m.where()})
		}
	case "recover":
		return func(m *Machine, fr *frame, a []Val) Val {
			m.specCheck()
			if fr == nil || fr.caller == nil || !fr.caller.running || fr.caller.panicking == nil {
				return Val{}
			}
			p := fr.caller.panicking
			fr.caller.panicking = nil
			return p.v
		}
	case "print", "println":
		return func(m *Machine, fr *frame, a []Val) Val { return Val{} }
	case "String": // unsafe.String
		return func(m *Machine, fr *frame, a []Val) Val {
			n := int(m.concInt(a[1], ats[1]))
			if n == 0 {
				return Val{}
			}
			o, ok := a[0].o.(*Obj)
			if !ok {
				panic(unsupported("unsafe.String"))
			}
			return strVal(m.bytesToStr(&Slice{o, int(a[0].c), n, n}))
		}
	case "StringData":
		return func(m *Machine, fr *frame, a []Val) Val {
			s := m.S(a[0])
			if s.len() == 0 {
				return Val{}
			}
			o := m.newBytes(s.len())
			m.writeStr(o, 0, s)
			return Val{o: o}
		}
	case "SliceData":
		return func(m *Machine, fr *frame, a []Val) Val {
			s, _ := a[0].o.(*Slice)
			if s == nil {
				return Val{}
			}
			return Val{o: s.obj, c: uint64(s.off)}
		}
	case "Slice":
		return func(m *Machine, fr *frame, a []Val) Val {
			n := int(m.concInt(a[1], ats[1]))
			if a[0].o == nil {
				return Val{}
			}
			o, ok := a[0].o.(*Obj)
			if !ok {
				panic(unsupported("unsafe.Slice"))
			}
			return Val{o: &Slice{o, int(a[0].c), n, n}}
		}
	case "ssa:wrapnilchk":
		return func(m *Machine, fr *frame, a []Val) Val {
			if a[0].o == nil {
				m.nilDeref()
			}
			return a[0]
		}
	case "ssa:deferstack":
		return func(m *Machine, fr *frame, a []Val) Val { return Val{} }
	}
	_ = rt
	name := b.Name()
	return func(m *Machine, fr *frame, a []Val) Val { panic(unsupported("builtin " + name)) }
}

// growSlice returns a slice n longer than v and the offset of the new part.
func (m *Machine) growSlice(v Val, n int, et *tinfo) (*Slice, int) {
	m.specCheck()
	s, _ := v.o.(*Slice)
	if s != nil && s.len+n <= s.cap {
		return &Slice{s.obj, s.off, s.len + n, s.cap}, s.off + s.len*et.size
	}
	old := 0
	if s != nil {
		old = s.len
	}
	want := old + n
	cp := 0
	if s != nil {
		cp = s.cap
	}
	// same growth policy as the runtime, before size-class rounding
	nc := cp
	if want > 2*cp {
		nc = want
	} else if cp < 256 {
		nc = 2 * cp
	} else {
		for nc < want {
			nc += (nc + 3*256) >> 2
		}
	}
	if et.isByte && nc < 8 {
		nc = 8
	}
	if int64(nc)*int64(max(et.size, 1)) > m.maxAlloc {
		m.chargeHuge(int64(nc))
		panic(allocLimit{int64(nc)})
	}
	o := newObjN(et, nc)
	m.track(o)
	if old > 0 {
		m.copyCells(o, 0, s.obj, s.off, old*et.size)
	}
	return &Slice{o, 0, want, nc}, old * et.size
}

func (m *Machine) writeStr(o *Obj, off int, s *Str) {
	if o.isB && !o.frozen {
		copy(o.b[off:], s.s)
		if s.sym != nil {
			if o.bs == nil {
				o.bs = make([]*Term, len(o.b))
			}
			copy(o.bs[off:], s.sym)
		} else if o.bs != nil {
			clear(o.bs[off : off+len(s.s)])
		}
		return
	}
	for i := 0; i < len(s.s); i++ {
		m.setCell(o, off+i, s.at(i))
	}
}

// copyCells is memmove.
func (m *Machine) copyCells(d *Obj, doff int, s *Obj, soff, n int) {
	if n == 0 {
		return
	}
	if s.poison {
		panic(unsupported("uninitialised package state " + s.name))
	}
	if d.frozen || d.isB != s.isB {
		if d == s && doff > soff {
			for i := n - 1; i >= 0; i-- {
				m.setCell(d, doff+i, s.get(soff+i))
			}
			return
		}
		for i := 0; i < n; i++ {
			m.setCell(d, doff+i, s.get(soff+i))
		}
		return
	}
	if d.isB {
		copy(d.b[doff:doff+n], s.b[soff:soff+n])
		if s.bs != nil {
			if d.bs == nil {
				d.bs = make([]*Term, len(d.b))
			}
			copy(d.bs[doff:doff+n], s.bs[soff:soff+n])
		} else if d.bs != nil {
			clear(d.bs[doff : doff+n])
		}
		return
	}
	copy(d.cells[doff:doff+n], s.cells[soff:soff+n])
}

// ---- maps

func (m *Machine) newMap(ti *tinfo) *MapObj {
	mo := &MapObj{idx: map[any]int{}, key: ti.key, elem: ti.elem}
	m.nalloc++
	if m.initing {
		m.initMaps = append(m.initMaps, mo)
	}
	return mo
}

type structKey string

// mapKey gives a comparable Go key for a concrete value.
func (m *Machine) mapKey(v Val, ti *tinfo) (any, bool) {
	switch ti.kind {
	case KBool, KInt, KFloat:
		if v.t != nil {
			return nil, false
		}
		return v.c, true
	case KString:
		s := m.S(v)
		if s == nil {
			return "", true
		}
		if s.sym != nil {
			return nil, false
		}
		return s.s, true
	case KPtr, KChan:
		return [2]any{v.o, v.c}, true
	case KIface:
		i, _ := v.o.(*Iface)
		if i == nil {
			return nil, true
		}
		k, ok := m.mapKey(i.v, i.rt.ti)
		if !ok {
			return nil, false
		}
		return [2]any{i.rt, k}, true
	case KStruct, KArray:
		s := ""
		vs := v.o.([]Val)
		var fs []*tinfo
		var offs []int
		if ti.kind == KStruct {
			fs, offs = ti.fields, ti.offs
		} else {
			for i := 0; i < ti.n; i++ {
				fs = append(fs, ti.elem)
				offs = append(offs, i*ti.elem.size)
			}
		}
		for i, f := range fs {
			k, ok := m.mapKey(sub(vs, offs[i], f), f)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%v|", k, k)
		}
		return structKey(s), true
	}
	panic(unsupported("map key " + ti.T.String()))
}

// mapFind returns the entry index or -1, forking on symbolic keys.
func (m *Machine) mapFind(mo *MapObj, k Val) int {
	key, ok := m.mapKey(k, mo.key)
	if ok && !mo.symKeys {
		if i, ok := mo.idx[key]; ok {
			return i
		}
		return -1
	}
	for i := range mo.ents {
		if mo.ents[i].live && m.decide(m.equal(k, mo.ents[i].k, mo.key)) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapLookup(mv, k Val, ti *tinfo) (Val, Val) {
	mo, _ := mv.o.(*MapObj)
	zero := zeroVal(ti.elem)
	if mo == nil {
		return zero, Val{}
	}
	if k.t != nil && mergeable(ti.elem) && !mo.symKeys && (ti.key.kind == KInt || ti.key.kind == KBool) {
		// scalar map: one table-like term, no fork
		ts := m.ts
		if vals, has, ok := m.constMap(mo, ti); ok {
			found := ts.Not(ts.Eq(ts.Table(has, 8, k.t), ts.Const(8, 0)))
			if ti.elem.w == 0 {
				return fromTerm(ts.Not(ts.Eq(ts.Table(vals, 8, k.t), ts.Const(8, 0)))), fromTerm(found)
			}
			return fromTerm(ts.Table(vals, ti.elem.w, k.t)), fromTerm(found)
		}
		found := ts.False
		res := m.term(zero, ti.elem.w)
		for i := range mo.ents {
			e := &mo.ents[i]
			if !e.live {
				continue
			}
			c := ts.Eq(k.t, m.term(e.k, ti.key.w))
			found = ts.Or(found, c)
			res = ts.Ite(c, m.term(e.v, ti.elem.w), res)
		}
		return fromTerm(res), fromTerm(found)
	}
	i := m.mapFind(mo, k)
	if i < 0 {
		return zero, Val{}
	}
	return mo.ents[i].v, boolVal(true)
}

// constMap gives the values and the presence of each key of a map with known
// keys below 256 and known values.
func (m *Machine) constMap(mo *MapObj, ti *tinfo) (vals, has []uint64, ok bool) {
	if ti.key.kind != KInt {
		return nil, nil, false
	}
	vals, has = make([]uint64, 256), make([]uint64, 256)
	for i := range mo.ents {
		e := &mo.ents[i]
		if !e.live {
			continue
		}
		k, v := m.term(e.k, ti.key.w), m.term(e.v, ti.elem.w)
		if !k.isConst() || !v.isConst() || k.k > 255 {
			return nil, nil, false
		}
		vals[k.k], has[k.k] = v.k, 1
	}
	return vals, has, true
}

func (m *Machine) mapJournal(mo *MapObj) {
	if mo.frozen {
		if m.curFn != nil && m.curFn.isRepo && m.repoWrite == "" {
			m.repoWrite = "write to package-level map in " + m.curFn.name
		}
		old := *mo
		old.ents = append([]mapEnt(nil), mo.ents...)
		old.idx = map[any]int{}
		for k, v := range mo.idx {
			old.idx[k] = v
		}
		m.undo = append(m.undo, undoEnt{m: mo, old: &old})
	}
}

func (m *Machine) mapSet(fr *frame, mo *MapObj, k, v Val) {
	m.specCheck()
	m.mapJournal(mo)
	if i := m.mapFind(mo, k); i >= 0 {
		mo.ents[i].v = v
		return
	}
	key, ok := m.mapKey(k, mo.key)
	if ok {
		mo.idx[key] = len(mo.ents)
	} else {
		mo.symKeys = true
	}
	mo.ents = append(mo.ents, mapEnt{k, v, true})
	mo.n++
}

func (m *Machine) mapDelete(fr *frame, mo *MapObj, k Val) {
	m.mapJournal(mo)
	if i := m.mapFind(mo, k); i >= 0 {
		mo.ents[i].live = false
		if key, ok := m.mapKey(mo.ents[i].k, mo.key); ok {
			delete(mo.idx, key)
		}
		mo.n--
	}
}
