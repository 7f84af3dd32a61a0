package main

// Operators, conversions and equality.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func (c *compiler) binop(in *ssa.BinOp) instr {
	r, x, y := c.regs[in], c.op(in.X), c.op(in.Y)
	xt, yt := typeInfo(in.X.Type()), typeInfo(in.Y.Type())
	op := in.Op
	switch op {
	case token.EQL, token.NEQ:
		// comparing with an untyped nil: use the other operand's type
		et := xt
		if b, ok := in.X.Type().(*types.Basic); ok && b.Kind() == types.UntypedNil {
			et = yt
		}
		neg := op == token.NEQ
		if et.kind == KInt || et.kind == KBool {
			w := et.w
			return func(m *Machine, fr *frame) {
				a, b := x.get(m, fr), y.get(m, fr)
				if a.t == nil && b.t == nil {
					fr.regs[r] = Val{c: b2u((a.c == b.c) != neg)}
					return
				}
				t := m.ts.Eq(m.term(a, w), m.term(b, w))
				if neg {
					t = m.ts.Not(t)
				}
				fr.regs[r] = fromTerm(t)
			}
		}
		// interface compared with a concrete value
		if xt.kind == KIface && yt.kind != KIface && et == xt && !isNilConst(in.Y) {
			rt := runtimeType(in.Y.Type())
			return func(m *Machine, fr *frame) {
				t := m.equal(x.get(m, fr), Val{o: &Iface{rt, y.get(m, fr)}}, xt)
				fr.regs[r] = fromTerm(m.negIf(t, neg))
			}
		}
		if yt.kind == KIface && xt.kind != KIface && !isNilConst(in.X) {
			rt := runtimeType(in.X.Type())
			return func(m *Machine, fr *frame) {
				t := m.equal(Val{o: &Iface{rt, x.get(m, fr)}}, y.get(m, fr), yt)
				fr.regs[r] = fromTerm(m.negIf(t, neg))
			}
		}
		return func(m *Machine, fr *frame) {
			fr.regs[r] = fromTerm(m.negIf(m.equal(x.get(m, fr), y.get(m, fr), et), neg))
		}
	}
	switch xt.kind {
	case KInt:
		return c.intBinop(op, r, x, y, xt, yt)
	case KBool:
		return func(m *Machine, fr *frame) {
			a, b := m.term(x.get(m, fr), 0), m.term(y.get(m, fr), 0)
			switch op {
			case token.AND, token.LAND:
				fr.regs[r] = fromTerm(m.ts.And(a, b))
			case token.OR, token.LOR:
				fr.regs[r] = fromTerm(m.ts.Or(a, b))
			case token.XOR:
				fr.regs[r] = fromTerm(m.ts.Not(m.ts.Eq(a, b)))
			default:
				panic(unsupported("bool operator " + op.String()))
			}
		}
	case KString:
		return func(m *Machine, fr *frame) {
			a, b := m.S(x.get(m, fr)), m.S(y.get(m, fr))
			switch op {
			case token.ADD:
				if m.memLimit > 0 && a.len() > 0 && b.len() > 0 {
					m.charge(int64(a.len() + b.len()))
				}
				fr.regs[r] = strVal(concatStr(a, b))
				return
			case token.LSS:
				fr.regs[r] = fromTerm(m.strLess(a, b, false))
			case token.LEQ:
				fr.regs[r] = fromTerm(m.strLess(a, b, true))
			case token.GTR:
				fr.regs[r] = fromTerm(m.strLess(b, a, false))
			case token.GEQ:
				fr.regs[r] = fromTerm(m.strLess(b, a, true))
			default:
				panic(unsupported("string operator " + op.String()))
			}
		}
	case KFloat:
		w := xt.w
		return func(m *Machine, fr *frame) {
			av, bv := x.get(m, fr), y.get(m, fr)
			if av.t != nil || bv.t != nil {
				panic(unsupported("symbolic floating point"))
			}
			a, b := valFloat(av, w), valFloat(bv, w)
			switch op {
			case token.ADD:
				fr.regs[r] = floatVal(a+b, w)
			case token.SUB:
				fr.regs[r] = floatVal(a-b, w)
			case token.MUL:
				fr.regs[r] = floatVal(a*b, w)
			case token.QUO:
				fr.regs[r] = floatVal(a/b, w)
			case token.LSS:
				fr.regs[r] = boolVal(a < b)
			case token.LEQ:
				fr.regs[r] = boolVal(a <= b)
			case token.GTR:
				fr.regs[r] = boolVal(a > b)
			case token.GEQ:
				fr.regs[r] = boolVal(a >= b)
			default:
				panic(unsupported("float operator " + op.String()))
			}
		}
	}
	return unsupp("operator " + op.String() + " on " + in.X.Type().String())
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (m *Machine) negIf(t *Term, neg bool) *Term {
	if neg {
		return m.ts.Not(t)
	}
	return t
}

func (c *compiler) intBinop(op token.Token, r int, x, y operand, xt, yt *tinfo) instr {
	w, sg := xt.w, xt.signed
	mk := mask(w)
	slow := func(m *Machine, fr *frame, a, b Val) { fr.regs[r] = m.symInt(op, a, b, xt, yt) }
	switch op {
	case token.ADD:
		return func(m *Machine, fr *frame) {
			a, b := x.get(m, fr), y.get(m, fr)
			if a.t == nil && b.t == nil {
				fr.regs[r] = Val{c: (a.c + b.c) & mk}
				return
			}
			slow(m, fr, a, b)
		}
	case token.SUB:
		return func(m *Machine, fr *frame) {
			a, b := x.get(m, fr), y.get(m, fr)
			if a.t == nil && b.t == nil {
				fr.regs[r] = Val{c: (a.c - b.c) & mk}
				return
			}
			slow(m, fr, a, b)
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return func(m *Machine, fr *frame) {
			a, b := x.get(m, fr), y.get(m, fr)
			if a.t == nil && b.t == nil {
				var res bool
				if sg {
					p, q := sext(a.c, w), sext(b.c, w)
					switch op {
					case token.LSS:
						res = p < q
					case token.LEQ:
						res = p <= q
					case token.GTR:
						res = p > q
					default:
						res = p >= q
					}
				} else {
					p, q := a.c, b.c
					switch op {
					case token.LSS:
						res = p < q
					case token.LEQ:
						res = p <= q
					case token.GTR:
						res = p > q
					default:
						res = p >= q
					}
				}
				fr.regs[r] = Val{c: b2u(res)}
				return
			}
			slow(m, fr, a, b)
		}
	}
	return func(m *Machine, fr *frame) {
		a, b := x.get(m, fr), y.get(m, fr)
		if a.t != nil || b.t != nil {
			slow(m, fr, a, b)
			return
		}
		var v uint64
		switch op {
		case token.MUL:
			v = a.c * b.c
		case token.QUO:
			if b.c == 0 {
				m.rtPanic("integer divide by zero")
			}
			if sg {
				p, q := sext(a.c, w), sext(b.c, w)
				if q == -1 {
					v = uint64(-p)
				} else {
					v = uint64(p / q)
				}
			} else {
				v = a.c / b.c
			}
		case token.REM:
			if b.c == 0 {
				m.rtPanic("integer divide by zero")
			}
			if sg {
				p, q := sext(a.c, w), sext(b.c, w)
				if q == -1 {
					v = 0
				} else {
					v = uint64(p % q)
				}
			} else {
				v = a.c % b.c
			}
		case token.AND:
			v = a.c & b.c
		case token.OR:
			v = a.c | b.c
		case token.XOR:
			v = a.c ^ b.c
		case token.AND_NOT:
			v = a.c &^ b.c
		case token.SHL:
			s := m.shiftCount(b, yt)
			if s < 64 {
				v = a.c << s
			}
		case token.SHR:
			s := m.shiftCount(b, yt)
			if sg {
				if s > 63 {
					s = 63
				}
				v = uint64(sext(a.c, w) >> s)
			} else if s < 64 {
				v = a.c >> s
			}
		default:
			panic(unsupported("int operator " + op.String()))
		}
		fr.regs[r] = Val{c: v & mk}
	}
}

func (m *Machine) shiftCount(b Val, yt *tinfo) uint64 {
	if yt.signed {
		s := sext(b.c, yt.w)
		if s < 0 {
			m.rtPanic("negative shift amount")
		}
		return uint64(s)
	}
	return b.c
}

func (m *Machine) symInt(op token.Token, a, b Val, xt, yt *tinfo) Val {
	ts, w := m.ts, xt.w
	x := m.term(a, w)
	if op == token.SHL || op == token.SHR {
		cnt := m.term(b, yt.w)
		if cnt.isConst() {
			s := m.shiftCount(Val{c: cnt.k}, yt)
			if s >= uint64(w) {
				if op == token.SHR && xt.signed {
					return fromTerm(ts.AShr(x, ts.Const(w, uint64(w)-1)))
				}
				return Val{}
			}
			k := ts.Const(w, s)
			switch {
			case op == token.SHL:
				return fromTerm(ts.Shl(x, k))
			case xt.signed:
				return fromTerm(ts.AShr(x, k))
			default:
				return fromTerm(ts.LShr(x, k))
			}
		}
		if yt.signed && !m.decide(ts.Not(ts.Slt(cnt, ts.Const(yt.w, 0)))) {
			m.rtPanic("negative shift amount")
		}
		big := ts.Not(ts.Ult(cnt, ts.Const(yt.w, uint64(w))))
		var k *Term
		if yt.w >= w {
			k = ts.Extract(cnt, 0, w)
		} else {
			k = ts.ZExt(cnt, w)
		}
		switch {
		case op == token.SHL:
			return fromTerm(ts.Ite(big, ts.Const(w, 0), ts.Shl(x, k)))
		case xt.signed:
			return fromTerm(ts.Ite(big, ts.AShr(x, ts.Const(w, uint64(w)-1)), ts.AShr(x, k)))
		default:
			return fromTerm(ts.Ite(big, ts.Const(w, 0), ts.LShr(x, k)))
		}
	}
	y := m.term(b, w)
	var t *Term
	switch op {
	case token.ADD:
		t = ts.Add(x, y)
	case token.SUB:
		t = ts.Sub(x, y)
	case token.MUL:
		t = ts.Mul(x, y)
	case token.QUO, token.REM:
		if !m.decide(ts.Not(ts.Eq(y, ts.Const(w, 0)))) {
			m.rtPanic("integer divide by zero")
		}
		switch {
		case op == token.QUO && xt.signed:
			t = ts.SDiv(x, y)
		case op == token.QUO:
			t = ts.UDiv(x, y)
		case xt.signed:
			t = ts.SRem(x, y)
		default:
			t = ts.URem(x, y)
		}
	case token.AND:
		t = ts.BAnd(x, y)
	case token.OR:
		t = ts.BOr(x, y)
	case token.XOR:
		t = ts.BXor(x, y)
	case token.AND_NOT:
		t = ts.BAnd(x, ts.BNot(y))
	default:
		lt := ts.Ult
		if xt.signed {
			lt = ts.Slt
		}
		switch op {
		case token.LSS:
			t = lt(x, y)
		case token.GTR:
			t = lt(y, x)
		case token.LEQ:
			t = ts.Not(lt(y, x))
		case token.GEQ:
			t = ts.Not(lt(x, y))
		default:
			panic(unsupported("int operator " + op.String()))
		}
	}
	return fromTerm(t)
}

func (c *compiler) unop(in *ssa.UnOp) instr {
	r, x := c.regs[in], c.op(in.X)
	xt := typeInfo(in.X.Type())
	switch in.Op {
	case token.MUL:
		ti := typeInfo(in.Type())
		return func(m *Machine, fr *frame) { fr.regs[r] = m.load(x.get(m, fr), ti) }
	case token.NOT:
		return func(m *Machine, fr *frame) {
			v := x.get(m, fr)
			if v.t == nil {
				fr.regs[r] = Val{c: 1 - v.c}
			} else {
				fr.regs[r] = fromTerm(m.ts.Not(v.t))
			}
		}
	case token.SUB:
		if xt.kind == KFloat {
			return func(m *Machine, fr *frame) {
				v := x.get(m, fr)
				if v.t != nil {
					panic(unsupported("symbolic floating point"))
				}
				fr.regs[r] = floatVal(-valFloat(v, xt.w), xt.w)
			}
		}
		return func(m *Machine, fr *frame) {
			v := x.get(m, fr)
			if v.t == nil {
				fr.regs[r] = Val{c: (-v.c) & mask(xt.w)}
			} else {
				fr.regs[r] = fromTerm(m.ts.Neg(v.t))
			}
		}
	case token.XOR:
		return func(m *Machine, fr *frame) {
			v := x.get(m, fr)
			if v.t == nil {
				fr.regs[r] = Val{c: (^v.c) & mask(xt.w)}
			} else {
				fr.regs[r] = fromTerm(m.ts.BNot(v.t))
			}
		}
	}
	return unsupp("unary " + in.Op.String())
}

func (m *Machine) convInt(v Val, from, to *tinfo) Val {
	if v.t == nil {
		if to.w <= from.w {
			return Val{c: v.c & mask(to.w)}
		}
		if from.signed {
			return Val{c: uint64(sext(v.c, from.w)) & mask(to.w)}
		}
		return v
	}
	switch {
	case to.w == from.w:
		return v
	case to.w < from.w:
		return fromTerm(m.ts.Extract(v.t, 0, to.w))
	case from.signed:
		if m.domainExcludes(m.ts.Slt(v.t, m.ts.Const(from.w, 0))) {
			return fromTerm(m.ts.nonNegative(v.t, to.w))
		}
		return fromTerm(m.ts.SExt(v.t, to.w))
	default:
		return fromTerm(m.ts.ZExt(v.t, to.w))
	}
}

func (m *Machine) convert(fr *frame, v Val, from, to *tinfo) Val {
	switch {
	case from.kind == to.kind && from.kind == KFloat:
		if v.t != nil {
			panic(unsupported("symbolic floating point"))
		}
		return floatVal(valFloat(v, from.w), to.w)
	case from.kind == KInt && to.kind == KFloat:
		if v.t != nil {
			panic(unsupported("symbolic floating point"))
		}
		if from.signed {
			return floatVal(float64(sext(v.c, from.w)), to.w)
		}
		return floatVal(float64(v.c), to.w)
	case from.kind == KFloat && to.kind == KInt:
		if v.t != nil {
			panic(unsupported("symbolic floating point"))
		}
		f := valFloat(v, from.w)
		if to.signed {
			return Val{c: uint64(int64(f)) & mask(to.w)}
		}
		if f >= math.MaxInt64 {
			return Val{c: uint64(f) & mask(to.w)}
		}
		return Val{c: uint64(int64(f)) & mask(to.w)}
	case from.kind == KString && to.kind == KString:
		return v
	case from.kind == KString && to.kind == KSlice:
		s := m.S(v)
		if to.elem.isByte {
			o := m.newBytes(s.len())
			if s != nil {
				copy(o.b, s.s)
				if s.sym != nil {
					o.bs = append([]*Term(nil), s.sym...)
				}
			}
			return Val{o: &Slice{o, 0, s.len(), s.len()}}
		}
		// []rune
		var cells []Val
		it := &strIter{s: s}
		for {
			ok, _, rn := m.nextRune(fr, it)
			if !ok {
				break
			}
			cells = append(cells, rn)
		}
		o := &Obj{cells: cells}
		m.track(o)
		return Val{o: &Slice{o, 0, len(cells), len(cells)}}
	case from.kind == KSlice && to.kind == KString:
		sl, _ := v.o.(*Slice)
		if sl == nil {
			return Val{}
		}
		if from.elem.isByte {
			return strVal(m.bytesToStr(sl))
		}
		var parts []*Str
		for i := 0; i < sl.len; i++ {
			parts = append(parts, m.S(m.runeToStr(fr, sl.obj.get(sl.off+i), 32)))
		}
		return strVal(concatStr(parts...))
	case from.kind == KInt && to.kind == KString:
		return m.runeToStr(fr, v, from.w)
	case from.kind == KPtr && to.kind == KPtr, from.kind == KSlice && to.kind == KSlice:
		return v
	case from.kind == KPtr && to.kind == KInt:
		if v.o == nil {
			return Val{c: v.c}
		}
		panic(unsupported("pointer to integer conversion"))
	case from.kind == KInt && to.kind == KPtr:
		if v.t == nil && v.c == 0 {
			return Val{}
		}
		panic(unsupported("integer to pointer conversion"))
	}
	panic(unsupported(fmt.Sprintf("conversion %v to %v", from.T, to.T)))
}

func (m *Machine) bytesToStr(sl *Slice) *Str {
	if sl == nil || sl.len == 0 {
		return nil
	}
	o := sl.obj
	if o.poison {
		panic(unsupported("uninitialised package state " + o.name))
	}
	if o.isB {
		s := &Str{s: string(o.b[sl.off : sl.off+sl.len])}
		if o.bs != nil {
			for _, t := range o.bs[sl.off : sl.off+sl.len] {
				if t != nil {
					s.sym = append([]*Term(nil), o.bs[sl.off:sl.off+sl.len]...)
					break
				}
			}
		}
		return s
	}
	b := make([]byte, sl.len)
	var sym []*Term
	for i := range b {
		v := o.get(sl.off + i)
		if v.t != nil {
			if sym == nil {
				sym = make([]*Term, sl.len)
			}
			sym[i] = v.t
		} else {
			b[i] = byte(v.c)
		}
	}
	return &Str{s: string(b), sym: sym}
}

func (m *Machine) runeToStr(fr *frame, v Val, w uint8) Val {
	if v.t == nil {
		c := sext(v.c, w)
		if c < 0 || c > 0x10FFFF {
			c = 0xFFFD
		}
		return mkStr(string(rune(c)))
	}
	if m.decide(m.ts.Ult(v.t, m.ts.Const(w, 0x80))) {
		return Val{o: &Str{s: "\x00", sym: []*Term{m.ts.Extract(v.t, 0, 8)}}}
	}
	ts := m.ts
	t := v.t
	below := func(k uint64) bool { return m.decide(ts.Ult(t, ts.Const(w, k))) }
	b := func(hi uint64, shift uint64, bits uint64) *Term {
		x := ts.Extract(ts.LShr(t, ts.Const(w, shift)), 0, 8)
		return ts.BOr(ts.BAnd(x, ts.Const(8, bits)), ts.Const(8, hi))
	}
	var sym []*Term
	if w < 32 {
		// fewer ranges exist
		c := sext(m.concTerm(t), w)
		if c < 0 || c > 0x10FFFF {
			c = 0xFFFD
		}
		return mkStr(string(rune(c)))
	}
	switch {
	case below(0x800):
		sym = []*Term{b(0xC0, 6, 0x1F), b(0x80, 0, 0x3F)}
	case below(0xD800):
		sym = []*Term{b(0xE0, 12, 0x0F), b(0x80, 6, 0x3F), b(0x80, 0, 0x3F)}
	case below(0xE000):
		return mkStr("\uFFFD")
	case below(0x10000):
		sym = []*Term{b(0xE0, 12, 0x0F), b(0x80, 6, 0x3F), b(0x80, 0, 0x3F)}
	case below(0x110000):
		sym = []*Term{b(0xF0, 18, 0x07), b(0x80, 12, 0x3F), b(0x80, 6, 0x3F), b(0x80, 0, 0x3F)}
	default:
		return mkStr("\uFFFD")
	}
	out := make([]byte, len(sym))
	for i, x := range sym {
		if x.isConst() {
			out[i], sym[i] = byte(x.k), nil
		}
	}
	return Val{o: &Str{s: string(out), sym: sym}}
}

// byteTerm gives a string byte as a term.
func (m *Machine) strTerm(s *Str, i int) *Term {
	if s.sym != nil && s.sym[i] != nil {
		return s.sym[i]
	}
	return m.ts.Const(8, uint64(s.s[i]))
}

func (m *Machine) strEq(a, b *Str) *Term {
	if a.len() != b.len() {
		return m.ts.False
	}
	if a.len() == 0 {
		return m.ts.True
	}
	if a == b {
		return m.ts.True
	}
	if a.sym == nil && b.sym == nil {
		return m.ts.Bool(a.s == b.s)
	}
	t := m.ts.True
	for i := 0; i < len(a.s); i++ {
		t = m.ts.And(t, m.ts.Eq(m.strTerm(a, i), m.strTerm(b, i)))
		if t == m.ts.False {
			break
		}
	}
	return t
}

func (m *Machine) strLess(a, b *Str, orEq bool) *Term {
	if a.concrete() && b.concrete() {
		var x, y string
		if a != nil {
			x = a.s
		}
		if b != nil {
			y = b.s
		}
		return m.ts.Bool(x < y || orEq && x == y)
	}
	n := min(a.len(), b.len())
	var res *Term
	switch {
	case a.len() < b.len():
		res = m.ts.True
	case a.len() > b.len():
		res = m.ts.False
	default:
		res = m.ts.Bool(orEq)
	}
	for i := n - 1; i >= 0; i-- {
		x, y := m.strTerm(a, i), m.strTerm(b, i)
		res = m.ts.Ite(m.ts.Eq(x, y), res, m.ts.Ult(x, y))
	}
	return res
}

func (m *Machine) equal(a, b Val, ti *tinfo) *Term {
	ts := m.ts
	switch ti.kind {
	case KBool, KInt:
		if a.t == nil && b.t == nil {
			return ts.Bool(a.c == b.c)
		}
		return ts.Eq(m.term(a, ti.w), m.term(b, ti.w))
	case KFloat:
		if a.t != nil || b.t != nil {
			panic(unsupported("symbolic floating point"))
		}
		return ts.Bool(valFloat(a, ti.w) == valFloat(b, ti.w))
	case KString:
		return m.strEq(m.S(a), m.S(b))
	case KPtr, KChan:
		if _, ok := a.o.(*SymPtr); ok {
			panic(unsupported("comparison of symbolic pointer"))
		}
		if _, ok := b.o.(*SymPtr); ok {
			panic(unsupported("comparison of symbolic pointer"))
		}
		return ts.Bool(a.o == b.o && a.c == b.c)
	case KSlice, KMap, KFunc:
		// only comparison with nil is legal
		return ts.Bool(a.o == nil && b.o == nil)
	case KIface:
		x, _ := a.o.(*Iface)
		y, _ := b.o.(*Iface)
		if x == nil || y == nil {
			return ts.Bool(x == nil && y == nil)
		}
		if x.rt != y.rt {
			return ts.False
		}
		switch x.rt.ti.kind {
		case KSlice, KMap, KFunc:
			m.rtPanic("comparing uncomparable type " + x.rt.T.String())
		}
		return m.equal(x.v, y.v, x.rt.ti)
	case KStruct:
		x, y := a.o.([]Val), b.o.([]Val)
		t := ts.True
		for i, f := range ti.fields {
			o := ti.offs[i]
			t = ts.And(t, m.equal(sub(x, o, f), sub(y, o, f), f))
		}
		return t
	case KArray:
		x, y := a.o.([]Val), b.o.([]Val)
		t := ts.True
		for i := 0; i < ti.n; i++ {
			o := i * ti.elem.size
			t = ts.And(t, m.equal(sub(x, o, ti.elem), sub(y, o, ti.elem), ti.elem))
		}
		return t
	}
	panic(unsupported("comparison of " + ti.T.String()))
}

func sub(v []Val, off int, f *tinfo) Val {
	if f.agg() {
		return Val{o: v[off : off+f.size : off+f.size]}
	}
	return v[off]
}

// ---- range

func (m *Machine) next(fr *frame, it Val, isStr bool) Val {
	if isStr {
		si := it.o.(*strIter)
		pos := si.i
		ok, _, r := m.nextRune(fr, si)
		return Val{o: []Val{boolVal(ok), intVal(pos), r}}
	}
	mi := it.o.(*mapIter)
	m.specCheck()
	if mi.m != nil {
		for mi.i < len(mi.m.ents) {
			e := mi.m.ents[mi.i]
			if mi.i < len(mi.order) {
				e = mi.m.ents[mi.order[mi.i]]
			}
			mi.i++
			if e.live {
				return Val{o: []Val{boolVal(true), e.k, e.v}}
			}
		}
	}
	return Val{o: []Val{boolVal(false), {}, {}}}
}

// mapOrder chooses the order of an iteration, which the language leaves open:
// one choice for the whole path, between the order of insertion and its
// reverse, so that every two entries come in both orders.
func (m *Machine) mapOrder(mo *MapObj) []int {
	if mo == nil || mo.n < 2 || m.initing {
		return nil
	}
	m.specCheck()
	if m.mapRev == nil {
		m.mapRev = m.rangeInput("order of map iteration", 0, 1)
	}
	if m.concTerm(m.mapRev) == 0 {
		return nil
	}
	o := make([]int, len(mo.ents))
	for i := range o {
		o[i] = len(o) - 1 - i
	}
	return o
}

func (m *Machine) nextRune(fr *frame, si *strIter) (bool, int, Val) {
	m.specCheck()
	if si.i >= si.s.len() {
		return false, 0, Val{}
	}
	b := si.s.at(si.i)
	if b.t == nil && b.c < 0x80 {
		si.i++
		return true, 1, b
	}
	if b.t != nil && m.decide(m.ts.Ult(b.t, m.ts.Const(8, 0x80))) {
		si.i++
		return true, 1, fromTerm(m.ts.ZExt(b.t, 32))
	}
	f := m.run.prog.fn("unicode/utf8", "DecodeRuneInString")
	res := m.call(f, []Val{strVal(si.s.sub(si.i, si.s.len()))}, nil, fr)
	t := res.o.([]Val)
	n := int(m.concInt(t[1], typeInfo(types.Typ[types.Int])))
	si.i += n
	return true, n, t[0]
}
