package main

// A native model of package fmt for the verbs used by the code under test.
// Formatting of symbolic values is postponed until the text is looked at, and
// then done by the real strconv code.

import (
	"fmt"
	"go/types"
	"strings"
	"unicode/utf8"
)

type fpart struct {
	s    *Str
	lazy func() *Str
}

type fmtResult struct {
	parts   []fpart
	wrapped []int
}

func (r *fmtResult) lit(s string) {
	if s != "" {
		r.parts = append(r.parts, fpart{s: &Str{s: s}})
	}
}

func (r *fmtResult) str(v Val) {
	switch s := v.o.(type) {
	case *LazyStr:
		if s.done {
			r.parts = append(r.parts, fpart{s: s.s})
			return
		}
		r.parts = append(r.parts, fpart{lazy: func() *Str {
			if !s.done {
				s.s, s.done = s.force(), true
			}
			return s.s
		}})
	case *Str:
		r.parts = append(r.parts, fpart{s: s})
	}
}

func (r *fmtResult) val() Val {
	lazy := false
	for _, p := range r.parts {
		lazy = lazy || p.lazy != nil
	}
	parts := r.parts
	force := func() *Str {
		var ss []*Str
		for _, p := range parts {
			if p.lazy != nil {
				ss = append(ss, p.lazy())
			} else {
				ss = append(ss, p.s)
			}
		}
		return concatStr(ss...)
	}
	if !lazy {
		return strVal(force())
	}
	return Val{o: &LazyStr{force: force}}
}

func (m *Machine) ifaceArgs(v Val) []*Iface {
	s, _ := v.o.(*Slice)
	if s == nil {
		return nil
	}
	out := make([]*Iface, s.len)
	for i := range out {
		out[i], _ = s.obj.get(s.off + i).o.(*Iface)
	}
	return out
}

func (m *Machine) sprintf(fr *frame, format string, args []*Iface) *fmtResult {
	r := &fmtResult{}
	ai := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			r.lit(format[i:])
			break
		}
		r.lit(format[i : i+j])
		i += j
		k := i + 1
		for k < len(format) && strings.IndexByte("+-# 0", format[k]) >= 0 {
			k++
		}
		for k < len(format) && (format[k] >= '0' && format[k] <= '9' || format[k] == '.') {
			k++
		}
		if k >= len(format) {
			r.lit("%!(NOVERB)")
			break
		}
		verb, sz := utf8.DecodeRuneInString(format[k:])
		spec := format[i:k]
		i = k + sz
		if verb == '%' {
			r.lit("%")
			continue
		}
		if verb == '*' || verb == '[' {
			panic(unsupported("fmt verb with indirection"))
		}
		if ai >= len(args) {
			r.lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[ai]
		if verb == 'w' {
			r.wrapped = append(r.wrapped, ai)
			verb = 'v'
		}
		ai++
		m.fmtArg(fr, r, spec, byte(verb), a, 0)
	}
	if ai < len(args) {
		r.lit("%!(EXTRA)")
	}
	return r
}

func (m *Machine) fmtArg(fr *frame, r *fmtResult, spec string, verb byte, a *Iface, depth int) {
	if a == nil {
		switch verb {
		case 'v':
			r.lit("<nil>")
		default:
			r.lit("%!" + string(verb) + "(<nil>)")
		}
		return
	}
	if verb == 'T' {
		r.lit(types.TypeString(a.rt.T, func(p *types.Package) string { return p.Name() }))
		return
	}
	if strings.IndexByte("vsxXq", verb) >= 0 {
		for _, name := range [2]string{"Error", "String"} {
			f := m.methodVal(a.rt, name)
			if f == nil || f.fn.Signature.Results().Len() != 1 || f.fn.Signature.Params().Len() != 0 ||
				f.fn.Signature.Results().At(0).Type().String() != "string" {
				continue
			}
			if a.rt.ti.kind == KPtr && a.v.o == nil {
				r.lit("<nil>")
				return
			}
			s := m.call(f, []Val{a.v}, nil, fr)
			m.fmtString(fr, r, spec, verb, s)
			return
		}
	}
	ti := a.rt.ti
	v := a.v
	switch ti.kind {
	case KBool:
		if v.t != nil {
			r.parts = append(r.parts, fpart{lazy: func() *Str { return &Str{s: fmt.Sprint(m.decide(v.t))} }})
			return
		}
		r.lit(fmt.Sprintf(spec+string(verb), v.c == 1))
	case KInt:
		conc := func(c uint64) string {
			if ti.signed {
				return fmt.Sprintf(spec+string(verb), sext(c, ti.w))
			}
			return fmt.Sprintf(spec+string(verb), c)
		}
		if v.t == nil {
			r.lit(conc(v.c))
			return
		}
		r.parts = append(r.parts, fpart{lazy: func() *Str {
			base := map[byte]uint64{'d': 10, 'v': 10, 'o': 8, 'x': 16, 'b': 2}[verb]
			if base == 0 || spec != "%" {
				return &Str{s: conc(m.concTerm(v.t))}
			}
			i64 := typeInfo(types.Typ[types.Int64])
			u64 := typeInfo(types.Typ[types.Uint64])
			if ti.signed {
				return m.S(m.call(m.run.prog.fn("strconv", "FormatInt"), []Val{m.convInt(v, ti, i64), {c: base}}, nil, fr))
			}
			return m.S(m.call(m.run.prog.fn("strconv", "FormatUint"), []Val{m.convInt(v, ti, u64), {c: base}}, nil, fr))
		}})
	case KFloat:
		r.lit(fmt.Sprintf(spec+string(verb), valFloat(v, ti.w)))
	case KString:
		m.fmtString(fr, r, spec, verb, v)
	case KSlice:
		if ti.elem.isByte && verb != 'v' && verb != 'd' {
			sl, _ := v.o.(*Slice)
			m.fmtString(fr, r, spec, verb, strVal(m.bytesToStr(sl)))
			return
		}
		sl, _ := v.o.(*Slice)
		r.lit("[")
		if sl != nil {
			ert := runtimeType(ti.elem.T)
			for i := 0; i < sl.len; i++ {
				if i > 0 {
					r.lit(" ")
				}
				ev := m.load(Val{o: sl.obj, c: uint64(sl.off + i*ti.elem.size)}, ti.elem)
				m.fmtElem(fr, r, spec, verb, ert, ev, depth+1)
			}
		}
		r.lit("]")
	case KStruct:
		r.lit("{")
		st := ti.T.Underlying().(*types.Struct)
		for i, f := range ti.fields {
			if i > 0 {
				r.lit(" ")
			}
			if strings.Contains(spec, "+") {
				r.lit(st.Field(i).Name() + ":")
			}
			m.fmtElem(fr, r, spec, verb, runtimeType(st.Field(i).Type()), sub(v.o.([]Val), ti.offs[i], f), depth+1)
		}
		r.lit("}")
	case KPtr:
		if v.o == nil {
			r.lit("<nil>")
			return
		}
		r.lit("0xc000000000")
	default:
		r.lit("?")
	}
}

func (m *Machine) fmtElem(fr *frame, r *fmtResult, spec string, verb byte, rt *rtype, v Val, depth int) {
	if rt.ti.kind == KIface {
		i, _ := v.o.(*Iface)
		m.fmtArg(fr, r, spec, verb, i, depth)
		return
	}
	m.fmtArg(fr, r, spec, verb, &Iface{rt, v}, depth)
}

func (m *Machine) fmtString(fr *frame, r *fmtResult, spec string, verb byte, v Val) {
	if spec == "%" || spec == "%+" {
		switch verb {
		case 's', 'v':
			r.str(v)
			return
		case 'q':
			if l, ok := v.o.(*LazyStr); !ok || l.done {
				if s := m.S(v); s.concrete() {
					r.lit(fmt.Sprintf("%q", m.concStr(v)))
					return
				}
			}
			r.parts = append(r.parts, fpart{lazy: func() *Str {
				return m.S(m.call(m.run.prog.fn("strconv", "Quote"), []Val{v}, nil, fr))
			}})
			return
		}
	}
	if l, ok := v.o.(*LazyStr); !ok || l.done {
		if s := m.S(v); s.concrete() {
			r.lit(fmt.Sprintf(spec+string(verb), m.concStr(v)))
			return
		}
	}
	r.parts = append(r.parts, fpart{lazy: func() *Str {
		return &Str{s: fmt.Sprintf(spec+string(verb), m.concStr(v))}
	}})
}

// sprint models fmt.Sprint/Sprintln.
func (m *Machine) sprint(fr *frame, args []*Iface, ln bool) *fmtResult {
	r := &fmtResult{}
	prevStr := true
	for i, a := range args {
		isStr := a != nil && a.rt.ti.kind == KString
		if i > 0 && (ln || !isStr && !prevStr) {
			r.lit(" ")
		}
		m.fmtArg(fr, r, "%", 'v', a, 0)
		prevStr = isStr
	}
	if ln {
		r.lit("\n")
	}
	return r
}
