package main

// Translation of SSA functions to closures.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type cfunc struct {
	fn     *ssa.Function
	name   string
	once   sync.Once
	nregs  int
	blocks []*cblock
	nparam int
	nfree  int
	hasDef bool
	intr   intrinsic
	isRepo bool
	pkg    string
	idx    int32 // dense id
	pure   int8  // static purity for region merging: 0 unknown, 1 pure, -1 impure, 2 in progress
	err    string
	regOf  map[ssa.Value]int
}

type instr func(m *Machine, fr *frame)

type cphi struct {
	reg   int
	edges []operand
	ti    *tinfo
}

type termKind uint8

const (
	tJump termKind = iota
	tIf
	tReturn
	tPanic
	tNone
)

type cblock struct {
	id     int
	fn     *cfunc
	phis   []cphi
	instrs []instr
	term   termKind
	cond   operand
	succs  []int
	preds  []int
	// predIdx[s] = index of this block in successor s's pred list, per edge
	edge   [2]int
	rets   []operand
	retTI  []*tinfo
	panicV operand
	region *region
	src    *ssa.BasicBlock
	gid    int // global block number for coverage
	pos    token.Pos
}

type operand struct {
	reg  int // >=0 register
	glob int // >=0 global index
	v    Val
}

func (o *operand) get(m *Machine, fr *frame) Val {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.glob >= 0 {
		return Val{o: m.globalObj(o.glob)}
	}
	return o.v
}

var (
	cfMu     sync.Mutex
	cfTab    = map[*ssa.Function]*cfunc{}
	cfList   []*cfunc
	glTab    = map[*ssa.Global]int{}
	glList   []*ssa.Global
	blkCount int
	repoBlks int
)

func getFunc(fn *ssa.Function) *cfunc {
	cfMu.Lock()
	defer cfMu.Unlock()
	if f, ok := cfTab[fn]; ok {
		return f
	}
	f := &cfunc{fn: fn, name: fn.String(), idx: int32(len(cfList))}
	if fn.Pkg != nil {
		f.pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		f.pkg = o.Pkg.Pkg.Path()
	} else if p := fn.Parent(); p != nil && p.Pkg != nil {
		f.pkg = p.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		f.pkg = fn.Object().Pkg().Path()
	}
	f.isRepo = f.pkg == repoPkg
	f.intr = findIntrinsic(fn)
	cfTab[fn] = f
	cfList = append(cfList, f)
	return f
}

func globalIndex(g *ssa.Global) int {
	cfMu.Lock()
	defer cfMu.Unlock()
	if i, ok := glTab[g]; ok {
		return i
	}
	i := len(glList)
	glTab[g] = i
	glList = append(glList, g)
	return i
}

func globalAt(i int) *ssa.Global {
	cfMu.Lock()
	defer cfMu.Unlock()
	return glList[i]
}

type compiler struct {
	f    *cfunc
	regs map[ssa.Value]int
}

func (f *cfunc) compile() {
	f.once.Do(func() {
		if f.fn.Blocks == nil {
			f.err = "function without body: " + f.name
			return
		}
		c := &compiler{f: f, regs: map[ssa.Value]int{}}
		f.regOf = c.regs
		n := 0
		add := func(v ssa.Value) {
			c.regs[v] = n
			n++
		}
		for _, p := range f.fn.Params {
			add(p)
		}
		for _, p := range f.fn.FreeVars {
			add(p)
		}
		f.nparam, f.nfree = len(f.fn.Params), len(f.fn.FreeVars)
		for _, b := range f.fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					add(v)
				}
				if _, ok := in.(*ssa.Defer); ok {
					f.hasDef = true
				}
			}
		}
		if f.fn.Recover != nil {
			f.hasDef = true
		}
		f.nregs = n
		for _, b := range f.fn.Blocks {
			f.blocks = append(f.blocks, c.block(b))
		}
		cfMu.Lock()
		for _, b := range f.blocks {
			b.gid = blkCount
			blkCount++
		}
		cfMu.Unlock()
		f.regions(c)
	})
}

func (c *compiler) op(v ssa.Value) operand {
	switch v := v.(type) {
	case *ssa.Const:
		return operand{reg: -1, glob: -1, v: constVal(v)}
	case *ssa.Global:
		return operand{reg: -1, glob: globalIndex(v)}
	case *ssa.Function:
		return operand{reg: -1, glob: -1, v: Val{o: &Closure{fn: getFunc(v)}}}
	case *ssa.Builtin:
		return operand{reg: -1, glob: -1}
	}
	r, ok := c.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v in %v", v, c.f.name))
	}
	return operand{reg: r, glob: -1}
}

var zeroAggMu sync.Mutex
var zeroAggs = map[*tinfo][]Val{}

func zeroVal(ti *tinfo) Val {
	switch ti.kind {
	case KStruct, KArray:
		zeroAggMu.Lock()
		defer zeroAggMu.Unlock()
		z, ok := zeroAggs[ti]
		if !ok {
			z = make([]Val, ti.size)
			zeroAggs[ti] = z
		}
		return Val{o: z}
	case KTuple:
		vs := make([]Val, len(ti.fields))
		for i, f := range ti.fields {
			vs[i] = zeroVal(f)
		}
		return Val{o: vs}
	}
	return Val{}
}

func constVal(c *ssa.Const) Val {
	ti := typeInfo(c.Type())
	if c.Value == nil {
		return zeroVal(ti)
	}
	switch ti.kind {
	case KBool:
		return boolVal(constant.BoolVal(c.Value))
	case KInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Val{c: uint64(i) & mask(ti.w)}
		}
		u, _ := constant.Uint64Val(v)
		return Val{c: u & mask(ti.w)}
	case KFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return floatVal(f, ti.w)
	case KString:
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return mkStr(string(rune(i)))
	case KPtr:
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return Val{c: uint64(i)}
		}
	}
	return Val{o: unsupportedConst(c.String())}
}

type unsupportedConst string

func floatVal(f float64, w uint8) Val {
	if w == 32 {
		return Val{c: uint64(math.Float32bits(float32(f)))}
	}
	return Val{c: math.Float64bits(f)}
}

func valFloat(v Val, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v.c)))
	}
	return math.Float64frombits(v.c)
}

func (c *compiler) block(b *ssa.BasicBlock) *cblock {
	cb := &cblock{id: b.Index, fn: c.f, term: tNone, src: b}
	for _, p := range b.Preds {
		cb.preds = append(cb.preds, p.Index)
	}
	seen := map[int]int{}
	for i, s := range b.Succs {
		cb.succs = append(cb.succs, s.Index)
		// find the matching occurrence in s.Preds
		k := seen[s.Index]
		cnt := 0
		for j, p := range s.Preds {
			if p == b {
				if cnt == k {
					if i < 2 {
						cb.edge[i] = j
					}
					break
				}
				cnt++
			}
		}
		seen[s.Index]++
	}
	for _, in := range b.Instrs {
		if cb.pos == token.NoPos {
			cb.pos = in.Pos()
		}
		switch in := in.(type) {
		case *ssa.Phi:
			p := cphi{reg: c.regs[in], ti: typeInfo(in.Type())}
			for _, e := range in.Edges {
				p.edges = append(p.edges, c.op(e))
			}
			cb.phis = append(cb.phis, p)
		case *ssa.If:
			cb.term = tIf
			cb.cond = c.op(in.Cond)
		case *ssa.Jump:
			cb.term = tJump
		case *ssa.Return:
			cb.term = tReturn
			for _, r := range in.Results {
				cb.rets = append(cb.rets, c.op(r))
				cb.retTI = append(cb.retTI, typeInfo(r.Type()))
			}
		case *ssa.Panic:
			cb.term = tPanic
			cb.panicV = c.op(in.X)
		case *ssa.DebugRef:
		default:
			cb.instrs = append(cb.instrs, c.instr(in))
		}
	}
	return cb
}

func unsupp(msg string) instr {
	return func(m *Machine, fr *frame) { panic(unsupported(msg)) }
}

func (c *compiler) instr(in ssa.Instruction) instr {
	switch in := in.(type) {
	case *ssa.Alloc:
		r := c.regs[in]
		ti := typeInfo(in.Type().Underlying().(*types.Pointer).Elem())
		return func(m *Machine, fr *frame) {
			m.nalloc++
			fr.regs[r] = Val{o: m.newObj(ti)}
		}
	case *ssa.BinOp:
		return c.binop(in)
	case *ssa.UnOp:
		return c.unop(in)
	case *ssa.Call:
		return c.call(in)
	case *ssa.ChangeInterface:
		r, x := c.regs[in], c.op(in.X)
		return func(m *Machine, fr *frame) { fr.regs[r] = x.get(m, fr) }
	case *ssa.ChangeType:
		r, x := c.regs[in], c.op(in.X)
		return func(m *Machine, fr *frame) { fr.regs[r] = x.get(m, fr) }
	case *ssa.Convert:
		r, x := c.regs[in], c.op(in.X)
		from, to := typeInfo(in.X.Type()), typeInfo(in.Type())
		if from.kind == KInt && to.kind == KInt {
			return func(m *Machine, fr *frame) { fr.regs[r] = m.convInt(x.get(m, fr), from, to) }
		}
		return func(m *Machine, fr *frame) { fr.regs[r] = m.convert(fr, x.get(m, fr), from, to) }
	case *ssa.MultiConvert:
		r, x := c.regs[in], c.op(in.X)
		from, to := typeInfo(in.X.Type()), typeInfo(in.Type())
		return func(m *Machine, fr *frame) { fr.regs[r] = m.convert(fr, x.get(m, fr), from, to) }
	case *ssa.SliceToArrayPointer:
		r, x := c.regs[in], c.op(in.X)
		n := typeInfo(in.Type().Underlying().(*types.Pointer).Elem()).n
		return func(m *Machine, fr *frame) {
			s, _ := x.get(m, fr).o.(*Slice)
			if s == nil {
				if n > 0 {
					m.rtPanic("slice to array conversion: length")
				}
				fr.regs[r] = Val{}
				return
			}
			if s.len < n {
				m.rtPanic("slice to array conversion: length")
			}
			fr.regs[r] = Val{o: s.obj, c: uint64(s.off)}
		}
	case *ssa.Extract:
		r, x, i := c.regs[in], c.op(in.Tuple), in.Index
		return func(m *Machine, fr *frame) { fr.regs[r] = x.get(m, fr).o.([]Val)[i] }
	case *ssa.Field:
		r, x := c.regs[in], c.op(in.X)
		st := typeInfo(in.X.Type())
		off, f := st.offs[in.Field], st.fields[in.Field]
		if f.agg() {
			return func(m *Machine, fr *frame) {
				fr.regs[r] = Val{o: x.get(m, fr).o.([]Val)[off : off+f.size : off+f.size]}
			}
		}
		return func(m *Machine, fr *frame) { fr.regs[r] = x.get(m, fr).o.([]Val)[off] }
	case *ssa.FieldAddr:
		r, x := c.regs[in], c.op(in.X)
		st := typeInfo(in.X.Type().Underlying().(*types.Pointer).Elem())
		off := uint64(st.offs[in.Field])
		return func(m *Machine, fr *frame) {
			v := x.get(m, fr)
			switch o := v.o.(type) {
			case *Obj:
				fr.regs[r] = Val{o: o, c: v.c + off}
			case *SymPtr:
				q := *o
				q.off += int(off)
				fr.regs[r] = Val{o: &q}
			default:
				m.nilDeref()
			}
		}
	case *ssa.Index:
		r, x, ix := c.regs[in], c.op(in.X), c.op(in.Index)
		xt, it := typeInfo(in.X.Type()), typeInfo(in.Index.Type())
		return func(m *Machine, fr *frame) {
			v := x.get(m, fr)
			if xt.kind == KString {
				fr.regs[r] = m.strIndex(v, ix.get(m, fr), it)
				return
			}
			arr := v.o.([]Val)
			i := m.index(ix.get(m, fr), it, xt.n)
			if xt.elem.agg() {
				fr.regs[r] = Val{o: arr[i*xt.elem.size : (i+1)*xt.elem.size]}
			} else {
				fr.regs[r] = arr[i]
			}
		}
	case *ssa.IndexAddr:
		r, x, ix := c.regs[in], c.op(in.X), c.op(in.Index)
		xt, it := typeInfo(in.X.Type()), typeInfo(in.Index.Type())
		if xt.kind == KSlice {
			es := xt.elem.size
			return func(m *Machine, fr *frame) {
				s, _ := x.get(m, fr).o.(*Slice)
				iv := ix.get(m, fr)
				if s == nil {
					m.index(iv, it, 0)
				}
				if iv.t != nil {
					fr.regs[r] = m.symIndexAddr(s.obj, s.off, s.len, es, iv, it)
					return
				}
				i := sext(iv.c, it.w)
				if !it.signed {
					i = int64(iv.c)
				}
				if uint64(i) >= uint64(s.len) {
					m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, s.len))
				}
				fr.regs[r] = Val{o: s.obj, c: uint64(s.off + int(i)*es)}
			}
		}
		at := typeInfo(in.X.Type().Underlying().(*types.Pointer).Elem())
		es := at.elem.size
		return func(m *Machine, fr *frame) {
			p := x.get(m, fr)
			o, ok := p.o.(*Obj)
			if !ok {
				if p.o != nil {
					panic(unsupported("IndexAddr through symbolic pointer"))
				}
				m.nilDeref()
			}
			iv := ix.get(m, fr)
			if iv.t != nil {
				fr.regs[r] = m.symIndexAddr(o, int(p.c), at.n, es, iv, it)
				return
			}
			i := m.index(iv, it, at.n)
			fr.regs[r] = Val{o: o, c: p.c + uint64(i*es)}
		}
	case *ssa.Lookup:
		r, x, ix := c.regs[in], c.op(in.X), c.op(in.Index)
		xt, it := typeInfo(in.X.Type()), typeInfo(in.Index.Type())
		if xt.kind == KString {
			return func(m *Machine, fr *frame) { fr.regs[r] = m.strIndex(x.get(m, fr), ix.get(m, fr), it) }
		}
		ok := in.CommaOk
		return func(m *Machine, fr *frame) {
			v, found := m.mapLookup(x.get(m, fr), ix.get(m, fr), xt)
			if ok {
				fr.regs[r] = Val{o: []Val{v, found}}
			} else {
				fr.regs[r] = v
			}
		}
	case *ssa.MakeClosure:
		r := c.regs[in]
		fn := getFunc(in.Fn.(*ssa.Function))
		ops := make([]operand, len(in.Bindings))
		for i, b := range in.Bindings {
			ops[i] = c.op(b)
		}
		return func(m *Machine, fr *frame) {
			env := make([]Val, len(ops))
			for i := range ops {
				env[i] = ops[i].get(m, fr)
			}
			fr.regs[r] = Val{o: &Closure{fn: fn, env: env}}
		}
	case *ssa.MakeInterface:
		r, x := c.regs[in], c.op(in.X)
		rt := runtimeType(in.X.Type())
		return func(m *Machine, fr *frame) { fr.regs[r] = Val{o: &Iface{rt, x.get(m, fr)}} }
	case *ssa.MakeMap:
		r := c.regs[in]
		mt := typeInfo(in.Type())
		return func(m *Machine, fr *frame) { fr.regs[r] = Val{o: m.newMap(mt)} }
	case *ssa.MakeSlice:
		r, l, cp := c.regs[in], c.op(in.Len), c.op(in.Cap)
		lt, ct := typeInfo(in.Len.Type()), typeInfo(in.Cap.Type())
		et := typeInfo(in.Type()).elem
		return func(m *Machine, fr *frame) {
			n := m.concInt(l.get(m, fr), lt)
			k := m.concInt(cp.get(m, fr), ct)
			if n < 0 || n > 1<<40 {
				m.rtPanic("makeslice: len out of range")
			}
			if k < n || k > 1<<40 {
				m.rtPanic("makeslice: cap out of range")
			}
			if k*int64(max(et.size, 1)) > m.maxAlloc {
				m.chargeHuge(k)
				panic(allocLimit{k})
			}
			o := newObjN(et, int(k))
			o.frozen = false
			m.track(o)
			fr.regs[r] = Val{o: &Slice{o, 0, int(n), int(k)}}
		}
	case *ssa.MapUpdate:
		x, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		return func(m *Machine, fr *frame) {
			m.specCheck()
			mo, _ := x.get(m, fr).o.(*MapObj)
			if mo == nil {
				m.rtPanic("assignment to entry in nil map")
			}
			m.mapSet(fr, mo, k.get(m, fr), v.get(m, fr))
		}
	case *ssa.Next:
		r, x := c.regs[in], c.op(in.Iter)
		isStr := in.IsString
		return func(m *Machine, fr *frame) { fr.regs[r] = m.next(fr, x.get(m, fr), isStr) }
	case *ssa.Range:
		r, x := c.regs[in], c.op(in.X)
		xt := typeInfo(in.X.Type())
		anyOrder := c.f.isRepo || c.f.pkg == "maps"
		return func(m *Machine, fr *frame) {
			v := x.get(m, fr)
			if xt.kind == KString {
				fr.regs[r] = Val{o: &strIter{s: m.S(v)}}
			} else {
				mo, _ := v.o.(*MapObj)
				mi := &mapIter{m: mo}
				if anyOrder {
					mi.order = m.mapOrder(mo)
				}
				fr.regs[r] = Val{o: mi}
			}
		}
	case *ssa.Slice:
		return c.slice(in)
	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		ti := typeInfo(in.Val.Type())
		return func(m *Machine, fr *frame) { m.store(fr, a.get(m, fr), v.get(m, fr), ti) }
	case *ssa.TypeAssert:
		return c.typeAssert(in)
	case *ssa.Defer:
		fnv, args := c.callee(&in.Call)
		return func(m *Machine, fr *frame) {
			m.specCheck()
			cl, av := fnv(m, fr), make([]Val, len(args))
			for i := range args {
				av[i] = args[i].get(m, fr)
			}
			fr.defers = append(fr.defers, deferred{cl, av})
		}
	case *ssa.RunDefers:
		return func(m *Machine, fr *frame) { m.specCheck(); m.runDefers(fr) }
	case *ssa.Go:
		return unsupp("go statement")
	case *ssa.Select:
		return unsupp("select")
	case *ssa.Send:
		return unsupp("send")
	case *ssa.MakeChan:
		r := c.regs[in]
		return func(m *Machine, fr *frame) { fr.regs[r] = Val{o: &Obj{name: "chan"}} }
	}
	return unsupp(fmt.Sprintf("instruction %T", in))
}

func (c *compiler) slice(in *ssa.Slice) instr {
	r, x := c.regs[in], c.op(in.X)
	var lo, hi, mx operand
	var lt, ht, mt *tinfo
	if in.Low != nil {
		lo, lt = c.op(in.Low), typeInfo(in.Low.Type())
	}
	if in.High != nil {
		hi, ht = c.op(in.High), typeInfo(in.High.Type())
	}
	if in.Max != nil {
		mx, mt = c.op(in.Max), typeInfo(in.Max.Type())
	}
	xt := typeInfo(in.X.Type())
	if xt.kind == KString {
		return func(m *Machine, fr *frame) {
			s := m.S(x.get(m, fr))
			n := int64(s.len())
			h := n
			if ht != nil {
				h = m.concBound(hi.get(m, fr), ht, n)
			}
			l := int64(0)
			if lt != nil {
				l = m.concBound(lo.get(m, fr), lt, h)
			}
			if h < 0 || h > n || l < 0 || l > h {
				m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))
			}
			if l == h {
				fr.regs[r] = Val{}
				return
			}
			fr.regs[r] = strVal(s.sub(int(l), int(h)))
		}
	}
	isPtr := xt.kind == KPtr
	var et *tinfo
	arrN := 0
	if isPtr {
		at := typeInfo(in.X.Type().Underlying().(*types.Pointer).Elem())
		et, arrN = at.elem, at.n
	} else {
		et = xt.elem
	}
	return func(m *Machine, fr *frame) {
		v := x.get(m, fr)
		var s Slice
		isNil := false
		if isPtr {
			o, ok := v.o.(*Obj)
			if !ok {
				m.nilDeref()
			}
			s = Slice{o, int(v.c), arrN, arrN}
		} else if p, _ := v.o.(*Slice); p != nil {
			s = *p
		} else {
			isNil = true
		}
		h := int64(s.len)
		k := int64(s.cap)
		if mt != nil {
			k = m.concBound(mx.get(m, fr), mt, k)
		}
		if k < 0 || k > int64(s.cap) {
			m.rtPanic("slice bounds out of range (max)")
		}
		if ht != nil {
			h = m.concBound(hi.get(m, fr), ht, k)
		}
		l := int64(0)
		if lt != nil {
			l = m.concBound(lo.get(m, fr), lt, h)
		}
		if h < 0 || h > k || l < 0 || l > h {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, s.cap))
		}
		if isNil {
			fr.regs[r] = Val{}
			return
		}
		fr.regs[r] = Val{o: &Slice{s.obj, s.off + int(l)*et.size, int(h - l), int(k - l)}}
	}
}

func (c *compiler) typeAssert(in *ssa.TypeAssert) instr {
	r, x := c.regs[in], c.op(in.X)
	to := typeInfo(in.AssertedType)
	T := in.AssertedType
	ok := in.CommaOk
	var rt *rtype
	if to.kind != KIface {
		rt = runtimeType(T)
	}
	zero := zeroVal(to)
	it, _ := T.Underlying().(*types.Interface)
	return func(m *Machine, fr *frame) {
		v := x.get(m, fr)
		i, _ := v.o.(*Iface)
		good := false
		var res Val
		if i != nil {
			if rt != nil {
				good = i.rt == rt
				res = i.v
			} else {
				good = i.rt.implements(it)
				res = v
			}
		}
		if ok {
			if !good {
				res = zero
			}
			fr.regs[r] = Val{o: []Val{res, boolVal(good)}}
			return
		}
		if !good {
			dyn := "nil"
			if i != nil {
				dyn = i.rt.T.String()
			}
			m.rtPanic("interface conversion: " + dyn + " is not " + T.String())
		}
		fr.regs[r] = res
	}
}

func (rt *rtype) implements(it *types.Interface) bool {
	if v, ok := rt.impl.Load(it); ok {
		return v.(bool)
	}
	r := types.Implements(rt.T, it)
	rt.impl.Store(it, r)
	return r
}

// callee resolves a call target; for invoke mode the receiver is prepended.
func (c *compiler) callee(cc *ssa.CallCommon) (func(m *Machine, fr *frame) *Closure, []operand) {
	var args []operand
	for _, a := range cc.Args {
		args = append(args, c.op(a))
	}
	if cc.IsInvoke() {
		x := c.op(cc.Value)
		meth := cc.Method
		return func(m *Machine, fr *frame) *Closure {
			i, _ := x.get(m, fr).o.(*Iface)
			if i == nil {
				m.nilDeref()
			}
			fn := m.findMethod(i.rt, meth)
			return &Closure{native: func(m *Machine, fr *frame, a []Val) Val {
				return m.call(fn, append([]Val{i.v}, a...), nil, fr)
			}, name: fn.name}
		}, args
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		bf := c.builtin(b, cc)
		return func(m *Machine, fr *frame) *Closure {
			return &Closure{native: bf, name: b.Name()}
		}, args
	}
	v := c.op(cc.Value)
	return func(m *Machine, fr *frame) *Closure {
		cl, _ := v.get(m, fr).o.(*Closure)
		if cl == nil {
			m.nilDeref()
		}
		return cl
	}, args
}

func (c *compiler) call(in *ssa.Call) instr {
	r := c.regs[in]
	cc := &in.Call
	var args []operand
	for _, a := range cc.Args {
		args = append(args, c.op(a))
	}
	if cc.IsInvoke() {
		x := c.op(cc.Value)
		meth := cc.Method
		return func(m *Machine, fr *frame) {
			i, _ := x.get(m, fr).o.(*Iface)
			if i == nil {
				m.nilDeref()
			}
			fn := m.findMethod(i.rt, meth)
			av := make([]Val, len(args)+1)
			av[0] = i.v
			for k := range args {
				av[k+1] = args[k].get(m, fr)
			}
			fr.regs[r] = m.call(fn, av, nil, fr)
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		bf := c.builtin(b, cc)
		return func(m *Machine, fr *frame) {
			av := make([]Val, len(args))
			for k := range args {
				av[k] = args[k].get(m, fr)
			}
			fr.regs[r] = bf(m, fr, av)
		}
	}
	if sf, ok := cc.Value.(*ssa.Function); ok {
		fn := getFunc(sf)
		return func(m *Machine, fr *frame) {
			av := make([]Val, len(args))
			for k := range args {
				av[k] = args[k].get(m, fr)
			}
			fr.regs[r] = m.call(fn, av, nil, fr)
		}
	}
	v := c.op(cc.Value)
	return func(m *Machine, fr *frame) {
		cl, _ := v.get(m, fr).o.(*Closure)
		if cl == nil {
			m.nilDeref()
		}
		av := make([]Val, len(args))
		for k := range args {
			av[k] = args[k].get(m, fr)
		}
		fr.regs[r] = m.callClosure(cl, av, fr)
	}
}
