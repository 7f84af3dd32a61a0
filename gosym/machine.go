package main

// Execution of compiled functions: frames, calls, panics, memory, decisions.

import (
	"fmt"
	"go/types"
	"os"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	cl   *Closure
	args []Val
}

type frame struct {
	fn        *cfunc
	regs      []Val
	defers    []deferred
	caller    *frame
	panicking *goPanic
	running   bool // running deferred calls
}

// goPanic is a panic of the program under analysis.
type goPanic struct {
	v     Val // interface value
	msg   string
	rt    bool // runtime error
	where string
}

// Control-flow signals of the explorer.
type unsupported string
type allocLimit struct{ n int64 }
type stepLimit struct{}
type bailout struct{}
type pathEnd struct{ why string }
type violationStop struct{}

type undoEnt struct {
	o   *Obj
	i   int
	v   Val
	m   *MapObj
	old *MapObj
}

type decKind uint8

const (
	dBool   decKind = iota // branch; val 0/1
	dForced                // branch with only one feasible side
	dEq                    // concretisation: equal val
	dNeq                   // concretisation: different from val
)

type decision struct {
	kind decKind
	val  uint64
}

// decNode is a shared decision list (child -> parent).
type decNode struct {
	parent *decNode
	d      decision
	n      int
}

type inputVar struct {
	name string
	t    *Term
}

type observation struct {
	name string
	v    Val
	T    types.Type
}

type Machine struct {
	id   int
	ts   *Terms
	sol  *Solver
	run  *Run
	heap []*Obj // globals by index

	steps, maxSteps int64
	nalloc          int64
	allocCells      int64
	maxAlloc        int64
	memLimit        int64 // of sym.Memory, 0 outside of it
	memUsed         int64
	memMsg          string
	depth           int
	spec            int
	specSteps       int64

	// initialisation
	initing  bool
	initObjs []*Obj
	initMaps []*MapObj
	pkgState map[*ssa.Package]int // 1 running, 2 done, 3 poisoned
	poisonWh map[string]string

	// path
	prefix    []decision
	pos       int
	node      *decNode
	model     *Model
	pc        pathCond
	known     map[*Term]bool
	undo      []undoEnt
	inputs    []inputVar
	names     map[string]int
	obs       []observation
	reach     map[string]bool
	regFails  map[*cblock]int
	repoWrite string
	mapRev    *Term // choice of the order of map iterations, if made
	pools     map[poolKey][]Val
	smaps     map[poolKey]*MapObj
	notes     map[string]bool
	harness   *harness
	curFn     *cfunc
	funcsSeen []bool
	blkHit    []bool
	truth     map[*Term]*[4]uint64
	asserts   int
	panicAt   string
	concN     map[*Term]int
	oracle    map[string]any
}

func newMachine(id int, r *Run) *Machine {
	ts := newTerms()
	m := &Machine{id: id, ts: ts, run: r, sol: newSolver(ts, &r.st), maxAlloc: 1 << 22, maxSteps: 40_000_000,
		pkgState: map[*ssa.Package]int{}, poisonWh: map[string]string{}, truth: map[*Term]*[4]uint64{}}
	m.sol.alt = m.canon
	return m
}

func (m *Machine) track(o *Obj) {
	m.nalloc++
	m.allocCells += int64(o.n())
	if m.memLimit > 0 {
		if o.isB {
			m.charge(int64(o.n()))
		} else {
			m.charge(8 * int64(o.n()))
		}
	}
	if m.allocCells > m.maxAlloc*4 && !m.initing {
		panic(allocLimit{m.allocCells})
	}
	if m.initing {
		m.initObjs = append(m.initObjs, o)
		o.repo = m.curFn != nil && m.curFn.isRepo
	}
}

// charge counts memory that is allocated within sym.Memory, at least as much as
// the compiled code allocates less the rounding.
func (m *Machine) charge(n int64) {
	if m.memLimit == 0 {
		return
	}
	if m.memUsed += n; m.memUsed > m.memLimit {
		m.specCheck()
		msg := m.memMsg
		m.memLimit = 0
		m.assert(m.ts.False, msg)
	}
}

// chargeHuge is called before an allocation is refused.
func (m *Machine) chargeHuge(n int64) {
	if m.memLimit > 0 && n > m.memLimit {
		m.charge(n)
	}
}

func (m *Machine) newObj(ti *tinfo) *Obj {
	o := newObj(ti)
	m.track(o)
	return o
}

func (m *Machine) newBytes(n int) *Obj {
	o := &Obj{isB: true, b: make([]byte, n)}
	m.track(o)
	return o
}

func (m *Machine) globalObj(i int) *Obj {
	for i >= len(m.heap) {
		m.heap = append(m.heap, nil)
	}
	o := m.heap[i]
	if o == nil {
		g := globalAt(i)
		o = newObj(typeInfo(g.Type().Underlying().(*types.Pointer).Elem()))
		o.global = g
		o.name = g.String()
		if g.Pkg != nil {
			switch m.pkgState[g.Pkg] {
			case 3:
				o.poison = true
			case 2:
				o.frozen = true
			case 0:
				// Not reached through initialisation: run or poison it now.
				o.poison = !m.initing
			}
		}
		if m.initing {
			m.initObjs = append(m.initObjs, o)
		} else {
			o.frozen = true
		}
		m.heap[i] = o
	}
	return o
}

// ---- panics

func (m *Machine) specCheck() {
	if m.spec > 0 {
		panic(bailout{})
	}
}

func (m *Machine) rtPanic(msg string) {
	m.specCheck()
	panic(&goPanic{v: m.runtimeError(msg), msg: "runtime error: " + msg, rt: true, where: m.where()})
}

func (m *Machine) nilDeref() {
	m.rtPanic("invalid memory address or nil pointer dereference")
}

func (m *Machine) where() string {
	if m.curFn != nil {
		return m.curFn.name
	}
	return "?"
}

func (m *Machine) runtimeError(msg string) Val {
	rt := m.run.prog.errStrRT
	if rt == nil {
		return Val{o: &Iface{m.run.prog.stringRT, mkStr("runtime error: " + msg)}}
	}
	o := newObj(m.run.prog.errStrTI)
	o.cells[0] = mkStr("runtime error: " + msg)
	return Val{o: &Iface{rt, Val{o: o}}}
}

// ---- calls

const maxDepth = 3000

func (m *Machine) callClosure(cl *Closure, args []Val, caller *frame) Val {
	if cl.native != nil {
		return cl.native(m, caller, args)
	}
	return m.call(cl.fn, args, cl.env, caller)
}

func (m *Machine) call(fn *cfunc, args []Val, env []Val, caller *frame) Val {
	if fn.intr != nil {
		return fn.intr(m, caller, args)
	}
	fn.compile()
	if fn.err != "" {
		panic(unsupported(fn.err))
	}
	if m.initing && fn.name == "init" || fn.fn.Synthetic == "package initializer" {
		return m.initPackage(fn)
	}
	if int(fn.idx) >= len(m.funcsSeen) {
		m.funcsSeen = append(m.funcsSeen, make([]bool, int(fn.idx)+64-len(m.funcsSeen))...)
	}
	m.funcsSeen[fn.idx] = true
	m.depth++
	if m.depth > maxDepth {
		m.depth = 0
		panic(stepLimit{})
	}
	saved := m.curFn
	m.curFn = fn
	fr := &frame{fn: fn, caller: caller, regs: make([]Val, fn.nregs)}
	copy(fr.regs, args)
	copy(fr.regs[fn.nparam:], env)
	var r Val
	if fn.hasDef {
		m.specCheck()
		r = m.runDef(fr)
	} else {
		r = m.runFrame(fr, 0)
	}
	m.depth--
	m.curFn = saved
	return r
}

func (m *Machine) runDef(fr *frame) (ret Val) {
	depth, cur := m.depth, m.curFn
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		gp, ok := r.(*goPanic)
		if !ok {
			panic(r)
		}
		m.depth, m.curFn = depth, cur
		fr.panicking = gp
		m.drainDefers(fr)
		if fr.panicking != nil {
			panic(fr.panicking)
		}
		if fr.fn.fn.Recover != nil {
			ret = m.runFrame(fr, fr.fn.fn.Recover.Index)
		} else {
			ret = zeroResult(fr.fn.fn.Signature)
		}
	}()
	return m.runFrame(fr, 0)
}

func zeroResult(sig *types.Signature) Val {
	switch n := sig.Results().Len(); n {
	case 0:
		return Val{}
	case 1:
		return zeroVal(typeInfo(sig.Results().At(0).Type()))
	default:
		vs := make([]Val, n)
		for i := range vs {
			vs[i] = zeroVal(typeInfo(sig.Results().At(i).Type()))
		}
		return Val{o: vs}
	}
}

// drainDefers runs all deferred calls while panicking; a new panic replaces
// the current one and the remaining calls still run.
func (m *Machine) drainDefers(fr *frame) {
	for len(fr.defers) > 0 {
		func() {
			depth, cur := m.depth, m.curFn
			defer func() {
				if r := recover(); r != nil {
					gp, ok := r.(*goPanic)
					if !ok {
						panic(r)
					}
					m.depth, m.curFn = depth, cur
					fr.panicking = gp
				}
			}()
			m.runDefers(fr)
		}()
	}
}

func (m *Machine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.running = true
		m.callClosure(d.cl, d.args, fr)
		fr.running = false
	}
}

func (m *Machine) runFrame(fr *frame, bi int) Val {
	fn := fr.fn
	b := fn.blocks[bi]
	for {
		m.steps += int64(len(b.instrs)) + 1
		if fn.isRepo {
			m.hit(b)
		}
		if m.steps > m.maxSteps {
			panic(stepLimit{})
		}
		if m.spec > 0 && m.steps > m.specSteps {
			panic(bailout{})
		}
		for _, in := range b.instrs {
			in(m, fr)
		}
		var next int
		var edge int
		switch b.term {
		case tJump:
			next, edge = b.succs[0], b.edge[0]
		case tIf:
			cv := b.cond.get(m, fr)
			if cv.t == nil {
				i := 1 - int(cv.c&1)
				next, edge = b.succs[i], b.edge[i]
				break
			}
			if b.region != nil {
				nb, ret, done, ok := m.tryRegion(fr, b, cv.t)
				if ok {
					if done {
						return ret
					}
					b = nb
					continue
				}
			}
			i := 1
			if m.decide(cv.t) {
				i = 0
			}
			next, edge = b.succs[i], b.edge[i]
		case tReturn:
			switch len(b.rets) {
			case 0:
				return Val{}
			case 1:
				return b.rets[0].get(m, fr)
			}
			vs := make([]Val, len(b.rets))
			for i := range vs {
				vs[i] = b.rets[i].get(m, fr)
			}
			return Val{o: vs}
		case tPanic:
			m.specCheck()
			v := b.panicV.get(m, fr)
			panic(&goPanic{v: v, msg: m.panicText(v), where: fn.name})
		default:
			panic(unsupported("block without terminator in " + fn.name))
		}
		nb := fn.blocks[next]
		m.enterPhis(fr, nb, edge)
		b = nb
	}
}

func (m *Machine) hit(b *cblock) {
	if b.gid >= len(m.blkHit) {
		m.blkHit = append(m.blkHit, make([]bool, b.gid+256-len(m.blkHit))...)
	}
	m.blkHit[b.gid] = true
}

func (m *Machine) enterPhis(fr *frame, nb *cblock, edge int) {
	switch len(nb.phis) {
	case 0:
	case 1:
		p := &nb.phis[0]
		fr.regs[p.reg] = p.edges[edge].get(m, fr)
	default:
		var buf [8]Val
		tmp := buf[:0]
		for i := range nb.phis {
			tmp = append(tmp, nb.phis[i].edges[edge].get(m, fr))
		}
		for i := range nb.phis {
			fr.regs[nb.phis[i].reg] = tmp[i]
		}
	}
}

func (m *Machine) panicText(v Val) string {
	i, _ := v.o.(*Iface)
	if i == nil {
		return "nil"
	}
	if i.rt.ti.kind == KString {
		if s := m.S(i.v); s.concrete() {
			if s == nil {
				return ""
			}
			return s.s
		}
		return "(symbolic string)"
	}
	return "(" + i.rt.T.String() + ")"
}

func (m *Machine) findMethod(rt *rtype, meth *types.Func) *cfunc {
	key := meth.Name()
	if !meth.Exported() {
		key = meth.Pkg().Path() + "." + key
	}
	if f, ok := rt.methods.Load(key); ok {
		return f.(*cfunc)
	}
	f := m.run.prog.methodOf(rt.T, meth.Pkg(), meth.Name())
	if f == nil {
		panic(unsupported("no method " + key + " on " + rt.T.String()))
	}
	cf := getFunc(f)
	rt.methods.Store(key, cf)
	return cf
}

// methodVal finds a method by name, nil if absent.
func (m *Machine) methodVal(rt *rtype, name string) *cfunc {
	if f, ok := rt.methods.Load("?" + name); ok {
		cf, _ := f.(*cfunc)
		return cf
	}
	f := m.run.prog.methodOf(rt.T, nil, name)
	var cf *cfunc
	if f != nil {
		cf = getFunc(f)
	}
	rt.methods.Store("?"+name, cf)
	return cf
}

// ---- memory

func (m *Machine) load(v Val, ti *tinfo) Val {
	switch p := v.o.(type) {
	case *Obj:
		if p.poison {
			panic(unsupported("uninitialised package state " + p.name))
		}
		if ti.agg() {
			out := make([]Val, ti.size)
			if p.isB {
				for i := range out {
					out[i] = p.get(int(v.c) + i)
				}
			} else {
				copy(out, p.cells[v.c:int(v.c)+ti.size])
			}
			return Val{o: out}
		}
		if p.isB {
			return p.get(int(v.c))
		}
		if int(v.c) >= len(p.cells) {
			panic(unsupported("load outside object"))
		}
		return p.cells[v.c]
	case *SymPtr:
		return m.symLoad(p, ti)
	}
	m.nilDeref()
	return Val{}
}

func (m *Machine) setCell(o *Obj, i int, v Val) {
	if o.frozen {
		m.noteWrite(o)
		m.undo = append(m.undo, undoEnt{o: o, i: i, v: o.get(i)})
	}
	o.set(i, v)
}

type poolKey struct {
	o   *Obj
	off int
}

func (m *Machine) noteWrite(o *Obj) {
	if o.poison {
		panic(unsupported("write to uninitialised package state " + o.name))
	}
	if m.curFn != nil && m.curFn.isRepo && m.repoWrite == "" {
		m.repoWrite = "write to package-level state in " + m.curFn.name
		if o.name != "" {
			m.repoWrite += " (" + o.name + ")"
		}
	}
	if m.repoWrite == "" && (o.repo || o.global != nil && o.global.Pkg != nil && o.global.Pkg.Pkg.Path() == repoPkg) {
		m.repoWrite = "write to package-level state " + o.name
	}
}

func (m *Machine) store(fr *frame, a, v Val, ti *tinfo) {
	if m.spec > 0 {
		panic(bailout{})
	}
	switch p := a.o.(type) {
	case *Obj:
		if ti.agg() {
			src := v.o.([]Val)
			if p.frozen {
				for i := 0; i < ti.size; i++ {
					m.setCell(p, int(a.c)+i, src[i])
				}
				return
			}
			if p.isB {
				for i := 0; i < ti.size; i++ {
					p.set(int(a.c)+i, src[i])
				}
				return
			}
			copy(p.cells[a.c:], src[:ti.size])
			return
		}
		if p.frozen || p.isB {
			m.setCell(p, int(a.c), v)
			return
		}
		if int(a.c) >= len(p.cells) {
			panic(unsupported("store outside object"))
		}
		p.cells[a.c] = v
	case *SymPtr:
		i := int(m.concTerm(p.idx))
		m.store(fr, Val{o: p.obj, c: uint64(p.off + i*p.stride)}, v, ti)
	default:
		m.nilDeref()
	}
}

func (m *Machine) symIndexAddr(o *Obj, off, n, stride int, iv Val, it *tinfo) Val {
	ts := m.ts
	t := iv.t
	if it.w < 64 {
		if it.signed {
			t = ts.SExt(t, 64)
		} else {
			t = ts.ZExt(t, 64)
		}
	}
	if !m.decide(ts.Ult(t, ts.Const(64, uint64(n)))) {
		m.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	if n == 1 {
		return Val{o: o, c: uint64(off)}
	}
	return Val{o: &SymPtr{obj: o, off: off, idx: t, n: n, stride: stride}}
}

// rangeLimit is the number of entries of an n-element object a symbolic index
// can reach by its interval.
func rangeOf(t *Term, n int) (int, int) {
	lo, hi := 0, n-1
	if t.lo < uint64(n) {
		lo = int(t.lo)
	}
	if t.hi < uint64(n) {
		hi = int(t.hi)
	}
	return lo, hi
}

func (m *Machine) symLoad(p *SymPtr, ti *tinfo) Val {
	if p.obj.poison {
		panic(unsupported("uninitialised package state " + p.obj.name))
	}
	if ti.kind != KInt && ti.kind != KBool {
		i := m.classIndex(p, ti.size)
		return m.load(Val{o: p.obj, c: uint64(p.off + i*p.stride)}, ti)
	}
	lo, hi := rangeOf(p.idx, p.n)
	return m.selectVal(lo, hi, p.idx, ti.w, func(i int) Val { return p.obj.get(p.off + i*p.stride) })
}

// classIndex chooses an entry that p may refer to, for each value that the
// entries have (equal entries are one case).
func (m *Machine) classIndex(p *SymPtr, size int) int {
	lo, hi := rangeOf(p.idx, p.n)
	if hi-lo > 1<<12 || p.obj.isB {
		return int(m.concTerm(p.idx))
	}
	var reps []int
	vals := make([]uint64, hi+1)
Next:
	for i := lo; i <= hi; i++ {
		a := p.obj.cells[p.off+i*p.stride:][:size]
	Reps:
		for k, r := range reps {
			if k == 64 {
				break
			}
			for j, v := range p.obj.cells[p.off+r*p.stride:][:size] {
				if !identical(a[j], v) {
					continue Reps
				}
			}
			vals[i] = uint64(k)
			continue Next
		}
		vals[i] = uint64(len(reps))
		reps = append(reps, i)
	}
	if len(reps) > hi-lo {
		return int(m.concTerm(p.idx))
	}
	for i := 0; i < lo; i++ {
		vals[i] = vals[lo]
	}
	return reps[m.concTerm(m.ts.Table(vals, 16, p.idx))]
}

// identical tells whether two values are known to be the same.
func identical(a, b Val) bool {
	if a.t != b.t || a.c != b.c {
		return false
	}
	if a.o == nil || b.o == nil {
		return a.o == nil && b.o == nil
	}
	if sa, ok := a.o.(*Str); ok {
		sb, ok := b.o.(*Str)
		return ok && (sa == sb || sa.sym == nil && sb.sym == nil && sa.s == sb.s)
	}
	ta, tb := reflect.TypeOf(a.o), reflect.TypeOf(b.o)
	if ta != tb || !ta.Comparable() {
		return false
	}
	switch ta.Kind() {
	case reflect.Interface, reflect.Struct, reflect.Array:
		return false
	}
	return a.o == b.o
}

// selectVal builds the value at a symbolic position.
func (m *Machine) selectVal(lo, hi int, idx *Term, w uint8, get func(i int) Val) Val {
	ts := m.ts
	all := true
	for i := lo; i <= hi; i++ {
		if get(i).t != nil {
			all = false
			break
		}
	}
	if all && w > 0 {
		vals := make([]uint64, hi+1)
		for i := lo; i <= hi; i++ {
			vals[i] = get(i).c
		}
		if lo > 0 {
			for i := 0; i < lo; i++ {
				vals[i] = vals[lo]
			}
		}
		return fromTerm(ts.Table(vals, w, idx))
	}
	if hi-lo > 600 {
		i := int(m.concTerm(idx))
		return get(i)
	}
	res := m.term(get(hi), w)
	for i := hi - 1; i >= lo; i-- {
		res = ts.Ite(ts.Eq(idx, ts.Const(idx.w, uint64(i))), m.term(get(i), w), res)
	}
	return fromTerm(res)
}

// index concretises an index after its bounds check.
func (m *Machine) index(iv Val, it *tinfo, n int) int {
	if iv.t != nil {
		ts := m.ts
		t := iv.t
		if it.w < 64 {
			if it.signed {
				t = ts.SExt(t, 64)
			} else {
				t = ts.ZExt(t, 64)
			}
		}
		if !m.decide(ts.Ult(t, ts.Const(64, uint64(n)))) {
			m.rtPanic(fmt.Sprintf("index out of range with length %d", n))
		}
		return int(m.concTerm(t))
	}
	i := int64(iv.c)
	if it.signed {
		i = sext(iv.c, it.w)
	}
	if uint64(i) >= uint64(n) {
		m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
	}
	return int(i)
}

func (m *Machine) strIndex(v, iv Val, it *tinfo) Val {
	s := m.S(v)
	if iv.t == nil {
		return s.at(m.index(iv, it, s.len()))
	}
	p := m.symIndexAddr(nil, 0, s.len(), 1, iv, it)
	sp, ok := p.o.(*SymPtr)
	if !ok {
		return s.at(0)
	}
	lo, hi := rangeOf(sp.idx, s.len())
	return m.selectVal(lo, hi, sp.idx, 8, func(i int) Val { return s.at(i) })
}

// S resolves a string value.
func (m *Machine) S(v Val) *Str {
	switch s := v.o.(type) {
	case nil:
		return nil
	case *Str:
		return s
	case *LazyStr:
		if !s.done {
			m.specCheck()
			s.s = s.force()
			s.done = true
		}
		return s.s
	}
	panic(unsupported(fmt.Sprintf("string value %T", v.o)))
}

// concStr returns a fully concrete string, concretising symbolic bytes.
func (m *Machine) concStr(v Val) string {
	s := m.S(v)
	if s == nil {
		return ""
	}
	if s.sym == nil {
		return s.s
	}
	b := []byte(s.s)
	for i, t := range s.sym {
		if t != nil {
			b[i] = byte(m.concTerm(t))
		}
	}
	return string(b)
}

// ---- decisions

func (m *Machine) setKnown(t *Term, v bool) {
	if t.op == ONot {
		t, v = t.a, !v
	}
	m.known[t] = v
}

func (m *Machine) lookupKnown(t *Term) (bool, bool) {
	neg := false
	if t.op == ONot {
		t, neg = t.a, true
	}
	if v, ok := m.known[t]; ok {
		return v != neg, true
	}
	// conjunctions and disjunctions of known parts
	switch t.op {
	case OAnd:
		a, oka := m.lookupKnown(t.a)
		b, okb := m.lookupKnown(t.b)
		if oka && !a || okb && !b {
			return neg, true
		}
		if oka && okb {
			return !neg, true
		}
	case OOr:
		a, oka := m.lookupKnown(t.a)
		b, okb := m.lookupKnown(t.b)
		if oka && a || okb && b {
			return !neg, true
		}
		if oka && okb {
			return neg, true
		}
	}
	return false, false
}

// assume adds t to the path condition.
func (m *Machine) addPC(t *Term) {
	if t.isConst() {
		return
	}
	m.setKnown(t, true)
	if t.op == OAnd {
		m.addPC(t.a)
		m.addPC(t.b)
		return
	}
	if t.op == ONot && t.a.op == OOr {
		m.addPC(m.ts.Not(t.a.a))
		m.addPC(m.ts.Not(t.a.b))
		return
	}
	m.pc.add(m, t)
}

func (m *Machine) push(d decision) {
	n := 1
	if m.node != nil {
		n = m.node.n + 1
	}
	m.node = &decNode{parent: m.node, d: d, n: n}
	if n > 200_000 {
		panic(unsupported("decision limit"))
	}
}

// decide picks a side for a symbolic condition, scheduling the other one.
func (m *Machine) decide(t *Term) bool {
	if t.isConst() {
		return t.k == 1
	}
	if v, ok := m.lookupKnown(t); ok {
		return v
	}
	if m.spec > 0 {
		panic(bailout{})
	}
	if m.initing {
		panic(unsupported("symbolic condition during initialisation"))
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.push(d)
		v := d.val == 1
		c := t
		if !v {
			c = m.ts.Not(t)
		}
		switch d.kind {
		case dBool:
			m.addPC(c)
		case dForced:
			m.setKnown(c, true)
		default:
			panic("decision replay mismatch (branch)")
		}
		return v
	}
	v := m.ts.Eval(t, m.model) == 1
	c := t
	if !v {
		c = m.ts.Not(t)
	}
	other := m.ts.Not(c)
	r, om := m.feasible(other, false)
	if r == Unsat {
		m.push(decision{dForced, b2u(v)})
		m.setKnown(c, true)
		return v
	}
	if r == Sat {
		m.fork(decision{dBool, b2u(!v)}, om)
	} else {
		m.note("undecided branch (solver gave no answer)")
	}
	m.push(decision{dBool, b2u(v)})
	m.addPC(c)
	return v
}

func (m *Machine) fork(d decision, mod *Model) {
	n := 1
	if m.node != nil {
		n = m.node.n + 1
	}
	m.run.schedule(&workItem{node: &decNode{parent: m.node, d: d, n: n}, model: mod})
}

const concLimit = 300

// concTerm fixes the value of t on this path, scheduling the others.
func (m *Machine) concTerm(t *Term) uint64 {
	if t.isConst() {
		return t.k
	}
	if m.spec > 0 {
		panic(bailout{})
	}
	ts := m.ts
	for {
		if m.pos < len(m.prefix) {
			d := m.prefix[m.pos]
			// A concretisation with an already known answer consumes nothing.
			eq := ts.Eq(t, ts.Const(t.w, d.val))
			m.pos++
			m.push(d)
			switch d.kind {
			case dEq:
				m.addPC(eq)
				return d.val
			case dNeq:
				m.concN[t]++
				m.addPC(ts.Not(eq))
				continue
			default:
				panic("decision replay mismatch (value)")
			}
		}
		v := ts.Eval(t, m.model)
		eq := ts.Eq(t, ts.Const(t.w, v))
		if m.concN[t] >= concLimit {
			if os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "concretisation limit at %s\n", m.where())
			}
			m.note("concretisation limit")
		} else if !eq.isConst() {
			r, om := m.feasible(ts.Not(eq), false)
			switch r {
			case Sat:
				m.fork(decision{dNeq, v}, om)
			case Unknown:
				m.note("undecided branch (solver gave no answer)")
			}
		}
		m.push(decision{dEq, v})
		m.addPC(eq)
		return v
	}
}

func (m *Machine) concInt(v Val, ti *tinfo) int64 {
	c := v.c
	if v.t != nil {
		c = m.concTerm(v.t)
	}
	if ti.signed {
		return sext(c, ti.w)
	}
	return int64(c)
}

// concBound gives a slice bound in [0,hi], or -1 when out of range.
func (m *Machine) concBound(v Val, ti *tinfo, hi int64) int64 {
	if v.t == nil {
		return m.concInt(v, ti)
	}
	t := v.t
	if ti.w < 64 {
		if ti.signed {
			t = m.ts.SExt(t, 64)
		} else {
			t = m.ts.ZExt(t, 64)
		}
	}
	if hi < 0 {
		return -1
	}
	if !m.decide(m.ts.Ule(t, m.ts.Const(64, uint64(hi)))) {
		return -1
	}
	return int64(m.concTerm(t))
}

func (m *Machine) note(s string) {
	if m.notes == nil {
		m.notes = map[string]bool{}
	}
	m.notes[s] = true
}

// ---- package initialisation

var denyInit = []string{"runtime", "os", "syscall", "net", "reflect", "log", "crypto", "internal/", "testing", "plugin", "debug/", "hash/maphash",
	"vendor/", "math/rand", "context", "io/fs", "path", "go/", "text/", "html/", "encoding/json", "encoding/gob", "encoding/xml", "database/",
	"unique", "weak", "iter", "sync", "mime/multipart", "os/"}

func denied(path string) bool {
	if path == "net/mail" || path == "net/textproto" {
		return false
	}
	switch path {
	case "internal/cpu", "internal/reflectlite", "internal/bytealg", "internal/byteorder", "internal/strconv", "internal/stringslite", "internal/goarch":
		return false
	}
	for _, d := range denyInit {
		if path == d || strings.HasSuffix(d, "/") && strings.HasPrefix(path, d) || strings.HasPrefix(path, d+"/") {
			return true
		}
	}
	return false
}

func (m *Machine) initPackage(fn *cfunc) Val {
	p := fn.fn.Pkg
	switch m.pkgState[p] {
	case 1, 2, 3:
		return Val{}
	}
	if denied(p.Pkg.Path()) {
		m.poison(p, "not initialised")
		return Val{}
	}
	m.pkgState[p] = 1
	func() {
		depth, cur := m.depth, m.curFn
		defer func() {
			if r := recover(); r != nil {
				m.depth, m.curFn = depth, cur
				why := fmt.Sprint(r)
				if gp, ok := r.(*goPanic); ok {
					why = gp.msg
				}
				m.poison(p, why)
				if m.id == 0 && os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "init of %s failed: %v\n", p.Pkg.Path(), why)
				}
			}
		}()
		fr := &frame{fn: fn, regs: make([]Val, fn.nregs)}
		m.curFn = fn
		m.runInit(fr)
		m.curFn = cur
	}()
	if m.pkgState[p] == 1 {
		m.pkgState[p] = 2
	}
	return Val{}
}

type badInit struct{}

// runInit executes a package initialiser; a step that cannot be executed only
// makes the variables that depend on it unusable.
func (m *Machine) runInit(fr *frame) {
	fn := fr.fn
	b := fn.blocks[0]
	for {
		k := 0
		for _, in := range b.src.Instrs {
			switch in.(type) {
			case *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic, *ssa.DebugRef:
				continue
			}
			step := b.instrs[k]
			k++
			if st, ok := in.(*ssa.Store); ok {
				if r, ok := fn.regOf[st.Val]; ok {
					if _, bad := fr.regs[r].o.(badInit); bad {
						if g, ok := st.Addr.(*ssa.Global); ok {
							m.globalObj(globalIndex(g)).poison = true
						}
						continue
					}
				}
			}
			func() {
				depth, cur := m.depth, m.curFn
				defer func() {
					if e := recover(); e != nil {
						m.depth, m.curFn = depth, cur
						if m.id == 0 && os.Getenv("GOSYM_DEBUG") != "" {
							fmt.Fprintf(os.Stderr, "init %s: %v: %v\n", fn.name, in, e)
						}
						if v, ok := in.(ssa.Value); ok {
							fr.regs[fn.regOf[v]] = Val{o: badInit{}}
						}
					}
				}()
				step(m, fr)
			}()
		}
		next, edge := 0, 0
		switch b.term {
		case tJump:
			next, edge = b.succs[0], b.edge[0]
		case tIf:
			cv := b.cond.get(m, fr)
			if _, bad := cv.o.(badInit); bad {
				panic(unsupported("undecided branch in initialiser"))
			}
			i := 1 - int(cv.c&1)
			next, edge = b.succs[i], b.edge[i]
		default:
			return
		}
		b = fn.blocks[next]
		m.enterPhis(fr, b, edge)
	}
}

func (m *Machine) poison(p *ssa.Package, why string) {
	m.pkgState[p] = 3
	m.poisonWh[p.Pkg.Path()] = why
	for _, mem := range p.Members {
		if g, ok := mem.(*ssa.Global); ok && g.Name() != "init$guard" {
			o := m.globalObj(globalIndex(g))
			o.poison = true
		}
	}
}

func (m *Machine) initAll(main *ssa.Package) {
	m.initing = true
	m.steps = 0
	m.known = map[*Term]bool{}
	m.maxSteps = 1 << 40
	f := getFunc(main.Func("init"))
	f.compile()
	m.initPackage(f)
	for _, o := range m.initObjs {
		o.frozen = true
	}
	for _, mo := range m.initMaps {
		mo.frozen = true
	}
	m.initObjs, m.initMaps = nil, nil
	m.initing = false
}

// fresh runs f as if the program had just started: package-level state is that
// after initialisation, and what f does to it is undone.
func (m *Machine) fresh(f func()) {
	saved, pools, smaps := m.undo, m.pools, m.smaps
	redo := make([]undoEnt, len(saved))
	for i := len(saved) - 1; i >= 0; i-- {
		u := saved[i]
		if u.m != nil {
			now := *u.m
			redo[i] = undoEnt{m: u.m, old: &now}
			*u.m = *u.old
			continue
		}
		redo[i] = undoEnt{o: u.o, i: u.i, v: u.o.get(u.i)}
		u.o.set(u.i, u.v)
	}
	m.undo, m.pools, m.smaps = nil, nil, nil
	defer func() {
		m.rollback()
		for _, u := range redo {
			if u.m != nil {
				*u.m = *u.old
				continue
			}
			u.o.set(u.i, u.v)
		}
		m.undo, m.pools, m.smaps = saved, pools, smaps
	}()
	f()
}

func (m *Machine) rollback() {
	for i := len(m.undo) - 1; i >= 0; i-- {
		u := m.undo[i]
		if u.m != nil {
			*u.m = *u.old
			continue
		}
		u.o.set(u.i, u.v)
	}
	m.undo = m.undo[:0]
}
