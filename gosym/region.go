package main

// If-conversion: small acyclic side-effect-free regions after a branch are
// executed under symbolic conditions and merged instead of forking.

import (
	"golang.org/x/tools/go/ssa"
)

type region struct {
	order []int // blocks of the region after the head, topological order
	exits []int // one or two exit block ids; -1 is "return"
}

const maxRegion = 24

func mergeable(ti *tinfo) bool {
	return ti.kind == KBool || ti.kind == KInt && ti.w <= 8
}

func pureBlock(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef, *ssa.ChangeType, *ssa.Extract, *ssa.Field, *ssa.FieldAddr,
			*ssa.Index, *ssa.IndexAddr, *ssa.Lookup, *ssa.Convert, *ssa.ChangeInterface, *ssa.MakeInterface:
		case *ssa.BinOp:
		case *ssa.UnOp:
			if in.Op.String() == "<-" {
				return false
			}
		case *ssa.Slice:
		case *ssa.Call:
			if in.Call.IsInvoke() {
				return false
			}
			switch f := in.Call.Value.(type) {
			case *ssa.Builtin:
				switch f.Name() {
				case "len", "cap", "min", "max":
				default:
					return false
				}
			case *ssa.Function:
			default:
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (f *cfunc) regions(c *compiler) {
	for _, b := range f.blocks {
		if b.term == tIf {
			b.region = f.findRegion(b)
		}
	}
}

func (f *cfunc) findRegion(head *cblock) *region {
	in := map[int]bool{head.id: true}
	var order []int
	var best *region
	absorbedIf := false
	exitsOf := func() []int {
		var ex []int
		add := func(e int) {
			for _, x := range ex {
				if x == e {
					return
				}
			}
			ex = append(ex, e)
		}
		visit := func(b *cblock) {
			if b.term == tReturn {
				add(-1)
				return
			}
			for _, s := range b.succs {
				if s == head.id || !in[s] {
					add(s)
				}
			}
		}
		visit(head)
		for _, id := range order {
			visit(f.blocks[id])
		}
		return ex
	}
	okMerge := func(ex []int) bool {
		for _, e := range ex {
			if e == -1 {
				var rets []*cblock
				for _, id := range order {
					if f.blocks[id].term == tReturn {
						rets = append(rets, f.blocks[id])
					}
				}
				for i, ti := range rets[0].retTI {
					if mergeable(ti) {
						continue
					}
					for _, r := range rets[1:] {
						if !sameOperand(r.rets[i], rets[0].rets[i]) {
							return false
						}
					}
				}
				continue
			}
			x := f.blocks[e]
			for _, p := range x.phis {
				var first *operand
				same := true
				cnt := 0
				for i := range p.edges {
					if !in[x.preds[i]] {
						continue
					}
					cnt++
					if first == nil {
						first = &p.edges[i]
					} else if !sameOperand(*first, p.edges[i]) {
						same = false
					}
				}
				if cnt > 1 && !same && !mergeable(p.ti) {
					return false
				}
			}
		}
		return true
	}
	for len(order) < maxRegion {
		ex := exitsOf()
		grown := false
		for _, e := range ex {
			if e < 0 || e == head.id || in[e] {
				continue
			}
			x := f.blocks[e]
			if x.term != tIf && x.term != tJump && x.term != tReturn {
				continue
			}
			all := true
			for _, p := range x.preds {
				all = all && in[p]
			}
			if !all || !pureBlock(x.src) {
				continue
			}
			in[e] = true
			order = append(order, e)
			nx := exitsOf()
			bad := len(nx) > 2
			for _, y := range nx {
				bad = bad || y == head.id
			}
			if bad || !okMerge(nx) {
				delete(in, e)
				order = order[:len(order)-1]
				continue
			}
			if x.term == tIf {
				absorbedIf = true
			}
			if len(nx) == 1 || absorbedIf {
				best = &region{order: append([]int(nil), order...), exits: nx}
			}
			grown = true
			break
		}
		if !grown || best != nil && len(best.exits) == 1 {
			break
		}
	}
	return best
}

func sameOperand(a, b operand) bool {
	if a.reg >= 0 || b.reg >= 0 {
		return a.reg == b.reg
	}
	if a.glob >= 0 || b.glob >= 0 {
		return a.glob == b.glob
	}
	return a.v.t == nil && b.v.t == nil && a.v.c == b.v.c && sameO(a.v.o, b.v.o)
}

func sameO(a, b any) bool {
	if a == nil && b == nil {
		return true
	}
	switch x := a.(type) {
	case *Str:
		y, ok := b.(*Str)
		return ok && (x == y || x.sym == nil && y.sym == nil && x.s == y.s)
	case []Val:
		y, ok := b.([]Val)
		return ok && len(x) == len(y) && (len(x) == 0 || &x[0] == &y[0])
	case *LazyStr:
		y, ok := b.(*LazyStr)
		return ok && x == y
	case *MapObj:
		y, ok := b.(*MapObj)
		return ok && x == y
	case *SymPtr:
		y, ok := b.(*SymPtr)
		return ok && x == y
	case *Obj:
		y, ok := b.(*Obj)
		return ok && x == y
	case *Slice:
		y, ok := b.(*Slice)
		return ok && x != nil && y != nil && *x == *y
	case *Iface:
		y, ok := b.(*Iface)
		return ok && x == y
	case *Closure:
		y, ok := b.(*Closure)
		return ok && x == y
	}
	return false
}

type regEdge struct {
	from *cblock
	edge int // index in target's pred list
	cond *Term
}

// tryRegion runs the region after head under its conditions. ok=false means
// the caller must fork in the ordinary way.
func (m *Machine) tryRegion(fr *frame, head *cblock, cond *Term) (nb *cblock, ret Val, done, ok bool) {
	if v, known := m.lookupKnown(cond); known {
		i := 1 - int(b2u(v))
		nb = fr.fn.blocks[head.succs[i]]
		m.enterPhis(fr, nb, head.edge[i])
		return nb, Val{}, false, true
	}
	if m.regFails[head] >= 3 {
		return nil, Val{}, false, false
	}
	exits, retVals, good := m.specRegion(fr, head, cond)
	if !good {
		m.regFails[head]++
		return nil, Val{}, false, false
	}
	r := head.region
	// choose the exit
	pick := 0
	if len(r.exits) == 2 {
		c0 := m.ts.False
		for _, e := range exits[r.exits[0]] {
			c0 = m.ts.Or(c0, e.cond)
		}
		if r.exits[0] == -1 {
			c0 = retVals.cond
		}
		if !m.decide(c0) {
			pick = 1
		}
	}
	x := r.exits[pick]
	if x == -1 {
		return nil, retVals.val, true, true
	}
	nb = fr.fn.blocks[x]
	var vals [8]Val
	tmp := vals[:0]
	for i := range nb.phis {
		v, good := m.mergePhi(fr, &nb.phis[i], exits[x])
		if !good {
			// Static checks make this unreachable; be loud rather than wrong.
			panic(unsupported("unmergeable phi after region in " + fr.fn.name))
		}
		tmp = append(tmp, v)
	}
	for i := range nb.phis {
		fr.regs[nb.phis[i].reg] = tmp[i]
	}
	return nb, Val{}, false, true
}

func (m *Machine) mergePhi(fr *frame, p *cphi, es []regEdge) (Val, bool) {
	var acc Val
	for i, e := range es {
		v := p.edges[e.edge].get(m, fr)
		if i == 0 {
			acc = v
			continue
		}
		var ok bool
		acc, ok = m.mergeVal(e.cond, v, acc, p.ti)
		if !ok {
			return Val{}, false
		}
	}
	return acc, true
}

// mergeVal gives ite(c, a, b).
func (m *Machine) mergeVal(c *Term, a, b Val, ti *tinfo) (Val, bool) {
	if mergeable(ti) {
		if a.t == b.t && a.c == b.c {
			return a, true
		}
		return fromTerm(m.ts.Ite(c, m.term(a, ti.w), m.term(b, ti.w))), true
	}
	if a.t == b.t && a.c == b.c && sameO(a.o, b.o) {
		return a, true
	}
	return Val{}, false
}

type retMerge struct {
	cond *Term
	val  Val
}

func (m *Machine) specRegion(fr *frame, head *cblock, cond *Term) (ex map[int][]regEdge, rv retMerge, good bool) {
	depth, cur := m.depth, m.curFn
	if m.spec == 0 {
		m.specSteps = m.steps + 3000
	}
	m.spec++
	defer func() {
		m.spec--
		if r := recover(); r != nil {
			if _, ok := r.(bailout); !ok {
				panic(r)
			}
			m.depth, m.curFn = depth, cur
			good = false
		}
	}()
	ts := m.ts
	r := head.region
	ex = map[int][]regEdge{}
	rv.cond = ts.False
	inc := map[int][]regEdge{}
	isIn := func(id int) bool {
		for _, x := range r.order {
			if x == id {
				return true
			}
		}
		return false
	}
	push := func(b *cblock, si int, c *Term) {
		if c == ts.False {
			return
		}
		to := b.succs[si]
		e := regEdge{b, b.edge[si], c}
		if to != head.id && isIn(to) {
			inc[to] = append(inc[to], e)
		} else {
			ex[to] = append(ex[to], e)
		}
	}
	push(head, 0, cond)
	push(head, 1, ts.Not(cond))
	nret := 0
	for _, id := range r.order {
		es := inc[id]
		if len(es) == 0 {
			continue
		}
		b := fr.fn.blocks[id]
		pc := ts.False
		for _, e := range es {
			pc = ts.Or(pc, e.cond)
		}
		var vals [8]Val
		tmp := vals[:0]
		for i := range b.phis {
			v, ok := m.mergePhi(fr, &b.phis[i], es)
			if !ok {
				return nil, rv, false
			}
			tmp = append(tmp, v)
		}
		for i := range b.phis {
			fr.regs[b.phis[i].reg] = tmp[i]
		}
		m.steps += int64(len(b.instrs)) + 1
		if b.fn.isRepo {
			m.hit(b)
		}
		for _, in := range b.instrs {
			in(m, fr)
		}
		switch b.term {
		case tJump:
			push(b, 0, pc)
		case tIf:
			cv := b.cond.get(m, fr)
			if cv.t == nil {
				push(b, 1-int(cv.c&1), pc)
			} else {
				push(b, 0, ts.And(pc, cv.t))
				push(b, 1, ts.And(pc, ts.Not(cv.t)))
			}
		case tReturn:
			var vs []Val
			for i := range b.rets {
				vs = append(vs, b.rets[i].get(m, fr))
			}
			if nret > 0 {
				var prev []Val
				switch len(b.rets) {
				case 0:
				case 1:
					prev = []Val{rv.val}
				default:
					prev = rv.val.o.([]Val)
				}
				for i := range vs {
					v, ok := m.mergeVal(pc, vs[i], prev[i], b.retTI[i])
					if !ok {
						return nil, rv, false
					}
					vs[i] = v
				}
			}
			nret++
			rv.cond = ts.Or(rv.cond, pc)
			switch len(vs) {
			case 0:
			case 1:
				rv.val = vs[0]
			default:
				rv.val = Val{o: vs}
			}
		}
	}
	return ex, rv, true
}
