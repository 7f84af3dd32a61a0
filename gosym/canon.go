package main

// Canonical forms under the path condition: a subterm that depends on one byte
// is the table of its values, with 0 for bytes that the path condition rules
// out. Two computations of the same function of a byte become the same term,
// whatever they do with bytes that do not get there. Used for queries that the
// solver does not decide at once.

type canonizer struct {
	m    *Machine
	memo map[*Term]*Term
	n    int
}

// canon rewrites t into an equivalent under the path condition, or returns nil
// when it is too large.
func (m *Machine) canon(t *Term) *Term {
	c := &canonizer{m: m, memo: map[*Term]*Term{}}
	r := c.term(t)
	if c.n > 20000 {
		return nil
	}
	return r
}

func (c *canonizer) term(t *Term) *Term {
	if t == nil || len(t.vars) == 0 || t.op == OVar || c.n > 20000 {
		return t
	}
	if r, ok := c.memo[t]; ok {
		return r
	}
	c.n++
	r := c.rewrite(t)
	c.memo[t] = r
	return r
}

func (c *canonizer) rewrite(t *Term) *Term {
	ts := c.m.ts
	if w := ts.vars[t.vars[0]].w; len(t.vars) == 1 && w > 0 && w <= 8 {
		v := t.vars[0]
		d := c.m.pc.dom[v]
		n := int(mask(ts.vars[v].w)) + 1
		vals := make([]uint64, n)
		var mod Model
		all, none := true, true
		for i := range vals {
			if d != nil && d[i>>6]>>(i&63)&1 == 0 {
				continue
			}
			mod.memo = nil
			mod.set(v, uint64(i))
			vals[i] = ts.Eval(t, &mod)
			all = all && vals[i] == 1
			none = none && vals[i] == 0
		}
		if t.w == 0 {
			if all || none {
				return ts.Bool(all && !none)
			}
			return ts.Eq(ts.Table(vals, 8, ts.vars[v]), ts.Const(8, 1))
		}
		return ts.Table(vals, t.w, ts.vars[v])
	}
	a, b, x := c.term(t.a), c.term(t.b), c.term(t.c)
	if a == t.a && b == t.b && x == t.c {
		return t
	}
	switch t.op {
	case ONot:
		return ts.Not(a)
	case OAnd:
		return ts.And(a, b)
	case OOr:
		return ts.Or(a, b)
	case OEq:
		return ts.Eq(a, b)
	case OIte:
		return ts.Ite(a, b, x)
	case OAdd:
		return ts.Add(a, b)
	case OSub:
		return ts.Sub(a, b)
	case OMul:
		return ts.Mul(a, b)
	case OUDiv:
		return ts.UDiv(a, b)
	case OURem:
		return ts.URem(a, b)
	case OSDiv:
		return ts.SDiv(a, b)
	case OSRem:
		return ts.SRem(a, b)
	case OBAnd:
		return ts.BAnd(a, b)
	case OBOr:
		return ts.BOr(a, b)
	case OBXor:
		return ts.BXor(a, b)
	case OShl:
		return ts.Shl(a, b)
	case OLShr:
		return ts.LShr(a, b)
	case OAShr:
		return ts.AShr(a, b)
	case OExtract:
		return ts.Extract(a, uint8(t.k), t.w)
	case OZExt:
		return ts.ZExt(a, t.w)
	case OSExt:
		return ts.SExt(a, t.w)
	case OUlt:
		return ts.Ult(a, b)
	case OSlt:
		return ts.Slt(a, b)
	case OTable:
		return ts.Table(ts.tables[t.k].vals, t.w, a)
	}
	return t
}
