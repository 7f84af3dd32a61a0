package main

// Terms: hash-consed bit-vector and boolean expressions with a simplifier.
// Width 0 denotes Bool. Every term carries a sound unsigned interval [lo,hi].

import (
	"fmt"
	"math/bits"
	"sort"
	"sync"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OExtract // k = low bit
	OZExt
	OSExt
	OUlt
	OSlt
	OTable // k = table id, a = index
)

type Term struct {
	op      Op
	w       uint8
	id      uint32
	a, b, c *Term
	k       uint64
	lo, hi  uint64
	hash    uint64
	vars    []int32
	name    string // OVar
	defined int    // solver generation in which a define-fun was emitted
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64
}

type table struct {
	id   int
	w    uint8
	vals []uint64
	key  string
}

type Terms struct {
	tab     map[termKey]*Term
	vars    map[int32]*Term
	varIdx  map[string]*Term
	tables  []*table
	tabIdx  map[string]*table
	nextID  uint32
	True    *Term
	False   *Term
	nSimple int64
}

// Variable indices are shared by all workers so that models can be exchanged.
var (
	gvMu    sync.Mutex
	gvIdx   = map[string]int32{}
	gvNames []string
)

func globalVarIndex(name string) int32 {
	gvMu.Lock()
	defer gvMu.Unlock()
	if i, ok := gvIdx[name]; ok {
		return i
	}
	i := int32(len(gvNames))
	gvIdx[name] = i
	gvNames = append(gvNames, name)
	return i
}

func globalVarName(i int32) string {
	gvMu.Lock()
	defer gvMu.Unlock()
	return gvNames[i]
}

func newTerms() *Terms {
	ts := &Terms{tab: map[termKey]*Term{}, varIdx: map[string]*Term{}, tabIdx: map[string]*table{}}
	ts.False = ts.Const(0, 0)
	ts.True = ts.Const(0, 1)
	return ts
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	return h
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (ts *Terms) intern(op Op, w uint8, a, b, c *Term, k uint64) *Term {
	key := termKey{op, w, a, b, c, k}
	if t, ok := ts.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, k: k}
	ts.nextID++
	t.id = ts.nextID
	h := mix(uint64(op)<<8|uint64(w), k)
	if op == OTable {
		h = mix(uint64(op)<<8|uint64(w), strHash(ts.tables[k].key))
	}
	for _, x := range [3]*Term{a, b, c} {
		if x != nil {
			h = mix(h, x.hash)
		}
	}
	t.hash = h
	switch {
	case a == nil:
	case b == nil:
		t.vars = a.vars
	case c == nil:
		t.vars = unionVars(a.vars, b.vars)
	default:
		t.vars = unionVars(unionVars(a.vars, b.vars), c.vars)
	}
	ts.interval(t)
	ts.tab[key] = t
	return t
}

func unionVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if &a[0] == &b[0] && len(a) == len(b) {
		return a
	}
	// subset checks to share
	i, j := 0, 0
	out := make([]int32, 0, len(a)+len(b))
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		case a[i] > b[j]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}

func (ts *Terms) Const(w uint8, v uint64) *Term {
	return ts.intern(OConst, w, nil, nil, nil, v&mask(w))
}

func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.True
	}
	return ts.False
}

func (ts *Terms) Var(name string, w uint8) *Term {
	if t, ok := ts.varIdx[name]; ok {
		if t.w != w {
			panic("variable redeclared with another width: " + name)
		}
		return t
	}
	idx := globalVarIndex(name)
	t := &Term{op: OVar, w: w, name: name, k: uint64(idx)}
	ts.nextID++
	t.id = ts.nextID
	t.hash = mix(uint64(OVar)<<8|uint64(w), strHash(name))
	t.vars = []int32{idx}
	t.lo, t.hi = 0, mask(w)
	if ts.vars == nil {
		ts.vars = map[int32]*Term{}
	}
	ts.vars[idx] = t
	ts.varIdx[name] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

// fillOnes returns the smallest 2^n-1 >= v.
func fillOnes(v uint64) uint64 {
	if v == 0 {
		return 0
	}
	return ^uint64(0) >> uint(bits.LeadingZeros64(v))
}

func (ts *Terms) interval(t *Term) {
	m := mask(t.w)
	lo, hi := uint64(0), m
	switch t.op {
	case OConst:
		lo, hi = t.k, t.k
	case OIte:
		lo, hi = min(t.b.lo, t.c.lo), max(t.b.hi, t.c.hi)
	case OAdd:
		s, c := bits.Add64(t.a.hi, t.b.hi, 0)
		if c == 0 && s <= m {
			lo, hi = t.a.lo+t.b.lo, s
		} else if t.b.isConst() {
			// adding a negative constant without wrap
			neg := (-t.b.k) & m
			if t.a.lo >= neg {
				lo, hi = t.a.lo-neg, t.a.hi-neg
			}
		}
	case OSub:
		if t.a.lo >= t.b.hi {
			lo, hi = t.a.lo-t.b.hi, t.a.hi-t.b.lo
		}
	case OMul:
		h, l := bits.Mul64(t.a.hi, t.b.hi)
		if h == 0 && l <= m {
			lo, hi = t.a.lo*t.b.lo, l
		}
	case OUDiv:
		if t.b.lo > 0 {
			lo, hi = t.a.lo/t.b.hi, t.a.hi/t.b.lo
		}
	case OURem:
		hi = t.a.hi
		if t.b.lo > 0 && t.b.hi-1 < hi {
			hi = t.b.hi - 1
		}
	case OBAnd:
		hi = min(t.a.hi, t.b.hi)
	case OBOr:
		lo = max(t.a.lo, t.b.lo)
		hi = fillOnes(t.a.hi | t.b.hi)
	case OBXor:
		hi = fillOnes(t.a.hi | t.b.hi)
	case OShl:
		if t.b.isConst() && t.b.k < 64 {
			if t.a.hi<<t.b.k>>t.b.k == t.a.hi && t.a.hi<<t.b.k <= m {
				lo, hi = t.a.lo<<t.b.k, t.a.hi<<t.b.k
			}
		}
	case OLShr:
		if t.b.isConst() {
			if t.b.k >= 64 {
				lo, hi = 0, 0
			} else {
				lo, hi = t.a.lo>>t.b.k, t.a.hi>>t.b.k
			}
		} else {
			hi = t.a.hi
		}
	case OExtract:
		if h := t.a.hi >> t.k; h <= m {
			hi = h
			lo = t.a.lo >> t.k
		}
	case OZExt:
		lo, hi = t.a.lo, t.a.hi
	case OSExt:
		if t.a.hi < uint64(1)<<(t.a.w-1) {
			lo, hi = t.a.lo, t.a.hi
		}
	case OTable:
		tb := ts.tables[t.k]
		lo, hi = m, 0
		for i := t.a.lo; i <= t.a.hi && i < uint64(len(tb.vals)); i++ {
			lo = min(lo, tb.vals[i])
			hi = max(hi, tb.vals[i])
		}
		if t.a.hi >= uint64(len(tb.vals)) {
			lo = 0
		}
		if lo > hi {
			lo, hi = 0, m
		}
	}
	t.lo, t.hi = lo, hi
}

// ---- boolean constructors

func (ts *Terms) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return ts.Bool(a.k == 0)
	case ONot:
		return a.a
	}
	return ts.intern(ONot, 0, a, nil, nil, 0)
}

func order(a, b *Term) (*Term, *Term) {
	if a.hash > b.hash {
		return b, a
	}
	return a, b
}

func (ts *Terms) And(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return ts.False
	}
	a, b = order(a, b)
	return ts.intern(OAnd, 0, a, b, nil, 0)
}

func (ts *Terms) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return ts.True
	}
	a, b = order(a, b)
	return ts.intern(OOr, 0, a, b, nil, 0)
}

func (ts *Terms) Implies(a, b *Term) *Term { return ts.Or(ts.Not(a), b) }

func (ts *Terms) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return ts.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.isConst() {
			if a.k == 1 {
				return ts.Or(c, b)
			}
			return ts.And(ts.Not(c), b)
		}
		if b.isConst() {
			if b.k == 1 {
				return ts.Or(ts.Not(c), a)
			}
			return ts.And(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	return ts.intern(OIte, a.w, c, a, b, 0)
}

func (ts *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return ts.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return ts.False // distinct constants
	}
	if a.hi < b.lo || b.hi < a.lo {
		return ts.False
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.k == 1 {
				return a
			}
			return ts.Not(a)
		}
		if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
			return ts.False
		}
	}
	if a.op == OSub && b.op == OSub && a.a == b.a {
		return ts.Eq(a.b, b.b)
	}
	if b.isConst() {
		switch a.op {
		case OZExt:
			return ts.Eq(a.a, ts.Const(a.a.w, b.k)) // fits: interval check above
		case OSExt:
			n := ts.Const(a.a.w, b.k)
			if uint64(sext(n.k, a.a.w))&mask(a.w) != b.k {
				return ts.False
			}
			return ts.Eq(a.a, n)
		case OAdd:
			if a.b.isConst() {
				return ts.Eq(a.a, ts.Const(a.w, b.k-a.b.k))
			}
		case OSub:
			if a.a.isConst() {
				return ts.Eq(a.b, ts.Const(a.w, a.a.k-b.k))
			}
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				return ts.Ite(a.a, ts.Eq(a.b, b), ts.Eq(a.c, b))
			}
		case OBXor:
			if a.b.isConst() {
				return ts.Eq(a.a, ts.Const(a.w, b.k^a.b.k))
			}
		case OShl:
			if a.b.isConst() && a.b.k < uint64(a.w) {
				if b.k&(mask(uint8(a.b.k))) != 0 && a.b.k > 0 {
					return ts.False
				}
				nw := a.w - uint8(a.b.k)
				return ts.Eq(ts.Extract(a.a, 0, nw), ts.Const(nw, b.k>>a.b.k))
			}
		case OTable:
			tb := ts.tables[a.k]
			res := ts.False
			n := 0
			for i := a.a.lo; i <= a.a.hi && i < uint64(len(tb.vals)); i++ {
				if tb.vals[i] == b.k {
					n++
					if n > 3 {
						break
					}
					res = ts.Or(res, ts.Eq(a.a, ts.Const(a.a.w, i)))
				}
			}
			if n <= 3 && !(b.k == 0 && a.a.hi >= uint64(len(tb.vals))) {
				return res
			}
		}
	} else {
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return ts.Eq(a.a, b.a)
		}
		if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
			return ts.Eq(a.a, b.a)
		}
		if a.op == OAdd && b.op == OAdd && a.b == b.b {
			return ts.Eq(a.a, b.a)
		}
		if a.op == OTable && b.op == OTable && a.k == b.k && ts.injective(int(a.k), a.a.hi, b.a.hi) && a.a.w == b.a.w {
			return ts.Eq(a.a, b.a)
		}
	}
	if !b.isConst() {
		a, b = order(a, b)
	}
	return ts.intern(OEq, 0, a, b, nil, 0)
}

func (ts *Terms) injective(id int, h1, h2 uint64) bool {
	tb := ts.tables[id]
	h := max(h1, h2)
	if h >= uint64(len(tb.vals)) {
		return false
	}
	seen := map[uint64]bool{}
	for i := uint64(0); i <= h; i++ {
		if seen[tb.vals[i]] {
			return false
		}
		seen[tb.vals[i]] = true
	}
	return true
}

func (ts *Terms) Ult(a, b *Term) *Term {
	if a == b {
		return ts.False
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Ult width mismatch %d %d", a.w, b.w))
	}
	if a.hi < b.lo {
		return ts.True
	}
	if a.lo >= b.hi {
		return ts.False
	}
	if b.isConst() {
		if b.k == a.lo+1 {
			return ts.Eq(a, ts.Const(a.w, a.lo))
		}
		if b.k == a.hi {
			return ts.Not(ts.Eq(a, b))
		}
		switch a.op {
		case OZExt:
			return ts.Ult(a.a, ts.Const(a.a.w, b.k)) // b.k <= a.hi fits
		case OIte:
			if a.b.isConst() && a.c.isConst() {
				return ts.Ite(a.a, ts.Ult(a.b, b), ts.Ult(a.c, b))
			}
		case OAdd:
			if a.b.isConst() && a.lo == a.a.lo+a.b.k && a.hi == a.a.hi+a.b.k && b.k >= a.b.k {
				return ts.Ult(a.a, ts.Const(a.w, b.k-a.b.k))
			}
		}
	} else if a.isConst() {
		if a.k+1 == b.hi {
			return ts.Eq(b, ts.Const(b.w, b.hi))
		}
		if a.k == b.lo {
			return ts.Not(ts.Eq(b, a))
		}
		switch b.op {
		case OZExt:
			return ts.Ult(ts.Const(b.a.w, a.k), b.a)
		case OIte:
			if b.b.isConst() && b.c.isConst() {
				return ts.Ite(b.a, ts.Ult(a, b.b), ts.Ult(a, b.c))
			}
		case OAdd:
			if b.b.isConst() && b.lo == b.a.lo+b.b.k && b.hi == b.a.hi+b.b.k && a.k >= b.b.k {
				return ts.Ult(ts.Const(a.w, a.k-b.b.k), b.a)
			}
		}
	} else if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return ts.Ult(a.a, b.a)
	}
	return ts.intern(OUlt, 0, a, b, nil, 0)
}

func (ts *Terms) Ule(a, b *Term) *Term { return ts.Not(ts.Ult(b, a)) }

func (ts *Terms) Slt(a, b *Term) *Term {
	if a == b {
		return ts.False
	}
	sb := uint64(1) << (a.w - 1)
	if a.hi < sb && b.hi < sb || a.lo >= sb && b.lo >= sb {
		return ts.Ult(a, b)
	}
	if a.lo >= sb && b.hi < sb {
		return ts.True
	}
	if a.hi < sb && b.lo >= sb {
		return ts.False
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() || b.isConst() && a.op == OIte && (a.b.isConst() || a.c.isConst()) {
		return ts.Ite(a.a, ts.Slt(a.b, b), ts.Slt(a.c, b))
	}
	if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
		return ts.Slt(a.a, b.a)
	}
	if x := negOf(a); x != nil && x.hi < sb && b.isConst() && b.k != sb { // -x < k, -k < x
		return ts.Slt(ts.Const(a.w, -b.k), x)
	}
	if y := negOf(b); y != nil && y.hi < sb && a.isConst() && a.k != sb {
		return ts.Slt(y, ts.Const(a.w, -a.k))
	}
	return ts.intern(OSlt, 0, a, b, nil, 0)
}

func (ts *Terms) Sle(a, b *Term) *Term { return ts.Not(ts.Slt(b, a)) }

// ---- bit-vector constructors

// peel removes width changes that keep the value.
func peel(t *Term) *Term {
	for {
		switch {
		case t.op == OZExt:
			t = t.a
		case t.op == OExtract && t.k == 0 && t.a.hi <= mask(t.w):
			t = t.a
		default:
			return t
		}
	}
}

// mulConst recognizes q*c that does not wrap.
func mulConst(t *Term) (q *Term, c uint64, ok bool) {
	t = peel(t)
	switch {
	case t.op == OMul && t.b.isConst():
		c = t.b.k
	case t.op == OShl && t.b.isConst() && t.b.k < 63:
		c = 1 << t.b.k
	default:
		return nil, 0, false
	}
	if h, l := bits.Mul64(t.a.hi, c); h != 0 || l > mask(t.w) {
		return nil, 0, false
	}
	return peel(t.a), c, true
}

// divRem merges x/c*c + x%c to x.
func (ts *Terms) divRem(a, b *Term) *Term {
	r := peel(b)
	if r.op != OURem || !r.b.isConst() {
		return nil
	}
	q, c, ok := mulConst(a)
	if !ok || c != r.b.k || q.op != OUDiv {
		return nil
	}
	x := peel(r.a)
	if peel(ts.UDiv(x, ts.Const(x.w, c))) != q {
		return nil
	}
	if x.w > a.w {
		return ts.Extract(x, 0, a.w)
	}
	return ts.ZExt(x, a.w)
}

func (ts *Terms) Add(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if r := ts.divRem(a, b); r != nil {
		return r
	}
	if r := ts.divRem(b, a); r != nil {
		return r
	}
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if a.isConst() {
			return ts.Const(a.w, a.k+b.k)
		}
		if a.op == OAdd && a.b.isConst() {
			return ts.Add(a.a, ts.Const(a.w, a.b.k+b.k))
		}
		if a.op == OIte && a.b.isConst() && a.c.isConst() {
			return ts.Ite(a.a, ts.Add(a.b, b), ts.Add(a.c, b))
		}
		if a.op == OSub && a.a.isConst() {
			return ts.Sub(ts.Const(a.w, a.a.k+b.k), a.b)
		}
		return ts.intern(OAdd, a.w, a, b, nil, 0)
	}
	if a.op == OAdd && a.b.isConst() {
		return ts.Add(ts.Add(a.a, b), a.b)
	}
	if b.op == OAdd && b.b.isConst() {
		return ts.Add(ts.Add(a, b.a), b.b)
	}
	if a.op == OSub && a.b == b {
		return a.a
	}
	if b.op == OSub && b.b == a {
		return b.a
	}
	a, b = order(a, b)
	return ts.intern(OAdd, a.w, a, b, nil, 0)
}

func (ts *Terms) Sub(a, b *Term) *Term {
	if a == b {
		return ts.Const(a.w, 0)
	}
	if b.isConst() {
		return ts.Add(a, ts.Const(a.w, -b.k))
	}
	if b.op == OAdd && b.b.isConst() {
		return ts.Add(ts.Sub(a, b.a), ts.Const(a.w, -b.b.k))
	}
	if a.op == OAdd && a.b.isConst() {
		return ts.Add(ts.Sub(a.a, b), a.b)
	}
	if a.op == OAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
	}
	return ts.intern(OSub, a.w, a, b, nil, 0)
}

func (ts *Terms) Neg(a *Term) *Term {
	if x := negOf(a); x != nil {
		return x
	}
	return ts.Sub(ts.Const(a.w, 0), a)
}

// negOf is x when t is -x, or nil.
func negOf(t *Term) *Term {
	if t.op == OSub && t.a.isConst() && t.a.k == 0 {
		return t.b
	}
	return nil
}

func (ts *Terms) Mul(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return ts.Const(a.w, a.k*b.k)
		}
		switch b.k {
		case 0:
			return b
		case 1:
			return a
		case mask(a.w):
			return ts.Neg(a)
		}
		if x := negOf(a); x != nil {
			return ts.Neg(ts.Mul(x, b))
		}
		if bits.OnesCount64(b.k) == 1 {
			return ts.Shl(a, ts.Const(a.w, uint64(bits.TrailingZeros64(b.k))))
		}
	}
	h, l := bits.Mul64(a.hi, b.hi)
	if h == 0 {
		if nw := ts.narrowWidth(l|a.hi|b.hi, a.w); nw < a.w {
			return ts.ZExt(ts.Mul(ts.Extract(a, 0, nw), ts.Extract(b, 0, nw)), a.w)
		}
	}
	if !b.isConst() {
		a, b = order(a, b)
	}
	return ts.intern(OMul, a.w, a, b, nil, 0)
}

// narrowWidth picks a width (8,16,24,32,40,48) able to hold v, else w.
func (ts *Terms) narrowWidth(v uint64, w uint8) uint8 {
	n := uint8(bits.Len64(v))
	if n == 0 {
		n = 1
	}
	n = (n + 3) / 4 * 4
	if n+4 <= w {
		return n
	}
	return w
}

func (ts *Terms) UDiv(a, b *Term) *Term {
	if b.isConst() && b.k != 0 {
		if a.isConst() {
			return ts.Const(a.w, a.k/b.k)
		}
		if b.k == 1 {
			return a
		}
		if a.hi < b.k {
			return ts.Const(a.w, 0)
		}
		if bits.OnesCount64(b.k) == 1 {
			return ts.LShr(a, ts.Const(a.w, uint64(bits.TrailingZeros64(b.k))))
		}
		if in := peel(a); in.op == OUDiv && in.b.isConst() && in.b.k != 0 && in.w <= a.w {
			h, l := bits.Mul64(in.b.k, b.k)
			if h != 0 || l > mask(in.w) {
				return ts.Const(a.w, 0)
			}
			return ts.ZExt(ts.UDiv(in.a, ts.Const(in.w, l)), a.w)
		}
		if nw := ts.narrowWidth(a.hi|b.k, a.w); nw < a.w {
			return ts.ZExt(ts.UDiv(ts.Extract(a, 0, nw), ts.Const(nw, b.k)), a.w)
		}
	}
	return ts.intern(OUDiv, a.w, a, b, nil, 0)
}

func (ts *Terms) URem(a, b *Term) *Term {
	if b.isConst() && b.k != 0 {
		if a.isConst() {
			return ts.Const(a.w, a.k%b.k)
		}
		if a.hi < b.k {
			return a
		}
		if bits.OnesCount64(b.k) == 1 {
			return ts.BAnd(a, ts.Const(a.w, b.k-1))
		}
		if nw := ts.narrowWidth(a.hi|b.k, a.w); nw < a.w {
			return ts.ZExt(ts.URem(ts.Extract(a, 0, nw), ts.Const(nw, b.k)), a.w)
		}
	}
	return ts.intern(OURem, a.w, a, b, nil, 0)
}

func (ts *Terms) SDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		x, y := sext(a.k, a.w), sext(b.k, b.w)
		if y == -1 {
			return ts.Const(a.w, uint64(-x))
		}
		return ts.Const(a.w, uint64(x/y))
	}
	sb := uint64(1) << (a.w - 1)
	if a.hi < sb && b.hi < sb {
		return ts.UDiv(a, b)
	}
	if x := negOf(a); x != nil && x.hi < sb && b.isConst() && b.k != 0 && b.hi < sb {
		return ts.Neg(ts.UDiv(x, b))
	}
	return ts.intern(OSDiv, a.w, a, b, nil, 0)
}

func (ts *Terms) SRem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		x, y := sext(a.k, a.w), sext(b.k, b.w)
		if y == -1 {
			return ts.Const(a.w, 0)
		}
		return ts.Const(a.w, uint64(x%y))
	}
	sb := uint64(1) << (a.w - 1)
	if a.hi < sb && b.hi < sb {
		return ts.URem(a, b)
	}
	if x := negOf(a); x != nil && x.hi < sb && b.isConst() && b.k != 0 && b.hi < sb {
		return ts.Neg(ts.URem(x, b))
	}
	return ts.intern(OSRem, a.w, a, b, nil, 0)
}

func (ts *Terms) BAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return ts.Const(a.w, a.k&b.k)
		}
		if b.k == 0 {
			return b
		}
		if fo := fillOnes(a.hi); fo&b.k == fo {
			return a
		}
		if a.op == OBAnd && a.b.isConst() {
			return ts.BAnd(a.a, ts.Const(a.w, a.b.k&b.k))
		}
		if a.op == OIte && a.b.isConst() && a.c.isConst() {
			return ts.Ite(a.a, ts.BAnd(a.b, b), ts.BAnd(a.c, b))
		}
		if a.op == OZExt {
			return ts.ZExt(ts.BAnd(a.a, ts.Const(a.a.w, b.k)), a.w)
		}
		if b.k&(b.k+1) == 0 { // low mask
			n := uint8(bits.Len64(b.k))
			return ts.ZExt(ts.Extract(a, 0, n), a.w)
		}
		return ts.intern(OBAnd, a.w, a, b, nil, 0)
	}
	a, b = order(a, b)
	return ts.intern(OBAnd, a.w, a, b, nil, 0)
}

func (ts *Terms) BOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return ts.Const(a.w, a.k|b.k)
		}
		if b.k == 0 {
			return a
		}
		if b.k == mask(a.w) {
			return b
		}
		return ts.intern(OBOr, a.w, a, b, nil, 0)
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return ts.ZExt(ts.BOr(a.a, b.a), a.w)
	}
	if r := ts.joinInto(a, b, 4); r != nil {
		return r
	}
	if r := ts.joinInto(b, a, 4); r != nil {
		return r
	}
	a, b = order(a, b)
	return ts.intern(OBOr, a.w, a, b, nil, 0)
}

// field is a run of n bits of src starting at lo, placed at bit pos.
type field struct {
	src        *Term
	lo, n, pos uint8
}

func fieldOf(t *Term) (f field, ok bool) {
	w := t.w
	if t.op == OShl && t.b.isConst() {
		f.pos = uint8(t.b.k)
		t = t.a
	}
	if t.op == OZExt {
		t = t.a
	}
	f.src, f.n = t, t.w
	if t.op == OExtract {
		f.src, f.lo = t.a, uint8(t.k)
	}
	return f, uint(f.pos)+uint(f.n) <= uint(w)
}

// joinInto merges the field b with an adjacent field of the same source among
// the operands of the or-tree a (bytes split from a word and put together
// again). It returns nil if there is none.
func (ts *Terms) joinInto(a, b *Term, depth int) *Term {
	if a.op == OBOr && depth > 0 {
		if r := ts.joinInto(a.a, b, depth-1); r != nil {
			return ts.BOr(r, a.b)
		}
		if r := ts.joinInto(a.b, b, depth-1); r != nil {
			return ts.BOr(a.a, r)
		}
		return nil
	}
	x, ok := fieldOf(a)
	if !ok {
		return nil
	}
	y, ok := fieldOf(b)
	if !ok {
		return nil
	}
	if x.pos > y.pos {
		x, y = y, x
	}
	if x.pos+x.n != y.pos || y.lo < x.n {
		return nil
	}
	if x.src != y.src {
		// truncation distributes over sums: the low part may not mention src
		if ts.Extract(y.src, y.lo-x.n, x.n) != ts.Extract(x.src, x.lo, x.n) {
			return nil
		}
		x.src, x.lo = y.src, y.lo-x.n
	}
	if x.lo+x.n != y.lo {
		return nil
	}
	var e *Term
	if n := x.n + y.n; x.lo == 0 && x.src.hi <= mask(n) && x.src.w <= a.w {
		e = ts.ZExt(x.src, a.w)
	} else {
		e = ts.ZExt(ts.Extract(x.src, x.lo, n), a.w)
	}
	return ts.Shl(e, ts.Const(a.w, uint64(x.pos)))
}

func (ts *Terms) BXor(a, b *Term) *Term {
	if a == b {
		return ts.Const(a.w, 0)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return ts.Const(a.w, a.k^b.k)
		}
		if b.k == 0 {
			return a
		}
		if a.op == OBXor && a.b.isConst() {
			return ts.BXor(a.a, ts.Const(a.w, a.b.k^b.k))
		}
		return ts.intern(OBXor, a.w, a, b, nil, 0)
	}
	a, b = order(a, b)
	return ts.intern(OBXor, a.w, a, b, nil, 0)
}

func (ts *Terms) BNot(a *Term) *Term { return ts.BXor(a, ts.Const(a.w, mask(a.w))) }

func (ts *Terms) Shl(a, b *Term) *Term {
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k >= uint64(a.w) {
			return ts.Const(a.w, 0)
		}
		if a.isConst() {
			return ts.Const(a.w, a.k<<b.k)
		}
		if a.op == OShl && a.b.isConst() {
			return ts.Shl(a.a, ts.Const(a.w, a.b.k+b.k))
		}
	}
	if a.isConst() && a.k == 0 {
		return a
	}
	return ts.intern(OShl, a.w, a, b, nil, 0)
}

func (ts *Terms) LShr(a, b *Term) *Term {
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k >= uint64(a.w) {
			return ts.Const(a.w, 0)
		}
		if a.isConst() {
			return ts.Const(a.w, a.k>>b.k)
		}
		return ts.ZExt(ts.Extract(a, uint8(b.k), a.w-uint8(b.k)), a.w)
	}
	if a.isConst() && a.k == 0 {
		return a
	}
	return ts.intern(OLShr, a.w, a, b, nil, 0)
}

func (ts *Terms) AShr(a, b *Term) *Term {
	if a.hi < uint64(1)<<(a.w-1) {
		return ts.LShr(a, b)
	}
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if a.isConst() {
			s := b.k
			if s > 63 {
				s = 63
			}
			return ts.Const(a.w, uint64(sext(a.k, a.w)>>s))
		}
	}
	return ts.intern(OAShr, a.w, a, b, nil, 0)
}

// Extract returns w bits of a starting at bit lo.
func (ts *Terms) Extract(a *Term, lo uint8, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if w == 0 || uint(lo)+uint(w) > uint(a.w) {
		panic("bad extract")
	}
	if a.isConst() {
		return ts.Const(w, a.k>>lo)
	}
	if a.hi>>lo == 0 {
		return ts.Const(w, 0)
	}
	switch a.op {
	case OExtract:
		return ts.Extract(a.a, uint8(a.k)+lo, w)
	case OZExt:
		iw := a.a.w
		if lo >= iw {
			return ts.Const(w, 0)
		}
		if lo+w <= iw {
			return ts.Extract(a.a, lo, w)
		}
		return ts.ZExt(ts.Extract(a.a, lo, iw-lo), w)
	case OSExt:
		if lo+w <= a.a.w {
			return ts.Extract(a.a, lo, w)
		}
	case OShl:
		if a.b.isConst() {
			k := uint8(a.b.k)
			if lo >= k {
				return ts.Extract(a.a, lo-k, w)
			}
			if lo+w <= k {
				return ts.Const(w, 0)
			}
			if lo == 0 { // low part of a shift
				return ts.Shl(ts.Extract(a.a, 0, w), ts.Const(w, uint64(k)))
			}
		}
	case OBAnd:
		return ts.BAnd(ts.Extract(a.a, lo, w), ts.Extract(a.b, lo, w))
	case OBOr:
		return ts.BOr(ts.Extract(a.a, lo, w), ts.Extract(a.b, lo, w))
	case OBXor:
		return ts.BXor(ts.Extract(a.a, lo, w), ts.Extract(a.b, lo, w))
	case OAdd:
		if lo == 0 {
			return ts.Add(ts.Extract(a.a, 0, w), ts.Extract(a.b, 0, w))
		}
	case OSub:
		if lo == 0 {
			return ts.Sub(ts.Extract(a.a, 0, w), ts.Extract(a.b, 0, w))
		}
	case OMul:
		if lo == 0 {
			return ts.Mul(ts.Extract(a.a, 0, w), ts.Extract(a.b, 0, w))
		}
	case OIte:
		if a.b.isConst() || a.c.isConst() || lo == 0 {
			return ts.Ite(a.a, ts.Extract(a.b, lo, w), ts.Extract(a.c, lo, w))
		}
	case OTable:
		if lo == 0 {
			tb := ts.tables[a.k]
			vals := make([]uint64, len(tb.vals))
			for i, v := range tb.vals {
				vals[i] = v & mask(w)
			}
			return ts.Table(vals, w, a.a)
		}
	}
	return ts.intern(OExtract, w, a, nil, nil, uint64(lo))
}

func (ts *Terms) ZExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		panic("bad zext")
	}
	switch a.op {
	case OConst:
		return ts.Const(w, a.k)
	case OExtract:
		// the low bits of a value that has no others
		if src := a.a; a.k == 0 && src.hi <= mask(a.w) {
			if src.w <= w {
				return ts.ZExt(src, w)
			}
			return ts.Extract(src, 0, w)
		}
	case OZExt:
		return ts.ZExt(a.a, w)
	case OIte:
		if a.b.isConst() && a.c.isConst() {
			return ts.Ite(a.a, ts.ZExt(a.b, w), ts.ZExt(a.c, w))
		}
	case OTable:
		return ts.Table(ts.tables[a.k].vals, w, a.a)
	}
	return ts.intern(OZExt, w, a, nil, nil, 0)
}

func (ts *Terms) SExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.hi < uint64(1)<<(a.w-1) {
		return ts.ZExt(a, w)
	}
	switch a.op {
	case OConst:
		return ts.Const(w, uint64(sext(a.k, a.w)))
	case OSExt:
		return ts.SExt(a.a, w)
	case OIte:
		if a.b.isConst() && a.c.isConst() {
			return ts.Ite(a.a, ts.SExt(a.b, w), ts.SExt(a.c, w))
		}
	case OTable:
		vals := append([]uint64(nil), ts.tables[a.k].vals...)
		for i, v := range vals {
			vals[i] = uint64(sext(v, a.w)) & mask(w)
		}
		return ts.Table(vals, w, a.a)
	}
	return ts.intern(OSExt, w, a, nil, nil, 0)
}

// nonNegative is the zero extension of a value known not to be negative.
func (ts *Terms) nonNegative(a *Term, w uint8) *Term {
	if a.op == OTable {
		// entries that cannot occur are 0
		vals := append([]uint64(nil), ts.tables[a.k].vals...)
		for i, v := range vals {
			if sext(v, a.w) < 0 {
				vals[i] = 0
			}
		}
		return ts.Table(vals, w, a.a)
	}
	return ts.ZExt(a, w)
}

// FromBool gives a w-bit 0/1 value.
func (ts *Terms) FromBool(b *Term, w uint8) *Term {
	return ts.Ite(b, ts.Const(w, 1), ts.Const(w, 0))
}

// Table returns vals[idx] (0 outside of vals).
func (ts *Terms) Table(vals []uint64, w uint8, idx *Term) *Term {
	if idx.isConst() {
		if idx.k < uint64(len(vals)) {
			return ts.Const(w, vals[idx.k])
		}
		return ts.Const(w, 0)
	}
	if idx.op == OZExt {
		return ts.Table(vals, w, idx.a)
	}
	if n := idx.hi; n < uint64(len(vals)) {
		vals = vals[:n+1]
	}
	// constant over the feasible interval?
	if idx.hi < uint64(len(vals)) {
		same, ident := true, true
		for i := idx.lo; i <= idx.hi; i++ {
			same = same && vals[i] == vals[idx.lo]
			ident = ident && vals[i] == i
		}
		if same {
			return ts.Const(w, vals[idx.lo])
		}
		if ident {
			if idx.w <= w {
				return ts.ZExt(idx, w)
			}
			return ts.Extract(idx, 0, w)
		}
	}
	if idx.op == OTable && len(vals) > 0 {
		in := ts.tables[idx.k]
		out := make([]uint64, len(in.vals))
		for i, v := range in.vals {
			if v < uint64(len(vals)) {
				out[i] = vals[v]
			}
		}
		if vals[0] == 0 || idx.a.hi < uint64(len(in.vals)) {
			return ts.Table(out, w, idx.a)
		}
	}
	if idx.op == OIte && idx.b.isConst() && idx.c.isConst() {
		return ts.Ite(idx.a, ts.Table(vals, w, idx.b), ts.Table(vals, w, idx.c))
	}
	kb := make([]byte, 0, len(vals)*8+1)
	kb = append(kb, w)
	for _, v := range vals {
		for i := 0; i < 8; i++ {
			kb = append(kb, byte(v>>(8*i)))
		}
	}
	tb := ts.tabIdx[string(kb)]
	if tb == nil {
		tb = &table{id: len(ts.tables), w: w, vals: append([]uint64(nil), vals...), key: string(kb)}
		ts.tables = append(ts.tables, tb)
		ts.tabIdx[tb.key] = tb
	}
	return ts.intern(OTable, w, idx, nil, nil, uint64(tb.id))
}

// ---- evaluation

// Model maps variable index to value; unset variables are 0.
type Model struct {
	val  []uint64
	memo map[*Term]uint64
}

func newModel() *Model { return &Model{} }

func (m *Model) clone() *Model {
	return &Model{val: append([]uint64(nil), m.val...)}
}

func (m *Model) set(v int32, x uint64) {
	for int(v) >= len(m.val) {
		m.val = append(m.val, 0)
	}
	if m.val[v] != x {
		m.val[v] = x
		m.memo = nil
	}
}

func (m *Model) get(v int32) uint64 {
	if int(v) < len(m.val) {
		return m.val[v]
	}
	return 0
}

func (ts *Terms) Eval(t *Term, m *Model) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return m.get(int32(t.k))
	}
	if v, ok := m.memo[t]; ok {
		return v
	}
	v := ts.evalOp(t, func(x *Term) uint64 { return ts.Eval(x, m) })
	if m.memo == nil {
		m.memo = map[*Term]uint64{}
	}
	m.memo[t] = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (ts *Terms) evalOp(t *Term, ev func(*Term) uint64) uint64 {
	mk := mask(t.w)
	switch t.op {
	case ONot:
		return 1 - ev(t.a)
	case OAnd:
		if ev(t.a) == 0 {
			return 0
		}
		return ev(t.b)
	case OOr:
		if ev(t.a) == 1 {
			return 1
		}
		return ev(t.b)
	case OEq:
		return b2u(ev(t.a) == ev(t.b))
	case OIte:
		if ev(t.a) == 1 {
			return ev(t.b)
		}
		return ev(t.c)
	case OAdd:
		return (ev(t.a) + ev(t.b)) & mk
	case OSub:
		return (ev(t.a) - ev(t.b)) & mk
	case OMul:
		return (ev(t.a) * ev(t.b)) & mk
	case OUDiv:
		y := ev(t.b)
		if y == 0 {
			return mk
		}
		return ev(t.a) / y
	case OURem:
		y := ev(t.b)
		if y == 0 {
			return ev(t.a)
		}
		return ev(t.a) % y
	case OSDiv:
		x, y := sext(ev(t.a), t.w), sext(ev(t.b), t.w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return mk
		}
		if y == -1 {
			return uint64(-x) & mk
		}
		return uint64(x/y) & mk
	case OSRem:
		x, y := sext(ev(t.a), t.w), sext(ev(t.b), t.w)
		if y == 0 {
			return uint64(x) & mk
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & mk
	case OBAnd:
		return ev(t.a) & ev(t.b)
	case OBOr:
		return ev(t.a) | ev(t.b)
	case OBXor:
		return ev(t.a) ^ ev(t.b)
	case OShl:
		s := ev(t.b)
		if s >= uint64(t.w) {
			return 0
		}
		return (ev(t.a) << s) & mk
	case OLShr:
		s := ev(t.b)
		if s >= uint64(t.w) {
			return 0
		}
		return ev(t.a) >> s
	case OAShr:
		s := ev(t.b)
		if s > 63 {
			s = 63
		}
		return uint64(sext(ev(t.a), t.w)>>s) & mk
	case OExtract:
		return (ev(t.a) >> t.k) & mk
	case OZExt:
		return ev(t.a)
	case OSExt:
		return uint64(sext(ev(t.a), t.a.w)) & mk
	case OUlt:
		return b2u(ev(t.a) < ev(t.b))
	case OSlt:
		return b2u(sext(ev(t.a), t.a.w) < sext(ev(t.b), t.b.w))
	case OTable:
		i := ev(t.a)
		tb := ts.tables[t.k]
		if i < uint64(len(tb.vals)) {
			return tb.vals[i]
		}
		return 0
	}
	panic("eval: bad op")
}

func sortInt32(a []int32) { sort.Slice(a, func(i, j int) bool { return a[i] < a[j] }) }
