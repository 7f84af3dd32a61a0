package main

// Path conditions: constraint-independence groups, exact byte domains,
// feasibility and assertion queries.

import (
	"sort"
	"sync"
	"time"
)

type pcGroup struct {
	vars  []int32
	cs    []*Term
	multi bool // has a constraint that is not a single-byte-variable one
}

type pathCond struct {
	n     int
	group map[int32]*pcGroup
	dom   map[int32]*[4]uint64
	allCs []*Term
}

func (pc *pathCond) reset() {
	pc.n = 0
	pc.group = map[int32]*pcGroup{}
	pc.dom = map[int32]*[4]uint64{}
	pc.allCs = pc.allCs[:0]
}

func (pc *pathCond) groupOf(v int32) *pcGroup {
	g := pc.group[v]
	if g == nil {
		g = &pcGroup{vars: []int32{v}}
		pc.group[v] = g
	}
	return g
}

func (pc *pathCond) add(m *Machine, t *Term) {
	if len(t.vars) == 0 {
		return
	}
	pc.n++
	pc.allCs = append(pc.allCs, t)
	g := pc.groupOf(t.vars[0])
	for _, v := range t.vars[1:] {
		h := pc.groupOf(v)
		if h == g {
			continue
		}
		if len(h.vars) > len(g.vars) {
			g, h = h, g
		}
		g.vars = append(g.vars, h.vars...)
		g.cs = append(g.cs, h.cs...)
		g.multi = g.multi || h.multi
		for _, v := range h.vars {
			pc.group[v] = g
		}
	}
	g.cs = append(g.cs, t)
	if len(t.vars) == 1 && m.ts.vars[t.vars[0]].w <= 8 {
		s := m.truthSet(t)
		d := pc.dom[t.vars[0]]
		if d == nil {
			c := *s
			pc.dom[t.vars[0]] = &c
		} else {
			for i := range d {
				d[i] &= s[i]
			}
		}
	} else {
		g.multi = true
	}
}

// truthSet lists the values of a term's single small variable that satisfy it.
func (m *Machine) truthSet(t *Term) *[4]uint64 {
	if s, ok := m.truth[t]; ok {
		return s
	}
	s := new([4]uint64)
	v := t.vars[0]
	n := int(mask(m.ts.vars[v].w)) + 1
	var mod Model
	for i := 0; i < n; i++ {
		mod.memo = nil
		mod.set(v, uint64(i))
		if m.ts.Eval(t, &mod) == 1 {
			s[i>>6] |= 1 << (i & 63)
		}
	}
	m.truth[t] = s
	return s
}

func pickBit(s *[4]uint64, prefer uint64) (uint64, bool) {
	if prefer < 256 && s[prefer>>6]>>(prefer&63)&1 == 1 {
		return prefer, true
	}
	// printable characters make more readable counterexamples
	for _, r := range [][2]uint64{{'a', 'z'}, {'0', '9'}, {' ', '~'}, {0, 255}} {
		for i := r[0]; i <= r[1]; i++ {
			if s[i>>6]>>(i&63)&1 == 1 {
				return i, true
			}
		}
	}
	return 0, false
}

type qkey [2]uint64

// queryCache remembers unsatisfiable branch queries across workers.
type queryCache struct {
	mu sync.Mutex
	m  map[qkey]bool
}

func (c *queryCache) get(k qkey) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.m[k]
}

func (c *queryCache) put(k qkey) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.m == nil || len(c.m) > 2_000_000 {
		c.m = map[qkey]bool{}
	}
	c.m[k] = true
}

// feasible asks whether the path condition and t can hold together.
func (m *Machine) feasible(t *Term, assert bool) (Result, *Model) {
	st := &m.run.st
	pc := &m.pc
	if !assert && len(t.vars) == 1 && m.ts.vars[t.vars[0]].w <= 8 {
		v := t.vars[0]
		s := *m.truthSet(t)
		if d := pc.dom[v]; d != nil {
			for i := range s {
				s[i] &= d[i]
			}
		}
		x, ok := pickBit(&s, 256)
		if !ok {
			m.confirm(st.DomainDecided.Add(1), t)
			return Unsat, nil
		}
		if g := pc.group[v]; g == nil || !g.multi {
			st.DomainDecided.Add(1)
			mod := m.model.clone()
			mod.set(v, x)
			return Sat, mod
		}
	}
	// slice
	seen := map[*pcGroup]bool{}
	var cs []*Term
	vs := append([]int32(nil), t.vars...)
	for _, v := range t.vars {
		if g := pc.group[v]; g != nil && !seen[g] {
			seen[g] = true
			cs = append(cs, g.cs...)
			vs = append(vs, g.vars...)
		}
	}
	vs = dedupe(vs)
	sort.Slice(cs, func(i, j int) bool { return cs[i].hash < cs[j].hash })
	cs = append(cs, t)
	var k qkey
	for _, c := range cs {
		k[0] = mix(k[0], c.hash)
		k[1] = mix(k[1]+0x1234567, c.hash*0x9e3779b97f4a7c15)
	}
	if !assert {
		if m.run.cache.get(k) {
			st.CacheHits.Add(1)
			return Unsat, nil
		}
	} else {
		st.AssertQueries.Add(1)
	}
	m.checkTime()
	// a hard query gets at most what is left of the harness's time
	hard := time.Until(m.run.deadline)
	if hard > 60*time.Second {
		hard = 60 * time.Second
	}
	if hard < 3*time.Second {
		hard = 3 * time.Second
	}
	r, vals := m.sol.Check(cs, vs, hard)
	switch r {
	case Unsat:
		m.run.cache.put(k)
		if assert {
			st.AssertUnsat.Add(1)
			m.run.maybeCross(m, cs)
		}
		return Unsat, nil
	case Sat:
		mod := m.model.clone()
		for i, v := range vs {
			mod.set(v, vals[i])
		}
		// The answer is checked against the terms themselves.
		for _, c := range cs {
			if m.ts.Eval(c, mod) != 1 {
				m.note("solver model rejected")
				st.Errors.Add(1)
				return Unknown, nil
			}
		}
		return Sat, mod
	}
	return Unknown, nil
}

// domainExcludes reports whether t, of a single small variable, is false for
// all values that the path condition leaves to this variable.
func (m *Machine) domainExcludes(t *Term) bool {
	if t.isConst() {
		return t.k == 0
	}
	if len(t.vars) != 1 || m.ts.vars[t.vars[0]].w > 8 {
		return false
	}
	s, d := m.truthSet(t), m.pc.dom[t.vars[0]]
	for i := range s {
		x := s[i]
		if d != nil {
			x &= d[i]
		}
		if x != 0 {
			return false
		}
	}
	return true
}

// confirm has the solver decide a sample of the branches found infeasible by
// the byte domains: the first ones and every 101st.
func (m *Machine) confirm(n int64, t *Term) {
	st := &m.run.st
	lim := int64(1000)
	if m.run.thorough {
		lim = 10000
	}
	if n > 100 && n%101 != 0 || st.Confirmed.Load() >= lim {
		return
	}
	var cs []*Term
	if g := m.pc.group[t.vars[0]]; g != nil {
		cs = append(cs, g.cs...)
	}
	cs = append(cs, t)
	switch r, _ := m.sol.Check(cs, nil, 3*time.Second); r {
	case Unsat:
		st.Confirmed.Add(1)
	case Sat:
		m.note("byte domain verdict rejected by the solver")
		st.Errors.Add(1)
	}
}

func dedupe(v []int32) []int32 {
	sortInt32(v)
	out := v[:0]
	for i, x := range v {
		if i == 0 || x != v[i-1] {
			out = append(out, x)
		}
	}
	return out
}
