package main

// Self-test of the term simplifier: random terms are built once through the
// simplifying constructors and once as they are written, and the solver must
// find the two equal for all values (and the interval of the result sound).

import (
	"fmt"
	"math/rand"
)

type pair struct{ s, r *Term } // simplified, raw

type termGen struct {
	ts   *Terms
	rng  *rand.Rand
	tabs [][]uint64
}

var selfConsts = []uint64{0, 1, 2, 3, 7, 8, 9, 10, 16, 26, '0', 'A', 'a', 'z', 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 62, 1<<63 - 1, 1 << 63, ^uint64(0)}

func (g *termGen) konst(w uint8) pair {
	v := selfConsts[g.rng.Intn(len(selfConsts))]
	if g.rng.Intn(4) == 0 {
		v = -v
	}
	c := g.ts.Const(w, v&mask(w))
	return pair{c, c}
}

func (g *termGen) variable(w uint8) pair {
	v := g.ts.Var(fmt.Sprintf("x%d_%d", w, g.rng.Intn(2)), w)
	return pair{v, v}
}

var selfWidths = []uint8{8, 16, 32, 64}

func (g *termGen) gen(w uint8, d int) pair {
	ts := g.ts
	if d == 0 || g.rng.Intn(9) == 0 {
		if g.rng.Intn(3) == 0 {
			return g.konst(w)
		}
		return g.variable(w)
	}
	if w == 0 {
		switch g.rng.Intn(7) {
		case 0:
			a := g.gen(0, d-1)
			return pair{ts.Not(a.s), ts.intern(ONot, 0, a.r, nil, nil, 0)}
		case 1:
			a, b := g.gen(0, d-1), g.gen(0, d-1)
			return pair{ts.And(a.s, b.s), ts.intern(OAnd, 0, a.r, b.r, nil, 0)}
		case 2:
			a, b := g.gen(0, d-1), g.gen(0, d-1)
			return pair{ts.Or(a.s, b.s), ts.intern(OOr, 0, a.r, b.r, nil, 0)}
		case 3:
			x := selfWidths[g.rng.Intn(4)]
			a, b := g.gen(x, d-1), g.gen(x, d-1)
			return pair{ts.Ult(a.s, b.s), ts.intern(OUlt, 0, a.r, b.r, nil, 0)}
		case 4:
			x := selfWidths[g.rng.Intn(4)]
			a, b := g.gen(x, d-1), g.gen(x, d-1)
			return pair{ts.Slt(a.s, b.s), ts.intern(OSlt, 0, a.r, b.r, nil, 0)}
		default:
			x := selfWidths[g.rng.Intn(4)]
			a, b := g.gen(x, d-1), g.gen(x, d-1)
			return pair{ts.Eq(a.s, b.s), ts.intern(OEq, 0, a.r, b.r, nil, 0)}
		}
	}
	bin := func(f func(a, b *Term) *Term, op Op) pair {
		a, b := g.gen(w, d-1), g.gen(w, d-1)
		if g.rng.Intn(3) == 0 {
			b = g.konst(w)
		}
		return pair{f(a.s, b.s), ts.intern(op, w, a.r, b.r, nil, 0)}
	}
	switch g.rng.Intn(20) {
	case 0, 1:
		return bin(ts.Add, OAdd)
	case 2:
		return bin(ts.Sub, OSub)
	case 3:
		return bin(ts.Mul, OMul)
	case 4:
		if w < 64 || g.rng.Intn(4) == 0 {
			f, op := []func(a, b *Term) *Term{ts.UDiv, ts.URem, ts.SDiv, ts.SRem}, []Op{OUDiv, OURem, OSDiv, OSRem}
			i := g.rng.Intn(4)
			a, b := g.gen(w, d-1), g.konst(w)
			return pair{f[i](a.s, b.s), ts.intern(op[i], w, a.r, b.r, nil, 0)}
		}
		return bin(ts.Add, OAdd)
	case 5:
		return bin(ts.BAnd, OBAnd)
	case 6:
		return bin(ts.BOr, OBOr)
	case 7:
		return bin(ts.BXor, OBXor)
	case 8, 9, 10:
		f, op := []func(a, b *Term) *Term{ts.Shl, ts.LShr, ts.AShr}, []Op{OShl, OLShr, OAShr}
		i := g.rng.Intn(3)
		a := g.gen(w, d-1)
		b := g.konst(w)
		if g.rng.Intn(4) != 0 {
			c := ts.Const(w, uint64(g.rng.Intn(int(w)+1)))
			b = pair{c, c}
		} else if g.rng.Intn(2) == 0 {
			b = g.gen(w, d-1)
		}
		return pair{f[i](a.s, b.s), ts.intern(op[i], w, a.r, b.r, nil, 0)}
	case 11, 12:
		if w < 64 {
			x := w * 2
			a := g.gen(x, d-1)
			lo := []uint8{0, w, w / 2}[g.rng.Intn(3)]
			return pair{ts.Extract(a.s, lo, w), ts.intern(OExtract, w, a.r, nil, nil, uint64(lo))}
		}
	case 13, 14:
		if w > 8 {
			a := g.gen(w/2, d-1)
			return pair{ts.ZExt(a.s, w), ts.intern(OZExt, w, a.r, nil, nil, 0)}
		}
	case 15:
		if w > 8 {
			a := g.gen(w/2, d-1)
			return pair{ts.SExt(a.s, w), ts.intern(OSExt, w, a.r, nil, nil, 0)}
		}
	case 16:
		a := g.gen(8, d-1)
		vals := g.tabs[g.rng.Intn(len(g.tabs))]
		t := ts.Table(vals, w, a.s)
		r := g.ts.intern(OTable, w, a.r, nil, nil, uint64(g.rawTable(vals, w)))
		return pair{t, r}
	}
	c, a, b := g.gen(0, d-1), g.gen(w, d-1), g.gen(w, d-1)
	return pair{ts.Ite(c.s, a.s, b.s), ts.intern(OIte, w, c.r, a.r, b.r, 0)}
}

func (g *termGen) rawTable(vals []uint64, w uint8) int {
	masked := make([]uint64, len(vals))
	for i, v := range vals {
		masked[i] = v & mask(w)
	}
	id := len(g.ts.tables)
	g.ts.tables = append(g.ts.tables, &table{id: id, w: w, vals: masked, key: fmt.Sprint("raw", id)})
	return id
}

// selfTest returns the number of terms found wrong.
func selfTest(n int, seed int64) int {
	st := &SolverStats{}
	bad, unknown, rewritten := 0, 0, 0
	rng := rand.New(rand.NewSource(seed))
	var sol *Solver
	for i := 0; i < n; i++ {
		if i%200 == 0 {
			if sol != nil {
				sol.stop()
			}
			sol = newSolver(newTerms(), st)
		}
		g := &termGen{ts: sol.ts, rng: rng}
		for k := 0; k < 2; k++ {
			t := make([]uint64, 256)
			for j := range t {
				switch k {
				case 0: // classes of characters
					t[j] = uint64(j / 32)
				case 1: // a translation
					t[j] = uint64(j)
					if j >= 'A' && j <= 'Z' {
						t[j] += 32
					}
				}
			}
			g.tabs = append(g.tabs, t)
		}
		w := append([]uint8{0}, selfWidths...)[rng.Intn(5)]
		p := g.gen(w, 2+rng.Intn(3))
		if p.s != p.r {
			rewritten++
		}
		ts := sol.ts
		wrong := ts.intern(ONot, 0, ts.intern(OEq, 0, p.s, p.r, nil, 0), nil, nil, 0)
		if w > 0 {
			below := ts.intern(OUlt, 0, p.r, ts.Const(w, p.s.lo), nil, 0)
			above := ts.intern(OUlt, 0, ts.Const(w, p.s.hi), p.r, nil, 0)
			wrong = ts.intern(OOr, 0, wrong, ts.intern(OOr, 0, below, above, nil, 0), nil, 0)
		}
		cs := []*Term{wrong}
		if i%3 == 0 {
			// the canonical form instead, for some values of a byte
			m := &Machine{ts: ts, run: &Run{}, truth: map[*Term]*[4]uint64{}}
			m.pc.reset()
			x := ts.Var(fmt.Sprintf("x8_%d", rng.Intn(2)), 8)
			if lo := uint64(rng.Intn(256)); rng.Intn(4) > 0 && lo > 0 {
				c := ts.And(ts.Ule(ts.Const(8, lo), x), ts.Ule(x, ts.Const(8, min(255, lo+uint64(rng.Intn(60))))))
				m.pc.add(m, c)
				cs = append(cs, c)
			}
			if c := m.canon(p.s); c != nil {
				cs[0] = ts.intern(ONot, 0, ts.intern(OEq, 0, c, p.r, nil, 0), nil, nil, 0)
			}
			wrong = cs[0]
		}
		r, vals := sol.check1(cs, wrong.vars)
		switch r {
		case Unknown:
			unknown++
		case Sat:
			bad++
			fmt.Printf("SIMPLIFIER WRONG: %v of %s\n", vals, sol.script([]*Term{wrong}, wrong.vars))
		}
	}
	if sol != nil {
		sol.stop()
	}
	fmt.Printf("selftest: %d terms, %d rewritten, %d wrong, %d undecided, %d errors\n", n, rewritten, bad, unknown, st.Errors.Load())
	if st.Errors.Load() > 0 {
		bad++
	}
	return bad
}
