package main

// Exploration: worker pool, path execution, assertions, violations, sampling.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type workItem struct {
	node  *decNode
	model *Model
}

type harness struct {
	name string
	fn   *cfunc
}

type hstats struct {
	Name      string         `json:"harness"`
	Paths     int64          `json:"paths"`
	Infeas    int64          `json:"assumed_away"`
	Forks     int64          `json:"forks"`
	Decisions int64          `json:"decisions"`
	Steps     int64          `json:"ssa_steps"`
	Asserts   int64          `json:"assertions_checked"`
	Complete  bool           `json:"complete"`
	Left      int            `json:"unexplored_prefixes,omitempty"`
	Unsup     map[string]int `json:"unsupported,omitempty"`
	Notes     map[string]int `json:"notes,omitempty"`
	Reached   map[string]int `json:"reached,omitempty"`
	Validated int64          `json:"paths_replayed_natively"`
	Mismatch  int64          `json:"replay_mismatches"`
	Seconds   float64        `json:"seconds"`
	MaxDepth  int            `json:"max_decisions_on_a_path"`
}

type violation struct {
	harness string
	msg     string
	kind    string // assert, panic, hang
	assign  map[string]uint64
	sample  string
}

type Run struct {
	prog     *Prog
	thorough bool
	seed     int64
	st       SolverStats
	cache    queryCache

	mu       sync.Mutex
	cond     *sync.Cond
	stack    []*workItem
	busy     int
	stop     bool
	deadline time.Time
	rng      *rand.Rand

	h       *harness
	hs      *hstats
	samples []string
	viol    []violation
	unconf  []string
	raceN   map[string]int
	nat     *Native
	crossN  atomic.Int64
	workers []*Machine

	maxValidate int64
	pathTimeout time.Duration
	funcs       map[string]bool
	blocksHit   map[int]bool
}

func (r *Run) schedule(w *workItem) {
	r.mu.Lock()
	r.stack = append(r.stack, w)
	r.hs.Forks++
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *Run) take(id int) *workItem {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stop || time.Now().After(r.deadline) {
			r.stop = true
			r.cond.Broadcast()
			return nil
		}
		if n := len(r.stack); n > 0 {
			i := n - 1
			if id%2 == 1 && n > 1 {
				i = r.rng.Intn(n)
			}
			w := r.stack[i]
			r.stack[i] = r.stack[n-1]
			r.stack = r.stack[:n-1]
			r.busy++
			return w
		}
		if r.busy == 0 {
			r.cond.Broadcast()
			return nil
		}
		r.cond.Wait()
	}
}

func (r *Run) done() {
	r.mu.Lock()
	r.busy--
	if r.busy == 0 && len(r.stack) == 0 {
		r.cond.Broadcast()
	}
	r.mu.Unlock()
}

// hrun is the exploration state of one harness; it can be resumed.
type hrun struct {
	h     *harness
	hs    *hstats
	stack []*workItem
}

func newHrun(h *harness) *hrun {
	return &hrun{h: h, hs: &hstats{Name: h.name, Unsup: map[string]int{}, Notes: map[string]int{}, Reached: map[string]int{}},
		stack: []*workItem{{node: nil, model: newModel()}}}
}

// runHarness explores one harness until done or the deadline.
func (r *Run) runHarness(hr *hrun, budget time.Duration) {
	t0 := time.Now()
	h := hr.h
	r.mu.Lock()
	r.h = h
	r.hs = hr.hs
	r.stack = hr.stack
	r.stop = false
	r.busy = 0
	r.deadline = t0.Add(budget)
	r.rng = rand.New(rand.NewSource(r.seed))
	r.mu.Unlock()
	tick := time.AfterFunc(budget+50*time.Millisecond, func() { r.cond.Broadcast() })
	defer tick.Stop()
	var wg sync.WaitGroup
	for _, m := range r.workers {
		wg.Add(1)
		go func(m *Machine) {
			defer wg.Done()
			for {
				w := r.take(m.id)
				if w == nil {
					return
				}
				m.runPath(h, w)
				r.done()
			}
		}(m)
	}
	wg.Wait()
	hs := r.hs
	hr.stack = r.stack
	hs.Left = len(r.stack)
	hs.Complete = len(r.stack) == 0 && len(hs.Unsup) == 0 && len(hs.Notes) == 0
	hs.Seconds += time.Since(t0).Seconds()
}

// suspend ends the current path at its present decision when the time of the
// harness is over; it is resumed from there if the harness gets more time.
type suspend struct{}

func (m *Machine) checkTime() {
	if m.spec == 0 && !m.initing && m.run.deadline.Before(time.Now()) && m.pos >= len(m.prefix) {
		panic(suspend{})
	}
}

func (m *Machine) resetPath(h *harness, w *workItem) {
	m.steps, m.nalloc, m.allocCells, m.depth, m.spec = 0, 0, 0, 0, 0
	m.memLimit, m.memUsed = 0, 0
	m.maxSteps = 100_000_000
	n := 0
	if w.node != nil {
		n = w.node.n
	}
	m.prefix = make([]decision, n)
	for d := w.node; d != nil; d = d.parent {
		m.prefix[d.n-1] = d.d
	}
	m.pos, m.node = 0, nil
	m.model = w.model.clone()
	m.pc.reset()
	m.known = map[*Term]bool{}
	m.inputs = m.inputs[:0]
	m.names = map[string]int{}
	m.obs = nil
	m.reach = map[string]bool{}
	m.regFails = map[*cblock]int{}
	m.concN = map[*Term]int{}
	m.repoWrite = ""
	m.mapRev = nil
	m.pools, m.smaps = nil, nil
	m.notes = nil
	m.harness = h
	m.curFn = nil
	m.asserts = 0
	if len(m.ts.tab) > 1_000_000 {
		// start over with fresh terms (and a fresh solver process)
		*m.ts = *newTerms()
		m.sol.stop()
		m.truth = map[*Term]*[4]uint64{}
	}
}

func (m *Machine) assignment(mod *Model) map[string]uint64 {
	a := map[string]uint64{}
	for _, in := range m.inputs {
		a[in.name] = mod.get(int32(in.t.k))
	}
	return a
}

func (m *Machine) runPath(h *harness, w *workItem) {
	r := m.run
	m.resetPath(h, w)
	status, detail := "done", ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch x := e.(type) {
				case pathEnd:
					status, detail = "assumed", x.why
				case violationStop:
					status = "violation"
				case suspend:
					status = "suspended"
				case unsupported:
					status, detail = "unsupported", string(x)
				case allocLimit:
					status, detail = "unsupported", "allocation limit"
				case stepLimit:
					status, detail = "steplimit", "step limit"
				case *goPanic:
					status, detail = "panic", x.msg+" in "+x.where
				case bailout:
					status, detail = "unsupported", "bailout outside region"
				default:
					if os.Getenv("GOSYM_TRACE") != "" {
						panic(e)
					}
					status, detail = "unsupported", "internal: "+fmt.Sprint(e)+" in "+m.where()
				}
			}
		}()
		m.call(h.fn, nil, nil, nil)
	}()
	m.spec = 0
	nd := 0
	if m.node != nil {
		nd = m.node.n
	}
	r.mu.Lock()
	hs := r.hs
	hs.Steps += m.steps
	hs.Asserts += int64(m.asserts)
	hs.Decisions += int64(nd - len(m.prefix))
	if nd > hs.MaxDepth {
		hs.MaxDepth = nd
	}
	for k := range m.notes {
		hs.Notes[k]++
	}
	for k := range m.reach {
		hs.Reached[k]++
	}
	switch status {
	case "done", "violation", "panic", "steplimit":
		hs.Paths++
	case "assumed":
		hs.Infeas++
	case "unsupported":
		hs.Unsup[detail]++
	case "suspended":
		r.stack = append(r.stack, &workItem{node: m.node, model: m.model.clone()})
	}
	first := hs.Paths <= 5
	sample := false
	if status == "done" && hs.Validated < r.maxValidate {
		// a spread of paths: the first few, then with falling probability
		if first || r.rng.Int63n(hs.Paths/10+1) == 0 {
			sample = true
			hs.Validated++
		}
	}
	r.mu.Unlock()
	switch status {
	case "panic":
		m.report("panic", detail, m.model)
	case "steplimit":
		m.report("hang", detail, m.model)
	case "unsupported":
		// Not decided symbolically, but the path's own model can still be run.
		r.mu.Lock()
		try := hs.Unsup[detail] <= 20
		r.mu.Unlock()
		if try {
			m.report("unsupported", detail, m.model)
		}
	case "done":
		if sample {
			m.validate()
		}
	}
	m.rollback()
}

// assert decides c under the path condition.
func (m *Machine) assert(c *Term, msg string) {
	if m.pos < len(m.prefix) {
		if !c.isConst() {
			m.setKnown(c, true)
		}
		return // already decided on the parent path
	}
	m.asserts++
	if c.isConst() {
		if c.k == 1 {
			m.run.st.AssertTrivial.Add(1)
			return
		}
		m.report("assert", msg, m.model)
		panic(violationStop{})
	}
	if v, ok := m.lookupKnown(c); ok && v {
		m.run.st.AssertTrivial.Add(1)
		return
	}
	r, mod := m.feasible(m.ts.Not(c), true)
	switch r {
	case Unsat:
		m.setKnown(c, true)
	case Sat:
		m.report("assert", msg, mod)
		panic(violationStop{})
	default:
		m.note("undecided assertion: " + msg)
		m.setKnown(c, true)
	}
}

// report replays a candidate against the real code and records it when confirmed.
func (m *Machine) report(kind, msg string, mod *Model) {
	r := m.run
	as := m.assignment(mod)
	res, err := r.nat.Run(m.harness.name, as)
	if m.mapRev != nil {
		// the real order of map iterations is random
		for i := 0; i < 200 && err == nil && (res.Status == "ok" || res.Status == "assume"); i++ {
			res, err = r.nat.Run(m.harness.name, as)
		}
	}
	if err != nil {
		r.mu.Lock()
		r.unconf = append(r.unconf, fmt.Sprintf("%s: %s: %s: native replay failed: %v", m.harness.name, kind, msg, err))
		r.mu.Unlock()
		return
	}
	switch res.Status {
	case "assert", "panic", "hang":
		r.mu.Lock()
		r.viol = append(r.viol, violation{harness: m.harness.name, msg: res.Msg, kind: res.Status, assign: as})
		r.stop = true
		r.cond.Broadcast()
		r.mu.Unlock()
	default:
		if kind == "unsupported" {
			return
		}
		r.mu.Lock()
		b, _ := json.Marshal(as)
		r.hs.Mismatch++
		r.unconf = append(r.unconf, fmt.Sprintf("%s: %s: %s: not reproduced natively (%s %s) with %s", m.harness.name, kind, msg, res.Status, res.Msg, b))
		r.mu.Unlock()
	}
}

// raceCandidate runs the path's input under the race detector.
func (m *Machine) raceCandidate() {
	r := m.run
	r.mu.Lock()
	r.raceN[m.repoWrite]++
	try := r.raceN[m.repoWrite] <= 6
	r.mu.Unlock()
	if !try {
		return
	}
	as := m.assignment(m.model)
	race, out, err := r.nat.Race(m.harness.name, as, r.thorough)
	r.mu.Lock()
	defer r.mu.Unlock()
	if race {
		r.viol = append(r.viol, violation{harness: m.harness.name, msg: "data race: " + m.repoWrite, kind: "race", assign: as})
		r.stop = true
		r.cond.Broadcast()
		return
	}
	if err != nil {
		out = err.Error()
	}
	r.unconf = append(r.unconf, fmt.Sprintf("%s: %s: the race detector reports nothing: %.200s", m.harness.name, m.repoWrite, out))
}

func (m *Machine) evalStr(s *Str, mod *Model) string {
	if s == nil {
		return ""
	}
	if s.sym == nil {
		return s.s
	}
	b := []byte(s.s)
	for i, t := range s.sym {
		if t != nil {
			b[i] = byte(m.ts.Eval(t, mod))
		}
	}
	return string(b)
}

func (m *Machine) evalObs(o observation, mod *Model) string {
	if o.T == nil {
		return "nil"
	}
	ti := typeInfo(o.T)
	c := o.v.c
	if o.v.t != nil {
		c = m.ts.Eval(o.v.t, mod)
	}
	switch ti.kind {
	case KString:
		if l, ok := o.v.o.(*LazyStr); ok && !l.done {
			return "?"
		}
		return strconv.Quote(m.evalStr(m.S(o.v), mod))
	case KSlice:
		if ti.elem.isByte {
			return strconv.Quote(m.evalStr(m.S(o.v), mod))
		}
	case KInt:
		if ti.signed {
			return strconv.FormatInt(sext(c, ti.w), 10)
		}
		return strconv.FormatUint(c, 10)
	case KBool:
		return strconv.FormatBool(c == 1)
	}
	return "?"
}

// validate replays a completed path natively and compares what it observed.
func (m *Machine) validate() {
	r := m.run
	bad := m.validateOnce()
	for i := 0; bad != "" && m.mapRev != nil && i < 200; i++ {
		bad = m.validateOnce()
	}
	if bad != "" {
		b, _ := json.Marshal(m.assignment(m.model))
		r.mu.Lock()
		r.hs.Mismatch++
		r.unconf = append(r.unconf, m.harness.name+": validation: "+bad+" with "+string(b))
		r.mu.Unlock()
	}
}

func (m *Machine) validateOnce() (bad string) {
	r := m.run
	as := m.assignment(m.model)
	res, err := r.nat.Run(m.harness.name, as)
	switch {
	case err != nil:
		bad = "replay error: " + err.Error()
	case res.Status == "assert" || res.Status == "panic" || res.Status == "hang":
		// The real code breaks the property on an input the model accepted.
		r.mu.Lock()
		r.viol = append(r.viol, violation{harness: m.harness.name, msg: res.Msg, kind: res.Status, assign: as})
		r.stop = true
		r.hs.Mismatch++
		r.cond.Broadcast()
		r.mu.Unlock()
		return ""
	case res.Status != "ok":
		bad = "native status " + res.Status + " " + res.Msg
	default:
		var want []string
		for _, o := range m.obs {
			want = append(want, o.name+"="+m.evalObs(o, m.model))
		}
		if len(want) != len(res.Obs) {
			bad = fmt.Sprintf("%d observations, native %d", len(want), len(res.Obs))
		}
		for i := range want {
			if bad == "" && want[i] != res.Obs[i] && !strings.HasSuffix(want[i], "=?") {
				bad = fmt.Sprintf("observation %s, native %s", want[i], res.Obs[i])
			}
		}
		for k := range m.reach {
			if bad == "" && !res.Reached[k] {
				bad = "reached " + k + " only symbolically"
			}
		}
	}
	if bad != "" {
		return bad
	}
	r.mu.Lock()
	if len(r.samples) < 12 && len(res.Obs) > 0 && r.rng.Intn(3) == 0 || len(r.samples) == 0 {
		r.samples = append(r.samples, m.harness.name+" "+describe(as)+" -> "+strings.Join(res.Obs, " "))
	}
	r.mu.Unlock()
	return ""
}

// describe renders an assignment compactly, joining byte arrays.
func describe(as map[string]uint64) string {
	arr := map[string]map[int]byte{}
	var parts []string
	for k, v := range as {
		base := k
		if i := strings.LastIndexByte(k, '@'); i >= 0 {
			base = k[:i]
		}
		if i := strings.IndexByte(base, '['); i >= 0 && strings.HasSuffix(base, "]") {
			n, err := strconv.Atoi(base[i+1 : len(base)-1])
			if err == nil {
				if arr[base[:i]] == nil {
					arr[base[:i]] = map[int]byte{}
				}
				arr[base[:i]][n] = byte(v)
				continue
			}
		}
		parts = append(parts, fmt.Sprintf("%s=%d", base, v))
	}
	for k, a := range arr {
		b := make([]byte, len(a))
		for i, x := range a {
			if i < len(b) {
				b[i] = x
			}
		}
		parts = append(parts, k+"="+strconv.Quote(string(b)))
	}
	sort.Strings(parts)
	s := "{" + strings.Join(parts, " ") + "}"
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func (r *Run) maybeCross(m *Machine, cs []*Term) {
	n := r.crossN.Add(1)
	lim := int64(10)
	every := int64(50)
	if r.thorough {
		lim, every = 60, 20
	}
	if n%every == 1 && n/every < lim {
		m.sol.crossCheck(cs, Unsat)
	}
}

var _ = types.Typ
