package main

// SMT-LIB2 front end: one long-lived solver process per worker, plus a
// one-shot portfolio for queries the incremental solver gives up on.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// SolverStats are shared by all workers of a run.
type SolverStats struct {
	Queries, Sat, Unsat, Unknown, Errors atomic.Int64
	AssertQueries, AssertUnsat           atomic.Int64
	AssertTrivial                        atomic.Int64
	Canonized                            atomic.Int64 // hard queries retried in canonical form
	DomainDecided, ModelReuse, CacheHits atomic.Int64
	Confirmed                            atomic.Int64
	Portfolio                            atomic.Int64
	SolverNS                             atomic.Int64
	MaxNS                                atomic.Int64
	CrossChecked, CrossDisagree          atomic.Int64
}

type Solver struct {
	ts      *Terms
	st      *SolverStats
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.Closer
	out     *bufio.Reader
	gen     int
	defs    int
	declV   map[int32]bool
	declT   map[string]bool
	tmo     int // ms
	bin     []string
	crossCk bool
	alt     func(*Term) *Term // equivalent of a last constraint given the others
}

func newSolver(ts *Terms, st *SolverStats) *Solver {
	s := &Solver{ts: ts, st: st, tmo: 2500}
	s.bin = []string{"z3-new", "-in", "-smt2"}
	if b := os.Getenv("GOSYM_SOLVER"); b != "" {
		s.bin = strings.Fields(b)
	}
	if _, err := exec.LookPath(s.bin[0]); err != nil {
		s.bin = []string{"z3", "-in", "-smt2"}
	}
	return s
}

func (s *Solver) start() error {
	s.stop()
	s.gen++
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.inC = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.declV = map[int32]bool{}
	s.declT = map[string]bool{}
	s.defs = 0
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.tmo)
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func constStr(w uint8, v uint64) string {
	v &= mask(w)
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

// printer emits definitions for a set of terms.
type printer struct {
	ts    *Terms
	w     *bufio.Writer
	declV map[int32]bool
	declT map[string]bool
	has   func(*Term) bool
	mark  func(*Term)
	n     int
}

func (p *printer) ref(t *Term) string {
	switch t.op {
	case OConst:
		return constStr(t.w, t.k)
	case OVar:
		return "v" + strconv.Itoa(int(t.k))
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (p *printer) table(tb *table, iw uint8) string {
	name := fmt.Sprintf("tab%d_%d", tb.id, iw)
	if p.declT[name] {
		return name
	}
	p.declT[name] = true
	// piecewise: runs of v[i] = i + d or constant
	var b strings.Builder
	n := uint64(len(tb.vals))
	if iw < 64 && n > mask(iw)+1 {
		n = mask(iw) + 1
	}
	idx := "i"
	if tb.w > iw {
		idx = fmt.Sprintf("((_ zero_extend %d) i)", tb.w-iw)
	} else if tb.w < iw {
		idx = fmt.Sprintf("((_ extract %d 0) i)", tb.w-1)
	}
	closing := 0
	emit := func(last uint64, expr string) {
		if last == mask(iw) {
			b.WriteString(expr)
			closing = -closing - 1 // sealed
			return
		}
		fmt.Fprintf(&b, "(ite (bvule i %s) %s ", constStr(iw, last), expr)
		closing++
	}
	i := uint64(0)
	sealed := false
	for i < n {
		v := tb.vals[i]
		j := i
		for j+1 < n && tb.vals[j+1] == v {
			j++
		}
		k := i
		for k+1 < n && tb.w > 0 && tb.vals[k+1] == (v+(k+1-i))&mask(tb.w) {
			k++
		}
		var expr string
		last := j
		if k > j {
			last = k
			expr = fmt.Sprintf("(bvadd %s %s)", idx, constStr(tb.w, v-i))
		} else {
			expr = constStr(tb.w, v)
		}
		emit(last, expr)
		if last == mask(iw) {
			sealed = true
		}
		i = last + 1
	}
	if !sealed {
		b.WriteString(constStr(tb.w, 0))
	} else {
		closing = -closing - 1
	}
	b.WriteString(strings.Repeat(")", closing))
	fmt.Fprintf(p.w, "(define-fun %s ((i %s)) %s %s)\n", name, sortName(iw), sortName(tb.w), b.String())
	return name
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl",
	OLShr: "bvlshr", OAShr: "bvashr", OUlt: "bvult", OSlt: "bvslt"}

func (p *printer) define(t *Term) {
	switch t.op {
	case OConst:
		return
	case OVar:
		v := int32(t.k)
		if !p.declV[v] {
			p.declV[v] = true
			fmt.Fprintf(p.w, "(declare-const v%d %s)\n", v, sortName(t.w))
		}
		return
	}
	if p.has(t) {
		return
	}
	p.mark(t)
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			p.define(x)
		}
	}
	var body string
	switch t.op {
	case OExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", t.k+uint64(t.w)-1, t.k, p.ref(t.a))
	case OZExt:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, p.ref(t.a))
	case OSExt:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, p.ref(t.a))
	case OTable:
		body = fmt.Sprintf("(%s %s)", p.table(p.ts.tables[t.k], t.a.w), p.ref(t.a))
	default:
		n, ok := opNames[t.op]
		if !ok {
			panic("print: bad op")
		}
		body = "(" + n + " " + p.ref(t.a)
		if t.b != nil {
			body += " " + p.ref(t.b)
		}
		if t.c != nil {
			body += " " + p.ref(t.c)
		}
		body += ")"
	}
	p.n++
	fmt.Fprintf(p.w, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), body)
}

// Check decides the conjunction of cs. On Sat it returns values for vars.
func (s *Solver) Check(cs []*Term, vars []int32, hard time.Duration) (Result, []uint64) {
	t0 := time.Now()
	r, vals := s.check1(cs, vars)
	if r == Unknown && s.alt != nil {
		// an equivalent form of the last constraint
		if t := s.alt(cs[len(cs)-1]); t != nil && t != cs[len(cs)-1] {
			s.st.Canonized.Add(1)
			cs = append(append([]*Term(nil), cs[:len(cs)-1]...), t)
			if t.isConst() && t.k == 0 {
				r = Unsat
			} else {
				r, vals = s.check1(cs, vars)
			}
		}
	}
	if r == Unknown {
		s.st.Portfolio.Add(1)
		r, vals = s.portfolio(cs, vars, hard)
	}
	d := time.Since(t0).Nanoseconds()
	if dir := os.Getenv("GOSYM_SLOW"); dir != "" && d > 20e6 {
		os.WriteFile(fmt.Sprintf("%s/%06dms-%d.smt2", dir, d/1e6, time.Now().UnixNano()), []byte(s.script(cs, vars)), 0o644)
	}
	s.st.Queries.Add(1)
	s.st.SolverNS.Add(d)
	for {
		m := s.st.MaxNS.Load()
		if d <= m || s.st.MaxNS.CompareAndSwap(m, d) {
			break
		}
	}
	switch r {
	case Sat:
		s.st.Sat.Add(1)
	case Unsat:
		s.st.Unsat.Add(1)
	default:
		s.st.Unknown.Add(1)
	}
	return r, vals
}

func (s *Solver) check1(cs []*Term, vars []int32) (Result, []uint64) {
	if s.cmd == nil || s.defs > 60000 {
		if err := s.start(); err != nil {
			s.st.Errors.Add(1)
			return Unknown, nil
		}
	}
	p := &printer{ts: s.ts, w: s.in, declV: s.declV, declT: s.declT,
		has:  func(t *Term) bool { return t.defined == s.gen },
		mark: func(t *Term) { t.defined = s.gen }}
	for _, c := range cs {
		p.define(c)
	}
	for _, v := range vars {
		p.define(s.ts.vars[v])
	}
	s.defs += p.n
	s.in.WriteString("(push 1)\n")
	for _, c := range cs {
		s.in.WriteString("(assert " + p.ref(c) + ")\n")
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.st.Errors.Add(1)
		s.stop()
		return Unknown, nil
	}
	line, err := s.readLine()
	if err != nil || strings.HasPrefix(line, "(error") {
		s.st.Errors.Add(1)
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver error:", line, err)
		}
		s.stop()
		return Unknown, nil
	}
	var vals []uint64
	r := Unknown
	switch line {
	case "sat":
		r = Sat
		if len(vars) > 0 {
			s.in.WriteString("(get-value (")
			for _, v := range vars {
				fmt.Fprintf(s.in, "v%d ", v)
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil {
				s.st.Errors.Add(1)
				s.stop()
				return Unknown, nil
			}
			vals, err = parseValues(txt, vars)
			if err != nil {
				s.st.Errors.Add(1)
				s.stop()
				return Unknown, nil
			}
		}
	case "unsat":
		r = Unsat
	}
	s.in.WriteString("(pop 1)\n")
	return r, vals
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) { return readSexp(s.out) }

func readSexp(r *bufio.Reader) (string, error) {
	var b strings.Builder
	depth := 0
	for {
		c, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		b.WriteByte(c)
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				return b.String(), nil
			}
		}
	}
}

func parseValues(txt string, vars []int32) ([]uint64, error) {
	got := map[int32]uint64{}
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	for i := 0; i+1 < len(f); i += 2 {
		if f[i][0] != 'v' {
			return nil, fmt.Errorf("bad value list %q", txt)
		}
		n, err := strconv.Atoi(f[i][1:])
		if err != nil {
			return nil, err
		}
		var x uint64
		switch v := f[i+1]; {
		case v == "true":
			x = 1
		case v == "false":
			x = 0
		case strings.HasPrefix(v, "#x"):
			x, err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			x, err = strconv.ParseUint(v[2:], 2, 64)
		default:
			err = fmt.Errorf("bad value %q", v)
		}
		if err != nil {
			return nil, err
		}
		got[int32(n)] = x
	}
	out := make([]uint64, len(vars))
	for i, v := range vars {
		x, ok := got[v]
		if !ok {
			return nil, fmt.Errorf("no value for v%d", v)
		}
		out[i] = x
	}
	return out, nil
}

// script renders a standalone query.
func (s *Solver) script(cs []*Term, vars []int32) string {
	var sb strings.Builder
	w := bufio.NewWriter(&sb)
	seen := map[*Term]bool{}
	fmt.Fprintf(w, "(set-option :produce-models true)\n(set-logic QF_BV)\n")
	p := &printer{ts: s.ts, w: w, declV: map[int32]bool{}, declT: map[string]bool{},
		has: func(t *Term) bool { return seen[t] }, mark: func(t *Term) { seen[t] = true }}
	for _, c := range cs {
		p.define(c)
	}
	for _, v := range vars {
		p.define(s.ts.vars[v])
	}
	for _, c := range cs {
		fmt.Fprintf(w, "(assert %s)\n", p.ref(c))
	}
	fmt.Fprintf(w, "(check-sat)\n")
	if len(vars) > 0 {
		fmt.Fprintf(w, "(get-value (")
		for _, v := range vars {
			fmt.Fprintf(w, "v%d ", v)
		}
		fmt.Fprintf(w, "))\n")
	}
	w.Flush()
	return sb.String()
}

func runOneShot(ctx context.Context, bin []string, script string, vars []int32) (Result, []uint64) {
	c := exec.CommandContext(ctx, bin[0], bin[1:]...)
	c.Stdin = strings.NewReader(script)
	out, _ := c.Output()
	txt := strings.TrimSpace(string(out))
	switch {
	case strings.HasPrefix(txt, "unsat"):
		return Unsat, nil
	case strings.HasPrefix(txt, "sat"):
		rest := strings.TrimSpace(txt[3:])
		if len(vars) == 0 {
			return Sat, nil
		}
		vals, err := parseValues(rest, vars)
		if err != nil {
			return Unknown, nil
		}
		return Sat, vals
	}
	return Unknown, nil
}

var portfolioBins = [][]string{
	{"cvc5", "--lang=smt2", "--solve-bv-as-int=sum"},
	{"cvc5", "--lang=smt2"},
	{"z3-new", "-in", "-smt2"},
	{"z3", "-in", "-smt2"},
}

func (s *Solver) portfolio(cs []*Term, vars []int32, tmo time.Duration) (Result, []uint64) {
	script := s.script(cs, vars)
	if d := os.Getenv("GOSYM_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, time.Now().UnixNano()), []byte(script), 0o644)
	}
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	type res struct {
		r Result
		v []uint64
	}
	ch := make(chan res, len(portfolioBins))
	n := 0
	for _, b := range portfolioBins {
		if _, err := exec.LookPath(b[0]); err != nil {
			continue
		}
		n++
		go func(b []string) {
			r, v := runOneShot(ctx, b, script, vars)
			ch <- res{r, v}
		}(b)
	}
	for i := 0; i < n; i++ {
		if r := <-ch; r.r != Unknown {
			return r.r, r.v
		}
	}
	return Unknown, nil
}

// crossCheck re-decides a query with a second solver (cvc5).
func (s *Solver) crossCheck(cs []*Term, want Result) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	r, _ := runOneShot(ctx, []string{"cvc5", "--lang=smt2"}, s.script(cs, nil), nil)
	if r == Unknown {
		return
	}
	s.st.CrossChecked.Add(1)
	if r != want {
		s.st.CrossDisagree.Add(1)
		fmt.Fprintf(os.Stderr, "SOLVER DISAGREEMENT: z3 %v, cvc5 %v\n%s\n", want, r, s.script(cs, nil))
	}
}
