package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	var (
		prop    = flag.String("prop", "", "property id")
		tier    = flag.String("tier", env("VERIF_TIER", "quick"), "quick or thorough")
		repo    = flag.String("repo", "/repo", "repository under test")
		verif   = flag.String("verif", "/verif", "verification tree")
		budget  = flag.Float64("budget", 0, "seconds of exploration")
		only    = flag.String("only", "", "regexp of harness names")
		verbose = flag.Bool("v", false, "print progress")
		nwork   = flag.Int("workers", runtime.NumCPU(), "workers")
		noEv    = flag.Bool("noev", false, "do not write evidence")
		evDir   = flag.String("evdir", "", "evidence directory")
		outDir  = flag.String("out", "", "replay directory")
		gaps    = flag.Bool("gaps", false, "list repository blocks not reached")
	)
	self := flag.Int("selftest", 0, "check the term simplifier on this many random terms")
	selfSeed := flag.Int64("selfseed", 1, "seed of -selftest")
	flag.Parse()
	if *self > 0 {
		if selfTest(*self, *selfSeed) > 0 {
			os.Exit(2)
		}
		return
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	if *prop == "" {
		fmt.Fprintln(os.Stderr, "usage: gosym -prop ID [-tier quick|thorough]")
		os.Exit(2)
	}
	t0 := time.Now()
	if *evDir == "" {
		*evDir = filepath.Join(*verif, "evidence")
	}
	if *outDir == "" {
		*outDir = filepath.Join(*verif, "out")
	}
	thorough := *tier == "thorough"
	if *budget == 0 {
		*budget = 180
		if thorough {
			*budget = 600
		}
	}
	seed, _ := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	hdir := filepath.Join(*verif, "harness")
	tmp, err := os.MkdirTemp("", "gosym")
	check(err)
	defer os.RemoveAll(tmp)
	modfile := ""
	if *repo != "/repo" || *verif != "/verif" {
		b, err := os.ReadFile(filepath.Join(hdir, "go.mod"))
		check(err)
		txt := strings.ReplaceAll(string(b), "=> /repo", "=> "+*repo)
		modfile = filepath.Join(tmp, "h.mod")
		check(os.WriteFile(modfile, []byte(txt), 0o644))
		if b, err := os.ReadFile(filepath.Join(hdir, "go.sum")); err == nil {
			check(os.WriteFile(filepath.Join(tmp, "h.sum"), b, 0o644))
		}
	}
	var nat *Native
	var natErr error
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		nat, natErr = buildNative(hdir, modfile, tmp)
	}()
	prog, err := loadProg(hdir, modfile)
	wg.Wait()
	if err == nil {
		err = natErr
	}
	if err != nil {
		// The tree does not compile: nothing can be decided about it.
		fmt.Fprintln(os.Stderr, "cannot load:", err)
		os.RemoveAll(tmp)
		os.Exit(3)
	}
	nat.thorough = thorough
	defer nat.Close()

	r := &Run{raceN: map[string]int{}, prog: prog, thorough: thorough, seed: seed, nat: nat, maxValidate: 60}
	if thorough {
		r.maxValidate = 400
	}
	r.cond = sync.NewCond(&r.mu)
	r.hs = &hstats{}
	hs := findHarnesses(prog, *prop, *only)
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", *prop)
		os.Exit(2)
	}
	loadS := time.Since(t0).Seconds()
	for i := 0; i < *nwork; i++ {
		r.workers = append(r.workers, newMachine(i, r))
	}
	for _, m := range r.workers {
		wg.Add(1)
		go func(m *Machine) {
			defer wg.Done()
			m.initAll(prog.main)
		}(m)
	}
	wg.Wait()
	if *verbose {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs, initialised in %.1fs; poisoned: %v\n", loadS, time.Since(t0).Seconds()-loadS, r.workers[0].poisonWh)
	}
	start := time.Now()
	end := start.Add(time.Duration(*budget * float64(time.Second)))
	var stats []*hstats
	var pending []*hrun
	for _, h := range hs {
		hr := newHrun(h)
		pending = append(pending, hr)
		stats = append(stats, hr.hs)
	}
	// Two passes: a first share for everybody, then the time left for the
	// harnesses that are not exhausted.
	for pass := 0; pass < 3 && len(pending) > 0 && len(r.viol) == 0; pass++ {
		var next []*hrun
		for i, hr := range pending {
			share := time.Until(end) / time.Duration(len(pending)-i)
			if pass == 0 {
				share /= 3
			}
			if share < time.Second {
				share = time.Second
				if pass > 0 {
					next = append(next, pending[i:]...)
					break
				}
			}
			r.runHarness(hr, share)
			if hr.hs.Left > 0 {
				next = append(next, hr)
			}
			if len(r.viol) > 0 {
				break
			}
		}
		pending = next
	}
	if *verbose {
		for _, st := range stats {
			b, _ := json.Marshal(st)
			fmt.Fprintf(os.Stderr, "%s\n", b)
		}
	}
	wall := time.Since(t0).Seconds()
	for _, m := range r.workers {
		m.sol.stop()
	}
	for _, u := range r.unconf {
		fmt.Fprintln(os.Stderr, "UNCONFIRMED:", u)
	}
	if !*noEv {
		check(os.MkdirAll(*evDir, 0o755))
		writeEvidence(r, *prop, *tier, seed, stats, wall, filepath.Join(*evDir, *prop+".json"))
	}
	if *gaps {
		listGaps(r)
	}
	fmt.Printf("%s %s: %s\n", *prop, *tier, summary(r, stats, wall))
	for _, k := range knownFindings(*verif, *prop) {
		fmt.Println("KNOWN-FINDING: property=" + *prop + " " + k)
	}
	code := 0
	if len(r.viol) > 0 {
		check(os.MkdirAll(*outDir, 0o755))
		v := r.viol[0]
		path := filepath.Join(*outDir, *prop+"-"+v.harness+".json")
		goRun := "go run ./cmd/replay "
		if v.kind == "race" {
			goRun = "CGO_ENABLED=1 go run -race ./cmd/replay -concurrent "
		}
		b, _ := json.MarshalIndent(map[string]any{"harness": v.harness, "assign": v.assign, "kind": v.kind, "msg": v.msg,
			"input": describe(v.assign), "property": *prop, "thorough": thorough,
			"replay": "cd " + hdir + " && " + goRun + path}, "", " ")
		check(os.WriteFile(path, b, 0o644))
		fmt.Printf("%s: %s: %s\n  input %s\n", v.harness, v.kind, v.msg, describe(v.assign))
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		code = 1
	}
	nat.Close()
	os.RemoveAll(tmp)
	os.Exit(code)
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func findHarnesses(p *Prog, prop, only string) []*harness {
	var re *regexp.Regexp
	if only != "" {
		re = regexp.MustCompile(only)
	}
	var hs []*harness
	for name, mem := range p.main.Members {
		f, ok := mem.(*ssa.Function)
		if !ok || !strings.HasPrefix(name, prop+"_") {
			continue
		}
		if f.Signature.Params().Len() != 0 || re != nil && !re.MatchString(name) {
			continue
		}
		hs = append(hs, &harness{name, getFunc(f)})
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].name < hs[j].name })
	return hs
}

// knownFindings lists recorded, unrepaired defects of a property.
func knownFindings(verif, prop string) []string {
	b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(l, "finding: property="+prop+" "); ok {
			out = append(out, rest)
		}
	}
	return out
}

func totals(stats []*hstats) (t hstats) {
	t.Complete = true
	for _, s := range stats {
		t.Paths += s.Paths
		t.Infeas += s.Infeas
		t.Forks += s.Forks
		t.Decisions += s.Decisions
		t.Steps += s.Steps
		t.Asserts += s.Asserts
		t.Validated += s.Validated
		t.Mismatch += s.Mismatch
		t.Complete = t.Complete && s.Complete
	}
	return
}

func summary(r *Run, stats []*hstats, wall float64) string {
	t := totals(stats)
	n := 0
	for _, s := range stats {
		if s.Complete {
			n++
		}
	}
	return fmt.Sprintf("%d harnesses (%d exhausted), %d paths, %d assertions, %d solver queries (%.1fs), %d native replays, %d mismatches, %.1fs",
		len(stats), n, t.Paths, t.Asserts, r.st.Queries.Load(), float64(r.st.SolverNS.Load())/1e9, r.nat.N, t.Mismatch, wall)
}

func encodedFuncs(r *Run) (repo []string, other []string, hit, total int) {
	seen := map[int32]bool{}
	hits := map[int]bool{}
	for _, m := range r.workers {
		for i, ok := range m.funcsSeen {
			if ok {
				seen[int32(i)] = true
			}
		}
		for i, ok := range m.blkHit {
			if ok {
				hits[i] = true
			}
		}
	}
	for _, f := range cfList {
		if !seen[f.idx] {
			continue
		}
		n := strings.ReplaceAll(f.name, repoPkg+".", "gitdiff.")
		switch {
		case f.isRepo && f.fn.Synthetic == "":
			repo = append(repo, n)
			for _, b := range f.blocks {
				total++
				if hits[b.gid] {
					hit++
				}
			}
		case f.pkg != hPkg && f.pkg != symPkg:
			other = append(other, n)
		}
	}
	sort.Strings(repo)
	sort.Strings(other)
	return
}

func listGaps(r *Run) {
	hits := map[int]bool{}
	seen := map[int32]bool{}
	for _, m := range r.workers {
		for i, ok := range m.blkHit {
			if ok {
				hits[i] = true
			}
		}
		for i, ok := range m.funcsSeen {
			if ok {
				seen[int32(i)] = true
			}
		}
	}
	var out []string
	for _, f := range cfList {
		if !f.isRepo || !seen[f.idx] || f.fn.Synthetic != "" {
			continue
		}
		for _, b := range f.blocks {
			if !hits[b.gid] && b.pos.IsValid() {
				p := r.prog.ssa.Fset.Position(b.pos)
				out = append(out, fmt.Sprintf("%s:%d %s", filepath.Base(p.Filename), p.Line, f.fn.Name()))
			}
		}
	}
	sort.Strings(out)
	for _, l := range out {
		fmt.Fprintln(os.Stderr, "NOT REACHED:", l)
	}
}

func writeEvidence(r *Run, prop, tier string, seed int64, stats []*hstats, wall float64, path string) {
	t := totals(stats)
	repoF, otherF, hit, total := encodedFuncs(r)
	var incomplete []string
	for _, s := range stats {
		if !s.Complete {
			incomplete = append(incomplete, fmt.Sprintf("%s: %d prefixes unexplored, unsupported %v, notes %v", s.Name, s.Left, s.Unsup, s.Notes))
		}
	}
	st := &r.st
	samples := r.samples
	if len(samples) == 0 {
		samples = []string{"(no path was sampled)"}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall,
		"coverage": map[string]any{
			"states":                         t.Paths + t.Infeas,
			"transitions":                    t.Decisions,
			"traces_validated_against_impl":  r.nat.N,
			"samples":                        samples,
			"explanation":                    "states = symbolic paths executed to the end (each stands for all inputs satisfying its path condition); transitions = branch and value decisions taken on symbolic conditions; traces = solver models of paths replayed on the natively compiled code",
			"functions_encoded":              repoF,
			"library_functions_encoded":      len(otherF),
			"repo_blocks_executed":           hit,
			"repo_blocks_in_those_functions": total,
			"ssa_steps":                      t.Steps,
			"assertions_checked":             t.Asserts,
			"assertions_decided_by_solver":   st.AssertQueries.Load(),
			"assertions_constant_true":       st.AssertTrivial.Load(),
			"queries": map[string]any{"total": st.Queries.Load(), "sat": st.Sat.Load(), "unsat": st.Unsat.Load(), "unknown": st.Unknown.Load(),
				"errors": st.Errors.Load(), "branches_decided_on_byte_domains": st.DomainDecided.Load(), "of_those_infeasible_and_confirmed_by_the_solver": st.Confirmed.Load(), "cached": st.CacheHits.Load(), "retried_in_canonical_form": st.Canonized.Load(), "portfolio": st.Portfolio.Load(),
				"cross_checked_with_cvc5": st.CrossChecked.Load(), "cross_check_disagreements": st.CrossDisagree.Load()},
			"solver_seconds":          float64(st.SolverNS.Load()) / 1e9,
			"solver_max_query_s":      float64(st.MaxNS.Load()) / 1e9,
			"bounds":                  boundsOf(r.prog, prop),
			"exhausted_within_bounds": t.Complete,
			"not_exhausted":           incomplete,
			"harnesses":               stats,
			"replay_mismatches":       r.unconf,
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	check(err)
	check(os.WriteFile(path, append(b, '\n'), 0o644))
}

// boundsOf reads the doc comment of each harness: it states its bounds.
func boundsOf(p *Prog, prop string) []string {
	var out []string
	for _, f := range p.docs {
		if strings.HasPrefix(f, prop+"_") {
			out = append(out, f)
		}
	}
	sort.Strings(out)
	return out
}
