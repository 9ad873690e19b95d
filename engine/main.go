// Command engine decides the properties of go-gpsgen by symbolic execution of its SSA
// form: it loads /repo's current source, executes each harness with symbolic inputs,
// discharges the assertions with SMT solvers and replays every counterexample natively.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "engine: "+f+"\n", a...)
	os.Exit(2)
}

// Known is one entry of the known-findings file.
type Known struct {
	prop, harness string
	re            *regexp.Regexp
	text          string
}

func loadKnown(file string) []Known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []Known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue // comments and "fixed:" entries suppress nothing
		}
		spec, text, _ := strings.Cut(strings.TrimPrefix(l, "known: "), " -- ")
		k := Known{text: text}
		spec, rx, _ := strings.Cut(spec, " match=")
		for _, w := range strings.Fields(spec) {
			a, v, _ := strings.Cut(w, "=")
			switch a {
			case "property":
				k.prop = v
			case "harness":
				k.harness = v
			}
		}
		re, err := regexp.Compile("^(?:" + strings.TrimSpace(rx) + ")$")
		if err != nil || k.prop == "" || k.harness == "" || rx == "" {
			fatal("bad known-findings line: %s", l)
		}
		k.re = re
		out = append(out, k)
	}
	return out
}

// Finding is a reproduced violation.
type Finding struct {
	Harness string    `json:"harness"`
	Msg     string    `json:"msg"`
	Cex     *Cex      `json:"counterexample"`
	Native  NatResult `json:"native"`
	file    string
}

func main() {
	root := flag.String("root", "/verif", "framework directory")
	prop := flag.String("prop", "", "property to check")
	tier := flag.String("tier", "", "quick or thorough")
	only := flag.String("harness", "", "only harnesses matching this regexp")
	verbose := flag.Bool("v", false, "print progress")
	list := flag.Bool("list", false, "list harnesses")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	keep := flag.Bool("keep", false, "keep the work directory")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()

	top, err := os.MkdirTemp("", "gpsgen-verif-")
	if err != nil {
		fatal("%v", err)
	}
	cleanup := func() {
		if !*keep {
			os.RemoveAll(top)
		}
	}
	defer cleanup()
	work, natDir := filepath.Join(top, "mod"), filepath.Join(top, "nat")
	if err := os.MkdirAll(natDir, 0o755); err != nil {
		fatal("%v", err)
	}
	exit := func(c int) {
		closeSolvers()
		cleanup()
		os.Exit(c)
	}
	if err := copyTree(filepath.Join(*root, "harness"), work); err != nil {
		fatal("%v", err)
	}
	if err := writeRegistry(work); err != nil {
		fatal("%v", err)
	}
	var nat *Native
	if !*list {
		nat = startNative(work, natDir, false)
	}
	pr, err := loadProgram(work)
	if err != nil {
		fmt.Fprintf(os.Stderr, "engine: cannot load the current tree: %v\n", err)
		exit(2)
	}
	var re *regexp.Regexp
	if *only != "" {
		re = regexp.MustCompile("^(?:" + *only + ")$")
	}
	var sel []*Harness
	for _, h := range pr.harnesses {
		if *list {
			fmt.Printf("%-40s %v %s\n", h.Name, h.Props, h.Tier)
			continue
		}
		if h.Tier == "thorough" && *tier != "thorough" {
			continue
		}
		if re != nil && !re.MatchString(h.Name) {
			continue
		}
		ok := *prop == ""
		for _, p := range h.Props {
			ok = ok || p == *prop
		}
		if ok {
			sel = append(sel, h)
		}
	}
	if *list {
		exit(0)
	}
	if len(sel) == 0 {
		fmt.Fprintln(os.Stderr, "engine: no harness for", *prop)
		exit(2)
	}
	if *tier == "thorough" {
		crossCheck = true
	}
	tload := time.Since(t0)

	// explore; replays of one harness overlap with the exploration of the next
	var runs []*Run
	var mu sync.Mutex
	var wg sync.WaitGroup
	var findings []*Finding
	var inconclusive []string
	validated := 0
	natErr := ""
	caseN := 0
	writeCase := func(cx *Cex) string {
		mu.Lock()
		caseN++
		f := filepath.Join(natDir, fmt.Sprintf("case%04d.json", caseN))
		mu.Unlock()
		b, _ := json.MarshalIndent(cx, "", " ")
		os.WriteFile(f, b, 0o644)
		return f
	}
	sem := make(chan struct{}, 4)
	for _, h := range sel {
		r := newRun(pr, h, *tier == "thorough")
		r.verbose = *verbose && os.Getenv("VH_PATHS") != ""
		r.explore(*workers)
		runs = append(runs, r)
		if *verbose {
			r.report(os.Stderr)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-nat.done
			if nat.err != nil {
				mu.Lock()
				natErr = nat.err.Error()
				mu.Unlock()
				return
			}
			var inner sync.WaitGroup
			// candidates, grouped by assertion
			for _, key := range sortedKeys(r.astats) {
				st := r.astats[key]
				if len(st.cands) == 0 {
					continue
				}
				inner.Add(1)
				go func() {
					defer inner.Done()
					f, why := replayCands(nat, r, st, writeCase, sem)
					mu.Lock()
					defer mu.Unlock()
					if f != nil {
						findings = append(findings, f)
					} else {
						inconclusive = append(inconclusive, h.Name+": "+key+": "+why)
					}
				}()
			}
			for i, s := range append(append([]*Cex{}, r.samples...), r.stuckSamples...) {
				inner.Add(1)
				go func() {
					defer inner.Done()
					sem <- struct{}{}
					res := nat.run(nat.bin, writeCase(s))
					<-sem
					mu.Lock()
					defer mu.Unlock()
					s.Native = res.Status
					switch res.Status {
					case "ok":
						if i < len(r.samples) {
							validated++
						}
					case "fail", "panic", "loop":
						s.Msg = res.Msg
						findings = append(findings, &Finding{Harness: h.Name, Msg: natMsg(res), Cex: s, Native: res})
					case "hang":
						inconclusive = append(inconclusive, h.Name+": path model did not finish natively")
					case "error":
						inconclusive = append(inconclusive, h.Name+": replay error "+res.Msg)
					}
				}()
			}
			inner.Wait()
		}()
	}
	wg.Wait()
	if natErr != "" {
		fmt.Fprintln(os.Stderr, "engine: cannot build the native harness:", natErr)
		exit(2)
	}

	known := loadKnown(filepath.Join(*root, "known_findings.txt"))
	sort.Slice(findings, func(i, j int) bool {
		return findings[i].Harness+findings[i].Msg < findings[j].Harness+findings[j].Msg
	})
	rc := 0
	printed := map[string]bool{}
	nviol := 0
	id := *prop
	for _, f := range findings {
		pid := id
		if pid == "" {
			for _, h := range sel {
				if h.Name == f.Harness {
					pid = h.Props[0]
				}
			}
		}
		key := f.Harness + "|" + f.Msg
		if printed[key] {
			continue
		}
		printed[key] = true
		isKnown := false
		for _, k := range known {
			if k.prop == pid && k.harness == f.Harness && k.re.MatchString(f.Msg) {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", pid, f.Harness, k.text)
				isKnown = true
				break
			}
		}
		if isKnown {
			continue
		}
		nviol++
		dir := filepath.Join(*root, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		f.file = filepath.Join(dir, fmt.Sprintf("%s_%s_%d.json", pid, f.Harness, nviol))
		b, _ := json.MarshalIndent(f.Cex, "", " ")
		os.WriteFile(f.file, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", pid, f.file)
		fmt.Printf("  %s: %s\n", f.Harness, f.Msg)
		for _, in := range f.Cex.Inputs {
			s := in.Show
			if s == "" {
				s = in.V
			}
			fmt.Printf("    %s = %s\n", in.Name, s)
		}
		for _, in := range f.Cex.Env {
			fmt.Printf("    env %s = %s\n", in.Kind, in.Show)
		}
		for _, x := range f.Native.Inputs {
			if strings.Contains(x, "goroutine ") {
				fmt.Println(indent(x))
			}
		}
		if f.Native.Races != "" {
			fmt.Println(indent(f.Native.Races))
		}
		rc = 1
	}
	if *verbose {
		for _, s := range inconclusive {
			fmt.Fprintln(os.Stderr, "inconclusive:", s)
		}
	}
	if *prop != "" && *only == "" {
		writeEvidence(*root, *prop, *tier, seed, runs, nviol, validated, inconclusive, t0, tload, nat)
	}
	tot := summary(runs)
	fmt.Printf("%s tier=%s harnesses=%d paths=%d asserts_proved=%d trivially=%d unknown=%d queries=%d solver_s=%.1f validated=%d unsupported=%d budget=%d inconclusive=%d violations=%d wall=%.1fs\n",
		*prop, *tier, len(runs), tot.paths, tot.proved, tot.trivial, tot.unknown, stats.queries, float64(stats.solverNS)/1e9, validated, tot.unsup, tot.budget, len(inconclusive), nviol, time.Since(t0).Seconds())
	exit(rc)
}

func indent(s string) string {
	return "    | " + strings.ReplaceAll(strings.TrimSpace(s), "\n", "\n    | ")
}

func natMsg(r NatResult) string {
	if r.Status == "panic" {
		return "panic: " + strings.TrimPrefix(r.Msg, "panic: ")
	}
	return r.Msg
}

// replayCands runs the candidates of one assertion against the real code.
func replayCands(nat *Native, r *Run, st *AssertStat, writeCase func(*Cex) string, sem chan struct{}) (*Finding, string) {
	sem <- struct{}{}
	defer func() { <-sem }()
	why := "no candidate"
	for _, cx := range st.cands {
		file := writeCase(cx)
		if cx.Race {
			if f := replayRace(nat, cx, file); f != nil {
				return f, ""
			}
			why = "race candidate not confirmed by the race detector"
			continue
		}
		res := nat.run(nat.bin, file)
		cx.Native = res.Status
		switch res.Status {
		case "fail", "panic", "loop":
			return &Finding{Harness: r.h.Name, Msg: natMsg(res), Cex: cx, Native: res}, ""
		case "hang":
			if strings.Contains(cx.Msg, "deadlock") {
				return &Finding{Harness: r.h.Name, Msg: cx.Msg, Cex: cx, Native: res}, ""
			}
		}
		why = "native replay: " + res.Status + " " + res.Msg
	}
	// the native scheduler is not under control: delay synchronisation operations
	for i, cx := range st.cands {
		if len(cx.Sched) == 0 || i >= 2 {
			continue
		}
		res := nat.run(nat.bin, writeCase(cx), "jitter", "1000")
		if res.Status == "fail" || res.Status == "panic" || res.Status == "hang" && strings.Contains(cx.Msg, "deadlock") {
			cx.Native = "delayed " + res.Status
			return &Finding{Harness: r.h.Name, Msg: natMsg(res), Cex: cx, Native: res}, ""
		}
	}
	// the model is exact over the reals but not over float64: look for a float
	// counterexample next to the solver's
	if r.h.Mode != ThBits {
		for i, cx := range st.cands {
			if cx.Race || i >= 3 {
				continue
			}
			res := nat.run(nat.bin, writeCase(cx), "2000")
			if res.Status == "fail" || res.Status == "panic" {
				cx.Native = "near " + res.Status
				return &Finding{Harness: r.h.Name, Msg: natMsg(res), Cex: cx, Native: res}, ""
			}
		}
	}
	return nil, why
}

var raceOnce sync.Mutex

func replayRace(nat *Native, cx *Cex, file string) *Finding {
	raceOnce.Lock()
	if nat.raceBin == "" && nat.raceErr == nil {
		nat.raceBin, nat.raceErr = nat.build(true)
		if nat.raceErr != nil {
			fmt.Fprintln(os.Stderr, "race build:", nat.raceErr)
		}
	}
	raceOnce.Unlock()
	if nat.raceErr != nil {
		return nil
	}
	orders := []string{"0", "1", "2", "realrand"}
	if len(cx.Sched) > 0 {
		orders = append([]string{"0"}, "jitter")
	}
	for _, order := range orders {
		var args []string
		if order == "jitter" {
			args = []string{"jitter", "100"}
		}
		env := []string{"VH_ORDER=" + order, "GORACE=halt_on_error=0"}
		if order == "realrand" {
			env = []string{"VH_ORDER=2", "VH_REALRAND=1", "GORACE=halt_on_error=0"}
			args = []string{"jitter", "100"}
		}
		res := nat.runEnv(nat.raceBin, env, file, args...)
		if res.Races != "" {
			return &Finding{Harness: cx.Harness, Msg: cx.Msg, Cex: cx, Native: res}
		}
		if order != "realrand" && (res.Status == "panic" || res.Status == "fail") {
			return &Finding{Harness: cx.Harness, Msg: natMsg(res), Cex: cx, Native: res}
		}
	}
	return nil
}

type sums struct{ paths, infeasible, branches, proved, trivial, unknown, unsup, budget, asserts, steps int64 }

func summary(runs []*Run) (t sums) {
	for _, r := range runs {
		t.paths += r.paths
		t.infeasible += r.infeasible
		t.branches += r.branches
		t.steps += r.steps
		for _, st := range r.astats {
			t.proved += st.Proved
			t.trivial += st.Trivial
			t.unknown += st.Unknown
		}
		t.unsup += r.unsupportedN
		t.budget += r.budgetN
		for _, n := range r.engineErrs {
			t.unsup += int64(n)
		}
		for m, n := range r.budget {
			if m == "exploration budget exhausted" {
				t.budget += int64(n)
			}
		}
	}
	return
}

func (r *Run) report(w *os.File) {
	fmt.Fprintf(w, "== %s [%v]: %d paths, %d infeasible, %d equivalent, %d pushed, %d steps, %.1fs\n", r.h.Name, r.h.Mode, r.paths, r.infeasible, r.merged, r.branches, r.steps, r.wall.Seconds())
	if forkStat != nil {
		dumpForks()
	}
	for _, k := range sortedKeys(r.astats) {
		s := r.astats[k]
		if s.Failed == 0 && s.Unknown == 0 && os.Getenv("VH_ALL") == "" {
			continue
		}
		fmt.Fprintf(w, "   assert %q: proved %d trivial %d failed %d unknown %d\n", k, s.Proved, s.Trivial, s.Failed, s.Unknown)
	}
	for _, k := range sortedKeys(r.unsupported) {
		fmt.Fprintf(w, "   UNSUPPORTED x%d %s\n", r.unsupported[k], k)
	}
	for _, k := range sortedKeys(r.budget) {
		fmt.Fprintf(w, "   BUDGET x%d %s\n", r.budget[k], k)
	}
	for _, k := range sortedKeys(r.engineErrs) {
		fmt.Fprintf(w, "   ENGINE x%d %s\n", r.engineErrs[k], k)
	}
	if len(r.covers) > 0 {
		fmt.Fprintf(w, "   covers %v\n", sortedKeys(r.covers))
	}
	if os.Getenv("VH_NOTES") != "" {
		for _, k := range sortedKeys(r.notes) {
			fmt.Fprintf(w, "   note %s\n", k)
		}
		fmt.Fprintf(w, "   stubs %v\n", sortedKeys(r.stubsUsed))
	}
	if len(solverErrs) > 0 {
		fmt.Fprintf(w, "   solver errors %v\n", solverErrs)
	}
}

func writeEvidence(root, prop, tier string, seed int, runs []*Run, nviol, validated int, inconclusive []string, t0 time.Time, tload time.Duration, nat *Native) {
	t := summary(runs)
	funcs := map[string]int{}
	stubs := map[string]bool{}
	notes := map[string]bool{}
	var hs []map[string]any
	var samples []any
	for _, r := range runs {
		for f, n := range r.funcs {
			funcs[f] += n
		}
		for s := range r.stubsUsed {
			stubs[s] = true
		}
		for s := range r.notes {
			notes[s] = true
		}
		as := map[string]any{}
		for k, s := range r.astats {
			as[k] = map[string]int64{"discharged_by_solver": s.Proved, "true_by_simplification": s.Trivial, "failed": s.Failed, "unknown": s.Unknown}
		}
		hs = append(hs, map[string]any{
			"harness": r.h.Name, "bounds": r.h.Doc, "arithmetic": r.h.Mode.String(), "paths": r.paths, "infeasible_prefixes": r.infeasible, "equivalent_schedules": r.merged,
			"ssa_instructions": r.steps, "assertions": as, "covered_states": sortedKeys(r.covers), "unsupported": r.unsupported, "budget": r.budget, "engine_errors": r.engineErrs,
			"wall_s": r.wall.Seconds(),
		})
		for i, s := range r.samples {
			if i >= 2 || len(samples) >= 12 {
				break
			}
			samples = append(samples, s)
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no path model was sampled in this run")
	}
	var repo []string
	for _, f := range sortedKeys(funcs) {
		if strings.Contains(f, "mmadfox/go-gpsgen") {
			repo = append(repo, f)
		}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": t.paths, "transitions": t.branches, "traces_validated_against_impl": validated, "samples": samples,
			"ssa_instructions_executed": t.steps, "infeasible_prefixes": t.infeasible,
			"functions_encoded": repo, "functions_encoded_total": len(funcs), "modelled_externals": sortedKeys(stubs),
			"assertions_discharged_by_solver": t.proved, "assertions_true_by_simplification": t.trivial, "assertions_unknown": t.unknown,
			"queries": stats.queries, "query_cache_hits": stats.cacheHits, "sat": stats.sat, "unsat": stats.unsat, "unknown": stats.unknown,
			"cross_checked_unsat": stats.crossChecked, "solver_disagreements": stats.crossDisagree, "solver_errors": solverErrs,
			"solver_s": float64(stats.solverNS) / 1e9, "answers_z3": stats.byZ3, "answers_cvc5": stats.byCVC5,
			"load_s": tload.Seconds(), "native_build_s": nat.wall.Seconds(),
			"harnesses": hs, "inconclusive_candidates": inconclusive,
			"exhaustive_within_bounds": t.unsup == 0 && t.budget == 0 && t.unknown == 0,
		},
		"assumptions": append([]string{}, sortedKeys(notes)...), "wall_s": time.Since(t0).Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(root, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}
