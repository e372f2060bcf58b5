// Command verifchk decides the properties in ../properties.jsonl from the source of
// /repo: it loads and type-checks the current tree, builds SSA and analyses it.
// Nothing of /repo is executed.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is one violated obligation. Key identifies it by rule and construct, not by line.
type Finding struct {
	Key  string
	Pos  string
	Text string
}

// Report is what a check returns.
type Report struct {
	Findings    []Finding
	Obligations int            // obligations generated on this run
	Analysed    map[string]int // measured counts (functions, call sites, ...)
	Samples     []string
	Rule        string
	Assumptions []string
	Undecided   []string // entry points the analysis could not decide on this run
}

func newReport(rule string) *Report {
	return &Report{Rule: rule, Analysed: map[string]int{}}
}

func (r *Report) fail(key, pos, format string, a ...interface{}) {
	r.Findings = append(r.Findings, Finding{key, pos, fmt.Sprintf(format, a...)})
}

func (r *Report) sample(format string, a ...interface{}) {
	if len(r.Samples) < 40 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, a...))
	}
}

// floor records a minimum number of rule instances, below which the rule would pass vacuously.
func (r *Report) floor(what string, n int) {
	if r.Analysed[what] < n {
		r.undecided("floor:"+what, fmt.Sprintf("only %d instances of %q found, expected at least %d: the rule does not see the code it is about", r.Analysed[what], what, n))
	}
}

type checkFn func(p *Program) *Report

var checks = map[string]checkFn{}

var verifDir = "/verif"

var debugOn = os.Getenv("VERIF_DEBUG") != ""

func main() {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verifchk PROPERTY|all")
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	if f := os.Getenv("VERIF_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() { time.Sleep(40 * time.Second); pprof.StopCPUProfile() }()
		defer pprof.StopCPUProfile()
	}
	ids := os.Args[1:]
	if ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	start := time.Now()
	prog, lerr := loadProgram()
	loadS := time.Since(start).Seconds()
	bad := false
	for _, id := range ids {
		if checks[id] == nil {
			fmt.Fprintf(os.Stderr, "no check for %s\n", id)
			os.Exit(2)
		}
		t0 := time.Now()
		var rep *Report
		if lerr != nil {
			rep = newReport("the source must load and type-check")
			rep.fail("load", "-", "cannot analyse the source: %v", lerr)
		} else {
			rep = guarded(checks[id], prog)
		}
		if !finish(id, rep, loadS+time.Since(t0).Seconds()) {
			bad = true
		}
	}
	if bad {
		os.Exit(1)
	}
}

func guarded(fn checkFn, p *Program) (rep *Report) {
	if os.Getenv("VERIF_PANIC") == "" {
		defer func() {
			if e := recover(); e != nil {
				rep = newReport("the analysis must complete")
				rep.undecided("analysis", fmt.Sprintf("could not be completed: %v\n%s", e, debug.Stack()))
			}
		}()
	}
	return fn(p)
}

type knownFinding struct{ Property, Key, What string }

// Lines of known-findings.txt: "known: property=<id> key=<key> <what fails>" suppress one
// finding each, "fixed: ..." lines suppress nothing.
func loadKnown() []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[0], "property=") && strings.HasPrefix(f[1], "key=") {
			out = append(out, knownFinding{f[0][9:], f[1][4:], f[2]})
		}
	}
	return out
}

func finish(id string, rep *Report, wall float64) bool {
	known := loadKnown()
	var open []Finding
	seen := map[string]bool{}
	for _, f := range rep.Findings {
		isKnown := false
		for _, k := range known {
			if k.Property == id && k.Key == f.Key {
				isKnown = true
				if !seen[k.Key] {
					fmt.Printf("KNOWN-FINDING: property=%s %s [%s] %s\n", id, k.What, f.Pos, f.Key)
				}
				seen[k.Key] = true
			}
		}
		if !isKnown {
			open = append(open, f)
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	samples := rep.Samples
	if len(samples) == 0 {
		samples = []string{}
	}
	cov := map[string]interface{}{
		"explanation": fmt.Sprintf("Static analysis of the current source. Rule: %s. %d obligations were generated from the source, %d failed and %d could not be decided.", rep.Rule, rep.Obligations, len(rep.Findings), len(rep.Undecided)),
		"obligations": rep.Obligations,
		"discharged":  max(0, rep.Obligations-len(rep.Findings)-len(rep.Undecided)),
		"rule":        rep.Rule,
		"analysed":    rep.Analysed,
		"samples":     samples,
		"undecided":   append([]string{}, rep.Undecided...),
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": wall, "violations": len(open),
		"assumptions": append([]string{"the Go type checker and golang.org/x/tools/go/ssa represent the source faithfully", "the standard library behaves as documented"}, rep.Assumptions...),
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	if len(open) == 0 {
		fmt.Printf("OK property=%s obligations=%d analysed=%v wall=%.1fs\n", id, rep.Obligations, rep.Analysed, wall)
		return true
	}
	replay := filepath.Join(verifDir, "evidence", id+".findings.txt")
	var sb strings.Builder
	for _, f := range open {
		fmt.Fprintf(&sb, "[%s] %s\n    %s\n", f.Key, f.Pos, strings.ReplaceAll(f.Text, "\n", "\n    "))
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return false
}

func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }
