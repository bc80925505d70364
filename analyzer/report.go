package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Finding is a construct that breaks a rule.
type Finding struct {
	Rule  string   `json:"rule"`
	Func  string   `json:"function"`
	Pos   string   `json:"position"`
	What  string   `json:"construct"` // identifies it besides rule, without line numbers
	Msg   string   `json:"message"`
	Trace []string `json:"trace,omitempty"`
}

// Key identifies a finding in the known-findings file.
func (f *Finding) Key() string { return f.Rule + "|" + f.What }

// Report collects what a check did.
type Report struct {
	W        *World
	ID       string
	Rule     string   // the rule that was applied
	Assume   []string // what the check relies on
	Findings []*Finding
	Counts   map[string]int
	Samples  []string

	obligations, discharged int
	seen                    map[string]bool
}

// Obl counts an obligation that was met or not.
func (r *Report) Obl(ok bool) bool {
	r.obligations++
	if ok {
		r.discharged++
	}
	return ok
}

// Count adds to a counter.
func (r *Report) Count(name string, n int) { r.Counts[name] += n }

// Sample adds an example of an obligation.
func (r *Report) Sample(format string, args ...interface{}) {
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, args...))
	}
}

// Bad reports a violation.
func (r *Report) Bad(fn *ssa.Function, pos token.Pos, rule, what, format string, args ...interface{}) *Finding {
	f := &Finding{Rule: rule, What: what, Msg: fmt.Sprintf(format, args...)}
	if fn != nil {
		f.Func = fn.String()
		if !pos.IsValid() {
			pos = fn.Pos()
		}
	}
	if pos.IsValid() && r.W != nil {
		f.Pos = r.W.Pos(pos)
	}
	k := f.Key() + f.Pos + f.Msg
	if r.seen[k] {
		return f
	}
	r.seen[k] = true
	r.Findings = append(r.Findings, f)
	return f
}

// Need reports a violation if there are less of something than there must be for the check to mean something.
func (r *Report) Need(what string, got, min int) {
	r.Counts[what] = got
	if !r.Obl(got >= min) {
		r.Bad(nil, token.NoPos, "anchor", what, "found %d %s, there must be at least %d for this check to decide anything", got, what, min)
	}
}

type known struct{ ID, Key, What string }

// readKnown reads the file with known findings: lines with "known: property=<id> key=<key> <what fails>".
func readKnown(path string) []known {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	s := bufio.NewScanner(f)
	s.Buffer(nil, 1<<20)
	for s.Scan() {
		rest, ok := strings.CutPrefix(s.Text(), "known: property=")
		if !ok {
			continue
		}
		id, rest, _ := strings.Cut(rest, " ")
		rest, ok = strings.CutPrefix(rest, "key=`")
		if !ok {
			continue
		}
		key, what, ok := strings.Cut(rest, "` ")
		if ok {
			out = append(out, known{id, key, what})
		}
	}
	return out
}

// Finish writes the evidence, prints the result and returns the exit code.
func (r *Report) Finish(verif, tier string, seed int, wall float64) int {
	sort.SliceStable(r.Findings, func(i, j int) bool {
		a, b := r.Findings[i], r.Findings[j]
		if a.Pos != b.Pos {
			return a.Pos < b.Pos
		}
		return a.Msg < b.Msg
	})
	ks := readKnown(filepath.Join(verif, "known_findings.txt"))
	var open []*Finding
	said := map[string]bool{}
	var undecided []string
	for _, f := range r.Findings {
		// an analysis that ran out of its limits found nothing, that's said but isn't a violation
		if f.Rule == "undecided" {
			fmt.Printf("UNDECIDED: property=%s %s\n", r.ID, f.Msg)
			undecided = append(undecided, f.Msg)
			continue
		}
		match := false
		for _, k := range ks {
			if k.ID == r.ID && k.Key == f.Key() {
				match = true
				if !said[k.Key] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, k.What)
					said[k.Key] = true
				}
			}
		}
		if !match {
			open = append(open, f)
		}
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	replay := filepath.Join(dir, r.ID+".replay.json")
	os.Remove(replay)
	cov := map[string]interface{}{
		"explanation": r.Rule,
		"obligations": r.obligations,
		"discharged":  r.discharged,
		"samples":     r.Samples,
	}
	for k, n := range r.Counts {
		cov[strings.ReplaceAll(k, " ", "_")] = n
	}
	if r.W != nil {
		cov["packages"] = len(r.W.Pkgs)
		cov["functions_in_scope"] = len(r.W.functions())
		cov["configurations"] = r.W.Configs
	}
	if len(r.Samples) == 0 {
		delete(cov, "samples")
	}
	var fs []string
	for _, f := range open {
		fs = append(fs, fmt.Sprintf("%s: %s: %s: %s", f.Pos, f.Func, f.Rule, f.Msg))
	}
	if len(undecided) > 0 {
		cov["undecided"] = undecided
	}
	if len(fs) > 0 {
		cov["violating_constructs"] = fs
	}
	ev := map[string]interface{}{
		"property": r.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": wall, "violations": len(open),
	}
	if len(r.Assume) > 0 {
		ev["assumptions"] = r.Assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, r.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
	}
	if len(open) == 0 {
		if len(undecided) > 0 {
			fmt.Printf("%s: not decided completely, no violation found in what was: %d of %d obligations discharged in %.1fs\n", r.ID, r.discharged, r.obligations, wall)
			return 0
		}
		fmt.Printf("%s: held: %d of %d obligations discharged in %.1fs\n", r.ID, r.discharged, r.obligations, wall)
		return 0
	}
	b, _ = json.MarshalIndent(map[string]interface{}{
		"property": r.ID, "rule": r.Rule, "findings": open,
		"replay": "bash /verif/check.sh " + r.ID + " " + tier,
	}, "", " ")
	os.WriteFile(replay, append(b, '\n'), 0o644)
	for _, f := range open {
		fmt.Printf("%s: %s: [%s] %s\n", f.Pos, f.Func, f.Rule, f.Msg)
		for _, t := range f.Trace {
			fmt.Println("    " + t)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, replay)
	return 1
}
