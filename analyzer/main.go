// Command yarqlcheck decides semantic properties of mjarkk/yarql from its source.
package main

import (
	"fmt"
	"go/token"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"time"

	"yarqlcheck/absint"
)

// check decides one property.
type check struct {
	rule string
	run  func(r *Report)
}

var checks = map[string]check{}

func register(id, rule string, run func(r *Report)) { checks[id] = check{rule, run} }

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: yarqlcheck <property> [quick|thorough]")
		os.Exit(2)
	}
	env := func(name, def string) string {
		if v := os.Getenv(name); v != "" {
			return v
		}
		return def
	}
	repo, verif := env("YARQL_REPO", "/repo"), env("YARQL_VERIF", "/verif")
	tier := "quick"
	if len(os.Args) > 2 && os.Args[2] == "thorough" {
		tier = "thorough"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if p := os.Getenv("CPUPROFILE"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	id := os.Args[1]
	if id == "all" {
		// only for development: every check with one loaded program
		w, err := Load(repo, "")
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		code := 0
		for _, id := range sortedNames(checks) {
			if len(os.Args) > 2 {
				skip := false
				for _, a := range os.Args[2:] {
					skip = skip || a == "-"+id
				}
				if skip {
					continue
				}
			}
			start := time.Now()
			r := &Report{ID: id, Rule: checks[id].rule, Counts: map[string]int{}, seen: map[string]bool{}}
			run(r, checks[id], w)
			if c := r.Finish(verif, tier, seed, time.Since(start).Seconds()); c != 0 {
				code = c
			}
		}
		pprof.StopCPUProfile()
		os.Exit(code)
	}
	c, ok := checks[id]
	if !ok {
		fmt.Println("unknown property", id)
		os.Exit(2)
	}
	start := time.Now()
	r := &Report{ID: id, Rule: c.rule, Counts: map[string]int{}, seen: map[string]bool{}}
	configs := []string{""}
	if tier == "thorough" {
		// other targets have other files, and other sizes of int
		configs = append(configs, "windows/amd64", "linux/386", "darwin/arm64")
	}
	for _, cfg := range configs {
		w, err := Load(repo, cfg)
		if err != nil {
			r.Bad(nil, token.NoPos, "load", "load", "the repository cannot be analysed (%s): %v", cfg, err)
			continue
		}
		run(r, c, w)
	}
	if r.W != nil {
		r.W.Configs = len(configs)
	}
	code := r.Finish(verif, tier, seed, time.Since(start).Seconds())
	pprof.StopCPUProfile()
	os.Exit(code)
}

// maxTime is what a check gets for one configuration.
const maxTime = 10 * time.Minute

func run(r *Report, c check, w *World) {
	defer func() {
		if e := recover(); e != nil {
			f := r.Bad(nil, token.NoPos, "undecided", "panic", "the analysis could not be completed: %v", e)
			f.Trace = []string{string(debug.Stack())}
			// states are only added, so what was found so far stays true
			for _, e := range absint.Engines {
				r.engineFindings(e)
			}
		}
	}()
	r.W = w
	w.Configs = 1
	absint.Engines = nil
	absint.Deadline = time.Now().Add(maxTime)
	c.run(r)
}
