package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"time"
)

type checkFn func(w *World, r *Result, thorough bool)

type check struct {
	id      string
	level   string
	explain string
	run     checkFn
}

var checks = map[string]check{}

func register(id, level, explain string, fn checkFn) {
	checks[id] = check{id, level, explain, fn}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: jxlsa PROPERTY|all [repo]")
		os.Exit(2)
	}
	repo := "/repo"
	if len(os.Args) > 2 {
		repo = os.Args[2]
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	verif, _ = filepath.Abs(verif)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ids := []string{os.Args[1]}
	if os.Args[1] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	rc := 0
	var w *World
	for _, id := range ids {
		c, ok := checks[id]
		if !ok {
			fmt.Fprintf(os.Stderr, "no check for %s\n", id)
			os.Exit(2)
		}
		start := time.Now()
		r := NewResult(c.explain)
		func() {
			defer func() {
				if e := recover(); e != nil {
					// undecided counts as a violation: the rule could not be
					// established on this tree
					if f, ok := e.(fatal); ok {
						r.Add("undecided", "?", "analysis could not be completed: %s", f.msg)
					} else {
						r.Add("undecided", "?", "analysis failed: %v", e)
						fmt.Fprintf(os.Stderr, "%s\n", debug.Stack())
					}
				}
			}()
			if w == nil {
				w = Load(repo)
			}
			c.run(w, r, tier == "thorough")
		}()
		if len(ids) > 1 {
			fmt.Printf("== %s\n", id)
		}
		if finish(verif, id, tier, seed, c.level, r, start) != 0 {
			rc = 1
		}
	}
	os.Exit(rc)
}
