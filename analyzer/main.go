package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
)

// A check decides one property.
type check struct {
	explain string
	run     func(w *World, r *Rep)
}

var checks = map[string]check{}

func main() {
	prop := flag.String("prop", "", "property id")
	repo := flag.String("repo", "/repo", "tree to analyse")
	verif := flag.String("verif", "/verif", "where evidence and known findings live")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(8 << 30)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	ids := []string{*prop}
	if *prop == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	stop := startProf()
	rc := 0
	w, err := Load(*repo)
	for _, id := range ids {
		c, ok := checks[id]
		if !ok {
			fmt.Fprintf(os.Stderr, "unknown property %q\n", id)
			os.Exit(2)
		}
		r := NewRep(id, tier)
		if err != nil {
			r.Bad("load", "-", "tree", "-", "the tree cannot be analysed: %v", err)
		} else {
			guarded(r, func() { c.run(w, r) })
		}
		if n := r.Finish(*verif, c.explain); n > rc {
			rc = n
		}
	}
	stop()
	os.Exit(rc)
}

// guarded turns a failure of the analyser itself into an undecided verdict.
func guarded(r *Rep, f func()) {
	defer func() {
		if e := recover(); e != nil {
			r.Bad("analysis", "-", "internal", "-", "the analysis failed: %v\n%s", e, debug.Stack())
		}
	}()
	f()
}
