package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Finding is one violated or undecided obligation.
type Finding struct {
	Rule      string // which rule
	Fn        string // function it is in
	Construct string // what in the function, without line numbers
	Pos       string // file:line
	Msg       string
}

func (f *Finding) Key() string { return f.Rule + "|" + f.Fn + "|" + f.Construct }

// Rep collects what a check did and found.
type Rep struct {
	Prop     string
	Tier     string
	Findings []*Finding
	seen     map[string]bool
	Counts   map[string]int
	Funcs    map[string]bool
	samples  []string
	sampled  map[string]int
	Notes    []string
	Assume   []string
	start    time.Time
}

func NewRep(prop, tier string) *Rep {
	return &Rep{Prop: prop, Tier: tier, seen: map[string]bool{}, Counts: map[string]int{}, Funcs: map[string]bool{}, sampled: map[string]int{}, start: time.Now()}
}

// Bad records a violation once per rule, function and construct.
func (r *Rep) Bad(rule, fn, construct, pos, format string, a ...any) {
	f := &Finding{rule, fn, construct, pos, fmt.Sprintf(format, a...)}
	if r.seen[f.Key()] {
		return
	}
	r.seen[f.Key()] = true
	r.Findings = append(r.Findings, f)
}

// OK counts a discharged obligation of a rule.
func (r *Rep) OK(rule string) { r.Counts[rule]++ }

// Sample keeps a few concrete instances per rule for the evidence.
func (r *Rep) Sample(rule, format string, a ...any) {
	if r.sampled[rule] >= 3 {
		return
	}
	r.sampled[rule]++
	r.samples = append(r.samples, rule+": "+fmt.Sprintf(format, a...))
}

func (r *Rep) Visit(fn string) { r.Funcs[fn] = true }

// AtLeast fails the check when fewer instances than known were found.
func (r *Rep) AtLeast(rule string, n int) {
	if r.Counts[rule] < n {
		r.Bad("instances", "-", rule, "-", "only %d instances of rule %q were found, at least %d were confirmed by hand: the rule no longer matches the code", r.Counts[rule], rule, n)
	}
}

// known reads the committed known findings of a property.
func known(path, prop string) map[string]string {
	out := map[string]string{}
	fh, err := os.Open(path)
	if err != nil {
		return out
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	for sc.Scan() {
		ln := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(ln, "known: property="+prop+" key=") {
			continue
		}
		rest := ln[len("known: property="+prop+" key="):]
		key, desc, _ := strings.Cut(rest, " ;; ")
		out[strings.TrimSpace(key)] = desc
	}
	return out
}

// Finish prints the verdict, writes the evidence and returns the exit code.
func (r *Rep) Finish(verif string, explanation string) int {
	kn := known(filepath.Join(verif, "known_findings.txt"), r.Prop)
	sort.Slice(r.Findings, func(i, j int) bool { return r.Findings[i].Key() < r.Findings[j].Key() })
	var bad []*Finding
	for _, f := range r.Findings {
		d, ok := kn[f.Key()]
		if !ok {
			// identified by what fails, in whichever function it stands
			d, ok = kn[f.Rule+"|*|"+f.Construct]
		}
		if ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", r.Prop, d, f.Key())
			continue
		}
		bad = append(bad, f)
	}
	total := 0
	rules := make([]string, 0, len(r.Counts))
	for k, n := range r.Counts {
		rules = append(rules, k)
		total += n
	}
	sort.Strings(rules)
	funcs := make([]string, 0, len(r.Funcs))
	for f := range r.Funcs {
		funcs = append(funcs, f)
	}
	sort.Strings(funcs)
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	perRule := map[string]int{}
	for _, k := range rules {
		perRule[k] = r.Counts[k]
	}
	cov := map[string]any{
		"explanation":             explanation,
		"obligations":             total + len(r.Findings),
		"discharged":              total,
		"discharged_per_rule":     perRule,
		"functions_analysed":      len(funcs),
		"function_names":          funcs,
		"samples":                 r.samples,
		"notes":                   r.Notes,
		"undischarged_constructs": keysOf(r.Findings),
	}
	ev := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": envInt("VERIF_SEED", 1), "level": "other",
		"coverage": cov, "assumptions": r.Assume, "wall_s": time.Since(r.start).Seconds(), "violations": len(bad),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evdir, r.Prop+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s: %d functions, %d obligations discharged, %d not\n", r.Prop, len(funcs), total, len(bad))
	for _, k := range rules {
		fmt.Printf("  %-34s %d\n", k, r.Counts[k])
	}
	replay := filepath.Join(evdir, r.Prop+".violation.txt")
	if len(bad) == 0 {
		os.Remove(replay)
		return 0
	}
	var sb strings.Builder
	for _, f := range bad {
		fmt.Fprintf(&sb, "%s: %s\n  rule %s in %s (%s)\n  %s\n", r.Prop, f.Pos, f.Rule, f.Fn, f.Construct, f.Msg)
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
	return 1
}

func keysOf(fs []*Finding) []string {
	out := []string{}
	for _, f := range fs {
		out = append(out, f.Key())
	}
	return out
}

func envInt(k string, d int) int {
	var n int
	if _, err := fmt.Sscanf(os.Getenv(k), "%d", &n); err != nil {
		return d
	}
	return n
}
