package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Obls collects obligations per construct: one holds when it holds on every
// path that reaches it.
type Obls struct {
	w   *World
	r   *Rep
	st  map[string]*obState
	ord []string
}

func newObls(w *World, r *Rep) *Obls { return &Obls{w: w, r: r, st: map[string]*obState{}} }

func (p *Obls) need(fr *Frame, in ssa.Instruction, rule, construct string, ok bool, format string, a ...any) {
	k := fmt.Sprintf("%s|%s|%p", rule, construct, in)
	s := p.st[k]
	if s == nil {
		s = &obState{rule: rule, fn: fnName(in.Parent()), construct: construct, pos: p.w.InstrPos(in)}
		p.st[k] = s
		p.ord = append(p.ord, k)
	}
	s.paths++
	if !ok && !s.bad {
		s.bad = true
		s.msg = fmt.Sprintf(format, a...)
		if fr != nil && fr.parent != nil {
			s.msg += " (reached from " + fnName(fr.parent.fn) + ")"
		}
	}
}

func (p *Obls) finish() {
	sort.SliceStable(p.ord, func(i, j int) bool { return p.st[p.ord[i]].pos < p.st[p.ord[j]].pos })
	for _, k := range p.ord {
		s := p.st[k]
		p.r.Visit(s.fn)
		if s.bad {
			p.r.Bad(s.rule, s.fn, s.construct, s.pos, "%s", s.msg)
			continue
		}
		p.r.OK(s.rule)
		p.r.Sample(s.rule, "%s in %s at %s holds on %d paths", s.construct, s.fn, s.pos, s.paths)
	}
}
