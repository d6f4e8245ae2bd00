package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loopKey identifies a loop.
type loopKey struct {
	fn *ssa.Function
	h  *ssa.BasicBlock
}

// ranker collects, per loop, the measures that work on every back edge.
type ranker struct {
	h     *Houdini
	loops map[loopKey]map[string]bool
	seen  map[loopKey]int
	lenM  map[loopKey]string
}

func newRanker(h *Houdini) *ranker {
	return &ranker{h: h, loops: map[loopKey]map[string]bool{}, seen: map[loopKey]int{}}
}

func hasNext(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

// back is called on every back edge.
func (rk *ranker) back(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term, st *loopSt, li *loopInfo) {
	k := loopKey{fr.fn, a.header}
	rk.seen[k]++
	if rk.exits(x, fr, a, next) {
		return // the loop condition is false on this edge
	}
	good := map[string]bool{}
	if hasNext(a.header) {
		good["range"] = true
	}
	for _, m := range li.ms {
		cur, ok1 := m.at(st, 1)
		nx, ok2 := m.at(st, 2)
		if !ok1 || !ok2 {
			continue
		}
		if x.EntailsSplit(nx.sub(cur).plus(-1)) && rk.boundedBy(x, a, cur, st) {
			good["up "+m.name] = true
		}
		if x.EntailsSplit(cur.sub(nx).plus(-1)) && (m.slice || x.Entails(cur.plus(huge))) {
			good["down "+m.name] = true
		}
	}
	for i := a.mark; i < len(x.Events); i++ {
		e := x.Events[i]
		if e.Kind == "call" && strings.HasSuffix(e.Name, "Iterator).Next") && rk.iterGuard(x, a, e.Args[0]) {
			good["iterator"] = true
		}
		if e.Kind == "call" && e.Name == "(*reflect.MapIter).Next" && e.Res != nil && rk.invariant(x, a, e.Args[0]) && !grows(x.Events[a.mark:]) {
			if more, known := x.Eval(e.Res); known && more {
				good["map iterator"] = true
			}
		}
	}
	if rk.loops[k] == nil {
		rk.loops[k] = good
		return
	}
	for m := range rk.loops[k] {
		if !good[m] {
			delete(rk.loops[k], m)
		}
	}
}

// grows: a map may get new entries, or an iterator may start again.
func grows(evs []*Event) bool {
	for _, e := range evs {
		if e.Kind == "call" && (strings.HasSuffix(e.Name, ".SetMapIndex") || e.Name == "(*reflect.MapIter).Reset") {
			return true
		}
	}
	return false
}

// iterGuard: the turn began by asking the same iterator for more.
func (rk *ranker) iterGuard(x *Exec, a *loopAct, it *Term) bool {
	for i := a.mark; i < len(x.Events); i++ {
		e := x.Events[i]
		if e.Kind == "call" && strings.HasSuffix(e.Name, "Iterator).HasMore") && iterBase(e.Args[0]) == iterBase(it) && e.Res != nil {
			if v, known := x.Eval(e.Res); known && v {
				return true
			}
		}
	}
	return false
}

// exits: the header's own test fails with the next values.
func (rk *ranker) exits(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) bool {
	b := a.header
	body := x.info(fr.fn).loops[b]
	for n := 0; n < 4; n++ {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		v, neg := ifi.Cond, false
		for {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op.String() != "!" {
				break
			}
			v, neg = u.X, !neg
		}
		ph, ok := v.(*ssa.Phi)
		if !ok || next[ph] == nil {
			return false
		}
		val, known := x.Eval(next[ph])
		if !known {
			return false
		}
		i := 0
		if val == neg {
			i = 1
		}
		if !body[b.Succs[i]] {
			return true
		}
		b = b.Succs[i]
		for _, in := range b.Instrs[:len(b.Instrs)-1] {
			if _, ok := in.(*ssa.Store); ok {
				return false
			}
		}
	}
	return false
}

// boundedBy: the measure cannot exceed a number or a value the loop does not
// change.
func (rk *ranker) boundedBy(x *Exec, a *loopAct, cur Lin, st *loopSt) bool {
	if x.Entails(cur.neg().plus(1 << 20)) {
		return true
	}
	seen := map[*Term]bool{}
	for _, l := range x.relevant(cur) {
		for _, v := range l.v {
			if seen[v.t] || !rk.invariant(x, a, v.t) {
				continue
			}
			seen[v.t] = true
			if x.Entails(linVar(v.t).sub(cur).plus(1)) {
				return true
			}
		}
	}
	return false
}

// invariant: the term denotes the same value on every turn.
func (rk *ranker) invariant(x *Exec, a *loopAct, t *Term) bool {
	return !t.any(func(u *Term) bool {
		for _, c := range a.cur {
			if c == u {
				return true
			}
		}
		switch u.op {
		case OFresh:
			return u.num > a.fresh
		case OCall:
			return u.num > a.frame
		case OLoad:
			if x.before(a, u) {
				return false
			}
			addr := u.args[0]
			if addr.op == OAlloc && x.private(addr) {
				return len(a.mods.allocs[addr.val]) > 0
			}
			if a.mods.all {
				return true
			}
			var key string
			switch addr.op {
			case OFieldAddr:
				key = fieldKey(addr.args[0].typ, addr.num)
			case OIndexAddr:
				key = "E:" + typeKey(deref(addr.typ))
			case OGlobal:
				key = "G:" + addr.aux
			default:
				key = "D:" + typeKey(deref(addr.typ))
			}
			if r := addrRoot(addr); r.op == OAlloc && (a.mods.allocs[r.val][key] || a.mods.allocs[r.val]["*"]) {
				return true
			}
			return a.mods.keys[key]
		}
		return false
	})
}

func (rk *ranker) report(w *World, r *Rep, fns []*ssa.Function) {
	for _, fn := range fns {
		for hd := range findLoops(fn) {
			k := loopKey{fn, hd}
			pos := w.InstrPos(hd.Instrs[0])
			name := loopName(hd)
			if rk.seen[k] == 0 {
				r.OK("loop never repeats")
				continue
			}
			ms := rk.loops[k]
			if ms != nil && len(ms) == 0 {
				r.Bad("loop", fnName(fn), name, pos, "no integer or length measure advances towards a fixed bound on every turn of this loop: it may not terminate")
				continue
			}
			r.OK("loop")
			var l []string
			for m := range ms {
				l = append(l, m)
			}
			sort.Strings(l)
			r.Sample("loop", "%s at %s ranked by %s", fnName(fn), pos, strings.Join(l, ", "))
		}
	}
}

func loopName(b *ssa.BasicBlock) string {
	var ns []string
	for _, in := range b.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			ns = append(ns, phiName(ph))
		}
	}
	return "loop over " + strings.Join(ns, ",") + " (" + b.Comment + ")"
}

// --- recursion ----------------------------------------------------------------

type recMeasure struct {
	fn   *ssa.Function
	desc string
	dec  bool
}

type recEdge struct {
	from, to *ssa.Function
	m, n     string
}

// recursion collects, per recursive call, how measures change.
type recursion struct {
	h     *Houdini
	scc   map[*ssa.Function]int
	rec   map[int]bool
	edges map[[2]*ssa.Function]map[[2]string]int // measure pair -> 1 kept, 2 strict; missing 0
	sites map[[2]*ssa.Function]string
	cnt   map[[2]*ssa.Function]int
}

func newRecursion(h *Houdini) *recursion {
	rc := &recursion{h: h, scc: map[*ssa.Function]int{}, rec: map[int]bool{}, edges: map[[2]*ssa.Function]map[[2]string]int{},
		sites: map[[2]*ssa.Function]string{}, cnt: map[[2]*ssa.Function]int{}}
	succ := map[*ssa.Function][]*ssa.Function{}
	for _, f := range h.order {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, t := range h.w.Targets(ci.Common()) {
						if h.scope[t] {
							succ[f] = append(succ[f], t)
							if t == f {
								rc.rec[-1] = true
							}
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					succ[f] = append(succ[f], mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	// Tarjan
	idx, low, n, id := map[*ssa.Function]int{}, map[*ssa.Function]int{}, 0, 0
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		for _, g := range succ[f] {
			if idx[g] == 0 {
				visit(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && idx[g] < low[f] {
				low[f] = idx[g]
			}
		}
		if low[f] == idx[f] {
			id++
			size := 0
			self := false
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				rc.scc[g] = id
				size++
				for _, s := range succ[g] {
					if s == g {
						self = true
					}
				}
				if g == f {
					break
				}
			}
			if size > 1 || self {
				rc.rec[id] = true
			}
		}
	}
	for _, f := range h.order {
		if idx[f] == 0 {
			visit(f)
		}
	}
	return rc
}

func (rc *recursion) recursive(f, g *ssa.Function) bool {
	return rc.scc[f] == rc.scc[g] && rc.rec[rc.scc[f]]
}

// measures of a function: integer fields of pointed-to structs and integer
// parameters (rising), lengths of sequence parameters (falling).
func (rc *recursion) vals(x *Exec, s *Sum, args []*Term, pre []*Term) map[string]Lin {
	out := map[string]Lin{}
	for i, f := range s.fields {
		out[fmt.Sprintf("+%s.%d", typeKey(deref(f.ptr)), f.field)] = x.Lin(pre[i])
	}
	for i, p := range s.key.fn.Params {
		if isInt(p.Type()) {
			out[fmt.Sprintf("+p%d", i)] = x.Lin(args[i])
		}
		if isSeq(p.Type()) {
			out[fmt.Sprintf("-len%d", i)] = x.Lin(x.LenOf(args[i]))
		}
	}
	return out
}

func (rc *recursion) call(x *Exec, c *Call, ts []*ssa.Function) {
	h := rc.h
	from := h.cur.key.fn
	for _, t := range ts {
		if !rc.recursive(from, t) {
			continue
		}
		e := [2]*ssa.Function{from, t}
		rc.sites[e] = h.w.InstrPos(c.Instr.(ssa.Instruction))
		rc.cnt[e]++
		s := h.sum(t, "")
		args := c.Args
		entry := rc.vals(x, h.cur, h.curArgs, h.curPre)
		// the same object must be passed on for its fields to count
		now := map[string]Lin{}
		for k, v := range rc.vals(x, s, args, h.fieldVals(x, s, args)) {
			now[k] = v
		}
		same := func(name string) bool {
			for _, f := range s.fields {
				if fmt.Sprintf("+%s.%d", typeKey(deref(f.ptr)), f.field) != name {
					continue
				}
				for _, g := range h.cur.fields {
					if g.field == f.field && types.Identical(g.ptr, f.ptr) && h.curArgs[g.param] == args[f.param] {
						return true
					}
				}
				return false
			}
			return true
		}
		got := map[[2]string]int{}
		for m, v0 := range entry {
			for n, v1 := range now {
				if m[0] != n[0] || !same(n) {
					continue
				}
				up := v1.sub(v0)
				if m[0] == '-' {
					up = up.neg()
				}
				lv := 0
				if x.EntailsSplit(up) {
					lv = 1
					bound := v1
					if m[0] == '-' {
						bound = v0
					}
					if x.EntailsSplit(up.plus(-1)) && x.Entails(bound.neg().plus(h.limit)) {
						lv = 2
					}
				}
				if lv > 0 {
					got[[2]string{m, n}] = lv
				}
			}
		}
		old, ok := rc.edges[e]
		if !ok {
			rc.edges[e] = got
			continue
		}
		for k, lv := range old {
			if got[k] < lv {
				if got[k] == 0 {
					delete(old, k)
				} else {
					old[k] = got[k]
				}
			}
		}
	}
}

func (rc *recursion) report(r *Rep) {
	groups := map[int][]*ssa.Function{}
	for _, f := range rc.h.order {
		if rc.rec[rc.scc[f]] {
			groups[rc.scc[f]] = append(groups[rc.scc[f]], f)
		}
	}
	var ids []int
	for id := range groups {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		fs := groups[id]
		var es [][2]*ssa.Function
		for e := range rc.edges {
			if rc.scc[e[0]] == id {
				es = append(es, e)
			}
		}
		if len(es) == 0 {
			r.OK("recursion never taken")
			continue
		}
		sort.Slice(es, func(i, j int) bool { return fnName(es[i][0])+fnName(es[i][1]) < fnName(es[j][0])+fnName(es[j][1]) })
		cands := map[*ssa.Function][]string{}
		var used []*ssa.Function
		for _, f := range fs {
			set := map[string]bool{}
			any := false
			for _, e := range es {
				if e[0] == f || e[1] == f {
					any = true
				}
				for k := range rc.edges[e] {
					if e[0] == f {
						set[k[0]] = true
					}
					if e[1] == f {
						set[k[1]] = true
					}
				}
			}
			if any {
				used = append(used, f)
				for m := range set {
					cands[f] = append(cands[f], m)
				}
				sort.Strings(cands[f])
			}
		}
		pick := map[*ssa.Function]string{}
		tries := 0
		var solve func(i int) bool
		solve = func(i int) bool {
			tries++
			if tries > 200000 {
				return false
			}
			for _, e := range es {
				m, ok1 := pick[e[0]]
				n, ok2 := pick[e[1]]
				if ok1 && ok2 && rc.edges[e][[2]string{m, n}] == 0 {
					return false
				}
			}
			if i == len(used) {
				return !rc.cycleWithoutProgress(es, pick)
			}
			for _, m := range cands[used[i]] {
				pick[used[i]] = m
				if solve(i + 1) {
					return true
				}
			}
			delete(pick, used[i])
			return false
		}
		var names []string
		for _, f := range used {
			names = append(names, fnName(f))
		}
		pos := rc.sites[es[0]]
		if solve(0) {
			r.OK("recursion")
			r.Sample("recursion", "cycle {%s} bounded by %v", strings.Join(names, ", "), pick[used[0]])
		} else {
			r.Bad("recursion", names[0], "cycle "+strings.Join(names, " -> "), pos,
				"this recursive cycle passes no counter that is increased and compared with a constant (at most %d) and no sequence of bounded length that shrinks: the nesting of the input decides the depth of the stack", rc.h.limit)
		}
	}
}

func (rc *recursion) cycleWithoutProgress(es [][2]*ssa.Function, pick map[*ssa.Function]string) bool {
	adj := map[*ssa.Function][]*ssa.Function{}
	for _, e := range es {
		if rc.edges[e][[2]string{pick[e[0]], pick[e[1]]}] < 2 {
			adj[e[0]] = append(adj[e[0]], e[1])
		}
	}
	state := map[*ssa.Function]int{}
	var dfs func(f *ssa.Function) bool
	dfs = func(f *ssa.Function) bool {
		state[f] = 1
		for _, g := range adj[f] {
			if state[g] == 1 || state[g] == 0 && dfs(g) {
				return true
			}
		}
		state[f] = 2
		return false
	}
	for f := range adj {
		if state[f] == 0 && dfs(f) {
			return true
		}
	}
	return false
}

func runC02(w *World, r *Rep) {
	h := parseHoudini(w, r)
	if h == nil {
		return
	}
	h.Infer()
	rk := newRanker(h)
	rc := newRecursion(h)
	h.Back = rk.back
	h.Call = rc.call
	type post struct{ bad, n int }
	offs := map[string]*post{}
	note := func(what string, ok bool) {
		p := offs[what]
		if p == nil {
			p = &post{}
			offs[what] = p
		}
		p.n++
		if !ok {
			p.bad++
		}
	}
	h.Done = func(x *Exec, s *Sum, args, res []*Term) {
		fn := s.key.fn
		if fn.Name() != "ParseStream" || fn.Pkg != w.Main || len(res) != 3 {
			return
		}
		si, pi := -1, -1
		for i, p := range fn.Params {
			if isByteSeq(p.Type()) {
				si = i
			} else if isInt(p.Type()) {
				pi = i
			}
		}
		if si < 0 || pi < 0 {
			note("signature", false)
			return
		}
		m := x.mark()
		defer x.undo(m)
		if !x.setNil(res[2], true) {
			return
		}
		end, start := x.Lin(res[1]), x.Lin(args[pi])
		note("the end offset is not before the start", x.EntailsSplit(end.sub(start)))
		note("the end offset lies within the input", x.EntailsSplit(x.Lin(x.LenOf(args[si])).sub(end)))
		scalar := true
		for _, t := range w.Containers() {
			if v, known := x.Eval(x.isType(res[0], t)); !known || v {
				scalar = false
			}
		}
		if !scalar {
			note("the end offset of an object or array is after the start", x.EntailsSplit(end.sub(start).plus(-1)))
		}
	}
	h.Check()
	for _, f := range h.order {
		r.Visit(fnName(f))
	}
	for _, f := range h.fallout {
		r.Bad("undecided", f, "paths", "-", "too many paths to decide")
	}
	rk.report(w, r, h.order)
	rc.report(r)
	ps := w.Func("ParseStream")
	for what, p := range offs {
		if p.bad > 0 {
			r.Bad("offset", "ParseStream", what, w.Pos(ps.Pos()), "not established on %d of %d successful return paths: %s", p.bad, p.n, what)
		} else {
			r.OK("offset")
			r.Sample("offset", "ParseStream: %s (%d return paths)", what, p.n)
		}
	}
	r.Assume = append(r.Assume, "the offset given to ParseStream is not negative; lengths in memory are below 2^36", "library functions (strconv, strings, net/url, sort, sortedmap) terminate",
		fmt.Sprintf("a stack of %d activations fits in memory", sizeLimit))
	r.AtLeast("loop", 5)
	r.AtLeast("recursion", 1)
	r.AtLeast("offset", 3)
	r.Notes = append(r.Notes, fmt.Sprintf("%d contracts, %d rounds of inference", len(h.keys), h.rounds))
}
