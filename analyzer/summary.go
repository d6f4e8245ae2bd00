package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Modular analysis with inferred contracts. Every function in scope is
// interpreted on its own; calls are answered by the callee's contract. Pre- and
// postconditions and loop invariants are guessed from templates and every guess
// that cannot be established anywhere is dropped, until what is left is
// inductive. Small functions without loops are followed instead.

// Cand is a candidate fact about a function or a loop.
type Cand struct {
	key  string
	cond string // "", "E" error result nil, "T"/"F" boolean result true/false
	dead bool
	lin  func(a *cargs) Lin
	nn   func(a *cargs) *Term // non-nil claim about a term
	nd   func(a *cargs) *Term // claim that a node is not a container
}

// cargs instantiates a candidate.
type cargs struct {
	x    *Exec
	args []*Term
	res  []*Term
	pre  []*Term // values of tracked fields at entry
	post []*Term // and at exit
}

// LoopCand is a candidate loop invariant.
type LoopCand struct {
	key  string
	dead bool
	lin  func(s *loopSt, which int) (Lin, bool)
	nn   *ssa.Phi
}

type measure struct {
	name  string
	slice bool
	// value at 0: entry, 1: header, 2: back edge
	at func(s *loopSt, which int) (Lin, bool)
}

type loopSt struct {
	x     *Exec
	fr    *Frame
	act   *loopAct
	next  map[*ssa.Phi]*Term
	fixed map[string]Lin // entry values of cells
}

type loopInfo struct {
	ms    []*measure
	cands []*LoopCand
}

type sumKey struct {
	fn  *ssa.Function
	ctx string
}

// Sum is the contract of a function in a context.
type Sum struct {
	key     sumKey
	pres    []*Cand
	posts   []*Cand
	loops   map[*ssa.BasicBlock]*loopInfo
	fields  []fieldRef
	errI    int
	boolI   int
	dirty   bool
	callers map[*Sum]bool
	runs    int
}

// drop removes a candidate that could not be established.
func (h *Houdini) drop(dead *bool, s *Sum, post bool) {
	*dead = true
	h.changed = true
	if post {
		for c := range s.callers {
			c.dirty = true
		}
		return
	}
	s.dirty = true
}

type fieldRef struct {
	param, field int
	ptr          types.Type
	typ          types.Type
}

// Houdini runs the inference.
type Houdini struct {
	w       *World
	ts      *Terms
	scope   map[*ssa.Function]bool
	order   []*ssa.Function
	roots   map[*ssa.Function]bool
	sums    map[sumKey]*Sum
	keys    []sumKey
	changed bool
	final   bool
	small   map[*ssa.Function]int // 0 unknown, 1 small, 2 not
	inlined map[*ssa.Function]bool
	called  map[*ssa.Function]bool
	cur     *Sum
	curArgs []*Term
	curPre  []*Term
	fallout []string // functions with too many paths
	rounds  int
	limit   int64

	// RootPre lists facts assumed about the arguments of root functions.
	RootPre func(x *Exec, fn *ssa.Function, args []*Term)
	// Nilable tells parameters of exported functions that may be nil.
	Nilable func(pv *ssa.Parameter) bool
	// hooks of the final pass
	Instr   func(x *Exec, fr *Frame, in ssa.Instruction)
	Call    func(x *Exec, c *Call, targets []*ssa.Function)
	Back    func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term, st *loopSt, li *loopInfo)
	Done    func(x *Exec, s *Sum, args, res []*Term)
	Start   func(s *Sum, x *Exec, args []*Term)
	Panic   func(x *Exec, fr *Frame, in *ssa.Panic)
	Broken  func(fn *ssa.Function, c *Call, what string)
	preMiss map[string]bool
}

const sizeLimit = 100000 // the largest constant bound tried

func NewHoudini(w *World, roots []*ssa.Function) *Houdini {
	h := &Houdini{w: w, ts: NewTerms(), scope: map[*ssa.Function]bool{}, roots: map[*ssa.Function]bool{}, sums: map[sumKey]*Sum{},
		small: map[*ssa.Function]int{}, inlined: map[*ssa.Function]bool{}, called: map[*ssa.Function]bool{}, limit: sizeLimit}
	for _, r := range roots {
		h.roots[r] = true
	}
	h.scope = w.Reach(roots)
	for fn := range h.scope {
		h.order = append(h.order, fn)
	}
	sort.Slice(h.order, func(i, j int) bool { return fnName(h.order[i]) < fnName(h.order[j]) })
	return h
}

// Targets lists the in-package functions a call instruction may run.
func (w *World) Targets(cm *ssa.CallCommon) []*ssa.Function {
	if f := cm.StaticCallee(); f != nil {
		if f.Blocks != nil && w.IsMain(f) {
			return []*ssa.Function{unwrapPromoted(f)}
		}
		return nil
	}
	if cm.IsInvoke() {
		if n, ok := types.Unalias(cm.Value.Type()).(*types.Named); ok && n.Obj().Pkg() != w.Main.Pkg && n.Obj().Pkg() != nil {
			return nil
		}
		if isErrorType(cm.Value.Type()) {
			return nil
		}
		return w.Implementers(cm.Value.Type(), cm.Method)
	}
	return nil
}

// Reach is the set of in-package functions that can run when a root runs:
// static calls, interface calls resolved to the package's types, closures and
// function values that are created, and sort.Interface methods of values given
// to library code.
func (w *World) Reach(roots []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f == nil {
			return
		}
		f = unwrapPromoted(f)
		if f.Blocks == nil || !w.IsMain(f) || seen[f] {
			return
		}
		seen[f] = true
		work = append(work, f)
	}
	for _, r := range roots {
		add(r)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, t := range w.Targets(ci.Common()) {
						add(t)
					}
					if g := ci.Common().StaticCallee(); g != nil && !w.IsMain(g) {
						for _, a := range ci.Common().Args {
							if mi, ok := a.(*ssa.MakeInterface); ok {
								for _, m := range sortMethods(w, mi.X.Type()) {
									add(m)
								}
							}
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if ci, isCall := in.(ssa.CallInstruction); isCall && ci.Common().Value == g {
							continue
						}
						add(g)
					}
				}
			}
		}
	}
	return seen
}

// Containers are the pointer types of nodes that hold other nodes.
func (w *World) Containers() []types.Type {
	if w.conts != nil {
		return w.conts
	}
	for _, n := range w.NodeTypes() {
		st := structOf(w.NamedType(n))
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
				w.conts = append(w.conts, types.NewPointer(w.NamedType(n)))
				break
			}
		}
	}
	return w.conts
}

func sortMethods(w *World, t types.Type) []*ssa.Function {
	ms := types.NewMethodSet(t)
	var out []*ssa.Function
	for _, n := range []string{"Len", "Less", "Swap"} {
		sel := ms.Lookup(w.Main.Pkg, n)
		if sel == nil {
			return nil
		}
		out = append(out, w.Prog.MethodValue(sel))
	}
	return out
}

// isSortMethod tells whether fn is Less or Swap of a sort.Interface.
func isSortMethod(fn *ssa.Function) bool {
	if fn.Signature.Recv() == nil || fn.Name() != "Less" && fn.Name() != "Swap" {
		return false
	}
	_, ok := fn.Signature.Recv().Type().Underlying().(*types.Slice)
	return ok && fn.Signature.Params().Len() == 2
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.Int64)
}

func isSeq(t types.Type) bool {
	if isStringType(t) {
		return true
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature:
		return true
	}
	return false
}

func (h *Houdini) sum(fn *ssa.Function, ctx string) *Sum {
	k := sumKey{fn, ctx}
	if s, ok := h.sums[k]; ok {
		return s
	}
	s := &Sum{key: k, loops: map[*ssa.BasicBlock]*loopInfo{}, errI: -1, boolI: -1, dirty: true, callers: map[*Sum]bool{}}
	h.sums[k] = s
	h.keys = append(h.keys, k)
	h.changed = true
	h.genSum(s)
	return s
}

func (h *Houdini) genSum(s *Sum) {
	fn := s.key.fn
	sig := fn.Signature
	var ints, seqs []int
	for i, p := range fn.Params {
		switch {
		case isInt(p.Type()):
			ints = append(ints, i)
		case isSeq(p.Type()):
			seqs = append(seqs, i)
		}
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
			if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
				for f := 0; f < st.NumFields(); f++ {
					if isInt(st.Field(f).Type()) {
						s.fields = append(s.fields, fieldRef{i, f, p.Type(), st.Field(f).Type()})
					}
				}
			}
		}
	}
	L := func(a *cargs, i int) Lin { return a.x.Lin(a.x.LenOf(a.args[i])) }
	P := func(a *cargs, i int) Lin { return a.x.Lin(a.args[i]) }
	pre := func(key string, f func(a *cargs) Lin) {
		s.pres = append(s.pres, &Cand{key: key, lin: f})
	}
	if !h.roots[fn] && (fn.Object() == nil || !fn.Object().Exported() || fn.Parent() != nil) && !isSortMethod(fn) {
		for _, i := range ints {
			i := i
			pre(fmt.Sprintf("p%d>=0", i), func(a *cargs) Lin { return P(a, i) })
			pre(fmt.Sprintf("p%d>=1", i), func(a *cargs) Lin { return P(a, i).plus(-1) })
			pre(fmt.Sprintf("p%d<=K", i), func(a *cargs) Lin { return P(a, i).neg().plus(h.limit) })
			for _, j := range ints {
				j := j
				if i != j {
					pre(fmt.Sprintf("p%d<=p%d", i, j), func(a *cargs) Lin { return P(a, j).sub(P(a, i)) })
				}
			}
			for _, j := range seqs {
				j := j
				pre(fmt.Sprintf("p%d<=len%d", i, j), func(a *cargs) Lin { return L(a, j).sub(P(a, i)) })
				pre(fmt.Sprintf("p%d<len%d", i, j), func(a *cargs) Lin { return L(a, j).sub(P(a, i)).plus(-1) })
			}
		}
		for _, j := range seqs {
			j := j
			for _, k := range []int64{1, 2, 4} {
				k := k
				pre(fmt.Sprintf("len%d>=%d", j, k), func(a *cargs) Lin { return L(a, j).plus(-k) })
			}
			pre(fmt.Sprintf("len%d<=K", j), func(a *cargs) Lin { return L(a, j).neg().plus(h.limit) })
		}
		for i, p := range fn.Params {
			i := i
			if isNilable(p.Type()) {
				s.pres = append(s.pres, &Cand{key: fmt.Sprintf("p%d!=nil", i), nn: func(a *cargs) *Term { return a.args[i] }})
			}
		}
	}
	n := sig.Results().Len()
	var rints, rseqs, rnil []int
	for i := 0; i < n; i++ {
		t := sig.Results().At(i).Type()
		switch {
		case isErrorLike(t) && i == n-1:
			s.errI = i
			rnil = append(rnil, i)
		case isBoolType(t):
			s.boolI = i
		case isInt(t):
			rints = append(rints, i)
		case isSeq(t):
			rseqs = append(rseqs, i)
		case isNilable(t):
			rnil = append(rnil, i)
		}
	}
	conds := []string{""}
	if s.errI >= 0 {
		conds = append(conds, "E")
	}
	if s.boolI >= 0 {
		conds = append(conds, "T", "F")
	}
	for _, cond := range conds {
		post := func(key string, f func(a *cargs) Lin) {
			s.posts = append(s.posts, &Cand{key: cond + ":" + key, cond: cond, lin: f})
		}
		R := func(a *cargs, i int) Lin { return a.x.Lin(a.res[i]) }
		RL := func(a *cargs, i int) Lin { return a.x.Lin(a.x.LenOf(a.res[i])) }
		for _, r := range rints {
			r := r
			post(fmt.Sprintf("r%d>=0", r), func(a *cargs) Lin { return R(a, r) })
			post(fmt.Sprintf("r%d<=K", r), func(a *cargs) Lin { return R(a, r).neg().plus(h.limit) })
			for _, i := range ints {
				i := i
				for _, d := range []int64{-1, 0, 1} {
					d := d
					post(fmt.Sprintf("r%d>=p%d%+d", r, i, d), func(a *cargs) Lin { return R(a, r).sub(P(a, i)).plus(-d) })
					post(fmt.Sprintf("r%d<=p%d%+d", r, i, d), func(a *cargs) Lin { return P(a, i).sub(R(a, r)).plus(d) })
				}
			}
			for _, j := range seqs {
				j := j
				post(fmt.Sprintf("r%d<=len%d", r, j), func(a *cargs) Lin { return L(a, j).sub(R(a, r)) })
				post(fmt.Sprintf("r%d<len%d", r, j), func(a *cargs) Lin { return L(a, j).sub(R(a, r)).plus(-1) })
			}
		}
		for _, r := range rseqs {
			r := r
			post(fmt.Sprintf("rlen%d>=1", r), func(a *cargs) Lin { return RL(a, r).plus(-1) })
			for _, j := range seqs {
				j := j
				post(fmt.Sprintf("rlen%d<=len%d", r, j), func(a *cargs) Lin { return L(a, j).sub(RL(a, r)) })
				post(fmt.Sprintf("rlen%d<len%d", r, j), func(a *cargs) Lin { return L(a, j).sub(RL(a, r)).plus(-1) })
				post(fmt.Sprintf("rlen%d>=len%d", r, j), func(a *cargs) Lin { return RL(a, r).sub(L(a, j)) })
			}
			for _, q := range rints {
				q := q
				post(fmt.Sprintf("r%d<=rlen%d", q, r), func(a *cargs) Lin { return RL(a, r).sub(R(a, q)) })
				post(fmt.Sprintf("r%d<rlen%d", q, r), func(a *cargs) Lin { return RL(a, r).sub(R(a, q)).plus(-1) })
			}
		}
		for _, r := range rnil {
			r := r
			if r == s.errI && cond == "E" {
				continue
			}
			s.posts = append(s.posts, &Cand{key: fmt.Sprintf("%s:r%d!=nil", cond, r), cond: cond, nn: func(a *cargs) *Term { return a.res[r] }})
		}
		for r := 0; r < n; r++ {
			r := r
			if h.w.isNodeIface(sig.Results().At(r).Type()) {
				s.posts = append(s.posts, &Cand{key: fmt.Sprintf("%s:r%d scalar", cond, r), cond: cond, nd: func(a *cargs) *Term { return a.res[r] }})
			}
		}
		for fi, f := range s.fields {
			fi := fi
			for _, d := range []int64{0, 1, -1} {
				d := d
				post(fmt.Sprintf("f%d.%d-in==%d+", f.param, f.field, d), func(a *cargs) Lin { return a.x.Lin(a.post[fi]).sub(a.x.Lin(a.pre[fi])).plus(-d) })
				post(fmt.Sprintf("f%d.%d-in==%d-", f.param, f.field, d), func(a *cargs) Lin { return a.x.Lin(a.pre[fi]).sub(a.x.Lin(a.post[fi])).plus(d) })
			}
		}
	}
}

func (h *Houdini) fieldVals(x *Exec, s *Sum, args []*Term) []*Term {
	var out []*Term
	for _, f := range s.fields {
		a := x.ts.Mk(OFieldAddr, types.NewPointer(f.typ), "", f.field, args[f.param])
		out = append(out, x.Load(a))
	}
	return out
}

// holds checks a candidate on the current path.
func (c *Cand) holds(h *Houdini, a *cargs) bool {
	if c.nn != nil {
		return h.nonNil(a.x, c.nn(a))
	}
	if c.nd != nil {
		for _, t := range h.w.Containers() {
			if v, known := a.x.Eval(a.x.isType(c.nd(a), t)); !known || v {
				return false
			}
		}
		return true
	}
	return a.x.EntailsSplit(c.lin(a))
}

func (c *Cand) assume(a *cargs) bool {
	if c.nn != nil {
		return a.x.setNil(c.nn(a), false)
	}
	if c.nd != nil {
		for _, t := range a.x.w.Containers() {
			if !a.x.Assume(a.x.isType(c.nd(a), t), false) {
				return false
			}
		}
		return true
	}
	return a.x.assumeGe(c.lin(a))
}

// EntailsSplit also uses that equal indices read equal elements.
func (x *Exec) EntailsSplit(l Lin) bool {
	if x.Entails(l) {
		return true
	}
	m := x.mark()
	added := x.separate()
	ok := added && x.Entails(l)
	x.undo(m)
	return ok
}

func (x *Exec) separate() bool {
	type el struct{ base, idx, t *Term }
	var els []el
	for t := range x.dom {
		switch {
		case t.op == OIndex:
			els = append(els, el{t.args[0], t.args[1], t})
		case t.op == OLoad && t.args[0].op == OIndexAddr:
			els = append(els, el{t.args[0].args[0], t.args[0].args[1], t})
		}
	}
	sort.Slice(els, func(i, j int) bool { return els[i].t.id < els[j].t.id })
	added := false
	for i := range els {
		for j := range els {
			if i == j || els[i].base != els[j].base {
				continue
			}
			if els[i].t.op == OLoad && els[i].t.num != els[j].t.num {
				continue
			}
			if !x.dom[els[i].t].And(x.dom[els[j].t]).Empty() {
				continue
			}
			d := x.Lin(els[j].idx).sub(x.Lin(els[i].idx))
			if x.Entails(d) && !x.Entails(d.plus(-1)) {
				x.addLin(d.plus(-1))
				added = true
			}
		}
	}
	return added
}

// --- inlining policy ------------------------------------------------------

// follow: a callee without loops, not recursive, with few paths.
func (h *Houdini) follow(fn *ssa.Function) bool {
	switch h.small[fn] {
	case 1:
		return true
	case 2:
		return false
	}
	h.small[fn] = 2
	if !h.scope[fn] || h.roots[fn] || len(findLoops(fn)) > 0 || len(fn.Blocks) > 40 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				return false
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				for _, t := range h.w.Targets(c.Common()) {
					if h.scope[t] && !h.follow(t) && h.w.reaches(t, fn) {
						return false
					}
				}
			}
		}
	}
	x := NewExec(h.w, h.ts)
	x.MaxPaths = 16
	x.H.Inline = func(x *Exec, c *Call) bool { return h.scope[c.Fn] && h.follow(c.Fn) }
	n := 0
	x.Run(fn, nil, nil, func(*Term) { n++ })
	if x.Overflow || n > 12 {
		return false
	}
	h.small[fn] = 1
	return true
}

func (w *World) reaches(a, b *ssa.Function) bool {
	if a == b {
		return true
	}
	return w.Reach([]*ssa.Function{a})[b]
}

// --- running --------------------------------------------------------------

// Infer computes the contracts.
func (h *Houdini) Infer() {
	for _, fn := range h.order {
		if h.roots[fn] || isSortMethod(fn) {
			h.sum(fn, "")
		}
	}
	h.settle()
}

// Check interprets every function once more and reports through the hooks.
func (h *Houdini) Check() {
	// functions that are only referenced as values still have to be sound
	for _, fn := range h.order {
		if !h.called[fn] && !h.roots[fn] {
			h.sum(fn, "")
		}
	}
	h.settle()
	h.final = true
	for i := 0; i < len(h.keys); i++ {
		h.analyse(h.sums[h.keys[i]])
	}
}

// settle interprets functions until no candidate is dropped any more.
func (h *Houdini) settle() {
	for again := true; again; {
		again = false
		h.rounds++
		// callees first: later functions in call order settle early
		for i := len(h.keys) - 1; i >= 0; i-- {
			s := h.sums[h.keys[i]]
			for n := 0; s.dirty && n < 12; n++ {
				s.dirty = false
				again = true
				s.runs++
				h.analyse(s)
			}
			again = again || s.dirty
		}
		for _, k := range h.keys {
			again = again || h.sums[k].dirty
		}
	}
}

func (h *Houdini) analyse(s *Sum) {
	h.cur = s
	fn := s.key.fn
	x := NewExec(h.w, h.ts)
	if s.key.ctx != "" {
		x.Peel = 1
	}
	x.H.Inline = func(x *Exec, c *Call) bool {
		if h.scope[c.Fn] && h.follow(c.Fn) {
			h.called[c.Fn] = true
			return true
		}
		if c.Fn.Parent() != nil && len(findLoops(c.Fn)) == 0 {
			h.called[c.Fn] = true
			return true // a closure called where it is made
		}
		return false
	}
	x.H.Model = func(x *Exec, c *Call, k func(*Term)) bool { return h.apply(x, c, k) }
	x.H.Loop0 = func(x *Exec, fr *Frame, a *loopAct) { h.loop0(s, x, fr, a) }
	x.H.Loop = func(x *Exec, fr *Frame, a *loopAct) { h.loop(s, x, fr, a) }
	x.H.Back = func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) { h.back(s, x, fr, a, next) }
	x.H.Instr = func(x *Exec, fr *Frame, in ssa.Instruction) {
		if b, ok := in.(*ssa.BinOp); ok {
			h.overflow(x, fr, b)
		}
		if h.final && h.Instr != nil {
			h.Instr(x, fr, in)
		}
	}
	if h.final {
		x.H.Panic = h.Panic
	}
	args := x.SymArgs(fn)
	var pre []*Term
	x.Run(fn, args, func(args []*Term) bool {
		a := &cargs{x: x, args: args}
		for _, c := range s.pres {
			if !c.dead && !c.assume(a) {
				return false
			}
		}
		for i, p := range fn.Params {
			if isNilable(p.Type()) && (h.presumed(p) || i == 0 && fn.Signature.Recv() != nil) {
				x.setNil(args[i], false)
			}
		}
		if isSortMethod(fn) {
			for _, p := range args[1:] {
				x.addLin(x.Lin(p))
				x.addLin(x.Lin(x.LenOf(args[0])).sub(x.Lin(p)).plus(-1))
			}
		}
		if h.RootPre != nil && h.roots[fn] {
			h.RootPre(x, fn, args)
		}
		if s.key.ctx != "" {
			if t, ok := ctxTerm(x, fn, args); ok {
				setMap(x, x.dom, t, bracketSet)
			}
		}
		pre = h.fieldVals(x, s, args)
		h.curArgs, h.curPre = args, pre
		if h.final && h.Start != nil {
			h.Start(s, x, args)
		}
		return true
	}, func(res *Term) {
		rs := results(fn, res)
		a := &cargs{x: x, args: args, res: rs, pre: pre, post: h.fieldVals(x, s, args)}
		h.checkPosts(x, s, a)
		if h.final && h.Done != nil {
			h.Done(x, s, args, rs)
		}
	})
	if x.Overflow {
		msg := fnName(fn)
		seen := false
		for _, f := range h.fallout {
			if f == msg {
				seen = true
			}
		}
		if !seen {
			h.fallout = append(h.fallout, msg)
		}
	}
}

func results(fn *ssa.Function, res *Term) []*Term {
	if res == nil {
		return nil
	}
	if fn.Signature.Results().Len() == 1 {
		return []*Term{res}
	}
	if res.op == OTuple {
		return res.args
	}
	return nil
}

func (h *Houdini) checkPosts(x *Exec, s *Sum, a *cargs) {
	byCond := map[string][]*Cand{}
	for _, c := range s.posts {
		if !c.dead {
			byCond[c.cond] = append(byCond[c.cond], c)
		}
	}
	test := func(cs []*Cand) {
		for _, c := range cs {
			if !c.dead && !c.holds(h, a) {
				h.drop(&c.dead, s, true)
			}
		}
	}
	test(byCond[""])
	if cs := byCond["E"]; len(cs) > 0 {
		m := x.mark()
		if x.setNil(a.res[s.errI], true) {
			test(cs)
		}
		x.undo(m)
	}
	for _, b := range []string{"T", "F"} {
		if cs := byCond[b]; len(cs) > 0 {
			m := x.mark()
			if x.Assume(a.res[s.boolI], b == "T") {
				test(cs)
			}
			x.undo(m)
		}
	}
}

// overflow remembers sums whose operands have no known bounds.
func (h *Houdini) overflow(x *Exec, fr *Frame, b *ssa.BinOp) {
	switch b.Op.String() {
	case "+", "-", "*":
	default:
		return
	}
	if !isInt(b.Type()) {
		return
	}
	l, r := x.Val(fr, b.X), x.Val(fr, b.Y)
	if l.op == OConst && r.op == OConst {
		return
	}
	ok := true
	switch op := b.Op.String(); op {
	case "*":
		ok = (l.op == OConst || r.op == OConst) && x.below(l) && x.below(r) && x.above(l) && x.above(r)
	default:
		lo, hi := l, r
		nonneg := func(t *Term) bool { return x.Entails(x.Lin(t)) }
		nonpos := func(t *Term) bool { return x.Entails(x.Lin(t).neg()) }
		if op == "+" {
			ok = (nonpos(l) || nonpos(r) || x.below(l) && x.below(r)) && (nonneg(l) || nonneg(r) || x.above(l) && x.above(r))
		} else {
			ok = (nonneg(r) || x.below(lo) && x.above(hi)) && (nonneg(l) || nonpos(r) || x.above(l) && x.below(r))
		}
	}
	if !ok {
		setMap(x, x.ovf, x.Bin(b.Op.String(), l, r, b.Type()), true)
	}
}

const huge = int64(1) << 36

// below and above: the value is known to lie well inside the machine range,
// taking every length in memory to be below 2^30.
func (x *Exec) below(t *Term) bool { return x.within(x.Lin(t).neg()) }
func (x *Exec) above(t *Term) bool { return x.within(x.Lin(t)) }

// within: l >= -2^36.
func (x *Exec) within(l Lin) bool {
	l = x.relin(l)
	if len(l.v) == 0 {
		return true
	}
	cs := x.relevant(l)
	seen := map[*Term]bool{}
	for _, c := range append(cs, l) {
		for _, v := range c.v {
			if (v.t.op == OLen || v.t.op == OCap) && !seen[v.t] {
				seen[v.t] = true
				cs = append(cs, linVar(v.t).neg().plus(huge/64))
			}
		}
	}
	return fmInfeasible(append(cs[:len(cs):len(cs)], l.neg().plus(-huge)))
}

// wraps tells whether a term depends on a sum that may have wrapped around.
func (x *Exec) wraps(t *Term) bool {
	if len(x.ovf) == 0 {
		return false
	}
	return t.any(func(u *Term) bool { return u.op == OBin && x.ovf[u] })
}

// --- contexts ---------------------------------------------------------------

var bracketSet = func() (s Set) { s.Add('{'); s.Add('['); return }()

// ctxTerm is the byte of the input at the offset parameter.
func ctxTerm(x *Exec, fn *ssa.Function, args []*Term) (*Term, bool) {
	si, pi := -1, -1
	for i, p := range fn.Params {
		if i >= len(args) {
			return nil, false
		}
		if si < 0 && isByteSeq(p.Type()) {
			si = i
		} else if si >= 0 && pi < 0 && isInt(p.Type()) {
			pi = i
		}
	}
	if si < 0 || pi < 0 {
		return nil, false
	}
	s, p := args[si], args[pi]
	if s.typ == nil {
		return nil, false
	}
	if isStringType(s.typ) {
		return x.index(s, p, types.Typ[types.Uint8]), true
	}
	sl, ok := s.typ.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	return x.Load(x.indexAddr(s, p, types.NewPointer(sl.Elem()))), true
}

func isByteSeq(t types.Type) bool {
	if isStringType(t) {
		return true
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (h *Houdini) ctxOf(x *Exec, fn *ssa.Function, args []*Term) string {
	t, ok := ctxTerm(x, fn, args)
	if !ok {
		return ""
	}
	d, ok := x.Domain(t)
	if !ok || d.Empty() || d.And(bracketSet) != d {
		return ""
	}
	return "br"
}

// --- calls ------------------------------------------------------------------

func (h *Houdini) targets(c *Call) []*ssa.Function {
	if c.Fn != nil {
		f := unwrapPromoted(c.Fn)
		if h.scope[f] {
			return []*ssa.Function{f}
		}
		return nil
	}
	if c.Method != nil {
		var out []*ssa.Function
		for _, f := range h.w.Targets(c.Common) {
			if h.scope[f] {
				out = append(out, f)
			}
		}
		return out
	}
	return nil
}

func (h *Houdini) apply(x *Exec, c *Call, k func(*Term)) bool {
	ts := h.targets(c)
	if h.final && h.Call != nil {
		h.Call(x, c, ts)
	}
	if len(ts) == 0 {
		return false
	}
	if c.Fn != nil && (h.follow(ts[0]) || ts[0].Parent() != nil && len(findLoops(ts[0])) == 0) && x.mayInline(c) {
		return false
	}
	var sums []*Sum
	for _, f := range ts {
		h.called[f] = true
		ctx := ""
		if len(ts) == 1 {
			ctx = h.ctxOf(x, f, c.Args)
		}
		s := h.sum(f, ctx)
		sums = append(sums, s)
		s.callers[h.cur] = true
		a := &cargs{x: x, args: c.Args}
		for _, p := range s.pres {
			if !p.dead && !p.holds(h, a) {
				h.drop(&p.dead, s, false)
			}
		}
	}
	s := sums[0]
	var pre []*Term
	if len(sums) == 1 {
		pre = h.fieldVals(x, s, c.Args)
	}
	res := x.Opaque(c)
	rs := make([]*Term, s.key.fn.Signature.Results().Len())
	for i := range rs {
		if len(rs) == 1 {
			rs[i] = res
		} else {
			rs[i] = x.extract(res, i, s.key.fn.Signature.Results().At(i).Type())
		}
	}
	a := &cargs{x: x, args: c.Args, res: rs, pre: pre}
	if len(sums) == 1 {
		a.post = h.fieldVals(x, s, c.Args)
	}
	var alive []*Cand
	for _, p := range s.posts {
		ok := !p.dead
		if len(sums) > 1 && strings.Contains(p.key, ":f") {
			ok = false
		}
		for _, o := range sums[1:] {
			found := false
			for _, q := range o.posts {
				if q.key == p.key && !q.dead {
					found = true
				}
			}
			ok = ok && found
		}
		if ok {
			alive = append(alive, p)
		}
	}
	h.cont(x, s, a, alive, res, k)
	return true
}

func (h *Houdini) cont(x *Exec, s *Sum, a *cargs, alive []*Cand, res *Term, k func(*Term)) {
	m := x.mark()
	defer x.undo(m)
	byCond := map[string][]*Cand{}
	for _, p := range alive {
		byCond[p.cond] = append(byCond[p.cond], p)
	}
	for _, p := range byCond[""] {
		if !p.assume(a) {
			return
		}
	}
	step2 := func() {
		if len(byCond["T"])+len(byCond["F"]) == 0 {
			k(res)
			return
		}
		x.Fork(a.res[s.boolI], func(v bool) {
			c := "F"
			if v {
				c = "T"
			}
			for _, p := range byCond[c] {
				if !p.assume(a) {
					return
				}
			}
			k(res)
		})
	}
	if len(byCond["E"]) == 0 {
		step2()
		return
	}
	x.Fork(x.isNil(a.res[s.errI]), func(isNil bool) {
		if isNil {
			for _, p := range byCond["E"] {
				if !p.assume(a) {
					return
				}
			}
		}
		step2()
	})
}

// --- loops ------------------------------------------------------------------

// domVals are the values available at a loop header.
func domVals(fn *ssa.Function, header *ssa.BasicBlock) []ssa.Value {
	var out []ssa.Value
	for _, p := range fn.Params {
		out = append(out, p)
	}
	for _, f := range fn.FreeVars {
		out = append(out, f)
	}
	for _, b := range fn.Blocks {
		if b == header || !b.Dominates(header) {
			continue
		}
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				out = append(out, v)
			}
		}
	}
	return out
}

func (h *Houdini) loopInfo(s *Sum, x *Exec, fr *Frame, a *loopAct) *loopInfo {
	if li, ok := s.loops[a.header]; ok {
		return li
	}
	li := &loopInfo{}
	s.loops[a.header] = li
	h.changed = true
	var nilPhis []*ssa.Phi
	for _, in := range a.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		switch {
		case isInt(ph.Type()):
			li.ms = append(li.ms, &measure{name: phiName(ph), at: func(s *loopSt, w int) (Lin, bool) { return s.x.Lin(s.phi(ph, w)), true }})
		case isSeq(ph.Type()):
			li.ms = append(li.ms, &measure{name: "len " + phiName(ph), slice: true, at: func(s *loopSt, w int) (Lin, bool) { return s.x.Lin(s.x.LenOf(s.phi(ph, w))), true }})
		case isNilable(ph.Type()):
			nilPhis = append(nilPhis, ph)
		}
	}
	// integer variables and fields that live in memory
	cell := func(name string, typ types.Type, addr func(s *loopSt) *Term, slice bool) {
		li.ms = append(li.ms, &measure{name: name, slice: slice, at: func(s *loopSt, w int) (Lin, bool) {
			if w == 0 {
				l, ok := s.fixed[name]
				return l, ok
			}
			v := s.x.Load(addr(s))
			if slice {
				v = s.x.LenOf(v)
			}
			return s.x.Lin(v), true
		}})
	}
	for v := range a.mods.allocs {
		al, ok := v.(*ssa.Alloc)
		if !ok || al.Parent() != fr.fn {
			continue
		}
		et := deref(al.Type())
		if (isInt(et) || isSeq(et)) && al.Block().Dominates(a.header) && al.Block() != a.header {
			cell("cell "+al.Name(), et, func(s *loopSt) *Term { return s.x.Val(s.fr, al) }, isSeq(et))
		}
	}
	for _, p := range fr.fn.Params {
		st := structOf(deref(p.Type()))
		if _, isPtr := p.Type().Underlying().(*types.Pointer); !isPtr || st == nil {
			continue
		}
		for f := 0; f < st.NumFields(); f++ {
			if ft := st.Field(f).Type(); isInt(ft) && (a.mods.keys[fieldKey(p.Type(), f)] || a.mods.all) {
				f := f
				cell(fmt.Sprintf("%s.%s", p.Name(), st.Field(f).Name()), ft, func(s *loopSt) *Term {
					return s.x.ts.Mk(OFieldAddr, types.NewPointer(ft), "", f, s.x.Val(s.fr, p))
				}, false)
			}
		}
	}
	sort.Slice(li.ms, func(i, j int) bool { return li.ms[i].name < li.ms[j].name })
	add := func(key string, f func(s *loopSt, w int) (Lin, bool)) {
		li.cands = append(li.cands, &LoopCand{key: key, lin: f})
	}
	two := func(m, n *measure, f func(a, b Lin) Lin) func(s *loopSt, w int) (Lin, bool) {
		return func(s *loopSt, w int) (Lin, bool) {
			a, ok := m.at(s, w)
			if !ok {
				return Lin{}, false
			}
			b, ok := n.at(s, w)
			return f(a, b), ok
		}
	}
	for i, m := range li.ms {
		m := m
		rel := func(f func(cur, ent Lin) Lin) func(s *loopSt, w int) (Lin, bool) {
			return func(s *loopSt, w int) (Lin, bool) {
				a, ok := m.at(s, w)
				if !ok {
					return Lin{}, false
				}
				b, ok := m.at(s, 0)
				return f(a, b), ok
			}
		}
		add(m.name+">=entry", rel(func(c, e Lin) Lin { return c.sub(e) }))
		add(m.name+"<=entry", rel(func(c, e Lin) Lin { return e.sub(c) }))
		for _, k := range []int64{-1, 0, 1} {
			k := k
			add(fmt.Sprintf("%s>=%d", m.name, k), func(s *loopSt, w int) (Lin, bool) {
				a, ok := m.at(s, w)
				return a.plus(-k), ok
			})
		}
		add(m.name+"<=K", func(s *loopSt, w int) (Lin, bool) {
			a, ok := m.at(s, w)
			return a.neg().plus(h.limit), ok
		})
		for j, n := range li.ms {
			if j == i {
				continue
			}
			n := n
			add(m.name+"<="+n.name, two(m, n, func(a, b Lin) Lin { return b.sub(a) }))
			if j < i {
				for _, sg := range []int64{1, -1} {
					sg := sg
					for _, dir := range []int64{1, -1} {
						dir := dir
						add(fmt.Sprintf("lock %s %+d*%s %d", m.name, sg, n.name, dir), func(s *loopSt, w int) (Lin, bool) {
							a, ok := m.at(s, w)
							if !ok {
								return Lin{}, false
							}
							b, ok := n.at(s, w)
							if !ok {
								return Lin{}, false
							}
							a0, ok := m.at(s, 0)
							if !ok {
								return Lin{}, false
							}
							b0, ok := n.at(s, 0)
							if !ok {
								return Lin{}, false
							}
							l, o1 := a.addScaled(b, sg)
							r, o2 := a0.addScaled(b0, sg)
							d, o3 := Lin{}.addScaled(l.sub(r), dir)
							return d, o1 && o2 && o3
						})
					}
				}
			}
		}
		cnt := 0
		for _, v := range domVals(fr.fn, a.header) {
			v := v
			if cnt > 24 {
				break
			}
			switch {
			case isSeq(v.Type()):
				for _, d := range []int64{0, 1} {
					d := d
					cnt++
					add(fmt.Sprintf("%s<=len(%s)-%d", m.name, v.Name(), d), func(s *loopSt, w int) (Lin, bool) {
						a, ok := m.at(s, w)
						return s.x.Lin(s.x.LenOf(s.x.Val(s.fr, v))).sub(a).plus(-d), ok
					})
				}
			case isInt(v.Type()):
				if _, c := v.(*ssa.Const); c {
					continue
				}
				for _, d := range []int64{0, 1} {
					d := d
					cnt++
					add(fmt.Sprintf("%s<=%s-%d", m.name, v.Name(), d), func(s *loopSt, w int) (Lin, bool) {
						a, ok := m.at(s, w)
						return s.x.Lin(s.x.Val(s.fr, v)).sub(a).plus(-d), ok
					})
				}
			}
		}
	}
	for _, ph := range nilPhis {
		li.cands = append(li.cands, &LoopCand{key: phiName(ph) + "!=nil", nn: ph})
	}
	return li
}

func (s *loopSt) phi(ph *ssa.Phi, w int) *Term {
	switch w {
	case 0:
		return s.act.entry[ph]
	case 1:
		return s.act.cur[ph]
	}
	return s.next[ph]
}

func (h *Houdini) loop0(s *Sum, x *Exec, fr *Frame, a *loopAct) {
	li := h.loopInfo(s, x, fr, a)
	st := &loopSt{x: x, fr: fr, act: a, fixed: map[string]Lin{}}
	// entry values of memory measures are read before anything is forgotten
	for _, m := range li.ms {
		if _, ok := m.at(st, 0); !ok {
			if l, ok := m.at(st, 1); ok {
				st.fixed[m.name] = l
			}
		}
	}
	a.facts = st
	st0 := &loopSt{x: x, fr: fr, act: &loopAct{header: a.header, entry: a.entry, cur: a.entry}, fixed: st.fixed}
	for _, c := range li.cands {
		if c.dead {
			continue
		}
		ok := false
		if c.nn != nil {
			ok = h.nonNil(x, a.entry[c.nn])
		} else if l, has := c.lin(st0, 1); has {
			ok = x.Entails(l)
		}
		if !ok {
			h.drop(&c.dead, s, false)
		}
	}
}

func (h *Houdini) loop(s *Sum, x *Exec, fr *Frame, a *loopAct) {
	li := s.loops[a.header]
	st := a.facts.(*loopSt)
	for _, c := range li.cands {
		if c.dead {
			continue
		}
		if c.nn != nil {
			x.setNil(a.cur[c.nn], false)
		} else if l, ok := c.lin(st, 1); ok {
			x.assumeGe(l)
		}
	}
}

func (h *Houdini) back(s *Sum, x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) {
	li := s.loops[a.header]
	st := a.facts.(*loopSt)
	nst := &loopSt{x: x, fr: fr, act: a, next: next, fixed: st.fixed}
	for _, c := range li.cands {
		if c.dead {
			continue
		}
		ok := false
		if c.nn != nil {
			ok = h.nonNil(x, next[c.nn])
		} else if l, has := c.lin(nst, 2); has {
			ok = x.EntailsSplit(l)
		}
		if !ok {
			h.drop(&c.dead, s, false)
		}
	}
	if h.final && h.Back != nil {
		h.Back(x, fr, a, next, nst, li)
	}
}
