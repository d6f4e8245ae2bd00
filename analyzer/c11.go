package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C11"] = check{explainC11, runC11} }

const explainC11 = "Path analysis of every function that the exported functions with an error result reach. On every path, each error received from a call must be known to be nil where the function returns, or the function returns an error that is not nil, or the value it returns is nil exactly when that error is (wrapped, or collected in a list whose aggregate is returned). Errors collected in a loop are followed through the loop's variables: every turn must keep what earlier turns collected, and a return without error must know the collection empty. A failed reading of a text may be dropped when the path goes on to read the same text in another way, or to return it. A function without an error result must answer false or nothing on such a path."

// c11 follows errors through one function after another.
type c11 struct {
	*Obls
	scope map[*ssa.Function]bool
	leaf  map[*ssa.Function]bool
}

func errorList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isErrorType(s.Elem())
}

func errish(t types.Type) bool { return t != nil && (isErrorType(t) || errorList(t)) }

// errResult is the position of the error among the results, or -1.
func errResult(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if errish(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

func runC11(w *World, r *Rep) {
	c := &c11{Obls: newObls(w, r), leaf: map[*ssa.Function]bool{}}
	var roots []*ssa.Function
	for _, f := range w.MainFuncs() {
		if f.Signature != nil && errResult(f.Signature) >= 0 && (f.Object() != nil && f.Object().Exported() || isNodeMethodFn(w, f)) {
			roots = append(roots, f)
		}
	}
	c.scope = w.Reach(roots)
	n, made := 0, 0
	for _, f := range w.MainFuncs() {
		if f.Blocks == nil || !c.scope[f] {
			continue
		}
		if c.failing(f) == 0 {
			c.leaf[f] = len(findLoops(f)) == 0
		}
	}
	for _, f := range w.MainFuncs() {
		if f.Blocks == nil || !c.scope[f] || f.Parent() != nil {
			continue
		}
		if k := c.failing(f); k > 0 {
			n++
			made += k
			c.function(f)
		}
	}
	c.finish()
	r.Notes = append(r.Notes, fmt.Sprintf("%d functions below %d entry points receive errors from %d calls", n, len(roots), made))
	r.AtLeast("error reported", 10)
	r.Assume = append(r.Assume, "errors.Wrap and Wrapf are nil exactly for a nil error, NewAggregate for a list without errors", "writes to strings.Builder and bytes.Buffer do not fail")
}

// failing counts the calls that give an error.
func (c *c11) failing(f *ssa.Function) int {
	n := 0
	for _, g := range append([]*ssa.Function{f}, f.AnonFuncs...) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && errResult(ci.Common().Signature()) >= 0 && !c.makesError(ci.Common()) {
					n++
				}
			}
		}
	}
	return n
}

// makesError: functions of packages named errors and fmt only build errors.
func (c *c11) makesError(cc *ssa.CallCommon) bool {
	f := cc.StaticCallee()
	return f != nil && f.Pkg != nil && (f.Pkg.Pkg.Name() == "errors" || f.Pkg.Pkg.Path() == "fmt")
}

// pend is an error that may be set at some point of a path.
type pend struct {
	e    *Term
	call *Term // the call it came from
	ev   *Event
	from *loopAct // collected by this loop's variable
	ph   *ssa.Phi // that variable
}

type c11fn struct {
	*c11
	fn       *ssa.Function
	carriers map[*ssa.Phi]map[ssa.Instruction]*Event // and the calls whose errors they can hold
	// calls whose failure a turn of a loop dropped for another reading
	retries map[*ssa.BasicBlock]map[ssa.Instruction]*Event
	judging bool
	safe    map[string]bool
}

func (c *c11) function(fn *ssa.Function) {
	q := &c11fn{c11: c, fn: fn, safe: map[string]bool{}, carriers: map[*ssa.Phi]map[ssa.Instruction]*Event{}, retries: map[*ssa.BasicBlock]map[ssa.Instruction]*Event{}}
	for round := 0; round < 6; round++ {
		n := q.size()
		if !q.run() {
			c.r.Bad("undecided", fnName(fn), "paths", "-", "too many paths to decide")
			return
		}
		if q.size() == n {
			break
		}
	}
	q.judging = true
	q.run()
}

func (q *c11fn) size() int {
	n := len(q.carriers)
	for _, m := range q.carriers {
		n += len(m)
	}
	for _, m := range q.retries {
		n += len(m)
	}
	return n
}

func (q *c11fn) run() bool {
	p := NewPathRun(q.w)
	p.Inline = func(x *Exec, c *Call) bool {
		if c.Fn.Parent() != nil {
			return true
		}
		if q.leaf[c.Fn] && errResult(c.Fn.Signature) >= 0 {
			return true
		}
		// helpers that pass errors on
		for i := 0; i < c.Fn.Signature.Params().Len(); i++ {
			if errish(c.Fn.Signature.Params().At(i).Type()) {
				return true
			}
		}
		return false
	}
	p.Call = func(x *Exec, c *Call) {
		if strings.HasPrefix(c.Name, "(reflect.Value).Set") {
			x.event(&Event{Kind: "target set", Args: c.Args, Instr: c.Instr, Fr: c.Fr})
		}
	}
	p.Back = q.back
	p.Ret = q.ret
	return p.Run(q.fn)
}

// pending are the errors received since an event that are not known nil.
func (q *c11fn) pending(x *Exec, evs []*Event) (out []pend) {
	for _, e := range evs {
		switch e.Kind {
		case "call", "leave":
			if e.Res == nil || e.Instr == nil {
				continue
			}
			ci, ok := e.Instr.(ssa.CallInstruction)
			if !ok {
				continue
			}
			i := errResult(ci.Common().Signature())
			if i < 0 || q.makesError(ci.Common()) || cannotFail(e) {
				continue
			}
			t := e.Res
			if ci.Common().Signature().Results().Len() > 1 {
				t = x.extract(e.Res, i, ci.Common().Signature().Results().At(i).Type())
			}
			if x.noError(t) != 1 && !q.mustSucceed(x, e) && !q.typeTest(x, e) {
				out = append(out, pend{e: t, call: e.Res, ev: e})
			}
		case "loop":
			a := e.Data.(*loopAct)
			for ph, cur := range a.cur {
				if q.carriers[ph] != nil && x.noError(cur) != 1 {
					out = append(out, pend{e: cur, ev: e, from: a, ph: ph})
				}
			}
		}
	}
	return
}

func (q *c11fn) mark(ph *ssa.Phi, d pend) {
	m := q.carriers[ph]
	if m == nil {
		m = map[ssa.Instruction]*Event{}
		q.carriers[ph] = m
	}
	if d.call != nil {
		m[d.ev.Instr] = d.ev
	} else {
		for in, c := range q.carriers[d.ph] {
			m[in] = c
		}
	}
}

// noError: 1 known to hold no error, 0 known to hold one, -1 unknown.
func (x *Exec) noError(t *Term) int {
	if t.typ != nil && errorList(t.typ) {
		n := x.Lin(x.LenOf(t))
		switch {
		case x.Entails(n.plus(-1)):
			return 0
		case x.Entails(n.neg()):
			return 1
		}
		return -1
	}
	return x.knownNil(t)
}

// cannotFail: writers into memory, documented never to fail.
func cannotFail(e *Event) bool {
	n := e.Name
	return strings.Contains(n, "strings.Builder).Write") || strings.Contains(n, "bytes.Buffer).Write")
}

// carries: an error value or list is set whenever the pending one is.
func (q *c11fn) carries(x *Exec, t *Term, d pend, depth int) bool {
	if t == nil || depth > 20 {
		return false
	}
	t = x.rep1(t)
	if t == d.e || x.rep1(nilBase(t)) == x.rep1(nilBase(d.e)) {
		return true
	}
	switch t.op {
	case OAppend:
		for _, a := range t.args {
			if q.carries(x, a, d, depth+1) {
				return true
			}
		}
		return false
	case OVar:
		for _, a := range t.args {
			if q.carries(x, a, d, depth+1) {
				return true
			}
		}
		return false
	case OSlice, OIface:
		if els, ok := x.sliceElems(t); ok {
			for _, a := range els {
				if q.carries(x, a, d, depth+1) {
					return true
				}
			}
		}
		return t.op == OIface && q.carries(x, t.args[0], d, depth+1)
	case OCall:
		if t.aux == "yunion.io/x/pkg/errors.NewAggregate" || t.aux == "yunion.io/x/pkg/errors.Wrap" || t.aux == "yunion.io/x/pkg/errors.Wrapf" || t.aux == "errors.Join" {
			return len(t.args) > 0 && q.carries(x, t.args[0], d, depth+1)
		}
		return false
	}
	// the variable of a loop that held it on entry
	for _, e := range x.Events {
		if e.Kind != "loop" {
			continue
		}
		a := e.Data.(*loopAct)
		for ph, cur := range a.cur {
			if cur == t && errish(ph.Type()) && a.entry[ph] != t && q.carries(x, a.entry[ph], d, depth+1) {
				q.mark(ph, d)
				return true
			}
		}
	}
	return false
}

// texts are the pieces of text a call was given.
func texts(args []*Term) map[*Term]bool {
	out := map[*Term]bool{}
	var own []*Term
	for _, a := range args {
		if a != nil && a.typ != nil && isText(a.typ) {
			own = append(own, a)
		}
	}
	subterms(own, func(t *Term) {
		if t.typ != nil && t.k == nil && t.op != OVar && isText(t.typ) {
			out[t] = true
		}
	})
	return out
}

// readAgain: after an event the path reads the same text in another way, with
// success, or puts the text itself into what it returns.
func (q *c11fn) readAgain(x *Exec, from *Event, loop *loopAct, res []*Term) bool {
	in := texts(from.Args)
	if len(in) == 0 {
		return false
	}
	after := false
	for _, e := range x.Events {
		if e == from && loop == nil || loop != nil && e.Kind == "loop" && e.Data.(*loopAct).header == loop.header {
			after = true
			continue
		}
		if !after || e.Kind != "call" && e.Kind != "leave" || e.Res == nil {
			continue
		}
		ci, ok := e.Instr.(ssa.CallInstruction)
		if !ok || errResult(ci.Common().Signature()) < 0 || !overlap(in, texts(e.Args)) {
			continue
		}
		sig := ci.Common().Signature()
		if sig.Results().Len() < 2 {
			continue
		}
		if i := errResult(sig); x.noError(x.extract(e.Res, i, sig.Results().At(i).Type())) != 1 {
			continue
		}
		for _, r := range res {
			if flows(x, e.Res, x.Events, r) || q.given(x, e.Res) {
				return true
			}
		}
	}
	for _, r := range res {
		for t := range in {
			if r.typ != nil && !isNumber(r.typ) && !isBoolType(r.typ) && !errish(r.typ) && flows(x, t, x.Events, r) && !q.only(x, r, from.Res) {
				return true
			}
		}
	}
	return false
}

// only: the result holds the text just by way of the failed call.
func (q *c11fn) only(x *Exec, r, call *Term) bool { return r.contains(call) }

// given: what a call answered is put somewhere.
func (q *c11fn) given(x *Exec, t *Term) bool {
	for _, e := range x.Events {
		if (e.Kind == "store" || e.Kind == "call") && len(e.Args) > 1 && e.Res != t && e.Args[len(e.Args)-1].contains(t) {
			return true
		}
	}
	return false
}

func overlap(a, b map[*Term]bool) bool {
	for t := range a {
		if b[t] {
			return true
		}
		for u := range b {
			// a field read before and after a loop
			if t.op == OLoad && u.op == OLoad && t.String() == u.String() {
				return true
			}
		}
	}
	return false
}

func (q *c11fn) back(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) {
	turn := x.eventsAfter(a.header)
	ps := q.pending(x, turn)
	for ph, cur := range a.cur {
		if q.carriers[ph] != nil && x.noError(cur) != 1 {
			ps = append(ps, pend{e: cur, from: a, ph: ph})
		}
	}
	for _, d := range ps {
		kept := false
		for ph, t := range next {
			// the error itself, or one that was there before
			if errish(ph.Type()) && (q.carries(x, t, d, 0) || isErrorType(ph.Type()) && x.noError(t) == 0) {
				q.mark(ph, d)
				kept = true
			}
		}
		if kept {
			if q.judging {
				q.judge(d, true, false, "")
			}
			continue
		}
		if d.call != nil && ahead(x, a, next, d.ev) {
			continue
		}
		if d.call != nil && q.sameEachTurn(x, a, d.ev) {
			m := q.retries[a.header]
			if m == nil {
				m = map[ssa.Instruction]*Event{}
				q.retries[a.header] = m
			}
			m[d.ev.Instr] = d.ev
			continue
		}
		if q.judging {
			q.judge(d, false, false, "the loop goes on")
		}
	}
}

// ahead: the call looked at a part of the text that lies where the loop has
// yet to come.
func ahead(x *Exec, a *loopAct, next map[*ssa.Phi]*Term, e *Event) bool {
	for _, t := range e.Args {
		if t.op != OSlice || len(t.args) < 2 || t.args[1] == nil {
			continue
		}
		lo := x.Lin(t.args[1])
		for ph, n := range next {
			if isInt(ph.Type()) && x.Entails(x.Lin(n).sub(x.Lin(a.cur[ph])).plus(-1)) && x.Entails(lo.sub(x.Lin(n))) {
				return true
			}
		}
	}
	return false
}

// typeTest: an accessor asked without keys, in a function that reports no
// error, finds out about the type of a node: nothing has failed.
func (q *c11fn) typeTest(x *Exec, e *Event) bool {
	if errResult(q.fn.Signature) >= 0 {
		return false
	}
	for _, m := range q.w.nodeAccessors() {
		if strings.HasSuffix(e.Name, "."+m.Name()) && len(e.Args) > 0 && len(e.Args) == m.Type().(*types.Signature).Params().Len()+1 {
			last := e.Args[len(e.Args)-1]
			return x.knownNil(last) == 1 || last.op == OVar && len(last.args) == 0
		}
	}
	return false
}

// mustSucceed: the callee has no failing path for lists of the lengths given.
func (q *c11fn) mustSucceed(x *Exec, e *Event) bool {
	f := e.Fn
	if f == nil {
		return false
	}
	f = unwrapPromoted(f)
	if f.Blocks == nil || !q.w.IsMain(f) {
		return false
	}
	lens := map[int]int64{}
	for i, p := range f.Params {
		if i < len(e.Args) && isSlice(p.Type()) {
			if n, ok := x.constLen(e.Args[i]); ok {
				lens[i] = n
			}
		}
	}
	key := fmt.Sprint(f.String(), lens)
	if v, ok := q.safe[key]; ok {
		return v
	}
	q.safe[key] = false
	ok := true
	p := NewPathRun(q.w)
	p.Inline = func(x *Exec, c *Call) bool { return c.Fn.Parent() != nil || q.leaf[c.Fn] }
	p.Begin = func(x *Exec, args []*Term) bool {
		for i, n := range lens {
			if !x.assumeEq(x.Lin(x.LenOf(args[i])).plus(-n)) {
				return false
			}
		}
		return true
	}
	p.Ret = func(x *Exec, args, res []*Term) {
		if x.noError(res[errResult(f.Signature)]) != 1 {
			ok = false
		}
	}
	q.safe[key] = p.Run(f) && ok
	return q.safe[key]
}

// constLen is the length of a list when it is known.
func (x *Exec) constLen(t *Term) (int64, bool) {
	if els, ok := x.sliceElems(t); ok {
		return int64(len(els)), true
	}
	if t.op == OVar {
		return int64(len(t.args)), true
	}
	if x.knownNil(t) == 1 {
		return 0, true
	}
	l := x.Lin(x.LenOf(t))
	return l.c, len(l.v) == 0
}

// origin names the failing step behind a call: the library function when the
// callee hands on the errors of a single one.
func (q *c11fn) origin(f *ssa.Function, name string, depth int) string {
	if f == nil || !q.w.IsMain(f) || f.Blocks == nil || depth > 4 {
		return name
	}
	found := map[string]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || errResult(ci.Common().Signature()) < 0 {
				continue
			}
			n := "?"
			if c := ci.Common().StaticCallee(); c != nil {
				if n = c.String(); q.makesError(ci.Common()) {
					if strings.HasPrefix(c.Name(), "Wrap") {
						continue
					}
				} else {
					n = q.origin(c, n, depth+1)
				}
			}
			found[n] = true
		}
	}
	if len(found) == 1 {
		for n := range found {
			return n
		}
	}
	return name
}

// sameEachTurn: a call reads a text that is the same on every turn.
func (q *c11fn) sameEachTurn(x *Exec, a *loopAct, e *Event) bool {
	for t := range texts(e.Args) {
		if x.stable(t, a) {
			return true
		}
	}
	return false
}

// stable: a value that was there before the loop was entered.
func (x *Exec) stable(t *Term, a *loopAct) bool {
	ok := true
	subterms([]*Term{t}, func(s *Term) {
		for _, cur := range a.cur {
			if s == cur {
				ok = false
			}
		}
		if (s.op == OCall || s.op == OFresh) && s.num > a.fresh {
			ok = false
		}
	})
	return ok
}

func (q *c11fn) ret(x *Exec, args, res []*Term) {
	if !q.judging {
		// loop variables that hold errors are found on the way
		for _, d := range q.pending(x, x.Events) {
			for _, r := range res {
				q.carries(x, r, d, 0)
			}
		}
		return
	}
	ps := q.pending(x, x.Events)
	for _, e := range x.Events {
		if e.Kind == "loop" {
			for _, c := range q.retries[e.Data.(*loopAct).header] {
				ps = append(ps, q.retried(x, e, c)...)
			}
		}
	}
	for _, d := range ps {
		ok, why := q.reported(x, d, res)
		q.judge(d, ok, targetSet(x, d.ev), why)
	}
}

// retried: a call that failed on earlier turns of a loop.
func (q *c11fn) retried(x *Exec, loop, c *Event) []pend {
	after := false
	for _, e := range x.Events {
		after = after || e == loop
		if after && (e.Kind == "call" || e.Kind == "leave") && e.Instr == c.Instr {
			return nil // judged by its last turn
		}
	}
	return []pend{{ev: c, call: c.Res, from: loop.Data.(*loopAct)}}
}

func (q *c11fn) judge(d pend, ok, set bool, why string) {
	at := d.ev
	if at == nil || at.Instr == nil {
		q.need(nil, q.fn.Blocks[0].Instrs[0], "error kept", "errors collected in a loop", ok, "an error collected on an earlier turn is lost: %s", why)
		return
	}
	if d.from != nil && d.call == nil {
		q.need(nil, at.Instr, "error kept", "errors collected in a loop", ok, "an error collected on an earlier turn is lost: %s", why)
		return
	}
	what := "error of " + q.origin(at.Fn, at.Name, 0)
	if !ok && set {
		what += ", target set all the same"
	}
	q.need(nil, at.Instr, "error reported", what, ok, "the error is dropped: %s", why)
}

// targetSet: the path goes on to set a reflected target.
func targetSet(x *Exec, from *Event) bool {
	after := false
	for _, e := range x.Events {
		after = after || e == from
		if after && e.Kind == "target set" {
			return true
		}
	}
	return false
}

// reported: the results tell of the error.
func (q *c11fn) reported(x *Exec, d pend, res []*Term) (bool, string) {
	i := errResult(q.fn.Signature)
	if i >= 0 {
		if x.noError(res[i]) == 0 {
			return true, ""
		}
		if d.e != nil && q.carries(x, res[i], d, 0) {
			return true, ""
		}
	} else {
		for _, r := range res {
			if v, known := x.Eval(r); isBoolType(r.typ) && known && !v || isNilable(r.typ) && x.knownNil(r) == 1 {
				return true, ""
			}
		}
	}
	if d.call != nil {
		if q.readAgain(x, d.ev, d.from, res) {
			return true, ""
		}
		if d.ev.Name != "" && partial(x, d, res) {
			return true, ""
		}
	} else if d.from != nil {
		if partial(x, d, res) {
			return true, ""
		}
		// every reading that may have failed was followed by a better one
		again := len(q.carriers[d.ph]) > 0
		for _, c := range q.carriers[d.ph] {
			again = again && q.readAgain(x, c, d.from, res)
		}
		if again {
			return true, ""
		}
	}
	if i >= 0 {
		return false, "the function may return no error"
	}
	return false, "the function returns as if nothing had failed"
}

// partial: a list of what could be read is returned, and is known not empty.
func partial(x *Exec, d pend, res []*Term) bool {
	for _, r := range res {
		if r.typ == nil || errish(r.typ) || !isSlice(r.typ) {
			continue
		}
		if d.from != nil && x.Entails(x.Lin(x.LenOf(r)).plus(-1)) {
			return true
		}
	}
	return false
}

func isNumber(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}
