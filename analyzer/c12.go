package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C12"] = check{explainC12, runC12}
	checks["C19"] = check{explainC19, runC19}
}

const explainC12 = "Path-sensitive interpretation of every accessor (interface method with a key path that returns a value and an error) of every node type. On each path the error must be known to be nil or not, or value and error come together from one accessor call; a failing path returns the zero value, a successful one a value that depends on the node's own content; leaf nodes succeed only with an empty key path; a dict answers through its lookup with the whole key path and the same accessor without keys; the lookup itself visits the keys in order and fails only on a missing key or a non-dict; array indexes are compared with linear arithmetic."
const explainC19 = "Path-sensitive interpretation of Contains, ContainsIgnoreCases, Get and GetIgnoreCases of every node type: on each path the boolean answer must equal the success of the lookup called with the same receiver and keys; every map lookup reachable from the plain variants is exact and every one reachable from the others ignores case; each method of a reference node forwards its arguments to the same method of the node it refers to."

// accessors analyses the accessors of the node types.
type accessors struct {
	*Obls
	lookups map[string]*lookupInfo
	busy    map[*ssa.Function]bool
}

type lookupInfo struct {
	exact, icase, fuzzy bool // kinds of map lookups made
	always              bool // always fails
	never               bool // makes no lookup
}

func newAccessors(w *World, r *Rep) *accessors {
	return &accessors{Obls: newObls(w, r), lookups: map[string]*lookupInfo{}, busy: map[*ssa.Function]bool{}}
}

// isLookupSig: resolves a key path to a node.
func (w *World) isLookupSig(sig *types.Signature) bool {
	if sig.Results().Len() != 2 || !w.isNodeIface(sig.Results().At(0).Type()) || !isErrorType(sig.Results().At(1).Type()) {
		return false
	}
	ks := 0
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		switch {
		case isStringSlice(t):
			ks++
		case isBoolType(t) || w.isNodeIface(t) || w.isNodePtr(t):
		default:
			return false
		}
	}
	return ks == 1
}

func (w *World) isNodePtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	for _, n := range w.NodeTypes() {
		if types.Identical(w.NamedType(n), p.Elem()) {
			return true
		}
	}
	return false
}

// lookupMode finds which kind of comparison a lookup uses when its boolean
// arguments are the given constants.
func (a *accessors) lookupMode(fn *ssa.Function, consts map[int]bool) *lookupInfo {
	key := fmt.Sprint(fn.String(), consts)
	if l := a.lookups[key]; l != nil {
		return l
	}
	l := &lookupInfo{always: true, never: true}
	a.lookups[key] = l
	p := NewPathRun(a.w)
	p.Inline = func(x *Exec, c *Call) bool { return a.followable(x, c) }
	p.Begin = func(x *Exec, args []*Term) bool {
		for i, v := range consts {
			if !x.Assume(args[i], v) {
				return false
			}
		}
		return true
	}
	scan := func(x *Exec) {
		for _, e := range x.Events {
			if e.Kind != "call" {
				continue
			}
			switch b := e.Name[strings.LastIndexByte(e.Name, '.')+1:]; {
			case strings.Contains(e.Name, "SSortedMap)."):
				switch b {
				case "Get", "Contains":
					l.exact, l.never = true, false
				case "GetIgnoreCase":
					l.icase, l.never = true, false
				}
			case e.Name == "strings.EqualFold" || strings.HasPrefix(e.Name, "strings.ToLower") || strings.HasPrefix(e.Name, "strings.ToUpper"):
				l.fuzzy = true
			case b == "Get" && e.Fn == nil:
				l.exact, l.never = true, false
			case b == "GetIgnoreCases" && e.Fn == nil:
				l.icase, l.never = true, false
			case e.Fn != nil && e.Fn != fn && a.w.IsMain(e.Fn) && a.w.isLookupSig(e.Fn.Signature) && !a.busy[e.Fn]:
				m, ok := a.modeOfCall(x, e.Fn, e.Args)
				if ok {
					l.exact, l.icase, l.fuzzy = l.exact || m.exact, l.icase || m.icase, l.fuzzy || m.fuzzy
					l.never = l.never && m.never
				}
			}
		}
	}
	p.Back = func(x *Exec, fr *Frame, _ *loopAct, _ map[*ssa.Phi]*Term) { scan(x) }
	p.Ret = func(x *Exec, args, res []*Term) {
		scan(x)
		if x.knownNil(res[len(res)-1]) != 0 {
			l.always = false
		}
	}
	a.busy[fn] = true
	p.Run(fn)
	delete(a.busy, fn)
	return l
}

// modeOfCall is the mode of a call with the boolean arguments it passes.
func (a *accessors) modeOfCall(x *Exec, fn *ssa.Function, args []*Term) (*lookupInfo, bool) {
	cs := map[int]bool{}
	for i, p := range fn.Params {
		if i < len(args) && isBoolType(p.Type()) {
			v, k := x.Eval(args[i])
			if !k {
				return nil, false
			}
			cs[i] = v
		}
	}
	return a.lookupMode(fn, cs), true
}

// followable: helpers are followed; node methods only on the same node.
func (a *accessors) followable(x *Exec, c *Call) bool {
	if a.w.isLookupSig(c.Fn.Signature) && !a.busy[c.Fn] {
		// a lookup is followed only from a lookup
		root := c.Fr
		for root.parent != nil {
			root = root.parent
		}
		return a.w.isLookupSig(root.fn.Signature) && !isNodeMethodFn(a.w, c.Fn)
	}
	if isNodeMethodFn(a.w, c.Fn) {
		if isAccessorFn(a.w, c.Fn) {
			return len(c.Args) > 0 && sameNode(x, c.Args[0], c.Fr)
		}
		return false
	}
	return true
}

func isNodeMethodFn(w *World, f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	it := w.NodeIface()
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == f.Name() {
			return true
		}
	}
	return false
}

func isAccessorFn(w *World, f *ssa.Function) bool {
	for _, m := range w.nodeAccessors() {
		if m.Name() == f.Name() {
			return f.Signature.Recv() != nil
		}
	}
	return false
}

// sameNode: the term is the receiver of the root or its embedded base.
func sameNode(x *Exec, t *Term, fr *Frame) bool {
	for fr.parent != nil {
		fr = fr.parent
	}
	if len(fr.fn.Params) == 0 {
		return false
	}
	root := fr.env[fr.fn.Params[0]]
	for t.op == OFieldAddr || t.op == OIface {
		if t == root {
			return true
		}
		t = t.args[0]
	}
	return t == root
}

func isZeroTerm(x *Exec, t *Term) bool {
	t = x.rep1(t)
	if t.op == ONil || t.op == OZero {
		return true
	}
	if x.knownNil(t) == 1 {
		return true
	}
	if b, ok := t.BoolVal(); ok {
		return !b
	}
	if s, ok := t.StrVal(); ok {
		return s == ""
	}
	if t.k != nil {
		switch t.k.ExactString() {
		case "0", "0.0":
			return true
		}
	}
	return false
}

// pairCall: value and error are the two results of one call.
func pairCall(r, e *Term) *Term {
	e = nilBase(e)
	if r.op == OExtract && e.op == OExtract && r.args[0] == e.args[0] && r.args[0].op == OCall && r.num == 0 {
		return r.args[0]
	}
	return nil
}

func callBase(t *Term) string { return t.aux[strings.LastIndexByte(t.aux, '.')+1:] }

type nodeClass int

const (
	leafNode nodeClass = iota
	dictNode
	refNode
)

// classify sorts node types by how they answer key paths.
func (a *accessors) classify(t string) nodeClass {
	st := a.w.NamedType(t).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if a.w.isNodeIface(st.Field(i).Type()) {
			return refNode
		}
	}
	if f, _ := a.w.Method(t, "Get"); f != nil {
		if g := unwrapPromoted(f); g != nil && g.Blocks != nil {
			if l := a.lookupMode(g, map[int]bool{}); !l.always {
				return dictNode
			}
		}
	}
	return leafNode
}

func runC12(w *World, r *Rep) {
	a := newAccessors(w, r)
	seen := map[string]bool{}
	nt := 0
	for _, t := range w.NodeTypes() {
		cl := a.classify(t)
		if cl == refNode {
			continue // forwarding: C19
		}
		nt++
		for _, m := range w.nodeAccessors() {
			sig := m.Type().(*types.Signature)
			if sig.Results().Len() != 2 || !isErrorType(sig.Results().At(1).Type()) {
				continue
			}
			f, _ := w.Method(t, m.Name())
			g := unwrapPromoted(f)
			if g == nil || g.Blocks == nil || seen[g.String()] {
				continue
			}
			seen[g.String()] = true
			r.Visit(fnName(g))
			if a.w.isLookupSig(sig) && sig.Params().Len() == 1 && cl == dictNode {
				a.chain(g)
				continue
			}
			a.accessor(t, g, cl)
		}
	}
	a.finish()
	r.Notes = append(r.Notes, fmt.Sprintf("%d node types, %d accessor implementations", nt, len(seen)))
	r.Assume = append(r.Assume, "sortedmap lookups, strconv and time parsers report failure in their error or boolean result")
	r.AtLeast("zero result", 10)
}

// accessor checks one accessor that is not the lookup of a dict.
func (a *accessors) accessor(t string, fn *ssa.Function, cl nodeClass) {
	p := NewPathRun(a.w)
	p.Inline = func(x *Exec, c *Call) bool { return a.followable(x, c) }
	at := retInstr(fn)
	recv := structOf(fn.Signature.Recv().Type())
	f := newFills()
	var own *ownTerm
	var keys *Term
	p.Begin = func(x *Exec, args []*Term) bool {
		own = &ownTerm{node: args[0], st: recv}
		for i, q := range fn.Params {
			if isStringSlice(q.Type()) {
				keys = args[i]
			}
		}
		f.own = own.in
		return true
	}
	p.Back = f.back
	p.Ret = func(x *Exec, args, res []*Term) {
		r, e := res[0], res[len(res)-1]
		k := x.knownNil(e)
		pc := pairCall(r, e)
		acc := pc != nil && a.accessorCall(pc)
		if k == 0 {
			a.need(nil, at, "zero result", "failing return", acc || isZeroTerm(x, r), "a failing accessor returns a value besides its error")
			if cl == dictNode {
				a.need(nil, at, "fails only for cause", "failing return", a.cause(x, own), "fails although the lookup succeeded and the type of the node was not examined")
			} else if hasPayload(recv) {
				nonEmpty := x.Entails(x.Lin(x.LenOf(keys)).plus(-1))
				cause := nonEmpty
				for _, ev := range x.Events {
					if ev.Kind == "branch" && own.in(ev.Args[0]) {
						cause = true
					}
				}
				a.need(nil, at, "fails only for cause", "failing return", cause, "fails whatever the node holds")
				if !nonEmpty && fn.Name() == "GetAt" {
					a.need(nil, at, "index", "failing return", a.outside(x, args, fn, own), "fails for an index that lies in the array")
				}
			}
			return
		}
		if k < 0 && !acc {
			a.need(nil, at, "error or result", "return", false, "the error returned with this value may or may not be nil")
			return
		}
		a.need(nil, at, "error or result", "return", true, "")
		empty := x.Entails(x.Lin(x.LenOf(keys)).neg())
		if cl == leafNode {
			a.need(nil, at, "key path", "return", empty, "a non-empty key path may be answered")
		}
		var obj *Term // the node found by the lookup
		if cl == dictNode && !empty {
			if ok, why := a.viaLookup(x, r, args[0], keys, &obj); !ok {
				a.need(nil, at, "same lookup", "return", false, "%s", why)
				return
			}
			a.need(nil, at, "same lookup", "return", true, "")
		}
		if cl == dictNode && empty && obj == nil {
			// Get() is the dict itself
			a.viaLookup(x, r, args[0], keys, &obj)
		}
		// what the value is
		from := own.in
		if obj != nil {
			from = func(t *Term) bool { return t.contains(obj) }
		}
		if acc {
			a.need(nil, at, "same accessor", callBase(pc), callBase(pc) == fn.Name() && a.noKeys(x, pc) && a.sameRest(x, pc, fn, args), "answers with %s instead of %s of the node that was found", pc.aux, fn.Name())
			return
		}
		if isBoolType(r.typ) && r.k != nil {
			want, decided := ownTruth(x, own)
			b, _ := r.BoolVal()
			a.need(nil, at, "own value", "constant", decided && want == b, "the constant %v returned does not follow from the node's content", b)
			return
		}
		if isContainer(r.typ) {
			why := f.filled(x, r, from)
			a.need(nil, at, "own value", "container", why == "", "%s", why)
			return
		}
		if fn.Name() == "GetAt" {
			a.index(x, at, r, args, fn, own)
			return
		}
		a.need(nil, at, "own value", "return", from(r), "the value returned does not come from the node")
	}
	if !p.Run(fn) {
		a.r.Bad("undecided", fnName(fn), "paths", "-", "too many paths to decide")
	}
}

// accessorCall: the call is of an accessor.
func (a *accessors) accessorCall(c *Term) bool {
	for _, m := range a.w.nodeAccessors() {
		if m.Name() == callBase(c) {
			return true
		}
	}
	return c.fn != nil && a.w.isLookupSig(c.fn.Signature)
}

// noKeys: the last argument is an empty key path.
func (a *accessors) noKeys(x *Exec, c *Term) bool {
	last := c.args[len(c.args)-1]
	if last.op == OVar {
		return len(last.args) == 0
	}
	return last.typ == nil || !isStringSlice(last.typ) || x.knownNil(last) == 1 || x.Entails(x.Lin(x.LenOf(last)).neg())
}

// sameRest: arguments other than the node and the keys are passed on.
func (a *accessors) sameRest(x *Exec, c *Term, fn *ssa.Function, args []*Term) bool {
	for i, p := range fn.Params {
		if i == 0 || isStringSlice(p.Type()) {
			continue
		}
		if i >= len(c.args) || x.rep1(c.args[i]) != x.rep1(args[i]) {
			return false
		}
	}
	return true
}

// viaLookup: the value depends on the lookup of the whole key path.
func (a *accessors) viaLookup(x *Exec, r, node, keys *Term, obj **Term) (bool, string) {
	found := false
	why := "the value does not come from the node under the key path"
	check := func(t *Term) bool {
		if t.op != OExtract || t.num != 0 || t.args[0].op != OCall {
			return false
		}
		c := t.args[0]
		if c.fn == nil || !a.w.isLookupSig(c.fn.Signature) {
			return false
		}
		hasNode, hasKeys := false, false
		for _, g := range c.args {
			hasNode = hasNode || g == node
			hasKeys = hasKeys || g == keys
		}
		if !hasNode || !hasKeys {
			why = "the lookup is not made with the receiver and the whole key path"
			return false
		}
		l, ok := a.modeOfCall(x, c.fn, c.args)
		if !ok || l.icase || l.fuzzy || !l.exact {
			why = "the lookup does not compare keys as Get does"
			return false
		}
		found = true
		*obj = t
		return true
	}
	r.any(check)
	if !found {
		// a container made from the node
		for _, e := range x.Events {
			if e.Kind == "call" && e.Fn != nil && a.w.isLookupSig(e.Fn.Signature) && e.Res != nil && isContainer(r.typ) {
				if t := x.ts.Mk(OExtract, e.Fn.Signature.Results().At(0).Type(), "", 0, e.Res); check(t) {
					break
				}
			}
		}
	}
	return found, why
}

// cause: the failure has a reason on this path.
func (a *accessors) cause(x *Exec, own *ownTerm) bool {
	for _, e := range x.Events {
		switch e.Kind {
		case "call":
			if e.Res != nil && e.Fn != nil && a.w.isLookupSig(e.Fn.Signature) || e.Res != nil && e.Fn == nil {
				if x.knownNil(x.ts.Mk(OExtract, errT, "", 1, e.Res)) == 0 {
					return true
				}
			}
		case "branch":
			if e.Args[0].any(func(t *Term) bool { return t.op == OIsType }) {
				return true
			}
		}
	}
	for _, e := range x.Events {
		if e.Kind == "branch" && e.Args[0].any(func(t *Term) bool { return isErrorType(t.typ) }) {
			return true
		}
	}
	return false
}

var errT = types.Universe.Lookup("error").Type()

func isContainer(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

// ownTruth is the boolean that the node's text or value stands for on a path.
func ownTruth(x *Exec, own *ownTerm) (val, known bool) {
	for _, e := range x.Events {
		if e.Kind != "branch" {
			continue
		}
		t, v := e.Args[0], e.Data.(bool)
		for t.op == OUn && t.aux == "!" {
			t, v = t.args[0], !v
		}
		if !own.in(t) {
			continue
		}
		if t.op == OLoad || t.op == OField {
			return v, true
		}
		if !v {
			continue
		}
		if !(t.op == OBin && t.aux == "==" || t.op == OCall && t.aux == "strings.EqualFold") {
			continue
		}
		for _, c := range t.args {
			// a word, or one of a list of words
			words := []*Term{c}
			if el, ok := x.elemOf(c); ok && el.kind == 's' {
				words, _ = x.sliceElems(el.src)
			}
			sum := 0
			for _, c := range words {
				if s, ok := c.StrVal(); ok {
					if n, ok := truthWords[strings.ToLower(s)]; ok && n == 1 {
						sum++
					} else if ok {
						sum--
					}
				}
			}
			if len(words) > 0 && (sum == len(words) || -sum == len(words)) {
				return sum > 0, true
			}
		}
	}
	return false, false
}

// index checks the answer of an array to an index.
func (a *accessors) index(x *Exec, at ssa.Instruction, r *Term, args []*Term, fn *ssa.Function, own *ownTerm) {
	el, ok := x.elemOf(r)
	if !ok || !own.in(el.src) {
		a.need(nil, at, "own value", "element", false, "the value returned is not an element of the array")
		return
	}
	var i *Term
	for n, p := range fn.Params {
		if isInt(p.Type()) {
			i = args[n]
		}
	}
	n := x.Lin(x.LenOf(el.src))
	li, le := x.Lin(i), x.Lin(el.idx)
	pos := x.Entails(li) && x.eqLin(le, li)
	neg := x.Entails(li.neg().plus(-1)) && x.eqLin(le, li.add(n))
	a.need(nil, at, "index", "element", pos || neg, "an index is answered with another element")
}

func hasPayload(st *types.Struct) bool {
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if !st.Field(i).Embedded() {
			return true
		}
	}
	return false
}

// outside: the index cannot lie in [-n, n) on this path.
func (a *accessors) outside(x *Exec, args []*Term, fn *ssa.Function, own *ownTerm) bool {
	var i *Term
	for n, p := range fn.Params {
		if isInt(p.Type()) {
			i = args[n]
		}
	}
	for _, l := range x.lenTerms() {
		if !own.in(l) {
			continue
		}
		li, n := x.Lin(i), x.Lin(l)
		in := func(ls ...Lin) bool {
			m := x.mark()
			defer x.undo(m)
			for _, l := range ls {
				if !x.assumeGe(l) {
					return false
				}
			}
			return x.consistent(linConst(0))
		}
		if !in(li, n.sub(li).plus(-1)) && !in(li.neg().plus(-1), li.add(n)) {
			return true
		}
	}
	return false
}

// chain checks that a lookup visits the keys in order.
func (a *accessors) chain(fn *ssa.Function) {
	p := NewPathRun(a.w)
	p.Inline = func(x *Exec, c *Call) bool { return a.followable(x, c) }
	at := retInstr(fn)
	var node, keys *Term
	p.Begin = func(x *Exec, args []*Term) bool {
		node = args[0]
		for i, q := range fn.Params {
			if isStringSlice(q.Type()) {
				keys = args[i]
			}
		}
		return true
	}
	// lookupOf: value found in the map of a node under one of the keys
	lookupOf := func(x *Exec, t *Term) (of, idx *Term, ok bool) {
		for t.op == OAssert {
			t = t.args[0]
		}
		if t.op != OExtract || t.num != 0 || t.args[0].op != OCall || !strings.Contains(t.args[0].aux, "SSortedMap).Get") {
			return
		}
		c := t.args[0]
		src := c.args[0]
		if src.op != OLoad && src.op != OField {
			return
		}
		of = src.args[0]
		if of.op == OFieldAddr {
			of = of.args[0]
		}
		el, isEl := x.elemOf(c.args[1])
		if !isEl || el.src != keys {
			return
		}
		return of, el.idx, true
	}
	p.Back = func(x *Exec, fr *Frame, act *loopAct, next map[*ssa.Phi]*Term) {
		for ph, nx := range next {
			if !a.w.isNodePtr(ph.Type()) && !a.w.isNodeIface(ph.Type()) {
				continue
			}
			of, idx, ok := lookupOf(x, nx)
			ok = ok && of == act.cur[ph] && x.turnAt(act, next, elem{kind: 's', src: keys, idx: idx})
			in := act.header.Instrs[0]
			a.need(fr, in, "next level", "loop over keys", ok, "a turn of the lookup does not go from one level to the value under its key")
			a.need(fr, in, "first level", "loop over keys", act.entry[ph] == node, "the lookup does not start at the receiver")
		}
	}
	p.Ret = func(x *Exec, args, res []*Term) {
		r, e := res[0], res[1]
		k := x.knownNil(e)
		if k < 0 {
			// recursion on the rest of the keys
			pc := pairCall(r, e)
			ok := pc != nil && a.accessorCall(pc)
			if ok {
				rest := pc.args[len(pc.args)-1]
				of, idx, isL := lookupOf(x, pc.args[0])
				n, isC := idx.intOrNil()
				ok = isL && of == node && isC && n == 0 && rest.op == OSlice && rest.args[0] == keys && x.eqLin(x.Lin(x.LenOf(rest)), x.Lin(x.LenOf(keys)).plus(-1))
				ok = ok && callBase(pc) == fn.Name()
			}
			a.need(nil, at, "error or result", "return", ok, "the error returned with this value may or may not be nil")
			return
		}
		if k == 0 {
			a.need(nil, at, "zero result", "failing return", isZeroTerm(x, r), "a failing lookup returns a value besides its error")
			a.need(nil, at, "fails only for cause", "failing return", a.missing(x, keys), "fails although the key was found")
			return
		}
		a.need(nil, at, "error or result", "return", true, "")
		if x.Entails(x.Lin(x.LenOf(keys)).neg()) {
			a.need(nil, at, "empty path", "return", baseNode(r) == node, "an empty key path does not yield the node itself")
			return
		}
		of, idx, ok := lookupOf(x, r)
		if !ok {
			a.need(nil, at, "found value", "return", false, "the value returned was not found under a key of the path")
			return
		}
		last := x.eqLin(x.Lin(idx), x.Lin(x.LenOf(keys)).plus(-1))
		level := of == node
		for _, ev := range x.Events {
			if ev.Kind == "loop" {
				for _, t := range ev.Data.(*loopAct).cur {
					level = level || t == of
				}
			}
		}
		if of == node {
			n, isC := idx.intOrNil()
			inLoop := false
			for _, ev := range x.Events {
				inLoop = inLoop || ev.Kind == "loop"
			}
			level = isC && n == 0 || !inLoop
		}
		a.need(nil, at, "found value", "return", last && level, "the value returned may not be the one under the last key")
	}
	if !p.Run(fn) {
		a.r.Bad("undecided", fnName(fn), "paths", "-", "too many paths to decide")
	}
}

func baseNode(t *Term) *Term {
	for t.op == OIface || t.op == OAssert {
		t = t.args[0]
	}
	return t
}

func (t *Term) intOrNil() (int64, bool) {
	if t == nil {
		return 0, false
	}
	return t.IntVal()
}

// missing: a key was not found, a level is not a dict, or the keys ran out.
func (a *accessors) missing(x *Exec, keys *Term) bool {
	for _, e := range x.Events {
		if e.Kind != "branch" {
			continue
		}
		t, v := e.Args[0], e.Data.(bool)
		for t.op == OUn && t.aux == "!" {
			t, v = t.args[0], !v
		}
		if v {
			continue
		}
		if t.op == OIsType {
			return true
		}
		if t.op == OExtract && t.num > 0 && t.args[0].op == OCall && strings.Contains(t.args[0].aux, "SSortedMap).Get") {
			return true
		}
	}
	for _, e := range x.Events {
		if e.Kind == "loop" {
			own := func(t *Term) bool { return t.contains(keys) }
			if x.loopDone(e.Data.(*loopAct), own) {
				return true
			}
		}
	}
	return false
}

func runC19(w *World, r *Rep) {
	a := newAccessors(w, r)
	pairs := [][2]string{{"Contains", "Get"}, {"ContainsIgnoreCases", "GetIgnoreCases"}}
	seen := map[string]bool{}
	for _, t := range w.NodeTypes() {
		if a.classify(t) == refNode {
			a.reference(t)
			continue
		}
		for i, pr := range pairs {
			cf, _ := w.Method(t, pr[0])
			gf, _ := w.Method(t, pr[1])
			c, g := unwrapPromoted(cf), unwrapPromoted(gf)
			if c == nil || g == nil || c.Blocks == nil || g.Blocks == nil {
				r.Bad("anchor", t, pr[0], "-", "%s or %s of %s is missing", pr[0], pr[1], t)
				continue
			}
			if k := c.String() + g.String(); seen[k] {
				continue
			} else {
				seen[k] = true
			}
			r.Visit(fnName(c))
			r.Visit(fnName(g))
			gm := a.lookupMode(g, map[int]bool{})
			a.mode(g, gm, i == 1)
			a.contains(c, gm, i == 1)
		}
	}
	a.finish()
	r.Assume = append(r.Assume, "SSortedMap.Get compares keys exactly and GetIgnoreCase ignores case")
	r.AtLeast("agrees", 2)
}

func (a *accessors) mode(g *ssa.Function, l *lookupInfo, icase bool) {
	if l.always && l.never {
		a.need(nil, retInstr(g), "comparison", g.Name(), true, "")
		return
	}
	if icase {
		a.need(nil, retInstr(g), "comparison", g.Name(), !l.exact && (l.icase || l.fuzzy), "a key may be compared exactly on some level")
	} else {
		a.need(nil, retInstr(g), "comparison", g.Name(), l.exact && !l.icase && !l.fuzzy, "a key may be compared ignoring case on some level")
	}
}

// contains checks one Contains variant against the lookup of its type.
func (a *accessors) contains(fn *ssa.Function, gm *lookupInfo, icase bool) {
	p := NewPathRun(a.w)
	p.Inline = func(x *Exec, c *Call) bool { return a.followable(x, c) }
	at := retInstr(fn)
	p.Ret = func(x *Exec, args, res []*Term) {
		keys := args[len(args)-1]
		r := res[0]
		var call *Term
		for _, e := range x.Events {
			if e.Kind == "call" && e.Fn != nil && a.w.isLookupSig(e.Fn.Signature) && e.Res != nil {
				call = e.Res
				hasNode, hasKeys := false, false
				for _, t := range e.Args {
					hasNode = hasNode || t == args[0]
					hasKeys = hasKeys || t == keys
				}
				a.need(nil, at, "same keys", fn.Name(), hasNode && hasKeys, "the lookup is not made with the receiver and all the keys")
				l, ok := a.modeOfCall(x, e.Fn, e.Args)
				switch {
				case !ok:
					a.need(nil, at, "comparison", fn.Name(), false, "cannot tell how the keys are compared")
				case icase:
					a.need(nil, at, "comparison", fn.Name(), l.icase && !l.exact || l.never, "a key may be compared exactly")
				default:
					a.need(nil, at, "comparison", fn.Name(), l.exact && !l.icase && !l.fuzzy || l.never, "a key may be compared ignoring case")
				}
			}
		}
		if call == nil {
			v, k := x.Eval(r)
			a.need(nil, at, "agrees", fn.Name(), k && !v && gm.always, "answers without the lookup that decides whether the keys exist")
			return
		}
		er := x.ts.Mk(OExtract, errT, "", 1, call)
		ob := x.ts.Mk(OExtract, call.fn.Signature.Results().At(0).Type(), "", 0, call)
		x.Fork(r, func(v bool) {
			if v {
				a.need(nil, at, "agrees", fn.Name(), x.knownNil(er) == 1, "may answer true though the lookup failed")
			} else {
				a.need(nil, at, "agrees", fn.Name(), x.knownNil(er) == 0 || x.knownNil(ob) == 1, "may answer false though the lookup succeeded")
			}
		})
	}
	if !p.Run(fn) {
		a.r.Bad("undecided", fnName(fn), "paths", "-", "too many paths to decide")
	}
}

// reference checks that a reference node forwards.
func (a *accessors) reference(t string) {
	w := a.w
	it := w.NodeIface()
	st := w.NamedType(t).Underlying().(*types.Struct)
	fld := -1
	for i := 0; i < st.NumFields(); i++ {
		if w.isNodeIface(st.Field(i).Type()) {
			fld = i
		}
	}
	names := map[string]bool{"Equals": true, "Interface": true}
	for _, m := range w.nodeAccessors() {
		names[m.Name()] = true
	}
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		if !names[m.Name()] {
			continue
		}
		f, _ := w.Method(t, m.Name())
		fn := unwrapPromoted(f)
		if fn == nil || fn.Blocks == nil {
			a.r.Bad("anchor", t, m.Name(), "-", "%s of %s is missing", m.Name(), t)
			continue
		}
		a.r.Visit(fnName(fn))
		at := retInstr(fn)
		if structOf(fn.Signature.Recv().Type()) != st {
			a.need(nil, at, "forwards", t+"."+m.Name(), false, "a reference inherits %s instead of asking the node it refers to", m.Name())
			continue
		}
		p := NewPathRun(w)
		p.Inline = func(x *Exec, c *Call) bool { return !isNodeMethodFn(w, c.Fn) }
		p.Ret = func(x *Exec, args, res []*Term) {
			node := x.Load(x.ts.Mk(OFieldAddr, types.NewPointer(st.Field(fld).Type()), "", fld, args[0]))
			var call *Event
			n := 0
			for _, e := range x.Events {
				if e.Kind == "call" && e.Name[strings.LastIndexByte(e.Name, '.')+1:] == m.Name() {
					call = e
					n++
				}
			}
			ok := n == 1
			if ok {
				to := call.Args[0]
				switch x.knownNil(node) {
				case 1:
					// no target: any null node
					ok = baseNode(to) != args[0]
				default:
					ok = x.rep1(to) == x.rep1(node) || x.rep1(baseNode(to)) == x.rep1(node)
				}
				ok = ok && len(call.Args) == len(args)
				for i := 1; ok && i < len(args); i++ {
					ok = call.Args[i] == args[i]
				}
				for i, r := range res {
					v := r
					if len(res) > 1 {
						ok = ok && v.op == OExtract && v.args[0] == call.Res && v.num == i
					} else {
						ok = ok && v == call.Res
					}
				}
			}
			a.need(nil, at, "forwards", t+"."+m.Name(), ok, "a reference does not answer %s with the answer of the node it refers to", m.Name())
		}
		if !p.Run(fn) {
			a.r.Bad("undecided", fnName(fn), "paths", "-", "too many paths to decide")
		}
	}
}
