package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C20"] = check{explainC20, runC20} }

const explainC20 = "Path-sensitive interpretation of Equals of every node type that holds content. A path that answers true must know that the argument has the receiver's type and: for a scalar, that the payloads are equal; for an array, that the lengths are equal and every turn of a loop over all positions found the two elements of its own position equal; for a dict, that the key sets are equal (both one-sided results of Split empty, or equal sizes and every key found in the other) and every turn found the values under its own key equal. A path that answers false must know another type, another length, a missing key or an unequal pair of the same position. No operation in the functions reachable from Equals can panic (same obligations as C01)."

type equals struct {
	*Obls
	t         string
	node, arg *Term
	pt        types.Type // pointer to the node type
	st        *types.Struct
	turns     map[*ssa.BasicBlock][]eqTurn
}

type eqTurn struct {
	why   string // "" when the turn compared its own pair
	found bool   // the turn found its key on the other side
	src   *Term
	up    map[*ssa.Phi]bool // the flag stays true only when the pair is equal
	down  map[*ssa.Phi]bool // the flag becomes false only when the pair differs
}

func runC20(w *World, r *Rep) {
	var roots []*ssa.Function
	o := newObls(w, r)
	seen := map[string]bool{}
	for _, t := range w.NodeTypes() {
		f, _ := w.Method(t, "Equals")
		g := unwrapPromoted(f)
		if g == nil || g.Blocks == nil {
			r.Bad("anchor", t, "Equals", "-", "Equals of %s is missing", t)
			continue
		}
		if seen[g.String()] {
			continue
		}
		st := w.NamedType(t).Underlying().(*types.Struct)
		isRef := false
		for i := 0; i < st.NumFields(); i++ {
			isRef = isRef || w.isNodeIface(st.Field(i).Type())
		}
		if isRef {
			continue // forwarding: C19
		}
		if hasPayload(st) && structOf(g.Signature.Recv().Type()) != st {
			r.Bad("own comparison", fnName(g), t, w.Pos(g.Pos()), "%s is compared by the method of another type", t)
			continue
		}
		seen[g.String()] = true
		roots = append(roots, g)
		r.Visit(fnName(g))
		e := &equals{Obls: o, t: t, pt: types.NewPointer(w.NamedType(t)), st: st, turns: map[*ssa.BasicBlock][]eqTurn{}}
		e.run(g)
	}
	o.finish()
	// answers instead of panicking
	h := NewHoudini(w, roots)
	h.Infer()
	p := newPanics(w, h, r)
	p.arm()
	h.Check()
	p.finish()
	r.Assume = append(r.Assume, "nodes held in containers are not nil", "sortedmap.Split returns the keys only in the first, the common keys with the values of either, and the keys only in the second map")
	r.AtLeast("true only when equal", 4)
}

func (e *equals) run(fn *ssa.Function) {
	p := NewPathRun(e.w)
	p.Inline = func(x *Exec, c *Call) bool { return !isNodeMethodFn(e.w, c.Fn) }
	at := retInstr(fn)
	p.Begin = func(x *Exec, args []*Term) bool {
		e.node, e.arg = args[0], args[1]
		return true
	}
	p.Back = e.back
	p.Ret = func(x *Exec, args, res []*Term) {
		x.Fork(res[0], func(v bool) {
			is, known := x.Eval(x.isType(e.arg, e.pt))
			if v {
				why := e.same(x)
				if !(known && is) {
					why = "may answer true for a node of another kind"
				}
				e.need(nil, at, "true only when equal", e.t, why == "", "%s", why)
			} else {
				e.need(nil, at, "false only when different", e.t, known && !is || e.differ(x), "may answer false for nodes of equal content")
			}
		})
	}
	if !p.Run(fn) {
		e.r.Bad("undecided", fnName(fn), "paths", "-", "too many paths to decide")
	}
}

// side tells whether a term belongs to the receiver or to the argument.
func (e *equals) side(t *Term) int {
	a := t.any(func(s *Term) bool {
		return (s.op == OFieldAddr || s.op == OField) && s.args[0] == e.node && isPayload(e.st, s.num)
	})
	b := t.any(func(s *Term) bool {
		return (s.op == OFieldAddr || s.op == OField) && baseNode(s.args[0]) == e.arg && isPayload(e.st, s.num)
	})
	// common part of both
	if t.op == OExtract && isSplit(t.args[0]) {
		return t.num*a2i(a && b) + 10
	}
	switch {
	case a && !b:
		return 1
	case b && !a:
		return 2
	}
	return 0
}

func a2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func isSplit(t *Term) bool {
	return t.op == OCall && strings.HasSuffix(t.aux, "sortedmap.Split") && len(t.args) == 2
}

// whole: which node's content a sequence is, 0 when neither's.
func (e *equals) whole(x *Exec, t *Term) int {
	if t.op == OExtract && isSplit(t.args[0]) {
		// common keys: all of them when no others exist
		a, b := e.side(t.args[0].args[0]), e.side(t.args[0].args[1])
		if a+b == 3 && e.splitEmpty(x, t.args[0]) {
			switch t.num {
			case 1:
				return a
			case 2:
				return b
			}
		}
		return 0
	}
	if isSmapKeys(t) {
		return e.whole(x, t.args[0])
	}
	if t.op == OLoad || t.op == OField {
		return e.side(t)
	}
	return 0
}

func (e *equals) splitEmpty(x *Exec, c *Term) bool {
	for _, i := range []int{0, 3} {
		t := x.ts.Mk(OExtract, c.args[0].typ, "", i, c)
		if !x.Entails(x.Lin(x.LenOf(t)).neg()) {
			return false
		}
	}
	return true
}

// payloads are the content fields of the receiver.
func (e *equals) payloads(x *Exec) (out [][2]*Term) {
	a := e.node
	b := x.asserted(e.arg, e.pt)
	for i := 0; i < e.st.NumFields(); i++ {
		if !isPayload(e.st, i) || e.st.Field(i).Embedded() {
			continue
		}
		ft := types.NewPointer(e.st.Field(i).Type())
		out = append(out, [2]*Term{x.Load(x.ts.Mk(OFieldAddr, ft, "", i, a)), x.Load(x.ts.Mk(OFieldAddr, ft, "", i, b))})
	}
	return
}

// same tells why a path does not know the contents to be equal.
func (e *equals) same(x *Exec) string {
	b := x.asserted(e.arg, e.pt)
	for _, p := range e.payloads(x) {
		switch p[0].typ.Underlying().(type) {
		case *types.Slice, *types.Map:
			if eq, k := x.Eval(x.Bin("==", e.node, b, types.Typ[types.Bool])); k && eq {
				continue
			}
			if why := e.sameAll(x, p[0], p[1]); why != "" {
				return why
			}
		default:
			if !e.payloadEq(x, p[0], p[1], true) {
				return "may answer true for another value"
			}
		}
	}
	return ""
}

func (e *equals) payloadEq(x *Exec, a, b *Term, want bool) bool {
	bt := types.Typ[types.Bool]
	for _, t := range []*Term{x.Bin("==", a, b, bt), x.Bin("==", b, a, bt)} {
		if v, k := x.Eval(t); k && v == want {
			return true
		}
	}
	if isStringType(a.typ) {
		if !want && e.lenNe(x, a, b) {
			return true
		}
		for _, ev := range x.Events {
			if ev.Kind == "call" && ev.Name == "strings.Compare" && ev.Res != nil && len(ev.Args) == 2 && (ev.Args[0] == a && ev.Args[1] == b || ev.Args[0] == b && ev.Args[1] == a) {
				if v, k := x.Eval(x.Bin("==", ev.Res, x.ts.Int(0), bt)); k && v == want {
					return true
				}
			}
		}
	}
	if isIntType(a.typ) {
		d := x.Lin(a).sub(x.Lin(b))
		if want {
			return x.Entails(d) && x.Entails(d.neg())
		}
		return x.Entails(d.plus(-1)) || x.Entails(d.neg().plus(-1))
	}
	return false
}

func (e *equals) lenEq(x *Exec, a, b *Term) bool {
	return x.eqLin(x.Lin(x.LenOf(a)), x.Lin(x.LenOf(b)))
}

func (e *equals) sameAll(x *Exec, a, b *Term) string {
	keysEq := false
	isMap := false
	for _, c := range e.splits(x) {
		isMap = true
		keysEq = keysEq || e.splitEmpty(x, c)
	}
	if !keysEq && !e.lenEq(x, a, b) {
		return "may answer true for contents of another size or with other keys"
	}
	if x.Entails(x.Lin(x.LenOf(a)).neg()) && x.Entails(x.Lin(x.LenOf(b)).neg()) {
		return ""
	}
	isMap = isMap || isSortedMapType(a.typ)
	why := "answers true without comparing the elements"
	for _, ev := range x.Events {
		if ev.Kind != "loop" {
			continue
		}
		act := ev.Data.(*loopAct)
		ts := e.turns[act.header]
		if len(ts) == 0 {
			continue
		}
		bad := ""
		found := true
		var src *Term
		for _, t := range ts {
			if t.why != "" && !e.flagged(x, act, ts) {
				bad = t.why
			}
			if t.src == nil {
				continue
			}
			found = found && t.found
			src = t.src
		}
		if bad == "" && src != nil {
			own := func(t *Term) bool { return t == src || t.contains(src) || src.contains(t) && e.side(t) != 0 }
			switch {
			case e.whole(x, src) == 0:
				bad = "the elements compared are not all elements"
			case isMap && !keysEq && !found:
				bad = "a key of one side may be missing on the other"
			case !x.loopDone(act, own):
				bad = "may answer true before all elements were compared"
			}
		}
		if bad == "" {
			return ""
		}
		why = bad
	}
	return why
}

func isSortedMapType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "SSortedMap"
}

func (e *equals) splits(x *Exec) (out []*Term) {
	for _, ev := range x.Events {
		if ev.Kind == "call" && ev.Res != nil && isSplit(ev.Res) && e.side(ev.Res.args[0])+e.side(ev.Res.args[1]) == 3 {
			out = append(out, ev.Res)
		}
	}
	return
}

// element describes where a compared node was taken from.
type eqElem struct {
	side int
	src  *Term // sequence or map
	idx  *Term
	key  *Term
	get  *Term // the lookup of a key, when the map was not walked itself
}

func (e *equals) element(x *Exec, t *Term) (eqElem, bool) {
	for t.op == OAssert || t.op == OIface {
		t = t.args[0]
	}
	if t.op == OExtract && t.num == 0 && t.args[0].op == OCall && strings.Contains(t.args[0].aux, "SSortedMap).Get") && !strings.HasSuffix(t.args[0].aux, "IgnoreCase") {
		c := t.args[0]
		if s := e.mapSide(c.args[0]); s != 0 {
			return eqElem{side: s, src: c.args[0], key: c.args[1], get: c}, true
		}
		return eqElem{}, false
	}
	el, ok := x.elemOf(t)
	if !ok {
		return eqElem{}, false
	}
	if s := e.mapSide(el.src); s != 0 {
		return eqElem{side: s, src: el.src, idx: el.idx, key: el.key}, true
	}
	return eqElem{}, false
}

func (e *equals) mapSide(t *Term) int {
	if t.op == OExtract && isSplit(t.args[0]) {
		a, b := e.side(t.args[0].args[0]), e.side(t.args[0].args[1])
		if a+b == 3 {
			switch t.num {
			case 1:
				return a
			case 2:
				return b
			}
		}
		return 0
	}
	s := e.side(t)
	if s > 2 {
		return 0
	}
	return s
}

// compared lists the pairs of elements compared, with the answer known.
func (e *equals) compared(x *Exec, evs []*Event) (out []eqPair) {
	for _, ev := range evs {
		if ev.Kind != "call" || ev.Res == nil || !strings.HasSuffix(ev.Name, "Equals") || len(ev.Args) != 2 {
			continue
		}
		a, ok1 := e.element(x, ev.Args[0])
		b, ok2 := e.element(x, ev.Args[1])
		if !ok1 || !ok2 || a.side == b.side {
			continue
		}
		v, k := x.Eval(ev.Res)
		out = append(out, eqPair{a, b, v, k})
	}
	return
}

type eqPair struct {
	a, b  eqElem
	v, ok bool
}

// walked is the sequence a key or position of a pair comes from.
func (e *equals) walked(x *Exec, p eqPair) (el elem, ok bool) {
	for _, q := range []eqElem{p.a, p.b} {
		if q.key == nil && q.idx != nil {
			return elem{kind: 's', src: q.src, idx: q.idx}, true
		}
		if q.get == nil && q.idx != nil {
			return elem{kind: 'i', src: q.src, idx: q.idx, key: q.key}, true
		}
		if q.key != nil {
			if k, isEl := x.elemOf(q.key); isEl && k.kind == 's' && isSmapKeys(k.src) {
				return elem{kind: 's', src: k.src, idx: k.idx}, true
			}
		}
	}
	return elem{}, false
}

func sameKey(a, b *Term) bool {
	return a == b || a != nil && b != nil && a.op == OExtract && b.op == OExtract && a.num == b.num && a.args[0] == b.args[0]
}

func (e *equals) pairSame(x *Exec, p eqPair) bool {
	switch {
	case p.a.key != nil && p.b.key != nil:
		return sameKey(p.a.key, p.b.key)
	case p.a.key == nil && p.b.key == nil:
		return x.eqLin(x.Lin(p.a.idx), x.Lin(p.b.idx))
	}
	return false
}

func (e *equals) back(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) {
	t := eqTurn{why: "a turn of the loop may compare nothing", up: map[*ssa.Phi]bool{}, down: map[*ssa.Phi]bool{}}
	var good []eqPair
	defer func() {
		for ph, nx := range next {
			if !isBoolType(ph.Type()) {
				continue
			}
			any := func(v bool) bool {
				for _, p := range e.compared(x, x.eventsAfter(a.header)) {
					for _, q := range good {
						if p.a == q.a && p.b == q.b && p.ok && p.v == v {
							return true
						}
					}
				}
				return false
			}
			m := x.mark()
			if x.Assume(nx, true) {
				c, k := x.Eval(a.cur[ph])
				t.up[ph] = k && c && any(true)
			} else {
				t.up[ph] = true
			}
			x.undo(m)
			m = x.mark()
			if x.Assume(nx, false) {
				c, k := x.Eval(a.cur[ph])
				t.down[ph] = k && !c || any(false)
			} else {
				t.down[ph] = true
			}
			x.undo(m)
		}
		e.turns[a.header] = append(e.turns[a.header], t)
	}()
	for _, p := range e.compared(x, x.eventsAfter(a.header)) {
		el, ok := e.walked(x, p)
		if !ok {
			t.why = "cannot tell which elements are compared"
			continue
		}
		t.src = el.src
		switch {
		case !e.pairSame(x, p):
			t.why = "elements of different positions or keys are compared"
		case !x.turnAt(a, next, el):
			t.why = "a turn of the loop may compare another position than its own"
		case !p.ok || !p.v:
			good = append(good, p)
			t.why = "the answer of a comparison may be ignored"
		default:
			good = append(good, p)
			t.why = ""
		}
		for _, q := range []eqElem{p.a, p.b} {
			if q.get == nil {
				continue
			}
			// found on the side that is not walked
			if s := e.mapSide(q.src); s != 0 && e.baseSide(el.src) != s {
				f, k := x.Eval(x.ts.Mk(OExtract, types.Typ[types.Bool], "", 1, q.get))
				t.found = t.found || k && f
			}
		}
		if t.why == "" {
			break
		}
	}
}

// flagged: a variable of the loop tells whether all pairs so far were equal,
// and it does after the loop.
func (e *equals) flagged(x *Exec, a *loopAct, ts []eqTurn) bool {
	for ph, cur := range a.cur {
		if v, k := x.Eval(cur); !isBoolType(ph.Type()) || !k || !v {
			continue
		}
		all := true
		for _, t := range ts {
			all = all && t.up[ph]
		}
		if all {
			return true
		}
	}
	return false
}

// flagDown: a variable of the loop tells that a pair differed.
func (e *equals) flagDown(x *Exec) bool {
	for _, ev := range x.Events {
		if ev.Kind != "loop" {
			continue
		}
		a := ev.Data.(*loopAct)
		for ph, cur := range a.cur {
			if !isBoolType(ph.Type()) {
				continue
			}
			v, k := x.Eval(cur)
			en, ek := x.Eval(a.entry[ph])
			all := k && !v && ek && en && len(e.turns[a.header]) > 0
			for _, t := range e.turns[a.header] {
				all = all && t.down[ph]
			}
			if all {
				return true
			}
		}
	}
	return false
}

func (e *equals) baseSide(t *Term) int {
	if isSmapKeys(t) {
		t = t.args[0]
	}
	return e.mapSide(t)
}

// differ: the path knows of a difference.
func (e *equals) differ(x *Exec) bool {
	for _, p := range e.payloads(x) {
		switch p[0].typ.Underlying().(type) {
		case *types.Slice, *types.Map:
			d := x.Lin(x.LenOf(p[0])).sub(x.Lin(x.LenOf(p[1])))
			if x.Entails(d.plus(-1)) || x.Entails(d.neg().plus(-1)) || e.lenNe(x, p[0], p[1]) {
				return true
			}
		default:
			if e.payloadEq(x, p[0], p[1], false) {
				return true
			}
		}
	}
	for _, c := range e.splits(x) {
		l0 := x.Lin(x.LenOf(x.ts.Mk(OExtract, c.args[0].typ, "", 0, c)))
		l3 := x.Lin(x.LenOf(x.ts.Mk(OExtract, c.args[0].typ, "", 3, c)))
		if x.EntailsSplit(l0.add(l3).plus(-1)) {
			return true
		}
	}
	for _, p := range e.compared(x, x.Events) {
		if p.ok && !p.v && e.pairSame(x, p) {
			return true
		}
	}
	if e.flagDown(x) {
		return true
	}
	// a key of one side was not found on the other
	for _, ev := range x.Events {
		if ev.Kind != "call" || ev.Res == nil || !strings.Contains(ev.Name, "SSortedMap).") {
			continue
		}
		var has *Term
		switch ev.Name[strings.LastIndexByte(ev.Name, '.')+1:] {
		case "Get":
			has = x.ts.Mk(OExtract, types.Typ[types.Bool], "", 1, ev.Res)
		case "Contains":
			has = ev.Res
		default:
			continue
		}
		if f, k := x.Eval(has); !k || f {
			continue
		}
		s := e.mapSide(ev.Args[0])
		for _, el := range x.elems(ev.Args[1]) {
			o := e.baseSide(el.src)
			if s+o == 3 {
				return true
			}
		}
		if k := ev.Args[1]; k.op == OExtract && k.args[0].op == OCall && len(k.args[0].args) > 0 {
			if src := iterSource(x, k.args[0].args[0]); src != nil && s+e.mapSide(src) == 3 {
				return true
			}
		}
	}
	return false
}

// lenNe: the lengths were compared and found unequal.
func (e *equals) lenNe(x *Exec, a, b *Term) bool {
	v, k := x.Eval(x.Bin("==", x.LenOf(a), x.LenOf(b), types.Typ[types.Bool]))
	return k && !v
}
