package main

import (
	"go/constant"
	"go/types"
	"slices"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C16"] = check{explainC16, runC16} }

const explainC16 = "For every node type with content, each method that renders it, tests it for zero, converts it to Go values, compares, decodes or measures it must be its own and not the one inherited from null, and was interpreted along all its paths: a rendered scalar's text contains the payload (or is decided by it), a container's text is written by a loop in which every turn renders the element of its own position together with its key and which ends only when all elements were visited; IsZero answers true exactly on paths that know the payload to be zero or empty; Interface returns the payload or a container filled with the Interface of every element under its own key; the deep copy of each type is a new node whose fields equal the original's or are filled element by element."

type c16 struct {
	*Obls
	t   string
	st  *types.Struct
	own *ownTerm
}

func (c *c16) payloadField() (int, types.Type) {
	for i := 0; i < c.st.NumFields(); i++ {
		if isPayload(c.st, i) {
			return i, c.st.Field(i).Type()
		}
	}
	return -1, nil
}

// payload is the value of the payload field of a node.
func (c *c16) payload(x *Exec) *Term { return c.fieldOf(x, c.own.node) }

func (c *c16) fieldOf(x *Exec, n *Term) *Term {
	i, t := c.payloadField()
	return x.Load(x.ts.Mk(OFieldAddr, types.NewPointer(t), "", i, n))
}

func runC16(w *World, r *Rep) {
	o := newObls(w, r)
	for _, t := range w.payloadTypes() {
		c := &c16{Obls: o, t: t, st: w.NamedType(t).Underlying().(*types.Struct)}
		if i, _ := c.payloadField(); i < 0 {
			continue
		}
		it := w.NodeIface()
		names := map[string]bool{}
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			g := w.renderGroup(m)
			if m.Name() == "YAMLString" {
				g = 'y'
			}
			switch {
			case g != 0:
				names[m.Name()] = true
				if fn := c.declared(m.Name()); fn != nil {
					c.text(fn, g)
				}
			case m.Name() == "Equals" || w.rvMethods()[m.Name()]:
				c.declared(m.Name()) // judged in C20 and C10
			case m.Name() == "Interface":
				if fn := c.declared(m.Name()); fn != nil {
					c.convert(fn)
				}
			case m.Name() == "IsZero":
				if fn := c.declared(m.Name()); fn != nil {
					c.zero(fn)
				}
			}
		}
		if f, _ := w.Method(t, "IsZero"); f != nil {
			names["IsZero"] = true
			if fn := c.declared("IsZero"); fn != nil {
				c.zero(fn)
			}
		}
		for _, n := range []string{"Length", "Size"} {
			if f, _ := w.Method(t, n); f != nil {
				if fn := c.declared(n); fn != nil {
					c.size(fn)
				}
			}
		}
		if f, _ := w.Method(t, "Value"); f != nil {
			if fn := c.declared("Value"); fn != nil {
				c.convert(fn)
			}
		}
		if f := w.Func("DeepCopy"); f != nil && f.Blocks != nil && f.Signature.Params().Len() == 1 {
			c.copied(f)
		}
		if f, _ := w.Method(t, "DeepCopy"); f != nil {
			if fn := c.declared("DeepCopy"); fn != nil {
				c.handsOn(fn)
			}
		}
	}
	o.finish()
	r.Assume = append(r.Assume, "nodes held in containers are not nil")
	r.AtLeast("own method", 20)
	r.AtLeast("rendered", 10)
	r.AtLeast("zero", 4)
	r.AtLeast("deep copy", 4)
}

// declared is the type's own method of that name.
func (c *c16) declared(name string) *ssa.Function {
	f, _ := c.w.Method(c.t, name)
	g := unwrapPromoted(f)
	if g == nil || g.Blocks == nil {
		return nil
	}
	own := g.Signature.Recv() != nil && structOf(g.Signature.Recv().Type()) == c.st
	c.need(nil, retInstr(g), "own method", c.t+"."+name, own, "%s of %s is the one of another kind of node (%s)", name, c.t, fnName(g))
	if !own {
		return nil
	}
	c.r.Visit(fnName(g))
	return g
}

func isContainerType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

// --- text -------------------------------------------------------------------

type renderTurn struct {
	calls int  // elements rendered in the turn
	at    bool // at the position of the turn
	key   bool
	used  bool // the text goes somewhere
	null  bool // the element is known to be nil
}

func (c *c16) text(fn *ssa.Function, g byte) {
	t := newTxt(c.w, fn, g == 'q')
	t.bad, t.ok = func(*tbad) {}, func(string) {}
	turns := map[*ssa.BasicBlock][]renderTurn{}
	content := map[*ssa.BasicBlock]bool{}
	_, pt := c.payloadField()
	name := c.t + "." + fn.Name()
	at := retInstr(fn)
	set := func(x *Exec) {
		c.own = &ownTerm{node: x.ts.Param(fn.Params[0].Name(), 0, fn.Params[0].Type(), fn.Params[0]), st: c.st}
	}
	t.onBack = func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) {
		set(x)
		if isContainerType(pt) {
			turns[a.header] = append(turns[a.header], c.turn(x, t, a, next))
			return
		}
		end, _ := t.replay(x, nil, a.header)
		for ph, nx := range next {
			if isText(ph.Type()) {
				end.fn(nx)
			}
		}
		for v := range end.used {
			if e, ok := x.elemOf(v); ok && c.own.in(e.src) && x.turnAt(a, next, e) {
				content[a.header] = true
			}
		}
	}
	t.onRet = func(x *Exec, args, res []*Term) {
		set(x)
		if isContainerType(pt) {
			why := c.allRendered(x, turns)
			c.need(nil, at, "rendered", name, why == "", "%s", why)
			return
		}
		end, _ := t.replay(x, nil, nil)
		var parts []*Term
		for _, p := range end.seen {
			parts = append(parts, p.what...)
		}
		parts = append(parts, res...)
		for _, e := range x.Events {
			if e.Kind == "append" {
				parts = append(parts, e.Args[1])
			}
		}
		why := c.scalarText(x, parts, content)
		c.need(nil, at, "rendered", name, why == "", "%s", why)
	}
	if !t.run() {
		c.r.Bad("undecided", fnName(fn), "paths", "-", "too many paths to decide")
	}
}

// scalarText tells why a text may not show the payload.
func (c *c16) scalarText(x *Exec, parts []*Term, content map[*ssa.BasicBlock]bool) string {
	p := c.payload(x)
	for _, t := range parts {
		if t.any(func(s *Term) bool { return s == p || s.op == OField && c.isField(s) }) {
			return ""
		}
	}
	for _, e := range x.Events {
		if e.Kind == "loop" && content[e.Data.(*loopAct).header] && x.loopDone(e.Data.(*loopAct), c.own.in) {
			return ""
		}
	}
	// an empty text
	if isStringType(p.typ) && x.Entails(x.Lin(x.LenOf(p)).neg()) {
		return ""
	}
	for _, e := range x.Events {
		for _, t := range append(append([]*Term{}, e.Args...), e.Res) {
			if t != nil && t.typ != nil && isStringType(t.typ) && t.op == OCall && c.own.in(t) && x.Entails(x.Lin(x.LenOf(t)).neg()) {
				return ""
			}
		}
		if e.Kind == "branch" {
			ok := false
			e.Args[0].any(func(s *Term) bool {
				if s.op == OLen && s.args[0].op == OCall && c.own.in(s.args[0]) && x.Entails(x.Lin(s).neg()) {
					ok = true
				}
				return false
			})
			if ok {
				return ""
			}
		}
	}
	// constants chosen by the payload
	switch {
	case isBoolType(p.typ):
		v, known := x.Eval(p)
		if !known {
			return "the text does not depend on the value of the node"
		}
		said := false
		for _, t := range parts {
			bad := false
			t.any(func(s *Term) bool {
				if w, ok := s.StrVal(); ok {
					said = said || strings.Contains(w, strconv.FormatBool(v))
					bad = bad || strings.Contains(w, strconv.FormatBool(!v))
				}
				return false
			})
			if bad {
				return "the text says the opposite of the value"
			}
		}
		if said {
			return ""
		}
	default:
		r := x.rep1(p)
		if r.op == OConst {
			for _, t := range parts {
				if s, ok := t.StrVal(); ok {
					if n, ok := r.IntVal(); ok && s == strconv.FormatInt(n, 10) {
						return ""
					}
					if r.k.Kind() == constant.Float && s == r.k.ExactString() {
						return ""
					}
				}
			}
		}
	}
	return "the text does not contain the value of the node"
}

// isField: the term is the payload field of the node's struct value.
func (c *c16) isField(t *Term) bool {
	i, _ := c.payloadField()
	return t.num == i && (t.args[0] == c.own.node || t.args[0].op == OLoad && t.args[0].args[0] == c.own.node)
}

// turn judges one turn of a loop that may render elements.
func (c *c16) turn(x *Exec, t *txt, a *loopAct, next map[*ssa.Phi]*Term) renderTurn {
	rt := renderTurn{at: true, key: true, used: true}
	evs := x.eventsAfter(a.header)
	_, pt := c.payloadField()
	var keys []*Term
	for _, e := range evs {
		for _, arg := range append(append([]*Term{}, e.Args...), e.Res) {
			for _, el := range x.elems(arg) {
				if c.own.in(el.src) {
					if e.Kind == "branch" {
						if x.knownNil(arg) == 1 {
							rt.null = true
						}
					}
				}
			}
		}
	}
	for _, e := range evs {
		if e.Kind != "call" || len(e.Args) == 0 {
			continue
		}
		m := t.method(e)
		if m == nil || c.w.renderGroup(m) == 0 {
			continue
		}
		el, ok := x.elemOf(baseNode(e.Args[0]))
		if !ok || !c.own.in(el.src) {
			continue
		}
		rt.calls++
		rt.at = rt.at && x.turnAt(a, next, el)
		if t.query && el.kind == 's' && el.key == nil {
			rt.key = rt.key && !slices.ContainsFunc(evs, func(f *Event) bool { return x.otherNumber(f, el.idx) })
		}
		if el.key != nil {
			keys = append(keys, el.key)
		}
		if e.Res != nil {
			used := false
			for _, f := range evs {
				if f == e || f.Kind == "branch" || f.Kind == "append" || f.Kind == "store" && f.Args[0].op == OIndexAddr && f.Args[0].args[0].op == OAlloc {
					continue
				}
				for _, arg := range f.Args {
					used = used || arg != nil && arg.contains(e.Res)
				}
			}
			for ph, nx := range next {
				used = used || nx != nil && nx.contains(e.Res) && nx.contains(a.cur[ph])
			}
			rt.used = rt.used && used
		}
	}
	if _, isMap := pt.Underlying().(*types.Map); isMap || c.sorted(pt) {
		for _, k := range keys {
			shown := false
			for _, f := range evs {
				inList := f.Kind == "store" && f.Args[0].op == OIndexAddr
				if f.Kind != "call" && f.Kind != "enter" && f.Kind != "append" && !inList || isSmapAccess(f) || looksOnly(f) {
					continue
				}
				for _, arg := range f.Args {
					shown = shown || unchangedIn(arg, func(s *Term) bool {
						return s == k || s.op == OExtract && k.op == OExtract && s.num == k.num && s.args[0] == k.args[0]
					})
				}
			}
			rt.key = rt.key && shown
		}
		if len(keys) == 0 && rt.calls > 0 {
			rt.key = false
		}
	}
	return rt
}

// otherNumber: a number computed from the index, but not the index itself, is
// turned into text.
func (x *Exec) otherNumber(f *Event, idx *Term) bool {
	if f.Kind != "call" || !strings.HasPrefix(f.Name, "strconv.") || idx == nil {
		return false
	}
	for _, arg := range f.Args {
		if arg == nil || !isInt(arg.typ) || arg == idx || !arg.any(func(s *Term) bool { return s == idx }) {
			continue
		}
		if !x.eqLin(x.Lin(arg), x.Lin(idx)) {
			return true
		}
	}
	return false
}

// unchangedIn: a term is part of the text as it is.
func unchangedIn(t *Term, is func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if is(t) {
		return true
	}
	switch t.op {
	case OCall:
		if changesText(t.aux) {
			return false
		}
	case OBin:
		if !isStringType(t.typ) {
			return false
		}
	case OSlice, OIndex:
		if t.typ == nil || isStringType(t.typ) || t.op == OIndex {
			return false
		}
	case OLen:
		return false
	}
	return slices.ContainsFunc(t.args, func(a *Term) bool { return unchangedIn(a, is) })
}

// changesText: a library function that gives another text than the one it got.
func changesText(name string) bool {
	p, f, _ := strings.Cut(name, ".")
	return (p == "strings" || p == "bytes") && f != "Join" && f != "Clone" && f != "Concat"
}

// looksOnly: the call gives another text, or none, and writes nothing.
func looksOnly(e *Event) bool {
	return e.Kind == "call" && (changesText(e.Name) && e.Res != nil && !strings.Contains(e.Name, "Write"))
}

// isSmapAccess: the call only looks something up.
func isSmapAccess(e *Event) bool {
	return e.Fn != nil && e.Fn.Pkg != nil && e.Fn.Pkg.Pkg.Path() == sortedmapPath
}

// sorted: the payload is a sorted map.
func (c *c16) sorted(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == sortedmapPath
}

func (c *c16) allRendered(x *Exec, turns map[*ssa.BasicBlock][]renderTurn) string {
	if x.Entails(x.Lin(x.LenOf(c.payload(x))).neg()) || x.knownNil(c.payload(x)) == 1 {
		return ""
	}
	why := "the text does not contain the elements of the node"
	for _, e := range x.Events {
		if e.Kind != "loop" {
			continue
		}
		a := e.Data.(*loopAct)
		ts := turns[a.header]
		n := 0
		for _, t := range ts {
			n += t.calls
		}
		if n == 0 {
			continue
		}
		bad := ""
		for _, t := range ts {
			switch {
			case t.calls == 0 && !t.null:
				bad = "an element may be left out of the text"
			case t.calls > 1:
				bad = "an element may be rendered twice"
			case !t.at:
				bad = "a turn of the loop may render another element than its own"
			case !t.key:
				bad = "an element is rendered without its own key or index"
			case !t.used:
				bad = "the text of an element is dropped"
			}
		}
		if bad == "" && !x.loopDone(a, c.own.in) {
			bad = "the text may end before all elements were rendered"
		}
		if bad == "" {
			return ""
		}
		why = bad
	}
	return why
}

// --- zero test, conversion, size ----------------------------------------------

func (c *c16) path(fn *ssa.Function) *PathRun {
	p := NewPathRun(c.w)
	p.Inline = func(x *Exec, cl *Call) bool {
		if m := isNodeMethodFn(c.w, cl.Fn); m {
			return len(cl.Args) > 0 && sameNode(x, cl.Args[0], cl.Fr)
		}
		return true
	}
	p.Begin = func(x *Exec, args []*Term) bool {
		c.own = &ownTerm{node: args[0], st: c.st}
		return true
	}
	return p
}

// zeroness is 1 when the payload is known to be zero or empty, 0 when it is
// known not to be, -1 otherwise.
func (c *c16) zeroness(x *Exec) int {
	p := c.payload(x)
	if isContainerType(p.typ) || isStringType(p.typ) {
		l := x.Lin(x.LenOf(p))
		if x.Entails(l.neg()) || !isStringType(p.typ) && x.knownNil(p) == 1 {
			return 1
		}
		if x.Entails(l.plus(-1)) {
			return 0
		}
		if isStringType(p.typ) {
			if v, k := x.Eval(x.Bin("==", p, x.ts.Const(constant.MakeString(""), p.typ), types.Typ[types.Bool])); k {
				return a2i(v)
			}
		}
		return -1
	}
	if isBoolType(p.typ) {
		if v, k := x.Eval(p); k {
			return a2i(!v)
		}
		return -1
	}
	if v, k := x.Eval(x.Bin("==", p, x.ts.Const(constant.MakeInt64(0), p.typ), types.Typ[types.Bool])); k {
		return a2i(v)
	}
	if isFloatType(p.typ) {
		if v, k := x.Eval(x.Bin("==", p, x.ts.Const(constant.MakeFloat64(0), p.typ), types.Typ[types.Bool])); k {
			return a2i(v)
		}
	}
	return -1
}

func (c *c16) zero(fn *ssa.Function) {
	p := c.path(fn)
	at := retInstr(fn)
	p.Ret = func(x *Exec, args, res []*Term) {
		x.Fork(res[0], func(v bool) {
			z := c.zeroness(x)
			if v {
				c.need(nil, at, "zero", c.t+".IsZero", z == 1, "may answer true for a node that is not zero")
			} else {
				c.need(nil, at, "zero", c.t+".IsZero", z == 0, "may answer false for a zero node")
			}
		})
	}
	if !p.Run(fn) {
		c.r.Bad("undecided", fnName(fn), "paths", "-", "too many paths to decide")
	}
}

func (c *c16) size(fn *ssa.Function) {
	p := c.path(fn)
	at := retInstr(fn)
	p.Ret = func(x *Exec, args, res []*Term) {
		l := x.Lin(x.LenOf(c.payload(x)))
		ok := x.eqLin(x.Lin(res[0]), l)
		if n, isC := res[0].IntVal(); isC && n == 0 && x.knownNil(c.payload(x)) == 1 {
			ok = true
		}
		c.need(nil, at, "size", c.t+"."+fn.Name(), ok, "the result is not the number of elements of the node")
	}
	if !p.Run(fn) {
		c.r.Bad("undecided", fnName(fn), "paths", "-", "too many paths to decide")
	}
}

// isOwnPayload: the term is the payload itself.
func (c *c16) isOwnPayload(x *Exec, t *Term) bool {
	t = x.rep1(baseNode(t))
	p := c.payload(x)
	if t == p || t == x.rep1(p) || t.op == OField && c.isField(t) {
		return true
	}
	if t.op == OConv && p.typ != nil && types.Identical(t.typ.Underlying(), p.typ.Underlying()) {
		return c.isOwnPayload(x, t.args[0])
	}
	if b, ok := t.BoolVal(); ok && isBoolType(p.typ) {
		v, k := x.Eval(p)
		return k && v == b
	}
	return false
}

func (c *c16) convert(fn *ssa.Function) {
	p := c.path(fn)
	f := newFills()
	name := c.t + "." + fn.Name()
	f.own = func(t *Term) bool { return c.own.in(t) }
	p.Back = f.back
	at := retInstr(fn)
	p.Ret = func(x *Exec, args, res []*Term) {
		r := x.rep1(baseNode(res[0]))
		pl := c.payload(x)
		if !isContainerType(pl.typ) {
			c.need(nil, at, "converted", name, c.isOwnPayload(x, r), "the result is not the value of the node")
			return
		}
		if r.op == ONil || x.knownNil(r) == 1 {
			c.need(nil, at, "converted", name, c.zeroness(x) == 1, "may answer nil although the node has elements")
			return
		}
		why := f.filled(x, r, c.own.in)
		if why != "" && x.Entails(x.Lin(x.LenOf(pl)).neg()) {
			why = ""
		}
		c.need(nil, at, "converted", name, why == "", "%s", why)
		if fn.Name() == "Interface" {
			for _, e := range x.Events {
				if e.Kind != "loop" {
					continue
				}
				for _, t := range f.turns[e.Data.(*loopAct).header] {
					c.need(nil, at, "converted", name+" elements", !t.raw, "an element is handed out as a node instead of a Go value")
				}
			}
		}
	}
	if !p.Run(fn) {
		c.r.Bad("undecided", fnName(fn), "paths", "-", "too many paths to decide")
	}
}

// --- deep copy ------------------------------------------------------------------

// handsOn: the method of a type copies its own node.
func (c *c16) handsOn(fn *ssa.Function) {
	p := NewPathRun(c.w)
	p.Inline = func(x *Exec, cl *Call) bool { return cl.Fn == nil || cl.Fn.Name() != "DeepCopy" }
	at := retInstr(fn)
	p.Ret = func(x *Exec, args, res []*Term) {
		r := baseNode(res[0])
		ok := r.op == OCall && len(r.args) > 0 && baseNode(r.args[0]) == args[0]
		if r.op == OAlloc {
			ok = true
		}
		c.need(nil, at, "deep copy", c.t+".DeepCopy", ok, "the result is not a copy of the node")
	}
	p.Run(fn)
}

func (c *c16) copied(fn *ssa.Function) {
	p := NewPathRun(c.w)
	p.Literals = true
	pt := types.NewPointer(c.w.NamedType(c.t))
	f := newFills()
	var cur *Exec
	name := "DeepCopy of " + c.t
	at := retInstr(fn)
	made := func(t *Term) bool {
		return cur != nil && (t.op == OMake || t.op == OAlloc || t.op == OFresh && isMap(t.typ)) && f.filled(cur, t, c.own.in) == ""
	}
	from := func(t *Term) bool { return c.own.in(t) || made(t) }
	f.own = from
	p.Begin = func(x *Exec, args []*Term) bool {
		cur = x
		if !x.Assume(x.isType(args[0], pt), true) {
			return false
		}
		x.setNil(args[0], false)
		n := x.asserted(args[0], pt)
		x.setNil(n, false)
		c.own = &ownTerm{node: n, st: c.st}
		return true
	}
	p.Back = func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) {
		cur = x
		f.back(x, fr, a, next)
	}
	p.Ret = func(x *Exec, args, res []*Term) {
		cur = x
		r := baseNode(res[0])
		for _, e := range x.Events {
			// the pointer is not nil
			if e.Kind == "branch" && e.Data.(bool) && e.Args[0].any(func(t *Term) bool { return t.op == OCall && t.aux == "rv.IsNil" }) {
				return
			}
		}
		if r.op == OExtract || r.op == OLookup {
			c.need(nil, at, "deep copy", name, r.any(func(t *Term) bool { return t.contains(c.own.node) || t.contains(args[0]) }), "the result has nothing to do with the node")
			return // the copy made before
		}
		if r.op != OAlloc {
			c.need(nil, at, "deep copy", name, false, "the result is not a new node (%s)", r)
			return
		}
		st := structOf(r.typ)
		if st != c.st {
			c.need(nil, at, "deep copy", name, false, "the copy is a node of another kind")
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			fd := st.Field(i)
			if fd.Embedded() {
				continue
			}
			a := x.ts.Mk(OFieldAddr, types.NewPointer(fd.Type()), "", i, r)
			o := x.ts.Mk(OFieldAddr, types.NewPointer(fd.Type()), "", i, c.own.node)
			v := x.rep1(x.Load(a))
			if w := lastStored(x, r, i); w != nil {
				v = w // the node may have been handed to a call since
			}
			if isContainerType(fd.Type()) {
				why := f.filled(x, v, from)
				if why != "" {
					why = f.filled(x, a, from)
				}
				if why != "" && x.Entails(x.Lin(x.LenOf(c.payload(x))).neg()) {
					why = ""
				}
				c.need(nil, at, "deep copy", name+" "+fd.Name(), why == "", "%s", why)
				continue
			}
			same := v == x.rep1(x.Load(o)) || v.op == OLoad && v.args[0] == o || v.op == OField && v.num == i && v.args[0].op == OLoad && v.args[0].args[0] == c.own.node
			if b, ok := v.BoolVal(); ok && !same {
				w, k := x.Eval(x.Load(o))
				same = k && w == b
			}
			c.need(nil, at, "deep copy", name+" "+fd.Name(), same, "the copy's %s is not the original's", fd.Name())
		}
	}
	if !p.Run(fn) {
		c.r.Bad("undecided", fnName(fn), "paths", "-", "too many paths to decide")
	}
}

// lastStored is the value the path itself last stored in a field of a node.
func lastStored(x *Exec, n *Term, i int) *Term {
	for k := len(x.Events) - 1; k >= 0; k-- {
		e := x.Events[k]
		if e.Kind != "store" {
			continue
		}
		switch a := e.Args[0]; {
		case a.op == OFieldAddr && a.num == i && a.args[0] == n:
			return x.rep1(e.Args[1])
		case a == n && e.Args[1].op == OStruct && i < len(e.Args[1].args):
			return x.rep1(e.Args[1].args[i])
		}
	}
	return nil
}
