package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C17"] = check{explainC17, runC17} }

const explainC17 = "Path-sensitive interpretation of Marshal and MarshalAll. The recursive functions that yield a node are cut and judged once per combination of constant flags they are called with; everything else is followed. Below MarshalAll every path must yield a node. Below Marshal every path that may yield no node must know its value to be nil, an undefined tristate, or empty together with the matching flag of its field (zero number: OmitZero, false: OmitFalse, empty text or container: OmitEmpty). In every loop that marshals elements each turn marshals the element of its position with its own flags, puts the result into the list unless it is nil, passes over none except ignored fields and deprecated aliases, ends only when all elements were visited, and the list reaches the result."

// c17 follows the two marshal entry points. Recursive functions that yield a
// node are cut; each is judged once per combination of constant flags it is
// called with.
type c17 struct {
	*Obls
	*marshalCut
	seen  map[string]bool
	work  []c17job
	out   map[*ssa.Function]bool
	paths int
}

type c17job struct {
	fn    *ssa.Function
	flags map[int]bool
	fld   map[[2]int]bool
	all   bool
}

func (j c17job) key() string {
	return fmt.Sprint(j.fn, j.flags, j.fld, j.all)
}

func runC17(w *World, r *Rep) {
	m := newMarshalCut(w, r)
	if m == nil {
		return
	}
	c := &c17{Obls: newObls(w, r), marshalCut: m, seen: map[string]bool{}, out: map[*ssa.Function]bool{}}
	roots := m.roots
	c.add(c17job{fn: roots["Marshal"]})
	c.add(c17job{fn: roots["MarshalAll"], all: true})
	for len(c.work) > 0 {
		j := c.work[0]
		c.work = c.work[1:]
		c.judge(j)
	}
	c.finish()
	for f := range c.out {
		r.Visit(fnName(f))
	}
	r.Notes = append(r.Notes, fmt.Sprintf("%d paths in %d contexts", c.paths, len(c.seen)))
	r.Assume = append(r.Assume, "FetchStructFieldValueSet lists every field of a struct with its description", "a parse function that reports no error yields a node (C03)",
		"a list of pairs or nodes given to a constructor is kept whole (C16)")
	r.AtLeast("nothing omitted", 1)
	r.AtLeast("omitted", 1)
	r.AtLeast("every element", 2)
}

func (c *c17) add(j c17job) {
	if k := j.key(); !c.seen[k] {
		c.seen[k] = true
		c.work = append(c.work, j)
	}
}

// c17loop is a loop that hands elements on to a cut function.
type c17loop struct {
	hands    bool
	site     *Event
	skips    []c17skip
	carriers map[*ssa.Phi]bool
	srcs     map[string]bool
	exits    []c17exit
	feeds    map[c17list]bool // lists the elements are read from
	fills    map[*ssa.Phi]*c17fill
}

// c17list is a slice built by a loop.
type c17list struct {
	header *ssa.BasicBlock
	ph     *ssa.Phi
}

// c17fill is what the turns of a loop put into a list.
type c17fill struct {
	drops string // a turn that puts nothing into it
	srcs  map[string]bool
}

type c17skip struct {
	fr  *Frame
	in  ssa.Instruction
	msg string
}

type c17exit struct {
	in   ssa.Instruction
	lens map[string]bool // lengths it is known to have counted to
	done bool
	flow map[*ssa.Phi]bool
}

type c17cur struct {
	*c17
	j     c17job
	loops map[*ssa.BasicBlock]*c17loop
	order []*ssa.BasicBlock
}

func (c *c17) judge(j c17job) {
	if debug17 {
		fmt.Println("JOB", j.key())
	}
	q := &c17cur{c17: c, j: j, loops: map[*ssa.BasicBlock]*c17loop{}}
	p := NewPathRun(c.Obls.w)
	p.Inline = func(x *Exec, ca *Call) bool { return ca.Fn != nil && c.inline(ca.Fn) }
	p.Begin = func(x *Exec, args []*Term) bool {
		for i, v := range j.flags {
			args[i] = x.ts.Bool(v)
		}
		for k, v := range j.fld {
			st := structOf(args[k[0]].typ)
			x.Assume(x.Load(x.ts.Mk(OFieldAddr, types.NewPointer(st.Field(k[1]).Type()), "", k[1], args[k[0]])), v)
		}
		return true
	}
	p.Event = func(x *Exec, e *Event) {
		c.out[e.Fr.fn] = true
		if e.Kind == "call" && e.Fn != nil && c.cut[e.Fn] {
			if j.all {
				x.setNil(e.Res, false) // judged for the callee
			}
		}
	}
	p.Call = func(x *Exec, ca *Call) {
		if ca.Fn != nil && c.cut[ca.Fn] {
			c.add(c.jobFor(x, ca, j))
		}
	}
	p.Back = q.back
	p.Ret = q.ret
	if !p.Run(j.fn) {
		c.r.Bad("undecided", fnName(j.fn), "paths", "-", "too many paths to decide")
	}
	q.settle()
	c.paths += p.paths
}

// jobFor is a cut function with the flags known at a call.
func (c *c17) jobFor(x *Exec, e *Call, j c17job) c17job {
	n := c17job{fn: e.Fn, all: j.all, flags: map[int]bool{}, fld: map[[2]int]bool{}}
	for i, pr := range e.Fn.Params {
		if i >= len(e.Args) {
			continue
		}
		if isBoolType(pr.Type()) {
			if v, k := x.Eval(e.Args[i]); k {
				n.flags[i] = v
			}
			continue
		}
		if _, ok := pr.Type().Underlying().(*types.Pointer); !ok || x.knownNil(e.Args[i]) == 1 {
			continue
		}
		st := structOf(pr.Type())
		for f := 0; st != nil && f < st.NumFields(); f++ {
			if !isBoolType(st.Field(f).Type()) || isFieldInfo(pr.Type()) {
				continue
			}
			if v, k := x.Eval(x.Load(x.ts.Mk(OFieldAddr, types.NewPointer(st.Field(f).Type()), "", f, e.Args[i]))); k {
				n.fld[[2]int{i, f}] = v
			}
		}
	}
	return n
}

// isFieldInfo: the description of a struct field and its omission flags.
func isFieldInfo(t types.Type) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	return ok && n.Obj().Name() == "SStructFieldInfo"
}

func (c *c17) isCut(e *Event) bool { return e.Kind == "call" && e.Fn != nil && c.cut[e.Fn] }

// flagName is the omission flag a term reads from a field description.
func flagName(t *Term) string {
	var st types.Type
	i := 0
	switch {
	case t.op == OLoad && t.args[0].op == OFieldAddr:
		st, i = t.args[0].args[0].typ, t.args[0].num
	case t.op == OField:
		st, i = t.args[0].typ, t.num
	default:
		return ""
	}
	if st == nil || !isFieldInfo(st) {
		return ""
	}
	return structOf(st).Field(i).Name()
}

// literals are the conditions decided on the path, negations removed.
func literals(evs []*Event) (out []*Term, vals []bool) {
	for _, e := range evs {
		if e.Kind != "branch" {
			continue
		}
		t, v := e.Args[0], e.Data.(bool)
		for t.op == OUn && t.aux == "!" {
			t, v = t.args[0], !v
		}
		out, vals = append(out, t), append(vals, v)
	}
	return
}

func subterms(ts []*Term, f func(t *Term)) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
}

// reason tells why the value may be left out on this path; "" when nothing
// known on the path justifies it.
func (q *c17cur) reason(x *Exec, args []*Term) string {
	conds, _ := literals(x.Events)
	root := func(t *Term) bool {
		for i, a := range args {
			if p := q.j.fn.Params[i]; (isReflectValue(p.Type()) || isIface(p.Type())) && t.contains(a) {
				return true
			}
		}
		return false
	}
	flags := map[string]bool{}
	empty := map[string]bool{}
	why := ""
	tri := map[*Term]map[string]bool{}
	node := false
	for _, a := range args {
		if isIface(a.typ) && x.knownNil(a) == 1 {
			return "nil"
		}
	}
	subterms(conds, func(t *Term) {
		if n := flagName(t); n != "" {
			if v, k := x.Eval(t); k && v {
				flags[n] = true
			}
			return
		}
		switch {
		case t.op == OCall && (strings.HasSuffix(t.aux, "rv.IsNil") || strings.HasSuffix(t.aux, ".IsNil")) && root(t):
			if v, k := x.Eval(t); k && v {
				why = "nil"
			}
		case t.op == OCall && strings.HasSuffix(t.aux, ".IsValid") && root(t):
			if v, k := x.Eval(t); k && !v {
				why = "nil"
			}
		case t.op == OCall && strings.HasSuffix(t.aux, ".IsZero") && root(t):
			if v, k := x.Eval(t); k && v {
				empty[q.zeroClass(x, t.args[0])] = true
			}
		case t.op == OCall && (t.aux == "rv.Len" || t.aux == "rv.NumField") && root(t):
			if x.Entails(x.Lin(t).neg()) {
				empty["t"] = true
			}
		case t.op == OLen:
			carried := t.any(func(s *Term) bool { return s.op == OFresh || s.op == OAppend })
			if (root(t) || carried) && x.Entails(x.Lin(t).neg()) {
				empty["t"] = true
			}
		}
		if t.typ == nil || !root(t) {
			return
		}
		if isTri(t.typ) {
			for _, s := range []string{"true", "false", ""} {
				if v, k := x.Eval(x.Bin("==", t, x.ts.Const(constant.MakeString(s), t.typ), types.Typ[types.Bool])); k {
					if tri[t] == nil {
						tri[t] = map[string]bool{}
					}
					tri[t][s] = v
				}
			}
			return
		}
		if !payloadTerm(t) {
			return
		}
		cl := ""
		switch {
		case isIntType(t.typ):
			if l := x.Lin(t); x.Entails(l) && x.Entails(l.neg()) {
				cl = "n"
			}
		case isFloatType(t.typ):
			for _, z := range []constant.Value{constant.MakeInt64(0), constant.MakeFloat64(0)} {
				if v, k := x.Eval(x.Bin("==", t, x.ts.Const(z, t.typ), types.Typ[types.Bool])); k && v {
					cl = "n"
				}
			}
		case isBoolType(t.typ):
			if v, k := x.Eval(t); k && !v {
				cl = "b"
			}
		case isStringType(t.typ):
			if x.Entails(x.Lin(x.LenOf(t)).neg()) {
				cl = "t"
			}
		}
		if cl != "" {
			empty[cl] = true
			if t.any(func(s *Term) bool { return s.op == OAssert && q.nodeStruct(s.typ) }) {
				node = true
			}
		}
	})
	if why != "" {
		return why
	}
	for _, m := range tri {
		if v, k := m[""]; k && v {
			return "undefined tristate"
		}
		if t, k1 := m["true"]; k1 && !t {
			if f, k2 := m["false"]; k2 && !f {
				return "undefined tristate"
			}
		}
	}
	for cl, fl := range map[string]string{"n": "OmitZero", "b": "OmitFalse", "t": "OmitEmpty"} {
		if empty[cl] && flags[fl] {
			return "empty and " + fl
		}
	}
	if node && flags["OmitEmpty"] {
		return "empty node and OmitEmpty"
	}
	return ""
}

var debug17 = os.Getenv("D17") != ""
var stdSizes = types.SizesFor("gc", "amd64")

// payloadTerm: a value taken out of a reflect.Value, not a question about it.
func payloadTerm(t *Term) bool {
	switch t.op {
	case OAssert, OField, OLoad:
		return true
	case OConv:
		// a narrowing conversion can turn other values into zero
		f, okf := t.args[0].typ.Underlying().(*types.Basic)
		g, okg := t.typ.Underlying().(*types.Basic)
		return okf && okg && f.Info()&types.IsConstType == g.Info()&types.IsConstType && stdSizes.Sizeof(g) >= stdSizes.Sizeof(f) && payloadTerm(t.args[0])
	case OCall:
		switch t.aux {
		case "rv.Bool", "rv.Int", "rv.Uint", "rv.Float", "rv.String":
			return true
		}
	}
	return false
}

func isTri(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "TriState"
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func (c *c17) nodeStruct(t types.Type) bool {
	for _, n := range c.Obls.w.NodeTypes() {
		if types.Identical(c.Obls.w.NamedType(n), t) {
			return true
		}
	}
	return false
}

// zeroClass is the kind of emptiness of a value that is its type's zero.
func (q *c17cur) zeroClass(x *Exec, v *Term) string {
	if v.typ == nil || !isReflectValue(v.typ) {
		return "t"
	}
	ks := x.KindOf(v)
	switch {
	case ks.Minus(kset(2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14)).Empty():
		return "n"
	case ks.Minus(kset(1)).Empty():
		return "b"
	case ks.Minus(kset(17, 21, 23, 24, 25)).Empty():
		return "t"
	}
	return "-"
}

func (q *c17cur) loop(h *ssa.BasicBlock) *c17loop {
	l := q.loops[h]
	if l == nil {
		l = &c17loop{carriers: map[*ssa.Phi]bool{}, srcs: map[string]bool{}, feeds: map[c17list]bool{}, fills: map[*ssa.Phi]*c17fill{}}
		q.loops[h] = l
		q.order = append(q.order, h)
	}
	return l
}

// back is the end of one turn of a loop.
func (q *c17cur) back(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) {
	l := q.loop(a.header)
	turn := x.eventsAfter(a.header)
	q.fill(x, l, a, next, turn)
	var calls []int
	for i, e := range turn {
		if q.isCut(e) {
			calls = append(calls, i)
		}
	}
	at := a.header.Instrs[len(a.header.Instrs)-1]
	if len(calls) == 0 {
		if q.skippable(x, turn) == "" {
			l.skips = append(l.skips, c17skip{fr, at, q.turnText(turn)})
		}
		return
	}
	l.hands = true
	l.site = turn[calls[0]]
	for _, i := range calls {
		e := turn[i]
		if q.inner(turn[:i]) {
			continue // belongs to a loop inside this one
		}
		q.handed(x, a, next, l, e)
		used := q.kept(x, l, a, next, turn[i+1:], e.Res)
		ok := used || !q.j.all && x.knownNil(e.Res) == 1
		q.need(fr, e.Instr, "kept", "element of "+fnName(e.Fr.fn), ok,
			"on a path (%s) the marshalled element is not put into the result although it is not nil", q.turnText(turn[i+1:]))
	}
}

// fill notes what a turn puts into the slices the loop builds.
func (q *c17cur) fill(x *Exec, l *c17loop, a *loopAct, next map[*ssa.Phi]*Term, turn []*Event) {
	for ph, cur := range a.cur {
		if _, ok := ph.Type().Underlying().(*types.Slice); !ok || next[ph] == nil {
			continue
		}
		f := l.fills[ph]
		if f == nil {
			f = &c17fill{srcs: map[string]bool{}}
			l.fills[ph] = f
		}
		put := false
		for _, e := range turn {
			if e.Kind != "append" || len(e.Args) < 2 || !e.Args[0].contains(cur) || !next[ph].contains(e.Res) {
				continue
			}
			put = true
			els, ok := x.sliceElems(e.Args[1])
			if !ok {
				els = e.Args[1:]
			}
			for _, t := range els {
				for _, m := range x.elemsOf(t) {
					if m.kind == 'M' || x.turnAt(a, next, m) || q.fromEnd(x, a, next, m) {
						f.srcs[shape(m.src)] = true
					}
				}
			}
		}
		if !put && q.skippable(x, turn) == "" {
			f.drops = q.turnText(turn)
		}
	}
}

// feeds notes the loops that built the list an element is read from.
func (q *c17cur) feeds(x *Exec, l *c17loop, a *loopAct, src *Term) {
	for src.op == OSlice {
		src = src.args[0]
	}
	for _, e := range x.Events {
		if e.Kind != "loop" {
			continue
		}
		b := e.Data.(*loopAct)
		if b.header == a.header {
			continue
		}
		for ph, cur := range b.cur {
			if cur == src {
				l.feeds[c17list{b.header, ph}] = true
			}
		}
	}
}

// inner: the events end inside another loop.
func (q *c17cur) inner(evs []*Event) bool { return false }

// skippable: the element may be passed over.
func (q *c17cur) skippable(x *Exec, turn []*Event) string {
	conds, vals := literals(turn)
	for i, t := range conds {
		if flagName(t) == "Ignore" && vals[i] {
			return "ignored field"
		}
		if t.op == OExtract && t.num == 1 && t.args[0].op == OLookup || t.op == OHas {
			if vals[i] && t.any(func(s *Term) bool { return flagName(s) == "Tags" }) {
				return "deprecated alias"
			}
		}
	}
	why := ""
	subterms(conds, func(t *Term) {
		if flagName(t) == "Ignore" {
			if v, k := x.Eval(t); k && v {
				why = "ignored field"
			}
		}
	})
	return why
}

func (q *c17cur) turnText(evs []*Event) string {
	conds, vals := literals(evs)
	var out []string
	for i, t := range conds {
		if t.op == OConst {
			continue
		}
		s := fmt.Sprint(t)
		if len(s) > 80 {
			s = strings.ToValidUTF8(s[:80], "") + "…"
		}
		out = append(out, fmt.Sprintf("%s is %v", s, vals[i]))
	}
	if len(out) == 0 {
		return "unconditionally"
	}
	return "when " + strings.Join(out, ", ")
}

// elemsOf adds elements reached by reflection.
func (x *Exec) elemsOf(t *Term) []elem {
	out := x.elems(t)
	subterms([]*Term{t}, func(t *Term) {
		if t.op == OCall && (t.aux == "rv.Index" || t.aux == "rv.Field") && len(t.args) >= 2 {
			out = append(out, elem{kind: 'r', src: t.args[0], idx: t.args[1]})
		}
		if t.op == OIndexAddr && t.aux != "map" {
			out = append(out, elem{kind: 's', src: t.args[0], idx: t.args[1]})
		}
		if t.op == OCall && (strings.HasSuffix(t.aux, "MapIter).Value") || strings.HasSuffix(t.aux, "MapIter).Key")) {
			out = append(out, elem{kind: 'M', src: t.args[0]})
		}
	})
	return out
}

var numbering = regexp.MustCompile(`#\d+`)

func shape(t *Term) string { return numbering.ReplaceAllString(fmt.Sprint(t), "") }

// handed: the element given on stands at the position of the turn and brings
// no flags of another field.
func (q *c17cur) handed(x *Exec, a *loopAct, next map[*ssa.Phi]*Term, l *c17loop, e *Event) {
	at := false
	var el []elem
	for _, arg := range e.Args {
		if arg.typ == nil || !isReflectValue(arg.typ) && !isIface(arg.typ) {
			continue
		}
		el = append(el, x.elemsOf(arg)...)
	}
	for _, m := range el {
		if m.kind == 'M' || x.turnAt(a, next, m) || q.fromEnd(x, a, next, m) {
			at = true
			l.srcs[shape(m.src)] = true
			q.feeds(x, l, a, m.src)
		}
	}
	q.need(e.Fr, e.Instr, "every element", "element of "+fnName(e.Fr.fn), at, "the element handed on is not the one at the position of the turn")
	for i, p := range e.Fn.Params {
		if i >= len(e.Args) || !isFieldInfo(p.Type()) || x.knownNil(e.Args[i]) == 1 {
			continue
		}
		own := false
		for _, m := range x.elemsOf(e.Args[i]) {
			for _, o := range el {
				if m.src == o.src && m.kind == o.kind && m.idx == o.idx {
					own = true
				}
			}
		}
		q.need(e.Fr, e.Instr, "own flags", "flags in "+fnName(e.Fr.fn), own, "the element is marshalled with the omission flags of %s, which are not its own", e.Args[i])
	}
}

// fromEnd: turns count down from the last element of a reflect.Value.
func (q *c17cur) fromEnd(x *Exec, a *loopAct, next map[*ssa.Phi]*Term, e elem) bool {
	if e.kind != 'r' {
		return false
	}
	for ph, cur := range a.cur {
		nx := next[ph]
		if nx == nil || !isInt(ph.Type()) || !x.eqLin(x.Lin(nx), x.Lin(cur).plus(-1)) || !x.eqLin(x.Lin(e.idx), x.Lin(cur)) {
			continue
		}
		for _, n := range x.lengths() {
			if n.args[0] == e.src && x.eqLin(x.Lin(a.entry[ph]), x.Lin(n).plus(-1)) {
				return true
			}
		}
	}
	return false
}

// lengths are the lengths known to the path.
func (x *Exec) lengths() (lens []*Term) {
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t != nil && !seen[t] && (t.op == OLen || t.op == OCall && (t.aux == "rv.Len" || t.aux == "rv.NumField")) {
			seen[t] = true
			lens = append(lens, t)
		}
	}
	for _, l := range x.lin {
		for _, lv := range l.v {
			add(lv.t)
		}
	}
	for _, e := range x.Events {
		add(e.Res)
	}
	return
}

// kept: the result of the turn goes into what the loop builds.
func (q *c17cur) kept(x *Exec, l *c17loop, a *loopAct, next map[*ssa.Phi]*Term, evs []*Event, r *Term) bool {
	holds := func(ts []*Term) bool {
		for _, t := range ts {
			if t == nil {
				continue
			}
			if t.contains(r) {
				return true
			}
			if els, ok := x.sliceElems(t); ok {
				for _, el := range els {
					if el.contains(r) {
						return true
					}
				}
			}
			if t.op == OAlloc && t.typ != nil {
				if v := x.Load(t); v.contains(r) {
					return true
				}
			}
		}
		return false
	}
	ok := false
	for _, e := range evs {
		switch e.Kind {
		case "append":
			if holds(e.Args) {
				ok = true
				for ph, n := range next {
					if n.contains(e.Res) {
						l.carriers[ph] = true
					}
				}
			}
		case "mapset":
			ok = ok || holds(e.Args)
		case "call":
			// handed to something that can keep it
			for i, t := range e.Args {
				if t != nil && t != r && t.typ != nil && pointerLike(t.typ) && i == 0 && !e.pure() && holds(e.Args[1:]) {
					ok = true
				}
			}
		case "store":
			root := addrRoot(e.Args[0])
			if holds(e.Args[1:]) && (root.op != OAlloc || x.older(root, a)) && (e.Args[0].op == OIndexAddr || e.Args[1] != r && !isStructType(e.Args[1].typ)) {
				ok = true
			}
		}
	}
	return ok
}

func isStructType(t types.Type) bool {
	if t == nil {
		return true
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func pointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Interface:
		return true
	}
	return false
}

func (e *Event) pure() bool { return e.Res != nil && e.Res.op == OCall && e.Res.num == 0 }

// older: memory that existed before the loop was entered.
func (x *Exec) older(root *Term, a *loopAct) bool { return root.num <= a.fresh }

// ret is the end of a path.
func (q *c17cur) ret(x *Exec, args, res []*Term) {
	in := retInstr(q.j.fn)
	for i := len(x.Events) - 1; i >= 0; i-- {
		e := x.Events[i]
		if e.Kind != "loop" {
			continue
		}
		a := e.Data.(*loopAct)
		l := q.loop(a.header)
		l.exits = append(l.exits, q.exit(x, a, res[0]))
	}
	v := res[0]
	if q.j.all {
		ok := x.knownNil(v) == 0 || q.delegated(x, v)
		q.need(nil, in, "nothing omitted", fnName(q.j.fn)+" for MarshalAll", ok,
			"a path (%s) of %s yields no node for a value that MarshalAll has to render", q.turnText(x.Events), fnName(q.j.fn))
		return
	}
	if x.knownNil(v) == 0 || q.delegated(x, v) {
		return
	}
	why := q.reason(x, args)
	q.need(nil, in, "omitted", fnName(q.j.fn)+" for Marshal", why != "",
		"a path (%s) of %s leaves the value out although it is neither nil nor known to be empty with a field flag that asks for it", q.turnText(x.Events), fnName(q.j.fn))
}

// delegated: the answer is the one of a cut function or of the parser.
func (q *c17cur) delegated(x *Exec, v *Term) bool {
	if v.op == OCall && v.fn != nil && q.cut[v.fn] {
		return true
	}
	if v.op == OExtract && v.num == 0 && v.args[0].op == OCall && v.args[0].fn != nil {
		f := v.args[0].fn
		rs := f.Signature.Results()
		if q.Obls.w.IsMain(f) && rs.Len() == 2 && isErrorType(rs.At(1).Type()) && x.knownNil(x.ts.Mk(OExtract, rs.At(1).Type(), "", 1, v.args[0])) == 1 {
			return true
		}
	}
	return false
}

func (q *c17cur) exit(x *Exec, a *loopAct, res *Term) c17exit {
	ex := c17exit{in: a.header.Instrs[len(a.header.Instrs)-1], lens: map[string]bool{}, flow: map[*ssa.Phi]bool{}}
	after := x.eventsAfter(a.header)
	for _, e := range after {
		if e.Kind == "call" && strings.HasSuffix(e.Name, "MapIter).Next") {
			v, k := x.Eval(e.Res)
			ex.done = k && !v
		}
		if e.Kind == "next" {
			v, k := x.Eval(e.Args[1])
			ex.done = k && !v
		}
	}
	lens := x.lengths()
	for ph, cur := range a.cur {
		if !isInt(ph.Type()) {
			continue
		}
		en := x.Lin(a.entry[ph])
		pos := x.Lin(cur).sub(en)
		for _, t := range lens {
			n := x.Lin(t)
			if x.Entails(pos.sub(n)) || x.Entails(pos.plus(1).sub(n)) && x.eqLin(en, linConst(-1)) || x.Entails(x.Lin(cur).neg().plus(-1)) && x.eqLin(en, n.plus(-1)) {
				ex.lens[shape(t.args[0])] = true
			}
		}
	}
	for ph, cur := range a.cur {
		if _, ok := ph.Type().Underlying().(*types.Slice); ok {
			ex.flow[ph] = x.knownNil(res) == 1 || flows(x, cur, after, res)
		}
	}
	return ex
}

// flows: what becomes of a value after a loop reaches the result.
func flows(x *Exec, from *Term, evs []*Event, res *Term) bool {
	marked := map[*Term]bool{from: true}
	has := func(t *Term) bool { return t != nil && t.any(func(s *Term) bool { return marked[s] }) }
	for _, e := range evs {
		t := false
		for _, a := range e.Args {
			t = t || has(a)
		}
		if !t || e.Kind == "branch" || e.Kind == "loop" {
			continue
		}
		if e.Res != nil {
			marked[e.Res] = true
		}
		if e.Kind == "store" && has(e.Args[1]) {
			marked[addrRoot(e.Args[0])] = true
		}
		if e.Kind == "call" {
			for _, a := range e.Args {
				if r := addrRoot(a); r.op == OAlloc {
					marked[r] = true
				}
			}
		}
	}
	return has(res)
}

// settle judges the loops that hand elements on.
func (q *c17cur) settle() {
	for _, h := range q.order {
		l := q.loops[h]
		if !l.hands {
			continue
		}
		at := h.Instrs[len(h.Instrs)-1]
		name := "elements of " + fnName(h.Parent())
		msg := ""
		for _, s := range l.skips {
			msg = s.msg
		}
		q.need(nil, at, "every element", "turns over "+name, len(l.skips) == 0, "a turn passes an element over %s", msg)
		for _, e := range l.exits {
			done := e.done
			for s := range e.lens {
				done = done || l.srcs[s]
			}
			q.need(nil, at, "every element", "end of "+name, done, "the loop can end before all elements were marshalled")
			for ph := range l.carriers {
				q.need(nil, at, "kept", "list of "+name, e.flow[ph], "the elements collected in %s do not reach the result", ph.Comment)
			}
		}
		for f := range l.feeds {
			q.settleFill(f)
		}
	}
}

// settleFill judges a loop that builds the list elements are read from.
func (q *c17cur) settleFill(f c17list) {
	l := q.loops[f.header]
	if l == nil || l.fills[f.ph] == nil {
		return
	}
	fl := l.fills[f.ph]
	at := f.header.Instrs[len(f.header.Instrs)-1]
	name := fmt.Sprintf("%s in %s", f.ph.Comment, fnName(f.header.Parent()))
	q.need(nil, at, "every element", "turns over "+name, fl.drops == "", "a turn puts no element into the list to marshal %s", fl.drops)
	for _, e := range l.exits {
		done := e.done
		for s := range e.lens {
			done = done || fl.srcs[s]
		}
		q.need(nil, at, "every element", "end of "+name, done, "the loop can end before all elements were put into the list to marshal")
	}
}
