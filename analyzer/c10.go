package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C10"] = check{explainC10, runC10} }

const explainC10 = "Path-sensitive interpretation of each node type's unmarshal method (helpers inlined, recursion cut). On every path that may return a nil error the target must have been given exactly one final value that depends on the node's own payload, or the node or its elements must have been handed on (recursive unmarshal, custom decoder). Loops over elements must hand on one element per turn and end only when all were visited. Constants that stand for the payload must agree with its truth value and not be the only outcome."

// payloadTypes are the exported node types that hold a value of their own.
func (w *World) payloadTypes() []string {
	var out []string
	for _, n := range w.NodeTypes() {
		nt := w.NamedType(n)
		if !nt.Obj().Exported() {
			continue
		}
		st := nt.Underlying().(*types.Struct)
		own := false
		for i := 0; i < st.NumFields(); i++ {
			own = own || !st.Field(i).Embedded()
		}
		if own {
			out = append(out, n)
		}
	}
	return out
}

// isPayload: the field holds (part of) the value of the node. The node id of a
// dict does not.
func isPayload(st *types.Struct, i int) bool {
	f := st.Field(i)
	if f.Embedded() {
		return false
	}
	rank := func(t types.Type) int {
		switch {
		case isIntType(t):
			return 1
		case isFloatType(t):
			return 2
		}
		if _, basic := t.Underlying().(*types.Basic); basic {
			return 3
		}
		return 4
	}
	for j := 0; j < st.NumFields(); j++ {
		if !st.Field(j).Embedded() && rank(st.Field(j).Type()) > rank(f.Type()) {
			return false // a precision, a node id
		}
	}
	return true
}

// rvMethods are the node methods that take a reflect.Value: name -> true.
func (w *World) rvMethods() map[string]bool {
	out := map[string]bool{}
	it := w.NodeIface()
	for i := 0; it != nil && i < it.NumMethods(); i++ {
		sig := it.Method(i).Type().(*types.Signature)
		for j := 0; j < sig.Params().Len(); j++ {
			if isReflectValue(sig.Params().At(j).Type()) {
				out[it.Method(i).Name()] = true
			}
		}
	}
	return out
}

// own tells whether a term is made from what the node holds.
type ownTerm struct {
	node *Term // the receiver, or the node parameter of a helper
	st   *types.Struct
}

func (o *ownTerm) in(t *Term) bool {
	if t == nil || t.op == OMake { // the length of new storage says nothing of its content
		return false
	}
	if t == o.node {
		return true
	}
	if t.op == OFieldAddr && t.args[0] == o.node && o.st != nil {
		return isPayload(o.st, t.num)
	}
	if t.op == OField && t.args[0] == o.node && o.st != nil {
		return isPayload(o.st, t.num)
	}
	for _, a := range t.args {
		if o.in(a) {
			return true
		}
	}
	return false
}

type c10path struct {
	group  string // decisions that do not concern the payload
	consts []string
	site   ssa.Instruction
	fr     *Frame
}

type c10 struct {
	*Obls
	rf      *Refl
	names   map[string]bool // methods that hand a value on
	root    *ssa.Function
	node    *Term
	own     *ownTerm
	val     *Term // nil for helpers
	active  bool
	loops   map[*ssa.BasicBlock]map[bool]int // header -> turn hands on -> count
	incompl map[*ssa.BasicBlock]string
	wants   []func()
	consts  map[string]map[string]bool // group -> constants stored
	csite   map[string]*Event
	other   map[string]bool       // groups with other outcomes
	helpers map[*ssa.Function]int // recursive helper -> node parameter
}

func runC10(w *World, r *Rep) {
	c := &c10{Obls: newObls(w, r), rf: NewRefl(w), names: w.rvMethods(), loops: map[*ssa.BasicBlock]map[bool]int{}, incompl: map[*ssa.BasicBlock]string{},
		consts: map[string]map[string]bool{}, csite: map[string]*Event{}, other: map[string]bool{}, helpers: map[*ssa.Function]int{}}
	roots := map[*ssa.Function]bool{}
	for _, t := range w.payloadTypes() {
		for m := range c.names {
			if f, _ := w.Method(t, m); f != nil && f.Blocks != nil {
				roots[unwrapPromoted(f)] = true
			}
		}
	}
	if len(roots) == 0 {
		r.Bad("anchor", "-", "JSONObject", "-", "no unmarshal method of a node type was found")
		return
	}
	c.rf.Settled = func() {
		// recursive functions that are handed a node
		for _, f := range c.rf.order {
			if roots[f] || f.Signature.Recv() != nil && c.rf.isNodeMethod(f) || !c.handsOn(f) || w.exportedAPI(f) {
				continue
			}
			for i, p := range f.Params {
				if w.isNodeIface(p.Type()) {
					c.helpers[f] = i
				}
			}
		}
	}
	c.rf.Begin = func(x *Exec, root *ssa.Function, args []*Term) {
		c.active = false
		c.root = root
		if roots[root] {
			c.active = true
			c.node = args[0]
			c.own = &ownTerm{node: args[0], st: structOf(root.Signature.Recv().Type())}
			for i, p := range root.Params {
				if isReflectValue(p.Type()) {
					c.val = args[i]
				}
			}
			return
		}
		if i, ok := c.helpers[root]; ok {
			c.active = true
			c.node = args[i]
			c.own = &ownTerm{node: args[i]}
			c.val = nil
		}
	}
	c.rf.Branch = func(x *Exec, fr *Frame, cond *Term, v bool) {
		if c.active {
			x.event(&Event{Kind: "branch", Args: []*Term{cond}, Data: v, Fr: fr})
		}
	}
	c.rf.Back = c.back
	c.rf.Ret = c.ret
	c.rf.Run()
	for _, f := range c.wants {
		f()
	}
	// the outcome for one kind of target cannot always be the same constant
	var gs []string
	for g := range c.consts {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		e := c.csite[g]
		only := ""
		for k := range c.consts[g] {
			only = k
		}
		c.need(e.Fr, e.Instr, "own value", "constant "+e.Name, len(c.consts[g]) > 1 || c.other[g], "the target is always given %s whatever the node holds", only)
	}
	c.finish()
	for _, f := range c.rf.fallout {
		r.Bad("undecided", f, "paths", "-", "too many paths to decide")
	}
	for f := range roots {
		r.Visit(fnName(f))
	}
	for f := range c.helpers {
		r.Visit(fnName(f))
	}
	r.Notes = append(r.Notes, fmt.Sprintf("%d unmarshal methods, %d recursive helpers", len(roots), len(c.helpers)))
	r.Assume = append(r.Assume, "Go values are changed only through the reflect.Value they are reached by; library decoders store what they are given",
		"GetStructFieldIndexes of reflectutils finds the fields of a name", "conversions of one payload are faithful (numbers: C05)")
	r.AtLeast("stored", len(roots))
}

// exportedAPI: exported function or method.
func (w *World) exportedAPI(f *ssa.Function) bool {
	return f.Object() != nil && f.Object().Exported()
}

// handsOn: a call inside the function passes a node on.
func (c *c10) handsOn(f *ssa.Function) bool {
	for g := range c.w.Reach([]*ssa.Function{f}) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					cm := ci.Common()
					if cm.IsInvoke() && c.names[cm.Method.Name()] && c.w.isNodeIface(cm.Value.Type()) {
						return true
					}
				}
			}
		}
	}
	return false
}

// onVal: the reflect.Value is the target or reached through it.
func (c *c10) onVal(x *Exec, v *Term) bool {
	if c.val == nil {
		return true
	}
	for {
		if v == c.val {
			return true
		}
		if v.op != OCall || len(v.args) == 0 {
			return v.op == OFresh && v.contains(c.val)
		}
		if !strings.HasPrefix(v.aux, "rv.") && v.aux != "reflect.Indirect" {
			return false
		}
		v = v.args[0]
	}
}

// delegation: the call hands the node or one of its elements on to a target.
func (c *c10) delegation(x *Exec, e *Event, dep func(*Term) bool) (target *Term, ok bool) {
	if e.Kind != "call" {
		return nil, false
	}
	m := e.Name[strings.LastIndexByte(e.Name, '.')+1:]
	switch {
	case c.names[m] && len(e.Args) > 0 && c.own.in(e.Args[0]):
		for _, a := range e.Args[1:] {
			if a.typ != nil && isReflectValue(a.typ) || a.op == OCall && (strings.HasPrefix(a.aux, "rv.") || strings.HasPrefix(a.aux, "reflect.")) {
				return a, true
			}
		}
		if n := len(e.Args); n > 1 {
			return e.Args[n-1], true
		}
	case m == "UnmarshalJSON":
		for _, a := range e.Args[1:] {
			if dep(a) {
				return c.val, true
			}
		}
	case e.Fn != nil:
		if i, ok := c.helpers[e.Fn]; ok && i < len(e.Args) && c.own.in(e.Args[i]) {
			return c.val, true
		}
	}
	return nil, false
}

var prepVals = []string{"reflect.New", "reflect.MakeSlice", "reflect.MakeMap", "reflect.MakeMapWithSize", "reflect.Zero"}

func isPrep(e *Event) bool {
	if strings.HasSuffix(e.Name, ".SetLen") || strings.HasSuffix(e.Name, ".SetCap") || strings.HasSuffix(e.Name, ".Grow") || strings.HasSuffix(e.Name, ".SetZero") {
		return true
	}
	if strings.HasSuffix(e.Name, ".Set") {
		for _, p := range prepVals {
			if isRefVal(e.Args[1], p) {
				return true
			}
		}
		if isRefVal(e.Args[1], "rv.Elem") && (isRefVal(e.Args[1].args[0], "reflect.New") || isRefVal(e.Args[1].args[0], "reflect.Zero")) {
			return true
		}
	}
	return false
}

// scan is what happened to the target among some events of a path.
type scan struct {
	final   []*Event // stores of the payload into the target
	handed  []*Event // payload handed on to the target
	foreign []*Event // stores of something else
	late    *Event   // store of an empty value after the final one
	branch  bool     // a decision depends on the payload
	group   string
}

func (c *c10) scan(x *Exec, evs []*Event, inLoop bool) *scan {
	s := &scan{}
	var temps []*Term   // values elements were handed to
	var touched []*Term // memory that was filled from the payload
	var gb strings.Builder
	filled := func(t *Term) bool {
		for _, m := range append(append([]*Term{}, temps...), touched...) {
			if t.contains(m) || related(t, m) {
				return true
			}
		}
		return false
	}
	dep := func(t *Term) bool { return c.own.in(t) || filled(t) }
	for _, e := range evs {
		switch e.Kind {
		case "branch":
			if c.own.in(e.Args[0]) {
				s.branch = true
			} else if _, isConst := e.Args[0].BoolVal(); !isConst {
				fmt.Fprintf(&gb, "%p%v;", e.Args[0], e.Data)
			}
		case "call":
			if t, ok := c.delegation(x, e, dep); ok {
				if t == nil || c.onVal(x, t) {
					s.handed = append(s.handed, e)
				} else {
					temps = append(temps, t)
				}
				continue
			}
			own := false
			for _, a := range e.Args {
				own = own || dep(a)
			}
			if own {
				for _, a := range e.Args {
					if r := addrRoot(a); r.op == OAlloc || r.op == OMake {
						touched = append(touched, r)
					}
				}
			}
		case "store":
			if dep(e.Args[1]) {
				if r := addrRoot(e.Args[0]); r.op == OAlloc {
					touched = append(touched, r)
				}
			}
		case "rset":
			if !c.onVal(x, e.Args[0]) {
				if len(e.Args) > 1 && dep(e.Args[1]) {
					temps = append(temps, e.Args[0])
				}
				continue
			}
			if strings.HasSuffix(e.Name, ".SetMapIndex") {
				if inLoop && len(e.Args) > 2 && dep(e.Args[2]) && dep(e.Args[1]) {
					s.final = append(s.final, e)
				} else {
					s.foreign = append(s.foreign, e)
				}
				continue
			}
			switch {
			case isPrep(e) && !filled(e.Args[1]):
				if len(s.final)+len(s.handed) > 0 {
					s.late = e
				}
			case len(e.Args) > 1 && dep(e.Args[1]) && !strings.HasSuffix(e.Name, ".SetLen"):
				s.final = append(s.final, e)
			case isPrep(e):
				if len(s.final)+len(s.handed) > 0 {
					s.late = e
				}
			default:
				s.foreign = append(s.foreign, e)
			}
		}
	}
	s.group = gb.String()
	return s
}

// related: the reflect.Values denote the same variable or its address.
func related(a, b *Term) bool {
	return a.any(func(t *Term) bool {
		return t == b || b.op == OCall && (b.aux == "rv.Elem" || b.aux == "reflect.Indirect") && t == b.args[0]
	}) ||
		b.any(func(t *Term) bool { return t == a && (a.op == OCall && a.num > 0 || a.op == OAlloc) }) || sharesMade(a, b)
}

// sharesMade: both terms mention the same value made on this path.
func sharesMade(a, b *Term) bool {
	made := map[*Term]bool{}
	b.any(func(t *Term) bool {
		if t.op == OAlloc || t.op == OCall && t.num > 0 && !strings.HasPrefix(t.aux, "rv.") && !strings.HasPrefix(t.aux, "typ") {
			made[t] = true
		}
		return false
	})
	return a.any(func(t *Term) bool { return made[t] })
}

func (c *c10) since(x *Exec, h *ssa.BasicBlock) []*Event {
	for i := len(x.Events) - 1; i >= 0; i-- {
		if x.Events[i].Kind == "loop" && x.Events[i].Data.(*loopAct).header == h {
			return x.Events[i+1:]
		}
	}
	return nil
}

// back is the end of one turn of a loop.
func (c *c10) back(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) {
	if !c.active {
		return
	}
	evs := c.since(x, a.header)
	s := c.scan(x, evs, true)
	n := len(s.final) + len(s.handed)
	for _, e := range evs {
		if e.Kind == "loop" {
			n += c.loopHands(e.Data.(*loopAct).header)
		}
	}
	if c.loops[a.header] == nil {
		c.loops[a.header] = map[bool]int{}
	}
	skip := c.mayskip(x, evs)
	if n == 0 && skip {
		return
	}
	c.loops[a.header][n > 0]++
	in := a.header.Instrs[0]
	root := fr
	c.wants = append(c.wants, func() {
		if c.loops[a.header][true] == 0 {
			return
		}
		c.need(root, in, "element", "loop over elements", n > 0, "a turn of the loop may end without handing on its element")
		c.need(root, in, "once", "loop over elements", s.late == nil, "an element is overwritten after it was stored")
	})
}

// loopHands: the turns of an inner loop hand elements on.
func (c *c10) loopHands(h *ssa.BasicBlock) int {
	if c.loops[h][true] > 0 {
		return 1
	}
	return 0
}

// mayskip: the path shows that no field has the key, or that it was seen.
func (c *c10) mayskip(x *Exec, evs []*Event) bool {
	for _, e := range evs {
		if e.Kind == "call" && strings.Contains(e.Name, "reflectutils.") && strings.Contains(e.Name, "StructFieldIndex") && e.Res != nil {
			if isSlice(e.Res.typ) {
				if x.Entails(x.Lin(x.LenOf(e.Res)).neg()) {
					return true
				}
			} else if isInt(e.Res.typ) && x.Entails(x.Lin(e.Res).neg().plus(-1)) {
				return true
			}
		}
		if e.Kind == "lookup" && len(e.Args) == 3 {
			// a set of names that were followed already
			if m, ok := e.Args[0].typ.Underlying().(*types.Map); ok && isBoolOrEmpty(m.Elem()) {
				if c.known(x, e) {
					return true
				}
			}
		}
	}
	return false
}

func isSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func isBoolOrEmpty(t types.Type) bool {
	if st, ok := t.Underlying().(*types.Struct); ok {
		return st.NumFields() == 0
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// known: the lookup found the key on this path.
func (c *c10) known(x *Exec, e *Event) bool {
	v := e.Args[2]
	if ep, ok := e.Data.(int); ok {
		if is, k := x.Eval(x.ts.Mk(OHas, types.Typ[types.Bool], "", ep, e.Args[0], e.Args[1])); k && is {
			return true
		}
	}
	if v.typ != nil && isBoolType(v.typ) {
		is, k := x.Eval(v)
		return k && is
	}
	return false
}

// complete: the loop was left because every element had been visited.
func (c *c10) complete(x *Exec, a *loopAct) bool {
	h := a.header
	// the iterator has no more
	for _, e := range c.since(x, h) {
		if e.Kind == "call" && strings.HasSuffix(e.Name, "SSortedMapIterator).HasMore") || e.Kind == "call" && strings.HasSuffix(e.Name, ".HasMore") {
			if v, k := x.Eval(e.Res); k && !v {
				return true
			}
		}
		if e.Kind == "next" {
			if v, k := x.Eval(e.Args[1]); k && !v {
				return true
			}
		}
	}
	for ph, t := range a.cur {
		if !isInt(ph.Type()) {
			continue
		}
		// index of a sequence: at or past its length
		for _, f := range x.lenTerms() {
			if x.Entails(x.Lin(t).plus(1).sub(x.Lin(f))) && (c.own.in(f) || c.val == nil) {
				return true
			}
		}
	}
	return false
}

// lenTerms are the lengths that facts of this path mention.
func (x *Exec) lenTerms() []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, l := range x.lin {
		for _, lv := range l.v {
			t := lv.t
			if t.op == OLen && !seen[t] {
				seen[t] = true
				out = append(out, t)
			}
		}
	}
	return out
}

// ret is the end of a path of a root.
func (c *c10) ret(x *Exec, root *ssa.Function, args, res []*Term) {
	if !c.active || len(res) == 0 {
		return
	}
	err := res[len(res)-1]
	if x.knownNil(err) == 0 {
		return
	}
	evs := append([]*Event{}, x.Events...)
	s := c.scan(x, evs, false)
	empty := c.emptyPayload(x, s, root)
	skip := c.val == nil && c.mayskip(x, evs)
	var lhs []*loopAct
	comp := map[*ssa.BasicBlock]bool{}
	for _, e := range evs {
		if e.Kind == "loop" {
			a := e.Data.(*loopAct)
			lhs = append(lhs, a)
			comp[a.header] = c.complete(x, a)
		}
	}
	at := retInstr(root)
	vk, vs := "", ""
	if c.val != nil {
		vk = kindSetString(x.KindOf(c.val))
		vs = c.val.String()
	}
	_ = vs
	c.truth(x, s)
	if len(s.final) == 0 && len(s.handed) == 0 && len(s.foreign) == 1 && s.branch && !empty {
		// a constant chosen by the payload
		e := s.foreign[0]
		if e.Name != "" {
			g := fmt.Sprintf("%p|%s", root, s.group)
			if c.consts[g] == nil {
				c.consts[g] = map[string]bool{}
				c.csite[g] = e
			}
			c.consts[g][e.Args[len(e.Args)-1].String()] = true
		}
	}
	if len(s.final)+len(s.handed) > 0 {
		c.other[fmt.Sprintf("%p|%s", root, s.group)] = true
	}
	c.wants = append(c.wants, func() {
		n := len(s.final) + len(s.handed)
		for _, a := range lhs {
			if c.loopHands(a.header) > 0 {
				n++
				c.need(nil, a.header.Instrs[0], "every element", "loop over elements", comp[a.header], "success may be reported before every element was handed on")
			}
		}
		if s.branch {
			n += len(s.foreign)
		}
		if n == 0 && (empty || skip) {
			return
		}
		if os.Getenv("C10DEBUG") != "" && (n != 1 || !s.branch && len(s.foreign) > 0 || s.late != nil) {
			fmt.Printf("PATH %s kind %s final %d handed %d foreign %d branch %v late %v\n", fnName(root), vk, len(s.final), len(s.handed), len(s.foreign), s.branch, s.late)
			for _, e := range evs {
				fmt.Printf("   %s %s %v %v %s\n", e.Kind, e.Name, e.Args, e.Data, c.w.InstrPos2(e.Instr))
			}
		}
		c.need(nil, at, "stored", "target of kind "+vk, n > 0, "success may be reported though the target was not given the node's value")
		c.need(nil, at, "once", "target of kind "+vk, n < 2 && (s.branch || len(s.foreign) == 0) && s.late == nil, "the target may be assigned more than once, or something other than the node's value")
	})
}

func retInstr(f *ssa.Function) ssa.Instruction {
	for _, b := range f.Blocks {
		if n := len(b.Instrs); n > 0 {
			if r, ok := b.Instrs[n-1].(*ssa.Return); ok {
				return r
			}
		}
	}
	return f.Blocks[0].Instrs[0]
}

// emptyPayload: an empty string offered to a number, or a nil sequence whose
// target keeps what it has.
func (c *c10) emptyPayload(x *Exec, s *scan, root *ssa.Function) bool {
	if c.val == nil || c.own.st == nil {
		return false
	}
	for i := 0; i < c.own.st.NumFields(); i++ {
		f := c.own.st.Field(i)
		if !isPayload(c.own.st, i) {
			continue
		}
		p := x.Load(x.ts.Mk(OFieldAddr, types.NewPointer(f.Type()), "", i, c.node))
		switch f.Type().Underlying().(type) {
		case *types.Basic:
			if !isStringType(f.Type()) {
				continue
			}
			num := rangeSet(2, 14)
			if x.Entails(x.Lin(x.LenOf(p)).neg()) && x.KindOf(c.val).Minus(num).Empty() {
				return true
			}
		case *types.Slice, *types.Map:
			if x.knownNil(p) == 1 || x.Entails(x.Lin(x.LenOf(p)).neg()) {
				return true
			}
		}
	}
	return false
}

// truth: a constant that stands for a payload has its truth value.
func (c *c10) truth(x *Exec, s *scan) {
	if c.own.st == nil {
		return
	}
	for _, e := range s.foreign {
		want := c.payloadTruth(x)
		if want < 0 || len(e.Args) < 2 {
			continue
		}
		got := x.truthOf(e.Args[1], 0)
		if got < 0 {
			continue
		}
		c.need(e.Fr, e.Instr, "truth", e.Name, got == want, "a payload that is %v is stored as %v", want == 1, got == 1)
	}
}

var truthWords = map[string]int{"true": 1, "yes": 1, "on": 1, "1": 1, "false": 0, "no": 0, "off": 0, "0": 0}

func (c *c10) payloadTruth(x *Exec) int {
	b2i := map[bool]int{true: 1, false: 0}
	for i := 0; i < c.own.st.NumFields(); i++ {
		f := c.own.st.Field(i)
		if !isPayload(c.own.st, i) {
			continue
		}
		p := x.Load(x.ts.Mk(OFieldAddr, types.NewPointer(f.Type()), "", i, c.node))
		switch {
		case isBoolType(f.Type()):
			if v, k := x.Eval(p); k {
				return b2i[v]
			}
		case isIntType(f.Type()) || isFloatType(f.Type()):
			for _, e := range x.Events {
				if e.Kind != "branch" {
					continue
				}
				t, v := e.Args[0], e.Data.(bool)
				neg := false
				for t.op == OUn && t.aux == "!" {
					t, neg = t.args[0], !neg
				}
				if t.op != OBin || t.aux != "==" && t.aux != "!=" || !c.own.in(t) {
					continue
				}
				o := t.args[1]
				if !c.own.in(t.args[0]) {
					o = t.args[0]
				}
				if o.k == nil || o.k.ExactString() != "0" {
					continue
				}
				zero := v != neg
				if t.aux == "!=" {
					zero = !zero
				}
				return b2i[!zero]
			}
		case isStringType(f.Type()):
			for _, e := range x.Events {
				if e.Kind != "branch" || e.Args[0].op != OBin || e.Args[0].aux != "==" || !e.Data.(bool) || !c.own.in(e.Args[0]) {
					continue
				}
				for _, a := range e.Args[0].args {
					if w, ok := a.StrVal(); ok {
						if v, ok := truthWords[w]; ok {
							return v
						}
					}
				}
			}
		}
	}
	return -1
}

// truthOf is the truth value a stored constant stands for: 1, 0, -1 unknown.
func (x *Exec) truthOf(t *Term, d int) int {
	if d > 8 {
		return -1
	}
	if b, ok := t.BoolVal(); ok {
		if b {
			return 1
		}
		return 0
	}
	if s, ok := t.StrVal(); ok {
		if v, ok := truthWords[s]; ok {
			return v
		}
		return -1
	}
	if t.k != nil {
		switch t.k.ExactString() {
		case "0":
			return 0
		case "1":
			return 1
		}
		return -1
	}
	if t.op == OGlobal {
		switch {
		case strings.Contains(t.aux, "True"):
			return 1
		case strings.Contains(t.aux, "False"):
			return 0
		}
		return -1
	}
	r := -1
	for _, a := range t.args {
		if v := x.truthOf(a, d+1); v >= 0 {
			if r >= 0 && r != v {
				return -1
			}
			r = v
		}
	}
	return r
}
