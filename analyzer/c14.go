package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C14"] = check{explainC14, runC14} }

const explainC14 = "The functions below Marshal and MarshalAll that yield a node are the places where the recursion is cut. On every path on which one of them hands the target of a pointer to a struct on, the pointer must have been found absent from a container (all its entries compared, or a map lookup that failed) and entered into that container, and not removed before. On every path that finds the pointer, the answer is the reference held by the entry found. Entries hold a reference and are registered under the next number of a counter; a path removes no more entries than it made, and only the last one; the reference is told the object that the pointer was marshalled to. Marshal and MarshalAll return a value only after a loop over all registered records has given each object that may be referred to an id, and its reference the same id; a record may be skipped only if a field that finding it always raises, and nothing sets back, has its initial value. Every JSON text method of the object type writes the id, if positive, after a key the parser looks for, and every one of the reference type writes the id between angle brackets."

// c14 judges how pointers are traced while a value is marshalled.
type c14 struct {
	*Obls
	*marshalCut
	dict  types.Type // the node type that carries an id
	idf   int
	refs  map[string]types.Type // node types that stand for another node
	loops map[*ssa.BasicBlock]*c14loop
	late  []func() // obligations that wait for what the loops do
	out   map[*ssa.Function]bool
	// the registry of records and the counter of ids, as fields
	regs     map[fldKey]bool
	counters map[fldKey]bool
	// the fields of records that decide whether a record gets its id
	guards map[fldKey]bool
	// what fields of records hold when they are made
	initial map[fldKey]*Term
	// the tables ids are given from
	walked map[fldKey]bool
}

// fldKey is a field of a struct type.
type fldKey struct {
	t string
	f int
}

// c14loop is what the turns of a loop do about a pointer.
type c14loop struct {
	search  bool                       // some turn compares the pointer with an entry
	bad     string                     // why the search is not a search
	us      map[string]bool            // pointers searched for
	conts   map[string]bool            // containers searched
	stays   int                        // turns that find the pointer and go on
	marks   map[*ssa.Phi]bool          // set by every turn that finds the pointer
	keeps   map[*ssa.Phi]bool          // never given up again
	isRec   map[*ssa.Phi]bool          // set to the entry found
	isIdx   map[*ssa.Phi]bool          // set to the position of the entry found
	counted map[fldKey]int             // turns that find the pointer and raise a field of the entry
	raises  map[string]map[fldKey]bool // fields raised in every turn, by where the first turn is
	turns   int
	pos     ssa.Instruction
	fr      *Frame
}

// c14note is what is known of an entry when it is made.
type c14note struct {
	us  []*Term
	rec *Term
	ref *Term
}

func runC14(w *World, r *Rep) {
	m := newMarshalCut(w, r)
	if m == nil {
		return
	}
	c := &c14{Obls: newObls(w, r), marshalCut: m, out: map[*ssa.Function]bool{}, loops: map[*ssa.BasicBlock]*c14loop{}, regs: map[fldKey]bool{}, counters: map[fldKey]bool{}, guards: map[fldKey]bool{}, initial: map[fldKey]*Term{}, walked: map[fldKey]bool{}}
	c.dict, c.idf = idField(w)
	if c.dict == nil {
		r.Bad("anchor", "-", "node id", "-", "no container node carries an id")
		return
	}
	c.refs = map[string]types.Type{}
	for _, n := range w.NodeTypes() {
		t := w.NamedType(n)
		if refIDField(w, t) >= 0 {
			c.refs[n] = t
		}
	}
	if len(c.refs) == 0 {
		r.Bad("anchor", "-", "reference", "-", "no node type stands for another node")
		return
	}
	var fns []*ssa.Function
	for f := range c.cut {
		fns = append(fns, f)
	}
	sortFns(fns)
	for _, f := range fns {
		c.follow(f)
	}
	for _, n := range []string{"Marshal", "MarshalAll"} {
		c.numbered(c.roots[n])
	}
	c.guardWrites()
	for _, g := range c.late {
		g()
	}
	c.text()
	c.finish()
	for f := range c.out {
		r.Visit(fnName(f))
	}
	r.Assume = append(r.Assume, "Two pointers are the same object exactly if their interface values (or addresses) are equal; pointers to other pointers, slices and maps that form cycles without a struct are outside the property.")
	r.Assume = append(r.Assume, "The last entry of the container belongs to the path that made it: callees remove at most what they entered, by the same rule.")
	r.AtLeast("looked up", 1)
	r.AtLeast("node set", 1)
	r.AtLeast("numbered", 2)
	r.AtLeast("id in text", 2)
}

func sortFns(fns []*ssa.Function) {
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
}

// refIDField: a node type with a node field and an integer: a reference.
func refIDField(w *World, t types.Type) int {
	st := structOf(t)
	id, node := -1, false
	for i := 0; st != nil && i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		switch {
		case w.isNodeIface(ft) && !st.Field(i).Embedded():
			node = true
		case isIntType(ft):
			id = i
		}
	}
	if !node {
		return -1
	}
	return id
}

func refNodeField(w *World, t types.Type) int {
	st := structOf(t)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if w.isNodeIface(st.Field(i).Type()) && !st.Field(i).Embedded() {
			return i
		}
	}
	return -1
}

func (c *c14) isRef(t types.Type) types.Type {
	for _, rt := range c.refs {
		if types.Identical(deref(t), rt) {
			return rt
		}
	}
	return nil
}

// --- following pointers -------------------------------------------------------

// pointers are the values v was reached from by following a pointer.
func (c *c14) pointers(x *Exec, v *Term) []*Term {
	var out []*Term
	subterms([]*Term{v}, func(t *Term) {
		if t.op == OCall && (t.aux == "rv.Elem" || t.aux == "reflect.Indirect") && len(t.args) > 0 {
			u := t.args[0]
			if !x.KindOf(u).Has(kPtr) {
				return
			}
			// pointers to anything but structs cannot close a cycle of structs
			et := x.KindsOfType(x.TypeOfVal(t))
			if !et.Has(kStruct) {
				return
			}
			out = append(out, u)
		}
	})
	return out
}

// idents are the terms that identify a pointer.
func isIdent(t, u *Term) bool {
	return t.op == OCall && len(t.args) > 0 && t.args[0] == u && (t.aux == "rv.Interface" || strings.HasSuffix(t.aux, ".Pointer") || strings.HasSuffix(t.aux, ".UnsafePointer"))
}

func bareIdent(t, u *Term) bool {
	for t != nil && t.op == OIface {
		t = t.args[0]
	}
	return t != nil && isIdent(t, u)
}

// identsIn are the pointers whose identity is part of a term.
func (c *c14) identsIn(x *Exec, t *Term, d int) []*Term {
	var out []*Term
	if t == nil {
		return nil
	}
	subterms([]*Term{t}, func(s *Term) {
		if s.op == OCall && len(s.args) > 0 && isIdent(s, s.args[0]) {
			out = append(out, s.args[0])
		}
	})
	if d > 2 {
		return out
	}
	if t.op == OAlloc {
		st := structOf(deref(t.typ))
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if ft := st.Field(i).Type(); isStructType(ft) {
				continue
			}
			out = append(out, c.identsIn(x, x.Load(x.ts.Mk(OFieldAddr, types.NewPointer(st.Field(i).Type()), "", i, t)), 3)...)
		}
		if st == nil {
			out = append(out, c.identsIn(x, x.Load(t), d+1)...)
		}
	}
	return out
}

// note remembers what an entry holds as it is made.
func (c *c14) note(x *Exec, e *Event) {
	var els []*Term
	switch e.Kind {
	case "append":
		if l, ok := x.sliceElems(e.Args[1]); ok {
			els = l
		}
	case "mapset":
		els = e.Args[1:]
	default:
		return
	}
	n := &c14note{}
	for _, el := range els {
		n.us = append(n.us, c.identsIn(x, el, 0)...)
		if ref := c.madeRef(x, el); ref != nil {
			n.rec, n.ref = el, ref
			st := structOf(deref(el.typ))
			for i := 0; st != nil && el.op == OAlloc && i < st.NumFields(); i++ {
				v := x.Load(x.ts.Mk(OFieldAddr, types.NewPointer(st.Field(i).Type()), "", i, el))
				if v.op == OConst {
					c.initial[fldKey{deref(el.typ).String(), i}] = v
				}
			}
		}
	}
	e.Data = n
}

// place is the address or the map of a container, without the versions of
// its parts.
func place(t *Term) string {
	if t.op == OLen {
		t = t.args[0]
	}
	if t.op == OLoad {
		t = t.args[0]
	}
	return shape(t)
}

// samePlace compares two places without the versions of their parts.
func samePlace(a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.op != b.op || a.aux != b.aux || a.op != OLoad && a.num != b.num || len(a.args) != len(b.args) || len(a.args) == 0 {
		return false
	}
	for i := range a.args {
		if !samePlace(a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}

// entered: the entries the events make for the pointer, by container.
func (c *c14) entered(u *Term, evs []*Event) map[string][]*c14note {
	cont := map[string][]*c14note{}
	app := map[*Term]*c14note{}
	for _, e := range evs {
		switch e.Kind {
		case "append":
			if nt, ok := e.Data.(*c14note); ok && hasTerm(nt.us, u) {
				app[e.Res] = nt
			}
		case "store":
			if nt := app[e.Args[1]]; nt != nil {
				cont[place(e.Args[0])] = append(cont[place(e.Args[0])], nt)
			}
		case "mapset":
			if nt, ok := e.Data.(*c14note); ok && hasTerm(nt.us, u) {
				cont[place(e.Args[0])] = append(cont[place(e.Args[0])], nt)
			}
		}
	}
	return cont
}

func hasTerm(ts []*Term, t *Term) bool {
	for _, o := range ts {
		if o == t {
			return true
		}
	}
	return false
}

// removals are the events that take something out of containers.
func (c *c14) removals(cont map[string]bool, evs []*Event) []*Event {
	var out []*Event
	for _, e := range evs {
		switch e.Kind {
		case "store":
			if e.Args[1].op != OAppend && cont[place(e.Args[0])] {
				out = append(out, e)
			}
		case "mapdel":
			if cont[place(e.Args[0])] {
				out = append(out, e)
			}
		}
	}
	return out
}

func (c *c14) isCut(e *Event) bool { return e.Kind == "call" && e.Fn != nil && c.cut[e.Fn] }

// loopSeen is a search seen on a path after it ended.
type loopSeen struct {
	a    *loopAct
	done map[string]bool   // containers that were walked to their end
	none []*ssa.Phi        // variables known to hold nothing
	some []*ssa.Phi        // variables known to hold something
	nils map[*ssa.Phi]bool // variables at whose position nothing is known to be
	hit  *Term             // entry that was found as the loop was left
	hitI *Term
	evs  []*Event
}

// seen lists the loops the path has gone through.
func (c *c14) seen(x *Exec, u *Term, evs []*Event) []*loopSeen {
	var out []*loopSeen
	for i, e := range evs {
		if e.Kind != "loop" {
			continue
		}
		a := e.Data.(*loopAct)
		l := &loopSeen{a: a, done: map[string]bool{}, nils: map[*ssa.Phi]bool{}, evs: evs[i+1:]}
		tried := map[string]bool{}
		for {
			last := ""
			if !x.loopDone(a, func(t *Term) bool {
				if s := place(t); !tried[s] {
					last = s
					return true
				}
				return false
			}) {
				break
			}
			if last == "" {
				break
			}
			tried[last], l.done[last] = true, true
		}
		for ph, t := range a.cur {
			switch c.holds(x, t) {
			case 0:
				l.none = append(l.none, ph)
			case 1:
				l.some = append(l.some, ph)
			}
		}
		subterms(branchTerms(l.evs), func(t *Term) {
			if t.typ == nil || !isNilable(t.typ) || x.knownNil(t) != 1 {
				return
			}
			m, ok := x.elemOf(t)
			if !ok || !isInt(m.idx.typ) {
				return
			}
			for ph, cur := range a.cur {
				if isInt(ph.Type()) && x.eqLin(x.Lin(m.idx), x.Lin(cur)) {
					l.nils[ph] = true
				}
			}
		})
		if _, rec, el, v, k := c.compared(x, l.evs, u); k && v {
			l.hit, l.hitI = rec, el.idx
		}
		out = append(out, l)
	}
	return out
}

// holds tells whether a variable holds an answer: 0 no, 1 yes, -1 unknown.
func (c *c14) holds(x *Exec, t *Term) int {
	switch {
	case isBoolType(t.typ):
		if v, k := x.Eval(t); k {
			if v {
				return 1
			}
			return 0
		}
	case isInt(t.typ):
		if x.Entails(x.Lin(t)) {
			return 1
		}
		if x.Entails(x.Lin(t).neg().plus(-1)) {
			return 0
		}
	case isNilable(t.typ):
		switch x.knownNil(t) {
		case 0:
			return 1
		case 1:
			return 0
		}
	}
	return -1
}

// compared finds the last comparison of an entry with the identity of u, or of
// any pointer if u is nil.
func (c *c14) compared(x *Exec, evs []*Event, u *Term) (who, rec *Term, el elem, val, known bool) {
	for i := len(evs) - 1; i >= 0; i-- {
		e := evs[i]
		if e.Kind != "branch" {
			continue
		}
		t, v := e.Args[0], e.Data.(bool)
		for t.op == OUn && t.aux == "!" {
			t, v = t.args[0], !v
		}
		if t.op != OBin || t.aux != "==" && t.aux != "!=" {
			continue
		}
		if t.aux == "!=" {
			v = !v
		}
		for k := 0; k < 2; k++ {
			id, o := t.args[k], t.args[1-k]
			for id.op == OIface {
				id = id.args[0]
			}
			if id.op != OCall || len(id.args) == 0 || !isIdent(id, id.args[0]) || u != nil && id.args[0] != u {
				continue
			}
			for o.op == OIface {
				o = o.args[0]
			}
			for _, m := range x.elemsOf(o) {
				return id.args[0], recOf(o), m, v, true
			}
		}
	}
	return
}

// turn judges a turn of any loop.
func (c *c14) turn(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) {
	l := c.loops[a.header]
	if l == nil {
		l = &c14loop{us: map[string]bool{}, conts: map[string]bool{}, counted: map[fldKey]int{}, raises: map[string]map[fldKey]bool{}, pos: a.header.Instrs[len(a.header.Instrs)-1], fr: fr}
		c.loops[a.header] = l
	}
	evs := x.eventsAfter(a.header)
	bad := func(s string) {
		if l.bad == "" {
			l.bad = s
		}
	}
	who, rec, el, hit, known := c.compared(x, evs, nil)
	l.turns++
	at := map[string]map[fldKey]bool{}
	for ph, cur := range a.cur {
		if !isInt(ph.Type()) || next[ph] == nil || !x.eqLin(x.Lin(next[ph]), x.Lin(cur).plus(1)) {
			continue
		}
		c.raisedAt(x, evs, func(rec *Term) bool {
			for _, m := range x.elemsOf(rec) {
				if !isInt(m.idx.typ) {
					continue
				}
				pos := x.Lin(m.idx)
				if m.src.op == OSlice {
					pos = pos.add(x.Lin(m.src.args[1]))
				}
				first := linShape(pos.sub(x.Lin(cur)).add(x.Lin(a.entry[ph])))
				at[first] = c.raisedAt(x, evs, func(r *Term) bool { return r == rec })
			}
			return false
		})
	}
	if l.turns == 1 {
		l.raises = at
	}
	for first, fs := range l.raises {
		for k := range fs {
			if !at[first][k] {
				delete(fs, k)
			}
		}
	}
	if !known {
		bad("a turn of the search does not compare the pointer with the entry at its position")
		return
	}
	l.search = true
	l.us[shape(who)] = true
	l.conts[place(el.src)] = true
	if !x.turnAt(a, next, el) {
		bad("a turn of the search does not compare the pointer with the entry at its position")
	}
	keep, mark, isRec, isIdx := map[*ssa.Phi]bool{}, map[*ssa.Phi]bool{}, map[*ssa.Phi]bool{}, map[*ssa.Phi]bool{}
	for ph, n := range next {
		if c.holds(x, a.entry[ph]) != 0 {
			continue
		}
		set := hit && n != a.cur[ph] && (c.holds(x, n) == 1 || rec != nil && n == rec)
		if n == a.cur[ph] || set {
			keep[ph] = true
		}
		if set {
			mark[ph] = true
			isRec[ph] = rec != nil && n == rec
			isIdx[ph] = isInt(n.typ) && isInt(el.idx.typ) && x.eqLin(x.Lin(n), x.Lin(el.idx))
		}
	}
	and := func(p *map[*ssa.Phi]bool, q map[*ssa.Phi]bool) {
		if *p == nil {
			*p = q
			return
		}
		for k := range *p {
			if !q[k] {
				delete(*p, k)
			}
		}
	}
	and(&l.keeps, keep)
	if hit {
		l.stays++
		and(&l.marks, mark)
		and(&l.isRec, isRec)
		and(&l.isIdx, isIdx)
		for k := range c.raisedAt(x, evs, func(r *Term) bool { return r == rec }) {
			l.counted[k]++
		}
	}
}

// raisedAt are the fields of matching records that the events raise.
func (c *c14) raisedAt(x *Exec, evs []*Event, match func(rec *Term) bool) map[fldKey]bool {
	out := map[fldKey]bool{}
	for _, e := range evs {
		if e.Kind != "store" || e.Args[0].op != OFieldAddr {
			continue
		}
		a := e.Args[0]
		if !match(a.args[0]) {
			continue
		}
		k := fldKey{deref(a.args[0].typ).String(), a.num}
		v := e.Args[1]
		if isBoolType(v.typ) {
			if b, kn := x.Eval(v); kn && b {
				out[k] = true
			}
			continue
		}
		if !isInt(v.typ) {
			continue
		}
		subterms([]*Term{v}, func(t *Term) {
			if t.op == OLoad && samePlace(t.args[0], a) && x.Entails(x.Lin(v).sub(x.Lin(t)).plus(-1)) {
				out[k] = true
			}
		})
	}
	return out
}

// absent tells, once all loops are judged, which containers a path has
// searched in vain.
func (c *c14) absent(ls []*loopSeen, u string) map[string]bool {
	out := map[string]bool{}
	for _, s := range ls {
		l := c.loops[s.a.header]
		if l == nil || !l.search || l.bad != "" || !l.us[u] || s.hit != nil {
			continue
		}
		all := len(l.conts) > 0
		for k := range l.conts {
			all = all && s.done[k]
		}
		if !all {
			continue
		}
		ok := l.stays == 0
		for _, ph := range s.none {
			if l.marks[ph] && l.keeps[ph] {
				ok = true
			}
		}
		if ok {
			for k := range l.conts {
				out[k] = true
			}
		}
	}
	return out
}

// found tells whether a path has found the pointer, and in which entry.
func (c *c14) found(ls []*loopSeen, u string) (yes bool, l *c14loop, s *loopSeen) {
	for _, s := range ls {
		l := c.loops[s.a.header]
		if l == nil || !l.search || !l.us[u] {
			continue
		}
		if s.hit != nil {
			return true, l, s
		}
		for _, ph := range s.some {
			if l.marks[ph] {
				return true, l, s
			}
		}
	}
	return false, nil, nil
}

// cannotBe: the path found the pointer in an entry that is nothing.
func (c *c14) cannotBe(ls []*loopSeen, u string) bool {
	for _, s := range ls {
		l := c.loops[s.a.header]
		if l == nil || !l.search || l.bad != "" || !l.us[u] {
			continue
		}
		for _, ph := range s.some {
			if l.marks[ph] && l.isIdx[ph] && s.nils[ph] {
				return true
			}
		}
	}
	return false
}

// maps are the maps a path has looked the pointer up in: in vain, or not.
func (c *c14) maps(x *Exec, u *Term, evs []*Event) (absent map[string]bool, hit *Event) {
	absent = map[string]bool{}
	for _, e := range evs {
		if e.Kind != "lookup" || len(e.Args) < 3 || !bareIdent(e.Args[1], u) {
			continue
		}
		if v, k := x.Eval(x.ts.Mk(OHas, types.Typ[types.Bool], "", 0, e.Args[0], e.Args[1])); k {
			if v {
				hit = e
			} else {
				absent[place(e.Args[0])] = true
			}
			continue
		}
		if e.Args[2] != nil && isNilable(e.Args[2].typ) {
			switch x.knownNil(e.Args[2]) {
			case 0:
				hit = e
			case 1:
				absent[place(e.Args[0])] = true
			}
		}
	}
	return
}

// follow judges a cut function.
func (c *c14) follow(f *ssa.Function) {
	p := NewPathRun(c.Obls.w)
	p.Inline = c.followInto
	p.Back = c.turn
	p.Event = func(x *Exec, e *Event) {
		c.out[e.Fr.fn] = true
		c.note(x, e)
		if !c.isCut(e) {
			return
		}
		before := append([]*Event(nil), x.Events[:len(x.Events)-1]...)
		for _, a := range e.Args {
			if a == nil || a.typ == nil || !isReflectValue(a.typ) && !isIface(a.typ) {
				continue
			}
			for _, u := range c.pointers(x, a) {
				u, us := u, shape(u)
				ls := c.seen(x, u, before)
				inMap, _ := c.maps(x, u, before)
				ent := c.entered(u, before)
				c.late = append(c.late, func() {
					if c.cannotBe(ls, us) {
						return
					}
					cont := c.absent(ls, us)
					for k := range inMap {
						cont[k] = true
					}
					why := ""
					for _, s := range ls {
						if l := c.loops[s.a.header]; l != nil && l.search && l.bad != "" {
							why = ": " + l.bad
						}
					}
					c.need(e.Fr, e.Instr, "looked up", "pointer in "+fnName(e.Fr.fn), len(cont) > 0, "a pointer to a struct is followed on a path that has not found it absent from the pointers being marshalled%s", why)
					if len(cont) == 0 {
						return
					}
					both := false
					for k := range cont {
						both = both || len(ent[k]) > 0
					}
					c.need(e.Fr, e.Instr, "entered", "pointer in "+fnName(e.Fr.fn), both, "a pointer is followed without being entered into the container it is looked up in")
					c.need(e.Fr, e.Instr, "entered", "pointer kept while followed in "+fnName(e.Fr.fn), len(c.removals(cont, before)) == 0, "an entry is removed before the pointer was followed")
				})
			}
		}
	}
	p.Ret = func(x *Exec, args, res []*Term) {
		c.followed(x, f, args, res)
	}
	if !p.Run(f) {
		c.r.Bad("undecided", fnName(f), "paths", "-", "too many paths to decide")
	}
}

// followInto: besides what marshalCut follows, the functions that search.
func (c *c14) followInto(x *Exec, ca *Call) bool {
	f := ca.Fn
	if f == nil {
		return false
	}
	if c.inline(f) {
		return true
	}
	if c.cut[f] || c.rec[f] {
		return false
	}
	for _, a := range ca.Args {
		for a != nil && a.op == OIface {
			a = a.args[0]
		}
		if a != nil && a.op == OCall && len(a.args) > 0 && isIdent(a, a.args[0]) && !isReflectValue(a.typ) {
			return true
		}
	}
	return false
}

// followed judges the end of a path of a cut function.
func (c *c14) followed(x *Exec, f *ssa.Function, args, res []*Term) {
	in := retInstr(f)
	evs := append([]*Event(nil), x.Events...)
	for i, pr := range f.Params {
		if !isReflectValue(pr.Type()) {
			continue
		}
		u, us := args[i], shape(args[i])
		ls := c.seen(x, u, evs)
		inMap, hit := c.maps(x, u, evs)
		v := res[0]
		var raised map[fldKey]bool
		isRef := v.op == OIface && c.isRef(v.t2) != nil
		if hit != nil && hit.Args[2] != nil {
			rec := hit.Args[2]
			raised = c.raisedAt(x, evs, func(r *Term) bool { return r == rec })
			c.need(nil, in, "referred", "reference made in "+fnName(f), isRef && v.contains(rec), "a pointer that is already being marshalled is not answered by its reference")
			c.late = append(c.late, func() { c.hitCounted(in, f, raised) })
		}
		els := x.elemsOf(v)
		inside := map[*ssa.Phi]bool{}
		raisedBy := map[*ssa.Phi]map[fldKey]bool{}
		for _, s := range ls {
			for ph, cur := range s.a.cur {
				if v.contains(cur) {
					inside[ph] = true
				}
				cur := cur
				raisedBy[ph] = c.raisedAt(x, s.evs, func(r *Term) bool { return r == cur })
				if isInt(ph.Type()) {
					for _, m := range els {
						if isInt(m.idx.typ) && x.eqLin(x.Lin(m.idx), x.Lin(cur)) {
							inside[ph] = true
						}
					}
				}
			}
			if s.hit != nil {
				h := s.hit
				raised = c.raisedAt(x, s.evs, func(r *Term) bool { return r == h })
			}
		}
		again := c.again(x, evs)
		hitAt, curAt := "", map[*ssa.Phi]string{}
		for _, s := range ls {
			if s.hitI != nil && isInt(s.hitI.typ) {
				hitAt = linShape(x.Lin(s.hitI))
			}
			for ph, cur := range s.a.cur {
				if isInt(ph.Type()) {
					curAt[ph] = linShape(x.Lin(cur))
				}
			}
		}
		c.late = append(c.late, func() {
			yes, l, s := c.found(ls, us)
			if !yes || c.cannotBe(ls, us) {
				return
			}
			ok := isRef
			up := raised
			if s.hit != nil {
				same := v.contains(s.hit)
				for _, m := range els {
					same = same || s.hitI != nil && m.idx == s.hitI
				}
				ok = ok && same
				for k := range again(hitAt) {
					if up == nil {
						up = map[fldKey]bool{}
					}
					up[k] = true
				}
			} else {
				in := false
				for ph := range inside {
					in = in || l.marks[ph] && (l.isRec[ph] || l.isIdx[ph])
				}
				ok = ok && in
				up = map[fldKey]bool{}
				for k, n := range l.counted {
					if n == l.stays {
						up[k] = true
					}
				}
				for _, ph := range s.some {
					if l.marks[ph] && l.isIdx[ph] {
						for k := range again(curAt[ph]) {
							up[k] = true
						}
					}
				}
				for k := range raised {
					up[k] = true
				}
				for _, ph := range s.some {
					if l.marks[ph] && l.isRec[ph] {
						for k := range raisedBy[ph] {
							up[k] = true
						}
					}
				}
			}
			c.need(nil, in, "referred", "reference made in "+fnName(f), ok, "a pointer that is already being marshalled is not answered by its reference")
			c.hitCounted(in, f, up)
		})
		c.entries(x, f, u, v, evs, ls, inMap)
	}
}

// entries judges the entries a path of a cut function made for a pointer.
func (c *c14) entries(x *Exec, f *ssa.Function, u, v *Term, evs []*Event, ls []*loopSeen, inMap map[string]bool) {
	in, us := retInstr(f), shape(u)
	ent := c.entered(u, evs)
	rm := map[*Event]bool{}
	for _, e := range evs {
		if e.Kind == "store" && e.Args[1].op != OAppend {
			rm[e] = c.dropsLast(x, e)
		}
	}
	told := map[*c14note]bool{}
	made := map[*c14note]func(){}
	for _, ns := range ent {
		for _, n := range ns {
			if n.ref == nil || made[n] != nil {
				continue
			}
			rt := c.isRef(n.ref.typ)
			nf := refNodeField(c.Obls.w, rt)
			node := x.Load(x.ts.Mk(OFieldAddr, types.NewPointer(structOf(rt).Field(nf).Type()), "", nf, n.ref))
			no, kn := x.Eval(x.isType(v, types.NewPointer(c.dict)))
			told[n] = node == v || x.knownNil(v) == 1 || kn && !no || node.op == OIface && (v.op == OIface && node.args[0] == v.args[0] || types.Identical(node.t2, types.NewPointer(c.dict)) && node.args[0] == x.asserted(v, node.t2))
			made[n] = c.registered(x, f, n.ref)
		}
	}
	c.late = append(c.late, func() {
		cont := c.absent(ls, us)
		for k := range inMap {
			cont[k] = true
		}
		for _, l := range c.loops {
			for k := range l.conts {
				cont[k] = cont[k] || l.search
			}
		}
		for k := range cont {
			one := map[string]bool{k: true}
			gone := c.removals(one, evs)
			c.need(nil, in, "balanced", "entries of "+fnName(f), len(gone) <= len(ent[k]), "a path removes more entries than it made")
			for _, e := range gone {
				if e.Kind == "store" {
					c.need(e.Fr, e.Instr, "balanced", "removal", rm[e], "the removal takes more than the last entry away")
				}
			}
			for _, n := range ent[k] {
				// the reference made for the pointer refers to the answer
				c.need(nil, in, "referred", "record made in "+fnName(f), n.ref != nil, "the entry of a pointer does not hold a reference for it")
				if n.ref == nil {
					continue
				}
				c.need(nil, in, "node set", "reference made in "+fnName(f), told[n], "the reference of a pointer is not told the object the pointer was marshalled to: %s", v)
				made[n]()
			}
		}
	})
}

// linShape names a position without the versions of its parts.
func linShape(l Lin) string {
	var out []string
	for _, v := range l.v {
		out = append(out, fmt.Sprint(v.k, "*", shape(v.t)))
	}
	sort.Strings(out)
	return fmt.Sprint(out, l.c)
}

// again gives the fields that another loop of the path raises in the entry at
// a position, because it starts there or at the first entry.
func (c *c14) again(x *Exec, evs []*Event) func(at string) map[fldKey]bool {
	var as []*loopAct
	for _, e := range evs {
		if e.Kind == "loop" {
			as = append(as, e.Data.(*loopAct))
		}
	}
	return func(at string) map[fldKey]bool {
		out := map[fldKey]bool{}
		for _, a := range as {
			l := c.loops[a.header]
			if l == nil {
				continue
			}
			for _, first := range []string{at, linShape(linConst(0))} {
				for f := range l.raises[first] {
					out[f] = true
				}
			}
		}
		return out
	}
}

// hitCounted: what numbering asks of a record is set when it is referred to.
func (c *c14) hitCounted(in ssa.Instruction, f *ssa.Function, up map[fldKey]bool) {
	for g := range c.guards {
		c.need(nil, in, "counted", "reference made in "+fnName(f), up[g], "a reference is made without raising the field that decides whether the object gets an id")
	}
}

// dropsLast: the stored slice is the old one without its last element.
func (c *c14) dropsLast(x *Exec, e *Event) bool {
	v := e.Args[1]
	if v.op != OSlice || len(v.args) < 3 {
		return false
	}
	if lo, ok := v.args[1].IntVal(); !ok || lo != 0 {
		return false
	}
	d := x.Lin(x.LenOf(v.args[0])).sub(x.Lin(v.args[2]))
	return x.eqLin(d, linConst(1))
}

// madeRef is the reference held by a record.
func (c *c14) madeRef(x *Exec, rec *Term) *Term {
	if rec == nil || rec.typ == nil {
		return nil
	}
	if rec.op == OIface {
		rec = rec.args[0]
	}
	if c.isRef(rec.typ) != nil && rec.op == OAlloc {
		return rec
	}
	if rec.op != OAlloc {
		return nil
	}
	st := structOf(deref(rec.typ))
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if c.isRef(st.Field(i).Type()) != nil {
			v := x.Load(x.ts.Mk(OFieldAddr, types.NewPointer(st.Field(i).Type()), "", i, rec))
			if v.op == OAlloc {
				return v
			}
		}
	}
	return nil
}

// fieldOf is the field a place is.
func fieldOf(t *Term) (fldKey, bool) {
	if t.op == OLoad {
		t = t.args[0]
	}
	if t.op != OFieldAddr {
		return fldKey{}, false
	}
	return fldKey{deref(t.args[0].typ).String(), t.num}, true
}

// registered: the record is put under the next number of a counter in the
// table from which the ids are given.
func (c *c14) registered(x *Exec, f *ssa.Function, ref *Term) func() {
	in := map[fldKey]bool{}
	app := map[*Term]bool{}
	type entry struct {
		e  *Event
		ok bool
	}
	var es []entry
	for _, e := range x.Events {
		nt, _ := e.Data.(*c14note)
		switch {
		case e.Kind == "append" && nt != nil && nt.ref == ref:
			app[e.Res] = true
		case e.Kind == "store" && app[e.Args[1]]:
			if k, ok := fieldOf(e.Args[0]); ok {
				c.regs[k] = true
				in[k] = true
			}
		case e.Kind == "mapset" && nt != nil && nt.ref == ref:
			k, ok := fieldOf(e.Args[0])
			if !ok {
				continue
			}
			c.regs[k] = true
			in[k] = true
			if !isInt(e.Args[1].typ) {
				continue
			}
			// the key is the counter after it was increased by one
			ok = false
			subterms([]*Term{e.Args[1]}, func(t *Term) {
				if t.op != OLoad || !x.eqLin(x.Lin(e.Args[1]), x.Lin(t).plus(1)) {
					return
				}
				ck, is := fieldOf(t)
				for _, s := range x.Events {
					if is && s.Kind == "store" && s.Args[0].op == OFieldAddr && samePlace(s.Args[0], t.args[0]) && x.eqLin(x.Lin(s.Args[1]), x.Lin(e.Args[1])) {
						ok = true
						c.counters[ck] = true
					}
				}
			})
			es = append(es, entry{e, ok})
		}
	}
	return func() {
		for _, k := range es {
			c.need(k.e.Fr, k.e.Instr, "registered", "numbering in "+fnName(k.e.Fr.fn), k.ok, "a record is not registered under the next number of a counter")
		}
		n := 0
		for k := range in {
			if c.walked[k] {
				n++
			}
		}
		c.need(nil, retInstr(f), "registered", "record made in "+fnName(f), n > 0 || len(c.walked) == 0, "a record is not registered in the table from which ids are given")
	}
}

// recOf is the record a key was read from.
func recOf(t *Term) *Term {
	if t.op == OLoad && t.args[0].op == OFieldAddr {
		return t.args[0].args[0]
	}
	if t.op == OField {
		return t.args[0]
	}
	return nil
}

// --- numbering ---------------------------------------------------------------------

// numLoop is what the turns of a loop do about the ids of registered records.
type numLoop struct {
	kind byte // 'k' records looked up by number, 'm' range over a map, 's' over a slice
	phi  *ssa.Phi
	bad  string
	all  bool // every turn is at a record
	pos  ssa.Instruction
	fn   *ssa.Function
	n    int
}

// numbered: whatever an entry point returns, the ids of the records have been
// given after the value was marshalled.
func (c *c14) numbered(f *ssa.Function) {
	loops := map[*ssa.BasicBlock]*numLoop{}
	var late []func()
	p := NewPathRun(c.Obls.w)
	p.Inline = func(x *Exec, ca *Call) bool {
		return ca.Fn != nil && !c.cut[ca.Fn] && !c.rec[ca.Fn] && (c.inline(ca.Fn) || c.givesIDs(ca.Fn))
	}
	p.Event = func(x *Exec, e *Event) { c.out[e.Fr.fn] = true }
	p.Back = func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) {
		l := loops[a.header]
		if l == nil {
			l = &numLoop{all: true, pos: a.header.Instrs[len(a.header.Instrs)-1], fn: fr.fn}
			loops[a.header] = l
		}
		c.numTurn(x, a, next, l)
	}
	p.Ret = func(x *Exec, args, res []*Term) {
		last := -1
		for i, e := range x.Events {
			if c.isCut(e) {
				last = i
			}
		}
		if last < 0 || x.knownNil(x.Events[last].Res) == 1 {
			return
		}
		done := map[*ssa.BasicBlock]byte{}
		for i, e := range x.Events {
			if i <= last || e.Kind != "loop" {
				continue
			}
			a := e.Data.(*loopAct)
			done[a.header] = c.numDone(x, a, x.Events[i+1:])
		}
		late = append(late, func() {
			ok, why := false, ""
			for h, k := range done {
				l := loops[h]
				switch {
				case l == nil || !l.all || l.n == 0:
				case l.bad != "":
					why = ": " + l.bad
				case k == 0 || k != l.kind:
					why = ": the loop can end before all records were visited"
				default:
					ok = true
				}
			}
			c.need(nil, retInstr(f), "numbered", fnName(f), ok, "a marshalled value is returned without its ids having been given%s", why)
		})
	}
	if !p.Run(f) {
		c.r.Bad("undecided", fnName(f), "paths", "-", "too many paths to decide")
	}
	for _, g := range late {
		g()
	}
}

// givesIDs: the function writes ids, itself or in what it calls.
func (c *c14) givesIDs(f *ssa.Function) bool {
	for g := range c.reachOf(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), c.dict) && fa.Field == c.idf {
					return true
				}
			}
		}
	}
	return false
}

func (c *c14) isReg(t *Term) bool {
	k, ok := fieldOf(t)
	return ok && c.regs[k]
}

func (c *c14) walk(t *Term) {
	if k, ok := fieldOf(t); ok {
		c.walked[k] = true
	}
}

// numTurn judges a turn of a loop below an entry point.
func (c *c14) numTurn(x *Exec, a *loopAct, next map[*ssa.Phi]*Term, l *numLoop) {
	evs := x.eventsAfter(a.header)
	bad := func(s string) {
		if l.bad == "" {
			l.bad = s
		}
	}
	l.n++
	var rec, key *Term
	none := false
	for _, e := range evs {
		switch e.Kind {
		case "lookup":
			if !c.isReg(e.Args[0]) {
				continue
			}
			for ph, cur := range a.cur {
				if !isInt(ph.Type()) || next[ph] == nil || !x.eqLin(x.Lin(e.Args[1]), x.Lin(cur).plus(c.shift(x, a, ph))) {
					continue
				}
				if !x.eqLin(x.Lin(next[ph]), x.Lin(cur).plus(1)) {
					bad("a turn does not go on to the next number")
				}
				if l.phi != nil && l.phi != ph {
					bad("the turns number differently")
				}
				l.kind, l.phi, rec, key = 'k', ph, e.Args[2], e.Args[1]
				c.walk(e.Args[0])
				if v, k := x.Eval(x.ts.Mk(OHas, types.Typ[types.Bool], "", 0, e.Args[0], e.Args[1])); k && !v {
					none = true
				}
			}
		case "next":
			if e.Args[0].op == ORange && c.isReg(e.Args[0].args[0]) {
				l.kind, rec, key = 'm', e.Args[3], e.Args[2]
				c.walk(e.Args[0].args[0])
			}
		case "branch", "store":
			subterms(e.Args, func(t *Term) {
				if rec != nil || t.typ == nil || !c.holdsRef(t.typ) {
					return
				}
				if m, ok := x.elemOf(t); ok && m.kind == 's' && c.isReg(m.src) {
					l.kind, rec = 's', t
					c.walk(m.src)
					if !x.turnAt(a, next, m) {
						bad("a turn does not take the record at its position")
					}
				}
			})
		}
	}
	if rec == nil {
		l.all = false
		return
	}
	ref := rec
	if c.isRef(rec.typ) == nil {
		st := structOf(deref(rec.typ))
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if c.isRef(st.Field(i).Type()) != nil {
				ref = x.Load(x.ts.Mk(OFieldAddr, types.NewPointer(st.Field(i).Type()), "", i, rec))
			}
		}
	}
	rt := c.isRef(ref.typ)
	if rt == nil {
		l.all = false
		return
	}
	if none {
		return
	}
	fld := func(t types.Type, i int, o *Term) *Term {
		return x.Load(x.ts.Mk(OFieldAddr, types.NewPointer(structOf(t).Field(i).Type()), "", i, o))
	}
	rid := fld(rt, refIDField(c.Obls.w, rt), ref)
	node := fld(rt, refNodeField(c.Obls.w, rt), ref)
	dt := types.NewPointer(c.dict)
	dict := x.asserted(node, dt)
	did := fld(c.dict, c.idf, dict)
	// ids of different objects differ
	for _, e := range evs {
		if e.Kind != "store" || e.Args[0].op != OFieldAddr || !types.Identical(deref(e.Args[0].args[0].typ), c.dict) || e.Args[0].num != c.idf {
			continue
		}
		v := e.Args[1]
		own := key != nil && isInt(key.typ) && x.eqLin(x.Lin(v), x.Lin(key))
		if v.op == OLoad {
			k, ok := fieldOf(v)
			own = own || ok && k == fldKey{rt.String(), refIDField(c.Obls.w, rt)}
		}
		if !own {
			bad("an object is given an id that is not the number of its record")
		}
	}
	if x.knownNil(rec) == 1 || x.knownNil(ref) == 1 || x.knownNil(node) == 1 {
		return
	}
	if v, k := x.Eval(x.isType(node, dt)); k && !v {
		return
	}
	nz := x.Entails(x.Lin(did).plus(-1)) || x.Entails(x.Lin(did).neg().plus(-1))
	if v, k := x.Eval(x.Bin("==", did, x.ts.Int(0), types.Typ[types.Bool])); k && !v {
		nz = true
	}
	if key != nil && isInt(key.typ) && x.eqLin(x.Lin(did), x.Lin(key)) {
		nz = true // numbers begin with 1
	}
	same := x.eqLin(x.Lin(rid), x.Lin(did))
	if nz && same {
		return
	}
	// not referred to
	st := structOf(deref(rec.typ))
	for i := 0; st != nil && i < st.NumFields(); i++ {
		k := fldKey{deref(rec.typ).String(), i}
		init := c.initial[k]
		if init == nil {
			continue
		}
		v := fld(deref(rec.typ), i, rec)
		if isBoolType(v.typ) {
			if b, kn := x.Eval(v); kn && !b {
				c.guards[k] = true
				return
			}
			continue
		}
		if n, ok := init.IntVal(); ok && x.Entails(x.Lin(v).neg().plus(n)) {
			c.guards[k] = true
			return
		}
	}
	switch {
	case !nz:
		bad("a turn can leave an object that is referred to without an id")
	default:
		bad("a turn can leave a reference with another id than its object")
	}
}

// shift is what a variable must be increased by to be 1 at first.
func (c *c14) shift(x *Exec, a *loopAct, ph *ssa.Phi) int64 {
	if n, ok := a.entry[ph].IntVal(); ok {
		return 1 - n
	}
	return 0
}

func (c *c14) holdsRef(t types.Type) bool {
	if c.isRef(t) != nil {
		return true
	}
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		return false
	}
	st := structOf(deref(t))
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if c.isRef(st.Field(i).Type()) != nil {
			return true
		}
	}
	return false
}

// numDone tells how a loop over the records came to its end.
func (c *c14) numDone(x *Exec, a *loopAct, evs []*Event) byte {
	for _, e := range evs {
		if e.Kind == "next" && e.Args[0].op == ORange && c.isReg(e.Args[0].args[0]) {
			if v, k := x.Eval(e.Args[1]); k && !v {
				return 'm'
			}
		}
	}
	var ends []*Term
	for _, e := range evs {
		if e.Kind != "branch" {
			continue
		}
		subterms(e.Args, func(t *Term) {
			if t.op == OLoad {
				if k, ok := fieldOf(t); ok && c.counters[k] {
					ends = append(ends, t)
				}
			}
			if t.op == OLen && c.isReg(t.args[0]) {
				ends = append(ends, t)
			}
		})
	}
	for ph, cur := range a.cur {
		if !isInt(ph.Type()) {
			continue
		}
		for _, t := range ends {
			if x.Entails(x.Lin(cur).plus(c.shift(x, a, ph)).sub(x.Lin(t)).plus(-1)) {
				if _, ok := a.entry[ph].IntVal(); ok {
					return 'k'
				}
			}
		}
	}
	if x.loopDone(a, func(t *Term) bool {
		if t.op == OLen {
			t = t.args[0]
		}
		return c.isReg(t)
	}) {
		return 's'
	}
	return 0
}

// guardWrites: the fields that decide about ids are only ever raised.
func (c *c14) guardWrites() {
	for g := range c.guards {
		for _, f := range c.Obls.w.MainFuncs() {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || fa.Field != g.f || deref(fa.X.Type()).String() != g.t {
						continue
					}
					if _, ok := fa.X.(*ssa.Alloc); ok {
						continue // the initial value
					}
					c.need(nil, in, "counted", "write in "+fnName(f), c.raises(st.Val, g), "the field that decides whether an object gets an id is set back")
				}
			}
		}
	}
}

func (c *c14) raises(v ssa.Value, g fldKey) bool {
	switch v := v.(type) {
	case *ssa.Const:
		b, ok := constBool(v)
		return ok && b
	case *ssa.BinOp:
		if v.Op != token.ADD && v.Op != token.OR {
			return false
		}
		for _, p := range [][2]ssa.Value{{v.X, v.Y}, {v.Y, v.X}} {
			k, ok := p[1].(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.Int || constant.Sign(k.Value) <= 0 {
				continue
			}
			if u, ok := p[0].(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && fa.Field == g.f && deref(fa.X.Type()).String() == g.t {
					return true
				}
			}
		}
	}
	return false
}

func constBool(k *ssa.Const) (v, ok bool) {
	if k.Value == nil || k.Value.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(k.Value), true
}

// --- text --------------------------------------------------------------------------

// text: an object that has an id says so in every text, under the key the
// parser looks for; a reference says the id it refers to.
func (c *c14) text() {
	w := c.Obls.w
	keys := c.parserKeys()
	it := w.NodeIface()
	one := func(t types.Type, field int, dict bool) {
		j := &idText{c: c, t: t, field: field, dict: dict, keys: keys, seen: map[*ssa.Function]bool{}}
		n := namedOf(t).Obj().Name()
		for i := 0; i < it.NumMethods(); i++ {
			if m := it.Method(i); w.renderGroup(m) == 'j' {
				if f, _ := w.Method(n, m.Name()); f != nil && f.Blocks != nil {
					j.judge(f, 0)
				}
			}
		}
	}
	one(c.dict, c.idf, true)
	for _, t := range c.refs {
		one(t, refIDField(w, t), false)
	}
}

func namedOf(t types.Type) *types.Named {
	n, _ := types.Unalias(deref(t)).(*types.Named)
	return n
}

// parserKeys are the strings the parser compares keys with.
func (c *c14) parserKeys() map[string]bool {
	out := map[string]bool{}
	w := c.Obls.w
	var roots []*ssa.Function
	for _, n := range []string{"Parse", "ParseString", "ParseStream"} {
		if f := w.Func(n); f != nil {
			roots = append(roots, f)
		}
	}
	for f := range w.Reach(roots) {
		if !w.IsMain(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				o, ok := in.(*ssa.BinOp)
				if !ok || o.Op != token.EQL && o.Op != token.NEQ {
					continue
				}
				for _, v := range []ssa.Value{o.X, o.Y} {
					if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && len(constant.StringVal(k.Value)) > 3 {
						out[constant.StringVal(k.Value)] = true
					}
				}
			}
		}
	}
	return out
}

// idText judges the text methods of one node type.
type idText struct {
	c     *c14
	t     types.Type
	field int
	dict  bool
	keys  map[string]bool
	seen  map[*ssa.Function]bool
}

func (j *idText) judge(f *ssa.Function, recv int) {
	if j.seen[f] {
		return
	}
	j.seen[f] = true
	w := j.c.Obls.w
	p := NewPathRun(w)
	p.Inline = func(x *Exec, ca *Call) bool { return ca.Fn != nil && len(findLoops(ca.Fn)) == 0 }
	p.Event = func(x *Exec, e *Event) { j.c.out[e.Fr.fn] = true }
	p.Ret = func(x *Exec, args, res []*Term) {
		me := args[recv]
		if x.knownNil(me) == 1 {
			return
		}
		same := func(t *Term) bool {
			for t != nil && (t.op == OIface || t.op == OConv) {
				t = t.args[0]
			}
			return t == me
		}
		// the text is made by another function for the same node
		for _, e := range x.Events {
			if e.Kind != "call" {
				continue
			}
			for i, a := range e.Args {
				if !same(a) {
					continue
				}
				if ci, ok := e.Instr.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					if i == 0 && w.isNodeIface(ci.Common().Value.Type()) && w.renderGroup(ci.Common().Method) == 'j' {
						return
					}
					continue
				}
				if e.Fn != nil && w.IsMain(e.Fn) && e.Fn.Blocks != nil && i < len(e.Fn.Params) && makesText(w, e.Fn) {
					j.judge(e.Fn, i)
					return
				}
			}
		}
		if !types.Identical(deref(me.typ), j.t) {
			j.c.need(nil, retInstr(f), "id in text", fnName(f), false, "the text of a node that can carry an id is not made from the node")
			return
		}
		id := func(t *Term) bool {
			return t.op == OLoad && t.args[0].op == OFieldAddr && t.args[0].num == j.field && t.args[0].args[0] == me ||
				t.op == OField && t.num == j.field && t.args[0].contains(me)
		}
		if j.dict {
			ld := x.Load(x.ts.Mk(OFieldAddr, types.NewPointer(structOf(j.t).Field(j.field).Type()), "", j.field, me))
			if x.Entails(x.Lin(ld).neg()) {
				return
			}
			known := false
			subterms(branchTerms(x.Events), func(t *Term) {
				known = known || id(t) && x.Entails(x.Lin(t).neg())
			})
			if known {
				return
			}
		}
		key := func(t *Term) bool {
			s, ok := t.StrVal()
			if !ok {
				return false
			}
			if !j.dict {
				return strings.Contains(s, "<")
			}
			for k := range j.keys {
				if strings.Contains(s, k) {
					return true
				}
			}
			return false
		}
		kat, kok := j.reaches(x, key, args, res)
		iat, iok := j.reaches(x, id, args, res)
		j.c.need(nil, retInstr(f), "id in text", fnName(f), iok, "the id of a node does not reach its text")
		if j.dict {
			j.c.need(nil, retInstr(f), "id in text", "key in "+fnName(f), kok, "the id of an object is not written under the key the parser looks for")
			j.c.need(nil, retInstr(f), "id in text", "order in "+fnName(f), !kok || !iok || kat <= iat, "the id of an object is written before its key")
		} else {
			j.c.need(nil, retInstr(f), "id in text", "brackets in "+fnName(f), kok, "a reference is not written between angle brackets")
		}
	}
	if !p.Run(f) {
		j.c.r.Bad("undecided", fnName(f), "paths", "-", "too many paths to decide")
	}
}

func branchTerms(evs []*Event) []*Term {
	var out []*Term
	for _, e := range evs {
		if e.Kind == "branch" {
			out = append(out, e.Args...)
		}
	}
	return out
}

// makesText: the function answers text or is given a writer.
func makesText(w *World, f *ssa.Function) bool {
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if w.isWriterType(f.Signature.Params().At(i).Type()) {
			return true
		}
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if isText(f.Signature.Results().At(i).Type()) {
			return true
		}
	}
	return false
}

// reaches tells whether what is selected reaches the text made on the path,
// and at which event it is first written.
func (j *idText) reaches(x *Exec, sel func(t *Term) bool, args, res []*Term) (at int, ok bool) {
	w := j.c.Obls.w
	marked := map[*Term]bool{}
	has := func(t *Term) bool { return t != nil && t.any(func(s *Term) bool { return sel(s) || marked[s] }) }
	at = len(x.Events)
	for i, e := range x.Events {
		if e.Kind == "branch" || e.Kind == "loop" || e.Kind == "lookup" {
			continue
		}
		t := false
		for k, a := range e.Args {
			if e.Kind == "call" && k == 0 && a != nil && a.typ != nil && w.isWriterType(a.typ) {
				continue
			}
			t = t || has(a)
		}
		if !t {
			// what a marked writer holds
			if e.Kind == "call" && e.Res != nil && len(e.Args) > 0 && has(e.Args[0]) {
				marked[e.Res] = true
			}
			continue
		}
		if e.Res != nil {
			marked[e.Res] = true
		}
		if e.Kind == "store" && has(e.Args[1]) {
			marked[addrRoot(e.Args[0])] = true
		}
		if e.Kind == "call" {
			for _, a := range e.Args {
				if a == nil || a.typ == nil {
					continue
				}
				for a.op == OIface {
					a = a.args[0]
				}
				r := addrRoot(a)
				if w.isWriterType(a.typ) {
					if at > i {
						at = i
					}
					marked[r] = true
					marked[a] = true
				} else if r.op == OAlloc {
					marked[r] = true
				}
			}
		}
	}
	for _, r := range res {
		if has(r) {
			return at, true
		}
	}
	for _, a := range args {
		if a.typ != nil && w.isWriterType(a.typ) && (marked[a] || marked[addrRoot(a)]) {
			return at, true
		}
	}
	return at, false
}
