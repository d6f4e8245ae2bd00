package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Contents of maps as truth tables. For one arbitrary key a table tells what
// the map holds under it, in every case of: the key is in the receiver, in the
// other dict, in the list, the two values are equal, the key is the one given,
// it is the one given but for case.
const (
	inA = 1 << iota
	inB
	inL
	isEq
	isKey
	isFold
	nCase = 1 << 6
)

type tab [nCase]byte

const (
	tNone   = '-' // absent
	tA      = 'A' // the receiver's value
	tB      = 'B' // the other's value
	tPair   = 'P' // an array of the receiver's and the other's value
	tVal    = 'V' // the value given
	tTrue   = 'T' // true
	tListed = 'L' // the value that the list gives for the key
	tNew    = 'N' // a new empty dict
	tAny    = '?' // present or not
	tSome   = '!' // some other value
	tMay    = '~' // the receiver's value or absent
	tPre    = 128 // what the n-th container held before
)

func constTab(b byte) (t tab) {
	for i := range t {
		t[i] = b
	}
	return
}

func tabOf(f func(c int) byte) (t tab) {
	for i := range t {
		t[i] = f(i)
	}
	return
}

type caseSet [nCase]bool

func allCases() (s caseSet) {
	for c := range s {
		s[c] = !(c&isEq != 0 && c&(inA|inB) != inA|inB) && !(c&isKey != 0 && c&isFold == 0)
	}
	return
}

// algTurn is one way through one turn of a loop.
type algTurn struct {
	src   *Term
	srcT  tab
	walk  bool // over the keys of a map
	ok    bool // the turn stands at its own position
	cases caseSet
	post  map[string]tab // of the containers that changed; tPre+i refers to pre
	pre   map[string]byte
	flags map[*ssa.Phi]byte // variables: 's' unchanged, 'u' becomes true, 'd' becomes false, 'i' grows, '?'
	ends  map[*ssa.Phi]bool // truth values known at the end of the turn
	took  bool              // the turn removed an entry for the key given
	hit   int               // 1 the element is the key outside, 0 it is not, -1 unknown
}

type algebra struct {
	w        *World
	node     string // the dict type
	data     int    // its map field
	a, b     *Term  // receiver and other dict (pointers)
	list     *Term
	key, val *Term
	turns    map[string][]*algTurn
	cur      map[string][]*algTurn
	pr       *PathRun
	intro    func(x *Exec, args []*Term)
	ret      func(x *Exec, s *algState, args, res []*Term)
	pairs    bool // the list is one of keys and values
	lit      bool // loops over literal arguments are followed turn by turn
}

type algState struct {
	g     *algebra
	x     *Exec
	env   map[string]tab
	same  map[*Term]*Term // loop variables that keep the node they started with
	vals  map[*Term]tab
	own   []*Term // terms of the key in question
	cases caseSet
	open  map[string]tab  // contents when the turn began
	pre   map[string]byte // the mark of what was forgotten
}

func frPath(fr *Frame) string {
	s := ""
	for f := fr; f != nil; f = f.parent {
		s += fnName(f.fn)
		if f.call != nil {
			s += fmt.Sprintf("@%d", f.call.Pos())
		}
		s += "/"
	}
	return s
}

func algLoop(fr *Frame, b *ssa.BasicBlock) string { return fmt.Sprintf("%s#%d", frPath(fr), b.Index) }

func (w *World) mapField(node string) int {
	st := structOf(w.NamedType(node))
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if isSortedMapType(types.Unalias(st.Field(i).Type())) {
			return i
		}
	}
	return -1
}

// run interprets fn until what its loops do is known, and then judges.
func (g *algebra) run(fn *ssa.Function) bool {
	g.turns = map[string][]*algTurn{}
	for round, last := 0, false; round < 8; round++ {
		g.cur = map[string][]*algTurn{}
		p := NewPathRun(g.w)
		g.pr = p
		p.Literals, p.LiteralRoot = true, g.lit
		p.Inline = func(x *Exec, c *Call) bool { return !(c.Method != nil && isNodeMethodFn(g.w, c.Fn)) }
		p.Begin = func(x *Exec, args []*Term) bool { g.intro(x, args); return true }
		p.Instr = func(x *Exec, fr *Frame, in ssa.Instruction) {
			if u, ok := in.(*ssa.UnOp); ok && u.Op.String() == "*" && isSortedMapType(types.Unalias(u.Type())) {
				a := x.Val(fr, u.X)
				x.event(&Event{Kind: "peek", Args: []*Term{a, x.Load(a)}, Instr: in, Fr: fr})
			}
		}
		p.Value = func(x *Exec, t *Term) *Term {
			if isNewMap(t) {
				x.event(&Event{Kind: "make", Args: []*Term{t}})
			}
			return t
		}
		p.Back = g.back
		p.Ret = func(x *Exec, args, res []*Term) {
			if !last {
				return
			}
			if s := g.replay(x); s != nil {
				g.ret(x, s, args, res)
			}
		}
		if !p.Run(fn) {
			return false
		}
		if last {
			return true
		}
		last = turnsString(g.turns) == turnsString(g.cur)
		g.turns = g.cur
		if dbgAlg {
			g.dump()
		}
	}
	return false
}

// turnsString tells rounds apart.
func turnsString(m map[string][]*algTurn) string {
	var out []string
	for k, ts := range m {
		for _, t := range ts {
			l := fmt.Sprint(k, t.src, t.srcT, t.ok, t.walk, t.cases, t.hit, t.took)
			for _, n := range sortedNames(t.post) {
				l += fmt.Sprint(n, t.pre[n], t.post[n])
			}
			for _, ph := range sortedFlags(t.flags) {
				l += ph
			}
			l += fmt.Sprint(len(t.ends))
			out = append(out, l)
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func sortedFlags(m map[*ssa.Phi]byte) (out []string) {
	for ph, b := range m {
		out = append(out, ph.Name()+string(rune(b)))
	}
	sort.Strings(out)
	return
}

func (g *algebra) dataAddr(x *Exec, n *Term) *Term {
	st := structOf(g.w.NamedType(g.node))
	return x.ts.Mk(OFieldAddr, types.NewPointer(st.Field(g.data).Type()), "", g.data, n)
}

func (g *algebra) newState(x *Exec) *algState {
	s := &algState{g: g, x: x, env: map[string]tab{}, vals: map[*Term]tab{}, cases: allCases()}
	if g.a != nil {
		s.env[g.dataAddr(x, g.a).String()] = tabOf(func(c int) byte { return pick(c&inA != 0, tA) })
	}
	if g.b != nil {
		s.env[g.dataAddr(x, g.b).String()] = tabOf(func(c int) byte { return pick(c&inB != 0, tB) })
	}
	return s
}

func pick(in bool, b byte) byte {
	if in {
		return b
	}
	return tNone
}

// replay works out what the containers hold after the events of a path.
func (g *algebra) replay(x *Exec) *algState {
	s := g.newState(x)
	if g.key != nil {
		s.own = []*Term{g.key}
	}
	for _, e := range x.Events {
		if !s.step(e) {
			return nil
		}
	}
	return s
}

// replayTurn is the state within one turn of the loop last entered there.
func (g *algebra) replayTurn(x *Exec, a *loopAct, own []*Term, walk bool) *algState {
	s := g.newState(x)
	for _, e := range x.Events {
		if e.Kind == "loop" && e.Data.(*loopAct) == a {
			s.own = own
			s.openTurn(e, walk)
			continue
		}
		if !s.step(e) {
			return nil
		}
	}
	if s.open == nil {
		return nil
	}
	return s
}

// openTurn forgets what the loop changes. A walk over the keys of a map visits
// each once, so that a turn finds under its key what was there before the loop.
func (s *algState) openTurn(e *Event, walk bool) {
	act := e.Data.(*loopAct)
	lk := algLoop(e.Fr, act.header)
	for _, ph := range sortedPhis(act.cur) {
		if isSortedMapType(types.Unalias(ph.Type())) {
			s.env["phi:"+ph.Name()+"@"+lk] = s.mapTab(act.entry[ph])
		}
	}
	s.sameNodes(act, s.g.turns[lk])
	changed := map[string]bool{}
	for _, t := range s.g.turns[lk] {
		for n := range t.post {
			changed[n] = true
		}
	}
	s.open = map[string]tab{}
	s.pre = map[string]byte{}
	i := 0
	for _, n := range sortedNames(s.env) {
		if changed[n] && !walk {
			s.pre[n] = byte(tPre + i)
			s.env[n] = constTab(s.pre[n])
			i++
		}
		s.open[n] = s.env[n]
	}
	for _, ph := range sortedPhis(act.cur) {
		if isSortedMapType(types.Unalias(ph.Type())) {
			s.vals[act.cur[ph]] = s.env["phi:"+ph.Name()+"@"+lk]
		}
	}
}

// addr names an address.
func (s *algState) addr(a *Term) string {
	if a.op == OFieldAddr {
		if e := s.same[a.args[0]]; e != nil {
			for s.same[e] != nil {
				e = s.same[e]
			}
			return s.x.ts.Mk(OFieldAddr, a.typ, "", a.num, e).String()
		}
	}
	return a.String()
}

// sameNodes notes loop variables that stand for the same node on every turn.
func (s *algState) sameNodes(act *loopAct, ts []*algTurn) {
	for ph, cur := range act.cur {
		if !isPointer(ph.Type()) || !s.g.isNode(deref(ph.Type())) {
			continue
		}
		same := true
		for _, t := range ts {
			same = same && t.flags[ph] == 's'
		}
		if same && act.entry[ph] != cur {
			if s.same == nil {
				s.same = map[*Term]*Term{}
			}
			s.same[cur] = act.entry[ph]
		}
	}
}

// turned: a loop that was left made at least one turn (1), none (0), or one
// cannot tell (-1).
func (s *algState) turned(act *loopAct, ts []*algTurn) int {
	x := s.x
	if len(ts) == 0 {
		return 0
	}
	for ph, cur := range act.cur {
		en := act.entry[ph]
		all := func(b byte) bool {
			for _, t := range ts {
				if t.flags[ph] != b {
					return false
				}
			}
			return true
		}
		switch {
		case isBoolType(ph.Type()):
			v, k := x.Eval(cur)
			e, ek := x.Eval(en)
			if !k || !ek {
				continue
			}
			if v != e {
				return 1
			}
			other := true
			for _, t := range ts {
				b, ok := t.ends[ph]
				other = other && ok && b != v
			}
			if other {
				return 0
			}
		case isInt(ph.Type()):
			d := x.Lin(cur).sub(x.Lin(en))
			if x.Entails(d.plus(-1)) || x.Entails(d.neg().plus(-1)) {
				return 1
			}
			if all('i') && x.Entails(d.neg()) {
				return 0
			}
		}
	}
	return -1
}

// took: one of the calls removed an entry for the key given.
func (s *algState) took(evs []*Event) bool {
	for _, e := range evs {
		if e.Kind != "call" || e.Res == nil || len(e.Args) != 2 || !s.isOwn(e.Args[1]) {
			continue
		}
		n := -1
		switch {
		case hasBase(e.Name, "sortedmap.Delete"):
			n = 1
		case hasBase(e.Name, "sortedmap.DeleteIgnoreCase"):
			n = 2
		}
		if n > 0 {
			if v, k := s.x.Eval(s.x.extract(e.Res, n, types.Typ[types.Bool])); k && v {
				return true
			}
		}
	}
	return false
}

// tookAny: an entry for the key given was removed on this path.
func (s *algState) tookAny() bool {
	if s.took(s.x.Events) {
		return true
	}
	for _, e := range s.x.Events {
		if e.Kind != "loop" {
			continue
		}
		act := e.Data.(*loopAct)
		ts := s.g.turns[algLoop(e.Fr, act.header)]
		all := s.turned(act, ts) == 1
		for _, t := range ts {
			all = all && t.took
		}
		if all {
			return true
		}
	}
	return false
}

func sortedNames(m map[string]tab) (out []string) {
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return
}

func sortedPhis(m map[*ssa.Phi]*Term) (out []*ssa.Phi) {
	for ph := range m {
		out = append(out, ph)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return
}

func isNewMap(t *Term) bool {
	_, ok := t.val.(*ssa.MakeMap)
	return ok && t.op == OFresh && isMap(t.typ)
}

func objName(m *Term) string { return "map:" + m.String() }

// step replays one event; it returns false on a path that cannot happen.
func (s *algState) step(e *Event) bool {
	x := s.x
	switch e.Kind {
	case "peek":
		a, v := e.Args[0], e.Args[1]
		if _, ok := s.vals[v]; !ok && v.op == OLoad {
			if t, ok := s.env[s.addr(a)]; ok {
				s.vals[v] = t
			} else {
				s.vals[v] = constTab(tAny)
			}
		}
	case "store":
		if a := e.Args[0]; isSortedMapType(types.Unalias(deref(a.typ))) {
			s.env[s.addr(a)] = s.mapTab(e.Args[1])
		} else if st := structOf(deref(a.typ)); st != nil && s.g.isNode(deref(a.typ)) {
			// a whole node
			v := e.Args[1]
			t := constTab(tAny)
			if v.op == OStruct {
				t = s.mapTab(v.args[s.g.data])
			} else if v.op == OZero {
				t = constTab(tNone)
			}
			s.env[s.addr(s.g.dataAddr(x, a))] = t
		}
	case "mapset":
		n := objName(e.Args[0])
		s.env[n] = s.with(s.goMap(e.Args[0]), e.Args[1], s.valTab(e.Args[2]))
	case "make":
		s.env[objName(e.Args[0])] = constTab(tNone)
	case "mapdel":
		n := objName(e.Args[0])
		s.env[n] = s.with(s.goMap(e.Args[0]), e.Args[1], constTab(tNone))
	case "call":
		if e.Fn != nil && s.g.w.IsMain(e.Fn) && !strings.HasSuffix(e.Name, ".Equals") {
			ms := x.ModOf(e.Fn)
			if ms.all {
				for n := range s.env {
					s.env[n] = constTab(tAny)
				}
			}
		}
	case "loop":
		return s.loop(e)
	}
	return true
}

func (g *algebra) isNode(t types.Type) bool { return types.Identical(t, g.w.NamedType(g.node)) }

func (s *algState) goMap(m *Term) tab {
	if t, ok := s.env[objName(m)]; ok {
		return t
	}
	if m.op == ONil {
		return constTab(tNone)
	}
	return constTab(tAny)
}

// isOwn: the term is the key in question.
func (s *algState) isOwn(k *Term) bool {
	for _, o := range s.own {
		if sameKey(k, o) {
			return true
		}
		if el, ok := s.x.elemOf(k); ok && el.kind == 's' {
			if el2, ok := s.x.elemOf(o); ok && el2.kind == 's' && el.src == el2.src && s.x.eqLin(s.x.Lin(el.idx), s.x.Lin(el2.idx)) {
				return true
			}
		}
		if v, k2 := s.x.Eval(s.x.Bin("==", k, o, types.Typ[types.Bool])); k2 && v {
			return true
		}
	}
	return false
}

// given: the term is the key parameter, with the key in question another one.
func (s *algState) with(m tab, k *Term, v tab) tab {
	switch {
	case s.g.key != nil && s.isOwn(k) && len(s.own) == 1 && s.own[0] == s.g.key:
		// the key in question is any key; it is the given one in some cases
		return tabOf(func(c int) byte {
			if c&isKey != 0 {
				return v[c]
			}
			return m[c]
		})
	case s.isOwn(k):
		return v
	}
	return constTab(tAny)
}

// mapTab is the table of a map value.
func (s *algState) mapTab(t *Term) tab {
	if v, ok := s.vals[t]; ok {
		return v
	}
	x := s.x
	switch t.op {
	case ONil, OZero, OMake:
		return constTab(tNone)
	case OSlice:
		// the whole, or nothing of it
		if x.Entails(x.Lin(x.LenOf(t)).neg()) {
			return constTab(tNone)
		}
		if lo, ok := t.args[1].IntVal(); ok && lo == 0 && x.eqLin(x.Lin(x.LenOf(t)), x.Lin(x.LenOf(t.args[0]))) {
			return s.mapTab(t.args[0])
		}
	case OAppend:
		if len(t.args) == 2 && (x.Entails(x.Lin(x.LenOf(t.args[0])).neg()) || s.mapTab(t.args[0]) == constTab(tNone)) {
			return s.mapTab(t.args[1])
		}
	case OCall:
		switch n := t.aux; {
		case hasBase(n, "sortedmap.NewSortedMap"), hasBase(n, "sortedmap.NewSortedMapWithCapa"):
			return constTab(tNone)
		case (hasBase(n, "sortedmap.NewSortedMapFromMap") || hasBase(n, "sortedmap.NewSortedMapFromMapWithCapa")) && len(t.args) > 0:
			return s.goMap(t.args[0])
		case hasBase(n, "sortedmap.Merge") && len(t.args) == 2:
			a, b := s.mapTab(t.args[0]), s.mapTab(t.args[1])
			return tabOf(func(c int) byte {
				if b[c] != tNone {
					if b[c] >= tPre || b[c] == tMay {
						return tAny
					}
					return b[c]
				}
				return a[c]
			})
		case hasBase(n, "sortedmap.Add") && len(t.args) == 3:
			return s.with(s.mapTab(t.args[0]), t.args[1], s.valTab(t.args[2]))
		}
	case OExtract:
		c := t.args[0]
		if c.op != OCall {
			break
		}
		switch n := c.aux; {
		case isSplit(c):
			a, b := s.mapTab(c.args[0]), s.mapTab(c.args[1])
			return tabOf(func(i int) byte {
				p, q := a[i], b[i]
				if p >= tPre || q >= tPre || p == tMay || q == tMay || p == tAny || q == tAny {
					return tAny
				}
				switch t.num {
				case 0:
					if q == tNone {
						return p
					}
				case 1:
					if q != tNone {
						return p
					}
				case 2:
					if p != tNone {
						return q
					}
				case 3:
					if p == tNone {
						return q
					}
				}
				return tNone
			})
		case hasBase(n, "sortedmap.Delete") && len(c.args) == 2 && t.num == 0:
			return s.with(s.mapTab(c.args[0]), c.args[1], constTab(tNone))
		case hasBase(n, "sortedmap.DeleteIgnoreCase") && len(c.args) == 2 && t.num == 0:
			m := s.mapTab(c.args[0])
			if s.g.key == nil || !s.isOwn(c.args[1]) {
				break
			}
			// one of the keys that match is removed
			v, k := x.Eval(x.extract(c, 2, types.Typ[types.Bool]))
			return tabOf(func(i int) byte {
				switch {
				case i&isFold == 0:
					return m[i]
				case k && !v:
					return tNone
				case m[i] == tNone:
					return tNone
				case m[i] == tA || m[i] == tMay:
					return tMay
				case m[i] >= tPre:
					return m[i] | 64
				}
				return tAny
			})
		}
	}
	return constTab(tAny)
}

// valTab tells which value a term is, case by case.
func (s *algState) valTab(t *Term) tab {
	x := s.x
	for t.op == OAssert || t.op == OIface {
		t = t.args[0]
	}
	if s.g.pairs && len(s.own) > 0 && s.pairVal(t) {
		return constTab(tListed)
	}
	if s.g.val != nil && t == s.g.val {
		return constTab(tVal)
	}
	if t.op == OConst && isBoolType(t.typ) {
		if v, k := x.Eval(t); k && v {
			return constTab(tTrue)
		}
	}
	if m, k := s.lookupOf(t); m != nil && s.isOwn(k) {
		return *m
	}
	if t.op == OAlloc && s.g.isNode(deref(t.typ)) && (s.g.lit || s.nodeTab(t) == constTab(tNone)) {
		return constTab(tNew)
	}
	if t.op == OAlloc {
		if els, ok := s.arrayOf(t); ok && len(els) == 2 {
			a, b := s.valTab(els[0]), s.valTab(els[1])
			return tabOf(func(c int) byte {
				if a[c] == tA && b[c] == tB {
					return tPair
				}
				return tSome
			})
		}
	}
	return constTab(tSome)
}

// lookupOf: the value was read from a map under a key.
func (s *algState) lookupOf(t *Term) (*tab, *Term) {
	if el, ok := s.x.elemOf(t); ok && el.key != nil {
		var m tab
		if el.kind == 'm' || isMap(el.src.typ) {
			m = s.goMap(el.src)
		} else {
			m = s.mapTab(el.src)
		}
		return &m, el.key
	}
	if t.op == OLookup && len(t.args) == 2 {
		m := s.goMap(t.args[0])
		return &m, t.args[1]
	}
	if t.op == OExtract && t.num == 0 && t.args[0].op == OCall && hasBase(t.args[0].aux, "SSortedMap).Get") {
		c := t.args[0]
		m := s.mapTab(c.args[0])
		return &m, c.args[1]
	}
	return nil, nil
}

// arrayOf lists the elements of a new array node.
func (s *algState) arrayOf(t *Term) ([]*Term, bool) {
	x := s.x
	st := structOf(deref(t.typ))
	if st == nil {
		return nil, false
	}
	for i := 0; i < st.NumFields(); i++ {
		if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && s.g.w.isNodeIface(sl.Elem()) {
			v := x.Load(x.ts.Mk(OFieldAddr, types.NewPointer(st.Field(i).Type()), "", i, t))
			return x.seqElems(v)
		}
	}
	return nil, false
}

// seqElems lists the elements of a slice that was appended to step by step.
func (x *Exec) seqElems(v *Term) ([]*Term, bool) {
	if els, ok := x.sliceElems(v); ok {
		return els, true
	}
	if v.op == OZero || v.op == OMake && x.Entails(x.Lin(x.LenOf(v)).neg()) {
		return nil, true
	}
	if v.op == OAppend && len(v.args) == 2 {
		a, ok1 := x.seqElems(v.args[0])
		b, ok2 := x.seqElems(v.args[1])
		if ok1 && ok2 {
			return append(append([]*Term{}, a...), b...), true
		}
	}
	return nil, false
}

// back records one turn of a loop.
func (g *algebra) back(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) {
	lk := algLoop(fr, a.header)
	var given []*Term
	if g.key != nil {
		given = []*Term{g.key}
	}
	s := g.replayTurn(x, a, given, false)
	if s == nil {
		return
	}
	t := &algTurn{post: map[string]tab{}, pre: map[string]byte{}, flags: map[*ssa.Phi]byte{}, ends: map[*ssa.Phi]bool{}, hit: -1}
	// the element this turn stands at
	var el elem
	found := false
	evs := x.eventsAfter(a.header)
	try := func(v *Term) {
		if g.pairs && !found {
			if e, _, ok := s.pairElem(v); ok && x.turnAt(a, next, e) {
				el, found = e, true
			}
		}
		for _, e := range x.elems(v) {
			if !found && x.turnAt(a, next, e) && !(e.kind == 'k') {
				el, found = e, true
			}
		}
	}
	for _, e := range evs {
		for _, v := range e.Args {
			if v != nil {
				try(v)
			}
		}
		if e.Kind == "next" && !found && len(e.Args) > 3 && e.Args[2] != nil && e.Args[0].op == ORange && isMap(e.Args[0].args[0].typ) {
			el, found = elem{kind: 'm', src: e.Args[0].args[0], idx: e.Args[0], key: e.Args[2]}, true
		}
		if e.Kind == "call" && hasBase(e.Name, "SSortedMapIterator).Get") && !found {
			k := x.ts.Mk(OExtract, nil, "", 0, e.Res)
			if src := iterSource(x, e.Args[0]); src != nil {
				if c := (elem{kind: 'i', src: src, idx: e.Args[0], key: k}); x.turnAt(a, next, c) {
					el, found = c, true
				}
			}
		}
	}
	if found {
		t.ok = true
		switch {
		case el.key != nil:
			s.own = append([]*Term{el.key}, extraKeys(x, evs, el)...)
			t.src = el.src
			if el.kind == 'm' {
				t.srcT = s.goMap(el.src)
			} else {
				t.srcT = s.mapTab(el.src)
			}
		case isSmapKeys(el.src):
			s.own = elemTerms(x, evs, el)
			t.src = el.src
			t.srcT = s.mapTab(el.src.args[0])
		case g.list != nil && s.isList(el.src):
			if s.own = elemTerms(x, evs, el); g.pairs {
				s.own = s.keyTerms(evs, el)
			}
			t.src = el.src
			t.srcT = tabOf(func(c int) byte { return pick(c&inL != 0, tTrue) })
		default:
			t.ok = false
		}
		if g.pairs && t.ok && s.isList(el.src) && !x.turnUp(a, next, el) {
			t.ok = false
		}
		if t.ok {
			// again, now that the key is known
			if s2 := g.replayTurn(x, a, s.own, !s.isList(el.src)); s2 == nil {
				return
			} else {
				s = s2
			}
			for c := range s.cases {
				if t.srcT[c] == tNone {
					s.cases[c] = false
				}
			}
		}
	}
	t.took = g.key != nil && s.took(evs)
	s.restrict()
	t.cases = s.cases
	for _, ph := range sortedPhis(a.cur) {
		if isSortedMapType(types.Unalias(ph.Type())) {
			s.env["phi:"+ph.Name()+"@"+lk] = s.mapTab(next[ph])
		}
	}
	for n, p := range s.env {
		if old, ok := s.open[n]; ok && p != old {
			t.post[n] = p
			t.pre[n] = s.pre[n]
		}
	}
	t.walk = found && t.ok && !s.isList(el.src)
	for ph, nx := range next {
		t.flags[ph] = '?'
		if isInt(ph.Type()) {
			if x.Entails(x.Lin(nx).sub(x.Lin(a.cur[ph])).plus(-1)) {
				t.flags[ph] = 'i'
			}
			continue
		}
		if nx == a.cur[ph] {
			t.flags[ph] = 's'
		}
		if !isBoolType(ph.Type()) {
			continue
		}
		v, k := x.Eval(nx)
		if k {
			t.ends[ph] = v
		}
		switch {
		case nx == a.cur[ph]:
			t.flags[ph] = 's'
		case k && v:
			t.flags[ph] = 'u'
		case k:
			t.flags[ph] = 'd'
		}
	}
	// a search of the key outside among the list
	if found && el.kind == 's' && g.list != nil && s.isList(el.src) {
		for _, e := range evs {
			if e.Kind != "branch" {
				continue
			}
			if eq := e.Args[0]; eq.op == OBin && (eq.aux == "==" || eq.aux == "!=") && (isElem(x, eq.args[0], el) || isElem(x, eq.args[1], el)) {
				v := e.Data.(bool) == (eq.aux == "==")
				t.hit = a2i(v)
				t.src = el.src
			}
		}
	}
	g.cur[lk] = append(g.cur[lk], t)
}

func (s *algState) isList(t *Term) bool {
	return s.g.list != nil && t.String() == s.g.list.String()
}

func isElem(x *Exec, t *Term, el elem) bool {
	e, ok := x.elemOf(t)
	return ok && e.kind == 's' && e.src == el.src && x.eqLin(x.Lin(e.idx), x.Lin(el.idx))
}

// extraKeys are other terms for the key of an iterator turn.
func extraKeys(x *Exec, evs []*Event, el elem) (out []*Term) {
	if el.kind != 'i' {
		return
	}
	for _, e := range evs {
		if e.Kind == "call" && hasBase(e.Name, "SSortedMapIterator).Get") && e.Res != nil && iterBase(e.Args[0]) == iterBase(el.idx) {
			out = append(out, x.ts.Mk(OExtract, nil, "", 0, e.Res), x.extract(e.Res, 0, types.Typ[types.String]))
		}
	}
	return
}

// keyTerms are the terms for the key of a pair of the list.
func (s *algState) keyTerms(evs []*Event, el elem) (out []*Term) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if e, k, ok := s.pairElem(t); ok && k && s.x.eqLin(s.x.Lin(e.idx), s.x.Lin(el.idx)) {
			out = append(out, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, e := range evs {
		for _, a := range e.Args {
			walk(a)
		}
	}
	return
}

// pairElem recognises a field of an element of the list of pairs.
func (s *algState) pairElem(t *Term) (el elem, key, ok bool) {
	x := s.x
	switch {
	case t.op == OLoad && t.args[0].op == OFieldAddr:
		b := t.args[0].args[0]
		if b.op != OIndexAddr {
			return
		}
		el = elem{kind: 's', src: b.args[0], idx: b.args[1]}
	case t.op == OField:
		e, k := x.elemOf(t.args[0])
		if !k || e.kind != 's' {
			return
		}
		el = e
	default:
		return
	}
	return el, isStringType(t.typ), s.isList(el.src)
}

// pairVal: the term is the value paired with the key in question.
func (s *algState) pairVal(t *Term) bool {
	el, key, ok := s.pairElem(t)
	if !ok || key {
		return false
	}
	for _, o := range s.own {
		if e2, k2, ok := s.pairElem(o); ok && k2 && s.x.eqLin(s.x.Lin(el.idx), s.x.Lin(e2.idx)) {
			return true
		}
	}
	return false
}

func elemTerms(x *Exec, evs []*Event, el elem) (out []*Term) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if isElem(x, t, el) {
			out = append(out, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, e := range evs {
		for _, a := range e.Args {
			walk(a)
		}
	}
	return
}

// loop applies what a finished loop did.
func (s *algState) loop(e *Event) bool {
	x, g := s.x, s.g
	act := e.Data.(*loopAct)
	ts := g.turns[algLoop(e.Fr, act.header)]
	// flags that no turn changes keep their value
	for ph, cur := range act.cur {
		if !isBoolType(ph.Type()) {
			continue
		}
		same := true
		for _, t := range ts {
			same = same && t.flags[ph] == 's'
		}
		if same {
			v, k := x.Eval(cur)
			en, ek := x.Eval(act.entry[ph])
			if k && ek && v != en {
				return false
			}
		}
	}
	s.sameNodes(act, ts)
	names := map[string]bool{}
	if s.turned(act, ts) != 0 {
		for _, t := range ts {
			for n := range t.post {
				names[n] = true
			}
		}
	}
	for _, ph := range sortedPhis(act.cur) {
		if isSortedMapType(types.Unalias(ph.Type())) {
			n := "phi:" + ph.Name() + "@" + algLoop(e.Fr, act.header)
			s.env[n] = s.mapTab(act.entry[ph])
			names[n] = true
		}
	}
	if len(names) > 0 {
		done := s.finished(act, ts)
		out := map[string]tab{}
		for n := range names {
			old, ok := s.env[n]
			if !ok {
				old = constTab(tAny)
			}
			out[n] = tabOf(func(c int) byte { return s.after(ts, n, c, old[c], done) })
		}
		for n, t := range out {
			s.env[n] = t
		}
	}
	for _, ph := range sortedPhis(act.cur) {
		if isSortedMapType(types.Unalias(ph.Type())) {
			s.vals[act.cur[ph]] = s.env["phi:"+ph.Name()+"@"+algLoop(e.Fr, act.header)]
		}
	}
	return true
}

// finished: the loop was left after its last element, and every turn stood at
// its own element of one sequence.
func (s *algState) finished(act *loopAct, ts []*algTurn) bool {
	var src *Term
	for _, t := range ts {
		if !t.ok || src != nil && t.src.String() != src.String() {
			return false
		}
		src = t.src
	}
	if src == nil {
		return false
	}
	// the terms of the turns are those of an earlier round
	name := src.String()
	from := name
	if isSmapKeys(src) {
		from = src.args[0].String()
	}
	return s.x.loopDone(act, func(t *Term) bool {
		return t.any(func(u *Term) bool { n := u.String(); return n == name || n == from })
	})
}

// after: what a container holds under a key after the loop.
func (s *algState) after(ts []*algTurn, n string, c int, old byte, done bool) byte {
	touched := false
	res := byte(0)
	for _, t := range ts {
		p, ok := t.post[n]
		if t.ok {
			if !t.cases[c] {
				continue
			}
			v := old
			if ok {
				v = p[c]
				if t.walk {
				} else if v == t.pre[n] {
					v = old
				} else if v >= tPre {
					if v&^64 == t.pre[n] && (old == tA || old == tMay) {
						v = tMay
					} else if v&^64 == t.pre[n] && old == tNone {
						v = tNone
					} else {
						v = tAny
					}
				}
			}
			if touched && v != res {
				return tAny
			}
			touched, res = true, v
			continue
		}
		// turns in no particular order: only removing what matches is known
		if !ok {
			continue
		}
		v := p[c]
		switch {
		case v == t.pre[n]:
		case v >= tPre && v&^64 == t.pre[n] && (old == tA || old == tMay):
			old = tMay
		case v >= tPre && v&^64 == t.pre[n] && old == tNone:
		case v == tNone && old == tNone:
		case v == tNone && (old == tA || old == tMay):
			old = tMay
		default:
			return tAny
		}
	}
	if !touched {
		return old
	}
	if !done && res != old {
		return tAny
	}
	return res
}

// restrict drops the cases that the facts of the path exclude.
func (s *algState) restrict() {
	x, g := s.x, s.g
	drop := func(f func(c int) bool, keyed bool) {
		for c := range s.cases {
			if keyed && len(s.own) == 1 && s.own[0] == g.key && g.key != nil && c&isKey == 0 {
				continue
			}
			if s.cases[c] && !f(c) {
				s.cases[c] = false
			}
		}
	}
	has := func(m tab, v bool) {
		drop(func(c int) bool {
			if m[c] == tAny || m[c] == tMay || m[c] >= tPre {
				return true
			}
			return (m[c] != tNone) == v
		}, true)
	}
	bt := types.Typ[types.Bool]
	inList := func(v bool) { drop(func(c int) bool { return (c&inL != 0) == v }, true) }
	for _, e := range x.Events {
		switch e.Kind {
		case "call":
			if e.Res == nil {
				continue
			}
			switch n := e.Name; {
			case hasBase(n, "SSortedMap).Get") && s.isOwn(e.Args[1]):
				if v, k := x.Eval(x.extract(e.Res, 1, bt)); k {
					has(s.mapTab(e.Args[0]), v)
				}
			case hasBase(n, "SSortedMap).Contains") && s.isOwn(e.Args[1]):
				if v, k := x.Eval(e.Res); k {
					has(s.mapTab(e.Args[0]), v)
				}
			case hasBase(n, "sortedmap.Delete") && s.isOwn(e.Args[1]):
				if v, k := x.Eval(x.extract(e.Res, 1, bt)); k {
					has(s.mapTab(e.Args[0]), v)
				}
			case hasBase(n, "sortedmap.DeleteIgnoreCase") && g.key != nil && s.isOwn(e.Args[1]):
				if v, k := x.Eval(x.extract(e.Res, 2, bt)); k && !v {
					m := s.mapTab(e.Args[0])
					drop(func(c int) bool {
						return c&isFold == 0 || m[c] == tNone || m[c] == tAny || m[c] == tMay || m[c] >= tPre
					}, false)
				}
			case hasBase(n, "utils.InStringArray") && g.list != nil && s.isOwn(e.Args[0]) && s.isList(e.Args[1]):
				if v, k := x.Eval(x.extract(e.Res, 0, bt)); k {
					inList(v)
				}
			case strings.HasPrefix(n, "slices.Contains") && g.list != nil && len(e.Args) == 2 && s.isOwn(e.Args[1]) && s.isList(e.Args[0]):
				if v, k := x.Eval(e.Res); k {
					inList(v)
				}
			case strings.HasPrefix(n, "slices.Index") && g.list != nil && len(e.Args) == 2 && s.isOwn(e.Args[1]) && s.isList(e.Args[0]):
				if x.Entails(x.Lin(e.Res)) {
					inList(true)
				} else if x.Entails(x.Lin(e.Res).neg().plus(-1)) {
					inList(false)
				}
			case strings.HasSuffix(n, "Equals") && len(e.Args) == 2:
				v, k := x.Eval(e.Res)
				if !k {
					continue
				}
				p, q := s.valTab(e.Args[0]), s.valTab(e.Args[1])
				drop(func(c int) bool {
					if p[c] == tA && q[c] == tB || p[c] == tB && q[c] == tA {
						return (c&isEq != 0) == v
					}
					return true
				}, false)
			}
		case "lookup":
			if !s.isOwn(e.Args[1]) {
				continue
			}
			m := s.goMap(e.Args[0])
			if e.Args[2] != nil && isBoolType(e.Args[2].typ) {
				if v, k := x.Eval(e.Args[2]); k {
					drop(func(c int) bool { return m[c] != tTrue && m[c] != tNone || (m[c] == tTrue) == v }, true)
				}
			}
			if num, ok := e.Data.(int); ok {
				if v, k := x.Eval(x.ts.Mk(OHas, bt, "", num, e.Args[0], e.Args[1])); k {
					has(m, v)
				}
			}
		case "branch":
			if is := e.Args[0]; is.op == OIsType && !e.Data.(bool) && is.t2 != nil && isPointer(is.t2) && g.isNode(deref(is.t2)) {
				v := s.valTab(is.args[0])
				drop(func(c int) bool { return v[c] != tNew }, true)
			}
			if eq := e.Args[0]; g.list != nil && eq.op == OBin && (eq.aux == "==" || eq.aux == "!=") && e.Data.(bool) == (eq.aux == "==") {
				for i := 0; i < 2; i++ {
					if el, ok := x.elemOf(eq.args[i]); ok && el.kind == 's' && s.isList(el.src) && s.isOwn(eq.args[1-i]) {
						inList(true)
					}
				}
			}
		case "loop":
			// a search through the list
			act := e.Data.(*loopAct)
			ts := g.turns[algLoop(e.Fr, act.header)]
			if g.list == nil || len(ts) == 0 || len(s.own) == 0 {
				continue
			}
			all, miss := true, true
			for _, t := range ts {
				all = all && t.hit >= 0 && t.src != nil && s.isList(t.src)
				miss = miss && t.hit == 0
			}
			if !all || !x.loopDone(act, func(t *Term) bool { return s.isList(t) || t.contains(g.list) }) {
				continue
			}
			if miss && !s.leftByHit(e) {
				inList(false)
			}
			for ph, cur := range act.cur {
				if !isBoolType(ph.Type()) {
					continue
				}
				good := true
				for _, t := range ts {
					good = good && (t.hit == 1 && t.flags[ph] == 'u' || t.hit == 0 && t.flags[ph] == 's')
				}
				en, ek := x.Eval(act.entry[ph])
				if v, k := x.Eval(cur); good && k && ek && !en && !miss {
					inList(v)
				}
			}
		}
	}
	// containers known to be empty
	for t, m := range s.vals {
		if x.Entails(x.Lin(x.LenOf(t)).neg()) {
			drop(func(c int) bool { return m[c] == tNone || m[c] == tAny || m[c] == tMay || m[c] >= tPre }, false)
		}
	}
	for _, e := range x.Events {
		if e.Kind == "call" && e.Res != nil && isSplit(e.Res) {
			for i := 0; i < 4; i++ {
				t := x.ts.Mk(OExtract, e.Args[0].typ, "", i, e.Res)
				if x.Entails(x.Lin(x.LenOf(t)).neg()) {
					m := s.mapTab(t)
					drop(func(c int) bool { return m[c] == tNone || m[c] == tAny }, false)
				}
			}
		}
	}
	if g.list != nil && x.Entails(x.Lin(x.LenOf(g.list)).neg()) {
		drop(func(c int) bool { return c&inL == 0 }, false)
	}
	if g.b == nil {
		drop(func(c int) bool { return c&inB == 0 }, false)
	}
	if g.a == nil {
		drop(func(c int) bool { return c&inA == 0 }, false)
	}
	if g.list == nil {
		drop(func(c int) bool { return c&inL == 0 }, false)
	}
	if g.key == nil {
		drop(func(c int) bool { return c&(isKey|isFold) == 0 }, false)
	}
}

// leftByHit: the loop was left because the element was the key.
func (s *algState) leftByHit(l *Event) bool {
	after := false
	for _, e := range s.x.Events {
		if e == l {
			after = true
			continue
		}
		if after && e.Kind == "branch" {
			if eq := e.Args[0]; eq.op == OBin && (eq.aux == "==" || eq.aux == "!=") && e.Data.(bool) == (eq.aux == "==") {
				for i := 0; i < 2; i++ {
					if el, ok := s.x.elemOf(eq.args[i]); ok && el.kind == 's' && s.isList(el.src) {
						return true
					}
				}
			}
		}
	}
	return false
}

// nodeTab is what a dict holds at the end.
func (s *algState) nodeTab(n *Term) tab {
	for n.op == OIface || n.op == OAssert {
		n = n.args[0]
	}
	a := s.g.dataAddr(s.x, n)
	if t, ok := s.env[s.addr(a)]; ok {
		return t
	}
	if n.op == OAlloc {
		return s.mapTab(s.x.Load(a))
	}
	return constTab(tAny)
}

func caseName(c int, g *algebra) string {
	var out []string
	say := func(bit int, yes, no string, on bool) {
		if !on {
			return
		}
		if c&bit != 0 {
			out = append(out, yes)
		} else {
			out = append(out, no)
		}
	}
	say(inA, "in the receiver", "not in the receiver", g.a != nil)
	say(inB, "in the other", "not in the other", g.b != nil)
	say(isEq, "with equal values", "with different values", g.a != nil && g.b != nil && c&(inA|inB) == inA|inB)
	say(inL, "listed", "not listed", g.list != nil)
	if g.key != nil && c&isKey == 0 && c&isFold != 0 {
		out = append(out, "equal to the key given but for case")
	} else {
		say(isKey, "equal to the key given", "other than the key given", g.key != nil)
	}
	return strings.Join(out, ", ")
}

func symName(b byte) string {
	switch {
	case b == tNone:
		return "nothing"
	case b == tA:
		return "the receiver's value"
	case b == tB:
		return "the other's value"
	case b == tPair:
		return "both values"
	case b == tVal:
		return "the value given"
	case b == tListed:
		return "the value paired with it last"
	case b == tNew:
		return "a new dict"
	}
	return "an unknown value"
}

func (g *algebra) dump() {
	for k, ts := range g.turns {
		for _, t := range ts {
			n := 0
			for _, c := range t.cases {
				n += a2i(c)
			}
			fmt.Println("TURN", k, t.ok, t.src, n, t.hit)
			for c, p := range t.post {
				fmt.Printf("   %s pre %d: %q\n", c, t.pre[c], p[:])
			}
		}
	}
}

var dbgAlg = os.Getenv("DBGALG") != ""
