package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contents of arrays and slices as sequences of parts.
type seg struct {
	kind byte   // 'o' what the receiver held, 'w' all elements of src, 'e' one element, 'p' what was there when the turn began, '?' unknown
	name string // of what was there
	src  *Term  // the slice of 'w', the element of 'e'
	f    string // what was made of the elements: "" nothing, "string" a string node, "text" the text of the node
}

func (g seg) String() string {
	switch g.kind {
	case 'o':
		return "the elements there were" + g.made()
	case 'w':
		return fmt.Sprintf("all of %s%s", g.src, g.made())
	case 'e':
		return fmt.Sprintf("%s%s", g.src, g.made())
	}
	return "something unknown"
}

func (g seg) made() string {
	switch g.f {
	case "string":
		return " as string nodes"
	case "text":
		return " as text"
	}
	return ""
}

func segsString(l []seg) string {
	if len(l) == 0 {
		return "nothing"
	}
	var out []string
	for _, g := range l {
		out = append(out, g.String())
	}
	return strings.Join(out, ", then ")
}

var unknownSeq = []seg{{kind: '?'}}

type seqPut struct {
	src     []seg // the sequence the element is of
	term    *Term
	f       string
	ok      bool
	indexed bool
	skip    bool // nothing was put because the element has no text
	num     bool // there is a term for the length
}

type seqTurn struct{ post map[string]seqPut }

type seqSet struct {
	base []seg
	idx  *Term
	val  *Term
}

type sequences struct {
	w     *World
	recv  *Term
	turns map[string][]*seqTurn
	cur   map[string][]*seqTurn
	pr    *PathRun
	intro func(x *Exec, args []*Term)
	ret   func(x *Exec, s *seqState, args, res []*Term)
}

type seqState struct {
	g    *sequences
	x    *Exec
	env  map[string][]seg
	vals map[*Term][]seg
	sets []seqSet
	open map[string][]seg
	made map[string]*Term
}

func (w *World) isSeqType(t types.Type) bool {
	s, ok := types.Unalias(t).Underlying().(*types.Slice)
	return ok && (w.isNodeIface(s.Elem()) || isStringType(s.Elem()))
}

func (g *sequences) run(fn *ssa.Function) bool {
	g.turns = map[string][]*seqTurn{}
	for round, last := 0, false; round < 8; round++ {
		g.cur = map[string][]*seqTurn{}
		p := NewPathRun(g.w)
		g.pr = p
		p.Literals = true
		p.Inline = func(x *Exec, c *Call) bool { return !(c.Method != nil && isNodeMethodFn(g.w, c.Fn)) }
		p.Begin = func(x *Exec, args []*Term) bool { g.intro(x, args); return true }
		p.Instr = func(x *Exec, fr *Frame, in ssa.Instruction) {
			if u, ok := in.(*ssa.UnOp); ok && u.Op.String() == "*" && g.w.isSeqType(u.Type()) {
				a := x.Val(fr, u.X)
				x.event(&Event{Kind: "peek", Args: []*Term{a, x.Load(a)}, Instr: in, Fr: fr})
			}
		}
		p.Back = g.back
		p.Ret = func(x *Exec, args, res []*Term) {
			if last {
				g.ret(x, g.replay(x, nil), args, res)
			}
		}
		if !p.Run(fn) {
			return false
		}
		if last {
			return true
		}
		last = g.show(g.turns) == g.show(g.cur)
		g.turns = g.cur
	}
	return false
}

func (g *sequences) show(m map[string][]*seqTurn) string {
	var out []string
	for k, ts := range m {
		for _, t := range ts {
			l := k
			for _, n := range sortedPuts(t.post) {
				p := t.post[n]
				l += fmt.Sprint(n, p.ok, p.indexed, p.skip, p.f, segsString(p.src))
			}
			out = append(out, l)
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func sortedPuts(m map[string]seqPut) (out []string) {
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return
}

// replay works out the contents after the events of a path; with a loop, within
// one turn of it.
func (g *sequences) replay(x *Exec, a *loopAct) *seqState {
	s := &seqState{g: g, x: x, env: map[string][]seg{}, vals: map[*Term][]seg{}, made: map[string]*Term{}}
	if g.recv != nil {
		if d := g.w.seqField(x, g.recv); d != nil {
			s.env[d.String()] = []seg{{kind: 'o'}}
		}
	}
	for _, e := range x.Events {
		if a != nil && e.Kind == "loop" && e.Data.(*loopAct) == a {
			s.openTurn(e)
			continue
		}
		s.step(e)
	}
	return s
}

// seqField is the address of the elements of an array node.
func (w *World) seqField(x *Exec, n *Term) *Term {
	st := structOf(deref(n.typ))
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if w.isSeqType(st.Field(i).Type()) {
			return x.ts.Mk(OFieldAddr, types.NewPointer(st.Field(i).Type()), "", i, n)
		}
	}
	return nil
}

func (s *seqState) phiName(ph *ssa.Phi, e *Event) string {
	return "phi:" + ph.Name() + "@" + algLoop(e.Fr, e.Data.(*loopAct).header)
}

func (s *seqState) openTurn(e *Event) {
	act := e.Data.(*loopAct)
	for _, ph := range sortedPhis(act.cur) {
		if s.g.w.isSeqType(ph.Type()) {
			s.env[s.phiName(ph, e)] = nil
		}
	}
	s.open = map[string][]seg{}
	for n := range s.env {
		s.env[n] = []seg{{kind: 'p', name: n}}
		s.open[n] = s.env[n]
	}
	for _, ph := range sortedPhis(act.cur) {
		if s.g.w.isSeqType(ph.Type()) {
			s.vals[act.cur[ph]] = s.env[s.phiName(ph, e)]
		}
	}
}

func (s *seqState) step(e *Event) {
	x := s.x
	switch e.Kind {
	case "peek":
		a, v := e.Args[0], e.Args[1]
		if v.op == OLoad {
			if _, ok := s.vals[v]; !ok {
				if t, ok := s.env[a.String()]; ok {
					s.vals[v] = t
				} else {
					s.vals[v] = unknownSeq
				}
			}
		}
	case "store":
		a, v := e.Args[0], e.Args[1]
		if a.op == OIndexAddr {
			if isVarargs(e.Instr) || !s.g.w.isSeqType(a.args[0].typ) {
				return
			}
			b := s.whole(a.args[0])
			if b.op == OMake {
				n := "made:" + b.String()
				s.made[n] = b
				s.env[n] = append(append([]seg{}, s.env[n]...), seg{kind: 'i', src: v, name: "#", f: a.args[1].String()})
				s.sets = append(s.sets, seqSet{nil, a.args[1], v})
			} else {
				s.sets = append(s.sets, seqSet{s.seqOf(a.args[0]), a.args[1], v})
			}
			return
		}
		if s.g.w.isSeqType(deref(a.typ)) {
			s.env[a.String()] = s.seqOf(v)
		} else if st := structOf(deref(a.typ)); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if s.g.w.isSeqType(st.Field(i).Type()) {
					fa := x.ts.Mk(OFieldAddr, types.NewPointer(st.Field(i).Type()), "", i, a)
					s.env[fa.String()] = s.seqOf(x.field(v, i, st.Field(i).Type()))
				}
			}
		}
	case "copy":
		if len(e.Args) >= 2 && s.g.w.isSeqType(e.Args[0].typ) {
			b := s.whole(e.Args[0])
			if b.op == OMake && x.eqLin(x.Lin(x.LenOf(b)), x.Lin(x.LenOf(e.Args[1]))) {
				s.env["made:"+b.String()] = s.seqOf(e.Args[1])
			} else {
				s.sets = append(s.sets, seqSet{s.seqOf(e.Args[0]), nil, nil})
			}
		}
	case "call":
		if e.Fn != nil && s.g.w.IsMain(e.Fn) && x.ModOf(e.Fn).all {
			for n := range s.env {
				s.env[n] = unknownSeq
			}
		}
	case "loop":
		s.loop(e)
	}
}

// whole strips slicing that takes everything.
func (s *seqState) whole(t *Term) *Term {
	x := s.x
	for t.op == OSlice {
		lo, ok := t.args[1].IntVal()
		if !ok || lo != 0 || !x.eqLin(x.Lin(x.LenOf(t)), x.Lin(x.LenOf(t.args[0]))) {
			break
		}
		t = t.args[0]
	}
	return t
}

func (s *seqState) seqOf(t *Term) []seg {
	x := s.x
	if v, ok := s.vals[t]; ok {
		return v
	}
	if els, ok := x.sliceElems(t); ok {
		var out []seg
		for _, e := range els {
			out = append(out, s.elemSeg(e))
		}
		return out
	}
	switch t.op {
	case ONil, OZero:
		return nil
	case OMake:
		if x.Entails(x.Lin(x.LenOf(t)).neg()) {
			return nil
		}
		if v, ok := s.env["made:"+t.String()]; ok && len(v) == 1 && v[0].kind != 'i' {
			return v
		}
	case OParam:
		return []seg{{kind: 'w', src: t}}
	case OAppend:
		if len(t.args) == 2 {
			return append(append([]seg{}, s.seqOf(t.args[0])...), s.seqOf(t.args[1])...)
		}
	case OSlice:
		if x.Entails(x.Lin(x.LenOf(t)).neg()) {
			return nil
		}
		if w := s.whole(t); w != t {
			return s.seqOf(w)
		}
	case OCall:
		if strings.HasPrefix(t.aux, "slices.Clone") && len(t.args) == 1 {
			return s.seqOf(t.args[0])
		}
	}
	return unknownSeq
}

// elemSeg describes one element.
func (s *seqState) elemSeg(v *Term) seg {
	x := s.x
	t := baseNode(v)
	if t.op == OAlloc {
		if st := structOf(deref(t.typ)); st != nil && types.Identical(deref(t.typ), s.g.w.NamedType("JSONString")) {
			for i := 0; i < st.NumFields(); i++ {
				if isStringType(st.Field(i).Type()) {
					p := x.Load(x.ts.Mk(OFieldAddr, types.NewPointer(st.Field(i).Type()), "", i, t))
					return seg{kind: 'e', src: p, f: "string"}
				}
			}
		}
	}
	if t.op == OExtract && t.num == 0 && t.args[0].op == OCall && hasBase(t.args[0].aux, ".GetString") {
		return seg{kind: 'e', src: baseNode(t.args[0].args[0]), f: "text"}
	}
	return seg{kind: 'e', src: t}
}

func (g *sequences) back(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) {
	lk := algLoop(fr, a.header)
	s := g.replay(x, a)
	if s.open == nil {
		return
	}
	ev := &Event{Fr: fr, Data: a}
	for _, ph := range sortedPhis(a.cur) {
		if g.w.isSeqType(ph.Type()) {
			s.env[s.phiName(ph, ev)] = s.seqOf(next[ph])
		}
	}
	t := &seqTurn{post: map[string]seqPut{}}
	evs := x.eventsAfter(a.header)
	for n, l := range s.env {
		old, there := s.open[n]
		if !there && !strings.HasPrefix(n, "made:") || len(l) == len(old) && there && segsEqual(l, old) {
			continue
		}
		var g seg
		p := seqPut{}
		switch {
		case strings.HasPrefix(n, "made:"):
			if len(l) == 0 {
				continue
			}
			g = l[len(l)-1]
			if len(l) > 2 || len(l) == 2 && l[0].kind != 'p' || g.kind != 'i' {
				t.post[n] = p
				continue
			}
			p.indexed = true
			idx := g.f
			g = s.elemSeg(g.src)
			el, ok := x.elemOf(g.src)
			p.ok = ok && el.kind == 's' && s.idxAt(idx, el)
		case len(l) == 2 && l[0].kind == 'p' && l[0].name == n && l[1].kind == 'e':
			g = l[1]
			p.ok = true
		}
		if g.kind == 'e' {
			el, ok := x.elemOf(g.src)
			p.ok = p.ok && ok && el.kind == 's' && (p.indexed && x.turnAt(a, next, el) || x.turnUp(a, next, el))
			if ok {
				p.src, p.term, p.f = s.seqOf(el.src), el.src, g.f
			}
		}
		t.post[n] = p
	}
	// elements without text
	for _, e := range evs {
		if e.Kind != "call" || !hasBase(e.Name, ".GetString") || e.Res == nil {
			continue
		}
		rt, ok := e.Res.typ.(*types.Tuple)
		if !ok || rt.Len() != 2 || x.knownNil(x.extract(e.Res, 1, rt.At(1).Type())) != 0 {
			continue
		}
		el, ok := x.elemOf(baseNode(e.Args[0]))
		if !ok || el.kind != 's' || !x.turnAt(a, next, el) {
			continue
		}
		for _, n := range s.madeBefore(a) {
			if _, ok := t.post[n]; !ok {
				t.post[n] = seqPut{src: s.seqOf(el.src), term: el.src, f: "text", ok: true, indexed: true, skip: true}
			}
		}
	}
	g.cur[lk] = append(g.cur[lk], t)
}

// madeBefore names the slices of a length made before the loop.
func (s *seqState) madeBefore(a *loopAct) (out []string) {
	seen := map[string]bool{}
	for _, ts := range s.g.turns {
		for _, t := range ts {
			for n := range t.post {
				if strings.HasPrefix(n, "made:") && !seen[n] {
					seen[n] = true
					out = append(out, n)
				}
			}
		}
	}
	sort.Strings(out)
	return
}

func (s *seqState) idxAt(idx string, el elem) bool { return idx == el.idx.String() }

func segsEqual(a, b []seg) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// loop applies what a finished loop did.
func (s *seqState) loop(e *Event) {
	x := s.x
	act := e.Data.(*loopAct)
	ts := s.g.turns[algLoop(e.Fr, act.header)]
	names := map[string]bool{}
	for _, ph := range sortedPhis(act.cur) {
		if s.g.w.isSeqType(ph.Type()) {
			n := s.phiName(ph, e)
			s.env[n] = s.seqOf(act.entry[ph])
			names[n] = true
		}
	}
	for _, t := range ts {
		for n := range t.post {
			names[n] = true
		}
	}
	entry := map[string][]seg{}
	for n, l := range s.env {
		entry[n] = l
	}
	for n := range names {
		s.env[n] = s.after(act, ts, n, entry)
	}
	for _, ph := range sortedPhis(act.cur) {
		if s.g.w.isSeqType(ph.Type()) {
			s.vals[act.cur[ph]] = s.env[s.phiName(ph, e)]
		}
	}
	_ = x
}

func (s *seqState) after(act *loopAct, ts []*seqTurn, n string, entry map[string][]seg) []seg {
	x := s.x
	var p seqPut
	none := true
	for i, t := range ts {
		q, ok := t.post[n]
		if ok {
			none = false
		}
		if i > 0 && (q.f != p.f || segsString(q.src) != segsString(p.src) || q.indexed != p.indexed) {
			return unknownSeq
		}
		if i > 0 {
			q.ok = q.ok && p.ok
		}
		p = q
	}
	if none {
		return entry[n]
	}
	if !p.ok || p.term == nil {
		return unknownSeq
	}
	name := p.term.String()
	size := x.LenOf(p.term).String()
	if !x.loopDone(act, func(t *Term) bool {
		return t.String() == size || t.any(func(u *Term) bool { return u.String() == name })
	}) {
		return unknownSeq
	}
	var src []seg
	for _, g := range p.src {
		if g.kind == 'p' {
			src = append(src, entry[g.name]...)
		} else {
			src = append(src, g)
		}
	}
	if p.f != "" {
		src = append([]seg{}, src...)
		for i := range src {
			if src[i].f != "" {
				return unknownSeq
			}
			src[i].f = p.f
		}
	}
	if p.indexed {
		return src
	}
	return append(append([]seg{}, entry[n]...), src...)
}

// tidy drops parts known to be empty.
func (s *seqState) tidy(l []seg) (out []seg) {
	x := s.x
	for _, g := range l {
		if g.kind == 'w' && x.Entails(x.Lin(x.LenOf(g.src)).neg()) {
			continue
		}
		out = append(out, g)
	}
	return
}

// nodeSeq is what an array node holds.
func (s *seqState) nodeSeq(n *Term) []seg {
	d := s.g.w.seqField(s.x, baseNode(n))
	if d == nil {
		return unknownSeq
	}
	if l, ok := s.env[d.String()]; ok {
		return l
	}
	if baseNode(n).op == OAlloc {
		return s.seqOf(s.x.Load(d))
	}
	return unknownSeq
}
