package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// fills records how loops of one function fill containers from a source.
type fills struct {
	own   func(*Term) bool // terms that belong to the source
	turns map[*ssa.BasicBlock][]fillTurn
}

type fillTurn struct {
	n    int  // puts of an element into a container
	at   bool // the element is the one of this turn
	key  bool // it keeps its key or position
	cont []*Term
	src  []*Term
	raw  bool // the element itself is put, not something made of it
}

func newFills() *fills { return &fills{turns: map[*ssa.BasicBlock][]fillTurn{}} }

// put is one write of a value into a container.
type put struct {
	cont, key, val *Term
	res            *Term // the container with the value in it
}

func (x *Exec) puts(evs []*Event) []put {
	var out []put
	for _, e := range evs {
		switch e.Kind {
		case "mapset":
			if len(e.Args) == 3 {
				out = append(out, put{e.Args[0], e.Args[1], e.Args[2], nil})
			}
		case "store":
			if a := e.Args[0]; a.op == OIndexAddr && !isVarargs(e.Instr) {
				out = append(out, put{a.args[0], a.args[1], e.Args[1], nil})
			}
		case "append":
			vs := e.Args[1:]
			if vs[0].op == OVar {
				vs = vs[0].args
			}
			for _, v := range vs {
				out = append(out, put{e.Args[0], nil, v, e.Res})
			}
		case "call":
			switch n := e.Name; {
			case hasBase(n, "sortedmap.Add") && len(e.Args) == 3:
				out = append(out, put{e.Args[0], e.Args[1], e.Args[2], e.Res})
			}
		}
	}
	return out
}

// isVarargs: the store prepares the arguments of a variadic call.
func isVarargs(in ssa.Instruction) bool {
	if st, ok := in.(*ssa.Store); ok {
		if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
			if al, ok := ia.X.(*ssa.Alloc); ok {
				return al.Comment == "varargs"
			}
		}
	}
	return false
}

func hasBase(name, suffix string) bool {
	return len(name) >= len(suffix) && name[len(name)-len(suffix):] == suffix
}

// back records one turn.
func (f *fills) back(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) {
	t := fillTurn{at: true, key: true}
	evs := x.eventsAfter(a.header)
	for _, p := range x.puts(evs) {
		es := x.elems(p.val)
		var el *elem
		for i := range es {
			if f.own(es[i].src) {
				el = &es[i]
			}
		}
		if el == nil {
			continue
		}
		t.n++
		if _, ok := x.elemOf(baseNode(p.val)); ok {
			t.raw = true
		}
		t.cont = append(t.cont, p.cont)
		for _, e := range evs {
			if e.Kind == "store" && p.res != nil && e.Args[1] == p.res {
				t.cont = append(t.cont, e.Args[0]) // the variable that holds it
			}
		}
		t.src = append(t.src, el.src)
		if !x.turnAt(a, next, *el) {
			t.at = false
		}
		switch {
		case p.key == nil: // appended
		case el.key != nil:
			t.key = t.key && p.key == el.key || p.key.op == OExtract && el.key.op == OExtract && p.key.args[0] == el.key.args[0] && p.key.num == el.key.num
		case isInt(p.key.typ):
			t.key = t.key && x.eqLin(x.Lin(p.key), x.Lin(el.idx))
		}
	}
	f.turns[a.header] = append(f.turns[a.header], t)
}

// filled tells why a container may lack elements of the source; "" when every
// element was put into it.
func (f *fills) filled(x *Exec, r *Term, from func(*Term) bool) string {
	// a literal that holds the node itself
	if els, ok := x.sliceElems(r); ok && len(els) > 0 {
		for _, e := range els {
			if !from(e) {
				return "the container holds something else than the node"
			}
		}
		return ""
	}
	for _, e := range x.Events {
		switch e.Kind {
		case "copy":
			if len(e.Args) >= 2 && e.Args[0] == r && from(e.Args[1]) && x.eqLin(x.Lin(x.LenOf(r)), x.Lin(x.LenOf(e.Args[1]))) {
				return ""
			}
		}
	}
	if r.op == OAppend && from(r.args[1]) && x.Entails(x.Lin(x.LenOf(r.args[0])).neg()) {
		return "" // all elements appended to an empty slice
	}
	why := "the container is not filled with the elements of the node"
	for _, e := range x.Events {
		if e.Kind != "loop" {
			continue
		}
		a := e.Data.(*loopAct)
		ts := f.turns[a.header]
		if len(ts) == 0 {
			continue
		}
		into := false
		for _, t := range ts {
			for _, c := range t.cont {
				into = into || c == r || sameCont(x, c, r, a)
			}
		}
		if !into {
			continue
		}
		for _, t := range ts {
			switch {
			case t.n == 0:
				return "an element may be left out of the container"
			case t.n > 1:
				return "an element may be put into the container twice"
			case !t.at:
				return "a turn of the loop may use another element than its own"
			case !from(t.src[0]):
				return "the container is filled from something else than the node"
			case !t.key:
				return "an element may be stored under another key or position"
			}
		}
		if !x.loopDone(a, from) {
			return "the container may be returned before all elements were put into it"
		}
		return ""
	}
	return why
}

// sameCont: c is the container that becomes r when the loop ends.
func sameCont(x *Exec, c, r *Term, a *loopAct) bool {
	for _, t := range a.cur {
		if t == r && (c == r || c.contains(t)) {
			return true
		}
	}
	_ = types.Typ
	return false
}
