package main

import (
	"fmt"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C29"] = check{explainC29, runC29} }

const explainC29 = "Entry edit: for one arbitrary key the content of the dict was followed through every path of Set, Remove, RemoveIgnoreCase, NewDict and Add (key paths of no, one and two keys) as a table over the cases of: the dict had the key, it is the key given, it differs from it only in case, it is among the pairs given. At each return the table must show the entry named changed and no other; the answer of a removal must tell whether there was something to remove; with two keys the value must be put under the second key into the dict under the first, which is new only where there was none or null. Sequence edit: for arrays and lists of nodes the elements after each path of the constructors, Add, SetAt, Copy, Value and GetStringArray were expressed as parts (what there was, all elements of a slice in order, made into string nodes or texts) and must be the ones stated. What the analysis cannot follow counts as unknown and is reported."

func runC29(w *World, r *Rep) {
	c := &c24{newObls(w, r), "entry edit"}
	node := "JSONDict"
	if w.mapField(node) < 0 {
		r.Bad("anchor", node, "map", "-", "JSONDict holds no sorted map")
		return
	}
	keep := func(k int) byte { return pick(k&inA != 0, tA) }
	only := func(bit int, b byte) func(int) string {
		return func(k int) string {
			if k&bit != 0 {
				return string(rune(b))
			}
			return string(rune(keep(k)))
		}
	}
	// answer: the result tells whether there was something to remove.
	answer := func(s *algState, fn *ssa.Function, bit int, v bool) {
		s.restrict()
		bad := ""
		for k, in := range s.cases {
			if !in || k&bit == 0 || bad != "" {
				continue
			}
			if k&inA != 0 && !v {
				bad = "answers false although the dict had an entry for the key"
			}
			if bit == isKey && k&inA == 0 && v {
				bad = "answers true although the dict had no entry for the key"
			}
		}
		if bad == "" && v && bit == isFold && !s.tookAny() {
			bad = "answers true although nothing was removed"
		}
		c.need(nil, retInstr(fn), c.rule, "answer of "+fn.Name(), bad == "", "%s", bad)
	}
	for _, m := range []struct {
		name string
		bit  int
		val  byte
	}{{"Set", isKey, tVal}, {"Remove", isKey, tNone}, {"RemoveIgnoreCase", isFold, tNone}} {
		fn := c.method(node, m.name)
		if fn == nil {
			continue
		}
		g := &algebra{w: w, node: node, data: w.mapField(node)}
		g.intro = func(x *Exec, args []*Term) {
			g.a, g.key = args[0], args[1]
			if m.val == tVal {
				g.val = args[2]
			}
		}
		g.ret = func(x *Exec, s *algState, args, res []*Term) {
			c.judge(s, fn, "contents after "+m.name, s.nodeTab(g.a), only(m.bit, m.val))
			if m.val == tVal {
				return
			}
			x.Fork(res[0], func(v bool) {
				if s := g.replay(x); s != nil {
					answer(s, fn, m.bit, v)
				}
			})
		}
		c.go_(g, fn)
	}
	if fn := w.Func("NewDict"); fn == nil {
		r.Bad("anchor", "NewDict", "function", "-", "NewDict is missing")
	} else {
		g := &algebra{w: w, node: node, data: w.mapField(node), pairs: true}
		g.intro = func(x *Exec, args []*Term) { g.list = args[0] }
		g.ret = func(x *Exec, s *algState, args, res []*Term) {
			c.judge(s, fn, "contents of a new dict", s.nodeTab(res[0]), func(k int) string { return string(rune(pick(k&inL != 0, tListed))) })
		}
		c.go_(g, fn)
	}
	if fn := c.method(node, "Add"); fn != nil {
		for n := 0; n <= 2; n++ {
			c.addPath(fn, node, n, only)
		}
	}
	c.arrays()
	c.finish()
	r.Assume = append(r.Assume, "the functions of the sortedmap dependency add, delete, merge and find entries as documented")
	r.Assume = append(r.Assume, "key paths of JSONDict.Add longer than two keys behave as the function does with two (they are not judged)")
	r.AtLeast("entry edit", 5)
	r.AtLeast("sequence edit", 5)
}

// addPath judges Add with a key path of n keys.
func (c *c24) addPath(fn *ssa.Function, node string, n int, only func(int, byte) func(int) string) {
	w := c.w
	g := &algebra{w: w, node: node, data: w.mapField(node), lit: true}
	kt := fn.Params[2].Type()
	g.intro = func(x *Exec, args []*Term) {
		g.a, g.val = args[0], args[1]
		var ks []*Term
		for i := 0; i < n; i++ {
			p := x.ts.Mk(OIndex, types.Typ[types.String], "", 0, args[2], x.ts.Int(int64(i)))
			ks = append(ks, p)
		}
		if n > 0 {
			g.key = ks[0]
		}
		args[2] = x.literal(fn.Params[2], kt, ks...)
	}
	what := fmt.Sprintf("contents after Add with %d keys", n)
	g.ret = func(x *Exec, s *algState, args, res []*Term) {
		x.Fork(x.Bin("==", res[0], x.ts.Nil(res[0].typ), types.Typ[types.Bool]), func(ok bool) {
			s := g.replay(x)
			if s == nil {
				return
			}
			want := func(k int) string { return string(rune(pick(k&inA != 0, tA))) }
			switch {
			case n == 1 && ok:
				want = only(isKey, tVal)
			case n == 2 && ok:
				old := want
				want = func(k int) string {
					if k&isKey != 0 && (k&inA == 0 || nullHeld(s)) {
						return string(rune(tNew))
					}
					return old(k)
				}
			}
			c.judge(s, fn, what, s.nodeTab(g.a), want)
			if n == 2 && ok {
				c.child(s, fn)
			}
		})
	}
	c.go_(g, fn)
}

// nullHeld: the dict is known to hold null under the key.
func nullHeld(s *algState) bool {
	x := s.x
	null := types.NewPointer(x.w.NamedType("JSONValue"))
	for _, e := range x.Events {
		if e.Kind != "call" || e.Res == nil || !hasBase(e.Name, "SSortedMap).Get") || !s.isOwn(e.Args[1]) {
			continue
		}
		v := x.extract(e.Res, 0, types.NewInterfaceType(nil, nil))
		if is, k := x.Eval(x.isType(v, null)); k && is {
			return true
		}
		for _, b := range x.Events {
			if b.Kind != "branch" {
				continue
			}
			if eq := b.Args[0]; eq.op == OBin && (eq.aux == "==" || eq.aux == "!=") && b.Data.(bool) == (eq.aux == "==") && (sameValue(eq.args[0], v) && isNullNode(eq.args[1], null) || sameValue(eq.args[1], v) && isNullNode(eq.args[0], null)) {
				return true
			}
		}
	}
	return false
}

func sameValue(a, b *Term) bool {
	for a.op == OAssert || a.op == OIface {
		a = a.args[0]
	}
	return a == b || a.op == OExtract && b.op == OExtract && a.num == b.num && a.args[0] == b.args[0]
}

func isNullNode(t *Term, null types.Type) bool {
	for t.op == OAssert || t.op == OIface {
		t = t.args[0]
	}
	return t.typ != nil && types.Identical(t.typ, null)
}

// arrays judges the operations on sequences.
func (c *c24) arrays() {
	w, r := c.w, c.r
	c.rule = "sequence edit"
	run := func(fn *ssa.Function, g *sequences) {
		if !g.run(fn) {
			r.Bad("undecided", fnName(fn), "paths", "-", "too many paths to decide")
		}
		for f := range g.pr.visited {
			r.Visit(fnName(f))
		}
	}
	judge := func(s *seqState, fn *ssa.Function, what string, got, want []seg) {
		got, want = s.tidy(got), s.tidy(want)
		for i := range want {
			for j := range got {
				if want[i].kind == 'w' && got[j].kind == 'w' && want[i].src.String() == got[j].src.String() {
					want[i].src = got[j].src
				}
			}
		}
		why := ""
		if !segsEqual(got, want) {
			why = fmt.Sprintf("holds %s instead of %s", segsString(got), segsString(want))
		}
		for _, e := range s.sets {
			if len(e.base) > 0 && why == "" {
				why = "overwrites an element of what it was given"
			}
		}
		c.need(nil, retInstr(fn), c.rule, what, why == "", "%s", why)
	}
	old := []seg{{kind: 'o'}}
	all := func(t *Term, f string) []seg { return []seg{{kind: 'w', src: t, f: f}} }
	for _, m := range []struct {
		name, f string
	}{{"NewArray", ""}, {"NewStringArray", "string"}, {"JSONArray2StringArray", "text"}} {
		fn := w.Func(m.name)
		if fn == nil {
			r.Bad("anchor", m.name, "function", "-", "%s is missing", m.name)
			continue
		}
		r.Visit(fnName(fn))
		g := &sequences{w: w}
		g.intro = func(x *Exec, args []*Term) {}
		g.ret = func(x *Exec, s *seqState, args, res []*Term) {
			got := unknownSeq
			if isSlice(res[0].typ) {
				got = s.seqOf(res[0])
			} else {
				got = s.nodeSeq(res[0])
			}
			judge(s, fn, "elements of "+m.name, got, all(args[0], m.f))
		}
		run(fn, g)
	}
	for _, m := range []struct {
		name string
		want func(args []*Term) []seg
	}{
		{"Add", func(args []*Term) []seg { return append(append([]seg{}, old...), all(args[1], "")...) }},
		{"SetAt", func(args []*Term) []seg { return old }},
		{"Copy", func(args []*Term) []seg { return old }},
		{"Value", func(args []*Term) []seg { return old }},
		{"GetStringArray", func(args []*Term) []seg { return []seg{{kind: 'o', f: "text"}} }},
	} {
		fn := c.method("JSONArray", m.name)
		if fn == nil {
			continue
		}
		g := &sequences{w: w}
		g.intro = func(x *Exec, args []*Term) { g.recv = args[0] }
		g.ret = func(x *Exec, s *seqState, args, res []*Term) {
			got := unknownSeq
			switch {
			case len(res) == 0:
				got = s.nodeSeq(args[0])
			case isSlice(res[0].typ):
				got = s.seqOf(res[0])
			default:
				got = s.nodeSeq(res[0])
			}
			if m.name == "SetAt" {
				ok := len(s.sets) == 1 && segsEqual(s.sets[0].base, old) && s.sets[0].idx != nil && x.eqLin(x.Lin(s.sets[0].idx), x.Lin(args[1])) && baseNode(s.sets[0].val) == baseNode(args[2])
				c.need(nil, retInstr(fn), c.rule, "element that SetAt replaces", ok, "something else than the element at the index given is set to the value given")
				s.sets = nil
			}
			judge(s, fn, "elements after "+m.name, got, m.want(args))
		}
		run(fn, g)
	}
}

// child: the value is set under the second key of the dict under the first.
func (c *c24) child(s *algState, fn *ssa.Function) {
	x := s.x
	second := x.ts.Mk(OIndex, types.Typ[types.String], "", 0, s.g.key.args[0], x.ts.Int(1))
	why, n := "the value is not set", 0
	var held []*Term
	for _, e := range x.Events {
		if e.Kind != "call" || !strings.HasPrefix(e.Name, "yunion.io/x/pkg/sortedmap.") {
			continue
		}
		switch {
		case hasBase(e.Name, "sortedmap.Add") && len(e.Args) == 3:
			if baseNode(e.Args[2]) != s.g.val && e.Args[2] != s.g.val {
				if !s.isOwn(e.Args[1]) {
					why = "another entry is set"
					n = 2
				}
				held = append(held, baseNode(e.Args[2]))
				continue
			}
			n++
			why = ""
			if e.Args[1] != second {
				why = "the value is set under another key"
			}
			if d := s.holder(e); d == nil {
				why = "the value is set in some other dict"
			} else if d.op == OAlloc {
				if !slices.Contains(held, d) {
					why = "the value is set in a new dict that is not under the first key"
				}
			} else if v := s.valTab(d); why == "" {
				for k, in := range s.cases {
					if in && k&isKey != 0 && v[k] != tA && v[k] != tNew {
						why = "the value is set in another dict than the one under the first key"
					}
				}
			}
		case hasBase(e.Name, "sortedmap.Merge"), hasBase(e.Name, "sortedmap.Delete"), hasBase(e.Name, "sortedmap.DeleteIgnoreCase"):
			n += 2
		}
		if n > 1 {
			why = "more than one entry is changed"
		}
	}
	c.need(nil, retInstr(fn), c.rule, "entry that Add sets below the first key", why == "", "%s", why)
}

// holder is the dict whose map a call was given.
func (s *algState) holder(e *Event) *Term {
	var found *Term
	for _, p := range s.x.Events {
		if p == e {
			return found
		}
		if p.Kind == "peek" && p.Args[1] == e.Args[0] && p.Args[0].op == OFieldAddr {
			found = p.Args[0].args[0]
		}
	}
	return nil
}
