package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C24"] = check{explainC24, runC24} }

const explainC24 = "For one arbitrary key, what each map holds under it was followed through every path of the operation as a table over all cases of: the key is in the receiver, in the other dict, in the key list, the two values are equal. Merging, splitting, inserting, deleting and reading of sorted maps act on the tables; a loop over the entries, the keys or the list acts on the key by what its turns do when they stand at that key, provided every turn stands at its own element and the loop is left after the last one; membership tests (library calls, searching loops, sets made from the list) and comparisons restrict the cases. At each return the table of each result must be the one the property states, in every case the path allows. What the analysis cannot follow counts as unknown and is reported."

type c24 struct {
	*Obls
	rule string
}

func runC24(w *World, r *Rep) {
	c := &c24{newObls(w, r), "set algebra"}
	node := "JSONDict"
	if w.mapField(node) < 0 {
		r.Bad("anchor", node, "map", "-", "JSONDict holds no sorted map")
		return
	}
	pt := types.NewPointer(w.NamedType(node))
	over := func(first, second byte) func(int) string {
		return func(k int) string {
			switch {
			case k&inA != 0 && (k&inB == 0 || first == tA):
				return "A"
			case k&inB != 0:
				return "B"
			}
			return "-"
		}
	}
	keep := func(k int) string { return string(rune(pick(k&inA != 0, tA))) }
	for _, m := range []struct {
		name string
		want func(int) string
	}{{"Update", over(tB, tA)}, {"UpdateDefault", over(tA, tB)}} {
		fn := c.method(node, m.name)
		if fn == nil {
			continue
		}
		g := &algebra{w: w, node: node, data: w.mapField(node)}
		var arg *Term
		g.intro = func(x *Exec, args []*Term) {
			arg = args[1]
			g.a, g.b = args[0], x.asserted(args[1], pt)
		}
		g.ret = func(x *Exec, s *algState, args, res []*Term) {
			is, known := x.Eval(x.isType(arg, pt))
			want := m.want
			if !known || !is {
				want = keep
				s.onlyA()
			}
			c.judge(s, fn, "contents after "+m.name, s.nodeTab(g.a), want)
		}
		c.go_(g, fn)
	}
	for _, m := range []struct {
		name string
		in   bool
	}{{"CopyIncludes", true}, {"CopyExcludes", false}, {"Copy", false}} {
		fn := c.method(node, m.name)
		if fn == nil {
			continue
		}
		g := &algebra{w: w, node: node, data: w.mapField(node)}
		g.intro = func(x *Exec, args []*Term) { g.a, g.list = args[0], args[1] }
		g.ret = func(x *Exec, s *algState, args, res []*Term) {
			c.judge(s, fn, "contents of "+m.name, s.nodeTab(res[0]), func(k int) string {
				return string(rune(pick(k&inA != 0 && (k&inL != 0) == m.in, tA)))
			})
		}
		c.go_(g, fn)
	}
	if fn := w.Func("Diff"); fn == nil {
		r.Bad("anchor", "Diff", "function", "-", "Diff is missing")
	} else {
		g := &algebra{w: w, node: node, data: w.mapField(node)}
		g.intro = func(x *Exec, args []*Term) {
			g.a, g.b = args[0], args[1]
			x.setNil(g.a, false)
			x.setNil(g.b, false)
		}
		want := []func(int) string{
			func(k int) string { return string(rune(pick(k&inA != 0 && k&inB == 0, tA))) },
			func(k int) string { return string(rune(pick(k&(inA|inB) == inA|inB && k&isEq == 0, tPair))) },
			func(k int) string {
				if k&(inA|inB) == inA|inB && k&isEq != 0 {
					return "AB"
				}
				return "-"
			},
			func(k int) string { return string(rune(pick(k&inB != 0 && k&inA == 0, tB))) },
		}
		g.ret = func(x *Exec, s *algState, args, res []*Term) {
			for i, r := range res {
				if i < len(want) {
					name := fn.Signature.Results().At(i).Name()
					if name == "" {
						name = fmt.Sprint(i + 1)
					}
					c.judge(s, fn, "result "+name+" of Diff", s.nodeTab(r), want[i])
				}
			}
		}
		c.go_(g, fn)
	}
	c.finish()
	r.AtLeast("set algebra", 5)
	r.Assume = append(r.Assume, "Merge, Split, Add, Delete, Get and the iterator of yunion.io/x/pkg/sortedmap do what their documentation says", "the two dicts are different objects or equal; nobody changes them meanwhile")
}

func (c *c24) method(t, name string) *ssa.Function {
	f, _ := c.w.Method(t, name)
	g := unwrapPromoted(f)
	if g == nil || g.Blocks == nil {
		c.r.Bad("anchor", t, name, "-", "%s of %s is missing", name, t)
		return nil
	}
	c.r.Visit(fnName(g))
	return g
}

func (c *c24) go_(g *algebra, fn *ssa.Function) {
	if !g.run(fn) {
		c.r.Bad("undecided", fnName(fn), "paths", "-", "too many paths to decide")
	}
	for f := range g.pr.visited {
		c.r.Visit(fnName(f))
	}
}

// onlyA: there is no other dict.
func (s *algState) onlyA() {
	for k := range s.cases {
		if k&inB != 0 {
			s.cases[k] = false
		}
	}
}

func (c *c24) judge(s *algState, fn *ssa.Function, what string, got tab, want func(int) string) {
	s.restrict()
	bad := ""
	for k := range got {
		if !s.cases[k] || bad != "" {
			continue
		}
		ok := false
		w := want(k)
		for _, v := range []byte(w) {
			ok = ok || v == got[k]
		}
		if !ok {
			bad = fmt.Sprintf("for a key %s: %s instead of %s", caseName(k, s.g), symName(got[k]), symName(w[0]))
		}
	}
	c.need(nil, retInstr(fn), c.rule, what, bad == "", "%s", bad)
}
