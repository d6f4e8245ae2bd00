package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// marshalCut are the functions below Marshal and MarshalAll, with the
// recursion cut at functions that yield a node.
type marshalCut struct {
	w     *World
	roots map[string]*ssa.Function
	cut   map[*ssa.Function]bool
	reach map[*ssa.Function]map[*ssa.Function]bool
	rec   map[*ssa.Function]bool
}

func newMarshalCut(w *World, r *Rep) *marshalCut {
	c := &marshalCut{w: w, roots: map[string]*ssa.Function{}, cut: map[*ssa.Function]bool{}, reach: map[*ssa.Function]map[*ssa.Function]bool{}, rec: map[*ssa.Function]bool{}}
	for _, n := range []string{"Marshal", "MarshalAll"} {
		f := w.Func(n)
		if f == nil || f.Blocks == nil {
			r.Bad("anchor", "-", n, "-", "the function was not found")
			return nil
		}
		c.roots[n] = f
	}
	c.findCut(c.roots["Marshal"], c.roots["MarshalAll"])
	return c
}

func (c *marshalCut) reachOf(f *ssa.Function) map[*ssa.Function]bool {
	if c.reach[f] == nil {
		c.reach[f] = c.w.Reach([]*ssa.Function{f})
	}
	return c.reach[f]
}

// callees are the in-package functions a function runs or makes.
func (w *World) callees(f *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				for _, t := range w.Targets(ci.Common()) {
					out[t] = true
				}
			}
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok && g.Blocks != nil && w.IsMain(g) {
					out[g] = true
				}
			}
		}
	}
	return out
}

func (c *marshalCut) yieldsNode(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() == 1 && c.w.isNodeIface(rs.At(0).Type())
}

// findCut selects functions that yield a node so that no cycle below the entry
// points is left that runs through one of them.
func (c *marshalCut) findCut(roots ...*ssa.Function) {
	all := c.w.Reach(roots)
	var fns []*ssa.Function
	for f := range all {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	succ := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range fns {
		succ[f] = c.w.callees(f)
	}
	cyclic := func() map[*ssa.Function]map[*ssa.Function]bool {
		out := map[*ssa.Function]map[*ssa.Function]bool{}
		for _, f := range fns {
			if c.cut[f] {
				continue
			}
			// functions on a cycle with f
			seen := map[*ssa.Function]bool{}
			var walk func(g *ssa.Function)
			walk = func(g *ssa.Function) {
				for h := range succ[g] {
					if !c.cut[h] && !seen[h] {
						seen[h] = true
						walk(h)
					}
				}
			}
			walk(f)
			if seen[f] {
				out[f] = seen
			}
		}
		return out
	}
	for {
		cy := cyclic()
		var best *ssa.Function
		n := -1
		for _, f := range fns {
			if cy[f] == nil || !c.yieldsNode(f) || f.Parent() != nil {
				continue
			}
			k := 0
			for _, g := range fns {
				if cy[g] != nil && cy[f][g] && cy[g][f] && succ[g][f] {
					k++
				}
			}
			if k > n {
				best, n = f, k
			}
		}
		if best == nil {
			for f := range cy {
				c.rec[f] = true
			}
			return
		}
		c.cut[best] = true
	}
}

// inline: helpers without loops and everything on the way to a cut function
// is followed.
func (c *marshalCut) inline(f *ssa.Function) bool {
	if c.cut[f] || c.rec[f] {
		return false
	}
	for g := range c.reachOf(f) {
		if c.cut[g] {
			return true
		}
	}
	return len(findLoops(f)) == 0
}
