package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C33"] = check{explainC33, runC33} }

const explainC33 = "Path-sensitive interpretation of every function that reads values from JSON text. Functions on a cycle of calls and those that return a position are cut; each cut call that does not report an error yields values: a node, the contents of a container, or the receiver that was filled. On every turn of a loop the values read in the turn must be appended to, or set in, the one container the loop builds, in the order read and nothing else with them; a value of an object must stand under the text read before it in the same turn, unless that text equals the key of node ids. On every path that may report success the contents returned, or put into the receiver, must be the loop's container with exactly what was read after the loop, begin empty, and a function that returns a node must return the one read."

func runC33(w *World, r *Rep) {
	c := &c33{Obls: newObls(w, r), ps: newParsers(w), ids: idKeys(w)}
	for _, f := range w.Funcs {
		if c.reader(f) {
			c.judge(f)
		}
	}
	c.finish()
	r.Notes = append(r.Notes, fmt.Sprintf("%d paths", c.paths))
	r.Assume = append(r.Assume, "sortedmap.Add sets the entry of the key given, in the place of one of an equal key, and keeps the others")
	r.AtLeast("kept in order", 2)
	r.AtLeast("under its key", 1)
	r.AtLeast("returned", 2)
}

type c33 struct {
	*Obls
	ps    *parsers
	ids   map[string]bool
	paths int
}

// idKeys are the constants of the package that may be keys of node ids: those
// that begin with an underscore.
func idKeys(w *World) map[string]bool {
	out := map[string]bool{}
	for _, n := range w.Main.Pkg.Scope().Names() {
		if k, ok := w.Main.Pkg.Scope().Lookup(n).(*types.Const); ok && k.Val().Kind() == constant.String && strings.HasPrefix(constant.StringVal(k.Val()), "_") {
			out[constant.StringVal(k.Val())] = true
		}
	}
	return out
}

// isContents: the elements of an array or the entries of an object.
func (c *c33) isContents(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	if c.w.isNodeIface(s.Elem()) {
		return true
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "SSortedMap"
}

func (c *c33) isNode(t types.Type) bool { return c.w.isNodeIface(t) || c.w.isNodePtr(t) }

// reader: reads values from text.
func (c *c33) reader(f *ssa.Function) bool {
	if f.Blocks == nil || !c.w.IsMain(f) || paramOf(f, isText) < 0 || f.Synthetic != "" {
		return false
	}
	for g := range c.w.Reach([]*ssa.Function{f}) {
		if c.ps.looks(g) && c.ps.cut(g) {
			return len(c.yields(f)) > 0 || c.fills(f) >= 0
		}
	}
	return false
}

// fills tells which argument, -1 for none, is a node that the function puts what
// it reads into.
func (c *c33) fills(f *ssa.Function) int {
	if c.ps.looks(f) && len(c.yields(f)) == 0 {
		return paramOf(f, c.isNode)
	}
	return -1
}

// yields are the results that hold values read.
func (c *c33) yields(f *ssa.Function) []int {
	return resultsOf(f, func(t types.Type) bool { return c.isNode(t) || c.isContents(t) })
}

// product is a value read.
type product struct {
	v  *Term
	at int // the event
}

// bare removes interface wrappers.
func bare(t *Term) *Term {
	for t != nil && (t.op == OIface || t.op == OAssert || t.op == OConv && len(t.args) == 1 && !isStringType(t.typ)) {
		t = t.args[0]
	}
	return t
}

// products are the values read in a range of events.
func (c *c33) products(x *Exec, evs []*Event) []product {
	var out []product
	for i, e := range evs {
		if e.Kind != "call" {
			continue
		}
		if e.Fn == nil {
			// a method of a node of unknown type
			if in, ok := e.Instr.(ssa.CallInstruction); ok && in.Common().IsInvoke() && c.w.isNodeIface(in.Common().Value.Type()) {
				for _, g := range c.w.Implementers(in.Common().Value.Type(), in.Common().Method) {
					if c.fills(g) == 0 && !x.failed(in.Common().Signature(), e.Res) {
						out = append(out, product{bare(e.Args[0]), i})
						break
					}
				}
			}
			continue
		}
		if !c.ps.looks(e.Fn) || !c.ps.cut(e.Fn) || x.failed(e.Fn.Signature, e.Res) {
			continue
		}
		if k := c.fills(e.Fn); k >= 0 && k < len(e.Args) {
			out = append(out, product{bare(e.Args[k]), i})
			continue
		}
		for _, k := range c.yields(e.Fn) {
			v := e.Res
			if e.Fn.Signature.Results().Len() > 1 {
				v = x.extract(e.Res, k, e.Fn.Signature.Results().At(k).Type())
			}
			out = append(out, product{bare(v), i})
		}
	}
	return out
}

// failed: a call is known to have reported an error.
func (x *Exec) failed(sig *types.Signature, res *Term) bool {
	rs := sig.Results()
	for i := 0; i < rs.Len(); i++ {
		if !isErrorType(rs.At(i).Type()) || res == nil {
			continue
		}
		e := res
		if rs.Len() > 1 {
			e = x.extract(res, i, rs.At(i).Type())
		}
		return x.knownNil(e) == 0
	}
	return false
}

// item is one value put into a container.
type item struct{ key, v *Term }

// chain takes a container apart into what was put last and what it was before.
func (x *Exec) chain(t *Term) (base *Term, items []item) {
	base = bare(t)
	for n := 0; n < 64; n++ {
		switch {
		case base.op == OAppend && len(base.args) == 2:
			els, ok := x.sliceElems(base.args[1])
			if !ok {
				return base, items
			}
			for i := len(els) - 1; i >= 0; i-- {
				items = append(items, item{v: bare(els[i])})
			}
			base = bare(base.args[0])
		case base.op == OCall && hasBase(base.aux, "sortedmap.Add") && len(base.args) == 3:
			items = append(items, item{key: base.args[1], v: bare(base.args[2])})
			base = bare(base.args[0])
		default:
			for i, j := 0, len(items)-1; i < j; i, j = i+1, j-1 {
				items[i], items[j] = items[j], items[i]
			}
			return base, items
		}
	}
	return base, items
}

// empty: a container nothing was put into.
func (x *Exec) emptyContents(t *Term) bool {
	if x.knownNil(t) == 1 || t.op == ONil || t.op == OZero {
		return true
	}
	if t.op == OCall && strings.Contains(t.aux, "sortedmap.NewSortedMap") && (len(t.args) == 0 || isInt(t.args[0].typ)) {
		return true
	}
	return x.Entails(x.Lin(x.LenOf(t)).neg())
}

// readText: text taken from the input as it stands.
func (c *c33) readText(t *Term) bool {
	switch t.op {
	case OExtract:
		call := t.args[0]
		return call.op == OCall && call.fn != nil && c.ps.looks(call.fn)
	case OCall:
		return t.fn != nil && c.ps.looks(t.fn)
	case OConv:
		return t.args[0].op == OSlice && isText(t.args[0].typ)
	case OSlice:
		return isText(t.typ) && t.args[0].op == OParam
	}
	return false
}

// isID: the path knows that the text is a key of node ids.
func (c *c33) isID(evs []*Event) bool {
	lits, vals := literals(evs)
	for i, l := range lits {
		if l.op != OBin || l.aux != "==" && l.aux != "!=" || vals[i] != (l.aux == "==") {
			continue
		}
		for j, a := range l.args {
			if a.op == OConst && a.k != nil && a.k.Kind() == constant.String && c.ids[constant.StringVal(a.k)] && c.readText(l.args[1-j]) {
				return true
			}
		}
	}
	return false
}

// same compares what was put with what was read; "" when it is the same.
func (c *c33) same(x *Exec, items []item, prods []product, evs []*Event) (string, string) {
	var want []product
	for i, p := range prods {
		to := len(evs)
		if i+1 < len(prods) {
			to = prods[i+1].at
		}
		from := 0
		if i > 0 {
			from = prods[i-1].at + 1
		}
		skip := false
		if c.isID(evs[from:to]) {
			skip = true
			for _, it := range items {
				skip = skip && it.v != p.v
			}
		}
		if !skip {
			want = append(want, p)
		}
	}
	key := ""
	for i := 0; i < len(items) || i < len(want); i++ {
		switch {
		case i >= len(items):
			return fmt.Sprintf("a value read (%s) is not put into the container", want[i].v), ""
		case i >= len(want):
			return fmt.Sprintf("%s is put into the container, which was not read", items[i].v), ""
		case items[i].v != want[i].v:
			return fmt.Sprintf("%s stands where the value read (%s) belongs", items[i].v, want[i].v), ""
		case items[i].key != nil && !c.readText(items[i].key):
			key = fmt.Sprintf("the value stands under %s, which is not the text read as its key", items[i].key)
		}
	}
	return "", key
}

func (c *c33) judge(fn *ssa.Function) {
	p := NewPathRun(c.w)
	p.Inline = func(x *Exec, ca *Call) bool { return c.ps.inline(x, ca) }
	name := fnName(fn)
	p.Back = func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) {
		at := a.header.Instrs[len(a.header.Instrs)-1]
		turn := x.eventsAfter(a.header)
		prods := c.products(x, turn)
		built := 0
		put := func(val *Term, isBase func(b *Term) bool) {
			base, items := x.chain(val)
			if len(items) == 0 && isBase(base) {
				if len(prods) == 0 {
					return
				}
				if why, _ := c.same(x, nil, prods, turn); why == "" {
					built++ // only the id was read
				}
				return
			}
			built++
			why, key := c.same(x, items, prods, turn)
			if why == "" && !isBase(base) {
				why = fmt.Sprintf("the container is replaced by %s", base)
			}
			c.need(fr, at, "kept in order", "container of "+name, why == "", "%s", why)
			for _, it := range items {
				if it.key != nil {
					c.need(fr, at, "under its key", "entries of "+name, key == "", "%s", key)
					break
				}
			}
		}
		for ph, cur := range a.cur {
			if c.isContents(ph.Type()) && next[ph] != nil {
				put(next[ph], func(b *Term) bool { return b == cur })
			}
		}
		stores := map[*Term]*Term{}
		var order []*Term
		for _, e := range turn {
			if e.Kind == "store" && e.Args[0].typ != nil && c.isContents(deref(e.Args[0].typ)) && x.older(addrRoot(e.Args[0]), a) {
				if stores[e.Args[0]] == nil {
					order = append(order, e.Args[0])
				}
				stores[e.Args[0]] = e.Args[1]
			}
		}
		for _, ad := range order {
			put(stores[ad], func(b *Term) bool { return b.op == OLoad && b.args[0] == ad })
		}
		if len(prods) > 0 {
			c.need(fr, at, "kept in order", "values read in a loop of "+name, built > 0, "on a turn (%s) a value read is not put into any container", turnConds(turn))
		}
	}
	p.Event = func(x *Exec, e *Event) {
		if e.Kind == "store" && e.Args[0].op == OIndexAddr && !isVarargs(e.Instr) && e.Args[0].args[0].typ != nil && c.isContents(e.Args[0].args[0].typ) {
			c.need(e.Fr, e.Instr, "kept in order", "element of "+name, false, "an element of a container that was read is replaced")
		}
	}
	p.Ret = func(x *Exec, args, res []*Term) {
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if isErrorType(rs.At(i).Type()) && x.knownNil(res[i]) == 0 {
				return
			}
		}
		in := retInstr(fn)
		var got []*Term
		for _, k := range c.yields(fn) {
			got = append(got, bare(res[k]))
		}
		into := (*Term)(nil)
		if k := c.fills(fn); k >= 0 {
			into = bare(args[k])
			got = append(got, into)
		}
		// the contents of a node made or filled here
		for _, g := range got {
			if st := structOf(g.typ); g.typ != nil && c.w.isNodePtr(g.typ) && st != nil {
				for i := 0; i < st.NumFields(); i++ {
					if c.isContents(st.Field(i).Type()) {
						got = append(got, bare(x.Load(x.ts.Mk(OFieldAddr, types.NewPointer(st.Field(i).Type()), "", i, g))))
					}
				}
			}
		}
		prods := c.products(x, x.Events)
		why, key := "", ""
		for _, g := range got {
			why, key = c.end(x, g, prods, g == into)
			if why == "" {
				break
			}
		}
		if len(got) == 0 {
			return
		}
		c.need(nil, in, "returned", "what "+name+" read", why == "", "on a path (%s) %s", turnConds(x.Events), why)
		if key != "" {
			c.need(nil, in, "under its key", "entries of "+name, false, "%s", key)
		}
	}
	if !p.Run(fn) {
		c.r.Bad("undecided", name, "paths", "-", "too many paths to decide")
	}
	c.r.Visit(name)
	c.paths += p.paths
}

// end judges a value returned: what was read on the path and nothing else.
func (c *c33) end(x *Exec, g *Term, prods []product, recv bool) (string, string) {
	if g.typ == nil || !c.isContents(g.typ) {
		inLoop := false
		for _, e := range x.Events {
			inLoop = inLoop || e.Kind == "loop" && c.collects(e.Data.(*loopAct))
		}
		switch {
		case len(prods) == 0 && !inLoop && !recv:
			return "", "" // made from text
		case len(prods) == 1 && prods[0].v == g && !inLoop:
			return "", ""
		case len(prods) > 0:
			return fmt.Sprintf("%s is returned instead of the value read (%s)", g, prods[len(prods)-1].v), ""
		}
		return "nothing that was read is returned", ""
	}
	base, items := x.chain(g)
	// what a loop built
	for i := len(x.Events) - 1; i >= 0; i-- {
		e := x.Events[i]
		if e.Kind != "loop" {
			continue
		}
		a := e.Data.(*loopAct)
		for ph, cur := range a.cur {
			if cur != base {
				continue
			}
			why, key := c.same(x, items, c.products(x, x.Events[i:]), x.Events[i:])
			if why != "" {
				return why, ""
			}
			b, before := x.chain(a.entry[ph])
			if !x.emptyContents(b) {
				return fmt.Sprintf("the container begins as %s", b), ""
			}
			if why, _ := c.same(x, before, c.products(x, x.Events[:i]), x.Events[:i]); why != "" {
				return why, ""
			}
			return "", key
		}
		if base.op == OLoad && len(a.mods.keys)+len(a.mods.allocs) > 0 && c.changes(x, a, base.args[0]) {
			why, key := c.same(x, items, c.products(x, x.Events[i:]), x.Events[i:])
			return why, key
		}
	}
	if len(prods) == 1 && base == prods[0].v && len(items) == 0 {
		return "", ""
	}
	if x.emptyContents(base) {
		return c.same(x, items, prods, x.Events)
	}
	if len(prods) == 0 {
		return fmt.Sprintf("%s is returned, which was not read", base), ""
	}
	return fmt.Sprintf("%s is returned instead of what was read (%s)", base, prods[len(prods)-1].v), ""
}

// collects: the loop builds a container.
func (c *c33) collects(a *loopAct) bool {
	for ph := range a.cur {
		if c.isContents(ph.Type()) {
			return true
		}
	}
	return false
}

// changes: the loop may write the memory.
func (c *c33) changes(x *Exec, a *loopAct, addr *Term) bool {
	if r := addrRoot(addr); r.op == OAlloc && len(a.mods.allocs[r.val]) > 0 {
		return true
	}
	return a.mods.keys[x.keyOf(addr)]
}

func turnConds(evs []*Event) string { return (&c17cur{}).turnText(evs) }
