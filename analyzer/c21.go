package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C21"] = check{explainC21, runC21} }

const explainC21 = "Every loop of the package is interpreted with inferred invariants; an integer or length measure must advance towards a fixed bound on every path that repeats it, or the loop is a range or an iterator asked for more. The loops without such a measure are interpreted again along all paths and must repeat only after one of: an entry was removed from a dict that gets none in the loop; a key of a finite map was put into a set it was not in; a node answered a key made from a counter that grows; a pointer was followed, a flag that restarts the walk falling at most once. Recursion along aliases read from field tags must put the alias into a set it was not in and hand the set on. What calls in a loop may write is taken from the ownership analysis."

func runC21(w *World, r *Rep) {
	var roots []*ssa.Function
	for _, f := range w.Funcs {
		if len(findLoops(f)) > 0 {
			roots = append(roots, f)
		}
	}
	w.ownKeys = ownKeys(w)
	h := NewHoudini(w, roots)
	h.Infer()
	rk := newRanker(h)
	h.Back = rk.back
	h.Check()
	for _, f := range h.fallout {
		r.Bad("undecided", f, "paths", "-", "too many paths to decide")
	}
	c := &c21{w: w, r: r}
	n := 0
	for _, fn := range roots {
		var open []*ssa.BasicBlock
		r.Visit(fnName(fn))
		for hd := range findLoops(fn) {
			n++
			k := loopKey{fn, hd}
			ms := rk.loops[k]
			switch {
			case rk.seen[k] == 0:
				r.OK("loop never repeats")
			case ms == nil:
				r.OK("loop ends by its own test")
			case len(ms) > 0:
				r.OK("measured loop")
				var l []string
				for m := range ms {
					l = append(l, m)
				}
				sort.Strings(l)
				r.Sample("measured loop", "%s at %s: %s", fnName(fn), w.InstrPos(hd.Instrs[0]), strings.Join(l, ", "))
			default:
				open = append(open, hd)
			}
		}
		if len(open) > 0 {
			sort.Slice(open, func(i, j int) bool { return open[i].Index < open[j].Index })
			c.loops(fn, open)
		}
	}
	c.aliases()
	r.Notes = append(r.Notes, fmt.Sprintf("%d loops in %d functions", n, len(roots)))
	r.Assume = append(r.Assume, "library functions return", "a chain of pointers in a value to be decoded does not lead back into itself, other than an interface that points to itself",
		"fmt and strconv print different integers differently", "lengths stay below 2^36")
	r.AtLeast("measured loop", 10)
}

// ownKeys is what each function may write in memory that existed before.
func ownKeys(w *World) map[*ssa.Function]map[string]bool {
	var roots []*ssa.Function
	for _, f := range w.MainFuncs() {
		if f.Blocks != nil && f.Parent() == nil {
			roots = append(roots, f)
		}
	}
	out := map[*ssa.Function]map[string]bool{}
	for f, s := range NewOwn(w, roots).fns {
		out[f] = s.keysOf()
	}
	return out
}

type c21 struct {
	w *World
	r *Rep
}

// turnMeasures are the reasons why one turn brings the end nearer.
type turnMeasures struct {
	why map[string]bool
	// flags that fall on this turn, and those that do not rise
	falls, keeps map[*ssa.Phi]bool
}

func (c *c21) loops(fn *ssa.Function, open []*ssa.BasicBlock) {
	want := map[*ssa.BasicBlock]bool{}
	for _, h := range open {
		want[h] = true
	}
	turns := map[*ssa.BasicBlock][]*turnMeasures{}
	p := NewPathRun(c.w)
	p.Inline = func(x *Exec, k *Call) bool {
		return c.w.IsMain(k.Fn) && len(findLoops(k.Fn)) == 0 && !isAccessorFn(c.w, k.Fn)
	}
	rk := newRanker(nil)
	p.Back = func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) {
		if fr.fn == fn && want[a.header] && !rk.exits(x, fr, a, next) {
			turns[a.header] = append(turns[a.header], c.turn(x, fr, a, next))
		}
	}
	if !p.Run(fn) {
		c.r.Bad("undecided", fnName(fn), "paths", "-", "too many paths to decide")
		return
	}
	for _, h := range open {
		pos := c.w.InstrPos(h.Instrs[0])
		why := settle21(turns[h])
		if why == "" {
			c.r.Bad("loop", fnName(fn), loopName(h), pos, "nothing brings this loop nearer to its end on every turn: it may not terminate")
			continue
		}
		c.r.OK("loop with another measure")
		c.r.Sample("loop with another measure", "%s at %s: %s", fnName(fn), pos, why)
	}
}

// settle21 finds a measure that works on every turn.
func settle21(ts []*turnMeasures) string {
	if len(ts) == 0 {
		return "never repeats"
	}
	all := func(ok func(t *turnMeasures) bool) bool {
		for _, t := range ts {
			if !ok(t) {
				return false
			}
		}
		return true
	}
	names := map[string]bool{}
	flags := map[*ssa.Phi]bool{}
	for _, t := range ts {
		for m := range t.why {
			names[m] = true
		}
		for f := range t.falls {
			flags[f] = true
		}
	}
	sorted := make([]string, 0, len(names))
	for m := range names {
		sorted = append(sorted, m)
	}
	sort.Strings(sorted)
	for _, m := range sorted {
		if all(func(t *turnMeasures) bool { return t.why[m] }) {
			return m
		}
		for f := range flags {
			if all(func(t *turnMeasures) bool { return t.falls[f] || t.why[m] && t.keeps[f] }) {
				return m + ", restarted at most once (" + f.Comment + ")"
			}
		}
	}
	return ""
}

func (c *c21) turn(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) *turnMeasures {
	t := &turnMeasures{why: map[string]bool{}, falls: map[*ssa.Phi]bool{}, keeps: map[*ssa.Phi]bool{}}
	evs := x.eventsAfter(a.header)
	if hasNext(a.header) {
		t.why["each turn takes one entry of a range"] = true
	}
	c.counted(x, a, next, t)
	c.removed(x, a, next, evs, t)
	c.visited(x, fr, a, evs, t)
	c.answered(x, a, next, evs, t)
	c.followed(x, a, next, t)
	return t
}

// counted: an index grows and is known to stay below a number or the length of
// something that stays as it is.
func (c *c21) counted(x *Exec, a *loopAct, next map[*ssa.Phi]*Term, t *turnMeasures) {
	for ph, cur := range a.cur {
		n := next[ph]
		if n == nil || !isInt(ph.Type()) || !x.Entails(x.Lin(n).sub(x.Lin(cur)).plus(-1)) {
			continue
		}
		if x.Entails(x.Lin(cur).neg().plus(1 << 20)) {
			t.why["counting up to a number ("+ph.Comment+")"] = true
		}
		for _, l := range x.lenTerms() {
			if c.fixed(x, a, l) && x.Entails(linVar(l).sub(x.Lin(cur))) {
				t.why["counting up to a length ("+ph.Comment+")"] = true
			}
		}
	}
}

// fixed: the term is the same on every turn.
func (c *c21) fixed(x *Exec, a *loopAct, t *Term) bool {
	return (&ranker{}).invariant(x, a, t)
}

// removed: the turn took an entry out of a sorted map and put the rest back.
func (c *c21) removed(x *Exec, a *loopAct, next map[*ssa.Phi]*Term, evs []*Event, t *turnMeasures) {
	for _, e := range evs {
		if e.Kind != "call" || e.Res == nil || !strings.Contains(e.Name, "sortedmap.Delete") || e.Fn == nil {
			continue
		}
		rs := e.Fn.Signature.Results()
		n := rs.Len()
		if n < 2 || !isBoolType(rs.At(n-1).Type()) {
			continue
		}
		done := x.extract(e.Res, n-1, rs.At(n-1).Type())
		if v, k := x.Eval(done); k && !v || !k && !decides(a, next, done) {
			continue
		}
		rest := x.extract(e.Res, 0, rs.At(0).Type())
		for ph, cur := range a.cur {
			if next[ph] == rest && e.Args[0] == cur {
				t.why["an entry was removed from "+ph.Comment] = true
			}
		}
		from := e.Args[0]
		if from.op != OLoad {
			continue
		}
		stores, back := 0, false
		for _, s := range evs {
			switch {
			case s.Kind == "store" && s.Args[0] == from.args[0]:
				stores++
				back = s.Args[1] == rest
			case s.Kind == "call" && s.Fn != nil && c.w.IsMain(s.Fn) && x.ModOf(s.Fn).keys[placeKey(from.args[0])]:
				stores = 2
			}
		}
		if stores == 1 && back {
			t.why["an entry was removed from "+shape(from)] = true
		}
	}
}

// decides: the loop goes on only if the condition holds.
func decides(a *loopAct, next map[*ssa.Phi]*Term, cond *Term) bool {
	ifi, ok := a.header.Instrs[len(a.header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	ph, ok := ifi.Cond.(*ssa.Phi)
	return ok && next[ph] == cond && !findLoops(a.header.Parent())[a.header][a.header.Succs[1]]
}

func placeKey(addr *Term) string {
	switch addr.op {
	case OFieldAddr:
		return fieldKey(addr.args[0].typ, addr.num)
	case OIndexAddr:
		return "E:" + typeKey(deref(addr.typ))
	case OGlobal:
		return "G:" + addr.aux
	}
	return "D:" + typeKey(deref(addr.typ))
}

// visited: a key of a finite map was put into a set that did not hold it.
func (c *c21) visited(x *Exec, fr *Frame, a *loopAct, evs []*Event, t *turnMeasures) {
	for i, e := range evs {
		if e.Kind != "mapset" || !c.fixed(x, a, e.Args[0]) || !newKey(x, evs[:i], e.Args[0], e.Args[1]) || !onlyGrows(fr.fn, e) {
			continue
		}
		for _, l := range evs {
			if l.Kind == "lookup" && l.Args[0] != e.Args[0] && l.Args[1] == e.Args[1] && present(x, l) && c.fixed(x, a, l.Args[0]) && !a.mods.keys["M:"+typeKey(l.Args[0].typ)] {
				t.why["a key of "+shape(l.Args[0])+" was put into "+shape(e.Args[0])] = true
			}
		}
	}
}

// newKey: the map was seen not to hold the key, and got none since.
func newKey(x *Exec, evs []*Event, m, k *Term) bool {
	new := false
	for _, e := range evs {
		switch {
		case e.Kind == "lookup" && e.Args[0] == m && e.Args[1] == k:
			ep, _ := e.Data.(int)
			if v, ok := x.Eval(x.ts.Mk(OHas, types.Typ[types.Bool], "", ep, m, k)); ok && !v {
				new = true
			}
			if v, ok := x.Eval(e.Args[2]); ok && !v && isBoolType(e.Args[2].typ) {
				new = true
			}
		case e.Kind == "mapset" && e.Args[0] == m:
			new = false
		}
	}
	return new
}

func present(x *Exec, l *Event) bool {
	ep, _ := l.Data.(int)
	v, ok := x.Eval(x.ts.Mk(OHas, types.Typ[types.Bool], "", ep, l.Args[0], l.Args[1]))
	return ok && v
}

// onlyGrows: what is put into a set stays there and counts as being there.
func onlyGrows(fn *ssa.Function, e *Event) bool {
	if isBoolType(e.Args[2].typ) {
		if v, ok := e.Args[2].BoolVal(); !ok || !v {
			return false
		}
	}
	ty := e.Args[0].typ
	for _, b := range e.Instr.Parent().Blocks {
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.MapUpdate:
				if k, ok := t.Value.(*ssa.Const); types.Identical(t.Map.Type(), ty) && isBoolType(t.Value.Type()) && (!ok || k.Value == nil || k.Value.ExactString() != "true") {
					return false
				}
			case *ssa.Call:
				if b, ok := t.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") && types.Identical(t.Call.Args[0].Type(), ty) {
					return false
				}
			}
		}
	}
	return true
}

// answered: a node that stays as it is answered a key made from a counter.
func (c *c21) answered(x *Exec, a *loopAct, next map[*ssa.Phi]*Term, evs []*Event, t *turnMeasures) {
	if c.writesNodes(a) {
		return
	}
	for _, e := range evs {
		if e.Kind != "call" || e.Res == nil || len(e.Args) < 2 || !c.w.isNodeIface(e.Args[0].typ) && !c.w.isNodePtr(e.Args[0].typ) || !c.fixed(x, a, e.Args[0]) {
			continue
		}
		ci, ok := e.Instr.(ssa.CallInstruction)
		if !ok || !found(x, ci, e) {
			continue
		}
		for ph, cur := range a.cur {
			n := next[ph]
			if n == nil {
				continue
			}
			if _, sl := ph.Type().Underlying().(*types.Slice); sl {
				cur, n = x.LenOf(cur), x.LenOf(n)
			}
			if !isInt(cur.typ) || !x.Entails(x.Lin(n).sub(x.Lin(cur)).plus(-1)) {
				continue
			}
			keys, ok := x.sliceElems(e.Args[len(e.Args)-1])
			if !ok && e.Args[len(e.Args)-1].op == OVar {
				keys, ok = e.Args[len(e.Args)-1].args, true
			}
			for _, k := range keys {
				if ok && c.injective(x, a, k, cur) {
					t.why["a node answered a new key ("+ph.Comment+")"] = true
				}
			}
		}
	}
}

// writesNodes: the loop may change nodes or sorted maps.
func (c *c21) writesNodes(a *loopAct) bool {
	if a.mods.all {
		return true
	}
	for k := range a.mods.keys {
		for _, n := range c.w.NodeTypes() {
			if strings.HasPrefix(k, "F:"+typeKey(c.w.NamedType(n))+".") {
				return true
			}
		}
		if strings.Contains(k, "sortedmap.") {
			return true
		}
	}
	return false
}

// found: the call is known to have answered something.
func found(x *Exec, ci ssa.CallInstruction, e *Event) bool {
	rs := ci.Common().Signature().Results()
	if rs.Len() != 2 {
		return false
	}
	if isErrorType(rs.At(1).Type()) && x.knownNil(x.extract(e.Res, 1, rs.At(1).Type())) == 1 {
		return true
	}
	return isNilable(rs.At(0).Type()) && x.knownNil(x.extract(e.Res, 0, rs.At(0).Type())) == 0
}

// injective: different values of the counter make different texts.
func (c *c21) injective(x *Exec, a *loopAct, k, cur *Term) bool {
	k = x.rep1(k)
	if !k.contains(cur) {
		return false
	}
	switch k.op {
	case OBin:
		if k.aux != "+" {
			return false
		}
		l, r := k.args[0], k.args[1]
		return c.injective(x, a, l, cur) && c.fixed(x, a, r) || c.injective(x, a, r, cur) && c.fixed(x, a, l)
	case OCall:
		switch k.aux {
		case "strconv.Itoa", "strconv.FormatInt":
			return x.sameUpToConst(k.args[0], cur) && (len(k.args) == 1 || k.args[1].k != nil)
		case "fmt.Sprintf", "fmt.Sprint":
			var els []*Term
			rest := k.args
			format := ""
			if k.aux == "fmt.Sprintf" {
				f, ok := k.args[0].StrVal()
				if !ok {
					return false
				}
				format, rest = f, k.args[1:]
			}
			for _, v := range rest {
				if es, ok := x.sliceElems(v); ok {
					els = append(els, es...)
				} else if v.op == OVar {
					els = append(els, v.args...)
				} else {
					els = append(els, v)
				}
			}
			verbs := printVerbs(format)
			hit := false
			for i, v := range els {
				for v.op == OIface {
					v = v.args[0]
				}
				if !v.contains(cur) {
					if !c.fixed(x, a, v) {
						return false
					}
					continue
				}
				if hit || !x.sameUpToConst(v, cur) || k.aux == "fmt.Sprintf" && (len(verbs) != len(els) || !strings.Contains("dvxo", verbs[i])) {
					return false
				}
				hit = true
			}
			return hit
		}
	}
	return false
}

// sameUpToConst: the term is the counter, plus a constant at most.
func (x *Exec) sameUpToConst(t, cur *Term) bool {
	for t.op == OConv && isInt(t.typ) {
		t = t.args[0]
	}
	return len(x.Lin(t).sub(x.Lin(cur)).v) == 0
}

// printVerbs are the verbs of a format, without those that print no argument.
func printVerbs(f string) (out []string) {
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.ContainsRune("+-# 0123456789.", rune(f[i])) {
			i++
		}
		if i < len(f) && f[i] != '%' {
			out = append(out, f[i:i+1])
		}
	}
	return
}

// followed: a pointer was followed, and which flags fell.
func (c *c21) followed(x *Exec, a *loopAct, next map[*ssa.Phi]*Term, t *turnMeasures) {
	for ph, cur := range a.cur {
		n := next[ph]
		if n == nil {
			continue
		}
		if isReflectValue(ph.Type()) {
			s, steps := x.rep1(n), 0
			for isRefVal(s, "rv.Elem") && s != cur {
				s = s.args[0]
				steps++
			}
			if s == cur && steps > 0 {
				t.why["a pointer was followed ("+ph.Comment+")"] = true
			}
		}
		if isBoolType(ph.Type()) {
			was, k1 := x.Eval(cur)
			is, k2 := x.Eval(n)
			if k1 && k2 && was && !is {
				t.falls[ph] = true
			}
			if n == cur || k2 && !is {
				t.keeps[ph] = true
			}
		}
	}
}

// aliases judges recursion along keys read from the tags of fields.
func (c *c21) aliases() {
	o := newObls(c.w, c.r)
	for _, f := range c.w.MainFuncs() {
		if f.Blocks == nil || f.Parent() != nil {
			continue
		}
		self := false
		for g := range staticReach(c.w, f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
						self = true
					}
				}
			}
		}
		text := -1
		for i, p := range f.Params {
			if isStringType(p.Type()) {
				text = i
			}
		}
		if !self || text < 0 {
			continue
		}
		c.alias(o, f)
	}
	o.finish()
}

// staticReach are the functions of the package called from one.
func staticReach(w *World, f *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{f: true}
	work := []*ssa.Function{f}
	for len(work) > 0 {
		g := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if h := ci.Common().StaticCallee(); h != nil && w.IsMain(h) && h.Blocks != nil && !seen[h] {
						seen[h] = true
						work = append(work, h)
					}
				}
			}
		}
	}
	return seen
}

func (c *c21) alias(o *Obls, f *ssa.Function) {
	p := NewPathRun(c.w)
	p.Inline = func(x *Exec, k *Call) bool { return k.Fn != f }
	var root []*Term
	p.Begin = func(x *Exec, args []*Term) bool { root = args; return true }
	judge := func(x *Exec) {
		for i, e := range x.Events {
			if e.Kind != "call" || e.Fn != f {
				continue
			}
			for j, q := range f.Params {
				if !isStringType(q.Type()) || j >= len(e.Args) {
					continue
				}
				maps := tagLookups(e.Args[j])
				if len(maps) == 0 {
					continue
				}
				o.need(nil, e.Instr, "alias chain", "recursion along "+q.Name(), c.marked(x, x.Events[:i], root, e, j), "the recursion follows an alias without having put the key it came from into a set that did not hold it, which it hands on: aliases that form a cycle are followed forever")
				given := true
				for _, m := range maps {
					given = given && handedOn(m, root, e)
				}
				o.need(nil, e.Instr, "aliases finite", "recursion along "+q.Name(), given, "the aliases are read from something the recursion does not hand on unchanged")
			}
		}
	}
	p.Back = func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) { judge(x) }
	p.Ret = func(x *Exec, args, res []*Term) { judge(x) }
	if !p.Run(f) {
		c.r.Bad("undecided", fnName(f), "paths", "-", "too many paths to decide")
	}
}

// tagLookups are the maps a text was looked up in.
func tagLookups(t *Term) (out []*Term) {
	subterms([]*Term{t}, func(s *Term) {
		if s.op == OLookup && isMap(s.args[0].typ) {
			out = append(out, s.args[0])
		}
	})
	return
}

// handedOn: the map belongs to an argument that is passed on as it is.
func handedOn(m *Term, root []*Term, e *Event) bool {
	for i, r := range root {
		if m.contains(r) && i < len(e.Args) && e.Args[i] == r {
			return true
		}
	}
	return false
}

// marked: the own key was new to a set, was put into it, and the set goes on.
func (c *c21) marked(x *Exec, evs []*Event, root []*Term, call *Event, j int) bool {
	for i, e := range evs {
		if e.Kind != "mapset" || e.Args[1] != root[j] || !onlyGrows(e.Instr.Parent(), e) {
			continue
		}
		for k, a := range call.Args {
			if a == e.Args[0] && k < len(root) {
				// without a set this is the first call
				if x.knownNil(root[k]) == 1 || a == root[k] && newKey(x, evs[:i], a, e.Args[1]) {
					return true
				}
			}
		}
	}
	return false
}
