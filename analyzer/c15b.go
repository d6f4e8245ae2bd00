package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// c15d judges decoding.
type c15d struct {
	*c15
	gateName map[string]bool        // methods of the node interface that fill a value
	gates    map[*ssa.Function]bool // their implementations
	judged   map[*ssa.Function]bool // gates that must look for a decoder
	finders  map[*ssa.Function]bool // yield the decoder of a value
	hooks    map[*ssa.Function]bool // call AfterUnmarshal
	active   map[*ssa.Function]bool // reach a setter, a gate, a finder or a hook
	cyclic   map[*ssa.Function]bool // recursive without a gate
	fills    map[*ssa.Function]bool // reach a gate
	dirty    map[*ssa.Function]int  // opaque: fills its own value parameter
}

var rsetContent = map[string]bool{"Set": true, "SetInt": true, "SetUint": true, "SetFloat": true, "SetBool": true, "SetString": true, "SetBytes": true, "SetComplex": true, "SetPointer": true, "SetMapIndex": true}

func (c *c15) decodeSide() {
	d := &c15d{c15: c, gateName: map[string]bool{}, gates: map[*ssa.Function]bool{}, judged: map[*ssa.Function]bool{}, finders: map[*ssa.Function]bool{},
		hooks: map[*ssa.Function]bool{}, active: map[*ssa.Function]bool{}, cyclic: map[*ssa.Function]bool{}, dirty: map[*ssa.Function]int{}, fills: map[*ssa.Function]bool{}}
	w := c.w
	it := w.NodeIface()
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		sig := m.Type().(*types.Signature)
		for j := 0; j < sig.Params().Len(); j++ {
			if isReflectValue(sig.Params().At(j).Type()) && sig.Results().Len() == 1 && isErrorType(sig.Results().At(0).Type()) {
				d.gateName[m.Name()] = true
			}
		}
	}
	for _, n := range w.NodeTypes() {
		for m := range d.gateName {
			f, own := w.Method(n, m)
			if f == nil || f.Blocks == nil {
				continue
			}
			d.gates[f] = true
			st := structOf(w.NamedType(n))
			if st != nil && st.NumFields() > 0 && refNodeField(w, w.NamedType(n)) < 0 && own {
				d.judged[f] = true
			}
		}
	}
	if len(d.judged) == 0 {
		c.r.Bad("anchor", "-", "unmarshalValue", "-", "the node interface has no method that fills a reflect.Value")
		return
	}
	d.classify()
	for _, f := range d.sorted(d.finders) {
		d.finder(f)
	}
	for _, f := range d.sorted(d.hooks) {
		d.hook(f)
	}
	roots := d.roots()
	if dbg15 {
		for _, f := range roots {
			println(fnName(f), d.cyclic[f], d.judged[f])
		}
	}
	for n := -1; n != len(d.dirty); {
		n = len(d.dirty)
		for _, f := range d.sorted(d.cyclic) {
			if _, ok := d.dirty[f]; !ok && !d.finders[f] && !d.hooks[f] && d.active[f] {
				d.decode(f, nil)
			}
		}
	}
	for _, f := range roots {
		d.decode(f, c.Obls)
	}
}

func (d *c15d) sorted(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

func (d *c15d) classify() {
	w := d.w
	fns := w.MainFuncs()
	reach := func(f *ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			for h := range w.callees(g) {
				if !seen[h] && !d.gates[h] {
					seen[h] = true
					walk(h)
				}
			}
		}
		walk(f)
		return seen
	}
	local, toGate := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range fns {
		if rs := f.Signature.Results(); rs.Len() > 0 && types.Identical(types.Unalias(rs.At(0).Type()), d.unmarshaler) {
			d.finders[f] = true
			local[f] = true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cm := ci.Common()
				if cm.IsInvoke() && d.gateName[cm.Method.Name()] {
					local[f], toGate[f] = true, true
				}
				sc := cm.StaticCallee()
				if sc == nil {
					continue
				}
				if d.gates[sc] {
					local[f], toGate[f] = true, true
				}
				if strings.HasSuffix(sc.Name(), "FetchStructFieldValueSet") || isReflectOp(sc) && rsetContent[sc.Name()] && sc.Signature.Recv() != nil {
					local[f] = true
				}
				if isReflectOp(sc) && sc.Name() == "MethodByName" && len(cm.Args) == 2 {
					if k, ok := cm.Args[1].(*ssa.Const); ok && k.Value != nil && strings.Contains(k.Value.ExactString(), "AfterUnmarshal") {
						d.hooks[f] = true
						local[f] = true
					}
				}
			}
		}
	}
	for _, f := range fns {
		r := reach(f)
		d.cyclic[f] = r[f]
		d.fills[f] = toGate[f]
		for g := range r {
			d.fills[f] = d.fills[f] || toGate[g]
		}
	}
	d.liftHooks(fns)
	for _, f := range fns {
		r := reach(f)
		if local[f] {
			d.active[f] = true
		}
		for g := range r {
			if local[g] {
				d.active[f] = true
			}
		}
	}
}

// liftHooks: where the method is called by a helper, the search is what the
// helper's callers on a cycle do.
func (d *c15d) liftHooks(fns []*ssa.Function) {
	for range 4 {
		for _, f := range d.sorted(d.hooks) {
			if d.cyclic[f] {
				continue
			}
			var up []*ssa.Function
			for _, g := range fns {
				if staticCallees(d.w, g)[f] && (d.ownCycle(g) || d.underCycle(g)) && !d.fills[g] {
					up = append(up, g)
				}
			}
			if len(up) > 0 {
				delete(d.hooks, f)
				for _, g := range up {
					d.hooks[g] = true
				}
			}
		}
	}
}

// ownCycle: the function calls itself, by static calls alone.
func (d *c15d) ownCycle(f *ssa.Function) bool {
	for g := range staticCallees(d.w, f) {
		if g == f || staticReach(d.w, g)[f] {
			return true
		}
	}
	return false
}

// underCycle: a caller of the function calls itself.
func (d *c15d) underCycle(f *ssa.Function) bool {
	for _, g := range d.w.Funcs {
		if staticCallees(d.w, g)[f] && !d.gates[g] && d.ownCycle(g) {
			return true
		}
	}
	return false
}

// roots: the gates, recursive functions and what is not followed from those.
func (d *c15d) roots() []*ssa.Function {
	out, seen := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for g := range staticCallees(d.w, f) {
			if !seen[g] && d.inline(g) {
				seen[g] = true
				walk(g)
			}
		}
	}
	other := func(f *ssa.Function) bool {
		return f.Blocks == nil || d.finders[f] || d.hooks[f] || d.gates[f] || f.Parent() != nil
	}
	for f := range d.active {
		if d.judged[f] || d.cyclic[f] && !other(f) {
			out[f] = true
			walk(f)
		}
	}
	for f := range d.active {
		if !other(f) && !seen[f] {
			out[f] = true
		}
	}
	return d.sorted(out)
}

// staticCallees are the in-package functions called or made by name.
func staticCallees(w *World, f *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok {
					if g = unwrapPromoted(g); g.Blocks != nil && w.IsMain(g) {
						out[g] = true
					}
				}
			}
		}
	}
	return out
}

// noDecoder: the path knows that the value has no decoder of its own.
func (d *c15d) noDecoder(x *Exec, v *Term) bool { return x.knownNoMethod(v, d.unmarshaler) }

func (d *c15d) inline(f *ssa.Function) bool {
	if d.gates[f] || d.finders[f] || d.hooks[f] || d.cyclic[f] {
		return false
	}
	return d.active[f] || len(findLoops(f)) == 0 && !d.parsesText(f)
}

func (d *c15d) isGate(e *Event) bool {
	if e.Kind != "call" {
		return false
	}
	if e.Fn != nil {
		return d.gates[e.Fn]
	}
	i := strings.LastIndex(e.Name, ".")
	return i > 0 && d.gateName[e.Name[i+1:]] && strings.Contains(e.Name, "JSONObject")
}

// rvArg is the value among the arguments of a call.
func rvArg(e *Event) *Term {
	for _, a := range e.Args {
		if a != nil && a.typ != nil && isReflectValue(a.typ) {
			return a
		}
	}
	return nil
}

func (d *c15d) isNode(t types.Type) bool {
	if t == nil {
		return false
	}
	if d.w.isNodeIface(t) {
		return true
	}
	return (&c17{Obls: d.Obls}).nodeStruct(deref(t))
}

// content: made from a node.
func (d *c15d) content(t *Term) bool {
	if t == nil || isRefVal(t, "reflect.New") || isRefVal(t, "reflect.MakeSlice") || isRefVal(t, "reflect.MakeMap") || isRefVal(t, "reflect.MakeMapWithSize") || isRefVal(t, "reflect.Zero") {
		return false
	}
	if t.op == OCall && strings.HasPrefix(t.aux, "rv.") && len(t.args) > 0 {
		return d.content(t.args[0])
	}
	return t.any(func(s *Term) bool { return d.isNode(s.typ) })
}

// gated: the value was handed to a node to be filled.
func (d *c15d) gated(x *Exec, v *Term) bool {
	for _, e := range x.Events {
		if d.isGate(e) && rvArg(e) == v {
			return true
		}
	}
	return false
}

func (d *c15d) decode(fn *ssa.Function, out *Obls) {
	k := rvParam(fn)
	p := NewPathRun(d.w)
	p.Inline = func(x *Exec, ca *Call) bool { return ca.Fn != nil && d.inline(ca.Fn) }
	var args []*Term
	p.Begin = func(x *Exec, a []*Term) bool { args = a; return true }
	need := func(e *Event, rule, construct string, ok bool, format string, a ...any) {
		if out != nil && e.Instr != nil {
			out.need(e.Fr, e.Instr, rule, construct, ok, format, a...)
		}
	}
	gate := d.judged[fn]
	// fill: a value gets content
	fill := func(x *Exec, e *Event, v *Term, what string) {
		var u *Term
		if k >= 0 {
			u = args[k]
		}
		if v == u && !gate {
			d.dirty[fn] = k
			return
		}
		if v == u && gate {
			need(e, "decoder looked for", what, d.searched(x, u, args) || d.noDecoder(x, u), "the target is filled from the node without looking for an UnmarshalJSON method of its own")
			return
		}
		need(e, "elements through the decoder", what, d.noDecoder(x, v), "%s is filled from the node without looking for an UnmarshalJSON method of its own", v)
	}
	p.Event = func(x *Exec, e *Event) {
		switch e.Kind {
		case "rset":
			m := e.Name[strings.LastIndex(e.Name, ".")+1:]
			if !rsetContent[m] || len(e.Args) < 2 {
				return
			}
			last := e.Args[len(e.Args)-1]
			c := d.content(last)
			if m == "SetMapIndex" {
				if c && !d.gated(x, last) {
					fill(x, e, x.mkCall("rv.MapIndex", x.repEp, last.typ, e.Args[0], e.Args[1], x.typElem(x.TypeOfVal(e.Args[0]))), "map entry")
				}
				c = true
			}
			if c {
				fill(x, e, e.Args[0], m)
			}
		case "call":
			switch {
			case e.Fn != nil && d.isGate(e) && gate && k >= 0 && rvArg(e) == args[k]:
				// left to another node
			case e.Name == "reflect.Append" || e.Name == "reflect.AppendSlice":
				for _, a := range e.Args[1:] {
					if d.content(a) && !d.gated(x, a) {
						need(e, "elements through the decoder", e.Name, false, "an element made from the node is added without looking for an UnmarshalJSON method of its own")
					}
				}
			case e.Fn != nil:
				if i, ok := d.dirty[e.Fn]; ok && i < len(e.Args) {
					fill(x, e, e.Args[i], "call of "+e.Fn.Name())
				}
			}
		}
	}
	p.Back = func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) { d.order(x, nil, true, out) }
	p.Ret = func(x *Exec, args, res []*Term) {
		if out == nil {
			return
		}
		var err *Term
		if n := len(res); n > 0 && isErrorType(res[n-1].typ) {
			err = res[n-1]
		}
		d.order(x, err, !d.fills[fn], out)
		if !gate {
			return
		}
		u := args[k]
		in := lastInstr(fn)
		var f *Event
		for _, e := range x.Events {
			if d.isFinder(e, u) {
				f = e
			}
		}
		switch {
		case f == nil:
			ok := d.exempt(x, u, args) || d.noDecoder(x, u) || err != nil && d.failedBefore(x, u, err) || x.KindOf(u).Minus(kset(kInvalid)).Empty() || d.passedOn(x, u)
			out.need(nil, in, "decoder looked for", "target of "+fnName(fn), ok, "a path decodes the target without looking for an UnmarshalJSON method of its own")
		case x.knownNil(f.Res) == 1:
		default:
			var call *Event
			for _, e := range x.Events {
				if e.Kind == "call" && e.Fn == nil && strings.HasSuffix(e.Name, ".UnmarshalJSON") && len(e.Args) == 2 && e.Args[0] == f.Res {
					call = e
				}
			}
			if call == nil {
				out.need(nil, in, "decoder used", "UnmarshalJSON", false, "a path does not call the UnmarshalJSON method that was found")
				return
			}
			txt := flows(x, args[0], x.Events, call.Args[1])
			out.need(call.Fr, call.Instr, "decoder used", "UnmarshalJSON", txt, "the text %s given to UnmarshalJSON is not made from the node", call.Args[1])
			back := err != nil && (err.any(func(s *Term) bool { return s == call.Res }) || x.knownNil(call.Res) == 1)
			out.need(call.Fr, call.Instr, "decoder's error reported", "UnmarshalJSON", back, "the error of UnmarshalJSON is dropped")
		}
	}
	if !p.Run(fn) && out != nil {
		d.r.Bad("undecided", fnName(fn), "paths", "-", "too many paths to decide")
	}
	if out != nil {
		d.r.Visit(fnName(fn))
		for f := range p.visited {
			d.r.Visit(fnName(f))
		}
		d.paths += p.paths
	}
}

func (d *c15d) isFinder(e *Event, u *Term) bool {
	if e.Kind != "call" || e.Fn == nil || !d.finders[e.Fn] || e.Res == nil {
		return false
	}
	v := rvArg(e)
	return v == u || v != nil && isRefVal(v, "rv.Addr") && v.args[0] == u
}

func (d *c15d) passedOn(x *Exec, u *Term) bool {
	for _, e := range x.Events {
		if d.isGate(e) && rvArg(e) == u {
			return true
		}
	}
	return false
}

// failedBefore: something that was given the target's address has failed.
func (d *c15d) failedBefore(x *Exec, u, err *Term) bool {
	if x.knownNil(err) != 0 {
		return false
	}
	for _, e := range x.Events {
		if e.Kind != "leave" && e.Kind != "call" || e.Res == nil {
			continue
		}
		for _, a := range e.Args {
			if isRefVal(a, "rv.Addr") && a.args[0] == u && err.any(func(s *Term) bool { return s == e.Res }) {
				return true
			}
		}
	}
	return false
}

// searched: the path knows that the target has no decoder, or needs none.
func (d *c15d) searched(x *Exec, u *Term, args []*Term) bool {
	if d.exempt(x, u, args) {
		return true
	}
	for _, e := range x.Events {
		if d.isFinder(e, u) && x.knownNil(e.Res) == 1 {
			return true
		}
	}
	return false
}

// exempt: times are read from text by the package itself.
func (d *c15d) exempt(x *Exec, u *Term, args []*Term) bool {
	tt := x.rep1(x.TypeOfVal(u))
	if tt.op != ORType || !isTimeType(tt.t2) {
		return false
	}
	st := structOf(deref(args[0].typ))
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if isStringType(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

// order: the hooks of a struct run after its fields were filled, and they run.
func (d *c15d) order(x *Exec, err *Term, turn bool, out *Obls) {
	if out == nil {
		return
	}
	for i, e := range x.Events {
		if e.Kind != "call" || !strings.HasSuffix(e.Name, "FetchStructFieldValueSet") || e.Instr == nil {
			continue
		}
		v := rvArg(e)
		hook := -1
		late := ""
		for j := i + 1; j < len(x.Events); j++ {
			f := x.Events[j]
			if f.Kind != "call" {
				continue
			}
			if f.Fn != nil && d.hooks[f.Fn] && rvArg(f) == v {
				hook, late = j, ""
			} else if hook >= 0 && (d.isGate(f) || f.Fn != nil && !d.finders[f.Fn] && !d.hooks[f.Fn] && d.active[f.Fn]) {
				late = f.Name
			}
		}
		if turn {
			// a turn of a loop
			if hook >= 0 {
				out.need(e.Fr, e.Instr, "hook after the fields", "AfterUnmarshal", late == "", "%s fills a field after AfterUnmarshal was called", late)
			}
			continue
		}
		if hook < 0 && err != nil && x.knownNil(err) == 0 {
			continue
		}
		out.need(e.Fr, e.Instr, "hook after the fields", "AfterUnmarshal", hook >= 0 && late == "", "a path ends without calling AfterUnmarshal after the last field was filled")
	}
}

// finder judges a function that yields the decoder of a value: it may give up
// on a value only when the value is no pointer, after the value's address was
// tried, and steps on only from values that have no decoder.
func (d *c15d) finder(fn *ssa.Function) {
	k := rvParam(fn)
	if k < 0 {
		return
	}
	p := NewPathRun(d.w)
	p.Inline = func(x *Exec, ca *Call) bool {
		return ca.Fn != nil && !d.finders[ca.Fn] && !d.gates[ca.Fn] && !d.cyclic[ca.Fn]
	}
	out := d.Obls
	in := lastInstr(fn)
	construct := "decoder of " + fn.Params[k].Name()
	p.Back = func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) {
		if fr.parent != nil {
			return
		}
		for ph, cur := range a.cur {
			if !isReflectValue(ph.Type()) {
				continue
			}
			nx := next[ph]
			if nx == cur {
				continue
			}
			need(out, a, "every pointer tried", construct, d.stepOK(x, a.entry[ph], cur, nx), "the search goes on from %s to %s without trying its UnmarshalJSON method", cur, nx)
		}
	}
	p.Ret = func(x *Exec, args, res []*Term) {
		if len(res) == 0 {
			return
		}
		v0 := args[k]
		cands := []*Term{v0, x.mkCall("rv.Addr", 0, v0.typ, v0, x.typPtrTo(x.TypeOfVal(v0)))}
		loops := false
		for _, e := range x.Events {
			if e.Kind == "loop" && e.Fr.parent == nil {
				for ph, cur := range e.Data.(*loopAct).cur {
					if isReflectValue(ph.Type()) {
						loops = true
						cands = append(cands, cur)
						// where the walk starts
						en := e.Data.(*loopAct).entry[ph]
						out.need(nil, in, "address tried", construct, d.startOK(x, v0, en), "the search starts at %s, which may have an address with an UnmarshalJSON method", en)
					}
				}
			}
		}
		if x.knownNil(res[0]) != 1 {
			ok := false
			for _, t := range append(cands, d.inside(x, cands)...) {
				ok = ok || res[0].any(func(s *Term) bool { return ofValue(s, t) })
			}
			for _, e := range x.Events {
				ok = ok || e.Kind == "call" && e.Fn != nil && d.finders[e.Fn] && res[0].any(func(s *Term) bool { return s == e.Res })
			}
			out.need(nil, in, "decoder of the target", construct, ok, "%s is not the target itself, its address or what it points to", res[0])
			return
		}
		if loops {
			cands = cands[2:]
		}
		ok := false
		for _, t := range cands {
			ok = ok || d.givesUp(x, v0, t, loops)
		}
		// left to the same search at another value
		for _, e := range x.Events {
			if e.Kind == "call" && e.Fn != nil && d.finders[e.Fn] && x.knownNil(e.Res) == 1 {
				v := rvArg(e)
				for _, t := range cands {
					ok = ok || v == t || v != nil && isRefVal(v, "rv.Elem") && v.args[0] == t && d.tried(x, t)
				}
			}
		}
		if dbg15 && !ok {
			dumpEvents(d.w, x)
		}
		out.need(nil, in, "given up at the end", construct, ok, "a path answers that there is no decoder although the value may be a pointer or have an address with an UnmarshalJSON method")
	}
	if !p.Run(fn) {
		d.r.Bad("undecided", fnName(fn), "paths", "-", "too many paths to decide")
	}
	d.r.Visit(fnName(fn))
	d.paths += p.paths
}

func need(o *Obls, a *loopAct, rule, construct string, ok bool, format string, args ...any) {
	o.need(nil, a.header.Instrs[0], rule, construct, ok, format, args...)
}

// inside are the values some value of the list points to or holds.
func (d *c15d) inside(x *Exec, vs []*Term) (out []*Term) {
	for _, e := range x.Events {
		if e.Kind == "rv" && e.Res != nil && isRefVal(e.Res, "rv.Elem") {
			for _, v := range vs {
				if e.Res.any(func(s *Term) bool { return s == v }) {
					out = append(out, e.Res)
				}
			}
		}
	}
	return out
}

// tried: the path knows that the value has no decoder.
func (d *c15d) tried(x *Exec, v *Term) bool {
	if x.knownNoMethod(v, d.unmarshaler) || x.KindOf(v).Minus(kset(kInterface)).Empty() {
		return true
	}
	for _, e := range x.Events {
		if d.isFinder(e, v) && rvArg(e) == v && x.knownNil(e.Res) == 1 {
			return true
		}
	}
	return false
}

// stepOK: from a value that was tried to what it points to, or from the
// address of the target back to the target.
func (d *c15d) stepOK(x *Exec, entry, cur, next *Term) bool {
	base := next
	for isRefVal(base, "rv.Elem") && base != cur {
		from := base.args[0]
		if !d.tried(x, from) && from != cur {
			return false
		}
		base = from
	}
	if !d.tried(x, cur) {
		return false
	}
	return base == cur || isRefVal(entry, "rv.Addr") && base == entry.args[0] || base == entry || base.op == OParam
}

// startOK: the walk starts at the address of a target that has one.
func (d *c15d) startOK(x *Exec, v0, entry *Term) bool {
	if isRefVal(entry, "rv.Addr") && entry.args[0] == v0 {
		return true
	}
	return entry == v0 && d.noAddress(x, v0)
}

func (d *c15d) noAddress(x *Exec, v0 *Term) bool {
	if x.KindOf(v0).Minus(kset(kPtr)).Empty() {
		return true
	}
	lits, vals := literals(x.Events)
	for i, l := range lits {
		if isRefVal(l, "rv.CanAddr") && l.args[0] == v0 && !vals[i] {
			return true
		}
		if l.op == OBin && l.aux == "==" && vals[i] {
			for j := range l.args {
				if isRefVal(l.args[j], "typ.Name") && x.rep1(l.args[j].args[0]) == x.rep1(x.TypeOfVal(v0)) {
					return true
				}
			}
		}
	}
	return d.tried(x, x.mkCall("rv.Addr", 0, v0.typ, v0, x.typPtrTo(x.TypeOfVal(v0))))
}

// givesUp: nothing is left to try at the value.
func (d *c15d) givesUp(x *Exec, v0, t *Term, loops bool) bool {
	ks := x.KindOf(t)
	if !ks.Has(kPtr) || ks.Minus(kset(kInvalid)).Empty() {
		return loops || t != v0 || d.noAddress(x, v0)
	}
	if x.is(x.rvIsNil(t)) && !x.rvSettable(t) {
		return true
	}
	// an interface that holds its own address
	lits, vals := literals(x.Events)
	for i, l := range lits {
		if l.op == OBin && l.aux == "==" && vals[i] {
			for j := range l.args {
				if l.args[j] == t && isRefVal(l.args[1-j], "rv.Invalid") && !ks.Has(kInvalid) {
					return true // cannot happen
				}
				if l.args[j] == t && l.args[1-j] != t && l.args[1-j].any(func(s *Term) bool { return s == t }) {
					return true
				}
			}
		}
	}
	return false
}

func (x *Exec) rvSettable(v *Term) bool { return !x.flag("rv.CanSet", v) }

// hook judges a function that calls AfterUnmarshal.
func (d *c15d) hook(fn *ssa.Function) {
	k := rvParam(fn)
	if k < 0 {
		return
	}
	p := NewPathRun(d.w)
	p.Inline = func(x *Exec, ca *Call) bool {
		return ca.Fn != nil && !d.hooks[ca.Fn] && !d.gates[ca.Fn] && !d.cyclic[ca.Fn]
	}
	out := d.Obls
	in := lastInstr(fn)
	construct := "AfterUnmarshal of " + fn.Params[k].Name()
	var v *Term
	p.Begin = func(x *Exec, args []*Term) bool { v = args[k]; return true }
	p.Back = func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) {
		i := fieldCounter(x, a, next)
		if i == nil {
			return
		}
		ok := false
		for _, e := range x.eventsAfter(a.header) {
			if e.Kind == "call" && e.Fn != nil && d.hooks[e.Fn] {
				if f := rvArg(e); f != nil && f.any(func(s *Term) bool {
					return isRefVal(s, "rv.Field") && s.args[0] == v && x.eqLin(x.Lin(s.args[1]), x.Lin(i))
				}) {
					ok = true
				}
			}
		}
		ok = ok || d.notEmbedded(x, v, i)
		need(out, a, "embedded structs", construct, ok, "the AfterUnmarshal method of an embedded struct is not called")
	}
	p.Ret = func(x *Exec, args, res []*Term) {
		ks := x.KindOf(v)
		if ks.Has(kStruct) {
			out.need(nil, in, "embedded structs", construct+" in fields", d.allFields(x, v), "a path ends before all fields of a struct were searched for embedded structs")
			out.need(nil, in, "hook called", construct, d.called(x, v), "a path ends without calling the AfterUnmarshal method of a struct")
		}
		if ks.Has(kPtr) {
			ok := x.is(x.rvIsNil(v))
			for _, e := range x.Events {
				if e.Kind == "call" && e.Fn != nil && d.hooks[e.Fn] {
					f := rvArg(e)
					ok = ok || f != nil && isRefVal(f, "rv.Elem") && f.args[0] == v
				}
			}
			out.need(nil, in, "embedded pointers", construct, ok, "a path ends without looking behind a pointer for AfterUnmarshal methods")
		}
	}
	if !p.Run(fn) {
		d.r.Bad("undecided", fnName(fn), "paths", "-", "too many paths to decide")
	}
	d.r.Visit(fnName(fn))
	d.paths += p.paths
}

// fieldCounter is the position of the turn of a loop over fields.
func fieldCounter(x *Exec, a *loopAct, next map[*ssa.Phi]*Term) *Term {
	for ph, cur := range a.cur {
		if isInt(ph.Type()) && next[ph] != cur {
			return cur
		}
	}
	return nil
}

// notEmbedded: the field is known not to be an embedded struct.
func (d *c15d) notEmbedded(x *Exec, v, i *Term) bool {
	lits, vals := literals(x.Events)
	for n, l := range lits {
		if !vals[n] && l.any(func(s *Term) bool { return (s.op == OField || s.op == OFieldAddr) && fieldNameOf(s) == "Anonymous" }) && l.any(func(s *Term) bool { return s == i }) {
			return true
		}
	}
	f := x.mkCall("rv.Field", 0, v.typ, v, i, x.mkCall("typ.Field", 0, nil, x.TypeOfVal(v), i))
	ks := x.KindOf(f)
	return !ks.Has(kStruct) && (!ks.Has(kPtr) || x.is(x.rvIsNil(f)))
}

func fieldNameOf(t *Term) string {
	if len(t.args) == 0 || t.args[0].typ == nil {
		return ""
	}
	st := structOf(t.args[0].typ)
	if st == nil || t.num < 0 || t.num >= st.NumFields() {
		return ""
	}
	return st.Field(t.num).Name()
}

// allFields: a loop has counted through all fields.
func (d *c15d) allFields(x *Exec, v *Term) bool {
	for _, e := range x.Events {
		if e.Kind != "loop" {
			continue
		}
		a := e.Data.(*loopAct)
		for ph, cur := range a.cur {
			if !isInt(ph.Type()) {
				continue
			}
			for _, n := range []*Term{x.mkCall("rv.NumField", 0, types.Typ[types.Int], v), x.mkCall("typ.NumField", 0, types.Typ[types.Int], x.TypeOfVal(v))} {
				up := x.Entails(x.Lin(a.entry[ph]).neg()) && x.Entails(x.Lin(cur).sub(x.Lin(n)))
				down := x.Entails(x.Lin(cur).neg().plus(-1)) && x.Entails(x.Lin(a.entry[ph]).sub(x.Lin(n)).plus(1))
				if up || down {
					return true
				}
			}
		}
	}
	return false
}

// called: the method was called, or there is none that can be.
func (d *c15d) called(x *Exec, v *Term) bool {
	own := func(t *Term) bool { return t == v || isRefVal(t, "rv.Addr") && t.args[0] == v }
	isMethod := func(t *Term) bool {
		return isRefVal(t, "rv.MethodByName") && own(t.args[0]) && strings.Contains(t.args[1].String(), "AfterUnmarshal")
	}
	for _, e := range x.Events {
		if e.Kind == "rcall" && len(e.Args) > 0 && isMethod(e.Args[0]) {
			return true
		}
		if e.Kind == "call" && e.Fn == nil && strings.HasSuffix(e.Name, ".AfterUnmarshal") {
			return true
		}
		if e.Res != nil && isMethod(e.Res) && (x.KindOf(e.Res).Minus(kset(kInvalid)).Empty() || x.is(x.rvIsNil(e.Res))) {
			return true
		}
	}
	lits, vals := literals(x.Events)
	for i, l := range lits {
		switch {
		case (isRefVal(l, "rv.CanInterface") || isRefVal(l, "rv.CanAddr")) && own(l.args[0]) && !vals[i]:
			return true
		case l.any(func(s *Term) bool { return s.op == OCall && strings.HasSuffix(s.aux, "NumIn") }) && l.op == OBin && (l.aux == "==") != vals[i]:
			return true
		}
	}
	return false
}
