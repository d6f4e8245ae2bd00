package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C15"] = check{explainC15, runC15} }

const explainC15 = "Path-sensitive interpretation, encoding: the recursive functions that yield a node for a reflect.Value are cut; on every path each must know that the value has no MarshalJSON method (type assertion failed, no methods, a time, nil) or return what a parse function made of that method's text, and no node may be made from a value below its own that was read directly. Decoding: on every path every node method that fills a reflect.Value must have looked for the target's decoder before content of the node is written or a function that writes is called; a decoder that was found is called with text of the node and its error returned; no content of a node is written into an element, field, map entry or pointed-to value directly. The functions that look for a decoder must start at the address of an addressable named target, step from pointer to pointer only past values that were tried, and give up only at a value that is no pointer. AfterUnmarshal is called on every path after the last field of a struct was handed on; the function that calls it must visit every field, enter every embedded one, look behind pointers, and call the method unless it is known not to be callable."

func runC15(w *World, r *Rep) {
	c := &c15{Obls: newObls(w, r), marshaler: jsonIface(w, "Marshaler"), unmarshaler: jsonIface(w, "Unmarshaler")}
	if c.marshaler == nil || c.unmarshaler == nil {
		r.Bad("anchor", "-", "encoding/json", "-", "the package does not refer to encoding/json")
		return
	}
	c.marshalSide()
	c.decodeSide()
	c.finish()
	r.Notes = append(r.Notes, fmt.Sprintf("%d paths", c.paths))
	r.Assume = append(r.Assume, "FetchStructFieldValueSet lists every field of a struct", "a parse function that reports no error yields a node (C03)",
		"null resets a target and references are resolved without asking the target's decoder")
	r.AtLeast("encoder looked for", 1)
	r.AtLeast("encoder used", 1)
	r.AtLeast("decoder looked for", 3)
	r.AtLeast("decoder used", 1)
	r.AtLeast("hook called", 1)
	r.AtLeast("hook after the fields", 1)
}

type c15 struct {
	*Obls
	marshaler, unmarshaler *types.Named
	enc                    *marshalCut
	paths                  int
}

func jsonIface(w *World, name string) *types.Named {
	for _, p := range w.Main.Pkg.Imports() {
		if p.Path() == "encoding/json" {
			n, _ := types.Unalias(p.Scope().Lookup(name).Type()).(*types.Named)
			return n
		}
	}
	return nil
}

// implements tells whether a value of the type, or a pointer to it, has the method.
func implements(t types.Type, it *types.Named) bool {
	i := it.Underlying().(*types.Interface)
	return types.Implements(t, i)
}

func isTimeType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time" && types.Identical(t, n)
}

// noEncoder: the path knows that the value has no encoder of its own, or that
// there is nothing to encode.
func (c *c15) noEncoder(x *Exec, u *Term) bool {
	if x.knownNoMethod(u, c.marshaler) {
		return true
	}
	ks := x.KindOf(u)
	if ks.Minus(kset(kInvalid)).Empty() || ks.Minus(kset(kInvalid, kPtr, kInterface)).Empty() && (x.is(x.rvIsNil(u)) || x.is(x.mkCall("rv.IsZero", x.repEp, types.Typ[types.Bool], u))) {
		return true
	}
	return isRefVal(u, "reflect.ValueOf") && x.knownNil(u.args[0]) == 1
}

func (x *Exec) knownNoMethod(u *Term, it *types.Named) bool {
	tt := x.rep1(x.TypeOfVal(u))
	if tt.op == ORType && (isTimeType(tt.t2) || !types.IsInterface(tt.t2) && !implements(tt.t2, it)) {
		return true
	}
	lits, vals := literals(x.Events)
	for i, l := range lits {
		switch {
		case l.op == OIsType && types.Identical(l.t2, it) && isRefVal(l.args[0], "rv.Interface") && l.args[0].args[0] == u:
			if !vals[i] {
				return true
			}
		case isRefVal(l, "rv.CanInterface") && l.args[0] == u && !vals[i]:
			return true
		case isRefVal(l, "typ.Implements") && !vals[i] && x.rep1(l.args[0]) == tt && x.rep1(l.args[1]).op == ORType && types.Identical(x.rep1(l.args[1]).t2, it):
			if !x.KindOf(u).Has(kInterface) {
				return true
			}
		}
	}
	for _, m := range []*Term{x.mkCall("typ.NumMethod", 0, types.Typ[types.Int], tt), x.mkCall("typ.NumMethod", 0, types.Typ[types.Int], x.TypeOfVal(u)), x.mkCall("rv.NumMethod", 0, types.Typ[types.Int], u)} {
		if x.Entails(x.Lin(m).neg()) {
			return true
		}
	}
	return false
}

// marshalSide: every function that turns a value into a node recursively uses
// the value's own encoder unless it has none.
func (c *c15) marshalSide() {
	m := newMarshalCut(c.w, c.r)
	if m == nil {
		return
	}
	c.enc = m
	// a cut function that does not look itself relies on its callers
	weak := map[*ssa.Function]bool{}
	var fns []*ssa.Function
	for f := range m.cut {
		if rvParam(f) >= 0 {
			fns = append(fns, f)
		}
	}
	for n := -1; n != len(weak); {
		n = len(weak)
		for _, f := range fns {
			if !weak[f] && !c.encode(f, weak, nil) {
				weak[f] = true
			}
		}
	}
	if len(weak) == len(fns) {
		weak = map[*ssa.Function]bool{}
	}
	for _, f := range fns {
		c.encode(f, weak, c.Obls)
	}
	for _, f := range m.roots {
		c.encode(f, weak, c.Obls)
	}
}

func rvParam(fn *ssa.Function) int {
	for i, p := range fn.Params {
		if isReflectValue(p.Type()) {
			return i
		}
	}
	return -1
}

// parsesText: reads a node from text.
func (c *c15) parsesText(f *ssa.Function) bool {
	txt, node, err := false, false, false
	for _, p := range f.Params {
		txt = txt || isText(p.Type())
	}
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		node = node || c.w.isNodeIface(rs.At(i).Type())
		err = err || isErrorType(rs.At(i).Type())
	}
	return txt && node && err
}

// encode judges one function that yields a node for a value. With out == nil
// it only tells whether the function looks for the value's encoder itself.
func (c *c15) encode(fn *ssa.Function, weak map[*ssa.Function]bool, out *Obls) bool {
	k := rvParam(fn)
	root := k < 0
	good := true
	p := NewPathRun(c.w)
	p.Inline = func(x *Exec, ca *Call) bool {
		return ca.Fn != nil && c.enc.inline(ca.Fn) && !c.parsesText(ca.Fn)
	}
	need := func(fr *Frame, in ssa.Instruction, rule, construct string, ok bool, format string, a ...any) {
		good = good && ok
		if out != nil && in != nil {
			out.need(fr, in, rule, construct, ok, format, a...)
		}
	}
	val := func(x *Exec, args []*Term) *Term {
		if root {
			return x.mkCall("reflect.ValueOf", 0, c.rvType(), args[0])
		}
		return args[k]
	}
	var rootArgs []*Term
	p.Begin = func(x *Exec, args []*Term) bool { rootArgs = args; return true }
	p.Event = func(x *Exec, e *Event) {
		switch {
		case e.Kind == "call" && e.Fn != nil && weak[e.Fn]:
			if k := rvParam(e.Fn); k < len(e.Args) {
				v := e.Args[k]
				need(e.Fr, e.Instr, "encoder looked for", "call of "+e.Fn.Name(), c.noEncoder(x, v), "%s is encoded field by field, though it may have a MarshalJSON method of its own", v)
			}
		case e.Kind == "store" && c.nodeField(e.Args[0]):
			if d := c.readBelow(x, val(x, rootArgs), e.Args[1]); d != nil {
				need(e.Fr, e.Instr, "elements through the encoder", "node content", c.noEncoder(x, d), "the node is made from %s, which may have a MarshalJSON method of its own", d)
			}
		}
	}
	p.Ret = func(x *Exec, args, res []*Term) {
		if len(res) != 1 {
			return
		}
		u := val(x, args)
		var call *Event // the value's encoder
		for _, e := range x.Events {
			if e.Kind == "call" && strings.HasSuffix(e.Name, ".MarshalJSON") && e.Fn == nil && len(e.Args) > 0 && ofValue(e.Args[0], u) {
				call = e
			}
		}
		in := lastInstr(fn)
		if call != nil {
			if c.noNode(x) {
				return
			}
			need(nil, in, "encoder used", "result of MarshalJSON", c.parsedFrom(x, call, res[0]), "a path returns %s although %s has its own encoder", res[0], u)
			return
		}
		if c.noEncoder(x, u) || c.handedOn(x, u, res[0], weak) {
			need(nil, in, "encoder looked for", "value of "+fn.Name(), true, "")
			return
		}
		if dbg15 {
			dumpEvents(c.w, x)
		}
		need(nil, in, "encoder looked for", "value of "+fn.Name(), false, "a path yields %s for a value that may have a MarshalJSON method, without calling it", res[0])
	}
	if !p.Run(fn) && out != nil {
		c.r.Bad("undecided", fnName(fn), "paths", "-", "too many paths to decide")
	}
	if out != nil {
		c.r.Visit(fnName(fn))
		for f := range p.visited {
			c.r.Visit(fnName(f))
		}
		c.paths += p.paths
	}
	return good
}

func (c *c15) rvType() types.Type {
	for _, p := range c.w.Main.Pkg.Imports() {
		if p.Path() == "reflect" {
			return p.Scope().Lookup("Value").Type()
		}
	}
	return nil
}

// lastInstr stands for the results of a function.
func lastInstr(fn *ssa.Function) ssa.Instruction {
	for i := len(fn.Blocks) - 1; i >= 0; i-- {
		b := fn.Blocks[i]
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return r
		}
	}
	return fn.Blocks[0].Instrs[0]
}

// ofValue: an interface holding the value.
func ofValue(t, u *Term) bool {
	return isRefVal(t, "rv.Interface") && t.args[0] == u || isRefVal(u, "reflect.ValueOf") && t == u.args[0]
}

// parsedFrom: the result is what a parse function made of the encoder's text.
func (c *c15) parsedFrom(x *Exec, enc *Event, res *Term) bool {
	for _, e := range x.Events {
		if e.Kind != "call" || e.Fn == nil || !c.parsesText(e.Fn) || e.Res == nil {
			continue
		}
		src := false
		for _, a := range e.Args {
			src = src || enc.Res != nil && a != nil && a.any(func(s *Term) bool { return s == enc.Res })
		}
		if src && res.any(func(s *Term) bool { return s == e.Res }) {
			return true
		}
	}
	return false
}

// noNode: a parse function is assumed to have yielded neither a node nor an
// error, which cannot happen.
func (c *c15) noNode(x *Exec) bool {
	for _, e := range x.Events {
		if e.Kind != "call" && e.Kind != "leave" || e.Fn == nil || !c.parsesText(e.Fn) || e.Res == nil {
			continue
		}
		node, err := false, false
		rs := e.Fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			t := x.extract(e.Res, i, rs.At(i).Type())
			node = node || c.w.isNodeIface(rs.At(i).Type()) && x.knownNil(t) == 1
			err = err || isErrorType(rs.At(i).Type()) && x.knownNil(t) == 1
		}
		if node && err {
			return true
		}
	}
	return false
}

// handedOn: another function that looks for the encoder yields the node. An
// interface may be opened before, a value in it has the same encoder.
func (c *c15) handedOn(x *Exec, u, res *Term, weak map[*ssa.Function]bool) bool {
	for _, e := range x.Events {
		if e.Kind != "call" || e.Fn == nil || !c.enc.cut[e.Fn] || weak[e.Fn] {
			continue
		}
		k := rvParam(e.Fn)
		if k < 0 || k >= len(e.Args) || e.Res == nil {
			continue
		}
		v := e.Args[k]
		same := v == u
		if isRefVal(v, "rv.Elem") && v.args[0] == u && x.KindOf(u).Minus(kset(kInterface)).Empty() {
			same = true
		}
		if same && (res.any(func(s *Term) bool { return s == e.Res }) || x.knownNil(e.Res) == 1) {
			return true
		}
	}
	return false
}

func (c *c15) nodeField(a *Term) bool {
	return a.op == OFieldAddr && (&c17{Obls: c.Obls}).nodeStruct(deref(a.args[0].typ))
}

// readBelow finds a value below u that was read to make the term.
func (c *c15) readBelow(x *Exec, u, t *Term) *Term {
	seen := map[*Term]bool{}
	var walk func(s *Term, step bool) *Term
	walk = func(s *Term, step bool) *Term {
		if s == nil || seen[s] || s.op == OCall && s.fn != nil && c.enc.cut[s.fn] {
			return nil
		}
		if !step && s.typ != nil && isReflectValue(s.typ) && s != u && !mapKey(s) {
			return s
		}
		if !step {
			seen[s] = true
		}
		for i, a := range s.args {
			if v := walk(a, s.op == OCall && strings.HasPrefix(s.aux, "rv.") && (i > 0 || rvSteps[s.aux])); v != nil {
				return v
			}
		}
		return nil
	}
	return walk(t, false)
}

// rvSteps lead from a value to another one.
var rvSteps = map[string]bool{"rv.Elem": true, "rv.Addr": true, "rv.Index": true, "rv.Field": true, "rv.MapIndex": true, "rv.Convert": true, "rv.IsNil": true, "rv.Len": true, "rv.MapKeys": true, "rv.MapRange": true}

func mapKey(t *Term) bool {
	return t.any(func(s *Term) bool { return s.op == OCall && (s.aux == "rv.MapKeys" || s.aux == "rv.MapRange") }) && !t.any(func(s *Term) bool { return s.op == OCall && s.aux == "rv.MapIndex" })
}

// is: the condition is known to hold.
func (x *Exec) is(t *Term) bool {
	v, known := x.Eval(t)
	return known && v
}

var dbg15 = os.Getenv("DBG15") != ""
