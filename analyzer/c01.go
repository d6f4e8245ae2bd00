package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = check{explainC01, runC01}
	checks["C02"] = check{explainC02, runC02}
}

const explainC01 = "Modular path-sensitive interpretation (go/ssa, linear arithmetic, inferred contracts and loop invariants) of every function reachable from the parsing entry points; each index, slice, conversion, dereference, map write, division and library precondition on every path is an obligation that must follow from the path's facts."
const explainC02 = "Same interpretation as C01: every back edge of every reachable loop must advance an integer or length measure towards a bound that the loop does not move; every recursive cycle must pass a counter that is increased and compared with a constant, or shrink a slice of bounded length; the end offset postcondition of stream parsing is checked on every return path."

var parseRoots = []string{"Parse", "ParseString", "ParseStream", "ParseJsonStreams", "ParseQueryString", "NewJSONError"}

func parseHoudini(w *World, r *Rep) *Houdini {
	var roots []*ssa.Function
	for _, n := range parseRoots {
		f := w.Func(n)
		if f == nil {
			r.Bad("anchor", n, "entry point", "-", "entry point %s is missing", n)
			continue
		}
		roots = append(roots, f)
	}
	if len(roots) == 0 {
		return nil
	}
	h := NewHoudini(w, roots)
	h.RootPre = func(x *Exec, fn *ssa.Function, args []*Term) {
		if fn.Name() == "ParseStream" {
			// the caller gives an offset into the stream
			for i, p := range fn.Params {
				if isInt(p.Type()) {
					x.addLin(x.Lin(args[i]))
					x.addLin(x.Lin(args[i]).neg().plus(huge / 64))
				}
			}
		}
	}
	return h
}

func runC01(w *World, r *Rep) {
	h := parseHoudini(w, r)
	if h == nil {
		return
	}
	h.Infer()
	p := newPanics(w, h, r)
	p.arm()
	h.Check()
	p.finish()
	r.Assume = append(r.Assume,
		"the offset given to ParseStream is not negative; lengths in memory are below 2^36",
		"pointers held in fields, slices and parameters of exported functions are not nil; what is stored into maps of pointers and sorted maps is checked to be",
		"library functions do not panic except under the preconditions checked here; panics inside String methods called by fmt are caught by fmt",
		"calls through interfaces reach the package's own types only")
	r.AtLeast("index", 20)
	r.AtLeast("slice", 5)
	r.Notes = append(r.Notes, fmt.Sprintf("%d contracts, %d rounds of inference", len(h.keys), h.rounds))
}

// panics checks that no operation can panic.
type panics struct {
	w   *World
	h   *Houdini
	r   *Rep
	st  map[string]*obState
	ord []string
	ext map[string]bool
	rx  *mapFields
}

type obState struct {
	rule, fn, construct, pos, msg string
	bad                           bool
	paths                         int
}

func newPanics(w *World, h *Houdini, r *Rep) *panics {
	return &panics{w: w, h: h, r: r, st: map[string]*obState{}, ext: map[string]bool{}, rx: newMapFields(w)}
}

func (p *panics) arm() {
	p.h.Instr = p.instr
	p.h.Call = p.call
	p.h.Panic = func(x *Exec, fr *Frame, in *ssa.Panic) {
		p.need(x, fr, in, "panic", "explicit panic", false, "an explicit panic is reachable")
	}
}

func (p *panics) need(x *Exec, fr *Frame, in ssa.Instruction, rule, construct string, ok bool, format string, a ...any) {
	fn := fnName(in.Parent())
	k := fmt.Sprintf("%s|%p", rule, in)
	s := p.st[k]
	if s == nil {
		s = &obState{rule: rule, fn: fn, construct: construct, pos: p.w.InstrPos(in)}
		p.st[k] = s
		p.ord = append(p.ord, k)
	}
	s.paths++
	if !ok && !s.bad {
		s.bad = true
		s.msg = fmt.Sprintf(format, a...)
		if fr != nil && fr.parent != nil {
			s.msg += " (reached from " + fnName(fr.parent.fn) + ")"
		}
	}
}

func (p *panics) finish() {
	for _, s := range p.st {
		p.r.Visit(s.fn)
	}
	for _, f := range p.h.order {
		p.r.Visit(fnName(f))
	}
	sort.SliceStable(p.ord, func(i, j int) bool { return p.st[p.ord[i]].pos < p.st[p.ord[j]].pos })
	for _, k := range p.ord {
		s := p.st[k]
		if s.bad {
			p.r.Bad(s.rule, s.fn, s.construct, s.pos, "%s", s.msg)
			continue
		}
		p.r.OK(s.rule)
		p.r.Sample(s.rule, "%s in %s at %s holds on %d paths", s.construct, s.fn, s.pos, s.paths)
	}
	for _, f := range p.h.fallout {
		p.r.Bad("undecided", f, "paths", "-", "too many paths to decide")
	}
	var ext []string
	for e := range p.ext {
		ext = append(ext, e)
	}
	sort.Strings(ext)
	p.r.Notes = append(p.r.Notes, "library functions trusted: "+strings.Join(ext, ", "))
}

func (p *panics) inRange(x *Exec, i, n *Term, strict bool) bool {
	if x.wraps(i) {
		return false
	}
	if !x.EntailsSplit(x.Lin(i)) {
		return false
	}
	d := x.Lin(n).sub(x.Lin(i))
	if strict {
		d = d.plus(-1)
	}
	return x.EntailsSplit(d)
}

func opName(v ssa.Value) string {
	switch t := v.(type) {
	case *ssa.Const:
		return t.Name()
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return v.Name()
	case *ssa.Phi:
		return phiName(t)
	case *ssa.Alloc:
		return t.Comment
	case *ssa.BinOp:
		return opName(t.X) + t.Op.String() + opName(t.Y)
	case *ssa.UnOp:
		return t.Op.String() + opName(t.X)
	case *ssa.FieldAddr:
		if st := structOf(deref(t.X.Type())); st != nil {
			return opName(t.X) + "." + st.Field(t.Field).Name()
		}
	case *ssa.Field:
		if st := structOf(t.X.Type()); st != nil {
			return opName(t.X) + "." + st.Field(t.Field).Name()
		}
	case *ssa.IndexAddr:
		return opName(t.X) + "[" + opName(t.Index) + "]"
	case *ssa.Index:
		return opName(t.X) + "[" + opName(t.Index) + "]"
	case *ssa.Lookup:
		return opName(t.X) + "[" + opName(t.Index) + "]"
	case *ssa.Slice:
		s := opName(t.X) + "["
		if t.Low != nil {
			s += opName(t.Low)
		}
		s += ":"
		if t.High != nil {
			s += opName(t.High)
		}
		return s + "]"
	case *ssa.Call:
		var as []string
		for _, a := range t.Call.Args {
			if len(as) < 3 {
				as = append(as, shortOp(a))
			}
		}
		return lastName(calleeFullName(&t.Call)) + "(" + strings.Join(as, ",") + ")"
	case *ssa.Extract:
		return fmt.Sprintf("%s#%d", opName(t.Tuple), t.Index)
	case *ssa.Convert:
		return opName(t.X)
	case *ssa.MakeInterface:
		return opName(t.X)
	case *ssa.ChangeInterface:
		return opName(t.X)
	case *ssa.ChangeType:
		return opName(t.X)
	case *ssa.TypeAssert:
		return opName(t.X) + ".(" + shortType(t.AssertedType) + ")"
	}
	return v.Name()
}

func shortOp(v ssa.Value) string {
	switch v.(type) {
	case *ssa.Call, *ssa.Slice, *ssa.Phi:
		return "…"
	}
	return opName(v)
}

func (p *panics) instr(x *Exec, fr *Frame, in ssa.Instruction) {
	switch t := in.(type) {
	case *ssa.IndexAddr:
		s, i := x.Val(fr, t.X), x.Val(fr, t.Index)
		p.need(x, fr, in, "index", opName(t), p.inRange(x, i, x.LenOf(s), true), "index %s may be outside 0..len(%s)-1", opName(t.Index), opName(t.X))
	case *ssa.Index:
		s, i := x.Val(fr, t.X), x.Val(fr, t.Index)
		p.need(x, fr, in, "index", opName(t), p.inRange(x, i, x.LenOf(s), true), "index %s may be outside 0..len(%s)-1", opName(t.Index), opName(t.X))
	case *ssa.Lookup:
		if isStringType(t.X.Type()) {
			s, i := x.Val(fr, t.X), x.Val(fr, t.Index)
			p.need(x, fr, in, "index", opName(t), p.inRange(x, i, x.LenOf(s), true), "index %s may be outside 0..len(%s)-1", opName(t.Index), opName(t.X))
		}
	case *ssa.Slice:
		p.slice(x, fr, t)
	case *ssa.TypeAssert:
		if !t.CommaOk {
			p.assert(x, fr, t)
		}
	case *ssa.MapUpdate:
		m := x.Val(fr, t.Map)
		ok := x.knownNil(m) == 0 || m.op == OLoad && m.args[0].op == OFieldAddr && p.rx.always(m.args[0])
		p.need(x, fr, in, "map write", opName(t.Map), ok, "%s may be a nil map", opName(t.Map))
		if isNilable(t.Value.Type()) {
			v := x.Val(fr, t.Value)
			p.need(x, fr, in, "map value", opName(t.Map)+" value", p.nonNil(x, v), "a nil %s may be stored in the map", t.Value.Type())
		}
	case *ssa.MakeSlice:
		n, c := x.Val(fr, t.Len), x.Val(fr, t.Cap)
		ok := !x.wraps(n) && x.EntailsSplit(x.Lin(n)) && x.EntailsSplit(x.Lin(c).sub(x.Lin(n)))
		p.need(x, fr, in, "make", "make("+opName(t.Len)+")", ok, "the length given to make may be negative or exceed the capacity")
	case *ssa.BinOp:
		if (t.Op == token.QUO || t.Op == token.REM) && isIntType(t.Type()) {
			d := x.Val(fr, t.Y)
			nz := x.Entails(x.Lin(d).plus(-1)) || x.Entails(x.Lin(d).neg().plus(-1))
			p.need(x, fr, in, "divide", opName(t), nz, "the divisor may be zero")
		}
		if (t.Op == token.SHL || t.Op == token.SHR) && isIntType(t.Y.Type()) {
			if _, signed := intWidth(t.Y.Type()); signed {
				p.need(x, fr, in, "shift", opName(t), x.Entails(x.Lin(x.Val(fr, t.Y))), "the shift count may be negative")
			}
		}
	case *ssa.FieldAddr:
		p.deref(x, fr, in, t.X, "field of "+opName(t.X))
	case *ssa.UnOp:
		if t.Op == token.MUL {
			p.deref(x, fr, in, t.X, "*"+opName(t.X))
		}
	case *ssa.Store:
		p.deref(x, fr, in, t.Addr, "*"+opName(t.Addr)+"=")
	case *ssa.SliceToArrayPointer:
		a := deref(t.Type()).Underlying().(*types.Array)
		p.need(x, fr, in, "slice", opName(t.X)+" to array", x.Entails(x.Lin(x.LenOf(x.Val(fr, t.X))).plus(-a.Len())), "the slice may be too short")
	case *ssa.Go, *ssa.Send, *ssa.Select:
		p.need(x, fr, in, "concurrency", fmt.Sprintf("%T", in), false, "the analysis does not follow goroutines and channels")
	}
}

func (p *panics) deref(x *Exec, fr *Frame, in ssa.Instruction, v ssa.Value, what string) {
	switch v.(type) {
	case *ssa.Alloc, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.FreeVar:
		return
	}
	t := x.Val(fr, v)
	p.need(x, fr, in, "nil", what, p.nonNil(x, t), "%s may be nil here", opName(v))
}

// nonNil: the term is known not to be nil, or comes from where nil is never put.
func (p *panics) nonNil(x *Exec, t *Term) bool { return p.h.nonNil(x, t) }

func (h *Houdini) nonNil(x *Exec, t *Term) bool {
	t = nilBase(x.rep1(t))
	switch x.knownNil(t) {
	case 0:
		return true
	case 1:
		return false
	}
	switch t.op {
	case OParam:
		// parameters of unexported functions carry an inferred contract
		if pv, ok := t.val.(*ssa.Parameter); ok {
			return h.presumed(pv)
		}
		return true
	case OLoad:
		if a := t.args[0]; a.op == OFieldAddr {
			return !h.w.leftNil(deref(a.args[0].typ), a.num)
		}
		return true
	case OField:
		return t.args[0].typ == nil || !h.w.leftNil(t.args[0].typ, t.num)
	case OLookup:
		v, known := x.Eval(x.ts.Mk(OHas, types.Typ[types.Bool], "", t.num, t.args...))
		return known && v
	case OAssert:
		is, known := x.Eval(x.isType(t.args[0], t.t2))
		return known && is
	case OExtract:
		c := t.args[0]
		return c.op == OCall && c.fn != nil && !h.w.IsMain(c.fn) && strings.Contains(c.aux, "sortedmap.") && smapOK(x, t)
	case OCall:
		return t.fn == nil || !h.w.IsMain(t.fn)
	case OFresh:
		_, phi := t.val.(*ssa.Phi)
		return !phi
	case ONil:
		return false
	}
	return true
}

// smapOK: a value read from a sorted map together with a true ok result, or
// from an iterator.
func smapOK(x *Exec, t *Term) bool {
	c := t.args[0]
	if strings.HasSuffix(c.aux, ".Get") || strings.HasSuffix(c.aux, ".GetIgnoreCase") {
		if strings.Contains(c.aux, "Iterator") {
			return true
		}
		if tup, ok := c.typ.(*types.Tuple); ok {
			ok2 := x.extract(c, tup.Len()-1, types.Typ[types.Bool])
			v, known := x.Eval(ok2)
			if known {
				return v
			}
		}
		return len(c.args) == 2 && !strings.HasSuffix(c.aux, "Case") && keyOfSmap(x, c.args[1], c.args[0])
	}
	return false
}

// keyOfSmap: the key was taken from the same map, or from the other half of
// the common keys.
func keyOfSmap(x *Exec, k, m *Term) bool {
	var src *Term
	if el, ok := x.elemOf(k); ok && el.kind == 's' && isSmapKeys(el.src) {
		src = el.src.args[0]
	} else if k.op == OExtract && k.num == 0 && k.args[0].op == OCall && strings.HasSuffix(k.args[0].aux, "SSortedMapIterator).Get") {
		src = iterSource(x, k.args[0].args[0])
	}
	if src == nil {
		return false
	}
	common := func(t *Term) bool { return t.op == OExtract && (t.num == 1 || t.num == 2) && isSplit(t.args[0]) }
	return src == m || common(src) && common(m) && src.args[0] == m.args[0]
}

func (p *panics) slice(x *Exec, fr *Frame, t *ssa.Slice) {
	v := x.Val(fr, t.X)
	if pt, ok := t.X.Type().Underlying().(*types.Pointer); ok {
		if _, ok := pt.Elem().Underlying().(*types.Array); ok && t.Low == nil && t.High == nil {
			return
		}
	}
	lo := x.ts.Int(0)
	if t.Low != nil {
		lo = x.Val(fr, t.Low)
	}
	n := x.LenOf(v)
	hi := n
	if t.High != nil {
		hi = x.Val(fr, t.High)
	}
	top := x.EntailsSplit(x.Lin(n).sub(x.Lin(hi)))
	if !top && !isStringType(v.typ) {
		top = x.EntailsSplit(x.Lin(x.ts.Mk(OCap, types.Typ[types.Int], "", 0, v)).sub(x.Lin(hi)))
	}
	ok := top && !x.wraps(lo) && !x.wraps(hi) && x.EntailsSplit(x.Lin(lo)) && x.EntailsSplit(x.Lin(hi).sub(x.Lin(lo)))
	p.need(x, fr, t, "slice", opName(t), ok, "the bounds of %s may be out of range or out of order", opName(t))
}

func (p *panics) assert(x *Exec, fr *Frame, t *ssa.TypeAssert) {
	v := x.Val(fr, t.X)
	is, known := x.Eval(x.isType(v, t.AssertedType))
	ok := known && is
	if !ok && !known && fromSmap(v) && p.w.isNodeIface(t.AssertedType) {
		ok = p.nonNil(x, v)
	}
	p.need(x, fr, t, "assertion", opName(t), ok, "%s may hold another type or nothing", opName(t.X))
}

func (w *World) isNodeIface(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "JSONObject" && n.Obj().Pkg() == w.Main.Pkg
}

// fromSmap: a value read from a sorted map.
func fromSmap(v *Term) bool {
	if v.op == OExtract {
		v = v.args[0]
	}
	return v.op == OCall && strings.Contains(v.aux, "sortedmap.")
}

func (p *panics) call(x *Exec, c *Call, ts []*ssa.Function) {
	if c.Method != nil && c.Fn == nil {
		in := c.Instr.(ssa.Instruction)
		p.need(x, c.Fr, in, "nil", "call of "+c.Method.Name(), p.nonNil(x, c.Args[0]), "the interface value %s may be nil", opName(c.Common.Value))
		return
	}
	if c.Fn == nil {
		return
	}
	in := c.Instr.(ssa.Instruction)
	if p.w.IsMain(c.Fn) {
		p.assumed(x, c, in)
		return
	}
	n := c.Name
	p.ext[n] = true
	base := n[strings.LastIndexByte(n, '.')+1:]
	arg := func(i int) *Term { return c.Args[i] }
	switch {
	case n == "(*strings.Builder).Grow" || n == "(*bytes.Buffer).Grow" || n == "strings.Repeat" || n == "bytes.Repeat":
		p.need(x, c.Fr, in, "library", base, x.Entails(x.Lin(arg(1))), "the count given to %s may be negative", base)
	case n == "unicode/utf8.EncodeRune":
		p.need(x, c.Fr, in, "library", base, x.Entails(x.Lin(x.LenOf(arg(0))).plus(-4)), "the buffer given to EncodeRune may be too short")
	case strings.HasPrefix(n, "(reflect.Value)."):
		p.need(x, c.Fr, in, "library", base, base == "Kind" || base == "IsValid", "a reflection operation is reachable while parsing")
	case strings.HasPrefix(base, "Must") || strings.HasPrefix(base, "Fatal") || strings.HasPrefix(base, "Panic") || n == "os.Exit":
		p.need(x, c.Fr, in, "library", base, false, "%s is reachable while parsing", n)
	case strings.HasPrefix(n, "encoding/binary."):
		p.need(x, c.Fr, in, "library", base, false, "%s reads a fixed number of bytes", n)
	case n == "unicode/utf16.AppendRune", n == "unicode/utf8.DecodeRune":
	case strings.Contains(n, "sortedmap.") && base == "Add":
		v := arg(len(c.Args) - 1)
		p.need(x, c.Fr, in, "map value", "sorted map value", v.op == OIface || p.nonNil(x, v), "a nil value may be stored in a sorted map")
	}
	if c.Fn.Signature.Recv() != nil && len(c.Args) > 0 {
		if _, ok := c.Fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok && len(c.Common.Args) > 0 {
			if _, isA := c.Common.Args[0].(*ssa.Alloc); !isA {
				p.need(x, c.Fr, in, "nil", "receiver of "+base, p.nonNil(x, arg(0)), "the receiver of %s may be nil", base)
			}
		}
	}
}

// assumed: what the callee takes for granted about its pointer parameters.
func (p *panics) assumed(x *Exec, c *Call, in ssa.Instruction) {
	for i, pv := range c.Fn.Params {
		if i >= len(c.Args) || !isNilable(pv.Type()) || !p.h.presumed(pv) {
			continue
		}
		p.need(x, c.Fr, in, "argument", fmt.Sprintf("argument %s of %s", pv.Name(), c.Fn.Name()), p.nonNil(x, c.Args[i]), "%s of %s may be nil here", pv.Name(), c.Fn.Name())
	}
}

// presumed: the parameter is taken to be non-nil.
func (h *Houdini) presumed(pv *ssa.Parameter) bool {
	fn := pv.Parent()
	if h.roots[fn] || fn.Object() == nil || fn.Object().Exported() {
		return h.Nilable == nil || !h.Nilable(pv)
	}
	return len(fn.Params) > 0 && fn.Signature.Recv() != nil && fn.Params[0] == pv
}

// leftNil: some struct of the type is made without giving the pointer or
// interface field a value.
func (w *World) leftNil(st types.Type, field int) bool {
	s := structOf(st)
	if s == nil || field >= s.NumFields() || !isNilable(s.Field(field).Type()) {
		return false
	}
	key := fieldKey(types.NewPointer(st), field)
	if v, ok := w.left[key]; ok {
		return v
	}
	res := false
	for _, fn := range w.Funcs {
		if !w.IsMain(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				a, ok := in.(*ssa.Alloc)
				if !ok || !types.Identical(deref(a.Type()), st) {
					continue
				}
				set := false
				for _, ref := range *a.Referrers() {
					switch t := ref.(type) {
					case *ssa.Store:
						set = set || t.Addr == a // a copy
					case *ssa.FieldAddr:
						if t.Field == field {
							for _, u := range *t.Referrers() {
								if s, ok := u.(*ssa.Store); ok && s.Addr == t {
									c, isC := s.Val.(*ssa.Const)
									set = set || !isC || !c.IsNil()
								}
							}
						}
					}
				}
				res = res || !set
			}
		}
	}
	if w.left == nil {
		w.left = map[string]bool{}
	}
	w.left[key] = res
	return res
}

// mapFields knows which map fields are set when their struct is made.
type mapFields struct {
	w  *World
	ok map[string]bool
}

func newMapFields(w *World) *mapFields { return &mapFields{w: w, ok: map[string]bool{}} }

// always: every allocation of the struct sets the field to a made map, and no
// other store to the field can put nil there.
func (m *mapFields) always(fa *Term) bool {
	key := fieldKey(fa.args[0].typ, fa.num)
	if v, ok := m.ok[key]; ok {
		return v
	}
	res := true
	st := deref(fa.args[0].typ)
	for _, fn := range m.w.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch t := in.(type) {
				case *ssa.Alloc:
					if !types.Identical(deref(t.Type()), st) || !t.Heap {
						continue
					}
					set := false
					for _, in2 := range b.Instrs {
						if s, ok := in2.(*ssa.Store); ok {
							if f, ok := s.Addr.(*ssa.FieldAddr); ok && f.X == t && f.Field == fa.num {
								if _, ok := s.Val.(*ssa.MakeMap); ok {
									set = true
								}
							}
						}
					}
					res = res && set
				case *ssa.Store:
					if f, ok := t.Addr.(*ssa.FieldAddr); ok && fieldKey(f.X.Type(), f.Field) == key {
						if _, ok := t.Val.(*ssa.MakeMap); !ok {
							res = false
						}
					}
				}
			}
		}
	}
	m.ok[key] = res
	return res
}
