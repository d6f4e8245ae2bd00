package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// OVar is a resolved variadic argument list.
const OVar = ORange + 1

// resolve works out what a call instruction calls on this path.
func (x *Exec) resolve(fr *Frame, in ssa.CallInstruction) *Call {
	cm := in.Common()
	c := &Call{Instr: in, Common: cm, Fr: fr}
	sig := cm.Signature()
	switch sig.Results().Len() {
	case 0:
	case 1:
		c.Typ = sig.Results().At(0).Type()
	default:
		c.Typ = sig.Results()
	}
	for _, a := range cm.Args {
		c.Args = append(c.Args, x.Val(fr, a))
	}
	if cm.IsInvoke() {
		recv := x.Val(fr, cm.Value)
		c.Method = cm.Method
		c.Name = calleeFullName(cm)
		x.resolveInvoke(c, recv)
		return c
	}
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		c.Name = "builtin." + b.Name()
		return c
	}
	v := x.rep1(x.Val(fr, cm.Value))
	switch v.op {
	case OFunc:
		c.Fn = v.fn
	case OClosure:
		c.Fn = v.fn
		c.Bind = v.args
	}
	x.unthunk(c)
	if c.Fn != nil {
		c.Name = c.Fn.RelString(nil)
		if c.Fn.Origin() != nil && c.Fn.Origin() != c.Fn {
			c.Name = c.Fn.Origin().RelString(nil)
		}
	} else {
		c.Name = "dynamic"
		c.Args = append([]*Term{v}, c.Args...)
	}
	return c
}

// unthunk replaces a bound-method or method-expression wrapper by the method.
func (x *Exec) unthunk(c *Call) {
	f := c.Fn
	if f == nil || f.Synthetic == "" || f.Object() == nil {
		return
	}
	m, ok := f.Object().(*types.Func)
	if !ok {
		return
	}
	sig := m.Type().(*types.Signature)
	if sig.Recv() == nil {
		return
	}
	bound := strings.HasPrefix(f.Synthetic, "bound method wrapper")
	thunk := strings.HasPrefix(f.Synthetic, "thunk")
	if !bound && !thunk {
		return
	}
	args := c.Args
	if bound {
		if len(c.Bind) != 1 {
			return
		}
		args = append([]*Term{c.Bind[0]}, args...)
	}
	if types.IsInterface(sig.Recv().Type()) {
		c.Method = m
		c.Fn, c.Bind = nil, nil
		c.Args = args[1:]
		c.Name = "(" + types.TypeString(sig.Recv().Type(), nil) + ")." + m.Name()
		x.resolveInvoke(c, args[0])
		return
	}
	d := x.w.Prog.FuncValue(m)
	if d == nil {
		return
	}
	// only when the receiver needs no adjustment
	if len(args) > 0 && args[0].typ != nil && types.Identical(args[0].typ, sig.Recv().Type()) {
		c.Fn, c.Bind, c.Args = d, nil, args
	}
}

func (x *Exec) resolveInvoke(c *Call, recv *Term) {
	recv = x.rep1(recv)
	c.Args = append([]*Term{recv}, c.Args...)
	var ct types.Type
	var val *Term
	if recv.op == OIface {
		ct, val = recv.t2, recv.args[0]
	} else if d, ok := x.dyn[recv]; ok {
		ct, val = d, x.asserted(recv, d)
	}
	if ct == nil || types.IsInterface(ct) {
		return
	}
	sel := types.NewMethodSet(ct).Lookup(c.Method.Pkg(), c.Method.Name())
	if sel == nil {
		return
	}
	fn := x.w.Prog.MethodValue(sel)
	if fn == nil {
		return
	}
	c.Fn = fn
	c.Args[0] = val
	c.Name = fn.RelString(nil)
	if d := unwrapPromoted(fn); d != fn {
		c.Name = d.RelString(nil)
		// step through the embedded fields so that the declared method is called
		if v, ok := x.embedded(val, sel.Index(), d); ok {
			c.Fn = d
			c.Args[0] = v
		}
	}
}

// embedded follows a promotion path from a value to the receiver of d.
func (x *Exec) embedded(v *Term, index []int, d *ssa.Function) (*Term, bool) {
	if d.Signature.Recv() == nil {
		return nil, false
	}
	want := d.Signature.Recv().Type()
	cur := v
	for _, i := range index[:len(index)-1] {
		st := structOf(cur.typ)
		if st == nil || i >= st.NumFields() {
			return nil, false
		}
		ft := st.Field(i).Type()
		if _, ptr := cur.typ.Underlying().(*types.Pointer); ptr {
			a := x.ts.Mk(OFieldAddr, types.NewPointer(ft), "", i, cur)
			if _, p := ft.Underlying().(*types.Pointer); p {
				cur = x.Load(a)
			} else {
				cur = a
			}
		} else {
			cur = x.field(cur, i, ft)
		}
	}
	if types.Identical(cur.typ, want) {
		return cur, true
	}
	if p, ok := cur.typ.Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), want) {
		return x.Load(cur), true
	}
	return nil, false
}

func (x *Exec) doCall(fr *Frame, in *ssa.Call, set func(*Term), next func()) {
	c := x.resolve(fr, in)
	x.perform(c, func(res *Term) {
		set(res)
		next()
	})
}

func (x *Exec) doCallOpaque(fr *Frame, in ssa.CallInstruction) {
	c := x.resolve(fr, in)
	if x.H.Call != nil {
		x.H.Call(x, c)
	}
	x.opaqueEffects(c)
}

// perform makes a call and continues once per outcome.
func (x *Exec) perform(c *Call, k func(res *Term)) {
	if strings.HasPrefix(c.Name, "builtin.") {
		if x.H.Call != nil {
			x.H.Call(x, c)
		}
		x.builtin(c, k)
		return
	}
	if x.H.Call != nil {
		x.H.Call(x, c)
	}
	if x.H.Model != nil && x.H.Model(x, c, k) {
		return
	}
	if x.defaultModel(c, k) {
		return
	}
	if c.Fn != nil && c.Fn.Blocks != nil && x.mayInline(c) && x.H.Inline != nil && x.H.Inline(x, c) {
		x.event(&Event{Kind: "enter", Name: c.Name, Fn: c.Fn, Args: c.Args, Instr: c.Instr, Fr: c.Fr})
		x.enter(c.Fr, c.Instr, c.Fn, c.Args, c.Bind, func(res *Term) {
			x.event(&Event{Kind: "leave", Name: c.Name, Fn: c.Fn, Args: c.Args, Res: res, Instr: c.Instr, Fr: c.Fr})
			k(res)
		})
		return
	}
	k(x.Opaque(c))
}

// mayInline: the callee's body is available and following it is finite.
func (x *Exec) mayInline(c *Call) bool {
	if !x.w.IsMain(c.Fn) && (x.w.SMap == nil || c.Fn.Pkg != x.w.SMap) && !isAuxPkg(c.Fn) {
		return false
	}
	if c.Fr != nil {
		n := 0
		for f := c.Fr; f != nil; f = f.parent {
			n += a2i(f.fn == c.Fn)
		}
		if n > x.H.Recurse || c.Fr.depth > 24 {
			return false
		}
	}
	return true
}

func isAuxPkg(fn *ssa.Function) bool {
	return fn.Pkg != nil && fn.Pkg.Pkg.Path() == tristatePath
}

// Opaque performs a call whose body is not followed.
func (x *Exec) Opaque(c *Call) *Term {
	args := x.vargs(c)
	res := x.opaqueResult(c, args)
	x.opaqueEffects(c)
	x.event(&Event{Kind: "call", Name: c.Name, Fn: c.Fn, Args: args, Res: res, Instr: c.Instr, Fr: c.Fr})
	if x.H.After != nil {
		x.H.After(x, c, res)
	}
	return res
}

func (x *Exec) opaqueResult(c *Call, args []*Term) *Term {
	num := 0
	if !x.pureCall(c, args) {
		x.nframe++
		num = x.nframe
	}
	if c.Typ == nil {
		return nil
	}
	return x.ts.intern(&Term{op: OCall, aux: c.Name, num: num, typ: c.Typ, fn: c.Fn, args: args}, "")
}

// vargs resolves the variadic argument list when it is built at the call.
func (x *Exec) vargs(c *Call) []*Term {
	sig := c.Common.Signature()
	if !sig.Variadic() || len(c.Args) == 0 {
		return c.Args
	}
	last := c.Args[len(c.Args)-1]
	if last.op == ONil {
		return append(append([]*Term{}, c.Args[:len(c.Args)-1]...), x.ts.Mk(OVar, last.typ, "", 0))
	}
	if es, ok := x.sliceElems(last); ok {
		return append(append([]*Term{}, c.Args[:len(c.Args)-1]...), x.ts.Mk(OVar, last.typ, "", 0, es...))
	}
	return c.Args
}

// sliceElems lists the elements of a slice literal.
func (x *Exec) sliceElems(s *Term) ([]*Term, bool) {
	if s.op == OVar {
		return s.args, true
	}
	if s.op == ONil {
		return nil, true
	}
	if s.op == OAlloc {
		if arr, ok := deref(s.typ).Underlying().(*types.Array); ok {
			s = x.ts.Mk(OSlice, types.NewSlice(arr.Elem()), "", 0, s, x.ts.Int(0), x.ts.Int(arr.Len()))
		}
	}
	off := int64(0)
	base := s
	for base.op == OSlice && base.args[0].op == OSlice && !isStringType(base.typ) {
		base = base.args[0]
		n, ok := x.constInt(base.args[1])
		if !ok {
			return nil, false
		}
		off += n
	}
	if base.op != OSlice || base.args[0].op != OAlloc {
		return nil, false
	}
	arr, ok := deref(base.args[0].typ).Underlying().(*types.Array)
	if !ok || arr.Len() > 64 {
		return nil, false
	}
	lo, ok1 := x.constInt(s.args[1])
	hi, ok2 := x.constInt(s.args[2])
	if ok2 && base == s && hi < lo {
		return nil, false
	}
	lo, hi = lo+off, hi+off
	if !ok1 || !ok2 || lo < 0 || hi > arr.Len() {
		return nil, false
	}
	s = base
	var out []*Term
	for i := lo; i < hi; i++ {
		a := x.ts.Mk(OIndexAddr, types.NewPointer(arr.Elem()), "", 0, s.args[0], x.ts.Int(i))
		out = append(out, x.Load(a))
	}
	return out, true
}

// constInt is the value of an integer term that is known.
func (x *Exec) constInt(t *Term) (int64, bool) {
	if n, ok := t.IntVal(); ok {
		return n, true
	}
	if !isInt(t.typ) {
		return 0, false
	}
	l := x.Lin(t)
	return l.c, len(l.v) == 0
}

// opaqueEffects forgets what an unknown call may change.
func (x *Exec) opaqueEffects(c *Call) {
	var ms *modSet
	switch {
	case c.Fn != nil && c.Fn.Blocks != nil && (x.w.IsMain(c.Fn)):
		ms = x.ModOf(c.Fn)
	case c.Fn != nil:
		ms = newModSet()
		x.modExternal(c.Fn, c.Common, ms)
	case c.Method != nil:
		ms = newModSet()
		for _, f := range x.w.Implementers(c.Common.Value.Type(), c.Method) {
			ms.merge(x.ModOf(f))
		}
	default:
		ms = newModSet()
		ms.all, ms.reflect = true, true
	}
	ext := c.Fn != nil && !x.w.IsMain(c.Fn)
	for _, a := range c.Args {
		if ext && pureExternal(c.Name) {
			break
		}
		x.escape(a)
	}
	for _, a := range c.Bind {
		x.escape(a)
	}
	cp := *ms
	cp.allocs = nil
	cp.rset = false
	if ms.reflect || ms.all {
		for _, a := range c.Args {
			if a.typ != nil && isReflectValue(a.typ) {
				x.bumpVal(a)
			}
		}
	}
	x.havoc(&cp)
}

var purePkgs = []string{"strings.", "strconv.", "unicode.", "unicode/utf8.", "unicode/utf16.", "math.", "net/url.QueryEscape", "net/url.PathEscape",
	"fmt.Sprint", "fmt.Errorf", "errors.", "yunion.io/x/pkg/errors.", "yunion.io/x/pkg/util/timeutils.", "yunion.io/x/pkg/utils.", "yunion.io/x/pkg/util/regutils.",
	"time.Parse", "(time.Time).", "yunion.io/x/log.", "path.", "bytes."}

func pureExternal(name string) bool {
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// pureCall: two calls with the same arguments give the same result.
func (x *Exec) pureCall(c *Call, args []*Term) bool {
	if !pureExternal(c.Name) || c.Name == "errors.New" {
		return false
	}
	for _, a := range args {
		if !immutableTerm(a) {
			return false
		}
	}
	return true
}

func immutableTerm(a *Term) bool {
	if a.op == OVar {
		for _, e := range a.args {
			if !immutableTerm(e) {
				return false
			}
		}
		return true
	}
	if a.op == OIface {
		return immutableTerm(a.args[0])
	}
	if a.typ == nil {
		return a.op == ORType
	}
	switch a.typ.Underlying().(type) {
	case *types.Basic:
		return true
	}
	return isErrorType(a.typ)
}

func (x *Exec) builtin(c *Call, k func(*Term)) {
	ts := x.ts
	switch c.Name[len("builtin."):] {
	case "len":
		k(x.LenOf(c.Args[0]))
	case "cap":
		k(ts.Mk(OCap, types.Typ[types.Int], "", 0, c.Args[0]))
	case "append":
		a, b := c.Args[0], c.Args[1]
		if es, ok := x.sliceElems(b); ok && b.op == OSlice {
			b = ts.Mk(OVar, b.typ, "", 0, es...)
		}
		x.nframe++
		r := ts.intern(&Term{op: OAppend, num: x.nframe, typ: c.Typ, args: []*Term{a, b}}, "")
		x.event(&Event{Kind: "append", Args: []*Term{a, b}, Res: r, Instr: c.Instr, Fr: c.Fr})
		x.escape(c.Args[1])
		k(r)
	case "copy":
		x.event(&Event{Kind: "copy", Args: c.Args, Instr: c.Instr, Fr: c.Fr})
		if s, ok := c.Args[0].typ.Underlying().(*types.Slice); ok {
			x.havoc(&modSet{keys: map[string]bool{"E:" + typeKey(s.Elem()): true}})
		}
		n := ts.Fresh("copied", types.Typ[types.Int], nil)
		x.addLin(linVar(n))
		k(n)
	case "delete", "clear":
		x.event(&Event{Kind: "mapdel", Args: c.Args, Instr: c.Instr, Fr: c.Fr})
		x.havoc(&modSet{keys: map[string]bool{"M:" + typeKey(c.Args[0].typ): true}})
		x.dropMapCells(c.Args[0])
		k(nil)
	case "min", "max":
		r := ts.Fresh(c.Name[len("builtin."):], c.Typ, nil)
		if isIntType(c.Typ) {
			for _, a := range c.Args {
				d := x.Lin(a).sub(linVar(r))
				if strings.HasSuffix(c.Name, "max") {
					d = d.neg()
				}
				x.addLin(d)
			}
		}
		k(r)
	case "recover":
		k(ts.Nil(c.Typ))
	case "ssa:wrapnilchk":
		k(c.Args[0])
	default:
		if c.Typ == nil {
			k(nil)
			return
		}
		k(ts.Fresh(c.Name, c.Typ, nil))
	}
}

func (x *Exec) dropMapCells(m *Term) {
	for c := range x.snapshotCells() {
		if c.op == OIndexAddr && c.aux == "map" {
			delMap(x, x.cells, c)
		}
	}
}

// --- globals --------------------------------------------------------------

type globalInfo struct {
	init   ssa.Value // value stored by initialisation, if it is the only store
	stores int
	pure   bool
}

func (w *World) globals() map[*ssa.Global]*globalInfo {
	if w.globs != nil {
		return w.globs
	}
	w.globs = map[*ssa.Global]*globalInfo{}
	get := func(g *ssa.Global) *globalInfo {
		gi := w.globs[g]
		if gi == nil {
			gi = &globalInfo{pure: true}
			w.globs[g] = gi
		}
		return gi
	}
	for _, p := range w.Prog.AllPackages() {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				get(g)
			}
		}
	}
	for _, fn := range w.allFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch t := in.(type) {
				case *ssa.Store:
					if g, ok := t.Addr.(*ssa.Global); ok {
						gi := get(g)
						gi.stores++
						if isInitFn(fn) {
							gi.init = t.Val
						} else {
							gi.pure = false
						}
						if v, ok := t.Val.(*ssa.Global); ok {
							get(v).pure = false
						}
						continue
					}
					if g, ok := t.Val.(*ssa.Global); ok {
						get(g).pure = false
					}
				case *ssa.UnOp:
				default:
					// the address is used for something else than a load
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							if _, fa := in.(*ssa.FieldAddr); fa {
								continue
							}
							if _, ia := in.(*ssa.IndexAddr); ia {
								continue
							}
							if _, dr := in.(*ssa.DebugRef); dr {
								continue
							}
							get(g).pure = false
						}
					}
				}
			}
		}
	}
	return w.globs
}

func isInitFn(fn *ssa.Function) bool {
	return fn.Parent() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) && fn.Signature.Recv() == nil
}

// globalValue gives the value of a global that only initialisation sets.
func (x *Exec) globalValue(addr *Term, typ types.Type) *Term {
	g, ok := addr.val.(*ssa.Global)
	if !ok {
		return nil
	}
	gi := x.w.globals()[g]
	if gi == nil || !gi.pure || gi.stores > 1 || g.Name() == "init$guard" {
		return nil
	}
	if gi.stores == 0 {
		if g.Pkg == nil || !x.w.hasSource(g.Pkg) {
			return nil
		}
		if _, st := typ.Underlying().(*types.Struct); st {
			return nil
		}
		return nil
	}
	if gi.init == nil {
		return nil
	}
	if v := x.initValue(gi.init, 0); v != nil {
		return v
	}
	// an unknown but fixed value
	r := x.ts.intern(&Term{op: OGlobal, aux: "*" + g.RelString(nil), typ: typ, val: g}, "v")
	return r
}

func (x *Exec) initValue(v ssa.Value, d int) *Term {
	if d > 8 {
		return nil
	}
	switch t := v.(type) {
	case *ssa.Const:
		if t.Value == nil {
			return x.ts.ZeroOf(t.Type())
		}
		return x.ts.Const(t.Value, t.Type())
	case *ssa.MakeInterface:
		in := x.initValue(t.X, d+1)
		if in == nil {
			in = x.ts.FreshNamed("initval:"+t.X.Type().String(), t.X.Type())
		}
		return x.ts.MkT(OIface, t.Type(), t.X.Type(), "", 0, in)
	case *ssa.UnOp:
		if g, ok := t.X.(*ssa.Global); ok {
			return x.Load(x.ts.intern(&Term{op: OGlobal, aux: g.RelString(nil), typ: g.Type(), val: g}, ""))
		}
	case *ssa.ChangeType:
		return x.initValue(t.X, d+1)
	case *ssa.Call:
		c := t.Common()
		f := c.StaticCallee()
		name := ""
		if f != nil {
			name = f.RelString(nil)
		} else if c.IsInvoke() {
			name = calleeFullName(c)
		}
		switch name {
		case "reflect.TypeOf":
			if mi, ok := c.Args[0].(*ssa.MakeInterface); ok {
				return x.ts.RType(mi.X.Type())
			}
		case "(reflect.Type).Elem":
			if b := x.initValue(c.Value, d+1); b != nil && b.op == ORType {
				if e := elemType(b.t2); e != nil {
					return x.ts.RType(e)
				}
			}
		case "reflect.ValueOf":
			if a := x.initValue(c.Args[0], d+1); a != nil {
				return x.ts.intern(&Term{op: OCall, aux: "reflect.ValueOf", typ: t.Type(), args: []*Term{a}}, "")
			}
		}
		if f != nil && isNewErr(name) {
			return nil
		}
	}
	return nil
}

func isNewErr(n string) bool { return n == "errors.New" || n == "yunion.io/x/pkg/errors.New" }

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

// kindOfType is reflect.Kind of a static type.
func kindOfType(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

const (
	kInvalid   = 0
	kBool      = 1
	kInt       = 2
	kInt64     = 6
	kUint      = 7
	kUint64    = 11
	kUintptr   = 12
	kFloat32   = 13
	kFloat64   = 14
	kArray     = 17
	kChan      = 18
	kFunc      = 19
	kInterface = 20
	kMap       = 21
	kPtr       = 22
	kSlice     = 23
	kString    = 24
	kStruct    = 25
	kUnsafe    = 26
)

var kindNames = []string{"Invalid", "Bool", "Int", "Int8", "Int16", "Int32", "Int64", "Uint", "Uint8", "Uint16", "Uint32", "Uint64", "Uintptr",
	"Float32", "Float64", "Complex64", "Complex128", "Array", "Chan", "Func", "Interface", "Map", "Ptr", "Slice", "String", "Struct", "UnsafePointer"}

func kindSetString(s Set) string {
	var out []string
	for i, n := range kindNames {
		if s.Has(i) {
			out = append(out, n)
		}
	}
	if len(out) > 8 {
		out = append(out[:8], fmt.Sprintf("…(%d kinds)", s.Count()))
	}
	return strings.Join(out, "|")
}

// kindTerm is the kind of a reflect.Type term.
func (x *Exec) kindTerm(rt *Term) *Term {
	if rt.op == ORType {
		return x.ts.Const(constant.MakeInt64(int64(kindOfType(rt.t2))), x.kindType())
	}
	return x.ts.intern(&Term{op: OCall, aux: "kind", typ: x.kindType(), args: []*Term{rt}}, "")
}

func (x *Exec) kindType() types.Type {
	if x.kindT == nil {
		for _, p := range x.w.Main.Pkg.Imports() {
			if p.Path() == "reflect" {
				x.kindT = p.Scope().Lookup("Kind").Type()
			}
		}
		if x.kindT == nil {
			x.kindT = types.Typ[types.Uint]
		}
	}
	return x.kindT
}
