package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C09"] = check{explainC09, runC09} }

const explainC09 = "Path-sensitive interpretation of every function that reaches package reflect; recursive node and marshal methods are cut and what their reflect.Value parameters satisfy (valid, addressable, not through an unexported field) is inferred from all call sites. At every reflection operation on every path the set of kinds, assignability, settability and index bounds that are possible must satisfy the operation's precondition."

// kinds each operation of reflect.Value supports
var rvKinds = map[string]Set{
	"IsNil": kset(kChan, kFunc, kInterface, kMap, kPtr, kSlice, kUnsafe), "Elem": kset(kInterface, kPtr),
	"Len": kset(kArray, kChan, kMap, kSlice, kString), "Cap": kset(kArray, kChan, kSlice), "Index": kset(kArray, kSlice, kString),
	"SetLen": kset(kSlice), "SetCap": kset(kSlice), "Grow": kset(kSlice), "SetInt": rangeSet(2, 6), "SetUint": rangeSet(7, 12), "SetFloat": rangeSet(13, 14),
	"SetComplex": rangeSet(15, 16), "SetBool": kset(kBool), "SetString": kset(kString), "SetMapIndex": kset(kMap),
	"MapKeys": kset(kMap), "MapIndex": kset(kMap), "MapRange": kset(kMap), "NumField": kset(kStruct), "Field": kset(kStruct),
	"FieldByName": kset(kStruct), "FieldByIndex": kset(kStruct), "FieldByNameFunc": kset(kStruct),
	"Int": rangeSet(2, 6), "Uint": rangeSet(7, 12), "Float": rangeSet(13, 14), "Bool": kset(kBool), "Complex": rangeSet(15, 16),
	"Call": kset(kFunc), "CallSlice": kset(kFunc), "Bytes": kset(kSlice, kArray), "SetBytes": kset(kSlice), "Slice": kset(kArray, kSlice, kString),
	"Pointer": kset(kChan, kFunc, kMap, kPtr, kSlice, kString, kUnsafe), "SetPointer": kset(kUnsafe), "OverflowInt": rangeSet(2, 6), "OverflowUint": rangeSet(7, 12), "OverflowFloat": rangeSet(13, 14),
	"Send": kset(kChan), "Recv": kset(kChan), "Close": kset(kChan),
}

// operations that panic on the zero Value only
var rvNeedsValid = map[string]bool{"Type": true, "Interface": true, "Convert": true, "MethodByName": true, "Method": true, "NumMethod": true, "Addr": true, "Set": true,
	"SetZero": true, "IsZero": true, "CanConvert": true, "Comparable": true}

var rvNoNeed = map[string]bool{"Kind": true, "IsValid": true, "CanAddr": true, "CanSet": true, "String": true, "CanInterface": true, "CanInt": true,
	"CanUint": true, "CanFloat": true, "CanComplex": true, "UnsafeAddr": false}

var rtKinds = map[string]Set{"Elem": kset(kArray, kChan, kMap, kPtr, kSlice), "Key": kset(kMap), "NumField": kset(kStruct), "Field": kset(kStruct),
	"Len": kset(kArray), "NumIn": kset(kFunc), "NumOut": kset(kFunc), "In": kset(kFunc), "Out": kset(kFunc), "IsVariadic": kset(kFunc),
	"FieldByName": kset(kStruct), "FieldByIndex": kset(kStruct), "FieldByNameFunc": kset(kStruct)}

var debugOn = os.Getenv("ANDEBUG") != ""

type refCheck struct {
	*Obls
	rf    *Refl
	rules map[string]int
}

func runC09(w *World, r *Rep) {
	rf := NewRefl(w)
	rc := &refCheck{Obls: newObls(w, r), rf: rf}
	rf.Call = rc.call
	rf.Instr = rc.instr
	rf.Run()
	rc.finish()
	for _, f := range rf.fallout {
		r.Bad("undecided", f, "paths", "-", "too many paths to decide")
	}
	var names []string
	for _, f := range rf.order {
		r.Visit(fnName(f))
		names = append(names, fnName(f))
	}
	sort.Strings(names)
	r.Notes = append(r.Notes, fmt.Sprintf("%d paths; boundary functions: %s", rf.paths, strings.Join(names, ", ")))
	r.Assume = append(r.Assume,
		"the target of Unmarshal is a non-nil pointer and reflect.Value parameters of exported functions are valid",
		"different reflect.Values of one path denote different variables; reflect.Values kept in structs, slices and maps are valid, settable field values",
		"reflectutils.FetchStructFieldValueSet returns exported fields with their embedded pointer parents",
		"the gotypes registry returns a pointer that implements the interface it was registered for",
		"custom encoders and decoders themselves do not panic")
	r.AtLeast("kind", 20)
	r.AtLeast("assignable", 10)
}

func (rc *refCheck) call(x *Exec, c *Call) {
	n := c.Name
	switch {
	case strings.HasPrefix(n, "(reflect.Value)."):
		rc.value(x, c, n[len("(reflect.Value)."):])
	case strings.HasPrefix(n, "(reflect.Type)."):
		rc.typ(x, c, n[len("(reflect.Type)."):])
	case strings.HasPrefix(n, "reflect."):
		rc.fun(x, c, n[len("reflect."):])
	}
}

func (rc *refCheck) ob(x *Exec, c *Call, rule, what string, ok bool, format string, a ...any) {
	in := c.Instr.(ssa.Instruction)
	rc.need(c.Fr, in, rule, what, ok, format, a...)
}

func argName(c *Call, i int) string {
	as := c.Common.Args
	if c.Common.IsInvoke() {
		if i == 0 {
			return opName(c.Common.Value)
		}
		i--
	}
	if i < len(as) {
		return opName(as[i])
	}
	return "?"
}

func (rc *refCheck) why(fn *ssa.Function) string {
	if s := rc.rf.reasons(fn); s != "" {
		return " [" + s + "]"
	}
	return ""
}

func (rc *refCheck) value(x *Exec, c *Call, m string) {
	v := c.Args[0]
	nm := argName(c, 0)
	name := nm + "." + m
	fn := c.Fr.fn
	if ks, ok := rvKinds[m]; ok {
		have := x.KindOf(v)
		if m == "Len" && have.Has(kPtr) && ptrToArray(x, v) {
			have = have.Minus(kset(kPtr))
		}
		bad := have.Minus(ks)
		rc.ob(x, c, "kind", name, bad.Empty(), "%s is applied to a value that may be of kind %s%s", m, kindSetString(bad), rc.why(fn))
	} else if rvNeedsValid[m] {
		rc.ob(x, c, "valid", name, x.rvValid(v), "%s is applied to a value that may be invalid%s", m, rc.why(fn))
	} else if !rvNoNeed[m] {
		rc.ob(x, c, "operation", name, false, "the precondition of %s is not known to the analysis", m)
	}
	switch m {
	case "Set", "SetInt", "SetUint", "SetFloat", "SetComplex", "SetBool", "SetString", "SetLen", "SetCap", "SetZero", "SetBytes", "Grow":
		ok := x.flag("rv.CanSet", v) || x.rvAddressable(v) && x.rvROFree(v)
		if !ok && x.rvROFree(v) && m != "Set" && m != "SetZero" && m != "Grow" {
			// kinds other than Ptr: the value itself must be addressable
			ok = x.flag("rv.addrOrPtr", v) && !x.KindOf(v).Has(kPtr)
		}
		if !ok && (m == "Set") && isNilPtrGuard(x, v) {
			ok = x.rvROFree(v)
		}
		rc.ob(x, c, "settable", name, ok, "%s may be given a value that cannot be set%s", m, rc.whyAddr(fn))
	}
	switch m {
	case "Set":
		a := c.Args[1]
		rc.ob(x, c, "valid", name+"(data)", x.rvValid(a), "the value that is stored may be invalid")
		as := x.AssignableVal(a, v)
		rc.ob(x, c, "assignable", name, as == 1, "a value of type %s may not be assignable to the target of type %s (kinds %s)", x.TypeOfVal(a), x.TypeOfVal(v), kindSetString(x.KindOf(v)))
		rc.ob(x, c, "exported", name+"(data)", x.rvROFree(a), "the value that is stored may come from an unexported field")
	case "SetMapIndex":
		mt := x.TypeOfVal(v)
		nilv, known := x.Eval(x.rvIsNil(v))
		if !known || nilv {
			rc.ob(x, c, "nil map", name, false, "the map may be nil")
		} else {
			rc.ob(x, c, "nil map", name, true, "")
		}
		rc.ob(x, c, "assignable", name+"(key)", x.typAssign(x.TypeOfVal(c.Args[1]), x.mapKeyType(mt)) == 1, "the key of type %s may not be assignable to the map's key type", x.TypeOfVal(c.Args[1]))
		if isRefVal(c.Args[2], "rv.Invalid") {
			break
		}
		rc.ob(x, c, "assignable", name+"(elem)", x.typAssign(x.TypeOfVal(c.Args[2]), x.typElem(mt)) == 1, "the element of type %s may not be assignable to the map's element type", x.TypeOfVal(c.Args[2]))
	case "MapIndex":
		k := c.Args[1]
		rc.ob(x, c, "assignable", name+"(key)", keyOfMap(v, k) || x.typAssign(x.TypeOfVal(k), x.mapKeyType(x.TypeOfVal(v))) == 1, "the key may not be assignable to the map's key type")
	case "Index":
		i := c.Args[1]
		n := x.rvInt("Len", v)
		if debugOn {
			fmt.Println("INDEX", rc.w.Pos(c.Pos()), "v", v, "i", i, "len", n, n.num)
			for _, l := range x.lin {
				fmt.Println("   ", l.String())
			}
		}
		rc.ob(x, c, "index", name+"("+argName(c, 1)+")", !x.wraps(i) && x.EntailsSplit(x.Lin(i)) && x.EntailsSplit(x.Lin(n).sub(x.Lin(i)).plus(-1)), "the index may be outside 0..Len-1")
	case "Slice":
		rc.ob(x, c, "index", name, false, "the bounds of the slice are not checked by the analysis")
	case "Field":
		i := c.Args[1]
		nf := x.mkCall("rv.NumField", 0, types.Typ[types.Int], v)
		tf := x.mkCall("typ.NumField", 0, types.Typ[types.Int], x.TypeOfVal(v))
		ok := x.EntailsSplit(x.Lin(i)) && (x.EntailsSplit(x.Lin(nf).sub(x.Lin(i)).plus(-1)) || x.EntailsSplit(x.Lin(tf).sub(x.Lin(i)).plus(-1)))
		rc.ob(x, c, "index", name+"("+argName(c, 1)+")", ok, "the field index may be outside 0..NumField-1")
	case "SetLen":
		n := c.Args[1]
		cp := x.rvInt("Cap", v)
		rc.ob(x, c, "index", name, x.EntailsSplit(x.Lin(n)) && x.EntailsSplit(x.Lin(cp).sub(x.Lin(n))), "the new length may be negative or exceed the capacity")
	case "Addr":
		rc.ob(x, c, "addressable", name, x.rvAddressable(v), "Addr may be applied to a value that is not addressable%s", rc.whyAddr(fn))
	case "Interface":
		rc.ob(x, c, "exported", name, x.rvROFree(v), "Interface may be applied to a value reached through an unexported field")
	case "Call":
		rc.ob(x, c, "exported", name, x.rvROFree(v), "Call may be applied to a method reached through an unexported field")
		nil0, known := x.Eval(x.rvIsNil(v))
		rc.ob(x, c, "nil func", name, isRefVal(v, "rv.MethodByName") || known && !nil0, "a nil function may be called")
		rc.ob(x, c, "arguments", name, rc.callArgs(x, c, v), "the function may take other arguments than it is given")
	case "Convert":
		rc.ob(x, c, "convertible", name, rc.convertible(x, x.TypeOfVal(v), c.Args[1]), "a value of kinds %s may not be convertible to %s", kindSetString(x.KindOf(v)), x.rep1(c.Args[1]))
	}
}

func ptrToArray(x *Exec, v *Term) bool {
	ks := x.KindsOfType(x.typElem(x.TypeOfVal(v)))
	return ks.Minus(kset(kArray)).Empty()
}

// isNilPtrGuard: a nil pointer can only be replaced when it is addressable;
// values handed to boundary functions are addressable or non-nil pointers.
func isNilPtrGuard(x *Exec, v *Term) bool {
	if !x.flag("rv.addrOrPtr", v) {
		return false
	}
	n, known := x.Eval(x.rvIsNil(v))
	return known && n
}

func (rc *refCheck) whyAddr(fn *ssa.Function) string {
	var out []string
	for k, why := range rc.rf.dead {
		if debugOn || k.fn == fn && k.p != pValid {
			out = append(out, why)
		}
	}
	if len(out) == 0 {
		return ""
	}
	sort.Strings(out)
	return " [" + strings.Join(out, "; ") + "]"
}

func (x *Exec) mapKeyType(t *Term) *Term {
	t = x.rep1(t)
	if t.op == ORType {
		if mt, ok := t.t2.Underlying().(*types.Map); ok {
			return x.ts.RType(mt.Key())
		}
	}
	return x.mkCall("typ.Key", 0, nil, t)
}

func (x *Exec) typAssign(a, b *Term) int { return x.Assignable(a, b) }

// AssignableVal is Assignable for values.
func (x *Exec) AssignableVal(a, b *Term) int {
	ta, tb := x.TypeOfVal(a), x.TypeOfVal(b)
	if r := x.Assignable(ta, tb); r >= 0 {
		return r
	}
	// the fixed values of tristate hold the type their variable was made from
	return -1
}

func (rc *refCheck) callArgs(x *Exec, c *Call, v *Term) bool {
	es, ok := x.sliceElems(c.Args[1])
	if !ok {
		return c.Args[1].op == OMake && len(c.Args[1].args) > 0 && isZeroInt(c.Args[1].args[0]) && rc.numIn(x, v, 0)
	}
	return len(es) == 0 && rc.numIn(x, v, 0)
}

func isZeroInt(t *Term) bool { n, ok := t.IntVal(); return ok && n == 0 }

func (rc *refCheck) numIn(x *Exec, v *Term, n int64) bool {
	t := x.rep1(x.TypeOfVal(v))
	ni := x.mkCall("typ.NumIn", 0, types.Typ[types.Int], t)
	d := x.Lin(ni).plus(-n)
	if x.EntailsSplit(d) && x.EntailsSplit(d.neg()) {
		return true
	}
	if e, ok := x.rep1(ni).IntVal(); ok && e == n {
		return true
	}
	return false
}

func (rc *refCheck) convertible(x *Exec, from, to *Term) bool {
	to = x.rep1(to)
	from = x.rep1(from)
	if x.Assignable(from, to) == 1 {
		return true
	}
	if v, ok := x.truth[x.mkCall("typ.ConvertibleTo", 0, types.Typ[types.Bool], from, to)]; ok && v {
		return true
	}
	if from.op == ORType && to.op == ORType {
		return types.ConvertibleTo(from.t2, to.t2)
	}
	num := rangeSet(2, 14)
	fk, tk := x.KindsOfType(from), x.KindsOfType(to)
	sub := func(a, b Set) bool { return a.Minus(b).Empty() }
	switch {
	case sub(fk, num) && sub(tk, num):
		return true
	case sub(fk, rangeSet(2, 12).Or(kset(kString))) && sub(tk, kset(kString)):
		return true
	case sub(fk, kset(kBool)) && sub(tk, kset(kBool)), sub(fk, rangeSet(15, 16)) && sub(tk, rangeSet(15, 16)):
		return true
	}
	// what the registry returns for an interface implements it
	if from.op == OCall && from.aux == "dyn" && from.args[0].any(func(t *Term) bool {
		return t.op == OCall && strings.HasSuffix(t.aux, "gotypes.NewSerializable") && len(t.args) == 1 && x.rep1(t.args[0]) == to
	}) {
		return true
	}
	return false
}

func (rc *refCheck) typ(x *Exec, c *Call, m string) {
	t := x.rep1(c.Args[0])
	name := argName(c, 0) + "." + m
	if ks, ok := rtKinds[m]; ok {
		bad := x.KindsOfType(t).Minus(ks)
		rc.ob(x, c, "type kind", name, bad.Empty(), "Type.%s is applied to a type that may be of kind %s%s", m, kindSetString(bad), rc.why(c.Fr.fn))
	}
	switch m {
	case "Field":
		i := c.Args[1]
		ok := x.EntailsSplit(x.Lin(i))
		tf := x.mkCall("typ.NumField", 0, types.Typ[types.Int], t)
		in := x.EntailsSplit(x.Lin(tf).sub(x.Lin(i)).plus(-1))
		if t.op == OCall && t.aux == "typ" && !in {
			vf := x.mkCall("rv.NumField", 0, types.Typ[types.Int], t.args[0])
			in = x.EntailsSplit(x.Lin(vf).sub(x.Lin(i)).plus(-1))
		}
		if !in {
			for _, v := range x.valuesOfType(t) {
				vf := x.mkCall("rv.NumField", 0, types.Typ[types.Int], v)
				in = in || x.EntailsSplit(x.Lin(vf).sub(x.Lin(i)).plus(-1))
			}
		}
		rc.ob(x, c, "index", name, ok && in, "the field index may be outside 0..NumField-1")
	case "Implements":
		ks := x.KindsOfType(x.rep1(c.Args[1]))
		u := x.rep1(c.Args[1])
		rc.ob(x, c, "type kind", name+"(arg)", u.op != ORType || ks.Minus(kset(kInterface)).Empty(), "Implements is given a type that is not an interface")
	case "In", "Out", "Method":
		rc.ob(x, c, "index", name, false, "the index is not checked by the analysis")
	}
}

// valuesOfType: reflect.Values of this path whose type term is t.
func (x *Exec) valuesOfType(t *Term) []*Term {
	var out []*Term
	for _, e := range x.Events {
		if e.Kind == "rv" && strings.HasSuffix(e.Name, ".NumField") && len(e.Args) > 0 && x.TypeOfVal(e.Args[0]) == t {
			out = append(out, e.Args[0])
		}
	}
	return out
}

func (rc *refCheck) fun(x *Exec, c *Call, m string) {
	name := "reflect." + m
	switch m {
	case "New", "Zero", "PtrTo", "PointerTo":
		t := c.Args[0]
		rc.ob(x, c, "type", name, t.op != ONil, "a nil type may be given to %s", m)
	case "MakeSlice":
		bad := x.KindsOfType(x.rep1(c.Args[0])).Minus(kset(kSlice))
		rc.ob(x, c, "type kind", name, bad.Empty(), "MakeSlice may be given a type of kind %s", kindSetString(bad))
		n, k := c.Args[1], c.Args[2]
		rc.ob(x, c, "index", name, x.EntailsSplit(x.Lin(n)) && x.EntailsSplit(x.Lin(k).sub(x.Lin(n))), "the length given to MakeSlice may be negative or exceed the capacity")
	case "MakeMap", "MakeMapWithSize":
		bad := x.KindsOfType(x.rep1(c.Args[0])).Minus(kset(kMap))
		rc.ob(x, c, "type kind", name, bad.Empty(), "%s may be given a type of kind %s", m, kindSetString(bad))
	case "ValueOf", "TypeOf", "Indirect", "DeepEqual":
	default:
		rc.ob(x, c, "operation", name, false, "the precondition of reflect.%s is not known to the analysis", m)
	}
}

func (rc *refCheck) instr(x *Exec, fr *Frame, in ssa.Instruction) {
	t, ok := in.(*ssa.TypeAssert)
	if !ok || t.CommaOk {
		return
	}
	v := x.Val(fr, t.X)
	is, known := x.Eval(x.isType(v, t.AssertedType))
	good := known && is
	if !good && !known && fromSmap(v) && rc.w.isNodeIface(t.AssertedType) {
		good = v.op != ONil
	}
	if !good && !known && v.op == OLoad {
		// kept by this package: what the field is given decides
		good = rc.w.fieldAlways(v.args[0], t.AssertedType)
	}
	rc.need(fr, in, "assertion", opName(t), good, "%s may hold another type or nothing", opName(t.X))
}

// fieldAlways: every value stored in the field, other than nil, is known to be
// of the asserted type where it is stored.
func (w *World) fieldAlways(addr *Term, t types.Type) bool {
	if addr.op != OFieldAddr {
		return false
	}
	key := fieldKey(addr.args[0].typ, addr.num)
	found := false
	for _, fn := range w.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if types.Identical(deref(st.Addr.Type()), deref(addr.args[0].typ)) {
					// a whole struct is stored
					if _, isC := st.Val.(*ssa.Const); !isC {
						return false
					}
					continue
				}
				f, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldKey(f.X.Type(), f.Field) != key {
					continue
				}
				if !w.storedType(st, st.Val, t, 0) {
					return false
				}
				found = true
			}
		}
	}
	return found
}

func (w *World) storedType(at *ssa.Store, v ssa.Value, t types.Type, d int) bool {
	if d > 6 {
		return false
	}
	switch s := v.(type) {
	case *ssa.Const:
		return s.Value == nil
	case *ssa.MakeInterface:
		return types.Identical(s.X.Type(), t)
	case *ssa.ChangeInterface:
		if w.storedType(at, s.X, t, d+1) {
			return true
		}
	case *ssa.Phi:
		for _, e := range s.Edges {
			if !w.storedType(at, e, t, d+1) {
				return false
			}
		}
		return true
	}
	// guarded by a successful test of the same value
	if v.Referrers() != nil {
		for _, r := range *v.Referrers() {
			ta, ok := r.(*ssa.TypeAssert)
			if !ok || !types.Identical(ta.AssertedType, t) {
				continue
			}
			if !ta.CommaOk {
				if ta.Block().Dominates(at.Block()) {
					return true
				}
				continue
			}
			for _, e := range *ta.Referrers() {
				ex, ok := e.(*ssa.Extract)
				if !ok || ex.Index != 1 || ex.Referrers() == nil {
					continue
				}
				for _, u := range *ex.Referrers() {
					if iff, ok := u.(*ssa.If); ok {
						s := iff.Block().Succs[0]
						if len(s.Preds) == 1 && s.Dominates(at.Block()) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
