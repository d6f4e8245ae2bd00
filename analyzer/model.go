package main

import (
	"go/constant"
	"go/types"
	"reflect"
	"strings"
)

// Model of package reflect and of a few library functions for the
// path-sensitive interpreter. A reflect.Value is a term; its type is a term
// too (ORType when statically known); its kind is derived from the type.

var pureTypeMethods = map[string]bool{"Name": true, "NumMethod": true, "Implements": true, "AssignableTo": true, "ConvertibleTo": true,
	"String": true, "NumField": true, "PkgPath": true, "Size": true, "Len": true, "Comparable": true, "NumIn": true, "NumOut": true, "Bits": true}

// statefulReads are reflect.Value methods whose result depends on what the
// value holds, not only on its type.
var statefulReads = map[string]bool{"IsNil": true, "Len": true, "Cap": true, "Int": true, "Uint": true, "Float": true, "Bool": true,
	"String": true, "IsZero": true, "Pointer": true, "Complex": true, "Bytes": true, "NumMethod": true, "NumField": true,
	"UnsafePointer": true, "Comparable": true}

func isRefVal(t *Term, name string) bool { return t.op == OCall && t.aux == name }

func (x *Exec) mkCall(aux string, num int, typ types.Type, args ...*Term) *Term {
	return x.ts.intern(&Term{op: OCall, aux: aux, num: num, typ: typ, args: args}, "")
}

// TypeOfVal is the reflect.Type term of a reflect.Value term.
func (x *Exec) TypeOfVal(v *Term) *Term {
	v = x.rep1(v)
	if v.op == OCall {
		switch v.aux {
		case "reflect.ValueOf":
			return x.dynType(v.args[0])
		case "reflect.New":
			return x.typPtrTo(v.args[0])
		case "reflect.Zero", "reflect.MakeSlice", "reflect.MakeMap", "reflect.MakeMapWithSize":
			return v.args[0]
		case "rv.Elem", "rv.Addr", "rv.Index", "rv.Field", "rv.MapIndex", "rv.Convert", "rv.MethodByName":
			return v.args[len(v.args)-1]
		}
	}
	return x.mkCall("typ", 0, nil, v)
}

// dynType is the dynamic type of an interface value.
func (x *Exec) dynType(i *Term) *Term {
	i = x.rep1(i)
	if i.op == OIface {
		return x.ts.RType(i.t2)
	}
	if d, ok := x.dyn[i]; ok {
		return x.ts.RType(d)
	}
	if i.op == OCall && i.aux == "rv.Interface" {
		t := x.TypeOfVal(i.args[0])
		if s, ok := x.Domain(x.kindTerm(t)); ok && !s.Has(kInterface) {
			return t
		}
	}
	if i.typ != nil && !types.IsInterface(i.typ) {
		return x.ts.RType(i.typ)
	}
	return x.mkCall("dyn", 0, nil, i)
}

func (x *Exec) typPtrTo(t *Term) *Term {
	t = x.rep1(t)
	if t.op == ORType {
		return x.ts.RType(types.NewPointer(t.t2))
	}
	return x.mkCall("typ.PtrTo", 0, nil, t)
}

func (x *Exec) typElem(t *Term) *Term {
	t = x.rep1(t)
	if t.op == ORType {
		if e := elemType(t.t2); e != nil {
			return x.ts.RType(e)
		}
	}
	if t.op == OCall && t.aux == "typ.PtrTo" {
		return t.args[0]
	}
	return x.mkCall("typ.Elem", 0, nil, t)
}

// KindOf gives the kinds a reflect.Value may have on this path.
func (x *Exec) KindOf(v *Term) Set { return x.KindsOfType(x.TypeOfVal(v)) }

// KindsOfType gives the kinds a reflect.Type may have on this path.
func (x *Exec) KindsOfType(t *Term) Set {
	t = x.rep1(t)
	s, _ := x.Domain(x.kindTerm(t))
	if t.op == ORType {
		s = Set{}
		s.Add(kindOfType(t.t2))
	}
	return s
}

func (x *Exec) assumeKind(v *Term, s Set) bool {
	k := x.kindTerm(x.TypeOfVal(v))
	if k.op == OConst {
		n, _ := k.IntVal()
		return s.Has(int(n))
	}
	cur, _ := x.Domain(k)
	r := cur.And(s)
	if r.Empty() {
		return false
	}
	setMap(x, x.dom, k, r)
	return true
}

func (x *Exec) valEvent(c *Call, kind string, res *Term) {
	x.event(&Event{Kind: kind, Name: c.Name, Args: append([]*Term{}, c.Args...), Res: res, Instr: c.Instr, Fr: c.Fr})
}

// defaultModel gives library calls their meaning.
func (x *Exec) defaultModel(c *Call, k func(*Term)) bool {
	n := c.Name
	switch {
	case strings.HasPrefix(n, "(reflect.Value)."):
		return x.modelValue(c, n[len("(reflect.Value)."):], k)
	case strings.HasPrefix(n, "(reflect.Type)."):
		return x.modelType(c, n[len("(reflect.Type)."):], k)
	}
	done := func(r *Term) bool {
		x.valEvent(c, "call", r)
		k(r)
		return true
	}
	switch n {
	case "reflect.ValueOf":
		a := c.Args[0]
		if a.op == OCall && a.aux == "rv.Interface" {
			if s := x.KindOf(a.args[0]); !s.Has(kInterface) {
				return done(a.args[0])
			}
		}
		return done(x.mkCall(n, 0, c.Typ, a))
	case gotypesPath + ".IsNil":
		// nil when the value inside is a nil pointer, map, ...
		if a := c.Args[0]; a.op == OCall && a.aux == "rv.Interface" {
			if s := x.KindOf(a.args[0]); !s.Empty() && s.Minus(kset(kChan, kFunc, kMap, kPtr, kSlice)).Empty() {
				return done(x.rvIsNil(a.args[0]))
			}
		}
		return false
	case "unicode/utf8.EncodeRune":
		r := x.Opaque(c)
		x.addLin(x.Lin(r).plus(-1))
		x.addLin(x.Lin(r).neg().plus(4))
		x.addLin(x.Lin(x.LenOf(c.Args[0])).sub(x.Lin(r)))
		k(r)
		return true
	case "reflect.TypeOf":
		return done(x.dynType(c.Args[0]))
	case "reflect.New", "reflect.MakeMap", "reflect.MakeMapWithSize", "reflect.MakeSlice":
		x.nframe++
		return done(x.mkCall(n, x.nframe, c.Typ, c.Args...))
	case "reflect.Zero":
		return done(x.mkCall(n, 0, c.Typ, c.Args...))
	case "reflect.PtrTo", "reflect.PointerTo":
		return done(x.typPtrTo(c.Args[0]))
	case "reflect.Indirect":
		v := c.Args[0]
		kt := x.kindTerm(x.TypeOfVal(v))
		x.Fork(x.Bin("==", kt, x.ts.Const(constant.MakeInt64(kPtr), x.kindType()), types.Typ[types.Bool]), func(isPtr bool) {
			if isPtr {
				k(x.elemVal(v, c.Typ))
			} else {
				k(v)
			}
		})
		return true
	}
	if strings.Contains(n, "sortedmap.") {
		return x.modelSmap(c, k)
	}
	return false
}

// ep counts the assignments a reflect.Value has seen on this path. Values
// obtained in different ways are taken to denote different variables.
func (x *Exec) ep(v *Term) int { return x.vep[v] + x.vall<<20 }

func (x *Exec) bumpVal(v *Term) {
	x.nframe++
	setMap(x, x.vep, v, x.nframe&0xfffff)
}

func (x *Exec) rvInt(m string, v *Term) *Term {
	if isRefVal(v, "reflect.MakeSlice") && x.ep(v) == 0 {
		if m == "Len" {
			return v.args[1]
		}
		return v.args[2]
	}
	n := 0
	if k, ok := x.KindOf(v).Single(); !ok || k != kArray {
		n = x.ep(v)
	}
	r := x.mkCall("rv."+m, n, types.Typ[types.Int], v)
	x.addLin(linVar(r))
	return r
}

func kset(ks ...int) Set {
	var s Set
	for _, k := range ks {
		s.Add(k)
	}
	return s
}

// rvIsNil is whether a reflect.Value holds nil.
func (x *Exec) rvIsNil(v *Term) *Term {
	switch {
	case isRefVal(v, "reflect.New") || isRefVal(v, "reflect.MakeMap") || isRefVal(v, "reflect.MakeMapWithSize") || isRefVal(v, "reflect.MakeSlice") || isRefVal(v, "rv.Addr"):
		return x.ts.Bool(false)
	case isRefVal(v, "reflect.ValueOf") && v.args[0].op == OIface:
		return x.isNil(v.args[0].args[0])
	}
	return x.mkCall("rv.IsNil", x.ep(v), types.Typ[types.Bool], v)
}

// invalidVal is the zero reflect.Value.
func (x *Exec) invalidVal(rv types.Type) *Term {
	return x.mkCall("rv.Invalid", 0, rv)
}

// keyOfMap: the key was obtained from the map itself.
func keyOfMap(m, key *Term) bool {
	found := false
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == OCall && (t.aux == "rv.MapKeys" || t.aux == "rv.MapRange") && len(t.args) > 0 && t.args[0] == m {
			found = true
		}
		for _, a := range t.args {
			if !found {
				walk(a)
			}
		}
	}
	walk(key)
	return found
}

// selfEqualKeys: no key of the map is or holds a NaN.
func (x *Exec) selfEqualKeys(mt *Term) bool {
	var open Set
	for _, k := range []reflect.Kind{reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128, reflect.Interface, reflect.Struct, reflect.Array} {
		open.Add(int(k))
	}
	return x.KindsOfType(x.mapKeyType(mt)).And(open).Empty()
}

// kindBase limits the kinds of a type term by how it was obtained.
func (x *Exec) kindBase(rt *Term) Set {
	all := rangeSet(0, 26)
	if rt.op == ORType {
		return kset(kindOfType(rt.t2))
	}
	if rt.op != OCall {
		return all
	}
	valid := rangeSet(1, 26)
	switch rt.aux {
	case "typ.PtrTo":
		return kset(kPtr)
	case "typ.Method":
		return kset(kInvalid, kFunc)
	case "dyn":
		i := rt.args[0]
		s := all.Minus(kset(kInterface))
		if ks, ok := x.w.sealedKinds(i.typ); ok {
			s = ks
			s.Add(kInvalid)
		}
		if fromRegistry(i) {
			s = kset(kPtr, kInvalid)
		}
		switch x.knownNil(i) {
		case 0:
			s = s.And(valid)
		case 1:
			return kset(kInvalid)
		}
		return s
	case "typ":
		v := rt.args[0]
		if v.op == OCall && v.aux == "rv.Invalid" {
			return kset(kInvalid)
		}
		if v.op == OZero {
			return kset(kInvalid)
		}
		if v.op == OParam || v.op == OFresh {
			return all
		}
		if v.op == OCall && (v.aux == "rv.FieldByName" || v.aux == "rv.FieldByNameFunc" || v.aux == "rv.Recv" || v.aux == "rv.TryRecv") {
			return all
		}
		if v.op == OLoad && x.Refl != nil {
			if isParentField(v.args[0]) != "" {
				return kset(kPtr)
			}
			if !x.Refl.kept(x, pValid, v.args[0]) {
				return all
			}
		}
		return valid
	}
	return valid
}

// fromRegistry: the value was made by a registered constructor.
func fromRegistry(i *Term) bool {
	return i.any(func(t *Term) bool {
		return t.op == OCall && strings.HasSuffix(t.aux, "gotypes.NewSerializable") && len(t.args) == 1
	})
}

// sealedKinds: an interface only this package can implement.
func (w *World) sealedKinds(t types.Type) (Set, bool) {
	if t == nil {
		return Set{}, false
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return Set{}, false
	}
	sealed := false
	for i := 0; i < it.NumMethods(); i++ {
		if m := it.Method(i); !m.Exported() && m.Pkg() == w.Main.Pkg {
			sealed = true
		}
	}
	if !sealed {
		return Set{}, false
	}
	var s Set
	for _, name := range w.Main.Pkg.Scope().Names() {
		tn, ok := w.Main.Pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
			continue
		}
		for _, c := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			if types.Implements(c, it) {
				s.Add(kindOfType(c))
			}
		}
	}
	return s, true
}

func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value"
}

func (x *Exec) elemVal(v *Term, rv types.Type) *Term {
	if isRefVal(v, "rv.Addr") {
		return v.args[0]
	}
	t := x.TypeOfVal(v)
	ks := x.KindsOfType(t)
	var et *Term
	if n, ok := ks.Single(); ok && n == kPtr {
		et = x.typElem(t)
	} else {
		et = x.mkCall("dyn.elem", x.ep(v), nil, v)
	}
	return x.mkCall("rv.Elem", x.ep(v), rv, v, et)
}

func (x *Exec) modelValue(c *Call, m string, k func(*Term)) bool {
	v := c.Args[0]
	T := types.Typ
	done := func(r *Term) bool {
		x.valEvent(c, "rv", r)
		k(r)
		return true
	}
	switch m {
	case "Type":
		return done(x.TypeOfVal(v))
	case "Kind":
		return done(x.kindTerm(x.TypeOfVal(v)))
	case "IsValid":
		kt := x.kindTerm(x.TypeOfVal(v))
		return done(x.Not(x.Bin("==", kt, x.ts.Const(constant.MakeInt64(0), x.kindType()), T[types.Bool])))
	case "Elem":
		if isRefVal(v, "rv.Addr") {
			return done(v.args[0])
		}
		if ks := x.KindOf(v); ks.Minus(kset(kPtr, kInterface)).Empty() {
			x.valEvent(c, "rv", nil)
			isNil := x.rvIsNil(v)
			x.Fork(isNil, func(isNil bool) {
				if isNil {
					k(x.invalidVal(c.Typ))
				} else {
					k(x.elemVal(v, c.Typ))
				}
			})
			return true
		}
		return done(x.elemVal(v, c.Typ))
	case "Addr":
		return done(x.mkCall("rv.Addr", 0, c.Typ, v, x.typPtrTo(x.TypeOfVal(v))))
	case "Index":
		return done(x.mkCall("rv.Index", x.ep(v), c.Typ, v, c.Args[1], x.typElem(x.TypeOfVal(v))))
	case "Field":
		return done(x.mkCall("rv.Field", 0, c.Typ, v, c.Args[1], x.mkCall("typ.Field", 0, nil, x.TypeOfVal(v), c.Args[1])))
	case "MapIndex":
		// even a key taken from the map is not found if it does not equal itself
		if !keyOfMap(v, c.Args[1]) || !x.selfEqualKeys(x.TypeOfVal(v)) {
			x.valEvent(c, "rv", nil)
			has := x.mkCall("rv.HasKey", x.repEp, T[types.Bool], v, c.Args[1])
			x.Fork(has, func(has bool) {
				if has {
					k(x.mkCall("rv.MapIndex", x.repEp, c.Typ, v, c.Args[1], x.typElem(x.TypeOfVal(v))))
				} else {
					k(x.invalidVal(c.Typ))
				}
			})
			return true
		}
		return done(x.mkCall("rv.MapIndex", x.repEp, c.Typ, v, c.Args[1], x.typElem(x.TypeOfVal(v))))
	case "Convert":
		return done(x.mkCall("rv.Convert", 0, c.Typ, v, c.Args[1]))
	case "MethodByName":
		r := x.mkCall("rv.MethodByName", 0, c.Typ, v, c.Args[1], x.mkCall("typ.Method", 0, nil, x.TypeOfVal(v), c.Args[1]))
		var s Set
		s.Add(kInvalid)
		s.Add(kFunc)
		if !x.assumeKind(r, s) {
			return true
		}
		return done(r)
	case "Interface":
		if isRefVal(v, "reflect.ValueOf") {
			return done(v.args[0])
		}
		return done(x.mkCall("rv.Interface", x.repEp, c.Typ, v))
	case "CanAddr", "CanSet", "CanInterface", "CanInt", "CanUint", "CanFloat", "CanConvert":
		return done(x.mkCall("rv."+m, 0, c.Typ, c.Args...))
	case "Set", "SetInt", "SetUint", "SetFloat", "SetBool", "SetString", "SetLen", "SetCap", "SetMapIndex", "SetBytes", "SetZero", "SetComplex", "SetPointer", "Grow":
		x.valEvent(c, "rset", nil)
		x.bump(&x.repEp)
		switch m {
		case "Set":
			x.bumpVal(v)
			if len(c.Args) > 1 {
				a := c.Args[1]
				if isRefVal(a, "reflect.New") || isRefVal(a, "reflect.MakeMap") || isRefVal(a, "reflect.MakeMapWithSize") || isRefVal(a, "reflect.MakeSlice") || isRefVal(a, "rv.Addr") {
					setMap(x, x.truth, x.mkCall("rv.IsNil", x.ep(v), T[types.Bool], v), false)
				}
				if isRefVal(a, "reflect.MakeSlice") {
					x.assumeEq(x.Lin(x.rvInt("Len", v)).sub(x.Lin(a.args[1])))
					x.assumeEq(x.Lin(x.rvInt("Cap", v)).sub(x.Lin(a.args[2])))
				}
			}
		case "SetLen":
			cp := x.rvInt("Cap", v)
			x.bumpVal(v)
			x.assumeEq(x.Lin(x.rvInt("Len", v)).sub(x.Lin(c.Args[1])))
			x.assumeEq(x.Lin(x.rvInt("Cap", v)).sub(x.Lin(cp)))
		case "SetCap", "SetZero", "Grow":
			x.bumpVal(v)
		}
		k(nil)
		return true
	case "Call", "CallSlice":
		x.valEvent(c, "rcall", nil)
		ms := newModSet()
		ms.all, ms.reflect = true, true
		x.havoc(ms)
		k(x.ts.Fresh("rv.Call", c.Typ, nil))
		return true
	}
	if statefulReads[m] {
		switch m {
		case "Len", "Cap":
			return done(x.rvInt(m, v))
		case "IsNil":
			return done(x.rvIsNil(v))
		case "NumField", "NumMethod":
			r := x.mkCall("rv."+m, 0, c.Typ, v)
			x.addLin(linVar(r))
			return done(r)
		}
		return done(x.mkCall("rv."+m, x.repEp, c.Typ, c.Args...))
	}
	// anything else: unknown result, remembered by arguments and state
	if c.Typ == nil {
		return false
	}
	r := x.mkCall("rv."+m, x.repEp, c.Typ, c.Args...)
	return done(r)
}

func (x *Exec) modelType(c *Call, m string, k func(*Term)) bool {
	t := x.rep1(c.Args[0])
	done := func(r *Term) bool {
		x.valEvent(c, "rt", r)
		k(r)
		return true
	}
	switch m {
	case "Kind":
		return done(x.kindTerm(t))
	case "Elem":
		return done(x.typElem(t))
	case "Key":
		if t.op == ORType {
			if mt, ok := t.t2.Underlying().(*types.Map); ok {
				return done(x.ts.RType(mt.Key()))
			}
		}
		return done(x.mkCall("typ.Key", 0, nil, t))
	case "Implements", "AssignableTo", "ConvertibleTo":
		u := x.rep1(c.Args[1])
		if t.op == ORType && u.op == ORType {
			switch m {
			case "Implements":
				if it, ok := u.t2.Underlying().(*types.Interface); ok {
					return done(x.ts.Bool(types.Implements(t.t2, it)))
				}
			case "AssignableTo":
				return done(x.ts.Bool(types.AssignableTo(t.t2, u.t2)))
			case "ConvertibleTo":
				return done(x.ts.Bool(types.ConvertibleTo(t.t2, u.t2)))
			}
		}
		return done(x.mkCall("typ."+m, 0, c.Typ, c.Args[0], c.Args[1]))
	}
	if pureTypeMethods[m] {
		r := x.mkCall("typ."+m, 0, c.Typ, c.Args...)
		if isIntType(c.Typ) {
			x.addLin(linVar(r))
		}
		return done(r)
	}
	if c.Typ == nil {
		return false
	}
	return done(x.mkCall("typ."+m, 0, c.Typ, c.Args...))
}

// Assignable decides whether a value of type term a may be stored where type
// term b is expected: 1 yes, 0 no, -1 unknown.
func (x *Exec) Assignable(a, b *Term) int {
	ra, rb := x.rep1(a), x.rep1(b)
	if ra == rb {
		return 1
	}
	if ra.op == ORType && rb.op == ORType {
		if types.AssignableTo(ra.t2, rb.t2) {
			return 1
		}
		return 0
	}
	for _, p := range [][2]*Term{{a, b}, {ra, rb}, {a, rb}, {ra, b}} {
		if v, ok := x.truth[x.mkCall("typ.AssignableTo", 0, types.Typ[types.Bool], p[0], p[1])]; ok {
			if v {
				return 1
			}
			return 0
		}
		if v, ok := x.truth[x.mkCall("typ.Implements", 0, types.Typ[types.Bool], p[0], p[1])]; ok && v {
			return 1
		}
	}
	// the new value for a nil embedded pointer
	if ra.op == OCall && ra.aux == "typ" && rb.op == OCall && rb.aux == "typ" {
		va, vb := ra.args[0], rb.args[0]
		if va.op == OLoad && vb.op == OLoad && isParentField(va.args[0]) == "Value" && isParentField(vb.args[0]) == "Field" && va.args[0].args[0] == vb.args[0].args[0] {
			return 1
		}
	}
	// *(T.Elem()) into T when T is a pointer
	if ra.op == OCall && ra.aux == "typ.PtrTo" {
		e := ra.args[0]
		if e.op == OCall && e.aux == "typ.Elem" && x.rep1(e.args[0]) == rb {
			if n, ok := x.KindsOfType(rb).Single(); ok && n == kPtr {
				return 1
			}
		}
	}
	if v, known := x.evalEq(a, b); known && v {
		return 1
	}
	return -1
}

var smapReads = map[string]bool{"Get": true, "GetIgnoreCase": true, "Keys": true, "Contains": true, "ContainsAny": true, "ContainsAll": true, "NewIterator": false}

// modelSmap keeps reads of sorted maps congruent between mutations.
func (x *Exec) modelSmap(c *Call, k func(*Term)) bool {
	base := c.Name[strings.LastIndexByte(c.Name, '.')+1:]
	args := x.vargs(c)
	num := 0
	switch {
	case smapReads[base]:
		num = x.epoch["smap"]
	case base == "NewIterator" || base == "NewSortedMap" || base == "NewSortedMapWithCapa" || base == "Split" || base == "Merge":
		x.nframe++
		num = x.nframe
	default:
		x.nframe++
		num = x.nframe
		if base == "Add" || strings.HasPrefix(base, "Delete") {
			x.bumpKey("smap")
		}
	}
	var r *Term
	if c.Typ != nil {
		r = x.ts.intern(&Term{op: OCall, aux: c.Name, num: num, typ: c.Typ, fn: c.Fn, args: args}, "")
	}
	x.event(&Event{Kind: "call", Name: c.Name, Fn: c.Fn, Args: args, Res: r, Instr: c.Instr, Fr: c.Fr})
	if x.H.After != nil {
		x.H.After(x, c, r)
	}
	k(r)
	return true
}
