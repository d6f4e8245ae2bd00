package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Op is the head symbol of a term.
type Op uint8

const (
	OConst  Op = iota // basic constant
	ONil              // nil of a type
	OZero             // zero value of a composite type
	OParam            // parameter / free variable of the analysed function
	OFresh            // unknown value (loop variable, opaque result)
	OGlobal           // address of a global
	OFunc             // function value
	OBuiltin
	OClosure // fn with bindings
	OAlloc   // address of memory allocated on this path
	OFieldAddr
	OIndexAddr
	OField
	OIndex
	OLoad
	OBin
	OUn
	OConv
	OIface // interface holding args[0] (static type typ0)
	OAssert
	OIsType // bool: dynamic type of args[0] is/implements T
	OExtract
	OSlice
	OLen
	OCap
	OCall
	OAppend
	OLookup
	OHas // bool: map has key
	OTuple
	OStruct
	ORType // reflect.Type constant
	OMake
	ORange
)

// Term is a hash-consed symbolic value.
type Term struct {
	id   int
	op   Op
	aux  string
	num  int
	typ  types.Type // static Go type of the value (nil for internal ones)
	t2   types.Type // ORType/OAssert/OIsType: the type concerned
	k    constant.Value
	fn   *ssa.Function
	val  ssa.Value
	args []*Term
}

type Terms struct {
	tab   map[string]*Term
	tids  typeutil.Map
	ntid  int
	next  int
	fresh int
}

func NewTerms() *Terms { return &Terms{tab: map[string]*Term{}} }

func (ts *Terms) tid(t types.Type) int {
	if t == nil {
		return 0
	}
	if v := ts.tids.At(t); v != nil {
		return v.(int)
	}
	ts.ntid++
	ts.tids.Set(t, ts.ntid)
	return ts.ntid
}

func (ts *Terms) intern(t *Term, extra string) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(t.op)))
	b.WriteByte('|')
	b.WriteString(t.aux)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(t.num))
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(ts.tid(t.typ)))
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(ts.tid(t.t2)))
	b.WriteByte('|')
	b.WriteString(extra)
	for _, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	key := b.String()
	if o, ok := ts.tab[key]; ok {
		return o
	}
	ts.next++
	t.id = ts.next
	ts.tab[key] = t
	return t
}

func (ts *Terms) Const(k constant.Value, typ types.Type) *Term {
	return ts.intern(&Term{op: OConst, typ: typ, k: k}, k.Kind().String()+k.ExactString())
}
func (ts *Terms) Int(n int64) *Term { return ts.Const(constant.MakeInt64(n), types.Typ[types.Int]) }
func (ts *Terms) Bool(b bool) *Term {
	return ts.Const(constant.MakeBool(b), types.Typ[types.Bool])
}
func (ts *Terms) Str(s string) *Term {
	return ts.Const(constant.MakeString(s), types.Typ[types.String])
}
func (ts *Terms) Nil(typ types.Type) *Term { return ts.intern(&Term{op: ONil, typ: typ}, "") }
func (ts *Terms) Fresh(what string, typ types.Type, v ssa.Value) *Term {
	ts.fresh++
	return ts.intern(&Term{op: OFresh, aux: what, num: ts.fresh, typ: typ, val: v}, "")
}
func (ts *Terms) FreshNamed(what string, typ types.Type) *Term {
	return ts.intern(&Term{op: OFresh, aux: what, typ: typ}, "")
}
func (ts *Terms) Param(name string, i int, typ types.Type, v ssa.Value) *Term {
	return ts.intern(&Term{op: OParam, aux: name, num: i, typ: typ, val: v}, "")
}
func (ts *Terms) Alloc(v ssa.Value, typ types.Type) *Term {
	ts.fresh++
	return ts.intern(&Term{op: OAlloc, num: ts.fresh, typ: typ, val: v}, "")
}
func (ts *Terms) Func(fn *ssa.Function) *Term {
	return ts.intern(&Term{op: OFunc, fn: fn, typ: fn.Signature}, fmt.Sprintf("%p", fn))
}
func (ts *Terms) Mk(op Op, typ types.Type, aux string, num int, args ...*Term) *Term {
	return ts.intern(&Term{op: op, aux: aux, num: num, typ: typ, args: args}, "")
}
func (ts *Terms) MkT(op Op, typ, t2 types.Type, aux string, num int, args ...*Term) *Term {
	return ts.intern(&Term{op: op, aux: aux, num: num, typ: typ, t2: t2, args: args}, "")
}
func (ts *Terms) RType(t types.Type) *Term {
	return ts.intern(&Term{op: ORType, t2: t}, "")
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) IntVal() (int64, bool) {
	if t.op == OConst && t.k.Kind() == constant.Int {
		return constant.Int64Val(t.k)
	}
	return 0, false
}
func (t *Term) BoolVal() (bool, bool) {
	if t.op == OConst && t.k.Kind() == constant.Bool {
		return constant.BoolVal(t.k), true
	}
	return false, false
}
func (t *Term) StrVal() (string, bool) {
	if t.op == OConst && t.k.Kind() == constant.String {
		return constant.StringVal(t.k), true
	}
	return "", false
}

// zero returns the zero value term of a type.
func (ts *Terms) ZeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ts.Const(constant.MakeBool(false), t)
		case u.Info()&types.IsInteger != 0:
			return ts.Const(constant.MakeInt64(0), t)
		case u.Info()&types.IsString != 0:
			return ts.Const(constant.MakeString(""), t)
		case u.Info()&types.IsFloat != 0:
			return ts.Const(constant.MakeFloat64(0), t)
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return ts.Nil(t)
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return ts.Nil(t)
	}
	return ts.intern(&Term{op: OZero, typ: t}, "")
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 6 {
		return "…"
	}
	as := func() string {
		var s []string
		for _, a := range t.args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case OConst:
		return t.k.String()
	case ONil:
		return "nil"
	case OZero:
		return "zero(" + shortType(t.typ) + ")"
	case OParam:
		return t.aux
	case OFresh:
		return fmt.Sprintf("%s#%d", t.aux, t.num)
	case OGlobal:
		return "&" + t.aux
	case OFunc:
		return t.fn.Name()
	case OClosure:
		return "closure:" + t.fn.Name()
	case OAlloc:
		return fmt.Sprintf("new#%d(%s)", t.num, shortType(t.typ))
	case OFieldAddr, OField:
		n := fmt.Sprint(t.num)
		if st := structOf(t.args[0].typ); st != nil && t.num < st.NumFields() {
			n = st.Field(t.num).Name()
		}
		return t.args[0].str(d+1) + "." + n
	case OIndexAddr, OIndex:
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case OLoad:
		return "*" + t.args[0].str(d+1)
	case OBin:
		return "(" + t.args[0].str(d+1) + " " + t.aux + " " + t.args[1].str(d+1) + ")"
	case OUn:
		return t.aux + t.args[0].str(d+1)
	case OConv:
		return shortType(t.typ) + "(" + as() + ")"
	case OIface:
		return t.args[0].str(d + 1)
	case OAssert:
		return t.args[0].str(d+1) + ".(" + shortType(t.t2) + ")"
	case OIsType:
		return t.args[0].str(d+1) + " is " + shortType(t.t2)
	case OExtract:
		return fmt.Sprintf("%s·%d", t.args[0].str(d+1), t.num)
	case OLen:
		return "len(" + as() + ")"
	case OCap:
		return "cap(" + as() + ")"
	case OCall:
		return lastName(t.aux) + "(" + as() + ")"
	case ORType:
		return "type:" + shortType(t.t2)
	}
	return fmt.Sprintf("op%d:%s(%s)", t.op, t.aux, as())
}

func lastName(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string {
		if p.Name() == "jsonutils" {
			return ""
		}
		return p.Name()
	})
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// contains reports whether sub occurs in t.
func (t *Term) contains(sub *Term) bool {
	if t == sub {
		return true
	}
	for _, a := range t.args {
		if a.contains(sub) {
			return true
		}
	}
	return false
}

// any reports whether a predicate holds for some subterm.
func (t *Term) any(f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, a := range t.args {
		if a.any(f) {
			return true
		}
	}
	return false
}

// --- finite-domain evaluation -------------------------------------------

// Set is a set of small integers 0..255.
type Set [4]uint64

func (s Set) Has(i int) bool { return s[i>>6]&(1<<(i&63)) != 0 }
func (s *Set) Add(i int)     { s[i>>6] |= 1 << (i & 63) }
func (s Set) Empty() bool    { return s == Set{} }
func (s Set) And(o Set) (r Set) {
	for i := range s {
		r[i] = s[i] & o[i]
	}
	return
}
func (s Set) Minus(o Set) (r Set) {
	for i := range s {
		r[i] = s[i] &^ o[i]
	}
	return
}
func (s Set) Or(o Set) (r Set) {
	for i := range s {
		r[i] = s[i] | o[i]
	}
	return
}
func (s Set) Count() int {
	n := 0
	for i := 0; i < 256; i++ {
		if s.Has(i) {
			n++
		}
	}
	return n
}
func (s Set) Single() (int, bool) {
	if s.Count() != 1 {
		return 0, false
	}
	for i := 0; i < 256; i++ {
		if s.Has(i) {
			return i, true
		}
	}
	return 0, false
}
func (s Set) Bounds() (lo, hi int) {
	lo, hi = -1, -1
	for i := 0; i < 256; i++ {
		if s.Has(i) {
			if lo < 0 {
				lo = i
			}
			hi = i
		}
	}
	return
}
func rangeSet(lo, hi int) (s Set) {
	for i := lo; i <= hi; i++ {
		s.Add(i)
	}
	return
}
func (s Set) String() string {
	var parts []string
	for i := 0; i < 256; i++ {
		if s.Has(i) {
			j := i
			for j+1 < 256 && s.Has(j+1) {
				j++
			}
			if j > i {
				parts = append(parts, fmt.Sprintf("%#x-%#x", i, j))
			} else {
				parts = append(parts, fmt.Sprintf("%#x", i))
			}
			i = j
		}
	}
	return "{" + strings.Join(parts, " ") + "}"
}

// finiteFull returns the full domain of a finite-typed term.
func finiteFull(t *Term) (Set, bool) {
	if t.typ == nil {
		return Set{}, false
	}
	if n, ok := types.Unalias(t.typ).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Kind" {
		return rangeSet(0, 26), true
	}
	if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		return rangeSet(0, 255), true
	}
	return Set{}, false
}

// finiteVar finds the single finite leaf variable of an integer/boolean term,
// or nil if the term has another kind of leaf or several of them.
func finiteVar(t *Term) *Term {
	var v *Term
	ok := true
	var walk func(t *Term)
	walk = func(t *Term) {
		if !ok {
			return
		}
		switch t.op {
		case OConst:
			return
		case OBin, OUn:
			for _, a := range t.args {
				walk(a)
			}
			return
		case OConv:
			if isIntType(t.typ) && isIntType(t.args[0].typ) {
				if _, fin := finiteFull(t.args[0]); fin || !isLeaf(t.args[0]) {
					walk(t.args[0])
					return
				}
			}
		case OIndex:
			if t.args[0].op == OConst {
				walk(t.args[1])
				return
			}
		}
		if _, fin := finiteFull(t); fin {
			if v != nil && v != t {
				ok = false
			}
			v = t
			return
		}
		ok = false
	}
	walk(t)
	if !ok {
		return nil
	}
	return v
}

func isLeaf(t *Term) bool {
	switch t.op {
	case OBin, OUn, OConv, OIndex, OConst:
		return false
	}
	return true
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloatType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// evalAt evaluates a term with one finite variable bound.
func evalAt(t, v *Term, x int64) (constant.Value, bool) {
	if t == v {
		return constant.MakeInt64(x), true
	}
	switch t.op {
	case OConst:
		return t.k, true
	case OUn:
		a, ok := evalAt(t.args[0], v, x)
		if !ok {
			return nil, false
		}
		if t.aux == "!" {
			return constant.MakeBool(!constant.BoolVal(a)), true
		}
		if t.aux == "-" {
			return truncConst(constant.UnaryOp(token.SUB, a, 0), t.typ), true
		}
		if t.aux == "^" {
			return truncConst(constant.UnaryOp(token.XOR, a, 0), t.typ), true
		}
	case OConv:
		a, ok := evalAt(t.args[0], v, x)
		if !ok || a.Kind() != constant.Int {
			return nil, false
		}
		return truncConst(a, t.typ), true
	case OIndex:
		s, ok := t.args[0].StrVal()
		if !ok {
			return nil, false
		}
		i, ok := evalAt(t.args[1], v, x)
		if !ok {
			return nil, false
		}
		n, exact := constant.Int64Val(i)
		if !exact || n < 0 || n >= int64(len(s)) {
			return nil, false
		}
		return constant.MakeInt64(int64(s[n])), true
	case OBin:
		a, ok := evalAt(t.args[0], v, x)
		if !ok {
			return nil, false
		}
		b, ok := evalAt(t.args[1], v, x)
		if !ok {
			return nil, false
		}
		return foldBin(t.aux, a, b, t.typ)
	}
	return nil, false
}

var binTok = map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO_ASSIGN, "%": token.REM,
	"&": token.AND, "|": token.OR, "^": token.XOR, "&^": token.AND_NOT,
	"==": token.EQL, "!=": token.NEQ, "<": token.LSS, "<=": token.LEQ, ">": token.GTR, ">=": token.GEQ}

func foldBin(op string, a, b constant.Value, typ types.Type) (r constant.Value, ok bool) {
	defer func() {
		if recover() != nil {
			r, ok = nil, false
		}
	}()
	switch op {
	case "==", "!=", "<", "<=", ">", ">=":
		return constant.MakeBool(constant.Compare(a, binTok[op], b)), true
	case "<<", ">>":
		n, ex := constant.Uint64Val(b)
		if !ex || n > 64 || a.Kind() != constant.Int {
			return nil, false
		}
		tk := token.SHL
		if op == ">>" {
			tk = token.SHR
		}
		return truncConst(constant.Shift(a, tk, uint(n)), typ), true
	case "/", "%":
		if a.Kind() == constant.Int && constant.Sign(b) == 0 {
			return nil, false
		}
		tk := token.QUO
		if a.Kind() == constant.Int {
			tk = token.QUO_ASSIGN
		}
		if op == "%" {
			tk = token.REM
		}
		return constant.BinaryOp(a, tk, b), true
	}
	tk, found := binTok[op]
	if !found {
		return nil, false
	}
	v := constant.BinaryOp(a, tk, b)
	return truncConst(v, typ), true
}

func truncConst(v constant.Value, typ types.Type) constant.Value {
	if v == nil || v.Kind() != constant.Int || typ == nil {
		return v
	}
	b, ok := typ.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return v
	}
	bits := map[types.BasicKind]uint{types.Int8: 8, types.Int16: 16, types.Int32: 32, types.Int64: 64, types.Int: 64,
		types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Uint64: 64, types.Uint: 64, types.Uintptr: 64}[b.Kind()]
	if bits == 0 {
		return v
	}
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, bits)
	r := constant.BinaryOp(v, token.REM, mod)
	if constant.Sign(r) < 0 {
		r = constant.BinaryOp(r, token.ADD, mod)
	}
	if b.Info()&types.IsUnsigned == 0 {
		half := constant.Shift(constant.MakeInt64(1), token.SHL, bits-1)
		if constant.Compare(r, token.GEQ, half) {
			r = constant.BinaryOp(r, token.SUB, mod)
		}
	}
	return r
}
