package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C05"] = check{explainC05, runC05} }

const explainC05 = "Every conversion between number and text in the package (strconv, fmt) is enumerated. Backwards over the value-flow graph (assignments, fields, parameters and results of all callers and callees) the origins of each formatted number, of each number stored in a node and of each number handed out or set by reflection are found: no narrowing or int/float conversion may lie between, formats must be decimal and without fixed precision, texts must be read in base ten with 64 bits; a float node marked as 32 bits must come from a float32. On every path on which reading a text makes a float node, reading it as a 64-bit integer is known to have failed. Every reflect conversion of a number keeps its width on all kinds possible there."

// numFlow finds where numbers come from.
type numFlow struct {
	w       *World
	r       *Rep
	callers map[*ssa.Function][]*ssa.CallCommon
	parent  map[*ssa.CallCommon]*ssa.Function
	stores  map[string][]ssa.Value // field key to what is stored there
	taken   map[*ssa.Function]bool
	payload map[string]bool
	bits    map[string]string     // payload field of a float node to its width field
	bitKey  map[string]string     // width field to payload field
	fits    map[*ssa.Convert]bool // conversions of a reflected number that fit all kinds possible there
}

type numOrigin struct {
	v     ssa.Value
	kind  string // payload, parse, reflect, value, const, count
	call  *ssa.CallCommon
	lossy *ssa.Convert
}

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func isNumType(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&(types.IsInteger|types.IsFloat) != 0
}

func bitsOf(t types.Type) int {
	switch basicOf(t).Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32:
		return 32
	}
	return 64
}

// lossyConvert: not every value of the first type survives in the second.
func lossyConvert(from, to types.Type) bool {
	if !isNumType(from) || !isNumType(to) {
		return false
	}
	ff, tf := isFloatType(from), isFloatType(to)
	switch {
	case ff && tf, !ff && !tf:
		return bitsOf(to) < bitsOf(from)
	case ff:
		return true
	case bitsOf(to) == 32:
		return bitsOf(from) > 16
	}
	return bitsOf(from) > 32
}

func newNumFlow(w *World, r *Rep) *numFlow {
	n := &numFlow{w: w, r: r, callers: map[*ssa.Function][]*ssa.CallCommon{}, parent: map[*ssa.CallCommon]*ssa.Function{}, stores: map[string][]ssa.Value{}, taken: map[*ssa.Function]bool{}, payload: map[string]bool{}, fits: map[*ssa.Convert]bool{}, bits: map[string]string{}, bitKey: map[string]string{}}
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for i, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if ci, ok := in.(ssa.CallInstruction); !ok || i > 0 || ci.Common().StaticCallee() != g {
							n.taken[g] = true
						}
					}
				}
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						k := fieldKey(fa.X.Type(), fa.Field)
						n.stores[k] = append(n.stores[k], st.Val)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					n.parent[ci.Common()] = f
					for _, g := range w.Targets(ci.Common()) {
						g = unwrapPromoted(g)
						n.callers[g] = append(n.callers[g], ci.Common())
					}
					if g := ci.Common().StaticCallee(); g != nil && len(w.Targets(ci.Common())) == 0 {
						n.callers[g] = append(n.callers[g], ci.Common())
					}
				}
			}
		}
	}
	for _, t := range w.NodeTypes() {
		nt := w.NamedType(t)
		st := structOf(nt)
		pay, width := "", ""
		for i := 0; st != nil && i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			k := fieldKey(types.NewPointer(nt), i)
			if isNumType(ft) && bitsOf(ft) == 64 {
				if basicOf(ft).Kind() == types.Int64 || basicOf(ft).Kind() == types.Float64 {
					n.payload[k] = true
					pay = k
				}
				if basicOf(ft).Kind() == types.Int {
					width = k
				}
			}
		}
		if pay != "" && width != "" {
			n.bits[pay] = width
			n.bitKey[width] = pay
		}
	}
	return n
}

type numSeen struct {
	v     ssa.Value
	lossy *ssa.Convert
}

func (n *numFlow) origins(v ssa.Value) []numOrigin {
	var out []numOrigin
	n.walk(v, nil, map[numSeen]bool{}, &out)
	return out
}

func (n *numFlow) walk(v ssa.Value, lossy *ssa.Convert, seen map[numSeen]bool, out *[]numOrigin) {
	k := numSeen{v, lossy}
	if seen[k] || len(seen) > 5000 {
		return
	}
	seen[k] = true
	at := func(kind string, c *ssa.CallCommon) { *out = append(*out, numOrigin{v, kind, c, lossy}) }
	switch t := v.(type) {
	case *ssa.Const:
		at("const", nil)
	case *ssa.Convert:
		if lossyConvert(t.X.Type(), t.Type()) && !n.fits[t] {
			lossy = t
		}
		n.walk(t.X, lossy, seen, out)
	case *ssa.ChangeType:
		n.walk(t.X, lossy, seen, out)
	case *ssa.MakeInterface:
		n.walk(t.X, lossy, seen, out)
	case *ssa.Phi:
		for _, e := range t.Edges {
			n.walk(e, lossy, seen, out)
		}
	case *ssa.BinOp:
		n.walk(t.X, lossy, seen, out)
		n.walk(t.Y, lossy, seen, out)
	case *ssa.TypeAssert:
		at("value", nil)
	case *ssa.Extract:
		if c, ok := t.Tuple.(*ssa.Call); ok {
			n.result(v, &c.Call, t.Index, lossy, seen, out)
			return
		}
		at("value", nil)
	case *ssa.Call:
		n.result(v, &t.Call, 0, lossy, seen, out)
	case *ssa.Field:
		n.field(v, fieldKey(types.NewPointer(t.X.Type()), t.Field), lossy, seen, out)
	case *ssa.UnOp:
		if t.Op != token.MUL {
			n.walk(t.X, lossy, seen, out)
			return
		}
		switch a := t.X.(type) {
		case *ssa.FieldAddr:
			n.field(v, fieldKey(a.X.Type(), a.Field), lossy, seen, out)
		case *ssa.Alloc:
			for _, u := range *a.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == a {
					n.walk(st.Val, lossy, seen, out)
				}
			}
		default:
			at("value", nil)
		}
	case *ssa.Parameter:
		f := t.Parent()
		cs := n.callers[f]
		if len(cs) == 0 || f.Parent() != nil {
			at("value", nil)
			return
		}
		if f.Object() != nil && f.Object().Exported() {
			at("value", nil)
		}
		for _, c := range cs {
			if a := argFor(c, f, t); a != nil {
				n.walk(a, lossy, seen, out)
			}
		}
	default:
		at("value", nil)
	}
}

// argFor is what a call gives for a parameter of its callee.
func argFor(c *ssa.CallCommon, f *ssa.Function, p *ssa.Parameter) ssa.Value {
	for i, q := range f.Params {
		if q != p {
			continue
		}
		if c.IsInvoke() {
			if i == 0 {
				return c.Value
			}
			i--
		}
		if i < len(c.Args) {
			return c.Args[i]
		}
	}
	return nil
}

func (n *numFlow) field(v ssa.Value, key string, lossy *ssa.Convert, seen map[numSeen]bool, out *[]numOrigin) {
	if n.payload[key] {
		*out = append(*out, numOrigin{v, "payload", nil, lossy})
		return
	}
	for _, s := range n.stores[key] {
		n.walk(s, lossy, seen, out)
	}
	if len(n.stores[key]) == 0 {
		*out = append(*out, numOrigin{v, "value", nil, lossy})
	}
}

func (n *numFlow) result(v ssa.Value, c *ssa.CallCommon, idx int, lossy *ssa.Convert, seen map[numSeen]bool, out *[]numOrigin) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		kind := "count"
		if b.Name() == "min" || b.Name() == "max" {
			for _, a := range c.Args {
				n.walk(a, lossy, seen, out)
			}
			return
		}
		*out = append(*out, numOrigin{v, kind, c, lossy})
		return
	}
	ts := n.w.Targets(c)
	if len(ts) == 0 {
		name := calleeFullName(c)
		kind := "other"
		switch {
		case strings.HasPrefix(name, "strconv.Parse"), name == "strconv.Atoi":
			kind = "parse"
		case strings.HasPrefix(name, "(reflect.Value)."):
			kind = "reflect"
		case strings.HasPrefix(name, "math.") && isNumType(v.Type()):
			for _, a := range c.Args {
				n.walk(a, lossy, seen, out)
			}
			return
		}
		*out = append(*out, numOrigin{v, kind, c, lossy})
		return
	}
	for _, g := range ts {
		g = unwrapPromoted(g)
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				n.walk(r.Results[idx], lossy, seen, out)
			}
		}
	}
}

// number: the origin is a number of 64 bits (or a float), not a character,
// a count or a constant.
func (o numOrigin) number() bool {
	switch o.kind {
	case "const", "count", "other":
		return false
	case "value":
		return isNumType(o.v.Type()) && (isFloatType(o.v.Type()) || bitsOf(o.v.Type()) == 64)
	}
	return true
}

func anyNumber(os []numOrigin) bool {
	for _, o := range os {
		if o.number() {
			return true
		}
	}
	return false
}

// consts are the constants a value can be; ok is false if it can be anything else.
func (n *numFlow) consts(v ssa.Value, d int) (out []constant.Value, ok bool) {
	if d > 6 {
		return nil, false
	}
	switch t := v.(type) {
	case *ssa.Const:
		return []constant.Value{t.Value}, t.Value != nil
	case *ssa.Convert:
		return n.consts(t.X, d+1)
	case *ssa.Phi:
		for _, e := range t.Edges {
			c, k := n.consts(e, d+1)
			if !k {
				return nil, false
			}
			out = append(out, c...)
		}
		return out, true
	case *ssa.Parameter:
		f := t.Parent()
		if f.Object() == nil || f.Object().Exported() || len(n.callers[f]) == 0 {
			return nil, false
		}
		for _, c := range n.callers[f] {
			a := argFor(c, f, t)
			if a == nil {
				return nil, false
			}
			k, good := n.consts(a, d+1)
			if !good {
				return nil, false
			}
			out = append(out, k...)
		}
		return out, true
	}
	return nil, false
}

func (n *numFlow) allConst(v ssa.Value, good func(i int64) bool) bool {
	cs, ok := n.consts(v, 0)
	if !ok {
		return false
	}
	for _, c := range cs {
		if c.Kind() != constant.Int {
			return false
		}
		i, exact := constant.Int64Val(c)
		if !exact || !good(i) {
			return false
		}
	}
	return true
}

func eqTo(k int64) func(int64) bool { return func(i int64) bool { return i == k } }

func runC05(w *World, r *Rep) {
	n := newNumFlow(w, r)
	n.reflectConvert()
	floats := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		r.Visit(fnName(f))
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch t := in.(type) {
				case ssa.CallInstruction:
					n.call(f, t, floats)
				case *ssa.Store:
					if fa, ok := t.Addr.(*ssa.FieldAddr); ok {
						n.stored(f, t, fa)
					}
				case *ssa.Return:
					n.returned(f, t)
				}
			}
		}
	}
	n.intFirst()
	r.Assume = append(r.Assume, "strconv.FormatFloat with precision -1 and %v print the shortest text that reads back as the same float",
		"an unsigned 64-bit value above the signed range is reinterpreted, not rounded (known limitation)")
	r.AtLeast("format", 5)
	r.AtLeast("number read", 3)
	r.AtLeast("number kept", 3)
	r.AtLeast("integer first", 1)
}

// lossyTo reports a lossy conversion between a number and a sink.
func (n *numFlow) lossyTo(f *ssa.Function, in ssa.Instruction, os []numOrigin, from func(o numOrigin) bool, sink, rule string) {
	for _, o := range os {
		if !from(o) {
			continue
		}
		if o.lossy != nil {
			n.r.Bad(rule, fnName(f), sink, n.w.InstrPos(in), "%s gets a number that was converted from %s to %s at %s", sink, o.lossy.X.Type(), o.lossy.Type(), n.w.InstrPos(o.lossy))
			return
		}
	}
	n.r.OK(rule)
}

// parses checks how the texts behind the origins are read.
func (n *numFlow) parses(f *ssa.Function, in ssa.Instruction, os []numOrigin, sink string, reflected bool) {
	for _, o := range os {
		if o.kind != "parse" {
			continue
		}
		name := calleeFullName(o.call)
		at := n.w.Pos(o.call.Pos())
		bits := func(a ssa.Value) bool {
			if n.allConst(a, eqTo(64)) {
				return true
			}
			if c, ok := a.(*ssa.Call); ok && reflected && strings.HasSuffix(calleeFullName(&c.Call), ".Bits") {
				return true
			}
			// 0 stands for int
			return n.allConst(a, func(i int64) bool { return i == 0 || i == 64 }) && !strings.HasSuffix(name, "Float")
		}
		ok := true
		switch name {
		case "strconv.ParseInt", "strconv.ParseUint":
			if !n.allConst(o.call.Args[1], eqTo(10)) {
				ok = false
				n.r.Bad("number read", fnName(f), sink, at, "%s gets a number read in a base that is not ten", sink)
			}
			if !bits(o.call.Args[2]) {
				ok = false
				n.r.Bad("number read", fnName(f), sink, at, "%s gets an integer read with less than 64 bits", sink)
			}
		case "strconv.ParseFloat":
			if !bits(o.call.Args[1]) {
				ok = false
				n.r.Bad("number read", fnName(f), sink, at, "%s gets a float read with less than 64 bits", sink)
			}
		}
		if ok {
			n.r.OK("number read")
		}
	}
}

func (n *numFlow) call(f *ssa.Function, ci ssa.CallInstruction, floats map[*ssa.Function]bool) {
	c := ci.Common()
	name := calleeFullName(c)
	text := func(v ssa.Value, what string, ok bool, why string) {
		os := n.origins(v)
		if !anyNumber(os) {
			return
		}
		if !ok {
			n.r.Bad("format", fnName(f), what, n.w.InstrPos(ci), "%s %s", what, why)
			return
		}
		n.r.OK("format")
		n.r.Sample("format", "%s %s in %s", n.w.InstrPos(ci), what, fnName(f))
		n.lossyTo(f, ci, os, numOrigin.number, what, "number kept")
		n.textKept(f, ci, what)
	}
	off := 0
	if strings.HasPrefix(name, "strconv.Append") {
		off = 1
	}
	switch name {
	case "strconv.Itoa":
		text(c.Args[0], name, true, "")
	case "strconv.FormatInt", "strconv.FormatUint", "strconv.AppendInt", "strconv.AppendUint":
		text(c.Args[off], name, n.allConst(c.Args[off+1], eqTo(10)), "writes a number in a base that is not ten")
	case "strconv.FormatFloat", "strconv.AppendFloat":
		v := c.Args[off]
		text(v, name, n.allConst(c.Args[off+1], func(i int64) bool { return strings.ContainsRune("eEfgG", rune(i)) }), "writes a float in a format that is not decimal")
		text(v, name, n.allConst(c.Args[off+2], eqTo(-1)), "writes a float with a fixed number of digits")
		n.width(f, ci, v, c.Args[off+3])
	case "(reflect.Value).SetInt", "(reflect.Value).SetUint", "(reflect.Value).SetFloat":
		os := n.origins(c.Args[1])
		n.parses(f, ci, os, name, true)
		n.lossyTo(f, ci, os, func(o numOrigin) bool { return o.kind == "parse" }, name, "number kept")
	case "encoding/json.Unmarshal", "(*encoding/json.Decoder).Decode":
		a := c.Args[1]
		if mi, ok := a.(*ssa.MakeInterface); ok {
			if p, ok := mi.X.Type().Underlying().(*types.Pointer); ok && untypedNumbers(p.Elem()) {
				n.r.Bad("format", fnName(f), name, n.w.InstrPos(ci), "numbers are decoded into interface values, which turns integers into floats")
			}
		}
	}
	if i, ok := fmtArgs[name]; ok {
		n.fmtCall(f, ci, name, i)
	}
}

func untypedNumbers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return u.NumMethods() == 0
	case *types.Map:
		return untypedNumbers(u.Elem())
	case *types.Slice:
		return untypedNumbers(u.Elem())
	}
	return false
}

// fmtArgs: index of the format argument, -1 if there is none.
var fmtArgs = map[string]int{"fmt.Sprintf": 0, "fmt.Fprintf": 1, "fmt.Appendf": 1}

func (n *numFlow) fmtCall(f *ssa.Function, ci ssa.CallInstruction, name string, at int) {
	c := ci.Common()
	sl, ok := c.Args[at+1].(*ssa.Slice)
	if !ok {
		return
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return
	}
	args := map[int]ssa.Value{}
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			continue
		}
		for _, s := range *ia.Referrers() {
			if st, ok := s.(*ssa.Store); ok && st.Addr == ia {
				args[int(k.Int64())] = st.Val
			}
		}
	}
	cs, known := n.consts(c.Args[at], 0)
	var idx []int
	for i := range args {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	for _, i := range idx {
		mi, ok := args[i].(*ssa.MakeInterface)
		if !ok || !isNumType(mi.X.Type()) || hasFormatMethod(mi.X.Type()) {
			continue
		}
		os := n.origins(mi.X)
		if !anyNumber(os) {
			continue
		}
		what := fmt.Sprint(name, " argument ", i+1)
		good, why := known, "formats a number with a format that is not constant"
		for _, k := range cs {
			if k.Kind() != constant.String {
				good = false
				continue
			}
			spec := verbOf(constant.StringVal(k), i)
			verb := byte(0)
			if spec != "" {
				verb = spec[len(spec)-1]
			}
			want := "dv"
			if isFloatType(mi.X.Type()) {
				want = "vgG"
			}
			if verb == 0 || !strings.ContainsRune(want, rune(verb)) || strings.ContainsAny(spec, ".*[") {
				good, why = false, fmt.Sprintf("formats a number with %q, which loses digits or is not decimal", spec)
			}
		}
		if !good {
			n.r.Bad("format", fnName(f), what, n.w.InstrPos(ci), "%s %s", what, why)
			continue
		}
		n.r.OK("format")
		n.r.Sample("format", "%s %s in %s", n.w.InstrPos(ci), what, fnName(f))
		n.lossyTo(f, ci, os, numOrigin.number, what, "number kept")
		n.textKept(f, ci, what)
	}
}

// cutters remove or replace parts of a text.
var cutters = map[string]bool{"Trim": true, "TrimLeft": true, "TrimRight": true, "TrimFunc": true, "TrimLeftFunc": true, "TrimRightFunc": true, "TrimPrefix": true,
	"TrimSuffix": true, "Replace": true, "ReplaceAll": true, "Split": true, "SplitN": true, "Cut": true, "CutPrefix": true, "CutSuffix": true, "Map": true, "Fields": true}

// textKept: the digits of a formatted number are not cut off or replaced.
func (n *numFlow) textKept(f *ssa.Function, ci ssa.CallInstruction, what string) {
	v := ci.Value()
	if v == nil {
		return
	}
	seen := map[ssa.Value]bool{}
	var cut ssa.Instruction
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch t := u.(type) {
			case *ssa.Phi:
				walk(t)
			case *ssa.Convert:
				walk(t)
			case *ssa.Slice:
				if t.X == v && (t.High != nil || t.Low != nil) {
					cut = t
				}
			case ssa.CallInstruction:
				g := t.Common().StaticCallee()
				if g != nil && g.Pkg != nil && g.Signature.Recv() == nil && (g.Pkg.Pkg.Path() == "strings" || g.Pkg.Pkg.Path() == "bytes") && cutters[g.Name()] && len(t.Common().Args) > 0 && t.Common().Args[0] == v {
					cut = t
				}
			}
		}
	}
	walk(v)
	if cut != nil {
		n.r.Bad("format", fnName(f), what, n.w.InstrPos(cut), "digits of the text %s writes are cut off or replaced at %s", what, n.w.InstrPos(cut))
	}
}

// verbOf is the verb of a format for argument i.
func verbOf(s string, i int) string {
	for p := 0; p < len(s); p++ {
		if s[p] != '%' {
			continue
		}
		q := p + 1
		for q < len(s) && strings.IndexByte("+-# 0123456789.*[]", s[q]) >= 0 {
			q++
		}
		if q >= len(s) {
			return ""
		}
		if s[q] != '%' {
			if i == 0 {
				return s[p : q+1]
			}
			i--
		}
		p = q
	}
	return ""
}

func (n *numFlow) stored(f *ssa.Function, st *ssa.Store, fa *ssa.FieldAddr) {
	key := fieldKey(fa.X.Type(), fa.Field)
	if n.payload[key] {
		os := n.origins(st.Val)
		sink := fieldShort(fa)
		n.parses(f, st, os, sink, false)
		n.lossyTo(f, st, os, func(o numOrigin) bool { return o.number() && o.kind != "payload" }, sink, "number kept")
	}
	if pay := n.bitKey[key]; pay != "" {
		var v ssa.Value
		for _, u := range *fa.X.Referrers() {
			if d, ok := u.(*ssa.FieldAddr); ok && fieldKey(d.X.Type(), d.Field) == pay {
				for _, s := range *d.Referrers() {
					if s, ok := s.(*ssa.Store); ok && s.Addr == d {
						v = s.Val
					}
				}
			}
		}
		if n.pair(v, st.Val, 0) {
			n.r.OK("width")
		} else {
			n.r.Bad("width", fnName(f), fieldShort(fa), n.w.InstrPos(st), "a float node is marked as 32 bits though its number may not come from a float32")
		}
	}
}

func fieldShort(fa *ssa.FieldAddr) string {
	t := deref(fa.X.Type())
	name := t.String()
	if nt, ok := t.(*types.Named); ok {
		name = nt.Obj().Name()
	}
	return name + "." + fname(fa.X.Type(), fa.Field)
}

// from32: the float was a float32.
func (n *numFlow) from32(v ssa.Value) bool {
	if v == nil {
		return false
	}
	for {
		switch t := v.(type) {
		case *ssa.Convert:
			if basicOf(t.X.Type()) != nil && basicOf(t.X.Type()).Kind() == types.Float32 {
				return true
			}
			if n.fits[t] && bitsOf(t.Type()) == 32 {
				return true
			}
			v = t.X
			continue
		case *ssa.ChangeType:
			v = t.X
			continue
		case *ssa.Const:
			return t.Value != nil && constant.Sign(t.Value) == 0
		case *ssa.Phi:
			for _, e := range t.Edges {
				if e != v && !n.from32(e) {
					return false
				}
			}
			return true
		case *ssa.Parameter:
			f := t.Parent()
			if f.Object() == nil || f.Object().Exported() || len(n.callers[f]) == 0 {
				return false
			}
			for _, c := range n.callers[f] {
				if a := argFor(c, f, t); a == nil || !n.from32(a) {
					return false
				}
			}
			return true
		}
		return false
	}
}

// pair: the width fits the number it is used with.
func (n *numFlow) pair(v, b ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch t := b.(type) {
	case *ssa.Const:
		if t.Value == nil {
			return true
		}
		return t.Int64() != 32 || n.from32(v)
	case *ssa.Phi:
		for _, e := range t.Edges {
			if !n.pair(v, e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		f := t.Parent()
		if f.Object() == nil || f.Object().Exported() || len(n.callers[f]) == 0 {
			return false
		}
		for _, c := range n.callers[f] {
			b2 := argFor(c, f, t)
			v2 := v
			if p := numParam(v); p != nil && p.Parent() == f {
				if a := argFor(c, f, p); a != nil && !n.from32(v) {
					v2 = a
				}
			}
			if b2 == nil || !n.pair(v2, b2, d+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		// the width of the node the number is loaded from
		ba, ok := t.X.(*ssa.FieldAddr)
		if !ok || v == nil {
			return false
		}
		if lv, ok := v.(*ssa.UnOp); ok {
			if va, ok := lv.X.(*ssa.FieldAddr); ok {
				return va.X == ba.X && n.bits[fieldKey(va.X.Type(), va.Field)] == fieldKey(ba.X.Type(), ba.Field)
			}
		}
	case *ssa.Field:
		if fv, ok := v.(*ssa.Field); ok {
			return fv.X == t.X
		}
	case *ssa.Call:
		// a width computed from the node's own by a method of the node or a helper
		ts := n.w.Targets(&t.Call)
		if len(ts) != 1 {
			return false
		}
		for _, blk := range ts[0].Blocks {
			r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
			if !ok || len(r.Results) != 1 {
				continue
			}
			if !n.pairIn(v, r.Results[0], &t.Call, ts[0], d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// pairIn is pair for a width found inside a callee.
func (n *numFlow) pairIn(v, b ssa.Value, c *ssa.CallCommon, g *ssa.Function, d int) bool {
	switch t := b.(type) {
	case *ssa.Const:
		return t.Value == nil || t.Int64() != 32 || n.from32(v)
	case *ssa.Phi:
		for _, e := range t.Edges {
			if !n.pairIn(v, e, c, g, d+1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		if a := argFor(c, g, t); a != nil {
			return n.pair(v, a, d+1)
		}
	case *ssa.UnOp:
		ba, ok := t.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		p, ok := ba.X.(*ssa.Parameter)
		if !ok {
			return false
		}
		if lv, ok := v.(*ssa.UnOp); ok {
			if va, ok := lv.X.(*ssa.FieldAddr); ok {
				return va.X == argFor(c, g, p) && n.bits[fieldKey(va.X.Type(), va.Field)] == fieldKey(ba.X.Type(), ba.Field)
			}
		}
	}
	return false
}

func numParam(v ssa.Value) *ssa.Parameter {
	for v != nil {
		switch t := v.(type) {
		case *ssa.Parameter:
			return t
		case *ssa.Convert:
			v = t.X
		default:
			return nil
		}
	}
	return nil
}

// width checks the width a float is formatted with; a width of 32 that is only
// used where the node is known to have it is fine.
func (n *numFlow) width(f *ssa.Function, ci ssa.CallInstruction, v, b ssa.Value) {
	if n.pair(v, b, 0) {
		n.r.OK("width")
		return
	}
	ok, seen := true, false
	ob := map[*ssa.Function]bool{f: true}
	p := NewPathRun(n.w)
	p.Inline = func(x *Exec, c *Call) bool {
		return ob[c.Fn] || c.Fn != nil && len(findLoops(c.Fn)) == 0 && len(c.Fn.Blocks) < 12
	}
	p.Call = func(x *Exec, c *Call) {
		if c.Instr != ci {
			return
		}
		seen = true
		bt := c.Args[len(c.Args)-1]
		vt := c.Args[len(c.Args)-4]
		if x.Entails(x.Lin(bt).plus(-64)) {
			return
		}
		if vt.op == OLoad && vt.args[0].op == OFieldAddr {
			base := vt.args[0].args[0]
			st := structOf(deref(base.typ))
			for i := 0; st != nil && i < st.NumFields(); i++ {
				if n.bitKey[fieldKey(base.typ, i)] != "" {
					w := x.Load(x.ts.Mk(OFieldAddr, types.NewPointer(st.Field(i).Type()), "", i, base))
					if x.eqLin(x.Lin(w), x.Lin(bt)) {
						return
					}
				}
			}
		}
		ok = false
	}
	if !p.Run(f) || !seen {
		ok = false
	}
	if ok {
		n.r.OK("width")
		return
	}
	n.r.Bad("width", fnName(f), "strconv.FormatFloat", n.w.InstrPos(ci), "a float may be written with 32 bits though it does not come from a float32")
}

// returned checks numbers handed out by accessors.
func (n *numFlow) returned(f *ssa.Function, t *ssa.Return) {
	if f.Object() == nil || !f.Object().Exported() {
		return
	}
	for i, v := range t.Results {
		if !isNumType(v.Type()) || bitsOf(v.Type()) < 64 {
			continue
		}
		os := n.origins(v)
		sink := fmt.Sprint("result ", i)
		n.parses(f, t, os, sink, false)
		n.lossyTo(f, t, os, func(o numOrigin) bool { return o.kind == "parse" }, sink, "number kept")
	}
}

// intFirst: a text becomes a float node only when it is no integer.
func (n *numFlow) intFirst() {
	w := n.w
	ob := newObls(w, n.r)
	node := w.NodeIface()
	results := map[*ssa.Function]int{}
	for _, f := range w.Funcs {
		textual := false
		for _, p := range f.Params {
			textual = textual || isText(p.Type())
		}
		ri := -1
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if types.Identical(f.Signature.Results().At(i).Type().Underlying(), node) {
				ri = i
			}
		}
		if textual && ri >= 0 && n.mayParse(f, 3) {
			results[f] = ri
		}
	}
	inline := func(f, g *ssa.Function) bool {
		return g != nil && !w.Reach([]*ssa.Function{g})[f] && (n.mayParse(g, 2) || len(findLoops(g)) == 0 && len(g.Blocks) < 8)
	}
	// a helper is judged where it is used when all its callers are judged
	judged := func(f *ssa.Function) bool {
		if f.Object() == nil || f.Object().Exported() || f.Signature.Recv() != nil || n.taken[f] || len(n.callers[f]) == 0 {
			return false
		}
		for _, c := range n.callers[f] {
			b := n.parent[c]
			if _, ok := results[b]; !ok || !inline(b, f) {
				return false
			}
		}
		return true
	}
	var fns []*ssa.Function
	for f := range results {
		if !judged(f) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	for _, f := range fns {
		ri := results[f]
		p := NewPathRun(w)
		p.Inline = func(x *Exec, c *Call) bool { return inline(f, c.Fn) }
		p.Ret = func(x *Exec, args, res []*Term) {
			t := res[ri]
			for t.op == OIface || t.op == OConv {
				t = t.args[0]
			}
			st := structOf(deref(t.typ))
			for i := 0; st != nil && i < st.NumFields(); i++ {
				key := fieldKey(t.typ, i)
				if _, isFloat := n.bits[key]; !isFloat && !(n.payload[key] && isFloatType(st.Field(i).Type())) {
					continue
				}
				d := x.Load(x.ts.Mk(OFieldAddr, types.NewPointer(st.Field(i).Type()), "", i, t))
				d = x.rep1(d)
				if d.op != OExtract || d.args[0].op != OCall || d.args[0].aux != "strconv.ParseFloat" {
					continue
				}
				text := d.args[0].args[0]
				ok := false
				for _, e := range x.Events {
					if e.Kind == "call" && e.Name == "strconv.ParseInt" && e.Res != nil && e.Args[0] == text {
						b, k1 := e.Args[1].IntVal()
						z, k2 := e.Args[2].IntVal()
						errT := x.ts.Mk(OExtract, e.Res.typ.(*types.Tuple).At(1).Type(), "", 1, e.Res)
						ok = ok || k1 && k2 && b == 10 && z == 64 && x.knownNil(errT) == 0
					}
				}
				ob.need(nil, f.Blocks[0].Instrs[0], "integer first", fnName(f)+" result", ok, "a float is made of a text that was not tried as a 64-bit integer before")
			}
		}
		if !p.Run(f) {
			n.r.Bad("undecided", fnName(f), "paths", "-", "too many paths to decide")
		}
	}
	ob.finish()
}

// mayParse: the function, or one it calls, reads a float.
func (n *numFlow) mayParse(f *ssa.Function, d int) bool {
	if d == 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if calleeFullName(ci.Common()) == "strconv.ParseFloat" {
					return true
				}
				if g := ci.Common().StaticCallee(); g != nil && n.w.IsMain(g) && n.mayParse(g, d-1) {
					return true
				}
			}
		}
	}
	return false
}

// reflectConvert: numbers keep their width in reflect.Value.Convert.
func (n *numFlow) reflectConvert() {
	rf := NewRefl(n.w)
	ob := newObls(n.w, n.r)
	ints, floats := rangeSet(2, 12), rangeSet(13, 14)
	wideInts := kset(2, 6, 7, 11, 12)
	rf.Call = func(x *Exec, c *Call) {
		if c.Name != "(reflect.Value).Convert" {
			return
		}
		from := x.KindOf(c.Args[0])
		to := x.KindsOfType(c.Args[1])
		if from.And(ints).Empty() && from.And(floats).Empty() || !from.Minus(ints).Minus(floats).Empty() {
			return
		}
		ok := true
		if wide := from.And(kset(2, 6, 7, 11, 12)); !wide.Empty() {
			ok = ok && to.Minus(wideInts).Empty()
		}
		if !from.And(kset(5, 10)).Empty() {
			ok = ok && to.Minus(wideInts.Or(kset(5, 10, 14))).Empty()
		}
		if !from.And(kset(13)).Empty() {
			ok = ok && to.Minus(floats).Empty()
		}
		if !from.And(kset(14)).Empty() {
			ok = ok && to.Minus(kset(14)).Empty()
		}
		ob.need(c.Fr, c.Instr, "reflect conversion", "Convert", ok, "a number of kind %s is converted to %s", kindSetString(from), kindSetString(to))
	}
	rf.Instr = func(x *Exec, fr *Frame, in ssa.Instruction) {
		cv, ok := in.(*ssa.Convert)
		if !ok || !lossyConvert(cv.X.Type(), cv.Type()) {
			return
		}
		call, ok := cv.X.(*ssa.Call)
		if !ok {
			return
		}
		switch calleeFullName(call.Common()) {
		case "(reflect.Value).Float", "(reflect.Value).Int", "(reflect.Value).Uint":
		default:
			return
		}
		good := true
		for _, k := range basicKinds {
			if x.KindOf(x.Val(fr, call.Call.Args[0])).Has(int(k.kind)) && lossyConvert(types.Typ[k.basic], cv.Type()) {
				good = false
			}
		}
		if old, seen := n.fits[cv]; seen {
			good = good && old
		}
		n.fits[cv] = good
	}
	rf.Run()
	ob.finish()
}

// the kinds of package reflect have the numbers of the basic types up to Float64
var basicKinds = func() (out []struct {
	kind  int64
	basic types.BasicKind
}) {
	for b := types.Int; b <= types.Float64; b++ {
		out = append(out, struct {
			kind  int64
			basic types.BasicKind
		}{int64(b-types.Int) + 2, b})
	}
	return
}()
