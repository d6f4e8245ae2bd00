package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Order analysis: which values are sequences in Go's random map order, and
// whether anything done with them depends on that order. Sources are ranges over
// maps and the keys of a map taken by reflection; a sequence built in a loop over
// an unordered source, or handed over from one, is unordered until it is sorted by
// a comparison of whole elements. Each turn of a loop over an unordered source
// may only have effects that commute.

type orderFlow struct {
	w       *World
	r       *Rep
	o       *Own
	callers map[*ssa.Function][]ssa.CallInstruction
	loops   map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	why     map[ssa.Value]string
	work    []ssa.Value
	done    map[string]bool
	api     map[*ssa.Function]bool
}

func newOrderFlow(w *World, r *Rep) *orderFlow {
	q := &orderFlow{w: w, r: r, callers: map[*ssa.Function][]ssa.CallInstruction{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{},
		why: map[ssa.Value]string{}, done: map[string]bool{}, api: map[*ssa.Function]bool{}}
	var roots []*ssa.Function
	for _, f := range w.Funcs {
		if f.Parent() == nil {
			roots = append(roots, f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range w.Targets(ci.Common()) {
						q.callers[g] = append(q.callers[g], ci)
					}
				}
			}
		}
	}
	q.o = NewOwn(w, roots)
	for _, f := range w.ExportedFuncs() {
		q.api[unwrapPromoted(f)] = true
	}
	return q
}

func (q *orderFlow) loopsOf(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if q.loops[f] == nil {
		q.loops[f] = findLoops(f)
	}
	return q.loops[f]
}

// innermost loop that contains a block.
func (q *orderFlow) loopAt(b *ssa.BasicBlock) (head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	for h, l := range q.loopsOf(b.Parent()) {
		if l[b] && (body == nil || len(l) < len(body)) {
			head, body = h, l
		}
	}
	return
}

func (q *orderFlow) bad(f *ssa.Function, in ssa.Instruction, construct, format string, a ...any) {
	pos := "-"
	if in != nil {
		pos = q.w.InstrPos(in)
	}
	q.r.Bad("map order", fnName(f), construct, pos, format, a...)
}

// mark queues a value that is a sequence in random order.
func (q *orderFlow) mark(v ssa.Value, why string) {
	if _, ok := q.why[v]; ok {
		return
	}
	q.why[v] = why
	q.work = append(q.work, v)
}

// seqRoot is the variable or value behind conversions.
func seqRoot(v ssa.Value) ssa.Value {
	for {
		switch t := v.(type) {
		case *ssa.ChangeType:
			v = t.X
		case *ssa.MakeInterface:
			v = t.X
		case *ssa.ChangeInterface:
			v = t.X
		case *ssa.Convert:
			v = t.X
		case *ssa.Slice:
			if t.Low != nil || t.High != nil {
				return v
			}
			v = t.X
		case *ssa.UnOp:
			if a, ok := t.X.(*ssa.Alloc); ok && t.Op == token.MUL {
				return a
			}
			return v
		default:
			return v
		}
	}
}

func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// sortCalls are the calls that put the sequence in order, and the comparison.
func sortCall(in ssa.Instruction) (seq ssa.Value, cmp ssa.Value, name string) {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return
	}
	f := ci.Common().StaticCallee()
	if f == nil {
		return
	}
	name = f.RelString(nil)
	if or := f.Origin(); or != nil {
		name = or.RelString(nil)
	}
	args := ci.Common().Args
	switch name {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort", "sort.Sort", "sort.Stable":
		return args[0], nil, name
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		return args[0], args[1], name
	}
	return nil, nil, ""
}

// sorted: on every way to the use the sequence has been sorted.
func (q *orderFlow) sorted(v ssa.Value, use ssa.Instruction) bool {
	root := seqRoot(v)
	for _, b := range use.Parent().Blocks {
		for _, in := range b.Instrs {
			seq, cmp, name := sortCall(in)
			if seq == nil || in == use || !before(in, use) {
				continue
			}
			inner := seq
			if mi, ok := seq.(*ssa.MakeInterface); ok {
				inner = mi.X
			}
			// sort.Reverse and adapters around the sequence
			if c, ok := inner.(*ssa.Call); ok && calleeFullName(&c.Call) == "sort.Reverse" {
				seq = c.Call.Args[0]
			}
			if seqRoot(seq) != root {
				continue
			}
			q.comparator(use.Parent(), in, seq, cmp, name)
			return true
		}
	}
	return false
}

// comparator: the sort compares whole elements.
func (q *orderFlow) comparator(f *ssa.Function, in ssa.Instruction, seq, cmp ssa.Value, name string) {
	k := fmt.Sprintf("cmp|%p", in)
	if q.done[k] {
		return
	}
	q.done[k] = true
	var less *ssa.Function
	switch {
	case cmp != nil:
		switch t := cmp.(type) {
		case *ssa.MakeClosure:
			less = t.Fn.(*ssa.Function)
		case *ssa.Function:
			less = t
		}
	case name == "sort.Sort" || name == "sort.Stable":
		v := seq
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		if ms := sortMethods(q.w, v.Type()); ms != nil {
			less = unwrapPromoted(ms[1])
		}
		if less == nil || !q.w.IsMain(less) {
			less = nil
			switch types.TypeString(v.Type(), nil) {
			case "sort.StringSlice", "sort.IntSlice", "sort.Float64Slice":
				q.r.OK("sorted by whole elements")
				return
			}
		}
	default:
		q.r.OK("sorted by whole elements")
		return
	}
	if less == nil || less.Blocks == nil {
		q.r.Bad("sorted by whole elements", fnName(f), name, q.w.InstrPos(in), "the comparison of the sort is not known")
		return
	}
	c := &cmpCover{q: q, got: map[string]bool{}}
	elem := c.run(less, f)
	if elem == nil {
		q.r.Bad("sorted by whole elements", fnName(f), name, q.w.InstrPos(in), "no comparison of two elements found in %s", fnName(less))
		return
	}
	if miss := c.missing(elem, "", 0); miss != "" {
		q.r.Bad("sorted by whole elements", fnName(f), name, q.w.InstrPos(in), "%s compares only a part of the elements (not %s): different elements stay in random order", fnName(less), miss)
		return
	}
	q.r.OK("sorted by whole elements")
	q.r.Sample("sorted by whole elements", "%s at %s by %s", name, q.w.InstrPos(in), fnName(less))
}

// cmpCover collects which parts of an element a comparison looks at.
type cmpCover struct {
	q   *orderFlow
	got map[string]bool
}

// path of a value inside the element it belongs to; ok is false if it is not part
// of one. Elements are what a sequence holds at one of the two indices, or the
// parameters of a comparison of two elements.
func (c *cmpCover) path(v ssa.Value, elems map[ssa.Value]string, d int) (string, bool) {
	if d > 12 {
		return "", false
	}
	if p, ok := elems[v]; ok {
		return p, true
	}
	switch t := v.(type) {
	case *ssa.UnOp:
		return c.path(t.X, elems, d+1)
	case *ssa.ChangeType:
		return c.path(t.X, elems, d+1)
	case *ssa.Convert:
		return c.path(t.X, elems, d+1)
	case *ssa.MakeInterface:
		return c.path(t.X, elems, d+1)
	case *ssa.Field:
		p, ok := c.path(t.X, elems, d+1)
		return fmt.Sprint(p, ".", t.Field), ok
	case *ssa.FieldAddr:
		p, ok := c.path(t.X, elems, d+1)
		return fmt.Sprint(p, ".", t.Field), ok
	case *ssa.IndexAddr:
		p, ok := c.path(t.X, elems, d+1)
		return p + c.at(t.Index), ok
	case *ssa.Index:
		p, ok := c.path(t.X, elems, d+1)
		return p + c.at(t.Index), ok
	case *ssa.Alloc:
		for _, u := range *t.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == t {
				if p, ok := c.path(st.Val, elems, d+1); ok {
					return p, true
				}
			}
		}
	case *ssa.Slice:
		if t.Low == nil && t.High == nil {
			return c.path(t.X, elems, d+1)
		}
		p, ok := c.path(t.X, elems, d+1)
		return p + "[part]", ok
	case *ssa.Call:
		return c.call(t, elems, d)
	case *ssa.Extract:
		if l, ok := t.Tuple.(*ssa.Call); ok {
			return c.call(l, elems, d)
		}
	}
	return "", false
}

// all values, or one of them
func (c *cmpCover) at(i ssa.Value) string {
	if _, ok := i.(*ssa.Const); ok {
		return "[part]"
	}
	return "[*]"
}

// injective: the whole value can be told from the result.
var injective = map[string]bool{"fmt.Sprint": true, "fmt.Sprintf": true, "(reflect.Value).Interface": true, "(reflect.Value).Int": true, "(reflect.Value).Uint": true,
	"(reflect.Value).Float": true, "(reflect.Value).Bool": true, "strconv.Itoa": true, "strconv.FormatInt": true, "strconv.FormatUint": true, "strconv.Quote": true}

func (c *cmpCover) call(t *ssa.Call, elems map[ssa.Value]string, d int) (string, bool) {
	name := calleeFullName(&t.Call)
	if b, ok := t.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		p, ok := c.path(t.Call.Args[0], elems, d+1)
		return p + "[len]", ok
	}
	if f := t.Call.StaticCallee(); f != nil && c.q.w.IsMain(f) && f.Blocks != nil {
		sub := map[ssa.Value]string{}
		for i, a := range t.Call.Args {
			if p, ok := c.path(a, elems, d+1); ok && i < len(f.Params) {
				sub[f.Params[i]] = p
			}
		}
		if len(sub) > 1 {
			// a comparison of two
			c.scan(f, sub, d+1)
			return "", false
		}
		if len(sub) == 1 {
			res := ""
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 {
					p, ok := c.path(ret.Results[0], sub, d+1)
					if !ok || res != "" && res != p {
						for _, s := range sub {
							return s + "[part]", true
						}
					}
					res = p
				}
			}
			return res, res != "" || len(sub) == 1
		}
		return "", false
	}
	var args []ssa.Value
	for _, a := range t.Call.Args {
		if sl, ok := a.(*ssa.Slice); ok {
			if al, ok := sl.X.(*ssa.Alloc); ok {
				for _, u := range *al.Referrers() {
					if ia, ok := u.(*ssa.IndexAddr); ok {
						for _, s := range *ia.Referrers() {
							if st, ok := s.(*ssa.Store); ok {
								args = append(args, st.Val)
							}
						}
					}
				}
				continue
			}
		}
		args = append(args, a)
	}
	for _, a := range args {
		p, ok := c.path(a, elems, d+1)
		if !ok {
			continue
		}
		if name == "(reflect.Value).String" && c.stringKind(t) || injective[name] {
			return p, true
		}
		return p + "[part]", true
	}
	return "", false
}

// stringKind: the call is made only for values of kind String.
func (c *cmpCover) stringKind(t *ssa.Call) bool {
	for _, b := range t.Parent().Blocks {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, ok := br.Cond.(*ssa.BinOp)
		if !ok || cond.Op != token.EQL {
			continue
		}
		for _, pr := range [][2]ssa.Value{{cond.X, cond.Y}, {cond.Y, cond.X}} {
			k, ok := pr[1].(*ssa.Const)
			l, ok2 := pr[0].(*ssa.Call)
			if ok && ok2 && calleeFullName(&l.Call) == "(reflect.Value).Kind" && k.Value != nil && constant.Compare(k.Value, token.EQL, constant.MakeInt64(24)) && b.Succs[0].Dominates(t.Block()) && len(b.Succs[0].Preds) == 1 {
				return true
			}
		}
	}
	return false
}

// scan adds what the comparisons in a function look at.
func (c *cmpCover) scan(f *ssa.Function, elems map[ssa.Value]string, d int) {
	if d > 12 {
		return
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.BinOp:
				switch t.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ, token.EQL, token.NEQ, token.SUB:
					p, ok1 := c.path(t.X, elems, d+1)
					q, ok2 := c.path(t.Y, elems, d+1)
					if ok1 && ok2 && p == q {
						c.got[p] = true
					}
				}
			case *ssa.If:
				if p, ok := c.path(t.Cond, elems, d+1); ok && isBoolType(t.Cond.Type()) {
					c.got[p] = true
				}
			case *ssa.Call:
				name := calleeFullName(&t.Call)
				if len(t.Call.Args) >= 2 {
					p, ok1 := c.path(t.Call.Args[0], elems, d+1)
					q, ok2 := c.path(t.Call.Args[1], elems, d+1)
					if ok1 && ok2 && p == q && (name == "strings.Compare" || strings.HasPrefix(name, "cmp.Compare") || strings.HasPrefix(name, "cmp.Less") || name == "bytes.Compare" || strings.HasPrefix(name, "slices.Compare")) {
						c.got[p] = true
					}
				}
				c.path(t, elems, d+1)
			}
		}
	}
}

// run finds the elements that a Less method or closure compares.
func (c *cmpCover) run(less, user *ssa.Function) types.Type {
	elems := map[ssa.Value]string{}
	var et types.Type
	ps := less.Params
	if len(ps) == 3 {
		ps = ps[1:]
	}
	if len(ps) != 2 {
		return nil
	}
	if !isIntType(ps[0].Type()) || less.Signature.Results().Len() == 1 && !isBoolType(less.Signature.Results().At(0).Type()) {
		et = ps[0].Type()
		elems[ps[0]], elems[ps[1]] = "", ""
	} else {
		for _, b := range less.Blocks {
			for _, in := range b.Instrs {
				switch t := in.(type) {
				case *ssa.IndexAddr:
					if t.Index == ps[0] || t.Index == ps[1] {
						elems[t] = ""
						et = deref(t.Type())
					}
				case *ssa.Index:
					if t.Index == ps[0] || t.Index == ps[1] {
						elems[t] = ""
						et = t.Type()
					}
				}
			}
		}
	}
	c.scan(less, elems, 0)
	return et
}

// missing names a part of the type that was not compared.
func (c *cmpCover) missing(t types.Type, at string, d int) string {
	if c.got[at] {
		return ""
	}
	if d > 4 {
		return ""
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return c.missing(u.Elem(), at+"[*]", d+1)
	case *types.Array:
		return c.missing(u.Elem(), at+"[*]", d+1)
	case *types.Struct:
		if isReflectValue(t) {
			break
		}
		for i := 0; i < u.NumFields(); i++ {
			if m := c.missing(u.Field(i).Type(), fmt.Sprint(at, ".", i), d+1); m != "" {
				for j := 0; j < u.NumFields(); j++ {
					if j != i && c.missing(u.Field(j).Type(), fmt.Sprint(at, ".", j), d+1) == "" && c.q.follows(t, j, i) {
						m = ""
					}
				}
				if m == "" {
					continue
				}
				return u.Field(i).Name()
			}
		}
		return ""
	}
	return types.TypeString(t, types.RelativeTo(c.q.w.Main.Pkg))
}

// follows: wherever one field of a struct type is stored it gets the value of the
// map entry whose key the other field gets, so that equal keys have equal values.
func (q *orderFlow) follows(t types.Type, key, val int) bool {
	n := 0
	for _, f := range q.w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != val || !types.Identical(deref(fa.X.Type()), t) {
					continue
				}
				it := entryOf(st.Val, false, 0)
				same := false
				for _, in2 := range b.Instrs {
					if st2, ok := in2.(*ssa.Store); ok {
						if fa2, ok := st2.Addr.(*ssa.FieldAddr); ok && fa2.X == fa.X && fa2.Field == key {
							same = it != nil && entryOf(st2.Val, true, 0) == it
						}
					}
				}
				if !same {
					return false
				}
				n++
			}
		}
	}
	return n > 0
}

// entryOf is the iteration over a map whose current key (or text of it), or value,
// this is.
func entryOf(v ssa.Value, key bool, d int) ssa.Value {
	if d > 4 {
		return nil
	}
	switch t := v.(type) {
	case *ssa.Call:
		name := calleeFullName(&t.Call)
		switch {
		case name == "(*reflect.MapIter).Key" && key, name == "(*reflect.MapIter).Value" && !key:
			return t.Call.Args[0]
		case key && t.Call.StaticCallee() != nil && len(t.Call.Args) == 1:
			return entryOf(t.Call.Args[0], key, d+1)
		}
	case *ssa.Extract:
		if nx, ok := t.Tuple.(*ssa.Next); ok && (t.Index == 1) == key {
			return nx
		}
	case *ssa.MakeInterface:
		return entryOf(t.X, key, d+1)
	}
	return nil
}

// sources finds the places where random order enters.
func (q *orderFlow) sources() {
	for _, f := range q.w.Funcs {
		q.r.Visit(fnName(f))
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch t := in.(type) {
				case *ssa.Next:
					if rg, ok := t.Iter.(*ssa.Range); ok && !t.IsString {
						if _, isMap := rg.X.Type().Underlying().(*types.Map); isMap {
							q.r.OK("source of random order")
							q.r.Sample("source of random order", "range over a map in %s at %s", fnName(f), q.w.InstrPos(rg))
							q.mapLoop(f, t, "the range over a map at "+q.w.InstrPos(rg))
						}
					}
				case *ssa.Call:
					switch name := calleeFullName(&t.Call); {
					case name == "(reflect.Value).MapKeys":
						q.r.OK("source of random order")
						q.r.Sample("source of random order", "keys of a map in %s at %s", fnName(f), q.w.InstrPos(t))
						q.mark(t, "the keys of a map taken at "+q.w.InstrPos(t))
					case name == "(*reflect.MapIter).Next":
						q.r.OK("source of random order")
						var el []ssa.Value
						for _, u := range *t.Call.Args[0].Referrers() {
							if c, ok := u.(*ssa.Call); ok && c != t && len(c.Call.Args) > 0 && c.Call.Args[0] == t.Call.Args[0] {
								el = append(el, c)
							}
						}
						head, body := q.loopAt(t.Block())
						why := "the iteration over a map at " + q.w.InstrPos(t)
						if body == nil {
							q.bad(f, t, "map iteration", "an arbitrary entry of %s is used", why)
							continue
						}
						q.loop(f, head, body, el, nil, why, t)
					}
				}
			}
		}
	}
	for len(q.work) > 0 {
		v := q.work[len(q.work)-1]
		q.work = q.work[:len(q.work)-1]
		q.uses(v, q.why[v])
	}
}

func (q *orderFlow) mapLoop(f *ssa.Function, nx *ssa.Next, why string) {
	var el []ssa.Value
	for _, u := range *nx.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index > 0 && len(*e.Referrers()) > 0 {
			el = append(el, e)
		}
	}
	head, body := q.loopAt(nx.Block())
	if body == nil {
		if len(el) > 0 {
			q.bad(f, nx, "map range", "an arbitrary entry of %s is used", why)
		}
		return
	}
	q.loop(f, head, body, el, nil, why, nx)
}

// uses follows a sequence in random order.
func (q *orderFlow) uses(v ssa.Value, why string) {
	f := v.Parent()
	refs := v.Referrers()
	if f == nil || refs == nil {
		return
	}
	for _, u := range *refs {
		if q.sorted(v, u) {
			continue
		}
		if seq, _, _ := sortCall(u); seq != nil {
			continue
		}
		switch t := u.(type) {
		case *ssa.Phi:
			q.mark(t, why)
		case *ssa.ChangeType:
			q.mark(t, why)
		case *ssa.MakeInterface:
			q.mark(t, why)
		case *ssa.Convert:
			q.mark(t, why)
		case *ssa.DebugRef, *ssa.BinOp, *ssa.If:
		case *ssa.UnOp:
			if t.Op == token.MUL {
				q.mark(t, why)
			}
		case *ssa.Slice:
			if t.Low == nil && t.High == nil {
				q.mark(t, why)
			} else if !constZero(t.High) {
				q.bad(f, t, "part of a sequence", "a part of %s is taken, which differs from run to run", why)
			}
		case *ssa.Store:
			if t.Val != v {
				continue
			}
			q.stored(f, t, why)
		case *ssa.Return:
			q.returned(f, t, v, why)
		case *ssa.IndexAddr:
			q.indexed(f, t, t.X, t.Index, v, why)
		case *ssa.Index:
			q.indexed(f, t, t.X, t.Index, v, why)
		case *ssa.Range:
		case *ssa.MakeClosure:
			q.closure(t, v, why)
		case ssa.CallInstruction:
			q.passed(f, t, v, why)
		case *ssa.TypeAssert:
			q.mark(t, why)
		case *ssa.MapUpdate:
			q.bad(f, t, "map entry", "a sequence in the order of %s is kept in a map", why)
		case *ssa.Extract, *ssa.FieldAddr, *ssa.Field:
		default:
			q.bad(f, u, "use", "a sequence in the order of %s is used in a way that is not understood", why)
		}
	}
}

func constZero(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Int && constant.Sign(c.Value) == 0
}

func (q *orderFlow) stored(f *ssa.Function, st *ssa.Store, why string) {
	switch a := st.Addr.(type) {
	case *ssa.Alloc:
		q.variable(a, why)
	case *ssa.FreeVar:
		q.variable(a, why)
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
					for i, fv := range f.FreeVars {
						if fv == a {
							q.variable(mc.Bindings[i], why)
						}
					}
				}
			}
		}
	case *ssa.IndexAddr:
		// element of a variadic argument or of a table of sequences
		q.mark(seqRoot(a.X), why)
	default:
		q.bad(f, st, "kept", "a sequence in the order of %s is kept in memory that outlives the call", why)
	}
}

// variable: a local variable holds such a sequence.
func (q *orderFlow) variable(a ssa.Value, why string) {
	k := fmt.Sprintf("var|%p", a)
	if q.done[k] || a.Referrers() == nil {
		return
	}
	q.done[k] = true
	for _, u := range *a.Referrers() {
		switch t := u.(type) {
		case *ssa.UnOp:
			q.mark(t, why)
		case *ssa.MakeClosure:
			q.closure(t, a, why)
		}
	}
}

func (q *orderFlow) closure(mc *ssa.MakeClosure, v ssa.Value, why string) {
	only := true
	for _, u := range *mc.Referrers() {
		if seq, _, _ := sortCall(u); seq == nil {
			if _, dbg := u.(*ssa.DebugRef); !dbg {
				only = false
			}
		}
	}
	if only || q.sorted(v, mc) {
		return
	}
	fn := mc.Fn.(*ssa.Function)
	for i, b := range mc.Bindings {
		if b == v {
			if _, ptr := v.(*ssa.Alloc); ptr {
				q.variable(fn.FreeVars[i], why)
			} else {
				q.mark(fn.FreeVars[i], why)
			}
		}
	}
}

func (q *orderFlow) returned(f *ssa.Function, t *ssa.Return, v ssa.Value, why string) {
	if q.api[f] {
		q.bad(f, t, "result", "a sequence in the order of %s is returned", why)
		return
	}
	for i, x := range t.Results {
		if x != v {
			continue
		}
		for _, c := range q.callers[f] {
			q.mark2(c, i, f, why)
		}
		if len(q.callers[f]) == 0 && f.Parent() != nil {
			q.bad(f, t, "result", "a sequence in the order of %s is returned by a function value", why)
		}
	}
}

func (q *orderFlow) mark2(c ssa.CallInstruction, i int, f *ssa.Function, why string) {
	cv := c.Value()
	if cv == nil {
		return
	}
	if f.Signature.Results().Len() == 1 {
		q.mark(cv, why)
		return
	}
	for _, u := range *cv.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index == i {
			q.mark(e, why)
		}
	}
}

// harmless: library functions whose result does not depend on the order, or that
// only write logs.
func harmless(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil || f.Pkg == nil {
		return false
	}
	p := f.Pkg.Pkg.Path()
	return p == "yunion.io/x/log" || p == "log" || f.RelString(nil) == "sort.SliceIsSorted" || f.RelString(nil) == "sort.StringsAreSorted"
}

// unordered elements may be summed up by these
var anyOrder = map[string]bool{"yunion.io/x/pkg/utils.IsInStringArray": true, "slices.Contains": true, "slices.Max": true, "slices.Min": true}

func (q *orderFlow) passed(f *ssa.Function, ci ssa.CallInstruction, v ssa.Value, why string) {
	c := ci.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if cv := ci.Value(); cv != nil {
				q.mark(cv, why)
			}
		case "copy":
			if c.Args[1] == v {
				q.mark(seqRoot(c.Args[0]), why)
			}
		}
		return
	}
	name := calleeFullName(c)
	if g := c.StaticCallee(); g != nil && g.Origin() != nil {
		name = g.Origin().RelString(nil)
	}
	ts := q.w.Targets(c)
	if len(ts) == 0 {
		if harmless(c) || anyOrder[name] || isErrorOnly(c) {
			return
		}
		q.bad(f, ci, name, "a sequence in the order of %s is given to %s", why, name)
		return
	}
	off := 0
	if c.IsInvoke() {
		off = 1
		if c.Value == v {
			for _, g := range ts {
				q.mark(g.Params[0], why)
			}
		}
	}
	for _, g := range ts {
		for i, a := range c.Args {
			if a == v && i+off < len(g.Params) {
				q.mark(g.Params[i+off], why)
			}
		}
	}
}

// isErrorOnly: the call makes nothing but an error.
func isErrorOnly(c *ssa.CallCommon) bool {
	r := c.Signature().Results()
	return r.Len() == 1 && isErrorLike(r.At(0).Type())
}

// indexed: an element of such a sequence is read or written.
func (q *orderFlow) indexed(f *ssa.Function, at ssa.Instruction, seq, idx, v ssa.Value, why string) {
	if seq != v {
		return
	}
	av := at.(ssa.Value)
	reads := false
	if _, ok := at.(*ssa.Index); ok {
		reads = true
	}
	for _, u := range *av.Referrers() {
		switch t := u.(type) {
		case *ssa.Store:
			reads = reads || t.Val == av
		case *ssa.DebugRef:
		default:
			reads = true
		}
	}
	if !reads {
		return
	}
	head, body := q.loopAt(at.Block())
	if body == nil {
		q.bad(f, at, "element", "the element at a fixed place of %s is used", why)
		return
	}
	// the loop whose counter is the index
	for {
		pos := q.counters(head, body)
		if pos[idx] {
			q.loop(f, head, body, []ssa.Value{av}, v, why, at)
			return
		}
		var oh *ssa.BasicBlock
		var ob map[*ssa.BasicBlock]bool
		for h, l := range q.loopsOf(f) {
			if l[head] && len(l) > len(body) && (ob == nil || len(l) < len(ob)) {
				oh, ob = h, l
			}
		}
		if ob == nil {
			q.bad(f, at, "element", "an element of %s is picked by its place", why)
			return
		}
		head, body = oh, ob
	}
}

// counters are the values that count the turns of a loop.
func (q *orderFlow) counters(head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	for _, in := range head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isIntType(p.Type()) {
			continue
		}
		s, outside, ok := q.cycle(p, body, func(b *ssa.BinOp) ssa.Value {
			if b.Op == token.ADD || b.Op == token.SUB {
				if _, k := b.Y.(*ssa.Const); k {
					return b.X
				}
				if _, k := b.X.(*ssa.Const); k {
					return b.Y
				}
			}
			return nil
		})
		if ok && len(outside) == 0 && len(s) > 1 {
			for v := range s {
				out[v] = true
			}
		}
	}
	return out
}

// cycle is what a value carried from turn to turn is made of: the values inside
// the loop on the way from its next value back to itself, and the others mixed in.
func (q *orderFlow) cycle(p *ssa.Phi, body map[*ssa.BasicBlock]bool, step func(b *ssa.BinOp) ssa.Value) (s map[ssa.Value]bool, outside []ssa.Value, ok bool) {
	s = map[ssa.Value]bool{p: true}
	ok = true
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if s[v] {
			return
		}
		in, isIn := v.(ssa.Instruction)
		if !isIn || !body[in.Block()] {
			outside = append(outside, v)
			return
		}
		switch t := v.(type) {
		case *ssa.Phi:
			s[v] = true
			for _, e := range t.Edges {
				walk(e)
			}
			return
		case *ssa.BinOp:
			if x := step(t); x != nil {
				s[v] = true
				walk(x)
				return
			}
		}
		outside = append(outside, v)
	}
	for i, e := range p.Edges {
		if body[p.Block().Preds[i]] {
			walk(e)
		}
	}
	return
}

// loop checks the turns of a loop over an unordered source.
func (q *orderFlow) loop(f *ssa.Function, head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, elems []ssa.Value, seq ssa.Value, why string, at ssa.Instruction) {
	k := fmt.Sprintf("loop|%p|%p|%p", head, seq, at)
	if q.done[k] {
		return
	}
	q.done[k] = true
	c := &orderLoop{q: q, f: f, head: head, body: body, why: why, at: at, dep: map[ssa.Value]bool{}, own: q.o.get(f)}
	for _, e := range elems {
		c.dep[e] = true
	}
	c.pos = q.counters(head, body)
	c.run()
}

type orderLoop struct {
	q    *orderFlow
	f    *ssa.Function
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	why  string
	at   ssa.Instruction
	dep  map[ssa.Value]bool // differs from turn to turn
	pos  map[ssa.Value]bool
	own  *fnOwn
	any  bool
	nbad int
}

func (c *orderLoop) bad(in ssa.Instruction, construct, format string, a ...any) {
	c.nbad++
	c.q.bad(c.f, in, construct, "%s", fmt.Sprintf(format, a...)+": it depends on the order of "+c.why)
}

func (c *orderLoop) in(v ssa.Value) bool {
	i, ok := v.(ssa.Instruction)
	return ok && c.body[i.Block()]
}

func (c *orderLoop) headPhi(v ssa.Value) bool {
	p, ok := v.(*ssa.Phi)
	return ok && p.Block() == c.head
}

func (c *orderLoop) depend() {
	for ch := true; ch; {
		ch = false
		for b := range c.body {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if st, isSt := in.(*ssa.Store); isSt && c.dep[st.Val] {
					r := addrBase(st.Addr)
					if (c.in(r) || c.turnVar(r)) && !c.dep[r] {
						c.dep[r] = true
						ch = true
					}
				}
				if !ok || c.dep[v] || c.pos[v] {
					continue
				}
				d := false
				if p, isPhi := v.(*ssa.Phi); isPhi {
					if c.headPhi(v) {
						continue
					}
					first := p.Edges[0]
					for _, e := range p.Edges {
						d = d || c.dep[e] || !sameConst(e, first)
					}
				} else {
					for _, op := range in.Operands(nil) {
						if *op != nil && (c.dep[*op]) {
							d = true
						}
					}
				}
				if d {
					c.dep[v] = true
					ch = true
				}
			}
		}
	}
}

// turnVar: a variable that every turn sets before it uses it.
func (c *orderLoop) turnVar(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	var set *ssa.Store
	for _, u := range *a.Referrers() {
		if st, ok := u.(*ssa.Store); ok && st.Addr == a && c.body[st.Block()] && (set == nil || before(st, set)) {
			set = st
		}
	}
	if set == nil {
		return false
	}
	for _, u := range *a.Referrers() {
		if u != set && (!c.body[u.Block()] || !before(set, u)) {
			return false
		}
	}
	return true
}

func sameConst(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	if !ok1 || !ok2 {
		return false
	}
	if x.Value == nil || y.Value == nil {
		return x.Value == nil && y.Value == nil
	}
	return x.Value.Kind() == y.Value.Kind() && constant.Compare(x.Value, token.EQL, y.Value)
}

func addrBase(a ssa.Value) ssa.Value {
	for {
		switch t := a.(type) {
		case *ssa.FieldAddr:
			a = t.X
		case *ssa.IndexAddr:
			a = t.X
		case *ssa.Slice:
			a = t.X
		default:
			return a
		}
	}
}

// local: everything the value refers to was made in this turn.
func (c *orderLoop) local(v ssa.Value) bool {
	rs := c.own.val(c.q.o, v)
	if len(rs) == 0 {
		return c.in(v) || isConst(v)
	}
	for r := range rs {
		if r.l.kind != labFresh {
			return false
		}
		if !c.inTurn(r.l) {
			return false
		}
	}
	return true
}

func (c *orderLoop) inTurn(l *ownLab) bool {
	here := func(in ssa.Instruction) bool { return in != nil && in.Parent() == c.f && c.body[in.Block()] }
	if l.site == nil || here(l.site) {
		return here(l.site)
	}
	for _, ci := range l.call {
		if here(ci) {
			return true
		}
	}
	return false
}

func isConst(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

func (c *orderLoop) run() {
	c.depend()
	q := c.q
	threaded := map[ssa.Value]bool{}
	// values carried from turn to turn
	for _, in := range c.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if c.pos[p] {
			continue
		}
		c.carried(p, threaded)
	}
	for b := range c.body {
		for _, in := range b.Instrs {
			c.effect(in, threaded)
		}
	}
	c.exits()
	if c.nbad == 0 {
		q.r.OK("turns commute")
		q.r.Sample("turns commute", "%s in %s", c.why, fnName(c.f))
	}
}

// carried: a value that one turn leaves to the next must not tell the order.
func (c *orderLoop) carried(p *ssa.Phi, threaded map[ssa.Value]bool) {
	q := c.q
	s := map[ssa.Value]bool{p: true}
	var mixed []ssa.Value
	kind := ""
	note := func(k string) {
		if kind == "" || kind == k {
			kind = k
		} else {
			kind = "mixed"
		}
	}
	var appends []*ssa.Call
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if s[v] {
			return
		}
		if !c.in(v) {
			mixed = append(mixed, v)
			return
		}
		switch t := v.(type) {
		case *ssa.Phi:
			s[v] = true
			for _, e := range t.Edges {
				walk(e)
			}
			return
		case *ssa.ChangeType:
			s[v] = true
			walk(t.X)
			return
		case *ssa.BinOp:
			switch t.Op {
			case token.ADD, token.MUL, token.AND, token.OR, token.XOR, token.SUB, token.AND_NOT:
				if b, ok := t.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					for _, pr := range [][2]ssa.Value{{t.X, t.Y}, {t.Y, t.X}} {
						if c.reaches(pr[0], p, 0) && !c.reaches(pr[1], p, 0) {
							s[v] = true
							if t.Op == token.SUB || t.Op == token.AND_NOT {
								if pr[0] != t.X {
									continue
								}
								note("sum")
							} else {
								note("sum " + t.Op.String())
								if t.Op == token.ADD {
									kind = strings.Replace(kind, "sum +", "sum", 1)
								}
							}
							walk(pr[0])
							return
						}
					}
				}
			}
		case *ssa.Call:
			if b, ok := t.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				s[v] = true
				note("append")
				appends = append(appends, t)
				walk(t.Call.Args[0])
				return
			}
			if c.sortedAdd(t) {
				s[v] = true
				note("map")
				walk(t.Call.Args[0])
				return
			}
		case *ssa.Extract:
			if l, ok := t.Tuple.(*ssa.Call); ok && c.sortedAdd(l) && t.Index == 0 {
				s[v] = true
				note("map")
				walk(l.Call.Args[0])
				return
			}
		}
		mixed = append(mixed, v)
	}
	for i, e := range p.Edges {
		if c.body[p.Block().Preds[i]] {
			walk(e)
		}
	}
	for v := range s {
		threaded[v] = true
	}
	name := p.Comment
	if name == "" {
		name = "a value"
	}
	switch {
	case len(mixed) == 0 && (kind == "append"):
		for v := range s {
			q.mark(v, c.why)
		}
	case len(mixed) == 0 && kind != "mixed":
	case kind == "":
		// set to the same thing by every turn that sets it, or the largest or smallest
		same := true
		for _, m := range mixed {
			same = same && sameConst(m, mixed[0]) && !c.dep[m]
		}
		if same || c.extreme(s, mixed) || c.oneTurn(p, s) {
			return
		}
		c.bad(p, name, "%s keeps what the last turn put there", name)
	default:
		c.bad(p, name, "%s is built up turn by turn", name)
	}
}

// reaches: inside the loop the value is made from the carried one.
func (c *orderLoop) reaches(v ssa.Value, p *ssa.Phi, d int) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == p {
			return true
		}
		if seen[v] || !c.in(v) {
			return false
		}
		seen[v] = true
		for _, op := range v.(ssa.Instruction).Operands(nil) {
			if *op != nil && walk(*op) {
				return true
			}
		}
		return false
	}
	return walk(v)
}

// sortedAdd: a call that puts an entry into a sorted map under the turn's own key.
func (c *orderLoop) sortedAdd(t *ssa.Call) bool {
	f := t.Call.StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != sortedmapPath || f.Signature.Recv() != nil || len(t.Call.Args) < 2 {
		return false
	}
	return (f.Name() == "Add" || f.Name() == "Delete" || f.Name() == "DeleteIgnoreCase") && c.dep[t.Call.Args[1]]
}

// extreme: the carried value is replaced only when compared with the new one.
func (c *orderLoop) extreme(s map[ssa.Value]bool, mixed []ssa.Value) bool {
	for _, m := range mixed {
		ok := false
		for b := range c.body {
			for _, in := range b.Instrs {
				if o, is := in.(*ssa.BinOp); is {
					switch o.Op {
					case token.LSS, token.GTR, token.LEQ, token.GEQ:
						ok = ok || o.X == m && s[o.Y] || o.Y == m && s[o.X]
					}
				}
			}
		}
		if !ok {
			return false
		}
	}
	return len(mixed) > 0
}

// oneTurn: only the one turn whose key equals a given one changes the value.
func (c *orderLoop) oneTurn(p *ssa.Phi, s map[ssa.Value]bool) bool {
	for v := range s {
		ph, ok := v.(*ssa.Phi)
		if !ok {
			return false
		}
		for i, e := range ph.Edges {
			if s[e] || ph == p && !c.body[ph.Block().Preds[i]] {
				continue
			}
			if !c.equalGuard(ph.Block().Preds[i], ph.Block()) {
				return false
			}
		}
	}
	return true
}

// equalGuard: the edge is taken only when something of the turn equals something
// that is the same in all turns.
func (c *orderLoop) equalGuard(from, to *ssa.BasicBlock) bool {
	isEq := func(b *ssa.BasicBlock, taken *ssa.BasicBlock) bool {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		o, ok := br.Cond.(*ssa.BinOp)
		if !ok || !(o.Op == token.EQL && b.Succs[0] == taken || o.Op == token.NEQ && b.Succs[1] == taken) || b.Succs[0] == b.Succs[1] {
			return false
		}
		if _, isB := o.X.Type().Underlying().(*types.Basic); !isB || isBoolType(o.X.Type()) {
			return false
		}
		inv := func(v ssa.Value) bool { return !c.dep[v] && !c.pos[v] && !c.headPhi(v) }
		return c.dep[o.X] && inv(o.Y) || c.dep[o.Y] && inv(o.X)
	}
	if isEq(from, to) {
		return true
	}
	for b := from; b != nil && c.body[b]; b = b.Idom() {
		d := b.Idom()
		if d != nil && c.body[d] && len(b.Preds) == 1 && isEq(d, b) {
			return true
		}
	}
	return false
}

// effect: what one instruction of a turn does to the outside.
func (c *orderLoop) effect(in ssa.Instruction, threaded map[ssa.Value]bool) {
	q := c.q
	// a counter of the turns is a place in the order
	for _, op := range in.Operands(nil) {
		if *op == nil || !c.pos[*op] {
			continue
		}
		switch t := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.BinOp:
			if c.pos[t] {
				continue
			}
			switch t.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
				// exits are looked at below; other tests on the place tell the order
				for _, u := range *t.Referrers() {
					br, ok := u.(*ssa.If)
					if !ok || c.body[br.Block().Succs[0]] && c.body[br.Block().Succs[1]] {
						c.bad(in, "counter", "a turn acts according to its place")
					}
				}
			default:
				c.bad(in, "counter", "the number of the turn is used")
			}
		case *ssa.IndexAddr, *ssa.Index, *ssa.Lookup:
		default:
			c.bad(in, "counter", "the number of the turn is used")
		}
	}
	switch t := in.(type) {
	case *ssa.Store:
		c.store(t)
	case *ssa.MapUpdate:
		if !c.dep[t.Key] && c.dep[t.Value] && !c.local(t.Map) {
			c.bad(t, "map entry", "every turn overwrites the same entry")
		}
	case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
		c.bad(in, "effect", "a turn sends or defers something")
	case *ssa.Call:
		c.call(t, threaded)
	}
	_ = q
}

func (c *orderLoop) store(t *ssa.Store) {
	base := addrBase(t.Addr)
	if _, ok := base.(*ssa.Alloc); ok && (c.in(base) || c.turnVar(base)) {
		return
	}
	if ia, ok := t.Addr.(*ssa.IndexAddr); ok {
		if c.local(ia.X) {
			return
		}
		if c.pos[ia.Index] {
			if c.dep[t.Val] {
				c.q.mark(seqRoot(ia.X), c.why)
				if a, ok := seqRoot(ia.X).(*ssa.Alloc); ok {
					c.q.variable(a, c.why)
				}
			}
			return
		}
		if c.dep[ia.Index] {
			return
		}
	}
	if a, ok := t.Addr.(*ssa.Alloc); ok && !c.in(a) {
		c.varStore(a, t)
		return
	}
	if a, ok := t.Addr.(*ssa.FreeVar); ok {
		c.varStore(a, t)
		return
	}
	if c.local(base) || !c.dep[t.Val] && isConst(t.Val) {
		return
	}
	c.bad(t, "store", "a turn writes memory that was there before it")
}

// varStore: a variable that keeps its value between turns.
func (c *orderLoop) varStore(a ssa.Value, t *ssa.Store) {
	switch v := t.Val.(type) {
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			c.q.variable(a, c.why)
			return
		}
		if c.sortedAdd(v) {
			return
		}
	case *ssa.BinOp:
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && (v.Op == token.ADD || v.Op == token.MUL || v.Op == token.OR || v.Op == token.AND) {
			return
		}
	case *ssa.Const:
		return
	}
	if !c.dep[t.Val] || c.equalGuard(t.Block(), nil) {
		return
	}
	c.bad(t, "variable", "a variable keeps what the last turn put there")
}

// writers are library functions that write to their first argument.
func writerCall(c *ssa.CallCommon) bool {
	name := calleeFullName(c)
	if c.IsInvoke() {
		return strings.HasPrefix(c.Method.Name(), "Write")
	}
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	switch {
	case strings.HasPrefix(name, "(*strings.Builder)."), strings.HasPrefix(name, "(*bytes.Buffer)."):
		return f.Name() != "String" && f.Name() != "Len" && f.Name() != "Cap" && f.Name() != "Bytes"
	case strings.HasPrefix(name, "fmt.Fprint"), name == "io.WriteString", strings.HasPrefix(name, "(*encoding/json.Encoder)."):
		return true
	case strings.HasPrefix(name, "(reflect.Value)."):
		return strings.HasPrefix(f.Name(), "Set") && f.Name() != "SetMapIndex"
	case name == "reflect.Append", name == "reflect.AppendSlice":
		return true
	}
	return false
}

// commuting: writes of this kind do not show in which order they were made.
func commuting(key string) bool {
	return strings.HasPrefix(key, "M:") || strings.Contains(key, sortedmapPath+".")
}

func (c *orderLoop) call(t *ssa.Call, threaded map[ssa.Value]bool) {
	cm := &t.Call
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if threaded[t] || c.local(cm.Args[0]) || isConst(cm.Args[0]) {
				return
			}
			// a variable of the function, see store
			if u, ok := cm.Args[0].(*ssa.UnOp); ok {
				switch u.X.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					return
				}
			}
			if c.dep[cm.Args[0]] {
				return // memory of this turn's own entry
			}
			c.bad(t, "append", "a turn appends to a sequence that was there before it")
		case "copy":
			if !c.local(cm.Args[0]) {
				c.bad(t, "copy", "a turn overwrites a sequence that was there before it")
			}
		}
		return
	}
	if writerCall(cm) {
		a := cm.Value
		if !cm.IsInvoke() {
			a = cm.Args[0]
		}
		if !c.local(a) {
			c.bad(t, calleeFullName(cm), "a turn writes text or a value with %s", calleeFullName(cm))
		}
		return
	}
	if f := cm.StaticCallee(); f != nil && !c.q.w.IsMain(f) {
		// sorted map functions see carried and store
		return
	}
	args := append([]ssa.Value(nil), cm.Args...)
	if cm.IsInvoke() {
		args = append([]ssa.Value{cm.Value}, args...)
	}
	var fns []*ssa.Function
	fns = append(fns, c.q.w.Targets(cm)...)
	if mc, ok := cm.Value.(*ssa.MakeClosure); ok {
		fns = append(fns, mc.Fn.(*ssa.Function))
	}
	if len(fns) == 0 && !cm.IsInvoke() && cm.StaticCallee() == nil {
		for _, g := range c.q.o.addrTaken() {
			if types.Identical(g.Signature, cm.Value.Type().Underlying()) {
				fns = append(fns, g)
			}
		}
	}
	var textDep bool
	for _, a := range args {
		if isText(a.Type()) && c.dep[a] {
			textDep = true
		}
	}
	done := map[string]bool{}
	for _, g := range fns {
		s := c.q.o.get(g)
		var ws []*ownWrite
		for _, w := range s.writes {
			ws = append(ws, w)
		}
		sort.Slice(ws, func(i, j int) bool { return ws[i].key+ws[i].pos < ws[j].key+ws[j].pos })
		for _, w := range ws {
			if w.r.l.kind == labParam && w.r.l.par >= 0 && w.r.l.par < len(args) && c.local(args[w.r.l.par]) {
				continue
			}
			if c.smapField(w.key) || commuting(w.key) {
				if strings.HasPrefix(w.key, "M:") || textDep {
					continue
				}
				if !c.anyDep(args[1:]) {
					continue
				}
			}
			k := fnName(g) + w.key
			if done[k] {
				continue
			}
			done[k] = true
			c.bad(t, fnName(g), "a turn calls %s, which may write %s%s at %s", fnName(g), w.r.l, dot(w.r.f), w.pos)
			return
		}
	}
}

func (c *orderLoop) anyDep(vs []ssa.Value) bool {
	for _, v := range vs {
		if c.dep[v] {
			return true
		}
	}
	return false
}

// smapField: the memory is a field that holds a sorted map.
func (c *orderLoop) smapField(key string) bool {
	for _, n := range c.q.w.NodeTypes() {
		nt := c.q.w.NamedType(n)
		st := structOf(nt)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if strings.Contains(typeKey(st.Field(i).Type()), sortedmapPath+".") && key == fieldKey(types.NewPointer(nt), i) {
				return true
			}
		}
	}
	return false
}

// exits: leaving the loop early must not tell which turn came first.
func (c *orderLoop) exits() {
	guarded := true
	for b := range c.body {
		for _, s := range b.Succs {
			if c.body[s] || c.exhausted(b) {
				continue
			}
			if !c.equalGuard(b, s) {
				guarded = false
			}
		}
	}
	if guarded {
		// the one entry that was looked for; what is carried was judged before
		return
	}
	// values of a turn that are used after the loop
	picked := map[ssa.Value]bool{}
	for b := range c.body {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && c.dep[v] {
				picked[v] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, b := range c.f.Blocks {
			if c.body[b] {
				continue
			}
			for _, in := range b.Instrs {
				use := false
				for _, op := range in.Operands(nil) {
					use = use || *op != nil && picked[*op]
				}
				if !use {
					continue
				}
				v, isV := in.(ssa.Value)
				if isV && picked[v] {
					continue
				}
				switch t := in.(type) {
				case *ssa.Return:
					for _, x := range t.Results {
						if picked[x] && !isErrorLike(x.Type()) {
							c.once(t, "result", "what the first turn found is returned")
						}
					}
				case *ssa.Store:
					if _, ok := addrBase(t.Addr).(*ssa.Alloc); !ok && picked[t.Val] {
						c.once(t, "store", "what the first turn found is kept")
					}
				case *ssa.MapUpdate:
					c.once(t, "store", "what the first turn found is kept")
				case *ssa.Call:
					if isErrorOnly(&t.Call) || harmless(&t.Call) {
						continue
					}
					picked[v] = true
					ch = true
				default:
					if isV {
						if isErrorLike(v.Type()) {
							continue
						}
						picked[v] = true
						ch = true
					}
				}
			}
		}
	}
	// phis after the loop that differ by the exit taken
	for _, b := range c.f.Blocks {
		if c.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, e := range p.Edges {
				if c.body[b.Preds[i]] && c.threadedSeq(e) && !c.exhausted(b.Preds[i]) {
					c.once(p, "result", "how much was gathered when the loop is left early is used")
				}
			}
		}
	}
}

func (c *orderLoop) threadedSeq(v ssa.Value) bool {
	_, ok := c.q.why[v]
	return ok && c.in(v)
}

func (c *orderLoop) once(in ssa.Instruction, construct, format string) {
	k := fmt.Sprintf("exit|%p|%p", in, c.at)
	if c.q.done[k] {
		return
	}
	c.q.done[k] = true
	c.bad(in, construct, "%s", format)
}

// exhausted: the loop is left here when all entries were visited.
func (c *orderLoop) exhausted(b *ssa.BasicBlock) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if nx, ok := c.at.(*ssa.Next); ok {
		e, ok := br.Cond.(*ssa.Extract)
		return ok && e.Tuple == nx && e.Index == 0
	}
	if v, ok := c.at.(ssa.Value); ok && br.Cond == v {
		return true
	}
	o, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	if c.pos[o.X] || c.pos[o.Y] {
		k := o.Y
		if c.pos[o.Y] {
			k = o.X
		}
		_, isC := k.(*ssa.Const)
		return !isC
	}
	return false
}
