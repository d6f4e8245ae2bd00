package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C13"] = check{explainC13, runC13} }

const explainC13 = "Every place where Go's random map order enters (ranges over maps, reflect MapKeys and map iterators) is a source. Sequences filled or appended to in a loop over a source are unordered, through variables, calls and results, until a sort by a comparison of whole elements comes before every use. Each loop over an unordered source must consist of turns that commute: no value carried from turn to turn except counters, flags, extremes and unordered sequences, no writes to memory that was there before other than map entries and dict entries under the turn's own key (effects of all callees from the ownership analysis), no use of a turn's number, no early exit with what was found first. The storage of dicts comes from functions of the sorted map only, key sequences are put in no other order, nothing is kept in package variables between calls, and no other source of difference between equal calls (clocks, random numbers, addresses, goroutines) is used."

func runC13(w *World, r *Rep) {
	q := newOrderFlow(w, r)
	q.sources()
	q.storage()
	q.keyOrder()
	q.nondet()
	q.state()
	r.Assume = append(r.Assume, "the sorted map of the dependency keeps its entries sorted and unique", "different keys of one map print differently",
		"custom encoders and String methods of callers are deterministic")
	r.AtLeast("dict storage", 5)
	r.AtLeast("call without nondeterminism", 100)
}

func (q *orderFlow) isSMap(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == sortedmapPath && n.Obj().Name() == "SSortedMap"
}

// storage: sorted maps are made by the sorted map package only.
func (q *orderFlow) storage() {
	for _, f := range q.w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				bad := ""
				switch t := in.(type) {
				case *ssa.ChangeType:
					if q.isSMap(t.Type()) {
						bad = "another slice is used as a sorted map"
					}
				case *ssa.Convert:
					if q.isSMap(t.Type()) {
						bad = "another slice is used as a sorted map"
					}
				case *ssa.MakeSlice:
					if q.isSMap(t.Type()) {
						if k, ok := t.Len.(*ssa.Const); !ok || k.Int64() != 0 {
							bad = "a sorted map is made with entries of its own"
						}
					}
				case *ssa.IndexAddr:
					if q.isSMap(t.X.Type()) {
						for _, u := range *t.Referrers() {
							if st, ok := u.(*ssa.Store); ok && st.Addr == t {
								bad = "an entry of a sorted map is overwritten"
							}
						}
					}
				case *ssa.Call:
					if bi, ok := t.Call.Value.(*ssa.Builtin); ok {
						if bi.Name() == "append" && q.isSMap(t.Type()) {
							bad = "entries are appended to a sorted map"
						}
						if bi.Name() == "copy" && q.isSMap(t.Call.Args[0].Type()) {
							// a copy of a whole sorted map is sorted
							if !q.isSMap(t.Call.Args[1].Type()) {
								bad = "entries are copied into a sorted map"
							}
						}
					}
					if g := t.Call.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == sortedmapPath {
						q.r.OK("dict storage")
					}
					if seq, _, _ := sortCall(t); seq != nil && q.isSMap(seqRoot(seq).Type()) {
						bad = "a sorted map is sorted in another order"
					}
				}
				if bad != "" {
					q.r.Bad("dict storage", fnName(f), "sorted map", q.w.InstrPos(in), "%s", bad)
				}
			}
		}
	}
}

// keyOrder: sequences of keys are not put in another order.
func (q *orderFlow) keyOrder() {
	var roots []*ssa.Function
	nodes := q.w.NodeTypes()
	for _, n := range nodes {
		for _, m := range []string{"String", "PrettyString", "YAMLString", "QueryString", "SortedKeys"} {
			if f, _ := q.w.Method(n, m); f != nil {
				roots = append(roots, unwrapPromoted(f))
			}
		}
	}
	for f := range q.w.Reach(roots) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				seq, cmp, name := sortCall(in)
				if seq != nil {
					v := seqRoot(seq)
					t := v.Type()
					if p, ok := t.Underlying().(*types.Pointer); ok {
						t = p.Elem()
					}
					if _, isCall := v.(*ssa.Call); isCall && calleeFullName(&v.(*ssa.Call).Call) == "sort.Reverse" {
						q.r.Bad("keys ascending", fnName(f), name, q.w.InstrPos(in), "a sequence is sorted downwards")
						continue
					}
					if sl, ok := t.Underlying().(*types.Slice); !ok || !isText(sl.Elem()) {
						continue
					}
					if !q.natural(seq, cmp, name) {
						q.r.Bad("keys ascending", fnName(f), name, q.w.InstrPos(in), "keys are sorted in an order that is not that of the keys")
						continue
					}
					q.r.OK("keys ascending")
				}
				// the keys of a dict read from the end
				ia, ok := in.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				c, ok := seqRoot(ia.X).(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().Pkg == nil || c.Call.StaticCallee().Pkg.Pkg.Path() != sortedmapPath {
					continue
				}
				if q.descending(ia.Index, 0) {
					q.r.Bad("keys ascending", fnName(f), "keys", q.w.InstrPos(in), "the keys of a dict are read from the end")
					continue
				}
				q.r.OK("keys ascending")
			}
		}
	}
}

func (q *orderFlow) descending(i ssa.Value, d int) bool {
	if d > 4 {
		return false
	}
	switch t := i.(type) {
	case *ssa.BinOp:
		if t.Op == token.SUB {
			if _, k := t.X.(*ssa.Const); !k {
				return true
			}
		}
		if t.Op == token.ADD {
			return q.descending(t.X, d+1)
		}
	case *ssa.Phi:
		for _, e := range t.Edges {
			if b, ok := e.(*ssa.BinOp); ok {
				if b.Op == token.SUB && b.X == t {
					return true
				}
				if k, isK := b.Y.(*ssa.Const); isK && b.Op == token.ADD && b.X == t && k.Value != nil && k.Int64() < 0 {
					return true
				}
			}
		}
	}
	return false
}

// natural: the sort is by the natural order of strings.
func (q *orderFlow) natural(seq, cmp ssa.Value, name string) bool {
	switch name {
	case "sort.Strings", "slices.Sort":
		return true
	}
	var less *ssa.Function
	switch t := cmp.(type) {
	case *ssa.MakeClosure:
		less = t.Fn.(*ssa.Function)
	case *ssa.Function:
		less = t
	case nil:
		mi, ok := seq.(*ssa.MakeInterface)
		if !ok {
			return false
		}
		if types.TypeString(mi.X.Type(), nil) == "sort.StringSlice" {
			return true
		}
		if ms := sortMethods(q.w, mi.X.Type()); ms != nil {
			less = unwrapPromoted(ms[1])
		}
	}
	if less == nil || len(less.Blocks) != 1 {
		return false
	}
	n := 0
	for _, in := range less.Blocks[0].Instrs {
		switch t := in.(type) {
		case *ssa.BinOp:
			n++
			if t.Op != token.LSS && t.Op != token.GTR || !isText(t.X.Type()) {
				return false
			}
		case *ssa.Call:
			return calleeFullName(&t.Call) == "strings.Compare"
		}
	}
	return n == 1
}

// state: nothing is kept in package variables from one call to the next.
func (q *orderFlow) state() {
	for _, f := range q.w.ExportedFuncs() {
		s := q.o.get(unwrapPromoted(f))
		bad := false
		var first *ownWrite
		for _, w := range s.writes {
			if w.r.l.kind == labGlobal && (first == nil || w.pos+w.key < first.pos+first.key) {
				bad, first = true, w
			}
		}
		if bad {
			q.r.Bad("state between calls", fnName(f), first.r.l.glob, first.pos, "a call may change what %s holds (in %s), so that the next equal call differs", first.r.l.glob, first.fn)
			continue
		}
		q.r.OK("state between calls")
	}
}

var nondetCalls = []string{"time.Now", "time.Since", "time.Until", "math/rand.", "math/rand/v2.", "(*math/rand", "crypto/rand.", "os.Getpid", "os.Getenv", "os.Hostname", "runtime.", "maphash.", "hash/maphash.",
	"maps.Keys", "maps.Values", "maps.All", "(reflect.Value).Pointer", "(reflect.Value).UnsafeAddr", "(reflect.Value).UnsafePointer"}

// nondet: nothing else makes equal calls differ.
func (q *orderFlow) nondet() {
	for _, f := range q.w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch t := in.(type) {
				case *ssa.Go:
					q.r.Bad("nondeterminism", fnName(f), "go", q.w.InstrPos(in), "a goroutine is started")
				case *ssa.Select:
					if len(t.States) > 1 {
						q.r.Bad("nondeterminism", fnName(f), "select", q.w.InstrPos(in), "a select takes a random branch")
					}
				case *ssa.Convert:
					if bt, ok := t.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
						if ft, ok := t.X.Type().Underlying().(*types.Basic); ok && ft.Kind() == types.UnsafePointer && !q.identity(t) {
							q.r.Bad("nondeterminism", fnName(f), "address", q.w.InstrPos(in), "the address of a value is used as a number")
						}
					}
				case ssa.CallInstruction:
					name := calleeFullName(t.Common())
					if g := t.Common().StaticCallee(); g != nil && g.Origin() != nil {
						name = g.Origin().RelString(nil)
					}
					bad := false
					for _, n := range nondetCalls {
						if strings.HasPrefix(name, n) {
							bad = true
						}
					}
					if bad && strings.HasPrefix(name, "(reflect.Value).") && t.Value() != nil && q.identity(t.Value()) {
						bad = false
					}
					if bad && strings.HasPrefix(name, "maps.") && t.Value() != nil && q.intoSorted(t.Value()) {
						bad = false
					}
					if i, ok := printers[name]; ok {
						if what := q.printsAddress(t.Common(), i); what != "" {
							q.r.Bad("nondeterminism", fnName(f), name, q.w.InstrPos(in), "%s prints %s", name, what)
							continue
						}
					}
					if bad {
						q.r.Bad("nondeterminism", fnName(f), name, q.w.InstrPos(in), "%s gives different results in equal calls", name)
					} else {
						q.r.OK("call without nondeterminism")
					}
				}
			}
		}
	}
}

// identity: an address is only compared or used as the key of a map.
func (q *orderFlow) identity(v ssa.Value) bool {
	for _, u := range *v.Referrers() {
		switch t := u.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
			if t.Op != token.EQL && t.Op != token.NEQ {
				return false
			}
		case *ssa.Lookup:
			if t.Index != v {
				return false
			}
		case *ssa.MapUpdate:
			if t.Key != v {
				return false
			}
		case *ssa.Convert:
			if !q.identity(t) {
				return false
			}
		case ssa.CallInstruction:
			if b, ok := t.Common().Value.(*ssa.Builtin); !ok || b.Name() != "delete" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// intoSorted: an iterator over a map is collected and sorted at once.
func (q *orderFlow) intoSorted(v ssa.Value) bool {
	for _, u := range *v.Referrers() {
		c, ok := u.(*ssa.Call)
		if !ok {
			return false
		}
		g := c.Call.StaticCallee()
		if g == nil || g.Origin() == nil || g.Origin().RelString(nil) != "slices.Sorted" {
			return false
		}
	}
	return true
}

// printers turn values into text; the index of the format, -1 for none.
var printers = map[string]int{"fmt.Sprintf": 0, "fmt.Fprintf": 1, "fmt.Sprint": -1, "fmt.Sprintln": -1}

func (q *orderFlow) printsAddress(c *ssa.CallCommon, at int) string {
	if at >= 0 {
		if k, ok := c.Args[at].(*ssa.Const); ok && k.Value != nil && strings.Contains(k.Value.ExactString(), "%p") {
			return "an address (%p)"
		}
	}
	sl, ok := c.Args[len(c.Args)-1].(*ssa.Slice)
	if !ok {
		return ""
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return ""
	}
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, s := range *ia.Referrers() {
			st, ok := s.(*ssa.Store)
			if !ok {
				continue
			}
			mi, ok := st.Val.(*ssa.MakeInterface)
			if !ok || hasFormatMethod(mi.X.Type()) {
				continue
			}
			switch p := mi.X.Type().Underlying().(type) {
			case *types.Pointer:
				switch p.Elem().Underlying().(type) {
				case *types.Struct, *types.Array, *types.Slice, *types.Map:
				default:
					return fmt.Sprint("the address in a ", mi.X.Type())
				}
			case *types.Signature, *types.Chan:
				return fmt.Sprint("the address in a ", mi.X.Type())
			}
		}
	}
	return ""
}
