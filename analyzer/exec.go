package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"maps"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Exec is a path-sensitive abstract interpreter over go/ssa (trace
// partitioning): every acyclic path is followed with symbolic values, loops are
// cut at their header after forgetting everything the loop body may change, and
// in-package callees are followed or treated as unknown as the hooks decide.
// No code of the subject is run and no input values are chosen.
type Exec struct {
	w  *World
	ts *Terms
	H  Hooks

	// facts (trailed)
	truth  map[*Term]bool
	eqc    map[*Term]*Term // term -> constant-like representative
	nec    map[*Term][]*Term
	nilf   map[*Term]bool // true nil, false non-nil
	dom    map[*Term]Set
	dyn    map[*Term]types.Type
	ndyn   map[*Term][]types.Type
	lin    []Lin
	cells  map[*Term]*Term
	epoch  map[string]int
	aep    map[*Term]int
	esc    map[*Term]bool
	hep    int           // heap epoch
	repEp  int           // reflect state epoch
	vep    map[*Term]int // per reflect.Value: assignments seen
	vall   int           // assignments to unknown reflect.Values
	Events []*Event
	trail  []func()

	infos map[*ssa.Function]*fnInfo
	mods  map[*ssa.Function]*modSet

	Peel                   int // follow the first turn of each loop exactly
	Steps, Paths, MaxPaths int
	Overflow               bool
	depth                  int
	nframe                 int
	stack                  []*ssa.Function
	kindT                  types.Type
	impl                   map[*Term]Lin  // facts that hold once a term is known true
	ovf                    map[*Term]bool // arithmetic that may have wrapped around
	Refl                   *Refl          // knows what reflect.Values kept in memory satisfy
}

// Event is one observable step of a path.
type Event struct {
	Kind  string // call, store, mapset, append, loop, ...
	Name  string
	Fn    *ssa.Function // resolved callee
	Args  []*Term
	Res   *Term
	Instr ssa.Instruction
	Fr    *Frame
	Data  any
}

// Call describes a call about to be made.
type Call struct {
	Instr  ssa.CallInstruction
	Common *ssa.CallCommon
	Fr     *Frame
	Name   string        // full name of the callee or interface method
	Fn     *ssa.Function // static callee if resolved
	Bind   []*Term       // closure bindings
	Method *types.Func   // interface method, unresolved
	Args   []*Term       // receiver first
	Typ    types.Type    // result type (tuple for several)
}

func (c *Call) Pos() token.Pos { return c.Instr.Pos() }

// Frame is one activation.
type Frame struct {
	id     int
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	parent *Frame
	call   ssa.CallInstruction
	loops  map[*ssa.BasicBlock]*loopAct
	defers []*Call
	depth  int
	k      func(res *Term)
	top    bool

	peeling, peeled map[*ssa.BasicBlock]bool
}

type loopAct struct {
	header *ssa.BasicBlock
	entry  map[*ssa.Phi]*Term
	cur    map[*ssa.Phi]*Term
	mark   int // number of events at loop entry
	facts  any
	mods   *modSet
	fresh  int // counters at loop entry: terms numbered above are made inside
	frame  int
	// how far the memory had changed when the loop was entered
	epoch map[string]int
	aep   map[*Term]int
	esc   map[*Term]bool
}

// Hooks let an analysis observe and steer the interpretation. All may be nil.
type Hooks struct {
	// Inline decides whether an in-package callee is followed.
	Inline func(x *Exec, c *Call) bool
	// Model may give a call its meaning; it calls k once per outcome and
	// returns true, or returns false to fall through to the defaults.
	Model func(x *Exec, c *Call, k func(res *Term)) bool
	// Call observes every call before it happens.
	Call func(x *Exec, c *Call)
	// After observes an opaque call's result.
	After func(x *Exec, c *Call, res *Term)
	// Instr observes every instruction before it is interpreted.
	Instr func(x *Exec, fr *Frame, in ssa.Instruction)
	// Loop0 is called at a loop header before anything is forgotten.
	Loop0 func(x *Exec, fr *Frame, a *loopAct)
	// Loop is called after the havoc at a loop header.
	Loop func(x *Exec, fr *Frame, a *loopAct)
	// Back is called on a back edge with the next values of the header phis.
	Back func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term)
	// Ret observes a return of any frame before the continuation.
	Ret func(x *Exec, fr *Frame, in *ssa.Return, res []*Term)
	// Event observes every event as it is recorded.
	Event func(x *Exec, e *Event)
	// Panic observes an explicit panic.
	Panic func(x *Exec, fr *Frame, in *ssa.Panic)
	// Value may replace a value as it is bound.
	Value func(x *Exec, t *Term) *Term
	// Again decides on a back edge whether one more turn is followed with the
	// values given.
	Again func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) bool
	// Recurse is the number of times a function may be entered again.
	Recurse int
	// Unroll decides at a loop header whether the loop is followed turn by turn
	// (1), not at all (2) or cut as usual (0).
	Unroll func(x *Exec, fr *Frame, b *ssa.BasicBlock) int
	// Branch observes a decided or assumed branch.
	Branch func(x *Exec, fr *Frame, cond *Term, taken bool)
}

func NewExec(w *World, ts *Terms) *Exec {
	x := &Exec{w: w, ts: ts, infos: map[*ssa.Function]*fnInfo{}, mods: map[*ssa.Function]*modSet{}, MaxPaths: 60000}
	x.reset()
	return x
}

func (x *Exec) reset() {
	x.truth = map[*Term]bool{}
	x.eqc = map[*Term]*Term{}
	x.nec = map[*Term][]*Term{}
	x.nilf = map[*Term]bool{}
	x.dom = map[*Term]Set{}
	x.dyn = map[*Term]types.Type{}
	x.ndyn = map[*Term][]types.Type{}
	x.lin = nil
	x.cells = map[*Term]*Term{}
	x.epoch = map[string]int{}
	x.aep = map[*Term]int{}
	x.esc = map[*Term]bool{}
	x.hep, x.repEp, x.vall = 0, 0, 0
	x.vep = map[*Term]int{}
	x.Events = nil
	x.impl = map[*Term]Lin{}
	x.ovf = map[*Term]bool{}
	x.trail = nil
	x.Overflow = false
	x.depth = 0
	x.Paths, x.Steps = 0, 0
	x.stack = nil
}

// --- trail --------------------------------------------------------------

func (x *Exec) mark() int { return len(x.trail) }
func (x *Exec) undo(m int) {
	for len(x.trail) > m {
		f := x.trail[len(x.trail)-1]
		x.trail = x.trail[:len(x.trail)-1]
		f()
	}
}

func setMap[K comparable, V any](x *Exec, m map[K]V, k K, v V) {
	old, had := m[k]
	m[k] = v
	x.trail = append(x.trail, func() {
		if had {
			m[k] = old
		} else {
			delete(m, k)
		}
	})
}

func delMap[K comparable, V any](x *Exec, m map[K]V, k K) {
	old, had := m[k]
	if !had {
		return
	}
	delete(m, k)
	x.trail = append(x.trail, func() { m[k] = old })
}

func (x *Exec) bump(p *int) {
	old := *p
	*p = old + 1
	// epochs must stay unique over the whole run: use a global counter
	x.nframe++
	*p = x.nframe
	x.trail = append(x.trail, func() { *p = old })
}

func (x *Exec) event(e *Event) {
	n := len(x.Events)
	x.Events = append(x.Events[:n:n], e)
	x.trail = append(x.trail, func() { x.Events = x.Events[:n] })
	if x.H.Event != nil {
		x.H.Event(x, e)
	}
}

func (x *Exec) addLin(l Lin) {
	n := len(x.lin)
	x.lin = append(x.lin[:n:n], l)
	x.trail = append(x.trail, func() { x.lin = x.lin[:n] })
}

// --- per function information -------------------------------------------

type fnInfo struct {
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	lmods map[*ssa.BasicBlock]*modSet
}

func (x *Exec) info(fn *ssa.Function) *fnInfo {
	if fi, ok := x.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{loops: findLoops(fn), lmods: map[*ssa.BasicBlock]*modSet{}}
	x.infos[fn] = fi
	for h, body := range fi.loops {
		ms := newModSet()
		for b := range body {
			for _, in := range b.Instrs {
				x.modInstr(in, ms, map[*ssa.Function]bool{})
			}
		}
		fi.lmods[h] = ms.closed()
	}
	return fi
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	loops := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					loops[s] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					n := work[len(work)-1]
					work = work[:len(work)-1]
					if body[n] {
						continue
					}
					body[n] = true
					work = append(work, n.Preds...)
				}
			}
		}
	}
	return loops
}

type modSet struct {
	keys    map[string]bool
	reg     map[string]bool               // keys written through pointers, be they to variables of a function inlined
	allocs  map[ssa.Value]map[string]bool // variables written, with the keys ("*" for any)
	free    map[ssa.Value]map[string]bool // captured variables and parameters written through, with the keys
	all     bool
	reflect bool // something may be written through reflection
	rset    bool // a reflect.Value of this very activation may be assigned
}

func newModSet() *modSet {
	return &modSet{keys: map[string]bool{}, reg: map[string]bool{}, allocs: map[ssa.Value]map[string]bool{}, free: map[ssa.Value]map[string]bool{}}
}

func (m *modSet) addAlloc(a ssa.Value, key string) {
	if m.allocs[a] == nil {
		m.allocs[a] = map[string]bool{}
	}
	m.allocs[a][key] = true
}

func (m *modSet) addFree(i ssa.Value, key string) {
	if m.free[i] == nil {
		m.free[i] = map[string]bool{}
	}
	m.free[i][key] = true
}

// closed counts writes to captured variables as writes through pointers.
func (m *modSet) closed() *modSet {
	if len(m.free) == 0 {
		return m
	}
	n := newModSet()
	n.merge(m)
	n.free = nil
	for _, ks := range m.free {
		for k := range ks {
			if k != "*" {
				n.keys[k], n.reg[k] = true, true
			}
		}
	}
	return n
}

// bind attributes a callee's writes to what it was given.
func (m *modSet) bind(o *modSet, fn *ssa.Function, c *ssa.CallCommon) {
	given := map[ssa.Value]ssa.Value{}
	if len(c.Args) == len(fn.Params) {
		for i, p := range fn.Params {
			given[p] = c.Args[i]
		}
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		for i, f := range fn.FreeVars {
			given[f] = mc.Bindings[i]
		}
	}
	for v, ks := range o.free {
		var r, f ssa.Value
		if g := given[v]; g != nil {
			r, f = ssaRootAlloc(g), ssaRootFree(g)
		}
		for k := range ks {
			if r != nil {
				m.addAlloc(r, k)
				if r.(*ssa.Alloc).Heap && k != "*" {
					m.keys[k] = true
				}
			} else if f != nil {
				m.addFree(f, k)
			} else if k != "*" {
				m.keys[k], m.reg[k] = true, true
			}
		}
	}
}

// ssaRootFree is the captured variable or parameter an address lies in.
func ssaRootFree(v ssa.Value) ssa.Value {
	for {
		switch t := v.(type) {
		case *ssa.FreeVar, *ssa.Parameter:
			return t
		case *ssa.FieldAddr:
			v = t.X
		case *ssa.IndexAddr:
			if _, ok := t.X.Type().Underlying().(*types.Pointer); !ok {
				return nil
			}
			v = t.X
		default:
			return nil
		}
	}
}

// mergeCall adds a callee's effects; its own variables are fresh each time.
func (m *modSet) mergeCall(o *modSet) {
	c := *o
	c.allocs, c.free = nil, nil
	m.merge(&c)
}

func (m *modSet) merge(o *modSet) {
	for k := range o.keys {
		m.keys[k] = true
	}
	for k := range o.reg {
		m.reg[k] = true
	}
	for a, ks := range o.allocs {
		for k := range ks {
			m.addAlloc(a, k)
		}
	}
	for i, ks := range o.free {
		for k := range ks {
			m.addFree(i, k)
		}
	}
	m.all = m.all || o.all
	m.reflect = m.reflect || o.reflect
	m.rset = m.rset || o.rset
}

// ModOf gives what a function may write, transitively.
func (x *Exec) ModOf(fn *ssa.Function) *modSet {
	return x.modOf(fn, map[*ssa.Function]bool{}).closed()
}

func (x *Exec) modOf(fn *ssa.Function, busy map[*ssa.Function]bool) *modSet {
	if m, ok := x.mods[fn]; ok {
		return m
	}
	if busy[fn] {
		return newModSet()
	}
	top := len(busy) == 0
	busy[fn] = true
	ms := newModSet()
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			x.modInstr(in, ms, busy)
		}
	}
	if own, ok := x.w.ownKeys[fn]; ok {
		for k := range ms.keys {
			if !own[k] {
				delete(ms.keys, k)
				delete(ms.reg, k)
			}
		}
		for _, ks := range ms.free {
			for k := range ks {
				if !own[k] && k != "*" {
					delete(ks, k)
				}
			}
		}
	}
	if top { // only complete results are kept
		x.mods[fn] = ms
	}
	return ms
}

func ssaRootAlloc(v ssa.Value) ssa.Value {
	for {
		switch t := v.(type) {
		case *ssa.Alloc:
			return t
		case *ssa.FieldAddr:
			v = t.X
		case *ssa.IndexAddr:
			if _, ok := t.X.Type().Underlying().(*types.Pointer); !ok {
				return nil
			}
			v = t.X
		default:
			return nil
		}
	}
}

func addrKey(v ssa.Value) string {
	switch t := v.(type) {
	case *ssa.FieldAddr:
		return fieldKey(t.X.Type(), t.Field)
	case *ssa.IndexAddr:
		return "E:" + typeKey(deref(t.Type()))
	case *ssa.Global:
		return "G:" + t.RelString(nil)
	}
	return "D:" + typeKey(deref(v.Type()))
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

func fieldKey(ptr types.Type, i int) string {
	return fmt.Sprintf("F:%s.%d", typeKey(deref(ptr)), i)
}

func (x *Exec) modInstr(in ssa.Instruction, ms *modSet, busy map[*ssa.Function]bool) {
	switch t := in.(type) {
	case *ssa.Store:
		if a := ssaRootAlloc(t.Addr); a != nil {
			k := addrKey(t.Addr)
			switch t.Val.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				k = "*"
			}
			ms.addAlloc(a, k)
			if a.(*ssa.Alloc).Heap && !(t.Addr == a && x.w.private(a)) {
				ms.keys[addrKey(t.Addr)] = true
			}
			return
		}
		if f := ssaRootFree(t.Addr); f != nil {
			ms.addFree(f, addrKey(t.Addr))
			return
		}
		ms.keys[addrKey(t.Addr)] = true
		ms.reg[addrKey(t.Addr)] = true
	case *ssa.MapUpdate:
		ms.keys["M:"+typeKey(t.Map.Type())] = true
	case ssa.CallInstruction:
		c := t.Common()
		for _, a := range append([]ssa.Value{c.Value}, c.Args...) {
			ops := []ssa.Value{a}
			if mc, ok := a.(*ssa.MakeClosure); ok {
				ops = mc.Bindings
			}
			if f := c.StaticCallee(); f != nil && x.w.IsMain(f) && f.Blocks != nil && (a == c.Value || len(c.Args) == len(f.Params)) {
				if _, ok := a.(*ssa.MakeClosure); !ok || a == c.Value {
					continue // what the callee does with it is known
				}
			}
			for _, o := range ops {
				for {
					if mi, ok := o.(*ssa.MakeInterface); ok {
						o = mi.X
						continue
					}
					if ct, ok := o.(*ssa.ChangeType); ok {
						o = ct.X
						continue
					}
					break
				}
				if r := ssaRootAlloc(o); r != nil {
					if o != r || !x.w.private(r) {
						ms.addAlloc(r, "*")
					}
				} else if f := ssaRootFree(o); f != nil {
					ms.addFree(f, "*")
				}
			}
		}
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "copy":
				if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
					ms.keys["E:"+typeKey(s.Elem())] = true
				}
			case "append":
				if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
					ms.keys["E:"+typeKey(s.Elem())] = true
				}
			case "delete", "clear":
				ms.keys["M:"+typeKey(c.Args[0].Type())] = true
			}
			return
		}
		if f := c.StaticCallee(); f != nil {
			if x.w.IsMain(f) && f.Blocks != nil {
				o := x.modOf(f, busy)
				ms.bind(o, f, c)
				ms.mergeCall(o)
				return
			}
			x.modExternal(f, c, ms)
			return
		}
		if c.IsInvoke() {
			rs := ms.rset // what a node stores elsewhere is not this value
			for _, f := range x.w.Implementers(c.Value.Type(), c.Method) {
				ms.mergeCall(x.modOf(f, busy).closed())
			}
			ms.rset = rs
			return
		}
		ms.all = true
		ms.reflect = true
		switch c.Value.(type) {
		case *ssa.Parameter, *ssa.FreeVar: // cannot hold on to a value of this activation
		default:
			ms.rset = true
		}
	}
}

func (x *Exec) modExternal(f *ssa.Function, c *ssa.CallCommon, ms *modSet) {
	n := f.RelString(nil)
	if strings.HasPrefix(n, "(reflect.Value).Set") || strings.HasPrefix(n, "(reflect.Value).Call") || n == "(reflect.Value).Grow" {
		ms.reflect = true
		switch f.Name() {
		case "Set", "SetLen", "SetCap", "SetZero", "Grow":
			ms.rset = true
		}
		return
	}
	if strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") {
		for _, a := range c.Args {
			t := a.Type()
			if mi, ok := a.(*ssa.MakeInterface); ok {
				t = mi.X.Type()
			}
			if s, ok := t.Underlying().(*types.Slice); ok {
				ms.keys["E:"+typeKey(s.Elem())] = true
			}
		}
	}
}

// --- heap ---------------------------------------------------------------

func addrRoot(a *Term) *Term {
	for a.op == OFieldAddr || a.op == OIndexAddr || a.op == OSlice {
		a = a.args[0]
	}
	return a
}

func (x *Exec) localRoot(a *Term) *Term {
	r := addrRoot(a)
	if r.op == OAlloc && !x.esc[r] {
		return r
	}
	return nil
}

func (x *Exec) keyOf(a *Term) string {
	switch a.op {
	case OFieldAddr:
		return fieldKey(a.args[0].typ, a.num)
	case OIndexAddr:
		return "E:" + typeKey(deref(a.typ))
	case OGlobal:
		return "G:" + a.aux
	}
	if a.typ == nil {
		return "D:?"
	}
	return "D:" + typeKey(deref(a.typ))
}

func (x *Exec) epochOf(key string) int { return x.epoch[key] }

func (x *Exec) bumpKey(key string) {
	x.nframe++
	setMap(x, x.epoch, key, x.nframe)
	x.bump(&x.hep)
}

func (x *Exec) escape(t *Term) {
	if t == nil {
		return
	}
	switch t.op {
	case OAlloc:
		if !x.esc[t] {
			setMap(x, x.esc, t, true)
			for a, v := range x.cells {
				if addrRoot(a) == t {
					x.escape(v)
				}
			}
		}
	case OLoad, OConst, OParam, OFresh, OGlobal, OFunc, ONil, OCall, OLen, OBin:
		return
	default:
		for _, a := range t.args {
			x.escape(a)
		}
	}
}

// Load reads the value at an address.
func (x *Exec) Load(addr *Term) *Term {
	typ := deref(addr.typ)
	if v, ok := x.cells[addr]; ok {
		if _, isStruct := typ.Underlying().(*types.Struct); !isStruct {
			return v
		}
		return x.mergeStruct(addr, v, typ)
	}
	if addr.op == OFieldAddr {
		if v, ok := x.cells[addr.args[0]]; ok {
			return x.field(v, addr.num, typ)
		}
		// nested whole-struct cells
		if p := addr.args[0]; p.op == OFieldAddr || p.op == OIndexAddr {
			if x.hasCellAbove(p) {
				return x.field(x.Load(p), addr.num, typ)
			}
		}
	}
	if addr.op == OIndexAddr && addr.args[0].op == OAlloc {
		if v, ok := x.cells[addr.args[0]]; ok && v.op == OZero && (addr.args[1].op == OConst || len(x.cellsUnder(addr.args[0])) == 0) {
			return x.ts.ZeroOf(typ)
		}
	}
	if addr.op == OGlobal {
		if v := x.globalValue(addr, typ); v != nil {
			return v
		}
	}
	ep := 0
	if r := addrRoot(addr); r.op == OAlloc && (!x.esc[r] || x.private(r)) {
		ep = x.aep[r]
	} else {
		ep = x.sharedEpoch(x.epoch, addr)
	}
	return x.ts.Mk(OLoad, typ, "", ep, addr)
}

func (x *Exec) sharedEpoch(epoch map[string]int, addr *Term) int {
	ep := epoch[x.keyOf(addr)] + epoch["D:"+typeKey(deref(addr.typ))]<<20
	if addr.op == OFieldAddr {
		ep += epoch["D:"+typeKey(deref(addr.args[0].typ))] << 40
	}
	return ep
}

// before: the load was made before the loop was entered.
func (x *Exec) before(a *loopAct, ld *Term) bool {
	addr := ld.args[0]
	if r := addrRoot(addr); r.op == OAlloc && x.private(r) {
		return ld.num < a.aep[r]
	}
	if r := addrRoot(addr); r.op == OAlloc && !a.esc[r] {
		return !x.esc[r] && ld.num < a.aep[r]
	}
	return ld.num < x.sharedEpoch(a.epoch, addr)
}

func (x *Exec) hasCellAbove(a *Term) bool {
	for {
		if _, ok := x.cells[a]; ok {
			return true
		}
		if a.op != OFieldAddr && a.op != OIndexAddr {
			return false
		}
		a = a.args[0]
	}
}

// mergeStruct rebuilds a struct value when some fields were stored separately.
func (x *Exec) mergeStruct(addr, whole *Term, typ types.Type) *Term {
	st := typ.Underlying().(*types.Struct)
	any := false
	args := make([]*Term, st.NumFields())
	for i := 0; i < st.NumFields(); i++ {
		fa := x.ts.Mk(OFieldAddr, types.NewPointer(st.Field(i).Type()), "", i, addr)
		if x.hasSub(fa) {
			any = true
			args[i] = x.Load(fa)
		} else {
			args[i] = x.field(whole, i, st.Field(i).Type())
		}
	}
	if !any {
		return whole
	}
	return x.ts.Mk(OStruct, typ, "", 0, args...)
}

func (x *Exec) hasSub(a *Term) bool {
	if _, ok := x.cells[a]; ok {
		return true
	}
	for c := range x.cells {
		for p := c; p.op == OFieldAddr || p.op == OIndexAddr; {
			p = p.args[0]
			if p == a {
				return true
			}
		}
	}
	return false
}

func (x *Exec) field(v *Term, i int, typ types.Type) *Term {
	switch v.op {
	case OZero:
		return x.ts.ZeroOf(typ)
	case OStruct:
		return v.args[i]
	case OLoad:
		return x.ts.Mk(OLoad, typ, "", v.num, x.ts.Mk(OFieldAddr, types.NewPointer(typ), "", i, v.args[0]))
	}
	return x.ts.Mk(OField, typ, "", i, v)
}

// Store writes a value to an address.
func (x *Exec) Store(addr, val *Term) {
	x.bump(&x.hep)
	r := x.localRoot(addr)
	if r == nil {
		if addr.op != OAlloc || !x.private(addr) {
			key := x.keyOf(addr)
			x.killKey(key, addr)
			x.bumpKey(key)
		}
		x.escape(val)
	}
	// drop cells inside the overwritten object
	for _, c := range x.cellsUnder(addr) {
		delMap(x, x.cells, c)
	}
	if addr.op == OIndexAddr && addr.args[1].op != OConst {
		// may overwrite any element of the same base
		for c := range x.snapshotCells() {
			if c.op == OIndexAddr && c.args[0] == addr.args[0] && c != addr {
				delMap(x, x.cells, c)
			}
		}
		if v, ok := x.cells[addr.args[0]]; ok && v.op == OZero {
			delMap(x, x.cells, addr.args[0])
		}
	}
	if addr.op == OIndexAddr && r != nil {
		x.nframe++
		setMap(x, x.aep, r, x.nframe)
	}
	setMap(x, x.cells, addr, val)
}

func (x *Exec) snapshotCells() map[*Term]*Term {
	m := make(map[*Term]*Term, len(x.cells))
	for k, v := range x.cells {
		m[k] = v
	}
	return m
}

func (x *Exec) cellsUnder(a *Term) []*Term {
	var out []*Term
	for c := range x.cells {
		for p := c; p.op == OFieldAddr || p.op == OIndexAddr; {
			p = p.args[0]
			if p == a {
				out = append(out, c)
				break
			}
		}
	}
	return out
}

// killKey forgets cells that may alias a store with the given key.
func (x *Exec) killKey(key string, except *Term) {
	for c := range x.snapshotCells() {
		if c == except {
			continue
		}
		if x.localRoot(c) != nil || c.op == OAlloc && x.private(c) {
			continue
		}
		if x.keyOf(c) == key || strings.HasPrefix(key, "D:") && c.op == OFieldAddr && "D:"+typeKey(deref(c.args[0].typ)) == key {
			delMap(x, x.cells, c)
		} else if strings.HasPrefix(key, "F:") && strings.HasPrefix(key, "F:"+typeKey(deref(c.typ))+".") {
			// a whole struct held in one cell loses one field
			x.splitCell(c, key)
		}
	}
}

func (x *Exec) splitCell(c *Term, key string) {
	st := structOf(deref(c.typ))
	if st == nil {
		return
	}
	whole := x.cells[c]
	delMap(x, x.cells, c)
	for i := 0; i < st.NumFields(); i++ {
		fa := x.ts.Mk(OFieldAddr, types.NewPointer(st.Field(i).Type()), "", i, c)
		if _, ok := x.cells[fa]; ok {
			continue
		}
		if fieldKey(c.typ, i) == key {
			continue
		}
		setMap(x, x.cells, fa, x.field(whole, i, st.Field(i).Type()))
	}
}

// havoc forgets everything a modSet may have changed.
func (x *Exec) havoc(ms *modSet) {
	if ms.reflect || ms.all {
		x.bump(&x.repEp)
	}
	if ms.rset {
		x.bump(&x.vall)
	}
	if len(ms.keys) == 0 && len(ms.allocs) == 0 && !ms.all {
		return
	}
	x.bump(&x.hep)
	keys := make([]string, 0, len(ms.keys))
	for k := range ms.keys {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		x.bumpKey(k)
	}
	for c := range x.snapshotCells() {
		r := addrRoot(c)
		if c == r && r.op == OAlloc && (x.w.setOnce(r.val) || x.private(r) && len(ms.allocs[r.val]) == 0) {
			continue
		}
		kill := ms.all && (r.op != OAlloc || x.esc[r])
		if r.op == OAlloc && ms.allocs[r.val]["*"] {
			kill = true
		}
		if !kill {
			keys := ms.keys
			if r.op == OAlloc && !x.esc[r] {
				keys = ms.reg
			}
			if own := ms.allocs[r.val]; r.op == OAlloc && len(own) > 0 {
				all := maps.Clone(keys)
				for k := range own {
					all[k] = true
				}
				keys = all
			}
			k := x.keyOf(c)
			if keys[k] {
				kill = true
			} else if c.op == OFieldAddr && keys["D:"+typeKey(deref(c.args[0].typ))] {
				kill = true
			}
			if !kill {
				if st := structOf(deref(c.typ)); st != nil {
					for i := 0; i < st.NumFields(); i++ {
						if fk := fieldKey(c.typ, i); keys[fk] {
							if _, ok := x.cells[c]; ok {
								x.splitCell(c, fk)
							}
							fa := x.ts.Mk(OFieldAddr, types.NewPointer(st.Field(i).Type()), "", i, c)
							delMap(x, x.cells, fa)
							if r.op == OAlloc {
								x.nframe++
								setMap(x, x.aep, r, x.nframe)
							}
						}
					}
				}
			}
		}
		if kill {
			delMap(x, x.cells, c)
			if r.op == OAlloc {
				x.nframe++
				setMap(x, x.aep, r, x.nframe)
			}
		}
	}
	// variables whose value was not known anyway
	var gone []*Term
	for r := range x.aep {
		if _, ok := x.cells[r]; !ok && len(ms.allocs[r.val]) > 0 {
			gone = append(gone, r)
		}
	}
	sort.Slice(gone, func(i, j int) bool { return gone[i].num < gone[j].num })
	for _, r := range gone {
		x.nframe++
		setMap(x, x.aep, r, x.nframe)
	}
}

// --- running ------------------------------------------------------------

// Run interprets fn from its entry with the given arguments (nil: symbolic
// parameters) and calls done at each normal return.
func (x *Exec) Run(fn *ssa.Function, args []*Term, setup func(args []*Term) bool, done func(res *Term)) {
	x.reset()
	if args == nil {
		args = x.SymArgs(fn)
	}
	if setup != nil && !setup(args) {
		return
	}
	x.enter(nil, nil, fn, args, nil, func(res *Term) {
		x.Paths++
		if done != nil {
			done(res)
		}
	})
}

// SymArgs makes symbolic arguments for a function.
func (x *Exec) SymArgs(fn *ssa.Function) []*Term {
	var args []*Term
	for i, p := range fn.Params {
		args = append(args, x.ts.Param(p.Name(), i, p.Type(), p))
	}
	return args
}

func (x *Exec) enter(parent *Frame, call ssa.CallInstruction, fn *ssa.Function, args, bind []*Term, k func(res *Term)) {
	if fn.Blocks == nil {
		panic("enter without body: " + fn.String())
	}
	x.nframe++
	fr := &Frame{id: x.nframe, fn: fn, env: map[ssa.Value]*Term{}, parent: parent, call: call,
		loops: map[*ssa.BasicBlock]*loopAct{}, k: k, top: parent == nil,
		peeling: map[*ssa.BasicBlock]bool{}, peeled: map[*ssa.BasicBlock]bool{}}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = x.ts.Param(p.Name(), i, p.Type(), p)
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(bind) {
			fr.env[v] = bind[i]
		} else {
			fr.env[v] = x.ts.Param("free:"+v.Name(), 1000+i, v.Type(), v)
		}
	}
	x.runBlock(fr, fn.Blocks[0], nil)
}

// InStack tells whether fn is being followed in this frame or a caller.
func (fr *Frame) InStack(fn *ssa.Function) bool {
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			return true
		}
	}
	return false
}

// Val resolves an operand.
func (x *Exec) Val(fr *Frame, v ssa.Value) *Term {
	switch t := v.(type) {
	case *ssa.Const:
		if t.Value == nil {
			return x.ts.ZeroOf(t.Type())
		}
		return x.ts.Const(t.Value, t.Type())
	case *ssa.Global:
		return x.ts.intern(&Term{op: OGlobal, aux: t.RelString(nil), typ: t.Type(), val: t}, "")
	case *ssa.Function:
		return x.ts.Func(t)
	case *ssa.Builtin:
		return x.ts.Mk(OBuiltin, nil, t.Name(), 0)
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	r := x.ts.Fresh("undef:"+v.Name(), v.Type(), v)
	fr.env[v] = r
	return r
}

func (x *Exec) stop() bool {
	if x.Paths > x.MaxPaths || x.Steps > 8000000 {
		x.Overflow = true
	}
	return x.Overflow
}

func (x *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, pred *ssa.BasicBlock) {
	if x.stop() {
		return
	}
	fi := x.info(fr.fn)
	body, isHeader := fi.loops[b]
	isBack := isHeader && pred != nil && body[pred]
	// values of the phis along this edge
	var phis []*ssa.Phi
	var vals []*Term
	pi := -1
	for i, p := range b.Preds {
		if p == pred {
			pi = i
		}
	}
	n := 0
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		phis = append(phis, ph)
		vals = append(vals, x.Val(fr, ph.Edges[pi]))
	}
	if isHeader && pred != nil && body[pred] && fr.peeling[b] {
		// end of the peeled first turn: enter the loop proper
		x.setPeel(fr.peeling, b, false)
		x.setPeel(fr.peeled, b, true)
		isBack = false
	}
	if isHeader && x.H.Unroll != nil {
		switch x.H.Unroll(x, fr, b) {
		case 1:
			for i, ph := range phis {
				x.setEnv(fr, ph, vals[i])
			}
			x.runFrom(fr, b, n)
			return
		case 2:
			x.Paths++
			return
		}
	}
	if isHeader && isBack {
		next := map[*ssa.Phi]*Term{}
		for i, ph := range phis {
			next[ph] = vals[i]
		}
		if x.H.Back != nil {
			x.H.Back(x, fr, fr.loops[b], next)
		}
		if x.H.Again != nil && x.H.Again(x, fr, fr.loops[b], next) {
			for i, ph := range phis {
				x.setEnv(fr, ph, vals[i])
			}
			x.runFrom(fr, b, n)
			return
		}
		x.Paths++
		return
	}
	if isHeader {
		act := &loopAct{header: b, entry: map[*ssa.Phi]*Term{}, cur: map[*ssa.Phi]*Term{}, mark: len(x.Events)}
		for i, ph := range phis {
			act.entry[ph] = vals[i]
			t := x.ts.Fresh("loop:"+phiName(ph), ph.Type(), ph)
			act.cur[ph] = t
			x.setEnv(fr, ph, t)
		}
		act.fresh, act.frame = x.ts.fresh, x.nframe
		act.mods = fi.lmods[b]
		if x.Peel > 0 && !fr.peeled[b] {
			x.peel(fr, b, pred, phis, vals, n)
			return
		}
		old := fr.loops[b]
		fr.loops[b] = act
		if x.H.Loop0 != nil {
			x.H.Loop0(x, fr, act)
		}
		x.trail = append(x.trail, func() { fr.loops[b] = old })
		x.havoc(fi.lmods[b])
		act.epoch, act.aep, act.esc = maps.Clone(x.epoch), maps.Clone(x.aep), maps.Clone(x.esc)
		x.event(&Event{Kind: "loop", Fr: fr, Data: act, Instr: b.Instrs[0]})
		if x.H.Loop != nil {
			x.H.Loop(x, fr, act)
		}
	} else {
		for i, ph := range phis {
			x.setEnv(fr, ph, vals[i])
		}
	}
	x.runFrom(fr, b, n)
}

func (x *Exec) setPeel(m map[*ssa.BasicBlock]bool, b *ssa.BasicBlock, v bool) {
	old := m[b]
	m[b] = v
	x.trail = append(x.trail, func() { m[b] = old })
}

func (x *Exec) peel(fr *Frame, b, pred *ssa.BasicBlock, phis []*ssa.Phi, vals []*Term, n int) {
	x.setPeel(fr.peeling, b, true)
	for i, ph := range phis {
		x.setEnv(fr, ph, vals[i])
	}
	x.runFrom(fr, b, n)
	x.setPeel(fr.peeling, b, false)
}

func phiName(ph *ssa.Phi) string {
	if ph.Comment != "" {
		return ph.Comment
	}
	return ph.Name()
}

func (x *Exec) runFrom(fr *Frame, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		x.Steps++
		if x.Steps&0x3ff == 0 && x.stop() {
			return
		}
		in := b.Instrs[i]
		if x.H.Instr != nil {
			x.H.Instr(x, fr, in)
		}
		switch t := in.(type) {
		case *ssa.If:
			x.branch(fr, b, x.Val(fr, t.Cond))
			return
		case *ssa.Jump:
			x.runBlock(fr, b.Succs[0], b)
			return
		case *ssa.Return:
			res := make([]*Term, len(t.Results))
			for j, r := range t.Results {
				res[j] = x.Val(fr, r)
			}
			if x.H.Ret != nil {
				x.H.Ret(x, fr, t, res)
			}
			var rt *Term
			switch len(res) {
			case 0:
			case 1:
				rt = res[0]
			default:
				rt = x.ts.Mk(OTuple, nil, "", 0, res...)
			}
			fr.k(rt)
			return
		case *ssa.Panic:
			if x.H.Panic != nil {
				x.H.Panic(x, fr, t)
			}
			x.Paths++
			return
		case *ssa.Call:
			j := i + 1
			x.doCall(fr, t, func(res *Term) {
				if res != nil {
					x.setEnv(fr, t, res)
				}
			}, func() { x.runFrom(fr, b, j) })
			return
		case *ssa.Go:
			x.doCallOpaque(fr, t)
		case *ssa.Defer:
			c := x.resolve(fr, t)
			n := len(fr.defers)
			fr.defers = append(fr.defers[:n:n], c)
			x.trail = append(x.trail, func() { fr.defers = fr.defers[:n] })
		case *ssa.RunDefers:
			if len(fr.defers) > 0 {
				ds := fr.defers
				j := i + 1
				var next func(n int)
				next = func(n int) {
					if n < 0 {
						x.runFrom(fr, b, j)
						return
					}
					x.perform(ds[n], func(*Term) { next(n - 1) })
				}
				next(len(ds) - 1)
				return
			}
		case *ssa.TypeAssert:
			if t.CommaOk {
				x.setEnv(fr, t, x.typeAssert(fr, t))
			} else {
				v := x.Val(fr, t.X)
				is := x.isType(v, t.AssertedType)
				if bv, known := x.Eval(is); known && !bv {
					x.Paths++ // certain panic
					return
				}
				x.Assume(is, true)
				x.setEnv(fr, t, x.asserted(v, t.AssertedType))
			}
		default:
			x.simple(fr, in)
		}
	}
}

func (x *Exec) branch(fr *Frame, b *ssa.BasicBlock, cond *Term) {
	if v, known := x.Eval(cond); known {
		if x.H.Branch != nil {
			x.H.Branch(x, fr, cond, v)
		}
		if v {
			x.runBlock(fr, b.Succs[0], b)
		} else {
			x.runBlock(fr, b.Succs[1], b)
		}
		return
	}
	for i, v := range []bool{true, false} {
		m := x.mark()
		if x.Assume(cond, v) {
			if x.H.Branch != nil {
				x.H.Branch(x, fr, cond, v)
			}
			x.runBlock(fr, b.Succs[i], b)
		}
		x.undo(m)
		if x.Overflow {
			return
		}
	}
}

// Fork explores both outcomes of a condition.
func (x *Exec) Fork(cond *Term, k func(v bool)) {
	if v, known := x.Eval(cond); known {
		k(v)
		return
	}
	for _, v := range []bool{true, false} {
		m := x.mark()
		if x.Assume(cond, v) {
			k(v)
		}
		x.undo(m)
	}
}

// simple interprets an instruction without control flow.
func (x *Exec) simple(fr *Frame, in ssa.Instruction) {
	ts := x.ts
	set := func(v ssa.Value, t *Term) { x.setEnv(fr, v, t) }
	switch t := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		a := ts.Alloc(t, t.Type())
		set(t, a)
		setMap(x, x.cells, a, ts.ZeroOf(deref(t.Type())))
	case *ssa.UnOp:
		v := x.Val(fr, t.X)
		switch t.Op {
		case token.MUL:
			set(t, x.Load(v))
		case token.NOT:
			set(t, x.Not(v))
		case token.ARROW:
			set(t, ts.Fresh("recv", t.Type(), t))
		default:
			set(t, x.un(t.Op.String(), v, t.Type()))
		}
	case *ssa.BinOp:
		set(t, x.Bin(t.Op.String(), x.Val(fr, t.X), x.Val(fr, t.Y), t.Type()))
	case *ssa.ChangeInterface:
		set(t, x.Val(fr, t.X))
	case *ssa.ChangeType:
		set(t, x.Val(fr, t.X))
	case *ssa.Convert:
		set(t, x.Conv(x.Val(fr, t.X), t.Type()))
	case *ssa.MultiConvert:
		set(t, x.Conv(x.Val(fr, t.X), t.Type()))
	case *ssa.MakeInterface:
		v := x.Val(fr, t.X)
		set(t, ts.MkT(OIface, t.Type(), t.X.Type(), "", 0, v))
	case *ssa.MakeClosure:
		fn := t.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range t.Bindings {
			bs = append(bs, x.Val(fr, b))
		}
		x.nframe++
		set(t, ts.intern(&Term{op: OClosure, fn: fn, typ: t.Type(), args: bs}, fmt.Sprintf("%p", fn)))
	case *ssa.MakeMap:
		set(t, ts.Fresh("makemap", t.Type(), t))
		setMap(x, x.nilf, fr.env[t], false)
	case *ssa.MakeChan:
		set(t, ts.Fresh("makechan", t.Type(), t))
	case *ssa.MakeSlice:
		n := x.Val(fr, t.Len)
		c := x.Val(fr, t.Cap)
		ts.fresh++
		r := ts.intern(&Term{op: OMake, num: ts.fresh, typ: t.Type(), val: t, args: []*Term{n, c}}, "")
		set(t, r)
		x.assumeGe(x.Lin(n)) // otherwise it panicked
	case *ssa.Slice:
		set(t, x.slice(fr, t))
	case *ssa.FieldAddr:
		set(t, ts.Mk(OFieldAddr, t.Type(), "", t.Field, x.Val(fr, t.X)))
	case *ssa.Field:
		set(t, x.field(x.Val(fr, t.X), t.Field, t.Type()))
	case *ssa.IndexAddr:
		set(t, x.indexAddr(x.Val(fr, t.X), x.Val(fr, t.Index), t.Type()))
	case *ssa.Index:
		set(t, x.index(x.Val(fr, t.X), x.Val(fr, t.Index), t.Type()))
	case *ssa.Lookup:
		set(t, x.lookup(fr, t))
	case *ssa.Range:
		set(t, ts.Fresh("range", nil, t))
		x.setEnv(fr, t, ts.intern(&Term{op: ORange, num: fr.env[t].num, val: t, args: []*Term{x.Val(fr, t.X)}}, ""))
	case *ssa.Next:
		it := x.Val(fr, t.Iter)
		tup := t.Type().(*types.Tuple)
		k := ts.Fresh("key", tup.At(1).Type(), t)
		v := ts.Fresh("elem", tup.At(2).Type(), t)
		ok := ts.Fresh("more", types.Typ[types.Bool], t)
		if t.IsString && it.op == ORange {
			x.addLin(x.Lin(k))
			x.impl[ok] = x.Lin(x.LenOf(it.args[0])).sub(x.Lin(k)).plus(-1)
		}
		set(t, ts.Mk(OTuple, nil, "", 0, ok, k, v))
		x.event(&Event{Kind: "next", Args: []*Term{it, ok, k, v}, Instr: t, Fr: fr})
	case *ssa.Extract:
		tup := x.Val(fr, t.Tuple)
		set(t, x.extract(tup, t.Index, t.Type()))
	case *ssa.Select:
		set(t, ts.Fresh("select", t.Type(), t))
	case *ssa.SliceToArrayPointer:
		set(t, ts.Mk(OConv, t.Type(), "arrptr", 0, x.Val(fr, t.X)))
	case *ssa.Store:
		a, v := x.Val(fr, t.Addr), x.Val(fr, t.Val)
		x.event(&Event{Kind: "store", Args: []*Term{a, v}, Instr: t, Fr: fr})
		x.Store(a, v)
	case *ssa.MapUpdate:
		m, k, v := x.Val(fr, t.Map), x.Val(fr, t.Key), x.Val(fr, t.Value)
		x.event(&Event{Kind: "mapset", Args: []*Term{m, k, v}, Instr: t, Fr: fr})
		x.bumpKey("M:" + typeKey(t.Map.Type()))
		x.escape(k)
		x.escape(v)
		setMap(x, x.cells, x.mapCell(m, k), v)
	case *ssa.Send:
	case *ssa.Phi:
		// phis are handled at block entry
	default:
		if v, ok := in.(ssa.Value); ok {
			set(v, ts.Fresh(fmt.Sprintf("%T", in), v.Type(), v))
		}
	}
}

// indexAddr names the address of an element; a slice of something shares the
// elements of what it was cut from.
func (x *Exec) indexAddr(s, i *Term, typ types.Type) *Term {
	for s.op == OSlice && !isStringType(s.typ) {
		i = x.Bin("+", s.args[1], i, types.Typ[types.Int])
		s = s.args[0]
	}
	if s.op == OAlloc && i.op != OConst {
		if n, ok := x.constInt(i); ok {
			i = x.ts.Int(n)
		}
	}
	return x.ts.Mk(OIndexAddr, typ, "", 0, s, i)
}

func (x *Exec) mapCell(m, k *Term) *Term {
	return x.ts.Mk(OIndexAddr, types.NewPointer(types.Typ[types.Invalid]), "map", 0, m, k)
}

func (x *Exec) extract(tup *Term, i int, typ types.Type) *Term {
	if tup.op == OTuple {
		return tup.args[i]
	}
	return x.ts.Mk(OExtract, typ, "", i, tup)
}

func (x *Exec) lookup(fr *Frame, t *ssa.Lookup) *Term {
	m, k := x.Val(fr, t.X), x.Val(fr, t.Index)
	if isStringType(t.X.Type()) {
		return x.index(m, k, t.Type())
	}
	mt := t.X.Type().Underlying().(*types.Map)
	ep := x.epoch["M:"+typeKey(t.X.Type())]
	var v *Term
	if cv, ok := x.cells[x.mapCell(m, k)]; ok && ep == x.epoch["M:"+typeKey(t.X.Type())] {
		v = cv
	}
	if v == nil {
		v = x.ts.Mk(OLookup, mt.Elem(), "", ep, m, k)
	}
	x.event(&Event{Kind: "lookup", Args: []*Term{m, k, v}, Data: ep, Instr: t, Fr: fr})
	if t.CommaOk {
		ok := x.ts.Mk(OHas, types.Typ[types.Bool], "", ep, m, k)
		return x.ts.Mk(OTuple, nil, "", 0, v, ok)
	}
	return v
}

func (x *Exec) index(s, i *Term, typ types.Type) *Term {
	if c, ok := s.StrVal(); ok {
		if n, ok := x.rep1(i).IntVal(); ok && n >= 0 && n < int64(len(c)) {
			return x.ts.Const(constant.MakeInt64(int64(c[n])), typ)
		}
	}
	return x.ts.Mk(OIndex, typ, "", 0, s, i)
}

func (x *Exec) slice(fr *Frame, t *ssa.Slice) *Term {
	v := x.Val(fr, t.X)
	var lo, hi *Term
	if t.Low != nil {
		lo = x.Val(fr, t.Low)
	} else {
		lo = x.ts.Int(0)
	}
	base := v
	if t.High != nil {
		hi = x.Val(fr, t.High)
	} else {
		hi = x.LenOf(base)
	}
	return x.ts.Mk(OSlice, t.Type(), "", 0, v, lo, hi)
}

// LenOf gives the length term of a string, slice, array pointer or map value.
func (x *Exec) LenOf(v *Term) *Term {
	switch v.op {
	case OConst:
		if s, ok := v.StrVal(); ok {
			return x.ts.Int(int64(len(s)))
		}
	case ONil:
		return x.ts.Int(0)
	case OMake:
		return v.args[0]
	}
	if v.typ != nil {
		t := v.typ.Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if a, ok := t.(*types.Array); ok {
			return x.ts.Int(a.Len())
		}
	}
	if v.op == OConv && len(v.args) == 1 && strBytes(v.typ, v.args[0].typ) {
		return x.LenOf(v.args[0])
	}
	ep := 0
	if v.typ != nil {
		if _, ok := v.typ.Underlying().(*types.Map); ok {
			ep = x.epoch["M:"+typeKey(v.typ)]
		}
	}
	return x.ts.Mk(OLen, types.Typ[types.Int], "", ep, v)
}

func strBytes(a, b types.Type) bool {
	is := func(t types.Type) bool {
		if t == nil {
			return false
		}
		if isStringType(t) {
			return true
		}
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		e, ok := s.Elem().Underlying().(*types.Basic)
		return ok && e.Kind() == types.Uint8
	}
	return is(a) && is(b)
}

// Conv converts a value to another type.
func (x *Exec) Conv(v *Term, typ types.Type) *Term {
	if v.op == OConst && v.k.Kind() == constant.Int && isIntType(typ) {
		return x.ts.Const(truncConst(v.k, typ), typ)
	}
	if v.typ != nil && types.Identical(v.typ, typ) {
		return v
	}
	if v.typ != nil && types.Identical(v.typ.Underlying(), typ.Underlying()) && !isIntType(typ) {
		return v
	}
	if c, ok := v.StrVal(); ok && isStringType(typ) {
		return x.ts.Const(constant.MakeString(c), typ)
	}
	// string([]byte(s)) == s for provenance purposes keeps the inner value
	return x.ts.Mk(OConv, typ, "", 0, v)
}

func (x *Exec) un(op string, v *Term, typ types.Type) *Term {
	if v.op == OConst {
		switch op {
		case "-":
			if v.k.Kind() == constant.Int || v.k.Kind() == constant.Float {
				return x.ts.Const(truncConst(constant.UnaryOp(token.SUB, v.k, 0), typ), typ)
			}
		}
	}
	return x.ts.Mk(OUn, typ, op, 0, v)
}

// Not negates a boolean term.
func (x *Exec) Not(v *Term) *Term {
	if b, ok := v.BoolVal(); ok {
		return x.ts.Bool(!b)
	}
	if v.op == OUn && v.aux == "!" {
		return v.args[0]
	}
	return x.ts.Mk(OUn, types.Typ[types.Bool], "!", 0, v)
}

// Bin builds a binary operation in canonical form.
func (x *Exec) Bin(op string, a, b *Term, typ types.Type) *Term {
	if a.op == OConst && b.op == OConst {
		if r, ok := foldBin(op, a.k, b.k, typ); ok {
			return x.ts.Const(r, typ)
		}
	}
	switch op {
	case "!=":
		return x.Not(x.Bin("==", a, b, typ))
	case ">":
		return x.Bin("<", b, a, typ)
	case ">=":
		return x.Bin("<=", b, a, typ)
	case "==":
		if a == b && !isFloatType(a.typ) {
			return x.ts.Bool(true)
		}
		if a.id > b.id {
			a, b = b, a
		}
		if bv, ok := a.BoolVal(); ok && isBoolType(b.typ) {
			if bv {
				return b
			}
			return x.Not(b)
		}
		if bv, ok := b.BoolVal(); ok && isBoolType(a.typ) {
			if bv {
				return a
			}
			return x.Not(a)
		}
	case "+":
		if isStringType(typ) {
			if s, ok := a.StrVal(); ok && s == "" {
				return b
			}
			if s, ok := b.StrVal(); ok && s == "" {
				return a
			}
		} else if n, ok := b.IntVal(); ok && n == 0 && isIntType(typ) {
			return a
		} else if n, ok := a.IntVal(); ok && n == 0 && isIntType(typ) {
			return b
		}
	case "-":
		if n, ok := b.IntVal(); ok && n == 0 && isIntType(typ) {
			return a
		}
	}
	return x.ts.Mk(OBin, typ, op, 0, a, b)
}

// --- type tests ---------------------------------------------------------

func (x *Exec) isType(v *Term, t types.Type) *Term {
	if v.op == OIface {
		ct := v.t2
		if it, ok := t.Underlying().(*types.Interface); ok {
			return x.ts.Bool(types.Implements(ct, it))
		}
		return x.ts.Bool(types.Identical(ct, t))
	}
	if v.op == ONil {
		return x.ts.Bool(false)
	}
	if v.op == OCall && v.aux == "rv.Interface" && !types.IsInterface(t) {
		vt := x.TypeOfVal(v.args[0])
		if ks := x.KindsOfType(vt); !ks.Has(kInterface) {
			return x.Bin("==", vt, x.ts.RType(t), types.Typ[types.Bool])
		}
	}
	if v.op == OCall && v.aux == "rv.Interface" && types.IsInterface(t) {
		if vt := x.rep1(x.TypeOfVal(v.args[0])); vt.op == ORType {
			if it := t.Underlying().(*types.Interface); types.Implements(vt.t2, it) {
				if types.IsInterface(vt.t2) {
					return x.Not(x.rvIsNil(v.args[0]))
				}
				return x.ts.Bool(true)
			}
		}
	}
	if it, ok := t.Underlying().(*types.Interface); ok && v.typ != nil {
		if vt, ok := v.typ.Underlying().(*types.Interface); ok && types.Implements(vt, it) {
			return x.Not(x.isNil(v))
		}
	}
	if v.op == OLookup {
		if ts := x.w.tableElems(v.args[0]); ts != nil {
			it, _ := t.Underlying().(*types.Interface)
			if !slices.ContainsFunc(ts, func(e types.Type) bool {
				return types.Identical(e, t) || it != nil && types.Implements(e, it)
			}) {
				return x.ts.Bool(false)
			}
		}
	}
	return x.ts.MkT(OIsType, types.Typ[types.Bool], t, "", 0, v)
}

func (x *Exec) asserted(v *Term, t types.Type) *Term {
	if v.op == OIface {
		if types.Identical(v.t2, t) {
			return v.args[0]
		}
		if types.IsInterface(t) {
			return v
		}
	}
	if types.IsInterface(t) {
		return v
	}
	return x.ts.MkT(OAssert, t, t, "", 0, v)
}

func (x *Exec) typeAssert(fr *Frame, t *ssa.TypeAssert) *Term {
	v := x.Val(fr, t.X)
	is := x.isType(v, t.AssertedType)
	val := x.asserted(v, t.AssertedType)
	if b, ok := is.BoolVal(); ok && !b {
		val = x.ts.ZeroOf(t.AssertedType)
	}
	return x.ts.Mk(OTuple, nil, "", 0, val, is)
}

func (x *Exec) isNil(v *Term) *Term {
	return x.Bin("==", v, x.ts.Nil(v.typ), types.Typ[types.Bool])
}

// setEnv binds a value; bindings are undone on backtracking only when blocks
// can be entered twice on one path.
func (x *Exec) setEnv(fr *Frame, v ssa.Value, t *Term) {
	if x.H.Value != nil && t != nil {
		t = x.H.Value(x, t)
	}
	if x.Peel > 0 || x.H.Unroll != nil {
		setMap(x, fr.env, v, t)
		return
	}
	fr.env[v] = t
}

// private: only the function that has the variable assigns it, closures read it.
func (w *World) private(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	if r, ok := w.priv[a]; ok {
		return r
	}
	if w.priv == nil {
		w.priv = map[*ssa.Alloc]bool{}
	}
	var reads func(v ssa.Value, top bool) bool
	reads = func(v ssa.Value, top bool) bool {
		for _, u := range *v.Referrers() {
			switch t := u.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if t.Op != token.MUL {
					return false
				}
			case *ssa.Store:
				if !top || t.Addr != v || t.Val == v {
					return false
				}
			case *ssa.MakeClosure:
				fn := t.Fn.(*ssa.Function)
				for i, b := range t.Bindings {
					if b == v && !reads(fn.FreeVars[i], false) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	w.priv[a] = reads(a, true)
	return w.priv[a]
}

func (x *Exec) private(r *Term) bool { return x.w.private(r.val) }

// setOnce: a variable that is set where it is made and only read afterwards, by
// closures too.
func (w *World) setOnce(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	if r, ok := w.once[a]; ok {
		return r
	}
	if w.once == nil {
		w.once = map[*ssa.Alloc]bool{}
	}
	stores := 0
	var reads func(v ssa.Value, top bool) bool
	reads = func(v ssa.Value, top bool) bool {
		for _, u := range *v.Referrers() {
			switch t := u.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if t.Op != token.MUL {
					return false
				}
			case *ssa.Store:
				if !top || t.Addr != v || t.Val == v || t.Block() != a.Block() {
					return false
				}
				stores++
			case *ssa.MakeClosure:
				fn := t.Fn.(*ssa.Function)
				for i, b := range t.Bindings {
					if b == v && !reads(fn.FreeVars[i], false) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	w.once[a] = reads(a, true) && stores == 1
	return w.once[a]
}
