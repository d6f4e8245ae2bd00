package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Refl interprets every function of the package that reaches an operation of
// package reflect. Recursive and dynamically called functions are boundaries:
// what their reflect.Value parameters satisfy is inferred from all call sites.

type rvPred int

const (
	pValid   rvPred = iota // not the zero reflect.Value
	pAddr                  // addressable
	pAddrNil               // addressable unless it is a non-nil pointer
	pROFree                // not obtained through an unexported field
	nPreds
	pLower // an integer never falls below its value before the loop
	pUpper // nor rises above it
)

var predNames = []string{"valid", "addressable", "addressable or a non-nil pointer", "reachable without an unexported field"}

type rvKey struct {
	fn  *ssa.Function
	idx int
	phi *ssa.Phi
	p   rvPred
	key string // a reflect.Value kept in memory: its field or element
}

type Refl struct {
	always map[string]bool
	w      *World
	ts     *Terms
	reach  map[*ssa.Function]bool
	B      map[*ssa.Function]bool
	order  []*ssa.Function
	dead   map[rvKey]string
	// preconditions of boundary functions are expected to hold for these
	changed bool
	final   bool
	visited map[*ssa.Function]bool
	fallout []string
	small   map[*ssa.Function]int
	paths   int

	// hooks of the final pass
	Call  func(x *Exec, c *Call)
	Instr func(x *Exec, fr *Frame, in ssa.Instruction)
	Loop  func(x *Exec, fr *Frame, a *loopAct)
	Back  func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term)
	Ret   func(x *Exec, root *ssa.Function, args, res []*Term)
	Begin func(x *Exec, root *ssa.Function, args []*Term)

	Branch  func(x *Exec, fr *Frame, cond *Term, v bool)
	Settled func()
}

func isReflectOp(f *ssa.Function) bool {
	return f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "reflect"
}

// reachesReflect: functions from which a reflect operation can be reached.
func reachesReflect(w *World) map[*ssa.Function]bool {
	direct := map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range w.MainFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					callers[unwrapPromoted(g)] = append(callers[unwrapPromoted(g)], f)
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cm := ci.Common()
				if sc := cm.StaticCallee(); isReflectOp(sc) {
					direct[f] = true
				}
				if cm.IsInvoke() && cm.Method.Pkg() != nil && cm.Method.Pkg().Path() == "reflect" {
					direct[f] = true
				}
				for _, t := range w.Targets(cm) {
					callers[t] = append(callers[t], f)
				}
			}
		}
	}
	out := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for f := range direct {
		out[f] = true
		work = append(work, f)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, g := range callers[f] {
			if !out[g] {
				out[g] = true
				work = append(work, g)
			}
		}
	}
	return out
}

func NewRefl(w *World) *Refl {
	return &Refl{w: w, ts: NewTerms(), reach: reachesReflect(w), B: map[*ssa.Function]bool{}, dead: map[rvKey]string{}, small: map[*ssa.Function]int{}}
}

func (rf *Refl) addB(f *ssa.Function) {
	if !rf.B[f] {
		rf.B[f] = true
		rf.order = append(rf.order, f)
		rf.changed = true
	}
}

// Run infers the contracts, then interprets everything once with the hooks on.
func (rf *Refl) Run() {
	for _, f := range rf.w.ExportedFuncs() {
		if rf.reach[f] {
			rf.addB(f)
		}
	}
	rounds := 0
	for rf.changed {
		rf.changed = false
		rf.visited = map[*ssa.Function]bool{}
		for i := 0; i < len(rf.order); i++ {
			rf.analyse(rf.order[i])
		}
		if !rf.changed {
			// functions reached in no other way (callbacks of libraries)
			for _, f := range rf.w.MainFuncs() {
				if rf.reach[f] && !rf.visited[f] && !isInitFn(f) && f.Parent() == nil && f.Synthetic == "" {
					rf.addB(f)
				}
			}
		}
		if rounds++; rounds > 40 {
			break
		}
	}
	rf.final = true
	if rf.Settled != nil {
		rf.Settled()
	}
	rf.fallout = nil
	for i := 0; i < len(rf.order); i++ {
		rf.analyse(rf.order[i])
	}
}

// helper functions without reflection whose result may carry a decision.
func (rf *Refl) decides(f *ssa.Function) bool {
	switch rf.small[f] {
	case 1:
		return true
	case 2:
		return false
	}
	ok := len(findLoops(f)) == 0 && len(f.Blocks) <= 30
	about := false
	tup := func(t *types.Tuple) {
		for i := 0; i < t.Len(); i++ {
			ty := t.At(i).Type()
			if n, isN := types.Unalias(ty).(*types.Named); isN && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" {
				about = true
			}
			if b, isB := ty.Underlying().(*types.Basic); isB && b.Kind() == types.Bool {
				about = true
			}
		}
	}
	tup(f.Signature.Results())
	tup(f.Signature.Params())
	if f.Parent() != nil {
		about = true
	}
	if r := f.Signature.Results(); r.Len() == 1 && len(f.Blocks) <= 2 {
		about = true
	}
	rf.small[f] = 2
	if ok && about {
		rf.small[f] = 1
	}
	return ok && about
}

func (rf *Refl) analyse(fn *ssa.Function) {
	x := NewExec(rf.w, rf.ts)
	x.MaxPaths = 60000
	x.Refl = rf
	var rootArgs []*Term
	x.H.Ret = func(x *Exec, fr *Frame, _ *ssa.Return, res []*Term) {
		if fr.parent == nil {
			rf.guards(x)
			if rf.final && rf.Ret != nil {
				rf.Ret(x, fn, rootArgs, res)
			}
		}
	}
	if rf.final {
		x.H.Branch = rf.Branch
	}
	x.H.Event = func(x *Exec, e *Event) {
		if e.Kind == "store" {
			rf.stored(x, e)
		}
	}
	x.H.Inline = func(x *Exec, c *Call) bool {
		if rf.B[c.Fn] {
			return false
		}
		return rf.reach[c.Fn] || rf.decides(c.Fn)
	}
	x.H.Model = func(x *Exec, c *Call, k func(*Term)) bool { return rf.boundary(x, c, k) }
	x.H.Instr = func(x *Exec, fr *Frame, in ssa.Instruction) {
		rf.visited[fr.fn] = true
		if rf.final && rf.Instr != nil {
			rf.Instr(x, fr, in)
		}
	}
	x.H.Call = func(x *Exec, c *Call) {
		if rf.final && rf.Call != nil {
			rf.Call(x, c)
		}
	}
	x.H.Loop = func(x *Exec, fr *Frame, a *loopAct) {
		for ph, t := range a.cur {
			if isInt(ph.Type()) {
				if k := (rvKey{fn: fr.fn, idx: -1, phi: ph, p: pLower}); rf.dead[k] == "" {
					x.addLin(x.Lin(t).sub(x.Lin(a.entry[ph])))
				}
				if k := (rvKey{fn: fr.fn, idx: -1, phi: ph, p: pUpper}); rf.dead[k] == "" {
					x.addLin(x.Lin(a.entry[ph]).sub(x.Lin(t)))
				}
			}
			if !isReflectValue(ph.Type()) {
				continue
			}
			for p := rvPred(0); p < nPreds; p++ {
				k := rvKey{fn: fr.fn, idx: -1, phi: ph, p: p}
				if _, dead := rf.dead[k]; dead {
					continue
				}
				if !rf.holds(x, p, a.entry[ph]) {
					rf.kill(k, "on entry to the loop")
					continue
				}
				rf.assume(x, p, t)
			}
		}
		if rf.final && rf.Loop != nil {
			rf.Loop(x, fr, a)
		}
	}
	x.H.Back = func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) {
		for ph, t := range next {
			if isInt(ph.Type()) {
				k := rvKey{fn: fr.fn, idx: -1, phi: ph, p: pLower}
				if rf.dead[k] == "" && (x.wraps(t) || !x.EntailsSplit(x.Lin(t).sub(x.Lin(a.entry[ph])))) {
					rf.kill(k, "may fall below its value before the loop")
				}
				k.p = pUpper
				if rf.dead[k] == "" && (x.wraps(t) || !x.EntailsSplit(x.Lin(a.entry[ph]).sub(x.Lin(t)))) {
					rf.kill(k, "may exceed its value before the loop")
				}
			}
			if !isReflectValue(ph.Type()) {
				continue
			}
			for p := rvPred(0); p < nPreds; p++ {
				k := rvKey{fn: fr.fn, idx: -1, phi: ph, p: p}
				if _, dead := rf.dead[k]; !dead && !rf.holds(x, p, t) {
					rf.kill(k, "after a turn of the loop")
				}
			}
		}
		if rf.final && rf.Back != nil {
			rf.Back(x, fr, a, next)
		}
	}
	x.Run(fn, nil, func(args []*Term) bool {
		rootArgs = args
		if rf.final && rf.Begin != nil {
			rf.Begin(x, fn, args)
		}
		for i, p := range fn.Params {
			t := args[i]
			if isReflectValue(p.Type()) {
				for q := rvPred(0); q < nPreds; q++ {
					if _, dead := rf.dead[rvKey{fn: fn, idx: i, p: q}]; !dead {
						rf.assume(x, q, t)
					}
				}
			}
			if i == 0 && fn.Signature.Recv() != nil && isNilable(p.Type()) {
				x.setNil(t, false)
			}
			if it, ok := p.Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 && fn.Signature.Recv() != nil && rf.isNodeMethod(fn) {
				// the target of an unmarshal: a non-nil pointer
				x.setNil(t, false)
				v := x.mkCall("reflect.ValueOf", 0, nil, t)
				_ = v
				x.assumeKindOfType(x.dynType(t), kset(kPtr))
				setMap(x, x.truth, x.mkCall("tgt.nonnil", 0, types.Typ[types.Bool], t), true)
			}
			if n, ok := p.Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Type" {
				x.setNil(t, false)
			}
		}
		return true
	}, nil)
	rf.paths += x.Paths
	if x.Overflow {
		rf.fallout = append(rf.fallout, fnName(fn))
	}
}

// isNodeMethod: the function implements a method of the node interface.
func (rf *Refl) isNodeMethod(fn *ssa.Function) bool {
	it := rf.w.NodeIface()
	if it == nil {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == fn.Name() {
			return true
		}
	}
	return false
}

func (x *Exec) assumeKindOfType(t *Term, s Set) bool {
	k := x.kindTerm(t)
	if k.op == OConst {
		return true
	}
	cur, _ := x.Domain(k)
	r := cur.And(s)
	if r.Empty() {
		return false
	}
	setMap(x, x.dom, k, r)
	return true
}

func (rf *Refl) kill(k rvKey, why string) {
	if _, ok := rf.dead[k]; !ok {
		rf.dead[k] = why
		rf.changed = true
	}
}

func (rf *Refl) boundary(x *Exec, c *Call, k func(*Term)) bool {
	var ts []*ssa.Function
	if c.Fn != nil {
		f := c.Fn
		if !rf.w.IsMain(f) || f.Blocks == nil {
			return false
		}
		if !rf.reach[f] {
			return false
		}
		if !rf.B[f] && x.mayInline(c) {
			return false
		}
		ts = []*ssa.Function{f}
	} else if c.Method != nil {
		for _, f := range rf.w.Targets(c.Common) {
			if rf.reach[f] {
				ts = append(ts, f)
			}
		}
	}
	if len(ts) == 0 {
		return false
	}
	for _, f := range ts {
		rf.addB(f)
		off := len(f.Params) - len(c.Args)
		for i, p := range f.Params {
			if !isReflectValue(p.Type()) || i-off < 0 || i-off >= len(c.Args) {
				continue
			}
			for q := rvPred(0); q < nPreds; q++ {
				key := rvKey{fn: f, idx: i, p: q}
				if _, dead := rf.dead[key]; !dead && !rf.holds(x, q, c.Args[i-off]) {
					rf.kill(key, fmt.Sprintf("%s passes a value that may not be %s at %s", fnName(c.Fr.fn), predNames[q], rf.w.InstrPos(c.Instr.(ssa.Instruction))))
				}
			}
		}
	}
	k(x.Opaque(c))
	return true
}

func (rf *Refl) holds(x *Exec, p rvPred, v *Term) bool {
	switch p {
	case pValid:
		return x.rvValid(v)
	case pAddr:
		return x.rvAddressable(v) || x.flag("rv.addrOrInvalid", v) || x.KindOf(v).Minus(kset(kInvalid)).Empty()
	case pAddrNil:
		if x.rvAddressable(v) || x.flag("rv.addrOrPtr", v) {
			return true
		}
		if x.KindOf(v).Minus(kset(kPtr)).Empty() {
			n, known := x.Eval(x.rvIsNil(v))
			return known && !n
		}
		return false
	}
	return x.rvROFree(v)
}

func (rf *Refl) assume(x *Exec, p rvPred, v *Term) {
	switch p {
	case pValid:
		x.assumeKind(v, rangeSet(1, 26))
	case pAddr:
		setMap(x, x.truth, x.mkCall("rv.addrOrInvalid", 0, types.Typ[types.Bool], v), true)
	case pAddrNil:
		setMap(x, x.truth, x.mkCall("rv.addrOrPtr", 0, types.Typ[types.Bool], v), true)
	case pROFree:
		setMap(x, x.truth, x.mkCall("rv.roFree", 0, types.Typ[types.Bool], v), true)
	}
}

func (x *Exec) flag(aux string, v *Term) bool {
	return x.truth[x.mkCall(aux, 0, types.Typ[types.Bool], v)]
}

func (x *Exec) rvValid(v *Term) bool { return !x.KindOf(v).Has(kInvalid) }

// rvAddressable: CanAddr is known to be true.
func (x *Exec) rvAddressable(v *Term) bool {
	if x.flag("rv.CanAddr", v) || x.flag("rv.CanSet", v) {
		return true
	}
	switch v.op {
	case OLoad:
		return x.kept(pAddr, v)
	case OCall:
		switch v.aux {
		case "rv.Elem":
			ks := x.KindOf(v.args[0])
			if !ks.Has(kInterface) {
				return true
			}
			return false
		case "rv.Index":
			ks := x.KindOf(v.args[0])
			if n, ok := ks.Single(); ok && n == kSlice {
				return true
			}
			return !ks.Has(kString) && x.rvAddressable(v.args[0])
		case "rv.Field", "rv.FieldByName", "rv.FieldByIndex":
			return x.rvAddressable(v.args[0])
		}
	}
	if x.flag("rv.addrOrInvalid", v) && x.rvValid(v) {
		return true
	}
	return x.flag("rv.addrOrPtr", v) && !x.KindOf(v).Has(kPtr)
}

// rvROFree: the value was not reached through an unexported field.
func (x *Exec) rvROFree(v *Term) bool {
	if x.flag("rv.CanInterface", v) || x.flag("rv.CanSet", v) || x.flag("rv.roFree", v) {
		return true
	}
	if v.op == OCall {
		switch v.aux {
		case "rv.Field", "rv.FieldByName", "rv.FieldByIndex", "rv.FieldByNameFunc":
			return false
		case "rv.Elem", "rv.Index", "rv.Addr", "rv.MapIndex", "rv.Convert", "rv.MethodByName", "rv.Method":
			return x.rvROFree(v.args[0])
		}
	}
	if v.op == OLoad {
		return x.kept(pROFree, v)
	}
	return v.op != OParam && v.op != OFresh
}

// kept: what is known of a reflect.Value read from memory.
func (x *Exec) kept(p rvPred, v *Term) bool {
	if x.Refl == nil {
		return false
	}
	return x.Refl.kept(x, p, v.args[0])
}

func (rf *Refl) kept(x *Exec, p rvPred, addr *Term) bool {
	if isParentField(addr) != "" {
		return true // a nil pointer field of the struct and its new value
	}
	if pkg := ownerPkg(addr); pkg != nil && pkg != rf.w.Main.Pkg {
		return p == pValid || p == pROFree // an exported field of a struct
	}
	key, ok := rf.cellKey(x, addr)
	if !ok {
		return p == pValid || p == pROFree
	}
	if _, dead := rf.dead[rvKey{p: p, key: key}]; dead {
		return false
	}
	if addr.op != OFieldAddr || p != pValid {
		return true
	}
	// a field may still be unset, unless it is set wherever such a struct is made
	if rf.alwaysSet(deref(addr.args[0].typ), addr.num) {
		return true
	}
	// or another field must say that it is set
	st, _ := deref(addr.args[0].typ).Underlying().(*types.Struct)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		b, isB := st.Field(i).Type().Underlying().(*types.Basic)
		if !isB || b.Kind() != types.Bool {
			continue
		}
		if _, dead := rf.dead[rvKey{idx: i, p: p, key: key}]; dead {
			continue
		}
		is, known := x.Eval(x.Load(x.ts.Mk(OFieldAddr, types.NewPointer(st.Field(i).Type()), "", i, addr.args[0])))
		if known && is {
			return true
		}
	}
	return false
}

// alwaysSet: every struct of the type is made by giving the field a value in the
// same block: as a literal, or as an element of an array made for one.
func (rf *Refl) alwaysSet(t types.Type, field int) bool {
	k := fmt.Sprint(typeKey(t), ".", field)
	if v, ok := rf.always[k]; ok {
		return v
	}
	if rf.always == nil {
		rf.always = map[string]bool{}
	}
	v := rf.setOnMaking(t, field)
	rf.always[k] = v
	return v
}

func (rf *Refl) setOnMaking(t types.Type, field int) bool {
	filled := func(b *ssa.BasicBlock, at ssa.Value) bool {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if st.Addr == at {
				return true
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.X == at && fa.Field == field {
				return true
			}
		}
		return false
	}
	is := func(u types.Type) bool { return types.Identical(u, t) }
	for _, f := range rf.w.Funcs {
		for _, p := range f.Params {
			if is(p.Type()) && !rf.w.IsMain(f) {
				return false
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if c, ok := (*op).(*ssa.Const); ok && is(c.Type()) {
						return false // the zero struct
					}
				}
				switch m := in.(type) {
				case *ssa.Alloc:
					et := deref(m.Type())
					if is(et) && !filled(b, m) && !filledBefore(m, field) {
						return false
					}
					if arr, ok := et.Underlying().(*types.Array); ok && is(arr.Elem()) && !emptyMake(m) {
						set := map[int64]bool{}
						for _, u := range *m.Referrers() {
							ia, ok := u.(*ssa.IndexAddr)
							if !ok {
								continue
							}
							if c, ok := ia.Index.(*ssa.Const); ok && filled(ia.Block(), ia) && ia.Block() == b {
								set[c.Int64()] = true
							}
						}
						if int64(len(set)) != arr.Len() {
							return false
						}
					}
					if st, ok := et.Underlying().(*types.Struct); ok && !is(et) {
						for i := 0; i < st.NumFields(); i++ {
							if is(st.Field(i).Type()) {
								return false
							}
						}
					}
				case *ssa.MakeSlice:
					if is(m.Type().Underlying().(*types.Slice).Elem()) {
						if c, ok := m.Len.(*ssa.Const); !ok || c.Int64() != 0 {
							return false
						}
					}
				case *ssa.Lookup:
					if is(m.Type()) {
						return false
					}
				}
			}
		}
	}
	return true
}

// filledBefore: a variable is given the whole struct or the field before any use.
func filledBefore(m *ssa.Alloc, field int) bool {
	isStore := func(u ssa.Instruction) bool {
		st, ok := u.(*ssa.Store)
		return ok && st.Addr == m && st.Val != m
	}
	fieldStore := func(u ssa.Instruction) ssa.Instruction {
		fa, ok := u.(*ssa.FieldAddr)
		if !ok || fa.Field != field || len(*fa.Referrers()) != 1 {
			return nil
		}
		if st, ok := (*fa.Referrers())[0].(*ssa.Store); ok && st.Addr == fa {
			return st
		}
		return nil
	}
	before := func(a, b ssa.Instruction) bool {
		if a.Block() != b.Block() {
			return a.Block().Dominates(b.Block())
		}
		for _, in := range a.Block().Instrs {
			if in == a || in == b {
				return in == a
			}
		}
		return false
	}
	for _, u := range *m.Referrers() {
		set := fieldStore(u)
		if isStore(u) {
			set = u
		}
		if set == nil {
			continue
		}
		ok := true
		for _, o := range *m.Referrers() {
			if _, dbg := o.(*ssa.DebugRef); !dbg && o != u && !isStore(o) && !before(set, o) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// emptyMake: the array is the room of a slice made with length zero.
func emptyMake(a *ssa.Alloc) bool {
	for _, u := range *a.Referrers() {
		s, ok := u.(*ssa.Slice)
		if !ok {
			return false
		}
		c, ok := s.High.(*ssa.Const)
		if !ok || c.Int64() != 0 {
			return false
		}
	}
	return true
}

// ownerPkg is the package that declares the struct a field belongs to.
func ownerPkg(addr *Term) *types.Package {
	if addr.op != OFieldAddr {
		return nil
	}
	n, ok := types.Unalias(deref(addr.args[0].typ)).(*types.Named)
	if !ok {
		return nil
	}
	return n.Obj().Pkg()
}

// isParentField names the field of reflectutils.SEmbedStructFieldValue.
func isParentField(addr *Term) string {
	if addr.op != OFieldAddr {
		return ""
	}
	n, ok := types.Unalias(deref(addr.args[0].typ)).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Name() != "SEmbedStructFieldValue" || !strings.HasSuffix(n.Obj().Pkg().Path(), "/reflectutils") {
		return ""
	}
	return n.Underlying().(*types.Struct).Field(addr.num).Name()
}

// cellKey names the memory of this package that holds reflect.Values.
func (rf *Refl) cellKey(x *Exec, addr *Term) (string, bool) {
	switch addr.op {
	case OFieldAddr:
		if ownerPkg(addr) != rf.w.Main.Pkg {
			return "", false
		}
		return x.keyOf(addr), true
	case OIndexAddr:
		b := addr.args[0]
		for b.op == OSlice {
			b = b.args[0]
		}
		if b.op == OCall && !strings.HasPrefix(b.aux, "append") {
			return "", false // made by a library
		}
		return x.keyOf(addr), true
	}
	return "", false
}

// stored checks a reflect.Value that is put into memory.
func (rf *Refl) stored(x *Exec, e *Event) {
	addr, v := e.Args[0], e.Args[1]
	if v.typ == nil || !isReflectValue(v.typ) && !(v.op == OCall && strings.HasPrefix(v.aux, "rv.")) {
		if in, ok := e.Instr.(*ssa.Store); !ok || !isReflectValue(in.Val.Type()) {
			return
		}
	}
	key, ok := rf.cellKey(x, addr)
	if !ok {
		return
	}
	for p := rvPred(0); p < nPreds; p++ {
		k := rvKey{p: p, key: key}
		if _, dead := rf.dead[k]; !dead && !rf.holds(x, p, v) {
			rf.kill(k, fmt.Sprintf("%s keeps a value that may not be %s at %s", fnName(e.Instr.Parent()), predNames[p], rf.w.InstrPos(e.Instr)))
		}
	}
}

// guards: a field that says a reflect.Value is set is only set along with it.
func (rf *Refl) guards(x *Exec) {
	for _, e := range x.Events {
		if e.Kind != "store" || e.Args[0].op != OFieldAddr || ownerPkg(e.Args[0]) != rf.w.Main.Pkg {
			continue
		}
		if b, ok := e.Args[1].BoolVal(); ok && !b {
			continue
		}
		base := e.Args[0].args[0]
		st, ok := deref(base.typ).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		if b, isB := st.Field(e.Args[0].num).Type().Underlying().(*types.Basic); !isB || b.Kind() != types.Bool {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if !isReflectValue(st.Field(i).Type()) {
				continue
			}
			set := false
			for _, e2 := range x.Events {
				if e2.Kind == "store" && e2.Args[0].op == OFieldAddr && e2.Args[0].args[0] == base && e2.Args[0].num == i {
					set = true
				}
			}
			if !set {
				rf.kill(rvKey{idx: e.Args[0].num, p: pValid, key: fieldKey(base.typ, i)}, fmt.Sprintf("%s says it is set without setting it at %s", fnName(e.Instr.Parent()), rf.w.InstrPos(e.Instr)))
			}
		}
	}
}

func (rf *Refl) reasons(fn *ssa.Function) string {
	var out []string
	for k, why := range rf.dead {
		if k.fn == fn && k.p == pValid {
			out = append(out, why)
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}
