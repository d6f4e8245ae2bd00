package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// PathRun interprets one function along all its paths. Integer loop variables
// get the bounds that hold on every turn.
type PathRun struct {
	w  *World
	ts *Terms
	// Inline decides which in-package callees are followed; nil follows all.
	Inline func(x *Exec, c *Call) bool
	Begin  func(x *Exec, args []*Term) bool
	Ret    func(x *Exec, args, res []*Term)
	Back   func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term)
	Loop0  func(x *Exec, fr *Frame, a *loopAct)
	Call   func(x *Exec, c *Call)
	Instr  func(x *Exec, fr *Frame, in ssa.Instruction)
	Event  func(x *Exec, e *Event)
	// Value may replace a value as it is bound.
	Value func(x *Exec, t *Term) *Term
	// Literals makes callees' loops over slices of known elements be followed
	// turn by turn.
	Literals bool
	// LiteralRoot does so for the function itself.
	LiteralRoot bool

	visited map[*ssa.Function]bool
	paths   int
}

type phiDir struct {
	ph *ssa.Phi
	up bool
}

func NewPathRun(w *World) *PathRun {
	return &PathRun{w: w, ts: NewTerms(), visited: map[*ssa.Function]bool{}}
}

// Run returns false when the function has too many paths.
func (p *PathRun) Run(fn *ssa.Function) bool {
	dead := map[phiDir]bool{}
	for round := 0; ; round++ {
		n := len(dead)
		if p.once(fn, dead, false) {
			return false
		}
		if len(dead) == n || round > 20 {
			break
		}
	}
	return !p.once(fn, dead, true)
}

func (p *PathRun) once(fn *ssa.Function, dead map[phiDir]bool, final bool) bool {
	x := NewExec(p.w, p.ts)
	x.MaxPaths = 40000
	var rootArgs []*Term
	x.H.Inline = func(x *Exec, c *Call) bool {
		return p.Inline == nil || p.Inline(x, c)
	}
	x.H.Value = p.Value
	if p.Literals {
		x.H.Unroll = func(x *Exec, fr *Frame, b *ssa.BasicBlock) int {
			if fr.parent == nil && !p.LiteralRoot {
				return 0
			}
			return unrollLiteral(x, fr, b, p.LiteralRoot)
		}
		if p.LiteralRoot {
			x.H.Recurse = 2
		}
	}
	x.H.Loop = func(x *Exec, fr *Frame, a *loopAct) {
		for ph, t := range a.cur {
			if !isInt(ph.Type()) {
				continue
			}
			if !dead[phiDir{ph, false}] {
				x.addLin(x.Lin(t).sub(x.Lin(a.entry[ph])))
			}
			if !dead[phiDir{ph, true}] {
				x.addLin(x.Lin(a.entry[ph]).sub(x.Lin(t)))
			}
		}
	}
	x.H.Back = func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) {
		for ph, t := range next {
			if !isInt(ph.Type()) {
				continue
			}
			if k := (phiDir{ph, false}); !dead[k] && (x.wraps(t) || !x.EntailsSplit(x.Lin(t).sub(x.Lin(a.entry[ph])))) {
				dead[k] = true
			}
			if k := (phiDir{ph, true}); !dead[k] && (x.wraps(t) || !x.EntailsSplit(x.Lin(a.entry[ph]).sub(x.Lin(t)))) {
				dead[k] = true
			}
		}
		if final && p.Back != nil {
			p.Back(x, fr, a, next)
		}
	}
	if final {
		x.H.Branch = func(x *Exec, fr *Frame, cond *Term, v bool) {
			x.event(&Event{Kind: "branch", Args: []*Term{cond}, Data: v, Fr: fr})
		}
		x.H.Call = p.Call
		x.H.Loop0 = p.Loop0
		x.H.Event = p.Event
		x.H.Instr = func(x *Exec, fr *Frame, in ssa.Instruction) {
			p.visited[fr.fn] = true
			readThrough(x, fr, in)
			if p.Instr != nil {
				p.Instr(x, fr, in)
			}
		}
		x.H.Ret = func(x *Exec, fr *Frame, _ *ssa.Return, res []*Term) {
			if fr.parent == nil && p.Ret != nil {
				p.Ret(x, rootArgs, res)
			}
		}
	}
	x.Run(fn, nil, func(args []*Term) bool {
		rootArgs = args
		if fn.Signature.Recv() != nil && isNilable(fn.Params[0].Type()) {
			x.setNil(args[0], false)
		}
		return p.Begin == nil || p.Begin(x, args)
	}, nil)
	p.paths += x.Paths
	return x.Overflow
}

// elem is an element of a sequence or of a sorted map.
type elem struct {
	kind byte  // 's' slice element, 'i' iterator, 'k' looked up by one of the keys, 'm' range over a map
	src  *Term // the slice or the sorted map
	idx  *Term // position; the iterator for 'i'
	key  *Term // key of a map entry
}

// elemOf recognises a term as one element.
func (x *Exec) elemOf(t *Term) (elem, bool) {
	if t == nil {
		return elem{}, false
	}
	switch t.op {
	case OLoad:
		if a := t.args[0]; a.op == OIndexAddr {
			return elem{kind: 's', src: a.args[0], idx: a.args[1]}, true
		}
	case OIndex:
		return elem{kind: 's', src: t.args[0], idx: t.args[1]}, true
	case OLookup:
		if len(t.args) == 2 {
			if e, ok := x.elemOf(t.args[1]); ok && e.kind == 's' {
				return elem{kind: 'k', src: t.args[0], idx: e.idx, key: t.args[1]}, true
			}
		}
	case OExtract:
		c := t.args[0]
		if c.op != OCall {
			break
		}
		m := c.aux[strings.LastIndexByte(c.aux, '.')+1:]
		switch {
		case strings.HasSuffix(c.aux, "SSortedMapIterator).Get") && t.num == 1:
			if src := iterSource(x, c.args[0]); src != nil {
				return elem{kind: 'i', src: src, idx: c.args[0], key: x.ts.Mk(OExtract, nil, "", 0, c)}, true
			}
		case strings.Contains(c.aux, "SSortedMap)."+m) && m == "Get" && t.num == 0 && len(c.args) == 2:
			if e, ok := x.elemOf(c.args[1]); ok && e.kind == 's' && isSmapKeys(e.src) {
				return elem{kind: 'k', src: c.args[0], idx: e.idx, key: c.args[1]}, true
			}
		}
	case OAssert:
		return x.elemOf(t.args[0])
	case OFresh:
		for i := len(x.Events) - 1; i >= 0; i-- {
			e := x.Events[i]
			if e.Kind == "next" && e.Args[3] == t && e.Args[0].op == ORange && isMap(e.Args[0].args[0].typ) {
				return elem{kind: 'm', src: e.Args[0].args[0], idx: e.Args[0], key: e.Args[2]}, true
			}
		}
	}
	return elem{}, false
}

func isSmapKeys(t *Term) bool { return t.op == OCall && strings.HasSuffix(t.aux, "SSortedMap).Keys") }

// iterSource is the sorted map an iterator was made for.
func iterSource(x *Exec, it *Term) *Term {
	it = iterBase(it)
	if it.op == OCall && strings.HasSuffix(it.aux, "sortedmap.NewIterator") {
		return it.args[0]
	}
	return nil
}

func iterBase(it *Term) *Term {
	for it.op == OLoad {
		it = it.args[0]
	}
	return it
}

// elems lists the elements mentioned in a term.
func (x *Exec) elems(t *Term) []elem {
	var out []elem
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if e, ok := x.elemOf(t); ok {
			out = append(out, e)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return out
}

// turnAt tells whether one turn of a loop stands at one position of the
// sequence it walks: the index used is the number of the turn (or counts down
// from the last) and moves by one; iterators move by one Next per turn.
func (x *Exec) turnAt(a *loopAct, next map[*ssa.Phi]*Term, e elem) bool {
	if e.kind == 'i' {
		n := 0
		for i := len(x.Events) - 1; i >= 0; i-- {
			ev := x.Events[i]
			if ev.Kind == "loop" && ev.Data.(*loopAct).header == a.header {
				break
			}
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, "SSortedMapIterator).Next") && len(ev.Args) > 0 && iterBase(ev.Args[0]) == iterBase(e.idx) {
				n++
			}
		}
		return n == 1
	}
	if e.kind == 'm' {
		return true // each turn takes one entry
	}
	for ph, cur := range a.cur {
		nx := next[ph]
		if !isInt(ph.Type()) || nx == nil {
			continue
		}
		en := a.entry[ph]
		switch {
		case x.eqLin(x.Lin(nx), x.Lin(cur).plus(1)):
			if x.eqLin(x.Lin(e.idx), x.Lin(cur).sub(x.Lin(en))) {
				return true
			}
		case x.eqLin(x.Lin(nx), x.Lin(cur).plus(-1)):
			// from the last down
			last := x.Lin(x.seqLen(e)).plus(-1)
			if x.eqLin(x.Lin(e.idx).sub(last), x.Lin(cur).sub(x.Lin(en))) {
				return true
			}
		}
	}
	return false
}

// turnUp: turns stand at the elements from the first upwards.
func (x *Exec) turnUp(a *loopAct, next map[*ssa.Phi]*Term, e elem) bool {
	for ph, cur := range a.cur {
		nx := next[ph]
		if isInt(ph.Type()) && nx != nil && x.eqLin(x.Lin(nx), x.Lin(cur).plus(1)) && x.eqLin(x.Lin(e.idx), x.Lin(cur).sub(x.Lin(a.entry[ph]))) {
			return true
		}
	}
	return false
}

func (x *Exec) eqLin(a, b Lin) bool {
	d := a.sub(b)
	if len(d.v) == 0 {
		return d.c == 0
	}
	return x.Entails(d) && x.Entails(d.neg())
}

// seqLen is the number of elements of the sequence an element belongs to.
func (x *Exec) seqLen(e elem) *Term {
	if e.kind == 'k' {
		if k, ok := x.elemOf(e.key); ok {
			return x.LenOf(k.src)
		}
	}
	return x.LenOf(e.src)
}

// loopDone tells whether a loop over src was left because all was visited.
// It looks at the facts of the path after the loop.
func (x *Exec) loopDone(a *loopAct, own func(*Term) bool) bool {
	after := x.eventsAfter(a.header)
	for i := len(after) - 1; i >= 0; i-- {
		e := after[i]
		if e.Kind == "call" && strings.HasSuffix(e.Name, "SSortedMapIterator).HasMore") {
			if v, k := x.Eval(e.Res); k && !v && len(e.Args) > 0 {
				if s := iterSource(x, e.Args[0]); s == nil || own(s) {
					return true
				}
			}
		}
		if e.Kind == "next" {
			if v, k := x.Eval(e.Args[1]); k && !v && (own(e.Args[0]) || e.Args[0].op == ORange && own(e.Args[0].args[0])) {
				return true
			}
		}
	}
	for ph, cur := range a.cur {
		if !isInt(ph.Type()) {
			continue
		}
		en := x.Lin(a.entry[ph])
		pos := x.Lin(cur).sub(en)
		for _, l := range x.lenTerms() {
			if !own(l) {
				continue
			}
			n := x.Lin(l)
			if x.Entails(pos.sub(n)) {
				return true // counted up to the length
			}
			if x.Entails(x.Lin(cur).neg().plus(-1)) && x.eqLin(en, n.plus(-1)) {
				return true // counted down below zero
			}
		}
	}
	return false
}

// eventsAfter are the events since the loop was last entered.
func (x *Exec) eventsAfter(h *ssa.BasicBlock) []*Event {
	for i := len(x.Events) - 1; i >= 0; i-- {
		if x.Events[i].Kind == "loop" && x.Events[i].Data.(*loopAct).header == h {
			return x.Events[i+1:]
		}
	}
	return nil
}

// nodeAccessors are the methods of the node interface that take a key path.
func (w *World) nodeAccessors() []*types.Func {
	var out []*types.Func
	it := w.NodeIface()
	for i := 0; it != nil && i < it.NumMethods(); i++ {
		sig := it.Method(i).Type().(*types.Signature)
		if sig.Variadic() && isStringSlice(sig.Params().At(sig.Params().Len()-1).Type()) {
			out = append(out, it.Method(i))
		}
	}
	return out
}

func isStringSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isStringType(s.Elem())
}

func dumpEvents(w *World, x *Exec) {
	for _, e := range x.Events {
		fmt.Printf("   %s %s %v %v -> %v %s\n", e.Kind, e.Name, e.Args, e.Data, e.Res, w.InstrPos2(e.Instr))
	}
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// unrollLiteral follows a loop turn by turn that counts up to the length of a
// slice of few known elements.
func unrollLiteral(x *Exec, fr *Frame, b *ssa.BasicBlock, any bool) int {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return 0
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return 0
	}
	for _, v := range []ssa.Value{cmp.X, cmp.Y} {
		c, ok := v.(*ssa.Call)
		if !ok {
			continue
		}
		if bi, ok := c.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
			continue
		}
		p := c.Call.Args[0]
		if _, ok := p.(*ssa.Parameter); !ok && !any || !isSlice(p.Type()) {
			continue
		}
		if els, ok := x.sliceElems(x.Val(fr, p)); ok && len(els) <= 8 {
			return 1
		}
	}
	return 0
}

// readThrough: a pointer whose field was read or written is not nil.
func readThrough(x *Exec, fr *Frame, in ssa.Instruction) {
	var a ssa.Value
	switch t := in.(type) {
	case *ssa.UnOp:
		if t.Op == token.MUL {
			a = t.X
		}
	case *ssa.Store:
		a = t.Addr
	}
	if fa, ok := a.(*ssa.FieldAddr); ok {
		if b := x.Val(fr, fa.X); b != nil && b.op != OAlloc && x.knownNil(b) < 0 {
			x.setNil(b, false)
		}
	}
}

// literal is a slice of the given elements.
func (x *Exec) literal(v ssa.Value, typ types.Type, els ...*Term) *Term {
	el := typ.Underlying().(*types.Slice).Elem()
	at := types.NewArray(el, int64(len(els)))
	a := x.ts.Alloc(v, types.NewPointer(at))
	setMap(x, x.cells, a, x.ts.ZeroOf(at))
	for i, e := range els {
		setMap(x, x.cells, x.ts.Mk(OIndexAddr, types.NewPointer(el), "", 0, a, x.ts.Int(int64(i))), e)
	}
	return x.ts.Mk(OSlice, typ, "", 0, a, x.ts.Int(0), x.ts.Int(int64(len(els))))
}
