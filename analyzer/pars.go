package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Parsers as readers: the text of a position is what lies between the offset
// the function was given and that position.

// parsers analyses functions over ([]byte, offset) that return a position.
type parsers struct {
	w       *World
	rec     map[*ssa.Function]bool // on a cycle of calls
	loops   map[*ssa.Function]bool // has a loop, itself or in a callee
	shape   map[*ssa.Function]*pshape
	char    map[*ssa.Function]*Set
	ctxs    map[string]*pctx
	order   []*pctx
	changed bool
	report  func(c *pctx, in ssa.Instruction, msg string)
	seen    map[string]bool
	bad     bool // more is read in later rounds, so what was found stays
}

// pshape tells which parameter and result are positions.
type pshape struct {
	text, at, res, err int
}

// pctx is a function with what is known where it is called.
type pctx struct {
	fn     *ssa.Function
	sh     *pshape
	dom    Set
	consts map[int]*Term
	g      *pgram
	sums   map[gstate]map[gstate]bool
	post   Set // bytes that may stand at the position reached
	entry  bool
	paths  int // on which a position was read
}

type pgram struct {
	*gram
	ps    *parsers
	ctx   *pctx
	args  []*Term
	moved map[string]gmoved
	twins map[string]bool
	pre   bool
}

func newParsers(w *World) *parsers {
	ps := &parsers{w: w, rec: map[*ssa.Function]bool{}, loops: map[*ssa.Function]bool{}, shape: map[*ssa.Function]*pshape{}, char: map[*ssa.Function]*Set{}, ctxs: map[string]*pctx{}, seen: map[string]bool{}}
	for _, f := range w.Funcs {
		reach := w.Reach([]*ssa.Function{f})
		for g := range w.callees(f) {
			if w.Reach([]*ssa.Function{g})[f] {
				ps.rec[f] = true
			}
		}
		for g := range reach {
			if hasLoop(g) {
				ps.loops[f] = true
			}
		}
	}
	return ps
}

func hasLoop(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// looks tells whether a function may read on from a position.
func (ps *parsers) looks(f *ssa.Function) bool {
	return f != nil && f.Blocks != nil && ps.w.IsMain(f) && paramOf(f, isText) >= 0 && paramOf(f, isInt) >= 0 && len(resultsOf(f, isInt)) > 0
}

func paramOf(f *ssa.Function, is func(types.Type) bool) int {
	for i, p := range f.Params {
		if is(p.Type()) {
			return i
		}
	}
	return -1
}

func resultsOf(f *ssa.Function, is func(types.Type) bool) []int {
	var l []int
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if is(f.Signature.Results().At(i).Type()) {
			l = append(l, i)
		}
	}
	return l
}

// cut: the function is analysed on its own.
func (ps *parsers) cut(f *ssa.Function) bool {
	if !ps.looks(f) {
		return ps.rec[f]
	}
	return ps.rec[f] || ps.loops[f] && len(resultsOf(f, isInt)) == 1 && len(resultsOf(f, isBoolType)) == 0
}

// charFunc: a function of one character that may refuse it.
func charFunc(f *ssa.Function) bool {
	if f == nil || f.Blocks == nil || f.Signature.Recv() != nil || len(f.Params) != 1 || f.Signature.Results().Len() != 2 {
		return false
	}
	_, fin := finiteFullType(f.Params[0].Type())
	last := f.Signature.Results().At(1).Type()
	return fin && (isErrorType(last) || isBoolType(last))
}

func finiteFullType(t types.Type) (Set, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Kind() != types.Uint8 {
		return Set{}, false
	}
	return fullSet(), true
}

func fullSet() Set { return Set{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)} }

// accepted are the characters such a function does not refuse.
func (ps *parsers) accepted(f *ssa.Function) Set {
	if s := ps.char[f]; s != nil {
		return *s
	}
	out := &Set{}
	ps.char[f] = out
	p := NewPathRun(ps.w)
	p.Ret = func(x *Exec, args, res []*Term) {
		if isBoolType(res[1].typ) {
			if v, k := x.Eval(res[1]); k && !v {
				return
			}
		} else if x.knownNil(res[1]) == 0 {
			return
		}
		d, ok := x.Domain(args[0])
		if !ok {
			d = fullSet()
		}
		for i := range out {
			out[i] |= d[i]
		}
	}
	if !p.Run(f) {
		*out = fullSet()
	}
	return *out
}

func (ps *parsers) inline(x *Exec, c *Call) bool {
	return !ps.cut(c.Fn) && !charFunc(c.Fn)
}

// shapeOf finds the position among the parameters and results.
func (ps *parsers) shapeOf(f *ssa.Function) *pshape {
	if s, ok := ps.shape[f]; ok {
		return s
	}
	ps.shape[f] = nil
	count := map[[3]int]int{}
	p := NewPathRun(ps.w)
	p.Inline = ps.inline
	entry := map[*Term]*Term{}
	p.Event = func(x *Exec, e *Event) {
		if e.Kind == "loop" {
			a := e.Data.(*loopAct)
			for ph, cur := range a.cur {
				entry[cur] = a.entry[ph]
			}
		}
	}
	p.Ret = func(x *Exec, args, res []*Term) {
		text := -1
		for i, a := range args {
			if text < 0 && a != nil && isText(f.Params[i].Type()) {
				text = i
			}
		}
		var from func(t *Term, depth int) *Term
		from = func(t *Term, depth int) *Term {
			if depth > 50 {
				return nil
			}
			for _, a := range args {
				if t == a {
					return t
				}
			}
			if e := entry[t]; e != nil {
				return from(e, depth+1)
			}
			l := x.Lin(t)
			if len(l.v) == 1 && l.v[0].k == 1 && l.v[0].t != t {
				return from(l.v[0].t, depth+1)
			}
			if t.op == OExtract || t.op == OCall {
				for _, e := range x.Events {
					if e.Kind == "call" && e.Res != nil && (e.Res == t || t.op == OExtract && e.Res == t.args[0]) && ps.looks(e.Fn) {
						for _, a := range e.Args {
							if a != nil && isInt(a.typ) {
								if r := from(a, depth+1); r != nil {
									return r
								}
							}
						}
					}
				}
			}
			return nil
		}
		for _, k := range resultsOf(f, isInt) {
			for i, a := range args {
				if a == nil || !isInt(f.Params[i].Type()) {
					continue
				}
				if from(res[k], 0) == a {
					count[[3]int{text, i, k}] += 1000
				} else if mentions(res[k], a) {
					count[[3]int{text, i, k}]++
				}
			}
		}
	}
	if !p.Run(f) {
		return nil
	}
	best := 0
	var keys [][3]int
	for k := range count {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	for _, k := range keys {
		if count[k] > best {
			best = count[k]
			s := &pshape{text: k[0], at: k[1], res: k[2], err: -1}
			if es := resultsOf(f, isErrorType); len(es) > 0 {
				s.err = es[len(es)-1]
			}
			ps.shape[f] = s
		}
	}
	return ps.shape[f]
}

func mentions(t, a *Term) bool {
	if t == a {
		return true
	}
	for _, k := range t.args {
		if mentions(k, a) {
			return true
		}
	}
	return false
}

func (ps *parsers) ctx(f *ssa.Function, dom Set, consts map[int]*Term) *pctx {
	sh := ps.shapeOf(f)
	if sh == nil {
		return nil
	}
	n := 0
	for _, c := range ps.order {
		if c.fn == f {
			n++
		}
	}
	key := func() string {
		k := fmt.Sprintf("%p %v", f, dom)
		for i := range f.Params {
			if t := consts[i]; t != nil {
				k += fmt.Sprintf(" %d=%s", i, t)
			}
		}
		return k
	}
	if ps.ctxs[key()] == nil && n > 8 {
		dom, consts = fullSet(), nil
	}
	k := key()
	c := ps.ctxs[k]
	if c == nil {
		c = &pctx{fn: f, sh: sh, dom: dom, consts: consts, sums: map[gstate]map[gstate]bool{}}
		c.g = &pgram{gram: newGram(ps.w, f), ps: ps, ctx: c, moved: map[string]gmoved{}, twins: map[string]bool{}}
		c.g.ext = c.g.read
		ps.ctxs[k] = c
		ps.order = append(ps.order, c)
		ps.changed = true
	}
	return c
}

func (ps *parsers) found(c *pctx, in ssa.Instruction, msg string) {
	ps.bad = true
	if in == nil || in.Parent() == nil {
		in = retInstr(c.fn)
	}
	if k := fmt.Sprintf("%p|%p|%s", c.fn, in, msg); !ps.seen[k] {
		ps.seen[k] = true
		ps.report(c, in, msg)
	}
}

// run analyses everything the given function reads with.
func (ps *parsers) run(roots []*ssa.Function) bool {
	for _, f := range roots {
		if c := ps.ctx(f, fullSet(), nil); c != nil {
			c.entry = true
			c.sums[gstart] = map[gstate]bool{}
		}
	}
	for round := 0; round < 40; round++ {
		ps.changed = false
		for i := 0; i < len(ps.order); i++ {
			if !ps.order[i].g.run() {
				return false
			}
		}
		if !ps.changed || ps.bad {
			return true
		}
	}
	return false
}

// run interprets the function until what is known of its loops is stable.
func (g *pgram) run() bool {
	if len(g.twins) == 0 {
		g.pre = true
		ok := g.once()
		g.pre = false
		if !ok {
			return false
		}
	}
	for round := 0; round < 60; round++ {
		g.changed = false
		if !g.once() {
			return false
		}
		if !g.changed {
			return true
		}
	}
	return false
}

func (g *pgram) once() bool {
	g.vars, g.keys = map[*loopAct][]gvar{}, map[*loopAct]string{}
	before := map[*loopAct]map[*Term]*Term{}
	p := NewPathRun(g.w)
	p.Inline = g.ps.inline
	p.Begin = func(x *Exec, args []*Term) bool {
		g.args = args
		for i, c := range g.ctx.consts {
			c = x.ts.Const(c.k, c.typ)
			if isBoolType(c.typ) {
				b, ok := c.BoolVal()
				if ok && !x.Assume(args[i], b) {
					return false
				}
			} else if !x.Assume(x.Bin("==", args[i], c, types.Typ[types.Bool]), true) {
				return false
			}
		}
		return true
	}
	p.Instr = func(x *Exec, fr *Frame, in ssa.Instruction) {
		var at *Term
		switch i := in.(type) {
		case *ssa.UnOp:
			ia, ok := i.X.(*ssa.IndexAddr)
			if i.Op.String() != "*" || !ok || !isByteSlice(ia.X.Type()) {
				return
			}
			a := x.Val(fr, i.X)
			if a.op != OIndexAddr {
				return
			}
			x.event(&Event{Kind: "peek", Args: []*Term{x.Load(a), a.args[0], a.args[1]}, Instr: in, Fr: fr})
			return
		case *ssa.Slice:
			if i.Low != nil && i.High == nil && isText(i.X.Type()) {
				x.assumeGe(x.Lin(x.LenOf(x.Val(fr, i.X))).sub(x.Lin(x.Val(fr, i.Low))))
			}
			return
		case *ssa.Lookup:
			if !isStringType(i.X.Type()) {
				return
			}
			at = x.ts.Mk(OIndex, i.Type(), "", 0, x.Val(fr, i.X), x.Val(fr, i.Index))
		case *ssa.Index:
			if !isStringType(i.X.Type()) {
				return
			}
			at = x.ts.Mk(OIndex, i.Type(), "", 0, x.Val(fr, i.X), x.Val(fr, i.Index))
		default:
			return
		}
		x.event(&Event{Kind: "peek", Args: []*Term{at, at.args[0], at.args[1]}, Instr: in, Fr: fr})
	}
	p.Loop0 = g.beforeLoop(before)
	p.Event = func(x *Exec, e *Event) {
		if e.Kind == "loop" {
			g.enterLoop(x, e, before)
		}
		if e.Kind == "call" && e.Res != nil && g.ps.looks(e.Fn) && g.ps.cut(e.Fn) {
			// positions only grow
			if sh := g.ps.shapeOf(e.Fn); sh != nil {
				r := e.Res
				if e.Fn.Signature.Results().Len() > 1 {
					r = x.extract(r, sh.res, e.Fn.Signature.Results().At(sh.res).Type())
				}
				x.assumeGe(x.Lin(r).sub(x.Lin(e.Args[sh.at])))
			}
		}
	}
	p.Back = func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) {
		if g.pre {
			g.pair(x, a, next)
		} else {
			g.back(x, a, next)
		}
	}
	p.Ret = func(x *Exec, args, res []*Term) {
		if !g.pre {
			g.ret(x, res)
		}
	}
	return p.Run(g.ctx.fn)
}

// pread replays one path.
type pread struct {
	g      *pgram
	x      *Exec
	mode   map[*loopAct]bool
	at     map[*Term]*gt
	args   []*Term
	last   ssa.Instruction
	same   map[*Term]Lin // loop variables on the first turn, or as others are
	looked []plook
	loops  []ploop
	named  map[string]*Term
	passed []ppass
	known  []pknown
	asking bool
}

// twin is a variable from which another differs by the same on all turns.
func (g *pgram) twin(x *Exec, a *loopAct, v gvar) *gvar {
	for i := range g.vars[a] {
		o := &g.vars[a][i]
		if o.key == v.key {
			return nil
		}
		if isInt(o.cur.typ) && g.twins[v.key+o.key] {
			return o
		}
	}
	return nil
}

// pair learns which variables move together.
func (g *pgram) pair(x *Exec, a *loopAct, next map[*ssa.Phi]*Term) {
	to := func(v gvar) *Term {
		if v.ph != nil {
			return next[v.ph]
		}
		return x.Load(v.addr)
	}
	vs := g.vars[a]
	for i, v := range vs {
		for _, o := range vs[:i] {
			if !isInt(v.cur.typ) || !isInt(o.cur.typ) {
				continue
			}
			k := v.key + o.key
			was, ok := g.twins[k]
			n, m := to(v), to(o)
			g.twins[k] = (!ok || was) && n != nil && m != nil && sameLin(x.Lin(n).sub(x.Lin(m)), x.Lin(v.cur).sub(x.Lin(o.cur)))
		}
	}
}

// plook is a byte that was looked at.
type plook struct {
	at   Lin
	byte *Term
	in   ssa.Instruction
}

func (g *pgram) replay(x *Exec, mode map[*loopAct]bool, stop *loopAct) (c *pread, at *gpass) {
	c = &pread{g: g, x: x, mode: mode, at: map[*Term]*gt{}, args: g.args, same: map[*Term]Lin{}, named: map[string]*Term{}}
	for i, e := range x.Events {
		if e.Instr != nil {
			c.last = e.Instr
		}
		if e.Kind != "loop" {
			continue
		}
		a := e.Data.(*loopAct)
		p := &gpass{a: a, key: g.keys[a], later: mode[a], pol: '?'}
		for _, b := range x.Events[i+1:] {
			if b.Kind == "branch" && b.Fr == e.Fr {
				p.pol = 'F'
				if b.Data.(bool) {
					p.pol = 'T'
				}
				break
			}
		}
		for _, v := range g.vars[a] {
			if isInt(v.cur.typ) {
				if p.later {
					if o := g.twin(x, a, v); o != nil {
						c.same[v.cur] = linVar(o.cur).add(x.Lin(v.entry)).sub(x.Lin(o.entry))
						continue
					}
					c.at[v.cur] = p.head(v.key, e.Instr)
					c.loops = append(c.loops, ploop{v, p})
				} else if v.cur != v.entry {
					c.same[v.cur] = x.Lin(v.entry)
				}
			}
		}
		if a == stop {
			at = p
		}
	}
	for _, e := range x.Events {
		if e.Kind == "peek" {
			if o, ok := c.offset(e.Args[1]); ok {
				c.looked = append(c.looked, plook{c.canon(o.add(x.Lin(e.Args[2]))), e.Args[0], e.Instr})
			}
		}
	}
	c.searched()
	return c, at
}

// canon replaces loop variables on the first turn by their first value.
func (c *pread) canon(l Lin) Lin {
	for n := 0; n < 20; n++ {
		r := linConst(l.c)
		more := false
		for _, v := range l.v {
			d := linVar(v.t)
			if e, ok := c.same[v.t]; ok {
				d, more = e, true
			}
			r, _ = r.addScaled(d, v.k)
		}
		if !more {
			break
		}
		l = r
	}
	return l
}

func sameLin(a, b Lin) bool {
	d := a.sub(b)
	return len(d.v) == 0 && d.c == 0
}

func (c *pread) cut(msg string) *gt {
	return &gt{kind: 'b', bad: &tbad{msg, c.last}, in: c.last}
}

// pos is the text between the offset and a position.
func (c *pread) pos(t *Term) *gt {
	if f, ok := c.at[t]; ok {
		return f
	}
	f := c.find(t)
	c.at[t] = f
	return f
}

func (c *pread) find(t *Term) *gt {
	if t == c.args[c.g.ctx.sh.at] {
		return gempty
	}
	for _, e := range c.x.Events {
		if e.Kind != "call" || e.Res == nil || !(e.Res == t || t.op == OExtract && e.Res == t.args[0]) {
			continue
		}
		if !c.g.ps.looks(e.Fn) {
			continue
		}
		sh := c.g.ps.shapeOf(e.Fn)
		if sh == nil || t.op == OExtract && t.num != sh.res {
			break
		}
		if !c.whole(e.Args[sh.text]) {
			return c.cut(lastName(e.Name) + " reads another text")
		}
		if sh.err >= 0 && c.x.knownNil(c.x.extract(e.Res, sh.err, e.Fn.Signature.Results().At(sh.err).Type())) != 1 {
			return c.cut("the error of " + lastName(e.Name) + " is not looked at")
		}
		before := c.pos(e.Args[sh.at])
		dom, _ := c.byteAt(c.x.Lin(e.Args[sh.at]))
		if dom.Empty() {
			return gnone
		}
		consts := map[int]*Term{}
		for i, a := range e.Args {
			if i != sh.at && a != nil && a.op == OConst && (isBoolType(a.typ) || isIntType(a.typ)) {
				consts[i] = a
			} else if i != sh.at && a != nil {
				if _, fin := finiteFull(a); fin {
					if d := c.domain(a); d.Count() == 1 {
						for b := 0; b < 256; b++ {
							if d.Has(b) {
								consts[i] = c.x.ts.Const(constant.MakeInt64(int64(b)), a.typ)
							}
						}
					}
				}
			}
		}
		ctx := c.g.ps.ctx(e.Fn, dom, consts)
		if ctx != nil {
			c.known = append(c.known, pknown{c.canon(c.x.Lin(t)), ctx.post})
		}
		return gcat(before, &gt{kind: 'P', fun: ctx, in: e.Instr})
	}
	if f := c.sum(c.canon(c.x.Lin(t)), t); f != nil {
		return f
	}
	// the end of the text, where something else is known to have arrived
	if l := c.canon(c.x.Lin(t)); sameLin(l, c.canon(c.x.Lin(c.x.LenOf(c.args[c.g.ctx.sh.text])))) && !c.asking {
		c.asking = true
		defer func() { c.asking = false }()
		off := linVar(c.args[c.g.ctx.sh.at])
		cands := []Lin{off}
		for _, v := range c.loops {
			cands = append(cands, linVar(v.cur), off.add(linVar(v.cur)), off.add(linVar(v.cur)).plus(1))
		}
		for i := len(cands) - 1; i >= 0; i-- {
			if k := c.canon(cands[i]); c.x.eqLin(k, l) {
				if f := c.whereIs(k); f != nil {
					return f
				}
			}
		}
	}
	return c.cut("the position " + t.String() + " does not follow from the offset")
}

// bytes is the text before a position and some bytes from it on.
func (c *pread) bytes(f *gt, at Lin, n int64) *gt {
	for j := int64(0); j < n; j++ {
		dom, in := c.byteAt(at.plus(j))
		if in == nil {
			in = c.last
		}
		f = gcat(f, &gt{kind: 'd', set: dom, in: in})
	}
	return f
}

func (c *pread) whereIs(l Lin) *gt {
	if f := c.sum(l, nil); f != nil {
		return f
	}
	if len(l.v) == 1 && l.v[0].k == 1 && l.c == 0 {
		return c.pos(l.v[0].t)
	}
	return nil
}

// sum is the text of a position given as a sum.
func (c *pread) sum(l Lin, t *Term) *gt {
	if len(l.v) == 1 && l.v[0].k == 1 && l.v[0].t != t && l.c >= 0 && l.c < 64 {
		return c.bytes(c.pos(l.v[0].t), linVar(l.v[0].t), l.c)
	}
	// behind what a search passed over
	for _, p := range c.passed {
		if d := l.sub(p.to); len(d.v) == 0 && d.c >= 0 && d.c < 64 {
			from := c.whereIs(p.from)
			if from != nil {
				first, _ := c.byteAt(p.from)
				one := func(s Set) *gt { return &gt{kind: 'd', set: s.And(p.over), in: p.in} }
				some := gcat(one(first), &gt{kind: 'r', kids: []*gt{one(fullSet())}, in: p.in})
				return c.bytes(gcat(from, galt(gempty, some)), p.to, d.c)
			}
		}
	}
	// a loop variable counted from another position
	for i := len(c.loops) - 1; i >= 0; i-- {
		v := c.loops[i]
		if l.coef(v.cur) != 1 || len(l.v) < 2 {
			continue
		}
		rest := l.sub(linVar(v.cur))
		n := rest.c
		if e, ok := v.entry.IntVal(); ok {
			n += e
		}
		if n < 0 || n > 64 {
			continue
		}
		rest = rest.plus(-n)
		key := v.key + "+" + c.stable(rest)
		c.g.moved[key] = gmoved{v.key, c.parts(rest), rest.c}
		return c.bytes(&gt{kind: 'h', s: key, pol: v.pass.pol, in: c.last}, l.plus(-n), n)
	}
	return nil
}

// ploop is a loop variable on a later turn.
type ploop struct {
	gvar
	pass *gpass
}

// gmoved is a loop variable with other positions added.
type gmoved struct {
	v     string
	parts []gpart
	c     int64
}

type gpart struct {
	name string
	k    int64
}

// name identifies a term over all paths.
func (c *pread) name(t *Term) string {
	for _, v := range c.loops {
		if v.cur == t {
			return v.key
		}
	}
	return t.String()
}

func (c *pread) parts(l Lin) []gpart {
	var out []gpart
	for _, v := range l.v {
		out = append(out, gpart{c.name(v.t), v.k})
		c.named[c.name(v.t)] = v.t
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func (c *pread) stable(l Lin) string { return fmt.Sprint(c.parts(l), l.c) }

// lin puts a sum together again on this path.
func (c *pread) lin(m gmoved) (Lin, bool) {
	l := linConst(m.c)
	for _, p := range m.parts {
		var t *Term
		for _, v := range c.loops {
			if v.key == p.name {
				t = v.cur
			}
		}
		for _, a := range c.args {
			if a != nil && a.String() == p.name {
				t = a
			}
		}
		if t == nil {
			return l, false
		}
		l, _ = l.addScaled(linVar(t), p.k)
	}
	return c.canon(l), true
}

// ppass is a stretch of text a search passed over.
type ppass struct {
	from, to Lin
	over     Set
	in       ssa.Instruction
}

// searched lists what library searches on this path tell.
func (c *pread) searched() {
	x := c.x
	for _, e := range x.Events {
		if e.Kind != "call" || e.Res == nil || len(e.Args) != 2 {
			continue
		}
		base := e.Name[strings.LastIndexByte(e.Name, '.')+1:]
		if e.Name != "bytes."+base && e.Name != "strings."+base {
			continue
		}
		o, ok := c.offset(e.Args[0])
		if !ok {
			continue
		}
		var set Set
		if s, ok := e.Args[1].StrVal(); ok {
			for i := 0; i < len(s); i++ {
				set.Add(int(s[i]))
			}
			if base == "Index" && len(s) > 1 {
				continue
			}
		} else if _, fin := finiteFull(e.Args[1]); fin {
			set = c.domain(e.Args[1])
			if set.Count() != 1 {
				continue
			}
		} else {
			continue
		}
		from := c.canon(o)
		rest := Set{}
		for i := range rest {
			rest[i] = ^set[i]
		}
		end := c.canon(o.add(x.Lin(x.LenOf(e.Args[0]))))
		switch base {
		case "IndexByte", "IndexAny", "IndexRune", "Index":
			if x.Entails(x.Lin(e.Res)) {
				to := c.canon(o.add(x.Lin(e.Res)))
				c.passed = append(c.passed, ppass{from, to, rest, e.Instr})
				c.known = append(c.known, pknown{to, set})
			} else if x.Entails(x.Lin(e.Res).neg().plus(-1)) {
				c.passed = append(c.passed, ppass{from, end, rest, e.Instr})
			}
		case "TrimLeft":
			to := end.sub(x.Lin(x.LenOf(e.Res)))
			c.passed = append(c.passed, ppass{from, to, set, e.Instr})
			c.known = append(c.known, pknown{to, rest})
		}
	}
}

type pknown struct {
	at  Lin
	set Set
}

// offset is the place in the text at which a slice of it begins.
func (c *pread) offset(t *Term) (Lin, bool) {
	switch {
	case t == c.args[c.g.ctx.sh.text]:
		return linConst(0), true
	case t.op == OSlice:
		o, ok := c.offset(t.args[0])
		return o.add(c.x.Lin(t.args[1])), ok
	case t.op == OConv && isText(t.args[0].typ):
		return c.offset(t.args[0])
	case t.op == OCall && (t.aux == "bytes.TrimLeft" || t.aux == "strings.TrimLeft"):
		o, ok := c.offset(t.args[0])
		return o.add(c.x.Lin(c.x.LenOf(t.args[0]))).sub(c.x.Lin(c.x.LenOf(t))), ok
	}
	return Lin{}, false
}

func (c *pread) whole(t *Term) bool {
	o, ok := c.offset(t)
	return ok && len(o.v) == 0 && o.c == 0
}

// byteAt are the bytes that may stand at a position, and where it was looked at.
func (c *pread) byteAt(at Lin) (Set, ssa.Instruction) {
	dom := fullSet()
	at = c.canon(at)
	if sameLin(at, c.x.Lin(c.args[c.g.ctx.sh.at])) {
		dom = c.g.ctx.dom
	}
	var in ssa.Instruction
	same := map[*Term]bool{}
	for _, l := range c.looked {
		if sameLin(l.at, at) {
			same[l.byte] = true
			in = l.in
		}
	}
	for _, k := range c.known {
		if sameLin(k.at, at) {
			dom = dom.And(k.set)
		}
	}
	for _, e := range c.x.Events {
		switch {
		case e.Kind == "call" && strings.HasPrefix(e.Name, "strconv.Parse") && len(e.Args) > 0 && e.Res != nil:
			o, ok := c.offset(e.Args[0])
			if !ok || c.x.knownNil(c.x.extract(e.Res, 1, types.Universe.Lookup("error").Type())) != 1 {
				continue
			}
			n := c.x.Lin(c.x.LenOf(e.Args[0]))
			if c.x.Entails(at.sub(o)) && c.x.Entails(o.add(n).sub(at).plus(-1)) {
				dom = dom.And(numberBytes)
			}
		}
	}
	for t := range same {
		dom = dom.And(c.domain(t))
	}
	for _, e := range c.x.Events {
		if e.Kind == "call" && charFunc(e.Fn) && e.Res != nil && same[e.Args[0]] {
			k := c.x.extract(e.Res, 1, e.Fn.Signature.Results().At(1).Type())
			ok := false
			if isBoolType(k.typ) {
				v, known := c.x.Eval(k)
				ok = known && v
			} else {
				ok = c.x.knownNil(k) == 1
			}
			if ok {
				dom = dom.And(c.g.ps.accepted(e.Fn))
			}
		}
	}
	return dom, in
}

var numberBytes = func() (s Set) {
	for i := 0; i < 256; i++ {
		b := byte(i)
		if b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '+' || b == '-' || b == '.' || b == '_' {
			s.Add(i)
		}
	}
	return s
}()

// domain is what a byte may be, comparisons with other bytes included.
func (c *pread) domain(t *Term) Set {
	d, ok := c.x.Domain(t)
	if !ok {
		return fullSet()
	}
	for _, e := range c.x.Events {
		if e.Kind != "branch" {
			continue
		}
		if v := c.g.w.charVar(e.Args[0]); v == t {
			for b := 0; b < 256; b++ {
				if !d.Has(b) {
					continue
				}
				if r, ok := c.g.w.evalChar(e.Args[0], t, int64(b)); ok && r.Kind() == constant.Bool && constant.BoolVal(r) != e.Data.(bool) {
					d[b>>6] &^= 1 << (b & 63)
				}
			}
			continue
		}
		k, eq := e.Args[0], e.Data.(bool)
		for k.op == OUn && k.aux == "!" {
			k, eq = k.args[0], !eq
		}
		if k.op != OBin || k.aux != "==" && k.aux != "!=" {
			continue
		}
		o := k.args[1]
		if o == t {
			o = k.args[0]
		} else if k.args[0] != t {
			continue
		}
		od, ok := c.x.Domain(o)
		if !ok || od.Count() != 1 {
			continue
		}
		for i := 0; i < 4; i++ {
			if eq == (k.aux == "==") {
				d[i] &= od[i]
			} else {
				d[i] &^= od[i]
			}
		}
	}
	return d
}

// read is the effect of bytes and of calls on a reader.
func (g *pgram) read(t *gt, s gstate) gset {
	out := gset{}
	if t.kind == 'd' {
		bad := false
		for _, b := range bytesFirst(t.set) {
			e := g.lenient(s, b, t.in)
			if e.sub == gBad {
				if bad {
					continue
				}
				bad = true
			}
			out[e] = true
		}
		return out
	}
	c := t.fun
	if c == nil {
		return gset{g.fail(s, "a function whose reading is not followed is called", t.in): true}
	}
	from, rest := s, ""
	if n := len(s.stack); n > 0 {
		rest = s.stack[:n-1]
		from.stack = s.stack[n-1:]
	}
	if c.sums[from] == nil {
		c.sums[from] = map[gstate]bool{}
		g.ps.changed = true
		g.changed = true
	}
	for e := range c.sums[from] {
		e.stack = rest + e.stack
		out[e] = true
	}
	return out
}

// bytesFirst lists a set, readable characters first.
func bytesFirst(s Set) []byte {
	var a, b []byte
	for i := 0; i < 256; i++ {
		if s.Has(i) {
			if i > ' ' && i < 127 {
				a = append(a, byte(i))
			} else {
				b = append(b, byte(i))
			}
		}
	}
	return append(a, b...)
}

// lenient reads one character as this parser's language has it: both kinds of
// quotes, bare words, empty values, a comma before a closing bracket.
func (g *pgram) lenient(s gstate, b byte, in ssa.Instruction) gstate {
	ws := b == ' ' || b == '\n' || b == '\t' || b == '\r'
	switch s.sub {
	case gBad:
		return s
	case gStr, gKStr:
		switch b {
		case s.lit[0]:
			if s.sub == gKStr {
				return s.with(gColon)
			}
			return s.with(gDone)
		case '\\':
			s.sub++
		}
		return s
	case gEsc, gKEsc:
		s.sub--
		return s
	case gTok, gKTok:
		if !ws && strings.IndexByte(":,]}", b) < 0 {
			return s
		}
		if s.sub == gTok {
			s.sub = gDone
		} else {
			s.sub = gColon
		}
	}
	if ws {
		switch s.sub {
		case gValC:
			return s.with(gVal)
		case gKeyC:
			return s.with(gKey)
		}
		return s
	}
	no := func() gstate {
		return g.fail(s, fmt.Sprintf("%q is accepted where %s is expected", b, s.wants()), in)
	}
	switch b {
	case '{', '[':
		if s.wantsKey() {
			return s.with(gKTok)
		}
		if !s.wantsVal() {
			return no()
		}
		if len(s.stack) > 5 {
			return g.fail(s, "brackets are opened without end", in)
		}
		if b == '{' {
			return gstate{stack: s.stack + "O", sub: gOOpen}
		}
		return gstate{stack: s.stack + "A", sub: gAOpen}
	case '}':
		if s.top() != 'O' || s.sub != gDone && !s.wantsKey() && !s.wantsVal() {
			return no()
		}
		return gstate{stack: s.stack[:len(s.stack)-1], sub: gDone}
	case ']':
		if s.top() != 'A' || s.sub != gDone && !s.wantsVal() {
			return no()
		}
		return gstate{stack: s.stack[:len(s.stack)-1], sub: gDone}
	case ',':
		if s.stack == "" || s.sub != gDone && !s.wantsVal() {
			return no()
		}
		if s.top() == 'O' {
			return s.with(gKeyC)
		}
		return s.with(gValC)
	case ':':
		if s.sub != gColon && !s.wantsKey() {
			return no()
		}
		return s.with(gVal)
	case '"', '\'':
		switch {
		case s.wantsVal():
			return gstate{stack: s.stack, sub: gStr, lit: string(rune(b))}
		case s.wantsKey():
			return gstate{stack: s.stack, sub: gKStr, lit: string(rune(b))}
		}
		return no()
	}
	switch {
	case s.wantsVal():
		return s.with(gTok)
	case s.wantsKey():
		return s.with(gKTok)
	}
	return no()
}

func (s gstate) wants() string {
	switch s.sub {
	case gTok:
		return "the rest of a value"
	case gKTok:
		return "the rest of a key"
	case gDone:
		if s.stack == "" {
			return "the end of the text"
		}
	}
	return s.expects()
}

func (g *pgram) back(x *Exec, a *loopAct, next map[*ssa.Phi]*Term) {
	g.all(x, func(mode map[*loopAct]bool) {
		h := g.keys[a]
		if g.facts[h] == nil {
			g.facts[h] = &gfact{}
			g.changed = true
		}
		to := map[*Term]*Term{}
		for _, v := range g.vars[a] {
			var n *Term
			if v.ph != nil {
				n = next[v.ph]
			} else {
				n = x.Load(v.addr)
			}
			if n != nil {
				to[v.cur] = n
				g.learn(x, a, v, n)
			}
		}
		end, at := g.replay(x, mode, a)
		if at == nil {
			return
		}
		tag := g.goesOn(x, a, to)
		turn := func(key string, f *gt) {
			for _, s := range g.starts(key) {
				m := g.demand(key, s)
				for e := range g.apply(f, s) {
					if k := (gend{e, tag}); !m[k] {
						m[k] = true
						g.changed = true
					}
				}
			}
		}
		for _, v := range g.vars[a] {
			n := to[v.cur]
			if n == nil || !isInt(n.typ) || len(g.tab[v.key]) == 0 {
				continue
			}
			turn(v.key, end.pos(n))
		}
		for key, m := range g.moved {
			if len(g.tab[key]) == 0 || !strings.HasPrefix(m.v, at.key+"|") {
				continue
			}
			l, ok := end.lin(m)
			if !ok {
				continue
			}
			var n *Term
			for _, v := range g.vars[a] {
				if v.key == m.v {
					n = to[v.cur]
				}
			}
			if n == nil {
				continue
			}
			l = end.canon(l.add(x.Lin(n)))
			f := end.whereIs(l)
			if f == nil {
				f = end.cut("a position does not follow from the offset")
			}
			turn(key, f)
		}
	})
}

func (g *pgram) ret(x *Exec, res []*Term) {
	sh := g.ctx.sh
	if sh.err >= 0 && !x.setNil(res[sh.err], true) {
		return
	}
	g.all(x, func(mode map[*loopAct]bool) {
		end, _ := g.replay(x, mode, nil)
		if l := retInstr(g.root); end.last == nil {
			end.last = l
		}
		f := end.pos(res[sh.res])
		if !x.Entails(x.Lin(res[sh.res]).sub(x.Lin(x.LenOf(g.args[sh.text])))) {
			post, _ := end.byteAt(x.Lin(res[sh.res]))
			for i := range post {
				if post[i]&^g.ctx.post[i] != 0 {
					g.ctx.post[i] |= post[i]
					g.ps.changed = true
				}
			}
		}
		for _, s := range startsOf(g.ctx.sums) {
			for e := range g.apply(f, s) {
				switch {
				case e.sub == gBad:
					g.ps.found(g.ctx, e.bad.inst, e.bad.msg)
					continue
				case len(e.stack) > len(s.stack) || e.inStr() && !s.inStr():
					g.ps.found(g.ctx, end.last, "the text may end where "+e.wants()+" is expected")
					continue
				case g.ctx.entry && s == gstart && e.sub != gDone && e.sub != gTok && e.sub != gVal:
					g.ps.found(g.ctx, end.last, "the text may end where "+e.wants()+" is expected")
				}
				g.ctx.paths++
				if m := g.ctx.sums[s]; !m[e] {
					m[e] = true
					g.ps.changed = true
				}
			}
		}
	})
}

func (g *pgram) all(x *Exec, k func(mode map[*loopAct]bool)) {
	g.split(x, func() { g.modes(x, k) })
}

// split runs k once for each value of the characters functions are called with.
func (g *pgram) split(x *Exec, k func()) {
	var small []*Term
	for _, e := range x.Events {
		if e.Kind != "call" || !g.ps.looks(e.Fn) || !g.ps.cut(e.Fn) {
			continue
		}
		for _, a := range e.Args {
			if a == nil || len(small) > 2 {
				continue
			}
			if _, fin := finiteFull(a); fin && a.op != OConst {
				c := pread{g: g, x: x}
				if n := c.domain(a).Count(); n == 2 || n == 3 {
					small = append(small, a)
				}
			}
		}
	}
	var rec func(i int)
	rec = func(i int) {
		if i == len(small) {
			k()
			return
		}
		c := pread{g: g, x: x}
		d := c.domain(small[i])
		for b := 0; b < 256; b++ {
			if d.Has(b) {
				m := x.mark()
				if x.Assume(x.Bin("==", small[i], x.ts.Const(constant.MakeInt64(int64(b)), small[i].typ), types.Typ[types.Bool]), true) {
					rec(i + 1)
				}
				x.undo(m)
			}
		}
	}
	rec(0)
}

func startsOf(m map[gstate]map[gstate]bool) []gstate {
	var l []gstate
	for s := range m {
		l = append(l, s)
	}
	return l
}
