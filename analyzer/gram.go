package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The reader of JSON text: a stack of open brackets and what it expects next.
type gsub uint8

const (
	gVal   gsub = iota // a value
	gValC              // a value, right after a comma
	gAOpen             // a value or the end of the array
	gDone              // a comma or a closing bracket
	gOOpen             // a key or the end of the object
	gKey               // a key
	gKeyC              // a key, right after a comma
	gColon             // a colon
	gStr
	gEsc
	gKStr
	gKEsc
	gLit
	gMinus
	gZero
	gInt
	gDot
	gFrac
	gExpS
	gExpD
	gExp
	gPtr
	gPtrD
	gTok  // a bare word as a value (lenient reader)
	gKTok // a bare word as a key
	gBad
)

type gstate struct {
	stack string
	sub   gsub
	lit   string // what is missing of a literal
	bad   *tbad
}

var gstart = gstate{}

func (s gstate) top() byte {
	if s.stack == "" {
		return 0
	}
	return s.stack[len(s.stack)-1]
}

func (s gstate) with(n gsub) gstate { return gstate{stack: s.stack, sub: n} }

func (s gstate) wantsVal() bool { return s.sub == gVal || s.sub == gValC || s.sub == gAOpen }
func (s gstate) wantsKey() bool { return s.sub == gKey || s.sub == gKeyC || s.sub == gOOpen }
func (s gstate) inStr() bool    { return s.sub >= gStr && s.sub <= gKEsc }

// complete: what was read may end here.
func (s gstate) complete() bool {
	switch s.sub {
	case gDone, gZero, gInt, gFrac, gExp:
		return true
	}
	return false
}

func (s gstate) expects() string {
	switch {
	case s.sub == gAOpen:
		return "an element or the end of the array"
	case s.wantsVal():
		return "a value"
	case s.sub == gOOpen:
		return "a key or the end of the object"
	case s.wantsKey():
		return "a key"
	case s.sub == gColon:
		return "a colon"
	case s.inStr():
		return "the rest of a string"
	case s.complete() && s.stack == "":
		return "the end of the text"
	case s.complete():
		return "a comma or the closing bracket"
	case s.sub == gPtr, s.sub == gPtrD:
		return "the rest of a reference"
	}
	return "the rest of a number or literal"
}

// gt is a text, as a recipe for what it does to a reader.
type gt struct {
	kind byte
	s    string
	kids []*gt
	bad  *tbad
	in   ssa.Instruction
	pol  byte
	some bool
	set  Set   // bytes that may be read
	fun  *pctx // function that reads on
}

type gram struct {
	*txt
	tab     map[string]map[gstate]map[gend]bool
	facts   map[string]*gfact
	vars    map[*loopAct][]gvar
	keys    map[*loopAct]string
	reasons map[string]*tbad
	changed bool
	judged  int
	ext     func(t *gt, s gstate) gset
	report  func(in ssa.Instruction, msg string)
}

type gend struct {
	st  gstate
	tag byte // whether the loop is known to go on ('T') or to end ('F')
}

type gfact struct {
	up     bool
	k      *Term
	kdead  bool
	bounds map[string]int // how far below each bound, -1 if not known to be
}

type gvar struct {
	key        string
	entry, cur *Term
	addr       *Term
	ph         *ssa.Phi
}

func newGram(w *World, root *ssa.Function) *gram {
	return &gram{txt: newTxt(w, root, false), tab: map[string]map[gstate]map[gend]bool{}, facts: map[string]*gfact{}, reasons: map[string]*tbad{}}
}

func (g *gram) fail(s gstate, msg string, in ssa.Instruction) gstate {
	k := fmt.Sprintf("%p|%s", in, msg)
	b := g.reasons[k]
	if b == nil {
		b = &tbad{msg, in}
		g.reasons[k] = b
	}
	return gstate{sub: gBad, bad: b}
}

// ch reads one character.
func (g *gram) ch(s gstate, b byte, in ssa.Instruction) gstate {
	ws := b == ' ' || b == '\n' || b == '\t' || b == '\r'
	switch s.sub {
	case gBad:
		return s
	case gStr, gKStr:
		switch {
		case b == '"' && s.sub == gStr:
			return s.with(gDone)
		case b == '"':
			return s.with(gColon)
		case b == '\\':
			return s.with(s.sub + 1)
		}
		return s
	case gEsc, gKEsc:
		return s.with(s.sub - 1)
	case gLit:
		if s.lit[0] == b {
			if len(s.lit) == 1 {
				return s.with(gDone)
			}
			s.lit = s.lit[1:]
			return s
		}
		return g.fail(s, fmt.Sprintf("%q is written inside a literal", b), in)
	case gPtr, gPtrD:
		switch {
		case b >= '0' && b <= '9':
			return s.with(gPtrD)
		case b == '>' && s.sub == gPtrD:
			return s.with(gDone)
		}
		return g.fail(s, fmt.Sprintf("%q is written inside a reference", b), in)
	case gMinus, gZero, gInt, gDot, gFrac, gExpS, gExpD, gExp:
		dig := b >= '0' && b <= '9'
		switch {
		case s.sub == gMinus && b == '0':
			return s.with(gZero)
		case (s.sub == gMinus || s.sub == gInt) && dig:
			return s.with(gInt)
		case (s.sub == gZero || s.sub == gInt) && b == '.':
			return s.with(gDot)
		case (s.sub == gDot || s.sub == gFrac) && dig:
			return s.with(gFrac)
		case s.complete() && s.sub != gExp && (b == 'e' || b == 'E'):
			return s.with(gExpS)
		case s.sub == gExpS && (b == '+' || b == '-'):
			return s.with(gExpD)
		case (s.sub == gExpS || s.sub == gExpD || s.sub == gExp) && dig:
			return s.with(gExp)
		case !s.complete():
			return g.fail(s, fmt.Sprintf("%q is written inside a number", b), in)
		}
		s = s.with(gDone)
	}
	if ws {
		switch s.sub {
		case gValC:
			return s.with(gVal)
		case gKeyC:
			return s.with(gKey)
		}
		return s
	}
	no := func() gstate {
		return g.fail(s, fmt.Sprintf("%q is written where the reader expects %s", b, s.expects()), in)
	}
	switch b {
	case '{', '[':
		if !s.wantsVal() {
			return no()
		}
		if len(s.stack) > 5 {
			return g.fail(s, "brackets are opened without end", in)
		}
		if b == '{' {
			return gstate{stack: s.stack + "O", sub: gOOpen}
		}
		return gstate{stack: s.stack + "A", sub: gAOpen}
	case '}', ']':
		open := byte('O')
		if b == ']' {
			open = 'A'
		}
		if s.top() != open || s.sub != gDone && s.sub != gOOpen && s.sub != gAOpen {
			return no()
		}
		return gstate{stack: s.stack[:len(s.stack)-1], sub: gDone}
	case ',':
		if s.sub != gDone || s.stack == "" {
			return no()
		}
		if s.top() == 'O' {
			return s.with(gKeyC)
		}
		return s.with(gValC)
	case ':':
		if s.sub != gColon {
			return no()
		}
		return s.with(gVal)
	case '"':
		switch {
		case s.wantsVal():
			return s.with(gStr)
		case s.wantsKey():
			return s.with(gKStr)
		}
		return no()
	}
	if !s.wantsVal() {
		return no()
	}
	switch {
	case b == 'n':
		return gstate{stack: s.stack, sub: gLit, lit: "ull"}
	case b == 't':
		return gstate{stack: s.stack, sub: gLit, lit: "rue"}
	case b == 'f':
		return gstate{stack: s.stack, sub: gLit, lit: "alse"}
	case b == '-':
		return s.with(gMinus)
	case b == '0':
		return s.with(gZero)
	case b >= '1' && b <= '9':
		return s.with(gInt)
	case b == '<':
		return s.with(gPtr)
	}
	return no()
}

type gset map[gstate]bool

// apply is the set of readers after the text.
func (g *gram) apply(t *gt, s gstate) gset {
	if s.sub == gBad {
		return gset{s: true}
	}
	one := func(s gstate) gset { return gset{s: true} }
	bad := func(what string) gset {
		return one(g.fail(s, fmt.Sprintf("%s is written where the reader expects %s", what, s.expects()), t.in))
	}
	switch t.kind {
	case 'd', 'P':
		return g.ext(t, s)
	case 'k':
		for i := 0; i < len(t.s) && s.sub != gBad; i++ {
			s = g.ch(s, t.s[i], t.in)
		}
		return one(s)
	case 'c':
		cur := one(s)
		for _, k := range t.kids {
			cur = g.each(k, cur)
		}
		return cur
	case 'a':
		out := gset{}
		for _, k := range t.kids {
			for e := range g.apply(k, s) {
				out[e] = true
			}
		}
		return out
	case 'b':
		return one(g.fail(s, t.bad.msg, t.bad.inst))
	case 'x': // content of the tree
		switch s.sub {
		case gStr, gKStr:
			return one(s)
		case gEsc, gKEsc:
			return one(s.with(s.sub - 1))
		}
		return bad(t.s)
	case 'V', 'B':
		switch {
		case s.wantsVal():
			return one(s.with(gDone))
		case t.kind == 'B' && (s.sub == gStr || s.sub == gKStr):
			return one(s)
		}
		return bad(t.s)
	case 'S':
		switch {
		case s.wantsVal():
			return one(s.with(gDone))
		case s.wantsKey():
			return one(s.with(gColon))
		}
		return bad("a string")
	case 'I', 'N':
		switch {
		case s.wantsVal() && t.kind == 'I':
			return one(s.with(gInt))
		case s.wantsVal():
			return one(s.with(gExp))
		case s.sub == gStr, s.sub == gKStr:
			return one(s)
		case s.sub == gPtr && t.kind == 'I':
			return one(s.with(gPtrD))
		}
		return bad("a number")
	case 'u': // the last character is taken away
		switch s.sub {
		case gValC, gKeyC:
			return one(s.with(gDone))
		}
		if t.s != "" { // only when it is a comma
			return one(s)
		}
		return bad("the last character is taken away; something")
	case 'r':
		return g.closure(one(s), func(c gstate) gset { return g.apply(t.kids[0], c) })
	case 'j':
		first := g.apply(t.kids[0], s)
		all := g.closure(first, func(c gstate) gset { return g.each(t.kids[0], g.apply(t.kids[1], c)) })
		if !t.some {
			all[s] = true
		}
		return all
	case 'h':
		out := gset{}
		for e := range g.demand(t.s, s) {
			if t.pol == '?' || e.tag == '?' || e.tag == t.pol {
				out[e.st] = true
			}
		}
		return out
	}
	return one(s)
}

func (g *gram) each(t *gt, l gset) gset {
	out := gset{}
	for s := range l {
		for e := range g.apply(t, s) {
			out[e] = true
		}
	}
	return out
}

func (g *gram) closure(l gset, f func(gstate) gset) gset {
	out := gset{}
	var work []gstate
	for s := range l {
		out[s] = true
		work = append(work, s)
	}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if s.sub == gBad {
			continue
		}
		for e := range f(s) {
			if !out[e] {
				out[e] = true
				work = append(work, e)
			}
		}
	}
	return out
}

// demand reads what is known of the text at the head of a loop.
func (g *gram) demand(key string, s gstate) map[gend]bool {
	m := g.tab[key]
	if m == nil {
		m = map[gstate]map[gend]bool{}
		g.tab[key] = m
	}
	if m[s] == nil {
		m[s] = map[gend]bool{}
		g.changed = true
	}
	return m[s]
}

func gcat(l ...*gt) *gt {
	var kids []*gt
	for _, k := range l {
		if k.kind == 'c' {
			kids = append(kids, k.kids...)
		} else {
			kids = append(kids, k)
		}
	}
	if len(kids) == 1 {
		return kids[0]
	}
	return &gt{kind: 'c', kids: kids}
}

// run interprets the root until what is known of its loops is stable.
func (g *gram) run() bool {
	for round := 0; round < 60; round++ {
		g.changed = false
		if !g.once(false) {
			return false
		}
		if !g.changed {
			return g.once(true)
		}
	}
	return false
}

func (g *gram) once(final bool) bool {
	g.snap = map[*Event]map[*Term][]*Term{}
	g.vars, g.keys = map[*loopAct][]gvar{}, map[*loopAct]string{}
	before := map[*loopAct]map[*Term]*Term{}
	p := NewPathRun(g.w)
	p.Inline = func(x *Exec, c *Call) bool {
		if m := g.ifaceMethod(c.Fn); m != nil && g.w.renderGroup(m) != 0 {
			return len(c.Args) > 0 && sameNode(x, c.Args[0], c.Fr)
		}
		return true
	}
	p.Call = func(x *Exec, c *Call) {
		g.pend = map[*Term][]*Term{}
		for _, a := range c.Args {
			if a != nil && a.op == OSlice {
				if es, ok := x.sliceElems(a); ok {
					g.pend[a] = es
				}
			}
		}
	}
	p.Loop0 = g.beforeLoop(before)
	p.Event = func(x *Exec, e *Event) {
		if e.Kind == "call" && len(g.pend) > 0 {
			g.snap[e] = g.pend
		}
		if e.Kind == "loop" {
			g.enterLoop(x, e, before)
		}
	}
	p.Back = func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) {
		if !final {
			g.back(x, a, next)
		}
	}
	p.Ret = func(x *Exec, args, res []*Term) { g.ret(x, args, res, final) }
	return p.Run(g.root)
}

// beforeLoop keeps what local cells hold when a loop is entered.
func (g *gram) beforeLoop(before map[*loopAct]map[*Term]*Term) func(x *Exec, fr *Frame, a *loopAct) {
	return func(x *Exec, fr *Frame, a *loopAct) {
		m := map[*Term]*Term{}
		simple := func(t types.Type) bool { return isInt(t) || isBoolType(t) || isText(t) }
		for c, v := range x.snapshotCells() {
			t := deref(c.typ)
			if addrRoot(c).op != OAlloc {
				continue
			}
			if simple(t) {
				m[c] = v
			} else if st := structOf(t); st != nil {
				for i := 0; i < st.NumFields(); i++ {
					if ft := st.Field(i).Type(); simple(ft) {
						f := x.ts.Mk(OFieldAddr, types.NewPointer(ft), "", i, c)
						m[f] = x.Load(f)
					}
				}
			}
		}
		before[a] = m
	}
}

func (g *gram) enterLoop(x *Exec, e *Event, before map[*loopAct]map[*Term]*Term) {
	a := e.Data.(*loopAct)
	lk := g.loopKey(e)
	var vs []gvar
	for ph, cur := range a.cur {
		vs = append(vs, gvar{key: fmt.Sprintf("%s|%p", lk, ph), entry: a.entry[ph], cur: cur, ph: ph})
	}
	for c, v := range before[a] {
		if cur := x.Load(c); cur != v {
			vs = append(vs, gvar{key: fmt.Sprintf("%s|%s", lk, cellKey(c)), entry: v, cur: cur, addr: c})
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].key < vs[j].key })
	// a loop entered on another path is another loop
	sig := []byte{'/'}
	for _, b := range x.Events {
		switch {
		case b.Kind == "loop":
			sig = append(sig, 'L')
		case b.Kind == "branch" && b.Data.(bool):
			sig = append(sig, 'T')
		case b.Kind == "branch":
			sig = append(sig, 'F')
		}
	}
	lk += string(sig)
	for i := range vs {
		vs[i].key = lk + vs[i].key[strings.LastIndexByte(vs[i].key, '|'):]
	}
	g.vars[a], g.keys[a] = vs, lk
}

func cellKey(c *Term) string {
	if c.op == OAlloc {
		return fmt.Sprintf("%p", c.val)
	}
	if len(c.args) == 0 {
		return c.String()
	}
	k := fmt.Sprintf("%d.%s.%d(", c.op, c.aux, c.num)
	for _, a := range c.args {
		k += cellKey(a) + ","
	}
	return k + ")"
}

func (g *gram) loopKey(e *Event) string {
	a := e.Data.(*loopAct)
	k := fmt.Sprintf("%p", a.header)
	for f := e.Fr; f != nil && f.parent != nil; f = f.parent {
		k += fmt.Sprintf("<%p", f.call)
	}
	return k
}

type gpass struct {
	a     *loopAct
	key   string
	later bool
	pol   byte
	had   []*Term // writers known when the loop was entered
}

// name identifies a writer at a loop, over all paths.
func (p *gpass) name(w *Term) string {
	k, n := cellKey(w), 0
	for _, v := range p.had {
		if v != w && addrRoot(v).num > addrRoot(w).num && cellKey(v) == k {
			n++
		}
	}
	return fmt.Sprintf("%s|w|%s#%d", p.key, k, n)
}

func inside(w *Term, a *loopAct) bool {
	r := addrRoot(w)
	return (r.op == OAlloc || r.op == OFresh) && r.num > a.fresh
}

func (p *gpass) head(key string, in ssa.Instruction) *gt {
	return &gt{kind: 'h', s: key, pol: p.pol, in: in}
}

// gctx replays one path.
type gctx struct {
	*tctx
	g      *gram
	txts   map[*Term]*gt
	lists  map[*Term]*gt // alternatives of the elements
	out    map[*Term]*gt
	passed []*gpass
	mode   map[*loopAct]bool
	base   map[*Term]*gt
}

func (g *gram) replay(x *Exec, mode map[*loopAct]bool, stop *loopAct) (c *gctx, at *gpass) {
	tc := &tctx{t: g.txt, x: x, feas: map[*Term][]int64{}, used: map[*Term]bool{}}
	c = &gctx{tctx: tc, g: g, txts: map[*Term]*gt{}, lists: map[*Term]*gt{}, out: map[*Term]*gt{}, mode: mode}
	for i, e := range x.Events {
		tc.e = e
		switch e.Kind {
		case "loop":
			a := e.Data.(*loopAct)
			p := &gpass{a: a, key: g.keys[a], later: mode[a], pol: '?'}
			for w := range c.out {
				p.had = append(p.had, w)
			}
			for _, b := range x.Events[i+1:] {
				if b.Kind == "branch" && b.Fr == e.Fr {
					p.pol = 'F'
					if b.Data.(bool) {
						p.pol = 'T'
					}
					break
				}
			}
			for _, v := range g.vars[a] {
				switch {
				case isText(v.cur.typ):
					c.txts[v.cur] = c.text(v.entry)
					if p.later {
						c.txts[v.cur] = p.head(v.key, e.Instr)
					}
				case isStringSlice(v.cur.typ):
					l := c.list(v.entry)
					if p.later {
						l = galt(l, p.head(v.key, e.Instr))
					}
					c.lists[v.cur] = l
				}
			}
			if p.later {
				for l, f := range c.lists {
					if l.op == OMake || l.op == OSlice {
						c.lists[l] = galt(f, p.head(p.name(l), e.Instr))
					}
				}
			}
			if a == stop {
				at = p
				c.out = map[*Term]*gt{}
				c.passed = nil
				continue
			}
			c.passed = append(c.passed, p)
			if p.later {
				for w, f := range c.out {
					c.out[w] = gcat(f, p.head(p.name(w), e.Instr))
				}
			}
		case "call":
			c.call(e)
		case "append":
			if e.Res != nil && isStringSlice(e.Res.typ) {
				f := c.list(e.Args[0])
				vs := e.Args[1:]
				if vs[0].op == OVar {
					vs = vs[0].args
				}
				for _, v := range vs {
					if isStringSlice(v.typ) {
						f = galt(f, c.list(v))
					} else {
						f = galt(f, c.text(v))
					}
				}
				c.lists[e.Res] = f
			}
		case "store":
			if a := e.Args[0]; a.op == OIndexAddr && isStringType(e.Args[1].typ) && !isVarargs(e.Instr) {
				c.lists[a.args[0]] = galt(c.list(a.args[0]), c.text(e.Args[1]))
			}
		}
	}
	return c, at
}

func galt(a, b *gt) *gt {
	var kids []*gt
	for _, t := range []*gt{a, b} {
		if t.kind == 'a' {
			kids = append(kids, t.kids...)
		} else {
			kids = append(kids, t)
		}
	}
	return &gt{kind: 'a', kids: kids}
}

var gnone = &gt{kind: 'a'}
var gempty = &gt{kind: 'c'}

func (c *gctx) cut(msg string) *gt {
	return &gt{kind: 'b', bad: &tbad{msg, c.e.Instr}, in: c.e.Instr}
}

func (c *gctx) piece(kind byte, s string) *gt { return &gt{kind: kind, s: s, in: c.e.Instr} }

func (c *gctx) konst(s string) *gt { return c.piece('k', s) }

func (c *gctx) written(w *Term) *gt {
	f, ok := c.out[w]
	if !ok {
		f = gempty
		for _, p := range c.passed {
			if p.later && !inside(w, p.a) {
				f = gcat(f, p.head(p.name(w), c.e.Instr))
			}
		}
		c.out[w] = f
	}
	return f
}

func (c *gctx) write(w *Term, f *gt) {
	w = asWriter(w)
	c.out[w] = gcat(c.written(w), f)
}

func (c *gctx) call(e *Event) {
	n := e.Name
	base := n[strings.LastIndexByte(n, '.')+1:]
	if len(e.Args) > 0 && c.g.w.isWriterType(asWriter(e.Args[0]).typ) && strings.HasPrefix(n, "(") {
		w := asWriter(e.Args[0])
		switch base {
		case "WriteString", "Write":
			c.write(w, c.text(e.Args[1]))
			return
		case "WriteByte", "WriteRune":
			c.write(w, c.char(e.Args[1]))
			return
		case "String", "Bytes":
			if e.Res != nil {
				c.txts[e.Res] = c.written(w)
			}
			return
		case "Len", "Cap", "Grow", "Available", "Flush":
			return
		case "Reset":
			c.out[w] = gempty
			return
		case "Truncate":
			a := e.Args[1]
			switch {
			case isZeroInt(a):
				c.out[w] = gempty
			case c.oneLess(a, w):
				c.write(w, c.piece('u', ""))
			default:
				c.write(w, c.cut("text that was written is taken away"))
			}
			return
		}
	}
	switch n {
	case "fmt.Fprintf":
		if len(e.Args) == 3 && e.Args[2].op == OVar {
			c.write(e.Args[0], c.format(e.Args[1], e.Args[2].args))
			return
		}
	case "fmt.Fprint":
		if len(e.Args) == 2 && e.Args[1].op == OVar && len(e.Args[1].args) == 1 {
			c.write(e.Args[0], c.verbf("%v", e.Args[1].args[0]))
			return
		}
	case "io.WriteString":
		c.write(e.Args[0], c.text(e.Args[1]))
		return
	case "strings.Join":
		if e.Res != nil {
			some := c.x.Entails(c.x.Lin(c.x.LenOf(e.Args[0])).plus(-1))
			c.txts[e.Res] = &gt{kind: 'j', kids: []*gt{c.list(e.Args[0]), c.text(e.Args[1])}, some: some, in: e.Instr}
		}
		return
	}
	g := byte(0)
	if m := c.g.method(e); m != nil {
		g = c.g.w.renderGroup(m)
	}
	for _, a := range e.Args {
		if w := asWriter(a); w != nil && c.g.w.isWriterType(w.typ) {
			if g == 'j' {
				c.write(w, c.node(e.Args[0]))
			} else {
				c.write(w, c.cut("the text is handed to "+lastName(n)+", which may write anything"))
			}
		}
		if a != nil && isByteSlice(a.typ) && g == 'j' && e.Res != nil {
			c.txts[e.Res] = gcat(c.text(a), c.node(e.Args[0]))
		}
	}
}

// oneLess: the length of what the writer holds, less one.
func (c *gctx) oneLess(a, w *Term) bool {
	l := c.x.Lin(a)
	for _, e := range c.x.Events {
		if e.Kind == "call" && e.Res != nil && strings.HasSuffix(e.Name, ").Len") && len(e.Args) == 1 && asWriter(e.Args[0]) == w {
			if c.x.eqLin(c.x.Lin(e.Res).plus(-1), l) {
				return true
			}
		}
	}
	return false
}

// node is the text another node renders itself to.
func (c *gctx) node(n *Term) *gt {
	if t := c.g.w.NamedType("JSONString"); t != nil {
		n = asWriter(n)
		if v, k := c.x.Eval(c.x.isType(n, types.NewPointer(t))); k && v || n.typ != nil && types.Identical(n.typ, types.NewPointer(t)) {
			return c.piece('S', "")
		}
	}
	return c.piece('V', "the text of a node")
}

func (c *gctx) list(l *Term) *gt {
	if f, ok := c.lists[l]; ok {
		return f
	}
	switch l.op {
	case ONil:
		return gnone
	case OMake:
		return c.newList(l)
	case OSlice:
		if es, ok := c.elems(l); ok {
			f := gnone
			for _, e := range es {
				f = galt(f, c.text(e))
			}
			return f
		}
		if isZeroInt(l.args[1]) && isZeroInt(l.args[2]) {
			return gnone
		}
		if l.args[0].op == OAlloc {
			return c.newList(l)
		}
		return c.list(l.args[0])
	case OVar:
		f := gnone
		for _, e := range l.args {
			f = galt(f, c.text(e))
		}
		return f
	}
	return c.cut("a list of texts of unknown origin is written")
}

func (c *gctx) newList(l *Term) *gt {
	f := gnone
	for _, p := range c.passed {
		if p.later && !inside(l, p.a) {
			f = galt(f, p.head(p.name(l), c.e.Instr))
		}
	}
	c.lists[l] = f
	return f
}

func (c *gctx) text(t *Term) *gt {
	if f, ok := c.txts[t]; ok {
		return f
	}
	if s, ok := t.StrVal(); ok {
		return c.konst(s)
	}
	if tab, key, has := c.g.w.tableRead(t); tab != nil && !has && isStringType(tab.elem) && c.g.w.charVar(key) != nil {
		return c.piece('x', "text made of a character")
	}
	chars := func(l []*Term) *gt {
		f := gempty
		for _, v := range l {
			f = gcat(f, c.char(v))
		}
		return f
	}
	switch t.op {
	case ONil, OZero:
		return gempty
	case OMake:
		if isZeroInt(t.args[0]) {
			return gempty
		}
	case OConv:
		if isText(t.args[0].typ) {
			return c.text(t.args[0])
		}
		if isIntType(t.args[0].typ) && isStringType(t.typ) {
			return c.char(t.args[0])
		}
	case OBin:
		if t.aux == "+" && isStringType(t.typ) {
			return gcat(c.text(t.args[0]), c.text(t.args[1]))
		}
	case OAppend:
		f := c.text(t.args[0])
		if t.args[1].op == OVar {
			return gcat(f, chars(t.args[1].args))
		}
		return gcat(f, c.text(t.args[1]))
	case OVar:
		return chars(t.args)
	case OSlice:
		if isZeroInt(t.args[1]) && isZeroInt(t.args[2]) {
			return gempty
		}
		if es, ok := c.elems(t); ok {
			return chars(es)
		}
		if isZeroInt(t.args[1]) {
			n := c.x.LenOf(t.args[0])
			if t.args[2] == n {
				return c.text(t.args[0])
			}
			if c.x.eqLin(c.x.Lin(n).plus(-1), c.x.Lin(t.args[2])) {
				return gcat(c.text(t.args[0]), c.piece('u', ""))
			}
		}
	case OParam:
		if isByteSlice(t.typ) {
			return gempty // what the caller has written so far
		}
	case OExtract:
		if t.num == 0 && t.args[0].op == OCall {
			return c.result(t.args[0])
		}
	case OCall:
		return c.result(t)
	}
	return c.raw(t)
}

func (c *gctx) raw(t *Term) *gt { return c.piece('x', "text of the tree ("+t.String()+")") }

func (c *gctx) result(t *Term) *gt {
	switch t.aux {
	case "strconv.Itoa":
		return c.piece('I', "")
	case "strconv.FormatInt", "strconv.FormatUint":
		return c.based(t.args[1])
	case "strconv.AppendInt", "strconv.AppendUint":
		return gcat(c.text(t.args[0]), c.based(t.args[2]))
	case "strconv.FormatFloat":
		return c.floatf(t.args[1])
	case "strconv.AppendFloat":
		return gcat(c.text(t.args[0]), c.floatf(t.args[2]))
	case "strconv.FormatBool":
		return c.piece('B', "a truth value")
	case "strconv.AppendBool":
		return gcat(c.text(t.args[0]), c.piece('B', "a truth value"))
	case "strconv.Quote", "strconv.QuoteToASCII":
		return c.piece('S', "")
	case "encoding/json.Marshal":
		if a := asWriter(t.args[0]); isText(a.typ) && isStringType(a.typ) {
			return c.piece('S', "")
		}
		return c.piece('V', "the text of a value")
	case "strconv.AppendQuote":
		return gcat(c.text(t.args[0]), c.piece('S', ""))
	case "strings.Repeat":
		return &gt{kind: 'r', kids: []*gt{c.text(t.args[0])}, in: c.e.Instr}
	case "strings.TrimSuffix", "strings.TrimRight":
		if s, ok := t.args[1].StrVal(); ok && s == "," {
			return gcat(c.text(t.args[0]), c.piece('u', ","))
		}
	case "strings.TrimSpace":
		return c.text(t.args[0])
	case "fmt.Sprintf":
		if len(t.args) == 2 && t.args[1].op == OVar {
			return c.format(t.args[0], t.args[1].args)
		}
	case "fmt.Sprint":
		if len(t.args) == 1 && t.args[0].op == OVar && len(t.args[0].args) == 1 {
			return c.verbf("%v", t.args[0].args[0])
		}
	}
	for _, e := range c.x.Events {
		if e.Kind == "call" && e.Res == t {
			if m := c.g.method(e); m != nil && c.g.w.renderGroup(m) == 'j' {
				return c.node(e.Args[0])
			}
		}
	}
	return c.raw(t)
}

func (c *gctx) based(b *Term) *gt {
	if n, ok := b.IntVal(); ok && n == 10 {
		return c.piece('I', "")
	}
	return c.piece('x', "a number in another base than ten")
}

func (c *gctx) floatf(b *Term) *gt {
	if n, ok := b.IntVal(); ok && strings.IndexByte("feEgG", byte(n)) >= 0 {
		return c.piece('N', "")
	}
	return c.piece('x', "a number in a notation JSON does not have")
}

func (c *gctx) char(t *Term) *gt {
	if n, ok := t.IntVal(); ok {
		return c.konst(string(rune(n)))
	}
	if v := c.g.w.charVar(t); v != nil {
		if k, ok := c.x.Domain(v); ok && k.Count() == 1 {
			for i := 0; i < 256; i++ {
				if k.Has(i) {
					if r, ok := c.g.w.evalChar(t, v, int64(i)); ok && r.Kind() == constant.Int {
						n, _ := constant.Int64Val(r)
						return c.konst(string(rune(n)))
					}
				}
			}
		}
	}
	return c.piece('x', "a character of the tree")
}

func (c *gctx) format(ft *Term, args []*Term) *gt {
	s, ok := ft.StrVal()
	if !ok {
		return c.cut("a format string that is not constant")
	}
	f := gempty
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			f = gcat(f, c.konst(s[i:i+1]))
			continue
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			return c.cut("a malformed format string")
		}
		if s[j] == '%' {
			f = gcat(f, c.konst("%"))
		} else {
			if n >= len(args) {
				return c.cut("a format string with too few arguments")
			}
			f = gcat(f, c.verbf(s[i:j+1], args[n]))
			n++
		}
		i = j
	}
	return f
}

func (c *gctx) verbf(spec string, a *Term) *gt {
	v := spec[len(spec)-1]
	a = asWriter(a)
	plain := len(spec) == 2
	switch {
	case a.typ == nil:
	case c.g.strMethod(c.x, a):
		if v == 's' || v == 'v' {
			return c.node(a)
		}
	case hasFormatMethod(a.typ):
	case isIntType(a.typ):
		if plain && (v == 'd' || v == 'v') {
			return c.piece('I', "")
		}
		if v == 'c' {
			return c.char(a)
		}
	case isFloatType(a.typ):
		if strings.IndexByte("feEgGv", v) >= 0 && strings.IndexAny(spec, "+ #") < 0 {
			return c.piece('N', "")
		}
	case isBoolType(a.typ):
		if plain && (v == 't' || v == 'v') {
			return c.piece('B', "a truth value")
		}
	case isText(a.typ):
		switch {
		case spec == "%s" || spec == "%v" && isStringType(a.typ):
			return c.text(a)
		case v == 'q':
			return c.piece('S', "")
		}
	}
	return c.raw(a)
}

// modes runs k for every way the loops passed may have been entered: for the
// first turn, or for a later one.
func (g *gram) modes(x *Exec, k func(mode map[*loopAct]bool)) {
	var acts []*loopAct
	for _, e := range x.Events {
		if e.Kind == "loop" {
			acts = append(acts, e.Data.(*loopAct))
		}
	}
	mode := map[*loopAct]bool{}
	var rec func(i int)
	rec = func(i int) {
		if i == len(acts) {
			if g.sameAnswers(x, mode) {
				k(mode)
			}
			return
		}
		for _, later := range []bool{false, true} {
			m := x.mark()
			mode[acts[i]] = later
			if g.holds(x, acts[i], later) {
				rec(i + 1)
			}
			x.undo(m)
		}
	}
	rec(0)
}

// sameAnswers: an iterator asked twice with no step between answers the same.
func (g *gram) sameAnswers(x *Exec, mode map[*loopAct]bool) bool {
	last := map[*Term]*Term{}
	for _, e := range x.Events {
		switch {
		case e.Kind == "loop" && mode[e.Data.(*loopAct)]:
			last = map[*Term]*Term{}
		case e.Kind == "call" && len(e.Args) > 0 && strings.Contains(e.Name, "SSortedMapIterator)."):
			it := iterBase(e.Args[0])
			switch {
			case strings.HasSuffix(e.Name, ").HasMore") && e.Res != nil:
				if p := last[it]; p != nil && p != e.Res {
					a, ka := x.Eval(p)
					b, kb := x.Eval(e.Res)
					if ka && kb && a != b {
						return false
					}
				}
				last[it] = e.Res
			case strings.HasSuffix(e.Name, ").Get"):
			default:
				delete(last, it)
			}
		}
	}
	return true
}

func (g *gram) holds(x *Exec, a *loopAct, later bool) bool {
	if later && g.facts[g.keys[a]] == nil {
		return false
	}
	for _, v := range g.vars[a] {
		num := isInt(v.cur.typ)
		if !num && !isBoolType(v.cur.typ) && !isStringType(v.cur.typ) {
			continue
		}
		to := v.entry
		if later {
			f := g.facts[v.key]
			if f == nil {
				return false
			}
			if num && f.up && !x.assumeGe(x.Lin(v.cur).sub(x.Lin(v.entry)).plus(-1)) {
				return false
			}
			if num {
				for _, b := range g.bounds(x, a) {
					if c, ok := f.bounds[b.String()]; ok && c >= 0 && !x.assumeGe(x.Lin(b).sub(x.Lin(v.cur)).plus(int64(-c))) {
						return false
					}
				}
			}
			if f.kdead {
				continue
			}
			to = f.k
		}
		if num {
			if !x.assumeEq(x.Lin(v.cur).sub(x.Lin(to))) {
				return false
			}
			continue
		}
		if !to.IsConst() && isStringType(to.typ) {
			continue
		}
		if isBoolType(to.typ) {
			b, ok := to.BoolVal()
			if ok && !x.Assume(v.cur, b) {
				return false
			}
			continue
		}
		if !x.Assume(x.Bin("==", v.cur, to, types.Typ[types.Bool]), true) {
			return false
		}
	}
	return true
}

func (g *gram) back(x *Exec, a *loopAct, next map[*ssa.Phi]*Term) {
	g.modes(x, func(mode map[*loopAct]bool) {
		h := g.keys[a]
		if g.facts[h] == nil {
			g.facts[h] = &gfact{}
			g.changed = true
		}
		to := map[*Term]*Term{}
		for _, v := range g.vars[a] {
			var n *Term
			if v.ph != nil {
				n = next[v.ph]
			} else {
				n = x.Load(v.addr)
			}
			if n == nil {
				continue
			}
			to[v.cur] = n
			g.learn(x, a, v, n)
		}
		end, at := g.replay(x, mode, a)
		if at == nil {
			return
		}
		tag := g.goesOn(x, a, to)
		add := func(key string, s gstate, l gset) {
			m := g.demand(key, s)
			for e := range l {
				if k := (gend{e, tag}); !m[k] {
					m[k] = true
					g.changed = true
				}
			}
		}
		turn := func(key string, f *gt, fromHead bool) {
			for _, s := range g.starts(key) {
				l := gset{s: true}
				if fromHead && mode[a] {
					l = gset{}
					for e := range g.demand(key, s) {
						if at.pol == '?' || e.tag == '?' || e.tag == at.pol {
							l[e.st] = true
						}
					}
				}
				add(key, s, g.each(f, l))
			}
		}
		touched := map[string]bool{}
		for w, f := range end.out {
			if !inside(w, a) {
				touched[at.name(w)] = true
				turn(at.name(w), f, true)
			}
		}
		for l, f := range end.lists {
			if (l.op == OMake || l.op == OSlice) && !inside(l, a) {
				touched[at.name(l)] = true
				turn(at.name(l), f, false)
			}
		}
		for _, v := range g.vars[a] {
			touched[v.key] = true
			if n := to[v.cur]; n != nil {
				switch {
				case isText(v.cur.typ):
					turn(v.key, end.text(n), false)
				case isStringSlice(v.cur.typ):
					turn(v.key, end.list(n), false)
				}
			}
		}
		var keys []string
		for k := range g.tab {
			if strings.HasPrefix(k, at.key+"|") && !touched[k] {
				keys = append(keys, k)
			}
		}
		for _, k := range keys {
			turn(k, gempty, true)
		}
	})
}

func (g *gram) starts(key string) []gstate {
	var l []gstate
	for s := range g.tab[key] {
		l = append(l, s)
	}
	return l
}

// learn keeps what holds of a variable after every turn.
func (g *gram) learn(x *Exec, a *loopAct, v gvar, n *Term) {
	if isBoolType(n.typ) {
		if b, ok := x.Eval(n); ok {
			n = x.ts.Bool(b)
		}
	}
	f := g.facts[v.key]
	if f == nil {
		f = &gfact{up: true, k: n, kdead: !n.IsConst(), bounds: map[string]int{}}
		g.facts[v.key] = f
		g.changed = true
	}
	if f.up && (!isInt(n.typ) || !x.Entails(x.Lin(n).sub(x.Lin(v.entry)).plus(-1))) {
		f.up = false
		g.changed = true
	}
	if isInt(n.typ) {
		for _, b := range g.bounds(x, a) {
			k := b.String()
			c, ok := f.bounds[k]
			if !ok {
				c = 1
			}
			for c >= 0 && !x.Entails(x.Lin(b).sub(x.Lin(n)).plus(int64(-c))) {
				c--
			}
			if was, ok := f.bounds[k]; !ok || was != c {
				f.bounds[k] = c
				g.changed = true
			}
		}
	}
	if !f.kdead && f.k.String() != n.String() {
		f.kdead = true
		g.changed = true
	}
}

// firstTest is the first condition tested in a turn.
func (g *gram) firstTest(x *Exec, a *loopAct) *Term {
	for i, e := range x.Events {
		if e.Kind == "loop" && e.Data.(*loopAct) == a {
			for _, b := range x.Events[i+1:] {
				if b.Kind == "branch" && b.Fr == e.Fr {
					return b.Args[0]
				}
			}
		}
	}
	return nil
}

// bounds are the fixed numbers the first test of a turn compares with.
func (g *gram) bounds(x *Exec, a *loopAct) []*Term {
	c := g.firstTest(x, a)
	for c != nil && c.op == OUn {
		c = c.args[0]
	}
	if c == nil || c.op != OBin || !isInt(c.args[0].typ) {
		return nil
	}
	var out []*Term
	for _, t := range c.args {
		if _, ok := g.shift(x, t, nil); ok && !t.IsConst() {
			out = append(out, t)
		}
	}
	return out
}

// goesOn tells how the first test of the next turn turns out.
func (g *gram) goesOn(x *Exec, a *loopAct, to map[*Term]*Term) byte {
	cond := g.firstTest(x, a)
	start := -1
	for i, e := range x.Events {
		if e.Kind == "loop" && e.Data.(*loopAct) == a {
			start = i
		}
	}
	if cond == nil {
		return '?'
	}
	answer := func(v bool) byte {
		if v {
			return 'T'
		}
		return 'F'
	}
	if c := cond; c.op == OCall && strings.HasSuffix(c.aux, "SSortedMapIterator).HasMore") {
		for i := len(x.Events) - 1; i > start; i-- {
			e := x.Events[i]
			if e.Kind != "call" || !strings.Contains(e.Name, "SSortedMapIterator).") || len(e.Args) == 0 || iterBase(e.Args[0]) != iterBase(c.args[0]) || strings.HasSuffix(e.Name, ").Get") {
				continue
			}
			if strings.HasSuffix(e.Name, ").HasMore") && e.Res != nil && e.Res != c {
				if v, k := x.Eval(e.Res); k {
					return answer(v)
				}
			}
			return '?'
		}
		return '?'
	}
	n, ok := g.shift(x, cond, to)
	if !ok {
		return '?'
	}
	if v, k := x.Eval(n); k {
		return answer(v)
	}
	return '?'
}

// fixed: a term made of parameters and constants.
func fixed(t *Term) bool {
	switch t.op {
	case OParam, OConst:
		return true
	case OSlice, OConv, OLen:
		for _, a := range t.args {
			if a != nil && !fixed(a) {
				return false
			}
		}
		return true
	}
	return false
}

// shift is a term with the loop variables replaced, if nothing else changes.
func (g *gram) shift(x *Exec, t *Term, to map[*Term]*Term) (*Term, bool) {
	if n, ok := to[t]; ok {
		return n, true
	}
	switch t.op {
	case OConst, OParam:
		return t, true
	case OLen:
		if t.args[0].op == OLoad && x.Load(t.args[0].args[0]) == t.args[0] {
			return t, true
		}
		if t.args[0].op == OMake || fixed(t.args[0]) {
			return t, true
		}
	case OLoad:
		if x.Load(t.args[0]) == t {
			return t, true
		}
	case OBin:
		a, ok := g.shift(x, t.args[0], to)
		if !ok {
			return nil, false
		}
		b, ok := g.shift(x, t.args[1], to)
		if !ok {
			return nil, false
		}
		return x.Bin(t.aux, a, b, t.typ), true
	case OUn:
		if t.aux == "!" {
			if a, ok := g.shift(x, t.args[0], to); ok {
				return x.Not(a), true
			}
		}
	}
	return nil, false
}

func (g *gram) ret(x *Exec, args, res []*Term, final bool) {
	g.modes(x, func(mode map[*loopAct]bool) {
		end, _ := g.replay(x, mode, nil)
		end.e = &Event{Instr: retInstr(g.root)}
		if n := len(x.Events); n > 0 && x.Events[n-1].Instr != nil {
			end.e = x.Events[n-1]
		}
		judge := func(f *gt) {
			for s := range g.apply(f, gstart) {
				if !final {
					continue
				}
				switch {
				case s.sub == gBad:
					g.report(s.bad.inst, s.bad.msg)
				case s.stack != "" || !s.complete():
					g.report(retInstr(g.root), "the text may end where the reader expects "+s.expects())
				default:
					g.judged++
				}
			}
		}
		for i, a := range args {
			if a != nil && g.w.isWriterType(g.root.Params[i].Type()) {
				judge(end.written(a))
			}
		}
		for i, r := range res {
			if isText(g.root.Signature.Results().At(i).Type()) {
				judge(end.text(r))
			}
		}
	})
}
