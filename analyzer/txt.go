package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Text abstraction: a piece of text is a function on the states of a JSON
// reader (outside quotes, inside quotes, after a backslash). Constant text and
// numbers have a known function; text of the tree is accepted only byte by byte
// inside quotes, and only when the byte is harmless there.
const (
	tOut = iota
	tIn
	tEsc
	tBad
)

type tbad struct {
	msg  string
	inst ssa.Instruction
}

type tfun struct {
	s   [3]uint8
	why [3]*tbad
}

func tident() tfun { return tfun{s: [3]uint8{tOut, tIn, tEsc}} }
func tfail(msg string, in ssa.Instruction) tfun {
	b := &tbad{msg, in}
	return tfun{s: [3]uint8{tBad, tBad, tBad}, why: [3]*tbad{b, b, b}}
}

// then is f followed by g.
func (f tfun) then(g tfun) tfun {
	var r tfun
	for i := range f.s {
		if f.s[i] == tBad {
			r.s[i], r.why[i] = tBad, f.why[i]
			continue
		}
		r.s[i], r.why[i] = g.s[f.s[i]], g.why[f.s[i]]
	}
	return r
}

// where keeps only the states on which f changes nothing.
func (f tfun) steady(in ssa.Instruction) tfun {
	r := f
	for i := range f.s {
		if f.s[i] != tBad && int(f.s[i]) != i {
			r.s[i], r.why[i] = tBad, &tbad{"repeated text does not end where it began (a quote is opened or closed)", in}
		}
	}
	return r
}

func meet(f, g tfun, in ssa.Instruction) tfun {
	r := f
	for i := range f.s {
		switch {
		case f.s[i] == tBad:
		case g.s[i] == tBad:
			r.s[i], r.why[i] = tBad, g.why[i]
		case f.s[i] != g.s[i]:
			r.s[i], r.why[i] = tBad, &tbad{"the text may or may not leave a quote open", in}
		}
	}
	return r
}

// txt runs one rendering function.
type txt struct {
	w     *World
	root  *ssa.Function
	query bool // percent-encoding instead of quoting
	roots map[*ssa.Function]bool

	dead    map[string]*tbad
	changed bool
	snap    map[*Event]map[*Term][]*Term
	pend    map[*Term][]*Term
	bad     func(b *tbad)
	ok      func(rule string)

	// onQuoted observes content escaped by a library routine.
	onQuoted func(name string, in ssa.Instruction)
	// onBack observes every turn of a loop with the pieces written in it.
	onBack func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term)
	onRet  func(x *Exec, args, res []*Term)
	paths  int
}

func (w *World) isWriterType(t types.Type) bool {
	if t == nil {
		return false
	}
	switch types.TypeString(types.Unalias(deref(t)), nil) {
	case "strings.Builder", "bytes.Buffer", "bufio.Writer", "io.Writer", "io.StringWriter", "io.ByteWriter":
		return true
	}
	return false
}

func isByteSlice(t types.Type) bool { return t != nil && !isStringType(t) && strBytes(t, t) }

// renderGroup classifies a method signature: 'j' renders JSON text, 'q' a
// query string, 0 neither.
func (w *World) renderGroup(m *types.Func) byte {
	sig := m.Type().(*types.Signature)
	if sig.Variadic() {
		return 0
	}
	writer, str, text := false, false, false
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		switch {
		case w.isWriterType(t):
			writer = true
		case isByteSlice(t):
			text = true
		case isStringType(t):
			str = true
		case isIntType(t), isBoolType(t):
		default:
			return 0
		}
	}
	res := sig.Results()
	switch {
	case writer && res.Len() == 0:
	case writer && res.Len() == 1 && isErrorType(res.At(0).Type()):
	case text && res.Len() == 1 && isByteSlice(res.At(0).Type()):
	case !writer && !text && res.Len() == 1 && isStringType(res.At(0).Type()):
	default:
		return 0
	}
	switch m.Name() {
	case "QueryString":
		return 'q'
	case "YAMLString":
		return 0
	}
	if str {
		return 'q'
	}
	return 'j'
}

func newTxt(w *World, root *ssa.Function, query bool) *txt {
	return &txt{w: w, root: root, query: query, dead: map[string]*tbad{}}
}

// renders: the callee is a rendering method, of which group.
func (t *txt) renders(name string, m *types.Func) byte {
	if m != nil {
		return t.w.renderGroup(m)
	}
	return 0
}

func (t *txt) ifaceMethod(f *ssa.Function) *types.Func {
	if f == nil || f.Signature.Recv() == nil || !t.w.isNodePtr(f.Signature.Recv().Type()) {
		return nil
	}
	it := t.w.NodeIface()
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == f.Name() {
			return it.Method(i)
		}
	}
	return nil
}

// run interprets the root until the invariants of its loops are stable.
func (t *txt) run() bool {
	for round := 0; round < 12; round++ {
		t.changed = false
		t.snap = map[*Event]map[*Term][]*Term{}
		p := NewPathRun(t.w)
		p.Inline = func(x *Exec, c *Call) bool {
			if m := t.ifaceMethod(c.Fn); m != nil && t.w.renderGroup(m) != 0 {
				return len(c.Args) > 0 && sameNode(x, c.Args[0], c.Fr)
			}
			return true
		}
		p.Call = func(x *Exec, c *Call) {
			t.pend = map[*Term][]*Term{}
			for _, a := range c.Args {
				if a != nil && a.op == OSlice {
					if es, ok := x.sliceElems(a); ok {
						t.pend[a] = es
					}
				}
			}
		}
		p.Event = func(x *Exec, e *Event) {
			if e.Kind == "call" && len(t.pend) > 0 {
				t.snap[e] = t.pend
			}
		}
		p.Back = func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) {
			t.back(x, fr, a, next, nil)
		}
		if !p.Run(t.root) {
			return false
		}
		if !t.changed {
			break
		}
	}
	p := NewPathRun(t.w)
	p.Inline = func(x *Exec, c *Call) bool {
		if m := t.ifaceMethod(c.Fn); m != nil && t.w.renderGroup(m) != 0 {
			return len(c.Args) > 0 && sameNode(x, c.Args[0], c.Fr)
		}
		return true
	}
	t.snap = map[*Event]map[*Term][]*Term{}
	p.Call = func(x *Exec, c *Call) {
		t.pend = map[*Term][]*Term{}
		for _, a := range c.Args {
			if a != nil && a.op == OSlice {
				if es, ok := x.sliceElems(a); ok {
					t.pend[a] = es
				}
			}
		}
	}
	p.Event = func(x *Exec, e *Event) {
		if e.Kind == "call" && len(t.pend) > 0 {
			t.snap[e] = t.pend
		}
	}
	p.Back = func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) {
		if t.onBack != nil {
			t.onBack(x, fr, a, next)
		}
	}
	p.Ret = func(x *Exec, args, res []*Term) {
		t.paths++
		t.ret(x, args, res)
		if t.onRet != nil {
			t.onRet(x, args, res)
		}
	}
	return p.Run(t.root)
}

// tctx is the state of a replay of one path.
type tctx struct {
	t      *txt
	x      *Exec
	e      *Event
	vals   map[*Term]tfun
	lists  map[*Term]tfun
	wr     map[*Term]tfun
	passed []*ssa.BasicBlock
	asg    map[*Term]int64
	used   map[*Term]bool // content bytes written
	feas   map[*Term][]int64
	seen   []tpiece
}

// tpiece is one write.
type tpiece struct {
	to   *Term
	what []*Term
	e    *Event
}

func writerKey(t *Term) string {
	if t.op == OAlloc || t.op == OMake {
		return fmt.Sprintf("%p", t.val)
	}
	return t.String()
}

func (c *tctx) killed(h *ssa.BasicBlock, key string, f tfun) tfun {
	for i := range f.s {
		if f.s[i] == tBad {
			continue
		}
		if b := c.t.dead[fmt.Sprintf("%p|%s|%d", h, key, i)]; b != nil {
			f.s[i], f.why[i] = tBad, b
		}
	}
	return f
}

func (c *tctx) writer(w *Term) tfun {
	f, ok := c.wr[w]
	if !ok {
		f = tident()
		for _, h := range c.passed {
			f = c.killed(h, writerKey(w), f)
		}
		c.wr[w] = f
	}
	return f
}

func (c *tctx) list(l *Term) tfun {
	f, ok := c.lists[l]
	if !ok {
		f = tident()
		for _, h := range c.passed {
			f = c.killed(h, writerKey(l), f)
		}
		c.lists[l] = f
	}
	return f
}

func isText(t types.Type) bool { return isStringType(t) || isByteSlice(t) }

// replay follows the events of the current path.
func (t *txt) replay(x *Exec, asg map[*Term]int64, stop *ssa.BasicBlock) (end, at *tctx) {
	c := &tctx{t: t, x: x, vals: map[*Term]tfun{}, lists: map[*Term]tfun{}, wr: map[*Term]tfun{}, asg: asg, used: map[*Term]bool{}, feas: map[*Term][]int64{}}
	for _, e := range x.Events {
		c.e = e
		switch e.Kind {
		case "loop":
			a := e.Data.(*loopAct)
			c.passed = append(c.passed, a.header)
			for w, f := range c.wr {
				c.wr[w] = c.killed(a.header, writerKey(w), f)
			}
			for w, f := range c.lists {
				c.lists[w] = c.killed(a.header, writerKey(w), f)
			}
			for ph, cur := range a.cur {
				switch {
				case isText(ph.Type()):
					c.vals[cur] = c.killed(a.header, fmt.Sprintf("%p", ph), c.fn(a.entry[ph]))
				case isStringSlice(ph.Type()):
					c.lists[cur] = c.killed(a.header, fmt.Sprintf("%p", ph), c.listOf(a.entry[ph]))
				}
			}
			if a.header == stop {
				at = c.clone()
				c.used = map[*Term]bool{}
				c.seen = nil
			}
		case "call":
			c.call(e)
		case "append":
			if isStringSlice(e.Res.typ) {
				f := c.listOf(e.Args[0])
				vs := e.Args[1:]
				if vs[0].op == OVar {
					vs = vs[0].args
				}
				for _, v := range vs {
					if isStringSlice(v.typ) {
						f = meet(f, c.listOf(v), e.Instr)
						continue
					}
					f = meet(f, c.fn(v).steady(e.Instr), e.Instr)
				}
				c.lists[e.Res] = f
			}
		case "store":
			if a := e.Args[0]; a.op == OIndexAddr && isStringType(e.Args[1].typ) && !isVarargs(e.Instr) {
				c.lists[a.args[0]] = meet(c.list(a.args[0]), c.fn(e.Args[1]).steady(e.Instr), e.Instr)
			}
		}
	}
	return c, at
}

func (c *tctx) clone() *tctx {
	n := *c
	n.vals, n.lists, n.wr = map[*Term]tfun{}, map[*Term]tfun{}, map[*Term]tfun{}
	for k, v := range c.vals {
		n.vals[k] = v
	}
	for k, v := range c.lists {
		n.lists[k] = v
	}
	for k, v := range c.wr {
		n.wr[k] = v
	}
	n.passed = append([]*ssa.BasicBlock{}, c.passed...)
	return &n
}

// asWriter strips the conversions around a writer.
func asWriter(t *Term) *Term {
	for t != nil && t.op == OIface {
		t = t.args[0]
	}
	return t
}

func (c *tctx) put(w *Term, f tfun, what ...*Term) {
	w = asWriter(w)
	c.wr[w] = c.writer(w).then(f)
	c.seen = append(c.seen, tpiece{w, what, c.e})
}

// call gives an opaque call its meaning for text.
func (c *tctx) call(e *Event) {
	n := e.Name
	base := n[strings.LastIndexByte(n, '.')+1:]
	if len(e.Args) > 0 && c.t.w.isWriterType(asWriter(e.Args[0]).typ) && strings.HasPrefix(n, "(") {
		w := e.Args[0]
		switch base {
		case "WriteString", "Write":
			c.put(w, c.fn(e.Args[1]), e.Args[1])
			return
		case "WriteByte", "WriteRune":
			c.put(w, c.char(e.Args[1]), e.Args[1])
			return
		case "String", "Bytes":
			if e.Res != nil {
				c.vals[e.Res] = c.writer(asWriter(w))
			}
			return
		case "Len", "Cap", "Grow", "Available", "Flush":
			return
		case "Reset":
			c.wr[asWriter(w)] = tident()
			return
		}
	}
	switch n {
	case "fmt.Fprintf":
		if len(e.Args) == 3 && e.Args[2].op == OVar {
			c.put(e.Args[0], c.format(e.Args[1], e.Args[2].args), append([]*Term{e.Args[1]}, e.Args[2].args...)...)
			return
		}
	case "fmt.Fprint":
		if len(e.Args) == 2 && e.Args[1].op == OVar && len(e.Args[1].args) == 1 {
			c.put(e.Args[0], c.verb('v', e.Args[1].args[0]), e.Args[1].args...)
			return
		}
	case "io.WriteString":
		c.put(e.Args[0], c.fn(e.Args[1]), e.Args[1])
		return
	case "strings.Join":
		if e.Res != nil {
			c.vals[e.Res] = meet(c.listOf(e.Args[0]).steady(e.Instr), c.fn(e.Args[1]).steady(e.Instr), e.Instr)
		}
		return
	}
	g := byte(0)
	if m := c.t.method(e); m != nil {
		g = c.t.w.renderGroup(m)
	}
	for _, a := range e.Args {
		if w := asWriter(a); w != nil && c.t.w.isWriterType(w.typ) {
			if g == 'j' && !c.t.query || g == 'q' && c.t.query {
				c.put(w, c.node(), e.Args[0])
			} else {
				c.put(w, tfail("the text is handed to "+lastName(n)+", which may write anything", e.Instr), a)
			}
		}
		if a != nil && isByteSlice(a.typ) && g == 'j' && e.Res != nil {
			c.vals[e.Res] = c.fn(a).then(c.node())
		}
	}
}

// method is the node interface method an opaque call invokes.
func (t *txt) method(e *Event) *types.Func {
	if ci, ok := e.Instr.(ssa.CallInstruction); ok {
		if cc := ci.Common(); cc.IsInvoke() {
			if t.w.isNodeIface(cc.Value.Type()) {
				return cc.Method
			}
			return nil
		}
	}
	return t.ifaceMethod(e.Fn)
}

// node is the text another node renders itself to.
func (c *tctx) node() tfun {
	if c.t.query {
		return tident()
	}
	r := tfail("a rendered node is placed inside quotes without escaping", c.e.Instr)
	r.s[tOut] = tOut
	return r
}

func (c *tctx) safe() tfun {
	r := tident()
	if !c.t.query {
		r.s[tEsc], r.why[tEsc] = tBad, &tbad{"a number follows a backslash", c.e.Instr}
	}
	return r
}

func (c *tctx) listOf(l *Term) tfun {
	if f, ok := c.lists[l]; ok {
		return f
	}
	switch l.op {
	case ONil:
		return tident()
	case OMake:
		return c.list(l)
	case OSlice:
		if es, ok := c.elems(l); ok {
			f := tident()
			for _, e := range es {
				f = meet(f, c.fn(e).steady(c.e.Instr), c.e.Instr)
			}
			return f
		}
		if isZeroInt(l.args[1]) && isZeroInt(l.args[2]) {
			return tident()
		}
		if l.args[0].op == OAlloc { // make with constant size
			return c.list(l)
		}
		return c.listOf(l.args[0])
	}
	return tfail("a list of texts of unknown origin", c.e.Instr)
}

// elems are the elements of a slice literal at the time of the event.
func (c *tctx) elems(l *Term) ([]*Term, bool) {
	if l.op == OVar {
		return l.args, true
	}
	if m := c.t.snap[c.e]; m != nil {
		if es, ok := m[l]; ok {
			return es, true
		}
	}
	return nil, false
}

// fn is the function of a text.
func (c *tctx) fn(t *Term) tfun {
	if f, ok := c.vals[t]; ok {
		return f
	}
	if s, ok := t.StrVal(); ok {
		return c.text(s)
	}
	if f, ok := c.tableText(t); ok {
		return f
	}
	switch t.op {
	case ONil:
		return tident()
	case OMake:
		if isZeroInt(t.args[0]) {
			return tident()
		}
	case OConv:
		if isText(t.args[0].typ) {
			return c.fn(t.args[0])
		}
		if isIntType(t.args[0].typ) && isStringType(t.typ) {
			return c.char(t.args[0])
		}
	case OBin:
		if t.aux == "+" && isStringType(t.typ) {
			return c.fn(t.args[0]).then(c.fn(t.args[1]))
		}
	case OAppend:
		f := c.fn(t.args[0])
		if t.args[1].op == OVar {
			for _, v := range t.args[1].args {
				f = f.then(c.char(v))
			}
			return f
		}
		return f.then(c.fn(t.args[1]))
	case OVar:
		f := tident()
		for _, v := range t.args {
			f = f.then(c.char(v))
		}
		return f
	case OSlice:
		if isZeroInt(t.args[1]) && isZeroInt(t.args[2]) {
			return tident()
		}
		if es, ok := c.elems(t); ok {
			f := tident()
			for _, v := range es {
				f = f.then(c.char(v))
			}
			return f
		}
		if isZeroInt(t.args[1]) && t.args[2] == c.x.LenOf(t.args[0]) {
			return c.fn(t.args[0])
		}
	case OParam:
		if isByteSlice(t.typ) {
			return tident() // what the caller has written so far
		}
	case OExtract:
		if t.num == 0 && t.args[0].op == OCall {
			return c.result(t.args[0])
		}
	case OCall:
		return c.result(t)
	}
	return c.raw(t)
}

// tableText is text read from a constant table by a byte of the tree.
func (c *tctx) tableText(t *Term) (tfun, bool) {
	tab, key, has := c.t.w.tableRead(t)
	if tab == nil || has || !isStringType(tab.elem) {
		return tfun{}, false
	}
	v := c.t.w.charVar(key)
	if v == nil {
		return tfun{}, false
	}
	c.used[v] = true
	vals := c.feasible(v)
	if b, ok := c.asg[v]; ok {
		vals = []int64{b}
	}
	f := tident()
	for i, b := range vals {
		k, ok := c.t.w.evalChar(t, v, b)
		if !ok || k.Kind() != constant.String {
			return tfun{}, false
		}
		g := c.text(constant.StringVal(k))
		if i == 0 {
			f = g
		} else {
			f = meet(f, g, c.e.Instr)
		}
	}
	return f, true
}

// raw is text that may contain anything.
func (c *tctx) raw(t *Term) tfun {
	what := "text of the tree"
	if c.t.query {
		return tfail(what+" ("+t.String()+") is emitted without percent-encoding", c.e.Instr)
	}
	return tfail(what+" ("+t.String()+") is emitted without escaping", c.e.Instr)
}

var numFormats = map[string]bool{"strconv.Itoa": true, "strconv.FormatInt": true, "strconv.FormatUint": true, "strconv.FormatBool": true, "strconv.FormatFloat": true}
var numAppends = map[string]bool{"strconv.AppendInt": true, "strconv.AppendUint": true, "strconv.AppendBool": true, "strconv.AppendFloat": true}

// quoted is text that a library call encloses in quotes and escapes.
func (c *tctx) quoted(name string) tfun {
	if c.t.onQuoted != nil {
		c.t.onQuoted(name, c.e.Instr)
	}
	r := c.node()
	if c.t.query {
		return tfail("quoted text is not percent-encoded", c.e.Instr)
	}
	return r
}

func (c *tctx) result(t *Term) tfun {
	switch {
	case numFormats[t.aux]:
		return c.safe()
	case numAppends[t.aux]:
		return c.fn(t.args[0]).then(c.safe())
	case t.aux == "strconv.Quote" || t.aux == "strconv.QuoteToASCII" || t.aux == "encoding/json.Marshal":
		return c.quoted(t.aux)
	case t.aux == "strconv.AppendQuote":
		return c.fn(t.args[0]).then(c.quoted(t.aux))
	case t.aux == "strings.Repeat":
		return c.fn(t.args[0]).steady(c.e.Instr)
	case t.aux == "fmt.Sprintf":
		if len(t.args) == 2 && t.args[1].op == OVar {
			return c.format(t.args[0], t.args[1].args)
		}
	case t.aux == "fmt.Sprint":
		if len(t.args) == 1 && t.args[0].op == OVar && len(t.args[0].args) == 1 {
			return c.verb('v', t.args[0].args[0])
		}
	case t.aux == "net/url.QueryEscape" && c.t.query:
		return c.safe()
	case t.aux == "(net/url.Values).Encode" && c.t.query:
		return c.safe()
	}
	// a node asked to render itself
	for _, e := range c.x.Events {
		if e.Kind == "call" && e.Res == t {
			if m := c.t.method(e); m != nil {
				g := c.t.w.renderGroup(m)
				if g == 'j' && !c.t.query || g == 'q' && c.t.query {
					return c.node()
				}
			}
		}
	}
	return c.raw(t)
}

// text is constant text.
func (c *tctx) text(s string) tfun {
	f := tident()
	for i := 0; i < len(s); i++ {
		f = f.then(c.konst(int64(s[i])))
	}
	return f
}

func (c *tctx) konst(b int64) tfun {
	if c.t.query {
		return tident()
	}
	r := tident()
	fail := func(i int, msg string) { r.s[i], r.why[i] = tBad, &tbad{msg, c.e.Instr} }
	r.s[tEsc] = tIn
	switch {
	case b == '"':
		r.s[tOut], r.s[tIn] = tIn, tOut
	case b == '\\':
		r.s[tIn] = tEsc
	case b < 0x20:
		fail(tIn, "a control character is written inside quotes")
		fail(tEsc, "a control character is written after a backslash")
	}
	return r
}

// content is one byte computed from the tree.
func (c *tctx) content(b int64, t *Term) tfun {
	if c.t.query {
		return c.raw(t)
	}
	r := tident()
	fail := func(i int, msg string) { r.s[i], r.why[i] = tBad, &tbad{msg, c.e.Instr} }
	fail(tOut, "text of the tree is emitted outside quotes")
	r.s[tEsc] = tIn
	if b == '"' || b == '\\' || b >= 0 && b < 0x20 {
		fail(tIn, fmt.Sprintf("the byte %#02x of a key or string is emitted without escaping", b))
	}
	if b < 0x20 {
		fail(tEsc, fmt.Sprintf("the byte %#02x of a key or string is emitted raw", b))
	}
	return r
}

// charVar is the single byte or rune variable of a character term.
func (w *World) charVar(t *Term) *Term {
	var v *Term
	ok := true
	var walk func(t *Term)
	walk = func(t *Term) {
		if tab, key, _ := w.tableRead(t); tab != nil && w.charVar(key) != nil {
			walk(key)
			return
		}
		switch t.op {
		case OConst:
			return
		case OCall:
			if t.aux == "strings.IndexByte" || t.aux == "strings.IndexRune" {
				if _, ok := t.args[0].StrVal(); ok {
					walk(t.args[1])
					return
				}
			}
		case OBin, OUn:
			for _, a := range t.args {
				walk(a)
			}
			return
		case OConv:
			if isIntType(t.typ) && isIntType(t.args[0].typ) {
				walk(t.args[0])
				return
			}
		case OIndex:
			if t.args[0].op == OConst && w.charVar(t.args[1]) != nil {
				walk(t.args[1])
				return
			}
		}
		b, basic := t.typ, false
		if b != nil {
			if k, okk := b.Underlying().(*types.Basic); okk {
				basic = k.Kind() == types.Uint8 || k.Kind() == types.Int32
			}
		}
		if !basic || v != nil && v != t {
			ok = false
		}
		v = t
	}
	walk(t)
	if !ok {
		return nil
	}
	return v
}

var runeSamples = func() []int64 {
	var out []int64
	for i := int64(0); i < 0x300; i++ {
		out = append(out, i)
	}
	return append(out, 0x2027, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff)
}()

// feasible are the values a character may have on this path.
func (c *tctx) feasible(v *Term) []int64 {
	if f, ok := c.feas[v]; ok {
		return f
	}
	var cand []int64
	if d, ok := c.x.Domain(v); ok {
		for i := 0; i < 256; i++ {
			if d.Has(i) {
				cand = append(cand, int64(i))
			}
		}
	} else {
		cand = runeSamples
	}
	if s, ok := indexedConst(v); ok {
		cand = nil
		for b := 0; b < 256; b++ {
			if strings.IndexByte(s, byte(b)) >= 0 {
				cand = append(cand, int64(b))
			}
		}
	}
	var out []int64
	for _, b := range cand {
		ok := true
		for _, e := range c.x.Events {
			if e.Kind == "branch" && e.Args[0].contains(v) {
				if r, k := c.t.w.evalChar(e.Args[0], v, b); k && r.Kind() == constant.Bool && constant.BoolVal(r) != e.Data.(bool) {
					ok = false
					break
				}
			}
		}
		if ok {
			out = append(out, b)
		}
	}
	c.feas[v] = out
	return out
}

func indexedConst(v *Term) (string, bool) {
	if v.op == OIndex {
		return v.args[0].StrVal()
	}
	return "", false
}

// evalChar is evalAt with the character functions of the library.
func (w *World) evalChar(t, v *Term, b int64) (constant.Value, bool) {
	if t == v {
		return constant.MakeInt64(b), true
	}
	if tab, key, has := w.tableRead(t); tab != nil {
		k, ok := w.evalChar(key, v, b)
		if !ok {
			return nil, false
		}
		r, in := tab.at(k)
		if has {
			return constant.MakeBool(in), true
		}
		return r, r != nil
	}
	switch t.op {
	case OCall:
		if len(t.args) == 2 {
			s, ok := t.args[0].StrVal()
			if !ok {
				return nil, false
			}
			k, ok := w.evalChar(t.args[1], v, b)
			if !ok {
				return nil, false
			}
			n, _ := constant.Int64Val(k)
			switch t.aux {
			case "strings.IndexByte":
				return constant.MakeInt64(int64(strings.IndexByte(s, byte(n)))), true
			case "strings.IndexRune":
				return constant.MakeInt64(int64(strings.IndexRune(s, rune(n)))), true
			case "strings.ContainsRune":
				return constant.MakeBool(strings.ContainsRune(s, rune(n))), true
			}
		}
	case OBin:
		x, ok := w.evalChar(t.args[0], v, b)
		if !ok {
			return nil, false
		}
		y, ok := w.evalChar(t.args[1], v, b)
		if !ok {
			return nil, false
		}
		return foldBin(t.aux, x, y, t.typ)
	case OUn:
		if t.aux == "!" {
			x, ok := w.evalChar(t.args[0], v, b)
			if !ok || x.Kind() != constant.Bool {
				return nil, false
			}
			return constant.MakeBool(!constant.BoolVal(x)), true
		}
	case OLen:
		if tab := w.tableTerm(t.args[0]); tab != nil && !tab.isMap() {
			return constant.MakeInt64(tab.n), true
		}
		if x, ok := w.evalChar(t.args[0], v, b); ok && x.Kind() == constant.String {
			return constant.MakeInt64(int64(len(constant.StringVal(x)))), true
		}
	case OConv:
		x, ok := w.evalChar(t.args[0], v, b)
		if !ok || x.Kind() == constant.Int && isStringType(t.typ) {
			return nil, false
		}
		return truncConst(x, t.typ), true
	case OIndex:
		x, ok := w.evalChar(t.args[0], v, b)
		if !ok || x.Kind() != constant.String {
			break
		}
		i, ok := w.evalChar(t.args[1], v, b)
		if !ok {
			return nil, false
		}
		n, _ := constant.Int64Val(i)
		if s := constant.StringVal(x); n >= 0 && n < int64(len(s)) {
			return constant.MakeInt64(int64(s[n])), true
		}
	}
	return evalAt(t, v, b)
}

// char is one character.
func (c *tctx) char(t *Term) tfun {
	if n, ok := t.IntVal(); ok {
		return c.konst(n)
	}
	v := c.t.w.charVar(t)
	if v == nil {
		return c.content(-1, t).then(tfail("a character ("+t.String()+") that cannot be determined is emitted", c.e.Instr))
	}
	c.used[v] = true
	vals := c.feasible(v)
	if b, ok := c.asg[v]; ok {
		vals = []int64{b}
	}
	var f tfun
	for i, b := range vals {
		k, ok := c.t.w.evalChar(t, v, b)
		if !ok || k.Kind() != constant.Int {
			return tfail("a character ("+t.String()+") that cannot be determined is emitted", c.e.Instr)
		}
		n, _ := constant.Int64Val(k)
		g := c.content(n, t)
		if i == 0 {
			f = g
		} else {
			f = meet(f, g, c.e.Instr)
		}
	}
	if len(vals) == 0 {
		return tident()
	}
	return f
}

// format is the text of a format string with arguments.
func (c *tctx) format(ft *Term, args []*Term) tfun {
	s, ok := ft.StrVal()
	if !ok {
		return tfail("a format string that is not constant", c.e.Instr)
	}
	f := tident()
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			f = f.then(c.konst(int64(s[i])))
			continue
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			return tfail("a malformed format string", c.e.Instr)
		}
		if s[j] == '%' {
			f = f.then(c.konst('%'))
		} else {
			if n >= len(args) {
				return tfail("a format string with too few arguments", c.e.Instr)
			}
			f = f.then(c.verbf(s[i:j+1], args[n]))
			n++
		}
		i = j
	}
	return f
}

func (c *tctx) verb(v byte, a *Term) tfun { return c.verbf("%"+string(v), a) }

func (c *tctx) verbf(spec string, a *Term) tfun {
	v := spec[len(spec)-1]
	for a.op == OIface {
		a = a.args[0]
	}
	switch {
	case a.typ == nil:
	case c.t.strMethod(c.x, a):
		return c.node()
	case hasFormatMethod(a.typ):
		// prints through a method
	case isIntType(a.typ):
		switch v {
		case 'd', 'v', 'b', 'o':
			return c.safe()
		case 'x', 'X':
			return c.hex(spec, a)
		case 'c':
			return c.char(a)
		}
	case isFloatType(a.typ):
		if strings.IndexByte("feEgGv", v) >= 0 {
			return c.safe()
		}
	case isBoolType(a.typ):
		if v == 't' || v == 'v' {
			return c.safe()
		}
	case isText(a.typ):
		switch {
		case spec == "%s" || spec == "%v" && isStringType(a.typ):
			return c.fn(a)
		case v == 'q':
			return c.quoted("fmt.%q")
		case v == 'x' || v == 'X':
			return c.safe()
		}
	}
	return c.raw(a)
}

// hex is a number in hexadecimal; its digits are harmless.
func (c *tctx) hex(spec string, a *Term) tfun { return c.safe() }

func hasFormatMethod(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "Error", "String", "Format", "GoString":
			return true
		}
	}
	return false
}

// strMethod: printing the value calls String of a node.
func (t *txt) strMethod(x *Exec, a *Term) bool {
	if t.query || a.typ == nil {
		return false
	}
	if t.w.isNodePtr(a.typ) || t.w.isNodeIface(a.typ) {
		return true
	}
	if n := t.w.NamedType("JSONObject"); n != nil && types.IsInterface(a.typ) {
		v, k := x.Eval(x.isType(a, n))
		return k && v
	}
	return false
}

// back compares the text at the end of a turn with the text at its start.
func (t *txt) back(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term, _ any) {
	end, at := t.replay(x, nil, a.header)
	if at == nil {
		return
	}
	for ph, nx := range next {
		if isText(ph.Type()) {
			end.fn(nx) // collects the characters it holds
		}
	}
	var used []*Term
	for v := range end.used {
		used = append(used, v)
	}
	sort.Slice(used, func(i, j int) bool { return used[i].id < used[j].id })
	t.cmp(x, a, next, end, at, len(used) != 1)
	if len(used) == 1 {
		for _, b := range end.feasible(used[0]) {
			e2, a2 := t.replay(x, map[*Term]int64{used[0]: b}, a.header)
			t.cmp(x, a, next, e2, a2, true)
		}
	}
}

func (t *txt) cmp(x *Exec, a *loopAct, next map[*ssa.Phi]*Term, end, at *tctx, final bool) {
	if !final {
		return
	}
	in := a.header.Instrs[0]
	differ := func(key string, f, g tfun) {
		for i := range f.s {
			if f.s[i] == tBad || f.s[i] == g.s[i] {
				continue
			}
			k := fmt.Sprintf("%p|%s|%d", a.header, key, i)
			if t.dead[k] != nil {
				continue
			}
			why := g.why[i]
			if g.s[i] != tBad {
				why = &tbad{"a turn of a loop leaves a quote open or closes one it did not open", in}
			}
			t.dead[k] = why
			t.changed = true
		}
	}
	for w, g := range end.wr {
		if w.op == OAlloc && w.num > a.fresh {
			continue
		}
		differ(writerKey(w), at.writer(w), g)
	}
	for ph, nx := range next {
		switch {
		case isText(ph.Type()):
			differ(fmt.Sprintf("%p", ph), at.fn(a.cur[ph]), end.fn(nx))
		case isStringSlice(ph.Type()):
			differ(fmt.Sprintf("%p", ph), at.listOf(a.cur[ph]), end.listOf(nx))
		}
	}
	for l, g := range end.lists {
		if l.op == OMake || l.op == OSlice {
			differ(writerKey(l), at.list(l), g)
		}
	}
}

// ret judges the text at a return.
func (t *txt) ret(x *Exec, args, res []*Term) {
	end, _ := t.replay(x, nil, nil)
	if len(x.Events) > 0 {
		end.e = x.Events[len(x.Events)-1]
	} else {
		end.e = &Event{Instr: retInstr(t.root)}
	}
	judge := func(f tfun) {
		switch {
		case f.s[tOut] == tBad:
			t.bad(f.why[tOut])
		case f.s[tOut] != tOut:
			t.bad(&tbad{"the text ends inside quotes", retInstr(t.root)})
		default:
			t.ok("text")
		}
	}
	for i, a := range args {
		if a == nil || !t.w.isWriterType(t.root.Params[i].Type()) {
			continue
		}
		judge(end.writer(a))
	}
	for i, r := range res {
		if isText(t.root.Signature.Results().At(i).Type()) {
			judge(end.fn(r))
		}
	}
}
