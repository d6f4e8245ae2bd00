package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C04"] = check{explainC04, runC04} }

const explainC04 = "The bytes each rendering loop emits for one byte of a key or string were derived for all 256 values from the paths the value can take, giving the writer's table. The reader's loop over quoted text was then interpreted for one escape at an unknown position after an unknown accumulated text (constants propagated through the digit helpers and the library's character functions): on every path the path conditions allow, the loop must append exactly the byte the writer replaced, advance exactly over the sequence, keep its other state and must not return. The same was done for every byte written as it is, for each hexadecimal digit of either case in each position of \\u and \\x, for a grid of surrogate pairs, and for the closing quote, where the result must be the accumulated text. Content escaped by a library routine is judged by the escapes that routine is documented to produce."

// --- the writer's table ----------------------------------------------------

// conc is the concrete text a term stands for when v has the value b.
func (c *tctx) conc(t, v *Term, b int64, rune1 bool) (string, bool) {
	if s, ok := t.StrVal(); ok {
		return s, true
	}
	if t.typ != nil && isIntType(t.typ) {
		k, ok := c.t.w.evalChar(t, v, b)
		if !ok || k.Kind() != constant.Int {
			return "", false
		}
		n, _ := constant.Int64Val(k)
		if rune1 {
			return string(rune(n)), true
		}
		return string([]byte{byte(n)}), true
	}
	if k, ok := c.t.w.evalChar(t, v, b); ok && k.Kind() == constant.String {
		return constant.StringVal(k), true
	}
	list := func(ts []*Term) (string, bool) {
		out := ""
		for _, a := range ts {
			s, ok := c.conc(a, v, b, false)
			if !ok {
				return "", false
			}
			out += s
		}
		return out, true
	}
	switch t.op {
	case ONil:
		return "", true
	case OConv:
		return c.conc(t.args[0], v, b, isIntType(t.args[0].typ))
	case OBin:
		if t.aux == "+" {
			return list(t.args)
		}
	case OAppend:
		return list(t.args)
	case OVar:
		return list(t.args)
	case OSlice:
		if isZeroInt(t.args[1]) && isZeroInt(t.args[2]) {
			return "", true
		}
		if es, ok := c.elems(t); ok {
			return list(es)
		}
		if s, ok := c.conc(t.args[0], v, b, false); ok && isStringType(t.args[0].typ) {
			lo, ok1 := c.t.w.evalChar(t.args[1], v, b)
			hi, ok2 := c.t.w.evalChar(t.args[2], v, b)
			if ok1 && ok2 {
				l, _ := constant.Int64Val(lo)
				h, _ := constant.Int64Val(hi)
				if 0 <= l && l <= h && h <= int64(len(s)) {
					return s[l:h], true
				}
			}
		}
	case OExtract:
	case OCall:
		num := func(i int) (int64, bool) {
			k, ok := c.t.w.evalChar(t.args[i], v, b)
			if !ok || k.Kind() != constant.Int {
				return 0, false
			}
			return constant.Int64Val(k)
		}
		switch t.aux {
		case "fmt.Sprintf":
			if t.args[1].op == OVar {
				return c.concFormat(t.args[0], t.args[1].args, v, b)
			}
		case "strconv.Itoa":
			if n, ok := num(0); ok {
				return strconv.Itoa(int(n)), true
			}
		case "strconv.FormatInt", "strconv.FormatUint":
			n, ok1 := num(0)
			base, ok2 := num(1)
			if ok1 && ok2 && base >= 2 && base <= 36 {
				return strconv.FormatInt(n, int(base)), true
			}
		case "strconv.AppendInt", "strconv.AppendUint":
			n, ok1 := num(1)
			base, ok2 := num(2)
			if s, ok := c.conc(t.args[0], v, b, false); ok && ok1 && ok2 && base >= 2 && base <= 36 {
				return s + strconv.FormatInt(n, int(base)), true
			}
		case "unicode/utf8.AppendRune":
			if s, ok := c.conc(t.args[0], v, b, false); ok {
				if n, ok := num(1); ok {
					return s + string(rune(n)), true
				}
			}
		case "strings.Repeat":
			s, ok1 := c.conc(t.args[0], v, b, false)
			if n, ok := num(1); ok && ok1 && n >= 0 && n < 64 {
				return strings.Repeat(s, int(n)), true
			}
		}
	}
	return "", false
}

func (c *tctx) concFormat(ft *Term, args []*Term, v *Term, b int64) (string, bool) {
	f, ok := ft.StrVal()
	if !ok {
		return "", false
	}
	var vals []any
	for _, a := range args {
		for a.op == OIface {
			a = a.args[0]
		}
		if isText(a.typ) {
			s, ok := c.conc(a, v, b, false)
			if !ok {
				return "", false
			}
			vals = append(vals, s)
			continue
		}
		k, ok := c.t.w.evalChar(a, v, b)
		if !ok || k.Kind() != constant.Int || hasFormatMethod(a.typ) {
			return "", false
		}
		n, _ := constant.Int64Val(k)
		switch a.typ.Underlying().(*types.Basic).Kind() {
		case types.Uint8:
			vals = append(vals, uint8(n))
		case types.Int32:
			vals = append(vals, int32(n))
		case types.Uint16:
			vals = append(vals, uint16(n))
		case types.Uint32:
			vals = append(vals, uint32(n))
		default:
			vals = append(vals, n)
		}
	}
	return fmt.Sprintf(f, vals...), true
}

// pieceText is what one write emits for a byte.
func (c *tctx) pieceText(p tpiece, v *Term, b int64) (string, bool) {
	c.e = p.e
	n := p.e.Name
	if n == "fmt.Fprintf" {
		return c.concFormat(p.what[0], p.what[1:], v, b)
	}
	if n == "fmt.Fprint" {
		a := p.what[0]
		for a.op == OIface {
			a = a.args[0]
		}
		if !isText(a.typ) {
			return "", false
		}
	}
	out := ""
	for _, t := range p.what {
		s, ok := c.conc(t, v, b, strings.HasSuffix(n, ".WriteRune"))
		if !ok {
			return "", false
		}
		out += s
	}
	return out, true
}

// wtable is what the writers emit for each byte.
type wtable struct {
	out     map[string]map[int64]map[ssa.Instruction]bool // emitted text -> bytes it stands for -> loops
	has     map[ssa.Instruction]map[int64]bool            // loop -> bytes seen
	content map[ssa.Instruction]bool                      // loops that write bytes of the content
	none    map[ssa.Instruction]map[int64]bool            // bytes for which a turn writes nothing
}

// writes collects the table from the loops of one rendering function.
func (t *txt) writes(obls *Obls, wt *wtable) {
	name := fnName(t.root)
	t.onBack = func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) {
		end, at := t.replay(x, nil, a.header)
		if at == nil {
			return
		}
		for ph, nx := range next {
			if isText(ph.Type()) {
				end.fn(nx)
			}
		}
		var used []*Term
		for v := range end.used {
			used = append(used, v)
		}
		in := a.header.Instrs[0]
		if len(used) == 0 {
			// constant text written for a byte that was only compared
			var cand *Term
			for _, e := range x.eventsAfter(a.header) {
				if e.Kind != "branch" {
					continue
				}
				v := t.w.charVar(e.Args[0])
				if v == nil || v.op != OIndex && v.op != OLoad {
					continue
				}
				if el, ok := x.elemOf(v); !ok || !x.turnAt(a, next, el) {
					continue
				}
				cand = v
			}
			if cand == nil {
				return
			}
			used = []*Term{cand}
		} else {
			wt.content[in] = true
		}
		if len(used) > 1 {
			obls.need(fr, in, "writer", name, false, "one turn writes several bytes of the content; what it writes for each cannot be told apart")
			return
		}
		v := used[0]
		if b, ok := v.typ.Underlying().(*types.Basic); ok && b.Kind() != types.Uint8 {
			obls.need(fr, in, "writer", name, false, "the content is written character by character: bytes that are not valid UTF-8 are replaced")
			return
		}
		if e, ok := x.elemOf(v); ok {
			obls.need(fr, in, "each byte once", name, x.turnAt(a, next, e), "a turn does not write the byte at its own position")
		}
		h := wt.has[in]
		if h == nil {
			h = map[int64]bool{}
			wt.has[in] = h
		}
		for _, b := range end.feasible(v) {
			texts := map[*Term]string{}
			known := true
			for _, p := range end.seen {
				s, ok := end.pieceText(p, v, b)
				known = known && ok
				texts[writerRoot(p.to)] += s
			}
			for ph, nx := range next {
				if !isText(ph.Type()) || nx == a.cur[ph] {
					continue
				}
				s, ok := end.suffix(nx, a.cur[ph], v, b)
				known = known && ok
				texts[a.cur[ph]] += s
			}
			if !known {
				obls.need(fr, in, "writer", name, false, "the text written for the byte %#02x cannot be determined", b)
				continue
			}
			n := 0
			for _, s := range texts {
				if s == "" {
					continue
				}
				n++
				m := wt.out[s]
				if m == nil {
					m = map[int64]map[ssa.Instruction]bool{}
					wt.out[s] = m
				}
				if m[b] == nil {
					m[b] = map[ssa.Instruction]bool{}
				}
				m[b][in] = true
			}
			h[b] = true
			if n == 0 {
				if wt.none[in] == nil {
					wt.none[in] = map[int64]bool{}
				}
				wt.none[in][b] = true
			}
		}
	}
}

func writerRoot(t *Term) *Term { return asWriter(t) }

// suffix is what a turn appended to a text.
func (c *tctx) suffix(t, cur, v *Term, b int64) (string, bool) {
	switch {
	case t == cur:
		return "", true
	case t.op == OAppend || t.op == OBin && t.aux == "+":
		s, ok := c.suffix(t.args[0], cur, v, b)
		if !ok {
			return "", false
		}
		r, ok := c.conc(t.args[1], v, b, false)
		return s + r, ok
	case t.op == OCall && len(t.args) > 1 && (strings.HasPrefix(t.aux, "strconv.Append") || t.aux == "unicode/utf8.AppendRune"):
		s, ok := c.suffix(t.args[0], cur, v, b)
		if !ok {
			return "", false
		}
		n := *t
		n.args = append([]*Term{c.x.ts.Const(constant.MakeString(""), types.Typ[types.String])}, t.args[1:]...)
		r, ok := c.conc(&n, v, b, false)
		return s + r, ok
	}
	return "", false
}

// --- the reader ------------------------------------------------------------

// rdLoop is a loop over text that tests for a backslash.
type rdLoop struct {
	w      *World
	ts     *Terms
	fn     *ssa.Function
	header *ssa.BasicBlock
	pos    *ssa.Phi
	off    int64 // the position read is pos+off
	base   *Term
	acc    []ritem // the accumulated text, as a function of the loop's state
	state  map[*ssa.Phi]bool
}

// ritem is one part of a text.
type ritem struct {
	kind byte // 'b' byte, 'v' text term, 's' segment of the input, 'w' writer, '?' unknown
	b    byte
	t    *Term
	lo   Lin
	hi   Lin
}

type rout struct {
	ok    int
	left  int
	fails []string
	ins   []ssa.Instruction
	rets  [][]ritem
	ends  []bool // the returned error is nil
}

// inputAt recognises a read of one byte of a text.
func (x *Exec) inputAt(t *Term) (base *Term, idx Lin, ok bool) {
	switch {
	case t.op == OLoad && t.args[0].op == OIndexAddr:
		base, idx = t.args[0].args[0], x.Lin(t.args[0].args[1])
	case t.op == OIndex:
		base, idx = t.args[0], x.Lin(t.args[1])
	default:
		return nil, Lin{}, false
	}
	base, d := x.textBase(base)
	return base, idx.add(d), isText(base.typ)
}

// textBase strips slicing and conversions.
func (x *Exec) textBase(t *Term) (*Term, Lin) {
	off := linConst(0)
	for {
		switch {
		case t.op == OSlice && isText(t.args[0].typ):
			off = off.add(x.Lin(t.args[1]))
			t = t.args[0]
		case t.op == OConv && strBytes(t.typ, t.args[0].typ):
			t = t.args[0]
		default:
			return t, off
		}
	}
}

func (l Lin) konst() (int64, bool) { return l.c, len(l.v) == 0 }

// findReaders lists the loops of a function that look for a backslash.
func findReaders(w *World, ts *Terms, fn *ssa.Function) []*rdLoop {
	found := map[*ssa.BasicBlock]*rdLoop{}
	p := NewPathRun(w)
	p.ts = ts
	p.Inline = func(x *Exec, c *Call) bool { return c.Fn != nil && len(x.info(c.Fn).loops) == 0 }
	p.Event = func(x *Exec, e *Event) {
		if e.Kind != "branch" {
			return
		}
		c := e.Args[0]
		if c.op == OUn && c.aux == "!" {
			c = c.args[0]
		}
		if c.op != OBin || c.aux != "==" {
			return
		}
		for i := range c.args {
			if n, ok := c.args[i].IntVal(); !ok || n != '\\' {
				continue
			}
			base, idx, ok := x.inputAt(c.args[1-i])
			if !ok {
				continue
			}
			for _, ev := range x.Events {
				if ev.Kind != "loop" || ev.Fr.parent != nil {
					continue
				}
				a := ev.Data.(*loopAct)
				if found[a.header] != nil {
					continue
				}
				for _, in := range a.header.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if !isInt(ph.Type()) {
						continue
					}
					if k, ok := idx.sub(x.Lin(a.cur[ph])).konst(); ok && k >= 0 && k <= 1 {
						found[a.header] = &rdLoop{w: w, ts: ts, fn: fn, header: a.header, pos: ph, off: k, base: base, state: map[*ssa.Phi]bool{}}
						break
					}
				}
			}
		}
	}
	if !p.Run(fn) {
		return nil
	}
	var out []*rdLoop
	for _, b := range fn.Blocks {
		if l := found[b]; l != nil {
			out = append(out, l)
		}
	}
	return out
}

// rrun is one test of a reading loop.
type rrun struct {
	l      *rdLoop
	x      *Exec
	seq    string
	next   int64 // the byte after the sequence, or -1
	act    *loopAct
	pos0   Lin
	evs    int // events before the turn
	memo   map[*Term][]ritem
	laps   map[*ssa.BasicBlock]int
	out    *rout
	turns  int
	inTurn bool
}

func (l *rdLoop) run(seq string, next int64) *rout {
	x := NewExec(l.w, l.ts)
	x.MaxPaths = 3000
	r := &rrun{l: l, x: x, seq: seq, next: next, memo: map[*Term][]ritem{}, laps: map[*ssa.BasicBlock]int{}, out: &rout{}}
	fail := func(in ssa.Instruction, format string, a ...any) {
		r.out.fails = append(r.out.fails, fmt.Sprintf(format, a...))
		r.out.ins = append(r.out.ins, in)
	}
	body := x.info(l.fn).loops[l.header]
	x.H.Inline = func(x *Exec, c *Call) bool { return true }
	x.H.Model = func(x *Exec, c *Call, k func(*Term)) bool { return r.inTurn && r.fold(c, k) }
	x.H.Value = func(x *Exec, t *Term) *Term {
		if !r.inTurn {
			return t
		}
		return r.value(t)
	}
	x.H.Unroll = func(x *Exec, fr *Frame, b *ssa.BasicBlock) int {
		if !r.inTurn || fr.parent == nil && b == l.header {
			return 0
		}
		if fr.parent == nil && !body[b] {
			r.out.left++
			return 2
		}
		setMap(x, r.laps, b, r.laps[b]+1)
		if r.laps[b] > 40 {
			fail(b.Instrs[0], "the inner loop cannot be followed")
			return 2
		}
		return 1
	}
	x.H.Loop = func(x *Exec, fr *Frame, a *loopAct) {
		if fr.parent != nil || a.header != l.header {
			return
		}
		r.act, r.evs, r.turns = a, len(x.Events), 0
		r.pos0 = x.Lin(a.cur[l.pos]).plus(l.off)
		r.inTurn = true
		x.trail = append(x.trail, func() { r.inTurn = false })
		x.addLin(r.pos0)
		n := int64(len(seq))
		if next >= 0 {
			n++
		}
		x.addLin(x.Lin(x.LenOf(l.base)).sub(r.pos0).plus(-n))
		for ph, en := range a.entry {
			if l.state[ph] && en.op == OConst {
				x.Assume(x.Bin("==", a.cur[ph], en, types.Typ[types.Bool]), true)
			}
		}
	}
	x.H.Instr = func(x *Exec, fr *Frame, in ssa.Instruction) {
		b, ok := in.(*ssa.BinOp)
		if !ok || !r.inTurn || b.Op != token.EQL && b.Op != token.NEQ {
			return
		}
		// the byte the text is compared with is the quote
		p, q := b.X, b.Y
		for i := 0; i < 2; i, p, q = i+1, q, p {
			if _, ok := p.(*ssa.Const); ok {
				continue
			}
			if _, ok := q.(*ssa.Const); ok {
				continue
			}
			pt, qt := x.rep1(x.Val(fr, p)), x.rep1(x.Val(fr, q))
			if pt.op != OConst || qt.op == OConst || !isByteType(qt.typ) {
				continue
			}
			if base, idx, ok := x.inputAt(qt); ok && base == l.base {
				if _, ok := idx.sub(r.pos0).konst(); ok {
					continue
				}
			}
			x.Assume(x.Bin("==", qt, l.ts.Const(constant.MakeInt64('"'), qt.typ), types.Typ[types.Bool]), true)
		}
	}
	x.H.Event = func(x *Exec, e *Event) {
		if r.inTurn && e.Kind == "append" {
			setMap(x, r.memo, e.Res, r.items(e.Res))
		}
		if r.inTurn && e.Kind == "call" && e.Res != nil && isText(e.Res.typ) && len(e.Args) > 0 && l.w.isWriterType(asWriter(e.Args[0]).typ) && strings.HasPrefix(e.Name, "(") {
			setMap(x, r.memo, e.Res, r.written(asWriter(e.Args[0])))
		}
	}
	done := func(next map[*ssa.Phi]*Term) (int64, bool) {
		return x.Lin(next[l.pos]).plus(l.off).sub(r.pos0).konst()
	}
	x.H.Again = func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) bool {
		if fr.parent != nil || a.header != l.header {
			return false
		}
		adv, ok := done(next)
		if !ok || adv >= int64(len(seq)) || adv < 0 || r.turns > 8 {
			return false
		}
		r.turns++
		n := r.turns
		x.trail = append(x.trail, func() { r.turns = n - 1 })
		return true
	}
	x.H.Back = func(x *Exec, fr *Frame, a *loopAct, next map[*ssa.Phi]*Term) {
		if fr.parent != nil || a.header != l.header {
			return
		}
		in := a.header.Instrs[0]
		adv, ok := done(next)
		switch {
		case !ok:
			fail(in, "how far the turn advances is unknown")
		case adv < int64(len(seq)) && r.turns <= 8 && adv >= 0:
			return
		case adv != int64(len(seq)):
			fail(in, "advances by %d instead of %d", adv, len(seq))
		default:
			if !r.judge(next, fail) {
				return
			}
			r.out.ok++
		}
	}
	x.H.Ret = func(x *Exec, fr *Frame, in *ssa.Return, res []*Term) {
		if fr.parent != nil || !r.inTurn {
			return
		}
		good := true
		var text *Term
		for _, t := range res {
			if isErrorType(t.typ) || t.op == ONil && isErrorType(t.typ) {
				if v, k := x.Eval(x.isNil(t)); !k || !v {
					good = false
				}
			} else if isText(t.typ) && text == nil {
				text = t
			}
		}
		r.out.ins = append(r.out.ins, in)
		r.out.ends = append(r.out.ends, good && text != nil)
		if text != nil {
			r.out.rets = append(r.out.rets, r.norm(r.items(text)))
		} else {
			r.out.rets = append(r.out.rets, nil)
		}
	}
	x.Run(l.fn, nil, nil, nil)
	if x.Overflow {
		fail(l.header.Instrs[0], "too many paths to follow")
	}
	return r.out
}

func isByteType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32)
}

// value replaces reads of the tested bytes and of constant tables.
func (r *rrun) value(t *Term) *Term {
	switch t.op {
	case OTuple:
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = a
			if a != nil {
				args[i] = r.value(a)
			}
			ch = ch || args[i] != a
		}
		if ch {
			return r.x.ts.Mk(OTuple, nil, "", 0, args...)
		}
		return t
	case OLoad, OIndex:
		if base, idx, ok := r.x.inputAt(t); ok && r.same(base) {
			if k, ok := idx.sub(r.pos0).konst(); ok && k >= 0 {
				if k < int64(len(r.seq)) {
					return r.x.ts.Const(constant.MakeInt64(int64(r.seq[k])), t.typ)
				}
				if k == int64(len(r.seq)) && r.next >= 0 {
					return r.x.ts.Const(constant.MakeInt64(r.next), t.typ)
				}
			}
			return t
		}
	}
	switch t.op {
	case OLoad, OIndex, OLookup, OHas:
		if tab, key, has := r.l.w.tableRead(t); tab != nil {
			if kt := r.x.rep1(key); kt.op == OConst {
				v, in := tab.at(kt.k)
				if has {
					return r.x.ts.Bool(in)
				}
				if v != nil {
					return r.x.ts.Const(v, t.typ)
				}
			}
		}
	}
	return t
}

func (r *rrun) same(base *Term) bool {
	return base == r.l.base || base.String() == r.l.base.String()
}

// fold evaluates character functions of the library on constants.
func (r *rrun) fold(c *Call, k func(*Term)) bool {
	x := r.x
	ints := make([]int64, len(c.Args))
	known := make([]bool, len(c.Args))
	for i, a := range c.Args {
		if a != nil {
			ints[i], known[i] = x.rep1(a).IntVal()
		}
	}
	num := func(n int64) *Term { return x.ts.Const(constant.MakeInt64(n), c.Typ) }
	switch c.Name {
	case "unicode/utf16.IsSurrogate":
		if known[0] {
			k(x.ts.Bool(utf16.IsSurrogate(rune(ints[0]))))
			return true
		}
	case "unicode/utf16.DecodeRune":
		if known[0] && known[1] {
			k(num(int64(utf16.DecodeRune(rune(ints[0]), rune(ints[1])))))
			return true
		}
	case "unicode/utf8.ValidRune":
		if known[0] {
			k(x.ts.Bool(utf8.ValidRune(rune(ints[0]))))
			return true
		}
	case "unicode/utf8.RuneLen":
		if known[0] {
			k(num(int64(utf8.RuneLen(rune(ints[0])))))
			return true
		}
	case "unicode/utf8.EncodeRune":
		if known[1] {
			buf := []byte(string(rune(ints[1])))
			for i, b := range buf {
				a := x.indexAddr(c.Args[0], x.ts.Int(int64(i)), types.NewPointer(types.Typ[types.Uint8]))
				x.Store(a, x.ts.Const(constant.MakeInt64(int64(b)), types.Typ[types.Uint8]))
			}
			k(num(int64(len(buf))))
			return true
		}
	case "unicode/utf8.AppendRune":
		if known[1] {
			var bs []*Term
			for _, b := range []byte(string(rune(ints[1]))) {
				bs = append(bs, x.ts.Const(constant.MakeInt64(int64(b)), types.Typ[types.Uint8]))
			}
			x.nframe++
			res := x.ts.intern(&Term{op: OAppend, num: x.nframe, typ: c.Typ, args: []*Term{c.Args[0], x.ts.Mk(OVar, c.Typ, "", 0, bs...)}}, "")
			setMap(x, r.memo, res, r.items(res))
			k(res)
			return true
		}
	case "strings.IndexByte", "strings.IndexRune", "bytes.IndexByte":
		if s, ok := r.konst(c.Args[0]); ok && known[1] {
			if c.Name == "strings.IndexRune" {
				k(num(int64(strings.IndexRune(s, rune(ints[1])))))
			} else {
				k(num(int64(strings.IndexByte(s, byte(ints[1])))))
			}
			return true
		}
	case "strconv.ParseUint", "strconv.ParseInt":
		if s, ok := r.konst(c.Args[0]); ok && known[1] && known[2] {
			var n int64
			var err error
			if c.Name == "strconv.ParseUint" {
				var u uint64
				u, err = strconv.ParseUint(s, int(ints[1]), int(ints[2]))
				n = int64(u)
			} else {
				n, err = strconv.ParseInt(s, int(ints[1]), int(ints[2]))
			}
			if err == nil {
				tup := c.Typ.(*types.Tuple)
				k(x.ts.Mk(OTuple, nil, "", 0, x.ts.Const(constant.MakeInt64(n), tup.At(0).Type()), x.ts.Nil(tup.At(1).Type())))
				return true
			}
		}
	}
	return false
}

// konst is the text of a term made of known bytes only.
func (r *rrun) konst(t *Term) (string, bool) {
	var out []byte
	for _, i := range r.norm(r.items(t)) {
		if i.kind != 'b' {
			return "", false
		}
		out = append(out, i.b)
	}
	return string(out), true
}

// items takes a text apart.
func (r *rrun) items(t *Term) []ritem {
	x := r.x
	if m, ok := r.memo[t]; ok {
		return m
	}
	t = x.rep1(t)
	if m, ok := r.memo[t]; ok {
		return m
	}
	text := func(s string) []ritem {
		var out []ritem
		for i := 0; i < len(s); i++ {
			out = append(out, ritem{kind: 'b', b: s[i]})
		}
		return out
	}
	if s, ok := t.StrVal(); ok {
		return text(s)
	}
	char := func(v *Term) ritem {
		if n, ok := x.rep1(v).IntVal(); ok {
			return ritem{kind: 'b', b: byte(n)}
		}
		return ritem{kind: '?', t: v}
	}
	switch t.op {
	case ONil, OZero:
		return nil
	case OMake:
		if isZeroInt(t.args[0]) {
			return nil
		}
	case OConv:
		a := t.args[0]
		if isText(a.typ) {
			return r.items(a)
		}
		if n, ok := x.rep1(a).IntVal(); ok {
			return text(string(rune(n)))
		}
		return []ritem{{kind: '?', t: t}}
	case OBin:
		if t.aux == "+" {
			return append(append([]ritem{}, r.items(t.args[0])...), r.items(t.args[1])...)
		}
	case OAppend:
		return append(append([]ritem{}, r.items(t.args[0])...), r.items(t.args[1])...)
	case OVar:
		var out []ritem
		for _, v := range t.args {
			out = append(out, char(v))
		}
		return out
	case OSlice:
		if isZeroInt(t.args[1]) && isZeroInt(t.args[2]) {
			return nil
		}
		if es, ok := x.sliceElems(t); ok {
			var out []ritem
			for _, v := range es {
				out = append(out, char(v))
			}
			return out
		}
		if !isText(t.args[0].typ) {
			break
		}
		base, d := x.textBase(t.args[0])
		if r.same(base) {
			return []ritem{{kind: 's', lo: d.add(x.Lin(t.args[1])), hi: d.add(x.Lin(t.args[2]))}}
		}
		if isZeroInt(t.args[1]) && t.args[2] == x.LenOf(t.args[0]) {
			return r.items(t.args[0])
		}
	}
	return []ritem{{kind: 'v', t: t}}
}

// written is the text of a writer: what it held before the turn and what the
// turn added.
func (r *rrun) written(w *Term) []ritem {
	out := []ritem{{kind: 'w', t: w}}
	for _, e := range r.x.Events[r.evs:] {
		if e.Kind != "call" || len(e.Args) == 0 || asWriter(e.Args[0]) != w {
			continue
		}
		switch n := e.Name; {
		case strings.HasSuffix(n, ").WriteString"), strings.HasSuffix(n, ").Write"), n == "io.WriteString":
			out = append(out, r.items(e.Args[1])...)
		case strings.HasSuffix(n, ").WriteByte"):
			if b, ok := r.x.rep1(e.Args[1]).IntVal(); ok {
				out = append(out, ritem{kind: 'b', b: byte(b)})
			} else {
				out = append(out, ritem{kind: '?', t: e.Args[1]})
			}
		case strings.HasSuffix(n, ").WriteRune"):
			if b, ok := r.x.rep1(e.Args[1]).IntVal(); ok {
				for _, c := range []byte(string(rune(b))) {
					out = append(out, ritem{kind: 'b', b: c})
				}
			} else {
				out = append(out, ritem{kind: '?', t: e.Args[1]})
			}
		case strings.HasSuffix(n, ").Reset"), strings.HasSuffix(n, ").Truncate"):
			out = []ritem{{kind: '?', t: w}}
		}
	}
	return out
}

// norm writes segments of tested input as bytes and drops empty parts.
func (r *rrun) norm(in []ritem) []ritem {
	x := r.x
	var out []ritem
	for _, i := range in {
		switch i.kind {
		case 'v':
			if v, k := x.Eval(x.isNil(i.t)); k && v && !isStringType(i.t.typ) {
				continue
			}
			if n, ok := x.Lin(x.LenOf(i.t)).konst(); ok && n == 0 {
				continue
			}
		case 's':
			if x.eqLin(i.lo, i.hi) {
				continue
			}
			hi, ok := i.hi.sub(r.pos0).konst()
			if ok && hi >= 0 && hi <= int64(len(r.seq)) {
				lo, ok := i.lo.sub(r.pos0).konst()
				if !ok || lo < 0 {
					if !x.eqLin(i.lo, r.pos0) {
						out = append(out, ritem{kind: 's', lo: i.lo, hi: r.pos0})
					}
					lo = 0
				}
				for k := lo; k < hi; k++ {
					out = append(out, ritem{kind: 'b', b: r.seq[k]})
				}
				continue
			}
		}
		out = append(out, i)
	}
	return out
}

func (r *rrun) show(is []ritem) string {
	var b strings.Builder
	for _, i := range is {
		switch i.kind {
		case 'b':
			fmt.Fprintf(&b, " %#02x", i.b)
		case 'w':
			b.WriteString(" <text so far>")
		case 'v':
			b.WriteString(" <" + i.t.String() + ">")
		case 's':
			b.WriteString(" <input>")
		default:
			b.WriteString(" ?")
		}
	}
	return strings.TrimSpace(b.String())
}

func (r *rrun) equal(a, b []ritem) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		p, q := a[i], b[i]
		if p.kind != q.kind || p.kind == '?' || p.b != q.b || (p.kind == 'v' || p.kind == 'w') && p.t != q.t {
			return false
		}
		if p.kind == 's' && !(r.x.eqLin(p.lo, q.lo) && r.x.eqLin(p.hi, q.hi)) {
			return false
		}
	}
	return true
}

// accum is the accumulated text at given values of the loop variables.
func (r *rrun) accum(at map[*ssa.Phi]*Term, start bool) []ritem {
	var out []ritem
	for _, i := range r.l.acc {
		switch i.kind {
		case 'v':
			out = append(out, r.items(at[i.t.val.(*ssa.Phi)])...)
		case 'w':
			w := r.writerTerm(i.t)
			if start {
				out = append(out, ritem{kind: 'w', t: w})
			} else {
				out = append(out, r.written(w)...)
			}
		case 's':
			out = append(out, ritem{kind: 's', lo: r.x.Lin(at[i.t.val.(*ssa.Phi)]), hi: r.x.Lin(at[r.l.pos]).plus(r.l.off)})
		default:
			out = append(out, i)
		}
	}
	return r.norm(out)
}

// writerTerm is the writer of this path.
func (r *rrun) writerTerm(w *Term) *Term {
	for _, e := range r.x.Events {
		if e.Kind == "call" && len(e.Args) > 0 {
			if a := asWriter(e.Args[0]); a != nil && r.l.w.isWriterType(a.typ) && writerKey(a) == writerKey(w) {
				return a
			}
		}
	}
	return w
}

// expect is set per test.
var c04Expect []byte

func (r *rrun) judge(next map[*ssa.Phi]*Term, fail func(in ssa.Instruction, format string, a ...any)) bool {
	in := r.l.header.Instrs[0]
	cur := r.accum(r.act.cur, true)
	var want []ritem
	want = append(want, cur...)
	for _, b := range c04Expect {
		want = append(want, ritem{kind: 'b', b: b})
	}
	got := r.accum(next, false)
	want = r.norm(want)
	if !r.equal(got, want) {
		fail(in, "the text becomes %s instead of %s", r.show(got), r.show(want))
		return false
	}
	for ph := range r.l.state {
		if r.act.entry[ph].op == OConst && r.x.rep1(next[ph]) != r.act.entry[ph] {
			fail(in, "the loop does not return to its first state")
			return false
		}
	}
	return true
}

// learn runs the closing quote and takes the text it returns as what the loop
// accumulates.
func (l *rdLoop) learn() (*rout, bool) {
	c04Expect = nil
	o := l.run("\"", -1)
	var best []ritem
	for i, f := range o.rets {
		if !o.ends[i] {
			continue
		}
		ok := len(f) > 0
		var form []ritem
		for _, it := range f {
			switch it.kind {
			case 'v':
				ph, isPhi := it.t.val.(*ssa.Phi)
				ok = ok && isPhi && it.t.op == OFresh && ph.Block() == l.header
				form = append(form, it)
			case 'w':
				form = append(form, it)
			case 's':
				var st *Term
				for _, in := range l.header.Instrs {
					ph, isPhi := in.(*ssa.Phi)
					if !isPhi {
						break
					}
					if ph != l.pos && isInt(ph.Type()) {
						for _, lv := range it.lo.v {
							if v := lv.t; v.op == OFresh && v.val == ph && len(it.lo.v) == 1 && it.lo.c == 0 {
								st = v
							}
						}
					}
				}
				ok = ok && st != nil
				form = append(form, ritem{kind: 's', t: st})
			default:
				ok = false
			}
		}
		if ok && len(form) > len(best) {
			best = form
		}
	}
	l.acc = best
	return o, best != nil
}

// readTest is one sequence and the bytes it stands for.
type readTest struct {
	seq  string
	want string
	rule string
	from ssa.Instruction
}

func c04Tests() []readTest {
	var out []readTest
	const digits = "0123456789abcdefABCDEF"
	u := func(h string) {
		n, _ := strconv.ParseUint(h, 16, 32)
		out = append(out, readTest{`\u` + h, string(rune(n)), "hexadecimal digit of \\u", nil})
	}
	for _, d := range digits {
		for p := 0; p < 4; p++ {
			for _, fill := range []string{"0000", "1243"} {
				h := []byte(fill)
				h[p] = byte(d)
				if p == 0 && (d == 'd' || d == 'D') && h[1] >= '8' {
					continue
				}
				u(string(h))
			}
		}
		for p := 0; p < 2; p++ {
			for _, fill := range []string{"00", "5a"} {
				h := []byte(fill)
				h[p] = byte(d)
				n, _ := strconv.ParseUint(string(h), 16, 32)
				out = append(out, readTest{`\x` + string(h), string([]byte{byte(n)}), "hexadecimal digit of \\x", nil})
			}
		}
	}
	for _, h := range []string{"0041", "00e9", "00E9", "07ff", "0800", "20AC", "20ac", "d7ff", "e000", "FFFD", "ffff", "007f", "0080"} {
		u(h)
	}
	for _, hi := range []uint32{0xd800, 0xd801, 0xd83d, 0xd9ab, 0xdbfe, 0xdbff} {
		for _, lo := range []uint32{0xdc00, 0xdc01, 0xde00, 0xdecd, 0xdffe, 0xdfff} {
			r := 0x10000 + (rune(hi)-0xd800)<<10 + rune(lo) - 0xdc00
			out = append(out, readTest{fmt.Sprintf(`\u%04x\u%04x`, hi, lo), string(r), "surrogate pair", nil},
				readTest{fmt.Sprintf(`\u%04X\u%04X`, hi, lo), string(r), "surrogate pair", nil})
		}
	}
	return out
}

func runC04(w *World, r *Rep) {
	obls := newObls(w, r)
	wt := &wtable{out: map[string]map[int64]map[ssa.Instruction]bool{}, has: map[ssa.Instruction]map[int64]bool{},
		content: map[ssa.Instruction]bool{}, none: map[ssa.Instruction]map[int64]bool{}}
	type lib struct {
		name string
		in   ssa.Instruction
	}
	libs := map[lib]bool{}
	for _, tn := range w.NodeTypes() {
		it := w.NodeIface()
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			if w.renderGroup(m) != 'j' {
				continue
			}
			fn, _ := w.Method(tn, m.Name())
			if fn == nil || fn.Blocks == nil {
				continue
			}
			t := newTxt(w, fn, false)
			t.bad, t.ok = func(*tbad) {}, func(string) {}
			t.writes(obls, wt)
			t.onQuoted = func(name string, in ssa.Instruction) { libs[lib{name, in}] = true }
			if !t.run() {
				r.Bad("writer", fnName(fn), "paths", w.InstrPos(retInstr(fn)), "too many paths to follow")
			}
			r.Visit(fnName(fn))
		}
	}
	for in, h := range wt.has {
		if !wt.content[in] {
			continue
		}
		for b := int64(0); b < 256; b++ {
			obls.need(nil, in, "writer", fnName(in.Parent()), h[b] && !wt.none[in][b], "a turn of the loop writes nothing for the byte %#02x", b)
		}
	}
	var tests []readTest
	for s, bs := range wt.out {
		for b, ins := range bs {
			var in ssa.Instruction
			for i := range ins {
				if wt.content[i] && (in == nil || w.InstrPos(i) < w.InstrPos(in)) {
					in = i
				}
			}
			if in == nil {
				continue
			}
			rule := "escape read back"
			if s == string([]byte{byte(b)}) {
				rule = "plain byte read back"
			}
			tests = append(tests, readTest{s, string([]byte{byte(b)}), rule, in})
		}
	}
	var ls []lib
	for l := range libs {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return w.InstrPos(ls[i].in) < w.InstrPos(ls[j].in) })
	for _, l := range ls {
		switch l.name {
		case "encoding/json.Marshal":
			obls.need(nil, l.in, "writer", fnName(l.in.Parent()), false, "json.Marshal replaces bytes that are not valid UTF-8")
		default:
			for s, b := range map[string]string{`\a`: "\a", `\v`: "\v", `\n`: "\n", `\x80`: "\x80", `\u200b`: "\u200b", `\U000e0001`: "\U000e0001"} {
				tests = append(tests, readTest{s, b, "escape of " + lastName(l.name) + " read back", l.in})
			}
		}
	}
	sort.Slice(tests, func(i, j int) bool { return tests[i].seq+tests[i].want < tests[j].seq+tests[j].want })
	tests = append(tests, c04Tests()...)

	// the reader
	var readers []*rdLoop
	var roots []*ssa.Function
	for _, n := range parseRoots {
		if f := w.Func(n); f != nil {
			roots = append(roots, f)
		}
	}
	reach := w.Reach(roots)
	ts := NewTerms()
	for _, fn := range w.MainFuncs() {
		if !reach[fn] || len(fn.Blocks) == 0 {
			continue
		}
		for _, l := range findReaders(w, ts, fn) {
			o, ok := l.learn()
			if !ok {
				continue
			}
			readers = append(readers, l)
			r.Visit(fnName(fn))
			for i := range o.ends {
				obls.need(nil, o.ins[i], "closing quote", fnName(fn), o.ends[i], "the closing quote ends in an error")
			}
			for i, f := range o.fails {
				obls.need(nil, o.ins[i], "closing quote", fnName(fn), false, "%s", f)
			}
		}
	}
	for _, l := range readers {
		l.judgeAll(r, obls, tests)
	}
	obls.finish()
	if len(readers) == 0 {
		r.AtLeast("reader", 1)
		return
	}
	r.AtLeast("plain byte read back", 10)
}

// judgeAll runs every test on a reading loop.
func (l *rdLoop) judgeAll(r *Rep, obls *Obls, tests []readTest) {
	try := func(t readTest) *rout {
		c04Expect = []byte(t.want)
		return l.run(t.seq, '"')
	}
	bad := func(o *rout) string {
		if len(o.fails) > 0 {
			return o.fails[0]
		}
		if len(o.rets) > 0 {
			return "the reader may stop with an error or with a shorter text"
		}
		if o.ok == 0 && o.left == 0 {
			return "no path of the reader accepts it"
		}
		return ""
	}
	// loops that keep a state in their variables start every sequence in it
	for _, t := range tests {
		if bad(try(t)) != "" {
			for _, in := range l.header.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if ph != l.pos && (isBoolType(ph.Type()) || isIntType(ph.Type())) {
					l.state[ph] = true
				}
			}
			if bad(try(t)) != "" {
				l.state = map[*ssa.Phi]bool{}
			}
			break
		}
	}
	for _, t := range tests {
		o := try(t)
		in := l.header.Instrs[0]
		msg := bad(o)
		if t.from != nil {
			in = t.from
		}
		if msg == "" {
			r.OK(t.rule)
			r.Sample(t.rule, "%q is read as % x", t.seq, t.want)
			continue
		}
		pos := l.w.InstrPos(in)
		fn := fnName(l.fn)
		r.Bad(t.rule, fn, fmt.Sprintf("%q", t.seq), pos, "reading %q, which stands for % x: %s", t.seq, t.want, msg)
	}
}
