package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C34"] = check{explainC34, runC34} }

const explainC34 = "Path-sensitive interpretation of every function that reads a value that is no container from a position of the text. On each path that may report success the node returned is compared with the text read on that path. Text that the reader of quoted strings returned must be kept, as it is, in a string node. For bare text: a null or boolean node needs a test of the path that found the text, in lower case, equal to a word for it (or empty, for null); an integer or float node must hold exactly what strconv made of the text; a reference needs text that was found to begin with <; a string node must hold the text itself, after null, true and false were ruled out and the readings as integer and as float have failed."

// scalarWords are the bare words that stand for a value.
var scalarWords = map[string][]string{"null": {"", "null", "none"}, "true": {"true", "yes"}, "false": {"false", "no"}}

// scalarInfo is what the scalar nodes hold.
var scalarInfo = map[string]types.BasicInfo{"JSONString": types.IsString, "JSONInt": types.IsInteger, "JSONFloat": types.IsFloat, "JSONBool": types.IsBoolean}

func runC34(w *World, r *Rep) {
	c := &c34{Obls: newObls(w, r), c33: &c33{ps: newParsers(w)}}
	c.c33.Obls = c.Obls
	for _, f := range w.Funcs {
		if c.c33.reader(f) && c.c33.ps.looks(f) && c.c33.fills(f) < 0 {
			c.judge(f)
		}
	}
	c.finish()
	r.Notes = append(r.Notes, fmt.Sprintf("%d paths", c.paths))
	r.Assume = append(r.Assume, "strconv.ParseInt and ParseFloat read decimal numbers right (base and size are judged by C05)", "the text between quotes is unescaped right (C04)")
	r.AtLeast("quoted text", 1)
	r.AtLeast("bare text", 1)
}

type c34 struct {
	*Obls
	c33   *c33
	paths int
}

func (c *c34) judge(fn *ssa.Function) {
	p := NewPathRun(c.w)
	p.Inline = func(x *Exec, ca *Call) bool { return c.c33.ps.inline(x, ca) }
	p.Ret = func(x *Exec, args, res []*Term) {
		if x.failedRet(fn, res) || len(c.c33.products(x, x.Events)) > 0 {
			return
		}
		in := retInstr(fn)
		for _, k := range c.c33.yields(fn) {
			if !c.c33.isNode(fn.Signature.Results().At(k).Type()) {
				continue
			}
			v := bare(res[k])
			if q := c.quoted(x); q != nil {
				kind, data := c.scalar(x, v)
				c.need(nil, in, "quoted text", "value of "+fnName(fn), kind == "JSONString" && data == q, "on a path (%s) text in quotes is read as %s instead of a string of that text", turnConds(x.Events), v)
				continue
			}
			why := "there is no text it was read from"
			for _, t := range c.bareTexts(x, append([]*Term{v}, c.fields(x, v)...)) {
				if why = c.bareText(x, t, v); why == "" {
					break
				}
			}
			c.need(nil, in, "bare text", "value of "+fnName(fn), why == "", "on a path (%s) bare text is read as %s: %s", turnConds(x.Events), v, why)
		}
	}
	if !p.Run(fn) {
		c.r.Bad("undecided", fnName(fn), "paths", "-", "too many paths to decide")
	}
	c.r.Visit(fnName(fn))
	c.paths += p.paths
}

func (x *Exec) failedRet(fn *ssa.Function, res []*Term) bool {
	for i := range res {
		if isErrorType(fn.Signature.Results().At(i).Type()) && x.knownNil(res[i]) == 0 {
			return true
		}
	}
	return false
}

// quoted is the text a reader of its own returned.
func (c *c34) quoted(x *Exec) *Term {
	var t *Term
	for _, e := range x.Events {
		if e.Kind != "call" || e.Fn == nil || !c.c33.ps.looks(e.Fn) || x.failed(e.Fn.Signature, e.Res) {
			continue
		}
		if ks := resultsOf(e.Fn, isStringType); len(ks) == 1 && e.Fn.Signature.Results().Len() > 1 {
			t = x.extract(e.Res, ks[0], e.Fn.Signature.Results().At(ks[0]).Type())
		}
	}
	return t
}

// fields are the contents of a node made here.
func (c *c34) fields(x *Exec, v *Term) (out []*Term) {
	st := structOf(v.typ)
	if st == nil || v.op != OAlloc {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, x.Load(x.ts.Mk(OFieldAddr, types.NewPointer(st.Field(i).Type()), "", i, v)))
	}
	return
}

// bareTexts are the parts of the input that were made strings.
func (c *c34) bareTexts(x *Exec, ts []*Term) (out []*Term) {
	lits, _ := literals(x.Events)
	for _, e := range x.Events {
		if e.Kind == "call" {
			ts = append(ts, e.Args...)
		}
	}
	subterms(append(lits, ts...), func(t *Term) {
		if t.op == OConv && isStringType(t.typ) && t.args[0].op == OSlice && isText(t.args[0].typ) && !slices.Contains(out, t) {
			out = append(out, t)
		}
	})
	return
}

// scalar tells the type of a node made here or kept in a package variable, and
// what it holds.
func (c *c34) scalar(x *Exec, v *Term) (kind string, data *Term) {
	if v.op == OLoad && v.args[0].op == OGlobal {
		v = v.args[0]
	}
	if v.op == OGlobal {
		if g, ok := v.val.(*ssa.Global); ok {
			return c.global(x, g)
		}
		return "", nil
	}
	if v.op != OAlloc || v.typ == nil {
		return "", nil
	}
	n := namedOf(v.typ)
	if n == nil {
		return "", nil
	}
	for i, st := 0, structOf(v.typ); st != nil && i < st.NumFields(); i++ {
		if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&scalarInfo[n.Obj().Name()] != 0 {
			data = x.Load(x.ts.Mk(OFieldAddr, types.NewPointer(st.Field(i).Type()), "", i, v))
		}
	}
	return n.Obj().Name(), data
}

// global is what the package gives a node variable when it is made.
func (c *c34) global(x *Exec, g *ssa.Global) (kind string, data *Term) {
	init := g.Pkg.Func("init")
	if init == nil {
		return "", nil
	}
	stores := 0
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if st.Addr != g {
				continue
			}
			stores++
			v := st.Val
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			a, ok := v.(*ssa.Alloc)
			if !ok {
				return "", nil
			}
			if n := namedOf(a.Type()); n != nil {
				kind = n.Obj().Name()
			}
			for _, u := range *a.Referrers() {
				fa, ok := u.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				for _, s := range *fa.Referrers() {
					if s, ok := s.(*ssa.Store); ok && s.Addr == fa {
						if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil {
							data = x.ts.Const(k.Value, k.Type())
						}
					}
				}
			}
			if data == nil && kind == "JSONBool" {
				data = x.ts.Bool(false)
			}
		}
	}
	if stores != 1 {
		return "", nil
	}
	return
}

// words tells which words the text is known to be, or not to be, whatever its case.
func (c *c34) words(x *Exec, t *Term) (is []string, not map[string]bool, table bool) {
	not = map[string]bool{}
	lits, vals := literals(x.Events)
	of := func(s *Term) (folded, ok bool) {
		if s == t {
			return false, true
		}
		return true, s.op == OCall && (s.aux == "strings.ToLower" || s.aux == "strings.ToUpper") && len(s.args) == 1 && s.args[0] == t
	}
	text := func(s *Term) (string, bool) {
		if s.op == OConst && s.k != nil && s.k.Kind() == constant.String {
			return strings.ToLower(constant.StringVal(s.k)), true
		}
		return "", false
	}
	for i, l := range lits {
		v := vals[i]
		switch {
		case (l.op == OBin && (l.aux == "==" || l.aux == "!=")) && len(l.args) == 2:
			v = v == (l.aux == "==")
			for j := range l.args {
				folded, ok := of(l.args[j])
				w, isW := text(l.args[1-j])
				if !ok || !isW {
					continue
				}
				if v {
					is = append(is, w)
				} else if folded {
					not[w] = true
				}
			}
		case l.op == OCall && l.aux == "strings.EqualFold" && len(l.args) == 2:
			for j := range l.args {
				w, isW := text(l.args[1-j])
				if _, ok := of(l.args[j]); !ok || !isW {
					continue
				}
				if v {
					is = append(is, w)
				} else {
					not[w] = true
				}
			}
		case l.op == OHas || l.op == OExtract && l.args[0].op == OLookup || l.op == OLookup:
			if l.any(func(s *Term) bool { _, ok := of(s); return ok }) {
				table = true
			}
		}
	}
	return
}

// number finds what strconv made of the text: the number, and whether it is
// known to have failed.
func (c *c34) number(x *Exec, t *Term, name string) (v *Term, failed bool) {
	for _, e := range x.Events {
		if e.Kind == "call" && e.Name == "strconv."+name && len(e.Args) > 0 && e.Args[0] == t && e.Res != nil {
			v = x.extract(e.Res, 0, nil)
			if tup, ok := e.Instr.(*ssa.Call); ok {
				if tt, ok := tup.Type().(*types.Tuple); ok {
					v = x.extract(e.Res, 0, tt.At(0).Type())
					failed = x.knownNil(x.extract(e.Res, 1, tt.At(1).Type())) == 0
				}
			}
			return
		}
	}
	return nil, false
}

// bareText judges a node read from bare text; "" when it is right.
func (c *c34) bareText(x *Exec, t, v *Term) string {
	kind, data := c.scalar(x, v)
	is, not, table := c.words(x, t)
	word := func(k string) string {
		for _, w := range is {
			if !slices.Contains(scalarWords[k], w) {
				return fmt.Sprintf("%q does not stand for %s", w, k)
			}
		}
		empty := k == "null" && x.Entails(x.Lin(x.LenOf(t)).neg())
		if lt := x.lower(t); lt != nil && k == "null" {
			empty = empty || x.Entails(x.Lin(x.LenOf(lt)).neg())
		}
		if len(is) == 0 && !empty {
			return "the text is not known to be a word for " + k
		}
		return ""
	}
	switch kind {
	case "JSONValue":
		return word("null")
	case "JSONBool":
		if b, ok := data.BoolVal(); data != nil && ok {
			return word(fmt.Sprint(b))
		}
		return "it is not known which truth value"
	case "JSONInt":
		if n, _ := c.number(x, t, "ParseInt"); n == nil || sameNumber(data) != n {
			return "it does not hold the number the text was read as"
		}
		return ""
	case "JSONFloat":
		if n, _ := c.number(x, t, "ParseFloat"); n == nil || sameNumber(data) != n {
			return "it does not hold the number the text was read as"
		}
		if _, failed := c.number(x, t, "ParseInt"); !failed {
			return "the text may be that of an integer"
		}
		return ""
	case "JSONString":
		if data != t {
			return "it does not hold the text itself"
		}
		for k := range scalarWords {
			if !not[k] && !table {
				return fmt.Sprintf("the text may be %s", k)
			}
		}
		for _, n := range []string{"ParseInt", "ParseFloat"} {
			if _, failed := c.number(x, t, n); !failed {
				return "the text may be that of a number"
			}
		}
		return ""
	case "sJSONPointer":
		if x.startsWith(t, '<') {
			return ""
		}
		return "the text is not known to be a reference"
	}
	if table && v.any(func(s *Term) bool { return s.op == OLookup }) {
		return "" // a table of words
	}
	return "it is none of the scalar nodes"
}

// sameNumber removes conversions that change nothing.
func sameNumber(t *Term) *Term {
	for t != nil && t.op == OConv && types.Identical(t.typ.Underlying(), t.args[0].typ.Underlying()) {
		t = t.args[0]
	}
	return t
}

// lower is the text in lower case where the path made it.
func (x *Exec) lower(t *Term) *Term {
	for _, e := range x.Events {
		if e.Kind == "call" && e.Name == "strings.ToLower" && len(e.Args) == 1 && e.Args[0] == t {
			return e.Res
		}
	}
	return nil
}

// startsWith: the path found the text to begin with the character.
func (x *Exec) startsWith(t *Term, ch int64) bool {
	lits, vals := literals(x.Events)
	for i, l := range lits {
		if l.op == OCall && l.aux == "strings.HasPrefix" && vals[i] && l.args[0] == t {
			if s := l.args[1]; s.op == OConst && s.k != nil && constant.StringVal(s.k) == string(rune(ch)) {
				return true
			}
		}
	}
	first := func(s *Term) bool {
		return s.op == OIndex && s.args[0] == t || s.op == OLoad && s.args[0].op == OIndexAddr
	}
	found := false
	subterms(lits, func(s *Term) {
		if s.typ == nil || !first(s) {
			return
		}
		if d, ok := x.Domain(s); ok {
			if n, one := d.Single(); one && int64(n) == ch {
				found = true
			}
		} else if k, ok := x.constInt(s); ok && k == ch {
			found = true
		}
	})
	return found
}
