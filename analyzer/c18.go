package main

import (
	"encoding/json"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C18"] = check{explainC18, runC18} }

const explainC18 = "Every constant of the error type in the package was looked up in every dictionary that the locales package registers, by evaluating the dictionary's Lookup method over the constant tables of the source: each error text and each key of the table must be found, English must answer the key itself, every other language one whole message (or nothing, so that English is used), a key that is not in the table must not be found, the offset tables must ascend from the start to the end of the data and point at message starts, and the translations must be those of the catalog source file."

const msgMark = "\x02" // starts a plain message in the data of a catalog

type c18dict struct {
	tag    string
	typ    types.Type // dynamic type of the dictionary
	fields []*Term
	addr   *Term
	in     ssa.Instruction
}

type c18 struct {
	*Obls
	ts      *Terms
	dicts   []*c18dict
	globals map[*ssa.Global]*Term
	maps    map[*Term][]*Event
	built   []*Event
	fall    []*Event
	evs     []*Event
}

func runC18(w *World, r *Rep) {
	old := w.inMain[w.LocS]
	w.inMain[w.LocS] = true
	defer func() { w.inMain[w.LocS] = old }()
	c := &c18{Obls: newObls(w, r), ts: NewTerms(), globals: map[*ssa.Global]*Term{}, maps: map[*Term][]*Event{}}
	c.share()
	c.collect()
	keys := c.keys()
	errs := c.errorTexts()
	sort.Slice(c.dicts, func(i, j int) bool { return c.dicts[i].tag < c.dicts[j].tag })
	english := 0
	for _, d := range c.dicts {
		fn := c.lookupOf(d)
		if fn == nil {
			r.Bad("dictionary", "locales", d.tag, w.InstrPos(d.in), "the dictionary has no Lookup method that can be analysed")
			continue
		}
		c.tables(d)
		en := strings.HasPrefix(d.tag, "en")
		if en {
			english++
		}
		tr := c.translations(d.tag)
		for _, k := range errs {
			if _, known := keys[k.text]; !known {
				res := c.lookup(fn, d, k.text)
				c.need(nil, d.in, "entry", d.tag+" "+k.text, res.found == 1, "the error text %q at %s has no entry in the catalog", k.text, k.pos)
			}
		}
		for _, k := range sortedKeys(keys) {
			res := c.lookup(fn, d, k)
			switch {
			case res.found < 0:
				c.need(nil, d.in, "message", d.tag+" "+k, false, "the message of %q cannot be determined: %s", k, res.why)
			case en:
				c.need(nil, d.in, "message", d.tag+" "+k, res.found == 1 && res.text == msgMark+k, "the English message of %q is %q", k, res.text)
			case res.found == 0:
				c.need(nil, d.in, "message", d.tag+" "+k, tr[k] == "", "the message of %q is not found, the catalog source says %q", k, tr[k])
			default:
				whole := strings.HasPrefix(res.text, msgMark) && strings.Count(res.text, msgMark) == 1 && len(res.text) > 1
				c.need(nil, d.in, "message", d.tag+" "+k, whole, "the message of %q is not one whole message: %q", k, res.text)
				if whole && tr != nil {
					want, has := tr[k]
					c.need(nil, d.in, "translation", d.tag+" "+k, !has || res.text == msgMark+want, "the message of %q is %q, the catalog source says %q", k, res.text[1:], want)
				}
			}
		}
		absent := c.lookup(fn, d, "\x00no such key")
		c.need(nil, d.in, "absent key", d.tag, absent.found == 0, "a key that is not in the table may be found")
	}
	for _, k := range errs {
		_, known := keys[k.text]
		if !known && len(c.dicts) > 0 {
			continue // judged above
		}
		c.need(nil, c.anchor(), "entry", k.text, known, "the error text %q at %s has no entry in the catalog", k.text, k.pos)
	}
	c.need(nil, c.anchor(), "catalog", "English", english > 0, "no English dictionary is registered")
	fb := len(c.fall) == 0
	for _, e := range c.fall {
		for _, a := range e.Args {
			a.any(func(t *Term) bool {
				if s, ok := t.StrVal(); ok && strings.HasPrefix(s, "en") {
					fb = true
				}
				if t.op == OGlobal && strings.Contains(t.String(), "English") {
					fb = true
				}
				return false
			})
		}
	}
	// without a fallback option the catalog falls back to the undetermined
	// language, which has no messages
	c.need(nil, c.anchor(), "catalog", "fallback", fb && len(c.fall) > 0, "messages without a translation do not fall back to English")
	pub := false
	for g, t := range c.globals {
		if g.Object() != nil && g.Object().Exported() {
			for _, b := range c.built {
				pub = pub || t.contains(b.Res)
			}
		}
	}
	c.need(nil, c.anchor(), "catalog", "published", pub, "the catalog that is built is not stored in an exported variable")
	c.finish()
	r.AtLeast("message", 10)
	r.AtLeast("entry", 10)
	r.Notes = append(r.Notes, "dictionaries: "+strings.Join(c.tags(), ", "))
	r.Assume = append(r.Assume, "golang.org/x/text/message/catalog looks a message up by the registered dictionary's Lookup and decodes a message that starts with \\x02 as plain text")
}

func (c *c18) tags() []string {
	var out []string
	for _, d := range c.dicts {
		out = append(out, d.tag)
	}
	return out
}

func (c *c18) anchor() ssa.Instruction {
	for _, b := range c.built {
		return b.Instr
	}
	f := c.w.LocS.Func("init")
	return f.Blocks[0].Instrs[0]
}

type errText struct{ text, pos string }

// errorTexts are the constants of the error type in the package.
func (c *c18) errorTexts() []errText {
	seen := map[string]bool{}
	var out []errText
	add := func(v constant.Value, t types.Type, p token.Pos) {
		n, ok := t.(*types.Named)
		if !ok || v == nil || v.Kind() != constant.String || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "yunion.io/x/pkg/errors" || n.Obj().Name() != "Error" {
			return
		}
		if s := constant.StringVal(v); s != "" && !seen[s] {
			seen[s] = true
			out = append(out, errText{s, c.w.Pos(p)})
		}
	}
	info := c.w.MainP.TypesInfo
	for _, o := range info.Defs {
		if k, ok := o.(*types.Const); ok {
			add(k.Val(), k.Type(), k.Pos())
		}
	}
	for e, tv := range info.Types {
		if _, ok := e.(*ast.CallExpr); ok {
			add(tv.Value, tv.Type, e.Pos())
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].text < out[j].text })
	return out
}

// keys are the keys of the constant maps of the locales package.
func (c *c18) keys() map[string]bool {
	out := map[string]bool{}
	for _, m := range c.w.LocS.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		if t := c.w.table(g); t != nil && t.isMap() {
			for _, k := range t.keys {
				if k.Kind() == constant.String {
					out[constant.StringVal(k)] = true
				}
			}
		}
	}
	return out
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// collect interprets the initialisation of the locales package.
func (c *c18) collect() {
	for round := 0; round < 2; round++ {
		c.dicts, c.built, c.fall, c.evs = nil, nil, nil, nil
		for _, m := range c.inits() {
			p := NewPathRun(c.w)
			p.ts = c.ts
			p.Inline = func(x *Exec, cl *Call) bool {
				return cl.Fn != nil && cl.Fn.Pkg == c.w.LocS && cl.Fn.Name() != "init" && !strings.HasPrefix(cl.Fn.Name(), "init#")
			}
			p.Ret = func(x *Exec, args, res []*Term) { c.seen(x.Events) }
			p.Run(m)
		}
		// what the registered maps hold
		for _, b := range c.built {
			m := c.value(b.Args[0])
			for _, e := range c.evs {
				if e.Kind == "mapset" && c.value(e.Args[0]) == m {
					c.addDict(e)
				}
			}
		}
	}
}

func (c *c18) seen(evs []*Event) {
	c.evs = append(c.evs, evs...)
	for _, e := range evs {
		switch {
		case e.Kind == "store" && e.Args[0].op == OGlobal:
			if g, ok := e.Args[0].val.(*ssa.Global); ok {
				c.globals[g] = e.Args[1]
			}
		case e.Kind == "call" && strings.HasSuffix(e.Name, "catalog.NewFromMap") && len(e.Args) > 0:
			dup := false
			for _, b := range c.built {
				dup = dup || b.Res == e.Res
			}
			if !dup {
				c.built = append(c.built, e)
			}
		case e.Kind == "call" && strings.HasSuffix(e.Name, "catalog.Fallback"):
			c.fall = append(c.fall, e)
		}
	}
}

func (c *c18) inits() []*ssa.Function {
	out := []*ssa.Function{c.w.LocS.Func("init")}
	for _, fn := range c.w.allFns {
		if fn.Pkg == c.w.LocS && strings.HasPrefix(fn.Name(), "init#") {
			out = append(out, fn)
		}
	}
	return out
}

// value follows loads of variables that initialisation has set.
func (c *c18) value(t *Term) *Term {
	for i := 0; i < 8; i++ {
		var g *ssa.Global
		if t.op == OLoad && t.args[0].op == OGlobal {
			g, _ = t.args[0].val.(*ssa.Global)
		}
		if t.op == OGlobal && strings.HasPrefix(t.aux, "*") {
			g, _ = t.val.(*ssa.Global) // the value initialisation gave it
		}
		v := c.globals[g]
		if v == nil {
			break
		}
		t = v
	}
	return t
}

func (c *c18) addDict(e *Event) {
	tag, ok := e.Args[1].StrVal()
	if !ok {
		return
	}
	tag = strings.ReplaceAll(tag, "_", "-")
	for _, d := range c.dicts {
		if d.tag == tag {
			return
		}
	}
	v := c.value(e.Args[2])
	d := &c18dict{tag: tag, in: e.Instr}
	if v.op == OIface {
		d.typ = v.args[0].typ
		v = c.value(v.args[0])
	}
	if d.typ == nil {
		d.typ = v.typ
	}
	d.addr = v
	if st := structOf(v.typ); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			d.fields = append(d.fields, c.named(c.fieldOf(v, i)))
		}
	}
	c.dicts = append(c.dicts, d)
}

// named gives the value of a table variable its name back.
func (c *c18) named(t *Term) *Term {
	for g, v := range c.globals {
		if v == t && c.w.table(g) != nil {
			return c.ts.intern(&Term{op: OGlobal, aux: "*" + g.RelString(nil), typ: deref(g.Type()), val: g}, "v")
		}
	}
	return t
}

// fieldOf is what initialisation stored in a field of a dictionary.
func (c *c18) fieldOf(v *Term, i int) *Term {
	if v.op == OStruct && i < len(v.args) {
		return v.args[i]
	}
	var out *Term
	for _, e := range c.evs {
		if e.Kind != "store" {
			continue
		}
		a := e.Args[0]
		if a.op == OFieldAddr && a.num == i && a.args[0] == v {
			out = e.Args[1]
		}
		if a == v && e.Args[1].op == OStruct {
			out = e.Args[1].args[i]
		}
		if a == v && e.Args[1].op == OLoad {
			out = c.fieldOf(e.Args[1].args[0], i)
		}
	}
	return out
}

func (c *c18) lookupOf(d *c18dict) *ssa.Function {
	ms := c.w.Prog.MethodSets.MethodSet(d.typ)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "Lookup" {
			f := unwrapPromoted(c.w.Prog.MethodValue(ms.At(i)))
			if f != nil && f.Blocks != nil && len(f.Params) == 2 && f.Signature.Results().Len() == 2 {
				return f
			}
		}
	}
	return nil
}

type c18res struct {
	found int // 1 found, 0 not found, -1 unknown
	text  string
	why   string
}

// lookup evaluates Lookup for one key over the constant tables.
func (c *c18) lookup(fn *ssa.Function, d *c18dict, key string) c18res {
	out := c18res{found: -1, why: "no path returns"}
	n := 0
	p := NewPathRun(c.w)
	p.ts = c.ts
	p.Value = func(x *Exec, t *Term) *Term { return c.fold(x, t) }
	p.Begin = func(x *Exec, args []*Term) bool {
		if isPointer(args[0].typ) {
			for i, f := range d.fields {
				if f != nil {
					st := structOf(args[0].typ)
					x.Store(x.ts.Mk(OFieldAddr, types.NewPointer(st.Field(i).Type()), "", i, args[0]), f)
				}
			}
		} else if len(d.fields) > 0 {
			args[0] = x.ts.Mk(OStruct, args[0].typ, "", 0, d.fields...)
		} else {
			args[0] = d.addr
		}
		args[1] = x.ts.Const(constant.MakeString(key), args[1].typ)
		return true
	}
	p.Ret = func(x *Exec, args, res []*Term) {
		n++
		r := c18res{found: -1}
		ok, known := x.Eval(c.fold(x, res[1]))
		switch {
		case !known:
			r.why = "whether it is found depends on more than the tables"
		case !ok:
			r.found = 0
		default:
			s, k := c.text(x, res[0])
			if k {
				r.found, r.text = 1, s
			} else {
				r.why = "the text is not a part of the constant data"
			}
		}
		if n > 1 && (r.found != out.found || r.text != out.text) {
			r = c18res{found: -1, why: "it depends on more than the tables"}
		}
		out = r
	}
	p.Run(fn)
	c.r.Visit(fnName(fn))
	return out
}

func (c *c18) text(x *Exec, t *Term) (string, bool) {
	t = x.rep1(c.fold(x, t))
	if s, ok := t.StrVal(); ok {
		return s, true
	}
	switch t.op {
	case OSlice:
		s, ok := c.text(x, t.args[0])
		lo, ok1 := x.Lin(c.fold(x, t.args[1])).konst()
		hi, ok2 := x.Lin(c.fold(x, t.args[2])).konst()
		if ok && ok1 && ok2 && lo >= 0 && lo <= hi && hi <= int64(len(s)) {
			return s[lo:hi], true
		}
	case OBin:
		if t.aux == "+" {
			a, ok1 := c.text(x, t.args[0])
			b, ok2 := c.text(x, t.args[1])
			return a + b, ok1 && ok2
		}
	case OConv:
		return c.text(x, t.args[0])
	}
	return "", false
}

// fold replaces reads of constant tables at known places by what they hold.
func (c *c18) fold(x *Exec, t *Term) *Term {
	switch t.op {
	case OTuple:
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = a
			if a != nil {
				args[i] = c.fold(x, a)
			}
		}
		return x.ts.Mk(OTuple, nil, "", 0, args...)
	case OConv:
		if a := c.fold(x, t.args[0]); a != t.args[0] && a.op == OConst && isIntType(t.typ) {
			return x.ts.Const(a.k, t.typ)
		}
	case OLoad, OIndex, OLookup, OHas:
		if tab, key, has := c.w.tableRead(t); tab != nil {
			var k constant.Value
			if kt := x.rep1(key); kt.op == OConst {
				k = kt.k
			} else if isIntType(kt.typ) {
				if n, ok := x.Lin(kt).konst(); ok {
					k = constant.MakeInt64(n)
				}
			}
			if k == nil {
				break
			}
			v, in := tab.at(k)
			if has {
				return x.ts.Bool(in)
			}
			if v != nil {
				return x.ts.Const(v, t.typ)
			}
		}
	}
	return t
}

// tables judges the offset table of a dictionary that has one.
func (c *c18) tables(d *c18dict) {
	var idx *constTable
	data, has := "", false
	for _, f := range d.fields {
		if f == nil {
			continue
		}
		if s, ok := f.StrVal(); ok {
			data, has = s, true
		}
		if t := c.w.tableTerm(f); t != nil && !t.isMap() && isIntType(t.elem) {
			idx = t
		}
	}
	if idx == nil || !has {
		return
	}
	prev := int64(0)
	for i := int64(0); i < idx.n; i++ {
		v, _ := idx.at(constant.MakeInt64(i))
		n, _ := constant.Int64Val(v)
		ok := n >= prev && n <= int64(len(data)) && (n == int64(len(data)) || data[n:n+1] == msgMark)
		c.need(nil, d.in, "offset", d.tag, ok, "offset %d of the table is %#x: it does not ascend to the start of a message within the data", i, n)
		prev = n
	}
	c.need(nil, d.in, "offset", d.tag+" end", prev == int64(len(data)), "the last offset is %#x, the data has %#x bytes", prev, len(data))
}

// translations reads the catalog source of a language, if there is one.
func (c *c18) translations(tag string) map[string]string {
	b, err := os.ReadFile(filepath.Join(c.w.Dir, "locales", tag, "messages.gotext.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Messages []struct{ ID, Translation string }
	}
	if json.Unmarshal(b, &f) != nil {
		return nil
	}
	out := map[string]string{}
	for _, m := range f.Messages {
		out[m.ID] = m.Translation
	}
	return out
}

func isPointer(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// share admits the tables of the package that are handed around in variables
// and fields: they stay constant as long as nothing in the package writes an
// element of their type or hands one to a function outside.
func (c *c18) share() {
	written := func(t types.Type) bool {
		same := func(u types.Type) bool {
			if p, ok := u.Underlying().(*types.Pointer); ok {
				u = p.Elem()
			}
			return types.Identical(u.Underlying(), t.Underlying())
		}
		for _, fn := range c.w.allFns {
			if fn.Pkg != c.w.LocS || fn.Synthetic == "package initializer" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch v := in.(type) {
					case *ssa.Store:
						if ia, ok := v.Addr.(*ssa.IndexAddr); ok && same(ia.X.Type()) {
							return true
						}
					case *ssa.MapUpdate:
						if same(v.Map.Type()) {
							return true
						}
					case ssa.CallInstruction:
						if g := v.Common().StaticCallee(); g != nil && g.Pkg == c.w.LocS {
							continue
						}
						if bi, ok := v.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
							continue
						}
						for _, a := range v.Common().Args {
							if same(a.Type()) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	for _, m := range c.w.LocS.Members {
		g, ok := m.(*ssa.Global)
		if !ok || c.w.table(g) != nil {
			continue
		}
		if t := c.w.literalOf(g); t != nil && !written(t.typ) && c.onceSet(g) {
			tableMemo[g] = t
		}
	}
}

// onceSet: the variable itself is assigned by its initialisation only.
func (c *c18) onceSet(g *ssa.Global) bool {
	for _, fn := range c.w.allFns {
		if fn.Synthetic == "package initializer" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					return false
				}
			}
		}
	}
	return true
}
