package main

import (
	"go/constant"
	"go/types"
	"strings"
)

// rep1 replaces a term by the constant it is known to equal.
func (x *Exec) rep1(t *Term) *Term {
	if c, ok := x.eqc[t]; ok {
		return c
	}
	return t
}

func constLike(t *Term) bool {
	switch t.op {
	case OConst, ONil, ORType, OGlobal, OFunc:
		return true
	}
	return false
}

// Domain gives the current finite domain of a finite-typed term.
func (x *Exec) Domain(t *Term) (Set, bool) {
	full, fin := finiteFull(t)
	if !fin {
		return Set{}, false
	}
	if c, ok := x.rep1(t).IntVal(); ok && c >= 0 && c < 256 {
		var s Set
		s.Add(int(c))
		return s, true
	}
	if t.op == OConst {
		return Set{}, false
	}
	if t.op == OCall && t.aux == "kind" {
		full = full.And(x.kindBase(t.args[0]))
	}
	if s, ok := x.dom[t]; ok {
		full = full.And(s)
	}
	if t.op == OCall && t.aux == "kind" {
		if rt := x.rep1(t.args[0]); rt.op == ORType {
			var s Set
			s.Add(kindOfType(rt.t2))
			return s, true
		}
	}
	if v := finiteVar(t); v != nil && v != t {
		vs, ok := x.Domain(v)
		if ok {
			var im Set
			for i := 0; i < 256; i++ {
				if vs.Has(i) {
					c, ok := evalAt(t, v, int64(i))
					if !ok {
						return full, true
					}
					n, _ := constant.Int64Val(c)
					if n < 0 || n > 255 {
						return full, true
					}
					im.Add(int(n))
				}
			}
			return im.And(full), true
		}
	}
	return full, true
}

// knownNil: 1 nil, 0 non-nil, -1 unknown.
func (x *Exec) knownNil(t *Term) int {
	t = nilBase(t)
	switch t.op {
	case ONil:
		return 1
	case OAlloc, OFieldAddr, OIndexAddr, OIface, OFunc, OClosure, OMake, OGlobal, OStruct, ORType:
		return 0
	case OConst:
		return 0
	case OCall:
		if nonNilCalls[t.aux] || strings.HasPrefix(t.aux, "typ") {
			return 0
		}
		if t.aux == "yunion.io/x/pkg/errors.NewAggregate" {
			n := x.Lin(x.LenOf(t.args[0]))
			if x.Entails(n.plus(-1)) {
				return 0
			}
			if x.Entails(n.neg()) {
				return 1
			}
		}
	}
	if v, ok := x.nilf[t]; ok {
		if v {
			return 1
		}
		return 0
	}
	if _, ok := x.dyn[t]; ok {
		return 0
	}
	if c, ok := x.eqc[t]; ok && c != t {
		return x.knownNil(c)
	}
	if t.op == OCall && t.aux == "rv.Interface" && len(t.args) > 0 {
		// nil only for a nil interface
		if !x.KindOf(t.args[0]).Has(kInterface) {
			return 0
		}
		if v, k := x.Eval(x.rvIsNil(t.args[0])); k && !v {
			return 0
		}
	}
	return -1
}

// nonNilCalls are functions whose (pointer or interface) result is never nil.
var nonNilCalls = map[string]bool{
	"errors.New": true, "fmt.Errorf": true, "yunion.io/x/pkg/errors.New": true, "yunion.io/x/pkg/errors.Errorf": true,
}

// nilBase strips wrappers that are nil exactly when their argument is.
func nilBase(t *Term) *Term {
	for {
		switch {
		case t.op == OCall && (t.aux == "yunion.io/x/pkg/errors.Wrap" || t.aux == "yunion.io/x/pkg/errors.Wrapf") && len(t.args) > 0:
			t = t.args[0]
		default:
			return t
		}
	}
}

func (x *Exec) setNil(t *Term, v bool) bool {
	t = nilBase(t)
	switch x.knownNil(t) {
	case 1:
		return v
	case 0:
		return !v
	}
	setMap(x, x.nilf, t, v)
	if v && t.typ != nil {
		if _, ok := t.typ.Underlying().(*types.Slice); ok {
			return x.assumeEq(x.Lin(x.LenOf(t)))
		}
	}
	return true
}

// Lin gives the linear form of an integer term.
func (x *Exec) Lin(t *Term) Lin {
	t = x.rep1(t)
	if n, ok := t.IntVal(); ok && n > -linBig && n < linBig {
		return linConst(n)
	}
	switch t.op {
	case OBin:
		if w, signed := intWidth(t.typ); w == 64 && signed {
			switch t.aux {
			case "+":
				return x.Lin(t.args[0]).add(x.Lin(t.args[1]))
			case "-":
				return x.Lin(t.args[0]).sub(x.Lin(t.args[1]))
			case "*":
				for i := 0; i < 2; i++ {
					if n, ok := x.rep1(t.args[i]).IntVal(); ok && n > -1000 && n < 1000 {
						r, ok := Lin{}.addScaled(x.Lin(t.args[1-i]), n)
						if ok {
							return r
						}
					}
				}
			}
		}
	case OUn:
		if t.aux == "-" {
			if w, s := intWidth(t.typ); w == 64 && s {
				return x.Lin(t.args[0]).neg()
			}
		}
	case OConv:
		if isIntType(t.typ) && t.args[0].typ != nil && isIntType(t.args[0].typ) && widens(t.args[0].typ, t.typ) {
			return x.Lin(t.args[0])
		}
	case OLen:
		return x.linLen(t.args[0], t)
	}
	return linVar(t)
}

func (x *Exec) linLen(v, lt *Term) Lin {
	switch v.op {
	case OSlice:
		return x.Lin(v.args[2]).sub(x.Lin(v.args[1]))
	case OAppend:
		return x.Lin(x.LenOf(v.args[0])).add(x.Lin(x.LenOf(v.args[1])))
	case OConst, ONil, OMake:
		return x.Lin(x.LenOf(v))
	case OVar:
		return linConst(int64(len(v.args)))
	case OBin:
		if v.aux == "+" && isStringType(v.typ) {
			return x.Lin(x.LenOf(v.args[0])).add(x.Lin(x.LenOf(v.args[1])))
		}
	case OConv:
		if strBytes(v.typ, v.args[0].typ) {
			return x.Lin(x.LenOf(v.args[0]))
		}
	}
	if c, ok := x.eqc[v]; ok && c.op == OConst {
		return x.Lin(x.LenOf(c))
	}
	return linVar(lt)
}

// implicit bounds of a variable.
func (x *Exec) implicit(t *Term, out []Lin) []Lin {
	switch t.op {
	case OLen, OCap:
		out = append(out, linVar(t))
	}
	if s, ok := x.Domain(t); ok {
		lo, hi := s.Bounds()
		if lo >= 0 {
			out = append(out, linVar(t).plus(-int64(lo)), linVar(t).neg().plus(int64(hi)))
		}
		return out
	}
	if t.typ != nil && isIntType(t.typ) {
		if w, signed := intWidth(t.typ); !signed && w > 0 {
			out = append(out, linVar(t))
		}
	}
	return out
}

// relevant collects facts connected to a goal.
func (x *Exec) relevant(goal Lin) []Lin {
	vars := map[*Term]bool{}
	var out []Lin
	var addVar func(t *Term)
	addVar = func(t *Term) {
		if vars[t] {
			return
		}
		vars[t] = true
		out = x.implicit(t, out)
	}
	for _, v := range goal.v {
		addVar(v.t)
	}
	// facts are stored before later equalities were known: re-normalise
	facts := make([]Lin, len(x.lin))
	for i, f := range x.lin {
		facts[i] = x.relin(f)
	}
	used := make([]bool, len(facts))
	for changed := true; changed; {
		changed = false
		for i, f := range facts {
			if used[i] {
				continue
			}
			hit := len(f.v) == 0
			for _, v := range f.v {
				if vars[v.t] {
					hit = true
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, f)
				for _, v := range f.v {
					addVar(v.t)
				}
			}
		}
	}
	return out
}

// relin rewrites variables that are now known to be constant.
func (x *Exec) relin(l Lin) Lin {
	hit := false
	for _, v := range l.v {
		if c, ok := x.eqc[v.t]; ok && c.op == OConst {
			hit = true
		}
		if v.t.op == OLen {
			if c, ok := x.eqc[v.t.args[0]]; ok && c.op == OConst {
				hit = true
			}
		}
	}
	if !hit {
		return l
	}
	r := Lin{c: l.c}
	for _, v := range l.v {
		r, _ = r.addScaled(x.Lin(v.t), v.k)
	}
	return r
}

// Entails reports whether the facts imply l >= 0.
func (x *Exec) Entails(l Lin) bool {
	l = x.relin(l)
	if len(l.v) == 0 {
		return l.c >= 0
	}
	cs := x.relevant(l)
	cs = append(cs, l.neg().plus(-1))
	return fmInfeasible(cs)
}

// consistent checks the facts connected to l.
func (x *Exec) consistent(l Lin) bool {
	if len(l.v) == 0 {
		return l.c >= 0
	}
	return !fmInfeasible(append(x.relevant(l), l))
}

func (x *Exec) assumeGe(l Lin) bool {
	l = x.relin(l)
	if len(l.v) == 0 {
		return l.c >= 0
	}
	if !x.consistent(l) {
		return false
	}
	x.addLin(l)
	return true
}

func (x *Exec) assumeEq(l Lin) bool { return x.assumeGe(l) && x.assumeGe(l.neg()) }

// Eval decides a boolean term if the facts do.
func (x *Exec) Eval(c *Term) (val, known bool) {
	if b, ok := c.BoolVal(); ok {
		return b, true
	}
	if v, ok := x.truth[c]; ok {
		return v, true
	}
	if cc, ok := x.eqc[c]; ok {
		if b, ok := cc.BoolVal(); ok {
			return b, true
		}
	}
	switch c.op {
	case OUn:
		if c.aux == "!" {
			v, k := x.Eval(c.args[0])
			return !v, k
		}
	case OBin:
		return x.evalCmp(c)
	case OIsType:
		v := c.args[0]
		if d, ok := x.dyn[v]; ok {
			if it, ok := c.t2.Underlying().(*types.Interface); ok {
				return types.Implements(d, it), true
			}
			return types.Identical(d, c.t2), true
		}
		if x.knownNil(v) == 1 {
			return false, true
		}
		for _, n := range x.ndyn[v] {
			if types.Identical(n, c.t2) {
				return false, true
			}
		}
		if cc, ok := x.eqc[v]; ok {
			if cc.op == OGlobal || cc.op == OIface {
				return x.Eval(x.isType(cc, c.t2))
			}
		}
	}
	return false, false
}

func (x *Exec) evalCmp(c *Term) (bool, bool) {
	a, b := c.args[0], c.args[1]
	if fv := finiteVar(c); fv != nil {
		if s, ok := x.Domain(fv); ok {
			t, f := x.splitFinite(c, fv, s)
			if t.Empty() && !f.Empty() {
				return false, true
			}
			if f.Empty() && !t.Empty() {
				return true, true
			}
			if !t.Empty() || !f.Empty() {
				return false, false
			}
		}
	}
	switch c.aux {
	case "==":
		if isIntType(a.typ) || isIntType(b.typ) {
			d := x.Lin(a).sub(x.Lin(b))
			if len(d.v) == 0 {
				return d.c == 0, true
			}
			if x.Entails(d) && x.Entails(d.neg()) {
				return true, true
			}
			if x.Entails(d.plus(-1)) || x.Entails(d.neg().plus(-1)) {
				return false, true
			}
			return false, false
		}
		return x.evalEq(a, b)
	case "<":
		if isIntType(a.typ) {
			d := x.Lin(b).sub(x.Lin(a)).plus(-1)
			if x.Entails(d) {
				return true, true
			}
			if x.Entails(d.neg().plus(-1)) {
				return false, true
			}
		}
	case "<=":
		if isIntType(a.typ) {
			d := x.Lin(b).sub(x.Lin(a))
			if x.Entails(d) {
				return true, true
			}
			if x.Entails(d.neg().plus(-1)) {
				return false, true
			}
		}
	}
	return false, false
}

func (x *Exec) evalEq(a, b *Term) (bool, bool) {
	if a.op == ONil || b.op == ONil {
		o := a
		if a.op == ONil {
			o = b
		}
		switch x.knownNil(o) {
		case 1:
			return true, true
		case 0:
			return false, true
		}
		return false, false
	}
	ra, rb := x.rep1(a), x.rep1(b)
	if ra == rb && !isFloatType(ra.typ) {
		return true, true
	}
	if constLike(ra) && constLike(rb) {
		if ra.op == OConst && rb.op == OConst {
			if ra.k.Kind() == rb.k.Kind() {
				return constant.Compare(ra.k, binTok["=="], rb.k), true
			}
			return false, false
		}
		if ra.op == ORType && rb.op == ORType {
			return types.Identical(ra.t2, rb.t2), true
		}
		if ra.op == rb.op && (ra.op == OGlobal || ra.op == OFunc) {
			return ra == rb, true
		}
		return false, ra.op != rb.op && ra.op != OConst && rb.op != OConst
	}
	for _, p := range [][2]*Term{{ra, rb}, {rb, ra}} {
		for _, n := range x.nec[p[0]] {
			if n == p[1] || n.op == ORType && p[1].op == ORType && types.Identical(n.t2, p[1].t2) {
				return false, true
			}
		}
		// a fresh object differs from everything that existed before
		if p[0].op == OAlloc && (p[1].op == OParam || p[1].op == OGlobal || p[1].op == OAlloc) {
			return false, true
		}
	}
	// types of different kinds differ
	for _, p := range [][2]*Term{{ra, rb}, {rb, ra}} {
		if p[1].op == ORType {
			kt := x.kindTerm(p[0])
			if s, ok := x.Domain(kt); ok && !s.Has(kindOfType(p[1].t2)) {
				return false, true
			}
			if p[0].op == OCall && p[0].aux == "typ.PtrTo" {
				if pt, ok := p[1].t2.Underlying().(*types.Pointer); ok {
					return x.evalEq(p[0].args[0], x.ts.RType(pt.Elem()))
				}
				return false, true
			}
		}
	}
	// strings of different length
	if isStringType(ra.typ) {
		d := x.Lin(x.LenOf(ra)).sub(x.Lin(x.LenOf(rb)))
		if x.Entails(d.plus(-1)) || x.Entails(d.neg().plus(-1)) {
			return false, true
		}
	}
	// interfaces holding different static types
	if ra.op == OIface && rb.op == OIface && !types.Identical(ra.t2, rb.t2) {
		return false, true
	}
	return false, false
}

func (x *Exec) splitFinite(c, fv *Term, s Set) (t, f Set) {
	for i := 0; i < 256; i++ {
		if !s.Has(i) {
			continue
		}
		r, ok := evalAt(c, fv, int64(i))
		if !ok || r.Kind() != constant.Bool {
			return s, s
		}
		if constant.BoolVal(r) {
			t.Add(i)
		} else {
			f.Add(i)
		}
	}
	return
}

// Assume adds a fact; false means the path is infeasible.
func (x *Exec) Assume(c *Term, v bool) bool {
	if b, known := x.Eval(c); known {
		return b == v
	}
	switch c.op {
	case OUn:
		if c.aux == "!" {
			return x.Assume(c.args[0], !v)
		}
	case OIsType:
		o := c.args[0]
		setMap(x, x.truth, c, v)
		if v {
			if !types.IsInterface(c.t2) {
				for _, n := range x.ndyn[o] {
					if types.Identical(n, c.t2) {
						return false
					}
				}
				setMap(x, x.dyn, o, c.t2)
			}
			return x.setNil(o, false)
		}
		if !types.IsInterface(c.t2) {
			setMap(x, x.ndyn, o, append(append([]types.Type{}, x.ndyn[o]...), c.t2))
		}
		return true
	case OBin:
		return x.assumeCmp(c, v)
	}
	setMap(x, x.truth, c, v)
	return x.derive(c, v)
}

// derive adds consequences of an opaque predicate.
func (x *Exec) derive(c *Term, v bool) bool {
	if l, ok := x.impl[c]; ok && v {
		return x.assumeGe(l)
	}
	if c.op == OCall {
		switch c.aux {
		case "strings.HasPrefix", "strings.HasSuffix", "bytes.HasPrefix", "bytes.HasSuffix":
			if v {
				if !x.assumeGe(x.Lin(x.LenOf(c.args[0])).sub(x.Lin(x.LenOf(c.args[1])))) {
					return false
				}
				return x.affixed(c)
			}
		}
	}
	return true
}

// affixed: a string that begins or ends with a known text has its first or last
// byte.
func (x *Exec) affixed(c *Term) bool {
	p, ok := c.args[1].StrVal()
	if s := c.args[0]; ok && len(p) > 0 && isStringType(s.typ) {
		i, b := x.ts.Int(0), p[0]
		if c.aux == "strings.HasSuffix" {
			i, b = x.Bin("-", x.LenOf(s), x.ts.Int(1), types.Typ[types.Int]), p[len(p)-1]
		}
		bt := types.Typ[types.Uint8]
		return x.Assume(x.Bin("==", x.index(s, i, bt), x.ts.Const(constant.MakeInt64(int64(b)), bt), types.Typ[types.Bool]), true)
	}
	return true
}

func (x *Exec) assumeCmp(c *Term, v bool) bool {
	a, b := c.args[0], c.args[1]
	if fv := finiteVar(c); fv != nil {
		if s, ok := x.Domain(fv); ok {
			t, f := x.splitFinite(c, fv, s)
			if !v {
				t = f
			}
			if t.Empty() {
				return false
			}
			setMap(x, x.dom, fv, t)
			return true
		}
	}
	switch c.aux {
	case "==":
		if isIntType(a.typ) {
			d := x.Lin(a).sub(x.Lin(b))
			if v {
				for _, p := range [][2]*Term{{a, b}, {b, a}} {
					if p[1].op == OConst && p[0].op != OConst {
						if !x.assumeEq(d) {
							return false
						}
						setMap(x, x.eqc, p[0], p[1])
						return true
					}
				}
				if !x.assumeEq(d) {
					return false
				}
				setMap(x, x.truth, c, true)
				return true
			}
			setMap(x, x.truth, c, false)
			if x.Entails(d) {
				return x.assumeGe(d.plus(-1))
			}
			if x.Entails(d.neg()) {
				return x.assumeGe(d.neg().plus(-1))
			}
			return true
		}
		return x.assumeEqual(c, a, b, v)
	case "<":
		if isIntType(a.typ) {
			d := x.Lin(b).sub(x.Lin(a)).plus(-1)
			if v {
				return x.assumeGe(d)
			}
			return x.assumeGe(d.neg().plus(-1))
		}
	case "<=":
		if isIntType(a.typ) {
			d := x.Lin(b).sub(x.Lin(a))
			if v {
				return x.assumeGe(d)
			}
			return x.assumeGe(d.neg().plus(-1))
		}
	}
	setMap(x, x.truth, c, v)
	return true
}

func (x *Exec) assumeEqual(c, a, b *Term, v bool) bool {
	if a.op == ONil || b.op == ONil {
		o := a
		if a.op == ONil {
			o = b
		}
		setMap(x, x.truth, c, v)
		return x.setNil(o, v)
	}
	if constLike(a) && !constLike(b) {
		a, b = b, a
	}
	setMap(x, x.truth, c, v)
	if constLike(b) {
		if v {
			if isStringType(a.typ) {
				if !x.assumeEq(x.Lin(x.LenOf(a)).sub(x.Lin(x.LenOf(b)))) {
					return false
				}
			}
			if b.op == ORType {
				k := x.kindTerm(a)
				if s, ok := x.Domain(k); ok && !s.Has(kindOfType(b.t2)) {
					return false
				}
			}
			setMap(x, x.eqc, a, b)
			if b.op == OGlobal || b.op == OFunc {
				return x.setNil(a, false)
			}
			return true
		}
		setMap(x, x.nec, a, append(append([]*Term{}, x.nec[a]...), b))
		if s, ok := b.StrVal(); ok && s == "" {
			return x.assumeGe(x.Lin(x.LenOf(a)).plus(-1))
		}
		return true
	}
	if v && isStringType(a.typ) {
		return x.assumeEq(x.Lin(x.LenOf(a)).sub(x.Lin(x.LenOf(b))))
	}
	if v {
		switch x.knownNil(a) {
		case 0:
			return x.setNil(b, false)
		case 1:
			return x.setNil(b, true)
		}
		switch x.knownNil(b) {
		case 0:
			return x.setNil(a, false)
		case 1:
			return x.setNil(a, true)
		}
	}
	return true
}
