package main

import (
	"go/ast"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// constTable is a package variable whose composite literal holds constants only
// and which nothing changes afterwards.
type constTable struct {
	typ  types.Type
	elem types.Type
	n    int64 // number of elements of an array or slice
	m    map[string]constant.Value
	keys []constant.Value
}

func (t *constTable) isMap() bool {
	_, ok := t.typ.Underlying().(*types.Map)
	return ok
}

func zeroConst(t types.Type) constant.Value {
	switch {
	case isStringType(t):
		return constant.MakeString("")
	case isIntType(t):
		return constant.MakeInt64(0)
	case isBoolType(t):
		return constant.MakeBool(false)
	}
	return nil
}

// at is the value under a key, and whether the key is present.
func (t *constTable) at(k constant.Value) (constant.Value, bool) {
	if v, ok := t.m[k.ExactString()]; ok {
		return v, true
	}
	if !t.isMap() {
		if n, ok := constant.Int64Val(k); !ok || n < 0 || n >= t.n {
			return nil, false
		}
		return zeroConst(t.elem), true
	}
	return zeroConst(t.elem), false
}

var tableMemo = map[*ssa.Global]*constTable{}

// table is the constant table behind a global, or nil.
func (w *World) table(g *ssa.Global) *constTable {
	if t, ok := tableMemo[g]; ok {
		return t
	}
	tableMemo[g] = nil
	if t := w.literalOf(g); t != nil && w.neverChanged(g) {
		tableMemo[g] = t
	}
	return tableMemo[g]
}

// literalOf is the table a global is initialised with.
func (w *World) literalOf(g *ssa.Global) *constTable {
	obj, ok := g.Object().(*types.Var)
	if !ok {
		return nil
	}
	for _, p := range w.Pkgs {
		if p.Types != obj.Pkg() {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok {
					continue
				}
				for _, s := range gd.Specs {
					vs, ok := s.(*ast.ValueSpec)
					if !ok || len(vs.Values) != len(vs.Names) {
						continue
					}
					for i, nm := range vs.Names {
						if p.TypesInfo.Defs[nm] == obj {
							return literalTable(p.TypesInfo, vs.Values[i], obj.Type())
						}
					}
				}
			}
		}
	}
	return nil
}

func literalTable(info *types.Info, e ast.Expr, typ types.Type) *constTable {
	cl, ok := ast.Unparen(e).(*ast.CompositeLit)
	if !ok {
		return nil
	}
	t := &constTable{typ: typ, m: map[string]constant.Value{}}
	switch u := typ.Underlying().(type) {
	case *types.Array:
		t.elem, t.n = u.Elem(), u.Len()
	case *types.Slice:
		t.elem = u.Elem()
	case *types.Map:
		t.elem = u.Elem()
	default:
		return nil
	}
	next := int64(0)
	for _, el := range cl.Elts {
		var k constant.Value
		v := el
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			k = info.Types[kv.Key].Value
			v = kv.Value
			if k == nil {
				return nil
			}
		} else {
			k = constant.MakeInt64(next)
		}
		val := info.Types[v].Value
		if val == nil {
			return nil
		}
		if k.Kind() == constant.Float || k.Kind() == constant.Int {
			k = constant.ToInt(k)
		}
		if isIntType(t.elem) {
			val = constant.ToInt(val)
		}
		t.m[k.ExactString()] = val
		t.keys = append(t.keys, k)
		if !t.isMap() {
			n, _ := constant.Int64Val(k)
			next = n + 1
			if next > t.n {
				t.n = next
			}
		}
	}
	return t
}

// neverChanged: outside its initialisation the variable and what it holds are
// only read.
func (w *World) neverChanged(g *ssa.Global) bool {
	var reads func(v ssa.Value) bool
	reads = func(v ssa.Value) bool {
		refs := v.Referrers()
		if refs == nil {
			return true
		}
		for _, r := range *refs {
			switch t := r.(type) {
			case *ssa.UnOp, *ssa.Lookup, *ssa.Range, *ssa.DebugRef, *ssa.Field, *ssa.Index:
			case *ssa.IndexAddr:
				if !reads(t) {
					return false
				}
			case *ssa.Slice:
				if !reads(t) {
					return false
				}
			case *ssa.Call:
				if b, ok := t.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	for _, fn := range w.allFns {
		if fn.Synthetic == "package initializer" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch t := in.(type) {
					case *ssa.UnOp:
						if !reads(t) {
							return false
						}
					case *ssa.IndexAddr:
						if !reads(t) {
							return false
						}
					case *ssa.DebugRef:
					default:
						return false
					}
				}
			}
		}
	}
	return true
}

// tableTerm: the term is (the address or the value of) a constant table.
func (w *World) tableTerm(t *Term) *constTable {
	for t.op == OLoad || t.op == OSlice {
		t = t.args[0]
	}
	if t.op == OGlobal {
		if g, ok := t.val.(*ssa.Global); ok {
			return w.table(g)
		}
	}
	return nil
}

// tableRead: the term reads one element of a constant table; has tells that it
// asks for the presence of the key.
func (w *World) tableRead(t *Term) (tab *constTable, key *Term, has bool) {
	switch t.op {
	case OLoad:
		if a := t.args[0]; a.op == OIndexAddr {
			if tab = w.tableTerm(a.args[0]); tab != nil {
				return tab, a.args[1], false
			}
		}
	case OIndex:
		if t.args[0].op != OConst {
			if tab = w.tableTerm(t.args[0]); tab != nil {
				return tab, t.args[1], false
			}
		}
	case OLookup, OHas:
		if tab = w.tableTerm(t.args[0]); tab != nil {
			return tab, t.args[1], t.op == OHas
		}
	}
	return nil, nil, false
}

var elemsMemo = map[*ssa.Global][]types.Type{}

// tableElems are the dynamic types of what a table of interfaces holds, when it
// is a package variable that its initialisation alone fills; nil when unknown.
func (w *World) tableElems(t *Term) []types.Type {
	for t.op == OLoad {
		t = t.args[0]
	}
	g, ok := t.val.(*ssa.Global)
	if t.op != OGlobal || !ok {
		return nil
	}
	if ts, ok := elemsMemo[g]; ok {
		return ts
	}
	elemsMemo[g] = nil
	mt, ok := deref(g.Type()).Underlying().(*types.Map)
	if !ok || !types.IsInterface(mt.Elem()) || g.Pkg == nil || !w.neverChanged(g) {
		return nil
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	var made *ssa.MakeMap
	var out []types.Type
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.Store:
				if t.Addr == ssa.Value(g) {
					m, ok := t.Val.(*ssa.MakeMap)
					if !ok || made != nil {
						return nil
					}
					made = m
				}
			case *ssa.UnOp:
				if t.X == ssa.Value(g) {
					return nil
				}
			}
		}
	}
	if made == nil {
		return nil
	}
	for _, r := range *made.Referrers() {
		switch t := r.(type) {
		case *ssa.Store, *ssa.DebugRef:
		case *ssa.MapUpdate:
			mi, ok := t.Value.(*ssa.MakeInterface)
			if !ok || t.Map != ssa.Value(made) {
				return nil
			}
			out = append(out, mi.X.Type())
		default:
			return nil
		}
	}
	elemsMemo[g] = out
	return out
}
