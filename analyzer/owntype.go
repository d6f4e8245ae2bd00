package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Memory of a label has a type when its history is known; an operation on
// memory of another type cannot be about that label.

type anyMem struct{} // what an interface or a reflect.Value refers to

// pointee is the type of the memory a value of type t refers to (nil: none,
// any: unknown).
func pointee(t types.Type) (types.Type, bool) {
	if t == nil || isReflectValue(t) {
		return nil, true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem(), false
	case *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Struct, *types.Array:
		return t, false
	case *types.Interface:
		return nil, true
	}
	return nil, false
}

// partType is the type of the part f of memory of type t.
func partType(t types.Type, f string) types.Type {
	if f == "" {
		return t
	}
	for _, p := range strings.Split(f, "/") {
		if bt := bindTypes[p]; bt != nil {
			if _, ok := t.Underlying().(*types.Signature); !ok {
				return nil
			}
			t = bt
			continue
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			var ft types.Type
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == p {
					ft = u.Field(i).Type()
				}
			}
			if ft == nil {
				return nil
			}
			t = ft
		case *types.Slice:
			t = u.Elem()
		case *types.Array:
			t = u.Elem()
		case *types.Map:
			if p == "k" {
				t = u.Key()
			} else {
				t = u.Elem()
			}
		default:
			return nil
		}
	}
	return t
}

// memType gives the type of the memory of a label; known is false when the
// label may stand for memory of several types.
func (o *Own) memType(s *fnOwn, l *ownLab) (t types.Type, known bool) {
	switch l.kind {
	case labFresh:
		if l.glob == "reflect" || l.typ == nil {
			return nil, false
		}
		if isReflectValue(l.typ) || types.IsInterface(l.typ) {
			if _, ok := l.site.(*ssa.Alloc); !ok {
				return nil, false
			}
		}
		return l.typ, true
	case labGlobal:
		return nil, false
	}
	if l.star || l.par >= len(s.fn.Params) {
		return nil, false
	}
	var any bool
	if l.par < 0 {
		t = s.fn.Signature
	} else {
		t, any = pointee(s.fn.Params[l.par].Type())
	}
	if any || t == nil {
		return nil, false
	}
	for _, f := range l.path {
		ft := partType(t, f)
		if ft == nil {
			return nil, false
		}
		t, any = pointee(ft)
		if any || t == nil {
			return nil, false
		}
	}
	return t, true
}

// fits: the reference may be to memory of type t.
func (o *Own) fits(s *fnOwn, r ownRef, t types.Type) bool {
	mt, known := o.memType(s, r.l)
	if known {
		pt := partType(mt, r.f)
		if pt == nil {
			return r.f == "*" || strings.Contains(r.f, "*") || strings.HasPrefix(r.f, "@") || strings.HasPrefix(r.f, "b")
		}
		return sameMem(pt, t)
	}
	var root types.Type
	switch {
	case r.l.kind == labFresh:
		return o.reachable(nil, t)
	case r.l.kind == labGlobal:
		return o.reachable(o.globType(r.l.glob), t)
	case r.l.par >= 0 && r.l.par < len(s.fn.Params):
		root = s.fn.Params[r.l.par].Type()
		return o.reachable(root, t)
	}
	return true
}

func sameMem(a, b types.Type) bool {
	a, b = a.Underlying(), b.Underlying()
	if types.Identical(a, b) {
		return true
	}
	ea, eb := seqElem(a), seqElem(b)
	return ea != nil && eb != nil && types.Identical(ea.Underlying(), eb.Underlying())
}

func seqElem(t types.Type) types.Type {
	switch u := t.(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return nil
}

func (o *Own) globType(name string) types.Type {
	if t, ok := o.gtyp[name]; ok {
		return t
	}
	var out types.Type
	for _, p := range o.w.Prog.AllPackages() {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && g.RelString(nil) == name {
				out = g.Type()
			}
		}
	}
	o.gtyp[name] = out
	return out
}

// reachable: memory of type t may be found from a value of type root (nil: any
// value a caller can have).
func (o *Own) reachable(root, t types.Type) bool {
	key := "any"
	if root != nil {
		key = typeKey(root)
	}
	c := o.tclo[key]
	if c == nil {
		c = &typeClosure{seen: map[string]bool{}}
		c.visit(o, root)
		o.tclo[key] = c
	}
	if c.any && o.public(t) {
		return true
	}
	if c.seen[typeKey(t.Underlying())] {
		return true
	}
	if e := seqElem(t.Underlying()); e != nil {
		return c.seen["seq "+typeKey(e.Underlying())]
	}
	return false
}

type typeClosure struct {
	seen map[string]bool
	any  bool
}

func (c *typeClosure) visit(o *Own, t types.Type) {
	if t == nil || isReflectValue(t) {
		c.anyNode(o)
		c.any = true
		return
	}
	u := t.Underlying()
	k := typeKey(u)
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	switch v := u.(type) {
	case *types.Pointer:
		c.visit(o, v.Elem())
	case *types.Slice:
		c.seen["seq "+typeKey(v.Elem().Underlying())] = true
		c.visit(o, v.Elem())
	case *types.Array:
		c.seen["seq "+typeKey(v.Elem().Underlying())] = true
		c.visit(o, v.Elem())
	case *types.Map:
		c.visit(o, v.Key())
		c.visit(o, v.Elem())
	case *types.Struct:
		for i := 0; i < v.NumFields(); i++ {
			c.visit(o, v.Field(i).Type())
		}
	case *types.Interface:
		// a sorted map keeps nodes only
		if n := o.w.NodeIface(); n != nil && types.Identical(v, n) || v.NumMethods() == 0 && o.inSorted(c) {
			c.anyNode(o)
			return
		}
		c.anyNode(o)
		c.any = true
	}
}

// inSorted: the empty interface was reached as a value of the sorted map, which
// holds nodes (C03).
func (o *Own) inSorted(c *typeClosure) bool {
	return c.seen["sorted"]
}

func (c *typeClosure) anyNode(o *Own) {
	if c.seen["nodes"] {
		return
	}
	c.seen["nodes"] = true
	for _, n := range o.w.NodeTypes() {
		t := o.w.NamedType(n)
		c.seen[typeKey(t.Underlying())] = true
		st := structOf(t)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if e := seqElem(ft.Underlying()); e != nil {
				c.seen[typeKey(ft.Underlying())] = true
				c.seen["seq "+typeKey(e.Underlying())] = true
				c.seen[typeKey(e.Underlying())] = true
				continue
			}
			c.visit(o, ft)
		}
	}
}

// public: callers of the package can have memory of this type.
func (o *Own) public(t types.Type) bool {
	switch v := t.(type) {
	case *types.Named:
		obj := v.Obj()
		if obj.Pkg() == nil || obj.Exported() || !o.w.inMain[o.w.Prog.Package(obj.Pkg())] {
			return true
		}
		return false
	case *types.Pointer:
		return o.public(v.Elem())
	case *types.Slice:
		return o.public(v.Elem())
	case *types.Array:
		return o.public(v.Elem())
	case *types.Map:
		return o.public(v.Key()) && o.public(v.Elem())
	}
	return true
}

// only keeps the references that may be to memory of type t.
func (o *Own) only(s *fnOwn, rs refSet, t types.Type) refSet {
	out := refSet{}
	for r := range rs {
		if o.fits(s, r, t) {
			out[r] = true
		}
	}
	return out
}

// ofType keeps the references that a value of type t may be.
func (o *Own) ofType(s *fnOwn, rs refSet, t types.Type) refSet {
	if it, ok := t.Underlying().(*types.Interface); ok {
		if it.NumMethods() == 0 {
			return rs
		}
		out := refSet{}
		for r := range rs {
			mt, known := o.memType(s, r.l)
			if known {
				mt = partType(mt, r.f)
			}
			if mt == nil || types.Implements(mt, it) || types.Implements(types.NewPointer(mt), it) {
				out[r] = true
			}
		}
		return out
	}
	pt, any := pointee(t)
	if any || pt == nil {
		return rs
	}
	return o.only(s, rs, pt)
}
