package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C06"] = check{explainC06, runC06}
	checks["C07"] = check{explainC07, runC07}
	checks["C08"] = check{explainC08, runC08}
}

const ownAnalysis = "A compositional points-to and effect analysis summarised every function of the package, of sortedmap and of the other library packages read from source, over symbolic memory (reachable from each argument by access path, from each package variable, allocated at each site), to a fixpoint over all calls, interface dispatches, closures, sort callbacks and reflection. "

const explainC06 = ownAnalysis + "For every exported function and method, each write that the fixpoint attributes to memory that existed before the call must be to memory of the receiver of one of the seven modifying operations, or of the destination argument of an unmarshalling operation; nothing may be written that a package variable refers to. The one write the abstraction cannot attribute (a node id given to the dict of a traced pointer) is instead followed along all paths and must know that the pointer was referred to from inside its own marshalling."

const explainC07 = ownAnalysis + "For every exported function and method, no write may be to a payload field of a scalar node that existed before the call, nor to a package variable or anything it refers to. Each package variable is enumerated together with the functions that write it."

const explainC08 = ownAnalysis + "For every exported function and method: a returned slice or map is memory allocated by the call and not kept by any node; what Interface and the deep copy return reaches no memory that existed before; the storage put into an array or dict node was allocated by the call or belonged to that node already, so that no two nodes and no caller's slice share storage; the storage of two results of one call is different."

// ownWorld is the fixpoint and the API surface.
type ownWorld struct {
	*Own
	r     *Rep
	roots []*ssa.Function
}

func newOwnWorld(w *World, r *Rep) *ownWorld {
	var roots []*ssa.Function
	nodes := map[string]bool{}
	for _, n := range w.NodeTypes() {
		nodes[n] = true
	}
	for _, f := range w.ExportedFuncs() {
		if n := recvNamed(f); n != nil && !n.Obj().Exported() && !nodes[n.Obj().Name()] {
			continue
		}
		roots = append(roots, f)
	}
	o := &ownWorld{NewOwn(w, roots), r, roots}
	for f := range o.fns {
		r.Visit(fnName(f))
	}
	r.Assume = append(r.Assume,
		"custom encoders and decoders of callers, sort and map library functions and the logger do not modify the nodes they are given",
		"one call's arguments are not modified through what the call itself stored into another argument",
		"memory that reflection stores into a destination is not modified through the destination later in the same call")
	return o
}

func (o *ownWorld) sortedWrites(f *ssa.Function) []*ownWrite {
	s := o.fns[f]
	var l []*ownWrite
	for _, w := range s.writes {
		l = append(l, w)
	}
	sort.Slice(l, func(i, j int) bool {
		a, b := l[i], l[j]
		if a.key != b.key {
			return a.key < b.key
		}
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		return fmt.Sprint(a.r.l, a.r.f) < fmt.Sprint(b.r.l, b.r.f)
	})
	return l
}

var mutators = map[string]bool{"Set": true, "Add": true, "SetAt": true, "Remove": true, "RemoveIgnoreCase": true, "Update": true, "UpdateDefault": true}

// destination: the parameter is where the function is asked to store its result.
func destination(f *ssa.Function, i int) bool {
	if i < 0 || i >= len(f.Params) {
		return false
	}
	t := f.Params[i].Type()
	it, isIface := t.Underlying().(*types.Interface)
	if !(isIface && it.NumMethods() == 0 || isReflectValue(t)) {
		return false
	}
	if f.Signature.Recv() != nil && i == 0 {
		return false
	}
	if strings.Contains(f.Name(), "Unmarshal") {
		return true
	}
	return f.Signature.Recv() == nil && f.Name() == "Update" && i == 0
}

func (o *ownWorld) argName(f *ssa.Function, l *ownLab) string {
	switch {
	case l.kind == labGlobal:
		return "package variable " + l.glob
	case l.par < 0 || l.par >= len(f.Params):
		return l.String()
	case l.par == 0 && f.Signature.Recv() != nil:
		return "receiver"
	}
	return "argument " + f.Params[l.par].Name()
}

func runC06(w *World, r *Rep) {
	o := newOwnWorld(w, r)
	for _, f := range o.roots {
		bad := false
		n := recvNamed(f)
		mut := n != nil && mutators[f.Name()] && o.isNode(n)
		for _, wr := range o.sortedWrites(f) {
			switch {
			case wr.r.l.kind == labParam && wr.r.l.par == 0 && mut:
				r.Sample("modified", "%s changes %s%s at %s", fnName(f), wr.r.l, dot(wr.r.f), wr.pos)
				r.OK("modifier writes its receiver")
				continue
			case wr.r.l.kind == labParam && destination(f, wr.r.l.par):
				r.OK("destination written")
				continue
			}
			bad = true
			via := ""
			if wr.via != "" {
				via = " (called at " + wr.via + ")"
			}
			r.Bad("input modified", fnName(f), wr.fn+" "+wr.key, wr.pos, "%s%s of %s may be written in %s%s", wr.r.l, dot(wr.r.f), o.argName(f, wr.r.l), wr.fn, via)
		}
		if !bad {
			r.OK("no input modified")
		}
	}
	o.numberedGuards()
	r.AtLeast("no input modified", 50)
	r.AtLeast("modifier writes its receiver", 5)
	r.AtLeast("destination written", 2)
}

func dot(f string) string {
	if f == "" {
		return ""
	}
	return "." + f
}

func (o *ownWorld) isNode(n *types.Named) bool {
	it := o.w.NodeIface()
	return it != nil && types.Implements(types.NewPointer(n), it)
}

// idField is the node id of a dict: its integer field.
func idField(w *World) (owner types.Type, field int) {
	for _, n := range w.NodeTypes() {
		t := w.NamedType(n)
		st := structOf(t)
		cont := -1
		id := -1
		for i := 0; st != nil && i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if seqElem(ft.Underlying()) != nil {
				cont = i
			} else if isIntType(ft) {
				id = i
			}
		}
		if cont >= 0 && id >= 0 {
			return t, id
		}
	}
	return nil, -1
}

// tracedNode: the value is the node that a pointer node keeps.
func (o *Own) tracedNode(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch t := v.(type) {
	case *ssa.TypeAssert:
		return o.tracedNode(t.X, d+1)
	case *ssa.Extract:
		return o.tracedNode(t.Tuple, d+1)
	case *ssa.ChangeInterface:
		return o.tracedNode(t.X, d+1)
	case *ssa.MakeInterface:
		return o.tracedNode(t.X, d+1)
	case *ssa.Phi:
		for _, e := range t.Edges {
			if !o.tracedNode(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		fa, ok := t.X.(*ssa.FieldAddr)
		return ok && o.isRefNode(deref(fa.X.Type())) && types.IsInterface(t.Type())
	case *ssa.Call:
		fn := t.Call.StaticCallee()
		return fn != nil && fn.Signature.Recv() != nil && o.isRefNode(deref(fn.Signature.Recv().Type())) && types.IsInterface(t.Type())
	}
	return false
}

// isRefNode: the type is a node that keeps another node.
func (o *Own) isRefNode(t types.Type) bool {
	it := o.w.NodeIface()
	st := structOf(t)
	if it == nil || st == nil || !types.Implements(types.NewPointer(t), it) {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type().Underlying(), it) {
			return true
		}
	}
	return false
}

// traced: the write gives an id to the dict of a traced pointer.
func (o *Own) traced(in ssa.Instruction, key string, v ssa.Value) bool {
	if o.idKey == "" {
		t, i := idField(o.w)
		o.idKey = "-"
		if t != nil {
			o.idKey = fieldKey(types.NewPointer(t), i)
		}
	}
	if key != o.idKey || !o.tracedNode(v, 0) {
		return false
	}
	o.numbered[in] = true
	return true
}

// numberedGuards: the dict of a traced pointer is given an id only when the
// pointer was met again below itself, which a dict of the caller never is.
func (o *ownWorld) numberedGuards() {
	if len(o.numbered) == 0 {
		return
	}
	w := o.w
	site := map[*ssa.Function]bool{}
	for in := range o.numbered {
		site[in.Parent()] = true
	}
	reachesSite := func(f *ssa.Function) bool {
		if site[f] {
			return true
		}
		for g := range w.Reach([]*ssa.Function{f}) {
			if site[g] {
				return true
			}
		}
		return false
	}
	ob := newObls(w, o.r)
	it, idf := idField(w)
	for _, f := range o.roots {
		if !reachesSite(f) {
			continue
		}
		p := NewPathRun(w)
		p.Inline = func(x *Exec, c *Call) bool {
			if c.Fn == nil {
				return false
			}
			if reachesSite(c.Fn) {
				return true
			}
			rs := w.Reach([]*ssa.Function{c.Fn})
			return len(rs) < 6
		}
		p.Event = func(x *Exec, e *Event) {
			if e.Kind != "store" || e.Args[0].op != OFieldAddr || e.Args[0].num != idf || !types.Identical(deref(e.Args[0].args[0].typ), it) {
				return
			}
			ptr := refOwner(e.Args[0].args[0])
			if ptr == nil {
				return
			}
			ok := false
			// the record of the trace that holds the pointer counts its uses
			if rec := ptr; rec.op == OLoad && rec.args[0].op == OFieldAddr {
				n := rec.args[0].args[0]
				st := structOf(deref(n.typ))
				for i := 0; st != nil && i < st.NumFields(); i++ {
					if isIntType(st.Field(i).Type()) {
						cnt := x.Load(x.ts.Mk(OFieldAddr, types.NewPointer(st.Field(i).Type()), "", i, n))
						ok = ok || x.Entails(x.Lin(cnt).plus(-2))
					}
				}
			}
			ob.need(e.Fr, e.Instr, "numbered when shared", fnName(f), ok, "the dict of a traced pointer is given an id without knowing that the pointer was referred to")
		}
		if !p.Run(f) {
			o.r.Bad("undecided", fnName(f), "paths", "-", "too many paths to decide")
		}
	}
	ob.finish()
	o.r.AtLeast("numbered when shared", 1)
}

// refOwner is the pointer node whose kept node the term is.
func refOwner(t *Term) *Term {
	for t != nil {
		switch t.op {
		case OAssert, OConv, OIface, OExtract:
			t = t.args[0]
		case OLoad:
			if a := t.args[0]; a.op == OFieldAddr && types.IsInterface(deref(a.typ)) {
				return a.args[0]
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}

func runC07(w *World, r *Rep) {
	o := newOwnWorld(w, r)
	// payload fields of scalar nodes
	payload := map[string]string{}
	for _, n := range w.NodeTypes() {
		t := w.NamedType(n)
		st := structOf(t)
		if o.isRefNode(t) {
			continue
		}
		cont := false
		for i := 0; st != nil && i < st.NumFields(); i++ {
			cont = cont || !st.Field(i).Embedded() && seqElem(st.Field(i).Type().Underlying()) != nil
		}
		for i := 0; st != nil && i < st.NumFields() && !cont; i++ {
			if _, basic := st.Field(i).Type().Underlying().(*types.Basic); basic {
				payload[fieldKey(types.NewPointer(t), i)] = n + "." + st.Field(i).Name()
			}
		}
	}
	for range payload {
		r.OK("payload field")
	}
	for _, f := range o.roots {
		bad := false
		for _, wr := range o.sortedWrites(f) {
			if fd, ok := payload[wr.key]; ok {
				bad = true
				r.Bad("payload changed", fnName(f), wr.fn+" "+fd, wr.pos, "%s of an existing node may be written in %s", fd, wr.fn)
			}
			if wr.r.l.kind == labGlobal {
				bad = true
				r.Bad("package state changed", fnName(f), wr.fn+" "+wr.r.l.glob, wr.pos, "%s%s may be written in %s", wr.r.l, dot(wr.r.f), wr.fn)
			}
		}
		if !bad {
			r.OK("payload and package state kept")
		}
	}
	// every package variable and who writes it
	var names []string
	for n, m := range w.Main.Members {
		if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(n, "init$") {
			_ = g
			names = append(names, n)
		}
	}
	sort.Strings(names)
	initOnly := o.initOnly()
	for _, n := range names {
		g := w.Main.Members[n].(*ssa.Global)
		r.OK("package variable")
		for _, f := range w.Funcs {
			if initOnly[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if ok && rootGlobal(st.Addr) == g {
						r.Bad("package state changed", fnName(f), "store to "+n, w.InstrPos(in), "package variable %s is written outside initialisation", n)
					}
				}
			}
		}
	}
	r.AtLeast("payload field", 4)
	r.AtLeast("package variable", 5)
	r.AtLeast("payload and package state kept", 50)
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch t := v.(type) {
		case *ssa.Global:
			return t
		case *ssa.FieldAddr:
			v = t.X
		case *ssa.IndexAddr:
			v = t.X
		default:
			return nil
		}
	}
}

// initOnly: functions that only run while the package is initialised.
func (o *ownWorld) initOnly() map[*ssa.Function]bool {
	live := o.w.Reach(o.roots)
	for _, f := range o.roots {
		live[f] = true
	}
	out := map[*ssa.Function]bool{}
	for _, f := range o.w.Funcs {
		if !live[f] {
			for g := f; g != nil; g = g.Parent() {
				if g.Name() == "init" || strings.HasPrefix(g.Name(), "init#") {
					out[f] = true
				}
			}
		}
	}
	// helpers that only those call
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range o.w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						callers[g] = append(callers[g], f)
					}
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for g, cs := range callers {
			if out[g] || live[g] || g.Signature.Recv() != nil {
				continue
			}
			all := true
			for _, c := range cs {
				all = all && out[c]
			}
			if all {
				out[g] = true
				ch = true
			}
		}
	}
	return out
}

func runC08(w *World, r *Rep) {
	o := newOwnWorld(w, r)
	contField := map[string]string{} // node type to its storage field
	for _, n := range w.NodeTypes() {
		t := w.NamedType(n)
		st := structOf(t)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if !st.Field(i).Embedded() && seqElem(st.Field(i).Type().Underlying()) != nil {
				contField[typeKey(t)] = st.Field(i).Name()
				r.OK("container type")
			}
		}
	}
	isCont := func(l *ownLab) (string, bool) {
		if l.typ == nil {
			return "", false
		}
		f, ok := contField[typeKey(deref(l.typ))]
		return f, ok
	}
	fields := map[string]bool{}
	for _, f := range contField {
		fields[f] = true
	}
	for _, f := range o.roots {
		s := o.fns[f]
		name := fnName(f)
		// storage of nodes
		kept := map[*ownLab]ownRef{}
		for at, vs := range s.edges {
			last := at.f[strings.LastIndex(at.f, "/")+1:]
			if !fields[last] {
				continue
			}
			if at.l.kind == labFresh {
				if mt, known := o.memType(s, at.l); known && !o.storageAt(mt, at.f, contField) {
					continue
				}
			} else if mt, known := o.memType(s, at.l); known && !o.storageAt(mt, at.f, contField) {
				continue
			}
			for v := range vs {
				own := v.l.kind == labFresh
				if !own && at.l.kind == v.l.kind {
					c := o.child(s, at.l, at.f)
					own = v.l == c || v.l == at.l || under(v.l, c) && at.l.star
				}
				if own {
					kept[v.l] = at
					r.OK("storage of its own")
					continue
				}
				r.Bad("storage shared", name, fmt.Sprint("into ", at.l.kindName(), " ", last), o.labPos(at.l, f), "the storage of %s is kept in a node (%s)", v.l, at.String())
			}
		}
		res := f.Signature.Results()
		var seen []map[*ownLab]bool
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			mine := map[*ownLab]bool{}
			deep := false
			switch u := t.Underlying().(type) {
			case *types.Slice, *types.Map:
				for _, x := range sortedRefs(s.rets[i]) {
					if x.l.kind != labFresh {
						r.Bad("result shared", name, fmt.Sprint("result ", i), w.Pos(f.Pos()), "the returned %s may be %s%s", t, x.l, dot(x.f))
					} else if at, ok := kept[x.l]; ok {
						r.Bad("result shared", name, fmt.Sprint("result ", i), w.Pos(f.Pos()), "the returned %s is also the storage of a node (%s)", t, at.String())
					} else {
						r.OK("fresh result")
					}
					mine[x.l] = true
				}
			case *types.Interface:
				deep = u.NumMethods() == 0 || f.Name() == "DeepCopy"
			}
			if deep {
				bad := false
				for _, x := range sortedRefs(s.reach(o.Own, s.rets[i], true)) {
					if x.l.kind == labParam {
						bad = true
						r.Bad("result shared", name, fmt.Sprint("result ", i), w.Pos(f.Pos()), "the result reaches %s%s", x.l, dot(x.f))
						break
					}
				}
				if !bad {
					r.OK("independent result")
				}
			}
			if makesContainer(f) && !deep {
				for _, x := range sortedRefs(s.rets[i]) {
					if x.l.kind != labFresh {
						r.Bad("result shared", name, fmt.Sprint("result ", i), w.Pos(f.Pos()), "the returned %s may be %s%s", t, x.l, dot(x.f))
					} else {
						r.OK("fresh container")
					}
				}
			}
			for _, x := range sortedRefs(s.rets[i]) {
				if fd, ok := isCont(x.l); ok && x.l.kind == labFresh {
					mine[x.l] = true
					for v := range s.edges[ownRef{x.l, fd}] {
						mine[v.l] = true
					}
				}
			}
			for j, other := range seen {
				for l := range mine {
					if other[l] {
						r.Bad("results shared", name, fmt.Sprint("results ", j, " and ", i), w.Pos(f.Pos()), "two results may be or use the same storage (%s)", o.labPos(l, f))
						break
					}
				}
			}
			seen = append(seen, mine)
		}
	}
	r.AtLeast("container type", 2)
	r.AtLeast("storage of its own", 20)
	r.AtLeast("fresh result", 8)
	r.AtLeast("fresh container", 4)
	r.AtLeast("independent result", 2)
}

// makesContainer: the function is asked for a container of its own.
func makesContainer(f *ssa.Function) bool {
	n := f.Name()
	if n != "Diff" && !strings.HasPrefix(n, "Copy") && n != "NewDict" && n != "NewArray" && n != "NewStringArray" {
		return false
	}
	res := f.Signature.Results()
	return res.Len() > 0 && structOf(deref(res.At(0).Type())) != nil
}

func (l *ownLab) kindName() string {
	switch l.kind {
	case labParam:
		return fmt.Sprint("argument ", l.par)
	case labGlobal:
		return l.glob
	}
	return "new"
}

func (r ownRef) String() string { return fmt.Sprint(r.l, dot(strings.ReplaceAll(r.f, "/", "."))) }

func (o *Own) labPos(l *ownLab, f *ssa.Function) string {
	if l.site != nil {
		return o.w.InstrPos(l.site)
	}
	return o.w.Pos(f.Pos())
}

// storageAt: the part of the memory is the storage field of a node.
func (o *Own) storageAt(mt types.Type, f string, cont map[string]string) bool {
	i := strings.LastIndex(f, "/")
	owner := mt
	if i >= 0 {
		owner = partType(mt, f[:i])
	}
	return owner != nil && cont[typeKey(owner)] == f[i+1:]
}
