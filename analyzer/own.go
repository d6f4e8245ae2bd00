package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ownership: a flow-insensitive, field-sensitive, compositional points-to and
// effect analysis. Every function is summarised over symbolic memory: what was
// reachable from its parameters (by access path), from package variables, and
// what it or its callees allocated (by allocation site and, one level, call
// site). A summary tells what the results refer to, which references were
// stored where, and which memory that existed before the call may be written.

const (
	labParam  = 'P' // reachable from a parameter when the call began
	labGlobal = 'G' // reachable from a package variable
	labFresh  = 'F' // allocated during the call
)

type ownLab struct {
	id   int
	kind byte
	par  int    // parameter; -1 the function value (closure)
	glob string // package variable
	path []string
	star bool // everything below path
	site ssa.Instruction
	call callCtx // the last calls on the way to the summarised function, innermost first
	typ  types.Type
}

func (l *ownLab) String() string {
	s := ""
	switch l.kind {
	case labParam:
		s = fmt.Sprintf("param%d", l.par)
	case labGlobal:
		s = l.glob
	default:
		return fmt.Sprintf("fresh#%d", l.id)
	}
	for _, p := range l.path {
		s += "." + p
	}
	if l.star {
		s += ".*"
	}
	return s
}

// ownRef is a pointer to (part f of) the memory of a label; for struct values
// in registers, the place the value was copied from.
type ownRef struct {
	l *ownLab
	f string
}

// mkRef keeps references finite: of a part of any of many objects, only the last
// step of the path is kept.
func mkRef(l *ownLab, f string) ownRef {
	if l.star {
		f = f[strings.LastIndex(f, "/")+1:]
	} else if strings.Count(f, "/") > 3 {
		f = "*"
	}
	return ownRef{l, f}
}

type refSet map[ownRef]bool

func (s refSet) add(o refSet) bool {
	ch := false
	for r := range o {
		if !s[r] {
			s[r] = true
			ch = true
		}
	}
	return ch
}

func sortedRefs(s refSet) []ownRef {
	out := make([]ownRef, 0, len(s))
	for r := range s {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].l.id != out[j].l.id {
			return out[i].l.id < out[j].l.id
		}
		return out[i].f < out[j].f
	})
	return out
}

type ownWrite struct {
	r   ownRef
	key string // kind of memory, as addrKey; "R" through reflection
	pos string
	fn  string     // where the writing instruction is
	of  types.Type // memory the written part belongs to, if known
	via string     // the call that leads there
}

type wkey struct {
	r   ownRef
	key string
}

// fnOwn is the state and summary of one function.
type fnOwn struct {
	fn     *ssa.Function
	some   uint32 // parameters that are slices with at least one element
	dead   map[*ssa.BasicBlock]bool
	pts    map[ssa.Value]refSet
	tup    map[ssa.Value][]refSet
	edges  map[ownRef]refSet
	etyp   map[ownRef]map[string]types.Type
	fields map[*ownLab]map[string]bool // fields with edges, per label
	writes map[wkey]*ownWrite
	rets   []refSet
	users  map[*fnOwn]bool
	ch     bool
}

// Own holds the analysis of the whole program.
type Own struct {
	w    *World
	labs map[string]*ownLab
	all  []*ownLab
	fns  map[*ssa.Function]*fnOwn // with nothing known of the parameters
	ctx  map[ownCtx]*fnOwn
	work []*fnOwn
	inQ  map[*fnOwn]bool
	gtyp map[string]types.Type
	tclo map[string]*typeClosure
	rch  map[*ssa.Function]map[*ssa.Function]bool
	// writes of node ids to dicts of traced pointers, judged separately
	idKey    string
	numbered map[ssa.Instruction]bool
}

const ownDepth = 3

func NewOwn(w *World, roots []*ssa.Function) *Own {
	o := &Own{w: w, labs: map[string]*ownLab{}, fns: map[*ssa.Function]*fnOwn{}, ctx: map[ownCtx]*fnOwn{}, inQ: map[*fnOwn]bool{}, gtyp: map[string]types.Type{}, tclo: map[string]*typeClosure{}, rch: map[*ssa.Function]map[*ssa.Function]bool{}, numbered: map[ssa.Instruction]bool{}}
	for _, r := range roots {
		o.get(r)
	}
	for n := 0; len(o.work) > 0; n++ {
		s := o.work[0]
		o.work = o.work[1:]
		delete(o.inQ, s)
		s.ch = false
		o.run(s)
		if s.ch {
			for u := range s.users {
				o.push(u)
			}
			o.push(s)
		}
		if n > 200000 {
			panic("own: no fixpoint")
		}
	}
	return o
}

func (o *Own) push(s *fnOwn) {
	if !o.inQ[s] {
		o.inQ[s] = true
		o.work = append(o.work, s)
	}
}

type ownCtx struct {
	fn   *ssa.Function
	some uint32
}

func (o *Own) get(fn *ssa.Function) *fnOwn {
	s := o.getSome(fn, 0)
	o.fns[fn] = s
	return s
}

// getSome is the state of a function some of whose slices are not empty.
func (o *Own) getSome(fn *ssa.Function, some uint32) *fnOwn {
	s := o.ctx[ownCtx{fn, some}]
	if s == nil {
		s = &fnOwn{fn: fn, some: some, pts: map[ssa.Value]refSet{}, tup: map[ssa.Value][]refSet{}, edges: map[ownRef]refSet{}, etyp: map[ownRef]map[string]types.Type{}, fields: map[*ownLab]map[string]bool{},
			writes: map[wkey]*ownWrite{}, users: map[*fnOwn]bool{}}
		s.rets = make([]refSet, fn.Signature.Results().Len())
		for i := range s.rets {
			s.rets[i] = refSet{}
		}
		if some != 0 {
			s.dead = deadBlocks(fn, some)
		}
		o.ctx[ownCtx{fn, some}] = s
		o.push(s)
	}
	return s
}

// deadBlocks are those that only run when one of the slices is empty.
func deadBlocks(fn *ssa.Function, some uint32) map[*ssa.BasicBlock]bool {
	live := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if live[b] {
			return
		}
		live[b] = true
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			switch lenTest(iff.Cond, some) {
			case 1:
				visit(b.Succs[0])
				return
			case -1:
				visit(b.Succs[1])
				return
			}
		}
		for _, n := range b.Succs {
			visit(n)
		}
	}
	visit(fn.Blocks[0])
	dead := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		if !live[b] {
			dead[b] = true
		}
	}
	return dead
}

// lenTest: the condition compares the length of such a slice; 1 it holds, -1 not.
func lenTest(c ssa.Value, some uint32) int {
	b, ok := c.(*ssa.BinOp)
	if !ok {
		return 0
	}
	op, x, y := b.Op, b.X, b.Y
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	k, ok := y.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return 0
	}
	n := k.Int64()
	call, ok := x.(*ssa.Call)
	if !ok {
		return 0
	}
	if bi, ok := call.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
		return 0
	}
	p, ok := call.Call.Args[0].(*ssa.Parameter)
	if !ok || some&(1<<paramIndex(p)) == 0 {
		return 0
	}
	switch {
	case op == token.EQL && n <= 0, op == token.LSS && n <= 1, op == token.LEQ && n <= 0:
		return -1
	case op == token.NEQ && n <= 0, op == token.GTR && n <= 0, op == token.GEQ && n <= 1:
		return 1
	}
	return 0
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if p == q {
			return i & 31
		}
	}
	return 31
}

// hasSome: the slice given as an argument has at least one element.
func (s *fnOwn) hasSome(v ssa.Value) bool {
	switch t := v.(type) {
	case *ssa.Slice:
		a, ok := t.X.(*ssa.Alloc)
		if !ok || t.Low != nil || t.High != nil {
			return false
		}
		at, ok := deref(a.Type()).Underlying().(*types.Array)
		return ok && at.Len() > 0
	case *ssa.Parameter:
		return s.some&(1<<paramIndex(t)) != 0
	case *ssa.ChangeType:
		return s.hasSome(t.X)
	}
	return false
}

// someArgs are the parameters of the callee that are given such slices.
func (s *fnOwn) someArgs(cm *ssa.CallCommon, fn *ssa.Function) uint32 {
	off := 0
	if cm.IsInvoke() {
		off = 1
	} else if cm.StaticCallee() != fn {
		return 0
	}
	var some uint32
	for i, a := range cm.Args {
		if i+off < len(fn.Params) && i+off < 31 && s.hasSome(a) {
			some |= 1 << (i + off)
		}
	}
	return some
}

func (o *Own) intern(key string, mk func() *ownLab) *ownLab {
	l := o.labs[key]
	if l == nil {
		l = mk()
		l.id = len(o.all) + 1
		o.labs[key] = l
		o.all = append(o.all, l)
	}
	return l
}

func (o *Own) param(i int, path []string, star bool, t types.Type) *ownLab {
	return o.intern(fmt.Sprintf("P%d/%s/%v", i, strings.Join(path, "|"), star), func() *ownLab {
		return &ownLab{kind: labParam, par: i, path: path, star: star, typ: t}
	})
}

func (o *Own) global(name string, path []string, star bool) *ownLab {
	return o.intern(fmt.Sprintf("G%s/%s/%v", name, strings.Join(path, "|"), star), func() *ownLab {
		return &ownLab{kind: labGlobal, glob: name, path: path, star: star}
	})
}

const ctxDepth = 2

type callCtx [ctxDepth]ssa.Instruction

// through is the context one call further out.
func (c callCtx) through(in ssa.Instruction) callCtx {
	for i := range c {
		if c[i] == nil {
			c[i] = in
			return c
		}
	}
	copy(c[:], c[1:])
	c[ctxDepth-1] = in
	return c
}

func (o *Own) fresh(site ssa.Instruction, call callCtx, what string, t types.Type) *ownLab {
	return o.intern(fmt.Sprintf("F%p/%p/%s", site, call, what), func() *ownLab {
		return &ownLab{kind: labFresh, site: site, call: call, typ: t, glob: what}
	})
}

// child is what a reference kept at part f of pre-existing memory refers to.
func (o *Own) child(s *fnOwn, l *ownLab, f string) *ownLab {
	if l.star {
		return l
	}
	if l.kind == labGlobal {
		return o.global(l.glob, []string{"value"}, true)
	}
	star := len(l.path) >= ownDepth || f == "*"
	if _, known := o.memType(s, l); !known {
		star = true
	}
	for _, p := range l.path {
		star = star || p == f
	}
	path := l.path
	if !star {
		path = append(append([]string{}, l.path...), f)
	}
	return o.param(l.par, path, star, nil)
}

func join(f, g string) string {
	if f == "" {
		return g
	}
	if g == "" {
		return f
	}
	return f + "/" + g
}

// under: label a denotes memory that label b covers.
func under(a, b *ownLab) bool {
	if a == b {
		return true
	}
	if a.kind != b.kind || a.kind == labFresh || a.par != b.par || a.glob != b.glob || !b.star || len(a.path) < len(b.path) {
		return false
	}
	for i, p := range b.path {
		if a.path[i] != p {
			return false
		}
	}
	return true
}

// keeps: a value found in pre-existing memory c was put there by this very call;
// arguments put into another argument are not followed out of it again, nor is a
// node that a method of a node was given to keep followed out of what it created.
func (s *fnOwn) keeps(o *Own, c, v *ownLab) bool {
	if c.kind == labFresh && v.kind == labParam && v.par > 0 && len(v.path) == 0 && !v.star && o.nodeMethod(s.fn) {
		return false
	}
	if c.kind == labFresh || v.kind == labFresh {
		return true
	}
	return c.kind == v.kind && c.par == v.par && c.glob == v.glob
}

// nodeMethod: the function is a method of a container node.
func (o *Own) nodeMethod(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	it := o.w.NodeIface()
	return r != nil && it != nil && types.Implements(types.NewPointer(deref(r.Type())), it)
}

// load: what references kept at r refer to.
func (s *fnOwn) load(o *Own, r ownRef) refSet {
	out := refSet{}
	if r.l.kind != labFresh {
		out[ownRef{o.child(s, r.l, r.f), ""}] = true
	}
	put := func(e refSet) {
		for v := range e {
			if s.keeps(o, r.l, v.l) {
				out[v] = true
			}
		}
	}
	if !strings.HasPrefix(r.f, "@") {
		put(s.edges[r])
	}
	if r.l.kind == labFresh {
		put(s.edges[ownRef{r.l, "*"}])
	}
	if r.l.star && r.f != "" {
		put(s.edges[ownRef{r.l, ""}])
		put(s.edges[ownRef{r.l, "*"}])
	}
	if r.l.star && r.f == "" || r.f == "*" {
		for f := range s.fields[r.l] {
			if !strings.HasPrefix(f, "@") {
				put(s.edges[ownRef{r.l, f}])
			}
		}
	}
	return out
}

func (s *fnOwn) loadAll(o *Own, rs refSet, f string) refSet {
	out := refSet{}
	for r := range rs {
		out.add(s.load(o, mkRef(r.l, join(r.f, f))))
	}
	return out
}

// children are everything references kept anywhere in a label's memory refer to.
func (s *fnOwn) children(o *Own, l *ownLab) refSet {
	out := refSet{}
	if l.kind != labFresh {
		out[ownRef{o.child(s, l, "*"), ""}] = true
	}
	for f := range s.fields[l] {
		if strings.HasPrefix(f, "@") {
			continue
		}
		for v := range s.edges[ownRef{l, f}] {
			if s.keeps(o, l, v.l) {
				out[v] = true
			}
		}
	}
	return out
}

// reach is the closure of children, roots included. Fields whose name starts
// with '@' are left out unless set is true. From what an argument refers to,
// the other arguments are not reached: see keeps.
func (s *fnOwn) reach(o *Own, rs refSet, set bool) refSet {
	out := refSet{}
	fresh := refSet{}
	done := map[string]bool{}
	for r := range rs {
		if r.l.kind == labFresh {
			fresh[r] = true
			continue
		}
		k := fmt.Sprint(r.l.par, r.l.glob)
		if done[k] {
			continue
		}
		done[k] = true
		same := refSet{}
		for x := range rs {
			if x.l.kind != labFresh && x.l.par == r.l.par && x.l.glob == r.l.glob {
				same[x] = true
			}
		}
		s.reachFrom(o, same, r.l, set, out)
	}
	s.reachFrom(o, fresh, nil, set, out)
	return out
}

func (s *fnOwn) reachFrom(o *Own, rs refSet, from *ownLab, set bool, out refSet) {
	var work []*ownLab
	seen := map[*ownLab]bool{}
	add := func(l *ownLab) {
		if !seen[l] {
			seen[l] = true
			out[ownRef{l, ""}] = true
			work = append(work, l)
		}
	}
	for r := range rs {
		out[r] = true
		add(r.l)
	}
	for len(work) > 0 {
		l := work[len(work)-1]
		work = work[:len(work)-1]
		if l.kind == labParam {
			add(o.param(l.par, nil, true, nil))
		} else if l.kind == labGlobal {
			add(o.child(s, l, "*"))
		}
		for f := range s.fields[l] {
			at := strings.HasPrefix(f, "@")
			for v := range s.edges[ownRef{l, f}] {
				if at && !set {
					continue
				}
				if s.keeps(o, l, v.l) && (from == nil || s.keeps(o, from, v.l)) {
					add(v.l)
				}
			}
		}
	}
}

// edge records that references of type t (nil: any) kept at r may be v.
func (s *fnOwn) edge(o *Own, r ownRef, v refSet, t types.Type) {
	if t != nil {
		v = o.ofType(s, v, t)
	}
	if r.l.kind != labFresh {
		// what the place held before stays there
		self := ownRef{o.child(s, r.l, r.f), ""}
		if v[self] {
			v2 := refSet{}
			for x := range v {
				if x != self {
					v2[x] = true
				}
			}
			v = v2
		}
	}
	if len(v) == 0 {
		return
	}
	if r.l.kind == labFresh && r.l.glob == "reflect" && r.f != "*" {
		r.f = "@set"
	}
	e := s.edges[r]
	if e == nil {
		e = refSet{}
		s.edges[r] = e
		if s.fields[r.l] == nil {
			s.fields[r.l] = map[string]bool{}
		}
		s.fields[r.l][r.f] = true
	}
	if e.add(v) {
		s.ch = true
	}
	k := ""
	if t != nil {
		k = typeKey(t)
	}
	et := s.etyp[r]
	if et == nil {
		et = map[string]types.Type{}
		s.etyp[r] = et
	}
	if _, ok := et[k]; !ok {
		et[k] = t
		s.ch = true
	}
}

func (s *fnOwn) set(v ssa.Value, rs refSet) {
	p := s.pts[v]
	if p == nil {
		p = refSet{}
		s.pts[v] = p
	}
	if p.add(rs) {
		s.ch = true
	}
}

func (s *fnOwn) write(r ownRef, key, pos, fn, via string, of types.Type) {
	if r.l.kind == labFresh {
		return
	}
	k := wkey{r, key}
	if s.writes[k] == nil {
		s.writes[k] = &ownWrite{r, key, pos, fn, of, via}
		s.ch = true
	}
}

// ownerOf is the type of the memory that an address is a part of.
func ownerOf(a ssa.Value) types.Type {
	switch t := a.(type) {
	case *ssa.FieldAddr:
		return deref(t.X.Type())
	case *ssa.IndexAddr:
		return deref(t.X.Type())
	}
	return nil
}

// part: the label's memory can have such a part, of memory of type of.
func (o *Own) part(s *fnOwn, r ownRef, of types.Type) bool {
	if mt, known := o.memType(s, r.l); known {
		return r.f == "" || strings.ContainsAny(r.f, "*@:") || partType(mt, r.f) != nil
	}
	if of == nil {
		return true
	}
	return o.fits(s, ownRef{r.l, ""}, of)
}

// holds tells whether values of a type can carry references.
func holds(t types.Type) bool { return holdsRefs(t, 0) }

func holdsRefs(t types.Type, d int) bool {
	if d > 8 {
		return true
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Type" {
		return false // types do not change
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsRefs(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return holdsRefs(u.Elem(), d+1)
	}
	return true
}

func isAggregate(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct:
		return !isReflectValue(t)
	case *types.Array:
		return true
	}
	return false
}

func fname(t types.Type, i int) string {
	st := structOf(deref(t))
	if st == nil {
		return fmt.Sprint(i)
	}
	return st.Field(i).Name()
}

// leaves calls k for each part of a value of type t that holds references.
func leaves(t types.Type, f string, k func(f string, t types.Type)) {
	if !holds(t) {
		return
	}
	if isAggregate(t) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				leaves(u.Field(i).Type(), join(f, u.Field(i).Name()), k)
			}
			return
		case *types.Array:
			leaves(u.Elem(), join(f, "e"), k)
			return
		}
	}
	k(f, t)
}

// bindName is the part of a function value that keeps its i-th variable.
func bindName(fn *ssa.Function, i int) string {
	n := fmt.Sprintf("b%d:%s:%d", i, strings.ReplaceAll(fnName(fn), "/", "."), fn.Pos())
	bindTypes[n] = fn.FreeVars[i].Type()
	return n
}

var bindTypes = map[string]types.Type{}

// val evaluates an operand.
func (s *fnOwn) val(o *Own, v ssa.Value) refSet {
	switch t := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Function:
		return nil
	case *ssa.Global:
		return refSet{ownRef{o.global(t.RelString(nil), nil, false), ""}: true}
	case *ssa.FreeVar:
		for i, fv := range s.fn.FreeVars {
			if fv == t {
				return s.loadAll(o, refSet{ownRef{o.param(-1, nil, false, nil), ""}: true}, bindName(s.fn, i))
			}
		}
	case *ssa.Parameter:
		for i, p := range s.fn.Params {
			if p == t {
				if !holds(t.Type()) {
					return nil
				}
				return refSet{ownRef{o.param(i, nil, false, t.Type()), ""}: true}
			}
		}
	}
	return s.pts[v]
}

// assign copies a value of type t found at (or being) src into the place dst.
func (s *fnOwn) assign(o *Own, dst ownRef, src refSet, t types.Type) {
	if !isAggregate(t) {
		if holds(t) {
			s.edge(o, dst, src, t)
		}
		return
	}
	leaves(t, "", func(f string, ft types.Type) {
		s.edge(o, mkRef(dst.l, join(dst.f, f)), s.loadAll(o, src, f), ft)
	})
}

// read gives the value of type t kept at the places.
func (s *fnOwn) read(o *Own, at refSet, f string, t types.Type) refSet {
	if isAggregate(t) {
		out := refSet{}
		for r := range at {
			out[mkRef(r.l, join(r.f, f))] = true
		}
		return out
	}
	if !holds(t) {
		return nil
	}
	return o.ofType(s, s.loadAll(o, at, f), t)
}

func shift(rs refSet, f string) refSet {
	out := refSet{}
	for r := range rs {
		out[mkRef(r.l, join(r.f, f))] = true
	}
	return out
}

func (o *Own) run(s *fnOwn) {
	for _, b := range s.fn.Blocks {
		if s.dead[b] {
			continue
		}
		for _, in := range b.Instrs {
			o.instr(s, in)
		}
	}
}

func (o *Own) instr(s *fnOwn, in ssa.Instruction) {
	w := o.w
	name := fnName(s.fn)
	switch t := in.(type) {
	case *ssa.Alloc:
		s.set(t, refSet{ownRef{o.fresh(t, callCtx{}, "", deref(t.Type())), ""}: true})
	case *ssa.MakeSlice:
		s.set(t, refSet{ownRef{o.fresh(t, callCtx{}, "", t.Type()), ""}: true})
	case *ssa.MakeMap:
		s.set(t, refSet{ownRef{o.fresh(t, callCtx{}, "", t.Type()), ""}: true})
	case *ssa.MakeChan:
		s.set(t, refSet{ownRef{o.fresh(t, callCtx{}, "", t.Type()), ""}: true})
	case *ssa.MakeClosure:
		l := o.fresh(t, callCtx{}, "", t.Type())
		for i, b := range t.Bindings {
			s.edge(o, ownRef{l, bindName(t.Fn.(*ssa.Function), i)}, s.val(o, b), b.Type())
		}
		s.set(t, refSet{ownRef{l, ""}: true})
		o.get(t.Fn.(*ssa.Function))
	case *ssa.MakeInterface:
		if isAggregate(t.X.Type()) {
			if !holds(t.X.Type()) {
				return
			}
			l := o.fresh(t, callCtx{}, "", t.X.Type())
			s.assign(o, ownRef{l, ""}, s.val(o, t.X), t.X.Type())
			s.set(t, refSet{ownRef{l, ""}: true})
			return
		}
		s.set(t, s.val(o, t.X))
	case *ssa.ChangeInterface:
		s.set(t, s.val(o, t.X))
	case *ssa.ChangeType:
		s.set(t, s.val(o, t.X))
	case *ssa.Convert:
		if !holds(t.Type()) || !holds(t.X.Type()) {
			if holds(t.Type()) { // string to []byte
				s.set(t, refSet{ownRef{o.fresh(t, callCtx{}, "", t.Type()), ""}: true})
			}
			return
		}
		s.set(t, s.val(o, t.X))
	case *ssa.MultiConvert:
		s.set(t, s.val(o, t.X))
	case *ssa.SliceToArrayPointer:
		s.set(t, s.val(o, t.X))
	case *ssa.Phi:
		for i, e := range t.Edges {
			if s.dead[t.Block().Preds[i]] {
				continue
			}
			s.set(t, s.val(o, e))
		}
	case *ssa.Slice:
		if holds(t.Type()) {
			s.set(t, s.val(o, t.X))
		}
	case *ssa.FieldAddr:
		s.set(t, shift(o.only(s, s.val(o, t.X), deref(t.X.Type())), fname(t.X.Type(), t.Field)))
	case *ssa.IndexAddr:
		s.set(t, shift(o.only(s, s.val(o, t.X), deref(t.X.Type())), "e"))
	case *ssa.Field:
		s.set(t, s.read(o, o.only(s, s.val(o, t.X), t.X.Type()), fname(t.X.Type(), t.Field), t.Type()))
	case *ssa.Index:
		if holds(t.Type()) {
			s.set(t, s.read(o, s.val(o, t.X), "e", t.Type()))
		}
	case *ssa.Lookup:
		mt, ok := t.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		v := s.read(o, o.only(s, s.val(o, t.X), mt), "e", mt.Elem())
		if t.CommaOk {
			s.setTup(t, 2, 0, v)
			return
		}
		s.set(t, v)
	case *ssa.UnOp:
		switch t.Op.String() {
		case "*":
			s.set(t, s.read(o, o.only(s, s.val(o, t.X), deref(t.X.Type())), "", t.Type()))
		case "<-":
			s.set(t, s.loadAll(o, s.val(o, t.X), "e"))
		}
	case *ssa.Store:
		at := o.only(s, s.val(o, t.Addr), deref(t.Addr.Type()))
		replaced := len(at) > 1 && replaces(t)
		for r := range at {
			v := s.val(o, t.Val)
			if replaced {
				v = s.replacement(o, at, r, v)
			}
			s.assign(o, r, v, t.Val.Type())
			if isAggregate(t.Val.Type()) {
				if st := structOf(t.Val.Type()); st != nil {
					for i := 0; i < st.NumFields(); i++ {
						s.write(mkRef(r.l, join(r.f, st.Field(i).Name())), fieldKey(t.Addr.Type(), i), w.InstrPos(t), name, "", t.Val.Type())
					}
					continue
				}
			}
			if fa, ok := t.Addr.(*ssa.FieldAddr); ok && o.traced(t, addrKey(t.Addr), fa.X) {
				continue
			}
			s.write(r, addrKey(t.Addr), w.InstrPos(t), name, "", ownerOf(t.Addr))
		}
	case *ssa.MapUpdate:
		mt := t.Map.Type().Underlying().(*types.Map)
		for r := range o.only(s, s.val(o, t.Map), mt) {
			s.assign(o, mkRef(r.l, join(r.f, "e")), s.val(o, t.Value), mt.Elem())
			s.assign(o, mkRef(r.l, join(r.f, "k")), s.val(o, t.Key), mt.Key())
			s.write(r, "M:"+typeKey(t.Map.Type()), w.InstrPos(t), name, "", mt)
		}
	case *ssa.Send:
		for r := range s.val(o, t.Chan) {
			s.edge(o, mkRef(r.l, join(r.f, "e")), s.val(o, t.X), t.X.Type())
		}
	case *ssa.Range:
		s.set(t, s.val(o, t.X))
	case *ssa.Next:
		if t.IsString {
			return
		}
		mt, ok := t.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		it := o.only(s, s.val(o, t.Iter), mt)
		s.setTup(t, 3, 1, s.read(o, it, "k", mt.Key()))
		s.setTup(t, 3, 2, s.read(o, it, "e", mt.Elem()))
	case *ssa.TypeAssert:
		v := s.val(o, t.X)
		if !holds(t.AssertedType) {
			v = nil
		} else if pt, any := pointee(t.AssertedType); !any && pt != nil {
			v = o.only(s, v, pt)
		}
		if t.CommaOk {
			s.setTup(t, 2, 0, v)
			return
		}
		s.set(t, v)
	case *ssa.Extract:
		if tp := s.tup[t.Tuple]; tp != nil && t.Index < len(tp) {
			s.set(t, tp[t.Index])
		}
	case *ssa.Select:
	case *ssa.Return:
		for i, v := range t.Results {
			if s.rets[i].add(s.val(o, v)) {
				s.ch = true
			}
		}
	case ssa.CallInstruction:
		o.call(s, t)
	}
}

// replaces: the stored slice or map continues what the same place of the same
// object held before.
func replaces(st *ssa.Store) bool {
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	var from func(v ssa.Value, d int) bool
	from = func(v ssa.Value, d int) bool {
		if d > 8 {
			return false
		}
		switch t := v.(type) {
		case *ssa.Slice:
			return from(t.X, d+1)
		case *ssa.Extract:
			return from(t.Tuple, d+1)
		case *ssa.ChangeType:
			return from(t.X, d+1)
		case *ssa.UnOp:
			a, ok := t.X.(*ssa.FieldAddr)
			return ok && a.X == fa.X && a.Field == fa.Field
		case *ssa.Call:
			for _, a := range t.Call.Args {
				if types.Identical(a.Type(), st.Val.Type()) {
					return from(a, d+1)
				}
			}
		}
		return false
	}
	return seqElem(st.Val.Type().Underlying()) != nil && from(st.Val, 0)
}

// replacement leaves out of the new value of place r what the other places held.
func (s *fnOwn) replacement(o *Own, at refSet, r ownRef, v refSet) refSet {
	mine := s.load(o, r)
	out := refSet{}
	for x := range v {
		if x.l.kind != labFresh && !mine[x] {
			other := false
			for q := range at {
				other = other || q != r && q.l.kind != labFresh && o.child(s, q.l, q.f) == x.l
			}
			if other {
				continue
			}
		}
		out[x] = true
	}
	return out
}

func (s *fnOwn) setTup(v ssa.Value, n, i int, rs refSet) {
	tp := s.tup[v]
	if tp == nil {
		tp = make([]refSet, n)
		for j := range tp {
			tp[j] = refSet{}
		}
		s.tup[v] = tp
	}
	if tp[i].add(rs) {
		s.ch = true
	}
}

func (s *fnOwn) setRes(in ssa.CallInstruction, i int, rs refSet) {
	v := in.Value()
	if v == nil {
		return
	}
	if tp, ok := v.Type().(*types.Tuple); ok {
		if i < tp.Len() {
			if holds(tp.At(i).Type()) {
				s.setTup(v, tp.Len(), i, rs)
			}
		}
		return
	}
	if i == 0 && holds(v.Type()) {
		s.set(v, rs)
	}
}

func (o *Own) follows(fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	p := f.Pkg
	if p == nil && f.Object() != nil && f.Object().Pkg() != nil {
		p = f.Prog.Package(f.Object().Pkg())
	}
	return p != nil && (o.w.inMain[p] || p == o.w.SMap)
}

func (o *Own) call(s *fnOwn, in ssa.CallInstruction) {
	cm := in.Common()
	args := make([]refSet, 0, len(cm.Args)+1)
	var atys []types.Type
	if cm.IsInvoke() {
		args = append(args, s.val(o, cm.Value))
		atys = append(atys, cm.Value.Type())
	}
	for _, a := range cm.Args {
		args = append(args, s.val(o, a))
		atys = append(atys, a.Type())
	}
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		o.builtin(s, in, b.Name(), args)
		return
	}
	if fn := cm.StaticCallee(); fn != nil {
		var fv refSet
		if mc, ok := cm.Value.(*ssa.MakeClosure); ok {
			fv = s.val(o, mc)
		}
		if o.follows(fn) {
			o.apply(s, in, fn, args, fv)
			return
		}
		if o.external(s, in, fn, args) {
			return
		}
		// the callee may call back methods of what it is given
		for i, a := range cm.Args {
			mi, ok := a.(*ssa.MakeInterface)
			if !ok {
				continue
			}
			for _, m := range sortMethods(o.w, mi.X.Type()) {
				if o.follows(m) {
					o.apply(s, in, m, append([]refSet{args[i]}, make([]refSet, 2)...), nil)
				}
			}
		}
		for i, a := range cm.Args {
			switch f := a.(type) {
			case *ssa.MakeClosure:
				o.apply(s, in, f.Fn.(*ssa.Function), o.spread(s, args, i, f.Fn.(*ssa.Function)), args[i])
			case *ssa.Function:
				if o.follows(f) {
					o.apply(s, in, f, o.spread(s, args, i, f), nil)
				}
			}
		}
		o.extDefault(s, in, fn.RelString(nil), args)
		return
	}
	if cm.IsInvoke() {
		ts := o.w.Targets(cm)
		for _, t := range ts {
			o.apply(s, in, t, args, nil)
		}
		if len(ts) == 0 {
			o.extDefault(s, in, calleeFullName(cm), args)
		}
		return
	}
	// function values: every function of the package whose address is taken
	// and that has this signature
	fv := s.val(o, cm.Value)
	n := 0
	for _, f := range o.addrTaken() {
		if types.Identical(f.Signature, cm.Value.Type().Underlying()) {
			n++
			o.apply(s, in, f, args, fv)
		}
	}
	o.extDefault(s, in, "dynamic", args)
}

// spread: a callback may be given anything reachable from the other arguments.
func (o *Own) spread(s *fnOwn, args []refSet, skip int, fn *ssa.Function) []refSet {
	all := refSet{}
	for i, a := range args {
		if i != skip {
			all.add(s.reach(o, a, true))
		}
	}
	out := make([]refSet, len(fn.Params))
	for i, p := range fn.Params {
		if holds(p.Type()) {
			out[i] = all
		}
	}
	return out
}

var addrTakenCache = map[*World][]*ssa.Function{}

func (o *Own) addrTaken() []*ssa.Function {
	if l, ok := addrTakenCache[o.w]; ok {
		return l
	}
	set := map[*ssa.Function]bool{}
	for _, f := range o.w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					set[mc.Fn.(*ssa.Function)] = true
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && o.follows(g) {
						if ci, isCall := in.(ssa.CallInstruction); isCall && ci.Common().Value == g {
							continue
						}
						set[g] = true
					}
				}
			}
		}
	}
	var l []*ssa.Function
	for f := range set {
		l = append(l, f)
	}
	sort.Slice(l, func(i, j int) bool { return fnName(l[i]) < fnName(l[j]) })
	addrTakenCache[o.w] = l
	return l
}

func (o *Own) builtin(s *fnOwn, in ssa.CallInstruction, name string, args []refSet) {
	pos, fn := o.w.InstrPos(in), fnName(s.fn)
	cm := in.Common()
	for i, a := range cm.Args {
		switch a.Type().Underlying().(type) {
		case *types.Slice, *types.Map:
			args[i] = o.only(s, args[i], a.Type())
		}
	}
	switch name {
	case "append":
		v := in.Value()
		if v == nil {
			return
		}
		et := elemType(v.Type())
		l := o.fresh(in, callCtx{}, "append", v.Type())
		dst := refSet{ownRef{l, ""}: true}
		o.copyElems(s, ownRef{l, ""}, args[0], et)
		for r := range args[0] {
			dst[r] = true
			s.write(mkRef(r.l, join(r.f, "e")), "E:"+typeKey(et), pos, fn, "", types.NewSlice(et))
		}
		if len(args) > 1 && holds(et) {
			for r := range dst {
				o.copyElems(s, r, args[1], et)
			}
		}
		s.set(v, dst)
	case "copy":
		et := elemType(cm.Args[0].Type())
		for r := range args[0] {
			s.write(mkRef(r.l, join(r.f, "e")), "E:"+typeKey(et), pos, fn, "", types.NewSlice(et))
			o.copyElems(s, r, args[1], et)
		}
	case "delete", "clear":
		for r := range args[0] {
			if _, ok := cm.Args[0].Type().Underlying().(*types.Map); ok {
				s.write(r, "M:"+typeKey(cm.Args[0].Type()), pos, fn, "", cm.Args[0].Type())
			} else {
				s.write(mkRef(r.l, join(r.f, "e")), "E:"+typeKey(elemType(cm.Args[0].Type())), pos, fn, "", cm.Args[0].Type())
			}
		}
	case "ssa:wrapnilchk":
		s.setRes(in, 0, args[0])
	}
}

func (o *Own) copyElems(s *fnOwn, dst ownRef, src refSet, et types.Type) {
	if isAggregate(et) {
		s.assign(o, mkRef(dst.l, join(dst.f, "e")), shift(src, "e"), et)
		return
	}
	if holds(et) {
		s.edge(o, mkRef(dst.l, join(dst.f, "e")), s.loadAll(o, src, "e"), et)
	}
}

func (o *Own) reaches(a, b *ssa.Function) bool {
	m := o.rch[a]
	if m == nil {
		m = o.w.Reach([]*ssa.Function{a})
		o.rch[a] = m
	}
	return a == b || m[b]
}

// apply uses the summary of a callee.
func (o *Own) apply(s *fnOwn, in ssa.CallInstruction, fn *ssa.Function, args []refSet, fv refSet) {
	if !o.follows(fn) {
		return
	}
	o.get(fn)
	g := o.getSome(fn, s.someArgs(in.Common(), fn))
	g.users[s] = true
	rec := o.reaches(fn, s.fn)
	memo := map[*ownLab]refSet{}
	var tr func(l *ownLab) refSet
	tr = func(l *ownLab) refSet {
		if r, ok := memo[l]; ok {
			return r
		}
		out := refSet{}
		memo[l] = out
		switch l.kind {
		case labGlobal:
			out[ownRef{l, ""}] = true
		case labFresh:
			call := l.call
			if !rec {
				call = call.through(in)
			}
			out[ownRef{o.fresh(l.site, call, l.glob, l.typ), ""}] = true
		default:
			var cur refSet
			if l.par < 0 {
				cur = fv
			} else if l.par < len(args) {
				cur = args[l.par]
			}
			// vt: the type of the value that refers to cur
			var vt types.Type = fn.Signature
			if l.par >= 0 {
				vt = fn.Params[l.par].Type()
			}
			cur = o.ofType(s, cur, vt)
			for _, f := range l.path {
				cur = s.loadAll(o, cur, f)
				if vt != nil {
					pt, any := pointee(vt)
					vt = nil
					if !any && pt != nil {
						vt = partType(pt, f)
					}
					if vt != nil {
						cur = o.ofType(s, cur, vt)
					}
				}
			}
			if l.star {
				below := refSet{}
				for r := range cur {
					below.add(s.children(o, r.l))
				}
				cur = s.reach(o, below, false)
			}
			out.add(cur)
		}
		return out
	}
	trRef := func(r ownRef) refSet {
		if !r.l.star || r.f == "" {
			return shift(tr(r.l), r.f)
		}
		out := refSet{}
		for at := range tr(r.l) {
			o.partsNamed(s, at, r.f, out)
		}
		return out
	}
	type ge struct {
		r ownRef
		e []ownRef
		t []types.Type
	}
	var ges []ge
	exp := g.exported(o)
	for r, e := range g.edges {
		if r.l.kind == labFresh && !exp[ownRef{r.l, ""}] {
			continue
		}
		var ts []types.Type
		for _, t := range g.etyp[r] {
			ts = append(ts, t)
		}
		ges = append(ges, ge{r, sortedRefs(e), ts})
	}
	for _, x := range ges {
		r, e := x.r, x.e
		dst := refSet{}
		for _, v := range e {
			dst.add(trRef(v))
		}
		for at := range trRef(r) {
			if o.part(s, at, nil) {
				for _, t := range x.t {
					s.edge(o, at, dst, t)
				}
			}
		}
	}
	var ws []*ownWrite
	for _, wr := range g.writes {
		ws = append(ws, wr)
	}
	via := o.w.InstrPos(in) + " " + fnName(fn)
	cm := in.Common()
	for _, wr := range ws {
		if l := wr.r.l; l.kind == labParam && l.par >= 0 && len(l.path) == 0 && !l.star {
			i := l.par
			if cm.IsInvoke() {
				i--
			}
			if i >= 0 && i < len(cm.Args) && cm.StaticCallee() == fn && o.traced(in, wr.key, cm.Args[i]) {
				continue
			}
		}
		for at := range trRef(wr.r) {
			if o.part(s, at, wr.of) {
				s.write(at, wr.key, wr.pos, wr.fn, via, wr.of)
			}
		}
	}
	for i, rs := range g.rets {
		out := refSet{}
		for r := range rs {
			out.add(trRef(r))
		}
		s.setRes(in, i, o.ofType(s, out, fn.Signature.Results().At(i).Type()))
	}
}

// partsNamed adds the parts of the memory referred to whose last step is f.
func (o *Own) partsNamed(s *fnOwn, at ownRef, f string, out refSet) {
	mt, known := o.memType(s, at.l)
	if at.l.star || !known || strings.ContainsAny(f, "@*") {
		out[mkRef(at.l, f)] = true
		return
	}
	if strings.Contains(f, ":") {
		if _, ok := mt.Underlying().(*types.Signature); ok {
			out[mkRef(at.l, f)] = true
		}
		return
	}
	for _, p := range namedParts(mt, f, "", 0) {
		if at.f == "" || p == at.f || strings.HasPrefix(p, at.f+"/") {
			out[mkRef(at.l, p)] = true
		}
	}
}

func namedParts(t types.Type, f, at string, d int) []string {
	if d > 4 {
		return nil
	}
	var out []string
	sub := func(name string, t types.Type) {
		if name == f {
			out = append(out, join(at, name))
		}
		if isAggregate(t) {
			out = append(out, namedParts(t, f, join(at, name), d+1)...)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			sub(u.Field(i).Name(), u.Field(i).Type())
		}
	case *types.Slice:
		sub("e", u.Elem())
	case *types.Array:
		sub("e", u.Elem())
	case *types.Map:
		sub("k", u.Key())
		sub("e", u.Elem())
	case *types.Chan:
		sub("e", u.Elem())
	}
	return out
}

// exported: fresh memory that is still reachable after the function returned.
func (s *fnOwn) exported(o *Own) refSet {
	rs := refSet{}
	for _, r := range s.rets {
		rs.add(r)
	}
	for r, e := range s.edges {
		if r.l.kind != labFresh {
			rs.add(e)
		}
	}
	return s.reach(o, rs, true)
}

// keysOf are the kinds of pre-existing memory a function may write.
func (s *fnOwn) keysOf() map[string]bool {
	out := map[string]bool{}
	for k := range s.writes {
		out[k.key] = true
	}
	return out
}

// external models library functions that write to or pass on their arguments in
// a way of their own; it reports false for those the default covers.
func (o *Own) external(s *fnOwn, in ssa.CallInstruction, fn *ssa.Function, args []refSet) bool {
	name := fn.RelString(nil)
	if or := fn.Origin(); or != nil {
		name = or.RelString(nil)
	}
	pos, self := o.w.InstrPos(in), fnName(s.fn)
	res := in.Value()
	freshRes := func(elems refSet) {
		if res == nil {
			return
		}
		l := o.reflected(in, name, res.Type())
		s.edge(o, ownRef{l, "*"}, elems, nil)
		s.setRes(in, 0, refSet{ownRef{l, ""}: true})
	}
	switch {
	case strings.HasPrefix(name, "(reflect.Value)."):
		switch fn.Name() {
		case "Set", "SetIterKey", "SetIterValue", "SetMapIndex", "SetBool", "SetInt", "SetUint", "SetFloat", "SetString", "SetBytes", "SetComplex",
			"SetLen", "SetCap", "SetZero", "Grow", "Clear", "SetPointer":
			for r := range args[0] {
				s.write(r, "R", pos, self, "", nil)
				for _, a := range args[1:] {
					o.setThrough(s, r.l, a)
				}
			}
		case "Call", "CallSlice":
			o.extDefault(s, in, name, args)
		case "Interface", "Elem", "Field", "FieldByName", "FieldByIndex", "Index", "MapIndex", "MapKeys", "MapRange", "Addr", "Convert", "Slice", "Slice3", "Method", "MethodByName", "Pointer", "UnsafePointer", "Bytes":
			rs := s.reach(o, args[0], false)
			if fn.Name() == "MapKeys" {
				l := o.fresh(in, callCtx{}, name, res.Type())
				s.edge(o, ownRef{l, "e"}, rs, nil)
				rs = refSet{ownRef{l, ""}: true}
			}
			for i := 0; i < 2; i++ {
				s.setRes(in, i, rs)
			}
		}
		return true
	case name == "reflect.ValueOf" || name == "reflect.Indirect":
		rs := args[0]
		if name == "reflect.Indirect" {
			rs = s.reach(o, rs, false)
		}
		s.setRes(in, 0, rs)
		return true
	case name == "reflect.Append" || name == "reflect.AppendSlice":
		for r := range args[0] {
			s.write(r, "R", pos, self, "", nil)
			for _, a := range args[1:] {
				o.setThrough(s, r.l, s.reach(o, a, true))
			}
		}
		freshRes(args[0])
		return true
	case name == "reflect.Copy":
		for r := range args[0] {
			s.write(r, "R", pos, self, "", nil)
			o.setThrough(s, r.l, s.reach(o, args[1], true))
		}
		return true
	case strings.HasPrefix(name, "reflect."):
		freshRes(nil)
		return true
	case strings.HasPrefix(name, "(*bytes.Buffer)."), strings.HasPrefix(name, "(*strings.Builder)."):
		switch fn.Name() {
		case "String", "Len", "Cap", "Bytes", "Available":
			if fn.Name() == "Bytes" {
				s.setRes(in, 0, args[0])
			}
		default:
			for r := range args[0] {
				s.write(r, "B", pos, self, "", nil)
			}
		}
		return true
	case strings.HasPrefix(name, "sort."), strings.HasPrefix(name, "slices."), strings.HasPrefix(name, "maps."):
		n := fn.Name()
		if or := fn.Origin(); or != nil {
			n = or.Name()
		}
		n = strings.SplitN(n, "[", 2)[0]
		mod := strings.HasPrefix(name, "sort.") && !strings.HasPrefix(n, "Search") && !strings.Contains(n, "AreSorted") && n != "IsSorted" && n != "SliceIsSorted" && n != "Reverse" && n != "Find"
		for _, p := range []string{"Sort", "Reverse", "Delete", "Compact", "Insert", "Replace", "Copy"} {
			if !strings.HasPrefix(name, "sort.") && strings.HasPrefix(n, p) {
				mod = true
			}
		}
		if n == "Sorted" || n == "SortedFunc" || n == "SortedStableFunc" {
			mod = false
		}
		if n == "Clone" || n == "Concat" || n == "Sorted" || n == "Collect" {
			el := refSet{}
			for _, a := range args {
				for r := range a {
					el.add(s.children(o, r.l))
				}
			}
			freshRes(el)
			return true
		}
		if mod && len(args) > 0 {
			for r := range args[0] {
				s.write(mkRef(r.l, join(r.f, "e")), "E:sort", pos, self, "", nil)
			}
		}
		return false
	}
	return false
}

// reflected is memory that library code allocated; what reflection makes is one
// region per call context.
func (o *Own) reflected(in ssa.Instruction, name string, t types.Type) *ownLab {
	if strings.HasPrefix(name, "reflect.") || strings.HasPrefix(name, "(reflect.Value)") || strings.HasPrefix(name, gotypesPath) || strings.Contains(name, "/reflectutils.") {
		return o.intern("Freflect", func() *ownLab { return &ownLab{kind: labFresh, glob: "reflect", typ: t} })
	}
	return o.fresh(in, callCtx{}, name, t)
}

// setThrough records what is stored through reflection; of what is put into
// memory that existed before, only which argument it came from.
func (o *Own) setThrough(s *fnOwn, l *ownLab, rs refSet) {
	if l.kind == labFresh {
		s.edge(o, ownRef{l, "@set"}, rs, nil)
		return
	}
	out := refSet{}
	for r := range s.reach(o, rs, true) {
		switch r.l.kind {
		case labParam:
			if len(r.l.path) == 0 && !r.l.star {
				out[r] = true
			}
			out[ownRef{o.param(r.l.par, nil, true, nil), ""}] = true
		case labGlobal:
			out[r] = true
		}
	}
	s.edge(o, ownRef{l, "@set"}, out, nil)
}

// extDefault: library code does not write to its arguments, and its results may
// refer to anything they refer to.
func (o *Own) extDefault(s *fnOwn, in ssa.CallInstruction, name string, args []refSet) {
	v := in.Value()
	if strings.HasSuffix(name, ".UnmarshalJSON") || strings.HasPrefix(name, "encoding/json.Unmarshal") {
		at := args[0]
		if !strings.HasSuffix(name, ".UnmarshalJSON") && len(args) > 1 {
			at = args[1]
		}
		for r := range s.reach(o, at, false) {
			s.write(r, "R", o.w.InstrPos(in), fnName(s.fn), "", nil)
		}
	}
	if v == nil {
		return
	}
	n := 1
	tp, isTup := v.Type().(*types.Tuple)
	if isTup {
		n = tp.Len()
	}
	for i := 0; i < n; i++ {
		t := v.Type()
		if isTup {
			t = tp.At(i).Type()
		}
		if !holds(t) || isErrorType(t) {
			continue
		}
		l := o.reflected(in, fmt.Sprint(name, i), t)
		rs := refSet{ownRef{l, ""}: true}
		for _, a := range args {
			rs.add(a)
			s.edge(o, ownRef{l, "*"}, a, nil)
		}
		s.setRes(in, i, rs)
	}
}
