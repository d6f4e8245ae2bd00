package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C30"] = check{explainC30, runC30} }

const explainC30 = "Modular path-sensitive interpretation (go/ssa, linear arithmetic, inferred contracts and loop invariants) of every exported function and method from which package reflect cannot be reached, and of all they call: each index, slice, conversion, dereference, map write, division and library precondition on every path is an obligation that must follow from the path's facts."

var missingTree = map[string]bool{"QueryBoolean": true, "GetQueryStringArray": true, "GetAnyString": true, "GetAnyString2": true, "GetArrayOfPrefix": true}

func runC30(w *World, r *Rep) {
	parses := map[string]bool{}
	for _, n := range parseRoots {
		parses[n] = true // C01
	}
	var roots []*ssa.Function
	for _, f := range w.MainFuncs() {
		if f.Blocks == nil || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if parses[f.Name()] || w.reflects(f) {
			continue
		}
		roots = append(roots, f)
		r.Visit(fnName(f))
	}
	h := NewHoudini(w, roots)
	h.RootPre = func(x *Exec, fn *ssa.Function, args []*Term) {
		if rx, m := recvType(fn); m != "SetAt" || rx == nil {
			return
		}
		// SetAt replaces an existing element, as indexing does
		for i, p := range fn.Params {
			if !isInt(p.Type()) {
				continue
			}
			idx := x.Lin(args[i])
			x.addLin(idx)
			for _, l := range recvSlices(x, args[0]) {
				x.addLin(x.Lin(x.LenOf(l)).sub(idx).plus(-1))
			}
		}
	}
	// the query helpers accept a missing tree
	h.Nilable = func(pv *ssa.Parameter) bool {
		return missingTree[pv.Parent().Name()] && pv.Parent().Signature.Recv() == nil && w.isNodeIface(pv.Type())
	}
	h.Infer()
	p := newPanics(w, h, r)
	p.arm()
	h.Check()
	p.finish()
	r.AtLeast("index", 10)
	r.AtLeast("nil", 20)
	r.Assume = append(r.Assume,
		"SetAt is given the index of an element; lengths in memory are below 2^36; the call stack suffices",
		"pointers held in fields, slices and parameters of exported functions are not nil; containers hold no nil node",
		"library functions do not panic except under the preconditions checked here; panics inside String methods called by fmt are caught by fmt",
		"calls through interfaces reach the package's own types only")
	r.Notes = append(r.Notes, fmt.Sprintf("%d entry points, %d contracts, %d rounds of inference", len(roots), len(h.keys), h.rounds))
}

func recvType(f *ssa.Function) (types.Type, string) {
	if f.Signature.Recv() == nil || len(f.Params) == 0 {
		return nil, f.Name()
	}
	return f.Signature.Recv().Type(), f.Name()
}

// recvSlices are the slices in the struct the receiver points to.
func recvSlices(x *Exec, recv *Term) (out []*Term) {
	pt, ok := recv.typ.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return
	}
	v := x.Load(recv)
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if _, ok := ft.Underlying().(*types.Slice); ok {
			out = append(out, x.field(v, i, ft))
		}
	}
	return
}

// reflects: package reflect may be called below.
func (w *World) reflects(f *ssa.Function) bool {
	for g := range w.Reach([]*ssa.Function{f}) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if c := ci.Common().StaticCallee(); c != nil && c.Pkg != nil && c.Pkg.Pkg.Path() == "reflect" {
						return true
					}
				}
			}
		}
	}
	return false
}
