package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C32"] = check{explainC32, runC32} }

const explainC32 = "Every exported function that reads JSON text from an offset and returns the position reached was interpreted along all its paths, and the bytes between the offset and a position were fed to a reader of the parser's language (JSON with both kinds of quotes, bare words, empty values and a comma before a closing bracket): a stack of open brackets and what may come next. A position is the sum of the bytes passed, each with the values the path's tests leave possible, a byte that was not looked at with all 256. Functions on a cycle of calls, and larger parts that return a position and an error, are analysed on their own, once for what is known of the first byte, and stand for the reader states they lead to; the states of loops and of these functions are computed to a fixpoint. Wherever the function reports success the reader must have read exactly one value and be inside no string and no bracket."

func runC32(w *World, r *Rep) {
	obls := newObls(w, r)
	rule := "structure complete"
	var roots []*ssa.Function
	for _, f := range w.Funcs {
		if o, ok := f.Object().(*types.Func); ok && o.Exported() && f.Blocks != nil && len(resultsOf(f, isInt)) > 0 && paramOf(f, isText) >= 0 && paramOf(f, isInt) >= 0 {
			roots = append(roots, f)
		}
	}
	ps := newParsers(w)
	bad := map[*ssa.Function]bool{}
	ps.report = func(c *pctx, in ssa.Instruction, msg string) {
		bad[c.fn] = true
		obls.need(nil, in, rule, fnName(c.fn), false, "%s", msg)
	}
	if !ps.run(roots) {
		r.Bad(rule, "-", "paths", "", "too many paths to follow")
	}
	for _, c := range ps.order {
		r.Visit(fnName(c.fn))
		if !bad[c.fn] && c.paths > 0 {
			obls.need(nil, retInstr(c.fn), rule, fnName(c.fn), true, "")
		}
	}
	obls.finish()
	r.AtLeast(rule, 1)
}
