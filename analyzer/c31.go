package main

import "golang.org/x/tools/go/ssa"

func init() { checks["C31"] = check{explainC31, runC31} }

const explainC31 = "Every method that renders a node to JSON text was interpreted along all its paths (helpers inlined), and the text it writes, composes, joins or returns was fed to a reader of JSON: a stack of open brackets and what may come next (value, key, colon, comma, closing bracket, the rest of a string, number, literal or reference). Constant text is read character by character, formatted numbers, booleans, quoted texts and the renderings of other nodes as one value, content of the tree only inside quotes. A loop is judged for its first turn and for a later one: what a later turn may find (reader states, counters above their first value, flags and separators with the value every turn leaves, whether another element follows) is computed to a fixpoint over all turns. On every path the reader must end having read exactly one complete value. The renderings of children are taken to be single values, which the same check shows for their types."

func runC31(w *World, r *Rep) {
	obls := newObls(w, r)
	rule := "well-formed text"
	for _, tn := range w.NodeTypes() {
		it := w.NodeIface()
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			if w.renderGroup(m) != 'j' {
				continue
			}
			fn, _ := w.Method(tn, m.Name())
			if fn == nil || fn.Blocks == nil {
				continue
			}
			g := newGram(w, fn)
			bad := false
			g.report = func(in ssa.Instruction, msg string) {
				if in == nil || in.Parent() == nil {
					in = retInstr(fn)
				}
				bad = true
				obls.need(nil, in, rule, fnName(fn), false, "%s", msg)
			}
			if !g.run() {
				r.Bad(rule, fnName(fn), "paths", w.InstrPos(retInstr(fn)), "too many paths to follow")
			} else if !bad && g.judged > 0 {
				obls.need(nil, retInstr(fn), rule, fnName(fn), true, "")
			} else if !bad {
				r.Bad(rule, fnName(fn), "no text", w.InstrPos(retInstr(fn)), "no path on which the function writes a text was found")
			}
			r.Visit(fnName(fn))
		}
	}
	r.Assume = append(r.Assume, "floats are finite and numbers of references are not negative")
	r.Assume = append(r.Assume, "nodes in containers are non-nil, and the bytes of content inside quotes are harmless (decided by C03)")
	obls.finish()
	r.AtLeast(rule, 8)
}
