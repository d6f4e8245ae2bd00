package main

import (
	"golang.org/x/tools/go/ssa"
)

func init() { checks["C03"] = check{explainC03, runC03} }

const explainC03 = "Every method that renders a node to JSON text or to a query string was interpreted along all its paths (helpers inlined, loops cut with an invariant). Each text it composes was abstracted to its effect on a reader that is outside quotes, inside quotes or after a backslash. Text that is neither constant, a formatted number nor the rendering of another node counts as content: in JSON text it is accepted only byte by byte inside quotes, and for each of the 256 byte values the code that the path conditions allow for it must emit no raw quote, backslash or control character; in a query string it is accepted only through percent-encoding. Not covered: YAML text, which a library produces from the JSON text."

func runC03(w *World, r *Rep) {
	obls := newObls(w, r)
	for _, tn := range w.NodeTypes() {
		it := w.NodeIface()
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			g := w.renderGroup(m)
			if g == 0 {
				continue
			}
			fn, _ := w.Method(tn, m.Name())
			if fn == nil || fn.Blocks == nil {
				continue
			}
			t := newTxt(w, fn, g == 'q')
			rule := "quoted"
			if g == 'q' {
				rule = "percent-encoded"
			}
			seen := map[ssa.Instruction]bool{}
			t.bad = func(b *tbad) {
				in := b.inst
				if in == nil || in.Parent() == nil {
					in = retInstr(fn)
				}
				if !seen[in] {
					seen[in] = true
				}
				obls.need(nil, in, rule, fnName(fn), false, "%s", b.msg)
			}
			t.ok = func(string) { obls.need(nil, retInstr(fn), rule, fnName(fn), true, "") }
			if !t.run() {
				r.Bad(rule, fnName(fn), "paths", w.InstrPos(retInstr(fn)), "too many paths to follow")
			}
			r.Visit(fnName(fn))
		}
	}
	obls.finish()
	r.AtLeast("quoted", 8)
	r.AtLeast("percent-encoded", 6)
}
