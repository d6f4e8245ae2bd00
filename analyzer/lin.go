package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Lin is c + Σ k·t, used as the constraint "Lin >= 0".
type linv struct {
	t *Term
	k int64
}
type Lin struct {
	c int64
	v []linv
}

func linConst(c int64) Lin { return Lin{c: c} }
func linVar(t *Term) Lin   { return Lin{v: []linv{{t, 1}}} }

const linBig = int64(1) << 40

func (a Lin) addScaled(b Lin, k int64) (Lin, bool) {
	r := Lin{c: a.c + k*b.c}
	i, j := 0, 0
	for i < len(a.v) || j < len(b.v) {
		switch {
		case j >= len(b.v) || (i < len(a.v) && a.v[i].t.id < b.v[j].t.id):
			r.v = append(r.v, a.v[i])
			i++
		case i >= len(a.v) || a.v[i].t.id > b.v[j].t.id:
			if k != 0 {
				r.v = append(r.v, linv{b.v[j].t, k * b.v[j].k})
			}
			j++
		default:
			if s := a.v[i].k + k*b.v[j].k; s != 0 {
				r.v = append(r.v, linv{a.v[i].t, s})
			}
			i++
			j++
		}
	}
	if r.c > linBig || r.c < -linBig {
		return r, false
	}
	for _, x := range r.v {
		if x.k > linBig || x.k < -linBig {
			return r, false
		}
	}
	return r, true
}

func (a Lin) add(b Lin) Lin { r, _ := a.addScaled(b, 1); return r }
func (a Lin) sub(b Lin) Lin { r, _ := a.addScaled(b, -1); return r }
func (a Lin) plus(c int64) Lin {
	return Lin{c: a.c + c, v: a.v}
}
func (a Lin) neg() Lin { r, _ := Lin{}.addScaled(a, -1); return r }

func (a Lin) coef(t *Term) int64 {
	for _, x := range a.v {
		if x.t == t {
			return x.k
		}
	}
	return 0
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func (a Lin) normalize() Lin {
	var g int64
	for _, x := range a.v {
		g = gcd64(g, x.k)
	}
	if g > 1 {
		r := Lin{c: floorDiv(a.c, g), v: make([]linv, len(a.v))}
		for i, x := range a.v {
			r.v[i] = linv{x.t, x.k / g}
		}
		return r
	}
	return a
}

func (a Lin) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d", a.c)
	for _, x := range a.v {
		fmt.Fprintf(&b, ",%d*%d", x.k, x.t.id)
	}
	return b.String()
}

func (a Lin) String() string {
	var parts []string
	for _, x := range a.v {
		parts = append(parts, fmt.Sprintf("%+d·%s", x.k, x.t))
	}
	parts = append(parts, fmt.Sprintf("%+d", a.c))
	return strings.Join(parts, " ") + " >= 0"
}

// fmInfeasible decides by Fourier–Motzkin elimination with integer tightening
// whether the constraints have no solution. false means "not shown".
func fmInfeasible(cs []Lin) bool {
	bad, other := dbmInfeasible(cs)
	if bad {
		return true
	}
	if !other {
		return false
	}
	set := map[string]int{}
	var cur []Lin
	add := func(l Lin) bool {
		l = l.normalize()
		if len(l.v) == 0 {
			return l.c < 0
		}
		// constraints over the same combination: only the tightest matters
		k := l.vkey()
		if i, ok := set[k]; ok {
			if l.c < cur[i].c {
				cur[i] = l
			}
		} else {
			set[k] = len(cur)
			cur = append(cur, l)
		}
		return false
	}
	for _, l := range cs {
		if add(l) {
			return true
		}
	}
	for len(cur) > 0 {
		// choose the variable with the fewest products
		type cnt struct{ p, n int }
		m := map[*Term]*cnt{}
		for _, l := range cur {
			for _, x := range l.v {
				c := m[x.t]
				if c == nil {
					c = &cnt{}
					m[x.t] = c
				}
				if x.k > 0 {
					c.p++
				} else {
					c.n++
				}
			}
		}
		var best *Term
		bestCost := 1 << 30
		vars := make([]*Term, 0, len(m))
		for t := range m {
			vars = append(vars, t)
		}
		sort.Slice(vars, func(i, j int) bool { return vars[i].id < vars[j].id })
		for _, t := range vars {
			c := m[t]
			cost := c.p*c.n - c.p - c.n
			if cost < bestCost {
				best, bestCost = t, cost
			}
		}
		var pos, neg, rest []Lin
		for _, l := range cur {
			switch k := l.coef(best); {
			case k > 0:
				pos = append(pos, l)
			case k < 0:
				neg = append(neg, l)
			default:
				rest = append(rest, l)
			}
		}
		if len(pos)*len(neg)+len(rest) > 400 {
			return false
		}
		cur = nil
		set = map[string]int{}
		for _, l := range rest {
			if add(l) {
				return true
			}
		}
		for _, p := range pos {
			for _, n := range neg {
				kp, kn := p.coef(best), -n.coef(best)
				g := gcd64(kp, kn)
				r, ok := Lin{}.addScaled(p, kn/g)
				if !ok {
					continue
				}
				r, ok = r.addScaled(n, kp/g)
				if !ok {
					continue
				}
				if add(r) {
					return true
				}
			}
		}
	}
	return false
}

func (a Lin) vkey() string {
	b := make([]byte, 0, len(a.v)*8)
	for _, x := range a.v {
		b = append(b, byte(x.t.id), byte(x.t.id>>8), byte(x.t.id>>16), byte(x.t.id>>24), byte(x.k), byte(x.k>>8), byte(x.k>>16), byte(x.k>>24))
	}
	return string(b)
}

// dbmInfeasible looks for a negative cycle among the constraints that only
// bound a variable or the difference of two; other tells whether there are
// constraints of another form.
func dbmInfeasible(cs []Lin) (bad, other bool) {
	type edge struct {
		u, v int
		w    int64
	}
	idx := map[*Term]int{}
	node := func(t *Term) int {
		if i, ok := idx[t]; ok {
			return i
		}
		idx[t] = len(idx) + 1
		return len(idx)
	}
	var es []edge
	for _, l := range cs {
		l = l.normalize()
		switch len(l.v) {
		case 0:
			if l.c < 0 {
				return true, false
			}
		case 1:
			switch l.v[0].k {
			case 1: // x + c >= 0: 0 - x <= c
				es = append(es, edge{node(l.v[0].t), 0, l.c})
			case -1:
				es = append(es, edge{0, node(l.v[0].t), l.c})
			default:
				other = true
			}
		case 2:
			a, b := l.v[0], l.v[1]
			if a.k == -1 && b.k == 1 {
				a, b = b, a
			}
			if a.k == 1 && b.k == -1 { // b - a <= c
				es = append(es, edge{node(a.t), node(b.t), l.c})
			} else {
				other = true
			}
		default:
			other = true
		}
	}
	n := len(idx) + 1
	d := make([]int64, n)
	for i := 0; i < n; i++ {
		ch := false
		for _, e := range es {
			if d[e.u]+e.w < d[e.v] {
				d[e.v] = d[e.u] + e.w
				ch = true
			}
		}
		if !ch {
			return false, other
		}
	}
	return true, other
}

// intWidth returns (bits, signed) of an integer type.
func intWidth(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 0, false
}

// widens reports whether converting from a to b keeps every value.
func widens(a, b types.Type) bool {
	wa, sa := intWidth(a)
	wb, sb := intWidth(b)
	if wa == 0 || wb == 0 {
		return false
	}
	if sa == sb {
		return wb >= wa
	}
	return !sa && sb && wb > wa
}
