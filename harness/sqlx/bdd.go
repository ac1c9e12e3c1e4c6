package sqlx

import "fmt"

// Decision diagrams: the comparison of conditions of more atoms than can be tabulated. Every atom has two
// variables, "it is true" and "it is false if it is not true", so that every assignment of the variables
// is one of true, false and unknown to the atoms, and a condition is the pair (when true, when false).
// Reduced ordered diagrams are unique: two conditions are equivalent exactly when their pairs are equal.

type node struct{ v, lo, hi int }

type bdd struct {
	nodes []node // 0 false, 1 true
	uniq  map[node]int
	and   map[[2]int]int
	neg   map[int]int
}

func newBDD() *bdd {
	const last = 1 << 30
	return &bdd{nodes: []node{{last, 0, 0}, {last, 1, 1}}, uniq: map[node]int{}, and: map[[2]int]int{}, neg: map[int]int{}}
}

func (b *bdd) mk(v, lo, hi int) int {
	if lo == hi {
		return lo
	}
	n := node{v, lo, hi}
	if i, ok := b.uniq[n]; ok {
		return i
	}
	b.nodes = append(b.nodes, n)
	b.uniq[n] = len(b.nodes) - 1
	return len(b.nodes) - 1
}

func (b *bdd) not(x int) int {
	if x < 2 {
		return 1 - x
	}
	if r, ok := b.neg[x]; ok {
		return r
	}
	n := b.nodes[x]
	r := b.mk(n.v, b.not(n.lo), b.not(n.hi))
	b.neg[x] = r
	return r
}

func (b *bdd) conj(x, y int) int {
	switch {
	case x == 0 || y == 0:
		return 0
	case x == 1 || x == y:
		return y
	case y == 1:
		return x
	}
	if x > y {
		x, y = y, x
	}
	k := [2]int{x, y}
	if r, ok := b.and[k]; ok {
		return r
	}
	n, m := b.nodes[x], b.nodes[y]
	v := min(n.v, m.v)
	xl, xh, yl, yh := x, x, y, y
	if n.v == v {
		xl, xh = n.lo, n.hi
	}
	if m.v == v {
		yl, yh = m.lo, m.hi
	}
	r := b.mk(v, b.conj(xl, yl), b.conj(xh, yh))
	b.and[k] = r
	return r
}

func (b *bdd) disj(x, y int) int { return b.not(b.conj(b.not(x), b.not(y))) }

func (e *Expr) diagram(b *bdd, at map[string]int) (t, f int) {
	switch e.Kind {
	case KConst:
		if e.Val {
			return 1, 0
		}
		return 0, 1
	case KAtom:
		v := 2 * at[e.Atom]
		t = b.mk(v, 0, 1)
		if e.Two {
			return t, b.not(t)
		}
		return t, b.conj(b.not(t), b.mk(v+1, 0, 1))
	case KNot:
		t, f = e.Kids[0].diagram(b, at)
		return f, t
	case KAnd:
		t, f = 1, 0
		for i := len(e.Kids) - 1; i >= 0; i-- {
			kt, kf := e.Kids[i].diagram(b, at)
			t, f = b.conj(kt, t), b.disj(kf, f)
		}
		return
	}
	t, f = 0, 1
	for i := len(e.Kids) - 1; i >= 0; i-- {
		kt, kf := e.Kids[i].diagram(b, at)
		t, f = b.disj(kt, t), b.conj(kf, f)
	}
	return
}

// equivDiagram is Equiv for conditions over many atoms.
func equivDiagram(a, c *Expr, order []string) (bool, string) {
	at := map[string]int{}
	for i, k := range order {
		at[k] = i
	}
	b := newBDD()
	at1, af := a.diagram(b, at)
	ct, cf := c.diagram(b, at)
	if at1 == ct && af == cf {
		return true, ""
	}
	// a witness: any assignment where one side of the pairs differs
	x, y := at1, ct
	if x == y {
		x, y = af, cf
	}
	d := b.disj(b.conj(x, b.not(y)), b.conj(y, b.not(x)))
	set := map[int]bool{}
	for d > 1 {
		n := b.nodes[d]
		if n.hi != 0 {
			set[n.v], d = true, n.hi
		} else {
			set[n.v], d = false, n.lo
		}
	}
	value := func(t, f int) string {
		walk := func(i int) bool {
			for i > 1 {
				n := b.nodes[i]
				if set[n.v] {
					i = n.hi
				} else {
					i = n.lo
				}
			}
			return i == 1
		}
		switch {
		case walk(t):
			return "true"
		case walk(f):
			return "false"
		}
		return "unknown"
	}
	w := ""
	for i, k := range order {
		s := "unknown"
		if set[2*i] {
			s = "true"
		} else if v, ok := set[2*i+1]; ok && v {
			s = "false"
		}
		if w != "" {
			w += ", "
		}
		w += k + " is " + s
	}
	return false, fmt.Sprintf("when %s: first is %s, second is %s", w, value(at1, af), value(ct, cf))
}
