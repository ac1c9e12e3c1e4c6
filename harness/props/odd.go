package props

import (
	"fmt"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
)

// Lists of conditions all alike but one, at every place.

func oddMembers(c *mc.Ctx) []cond {
	n := &namer{}
	most := big(c, 130, 300)
	k := 2 + size(c, c.Bound-2, most)
	var places []int
	if k <= c.Bound {
		for p := 0; p < k; p++ {
			places = append(places, p)
		}
	} else {
		for _, p := range []int{0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, k / 2, k - 2, k - 1} {
			if p < k {
				places = append(places, p)
			}
		}
	}
	place := places[c.Choose(len(places))]
	kind := c.Choose(9)
	c.Op("%d conditions, odd one %d of kind %d", k, place, kind)
	c.State("odd", fmt.Sprint(k, place, kind))
	var cs []cond
	for i := 0; i < k; i++ {
		x := n.eq()
		if i != place {
			if kind == 1 || kind == 7 {
				x = model.Join(x, or)
			}
			cs = append(cs, x)
			continue
		}
		switch kind {
		case 0:
			x = model.Join(x, or)
		case 2:
			x = model.Not(x)
		case 3:
			x = model.NewGroup(or, x, n.eq())
		case 4:
			x = model.Join(model.NewGroup(and, x, n.eq()), or)
		case 5:
			x = model.NewGroup(or)
		case 6:
			x = model.Join(model.Not(model.NewGroup(or, x, n.op("IN"))), or)
		case 7:
			x = n.op("IN")
		case 8:
			x, _ = model.Combine(model.Method, or, x, n.eq())
		}
		cs = append(cs, x)
	}
	return cs
}

const oddDoc = "lists of conditions of every length up to <bound> (and around powers of two and ten up to 130, thorough to 300) all joined alike but one of nine kinds (joined otherwise, negated, a group, an empty group, a list) at every place (some places of the longer ones): "

func init() {
	ext := func(id, doc string, body func(c *mc.Ctx, cs []cond)) {
		mc.Extend(id, mc.Family{Name: "odd-one", Quick: []int{10}, Thorough: []int{34}, Doc: oddDoc + doc, Body: func(c *mc.Ctx) { body(c, oddMembers(c)) }})
	}
	ext("C24", "given to one Where call of each kind of builder, with further calls before and after", func(c *mc.Ctx, cs []cond) {
		n := &namer{n: 5000}
		f := newFiltered(filterKinds[c.Choose(len(filterKinds))])
		switch c.Choose(3) {
		case 1:
			f = f.where([]cond{n.eq()})
		case 2:
			f = f.where([]cond{n.eq(), model.Join(n.eq(), or)})
		}
		f = f.where(cs)
		f.check(c, f.name)
		f.where([]cond{n.op("IN")}).check(c, f.name+" and one more")
		f.where([]cond{model.Join(n.eq(), or), n.eq()}).check(c, f.name+" and two more")
	})
	ext("C01", "made into a group by each of NewGroup, And and Or on an empty group and And and Or on a condition, then negated, joined with one or two more by And and Or, put into another group, one after another", func(c *mc.Ctx, cs []cond) {
		n := &namer{n: 5000}
		var x cond
		switch how := c.Choose(6); how {
		case 0, 1:
			x = model.NewGroup([]query.JoinType{and, or}[how], cs...)
		case 2, 3:
			x, _ = model.Combine(model.Method, []query.JoinType{and, or}[how-2], model.NewGroup(and), cs...)
		default:
			x, _ = model.Combine(model.Method, []query.JoinType{and, or}[how-4], n.eq(), cs...)
		}
		condMeans(c, "group", x.Real, x.N, 0)
		for _, op := range []query.JoinType{and, or} {
			for _, ds := range [][]cond{{n.eq()}, {n.eq(), n.op("IN")}, {model.NewGroup(or, n.eq(), n.eq())}, {model.NewGroup(and, n.eq(), n.eq())}} {
				if y, ok := model.Combine(model.Method, op, x, ds...); ok {
					condMeans(c, y.Desc, y.Real, y.N, 0)
					z := model.NewGroup(op, n.eq(), y)
					condMeans(c, z.Desc, z.Real, z.N, 0)
				}
				if y, ok := model.Combine(model.Method, op, ds[0], x); ok {
					condMeans(c, y.Desc, y.Real, y.N, 0)
				}
			}
		}
		if !x.N.Empty() {
			y := model.Not(x)
			condMeans(c, y.Desc, y.Real, y.N, 0)
			y = model.Not(model.NewGroup(or, n.eq(), x))
			condMeans(c, y.Desc, y.Real, y.N, 0)
		}
	})
}
