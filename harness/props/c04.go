package props

import (
	"fmt"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

func counted12(n *namer) cond {
	n.n++
	i := n.n - 1
	var ps []any
	for k := 0; k < 12; k++ {
		ps = append(ps, i*100+k)
	}
	return model.NewCustom(model.CFunc, false, "twelve", ref{Name: fmt.Sprintf("f%d", i)}, ps...)
}

var orderTerm = sqlx.Term{Ref: "o", Dir: "DESC"}

func init() {
	ss := []int{0, 1, 8, 9, 10, 99}
	mc.Register(&mc.Property{
		ID:          "C04",
		Assumptions: []string{"texts are compared token by token: spaces between tokens do not matter"},
		Families: []mc.Family{
			{Name: "leaves", Quick: []int{0}, Thorough: []int{0},
				Doc: "every comparison x shape of field x value of the alphabet x way of negating",
				Body: func(c *mc.Ctx) {
					x := applyNegation(chooseLeaf(c, refs[c.Choose(len(refs))]), negations[c.Choose(len(negations))])
					c.Op("%s", x.Desc)
					rendersAgree(c, x.Desc, x.Real, ss)
					w := query.NewWhere().GroupAND(x.Real)
					rendersAgree(c, "where "+x.Desc, w, []int{0, 9})
					if got := x.Real.Values(); !model.SameAll(got, x.N.Params()) {
						c.Failf("%s: values are %v, expected %v", x.Desc, got, x.N.Params())
					}
					c.State(x.Real.RenderSQL(), fmt.Sprintf("%T", firstOf(x.N.Leaf.Params)))
				}},
			{Name: "trees", Quick: []int{0, 1, 2}, Thorough: []int{0, 1, 2, 3},
				Doc: "every condition made with exactly <bound> operations (Not, WithBrackets, Join(OR), And/Or methods and functions, NewGroup of 0..2) over any kind of leaf, as a condition and added to a WhereClause",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					x := tree(c, c.Bound, &treeOpts{forms: []int{model.Method, model.Func}, maxArgs: 1, groups: 2, unary: []string{"Not", "WithBrackets", "Join(OR)"},
						leaf: func(c *mc.Ctx) cond { return anyLeaf(c, n) }})
					rendersAgree(c, x.Desc, x.Real, ss)
					w := query.NewWhere()
					if c.Bool() {
						w = w.GroupAND(n.op("IN").Real)
					}
					if c.Bool() {
						w = w.GroupOR(x.Real)
					} else {
						w = w.GroupAND(x.Real)
					}
					rendersAgree(c, "where "+x.Desc, w, []int{0, 9})
					c.State(w.RenderSQL())
				}},
			{Name: "selects", Quick: []int{1, 2, 3}, Thorough: []int{1, 2, 3, 4},
				Doc: "every sequence of exactly <bound> builder calls (fields, where, join, order, offset, limit, conversions) on every kind of select; the built statement equals Render(0) and Values",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					x := anySel(c)
					for i := 0; i < c.Bound; i++ {
						x = act(c, x, n, i)
					}
					rendersAgree(c, x.desc, x.is(), []int{0, 9})
					buildAgrees(c, x.desc, x.is())
					c.State(x.key())
				}},
			{Name: "tail", Quick: []int{4}, Thorough: []int{12},
				Doc: "many selects with 0..<bound> conditions of 0..12 parameters, every combination of joins, order, offset and limit set or not",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					k := c.Choose(c.Bound + 1)
					x := newSel(kMany, query.Table("t"))
					for i := 0; i < k; i++ {
						x = x.Where(pick(c, n.eq(), counted12(n), n.op("IS NULL")))
						if c.Bound > 4 && i >= 3 { // further ones all alike
							for ; i < k; i++ {
								x = x.Where(n.eq())
							}
						}
					}
					if c.Bool() {
						x = x.OrderBy(orderTerm)
					}
					x = x.Offset(pick(c, uint(0), 5)).Limit(pick(c, -1, 0, 6))
					c.Op("%s", x.desc)
					rendersAgree(c, x.desc, x.is(), ss)
					buildAgrees(c, x.desc, x.is())
					c.State(x.key())
				}},
			{Name: "limiter", Quick: []int{0}, Thorough: []int{0},
				Doc: "every limiter with offset and limit of 0, 1, 10 and the largest uint",
				Body: func(c *mc.Ctx) {
					us := []uint{0, 1, 10, ^uint(0)}
					l := query.Limiter{}.Offset(us[c.Choose(4)]).Limit(us[c.Choose(4)])
					rendersAgree(c, "limiter", l, ss)
					c.State(l.RenderSQL(), fmt.Sprint(l.Values()))
				}},
			{Name: "sizes", Quick: []int{12}, Thorough: []int{40},
				Doc: bigSelDoc + "; and conditions of these sizes",
				Body: func(c *mc.Ctx) {
					if c.Bool() {
						x := bigCond(c, c.Bound, big(c, 129, 1025))
						rendersAgree(c, x.Desc, x.Real, []int{0, 9, 99})
						c.State(x.Real.RenderSQL())
						return
					}
					x, _ := bigSel(c, c.Bound, big(c, 129, 1025))
					rendersAgree(c, x.desc, x.is(), []int{0, 9})
					buildAgrees(c, x.desc, x.is())
					c.State(x.key())
				}},
		},
	})
}
