package props

import (
	"fmt"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
)

// meansEverywhere checks a condition rendered alone and as the filter of every kind of statement.
func meansEverywhere(c *mc.Ctx, x cond) {
	condMeans(c, "condition", x.Real, x.N, 0)
	if x.N.Empty() {
		c.Tag("empty")
		return
	}
	sameFilter(c, "delete", build(c, "delete", query.Delete("t").Where(x.Real)).Where, x.N)
	sameFilter(c, "update", build(c, "update", query.Update("t").Set(query.FieldName("x").Value(7)).Where(x.Real)).Where, x.N)
	sel := query.SelectFrom("t").Where(x.Real)
	sameFilter(c, "select", build(c, "select", sel).Where, x.N)
	sameFilter(c, "count", build(c, "count", sel.Count()).Where, x.N)
	c.Tag(fmt.Sprintf("leaves=%d", x.N.Leaves()))
	c.State("cond", x.N.Expr().Key(), fmt.Sprint(x.Real.IsNegate(), x.Real.JoinType()))
}

func init() {
	mc.Register(&mc.Property{
		ID: "C01",
		Assumptions: []string{
			"SQL precedence NOT > AND > OR and three-valued logic; the parser of harness/sqlx reads the rendered text",
			"when several conditions are added at once to nothing, they are chained by the operator each one carries (checked by C24)",
			"the join operator of a combined condition (And/Or of several) is taken as the object reports it; it only matters in such chains",
		},
		Families: []mc.Family{
			{Name: "trees-all-forms", Quick: []int{0, 1, 2, 3}, Thorough: []int{0, 1, 2, 3, 4},
				Doc: "every condition made with exactly <bound> composition operations out of Not, Negate(true/false), Join(AND/OR), And()/Or() without arguments (function and method), WithBrackets, JoinType.Join, NewGroup(AND/OR) of 0..3, And/Or in function, method and GroupAND/GroupOR form with 1..2 further conditions; leaves are distinct EqualTo; meaning compared alone and in delete, update, select, count",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					meansEverywhere(c, tree(c, c.Bound, &treeOpts{forms: []int{model.Method, model.Func, model.GroupRaw}, maxArgs: 2, groups: 3,
						unary: []string{"Not", "Negate(false)", "Join(OR)", "Join(AND)", "Or()", "And()", "x.And()", "x.Or()", "WithBrackets", "OR.Join"},
						leaf:  func(*mc.Ctx) cond { return n.eq() }}))
				}},
			{Name: "trees-three-args", Quick: []int{1, 2, 3}, Thorough: []int{1, 2, 3, 4},
				Doc: "every condition made with exactly <bound> operations out of Not, And/Or methods with 1..3 further conditions and NewGroup of 0..4",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					meansEverywhere(c, tree(c, c.Bound, &treeOpts{forms: []int{model.Method}, maxArgs: 3, groups: 4,
						unary: []string{"Not"}, leaf: func(*mc.Ctx) cond { return n.eq() }}))
				}},
			{Name: "trees-deep", Quick: []int{4}, Thorough: []int{4, 5},
				Doc: "every condition made with exactly <bound> operations out of Not, And/Or methods with one further condition, NewGroup(AND/OR) of two",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					x := tree2(c, c.Bound, func() cond { return n.eq() })
					meansEverywhere(c, x)
				}},
			{Name: "trees-leaf-kinds", Quick: []int{1, 2}, Thorough: []int{1, 2, 3},
				Doc: "every condition made with exactly <bound> operations out of Not and And/Or (function and method) with one further condition, NewGroup of 1..2, over every choice of leaf kinds (all comparisons, an empty group, a negated empty group, external conditions)",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					meansEverywhere(c, tree(c, c.Bound, &treeOpts{forms: []int{model.Method, model.Func}, maxArgs: 1, groups: 2,
						unary: []string{"Not"}, leaf: func(c *mc.Ctx) cond { return anyLeaf(c, n) }}))
				}},
			{Name: "chains", Quick: []int{4}, Thorough: []int{4, 5, 6},
				Doc: "every chain of <bound> And/Or steps on one growing condition, each adding one of: a leaf, a negated leaf, AND-group of two, OR-group of two, negated OR-group, a mixed group (a and b or c), two leaves at once",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					x := n.eq()
					for i := 0; i < c.Bound; i++ {
						op := pick(c, and, or)
						var ds []cond
						switch c.Choose(7) {
						case 0:
							ds = []cond{n.eq()}
						case 1:
							ds = []cond{model.Not(n.eq())}
						case 2:
							ds = []cond{model.NewGroup(and, n.eq(), n.eq())}
						case 3:
							ds = []cond{model.NewGroup(or, n.eq(), n.eq())}
						case 4:
							ds = []cond{model.Not(model.NewGroup(or, n.eq(), n.eq()))}
						case 5:
							a, _ := model.Combine(model.Method, and, n.eq(), n.eq())
							b, _ := model.Combine(model.Method, or, a, n.eq())
							ds = []cond{b}
						case 6:
							ds = []cond{n.eq(), n.eq()}
						}
						x, _ = model.Combine(model.Method, op, x, ds...)
						c.Op("%s", x.Desc)
						condMeans(c, "condition", x.Real, x.N, 0)
					}
					meansEverywhere(c, x)
				}},
			{Name: "wide", Quick: []int{12}, Thorough: []int{14},
				Doc: "groups of every width 0..<bound> made in every way (NewGroup, one And/Or call, repeated calls), plain, negated, with one member being a group or negated at every position",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					w := c.Choose(c.Bound + 1)
					op := pick(c, and, or)
					special := c.Choose(w + 1) // position of the special member, w: none
					kind := 0
					if special < w {
						kind = c.Choose(4)
					}
					var cs []cond
					for i := 0; i < w; i++ {
						x := n.eq()
						if i == special {
							switch kind {
							case 0:
								x = model.Not(x)
							case 1:
								x = model.NewGroup(or, x, n.eq())
							case 2:
								x = model.NewGroup(and, x, n.eq())
							case 3:
								x = model.NewGroup(and)
							}
						}
						cs = append(cs, x)
					}
					var x cond
					switch c.Choose(3) {
					case 0:
						x = model.NewGroup(op, cs...)
					case 1:
						if w < 2 {
							c.Skip()
						}
						var ok bool
						if x, ok = model.Combine(model.Func, op, cs[0], cs[1:]...); !ok {
							c.Skip()
						}
					case 2:
						if w < 2 {
							c.Skip()
						}
						x = cs[0]
						for _, d := range cs[1:] {
							var ok bool
							if x, ok = model.Combine(model.Method, op, x, d); !ok {
								c.Skip()
							}
						}
					}
					c.Op("%s", x.Desc)
					if c.Bool() {
						if x.N.Empty() {
							c.Skip()
						}
						x = model.Not(x)
						c.Op("%s", x.Desc)
					}
					meansEverywhere(c, x)
				}},
			{Name: "sizes", Quick: []int{20}, Thorough: []int{70},
				Doc: "every width and depth 0..<bound> and numbers around powers of two and ten beyond (quick to 300, thorough to 1025): groups of that many members, that many layers of seven kinds, lists and external conditions of that many parameters, names of that length, that many flag operations",
				Body: func(c *mc.Ctx) {
					x := bigCond(c, c.Bound, big(c, 300, 1025))
					meansEverywhere(c, x)
				}},
		},
	})
}

// tree2 chooses among binary compositions and Not with exactly n operations.
func tree2(c *mc.Ctx, n int, leaf func() cond) cond {
	if n == 0 {
		return leaf()
	}
	k := c.Choose(5)
	if k == 0 {
		x := model.Not(tree2(c, n-1, leaf))
		c.Op("%s", x.Desc)
		return x
	}
	m := c.Choose(n)
	a := tree2(c, m, leaf)
	b := tree2(c, n-1-m, leaf)
	var x cond
	switch k {
	case 1:
		x, _ = model.Combine(model.Method, and, a, b)
	case 2:
		x, _ = model.Combine(model.Method, or, a, b)
	case 3:
		x = model.NewGroup(and, a, b)
	case 4:
		x = model.NewGroup(or, a, b)
	}
	c.Op("%s", x.Desc)
	return x
}

// anyLeaf chooses any kind of leaf.
func anyLeaf(c *mc.Ctx, n *namer) cond {
	k := c.Choose(len(model.Ops) + 6)
	if k < len(model.Ops) {
		return n.op(model.Ops[k])
	}
	n.n++
	r := ref{Name: fmt.Sprintf("f%d", n.n-1)}
	switch k - len(model.Ops) {
	case 0:
		return model.NewCustom(model.CText, false, "cust", r, n.n, n.n+100)
	case 1:
		return model.NewCustom(model.CFunc, false, "flag", r)
	case 2:
		return model.NewGroup(and)
	case 3:
		return model.NewOwn("own", r, n.n)
	case 4:
		return model.NewZeroCustom("zero", r, n.n)
	}
	return model.Not(model.NewGroup(or))
}
