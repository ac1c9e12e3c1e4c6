package props

import (
	"fmt"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

// external chooses a condition implemented outside; its number of parameters is chosen out of ns.
func external(c *mc.Ctx, i int, ns ...int) cond {
	name := fmt.Sprintf("ext%d", i)
	r := ref{Table: "t", Name: fmt.Sprintf("e%d", i)}
	kind := c.Choose(11)
	if kind == 2 || kind == 3 {
		return model.NewCustom(model.CBetween, kind == 3, "", r, 10*i, 10*i+1)
	}
	ps := make([]any, ns[c.Choose(len(ns))])
	for k := range ps {
		ps[k] = 100*i + k
	}
	switch kind {
	case 0, 1:
		return model.NewCustom(model.CFunc, kind == 1, name, r, ps...)
	case 4, 5:
		return model.NewCustom(model.CParen, kind == 5, name, r, ps...)
	case 6:
		return model.NewZeroCustom(name, r, ps...)
	case 9, 10:
		return model.NewMannered(kind == 9, name, r, ps...)
	case 8:
		return model.NewCustom(model.CText, false, name, r, ps...)
	}
	return model.NewOwn(name, r, ps...)
}

// once checks that every leaf of n is referred to exactly once in the text.
func once(c *mc.Ctx, what, sql string, n *model.Node) {
	toks, err := sqlx.Tokens(sql)
	if err != nil {
		c.Failf("%s: %q: %v", what, sql, err)
	}
	count := map[string]int{}
	for _, t := range toks {
		count[t.S]++
	}
	var walk func(n *model.Node)
	walk = func(n *model.Node) {
		if n.Leaf != nil && n.Leaf.Ref != (ref{}) {
			if k := count[n.Leaf.Ref.String()]; k != 1 {
				c.Failf("%s: %q has %d of %s", what, sql, k, n.Leaf.Ref)
			}
		}
		for _, k := range n.Kids {
			walk(k)
		}
	}
	walk(n)
}

// everywhere checks a condition with external ones inside, alone and in every statement.
func everywhere(c *mc.Ctx, x cond) {
	for _, s := range []int{0, 1, 9, 99} {
		condMeans(c, x.Desc, x.Real, x.N, s)
	}
	rendersAgree(c, x.Desc, x.Real, []int{0, 3, 9})
	if !model.SameAll(x.Real.Values(), x.N.Params()) {
		c.Failf("%s: values %v, expected %v", x.Desc, x.Real.Values(), x.N.Params())
	}
	once(c, x.Desc, x.Real.RenderSQL(), x.N)
	if x.N.Empty() {
		return
	}
	pre := model.Eq("pre", 1)
	filter := model.Where(pre.N, []cond{x})
	vals := []query.FieldValue{query.FieldName("a").Value(8), query.FieldName("b").Value(9)}
	sel := query.SelectFrom("t").Where(pre.Real).Where(x.Real)
	many := query.SelectManyFrom("t").Where(pre.Real).Where(x.Real).OrderBy(query.ASC("o")).Limit(3).Offset(4)
	for _, b := range []struct {
		name string
		b    builder
	}{
		{"select", sel}, {"many", many}, {"single", sel.Single()}, {"count", sel.Count()}, {"update", query.Update("t").Set(vals...).Where(pre.Real).Where(x.Real)},
		{"delete", query.Delete("t").Where(pre.Real).Where(x.Real)}, {"derived update", sel.Update(vals...)}, {"derived delete", many.Delete()},
	} {
		st := stmtOK(c, b.name+" where "+x.Desc, b.b)
		sameFilter(c, b.name+" where "+x.Desc, st.Where, filter)
		sql, _, _ := b.b.BuildQueryAndParams()
		once(c, b.name, sql, x.N)
	}
	st := stmtOK(c, "select where "+x.Desc, query.SelectFrom("t").Where(x.Real))
	sameFilter(c, "select", st.Where, x.N)
	for _, cs := range [][]cond{{pre, x}, {x, pre}} {
		st := stmtOK(c, "update", query.Update("t").Set(vals...).Where(model.Reals(cs)...))
		sameFilter(c, "update Where("+model.Descs(cs)+")", st.Where, model.Where(nil, cs))
		checkAssign(c, "update", st.Set, []sqlx.Assign{{Col: "a", Val: 8}, {Col: "b", Val: 9}})
	}
	c.State(x.Real.RenderSQL())
}

func init() {
	mc.Register(&mc.Property{
		ID: "C19",
		Assumptions: []string{
			"an external condition renders as one boolean term, its own negation included, and reports as many values as it has placeholders",
			"an external condition whose JoinType is empty (a zero BaseCondition) is joined with AND",
		},
		Families: []mc.Family{
			{Name: "one", Quick: []int{2, 3}, Thorough: []int{2, 3, 4},
				Doc: "one external condition of each of 11 kinds (by value, by pointer, embedding a filled or zero BaseCondition, implementing everything itself, with twenty-five other methods besides that answer nothing or something else; function, BETWEEN and bracketed style, with a text literal full of $1, ? and SQL words) with 0, 1, 2, 3 and 12 parameters x every sequence of up to <bound> out of Not, Negate(false), Join(OR), brackets of a group, groups with a built-in one before, after and around; alone and in eight statements",
				Body: func(c *mc.Ctx) {
					x := external(c, 1, 0, 1, 2, 3, 12)
					n := &namer{}
					for i := c.Choose(c.Bound + 1); i > 0; i-- {
						switch c.Choose(8) {
						case 0:
							x = model.Not(x)
						case 1:
							x = model.Negate(x, false)
						case 2:
							x = model.Join(x, or)
						case 3:
							x, _ = model.Brackets(model.NewGroup(or, x))
						case 4:
							x = model.NewGroup(or, n.op("IN"), x)
						case 5:
							x = model.NewGroup(and, x, n.eq())
						case 6:
							x, _ = model.Combine(model.Method, or, x, n.eq())
						case 7:
							x, _ = model.Combine(model.Func, and, n.eq(), x)
						}
						c.Op("%s", x.Desc)
					}
					everywhere(c, x)
				}},
			{Name: "made-of-groups", Quick: []int{1, 2, 3}, Thorough: []int{1, 2, 3, 4},
				Doc: "every condition made with exactly <bound> operations (Not, Join(OR), And/Or methods and functions, NewGroup of 0..2) where any group may be put behind a pointer or into an external type that embeds query.Group (by value, by pointer, keeping its type or not), then used in groups and in eight statements",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					wrapped := 0
					o := &treeOpts{forms: []int{model.Method, model.Func}, maxArgs: 1, groups: 2, unary: []string{"Not", "Join(OR)"}, leaf: func(c *mc.Ctx) cond { return n.eq() }}
					o.after = func(x cond) cond {
						if wrapped > 1 {
							return x
						}
						if _, ok := x.Real.(query.Group); ok {
							if k := c.Choose(5); k > 0 {
								wrapped++
								x, _ = model.Wrap(k-1, x)
								c.Op("%s", x.Desc)
							}
						}
						return x
					}
					x := tree(c, c.Bound, o)
					if wrapped == 0 {
						c.Skip()
					}
					everywhere(c, x)
				}},
			{Name: "trees", Quick: []int{1, 2}, Thorough: []int{1, 2, 3},
				Doc: "every condition made with exactly <bound> operations (Not, And/Or methods and functions with 1..2 further conditions, NewGroup of 1..2) where every leaf is a built-in one or any kind of external one (9 kinds, 0 or 2 parameters)",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					i := 0
					kinds := 0
					x := tree(c, c.Bound, &treeOpts{forms: []int{model.Method, model.Func}, maxArgs: 2, groups: 2, unary: []string{"Not"}, leaf: func(c *mc.Ctx) cond {
						i++
						if i > 3 || kinds > 1 || c.Bool() {
							return n.eq()
						}
						kinds++
						return external(c, i, 0, 2)
					}})
					if kinds == 0 {
						c.Skip()
					}
					everywhere(c, x)
				}},
		},
	})
}
