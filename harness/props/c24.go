package props

import (
	"strings"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
)

// filtered is any builder that takes conditions.
type filtered struct {
	name   string
	sel    *sel
	upd    query.UpdateBuilder
	del    query.DeleteBuilder
	filter *model.Node
}

var filterKinds = []string{kBase, kMany, kSingle, "update", "delete"}

func newFiltered(kind string) filtered {
	f := filtered{name: kind}
	switch kind {
	case "update":
		f.upd = query.Update("t").Set(query.FieldName("a").Value(777))
	case "delete":
		f.del = query.Delete("t")
	default:
		s := newSel(kind, query.Table("t"))
		f.sel = &s
	}
	return f
}

func (f filtered) where(cs []cond) filtered {
	g := f
	g.filter = model.Where(f.filter, cs)
	rs := model.Reals(cs)
	switch {
	case f.sel != nil:
		s := f.sel.Where(cs...)
		g.sel = &s
	case f.name == "update":
		g.upd = f.upd.Where(rs...)
	default:
		g.del = f.del.Where(rs...)
	}
	return g
}

// convert goes over to another kind of builder.
func (f filtered) convert(how string) filtered {
	g := f
	g.name += "." + how
	switch how {
	case "Update":
		g.name, g.upd, g.sel = "update", f.sel.Update(query.FieldName("a").Value(777)), nil
	case "Delete":
		g.name, g.del, g.sel = "delete", f.sel.Delete(), nil
	default:
		s := f.sel.Convert(how)
		g.sel = &s
	}
	return g
}

func (f filtered) builder() builder {
	switch {
	case f.sel != nil:
		return f.sel.is()
	case f.name == "update":
		return f.upd
	}
	return f.del
}

func (f filtered) check(c *mc.Ctx, what string) {
	if f.sel == nil && f.filter == nil {
		wantErr(c, what, f.builder())
		return
	}
	st := stmtOK(c, what, f.builder())
	sameFilter(c, what, st.Where, f.filter)
	if f.sel != nil {
		sameFilter(c, what+" count", stmtOK(c, what+" count", f.sel.Count()).Where, f.filter)
	}
}

// calls makes n Where calls with lists chosen by list and checks after each one.
func calls(c *mc.Ctx, f filtered, n int, list func() []cond) filtered {
	what := f.name
	var names []string
	for i := 0; i < n; i++ {
		cs := list()
		before := f
		f = f.where(cs)
		names = append(names, "Where("+model.Descs(cs)+")")
		what = f.name + "." + strings.Join(names, ".")
		c.Op("%s", what)
		f.check(c, what)
		if c.Bound < 3 {
			before.check(c, "the builder before "+names[len(names)-1])
		}
	}
	sql, _, _ := f.builder().BuildQueryAndParams()
	c.State(sql)
	return f
}

func init() {
	mc.Register(&mc.Property{
		ID: "C24",
		Assumptions: []string{
			"conditions given at once to an unfiltered builder are chained with SQL precedence by the operator each reports",
			"a condition combined from several carries the operator it reports",
		},
		Families: []mc.Family{
			{Name: "one-call", Quick: []int{3}, Thorough: []int{3, 4},
				Doc: "one Where call of 0..<bound> conditions out of eleven shapes (leaf, Or(leaf), a.Or(b), a.And(b), Not(group), OR group, empty group, a.And(b).Or(c), AND group joined OR, Not(leaf), negated group joined OR) on each of five kinds of builder; on select, update and delete when <bound> is 4",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					kinds := filterKinds
					if c.Bound > 3 {
						kinds = []string{kBase, "update", "delete"}
					}
					f := newFiltered(kinds[c.Choose(len(kinds))])
					calls(c, f, 1, func() []cond { return whereList(c, n, 0, c.Bound) })
				}},
			{Name: "two-calls", Quick: []int{2}, Thorough: []int{2, 3},
				Doc: "<bound> Where calls of 0..2 conditions each out of eleven shapes on each of five kinds of builder (select and delete when <bound> is 3)",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					kinds := filterKinds
					if c.Bound > 2 {
						kinds = []string{kMany, "delete"}
					}
					f := newFiltered(kinds[c.Choose(len(kinds))])
					calls(c, f, c.Bound, func() []cond { return whereList(c, n, 0, 2) })
				}},
			{Name: "widths", Quick: []int{2, 3}, Thorough: []int{2, 3, 4},
				Doc: "<bound> Where calls of 0..6-<bound> conditions each, every one plain or Or(plain), on each of five kinds of builder (select and update when <bound> is over 2)",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					kinds := filterKinds
					if c.Bound > 2 {
						kinds = []string{kBase, "update"}
					}
					f := newFiltered(kinds[c.Choose(len(kinds))])
					calls(c, f, c.Bound, func() []cond {
						var out []cond
						for k := c.Choose(7 - c.Bound); k > 0; k-- {
							x := n.eq()
							if c.Bool() {
								x, _ = model.Combine(model.Func, or, x)
							}
							out = append(out, x)
						}
						return out
					})
				}},
			{Name: "many-calls", Quick: []int{3, 4}, Thorough: []int{3, 4, 5},
				Doc: "<bound> Where calls of 0..1 conditions each out of eleven shapes on each of five kinds of builder",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					kinds := filterKinds
					if c.Bound > 3 {
						kinds = []string{kBase, "update"}
					}
					f := newFiltered(kinds[c.Choose(len(kinds))])
					calls(c, f, c.Bound, func() []cond { return whereList(c, n, 0, 1) })
				}},
			{Name: "converted", Quick: []int{2}, Thorough: []int{2, 3},
				Doc: "on each kind of select: a Where call of one condition, any conversion (Many, Single, SelectManyFromBase, SelectSingleFromBase, the embedded base, Update, Delete), and <bound>-1 further Where calls of 1..2 conditions",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					f := newFiltered(pick(c, kBase, kMany, kSingle))
					f = calls(c, f, 1, func() []cond { return whereList(c, n, 0, 1) })
					f = f.convert(pick(c, "Many", "Single", "SelectManyFromBase", "SelectSingleFromBase", "BaseSelectBuilder", "Update", "Delete"))
					calls(c, f, c.Bound-1, func() []cond { return whereList(c, n, 1, 2) })
				}},
			{Name: "leaf-kinds", Quick: []int{2}, Thorough: []int{3},
				Doc: "<bound> Where calls of 1..2 conditions each out of every comparison, external conditions, empty and negated empty groups",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					f := newFiltered(pick(c, kMany, "delete"))
					calls(c, f, c.Bound, func() []cond {
						out := []cond{anyLeaf(c, n)}
						if c.Bound < 3 && c.Bool() {
							out = append(out, anyLeaf(c, n))
						}
						return out
					})
				}},
			{Name: "long", Quick: []int{14}, Thorough: []int{40},
				Doc: "up to <bound> Where calls of one repeating shape out of eleven, started by each of the eleven",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					f := newFiltered(filterKinds[c.Choose(len(filterKinds))])
					f = f.where([]cond{shape(c, n)})
					times := c.Choose(c.Bound)
					k := c.Choose(11)
					for i := 0; i < times; i++ {
						f = f.where([]cond{shapeOf(k, n)})
					}
					if f.filter != nil || f.sel != nil {
						sql, params, err := f.builder().BuildQueryAndParams()
						if err != nil {
							c.Failf("%v", err)
						}
						c.Op("%s %v", sql, params)
					}
					f.check(c, "after all calls")
				}},
		},
	})
}
