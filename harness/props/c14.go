package props

import (
	"fmt"
	"slices"
	"strings"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

// countOK checks a count query against the select it came from.
func countOK(c *mc.Ctx, what string, b query.CountBuilder, x sel, field ...string) {
	st := stmtOK(c, what, b)
	if st.Kind != "COUNT" || !slices.Contains(field, st.Count) {
		c.Failf("%s: a %s of %q, expected COUNT(%s)", what, st.Kind, st.Count, strings.Join(field, " or "))
	}
	sameSource(c, what, st.Table, st.Joins, x.table, x.joins)
	sameFilter(c, what, st.Where, x.filter)
	if len(st.Order) > 0 || st.Offset.Set || st.Limit.Set {
		c.Failf("%s: ordering or limits in a count: %+v", what, st)
	}
	t, js, err := sqlx.ParseFrom(b.RenderFrom())
	if err != nil {
		c.Failf("%s: RenderFrom gives %q: %v", what, b.RenderFrom(), err)
	}
	sameSource(c, what+" RenderFrom", t, js, x.table, x.joins)
}

func init() {
	mc.Register(&mc.Property{
		ID:          "C14",
		Assumptions: []string{"only the first field given to Count is counted, as documented; of a field given with an alias either the column or the alias may be counted", "a count of a single select is one of its base"},
		Families: []mc.Family{
			{Name: "histories", Quick: []int{0, 1, 2, 3}, Thorough: []int{0, 1, 2, 3, 4},
				Doc: "every sequence of exactly <bound> builder calls (fields, where, join, order, offset, limit, conversions) on every kind of select, then Count; the select itself stays as it was",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					x := anySel(c)
					for i := 0; i < c.Bound; i++ {
						x = act(c, x, n, i)
					}
					countOK(c, x.desc+".Count()", x.Count(), x, "*")
					countOK(c, "Count("+x.desc+")", query.Count(x.core()), x, "*")
					x.check(c)
					c.State(x.key())
				}},
			{Name: "fields", Quick: []int{1, 2}, Thorough: []int{1, 2, 3},
				Doc: "Count with a plain or qualified field (and further ones) of selects with every sequence of <bound> calls",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					x := anySel(c)
					for i := 0; i < c.Bound; i++ {
						x = act(c, x, n, i)
					}
					f := pick(c, "id", "t.id", "*", "x.y_z")
					fs := []query.FieldName{query.FieldName(f)}
					if c.Bool() {
						fs = append(fs, "other")
					}
					c.Op("Count(%v)", fs)
					countOK(c, "Count", query.Count(x.core(), fs...), x, f)
					c.State(x.key(), f)
				}},
			{Name: "aliased", Quick: []int{0, 1}, Thorough: []int{0, 1, 2},
				Doc: "Count with a field specified together with an alias: one field is counted, by its column or by its alias, for selects with every sequence of <bound> calls",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					x := anySel(c)
					for i := 0; i < c.Bound; i++ {
						x = act(c, x, n, i)
					}
					tab := pick(c, "", "t.", "x_y.")
					f := query.FieldName(tab + "id" + pick(c, " as ", " AS ", "  As  ") + "k")
					c.Op("Count(%q)", f)
					countOK(c, fmt.Sprintf("Count(%q)", f), query.Count(x.core(), f), x, "k", tab+"id")
					c.State(x.key(), string(f))
				}},
			{Name: "filters", Quick: []int{0, 1, 2}, Thorough: []int{0, 1, 2, 3},
				Doc: "counts of a table ident and of base and many selects filtered by every condition made with exactly <bound> operations over leaves with 0..12 parameters",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					x := tree(c, c.Bound, &treeOpts{forms: []int{model.Method}, maxArgs: 1, groups: 2, unary: []string{"Not"},
						leaf: func(c *mc.Ctx) cond { return counted(c, n) }})
					t := someTables()[c.Choose(len(someTables()))]
					y := newSel(kBase, t).Where(x)
					countOK(c, "TableIdent.Count", t.Count(x.Real), y, "*")
					countOK(c, "Select.Count", t.Select(x.Real).Count(), y, "*")
					countOK(c, "Count(Select)", query.Count(t.Select(x.Real), "id"), y, "id")
					countOK(c, "SelectMany.Count", t.SelectMany(x.Real).OrderBy(query.ASC("z")).Limit(4).Count(), y, "*")
					c.State(y.key())
				}},
			{Name: "sizes", Quick: []int{20}, Thorough: []int{70},
				Doc: bigSelDoc + "; counted",
				Body: func(c *mc.Ctx) {
					x, _ := bigSel(c, c.Bound, big(c, 129, 1025))
					countOK(c, x.desc+".Count()", x.Count(), x, "*")
					countOK(c, "Count("+x.desc+")", query.Count(x.core(), "id"), x, "id")
					c.State(x.key())
				}},
			{Name: "names", Quick: []int{0}, Thorough: []int{0},
				Doc: namesDoc + "; counted, also by a field of each name",
				Body: func(c *mc.Ctx) {
					x := namedSel(c)
					countOK(c, x.desc+".Count()", x.Count(), x, "*")
					f := x.fields[0].Name
					countOK(c, "Count("+x.desc+")", query.Count(x.core(), query.FieldName(f)), x, f)
					c.State(x.key())
				}},
		},
	})
}
