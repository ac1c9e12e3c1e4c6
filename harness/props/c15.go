package props

import (
	"fmt"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

// derived checks everything converted from a select.
func derived(c *mc.Ctx, x sel) {
	vs := []query.FieldValue{query.FieldName("p").Value(901), query.FieldName("q").Value(nil)}
	want := []sqlx.Assign{{Col: "p", Val: 901}, {Col: "q", Val: nil}}
	upd, del, ins := x.Update(vs...), x.Delete(), x.InsertInto(vs...)
	if string(upd.TableName()) != x.table.Name || string(del.TableName()) != x.table.Name || string(ins.TableName()) != x.table.Name {
		c.Failf("%s: derived statements are on %q %q %q, expected %q", x.desc, upd.TableName(), del.TableName(), ins.TableName(), x.table.Name)
	}
	for _, d := range []struct {
		name string
		b    builder
	}{{"update", upd}, {"update set later", x.Update().Set(vs...)}, {"delete", del}} {
		what := d.name + " of " + x.desc
		if x.filter == nil || x.filter.Empty() {
			wantErr(c, what, d.b)
			continue
		}
		st := stmtOK(c, what, d.b)
		if st.Table.Name != x.table.Name {
			c.Failf("%s: on table %v", what, st.Table)
		}
		sameFilter(c, what, st.Where, x.filter)
		if d.name != "delete" {
			checkAssign(c, what, st.Set, want)
		}
	}
	st := stmtOK(c, "insert of "+x.desc, ins)
	if st.Table.Name != x.table.Name {
		c.Failf("insert of %s: into %v", x.desc, st.Table)
	}
	checkAssign(c, "insert of "+x.desc, st.Set, want)
	for _, how := range conversions {
		x.Convert(how).check(c)
	}
	x.OrderBy(sqlx.Term{Ref: "last", Dir: "DESC"}).check(c)
	x.Offset(31).check(c)
	x.Limit(32).check(c)
}

func init() {
	mc.Register(&mc.Property{
		ID:          "C15",
		Assumptions: []string{"the alias of a table is left out of INSERT, UPDATE and DELETE", "equivalent filters are compared under three-valued logic, values included"},
		Families: []mc.Family{
			{Name: "histories", Quick: []int{0, 1, 2, 3}, Thorough: []int{0, 1, 2, 3, 4},
				Doc: "after every sequence of exactly <bound> builder calls on every kind of select: Update, Delete, InsertInto, Many, Single, SelectManyFromBase, SelectSingleFromBase, the embedded base, OrderBy, Offset, Limit",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					x := anySel(c)
					for i := 0; i < c.Bound; i++ {
						x = act(c, x, n, i)
					}
					derived(c, x)
					x.check(c)
					c.State(x.key())
				}},
			{Name: "filters", Quick: []int{1, 2}, Thorough: []int{1, 2, 3},
				Doc: "updates and deletes of selects of every kind filtered by one or two Where calls with conditions made with exactly <bound> operations (Not, And/Or methods and functions, NewGroup of 0..2, Join(OR)), and filtered further after the conversion",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					leaf := func(c *mc.Ctx) cond {
						if c.Bound > 1 {
							return n.eq()
						}
						return anyLeaf(c, n)
					}
					t := tree(c, c.Bound, &treeOpts{forms: []int{model.Method, model.Func}, maxArgs: 2, groups: 2, unary: []string{"Not", "Join(OR)"}, leaf: leaf})
					x := newSel(pick(c, kBase, kMany, kSingle), query.Table("t as x"))
					switch c.Choose(5) {
					case 0:
						x = x.Where(t)
					case 1:
						x = x.Where(n.eq()).Where(t)
					case 2:
						x = x.Where(t).Where(n.eq())
					case 3:
						x = x.Where(n.eq(), t)
					case 4:
						x = x.Where(t, n.eq())
					}
					c.Op("%s", x.desc)
					derivedFilter(c, x, n)
					c.State(x.key())
				}},
			{Name: "two-where-calls", Quick: []int{2}, Thorough: []int{2, 3},
				Doc: "updates and deletes of selects filtered by <bound> Where calls, each of 1..2 conditions out of leaf, Or(leaf), a.Or(b), a.And(b), Not(group), OR group, mixed group, empty group",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					x := newSel(pick(c, kBase, kMany, kSingle), query.Table("t"))
					for i := 0; i < c.Bound; i++ {
						x = x.Where(whereList(c, n, 1, 2)...)
					}
					c.Op("%s", x.desc)
					derivedFilter(c, x, n)
					c.State(x.key())
				}},
			{Name: "sizes", Quick: []int{10}, Thorough: []int{40},
				Doc: bigSelDoc + "; and everything derived from them",
				Body: func(c *mc.Ctx) {
					x, _ := bigSel(c, c.Bound, big(c, 129, 1025))
					derived(c, x)
					x.check(c)
					c.State(x.key())
				}},
			{Name: "names", Quick: []int{0}, Thorough: []int{0},
				Doc: namesDoc + "; and everything derived from them",
				Body: func(c *mc.Ctx) {
					x := namedSel(c)
					derived(c, x)
					x.check(c)
					c.State(x.key())
				}},
		},
	})
}

func derivedFilter(c *mc.Ctx, x sel, n *namer) {
	upd, del := x.Update(query.FieldName("p").Value(901)), x.Delete()
	if x.filter == nil {
		wantErr(c, "update", upd)
		wantErr(c, "delete", del)
	} else {
		sameFilter(c, "update", stmtOK(c, "update", upd).Where, x.filter)
		sameFilter(c, "delete", stmtOK(c, "delete", del).Where, x.filter)
	}
	more := []cond{n.eq()}
	if c.Bool() {
		more = append(more, n.op("IN"))
	}
	filter := model.Where(x.filter, more)
	sameFilter(c, "update and more", stmtOK(c, "update", upd.Where(model.Reals(more)...)).Where, filter)
	sameFilter(c, "delete and more", stmtOK(c, "delete", del.Where(model.Reals(more)...)).Where, filter)
	sameFilter(c, "select", stmtOK(c, "select", x.is()).Where, x.filter)
}

// whereList chooses min..max conditions of every shape for one Where call.
func whereList(c *mc.Ctx, n *namer, min, max int) []cond {
	var out []cond
	for k := min + c.Choose(max-min+1); k > 0; k-- {
		out = append(out, shape(c, n))
	}
	return out
}

func shape(c *mc.Ctx, n *namer) cond { return shapeOf(c.Choose(11), n) }

func shapeOf(k int, n *namer) cond {
	combine := func(form int, op query.JoinType, x cond, ds ...cond) cond {
		r, ok := model.Combine(form, op, x, ds...)
		if !ok {
			panic(fmt.Sprint("unspecified combination ", x.Desc))
		}
		return r
	}
	switch k {
	case 0:
		return n.eq()
	case 1:
		return combine(model.Func, or, n.eq()) // Or(a)
	case 2:
		return combine(model.Method, or, n.eq(), n.eq())
	case 3:
		return combine(model.Method, and, n.eq(), n.eq())
	case 4:
		return model.Not(model.NewGroup(or, n.eq(), n.eq()))
	case 5:
		return model.NewGroup(or, n.eq(), n.eq())
	case 6:
		return model.NewGroup(and)
	case 7:
		return combine(model.Method, or, combine(model.Method, and, n.eq(), n.eq()), n.eq())
	case 8:
		return model.Join(model.NewGroup(and, n.eq(), n.eq()), or)
	case 9:
		return model.Not(n.eq())
	}
	return model.Join(model.Not(model.NewGroup(and, n.eq(), n.eq())), or)
}
