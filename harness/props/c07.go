package props

import (
	"fmt"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

// filterArg chooses a condition that may have nothing in it.
func filterArg(c *mc.Ctx, n *namer, kinds int) cond {
	k := c.Choose(kinds)
	switch k {
	case 0:
		return n.eq()
	case 1:
		return model.NewGroup(and)
	case 2:
		return model.NewGroup(or)
	case 3:
		return model.NewGroup(and, model.NewGroup(or), model.NewGroup(and))
	case 4:
		return model.Not(model.NewGroup(and))
	case 5:
		return model.Not(model.NewGroup(or, model.Not(model.NewGroup(and))))
	case 6:
		return model.Join(model.NewGroup(and, model.NewGroup(and)), or)
	case 7:
		return cond{Real: query.Group{}, N: &model.Node{Op: and}, J: "", Desc: "Group{}"}
	case 8:
		x, _ := model.Brackets(model.NewGroup(and))
		return x
	case 9:
		return model.NewGroup(and, model.NewGroup(or), n.eq())
	case 10:
		x, _ := model.Combine(model.Method, or, model.NewGroup(and), model.NewGroup(or))
		return x
	case 11:
		return model.NewLeaf("IN", ref{Name: "f"}, []int{}, nil, false) // an empty list is a condition: nothing matches
	}
	if k < 16 { // an empty group behind a pointer or inside an external condition
		x, _ := model.Wrap(k-12, model.NewGroup(and))
		return x
	}
	switch k { // conditions with no parameters at all
	case 17:
		return model.Not(model.NewCustom(model.CFunc, true, "flag", ref{Name: "f"}))
	case 18:
		return n.op("IS NULL")
	case 19:
		return model.Not(n.op("IS NULL"))
	case 20:
		return model.Not(model.NewLeaf("IN", ref{Name: "f"}, []int{}, nil, false))
	case 21:
		return model.NewGroup(or, model.Not(model.NewGroup(and, n.op("IS NULL"))))
	}
	return model.NewCustom(model.CFunc, false, "flag", ref{Name: "f"})
}

func whereCalls(c *mc.Ctx, n *namer, calls, most int) [][]cond {
	var out [][]cond
	kinds := 22
	if calls > 1 {
		kinds = 17
	}
	for i := 0; i < calls; i++ {
		var cs []cond
		for k := c.Choose(most + 1); k > 0; k-- {
			cs = append(cs, filterArg(c, n, kinds))
		}
		out = append(out, cs)
	}
	return out
}

// guarded checks an update or delete whose parts are known.
func guarded(c *mc.Ctx, what string, b builder, kind string, filter *model.Node, table string, set []sqlx.Assign) {
	if filter == nil || filter.Empty() || table == "" || kind == "UPDATE" && len(set) == 0 {
		c.Tag("refused")
		wantErr(c, what, b)
		return
	}
	c.Tag("built")
	st := stmtOK(c, what, b)
	if st.Kind != kind || st.Where == nil || st.Table.Name != table {
		c.Failf("%s: built %+v, expected %s of %s with a filter", what, st, kind, table)
	}
	sameFilter(c, what, st.Where, filter)
	checkAssign(c, what, st.Set, set)
}

func init() {
	mc.Register(&mc.Property{
		ID:          "C07",
		Assumptions: []string{"a table name is empty only when it is the empty string"},
		Families: []mc.Family{
			{Name: "where-calls", Quick: []int{0, 1, 2}, Thorough: []int{0, 1, 2, 3},
				Doc: "updates and deletes, made from a table or converted from base, many and single selects, after every sequence of <bound> Where calls of 0..2 conditions (0..1 for three calls) out of leaves, empty, nested empty, negated empty and zero-value groups, empty groups behind pointers and inside external conditions, conditions without parameters (an empty IN list, IS NULL, an external one, in single calls also negated); calls placed before or after the conversion; with and without set values and table name",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					most := 2
					if c.Bound == 3 {
						most = 1
					}
					calls := whereCalls(c, n, c.Bound, most)
					var filter *model.Node
					for _, cs := range calls {
						filter = model.Where(filter, cs)
						c.Op("where(%s)", model.Descs(cs))
					}
					table := pick(c, "t", "")
					kind := pick(c, "UPDATE", "DELETE")
					var vs []query.FieldValue
					var set []sqlx.Assign
					if kind == "UPDATE" && c.Bool() {
						vs = []query.FieldValue{query.FieldName("x").Value(7)}
						set = []sqlx.Assign{{Col: "x", Val: 7}}
					}
					origin := 0 // directly
					if table != "" {
						origin = c.Choose(4)
					}
					split := len(calls) // calls made before the conversion
					if origin > 0 {
						split = c.Choose(len(calls) + 1)
					} else {
						split = 0
					}
					// conditions on the select are transferred as a filter equivalent to it, later ones are added to it
					var upd query.UpdateBuilder
					var del query.DeleteBuilder
					if origin == 0 {
						upd, del = query.Update(table).Set(vs...), query.Delete(table)
					} else {
						x := newSel([]string{kBase, kMany, kSingle}[origin-1], query.Table(table))
						for _, cs := range calls[:split] {
							x = x.Where(cs...)
						}
						upd, del = x.Update(vs...), x.Delete()
					}
					for _, cs := range calls[split:] {
						upd, del = upd.Where(model.Reals(cs)...), del.Where(model.Reals(cs)...)
					}
					if kind == "UPDATE" {
						guarded(c, "update", upd, kind, filter, table, set)
					} else {
						guarded(c, "delete", del, kind, filter, table, nil)
					}
					c.State(kind, table, fmt.Sprint(len(set), origin), fmt.Sprint(model.Mean(filter)))
				}},
			{Name: "call-orders", Quick: []int{1, 2, 3}, Thorough: []int{1, 2, 3, 4, 5},
				Doc: "updates and deletes with every sequence of <bound> calls out of Set(), Set(one), Where(), Where(empty group), Where(leaf), over tables given as string, TableName, TableIdent, TableIdent with alias, and empty, and zero builders",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					kind := pick(c, "UPDATE", "DELETE")
					ti := c.Choose(7)
					name := []string{"t", "t", "t", "t", "", "", ""}[ti]
					var upd query.UpdateBuilder
					var del query.DeleteBuilder
					switch ti {
					case 0:
						upd, del = query.Update("t"), query.Delete("t")
					case 1:
						upd, del = query.Update(query.TableName("t")), query.Delete(query.TableName("t"))
					case 2:
						upd, del = query.Update(query.Table("t")), query.Table("t").Delete()
					case 3:
						upd, del = query.Table("t as x").Update(), query.Delete(query.Table("t as x"))
					case 4:
						upd, del = query.Update(""), query.Delete(query.TableIdent{})
					case 5:
						upd, del = query.TableName("").Update(), query.TableIdent{}.As("x").Delete()
					case 6: // not made by the library
						upd, del = query.UpdateBuilder{}, query.DeleteBuilder{}
					}
					var filter *model.Node
					var set []sqlx.Assign
					for i := 0; i < c.Bound; i++ {
						what := c.Choose(5)
						var cs []cond
						switch what {
						case 0:
							upd = upd.Set()
						case 1:
							v := query.FieldName("x").Value(i)
							upd = upd.Set(v)
							set = append(set, sqlx.Assign{Col: "x", Val: i})
						case 2:
							cs = []cond{}
						case 3:
							cs = []cond{model.NewGroup(or)}
						case 4:
							cs = []cond{n.eq()}
						}
						if cs != nil {
							upd, del = upd.Where(model.Reals(cs)...), del.Where(model.Reals(cs)...)
							filter = model.Where(filter, cs)
						}
						c.Op("%s", []string{"Set()", "Set(x)", "Where()", "Where(empty group)", "Where(leaf)"}[what])
						if kind == "DELETE" && what < 2 {
							c.Skip()
						}
					}
					if kind == "UPDATE" {
						guarded(c, "update", upd, kind, filter, name, set)
					} else {
						guarded(c, "delete", del, kind, filter, name, nil)
					}
					c.State(kind, fmt.Sprint(ti, len(set)), fmt.Sprint(model.Mean(filter)))
				}},
			{Name: "inserts", Quick: []int{0, 1, 2, 3}, Thorough: []int{0, 1, 2, 3, 4, 5},
				Doc: "inserts over every form of table (empty ones included) after every sequence of <bound> Values calls of 0..2 values, also converted from base, many and single selects",
				Body: func(c *mc.Ctx) {
					ti := c.Choose(8)
					name := "t"
					var b query.InsertBuilder
					switch ti {
					case 0:
						b = query.InsertInto("t")
					case 1:
						b = query.TableName("t").InsertInto()
					case 2:
						b = query.Table("t as x").InsertInto()
					case 3:
						b, name = query.InsertInto(""), ""
					case 4:
						b, name = query.InsertInto(query.TableIdent{}.As("x")), ""
					case 5:
						b = query.SelectFrom("t").Where(query.EqualTo("a", 1)).InsertInto()
					case 6:
						b = query.SelectManyFrom("t as x").InsertInto()
					case 7:
						b = query.SelectSingleFrom("t").InsertInto()
					}
					var want []sqlx.Assign
					for i := 0; i < c.Bound; i++ {
						var vs []query.FieldValue
						for k := c.Choose(3); k > 0; k-- {
							col := fmt.Sprintf("c%d_%d", i, k)
							vs = append(vs, query.FieldName(col).Value(i*10+k))
							want = append(want, sqlx.Assign{Col: col, Val: i*10 + k})
						}
						b = b.Values(vs...)
						c.Op("Values of %d", len(vs))
					}
					if name == "" || len(want) == 0 {
						wantErr(c, "insert", b)
					} else {
						st := stmtOK(c, "insert", b)
						if st.Kind != "INSERT" || st.Table.Name != name {
							c.Failf("insert: built %+v", st)
						}
						checkAssign(c, "insert", st.Set, want)
					}
					c.State(fmt.Sprint(ti, len(want)))
				}},
		},
	})
}
