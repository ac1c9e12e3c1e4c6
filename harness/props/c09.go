package props

import (
	"errors"
	"fmt"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

// anyFieldValue chooses a field value; single is false when it does not give exactly one parameter.
func anyFieldValue(c *mc.Ctx, i int) (v query.FieldValue, want sqlx.Assign, single bool) {
	col := fmt.Sprintf("c%d", i)
	switch c.Choose(9) {
	case 0:
		return query.FieldName(col).Value(i * 11), sqlx.Assign{Col: col, Val: i * 11}, true
	case 1:
		return *query.NewFieldValue(query.FieldName(col), nil), sqlx.Assign{Col: col}, true
	case 2:
		return query.Field("t." + col + " as z").Value("s"), sqlx.Assign{Col: col, Val: "s"}, true
	case 3:
		return query.FieldName("same").Value(i), sqlx.Assign{Col: "same", Val: i}, true
	case 4:
		return query.FieldName(col).Value(model.VInt(i)), sqlx.Assign{Col: col, Val: int64(i) * 10}, true
	case 5:
		return query.FieldName(col).Value([]byte("b")), sqlx.Assign{Col: col, Val: []byte("b")}, true
	case 6:
		return query.FieldName(col).Value([]string{"p", "q"}), sqlx.Assign{Col: col}, false
	case 7:
		return query.FieldName(col).Value([]string{}), sqlx.Assign{Col: col}, false
	}
	return query.FieldName(col).Value([]model.VInt{1, 2, 3}), sqlx.Assign{Col: col}, false
}

func init() {
	mc.Register(&mc.Property{
		ID:          "C09",
		Assumptions: []string{"a list as a field value is refused: it would shift the other values (a list of exactly one is not asserted)"},
		Families: []mc.Family{
			{Name: "pairing", Quick: []int{1, 2, 3, 4, 5}, Thorough: []int{1, 2, 3, 4, 5},
				Doc: "inserts and updates of exactly <bound> field values out of 9 kinds (single values, nil, qualified and aliased fields, repeated columns, converting values, bytes, lists of two, none and three values), cut into calls in every way; updates with filters of 1 and 3 parameters",
				Body: func(c *mc.Ctx) {
					var want []sqlx.Assign
					var vs []query.FieldValue
					ok := true
					ins := query.InsertInto("t")
					upd := query.Update("t")
					n := &namer{}
					first, second := n.op("IN"), n.eq()
					early := c.Bool() // filter before the values
					if early {
						upd = upd.Where(first.Real, second.Real)
					}
					for i := 0; i < c.Bound; i++ {
						v, w, single := anyFieldValue(c, i)
						ok = ok && single
						vs = append(vs, v)
						want = append(want, w)
						if i == c.Bound-1 || c.Bool() {
							ins, upd = ins.Values(vs...), upd.Set(vs...)
							c.Op("values %v", want[len(want)-len(vs):])
							vs = nil
						}
					}
					if !early {
						upd = upd.Where(first.Real, second.Real)
					}
					filter := model.Where(nil, []cond{first, second})
					if got := ins.SetValues(); len(got) != len(want) {
						c.Failf("insert: SetValues() are %d, expected %d", len(got), len(want))
					}
					if got := upd.SetValues(); len(got) != len(want) {
						c.Failf("update: SetValues() are %d, expected %d", len(got), len(want))
					}
					if !ok {
						c.Tag("refused")
						wantErr(c, "insert", ins)
						wantErr(c, "update", upd)
						return
					}
					st := stmtOK(c, "insert", ins)
					if st.Kind != "INSERT" || st.Table.Name != "t" {
						c.Failf("insert: %+v", st)
					}
					checkAssign(c, "insert", st.Set, want)
					st = stmtOK(c, "update", upd)
					if st.Kind != "UPDATE" || st.Table.Name != "t" {
						c.Failf("update: %+v", st)
					}
					checkAssign(c, "update", st.Set, want)
					sameFilter(c, "update", st.Where, filter)
					c.State(fmt.Sprint(want, early))
				}},
			{Name: "width", Quick: []int{30}, Thorough: []int{250},
				Doc: "inserts and updates of every number of columns 1..<bound>, with a list at every position or none",
				Body: func(c *mc.Ctx) {
					k := 1 + c.Choose(c.Bound)
					bad := c.Choose(k + 1)
					var want []sqlx.Assign
					var vs []query.FieldValue
					for i := 0; i < k; i++ {
						var v any = i
						if i == bad {
							v = []string{"x", "y"}
						}
						col := fmt.Sprintf("c%d", i)
						vs = append(vs, query.FieldName(col).Value(v))
						want = append(want, sqlx.Assign{Col: col, Val: v})
					}
					ins := query.InsertInto("t").Values(vs...)
					n := &namer{}
					x := n.eq()
					upd := query.Update("t").Set(vs...).Where(x.Real)
					c.Op("%d columns, list at %d", k, bad)
					if bad < k {
						_, params, err := ins.BuildQueryAndParams()
						if !errors.Is(err, query.Error) {
							c.Failf("insert with a list at column %d of %d built with %v, error %v", bad, k, params, err)
						}
						wantErr(c, "insert", ins)
						wantErr(c, "update", upd)
						return
					}
					checkAssign(c, "insert", stmtOK(c, "insert", ins).Set, want)
					st := stmtOK(c, "update", upd)
					checkAssign(c, "update", st.Set, want)
					sameFilter(c, "update", st.Where, x.N)
					c.State(fmt.Sprint(k))
				}},
			{Name: "tables", Quick: []int{0}, Thorough: []int{0},
				Doc: "inserts and updates started from every form of table and converted from every kind of select with and without a filter: the table, the columns and the filter are the requested ones",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					x := anySel(c)
					var cs []cond
					if c.Bool() {
						cs = []cond{n.eq(), n.op("IN")}
						x = x.Where(cs...)
					}
					vs := []query.FieldValue{query.FieldName("p").Value(5), query.Field("q.r").Value(nil)}
					want := []sqlx.Assign{{Col: "p", Val: 5}, {Col: "r", Val: nil}}
					ins, upd := x.InsertInto(vs...), x.Update(vs...)
					more := n.eq()
					upd = upd.Where(more.Real)
					filter := model.Where(x.filter, []cond{more})
					st := stmtOK(c, "insert", ins)
					if st.Table.Name != x.table.Name || string(ins.TableName()) != x.table.Name {
						c.Failf("insert into %v from %s", st.Table, x.desc)
					}
					checkAssign(c, "insert", st.Set, want)
					st = stmtOK(c, "update", upd)
					if st.Table.Name != x.table.Name || string(upd.TableName()) != x.table.Name {
						c.Failf("update of %v from %s", st.Table, x.desc)
					}
					checkAssign(c, "update", st.Set, want)
					sameFilter(c, "update", st.Where, filter)
					c.State(x.key())
				}},
		},
	})
}
