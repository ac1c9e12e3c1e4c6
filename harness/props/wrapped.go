package props

import (
	"database/sql/driver"
	"fmt"
	"net/netip"
	"time"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

// Values as they are, and given by those that convert themselves.

// blanks are values easily taken for nothing, or for a kind of their own.
func blanks() []any {
	type empty struct{}
	type pair struct {
		A any
		B *int
	}
	far, _ := time.Parse(time.RFC3339Nano, "9999-12-31T23:59:59.999999999Z")
	zone := time.FixedZone("", 5*3600+1800)
	n, s := 0, ""
	var np *int
	var ns *string
	var nt *time.Time
	now := time.Now()
	var nb []byte
	return []any{
		nil, false, true, 0, int64(0), uint8(0), 0.0, "", []byte{}, nb, []byte{0}, ' ', 'x',
		time.Time{}, time.Time{}.UTC(), time.Time{}.In(zone), time.Unix(0, 0), time.Unix(0, 0).UTC(), time.Unix(-1, 5), far, far.Add(time.Hour * 48), now, now.In(zone), now.Round(0), now.Truncate(time.Microsecond), time.Date(2024, 3, 31, 2, 30, 0, 0, time.Local), time.Date(-5, 1, 1, 0, 0, 0, 1, zone), time.Duration(0), time.Duration(1), time.Month(0), time.Sunday,
		empty{}, pair{}, pair{1, &n}, &empty{}, &n, &s, np, ns, nt, &now, [0]int{}, [1]int{}, map[string]int{}, map[string]int(nil), netip.Addr{}, netip.MustParseAddr("1.2.3.4"),
		error(nil), fmt.Errorf("e"), query.Error, struct{}{}, complex(0, 0), uintptr(0), any(nil), query.Ascending, query.LogicalAND, query.FieldName(""), query.TableName(""), query.Field("a"), query.FieldDefinition{}, query.Table("t"), query.TableIdent{},
		query.SelectFrom("t"), query.IsNull("a"), query.NewGroup(and), query.Limiter{}, query.Fields{}, query.DoInsert, query.InnerJoin,
	}
}

func init() {
	vs := blanks()
	listed := func(c *mc.Ctx, what string, list any, want ...any) {
		for _, m := range inMakers {
			checkParams(c, m.name+" of "+what, m.f, list, want, false)
		}
	}
	mc.Extend("C10", mc.Family{Name: "wrapped", Quick: []int{0}, Thorough: []int{0},
		Doc: fmt.Sprintf("%d values easily taken for nothing or for something else (zero values, empty and nil bytes, times of every kind, months, empty structs, maps and arrays, nil pointers, errors, the library's own types): as they are, given by a Valuer, by a pointer to one, by a provider, by a pointer to one, through each of %d ways into a statement; between others in lists of any, of such Valuers, pointers to them, providers, driver.Valuers and ValueProviders through In in %d ways", len(vs), len(makers), len(inMakers)),
		Body: func(c *mc.Ctx) {
			k := c.Choose(len(vs))
			v := vs[k]
			how := c.Choose(11)
			g, p := model.Gives{V: v}, model.Provides{V: v}
			g1, p1 := model.Gives{V: 1}, model.Provides{V: 1}
			what := fmt.Sprintf("%T %v, %d", v, v, how)
			c.State(fmt.Sprint(k, how))
			var in any
			switch how {
			case 0:
				switch v.(type) {
				case [0]int, [1]int: // lists to In
					c.Skip()
				}
				in = v
			case 1:
				in = g
			case 2:
				in = &g
			case 3:
				in = p
			case 4:
				in = &p
			case 5:
				listed(c, what, []any{1, v, v, "x"}, 1, v, v, "x")
				return
			case 6:
				listed(c, what, []model.Gives{g, g1, g}, v, 1, v)
				return
			case 7:
				listed(c, what, []*model.Gives{&g1, &g, &g}, 1, v, v)
				return
			case 8:
				listed(c, what, []any{g1, p, g, &p, &g}, 1, v, v, v, v)
				return
			case 9:
				listed(c, what, []driver.Valuer{g, &g1, &g}, v, 1, v)
				return
			case 10:
				listed(c, what, []query.ValueProvider{p, &p1, &p}, v, 1, v)
				listed(c, what, []model.Provides{p, p1, p}, v, 1, v)
				listed(c, what, [2]*model.Provides{&p, &p1}, v, 1)
				return
			}
			for _, m := range makers {
				ps, err := m.f(in)
				c.Count(1)
				if err != nil || len(ps) != 1 || !model.Same(ps[0], v) {
					c.Failf("%s of %s: passed as %s, %v", m.name, what, model.Show(ps), err)
				}
			}
		}})

	// what is set may be anything
	mc.Extend("C07", mc.Family{Name: "any-data", Quick: []int{1, 2}, Thorough: []int{1, 2, 3},
		Doc: fmt.Sprintf("inserts and updates of <bound> fields with each of %d values easily taken for nothing, as they are or given by a Valuer or a provider, set at once or one by one, filtered by each of them too: built; without a filter, table or field: refused", len(vs)),
		Body: func(c *mc.Ctx) {
			var set []query.FieldValue
			var want []sqlx.Assign
			var last any
			for i := 0; i < c.Bound; i++ {
				v := vs[c.Choose(len(vs))]
				switch v.(type) {
				case [0]int, [1]int:
					c.Skip()
				}
				in := v
				if i == 0 {
					in = []any{v, model.Gives{V: v}, model.Provides{V: v}}[c.Choose(3)]
				}
				col := fmt.Sprint("c", i)
				set = append(set, query.FieldName(col).Value(in))
				want = append(want, sqlx.Assign{Col: col, Val: v})
				last = v
			}
			upd, ins, del := query.Update("t"), query.InsertInto("t"), query.Delete("t")
			if c.Bool() {
				upd, ins = upd.Set(set...), ins.Values(set...)
			} else {
				for _, v := range set {
					upd, ins = upd.Set(v), ins.Values(v)
				}
			}
			st := stmtOK(c, "insert", ins)
			checkAssign(c, "insert", st.Set, want)
			wantErr(c, "update of all", upd)
			wantErr(c, "insert into nothing", query.InsertInto("").Values(set...))
			filter := model.NewLeaf("=", ref{Name: "f"}, last, []any{last}, false)
			guarded(c, "update", upd.Where(filter.Real), "UPDATE", filter.N, "t", want)
			guarded(c, "delete", del.Where(filter.Real), "DELETE", filter.N, "t", nil)
			guarded(c, "update of nothing", query.Update("t").Where(filter.Real), "UPDATE", filter.N, "t", nil)
			guarded(c, "update nowhere", query.Update("").Set(set...).Where(filter.Real), "UPDATE", filter.N, "", want)
			c.State(model.Show([]any{last}), fmt.Sprint(len(set)))
		}})
}
