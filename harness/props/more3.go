package props

import (
	"fmt"
	"strings"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

// manyRefs are n different fields of three forms.
func manyRefs(n int) (rs []ref) {
	for i := 0; i < n; i++ {
		s := fmt.Sprint(i)
		rs = append(rs, []ref{{Name: "c" + s}, {Table: "t" + s, Name: "c"}, {Table: "t", Name: "c" + s, Alias: "a" + s}, {Name: "c", Alias: "b" + s}}[i%4])
	}
	return rs
}

// asArgs gives the fields to NewFields as text, names, definitions, or each in turn.
func asArgs(rs []ref, how int) (args []any) {
	for i, r := range rs {
		switch k := how; {
		case k == 3 && i%3 == 0, k == 0:
			args = append(args, r.Spec())
		case k == 3 && i%3 == 1, k == 1:
			args = append(args, query.FieldName(r.Spec()))
		default:
			args = append(args, query.Field(r.Spec()))
		}
	}
	return args
}

// listIs compares a list of definitions with the fields given.
func listIs(c *mc.Ctx, what string, ds []query.FieldDefinition, rs []ref) {
	if len(ds) != len(rs) {
		c.Failf("%s: %d field definitions, expected %d", what, len(ds), len(rs))
	}
	for i, d := range ds {
		fieldIs(c, fmt.Sprintf("%s[%d]", what, i), d, rs[i])
	}
}

// specsAre compares a rendered field list with the fields given.
func specsAre(c *mc.Ctx, what, list string, rs []ref) {
	st, err := sqlx.ParseStmt("SELECT "+list+" FROM t", nil, 0, false)
	if err != nil {
		c.Failf("%s: %q: %v", what, list, err)
	}
	want := rs
	if len(want) == 0 {
		want = []ref{{Name: "*"}}
	}
	if len(st.Items) != len(want) {
		c.Failf("%s: %q has %d fields, expected %d", what, list, len(st.Items), len(want))
	}
	for i, it := range st.Items {
		ref := want[i].Name
		if want[i].Table != "" {
			ref = want[i].Table + "." + ref
		}
		if it.Ref != ref || it.Alias != want[i].Alias {
			c.Failf("%s: field %d is %+v, expected %s", what, i, it, want[i].Spec())
		}
	}
}

// mentions checks that the text names all fields, in order.
func mentions(c *mc.Ctx, what, text string, rs []ref) {
	rest := text
	for i, r := range rs {
		k := strings.Index(rest, r.Name)
		if k < 0 {
			c.Failf("%s: %q does not name field %d, %s", what, text, i, r.Spec())
		}
		rest = rest[k+len(r.Name):]
	}
}

func init() {
	mc.Extend("C25", mc.Family{Name: "sizes", Quick: []int{20}, Thorough: []int{70},
		Doc: "field lists made by NewFields of n texts, names, definitions or each in turn and by Fields, of the list itself and of the selects given it; n values set on inserts and updates at once, one by one and in halves; clauses of n conditions; n every number up to <bound> and around powers of two and ten up to 300 (1025)",
		Body: func(c *mc.Ctx) {
			what := c.Choose(4)
			n := size(c, c.Bound, big(c, 300, 1025))
			c.Op("way %d, size %d", what, n)
			switch what {
			case 0:
				rs := manyRefs(n)
				f := query.NewFields(asArgs(rs, c.Choose(4))...)
				if c.Bool() {
					f = query.NewFields("old", "older").Fields(f.FieldDefinitions()...)
				}
				if f.Len() != n {
					c.Failf("Len() is %d, expected %d", f.Len(), n)
				}
				listIs(c, "FieldDefinitions()", f.FieldDefinitions(), rs)
				specsAre(c, "FieldList()", f.FieldList(), rs)
				mentions(c, "String()", f.String(), rs)
			case 1:
				rs := manyRefs(n)
				b := query.SelectFrom("t").Fields(definitions(rs)...)
				m, s := query.SelectManyFrom("t").Fields(definitions(rs)...), query.SelectSingleFrom("t").Fields(definitions(rs)...)
				listIs(c, "base FieldDefinitions()", b.FieldDefinitions(), rs)
				listIs(c, "many FieldDefinitions()", m.FieldDefinitions(), rs)
				listIs(c, "single FieldDefinitions()", s.FieldDefinitions(), rs)
				specsAre(c, "many FieldList()", m.FieldList(), rs)
				specsAre(c, "single FieldList()", s.FieldList(), rs)
			case 2:
				var rs []ref
				var vs []query.FieldValue
				var vals []any
				for i := 0; i < n; i++ {
					rs = append(rs, ref{Name: fmt.Sprintf("c%d", i)})
					vals = append(vals, i)
					vs = append(vs, query.FieldName(rs[i].Name).Value(i))
				}
				ins, upd := query.InsertInto("t"), query.Update("t")
				switch c.Choose(4) {
				case 0:
					ins, upd = ins.Values(vs...), upd.Set(vs...)
				case 1:
					for _, v := range vs {
						ins, upd = ins.Values(v), upd.Set(v)
					}
				case 2:
					ins, upd = ins.Values(vs[:n/2]...).Values(vs[n/2:]...), upd.Set(vs[:n/2]...).Set(vs[n/2:]...)
				default:
					sel := query.SelectFrom("t")
					ins, upd = sel.InsertInto(vs...), sel.Update(vs...)
				}
				setValuesAre(c, "insert", ins.SetValues(), rs, vals)
				setValuesAre(c, "update", upd.SetValues(), rs, vals)
				reports(c, "insert", ins, query.DoInsert, "t")
				reports(c, "update", upd, query.DoUpdate, "t")
			default:
				nm := &namer{}
				cs := manyLeaves(nm, n)
				op := pick(c, and, or)
				w := query.NewWhere()
				if op == and {
					w = w.GroupAND(model.Reals(cs)...)
				} else {
					w = w.GroupOR(model.Reals(cs)...)
				}
				got, want := joined(c, "Conditions()", w.Conditions()), read(c, "where clause", w)
				if (got == nil) != (want == nil) {
					c.Failf("Conditions() mean %v, the clause %v", got, want)
				}
				if got != nil {
					if ok, wit := sqlx.Equiv(got, want); !ok {
						c.Failf("Conditions() mean %v, the clause %v: differ %s", got, want, wit)
					}
				}
				var vals []any
				for _, k := range w.Conditions() {
					vals = append(vals, k.Values()...)
				}
				if !model.SameAll(vals, w.Values()) {
					c.Failf("Conditions() have values %v, the clause %v", vals, w.Values())
				}
			}
			c.State(fmt.Sprint(what, n))
		}})

	mc.Extend("C20", mc.Family{Name: "entries", Quick: []int{6}, Thorough: []int{40},
		Doc: "a condition of each of the 18 kinds and n further ones: method, function, group and one by one; n every number up to <bound> and around powers of two and ten up to 100 (300); the n conditions given to every select, count, delete and where clause that takes conditions",
		Body: func(c *mc.Ctx) {
			k := condKinds[c.Choose(len(condKinds))]
			n := size(c, c.Bound, big(c, 100, 300))
			nm := &namer{}
			rs := model.Reals(manyLeaves(nm, n))
			all := append([]query.Condition{k.mk()}, rs...)
			c.Op("%s and %d", k.name, n)
			isOr := c.Bool()
			op := and
			if isOr {
				op = or
			}
			forms := []form[query.Condition]{
				{"method", func() query.Condition {
					if isOr {
						return k.mk().Or(rs...)
					}
					return k.mk().And(rs...)
				}},
				{"function", func() query.Condition {
					if isOr {
						return query.Or(k.mk(), rs...)
					}
					return query.And(k.mk(), rs...)
				}},
			}
			if g, ok := k.mk().(query.Group); ok {
				forms = append(forms, form[query.Condition]{"group", func() query.Condition {
					if isOr {
						return g.GroupOR(rs...)
					}
					return g.GroupAND(rs...)
				}})
			}
			sameConditions(c, false, forms)
			sameConditions(c, false, []form[query.Condition]{
				{"NewGroup", func() query.Condition { return query.NewGroup(op, all...) }},
				{"JoinType.Join", func() query.Condition { return query.NewGroup(and, op.Join(all...)) }},
				{"SetToAll", func() query.Condition { return query.NewGroup(op, op.SetToAll(all...)...) }},
			})
			t := query.Table("t").As("x")
			if isOr {
				t = query.Table("t")
			}
			base := query.SelectFrom(t)
			sameStatements(c, []form[builder]{
				{"Where", func() builder { return base.Where(all...) }}, {"ident", func() builder { return t.Select(all...) }},
				{"many", func() builder { return t.SelectMany(all...) }}, {"many Where", func() builder { return query.SelectManyFrom(t).Where(all...) }},
				{"many of base", func() builder { return query.SelectManyFromBase(base.Where(all...)) }},
			})
			sameStatements(c, []form[builder]{
				{"single", func() builder { return t.SelectOne(all...) }}, {"single Where", func() builder { return query.SelectSingleFrom(t).Where(all...) }},
				{"single of base", func() builder { return query.SelectSingleFromBase(base.Where(all...)) }},
				{"base Single", func() builder { return base.Where(all...).Single() }},
			})
			sameStatements(c, []form[builder]{
				{"Count", func() builder { return base.Where(all...).Count() }}, {"ident Count", func() builder { return t.Count(all...) }},
				{"function Count", func() builder { return query.Count(base.Where(all...)) }},
			})
			v := query.FieldName("v").Value(7)
			sameStatements(c, []form[builder]{
				{"Update", func() builder { return base.Where(all...).Update(v) }}, {"ident Update", func() builder { return t.Update(v).Where(all...) }},
				{"many Update", func() builder { return t.SelectMany(all...).Update(v) }}, {"single Update", func() builder { return t.SelectOne(all...).Update(v) }},
			})
			sameStatements(c, []form[builder]{
				{"Delete", func() builder { return base.Where(all...).Delete() }}, {"ident Delete", func() builder { return t.Delete(all...) }},
				{"many Delete", func() builder { return t.SelectMany(all...).Delete() }}, {"single Delete", func() builder { return t.SelectOne(all...).Delete() }},
			})
			if isOr {
				sameStatements(c, []form[builder]{
					{"ident", func() builder { return t.Select(all...) }}, {"name", func() builder { return query.TableName("t").Select(all...) }},
					{"name many", func() builder { return query.TableName("t").SelectMany(all...) }},
				})
				sameStatements(c, []form[builder]{
					{"ident", func() builder { return t.SelectOne(all...) }}, {"name", func() builder { return query.TableName("t").SelectOne(all...) }},
				})
				sameStatements(c, []form[builder]{
					{"ident", func() builder { return t.Delete(all...) }}, {"name", func() builder { return query.TableName("t").Delete(all...) }},
				})
			}
		}})
}
