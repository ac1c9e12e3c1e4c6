package props

import (
	"fmt"
	"reflect"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

// form is one way to make something.
type form[T any] struct {
	name string
	mk   func() T
}

// sameStatements checks that all forms build the same statement.
func sameStatements(c *mc.Ctx, forms []form[builder]) {
	var first *sqlx.Stmt
	var firstErr error
	for i, f := range forms {
		b := f.mk()
		sql, params, err := b.BuildQueryAndParams()
		c.Op("%s builds %q %s %v", f.name, sql, model.Show(params), err)
		var st *sqlx.Stmt
		if err == nil {
			if st, err = sqlx.ParseStmt(sql, params, 0, false); err != nil {
				c.Failf("%s builds %q: %v", f.name, sql, err)
			}
		}
		if i == 0 {
			first, firstErr = st, err
			c.State(sql)
			continue
		}
		if (err != nil) != (firstErr != nil) {
			c.Failf("%s gives error %v, but %s %v", f.name, err, forms[0].name, firstErr)
		}
		if err != nil {
			continue
		}
		x, y := *first, *st
		wx, wy := x.Where, y.Where
		x.Where, y.Where = nil, nil
		if !reflect.DeepEqual(x, y) {
			c.Failf("%s builds %q: %+v, but %s %+v", f.name, sql, y, forms[0].name, x)
		}
		if (wx == nil) != (wy == nil) {
			c.Failf("%s builds %q, the filter differs from %s", f.name, sql, forms[0].name)
		}
		if wx != nil {
			if ok, wit := sqlx.Equiv(wx, wy); !ok {
				c.Failf("%s builds %q, the filter differs from %s: %s", f.name, sql, forms[0].name, wit)
			}
		}
	}
}

// sameConditions checks that all forms render the same condition.
func sameConditions(c *mc.Ctx, flags bool, forms []form[query.Condition]) {
	var first query.Condition
	for i, f := range forms {
		x := f.mk()
		c.Op("%s renders %q %v", f.name, x.RenderSQL(), x.Values())
		if i == 0 {
			first = x
			c.State(x.RenderSQL())
			continue
		}
		if flags && (x.IsNegate() != first.IsNegate() || x.JoinType() != first.JoinType() || x.FieldName() != first.FieldName()) {
			c.Failf("%s is negated %v, joined %v, of %q; %s %v, %v, %q", f.name, x.IsNegate(), x.JoinType(), x.FieldName(), forms[0].name, first.IsNegate(), first.JoinType(), first.FieldName())
		}
		if !model.SameAll(x.Values(), first.Values()) {
			c.Failf("%s has values %v, %s %v", f.name, x.Values(), forms[0].name, first.Values())
		}
		for _, s := range []int{0, 9} {
			a, _, err1 := sqlx.ParseCond(x.Render(s), x.Values(), s, false)
			b, _, err2 := sqlx.ParseCond(first.Render(s), first.Values(), s, false)
			if err1 != nil || err2 != nil {
				if (err1 == nil) != (err2 == nil) {
					c.Failf("%s renders %q (%v), %s %q (%v)", f.name, x.Render(s), err1, forms[0].name, first.Render(s), err2)
				}
				continue
			}
			if ok, wit := sqlx.Equiv(a, b); !ok {
				c.Failf("%s renders %q, %s %q: differ %s", f.name, x.Render(s), forms[0].name, first.Render(s), wit)
			}
		}
	}
}

// tableArgs are the ways to write the same table.
func tableArgs(t sqlx.Table) (plain []string, ident query.TableIdent) {
	if t.Alias == "" {
		return []string{t.Name}, query.Table(t.Name)
	}
	return []string{t.Name + " as " + t.Alias, t.Name + " AS " + t.Alias, t.Name + " " + t.Alias}, query.Table(t.Name).As(query.TableName(t.Alias))
}

var someNames = []sqlx.Table{{Name: "users"}, {Name: "t", Alias: "x"}, {Name: "Users", Alias: "users"}, {Name: "s.t"}, {Name: "asx"}, {Name: "s.t", Alias: "x"}, {Name: "s.Users", Alias: "users"}}

// fewConds are up to 2, or exactly <bound> conditions.
func fewConds(c *mc.Ctx, n *namer) []query.Condition {
	switch {
	case c.Bound <= 2:
		return model.Reals(whereList(c, n, 0, c.Bound))
	case c.Bound == 3:
		return model.Reals(whereList(c, n, 3, 3))
	}
	var out []cond
	for i := 0; i < c.Bound; i++ {
		out = append(out, shapeOf([]int{0, 1, 3, 8}[c.Choose(4)], n))
	}
	return model.Reals(out)
}

// someName is one of someNames, of fewer ones where there are many conditions.
func someName(c *mc.Ctx) sqlx.Table {
	if c.Bound > 2 {
		return someNames[c.Choose(2)]
	}
	return someNames[c.Choose(len(someNames))]
}

func setValues(c *mc.Ctx) []query.FieldValue {
	var out []query.FieldValue
	for i, k := 0, c.Choose(4); i < k; i++ {
		v := mapVals[(i*3+k)%8]
		out = append(out, query.FieldName(pick(c, fmt.Sprintf("f%d", i), fmt.Sprintf("t.f%d", i))).Value(v))
	}
	return out
}

func init() {
	mc.Register(&mc.Property{
		ID: "C20",
		Assumptions: []string{
			"the same statement: the same tables, fields, joins, ordering, values and parameters, and equivalent filters",
			"text naming a table with an alias is only used where a select is made of it; UPDATE, INSERT and DELETE take plain names, or table definitions whose alias they leave out",
			"the join operator that a combination of several conditions carries is not compared, only its meaning and values",
		},
		Families: []mc.Family{
			{Name: "selects", Quick: []int{2, 3, 4}, Thorough: []int{2, 3, 4, 5},
				Doc: "select, select-one, select-many and count of five tables (plain, aliased, letter case, dotted), given as text, TableName and TableIdent in every spelling, by functions, TableName methods and TableIdent methods, with 0..2 and exactly 3 conditions of eleven shapes, and <bound> of four (bounds 4 and 5)",
				Body: func(c *mc.Ctx) {
					t := someName(c)
					texts, id := tableArgs(t)
					n := &namer{}
					cs := fewConds(c, n)
					var base, one, many, count []form[builder]
					add := func(l *[]form[builder], name string, f func() builder) { *l = append(*l, form[builder]{name, f}) }
					for _, s := range texts {
						name := query.TableName(s)
						add(&base, "SelectFrom("+s+")", func() builder { return query.SelectFrom(s).Where(cs...) })
						add(&base, "SelectFrom(TableName "+s+")", func() builder { return query.SelectFrom(name).Where(cs...) })
						add(&base, "SelectFrom(Table("+s+"))", func() builder { return query.SelectFrom(query.Table(s)).Where(cs...) })
						add(&base, "SelectFrom(Ident "+s+"))", func() builder { return query.SelectFrom(name.Ident()).Where(cs...) })
						add(&base, "TableName("+s+").Select", func() builder { return name.Select(cs...) })
						add(&one, "SelectSingleFrom("+s+")", func() builder { return query.SelectSingleFrom(s).Where(cs...) })
						add(&one, "SelectSingleFrom(TableName "+s+")", func() builder { return query.SelectSingleFrom(name).Where(cs...) })
						add(&one, "TableName("+s+").SelectOne", func() builder { return name.SelectOne(cs...) })
						add(&many, "SelectManyFrom("+s+")", func() builder { return query.SelectManyFrom(s).Where(cs...) })
						add(&many, "SelectManyFrom(TableName "+s+")", func() builder { return query.SelectManyFrom(name).Where(cs...) })
						add(&many, "TableName("+s+").SelectMany", func() builder { return name.SelectMany(cs...) })
						add(&count, "Count("+s+")", func() builder { return query.Count(query.SelectFrom(s).Where(cs...)) })
						add(&count, "TableName("+s+").Select.Count", func() builder { return name.Select(cs...).Count() })
					}
					add(&base, "TableIdent.Select", func() builder { return id.Select(cs...) })
					add(&base, "TableIdent.SelectMany base", func() builder { return id.SelectMany(cs...).BaseSelectBuilder })
					add(&one, "TableIdent.SelectOne", func() builder { return id.SelectOne(cs...) })
					add(&one, "SelectSingleFrom(TableIdent)", func() builder { return query.SelectSingleFrom(id).Where(cs...) })
					add(&one, "TableIdent.Select.Single", func() builder { return id.Select(cs...).Single() })
					add(&one, "SelectSingleFromBase", func() builder { return query.SelectSingleFromBase(id.Select(cs...)) })
					add(&many, "TableIdent.SelectMany", func() builder { return id.SelectMany(cs...) })
					add(&many, "SelectManyFrom(TableIdent)", func() builder { return query.SelectManyFrom(id).Where(cs...) })
					add(&many, "TableIdent.Select.Many", func() builder { return id.Select(cs...).Many() })
					add(&many, "SelectManyFromBase", func() builder { return query.SelectManyFromBase(id.Select(cs...)) })
					add(&count, "TableIdent.Count", func() builder { return id.Count(cs...) })
					add(&count, "TableIdent.SelectMany.Count", func() builder { return id.SelectMany(cs...).Count() })
					add(&count, "TableIdent.SelectOne.Count", func() builder { return id.SelectOne(cs...).Count() })
					add(&count, "Count(*)", func() builder { return query.Count(id.Select(cs...), "*") })
					sameStatements(c, base)
					sameStatements(c, one)
					sameStatements(c, many)
					sameStatements(c, count)
				}},
			{Name: "changes", Quick: []int{2, 3, 4}, Thorough: []int{2, 3, 4, 5},
				Doc: "insert, update and delete of plain tables given as text, TableName and TableIdent (with and without alias), by functions, methods and from selects, with 0..3 values (given at once or one by one) and 0..2 and exactly 3 conditions of eleven shapes, and <bound> of four (bounds 4 and 5)",
				Body: func(c *mc.Ctx) {
					t := someName(c)
					id := query.Table(t.Name)
					if t.Alias != "" {
						id = id.As(query.TableName(t.Alias))
					}
					name := query.TableName(t.Name)
					n := &namer{}
					cs := fewConds(c, n)
					vs := setValues(c)
					one := func(b query.UpdateBuilder) query.UpdateBuilder {
						for _, v := range vs {
							b = b.Set(v)
						}
						return b
					}
					oneIns := func(b query.InsertBuilder) query.InsertBuilder {
						for _, v := range vs {
							b = b.Values(v)
						}
						return b
					}
					sameStatements(c, []form[builder]{
						{"InsertInto(text)", func() builder { return query.InsertInto(t.Name).Values(vs...) }},
						{"InsertInto(TableName)", func() builder { return query.InsertInto(name).Values(vs...) }},
						{"InsertInto(TableIdent)", func() builder { return query.InsertInto(id).Values(vs...) }},
						{"TableName.InsertInto", func() builder { return name.InsertInto(vs...) }},
						{"TableIdent.InsertInto", func() builder { return id.InsertInto(vs...) }},
						{"one by one", func() builder { return oneIns(query.InsertInto(t.Name)) }},
						{"Select.InsertInto", func() builder { return id.Select(cs...).InsertInto(vs...) }},
						{"SelectMany.InsertInto", func() builder { return id.SelectMany(cs...).InsertInto(vs...) }},
						{"SelectOne.InsertInto", func() builder { return id.SelectOne(cs...).InsertInto(vs...) }},
					})
					sameStatements(c, []form[builder]{
						{"Update(text)", func() builder { return query.Update(t.Name).Set(vs...).Where(cs...) }},
						{"Update(TableName)", func() builder { return query.Update(name).Set(vs...).Where(cs...) }},
						{"Update(TableIdent)", func() builder { return query.Update(id).Set(vs...).Where(cs...) }},
						{"Where, then Set", func() builder { return query.Update(id).Where(cs...).Set(vs...) }},
						{"TableName.Update", func() builder { return name.Update(vs...).Where(cs...) }},
						{"TableIdent.Update", func() builder { return id.Update(vs...).Where(cs...) }},
						{"one by one", func() builder { return one(query.Update(name).Where(cs...)) }},
						{"Select.Update", func() builder { return id.Select(cs...).Update(vs...) }},
						{"SelectMany.Update", func() builder { return id.SelectMany(cs...).Update(vs...) }},
						{"SelectOne.Update", func() builder { return id.SelectOne(cs...).Update(vs...) }},
					})
					sameStatements(c, []form[builder]{
						{"Delete(text)", func() builder { return query.Delete(t.Name).Where(cs...) }},
						{"Delete(TableName)", func() builder { return query.Delete(name).Where(cs...) }},
						{"Delete(TableIdent)", func() builder { return query.Delete(id).Where(cs...) }},
						{"TableName.Delete", func() builder { return name.Delete(cs...) }},
						{"TableIdent.Delete", func() builder { return id.Delete(cs...) }},
						{"Select.Delete", func() builder { return id.Select(cs...).Delete() }},
						{"SelectMany.Delete", func() builder { return id.SelectMany(cs...).Delete() }},
						{"SelectOne.Delete", func() builder { return id.SelectOne(cs...).Delete() }},
					})
				}},
			{Name: "joins", Quick: []int{0}, Thorough: []int{0},
				Doc: "seven ways to start a join on tables x 4 kinds x tables with and without alias, and joins of many and single selects, with the short and the long form; descriptions of joins made in five ways",
				Body: func(c *mc.Ctx) {
					ts := []query.TableIdent{query.Table("t"), query.Table("t").As("x"), query.Table("u").As("y"), query.Table("s.u")}
					l, r := ts[c.Choose(len(ts))], ts[c.Choose(len(ts))]
					k := c.Choose(4)
					fl, fr := definition(ref{Table: "p", Name: "id"}), definition(ref{Table: "q", Name: "pid"})
					var base, many, single []form[builder]
					for _, s := range starters {
						base = append(base, form[builder]{s.name, func() builder { return s.f(l, r, k).On(fl, fr) }})
						many = append(many, form[builder]{s.name + " Many", func() builder { return s.f(l, r, k).On(fl, fr).Many() }})
						single = append(single, form[builder]{s.name + " Single", func() builder { return s.f(l, r, k).On(fl, fr).Single() }})
					}
					for _, short := range []bool{false, true} {
						many = append(many, form[builder]{fmt.Sprint("many short=", short), func() builder {
							return halfMany(l.SelectMany(), query.TableName(r.RenderFrom()), k, short).On(fl, fr)
						}})
						single = append(single, form[builder]{fmt.Sprint("single short=", short), func() builder {
							return halfSingle(l.SelectOne(), query.TableName(r.RenderFrom()), k, short).On(fl, fr)
						}})
						base = append(base, form[builder]{fmt.Sprint("base short=", short), func() builder {
							return halfBase(query.SelectFrom(l), r, k, short).On(fl, fr)
						}})
					}
					sameStatements(c, base)
					sameStatements(c, many)
					sameStatements(c, single)
					jc := query.JoinFields(fl, fr)
					var want string
					for i, j := range []query.TableJoiner{
						jc.Using(joinTypes[k]), joinTypes[k].By(fl, fr), []func() query.TableJoiner{jc.InnerJoin, jc.LeftJoin, jc.RightJoin, jc.FullJoin}[k](),
						query.NewTableJoiner(query.Table("q"), joinTypes[k], jc), query.NewTableJoiner(query.Table("q"), joinTypes[k], query.JoinFields(fr, fl)).By(fl, fr),
					} {
						_, js, err := sqlx.ParseFrom("t " + j.RenderFrom())
						if err != nil {
							c.Failf("a join of form %d renders %q: %v", i, j.RenderFrom(), err)
						}
						got := fmt.Sprint(js, j.JoinType(), j.JoinCondition().Render())
						if i == 0 {
							want = got
						}
						if got != want {
							c.Failf("a join of form %d is %s, expected %s", i, got, want)
						}
					}
				}},
			{Name: "conditions", Quick: []int{0}, Thorough: []int{0},
				Doc: "each comparison that FieldName offers as a method against its function, for ten shapes of field definition and every value of the alphabets",
				Body: func(c *mc.Ctx) {
					r := refs[c.Choose(len(refs))]
					var op string
					var v any
					switch op = pick(c, "=", "LIKE", "ILIKE", "IN", "IS NULL"); op {
					case "=":
						x := model.Singles[c.Choose(len(model.Singles))]
						if x.Fails {
							c.Skip()
						}
						v = x.V
					case "IN":
						vs := append(append([]model.Value{}, model.Lists...), model.Singles...)
						x := vs[c.Choose(len(vs))]
						if x.Fails {
							c.Skip()
						}
						v = x.V
					case "LIKE", "ILIKE":
						v = textValues[c.Choose(len(textValues))]
					}
					spec := query.FieldName(r.Spec())
					sameConditions(c, true, []form[query.Condition]{
						{"function", func() query.Condition { return model.RealLeaf(op, spec, v, false) }},
						{"method", func() query.Condition { return model.RealLeaf(op, spec, v, true) }},
					})
				}},
			{Name: "and-or", Quick: []int{1, 2, 3}, Thorough: []int{1, 2, 3},
				Doc: "And and Or of a condition of eleven shapes and 1..<bound> further ones: function against method, and for groups GroupAND/GroupOR and WhereClause.GroupAND/GroupOR; NewGroup and JoinType.Join of two and more; Not against Negate(true)",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					x := shape(c, n)
					ds := whereList(c, n, 1, c.Bound)
					isOr := c.Bool()
					op := and
					if isOr {
						op = or
					}
					if _, ok := model.Combine(model.Method, op, x, ds...); !ok {
						c.Skip()
					}
					rs := model.Reals(ds)
					forms := []form[query.Condition]{
						{"method", func() query.Condition {
							if isOr {
								return x.Real.Or(rs...)
							}
							return x.Real.And(rs...)
						}},
						{"function", func() query.Condition {
							if isOr {
								return query.Or(x.Real, rs...)
							}
							return query.And(x.Real, rs...)
						}},
					}
					if g, ok := x.Real.(query.Group); ok {
						forms = append(forms, form[query.Condition]{"group", func() query.Condition {
							if isOr {
								return g.GroupOR(rs...)
							}
							return g.GroupAND(rs...)
						}})
					}
					sameConditions(c, false, forms)
					all := append([]query.Condition{x.Real}, rs...)
					sameConditions(c, false, []form[query.Condition]{
						{"NewGroup", func() query.Condition { return query.NewGroup(op, all...) }},
						{"JoinType.Join", func() query.Condition { return op.Join(all...) }},
						{"SetToAll", func() query.Condition { return query.NewGroup(op, op.SetToAll(all...)...) }},
					})
					sameConditions(c, false, []form[query.Condition]{
						{"Not", func() query.Condition { return query.Not(x.Real) }}, {"Negate", func() query.Condition { return x.Real.Negate(true) }},
					})
				}},
			{Name: "fields-and-values", Quick: []int{0}, Thorough: []int{0},
				Doc: "field definitions made by Field of text, FieldName and FieldDefinition, FieldOrError, FieldName.Field, TableName.Field, TableIdent.Field, Of, As; values made by FieldName.Value, NewFieldValue, FieldDefinition.Value and ValuesMap for every value of the alphabet; lists made by NewFields and Fields",
				Body: func(c *mc.Ctx) {
					r := refs[c.Choose(len(refs))]
					spec := r.Spec()
					plain := ref{Name: r.Name, Alias: r.Alias}.Spec()
					bare := query.Field(r.Name)
					qual := func(f query.FieldDefinition) query.FieldDefinition {
						if r.Table != "" {
							f = f.Of(query.TableName(r.Table))
						}
						return f
					}
					alias := func(f query.FieldDefinition) query.FieldDefinition {
						if r.Alias != "" {
							f = f.As(query.FieldName(r.Alias))
						}
						return f
					}
					defs := []form[query.FieldDefinition]{
						{"Field(text)", func() query.FieldDefinition { return query.Field(spec) }},
						{"Field(FieldName)", func() query.FieldDefinition { return query.Field(query.FieldName(spec)) }},
						{"Field(FieldDefinition)", func() query.FieldDefinition { return query.Field(query.Field(spec)) }},
						{"FieldOrError(text)", func() query.FieldDefinition { f, _ := query.FieldOrError(spec); return *f }},
						{"FieldOrError(FieldName)", func() query.FieldDefinition { f, _ := query.FieldOrError(query.FieldName(spec)); return *f }},
						{"FieldOrError(FieldDefinition)", func() query.FieldDefinition { f, _ := query.FieldOrError(query.Field(spec)); return *f }},
						{"FieldName.Field", func() query.FieldDefinition { return query.FieldName(spec).Field() }},
						{"Of.As", func() query.FieldDefinition { return alias(qual(bare)) }},
						{"As.Of", func() query.FieldDefinition { return qual(alias(bare)) }},
						{"NewFields(text)", func() query.FieldDefinition { return query.NewFields(spec).FieldDefinitions()[0] }},
						{"NewFields(FieldName)", func() query.FieldDefinition { return query.NewFields(query.FieldName(spec)).FieldDefinitions()[0] }},
						{"NewFields(FieldDefinition)", func() query.FieldDefinition { return query.NewFields(query.Field(spec)).FieldDefinitions()[0] }},
						{"Fields.Fields", func() query.FieldDefinition {
							return query.NewFields("other").Fields(query.Field(spec)).FieldDefinitions()[0]
						}},
					}
					if r.Table != "" {
						defs = append(defs,
							form[query.FieldDefinition]{"TableName.Field", func() query.FieldDefinition { return query.TableName(r.Table).Field(query.FieldName(plain)) }},
							form[query.FieldDefinition]{"TableIdent.Field", func() query.FieldDefinition { return query.Table(r.Table).Field(query.FieldName(plain)) }},
							form[query.FieldDefinition]{"aliased TableIdent.Field", func() query.FieldDefinition {
								return query.Table("zz").As(query.TableName(r.Table)).Field(query.FieldName(plain))
							}})
					}
					for _, f := range defs {
						d := f.mk()
						c.Op("%s %q", f.name, d.RenderSpec())
						if string(d.FieldName()) != r.Name || string(d.TableName()) != r.Table || string(d.Alias()) != r.Alias {
							c.Failf("%s of %q gives %q of %q as %q", f.name, spec, d.FieldName(), d.TableName(), d.Alias())
						}
					}
					if r.Alias != "" {
						return
					}
					x := model.Singles[c.Choose(len(model.Singles))]
					if x.Fails || x.Single == nil {
						c.Skip()
					}
					for _, f := range []form[query.FieldValue]{
						{"FieldName.Value", func() query.FieldValue { return query.FieldName(spec).Value(x.V) }},
						{"NewFieldValue", func() query.FieldValue { return *query.NewFieldValue(query.FieldName(spec), x.V) }},
						{"FieldDefinition.Value", func() query.FieldValue { return query.Field(spec).Value(x.V) }},
						{"ValuesMap", func() query.FieldValue {
							vs, err := query.ValuesMap{spec: x.V}.FieldValues()
							if err != nil {
								c.Failf("ValuesMap of %q: %v", spec, err)
							}
							return vs[0]
						}},
					} {
						v := f.mk()
						c.Op("%s(%s) %v", f.name, x.Name, v.Values())
						if string(v.FieldName()) != r.Name || string(v.TableName()) != r.Table || !model.SameAll(v.Values(), x.Single) {
							c.Failf("%s(%q, %s) is %q of %q with %#v, expected %#v", f.name, spec, model.Show(x.V), v.FieldName(), v.TableName(), v.Values(), x.Single)
						}
					}
				}},
		},
	})
}
