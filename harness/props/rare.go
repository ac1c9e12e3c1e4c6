package props

import (
	"fmt"
	"strings"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
)

// said is what f panics with, or returns.
func said(f func() any) (out any) {
	defer func() {
		if p := recover(); p != nil {
			out = fmt.Sprint("panic: ", p)
		}
	}()
	return f()
}

// refusal is the text of an error.
func refusal(err error) any {
	if err == nil {
		return "accepted"
	}
	return err.Error()
}

func builtText(b builder) any {
	sql, ps, err := b.BuildQueryAndParams()
	return []any{sql, len(ps), refusal(err)}
}

// rareDeeds are uses of the package that share nothing: everything it offers, and everything it refuses, each with names of its own.
func rareDeeds() (ds []deed) {
	add := func(name string, f func(j string, id int) any) {
		ds = append(ds, deed{name, func(_ any, id int) any { return said(func() any { return f(jname(id), id) }) }})
	}
	for _, bad := range []string{"%s b", "'%s", `"%s`, "%s.b.c", ".%s", "%s.", "%s\tb", "%s\nb"} {
		bad := bad
		name := func(j string) string { return fmt.Sprintf(bad, j) }
		add("Validate "+bad, func(j string, _ int) any { return refusal(query.FieldName(name(j)).Validate()) })
		add("ValuesMap "+bad, func(j string, id int) any {
			vs, err := query.ValuesMap{name(j): id}.FieldValues()
			return []any{len(vs), refusal(err)}
		})
		add("ASC "+bad, func(j string, _ int) any { return query.ASC(query.FieldName(name(j))) })
		add("DESC "+bad, func(j string, _ int) any { return query.DESC(query.FieldName(name(j))) })
		add("OrderBy "+bad, func(j string, _ int) any { return query.OrderBy(query.FieldName(name(j)), query.Descending) })
	}
	for _, bad := range []string{"%.0s", "%s a b c", "%s.b.c", "%s as ", " as %s", "%s.b as c d", ".%s as x"} {
		bad := bad
		name := func(j string) string { return fmt.Sprintf(bad, j) }
		add("FieldOrError "+bad, func(j string, _ int) any {
			f, err := query.FieldOrError(name(j))
			return []any{f == nil, refusal(err)}
		})
		add("TableOrError "+bad, func(j string, _ int) any {
			f, err := query.TableOrError(name(j))
			return []any{f == nil, refusal(err)}
		})
		add("Field "+bad, func(j string, _ int) any { return query.Field(name(j)) })
		add("Table "+bad, func(j string, _ int) any { return query.Table(name(j)) })
		add("Fields "+bad, func(j string, _ int) any { return query.NewFields("a", name(j)) })
		add("EqualTo "+bad, func(j string, id int) any { return query.EqualTo(query.FieldName(name(j)), id) })
		add("select "+bad, func(j string, _ int) any { return builtText(query.SelectFrom(name(j))) })
	}
	val := func(j string, v any) query.FieldValue { return query.FieldName(query.FieldName(j)).Value(v) }
	add("insert nothing", func(j string, _ int) any { return builtText(query.InsertInto(j)) })
	add("insert nowhere", func(j string, id int) any { return builtText(query.InsertBuilder{}.Values(val(j, id))) })
	add("update nothing", func(j string, id int) any { return builtText(query.Update(j).Where(leafN(id))) })
	add("update nowhere", func(j string, id int) any { return builtText(query.UpdateBuilder{}.Set(val(j, id)).Where(leafN(id))) })
	add("update everything", func(j string, id int) any { return builtText(query.Update(j).Set(val(j, id))) })
	add("delete nowhere", func(_ string, id int) any { return builtText(query.DeleteBuilder{}.Where(leafN(id))) })
	add("delete everything", func(j string, _ int) any { return builtText(query.Delete(j)) })
	add("delete by empty group", func(j string, _ int) any { return builtText(query.Delete(j).Where(query.NewGroup(or))) })
	add("select nowhere", func(_ string, id int) any { return builtText(query.BaseSelectBuilder{}.Where(leafN(id))) })
	for i, l := range []any{[]int{1, 2}, []string{}, []string{"a", "b"}, []model.VInt{}, []model.VErr{{S: "e"}}} {
		i, l := i, l
		add(fmt.Sprintf("insert of %d %T", i, l), func(j string, _ int) any { return builtText(query.InsertInto("t").Values(val(j, l))) })
		add(fmt.Sprintf("update of %d %T", i, l), func(j string, id int) any { return builtText(query.Update("t").Set(val(j, l)).Where(leafN(id))) })
		add(fmt.Sprintf("In of %d %T", i, l), func(j string, _ int) any { return fmt.Sprint(query.In(query.FieldName(j), l).Values()) })
		add(fmt.Sprintf("EqualTo of %d %T", i, l), func(j string, _ int) any { return fmt.Sprint(query.EqualTo(query.FieldName(j), l).Values()) })
	}
	for _, v := range append(append([]model.Value{}, model.Singles...), model.Lists...) {
		v := v
		if len(v.List) > 5 {
			continue
		}
		add("= "+v.Name, func(j string, _ int) any { return query.EqualTo(query.FieldName(j), v.V) })
		add("IN "+v.Name, func(j string, _ int) any { return query.In(query.FieldName(j), v.V) })
	}
	add("texts", func(j string, id int) any {
		f := query.NewFields("a", j)
		return []any{f.String(), f.FieldList(), query.TableName(j).String(), query.FieldName(j).String(), query.NewWhere().GroupAND(leafN(id)).String(),
			query.SelectFrom(j).String(), query.SQLKeyWord(j).String(), query.DoInsert.String(), query.Operation(100 + id).String(), query.LeftJoin.String(), query.TableJoinType(100 + id).String(), and.String(), query.Ascending.String(), query.Descending.String()}
	})
	add("uniq", func(j string, _ int) any {
		return fmt.Sprint(query.UniqFieldNames([]query.FieldName{"a", query.FieldName(j), "b", "a", query.FieldName(j)}))
	})
	add("values map", func(j string, id int) any {
		vs, err := query.ValuesMap{j: id}.FieldValues()
		return []any{vs, refusal(err)}
	})
	add("orderings", func(j string, _ int) any {
		n := query.FieldName(j)
		return []any{query.ASC(n).Render(), query.DESC(n).Render(), query.OrderBy(n).Render(), query.OrderBy("a."+n, query.Descending).Render(), query.OrderBy(n).ApplyFieldSpec(query.Field("z").As(n)).Render()}
	})
	for _, op := range []query.Operation{query.DoSelect, query.DoInsert, query.DoUpdate, query.DoDelete} {
		op := op
		add("new "+op.String(), func(string, int) any { return op.New().Operation().String() })
	}
	for _, jt := range []query.TableJoinType{query.InnerJoin, query.LeftJoin, query.RightJoin, query.FullJoin} {
		jt := jt
		add("join "+jt.String(), func(j string, _ int) any {
			l, r := query.Field(j+".a"), query.Field("u.b")
			return []any{jt.Tables(query.Table(j), query.Table("u")), query.JoinFields(l, r).Using(jt).RenderFrom(), jt.By(l, r).RenderFrom(),
				query.NewTableJoiner(query.Table(j), jt, query.JoinFields(l, r)).By(r, l).RenderFrom(), query.JoinFields(l, r).Render()}
		})
		add("short join "+jt.String(), func(j string, _ int) any {
			return []any{query.TableName(j).Join(query.Table("u"), jt), query.Table(j).Join(query.Table("u"), jt), query.SelectManyFrom(j).Join("u", jt), query.SelectSingleFrom(j).Join("u", jt)}
		})
	}
	for i, op := range model.Ops {
		i, op := i, op
		add("comparison "+op, func(j string, id int) any {
			return []any{model.Simple(op, ref{Name: j}, id+i).Real, query.Not(model.Simple(op, ref{Table: j, Name: "f"}, id).Real)}
		})
	}
	add("names' comparisons", func(j string, id int) any {
		n := query.FieldName(j)
		return []any{n.EqualTo(id), n.In([]int{id}), n.Contains(j), n.IContains(j), n.IsNull(), n.Field(), n.Value(id)}
	})
	add("limiter", func(_ string, id int) any {
		l := query.Limiter{}.Limit(uint(id + 1)).Offset(uint(id + 2))
		return []any{l.Render(id), l.RenderSQL(), fmt.Sprint(l.Values())}
	})
	add("join type", func(_ string, id int) any {
		return []any{or.Join(leafN(id), leafN(id+1)), and.SetToAll(leafN(id)), and.Join()}
	})
	add("table's builders", func(j string, id int) any {
		t := query.Table(j).As("x")
		return []any{t.Select(leafN(id)), t.SelectMany(leafN(id)), t.SelectOne(leafN(id)), t.Count(leafN(id)), t.Delete(leafN(id)), t.Update(val(j, id)).Where(leafN(id)), t.InsertInto(val(j, id)), t.Field(query.FieldName(j))}
	})
	add("page", func(j string, id int) any {
		s := query.SelectManyFrom(j).Fields(query.Field(j + " as a")).Where(leafN(id)).OrderBy(query.DESC("a")).Limit(id + 1).Offset(uint(id + 1))
		return []any{s, s.Count(), s.Delete(), s.Update(val(j, id))}
	})
	for _, n := range []int{17, 40} {
		n := n
		add(fmt.Sprint("list of ", n), func(j string, id int) any {
			return query.Not(query.In(query.FieldName(j), madeOf(n, func(i int) int { return i + id })))
		})
		add(fmt.Sprint("texts of ", n), func(j string, _ int) any {
			return query.In(query.FieldName(j), madeOf(n, func(i int) string { return fmt.Sprint(j, i) }))
		})
		add(fmt.Sprint("group of ", n), func(j string, id int) any {
			return query.NewGroup(or, madeOf(n, func(i int) query.Condition { return query.EqualTo(query.FieldName(fmt.Sprint(j, i)), id) })...)
		})
		add(fmt.Sprint("fields ", n), func(j string, _ int) any {
			return query.SelectFrom("t").Fields(madeOf(n, func(i int) query.FieldDefinition { return query.Field(fmt.Sprint(j, i)) })...)
		})
		add(fmt.Sprint("ordering ", n), func(j string, _ int) any {
			return query.SelectManyFrom("t").OrderBy(madeOf(n, func(i int) query.FieldSorting { return query.DESC(query.FieldName(fmt.Sprint(j, i))) })...)
		})
		add(fmt.Sprint("update of ", n), func(j string, id int) any {
			return query.Update("t").Where(leafN(id)).Set(madeOf(n, func(i int) query.FieldValue { return val(fmt.Sprint(j, i), id) })...)
		})
		add(fmt.Sprint("insert of ", n), func(j string, id int) any {
			return query.InsertInto("t").Values(madeOf(n, func(i int) query.FieldValue { return val(fmt.Sprint(j, i), id) })...)
		})
		add(fmt.Sprint("uniq of ", n), func(j string, _ int) any {
			return fmt.Sprint(query.UniqFieldNames(madeOf(n, func(i int) query.FieldName { return query.FieldName(fmt.Sprint(j, i%9)) })))
		})
		add(fmt.Sprint("names ", n), func(j string, _ int) any {
			s := strings.Repeat(j, n)
			return []any{query.Field(s + "." + s + " as " + s), query.Table(s + " as " + s), query.Contains(query.FieldName(s), s)}
		})
	}
	add("many joins", func(j string, _ int) any {
		b := query.SelectFrom("t")
		for i := 0; i < 9; i++ {
			b = b.LeftJoin(query.Table(fmt.Sprint(j, i))).On(onL, query.Field(fmt.Sprint(j, i, ".id")))
		}
		return b
	})
	return ds
}

// madeOf makes n things.
func madeOf[T any](n int, mk func(i int) T) []T {
	out := make([]T, n)
	for i := range out {
		out[i] = mk(i)
	}
	return out
}

func init() {
	rare := thing{name: "nothing shared", mk: func() any { return nil }, deeds: rareDeeds()}
	mc.Extend("C06", mc.Family{Name: "everything-alone", Quick: []int{1}, Thorough: []int{1, 2},
		Doc: fmt.Sprintf("each of %d uses of the package that share nothing, covering everything it offers and refuses and every kind of value, in two goroutines (names of their own): every schedule with at most <bound> preemptions between any two statements, under race detection", len(rare.deeds)),
		Body: func(c *mc.Ctx) {
			d := []deed{rare.deeds[c.Choose(len(rare.deeds))]}
			together(c, &rare, [][]deed{d, d}, true)
		}})
}
