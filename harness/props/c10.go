package props

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

// makers are the ways a single value gets into a statement; each returns the parameters.
var makers = []struct {
	name string
	f    func(v any) ([]any, error)
}{
	{"FieldName.Value", func(v any) ([]any, error) { return query.FieldName("f").Value(v).Values(), nil }},
	{"NewFieldValue", func(v any) ([]any, error) { return query.NewFieldValue("f", v).Values(), nil }},
	{"FieldDefinition.Value", func(v any) ([]any, error) { return query.Field("t.f as a").Value(v).Values(), nil }},
	{"insert", func(v any) ([]any, error) {
		_, p, err := query.InsertInto("t").Values(query.FieldName("f").Value(v)).BuildQueryAndParams()
		return p, err
	}},
	{"insert FieldDefinition", func(v any) ([]any, error) {
		_, p, err := query.InsertInto("t").Values(query.Field("t.f").Value(v)).BuildQueryAndParams()
		return p, err
	}},
	{"update", func(v any) ([]any, error) {
		_, p, err := query.Update("t").Set(query.FieldName("f").Value(v)).Where(query.IsNull("g")).BuildQueryAndParams()
		return p, err
	}},
	{"ValuesMap", func(v any) ([]any, error) {
		vs, err := query.ValuesMap{"f": v}.FieldValues()
		if err != nil {
			return nil, err
		}
		return vs[0].Values(), nil
	}},
	{"EqualTo", func(v any) ([]any, error) { return query.EqualTo("f", v).Values(), nil }},
	{"FieldName.EqualTo", func(v any) ([]any, error) { return query.FieldName("f").EqualTo(v).Values(), nil }},
	{"Not EqualTo", func(v any) ([]any, error) { return query.Not(query.EqualTo("f", v)).Values(), nil }},
	{"Less", func(v any) ([]any, error) { return query.Less("f", v).Values(), nil }},
	{"LessOrEqual", func(v any) ([]any, error) { return query.LessOrEqual("f", v).Values(), nil }},
	{"GreaterThan", func(v any) ([]any, error) { return query.GreaterThan("f", v).Values(), nil }},
	{"GreaterOrEqual", func(v any) ([]any, error) { return query.GreaterOrEqual("f", v).Values(), nil }},
	{"In", func(v any) ([]any, error) { return query.In("f", v).Values(), nil }},
	{"FieldName.In", func(v any) ([]any, error) { return query.FieldName("f").In(v).Values(), nil }},
	{"group", func(v any) ([]any, error) { return query.NewGroup(or, query.EqualTo("f", v)).Values(), nil }},
	{"moved", func(v any) ([]any, error) {
		return query.EqualTo("f", v).ApplyFieldTable("m").ApplyFieldSpec(query.Field("n.f")).Values(), nil
	}},
	{"select", func(v any) ([]any, error) {
		_, p, err := query.SelectFrom("t").Where(query.Less("f", v)).BuildQueryAndParams()
		return p, err
	}},
	{"many", func(v any) ([]any, error) {
		_, p, err := query.SelectManyFrom("t").Where(query.GreaterThan("f", v)).BuildQueryAndParams()
		return p, err
	}},
	{"single", func(v any) ([]any, error) {
		_, p, err := query.SelectSingleFrom("t").Where(query.GreaterOrEqual("f", v)).BuildQueryAndParams()
		return p, err
	}},
	{"count", func(v any) ([]any, error) {
		_, p, err := query.Table("t").Count(query.LessOrEqual("f", v)).BuildQueryAndParams()
		return p, err
	}},
	{"delete", func(v any) ([]any, error) {
		_, p, err := query.Delete("t").Where(query.In("f", v)).BuildQueryAndParams()
		return p, err
	}},
}

var inMakers = []struct {
	name string
	f    func(v any) ([]any, error)
}{
	{"In", func(v any) ([]any, error) { return query.In("f", v).Values(), nil }},
	{"FieldName.In", func(v any) ([]any, error) { return query.FieldName("f").In(v).Values(), nil }},
	{"Not In", func(v any) ([]any, error) { return query.Not(query.In("f", v)).Values(), nil }},
	{"group", func(v any) ([]any, error) { return query.In("f", v).Or(query.IsNull("f")).Values(), nil }},
	{"select", func(v any) ([]any, error) {
		_, p, err := query.SelectFrom("t").Where(query.In("f", v)).BuildQueryAndParams()
		return p, err
	}},
	{"delete", func(v any) ([]any, error) {
		_, p, err := query.Delete("t").Where(query.In("f", v)).BuildQueryAndParams()
		return p, err
	}},
}

// attempt runs f; refused tells that it gave an error or panicked.
func attempt(f func(v any) ([]any, error), v any) (ps []any, refused bool) {
	defer func() {
		if recover() != nil {
			refused = true
		}
	}()
	ps, err := f(v)
	return ps, err != nil
}

func checkParams(c *mc.Ctx, what string, f func(v any) ([]any, error), v any, want []any, mayFail bool) {
	c.Count(1)
	if mayFail {
		ps, refused := attempt(f, v)
		if !refused && !model.SameAll(ps, want) {
			c.Failf("%s: a value that fails to convert is passed as %s, expected itself or an error", what, model.Show(ps))
		}
		return
	}
	for i := 0; i < 2; i++ {
		ps, err := f(v)
		if err != nil {
			c.Failf("%s: %v", what, err)
		}
		if !model.SameAll(ps, want) {
			c.Failf("%s: passed as %s, expected %s", what, model.Show(ps), model.Show(want))
		}
		c.Logf("  %s gives %s", what, model.Show(ps))
	}
}

func init() {
	mc.Register(&mc.Property{
		ID: "C10",
		Assumptions: []string{
			"a converting value is a driver.Valuer or a query.ValueProvider, not both; lists inside lists are not asserted",
			"when Value() fails, an error, a panic or passing the value itself (which database/sql refuses later) are acceptable",
			"a nil pointer whose type has a Value method on the pointed type is nil, as in database/sql",
		},
		Families: []mc.Family{
			{Name: "single", Quick: []int{0}, Thorough: []int{0},
				Doc: "every single value of the alphabet (about 60: plain, nil, bytes, times, structs, pointers, Valuers by value and by pointer, providers, failing ones) through each of 23 ways into a statement",
				Body: func(c *mc.Ctx) {
					m := makers[c.Choose(len(makers))]
					v := model.Singles[c.Choose(len(model.Singles))]
					c.Op("%s(%s)", m.name, v.Name)
					checkParams(c, m.name+" of "+v.Name, m.f, v.V, v.Single, v.Fails)
					if v.Fails {
						c.Tag("fails")
					}
					c.State(m.name, v.Name)
				}},
			{Name: "lists", Quick: []int{0}, Thorough: []int{0},
				Doc: "every list of the alphabet (45 slices and arrays of plain, named, converting and mixed elements) through In in six ways",
				Body: func(c *mc.Ctx) {
					m := inMakers[c.Choose(len(inMakers))]
					v := model.Lists[c.Choose(len(model.Lists))]
					c.Op("%s(%s)", m.name, v.Name)
					checkParams(c, m.name+" of "+v.Name, m.f, v.V, v.List, false)
					c.State(m.name, v.Name)
				}},
			{Name: "list-types", Quick: []int{3}, Thorough: []int{16},
				Doc: "for every single value: slices and arrays of its type of every length 0..<bound>, through In in six ways; every element is converted as the value alone",
				Body: func(c *mc.Ctx) {
					v := model.Singles[c.Choose(len(model.Singles))]
					k := c.Choose(c.Bound + 1)
					asArray := c.Bool()
					m := inMakers[c.Choose(len(inMakers))]
					if v.V == nil || reflect.TypeOf(v.V).Kind() == reflect.Uint8 {
						c.Skip()
					}
					t := reflect.TypeOf(v.V)
					var l reflect.Value
					if asArray {
						l = reflect.New(reflect.ArrayOf(k, t)).Elem()
					} else {
						l = reflect.MakeSlice(reflect.SliceOf(t), k, k+2)
					}
					want := []any{}
					for i := 0; i < k; i++ {
						l.Index(i).Set(reflect.ValueOf(v.V))
						want = append(want, v.Single...)
					}
					c.Op("%s of %d %s", m.name, k, v.Name)
					checkParams(c, fmt.Sprintf("%s of %T with %d times %s", m.name, l.Interface(), k, v.Name), m.f, l.Interface(), want, v.Fails)
					c.State(m.name, v.Name, fmt.Sprint(k, asArray))
				}},
			{Name: "mixed-lists", Quick: []int{1, 2}, Thorough: []int{1, 2, 3},
				Doc: "every []any of exactly <bound> values of the alphabet through In: one parameter per element, in order",
				Body: func(c *mc.Ctx) {
					var in []any
					var want []any
					fails := false
					var names []string
					for i := 0; i < c.Bound; i++ {
						v := model.Singles[c.Choose(len(model.Singles))]
						in = append(in, v.V)
						want = append(want, v.Single...)
						fails = fails || v.Fails
						names = append(names, v.Name)
					}
					m := inMakers[0]
					c.Op("In of %v", names)
					checkParams(c, "In of "+strings.Join(names, ", "), m.f, in, want, fails)
					c.State(names...)
				}},
			{Name: "texts", Quick: []int{0, 1, 2, 3}, Thorough: []int{0, 1, 2, 3, 4, 5},
				Doc: "every text of exactly <bound> characters out of % _ \\ ' \" a A space ? $ 1 NUL and a multi-byte letter through Contains and IContains (functions and methods, plain and negated)",
				Body: func(c *mc.Ctx) {
					alphabet := []string{"%", "_", "\\", "'", "\"", "a", "A", " ", "?", "$", "1", "\x00", "я"}
					s := ""
					for i := 0; i < c.Bound; i++ {
						s += alphabet[c.Choose(len(alphabet))]
					}
					want := []any{"%" + s + "%"}
					for i, x := range []query.Condition{query.Contains("f", s), query.IContains("f", s), query.FieldName("f").Contains(s), query.FieldName("f").IContains(s), query.Not(query.Contains("f", s)), query.Not(query.IContains("f", s))} {
						if got := x.Values(); !model.SameAll(got, want) {
							c.Failf("Contains form %d of %q: values %q, expected %q", i, s, got, want)
						}
					}
					c.Count(6)
					c.State(s)
				}},
			{Name: "pairs", Quick: []int{2, 3}, Thorough: []int{2, 3},
				Doc: "every insert and update of <bound> single values of the alphabet: each column gets its own value as converted, the filter's value follows",
				Body: func(c *mc.Ctx) {
					var vs []query.FieldValue
					var want []sqlx.Assign
					for i := 0; i < c.Bound; i++ {
						v := model.Singles[c.Choose(len(model.Singles))]
						if v.Fails {
							c.Skip()
						}
						col := fmt.Sprintf("c%d", i)
						vs = append(vs, query.FieldName(col).Value(v.V))
						want = append(want, sqlx.Assign{Col: col, Val: v.Single[0]})
						c.Op("%s = %s", col, v.Name)
					}
					checkAssign(c, "insert", stmtOK(c, "insert", query.InsertInto("t").Values(vs...)).Set, want)
					n := &namer{}
					x := n.op("IN")
					st := stmtOK(c, "update", query.Update("t").Where(x.Real).Set(vs...))
					checkAssign(c, "update", st.Set, want)
					sameFilter(c, "update", st.Where, x.N)
					c.State(fmt.Sprint(len(want)))
				}},
		},
	})
}
