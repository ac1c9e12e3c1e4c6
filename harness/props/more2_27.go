package props

import (
	"fmt"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
)

// numbers are two numbers that many things are told apart by.
func numbers() (out []act0) {
	at := []int{0, 1, 2, 3, 9, 10, 11, 12, 13, 21, 99, 100, 101, 110, 111}
	few := []int{0, 1, 2, 3, 10, 11, 12}
	add := func(name string, f func() []any) { out = append(out, act0{name, f}) }
	for _, k := range at {
		k := k
		for _, n := range []int{0, 1, 2, 3, 10, 11, 12} {
			n := n
			add(fmt.Sprintf("In of %d at %d", n, k), func() []any {
				x := query.In("f", make([]int, n))
				return []any{x.Render(k), x.RenderSQL(), len(x.Values())}
			})
		}
		add(fmt.Sprintf("leaf at %d", k), func() []any {
			x := query.EqualTo("f", k)
			return []any{x.Render(k), fmt.Sprint(x.Values())}
		})
		add(fmt.Sprintf("text at %d", k), func() []any {
			x := query.EqualTo("f", fmt.Sprint(k))
			return []any{x.Render(0), fmt.Sprint(x.Values()), fmt.Sprintf("%T", x.Values()[0])}
		})
	}
	for _, k := range few {
		k := k
		for _, n := range few {
			n := n
			add(fmt.Sprintf("page %d %d", k, n), func() []any { return yields(query.SelectManyFrom("t").Limit(k).Offset(uint(n))) })
			add(fmt.Sprintf("limiter %d %d", k, n), func() []any {
				l := query.Limiter{}.Limit(uint(n)).Offset(uint(k))
				return []any{l.Render(k), l.RenderSQL(), fmt.Sprint(l.Values())}
			})
			add(fmt.Sprintf("update %d %d", k, n), func() []any {
				u := query.Update("t")
				for i := 0; i < k; i++ {
					u = u.Set(query.FieldName(fmt.Sprint("c", i)).Value(i))
				}
				return yields(u.Where(query.In("f", make([]int, n))))
			})
			add(fmt.Sprintf("two lists %d %d", k, n), func() []any {
				return yields(query.SelectFrom("t").Where(query.In("f", make([]int, k)), query.In("f", make([]string, n))))
			})
		}
		add(fmt.Sprintf("insert %d", k), func() []any {
			u := query.InsertInto("t")
			for i := 0; i < k; i++ {
				u = u.Values(query.FieldName(fmt.Sprint("c", i)).Value(i))
			}
			return yields(u)
		})
		add(fmt.Sprintf("external of %d", k), func() []any {
			x := model.NewCustom(model.CFunc, false, "f", ref{Name: "a"}, make([]any, k)...).Real
			return yields(query.SelectFrom("t").Where(query.EqualTo("a", 1), x, query.EqualTo("a", 1)))
		})
	}
	return out
}

// yieldsAll is what several things yield.
func yieldsAll(vs ...any) (out []any) {
	for _, v := range vs {
		out = append(out, yields(v)...)
	}
	return out
}

// clashing are constructions of names that become alike when put together.
func clashing() (out []act0) {
	add := func(name string, f func() []any) { out = append(out, act0{name, f}) }
	names := []string{"a", "b", "ab", "a_b", "A"}
	for _, x := range names {
		for _, y := range names {
			x, y := x, y
			t := func() query.TableIdent { return query.Table(x).As(query.TableName(y)) }
			f := func() query.FieldDefinition { return query.Field(y).Of(query.TableName(x)) }
			g := func() query.FieldDefinition { return query.Field(x).As(query.FieldName(y)) }
			add("table "+x+" as "+y, func() []any { return yields(query.SelectFrom(t())) })
			add("count of "+x+" as "+y, func() []any { return yieldsAll(t().Count(), query.Count(t().Select(), query.FieldName(x))) })
			add("join "+x+" and "+y, func() []any {
				return yields(query.SelectFrom(x).LeftJoin(query.Table(y)).On(query.Field("a").Of(query.TableName(x)), query.Field("b").Of(query.TableName(y))))
			})
			add("field "+x+" of "+y, func() []any {
				return yieldsAll(query.SelectFrom("t").Fields(f()), query.EqualTo("a", 1).ApplyFieldSpec(f()), f().Value(1), query.InsertInto("t").Values(f().Value(1)))
			})
			add("field "+x+" as "+y, func() []any {
				return yieldsAll(query.SelectFrom("t").Fields(g()), query.IsNull("a").ApplyFieldSpec(g()), query.NewFields(g()))
			})
			add("fields "+x+" and "+y, func() []any { return yieldsAll(query.NewFields(x, y), query.SelectFrom(x).Fields(query.Field(y))) })
			add("conditions "+x+" and "+y, func() []any {
				return yields(query.NewGroup(or, query.EqualTo(query.FieldName(x), y), query.EqualTo(query.FieldName(y), x)))
			})
			add("order "+x+" and "+y, func() []any {
				return yields(query.SelectManyFrom("t").OrderBy(query.ASC(query.FieldName(x)), query.DESC(query.FieldName(y))))
			})
			add("insert "+x+" of "+y, func() []any { return yields(query.InsertInto(x).Values(query.FieldName(y).Value(x))) })
			add("update "+x+" of "+y, func() []any {
				return yields(query.Update(x).Set(query.FieldName(y).Value(x)).Where(query.Contains(query.FieldName(x), y)))
			})
			add("delete "+x+" of "+y, func() []any { return yields(query.Delete(x).Where(query.IContains(query.FieldName(y), x))) })
		}
	}
	return out
}

func init() {
	ns := numbers()
	mc.Extend("C27", mc.Family{Name: "numbers", Quick: []int{0}, Thorough: []int{0},
		Doc: fmt.Sprintf("every ordered pair out of %d constructions told apart by two numbers (lists of n rendered from k, pages, numbers of values and conditions; 0..3, 9..13, 21, 99..111): the second yields what it yields when it is the first thing ever done", len(ns)),
		Body: func(c *mc.Ctx) {
			y, x := ns[c.Choose(len(ns))], ns[c.Choose(len(ns))]
			inOrder(c, []act0{y, x})
			c.State(y.name, x.name)
		}})
	cs := clashing()
	mc.Extend("C27", mc.Family{Name: "collisions", Quick: []int{0}, Thorough: []int{0},
		Doc: fmt.Sprintf("every ordered pair out of %d constructions of two names that become alike when put together (a, b, ab, a_b, A): the second yields what it yields when it is the first thing ever done", len(cs)),
		Body: func(c *mc.Ctx) {
			y, x := cs[c.Choose(len(cs))], cs[c.Choose(len(cs))]
			inOrder(c, []act0{y, x})
			c.State(y.name, x.name)
		}})
}
