package props

import (
	"fmt"
	"strings"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
)

// live is an object some history has produced, with the way it was derived.
type live struct {
	name    string
	v       any
	parents []int
	mk      func(ps []any) any
	snap    string
}

// world is the history of one execution.
type world struct {
	c    *mc.Ctx
	objs []*live
}

func (w *world) root(name string, mk func() any) {
	w.add(name, nil, func([]any) any { return mk() })
}

// add derives a new object; ps are indexes of the objects it is made of.
func (w *world) add(name string, ps []int, mk func(ps []any) any) {
	var vs []any
	for _, p := range ps {
		vs = append(vs, w.objs[p].v)
	}
	o := &live{name: name, parents: ps, mk: mk}
	o.v = mk(vs)
	o.snap = snapshot(o.v)
	w.objs = append(w.objs, o)
	if strings.Contains(o.snap, "poison") { // nothing is named so but what the caller put into its own slices after the call
		w.c.Failf("object #%d (%s) follows the slice it was given: %s", len(w.objs)-1, name, o.snap)
	}
	if w.c.Tracing {
		var from []string
		for _, p := range ps {
			from = append(from, fmt.Sprintf("#%d", p))
		}
		w.c.Op("#%d = %s of %s: %s", len(w.objs)-1, name, strings.Join(from, ", "), o.snap)
	} else {
		w.c.Count(1)
	}
}

// recheck observes every live object again.
func (w *world) recheck(after string) {
	for i, o := range w.objs {
		s := snapshot(o.v)
		w.c.Count(1)
		if s != o.snap {
			w.c.Failf("after %s object #%d (%s) changed:\n   was %s\n   now %s", after, i, o.name, o.snap, s)
		}
	}
}

// isolate rebuilds object i alone, from nothing.
func (w *world) isolate(i int) any {
	var vs []any
	for _, p := range w.objs[i].parents {
		vs = append(vs, w.isolate(p))
	}
	return w.objs[i].mk(vs)
}

// finish compares every object with the same one built alone.
func (w *world) finish() {
	w.recheck("all")
	for i, o := range w.objs {
		if s := snapshot(w.isolate(i)); s != o.snap {
			w.c.Failf("object #%d (%s) differs from the same one built alone:\n   here  %s\n   alone %s", i, o.name, o.snap, s)
		}
		w.c.State(o.snap)
	}
	w.c.Count(len(w.objs))
}

// what poisoned slices are filled with
var (
	poisonCond  = query.EqualTo("poison", 666)
	poisonField = query.Field("poison")
	poisonValue = query.FieldName("poison").Value(666)
	poisonSort  = query.DESC("poison")
)

// poison overwrites a slice with all its spare capacity and returns it appended to.
func poison[T any](s []T, with T) {
	s = s[:cap(s)]
	for i := range s {
		s[i] = with
	}
}

// given makes an argument slice with spare capacity; the caller poisons it after the call.
func given[T any](xs ...T) []T {
	s := make([]T, 0, len(xs)+3)
	return append(s, xs...)
}

var onL, onR = query.Field("t.id"), query.Field("j.rid")

// snapshot is everything an object yields; slices it returns are overwritten after reading.
func snapshot(v any) string {
	var sb strings.Builder
	if b, ok := v.(builder); ok {
		sql, params, err := b.BuildQueryAndParams()
		fmt.Fprintf(&sb, "build %q %#v %v; ", sql, append([]any{}, params...), err)
		poison(params, "poison")
	}
	if r, ok := v.(renderer); ok {
		vals := r.Values()
		fmt.Fprintf(&sb, "render %q %q %#v; ", r.Render(3), r.RenderSQL(), append([]any{}, vals...))
		poison(vals, "poison")
	}
	if r, ok := v.(interface{ RenderFrom() string }); ok {
		fmt.Fprintf(&sb, "from %q; ", r.RenderFrom())
	}
	if r, ok := v.(interface{ FieldList() string }); ok {
		fmt.Fprintf(&sb, "list %q; ", r.FieldList())
	}
	if r, ok := v.(interface {
		FieldDefinitions() []query.FieldDefinition
	}); ok {
		ds := r.FieldDefinitions()
		for _, d := range ds {
			sb.WriteString("field " + d.RenderSpec() + "; ")
		}
		poison(ds, poisonField)
	}
	if r, ok := v.(interface{ SetValues() []query.FieldValue }); ok {
		vs := r.SetValues()
		for _, d := range vs {
			fmt.Fprintf(&sb, "set %s=%#v; ", d.RenderSpec(), d.Values())
		}
		poison(vs, poisonValue)
	}
	if r, ok := v.(interface{ Conditions() []query.Condition }); ok {
		cs := r.Conditions()
		for _, d := range cs {
			sb.WriteString("cond " + d.RenderSQL() + "; ")
		}
		poison(cs, poisonCond)
	}
	switch x := v.(type) {
	case query.Condition:
		fmt.Fprintf(&sb, "%v %v %q", x.IsNegate(), x.JoinType(), x.FieldName())
	case query.IncompleteSelectJoin:
		sb.WriteString("half " + snapshot(x.On(onL, onR)))
	case query.IncompleteSelectManyJoiner:
		sb.WriteString("half " + snapshot(x.On(onL, onR)))
	case query.IncompleteSelectSingleJoiner:
		sb.WriteString("half " + snapshot(x.On(onL, onR)))
	case query.Fields:
		fmt.Fprintf(&sb, "%d %s", x.Len(), x.String())
	}
	return sb.String()
}

// grow is one growable attribute: a first object, and additions of k elements.
type grow struct {
	name  string
	start func() any
	add   func(v any, id, k int) any
}

func conds(id, k int) []query.Condition {
	s := given[query.Condition]()
	for i := 0; i < k; i++ {
		s = append(s, query.EqualTo(query.FieldName(fmt.Sprintf("c%d_%d", id, i)), id*10+i))
	}
	return s
}

func sorts(id, k int) []query.FieldSorting {
	s := given[query.FieldSorting]()
	for i := 0; i < k; i++ {
		s = append(s, query.DESC(query.FieldName(fmt.Sprintf("o%d_%d", id, i))))
	}
	return s
}

func values(id, k int) []query.FieldValue {
	s := given[query.FieldValue]()
	for i := 0; i < k; i++ {
		s = append(s, query.FieldName(fmt.Sprintf("v%d_%d", id, i)).Value(id*10+i))
	}
	return s
}

func fieldDefs(id, k int) []query.FieldDefinition {
	s := given[query.FieldDefinition]()
	for i := 0; i < k; i++ {
		s = append(s, query.Field(fmt.Sprintf("t.f%d_%d as a%d_%d", id, i, id, i)))
	}
	return s
}

func whereBase(v any, id, k int) any {
	cs := conds(id, k)
	defer poison(cs, poisonCond)
	switch b := v.(type) {
	case query.BaseSelectBuilder:
		return b.Where(cs...)
	case query.SelectManyBuilder:
		return b.Where(cs...)
	case query.SelectSingleBuilder:
		return b.Where(cs...)
	case query.UpdateBuilder:
		return b.Where(cs...)
	case query.DeleteBuilder:
		return b.Where(cs...)
	case query.WhereClause:
		return b.GroupAND(cs...)
	case query.Group:
		return b.And(cs...)
	}
	panic(fmt.Sprintf("%T", v))
}

func orAny(v any, id, k int) any {
	cs := conds(id, k)
	defer poison(cs, poisonCond)
	switch b := v.(type) {
	case query.WhereClause:
		return b.GroupOR(cs...)
	case query.Condition:
		return b.Or(cs...)
	}
	panic(fmt.Sprintf("%T", v))
}

func joinAny(v any, id, k int) any {
	t := fmt.Sprintf("j%d", id)
	for i := 0; i < k; i++ {
		r := query.Field(fmt.Sprintf("%s.r%d", t, i))
		switch b := v.(type) {
		case query.BaseSelectBuilder:
			v = b.LeftJoin(query.Table(t)).On(onL, r)
		case query.SelectManyBuilder:
			v = b.LeftJoin(query.TableName(t)).On(onL, r)
		case query.SelectSingleBuilder:
			v = b.LeftJoin(query.TableName(t)).On(onL, r)
		}
	}
	return v
}

var grows = []grow{
	{"base.Where", func() any { return query.SelectFrom("t") }, whereBase},
	{"many.Where", func() any { return query.SelectManyFrom("t") }, whereBase},
	{"single.Where", func() any { return query.SelectSingleFrom("t") }, whereBase},
	{"update.Where", func() any { return query.Update("t").Set(query.FieldName("x").Value(1)) }, whereBase},
	{"delete.Where", func() any { return query.Delete("t") }, whereBase},
	{"where.GroupAND", func() any { return query.NewWhere() }, whereBase},
	{"where.GroupOR", func() any { return query.NewWhere() }, orAny},
	{"group.And", func() any { return query.NewGroup(and) }, whereBase},
	{"group.Or", func() any { return query.NewGroup(or, query.EqualTo("z", 0)) }, orAny},
	{"zero group.And", func() any { return query.Group{} }, whereBase},
	{"base.Join", func() any { return query.SelectFrom("t") }, joinAny},
	{"many.Join", func() any { return query.SelectManyFrom("t") }, joinAny},
	{"single.Join", func() any { return query.SelectSingleFrom("t") }, joinAny},
	{"many.OrderBy", func() any { return query.SelectManyFrom("t") }, func(v any, id, k int) any {
		s := sorts(id, k)
		defer poison(s, poisonSort)
		return v.(query.SelectManyBuilder).OrderBy(s...)
	}},
	{"update.Set", func() any { return query.Update("t").Where(query.EqualTo("a", 1)) }, func(v any, id, k int) any {
		s := values(id, k)
		defer poison(s, poisonValue)
		return v.(query.UpdateBuilder).Set(s...)
	}},
	{"insert.Values", func() any { return query.InsertInto("t") }, func(v any, id, k int) any {
		s := values(id, k)
		defer poison(s, poisonValue)
		return v.(query.InsertBuilder).Values(s...)
	}},
	{"many.Fields", func() any { return query.SelectManyFrom("t") }, func(v any, id, k int) any {
		s := fieldDefs(id, k)
		defer poison(s, poisonField)
		return v.(query.SelectManyBuilder).Fields(s...)
	}},
	{"base.Fields", func() any { return query.SelectFrom("t") }, func(v any, id, k int) any {
		s := fieldDefs(id, k)
		defer poison(s, poisonField)
		return v.(query.BaseSelectBuilder).Fields(s...)
	}},
	{"single.Fields", func() any { return query.SelectSingleFrom("t") }, func(v any, id, k int) any {
		s := fieldDefs(id, k)
		defer poison(s, poisonField)
		return v.(query.SelectSingleBuilder).Fields(s...)
	}},
	{"Fields.Fields", func() any { return query.NewFields("a") }, func(v any, id, k int) any {
		s := fieldDefs(id, k)
		defer poison(s, poisonField)
		return v.(query.Fields).Fields(s...)
	}},
}

// mixedStart is a builder with something in each of its lists, and spare capacity where lists grow.
func mixedStart(kind int) any {
	base := query.SelectFrom("t").Fields(query.Field("a"), query.Field("b")).
		LeftJoin(query.Table("p")).On(onL, query.Field("p.id")).InnerJoin(query.Table("q")).On(onL, query.Field("q.id")).RightJoin(query.Table("r")).On(onL, query.Field("r.id")).
		Where(query.EqualTo("w1", 1)).Where(query.EqualTo("w2", 2)).Where(query.EqualTo("w3", 3))
	switch kind {
	case 1:
		return base.Many().OrderBy(query.ASC("s1")).OrderBy(query.ASC("s2")).OrderBy(query.ASC("s3")).Limit(5)
	case 2:
		return base.Single()
	case 3:
		return base.Update(query.FieldName("u1").Value(1)).Set(query.FieldName("u2").Value(2)).Set(query.FieldName("u3").Value(3))
	case 4:
		return base.Delete()
	case 5:
		return base.InsertInto(query.FieldName("i1").Value(1)).Values(query.FieldName("i2").Value(2)).Values(query.FieldName("i3").Value(3))
	}
	return base
}

type step struct {
	name string
	mk   func(v any, id int) any
}

// mixedSteps are all calls offered by the type of v.
func mixedSteps(v any) []step {
	where := step{"Where", func(v any, id int) any { return whereBase(v, id, 1) }}
	where2 := step{"Where2", func(v any, id int) any { return whereBase(v, id, 2) }}
	join := step{"Join", func(v any, id int) any { return joinAny(v, id, 1) }}
	conv := func(name string, f func(v any, id int) any) step { return step{name, f} }
	switch v.(type) {
	case query.BaseSelectBuilder:
		return []step{where, where2, join,
			conv("Fields", func(v any, id int) any { return v.(query.BaseSelectBuilder).Fields(fieldDefs(id, 2)...) }),
			conv("LeftJoin", func(v any, id int) any {
				return v.(query.BaseSelectBuilder).LeftJoin(query.Table(fmt.Sprintf("h%d", id)))
			}),
			conv("Many", func(v any, id int) any { return v.(query.BaseSelectBuilder).Many() }),
			conv("Single", func(v any, id int) any { return v.(query.BaseSelectBuilder).Single() }),
			conv("Count", func(v any, id int) any { return v.(query.BaseSelectBuilder).Count() }),
			conv("Update", func(v any, id int) any { return v.(query.BaseSelectBuilder).Update(values(id, 2)...) }),
			conv("Delete", func(v any, id int) any { return v.(query.BaseSelectBuilder).Delete() }),
			conv("InsertInto", func(v any, id int) any { return v.(query.BaseSelectBuilder).InsertInto(values(id, 2)...) }),
			conv("OrderBy", func(v any, id int) any { return v.(query.BaseSelectBuilder).OrderBy(sorts(id, 1)...) }),
		}
	case query.SelectManyBuilder:
		return []step{where, where2, join,
			conv("Fields", func(v any, id int) any { return v.(query.SelectManyBuilder).Fields(fieldDefs(id, 2)...) }),
			conv("LeftJoin", func(v any, id int) any {
				return v.(query.SelectManyBuilder).LeftJoin(query.TableName(fmt.Sprintf("h%d", id)))
			}),
			conv("OrderBy", func(v any, id int) any { return v.(query.SelectManyBuilder).OrderBy(sorts(id, 1)...) }),
			conv("Offset", func(v any, id int) any { return v.(query.SelectManyBuilder).Offset(uint(id + 10)) }),
			conv("Limit", func(v any, id int) any { return v.(query.SelectManyBuilder).Limit(id + 20) }),
			conv("Single", func(v any, id int) any { return v.(query.SelectManyBuilder).Single() }),
			conv("Base", func(v any, id int) any { return v.(query.SelectManyBuilder).BaseSelectBuilder }),
			conv("Count", func(v any, id int) any { return v.(query.SelectManyBuilder).Count() }),
			conv("Update", func(v any, id int) any { return v.(query.SelectManyBuilder).Update(values(id, 2)...) }),
			conv("Delete", func(v any, id int) any { return v.(query.SelectManyBuilder).Delete() }),
		}
	case query.SelectSingleBuilder:
		return []step{where, where2, join,
			conv("Fields", func(v any, id int) any { return v.(query.SelectSingleBuilder).Fields(fieldDefs(id, 2)...) }),
			conv("LeftJoin", func(v any, id int) any {
				return v.(query.SelectSingleBuilder).LeftJoin(query.TableName(fmt.Sprintf("h%d", id)))
			}),
			conv("Many", func(v any, id int) any { return v.(query.SelectSingleBuilder).Many() }),
			conv("Update", func(v any, id int) any { return v.(query.SelectSingleBuilder).Update(values(id, 2)...) }),
			conv("Delete", func(v any, id int) any { return v.(query.SelectSingleBuilder).Delete() }),
		}
	case query.UpdateBuilder:
		return []step{where, where2,
			conv("Set", func(v any, id int) any { return v.(query.UpdateBuilder).Set(values(id, 1)...) }),
			conv("Set2", func(v any, id int) any { return v.(query.UpdateBuilder).Set(values(id, 2)...) })}
	case query.DeleteBuilder:
		return []step{where, where2}
	case query.InsertBuilder:
		return []step{conv("Values", func(v any, id int) any { return v.(query.InsertBuilder).Values(values(id, 1)...) }),
			conv("Values2", func(v any, id int) any { return v.(query.InsertBuilder).Values(values(id, 2)...) })}
	case query.IncompleteSelectJoin:
		return []step{conv("On", func(v any, id int) any {
			return v.(query.IncompleteSelectJoin).On(onL, query.Field(fmt.Sprintf("x.on%d", id)))
		})}
	case query.IncompleteSelectManyJoiner:
		return []step{conv("On", func(v any, id int) any {
			return v.(query.IncompleteSelectManyJoiner).On(onL, query.Field(fmt.Sprintf("x.on%d", id)))
		})}
	case query.IncompleteSelectSingleJoiner:
		return []step{conv("On", func(v any, id int) any {
			return v.(query.IncompleteSelectSingleJoiner).On(onL, query.Field(fmt.Sprintf("x.on%d", id)))
		})}
	case query.CountBuilder:
		return nil
	}
	return nil
}

// condStep derives a condition from live ones; ps are their indexes.
func condStep(w *world, id int) {
	c := w.c
	a := c.Choose(len(w.objs))
	leaf := func() query.Condition { return conds(id, 1)[0] }
	kind := c.Choose(12)
	one := func(name string, f func(x query.Condition) query.Condition) {
		w.add(name, []int{a}, func(ps []any) any { return f(ps[0].(query.Condition)) })
	}
	two := func(name string, f func(x, y query.Condition) query.Condition) {
		b := c.Choose(len(w.objs) + 1) // the last choice: a new leaf
		if b == len(w.objs) {
			one(name+" leaf", func(x query.Condition) query.Condition { return f(x, leaf()) })
			return
		}
		w.add(name, []int{a, b}, func(ps []any) any { return f(ps[0].(query.Condition), ps[1].(query.Condition)) })
	}
	switch kind {
	case 0:
		two("And", func(x, y query.Condition) query.Condition { return x.And(y) })
	case 1:
		two("Or", func(x, y query.Condition) query.Condition { return x.Or(y) })
	case 2:
		two("NewGroup(OR)", func(x, y query.Condition) query.Condition {
			s := given(x, y)
			defer poison(s, poisonCond)
			return query.NewGroup(or, s...)
		})
	case 3:
		two("NewGroup(AND)", func(x, y query.Condition) query.Condition {
			s := given(x, y)
			defer poison(s, poisonCond)
			return query.NewGroup(and, s...)
		})
	case 4:
		one("And2", func(x query.Condition) query.Condition {
			s := conds(id, 2)
			defer poison(s, poisonCond)
			return x.And(s...)
		})
	case 5:
		one("Or2", func(x query.Condition) query.Condition {
			s := conds(id, 2)
			defer poison(s, poisonCond)
			return query.Or(x, s...)
		})
	case 6:
		one("Not", query.Not)
	case 7:
		one("Join(OR)", func(x query.Condition) query.Condition { return x.Join(or) })
	case 8:
		one("ApplyFieldTable", func(x query.Condition) query.Condition {
			return x.ApplyFieldTable(query.TableName(fmt.Sprintf("m%d", id)))
		})
	case 9:
		one("ApplyFieldSpec", func(x query.Condition) query.Condition { return x.ApplyFieldSpec(query.Field("z").Of("w").As("zz")) })
	case 10:
		one("WithBrackets", func(x query.Condition) query.Condition {
			if g, ok := x.(query.Group); ok {
				return g.WithBrackets()
			}
			return x.Negate(false)
		})
	case 11:
		s := pick(c, and, or)
		one("SetToAll", func(x query.Condition) query.Condition {
			in := given(x, leaf())
			out := s.SetToAll(in...)
			r := query.NewGroup(s, out...)
			poison(in, poisonCond)
			poison(out, poisonCond)
			return r
		})
	}
}

func init() {
	mc.Register(&mc.Property{
		ID: "C05",
		Assumptions: []string{
			"values (the elements of an In list, pointers, byte slices) belong to the caller and are not changed during a history",
			"what an object yields is what its exported methods return; slices they return are overwritten after every observation, slices of arguments after every call",
		},
		Families: []mc.Family{
			{Name: "one-list", Quick: []int{1, 2, 3, 4}, Thorough: []int{1, 2, 3, 4, 5, 6},
				Doc: "for each of the 20 growable lists of builders, clauses and groups: every history of exactly <bound> additions of 1..3 elements, each to any object alive so far; all objects observed again after every step and compared with the same object built alone",
				Body: func(c *mc.Ctx) {
					g := grows[c.Choose(len(grows))]
					w := &world{c: c}
					w.root(g.name, g.start)
					for i := 0; i < c.Bound; i++ {
						p := c.Choose(len(w.objs))
						k := 1 + c.Choose(3)
						id := i
						w.add(fmt.Sprintf("%s of %d", g.name, k), []int{p}, func(ps []any) any { return g.add(ps[0], id, k) })
						w.recheck("this")
					}
					w.finish()
				}},
			{Name: "chain-and-forks", Quick: []int{10}, Thorough: []int{20},
				Doc: "for each growable list: a chain of n = 0..<bound> single additions, then two or three additions of 1..2 to any objects of the chain's last four or to each other",
				Body: func(c *mc.Ctx) {
					g := grows[c.Choose(len(grows))]
					n := c.Choose(c.Bound + 1)
					w := &world{c: c}
					w.root(g.name, g.start)
					for i := 0; i < n; i++ {
						id := i
						w.add(g.name, []int{len(w.objs) - 1}, func(ps []any) any { return g.add(ps[0], id, 1) })
					}
					forks := 2
					if n < 6 || c.Tier == "thorough" {
						forks = 3
					}
					for f := 0; f < forks; f++ {
						back := len(w.objs)
						if back > 4 {
							back = 4
						}
						p := len(w.objs) - 1 - c.Choose(back)
						k := 1 + c.Choose(2)
						id := 100 + f
						w.add(fmt.Sprintf("%s of %d", g.name, k), []int{p}, func(ps []any) any { return g.add(ps[0], id, k) })
						w.recheck("this")
					}
					w.finish()
				}},
			{Name: "mixed", Quick: []int{1, 2, 3}, Thorough: []int{1, 2, 3, 4},
				Doc: "from a filled builder of each of six kinds: every history of exactly <bound> calls out of all methods of the object's type (additions, conversions, half-built joins and finishing them), each on any object alive so far",
				Body: func(c *mc.Ctx) {
					kind := c.Choose(6)
					w := &world{c: c}
					w.root(fmt.Sprintf("start%d", kind), func() any { return mixedStart(kind) })
					for i := 0; i < c.Bound; i++ {
						p := c.Choose(len(w.objs))
						ss := mixedSteps(w.objs[p].v)
						if len(ss) == 0 {
							c.Skip()
						}
						s := ss[c.Choose(len(ss))]
						id := i
						w.add(s.name, []int{p}, func(ps []any) any { return s.mk(ps[0], id) })
						w.recheck("this")
					}
					w.finish()
				}},
			{Name: "conditions", Quick: []int{1, 2, 3}, Thorough: []int{1, 2, 3},
				Doc: "from six conditions (a leaf, a negated one, groups of three with AND, OR and both, an external one): every history of exactly <bound> operations (And, Or, NewGroup, Not, Join, ApplyFieldTable, ApplyFieldSpec, WithBrackets, SetToAll) over objects alive so far and new leaves",
				Body: func(c *mc.Ctx) {
					w := &world{c: c}
					kind := c.Choose(6)
					w.root("first", func() any { return firstCond(kind) })
					for i := 0; i < c.Bound; i++ {
						condStep(w, i)
						w.recheck("this")
					}
					w.finish()
				}},
			{Name: "conditions-in-builders", Quick: []int{2, 3}, Thorough: []int{2, 3, 4},
				Doc: "a group and three builders: every history of exactly <bound> steps, each giving any live group to any live builder, or extending a live group or builder",
				Body: func(c *mc.Ctx) {
					w := &world{c: c}
					kind := c.Choose(6)
					w.root("group", func() any { return firstCond(kind) })
					bk := c.Choose(3)
					w.root("builder", func() any {
						switch bk {
						case 0:
							return query.SelectManyFrom("t")
						case 1:
							return query.Delete("t")
						}
						return query.NewWhere().GroupAND(query.EqualTo("w", 0))
					})
					for i := 0; i < c.Bound; i++ {
						var gs, bs []int
						for j, o := range w.objs {
							if _, ok := o.v.(query.Condition); ok {
								gs = append(gs, j)
							} else {
								bs = append(bs, j)
							}
						}
						id := i
						switch c.Choose(4) {
						case 0:
							g, b := gs[c.Choose(len(gs))], bs[c.Choose(len(bs))]
							w.add("Where(group)", []int{b, g}, func(ps []any) any { return whereOne(ps[0], ps[1].(query.Condition)) })
						case 1:
							g := gs[c.Choose(len(gs))]
							w.add("And", []int{g}, func(ps []any) any { return ps[0].(query.Condition).And(conds(id, 1)...) })
						case 2:
							g := gs[c.Choose(len(gs))]
							w.add("Or", []int{g}, func(ps []any) any { return ps[0].(query.Condition).Or(conds(id, 2)...) })
						case 3:
							b := bs[c.Choose(len(bs))]
							w.add("Where", []int{b}, func(ps []any) any { return whereBase(ps[0], id, 1) })
						}
						w.recheck("this")
					}
					w.finish()
				}},
		},
	})
}

func firstCond(kind int) query.Condition {
	x, y, z := query.EqualTo("x", 1), query.In("y", []int{2, 3}), query.IsNull("z")
	switch kind {
	case 1:
		return query.Not(x)
	case 2:
		return query.NewGroup(and, x, y, z)
	case 3:
		return x.Or(y).Or(z)
	case 4:
		return query.NewGroup(and).And(x).And(y).Or(z).And(query.Less("v", 4))
	case 5:
		return model.NewCustom(model.CFunc, true, "cust", ref{Name: "z"}, 8, 9).Real
	}
	return x
}

func whereOne(b any, x query.Condition) any {
	cs := given(x)
	defer poison(cs, poisonCond)
	switch b := b.(type) {
	case query.SelectManyBuilder:
		return b.Where(cs...)
	case query.DeleteBuilder:
		return b.Where(cs...)
	case query.WhereClause:
		return b.GroupAND(cs...)
	}
	panic("unexpected")
}
