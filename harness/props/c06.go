package props

import (
	"fmt"
	"reflect"
	"runtime"
	"time"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sched"
)

// deed is what a goroutine does with a shared object: it returns what it got.
type deed struct {
	name string
	do   func(v any, id int) any
}

// thing is a kind of shared object.
type thing struct {
	name  string
	small bool // few scheduling points: used with more preemptions
	mk    func() any
	deeds []deed
}

// yields is what a result gives, without text formatting: plain values only.
func yields(v any) (out []any) {
	if b, ok := v.(builder); ok {
		sql, params, err := b.BuildQueryAndParams()
		out = append(out, sql, append([]any{}, params...), err == nil)
		poison(params, "poison")
	}
	if c, ok := v.(query.Condition); ok {
		vals := c.Values()
		out = append(out, c.Render(2), c.RenderSQL(), append([]any{}, vals...), c.IsNegate(), string(c.FieldName()))
		poison(vals, "poison")
	}
	switch x := v.(type) {
	case query.IncompleteSelectJoin:
		out = append(out, yields(x.On(onL, onR))...)
	case query.IncompleteSelectManyJoiner:
		out = append(out, yields(x.On(onL, onR))...)
	case query.IncompleteSelectSingleJoiner:
		out = append(out, yields(x.On(onL, onR))...)
	case query.WhereClause:
		out = append(out, x.Render(1), x.RenderSQL(), append([]any{}, x.Values()...))
	case query.Fields:
		out = append(out, x.FieldList(), x.Len())
	case query.FieldDefinition:
		out = append(out, x.RenderSpec())
	case query.TableIdent:
		out = append(out, x.RenderFrom())
	case []any:
		for _, e := range x {
			out = append(out, yields(e)...)
		}
	case []query.FieldDefinition:
		for _, e := range x {
			out = append(out, e.RenderSpec())
		}
		poison(x, poisonField)
	case []query.FieldValue:
		for _, e := range x {
			out = append(out, e.RenderSpec(), e.Values())
		}
		poison(x, poisonValue)
	case []query.Condition:
		for _, e := range x {
			out = append(out, e.RenderSQL())
		}
		poison(x, poisonCond)
	case query.FieldValue:
		out = append(out, x.RenderSpec(), x.Values())
	case query.FieldSorting:
		out = append(out, x.Render())
	case string, error, bool, int, uint:
		out = append(out, x)
	}
	return out
}

// whole observes everything, in the thread.
var whole = deed{"observe", func(v any, _ int) any { return snapshot(v) }}

func builderDeeds(kind int) (ds []deed) {
	ds = append(ds, deed{"build", func(v any, _ int) any { return v }}, whole)
	for _, s := range mixedSteps(mixedStart(kind)) {
		if s.name == "Where2" || s.name == "Set2" || s.name == "Values2" {
			continue
		}
		ds = append(ds, deed{s.name, s.mk})
	}
	switch kind {
	case 0:
		ds = append(ds,
			deed{"FieldDefinitions", func(v any, _ int) any { return v.(query.BaseSelectBuilder).FieldDefinitions() }},
			deed{"Join.On", func(v any, id int) any {
				return v.(query.BaseSelectBuilder).InnerJoin(query.Table(jname(id))).On(onL, query.Field("x.y"))
			}})
	case 3:
		ds = append(ds, deed{"SetValues", func(v any, _ int) any { return v.(query.UpdateBuilder).SetValues() }})
	case 5:
		ds = append(ds, deed{"SetValues", func(v any, _ int) any { return v.(query.InsertBuilder).SetValues() }})
	}
	return ds
}

func tableOK(s string) bool { _, err := query.TableOrError(s); return err == nil }

func jname(id int) string { return "j" + string(rune('0'+id)) }

func leafN(id int) query.Condition {
	return query.EqualTo(query.FieldName("n"+string(rune('0'+id))), id)
}

// condDeeds are the uses of a condition.
var condDeeds = []deed{
	{"Render", func(v any, _ int) any { return v }},
	whole,
	{"And", func(v any, id int) any { return v.(query.Condition).And(leafN(id)) }},
	{"Or", func(v any, id int) any { return v.(query.Condition).Or(leafN(id)) }},
	{"And2", func(v any, id int) any { return v.(query.Condition).And(leafN(id), leafN(id+5)) }},
	{"Or2", func(v any, id int) any { return query.Or(v.(query.Condition), leafN(id), leafN(id+5)) }},
	{"Not", func(v any, _ int) any { return query.Not(v.(query.Condition)) }},
	{"Join", func(v any, _ int) any { return v.(query.Condition).Join(or) }},
	{"NewGroup", func(v any, id int) any {
		return query.NewGroup(or, v.(query.Condition), leafN(id), v.(query.Condition))
	}},
	{"ApplyFieldTable", func(v any, id int) any { return v.(query.Condition).ApplyFieldTable(query.TableName(jname(id))) }},
	{"ApplyFieldSpec", func(v any, id int) any {
		return v.(query.Condition).ApplyFieldSpec(query.Field("z").Of(query.TableName(jname(id))))
	}},
	{"select Where", func(v any, id int) any { return query.SelectFrom("t").Where(v.(query.Condition), leafN(id)) }},
	{"update Where", func(v any, id int) any {
		return query.Update("t").Set(query.FieldName("q").Value(id)).Where(leafN(id)).Where(v.(query.Condition))
	}},
	{"delete Where", func(v any, id int) any { return query.Delete("t").Where(v.(query.Condition)) }},
}

// arguments given by two goroutines to their own builders.
type arguments struct {
	conds  []query.Condition
	fields []query.FieldDefinition
	values []query.FieldValue
	sorts  []query.FieldSorting
	ints   []int
	strs   []string
	names  []query.FieldName
	vm     query.ValuesMap
}

func newArguments() any {
	return &arguments{
		conds:  append(given[query.Condition](), query.EqualTo("c1", 1).Or(query.In("c2", []int{1, 2})), query.IsNull("c3"), query.Not(query.Contains("c4", "x"))),
		fields: append(given[query.FieldDefinition](), query.Field("t.a as b"), query.Field("c"), query.Field("c")),
		values: append(given[query.FieldValue](), query.FieldName("v2").Value(1), query.FieldName("v1").Value("x")),
		sorts:  append(given[query.FieldSorting](), query.DESC("s2"), query.ASC("s1")),
		ints:   append(given[int](), 3, 1, 2),
		strs:   append(given[string](), "y", "x"),
		names:  append(given[query.FieldName](), "b", "a", "b", "c"),
		vm:     query.ValuesMap{"k1": 1},
	}
}

func (a *arguments) texts() []any {
	out := []any{len(a.conds), len(a.fields), len(a.values), len(a.sorts)}
	for _, c := range a.conds {
		out = append(out, snapshot(c))
	}
	for _, f := range a.fields {
		out = append(out, f.RenderSpec())
	}
	for _, f := range a.values {
		out = append(out, f.RenderSpec(), f.Values())
	}
	for _, f := range a.sorts {
		out = append(out, f.Render())
	}
	return append(out, append([]int{}, a.ints...), append([]string{}, a.strs...), append([]query.FieldName{}, a.names...), len(a.vm), a.vm["k1"])
}

var argDeeds = []deed{
	{"read", func(v any, _ int) any { return (v.(*arguments)).conds[0] }},
	{"base.Where", func(v any, _ int) any { return query.SelectFrom("t").Where(v.(*arguments).conds...) }},
	{"delete.Where twice", func(v any, _ int) any {
		return query.Delete("t").Where(v.(*arguments).conds[:2]...).Where(v.(*arguments).conds[1:]...)
	}},
	{"NewGroup", func(v any, _ int) any { return query.NewGroup(or, v.(*arguments).conds...) }},
	{"And", func(v any, _ int) any { a := v.(*arguments); return a.conds[0].And(a.conds[1:]...) }},
	{"Or func", func(v any, _ int) any { a := v.(*arguments); return query.Or(a.conds[0], a.conds[1:]...) }},
	{"SetToAll", func(v any, _ int) any { return or.SetToAll(v.(*arguments).conds...) }},
	{"NewWhere", func(v any, _ int) any {
		return query.NewWhere().GroupAND(v.(*arguments).conds...).GroupOR(v.(*arguments).conds...)
	}},
	{"base.Fields", func(v any, _ int) any { return query.SelectFrom("t").Fields(v.(*arguments).fields...) }},
	{"many.Fields.OrderBy", func(v any, _ int) any {
		a := v.(*arguments)
		return query.SelectManyFrom("t").Fields(a.fields...).OrderBy(a.sorts...).OrderBy(a.sorts...)
	}},
	{"single.Fields", func(v any, _ int) any { return query.SelectSingleFrom("t").Fields(v.(*arguments).fields...) }},
	{"Fields.Fields", func(v any, _ int) any { return query.NewFields("z").Fields(v.(*arguments).fields...) }},
	{"update.Set", func(v any, _ int) any {
		return query.Update("t").Set(v.(*arguments).values...).Where(v.(*arguments).conds[1])
	}},
	{"insert.Values", func(v any, _ int) any { return query.InsertInto("t").Values(v.(*arguments).values...) }},
	{"In ints", func(v any, _ int) any { return query.In("f", v.(*arguments).ints) }},
	{"In strings", func(v any, _ int) any { return query.In("f", v.(*arguments).strs) }},
	{"NewFields", func(v any, _ int) any { a := v.(*arguments); return query.NewFields(a.names[0], a.names[1]) }},
	{"UniqFieldNames", func(v any, _ int) any {
		var out []any
		for _, n := range query.UniqFieldNames(v.(*arguments).names) {
			out = append(out, string(n))
		}
		return out
	}},
	{"ValuesMap", func(v any, _ int) any {
		vs, err := v.(*arguments).vm.FieldValues()
		return []any{vs, err == nil}
	}},
}

// freeDeeds use nothing shared but the package itself.
var freeDeeds = []deed{
	{"Field", func(_ any, id int) any { return query.Field("t.f" + jname(id) + " as a") }},
	{"Field same", func(_ any, id int) any { return query.Field("t.f as a") }},
	{"Field bad", func(_ any, id int) any {
		_, err := query.FieldOrError("a.b.c")
		return err == nil
	}},
	{"Table", func(_ any, id int) any { return query.Table("users AS u" + jname(id)) }},
	{"Table same", func(_ any, id int) any { return query.Table("users u") }},
	{"ASC", func(_ any, id int) any { return query.ASC(query.FieldName(jname(id))) }},
	{"Validate", func(_ any, id int) any { return query.FieldName("a"+jname(id)).Validate() == nil }},
	{"Validate bad", func(_ any, id int) any { return query.FieldName("a b").Validate() == nil }},
	{"table Validate", func(_ any, id int) any { return tableOK("t" + jname(id)) }},
	{"EqualTo", func(_ any, id int) any { return query.EqualTo("a", id) }},
	{"In", func(_ any, id int) any { return query.In("a", []string{"x", jname(id)}) }},
	{"Like", func(_ any, id int) any { return query.Contains("a", "x") }},
	{"Value", func(_ any, id int) any { return query.FieldName("a").Value(id) }},
	{"select", func(_ any, id int) any { return query.SelectFrom("t").Where(leafN(id)) }},
	{"insert", func(_ any, id int) any { return query.InsertInto("t").Values(query.FieldName("a").Value(id)) }},
	{"update", func(_ any, id int) any {
		return query.Update("t").Set(query.FieldName("a").Value(id)).Where(leafN(id))
	}},
	{"delete", func(_ any, id int) any { return query.Delete("t").Where(leafN(id)) }},
	{"no filter", func(_ any, id int) any {
		_, _, err := query.Delete("t").BuildQueryAndParams()
		return err == nil
	}},
	{"count", func(_ any, id int) any { return query.Count(query.SelectFrom("t"), query.FieldName("a"+jname(id))) }},
}

func things() []thing {
	var out []thing
	for kind, name := range []string{"base select", "many select", "single select", "update", "delete", "insert"} {
		kind := kind
		out = append(out, thing{name: name, mk: func() any { return mixedStart(kind) }, deeds: builderDeeds(kind)})
	}
	base := func() query.BaseSelectBuilder { return mixedStart(0).(query.BaseSelectBuilder) }
	out = append(out,
		thing{name: "count", mk: func() any { return base().Count() }, deeds: []deed{
			{"build", func(v any, _ int) any { return v }}, whole,
			{"RenderFrom", func(v any, _ int) any { return v.(query.CountBuilder).RenderFrom() }},
		}},
		thing{name: "half join", small: true, mk: func() any {
			return query.SelectFrom("t").LeftJoin(query.Table("p")).On(onL, onR).LeftJoin(query.Table("j"))
		}, deeds: onDeeds()},
		thing{name: "half join many", mk: func() any { return mixedStart(1).(query.SelectManyBuilder).LeftJoin("j") }, deeds: onDeeds()},
		thing{name: "half join single", mk: func() any { return mixedStart(2).(query.SelectSingleBuilder).LeftJoin("j") }, deeds: onDeeds()},
		thing{name: "= leaf", small: true, mk: func() any { return query.EqualTo("x", 1) }, deeds: condDeeds},
		thing{name: "IN leaf", small: true, mk: func() any { return query.In("t.y", []int{2, 3}) }, deeds: condDeeds},
		thing{name: "LIKE leaf", small: true, mk: func() any { return query.Not(query.Contains("y", "x")) }, deeds: condDeeds},
		thing{name: "NULL leaf", small: true, mk: func() any { return query.IsNull("y") }, deeds: condDeeds},
		thing{name: "external leaf", small: true, mk: func() any { return model.NewCustom(model.CFunc, true, "cust", ref{Name: "z"}, 8, 9).Real }, deeds: condDeeds},
		thing{name: "AND group", mk: func() any {
			return query.NewGroup(and, query.EqualTo("x", 1), query.EqualTo("y", 2)).And(query.EqualTo("z", 3))
		}, deeds: condDeeds},
		thing{name: "mixed group", mk: func() any { return firstCond(4) }, deeds: condDeeds},
		thing{name: "negated group", mk: func() any { return query.Not(query.NewGroup(or, query.EqualTo("x", 1), query.IsNull("z"))) }, deeds: condDeeds},
		thing{name: "empty group", small: true, mk: func() any { return query.NewGroup(or) }, deeds: condDeeds},
		thing{name: "where clause", mk: func() any {
			return query.NewWhere().GroupAND(query.EqualTo("x", 1)).GroupAND(query.EqualTo("y", 1)).GroupAND(query.EqualTo("z", 1))
		}, deeds: []deed{
			{"Render", func(v any, _ int) any { return v }}, whole,
			{"GroupAND", func(v any, id int) any { return v.(query.WhereClause).GroupAND(leafN(id)) }},
			{"GroupOR", func(v any, id int) any { return v.(query.WhereClause).GroupOR(leafN(id), leafN(id+5)) }},
			{"Conditions", func(v any, id int) any { return v.(query.WhereClause).Conditions() }},
		}},
		thing{name: "fields", small: true, mk: func() any { return query.NewFields("a", "b").Fields(query.Field("t.c as d")) }, deeds: []deed{
			{"list", func(v any, _ int) any { return v }}, whole,
			{"Fields", func(v any, id int) any { return v.(query.Fields).Fields(query.Field("n" + jname(id))) }},
			{"FieldDefinitions", func(v any, id int) any { return v.(query.Fields).FieldDefinitions() }},
		}},
		thing{name: "field value", small: true, mk: func() any { return query.FieldName("a").Value(time0) }, deeds: []deed{
			{"yield", func(v any, _ int) any { return v }},
			{"Set", func(v any, id int) any {
				return query.Update("t").Set(v.(query.FieldValue), v.(query.FieldValue)).Where(leafN(id))
			}},
			{"Values", func(v any, id int) any { return query.InsertInto("t").Values(v.(query.FieldValue)) }},
		}},
		thing{name: "arguments", mk: newArguments, deeds: argDeeds},
		thing{name: "nothing shared", small: true, mk: func() any { return nil }, deeds: freeDeeds},
	)
	return out
}

var time0 = time.Date(2024, 2, 29, 1, 2, 3, 4, time.UTC)

func onDeeds() []deed {
	return []deed{
		{"On", func(v any, id int) any { return mixedSteps(v)[0].mk(v, id) }},
		{"On.Where", func(v any, id int) any { return whereBase(mixedSteps(v)[0].mk(v, id), id, 1) }},
		{"On.Join", func(v any, id int) any { return joinAny(mixedSteps(v)[0].mk(v, id), id, 1) }},
	}
}

func stateOf(v any) []any {
	if a, ok := v.(*arguments); ok {
		return a.texts()
	}
	return yields(v)
}

// alone is what a goroutine gets when there is no other.
var aloneMemo = map[string][2][]any{}

func alone(t *thing, seq []deed, id int) [2][]any {
	key := fmt.Sprint(t.name, "/", id)
	for _, d := range seq {
		key += "/" + d.name
	}
	if r, ok := aloneMemo[key]; ok {
		return r
	}
	sched.Reset()
	v := t.mk()
	before := stateOf(v)
	var got []any
	for _, d := range seq {
		x := d.do(v, id)
		got = append(got, yields(x)...)
		got = append(got, stateOf(x)...)
	}
	r := [2][]any{got, before}
	aloneMemo[key] = r
	return r
}

// together runs one sequence of deeds per goroutine on one object.
func together(c *mc.Ctx, t *thing, seqs [][]deed, fine bool) {
	want := make([][2][]any, len(seqs))
	for i, s := range seqs {
		want[i] = alone(t, s, i+1)
	}
	sched.Reset()
	v := t.mk()
	light := make([][][]any, len(seqs))
	results := make([][]any, len(seqs))
	bodies := make([]func(), len(seqs))
	for i, s := range seqs {
		i, s := i, s
		light[i] = make([][]any, len(s))
		results[i] = make([]any, len(s))
		bodies[i] = func() {
			for k, d := range s {
				x := d.do(v, i+1)
				results[i][k] = x
				light[i][k] = yields(x)
			}
		}
	}
	if c.Tracing {
		for i, s := range seqs {
			var names []string
			for _, d := range s {
				names = append(names, d.name)
			}
			c.Op("goroutine %d: %v on the shared %s", i+1, names, t.name)
		}
	}
	out := sched.Run(bodies, c.Bound, fine, c.Choose, c.Tracing)
	c.Count(int(out.Points))
	for _, s := range out.Switches {
		c.Logf("  %s", s)
	}
	if out.Deadlock {
		c.Failf("goroutines wait for each other for ever")
	}
	for i := range seqs {
		if out.Panics[i] != "" {
			c.Failf("goroutine %d: %s", i+1, out.Panics[i])
		}
		var got []any
		for k := range seqs[i] {
			got = append(got, light[i][k]...)
			got = append(got, stateOf(results[i][k])...)
		}
		if !reflect.DeepEqual(got, want[i][0]) {
			c.Failf("goroutine %d got %v, alone it gets %v", i+1, got, want[i][0])
		}
	}
	if after := stateOf(v); !reflect.DeepEqual(after, want[0][1]) {
		c.Failf("the shared object yields %v, before %v", after, want[0][1])
	}
	c.State(fmt.Sprint(t.name, seqsText(seqs), out.Points))
}

func seqsText(seqs [][]deed) (s string) {
	for _, q := range seqs {
		for _, d := range q {
			s += d.name + ","
		}
		s += ";"
	}
	return s
}

func init() {
	ts := things()
	thingOf := func(c *mc.Ctx, smallOnly bool) *thing {
		if smallOnly {
			var xs []*thing
			for i := range ts {
				if ts[i].small {
					xs = append(xs, &ts[i])
				}
			}
			return xs[c.Choose(len(xs))]
		}
		return &ts[c.Choose(len(ts))]
	}
	one := func(c *mc.Ctx, t *thing) []deed { return []deed{t.deeds[c.Choose(len(t.deeds))]} }
	mc.Register(&mc.Property{
		ID:       "C06",
		Tolerant: true,
		Method:   "stateless exploration of schedules: every schedule within the bounds is executed on an instrumented race-detecting build of the code of /repo, made for this run, and compared with what each goroutine gets alone; transitions are scheduling points passed",
		Before: func() error {
			if !sched.Instrumented {
				return fmt.Errorf("C06 needs the instrumented build: run ./check.sh C06")
			}
			runtime.GOMAXPROCS(1)
			return nil
		},
		Assumptions: []string{
			"executions free of data races are determined by the order of synchronising operations, so goroutines are preempted at those only (the statement families preempt between any two statements as well); every execution is watched by the race detector, which is not told of any ordering made by the scheduler",
			"the race detector remembers the last few accesses of each word: a race it forgets in one schedule is expected in another of the same uses",
			"package variables are put back to their initial values before every execution",
		},
		Families: []mc.Family{
			{Name: "pairs", Quick: []int{3}, Thorough: []int{5},
				Doc: "for each kind of shared object (builders, half-built joins, conditions, groups, clauses, field lists, argument slices, the package itself): every ordered pair of its uses in two goroutines, every order of synchronising operations with at most <bound> preemptions, under race detection",
				Body: func(c *mc.Ctx) {
					t := thingOf(c, false)
					together(c, t, [][]deed{one(c, t), one(c, t)}, false)
				}},
			{Name: "three", Quick: []int{2}, Thorough: []int{3},
				Doc: "objects with short uses (thorough: all objects): three goroutines, every combination of uses, every order of synchronising operations with at most <bound> preemptions, under race detection",
				Body: func(c *mc.Ctx) {
					t := thingOf(c, c.Tier != "thorough")
					together(c, t, [][]deed{one(c, t), one(c, t), one(c, t)}, false)
				}},
			{Name: "two-each", Quick: []int{2}, Thorough: []int{3},
				Doc: "objects with short uses (thorough: all objects): two goroutines doing two things each one after the other, every order of synchronising operations with at most <bound> preemptions, under race detection",
				Body: func(c *mc.Ctx) {
					t := thingOf(c, c.Tier != "thorough")
					together(c, t, [][]deed{append(one(c, t), one(c, t)...), append(one(c, t), one(c, t)...)}, false)
				}},
			{Name: "statements", Quick: []int{1}, Thorough: []int{1},
				Doc: "objects with short uses (thorough: all objects): every ordered pair of uses, every schedule with at most <bound> preemptions between any two statements, under race detection",
				Body: func(c *mc.Ctx) {
					t := thingOf(c, c.Tier != "thorough")
					together(c, t, [][]deed{one(c, t), one(c, t)}, true)
				}},
			{Name: "statements-deep", Thorough: []int{2},
				Doc: "objects with short uses: each use together with itself, every schedule with at most <bound> preemptions between any two statements, under race detection",
				Body: func(c *mc.Ctx) {
					t := thingOf(c, true)
					d := one(c, t)
					together(c, t, [][]deed{d, d}, true)
				}},
		},
	})
}
