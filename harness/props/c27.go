package props

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sched"
)

// act0 builds something from nothing and returns what it yields.
type act0 struct {
	name string
	do   func() []any
}

// attempted turns a refusal into a result.
func attempted(f func() []any) (out []any) {
	defer func() {
		if recover() != nil {
			out = []any{"refused"}
		}
	}()
	return f()
}

// spellings are texts easily taken for one another, given to everything that takes a text.
var spellings = []string{
	"a", "A", "b", "t.a", "t.A", "T.a", "a as b", "a AS b", "a As B", "t.a as b", "t.a as a", "a as a", "a b", "t a", "t as a", "t", "a.t", "ab", "a_b", "t.a.b", "", " ", ".a", "a.", "*", "t.*", "users", "users u", "users as u", "user su", "a  as  b", "a\tas\tb",
}

// acts are the constructions whose order is explored.
func acts() (out []act0) {
	add := func(name string, f func() []any) { out = append(out, act0{name, f}) }
	part := func(d query.FieldDefinition) []any {
		return []any{d.FieldName(), d.TableName(), d.Alias(), d.RenderSpec(), d.RenderField(), d.RenderTableSpec()}
	}
	ident := func(t query.TableIdent) []any {
		return append([]any{t.TableName(), t.Alias(), t.RenderFrom()}, part(t.Field("f"))...)
	}
	for _, s := range spellings {
		s := s
		add("FieldOrError string "+s, func() []any {
			d, err := query.FieldOrError(s)
			if err != nil {
				return []any{"error"}
			}
			return part(*d)
		})
		add("Field FieldName "+s, func() []any { return part(query.Field(query.FieldName(s))) })
		add("TableOrError "+s, func() []any {
			d, err := query.TableOrError(s)
			if err != nil {
				return []any{"error"}
			}
			return ident(*d)
		})
		add("TableName "+s, func() []any { return ident(query.Table(query.TableName(s))) })
		add("EqualTo "+s, func() []any { return yields(query.EqualTo(query.FieldName(s), 1)) })
		add("In "+s, func() []any { return yields(query.In(query.FieldName(s), []int{1, 2})) })
		add("Value "+s, func() []any { return yields(query.FieldName(s).Value(1)) })
		add("ASC "+s, func() []any { return yields(query.ASC(query.FieldName(s))) })
		add("Validate "+s, func() []any { return []any{query.FieldName(s).Validate() == nil} })
		add("ValuesMap "+s, func() []any {
			vs, err := query.ValuesMap{s: 1}.FieldValues()
			return append(yields(vs), err == nil)
		})
		add("select "+s, func() []any {
			return yields(query.SelectFrom(s).Fields(query.Field(s)).Where(query.Less(query.FieldName(s), 2)))
		})
		add("update "+s, func() []any {
			return yields(query.Update(s).Set(query.FieldName(s).Value(3)).Where(query.IsNull(query.FieldName(s))))
		})
		add("insert "+s, func() []any { return yields(query.InsertInto(s).Values(query.FieldName(s).Value(3))) })
		add("delete "+s, func() []any { return yields(query.Delete(s).Where(query.Contains(query.FieldName(s), s))) })
	}
	for _, v := range model.Singles {
		v := v
		add("EqualTo value "+v.Name, func() []any { return yields(query.EqualTo("f", v.V)) })
		add("Value value "+v.Name, func() []any { return yields(query.FieldName("f").Value(v.V)) })
		add("In value "+v.Name, func() []any { return yields(query.In("f", v.V)) })
	}
	for i, v := range model.Odd {
		v := v
		if reflect.TypeOf(v) != nil && reflect.TypeOf(v).Kind() == reflect.Func {
			continue // not comparable
		}
		add(fmt.Sprintf("EqualTo odd %T %d", v, i), func() []any { return yields(query.EqualTo("f", v)) })
		add(fmt.Sprintf("In odd %T %d", v, i), func() []any { return yields(query.In("f", v)) })
	}
	for _, v := range model.Lists {
		v := v
		add("In list "+v.Name, func() []any { return yields(query.In("f", v.V)) })
	}
	for n := 0; n < 14; n++ {
		vs := make([]int, n)
		add(fmt.Sprint("In ", n), func() []any {
			x := query.In("f", vs)
			return append(yields(x), yields(query.SelectFrom("t").Where(query.EqualTo("e", 1), x, query.EqualTo("g", 1)))...)
		})
		n := n
		add(fmt.Sprint("paging ", n), func() []any {
			l := query.Limiter{}.Limit(uint(n)).Offset(uint(n / 2))
			return append(yields(query.SelectManyFrom("t").Limit(n).Offset(uint(n/3))), l.Render(n), l.RenderSQL(), fmt.Sprint(l.Values()))
		})
	}
	for _, k := range []int{0, 1, 2, 3} {
		k := k
		add("join "+joinNames[k], func() []any {
			return append(yields(halfBase(query.SelectFrom("t"), query.Table("u"), k, true)), joinTypes[k].String(), query.Operation(k).String())
		})
	}
	ts := things()
	for i := range ts {
		t := &ts[i]
		for _, d := range t.deeds {
			d := d
			for id := 1; id < 3; id++ {
				id := id
				add(fmt.Sprintf("%s.%s %d", t.name, d.name, id), func() []any {
					x := d.do(t.mk(), id)
					return append(yields(x), stateOf(x)...)
				})
			}
		}
	}
	return out
}

// fewActs is a part of the acts that has every kind of thing in it.
func fewActs(all []act0) (out []act0) {
	n := map[string]bool{}
	for _, s := range []string{"FieldOrError string t.a as b", "FieldOrError string a b", "Field FieldName a as b", "TableOrError a b", "TableName a as b", "TableOrError t.a", "EqualTo a", "EqualTo t.a as b", "In a as b", "Value t.a", "ASC a", "ASC a b",
		"Validate a", "Validate a.", "ValuesMap a", "select t", "select a as b", "update t", "insert t", "delete t", "delete ", "EqualTo value vint", "EqualTo value vptr-nil", "EqualTo value vptr", "Value value prov", "In list ints", "In list any-conv", "In list valuers", "In 0", "In 1", "In 2", "In 12",
		"paging 0", "paging 5", "join LEFT", "join FULL", "Value value verr", "In value pslice", "In value nil"} {
		n[s] = true
	}
	for _, a := range all {
		if n[a.name] {
			out = append(out, a)
		}
	}
	if len(out) != len(n) {
		panic(fmt.Sprintf("%d of %d", len(out), len(n)))
	}
	return out
}

// fresh is what an act yields first of all.
var freshMemo = map[string][]any{}

func fresh(a act0) []any {
	r, ok := freshMemo[a.name]
	if !ok {
		sched.Reset()
		r = attempted(a.do)
		freshMemo[a.name] = r
	}
	return r
}

// inOrder does the acts one after the other, each must yield what it yields first of all.
func inOrder(c *mc.Ctx, as []act0) {
	want := make([][]any, len(as))
	for i, a := range as {
		want[i] = fresh(a)
	}
	sched.Reset()
	for i, a := range as {
		c.Op("%s", a.name)
		if got := attempted(a.do); !reflect.DeepEqual(got, want[i]) {
			before := "nothing"
			if i > 0 {
				before = as[i-1].name
				if i > 1 {
					before += fmt.Sprintf(" and %d more", i-1)
				}
			}
			c.Failf("%q yields %v, but %v when done first; before it: %s", a.name, got, want[i], before)
		}
	}
}

// countedActs are acts told apart by a number only.
var countedActs = []struct {
	name string
	do   func(i int) []any
}{
	{"Field", func(i int) []any { return yields(query.Field(fmt.Sprintf("t%d.f%d as a%d", i%7, i, i%5))) }},
	{"Field bad", func(i int) []any { _, err := query.FieldOrError(fmt.Sprintf("a.b.c%d", i)); return []any{err == nil} }},
	{"Table", func(i int) []any { return yields(query.Table(fmt.Sprintf("t%d as x%d", i, i%3))) }},
	{"EqualTo", func(i int) []any { return yields(query.EqualTo(query.FieldName(fmt.Sprintf("f%d", i)), i)) }},
	{"In", func(i int) []any { return yields(query.In("f", make([]int, i))) }},
	{"Validate", func(i int) []any { return []any{query.FieldName(fmt.Sprintf("f%d", i)).Validate() == nil} }},
	{"Validate bad", func(i int) []any { return []any{query.FieldName(fmt.Sprintf("f %d", i)).Validate() == nil} }},
	{"select", func(i int) []any {
		return yields(query.SelectManyFrom(fmt.Sprintf("t%d", i)).Where(leafN(i % 10)).OrderBy(query.DESC(query.FieldName(fmt.Sprintf("o%d", i)))).Limit(i))
	}},
	{"update", func(i int) []any {
		return yields(query.Update("t").Set(query.FieldName(fmt.Sprintf("f%d", i)).Value(i)).Where(leafN(1)))
	}},
	{"insert", func(i int) []any {
		return yields(query.InsertInto(fmt.Sprintf("t%d", i)).Values(query.FieldName("f").Value(fmt.Sprint(i))))
	}},
	{"group", func(i int) []any {
		x := query.NewGroup(or)
		for k := 0; k < i%40; k++ {
			x = x.GroupAND(query.EqualTo("f", k))
		}
		return yields(x)
	}},
	{"same", func(int) []any { return yields(query.SelectFrom("t").Where(query.EqualTo("a", 1))) }},
}

func init() {
	all := acts()
	few := fewActs(all)
	mc.Register(&mc.Property{
		ID:     "C27",
		Method: "explicit enumeration of histories: every sequence within the bounds is executed on an instrumented build of the code of /repo made for this run, whose package variables are put back before each, and every result compared with the one obtained first of all",
		Before: func() error {
			if !sched.Instrumented {
				return fmt.Errorf("C27 needs the instrumented build: run ./check.sh C27")
			}
			return nil
		},
		Assumptions: []string{
			"package variables are put back to their initial values before every execution; package sync is replaced by a stand-in whose Pool hands back what was put last",
		},
		Families: []mc.Family{
			{Name: "pairs", Quick: []int{0}, Thorough: []int{0},
				Doc: fmt.Sprintf("every ordered pair out of %d constructions (32 spellings alike of fields and tables given to everything that takes them, every value and list of the C10 alphabet, list lengths and pages 0..13, every use of every object of C06): the second yields what it yields when it is the first thing ever done", len(all)),
				Body: func(c *mc.Ctx) {
					y := all[c.Choose(len(all))]
					x := all[c.Choose(len(all))]
					inOrder(c, []act0{y, x})
					c.State(y.name, x.name)
				}},
			{Name: "triples", Quick: []int{3}, Thorough: []int{3, 4},
				Doc: fmt.Sprintf("every sequence of exactly <bound> out of %d of these constructions", len(few)),
				Body: func(c *mc.Ctx) {
					var as []act0
					for i := 0; i < c.Bound; i++ {
						as = append(as, few[c.Choose(len(few))])
					}
					inOrder(c, as)
					c.State(as[0].name, as[1].name, as[2].name, as[len(as)-1].name)
				}},
			{Name: "rotations", Quick: []int{0}, Thorough: []int{0},
				Doc: "all constructions one after the other, starting with each, forwards and backwards, each done once or twice in a row",
				Body: func(c *mc.Ctx) {
					k := c.Choose(len(all))
					back, twice := c.Bool(), c.Bool()
					var as []act0
					for i := range all {
						j := (k + i) % len(all)
						if back {
							j = (k + len(all) - i) % len(all)
						}
						as = append(as, all[j])
						if twice {
							as = append(as, all[j])
						}
					}
					inOrder(c, as)
					c.State(all[k].name, fmt.Sprint(back, twice))
				}},
			{Name: "many", Quick: []int{70}, Thorough: []int{300},
				Doc: "twelve kinds of constructions told apart by a number, done for every number up to every number 0..<bound> and numbers around powers of two and ten beyond (up to 1025, thorough 5000), then all constructions of the other families; the first ones again",
				Body: func(c *mc.Ctx) {
					y := countedActs[c.Choose(len(countedActs))]
					k := size(c, c.Bound, big(c, 1025, 1025))
					if k == 1025 && c.Bool() {
						k = pick(c, 2049, 4097, 5000)
					}
					if y.name == "In" && k > 1025 {
						c.Skip()
					}
					var as []act0
					for i := 0; i < k; i++ {
						i := i
						as = append(as, act0{fmt.Sprintf("number %s %d", y.name, i), func() []any { return y.do(i) }})
					}
					again := as
					if len(again) > 20 {
						again = append(append([]act0{}, as[:10]...), as[len(as)-10:]...)
					}
					as = append(append(as, again...), all...)
					inOrder(c, as)
					c.State(y.name, fmt.Sprint(k))
				}},
			{Name: "over-and-over", Quick: []int{300}, Thorough: []int{6000},
				Doc: fmt.Sprintf("each of %d constructions <bound> times (a part of them 10000, in the thorough tier 70000 times): always the same, and then the constructions of triples yield what they yield first of all", len(all)),
				Body: func(c *mc.Ctx) {
					k := c.Choose(len(all))
					n := c.Bound
					a := all[k]
					often := strings.HasSuffix(a.name, "UniqFieldNames 1")
					for _, b := range few {
						often = often || b.name == a.name
					}
					if often {
						n = big(c, 10000, 70000)
					}
					want := fresh(a)
					for _, b := range few {
						fresh(b)
					}
					sched.Reset()
					c.Op("%s, %d times", a.name, n)
					for i := 0; i < n; i++ {
						if got := attempted(a.do); !reflect.DeepEqual(got, want) {
							c.Failf("%q yields %v when done for time %d, but %v at first", a.name, got, i+1, want)
						}
					}
					for _, b := range few {
						if got, want := attempted(b.do), fresh(b); !reflect.DeepEqual(got, want) {
							c.Failf("%q yields %v after %d times %q, but %v when done first", b.name, got, n, a.name, want)
						}
					}
					c.State(a.name)
				}},
		},
	})
}
