package props

import (
	"fmt"
	"strings"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

// spot is a place that takes a value, and the texts built around it.
type spot struct {
	name string
	f    func(v any) (texts []string, params []any, err error)
}

func built(bs ...builder) (texts []string, params []any, err error) {
	for _, b := range bs {
		sql, ps, e := b.BuildQueryAndParams()
		if e != nil {
			return nil, nil, e
		}
		texts, params = append(texts, sql), append(params, ps...)
	}
	return texts, params, nil
}

// inFilters are all texts a condition appears in.
func inFilters(x query.Condition) ([]string, []any, error) {
	texts, params, err := built(
		query.SelectFrom("t").Where(x), query.SelectManyFrom("t").Where(x).OrderBy(query.ASC("o")).Limit(3), query.SelectSingleFrom("t").Where(query.IsNull("g"), x),
		query.Table("t").Count(x), query.Delete("t").Where(x), query.Update("t").Set(query.FieldName("s").Value(1)).Where(x), query.SelectFrom("t").Where(x).Update(query.FieldName("s").Value(1)))
	if err != nil {
		return nil, nil, err
	}
	for _, y := range []query.Condition{x, query.Not(x), query.NewGroup(or, query.EqualTo("p", 1), x), x.And(query.EqualTo("p", 1)), x.ApplyFieldTable("m")} {
		texts, params = append(texts, y.Render(0), y.Render(9), y.RenderSQL()), append(params, y.Values()...)
	}
	w := query.NewWhere().GroupAND(x)
	b := query.SelectFrom("t").Where(x)
	return append(texts, w.Render(0), w.RenderSQL(), b.Render(4), b.RenderSQL()), append(params, w.Values()...), nil
}

// written are all texts a field value appears in.
func written(v query.FieldValue) ([]string, []any, error) {
	other := query.FieldName("p").Value(1)
	texts, params, err := built(
		query.InsertInto("t").Values(v), query.InsertInto("t").Values(other).Values(v, other), query.Table("t as x").InsertInto(v),
		query.Update("t").Set(v).Where(query.IsNull("g")), query.Update("t").Set(other, v).Where(query.EqualTo("g", 1)), query.SelectFrom("t").Where(query.EqualTo("g", 1)).Update(v, other))
	return append(texts, v.RenderSpec()), params, err
}

// spots take any value as one.
var spots = []spot{
	{"EqualTo", func(v any) ([]string, []any, error) { return inFilters(query.EqualTo("f", v)) }},
	{"FieldName.EqualTo", func(v any) ([]string, []any, error) { return inFilters(query.FieldName("t.f as a").EqualTo(v)) }},
	{"Less", func(v any) ([]string, []any, error) { return inFilters(query.Less("f", v)) }},
	{"LessOrEqual", func(v any) ([]string, []any, error) { return inFilters(query.LessOrEqual("t.f", v)) }},
	{"GreaterThan", func(v any) ([]string, []any, error) { return inFilters(query.GreaterThan("f", v)) }},
	{"GreaterOrEqual", func(v any) ([]string, []any, error) { return inFilters(query.GreaterOrEqual("f", v)) }},
	{"FieldName.Value", func(v any) ([]string, []any, error) { return written(query.FieldName("f").Value(v)) }},
	{"NewFieldValue", func(v any) ([]string, []any, error) { return written(*query.NewFieldValue("t.f as a", v)) }},
	{"Field.Value", func(v any) ([]string, []any, error) { return written(query.Field("t.f").Value(v)) }},
	{"ValuesMap", func(v any) ([]string, []any, error) {
		vs, err := query.ValuesMap{"f": v}.FieldValues()
		if err != nil {
			return nil, nil, err
		}
		return written(vs[0])
	}},
}

// textSpots take texts only.
var textSpots = []spot{
	{"Contains", func(v any) ([]string, []any, error) { return inFilters(query.Contains("f", v.(string))) }},
	{"FieldName.Contains", func(v any) ([]string, []any, error) { return inFilters(query.FieldName("t.f").Contains(v.(string))) }},
	{"IContains", func(v any) ([]string, []any, error) { return inFilters(query.IContains("f", v.(string))) }},
	{"FieldName.IContains", func(v any) ([]string, []any, error) {
		return inFilters(query.FieldName("f as a").IContains(v.(string)))
	}},
}

// listSpots take lists.
var listSpots = []spot{
	{"In", func(v any) ([]string, []any, error) { return inFilters(query.In("f", v)) }},
	{"FieldName.In", func(v any) ([]string, []any, error) { return inFilters(query.FieldName("t.f as a").In(v)) }},
}

// at uses the value there; a panic counts as a refusal.
func (s spot) at(v any) (texts []string, params []any, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return s.f(v)
}

// plain are the texts with a harmless value, or list of that many, in the same place.
var plain = map[string][]string{}

func (s spot) plain(c *mc.Ctx, n int) []string {
	key := fmt.Sprint(s.name, n)
	if plain[key] == nil {
		var v any = "x"
		if n >= 0 {
			v = make([]int, n)
		}
		texts, _, err := s.at(v)
		if err != nil {
			c.Failf("%s: a harmless value is refused: %v", s.name, err)
		}
		plain[key] = tokens(c, s.name, texts)
	}
	return plain[key]
}

func tokens(c *mc.Ctx, what string, texts []string) []string {
	out := make([]string, len(texts))
	for i, t := range texts {
		n, err := sqlx.Normalize(t, false)
		if err != nil {
			c.Failf("%s: %q: %v", what, t, err)
		}
		out[i] = n
	}
	return out
}

// textIsPlain checks that the texts are those of a harmless value.
func textIsPlain(c *mc.Ctx, s spot, v any, n int) {
	texts, _, err := s.at(v)
	if err != nil {
		c.Tag("refused")
		return
	}
	want := s.plain(c, n)
	got := tokens(c, s.name+"("+model.Show(v)+")", texts)
	for i := range want {
		if got[i] != want[i] {
			c.Failf("%s: the text depends on the value %s: built %q, with a harmless one %q", s.name, model.Show(v), texts[i], want[i])
		}
	}
	c.Count(len(texts))
}

// hostile pieces of text.
var hostile = []string{"'", "\"", "$1", "$2", "?", "%", "\\", ";", "--", "/*", ")", " OR ", "\x00", "\n", "é", "NULL", "1", "%s", "%!d(x)", "{}", ":x", "@p", "``", ", "}

func init() {
	mc.Register(&mc.Property{
		ID: "C26",
		Assumptions: []string{
			"the reference is the text built with a harmless value in the same place, or a list of as many numbers; amounts of blanks are not compared",
			"a value that is refused (error or panic) is in no text; what must be refused is C07, C09, C10 and C23",
			"offsets and limits are numbers and not asserted here (C21)",
		},
		Families: []mc.Family{
			{Name: "values", Quick: []int{0}, Thorough: []int{0},
				Doc: "every value of the C10 alphabet (plain, converting, failing, nil, hostile texts, structs, maps, bytes) at every one of ten places that take a value; every text around it (seven statements, alone, negated, grouped, extended, moved, in both styles; six writing statements) is the text of a harmless value",
				Body: func(c *mc.Ctx) {
					s := spots[c.Choose(len(spots))]
					v := model.Singles[c.Choose(len(model.Singles))]
					c.Op("%s(%s)", s.name, v.Name)
					textIsPlain(c, s, v.V, -1)
					c.State(s.name, v.Name)
				}},
			{Name: "lists", Quick: []int{0}, Thorough: []int{0},
				Doc: "every list and value of the C10 alphabet given to In: the text is the one of a list of as many numbers",
				Body: func(c *mc.Ctx) {
					s := listSpots[c.Choose(len(listSpots))]
					all := append(append([]model.Value{}, model.Lists...), model.Singles...)
					v := all[c.Choose(len(all))]
					if v.List == nil || v.NoIn {
						c.Skip()
					}
					c.Op("%s(%s)", s.name, v.Name)
					textIsPlain(c, s, v.V, len(v.List))
					c.State(s.name, v.Name)
				}},
			{Name: "odd", Quick: []int{0}, Thorough: []int{0},
				Doc: fmt.Sprintf("%d values whose conversion is not specified (converting both ways, into themselves, into lists or into what no driver takes, panicking, nil interfaces inside of structs, pointers to lists) at every place: refused, or the text is the one of a harmless value, for In the one of a list of as many numbers as there are parameters", len(model.Odd)),
				Body: func(c *mc.Ctx) {
					i := c.Choose(len(model.Odd))
					v := model.Odd[i]
					k := c.Choose(len(spots) + len(listSpots))
					if k < len(spots) {
						c.Op("%s(%T %d)", spots[k].name, v, i)
						textIsPlain(c, spots[k], v, -1)
					} else {
						s := listSpots[k-len(spots)]
						c.Op("%s(%T %d)", s.name, v, i)
						n := 0
						if panics(func() { n = len(query.In("f", v).Values()) }) != nil {
							c.Skip()
						}
						textIsPlain(c, s, v, n)
					}
					c.State(fmt.Sprint(i, k))
				}},
			{Name: "texts", Quick: []int{0, 1, 2, 3}, Thorough: []int{0, 1, 2, 3},
				Doc: "every text of exactly <bound> out of 24 hostile pieces (quotes, placeholders, comments, terminators, keywords, control characters, format verbs), as string, bytes, converting value, provider, field name, list element, at every place that takes values",
				Body: func(c *mc.Ctx) {
					t := ""
					for i := 0; i < c.Bound; i++ {
						t += hostile[c.Choose(len(hostile))]
					}
					c.Op("%q", t)
					k := c.Choose(len(spots) + len(textSpots) + len(listSpots))
					switch {
					case k < len(spots):
						for _, v := range []any{t, []byte(t), query.FieldName(t), model.Prov{S: t}, model.VErr{S: t}, &t} {
							textIsPlain(c, spots[k], v, -1)
						}
					case k < len(spots)+len(textSpots):
						textIsPlain(c, textSpots[k-len(spots)], t, -1)
					default:
						s := listSpots[k-len(spots)-len(textSpots)]
						textIsPlain(c, s, t, 1)
						textIsPlain(c, s, []string{t}, 1)
						textIsPlain(c, s, []any{1, t, nil}, 3)
						textIsPlain(c, s, [][]byte{[]byte(t), []byte(t)}, 2)
						textIsPlain(c, s, []model.Prov{{S: t}, {S: "x"}}, 2)
					}
					c.State(t)
				}},
			{Name: "trees", Quick: []int{1, 2}, Thorough: []int{1, 2, 3},
				Doc: "every condition made with exactly <bound> composition operations over comparisons of every kind with hostile or converting values: in every statement the text is the one of the same composition of harmless values",
				Body: func(c *mc.Ctx) {
					values := []any{"' OR $1 --", nil, model.VInt(3), model.Prov{S: "?"}, []byte("$2"), 1e9}
					if c.Bound > 1 {
						values = values[:3]
					}
					made := func(c *mc.Ctx, harmless bool) cond {
						i := 0
						return tree(c, c.Bound, &treeOpts{forms: []int{model.Method}, maxArgs: 1, groups: 2, unary: []string{"Not"}, leaf: func(c *mc.Ctx) cond {
							i++
							f := query.FieldName(fmt.Sprintf("f%d", i))
							k := c.Choose(3)
							v := values[c.Choose(len(values))]
							w := []any{v, "?"}
							if harmless {
								v, w = 1, []any{1, 2}
							}
							var x query.Condition
							switch k {
							case 0:
								x = query.EqualTo(f, v)
							case 1:
								x = query.In(f, w)
							default:
								x = query.Contains(f, fmt.Sprint(v))
							}
							return cond{Real: x, N: model.Eq("f", 1).N, J: and, Desc: fmt.Sprintf("%s %d %s", f, k, model.Show(v))}
						}})
					}
					x := made(c, false)
					c.Op("%s", x.Desc)
					texts, _, err := inFilters(x.Real)
					if err != nil {
						if _, _, err := built(query.Delete("t").Where(x.Real)); err != nil {
							c.Tag("empty")
							return
						}
						c.Failf("%s: %v", x.Desc, err)
					}
					var y cond
					c.Replay(0, func(c *mc.Ctx) { y = made(c, true) })
					want, _, err := inFilters(y.Real)
					if err != nil {
						c.Failf("%s: %v", y.Desc, err)
					}
					a, b := tokens(c, x.Desc, texts), tokens(c, y.Desc, want)
					for i := range a {
						if a[i] != b[i] {
							c.Failf("%s: the text depends on the values: built %q, with harmless ones %q", x.Desc, texts[i], want[i])
						}
					}
					c.Count(len(a) + len(b))
					c.State(a[0])
				}},
			{Name: "sizes", Quick: []int{70}, Thorough: []int{400},
				Doc: "texts of every length 0..<bound> and lengths around powers of two and ten beyond, up to 70000, of one character out of five, at every place; lists of every such number up to 1025 of hostile texts, bytes, converting values and nils",
				Body: func(c *mc.Ctx) {
					if c.Bool() {
						s := listSpots[c.Choose(len(listSpots))]
						n := size(c, c.Bound, big(c, 1025, 1025))
						k := c.Choose(4)
						vs := make([]any, n)
						for i := range vs {
							vs[i] = []any{"'$1", []byte("?"), model.VInt(i), nil}[k]
						}
						c.Op("%s of %d", s.name, n)
						textIsPlain(c, s, vs, n)
						c.State(s.name, fmt.Sprint(n, k))
						return
					}
					n := size(c, c.Bound, big(c, 1025, 1025))
					if n == 1025 && c.Bool() {
						n = pick(c, 4095, 4096, 4097, 8193, 65535, 65536, 70000)
					}
					t := strings.Repeat(pick(c, "'", "$1", "?", "\\", "a"), n)
					c.Op("text of %d bytes", len(t))
					k := c.Choose(len(spots) + len(textSpots))
					if k < len(spots) {
						textIsPlain(c, spots[k], t, -1)
						textIsPlain(c, spots[k], []byte(t), -1)
					} else {
						textIsPlain(c, textSpots[k-len(spots)], t, -1)
					}
					c.State(fmt.Sprint(n, k))
				}},
		},
	})
}
