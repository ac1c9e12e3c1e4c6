package props

import (
	"errors"
	"fmt"
	"strings"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/sqlx"
)

// tableSpec is the documented grammar of table specifications.
func tableSpec(s string) (t sqlx.Table, ok bool) {
	ws := words(s)
	switch {
	case len(ws) == 1:
		t.Name = ws[0]
	case len(ws) == 2:
		t.Name, t.Alias = ws[0], ws[1]
	case len(ws) == 3 && (ws[1] == "as" || ws[1] == "AS" || ws[1] == "As" || ws[1] == "aS"):
		t.Name, t.Alias = ws[0], ws[2]
	default:
		return t, false
	}
	if t.Alias == t.Name {
		t.Alias = ""
	}
	return t, true
}

// sameIdent compares the parts of a table and what is made of it.
func sameIdent(c *mc.Ctx, what string, d query.TableIdent, t sqlx.Table) {
	if string(d.TableName()) != t.Name || string(d.Alias()) != t.Alias {
		c.Failf("%s: name %q alias %q, expected %q %q", what, d.TableName(), d.Alias(), t.Name, t.Alias)
	}
	want := t.Name
	qual := t.Name
	if t.Alias != "" {
		want, qual = t.Name+" AS "+t.Alias, t.Alias
	}
	got := words(d.RenderFrom())
	if len(got) == 3 {
		got[1] = strings.ToUpper(got[1])
	}
	if strings.Join(got, " ") != want {
		c.Failf("%s: RenderFrom() is %q, expected %q", what, d.RenderFrom(), want)
	}
	for _, n := range []string{"f", "f as z", "other.f"} {
		f := d.Field(query.FieldName(n))
		if string(f.TableName()) != qual || string(f.FieldName()) != "f" {
			c.Failf("%s: Field(%q) is %q, expected a field of %q", what, n, f.RenderSpec(), qual)
		}
	}
	c.Count(6)
}

func checkTableSpec(c *mc.Ctx, s string) {
	t, ok := tableSpec(s)
	c.Op("specification %q: %+v %v", s, t, ok)
	a, errA := query.TableOrError(s)
	b, errB := query.TableOrError(query.TableName(s))
	var made []query.TableIdent
	fs := []func(){
		func() { made = append(made, query.Table(s)) },
		func() { made = append(made, query.Table(query.TableName(s))) },
		func() { made = append(made, query.TableName(s).Ident()) },
	}
	var ps []any
	for _, f := range fs {
		ps = append(ps, panics(f))
	}
	c.Count(5)
	if !ok {
		c.Tag("rejected")
		for _, err := range []error{errA, errB} {
			if err == nil {
				c.Failf("TableOrError(%q) accepts it: %+v", s, a)
			}
			if !errors.Is(err, query.Error) {
				c.Failf("TableOrError(%q): %v does not wrap query.Error", s, err)
			}
		}
		if a != nil || b != nil {
			c.Failf("TableOrError(%q) returns a table with an error", s)
		}
		for _, p := range ps {
			if p == nil {
				c.Failf("Table(%q) does not panic", s)
			}
		}
		if panics(func() { query.SelectFrom(s) }) == nil {
			c.Failf("SelectFrom(%q) does not panic", s)
		}
		c.State("rejected", s)
		return
	}
	c.Tag("accepted")
	if errA != nil || errB != nil {
		c.Failf("TableOrError(%q): %v %v", s, errA, errB)
	}
	for _, p := range ps {
		if p != nil {
			c.Failf("Table(%q) panics: %v", s, p)
		}
	}
	sameIdent(c, fmt.Sprintf("TableOrError(%q)", s), *a, t)
	sameIdent(c, fmt.Sprintf("TableOrError(TableName(%q))", s), *b, t)
	for i, d := range made {
		sameIdent(c, fmt.Sprintf("Table form %d of %q", i, s), d, t)
	}
	for _, n := range []query.TableName{query.SelectFrom(s).TableName(), query.SelectManyFrom(s).TableName(), query.SelectSingleFrom(query.TableName(s)).TableName()} {
		if string(n) != t.Name {
			c.Failf("select from %q is from %q", s, n)
		}
	}
	c.State(t.Name, t.Alias)
}

func init() {
	mc.Register(&mc.Property{
		ID: "C12",
		Assumptions: []string{
			"whitespace is what unicode.IsSpace says; a name or alias is any text without whitespace, dots included; two words are a name and an alias even when the second one is \"as\"",
		},
		Families: []mc.Family{
			{Name: "texts", Quick: []int{0, 1, 2, 3, 4, 5}, Thorough: []int{0, 1, 2, 3, 4, 5, 6, 7},
				Doc: "every text of exactly <bound> pieces out of a, b1, dot, space, tab, as, AS, aS, asc through TableOrError, Table, Ident, as string and TableName",
				Body: func(c *mc.Ctx) {
					pieces := []string{"a", "b1", ".", " ", "\t", "as", "AS", "aS", "asc"}
					s := ""
					for i := 0; i < c.Bound; i++ {
						s += pieces[c.Choose(len(pieces))]
					}
					checkTableSpec(c, s)
				}},
			{Name: "characters", Quick: []int{1, 2, 3, 4}, Thorough: []int{1, 2, 3, 4},
				Doc: "every text of exactly <bound> characters out of 15 kinds of whitespace, dot, letters, quotes, comma, brackets, $ and NUL",
				Body: func(c *mc.Ctx) {
					chars := append(append([]string{}, spaces[:15]...), ".", "x", "я", "'", "\"", ",", "(", "$", "\x00", "*", "-", "\u200b", "\ufeff")
					s := ""
					for i := 0; i < c.Bound; i++ {
						s += chars[c.Choose(len(chars))]
					}
					checkTableSpec(c, s)
				}},
			{Name: "words", Quick: []int{1, 2, 3, 4}, Thorough: []int{1, 2, 3, 4, 5},
				Doc: "every sequence of <bound> words out of t, x, T, as, AS, aS, As, a, is, s.t separated and surrounded by whitespace of 6 kinds",
				Body: func(c *mc.Ctx) {
					ws := []string{"t", "x", "T", "as", "AS", "aS", "As", "a", "is", "s.t"}
					sp := pick(c, " ", "\t", "\n ", "\u00a0", "  ", "\u3000")
					s := pick(c, "", sp)
					for i := 0; i < c.Bound; i++ {
						if i > 0 {
							s += sp
						}
						s += ws[c.Choose(len(ws))]
					}
					s += pick(c, "", sp)
					checkTableSpec(c, s)
				}},
			{Name: "idents", Quick: []int{0, 1, 2, 3}, Thorough: []int{0, 1, 2, 3, 4, 5},
				Doc: "every sequence of exactly <bound> As calls with empty, plain, equal and other names on tables with and without alias; the original stays, the ident given to TableOrError and Table comes back unchanged, and statements name it accordingly",
				Body: func(c *mc.Ctx) {
					s := pick(c, "t", "t as x", "users u", "x AS x", "t as t2", "users user", "tt t", "t x")
					d := query.Table(s)
					t, _ := tableSpec(s)
					for i := 0; i < c.Bound; i++ {
						before, tb := d, t
						v := pick(c, "", "t", "x", "users", "other", "t2", "tt", "user")
						d = d.As(query.TableName(v))
						t.Alias = v
						if v == t.Name {
							t.Alias = ""
						}
						c.Op("As(%q)", v)
						sameIdent(c, "original", before, tb)
					}
					sameIdent(c, "ident", d, t)
					p, err := query.TableOrError(d)
					if err != nil {
						c.Failf("TableOrError(ident): %v", err)
					}
					sameIdent(c, "TableOrError(ident)", *p, t)
					sameIdent(c, "Table(ident)", query.Table(d), t)
					*p = p.As("changed")
					sameIdent(c, "ident after its parsed copy changed", d, t)
					for _, b := range []builder{query.SelectFrom(d), query.SelectManyFrom(d), d.SelectOne(), d.Count(), d.Select().Many()} {
						st := build(c, "select", b)
						if st.Table != t {
							c.Failf("select from %+v, expected %+v", st.Table, t)
						}
					}
					c.State(t.Name, t.Alias)
				}},
		},
	})
}
