package props

import (
	"errors"
	"fmt"
	"strings"
	"unicode"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/sqlx"
)

// words splits at whitespace.
func words(s string) []string { return strings.FieldsFunc(s, unicode.IsSpace) }

// fieldSpec is the documented grammar of field specifications. sure is false where the documentation is silent.
func fieldSpec(s string) (r ref, ok, sure bool) {
	ws := words(s)
	switch {
	case len(ws) == 3 && (ws[1] == "as" || ws[1] == "AS" || ws[1] == "As" || ws[1] == "aS"):
		r.Alias = ws[2]
	case len(ws) != 1:
		return r, false, true
	}
	r.Name = ws[0]
	if i := strings.IndexByte(ws[0], '.'); i >= 0 {
		r.Table, r.Name = ws[0][:i], ws[0][i+1:]
		if r.Table == "" || r.Name == "" || strings.Contains(r.Name, ".") {
			return r, false, true
		}
	}
	return r, true, !strings.Contains(r.Alias, ".")
}

// sameDef compares the parts of a definition and everything rendered from it.
func sameDef(c *mc.Ctx, what string, d query.FieldDefinition, r ref) {
	alias := string(d.Alias())
	if alias == "" && r.Alias == r.Name && r.Table == "" { // documented: no alias at all
		alias = r.Alias
	}
	if string(d.FieldName()) != r.Name || string(d.TableName()) != r.Table || alias != r.Alias {
		c.Failf("%s: name %q table %q alias %q, expected %q %q %q", what, d.FieldName(), d.TableName(), d.Alias(), r.Name, r.Table, r.Alias)
	}
	want := r.Name
	if r.Table != "" {
		want = r.Table + "." + r.Name
	}
	spec := []string{want}
	if it := items([]ref{r})[0]; it.Alias != "" {
		spec = []string{want, "AS", it.Alias}
	}
	got := words(d.RenderSpec())
	if len(got) == 3 && strings.EqualFold(got[1], "AS") {
		got[1] = "AS"
	}
	plain := len(spec) == 1 && len(got) == 3 && got[1] == "AS" && got[2] == got[0] && got[0] == spec[0] // f AS f
	if strings.Join(got, " ") != strings.Join(spec, " ") && !plain {
		c.Failf("%s: RenderSpec() is %q, expected %q", what, d.RenderSpec(), strings.Join(spec, " "))
	}
	if d.RenderField() != r.String() {
		c.Failf("%s: RenderField() is %q, expected %q", what, d.RenderField(), r.String())
	}
	if r.Table != "" && (d.RenderTableSpec() != want || string(d.TableFieldName()) != want) {
		c.Failf("%s: RenderTableSpec() is %q, TableFieldName() %q, expected %q", what, d.RenderTableSpec(), d.TableFieldName(), want)
	}
	c.Count(7)
}

// checkFieldSpec checks all ways to parse one specification.
func checkFieldSpec(c *mc.Ctx, s string) {
	r, ok, sure := fieldSpec(s)
	c.Op("specification %q: %+v %v", s, r, ok)
	if !sure { // an alias with a dot: may be refused, but never taken apart
		c.Tag("dotted alias")
		d, err := query.FieldOrError(s)
		c.Count(1)
		switch {
		case err == nil:
			sameDef(c, fmt.Sprintf("FieldOrError(%q)", s), *d, r)
		case !errors.Is(err, query.Error):
			c.Failf("FieldOrError(%q): %v does not wrap query.Error", s, err)
		}
		if (panics(func() { query.Field(s) }) == nil) != (err == nil) {
			c.Failf("Field(%q) and FieldOrError do not agree: %v", s, err)
		}
		return
	}
	a, errA := query.FieldOrError(s)
	b, errB := query.FieldOrError(query.FieldName(s))
	pa := panics(func() { query.Field(s) })
	pb := panics(func() { query.Field(query.FieldName(s)) })
	pc := panics(func() { query.FieldName(s).Field() })
	pd := panics(func() { query.NewFields(s) })
	c.Count(6)
	if !ok {
		c.Tag("rejected")
		for _, err := range []error{errA, errB} {
			if err == nil {
				c.Failf("FieldOrError(%q) accepts it: %+v", s, a)
			}
			if !errors.Is(err, query.Error) {
				c.Failf("FieldOrError(%q): %v does not wrap query.Error", s, err)
			}
		}
		if a != nil || b != nil {
			c.Failf("FieldOrError(%q) returns a definition with an error", s)
		}
		if pa == nil || pb == nil || pc == nil || pd == nil {
			c.Failf("Field(%q) does not panic", s)
		}
		c.State("rejected", s)
		return
	}
	c.Tag("accepted")
	if errA != nil || errB != nil {
		c.Failf("FieldOrError(%q): %v %v", s, errA, errB)
	}
	if pa != nil || pb != nil || pc != nil || pd != nil {
		c.Failf("Field(%q) panics: %v %v %v %v", s, pa, pb, pc, pd)
	}
	sameDef(c, fmt.Sprintf("FieldOrError(%q)", s), *a, r)
	sameDef(c, fmt.Sprintf("FieldOrError(FieldName(%q))", s), *b, r)
	sameDef(c, fmt.Sprintf("Field(%q)", s), query.Field(s), r)
	sameDef(c, fmt.Sprintf("Field(FieldName(%q))", s), query.Field(query.FieldName(s)), r)
	sameDef(c, fmt.Sprintf("FieldName(%q).Field()", s), query.FieldName(s).Field(), r)
	sameDef(c, fmt.Sprintf("NewFields(%q)", s), query.NewFields(s).FieldDefinitions()[0], r)
	c.State(r.Table, r.Name, r.Alias)
}

var spaces = []string{" ", "\t", "\n", "\r", "\v", "\f", "\u0085", "\u00a0", "\u1680", "\u2003", "\u2028", "\u2029", "\u202f", "\u205f", "\u3000", "  ", " \t\n"}

func init() {
	mc.Register(&mc.Property{
		ID: "C11",
		Assumptions: []string{
			"whitespace is what unicode.IsSpace says; a name or table is any non-empty text without whitespace and dots; an alias with a dot may be refused, but is never taken apart",
			"an alias equal to the name of an unqualified field may be kept or dropped",
		},
		Families: []mc.Family{
			{Name: "texts", Quick: []int{0, 1, 2, 3, 4, 5, 6}, Thorough: []int{0, 1, 2, 3, 4, 5, 6, 7},
				Doc: "every text of exactly <bound> pieces out of a, b1, dot, space, tab, as, AS, aS, asc through FieldOrError, Field, FieldName.Field and NewFields, as string and FieldName",
				Body: func(c *mc.Ctx) {
					pieces := []string{"a", "b1", ".", " ", "\t", "as", "AS", "aS", "asc"}
					s := ""
					for i := 0; i < c.Bound; i++ {
						s += pieces[c.Choose(len(pieces))]
					}
					checkFieldSpec(c, s)
				}},
			{Name: "characters", Quick: []int{1, 2, 3}, Thorough: []int{1, 2, 3, 4},
				Doc: "every text of exactly <bound> characters out of 17 kinds of whitespace, dot, a letter, a multi-byte letter, quotes, comma, brackets, $ and NUL",
				Body: func(c *mc.Ctx) {
					chars := append(append([]string{}, spaces[:15]...), ".", "x", "я", "'", "\"", ",", "(", "$", "\x00", "*", "-", "\u200b", "\ufeff")
					s := ""
					for i := 0; i < c.Bound; i++ {
						s += chars[c.Choose(len(chars))]
					}
					checkFieldSpec(c, s)
				}},
			{Name: "shapes", Quick: []int{0}, Thorough: []int{1},
				Doc: "specifications put together out of: leading whitespace, table (absent, plain, as, unicode), dots (0..2), name (absent, plain, as, AS), whitespace of each kind, the word as in every letter case and near misses, whitespace, alias (absent, plain, equal to name or table, as), trailing whitespace or further words",
				Body: func(c *mc.Ctx) {
					ws := spaces
					if c.Bound == 0 {
						ws = []string{" ", "\t", "\n", "\u00a0", "\u3000", " \t\n"}
					}
					s := pick(c, "", " ", "\t\n")
					s += pick(c, "", "t", "as", "таб", "T_1")
					s += pick(c, "", ".", "..")
					s += pick(c, "", "n", "as", "AS", "n'x")
					if c.Bool() {
						w := ws[c.Choose(len(ws))]
						s += w + pick(c, "as", "AS", "As", "aS", "a", "ass", "A S", "is", "") + pick(c, w, "", " ")
						s += pick(c, "", "z", "n", "t", "as", "AS")
					}
					s += pick(c, "", " ", "\n\t", " more", ".")
					checkFieldSpec(c, s)
				}},
			{Name: "definitions", Quick: []int{0, 1, 2, 3}, Thorough: []int{0, 1, 2, 3, 4, 5},
				Doc: "every sequence of exactly <bound> Of and As calls with empty, plain, equal and other names on every shape of definition; each gives exactly the parts of the last calls, the original stays; a definition given to FieldOrError and Field comes back unchanged",
				Body: func(c *mc.Ctx) {
					r := refs[c.Choose(len(refs))]
					d := query.Field(r.Spec())
					for i := 0; i < c.Bound; i++ {
						before := d
						rb := r
						v := pick(c, "", "t", "f", "a", "other", "ff", "tt")
						if c.Bool() {
							d, r.Table = d.Of(query.TableName(v)), v
							c.Op("Of(%q)", v)
						} else {
							d, r.Alias = d.As(query.FieldName(v)), v
							c.Op("As(%q)", v)
						}
						sameDef(c, "original", before, rb)
					}
					sameDef(c, "definition", d, r)
					p, err := query.FieldOrError(d)
					if err != nil {
						c.Failf("FieldOrError(definition): %v", err)
					}
					sameDef(c, "FieldOrError(definition)", *p, r)
					sameDef(c, "Field(definition)", query.Field(d), r)
					*p = p.As("changed").Of("changed")
					sameDef(c, "definition after its parsed copy changed", d, r)
					if r.Table != "" {
						sameDef(c, "TableName.Field", query.TableName(r.Table).Field(query.FieldName(r.Name)).As(query.FieldName(r.Alias)), r)
					}
					// what SQL is made of it
					st := build(c, "select", query.SelectFrom("t").Fields(d))
					want := items([]ref{r})[0]
					it := st.Items[0]
					if it.Alias == it.Ref {
						it.Alias = ""
					}
					if it != want {
						c.Failf("selected as %v, expected %v", st.Items, want)
					}
					x := query.EqualTo("f", 1).ApplyFieldSpec(d)
					if r.Name == "f" {
						e, _, err := sqlx.ParseCond(x.RenderSQL(), x.Values(), 0, true)
						if err != nil || e.Key() != sqlx.Cmp(r.String(), "=", 1).Key() {
							c.Failf("condition on it is %q, expected a comparison of %s", x.RenderSQL(), r)
						}
					}
					c.State(r.Table, r.Name, r.Alias)
				}},
		},
	})
}
