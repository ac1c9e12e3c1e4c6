package props

import (
	"errors"
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/amarin/query"

	"verif/harness/mc"
)

// spaceRunes is the White_Space property of Unicode.
func isSpaceRune(r rune) bool {
	switch {
	case r >= 0x09 && r <= 0x0D, r == 0x20, r == 0x85, r == 0xA0, r == 0x1680, r >= 0x2000 && r <= 0x200A,
		r == 0x2028, r == 0x2029, r == 0x202F, r == 0x205F, r == 0x3000:
		return true
	}
	return false
}

// mustReject tells that the name has to be refused.
func mustReject(s string) bool {
	if s == "" || strings.ContainsAny(s, `'"`) || strings.HasPrefix(s, ".") || strings.HasSuffix(s, ".") || strings.Count(s, ".") > 1 {
		return true
	}
	for _, r := range s {
		if isSpaceRune(r) {
			return true
		}
	}
	return false
}

// mustAccept tells that the name is a plain one: letters, digits and underscores, with one dot inside at most.
func mustAccept(s string) bool {
	if mustReject(s) || !utf8.ValidString(s) {
		return false
	}
	for _, r := range s {
		if r != '.' && r != '_' && !unicode.IsLetter(r) && !unicode.IsDigit(r) {
			return false
		}
	}
	return true
}

// checkName checks everything said of one name; full uses it in every constructor.
func checkName(c *mc.Ctx, s string, full bool) {
	fn := query.FieldName(s)
	err := fn.Validate()
	c.Count(1)
	if err != nil && !errors.Is(err, query.Error) {
		c.Failf("Validate(%q): the error %v does not wrap query.Error", s, err)
	}
	if err == nil && mustReject(s) {
		c.Failf("Validate(%q) accepts it", s)
	}
	if err != nil && mustAccept(s) {
		c.Failf("Validate(%q): %v", s, err)
	}
	// ordering
	for _, o := range []struct {
		name, dir string
		f         func() query.FieldSorting
	}{
		{"ASC", "ASC", func() query.FieldSorting { return query.ASC(fn) }},
		{"DESC", "DESC", func() query.FieldSorting { return query.DESC(fn) }},
		{"OrderBy", "ASC", func() query.FieldSorting { return query.OrderBy(fn) }},
		{"OrderBy ASC", "ASC", func() query.FieldSorting { return query.OrderBy(fn, query.Ascending) }},
		{"OrderBy DESC", "DESC", func() query.FieldSorting { return query.OrderBy(fn, query.Descending) }},
	} {
		var got query.FieldSorting
		p := panics(func() { got = o.f() })
		c.Count(1)
		if (p != nil) != (err != nil) {
			c.Failf("%s(%q): panic %v, Validate gives %v", o.name, s, p, err)
		}
		if p != nil {
			continue
		}
		if got.Render() != s+" "+o.dir || string(got.Direction()) != o.dir {
			c.Failf("%s(%q) renders %q with direction %q", o.name, s, got.Render(), got.Direction())
		}
		if full {
			sql, _, err := query.SelectManyFrom("t").OrderBy(got).BuildQueryAndParams()
			if err != nil || sql != "SELECT * FROM t ORDER BY "+s+" "+o.dir {
				c.Failf("a select ordered by %s(%q) builds %q, %v", o.name, s, sql, err)
			}
		}
	}
	if err != nil {
		c.Tag("rejected")
		return
	}
	c.Tag("accepted")
	verbatim := func(what string, want string, f func() string) {
		var got string
		p := panics(func() { got = f() })
		c.Count(1)
		if p != nil {
			c.Failf("%s with %q, which Validate accepts: panic %v", what, s, p)
		}
		if got != want {
			c.Failf("%s with %q: %q, expected %q", what, s, got, want)
		}
	}
	verbatim("Field", s, func() string { return query.Field(s).RenderField() })
	verbatim("Value", s, func() string { return fn.Value(1).RenderSpec() })
	if !full {
		return
	}
	verbatim("Field spec", s, func() string { return query.Field(fn).RenderSpec() })
	verbatim("FieldName.Field", s, func() string { return fn.Field().RenderField() })
	verbatim("FieldOrError", s, func() string {
		f, err := query.FieldOrError(s)
		if err != nil {
			return "error: " + err.Error()
		}
		return f.RenderField()
	})
	verbatim("NewFieldValue", s, func() string { return query.NewFieldValue(fn, 1).RenderSpec() })
	verbatim("ValuesMap", s, func() string {
		vs, err := query.ValuesMap{s: 1}.FieldValues()
		if err != nil || len(vs) != 1 {
			return fmt.Sprint(vs, err)
		}
		return vs[0].RenderSpec()
	})
	name := s
	if i := strings.IndexByte(s, '.'); i >= 0 {
		name = s[i+1:]
	}
	for _, k := range []struct {
		name string
		f    func() query.Condition
	}{
		{"EqualTo", func() query.Condition { return query.EqualTo(fn, 1) }}, {"Less", func() query.Condition { return query.Less(fn, 1) }},
		{"LessOrEqual", func() query.Condition { return query.LessOrEqual(fn, 1) }}, {"GreaterThan", func() query.Condition { return query.GreaterThan(fn, 1) }},
		{"GreaterOrEqual", func() query.Condition { return query.GreaterOrEqual(fn, 1) }}, {"Contains", func() query.Condition { return query.Contains(fn, "x") }},
		{"IContains", func() query.Condition { return query.IContains(fn, "x") }}, {"In", func() query.Condition { return query.In(fn, []int{1, 2}) }},
		{"IsNull", func() query.Condition { return query.IsNull(fn) }}, {"EqualTo method", func() query.Condition { return fn.EqualTo(1) }},
		{"Contains method", func() query.Condition { return fn.Contains("x") }}, {"IContains method", func() query.Condition { return fn.IContains("x") }},
		{"In method", func() query.Condition { return fn.In(5) }}, {"IsNull method", func() query.Condition { return fn.IsNull() }},
	} {
		verbatim(k.name, s, func() string { // the field comes first, possibly inside a function or brackets
			x := k.f()
			for _, y := range []query.Condition{x, query.Not(x)} {
				for _, sql := range []string{y.RenderSQL(), y.Render(4)} {
					if !strings.Contains(sql, s) {
						return sql
					}
				}
			}
			if string(x.FieldName()) != name {
				return "field name " + string(x.FieldName())
			}
			return s
		})
	}
	verbatim("COUNT", "SELECT COUNT("+s+") FROM t", func() string {
		sql, _, err := query.Count(query.SelectFrom("t"), fn).BuildQueryAndParams()
		if err != nil {
			return err.Error()
		}
		return sql
	})
	verbatim("SELECT", "SELECT "+s+" FROM t", func() string {
		sql, _, err := query.SelectFrom("t").Fields(query.Field(fn)).BuildQueryAndParams()
		if err != nil {
			return err.Error()
		}
		return sql
	})
}

// trickyRunes are one of each kind of character that matters somewhere.
var trickyRunes = []string{"a", "B", ".", "_", "1", "'", `"`, " ", "\t", "\n", "\v", "\f", "\r", "\u0085", "\u00a0", "\u1680", "\u2003", "\u2028", "\u2029", "\u202f", "\u205f", "\u3000",
	"é", "日", "\xff", "\xa0", "\x85", "\u200b", "\ufeff", ";", ",", "(", ")", "-", "*", "$", "?", "`", "\x00", "\\", "%", "/", "[", "as", "AS"}

var fewRunes = []string{"a", ".", "_", "'", `"`, " ", "\t", "\u00a0", "日", "as"}

func init() {
	mc.Register(&mc.Property{
		ID:          "C17",
		Assumptions: []string{"whitespace is the White_Space property of Unicode", "names of other characters than letters, digits, underscores and one inner dot may be accepted or rejected, the same everywhere"},
		Families: []mc.Family{
			{Name: "short-names", Quick: []int{0, 1, 2, 3, 4}, Thorough: []int{0, 1, 2, 3, 4},
				Doc: "every name made of exactly <bound> pieces out of 45: letters, digits, dots, quotes, every kind of whitespace, punctuation, invalid UTF-8, the word as; Validate against ASC, DESC, OrderBy and every constructor (all of them up to two pieces, ordering, Field and Value beyond)",
				Body: func(c *mc.Ctx) {
					s := ""
					for i := 0; i < c.Bound; i++ {
						s += trickyRunes[c.Choose(len(trickyRunes))]
					}
					c.Op("name %q", s)
					checkName(c, s, c.Bound <= 2)
					c.State(s)
				}},
			{Name: "longer-names", Quick: []int{4, 5}, Thorough: []int{4, 5, 6},
				Doc: "every name made of exactly <bound> pieces out of ten",
				Body: func(c *mc.Ctx) {
					s := ""
					for i := 0; i < c.Bound; i++ {
						s += fewRunes[c.Choose(len(fewRunes))]
					}
					c.Op("name %q", s)
					checkName(c, s, c.Bound <= 4)
					c.State(s)
				}},
			{Name: "every-rune", Quick: []int{0}, Thorough: []int{0},
				Doc: "each of the 1,114,112 code points (in blocks of 256): alone, first, in the middle and last of a name (U+0000-33FF), in the middle only for the rest",
				Body: func(c *mc.Ctx) {
					hi := c.Choose(0x1100)
					for r := rune(hi << 8); r < rune(hi+1)<<8; r++ {
						if r >= 0xD800 && r < 0xE000 {
							continue
						}
						names := []string{"a" + string(r) + "b"}
						if r < 0x3400 {
							names = append(names, string(r), string(r)+"b", "a"+string(r), "a."+string(r), string(r)+".b")
						}
						for _, s := range names {
							if r < 0x3400 {
								checkName(c, s, r < 0x800)
							} else {
								err := query.FieldName(s).Validate()
								c.Count(1)
								if err != nil && (mustAccept(s) || !errors.Is(err, query.Error)) || err == nil && mustReject(s) {
									c.Failf("Validate(%q): %v", s, err)
								}
							}
						}
					}
				}},
			{Name: "directions", Quick: []int{0}, Thorough: []int{0},
				Doc: "every text of up to four letters out of A a S s C c D d E e and blanks, as a direction of OrderBy: only ASC and DESC are accepted; invalid names with valid directions and the other way round",
				Body: func(c *mc.Ctx) {
					letters := []string{"A", "S", "C", "D", "E", "a", "s", "c", "d", " "}
					d := ""
					for n := c.Choose(5); n > 0; n-- {
						d += letters[c.Choose(len(letters))]
					}
					name := pick(c, "f", "t.f", "f g")
					c.Op("OrderBy(%q, %q)", name, d)
					var got query.FieldSorting
					p := panics(func() { got = query.OrderBy(query.FieldName(name), query.SortDirection(d)) })
					if want := (d == "ASC" || d == "DESC") && name != "f g"; want != (p == nil) {
						c.Failf("OrderBy(%q, %q): panic %v", name, d, p)
					}
					if p == nil && got.Render() != name+" "+d {
						c.Failf("OrderBy(%q, %q) renders %q", name, d, got.Render())
					}
				}},
			{Name: "terms-in-selects", Quick: []int{0, 1, 2, 3}, Thorough: []int{0, 1, 2, 3, 4},
				Doc: "every sequence of <bound> sorting terms (field plain or of a table, ASC, DESC or default) given to selects of all kinds in one or several OrderBy calls: exactly these terms in this order",
				Body: func(c *mc.Ctx) {
					var fs []query.FieldSorting
					var want []string
					for i := 0; i < c.Bound; i++ {
						name := pick(c, "f", "t.f", "g", fmt.Sprintf("h%d", i))
						dir := "ASC"
						switch c.Choose(3) {
						case 0:
							fs = append(fs, query.ASC(query.FieldName(name)))
						case 1:
							fs = append(fs, query.DESC(query.FieldName(name)))
							dir = "DESC"
						case 2:
							fs = append(fs, query.OrderBy(query.FieldName(name)))
						}
						want = append(want, name+" "+dir)
					}
					b := newSel(pick(c, kBase, kMany, kSingle), query.Table("t"))
					var m query.SelectManyBuilder
					first := fs
					each := c.Bool()
					if each && len(fs) > 0 {
						first = fs[:1]
					}
					switch b.kind {
					case kBase:
						m = b.b.OrderBy(first...)
					case kMany:
						m = b.m.OrderBy(first...)
					case kSingle:
						m = b.s.OrderBy(first...)
					}
					if each && len(fs) > 0 {
						for _, f := range fs[1:] {
							m = m.OrderBy(f)
						}
					}
					c.Op("%s OrderBy %v", b.kind, want)
					st := build(c, "select", m)
					if len(st.Order) != len(want) {
						c.Failf("ordering %v, expected %v", st.Order, want)
					}
					for i, t := range st.Order {
						if t.Ref+" "+t.Dir != want[i] {
							c.Failf("ordering %v, expected %v", st.Order, want)
						}
					}
				}},
		},
	})
}
