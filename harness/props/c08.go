package props

import (
	"fmt"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/sqlx"
)

func init() {
	mc.Register(&mc.Property{
		ID:          "C08",
		Assumptions: []string{"a limit or offset of zero or less is none", "Many, Single, OrderBy, Offset and Limit of a base or single select start with no ordering, offset and limit of its own"},
		Families: []mc.Family{
			{Name: "histories", Quick: []int{0, 1, 2, 3}, Thorough: []int{0, 1, 2, 3, 4},
				Doc: "every sequence of exactly <bound> calls out of Fields (4 lists), Where (7 argument lists), Join (4 kinds, with and without alias), OrderBy (none, one, two terms), Offset, Limit (0 and negative included), and conversions (Many, Single, SelectManyFromBase, SelectSingleFromBase, the embedded base) on a base, many or single select of a table with or without alias; everything the SQL says compared with the model",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					x := anySel(c)
					for i := 0; i < c.Bound; i++ {
						x = act(c, x, n, i)
					}
					x.check(c)
					c.Tag(x.kind)
					c.State(x.key())
				}},
			{Name: "repeats", Quick: []int{1, 2, 3, 4, 5}, Thorough: []int{1, 2, 3, 4, 5, 6},
				Doc: "every sequence of exactly <bound> calls out of a small alphabet (set fields, set other fields, reset fields, add a condition, a join, an ordering term, terms that repeat with either direction, set and unset offset and limit, Single, Many)",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					x := newSel(pick(c, kBase, kMany, kSingle), query.Table("t"))
					for i := 0; i < c.Bound; i++ {
						switch c.Choose(13) {
						case 11: // the same term again and the other way round
							x = x.OrderBy(sqlx.Term{Ref: "p", Dir: []string{"ASC", "DESC"}[i%2]})
						case 12:
							x = x.OrderBy(sqlx.Term{Ref: "p", Dir: "DESC"}, sqlx.Term{Ref: "q", Dir: "ASC"}, sqlx.Term{Ref: "q", Dir: "DESC"})
						case 0:
							x = x.Fields(ref{Name: "a"}, ref{Name: "b"})
						case 1:
							x = x.Fields(ref{Name: fmt.Sprintf("c%d", i)})
						case 2:
							x = x.Fields()
						case 3:
							x = x.Where(n.eq())
						case 4:
							x = x.Join(query.Table(fmt.Sprintf("j%d", i)), i%4, false, ref{Table: "t", Name: "x"}, ref{Table: fmt.Sprintf("j%d", i), Name: "y"})
						case 5:
							x = x.OrderBy(sqlx.Term{Ref: fmt.Sprintf("o%d", i), Dir: []string{"ASC", "DESC"}[i%2]})
						case 6:
							x = x.Offset(uint(i * 7))
						case 7:
							x = x.Limit(i * 9)
						case 8:
							x = x.Limit(-1)
						case 9:
							x = x.Convert("Single")
						case 10:
							x = x.Convert("Many")
						}
						c.Op("%s", x.desc)
					}
					x.check(c)
					c.State(x.key())
				}},
			{Name: "fields", Quick: []int{1, 2}, Thorough: []int{1, 2, 3},
				Doc: "field lists of exactly <bound> fields out of 14 shapes (with table, alias, alias equal to the name, repeated) on every kind of select",
				Body: func(c *mc.Ctx) {
					shapes := append([]ref{{Name: "*"}, {Table: "t", Name: "*"}, {Name: "id"}, {Name: "id", Alias: "key"}}, refs...)
					var rs []ref
					for i := 0; i < c.Bound; i++ {
						rs = append(rs, shapes[c.Choose(len(shapes))])
					}
					x := newSel(pick(c, kBase, kMany, kSingle), query.Table("t")).Fields(rs...)
					c.Op("%s", x.desc)
					x.check(c)
					for _, list := range []string{query.NewFields().Fields(definitions(rs)...).FieldList(), query.NewFields(anys(rs)...).FieldList()} {
						st, err := sqlx.ParseStmt("SELECT "+list+" FROM t", nil, 0, false)
						if err != nil {
							c.Failf("FieldList() %q: %v", list, err)
						}
						y := x
						y.kind = kBase
						y.matches(c, "FieldList", st)
					}
					c.State(x.key())
				}},
			{Name: "limits", Quick: []int{0}, Thorough: []int{0},
				Doc: "every pair of two offsets and two limits out of the smallest and largest values, in every order of two calls",
				Body: func(c *mc.Ctx) {
					us := []uint{0, 1, 9, ^uint(0)}
					is := []int{-1, 0, 1, 9, int(^uint(0) >> 1), -int(^uint(0)>>1) - 1}
					x := newSel(pick(c, kBase, kMany, kSingle), query.Table("t"))
					for i := 0; i < 3; i++ {
						if c.Bool() {
							x = x.Offset(us[c.Choose(len(us))])
						} else {
							x = x.Limit(is[c.Choose(len(is))])
						}
						c.Op("%s", x.desc)
					}
					x.check(c)
					c.State(x.key())
				}},
			{Name: "sizes", Quick: []int{20}, Thorough: []int{70},
				Doc: bigSelDoc,
				Body: func(c *mc.Ctx) {
					x, _ := bigSel(c, c.Bound, big(c, 300, 1025))
					x.check(c)
					c.State(x.key())
				}},
			{Name: "names", Quick: []int{0}, Thorough: []int{0},
				Doc: namesDoc,
				Body: func(c *mc.Ctx) {
					x := namedSel(c)
					x.check(c)
					c.State(x.key())
				}},
		},
	})
}

// anys gives the fields to NewFields in turn as definitions, field names and strings.
func anys(rs []ref) []any {
	var out []any
	for i, r := range rs {
		switch i % 3 {
		case 0:
			out = append(out, r.Spec())
		case 1:
			out = append(out, query.FieldName(r.Spec()))
		default:
			out = append(out, definition(r))
		}
	}
	return out
}
