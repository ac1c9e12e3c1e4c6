package props

import (
	"fmt"
	"strings"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

// refs are field definitions of every shape.
var refs = []ref{
	{Name: "f"}, {Table: "t", Name: "f"}, {Name: "f", Alias: "a"}, {Table: "t", Name: "f", Alias: "a"},
	{Name: "f", Alias: "f"}, {Table: "t", Name: "f", Alias: "f"}, {Table: "f", Name: "f"}, {Table: "as", Name: "x", Alias: "x1"}, {Name: "F_long2", Alias: "f"}, {Table: "T", Name: "a", Alias: "T"},
}

// starts are counts of parameters already present, around the changes of digits.
var starts = []int{0, 1, 7, 8, 9, 10, 98, 99, 100, 999}

// negations are the ways to negate or not.
var negations = []string{"", "Not", "Negate(true)", "Not,Negate(false)", "Not,Not", "Negate(false)", "Join(OR),Not"}

func applyNegation(x cond, how string) cond {
	switch how {
	case "Not":
		return model.Not(x)
	case "Negate(true)":
		return model.Negate(x, true)
	case "Not,Negate(false)":
		return model.Negate(model.Not(x), false)
	case "Not,Not":
		return model.Not(model.Not(x))
	case "Negate(false)":
		return model.Negate(x, false)
	case "Join(OR),Not":
		return model.Not(model.Join(x, or))
	}
	return x
}

// textValues are values for Contains.
var textValues = []string{"x", "", "%", "a b", "_", "O'Brien", "$1", "?", "%%", "日本", "\\", "a%b"}

// chooseLeaf chooses a comparison with a value fit for it.
func chooseLeaf(c *mc.Ctx, r ref) cond {
	op := model.Ops[c.Choose(len(model.Ops))]
	method := model.HasMethod[op] && c.Bool()
	switch op {
	case "LIKE", "ILIKE":
		v := textValues[c.Choose(len(textValues))]
		return model.NewLeaf(op, r, v, []any{"%" + v + "%"}, method)
	case "IN":
		vs := append(append([]model.Value{}, model.Lists...), model.Singles...)
		v := vs[c.Choose(len(vs))]
		if v.Fails {
			c.Skip()
		}
		return model.NewLeaf(op, r, v.V, v.List, method)
	case "IS NULL":
		return model.NewLeaf(op, r, nil, nil, method)
	}
	v := model.Singles[c.Choose(len(model.Singles))]
	if v.Fails {
		c.Skip()
	}
	return model.NewLeaf(op, r, v.V, v.Single, method)
}

func init() {
	mc.Register(&mc.Property{
		ID: "C02",
		Assumptions: []string{
			"an alias equal to the field name counts as no alias (documented)",
			"f IN () over an empty list may be rendered as any expression that is false for every row, its negation as one that is true",
			"<= may be rendered as the negation of > and so on: the same under three-valued logic",
		},
		Families: []mc.Family{
			{Name: "every-leaf", Quick: []int{2}, Thorough: []int{0},
				Doc: "every comparison (functions and FieldName methods) x every shape of field definition (10) x every value of the alphabet (about 60 single values, 45 lists, 12 texts) x 7 ways of negating or not, rendered with ? and with numbers from 0, 9 and 99 (bound 2) or from ten start counts (bound 0), and as the filter of select, update and delete",
				Body: func(c *mc.Ctx) {
					r := refs[c.Choose(len(refs))]
					x := chooseLeaf(c, r)
					c.Op("%s", x.Desc)
					x = applyNegation(x, negations[c.Choose(len(negations))])
					c.Op("%s", x.Desc)
					ss := starts
					if c.Bound > 0 {
						ss = []int{0, 9, 99}
					}
					for _, s := range ss {
						vals := x.Real.Values()
						sql := x.Real.Render(s)
						e, ph, err := sqlx.ParseCond(sql, vals, s, false)
						if err == nil {
							err = sqlx.Consecutive(ph, s)
						}
						if err != nil {
							c.Failf("%s rendered from %d is %q with %v: %v", x.Desc, s, sql, vals, err)
						}
						c.Logf("  Render(%d) = %q", s, sql)
						sameFilter(c, x.Desc, e, x.N)
					}
					e, _, err := sqlx.ParseCond(x.Real.RenderSQL(), x.Real.Values(), 0, true)
					if err != nil {
						c.Failf("%s rendered as %q: %v", x.Desc, x.Real.RenderSQL(), err)
					}
					c.Logf("  RenderSQL() = %q", x.Real.RenderSQL())
					sameFilter(c, x.Desc, e, x.N)
					c.Count(len(ss) + 1)
					sameFilter(c, "delete", build(c, "delete", query.Delete("t").Where(x.Real)).Where, x.N)
					c.Tag(x.N.Leaf.Op)
					c.State(x.Real.RenderSQL(), fmt.Sprintf("%T", firstOf(x.N.Leaf.Params)))
				}},
			{Name: "among-others", Quick: []int{1}, Thorough: []int{2},
				Doc: "every comparison x field shape x negated or not, between <bound> other conditions on each side, ANDed or ORed, as the filter of select, count, update and delete",
				Body: func(c *mc.Ctx) {
					r := refs[c.Choose(len(refs))]
					op := model.Ops[c.Choose(len(model.Ops))]
					x := model.Simple(op, r, 77)
					if c.Bool() {
						x = model.Not(x)
					}
					n := &namer{}
					var pre, post []cond
					for i := 0; i < c.Bound; i++ {
						pre = append(pre, n.op(pick(c, "=", "IN", "IS NULL")))
						post = append(post, n.op(pick(c, "=", "LIKE")))
					}
					j := pick(c, and, or)
					g := model.NewGroup(j, append(append(pre, x), post...)...)
					c.Op("%s", g.Desc)
					meansEverywhere(c, g)
				}},
			{Name: "sizes", Quick: []int{70}, Thorough: []int{300},
				Doc: "every comparison over names of every length and lists and texts of every size 0..<bound>, numbers around powers of two and ten beyond, and names that resemble keywords",
				Body: func(c *mc.Ctx) {
					op := model.Ops[c.Choose(len(model.Ops))]
					r := ref{Name: "f"}
					var x cond
					switch c.Choose(3) {
					case 0:
						r.Name = strings.Repeat("n", 1+size(c, c.Bound, 1025))
						if c.Bool() {
							r.Table = "t" + r.Name
						}
						x = model.Simple(op, r, 7)
					case 1:
						k := size(c, c.Bound, 1025)
						switch op {
						case "IN":
							vs := make([]any, k)
							for i := range vs {
								vs[i] = i
							}
							x = model.NewLeaf(op, r, vs, vs, c.Bool())
						case "LIKE", "ILIKE":
							v := strings.Repeat("x", k)
							x = model.NewLeaf(op, r, v, []any{"%" + v + "%"}, c.Bool())
						case "=":
							v := strings.Repeat("x", k)
							x = model.NewLeaf(op, r, v, []any{v}, c.Bool())
						default:
							c.Skip()
						}
					case 2:
						r.Name = plainNames[c.Choose(len(plainNames))]
						switch c.Choose(4) {
						case 1:
							r.Table = plainNames[c.Choose(len(plainNames))]
						case 2:
							r.Alias = plainNames[c.Choose(len(plainNames))]
						case 3:
							r.Table, r.Alias = r.Name, r.Name
						}
						x = model.Simple(op, r, 7)
					}
					if c.Bool() {
						x = model.Not(x)
					}
					c.Op("%s", x.Desc)
					meansEverywhere(c, x)
				}},
		},
	})
}

func firstOf(xs []any) any {
	if len(xs) == 0 {
		return nil
	}
	return xs[0]
}
