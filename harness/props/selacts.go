package props

import (
	"fmt"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

// tables are table definitions of every shape.
func someTables() []query.TableIdent {
	return []query.TableIdent{query.Table("t"), query.Table("t").As("x"), query.Table("users AS u"), query.Table("s.t").As("x")}
}

var fieldLists = [][]ref{
	{{Name: "a"}},
	{},
	{{Name: "b"}, {Table: "t", Name: "a", Alias: "z"}, {Name: "b"}},
	{{Table: "t", Name: "c"}, {Name: "d", Alias: "e"}, {Name: "g", Alias: "g"}, {Table: "t", Name: "h", Alias: "h"}},
}

// whereArgs chooses the conditions of one Where call.
func whereArgs(c *mc.Ctx, n *namer) []cond {
	switch c.Choose(7) {
	case 0:
		return []cond{n.eq()}
	case 1:
		return nil
	case 2:
		return []cond{n.eq(), n.op("IN")}
	case 3:
		return []cond{model.NewGroup(or, n.eq(), n.op("IS NULL"))}
	case 4:
		return []cond{model.Not(n.eq())}
	case 5:
		return []cond{model.NewGroup(and)}
	}
	x, _ := model.Combine(model.Method, or, n.eq(), n.eq())
	return []cond{x}
}

// act applies one action of the whole alphabet to a select.
func act(c *mc.Ctx, x sel, n *namer, step int) sel {
	var y sel
	switch c.Choose(9) {
	case 0:
		y = x.Fields(fieldLists[c.Choose(len(fieldLists))]...)
	case 1:
		y = x.Where(whereArgs(c, n)...)
	case 2:
		jt := pick(c, query.Table(fmt.Sprintf("j%d", step)), query.Table(fmt.Sprintf("j%d", step)).As(query.TableName(fmt.Sprintf("k%d", step))))
		k := c.Choose(4)
		y = x.Join(jt, k, step%2 == 0, ref{Table: "t", Name: fmt.Sprintf("id%d", step)}, ref{Table: fmt.Sprintf("j%d", step), Name: "rid"})
	case 3:
		y = x.OrderBy(pick(c, []sqlx.Term{{Ref: fmt.Sprintf("o%d", step), Dir: "DESC"}}, []sqlx.Term{{Ref: "p", Dir: "ASC"}, {Ref: fmt.Sprintf("t.q%d", step), Dir: "DESC"}}, nil)...)
	case 4:
		y = x.Offset(pick(c, uint(step*10+3), 0))
	case 5:
		y = x.Limit(pick(c, step*10+4, 0, -1))
	default:
		y = x.Convert(conversions[c.Choose(len(conversions))])
	case 6:
		switch x.kind { // appended one by one
		case kBase:
			y = x.Where(n.eq()).Where(n.op("LIKE"))
		default:
			y = x.OrderBy(sqlx.Term{Ref: "m", Dir: "ASC"}).OrderBy(sqlx.Term{Ref: "n", Dir: "DESC"})
		}
	case 7:
		y = x.Offset(uint(step) + 1).Limit(step + 2)
	}
	c.Op("%s", y.desc)
	return y
}

func anySel(c *mc.Ctx) sel {
	ts := someTables()
	return newSel(pick(c, kBase, kMany, kSingle), ts[c.Choose(len(ts))])
}

// rendersAgree is property C04 for one object; normalized texts are compared.
func rendersAgree(c *mc.Ctx, what string, r renderer, ss []int) {
	anon, err := sqlx.Normalize(r.RenderSQL(), false)
	if err != nil {
		c.Failf("%s: RenderSQL %q: %v", what, r.RenderSQL(), err)
	}
	vals := r.Values()
	for _, s := range ss {
		num, err := sqlx.Normalize(r.Render(s), true)
		if err != nil {
			c.Failf("%s: Render(%d) %q: %v", what, s, r.Render(s), err)
		}
		if num != anon {
			c.Failf("%s: Render(%d) gives %q but RenderSQL %q", what, s, r.Render(s), r.RenderSQL())
		}
		if got := r.Values(); !model.SameAll(got, vals) {
			c.Failf("%s: Values() give %v, then %v", what, vals, got)
		}
		toks, _ := sqlx.Tokens(r.Render(s))
		var ph []string
		for _, t := range toks {
			if t.T == "ph" {
				ph = append(ph, t.S)
			}
		}
		if len(ph) != len(vals) {
			c.Failf("%s: Render(%d) %q has %d placeholders for %d values %v", what, s, r.Render(s), len(ph), len(vals), vals)
		}
		for i, p := range ph {
			if p != fmt.Sprintf("$%d", s+i+1) {
				c.Failf("%s: Render(%d) is %q: placeholder %d is %s", what, s, r.Render(s), i+1, p)
			}
		}
	}
	c.Count(2 * len(ss))
	c.Logf("  RenderSQL() = %q", r.RenderSQL())
}

// buildAgrees: the built statement is Render(0) with Values.
func buildAgrees(c *mc.Ctx, what string, r interface {
	renderer
	builder
}) {
	sql, params, err := r.BuildQueryAndParams()
	if err != nil {
		c.Failf("%s: %v", what, err)
	}
	a, err1 := sqlx.Normalize(sql, false)
	b, err2 := sqlx.Normalize(r.Render(0), false)
	if err1 != nil || err2 != nil || a != b {
		c.Failf("%s: built %q, Render(0) gives %q", what, sql, r.Render(0))
	}
	if !model.SameAll(params, r.Values()) {
		c.Failf("%s: built with %v, Values() give %v", what, params, r.Values())
	}
	c.Count(3)
}
