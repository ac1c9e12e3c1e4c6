package props

import (
	"fmt"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/sqlx"
)

// Selects told the same thing again and again.

// again makes a select of <bound> steps out of two, all of one part.
func again(c *mc.Ctx) sel {
	x := newSel(pick(c, kBase, kMany, kSingle), query.Table(pick(c, "t", "t as u")))
	own := x.table.Alias
	if own == "" {
		own = x.table.Name
	}
	short := c.Bool()
	part := c.Choose(5)
	if part == 3 && x.kind != kMany {
		c.Skip()
	}
	n := &namer{}
	same := n.eq()
	some := c.Choose(2) // of conditions: both alike, or not
	x = x.Where(same)
	for i := 0; i < c.Bound; i++ {
		k := c.Choose(2)
		id := fmt.Sprint("j", k)
		switch part {
		case 0:
			x = x.Join(query.Table(id), 1, short, ref{Table: own, Name: "id"}, ref{Table: id, Name: "rid"})
		case 1: // another kind or other fields
			x = x.Join(query.Table("j"), 1+k*some, short, ref{Table: own, Name: "id"}, ref{Table: "j", Name: fmt.Sprint("rid", k*(1-some))})
		case 2:
			x = x.Fields(ref{Name: "a", Table: []string{"", own}[k*some], Alias: []string{"", "b"}[k*(1-some)]})
		case 3:
			x = x.OrderBy(sqlx.Term{Ref: fmt.Sprint("o", k*some), Dir: []string{"ASC", "DESC"}[k*(1-some)]})
		case 4:
			x = x.Where([]cond{same, n.eq()}[k*some])
		}
	}
	return x
}

func init() {
	quick, thorough := []int{1, 2, 3, 4, 5, 6}, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
	ext := func(id, doc string, check func(*mc.Ctx, sel)) {
		mc.Extend(id, mc.Family{Name: "again", Quick: quick, Thorough: thorough,
			Doc: "every sequence of exactly <bound> steps out of two that are the same or differ in one thing, on every kind of select with a filter: joins (of two tables, of two kinds, by two columns), fields, ordering terms, conditions; " + doc,
			Body: func(c *mc.Ctx) {
				x := again(c)
				check(c, x)
				c.State(x.key())
			}})
	}
	ext("C08", "the statement says each as often as told", func(c *mc.Ctx, x sel) { x.check(c) })
	ext("C13", "every join is there, in order", func(c *mc.Ctx, x sel) { x.check(c) })
	ext("C14", "the count and its source", func(c *mc.Ctx, x sel) {
		countOK(c, "count of "+x.desc, x.Count(), x, "*")
	})
	ext("C15", "converted, counted and turned into writes", func(c *mc.Ctx, x sel) { derived(c, x) })
}
