package props

import (
	"fmt"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/sqlx"
)

// paged sets both sides of a page in any order, with detours.
func paged(c *mc.Ctx, x sel, off uint, lim int) sel {
	switch c.Choose(6) {
	case 0:
		return x.Offset(off).Limit(lim)
	case 1:
		return x.Limit(lim).Offset(off)
	case 2: // first equal to the other side
		if lim < 0 {
			c.Skip()
		}
		return x.Offset(uint(lim)).Limit(lim).Offset(off)
	case 3:
		return x.Limit(int(off)).Offset(off).Limit(lim)
	case 4: // twice
		return x.Offset(off).Limit(lim).Offset(off).Limit(lim)
	}
	if lim < 0 {
		c.Skip()
	}
	return x.Offset(uint(lim)).Limit(int(off)).Limit(lim).Offset(off) // exchanged
}

func init() {
	const doc = "every offset 0..<bound> with every limit -1..<bound>, set in six orders"
	for _, id := range []string{"C03", "C04", "C08", "C14", "C15"} {
		mc.Extend(id, mc.Family{Name: "pages", Quick: []int{30}, Thorough: []int{130}, Doc: doc + ", on a page with or without a filter and ordering",
			Body: func(c *mc.Ctx) {
				n := &namer{}
				x := newSel(kMany, query.Table("t"))
				if c.Bool() {
					x = x.Where(n.op("IN"), n.eq()).OrderBy(sqlx.Term{Ref: "a", Dir: "DESC"})
				}
				off, lim := uint(c.Choose(c.Bound+1)), c.Choose(c.Bound+2)-1
				x = paged(c, x, off, lim)
				c.Op("%s", x.desc)
				switch id {
				case "C03":
					numbered(c, x)
				case "C04":
					rendersAgree(c, x.desc, x.is(), []int{0, 9})
					buildAgrees(c, x.desc, x.is())
				case "C08":
					x.check(c)
				case "C14":
					countOK(c, x.desc+".Count()", x.Count(), x, "*")
				case "C15":
					derived(c, x)
				}
				c.State(x.key())
			}})
	}
	mc.Extend("C21", mc.Family{Name: "pairs", Quick: []int{40}, Thorough: []int{300},
		Doc: "every offset 0..<bound> with every limit 0..<bound>, set in either order, once or twice: the limiter, and the last two clauses of a page rendered after 0, 1 and 9 parameters",
		Body: func(c *mc.Ctx) {
			off, lim := uint(c.Choose(c.Bound+1)), uint(c.Choose(c.Bound+1))
			l, s := query.Limiter{}, query.SelectManyFrom("t")
			o := func() { l, s = l.Offset(off), s.Offset(off) }
			m := func() { l, s = l.Limit(lim), s.Limit(int(lim)) }
			switch c.Choose(4) {
			case 0:
				o()
				m()
			case 1:
				m()
				o()
			case 2:
				o()
				m()
				o()
			case 3:
				m()
				o()
				m()
			}
			c.Op("offset %d limit %d", off, lim)
			checkLimiter(c, fmt.Sprintf("offset %d limit %d", off, lim), l, off, lim)
			rendersAgree(c, "page", s, []int{0, 1, 9})
			buildAgrees(c, "page", s)
			checkPaging(c, "page", build(c, "page", s), uint64(off), int64(lim))
			if vs := s.Values(); len(vs) != len(l.Values()) {
				c.Failf("offset %d limit %d: the page has the values %v, the limiter %v", off, lim, vs, l.Values())
			}
			c.State(fmt.Sprint(off, lim))
		}})
}
