package props

import (
	"fmt"
	"math"
	"strings"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
)

var limits = []uint{0, 1, 2, 10, 1 << 31, math.MaxInt64, math.MaxUint64}

func checkLimiter(c *mc.Ctx, what string, l query.Limiter, offset, limit uint) {
	var vals []any
	var parts []string
	if offset > 0 {
		parts, vals = append(parts, "OFFSET"), append(vals, offset)
	}
	if limit > 0 {
		parts, vals = append(parts, "LIMIT"), append(vals, limit)
	}
	for _, s := range starts {
		var want []string
		for i, p := range parts {
			want = append(want, fmt.Sprintf("%s $%d", p, s+1+i))
		}
		if got := strings.Join(strings.Fields(l.Render(s)), " "); got != strings.Join(want, " ") {
			c.Failf("%s: Render(%d) is %q, expected %q", what, s, l.Render(s), strings.Join(want, " "))
		}
	}
	var want []string
	for _, p := range parts {
		want = append(want, p+" ?")
	}
	if got := strings.Join(strings.Fields(l.RenderSQL()), " "); got != strings.Join(want, " ") {
		c.Failf("%s: RenderSQL is %q, expected %q", what, l.RenderSQL(), strings.Join(want, " "))
	}
	got := l.Values()
	if !model.SameAll(got, vals) {
		c.Failf("%s: Values are %#v, expected %#v", what, got, vals)
	}
	poison(got, "poison")
	if got := l.Values(); !model.SameAll(got, vals) {
		c.Failf("%s: Values are %#v after the caller changed what they were", what, got)
	}
	c.Count(len(starts) + 3)
}

func init() {
	mc.Register(&mc.Property{
		ID:          "C21",
		Assumptions: []string{"amounts of blanks are not compared"},
		Families: []mc.Family{
			{Name: "sequences", Quick: []int{0, 1, 2, 3, 4, 5}, Thorough: []int{0, 1, 2, 3, 4, 5},
				Doc: "every sequence of exactly <bound> Offset/Limit calls with values 0, 1, 2, 10, 2^31, 2^63-1, 2^64-1, each on any limiter made so far; all limiters checked at ten start counts",
				Body: func(c *mc.Ctx) {
					type lim struct {
						l             query.Limiter
						offset, limit uint
						desc          string
					}
					all := []lim{{desc: "Limiter{}"}}
					for i := 0; i < c.Bound; i++ {
						x := all[len(all)-1]
						if c.Bound <= 3 {
							x = all[c.Choose(len(all))]
						}
						v := limits[c.Choose(len(limits))]
						if c.Bool() {
							x.l, x.offset, x.desc = x.l.Offset(v), v, fmt.Sprintf("%s.Offset(%d)", x.desc, v)
						} else {
							x.l, x.limit, x.desc = x.l.Limit(v), v, fmt.Sprintf("%s.Limit(%d)", x.desc, v)
						}
						c.Op("%s", x.desc)
						all = append(all, x)
					}
					for _, x := range all {
						checkLimiter(c, x.desc, x.l, x.offset, x.limit)
					}
					x := all[len(all)-1]
					c.State(fmt.Sprint(x.offset, x.limit))
					c.Tag(fmt.Sprintf("offset=%v limit=%v", x.offset > 0, x.limit > 0))
				}},
		},
	})
}
