package props

import (
	"strings"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
)

// flagOps set, clear and leave alone the negation and the join operator.
var flagOps = []string{"Not", "Negate(true)", "Negate(false)", "Join(OR)", "Join(AND)", "Or()", "And()", "OR.Join"}

// prefixes checks that the rendered forms of the flags say what the flags are.
func prefixes(c *mc.Ctx, x cond) {
	want := ""
	if x.Real.IsNegate() {
		want = "NOT"
	}
	if s := x.Real.RenderNegate(); s != want {
		c.Failf("%s: IsNegate() is %v and RenderNegate() gives %q", x.Desc, x.Real.IsNegate(), s)
	}
	if s := x.Real.RenderJoin(true); s != "" {
		c.Failf("%s: RenderJoin(true) gives %q", x.Desc, s)
	}
	if s := x.Real.RenderJoin(false); strings.TrimSpace(s) != string(x.Real.JoinType()) {
		c.Failf("%s: JoinType() is %q and RenderJoin(false) gives %q", x.Desc, x.Real.JoinType(), s)
	}
	c.Count(3)
}

// flags applies n flag operations to x, checking every object after each one.
func flags(c *mc.Ctx, x cond, n int) cond {
	neg := x.Real.IsNegate()
	if neg != x.N.Neg {
		c.Failf("%s: IsNegate() is %v, expected %v", x.Desc, neg, x.N.Neg)
	}
	if x.J != "" && x.Real.JoinType() != x.J {
		c.Failf("%s: JoinType() is %q, expected %q", x.Desc, x.Real.JoinType(), x.J)
	}
	prefixes(c, x)
	var olds []cond
	var snaps []string
	for i := 0; i < n; i++ {
		olds, snaps = append(olds, x), append(snaps, snapshot(x.Real))
		join := x.Real.JoinType()
		how := flagOps[c.Choose(len(flagOps))]
		y, ok := unary(how, x)
		if !ok {
			c.Skip()
		}
		c.Op("%s", y.Desc)
		switch how {
		case "Not", "Negate(true)":
			neg = true
		case "Negate(false)":
			neg = false
		case "Join(OR)", "OR.Join", "Or()":
			join = or
		default:
			join = and
		}
		if y.Real.IsNegate() != neg {
			c.Failf("%s: IsNegate() is %v, expected %v", y.Desc, y.Real.IsNegate(), neg)
		}
		if y.Real.JoinType() != join {
			c.Failf("%s: JoinType() is %q, expected %q", y.Desc, y.Real.JoinType(), join)
		}
		prefixes(c, y)
		condMeans(c, y.Desc, y.Real, y.N, 0)
		for k := range olds {
			if s := snapshot(olds[k].Real); s != snaps[k] {
				c.Failf("%s changed %s:\n   was %s\n   now %s", y.Desc, olds[k].Desc, snaps[k], s)
			}
		}
		x = y
	}
	c.State(x.Real.RenderSQL(), string(x.Real.JoinType()))
	return x
}

// used checks x among others: grouped and given to builders.
func used(c *mc.Ctx, x cond) {
	if x.N.Empty() {
		c.Tag("empty")
		return
	}
	p, q := model.Eq("p", 901), model.Eq("q", 902)
	for _, j := range []query.JoinType{and, or} {
		g := model.NewGroup(j, p, x, q)
		condMeans(c, g.Desc, g.Real, g.N, 0)
		a, _ := model.Combine(model.Method, j, x, p)
		condMeans(c, a.Desc, a.Real, a.N, 0)
		b, _ := model.Combine(model.Method, j, p, x)
		condMeans(c, b.Desc, b.Real, b.N, 0)
	}
	cs := []cond{p, x, q}
	sameFilter(c, "delete Where("+model.Descs(cs)+")", build(c, "delete", query.Delete("t").Where(model.Reals(cs)...)).Where, model.Where(nil, cs))
	sameFilter(c, "delete", build(c, "delete", query.Delete("t").Where(p.Real).Where(x.Real)).Where, model.Where(p.N, []cond{x}))
}

func init() {
	mc.Register(&mc.Property{
		ID:          "C18",
		Assumptions: []string{"the negation a combined condition (And/Or of several) starts with is not observed, only its meaning; from then on the flag is"},
		Families: []mc.Family{
			{Name: "leaves", Quick: []int{1, 2, 3}, Thorough: []int{1, 2, 3, 4},
				Doc: "every comparison (with In over an empty list) and external condition: every sequence of <bound> out of Not, Negate(true), Negate(false), Join(OR), Join(AND), Or(), And(), JoinType.Join; flags, meaning and all earlier objects checked after each; then used in groups and filters",
				Body: func(c *mc.Ctx) {
					var x cond
					r := ref{Table: "t", Name: "f"}
					switch k := c.Choose(len(model.Ops) + 6); {
					case k < len(model.Ops):
						x = model.Simple(model.Ops[k], r, 7)
					case k == len(model.Ops):
						x = model.NewLeaf("IN", r, []int{}, nil, false)
					case k < len(model.Ops)+4:
						x = model.NewCustom(k-len(model.Ops)-1, k%2 == 0, "cust", r, 1, 2)
					case k == len(model.Ops)+4:
						x = model.NewOwn("own", r, 1)
					default:
						x = model.NewCustom(model.CFunc, true, "flag", r)
					}
					used(c, flags(c, x, c.Bound))
				}},
			{Name: "composed", Quick: []int{1, 2, 3, 4}, Thorough: []int{1, 2, 3, 4},
				Doc: "every condition made with exactly 0..2 composition operations (And/Or method and function, GroupAND/GroupOR, NewGroup of 0..3, Not, brackets; one operation when <bound> is 3 or more): every sequence of <bound> flag operations, then used in groups and filters",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					ops := 1 + c.Choose(2)
					if c.Bound > 2 {
						ops = 1
					}
					x := tree(c, ops, &treeOpts{forms: []int{model.Method, model.Func, model.GroupRaw}, maxArgs: 1, groups: 3,
						unary: []string{"Not", "WithBrackets"}, leaf: func(*mc.Ctx) cond { return n.eq() }})
					x.N = model.Observed(x.Real, x.N)
					used(c, flags(c, x, c.Bound))
				}},
		},
	})
}
