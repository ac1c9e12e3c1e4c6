package props

import (
	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
)

// treeOpts is the alphabet of composition operations.
type treeOpts struct {
	forms   []int // how And/Or are written
	maxArgs int   // additional arguments of And/Or
	groups  int   // NewGroup takes up to this many members (-1: not used)
	unary   []string
	leaf    func(c *mc.Ctx) cond
	after   func(x cond) cond // applied to every composition made
}

// tree chooses any condition made with exactly n composition operations.
func tree(c *mc.Ctx, n int, o *treeOpts) cond {
	if n == 0 {
		return o.leaf(c)
	}
	x := composition(c, n, o)
	if o.after != nil {
		x = o.after(x)
	}
	return x
}

func composition(c *mc.Ctx, n int, o *treeOpts) cond {
	nu := len(o.unary)
	comb := len(o.forms) * 2 * o.maxArgs
	grp := 0
	if o.groups >= 0 {
		grp = 2 * (o.groups + 1)
	}
	k := c.Choose(nu + comb + grp)
	switch {
	case k < nu:
		x := tree(c, n-1, o)
		r, ok := unary(o.unary[k], x)
		if !ok {
			c.Skip()
		}
		c.Op("%s", r.Desc)
		return r
	case k < nu+comb:
		k -= nu
		op := []query.JoinType{and, or}[k%2]
		k /= 2
		form := o.forms[k%len(o.forms)]
		args := k/len(o.forms) + 1
		xs := forest(c, n-1, args+1, o)
		r, ok := model.Combine(form, op, xs[0], xs[1:]...)
		if !ok {
			c.Skip()
		}
		c.Op("%s", r.Desc)
		return r
	}
	k -= nu + comb
	op := []query.JoinType{and, or}[k%2]
	k /= 2
	if k == 0 && n > 1 {
		c.Skip()
	}
	r := model.NewGroup(op, forest(c, n-1, k, o)...)
	c.Op("%s", r.Desc)
	return r
}

// forest chooses k trees with n operations in total.
func forest(c *mc.Ctx, n, k int, o *treeOpts) []cond {
	out := make([]cond, 0, k)
	for i := 0; i < k; i++ {
		m := n
		if i < k-1 {
			m = c.Choose(n + 1)
		}
		out = append(out, tree(c, m, o))
		n -= m
	}
	return out
}

func unary(name string, x cond) (cond, bool) {
	switch name {
	case "Not":
		return model.Not(x), true
	case "Negate(false)":
		return model.Negate(x, false), true
	case "Negate(true)":
		return model.Negate(x, true), true
	case "Join(OR)":
		return model.Join(x, or), true
	case "Join(AND)":
		return model.Join(x, and), true
	case "Or()":
		r, ok := model.Combine(model.Func, or, x)
		return r, ok
	case "And()":
		r, ok := model.Combine(model.Func, and, x)
		return r, ok
	case "x.And()":
		r, ok := model.Combine(model.Method, and, x)
		return r, ok
	case "x.Or()":
		r, ok := model.Combine(model.Method, or, x)
		return r, ok
	case "WithBrackets":
		return model.Brackets(x)
	case "OR.Join":
		return model.JTJoin(or, x), true
	}
	panic(name)
}
