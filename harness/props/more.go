package props

import (
	"fmt"
	"reflect"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
)

// likeTexts are fields whose texts end or begin like each other.
var likeTexts = []ref{{Name: "b"}, {Name: "ab"}, {Table: "b", Name: "b"}, {Name: "b b"}, {Name: "bb"}, {Name: "b", Alias: "ab"}}

// likeCond chooses a condition whose text easily is a part of another one's.
func likeCond(c *mc.Ctx) cond {
	r := likeTexts[c.Choose(len(likeTexts))]
	if r.Name == "b b" {
		r = ref{Name: "b_b"}
	}
	var x cond
	switch c.Choose(5) {
	case 0:
		x = model.Simple("IS NULL", r, 0)
	case 1:
		x = model.NewCustom(model.CParen, false, "f", r)
	case 2:
		x = model.NewCustom(model.CFunc, true, "f", r)
	case 3:
		x = model.NewLeaf("IN", r, []string{}, nil, false)
	case 4:
		x = model.NewOwn("ff", r)
	}
	if c.Bool() {
		x = model.Not(x)
	}
	return x
}

// ownCopy copies a slice, so that what one execution does to it is not seen by the next one.
func ownCopy(v any) any {
	r := reflect.ValueOf(v)
	if v == nil || r.Kind() != reflect.Slice || r.IsNil() {
		return v
	}
	n := reflect.MakeSlice(r.Type(), r.Len(), r.Len())
	reflect.Copy(n, r)
	return n.Interface()
}

func init() {
	mc.Extend("C01", mc.Family{Name: "own-joins", Quick: []int{14}, Thorough: []int{40},
		Doc: "1..<bound> conditions (and numbers around powers of two and ten up to 130) added at once to an empty group by And, to no group by a where clause, and to a delete; all joined by one operator except none, one or two at every position (of more than 16 in quick: at eleven; pairs: neighbours and the last), the odd ones a leaf, a group or an external condition; then negated, put into a group, or extended by And or Or with one more",
		Body: func(c *mc.Ctx) {
			n := &namer{}
			k := size(c, c.Bound, 130)
			if k == 0 {
				c.Skip()
			}
			most, odd := or, and
			if c.Bool() {
				most, odd = and, or
			}
			p := k // none
			if k <= 16 || c.Tier == "thorough" {
				p = c.Choose(k + 1)
			} else {
				p = pick(c, 0, 1, 2, 7, 8, 9, 16, k/2, k-2, k-1, k)
			}
			q, kind := -1, 0
			if p < k {
				q = pick(c, -1, p+1, k-1)
				kind = c.Choose(3)
			}
			var xs []cond
			for i := 0; i < k; i++ {
				x := n.eq()
				j := most
				if i == p || i == q {
					j = odd
					switch kind {
					case 1:
						x = model.NewGroup(or, x, n.op("IN"))
					case 2:
						x = model.NewCustom(model.CFunc, false, "ext", ref{Name: fmt.Sprintf("e%d", i)}, i)
					}
				}
				xs = append(xs, model.Join(x, j))
			}
			c.Op("%d joined %s, %d and %d joined %s, kind %d", k, most, p, q, odd, kind)
			node := model.Where(nil, xs)
			var x cond
			switch c.Choose(3) {
			case 0: // a group
				x = cond{Real: query.NewGroup(and).And(model.Reals(xs)...), N: node, J: and, Desc: "group"}
			case 1: // a clause
				w := query.NewWhere().GroupAND(model.Reals(xs)...)
				condMeans(c, "where clause", w, node, 0)
				y := n.eq()
				condMeans(c, "where clause or one", w.GroupOR(y.Real), &model.Node{Op: or, Kids: []*model.Node{node, y.N}}, 3)
				condMeans(c, "where clause and one", w.GroupAND(y.Real), &model.Node{Op: and, Kids: []*model.Node{node, y.N}}, 3)
				c.State(fmt.Sprint("clause", k, p, q, kind))
				return
			case 2:
				d := query.Delete("t").Where(model.Reals(xs)...)
				sameFilter(c, "delete", build(c, "delete", d).Where, node)
				y := n.eq()
				sameFilter(c, "delete and one", build(c, "delete", d.Where(y.Real)).Where, model.Where(node, []cond{y}))
				c.State(fmt.Sprint("delete", k, p, q, kind))
				return
			}
			x.N = model.Observed(x.Real, x.N)
			condMeans(c, "group", x.Real, x.N, 0)
			y := n.eq()
			switch c.Choose(4) {
			case 0:
				x = model.Not(x)
			case 1:
				x = model.NewGroup(or, y, x)
			case 2:
				x, _ = model.Combine(model.Method, and, x, y)
			case 3:
				x, _ = model.Combine(model.Func, or, x, y)
			}
			condMeans(c, "then "+short(x.Desc), x.Real, x.N, 0)
			c.State(fmt.Sprint("group", k, p, q, kind))
		}})

	mc.Extend("C05", mc.Family{Name: "given-lists", Quick: []int{0}, Thorough: []int{0},
		Doc: "each list of the value alphabet in a condition (In as function and method, alone, negated, re-qualified, in a group, in builders): everything observed three times, the slices it returned overwritten after each; the caller's list as it was; an equal condition made before observed after",
		Body: func(c *mc.Ctx) {
			v := model.Lists[c.Choose(len(model.Lists))]
			v.V = ownCopy(v.V)
			before := fmt.Sprintf("%#v", v.V)
			x := query.In("f", v.V)
			if c.Bool() {
				x = query.FieldName("f").In(v.V)
			}
			twin := query.In("f", v.V)
			var o any = x
			what := c.Choose(9)
			switch what {
			case 1:
				o = query.Not(x)
			case 2:
				o = x.ApplyFieldTable("t")
			case 3:
				o = query.NewGroup(or, x, query.EqualTo("z", 1))
			case 4:
				o = query.NewGroup(and, x)
			case 5:
				o = query.Delete("t").Where(x)
			case 6:
				o = query.SelectFrom("t").Where(x, query.EqualTo("z", 1))
			case 7:
				o = query.Update("t").Set(query.FieldName("a").Value(1)).Where(x)
			case 8:
				o = query.NewWhere().GroupAND(x)
			}
			c.Op("In of %s, way %d", v.Name, what)
			first, ft := snapshot(o), snapshot(twin)
			for i := 0; i < 2; i++ {
				if s := snapshot(o); s != first {
					c.Failf("In of %s changed when slices it returned were overwritten:\n   was %s\n   now %s", v.Name, first, s)
				}
			}
			if s := snapshot(twin); s != ft {
				c.Failf("another In of %s changed when slices were overwritten:\n   was %s\n   now %s", v.Name, ft, s)
			}
			if after := fmt.Sprintf("%#v", v.V); after != before {
				c.Failf("the caller's list %s changed from %s to %s", v.Name, before, after)
			}
			c.Count(4)
			c.State(v.Name, fmt.Sprint(what))
		}},
		mc.Family{Name: "given-values", Quick: []int{0}, Thorough: []int{0},
			Doc: "each value of the alphabets (single and lists) as a value in a field value, an insert, an update, a comparison: everything observed three times, the slices it returned overwritten after each; the caller's value as it was",
			Body: func(c *mc.Ctx) {
				all := append(append([]model.Value{}, model.Singles...), model.Lists...)
				v := all[c.Choose(len(all))]
				v.V = ownCopy(v.V)
				if v.Fails {
					c.Skip()
				}
				before := fmt.Sprintf("%#v", v.V)
				fv := query.FieldName("f").Value(v.V)
				var o any
				what := c.Choose(5)
				switch what {
				case 0:
					o = query.InsertInto("t").Values(fv, query.FieldName("g").Value(1))
				case 1:
					o = query.Update("t").Set(fv).Where(query.IsNull("z"))
				case 2:
					o = query.EqualTo("f", v.V)
				case 3:
					o = query.NewGroup(or, query.Less("f", v.V), query.EqualTo("z", 1))
				case 4:
					read := func() string {
						vs := fv.Values()
						s := fmt.Sprintf("%#v", append([]any{}, vs...))
						poison(vs, "poison")
						return s
					}
					first := read()
					if s := read(); s != first {
						c.Failf("the values of %s were %s, now %s", v.Name, first, s)
					}
				}
				c.Op("%s, way %d", v.Name, what)
				if o != nil {
					var first string
					if p := panics(func() { first = snapshot(o) }); p != nil {
						c.Skip()
					}
					for i := 0; i < 2; i++ {
						if s := snapshot(o); s != first {
							c.Failf("a statement with %s changed when slices it returned were overwritten:\n   was %s\n   now %s", v.Name, first, s)
						}
					}
				}
				if after := fmt.Sprintf("%#v", v.V); after != before && reflect.TypeOf(v.V).Kind() != reflect.Func {
					c.Failf("the caller's value %s changed from %s to %s", v.Name, before, after)
				}
				c.Count(3)
				c.State(v.Name, fmt.Sprint(what))
			}})

	mc.Extend("C19", mc.Family{Name: "alike", Quick: []int{2}, Thorough: []int{2, 3},
		Doc: "groups and chains of <bound> conditions without parameters, built-in and external, whose texts are equal to, begin or end like one another's, each plain or negated, with one with a parameter between them or not",
		Body: func(c *mc.Ctx) {
			var xs []cond
			for i := 0; i < c.Bound; i++ {
				xs = append(xs, likeCond(c))
			}
			if at := c.Choose(c.Bound + 1); at < c.Bound { // one with a parameter
				xs = append(xs[:at:at], append([]cond{model.Eq("b", 5)}, xs[at:]...)...)
			}
			op := pick(c, and, or)
			var x cond
			if c.Bool() {
				x = model.NewGroup(op, xs...)
			} else {
				x = xs[0]
				for _, y := range xs[1:] {
					x, _ = model.Combine(model.Method, op, x, y)
				}
			}
			c.Op("%s", x.Desc)
			condMeans(c, x.Desc, x.Real, x.N, 4)
			rendersAgree(c, x.Desc, x.Real, []int{0, 9})
			st := stmtOK(c, "select", query.SelectFrom("t").Where(model.Eq("b", 6).Real, x.Real))
			sameFilter(c, "select where "+x.Desc, st.Where, model.Where(nil, []cond{model.Eq("b", 6), x}))
			c.State(x.Real.RenderSQL())
		}})
}
