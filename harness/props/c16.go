package props

import (
	"fmt"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

// namesakes are fields whose names are easily taken for one another.
var namesakes = []ref{
	{Name: "f"}, {Table: "t", Name: "f"}, {Name: "f", Alias: "a"}, {Table: "u", Name: "f", Alias: "a"},
	{Name: "F"}, {Name: "ff"}, {Name: "f1"}, {Table: "f", Name: "g"}, {Name: "g", Alias: "f"}, {Name: "a"},
}

// move is a re-qualification.
type move struct {
	table bool
	to    ref // only Table used when table is set
}

func (m move) String() string {
	if m.table {
		return fmt.Sprintf("ApplyFieldTable(%q)", m.to.Table)
	}
	return fmt.Sprintf("ApplyFieldSpec(%q)", m.to.Spec())
}

func (m move) ref(r ref) ref {
	switch {
	case m.table:
		r.Table = m.to.Table
	case r.Name == m.to.Name:
		r = m.to
	}
	return r
}

func (m move) leaf(l model.Leaf) model.Leaf {
	l.Ref = m.ref(l.Ref)
	return l
}

func (m move) cond(x cond) cond {
	y := cond{N: x.N.Map(m.leaf), J: x.J, Desc: x.Desc + "." + m.String()}
	if m.table {
		y.Real = x.Real.ApplyFieldTable(query.TableName(m.to.Table))
	} else {
		y.Real = x.Real.ApplyFieldSpec(definition(m.to))
	}
	return y
}

var moves = []move{
	{true, ref{Table: "m"}}, {false, ref{Name: "f", Table: "w"}}, {false, ref{Name: "f"}}, {false, ref{Name: "f", Alias: "z"}},
	{false, ref{Name: "f", Table: "w", Alias: "z"}}, {false, ref{Name: "F", Table: "w"}}, {false, ref{Name: "a", Table: "w"}}, {false, ref{Name: "g", Table: "w", Alias: "f"}},
	{true, ref{Table: "f"}}, {false, ref{Name: "nobody", Table: "w"}}, {true, ref{}},
	{false, ref{Name: "*", Table: "w"}}, {false, ref{Name: "*"}}, {false, ref{Table: "w"}}, {true, ref{Table: "s.t"}}, {false, ref{Name: "f", Table: "s.t", Alias: "f"}},
}

// moved re-qualifies a condition n times and checks everything after each.
func moved(c *mc.Ctx, x cond, n int) cond {
	for i := 0; i < n; i++ {
		before := snapshot(x.Real)
		y := moves[c.Choose(len(moves))].cond(x)
		c.Op("%s", y.Desc)
		if y.Real.IsNegate() != x.Real.IsNegate() || y.Real.JoinType() != x.Real.JoinType() {
			c.Failf("%s: negated %v joined %v, was %v %v", y.Desc, y.Real.IsNegate(), y.Real.JoinType(), x.Real.IsNegate(), x.Real.JoinType())
		}
		condMeans(c, y.Desc, y.Real, y.N, i)
		if !model.SameAll(y.Real.Values(), x.Real.Values()) {
			c.Failf("%s: values %v, were %v", y.Desc, y.Real.Values(), x.Real.Values())
		}
		if after := snapshot(x.Real); after != before {
			c.Failf("%s changed the original:\n   was %s\n   now %s", y.Desc, before, after)
		}
		x = y
	}
	c.State(x.Real.RenderSQL())
	return x
}

// refNamer gives leaves fields out of namesakes and distinct values.
type refNamer struct {
	n  int
	rs []ref
}

func (n *refNamer) leaf(c *mc.Ctx) cond {
	n.n++
	return model.Simple("=", n.rs[c.Choose(len(n.rs))], n.n)
}

func init() {
	three := []ref{{Table: "t", Name: "f"}, {Name: "ff", Alias: "f"}, {Name: "f", Alias: "a"}}
	mc.Register(&mc.Property{
		ID: "C16",
		Assumptions: []string{
			"names match exactly, letter case included; tables and aliases play no part in matching",
			"applying an empty table name removes the table",
		},
		Families: []mc.Family{
			{Name: "leaves", Quick: []int{1, 2}, Thorough: []int{1, 2, 3},
				Doc: "every comparison and every kind of external condition x ten field definitions with names alike (prefix, letter case, alias equal to a name, table equal to a name) x negated or not x every sequence of <bound> out of eleven ApplyFieldTable/ApplyFieldSpec calls",
				Body: func(c *mc.Ctx) {
					r := namesakes[c.Choose(len(namesakes))]
					var x cond
					switch k := c.Choose(len(model.Ops) + 3); {
					case k < len(model.Ops):
						x = model.Simple(model.Ops[k], r, 7)
					case k == len(model.Ops):
						x = model.NewCustom(model.CBetween, true, "", r, 1, 2)
					case k == len(model.Ops)+1:
						x = model.NewOwn("own", r, 1)
					default:
						x = model.NewCustom(model.CFunc, false, "cust", r, 1)
					}
					x = applyNegation(x, pick(c, "", "Not", "Join(OR),Not"))
					c.Op("%s", x.Desc)
					if x.Real.FieldName() != query.FieldName(r.Name) {
						c.Failf("%s: FieldName() is %q", x.Desc, x.Real.FieldName())
					}
					x = moved(c, x, c.Bound)
					if x.Real.FieldName() != query.FieldName(r.Name) {
						c.Failf("%s: FieldName() is %q", x.Desc, x.Real.FieldName())
					}
				}},
			{Name: "trees", Quick: []int{1, 2}, Thorough: []int{1, 2, 3},
				Doc: "every condition made with exactly <bound> operations (Not, And/Or methods and function, NewGroup of 0..2, WithBrackets, Join(OR)) over every choice of three fields, then one or two re-qualifications (one when <bound> is 2 or more), then And/Or with one more condition, or as the filter of a delete",
				Body: func(c *mc.Ctx) {
					n := &refNamer{rs: three}
					x := tree(c, c.Bound, &treeOpts{forms: []int{model.Method, model.Func}, maxArgs: 1, groups: 2,
						unary: []string{"Not", "WithBrackets", "Join(OR)"}, leaf: n.leaf})
					times := 1
					if c.Bound < 2 {
						times = 1 + c.Choose(2)
					}
					x = moved(c, x, times)
					if x.N.Empty() {
						c.Tag("empty")
						return
					}
					sameFilter(c, "delete", build(c, "delete", query.Delete("t").Where(x.Real)).Where, x.N)
					y, ok := model.Combine(model.Method, pick(c, and, or), x, model.Eq("more", 99))
					if ok {
						condMeans(c, y.Desc, y.Real, y.N, 0)
					}
				}},
			{Name: "nesting", Quick: []int{4}, Thorough: []int{7},
				Doc: "a condition wrapped in 0..<bound> layers, each an AND group, an OR group, a negated group, or brackets, with a namesake beside it in each layer; then one or two re-qualifications",
				Body: func(c *mc.Ctx) {
					x := model.Simple(pick(c, "=", "IN", "IS NULL"), three[c.Choose(3)], 1)
					for i, k := 0, c.Choose(c.Bound+1); i < k; i++ {
						side := model.Simple("=", three[i%3], 10+i)
						switch c.Choose(4) {
						case 0:
							x = model.NewGroup(and, x, side)
						case 1:
							x = model.NewGroup(or, side, x)
						case 2:
							x = model.Not(model.NewGroup(or, x, side))
						case 3:
							x, _ = model.Brackets(model.NewGroup(and, x))
						}
					}
					c.Op("%s", x.Desc)
					moved(c, x, 1+c.Choose(2))
				}},
			{Name: "where-clause", Quick: []int{1, 2}, Thorough: []int{1, 2, 3},
				Doc: "WhereClause built with <bound> GroupAND/GroupOR calls of one or two conditions, then one or two ApplyFieldSpec",
				Body: func(c *mc.Ctx) {
					n := &refNamer{rs: three}
					w := query.NewWhere()
					x := cond{Real: query.NewGroup(and), N: &model.Node{Op: and}, J: and}
					for i := 0; i < c.Bound; i++ {
						op := pick(c, and, or)
						ds := []cond{n.leaf(c)}
						if c.Bool() {
							ds = append(ds, n.leaf(c))
						}
						var ok bool
						if x, ok = model.Combine(model.GroupRaw, op, x, ds...); !ok {
							c.Skip()
						}
						if op == and {
							w = w.GroupAND(model.Reals(ds)...)
						} else {
							w = w.GroupOR(model.Reals(ds)...)
						}
					}
					c.Op("where %s", x.Desc)
					node := x.N
					condMeans(c, "where clause", w, node, 0)
					for i, k := 0, 1+c.Choose(2); i < k; i++ {
						m := moves[c.Choose(len(moves))]
						if m.table {
							c.Skip()
						}
						before := snapshot(w)
						v := w.ApplyFieldSpec(definition(m.to))
						c.Op("%s", m)
						node = node.Map(m.leaf)
						condMeans(c, "where clause "+m.String(), v, node, 0)
						if after := snapshot(w); after != before {
							c.Failf("%s changed the original where clause:\n   was %s\n   now %s", m, before, after)
						}
						w = v
					}
					c.State(w.RenderSQL())
				}},
			{Name: "sorting-and-values", Quick: []int{1, 2}, Thorough: []int{1, 2, 3},
				Doc: "sorting terms over each nameable field and direction, and field values over every field definition: every sequence of <bound> ApplyFieldSpec/ApplyFieldTable calls; used in a select's ORDER BY and an update's SET",
				Body: func(c *mc.Ctx) {
					if c.Bool() {
						r := pick(c, ref{Name: "f"}, ref{Table: "t", Name: "f"}, ref{Name: "F"}, ref{Name: "ff"}, ref{Table: "f", Name: "g"})
						dir := pick(c, "ASC", "DESC")
						s := query.OrderBy(query.FieldName(r.Spec()), query.SortDirection(dir))
						c.Op("OrderBy(%q, %s)", r.Spec(), dir)
						for i := 0; i < c.Bound; i++ {
							m := moves[c.Choose(len(moves))]
							if m.table {
								c.Skip()
							}
							before := s.Render()
							t := s.ApplyFieldSpec(definition(m.to))
							if s.Render() != before {
								c.Failf("%s changed the original sorting: %q, now %q", m, before, s.Render())
							}
							c.Op("%s", m)
							s, r = t, m.ref(r)
							if string(s.FieldName()) != r.Name || string(s.TableName()) != r.Table || string(s.Alias()) != r.Alias || string(s.Direction()) != dir {
								c.Failf("after %s the sorting is by %q of %q as %q %s, expected %v %s", m, s.FieldName(), s.TableName(), s.Alias(), s.Direction(), r, dir)
							}
						}
						st := build(c, "select", query.SelectManyFrom("t").OrderBy(s))
						want := sqlx.Term{Ref: r.String(), Dir: dir}
						if len(st.Order) != 1 || st.Order[0] != want {
							c.Failf("ordering is %v, expected %v", st.Order, want)
						}
						c.State("sort", r.Spec(), dir)
						return
					}
					r := namesakes[c.Choose(len(namesakes))]
					v := query.NewFieldValue(query.FieldName(r.Spec()), 5)
					c.Op("NewFieldValue(%q, 5)", r.Spec())
					fv := *v
					for i := 0; i < c.Bound; i++ {
						m := moves[c.Choose(len(moves))]
						before := fv.FieldDefinition.RenderSpec()
						var u query.FieldValue
						if m.table {
							u = fv.ApplyFieldTable(query.TableName(m.to.Table))
						} else {
							u = fv.ApplyFieldSpec(definition(m.to))
						}
						if fv.FieldDefinition.RenderSpec() != before {
							c.Failf("%s changed the original value: %q, now %q", m, before, fv.FieldDefinition.RenderSpec())
						}
						c.Op("%s", m)
						fv, r = u, m.ref(r)
						if string(fv.FieldName()) != r.Name || string(fv.TableName()) != r.Table || string(fv.Alias()) != r.Alias {
							c.Failf("after %s the value is of %q of %q as %q, expected %v", m, fv.FieldName(), fv.TableName(), fv.Alias(), r)
						}
						if !model.SameAll(fv.Values(), []any{5}) {
							c.Failf("after %s the values are %v", m, fv.Values())
						}
					}
					c.State("value", r.Spec())
				}},
		},
	})
}
