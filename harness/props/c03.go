package props

import (
	"fmt"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

// counted are conditions with different numbers of parameters.
func counted(c *mc.Ctx, n *namer) cond {
	n.n++
	i := n.n - 1
	r := ref{Name: fmt.Sprintf("f%d", i)}
	switch c.Choose(10) {
	case 0:
		return model.Simple("=", r, i)
	case 1:
		return model.Simple("IN", r, i) // two
	case 2:
		return model.Simple("IS NULL", r, i) // none
	case 3:
		return model.NewLeaf("IN", r, []int{}, nil, false) // none
	case 4:
		return model.NewLeaf("IN", r, []string{"p", "q", "r"}, []any{"p", "q", "r"}, false)
	case 5:
		return model.NewCustom(model.CText, false, "none", r)
	case 6:
		var ps []any
		for k := 0; k < 12; k++ {
			ps = append(ps, i*100+k)
		}
		return model.NewCustom(model.CFunc, false, "twelve", r, ps...)
	case 7:
		return model.NewCustom(model.CBetween, true, "", r, i, i+50)
	case 8:
		return model.NewGroup(and)
	}
	return model.Simple("ILIKE", r, i)
}

// consecutiveFrom checks placeholders of a rendered clause and its meaning.
func consecutiveFrom(c *mc.Ctx, what string, r renderer, want *model.Node, s int) {
	sql, vals := r.Render(s), r.Values()
	e, ph, err := sqlx.ParseCond(sql, vals, s, false)
	if err == nil {
		err = sqlx.Consecutive(ph, s)
	}
	if err != nil {
		c.Failf("%s rendered from %d is %q with %d values: %v", what, s, sql, len(vals), err)
	}
	c.Count(2)
	c.Logf("  Render(%d) = %q", s, sql)
	sameFilter(c, what, e, want)
}

// stmtOK builds, and checks placeholders to be 1..n in order.
func stmtOK(c *mc.Ctx, what string, b builder) *sqlx.Stmt {
	st := build(c, what, b)
	if err := sqlx.Consecutive(st.Placeholders, 0); err != nil {
		sql, _, _ := b.BuildQueryAndParams()
		c.Failf("%s: %q: %v", what, sql, err)
	}
	return st
}

func checkAssign(c *mc.Ctx, what string, got []sqlx.Assign, want []sqlx.Assign) {
	if len(got) != len(want) {
		c.Failf("%s: columns %v, expected %v", what, got, want)
	}
	for i := range got {
		if got[i].Col != want[i].Col || !model.Same(got[i].Val, want[i].Val) {
			c.Failf("%s: column %d is %s bound to %#v, expected %s bound to %#v", what, i+1, got[i].Col, got[i].Val, want[i].Col, want[i].Val)
		}
	}
}

func init() {
	mc.Register(&mc.Property{
		ID:          "C03",
		Assumptions: []string{"placeholder numbers are read by the tokenizer of harness/sqlx", "the number of OFFSET and LIMIT may be a parameter or a literal"},
		Families: []mc.Family{
			{Name: "clauses", Quick: []int{0, 1, 2}, Thorough: []int{0, 1, 2, 3},
				Doc: "every condition made with exactly <bound> operations (Not, And/Or methods with one more, NewGroup of 1..2) over leaves with 0, 1, 2, 3 and 12 parameters (built-in and external) and empty groups, rendered from 0, 1, 8, 9, 10, 98, 99, 100",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					x := tree(c, c.Bound, &treeOpts{forms: []int{model.Method}, maxArgs: 1, groups: 2, unary: []string{"Not"},
						leaf: func(c *mc.Ctx) cond { return counted(c, n) }})
					for _, s := range []int{0, 1, 8, 9, 10, 98, 99, 100} {
						consecutiveFrom(c, x.Desc, x.Real, x.N, s)
					}
					c.State(x.Real.Render(0))
				}},
			{Name: "statements", Quick: []int{1, 2, 3, 4}, Thorough: []int{1, 2, 3, 4},
				Doc: "statements of every kind (base, many, single select, count, update, delete) with <bound> conditions with 0..12 parameters added one per Where call, all at once, or ORed in a nested group; 1, 3 or 12 set values; all combinations of offset and limit; many-row selects also rendered from start counts 0, 9, 99",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					var cs []cond
					for i := 0; i < c.Bound; i++ {
						cs = append(cs, counted(c, n))
					}
					var filter *model.Node
					var add func(where func(...query.Condition))
					switch c.Choose(3) {
					case 0:
						for _, x := range cs {
							filter = model.Where(filter, []cond{x})
						}
						add = func(where func(...query.Condition)) {
							for _, x := range cs {
								where(x.Real)
							}
						}
					case 1:
						filter = model.Where(nil, cs)
						add = func(where func(...query.Condition)) { where(model.Reals(cs)...) }
					case 2:
						first := n.op("IN")
						g := model.NewGroup(or, append([]cond{model.NewGroup(and, cs...)}, n.eq())...)
						filter = model.Where(nil, []cond{first, g})
						add = func(where func(...query.Condition)) { where(first.Real, g.Real) }
					}
					c.Op("conditions %s", model.Descs(cs))
					kind := c.Choose(6)
					c.Tag([]string{"base", "many", "single", "count", "update", "delete"}[kind])
					switch kind {
					case 0, 3:
						b := query.SelectFrom("t").Fields(query.Field("a"))
						add(func(x ...query.Condition) { b = b.Where(x...) })
						if kind == 0 {
							sameFilter(c, "select", stmtOK(c, "select", b).Where, filter)
						} else {
							sameFilter(c, "count", stmtOK(c, "count", b.Count()).Where, filter)
						}
					case 1:
						b := query.SelectManyFrom("t")
						add(func(x ...query.Condition) { b = b.Where(x...) })
						off, lim := pick(c, 0, 30), pick(c, -1, 40)
						if c.Bool() {
							b = b.Limit(lim).Offset(uint(off))
						} else {
							b = b.Offset(uint(off)).Limit(lim)
						}
						st := stmtOK(c, "many", b)
						sameFilter(c, "many", st.Where, filter)
						checkPaging(c, "many", st, uint64(off), int64(lim))
						for _, s := range []int{0, 9, 99} {
							st, err := sqlx.ParseStmt(b.Render(s), b.Values(), s, false)
							if err == nil {
								err = sqlx.Consecutive(st.Placeholders, s)
							}
							if err != nil {
								c.Failf("many rendered from %d: %q %v: %v", s, b.Render(s), b.Values(), err)
							}
							sameFilter(c, "many", st.Where, filter)
							checkPaging(c, "many", st, uint64(off), int64(lim))
						}
					case 2:
						b := query.SelectSingleFrom("t")
						add(func(x ...query.Condition) { b = b.Where(x...) })
						sameFilter(c, "single", stmtOK(c, "single", b).Where, filter)
					case 4:
						b := query.Update("t")
						var want []sqlx.Assign
						k := pick(c, 1, 3, 12)
						for i := 0; i < k; i++ {
							col := fmt.Sprintf("c%d", i)
							b = b.Set(query.FieldName(col).Value(5000 + i))
							want = append(want, sqlx.Assign{Col: col, Val: 5000 + i})
						}
						add(func(x ...query.Condition) { b = b.Where(x...) })
						if filter == nil {
							wantErr(c, "update", b)
							return
						}
						st := stmtOK(c, "update", b)
						sameFilter(c, "update", st.Where, filter)
						checkAssign(c, "update", st.Set, want)
					case 5:
						b := query.Delete("t")
						add(func(x ...query.Condition) { b = b.Where(x...) })
						if filter == nil {
							wantErr(c, "delete", b)
							return
						}
						sameFilter(c, "delete", stmtOK(c, "delete", b).Where, filter)
					}
					c.State(fmt.Sprint(kind), fmt.Sprint(model.Mean(filter)))
				}},
			{Name: "insert", Quick: []int{13}, Thorough: []int{120},
				Doc: "inserts of every number of columns 1..<bound>, values added one by one, in pairs or at once",
				Body: func(c *mc.Ctx) {
					k := 1 + c.Choose(c.Bound)
					step := pick(c, 1, 2, k)
					b := query.InsertInto("t")
					var want []sqlx.Assign
					var vals []query.FieldValue
					for i := 0; i < k; i++ {
						col := fmt.Sprintf("c%d", i)
						vals = append(vals, query.FieldName(col).Value(i))
						want = append(want, sqlx.Assign{Col: col, Val: i})
						if len(vals) == step || i == k-1 {
							b = b.Values(vals...)
							vals = nil
						}
					}
					c.Op("insert of %d columns", k)
					checkAssign(c, "insert", stmtOK(c, "insert", b).Set, want)
					c.State(fmt.Sprint(k))
				}},
			{Name: "values", Quick: []int{0}, Thorough: []int{0},
				Doc: "every value of the alphabet (single values and lists) in every comparison, plain and negated, between two other conditions, in select and after a set value in update: the numbers of placeholders and parameters agree",
				Body: func(c *mc.Ctx) {
					op := pick(c, "=", "<", "<=", ">", ">=", "IN")
					vs := append(append([]model.Value{}, model.Singles...), model.Lists...)
					v := vs[c.Choose(len(vs))]
					real := model.RealLeaf(op, "f", v.V, false)
					if c.Bool() {
						real = query.Not(real)
					}
					g := query.NewGroup(and, query.EqualTo("a", 1), real, query.EqualTo("b", 2))
					c.Op("%s f %s %s", "condition", op, v.Name)
					st := stmtOK(c, "select", query.SelectFrom("t").Where(g))
					st2 := stmtOK(c, "update", query.Update("t").Set(query.FieldName("x").Value(9)).Where(g))
					for _, s := range []*sqlx.Stmt{st, st2} {
						for _, want := range []*sqlx.Expr{sqlx.Cmp("a", "=", 1), sqlx.Cmp("b", "=", 2)} {
							if !conjunct(s.Where, want) {
								c.Failf("the filter %v does not have %v: parameters are shifted", s.Where, want)
							}
						}
					}
					for _, s := range []int{0, 9} {
						sql, vals := g.Render(s), g.Values()
						_, ph, err := sqlx.ParseCond(sql, vals, s, false)
						if err == nil {
							err = sqlx.Consecutive(ph, s)
						}
						if err != nil {
							c.Failf("rendered %q %v: %v", sql, vals, err)
						}
					}
					c.State(op, v.Name)
				}},
			{Name: "sizes", Quick: []int{12}, Thorough: []int{40},
				Doc: bigSelDoc + "; counts, updates and deletes made from them",
				Body: func(c *mc.Ctx) {
					x, _ := bigSel(c, c.Bound, big(c, 129, 1025))
					numbered(c, x)
				}},
		},
	})
}

// conjunct tells whether e has the given conjunct.
func conjunct(e, want *sqlx.Expr) bool {
	if e == nil {
		return false
	}
	if e.Key() == want.Key() {
		return true
	}
	if e.Kind == sqlx.KAnd {
		for _, k := range e.Kids {
			if conjunct(k, want) {
				return true
			}
		}
	}
	return false
}

// checkPaging compares offset and limit; limit < 0: none.
func checkPaging(c *mc.Ctx, what string, st *sqlx.Stmt, off uint64, lim int64) {
	if st.Offset.Set != (off > 0) || st.Offset.N != off {
		c.Failf("%s: offset is %+v, expected %d", what, st.Offset, off)
	}
	if lim > 0 {
		if !st.Limit.Set || st.Limit.N != uint64(lim) {
			c.Failf("%s: limit is %+v, expected %d", what, st.Limit, lim)
		}
	} else if st.Limit.Set {
		c.Failf("%s: limit is %+v, expected none", what, st.Limit)
	}
}
