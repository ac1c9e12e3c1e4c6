package props

import (
	"fmt"
	"strings"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

// starters begin a join of left and right in every way there is on tables and join types.
var starters = []struct {
	name string
	f    func(l, r query.TableIdent, k int) query.IncompleteSelectJoin
}{
	{"TableIdent.Join", func(l, r query.TableIdent, k int) query.IncompleteSelectJoin { return l.Join(r, joinTypes[k]) }},
	{"TableIdent.XJoin", func(l, r query.TableIdent, k int) query.IncompleteSelectJoin {
		return []func(query.TableIdent) query.IncompleteSelectJoin{l.InnerJoin, l.LeftJoin, l.RightJoin, l.FullJoin}[k](r)
	}},
	{"TableName.Join", func(l, r query.TableIdent, k int) query.IncompleteSelectJoin {
		return query.TableName(l.RenderFrom()).Join(r, joinTypes[k])
	}},
	{"TableName.XJoin", func(l, r query.TableIdent, k int) query.IncompleteSelectJoin {
		n := query.TableName(l.RenderFrom())
		return []func(query.TableIdent) query.IncompleteSelectJoin{n.InnerJoin, n.LeftJoin, n.RightJoin, n.FullJoin}[k](r)
	}},
	{"JoinType.Tables", func(l, r query.TableIdent, k int) query.IncompleteSelectJoin { return joinTypes[k].Tables(l, r) }},
	{"SelectFrom.Join", func(l, r query.TableIdent, k int) query.IncompleteSelectJoin {
		return query.SelectFrom(l).Join(r, joinTypes[k])
	}},
	{"Select.XJoin", func(l, r query.TableIdent, k int) query.IncompleteSelectJoin { return halfBase(l.Select(), r, k, true) }},
}

// joinFields are pairs of fields to join on.
func joinFields(c *mc.Ctx, left, right query.TableIdent) (l, r ref) {
	lq, rq := string(left.Field("x").TableName()), string(right.Field("x").TableName())
	switch c.Choose(6) {
	case 0:
		return ref{Table: lq, Name: "id"}, ref{Table: rq, Name: "lid"}
	case 1:
		return ref{Table: rq, Name: "lid"}, ref{Table: lq, Name: "id"} // given the other way round
	case 2:
		return ref{Table: "zz", Name: "k"}, ref{Table: rq, Name: "k", Alias: "kk"} // other tables and aliases
	case 3:
		return ref{Table: lq, Name: "same", Alias: "a"}, ref{Table: lq, Name: "same", Alias: "a"}
	case 4:
		return ref{Table: lq, Name: "x", Alias: "k"}, ref{Table: rq, Name: "k", Alias: "x"} // one is called as the other
	}
	return ref{Table: lq, Name: "same", Alias: "a"}, ref{Table: lq, Name: "same"}
}

func init() {
	mc.Register(&mc.Property{
		ID:          "C13",
		Assumptions: []string{"JOIN alone counts as INNER JOIN, LEFT OUTER JOIN as LEFT JOIN and so on", "fields of a join have a table, as documented"},
		Families: []mc.Family{
			{Name: "starts", Quick: []int{0, 1}, Thorough: []int{0, 1, 2},
				Doc: "every way to start a join (7 ways on tables, names and join types) x 4 kinds x tables with and without alias on both sides x 6 pairs of fields, followed by <bound> further joins on the base builder",
				Body: func(c *mc.Ctx) {
					ts := []query.TableIdent{query.Table("t"), query.Table("t as x"), query.Table("u"), query.Table("u").As("x")}
					left, right := ts[c.Choose(len(ts))], ts[c.Choose(len(ts))]
					st := starters[c.Choose(len(starters))]
					k := c.Choose(4)
					l, r := joinFields(c, left, right)
					half := st.f(left, right, k)
					x := sel{kind: kBase, b: half.On(definition(l), definition(r)), table: tableOf(left), desc: st.name,
						joins: []sqlx.Join{{Type: joinNames[k], Table: tableOf(right), Left: l.Table + "." + l.Name, Right: r.Table + "." + r.Name}}}
					c.Op("%s %s %s %s on %v = %v", left.RenderFrom(), st.name, joinNames[k], right.RenderFrom(), l, r)
					x = moreJoins(c, x, c.Bound)
					x.check(c)
					c.State(x.key())
				}},
			{Name: "builders", Quick: []int{1, 2}, Thorough: []int{1, 2, 3},
				Doc: "every sequence of exactly <bound> joins (4 kinds, both forms, right table with and without alias, repeated or the base table itself, 6 pairs of fields) on a base, many or single select that has fields, a filter, and for many ordering, offset and limit, or has nothing; nothing else changes",
				Body: func(c *mc.Ctx) {
					ts := someTables()
					x := newSel(pick(c, kBase, kMany, kSingle), ts[c.Choose(2)])
					if c.Bool() {
						n := &namer{}
						x = x.Fields(ref{Table: "t", Name: "a", Alias: "b"}, ref{Name: "c"}).Where(n.eq(), n.op("IN")).Where(model.NewGroup(or, n.eq(), n.op("IS NULL")))
						if x.kind == kMany {
							x = x.OrderBy(sqlx.Term{Ref: "o", Dir: "DESC"}).Limit(5).Offset(6)
						}
					}
					before := x
					y := moreJoins(c, x, c.Bound)
					y.check(c)
					before.check(c)
					c.State(y.key())
				}},
			{Name: "late", Quick: []int{2, 3}, Thorough: []int{2, 3, 4, 5},
				Doc: "joins half-built while other calls are made on the same builder, every order of <bound> half-built joins of one builder finished in every order",
				Body: func(c *mc.Ctx) {
					x := newSel(kBase, query.Table("t")).Join(query.Table("p"), 0, false, ref{Table: "t", Name: "a"}, ref{Table: "p", Name: "b"})
					if c.Bool() {
						x = x.Join(query.Table("q"), 1, false, ref{Table: "t", Name: "a"}, ref{Table: "q", Name: "b"}).Join(query.Table("s"), 2, false, ref{Table: "t", Name: "a"}, ref{Table: "s", Name: "b"})
					}
					var halves []query.IncompleteSelectJoin
					var kinds []int
					for i := 0; i < c.Bound; i++ {
						k := c.Choose(4)
						halves = append(halves, x.b.Join(query.Table(fmt.Sprintf("j%d", i)), joinTypes[k]))
						kinds = append(kinds, k)
					}
					left := make([]int, c.Bound)
					for i := range left {
						left[i] = i
					}
					for len(left) > 0 {
						j := c.Choose(len(left))
						i := left[j]
						left = append(append([]int{}, left[:j]...), left[j+1:]...)
						l, r := ref{Table: "t", Name: fmt.Sprintf("l%d", i)}, ref{Table: fmt.Sprintf("j%d", i), Name: "r"}
						y := x.as("half %d", i)
						y.b = halves[i].On(definition(l), definition(r))
						y.joins = append(y.joins, sqlx.Join{Type: joinNames[kinds[i]], Table: sqlx.Table{Name: fmt.Sprintf("j%d", i)}, Left: l.Table + "." + l.Name, Right: r.Table + "." + r.Name})
						c.Op("%s", y.desc)
						y.check(c)
						c.State(y.key())
					}
					x.check(c)
				}},
			{Name: "joiners", Quick: []int{0}, Thorough: []int{0},
				Doc: "stand-alone joiners made in every way (JoinType.By, JoinFields.Using, InnerJoin.., NewTableJoiner, redefined with By): kind, table and fields",
				Body: func(c *mc.Ctx) {
					k := c.Choose(4)
					lt, rt := pick(c, "t", "u"), pick(c, "t", "v")
					l, r := ref{Table: lt, Name: "a"}, ref{Table: rt, Name: "b", Alias: pick(c, "", "z")}
					dl, dr := definition(l), definition(r)
					cnd := query.JoinFields(dl, dr)
					right := query.Table(rt)
					var j query.TableJoiner
					switch c.Choose(6) {
					case 0:
						j = joinTypes[k].By(dl, dr)
					case 1:
						j = cnd.Using(joinTypes[k])
					case 2:
						j = []func() query.TableJoiner{cnd.InnerJoin, cnd.LeftJoin, cnd.RightJoin, cnd.FullJoin}[k]()
					case 3:
						right = query.Table(rt).As("w")
						j = query.NewTableJoiner(right, joinTypes[k], cnd)
					case 4:
						first := query.NewTableJoiner(right, joinTypes[k], query.JoinFields(query.Field("q.w"), query.Field("e.r")))
						j = first.By(dl, dr)
						if first.JoinCondition().Render() != "q.w=e.r" {
							c.Failf("By changed the joiner it was called on: %s", first.RenderFrom())
						}
					case 5:
						j = joinTypes[k].By(query.Field("q.w"), dr).By(dl, dr)
					}
					_, js, err := sqlx.ParseFrom("base " + j.RenderFrom())
					if err != nil {
						c.Failf("joiner renders %q: %v", j.RenderFrom(), err)
					}
					want := sqlx.Join{Type: joinNames[k], Table: tableOf(right), Left: l.Table + "." + l.Name, Right: r.Table + "." + r.Name}
					if len(js) != 1 || js[0] != want || j.JoinType() != joinTypes[k] || j.JoinCondition() != cnd {
						c.Failf("joiner renders %q: %+v of %v, expected %+v", j.RenderFrom(), js, j.JoinType(), want)
					}
					c.Op("%s", j.RenderFrom())
					c.State(j.RenderFrom())
				}},
			{Name: "names", Quick: []int{0}, Thorough: []int{0},
				Doc: namesDoc + "; joins started in seven ways",
				Body: func(c *mc.Ctx) {
					a := plainNames[c.Choose(len(plainNames))]
					b := pick(c, "t", "x", a, a+"_")
					if strings.ContainsRune(a, '"') {
						b = pick(c, "t", a)
					}
					left, right := query.Table(a), query.Table(b)
					switch c.Choose(4) {
					case 1:
						left, right = right, left
					case 2:
						right = right.As(query.TableName(a))
					case 3:
						left = query.Table("t").As(query.TableName(a))
					}
					st := starters[c.Choose(len(starters))]
					k := c.Choose(4)
					l, r := joinFields(c, left, right)
					x := sel{kind: kBase, b: st.f(left, right, k).On(definition(l), definition(r)), table: tableOf(left), desc: st.name,
						joins: []sqlx.Join{{Type: joinNames[k], Table: tableOf(right), Left: l.Table + "." + l.Name, Right: r.Table + "." + r.Name}}}
					c.Op("%s %s %s %s on %v = %v", left.RenderFrom(), st.name, joinNames[k], right.RenderFrom(), l, r)
					x.check(c)
					c.State(x.key())
				}},
			{Name: "sizes", Quick: []int{30}, Thorough: []int{100},
				Doc: "every number 0..<bound> of joins (and numbers around powers of two and ten beyond) on each kind of select, then two different further ones on the same builder",
				Body: func(c *mc.Ctx) {
					x := newSel(pick(c, kBase, kMany, kSingle), query.Table("t"))
					k := size(c, c.Bound, big(c, 129, 1025))
					same := c.Bool() // all to one table
					for i := 0; i < k; i++ {
						name := fmt.Sprintf("j%d", i)
						if same {
							name = "j"
						}
						x = x.Join(query.Table(name), i%4, i%3 == 0, ref{Table: "t", Name: fmt.Sprintf("l%d", i)}, ref{Table: name, Name: "r"})
					}
					c.Op("%d joins", k)
					y := x.Join(query.Table("p"), c.Choose(4), false, ref{Table: "t", Name: "a"}, ref{Table: "p", Name: "b"})
					z := x.Join(query.Table("q"), 1, true, ref{Table: "t", Name: "a"}, ref{Table: "q", Name: "b"})
					x.check(c)
					y.check(c)
					z.check(c)
					c.State(y.key())
				}},
		},
	})
}

func moreJoins(c *mc.Ctx, x sel, n int) sel {
	for i := 0; i < n; i++ {
		right := pick(c, query.Table("j"), query.Table("j").As("k"), query.Table("t"), query.Table(fmt.Sprintf("m%d", i)).As("t"))
		l, r := joinFields(c, query.Table("t"), right)
		k := c.Choose(4)
		x = x.Join(right, k, i%2 == 0, l, r)
		c.Op("%s", x.desc)
	}
	return x
}
