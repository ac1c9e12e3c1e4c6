package props

import (
	"fmt"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

// Very long lists, next to other conditions.

// longs are lengths around which limits of databases, buffers and digits lie.
func longs(c *mc.Ctx) []int {
	ls := []int{257, 1000, 1001, 1002, 1025, 2101}
	if c.Tier == "thorough" {
		ls = append(ls, 999, 1003, 1023, 1024, 1999, 2000, 2001, 2047, 2048, 2049, 2099, 2100, 3001, 4095, 4096, 4097, 5001, 8191, 8192, 8193, 9999, 10000, 10001)
	}
	if c.Bound > 0 {
		ls = []int{16385, 32768, 32769, 65535, 65536, 65537}
	}
	if c.Tier == "smoke" {
		ls = []int{257, 1001}
	}
	return ls
}

// longList is a condition with a list of one of these lengths.
func longList(c *mc.Ctx) cond {
	ls := longs(c)
	k := ls[c.Choose(len(ls))]
	ps := make([]any, k)
	kind := c.Choose(4)
	c.Op("%d values of kind %d", k, kind)
	c.State("list", fmt.Sprint(k, kind))
	switch kind {
	case 0:
		vs := make([]int, k)
		for i := range vs {
			vs[i], ps[i] = i, i
		}
		return model.NewLeaf("IN", ref{Name: "list"}, vs, ps, false)
	case 1:
		vs := make([]string, k)
		for i := range vs {
			vs[i], ps[i] = fmt.Sprint("s", i), fmt.Sprint("s", i)
		}
		return model.NewLeaf("IN", ref{Table: "t", Name: "list"}, vs, ps, true)
	case 2:
		vs := make([]any, k)
		for i := range vs {
			vs[i], ps[i] = i, i
			if i%2 == 1 {
				vs[i], ps[i] = model.VInt(i), int64(i)*10
			}
		}
		return model.NewLeaf("IN", ref{Name: "list", Alias: "l"}, vs, ps, false)
	}
	for i := range ps {
		ps[i] = i
	}
	return model.NewCustom(model.CFunc, false, "ext", ref{Name: "list"}, ps...)
}

// longPlaced are conditions with a long list among others.
func longPlaced(c *mc.Ctx) []cond {
	n := &namer{}
	x := longList(c)
	how := c.Choose(8)
	c.Op("placed %d", how)
	c.State("placed", fmt.Sprint(how))
	switch how {
	case 0:
		return []cond{x}
	case 1:
		return []cond{x, n.eq()}
	case 2:
		return []cond{n.eq(), x, n.op("IN"), n.op("LIKE")}
	case 3:
		return []cond{model.NewGroup(or, x, n.op("IN")), n.eq()}
	case 4:
		return []cond{n.op("IN"), model.Not(model.NewGroup(or, n.eq(), x)), n.eq()}
	case 5:
		y, _ := model.Combine(model.Method, and, x, n.eq())
		y, _ = model.Combine(model.Method, or, y, n.op("IN"))
		return []cond{y, n.eq()}
	case 6:
		return []cond{model.Not(x), x, n.eq()}
	}
	return []cond{model.NewGroup(and, n.eq(), model.NewGroup(or, model.NewGroup(and, n.op("IN"), x), n.eq())), n.op("<")}
}

const longDoc = "lists of 257, 1000..1002, 1025, 2101 (thorough: around 1024, 2000, 2048, 2100, 3000, 4096, 5000, 8192, 10000 too; with <bound> 1 around 16384, 32768 and 65536) values, of numbers, texts, values converting themselves and of an external condition, placed in eight ways among other conditions; "

func extendLong(id, doc string, body func(c *mc.Ctx, cs []cond)) {
	mc.Extend(id, mc.Family{Name: "long-lists", Quick: []int{0}, Thorough: []int{0, 1}, Doc: longDoc + doc,
		Body: func(c *mc.Ctx) {
			body(c, longPlaced(c))
		}})
}

func init() {
	extendLong("C01", "in a group, alone and in every kind of statement", func(c *mc.Ctx, cs []cond) { meansEverywhere(c, model.NewGroup(or, cs...)) })
	extendLong("C02", "exactly these parameters", func(c *mc.Ctx, cs []cond) {
		for _, x := range cs {
			condMeans(c, "condition", x.Real, x.N, 0)
		}
	})
	extendLong("C03", "numbered in order in groups and statements, from 0 and from 9", func(c *mc.Ctx, cs []cond) {
		x := model.NewGroup(and, cs...)
		consecutiveFrom(c, "group", x.Real, x.N, 0)
		consecutiveFrom(c, "group", x.Real, x.N, 9)
		filter := model.Where(nil, cs)
		rs := model.Reals(cs)
		sameFilter(c, "delete", stmtOK(c, "delete", query.Delete("t").Where(rs...)).Where, filter)
		st := stmtOK(c, "update", query.Update("t").Set(query.FieldName("a").Value(1), query.FieldName("b").Value(2)).Where(rs...))
		sameFilter(c, "update", st.Where, filter)
		checkAssign(c, "update", st.Set, []sqlx.Assign{{Col: "a", Val: 1}, {Col: "b", Val: 2}})
		st = stmtOK(c, "many", query.SelectManyFrom("t").Where(rs...).Limit(71).Offset(72))
		sameFilter(c, "many", st.Where, filter)
		checkPaging(c, "many", st, 72, 71)
	})
	extendLong("C04", "both renderings and the values agree", func(c *mc.Ctx, cs []cond) {
		x := model.NewGroup(and, cs...)
		rendersAgree(c, "group", x.Real, []int{0, 9})
		s := query.SelectManyFrom("t").Where(model.Reals(cs)...).Limit(71).Offset(72)
		rendersAgree(c, "many", s, []int{0, 9})
		buildAgrees(c, "many", s)
	})
	for _, id := range []string{"C08", "C14", "C15"} {
		extendLong(id, "in a page of a select, and everything derived from it", func(c *mc.Ctx, cs []cond) {
			x := newSel(kMany, query.Table("t as u")).Fields(ref{Name: "a"}, ref{Table: "u", Name: "b"}).Where(cs...).
				OrderBy(sqlx.Term{Ref: "a", Dir: "DESC"}).Limit(71).Offset(72)
			switch id {
			case "C08":
				x.check(c)
			case "C14":
				countOK(c, "count", x.Count(), x, "*")
			case "C15":
				derived(c, x)
			}
		})
	}
	extendLong("C24", "after one condition and before another one in every kind of builder", func(c *mc.Ctx, cs []cond) {
		n := &namer{n: 100}
		f := newFiltered(filterKinds[c.Choose(len(filterKinds))])
		if c.Bool() {
			f = f.where([]cond{n.eq()})
		}
		f = f.where(cs)
		f.check(c, "where")
		f = f.where([]cond{n.eq()})
		f.check(c, "more")
	})
}
