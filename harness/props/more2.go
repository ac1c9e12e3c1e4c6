package props

import (
	"fmt"
	"time"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

// Values and names that are equal to, or begin like, one another.

// aliked are values of which several at once are easily taken for one or for none.
var aliked = []struct {
	v    any
	want any
}{
	{nil, nil}, {model.VNil{}, nil}, {1, 1}, {int64(1), int64(1)}, {"", ""}, {"1", "1"}, {false, false}, {0, 0}, {&shared, &shared}, {&shared2, &shared2}, {alikeTime, alikeTime},
}

var (
	shared    = 7
	shared2   = 7
	alikeTime = time.Date(2024, 2, 29, 23, 59, 59, 5, time.UTC)
)

// clash are names equal to or beginning like one another.
var clash = []string{"a", "b", "ab"}

func clashName(c *mc.Ctx) string  { return clash[c.Choose(len(clash))] }
func clashMaybe(c *mc.Ctx) string { return pick(c, "", "a", "b", "ab") }

func clashTable(c *mc.Ctx) query.TableIdent {
	t := query.Table(clashName(c))
	if a := clashMaybe(c); a != "" {
		t = t.As(query.TableName(a))
	}
	return t
}

// clashRef has an alias one time out of three.
func clashRef(c *mc.Ctx) ref {
	return ref{Table: pick(c, "", "a", "ab"), Name: pick(c, "a", "b"), Alias: pick(c, "", "a", "b")}
}

// clashSel is a select made of such names, of one of four shapes.
func clashSel(c *mc.Ctx, kinds ...string) sel {
	x := newSel(pick(c, kinds...), clashTable(c))
	switch c.Choose(4) {
	case 0: // a join
		l := ref{Table: clashName(c), Name: pick(c, "a", "b")}
		j := clashTable(c)
		x = x.Join(j, 1, true, l, ref{Table: clashName(c), Name: pick(c, "a", "b")})
	case 1: // fields
		x = x.Fields(clashRef(c), clashRef(c))
	case 2: // a field and a condition on it
		x = x.Fields(clashRef(c)).Where(model.Simple("=", clashRef(c), 1))
	case 3: // two conditions of different kinds
		x = x.Where(model.Simple("=", clashRef(c), 1), model.NewGroup(or, model.Simple("IS NULL", clashRef(c), 2)))
	}
	c.Op("%s", x.desc)
	return x
}

const clashDoc = "selects of one table, with or without an alias, with a join, two fields, a field and a condition, or two conditions, every table, alias and field out of names equal to or beginning like one another (a, b, ab)"

// condKinds are one condition of each kind, made anew each time.
var condKinds = []form[query.Condition]{
	{"=", func() query.Condition { return query.EqualTo("y", 1) }},
	{"<", func() query.Condition { return query.Less("y", 1) }},
	{"<=", func() query.Condition { return query.LessOrEqual("y", 1) }},
	{">", func() query.Condition { return query.GreaterThan("y", 1) }},
	{">=", func() query.Condition { return query.GreaterOrEqual("y", 1) }},
	{"LIKE", func() query.Condition { return query.Contains("y", "1") }},
	{"ILIKE", func() query.Condition { return query.IContains("y", "1") }},
	{"IN", func() query.Condition { return query.In("y", []int{2, 3}) }},
	{"IN none", func() query.Condition { return query.In("y", []int{}) }},
	{"IS NULL", func() query.Condition { return query.IsNull("y") }},
	{"group", func() query.Condition { return query.NewGroup(or, query.EqualTo("y", 1), query.IsNull("w")) }},
	{"group of one", func() query.Condition { return query.NewGroup(and, query.In("y", []int{1})) }},
	{"empty group", func() query.Condition { return query.NewGroup(or) }},
	{"pointer to group", func() query.Condition {
		g := query.NewGroup(or, query.EqualTo("y", 1), query.IsNull("w"))
		return &g
	}},
	{"custom", func() query.Condition { return model.NewCustom(model.CFunc, false, "cust", ref{Name: "y"}, 8).Real }},
	{"pointer to custom", func() query.Condition { return model.NewCustom(model.CFunc, true, "cust", ref{Name: "y"}, 8).Real }},
	{"own", func() query.Condition { return model.NewOwn("own", ref{Name: "y"}, 8).Real }},
	{"zero custom", func() query.Condition { return model.NewZeroCustom("zero", ref{Name: "y"}, 8).Real }},
	{"nothing", func() query.Condition { return query.Or(query.NewGroup(and)) }},
}

// condPast is what happened to a condition before.
var condPast = []struct {
	name string
	f    func(x query.Condition) query.Condition
}{
	{"as made", func(x query.Condition) query.Condition { return x }},
	{"Negate", func(x query.Condition) query.Condition { return x.Negate(true) }},
	{"Join(OR)", func(x query.Condition) query.Condition { return x.Join(or) }},
	{"ApplyFieldTable", func(x query.Condition) query.Condition { return x.ApplyFieldTable("t") }},
	{"ApplyFieldSpec", func(x query.Condition) query.Condition { return x.ApplyFieldSpec(query.Field("y").As("v")) }},
	{"And()", func(x query.Condition) query.Condition { return x.And() }},
	{"And(z)", func(x query.Condition) query.Condition { return x.And(query.EqualTo("z", 5)) }},
	{"Or(z)", func(x query.Condition) query.Condition { return x.Or(query.EqualTo("z", 5)) }},
	{"the only one of a clause", func(x query.Condition) query.Condition {
		cs := query.NewWhere().GroupAND(x).Conditions()
		if len(cs) == 0 {
			return x
		}
		return cs[0]
	}},
	{"second of a clause", func(x query.Condition) query.Condition {
		cs := query.NewWhere().GroupAND(query.EqualTo("z", 5), x).Conditions()
		return cs[len(cs)-1]
	}},
	{"SetToAll", func(x query.Condition) query.Condition {
		cs := or.SetToAll(query.EqualTo("z", 5), x)
		return cs[len(cs)-1]
	}},
}

// condUse puts condition p into something.
func condUse(w *world, p, id int) {
	c := w.c
	one := func(name string, f func(x, y query.Condition) any) {
		w.add(name, []int{p}, func(ps []any) any { return f(ps[0].(query.Condition), query.Less("u", id)) })
	}
	switch c.Choose(15) {
	case 0:
		one("Where(x,c)", func(x, y query.Condition) any { return query.SelectFrom("t").Where(y, x) })
	case 1:
		one("Where(c,x)", func(x, y query.Condition) any { return query.Delete("t").Where(x, y) })
	case 2:
		one("GroupOR(x,c)", func(x, y query.Condition) any { return query.NewWhere().GroupOR(y, x) })
	case 3:
		one("GroupAND(c)", func(x, y query.Condition) any {
			return query.NewWhere().GroupAND(y).GroupAND(x)
		})
	case 4:
		one("NewGroup(OR,c,x)", func(x, y query.Condition) any { return query.NewGroup(or, x, y) })
	case 5:
		one("NewGroup(AND,x,c)", func(x, y query.Condition) any { return query.NewGroup(and, y, x) })
	case 6:
		one("NewGroup(OR,c,c)", func(x, y query.Condition) any { return query.NewGroup(or, x, x) })
	case 7:
		one("x.Or(c)", func(x, y query.Condition) any { return y.Or(x) })
	case 8:
		one("c.Or(x)", func(x, y query.Condition) any { return x.Or(y) })
	case 9:
		one("c.And(x)", func(x, y query.Condition) any { return x.And(y) })
	case 10:
		one("Not", func(x, y query.Condition) any { return query.Not(x) })
	case 11:
		one("Join(OR)", func(x, y query.Condition) any { return x.Join(or) })
	case 12:
		one("Join(AND)", func(x, y query.Condition) any { return x.Join(and) })
	case 13:
		one("ApplyFieldTable", func(x, y query.Condition) any { return x.ApplyFieldTable(query.TableName(fmt.Sprintf("m%d", id))) })
	case 14:
		one("ApplyFieldSpec", func(x, y query.Condition) any { return x.ApplyFieldSpec(query.Field("y").Of("w").As("yy")) })
	}
}

func init() {
	for _, id := range []string{"C03", "C09"} {
		mc.Extend(id, mc.Family{Name: "equal-values", Quick: []int{1, 2, 3, 4}, Thorough: []int{1, 2, 3, 4, 5},
			Doc: "inserts and updates of <bound> columns with every combination of nil, a value converting to nil, 1, int64 1, empty text, text 1, false, 0, two pointers to equal values and a time; updates filtered by conditions on the same values, and by a list of the same ones",
			Body: func(c *mc.Ctx) {
				var vs []query.FieldValue
				var want []sqlx.Assign
				var list []any
				for i := 0; i < c.Bound; i++ {
					a := aliked[c.Choose(len(aliked))]
					col := fmt.Sprintf("c%d", i)
					vs = append(vs, query.FieldName(col).Value(a.v))
					want = append(want, sqlx.Assign{Col: col, Val: a.want})
					list = append(list, a.want)
				}
				c.Op("values %s", model.Show(list))
				ins := query.InsertInto("t").Values(vs...)
				checkAssign(c, "insert", stmtOK(c, "insert", ins).Set, want)
				last := list[len(list)-1]
				var x cond
				switch c.Choose(3) {
				case 0:
					x = model.Simple("IS NULL", ref{Name: "c0"}, 0)
				case 1:
					x = model.NewLeaf("IN", ref{Name: "c0"}, list, list, false)
				case 2:
					x = model.NewLeaf("<", ref{Name: "c0"}, last, []any{last}, false)
				}
				upd := query.Update("t").Set(vs...).Where(x.Real)
				st := stmtOK(c, "update", upd)
				checkAssign(c, "update", st.Set, want)
				sameFilter(c, "update", st.Where, x.N)
				c.State(model.Show(list))
			}})
	}

	mc.Extend("C05",
		mc.Family{Name: "every-condition", Quick: []int{1, 2}, Thorough: []int{1, 2, 3},
			Doc: "a condition of each of 19 kinds (all comparisons, groups, by pointer, external ones) with each of 11 pasts (joined, negated, re-qualified, combined, read back from a clause, ...) x every history of exactly <bound> uses of it and of the conditions made of it: put into builders, clauses and groups beside another one, combined, negated, joined, re-qualified; all objects observed again after each",
			Body: func(c *mc.Ctx) {
				w := &world{c: c}
				k, p := condKinds[c.Choose(len(condKinds))], condPast[c.Choose(len(condPast))]
				w.root(k.name, func() any { return k.mk() })
				w.add(p.name, []int{0}, func(ps []any) any { return p.f(ps[0].(query.Condition)) })
				w.recheck("this")
				for i := 0; i < c.Bound; i++ {
					var cs []int
					for j, o := range w.objs {
						if _, ok := o.v.(query.Condition); ok && j > 0 {
							cs = append(cs, j)
						}
					}
					condUse(w, cs[c.Choose(len(cs))], i)
					w.recheck("this")
				}
				w.finish()
			}})

	mc.Extend("C19", mc.Family{Name: "without-field", Quick: []int{1, 2}, Thorough: []int{1, 2, 3},
		Doc: "one to three conditions in a row, each an external one without a field (its name empty, 5 kinds, with 0 or 1 parameters) or with one, a built-in one, or an empty group, then <bound> out of Not, groups with and without another one, And and Or by method and function; alone and in eight statements",
		Body: func(c *mc.Ctx) {
			n := &namer{}
			k := 0
			one := func() cond {
				k++
				name := fmt.Sprintf("ext%d", k)
				var ps []any
				kind := c.Choose(8)
				if kind < 5 && c.Bool() {
					ps = []any{k}
				}
				switch kind {
				case 0, 1:
					return model.NewCustom(model.CFunc, kind == 1, name, ref{}, ps...)
				case 2:
					return model.NewCustom(model.CParen, false, name, ref{}, ps...)
				case 3:
					return model.NewOwn(name, ref{}, ps...)
				case 4:
					return model.NewZeroCustom(name, ref{}, ps...)
				case 5:
					return model.NewCustom(model.CFunc, false, name, ref{Name: fmt.Sprintf("e%d", k)})
				case 6:
					return model.NewGroup(or)
				}
				return n.eq()
			}
			x := one()
			if c.Bool() {
				x = model.NewGroup(pick(c, and, or), x, one())
			}
			for i := 0; i < c.Bound; i++ {
				switch c.Choose(6) {
				case 0:
					x = model.Not(x)
				case 1:
					x = model.NewGroup(or, n.eq(), x)
				case 2:
					x = model.NewGroup(and, x)
				case 3:
					x, _ = model.Combine(model.Method, or, x, n.eq())
				case 4:
					x, _ = model.Combine(model.Func, and, n.eq(), x)
				case 5:
					x = model.Join(x, or)
				}
				c.Op("%s", x.Desc)
			}
			everywhere(c, x)
		}})

	mc.Extend("C23", mc.Family{Name: "alike", Quick: []int{1, 2, 3, 4}, Thorough: []int{1, 2, 3, 4, 5},
		Doc: "every sequence of <bound> different keys out of a, b, ab, each plain and of the tables a, b and ab, letters alike and numbers alike (20 keys; of more than three the first two out of all), values equal, different, or all nil",
		Body: func(c *mc.Ctx) {
			left := []string{"a", "b.a", "a.a", "a.b", "b", "ab", "a.ab", "ab.a", "b.b", "ab.b", "b.ab", "ab.ab", "A", "A.a", "a.A", "a1", "a_", "a.a1", "a_.a", "aa"}
			var keys []string
			for i := 0; i < c.Bound; i++ {
				m := len(left)
				if i > 1 && c.Bound > 3 && m > 4 {
					m = 4
				}
				k := c.Choose(m)
				keys = append(keys, left[k])
				left = append(left[:k:k], left[k+1:]...)
			}
			kind := c.Choose(3)
			var vs []any
			for i := range keys {
				vs = append(vs, []any{i, 7, nil}[kind])
			}
			checkMap(c, keys, vs, vs, 16)
		}})

	const bsm = "base, many or single "
	mc.Extend("C08", mc.Family{Name: "collisions", Quick: []int{0}, Thorough: []int{0},
		Doc: bsm + clashDoc + "; ordered by one and limited when many",
		Body: func(c *mc.Ctx) {
			x := clashSel(c, kBase, kMany, kSingle)
			if x.kind == kMany {
				x = x.OrderBy(sqlx.Term{Ref: pick(c, "a", "b", "a.b", "b.a"), Dir: "DESC"}).Limit(1).Offset(1)
			}
			x.check(c)
			c.State(x.key())
		}})
	mc.Extend("C13", mc.Family{Name: "collisions", Quick: []int{0}, Thorough: []int{0},
		Doc: "two joins on one builder, every table, alias and field out of names equal to or beginning like one another (a, b, ab); the second with the same table or with any other",
		Body: func(c *mc.Ctx) {
			ab := func() ref { return ref{Table: pick(c, "a", "ab"), Name: pick(c, "a", "b")} }
			t := query.Table("a")
			if c.Bool() {
				t = t.As("ab")
			}
			x := newSel(pick(c, kBase, kMany, kSingle), t)
			j, l, r := clashTable(c), ab(), ab()
			x = x.Join(j, 0, true, l, r)
			if c.Bool() {
				x = x.Join(j, 1, false, ab(), ab())
			} else {
				x = x.Join(clashTable(c), 0, false, l, r)
			}
			c.Op("%s", x.desc)
			x.check(c)
			c.State(x.key())
		}})
	mc.Extend("C14", mc.Family{Name: "collisions", Quick: []int{0}, Thorough: []int{0},
		Doc: "base and many " + clashDoc + "; counted, also by each field of such names",
		Body: func(c *mc.Ctx) {
			x := clashSel(c, kBase, kMany)
			countOK(c, x.desc+".Count()", x.Count(), x, "*")
			f := pick(c, "a", "b", "ab", "a.a", "a.b", "b.a", "ab.a", "ab.ab")
			countOK(c, "Count("+f+")", query.Count(x.core(), query.FieldName(f)), x, f)
			c.State(x.key(), f)
		}})
	mc.Extend("C15", mc.Family{Name: "collisions", Quick: []int{0}, Thorough: []int{0},
		Doc: bsm + clashDoc + "; everything derived from them",
		Body: func(c *mc.Ctx) {
			x := clashSel(c, kBase, kMany, kSingle)
			derived(c, x)
			c.State(x.key())
		}})
	mc.Extend("C16", mc.Family{Name: "collisions", Quick: []int{1, 2}, Thorough: []int{1, 2},
		Doc: "a comparison or a group of two over fields out of names equal to or beginning like one another, then <bound> ApplyFieldTable or ApplyFieldSpec with any such table or definition (two: from one field)",
		Body: func(c *mc.Ctx) {
			x := model.Simple("=", clashRef(c), 1)
			if c.Bound == 1 {
				switch c.Choose(3) {
				case 1:
					x = model.NewGroup(or, x, model.Simple("IN", clashRef(c), 2))
				case 2:
					x = model.NewCustom(model.CFunc, c.Bool(), "ext", clashRef(c), 3)
				}
			}
			for i := 0; i < c.Bound; i++ {
				m := move{table: c.Bool()}
				if m.table {
					m.to.Table = clashMaybe(c)
				} else {
					m.to = clashRef(c)
				}
				y := m.cond(x)
				condMeans(c, y.Desc, y.Real, y.N, i)
				x = y
			}
			c.State(x.Real.RenderSQL())
		}})
	for _, id := range []string{"C07", "C09", "C25"} {
		mc.Extend(id, mc.Family{Name: "collisions", Quick: []int{2}, Thorough: []int{2, 3},
			Doc: "inserts and updates of one table of <bound> columns, each of any table, with any alias, and a condition, all names equal to or beginning like one another (a, b, ab): built without an error, columns in order with their values, reported as given",
			Body: func(c *mc.Ctx) {
				table := clashName(c)
				var vs []query.FieldValue
				var rs []ref
				var want []sqlx.Assign
				var vals []any
				for i := 0; i < c.Bound; i++ {
					r := clashRef(c)
					vs, rs, vals = append(vs, definition(r).Value(i)), append(rs, r), append(vals, i)
					want = append(want, sqlx.Assign{Col: r.Name, Val: i})
				}
				x := model.Simple("=", clashRef(c), 9)
				c.Op("%s: %v where %s", table, rs, x.Desc)
				ins, upd := query.InsertInto(table).Values(vs...), query.Update(table).Set(vs...).Where(x.Real)
				st := stmtOK(c, "insert", ins)
				checkAssign(c, "insert", st.Set, want)
				su := stmtOK(c, "update", upd)
				checkAssign(c, "update", su.Set, want)
				sameFilter(c, "update", su.Where, x.N)
				if st.Table.Name != table || su.Table.Name != table {
					c.Failf("on tables %v and %v, expected %s", st.Table, su.Table, table)
				}
				reports(c, "insert", ins, query.DoInsert, table)
				reports(c, "update", upd, query.DoUpdate, table)
				setValuesAre(c, "insert", ins.SetValues(), rs, vals)
				setValuesAre(c, "update", upd.SetValues(), rs, vals)
				c.State(fmt.Sprint(table, rs))
			}})
	}
	mc.Extend("C20", mc.Family{Name: "collisions", Quick: []int{0}, Thorough: []int{0},
		Doc: "a table with any alias, a field and a condition with names equal to or beginning like one another: the select, the count, the update and the delete made in every form",
		Body: func(c *mc.Ctx) {
			t := clashTable(c)
			text := t.RenderFrom()
			r := clashRef(c)
			d := definition(r)
			x := model.Simple("=", clashRef(c), 1).Real
			c.Op("%s, field %s, %s", text, r.Spec(), x.RenderSQL())
			sameStatements(c, []form[builder]{
				{"SelectFrom(text)", func() builder { return query.SelectFrom(text).Fields(d).Where(x) }},
				{"SelectFrom(TableName)", func() builder { return query.SelectFrom(query.TableName(text)).Fields(d).Where(x) }},
				{"SelectFrom(ident)", func() builder { return query.SelectFrom(t).Fields(query.Field(r.Spec())).Where(x) }},
				{"Select", func() builder { return t.Select(x).Fields(d) }},
				{"Where then Fields", func() builder { return query.SelectFrom(t).Where(x).Fields(d) }},
				{"SelectMany", func() builder { return t.SelectMany(x).Fields(d) }},
				{"SelectManyFrom", func() builder { return query.SelectManyFrom(t).Where(x).Fields(d) }},
				{"Many", func() builder { return query.SelectFrom(t).Fields(d).Many().Where(x) }},
			})
			sameStatements(c, []form[builder]{
				{"SelectSingleFrom", func() builder { return query.SelectSingleFrom(t).Fields(d).Where(x) }},
				{"Single", func() builder { return query.SelectFrom(t).Fields(d).Where(x).Single() }},
				{"Many.Single", func() builder { return query.SelectManyFrom(t).Fields(d).Where(x).Single() }},
				{"SelectOne", func() builder { return t.SelectOne(x).Fields(d) }},
			})
			sameStatements(c, []form[builder]{
				{"Count", func() builder { return query.Count(t.Select(x)) }},
				{"ident.Count", func() builder { return t.Count(x) }},
				{"select.Count", func() builder { return query.SelectManyFrom(t).Where(x).Count() }},
			})
			v := d.Value(3)
			sameStatements(c, []form[builder]{
				{"Update", func() builder { return query.Update(t.TableName()).Set(v).Where(x) }},
				{"ident.Update", func() builder { return t.Update().Where(x).Set(v) }},
				{"select.Update", func() builder { return t.Select(x).Update(v) }},
			})
			sameStatements(c, []form[builder]{
				{"Delete", func() builder { return query.Delete(t.TableName()).Where(x) }},
				{"ident.Delete", func() builder { return t.Delete().Where(x) }},
				{"select.Delete", func() builder { return t.Select().Where(x).Delete() }},
			})
			c.State(text, r.Spec())
		}})
}
