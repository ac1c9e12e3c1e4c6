package props

import (
	"fmt"
	"strings"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

// Long names that are almost the same, and clauses rendered after any number of parameters.

// near chooses two names of the same length that differ at one place.
func near(c *mc.Ctx) (a, b string) {
	if c.Bool() {
		return lookAlike(c)
	}
	l := 1 + size(c, c.Bound, big(c, 130, 300))
	p := c.Choose(l)
	s := []byte(strings.Repeat("customer_account_number_", l/24+1)[:l])
	s[0] = 'k'
	t := append([]byte{}, s...)
	switch how := c.Choose(3); {
	case how == 0: // another letter
		s[p], t[p] = 'x', 'y'
	case how == 1: // another case
		s[p], t[p] = 'q', 'Q'
	case p+1 == l:
		c.Skip()
	default: // letters exchanged
		s[p], s[p+1], t[p], t[p+1] = 'x', 'y', 'y', 'x'
	}
	c.Op("%s and %s", s, t)
	return string(s), string(t)
}

// alike are texts easily taken for one another: by decoding, folding, normalising, trimming, cutting or hashing.
var alike = [][2]string{
	{"\xff", "\xfe"}, {"\xff", "\ufffd"}, {"\xc3", "\xc3\xa9"}, {"\xed\xa0\x80", "\xed\xa0\x81"}, {"\xc0\xaf", "\ufffd\ufffd"}, {"\u00e9", "e\u0301"}, {"\u00e9", "e"}, {"\u00c9", "\u00e9"}, {"\u00e0", "\u00e1"},
	{"\u0430", "a"}, {"\uff41", "a"}, {"\u212a", "k"}, {"\u212a", "K"}, {"\u017f", "s"}, {"\u017f", "S"}, {"\u00df", "ss"}, {"\u1e9e", "\u00df"}, {"\u0131", "i"}, {"\u0130", "i"}, {"\u0130", "i\u0307"}, {"\u01c6", "\u01c5"}, {"\u01c5", "\u01c4"}, {"\u03c3", "\u03c2"}, {"\u03a3", "\u03c2"}, {"\u00b5", "\u03bc"}, {"\u00c5", "\u212b"}, {"\ufb01", "fi"}, {"\u00b2", "2"}, {"\u0663", "3"}, {"\u2167", "\u2177"},
	{"\u200b", ""}, {"\u200d", "\u200c"}, {"\ufeff", ""}, {"\u00ad", ""}, {"\u2060", ""}, {"\ufe0f", ""}, {"\U0001f600", "\U0001f601"}, {"\U00010400", "\U00010428"}, {"\u00e4", "\u00e4\u0300"}, {"\uac00", "\u1100\u1161"},
	{"_", "__"}, {"_", ""}, {"0", "00"}, {"0", "O"}, {"1", "l"}, {"1", "01"}, {"9", "10"}, {"_a", "A"}, {"_id", "Id"}, {"s", ""}, {"y", "ies"},
	// the same by a checksum or a hash of 32 bits: FNV-1a, FNV-1, Adler, CRC, Castagnoli, Java, djb2 (+ and ^), sdbm, rotating, multiplying
	{"costarring", "liquid"}, {"zjwaxj", "rizcrf"}, {"qjybtc", "fomrel"}, {"lbduuy", "cbtqzq"}, {"mJOXBENG", "kEruhINF"}, {"plumless", "buckeroo"}, {"DUDuaWjw", "BFSCwnIz"}, {"Aa", "BB"}, {"plebgebL", "PAQsnTPX"},
	{"LJampYnZ", "JgpFQamO"}, {"BwhixlCF", "UtLSbNYN"}, {"azvfav", "zkudhf"}, {"OUcwNGvI", "MPBWNGwx"}, {"yrvziy", "izqjpd"}, {"abc", "cab"}, {"ad", "bc"},
}

// lookAlike chooses two names which differ in one such text, at the start, in the middle or at the end.
func lookAlike(c *mc.Ctx) (a, b string) {
	p := alike[c.Choose(len(alike))]
	for _, f := range [][2]string{{"", "nnon"}, {"kn", "non"}, {"knnon", ""}} {
		a, b = f[0]+p[0]+f[1], f[0]+p[1]+f[1]
		if c.Bool() {
			if strings.ContainsAny(a[:1]+b[:1], "0123456789") {
				c.Skip()
			}
			c.Op("%q and %q", a, b)
			return a, b
		}
	}
	c.Skip()
	return
}

const nearDoc = "two names of the same length, every length up to <bound>+1 and around powers of two and ten beyond (quick to 130, thorough to 300), that differ in one letter, the case of one letter or the order of two at every place, or names that differ in one of seventy pairs of texts that look alike or become the same by decoding, folding, normalising, trimming, summing or hashing to 32 bits; "

// nearSel is a select in which such names stand next to one another in every part.
func nearSel(c *mc.Ctx, a, b string, kinds ...string) sel {
	x := newSel(pick(c, kinds...), query.Table(a).As(query.TableName(b)))
	x = x.Fields(ref{Name: a}, ref{Name: b}, ref{Table: a, Name: b}, ref{Table: b, Name: a}, ref{Name: a, Alias: b})
	x = x.Join(query.Table(b).As(query.TableName(a)), 1, false, ref{Table: a, Name: a}, ref{Table: b, Name: a})
	x = x.Join(query.Table(b), 1, false, ref{Table: a, Name: b}, ref{Table: b, Name: b})
	x = x.Where(model.Simple("=", ref{Name: a}, 1), model.NewGroup(or, model.Simple("=", ref{Name: b}, 1), model.Simple("IN", ref{Name: a, Alias: b}, 2), model.Simple("<", ref{Table: b, Name: a}, 3)))
	if x.kind == kMany {
		x = x.OrderBy(sqlx.Term{Ref: a, Dir: "DESC"}, sqlx.Term{Ref: b, Dir: "DESC"}, sqlx.Term{Ref: a + "." + b, Dir: "ASC"}, sqlx.Term{Ref: b + "." + b, Dir: "ASC"}).Limit(3).Offset(3)
	}
	return x
}

func extendNear(id, doc string, body func(c *mc.Ctx, a, b string)) {
	mc.Extend(id, mc.Family{Name: "near", Quick: []int{24}, Thorough: []int{70}, Doc: nearDoc + doc,
		Body: func(c *mc.Ctx) {
			a, b := near(c)
			body(c, a, b)
			c.State(a, b)
		}})
}

// startCount chooses a number of parameters already present.
func startCount(c *mc.Ctx) int {
	far := []int{}
	for k := 10; k <= 40; k++ {
		far = append(far, 1<<k-1, 1<<k, 1<<k+1)
	}
	for k, n := 3, 1000; k <= 12; k, n = k+1, n*10 {
		far = append(far, n-1, n, n+1)
	}
	m := 130
	if c.Tier == "thorough" {
		m = 1100
	}
	k := c.Choose(m + len(far))
	if k < m {
		return k
	}
	return far[k-m]
}

const startDoc = "rendered after every number of parameters up to 129 (1099) and around every power of two up to 2^40 and of ten up to 10^12: "

// startable are conditions of all kinds, with the meaning they have.
func startable(c *mc.Ctx) cond {
	n := &namer{}
	k := c.Choose(len(model.Ops) + 7)
	if k < len(model.Ops) {
		x := n.op(model.Ops[k])
		if c.Bool() {
			x = model.Not(x)
		}
		return x
	}
	switch k - len(model.Ops) {
	case 0:
		return model.NewGroup(or, n.op("LIKE"), n.op("IN"), model.Not(n.op("ILIKE")))
	case 1:
		return model.Not(model.NewGroup(and, n.op("IN"), model.NewGroup(or, n.op("<="), n.op(">"))))
	case 2:
		vs, ps := make([]int, 11), make([]any, 11)
		for i := range vs {
			vs[i], ps[i] = i, i
		}
		return model.NewGroup(and, n.eq(), model.NewLeaf("IN", ref{Name: "l"}, vs, ps, false), n.op(">="))
	case 3:
		return model.NewCustom(model.CFunc, false, "ext", ref{Name: "e"}, 1, 2, 3)
	case 4:
		return model.NewGroup(or, n.op("IN"), model.NewCustom(model.CBetween, true, "", ref{Name: "e"}, 1, 2), n.op("<"))
	case 5:
		x, _ := model.Combine(model.Method, and, n.op("IN"), n.op("IS NULL"))
		x, _ = model.Combine(model.Func, or, x, model.NewOwn("own", ref{Name: "o"}, 4), n.op("<"))
		return x
	}
	return model.NewGroup(and)
}

func init() {
	const bsm = "a base, many or single select with each of the two as table, alias, joined table, field, field alias, and in conditions and ordering"
	extendNear("C08", bsm, func(c *mc.Ctx, a, b string) { nearSel(c, a, b, kBase, kMany, kSingle).check(c) })
	extendNear("C13", bsm, func(c *mc.Ctx, a, b string) { nearSel(c, a, b, kBase, kMany, kSingle).check(c) })
	extendNear("C14", bsm+"; counted, also by each of the two", func(c *mc.Ctx, a, b string) {
		x := nearSel(c, a, b, kBase, kMany)
		countOK(c, x.desc+".Count()", x.Count(), x, "*")
		for _, f := range []string{a, b, a + "." + b, b + "." + b} {
			countOK(c, "Count("+f+")", query.Count(x.core(), query.FieldName(f)), x, f)
		}
	})
	extendNear("C15", bsm+"; everything derived from it", func(c *mc.Ctx, a, b string) { derived(c, nearSel(c, a, b, kBase, kMany, kSingle)) })
	for _, id := range []string{"C07", "C09", "C25"} {
		extendNear(id, "inserts and updates of columns of both names, filtered by both: in order, each with its own value, reported as given", func(c *mc.Ctx, a, b string) {
			rs := []ref{{Name: a}, {Name: b}, {Table: a, Name: b}}
			var vs []query.FieldValue
			var want []sqlx.Assign
			var vals []any
			for i, r := range rs {
				vs, vals, want = append(vs, definition(r).Value(i)), append(vals, i), append(want, sqlx.Assign{Col: r.Name, Val: i})
			}
			x := model.NewGroup(or, model.Simple("=", ref{Name: a}, 7), model.Simple("=", ref{Name: b}, 7))
			ins, upd, del := query.InsertInto(b).Values(vs...), query.Update(b).Set(vs...).Where(x.Real), query.Delete(b).Where(x.Real)
			checkAssign(c, "insert", stmtOK(c, "insert", ins).Set, want)
			su := stmtOK(c, "update", upd)
			checkAssign(c, "update", su.Set, want)
			sameFilter(c, "update", su.Where, x.N)
			sameFilter(c, "delete", stmtOK(c, "delete", del).Where, x.N)
			reports(c, "insert", ins, query.DoInsert, b)
			reports(c, "update", upd, query.DoUpdate, b)
			reports(c, "delete", del, query.DoDelete, b)
			setValuesAre(c, "insert", ins.SetValues(), rs, vals)
			setValuesAre(c, "update", upd.SetValues(), rs, vals)
			fs := manyNear(a, b)
			f := query.NewFields(asArgs(fs, 3)...)
			listIs(c, "NewFields", f.FieldDefinitions(), fs)
			specsAre(c, "NewFields", f.FieldList(), fs)
		})
	}
	extendNear("C16", "a group of conditions on both, moved by a definition or table of either name", func(c *mc.Ctx, a, b string) {
		x := model.NewGroup(or, model.Simple("=", ref{Name: a}, 1), model.Simple("IN", ref{Name: b}, 2), model.Not(model.Simple("<", ref{Table: b, Name: a}, 3)), model.NewGroup(and, model.Simple("LIKE", ref{Name: b, Alias: a}, 4), model.Simple("IS NULL", ref{Table: a, Name: b}, 5)))
		m := pick(c, move{to: ref{Table: "w", Name: a}}, move{to: ref{Table: "w", Name: b}}, move{to: ref{Name: a, Alias: b}}, move{table: true, to: ref{Table: a}}, move{table: true, to: ref{Table: b}})
		y := m.cond(x)
		condMeans(c, y.Desc, y.Real, y.N, 0)
		condMeans(c, x.Desc, x.Real, x.N, 0)
	})
	extendNear("C02", "each comparison of a field of one name, with the other as its table or its alias", func(c *mc.Ctx, a, b string) {
		op := model.Ops[c.Choose(len(model.Ops))]
		for _, r := range []ref{{Name: a}, {Name: b}, {Name: a, Alias: b}, {Table: a, Name: b}, {Table: a, Name: b, Alias: a}} {
			x := model.Simple(op, r, 1)
			condMeans(c, x.Desc, x.Real, x.N, 0)
			x = model.Not(x)
			condMeans(c, x.Desc, x.Real, x.N, 9)
		}
	})
	extendNear("C01", "combinations of conditions on both", func(c *mc.Ctx, a, b string) {
		x, y := model.Simple("=", ref{Name: a}, 1), model.Simple("=", ref{Name: b}, 1)
		op := pick(c, and, or)
		z, _ := model.Combine(model.Method, op, x, y, model.Not(x))
		z, _ = model.Combine(model.Func, op, z, model.NewGroup(or, x, y))
		meansEverywhere(c, z)
	})
	extendNear("C11", "specifications of a field of one name with the other as table or alias", func(c *mc.Ctx, a, b string) {
		for _, s := range []string{a, a + "." + b, a + " as " + b, b + "." + b + " AS " + a, a + "." + b + " as " + b} {
			checkFieldSpec(c, s)
		}
	})
	extendNear("C12", "specifications of a table of one name with the other as alias", func(c *mc.Ctx, a, b string) {
		for _, s := range []string{a, a + " " + b, a + " as " + b, b + " AS " + b, b + " " + a} {
			checkTableSpec(c, s)
		}
	})
	extendNear("C22", "slices of both, once and repeated, among others", func(c *mc.Ctx, a, b string) {
		x, y := query.FieldName(a), query.FieldName(b)
		checkUniq(c, pick(c, []query.FieldName{x, y}, []query.FieldName{y, x, y, x}, []query.FieldName{"o", x, "p", y, x, "o"}, []query.FieldName{x + ".f", y + ".f", x, y, y + ".f"}), 0)
	})
	extendNear("C23", "maps with both as keys", func(c *mc.Ctx, a, b string) {
		keys := pick(c, []string{a, b}, []string{"o", b, a}, []string{"t." + a, "t." + b, a}, []string{a + ".f", b + ".f", b})
		vs := []any{1, 2, 3}[:len(keys)]
		checkMap(c, keys, vs, vs, 3)
	})
	extendNear("C17", "ordering by both", func(c *mc.Ctx, a, b string) {
		terms := []sqlx.Term{{Ref: a, Dir: "ASC"}, {Ref: b, Dir: "DESC"}, {Ref: a + "." + b, Dir: "DESC"}, {Ref: b + "." + b, Dir: "ASC"}}
		newSel(kMany, query.Table("t")).OrderBy(terms...).check(c)
		for _, t := range terms {
			if err := query.FieldName(t.Ref).Validate(); err != nil {
				c.Failf("%q is refused: %v", t.Ref, err)
			}
		}
	})
	extendNear("C20", "the statements on tables and fields of both names in every form", func(c *mc.Ctx, a, b string) {
		x := query.FieldName(a + "." + b).EqualTo(1)
		y := query.EqualTo(query.FieldName(b), 2)
		text := pick(c, a, a+" as "+b)
		t := query.Table(text)
		sameStatements(c, []form[builder]{
			{"text", func() builder { return query.SelectFrom(text).Where(x).Where(y) }}, {"name", func() builder { return query.TableName(text).Select(x, y) }},
			{"ident", func() builder { return query.Table(text).Select(x, y) }}, {"many", func() builder { return t.SelectMany(x).Where(y) }},
			{"function", func() builder {
				return query.SelectFrom(t).Where(query.And(query.EqualTo(query.FieldName(a+"."+b), 1), y))
			}},
		})
		v, w := query.FieldName(a).Value(1), query.FieldName(b).Value(2)
		sameStatements(c, []form[builder]{
			{"text", func() builder { return query.InsertInto(a).Values(v, w) }}, {"name", func() builder { return query.TableName(a).InsertInto(v, w) }},
			{"ident", func() builder { return t.InsertInto(v).Values(w) }}, {"select", func() builder { return t.Select().InsertInto(v, w) }},
		})
	})
	mc.Extend("C27", mc.Family{Name: "near", Quick: []int{12}, Thorough: []int{40}, Doc: nearDoc + "what is built of one after the other yields what it yields when it is the first thing ever done",
		Body: func(c *mc.Ctx) {
			a, b := near(c)
			mk := func(a string) func() []any {
				return func() []any {
					n := query.FieldName(a)
					return yieldsAll(
						query.SelectManyFrom(a).Fields(query.Field(a), query.Field("t."+a), query.Field(a+" as k")).Where(n.EqualTo(1), query.In(n, []int{1})).OrderBy(query.ASC(n)),
						query.SelectFrom("t as "+a).LeftJoin(query.Table(a)).On(query.Field(a+".f"), query.Field("t."+a)),
						query.InsertInto(a).Values(n.Value(a)), query.Update(a).Set(n.Value(a)).Where(query.Contains(n, a)), query.Delete(a).Where(query.IsNull(n)),
						query.Count(query.SelectFrom(a), n), query.EqualTo("f", 1).ApplyFieldTable(query.TableName(a)), query.NewFields(a, n))
				}
			}
			inOrder(c, []act0{{a, mk(a)}, {b, mk(b)}})
			c.State(a, b)
		}})

	for _, id := range []string{"C02", "C03", "C04", "C19"} {
		id := id
		mc.Extend(id, mc.Family{Name: "starts", Quick: []int{0}, Thorough: []int{0}, Doc: startDoc + "conditions of every kind, plain, negated, nested, external and combined; where clauses, limiters, and selects with offset and limit",
			Body: func(c *mc.Ctx) {
				s := startCount(c)
				x := startable(c)
				c.Op("%s from %d", x.Desc, s)
				c.State(x.Desc, fmt.Sprint(s))
				w := query.NewWhere().GroupAND(model.Eq("w", 1).Real, x.Real)
				wn := model.Where(nil, []cond{model.Eq("w", 1), x})
				b := query.SelectFrom("t").Where(x.Real)
				m := b.Many().OrderBy(query.ASC("o")).Offset(5).Limit(6)
				if id == "C04" {
					rendersAgree(c, x.Desc, x.Real, []int{s})
					rendersAgree(c, "clause", w, []int{s})
					rendersAgree(c, "select", b, []int{s})
					rendersAgree(c, "many", m, []int{s})
					rendersAgree(c, "limiter", query.Limiter{}.Offset(3).Limit(4), []int{s})
					return
				}
				condMeans(c, x.Desc, x.Real, x.N, s)
				consecutiveFrom(c, x.Desc, x.Real, x.N, s)
				consecutiveFrom(c, "clause", w, wn, s)
				for i, r := range []renderer{b, m} {
					st, err := sqlx.ParseStmt(r.Render(s), r.Values(), s, false)
					if err == nil {
						err = sqlx.Consecutive(st.Placeholders, s)
					}
					if err != nil {
						c.Failf("select %d from %d: %q %v: %v", i, s, r.Render(s), r.Values(), err)
					}
					sameFilter(c, "select", st.Where, x.N)
				}
			}})
	}
	mc.Extend("C21", mc.Family{Name: "starts", Quick: []int{0}, Thorough: []int{0}, Doc: startDoc + "limiters with offset, limit or both",
		Body: func(c *mc.Ctx) {
			s := startCount(c)
			o, l := pick(c, uint(0), 5), pick(c, uint(0), 6)
			var want []string
			k := s
			if o > 0 {
				k++
				want = append(want, fmt.Sprintf("OFFSET $%d", k))
			}
			if l > 0 {
				k++
				want = append(want, fmt.Sprintf("LIMIT $%d", k))
			}
			x := query.Limiter{}.Offset(o).Limit(l)
			if got := strings.Join(strings.Fields(x.Render(s)), " "); got != strings.Join(want, " ") {
				c.Failf("offset %d, limit %d: Render(%d) is %q, expected %q", o, l, s, got, want)
			}
			c.Count(1)
			c.State(fmt.Sprint(s, o, l))
		}})
}

// manyNear are the fields made of two names.
func manyNear(a, b string) []ref {
	return []ref{{Name: a}, {Name: b}, {Table: a, Name: b}, {Table: b, Name: b}, {Name: a, Alias: b}, {Table: b, Name: b, Alias: a}}
}
