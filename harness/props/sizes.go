package props

import (
	"fmt"
	"strings"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

// Magnitudes: the same things in every number, where ordinary histories stay small.

// edges are numbers around which sizes, digits and buffers change.
var edges = []int{63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025}

// size chooses every number up to small, then the edges from there up to big.
func size(c *mc.Ctx, small, big int) int {
	if c.Tier == "smoke" {
		small, big = min(small, 12), 12
	}
	n := small + 1
	var far []int
	for _, e := range edges {
		if e > small && e <= big {
			far = append(far, e)
		}
	}
	k := c.Choose(n + len(far))
	if k < n {
		return k
	}
	return far[k-n]
}

// manyLeaves are n conditions of different kinds.
func manyLeaves(n *namer, k int) []cond {
	var cs []cond
	for i := 0; i < k; i++ {
		cs = append(cs, n.op(model.Ops[i%len(model.Ops)]))
	}
	return cs
}

// deepCond wraps a leaf in k layers.
func deepCond(c *mc.Ctx, n *namer, k int) cond {
	x := n.eq()
	how := c.Choose(7)
	for i := 0; i < k; i++ {
		op := []query.JoinType{and, or}[i%2]
		switch how {
		case 0: // alternating And and Or with one more
			x, _ = model.Combine(model.Method, op, x, n.eq())
		case 1: // the same with the growing one second
			x, _ = model.Combine(model.Func, op, n.eq(), x)
		case 2:
			x = model.NewGroup(op, x, n.op("IN"))
		case 3: // groups of one
			x = model.NewGroup(op, x)
		case 4: // negations of groups
			x = model.Not(model.NewGroup(op, n.op("IS NULL"), x))
		case 5: // one long run of the same operator, one by one
			x, _ = model.Combine(model.Method, or, x, n.eq())
		case 6:
			if i == 0 {
				x = model.NewGroup(and, x, n.eq())
			}
			x, _ = model.Brackets(x)
			if i%3 == 2 {
				x = model.NewGroup(or, x, n.eq())
			}
		}
	}
	return x
}

// bigCond is a condition large in one way.
func bigCond(c *mc.Ctx, small, big int) cond {
	n := &namer{}
	switch c.Choose(5) {
	case 0: // wide
		k := size(c, small, big)
		x := model.NewGroup(pick(c, and, or), manyLeaves(n, k)...)
		if c.Bool() {
			x = model.Not(x)
		}
		return x
	case 1: // deep
		return deepCond(c, n, size(c, small, min(big, deepest(c))))
	case 2: // many parameters in one condition, between others
		k := size(c, small, big)
		vs, ps := make([]int, k), make([]any, k)
		for i := range vs {
			vs[i], ps[i] = i, i
		}
		r := ref{Table: "t", Name: "long"}
		var x cond
		switch c.Choose(4) {
		case 0:
			x = model.NewLeaf("IN", r, vs, ps, false)
		case 1:
			x = model.Not(model.NewLeaf("IN", r, ps, ps, true))
		case 2:
			x = model.NewCustom(model.CFunc, true, "ext", r, ps...)
		case 3:
			x = model.NewOwn("ext", r, ps...)
		}
		return model.NewGroup(pick(c, and, or), n.eq(), x, n.op("IN"))
	case 3: // long names
		k := 1 + size(c, small, big)
		r := ref{Name: strings.Repeat("n", k)}
		switch c.Choose(4) {
		case 1:
			r.Table = strings.Repeat("t", k)
		case 2:
			r.Alias = strings.Repeat("a", k)
		case 3:
			r.Table, r.Alias = "t", r.Name
		}
		return model.NewGroup(or, model.Simple(model.Ops[c.Choose(len(model.Ops))], r, k), n.eq())
	}
	// flags set many times
	k := size(c, small, big)
	x := pick(c, n.eq(), model.NewGroup(or, n.eq(), n.op("LIKE")), model.NewCustom(model.CFunc, false, "ext", ref{Name: "e"}, 1))
	how := c.Choose(3)
	for i := 0; i < k; i++ {
		switch {
		case how == 0:
			x = model.Not(x)
		case how == 1:
			x = model.Negate(x, i%2 == 0)
		default:
			x = model.Join(x, []query.JoinType{or, and}[i%2])
		}
	}
	if len(x.Desc) > 200 {
		x.Desc = fmt.Sprintf("%s... (%d flag operations)", x.Desc[:200], k)
	}
	return model.NewGroup(and, n.eq(), x, n.op("IN"))
}

const bigSelDoc = "selects of every kind that have every number 0..<bound> (and numbers around powers of two and ten beyond) of one thing: fields, joins, ordering terms (at once, one by one), conditions (at once, one by one, ORed by one call, among empty calls), conversions back and forth, changes of offset and limit; characters in the names of table, alias, fields, join and ordering; nested groups; values in a list; an offset or limit of that number"

// bigSel is a select large in one way; n is how large.
func bigSel(c *mc.Ctx, small, big int) (x sel, k int) {
	n := &namer{}
	kind := pick(c, kBase, kMany, kSingle)
	what := c.Choose(16)
	k = size(c, small, big)
	x = newSel(kind, query.Table("t"))
	if what != 13 {
		x = x.Where(n.op("IN")) // something numbered before it
	}
	switch what {
	case 0:
		var rs []ref
		for i := 0; i < k; i++ {
			rs = append(rs, []ref{{Name: fmt.Sprintf("c%d", i)}, {Table: "t", Name: fmt.Sprintf("c%d", i)}, {Name: "c", Alias: fmt.Sprintf("a%d", i)}}[i%3])
		}
		x = x.Fields(rs...)
	case 1:
		for i := 0; i < k; i++ {
			t := query.Table(fmt.Sprintf("j%d", i))
			if i%2 == 1 {
				t = t.As(query.TableName(fmt.Sprintf("k%d", i)))
			}
			x = x.Join(t, i%4, i%3 == 0, ref{Table: "t", Name: "id"}, ref{Table: fmt.Sprintf("j%d", i), Name: "tid"})
		}
	case 2, 3:
		var ts []sqlx.Term
		for i := 0; i < k; i++ {
			ts = append(ts, sqlx.Term{Ref: fmt.Sprintf("o%d", i), Dir: []string{"ASC", "DESC"}[i%2]})
		}
		if what == 2 {
			x = x.OrderBy(ts...)
		} else {
			for _, t := range ts {
				x = x.OrderBy(t)
			}
		}
	case 4:
		x = x.Where(manyLeaves(n, k)...)
	case 5:
		for _, l := range manyLeaves(n, k) {
			x = x.Where(l)
		}
	case 6:
		if k > 0 {
			x = x.Where(model.NewGroup(or, manyLeaves(n, k)...))
		}
	case 7:
		for i := 0; i < k; i++ {
			x = x.Where()
			x = x.Where(model.NewGroup(and))
		}
		x = x.Where(n.eq())
	case 8:
		x = x.Fields(ref{Name: "a"}).Join(query.Table("j"), 1, true, ref{Table: "t", Name: "id"}, ref{Table: "j", Name: "tid"})
		for i := 0; i < k; i++ {
			x = x.Convert([]string{"Many", "Single", "SelectManyFromBase", "BaseSelectBuilder"}[i%4])
		}
	case 9:
		for i := 0; i < k; i++ {
			if i%2 == 0 {
				x = x.Offset(uint(i))
			} else {
				x = x.Limit(i)
			}
		}
	case 10:
		s := strings.Repeat("n", k+1)
		x = x.Fields(ref{Name: s}, ref{Table: s, Name: "f" + s, Alias: "a" + s}).OrderBy(sqlx.Term{Ref: "oo" + s, Dir: "DESC"}).
			Join(query.Table("j"+s).As(query.TableName("k"+s)), 0, false, ref{Table: "t" + s, Name: s}, ref{Table: "j" + s, Name: "r" + s})
	case 11:
		s := strings.Repeat("n", k+1)
		x = newSel(kind, query.Table("t"+s).As(query.TableName("x"+s))).Where(model.Simple("<", ref{Table: "x" + s, Name: s}, 5))
	case 12:
		if k > deepest(c) {
			c.Skip()
		}
		x = x.Where(deepCond(c, n, k))
	case 13:
		vs, ps := make([]string, k), make([]any, k)
		for i := range vs {
			vs[i] = fmt.Sprint("v", i)
			ps[i] = vs[i]
		}
		x = x.Where(model.NewLeaf("IN", ref{Name: "f"}, vs, ps, false)).Where(n.eq()).Limit(7).Offset(8)
	case 14:
		x = x.Offset(uint(k)).Limit(7)
	case 15:
		x = x.Limit(k).Offset(7)
	}
	if len(x.desc) > 300 {
		x.desc = fmt.Sprintf("%s... (way %d, size %d)", x.desc[:300], what, k)
	}
	c.Op("%s", x.desc)
	c.Tag(fmt.Sprintf("way%02d", what))
	return x, k
}

// plainNames are names that are easily taken for something else, all legal as they are.
var plainNames = []string{"t", "T", "Users", "x", "as_x", "asx", "AS1", "orders", "order_by", "selected", "fromage", "wheres", "notes", "nota", "android", "ands", "ori", "ors", "inn", "ins", "isnull", "nullx", "likes", "ilikes",
	"on1", "onx", "joined", "lefty", "inner_t", "limits", "offset2", "ascending", "descr", "desc_", "set1", "values2", "into_", "count1", "truex", "falsey", "_", "_a", "a_", "a1", "x1y2", "a__b", "таблица", "é", "名", "ſ", "İ", "between2", `"Quoted"`, "f"}

// namedSel is a select whose names are chosen out of plainNames, one at a time and in pairs.
func namedSel(c *mc.Ctx) sel {
	a := plainNames[c.Choose(len(plainNames))]
	b := pick(c, "t", "x", "other", a, strings.ToUpper(a), a+"_", "_"+a)
	if strings.ContainsRune(b, '"') && b != a {
		b = `"Q2"`
	}
	t, al, col, fa, jt := "t", "", "c", "ca", "j"
	switch c.Choose(6) {
	case 0:
		t, al = a, b
	case 1:
		t, al = b, a
	case 2:
		t, col, fa = b, a, ""
	case 3:
		col, fa = b, a
	case 4:
		jt, t = a, b
	case 5:
		t, col, jt, fa = a, a, a, b
	}
	id := query.Table(t)
	if al != "" {
		id = id.As(query.TableName(al))
	}
	x := newSel(pick(c, kBase, kMany, kSingle), id)
	x = x.Fields(ref{Name: col, Alias: fa}, ref{Table: t, Name: col}, ref{Table: t, Name: col, Alias: fa})
	x = x.Join(query.Table(jt), 1, false, ref{Table: t, Name: col}, ref{Table: jt, Name: col})
	x = x.Where(model.NewGroup(or, model.Simple("IN", ref{Table: t, Name: col}, 1), model.Simple("LIKE", ref{Name: col, Alias: fa}, 2), model.Not(model.Simple("=", ref{Name: a}, 3))))
	if !strings.ContainsRune(t+col, '"') && c.Bool() { // quotes are refused in orderings
		x = x.OrderBy(sqlx.Term{Ref: col, Dir: "DESC"}, sqlx.Term{Ref: t + "." + col, Dir: "ASC"})
	}
	c.Op("%s", x.desc)
	return x
}

const namesDoc = "selects of every kind whose table, alias, column, field alias or joined table is called by each of 55 names that resemble keywords, prefixes of keywords, other letter cases, letters of other scripts, quoted names, paired with a like name for the other parts"

func big(c *mc.Ctx, quick, thorough int) int {
	if c.Tier == "thorough" {
		return thorough
	}
	return quick
}

// numbered builds the select and what is made from it; all placeholders are consecutive.
func numbered(c *mc.Ctx, x sel) {
	x.matches(c, x.desc, stmtOK(c, x.desc, x.is()))
	vs := []query.FieldValue{query.FieldName("p").Value(901), query.FieldName("q").Value(902)}
	set := []sqlx.Assign{{Col: "p", Val: 901}, {Col: "q", Val: 902}}
	sameFilter(c, "count", stmtOK(c, "count", x.Count()).Where, x.filter)
	if x.filter != nil && !x.filter.Empty() {
		st := stmtOK(c, "update", x.Update(vs...))
		checkAssign(c, "update", st.Set, set)
		sameFilter(c, "update", st.Where, x.filter)
		sameFilter(c, "delete", stmtOK(c, "delete", x.Delete()).Where, x.filter)
	}
	c.State(x.key())
}

// deepest is how far nesting goes: the library takes a time that grows with the third power of the depth.
func deepest(c *mc.Ctx) int { return big(c, 65, 129) }
