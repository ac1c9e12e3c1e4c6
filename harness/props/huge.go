package props

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

// Far larger numbers of parts than the other families use: past every width of small integers, buffers and limits of databases.

// huge chooses such a number.
func huge(c *mc.Ctx, most int) int {
	ns := []int{1026, 2049, 4097, 10001, 32769, 65537}
	switch c.Tier {
	case "thorough":
		ns = append(ns, 1500, 2048, 3000, 4096, 5000, 8192, 8193, 9999, 10000, 16384, 16385, 32766, 32767, 32768, 50000, 65534, 65535, 65536, 99999, 100000, 100001, 131073)
	case "smoke":
		ns = ns[:2]
	}
	n := ns[c.Choose(len(ns))]
	if n > most {
		c.Skip()
	}
	return n
}

const hugeDoc = "around a thousand to 65537 (131073), where a check is not slow "

func hugeValues(n int) (vs []query.FieldValue, want []sqlx.Assign) {
	for i := 0; i < n; i++ {
		col := fmt.Sprintf("c%d", i)
		vs = append(vs, query.FieldName(col).Value(i))
		want = append(want, sqlx.Assign{Col: col, Val: i})
	}
	return vs, want
}

// hugeWrites are inserts and updates of n columns.
func hugeWrites(c *mc.Ctx) {
	n := huge(c, math.MaxInt)
	vs, want := hugeValues(n)
	how := c.Choose(4)
	c.Op("%d columns, way %d", n, how)
	nm := &namer{}
	first, second := nm.op("IN"), nm.eq()
	filter := model.Where(model.Where(nil, []cond{first}), []cond{second})
	switch how {
	case 0:
		checkAssign(c, "insert", stmtOK(c, "insert", query.InsertInto("t").Values(vs...)).Set, want)
	case 1:
		st := stmtOK(c, "update", query.Update("t").Set(vs...).Where(first.Real).Where(second.Real))
		checkAssign(c, "update", st.Set, want)
		sameFilter(c, "update", st.Where, filter)
	case 2:
		checkAssign(c, "insert in two calls", stmtOK(c, "insert", query.InsertInto("t").Values(vs[:n-1]...).Values(vs[n-1:]...)).Set, want)
	case 3:
		st := stmtOK(c, "update in two calls", query.SelectFrom("t").Where(first.Real).Update(vs[:1]...).Set(vs[1:]...).Where(second.Real))
		checkAssign(c, "update in two calls", st.Set, want)
		sameFilter(c, "update in two calls", st.Where, filter)
	}
	c.State(fmt.Sprint(n, how))
}

// hugeSelect has one part repeated n times.
func hugeSelect(c *mc.Ctx) sel {
	x := newSel(pick(c, kBase, kMany, kSingle), query.Table("t as u"))
	fields, terms, joins := 10001, 2049, 1026
	if c.Tier == "thorough" {
		fields, terms, joins = 131073, 10001, 2049
	}
	part := c.Choose(3)
	switch part {
	case 0:
		n := huge(c, fields)
		var rs []ref
		for i := 0; i < n; i++ {
			r := ref{Name: fmt.Sprintf("f%d", i)}
			if i%3 > 0 {
				r.Table = "u"
			}
			if i%3 > 1 {
				r.Alias = fmt.Sprintf("a%d", i)
			}
			rs = append(rs, r)
		}
		x = x.Fields(rs...)
	case 1:
		if x.kind != kMany {
			c.Skip()
		}
		n := huge(c, terms)
		var ts []sqlx.Term
		for i := 0; i < n; i++ {
			ts = append(ts, sqlx.Term{Ref: fmt.Sprintf("o%d", i), Dir: []string{"ASC", "DESC"}[i%2]})
		}
		x = x.OrderBy(ts...)
	case 2:
		n := huge(c, joins)
		for i := 0; i < n; i++ {
			x = x.Join(query.Table(fmt.Sprintf("j%d", i)), i%4, false, ref{Table: "u", Name: "id"}, ref{Table: fmt.Sprintf("j%d", i), Name: "rid"})
		}
	}
	n := &namer{}
	x = x.Where(n.op("IN"), n.eq())
	if x.kind == kMany {
		x = x.Limit(7).Offset(8)
	}
	return x
}

func init() {
	ext := func(id, doc string, body func(c *mc.Ctx)) {
		mc.Extend(id, mc.Family{Name: "huge", Quick: []int{0}, Thorough: []int{0}, Doc: hugeDoc + doc, Body: body})
	}
	ext("C03", "columns of inserts and updates in four ways, and parts of selects: placeholders are consecutive and each has its parameter", func(c *mc.Ctx) {
		if c.Bool() {
			hugeWrites(c)
			return
		}
		x := hugeSelect(c)
		x.check(c)
		c.State(fmt.Sprint(len(x.fields), len(x.order), len(x.joins)))
	})
	ext("C09", "columns of inserts and updates in four ways: each column gets its own value", hugeWrites)
	ext("C08", "fields, ordering terms or joins of a select: all of them are in the statement, in order", func(c *mc.Ctx) {
		x := hugeSelect(c)
		x.check(c)
		c.State(fmt.Sprint(len(x.fields), len(x.order), len(x.joins)))
	})
	ext("C15", "fields, ordering terms or joins of a select: converted, counted and turned into writes", func(c *mc.Ctx) {
		x := hugeSelect(c)
		derived(c, x)
		c.State(fmt.Sprint(len(x.fields), len(x.order), len(x.joins)))
	})
	ext("C05", "elements given to a list of a builder at once, then one more to it and to its result: nothing given, changed by the caller afterwards, and nothing derived changes what is there", func(c *mc.Ctx) {
		g := grows[c.Choose(len(grows))]
		most := 2049
		if c.Tier == "thorough" {
			most = 10001
		}
		switch {
		case strings.HasSuffix(g.name, "Join"):
			most = 1026
		case strings.Contains(g.name, "Where") || strings.Contains(g.name, "where") || strings.Contains(g.name, "group"):
			if c.Tier != "thorough" { // slow; sizes goes to 130
				c.Skip()
			}
			most = 2049
		}
		n := huge(c, most)
		w := &world{c: c}
		w.root(fmt.Sprintf("%s filled with %d", g.name, n), func() any { return g.add(g.start(), 0, n) })
		for f, p := range []int{0, 0, 1} {
			id := 1000 + f
			w.add(g.name, []int{p}, func(ps []any) any { return g.add(ps[0], id, 1) })
		}
		w.finish()
	})
	ext("C22", "names, all different or each repeated: every one is there once", func(c *mc.Ctx) {
		n, k := huge(c, 10001), 1+c.Choose(2)
		var in []query.FieldName
		for i := 0; i < n; i++ {
			in = append(in, query.FieldName(fmt.Sprintf("n%d", i/k)))
		}
		checkUniq(c, in, 0)
	})
	ext("C23", "keys of a map: each is there once with its value", func(c *mc.Ctx) {
		n := huge(c, math.MaxInt)
		var keys []string
		var vs []any
		for i := 0; i < n; i++ {
			keys, vs = append(keys, fmt.Sprintf("k%d", i)), append(vs, i)
		}
		checkMap(c, keys, vs, vs, 1)
	})
	ext("C10", "characters or bytes of one value, up to a million, through every way into a statement and both LIKE conditions; elements of a list of In: nothing is cut, changed or dropped", func(c *mc.Ctx) {
		kind := c.Choose(5)
		if kind == 4 {
			n := huge(c, math.MaxInt)
			in, want := make([]string, n), make([]any, n)
			for i := range in {
				in[i], want[i] = fmt.Sprint(i), fmt.Sprint(i)
			}
			m := inMakers[c.Choose(len(inMakers))]
			checkParams(c, m.name+" of many texts", m.f, in, want, false)
			c.State("list", m.name, fmt.Sprint(n))
			return
		}
		ns := []int{2000, 3999, 4001, 8001, 32768, 65536, 100000, 1<<20 + 1}
		n := ns[c.Choose(len(ns))]
		s := strings.Repeat("x", n-1) + "y"
		if c.Bool() {
			s = strings.Repeat("щ", n/2) + "y"
		}
		m := makers[c.Choose(len(makers))]
		var v any
		want := []any{s}
		switch kind {
		case 0:
			v = s
		case 1:
			v = []byte(s)
			want = []any{[]byte(s)}
		case 2:
			v = &s
			want = []any{&s}
		case 3:
			v = model.Word(s)
			want = []any{model.Word(s)}
			for i, x := range []query.Condition{query.Contains("f", s), query.IContains("f", s)} {
				if got := x.Values(); !model.SameAll(got, []any{"%" + s + "%"}) {
					c.Failf("form %d of %d characters has other values", i, n)
				}
			}
		}
		c.Count(1)
		got, err := m.f(v)
		if err != nil || len(got) != 1 || !(reflect.DeepEqual(got, want)) {
			c.Failf("%s of %T with %d characters: not passed as it is: %v", m.name, v, n, err)
		}
		c.State(fmt.Sprint(kind, n, m.name))
	})
}
