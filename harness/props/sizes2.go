package props

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

// short keeps descriptions of large things readable.
func short(s string) string {
	if len(s) > 300 {
		return s[:300] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

// extents are sizes of texts and lists that are cheap to look at.
func extents(c *mc.Ctx) int { return size(c, c.Bound, big(c, 1025, 1025)) }

// Families of sizes and names for the other properties.
func init() {
	mc.Extend("C05", mc.Family{Name: "sizes", Quick: []int{10}, Thorough: []int{70},
		Doc: "each growable list filled with n elements, n every number up to <bound> and around powers of two and ten up to 130 (300), at once, one by one or in pairs; then two additions of 1..2 elements to it, and one to the first of the two; all observed after each and compared with the same built alone",
		Body: func(c *mc.Ctx) {
			g := grows[c.Choose(len(grows))]
			n := size(c, c.Bound, big(c, 130, 300))
			how := c.Choose(3)
			w := &world{c: c}
			w.root(fmt.Sprintf("%s filled with %d, way %d", g.name, n, how), func() any {
				v := g.start()
				switch {
				case n == 0:
				case how == 0:
					v = g.add(v, 0, n)
				default:
					for i := 0; i < n; i += how {
						v = g.add(v, i, min(how, n-i))
					}
				}
				return v
			})
			for f, p := range []int{0, 0, 1} {
				k, id := 1+c.Choose(2), 1000+f
				w.add(fmt.Sprintf("%s of %d", g.name, k), []int{p}, func(ps []any) any { return g.add(ps[0], id, k) })
				w.recheck("this")
			}
			w.finish()
		}})

	mc.Extend("C07", mc.Family{Name: "sizes", Quick: []int{20}, Thorough: []int{70},
		Doc: "updates, deletes and inserts after n calls or with n parts that add nothing (empty Where, Set and Values calls, empty groups side by side, nested, negated, in brackets), n every number up to <bound> and around powers of two and ten beyond (nesting up to 65 or 129), then with and without one condition and one value; long table names",
		Body: func(c *mc.Ctx) {
			what := c.Choose(8)
			n := size(c, c.Bound, 300)
			if what < 4 && what > 0 && n > deepest(c) {
				c.Skip()
			}
			table := "t"
			var calls [][]cond
			switch what {
			case 0:
				for i := 0; i < n; i++ {
					calls = append(calls, []cond{})
				}
			case 1, 2, 3: // nested
				x := model.NewGroup(and)
				for i := 0; i < n; i++ {
					switch what {
					case 1:
						x = model.NewGroup([]query.JoinType{or, and}[i%2], x)
					case 2:
						x = model.Not(model.NewGroup(or, x))
					case 3:
						x, _ = model.Brackets(model.NewGroup(or, model.NewGroup(and), x))
					}
				}
				calls = append(calls, []cond{x})
			case 4, 5: // side by side
				var xs []cond
				for i := 0; i < n; i++ {
					x := model.NewGroup([]query.JoinType{or, and}[i%2])
					if i%3 == 1 {
						x = model.Not(x)
					}
					xs = append(xs, x)
				}
				if what == 5 {
					xs = []cond{model.NewGroup(or, xs...)}
				}
				calls = append(calls, xs)
			case 6: // one by one
				for i := 0; i < n; i++ {
					calls = append(calls, []cond{model.NewGroup([]query.JoinType{or, and}[i%2])})
				}
			case 7:
				table = strings.Repeat("t", n)
			}
			at := c.Choose(3) // where the condition comes: nowhere, before, after
			leaf := []cond{model.Eq("f", 1)}
			switch at {
			case 1:
				calls = append([][]cond{leaf}, calls...)
			case 2:
				calls = append(calls, leaf)
			}
			set := c.Bool()
			upd, del, ins := query.Update(table), query.Delete(table), query.InsertInto(table)
			via := newSel(pick(c, kBase, kMany, kSingle), query.Table("t"))
			var filter *model.Node
			v := query.FieldName("x").Value(7)
			if set && n%2 == 0 {
				upd, ins = upd.Set(v), ins.Values(v)
			}
			for _, cs := range calls {
				filter = model.Where(filter, cs)
				rs := model.Reals(cs)
				upd, del, ins = upd.Where(rs...).Set(), del.Where(rs...), ins.Values()
				via = via.Where(cs...)
			}
			if set && n%2 == 1 {
				upd, ins = upd.Set(v), ins.Values(v)
			}
			c.Op("way %d, size %d, condition %d, value %v", what, n, at, set)
			var as []sqlx.Assign
			var vs []query.FieldValue
			if set {
				as, vs = []sqlx.Assign{{Col: "x", Val: 7}}, []query.FieldValue{v}
			}
			guarded(c, "update", upd, "UPDATE", filter, table, as)
			guarded(c, "delete", del, "DELETE", filter, table, nil)
			if what != 7 {
				guarded(c, "update from a select", via.Update(vs...), "UPDATE", filter, table, as)
				guarded(c, "delete from a select", via.Delete(), "DELETE", filter, table, nil)
			}
			if !set || table == "" {
				wantErr(c, "insert", ins)
			} else {
				checkAssign(c, "insert", stmtOK(c, "insert", ins).Set, as)
			}
			c.State(fmt.Sprint(what, n, at, set))
		}})

	mc.Extend("C09",
		mc.Family{Name: "sizes", Quick: []int{20}, Thorough: []int{70},
			Doc: "inserts and updates of n columns, n every number up to <bound> and around powers of two and ten up to 1025, given at once, one by one, or in two halves, with a list of two or of none first, in the middle, last or nowhere; texts, bytes and names of n characters",
			Body: func(c *mc.Ctx) {
				n := 1 + extents(c)
				how := c.Choose(5)
				bad := -1
				var want []sqlx.Assign
				var vs []query.FieldValue
				if how < 3 {
					bad = pick(c, -1, 0, n/2, n-1)
					for i := 0; i < n; i++ {
						var v any = i
						if i == bad {
							v = []string{"x", "y"}[:2*c.Choose(2)]
						}
						col := fmt.Sprintf("c%d", i)
						vs = append(vs, query.FieldName(col).Value(v))
						want = append(want, sqlx.Assign{Col: col, Val: v})
					}
				} else {
					s := strings.Repeat("v", n)
					col := "c"
					var v any = s
					if how == 4 {
						col = s
						v = []byte(s)
					}
					vs = []query.FieldValue{query.FieldName("t." + col).Value(v), query.FieldName("second").Value(n)}
					want = []sqlx.Assign{{Col: col, Val: v}, {Col: "second", Val: n}}
				}
				ins, upd := query.InsertInto("t"), query.Update("t").Where(query.In("w", []int{901, 902}))
				switch how {
				case 1:
					for _, v := range vs {
						ins, upd = ins.Values(v), upd.Set(v)
					}
				case 2:
					ins, upd = ins.Values(vs[:n/2]...).Values(vs[n/2:]...), upd.Set(vs[:n/2]...).Set(vs[n/2:]...)
				default:
					ins, upd = ins.Values(vs...), upd.Set(vs...)
				}
				upd = upd.Where(query.EqualTo("z", 903))
				c.Op("size %d, way %d, list at %d", n, how, bad)
				if bad >= 0 {
					wantErr(c, "insert", ins)
					wantErr(c, "update", upd)
					return
				}
				filter := model.Where(nil, []cond{model.NewLeaf("IN", ref{Name: "w"}, []int{901, 902}, []any{901, 902}, false), model.Eq("z", 903)})
				checkAssign(c, "insert", stmtOK(c, "insert", ins).Set, want)
				st := stmtOK(c, "update", upd)
				checkAssign(c, "update", st.Set, want)
				sameFilter(c, "update", st.Where, filter)
				c.State(fmt.Sprint(n, how))
			}},
		mc.Family{Name: "names", Quick: []int{0}, Thorough: []int{0},
			Doc: "inserts and updates whose table and columns are called by each pair of 55 names that resemble keywords, prefixes of keywords, other letter cases, letters of other scripts, quoted names",
			Body: func(c *mc.Ctx) {
				a, b := plainNames[c.Choose(len(plainNames))], plainNames[c.Choose(len(plainNames))]
				vs := []query.FieldValue{query.FieldName(b).Value(1), query.Field(b).Of(query.TableName(a)).Value(2), query.FieldName(a).Value(3)}
				want := []sqlx.Assign{{Col: b, Val: 1}, {Col: b, Val: 2}, {Col: a, Val: 3}}
				c.Op("table %q column %q", a, b)
				st := stmtOK(c, "insert", query.InsertInto(a).Values(vs...))
				if st.Table.Name != a {
					c.Failf("insert into %v, expected %q", st.Table, a)
				}
				checkAssign(c, "insert", st.Set, want)
				x := model.Simple("IN", ref{Table: a, Name: b}, 5)
				st = stmtOK(c, "update", query.Update(a).Set(vs...).Where(x.Real))
				if st.Table.Name != a {
					c.Failf("update of %v, expected %q", st.Table, a)
				}
				checkAssign(c, "update", st.Set, want)
				sameFilter(c, "update", st.Where, x.N)
				c.State(a, b)
			}})

	mc.Extend("C10", mc.Family{Name: "sizes", Quick: []int{20}, Thorough: []int{70},
		Doc: "lists of n elements of each type of the alphabet, arrays and []any of mixed types, through In in six ways; texts and bytes of n characters through Contains, IContains and every way into a statement; n every number up to <bound> and around powers of two and ten up to 1025",
		Body: func(c *mc.Ctx) {
			n := extents(c)
			switch c.Choose(4) {
			case 0: // one type
				v := model.Singles[c.Choose(len(model.Singles))]
				if v.V == nil || v.Fails || reflect.TypeOf(v.V).Kind() == reflect.Uint8 {
					c.Skip()
				}
				t := reflect.TypeOf(v.V)
				l := reflect.MakeSlice(reflect.SliceOf(t), n, n)
				want := []any{}
				for i := 0; i < n; i++ {
					l.Index(i).Set(reflect.ValueOf(v.V))
					want = append(want, v.Single...)
				}
				m := inMakers[n%len(inMakers)]
				c.Op("%s of %d times %s", m.name, n, v.Name)
				checkParams(c, fmt.Sprintf("%s of %d times %s", m.name, n, v.Name), m.f, l.Interface(), want, false)
				c.State(v.Name, fmt.Sprint(n))
			case 1: // different ints
				var l any
				want := []any{}
				in := make([]int64, n)
				for i := range in {
					in[i] = int64(i) - 3
					want = append(want, in[i])
				}
				l = in
				if c.Bool() {
					a := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(int64(0)))).Elem()
					reflect.Copy(a, reflect.ValueOf(in))
					l = a.Interface()
				}
				m := inMakers[c.Choose(len(inMakers))]
				c.Op("%s of %T", m.name, l)
				checkParams(c, fmt.Sprintf("%s of %T", m.name, l), m.f, l, want, false)
			case 2: // mixed
				from := c.Choose(7)
				in := []any{}
				want := []any{}
				for i, k := 0, from; i < n; k++ {
					v := model.Singles[k%len(model.Singles)]
					if v.Fails {
						continue
					}
					in, want = append(in, v.V), append(want, v.Single...)
					i++
				}
				m := inMakers[c.Choose(len(inMakers))]
				c.Op("%s of %d mixed values from %d", m.name, n, from)
				checkParams(c, fmt.Sprintf("%s of %d mixed values", m.name, n), m.f, in, want, false)
			case 3: // texts
				s := strings.Repeat(pick(c, "a", "%", "я", "_\\"), n)
				c.Op("%d characters", n)
				for i, x := range []query.Condition{query.Contains("f", s), query.IContains("f", s), query.FieldName("f").Contains(s), query.FieldName("f").IContains(s)} {
					if got := x.Values(); !model.SameAll(got, []any{"%" + s + "%"}) {
						c.Failf("Contains form %d of %d characters: values %s", i, n, short(fmt.Sprintf("%q", got)))
					}
				}
				for _, m := range makers {
					checkParams(c, fmt.Sprintf("%s of a text of %d", m.name, len(s)), m.f, s, []any{s}, false)
					checkParams(c, fmt.Sprintf("%s of %d bytes", m.name, len(s)), m.f, []byte(s), []any{[]byte(s)}, false)
				}
			}
		}})

	longSpec := func(c *mc.Ctx, twoWords bool) string {
		n := extents(c)
		w := strings.Repeat(pick(c, "n", "я", "as", "_"), n+1)
		sp := " "
		t, name, mid, al := "t", "n", "as", "z"
		switch c.Choose(6) {
		case 0:
			t = w
		case 1:
			name = w
		case 2:
			al = w
		case 3:
			sp = strings.Repeat(pick(c, " ", "\t", "\u3000"), n+1)
		case 4:
			mid = strings.Repeat("as", n)
		case 5:
			mid = "as" + strings.Repeat(" more", n)
		}
		s := name
		if c.Bool() {
			s = t + "." + name
		}
		if k := c.Choose(3); k > 0 {
			if k == 2 || !twoWords {
				s += sp + mid
			}
			s += sp + al
		}
		return pick(c, "", sp) + s + pick(c, "", sp)
	}
	longDoc := "specifications with one part of n characters (table, name, alias, blanks, the word between, further words), n every number up to <bound> and around powers of two and ten up to 1025"
	namesDoc2 := "specifications put together out of every pair of 55 names that resemble keywords, prefixes of keywords, other letter cases, letters of other scripts, quoted names, in every role and letter case of the word as"
	pairSpec := func(c *mc.Ctx) string {
		a, b := plainNames[c.Choose(len(plainNames))], plainNames[c.Choose(len(plainNames))]
		switch c.Choose(5) {
		case 0:
			return a + "." + b
		case 1:
			return a + pick(c, " as ", " AS ", " As ", "\taS\n") + b
		case 2:
			return a + "." + b + " as " + a
		case 3:
			return b + "." + b + " AS " + a + "_" + b
		}
		return a + " " + b
	}
	mc.Extend("C11",
		mc.Family{Name: "sizes", Quick: []int{10}, Thorough: []int{70}, Doc: longDoc, Body: func(c *mc.Ctx) { checkFieldSpec(c, longSpec(c, false)) }},
		mc.Family{Name: "names", Quick: []int{0}, Thorough: []int{0}, Doc: namesDoc2, Body: func(c *mc.Ctx) { checkFieldSpec(c, pairSpec(c)) }})
	mc.Extend("C12",
		mc.Family{Name: "sizes", Quick: []int{10}, Thorough: []int{70}, Doc: longDoc, Body: func(c *mc.Ctx) { checkTableSpec(c, longSpec(c, true)) }},
		mc.Family{Name: "names", Quick: []int{0}, Thorough: []int{0}, Doc: namesDoc2, Body: func(c *mc.Ctx) { checkTableSpec(c, pairSpec(c)) }})

	mc.Extend("C16", mc.Family{Name: "sizes", Quick: []int{20}, Thorough: []int{70},
		Doc: "groups of n conditions and conditions nested n deep (six ways) over ten fields with names alike, n every number up to <bound> and around powers of two and ten beyond (300 wide, 33 or 65 deep), re-qualified once or twice; names of n characters that differ in the last one",
		Body: func(c *mc.Ctx) {
			what := c.Choose(3)
			n := size(c, c.Bound, 300)
			var x cond
			switch what {
			case 0:
				var xs []cond
				for i := 0; i < n; i++ {
					xs = append(xs, model.Simple(model.Ops[i%len(model.Ops)], namesakes[(i*3)%len(namesakes)], i))
				}
				x = model.NewGroup(pick(c, and, or), xs...)
			case 1:
				if n > big(c, 33, 65) {
					c.Skip()
				}
				how := c.Choose(6)
				x = model.Simple("=", ref{Name: "f"}, 0)
				for i := 0; i < n; i++ {
					y := model.Simple([]string{"=", "IN"}[i%2], namesakes[(i*7)%len(namesakes)], i+1)
					op := []query.JoinType{and, or}[i%2]
					switch how {
					case 0:
						x, _ = model.Combine(model.Method, op, x, y)
					case 1:
						x, _ = model.Combine(model.Func, op, y, x)
					case 2:
						x = model.NewGroup(op, x, y)
					case 3:
						x = model.NewGroup(op, x)
					case 4:
						x = model.Not(model.NewGroup(op, y, x))
					case 5:
						x, _ = model.Brackets(model.NewGroup(or, y, x))
					}
				}
			case 2:
				s := strings.Repeat("n", n)
				x = model.NewGroup(or, model.Simple("=", ref{Name: s + "f"}, 1), model.Simple("IN", ref{Table: "t", Name: s + "g"}, 2), model.Simple("<", ref{Name: s + "F", Alias: s + "f"}, 3), model.Not(model.Simple("LIKE", ref{Table: s + "f", Name: s + "ff"}, 4)))
				m := pick(c, move{to: ref{Table: "w", Name: s + "f"}}, move{to: ref{Name: s + "g", Alias: s + "z"}}, move{table: true, to: ref{Table: s + "w"}}, move{to: ref{Table: s, Name: s + "F", Alias: "b"}})
				y := m.cond(x)
				c.Op("%s", short(y.Desc))
				condMeans(c, short(y.Desc), y.Real, y.N, 0)
				c.State(fmt.Sprint(n), short(m.String()))
				return
			}
			x.Desc = short(x.Desc)
			times := 1
			if n < 4 {
				times = 1 + c.Choose(2)
			}
			for i := 0; i < times; i++ {
				y := moves[c.Choose(len(moves))].cond(x)
				c.Op("%s", y.Desc)
				condMeans(c, y.Desc, y.Real, y.N, i)
				if !model.SameAll(y.Real.Values(), x.Real.Values()) {
					c.Failf("%s: values %v, were %v", y.Desc, y.Real.Values(), x.Real.Values())
				}
				condMeans(c, "the original of "+y.Desc, x.Real, x.N, i)
				x = y
			}
			c.State(fmt.Sprint(what, n))
		}})

	mc.Extend("C17", mc.Family{Name: "sizes", Quick: []int{40}, Thorough: []int{130},
		Doc: "names of n characters, n every number up to <bound> and around powers of two and ten up to 1025, plain, of two letters, with a digit first, with a dot, and with one of nine other characters first, after a third, in the middle or last; selects ordered by n terms at once or one by one",
		Body: func(c *mc.Ctx) {
			n := extents(c)
			if c.Bool() {
				s := []string{"a", "я", "1", "_"}[c.Choose(4)]
				name := strings.Repeat(s, n)
				rs := []rune(name)
				if k := c.Choose(11); k > 0 {
					at := pick(c, 0, n/3, n/2, n-1, n)
					if at < 0 || at > n {
						c.Skip()
					}
					name = string(rs[:at]) + []string{".", "'", `"`, " ", "\t", "\u00a0", "\u3000", "\x00", "..", "\n"}[k-1] + string(rs[at:])
				}
				c.Op("name %q", short(name))
				checkName(c, name, true)
				c.State(name)
				return
			}
			each := c.Bool()
			m := query.SelectManyFrom("t")
			var fs []query.FieldSorting
			var want []string
			for i := 0; i < n; i++ {
				f := query.FieldName(fmt.Sprintf("o%d", i))
				d := "ASC"
				switch i % 3 {
				case 0:
					fs = append(fs, query.ASC(f))
				case 1:
					fs, d = append(fs, query.DESC(f)), "DESC"
				case 2:
					fs = append(fs, query.OrderBy(f))
				}
				want = append(want, string(f)+" "+d)
				if each {
					m = m.OrderBy(fs[i])
				}
			}
			if !each {
				m = m.OrderBy(fs...)
			}
			c.Op("%d terms, one by one %v", n, each)
			st := build(c, "select", m)
			if len(st.Order) != n {
				c.Failf("%d terms of %d", len(st.Order), n)
			}
			for i, t := range st.Order {
				if t.Ref+" "+t.Dir != want[i] {
					c.Failf("term %d of %d is %v, expected %s", i, n, t, want[i])
				}
			}
			c.State(fmt.Sprint(n, each))
		}})

	mc.Extend("C18", mc.Family{Name: "sizes", Quick: []int{20}, Thorough: []int{70},
		Doc: "on a leaf, an external condition, a group and groups of n conditions: n flag operations repeating each pair of operations, n every number up to <bound> and around powers of two and ten up to 130 (300); flags and meaning checked at the end, then used in groups and filters",
		Body: func(c *mc.Ctx) {
			nm := &namer{}
			kind := c.Choose(4)
			n := size(c, c.Bound, big(c, 130, 300))
			var x cond
			switch kind {
			case 0:
				x = nm.op("LIKE")
			case 1:
				x = model.NewCustom(model.CFunc, true, "cust", ref{Name: "e"}, 1, 2)
			case 2:
				x = model.NewGroup(or, nm.eq(), nm.op("IN"))
			case 3:
				x = model.NewGroup(pick(c, and, or), manyLeaves(nm, n)...)
			}
			a, b := flagOps[c.Choose(len(flagOps))], flagOps[c.Choose(len(flagOps))]
			neg, join := x.Real.IsNegate(), x.Real.JoinType()
			desc := x.Desc
			before := snapshot(x.Real)
			first := x
			k := n
			if kind == 3 {
				k = 2
			}
			for i := 0; i < k; i++ {
				how := a
				if i%2 == 1 {
					how = b
				}
				y, ok := unary(how, x)
				if !ok {
					c.Skip()
				}
				y.Desc = fmt.Sprintf("%s after %d of %s, %s", short(desc), i+1, a, b)
				x = y
				switch how {
				case "Not", "Negate(true)":
					neg = true
				case "Negate(false)":
					neg = false
				case "Join(OR)", "OR.Join", "Or()":
					join = or
				default:
					join = and
				}
			}
			c.Op("%s", x.Desc)
			if k > 0 && (x.Real.IsNegate() != neg || x.Real.JoinType() != join) {
				c.Failf("%s: negated %v joined %q, expected %v %q", x.Desc, x.Real.IsNegate(), x.Real.JoinType(), neg, join)
			}
			condMeans(c, x.Desc, x.Real, x.N, 0)
			if s := snapshot(first.Real); s != before {
				c.Failf("%s: the first condition changed:\n   was %s\n   now %s", x.Desc, before, s)
			}
			used(c, x)
			c.State(fmt.Sprint(kind, n), a, b)
		}})

	mc.Extend("C19", mc.Family{Name: "sizes", Quick: []int{8}, Thorough: []int{24},
		Doc: "an external condition of each of 9 kinds, with every number of parameters up to <bound> and around powers of two and ten up to 300; at every position of groups of up to <bound> others, or wrapped in up to <bound> layers (and around powers of two up to 33); in groups, selects, updates, deletes and counts",
		Body: func(c *mc.Ctx) {
			nm := &namer{}
			var x cond
			ns := []int{0, 1, 2}
			switch c.Choose(3) {
			case 0:
				x = external(c, 1, size(c, c.Bound, 300))
				x = model.NewGroup(pick(c, and, or), nm.op("IN"), x, nm.op("IN"))
			case 1:
				width := 1 + c.Choose(c.Bound)
				at := c.Choose(width + 1)
				var xs []cond
				for i := 0; i <= width; i++ {
					if i == at {
						xs = append(xs, external(c, 1, ns...))
					} else {
						xs = append(xs, nm.op([]string{"=", "IN"}[i%2]))
					}
				}
				x = model.NewGroup(pick(c, and, or), xs...)
			case 2:
				k := 1 + size(c, c.Bound, 33)
				x = external(c, 1, ns...)
				how := c.Choose(5)
				for i := 0; i < k; i++ {
					op := []query.JoinType{or, and}[i%2]
					switch how {
					case 0:
						x, _ = model.Combine(model.Method, op, x, nm.eq())
					case 1:
						x, _ = model.Combine(model.Func, op, nm.eq(), x)
					case 2:
						x = model.NewGroup(op, x)
					case 3:
						x = model.Not(model.NewGroup(op, nm.eq(), x))
					case 4:
						x, _ = model.Brackets(model.NewGroup(or, x, nm.eq()))
					}
				}
			}
			x.Desc = short(x.Desc)
			c.Op("%s", x.Desc)
			for _, s := range []int{0, 9, 99} {
				condMeans(c, x.Desc, x.Real, x.N, s)
			}
			rendersAgree(c, x.Desc, x.Real, []int{0, 3, 9})
			if !model.SameAll(x.Real.Values(), x.N.Params()) {
				c.Failf("%s: values %v, expected %v", x.Desc, x.Real.Values(), x.N.Params())
			}
			once(c, x.Desc, x.Real.RenderSQL(), x.N)
			pre := model.Eq("pre", 1)
			filter := model.Where(pre.N, []cond{x})
			sel := query.SelectFrom("t").Where(pre.Real).Where(x.Real)
			for _, b := range []struct {
				name string
				b    builder
			}{{"select", sel}, {"count", sel.Count()}, {"update", sel.Update(query.FieldName("a").Value(8))}, {"delete", query.Delete("t").Where(pre.Real).Where(x.Real)}} {
				sameFilter(c, b.name+" where "+x.Desc, stmtOK(c, b.name+" where "+x.Desc, b.b).Where, filter)
			}
			c.State(x.Real.RenderSQL())
		}})

	mc.Extend("C20",
		mc.Family{Name: "sizes", Quick: []int{12}, Thorough: []int{70},
			Doc: "n conditions given at once by function, method and in every kind of builder; n values given at once and one by one; n joins, terms and fields; lists of n through function and method; n every number up to <bound> and around powers of two and ten up to 130 (300)",
			Body: func(c *mc.Ctx) {
				what := c.Choose(5)
				n := size(c, c.Bound, big(c, 130, 300))
				nm := &namer{}
				c.Op("way %d, size %d", what, n)
				switch what {
				case 0: // conditions
					x := nm.eq()
					rs := model.Reals(manyLeaves(nm, n))
					all := append([]query.Condition{x.Real}, rs...)
					sameConditions(c, false, []form[query.Condition]{
						{"method", func() query.Condition { return x.Real.And(rs...) }}, {"function", func() query.Condition { return query.And(x.Real, rs...) }},
						{"NewGroup", func() query.Condition { return query.NewGroup(and, all...) }}, {"Join", func() query.Condition { return and.Join(all...) }},
						{"GroupAND", func() query.Condition { return query.NewGroup(and).GroupAND(all...) }},
					})
					sameConditions(c, false, []form[query.Condition]{
						{"NewGroup", func() query.Condition { return query.NewGroup(or, all...) }}, {"Join", func() query.Condition { return or.Join(all...) }},
						{"Or one by one", func() query.Condition {
							y := x.Real
							for _, r := range rs {
								y = y.Or(r)
							}
							return y
						}},
					})
					base := query.SelectFrom("t")
					sameStatements(c, []form[builder]{
						{"SelectFrom.Where", func() builder { return base.Where(all...) }}, {"TableName.Select", func() builder { return query.TableName("t").Select(all...) }},
						{"TableIdent.Select", func() builder { return query.Table("t").Select(all...) }}, {"SelectMany", func() builder { return query.Table("t").SelectMany(all...).BaseSelectBuilder }},
						{"one by one", func() builder {
							b := base
							for _, r := range all {
								b = b.Where(r)
							}
							return b
						}},
						{"in halves", func() builder { return base.Where(all[:n/2+1]...).Where(all[n/2+1:]...) }},
					})
					sameStatements(c, []form[builder]{
						{"Delete.Where", func() builder { return query.Delete("t").Where(all...) }}, {"TableName.Delete", func() builder { return query.TableName("t").Delete(all...) }},
						{"Select.Delete", func() builder { return base.Where(all...).Delete() }}, {"TableIdent.Delete", func() builder { return query.Table("t").Delete(all...) }},
						{"SelectOne.Delete", func() builder { return query.Table("t").SelectOne(all...).Delete() }},
					})
				case 1: // values
					var vs []query.FieldValue
					for i := 0; i <= n; i++ {
						vs = append(vs, query.FieldName(fmt.Sprintf("c%d", i)).Value(mapVals[i%8]))
					}
					w := nm.eq().Real
					sameStatements(c, []form[builder]{
						{"at once", func() builder { return query.InsertInto("t").Values(vs...) }}, {"method", func() builder { return query.TableName("t").InsertInto(vs...) }},
						{"ident", func() builder { return query.Table("t").InsertInto(vs...) }}, {"from select", func() builder { return query.SelectFrom("t").InsertInto(vs...) }},
						{"one by one", func() builder {
							b := query.InsertInto("t")
							for _, v := range vs {
								b = b.Values(v)
							}
							return b
						}},
					})
					sameStatements(c, []form[builder]{
						{"at once", func() builder { return query.Update("t").Where(w).Set(vs...) }}, {"method", func() builder { return query.TableName("t").Update(vs...).Where(w) }},
						{"ident", func() builder { return query.Table("t").Update(vs...).Where(w) }}, {"from select", func() builder { return query.SelectFrom("t").Where(w).Update(vs...) }},
						{"one by one", func() builder {
							b := query.Update("t")
							for _, v := range vs {
								b = b.Set(v)
							}
							return b.Where(w)
						}},
					})
				case 2: // joins
					join := func(short bool) builder {
						m := query.SelectManyFrom("t")
						for i := 0; i < n; i++ {
							m = halfMany(m, query.TableName(fmt.Sprintf("j%d", i)), i%4, short).On(onL, query.Field(fmt.Sprintf("j%d.id", i)))
						}
						return m
					}
					base := func(short bool) builder {
						b := query.SelectFrom("t")
						for i := 0; i < n; i++ {
							b = halfBase(b, query.Table(fmt.Sprintf("j%d", i)), i%4, short).On(onL, query.Field(fmt.Sprintf("j%d.id", i)))
						}
						return b
					}
					sameStatements(c, []form[builder]{{"short", func() builder { return join(true) }}, {"long", func() builder { return join(false) }},
						{"base short", func() builder { return base(true) }}, {"base long", func() builder { return base(false) }}})
				case 3: // terms and fields
					fs, ds := sorts(1, n), fieldDefs(2, n)
					var names []any
					for _, d := range ds {
						names = append(names, d)
					}
					sameStatements(c, []form[builder]{
						{"at once", func() builder { return query.SelectManyFrom("t").Fields(ds...).OrderBy(fs...) }},
						{"one by one", func() builder {
							m := query.SelectFrom("t").Fields(ds...).Many()
							for _, f := range fs {
								m = m.OrderBy(f)
							}
							return m
						}},
						{"single", func() builder { return query.SelectSingleFrom("t").OrderBy(fs...).Fields(ds...) }},
					})
				case 4: // lists
					in := make([]int, n)
					for i := range in {
						in[i] = i
					}
					sameConditions(c, true, []form[query.Condition]{{"function", func() query.Condition { return query.In("f", in) }}, {"method", func() query.Condition { return query.FieldName("f").In(in) }}})
					s := strings.Repeat("s", n)
					f := query.FieldName("t.f" + s)
					sameConditions(c, true, []form[query.Condition]{{"function", func() query.Condition { return query.Contains(f, s) }}, {"method", func() query.Condition { return f.Contains(s) }}})
					sameConditions(c, true, []form[query.Condition]{{"function", func() query.Condition { return query.IContains(f, s) }}, {"method", func() query.Condition { return f.IContains(s) }}})
					sameConditions(c, true, []form[query.Condition]{{"function", func() query.Condition { return query.EqualTo(f, s) }}, {"method", func() query.Condition { return f.EqualTo(s) }}})
					sameConditions(c, true, []form[query.Condition]{{"function", func() query.Condition { return query.IsNull(f) }}, {"method", func() query.Condition { return f.IsNull() }}})
				}
			}})

	mc.Extend("C21", mc.Family{Name: "numbers", Quick: []int{300}, Thorough: []int{3000},
		Doc: "limiters with offset, limit or both out of every number up to <bound> and the neighbours of all powers of two and ten, at ten start counts; one limiter at every start count up to <bound>",
		Body: func(c *mc.Ctx) {
			how := c.Choose(4)
			if how == 3 {
				s := c.Choose(c.Bound + 1)
				c.Op("start %d", s)
				l := query.Limiter{}.Offset(5).Limit(6)
				if got, want := strings.Join(strings.Fields(l.Render(s)), " "), fmt.Sprintf("OFFSET $%d LIMIT $%d", s+1, s+2); got != want {
					c.Failf("Render(%d) is %q, expected %q", s, got, want)
				}
				if got, want := strings.Join(strings.Fields(query.Limiter{}.Limit(6).Render(s)), " "), fmt.Sprintf("LIMIT $%d", s+1); got != want {
					c.Failf("Render(%d) is %q, expected %q", s, got, want)
				}
				c.Count(2)
				return
			}
			far := farNumbers(uint64(c.Bound))
			k := c.Choose(c.Bound + 1 + len(far))
			v := uint(k)
			if k > c.Bound {
				v = uint(far[k-c.Bound-1])
			}
			switch how {
			case 0:
				checkLimiter(c, fmt.Sprintf("Offset(%d)", v), query.Limiter{}.Offset(v), v, 0)
			case 1:
				checkLimiter(c, fmt.Sprintf("Limit(%d)", v), query.Limiter{}.Limit(v), 0, v)
			case 2:
				checkLimiter(c, fmt.Sprintf("Offset(%d).Limit(%d)", v, v), query.Limiter{}.Offset(v).Limit(v), v, v)
				checkLimiter(c, fmt.Sprintf("Limit(%d).Offset(%d)", v, v/2+1), query.Limiter{}.Limit(v).Offset(v/2+1), v/2+1, v)
			}
			c.Op("value %d", v)
			c.State(fmt.Sprint(how, v))
		}})

	mc.Extend("C22", mc.Family{Name: "sizes", Quick: []int{20}, Thorough: []int{70},
		Doc: "slices of n names, n every number up to <bound> and around powers of two and ten up to 1025: all different, all equal, with one repeated at every tenth place apart; names of n characters that differ in the first or last one",
		Body: func(c *mc.Ctx) {
			n := extents(c)
			var in []query.FieldName
			switch how := c.Choose(5); how {
			case 4:
				s := strings.Repeat("n", n)
				in = []query.FieldName{query.FieldName(s + "a"), query.FieldName(s + "b"), query.FieldName("a" + s), query.FieldName("b" + s), query.FieldName(s), query.FieldName(s + "a"), query.FieldName("b" + s), query.FieldName(s)}
			default:
				for i := 0; i < n; i++ {
					k := i
					switch how {
					case 1:
						k = 0
					case 2:
						k = i - i%10
					case 3: // everything once more, backwards
						if i >= n/2 {
							k = n - 1 - i
						}
					}
					in = append(in, query.FieldName(fmt.Sprintf("n%d", k)))
				}
			}
			checkUniq(c, in, 3*c.Choose(2))
		}})

	mc.Extend("C23", mc.Family{Name: "sizes", Quick: []int{70}, Thorough: []int{140},
		Doc: "maps of every size up to <bound> and around powers of two and ten up to 1025, with no invalid key, one, or only invalid ones; keys of that many characters",
		Body: func(c *mc.Ctx) {
			n := extents(c)
			how := c.Choose(4)
			var keys []string
			var vs []any
			if how == 3 {
				s := strings.Repeat("k", n+2)
				for _, k := range []string{s + "a", s + "b", "t." + s + "c", "a" + s, "b" + s} {
					keys, vs = append(keys, k), append(vs, k)
				}
			} else {
				for i := 0; i < n; i++ {
					k := fmt.Sprintf("k%d", i)
					if how == 2 || how == 1 && i == n/2 {
						k = fmt.Sprintf("bad %d", i)
					}
					keys, vs = append(keys, k), append(vs, i)
				}
			}
			checkMap(c, keys, vs, vs, 3)
		}})

	mc.Extend("C24", mc.Family{Name: "sizes", Quick: []int{20}, Thorough: []int{70},
		Doc: "on each kind of builder: Where calls of n conditions at once, n calls of one, calls of two each, calls of growing width; every second one joined OR or none, n every number up to <bound> and around powers of two and ten up to 130; checked at the end and after one more call",
		Body: func(c *mc.Ctx) {
			nm := &namer{}
			kind := filterKinds[c.Choose(len(filterKinds))]
			how := c.Choose(4)
			n := size(c, c.Bound, 130)
			ors := c.Choose(3)
			f := newFiltered(kind)
			xs := manyLeaves(nm, n)
			for i := range xs {
				if ors == 1 && i%2 == 1 || ors == 2 {
					xs[i] = model.Join(xs[i], or)
				}
			}
			for i, step := 0, 1; i < n; {
				switch how {
				case 0:
					step = n
				case 2:
					step = 2
				case 3:
					step++
				}
				j := min(i+step, n)
				f = f.where(xs[i:j])
				i = j
			}
			c.Op("%s: way %d, %d conditions, OR %d", kind, how, n, ors)
			f.check(c, "after all calls")
			f.where([]cond{nm.op("IN")}).check(c, "after one more call")
			f.where([]cond{nm.op("IN"), model.Join(nm.eq(), or)}).check(c, "after one more call of two")
			f.check(c, "the builder before")
			c.State(kind, fmt.Sprint(how, n, ors))
		}})
}

// farNumbers are the neighbours of all powers of two and ten over n.
func farNumbers(n uint64) []uint64 {
	var out []uint64
	seen := map[uint64]bool{}
	add := func(p uint64) {
		for _, v := range []uint64{p - 1, p, p + 1} {
			if v > n && !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	for i := 1; i < 64; i++ {
		add(1 << i)
	}
	for p := uint64(10); p < math.MaxUint64/10; p *= 10 {
		add(p)
	}
	out = append(out, math.MaxUint64-1, math.MaxUint64)
	return out
}
