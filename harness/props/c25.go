package props

import (
	"fmt"
	"strings"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

// reporter is what every writing builder says about itself.
type reporter interface {
	builder
	Operation() query.Operation
	TableName() query.TableName
	RenderFrom() string
}

// reports checks what a writing builder says about its operation and table.
func reports(c *mc.Ctx, what string, b reporter, op query.Operation, table string) {
	if b.Operation() != op {
		c.Failf("%s: Operation() is %v, expected %v", what, b.Operation(), op)
	}
	if string(b.TableName()) != table {
		c.Failf("%s: TableName() is %q, expected %q", what, b.TableName(), table)
	}
	t, js, err := sqlx.ParseFrom(b.RenderFrom())
	if err != nil || t.Name != table || len(js) > 0 {
		c.Failf("%s: RenderFrom() is %q, expected table %q: %v", what, b.RenderFrom(), table, err)
	}
	c.Count(3)
}

// fieldIs compares what a definition says about itself with its parts.
func fieldIs(c *mc.Ctx, what string, d query.FieldDefinition, r ref) {
	if string(d.FieldName()) != r.Name || string(d.TableName()) != r.Table || string(d.Alias()) != r.Alias {
		c.Failf("%s: field %q of table %q as %q, expected %s", what, d.FieldName(), d.TableName(), d.Alias(), r.Spec())
	}
}

// setValuesAre compares the attached values with the ones given.
func setValuesAre(c *mc.Ctx, what string, got []query.FieldValue, want []ref, vals []any) {
	if len(got) != len(want) {
		c.Failf("%s: SetValues() are %d, expected %d", what, len(got), len(want))
	}
	for i, v := range got {
		r := want[i]
		if v.Alias() == "" {
			r.Alias = "" // not part of what is written
		}
		fieldIs(c, fmt.Sprintf("%s: SetValues()[%d]", what, i), v.FieldDefinition, r)
		if ps := v.Values(); len(ps) != 1 || !model.Same(ps[0], vals[i]) {
			c.Failf("%s: SetValues()[%d] gives %v, expected %v", what, i, ps, vals[i])
		}
	}
	c.Count(1 + len(got))
}

// read gives the meaning of one condition from its own text.
func read(c *mc.Ctx, what string, r renderer) *sqlx.Expr {
	e, _, err := sqlx.ParseCond(r.RenderSQL(), r.Values(), 0, true)
	if err != nil {
		c.Failf("%s: rendered %q %v does not read as a condition: %v", what, r.RenderSQL(), r.Values(), err)
	}
	return e
}

// joined is the meaning of a list of conditions connected by the operators they report.
func joined(c *mc.Ctx, what string, cs []query.Condition) *sqlx.Expr {
	var terms, cur []*sqlx.Expr
	for i, x := range cs {
		e := read(c, fmt.Sprintf("%s[%d]", what, i), x)
		if e == nil {
			continue
		}
		if i > 0 && x.JoinType() == or && cur != nil {
			terms, cur = append(terms, sqlx.And(cur...)), nil
		}
		cur = append(cur, e)
	}
	if cur == nil {
		return nil
	}
	return sqlx.Or(append(terms, sqlx.And(cur...))...)
}

func init() {
	tables := []string{"t", "users", "T_1"}
	mc.Register(&mc.Property{
		ID: "C25",
		Assumptions: []string{
			"the field name of a group is empty; what an external condition reports is its own matter",
			"the conditions a where clause reports are connected by the operators they report, AND binding tighter, as documented for conditions given together",
			"a field value need not keep the alias of the definition it is made from, which plays no part in INSERT and UPDATE",
			"TableFieldName and RenderTableSpec are asserted for fields that have a table",
		},
		Families: []mc.Family{
			{Name: "selects", Quick: []int{0, 1, 2, 3}, Thorough: []int{0, 1, 2, 3, 4},
				Doc: "every sequence of exactly <bound> calls of the whole alphabet on every kind of select: operation, table, FROM, field definitions and field list against what is built; the same for the insert, update and delete derived from it",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					x := anySel(c)
					for i := 0; i < c.Bound; i++ {
						x = act(c, x, n, i)
					}
					st := x.check(c)
					if op := x.core().Operation(); op != query.DoSelect {
						c.Failf("%s: Operation() is %v", x.desc, op)
					}
					list := ""
					switch x.kind {
					case kMany:
						list = x.m.FieldList()
					case kSingle:
						list = x.s.FieldList()
					}
					if x.kind != kBase {
						ls, err := sqlx.ParseStmt("SELECT "+list+" FROM t", nil, 0, false)
						if err != nil || fmt.Sprint(ls.Items) != fmt.Sprint(st.Items) {
							c.Failf("%s: FieldList() is %q but the statement selects %v: %v", x.desc, list, st.Items, err)
						}
					}
					v := query.FieldName("v").Value(7)
					ins, upd, del := x.InsertInto(v), x.Update(v), x.Delete()
					reports(c, x.desc+".InsertInto", ins, query.DoInsert, x.table.Name)
					reports(c, x.desc+".Update", upd, query.DoUpdate, x.table.Name)
					reports(c, x.desc+".Delete", del, query.DoDelete, x.table.Name)
					setValuesAre(c, x.desc+".InsertInto", ins.SetValues(), []ref{{Name: "v"}}, []any{7})
					setValuesAre(c, x.desc+".Update", upd.SetValues(), []ref{{Name: "v"}}, []any{7})
					c.State(x.key())
				}},
			{Name: "writes", Quick: []int{1, 2, 3, 4}, Thorough: []int{1, 2, 3, 4, 5},
				Doc: "every sequence of <bound> calls (Set/Values of none, one or two values out of plain, qualified, aliased and repeated fields; Where of none, one, two conditions or an empty group) on an insert, update or delete started in every way: operation, table and values reported after each, whether or not the statement can be built, and equal to what is built if it can",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					table := tables[c.Choose(len(tables))]
					kind := c.Choose(3)
					start := c.Choose(4)
					var ins query.InsertBuilder
					var upd query.UpdateBuilder
					var del query.DeleteBuilder
					switch start {
					case 0:
						ins, upd, del = query.InsertInto(table), query.Update(table), query.Delete(table)
					case 1:
						tn := query.TableName(table)
						ins, upd, del = query.InsertInto(tn), query.Update(tn), query.Delete(tn)
					case 2:
						ti := query.Table(table)
						ins, upd, del = ti.InsertInto(), ti.Update(), ti.Delete()
					default:
						tn := query.TableName(table)
						ins, upd, del = tn.InsertInto(), tn.Update(), tn.Delete()
					}
					var want []ref
					var vals []any
					var filter *model.Node
					see := func(what string) {
						switch kind {
						case 0:
							reports(c, what, ins, query.DoInsert, table)
							setValuesAre(c, what, ins.SetValues(), want, vals)
						case 1:
							reports(c, what, upd, query.DoUpdate, table)
							setValuesAre(c, what, upd.SetValues(), want, vals)
						default:
							reports(c, what, del, query.DoDelete, table)
						}
					}
					see("new")
					for i := 0; i < c.Bound; i++ {
						k := c.Choose(8)
						if k < 4 && kind == 2 || k >= 4 && kind == 0 {
							c.Skip()
						}
						if k < 4 {
							var vs []query.FieldValue
							for j := 0; j < []int{0, 1, 1, 2}[k]; j++ {
								r := ref{Name: fmt.Sprintf("c%d", i)}
								switch {
								case k == 2:
									r.Table, r.Alias = "t", "z"
								case j == 1:
									r.Name = "again"
								}
								want, vals = append(want, r), append(vals, i*10+j)
								vs = append(vs, definition(r).Value(i*10+j))
							}
							c.Op("%d values", len(vs))
							if kind == 0 {
								ins = ins.Values(vs...)
							} else {
								upd = upd.Set(vs...)
							}
						} else {
							cs := [][]cond{{n.eq()}, nil, {n.eq(), n.op("IN")}, {model.NewGroup(and)}}[k-4]
							filter = model.Where(filter, cs)
							c.Op("Where(%s)", model.Descs(cs))
							if kind == 1 {
								upd = upd.Where(model.Reals(cs)...)
							} else {
								del = del.Where(model.Reals(cs)...)
							}
						}
						see("after the calls")
					}
					var set []sqlx.Assign
					for i, r := range want {
						set = append(set, sqlx.Assign{Col: r.Name, Val: vals[i]})
					}
					b := []builder{ins, upd, del}[kind]
					if kind != 0 && filter == nil || kind != 2 && len(set) == 0 {
						c.Tag("refused")
						wantErr(c, "incomplete", b)
					} else {
						st := stmtOK(c, "complete", b)
						if st.Kind != []string{"INSERT", "UPDATE", "DELETE"}[kind] || st.Table.Name != table {
							c.Failf("built a %s of %q", st.Kind, st.Table.Name)
						}
						checkAssign(c, "complete", st.Set, set)
						sameFilter(c, "complete", st.Where, filter)
					}
					see("after building")
					c.State(fmt.Sprint(kind, table, want, model.Mean(filter)))
				}},
			{Name: "clauses", Quick: []int{0, 1, 2}, Thorough: []int{0, 1, 2, 3},
				Doc: "where clauses after every sequence of <bound> GroupAND/GroupOR calls of none, one or two conditions (a leaf, an OR group, a negated leaf, an empty group, a mixed combination, negated, nested and bracketed groups): Conditions() connected by the operators they report mean what the clause renders and hold its values in order",
				Body: func(c *mc.Ctx) {
					n := &namer{}
					w := query.NewWhere()
					x := cond{Real: query.NewGroup(and), N: &model.Node{Op: and}, J: and}
					arg := func() cond {
						switch c.Choose(11) {
						case 10:
							return model.Not(model.NewGroup(and, n.eq(), n.op("IN")))
						case 9:
							return model.Not(model.NewGroup(or, n.eq(), n.eq()))
						case 8:
							return model.NewGroup(and, model.Not(model.NewGroup(or, n.eq(), n.eq())))
						case 7:
							return model.Not(model.NewGroup(or, model.NewGroup(and, n.eq(), n.eq())))
						case 6:
							y, _ := model.Combine(model.Method, and, n.eq(), n.eq())
							z, ok := model.Brackets(model.Join(y, or))
							if !ok {
								panic("no brackets")
							}
							return z
						case 0:
							return n.eq()
						case 1:
							return model.NewGroup(or, n.eq(), n.op("IS NULL"))
						case 2:
							return model.Not(n.op("IN"))
						case 3:
							return model.NewGroup(and)
						case 4:
							return model.Join(n.eq(), or)
						}
						y, _ := model.Combine(model.Method, or, n.eq(), n.eq())
						y, _ = model.Combine(model.Method, and, y, n.eq())
						return y
					}
					for i := 0; i < c.Bound; i++ {
						op := pick(c, and, or)
						var ds []cond
						for k := c.Choose(3); k > 0; k-- {
							ds = append(ds, arg())
						}
						if op == and {
							w = w.GroupAND(model.Reals(ds)...)
						} else {
							w = w.GroupOR(model.Reals(ds)...)
						}
						c.Op("Group%s(%s)", op, model.Descs(ds))
						var ok bool
						if x, ok = model.Combine(model.GroupRaw, op, x, ds...); !ok {
							c.Skip()
						}
					}
					condMeans(c, "where clause", w, x.N, 0)
					got, want := joined(c, "Conditions()", w.Conditions()), read(c, "where clause", w)
					if (got == nil) != (want == nil) {
						c.Failf("Conditions() mean %v, the clause %v", got, want)
					}
					if got != nil {
						if ok, wit := sqlx.Equiv(got, want); !ok {
							c.Failf("Conditions() mean %v, the clause %v: differ %s", got, want, wit)
						}
					}
					var vals []any
					for _, k := range w.Conditions() {
						vals = append(vals, k.Values()...)
					}
					if !model.SameAll(vals, w.Values()) {
						c.Failf("Conditions() have values %v, the clause %v", vals, w.Values())
					}
					c.State(w.RenderSQL())
				}},
			{Name: "conditions", Quick: []int{0, 1, 2, 3}, Thorough: []int{0, 1, 2, 3, 4},
				Doc: "the field name every comparison reports, over every field definition, made as function and method, after every sequence of <bound> calls out of Not, Negate, Join, And() and Or() without arguments, ApplyFieldTable and ApplyFieldSpec; groups of it report none",
				Body: func(c *mc.Ctx) {
					op := model.Ops[c.Choose(len(model.Ops))]
					r := namesakes[c.Choose(len(namesakes))]
					x := model.Simple(op, r, 3)
					if c.Bool() {
						x.Real = query.FieldName(r.Spec()).EqualTo(3)
						x.N = model.NewLeaf("=", r, 3, []any{3}, false).N
						if op != "=" {
							c.Skip()
						}
					}
					c.Op("%s", x.Desc)
					for i := 0; ; i++ {
						if got := string(x.Real.FieldName()); got != r.Name {
							c.Failf("%s: FieldName() is %q, expected %q", x.Desc, got, r.Name)
						}
						if i == c.Bound {
							break
						}
						switch k := c.Choose(6 + len(moves)); {
						case k < 6:
							var ok bool
							how := []string{"Not", "Negate(false)", "Join(OR)", "Join(AND)", "And()", "Or()"}[k]
							if x, ok = unary(how, x); !ok {
								c.Skip()
							}
						default:
							x = moves[k-6].cond(x)
							r = moves[k-6].ref(r)
						}
						c.Op("%s", x.Desc)
					}
					condMeans(c, x.Desc, x.Real, x.N, 0)
					for _, g := range []query.Condition{query.NewGroup(and, x.Real), query.NewGroup(or, x.Real, x.Real), x.Real.And(x.Real), x.Real.Or(x.Real), query.And(x.Real, x.Real)} {
						if got := g.FieldName(); got != "" {
							c.Failf("%s in a group: FieldName() is %q", x.Desc, got)
						}
					}
					c.State(x.Real.RenderSQL())
				}},
			{Name: "fields", Quick: []int{0, 1, 2, 3}, Thorough: []int{0, 1, 2, 3, 4},
				Doc: "field lists of exactly <bound> fields (out of 14 shapes up to two, 5 beyond), made at once or replacing another list: Len, FieldDefinitions and FieldList agree with each other and with the fields given",
				Body: func(c *mc.Ctx) {
					shapes := append([]ref{{Name: "*"}, {Table: "t", Name: "*"}, {Name: "id"}, {Name: "id", Alias: "key"}, {Table: "t", Name: "id", Alias: "id"}}, refs...)
					if c.Bound > 2 {
						shapes = shapes[:5]
					}
					var rs []ref
					for i := 0; i < c.Bound; i++ {
						rs = append(rs, shapes[c.Choose(len(shapes))])
					}
					var f query.Fields
					switch c.Choose(4) {
					case 0:
						f = query.NewFields(anys(rs)...)
					case 1:
						f = query.NewFields().Fields(definitions(rs)...)
					case 2:
						f = query.NewFields("x", "y as z").Fields(definitions(rs)...)
					default:
						f = query.Fields{}.Fields(definitions([]ref{{Name: "q"}})...).Fields(definitions(rs)...)
					}
					c.Op("%v", rs)
					if f.Len() != len(rs) {
						c.Failf("Len() is %d, expected %d", f.Len(), len(rs))
					}
					ds := f.FieldDefinitions()
					if len(ds) != len(rs) {
						c.Failf("%d FieldDefinitions(), expected %d", len(ds), len(rs))
					}
					var specs []string
					for i, d := range ds {
						fieldIs(c, fmt.Sprintf("FieldDefinitions()[%d]", i), d, rs[i])
						specs = append(specs, d.RenderSpec())
					}
					if len(specs) == 0 {
						specs = []string{"*"}
					}
					a, err1 := sqlx.Normalize(f.FieldList(), false)
					b, err2 := sqlx.Normalize(strings.Join(specs, ", "), false)
					if err1 != nil || err2 != nil || a != b {
						c.Failf("FieldList() is %q, FieldDefinitions() are %q", f.FieldList(), specs)
					}
					c.Count(3)
					c.State(a)
				}},
			{Name: "joiners", Quick: []int{0, 1, 2}, Thorough: []int{0, 1, 2, 3},
				Doc: "joiners made in every way, redefined <bound> times with By: the kind and condition they report are the ones they render",
				Body: func(c *mc.Ctx) {
					k := c.Choose(4)
					on := func(i int) (ref, ref) {
						if c.Bool() {
							return ref{Table: "t", Name: fmt.Sprintf("a%d", i)}, ref{Table: "u", Name: "b", Alias: "z"}
						}
						return ref{Table: "u", Name: "b"}, ref{Table: "v", Name: fmt.Sprintf("a%d", i)}
					}
					l, r := on(0)
					cnd := query.JoinFields(definition(l), definition(r))
					var j query.TableJoiner
					switch c.Choose(4) {
					case 0:
						j = joinTypes[k].By(definition(l), definition(r))
					case 1:
						j = cnd.Using(joinTypes[k])
					case 2:
						j = []func() query.TableJoiner{cnd.InnerJoin, cnd.LeftJoin, cnd.RightJoin, cnd.FullJoin}[k]()
					default:
						j = query.NewTableJoiner(query.Table("w as u"), joinTypes[k], cnd)
					}
					for i := 0; ; i++ {
						_, js, err := sqlx.ParseFrom("base " + j.RenderFrom())
						if err != nil || len(js) != 1 {
							c.Failf("joiner renders %q: %v", j.RenderFrom(), err)
						}
						if js[0].Type != joinNames[k] || j.JoinType() != joinTypes[k] {
							c.Failf("joiner renders %q and reports %v, expected %s", j.RenderFrom(), j.JoinType(), joinNames[k])
						}
						want := l.Table + "." + l.Name + "=" + r.Table + "." + r.Name
						if got, _ := sqlx.Normalize(j.JoinCondition().Render(), false); strings.ReplaceAll(got, " ", "") != want {
							c.Failf("JoinCondition() renders %q, expected %q", j.JoinCondition().Render(), want)
						}
						if js[0].Left+"="+js[0].Right != want {
							c.Failf("joiner renders %q, expected ON %s", j.RenderFrom(), want)
						}
						if i == c.Bound {
							break
						}
						l, r = on(i + 1)
						j = j.By(definition(l), definition(r))
						c.Op("By(%v, %v)", l, r)
					}
					c.Count(3)
					c.State(j.RenderFrom())
				}},
			{Name: "parts", Quick: []int{0, 1, 2}, Thorough: []int{0, 1, 2, 3},
				Doc: "sorting terms, field values, field definitions and table idents over every definition after <bound> changes (Of, As, ApplyFieldSpec, ApplyFieldTable): the parts they report are the parts they render",
				Body: func(c *mc.Ctx) {
					switch c.Choose(4) {
					case 0:
						r := pick(c, ref{Name: "f"}, ref{Table: "t", Name: "f"}, ref{Name: "F_1"})
						dir := pick(c, query.Ascending, query.Descending)
						var s query.FieldSorting
						if c.Bool() {
							s = query.OrderBy(query.FieldName(r.Spec()), dir)
						} else if dir == query.Ascending {
							s = query.ASC(query.FieldName(r.Spec()))
						} else {
							s = query.DESC(query.FieldName(r.Spec()))
						}
						for i := 0; i < c.Bound; i++ {
							m := moves[c.Choose(len(moves))]
							if m.table {
								c.Skip()
							}
							s, r = s.ApplyFieldSpec(definition(m.to)), m.ref(r)
							c.Op("%s", m)
						}
						fieldIs(c, "sorting", s.FieldDefinition, r)
						if s.Direction() != dir || strings.TrimSpace(s.Direction().String()) != string(dir) {
							c.Failf("Direction() is %q, expected %q", s.Direction(), dir)
						}
						if got := strings.Join(strings.Fields(s.Render()), " "); got != r.String()+" "+string(dir) {
							c.Failf("Render() is %q, expected %s %s", s.Render(), r, dir)
						}
						c.State("sort", s.Render())
					case 1:
						r := namesakes[c.Choose(len(namesakes))]
						v := *query.NewFieldValue(query.FieldName(r.Spec()), 5)
						for i := 0; i < c.Bound; i++ {
							m := moves[c.Choose(len(moves))]
							if m.table {
								v = v.ApplyFieldTable(query.TableName(m.to.Table))
							} else {
								v = v.ApplyFieldSpec(definition(m.to))
							}
							r = m.ref(r)
							c.Op("%s", m)
						}
						fieldIs(c, "value", v.FieldDefinition, r)
						if v.RenderSpec() != r.String() {
							c.Failf("the value's RenderSpec() is %q, expected %q", v.RenderSpec(), r)
						}
						c.State("value", r.Spec())
					case 2:
						r := namesakes[c.Choose(len(namesakes))]
						d := definition(r)
						for i := 0; i < c.Bound; i++ {
							x := pick(c, "w", "f", "")
							if c.Bool() {
								d, r.Table = d.Of(query.TableName(x)), x
							} else {
								d, r.Alias = d.As(query.FieldName(x)), x
							}
						}
						c.Op("%s", r.Spec())
						fieldIs(c, "field", d, r)
						full := r.Table + "." + r.Name
						if r.Table != "" && (string(d.TableFieldName()) != full || d.RenderTableSpec() != full) || d.RenderField() != r.String() {
							c.Failf("%s: TableFieldName() %q, RenderTableSpec() %q, RenderField() %q, expected %q and %q", r.Spec(), d.TableFieldName(), d.RenderTableSpec(), d.RenderField(), full, r)
						}
						v := d.Value(8)
						if v.Alias() == "" {
							r.Alias = ""
						}
						fieldIs(c, "value of "+r.Spec(), v.FieldDefinition, r)
						c.State("field", r.Spec())
					default:
						name, alias := pick(c, "t", "T_1", "x"), pick(c, "", "x", "t")
						t := query.Table(name)
						if alias != "" {
							t = t.As(query.TableName(alias))
						}
						for i := 0; i < c.Bound; i++ {
							alias = pick(c, "u", "x")
							t = t.As(query.TableName(alias))
						}
						want := sqlx.Table{Name: name, Alias: alias}
						if alias == name {
							want.Alias = ""
						}
						c.Op("%+v", want)
						got, _, err := sqlx.ParseFrom(t.RenderFrom())
						if err != nil || got != want || string(t.TableName()) != name || tableOf(t) != want {
							c.Failf("table %q alias %q renders %q, expected %+v: %v", t.TableName(), t.Alias(), t.RenderFrom(), want, err)
						}
						q := name
						if want.Alias != "" {
							q = alias
						}
						fieldIs(c, "field of the table", t.Field("f"), ref{Table: q, Name: "f"})
						c.State("table", t.RenderFrom())
					}
					c.Count(4)
				}},
			{Name: "words", Quick: []int{0}, Thorough: []int{0},
				Doc: "operations (valid or not), join operators, join kinds and directions say what they are; builders made of an operation report it",
				Body: func(c *mc.Ctx) {
					i := c.Choose(12) - 4
					op := query.Operation(i)
					c.Op("Operation(%d)", i)
					want := fmt.Sprintf("unknown(%d)", i)
					if i >= 0 && i < 4 {
						want = []string{"SELECT", "INSERT", "UPDATE", "DELETE"}[i]
						if op != []query.Operation{query.DoSelect, query.DoInsert, query.DoUpdate, query.DoDelete}[i] {
							c.Failf("the operations are not in order")
						}
						if j := joinTypes[i].String(); !strings.HasPrefix(j, joinNames[i]) && !(i == 0 && j == "JOIN") {
							c.Failf("join kind %s says %q", joinNames[i], j)
						}
					}
					if op.String() != want {
						c.Failf("%q, expected %q", op.String(), want)
					}
					if b := op.New(); b.Operation() != op {
						c.Failf("New() makes a builder of %v, expected %v", b.Operation(), op)
					}
					if strings.TrimSpace(and.String()) != "AND" || strings.TrimSpace(or.String()) != "OR" || query.Ascending.String() != "ASC" || query.Descending.String() != "DESC" {
						c.Failf("%q %q %q %q", and.String(), or.String(), query.Ascending.String(), query.Descending.String())
					}
					c.Count(6)
					c.State(op.String())
				}},
		},
	})
}
