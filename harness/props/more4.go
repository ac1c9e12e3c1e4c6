package props

import (
	"fmt"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

const layersDoc = "exactly <bound> layers out of thirteen (Not, a clear of the negation, Join(OR), a group of it alone, an OR group and an AND group with another one beside it, And/Or as method and as function, brackets, a pointer to the group, an external type made of the group)"

// layers puts k layers around x, each with a condition made by side beside it.
func layers(c *mc.Ctx, k int, x cond, side func() cond) cond {
	for ; k > 0; k-- {
		ok := true
		switch c.Choose(13) {
		case 0:
			x = model.Not(x)
		case 1:
			x = model.Negate(x, false)
		case 2:
			x = model.Join(x, or)
		case 3:
			x = model.NewGroup(and, x)
		case 4:
			x = model.NewGroup(or, x, side())
		case 5:
			x = model.NewGroup(and, side(), x)
		case 6:
			x, ok = model.Combine(model.Method, and, x, side())
		case 7:
			x, ok = model.Combine(model.Method, or, x, side())
		case 8:
			x, ok = model.Combine(model.Func, and, side(), x)
		case 9:
			x, ok = model.Combine(model.Func, or, side(), x)
		case 10:
			x, ok = model.Brackets(x)
		case 11:
			x, ok = model.Wrap(0, x)
		case 12:
			x, ok = model.Wrap(3, x)
		}
		if !ok {
			c.Skip()
		}
		c.Op("%s", x.Desc)
	}
	return x
}

// layered are the layers around a plain condition.
func layered(c *mc.Ctx, n *namer) cond { return layers(c, c.Bound, n.eq(), n.eq) }

func extendLayers(id string, quick, thorough []int, doc string, body func(c *mc.Ctx, n *namer)) {
	mc.Extend(id,
		mc.Family{Name: "layers", Quick: quick, Thorough: thorough, Doc: layersDoc + " around " + doc,
			Body: func(c *mc.Ctx) { body(c, &namer{}) }},
		mc.Family{Name: "same-text", Quick: []int{0, 1, 2, 3}, Thorough: []int{0, 1, 2, 3, 4},
			Doc:  "the same with conditions alike: all of one field with values of their own, all the same, of two fields in turn, of one field of two tables and none in turn: " + layersDoc + " around " + doc,
			Body: func(c *mc.Ctx) { body(c, alikeNamer(c)) }})
}

// Spare is an external condition that gives out a slice it keeps, with room behind it.
type spare struct {
	model.Custom
	kept []any
}

func newSpare(name string, n, room int) *spare {
	kept := make([]any, n, n+room)
	for i := range kept {
		kept[i] = i
	}
	x := model.NewCustom(model.CFunc, false, name, ref{Name: name}, kept...)
	return &spare{x.Real.(model.Custom), kept}
}

func (s *spare) Values() []any { return s.kept }
func (s *spare) Join(j query.JoinType) query.Condition {
	return &spare{s.Custom.Join(j).(model.Custom), s.kept}
}
func (s *spare) Negate(b bool) query.Condition {
	return &spare{s.Custom.Negate(b).(model.Custom), s.kept}
}
func (s *spare) And(cs ...query.Condition) query.Condition { return query.And(s, cs...) }
func (s *spare) Or(cs ...query.Condition) query.Condition  { return query.Or(s, cs...) }
func (s *spare) ApplyFieldTable(t query.TableName) query.Condition {
	return &spare{s.Custom.ApplyFieldTable(t).(model.Custom), s.kept}
}
func (s *spare) ApplyFieldSpec(f query.FieldDefinition) query.Condition {
	return &spare{s.Custom.ApplyFieldSpec(f).(model.Custom), s.kept}
}

// spareUses are what is built of a condition.
var spareUses = []struct {
	name string
	mk   func(x query.Condition) builder
}{
	{"select", func(x query.Condition) builder { return query.SelectFrom("t").Where(x) }},
	{"page 1", func(x query.Condition) builder { return query.SelectManyFrom("t").Where(x).Offset(11).Limit(12) }},
	{"page 2", func(x query.Condition) builder { return query.SelectManyFrom("t").Where(x).Offset(21).Limit(22) }},
	{"limited", func(x query.Condition) builder { return query.SelectFrom("t").Where(x).Limit(31) }},
	{"single", func(x query.Condition) builder { return query.SelectSingleFrom("t").Where(x) }},
	{"count", func(x query.Condition) builder { return query.Table("t").Count(x) }},
	{"delete", func(x query.Condition) builder { return query.Delete("t").Where(x) }},
	{"update", func(x query.Condition) builder {
		return query.Update("t").Set(query.FieldName("s").Value(41)).Where(x)
	}},
	{"and more", func(x query.Condition) builder {
		return query.SelectFrom("t").Where(x).Where(query.EqualTo("m", 51))
	}},
	{"group", func(x query.Condition) builder {
		return query.Delete("t").Where(query.NewGroup(or, x), query.EqualTo("m", 61))
	}},
	{"twice", func(x query.Condition) builder { return query.Delete("t").Where(x, x) }},
	{"negated", func(x query.Condition) builder { return query.Delete("t").Where(query.Not(x)) }},
}

func init() {
	extendLayers("C01", []int{3, 4, 5}, []int{3, 4, 5, 6}, "a plain condition", func(c *mc.Ctx, n *namer) { meansEverywhere(c, layered(c, n)) })
	extendLayers("C03", []int{3, 4, 5}, []int{3, 4, 5, 6}, "a list of two, with conditions of no and of two parameters in turn beside it; rendered from 0, 9 and 99", func(c *mc.Ctx, n *namer) {
		x := layers(c, c.Bound, n.op("IN"), func() cond { return n.op([]string{"IS NULL", "IN", "="}[n.n%3]) })
		for _, s := range []int{0, 9, 99} {
			consecutiveFrom(c, x.Desc, x.Real, x.N, s)
		}
		c.State(x.Real.Render(0))
	})
	extendLayers("C04", []int{3, 4, 5}, []int{3, 4, 5, 6}, "a plain condition, alone and in a WhereClause after another one", func(c *mc.Ctx, n *namer) {
		x := layered(c, n)
		rendersAgree(c, x.Desc, x.Real, []int{0, 9})
		rendersAgree(c, "where "+x.Desc, query.NewWhere().GroupAND(n.eq().Real).GroupAND(x.Real), []int{0, 9})
		c.State(x.Real.RenderSQL())
	})
	extendLayers("C07", []int{2, 3, 4}, []int{2, 3, 4, 5}, "a group with nothing in it or a condition without parameters, with another empty group or a plain condition beside it; as the filter of an update and a delete", func(c *mc.Ctx, n *namer) {
		x := layers(c, c.Bound, pick(c, model.NewGroup(and), n.op("IS NULL")), func() cond { return pick(c, model.NewGroup(or), n.eq()) })
		filter := model.Where(nil, []cond{x})
		guarded(c, "delete", query.Delete("t").Where(x.Real), "DELETE", filter, "t", nil)
		guarded(c, "update", query.Update("t").Set(query.FieldName("a").Value(7)).Where(x.Real), "UPDATE", filter, "t", []sqlx.Assign{{Col: "a", Val: 7}})
		guarded(c, "derived", query.SelectFrom("t").Where(x.Real).Delete(), "DELETE", filter, "t", nil)
		c.State(x.Real.RenderSQL())
	})
	extendLayers("C14", []int{3, 4}, []int{3, 4, 5}, "a plain condition that filters a select, before or after another one", func(c *mc.Ctx, n *namer) {
		x := newSel(pick(c, kBase, kMany), query.Table("t as u"))
		y := layered(c, n)
		if c.Bool() {
			x = x.Where(n.eq()).Where(y)
		} else {
			x = x.Where(y).Where(n.eq())
		}
		countOK(c, x.desc+".Count()", x.Count(), x, "*")
		countOK(c, "Count("+x.desc+")", query.Count(x.core(), "id"), x, "id")
		c.State(x.key())
	})
	extendLayers("C15", []int{3, 4}, []int{3, 4, 5}, "a plain condition that filters a select of every kind, alone, before or after another one", func(c *mc.Ctx, n *namer) {
		x := newSel(pick(c, kBase, kMany, kSingle), query.Table("t as u"))
		y := layered(c, n)
		switch c.Choose(3) {
		case 0:
			x = x.Where(y)
		case 1:
			x = x.Where(n.eq()).Where(y)
		case 2:
			x = x.Where(y).Where(n.eq())
		}
		derivedFilter(c, x, n)
		c.State(x.key())
	})
	three := []ref{{Table: "t", Name: "f"}, {Name: "ff", Alias: "f"}, {Name: "f", Alias: "a"}}
	extendLayers("C16", []int{3, 4}, []int{3, 4, 5}, "a condition on each of three fields with names alike, with the others beside it; then re-qualified", func(c *mc.Ctx, n *namer) {
		if n.how != ownNames {
			moved(c, layered(c, n), 1)
			return
		}
		i := c.Choose(3)
		x := layers(c, c.Bound, model.Simple("=", three[i], 1), func() cond { i++; return model.Simple("=", three[i%3], i+10) })
		moved(c, x, 1)
	})
	extendLayers("C18", []int{3, 4}, []int{3, 4, 5}, "a plain condition; then every flag operation, then used in groups and filters", func(c *mc.Ctx, n *namer) {
		x := layered(c, n)
		x.N = model.Observed(x.Real, x.N)
		used(c, flags(c, x, 1))
	})
	extendLayers("C19", []int{3}, []int{3, 4, 5}, "an external condition of each of 9 kinds, of 0 or 2 parameters, with built-in ones beside it; alone and in eight statements", func(c *mc.Ctx, n *namer) {
		if n.how != ownNames {
			ext := func() cond {
				l := n.eq().N.Leaf
				return model.NewCustom(model.CFunc, false, "ext", l.Ref, l.Params...)
			}
			meansEverywhere(c, layers(c, c.Bound, ext(), ext))
			return
		}
		everywhere(c, layers(c, c.Bound, external(c, 1, 0, 2), n.eq))
	})
	extendLayers("C20", []int{3, 4}, []int{3, 4, 5}, "a plain condition; the filter of a statement written in every way", func(c *mc.Ctx, n *namer) {
		x := layered(c, n)
		if x.N.Empty() {
			return
		}
		t := query.Table("t")
		v := query.FieldName("a").Value(7)
		sameStatements(c, []form[builder]{
			{"SelectFrom.Where", func() builder { return query.SelectFrom("t").Where(x.Real) }},
			{"Table.Select", func() builder { return t.Select(x.Real) }},
			{"TableName.Select", func() builder { return query.TableName("t").Select(x.Real) }},
			{"SelectMany", func() builder { return t.SelectMany(x.Real) }},
			{"SelectManyFrom.Where", func() builder { return query.SelectManyFrom("t").Where(x.Real) }},
		})
		sameStatements(c, []form[builder]{
			{"Table.Count", func() builder { return t.Count(x.Real) }},
			{"Select.Count", func() builder { return t.Select(x.Real).Count() }},
			{"Count(Select)", func() builder { return query.Count(t.Select(x.Real)) }},
		})
		sameStatements(c, []form[builder]{
			{"Delete.Where", func() builder { return query.Delete("t").Where(x.Real) }},
			{"Table.Delete", func() builder { return t.Delete(x.Real) }},
			{"TableName.Delete", func() builder { return query.TableName("t").Delete(x.Real) }},
			{"Select.Delete", func() builder { return t.Select(x.Real).Delete() }},
		})
		sameStatements(c, []form[builder]{
			{"Update.Set.Where", func() builder { return query.Update("t").Set(v).Where(x.Real) }},
			{"Table.Update.Where", func() builder { return t.Update(v).Where(x.Real) }},
			{"Update.Where.Set", func() builder { return query.Update("t").Where(x.Real).Set(v) }},
			{"Select.Update", func() builder { return t.Select(x.Real).Update(v) }},
			{"SelectOne.Update", func() builder { return t.SelectOne(x.Real).Update(v) }},
		})
		y := n.eq()
		for _, op := range []query.JoinType{and, or} {
			m, ok := model.Combine(model.Method, op, x, y)
			f, ok2 := model.Combine(model.Func, op, x, y)
			if ok && ok2 {
				sameConditions(c, false, []form[query.Condition]{{m.Desc, func() query.Condition { return m.Real }}, {f.Desc, func() query.Condition { return f.Real }}})
			}
		}
	})
	extendLayers("C24", []int{3, 4}, []int{3, 4, 5}, "a plain condition given to every kind of builder, alone, after and before another call", func(c *mc.Ctx, n *namer) {
		f := newFiltered(pick(c, kMany, kSingle, "update", "delete"))
		x := layered(c, n)
		if c.Bool() {
			f = f.where([]cond{n.eq()})
		}
		f = f.where([]cond{x})
		f.check(c, "where "+x.Desc)
		f = f.where([]cond{n.eq()})
		f.check(c, "more where "+x.Desc)
		c.State(x.Real.RenderSQL())
	})
	mc.Extend("C05",
		mc.Family{Name: "layers", Quick: []int{3, 4, 5}, Thorough: []int{3, 4, 5, 6},
			Doc: layersDoc + " around a plain condition: every condition on the way is what it was when made, and so is a delete filtered by it",
			Body: func(c *mc.Ctx) {
				n := &namer{}
				var olds []any
				var was, names []string
				note := func(x cond) {
					d := query.Delete("t").Where(x.Real)
					olds, was, names = append(olds, x.Real, d), append(was, snapshot(x.Real), snapshot(d)), append(names, x.Desc, "delete where "+x.Desc)
				}
				x := n.eq()
				note(x)
				for i := 0; i < c.Bound; i++ {
					x = layers(c, 1, x, func() cond { s := n.eq(); note(s); return s })
					note(x)
				}
				for i := range olds {
					if s := snapshot(olds[i]); s != was[i] {
						c.Failf("%s changed:\n   was %s\n   now %s", names[i], was[i], s)
					}
				}
				c.State(was[len(was)-1])
			}},
		mc.Family{Name: "kept-values", Quick: []int{2, 3, 4}, Thorough: []int{2, 3, 4, 5},
			Doc: "an external condition that gives out a slice it keeps, of 0, 1 or 3 values with room for 0, 1 or 8 more behind: <bound> statements out of twelve built of it, their parameters stay as they were, and those of one statement may be overwritten and extended without a change of the others or the condition",
			Body: func(c *mc.Ctx) {
				x := newSpare("kept", []int{0, 1, 3}[c.Choose(3)], []int{0, 1, 8}[c.Choose(3)])
				var bs []builder
				var all [][]any
				var was []string
				kept := fmt.Sprint(x.kept[:cap(x.kept)])
				agree := func(after string) {
					for i, ps := range all {
						if s := fmt.Sprint(ps); s != was[i] {
							c.Failf("after %s the parameters given for statement %d, %s, are %s", after, i+1, was[i], s)
						}
					}
					if s := fmt.Sprint(x.kept[:cap(x.kept)]); s != kept {
						c.Failf("after %s the values of the condition, %s, are %s", after, kept, s)
					}
				}
				for i := 0; i < c.Bound; i++ {
					u := spareUses[c.Choose(len(spareUses))]
					c.Op("%s", u.name)
					b := u.mk(x)
					_, ps, err := b.BuildQueryAndParams()
					if err != nil {
						c.Failf("%s: %v", u.name, err)
					}
					bs, all, was = append(bs, b), append(all, ps), append(was, fmt.Sprint(ps))
					agree(u.name)
				}
				for i, ps := range all {
					_ = append(ps, "more", "and more")
					agree("extending")
					for k := range ps {
						ps[k] = "overwritten"
					}
					was[i] = fmt.Sprint(ps)
					agree("overwriting")
				}
				c.State(was...)
				c.Count(c.Bound)
			}})

	types := alikeTypes()
	mc.Extend("C27", mc.Family{Name: "alike-types", Quick: []int{2}, Thorough: []int{2, 3},
		Doc: fmt.Sprintf("every sequence of exactly <bound> out of %d uses of values of different types with the same name, alone and in lists: each yields what it yields when it is the first thing ever done", len(types)),
		Body: func(c *mc.Ctx) {
			var as []act0
			for i := 0; i < c.Bound; i++ {
				as = append(as, types[c.Choose(len(types))])
			}
			inOrder(c, as)
			c.State(as[0].name, as[1].name, as[len(as)-1].name)
		}})
}

// alikeTypes are uses of values of types which have the same name but convert differently.
func alikeTypes() (out []act0) {
	add := func(kind string, one, list any) {
		for _, v := range []struct {
			name string
			v    any
		}{{"one", one}, {"list", list}, {"any list", []any{one, one}}, {"pointer", &one}} {
			v := v
			out = append(out,
				act0{kind + " " + v.name + " equal", func() []any { return shown(query.EqualTo("f", v.v).Values()) }},
				act0{kind + " " + v.name + " in", func() []any {
					x := query.In("f", v.v)
					return append(shown(x.Values()), x.Render(0), x.RenderSQL())
				}},
				act0{kind + " " + v.name + " value", func() []any { return shown(query.FieldName("f").Value(v.v).Values()) }},
				act0{kind + " " + v.name + " insert", func() []any {
					_, ps, err := query.InsertInto("t").Values(*query.NewFieldValue("f", v.v)).BuildQueryAndParams()
					return append(shown(ps), err == nil)
				}})
		}
	}
	func() {
		type item struct{ model.VInt }
		add("converting", item{1}, []item{{1}, {2}})
	}()
	func() {
		type item struct{ model.Prov }
		add("providing", item{model.Prov{S: "p"}}, []item{{model.Prov{S: "p"}}, {}})
	}()
	func() {
		type item struct{ V int }
		add("plain", item{1}, []item{{1}, {2}})
	}()
	func() {
		type item []int
		add("ints", item{1, 2}, []item{{1}, {2, 3}})
	}()
	func() {
		type item []byte
		add("bytes", item("ab"), []item{item("a"), nil})
	}()
	func() {
		type item string
		add("text", item("t"), []item{"t", ""})
	}()
	func() {
		type item struct{ *model.VPtr }
		add("converting by pointer", item{&model.VPtr{S: "x"}}, []item{{&model.VPtr{S: "x"}}, {}})
	}()
	return out
}

func shown(ps []any) []any { return []any{model.Show(ps), fmt.Sprintf("%d", len(ps))} }
