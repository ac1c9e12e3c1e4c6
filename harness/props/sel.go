package props

import (
	"fmt"
	"strings"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

// sel is a select builder of any kind with its model.
type sel struct {
	kind string // base, many, single
	b    query.BaseSelectBuilder
	m    query.SelectManyBuilder
	s    query.SelectSingleBuilder

	table  sqlx.Table
	fields []ref
	joins  []sqlx.Join
	filter *model.Node
	order  []sqlx.Term
	offset uint64
	limit  int64
	desc   string
}

// sel kinds
const (
	kBase, kMany, kSingle = "base", "many", "single"
)

func newSel(kind string, t query.TableIdent) sel {
	x := sel{kind: kind, table: tableOf(t)}
	switch kind {
	case kBase:
		x.b = query.SelectFrom(t)
	case kMany:
		x.m = query.SelectManyFrom(t)
	case kSingle:
		x.s = query.SelectSingleFrom(t)
	}
	x.desc = kind + "(" + t.RenderFrom() + ")"
	return x
}

func tableOf(t query.TableIdent) sqlx.Table {
	a := string(t.Alias())
	if a == string(t.TableName()) {
		a = ""
	}
	return sqlx.Table{Name: string(t.TableName()), Alias: a}
}

// is builds whichever kind it is.
func (x sel) is() interface {
	builder
	renderer
	RenderFrom() string
	FieldDefinitions() []query.FieldDefinition
	TableName() query.TableName
} {
	switch x.kind {
	case kMany:
		return x.m
	case kSingle:
		return x.s
	}
	return x.b
}

func (x sel) as(desc string, a ...any) sel {
	x.desc += "." + fmt.Sprintf(desc, a...)
	x.fields = x.fields[:len(x.fields):len(x.fields)]
	x.joins = x.joins[:len(x.joins):len(x.joins)]
	x.order = x.order[:len(x.order):len(x.order)]
	return x
}

func definition(r ref) query.FieldDefinition {
	var d query.FieldDefinition
	if r.Name != "" {
		d = query.Field(r.Name)
	}
	if r.Table != "" {
		d = d.Of(query.TableName(r.Table))
	}
	if r.Alias != "" {
		d = d.As(query.FieldName(r.Alias))
	}
	return d
}

func definitions(rs []ref) []query.FieldDefinition {
	out := make([]query.FieldDefinition, len(rs))
	for i, r := range rs {
		out[i] = definition(r)
	}
	return out
}

// Fields sets the field list.
func (x sel) Fields(rs ...ref) sel {
	y := x.as("Fields(%v)", rs)
	y.fields = append([]ref{}, rs...)
	ds := definitions(rs)
	switch x.kind {
	case kBase:
		y.b = x.b.Fields(ds...)
	case kMany:
		y.m = x.m.Fields(ds...)
	case kSingle:
		y.s = x.s.Fields(ds...)
	}
	return y
}

// Where adds conditions.
func (x sel) Where(cs ...cond) sel {
	y := x.as("Where(%s)", model.Descs(cs))
	y.filter = model.Where(x.filter, cs)
	rs := model.Reals(cs)
	switch x.kind {
	case kBase:
		y.b = x.b.Where(rs...)
	case kMany:
		y.m = x.m.Where(rs...)
	case kSingle:
		y.s = x.s.Where(rs...)
	}
	return y
}

var joinTypes = []query.TableJoinType{query.InnerJoin, query.LeftJoin, query.RightJoin, query.FullJoin}
var joinNames = []string{"INNER", "LEFT", "RIGHT", "FULL"}

// Join adds a join; short chooses the InnerJoin/LeftJoin/... form. An alias of t can be given to all kinds:
// many and single take the table as text.
func (x sel) Join(t query.TableIdent, kind int, short bool, l, r ref) sel {
	y := x.as("Join(%s %s, %v=%v)", joinNames[kind], t.RenderFrom(), l, r)
	y.joins = append(y.joins, sqlx.Join{Type: joinNames[kind], Table: tableOf(t), Left: l.Table + "." + l.Name, Right: r.Table + "." + r.Name})
	dl, dr := definition(l), definition(r)
	switch x.kind {
	case kBase:
		y.b = halfBase(x.b, t, kind, short).On(dl, dr)
	case kMany:
		y.m = halfMany(x.m, query.TableName(t.RenderFrom()), kind, short).On(dl, dr)
	case kSingle:
		y.s = halfSingle(x.s, query.TableName(t.RenderFrom()), kind, short).On(dl, dr)
	}
	return y
}

func halfBase(b query.BaseSelectBuilder, t query.TableIdent, kind int, short bool) query.IncompleteSelectJoin {
	if short {
		return []func(query.TableIdent) query.IncompleteSelectJoin{b.InnerJoin, b.LeftJoin, b.RightJoin, b.FullJoin}[kind](t)
	}
	return b.Join(t, joinTypes[kind])
}

func halfMany(b query.SelectManyBuilder, t query.TableName, kind int, short bool) query.IncompleteSelectManyJoiner {
	if short {
		return []func(query.TableName) query.IncompleteSelectManyJoiner{b.InnerJoin, b.LeftJoin, b.RightJoin, b.FullJoin}[kind](t)
	}
	return b.Join(t, joinTypes[kind])
}

func halfSingle(b query.SelectSingleBuilder, t query.TableName, kind int, short bool) query.IncompleteSelectSingleJoiner {
	if short {
		return []func(query.TableName) query.IncompleteSelectSingleJoiner{b.InnerJoin, b.LeftJoin, b.RightJoin, b.FullJoin}[kind](t)
	}
	return b.Join(t, joinTypes[kind])
}

// toMany moves the model over to a many select.
func (x sel) toMany(m query.SelectManyBuilder, desc string, a ...any) sel {
	y := x.as(desc, a...)
	y.kind, y.m = kMany, m
	if x.kind != kMany {
		y.order, y.offset, y.limit = nil, 0, 0
	}
	return y
}

// OrderBy adds ordering terms.
func (x sel) OrderBy(ts ...sqlx.Term) sel {
	var fs []query.FieldSorting
	for _, t := range ts {
		fs = append(fs, query.OrderBy(query.FieldName(t.Ref), query.SortDirection(t.Dir)))
	}
	var m query.SelectManyBuilder
	switch x.kind {
	case kBase:
		m = x.b.OrderBy(fs...)
	case kMany:
		m = x.m.OrderBy(fs...)
	case kSingle:
		m = x.s.OrderBy(fs...)
	}
	y := x.toMany(m, "OrderBy(%v)", ts)
	y.order = append(y.order, ts...)
	return y
}

// Offset sets the offset.
func (x sel) Offset(n uint) sel {
	var m query.SelectManyBuilder
	switch x.kind {
	case kBase:
		m = x.b.Offset(n)
	case kMany:
		m = x.m.Offset(n)
	case kSingle:
		m = x.s.Offset(n)
	}
	y := x.toMany(m, "Offset(%d)", n)
	y.offset = uint64(n)
	return y
}

// Limit sets the limit.
func (x sel) Limit(n int) sel {
	var m query.SelectManyBuilder
	switch x.kind {
	case kBase:
		m = x.b.Limit(n)
	case kMany:
		m = x.m.Limit(n)
	case kSingle:
		m = x.s.Limit(n)
	}
	y := x.toMany(m, "Limit(%d)", n)
	y.limit = int64(n)
	return y
}

// conversions between kinds; how is one of the names below.
var conversions = []string{"Many", "Single", "SelectManyFromBase", "SelectSingleFromBase", "BaseSelectBuilder"}

// core is the base part of any kind.
func (x sel) core() query.BaseSelectBuilder {
	switch x.kind {
	case kMany:
		return x.m.BaseSelectBuilder
	case kSingle:
		return x.s.BaseSelectBuilder
	}
	return x.b
}

// Convert changes the kind.
func (x sel) Convert(how string) sel {
	y := x.as("%s", how)
	y.order, y.offset, y.limit = nil, 0, 0
	switch how {
	case "Many":
		y.kind = kMany
		switch x.kind {
		case kBase:
			y.m = x.b.Many()
		case kMany:
			y.m = x.m.Many()
		case kSingle:
			y.m = x.s.Many()
		}
	case "Single":
		y.kind = kSingle
		switch x.kind {
		case kBase:
			y.s = x.b.Single()
		case kMany:
			y.s = x.m.Single()
		case kSingle:
			y.s = x.s.Single()
		}
	case "SelectManyFromBase":
		y.kind, y.m = kMany, query.SelectManyFromBase(x.core())
	case "SelectSingleFromBase":
		y.kind, y.s = kSingle, query.SelectSingleFromBase(x.core())
	case "BaseSelectBuilder":
		y.kind, y.b = kBase, x.core()
	}
	return y
}

// Count derives a count query.
func (x sel) Count() query.CountBuilder {
	switch x.kind {
	case kMany:
		return x.m.Count()
	case kSingle:
		return x.s.Count()
	}
	return x.b.Count()
}

// Update derives an update.
func (x sel) Update(vs ...query.FieldValue) query.UpdateBuilder {
	switch x.kind {
	case kMany:
		return x.m.Update(vs...)
	case kSingle:
		return x.s.Update(vs...)
	}
	return x.b.Update(vs...)
}

// Delete derives a delete.
func (x sel) Delete() query.DeleteBuilder {
	switch x.kind {
	case kMany:
		return x.m.Delete()
	case kSingle:
		return x.s.Delete()
	}
	return x.b.Delete()
}

// InsertInto derives an insert.
func (x sel) InsertInto(vs ...query.FieldValue) query.InsertBuilder {
	switch x.kind {
	case kMany:
		return x.m.InsertInto(vs...)
	case kSingle:
		return x.s.InsertInto(vs...)
	}
	return x.b.InsertInto(vs...)
}

func items(rs []ref) []sqlx.Item {
	if len(rs) == 0 {
		return []sqlx.Item{{Ref: "*"}}
	}
	var out []sqlx.Item
	for _, r := range rs {
		it := sqlx.Item{Ref: r.Name}
		if r.Table != "" {
			it.Ref = r.Table + "." + r.Name
		}
		if r.Alias != "" && !(r.Alias == r.Name && r.Table == "") {
			it.Alias = r.Alias
		}
		out = append(out, it)
	}
	return out
}

func sameSource(c *mc.Ctx, what string, t sqlx.Table, js []sqlx.Join, wantT sqlx.Table, wantJ []sqlx.Join) {
	if t != wantT {
		c.Failf("%s: the table is %+v, expected %+v", what, t, wantT)
	}
	if len(js) != len(wantJ) {
		c.Failf("%s: %d joins %+v, expected %+v", what, len(js), js, wantJ)
	}
	for i := range js {
		if js[i] != wantJ[i] {
			c.Failf("%s: join %d is %+v, expected %+v", what, i+1, js[i], wantJ[i])
		}
	}
}

// matches compares a parsed select with the model.
func (x sel) matches(c *mc.Ctx, what string, st *sqlx.Stmt) {
	if st.Kind != "SELECT" {
		c.Failf("%s: a %s statement, expected SELECT", what, st.Kind)
	}
	want := items(x.fields)
	if len(st.Items) != len(want) {
		c.Failf("%s: fields %v, expected %v", what, st.Items, want)
	}
	for i, it := range st.Items {
		if it.Alias != "" && it.Alias == it.Ref { // "f AS f" says no more than "f"
			it.Alias = ""
		}
		w := want[i]
		if it != w {
			c.Failf("%s: field %d is %v, expected %v", what, i+1, it, w)
		}
	}
	sameSource(c, what, st.Table, st.Joins, x.table, x.joins)
	sameFilter(c, what, st.Where, x.filter)
	if len(st.Order) != len(x.order) {
		c.Failf("%s: ordering %v, expected %v", what, st.Order, x.order)
	}
	for i := range st.Order {
		if st.Order[i] != x.order[i] {
			c.Failf("%s: ordering term %d is %v, expected %v", what, i+1, st.Order[i], x.order[i])
		}
	}
	if x.kind == kSingle {
		checkPaging(c, what, st, 0, 1)
	} else {
		checkPaging(c, what, st, x.offset, x.limit)
	}
}

// check builds the select and compares everything it says with the model.
func (x sel) check(c *mc.Ctx) *sqlx.Stmt {
	st := stmtOK(c, x.desc, x.is())
	x.matches(c, x.desc, st)
	t, js, err := sqlx.ParseFrom(x.is().RenderFrom())
	if err != nil {
		c.Failf("%s: RenderFrom gives %q: %v", x.desc, x.is().RenderFrom(), err)
	}
	sameSource(c, x.desc+" RenderFrom", t, js, x.table, x.joins)
	if n := string(x.is().TableName()); n != x.table.Name {
		c.Failf("%s: TableName() is %q, expected %q", x.desc, n, x.table.Name)
	}
	ds := x.is().FieldDefinitions()
	if len(ds) != len(x.fields) {
		c.Failf("%s: FieldDefinitions() are %v, expected %v", x.desc, ds, x.fields)
	}
	for i, d := range ds {
		r := x.fields[i]
		if string(d.FieldName()) != r.Name || string(d.TableName()) != r.Table || string(d.Alias()) != r.Alias {
			c.Failf("%s: FieldDefinitions()[%d] is %q, expected %q", x.desc, i, d.RenderSpec(), r.Spec())
		}
	}
	return st
}

// key describes the model for counting states.
func (x sel) key() string {
	return strings.Join([]string{x.kind, fmt.Sprint(x.table, x.fields, x.joins, x.order, x.offset, x.limit), fmt.Sprint(model.Mean(x.filter))}, "|")
}
