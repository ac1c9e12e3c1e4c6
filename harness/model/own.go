package model

import (
	"database/sql/driver"
	"fmt"
	"strconv"
	"strings"

	"github.com/amarin/query"
)

// Own is a condition implementing the whole interface by itself, nothing embedded.
type Own struct {
	J      string
	N      bool
	Name   string
	Ref    Ref
	Params []any
	Calls  *OwnCalls
}

// OwnCalls counts what the library asked for.
type OwnCalls struct{ Starts []int }

func (o Own) render(ph func(i int) string) string {
	args := args(o.Ref)
	for i := range o.Params {
		args = append(args, ph(i))
	}
	s := o.Name + "(" + strings.Join(args, ", ") + ")"
	if o.N {
		return "NOT (" + s + ")"
	}
	return s
}

func (o Own) Render(n int) string {
	if o.Calls != nil {
		o.Calls.Starts = append(o.Calls.Starts, n)
	}
	return o.render(func(i int) string { return "$" + strconv.Itoa(n+i+1) })
}
func (o Own) RenderSQL() string { return o.render(func(int) string { return "?" }) }
func (o Own) Values() []any {
	if len(o.Params) == 0 {
		return nil
	}
	return append([]any{}, o.Params...)
}
func (o Own) JoinType() query.JoinType { return query.JoinType(o.J) }
func (o Own) RenderJoin(first bool) string {
	if first {
		return ""
	}
	return o.J
}
func (o Own) IsNegate() bool { return o.N }
func (o Own) RenderNegate() string {
	if o.N {
		return "NOT"
	}
	return ""
}
func (o Own) Join(j query.JoinType) query.Condition { o.J = string(j); return o }
func (o Own) Negate(b bool) query.Condition         { o.N = b; return o }
func (o Own) And(cs ...query.Condition) query.Condition {
	return query.NewGroup(query.LogicalAND, o).And(cs...)
}
func (o Own) Or(cs ...query.Condition) query.Condition {
	return query.NewGroup(query.LogicalAND, o).Or(cs...)
}
func (o Own) FieldName() query.FieldName { return query.FieldName(o.Ref.Name) }
func (o Own) ApplyFieldTable(t query.TableName) query.Condition {
	o.Ref.Table = string(t)
	return o
}
func (o Own) ApplyFieldSpec(s query.FieldDefinition) query.Condition {
	if string(s.FieldName()) == o.Ref.Name {
		o.Ref = Ref{string(s.TableName()), string(s.FieldName()), string(s.Alias())}
	}
	return o
}

// NewOwn makes such a condition.
func NewOwn(name string, ref Ref, params ...any) Cond {
	o := Own{J: "AND", Name: name, Ref: ref, Params: params, Calls: &OwnCalls{}}
	return Cond{Real: o, N: &Node{Leaf: &Leaf{Op: name + "()", Ref: ref, Params: params}}, J: query.LogicalAND,
		Desc: fmt.Sprintf("own(%s, %q, %d params)", name, ref.Spec(), len(params))}
}

// manners are methods a condition may have besides, which play no part in what it means.
type manners struct{ quiet bool }

func (m manners) say(s string) string {
	if m.quiet {
		return ""
	}
	return s
}
func (m manners) String() string                { return m.say("said $1 ?") }
func (m manners) GoString() string              { return m.say("said $2 ?") }
func (m manners) Error() string                 { return m.say("failed") }
func (m manners) Unwrap() error                 { return nil }
func (m manners) IsZero() bool                  { return m.quiet }
func (m manners) IsNil() bool                   { return m.quiet }
func (m manners) IsNull() bool                  { return m.quiet }
func (m manners) IsEmpty() bool                 { return m.quiet }
func (m manners) IsValid() bool                 { return !m.quiet }
func (m manners) IsCompound() bool              { return !m.quiet }
func (m manners) HasBrackets() bool             { return !m.quiet }
func (m manners) Len() int                      { return len(m.say("abc")) }
func (m manners) Count() int                    { return len(m.say("abc")) }
func (m manners) Value() (driver.Value, error)  { return m.say("value"), nil }
func (m manners) DatabaseValue() any            { return m.say("provided") }
func (m manners) Conditions() []query.Condition { return nil }
func (m manners) Params() []any                 { return []any{m.say("param")} }
func (m manners) TableName() query.TableName    { return query.TableName(m.say("elsewhere")) }
func (m manners) Alias() query.FieldName        { return query.FieldName(m.say("aliased")) }
func (m manners) RenderSpec() string            { return m.say("spec") }
func (m manners) RenderField() string           { return m.say("field") }
func (m manners) RenderFrom() string            { return m.say("from") }
func (m manners) BuildQueryAndParams() (string, []any, error) {
	return m.say("SELECT 1"), []any{m.say("param")}, nil
}
func (m manners) MarshalText() ([]byte, error) { return []byte(m.say("text")), nil }
func (m manners) SetTo(query.JoinType)         {}
func (m manners) FieldDefinition() query.FieldDefinition {
	return query.Field("other.field")
}

// Mannered is a condition with many other methods.
type Mannered struct {
	Own
	manners
}

func (m Mannered) Join(j query.JoinType) query.Condition { m.J = string(j); return m }
func (m Mannered) Negate(b bool) query.Condition         { m.N = b; return m }
func (m Mannered) And(cs ...query.Condition) query.Condition {
	return query.NewGroup(query.LogicalAND, m).And(cs...)
}
func (m Mannered) Or(cs ...query.Condition) query.Condition {
	return query.NewGroup(query.LogicalAND, m).Or(cs...)
}
func (m Mannered) ApplyFieldTable(t query.TableName) query.Condition {
	m.Own = m.Own.ApplyFieldTable(t).(Own)
	return m
}
func (m Mannered) ApplyFieldSpec(s query.FieldDefinition) query.Condition {
	m.Own = m.Own.ApplyFieldSpec(s).(Own)
	return m
}

// NewMannered makes such a condition.
func NewMannered(quiet bool, name string, ref Ref, params ...any) Cond {
	c := NewOwn(name, ref, params...)
	c.Real, c.Desc = Mannered{c.Real.(Own), manners{quiet}}, fmt.Sprintf("mannered(%v, %s)", quiet, c.Desc)
	return c
}

// NewZeroCustom embeds a BaseCondition with nothing set: joined with AND unless set otherwise.
func NewZeroCustom(name string, ref Ref, params ...any) Cond {
	c := Custom{Name: name, Ref: ref, Params: params, Style: CFunc}
	return Cond{Real: c, N: &Node{Leaf: &Leaf{Op: name + "()", Ref: ref, Params: params}}, J: query.LogicalAND,
		Desc: fmt.Sprintf("zero-custom(%s, %q, %d params)", name, ref.Spec(), len(params))}
}

// Wrapped is an external condition made of a group: it embeds one and adds nothing but its name.
type Wrapped struct {
	query.Group
	Title string
}

// Kept is an external condition made of a group that stays itself when joined or negated.
type Kept struct {
	query.Group
	Title string
}

func (k Kept) Join(j query.JoinType) query.Condition {
	k.Group = k.Group.Join(j).(query.Group)
	return k
}
func (k Kept) Negate(b bool) query.Condition {
	k.Group = k.Group.Negate(b).(query.Group)
	return k
}
func (k Kept) And(cs ...query.Condition) query.Condition { return query.And(k, cs...) }
func (k Kept) Or(cs ...query.Condition) query.Condition  { return query.Or(k, cs...) }
func (k Kept) ApplyFieldTable(t query.TableName) query.Condition {
	k.Group = k.Group.ApplyFieldTable(t).(query.Group)
	return k
}
func (k Kept) ApplyFieldSpec(s query.FieldDefinition) query.Condition {
	k.Group = k.Group.ApplyFieldSpec(s).(query.Group)
	return k
}

// Wrap puts a group into one of the external types or behind a pointer; ok only for groups.
func Wrap(kind int, c Cond) (Cond, bool) {
	g, ok := c.Real.(query.Group)
	if !ok {
		return c, false
	}
	switch kind {
	case 0:
		return Cond{&g, c.N, c.J, "&" + c.Desc}, true
	case 1:
		return Cond{Wrapped{g, "w"}, c.N, c.J, "Wrapped{" + c.Desc + "}"}, true
	case 2:
		return Cond{&Wrapped{g, "w"}, c.N, c.J, "&Wrapped{" + c.Desc + "}"}, true
	}
	return Cond{Kept{g, "k"}, c.N, c.J, "Kept{" + c.Desc + "}"}, true
}
