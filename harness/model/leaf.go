package model

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/amarin/query"
)

// Ops are the built-in comparisons.
var Ops = []string{"=", "<", "<=", ">", ">=", "LIKE", "ILIKE", "IN", "IS NULL"}

// OpName is the constructor of the comparison.
var OpName = map[string]string{"=": "EqualTo", "<": "Less", "<=": "LessOrEqual", ">": "GreaterThan", ">=": "GreaterOrEqual",
	"LIKE": "Contains", "ILIKE": "IContains", "IN": "In", "IS NULL": "IsNull"}

// HasMethod tells which comparisons FieldName offers as methods.
var HasMethod = map[string]bool{"=": true, "LIKE": true, "ILIKE": true, "IN": true, "IS NULL": true}

// RealLeaf calls the constructor (or FieldName method) of a comparison.
func RealLeaf(op string, spec query.FieldName, v any, method bool) query.Condition {
	if method {
		switch op {
		case "=":
			return spec.EqualTo(v)
		case "LIKE":
			return spec.Contains(v.(string))
		case "ILIKE":
			return spec.IContains(v.(string))
		case "IN":
			return spec.In(v)
		case "IS NULL":
			return spec.IsNull()
		}
		panic("no method for " + op)
	}
	switch op {
	case "=":
		return query.EqualTo(spec, v)
	case "<":
		return query.Less(spec, v)
	case "<=":
		return query.LessOrEqual(spec, v)
	case ">":
		return query.GreaterThan(spec, v)
	case ">=":
		return query.GreaterOrEqual(spec, v)
	case "LIKE":
		return query.Contains(spec, v.(string))
	case "ILIKE":
		return query.IContains(spec, v.(string))
	case "IN":
		return query.In(spec, v)
	case "IS NULL":
		return query.IsNull(spec)
	}
	panic("unknown comparison " + op)
}

// NewLeaf makes a comparison given the parameters it must yield.
func NewLeaf(op string, ref Ref, v any, params []any, method bool) Cond {
	form := OpName[op] + "(" + strconv.Quote(ref.Spec())
	if method {
		form = "FieldName(" + strconv.Quote(ref.Spec()) + ")." + OpName[op] + "("
	} else if op != "IS NULL" {
		form += ", "
	}
	if op != "IS NULL" {
		form += Show(v)
	}
	return Cond{
		Real: RealLeaf(op, query.FieldName(ref.Spec()), v, method),
		N:    &Node{Leaf: &Leaf{Op: op, Ref: ref, Params: params}},
		J:    query.LogicalAND,
		Desc: form + ")",
	}
}

// Show renders a value for traces.
func Show(v any) string {
	s := fmt.Sprintf("%#v", v)
	if len(s) > 80 {
		s = s[:80] + "..."
	}
	return s
}

// Eq makes EqualTo(name, v).
func Eq(name string, v any) Cond { return NewLeaf("=", Ref{Name: name}, v, []any{v}, false) }

// Simple makes a comparison of each kind over a plain field, with values numbered from seed.
// IN takes two values.
func Simple(op string, ref Ref, seed int) Cond {
	switch op {
	case "LIKE", "ILIKE":
		v := "v" + strconv.Itoa(seed)
		return NewLeaf(op, ref, v, []any{"%" + v + "%"}, false)
	case "IN":
		return NewLeaf(op, ref, []int{seed, seed + 1000}, []any{seed, seed + 1000}, false)
	case "IS NULL":
		return NewLeaf(op, ref, nil, nil, false)
	}
	return NewLeaf(op, ref, seed, []any{seed}, false)
}

// Custom is a condition implemented outside the package.
type Custom struct {
	query.BaseCondition
	Name   string
	Ref    Ref
	Params []any
	Style  int
}

// TrickyText is a text literal inside a condition.
const TrickyText = `'$1 OR (? AND $12, 100%d %s \1 ''x'' ) WHERE ` + "\t" + `  two  spaces'`

// Styles of custom conditions.
const (
	CFunc    = iota // name(field, $1, ...), NOT in front when negated
	CBetween        // field BETWEEN $1 AND $2, field NOT BETWEEN when negated
	CParen          // (name(field) ) in brackets of its own
	CText           // name(field, 'text', $1, ...), the text full of what looks like placeholders and SQL
	CStyles
)

func (c Custom) render(ph func(i int) string) string {
	neg := ""
	if c.IsNegate() {
		neg = c.RenderNegate() + " "
	}
	switch c.Style {
	case CBetween:
		return c.Ref.String() + " " + neg + "BETWEEN " + ph(0) + " AND " + ph(1)
	}
	args := args(c.Ref)
	if c.Style == CText {
		args = append(args, TrickyText)
	}
	for i := range c.Params {
		args = append(args, ph(i))
	}
	s := c.Name + "(" + strings.Join(args, ", ") + ")"
	if c.Style == CParen {
		s = "(" + s + ")"
	}
	return neg + s
}

func (c Custom) Render(n int) string {
	return c.render(func(i int) string { return "$" + strconv.Itoa(n+i+1) })
}
func (c Custom) RenderSQL() string { return c.render(func(int) string { return "?" }) }
func (c Custom) Values() []any     { return append([]any{}, c.Params...) }
func (c Custom) Join(j query.JoinType) query.Condition {
	c.BaseCondition = c.BaseCondition.Join(j)
	return c
}
func (c Custom) Negate(b bool) query.Condition {
	c.BaseCondition = c.BaseCondition.Negate(b)
	return c
}
func (c Custom) And(cs ...query.Condition) query.Condition { return query.And(c, cs...) }
func (c Custom) Or(cs ...query.Condition) query.Condition  { return query.Or(c, cs...) }
func (c Custom) FieldName() query.FieldName                { return query.FieldName(c.Ref.Name) }
func (c Custom) ApplyFieldSpec(s query.FieldDefinition) query.Condition {
	if string(s.FieldName()) == c.Ref.Name {
		c.Ref = Ref{string(s.TableName()), string(s.FieldName()), string(s.Alias())}
	}
	return c
}
func (c Custom) ApplyFieldTable(t query.TableName) query.Condition {
	c.Ref.Table = string(t)
	return c
}

// CustomPtr is the same with pointer receivers.
type CustomPtr struct{ Custom }

func (c *CustomPtr) Join(j query.JoinType) query.Condition {
	n := *c
	n.BaseCondition = n.BaseCondition.Join(j)
	return &n
}
func (c *CustomPtr) Negate(b bool) query.Condition {
	n := *c
	n.BaseCondition = n.BaseCondition.Negate(b)
	return &n
}
func (c *CustomPtr) And(cs ...query.Condition) query.Condition { return query.And(c, cs...) }
func (c *CustomPtr) Or(cs ...query.Condition) query.Condition  { return query.Or(c, cs...) }
func (c *CustomPtr) ApplyFieldSpec(s query.FieldDefinition) query.Condition {
	return &CustomPtr{c.Custom.ApplyFieldSpec(s).(Custom)}
}
func (c *CustomPtr) ApplyFieldTable(t query.TableName) query.Condition {
	return &CustomPtr{c.Custom.ApplyFieldTable(t).(Custom)}
}

// NewCustom makes an external condition with the given parameters.
func NewCustom(style int, ptr bool, name string, ref Ref, params ...any) Cond {
	c := Custom{BaseCondition: query.BaseCondition{}.Join(query.LogicalAND), Name: name, Ref: ref, Params: params, Style: style}
	op := name + "()"
	if style == CText {
		op = name + "('')"
	}
	if style == CBetween {
		op = "BETWEEN"
	}
	var real query.Condition = c
	if ptr {
		real = &CustomPtr{c}
	}
	return Cond{Real: real, N: &Node{Leaf: &Leaf{Op: op, Ref: ref, Params: params}}, J: query.LogicalAND,
		Desc: fmt.Sprintf("custom(%s, %q, %d params)", op, ref.Spec(), len(params))}
}
