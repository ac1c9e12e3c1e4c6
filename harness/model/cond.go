// Package model is the reference model: conditions and statements as plain data, with their meaning,
// built in step with the real objects. It follows the documentation of the package, not its code.
package model

import (
	"fmt"
	"strings"

	"github.com/amarin/query"

	"verif/harness/sqlx"
)

// Ref is a field definition.
type Ref struct{ Table, Name, Alias string }

// String is how clauses refer to the field: its alias when it has one of its own, else qualified by its table.
func (r Ref) String() string {
	switch {
	case r.Alias != "" && r.Alias != r.Name:
		return r.Alias
	case r.Table != "":
		return r.Table + "." + r.Name
	}
	return r.Name
}

// Spec is the text that specifies the field.
func (r Ref) Spec() string {
	s := r.Name
	if r.Table != "" {
		s = r.Table + "." + s
	}
	if r.Alias != "" {
		s += " as " + r.Alias
	}
	return s
}

// Leaf is a comparison.
type Leaf struct {
	Op     string // "=", "<", "<=", ">", ">=", "LIKE", "ILIKE", "IN", "IS NULL", "BETWEEN", or "name()"
	Ref    Ref
	Params []any // parameters expected, in order
}

func (l *Leaf) expr() *sqlx.Expr {
	if name, ok := strings.CutSuffix(l.Op, "('')"); ok {
		keys := append(l.refKeys(), "text:"+TrickyText)
		for _, p := range l.Params {
			keys = append(keys, sqlx.ValueKey(p))
		}
		return &sqlx.Expr{Kind: sqlx.KAtom, Atom: name + " () " + strings.Join(keys, " , ")}
	}
	if name, ok := strings.CutSuffix(l.Op, "()"); ok {
		keys := l.refKeys()
		for _, p := range l.Params {
			keys = append(keys, sqlx.ValueKey(p))
		}
		return &sqlx.Expr{Kind: sqlx.KAtom, Atom: name + " () " + strings.Join(keys, " , ")}
	}
	return sqlx.Cmp(l.Ref.String(), l.Op, l.Params...)
}

// refKeys is the field given to a function, if any.
func (l *Leaf) refKeys() []string {
	if l.Ref == (Ref{}) {
		return nil
	}
	return []string{"ref:" + l.Ref.String()}
}

// args begins the arguments of a function.
func args(r Ref) []string {
	if r == (Ref{}) {
		return nil
	}
	return []string{r.String()}
}

// Node is the model of a condition.
type Node struct {
	Leaf *Leaf
	Op   query.JoinType   // how kids are joined
	Js   []query.JoinType // when not nil: kids joined as a flat chain by these operators (AND binds tighter)
	Kids []*Node
	Neg  bool
}

// Expr is the meaning; nil when the condition is empty.
func (n *Node) Expr() *sqlx.Expr {
	e := n.body()
	if e != nil && n.Neg {
		return sqlx.Not(e)
	}
	return e
}

func (n *Node) body() *sqlx.Expr {
	if n.Leaf != nil {
		return n.Leaf.expr()
	}
	var es []*sqlx.Expr
	var js []query.JoinType
	for i, k := range n.Kids {
		if e := k.Expr(); e != nil {
			es = append(es, e)
			if n.Js != nil {
				js = append(js, n.Js[i])
			}
		}
	}
	if len(es) == 0 {
		return nil
	}
	if n.Js != nil {
		var terms []*sqlx.Expr
		var cur []*sqlx.Expr
		for i, e := range es {
			if i > 0 && js[i] == query.LogicalOR {
				terms = append(terms, sqlx.And(cur...))
				cur = nil
			}
			cur = append(cur, e)
		}
		return sqlx.Or(append(terms, sqlx.And(cur...))...)
	}
	if n.Op == query.LogicalOR {
		return sqlx.Or(es...)
	}
	return sqlx.And(es...)
}

// Empty tells that the condition filters nothing at all.
func (n *Node) Empty() bool {
	if n.Leaf != nil {
		return false
	}
	for _, k := range n.Kids {
		if !k.Empty() {
			return false
		}
	}
	return true
}

// Params are the parameters in order.
func (n *Node) Params() []any {
	if n.Leaf != nil {
		return n.Leaf.Params
	}
	var out []any
	for _, k := range n.Kids {
		out = append(out, k.Params()...)
	}
	return out
}

// Map copies the tree with leaves changed.
func (n *Node) Map(f func(Leaf) Leaf) *Node {
	m := *n
	if n.Leaf != nil {
		l := f(*n.Leaf)
		m.Leaf = &l
		return &m
	}
	m.Kids = make([]*Node, len(n.Kids))
	for i, k := range n.Kids {
		m.Kids[i] = k.Map(f)
	}
	return &m
}

// Leaves counts the comparisons.
func (n *Node) Leaves() int {
	if n.Leaf != nil {
		return 1
	}
	s := 0
	for _, k := range n.Kids {
		s += k.Leaves()
	}
	return s
}

// Cond is a real condition with its model.
type Cond struct {
	Real query.Condition
	N    *Node
	J    query.JoinType // "" when not specified
	Desc string
}

// Join is the operator the condition carries: the specified one, else the one it reports.
func (c Cond) Join() query.JoinType {
	if c.J != "" {
		return c.J
	}
	return c.Real.JoinType()
}

func reals(cs []Cond) []query.Condition {
	out := make([]query.Condition, len(cs))
	for i, c := range cs {
		out[i] = c.Real
	}
	return out
}

// Reals are the real conditions.
func Reals(cs []Cond) []query.Condition { return reals(cs) }

func descs(cs []Cond) string {
	out := make([]string, len(cs))
	for i, c := range cs {
		out[i] = c.Desc
	}
	return strings.Join(out, ", ")
}

// Descs describes the conditions.
func Descs(cs []Cond) string { return descs(cs) }

// Not applies query.Not.
func Not(c Cond) Cond {
	n := *c.N
	n.Neg = true
	return Cond{query.Not(c.Real), &n, c.J, "Not(" + c.Desc + ")"}
}

// Negate applies the method.
func Negate(c Cond, b bool) Cond {
	n := *c.N
	n.Neg = b
	return Cond{c.Real.Negate(b), &n, c.J, fmt.Sprintf("%s.Negate(%v)", c.Desc, b)}
}

// Join applies the Join method.
func Join(c Cond, j query.JoinType) Cond {
	return Cond{c.Real.Join(j), c.N, j, fmt.Sprintf("%s.Join(%s)", c.Desc, j)}
}

// JTJoin applies JoinType.Join to one or more conditions.
func JTJoin(j query.JoinType, cs ...Cond) Cond {
	r := j.Join(reals(cs)...)
	d := fmt.Sprintf("%s.Join(%s)", j, descs(cs))
	if len(cs) == 1 {
		return Cond{r, cs[0].N, j, d}
	}
	return Cond{r, group(j, cs), query.LogicalAND, d}
}

func group(j query.JoinType, cs []Cond) *Node {
	n := &Node{Op: j}
	for _, c := range cs {
		n.Kids = append(n.Kids, c.N)
	}
	return n
}

// NewGroup applies query.NewGroup.
func NewGroup(j query.JoinType, cs ...Cond) Cond {
	return Cond{query.NewGroup(j, reals(cs)...), group(j, cs), query.LogicalAND, fmt.Sprintf("NewGroup(%s)", strings.Join(append([]string{string(j)}, descsList(cs)...), ", "))}
}

func descsList(cs []Cond) []string {
	out := make([]string, len(cs))
	for i, c := range cs {
		out[i] = c.Desc
	}
	return out
}

// Brackets applies Group.WithBrackets; ok only for groups.
func Brackets(c Cond) (Cond, bool) {
	g, ok := c.Real.(query.Group)
	if !ok {
		return c, false
	}
	return Cond{g.WithBrackets(), c.N, c.J, c.Desc + ".WithBrackets()"}, true
}

// How a combination is written.
const (
	Func     = iota // query.And(c, ds...)
	Method          // c.And(ds...)
	GroupRaw        // c.GroupAND(ds...), groups only
)

// Unspecified is returned for combinations the documentation does not give a meaning.
type Unspecified struct{}

// Combine applies And or Or (op) of c and ds in the given form. The second result is false when the form does
// not exist for c or the combination has no specified meaning.
func Combine(form int, op query.JoinType, c Cond, ds ...Cond) (Cond, bool) {
	if c.N.Empty() {
		if c.N.Neg {
			return c, false // negation of nothing
		}
		full := 0
		for _, d := range ds {
			if !d.N.Empty() {
				if full++; full > 1 && d.Join() != query.LogicalAND {
					return c, false // chained by their own operators when added to nothing
				}
			}
		}
		if full > 1 && op == query.LogicalOR {
			return c, false
		}
	}
	name := map[query.JoinType]string{query.LogicalAND: "And", query.LogicalOR: "Or"}[op]
	out := Cond{}
	and := op == query.LogicalAND
	switch form {
	case Func:
		if and {
			out.Real = query.And(c.Real, reals(ds)...)
		} else {
			out.Real = query.Or(c.Real, reals(ds)...)
		}
		out.Desc = name + "(" + descs(append([]Cond{c}, ds...)) + ")"
	case Method:
		if and {
			out.Real = c.Real.And(reals(ds)...)
		} else {
			out.Real = c.Real.Or(reals(ds)...)
		}
		out.Desc = c.Desc + "." + name + "(" + descs(ds) + ")"
	default:
		g, ok := c.Real.(query.Group)
		if !ok {
			return c, false
		}
		if and {
			out.Real = g.GroupAND(reals(ds)...)
		} else {
			out.Real = g.GroupOR(reals(ds)...)
		}
		out.Desc = c.Desc + ".Group" + strings.ToUpper(name) + "(" + descs(ds) + ")"
	}
	added := &Node{Op: query.LogicalAND}
	for _, d := range ds {
		if !d.N.Empty() {
			added.Kids = append(added.Kids, d.N)
		}
	}
	switch {
	case len(ds) == 0 && form == Func:
		out.N, out.J = c.N, op
	case len(added.Kids) == 0:
		out.N = Observed(out.Real, c.N)
	case c.N.Empty():
		out.N = Observed(out.Real, added)
	default:
		out.N = &Node{Op: op, Kids: []*Node{c.N, added}}
	}
	return out, true
}

// Observed keeps the meaning of n and splits it into negation and body by the flag the object reports,
// where the documentation leaves open which part carries the negation.
func Observed(real query.Condition, n *Node) *Node {
	if real.IsNegate() == n.Neg {
		return n
	}
	if real.IsNegate() { // meaning = Not(body) with body = Not(n)
		return &Node{Op: query.LogicalAND, Neg: true, Kids: []*Node{{Op: query.LogicalAND, Neg: true, Kids: []*Node{n}}}}
	}
	return &Node{Op: query.LogicalAND, Kids: []*Node{n}}
}

// Chain is the meaning of several conditions given at once to an unfiltered builder.
func Chain(cs []Cond) *Node {
	n := &Node{Js: []query.JoinType{}}
	for _, c := range cs {
		n.Kids = append(n.Kids, c.N)
		n.Js = append(n.Js, c.Join())
	}
	return n
}

// Where is the filter after adding cs to filter (nil: none) with one Where call.
func Where(filter *Node, cs []Cond) *Node {
	var full []Cond
	for _, c := range cs {
		if !c.N.Empty() {
			full = append(full, c)
		}
	}
	if len(full) == 0 {
		return filter
	}
	if filter == nil {
		if len(full) == 1 {
			return full[0].N
		}
		return Chain(full)
	}
	return &Node{Op: query.LogicalAND, Kids: append([]*Node{filter}, group(query.LogicalAND, full).Kids...)}
}

// Mean is the meaning of a filter, nil when there is none.
func Mean(n *Node) *sqlx.Expr {
	if n == nil {
		return nil
	}
	return n.Expr()
}

// ParamsOf are the parameters of a filter.
func ParamsOf(n *Node) []any {
	if n == nil {
		return nil
	}
	return n.Params()
}
