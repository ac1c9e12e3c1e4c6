// Package props holds the checks: for each property, the bounded spaces explored and the comparison with the model.
package props

import (
	"errors"
	"fmt"
	"reflect"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
	"verif/harness/sqlx"
)

const (
	and = query.LogicalAND
	or  = query.LogicalOR
)

type cond = model.Cond
type ref = model.Ref

// builder is any statement builder.
type builder interface {
	BuildQueryAndParams() (string, []any, error)
}

// renderer is anything rendered in both placeholder styles.
type renderer interface {
	Render(int) string
	RenderSQL() string
	Values() []any
}

// build builds and parses a statement; any error is a violation.
func build(c *mc.Ctx, what string, b builder) *sqlx.Stmt {
	sql, params, err := b.BuildQueryAndParams()
	c.Count(1)
	if err != nil {
		c.Failf("%s: unexpected error: %v", what, err)
	}
	st, perr := sqlx.ParseStmt(sql, params, 0, false)
	if perr != nil {
		c.Failf("%s: built %q %v which does not read as a statement: %v", what, sql, params, perr)
	}
	if c.Tracing {
		c.Logf("  %s builds %q with %s", what, sql, model.Show(params))
	}
	return st
}

// wantErr checks that building fails with query.Error and empty SQL.
func wantErr(c *mc.Ctx, what string, b builder) {
	sql, params, err := b.BuildQueryAndParams()
	c.Count(1)
	switch {
	case err == nil:
		c.Failf("%s: expected an error, built %q %v", what, sql, params)
	case !errors.Is(err, query.Error):
		c.Failf("%s: the error %v does not wrap query.Error", what, err)
	case sql != "":
		c.Failf("%s: error %v together with SQL %q", what, err, sql)
	}
	c.Logf("  %s fails as expected: %v", what, err)
}

// sameFilter compares a parsed filter with the model.
func sameFilter(c *mc.Ctx, what string, got *sqlx.Expr, want *model.Node) {
	w := model.Mean(want)
	if (got == nil) != (w == nil) {
		c.Failf("%s: the filter is %v, expected %v", what, got, w)
	}
	if got == nil {
		return
	}
	if ok, wit := sqlx.Equiv(got, w); !ok {
		c.Failf("%s: the filter reads %v, expected %v: differ %s", what, got, w, wit)
	}
}

// condMeans checks the meaning of a condition rendered with numbers counted from start, and with question marks.
func condMeans(c *mc.Ctx, what string, r renderer, want *model.Node, start int) {
	vals := r.Values()
	for _, anon := range []bool{false, true} {
		var sql string
		if anon {
			sql = r.RenderSQL()
		} else {
			sql = r.Render(start)
		}
		e, _, err := sqlx.ParseCond(sql, vals, start, anon)
		if err != nil {
			c.Failf("%s: rendered %q %v does not read as a condition: %v", what, sql, vals, err)
		}
		if c.Tracing {
			c.Logf("  %s renders %q with %s", what, sql, model.Show(vals))
		}
		sameFilter(c, fmt.Sprintf("%s rendered %q", what, sql), e, want)
	}
	c.Count(3)
}

// sameParams compares parameter lists by content and type; nil and empty lists are the same.
func sameParams(got, want []any) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if !reflect.DeepEqual(got[i], want[i]) {
			return false
		}
	}
	return true
}

// pick returns one of the arguments.
func pick[T any](c *mc.Ctx, xs ...T) T { return xs[c.Choose(len(xs))] }

// must panic
func panics(f func()) (msg any) {
	defer func() { msg = recover() }()
	f()
	return nil
}

// namer gives fields f0, f1, ... to new leaves so that every leaf is told apart,
// or in one of the other ways makes them alike.
type namer struct{ n, how int }

const (
	ownNames  = iota
	oneName   // the same name, values of their own
	oneLeaf   // the same name and value
	twoNames  // two names in turn, values of their own
	twoTables // the same name of two tables and of none in turn, values of their own
	alikes    // the number of ways
)

func (n *namer) eq() cond { return n.op("=") }

func (n *namer) op(op string) cond {
	k := n.n
	n.n++
	switch n.how {
	case oneName:
		return model.Simple(op, ref{Name: "f"}, k)
	case oneLeaf:
		return model.Simple(op, ref{Name: "f"}, 1)
	case twoNames:
		return model.Simple(op, ref{Name: fmt.Sprintf("f%d", k%2)}, k)
	case twoTables:
		return model.Simple(op, ref{Table: []string{"", "t", "u"}[k%3], Name: "f"}, k)
	}
	return model.Simple(op, ref{Name: fmt.Sprintf("f%d", k)}, k)
}

// alikeNamer makes leaves alike in any way.
func alikeNamer(c *mc.Ctx) *namer { return &namer{how: 1 + c.Choose(alikes-1)} }
