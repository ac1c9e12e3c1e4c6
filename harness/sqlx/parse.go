package sqlx

import (
	"fmt"
	"strconv"
	"strings"
)

// Tok is a lexical token.
type Tok struct {
	T string // "id", "num", "ph", "op"
	S string // text ("$3", "?", "WHERE", ...)
}

// Tokens splits sql; fails on anything a statement of ours may not contain.
func Tokens(sql string) ([]Tok, error) {
	var out []Tok
	rs := []byte(sql)
	for i := 0; i < len(rs); {
		c := rs[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case letter(c) || c == '_' || c == '"':
			j := i
			for j < len(rs) && (rs[j] == '"' || letter(rs[j]) || digit(rs[j]) || rs[j] == '_' || rs[j] == '.' && j+1 < len(rs) && (letter(rs[j+1]) || rs[j+1] == '_' || rs[j+1] == '"' || rs[j+1] == '*' || digit(rs[j+1]))) {
				j++
			}
			if j < len(rs) && rs[j] == '*' && rs[j-1] == '.' {
				j++
			}
			if strings.Count(string(rs[i:j]), `"`)%2 == 1 {
				return nil, fmt.Errorf("unterminated quoted name at %q", string(rs[i:]))
			}
			out = append(out, Tok{"id", string(rs[i:j])})
			i = j
		case digit(c):
			j := i
			for j < len(rs) && digit(rs[j]) {
				j++
			}
			if j < len(rs) && (letter(rs[j]) || rs[j] == '_' || rs[j] == '.') {
				return nil, fmt.Errorf("malformed number at %q", string(rs[i:]))
			}
			out = append(out, Tok{"num", string(rs[i:j])})
			i = j
		case c == '$':
			j := i + 1
			for j < len(rs) && digit(rs[j]) {
				j++
			}
			if j == i+1 || j < len(rs) && (letter(rs[j]) || rs[j] == '_') || rs[i+1] == '0' && j > i+2 {
				return nil, fmt.Errorf("malformed placeholder at %q", string(rs[i:]))
			}
			out = append(out, Tok{"ph", string(rs[i:j])})
			i = j
		case c == '?':
			out = append(out, Tok{"ph", "?"})
			i++
		case c == '\'': // text literal, '' stands for a quote
			j := i + 1
			for ; j < len(rs); j++ {
				if rs[j] == '\'' {
					if j+1 < len(rs) && rs[j+1] == '\'' {
						j++
						continue
					}
					break
				}
			}
			if j >= len(rs) {
				return nil, fmt.Errorf("unterminated text at %q", string(rs[i:]))
			}
			out = append(out, Tok{"str", string(rs[i : j+1])})
			i = j + 1
		case strings.IndexByte("(),=*", c) >= 0:
			out = append(out, Tok{"op", string(c)})
			i++
		case c == '<' || c == '>' || c == '!':
			j := i + 1
			if j < len(rs) && (rs[j] == '=' || c == '<' && rs[j] == '>') {
				j++
			}
			if s := string(rs[i:j]); s == "!" {
				return nil, fmt.Errorf("unexpected character at %q", string(rs[i:]))
			}
			out = append(out, Tok{"op", string(rs[i:j])})
			i = j
		default:
			return nil, fmt.Errorf("unexpected character at %q", string(rs[i:]))
		}
	}
	return out, nil
}

// Normalize returns the token texts joined with single spaces; numbered placeholders become "?" when anon is set.
// letter tells whether c belongs to names; so does every byte beyond ASCII.
func letter(c byte) bool { return c >= 0x80 || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' }

func digit(c byte) bool { return '0' <= c && c <= '9' }

func Normalize(sql string, anon bool) (string, error) {
	toks, err := Tokens(sql)
	if err != nil {
		return "", err
	}
	parts := make([]string, len(toks))
	for i, t := range toks {
		parts[i] = t.S
		if anon && t.T == "ph" {
			parts[i] = "?"
		}
	}
	return strings.Join(parts, " "), nil
}

// Table is a table in FROM or JOIN.
type Table struct{ Name, Alias string }

// Item is a selected field.
type Item struct{ Ref, Alias string }

// Join is one join.
type Join struct {
	Type        string // INNER, LEFT, RIGHT, FULL
	Table       Table
	Left, Right string
}

// Term is an ordering term.
type Term struct{ Ref, Dir string }

// Num is a number in OFFSET or LIMIT.
type Num struct {
	Set     bool
	Literal bool
	N       uint64
}

// Assign is a column with its bound value.
type Assign struct {
	Col string
	Val any
}

// Stmt is a parsed statement.
type Stmt struct {
	Kind   string // SELECT, COUNT, INSERT, UPDATE, DELETE
	Items  []Item
	Count  string
	Table  Table
	Joins  []Join
	Set    []Assign
	Where  *Expr
	Order  []Term
	Offset Num
	Limit  Num
	// Placeholders in order of appearance (all zero in question mark style).
	Placeholders []int
}

// ParamError reports a placeholder that has no parameter, or a parameter that has no placeholder.
type ParamError struct{ Msg string }

func (e *ParamError) Error() string { return e.Msg }

type parser struct {
	toks   []Tok
	pos    int
	params []any
	start  int
	anon   bool
	ph     []int
	sql    string
}

type bail struct{ err error }

func (p *parser) fail(f string, a ...any) {
	panic(bail{fmt.Errorf("%s (near token %d of %q)", fmt.Sprintf(f, a...), p.pos, p.sql)})
}

func newParser(sql string, params []any, start int, anon bool) (*parser, error) {
	toks, err := Tokens(sql)
	if err != nil {
		return nil, fmt.Errorf("%w in %q", err, sql)
	}
	return &parser{toks: toks, params: params, start: start, anon: anon, sql: sql}, nil
}

func (p *parser) peek() Tok {
	if p.pos < len(p.toks) {
		return p.toks[p.pos]
	}
	return Tok{}
}

func (p *parser) next() Tok {
	t := p.peek()
	if t.T == "" {
		p.fail("unexpected end")
	}
	p.pos++
	return t
}

func (p *parser) isKw(kw string) bool {
	t := p.peek()
	return t.T == "id" && strings.EqualFold(t.S, kw)
}

func (p *parser) kw(kw string) bool {
	if p.isKw(kw) {
		p.pos++
		return true
	}
	return false
}

func (p *parser) needKw(kw string) {
	if !p.kw(kw) {
		p.fail("expected %s", kw)
	}
}

func (p *parser) op(s string) bool {
	if t := p.peek(); t.T == "op" && t.S == s {
		p.pos++
		return true
	}
	return false
}

func (p *parser) needOp(s string) {
	if !p.op(s) {
		p.fail("expected %q", s)
	}
}

var reserved = map[string]bool{"SELECT": true, "FROM": true, "WHERE": true, "AND": true, "OR": true, "NOT": true, "AS": true,
	"ON": true, "JOIN": true, "INNER": true, "LEFT": true, "RIGHT": true, "FULL": true, "OUTER": true, "ORDER": true, "BY": true, "OFFSET": true, "LIMIT": true,
	"IN": true, "IS": true, "NULL": true, "LIKE": true, "ILIKE": true, "BETWEEN": true, "ASC": true, "DESC": true, "SET": true,
	"VALUES": true, "INTO": true, "INSERT": true, "UPDATE": true, "DELETE": true}

func (p *parser) ident(what string) string {
	t := p.next()
	if t.T != "id" || reserved[strings.ToUpper(t.S)] {
		p.pos--
		p.fail("expected %s", what)
	}
	return t.S
}

// placeholder consumes a placeholder and returns its parameter.
func (p *parser) placeholder() any {
	t := p.next()
	if t.T != "ph" {
		p.pos--
		p.fail("expected placeholder")
	}
	idx := len(p.ph)
	n := 0
	if (t.S == "?") != p.anon {
		p.fail("placeholder %s of the wrong style", t.S)
	}
	if !p.anon {
		var err error
		if n, err = strconv.Atoi(t.S[1:]); err != nil {
			p.fail("bad placeholder")
		}
		idx = n - p.start - 1
	}
	p.ph = append(p.ph, n)
	if idx < 0 || idx >= len(p.params) {
		panic(bail{&ParamError{fmt.Sprintf("placeholder %s has no parameter among %d (counting from %d) in %q", t.S, len(p.params), p.start, p.sql)}})
	}
	return p.params[idx]
}

func (p *parser) or() *Expr {
	kids := []*Expr{p.and()}
	for p.kw("OR") {
		kids = append(kids, p.and())
	}
	return Or(kids...)
}

func (p *parser) and() *Expr {
	kids := []*Expr{p.not()}
	for p.kw("AND") {
		kids = append(kids, p.not())
	}
	return And(kids...)
}

func (p *parser) not() *Expr {
	if p.kw("NOT") {
		return Not(p.not())
	}
	if p.op("(") {
		e := p.or()
		p.needOp(")")
		return e
	}
	if t := p.peek(); t.T == "num" { // 1=0, 1=1, 1<>1
		a := p.next().S
		op := p.next().S
		b := p.next()
		if b.T != "num" {
			p.fail("expected number")
		}
		switch op {
		case "=":
			return Const(a == b.S)
		case "<>", "!=":
			return Const(a != b.S)
		}
		p.fail("unexpected comparison of numbers")
	}
	if p.kw("TRUE") {
		return Const(true)
	}
	if p.kw("FALSE") {
		return Const(false)
	}
	ref := p.ident("field")
	if p.op("(") { // function style condition: name(arg, ...)
		var keys []string
		for !p.op(")") {
			if len(keys) > 0 {
				p.needOp(",")
			}
			if p.peek().T == "ph" {
				keys = append(keys, ValueKey(p.placeholder()))
			} else if p.peek().T == "str" {
				keys = append(keys, "text:"+p.next().S)
			} else {
				keys = append(keys, "ref:"+p.ident("argument"))
			}
		}
		return cmpKeys(ref, "()", keys)
	}
	if p.kw("IS") {
		neg := p.kw("NOT")
		p.needKw("NULL")
		e := Cmp(ref, "IS NULL")
		if neg {
			e = Not(e)
		}
		return e
	}
	neg := p.kw("NOT")
	wrap := func(e *Expr) *Expr {
		if neg {
			return Not(e)
		}
		return e
	}
	switch {
	case p.kw("LIKE"):
		return wrap(Cmp(ref, "LIKE", p.placeholder()))
	case p.kw("ILIKE"):
		return wrap(Cmp(ref, "ILIKE", p.placeholder()))
	case p.kw("BETWEEN"):
		lo := p.placeholder()
		p.needKw("AND")
		return wrap(Cmp(ref, "BETWEEN", lo, p.placeholder()))
	case p.kw("IN"):
		p.needOp("(")
		vals := []any{p.placeholder()}
		for p.op(",") {
			vals = append(vals, p.placeholder())
		}
		p.needOp(")")
		return wrap(Cmp(ref, "IN", vals...))
	}
	if neg {
		p.fail("unexpected NOT")
	}
	op := p.next()
	switch op.S {
	case "=", "<", ">", "<=", ">=", "<>", "!=":
		return Cmp(ref, op.S, p.placeholder())
	}
	p.pos--
	p.fail("expected comparison")
	return nil
}

func catch(err *error) {
	if r := recover(); r != nil {
		b, ok := r.(bail)
		if !ok {
			panic(r)
		}
		*err = b.err
	}
}

// finish checks that everything was consumed and every parameter used.
func (p *parser) finish() {
	if p.pos != len(p.toks) {
		p.fail("unexpected %q", p.peek().S)
	}
	if len(p.ph) != len(p.params) {
		panic(bail{&ParamError{fmt.Sprintf("%d placeholders but %d parameters in %q", len(p.ph), len(p.params), p.sql)}})
	}
}

// Consecutive checks that numbered placeholders are start+1, start+2, ... in order of appearance.
func Consecutive(ph []int, start int) error {
	for i, n := range ph {
		if n != start+i+1 {
			return fmt.Errorf("placeholders are %v, expected consecutive numbers from %d", ph, start+1)
		}
	}
	return nil
}

// ParseCond parses a rendered condition. Empty text gives nil.
func ParseCond(sql string, params []any, start int, anon bool) (e *Expr, ph []int, err error) {
	p, err := newParser(sql, params, start, anon)
	if err != nil {
		return nil, nil, err
	}
	defer catch(&err)
	if len(p.toks) > 0 {
		e = p.or()
	}
	p.finish()
	return e, p.ph, nil
}

func (p *parser) table() Table {
	t := Table{Name: p.ident("table")}
	if p.kw("AS") {
		t.Alias = p.ident("table alias")
	} else if n := p.peek(); n.T == "id" && !reserved[strings.ToUpper(n.S)] {
		t.Alias = p.ident("table alias")
	}
	return t
}

func (p *parser) from(s *Stmt) {
	s.Table = p.table()
	for {
		j := Join{Type: "INNER"}
		switch {
		case p.kw("INNER"):
		case p.kw("LEFT"):
			j.Type = "LEFT"
			p.kw("OUTER")
		case p.kw("RIGHT"):
			j.Type = "RIGHT"
			p.kw("OUTER")
		case p.kw("FULL"):
			j.Type = "FULL"
			p.kw("OUTER")
		default:
			if !p.isKw("JOIN") {
				return
			}
		}
		p.needKw("JOIN")
		j.Table = p.table()
		p.needKw("ON")
		j.Left = p.ident("join field")
		p.needOp("=")
		j.Right = p.ident("join field")
		s.Joins = append(s.Joins, j)
	}
}

func (p *parser) where(s *Stmt) {
	if p.kw("WHERE") {
		s.Where = p.or()
	}
}

func (p *parser) num() Num {
	if t := p.peek(); t.T == "num" {
		p.pos++
		n, err := strconv.ParseUint(t.S, 10, 64)
		if err != nil {
			p.fail("bad number")
		}
		return Num{true, true, n}
	}
	switch v := p.placeholder().(type) {
	case uint:
		return Num{true, false, uint64(v)}
	case int:
		if v >= 0 {
			return Num{true, false, uint64(v)}
		}
	case int64:
		if v >= 0 {
			return Num{true, false, uint64(v)}
		}
	case uint64:
		return Num{true, false, v}
	}
	p.fail("number parameter expected")
	return Num{}
}

func (p *parser) selectStmt() *Stmt {
	s := &Stmt{Kind: "SELECT"}
	if p.isKw("COUNT") && p.pos+1 < len(p.toks) && p.toks[p.pos+1].S == "(" {
		s.Kind = "COUNT"
		p.pos += 2
		if p.op("*") {
			s.Count = "*"
		} else {
			s.Count = p.ident("field to count")
		}
		p.needOp(")")
	} else {
		for {
			it := Item{}
			if p.op("*") {
				it.Ref = "*"
			} else {
				it.Ref = p.ident("field")
			}
			if p.kw("AS") {
				it.Alias = p.ident("alias")
			}
			s.Items = append(s.Items, it)
			if !p.op(",") {
				break
			}
		}
	}
	p.needKw("FROM")
	p.from(s)
	p.where(s)
	if p.kw("ORDER") {
		p.needKw("BY")
		for {
			t := Term{Ref: p.ident("ordering field"), Dir: "ASC"}
			if p.kw("DESC") {
				t.Dir = "DESC"
			} else {
				p.kw("ASC")
			}
			s.Order = append(s.Order, t)
			if !p.op(",") {
				break
			}
		}
	}
	for {
		switch {
		case !s.Offset.Set && p.kw("OFFSET"):
			s.Offset = p.num()
			continue
		case !s.Limit.Set && p.kw("LIMIT"):
			s.Limit = p.num()
			continue
		}
		return s
	}
}

// ParseStmt parses a whole statement.
func ParseStmt(sql string, params []any, start int, anon bool) (s *Stmt, err error) {
	p, err := newParser(sql, params, start, anon)
	if err != nil {
		return nil, err
	}
	defer catch(&err)
	switch {
	case p.kw("SELECT"):
		s = p.selectStmt()
	case p.kw("INSERT"):
		p.needKw("INTO")
		s = &Stmt{Kind: "INSERT", Table: Table{Name: p.ident("table")}}
		p.needOp("(")
		cols := []string{p.ident("column")}
		for p.op(",") {
			cols = append(cols, p.ident("column"))
		}
		p.needOp(")")
		p.needKw("VALUES")
		p.needOp("(")
		for i, c := range cols {
			if i > 0 {
				p.needOp(",")
			}
			s.Set = append(s.Set, Assign{c, p.placeholder()})
		}
		p.needOp(")")
	case p.kw("UPDATE"):
		s = &Stmt{Kind: "UPDATE", Table: Table{Name: p.ident("table")}}
		p.needKw("SET")
		for {
			c := p.ident("column")
			p.needOp("=")
			s.Set = append(s.Set, Assign{c, p.placeholder()})
			if !p.op(",") {
				break
			}
		}
		p.where(s)
	case p.kw("DELETE"):
		p.needKw("FROM")
		s = &Stmt{Kind: "DELETE", Table: Table{Name: p.ident("table")}}
		p.where(s)
	default:
		p.fail("expected a statement")
	}
	p.finish()
	s.Placeholders = p.ph
	return s, nil
}

// ParseFrom parses the contents of a FROM clause.
func ParseFrom(sql string) (t Table, joins []Join, err error) {
	p, err := newParser(sql, nil, 0, false)
	if err != nil {
		return Table{}, nil, err
	}
	defer catch(&err)
	s := &Stmt{}
	p.from(s)
	p.finish()
	return s.Table, s.Joins, nil
}
