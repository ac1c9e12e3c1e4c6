// Package sqlx is an independent reader of the SQL the library renders: a tokenizer, a parser for the
// statements and boolean expressions it may produce, and an exhaustive three-valued equivalence test.
// It knows SQL, not the library: nothing here is derived from how the library builds its strings.
package sqlx

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
)

// Kind of expression node.
type Kind int

const (
	KConst Kind = iota
	KAtom
	KNot
	KAnd
	KOr
)

// Expr is a boolean expression over opaque atoms.
type Expr struct {
	Kind Kind
	Val  bool    // KConst
	Atom string  // KAtom: canonical text of a comparison, bound values included
	Two  bool    // KAtom: never unknown (IS NULL)
	Kids []*Expr // KNot: one, KAnd/KOr: any number
}

func Const(v bool) *Expr { return &Expr{Kind: KConst, Val: v} }
func Not(e *Expr) *Expr  { return &Expr{Kind: KNot, Kids: []*Expr{e}} }
func And(k ...*Expr) *Expr {
	if len(k) == 1 {
		return k[0]
	}
	return &Expr{Kind: KAnd, Kids: k}
}
func Or(k ...*Expr) *Expr {
	if len(k) == 1 {
		return k[0]
	}
	return &Expr{Kind: KOr, Kids: k}
}

// ValueKey is a text identifying a parameter: type and content.
func ValueKey(v any) string {
	switch t := v.(type) {
	case nil:
		return "nil"
	case int:
		return fmt.Sprintf("int:%d", t)
	case string:
		return "string:" + t
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Pointer {
		return fmt.Sprintf("%T:%p", v, v)
	}
	return fmt.Sprintf("%T:%#v", v, v)
}

// Cmp makes the canonical expression of a comparison of ref with values.
func Cmp(ref, op string, vals ...any) *Expr {
	keys := make([]string, len(vals))
	for i, v := range vals {
		keys[i] = ValueKey(v)
	}
	return cmpKeys(ref, op, keys)
}

func cmpKeys(ref, op string, keys []string) *Expr {
	atom := func(op string, two bool, keys ...string) *Expr {
		return &Expr{Kind: KAtom, Two: two, Atom: ref + " " + op + " " + strings.Join(keys, " , ")}
	}
	switch op {
	case "=", "<", ">", "LIKE", "ILIKE":
		return atom(op, false, keys...)
	case "<>", "!=":
		return Not(atom("=", false, keys...))
	case "<=":
		return Not(atom(">", false, keys...)) // the same under three-valued logic
	case ">=":
		return Not(atom("<", false, keys...))
	case "IS NULL":
		return atom(op, true)
	case "IN":
		switch len(keys) {
		case 0:
			return Const(false)
		case 1:
			return atom("=", false, keys...)
		}
		keys = append([]string{}, keys...)
		sort.Strings(keys)
		return atom("IN", false, keys...)
	}
	return atom(op, false, keys...)
}

// Key is a canonical text of the expression: associativity flattened, double negations removed, order kept.
func (e *Expr) Key() string {
	var sb strings.Builder
	e.key(&sb)
	return sb.String()
}

func (e *Expr) key(sb *strings.Builder) {
	switch e.Kind {
	case KConst:
		if e.Val {
			sb.WriteString("TRUE")
		} else {
			sb.WriteString("FALSE")
		}
	case KAtom:
		sb.WriteString("<")
		sb.WriteString(e.Atom)
		sb.WriteString(">")
	case KNot:
		k := e.Kids[0]
		if k.Kind == KNot {
			k.Kids[0].key(sb)
			return
		}
		sb.WriteString("!(")
		k.key(sb)
		sb.WriteString(")")
	default:
		sb.WriteString("(")
		first := true
		e.flat(e.Kind, sb, &first)
		sb.WriteString(")")
	}
}

func strip(e *Expr) *Expr {
	for {
		switch {
		case e.Kind == KNot && e.Kids[0].Kind == KNot:
			e = e.Kids[0].Kids[0]
		case (e.Kind == KAnd || e.Kind == KOr) && len(e.Kids) == 1:
			e = e.Kids[0]
		default:
			return e
		}
	}
}

func (e *Expr) flat(kind Kind, sb *strings.Builder, first *bool) {
	for _, k := range e.Kids {
		k = strip(k)
		if k.Kind == kind {
			k.flat(kind, sb, first)
			continue
		}
		if !*first {
			if kind == KAnd {
				sb.WriteString(" & ")
			} else {
				sb.WriteString(" | ")
			}
		}
		*first = false
		k.key(sb)
	}
}

func (e *Expr) String() string {
	if e == nil {
		return "(no filter)"
	}
	return e.Key()
}

// vec is the pair of bit sets (assignments where true, assignments where false).
type vec struct{ t, f []uint64 }

func (e *Expr) atoms(m map[string]*Expr, order *[]string) {
	if e.Kind == KAtom {
		if _, ok := m[e.Atom]; !ok {
			m[e.Atom] = e
			*order = append(*order, e.Atom)
		}
	}
	for _, k := range e.Kids {
		k.atoms(m, order)
	}
}

func (e *Expr) eval(av map[string]vec, full []uint64) vec {
	n := len(full)
	switch e.Kind {
	case KConst:
		z := make([]uint64, n)
		if e.Val {
			return vec{full, z}
		}
		return vec{z, full}
	case KAtom:
		return av[e.Atom]
	case KNot:
		v := e.Kids[0].eval(av, full)
		return vec{v.f, v.t}
	}
	r := vec{make([]uint64, n), make([]uint64, n)}
	if e.Kind == KAnd {
		copy(r.t, full)
		for _, k := range e.Kids {
			v := k.eval(av, full)
			for i := range full {
				r.t[i] &= v.t[i]
				r.f[i] |= v.f[i]
			}
		}
		return r
	}
	copy(r.f, full)
	for _, k := range e.Kids {
		v := k.eval(av, full)
		for i := range full {
			r.t[i] |= v.t[i]
			r.f[i] &= v.f[i]
		}
	}
	return r
}

// maxTable is the number of distinct atoms up to which all assignments are tabulated; above, decision diagrams are compared.
const maxTable = 7

// Equiv compares two expressions (nil: no filter, i.e. true) over every assignment of true, false and
// unknown to their atoms. On difference it returns a witness.
func Equiv(a, b *Expr) (bool, string) {
	if a == nil {
		a = Const(true)
	}
	if b == nil {
		b = Const(true)
	}
	if a.Key() == b.Key() {
		return true, ""
	}
	m := map[string]*Expr{}
	var order []string
	a.atoms(m, &order)
	b.atoms(m, &order)
	if len(order) > maxTable {
		return equivDiagram(a, b, order)
	}
	base := make([]int, len(order))
	total := 1
	for i, k := range order {
		base[i] = 3
		if m[k].Two {
			base[i] = 2
		}
		total *= base[i]
	}
	words := (total + 63) / 64
	full := make([]uint64, words)
	for i := 0; i < total; i++ {
		full[i/64] |= 1 << (i % 64)
	}
	av := map[string]vec{}
	stride := 1
	for i, k := range order {
		v := vec{make([]uint64, words), make([]uint64, words)}
		for x := 0; x < total; x++ {
			switch (x / stride) % base[i] {
			case 0:
				v.t[x/64] |= 1 << (x % 64)
			case 1:
				v.f[x/64] |= 1 << (x % 64)
			}
		}
		stride *= base[i]
		av[k] = v
	}
	va, vb := a.eval(av, full), b.eval(av, full)
	for i := range full {
		if d := (va.t[i] ^ vb.t[i]) | (va.f[i] ^ vb.f[i]); d != 0 {
			x := i * 64
			for d&1 == 0 {
				d >>= 1
				x++
			}
			var w []string
			stride = 1
			for j, k := range order {
				w = append(w, k+" is "+[]string{"true", "false", "unknown"}[(x/stride)%base[j]])
				stride *= base[j]
			}
			val := func(v vec) string {
				switch {
				case v.t[x/64]>>(x%64)&1 == 1:
					return "true"
				case v.f[x/64]>>(x%64)&1 == 1:
					return "false"
				}
				return "unknown"
			}
			return false, fmt.Sprintf("when %s: first is %s, second is %s", strings.Join(w, ", "), val(va), val(vb))
		}
	}
	return true, ""
}
