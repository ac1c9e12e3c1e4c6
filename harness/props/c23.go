package props

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
)

// mapRepeats is how often one map is converted: Go starts iterating at a random one of its eight slots.
const mapRepeats = 96

func checkMap(c *mc.Ctx, keys []string, vals []any, want []any, repeats int) {
	m := query.ValuesMap{}
	bad := false
	expect := map[string]any{}
	for i, k := range keys { // inserted in this order
		m[k] = vals[i]
		expect[k] = want[i]
		if query.FieldName(k).Validate() != nil {
			bad = true
		}
	}
	c.Op("ValuesMap of %q", keys)
	orders := map[string]bool{}
	for i := 0; i < repeats; i++ {
		vs, err := m.FieldValues()
		c.Count(1)
		if bad {
			if err == nil || !errors.Is(err, query.Error) || len(vs) > 0 {
				c.Failf("keys %q: %d values and error %v, expected an error wrapping query.Error only", keys, len(vs), err)
			}
			continue
		}
		if err != nil {
			c.Failf("keys %q: %v", keys, err)
		}
		if len(vs) != len(expect) {
			c.Failf("keys %q: %d values", keys, len(vs))
		}
		seen := map[string]bool{}
		var order []string
		for _, v := range vs {
			k := string(v.FieldName())
			if v.TableName() != "" {
				k = string(v.TableName()) + "." + k
			}
			w, ok := expect[k]
			if !ok || seen[k] || v.Alias() != "" {
				c.Failf("keys %q: a value of the field %q as %q", keys, k, v.Alias())
			}
			seen[k] = true
			order = append(order, k)
			if !model.SameAll(v.Values(), []any{w}) {
				c.Failf("keys %q: the value of %q is %#v, expected %#v", keys, k, v.Values(), w)
			}
		}
		orders[strings.Join(order, "|")] = true
		if len(vs) > 0 && i == 0 { // each column with its own value in a statement
			st := build(c, "insert", query.InsertInto("t").Values(vs...))
			if len(st.Set) != len(vs) {
				c.Failf("keys %q: inserted %v", keys, st.Set)
			}
			for j, a := range st.Set { // columns are written without their tables
				k := string(vs[j].FieldName())
				if t := string(vs[j].TableName()); t != "" {
					k = t + "." + k
				}
				if a.Col != string(vs[j].FieldName()) || !model.Same(a.Val, expect[k]) {
					c.Failf("keys %q: column %d is %s given %#v, expected that of %q", keys, j+1, a.Col, a.Val, k)
				}
			}
		}
	}
	if len(m) != len(expect) {
		c.Failf("keys %q: the map has %d keys after", keys, len(m))
	}
	for k := range expect {
		if _, ok := m[k]; !ok {
			c.Failf("keys %q: the map lost %q", keys, k)
		}
	}
	switch {
	case bad:
		c.Tag("invalid key")
	case len(orders) >= len(expect) || len(expect) < 2:
		c.Tag("all rotations seen")
	case len(orders) == 1:
		c.Tag("one order")
	default:
		c.Tag("some rotations seen")
	}
	sort.Strings(keys)
	c.State(fmt.Sprint(keys))
}

var mapKeys = []string{"a", "A", "t.b", "ab", "_", "日", "", "a b", ".x", "x.", "it's", "a.b.c", "a\t"}

var mapVals = []any{1, "x", nil, false, model.VInt(7), []byte("z"), 2.5, ""}
var mapWant = []any{1, "x", nil, false, int64(70), []byte("z"), 2.5, ""}

func init() {
	mc.Register(&mc.Property{
		ID:          "C23",
		Assumptions: []string{"the order of the values is not specified", "Go iterates a map of up to eight keys from a random slot: every insertion order is enumerated and each map converted 96 times, all rotations being observed in nearly all"},
		Families: []mc.Family{
			{Name: "maps", Quick: []int{0, 1, 2, 3, 4, 5}, Thorough: []int{0, 1, 2, 3, 4, 5},
				Doc: "every sequence of <bound> different keys (insertion order) out of six valid and seven invalid ones, values of eight kinds rotating in two ways",
				Body: func(c *mc.Ctx) {
					var keys []string
					left := append([]string{}, mapKeys...)
					for i := 0; i < c.Bound; i++ {
						k := c.Choose(len(left))
						keys = append(keys, left[k])
						left = append(left[:k:k], left[k+1:]...)
					}
					shift := c.Choose(2) * 3
					var vs, ws []any
					for i := range keys {
						vs, ws = append(vs, mapVals[(i+shift)%8]), append(ws, mapWant[(i+shift)%8])
					}
					checkMap(c, keys, vs, ws, mapRepeats)
				}},
			{Name: "one-bad-key", Quick: []int{20}, Thorough: []int{60},
				Doc: "maps of every size up to <bound> of valid keys, with no invalid key or one of seven inserted first, in the middle or last",
				Body: func(c *mc.Ctx) {
					n := c.Choose(c.Bound + 1)
					bad := c.Choose(8)
					at := 0
					if bad > 0 {
						at = pick(c, 0, n/2, n)
					}
					var keys []string
					var vs []any
					for i := 0; i <= n; i++ {
						if bad > 0 && i == at {
							keys, vs = append(keys, mapKeys[5+bad]), append(vs, "bad")
						}
						if i < n {
							keys, vs = append(keys, fmt.Sprintf("k%d", i)), append(vs, i)
						}
					}
					checkMap(c, keys, vs, vs, mapRepeats)
				}},
			{Name: "every-value", Quick: []int{0}, Thorough: []int{0},
				Doc: "each value of the alphabets of single values and lists alone and between two others; a list as FieldName.Value takes it",
				Body: func(c *mc.Ctx) {
					if c.Bool() { // lists, as any field value takes them
						v := model.Lists[c.Choose(len(model.Lists))]
						m, keys := query.ValuesMap{"p": v.V}, 1
						if c.Bool() {
							m["q"], m["r"], keys = 1, v.V, 3
						}
						vs, err := m.FieldValues()
						c.Op("ValuesMap of %s, %d keys", v.Name, keys)
						c.Count(1)
						if err != nil || len(vs) != keys {
							c.Failf("%d values and error %v for %d keys", len(vs), err, keys)
						}
						seen := map[query.FieldName]bool{}
						for _, x := range vs {
							k := x.FieldName()
							w, ok := m[string(k)]
							if !ok || seen[k] {
								c.Failf("a value of the field %q", k)
							}
							seen[k] = true
							if got, want := x.Values(), k.Value(w).Values(); !model.SameAll(got, want) {
								c.Failf("the value of %q is %s, expected %s", k, model.Show(got), model.Show(want))
							}
						}
						c.State("list", v.Name)
						return
					}
					v := model.Singles[c.Choose(len(model.Singles))]
					if v.Fails || v.Single == nil {
						c.Skip()
					}
					if c.Bool() {
						checkMap(c, []string{"p", "q", "r"}, []any{1, v.V, 2}, []any{1, v.Single[0], 2}, 4)
					} else {
						checkMap(c, []string{"p"}, []any{v.V}, v.Single, 2)
					}
				}},
		},
	})
}
