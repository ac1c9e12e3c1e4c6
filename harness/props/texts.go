package props

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/amarin/query"

	"verif/harness/mc"
	"verif/harness/model"
)

// Values that a careless conversion would change.

// strange are texts with something to normalise, trim, fold, unescape, cut or take for something else.
func strange() []string {
	out := []string{"\r\n", "a\r\n", "\r", "\n", "\ufeffa", "\u2028", "\u00a0", "\u00a0a\u00a0", "\t", "\v\f", "a\x00", "\x00", "\x1b[0m", "\x7f", "\\N", "\\n", "\\x41", "\\u0041", "\\'", "''", "\"\"", "`a`", "E'a'", "NULL", "null", "nil", "<nil>", "NaN", "Inf", "-Infinity", "true", "t", "f", "false", "+1", "-0", "0x1", "1e3", "1_000", "1,5", ".5", " 1", "007", "\u0661",
		"2024-02-29", "2024-02-29T00:00:00Z", "0001-01-01 00:00:00", "infinity", "now()", "CURRENT_TIMESTAMP", "DEFAULT", "$1", "?", "??", "$$a$$", ":a", "@a", "%s", "%!s(int=1)", "{}", "[]", "{1,2}", "(1)", "[1,2]", "{\"a\":1}", "a,b", "a;b", "--", "/*", "*", "**", "%", "%%", "%a%", "_", "\\%", "a%\\", "&amp;", "&#39;", "%27", "+", "a+b", "=?UTF-8?Q?a?=",
		"\xed\xa0\x80", "\xff\xff", "a\xc3", "\xf4\x90\x80\x80", strings.Repeat(" ", 300), strings.Repeat("\\", 31), strings.Repeat("'", 30), "t.a", "t.a as b", "SELECT 1", "AND", "a OR b", "IS NULL"}
	for _, p := range alike {
		out = append(out, p[0], p[1])
	}
	return out
}

// numerals are numbers of every type, at the places where types, digits and exactness end.
func numerals() []any {
	var out []any
	ints := []int64{0, 1, -1, 2, 7, 9, 10, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 16777215, 16777216, 16777217, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, 1 << 53, 1<<53 + 1, -(1<<53 + 1), 999999999999999999, math.MaxInt64, math.MinInt64, math.MinInt64 + 1}
	for _, i := range ints {
		for _, t := range []any{int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), uintptr(0), model.Color(0), time.Duration(0), float32(0), float64(0), model.Ratio(0), query.Operation(0)} {
			v := reflect.ValueOf(i).Convert(reflect.TypeOf(t))
			out = append(out, v.Interface())
		}
	}
	out = append(out, uint64(math.MaxUint64), uint64(math.MaxInt64)+1, uint(math.MaxUint))
	for _, f := range []float64{math.NaN(), math.Float64frombits(0x7ff8000000000002), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 0.1, 1e21, 1e-7, 123456789.123456789, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.Pi, 1.0000000000000002, 1e15 + 0.5} {
		out = append(out, f, float32(f), model.Ratio(f), complex(f, 1), complex64(complex(1, f)))
	}
	return out
}

// sameBits compares numbers bit by bit.
func sameBits(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if !va.IsValid() || !vb.IsValid() || va.Type() != vb.Type() {
		return false
	}
	if va.Kind() == reflect.Complex64 || va.Kind() == reflect.Complex128 {
		x, y := va.Complex(), vb.Complex()
		return math.Float64bits(real(x)) == math.Float64bits(real(y)) && math.Float64bits(imag(x)) == math.Float64bits(imag(y))
	}
	return model.Same(a, b)
}

func init() {
	texts, numbers := strange(), numerals()
	type holder struct{ S string }
	mc.Extend("C10", mc.Family{Name: "strange", Quick: []int{0}, Thorough: []int{0},
		Doc: fmt.Sprintf("%d texts with something to normalise, trim, fold, unescape or take for something else, as text, named text, bytes, pointer, struct, given by a Valuer and by a provider, and %d numbers of every type at the places where types, digits and exactness end, as themselves, by pointer and given by a Valuer, through each of %d ways into a statement; in lists (three types of slices, an array) through In in six ways; texts through the LIKE conditions: passed bit by bit", len(texts), len(numbers), len(makers)),
		Body: func(c *mc.Ctx) {
			var v, want any
			name := ""
			if c.Bool() {
				s := texts[c.Choose(len(texts))]
				kind := c.Choose(8)
				name = fmt.Sprintf("%q of kind %d", s, kind)
				v, want = s, s
				switch kind {
				case 1:
					v = model.Word(s)
					want = v
				case 2:
					v, want = []byte(s), []byte(s)
				case 3:
					v = &s
					want = v
				case 4:
					v, want = holder{s}, holder{s}
				case 5:
					v, want = model.Gives{V: s}, s
				case 6:
					v, want = model.Provides{V: s}, s
				case 7:
					for i, x := range []query.Condition{query.Contains("f", s), query.IContains("f", s), query.FieldName("f").Contains(s), query.Not(query.FieldName("f").IContains(s))} {
						if got := x.Values(); !model.SameAll(got, []any{"%" + s + "%"}) {
							c.Failf("Contains form %d of %q: values %q", i, s, got)
						}
					}
					for i, l := range []any{[]string{"a", s, s}, []any{"a", s, s}, [3]string{"a", s, s}} {
						for _, m := range inMakers {
							checkParams(c, fmt.Sprintf("%s of list %d with %q", m.name, i, s), m.f, l, []any{"a", s, s}, false)
						}
					}
					w, b := model.Word(s), []byte(s)
					for _, m := range inMakers {
						checkParams(c, fmt.Sprintf("%s of words with %q", m.name, s), m.f, []model.Word{w, "a"}, []any{w, model.Word("a")}, false)
						checkParams(c, fmt.Sprintf("%s of bytes with %q", m.name, s), m.f, [][]byte{[]byte("a"), b}, []any{[]byte("a"), b}, false)
					}
					c.State(name)
					return
				}
			} else {
				x := numbers[c.Choose(len(numbers))]
				kind := c.Choose(4)
				name = fmt.Sprintf("%T %v of kind %d", x, x, kind)
				v, want = x, x
				switch kind {
				case 1:
					p := reflect.New(reflect.TypeOf(x))
					p.Elem().Set(reflect.ValueOf(x))
					v = p.Interface()
					want = v
				case 2:
					v = model.Gives{V: x}
				case 3:
					if reflect.TypeOf(x).Kind() == reflect.Uint8 {
						c.Skip()
					}
					l := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(x)), 2, 2)
					l.Index(0).Set(reflect.ValueOf(x))
					l.Index(1).Set(reflect.ValueOf(x))
					for _, m := range inMakers {
						for _, list := range []any{l.Interface(), []any{x, x}} {
							ps, err := m.f(list)
							if err != nil || len(ps) != 2 || !sameBits(ps[0], x) || !sameBits(ps[1], x) {
								c.Failf("%s of %T with %s: passed as %s", m.name, list, name, model.Show(ps))
							}
						}
					}
					c.State(name)
					return
				}
			}
			for _, m := range makers {
				ps, err := m.f(v)
				c.Count(1)
				if err != nil || len(ps) != 1 {
					c.Failf("%s of %s: passed as %s, %v", m.name, name, model.Show(ps), err)
				}
				if !sameBits(ps[0], want) && !model.Same(ps[0], want) {
					c.Failf("%s of %s: passed as %s, expected %s", m.name, name, model.Show(ps), model.Show([]any{want}))
				}
			}
			c.State(name)
		}})
}
