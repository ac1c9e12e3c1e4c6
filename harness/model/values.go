package model

import (
	"bytes"
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"net"
	"net/netip"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/amarin/query"
)

// Types that convert themselves.
type (
	VInt   int                   // driver.Valuer by value
	VPtr   struct{ S string }    // driver.Valuer by pointer, accepts nil
	VErr   struct{ S string }    // driver.Valuer that fails
	VNil   struct{}              // driver.Valuer giving nil
	VSlice []int                 // a slice that is itself one driver.Valuer
	VUUID  [16]byte              // an array that is itself one driver.Valuer
	Prov   struct{ S string }    // query.ValueProvider by value
	PProv  struct{ N int }       // query.ValueProvider by pointer
	PSlice []string              // a slice that is itself one query.ValueProvider
	Color  int                   // named plain type
	IDs    []int                 // named list types
	Names  []string              //
	Pair   struct{ A, B int }    // plain struct
	Raw    []byte                // named bytes
	Arr3   [3]int                //
	VMap   map[string]string     // driver.Valuer over a map
	VFunc  func() (any, error)   // driver.Valuer over a function
	Stamp  struct{ T time.Time } // driver.Valuer giving a time
	Sayer  struct{ S string }    // fmt.Stringer, json.Marshaler and encoding.TextMarshaler, but not converting itself
	Box    struct{ In any }      // struct holding a list
)

// more of them
type (
	Flag   bool
	Ratio  float64
	Letter rune
	Word   string
	Outer  struct{ Pair }
	Holder struct{ VInt }
	VBytes struct{}
	VText  string
	Both   int             // converts itself in both ways
	VDeep  struct{ V any } // driver.Valuer giving something that is no driver.Value, and provider giving the same
)

func (VBytes) Value() (driver.Value, error)  { return []byte("converted"), nil }
func (VText) Value() (driver.Value, error)   { return "'", nil }
func (v Both) Value() (driver.Value, error)  { return int64(v), nil }
func (v Both) DatabaseValue() any            { return int64(v) }
func (v VDeep) Value() (driver.Value, error) { return v.V, nil }

// Deep gives what it holds.
type Deep struct{ V any }

func (d Deep) DatabaseValue() any { return d.V }

// Odd are values whose conversion is not specified: only where they must not appear is.
var Odd = []any{
	Both(3), Deep{VInt(1)}, Deep{Prov{"x"}}, Deep{[]int{1, 2}}, Deep{nil}, Deep{query.Field("a")}, Deep{"' OR $1"}, VDeep{VInt(2)}, VDeep{Prov{"y"}}, VDeep{[]string{"a", "b"}}, VDeep{nil}, VDeep{query.FieldName("b")},
	&struct{ *VPtr }{}, struct{ driver.Valuer }{VInt(1)}, struct{ driver.Valuer }{}, struct{ query.ValueProvider }{Prov{"z"}}, struct{ query.ValueProvider }{}, Deep{Deep{Deep{1}}}, (*Prov)(nil), (*PProv)(nil), &pInt, make(chan int), func() {}, error(nil), VFunc(func() (any, error) { panic("inside") }),
	[]Both{1, 2}, []Deep{{1}, {VInt(2)}, {[]int{1}}}, []VDeep{{1}, {[]int{1, 2}}}, [][]driver.Valuer{{VInt(1)}, {}}, []query.ValueProvider{nil}, []*PProv{nil}, []driver.Valuer{VErr{"x"}, VInt(1)}, []VErr{{"x"}}, []any{[]int{1, 2}, []any{}}, []any{nil, nil}, [0]int{}, [0]VInt{}, []chan int{nil}, &[]int{1, 2}, &[2]int{1, 2}, &[]string{}, &[]VInt{1},
}

func (v Sayer) String() string               { return "says " + v.S }
func (v Sayer) MarshalText() ([]byte, error) { return []byte(v.S), nil }
func (v Sayer) MarshalJSON() ([]byte, error) { return []byte("1"), nil }

var errPlain = errors.New("an error value")

func (v VInt) Value() (driver.Value, error) { return int64(v) * 10, nil }
func (v *VPtr) Value() (driver.Value, error) {
	if v == nil {
		return "nil pointer", nil
	}
	return "ptr:" + v.S, nil
}
func (v VErr) Value() (driver.Value, error)   { return "partial " + v.S, errors.New("cannot convert") }
func (v VNil) Value() (driver.Value, error)   { return nil, nil }
func (v VSlice) Value() (driver.Value, error) { return fmt.Sprint([]int(v)), nil }
func (v VUUID) Value() (driver.Value, error)  { return fmt.Sprintf("%x", [16]byte(v)), nil }
func (v Prov) DatabaseValue() any             { return "prov:" + v.S }
func (v *PProv) DatabaseValue() any           { return v.N + 500 }
func (v PSlice) DatabaseValue() any           { return fmt.Sprint([]string(v)) }
func (v VMap) Value() (driver.Value, error)   { return len(v), nil }
func (v VFunc) Value() (driver.Value, error)  { return v() }
func (v Stamp) Value() (driver.Value, error)  { return v.T, nil }

// Value is a value with what must reach the parameters.
type Value struct {
	Name   string
	V      any
	Single []any // as a single value; nil: not specified
	List   []any // as an In list
	NoIn   bool
	Fails  bool // Value() fails: the value itself or an error is acceptable, nothing else
}

func one(name string, v any) Value { return Value{Name: name, V: v, Single: []any{v}, List: []any{v}} }
func conv(name string, v, want any) Value {
	return Value{Name: name, V: v, Single: []any{want}, List: []any{want}}
}
func list(name string, v any, want ...any) Value {
	return Value{Name: name, V: v, List: append([]any{}, want...)}
}
func failing(name string, v any) Value {
	return Value{Name: name, V: v, Single: []any{v}, List: []any{v}, Fails: true}
}

var (
	aTime         = time.Date(2024, 2, 29, 23, 59, 59, 123456789, time.UTC)
	anInt         = 42
	zone          = time.FixedZone("elsewhere", 5*3600+1800)
	zTime         = time.Date(1999, 12, 31, 23, 59, 59, 999999999, zone)
	lTime         = time.Date(2031, 5, 6, 7, 8, 9, 10, time.Local)
	now           = time.Now() // with a monotonic clock reading
	anyInt    any = 7
	aStr          = ""
	tTrue         = true
	vi1           = VInt(1)
	nilVI     *VInt
	nilVP     *VPtr
	nilInt    *int
	pInt      = &anInt
	someBytes = []byte("sb")
	aField    = query.Field("t.a")
	aCond     = query.EqualTo("f", 1)
)

// Singles are the values used as one value.
var Singles = []Value{
	one("int", 5), one("zero", 0), one("neg", -1), one("empty", ""), one("string", "abc"), one("percent", "50%_\\"), one("quote", "O'Brien"), one("dollar", "$1"), one("question", "?"),
	one("unicode", "añ日\x00"), one("nil", nil), one("false", false), one("true", true), one("float", 1.5), one("inf", math.Inf(1)), one("int64", int64(math.MinInt64)), one("uint64", uint64(math.MaxUint64)),
	one("int8", int8(-128)), one("rune", 'x'), one("float32", float32(0.1)), one("bytes", []byte("ab")), one("bytes-empty", []byte{}), one("bytes-nil", []byte(nil)), one("raw", Raw("xy")), one("json", json.RawMessage(`{"a":1}`)),
	one("array16", [16]byte{1, 2}), one("time", aTime), one("time-zone", zTime), one("time-local", lTime), one("time-now", now), one("time-zero", time.Time{}), one("time-ptr", &zTime), one("duration", -time.Second), one("month", time.March),
	one("int16", int16(-300)), one("int32", int32(math.MaxInt32)), one("uint", uint(3)), one("uint8", uint8(200)), one("uint16", uint16(65535)), one("uint32", uint32(math.MaxUint32)), one("nan", math.Inf(-1)), one("min", math.SmallestNonzeroFloat64), one("negzero", math.Copysign(0, -1)),
	one("spaces", "  a b \t\n"), one("long", strings.Repeat("x'", 5000)), one("invalid-utf8", "a\xff\xfe"), one("number text", "007"), one("null text", "NULL"), one("named-bytes", json.RawMessage("null")), one("bytes-invalid", []byte{0xff, 0, 1}), one("any-ptr", &anyInt), one("struct-any", Box{[]int{1}}), one("error", errPlain), one("stringer", Sayer{"s"}), one("stringer-ptr", &Sayer{"p"}),
	one("field name", query.FieldName("a b")), one("map-nil", map[string]int(nil)), one("zero-struct", Pair{}), one("uintptr", uintptr(9)), one("struct", Pair{1, 2}), one("ptr", &anInt), one("ptr-str", &aStr), one("ptr-struct", &Pair{3, 4}), one("nil-ptr", nilInt), one("color", Color(3)), one("map", map[string]int{"a": 1}), one("complex", complex(1, 2)),
	one("field definition", query.Field("t.a as b")), one("field definition ptr", &aField), one("table name", query.TableName("t")), one("table ident", query.Table("t as u")), one("join type", query.LogicalOR), one("operation", query.DoDelete), one("direction", query.Descending), one("comparison", query.EqualTo("f", 1)),
	one("group", query.NewGroup(query.LogicalOR, query.EqualTo("f", 1), query.IsNull("g"))), one("select", query.SelectFrom("t").Where(query.EqualTo("f", 1))), one("single", query.SelectSingleFrom("t")), one("many", query.SelectManyFrom("t").Limit(1)), one("count", query.Count(query.SelectFrom("t"))), one("field value", query.FieldName("f").Value(7)),
	one("limiter", query.Limiter{}.Limit(3)), one("where", query.NewWhere()), one("fields", query.NewFields("a", "b")), one("ordering", query.ASC("f")), one("values map", query.ValuesMap{"a": 1}), one("named arg", sql.Named("n", 1)), one("out", sql.Out{Dest: &anInt}), one("raw bytes", sql.RawBytes("ab")), one("json number", json.Number("12")),
	one("flag", Flag(true)), one("ratio", Ratio(0.25)), one("letter", Letter('x')), one("word", Word("w' OR $1")), one("nested", Outer{Pair{1, 2}}), one("ptr-ptr", &pInt), one("ptr-bytes", &someBytes), one("struct with pointer", Box{&anInt}), one("bool array struct", struct{ A [2]bool }{}), one("empty struct", struct{}{}),
	one("keyword", query.SQLKeyWord("x")), one("table join", query.LeftJoin), one("joiner", query.NewTableJoiner(query.Table("t"), query.LeftJoin, query.JoinFields(query.Field("a.b"), query.Field("t.c")))), one("join condition", query.JoinFields(query.Field("a.b"), query.Field("t.c"))), one("insert", query.InsertInto("t").Values(query.FieldName("f").Value(7))),
	one("update", query.Update("t").Set(query.FieldName("f").Value(7)).Where(query.EqualTo("f", 1))), one("delete", query.Delete("t").Where(query.EqualTo("f", 1))), one("base builder", query.DoSelect.New()), one("base condition", query.BaseCondition{}), one("half-built join", query.SelectFrom("t").LeftJoin(query.Table("u"))),
	one("big", big.NewInt(1<<40)), one("big rat", big.NewRat(1, 3)), one("ip", net.IPv4(1, 2, 3, 4)), one("url", &url.URL{Scheme: "x", Path: "'$1"}), one("netip", netip.MustParseAddr("::1")), one("weekday", time.Sunday), one("location", time.UTC), one("reflected", reflect.ValueOf(7)), one("type", reflect.TypeOf(7)), one("context", context.Background()), one("buffer", bytes.NewBufferString("$1")), one("reader", strings.NewReader("?")), one("builder", &strings.Builder{}),
	conv("nullint32", sql.NullInt32{Int32: 3, Valid: true}, int64(3)), conv("nullint16", sql.NullInt16{Int16: 3, Valid: true}, int64(3)), conv("nullbyte", sql.NullByte{Byte: 3, Valid: true}, int64(3)), conv("null of null", sql.Null[int]{V: 3}, nil),
	conv("embedded valuer", Holder{VInt: 4}, int64(40)), conv("embedded null", &struct{ sql.NullString }{sql.NullString{String: "e", Valid: true}}, "e"), conv("vbytes", VBytes{}, []byte("converted")), conv("vtext", VText(""), "'"),
	conv("nullbool", sql.NullBool{Bool: false, Valid: true}, false), conv("nullfloat", sql.NullFloat64{Float64: 0.5}, nil), conv("null of", sql.Null[string]{V: "v", Valid: true}, "v"),
	conv("vint", VInt(7), int64(70)), conv("vint-zero", VInt(0), int64(0)), conv("vint-ptr", &vi1, int64(10)), conv("vint-nil-ptr", nilVI, nil), conv("vptr", &VPtr{"a"}, "ptr:a"), conv("vptr-nil", nilVP, "nil pointer"), conv("vnil", VNil{}, nil),
	conv("vslice", VSlice{1, 2}, "[1 2]"), conv("vslice-empty", VSlice{}, "[]"), conv("vuuid", VUUID{1}, "01000000000000000000000000000000"), conv("vmap", VMap{"a": "b"}, 1),
	conv("nullstring", sql.NullString{String: "x", Valid: true}, "x"), conv("nullstring-null", sql.NullString{String: "x"}, nil), conv("nullint", sql.NullInt64{Int64: 0, Valid: true}, int64(0)), conv("nulltime", sql.NullTime{Time: aTime, Valid: true}, aTime), conv("stamp", Stamp{aTime}, aTime), conv("nullstring-ptr-nil", (*sql.NullString)(nil), nil),
	conv("prov", Prov{"p"}, "prov:p"), conv("prov-ptr", &Prov{"q"}, "prov:q"), conv("pprov", &PProv{1}, 501), conv("pslice", PSlice{"a", "b"}, "[a b]"),
	failing("verr", VErr{"x"}), failing("verr-ptr", &VErr{"y"}),
}

// Lists are the values In takes apart.
var Lists = []Value{
	list("ints", []int{1, 2, 3}, 1, 2, 3), list("ints-1", []int{9}, 9), list("ints-dup", []int{1, 1, 2, 1}, 1, 1, 2, 1), list("ints-empty", []int{}), list("ints-nil", []int(nil)), list("int64s", []int64{3, 1, 2}, int64(3), int64(1), int64(2)),
	list("uints", []uint{1, 2}, uint(1), uint(2)), list("strings", []string{"b", "a", ""}, "b", "a", ""), list("strings-1", []string{"x"}, "x"), list("strings-empty", []string{}), list("strings-nil", []string(nil)), list("bools", []bool{true, false}, true, false), list("floats", []float64{0.5, 2}, 0.5, 2.0),
	list("named-ints", IDs{4, 5}, 4, 5), list("named-strings", Names{"n", "m"}, "n", "m"), list("colors", []Color{2, 1}, Color(2), Color(1)), list("array", [3]int{7, 8, 9}, 7, 8, 9), list("named-array", Arr3{1, 2, 3}, 1, 2, 3), list("array-0", [0]string{}), list("array-str", [2]string{"p", "q"}, "p", "q"),
	list("any", []any{1, "a", nil, 2.5, []byte("z")}, 1, "a", nil, 2.5, []byte("z")), list("any-1nil", []any{nil}, nil), list("any-plain", []any{1, "a", true, int64(2)}, 1, "a", true, int64(2)), list("any-ints", []any{3, 1}, 3, 1), list("any-texts", []any{"b", "a"}, "b", "a"), list("any-one", []any{1.5}, 1.5), list("any-lists", []any{[]byte("q"), [16]byte{1}}, []byte("q"), [16]byte{1}), list("any-empty", []any{}), list("any-conv", []any{VInt(1), Prov{"x"}, &VPtr{"y"}, 3}, int64(10), "prov:x", "ptr:y", 3),
	list("times", []time.Time{aTime, zTime, now}, aTime, zTime, now), list("bytes-list", [][]byte{[]byte("a"), nil, {}}, []byte("a"), []byte(nil), []byte{}), list("structs", []Pair{{1, 2}, {3, 4}}, Pair{1, 2}, Pair{3, 4}), list("ptrs", []*int{&anInt, nil}, &anInt, nilInt), list("bool-ptr", []*bool{&tTrue}, &tTrue),
	list("vints", []VInt{1, 0, 3}, int64(10), int64(0), int64(30)), list("vint-ptrs", []*VInt{&vi1, nil}, int64(10), nil), list("vptrs", []*VPtr{{"a"}, {"b"}}, "ptr:a", "ptr:b"), list("valuers", []driver.Valuer{VInt(1), nil, &VPtr{"z"}, nilVI}, int64(10), nil, "ptr:z", nil), list("valuers-empty", []driver.Valuer{}), list("vslices", []VSlice{{1}, {2, 3}}, "[1]", "[2 3]"),
	list("uuids", []VUUID{{1}, {2}}, "01000000000000000000000000000000", "02000000000000000000000000000000"), list("uuid-array", [2]VUUID{{1}, {2}}, "01000000000000000000000000000000", "02000000000000000000000000000000"), list("vnils", []VNil{{}, {}}, nil, nil), list("nullstrings", []sql.NullString{{String: "a", Valid: true}, {}}, "a", nil),
	list("provs", []Prov{{"a"}, {"b"}}, "prov:a", "prov:b"), list("pprovs", []*PProv{{1}, {2}}, 501, 502), list("providers", []query.ValueProvider{Prov{"a"}, &PProv{3}}, "prov:a", 503), list("providers-empty", []query.ValueProvider{}),
	list("field names", []query.FieldName{"a", "t.b"}, query.FieldName("a"), query.FieldName("t.b")), list("field definitions", []query.FieldDefinition{query.Field("a")}, query.Field("a")), list("conditions", []query.Condition{aCond}, aCond), list("arrays", [][2]int{{1, 2}}, [2]int{1, 2}), list("slices", [][]int{{1}, {}}, []int{1}, []int{}), list("raw bytes list", []sql.RawBytes{sql.RawBytes("a")}, sql.RawBytes("a")),
	list("errors", []error{errPlain, nil}, errPlain, nil), list("named arg list", []sql.NamedArg{sql.Named("a", 1)}, sql.Named("a", 1)), list("maps", []map[string]int{{"a": 1}, nil}, map[string]int{"a": 1}, map[string]int(nil)), list("runes", []rune("ab"), 'a', 'b'), list("int8s", []int8{1, -1}, int8(1), int8(-1)), list("array-bytes-list", [1][]byte{[]byte("a")}, []byte("a")),
	list("twelve", []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12), manyInts(120),
}

func manyInts(n int) Value {
	var in []int
	var out []any
	for i := 0; i < n; i++ {
		in = append(in, i*7)
		out = append(out, i*7)
	}
	return Value{Name: "ints-" + strconv.Itoa(n), V: in, List: out}
}

// Same compares parameters by type and content, pointers by identity.
func Same(got, want any) bool {
	g, w := reflect.ValueOf(got), reflect.ValueOf(want)
	if g.IsValid() && w.IsValid() && g.Kind() == reflect.Pointer && w.Kind() == reflect.Pointer {
		return got == want
	}
	if g.IsValid() && w.IsValid() && g.Type() == w.Type() {
		switch g.Kind() {
		case reflect.Float32, reflect.Float64: // bit by bit, with what is not a number and the negative zero
			return math.Float64bits(g.Float()) == math.Float64bits(w.Float())
		}
	}
	return reflect.DeepEqual(got, want)
}

// SameAll compares lists of parameters.
func SameAll(got, want []any) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if !Same(got[i], want[i]) {
			return false
		}
	}
	return true
}
