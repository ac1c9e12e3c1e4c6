package model

import (
	"database/sql/driver"
	"fmt"
	"reflect"
)

// Types with many other methods, which play no part in what they are as a value.

// quiet answers nothing.
type quiet struct{}

func (quiet) String() string                    { return "" }
func (quiet) GoString() string                  { return "" }
func (quiet) Error() string                     { return "" }
func (quiet) Unwrap() error                     { return nil }
func (quiet) IsZero() bool                      { return true }
func (quiet) IsNil() bool                       { return true }
func (quiet) IsNull() bool                      { return true }
func (quiet) IsEmpty() bool                     { return true }
func (quiet) IsValid() bool                     { return false }
func (quiet) Len() int                          { return 0 }
func (quiet) Get() any                          { return nil }
func (quiet) Interface() any                    { return nil }
func (quiet) Values() []any                     { return nil }
func (quiet) Scan(any) error                    { return nil }
func (quiet) MarshalText() ([]byte, error)      { return nil, nil }
func (quiet) MarshalJSON() ([]byte, error)      { return []byte("null"), nil }
func (quiet) MarshalBinary() ([]byte, error)    { return nil, nil }
func (quiet) Format(fmt.State, rune)            {}
func (quiet) RenderSQL() string                 { return "" }
func (quiet) Render(int) string                 { return "" }
func (quiet) NamedValue() (driver.Value, error) { return nil, nil }

// loud answers something else.
type loud struct{}

func (loud) String() string                    { return "$1" }
func (loud) GoString() string                  { return "$2" }
func (loud) Error() string                     { return "?" }
func (loud) Unwrap() error                     { return errPlain }
func (loud) IsZero() bool                      { return false }
func (loud) IsNil() bool                       { return false }
func (loud) IsNull() bool                      { return false }
func (loud) IsEmpty() bool                     { return false }
func (loud) IsValid() bool                     { return true }
func (loud) Len() int                          { return 3 }
func (loud) Get() any                          { return 31 }
func (loud) Interface() any                    { return 32 }
func (loud) Values() []any                     { return []any{33, 34} }
func (loud) Scan(any) error                    { return errPlain }
func (loud) MarshalText() ([]byte, error)      { return []byte("35"), nil }
func (loud) MarshalJSON() ([]byte, error)      { return []byte("36"), nil }
func (loud) MarshalBinary() ([]byte, error)    { return []byte("37"), nil }
func (loud) RenderSQL() string                 { return "f=?" }
func (loud) Render(int) string                 { return "f=$1" }
func (loud) NamedValue() (driver.Value, error) { return 38, nil }

type (
	qVal  struct{ quiet }
	lVal  struct{ loud }
	qProv struct{ quiet }
	lProv struct{ loud }
	qNone struct {
		quiet
		A int
	}
	lNone struct {
		loud
		A int
	}
	qPtr struct {
		quiet
		A int
	}
	lPtr struct {
		loud
		A int
	}
	qInt  int
	qStr  string
	qList []int
	qMap  map[string]int
	pInt2 int
	nInt  int
	nStr  string
	nList []int
)

func (qVal) Value() (driver.Value, error)  { return "quiet", nil }
func (lVal) Value() (driver.Value, error)  { return "loud", nil }
func (qProv) DatabaseValue() any           { return "quiet too" }
func (lProv) DatabaseValue() any           { return "loud too" }
func (*qPtr) Value() (driver.Value, error) { return "quiet pointer", nil }
func (*lPtr) DatabaseValue() any           { return "loud pointer" }

func (qInt) Value() (driver.Value, error)  { return "quiet int", nil }
func (qInt) String() string                { return "" }
func (qInt) IsZero() bool                  { return true }
func (qStr) Value() (driver.Value, error)  { return "quiet string", nil }
func (qStr) String() string                { return "" }
func (qStr) IsZero() bool                  { return true }
func (qList) Value() (driver.Value, error) { return "quiet list", nil }
func (qList) String() string               { return "" }
func (qList) Len() int                     { return 0 }
func (qMap) Value() (driver.Value, error)  { return "quiet map", nil }
func (qMap) String() string                { return "" }
func (pInt2) DatabaseValue() any           { return "provided int" }
func (pInt2) String() string               { return "" }
func (pInt2) IsZero() bool                 { return true }
func (nInt) String() string                { return "" }
func (nInt) IsZero() bool                  { return true }
func (nInt) Error() string                 { return "" }
func (nStr) String() string                { return "" }
func (nStr) IsZero() bool                  { return true }
func (nStr) MarshalText() ([]byte, error)  { return nil, nil }
func (nList) String() string               { return "" }
func (nList) Len() int                     { return 0 }
func (nList) IsZero() bool                 { return true }

func init() {
	aq, al := &qNone{A: 1}, &lNone{A: 1}
	for _, v := range []Value{
		conv("quiet", qVal{}, "quiet"), conv("loud", lVal{}, "loud"), conv("quiet provider", qProv{}, "quiet too"), conv("loud provider", lProv{}, "loud too"), conv("quiet pointer", &qPtr{A: 1}, "quiet pointer"), conv("loud pointer", &lPtr{A: 1}, "loud pointer"),
		one("quiet none", qNone{A: 1}), one("loud none", lNone{A: 1}), one("quiet none pointer", aq), one("loud none pointer", al), one("quiet not pointer", qPtr{A: 1}), one("loud not pointer", lPtr{A: 1}),
		conv("quiet int", qInt(1), "quiet int"), conv("quiet int zero", qInt(0), "quiet int"), conv("quiet string", qStr("s"), "quiet string"), conv("quiet string empty", qStr(""), "quiet string"), conv("quiet list", qList{1}, "quiet list"), conv("quiet list empty", qList{}, "quiet list"), conv("quiet map", qMap{"a": 1}, "quiet map"), conv("quiet map nil", qMap(nil), "quiet map"),
		conv("provided int", pInt2(3), "provided int"), one("no int", nInt(3)), one("no string", nStr("s")), one("no string empty", nStr("")),
	} {
		Singles = append(Singles, v)
		list := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(v.V)), 0, 2)
		list = reflect.Append(list, reflect.ValueOf(v.V), reflect.ValueOf(v.V))
		Lists = append(Lists, Value{Name: "list of " + v.Name, V: list.Interface(), List: []any{v.Single[0], v.Single[0]}}, Value{Name: "any list of " + v.Name, V: []any{v.V, 1}, List: []any{v.Single[0], 1}})
	}
	Lists = append(Lists, list("no list", nList{4, 5}, 4, 5), list("no list empty", nList{}), list("no array", [1]nInt{3}, nInt(3)))
}

// Gives gives any value to the database.
type Gives struct{ V any }

// Value implements driver.Valuer.
func (g Gives) Value() (driver.Value, error) { return g.V, nil }

// Provides provides any value to the database.
type Provides struct{ V any }

// DatabaseValue implements query.ValueProvider.
func (p Provides) DatabaseValue() any { return p.V }
