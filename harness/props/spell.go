package props

import (
	"fmt"

	"verif/harness/mc"
)

// Characters and signs at every place of specifications.

// signs are what may be taken for syntax.
var signs = []string{"()", "(*)", "::text", "->", "->>", "||", "/*", "*/", "--", "``", "[]", "[0]", "{}", "''", "\"\"", "$1", "?", ":p", "@v", "%", "%s", "%v", "%!", "\\", "\\n", ";", "count(", "f(x)", "f(", ")", "as", "AS", "_as", "ı", "ſ", "İ", "ß", "e\u0301", "é", "\u200d", "\u00ad", "\u202e", "\x00", "\x7f", "\xff", "\xc3", "１", "．", "。", "·", "…"}

// spelled puts a sign or character somewhere into one or several words.
func spelled(c *mc.Ctx, words ...string) {
	sign := ""
	if k := c.Choose(len(signs) + 95); k < 95 {
		sign = string(rune(' ' + k))
	} else {
		sign = signs[k-95]
	}
	where := c.Choose(len(words) + 2) // one of the words, every word, or the first and the last
	how := c.Choose(6)
	put := func(w string) string {
		switch how {
		case 0:
			return sign + w
		case 1:
			return w + sign
		case 2:
			return w[:1] + sign + w[1:]
		case 3:
			return sign
		case 4:
			return sign + w + sign
		}
		return sign + sign + w
	}
	for i := range words {
		if i == where || where == len(words) || where == len(words)+1 && (i == 0 || i == len(words)-1) {
			words[i] = put(words[i])
		}
	}
	c.State(sign, fmt.Sprint(where, how, len(words)))
}

func init() {
	doc := "every printable ASCII character and %d signs (brackets, calls, casts, operators, comments, quotes, verbs of formats, letters of other scripts, combining and invisible characters, bytes that are no text) before, after, inside, around or instead of each %s, of all of them and of the first and last one"
	mc.Extend("C11", mc.Family{Name: "spelling", Quick: []int{0, 1, 2, 3}, Thorough: []int{0, 1, 2, 3},
		Doc: fmt.Sprintf(doc, len(signs), "part of a field specification: without (0, 1) and with a table, without (0, 2) and with an alias"),
		Body: func(c *mc.Ctx) {
			ws := []string{"nm"}
			if c.Bound&2 > 0 {
				ws = append([]string{"tb"}, ws...)
			}
			if c.Bound&1 > 0 {
				ws = append(ws, "al")
			}
			spelled(c, ws...)
			s := ws[0]
			if c.Bound&2 > 0 {
				s += "." + ws[1]
			}
			if c.Bound&1 > 0 {
				s += pick(c, " as ", "\tAS  ") + ws[len(ws)-1]
			}
			checkFieldSpec(c, s)
		}})
	mc.Extend("C12", mc.Family{Name: "spelling", Quick: []int{1, 2, 3}, Thorough: []int{1, 2, 3},
		Doc: fmt.Sprintf(doc, len(signs), "word of a table specification of <bound> words"),
		Body: func(c *mc.Ctx) {
			ws := []string{"tb", "as", "al"}
			if c.Bound < 3 {
				ws = []string{"tb", "al"}[:c.Bound]
			}
			spelled(c, ws...)
			s := ws[0]
			for _, w := range ws[1:] {
				s += " " + w
			}
			checkTableSpec(c, s)
		}})
}
