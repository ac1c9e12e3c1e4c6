package props

import (
	"fmt"

	"github.com/amarin/query"

	"verif/harness/mc"
)

func checkUniq(c *mc.Ctx, in []query.FieldName, cp int) {
	var want []query.FieldName
	seen := map[query.FieldName]bool{}
	for _, f := range in {
		if !seen[f] {
			seen[f] = true
			want = append(want, f)
		}
	}
	// the input lies inside a bigger array
	back := make([]query.FieldName, len(in)+cp)
	copy(back, in)
	for i := len(in); i < len(back); i++ {
		back[i] = "beyond"
	}
	arg := back[:len(in)]
	if in == nil && cp == 0 {
		arg = nil
	}
	got := query.UniqFieldNames(arg)
	c.Op("UniqFieldNames(%q) = %q", in, got)
	same := func(a, b []query.FieldName) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	if !same(got, want) {
		c.Failf("UniqFieldNames(%q) = %q, expected %q", in, got, want)
	}
	unchanged := func(when string) {
		if !same(back[:len(in)], in) {
			c.Failf("UniqFieldNames(%q): the input is %q %s", in, back[:len(in)], when)
		}
		for i := len(in); i < len(back); i++ {
			if back[i] != "beyond" {
				c.Failf("UniqFieldNames(%q): element %d of the array beyond the input is %q %s", in, i, back[i], when)
			}
		}
	}
	unchanged("after the call")
	poison(got, "poison")
	unchanged("after the result was changed")
	again := query.UniqFieldNames(arg)
	for i := range back {
		back[i] = "poison"
	}
	if !same(again, want) {
		c.Failf("UniqFieldNames(%q): the result became %q when the input was changed", in, again)
	}
	c.State(fmt.Sprint(in))
}

func init() {
	alphabet := []query.FieldName{"a", "A", "b", "ab", "", "t.a", "a ", "á", "a\x00", "t.A"}
	mc.Register(&mc.Property{
		ID: "C22",
		Families: []mc.Family{
			{Name: "slices", Quick: []int{0, 1, 2, 3, 4, 5, 6}, Thorough: []int{0, 1, 2, 3, 4, 5, 6},
				Doc: "every slice of exactly <bound> names out of ten alike ones (letter case, prefixes, blanks, the empty name), with 0 or 3 elements of spare capacity",
				Body: func(c *mc.Ctx) {
					var in []query.FieldName
					for i := 0; i < c.Bound; i++ {
						in = append(in, alphabet[c.Choose(len(alphabet))])
					}
					checkUniq(c, in, 3*c.Choose(2))
				}},
			{Name: "patterns", Quick: []int{8}, Thorough: []int{10},
				Doc: "every pattern of equal and different names of length <bound> and less (set partitions): all that matters when names are only compared for equality",
				Body: func(c *mc.Ctx) {
					var in []query.FieldName
					n := c.Choose(c.Bound + 1)
					kinds := 0
					for i := 0; i < n; i++ {
						k := c.Choose(kinds + 1)
						if k == kinds {
							kinds++
						}
						in = append(in, query.FieldName(fmt.Sprintf("n%d", k)))
					}
					checkUniq(c, in, 0)
				}},
			{Name: "long", Quick: []int{70}, Thorough: []int{300},
				Doc: "slices of every length up to <bound> cycling through every number of different names up to 70, in rising, falling and interleaved order",
				Body: func(c *mc.Ctx) {
					n, k, how := c.Choose(c.Bound+1), 1+c.Choose(70), c.Choose(3)
					var in []query.FieldName
					for i := 0; i < n; i++ {
						j := i % k
						switch how {
						case 1:
							j = k - 1 - j
						case 2:
							j = (i * i) % k
						}
						in = append(in, query.FieldName(fmt.Sprintf("n%d", j)))
					}
					checkUniq(c, in, 0)
				}},
		},
	})
}
