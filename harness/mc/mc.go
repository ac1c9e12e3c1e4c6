// Package mc is a stateless model checker: a body asks for choices, the explorer enumerates every choice
// sequence exhaustively, re-executing the body on the real code for each one.
package mc

import (
	"fmt"
	"runtime/debug"
	"strings"
)

// Ctx is one execution.
type Ctx struct {
	prefix  []int
	choices []int
	arity   []int
	cut     int // > 0: stop when more than cut choices are made (prefix enumeration)
	crumb   *Crumb

	Tracing bool
	Lines   []string

	Ops    uint64 // operations of the real code driven by this exploration
	states *Set
	tags   map[string]uint64
	Bound  int
	Tier   string

	tolerant, diverged bool
}

type failSignal struct{ msg string }
type skipSignal struct{}
type cutSignal struct{}

// Divergence is a harness error: replaying a prefix met a different choice.
type Divergence struct{ Msg string }

func (d Divergence) Error() string { return "mc.Divergence: " + d.Msg }

// Choose returns a number in [0, n).
func (c *Ctx) Choose(n int) int {
	i := len(c.choices)
	if n <= 0 {
		panic(Divergence{fmt.Sprintf("choice of %d", n)})
	}
	if c.cut > 0 && i >= c.cut {
		panic(cutSignal{})
	}
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n && c.tolerant {
			c.diverged, v = true, n-1
		} else if v >= n {
			panic(Divergence{fmt.Sprintf("choice %d is %d of %d", i, v, n)})
		}
	}
	c.choices = append(c.choices, v)
	c.arity = append(c.arity, n)
	if c.crumb != nil {
		c.crumb.Put(i, v)
	}
	return v
}

// Bool chooses false first.
func (c *Ctx) Bool() bool { return c.Choose(2) == 1 }

// Mark is a point to replay from.
func (c *Ctx) Mark() int { return len(c.choices) }

// Replay runs body with the choices made since the mark, as part of this execution.
func (c *Ctx) Replay(mark int, body Body) {
	d := &Ctx{prefix: c.choices[mark:len(c.choices):len(c.choices)], states: c.states, tags: c.tags, Bound: c.Bound, Tier: c.Tier}
	body(d)
	if len(d.choices) != len(d.prefix) {
		panic(Divergence{fmt.Sprintf("replay made %d choices of %d", len(d.choices), len(d.prefix))})
	}
	c.Ops += d.Ops
}

// Op counts one operation of the code under check; the text is kept when tracing.
func (c *Ctx) Op(f string, a ...any) {
	c.Ops++
	if c.Tracing {
		c.Lines = append(c.Lines, fmt.Sprintf(f, a...))
	}
}

// Count counts n operations without text.
func (c *Ctx) Count(n int) { c.Ops += uint64(n) }

// Logf adds a line to the trace when tracing.
func (c *Ctx) Logf(f string, a ...any) {
	if c.Tracing {
		c.Lines = append(c.Lines, fmt.Sprintf(f, a...))
	}
}

// fnv64 is stable between processes.
func fnv64(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 32
	return h
}

// State records a reached state, described by its observation.
func (c *Ctx) State(parts ...string) {
	h := uint64(len(parts))
	for _, p := range parts {
		h = h*0x9e3779b97f4a7c15 + fnv64(p)
	}
	c.states.Add(h)
}

// Tag counts an outcome class, to show that the exploration is not vacuous.
func (c *Ctx) Tag(t string) { c.tags[t]++ }

// Failf ends the execution with a violation.
func (c *Ctx) Failf(f string, a ...any) { panic(failSignal{fmt.Sprintf(f, a...)}) }

// Skip ends the execution: this choice sequence is not a case of the property.
func (c *Ctx) Skip() { panic(skipSignal{}) }

// Result of one execution.
type Result struct {
	Choices []int
	Arity   []int
	Failed  bool
	Skipped bool
	Cut     bool
	Msg     string
	Ops     uint64
	Lines   []string

	Diverged bool
}

// Body is one execution of a family.
type Body func(c *Ctx)

// Env is what executions of one worker share.
type Env struct {
	States *Set
	Tags   map[string]uint64
	Crumb  *Crumb
	Bound  int
	Tier   string
	// Tolerant: the code under check itself may take different ways in equal executions (map iteration);
	// what is then left out makes the exploration not exhaustive, instead of being a harness error.
	Tolerant bool
}

// Run executes body with the given choice prefix.
func Run(body Body, prefix []int, cut int, tracing bool, env *Env) (r Result) {
	c := &Ctx{prefix: prefix, cut: cut, Tracing: tracing, states: env.States, tags: env.Tags, crumb: env.Crumb, Bound: env.Bound, Tier: env.Tier, tolerant: env.Tolerant}
	if c.crumb != nil {
		c.crumb.Reset()
	}
	defer func() {
		r.Choices, r.Arity, r.Ops, r.Lines, r.Diverged = c.choices, c.arity, c.Ops, c.Lines, c.diverged
		switch v := recover().(type) {
		case nil:
		case failSignal:
			r.Failed, r.Msg = true, v.msg
		case skipSignal:
			r.Skipped = true
		case cutSignal:
			r.Cut = true
		case Divergence:
			panic(v)
		default:
			r.Failed, r.Msg = true, fmt.Sprintf("panic: %v\n%s", v, trimStack(string(debug.Stack())))
		}
	}()
	body(c)
	if len(c.choices) < len(prefix) && c.tolerant {
		c.diverged = true
	} else if len(c.choices) < len(prefix) {
		panic(Divergence{fmt.Sprintf("execution made %d choices, prefix has %d", len(c.choices), len(prefix))})
	}
	return r
}

func trimStack(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "amarin/query") || strings.HasPrefix(strings.TrimSpace(l), "/repo/") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) > 12 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// Next returns the prefix of the next execution in depth-first order that keeps the first `fixed` choices, or nil.
func Next(r Result, fixed int) []int {
	for i := len(r.Choices) - 1; i >= fixed; i-- {
		if r.Choices[i]+1 < r.Arity[i] {
			p := append([]int{}, r.Choices[:i+1]...)
			p[i]++
			return p
		}
	}
	return nil
}

// Prefixes enumerates all choice prefixes of length at most depth (shorter: executions that end before).
func Prefixes(body Body, depth int, env *Env, limit int) [][]int {
	scratch := &Env{States: NewSet(16), Tags: map[string]uint64{}, Bound: env.Bound, Tier: env.Tier, Crumb: env.Crumb, Tolerant: env.Tolerant}
	var out [][]int
	prefix := []int{}
	for {
		r := Run(body, prefix, depth, false, scratch)
		n := len(r.Choices)
		if n > depth {
			n = depth
		}
		out = append(out, append([]int{}, r.Choices[:n]...))
		if limit > 0 && len(out) >= limit {
			return out
		}
		r.Choices, r.Arity = r.Choices[:n], r.Arity[:n]
		if prefix = Next(r, 0); prefix == nil {
			return out
		}
	}
}

// SplitDepth chooses a prefix length that gives enough parts for sharding.
func SplitDepth(body Body, want int, env *Env) (depth int, parts [][]int) {
	for depth = 1; depth <= 24; depth++ {
		parts = Prefixes(body, depth, env, 0)
		if len(parts) >= want {
			return depth, parts
		}
		longest := 0
		for _, p := range parts {
			if len(p) > longest {
				longest = len(p)
			}
		}
		if longest < depth {
			return depth, parts
		}
	}
	return depth, parts
}
