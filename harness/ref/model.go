package ref

import (
	"fmt"
	"sort"
	"strings"
)

// positions is the Glushkov automaton of a content model
type positions struct {
	names  []string
	follow [][]int
}

type span struct {
	nullable    bool
	first, last []int
}

func (g *positions) build(c *CP) span {
	var s span
	switch {
	case c.Op == 0:
		p := len(g.names)
		g.names = append(g.names, c.Name)
		g.follow = append(g.follow, nil)
		s = span{false, []int{p}, []int{p}}
	case c.Op == ',':
		s.nullable = true
		for _, k := range c.Kids {
			t := g.build(k)
			for _, l := range s.last {
				g.follow[l] = append(g.follow[l], t.first...)
			}
			if s.nullable {
				s.first = append(s.first, t.first...)
			}
			if t.nullable {
				s.last = append(append([]int{}, s.last...), t.last...)
			} else {
				s.last = t.last
			}
			s.nullable = s.nullable && t.nullable
		}
	default:
		for _, k := range c.Kids {
			t := g.build(k)
			s.nullable = s.nullable || t.nullable
			s.first = append(s.first, t.first...)
			s.last = append(s.last, t.last...)
		}
	}
	if c.Occ == '*' || c.Occ == '+' {
		for _, l := range s.last {
			g.follow[l] = append(g.follow[l], s.first...)
		}
	}
	if c.Occ == '*' || c.Occ == '?' {
		s.nullable = true
	}
	return s
}

// automaton reads a sequence of names
type automaton struct {
	g     positions
	s     span
	final map[int]bool
}

func newAutomaton(c *CP) *automaton {
	a := &automaton{}
	a.s = a.g.build(c)
	a.final = map[int]bool{}
	for _, l := range a.s.last {
		a.final[l] = true
	}
	return a
}

const initial = -1

func (a *automaton) step(set []int, name string) []int {
	seen := map[int]bool{}
	for _, p := range set {
		next := a.s.first
		if p != initial {
			next = a.g.follow[p]
		}
		for _, q := range next {
			if a.g.names[q] == name {
				seen[q] = true
			}
		}
	}
	var out []int
	for q := range seen {
		out = append(out, q)
	}
	sort.Ints(out)
	return out
}

func (a *automaton) accepts(set []int) bool {
	for _, p := range set {
		if p == initial && a.s.nullable || p != initial && a.final[p] {
			return true
		}
	}
	return false
}

// Accepts returns true if the model accepts the children
func (c *CP) Accepts(names []string) bool {
	a := newAutomaton(c)
	set := []int{initial}
	for _, n := range names {
		set = a.step(set, n)
	}
	return a.accepts(set)
}

// Names returns the names in a model
func (c *CP) Names() []string {
	seen := map[string]bool{}
	var out []string
	var walk func(c *CP)
	walk = func(c *CP) {
		if c.Op == 0 && !seen[c.Name] {
			seen[c.Name] = true
			out = append(out, c.Name)
		}
		for _, k := range c.Kids {
			walk(k)
		}
	}
	walk(c)
	sort.Strings(out)
	return out
}

// Equivalent returns a sequence of children that only one of the models
// accepts. There is none if ok is true.
func Equivalent(x, y *CP, limit int) (witness []string, ok bool) {
	if x.String() == y.String() {
		return nil, true
	}
	a, b := newAutomaton(x), newAutomaton(y)
	names := append(x.Names(), y.Names()...)
	type state struct {
		s, t []int
		path []string
	}
	todo := []state{{[]int{initial}, []int{initial}, nil}}
	seen := map[string]bool{}
	for len(todo) > 0 && len(seen) < limit {
		st := todo[0]
		todo = todo[1:]
		if a.accepts(st.s) != b.accepts(st.t) {
			return st.path, false
		}
		for _, n := range names {
			s, t := a.step(st.s, n), b.step(st.t, n)
			if len(s) == 0 && len(t) == 0 {
				continue
			}
			k := fmt.Sprint(s, t)
			if !seen[k] {
				seen[k] = true
				todo = append(todo, state{s, t, append(append([]string{}, st.path...), n)})
			}
		}
	}
	return nil, true
}

// String is the model in its usual form, without needless parentheses
func (c *CP) String() string {
	s := c.inner()
	if c.flat().Op == 0 {
		return "(" + s + ")"
	}
	return s
}

// flat removes groups of one
func (c *CP) flat() *CP {
	for c.Op != 0 && len(c.Kids) == 1 && (c.Occ == 0 || c.Kids[0].Occ == 0) {
		k := *c.Kids[0]
		if k.Occ == 0 {
			k.Occ = c.Occ
		}
		c = &k
	}
	return c
}

func (c *CP) inner() string {
	c = c.flat()
	s := c.Name
	if c.Op != 0 {
		var parts []string
		for _, k := range c.Kids {
			k = k.flat()
			if k.Op == c.Op && k.Occ == 0 {
				t := k.inner()
				parts = append(parts, t[1:len(t)-1])
			} else {
				parts = append(parts, k.inner())
			}
		}
		s = "(" + strings.Join(parts, string([]byte{c.Op})) + ")"
	}
	if c.Occ != 0 {
		s += string([]byte{c.Occ})
	}
	return s
}
