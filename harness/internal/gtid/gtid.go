// Package gtid implements MySQL GTID sets (the reference used by the fake server and by oracles).
package gtid

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// ID is one GTID.
type ID struct {
	UUID string
	N    int64
}

func (i ID) String() string { return fmt.Sprintf("%s:%d", i.UUID, i.N) }

// Iv is a closed interval.
type Iv struct{ A, B int64 }

// Set is a GTID set: per UUID sorted, disjoint, non-adjacent intervals.
type Set map[string][]Iv

func New() Set { return Set{} }

func (s Set) Add(id ID) { s.AddIv(id.UUID, Iv{id.N, id.N}) }

// AddIv adds an interval.
func (s Set) AddIv(u string, x Iv) {
	if x.B < x.A {
		return
	}
	m := s[u]
	if l := len(m); l == 0 || m[l-1].B+1 < x.A {
		s[u] = append(m[:l:l], x)
		return
	} else if m[l-1].A <= x.A {
		if x.B > m[l-1].B {
			n := append([]Iv(nil), m...)
			n[l-1].B = x.B
			s[u] = n
		}
		return
	}
	var out []Iv
	done := false
	for _, v := range m {
		switch {
		case v.B+1 < x.A:
			out = append(out, v)
		case x.B+1 < v.A:
			if !done {
				out = append(out, x)
				done = true
			}
			out = append(out, v)
		default:
			x.A, x.B = min(x.A, v.A), max(x.B, v.B)
		}
	}
	if !done {
		out = append(out, x)
	}
	s[u] = out
}

func (s Set) Has(id ID) bool {
	for _, v := range s[id.UUID] {
		if v.A <= id.N && id.N <= v.B {
			return true
		}
	}
	return false
}

func (s Set) Clone() Set {
	r := make(Set, len(s))
	for u, m := range s {
		r[u] = append([]Iv(nil), m...)
	}
	return r
}

// Union adds all of t to s.
func (s Set) Union(t Set) {
	for u, m := range t {
		for _, v := range m {
			s.AddIv(u, v)
		}
	}
}

// Minus returns s - t.
func (s Set) Minus(t Set) Set {
	r := New()
	for u, m := range s {
		for _, v := range m {
			a := v.A
			for _, x := range t[u] {
				if x.B < a {
					continue
				}
				if x.A > v.B {
					break
				}
				r.AddIv(u, Iv{a, x.A - 1})
				a = x.B + 1
			}
			r.AddIv(u, Iv{a, v.B})
		}
	}
	return r
}

func (s Set) SubsetOf(t Set) bool { return s.Minus(t).Empty() }

// Only returns the part of one UUID.
func (s Set) Only(u string) Set {
	r := New()
	for _, v := range s[u] {
		r.AddIv(u, v)
	}
	return r
}

func (s Set) Empty() bool {
	for _, m := range s {
		if len(m) > 0 {
			return false
		}
	}
	return true
}

// Max returns the largest number used for uuid.
func (s Set) Max(uuid string) int64 {
	m := s[uuid]
	if len(m) == 0 {
		return 0
	}
	return m[len(m)-1].B
}

// String formats the set the way mysqld does.
func (s Set) String() string {
	var uuids []string
	for u, m := range s {
		if len(m) > 0 {
			uuids = append(uuids, u)
		}
	}
	sort.Strings(uuids)
	var parts []string
	for _, u := range uuids {
		b := u
		for _, v := range s[u] {
			if v.A == v.B {
				b += fmt.Sprintf(":%d", v.A)
			} else {
				b += fmt.Sprintf(":%d-%d", v.A, v.B)
			}
		}
		parts = append(parts, b)
	}
	return strings.Join(parts, ",\n")
}

// Parse parses a GTID set.
func Parse(str string) (Set, error) {
	r := New()
	for _, part := range strings.Split(str, ",") {
		part = strings.TrimSpace(part)
		if part == "" {
			continue
		}
		f := strings.Split(part, ":")
		if len(f) < 2 {
			return nil, fmt.Errorf("malformed GTID set specification '%s'", str)
		}
		u := strings.ToLower(strings.TrimSpace(f[0]))
		if len(u) != 36 {
			return nil, fmt.Errorf("malformed GTID set specification '%s'", str)
		}
		for _, iv := range f[1:] {
			a, b, isRange := strings.Cut(strings.TrimSpace(iv), "-")
			x, err := strconv.ParseInt(a, 10, 64)
			if err != nil || x < 1 {
				return nil, fmt.Errorf("malformed GTID set specification '%s'", str)
			}
			y := x
			if isRange {
				y, err = strconv.ParseInt(b, 10, 64)
				if err != nil {
					return nil, fmt.Errorf("malformed GTID set specification '%s'", str)
				}
			}
			r.AddIv(u, Iv{x, y})
		}
	}
	return r, nil
}

// MustParse is Parse for trusted input.
func MustParse(s string) Set {
	r, err := Parse(s)
	if err != nil {
		panic(err)
	}
	return r
}
