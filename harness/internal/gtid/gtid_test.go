package gtid

import (
	"math/rand"
	"testing"
)

// TestModel compares the interval implementation with plain sets.
func TestModel(t *testing.T) {
	us := []string{"aaaaaaaa-0000-0000-0000-000000000000", "bbbbbbbb-0000-0000-0000-000000000000"}
	type pm map[ID]bool
	gen := func() (Set, pm) {
		s, m := New(), pm{}
		for k := 0; k < rand.Intn(12); k++ {
			u, a := us[rand.Intn(2)], int64(rand.Intn(15)+1)
			b := a + int64(rand.Intn(4))
			s.AddIv(u, Iv{a, b})
			for ; a <= b; a++ {
				m[ID{u, a}] = true
			}
		}
		return s, m
	}
	same := func(s Set, m pm) bool {
		for _, u := range us {
			for n := int64(1); n < 30; n++ {
				if s.Has(ID{u, n}) != m[ID{u, n}] {
					return false
				}
			}
			for i, v := range s[u] {
				if i > 0 && s[u][i-1].B+1 >= v.A || v.B < v.A {
					return false
				}
			}
		}
		return true
	}
	for i := 0; i < 20000; i++ {
		a, ma := gen()
		b, mb := gen()
		if !same(a, ma) || !same(MustParse(a.String()), ma) {
			t.Fatal(a, ma)
		}
		d, sub := pm{}, true
		for k := range ma {
			if !mb[k] {
				d[k] = true
				sub = false
			}
		}
		if !same(a.Minus(b), d) || a.SubsetOf(b) != sub {
			t.Fatal(a, b)
		}
		c := a.Clone()
		c.Union(b)
		for k := range mb {
			ma[k] = true
		}
		if !same(c, ma) {
			t.Fatal(a, b, c)
		}
	}
}
