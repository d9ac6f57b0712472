//go:build go1.22

package main

import (
	"fmt"

	"github.com/unsafe-risk/utilx/dsx/slicex"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

func main() {
	vr.Run("P11", func(r *vr.R) {
		// yes(k) is the answer of the predicate at its k-th call; it depends on the
		// call only, not on the element
		one := func(n, spare int, yes func(k int) bool, what func() string) {
			mk := func() slicex.Slice[int] {
				b := make(slicex.Slice[int], n+spare)
				for i := range b {
					b[i] = 10 + i/3
				}
				return b[:n]
			}
			r.Case(func() string { return fmt.Sprintf("%d elements, %d spare, predicate %s", n, spare, what()) }, func() {
				first := -1
				for k := 0; k < n && first < 0; k++ {
					if yes(k) {
						first = k
					}
				}
				orig := mk()
				var seen []int
				pred := func(v int) bool {
					seen = append(seen, v)
					r.True(len(seen) <= n, "the predicate is called more than %d times", n)
					return yes(len(seen) - 1)
				}
				upto := n
				if first >= 0 {
					upto = first + 1
				}
				calls := func(op string, want int) {
					r.Eq(op+": calls", len(seen), want)
					for k, v := range seen {
						r.True(v == orig[k], "%s: call %d gets %d, want %d", op, k, v, orig[k])
					}
					seen = nil
				}
				s := mk()
				r.Eq("IndexOf", s.IndexOf(pred), first)
				calls("IndexOf", upto)
				r.Eq("Contains", s.Contains(pred), first >= 0)
				calls("Contains", upto)
				s.Each(func(v int) { pred(v) })
				calls("Each", n)
				s.ForEach(func(i, v int) {
					r.Eq("ForEach index", i, len(seen))
					pred(v)
				})
				calls("ForEach", n)
				r.Eq("length", len(s), n)
				for k := range s[:cap(s)] {
					r.True(s[:cap(s)][k] == 10+k/3, "a visit changes element %d", k)
				}
				r.True(s.Filter(pred) == &s, "Filter does not return its receiver")
				calls("Filter", n)
				var want []int
				for k := 0; k < n; k++ {
					if yes(k) {
						want = append(want, orig[k])
					}
				}
				r.Eq("Filter length", len(s), len(want))
				for k := range want {
					r.True(s[k] == want[k], "Filter: element %d is %d, want %d", k, s[k], want[k])
				}
				r.Note(what())
			})
		}
		for n := 0; n <= 9; n++ {
			for m := 0; m < 1<<n; m++ {
				one(n, m%3, func(k int) bool { return m>>k&1 == 1 }, func() string { return fmt.Sprintf("%b", m) })
			}
		}
		r.Bound("every predicate outcome for up to 9 elements")
		for i := 0; i < 3000; i++ {
			n := r.Rng.Intn(200)
			y := make([]bool, n+1)
			d := 1 + r.Rng.Intn(20)
			for k := range y {
				y[k] = r.Rng.Intn(d) == 0
			}
			one(n, r.Rng.Intn(4), func(k int) bool { return k < len(y) && y[k] }, func() string { return fmt.Sprint(y) })
		}
		r.Bound("3000 random predicates over up to 200 elements")
	})
}
