//go:build go1.22

package main

import (
	"fmt"
	"math"

	"github.com/unsafe-risk/utilx/dsx/slicex"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

func mk(n int) slicex.Slice[int] {
	s := make(slicex.Slice[int], n)
	for i := range s {
		s[i] = 100 + i
	}
	return s
}

func main() {
	vr.Run("P10", func(r *vr.R) {
		// the pieces in order are the whole slice
		whole := func(p []slicex.Slice[int], n int) {
			k := 0
			for i := range p {
				for _, v := range p[i] {
					r.True(k < n && v == 100+k, "piece %d continues with %d after %d elements of %d", i, v, k, n)
					k++
				}
			}
			r.Eq("elements in all pieces", k, n)
		}
		split := func(n int, sizes []int) {
			r.Case(func() string { return fmt.Sprintf("Split(%v) of %d elements", sizes, n) }, func() {
				in := append([]int{}, sizes...)
				p := mk(n).Split(sizes...)
				whole(p, n)
				r.Eq("sizes argument", fmt.Sprint(sizes), fmt.Sprint(in))
				left := n
				var want []int
				for _, k := range sizes {
					want = append(want, min(k, left))
					left -= min(k, left)
				}
				if left > 0 {
					want = append(want, left)
				}
				r.Eq("number of pieces", len(p), len(want))
				for i := range want {
					r.Eq(fmt.Sprintf("length of piece %d", i), len(p[i]), want[i])
				}
				r.Note(fmt.Sprint("split", n, sizes))
			})
		}
		vals := []int{0, 1, 2, 3, 7, math.MaxInt, math.MaxInt - 1, math.MaxInt / 2}
		for n := 0; n <= 7; n++ {
			split(n, nil)
			for _, a := range vals {
				split(n, []int{a})
				for _, b := range vals {
					split(n, []int{a, b})
					for _, c := range vals {
						split(n, []int{a, b, c})
					}
				}
			}
		}
		for i := 0; i < 3000; i++ {
			n := r.Rng.Intn(200)
			z := make([]int, r.Rng.Intn(40))
			for k := range z {
				z[k] = r.Rng.Intn(1 + r.Rng.Intn(30))
			}
			split(n, z)
		}
		r.Bound("Split: lengths 0 to 7 with up to 3 sizes of %d values, 3000 random", len(vals))
		batch := func(n, size int) {
			r.Case(func() string { return fmt.Sprintf("Batch(%d) of %d elements", size, n) }, func() {
				p := mk(n).Batch(size)
				whole(p, n)
				u := max(size, 1)
				for i := range p {
					if i < len(p)-1 {
						r.Eq(fmt.Sprintf("length of batch %d", i), len(p[i]), u)
					} else {
						r.True(len(p[i]) > 0 && len(p[i]) <= u, "length of last batch is %d", len(p[i]))
					}
				}
				r.Note(fmt.Sprint("batch", n, size))
			})
		}
		for n := 0; n <= 70; n++ {
			for size := -2; size <= 75; size++ {
				batch(n, size)
			}
			batch(n, math.MaxInt)
			batch(n, math.MinInt)
		}
		r.Bound("Batch: lengths 0 to 70, sizes -2 to 75 and extremes")
		r.Sizes("Batch", func(n int) {
			for _, size := range []int{1, 2, n - 1, n, n + 1, n / 2, n/2 + 1, n / 3, 64, 1000} {
				p := mk(n).Batch(size)
				whole(p, n)
				for i := range p {
					r.True(len(p[i]) == max(size, 1) || i == len(p)-1 && len(p[i]) < max(size, 1), "batch %d has %d elements", i, len(p[i]))
				}
			}
		})
	})
}
