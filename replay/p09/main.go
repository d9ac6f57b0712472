//go:build go1.22

package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/unsafe-risk/utilx/dsx/slicex"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

// make a slice of n elements, with spare capacity
func mk(n, spare int) *slicex.Slice[int] {
	b := make([]int, n+spare)
	for i := range b {
		b[i] = 1000 + i
	}
	s := slicex.Slice[int](b[:n])
	return &s
}

func main() {
	vr.Run("P09", func(r *vr.R) {
		check := func(what string, s *slicex.Slice[int], n int, at func(k int) int) {
			r.Eq(what+" length", len(*s), n)
			for k := 0; k < n; k++ {
				r.True((*s)[k] == at(k), "%s: element %d is %d, want %d", what, k, (*s)[k], at(k))
			}
		}
		rotate := func(n, spare, by int) {
			r.Case(func() string { return fmt.Sprintf("Rotate(%d) of %d elements, %d spare", by, n, spare) }, func() {
				s := mk(n, spare)
				r.True(s.Rotate(by) == s, "Rotate does not return its receiver")
				sh := 0
				if n > 0 {
					sh = int(new(big.Int).Mod(big.NewInt(int64(by)), big.NewInt(int64(n))).Int64())
				}
				check("Rotate", s, n, func(k int) int { return 1000 + (k+sh)%n })
				r.Note(fmt.Sprint("rot", n, spare, by))
			})
		}
		for n := 0; n <= 9; n++ {
			for _, spare := range []int{0, 1, 3, 20} {
				for by := -25; by <= 25; by++ {
					rotate(n, spare, by)
				}
				for _, by := range []int{math.MinInt, math.MinInt + 1, math.MaxInt, math.MaxInt - 1, 1 << 40, -1 << 40} {
					rotate(n, spare, by)
				}
			}
		}
		for i := 0; i < 2000; i++ {
			n := r.Rng.Intn(300)
			rotate(n, r.Rng.Intn(2*n+1), r.Rng.Intn(5*n+10)-2*n)
		}
		r.Bound("Rotate: lengths 0 to 9 by -25 to 25 and extremes, 2000 random; 4 amounts of spare capacity")
		for n := 0; n <= 300; n++ {
			for _, spare := range []int{0, 1, 7} {
				r.Case(func() string { return fmt.Sprintf("Reverse, Copy of %d elements, %d spare", n, spare) }, func() {
					s := mk(n, spare)
					c := s.Copy()
					check("Copy", c, n, func(k int) int { return 1000 + k })
					r.True(s.Reverse() == s, "Reverse does not return its receiver")
					check("Reverse", s, n, func(k int) int { return 1000 + n - 1 - k })
					check("Copy after Reverse of the original", c, n, func(k int) int { return 1000 + k })
					for k := range *c {
						(*c)[k] = -k
					}
					*c = append(*c, -1, -2, -3)
					check("original after writes to the copy", s, n, func(k int) int { return 1000 + n - 1 - k })
					*s = append(*s, 5)
					for k := range *s {
						(*s)[k] = 0
					}
					for k := 0; k < n; k++ {
						r.True((*c)[k] == -k, "the copy changed at %d", k)
					}
					for k := 1; k <= 3; k++ {
						r.True((*c)[n+k-1] == -k, "what was appended to the copy changed at %d", n+k-1)
					}
					r.Note(fmt.Sprint("rev", n, spare))
				})
			}
		}
		r.Bound("Reverse, Copy: lengths 0 to 300")
		repeat := func(n, spare, cnt int) {
			r.Case(func() string { return fmt.Sprintf("Repeat(%d) of %d elements, %d spare", cnt, n, spare) }, func() {
				s := mk(n, spare)
				orig := *s
				r.True(s.Repeat(cnt) == s, "Repeat does not return its receiver")
				check("Repeat", s, n*max(cnt, 0), func(k int) int { return 1000 + k%n })
				for k := range *s {
					(*s)[k] = -1
				}
				for k := range orig[:cap(orig)] {
					r.True(orig[:cap(orig)][k] == 1000+k, "the original storage changed at %d", k)
				}
				r.Note(fmt.Sprint("rep", n, spare, cnt))
			})
		}
		for n := 0; n <= 12; n++ {
			for _, spare := range []int{0, 1, 40} {
				for cnt := -2; cnt <= 12; cnt++ {
					repeat(n, spare, cnt)
				}
				repeat(n, spare, math.MinInt)
			}
		}
		for i := 0; i < 500; i++ {
			repeat(r.Rng.Intn(60), r.Rng.Intn(100), r.Rng.Intn(70))
		}
		r.Bound("Repeat: lengths 0 to 12 by counts -2 to 12, 500 random")
		shuffle := func(n, spare int) {
			r.Case(func() string { return fmt.Sprintf("Shuffle of %d elements, %d spare", n, spare) }, func() {
				s := mk(n, spare)
				orig := *s
				r.True(s.Shuffle() == s, "Shuffle does not return its receiver")
				r.Eq("length after Shuffle", len(*s), n)
				seen := map[int]int{}
				for _, v := range *s {
					seen[v]++
				}
				for k := 0; k < n; k++ {
					r.True(seen[1000+k] == 1, "after Shuffle element %d is there %d times", k, seen[1000+k])
				}
				for k := n; k < cap(orig); k++ {
					r.True(orig[:cap(orig)][k] == 1000+k, "Shuffle changed the spare storage at %d", k)
				}
			})
		}
		for i := 0; i < 60; i++ {
			for n := 0; n <= 12; n++ {
				shuffle(n, i%3*4)
			}
			shuffle(r.Rng.Intn(300), r.Rng.Intn(10))
		}
		r.Bound("Shuffle: lengths 0 to 12, 60 times each, 60 random lengths up to 300")
		r.Sizes("Reverse, Rotate, Copy", func(n int) {
			s := mk(n, n/2)
			c := s.Copy()
			s.Reverse()
			check("Reverse", s, n, func(k int) int { return 1000 + n - 1 - k })
			s.Rotate(n/3 + 1)
			check("Rotate", s, n, func(k int) int { return 1000 + n - 1 - (k+n/3+1)%max(n, 1) })
			check("Copy", c, n, func(k int) int { return 1000 + k })
		})
	})
}
