//go:build go1.22

package main

import (
	"fmt"
	"sort"

	"github.com/unsafe-risk/utilx/algox/searchx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

type pair struct{ k, tag int }

func main() {
	vr.Run("P20", func(r *vr.R) {
		one := func(s []int, x int) {
			r.Case(func() string { return fmt.Sprintf("search for %d in %v", x, brief(s)) }, func() {
				want := 0
				for want < len(s) && s[want] < x {
					want++
				}
				in := want < len(s) && s[want] == x
				c := append([]int{}, s...)
				i, ok := searchx.Search(c, x)
				r.True(i == want && ok == in, "Search: got %d, %v, want %d, %v", i, ok, want, in)
				ps := make([]pair, len(s))
				for k := range ps {
					ps[k] = pair{s[k], k}
				}
				target := pair{x, -1}
				calls := 0
				cmp := func(a, b pair) int {
					calls++
					r.True(b == target && a.tag >= 0, "SearchCustom compares %v with %v", a, b)
					return (a.k - b.k) * 3
				}
				i, ok = searchx.SearchCustom(ps, target, cmp)
				r.True(i == want && ok == in, "SearchCustom: got %d, %v, want %d, %v", i, ok, want, in)
				r.True(calls <= 66, "SearchCustom: %d comparisons for %d elements", calls, len(s))
				// descending, by the comparison
				rev := make([]pair, len(s))
				for k := range rev {
					rev[k] = ps[len(s)-1-k]
				}
				want = 0
				for want < len(rev) && rev[want].k > x {
					want++
				}
				in = want < len(rev) && rev[want].k == x
				i, ok = searchx.SearchCustom(rev, target, func(a, b pair) int { return b.k - a.k })
				r.True(i == want && ok == in, "SearchCustom, descending: got %d, %v, want %d, %v", i, ok, want, in)
				for k := range s {
					r.True(c[k] == s[k] && ps[k] == pair{s[k], k}, "the search changes element %d", k)
				}
				r.Note(fmt.Sprint(s, x))
			})
		}
		n := 0
		top := 8
		if r.Thorough {
			top = 10
		}
		for l := 0; l <= top; l++ {
			// every non-decreasing sequence given by its steps 0, 1, 2
			tot := 1
			for i := 1; i < l; i++ {
				tot *= 3
			}
			for c := 0; c < tot && r.More(0.5); c++ {
				s := make([]int, l)
				for i, x := 1, c; i < l; i, x = i+1, x/3 {
					s[i] = s[i-1] + x%3
				}
				last := 0
				if l > 0 {
					last = s[l-1]
				}
				for x := -1; x <= last+1; x++ {
					one(s, x)
					n++
				}
			}
		}
		r.Bound("%d searches of every non-decreasing sequence of up to %d elements with steps 0, 1, 2", n, top)
		m := 0
		for ; m < 4000 && r.More(0.8); m++ {
			s := make([]int, r.Rng.Intn(300))
			for i := range s {
				s[i] = r.Rng.Intn(1 + r.Rng.Intn(400))
			}
			sort.Ints(s)
			one(s, r.Rng.Intn(402)-1)
		}
		r.Bound("%d random sorted slices of up to 300 elements", m)
		k := 0
		for ; k < 3000; k++ {
			words := make([]string, r.Rng.Intn(40))
			for i := range words {
				words[i] = fmt.Sprintf("%x", r.Rng.Intn(600))
			}
			sort.Strings(words)
			x := fmt.Sprintf("%x", r.Rng.Intn(600))
			r.Case(func() string { return fmt.Sprintf("search for %q in %q", x, words) }, func() {
				want := sort.SearchStrings(words, x)
				i, ok := searchx.Search(words, x)
				r.True(i == want && ok == (want < len(words) && words[want] == x), "Search: got %d, %v, want index %d", i, ok, want)
			})
		}
		r.Bound("%d random sorted lists of words", k)
		// an unsorted slice: no promise but a boundary, and no panic
		for q := 0; q < 3000; q++ {
			s := make([]int, r.Rng.Intn(12))
			for i := range s {
				s[i] = r.Rng.Intn(6)
			}
			x := r.Rng.Intn(6)
			r.Case(func() string { return fmt.Sprintf("search for %d in unsorted %v", x, s) }, func() {
				i, ok := searchx.Search(s, x)
				r.True(0 <= i && i <= len(s), "index %d", i)
				r.True(ok == (i < len(s) && s[i] == x), "got %d, %v", i, ok)
			})
		}
		r.Bound("3000 unsorted slices")
	})
}

func brief(s []int) string {
	if len(s) > 60 {
		return fmt.Sprintf("%v... (%d elements)", s[:60], len(s))
	}
	return fmt.Sprint(s)
}
