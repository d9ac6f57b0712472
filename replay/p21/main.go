//go:build go1.22

package main

import (
	"fmt"
	"sort"

	"github.com/unsafe-risk/utilx/algox/sortx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

type el struct{ k, tag int }

func brief(s []int) string {
	if len(s) > 60 {
		return fmt.Sprintf("%v... (%d elements)", s[:60], len(s))
	}
	return fmt.Sprint(s)
}

func main() {
	vr.Run("P21", func(r *vr.R) {
		one := func(s []int, spare int) {
			r.Case(func() string { return fmt.Sprintf("sorting %v with %d spare", brief(s), spare) }, func() {
				mk := func() []int {
					b := make([]int, len(s)+spare)
					copy(b, s)
					for i := len(s); i < len(b); i++ {
						b[i] = -1000 - i
					}
					return b[:len(s)]
				}
				up := append([]int{}, s...)
				sort.Ints(up)
				down := make([]int, len(s))
				for i := range down {
					down[i] = up[len(s)-1-i]
				}
				eq := func(what string, got, want []int) {
					for i := range want {
						r.True(got[i] == want[i], "%s: position %d is %d, want %d (%v)", what, i, got[i], want[i], brief(got))
					}
					for i := len(s); i < len(s)+spare; i++ {
						r.True(got[:cap(got)][i] == -1000-i, "%s: writes behind the slice", what)
					}
				}
				for _, t := range []struct {
					name string
					f    func([]int)
					want []int
				}{
					{"Sort(false)", func(x []int) { sortx.Sort(x, false) }, up},
					{"Sort(true)", func(x []int) { sortx.Sort(x, true) }, down},
					{"SortReverse", sortx.SortReverse[int], down},
					{"SortStable", sortx.SortStable[int], up},
					{"SortStableReverse", sortx.SortStableReverse[int], down},
				} {
					x := mk()
					t.f(x)
					eq(t.name, x, t.want)
				}
				asc, desc := true, true
				for i := 1; i < len(s); i++ {
					asc = asc && s[i-1] <= s[i]
					desc = desc && s[i-1] >= s[i]
				}
				x := mk()
				r.Eq("IsSorted", sortx.IsSorted(x), asc)
				r.Eq("IsSortedReverse", sortx.IsSortedReverse(x), desc)
				// custom orders on elements that tell themselves apart: by k/2, so that there are ties
				for dir := -1; dir <= 1; dir += 2 {
					less := func(a, b el) bool { return a.k/2*dir < b.k/2*dir }
					es := make([]el, len(s))
					for i := range es {
						es[i] = el{s[i], i}
					}
					ord := true
					for i := 1; i < len(es); i++ {
						ord = ord && !less(es[i], es[i-1])
					}
					r.Eq("IsSortedCustom", sortx.IsSortedCustom(es, less), ord)
					st := append([]el{}, es...)
					sortx.SortStableCustom(st, less)
					cu := append([]el{}, es...)
					sortx.SortCustom(cu, less)
					for what, y := range map[string][]el{"SortStableCustom": st, "SortCustom": cu} {
						seen := make([]bool, len(y))
						for i := range y {
							r.True(!seen[y[i].tag] && y[i] == es[y[i].tag], "%s: loses or repeats an element", what)
							seen[y[i].tag] = true
							if i > 0 {
								r.True(!less(y[i], y[i-1]), "%s: positions %d and %d out of order: %v", what, i-1, i, y[:min(len(y), 40)])
								if what == "SortStableCustom" && !less(y[i-1], y[i]) {
									r.True(y[i-1].tag < y[i].tag, "SortStableCustom: equal elements %v and %v change places", y[i], y[i-1])
								}
							}
						}
					}
				}
				r.Note(fmt.Sprint(s))
			})
		}
		n := 0
		for l := 0; l <= 6; l++ {
			tot := 1
			for i := 0; i < l; i++ {
				tot *= 4
			}
			for c := 0; c < tot; c++ {
				s := make([]int, l)
				for i, x := 0, c; i < l; i, x = i+1, x/4 {
					s[i] = x % 4
				}
				one(s, c%3)
				n++
			}
		}
		r.Bound("%d slices: every one of up to 6 elements out of four", n)
		m := 0
		for ; m < 3000 && r.More(0.8); m++ {
			s := make([]int, r.Rng.Intn(1+[]int{15, 60, 300, 3000}[r.Rng.Intn(4)]))
			for i := range s {
				switch m % 4 {
				case 0:
					s[i] = r.Rng.Intn(1 << 30)
				case 1:
					s[i] = r.Rng.Intn(8)
				case 2:
					s[i] = i + r.Rng.Intn(4)
				case 3:
					s[i] = len(s) - i/2
				}
			}
			one(s, r.Rng.Intn(3))
		}
		r.Bound("%d random slices of up to 3000 elements: random, few values, nearly sorted, descending", m)
		for q := 0; q < 1000; q++ {
			w := make([]string, r.Rng.Intn(30))
			for i := range w {
				w[i] = fmt.Sprintf("%x", r.Rng.Intn(300))
			}
			r.Case(func() string { return fmt.Sprintf("sorting %q", w) }, func() {
				a := append([]string{}, w...)
				sort.Strings(a)
				b := append([]string{}, w...)
				sortx.Sort(b, false)
				c := append([]string{}, w...)
				sortx.Sort(c, true)
				for i := range a {
					r.True(a[i] == b[i] && a[i] == c[len(a)-1-i], "Sort: position %d: %q ascending, %q descending", i, b[i], c[i])
				}
				r.True(sortx.IsSorted(b) && sortx.IsSortedReverse(c), "IsSorted of a sorted list")
			})
		}
		r.Bound("1000 lists of words")
	})
}
