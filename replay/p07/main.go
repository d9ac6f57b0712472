//go:build go1.22

package main

import (
	"math"

	"github.com/unsafe-risk/utilx/dsx/slicex/listx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

func main() {
	vr.Run("P07", func(r *vr.R) {
		ext := []int{math.MinInt, math.MaxInt, -1, 1000}
		ops := []vr.Op{{Name: "Append"}, {Name: "Insert", Small: []int{0, 1, 2, 3}, Wide: vr.Range(0, 20)},
			{Name: "Remove", Small: []int{-1, 0, 1, 2}, Wide: vr.Range(0, 14, ext...)}}
		ctr := 0
		mk := func() func(vr.Step) {
			l := new(listx.List[string])
			var want []string
			return func(s vr.Step) {
				ctr++
				v := vr.Tok(ctr)
				n := len(want)
				switch s.Op {
				case "Append":
					l.Append(v)
					want = append(want, v)
				case "Insert":
					if s.Arg > n {
						return
					}
					l.Insert(s.Arg, v)
					want = append(want[:s.Arg:s.Arg], append([]string{v}, want[s.Arg:]...)...)
				case "Remove":
					v, ok := l.Remove(s.Arg)
					in := s.Arg >= 0 && s.Arg < n
					r.Eq("Remove ok", ok, in)
					if in {
						r.Eq("Remove value", v, want[s.Arg])
						want = append(want[:s.Arg:s.Arg], want[s.Arg+1:]...)
					} else {
						r.Eq("Remove value when refused", v, "")
					}
				}
				n = len(want)
				r.Eq("Len", l.Len(), n)
				r.True(l.Cap() >= n, "Cap %d below Len %d", l.Cap(), n)
				var got []string
				l.Iterate(func(x string) bool {
					got = append(got, x)
					r.True(len(got) <= n, "Iterate visits more than %d elements", n)
					return true
				})
				r.Eq("elements", len(got), n)
				for i := range got {
					r.Eq("element by Iterate", got[i], want[i])
				}
				if ctr%4 == 0 {
					for stop := 1; stop <= n; stop++ {
						k := 0
						l.Iterate(func(x string) bool { k++; return k < stop })
						r.Eq("visits when the callback stops", k, stop)
					}
				}
				for _, i := range []int{-1, 0, n / 2, n - 1, n, n + 1, math.MinInt, math.MaxInt} {
					v, ok := l.At(i)
					r.Eq("At ok", ok, i >= 0 && i < n)
					if ok {
						r.Eq("At value", v, want[i])
					} else {
						r.Eq("At value when refused", v, "")
					}
				}
			}
		}
		r.Histories("one list", mk, ops, 6, 0.8, 120)
		r.Sizes("append, remove", func(n int) {
			l := new(listx.List[int])
			for i := 0; i < n; i++ {
				l.Append(i)
			}
			r.Eq("Len", l.Len(), n)
			for i := 0; i < n; i += 1 + n/100 {
				v, ok := l.At(i)
				r.True(ok && v == i, "At(%d) of %d: %v %v", i, n, v, ok)
			}
			for k := 0; k < 3 && k < n; k++ {
				i := r.Rng.Intn(l.Len())
				a, _ := l.At(i)
				v, ok := l.Remove(i)
				r.True(ok && v == a, "Remove(%d): %v %v, At said %v", i, v, ok, a)
				l.Insert(i, v)
				b, ok := l.At(i)
				r.True(ok && b == a, "Insert back at %d", i)
			}
			for i := 0; i < n; i += 1 + n/100 {
				v, ok := l.At(i)
				r.True(ok && v == i, "At(%d) of %d: %v %v", i, n, v, ok)
			}
		})
	})
}
