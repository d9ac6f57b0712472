//go:build go1.22

package main

import (
	"fmt"

	"github.com/unsafe-risk/utilx/timex/intersectionx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

// oracle looks at every end of a reading: the least and the greatest point in at least n-f readings are among them.
func oracle(iv []intersectionx.Interval) (lo, hi int64, ok bool) {
	n := len(iv)
	if n == 1 {
		return iv[0].Offset - iv[0].ConfidenceBand, iv[0].Offset + iv[0].ConfidenceBand, true
	}
	in := func(x int64) (c int) {
		for _, i := range iv {
			if i.Offset-i.ConfidenceBand <= x && x <= i.Offset+i.ConfidenceBand {
				c++
			}
		}
		return
	}
	for f := 0; f < n/2; f++ {
		found := false
		for _, i := range iv {
			for _, x := range []int64{i.Offset - i.ConfidenceBand, i.Offset + i.ConfidenceBand} {
				if in(x) < n-f {
					continue
				}
				if !found || x < lo {
					lo = x
				}
				if !found || x > hi {
					hi = x
				}
				found = true
			}
		}
		if !found {
			continue
		}
		out := 0
		for _, i := range iv {
			if i.Offset < lo || i.Offset > hi {
				out++
			}
		}
		if out <= f {
			return lo, hi, true
		}
	}
	return 0, 0, false
}

func main() {
	vr.Run("P22", func(r *vr.R) {
		one := func(iv []intersectionx.Interval) {
			r.Case(func() string { return fmt.Sprintf("Intersection(%v)", iv) }, func() {
				arg := append([]intersectionx.Interval(nil), iv...)
				a, b, ok := intersectionx.Intersection(arg...)
				wa, wb, wok := oracle(iv)
				r.Eq("success", ok, wok)
				if wok {
					r.Eq("the range starts", a, wa)
					r.Eq("the range ends", b, wb)
				}
				for i := range iv {
					r.True(arg[i] == iv[i], "argument %d changed to %v", i, arg[i])
				}
			})
		}
		one(nil)
		r.Bound("all lists of up to 4 readings with offsets 0..4 and bands 0..2, and of up to 2 with offsets -4..4 and bands 0..4")
		var rec func(iv []intersectionx.Interval, n int, from, to, band int64)
		rec = func(iv []intersectionx.Interval, n int, from, to, band int64) {
			if len(iv) > 0 {
				one(iv)
			}
			if len(iv) == n {
				return
			}
			for o := from; o <= to; o++ {
				for c := int64(0); c <= band; c++ {
					rec(append(iv[:len(iv):len(iv)], intersectionx.Interval{Offset: o, ConfidenceBand: c}), n, from, to, band)
				}
			}
		}
		rec(nil, 2, -4, 4, 4)
		rec(nil, 4, 0, 4, 2)
		r.Bound("random lists of up to 40 readings, near one another or spread over 64 bits")
		for k := 0; k < 300000 && r.More(0.9); k++ {
			n := 1 + r.Rng.Intn(9)
			if k%16 == 0 {
				n = 1 + r.Rng.Intn(40)
			}
			iv := make([]intersectionx.Interval, n)
			span := int64(1) << uint(1+r.Rng.Intn(61))
			if k%2 == 0 {
				span = int64(2 + r.Rng.Intn(3*n))
			}
			for i := range iv {
				iv[i].Offset = r.Rng.Int63n(2*span+1) - span
				iv[i].ConfidenceBand = r.Rng.Int63n(span)
			}
			one(iv)
		}
		one([]intersectionx.Interval{{Offset: -1 << 62, ConfidenceBand: 1 << 62}, {Offset: 1<<62 - 1, ConfidenceBand: 1 << 62}})
		one([]intersectionx.Interval{{Offset: -1 << 63}, {Offset: 1<<63 - 1}})
	})
}
