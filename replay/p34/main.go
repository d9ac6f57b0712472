//go:build go1.22

package main

import (
	"fmt"
	"time"

	"github.com/unsafe-risk/utilx/timex"
	"github.com/unsafe-risk/utilx/timex/diffx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

func main() {
	vr.Run("P34", func(r *vr.R) {
		time.Local = time.FixedZone("elsewhere", 5*3600+1800)
		within := func(what string, t, lo, hi time.Time) {
			r.True(t.Location() == time.UTC, "%s is not in UTC but in %s", what, t.Location())
			r.True(!t.Before(lo) && !t.After(hi), "%s is %v, which is not between %v and %v", what, t, lo, hi)
			// compared on the wall clock too, the monotonic reading stripped
			r.True(!t.Round(0).Before(lo.Round(0).Add(-time.Second)) && !t.Round(0).After(hi.Round(0).Add(time.Second)), "%s is %v, which is not between %v and %v", what, t, lo, hi)
		}
		for i := 0; i < 2000; i++ {
			r.Case(func() string { return "Now" }, func() {
				lo := time.Now()
				t := timex.Now()
				within("Now", t, lo, time.Now())
			})
		}
		n := 0
		for ; n < 3000 && r.More(0.5); n++ {
			hist := []string{}
			r.Case(func() string { return fmt.Sprintf("history %v", hist) }, func() {
				d := diffx.New()
				e := diffx.New()
				var ds, de, es, ee time.Time
				for k, l := 0, 1+r.Rng.Intn(8); k < l; k++ {
					x, s, f, nm := d, &ds, &de, "a"
					if r.Rng.Intn(2) == 0 {
						x, s, f, nm = e, &es, &ee, "b"
					}
					lo := time.Now()
					if r.Rng.Intn(2) == 0 {
						hist = append(hist, nm+".Start")
						x.Start()
						*s = x.GetStart()
						within("the start", *s, lo, time.Now())
					} else {
						hist = append(hist, nm+".End")
						x.End()
						*f = x.GetEnd()
						within("the end", *f, lo, time.Now())
					}
					if r.Rng.Intn(8) == 0 {
						time.Sleep(time.Duration(r.Rng.Intn(200)) * time.Microsecond)
					}
					r.True(d.GetStart() == ds && d.GetEnd() == de && e.GetStart() == es && e.GetEnd() == ee, "a start or end is not the latest reading")
					r.True(d.GetDiff() == de.Sub(ds), "a: the difference is %v, want %v", d.GetDiff(), de.Sub(ds))
					r.True(e.GetDiff() == ee.Sub(es), "b: the difference is %v, want %v", e.GetDiff(), ee.Sub(es))
				}
				r.Note(fmt.Sprint(hist))
			})
		}
		r.Bound("%d random histories of up to 8 calls on two timers", n)
	})
}
