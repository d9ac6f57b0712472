//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"time"

	"github.com/unsafe-risk/utilx/timex"
	"github.com/unsafe-risk/utilx/timex/truncatex"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

func fdiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

// civil is the date of a day number (0: 1970-01-01), by counting
// whole 400-year cycles and then days.
func civil(day int64) (y int64, m int, d int64) {
	const cycle = 146097
	day += 719162 // days since 0001-01-01
	c := fdiv(day, cycle)
	day -= c * cycle
	y = 1
	for {
		n := int64(365)
		if leap(y) {
			n = 366
		}
		if day < n {
			break
		}
		day -= n
		y++
	}
	lens := []int64{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if leap(y) {
		lens[1] = 29
	}
	for m = 0; day >= lens[m]; m++ {
		day -= lens[m]
	}
	return y + 400*c, m + 1, day
}

func leap(y int64) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

func main() {
	vr.Run("P23", func(r *vr.R) {
		one := func(s int64) {
			r.Case(func() string { return fmt.Sprintf("second %d (%s)", s, time.Unix(s, 0).UTC()) }, func() {
				fl := func(name string, got, k, shift int64) {
					r.True(got <= s && got > s-k && fdiv(got+shift, k)*k == got+shift, "%s: %d is not the last multiple of %d seconds", name, got, k)
				}
				fl("TruncateSec", truncatex.TruncateSec(s), 1, 0)
				fl("TruncateMin", truncatex.TruncateMin(s), 60, 0)
				fl("TruncateHour", truncatex.TruncateHour(s), 3600, 0)
				fl("TruncateDay", truncatex.TruncateDay(s), 86400, 0)
				fl("TruncateWeek", truncatex.TruncateWeek(s), 7*86400, 3*86400)
				day := fdiv(s, 86400)
				y, m, d := civil(day)
				got := truncatex.TruncateMonth(s)
				r.True(got == (day-d)*86400, "TruncateMonth: got %d, want %d (start of %d-%d)", got, (day-d)*86400, y, m)
				got = truncatex.TruncateYear(s)
				fy, fm, fd := civil(fdiv(got, 86400))
				r.True(got <= s && got%86400 == 0 && fy == y && fm == 1 && fd == 0, "TruncateYear: got %d, day %d of month %d of %d, want the start of %d", got, fd+1, fm, fy, y)
				r.Note(fmt.Sprint(s))
			})
		}
		unit := func(s, k int64) {
			r.Case(func() string { return fmt.Sprintf("second %d in units of %d s", s, k) }, func() {
				got := truncatex.Truncate(s, k)
				x := new(big.Int).Add(big.NewInt(s), big.NewInt(62135596800))
				w := new(big.Int).Mod(x, big.NewInt(k))
				want := new(big.Int).Sub(big.NewInt(s), w).Int64()
				r.True(got == want, "Truncate: got %d, want %d", got, want)
			})
		}
		custom := func(s, n int64) {
			r.Case(func() string { return fmt.Sprintf("Custom(%d, %d)", s, n) }, func() {
				t := timex.Custom(s, n)
				c := fdiv(n, 1000000000)
				r.True(t.Unix() == s+c && int64(t.Nanosecond()) == n-c*1000000000, "is second %d, nanosecond %d", t.Unix(), t.Nanosecond())
				r.True(t.Location() == time.UTC, "is not in UTC but in %s", t.Location())
			})
		}
		// a local zone that is not UTC must not matter
		time.Local = time.FixedZone("elsewhere", 5*3600+1800)
		edges := []int64{0, -1, 1, 59, 60, 61, -59, -60, -61, 3599, 3600, 86399, 86400, -86400, -86401, -62135596800, -62135596801, -62135596799, 253402300799, 253402300800,
			951782399, 951782400, 951868799, 951868800, 4107542399, 4107542400, -2203891200, -2203891201, 1 << 31, 1<<31 - 1, -1 << 31, 1 << 40, -1 << 40}
		n := 0
		for _, e := range edges {
			for d := int64(-2); d <= 2; d++ {
				one(e + d)
				n++
			}
		}
		// the seams of every month of 800 years, and of every week of ten
		for y := 1600; y < 2400; y++ {
			for m := 1; m <= 12; m++ {
				e := time.Date(y, time.Month(m), 1, 0, 0, 0, 0, time.UTC).Unix()
				one(e)
				one(e - 1)
				n += 2
			}
		}
		for d := int64(-3650); d < 3650; d++ {
			one(d * 86400)
			one(d*86400 - 1)
			n += 2
		}
		r.Bound("%d seconds at the seams of months, weeks and days", n)
		k := 0
		for ; k < 200000 && r.More(0.6); k++ {
			sh := uint(r.Rng.Intn(40))
			s := r.Rng.Int63()>>(sh+3) - r.Rng.Int63()>>(sh+3)
			one(s)
		}
		r.Bound("%d random seconds up to 2^60 away from 1970", k)
		for i := 0; i < 50000; i++ {
			s := r.Rng.Int63()>>uint(3+r.Rng.Intn(40)) - r.Rng.Int63()>>uint(3+r.Rng.Intn(40))
			u := 1 + r.Rng.Int63n(1<<uint(1+r.Rng.Intn(33)))
			if u > 9223372036 {
				u = 9223372036
			}
			unit(s, u)
			custom(s, r.Rng.Int63()-r.Rng.Int63())
			custom(s, r.Rng.Int63n(3000000000)-1000000000)
		}
		r.Bound("50000 random seconds with random units up to 9223372036 s")
	})
}
