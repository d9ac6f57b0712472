//go:build go1.22

package main

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/unsafe-risk/utilx/timex/sleepx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

const long = 20 * time.Second

func main() {
	vr.Run("P35", func(r *vr.R) {
		ways := []struct {
			name string
			f    func(s *sleepx.Sleeper) bool
		}{
			{"SleepForever", func(s *sleepx.Sleeper) bool { return s.SleepForever() }},
			{"SleepFor(100000)", func(s *sleepx.Sleeper) bool { return s.SleepFor(100000) }},
			{"SleepUntil(in a day)", func(s *sleepx.Sleeper) bool { return s.SleepUntil(time.Now().Add(24 * time.Hour)) }},
			{"SleepUntil(in a day, wall clock)", func(s *sleepx.Sleeper) bool { return s.SleepUntil(time.Now().Round(0).Add(24 * time.Hour)) }},
		}
		asleep := func(s *sleepx.Sleeper, f func(*sleepx.Sleeper) bool) chan bool {
			done := make(chan bool, 1)
			go func() { done <- f(s) }()
			return done
		}
		awake := func(done chan bool, what string) {
			select {
			case ok := <-done:
				r.True(ok, "%s reported that it did not sleep", what)
			case <-time.After(long):
				r.Failf("%s still sleeps after a wakeup", what)
			}
		}
		// histories: a number of sleeps one after another, each woken once
		rounds := 0
		for r.More(0.2) {
			s := sleepx.New()
			n := 1 + r.Rng.Intn(5)
			var hist []int
			for i := 0; i < n; i++ {
				hist = append(hist, r.Rng.Intn(len(ways)))
			}
			r.Case(func() string { return fmt.Sprintf("sleeps %v of one sleeper, each woken once", hist) }, func() {
				r.True(!s.Wakeup(), "Wakeup woke a sleeper that does not sleep")
				for _, w := range hist {
					done := asleep(s, ways[w].f)
					for end := time.Now().Add(long); !s.Wakeup(); {
						if time.Now().After(end) {
							r.Failf("%s never begins to sleep", ways[w].name)
						}
					}
					awake(done, ways[w].name)
				}
				r.True(!s.Wakeup(), "Wakeup woke a sleeper that does not sleep any more")
			})
			rounds++
		}
		r.Bound("%d random histories of up to 5 sleeps, each woken once", rounds)
		// only one sleeps at a time
		for i := 0; i < 200; i++ {
			r.Case(func() string { return fmt.Sprintf("eight goroutines sleep at once, round %d", i) }, func() {
				s := sleepx.New()
				var yes, no atomic.Int32
				var wg sync.WaitGroup
				for g := 0; g < 8; g++ {
					wg.Add(1)
					go func(g int) {
						defer wg.Done()
						if ways[g%len(ways)].f(s) {
							yes.Add(1)
						} else {
							no.Add(1)
						}
					}(g)
				}
				for end := time.Now().Add(long); no.Load() < 7; time.Sleep(20 * time.Microsecond) {
					if yes.Load() != 0 {
						r.Failf("a sleep ended without a wakeup")
					}
					if time.Now().After(end) {
						r.Failf("%d of 8 goroutines were refused, one may sleep", no.Load())
					}
				}
				r.True(s.Wakeup(), "Wakeup woke nobody")
				wg.Wait()
				r.Eq("sleepers", yes.Load(), int32(1))
			})
		}
		r.Bound("200 rounds of eight goroutines trying to sleep at once")
		// concurrent wakeups
		for i := 0; i < 200; i++ {
			r.Case(func() string { return fmt.Sprintf("three goroutines wake, one sleeps 20 times, round %d", i) }, func() {
				s := sleepx.New()
				var stop atomic.Bool
				var wg sync.WaitGroup
				for g := 0; g < 3; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for !stop.Load() {
							s.Wakeup()
						}
					}()
				}
				for k := 0; k < 20; k++ {
					awake(asleep(s, ways[k%len(ways)].f), ways[k%len(ways)].name)
				}
				stop.Store(true)
				wg.Wait()
			})
		}
		r.Bound("200 rounds of three goroutines waking one that sleeps 20 times")
		// time passes
		timed := func(what string, least time.Duration, f func(s *sleepx.Sleeper) bool) {
			r.Case(func() string { return what }, func() {
				t0 := time.Now()
				awake(asleep(sleepx.New(), f), what)
				d := time.Since(t0)
				r.True(d >= least, "%s took only %v", what, d)
			})
		}
		for _, d := range []time.Duration{-1 << 33, -5, -1, 0} {
			timed(fmt.Sprintf("SleepFor(%d)", int64(d)), 0, func(s *sleepx.Sleeper) bool { return s.SleepFor(d) })
		}
		timed("SleepFor(1)", time.Second, func(s *sleepx.Sleeper) bool { return s.SleepFor(1) })
		for _, d := range []time.Duration{-time.Hour, -1, 0, 1, time.Millisecond, 30 * time.Millisecond, 200 * time.Millisecond} {
			timed(fmt.Sprintf("SleepUntil(now + %v)", d), d, func(s *sleepx.Sleeper) bool { return s.SleepUntil(time.Now().Add(d)) })
		}
		timed("SleepUntil(zero time)", 0, func(s *sleepx.Sleeper) bool { return s.SleepUntil(time.Time{}) })
		r.Bound("sleeps of -8589934592, -5, -1, 0 and 1 seconds, and until 8 times between an hour ago and in 200ms")
	})
}
