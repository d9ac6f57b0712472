//go:build go1.22

package main

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

// eventually waits until f holds; a minute is far beyond any delay of a working pool.
func eventually(r *vr.R, f func() bool, format string, a ...any) {
	for end := time.Now().Add(20 * time.Second); ; {
		if f() {
			return
		}
		if time.Now().After(end) {
			r.Failf(format, a...)
		}
		time.Sleep(200 * time.Microsecond)
	}
}

// goid is the number of the running goroutine.
func goid() (n int64) {
	b := make([]byte, 64)
	fmt.Sscanf(string(b[:runtime.Stack(b, false)]), "goroutine %d ", &n)
	return n
}

// waits tells whether a goroutine is seen to wait for a value, within five seconds.
func waits(id int64) bool {
	b := make([]byte, 1<<20)
	for end := time.Now().Add(5 * time.Second); time.Now().Before(end); time.Sleep(200 * time.Microsecond) {
		all := string(b[:runtime.Stack(b, true)])
		if strings.Contains(all, fmt.Sprintf("goroutine %d [chan receive", id)) || strings.Contains(all, fmt.Sprintf("goroutine %d [select", id)) {
			return true
		}
	}
	return false
}

func main() {
	vr.Run("P32", func(r *vr.R) {
		// making a pool
		h := func(int) {}
		for _, max := range []int64{-1 << 63, -2, -1, 0, 1, 2, 5} {
			for _, handler := range []func(int){nil, h} {
				for _, idle := range []time.Duration{-time.Hour, -1, 0, 1, time.Hour} {
					for _, gc := range []time.Duration{-time.Hour, -1, 0, time.Millisecond, time.Hour} {
						for _, pre := range []int{-3, 0, 1, 2, 4, 7} {
							if max > 0 && handler != nil && idle == 1 && gc > 0 && gc < time.Second {
								continue // the workers may be gone again at once
							}
							r.Case(func() string {
								return fmt.Sprintf("NewTimedPool(%d, nil=%v, %v, %v, %d)", max, handler == nil, idle, gc, pre)
							}, func() {
								var want error
								switch {
								case max <= 0:
									want = gopoolx.ErrInvalidMaxWorkers
								case handler == nil:
									want = gopoolx.ErrInvalidHandler
								case idle <= 0:
									want = gopoolx.ErrInvalidIdleTimeout
								case gc <= 0:
									want = gopoolx.ErrInvalidGCPeriod
								}
								p, err := gopoolx.NewTimedPool(max, handler, idle, gc, pre)
								r.Eq("error", err, want)
								if err != nil {
									r.True(p == nil, "a pool along with an error")
									return
								}
								n := int64(pre)
								if n < 0 {
									n = 0
								}
								if n > max {
									n = max
								}
								r.Eq("Workers", p.Workers(), n)
								p.Stop()
								eventually(r, func() bool { return p.Workers() == 0 }, "%d workers left after Stop", p.Workers())
								eventually(r, func() bool { return !p.Run(1) }, "a stopped pool accepts values")
								p.Stop()
							})
						}
					}
				}
			}
		}
		r.Bound("making a pool: 7 maxima, with and without handler, 5 timeouts, 5 periods, 6 numbers of workers to start with")
		// filling up: the handlers wait
		for max := int64(1); max <= 5; max++ {
			for pre := 0; pre <= 6; pre++ {
				for first := int64(0); first <= max; first++ {
					r.Case(func() string { return fmt.Sprintf("max %d, preheat %d, %d values first", max, pre, first) }, func() {
						var mu sync.Mutex
						ran := map[int]int{}
						var running atomic.Int64
						gate := make(chan struct{})
						p, err := gopoolx.NewTimedPool(max, func(v int) {
							running.Add(1)
							<-gate
							mu.Lock()
							ran[v]++
							mu.Unlock()
							running.Add(-1)
						}, time.Hour, time.Hour, pre)
						r.True(err == nil, "NewTimedPool: %v", err)
						n := 0
						for ; int64(n) < first; n++ {
							r.True(p.Run(n), "value %d refused by a pool of %d", n, max)
						}
						for i := int64(0); i < first; i++ {
							gate <- struct{}{}
						}
						done := func() bool {
							mu.Lock()
							defer mu.Unlock()
							return len(ran) == n
						}
						eventually(r, done, "values accepted but not handled")
						eventually(r, func() bool { return running.Load() == 0 }, "workers busy")
						// every worker may still be on its way to wait again: submitting succeeds eventually
						for k := int64(0); k < max; k++ {
							v := n
							eventually(r, func() bool { return p.Run(v) }, "value %d refused by a pool of %d with %d busy", v, max, k)
							n++
						}
						r.True(!p.Run(-1), "a pool of %d accepted one value more while all were busy", max)
						r.Eq("Workers", p.Workers(), max)
						close(gate)
						eventually(r, done, "values accepted but not handled")
						p.Stop()
						eventually(r, func() bool { return p.Workers() == 0 }, "workers left after Stop")
						r.True(!p.Run(-2), "a stopped pool accepted a value")
						mu.Lock()
						defer mu.Unlock()
						for v := 0; v < n; v++ {
							r.True(ran[v] == 1, "value %d handled %d times", v, ran[v])
						}
						r.Eq("values handled", len(ran), n)
					})
				}
			}
		}
		r.Bound("filling a pool up: up to 5 workers, 0 to 6 started before, each number of values first")
		// workers that have waited for less than the timeout stay
		for _, max := range []int64{1, 3, 5} {
			r.Case(func() string {
				return fmt.Sprintf("%d waiting workers, timeout an hour, collected every 200us for 30 ms", max)
			}, func() {
				p, err := gopoolx.NewTimedPool(max, func(int) {}, time.Hour, 200*time.Microsecond, int(max))
				if err != nil {
					r.Failf("NewTimedPool failed: %v", err)
				}
				for i := 0; i < 30; i++ {
					r.Eq("Workers", p.Workers(), max)
					time.Sleep(time.Millisecond)
				}
				p.Stop()
			})
		}
		r.Bound("workers that wait for less than the timeout: 1, 3 and 5 of them for 30 ms")
		// the one that began waiting last gets the next value
		for i := 0; i < 12; i++ {
			n := 2 + i%3
			order := r.Rng.Perm(n)
			r.Case(func() string {
				return fmt.Sprintf("%d workers that begin waiting one after another, in the order %v; then single values", n, order)
			}, func() {
				gate := make([]chan struct{}, n)
				for k := range gate {
					gate[k] = make(chan struct{})
				}
				never := make(chan struct{})
				began := make(chan int64)
				var done atomic.Int64
				p, err := gopoolx.NewTimedPool(int64(n), func(v int) {
					began <- goid()
					if v < n {
						select {
						case <-gate[v]:
						case <-never:
						}
					}
					done.Add(1)
				}, time.Hour, time.Hour, 0)
				if err != nil {
					r.Failf("NewTimedPool failed: %v", err)
				}
				ids := make([]int64, n)
				for k := range ids {
					r.True(p.Run(k), "value %d of %d is refused", k, n)
					ids[k] = <-began
				}
				last, fine := int64(0), true
				for k, v := range order {
					gate[v] <- struct{}{}
					eventually(r, func() bool { return done.Load() == int64(k+1) }, "a value is not handled")
					last = ids[v]
					fine = fine && waits(last)
				}
				for k := 0; k < 3; k++ {
					r.True(p.Run(n), "a pool with waiting workers refuses a value")
					got := <-began
					r.True(!fine || got == last, "the value went to another worker than the one that began waiting last")
					eventually(r, func() bool { return done.Load() == int64(n+k+1) }, "a value is not handled")
					fine = fine && waits(got)
				}
				p.Stop()
			})
		}
		r.Bound("which waiting worker gets a value: 2 to 4 workers, 12 orders")
		// many submitters, collector at work
		round := 0
		for r.More(0.35) {
			round++
			max := int64(1 + r.Rng.Intn(6))
			pre := r.Rng.Intn(8)
			subs := 1 + r.Rng.Intn(6)
			each := 1 + r.Rng.Intn(400)
			idle := time.Duration(1 + r.Rng.Intn(300000))
			gc := time.Duration(1000 + r.Rng.Intn(300000))
			nap := r.Rng.Intn(3)
			stopEarly := r.Rng.Intn(3) == 0
			r.Case(func() string {
				return fmt.Sprintf("max %d, preheat %d, idle %v, period %v, %d submitters of %d values, nap %d, stopped while submitting %v", max, pre, idle, gc, subs, each, nap, stopEarly)
			}, func() {
				counts := make([]atomic.Int32, subs*each)
				var running, total atomic.Int64
				over := atomic.Bool{}
				p, err := gopoolx.NewTimedPool(max, func(v int) {
					if running.Add(1) > max {
						over.Store(true)
					}
					if nap == 1 || nap == 2 && v%7 == 0 {
						time.Sleep(time.Duration(v%50) * time.Microsecond)
					}
					counts[v].Add(1)
					total.Add(1)
					running.Add(-1)
				}, idle, gc, pre)
				r.True(err == nil, "NewTimedPool: %v", err)
				accepted := make([]bool, subs*each)
				var n atomic.Int64
				var wg sync.WaitGroup
				for s := 0; s < subs; s++ {
					wg.Add(1)
					go func(s int) {
						defer wg.Done()
						for i := 0; i < each; i++ {
							if i%64 == 63 {
								time.Sleep(time.Duration(i) * time.Microsecond)
							}
							v := s*each + i
							if p.Run(v) {
								accepted[v] = true
								n.Add(1)
							}
							if p.Workers() > max {
								over.Store(true)
							}
						}
					}(s)
				}
				if stopEarly {
					p.Stop()
				}
				wg.Wait()
				eventually(r, func() bool { return total.Load() >= n.Load() }, "%d values accepted, %d handled", n.Load(), total.Load())
				if !stopEarly {
					eventually(r, func() bool { return p.Workers() == 0 }, "idle workers are not collected")
					eventually(r, func() bool { return p.Run(0) }, "an idle pool refuses a value")
					counts[0].Add(-1)
					n.Add(1)
					p.Stop()
				}
				eventually(r, func() bool {
					if !p.Run(0) {
						return true
					}
					counts[0].Add(-1)
					n.Add(1)
					return false
				}, "a stopped pool accepts values")
				eventually(r, func() bool { return total.Load() == n.Load() }, "%d values accepted, %d handled", n.Load(), total.Load())
				eventually(r, func() bool { return p.Workers() == 0 }, "workers left after Stop")
				r.True(!over.Load(), "more than %d workers", max)
				for v := range counts {
					want := int32(0)
					if accepted[v] {
						want = 1
					}
					r.True(counts[v].Load() == want, "value %d handled %d times, accepted %v", v, counts[v].Load(), accepted[v])
				}
			})
		}
		r.Bound("%d random pools used by up to 6 goroutines while the collector runs", round)
	})
}
