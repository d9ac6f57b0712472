//go:build go1.22

package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/unsafe-risk/utilx/syncx/syncpoolx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

type item struct {
	no   int
	used atomic.Bool
	pad  [4]int
}

func main() {
	vr.Run("P38", func(r *vr.R) {
		// one goroutine: every history of three operations (get, put the oldest held, put the newest held, collect), then random ones
		run := func(ops []int) {
			var p syncpoolx.Pool[item]
			made := 0
			var all []*item
			p.Init(func() *item {
				x := &item{no: made}
				made++
				all = append(all, x)
				return x
			})
			r.True(made == 0, "Init calls New")
			var held []*item
			in := map[*item]bool{}
			for _, op := range ops {
				switch {
				case op == 0:
					before := made
					x := p.Get()
					r.True(x != nil, "Get returned nil")
					for _, h := range held {
						r.True(h != x, "item %d is handed out twice", x.no)
					}
					if made == before {
						r.True(in[x], "Get returned item %d, which was not put in", x.no)
					} else {
						r.True(made == before+1, "Get called New %d times", made-before)
						r.True(all[before] == x, "Get made item %d and returned item %d", before, x.no)
					}
					delete(in, x)
					held = append(held, x)
				case op == 3:
					runtime.GC()
				case len(held) > 0:
					i := 0
					if op == 2 {
						i = len(held) - 1
					}
					x := held[i]
					held = append(held[:i:i], held[i+1:]...)
					before := made
					p.Put(x)
					in[x] = true
					r.True(made == before, "Put called New")
				}
			}
		}
		for n := 1; n <= 4; n++ {
			total := 1
			for i := 0; i < n; i++ {
				total *= 4
			}
			for c := 0; c < total; c++ {
				ops := make([]int, n)
				for i, k := 0, c; i < n; i, k = i+1, k/4 {
					ops[i] = k % 4
				}
				r.Case(func() string {
					return fmt.Sprintf("history %v (0 get, 1 put oldest, 2 put newest, 3 garbage collection)", ops)
				}, func() { run(ops) })
			}
		}
		r.Bound("all histories of up to 4 operations of one goroutine")
		for r.More(0.05) {
			ops := make([]int, 20+r.Rng.Intn(300))
			for i := range ops {
				ops[i] = r.Rng.Intn(3)
			}
			if r.Rng.Intn(10) == 0 {
				ops[r.Rng.Intn(len(ops))] = 3
			}
			r.Case(func() string { return fmt.Sprintf("history %v", ops) }, func() { run(ops) })
		}
		r.Bound("random histories of up to 320 operations")
		// two pools do not share items or New functions
		r.Case(func() string { return "two pools" }, func() {
			var a, b syncpoolx.Pool[item]
			na, nb := 0, 0
			a.Init(func() *item { na++; return &item{no: 1} })
			b.Init(func() *item { nb++; return &item{no: 2} })
			for i := 0; i < 50; i++ {
				x, y := a.Get(), b.Get()
				r.Eq("item of the first", x.no, 1)
				r.Eq("item of the second", y.no, 2)
				a.Put(x)
				b.Put(y)
			}
			r.True(na > 0 && nb > 0, "New not called")
		})
		for r.More(0.12) {
			gs, each := 2+r.Rng.Intn(7), 20+r.Rng.Intn(400)
			keep := 1 + r.Rng.Intn(5)
			r.Case(func() string {
				return fmt.Sprintf("%d goroutines, %d times each, up to %d items held", gs, each, keep)
			}, func() {
				var p syncpoolx.Pool[item]
				p.Init(func() *item { return &item{} })
				var wg sync.WaitGroup
				var bad atomic.Int32
				for g := 0; g < gs; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						var held []*item
						for i := 0; i < each; i++ {
							x := p.Get()
							if x == nil || !x.used.CompareAndSwap(false, true) {
								bad.Add(1)
								return
							}
							x.pad[i%4]++
							if held = append(held, x); len(held) >= keep {
								y := held[0]
								held = held[1:]
								y.used.Store(false)
								p.Put(y)
							}
						}
					}()
				}
				wg.Wait()
				r.True(bad.Load() == 0, "an item was held by two goroutines at once")
			})
		}
		r.Bound("up to 8 goroutines, up to 420 items each")
	})
}
