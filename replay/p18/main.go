//go:build go1.22

package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/unsafe-risk/utilx/functionalx/lazyx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

type big struct {
	a, b, c, d int64
	p          *int
}

func check[T comparable](r *vr.R, name string, goroutines, gets, yields int, mk func(k int64) T) {
	r.Case(func() string {
		return fmt.Sprintf("Lazy[%s]: %d goroutines, %d gets each, constructor yields %d times", name, goroutines, gets, yields)
	}, func() {
		var calls, done atomic.Int64
		l := lazyx.New(func() T {
			k := calls.Add(1)
			for i := 0; i < yields; i++ {
				runtime.Gosched()
			}
			if yields > 20 {
				time.Sleep(50 * time.Microsecond)
			}
			v := mk(k)
			done.Add(1)
			return v
		})
		r.Eq("calls before the first Get", calls.Load(), int64(0))
		want := mk(1)
		var wg sync.WaitGroup
		bad := make([]string, goroutines)
		start := make(chan struct{})
		for g := 0; g < goroutines; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < gets; i++ {
					v := l.Get()
					if done.Load() != 1 {
						bad[g] = "Get returned before the constructor finished, or after a second call"
					}
					if v != want {
						bad[g] = fmt.Sprintf("goroutine %d, get %d: got %v, want %v", g, i, v, want)
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		for _, b := range bad {
			r.True(b == "", "%s", b)
		}
		r.True(l.Get() == want, "a later Get: got %v, want %v", l.Get(), want)
		r.Eq("constructor calls", calls.Load(), int64(1))
		r.Note(fmt.Sprint(name, goroutines, gets, yields))
	})
}

func main() {
	vr.Run("P18", func(r *vr.R) {
		x := 1
		n := 0
		for round := 0; round < 400 && r.More(0.8); round++ {
			for _, g := range []int{1, 2, 3, 8} {
				for _, y := range []int{0, 1, 5, 50} {
					check(r, "int64", g, 1+round%3, y, func(k int64) int64 { return 100 + k })
					check(r, "zero value", g, 1+round%3, y, func(k int64) int64 { return k - 1 })
					check(r, "struct", g, 1+round%3, y, func(k int64) big { return big{k, k, k, k, &x} })
					check(r, "any", g, 1+round%3, y, func(k int64) any {
						if k == 1 {
							return nil
						}
						return k
					})
					check(r, "string", g, 1+round%3, y, func(k int64) string { return fmt.Sprint(k) })
					n += 5
				}
			}
		}
		r.Bound("%d runs of 1, 2, 3 or 8 goroutines with up to 3 gets each, under the race detector", n)
		// independent values
		r.Case(func() string { return "two lazy values" }, func() {
			a, b := 0, 0
			l := lazyx.New(func() int { a++; return 10 * a })
			m := lazyx.New(func() int { b++; return -b })
			r.Eq("values", []int{l.Get(), m.Get(), l.Get(), m.Get()}, []int{10, -1, 10, -1})
			r.Eq("calls", []int{a, b}, []int{1, 1})
		})
	})
}
