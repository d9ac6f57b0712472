//go:build go1.22

package main

import (
	"fmt"

	"github.com/unsafe-risk/utilx/configx/optionalx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

func main() {
	vr.Run("P19", func(r *vr.R) {
		// behaviours of a step: keep the given pointer, make a new one, return nil
		one := func(kinds []int, shared bool, nilResult bool) {
			r.Case(func() string {
				return fmt.Sprintf("steps %v (0 keeps, 1 makes a new value, 2 returns nil, 3 changes it in place), one function value %v, constructor returns nil %v", kinds, shared, nilResult)
			}, func() {
				type call struct {
					step int
					arg  *int
					ret  *int
				}
				var log []call
				act := func(i int, p *int) *int {
					q := p
					switch kinds[i] {
					case 1:
						q = new(int)
						*q = i + 1
					case 2:
						q = nil
					case 3:
						if q == nil {
							q = new(int)
						}
						*q += 100
					}
					log = append(log, call{i, p, q})
					return q
				}
				var fs []func(*int) *int
				k := 0
				common := func(p *int) *int { k++; return act(k-1, p) }
				for i := range kinds {
					if shared {
						fs = append(fs, common)
					} else {
						fs = append(fs, func(p *int) *int { return act(i, p) })
					}
				}
				type out struct{ v *int }
				var made []*out
				var given []*int
				c := func(p *int) *out {
					r.Eq("steps done when the constructor runs", len(log), len(kinds))
					given = append(given, p)
					o := &out{p}
					if nilResult {
						o = nil
					}
					made = append(made, o)
					return o
				}
				got := optionalx.Parameter(c, fs...)
				r.Eq("steps run", len(log), len(kinds))
				var prev *int
				for i, l := range log {
					r.True(l.step == i, "call %d is of step %d", i, l.step)
					r.True(l.arg == prev, "step %d gets %p, want %p", i, l.arg, prev)
					prev = l.ret
				}
				r.Eq("constructor calls", len(given), 1)
				r.True(given[0] == prev, "the constructor gets %p, want %p", given[0], prev)
				r.True(got == made[0], "the result is %p, want %p", got, made[0])
				r.Note(fmt.Sprint(kinds, shared, nilResult))
			})
		}
		n := 0
		for l := 0; l <= 5; l++ {
			tot := 1
			for i := 0; i < l; i++ {
				tot *= 4
			}
			for c := 0; c < tot; c++ {
				kinds := make([]int, l)
				for i, x := 0, c; i < l; i, x = i+1, x/4 {
					kinds[i] = x % 4
				}
				for b := 0; b < 4; b++ {
					one(kinds, b&1 > 0, b&2 > 0)
					n++
				}
			}
		}
		r.Bound("%d runs: every list of up to 5 steps over four behaviours", n)
		for _, l := range []int{8, 17, 33, 64, 100} {
			kinds := make([]int, l)
			for i := range kinds {
				kinds[i] = r.Rng.Intn(4)
			}
			one(kinds, false, false)
			one(kinds, true, false)
		}
		r.Bound("five random lists of up to 100 steps")
	})
}
