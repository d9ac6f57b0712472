//go:build go1.22

package main

import (
	"fmt"

	"github.com/unsafe-risk/utilx/dsx/slicex/queuex"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

func main() {
	vr.Run("P04", func(r *vr.R) {
		ops := []vr.Op{{Name: "Enqueue"}, {Name: "Dequeue"}}
		ctr := 0
		for _, n := range []int{0, -1, -5, -1 << 62} {
			r.Case(func() string { return fmt.Sprintf("New(%d)", n) }, func() {
				r.True(queuex.New[int](n) == nil, "New(%d) is not nil", n)
			})
		}
		caps := []int{1, 2, 3, 4, 5, 7, 8, 9}
		for ci, c := range caps {
			mk := func() func(vr.Step) {
				q := queuex.New[string](c)
				var want []string
				return func(s vr.Step) {
					ctr++
					switch s.Op {
					case "Enqueue":
						v := vr.Tok(ctr)
						r.Eq("Enqueue result", q.Enqueue(v), len(want) < c)
						if len(want) < c {
							want = append(want, v)
						}
					case "Dequeue":
						v, ok := q.Dequeue()
						r.Eq("Dequeue ok", ok, len(want) > 0)
						if ok {
							r.Eq("Dequeue value", v, want[0])
							want = want[1:]
						} else {
							r.Eq("Dequeue value on empty", v, "")
						}
					}
					r.Eq("Cap", q.Cap(), c)
					r.Eq("IsEmpty", q.IsEmpty(), len(want) == 0)
					r.Eq("IsFull", q.IsFull(), len(want) == c)
					v, ok := q.Peek()
					r.Eq("Peek ok", ok, len(want) > 0)
					if ok {
						r.Eq("Peek value", v, want[0])
						r.Eq("Head", q.Head(), want[0])
					} else {
						r.Eq("Peek value on empty", v, "")
					}
				}
			}
			r.Histories(fmt.Sprintf("ring of capacity %d", c), mk, ops, 12, 0.05+0.7*float64(ci+1)/float64(len(caps)), 60)
		}
		r.Sizes("fill, drain and wrap", func(n int) {
			if n < 1 {
				return
			}
			q := queuex.New[int](n)
			next, out := 0, 0
			for round := 0; round < 3; round++ {
				for q.Enqueue(next) {
					next++
					r.True(next-out <= n, "capacity %d holds %d", n, next-out)
				}
				r.Eq("elements when full", next-out, n)
				for i := 0; i < n/2+1; i++ {
					v, ok := q.Dequeue()
					r.True(ok && v == out, "Dequeue: %v %v, want %d", v, ok, out)
					out++
				}
			}
			for out < next {
				v, ok := q.Dequeue()
				r.True(ok && v == out, "Dequeue: %v %v, want %d", v, ok, out)
				out++
			}
			r.Eq("IsEmpty", q.IsEmpty(), true)
		})
	})
}
