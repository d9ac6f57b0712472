//go:build go1.22

package main

import (
	"runtime"

	"github.com/unsafe-risk/utilx/dsx/linkedx/queuex"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

type pair struct {
	real *queuex.Queue[string]
	want []string
}

func main() {
	vr.Run("P03", func(r *vr.R) {
		ops := []vr.Op{{Name: "EnqueueA"}, {Name: "DequeueA"}, {Name: "EnqueueB"}, {Name: "DequeueB"}}
		ctr := 0
		mk := func() func(vr.Step) {
			ps := []*pair{{real: queuex.New[string]()}, {real: queuex.New[string]()}}
			return func(s vr.Step) {
				ctr++
				p := ps[s.Op[len(s.Op)-1]-'A']
				switch s.Op[:len(s.Op)-1] {
				case "Enqueue":
					v := vr.Tok(ctr)
					r.Eq("Enqueue result", p.real.Enqueue(v), true)
					p.want = append(p.want, v)
				case "Dequeue":
					v, ok := p.real.Dequeue()
					r.Eq("Dequeue ok", ok, len(p.want) > 0)
					if ok {
						r.Eq("Dequeue value", v, p.want[0])
						p.want = p.want[1:]
					} else {
						r.Eq("Dequeue value on empty", v, "")
					}
				}
				for _, p := range ps {
					r.Eq("IsEmpty", p.real.IsEmpty(), len(p.want) == 0)
					v, ok := p.real.Peek()
					r.Eq("Peek ok", ok, len(p.want) > 0)
					if ok {
						r.Eq("Peek value", v, p.want[0])
					} else {
						r.Eq("Peek value on empty", v, "")
					}
				}
				if ctr%5000 == 0 {
					runtime.GC()
				}
			}
		}
		r.Histories("two queues", mk, ops, 8, 0.5, 300)
		r.Sizes("grow and drain", func(n int) {
			q := queuex.New[int]()
			for round := 0; round < 2; round++ {
				for i := 0; i < n; i++ {
					q.Enqueue(i * 3)
				}
				for i := 0; i < n; i++ {
					v, ok := q.Dequeue()
					r.True(ok && v == i*3, "Dequeue %d of %d: %v %v", i, n, v, ok)
				}
				r.Eq("IsEmpty", q.IsEmpty(), true)
			}
		})
	})
}
