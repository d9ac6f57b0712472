//go:build go1.22

package main

import (
	"runtime"

	"github.com/unsafe-risk/utilx/dsx/linkedx/dequex"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

type pair struct {
	real *dequex.Deque[string]
	want []string
}

func main() {
	vr.Run("P05", func(r *vr.R) {
		ops := []vr.Op{{Name: "PushFrontA"}, {Name: "PushBackA"}, {Name: "PopFrontA"}, {Name: "PopBackA"}, {Name: "PushFrontB"}, {Name: "PopBackB"}}
		one := ops[:4]
		ctr := 0
		mk := func() func(vr.Step) {
			ps := []*pair{{real: dequex.New[string]()}, {real: dequex.New[string]()}}
			return func(s vr.Step) {
				ctr++
				p := ps[s.Op[len(s.Op)-1]-'A']
				v := vr.Tok(ctr)
				n := len(p.want)
				switch s.Op[:len(s.Op)-1] {
				case "PushFront":
					p.real.PushFront(v)
					p.want = append([]string{v}, p.want...)
				case "PushBack":
					p.real.PushBack(v)
					p.want = append(p.want, v)
				case "PopFront":
					v, ok := p.real.PopFront()
					r.Eq("PopFront ok", ok, n > 0)
					if ok {
						r.Eq("PopFront value", v, p.want[0])
						p.want = p.want[1:]
					} else {
						r.Eq("PopFront value on empty", v, "")
					}
				case "PopBack":
					v, ok := p.real.PopBack()
					r.Eq("PopBack ok", ok, n > 0)
					if ok {
						r.Eq("PopBack value", v, p.want[n-1])
						p.want = p.want[:n-1]
					} else {
						r.Eq("PopBack value on empty", v, "")
					}
				}
				for _, p := range ps {
					n := len(p.want)
					f, ok1 := p.real.PeekFront()
					b, ok2 := p.real.PeekBack()
					r.Eq("PeekFront ok", ok1, n > 0)
					r.Eq("PeekBack ok", ok2, n > 0)
					if n > 0 {
						r.Eq("PeekFront value", f, p.want[0])
						r.Eq("PeekBack value", b, p.want[n-1])
					} else {
						r.Eq("peeked values on empty", f+b, "")
					}
				}
				if ctr%5000 == 0 {
					runtime.GC()
				}
			}
		}
		r.Histories("one deque", mk, one, 8, 0.3, 300)
		r.Histories("two deques", mk, ops, 6, 0.6, 300)
		r.Sizes("grow and drain", func(n int) {
			for mode := 0; mode < 4; mode++ {
				d := dequex.New[int]()
				for i := 0; i < n; i++ {
					if mode&1 == 0 {
						d.PushBack(i)
					} else {
						d.PushFront(n - 1 - i)
					}
				}
				for i := 0; i < n; i++ {
					if mode&2 == 0 {
						v, ok := d.PopFront()
						r.True(ok && v == i, "PopFront: %v %v, want %d", v, ok, i)
					} else {
						v, ok := d.PopBack()
						r.True(ok && v == n-1-i, "PopBack: %v %v, want %d", v, ok, n-1-i)
					}
				}
				_, ok := d.PopFront()
				r.True(!ok, "not empty after draining")
			}
		})
	})
}
