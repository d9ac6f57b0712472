//go:build go1.22

package main

import (
	"fmt"
	"math"

	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

type pair struct {
	real *sklmapx.SkipListMap[int, string]
	want map[int]string
}

func main() {
	vr.Run("P12", func(r *vr.R) {
		wide := vr.Range(0, 25, math.MinInt, math.MaxInt, -1)
		ops := []vr.Op{
			{Name: "SetA", Small: []int{0, 1, 2}, Wide: wide}, {Name: "DelA", Small: []int{0, 1, 2}, Wide: wide},
			{Name: "SetB", Small: []int{1}, Wide: wide}, {Name: "DelB", Small: []int{1}, Wide: wide}, {Name: "ClearA"},
		}
		ctr := 0
		same := func(p *pair, k int) {
			v, ok := p.real.Get(k)
			w, in := p.want[k]
			r.True(ok == in && v == w, "Get(%d) is %q, %v, want %q, %v", k, v, ok, w, in)
		}
		mk := func() func(vr.Step) {
			ps := []*pair{{sklmapx.New[int, string](), map[int]string{}}, {sklmapx.New[int, string](), map[int]string{}}}
			n := 0
			return func(s vr.Step) {
				ctr++
				n++
				p := ps[s.Op[len(s.Op)-1]-'A']
				switch s.Op[:len(s.Op)-1] {
				case "Set":
					p.real.Set(s.Arg, vr.Tok(ctr))
					p.want[s.Arg] = vr.Tok(ctr)
				case "Del":
					_, in := p.want[s.Arg]
					r.Eq("Del", p.real.Del(s.Arg), in)
					delete(p.want, s.Arg)
				case "Clear":
					if n%3 == 0 || len(p.want) < 3 { // so that random histories grow
						p.real.Clear()
						p.want = map[int]string{}
					}
				}
				for _, p := range ps {
					r.Eq("Len", p.real.Len(), len(p.want))
					for k := range p.want {
						same(p, k)
					}
					for _, k := range []int{-2, -1, 0, 1, 2, 3, s.Arg - 1, s.Arg, s.Arg + 1, math.MaxInt, math.MinInt} {
						same(p, k)
					}
				}
			}
		}
		r.Histories("two maps", mk, ops, 5, 0.5, 200)
		r.Sizes("many keys", func(n int) {
			if n > 1<<15 {
				n = n>>3 + 5
			}
			m := sklmapx.New[string, int]()
			ks := r.Rng.Perm(n)
			for i, k := range ks {
				m.Set(fmt.Sprint("k", k), i)
			}
			r.Eq("Len", m.Len(), n)
			for i, k := range ks {
				v, ok := m.Get(fmt.Sprint("k", k))
				r.True(ok && v == i, "Get(k%d) is %v %v, want %d", k, v, ok, i)
			}
			for i, k := range ks {
				if i%3 != 0 {
					r.True(m.Del(fmt.Sprint("k", k)), "Del(k%d)", k)
					r.True(!m.Del(fmt.Sprint("k", k)), "second Del(k%d)", k)
				}
			}
			for i, k := range ks {
				v, ok := m.Get(fmt.Sprint("k", k))
				r.True(ok == (i%3 == 0) && (!ok || v == i), "Get(k%d) is %v %v after deletions", k, v, ok)
				if ok {
					m.Set(fmt.Sprint("k", k), -i)
					v, ok = m.Get(fmt.Sprint("k", k))
					r.True(ok && v == -i, "Get(k%d) after overwriting: %v %v", k, v, ok)
				}
			}
			r.Eq("Len", m.Len(), (n+2)/3)
		})
	})
}
