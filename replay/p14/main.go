//go:build go1.22

package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

type pair struct {
	real *ordmapx.OrdMap[int, string]
	want map[int]string
}

func main() {
	vr.Run("P14", func(r *vr.R) {
		wide := vr.Range(0, 25, math.MinInt, math.MaxInt, -1)
		ops := []vr.Op{
			{Name: "SetA", Small: []int{0, 1, 2}, Wide: wide}, {Name: "DelA", Small: []int{0, 1, 2}, Wide: wide},
			{Name: "SetB", Small: []int{1}, Wide: wide}, {Name: "DelB", Small: []int{1}, Wide: wide}, {Name: "ClearA"},
		}
		ctr := 0
		check := func(p *pair, arg int) {
			r.Eq("Len", p.real.Len(), len(p.want))
			ks := make([]int, 0, len(p.want))
			for k := range p.want {
				ks = append(ks, k)
			}
			sort.Ints(ks)
			for _, k := range append([]int{-2, -1, 0, 1, 2, 3, arg - 1, arg + 1, math.MaxInt, math.MinInt}, ks...) {
				v, ok := p.real.Get(k)
				w, in := p.want[k]
				r.True(ok == in && v == w, "Get(%d) is %q, %v, want %q, %v", k, v, ok, w, in)
			}
			got, vals := p.real.Keys(), p.real.Values()
			r.True(len(got) == len(ks) && len(vals) == len(ks), "Keys %v, Values %v, want keys %v", got, vals, ks)
			for i, k := range ks {
				r.True(got[i] == k && vals[i] == p.want[k], "Keys %v, Values %v, want keys %v", got, vals, ks)
			}
			for stop := 0; stop <= len(ks); stop += 1 + len(ks)/4 {
				n := 0
				p.real.Range(func(k int, v string) bool {
					r.True(n < len(ks) && n <= stop, "Range goes on after entry %d of %d (told to stop at %d)", n, len(ks), stop)
					r.True(k == ks[n] && v == p.want[k], "Range: entry %d is %d=%q, want %d=%q", n, k, v, ks[n], p.want[ks[n]])
					n++
					return n > stop
				})
				r.Eq("entries ranged over", n, min(stop+1, len(ks)))
			}
			for i := range got { // the results are the caller's own
				got[i], vals[i] = -7, "overwritten"
			}
			for i, k := range p.real.Keys() {
				r.True(k == ks[i], "writing to the result of Keys changes the map")
			}
			for i, v := range p.real.Values() {
				r.True(v == p.want[ks[i]], "writing to the result of Values changes the map")
			}
		}
		mk := func() func(vr.Step) {
			ps := []*pair{{ordmapx.New[int, string](), map[int]string{}}, {ordmapx.New[int, string](), map[int]string{}}}
			n := 0
			return func(s vr.Step) {
				ctr++
				n++
				p := ps[s.Op[len(s.Op)-1]-'A']
				switch s.Op[:len(s.Op)-1] {
				case "Set":
					p.real.Set(s.Arg, vr.Tok(ctr))
					p.want[s.Arg] = vr.Tok(ctr)
				case "Del":
					p.real.Del(s.Arg)
					delete(p.want, s.Arg)
				case "Clear":
					if n%3 == 0 || len(p.want) < 3 {
						p.real.Clear()
						p.want = map[int]string{}
					}
				}
				for _, p := range ps {
					check(p, s.Arg)
				}
			}
		}
		r.Histories("two maps", mk, ops, 5, 0.6, 120)
		r.Sizes("many keys", func(n int) {
			if n > 1<<13 {
				n = n>>4 + 5
			}
			m := ordmapx.New[string, int]()
			want := map[string]int{}
			for i, k := range r.Rng.Perm(n) {
				m.Set(fmt.Sprintf("k%06d", k), i)
				want[fmt.Sprintf("k%06d", k)] = i
			}
			for k := 0; k < n; k += 3 {
				m.Del(fmt.Sprintf("k%06d", k))
				delete(want, fmt.Sprintf("k%06d", k))
			}
			r.Eq("Len", m.Len(), len(want))
			ks, vs := m.Keys(), m.Values()
			r.True(len(ks) == len(want) && len(vs) == len(want), "%d keys, %d values, want %d", len(ks), len(vs), len(want))
			for i := range ks {
				w, ok := want[ks[i]]
				r.True(ok && vs[i] == w && (i == 0 || ks[i-1] < ks[i]), "entry %d is %s=%d after %s, want %d", i, ks[i], vs[i], ks[max(i-1, 0)], w)
			}
		})
	})
}
