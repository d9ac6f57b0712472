//go:build go1.22

package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

func main() {
	vr.Run("P13", func(r *vr.R) {
		wide := vr.Range(0, 25, math.MinInt, math.MaxInt, -1)
		ops := []vr.Op{{Name: "Set", Small: []int{0, 1, 2}, Wide: wide}, {Name: "Del", Small: []int{0, 1, 2}, Wide: wide},
			{Name: "Next", Small: []int{1, 3}, Wide: vr.Range(1, 30)}, {Name: "Seek", Small: []int{0, 1, 2}, Wide: wide}, {Name: "Rewind"}, {Name: "Clear"}}
		ctr := 0
		mk := func() func(vr.Step) {
			m := sklmapx.New[int, string]()
			want := map[int]string{}
			var keys []int
			it := m.Iterator()
			at := 0 // entries before and including the iterator's
			seeklost := false
			return func(s vr.Step) {
				ctr++
				switch s.Op {
				case "Set":
					m.Set(s.Arg, vr.Tok(ctr))
					want[s.Arg] = vr.Tok(ctr)
				case "Del":
					m.Del(s.Arg)
					delete(want, s.Arg)
				case "Clear":
					if len(want) > 4 && ctr%5 != 0 {
						return
					}
					m.Clear()
					want = map[int]string{}
				case "Rewind":
					it.Rewind()
					at, seeklost = 0, false
				case "Seek":
					k, v, ok := it.Seek(s.Arg)
					w, in := want[s.Arg]
					r.Eq("Seek found", ok, in)
					if in {
						r.True(k == s.Arg && v == w, "Seek(%d) is %d, %q, want %q", s.Arg, k, v, w)
						at, seeklost = sort.SearchInts(keys, s.Arg)+1, false
					} else {
						r.True(k == 0 && v == "", "Seek of an absent key returns %d, %q", k, v)
						seeklost = true // where a failed search leaves the iterator is not promised
					}
				case "Next":
					if seeklost {
						it.Rewind()
						at, seeklost = 0, false
					}
					for i := 0; i < s.Arg; i++ {
						k, v, ok := it.Next()
						r.Eq("Next ok", ok, at < len(keys))
						if ok {
							r.True(k == keys[at] && v == want[k], "Next is %d, %q, want %d, %q", k, v, keys[at], want[keys[at]])
							at++
						} else {
							at = len(keys)
							r.True(k == 0 && v == "", "Next behind the last returns %d, %q", k, v)
						}
					}
				}
				if s.Op == "Set" || s.Op == "Del" || s.Op == "Clear" {
					// iterators are checked on a map at rest: start again
					it = m.Iterator()
					at, seeklost = 0, false
					keys = keys[:0]
					for k := range want {
						keys = append(keys, k)
					}
					sort.Ints(keys)
					got, vals := m.Keys(), m.Values()
					r.Eq("number of keys", len(got), len(keys))
					r.Eq("number of values", len(vals), len(keys))
					str := "sklmapx["
					for i, k := range keys {
						r.True(got[i] == k && vals[i] == want[k], "entry %d is %d, %q, want %d, %q", i, got[i], vals[i], k, want[k])
						if i > 0 {
							str += " "
						}
						str += fmt.Sprintf("%v:%v", k, want[k])
					}
					if ctr%3 == 0 {
						r.Eq("String", m.String(), str+"]")
					}
					tm := m.ToMap()
					r.Eq("ToMap size", len(tm), len(want))
					for k, v := range want {
						w, ok := tm[k]
						r.True(ok && v == w, "ToMap: key %d has %q, %v, want %q", k, w, ok, v)
					}
					for i := range got { // the results are the caller's
						got[i], vals[i] = -7, "x"
					}
					tm[12345] = "x"
				}
			}
		}
		r.Histories("a map and an iterator", mk, ops, 5, 0.6, 150)
		r.Sizes("many keys", func(n int) {
			if n > 1<<15 {
				n = n>>3 + 5
			}
			m := sklmapx.New[int, int]()
			for i, k := range r.Rng.Perm(n) {
				m.Set(k*3, i)
			}
			for k := 0; k < n; k += 2 {
				m.Del(k * 3)
			}
			ks := m.Keys()
			r.Eq("number of keys", len(ks), n/2)
			for i, k := range ks {
				r.True(k == (2*i+1)*3, "key %d is %d", i, k)
			}
			it := m.Iterator()
			for i := 0; i < 5; i++ {
				j := 0
				if n/2 > 0 {
					j = r.Rng.Intn(n / 2)
					k, _, ok := it.Seek((2*j + 1) * 3)
					r.True(ok && k == (2*j+1)*3, "Seek")
				} else {
					it.Rewind()
					j = -1
				}
				for j++; j < n/2; j++ {
					k, _, ok := it.Next()
					r.True(ok && k == (2*j+1)*3, "Next: %d %v at %d", k, ok, j)
				}
				_, _, ok := it.Next()
				r.True(!ok, "Next behind the last")
			}
		})
	})
}
