//go:build go1.22

package main

import (
	"fmt"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/unsafe-risk/utilx/dsx/mapx/syncmapx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

type op struct {
	name     string
	k, v     int
	from, to int64
	val      int
	list     []int
	keys     []int
}

func (o op) String() string {
	return fmt.Sprintf("%s(%d,%d)[%d..%d]=%d%v", o.name, o.k, o.v, o.from, o.to, o.val, o.list)
}

func sorted(l []int) []int {
	c := append([]int{}, l...)
	sort.Ints(c)
	return c
}

func eq(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func keys(m map[int]int) (ks, vs []int) {
	for k, v := range m {
		ks = append(ks, k)
		vs = append(vs, v)
	}
	sort.Ints(ks)
	sort.Ints(vs)
	return
}

// do applies o to the model and says whether its result fits.
func fits(m map[int]int, o op) (map[int]int, bool) {
	c := map[int]int{}
	for k, v := range m {
		c[k] = v
	}
	ks, vs := keys(m)
	_, in := m[o.k]
	switch o.name {
	case "Get":
		return m, o.val == m[o.k]
	case "Has":
		return m, (o.val == 1) == in
	case "Size":
		return m, o.val == len(m)
	case "Keys":
		return m, eq(sorted(o.list), ks)
	case "Values":
		return m, eq(sorted(o.list), vs)
	case "Set":
		c[o.k] = o.v
	case "Delete":
		delete(c, o.k)
	case "Clear":
		c = map[int]int{}
	}
	return c, true
}

func linear(ops []op, done uint, m map[int]int) bool {
	if done == 1<<len(ops)-1 {
		return true
	}
	for i, o := range ops {
		if done>>i&1 == 1 {
			continue
		}
		first := true
		for j, p := range ops {
			if j != i && done>>j&1 == 0 && p.to < o.from {
				first = false
			}
		}
		if !first {
			continue
		}
		if n, ok := fits(m, o); ok && linear(ops, done|1<<i, n) {
			return true
		}
	}
	return false
}

func do(m *syncmapx.Map[int, int], o *op) {
	switch o.name {
	case "Get":
		o.val = m.Get(o.k)
	case "Has":
		if m.Has(o.k) {
			o.val = 1
		}
	case "Size":
		o.val = m.Size()
	case "Keys":
		o.list = m.Keys()
	case "Values":
		o.list = m.Values()
	case "Set":
		m.Set(o.k, o.v)
	case "Delete":
		m.Delete(o.k)
	case "Clear":
		m.Clear()
	}
}

func main() {
	vr.Run("P15", func(r *vr.R) {
		// one goroutine: exhaustive histories against a map
		wide := vr.Range(0, 20)
		ops := []vr.Op{{Name: "Set", Small: []int{0, 1, 2}, Wide: wide}, {Name: "Delete", Small: []int{0, 1}, Wide: wide}, {Name: "Clear"}}
		ctr := 0
		mk := func() func(vr.Step) {
			ms := []*syncmapx.Map[int, int]{syncmapx.New[int, int](), syncmapx.New[int, int]()}
			ws := []map[int]int{{}, {}}
			return func(s vr.Step) {
				ctr++
				i := ctr / 3 % 2
				o := op{name: s.Op, k: s.Arg, v: ctr}
				do(ms[i], &o)
				ws[i], _ = fits(ws[i], o)
				for i := range ms {
					for _, q := range []string{"Get", "Has", "Size", "Keys", "Values"} {
						for k := -1; k <= 21; k++ {
							o := op{name: q, k: k}
							do(ms[i], &o)
							_, ok := fits(ws[i], o)
							r.True(ok, "%s(%d) is %d %v, want that of %v", q, k, o.val, o.list, ws[i])
							for j := range o.list {
								o.list[j] = -99
							}
							if k > 2 && q != "Get" && q != "Has" {
								break
							}
						}
					}
				}
			}
		}
		r.Histories("one goroutine", mk, ops, 5, 0.3, 60)
		// several goroutines: every outcome must be that of some order
		names := []string{"Get", "Has", "Size", "Keys", "Values", "Set", "Set", "Set", "Delete", "Clear"}
		n := 0
		for ; n < 30000 && r.More(0.9); n++ {
			g, per := 2+r.Rng.Intn(2), 1+r.Rng.Intn(3)
			m := syncmapx.New[int, int]()
			start := map[int]int{}
			for k := 0; k < r.Rng.Intn(4); k++ {
				m.Set(k, -1-k)
				start[k] = -1 - k
			}
			all := make([]op, g*per)
			for i := range all {
				all[i] = op{name: names[r.Rng.Intn(len(names))], k: r.Rng.Intn(3), v: i + 1}
			}
			r.Case(func() string {
				return fmt.Sprintf("%d goroutines with %d operations each on a map holding %v: %v", g, per, start, all)
			}, func() {
				var clock atomic.Int64
				var wg sync.WaitGroup
				var ready atomic.Int64
				for t := 0; t < g; t++ {
					wg.Add(1)
					go func(t int) {
						defer wg.Done()
						ready.Add(1)
						for ready.Load() < int64(g) {
							runtime.Gosched()
						}
						for i := t * per; i < (t+1)*per; i++ {
							all[i].from = clock.Add(1)
							do(m, &all[i])
							all[i].to = clock.Add(1)
						}
					}(t)
				}
				wg.Wait()
				end := op{name: "Keys", from: clock.Add(1)}
				do(m, &end)
				end.to = clock.Add(1)
				hist := append(append([]op{}, all...), end)
				for _, k := range sorted(end.list) {
					o := op{name: "Get", k: k, from: clock.Add(1)}
					do(m, &o)
					o.to = clock.Add(1)
					hist = append(hist, o)
				}
				r.True(linear(hist, 0, start), "no order of the operations explains the results: %v", hist)
				r.Note(fmt.Sprint(start, all))
			})
		}
		r.Bound("%d random concurrent histories (2 or 3 goroutines, up to 3 operations each), race detector on", n)
	})
}
