//go:build go1.22

package main

import (
	"fmt"
	"math"

	"github.com/unsafe-risk/utilx/dsx/slicex"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

func clamp(i, n int) int { return max(0, min(i, n)) }

func window(i, j, n int) (int, int) {
	i, j = clamp(i, n), clamp(j, n)
	return min(i, j), max(i, j)
}

func splice(w []int, i, j int, v []int) []int {
	out := append([]int{}, w[:i]...)
	out = append(out, v...)
	return append(out, w[j:]...)
}

func main() {
	vr.Run("P08", func(r *vr.R) {
		idx := []int{-1, 0, 1, 2, 5}
		two := func(i, j int) int { return (i+8)*64 + (j + 8) }
		var pairs []int
		for _, i := range []int{-1, 0, 1, 3} {
			for _, j := range []int{-1, 0, 2, 9} {
				pairs = append(pairs, two(i, j))
			}
		}
		ext := []int{math.MinInt, math.MaxInt, math.MinInt + 1, math.MaxInt - 1, -1}
		wi := vr.Range(-2, 12, ext...)
		wp := vr.Range(0, 64*30)
		ops := []vr.Op{
			{Name: "Push"}, {Name: "Pop"}, {Name: "UnShift"}, {Name: "Shift"}, {Name: "Clear"},
			{Name: "Extend", Small: []int{-1, 0, 2}, Wide: vr.Range(-1, 5)},
			{Name: "Set", Small: idx, Wide: wi}, {Name: "Insert", Small: idx, Wide: wi}, {Name: "Delete", Small: idx, Wide: wi},
			{Name: "DeleteReplace", Small: idx, Wide: wi}, {Name: "Expand", Small: idx, Wide: wi},
			{Name: "Slice", Small: pairs, Wide: wp}, {Name: "Splice", Small: pairs, Wide: wp}, {Name: "Cut", Small: pairs, Wide: wp},
		}
		ctr := 0
		mk := func() func(vr.Step) {
			s := slicex.New[int]()
			var want []int
			return func(st vr.Step) {
				ctr++
				n := len(want)
				i, j := st.Arg/64-8, st.Arg%64-8
				args := make([]int, ctr%4, 10)
				for k := range args[:10] {
					args[:10][k] = ctr*100 + k
				}
				spare := append([]int{}, args[:10]...)
				var ret *slicex.Slice[int]
				switch st.Op {
				case "Push":
					ret = s.Push(ctr)
					want = append(want, ctr)
				case "Pop":
					v := s.Pop()
					if n > 0 {
						r.Eq("Pop", v, want[n-1])
						want = want[:n-1]
					} else {
						r.Eq("Pop on empty", v, 0)
					}
					ret = s
				case "UnShift":
					ret = s.UnShift(ctr)
					want = splice(want, 0, 0, []int{ctr})
				case "Shift":
					v := s.Shift()
					if n > 0 {
						r.Eq("Shift", v, want[0])
						want = splice(want, 0, 1, nil)
					} else {
						r.Eq("Shift on empty", v, 0)
					}
					ret = s
				case "Clear":
					ret = s.Clear()
					want = nil
				case "Extend":
					ret = s.Extend(st.Arg)
					want = append(want, make([]int, max(0, st.Arg))...)
				case "Set":
					s.Set(st.Arg, ctr)
					ret = s
					if n > 0 {
						want[clamp(st.Arg, n-1)] = ctr
					}
				case "Insert":
					ret = s.Insert(st.Arg, ctr)
					p := clamp(st.Arg, n)
					want = splice(want, p, p, []int{ctr})
				case "Delete":
					ret = s.Delete(st.Arg)
					if st.Arg >= 0 && st.Arg < n {
						want = splice(want, st.Arg, st.Arg+1, nil)
					}
				case "DeleteReplace":
					ret = s.DeleteReplace(st.Arg)
					if n > 0 {
						want[clamp(st.Arg, n-1)] = want[n-1]
						want = want[:n-1]
					}
				case "Expand":
					ret = s.Expand(st.Arg, args...)
					p := clamp(st.Arg, n)
					want = splice(want, p, p, args)
				case "Slice":
					ret = s.Slice(i, j)
					if j < 0 {
						j += n
					}
					a, b := window(i, j, n)
					want = append([]int{}, want[a:b]...)
				case "Splice":
					ret = s.Splice(i, j, args...)
					a, b := window(i, j, n)
					want = splice(want, a, b, args)
				case "Cut":
					ret = s.Cut(i, j)
					a, b := window(i, j, n)
					want = splice(want, a, b, nil)
				}
				r.True(ret == s, "%s does not return its receiver", st.Op)
				r.Eq("Len", s.Len(), len(want))
				f := s.Finalize()
				r.Eq("Finalize length", len(f), len(want))
				for k := range want {
					r.True(f[k] == want[k], "after %s element %d is %d, want %d (all: %v, want %v)", st.Op, k, f[k], want[k], f, want)
				}
				for k := range spare {
					r.True(args[:10][k] == spare[k], "%s writes into its argument's storage at %d", st.Op, k)
				}
				for _, k := range []int{-1, 0, 1, len(want) - 1, len(want), math.MaxInt, math.MinInt} {
					w := 0
					if len(want) > 0 {
						w = want[clamp(k, len(want)-1)]
					}
					r.Eq(fmt.Sprintf("Get(%d)", k), s.Get(k), w)
				}
			}
		}
		r.Histories("one slice", mk, ops, 3, 0.8, 60)
		// extreme index pairs
		vals := []int{math.MinInt, math.MinInt + 1, -7, -1, 0, 1, 2, 3, 4, 5, 9, math.MaxInt - 1, math.MaxInt}
		for n := 0; n <= 5; n++ {
			for _, i := range vals {
				for _, j := range vals {
					for _, op := range []string{"Slice", "Splice", "Cut"} {
						r.Case(func() string { return fmt.Sprintf("%s(%d, %d) of %d elements", op, i, j, n) }, func() {
							var w []int
							s := slicex.New[int]()
							for k := 0; k < n; k++ {
								w = append(w, k)
								s.Push(k)
							}
							jj := j
							if op == "Slice" && j < 0 {
								jj = n + j
							}
							a, b := window(i, jj, n)
							switch op {
							case "Slice":
								s.Slice(i, j)
								w = w[a:b]
							case "Splice":
								s.Splice(i, j, 77, 78, 79)
								w = splice(w, a, b, []int{77, 78, 79})
							case "Cut":
								s.Cut(i, j)
								w = splice(w, a, b, nil)
							}
							r.Eq("Len", s.Len(), len(w))
							for k := range w {
								r.Eq("element", (*s)[k], w[k])
							}
							r.Note(fmt.Sprint(op, n, i, j))
						})
					}
				}
			}
		}
		r.Bound("every pair of %d index values for lengths 0 to 5", len(vals))
		// New keeps the given elements, arguments shorter than their storage
		r.Sizes("New", func(n int) {
			a := make([]int, n)
			for i := range a {
				a[i] = i + 1
			}
			s := slicex.New(a...)
			r.Eq("Len", s.Len(), n)
			for i := range a {
				r.True((*s)[i] == i+1, "element %d", i)
			}
			if n > 0 {
				s.Delete(n / 2)
				r.Eq("Len", s.Len(), n-1)
				s.Insert(n/2, -5)
				r.Eq("inserted", s.Get(n/2), -5)
			}
		})
	})
}
