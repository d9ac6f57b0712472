//go:build go1.22

package main

import (
	"runtime"

	"github.com/unsafe-risk/utilx/dsx/linkedx/stackx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

type pair struct {
	real *stackx.Stack[string]
	want []string
}

func main() {
	vr.Run("P01", func(r *vr.R) {
		ops := []vr.Op{{Name: "PushA"}, {Name: "PopA"}, {Name: "PeekA"}, {Name: "PushB"}, {Name: "PopB"}}
		ctr := 0
		mk := func() func(vr.Step) {
			ps := []*pair{{real: stackx.New[string]()}, {real: stackx.New[string]()}}
			return func(s vr.Step) {
				ctr++
				p := ps[s.Op[len(s.Op)-1]-'A']
				switch s.Op[:len(s.Op)-1] {
				case "Push":
					v := vr.Tok(ctr)
					r.Eq("Push result", p.real.Push(v), true)
					p.want = append(p.want, v)
				case "Pop":
					v, ok := p.real.Pop()
					n := len(p.want)
					r.Eq("Pop ok", ok, n > 0)
					if n > 0 {
						r.Eq("Pop value", v, p.want[n-1])
						p.want = p.want[:n-1]
					} else {
						r.Eq("Pop value on empty", v, "")
					}
				}
				for _, p := range ps {
					n := len(p.want)
					r.Eq("Len", p.real.Len(), n)
					v, ok := p.real.Peek()
					r.Eq("Peek ok", ok, n > 0)
					if n > 0 {
						r.Eq("Peek value", v, p.want[n-1])
					} else {
						r.Eq("Peek value on empty", v, "")
					}
				}
				if ctr%5000 == 0 {
					runtime.GC()
				}
			}
		}
		r.Histories("two stacks", mk, ops, 7, 0.5, 300)
		r.Sizes("grow and drain", func(n int) {
			st := stackx.New[int]()
			for i := 0; i < n; i++ {
				st.Push(i * 3)
				if i%7 == 6 {
					v, ok := st.Pop()
					r.True(ok && v == i*3, "Pop after push %d of %d: %v %v", i, n, v, ok)
					st.Push(i * 3)
				}
			}
			r.Eq("Len", st.Len(), n)
			for i := n - 1; i >= 0; i-- {
				v, ok := st.Pop()
				r.True(ok && v == i*3, "Pop %d of %d: %v %v", i, n, v, ok)
				r.Eq("Len", st.Len(), i)
			}
		})
	})
}
