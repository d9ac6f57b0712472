//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"math"

	"github.com/unsafe-risk/utilx/functionalx/optionx"
	"github.com/unsafe-risk/utilx/functionalx/resultx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

type rec struct {
	a int
	b string
	p *int
}

func option[T comparable](r *vr.R, name string, vals []T) {
	errs := []error{nil, errors.New("e1")}
	for i := range vals {
		for j := range vals {
			for e := range errs {
				r.Case(func() string {
					return fmt.Sprintf("Option[%s] of %v, handlers return %v, error %v", name, vals[i], vals[j], errs[e])
				}, func() {
					var got []T
					none := 0
					f := func(v T) (T, error) { got = append(got, v); return vals[j], errs[e] }
					g := func() (T, error) { none++; return vals[j], errs[e] }
					o := optionx.Some(vals[i])
					c := o
					for k := 1; k <= 3; k++ {
						v, err := o.Match(f, g)
						if k == 3 {
							c.Match(f, nil)
							got = got[:3]
						}
						r.True(len(got) == k && none == 0, "Some: first handler called %d times, second %d, want %d and 0", len(got), none, k)
						r.True(got[k-1] == vals[i], "Some: handler gets %v", got[k-1])
						r.True(v == vals[j] && err == errs[e], "Some: got %v, %v", v, err)
					}
					got, none = nil, 0
					n := optionx.None[T]()
					for k := 1; k <= 3; k++ {
						v, err := n.Match(f, g)
						r.True(none == k && len(got) == 0, "None: first handler called %d times, second %d, want 0 and %d", len(got), none, k)
						r.True(v == vals[j] && err == errs[e], "None: got %v, %v", v, err)
					}
					n.Match(nil, g)
					r.Note(fmt.Sprint("o", name, i, j, e))
				})
			}
		}
	}
	r.Bound("Option[%s]: %d values held and returned, with and without error", name, len(vals))
}

func result[T, E comparable](r *vr.R, name string, vals []T, errs []E) {
	for i := range vals {
		for j := range vals {
			for e := range errs {
				for d := range errs {
					r.Case(func() string {
						return fmt.Sprintf("Result[%s] of %v / %v, handlers return %v, %v", name, vals[i], errs[e], vals[j], errs[d])
					}, func() {
						var got []T
						var bad []E
						f := func(v T) (T, E) { got = append(got, v); return vals[j], errs[d] }
						g := func(x E) (T, E) { bad = append(bad, x); return vals[j], errs[d] }
						o := resultx.Ok[T, E](vals[i])
						x := resultx.Err[T, E](errs[e])
						for k := 1; k <= 2; k++ {
							got, bad = nil, nil
							v, err := o.Match(f, g)
							r.True(len(got) == 1 && len(bad) == 0 && got[0] == vals[i], "Ok: first handler gets %v, second %v", got, bad)
							r.True(v == vals[j] && err == errs[d], "Ok: got %v, %v", v, err)
							got, bad = nil, nil
							v, err = x.Match(f, g)
							r.True(len(got) == 0 && len(bad) == 1 && bad[0] == errs[e], "Err: first handler gets %v, second %v", got, bad)
							r.True(v == vals[j] && err == errs[d], "Err: got %v, %v", v, err)
						}
						o.Match(f, nil)
						x.Match(nil, g)
						r.Note(fmt.Sprint("r", name, i, j, e, d))
					})
				}
			}
		}
	}
	r.Bound("Result[%s]: %d values and %d errors held and returned", name, len(vals), len(errs))
}

func main() {
	vr.Run("P17", func(r *vr.R) {
		x := 3
		ints := []int{0, 1, -1, math.MaxInt}
		strs := []string{"", "a", "bb"}
		recs := []rec{{}, {1, "x", &x}, {0, "", &x}}
		anys := []any{nil, 0, "", x, &x, error(nil)}
		ptrs := []*int{nil, &x}
		option(r, "int", ints)
		option(r, "string", strs)
		option(r, "struct", recs)
		option(r, "any", anys)
		option(r, "*int", ptrs)
		option(r, "struct{}", []struct{}{{}})
		result(r, "int, error", ints, []error{nil, errors.New("e1"), errors.New("e2")})
		result(r, "string, int", strs, ints)
		result(r, "struct, string", recs, strs)
		result(r, "any, any", anys, anys)
		result(r, "*int, struct", ptrs, recs)
		result(r, "int, int", ints, ints)
	})
}
