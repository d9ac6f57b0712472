//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/unsafe-risk/utilx/dsx/slicex"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

type named struct{ n int }

func (n named) String() string { return fmt.Sprintf("<%d>", n.n) }

type pair struct {
	A int
	B string
}

func try[T any](r *vr.R, s []T, sep string) {
	r.Case(func() string { return fmt.Sprintf("Join(%q) of %#v", sep, s) }, func() {
		var parts []string
		for _, x := range s {
			parts = append(parts, fmt.Sprintf("%v", x))
		}
		before := fmt.Sprintf("%#v", s)
		r.Eq("text", slicex.Slice[T](s).Join(sep), strings.Join(parts, sep))
		r.Eq("slice afterwards", fmt.Sprintf("%#v", s), before)
		r.Note(before + sep)
	})
}

func main() {
	vr.Run("P39", func(r *vr.R) {
		seps := []string{"", ",", ", ", "%v", "%", "\x00", "é", "--"}
		words := []string{"", "a", "%v", ",", "a,b", "%d%%", "\xff"}
		for _, sep := range seps {
			for n := 0; n <= 3; n++ {
				total := 1
				for i := 0; i < n; i++ {
					total *= len(words)
				}
				for c := 0; c < total; c++ {
					var s []string
					for i, k := 0, c; i < n; i, k = i+1, k/len(words) {
						s = append(s, words[k%len(words)])
					}
					try(r, s, sep)
				}
			}
			try(r, []int{1, -2, 0, 40}, sep)
			try(r, []float64{1, -0.5, 1e100}, sep)
			try(r, []any{nil, 1, "x", named{3}, errors.New("e"), []int{1, 2}}, sep)
			try(r, []named{{1}, {2}}, sep)
			try(r, []error{nil, errors.New("e"), nil}, sep)
			try(r, []bool{true, false}, sep)
			try(r, []pair{{1, "a"}, {2, "b"}}, sep)
			try(r, []*pair{{1, "a"}, nil}, sep)
			try(r, [][]int{nil, {1}, {}}, sep)
		}
		r.Bound("lists of up to 3 of 7 texts, 8 separators; lists of nine other types")
		for r.More(0.05) {
			s := make([]int, r.Rng.Intn(200))
			for i := range s {
				s[i] = r.Rng.Int() >> r.Rng.Intn(63)
			}
			try(r, s, seps[r.Rng.Intn(len(seps))])
		}
		r.Bound("random lists of up to 200 integers")
	})
}
