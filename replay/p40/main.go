//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"io"

	"github.com/unsafe-risk/utilx/iox/managerx/closex"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

type coded struct{ n int }

func (c coded) Error() string { return fmt.Sprint("code ", c.n) }

type ptr struct{ s string }

func (p *ptr) Error() string { return p.s }

// an error that prints otherwise than its text
type styled struct{}

func (styled) Error() string                 { return "plain" }
func (styled) Format(f fmt.State, verb rune) { fmt.Fprint(f, "styled") }

// an error that says it is a list
type like struct{ list closex.ErrorList }

func (l like) Error() string { return "like" }
func (l like) As(target any) bool {
	if p, ok := target.(*closex.ErrorList); ok {
		*p = l.list
		return true
	}
	return false
}

func text(r *vr.R, list []error) {
	r.Case(func() string { return fmt.Sprintf("Error of %#v", list) }, func() {
		want := ""
		for _, e := range list {
			want += "error - " + fmt.Sprintf("%T", e) + "\n" + e.Error() + "\n"
		}
		before := fmt.Sprintf("%#v", list)
		r.Eq("text", closex.ErrorList(list).Error(), want)
		r.Eq("text again", closex.ErrorList(list).Error(), want)
		r.Eq("list afterwards", fmt.Sprintf("%#v", list), before)
		r.Note(before)
	})
}

func same(a, b []error) bool {
	if len(a) != len(b) || (a == nil) != (b == nil) {
		return false
	}
	for i := range a {
		if fmt.Sprintf("%T %p %v", a[i], a[i], a[i]) != fmt.Sprintf("%T %p %v", b[i], b[i], b[i]) {
			return false
		}
	}
	return true
}

func main() {
	vr.Run("P40", func(r *vr.R) {
		base := []error{errors.New("a"), errors.New(""), coded{1}, &ptr{"p\n%v"}, io.EOF, fmt.Errorf("w: %w", io.EOF), closex.ErrorList{io.EOF, coded{2}}, closex.ErrorList{}, closex.ErrorList(nil), styled{}}
		for n := 0; n <= 3; n++ {
			total := 1
			for i := 0; i < n; i++ {
				total *= len(base)
			}
			for c := 0; c < total; c++ {
				var list []error
				for i, k := 0, c; i < n; i, k = i+1, k/len(base) {
					list = append(list, base[k%len(base)])
				}
				text(r, list)
			}
		}
		r.Bound("texts of all lists of up to 3 of 10 errors")

		find := func(err error, want []error, ok bool) {
			r.Case(func() string { return fmt.Sprintf("AsErrs(%#v)", err) }, func() {
				got, gok := closex.AsErrs(err)
				r.Eq("found", gok, ok)
				r.True(same(got, want), "the list is %#v, want %#v", got, want)
				r.Note(fmt.Sprintf("%T%v", err, ok))
			})
		}
		find(nil, nil, false)
		for _, e := range base[:6] {
			find(e, nil, false)
			find(fmt.Errorf("w: %w", e), nil, false)
			find(errors.Join(e, io.EOF), nil, false)
		}
		for _, l := range []closex.ErrorList{{}, {io.EOF}, {coded{1}, io.EOF}, {closex.ErrorList{io.EOF}}, nil} {
			find(l, l, true)
			find(fmt.Errorf("w: %w", l), l, true)
			find(fmt.Errorf("v: %w", fmt.Errorf("w: %w", l)), l, true)
			find(errors.Join(io.EOF, l), l, true)
			find(errors.Join(io.EOF, fmt.Errorf("w: %w", l), closex.ErrorList{coded{9}}), l, true)
			find(like{l}, l, true)
		}
		r.Bound("errors that are, wrap once or twice, join, or stand for one of 5 lists; errors that do not")
	})
}
