//go:build go1.22

package main

import (
	"fmt"
	"io"
	"sync"

	"github.com/unsafe-risk/utilx/iox/managerx/closex"
	"github.com/unsafe-risk/utilx/iox/usingx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

type closer struct {
	id   int
	kind int // 0 succeeds, 1 fails, 2 fails with a list of errors, 3 panics
	log  *[]int
	err  error
}

func (c *closer) Close() error {
	*c.log = append(*c.log, c.id)
	switch c.kind {
	case 0:
		return nil
	case 3:
		panic(c)
	}
	return c.err
}

func mk(kinds []int, log *[]int) (list []*closer, errs []error) {
	for i, k := range kinds {
		c := &closer{id: i, kind: k, log: log, err: fmt.Errorf("closer %d", i)}
		if k == 2 {
			c.err = closex.ErrorList{c.err}
		}
		list = append(list, c)
		if k == 1 || k == 2 {
			errs = append(errs, c.err)
		}
	}
	return
}

func same(a, b []error) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if fmt.Sprintf("%T %v", a[i], a[i]) != fmt.Sprintf("%T %v", b[i], b[i]) {
			return false
		}
	}
	return true
}

func try(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

type countCloser struct{ n int }

func (c *countCloser) Close() error { c.n++; return nil }

func main() {
	vr.Run("P31", func(r *vr.R) {
		check := func(what string, kinds []int, log []int, from int, err error, errs []error) {
			r.Eq(what+": calls", len(log)-from, len(kinds))
			for i := range kinds {
				r.True(log[from+i] == i, "%s: call %d is of closer %d", what, i, log[from+i])
			}
			r.True((err == nil) == (len(errs) == 0), "%s: error %v, want %v", what, err, errs)
			if len(errs) == 0 {
				return
			}
			got, ok := closex.AsErrs(err)
			r.True(ok, "%s: AsErrs does not find the list", what)
			r.True(same(got, errs), "%s: errors %v, want %v", what, got, errs)
		}
		all := func(max, kinds int, f func(ks []int)) {
			for l := 0; l <= max; l++ {
				n := 1
				for i := 0; i < l; i++ {
					n *= kinds
				}
				for x := 0; x < n; x++ {
					ks := make([]int, l)
					for i, y := 0, x; i < l; i, y = i+1, y/kinds {
						ks[i] = y % kinds
					}
					f(ks)
				}
			}
		}
		all(6, 3, func(ks []int) {
			r.Case(func() string { return fmt.Sprintf("closers %v (0 succeeds, 1 fails, 2 fails with a list), closed twice", ks) }, func() {
				var log []int
				list, errs := mk(ks, &log)
				m := closex.New()
				for _, c := range list {
					m.Append(c)
				}
				for rep := 0; rep < 2; rep++ {
					from := len(log)
					err := m.Close()
					check("manager", ks, log, from, err, errs)
				}
				closex.Default = closex.New()
				for _, c := range list {
					closex.Append(c)
				}
				from := len(log)
				err := closex.Close()
				check("default manager", ks, log, from, err, errs)
				var cs []io.Closer
				for _, c := range list {
					cs = append(cs, c)
				}
				use := usingx.Close(cs...)
				r.Eq("calls before the function is used", len(log)-from, len(ks))
				for rep := 0; rep < 2; rep++ {
					from = len(log)
					ran := 0
					es := use(func() {
						ran++
						r.Eq("closers closed before the body", len(log)-from, 0)
					})
					r.Eq("runs of the body", ran, 1)
					r.True(same(es, errs), "using: errors %v, want %v", es, errs)
					r.Eq("using: calls", len(log)-from, len(ks))
					for i := range ks {
						r.True(log[from+i] == i, "using: call %d is of closer %d", i, log[from+i])
					}
				}
				from = len(log)
				p := try(func() { use(func() { panic("body") }) })
				r.True(p == "body", "the panic of the body became %v", p)
				r.Eq("calls when the body panics", len(log)-from, len(ks))
				for i := range ks {
					r.True(log[from+i] == i, "body panics: call %d is of closer %d", i, log[from+i])
				}
				r.Note(fmt.Sprint(ks))
			})
		})
		r.Bound("all lists of up to 6 closers that succeed, fail or fail with a list of errors, closed twice; the manager, the default manager, and using, with a body that returns or panics")
		all(5, 4, func(ks []int) {
			at := -1
			for i, k := range ks {
				if k == 3 {
					at = i
					break
				}
			}
			if at < 0 {
				return
			}
			r.Case(func() string { return fmt.Sprintf("closers %v (0 succeeds, 1 fails, 2 fails with a list, 3 panics)", ks) }, func() {
				var log []int
				list, _ := mk(ks, &log)
				m := closex.New()
				for _, c := range list {
					m.Append(c)
				}
				p := try(func() { m.Close() })
				r.True(p == any(list[at]), "the panic became %v", p)
				r.Eq("calls until the panic", len(log), at+1)
				for i := range log {
					r.True(log[i] == i, "call %d is of closer %d", i, log[i])
				}
				// the lock is free again
				more := &closer{id: 99, log: &log}
				m.Append(more)
				r.Note(fmt.Sprint(ks))
			})
		})
		r.Bound("all lists of up to 5 closers of which some panic")
		for round := 0; round < 30; round++ {
			r.Case(func() string { return "four goroutines append while another closes" }, func() {
				m := closex.New()
				var wg sync.WaitGroup
				cs := make([][]*countCloser, 4)
				for g := range cs {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := 0; i < 50; i++ {
							c := &countCloser{}
							cs[g] = append(cs[g], c)
							m.Append(c)
						}
					}()
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 5; i++ {
						if m.Close() != nil {
							panic("an error out of nowhere")
						}
					}
				}()
				wg.Wait()
				r.True(m.Close() == nil, "an error out of nowhere")
				for _, l := range cs {
					for i, c := range l {
						r.True(c.n >= 1 && c.n <= 6, "closer %d of a goroutine was closed %d times in 6 closings", i, c.n)
						if i > 0 {
							r.True(c.n <= l[i-1].n, "closer %d of a goroutine was closed %d times, the one before it %d times", i, c.n, l[i-1].n)
						}
					}
				}
				r.Note(fmt.Sprint("concurrent", round))
			})
		}
		r.Bound("30 rounds of 200 concurrent appends and 5 closings")
	})
}
