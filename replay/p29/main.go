//go:build go1.22

package main

import (
	"fmt"
	"reflect"
	"sync"
	"time"

	"github.com/unsafe-risk/utilx/typex/convx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

type a struct{ x int }
type b struct{ y int }
type myInt int
type iface interface{ M() int }

func (v a) M() int { return v.x }

type key struct{ from, to reflect.Type }

type pair struct {
	name       string
	key        key
	register   func(id int)
	unregister func()
	exists     func() bool
	// into and intoOr return: ok, the identity of the converter that ran, how often any ran, whether argument and result are right
	into   func() (bool, int, int, bool)
	intoOr func() (int, int, bool)
}

func mk[T, R any](x T, out func(id int) R, or R) pair {
	var ran []int
	var args []T
	k := key{reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*R)(nil)).Elem()}
	return pair{
		name: fmt.Sprint(k.from, " to ", k.to), key: k,
		register: func(id int) {
			convx.Register(func(v T) R { ran = append(ran, id); args = append(args, v); return out(id) })
		},
		unregister: func() { convx.Unregister[T, R]() },
		exists:     func() bool { return convx.Exists[T, R]() },
		into: func() (bool, int, int, bool) {
			ran, args = nil, nil
			got, ok := convx.Into[T, R](x)
			if len(ran) == 0 {
				var zero R
				return ok, -1, 0, reflect.DeepEqual(got, zero)
			}
			return ok, ran[0], len(ran), reflect.DeepEqual(got, out(ran[0])) && reflect.DeepEqual(args[0], x)
		},
		intoOr: func() (int, int, bool) {
			ran, args = nil, nil
			got := convx.IntoOr[T, R](x, or)
			if len(ran) == 0 {
				return -1, 0, reflect.DeepEqual(got, or)
			}
			return ran[0], len(ran), reflect.DeepEqual(got, out(ran[0])) && reflect.DeepEqual(args[0], x)
		},
	}
}

func main() {
	vr.Run("P29", func(r *vr.R) {
		ps := []pair{
			mk(a{1}, func(id int) b { return b{id} }, b{-7}),
			mk(a{1}, func(id int) a { return a{id} }, a{-7}),
			mk(b{1}, func(id int) a { return a{id} }, a{-7}),
			mk(myInt(3), func(id int) int { return id }, -7),
			mk(3, func(id int) myInt { return myInt(id) }, -7),
			mk(iface(a{4}), func(id int) any { return id }, any("or")),
			mk(any(5), func(id int) iface { return a{id} }, iface(a{-7})),
			mk(error(nil), func(id int) error { return fmt.Errorf("%d", id) }, fmt.Errorf("or")),
			mk(&a{6}, func(id int) *b { return &b{id} }, nil),
			mk([]a{{7}}, func(id int) map[string]int { return map[string]int{"id": id} }, nil),
			mk(a{1}, func(id int) error { return nil }, fmt.Errorf("or")),
		}
		opsName := []string{"Register", "Unregister", "Exists", "Into", "IntoOr"}
		n := 0
		run := func(hist [][2]int) {
			n++
			r.Case(func() string {
				s := ""
				for _, h := range hist {
					s += fmt.Sprintf("%s[%s]; ", opsName[h[0]], ps[h[1]].name)
				}
				return s
			}, func() {
				model := map[key]int{}
				for _, p := range ps {
					p.unregister()
				}
				id := 100
				for step, h := range hist {
					p := ps[h[1]]
					switch h[0] {
					case 0:
						id++
						p.register(id)
						model[p.key] = id
					case 1:
						p.unregister()
						delete(model, p.key)
					case 2:
						_, want := model[p.key]
						r.Eq(fmt.Sprintf("step %d: Exists", step), p.exists(), want)
					case 3:
						want, has := model[p.key]
						ok, got, calls, right := p.into()
						r.Eq(fmt.Sprintf("step %d: ok of Into", step), ok, has)
						if has {
							r.Eq(fmt.Sprintf("step %d: the converter called", step), got, want)
							r.Eq(fmt.Sprintf("step %d: calls of converters", step), calls, 1)
						} else {
							r.Eq(fmt.Sprintf("step %d: calls of converters", step), calls, 0)
						}
						r.True(right, "step %d: Into hands over a wrong argument or result", step)
					case 4:
						want, has := model[p.key]
						got, calls, right := p.intoOr()
						if has {
							r.Eq(fmt.Sprintf("step %d: the converter called by IntoOr", step), got, want)
							r.Eq(fmt.Sprintf("step %d: calls of converters", step), calls, 1)
						} else {
							r.Eq(fmt.Sprintf("step %d: calls of converters", step), calls, 0)
						}
						r.True(right, "step %d: IntoOr hands over a wrong argument or result", step)
					}
				}
				// every pair at the end
				for _, p := range ps {
					_, want := model[p.key]
					r.Eq("Exists at the end for "+p.name, p.exists(), want)
					if ok, got, _, right := p.into(); want {
						r.True(ok && right, "Into at the end for %s", p.name)
						r.Eq("the converter at the end for "+p.name, got, model[p.key])
					} else {
						r.True(!ok && right, "Into at the end for %s", p.name)
					}
				}
			})
		}
		for i := range ps {
			for o := 0; o < 5; o++ {
				for j := range ps {
					for o2 := 0; o2 < 5; o2++ {
						run([][2]int{{0, i}, {o, j}, {o2, i}, {3, j}})
					}
				}
			}
		}
		seed := uint64(7)
		rnd := func(m int) int {
			seed = seed*6364136223846793005 + 1442695040888963407
			return int(seed>>33) % m
		}
		for r.More(0.5) && n < 20000 {
			var h [][2]int
			for l := 3 + rnd(20); l > 0; l-- {
				h = append(h, [2]int{rnd(5), rnd(len(ps))})
			}
			run(h)
		}
		within := func(what string, f func()) {
			r.Case(func() string { return what }, func() {
				done := make(chan struct{})
				go func() { defer close(done); f() }()
				select {
				case <-done:
				case <-time.After(20 * time.Second):
					r.Failf("does not come to an end")
				}
			})
		}
		within("a converter registers, looks up and uses another one while it runs", func() {
			convx.Register(func(v b) myInt { return myInt(v.y + 1) })
			convx.Register(func(v a) myInt {
				if !convx.Exists[b, myInt]() {
					return -1
				}
				convx.Register(func(v b) uint8 { return uint8(v.y) })
				return convx.IntoOr(b{v.x}, myInt(-2))
			})
			if got, ok := convx.Into[a, myInt](a{4}); got != 5 || !ok {
				r.Failf("got %v %v, should be 5 true", got, ok)
			}
			convx.Unregister[b, uint8]()
		})
		within("registering, removing and using from many goroutines", func() {
			var wg sync.WaitGroup
			bad := make(chan string, 100)
			for g := 0; g < 6; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 300; i++ {
						switch (i + g) % 4 {
						case 0:
							convx.Register(func(v a) b { return b{v.x} })
						case 1:
							convx.Unregister[a, b]()
						case 2:
							if got, ok := convx.Into[a, b](a{9}); ok && got.y != 9 || !ok && got.y != 0 {
								select {
								case bad <- fmt.Sprint(got, ok):
								default:
								}
							}
						case 3:
							if got := convx.IntoOr[a, b](a{9}, b{-1}); got.y != 9 && got.y != -1 {
								select {
								case bad <- fmt.Sprint(got):
								default:
								}
							}
						}
					}
				}()
			}
			wg.Wait()
			select {
			case s := <-bad:
				r.Failf("a conversion gave %s", s)
			default:
			}
		})
		r.Bound("%d histories of registrations, removals and conversions over %d pairs of types", n, len(ps))
	})
}
