//go:build go1.22

package main

import (
	"fmt"
	"math"
	"unsafe"

	"github.com/unsafe-risk/utilx/dsx/setx/bitsetx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

type unsigned interface {
	~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uint | ~uintptr
}

type small uint8

// state compares every position, in and beyond the width, with the model.
func state[T unsigned](r *vr.R, b *bitsetx.BitSet[T], m map[int]bool) {
	var z T
	w := int(unsafe.Sizeof(z)) * 8
	n := 0
	for j := 0; j < w; j++ {
		r.True(b.Test(j) == m[j], "Test(%d): got %v, want %v", j, b.Test(j), m[j])
		if m[j] {
			n++
		}
	}
	for _, j := range []int{w, w + 1, 2 * w, math.MaxInt} {
		r.True(!b.Test(j), "Test(%d) beyond the width: got true", j)
	}
	r.Eq("IsEmpty", b.IsEmpty(), n == 0)
	r.Eq("IsFull", b.IsFull(), n == w)
	r.Eq("Test of nothing", b.Test(), false)
}

func step[T unsigned](r *vr.R, b *bitsetx.BitSet[T], m map[int]bool, op int, list []int) {
	var z T
	w := int(unsafe.Sizeof(z)) * 8
	any := false
	for _, j := range list {
		if j < w {
			any = any || m[j]
		}
	}
	switch op {
	case 0:
		b.Set(list...)
	case 1:
		b.Clear(list...)
	case 2:
		b.Toggle(list...)
	case 3:
		r.Eq(fmt.Sprintf("Test(%v)", list), b.Test(list...), any)
	case 4:
		b.SetAll()
	case 5:
		b.ClearAll()
	case 6:
		b.ToggleAll()
	}
	if op >= 4 {
		list = nil
		for j := 0; j < w; j++ {
			list = append(list, j)
		}
		op -= 4
	}
	for _, j := range list {
		if j >= w {
			continue
		}
		switch op {
		case 0:
			m[j] = true
		case 1:
			m[j] = false
		case 2:
			m[j] = !m[j]
		}
	}
}

func run[T unsigned](r *vr.R, name string, share float64) {
	var z T
	w := int(unsafe.Sizeof(z)) * 8
	pos := []int{0, 1, w / 2, w - 2, w - 1, w, w + 1, 3 * w, math.MaxInt}
	lists := [][]int{nil}
	for _, a := range pos {
		lists = append(lists, []int{a})
		for _, c := range pos {
			lists = append(lists, []int{a, c}, []int{a, c, a})
		}
	}
	names := []string{"Set", "Clear", "Toggle", "Test", "SetAll", "ClearAll", "ToggleAll"}
	n := 0
	for _, start := range [][]int{nil, {0}, {w - 1}, {0, 1, w - 1}, {-1}} {
		for op := range names {
			for _, l := range lists {
				r.Case(func() string { return fmt.Sprintf("BitSet[%s] with %v (-1: full): %s%v", name, start, names[op], l) }, func() {
					var b bitsetx.BitSet[T]
					m := map[int]bool{}
					for _, j := range start {
						if j < 0 {
							step(r, &b, m, 4, nil)
						} else {
							step(r, &b, m, 0, []int{j})
						}
					}
					step(r, &b, m, op, l)
					state(r, &b, m)
					r.Note(fmt.Sprint(name, start, op, l))
				})
				n++
			}
		}
	}
	r.Bound("%s: %d single operations from five states, lists of up to three positions", name, n)
	k := 0
	for ; k < 3000 && r.More(share); k++ {
		var h []string
		r.Case(func() string { return fmt.Sprintf("BitSet[%s]: %v", name, h) }, func() {
			var b bitsetx.BitSet[T]
			m := map[int]bool{}
			for q := 0; q < 1+r.Rng.Intn(12); q++ {
				op := r.Rng.Intn(len(names))
				if op >= 4 && r.Rng.Intn(3) > 0 {
					op -= 4
				}
				var l []int
				for x := r.Rng.Intn(5); x > 0; x-- {
					l = append(l, r.Rng.Intn(w+3))
				}
				h = append(h, fmt.Sprintf("%s%v", names[op], l))
				step(r, &b, m, op, l)
				state(r, &b, m)
			}
			r.Note(fmt.Sprint(name, h))
		})
	}
	r.Bound("%s: %d random histories of up to 12 operations", name, k)
}

func main() {
	vr.Run("P16", func(r *vr.R) {
		run[uint8](r, "uint8", 0.1)
		run[uint16](r, "uint16", 0.2)
		run[uint32](r, "uint32", 0.3)
		run[uint64](r, "uint64", 0.5)
		run[uint](r, "uint", 0.6)
		run[uintptr](r, "uintptr", 0.7)
		run[small](r, "a named uint8", 0.8)
	})
}
