//go:build go1.22

package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"

	"github.com/unsafe-risk/utilx/typex/convx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

type integer interface {
	int8 | int16 | int32 | int64 | int | uint8 | uint16 | uint32 | uint64 | uint
}
type number interface {
	integer | float32 | float64
}

var r *vr.R
var seen = map[string]bool{}

// check that the registered conversion of x gives want
func check[T, R any](x T, want R) {
	from, to := reflect.TypeOf((*T)(nil)).Elem(), reflect.TypeOf((*R)(nil)).Elem()
	seen[fmt.Sprint(from, " to ", to)] = true
	r.Case(func() string { return fmt.Sprintf("convert %v(%#v) to %v", from, x, to) }, func() {
		r.True(convx.Exists[T, R](), "no converter from %v to %v is registered", from, to)
		got, ok := convx.Into[T, R](x)
		r.True(ok, "Into reports no conversion")
		r.True(reflect.DeepEqual(got, want), "Into gives %#v, should give %#v", got, want)
	})
}

func isFloat[T number]() bool { return T(1)/2 != 0 }

func ints[T integer]() []T {
	xs := []T{0, 1, 2, 7, 10, 42, 99, 100, 127}
	one := T(1)
	for k := 0; k < 64; k++ {
		p := one << k
		xs = append(xs, p, p-1, p+1, -p, ^p)
	}
	s := uint64(12345)
	for i := 0; i < 60; i++ {
		s = s*6364136223846793005 + 1442695040888963407
		xs = append(xs, T(s>>uint(s>>59)))
	}
	return xs
}

func floats[T float32 | float64]() []T {
	xs := []T{0, 1, -1, 0.5, -0.25, 0.1, 1.0 / 3, 3, 100, -128, 127, 12345.678, 1e10, 1e-10, 16777216, 16777215.5}
	s := uint64(99)
	for i := 0; i < 60; i++ {
		s = s*6364136223846793005 + 1442695040888963407
		xs = append(xs, T(math.Float32frombits(uint32(s>>33)&^(1<<30)|uint32(s&1)<<31)))
	}
	return xs
}

func wide[T float32 | float64]() []T {
	xs := floats[T]()
	var t T
	if _, ok := any(t).(float32); ok {
		return append(xs, T(math.MaxFloat32), T(math.SmallestNonzeroFloat32), -T(math.MaxFloat32), T(math.Inf(1)), T(math.Inf(-1)))
	}
	for _, f := range []float64{math.MaxFloat64, math.SmallestNonzeroFloat64, -math.MaxFloat64, 1e300, 1.0000000000000002, 9007199254740993, math.Inf(1), math.Inf(-1)} {
		xs = append(xs, T(f))
	}
	return xs
}

func pair[T, R number](xs []T) {
	for _, x := range xs {
		f := float64(x)
		if isFloat[T]() && !isFloat[R]() {
			// outside the range of the target the result depends on the machine
			if math.IsNaN(f) || f <= -128 || f >= 128 || f < 0 && R(0)-1 > 0 {
				continue
			}
		}
		check(x, R(x))
	}
}

func all[T number](xs []T) {
	pair[T, int8](xs)
	pair[T, int16](xs)
	pair[T, int32](xs)
	pair[T, int64](xs)
	pair[T, int](xs)
	pair[T, uint8](xs)
	pair[T, uint16](xs)
	pair[T, uint32](xs)
	pair[T, uint64](xs)
	pair[T, uint](xs)
	pair[T, float32](xs)
	pair[T, float64](xs)
	for _, x := range xs {
		check(x, x != 0)
		// text and back
		var s string
		if isFloat[T]() {
			s = strconv.FormatFloat(float64(x), 'f', -1, 64)
		} else if T(0)-1 < 0 {
			s = strconv.FormatInt(int64(x), 10)
		} else {
			s = strconv.FormatUint(uint64(x), 10)
		}
		check(x, s)
		check(s, x)
	}
	check(true, T(1))
	check(false, T(0))
	for _, s := range []string{"", "x", "1x", " 1", "--1", "NAN1"} {
		check(s, T(0))
	}
}

func main() {
	vr.Run("P30", func(rr *vr.R) {
		r = rr
		all(ints[int8]())
		all(ints[int16]())
		all(ints[int32]())
		all(ints[int64]())
		all(ints[int]())
		all(ints[uint8]())
		all(ints[uint16]())
		all(ints[uint32]())
		all(ints[uint64]())
		all(ints[uint]())
		all(wide[float32]())
		all(wide[float64]())
		for _, b := range []bool{false, true} {
			check(b, b)
			check(b, strconv.FormatBool(b))
			check(strconv.FormatBool(b), b)
		}
		for _, s := range []string{"", "1", "t", "T", "TRUE", "True", "0", "f", "no", "yes", "2"} {
			b, _ := strconv.ParseBool(s)
			check(s, b)
		}
		for _, s := range []string{"", "a", "hello", "héllo, 世界", "\x00", "\xff\xfe", "a\U0010ffffb"} {
			check(s, s)
			check(s, []byte(s))
			check([]byte(s), s)
			check([]byte(s), []byte(s))
			check(s, []rune(s))
			check([]rune(s), string([]rune(s)))
			check([]rune(s), []rune(s))
			r.Case(func() string { return fmt.Sprintf("the bytes of %q are changed after the conversion", s) }, func() {
				keep := string([]byte(s))
				b, _ := convx.Into[string, []byte](s)
				t, _ := convx.Into[[]byte, string](b)
				for i := range b {
					b[i] = '#'
				}
				r.Eq("the text converted", s, keep)
				r.Eq("the text converted back", t, keep)
			})
		}
		check([]rune{-1, 0x110000, 0xd800}, "\ufffd\ufffd\ufffd")
		r.Bound("every built-in pair of types (%d pairs) on boundary values of every width and pseudo-random ones", len(seen))
	})
}
