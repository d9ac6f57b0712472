//go:build go1.22

package main

import (
	"bytes"
	"fmt"

	"github.com/unsafe-risk/utilx/cryptox/bcryptx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
	"golang.org/x/crypto/bcrypt"
)

func main() {
	vr.Run("P28", func(r *vr.R) {
		random := func(n int) []byte {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(1 + r.Rng.Intn(255))
			}
			return b
		}
		one := func(n int) {
			pw := random(n)
			r.Case(func() string { return fmt.Sprintf("password of %d bytes: %x", n, pw) }, func() {
				was := append([]byte{}, pw...)
				h, err := bcryptx.Encrypt(pw)
				if n > 72 {
					r.True(err == bcryptx.ErrPasswordTooLong && h == nil, "hashing a long password: %v", err)
					k, _ := bcrypt.GenerateFromPassword(pw[:72], bcrypt.MinCost)
					ok, err := bcryptx.Decrypt(k, pw)
					r.True(!ok && err == bcryptx.ErrPasswordTooLong, "a long password is compared by its first 72 bytes: %v %v", ok, err)
					return
				}
				r.True(err == nil, "hashing fails: %v", err)
				c, err := bcrypt.Cost(h)
				r.True(err == nil && c >= bcrypt.DefaultCost, "the cost is %d", c)
				ok, err := bcryptx.Decrypt(h, pw)
				r.True(ok && err == nil, "the password is not accepted: %v", err)
				other := append([]byte{}, pw...)
				if n == 0 {
					other = []byte("x")
				} else {
					other[r.Rng.Intn(n)] ^= 0x40
				}
				ok, err = bcryptx.Decrypt(h, other)
				r.True(!ok && err != nil, "another password is accepted")
				if n > 0 {
					ok, err = bcryptx.Decrypt(h, pw[:n-1])
					r.True(!ok && err != nil, "a shortened password is accepted")
				}
				r.True(bytes.Equal(pw, was), "the password's bytes have changed")
			})
		}
		for _, n := range []int{0, 1, 8, 55, 56, 71, 72, 73, 74, 100, 1000} {
			one(n)
		}
		for n := 73; n < 200; n++ {
			one(n)
		}
		good, _ := bcrypt.GenerateFromPassword([]byte("pw"), bcrypt.MinCost)
		for i := 0; i <= len(good); i++ {
			i := i
			r.Case(func() string { return fmt.Sprintf("hash cut to %d bytes", i) }, func() {
				ok, err := bcryptx.Decrypt(good[:i], []byte("pw"))
				r.True(ok == (i == len(good)) && ok == (err == nil), "%v %v", ok, err)
			})
			if i == len(good) || i == 4 || i == 5 {
				// the cost digits are left alone: a huge cost takes for ever
				continue
			}
			r.Case(func() string { return fmt.Sprintf("byte %d of the hash altered", i) }, func() {
				h := append([]byte{}, good...)
				h[i] ^= 1
				want := bcrypt.CompareHashAndPassword(h, []byte("pw")) == nil
				ok, err := bcryptx.Decrypt(h, []byte("pw"))
				r.True(ok == want && ok == (err == nil), "%v %v, want %v", ok, err, want)
			})
		}
		for i := 0; i < 60 && r.More(0.5); i++ {
			one(r.Rng.Intn(80))
		}
		r.Bound("passwords up to 1000 bytes, 60 random ones")
	})
}
