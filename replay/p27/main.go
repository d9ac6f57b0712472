//go:build go1.22

package main

import (
	"bytes"
	"fmt"

	"github.com/unsafe-risk/utilx/cryptox/aesx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

func main() {
	vr.Run("P27", func(r *vr.R) {
		bytesOf := func(n int) []byte {
			if n == 0 && r.Rng.Intn(2) == 0 {
				return nil
			}
			b := make([]byte, n, n+r.Rng.Intn(40))
			r.Rng.Read(b)
			return b
		}
		lengths := func(n int) {
			r.Case(func() string { return fmt.Sprintf("any %d bytes", n) }, func() {
				d, k := bytesOf(n), bytesOf(r.Rng.Intn(40))
				was := append([]byte{}, d...)
				p, err := aesx.DecryptCBC(d, k)
				r.True((err == nil) == (n >= 16 && n%16 == 0), "CBC: error %v", err)
				r.True(err != nil || len(p) == n-16, "CBC: %d bytes", len(p))
				r.True(err == nil || p == nil, "CBC: an error and a text")
				p, err = aesx.DecryptCTR(d, k)
				r.True((err == nil) == (n >= 16), "CTR: error %v", err)
				r.True(err != nil || len(p) == n-16, "CTR: %d bytes", len(p))
				r.True(err == nil || p == nil, "CTR: an error and a text")
				p, err = aesx.DecryptGCM(d, k)
				r.True(err != nil && p == nil, "GCM accepts %x as %x", d, p)
				p, err = aesx.EncryptCBC(d, k)
				r.True((err == nil) == (n%16 == 0), "encrypting by CBC: error %v", err)
				r.True(err == nil || p == nil, "encrypting by CBC: an error and a text")
				r.True(bytes.Equal(d, was), "the data has changed")
			})
		}
		for n := 0; n < 400; n++ {
			lengths(n)
		}
		gcm := func(n int, alter func(c, k []byte) ([]byte, []byte), what string) {
			r.Case(func() string { return fmt.Sprintf("GCM of %d bytes, %s", n, what) }, func() {
				d, k := bytesOf(n), bytesOf(1+r.Rng.Intn(40))
				c, err := aesx.EncryptGCM(d, k)
				r.True(err == nil, "encryption fails: %v", err)
				p, err := aesx.DecryptGCM(c, k)
				r.True(err == nil && bytes.Equal(p, d), "what encryption produced is not accepted: %v", err)
				c2, k2 := alter(append([]byte{}, c...), append([]byte{}, k...))
				if bytes.Equal(c2, c) && bytes.Equal(k2, k) {
					return
				}
				p, err = aesx.DecryptGCM(c2, k2)
				r.True(err != nil, "altered data or another key is accepted")
				r.True(p == nil, "an error comes with a text")
			})
		}
		for _, n := range []int{0, 1, 2, 15, 16, 17, 32, 63} {
			for i := 0; i < n+28; i++ {
				i := i
				gcm(n, func(c, k []byte) ([]byte, []byte) { c[i] ^= 1 << r.Rng.Intn(8); return c, k }, fmt.Sprintf("byte %d altered", i))
				gcm(n, func(c, k []byte) ([]byte, []byte) { return c[:i], k }, fmt.Sprintf("cut to %d bytes", i))
				gcm(n, func(c, k []byte) ([]byte, []byte) { return c[i:], k }, fmt.Sprintf("without its first %d bytes", i))
			}
			gcm(n, func(c, k []byte) ([]byte, []byte) { return append(c, 0), k }, "a byte added")
			gcm(n, func(c, k []byte) ([]byte, []byte) { return append(c, c...), k }, "doubled")
			gcm(n, func(c, k []byte) ([]byte, []byte) { return append(c[:12:12], make([]byte, 16)...), k }, "a zero tag")
			gcm(n, func(c, k []byte) ([]byte, []byte) { k[len(k)-1] ^= 1; return c, k }, "another key")
			gcm(n, func(c, k []byte) ([]byte, []byte) { return c, k[:len(k)-1] }, "a shorter key")
			gcm(n, func(c, k []byte) ([]byte, []byte) { return c, append(k, 0) }, "a longer key")
		}
		for i := 0; i < 20000 && r.More(0.6); i++ {
			lengths(r.Rng.Intn(2000))
			gcm(r.Rng.Intn(200), func(c, k []byte) ([]byte, []byte) {
				for j := r.Rng.Intn(3); j >= 0; j-- {
					c[r.Rng.Intn(len(c))] = byte(r.Rng.Int())
				}
				return c, k
			}, "bytes overwritten")
		}
		r.Bound("data up to 2000 bytes; single alterations of every byte for texts up to 63 bytes")
	})
}
