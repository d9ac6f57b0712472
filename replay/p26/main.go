//go:build go1.22

package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"fmt"

	"github.com/unsafe-risk/utilx/cryptox/aesx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

type mode struct {
	name     string
	enc, dec func(data, key []byte) ([]byte, error)
	head     int
	block    int
	extra    int
	ref      func(b cipher.Block, head, body []byte) ([]byte, error)
}

var modes = []mode{
	{"CBC", aesx.EncryptCBC, aesx.DecryptCBC, 16, 16, 0, func(b cipher.Block, head, body []byte) ([]byte, error) {
		out := make([]byte, len(body))
		cipher.NewCBCDecrypter(b, head).CryptBlocks(out, body)
		return out, nil
	}},
	{"CTR", aesx.EncryptCTR, aesx.DecryptCTR, 16, 1, 0, func(b cipher.Block, head, body []byte) ([]byte, error) {
		out := make([]byte, len(body))
		cipher.NewCTR(b, head).XORKeyStream(out, body)
		return out, nil
	}},
	{"GCM", aesx.EncryptGCM, aesx.DecryptGCM, 12, 1, 16, func(b cipher.Block, head, body []byte) ([]byte, error) {
		g, err := cipher.NewGCM(b)
		if err != nil {
			return nil, err
		}
		return g.Open(nil, head, body, nil)
	}},
}

// room returns a copy of b inside a larger array of sentinels, and a test that only b's bytes are there.
func room(b []byte) ([]byte, func() bool) {
	all := bytes.Repeat([]byte{0xa5}, len(b)+96)
	copy(all[32:], b)
	want := append([]byte{}, all...)
	return all[32 : 32+len(b) : len(all)], func() bool { return bytes.Equal(all, want) }
}

func main() {
	vr.Run("P26", func(r *vr.R) {
		heads := map[string]bool{}
		one := func(m mode, n, kn int) {
			data, key := make([]byte, n), make([]byte, kn)
			r.Rng.Read(data)
			r.Rng.Read(key)
			if r.Rng.Intn(8) == 0 {
				data = make([]byte, n)
			}
			r.Case(func() string { return fmt.Sprintf("%s of %d bytes, key of %d", m.name, n, kn) }, func() {
				d, dOK := room(data)
				k, kOK := room(key)
				if n == 0 && r.Rng.Intn(2) == 0 {
					d = nil
				}
				c, err := m.enc(d, k)
				r.True(err == nil, "encryption fails: %v", err)
				r.True(dOK() && kOK(), "encryption changes its arguments or the memory behind them")
				r.True(len(c) == n+m.head+m.extra, "the ciphertext has %d bytes, want %d", len(c), n+m.head+m.extra)
				h := m.name + string(c[:m.head])
				r.True(!heads[h], "an initialisation vector is used twice: %x", c[:m.head])
				heads[h] = true
				sum := sha256.Sum256(key)
				b, _ := aes.NewCipher(sum[:])
				p, err := m.ref(b, c[:m.head:m.head], append([]byte{}, c[m.head:]...))
				r.True(err == nil && bytes.Equal(p, data), "the ciphertext is not the text under SHA-256 of the key in this mode")
				cc, cOK := room(c)
				p, err = m.dec(cc, k)
				r.True(err == nil, "decryption fails: %v", err)
				r.True(bytes.Equal(p, data), "decrypts to %x, want %x", p, data)
				r.True(cOK() && kOK() && dOK(), "decryption changes its arguments or the memory behind them")
				for i := range p {
					p[i] ^= 0xff
				}
				for i := range c {
					c[i] ^= 0xff
				}
				r.True(cOK() && kOK() && dOK(), "a result shares memory with an argument")
				p, err = m.dec(cc, k)
				r.True(err == nil && bytes.Equal(p, data), "decrypting again gives a different result")
			})
		}
		for _, m := range modes {
			for n := 0; n <= 130; n += m.block {
				for _, kn := range []int{0, 1, 16, 31, 32, 33, 64, 200} {
					one(m, n, kn)
				}
			}
			for n := 4000 / m.block * m.block; n < 4100; n += m.block {
				one(m, n, 32)
			}
		}
		for i := 0; i < 20000 && r.More(0.6); i++ {
			m := modes[r.Rng.Intn(3)]
			n := r.Rng.Intn(300)
			if r.Rng.Intn(20) == 0 {
				n = r.Rng.Intn(70000)
			}
			one(m, n/m.block*m.block, r.Rng.Intn(80))
		}
		r.Bound("texts up to 70000 bytes, keys up to 200 bytes")
	})
}
