//go:build go1.22

package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"

	"github.com/unsafe-risk/utilx/cryptox/passhashx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
	"golang.org/x/crypto/argon2"
)

type level struct {
	l        passhashx.SecurityLevel
	time, kb uint32
	lanes    uint8
}

var levels = []level{{passhashx.SecurityLevelHigh, 20, 64 * 1024, 4}, {passhashx.SecurityLevelLow, 32, 4 * 1024, 1}, {passhashx.SecurityLevelMobileHigh, 4, 37 * 1024, 1}, {passhashx.SecurityLevelMobileLow, 8, 15 * 1024, 1}}

func main() {
	vr.Run("P24", func(r *vr.R) {
		salts := map[string]bool{}
		record := func(rec []byte, i int, pw []byte) {
			r.True(len(rec) == 65 && int(rec[0]) == i, "the record has %d bytes and parameter %d", len(rec), rec[0])
			r.True(binary.LittleEndian.Uint64(rec[1:]) == 33 && binary.LittleEndian.Uint64(rec[9:]) == 65, "the record's offsets are wrong")
			salt := string(rec[17:33])
			r.True(!salts[salt] && salt != string(make([]byte, 16)), "a salt is used twice")
			salts[salt] = true
			l := levels[i]
			r.True(bytes.Equal(rec[33:], argon2.IDKey(pw, []byte(salt), l.time, l.kb, l.lanes, 32)), "the hash is not Argon2id of the password under the level's costs")
		}
		one := func(pw []byte, i int) {
			r.Case(func() string { return fmt.Sprintf("password %q at level %d", pw, levels[i].l) }, func() {
				was := append([]byte{}, pw...)
				if r.Rng.Intn(2) == 0 {
					rec, err := passhashx.Hash(pw, levels[i].l)
					r.True(err == nil, "hashing fails: %v", err)
					record(rec, i, pw)
					err = passhashx.Verify(pw, rec)
					r.True(err == nil, "the password is not accepted: %v", err)
					err = passhashx.Verify(append(append([]byte{}, pw...), 'x'), rec)
					r.True(err == passhashx.ErrHashMismatch, "another password: %v", err)
					k := 17 + r.Rng.Intn(48)
					rec[k] ^= 1
					err = passhashx.Verify(pw, rec)
					r.True(err == passhashx.ErrHashMismatch, "byte %d of the record altered: %v", k, err)
				} else {
					s, err := passhashx.HashBase64(pw, levels[i].l)
					r.True(err == nil, "hashing fails: %v", err)
					rec, err := base64.RawURLEncoding.DecodeString(s)
					r.True(err == nil, "the text is not unpadded URL-safe base64")
					record(rec, i, pw)
					err = passhashx.VerifyBase64(pw, s)
					r.True(err == nil, "the password is not accepted: %v", err)
					err = passhashx.VerifyBase64(append(append([]byte{}, pw...), 'x'), s)
					r.True(err == passhashx.ErrHashMismatch, "another password: %v", err)
				}
				r.True(bytes.Equal(pw, was), "the password's bytes have changed")
			})
		}
		// records made by hand: any salt and hash length
		byHand := func(i, salt, tail int, match bool) {
			r.Case(func() string { return fmt.Sprintf("record with parameter %d, a salt of %d bytes, %d bytes after it (matching: %v)", i, salt, tail, match) }, func() {
				pw := []byte("p\xff\x00w")
				l := levels[i]
				s := make([]byte, salt)
				r.Rng.Read(s)
				h := argon2.IDKey(pw, s, l.time, l.kb, l.lanes, 32)
				if !match {
					h = h[:r.Rng.Intn(32)]
				}
				rec := make([]byte, 17, 17+salt+64)
				rec[0] = byte(i)
				binary.LittleEndian.PutUint64(rec[1:], uint64(17+salt))
				binary.LittleEndian.PutUint64(rec[9:], uint64(17+salt+len(h)))
				rec = append(append(append(rec, s...), h...), make([]byte, tail)...)
				err := passhashx.Verify(pw, rec)
				r.True((err == nil) == match, "verification says %v", err)
			})
		}
		for i := range levels {
			one([]byte("correct horse"), i)
			one(nil, i)
		}
		for _, n := range []int{0, 1, 8, 255, 300} {
			byHand(3, n, 0, true)
			byHand(3, n, 3, true)
			byHand(2, n, 0, false)
		}
		for l := -32768; l < 32768; l++ {
			if l >= 1 && l <= 4 {
				continue
			}
			if l > 300 && l < 32000 || l < -300 && l > -32000 {
				l += 50
			}
			r.Case(func() string { return fmt.Sprintf("level %d", l) }, func() {
				rec, err := passhashx.Hash([]byte("x"), passhashx.SecurityLevel(l))
				r.True(rec == nil && err == passhashx.ErrInvalidSecurityLevel, "error %v", err)
				s, err := passhashx.HashBase64([]byte("x"), passhashx.SecurityLevel(l))
				r.True(s == "" && err == passhashx.ErrInvalidSecurityLevel, "error %v", err)
			})
		}
		for i := 0; i < 400 && r.More(0.5); i++ {
			pw := make([]byte, r.Rng.Intn(100))
			r.Rng.Read(pw)
			one(pw, r.Rng.Intn(4))
		}
		r.Bound("passwords up to 100 bytes, salts up to 300 bytes")
	})
}
