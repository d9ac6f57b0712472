//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/unsafe-risk/utilx/cryptox/passhashx"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

func main() {
	vr.Run("P25", func(r *vr.R) {
		one := func(rec []byte) {
			r.Case(func() string { return fmt.Sprintf("record %x", rec) }, func() {
				var want error
				ok := false
				if len(rec) >= 17 {
					lo, hi := binary.LittleEndian.Uint64(rec[1:]), binary.LittleEndian.Uint64(rec[9:])
					ok = 17 <= lo && lo <= hi && hi <= uint64(len(rec))
				}
				if !ok {
					want = passhashx.ErrInvalidPassHash
				} else if rec[0] > 3 {
					want = passhashx.ErrUnknownAlgorithm
				} else {
					want = passhashx.ErrHashMismatch
				}
				was := append([]byte{}, rec...)
				err := passhashx.Verify([]byte("pw"), rec)
				r.True(err == want, "verification says %v, want %v", err, want)
				r.True(bytes.Equal(rec, was), "the record has changed")
			})
		}
		at := func(n int, param byte, lo, hi uint64) {
			rec := make([]byte, n)
			r.Rng.Read(rec)
			if n > 0 {
				rec[0] = param
			}
			var o [16]byte
			binary.LittleEndian.PutUint64(o[:], lo)
			binary.LittleEndian.PutUint64(o[8:], hi)
			if n > 1 {
				copy(rec[1:], o[:])
			}
			one(rec)
		}
		edges := []uint64{0, 1, 16, 17, 18, 25, 33, 34, 40, 41, 49, 65, 66, 255, 256, 273, 1 << 16, 1<<16 + 17, 1<<24 + 17, 1<<31 - 1, 1 << 31, 1<<32 + 17, 1<<32 + 33, 1<<40 + 33, 1<<48 + 33, 1<<56 + 33, 1<<63 - 1, 1 << 63, 1<<63 + 33, 1<<64 - 1, 1<<64 - 17}
		for n := 0; n < 70; n++ {
			for _, lo := range edges {
				for _, hi := range edges {
					at(n, byte(4+r.Rng.Intn(252)), lo, hi)
				}
			}
		}
		for _, p := range []byte{4, 5, 127, 128, 255} {
			at(65, p, 33, 65)
		}
		for i := 0; i < 200000 && r.More(0.5); i++ {
			rec := make([]byte, r.Rng.Intn(80))
			r.Rng.Read(rec)
			for j := range rec {
				if j > 1 && j < 9 || j > 9 && j < 17 {
					if r.Rng.Intn(30) > 0 {
						rec[j] = 0
					}
				} else if r.Rng.Intn(2) == 0 {
					rec[j] &= 63
				}
			}
			if len(rec) > 0 {
				rec[0] |= 4
			}
			one(rec)
		}
		// known algorithms, which really hash: fewer
		for i := 0; i < 60 && r.More(0.7); i++ {
			at(17+r.Rng.Intn(60), byte(1+2*r.Rng.Intn(2)), 17+uint64(r.Rng.Intn(20)), 17+uint64(r.Rng.Intn(60)))
		}
		r.Bound("records up to 80 bytes, offsets at and around every byte boundary")
	})
}
