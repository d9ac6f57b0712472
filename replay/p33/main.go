//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"sync"

	"github.com/unsafe-risk/utilx/iox/decouplex"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

var errFull = errors.New("full")

func main() {
	vr.Run("P33", func(r *vr.R) {
		ops := []vr.Op{
			{Name: "Write", Small: []int{0, 1, 5}, Wide: vr.Range(0, 40, 100, 1000)},
			{Name: "Next"},
			{Name: "NextWithoutView"},
		}
		sizes := []int{0, 1, 2, 3, 4, 5, 8}
		for si, size := range sizes {
			for _, own := range []bool{true, false} {
				mk := func() func(vr.Step) {
					ctr := 0
					var dropped [][]byte
					var dropRet int
					var dropErr error
					var drop func(b []byte) (int, error)
					if own {
						drop = func(b []byte) (int, error) {
							dropped = append(dropped, b)
							return dropRet, dropErr
						}
					}
					d := decouplex.NewDecoupler(uint64(size), drop)
					var want [][]byte
					return func(s vr.Step) {
						ctr++
						n := len(dropped)
						switch s.Op {
						case "Write":
							b := bytes.Repeat([]byte{byte(ctr), byte(ctr >> 8)}, s.Arg)[:s.Arg]
							if s.Arg == 0 && ctr%2 == 0 {
								b = nil
							}
							dropRet, dropErr = -ctr, nil
							if ctr%3 == 0 {
								dropErr = errFull
							}
							was := append([]byte(nil), b...)
							got, err := d.Write(b)
							r.True(bytes.Equal(b, was), "Write changed the caller's bytes")
							if len(b) > 0 && len(want) < size {
								r.Eq("Write result", got, len(b))
								r.True(err == nil, "Write: error %v", err)
								r.Eq("calls of drop", len(dropped), n)
								want = append(want, was)
							} else if own {
								r.Eq("calls of drop", len(dropped), n+1)
								r.True(len(dropped[n]) == len(b) && (len(b) == 0 || &dropped[n][0] == &b[0]), "drop was not given the bytes written")
								r.Eq("Write result of a dropped record", got, dropRet)
								r.True(err == dropErr, "Write: error %v, want drop's %v", err, dropErr)
							} else {
								r.Eq("Write result of a dropped record", got, len(b))
								r.True(err == nil, "Write: error %v", err)
							}
							// the caller may use its bytes again
							for i := range b {
								b[i] = 0xEE
							}
						default:
							var seen [][]byte
							view := func(b []byte) { seen = append(seen, append([]byte(nil), b...)) }
							if s.Op == "NextWithoutView" {
								view = nil
							}
							ok := d.Next(view)
							r.Eq("Next", ok, len(want) > 0)
							if ok {
								if view != nil {
									r.Eq("records viewed", len(seen), 1)
									r.True(bytes.Equal(seen[0], want[0]), "record %v, want %v", seen[0], want[0])
								}
								want = want[1:]
							} else {
								r.Eq("records viewed", len(seen), 0)
							}
							r.Eq("calls of drop", len(dropped), n)
						}
					}
				}
				r.Histories(fmt.Sprintf("decoupler of %d slots, drop function given %v", size, own), mk, ops, 7, 0.05+0.75*float64(si+1)/float64(len(sizes)), 80)
			}
		}
		// writers at work at the same time as a reader (not part of the proof)
		for round := 0; round < 12; round++ {
			size := []uint64{1, 2, 3, 8}[round%4]
			r.Case(func() string { return fmt.Sprintf("four writers and a reader, %d slots", size) }, func() {
				var mu sync.Mutex
				dropped := map[uint64]bool{}
				d := decouplex.NewDecoupler(size, func(b []byte) (int, error) {
					mu.Lock()
					defer mu.Unlock()
					dropped[binary.BigEndian.Uint64(b)] = true
					return 0, errFull
				})
				const per = 500
				var wg sync.WaitGroup
				for g := 0; g < 4; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := 0; i < per; i++ {
							var b [8]byte
							binary.BigEndian.PutUint64(b[:], uint64(g)<<32|uint64(i))
							d.Write(b[:])
						}
					}()
				}
				done := make(chan struct{})
				go func() { wg.Wait(); close(done) }()
				last := map[uint64]int64{0: -1, 1: -1, 2: -1, 3: -1}
				viewed := map[uint64]bool{}
				read := func() bool {
					return d.Next(func(b []byte) {
						v := binary.BigEndian.Uint64(b)
						if viewed[v] {
							panic(fmt.Sprintf("record %x viewed twice", v))
						}
						viewed[v] = true
						if int64(v&0xffffffff) <= last[v>>32] {
							panic(fmt.Sprintf("record %x after %x", v, last[v>>32]))
						}
						last[v>>32] = int64(v & 0xffffffff)
					})
				}
				for run := true; run; {
					select {
					case <-done:
						run = false
					default:
					}
					for read() {
					}
				}
				for g := uint64(0); g < 4; g++ {
					for i := uint64(0); i < per; i++ {
						v := g<<32 | i
						r.True(viewed[v] != dropped[v], "record %x: viewed %v, dropped %v", v, viewed[v], dropped[v])
					}
				}
				r.Note(fmt.Sprint("concurrent", round))
			})
		}
		r.Bound("12 rounds of four concurrent writers and one reader, 2000 records each")
	})
}
