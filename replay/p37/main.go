//go:build go1.22

package main

import (
	"fmt"
	"io"
	"log"
	"os"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/unsafe-risk/utilx/osx/closex"
	"github.com/unsafe-risk/utilx/zz_verif_replay/vr"
)

const long = 20 * time.Second

func main() {
	vr.Run("P37", func(r *vr.R) {
		logger := log.New(io.Discard, "", 0)
		sigs := []syscall.Signal{syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM}
		// the signals go to this process only
		kill := func(s syscall.Signal) { syscall.Kill(os.Getpid(), s) }
		for round := 0; round < 2; round++ {
			for n := 1; n <= 4; n++ {
				total := 1
				for i := 0; i < n; i++ {
					total *= len(sigs)
				}
				for c := 0; c < total; c++ {
					var list []syscall.Signal
					for i, k := 0, c; i < n; i, k = i+1, k/len(sigs) {
						list = append(list, sigs[k%len(sigs)])
					}
					slow := round == 1 && c%9 == 0
					r.Case(func() string { return fmt.Sprintf("signals %v, slow handler %v", list, slow) }, func() {
						var calls atomic.Int32
						var early, closed atomic.Bool
						var ch <-chan struct{}
						ready := make(chan struct{})
						intr := closex.HandleKillSig(func() {
							<-ready
							if slow {
								time.Sleep(2 * time.Millisecond)
							}
							select {
							case <-ch:
								early.Store(true)
							default:
							}
							calls.Add(1)
						}, logger)
						ch = intr.C
						r.True(ch != nil, "no channel")
						select {
						case <-ch:
							r.Failf("the channel is closed before any signal")
						case <-time.After(50 * time.Microsecond):
						}
						r.Eq("calls before any signal", calls.Load(), int32(0))
						close(ready)
						for i, s := range list {
							kill(s)
							if i == 0 || round == 0 {
								select {
								case _, ok := <-ch:
									closed.Store(!ok)
								case <-time.After(long):
									r.Failf("the channel is not closed after %v", s)
								}
								r.True(!early.Load(), "the channel was closed before the handler had run")
								r.Eq("calls of the handler", calls.Load(), int32(1))
							}
						}
						r.True(closed.Load(), "a value came through the channel")
						if c%5 == 0 {
							time.Sleep(time.Millisecond)
						}
						r.Eq("calls of the handler", calls.Load(), int32(1))
					})
				}
			}
		}
		r.Bound("all sequences of up to 4 of the three signals, sent to the process itself, twice")
	})
}
