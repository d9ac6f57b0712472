def main(imports, body, extra=""):
    imps = "\n".join('\t"%s"' % i for i in imports)
    return "package main\n\nimport (\n" + imps + "\n)\n\n" + extra + "\nfunc main() {\n" + body + "\n}\n"
U = "github.com/unsafe-risk/utilx/"
SEEDS = [
dict(id="S19", prop="P32", needs="a light load for longer than the idle timeout after several workers were started",
 breaks="the worker that waits longest gets the next value, so under a light load no worker is ever idle for the timeout and none is collected",
 edits=[("poolx/gopoolx/timedpool.go", "		w = pool.dobby[len(pool.dobby)-1]\n		pool.dobby = pool.dobby[:len(pool.dobby)-1]\n", "		w = pool.dobby[0]\n		pool.dobby = pool.dobby[:copy(pool.dobby, pool.dobby[1:])]\n")],
 demo=main(["fmt", "os", "time", U + "poolx/gopoolx"], '''	done := make(chan bool, 1)
	p, err := gopoolx.NewTimedPool(4, func(int) { done <- true }, 700*time.Millisecond, 5*time.Millisecond, 4)
	if err != nil {
		os.Exit(2)
	}
	for t := time.Now(); time.Since(t) < 5*time.Second; {
		if p.Run(1) {
			<-done
		}
		time.Sleep(time.Millisecond)
		if p.Workers() == 1 {
			return
		}
	}
	fmt.Println("workers after five seconds of work for one:", p.Workers())
	os.Exit(1)''')),
dict(id="S20", prop="P32", needs="workers that wait for less than the idle timeout while the collector runs",
 breaks="the deadline lies in the future, so the collector ends workers that have only just begun to wait",
 edits=[("poolx/gopoolx/timedpool.go", "time.Now().Add(-pool.idleTimeout).UnixNano()", "time.Now().Add(pool.idleTimeout).UnixNano()")],
 demo=main(["fmt", "os", "time", U + "poolx/gopoolx"], '''	p, err := gopoolx.NewTimedPool(3, func(int) {}, time.Hour, time.Millisecond, 3)
	if err != nil {
		os.Exit(2)
	}
	for i := 0; i < 300; i++ {
		if n := p.Workers(); n != 3 {
			fmt.Println("workers after", i, "ms:", n)
			os.Exit(1)
		}
		time.Sleep(time.Millisecond)
	}''')),
dict(id="S21", prop="P35", needs="a sleep until an instant that is not a whole number of seconds away",
 breaks="the time left is computed in whole seconds, so a sleep ends up to a second before its instant",
 edits=[("timex/sleepx/sleepx.go", "time.After(t.Sub(timex.Now()))", "time.After(time.Duration(t.Unix()-timex.Now().Unix()) * time.Second)")],
 demo=main(["fmt", "os", "time", U + "timex/sleepx"], '''	for i := 0; i < 6; i++ {
		t := time.Now().Add(time.Duration(150+i*130) * time.Millisecond)
		sleepx.New().SleepUntil(t)
		if now := time.Now(); now.Before(t) {
			fmt.Println("ended", t.Sub(now), "too early")
			os.Exit(1)
		}
	}''')),
dict(id="S22", prop="P35", needs="a sleep after another one that was woken",
 breaks="the signal for the next sleep is derived from the one just given, so later sleeps end at once",
 edits=[("timex/sleepx/sleepx.go", "	s.cancel()\n	s.ctx, s.cancel = context.WithCancel(context.Background())\n", "	s.cancel()\n	s.ctx, s.cancel = context.WithCancel(s.ctx)\n")],
 demo=main(["fmt", "os", "time", U + "timex/sleepx"], '''	s := sleepx.New()
	go s.SleepForever()
	for !s.Wakeup() {
		time.Sleep(time.Millisecond)
	}
	done := make(chan bool, 1)
	go func() {
		for !s.SleepForever() {
			time.Sleep(time.Millisecond)
		}
		done <- true
	}()
	select {
	case <-done:
		fmt.Println("the second sleep ended without a wakeup")
		os.Exit(1)
	case <-time.After(500 * time.Millisecond):
	}''')),
dict(id="S23", prop="P37", needs="a handler that takes longer than its caller's reaction to the channel",
 breaks="the handler runs in a goroutine of its own, so the channel is closed before it has returned",
 edits=[("osx/closex/closex.go", "			handler()\n", "			go handler()\n")],
 demo=main(["fmt", "io", "log", "os", "sync/atomic", "syscall", "time", U + "osx/closex"], '''	var done atomic.Bool
	i := closex.HandleKillSig(func() {
		time.Sleep(200 * time.Millisecond)
		done.Store(true)
	}, log.New(io.Discard, "", 0))
	syscall.Kill(os.Getpid(), syscall.SIGTERM)
	<-i.C
	if !done.Load() {
		fmt.Println("closed before the handler returned")
		os.Exit(1)
	}''')),
dict(id="S24", prop="P37", needs="the quit signal, which a terminal sends on control-backslash",
 breaks="the quit signal is not asked for any more: it kills the process with a dump instead of running the handler",
 edits=[("osx/closex/closex.go", "syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM", "syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP")],
 demo=main(["io", "log", "os", "syscall", U + "osx/closex"], '''	i := closex.HandleKillSig(func() {}, log.New(io.Discard, "", 0))
	syscall.Kill(os.Getpid(), syscall.SIGQUIT)
	<-i.C''')),
]
