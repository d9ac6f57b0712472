package timex/sleepx

// a context that never ends by itself
fun endless(_) bool
extern context.Background() (c)
  ensures c != nil && endless(c)

// the channel a context is ended by, the channel a cancel function closes
fun doneOf(_) chan struct{}
fun ends(_) chan struct{}
extern context.WithCancel(parent) (ctx, cancel)
  requires parent != nil
  ensures ctx != nil && cancel != nil && doneOf(ctx) != nil && ends(cancel) == doneOf(ctx) && imp(endless(parent), !chclosed(doneOf(ctx)))

invoke context.Context.Done(c) (ch)
  modifies calls(method(c, "Done"))
  ensures ncalls(method(c, "Done")) == old(ncalls(method(c, "Done"))) + 1 && callret(<-chan struct{}, method(c, "Done"), old(ncalls(method(c, "Done")))) == ch
  ensures tick() == old(tick()) + 1 && who(old(tick())) == method(c, "Done") && callno(old(tick())) == old(ncalls(method(c, "Done")))
  ensures ch == doneOf(c)

// how long the channel that is received from waits
fun waits(_) time.Duration
extern time.After(d) (ch)
  ensures ch != nil && waits(receiving(ch)) == d

extern time.NewTimer(d) (t)
  modifies nothing
  allocs anything
  ensures t != nil && fresh(t) && t.C != nil && waits(receiving(t.C)) == d
extern time.(*Timer).Stop(t) (b)
  modifies nothing
extern time.Until(t) (d)
  modifies calls(timex.clock())
  ensures ncalls(timex.clock()) == old(ncalls(timex.clock())) + 1 && tick() == old(tick()) + 1
  ensures reading(old(ncalls(timex.clock()))).mono > 0 && 0 <= reading(old(ncalls(timex.clock()))).ns && reading(old(ncalls(timex.clock()))).ns < 1000000000
  ensures until(d, t, reading(old(ncalls(timex.clock()))))
pred reading(k) := callret(time.Time, timex.clock(), k)

pred good(s) := s.ctx != nil && s.cancel != nil && doneOf(s.ctx) != nil && !chclosed(doneOf(s.ctx)) && ends(s.cancel) == doneOf(s.ctx)
guard Sleeper.mu: Sleeper.ctx, Sleeper.cancel, Sleeper.slept inv ok(s) := good(s)

pred wrap(x) := (x + (1<<63)) % (1<<64) - (1<<63)
pred nanos(t) := t.sec * 1000000000 + t.ns
// the one reading of the clock
pred read() := callret(time.Time, timex.clock(), old(ncalls(timex.clock())))
pred until(d, t, n) := imp(t.mono > 0 && n.mono > 0 && -(1<<63) <= t.mono - n.mono && t.mono - n.mono < 1<<63, d == t.mono - n.mono) && imp(t.mono == 0, timex.between(d, nanos(t) - nanos(n)))
pred asked() := tick() - old(tick())
pred same(s) := s.ctx == acq(s.ctx) && s.cancel == acq(s.cancel)
pred signal(s) := callret(<-chan struct{}, who(old(tick())), callno(old(tick())))

func New() (s)
  prop P35
  modifies nothing
  allocs anything
  ensures s != nil && fresh(s) && !s.slept && good(s)

func (*Sleeper).SleepForever(s) (r)
  prop P35
  partial
  requires s != nil
  modifies s.slept, callsAny()
  rely imp(asked() > 0, acq(s.slept))
  section imp(asked() == 0, acq(s.slept) && s.slept && same(s))
  section imp(asked() == 1, !acq(s.slept) && s.slept && same(s) && who(old(tick())) == method(acq(s.ctx), "Done"))
  section imp(asked() > 1, !s.slept && same(s))
  tally ite(s.slept, 1, 0) - ite(acq(s.slept), 1, 0)
  ensures[refused] imp(!r, asked() == 0)
  ensures[slept] imp(r, asked() == 2 && (who(old(tick()) + 1) == receiving(signal(s))))
  ensures[over] tallied(0) == old(tallied(0))

func (*Sleeper).SleepFor(s, d) (r)
  prop P35
  partial
  requires s != nil
  modifies s.slept, callsAny()
  allocs anything
  rely imp(asked() > 0, acq(s.slept))
  section imp(asked() == 0, acq(s.slept) && s.slept && same(s))
  section imp(asked() == 1, !acq(s.slept) && s.slept && same(s) && who(old(tick())) == method(acq(s.ctx), "Done"))
  section imp(asked() > 1, !s.slept && same(s))
  tally ite(s.slept, 1, 0) - ite(acq(s.slept), 1, 0)
  ensures[refused] imp(!r, asked() == 0)
  ensures[slept] imp(r, asked() == 2 && (who(old(tick()) + 1) == receiving(signal(s)) || waits(who(old(tick()) + 1)) == wrap(d * 1000000000)))
  ensures[over] tallied(0) == old(tallied(0))

func (*Sleeper).SleepUntil(s, t) (r)
  prop P35
  partial
  requires s != nil
  modifies s.slept, callsAny()
  allocs anything
  rely imp(asked() > 0, acq(s.slept))
  section imp(asked() == 0, acq(s.slept) && s.slept && same(s))
  section imp(asked() == 1, !acq(s.slept) && s.slept && same(s) && who(old(tick())) == method(acq(s.ctx), "Done"))
  section imp(asked() > 1, !s.slept && same(s))
  tally ite(s.slept, 1, 0) - ite(acq(s.slept), 1, 0)
  ensures[refused] imp(!r, asked() == 0)
  ensures[slept] imp(r, asked() == 3 && imp(who(tick() - 1) != receiving(signal(s)), until(waits(who(tick() - 1)), t, read())))
  ensures[over] tallied(0) == old(tallied(0))

func (*Sleeper).Wakeup(s) (r)
  prop P35
  requires s != nil
  modifies s.ctx, s.cancel, callsAny()
  allocs anything
  ensures[asleep] iff(r, acq(s.slept)) && rel(s.slept) == acq(s.slept)
  ensures[idle] imp(!r, asked() == 0 && rel(s.ctx) == acq(s.ctx) && rel(s.cancel) == acq(s.cancel))
  ensures[woken] imp(r, asked() == 1 && who(old(tick())) == acq(s.cancel) && !chclosed(doneOf(rel(s.ctx))))
