package poolx/gopoolx

immutable TimedPool.handler, TimedPool.idleTimeout, TimedPool.gcPeriod

pred worker(w) := w != nil && w.ch != nil

// the workers waiting for work are distinct and so are their channels, which are open while the pool accepts work
pred workers(p) := forall(int(i), imp(0 <= i && i < len(p.dobby), worker(p.dobby[i])))
pred distinct(p) := forall(int(i), int(j), imp(0 <= i && i < j && j < len(p.dobby), p.dobby[i] != p.dobby[j] && p.dobby[i].ch != p.dobby[j].ch))
pred idle(p) := workers(p) && distinct(p)
pred open(p) := forall(int(i), imp(0 <= i && i < len(p.dobby), !chclosed(p.dobby[i].ch)))
pred good(p) := (p.maxWorkers == -1 || 0 < p.maxWorkers && 0 <= p.workers && p.workers <= p.maxWorkers) && idle(p) && imp(p.maxWorkers != -1, open(p))
guard TimedPool.mu: TimedPool.maxWorkers, TimedPool.workers, TimedPool.dobby, elems(TimedPool.dobby) inv ok(p) := good(p)

pred worked() := starting("tworker")
pred started() := ncalls(worked()) - old(ncalls(worked()))
pred last(f) := ncalls(f) - 1

pred newest() := callarg(*timedworker[T], worked(), last(worked()), 1)

func (*TimedPool).Run(pool, v) (ok)
  prop P32
  inline (*Pool).Init (*Pool).Get (*Pool).Put
  requires pool != nil && pool.handler != nil
  modifies pool.workers, pool.dobby, all(timedworker.ch), callsAny()
  allocs timedworker
  ensures[accept] iff(ok, acq(pool.maxWorkers) != -1 && (acq(len(pool.dobby)) > 0 || acq(pool.workers) < acq(pool.maxWorkers)))
  ensures[refused] imp(!ok, tick() == old(tick()) && rel(pool.workers) == acq(pool.workers) && rel(len(pool.dobby)) == acq(len(pool.dobby)))
  ensures[limit] rel(pool.maxWorkers) == acq(pool.maxWorkers)
  ensures[kept] forall(int(i), imp(0 <= i && i < rel(len(pool.dobby)), rel(pool.dobby[i]) == acq(pool.dobby[i])))
  ensures[idle] imp(ok && acq(len(pool.dobby)) > 0, rel(pool.workers) == acq(pool.workers) && rel(len(pool.dobby)) == acq(len(pool.dobby)) - 1)
  ensures[idle-sent] imp(ok && acq(len(pool.dobby)) > 0, tick() == old(tick()) + 1 && who(old(tick())) == sending(acq(pool.dobby[len(pool.dobby)-1].ch)) && callarg(T, who(old(tick())), last(who(old(tick())))) == v)
  ensures[new] imp(ok && acq(len(pool.dobby)) == 0, rel(pool.workers) == acq(pool.workers) + 1 && rel(len(pool.dobby)) == 0)
  ensures[new-started] imp(ok && acq(len(pool.dobby)) == 0, tick() == old(tick()) + 2 && started() == 1 && callarg(*TimedPool[T], worked(), last(worked()), 0) == pool)
  ensures[new-sent] imp(ok && acq(len(pool.dobby)) == 0, forall(int(t), imp(old(tick()) <= t && t < tick() && who(t) != worked(), who(t) == sending(newest().ch) && callarg(T, who(t), callno(t)) == v), trig(who(t))))

pred received(ch) := ncalls(receiving(ch)) - old(ncalls(receiving(ch)))
pred handled(f) := ncalls(f) - old(ncalls(f))
// the i-th value received is the i-th handled
pred matched(ch, f, n) := forall(int(k), imp(old(ncalls(f)) <= k && k < old(ncalls(f)) + n, callarg(T, f, k) == callret(T, receiving(ch), old(ncalls(receiving(ch))) + (k - old(ncalls(f)))) && callret(bool, receiving(ch), old(ncalls(receiving(ch))) + (k - old(ncalls(f))), 1)), trig(callarg(T, f, k)))

func tworker(pool, w, ch)
  prop P32
  inline (*Pool).Init (*Pool).Get (*Pool).Put
  partial
  requires pool != nil && pool.handler != nil && w != nil && ch != nil && w.ch == ch && !chclosed(ch)
  rely acq(pool.workers) >= 1
  rely forall(int(i), imp(0 <= i && i < acq(len(pool.dobby)), acq(pool.dobby[i]) != w && acq(pool.dobby[i].ch) != ch))
  modifies pool.workers, pool.dobby, elems(acq(pool.dobby)), all(timedworker.tt), callsAny()
  allocs []*timedworker[T]
  section pool.maxWorkers == acq(pool.maxWorkers) && forall(int(i), imp(0 <= i && i < acq(len(pool.dobby)), pool.dobby[i] == acq(pool.dobby[i])))
  section pool.workers == acq(pool.workers) - 1 && len(pool.dobby) == acq(len(pool.dobby)) || acq(pool.maxWorkers) != -1 && pool.workers == acq(pool.workers) && len(pool.dobby) == acq(len(pool.dobby)) + 1 && pool.dobby[acq(len(pool.dobby))] == w
  tally acq(pool.workers) - pool.workers
  tally len(pool.dobby) - acq(len(pool.dobby))
  loop received(ch) == handled(pool.handler) && 0 <= received(ch)
  loop matched(ch, pool.handler, handled(pool.handler))
  loop tallied(0) == old(tallied(0)) && tallied(1) == old(tallied(1)) + handled(pool.handler)
  ensures[each] matched(ch, pool.handler, handled(pool.handler))
  ensures[all] received(ch) == handled(pool.handler) || received(ch) == handled(pool.handler) + 1 && !callret(bool, receiving(ch), last(receiving(ch)), 1)
  ensures[leaves-once] tallied(0) == old(tallied(0)) + 1
  ensures[returns] tallied(1) == old(tallied(1)) + received(ch) - 1
  ensures[leaves-when] imp(received(ch) == handled(pool.handler), acq(pool.maxWorkers) == -1)

func (*TimedPool).Workers(pool) (n)
  prop P32
  inline (*Pool).Init (*Pool).Get (*Pool).Put
  requires pool != nil
  modifies nothing
  ensures[count] n == acq(pool.workers)

func (*TimedPool).Stop(pool)
  prop P32
  inline (*Pool).Init (*Pool).Get (*Pool).Put
  requires pool != nil && !chclosed(pool.stop)
  modifies pool.stop, callsAny()
  ensures[once] imp(old(pool.stop) == nil, tick() == old(tick()))
  ensures[told] imp(old(pool.stop) != nil, tick() == old(tick()) + 1 && who(old(tick())) == sending(old(pool.stop)))
  ensures[gone] pool.stop == nil

pred size(preheat, max) := ite(preheat <= 0, 0, ite(preheat > max, max, preheat))

func NewTimedPool(maxWorkers, handler, idleTimeout, gcPeriod, preheat) (r, err)
  prop P32
  inline (*Pool).Init (*Pool).Get (*Pool).Put
  modifies callsAny()
  allocs anything
  loop[_n int] started() == _n && 0 <= _n
  loop[_p *TimedPool[T]] fresh(ref(_p.dobby)) || cap(_p.dobby) == 0
  loop[_n int, _p *TimedPool[T]] len(_p.dobby) == _n
  loop[_p *TimedPool[T]] workers(_p)
  loop[_p *TimedPool[T]] distinct(_p)
  loop[_p *TimedPool[T]] open(_p)
  loop[_n int, _p *TimedPool[T]] forall(int(i), imp(0 <= i && i < _n, callarg(*timedworker[T], worked(), old(ncalls(worked())) + i, 1) == _p.dobby[i] && callarg(*TimedPool[T], worked(), old(ncalls(worked())) + i, 0) == _p))
  ensures[max] imp(maxWorkers <= 0, err == ErrInvalidMaxWorkers)
  ensures[handler] imp(maxWorkers > 0 && handler == nil, err == ErrInvalidHandler)
  ensures[timeout] imp(maxWorkers > 0 && handler != nil && idleTimeout <= 0, err == ErrInvalidIdleTimeout)
  ensures[period] imp(maxWorkers > 0 && handler != nil && idleTimeout > 0 && gcPeriod <= 0, err == ErrInvalidGCPeriod)
  ensures[none] imp(maxWorkers <= 0 || handler == nil || idleTimeout <= 0 || gcPeriod <= 0, r == nil && tick() == old(tick()))
  ensures[made] imp(maxWorkers > 0 && handler != nil && idleTimeout > 0 && gcPeriod > 0, err == nil && fresh(r) && r.maxWorkers == maxWorkers && r.handler == handler && r.idleTimeout == idleTimeout && r.gcPeriod == gcPeriod && r.stop != nil && !chclosed(r.stop))
  ensures[preheated] imp(err == nil, r.workers == size(preheat, maxWorkers) && len(r.dobby) == size(preheat, maxWorkers) && good(r))
  ensures[preheated-started] imp(err == nil, started() == len(r.dobby) && forall(int(i), imp(0 <= i && i < len(r.dobby), callarg(*timedworker[T], worked(), old(ncalls(worked())) + i, 1) == r.dobby[i] && callarg(*TimedPool[T], worked(), old(ncalls(worked())) + i, 0) == r)))

pred nanos(t) := t.sec * 1000000000 + t.ns
pred looked() := callret(time.Time, clock(), ncalls(clock()) - 1)
pred old_(p, i) := nanos(looked()) - p.idleTimeout
// how many waiting workers the section took away
pred taken(p) := acq(len(p.dobby)) - len(p.dobby)


// the channels of the workers that waited when the section began: closed up to n, open from n
pred shutUpTo(p, n) := forall(int(j), imp(0 <= j && j < n && j < acq(len(p.dobby)), chclosed(acq(p.dobby[j].ch))))
pred openUpTo(p, n) := forall(int(j), imp(0 <= j && j <= n && j < acq(len(p.dobby)), !chclosed(acq(p.dobby[j].ch))))
pred shutFrom(p, n) := forall(int(j), imp(0 <= j && n < j && j < acq(len(p.dobby)), chclosed(acq(p.dobby[j].ch))))
pred openFrom(p, n) := forall(int(j), imp(0 <= j && n <= j && j < acq(len(p.dobby)), !chclosed(acq(p.dobby[j].ch))))

// a time of this century or the next and a timeout below 36 years: nanoseconds since 1970 fit 64 bits
pred recent(t, d) := 0 <= t.sec && t.sec < 1<<33 && d <= 1<<60

func NewTimedPool@collector(maxWorkers, handler, idleTimeout, gcPeriod, preheat) (r, err)
  prop P32
  inline (*Pool).Init (*Pool).Get (*Pool).Put
  then go ()
  partial
  requires maxWorkers > 0 && handler != nil && idleTimeout > 0 && gcPeriod > 0 && preheat <= 0
  modifies chclosed(), all(timedworker.ch), all(timedworker.tt), r.maxWorkers, r.dobby, elems(acq(r.dobby)), pool(r.pool.pool), callsAny()
  allocs anything
  rely forall(int(i), imp(0 <= i && i < acq(len(r.dobby)), !chclosed(acq(r.dobby[i].ch))))
  rely !fresh(ref(acq(r.dobby)))
  rely forall(int(i), int(j), imp(0 <= i && i < acq(len(r.dobby)) && 0 <= j && j < acq(len(r.dobby)) && i != j, acq(r.dobby[i].ch) != acq(r.dobby[j].ch)))
  loop[_l int moving plain, _r int moving plain, _m int moving plain] 0 <= _l && _l <= _r && _r <= len(r.dobby) && _m == (_l + _r) / 2
  loop[_l int moving plain, _t int64 fixed plain] imp(0 < _l && _l <= len(r.dobby), r.dobby[_l-1].tt < _t)
  loop[_r int moving plain, _t int64 fixed plain] imp(0 <= _r && _r < len(r.dobby), r.dobby[_r].tt >= _t)
  loop ncalls(receiving(r.stop)) >= old(ncalls(receiving(r.stop)))
  loop ncalls(receiving(r.stop)) > old(ncalls(receiving(r.stop)))
  loop[_b []*timedworker[T]] len(_b) == 0
  loop[_b []*timedworker[T]] fresh(ref(_b)) || cap(_b) == 0
  loop[_n int moving plain] openFrom(r, _n+1)
  loop[_n int moving plain] shutUpTo(r, _n+1)
  loop[_n int moving plain] openFrom(r, _n)
  loop[_n int moving plain] shutUpTo(r, _n)
  loop[_n int moving plain] openUpTo(r, _n)
  loop[_n int moving plain] shutFrom(r, _n)
  loop[_n int moving plain, _b []*timedworker[T]] forall(int(j), imp(_n+1 <= j && 0 <= j && j < len(_b), _b[j] == acq(r.dobby[j])))
  loop[_n int moving plain, _b []*timedworker[T]] forall(int(j), imp(_n+1 <= j && 0 <= j && j < len(_b), _b[j].ch == acq(r.dobby[j].ch)))
  loop[_n int moving plain, _b []*timedworker[T]] forall(int(j), imp(_n <= j && 0 <= j && j < len(_b), _b[j] == acq(r.dobby[j])))
  loop[_n int moving plain, _b []*timedworker[T]] forall(int(j), imp(_n <= j && 0 <= j && j < len(_b), _b[j].ch == acq(r.dobby[j].ch)))
  loop[_b []*timedworker[T]] len(_b) == rel(taken(r)) && rel(taken(r)) <= acq(len(r.dobby))
  section r.workers == acq(r.workers)
  section r.maxWorkers == acq(r.maxWorkers) || r.maxWorkers == -1 && ncalls(receiving(r.stop)) > old(ncalls(receiving(r.stop)))
  section imp(r.maxWorkers != -1, !fresh(ref(r.dobby)))
  section imp(r.maxWorkers != -1, 0 <= taken(r) && taken(r) <= acq(len(r.dobby)))
  section imp(r.maxWorkers != -1, forall(int(k), imp(taken(r) <= k && k < acq(len(r.dobby)), r.dobby[k - taken(r)] == acq(r.dobby[k]))))
  section imp(r.maxWorkers != -1 && recent(looked(), r.idleTimeout), forall(int(k), imp(0 <= k && k == taken(r) - 1, acq(r.dobby[k].tt) < nanos(looked()) - r.idleTimeout)))
  section imp(r.maxWorkers != -1 && recent(looked(), r.idleTimeout), forall(int(k), imp(k == taken(r) && k < acq(len(r.dobby)), acq(r.dobby[k].tt) >= nanos(looked()) - r.idleTimeout)))
  section imp(r.maxWorkers == -1, forall(int(i), imp(0 <= i && i < acq(len(r.dobby)), chclosed(acq(r.dobby[i].ch)))))
  after imp(rel(r.maxWorkers) != -1, forall(int(i), imp(0 <= i && i < rel(taken(r)), chclosed(acq(r.dobby[i].ch)))))
  after imp(rel(r.maxWorkers) != -1, forall(int(i), imp(0 <= i && i < rel(len(r.dobby)), !chclosed(rel(r.dobby[i].ch)))))
  ensures[ends] rel(r.maxWorkers) == -1
