package iox/managerx/closex

// the lock protects the list and its elements
guard CloseManager.lock: CloseManager.list, elems(CloseManager.list) inv ok(c) := forall(int(i), imp(0 <= i && i < len(c.list), c.list[i] != nil))

pred start() := old(tick())
// the calls since the beginning: the Close methods of the first n of the list, in order
pred closed(list, n) := forall(int(t), imp(start() <= t && t < start() + n, who(t) == method(list[t-start()], "Close") && 0 <= callno(t) && callno(t) < ncalls(who(t))), trig(who(t)))
pred failed(t) := callret(error, who(t), callno(t)) != nil
// how many of the calls at a <= t < b failed
pred failures(a, b) := kept(lambda(int(t), failed(t)), a, b)
pred collected(errs, a, b) := len(errs) == failures(a, b) && forall(int(t), imp(a <= t && t < b && failed(t), 0 <= failures(a, t) && failures(a, t) < failures(a, b) && errs[failures(a, t)] == callret(error, who(t), callno(t))), trig(who(t)))

func New() (c)
  prop P31
  modifies nothing
  allocs CloseManager
  ensures[empty] c != nil && fresh(c) && len(c.list) == 0

func (*CloseManager).Append(c, closer)
  prop P31
  requires c != nil && closer != nil
  modifies c.list, elems(acq(c.list), len(acq(c.list)), cap(acq(c.list)))
  allocs []io.Closer
  ensures[last] rel(len(c.list)) == acq(len(c.list)) + 1 && rel(c.list[acq(len(c.list))]) == closer
  ensures[rest] forall(int(i), imp(0 <= i && i < acq(len(c.list)), rel(c.list[i]) == acq(c.list[i])))

func (*CloseManager).Close(c) (err)
  prop P31
  requires c != nil
  modifies callsAny()
  allocs []error
  loop[_n int] tick() == start() + _n && 0 <= _n
  loop[_n int] closed(c.list, _n)
  loop[_n int] tick() == start() + _n + 1 && -1 <= _n
  loop[_n int] closed(c.list, _n + 1)
  loop[_e ErrorList] collected(_e, start(), tick())
  loop[_e []error] collected(_e, start(), tick())
  loop[_e ErrorList] iff(len(_e) == 0, forall(int(t), imp(start() <= t && t < tick(), !failed(t)), trig(who(t))))
  loop[_e []error] iff(len(_e) == 0, forall(int(t), imp(start() <= t && t < tick(), !failed(t)), trig(who(t))))
  ensures[each] tick() == start() + acq(len(c.list)) && closed(acq(c.list), acq(len(c.list)))
  ensures[none] iff(err == nil, forall(int(t), imp(start() <= t && t < tick(), !failed(t)), trig(who(t))))
  ensures[errors] imp(err != nil, typeis(err, ErrorList) && collected(unbox(err, ErrorList), start(), tick()))
  onpanic[each] tick() <= start() + acq(len(c.list)) && closed(acq(c.list), tick() - start())

func Append(closer)
  prop P31
  inline (*CloseManager).Append
  requires Default != nil && closer != nil
  modifies Default.list, elems(acq(Default.list), len(acq(Default.list)), cap(acq(Default.list)))
  allocs []io.Closer
  ensures[last] rel(len(Default.list)) == acq(len(Default.list)) + 1 && rel(Default.list[acq(len(Default.list))]) == closer
  ensures[rest] forall(int(i), imp(0 <= i && i < acq(len(Default.list)), rel(Default.list[i]) == acq(Default.list[i])))

func Close() (err)
  prop P31
  inline (*CloseManager).Close
  requires Default != nil
  modifies callsAny()
  allocs []error
  loop[_n int] tick() == start() + _n && 0 <= _n
  loop[_n int] closed(Default.list, _n)
  loop[_n int] tick() == start() + _n + 1 && -1 <= _n
  loop[_n int] closed(Default.list, _n + 1)
  loop[_e ErrorList] collected(_e, start(), tick())
  loop[_e []error] collected(_e, start(), tick())
  loop[_e ErrorList] iff(len(_e) == 0, forall(int(t), imp(start() <= t && t < tick(), !failed(t)), trig(who(t))))
  loop[_e []error] iff(len(_e) == 0, forall(int(t), imp(start() <= t && t < tick(), !failed(t)), trig(who(t))))
  ensures[each] tick() == start() + acq(len(Default.list)) && closed(acq(Default.list), acq(len(Default.list)))
  ensures[none] iff(err == nil, forall(int(t), imp(start() <= t && t < tick(), !failed(t)), trig(who(t))))
  ensures[errors] imp(err != nil, typeis(err, ErrorList) && collected(unbox(err, ErrorList), start(), tick()))

package iox/usingx

pred start() := old(tick())
pred closedFrom(list, a, b) := forall(int(t), imp(a <= t && t < b, who(t) == method(list[t-a], "Close") && 0 <= callno(t) && callno(t) < ncalls(who(t))), trig(who(t)))
pred failed(t) := callret(error, who(t), callno(t)) != nil
pred failures(a, b) := kept(lambda(int(t), failed(t)), a, b)
pred collected(errs, a, b) := len(errs) == failures(a, b) && forall(int(t), imp(a <= t && t < b && failed(t), 0 <= failures(a, t) && failures(a, t) < failures(a, b) && errs[failures(a, t)] == callret(error, who(t), callno(t))), trig(who(t)))

// the function that Close returns: it calls f once, then each closer once, in order, also if f panics
func Close(closers) (using)
  prop P31
  then (f) (err)
  requires f != nil && forall(int(i), imp(0 <= i && i < len(closers), closers[i] != nil))
  modifies callsAny()
  allocs []error
  loop[_n int] tick() == start() + 1 + _n && 0 <= _n
  loop[_n int] closedFrom(closers, start() + 1, start() + 1 + _n)
  loop[_n int] tick() == start() + 1 + _n + 1 && -1 <= _n
  loop[_n int] closedFrom(closers, start() + 1, start() + 1 + _n + 1)
  loop[_e []error] collected(_e, start() + 1, tick())
  loop who(start()) == f
  ensures[body] who(start()) == f
  ensures[each] tick() == start() + 1 + len(closers) && closedFrom(closers, start() + 1, start() + 1 + len(closers))
  ensures[errors] collected(err, start() + 1, tick())
  onpanic[body] who(start()) == f && 0 < tick() - start()
  onpanic[each] imp(panicker() == f && forall(int(i), imp(0 <= i && i < len(closers), method(closers[i], "Close") != f)), tick() == start() + 1 + len(closers) && closedFrom(closers, start() + 1, start() + 1 + len(closers)))
