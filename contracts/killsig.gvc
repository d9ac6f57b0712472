package osx/closex

immutable interrupt.C

// the callable receives what Notify delivers
fun hears(_) bool
pred among(sig, n) := exists(int(i), 0 <= i && i < len(sig) && typeis(sig[i], syscall.Signal) && unbox(sig[i], syscall.Signal) == n)
// an interrupt, a quit and a termination are asked for, and one is kept if it comes before it is waited for
extern os/signal.Notify(c, sig)
  requires c != nil && chancap(c) >= 1
  requires among(sig, 2) && among(sig, 3) && among(sig, 15)
  modifies nothing
  ensures hears(receiving(c))

extern log.(*Logger).Printf(l, format, v)
  requires l != nil
  modifies nothing

pred asked() := tick() - old(tick())
// the first thing waited for came
pred came() := callret(bool, who(old(tick())), callno(old(tick())), 1)

func HandleKillSig(handler, logger) (r)
  prop P37
  modifies callsAny()
  allocs anything
  ensures[open] r.C != nil && fresh(r.C) && !chclosed(r.C)
  ensures[quiet] asked() == 1 && ncalls(handler) == old(ncalls(handler))

func HandleKillSig@waiting(handler, logger) (r)
  prop P37
  then go ()
  partial
  requires handler != nil && logger != nil
  rely !chclosed(r.C)
  modifies chclosed(), callsAny()
  allocs anything
  ensures[once] imp(came(), ncalls(handler) == old(ncalls(handler)) + 1 && ncalls(closing(r.C)) == old(ncalls(closing(r.C))) + 1)
  ensures[order] imp(came(), asked() == 3 && who(old(tick()) + 1) == handler && who(old(tick()) + 2) == closing(r.C))
  ensures[closed] imp(came(), chclosed(r.C))
  ensures[heard] hears(who(old(tick())))
