package functionalx/optionx

pred once(f) := ncalls(f) == old(ncalls(f)) + 1
pred never(f) := ncalls(f) == old(ncalls(f))
pred last(f) := ncalls(f) - 1

func Some(v) (r)
  prop P17
  modifies nothing
  ensures[holds] r.exist && r.data == v

func None() (r)
  prop P17
  modifies nothing
  ensures[empty] !r.exist

func Option.Match(t, f, g) (v, err)
  prop P17
  requires t.exist || g != nil
  requires !t.exist || f != nil
  requires !(f == g)
  modifies calls(f), calls(g)
  ensures[some] imp(t.exist, once(f) && never(g) && callarg(T, f, last(f)) == t.data)
  ensures[some-result] imp(t.exist, v == callret(T, f, last(f)) && err == callret(error, f, last(f), 1))
  ensures[none] imp(!t.exist, once(g) && never(f))
  ensures[none-result] imp(!t.exist, v == callret(T, g, last(g)) && err == callret(error, g, last(g), 1))

package functionalx/resultx

pred once(f) := ncalls(f) == old(ncalls(f)) + 1
pred never(f) := ncalls(f) == old(ncalls(f))
pred last(f) := ncalls(f) - 1

func Ok(v) (r)
  prop P17
  modifies nothing
  ensures[holds] r.ok && r.data == v

func Err(e) (r)
  prop P17
  modifies nothing
  ensures[holds] !r.ok && r.error == e

func Result.Match(t, f, g) (v, e)
  prop P17
  requires t.ok || g != nil
  requires !t.ok || f != nil
  requires !(f == g)
  modifies calls(f), calls(g)
  ensures[ok] imp(t.ok, once(f) && never(g) && callarg(T, f, last(f)) == t.data)
  ensures[ok-result] imp(t.ok, v == callret(T, f, last(f)) && e == callret(E, f, last(f), 1))
  ensures[err] imp(!t.ok, once(g) && never(f) && callarg(E, g, last(g)) == t.error)
  ensures[err-result] imp(!t.ok, v == callret(T, g, last(g)) && e == callret(E, g, last(g), 1))

package functionalx/lazyx

// the value belongs to whoever runs inside the Once, and to everybody from then on
guard Lazy.o: Lazy.value

func New(f) (l)
  prop P18
  modifies nothing
  allocs Lazy
  ensures[new] l != nil && fresh(l) && !done(l.o) && l.ctor == f

func (*Lazy).Get(l) (v)
  prop P18
  requires l != nil
  requires done(l.o) || l.ctor != nil
  modifies object(l), calls(l.ctor)
  ensures[once] ncalls(l.ctor) == old(ncalls(l.ctor)) + ite(old(done(l.o)), 0, 1)
  ensures[first] imp(!old(done(l.o)), v == callret(T, l.ctor, ncalls(l.ctor) - 1))
  ensures[again] imp(old(done(l.o)), v == old(l.value))
  ensures[kept] done(l.o) && l.value == v && l.ctor == old(l.ctor)

package configx/optionalx

// the call made at time t: its argument and its result
pred arg(t) := callarg(*T, who(t), callno(t))
pred ret(t) := callret(*T, who(t), callno(t))
pred start() := old(tick())
pred called(funcs, n) := forall(int(t), imp(start() <= t && t < start() + n, who(t) == funcs[t-start()] && 0 <= callno(t) && callno(t) < ncalls(who(t))), trig(who(t)))
pred first(n) := imp(n > 0, arg(start()) == nil)
pred linked(n) := forall(int(t), int(u), imp(start() <= t && u == t + 1 && u < start() + n, arg(u) == ret(t)), trig(who(t), who(u)))

func Parameter(constructor, funcs) (r)
  prop P19
  requires constructor != nil && forall(int(i), imp(0 <= i && i < len(funcs), funcs[i] != nil))
  modifies callsAny()
  loop[_n int] tick() == start() + _n && 0 <= _n
  loop[_n int] called(funcs, _n)
  loop[_n int] first(_n)
  loop[_n int] linked(_n)
  loop[_n int, _p *T] _p == ite(_n == 0, nil, ret(start()+_n-1))
  loop[_n int] tick() == start() + _n + 1 && -1 <= _n
  loop[_n int] called(funcs, _n+1)
  loop[_n int] first(_n+1)
  loop[_n int] linked(_n+1)
  loop[_n int, _p *T] _p == ite(_n < 0, nil, ret(start()+_n))
  ensures[once] tick() == start() + len(funcs) + 1
  ensures[chain] called(funcs, len(funcs)) && first(len(funcs)) && linked(len(funcs))
  ensures[last] who(tick()-1) == constructor && arg(tick()-1) == ite(len(funcs) == 0, nil, ret(tick()-2))
  ensures[result] r == callret(*R, constructor, callno(tick()-1))

package syncx/syncpoolx
