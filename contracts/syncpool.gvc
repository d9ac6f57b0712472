package syncx/syncpoolx

// what a pool holds was put into it
pred made(f) := ncalls(f) - old(ncalls(f))

func (*Pool).Init(p, New)
  prop P38
  requires p != nil && New != nil
  modifies object(p)
  ensures[ready] p.pool.New != nil
  ensures[quiet] tick() == old(tick())
  ensures[same] forall(*T(x), iff(inpool(p.pool, x), old(inpool(p.pool, x))))

func (*Pool).Init@get(p, New)
  prop P38
  then p.Get() (r)
  requires p != nil && New != nil
  modifies pool(p.pool), callsAny()
  ensures[pooled] imp(made(New) == 0, old(inpool(p.pool, r)))
  ensures[new] imp(made(New) != 0, made(New) == 1 && r == callret(*T, New, ncalls(New) - 1))
  ensures[calls] tick() == old(tick()) + made(New)
  ensures[out] imp(inpool(p.pool, r), made(New) == 1 && old(inpool(p.pool, r)))
  ensures[rest] forall(*T(x), imp(x != r, iff(inpool(p.pool, x), old(inpool(p.pool, x)))))

func (*Pool).Put(p, x)
  prop P38
  requires p != nil && x != nil && !inpool(p.pool, x)
  modifies pool(p.pool)
  ensures[in] inpool(p.pool, x)
  ensures[rest] forall(*T(y), imp(y != x, iff(inpool(p.pool, y), old(inpool(p.pool, y)))))
  ensures[quiet] tick() == old(tick())
