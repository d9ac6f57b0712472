package dsx/mapx/syncmapx

// the lock protects the map and everything in it
guard Map.mtx: Map.m, contents(Map.m) inv ok(m) := m.m != nil

// acq(...): when the operation took the lock; rel(...): when it gave it back.
// Between the two no other goroutine's operation can come.

func New() (m)
  prop P15
  modifies nothing
  allocs Map, map[K]V
  ensures[empty] m != nil && fresh(m) && m.m != nil && fresh(m.m) && len(m.m) == 0
  ensures[none] forall(K(k), !dom(m.m, k))

func (*Map).Get(m, k) (v)
  prop P15
  requires m != nil
  modifies nothing
  ensures[value] v == acq(ite(dom(m.m, k), m.m[k], zero(V)))

func (*Map).Has(m, k) (ok)
  prop P15
  requires m != nil
  modifies nothing
  ensures[present] iff(ok, acq(dom(m.m, k)))

func (*Map).Size(m) (n)
  prop P15
  requires m != nil
  modifies nothing
  ensures[size] n == acq(len(m.m))

func (*Map).Keys(m) (r)
  prop P15
  requires m != nil
  modifies nothing
  allocs []K
  loop[_r []K, _o gmap[int, K], _n int] len(_r) == _n && 0 <= _n && forall(int(i), imp(0 <= i && i < _n, _r[i] == _o[i]))
  ensures[count] len(r) == acq(len(m.m))
  ensures[keys] forall(int(i), imp(0 <= i && i < len(r), r[i] == ranged(i) && acq(dom(m.m, ranged(i))) && rangepos(r[i]) == i))
  ensures[all] forall(K(k), imp(acq(dom(m.m, k)), 0 <= rangepos(k) && rangepos(k) < len(r) && r[rangepos(k)] == k))
  ensures[separate] cap(r) == 0 || fresh(ref(r))

func (*Map).Values(m) (r)
  prop P15
  requires m != nil
  modifies nothing
  allocs []V
  loop[_r []V, _o gmap[int, K], _n int] len(_r) == _n && 0 <= _n && forall(int(i), imp(0 <= i && i < _n, _r[i] == m.m[_o[i]]))
  ensures[count] len(r) == acq(len(m.m))
  ensures[each] forall(int(i), imp(0 <= i && i < len(r), acq(dom(m.m, ranged(i))) && rangepos(ranged(i)) == i && r[i] == acq(m.m[ranged(i)])))
  ensures[all] forall(K(k), imp(acq(dom(m.m, k)), 0 <= rangepos(k) && rangepos(k) < len(r) && r[rangepos(k)] == acq(m.m[k])))
  ensures[separate] cap(r) == 0 || fresh(ref(r))

func (*Map).Set(m, k, v)
  prop P15
  requires m != nil
  modifies m.m, contents(acq(m.m))
  ensures[there] rel(dom(m.m, k)) && rel(m.m[k]) == v
  ensures[others] forall(K(j), imp(j != k, iff(rel(dom(m.m, j)), acq(dom(m.m, j))) && imp(rel(dom(m.m, j)), rel(m.m[j]) == acq(m.m[j]))))
  ensures[size] rel(len(m.m)) == acq(len(m.m)) + ite(acq(dom(m.m, k)), 0, 1)

func (*Map).Delete(m, k)
  prop P15
  requires m != nil
  modifies m.m, contents(acq(m.m))
  ensures[gone] !rel(dom(m.m, k))
  ensures[others] forall(K(j), imp(j != k, iff(rel(dom(m.m, j)), acq(dom(m.m, j))) && imp(rel(dom(m.m, j)), rel(m.m[j]) == acq(m.m[j]))))
  ensures[size] rel(len(m.m)) == acq(len(m.m)) - ite(acq(dom(m.m, k)), 1, 0)

func (*Map).Clear(m)
  prop P15
  requires m != nil
  modifies m.m, contents(acq(m.m))
  allocs map[K]V
  ensures[empty] rel(len(m.m)) == 0 && forall(K(k), !rel(dom(m.m, k)))
