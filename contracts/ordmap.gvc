package dsx/mapx/ordmapx

// the skip list holds exactly the keys of the map
pred wf(m) := m != nil && m.m != nil && sklmapx.wf(m.skl) && len(m.m) == sklmapx.size(m.skl) && forall(K(k), iff(dom(m.m, k), sklmapx.has(m.skl, k)))
pred key(m, i) := m.skl.nodes[i].key

func New() (m)
  prop P14
  modifies sklmapx.root_seed
  allocs OrdMap, map[K]V, sklmapx.SkipListMap[K, struct{}], sklmapx.sknode[K, struct{}]
  ensures[empty] fresh(m) && len(m.m) == 0
  ensures[wf] wf(m)

func (*OrdMap).Len(m) (n)
  prop P14
  requires wf(m)
  requires[practical] len(m.m) < 1<<62
  modifies nothing
  ensures[size] n == len(m.m)

func (*OrdMap).Get(m, key) (v, ok)
  prop P14
  requires wf(m)
  modifies nothing
  ensures[found] iff(ok, dom(m.m, key))
  ensures[value] imp(ok, v == m.m[key])
  ensures imp(!ok, v == zero(V))

func (*OrdMap).Set(m, key, value)
  prop P14
  requires wf(m)
  requires[practical] len(m.m) < 1<<62
  modifies object(m), contents(m.m), object(m.skl), all(sklmapx.sknode.next, *sklmapx.sknode[K, struct{}](p), 0 <= m.skl.idx[p] && m.skl.idx[p] <= sklmapx.size(m.skl) && m.skl.nodes[m.skl.idx[p]] == p)
  allocs sklmapx.sknode[K, struct{}]
  ensures[wf] wf(m)
  ensures[there] dom(m.m, key) && m.m[key] == value
  ensures[others] forall(K(k), imp(k != key, iff(dom(m.m, k), old(dom(m.m, k))) && imp(dom(m.m, k), m.m[k] == old(m.m[k]))))
  ensures[size] len(m.m) == old(len(m.m)) + ite(old(dom(m.m, key)), 0, 1)

func (*OrdMap).Del(m, key)
  prop P14
  requires wf(m)
  modifies object(m), contents(m.m), object(m.skl), all(sklmapx.sknode.next, *sklmapx.sknode[K, struct{}](p), 0 <= m.skl.idx[p] && m.skl.idx[p] <= sklmapx.size(m.skl) && m.skl.nodes[m.skl.idx[p]] == p)
  ensures[wf] wf(m)
  ensures[gone] !dom(m.m, key)
  ensures[others] forall(K(k), imp(k != key, iff(dom(m.m, k), old(dom(m.m, k))) && imp(dom(m.m, k), m.m[k] == old(m.m[k]))))
  ensures[size] len(m.m) == old(len(m.m)) - ite(old(dom(m.m, key)), 1, 0)

func (*OrdMap).Clear(m)
  prop P14
  requires wf(m)
  modifies object(m), contents(m.m), object(m.skl), sklmapx.root_seed
  allocs map[K]V, sklmapx.SkipListMap[K, struct{}], sklmapx.sknode[K, struct{}]
  ensures[empty] len(m.m) == 0 && forall(K(k), !dom(m.m, k))
  ensures[wf] wf(m)

func (*OrdMap).Keys(m) (r)
  prop P14
  requires wf(m)
  requires[practical] len(m.m) < 1<<40
  modifies nothing
  allocs sklmapx.Iterator[K, struct{}], []K
  ensures[all] len(r) == len(m.m) && forall(int(i), imp(0 <= i && i < len(r), r[i] == key(m, i+1)))
  ensures[keys] forall(int(i), imp(0 <= i && i < len(r), dom(m.m, r[i]))) && forall(K(k), imp(dom(m.m, k), r[m.skl.pos[k]-1] == k))
  ensures[order] forall(int(i), int(j), imp(0 <= i && i < j && j < len(r), r[i] < r[j]))
  ensures[separate] cap(r) == 0 || fresh(ref(r))

func (*OrdMap).Values(m) (r)
  prop P14
  requires wf(m)
  requires[practical] len(m.m) < 1<<40
  modifies nothing
  allocs sklmapx.Iterator[K, struct{}], []V
  loop[_i *sklmapx.Iterator[K, struct{}]] sklmapx.iterating(_i) && _i.list == m.skl
  loop[_r []V, _i *sklmapx.Iterator[K, struct{}]] len(_r) == sklmapx.where(_i)
  loop[_r []V] len(_r) <= len(m.m) && forall(int(i), imp(0 <= i && i < len(_r), _r[i] == m.m[key(m, i+1)]))
  loop[_n int, _r []V] imp(0 <= _n && _n <= len(m.m), forall(int(i), imp(0 <= i && i < _n, _r[i] == m.m[key(m, i+1)])))
  loop[_r []V, _i *sklmapx.Iterator[K, struct{}]] len(_r) + 1 == sklmapx.where(_i)
  loop[_r []V, _ok bool] iff(_ok, len(_r) < len(m.m))
  loop[_r []V, _k K] imp(len(_r) < len(m.m), _k == key(m, len(_r) + 1))
  decreases[_r []V] len(m.m) - len(_r)
  ensures[all] len(r) == len(m.m) && forall(int(i), imp(0 <= i && i < len(r), r[i] == m.m[key(m, i+1)]))
  ensures[separate] cap(r) == 0 || fresh(ref(r))

pred base(f) := old(ncalls(f))
pred seen(f) := ncalls(f) - old(ncalls(f))

func (*OrdMap).Range(m, f)
  prop P14
  requires wf(m)
  requires f != nil
  requires[practical] len(m.m) < 1<<40
  modifies calls(f)
  allocs sklmapx.Iterator[K, struct{}]
  loop[_i *sklmapx.Iterator[K, struct{}]] sklmapx.iterating(_i) && _i.list == m.skl
  loop[_i *sklmapx.Iterator[K, struct{}]] seen(f) == sklmapx.where(_i)
  loop seen(f) <= len(m.m)
  loop[_i *sklmapx.Iterator[K, struct{}]] seen(f) + 1 == sklmapx.where(_i)
  loop[_ok bool] iff(_ok, seen(f) < len(m.m))
  loop[_k K] imp(seen(f) < len(m.m), _k == key(m, seen(f) + 1))
  loop forall(int(c), imp(base(f) <= c && c < ncalls(f), callarg(K, f, c) == key(m, c - base(f) + 1) && callarg(V, f, c, 1) == m.m[key(m, c - base(f) + 1)] && !callret(bool, f, c)))
  decreases len(m.m) - seen(f)
  ensures[order] seen(f) <= len(m.m) && forall(int(c), imp(base(f) <= c && c < ncalls(f), callarg(K, f, c) == key(m, c - base(f) + 1) && callarg(V, f, c, 1) == m.m[key(m, c - base(f) + 1)]))
  ensures[stop] forall(int(c), imp(base(f) <= c && c < ncalls(f) - 1, !callret(bool, f, c)))
  ensures[all] imp(seen(f) < len(m.m), seen(f) > 0 && callret(bool, f, ncalls(f) - 1))
