package dsx/mapx/sklmapx

// nodes[0] is the head, nodes[1..len] are the entries in key order, nodes[len+1] is the tail.
ghost SkipListMap.nodes gmap(int, *sknode)
ghost SkipListMap.idx gmap(*sknode, int)
// where a key is, if it is there
ghost SkipListMap.pos gmap(K, int)

pred size(m) := m.skl.len
pred ht(m, i) := ite(i == 0, MAX_HEIGHT, m.nodes[i].height)
pred succ(m, i, h) := m.idx[m.nodes[i].next[h]]

pred linked(m, i, h) := i < succ(m, i, h) && succ(m, i, h) <= size(m)+1 && m.nodes[i].next[h] == m.nodes[succ(m, i, h)] && imp(succ(m, i, h) <= size(m), h < m.nodes[succ(m, i, h)].height)

pred wf(m) := m != nil && m.skl.head == m.nodes[0] && m.skl.tail == m.nodes[size(m)+1] &&
  forall(int(i), imp(0 <= i && i <= size(m)+1, m.nodes[i] != nil && allocated(m.nodes[i]) && m.idx[m.nodes[i]] == i)) &&
  forall(int(i), imp(1 <= i && i <= size(m), 1 <= m.nodes[i].height && m.nodes[i].height <= MAX_HEIGHT && m.pos[m.nodes[i].key] == i)) &&
  forall(int(i), int(j), imp(1 <= i && i < j && j <= size(m), m.nodes[i].key < m.nodes[j].key)) &&
  forall(int(i), int(h), imp(0 <= i && i <= size(m) && 0 <= h && h < ht(m, i), linked(m, i, h))) &&
  forall(int(i), int(h), int(k), imp(0 <= i && i <= size(m) && 0 <= h && h < ht(m, i) && i < k && k < succ(m, i, h), m.nodes[k].height <= h))

pred has(m, k) := 1 <= m.pos[k] && m.pos[k] <= size(m) && m.nodes[m.pos[k]].key == k
pred get(m, k) := m.nodes[m.pos[k]].value

func New() (m)
  prop P12
  ensures[empty] m != nil && fresh(m) && size(m) == 0
  ensures[wf] wf(m)
  set m.nodes := lambda(int(i), ite(i == 0, m.skl.head, m.skl.tail))
  set m.idx := lambda(*sknode(p), ite(p == m.skl.head, 0, 1))
  modifies root_seed
  allocs SkipListMap, sknode
  loop[_h *sknode, _t *sknode, _i int] forall(int(i), imp(0 <= i && i < _i, _h.next[i] == _t))

func (*SkipListMap).Get(m, key) (v, ok)
  prop P12
  requires wf(m)
  modifies nothing
  allocs [16]*sknode
  loop[_x *sknode] 0 <= m.idx[_x] && m.idx[_x] <= size(m) && m.nodes[m.idx[_x]] == _x && imp(m.idx[_x] > 0, _x.key < key)
  loop[_x *sknode, _h int] _h < ht(m, m.idx[_x])
  loop[_x *sknode, _h int] imp(_h < MAX_HEIGHT-1, succ(m, m.idx[_x], _h+1) == size(m)+1 || !(m.nodes[succ(m, m.idx[_x], _h+1)].key < key))
  decreases[_x *sknode] size(m) - m.idx[_x]
  ensures[found] iff(ok, has(m, key))
  ensures[value] imp(ok, v == get(m, key))
  ensures imp(!ok, v == zero(V))

// where key belongs: behind every smaller key
pred slot(m, key) := least(int(i), 1, size(m), !(m.nodes[i].key < key))

func (*SkipListMap).Set(m, key, value)
  prop P12
  requires wf(m)
  requires[practical] size(m) < 1<<62
  modifies object(m), all(sknode.next, *sknode(p), 0 <= m.idx[p] && m.idx[p] <= size(m) && m.nodes[m.idx[p]] == p), all(sknode.value, *sknode(p), has(m, key) && p == m.nodes[m.pos[key]])
  allocs sknode, [16]*sknode
  loop[_x *sknode] 0 <= m.idx[_x] && m.idx[_x] <= size(m) && m.nodes[m.idx[_x]] == _x && imp(m.idx[_x] > 0, _x.key < key)
  loop[_x *sknode, _h int] _h < ht(m, m.idx[_x])
  loop[_x *sknode, _h int] imp(_h < MAX_HEIGHT-1, succ(m, m.idx[_x], _h+1) == size(m)+1 || !(m.nodes[succ(m, m.idx[_x], _h+1)].key < key))
  loop[_c [16]*sknode, _h int] forall(int(h), imp(_h < h && h < MAX_HEIGHT, 0 <= m.idx[_c[h]] && m.idx[_c[h]] < slot(m, key) && m.nodes[m.idx[_c[h]]] == _c[h]
     && h < ht(m, m.idx[_c[h]]) && succ(m, m.idx[_c[h]], h) >= slot(m, key)))
  loop[_c [16]*sknode, _n *sknode, _h int] forall(*sknode(p), int(h), imp(0 <= h && h < MAX_HEIGHT && p != _n, p.next[h] == ite(h < _h && p == _c[h], _n, old(p.next[h]))))
  loop[_c [16]*sknode, _n *sknode, _h int] forall(int(h), *sknode(p), imp(0 <= h && h < _h && p == _c[h], _n.next[h] == old(p.next[h])))
  decreases[_x *sknode] size(m) - m.idx[_x]
  set m.nodes := ite(size(m) == old(size(m)), old(m.nodes), lambda(int(i), ite(i < old(slot(m, key)), old(m.nodes)[i], ite(i == old(slot(m, key)), old(m.nodes)[old(slot(m, key))-1].next[0], old(m.nodes)[i-1]))))
  set m.idx := ite(size(m) == old(size(m)), old(m.idx), lambda(*sknode(p), ite(p == m.nodes[old(slot(m, key))], old(slot(m, key)), ite(old(m.idx)[p] >= old(slot(m, key)), old(m.idx)[p] + 1, old(m.idx)[p]))))
  set m.pos := ite(size(m) == old(size(m)), old(m.pos), lambda(K(k), ite(k == key, old(slot(m, key)), ite(old(m.pos)[k] >= old(slot(m, key)), old(m.pos)[k] + 1, old(m.pos)[k]))))
  assert[crossing] imp(size(m) != old(size(m)), forall(int(i), int(h), imp(0 <= i && i < old(slot(m, key)) && 0 <= h && h < old(ht(m, i)) && old(succ(m, i, h)) >= old(slot(m, key)),
     m.nodes[i].next[h] == ite(h < m.nodes[old(slot(m, key))].height, m.nodes[old(slot(m, key))], old(m.nodes[i].next[h])) && imp(h < m.nodes[old(slot(m, key))].height, m.nodes[old(slot(m, key))].next[h] == old(m.nodes[i].next[h])))))
  assert[unchanged] imp(size(m) != old(size(m)), forall(int(i), int(h), imp(0 <= i && i <= old(size(m)) && 0 <= h && h < old(ht(m, i)) && (i >= old(slot(m, key)) || old(succ(m, i, h)) < old(slot(m, key))),
     old(m.nodes)[i].next[h] == old(m.nodes[i].next[h]))))
  assert[above] imp(size(m) != old(size(m)), forall(int(i), int(h), imp(old(slot(m, key)) < i && i <= size(m) && 0 <= h && h < m.nodes[i].height, linked(m, i, h))))
  assert[new] imp(size(m) != old(size(m)), forall(int(h), imp(0 <= h && h < m.nodes[old(slot(m, key))].height, linked(m, old(slot(m, key)), h))))
  assert[below] imp(size(m) != old(size(m)), forall(int(i), int(h), imp(0 <= i && i < old(slot(m, key)) && 0 <= h && h < ht(m, i), linked(m, i, h))))
  ensures[wf] wf(m)
  ensures[there] has(m, key) && get(m, key) == value
  ensures[others] forall(K(k), imp(k != key, iff(has(m, k), old(has(m, k))) && imp(has(m, k), get(m, k) == old(get(m, k)))))
  ensures[size] size(m) == old(size(m)) + ite(old(has(m, key)), 0, 1)

func (*SkipListMap).Del(m, key) (ok)
  prop P12
  requires wf(m)
  modifies object(m), all(sknode.next, *sknode(p), 0 <= m.idx[p] && m.idx[p] <= size(m) && m.nodes[m.idx[p]] == p)
  allocs [16]*sknode
  loop[_x *sknode] 0 <= m.idx[_x] && m.idx[_x] <= size(m) && m.nodes[m.idx[_x]] == _x && imp(m.idx[_x] > 0, _x.key < key)
  loop[_x *sknode, _h int] _h < ht(m, m.idx[_x])
  loop[_x *sknode, _h int] imp(_h < MAX_HEIGHT-1, succ(m, m.idx[_x], _h+1) == size(m)+1 || !(m.nodes[succ(m, m.idx[_x], _h+1)].key < key))
  loop[_c [16]*sknode, _h int] forall(int(h), imp(_h < h && h < MAX_HEIGHT, 0 <= m.idx[_c[h]] && m.idx[_c[h]] < slot(m, key) && m.nodes[m.idx[_c[h]]] == _c[h]
     && h < ht(m, m.idx[_c[h]]) && succ(m, m.idx[_c[h]], h) >= slot(m, key)))
  loop[_c [16]*sknode, _x *sknode, _h int] forall(*sknode(p), int(h), imp(0 <= h && h < MAX_HEIGHT, p.next[h] == ite(h < _h && p == _c[h], _x.next[h], old(p.next[h]))))
  decreases[_x *sknode] size(m) - m.idx[_x]
  loop[_x *sknode, _h int] _h <= _x.height
  decreases[_x *sknode, _h int] _x.height - _h
  set m.nodes := ite(!ok, old(m.nodes), lambda(int(i), ite(i < old(slot(m, key)), old(m.nodes)[i], old(m.nodes)[i+1])))
  set m.idx := ite(!ok, old(m.idx), lambda(*sknode(p), ite(old(m.idx)[p] > old(slot(m, key)), old(m.idx)[p] - 1, ite(old(m.idx)[p] == old(slot(m, key)), -1, old(m.idx)[p]))))
  set m.pos := ite(!ok, old(m.pos), lambda(K(k), ite(k == key, 0, ite(old(m.pos)[k] > old(slot(m, key)), old(m.pos)[k] - 1, old(m.pos)[k]))))
  assert[bridged] imp(ok, forall(int(i), int(h), imp(0 <= i && i < old(slot(m, key)) && 0 <= h && h < old(ht(m, i)) && old(succ(m, i, h)) == old(slot(m, key)),
     old(m.nodes)[i].next[h] == old(m.nodes[slot(m, key)].next[h]))))
  assert[unchanged] imp(ok, forall(int(i), int(h), imp(0 <= i && i <= old(size(m)) && 0 <= h && h < old(ht(m, i)) && (i >= old(slot(m, key)) || old(succ(m, i, h)) != old(slot(m, key))),
     old(m.nodes)[i].next[h] == old(m.nodes[i].next[h]))))
  assert[above] imp(ok, forall(int(i), int(h), imp(old(slot(m, key)) <= i && i <= size(m) && 0 <= h && h < m.nodes[i].height, linked(m, i, h))))
  assert[below] imp(ok, forall(int(i), int(h), imp(0 <= i && i < old(slot(m, key)) && 0 <= h && h < ht(m, i), linked(m, i, h))))
  ensures[wf] wf(m)
  ensures[found] iff(ok, old(has(m, key)))
  ensures[gone] !has(m, key)
  ensures[others] forall(K(k), imp(k != key, iff(has(m, k), old(has(m, k))) && imp(has(m, k), get(m, k) == old(get(m, k)))))
  ensures[size] size(m) == old(size(m)) - ite(ok, 1, 0)

func (*SkipListMap).Len(m) (n)
  prop P12
  requires wf(m)
  requires[practical] size(m) < 1<<62
  modifies nothing
  ensures[size] n == size(m)

func (*SkipListMap).Clear(m)
  prop P12
  requires wf(m)
  modifies object(m), root_seed
  allocs SkipListMap, sknode
  set m.nodes := lambda(int(i), ite(i == 0, m.skl.head, m.skl.tail))
  set m.idx := lambda(*sknode(p), ite(p == m.skl.head, 0, 1))
  ensures[empty] size(m) == 0
  ensures[wf] wf(m)

func (*SkipListMap).Keys(m) (r)
  prop P13
  requires wf(m)
  requires[practical] size(m) < 1<<40
  modifies nothing
  allocs Iterator, []K
  loop[_r []K, _i *Iterator] len(_r) <= size(m) && _i.list == m && _i.node == ite(len(_r) == 0, nil, m.nodes[len(_r)])
  loop[_r []K] forall(int(i), imp(0 <= i && i < len(_r), _r[i] == m.nodes[i+1].key))
  loop[_r []K, _i *Iterator] len(_r) <= size(m) && _i.list == m && _i.node == m.nodes[len(_r) + 1]
  loop[_r []K, _ok bool] iff(_ok, len(_r) < size(m))
  loop[_r []K, _k K] imp(len(_r) < size(m), _k == m.nodes[len(_r) + 1].key)
  decreases[_r []K] size(m) - len(_r)
  ensures[all] len(r) == size(m) && forall(int(i), imp(0 <= i && i < len(r), r[i] == m.nodes[i+1].key))
  ensures[order] forall(int(i), int(j), imp(0 <= i && i < j && j < len(r), r[i] < r[j]))
  ensures[separate] cap(r) == 0 || fresh(ref(r))

func (*SkipListMap).Values(m) (r)
  prop P13
  requires wf(m)
  requires[practical] size(m) < 1<<40
  modifies nothing
  allocs Iterator, []V
  loop[_r []V, _i *Iterator] len(_r) <= size(m) && _i.list == m && _i.node == ite(len(_r) == 0, nil, m.nodes[len(_r)])
  loop[_r []V] forall(int(i), imp(0 <= i && i < len(_r), _r[i] == m.nodes[i+1].value))
  loop[_r []V, _i *Iterator] len(_r) <= size(m) && _i.list == m && _i.node == m.nodes[len(_r) + 1]
  loop[_r []V, _ok bool] iff(_ok, len(_r) < size(m))
  loop[_r []V, _k V] imp(len(_r) < size(m), _k == m.nodes[len(_r) + 1].value)
  decreases[_r []V] size(m) - len(_r)
  ensures[all] len(r) == size(m) && forall(int(i), imp(0 <= i && i < len(r), r[i] == m.nodes[i+1].value))
  ensures[separate] cap(r) == 0 || fresh(ref(r))

func (*SkipListMap).Iterator(m) (i)
  prop P13
  requires wf(m)
  modifies nothing
  allocs Iterator
  ensures[start] i != nil && fresh(i) && i.list == m && i.node == nil

// the iterator stands before the first entry, on entry number where(i), or behind the last
pred iterating(i) := i != nil && wf(i.list) && (i.node == nil || 1 <= i.list.idx[i.node] && i.list.idx[i.node] <= size(i.list)+1 && i.list.nodes[i.list.idx[i.node]] == i.node)
pred where(i) := ite(i.node == nil, 0, i.list.idx[i.node])

func (*Iterator).Next(i) (k, v, ok)
  prop P13
  requires iterating(i)
  modifies i.node
  ensures[end] iff(ok, old(where(i)) < size(i.list))
  ensures[stands] iterating(i) && where(i) == ite(old(where(i)) <= size(i.list), old(where(i)) + 1, old(where(i)))
  ensures[entry] imp(ok, k == i.list.nodes[where(i)].key && v == i.list.nodes[where(i)].value)
  ensures imp(!ok, k == zero(K) && v == zero(V))

func (*Iterator).Seek(i, key) (k, v, ok)
  prop P13
  requires iterating(i)
  modifies object(i)
  loop[_x *sknode] 0 <= i.list.idx[_x] && i.list.idx[_x] <= size(i.list) && i.list.nodes[i.list.idx[_x]] == _x && imp(i.list.idx[_x] > 0, _x.key < key)
  loop[_x *sknode, _h int] _h < ht(i.list, i.list.idx[_x])
  loop[_x *sknode, _h int] imp(_h < MAX_HEIGHT-1, succ(i.list, i.list.idx[_x], _h+1) == size(i.list)+1 || !(i.list.nodes[succ(i.list, i.list.idx[_x], _h+1)].key < key))
  decreases[_x *sknode] size(i.list) - i.list.idx[_x]
  ensures[list] i.list == old(i.list)
  ensures[found] iff(ok, has(i.list, key))
  ensures[stands] iterating(i) && imp(ok, where(i) == i.list.pos[key])
  ensures[missed] imp(!ok, where(i) == 0)
  ensures[entry] imp(ok, k == key && v == get(i.list, key))
  ensures imp(!ok, k == zero(K) && v == zero(V))

func (*Iterator).Rewind(i)
  prop P13
  requires iterating(i)
  modifies i.node
  ensures[start] iterating(i) && where(i) == 0

func (*SkipListMap).ToMap(m) (r)
  prop P13
  requires wf(m)
  requires[practical] size(m) < 1<<40
  modifies nothing
  allocs Iterator, map[K]V
  loop[_i *Iterator] _i.list == m && (_i.node == nil || 1 <= m.idx[_i.node] && m.idx[_i.node] <= size(m) && m.nodes[m.idx[_i.node]] == _i.node)
  loop[_i *Iterator, _r map[K]V] len(_r) == where(_i) && forall(K(k), iff(dom(_r, k), has(m, k) && m.pos[k] <= where(_i)) && imp(dom(_r, k), _r[k] == get(m, k)))
  decreases[_i *Iterator] size(m) - where(_i)
  ensures[all] r != nil && len(r) == size(m) && forall(K(k), iff(dom(r, k), has(m, k)) && imp(dom(r, k), r[k] == get(m, k)))
  ensures[separate] fresh(r)
