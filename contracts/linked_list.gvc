package dsx/linkedx/listx

// The list's content: element i is nodes[i].data.
ghost List.nodes gmap(int, *node)
ghost List.idx gmap(*node, int)

pred poolok(s) := s.pool != nil && s.pool.New != nil &&
  forall(*node(p), imp(inpool(s.pool, p), p != nil && allocated(p)))

pred wf(s) := s != nil && poolok(s) && 0 <= s.length &&
  iff(s.head == nil, s.length == 0) && iff(s.tail == nil, s.length == 0) &&
  imp(s.length > 0, s.head == s.nodes[0] && s.tail == s.nodes[s.length-1]) &&
  forall(int(i), imp(0 <= i && i < s.length,
     s.nodes[i] != nil && allocated(s.nodes[i]) && s.idx[s.nodes[i]] == i && !inpool(s.pool, s.nodes[i])
     && s.nodes[i].next == ite(i == s.length-1, nil, s.nodes[i+1])))

pred val(s, i) := s.nodes[i].data

func New() (s)
  prop P06
  ensures[empty] s != nil && fresh(s) && s.length == 0
  ensures[wf] wf(s)
  allocs List, sync.Pool

func (*List).Append(s, v)
  prop P06
  requires wf(s)
  requires[practical] s.length < 1<<62
  modifies object(s), pool(s.pool), all(node.data, *node(p), inpool(s.pool, p)), all(node.next, *node(p), inpool(s.pool, p) || p == s.tail)
  allocs node
  set s.nodes := update(old(s.nodes), old(s.length), s.tail)
  set s.idx := update(old(s.idx), s.tail, old(s.length))
  ensures[wf] wf(s)
  ensures[grows] s.length == old(s.length) + 1
  ensures[last] val(s, old(s.length)) == v
  ensures[rest] forall(int(i), imp(0 <= i && i < old(s.length), val(s, i) == old(val(s, i))))

pred inserted(s, index) := ite(index == 0, s.head, old(s.nodes)[index-1].next)

func (*List).Insert(s, index, v)
  prop P06
  requires wf(s)
  requires[practical] s.length < 1<<62
  modifies object(s), pool(s.pool), all(node.data, *node(p), inpool(s.pool, p)),
    all(node.next, *node(p), inpool(s.pool, p) || index >= 1 && index <= s.length && p == s.nodes[index-1])
  allocs node
  set s.nodes := ite(index == old(s.length), s.nodes, ite(0 <= index && index < old(s.length), lambda(int(i), ite(i < index, old(s.nodes)[i], ite(i == index, inserted(s, index), old(s.nodes)[i-1]))), old(s.nodes)))
  set s.idx := ite(index == old(s.length), s.idx, ite(0 <= index && index < old(s.length), lambda(*node(p), ite(p == inserted(s, index), index, ite(old(s.idx)[p] >= index, old(s.idx)[p]+1, old(s.idx)[p]))), old(s.idx)))
  loop[_i int, _p *node] 0 <= _i && _i <= old(s.length) && _p == ite(_i < old(s.length), s.nodes[_i], nil)
  loop[_i int] _i <= index - 1
  decreases[_i int] old(s.length) - _i
  ensures[wf] wf(s)
  ensures[range] imp(index < 0 || index > old(s.length), s.length == old(s.length) && forall(int(i), imp(0 <= i && i < s.length, val(s, i) == old(val(s, i)))))
  ensures[grows] imp(0 <= index && index <= old(s.length), s.length == old(s.length) + 1 && val(s, index) == v)
  ensures[before] imp(0 <= index && index <= old(s.length), forall(int(i), imp(0 <= i && i < index, val(s, i) == old(val(s, i)))))
  ensures[after] imp(0 <= index && index <= old(s.length), forall(int(i), imp(index < i && i < s.length, val(s, i) == old(val(s, i-1)))))

func (*List).Remove(s, index) (rs, ok)
  prop P06
  requires wf(s)
  modifies object(s), pool(s.pool), all(node.data, *node(p), 0 <= index && index < s.length && p == s.nodes[index]),
    all(node.next, *node(p), 0 <= index && index < s.length && (p == s.nodes[index] || index >= 1 && p == s.nodes[index-1]))
  set s.nodes := ite(ok, lambda(int(i), ite(i < index, old(s.nodes)[i], old(s.nodes)[i+1])), old(s.nodes))
  set s.idx := ite(ok, lambda(*node(p), ite(old(s.idx)[p] > index, old(s.idx)[p]-1, old(s.idx)[p])), old(s.idx))
  loop[_i int, _p *node] 0 <= _i && _i <= old(s.length) && _p == ite(_i < old(s.length), s.nodes[_i], nil)
  loop[_i int] imp(index >= 0, _i <= index - 1)
  decreases[_i int] old(s.length) - _i
  ensures[wf] wf(s)
  ensures[range] iff(ok, 0 <= index && index < old(s.length))
  ensures[refused] imp(!ok, rs == zero(T) && s.length == old(s.length) && forall(int(i), imp(0 <= i && i < s.length, val(s, i) == old(val(s, i)))))
  ensures[value] imp(ok, rs == old(val(s, index)) && s.length == old(s.length) - 1)
  ensures[before] imp(ok, forall(int(i), imp(0 <= i && i < index, val(s, i) == old(val(s, i)))))
  ensures[after] imp(ok, forall(int(i), imp(index <= i && i < s.length, val(s, i) == old(val(s, i+1)))))

func (*List).At(s, index) (rs, ok)
  prop P06
  requires wf(s)
  modifies nothing
  loop[_i int, _p *node] 0 <= _i && _i <= s.length && _p == ite(_i < s.length, s.nodes[_i], nil)
  loop[_i int] imp(index >= 0, _i <= index)
  decreases[_i int] s.length - _i
  ensures[range] iff(ok, 0 <= index && index < s.length)
  ensures[value] imp(ok, rs == val(s, index))
  ensures imp(!ok, rs == zero(T))

func (*List).Iterate(s, f)
  prop P06
  requires wf(s)
  requires f != nil
  modifies calls(f)
  loop[_p *node] 0 <= ncalls(f) - old(ncalls(f)) && ncalls(f) - old(ncalls(f)) <= s.length && _p == ite(ncalls(f) - old(ncalls(f)) < s.length, s.nodes[ncalls(f) - old(ncalls(f))], nil)
  loop forall(int(i), imp(0 <= i && i < ncalls(f) - old(ncalls(f)), callarg(T, f, old(ncalls(f)) + i) == val(s, i) && callret(bool, f, old(ncalls(f)) + i)))
  decreases s.length - (ncalls(f) - old(ncalls(f)))
  ensures[order] 0 <= ncalls(f) - old(ncalls(f)) && ncalls(f) - old(ncalls(f)) <= s.length &&
     forall(int(i), imp(0 <= i && i < ncalls(f) - old(ncalls(f)), callarg(T, f, old(ncalls(f)) + i) == val(s, i)))
  ensures[continues] forall(int(i), imp(0 <= i && i < ncalls(f) - old(ncalls(f)) - 1, callret(bool, f, old(ncalls(f)) + i)))
  ensures[stops] imp(ncalls(f) - old(ncalls(f)) < s.length, ncalls(f) > old(ncalls(f)) && !callret(bool, f, ncalls(f) - 1))

func (*List).Len(s) (n)
  prop P06
  requires wf(s)
  modifies nothing
  ensures n == s.length
