package dsx/linkedx/queuex

// The queue's content, front first: nodes[lo..hi), front at lo.
ghost Queue.nodes gmap(int, *node)
ghost Queue.idx gmap(*node, int)
ghost Queue.lo Math
ghost Queue.hi Math

pred poolok(s) := s.pool.New != nil &&
  forall(*node(p), imp(inpool(s.pool, p), p != nil && allocated(p)))

pred wf(s) := s != nil && poolok(s) && s.lo <= s.hi &&
  iff(s.head == nil, s.lo == s.hi) &&
  imp(s.lo < s.hi, s.head == s.nodes[s.lo] && s.tail == s.nodes[s.hi-1]) &&
  forall(int(i), imp(s.lo <= i && i < s.hi,
     s.nodes[i] != nil && allocated(s.nodes[i]) && s.idx[s.nodes[i]] == i && !inpool(s.pool, s.nodes[i])
     && s.nodes[i].next == ite(i == s.hi-1, nil, s.nodes[i+1])))

func New() (s)
  prop P03
  ensures[empty] s != nil && fresh(s) && s.lo == s.hi
  ensures[wf] wf(s)
  set s.lo := 0
  set s.hi := 0
  allocs Queue

func (*Queue).Enqueue(s, v) (ok)
  prop P03
  requires wf(s)
  modifies object(s), pool(s.pool), all(node.data, *node(p), inpool(s.pool, p)), all(node.next, *node(p), inpool(s.pool, p) || p == s.tail)
  allocs node
  set s.nodes := update(old(s.nodes), old(s.hi), s.tail)
  set s.idx := update(old(s.idx), s.tail, old(s.hi))
  set s.hi := old(s.hi) + 1
  ensures[wf] wf(s)
  ensures[accepted] ok
  ensures[grows] s.hi == old(s.hi) + 1 && s.lo == old(s.lo)
  ensures[back] s.nodes[old(s.hi)].data == v
  ensures[rest] forall(int(i), imp(s.lo <= i && i < old(s.hi), s.nodes[i].data == old(s.nodes[i].data)))

func (*Queue).Dequeue(s) (rs, ok)
  prop P03
  requires wf(s)
  modifies object(s), pool(s.pool), all(node.data, *node(p), s.head == p), all(node.next, *node(p), s.head == p)
  set s.lo := ite(ok, old(s.lo) + 1, old(s.lo))
  ensures[wf] wf(s)
  ensures[empty] iff(ok, old(s.lo) < old(s.hi))
  ensures[unchanged] imp(!ok, rs == zero(T))
  ensures[front] imp(ok, rs == old(s.nodes[s.lo].data))
  ensures[shrinks] s.lo == ite(ok, old(s.lo) + 1, old(s.lo)) && s.hi == old(s.hi)
  ensures[rest] forall(int(i), imp(s.lo <= i && i < s.hi, s.nodes[i].data == old(s.nodes[i].data)))

func (*Queue).Peek(s) (rs, ok)
  prop P03
  requires wf(s)
  modifies nothing
  ensures[empty] iff(ok, s.lo < s.hi)
  ensures[front] imp(ok, rs == s.nodes[s.lo].data)
  ensures imp(!ok, rs == zero(T))

func (*Queue).IsEmpty(s) (r)
  prop P03
  requires wf(s)
  modifies nothing
  ensures iff(r, s.lo == s.hi)
