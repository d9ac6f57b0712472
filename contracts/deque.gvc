package dsx/linkedx/dequex

// The chunks in order, front first, are nodes[lo..hi). Element (k, j) is
// nodes[k].data[j] for start <= j < end; every chunk but the first starts at 0
// and every chunk but the last is filled to the end, so 64*k+j is the
// element's position and positions are contiguous.
ghost Deque.nodes gmap(int, *node)
ghost Deque.idx gmap(*node, int)
ghost Deque.lo Math
ghost Deque.hi Math

pred poolok(s) := s.pool.New != nil &&
  forall(*node(p), imp(inpool(s.pool, p), p != nil && allocated(p) && p.next == nil && p.prev == nil))

pred wf(s) := s != nil && poolok(s) && s.lo <= s.hi &&
  iff(s.head == nil, s.lo == s.hi) && iff(s.tail == nil, s.lo == s.hi) &&
  imp(s.lo < s.hi, s.head == s.nodes[s.lo] && s.tail == s.nodes[s.hi-1]) &&
  forall(int(i), imp(s.lo <= i && i < s.hi,
     s.nodes[i] != nil && allocated(s.nodes[i]) && s.idx[s.nodes[i]] == i && !inpool(s.pool, s.nodes[i])
     && s.nodes[i].next == ite(i == s.hi-1, nil, s.nodes[i+1])
     && s.nodes[i].prev == ite(i == s.lo, nil, s.nodes[i-1])
     && 0 <= s.nodes[i].start && s.nodes[i].start < s.nodes[i].end && s.nodes[i].end <= nodeBufferSize
     && imp(i > s.lo, s.nodes[i].start == 0) && imp(i < s.hi-1, s.nodes[i].end == nodeBufferSize)))

pred empty(s) := s.lo == s.hi
pred front(s) := nodeBufferSize*s.lo + s.nodes[s.lo].start
pred back(s) := nodeBufferSize*(s.hi-1) + s.nodes[s.hi-1].end
pred in(s, k, j) := s.lo <= k && k < s.hi && s.nodes[k].start <= j && j < s.nodes[k].end

func New() (s)
  prop P05
  ensures[empty] s != nil && fresh(s) && empty(s)
  ensures[wf] wf(s)
  set s.lo := 0
  set s.hi := 0
  allocs Deque

func (*Deque).PushFront(s, v)
  prop P05
  requires wf(s)
  modifies object(s), pool(s.pool),
    all(node.data, *node(p), inpool(s.pool, p) || p == s.head), all(node.start, *node(p), inpool(s.pool, p) || p == s.head),
    all(node.end, *node(p), inpool(s.pool, p) || p == s.head), all(node.next, *node(p), inpool(s.pool, p) || p == s.head),
    all(node.prev, *node(p), inpool(s.pool, p) || p == s.head)
  allocs node
  set s.lo := ite(old(empty(s)), old(s.lo), ite(s.head == old(s.head), old(s.lo), old(s.lo) - 1))
  set s.hi := ite(old(empty(s)), old(s.lo) + 1, old(s.hi))
  set s.nodes := update(old(s.nodes), s.lo, s.head)
  set s.idx := update(old(s.idx), s.head, s.lo)
  ensures[wf] wf(s)
  ensures[nonempty] !empty(s)
  ensures[front] s.nodes[s.lo].data[s.nodes[s.lo].start] == v
  ensures[single] imp(old(empty(s)), back(s) == front(s) + 1)
  ensures[grows] imp(!old(empty(s)), front(s) == old(front(s)) - 1 && back(s) == old(back(s)))
  ensures[rest] forall(int(k), int(j), imp(old(in(s, k, j)), in(s, k, j) && s.nodes[k].data[j] == old(s.nodes[k].data[j])))

func (*Deque).PushBack(s, v)
  prop P05
  requires wf(s)
  modifies object(s), pool(s.pool),
    all(node.data, *node(p), inpool(s.pool, p) || p == s.tail), all(node.start, *node(p), inpool(s.pool, p) || p == s.tail),
    all(node.end, *node(p), inpool(s.pool, p) || p == s.tail), all(node.next, *node(p), inpool(s.pool, p) || p == s.tail),
    all(node.prev, *node(p), inpool(s.pool, p) || p == s.tail)
  allocs node
  set s.hi := ite(old(empty(s)), old(s.lo) + 1, ite(s.tail == old(s.tail), old(s.hi), old(s.hi) + 1))
  set s.nodes := update(old(s.nodes), s.hi-1, s.tail)
  set s.idx := update(old(s.idx), s.tail, s.hi-1)
  ensures[wf] wf(s)
  ensures[nonempty] !empty(s)
  ensures[back] s.nodes[s.hi-1].data[s.nodes[s.hi-1].end-1] == v
  ensures[single] imp(old(empty(s)), back(s) == front(s) + 1)
  ensures[grows] imp(!old(empty(s)), front(s) == old(front(s)) && back(s) == old(back(s)) + 1)
  ensures[rest] forall(int(k), int(j), imp(old(in(s, k, j)), in(s, k, j) && s.nodes[k].data[j] == old(s.nodes[k].data[j])))

func (*Deque).PopFront(s) (v, ok)
  prop P05
  requires wf(s)
  modifies object(s), pool(s.pool),
    all(node.data, *node(p), p == s.head), all(node.start, *node(p), p == s.head), all(node.end, *node(p), p == s.head),
    all(node.next, *node(p), p == s.head), all(node.prev, *node(p), p == s.head || p == s.nodes[s.lo+1] && s.lo+1 < s.hi)
  set s.lo := ite(old(empty(s)) || s.head == old(s.head), old(s.lo), old(s.lo) + 1)
  ensures[wf] wf(s)
  ensures[empty] iff(ok, !old(empty(s)))
  ensures[refused] imp(!ok, v == zero(T) && empty(s))
  ensures[front] imp(ok, v == old(s.nodes[s.lo].data[s.nodes[s.lo].start]))
  ensures[last] imp(ok, iff(empty(s), old(back(s) == front(s) + 1)))
  ensures[shrinks] imp(ok && !empty(s), front(s) == old(front(s)) + 1 && back(s) == old(back(s)))
  ensures[rest] forall(int(k), int(j), imp(in(s, k, j), old(in(s, k, j)) && s.nodes[k].data[j] == old(s.nodes[k].data[j])))

func (*Deque).PopBack(s) (v, ok)
  prop P05
  requires wf(s)
  modifies object(s), pool(s.pool),
    all(node.data, *node(p), p == s.tail), all(node.start, *node(p), p == s.tail), all(node.end, *node(p), p == s.tail),
    all(node.prev, *node(p), p == s.tail), all(node.next, *node(p), p == s.tail || p == s.nodes[s.hi-2] && s.lo < s.hi-1)
  set s.hi := ite(old(empty(s)) || s.tail == old(s.tail), old(s.hi), old(s.hi) - 1)
  ensures[wf] wf(s)
  ensures[empty] iff(ok, !old(empty(s)))
  ensures[refused] imp(!ok, v == zero(T) && empty(s))
  ensures[back] imp(ok, v == old(s.nodes[s.hi-1].data[s.nodes[s.hi-1].end-1]))
  ensures[last] imp(ok, iff(empty(s), old(back(s) == front(s) + 1)))
  ensures[shrinks] imp(ok && !empty(s), front(s) == old(front(s)) && back(s) == old(back(s)) - 1)
  ensures[rest] forall(int(k), int(j), imp(in(s, k, j), old(in(s, k, j)) && s.nodes[k].data[j] == old(s.nodes[k].data[j])))

func (*Deque).PeekFront(s) (v, ok)
  prop P05
  requires wf(s)
  modifies nothing
  ensures[empty] iff(ok, !empty(s))
  ensures[front] imp(ok, v == s.nodes[s.lo].data[s.nodes[s.lo].start])
  ensures imp(!ok, v == zero(T))

func (*Deque).PeekBack(s) (v, ok)
  prop P05
  requires wf(s)
  modifies nothing
  ensures[empty] iff(ok, !empty(s))
  ensures[back] imp(ok, v == s.nodes[s.hi-1].data[s.nodes[s.hi-1].end-1])
  ensures imp(!ok, v == zero(T))
