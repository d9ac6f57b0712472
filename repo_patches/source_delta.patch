From 192022460fcb1d71e8d6ed6b5354ad3614112479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 01/24] fix: linkedx/stackx Pop returns the popped element, not
 the one below it

---
 dsx/linkedx/stackx/stackx.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dsx/linkedx/stackx/stackx.go b/dsx/linkedx/stackx/stackx.go
index 93b5216..ef88c66 100644
--- a/dsx/linkedx/stackx/stackx.go
+++ b/dsx/linkedx/stackx/stackx.go
@@ -43,9 +43,11 @@ func (s *Stack[T]) Pop() (data T, ok bool) {
 		return
 	}
 	s.length--
-	s.pool.Put(s.head)
-	s.head = s.head.next
-	return s.head.data, true
+	n := s.head
+	data = n.data
+	s.head = n.next
+	s.pool.Put(n)
+	return data, true
 }
 
 func (s *Stack[T]) Peek() (data T, ok bool) {
-- 
2.43.0


From 7cd9e4f95af8fa4e571eedfb9c96a57278c383b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 02/24] fix: linkedx/queuex Dequeue returns the dequeued
 element and Enqueue ends the list at the new node

---
 dsx/linkedx/queuex/queuex.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dsx/linkedx/queuex/queuex.go b/dsx/linkedx/queuex/queuex.go
index 38627c4..890c62e 100644
--- a/dsx/linkedx/queuex/queuex.go
+++ b/dsx/linkedx/queuex/queuex.go
@@ -32,6 +32,7 @@ func New[T any]() *Queue[T] {
 func (q *Queue[T]) Enqueue(data T) bool {
 	n := q.pool.Get().(*node[T])
 	n.data = data
+	n.next = nil
 	if q.head == nil {
 		q.head = n
 		q.tail = n
@@ -46,9 +47,11 @@ func (q *Queue[T]) Dequeue() (data T, ok bool) {
 	if q.head == nil {
 		return
 	}
-	q.pool.Put(q.head)
-	q.head = q.head.next
-	return q.head.data, true
+	n := q.head
+	data = n.data
+	q.head = n.next
+	q.pool.Put(n)
+	return data, true
 }
 
 func (q *Queue[T]) Peek() (data T, ok bool) {
-- 
2.43.0


From e672d6d7961a43ea6e10c591de3bd760c40fb11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 03/24] fix: linkedx/dequex emptying the deque resets both ends
 and recycled nodes carry no stale links

---
 dsx/linkedx/dequex/dequex.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dsx/linkedx/dequex/dequex.go b/dsx/linkedx/dequex/dequex.go
index d8adff5..3af1888 100644
--- a/dsx/linkedx/dequex/dequex.go
+++ b/dsx/linkedx/dequex/dequex.go
@@ -89,11 +89,15 @@ func (t *Deque[T]) PopFront() (data T, ok bool) {
 	data = t.head.data[t.head.start]
 	t.head.start++
 	if t.head.start == t.head.end {
-		t.pool.Put(t.head)
-		t.head = t.head.next
+		n := t.head
+		t.head = n.next
 		if t.head != nil {
 			t.head.prev = nil
+		} else {
+			t.tail = nil
 		}
+		n.next, n.prev = nil, nil
+		t.pool.Put(n)
 	}
 	return data, true
 }
@@ -105,11 +109,15 @@ func (t *Deque[T]) PopBack() (data T, ok bool) {
 	t.tail.end--
 	data = t.tail.data[t.tail.end]
 	if t.tail.start == t.tail.end {
-		t.pool.Put(t.tail)
-		t.tail = t.tail.prev
+		n := t.tail
+		t.tail = n.prev
 		if t.tail != nil {
 			t.tail.next = nil
+		} else {
+			t.head = nil
 		}
+		n.next, n.prev = nil, nil
+		t.pool.Put(n)
 	}
 	return data, true
 }
-- 
2.43.0


From 891a6a774a635497391b2152f6e5fac1879994a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 04/24] fix: linkedx/listx keeps length and tail in step with
 inserts and removes at every index

---
 dsx/linkedx/listx/listx.go | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/dsx/linkedx/listx/listx.go b/dsx/linkedx/listx/listx.go
index d136036..15c1e2f 100644
--- a/dsx/linkedx/listx/listx.go
+++ b/dsx/linkedx/listx/listx.go
@@ -45,6 +45,13 @@ func (l *List[T]) Append(data T) {
 }
 
 func (l *List[T]) Insert(index int, data T) {
+	if index < 0 || index > l.length {
+		return
+	}
+	if index == l.length {
+		l.Append(data)
+		return
+	}
 	l.length++
 	n := l.pool.Get().(*node[T])
 	n.data = data
@@ -54,11 +61,6 @@ func (l *List[T]) Insert(index int, data T) {
 		l.head = n
 		return
 	}
-	if index == l.Len() {
-		l.tail.next = n
-		l.tail = n
-		return
-	}
 	i := 0
 	for p := l.head; p != nil; p = p.next {
 		if i == index-1 {
@@ -71,14 +73,18 @@ func (l *List[T]) Insert(index int, data T) {
 }
 
 func (l *List[T]) Remove(index int) (rs T, ok bool) {
-	l.length--
 	if index == 0 {
 		if l.head == nil {
 			return
 		}
-		rs = l.head.data
-		l.pool.Put(l.head)
-		l.head = l.head.next
+		l.length--
+		n := l.head
+		rs = n.data
+		l.head = n.next
+		if l.head == nil {
+			l.tail = nil
+		}
+		l.pool.Put(n)
 		ok = true
 		return
 	}
@@ -88,9 +94,14 @@ func (l *List[T]) Remove(index int) (rs T, ok bool) {
 			if p.next == nil {
 				return
 			}
-			rs = p.next.data
-			l.pool.Put(p.next)
-			p.next = p.next.next
+			l.length--
+			n := p.next
+			rs = n.data
+			p.next = n.next
+			if p.next == nil {
+				l.tail = p
+			}
+			l.pool.Put(n)
 			ok = true
 			return
 		}
-- 
2.43.0


From 80c55a6da9c99989b82b26f48b82bbc1fba0dd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 05/24] fix: slicex/queuex allocates the extra ring slot its
 indices use

---
 dsx/slicex/queuex/queuex.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsx/slicex/queuex/queuex.go b/dsx/slicex/queuex/queuex.go
index c4aa0d8..9178aaa 100644
--- a/dsx/slicex/queuex/queuex.go
+++ b/dsx/slicex/queuex/queuex.go
@@ -14,11 +14,11 @@ type Ring[T any] struct {
 }
 
 func New[T any](cap int) *Ring[T] {
-	if cap == 0 {
+	if cap <= 0 {
 		return nil
 	}
 	return &Ring[T]{
-		data: make([]T, cap),
+		data: make([]T, cap+1),
 		cap:  cap + 1,
 		head: 0,
 		tail: 0,
-- 
2.43.0


From 6768376738dcc82038092fd6f70a756dc2a9f247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 06/24] fix: slicex Rotate accepts the smallest integer

---
 dsx/slicex/slicex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index 08cdfc1..5b2abcb 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -129,7 +129,7 @@ func (s *Slice[T]) Rotate(n int) *Slice[T] {
 		index := n % len(*s)
 		*s = append((*s)[index:], (*s)[:index]...)
 	} else if n < 0 {
-		index := -n % len(*s)
+		index := -(n % len(*s))
 		*s = append((*s)[len(*s)-index:], (*s)[:len(*s)-index]...)
 	}
 	return s
-- 
2.43.0


From d28a856a96f2eadacb49ac4de89b1607470ac959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 07/24] fix: slicex DeleteReplace no longer panics on an empty
 slice or an index past the end

---
 dsx/slicex/slicex.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index 5b2abcb..3be7f88 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -107,7 +107,10 @@ func (s *Slice[T]) Shift() T {
 }
 
 func (s *Slice[T]) DeleteReplace(i int) *Slice[T] {
-	preprocIndexException(&i, nil, len(*s))
+	if len(*s) == 0 {
+		return s
+	}
+	preprocIndexException(&i, nil, len(*s)-1)
 	(*s)[i] = (*s)[len(*s)-1]
 	*s = (*s)[:len(*s)-1]
 	return s
-- 
2.43.0


From db73346abf50f27d68c953d2ca2d7b2c01947ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 08/24] fix: slicex Splice does not write into the spare
 capacity of its arguments

---
 dsx/slicex/slicex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index 3be7f88..67d4eaf 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -58,7 +58,7 @@ func (s *Slice[T]) Slice(i, j int) *Slice[T] {
 
 func (s *Slice[T]) Splice(i, j int, v ...T) *Slice[T] {
 	preprocIndexException(&i, &j, len(*s))
-	*s = append((*s)[:i], append(v, (*s)[j:]...)...)
+	*s = append((*s)[:i], append(v[:len(v):len(v)], (*s)[j:]...)...)
 	return s
 }
 
-- 
2.43.0


From 376e327974f501d9faba69dacfe47a7db971e6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 09/24] fix: slicex Delete of the largest integer index deletes
 nothing

---
 dsx/slicex/slicex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index 67d4eaf..d01cfb1 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -75,6 +75,9 @@ func (s *Slice[T]) Cut(i, j int) *Slice[T] {
 }
 
 func (s *Slice[T]) Delete(i int) *Slice[T] {
+	if i < 0 || i >= len(*s) {
+		return s
+	}
 	return s.Cut(i, i+1)
 }
 
-- 
2.43.0


From 2dbab140713dcf0fe910c8fb2b590effafb8538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 10/24] fix: slicex Split does not overflow on a very large
 piece size

---
 dsx/slicex/slicex.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index d01cfb1..0ab877f 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -173,7 +173,10 @@ func (s Slice[T]) Split(splits ...int) []Slice[T] {
 	var r []Slice[T] = make([]Slice[T], 0, len(splits)+1)
 	var end int
 	for i := 0; i < len(splits); i++ {
-		endNext := end + splits[i]
+		endNext := len(s)
+		if splits[i] < len(s)-end {
+			endNext = end + splits[i]
+		}
 		preprocIndexException(&endNext, nil, len(s))
 		if endNext < end {
 			r = append(r, s[endNext:end])
-- 
2.43.0


From ae040d674c057b1e0436afb0fc38a431672ae931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 11/24] fix: slicex Repeat with a negative count yields an
 empty slice

---
 dsx/slicex/slicex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index 0ab877f..49fc275 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -161,6 +161,9 @@ func (s *Slice[T]) Filter(f func(T) bool) *Slice[T] {
 }
 
 func (s *Slice[T]) Repeat(cnt int) *Slice[T] {
+	if cnt < 0 {
+		cnt = 0
+	}
 	repeat := make(Slice[T], 0, len(*s)*cnt)
 	for i := 0; i < cnt; i++ {
 		repeat = append(repeat, *s...)
-- 
2.43.0


From f9630a5aa3519526d340859dd1e3471e4a7e67a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 12/24] fix: sortx Sort honours its reverse argument

---
 algox/sortx/sortx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/algox/sortx/sortx.go b/algox/sortx/sortx.go
index c43c333..2d87a18 100644
--- a/algox/sortx/sortx.go
+++ b/algox/sortx/sortx.go
@@ -6,6 +6,10 @@ import (
 )
 
 func Sort[T constraints.Ordered](s []T, reverse bool) {
+	if reverse {
+		SortReverse(s)
+		return
+	}
 	SortCustom(s, func(i, j T) bool {
 		return i < j
 	})
-- 
2.43.0


From 460fc7bc2c2cf01cce52c202156c7476628c623f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 13/24] fix: managerx/closex Close returns nil when no closer
 failed

---
 iox/managerx/closex/manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iox/managerx/closex/manager.go b/iox/managerx/closex/manager.go
index 5a6b954..ef05975 100644
--- a/iox/managerx/closex/manager.go
+++ b/iox/managerx/closex/manager.go
@@ -36,5 +36,8 @@ func (c *CloseManager) Close() error {
 		}
 	}
 
+	if len(errs) == 0 {
+		return nil
+	}
 	return errs
 }
-- 
2.43.0


From 254d5673a0cad4000342127ce9f735cb80f1875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 14/24] fix: osx/closex a second signal does not close the
 channel twice

---
 osx/closex/closex.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osx/closex/closex.go b/osx/closex/closex.go
index d51a242..2c26c57 100644
--- a/osx/closex/closex.go
+++ b/osx/closex/closex.go
@@ -23,6 +23,7 @@ func HandleKillSig(handler func(), logger *log.Logger) interrupt {
 			logger.Printf("Receive signal %s, Shutting down...", signal)
 			handler()
 			close(intr.C)
+			return
 		}
 	}()
 	return intr
-- 
2.43.0


From d0be018c38f26936857a257bb45cdd4278e9c757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 15/24] fix: aesx returns an error instead of panicking on data
 of an invalid length

---
 cryptox/aesx/aesx.go | 5 +++++
 cryptox/aesx/cbcx.go | 6 ++++++
 cryptox/aesx/ctrx.go | 3 +++
 cryptox/aesx/gcmx.go | 3 +++
 4 files changed, 17 insertions(+)

diff --git a/cryptox/aesx/aesx.go b/cryptox/aesx/aesx.go
index 3d6349e..d6fba5c 100644
--- a/cryptox/aesx/aesx.go
+++ b/cryptox/aesx/aesx.go
@@ -1 +1,6 @@
 package aesx
+
+import "errors"
+
+// ErrInvalidData is returned for data of a length the mode cannot process.
+var ErrInvalidData = errors.New("aesx: invalid data length")
diff --git a/cryptox/aesx/cbcx.go b/cryptox/aesx/cbcx.go
index 35f95cf..89e84d2 100644
--- a/cryptox/aesx/cbcx.go
+++ b/cryptox/aesx/cbcx.go
@@ -13,6 +13,9 @@ func EncryptCBC(data []byte, key []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(data)%block.BlockSize() != 0 {
+		return nil, ErrInvalidData
+	}
 	iv := make([]byte, block.BlockSize())
 	if _, err := rand.Read(iv); err != nil {
 		return nil, err
@@ -30,6 +33,9 @@ func DecryptCBC(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	ivSize := block.BlockSize()
+	if len(data) < ivSize || len(data)%ivSize != 0 {
+		return nil, ErrInvalidData
+	}
 	iv, ciphertext := data[:ivSize], data[ivSize:]
 	mode := cipher.NewCBCDecrypter(block, iv)
 	result := make([]byte, len(ciphertext))
diff --git a/cryptox/aesx/ctrx.go b/cryptox/aesx/ctrx.go
index 032178e..67a7ab2 100644
--- a/cryptox/aesx/ctrx.go
+++ b/cryptox/aesx/ctrx.go
@@ -30,6 +30,9 @@ func DecryptCTR(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	ivSize := block.BlockSize()
+	if len(data) < ivSize {
+		return nil, ErrInvalidData
+	}
 	iv, ciphertext := data[:ivSize], data[ivSize:]
 	mode := cipher.NewCTR(block, iv)
 	result := make([]byte, len(ciphertext))
diff --git a/cryptox/aesx/gcmx.go b/cryptox/aesx/gcmx.go
index 5724a0b..f977bd1 100644
--- a/cryptox/aesx/gcmx.go
+++ b/cryptox/aesx/gcmx.go
@@ -36,6 +36,9 @@ func DecryptGCM(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	nonceSize := aead.NonceSize()
+	if len(data) < nonceSize {
+		return nil, ErrInvalidData
+	}
 	nonce, ciphertext := data[:nonceSize], data[nonceSize:]
 	result, err := aead.Open(nil, nonce, ciphertext, nil)
 	if err != nil {
-- 
2.43.0


From a8a9e9eae935880a89702debf3f1ea5163adc8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 16/24] fix: bcryptx Decrypt rejects passwords longer than
 bcrypt can tell apart

---
 cryptox/bcryptx/bcryptx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cryptox/bcryptx/bcryptx.go b/cryptox/bcryptx/bcryptx.go
index 086716c..6367733 100644
--- a/cryptox/bcryptx/bcryptx.go
+++ b/cryptox/bcryptx/bcryptx.go
@@ -28,6 +28,9 @@ func Encrypt(pw []byte) ([]byte, error) {
 }
 
 func Decrypt(enc, pw []byte) (bool, error) {
+	if len(pw) > DefMaxLen {
+		return false, ErrPasswordTooLong
+	}
 	err := bcrypt.CompareHashAndPassword(enc, pw)
 	if err != nil {
 		if err == bcrypt.ErrMismatchedHashAndPassword {
-- 
2.43.0


From 1a181173f6070fb4fcad21a90ddeed80583830ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 17/24] fix: gopoolx preheating does not start more than
 maxWorkers workers

---
 poolx/gopoolx/timedpool.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index aedcf63..065df0c 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -200,6 +200,9 @@ func NewTimedPool[T any](maxWorkers int64, handler func(T), idleTimeout, gcPerio
 		gcPeriod:    gcPeriod,
 	}
 
+	if int64(preheat) > maxWorkers {
+		preheat = int(maxWorkers)
+	}
 	pool.start(preheat)
 	return pool, nil
 }
-- 
2.43.0


From 0e3e710fe6fde6ccce499f6e1c1402dce53464cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 18/24] fix: decouplex a dropped write no longer consumes the
 slot the reader waits for

---
 iox/decouplex/decouple.go | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/iox/decouplex/decouple.go b/iox/decouplex/decouple.go
index c53b894..b308861 100644
--- a/iox/decouplex/decouple.go
+++ b/iox/decouplex/decouple.go
@@ -50,27 +50,25 @@ func (d *Decoupler) Write(b []byte) (int, error) {
 		return d.drop(b)
 	}
 
+	// Reserve a slot before taking a ticket, so that every ticket is filled.
 	for {
-		ts := atomic.AddUint64(&d._write, 1)
-		idx := ts % d.size
-
-		lock := atomic.LoadUint64(&d.locktab[idx])
-		if lock == empty {
-			if !atomic.CompareAndSwapUint64(&d.locktab[idx], empty, busy) {
-				continue
-			}
-			d.buffer[idx] = append(d.buffer[idx][:0], b...)
-			atomic.StoreUint64(&d.locktab[idx], ts)
-			atomic.AddUint64(&d._len, 1)
-			return len(b), nil
+		n := atomic.LoadUint64(&d._len)
+		if n >= d.size {
+			return d.drop(b)
 		}
-
-		if lock != busy {
-			if atomic.LoadUint64(&d._len) == d.size {
-				return d.drop(b)
-			}
+		if atomic.CompareAndSwapUint64(&d._len, n, n+1) {
+			break
 		}
 	}
+
+	ts := atomic.AddUint64(&d._write, 1)
+	idx := ts % d.size
+	for !atomic.CompareAndSwapUint64(&d.locktab[idx], empty, busy) {
+		runtime.Gosched() // Wait for the reader
+	}
+	d.buffer[idx] = append(d.buffer[idx][:0], b...)
+	atomic.StoreUint64(&d.locktab[idx], ts)
+	return len(b), nil
 }
 
 func (d *Decoupler) Next(view func([]byte)) bool {
-- 
2.43.0


From 95ab26281c69884d5522554b7b75f16f64473a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:11 +0000
Subject: [PATCH 19/24] fix: sklmapx an exhausted iterator keeps reporting the
 end instead of panicking

---
 dsx/mapx/sklmapx/sklmapx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/mapx/sklmapx/sklmapx.go b/dsx/mapx/sklmapx/sklmapx.go
index be8685d..b55215a 100644
--- a/dsx/mapx/sklmapx/sklmapx.go
+++ b/dsx/mapx/sklmapx/sklmapx.go
@@ -213,7 +213,7 @@ func (i *Iterator[K, V]) Rewind() {
 func (i *Iterator[K, V]) Next() (K, V, bool) {
 	if i.node == nil {
 		i.node = i.list.skl.head.next[0]
-	} else {
+	} else if i.node != i.list.skl.tail {
 		i.node = i.node.next[0]
 	}
 	if i.node == i.list.skl.tail {
-- 
2.43.0


From d1025a379caf2a419403c95be2cca41ab7e053ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:12 +0000
Subject: [PATCH 20/24] fix: convx converters from and to interface types are
 found again

---
 typex/convx/convx.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/typex/convx/convx.go b/typex/convx/convx.go
index d8dd152..71eb198 100644
--- a/typex/convx/convx.go
+++ b/typex/convx/convx.go
@@ -11,41 +11,41 @@ var convertersLock = sync.RWMutex{}
 func Register[T, R any](converter func(T) R) {
 	convertersLock.Lock()
 	defer convertersLock.Unlock()
-	if converters[reflect.TypeOf(*new(T))] == nil {
-		converters[reflect.TypeOf(*new(T))] = make(map[reflect.Type]any)
+	if converters[reflect.TypeOf((*T)(nil)).Elem()] == nil {
+		converters[reflect.TypeOf((*T)(nil)).Elem()] = make(map[reflect.Type]any)
 	}
-	converters[reflect.TypeOf(*new(T))][reflect.TypeOf(*new(R))] = converter
+	converters[reflect.TypeOf((*T)(nil)).Elem()][reflect.TypeOf((*R)(nil)).Elem()] = converter
 }
 
 func Unregister[T, R any]() {
 	convertersLock.Lock()
 	defer convertersLock.Unlock()
-	m := converters[reflect.TypeOf(*new(T))]
+	m := converters[reflect.TypeOf((*T)(nil)).Elem()]
 	if m == nil {
 		return
 	}
-	delete(m, reflect.TypeOf(*new(R)))
+	delete(m, reflect.TypeOf((*R)(nil)).Elem())
 }
 
 func Exists[T, R any]() bool {
 	convertersLock.RLock()
 	defer convertersLock.RUnlock()
-	m := converters[reflect.TypeOf(*new(T))]
+	m := converters[reflect.TypeOf((*T)(nil)).Elem()]
 	if m == nil {
 		return false
 	}
-	_, ok := m[reflect.TypeOf(*new(R))]
+	_, ok := m[reflect.TypeOf((*R)(nil)).Elem()]
 	return ok
 }
 
 func Into[T, R any](value T) (rs R, ok bool) {
 	convertersLock.RLock()
 	defer convertersLock.RUnlock()
-	m := converters[reflect.TypeOf(value)]
+	m := converters[reflect.TypeOf((*T)(nil)).Elem()]
 	if m == nil {
 		return
 	}
-	v := m[reflect.TypeOf(rs)]
+	v := m[reflect.TypeOf((*R)(nil)).Elem()]
 	if v == nil {
 		return
 	}
-- 
2.43.0


From f17d8b504f4145f5a8e171aec960d95de6b0969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:58 +0000
Subject: [PATCH 21/24] fix: convx a converter may use the registry while it
 runs, the lock is not held during the call

---
 typex/convx/convx.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/typex/convx/convx.go b/typex/convx/convx.go
index 71eb198..6e59349 100644
--- a/typex/convx/convx.go
+++ b/typex/convx/convx.go
@@ -40,15 +40,8 @@ func Exists[T, R any]() bool {
 
 func Into[T, R any](value T) (rs R, ok bool) {
 	convertersLock.RLock()
-	defer convertersLock.RUnlock()
-	m := converters[reflect.TypeOf((*T)(nil)).Elem()]
-	if m == nil {
-		return
-	}
-	v := m[reflect.TypeOf((*R)(nil)).Elem()]
-	if v == nil {
-		return
-	}
+	v := converters[reflect.TypeOf((*T)(nil)).Elem()][reflect.TypeOf((*R)(nil)).Elem()]
+	convertersLock.RUnlock()
 	f, ok := v.(func(T) R)
 	if !ok {
 		return
-- 
2.43.0


From 3aa1e6c50b4e018d2173a27968063e0e19be1e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:49 +0000
Subject: [PATCH 22/24] fix: intersectionx intervals that only touch intersect,
 whatever order they come in

---
 timex/intersectionx/intersectionx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/timex/intersectionx/intersectionx.go b/timex/intersectionx/intersectionx.go
index e6d9e5d..dfcdc21 100644
--- a/timex/intersectionx/intersectionx.go
+++ b/timex/intersectionx/intersectionx.go
@@ -17,6 +17,9 @@ func (s iSlice) Len() int {
 }
 
 func (s iSlice) Less(i, j int) bool {
+	if s[i].Offset == s[j].Offset {
+		return s[i].Type < s[j].Type
+	}
 	return s[i].Offset < s[j].Offset
 }
 
-- 
2.43.0


From 2dcde12d6474cdb1ad97349458063735dec47f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:54 +0000
Subject: [PATCH 23/24] fix: gopoolx worker no longer reads its channel after
 the collector may have taken it

---
 poolx/gopoolx/timedpool.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index 065df0c..6f7f2aa 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -29,8 +29,8 @@ type TimedPool[T any] struct {
 	dobby   []*timedworker[T]
 }
 
-func tworker[T any](pool *TimedPool[T], w *timedworker[T]) {
-	for v := range w.ch {
+func tworker[T any](pool *TimedPool[T], w *timedworker[T], ch <-chan T) {
+	for v := range ch {
 		pool.handler(v)
 		if pool.free(w) {
 			return
@@ -56,7 +56,7 @@ func (pool *TimedPool[T]) start(preheat int) {
 			w := pool.pool.Get()
 			w.tt = time.Now().UnixNano()
 			pool.dobby = append(pool.dobby, w)
-			go tworker(pool, w)
+			go tworker(pool, w, w.ch)
 		}
 	}
 
@@ -160,7 +160,7 @@ func (pool *TimedPool[T]) Run(v T) (ok bool) {
 			pool.workers++
 			w = pool.pool.Get()
 			w.ch = make(chan T, 1)
-			go tworker(pool, w)
+			go tworker(pool, w, w.ch)
 		} else {
 			pool.mu.Unlock()
 			return false
-- 
2.43.0


From 826072a5087fc91d7573c4691bbffb91e59d7240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:35 +0000
Subject: [PATCH 24/24] fix: sleepx Wakeup and a beginning sleep no longer race
 for the wakeup signal

A sleeper marked itself as sleeping first and read the context afterwards,
without synchronization, while Wakeup cancelled and replaced it: a sleep
that had just begun could miss the wakeup that Wakeup reported.
---
 timex/sleepx/sleepx.go | 46 ++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/timex/sleepx/sleepx.go b/timex/sleepx/sleepx.go
index e8e8ce4..95c00c3 100644
--- a/timex/sleepx/sleepx.go
+++ b/timex/sleepx/sleepx.go
@@ -2,19 +2,21 @@ package sleepx
 
 import (
 	"context"
-	"sync/atomic"
+	"sync"
 	"time"
 
 	"github.com/unsafe-risk/utilx/timex"
 )
 
 type Sleeper struct {
+	mu sync.Mutex
+
 	// wakeup signal
 	ctx    context.Context
 	cancel context.CancelFunc
 
 	// slept
-	slept atomic.Bool
+	slept bool
 }
 
 func New() *Sleeper {
@@ -22,16 +24,32 @@ func New() *Sleeper {
 	return &Sleeper{
 		ctx:    ctx,
 		cancel: cancel,
-		slept:  atomic.Bool{},
 	}
 }
 
+// begin marks the sleeper as sleeping and returns the signal to wake it up.
+func (s *Sleeper) begin() (done <-chan struct{}, ok bool) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.slept {
+		return nil, false
+	}
+	s.slept = true
+	return s.ctx.Done(), true
+}
+
+func (s *Sleeper) end() {
+	s.mu.Lock()
+	s.slept = false
+	s.mu.Unlock()
+}
+
 func (s *Sleeper) SleepFor(d time.Duration) bool {
-	if !s.slept.CompareAndSwap(false, true) {
+	done, ok := s.begin()
+	if !ok {
 		return false
 	}
-	defer s.slept.Store(false)
-	done := s.ctx.Done()
+	defer s.end()
 	for {
 		select {
 		case <-time.After(time.Duration(d) * time.Second):
@@ -43,11 +61,11 @@ func (s *Sleeper) SleepFor(d time.Duration) bool {
 }
 
 func (s *Sleeper) SleepUntil(t time.Time) bool {
-	if !s.slept.CompareAndSwap(false, true) {
+	done, ok := s.begin()
+	if !ok {
 		return false
 	}
-	defer s.slept.Store(false)
-	done := s.ctx.Done()
+	defer s.end()
 	for {
 		select {
 		case <-time.After(t.Sub(timex.Now())):
@@ -59,11 +77,11 @@ func (s *Sleeper) SleepUntil(t time.Time) bool {
 }
 
 func (s *Sleeper) SleepForever() bool {
-	if !s.slept.CompareAndSwap(false, true) {
+	done, ok := s.begin()
+	if !ok {
 		return false
 	}
-	defer s.slept.Store(false)
-	done := s.ctx.Done()
+	defer s.end()
 	for {
 		select {
 		case <-done:
@@ -73,7 +91,9 @@ func (s *Sleeper) SleepForever() bool {
 }
 
 func (s *Sleeper) Wakeup() bool {
-	if !s.slept.Load() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if !s.slept {
 		return false
 	}
 	s.cancel()
-- 
2.43.0

