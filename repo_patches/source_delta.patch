From d38cf1e7780f209b844903c215f0f8ed3e7ae321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:12 +0000
Subject: [PATCH 01/53] fix: Vec.Reserve must not change the length

---
 vec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vec.go b/vec.go
index f4570b0..5e7d45b 100644
--- a/vec.go
+++ b/vec.go
@@ -70,7 +70,7 @@ func (self Vec[T]) IsEmpty() Bool {
 //	gost.AssertEq(vec.Capacity(), gost.USize(10))
 func (self *Vec[T]) Reserve(additional USize) {
 	if self.Capacity() < self.Len()+additional {
-		self.data = append(self.data, make([]T, additional)...)
+		self.data = append(make([]T, 0, self.Len()+additional), self.data...)
 	}
 }
 
-- 
2.43.0


From 141633e336ece8265042fd38aedb4911f729f93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:16 +0000
Subject: [PATCH 02/53] fix: Vec.DedupByKey removes only consecutive duplicates

---
 vec.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vec.go b/vec.go
index 5e7d45b..9b75dee 100644
--- a/vec.go
+++ b/vec.go
@@ -181,13 +181,13 @@ func (self *Vec[T]) Retain(predicate func(T) Bool) {
 //	gost.AssertEq(vec.Len(), gost.USize(3))
 func (self *Vec[T]) DedupByKey(key func(T) any) {
 	newData := make([]T, 0, len(self.data))
-	seen := make(map[any]bool)
-	for _, value := range self.data {
+	var previous any
+	for i, value := range self.data {
 		k := key(value)
-		if !seen[k] {
-			seen[k] = true
+		if i == 0 || previous != k {
 			newData = append(newData, value)
 		}
+		previous = k
 	}
 	self.data = newData
 }
-- 
2.43.0


From ac90aa11e7721ff3b16f0768314b9f5807271bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:21 +0000
Subject: [PATCH 03/53] fix: Vec.Set out of bounds returns the value instead of
 panicking

---
 vec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vec.go b/vec.go
index 9b75dee..c1563c8 100644
--- a/vec.go
+++ b/vec.go
@@ -259,7 +259,7 @@ func (self Vec[T]) GetUnchecked(index USize) T {
 //	gost.AssertEq(vec.GetUnchecked(0), gost.I32(4))
 func (self *Vec[T]) Set(index USize, value T) Option[T] {
 	if index < 0 || index >= self.Len() {
-		return Some[T](self.data[index])
+		return Some[T](value)
 	} else {
 		self.data[index] = value
 		return None[T]()
-- 
2.43.0


From b22ab4014c93beb5a17aaceb86ebd8ee7ed08d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:25 +0000
Subject: [PATCH 04/53] fix: Vec.Insert out of bounds panics before touching
 the contents

---
 vec.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vec.go b/vec.go
index c1563c8..a6a6a83 100644
--- a/vec.go
+++ b/vec.go
@@ -140,6 +140,10 @@ func (self Vec[T]) AsSlice() []T {
 //	gost.AssertEq(vec.GetUnchecked(0), gost.I32(1))
 //	gost.AssertEq(vec.GetUnchecked(1), gost.I32(3))
 func (self *Vec[T]) Insert(index USize, value T) {
+	if index > self.Len() {
+		panic(fmt.Sprintf("insertion index (is %d) should be <= len (is %d)", index, self.Len()))
+	}
+
 	self.data = append(self.data, value)
 	copy(self.data[index+1:], self.data[index:])
 	self.data[index] = value
-- 
2.43.0


From 6d82769f67a7a404b9ce214d82f03144c27494cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 05/53] fix: VecDeque.BinarySearch(By) must use logical indexes

---
 vec_deque.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vec_deque.go b/vec_deque.go
index e908ced..11bf316 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -413,7 +413,7 @@ func (self VecDeque[T]) BinarySearch(value T) Option[USize] {
 	for low <= high {
 		mid := (low + high) / 2
 
-		midData := castToOrd[T](self.buffer[mid]).Unwrap()
+		midData := castToOrd[T](self.GetUnchecked(USize(mid))).Unwrap()
 		ordering := midData.Cmp(value)
 
 		switch ordering {
@@ -457,7 +457,7 @@ func (self VecDeque[T]) BinarySearchBy(f func(T) Ordering) Option[USize] {
 
 	for low <= high {
 		mid := (low + high) / 2
-		ordering := f(self.buffer[mid])
+		ordering := f(self.GetUnchecked(USize(mid)))
 
 		switch ordering {
 		case OrderingLess:
-- 
2.43.0


From 721fcce8f087b764898abf9b47a7ff47c092b2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:13 +0000
Subject: [PATCH 06/53] fix: VecDeque sorts must order the elements, not the
 raw buffer

---
 vec_deque.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/vec_deque.go b/vec_deque.go
index 11bf316..6902366 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -491,6 +491,8 @@ func (self VecDeque[T]) BinarySearchBy(f func(T) Ordering) Option[USize] {
 //	gost.AssertEq(deque.GetUnchecked(1), gost.I32(2))
 //	gost.AssertEq(deque.GetUnchecked(2), gost.I32(3))
 func (self *VecDeque[T]) Sort() {
+	self._MakeContiguous()
+
 	sort.SliceStable(self.buffer[:self.len], func(i, j int) bool {
 		if castToOrd[T](self.buffer[i]).IsNone() {
 			typeName := getTypeName(self.buffer[i])
@@ -525,6 +527,8 @@ func (self *VecDeque[T]) Sort() {
 //	})
 //	gost.AssertEq(deque.GetUnchecked(0), gost.I32(1))
 func (self *VecDeque[T]) SortBy(f func(T, T) Ordering) {
+	self._MakeContiguous()
+
 	sort.SliceStable(self.buffer[:self.len], func(i, j int) bool {
 		return f(self.buffer[i], self.buffer[j]) == OrderingLess
 	})
@@ -540,6 +544,8 @@ func (self *VecDeque[T]) SortBy(f func(T, T) Ordering) {
 //	deque.SortUnstable()
 //	gost.AssertEq(deque.GetUnchecked(0), gost.I32(1))
 func (self *VecDeque[T]) SortUnstable() {
+	self._MakeContiguous()
+
 	sort.Slice(self.buffer[:self.len], func(i, j int) bool {
 		if castToOrd[T](self.buffer[i]).IsNone() {
 			typeName := getTypeName(self.buffer[i])
@@ -574,6 +580,8 @@ func (self *VecDeque[T]) SortUnstable() {
 //	})
 //	gost.AssertEq(deque.GetUnchecked(0), gost.I32(1))
 func (self *VecDeque[T]) SortUnstableBy(f func(T, T) Ordering) {
+	self._MakeContiguous()
+
 	sort.Slice(self.buffer[:self.len], func(i, j int) bool {
 		return f(self.buffer[i], self.buffer[j]) == OrderingLess
 	})
@@ -675,6 +683,21 @@ func _WrapIndex(logicalIndex USize, capacity USize) USize {
 	}
 }
 
+// Moves the elements to the start of the underlying buffer, if they are not there already.
+func (self *VecDeque[T]) _MakeContiguous() {
+	if self.head == 0 {
+		return
+	}
+
+	newBuffer := make([]T, len(self.buffer))
+	for i := USize(0); i < self.len; i++ {
+		newBuffer[i] = self.GetUnchecked(i)
+	}
+
+	self.buffer = newBuffer
+	self.head = 0
+}
+
 // Returns the index in the underlying buffer for a given logical element
 // index + addend.
 func (self VecDeque[T]) _WrapAdd(index USize, addend USize) USize {
-- 
2.43.0


From ba52a066524e6297f4c81d25d47d6bf403d6ae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:17 +0000
Subject: [PATCH 07/53] fix: VecDeque.AsSlice must start at the front element

---
 vec_deque.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vec_deque.go b/vec_deque.go
index 6902366..e9ee3a6 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -341,6 +341,12 @@ func (self *VecDeque[T]) Clear() {
 
 // Extracts a slice containing the entire vecdeque.
 func (self VecDeque[T]) AsSlice() []T {
+	if self.head+self.len <= self.Capacity() {
+		return self.buffer[self.head : self.head+self.len]
+	}
+
+	self._MakeContiguous()
+
 	return self.buffer[:self.len]
 }
 
-- 
2.43.0


From 7ab1a830abf77838718ebd188361f4676ee8f0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:21 +0000
Subject: [PATCH 08/53] fix: VecDeque.Clone must clone its elements

---
 vec_deque.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vec_deque.go b/vec_deque.go
index e9ee3a6..6681238 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -858,7 +858,13 @@ func (self VecDeque[T]) Clone() *VecDeque[T] {
 	cloned := VecDequeWithCapacity[T](self.Capacity())
 
 	for i := USize(0); i < self.Len(); i++ {
-		cloned.PushBack(self.Get(i).Unwrap())
+		e := self.Get(i).Unwrap()
+
+		if clonable := castToClone(e); clonable.IsSome() {
+			e = clonable.Unwrap().Clone()
+		}
+
+		cloned.PushBack(e)
 	}
 
 	return &cloned
-- 
2.43.0


From 7baf222a36bed6a572feefc40073aee610940d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:25 +0000
Subject: [PATCH 09/53] fix: VecDeque iterator adaptors must start at the
 current position

---
 vec_deque.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vec_deque.go b/vec_deque.go
index 6681238..a27eaad 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -751,7 +751,7 @@ func (self *VecDequeIter[T]) Next() Option[T] {
 func (self *VecDequeIter[T]) Map(f func(T) T) Iterator[T] {
 	newDeque := VecDequeWithCapacity[T](self.deque.Capacity())
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		newDeque.PushBack(f(self.deque.Get(i).Unwrap()))
 	}
 
@@ -762,7 +762,7 @@ func (self *VecDequeIter[T]) Map(f func(T) T) Iterator[T] {
 func (self *VecDequeIter[T]) Filter(f func(T) Bool) Iterator[T] {
 	newDeque := VecDequeWithCapacity[T](self.deque.Capacity())
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		value := self.deque.Get(i).Unwrap()
 		if f(value) {
 			newDeque.PushBack(value)
@@ -776,7 +776,7 @@ func (self *VecDequeIter[T]) Filter(f func(T) Bool) Iterator[T] {
 func (self *VecDequeIter[T]) Fold(initial T, f func(T, T) T) T {
 	accumulator := initial
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		accumulator = f(accumulator, self.deque.Get(i).Unwrap())
 	}
 
@@ -798,7 +798,7 @@ func (self *VecDequeIter[T]) Rev() Iterator[T] {
 func (self *VecDequeIter[T]) CollectToVec() Vec[T] {
 	newVec := VecWithCapacity[T](self.deque.Capacity())
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		newVec.Push(self.deque.Get(i).Unwrap())
 	}
 
@@ -809,7 +809,7 @@ func (self *VecDequeIter[T]) CollectToVec() Vec[T] {
 func (self *VecDequeIter[T]) CollectToLinkedList() LinkedList[T] {
 	newLinkedList := LinkedListNew[T]()
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		newLinkedList.PushBack(self.deque.Get(i).Unwrap())
 	}
 
-- 
2.43.0


From f2c7241122c7d8059e388a8f5f434aead2ba4cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:29 +0000
Subject: [PATCH 10/53] fix: VecDeque iterator Rev must stop at the current
 position instead of panicking

---
 vec_deque.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vec_deque.go b/vec_deque.go
index a27eaad..51d13e7 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -787,8 +787,8 @@ func (self *VecDequeIter[T]) Fold(initial T, f func(T, T) T) T {
 func (self *VecDequeIter[T]) Rev() Iterator[T] {
 	newDeque := VecDequeWithCapacity[T](self.deque.Capacity())
 
-	for i := self.deque.Len().WrappingSub(1); i >= 0; i-- {
-		newDeque.PushBack(self.deque.Get(i).Unwrap())
+	for i := self.deque.Len(); i > self.position; i-- {
+		newDeque.PushBack(self.deque.Get(i - 1).Unwrap())
 	}
 
 	return newDeque.IntoIter()
-- 
2.43.0


From 61e5ec5f1284b254985a572f7f55ed7ec7aed91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:57 +0000
Subject: [PATCH 11/53] fix: iterator Rev after Next must yield only the
 remaining elements

---
 btree_map.go | 12 ++++++------
 btree_set.go |  4 ++--
 hash_map.go  | 12 ++++++------
 hash_set.go  |  4 ++--
 vec.go       |  4 ++--
 5 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 7015fe5..17889e5 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -827,8 +827,8 @@ func (self *BTreeMapIter[K, V]) Fold(init Pair[K, V], f func(Pair[K, V], Pair[K,
 
 // rev
 func (self BTreeMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
-	newVec := VecWithLen[Pair[K, V]](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[Pair[K, V]](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -941,8 +941,8 @@ func (self *BTreeMapKeys[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self BTreeMapKeys[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -1055,8 +1055,8 @@ func (self *BTreeMapValues[V]) Fold(init V, f func(V, V) V) V {
 
 // rev
 func (self BTreeMapValues[V]) Rev() Iterator[V] {
-	newVec := VecWithLen[V](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[V](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
diff --git a/btree_set.go b/btree_set.go
index 6a00e57..2fc55f7 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -368,8 +368,8 @@ func (self BTreeSetIter[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self BTreeSetIter[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
diff --git a/hash_map.go b/hash_map.go
index 632a11e..706f067 100644
--- a/hash_map.go
+++ b/hash_map.go
@@ -188,8 +188,8 @@ func (self HashMapIter[K, V]) Fold(init Pair[K, V], f func(Pair[K, V], Pair[K, V
 
 // rev
 func (self HashMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
-	newVec := VecWithLen[Pair[K, V]](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[Pair[K, V]](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -303,8 +303,8 @@ func (self HashMapKeys[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self HashMapKeys[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -411,8 +411,8 @@ func (self HashMapValues[V]) Fold(init V, f func(V, V) V) V {
 
 // rev
 func (self HashMapValues[V]) Rev() Iterator[V] {
-	newVec := VecWithLen[V](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[V](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
diff --git a/hash_set.go b/hash_set.go
index 0d74497..1eb34f5 100644
--- a/hash_set.go
+++ b/hash_set.go
@@ -403,8 +403,8 @@ func (self HashSetIter[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self HashSetIter[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
diff --git a/vec.go b/vec.go
index a6a6a83..c34d967 100644
--- a/vec.go
+++ b/vec.go
@@ -598,8 +598,8 @@ func (self VecIter[T]) Fold(init T, f func(T, T) T) T {
 
 // rev
 func (self VecIter[T]) Rev() Iterator[T] {
-	newVec := VecWithLen[T](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[T](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
-- 
2.43.0


From 66a4c43025f13b57e3c431f114b93df102d30706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:01 +0000
Subject: [PATCH 12/53] fix: iterator CollectToVec after Next must collect only
 the remaining elements

---
 btree_map.go | 6 +++---
 btree_set.go | 2 +-
 hash_map.go  | 6 +++---
 hash_set.go  | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 17889e5..24fd987 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -843,7 +843,7 @@ func (self BTreeMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
 
 // Collect to Vec
 func (self BTreeMapIter[K, V]) CollectToVec() Vec[Pair[K, V]] {
-	return self.vec
+	return VecIter[Pair[K, V]]{vec: self.vec, position: self.position}.CollectToVec()
 }
 
 // Collect to LinkedList
@@ -957,7 +957,7 @@ func (self BTreeMapKeys[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self BTreeMapKeys[K]) CollectToVec() Vec[K] {
-	return self.vec
+	return VecIter[K]{vec: self.vec, position: self.position}.CollectToVec()
 }
 
 // Collect to LinkedList
@@ -1071,7 +1071,7 @@ func (self BTreeMapValues[V]) Rev() Iterator[V] {
 
 // Collect to Vec
 func (self BTreeMapValues[V]) CollectToVec() Vec[V] {
-	return self.vec
+	return VecIter[V]{vec: self.vec, position: self.position}.CollectToVec()
 }
 
 // Collect to LinkedList
diff --git a/btree_set.go b/btree_set.go
index 2fc55f7..8803c6d 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -384,7 +384,7 @@ func (self BTreeSetIter[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self BTreeSetIter[K]) CollectToVec() Vec[K] {
-	return self.vec
+	return VecIter[K]{vec: self.vec, position: self.position}.CollectToVec()
 }
 
 // Collect to LinkedList
diff --git a/hash_map.go b/hash_map.go
index 706f067..2e8d7b1 100644
--- a/hash_map.go
+++ b/hash_map.go
@@ -204,7 +204,7 @@ func (self HashMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
 
 // Collect to Vec
 func (self HashMapIter[K, V]) CollectToVec() Vec[Pair[K, V]] {
-	return self.vec
+	return VecIter[Pair[K, V]]{vec: self.vec, position: self.position}.CollectToVec()
 }
 
 // Collect to LinkedList
@@ -319,7 +319,7 @@ func (self HashMapKeys[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self HashMapKeys[K]) CollectToVec() Vec[K] {
-	return self.vec
+	return VecIter[K]{vec: self.vec, position: self.position}.CollectToVec()
 }
 
 // Collect to LinkedList
@@ -427,7 +427,7 @@ func (self HashMapValues[V]) Rev() Iterator[V] {
 
 // Collect to Vec
 func (self HashMapValues[V]) CollectToVec() Vec[V] {
-	return self.vec
+	return VecIter[V]{vec: self.vec, position: self.position}.CollectToVec()
 }
 
 // Collect to LinkedList
diff --git a/hash_set.go b/hash_set.go
index 1eb34f5..200cdb7 100644
--- a/hash_set.go
+++ b/hash_set.go
@@ -419,7 +419,7 @@ func (self HashSetIter[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self HashSetIter[K]) CollectToVec() Vec[K] {
-	return self.vec
+	return VecIter[K]{vec: self.vec, position: self.position}.CollectToVec()
 }
 
 // Collect to LinkedList
-- 
2.43.0


From 6d0683f6930dca712dda05d87c6a13acdf79834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 13/53] fix: LinkedList iterator Rev must reverse

---
 linked_list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linked_list.go b/linked_list.go
index 39389ca..9b83aa2 100644
--- a/linked_list.go
+++ b/linked_list.go
@@ -329,7 +329,7 @@ func (self LinkedListIter[T]) Rev() Iterator[T] {
 			break
 		}
 
-		newList.PushBack(value.Unwrap())
+		newList.PushFront(value.Unwrap())
 	}
 
 	return newList.IntoIter()
-- 
2.43.0


From 1038be05ff229ce03a050b9d4e02c1f93db26b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:54 +0000
Subject: [PATCH 14/53] fix: BinaryHeap.Append must leave the other heap empty

---
 binary_heap.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/binary_heap.go b/binary_heap.go
index 2d4121e..63f2324 100644
--- a/binary_heap.go
+++ b/binary_heap.go
@@ -187,6 +187,7 @@ func (self *BinaryHeap[T]) Append(other *BinaryHeap[T]) {
 	for _, item := range other.vec.data {
 		self.Push(item)
 	}
+	other.Clear()
 }
 
 // Clears the heap, removing all values.
-- 
2.43.0


From 8a6f7183ffd9bfadf14105c3c95f18545509babd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:58 +0000
Subject: [PATCH 15/53] fix: BTreeSet.IntoIter must work on the empty set

---
 btree_set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/btree_set.go b/btree_set.go
index 8803c6d..4d6f12f 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -305,7 +305,11 @@ type BTreeSetIter[K Ord[K]] struct {
 
 // into_iter
 func (self *BTreeSet[K]) IntoIter() Iterator[K] {
-	keys := self._treemap.root._ToKeyVec()
+	keys := Vec[K]{}
+
+	if self._treemap.root != nil {
+		keys = self._treemap.root._ToKeyVec()
+	}
 
 	return &BTreeSetIter[K]{vec: keys, position: 0}
 }
-- 
2.43.0


From f4d1e95cb32a19f407d71327ff4f055d0231be3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:02 +0000
Subject: [PATCH 16/53] fix: BTreeSet.Clone must terminate

---
 btree_set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/btree_set.go b/btree_set.go
index 4d6f12f..8d5b3ac 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -441,8 +441,9 @@ func (self BTreeSet[K]) AsRef() *BTreeSet[K] {
 func (self BTreeSet[K]) Clone() BTreeSet[K] {
 	newSet := BTreeSetNew[K]()
 
+	iter := self.IntoIter()
 	for {
-		value := self.IntoIter().Next()
+		value := iter.Next()
 
 		if value.IsNone() {
 			return newSet
-- 
2.43.0


From fc983678f39a778d1f203d56e48db1ff16e79062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:05 +0000
Subject: [PATCH 17/53] fix: BTreeMap.Insert must split full nodes in half
 instead of losing keys and panicking

---
 btree_map.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 24fd987..245c4ea 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -50,11 +50,12 @@ func (self *BTreeMap[K, V]) Insert(key K, value V) Option[V] {
 	if self.root == nil {
 		// Allocate memory for root
 		self.root = &BTreeNode[K, V]{
-			_Type:  _LEAF,
-			keys:   VecWithLen[*K](_BTREE_CAPACITY),
-			values: VecWithLen[*V](_BTREE_CAPACITY),
-			childs: VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
-			n:      1,
+			_Type:          _LEAF,
+			_MinimumDegree: _B,
+			keys:           VecWithLen[*K](_BTREE_CAPACITY),
+			values:         VecWithLen[*V](_BTREE_CAPACITY),
+			childs:         VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
+			n:              1,
 		}
 
 		self.root.keys.SetUnchecked(0, &key)
@@ -79,7 +80,7 @@ func (self *BTreeMap[K, V]) Insert(key K, value V) Option[V] {
 			// Allocate memory for new root
 			newRoot := &BTreeNode[K, V]{
 				_Type:          _INTERNAL,
-				_MinimumDegree: _BTREE_CAPACITY,
+				_MinimumDegree: _B,
 				keys:           VecWithLen[*K](_BTREE_CAPACITY),
 				values:         VecWithLen[*V](_BTREE_CAPACITY),
 				childs:         VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
@@ -414,7 +415,7 @@ func (self *BTreeNode[K, V]) _InsertNonFull(key K, value V) {
 		}
 
 		// See if the found child is full
-		if self.childs.GetUnchecked(USize(i+1)).keys.Len() == _BTREE_CAPACITY {
+		if self.childs.GetUnchecked(USize(i+1)).n == _BTREE_CAPACITY {
 			// If the child is full, then split it
 			self.splitChild(i+1, self.childs.GetUnchecked(USize(i+1)))
 
@@ -443,7 +444,7 @@ func (self *BTreeNode[K, V]) splitChild(i int, y *BTreeNode[K, V]) {
 	z.n = self._MinimumDegree - 1
 
 	// Copy the last (t-1) keys of y to z
-	for j := 0; j < z._MinimumDegree; j++ {
+	for j := 0; j < z.n; j++ {
 		z.keys.SetUnchecked(USize(j), y.keys.GetUnchecked(USize(j+self._MinimumDegree)))
 		z.values.SetUnchecked(USize(j), y.values.GetUnchecked(USize(j+self._MinimumDegree)))
 	}
@@ -469,7 +470,7 @@ func (self *BTreeNode[K, V]) splitChild(i int, y *BTreeNode[K, V]) {
 
 	// A key of y will move to this node. Find location of
 	// new key and move all greater keys one space ahead
-	for j := self.n; j >= i; j-- {
+	for j := self.n - 1; j >= i; j-- {
 		self.keys.SetUnchecked(USize(j+1), self.keys.GetUnchecked(USize(j)))
 		self.values.SetUnchecked(USize(j+1), self.values.GetUnchecked(USize(j)))
 	}
-- 
2.43.0


From 5ec5dad3ab4142bd5153f4fcaf6c50acae8c098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:09 +0000
Subject: [PATCH 18/53] fix: BTreeMap lookups must not see removed or moved
 keys

---
 btree_map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 245c4ea..b369d22 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -316,12 +316,12 @@ func (self BTreeNode[K, V]) _ToValueVec() Vec[V] {
 func (self BTreeNode[K, V]) _Search(key K) (Option[*BTreeNode[K, V]], uint) {
 	// Find the first key greater than or equal to k
 	i := USize(0)
-	for i < self.keys.Len() && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingGreater {
+	for i < USize(self.n) && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingGreater {
 		i++
 	}
 
 	// If the found key is equal to k, return this node
-	if i < self.keys.Len() && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingEqual {
+	if i < USize(self.n) && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingEqual {
 		return Some[*BTreeNode[K, V]](&self), uint(i)
 	}
 
-- 
2.43.0


From d01c9dc35fd506906ba3490935ddd6b06892c717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:13 +0000
Subject: [PATCH 19/53] fix: BTreeMap iteration must visit the last child and
 skip removed entries

---
 btree_map.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index b369d22..2a2d5ac 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -236,7 +236,7 @@ func (self BTreeNode[K, V]) _ToVec() Vec[Pair[K, V]] {
 	// and first n children
 
 	i := USize(0)
-	for i < self.keys.Len() {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -252,6 +252,11 @@ func (self BTreeNode[K, V]) _ToVec() Vec[Pair[K, V]] {
 		i++
 	}
 
+	if self._Type != _LEAF {
+		childsVec := self.childs.GetUnchecked(i)._ToVec()
+		vec.Append(&childsVec)
+	}
+
 	return vec
 }
 
@@ -263,7 +268,7 @@ func (self BTreeNode[K, V]) _ToKeyVec() Vec[K] {
 	// and first n children
 
 	i := USize(0)
-	for i < self.keys.Len() && i < USize(self.n) {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -281,6 +286,11 @@ func (self BTreeNode[K, V]) _ToKeyVec() Vec[K] {
 		i++
 	}
 
+	if self._Type != _LEAF {
+		childsVec := self.childs.GetUnchecked(i)._ToKeyVec()
+		vec.Append(&childsVec)
+	}
+
 	return vec
 }
 
@@ -292,7 +302,7 @@ func (self BTreeNode[K, V]) _ToValueVec() Vec[V] {
 	// and first n children
 
 	i := USize(0)
-	for i < self.keys.Len() {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -309,6 +319,11 @@ func (self BTreeNode[K, V]) _ToValueVec() Vec[V] {
 		i++
 	}
 
+	if self._Type != _LEAF {
+		childsVec := self.childs.GetUnchecked(i)._ToValueVec()
+		vec.Append(&childsVec)
+	}
+
 	return vec
 }
 
-- 
2.43.0


From 6fb17ffbc9382bec62e89783b084ecfa6602299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 20/53] fix: BTreeMap.Remove must return the removed value

---
 btree_map.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/btree_map.go b/btree_map.go
index 2a2d5ac..d3c73f4 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -187,6 +187,11 @@ func (self *BTreeMap[K, V]) Remove(key K) Option[V] {
 
 	result, index := self.root._Search(key)
 
+	var value *V
+	if result.IsSome() {
+		value = result.Unwrap().values.data[index]
+	}
+
 	// Call the remove function for root
 	self.root._Remove(key)
 
@@ -204,7 +209,7 @@ func (self *BTreeMap[K, V]) Remove(key K) Option[V] {
 		return None[V]()
 	} else {
 		self.len--
-		return Some(*result.Unwrap().values.data[index])
+		return Some(*value)
 	}
 }
 
-- 
2.43.0


From 846d3f2273da0c4c5b6228003b7bc2a2170d66b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 21/53] fix: Shl and Shr must shift by the given amount

---
 bitwise.go | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/bitwise.go b/bitwise.go
index dbcfb51..146f881 100644
--- a/bitwise.go
+++ b/bitwise.go
@@ -9,23 +9,23 @@ type Shr[T any] interface {
 }
 
 func (lhs ISize) Shl(rhs ISize) ISize {
-	return ISize(lhs << lhs)
+	return ISize(lhs << rhs)
 }
 
 func (lhs I8) Shl(rhs I8) I8 {
-	return I8(lhs << lhs)
+	return I8(lhs << rhs)
 }
 
 func (lhs I16) Shl(rhs I16) I16 {
-	return I16(lhs << lhs)
+	return I16(lhs << rhs)
 }
 
 func (lhs I32) Shl(rhs I32) I32 {
-	return I32(lhs << lhs)
+	return I32(lhs << rhs)
 }
 
 func (lhs I64) Shl(rhs I64) I64 {
-	return I64(lhs << lhs)
+	return I64(lhs << rhs)
 }
 
 func (lhs I128) Shl(rhs I128) I128 {
@@ -50,23 +50,23 @@ func (lhs I128) Shl(rhs I128) I128 {
 }
 
 func (lhs USize) Shl(rhs USize) USize {
-	return USize(lhs << lhs)
+	return USize(lhs << rhs)
 }
 
 func (lhs U8) Shl(rhs U8) U8 {
-	return U8(lhs << lhs)
+	return U8(lhs << rhs)
 }
 
 func (lhs U16) Shl(rhs U16) U16 {
-	return U16(lhs << lhs)
+	return U16(lhs << rhs)
 }
 
 func (lhs U32) Shl(rhs U32) U32 {
-	return U32(lhs << lhs)
+	return U32(lhs << rhs)
 }
 
 func (lhs U64) Shl(rhs U64) U64 {
-	return U64(lhs << lhs)
+	return U64(lhs << rhs)
 }
 
 func (lhs U128) Shl(rhs U128) U128 {
@@ -91,23 +91,23 @@ func (lhs U128) Shl(rhs U128) U128 {
 }
 
 func (lhs ISize) Shr(rhs ISize) ISize {
-	return ISize(lhs >> lhs)
+	return ISize(lhs >> rhs)
 }
 
 func (lhs I8) Shr(rhs I8) I8 {
-	return I8(lhs >> lhs)
+	return I8(lhs >> rhs)
 }
 
 func (lhs I16) Shr(rhs I16) I16 {
-	return I16(lhs >> lhs)
+	return I16(lhs >> rhs)
 }
 
 func (lhs I32) Shr(rhs I32) I32 {
-	return I32(lhs >> lhs)
+	return I32(lhs >> rhs)
 }
 
 func (lhs I64) Shr(rhs I64) I64 {
-	return I64(lhs >> lhs)
+	return I64(lhs >> rhs)
 }
 
 func (lhs I128) Shr(rhs I128) I128 {
@@ -132,23 +132,23 @@ func (lhs I128) Shr(rhs I128) I128 {
 }
 
 func (lhs USize) Shr(rhs USize) USize {
-	return USize(lhs >> lhs)
+	return USize(lhs >> rhs)
 }
 
 func (lhs U8) Shr(rhs U8) U8 {
-	return U8(lhs >> lhs)
+	return U8(lhs >> rhs)
 }
 
 func (lhs U16) Shr(rhs U16) U16 {
-	return U16(lhs >> lhs)
+	return U16(lhs >> rhs)
 }
 
 func (lhs U32) Shr(rhs U32) U32 {
-	return U32(lhs >> lhs)
+	return U32(lhs >> rhs)
 }
 
 func (lhs U64) Shr(rhs U64) U64 {
-	return U64(lhs >> lhs)
+	return U64(lhs >> rhs)
 }
 
 func (lhs U128) Shr(rhs U128) U128 {
-- 
2.43.0


From 5371321ea18e92981e87d633ef5cec9f4dd2262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:03 +0000
Subject: [PATCH 22/53] fix: 128-bit Shl and Shr must work for every shift
 amount

---
 bitwise.go | 58 +++++++++++++++---------------------------------------
 1 file changed, 16 insertions(+), 42 deletions(-)

diff --git a/bitwise.go b/bitwise.go
index 146f881..588a9fd 100644
--- a/bitwise.go
+++ b/bitwise.go
@@ -29,19 +29,10 @@ func (lhs I64) Shl(rhs I64) I64 {
 }
 
 func (lhs I128) Shl(rhs I128) I128 {
-	hasCarry := false
-
 	low := lhs.low << rhs.low
-	high := lhs.high << rhs.low
 
-	// check if there is a carry
-	if lhs.low>>63 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		high += 1
-	}
+	// the bits of the low word that move into the high word
+	high := lhs.high<<rhs.low | I64(lhs.low>>(64-rhs.low)) | I64(lhs.low<<(rhs.low-64))
 
 	return I128{
 		high: high,
@@ -70,19 +61,10 @@ func (lhs U64) Shl(rhs U64) U64 {
 }
 
 func (lhs U128) Shl(rhs U128) U128 {
-	hasCarry := false
-
 	low := lhs.low << rhs.low
-	high := lhs.high << rhs.low
 
-	// check if there is a carry
-	if lhs.low>>63 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		high += 1
-	}
+	// the bits of the low word that move into the high word
+	high := lhs.high<<rhs.low | lhs.low>>(64-rhs.low) | lhs.low<<(rhs.low-64)
 
 	return U128{
 		high: high,
@@ -111,18 +93,14 @@ func (lhs I64) Shr(rhs I64) I64 {
 }
 
 func (lhs I128) Shr(rhs I128) I128 {
-	hasCarry := false
-
-	low := lhs.low >> rhs.low
 	high := lhs.high >> rhs.low
+	low := lhs.low >> rhs.low
 
-	// check if there is a carry
-	if lhs.high&1 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		low |= U64(uint64(1) << 63)
+	// the bits of the high word that move into the low word
+	if rhs.low < 64 {
+		low |= U64(lhs.high) << (64 - rhs.low)
+	} else {
+		low = U64(lhs.high >> (rhs.low - 64))
 	}
 
 	return I128{
@@ -152,18 +130,14 @@ func (lhs U64) Shr(rhs U64) U64 {
 }
 
 func (lhs U128) Shr(rhs U128) U128 {
-	hasCarry := false
-
-	low := lhs.low >> rhs.low
 	high := lhs.high >> rhs.low
+	low := lhs.low >> rhs.low
 
-	// check if there is a carry
-	if lhs.high&1 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		low |= U64(uint64(1) << 63)
+	// the bits of the high word that move into the low word
+	if rhs.low < 64 {
+		low |= U64(lhs.high) << (64 - rhs.low)
+	} else {
+		low = U64(lhs.high >> (rhs.low - 64))
 	}
 
 	return U128{
-- 
2.43.0


From 1e19aac686a0f21081f8b48ea53239c6de1db543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:07 +0000
Subject: [PATCH 23/53] fix: I128.Neg must carry into the high word exactly
 when the low word is zero

---
 ops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops.go b/ops.go
index 187ff22..2a2876a 100644
--- a/ops.go
+++ b/ops.go
@@ -3052,7 +3052,7 @@ func (self I128) Neg() I128 {
 	high := self.high
 	low := self.low
 
-	hasCarry := low == U64_MAX
+	hasCarry := low == 0
 
 	high = ^high
 	low = ^low
-- 
2.43.0


From 59dfbd1fbd678b82f44f9a2a79c3f22b1df92d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:11 +0000
Subject: [PATCH 24/53] fix: I128.Div and I128.Rem must handle I128 minimum

---
 ops.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ops.go b/ops.go
index 2a2876a..e258045 100644
--- a/ops.go
+++ b/ops.go
@@ -405,7 +405,7 @@ func (lhs I128) Div(rhs I128) I128 {
 		rhs = rhs.Neg()
 	}
 
-	if lhs.Cmp(rhs) == OrderingLess {
+	if (U128{U64(lhs.high), lhs.low}).Cmp(U128{U64(rhs.high), rhs.low}) == OrderingLess {
 		return I128{
 			high: 0,
 			low:  0,
@@ -419,6 +419,9 @@ func (lhs I128) Div(rhs I128) I128 {
 	bigLhs.SetString(string(lhs.ToString()), 10)
 	bigRhs.SetString(string(rhs.ToString()), 10)
 
+	bigLhs.Abs(bigLhs)
+	bigRhs.Abs(bigRhs)
+
 	bigLhs.Div(bigLhs, bigRhs)
 
 	result := I128{
@@ -554,7 +557,7 @@ func (lhs I128) Rem(rhs I128) I128 {
 		rhs = rhs.Neg()
 	}
 
-	if lhs.Cmp(rhs) == OrderingLess {
+	if (U128{U64(lhs.high), lhs.low}).Cmp(U128{U64(rhs.high), rhs.low}) == OrderingLess {
 		if isNegative {
 			return lhs.Neg()
 		} else {
@@ -569,6 +572,9 @@ func (lhs I128) Rem(rhs I128) I128 {
 	bigLhs.SetString(string(lhs.ToString()), 10)
 	bigRhs.SetString(string(rhs.ToString()), 10)
 
+	bigLhs.Abs(bigLhs)
+	bigRhs.Abs(bigRhs)
+
 	bigLhs.Rem(bigLhs, bigRhs)
 
 	result := I128{
-- 
2.43.0


From f26804b5b2998302d20eb3ed30f2c48897b4fc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:16 +0000
Subject: [PATCH 25/53] fix: I128.IsPositive must look at the low word

---
 ops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops.go b/ops.go
index e258045..fed8405 100644
--- a/ops.go
+++ b/ops.go
@@ -2861,7 +2861,7 @@ func (self I64) IsPositive() Bool {
 
 // Returns true if self is positive and false if the number is zero or negative.
 func (self I128) IsPositive() Bool {
-	return self.high > 0
+	return self.high > 0 || (self.high == 0 && self.low > 0)
 }
 
 // Returns true if self is negative and false if the number is zero or positive.
-- 
2.43.0


From 3d19a73a1d7bf6785e5b02aa3c3c76a8e332a622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 26/53] fix: ISize.WrappingMul must wrap only

---
 ops.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/ops.go b/ops.go
index fed8405..4c80b3b 100644
--- a/ops.go
+++ b/ops.go
@@ -1553,10 +1553,6 @@ func (self U64) WrappingSub(rhs U64) U64 {
 func (self ISize) WrappingMul(rhs ISize) ISize {
 	result := self * rhs
 
-	if result < self || result < rhs {
-		// Overflow occurred, wrap around
-		result = result - ISize(math.MaxInt) - 1
-	}
 	return result
 }
 
-- 
2.43.0


From bcd456af83b6cfc653d8648ed1c6c27470e0ddfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:24 +0000
Subject: [PATCH 27/53] fix: signed CheckedSub and SaturatingSub must detect
 exactly the overflows

---
 ops.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/ops.go b/ops.go
index 4c80b3b..51944c0 100644
--- a/ops.go
+++ b/ops.go
@@ -1063,40 +1063,40 @@ func (self ISize) _HasOverflow_Sub(rhs ISize) bool {
 }
 
 func (self I8) _HasOverflow_Sub(rhs I8) bool {
-	if self > 0 && rhs < math.MinInt8+self {
+	if rhs < 0 && self > math.MaxInt8+rhs {
 		return true
 	}
-	if self < 0 && rhs > math.MaxInt8+self {
+	if rhs > 0 && self < math.MinInt8+rhs {
 		return true
 	}
 	return false
 }
 
 func (self I16) _HasOverflow_Sub(rhs I16) bool {
-	if self > 0 && rhs < math.MinInt16+self {
+	if rhs < 0 && self > math.MaxInt16+rhs {
 		return true
 	}
-	if self < 0 && rhs > math.MaxInt16+self {
+	if rhs > 0 && self < math.MinInt16+rhs {
 		return true
 	}
 	return false
 }
 
 func (self I32) _HasOverflow_Sub(rhs I32) bool {
-	if self > 0 && rhs < math.MinInt32+self {
+	if rhs < 0 && self > math.MaxInt32+rhs {
 		return true
 	}
-	if self < 0 && rhs > math.MaxInt32+self {
+	if rhs > 0 && self < math.MinInt32+rhs {
 		return true
 	}
 	return false
 }
 
 func (self I64) _HasOverflow_Sub(rhs I64) bool {
-	if self > 0 && rhs < math.MinInt64+self {
+	if rhs < 0 && self > math.MaxInt64+rhs {
 		return true
 	}
-	if self < 0 && rhs > math.MaxInt64+self {
+	if rhs > 0 && self < math.MinInt64+rhs {
 		return true
 	}
 	return false
@@ -1138,10 +1138,10 @@ func (self U64) _HasUnderflow_Sub(rhs U64) bool {
 }
 
 func (self ISize) _HasUnderflow_Sub(rhs ISize) bool {
-	if rhs > 0 && self < math.MinInt32+rhs {
+	if rhs > 0 && self < math.MinInt+rhs {
 		return true
 	}
-	if rhs < 0 && self > math.MaxInt32+rhs {
+	if rhs < 0 && self > math.MaxInt+rhs {
 		return true
 	}
 	return false
@@ -1786,7 +1786,7 @@ func (self ISize) CheckedSub(rhs ISize) Option[ISize] {
 func (self I8) CheckedSub(rhs I8) Option[I8] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasOverflow_Sub(rhs) || self._HasUnderflow_Sub(rhs) {
 		return None[I8]()
 	}
 	return Some[I8](result)
@@ -1795,7 +1795,7 @@ func (self I8) CheckedSub(rhs I8) Option[I8] {
 func (self I16) CheckedSub(rhs I16) Option[I16] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasOverflow_Sub(rhs) || self._HasUnderflow_Sub(rhs) {
 		// Overflow occurred
 		return None[I16]()
 	}
@@ -1805,7 +1805,7 @@ func (self I16) CheckedSub(rhs I16) Option[I16] {
 func (self I32) CheckedSub(rhs I32) Option[I32] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasOverflow_Sub(rhs) || self._HasUnderflow_Sub(rhs) {
 		// Overflow occurred
 		return None[I32]()
 	}
@@ -1815,7 +1815,7 @@ func (self I32) CheckedSub(rhs I32) Option[I32] {
 func (self I64) CheckedSub(rhs I64) Option[I64] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasOverflow_Sub(rhs) || self._HasUnderflow_Sub(rhs) {
 		// Overflow occurred
 		return None[I64]()
 	}
-- 
2.43.0


From bc96ae79476cbce72e69e6d99fde8e51b58ac917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:28 +0000
Subject: [PATCH 28/53] fix: CheckedMul and SaturatingMul must detect exactly
 the overflows

---
 ops.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/ops.go b/ops.go
index 51944c0..f7ada35 100644
--- a/ops.go
+++ b/ops.go
@@ -1194,13 +1194,13 @@ func (self ISize) _HasOverflow_Mul(rhs ISize) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt/self {
+			if rhs < math.MinInt/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt/rhs {
+			if self < math.MinInt/rhs {
 				return true
 			}
 		} else {
@@ -1219,13 +1219,13 @@ func (self I8) _HasOverflow_Mul(rhs I8) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt8/self {
+			if rhs < math.MinInt8/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt8/rhs {
+			if self < math.MinInt8/rhs {
 				return true
 			}
 		} else {
@@ -1244,13 +1244,13 @@ func (self I16) _HasOverflow_Mul(rhs I16) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt16/self {
+			if rhs < math.MinInt16/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt16/rhs {
+			if self < math.MinInt16/rhs {
 				return true
 			}
 		} else {
@@ -1269,13 +1269,13 @@ func (self I32) _HasOverflow_Mul(rhs I32) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt32/self {
+			if rhs < math.MinInt32/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt32/rhs {
+			if self < math.MinInt32/rhs {
 				return true
 			}
 		} else {
@@ -1294,13 +1294,13 @@ func (self I64) _HasOverflow_Mul(rhs I64) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt64/self {
+			if rhs < math.MinInt64/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt64/rhs {
+			if self < math.MinInt64/rhs {
 				return true
 			}
 		} else {
@@ -1313,7 +1313,7 @@ func (self I64) _HasOverflow_Mul(rhs I64) bool {
 }
 
 func (self USize) _HasOverflow_Mul(rhs USize) bool {
-	if self != 0 && rhs > math.MaxUint32/self {
+	if self != 0 && rhs > math.MaxUint/self {
 		return true
 	}
 	return false
-- 
2.43.0


From 8742d5e536f140824965dcfd121e54d6a8e8e427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:32 +0000
Subject: [PATCH 29/53] fix: signed SaturatingMul must saturate towards the
 sign of the product

---
 ops.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ops.go b/ops.go
index f7ada35..1f47ccf 100644
--- a/ops.go
+++ b/ops.go
@@ -2449,7 +2449,7 @@ func (self U64) SaturatingSub(rhs U64) U64 {
 func (self ISize) SaturatingMul(rhs ISize) ISize {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return ISize(math.MinInt)
 		}
 		return ISize(math.MaxInt)
@@ -2460,7 +2460,7 @@ func (self ISize) SaturatingMul(rhs ISize) ISize {
 func (self I8) SaturatingMul(rhs I8) I8 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I8(math.MinInt8)
 		}
 		return I8(math.MaxInt8)
@@ -2471,7 +2471,7 @@ func (self I8) SaturatingMul(rhs I8) I8 {
 func (self I16) SaturatingMul(rhs I16) I16 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I16(math.MinInt16)
 		}
 		return I16(math.MaxInt16)
@@ -2482,7 +2482,7 @@ func (self I16) SaturatingMul(rhs I16) I16 {
 func (self I32) SaturatingMul(rhs I32) I32 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I32(math.MinInt32)
 		}
 		return I32(math.MaxInt32)
@@ -2493,7 +2493,7 @@ func (self I32) SaturatingMul(rhs I32) I32 {
 func (self I64) SaturatingMul(rhs I64) I64 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I64(math.MinInt64)
 		}
 		return I64(math.MaxInt64)
-- 
2.43.0


From 40f6404934665478406890311ec9309f675aa942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:36 +0000
Subject: [PATCH 30/53] fix: signed CheckedRem must return None only on zero
 divisor or overflow

---
 ops.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ops.go b/ops.go
index 1f47ccf..f76e0e0 100644
--- a/ops.go
+++ b/ops.go
@@ -2087,7 +2087,7 @@ func (self ISize) CheckedRem(rhs ISize) Option[ISize] {
 
 	result := self % rhs
 
-	if result > self || result > rhs {
+	if self._HasOverflow_Div(rhs) {
 		// Overflow occurred
 		return None[ISize]()
 	}
@@ -2101,7 +2101,7 @@ func (self I8) CheckedRem(rhs I8) Option[I8] {
 
 	result := self % rhs
 
-	if result > self || result > rhs {
+	if self._HasOverflow_Div(rhs) {
 		// Overflow occurred
 		return None[I8]()
 	}
@@ -2115,7 +2115,7 @@ func (self I16) CheckedRem(rhs I16) Option[I16] {
 
 	result := self % rhs
 
-	if result > self || result > rhs {
+	if self._HasOverflow_Div(rhs) {
 		// Overflow occurred
 		return None[I16]()
 	}
@@ -2129,7 +2129,7 @@ func (self I32) CheckedRem(rhs I32) Option[I32] {
 
 	result := self % rhs
 
-	if result > self || result > rhs {
+	if self._HasOverflow_Div(rhs) {
 		// Overflow occurred
 		return None[I32]()
 	}
@@ -2143,7 +2143,7 @@ func (self I64) CheckedRem(rhs I64) Option[I64] {
 
 	result := self % rhs
 
-	if result > self || result > rhs {
+	if self._HasOverflow_Div(rhs) {
 		// Overflow occurred
 		return None[I64]()
 	}
-- 
2.43.0


From 8e40055e4a3be7d5f276fd4df54e86c4697f6b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 31/53] fix: USize.ToString must not print large values as
 negative

---
 to_string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/to_string.go b/to_string.go
index 2e3192b..308249b 100644
--- a/to_string.go
+++ b/to_string.go
@@ -71,7 +71,7 @@ func (self I128) ToString() String {
 }
 
 func (self USize) ToString() String {
-	return String(strconv.Itoa(int(self)))
+	return String(strconv.FormatUint(uint64(self), 10))
 }
 
 func (self U8) ToString() String {
-- 
2.43.0


From df7bb5cde97e856f1f1fbe7d23eb3e8cad93421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 32/53] fix: StringFromUTF16 must decode every unit

---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index f09d530..14d0d36 100644
--- a/string.go
+++ b/string.go
@@ -16,7 +16,7 @@ func StringFromUTF16(bytes Vec[U16]) Result[String] {
 	data := bytes.data
 	convertedData := []uint16{}
 
-	for i := 0; i < len(data); i += 2 {
+	for i := 0; i < len(data); i++ {
 		convertedData = append(convertedData, uint16(data[i]))
 	}
 
-- 
2.43.0


From 02bbafb6eaf37dcdb0ccef2778bebfccd9267189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:48 +0000
Subject: [PATCH 33/53] fix: StringFromUTF16 must return Err for unpaired
 surrogates

---
 string.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/string.go b/string.go
index 14d0d36..676ef6a 100644
--- a/string.go
+++ b/string.go
@@ -1,6 +1,7 @@
 package gost
 
 import (
+	"errors"
 	"strconv"
 	"strings"
 	"unicode/utf16"
@@ -22,6 +23,13 @@ func StringFromUTF16(bytes Vec[U16]) Result[String] {
 
 	decoded := utf16.Decode(convertedData)
 
+	// decoding replaces each unpaired surrogate, so that it does not encode to the same units any more
+	for i, unit := range utf16.Encode(decoded) {
+		if unit != convertedData[i] {
+			return Err[String](errors.New("invalid utf-16: unpaired surrogate found"))
+		}
+	}
+
 	return Ok[String](String(decoded))
 }
 
-- 
2.43.0


From 50f75d52e76bc0dfe91c902942645a1ee74b838a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:53 +0000
Subject: [PATCH 34/53] fix: String.ParseU64 must accept exactly the U64 range

---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 676ef6a..6b3d042 100644
--- a/string.go
+++ b/string.go
@@ -138,7 +138,7 @@ func (self String) ParseI64() Result[I64] {
 
 // Parses this string slice into another type. (U64)
 func (self String) ParseU64() Result[U64] {
-	parsed, err := strconv.Atoi(string(self))
+	parsed, err := strconv.ParseUint(strings.TrimPrefix(string(self), "+"), 10, 64)
 
 	if err != nil {
 		return Err[U64](err)
-- 
2.43.0


From 6c3001117dcb04c4d7ef24a3eaa16df52112e569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:24 +0000
Subject: [PATCH 35/53] fix: Option.And and Option.AndThen on None must return
 None

---
 option.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/option.go b/option.go
index bc26efd..ea7c79a 100644
--- a/option.go
+++ b/option.go
@@ -173,7 +173,7 @@ func (self Option[T]) MapOrElse(defaultValue func() T, f func(T) T) T {
 //	gost.AssertEq(x.and(y), Some(gost.I32(3)));
 func (self Option[T]) And(optb Option[any]) Option[any] {
 	if self.IsNone() {
-		return Some[any](nil)
+		return None[any]()
 	} else {
 		return optb
 	}
@@ -189,7 +189,7 @@ func (self Option[T]) And(optb Option[any]) Option[any] {
 //	gost.AssertEq(x.and_then(func(value gost.I32) Option[gost.I32] { return Some[gost.I32](value + 1) }), None[gost.I32]())
 func (self Option[T]) AndThen(f func(T) Option[any]) Option[any] {
 	if self.IsNone() {
-		return Some[any](nil)
+		return None[any]()
 	} else {
 		return f(*self.value)
 	}
-- 
2.43.0


From 19337665b905c49bc67fe3bd89d576c28b3e3959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 36/53] fix: Option.Replace on None must store the value

---
 option.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/option.go b/option.go
index ea7c79a..8ae4a1e 100644
--- a/option.go
+++ b/option.go
@@ -332,13 +332,9 @@ func (self *Option[T]) Take() Option[T] {
 //	x := None[gost.I32]()
 //	gost.AssertEq(x.Replace(gost.I32(3)), None[gost.I32]())
 func (self *Option[T]) Replace(value T) Option[T] {
-	if self.IsNone() {
-		return *self
-	} else {
-		oldValue := *self.value
-		self.value = &value
-		return Some[T](oldValue)
-	}
+	oldValue := *self
+	self.value = &value
+	return oldValue
 }
 
 // impl Display for Option
-- 
2.43.0


From 246649dea0ef89a4ab5197d9f29c333c8c26cd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 37/53] fix: ElseIf must not run after an earlier branch
 matched

---
 syntax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syntax.go b/syntax.go
index 647de15..c97c2bb 100644
--- a/syntax.go
+++ b/syntax.go
@@ -40,7 +40,7 @@ func (self ifElseContext[T]) Else(expression func() T) T {
 }
 
 func (self ifElseContext[T]) ElseIf(condition Bool, expression func() T) ifElseContext[T] {
-	if condition {
+	if condition && self.returnValue == nil {
 		value := expression()
 		self.returnValue = &value
 	}
-- 
2.43.0


From b9dffe7bbfd7fc81f429b88cd5062c642bb13f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 38/53] fix: Pair must implement Display and ToString

---
 pair.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pair.go b/pair.go
index 93a94d0..2f50e26 100644
--- a/pair.go
+++ b/pair.go
@@ -9,7 +9,7 @@ type Pair[K any, V any] struct {
 }
 
 // impl Display for Pair
-func (p Pair[K, V]) ToString() string {
+func (p Pair[K, V]) ToString() String {
 	keyToString := castToToString[K](p.Key)
 	valueToString := castToToString[V](p.Value)
 
@@ -28,17 +28,17 @@ func (p Pair[K, V]) ToString() string {
 		value = String(fmt.Sprintf("%v", p.Value))
 	}
 
-	return fmt.Sprintf("Pair[%s, %s]", key, value)
+	return String(fmt.Sprintf("Pair[%s, %s]", key, value))
 }
 
 // impl Display for Pair
-func (p Pair[K, V]) Display() string {
+func (p Pair[K, V]) Display() String {
 	return p.ToString()
 }
 
 // impl Debug for Pair
 func (p Pair[K, V]) Debug() string {
-	return p.ToString()
+	return string(p.ToString())
 }
 
 // impl Clone for Pair
-- 
2.43.0


From b1fbd61a15c9b8f8ba07a172ff6a1bba59be233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:27 +0000
Subject: [PATCH 39/53] fix: Pair must show its collection elements by their
 Display

---
 pair.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pair.go b/pair.go
index 2f50e26..5dad219 100644
--- a/pair.go
+++ b/pair.go
@@ -18,12 +18,16 @@ func (p Pair[K, V]) ToString() String {
 
 	if keyToString.IsSome() {
 		key = keyToString.Unwrap().ToString()
+	} else if keyDisplay := castToDisplay[K](p.Key); keyDisplay.IsSome() {
+		key = keyDisplay.Unwrap().Display()
 	} else {
 		key = String(fmt.Sprintf("%v", p.Key))
 	}
 
 	if valueToString.IsSome() {
 		value = valueToString.Unwrap().ToString()
+	} else if valueDisplay := castToDisplay[V](p.Value); valueDisplay.IsSome() {
+		value = valueDisplay.Unwrap().Display()
 	} else {
 		value = String(fmt.Sprintf("%v", p.Value))
 	}
-- 
2.43.0


From 820ceb518f7d21b37e982672cf85c40a16659843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:31 +0000
Subject: [PATCH 40/53] fix: assertion messages are formatted with the
 arguments after the message

---
 panic.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/panic.go b/panic.go
index c02c29a..62b5b25 100644
--- a/panic.go
+++ b/panic.go
@@ -14,7 +14,11 @@ func Assert(condition Bool, args ...any) {
 	if !condition {
 		if len(args) > 0 {
 			if message, ok := args[0].(String); ok {
-				panic(Format(message, args...))
+				panic(Format(message, args[1:]...))
+			}
+
+			if message, ok := args[0].(string); ok {
+				panic(Format(String(message), args[1:]...))
 			}
 		}
 
@@ -31,11 +35,11 @@ func AssertEq[T Eq[T]](lhs T, rhs T, args ...any) {
 
 		if len(args) > 0 {
 			if message, ok := args[0].(String); ok {
-				panicMessage += "\n>>> " + Format(message, args...)
+				panicMessage += "\n>>> " + Format(message, args[1:]...)
 			}
 
 			if message, ok := args[0].(string); ok {
-				panicMessage += "\n>>> " + Format(String(message), args...)
+				panicMessage += "\n>>> " + Format(String(message), args[1:]...)
 			}
 		}
 
@@ -52,11 +56,11 @@ func AssertNe[T Eq[T]](lhs T, rhs T, args ...any) {
 
 		if len(args) > 0 {
 			if message, ok := args[0].(String); ok {
-				panicMessage += "\n>>> " + Format(message, args...)
+				panicMessage += "\n>>> " + Format(message, args[1:]...)
 			}
 
 			if message, ok := args[0].(string); ok {
-				panicMessage += "\n>>> " + Format(String(message), args...)
+				panicMessage += "\n>>> " + Format(String(message), args[1:]...)
 			}
 		}
 
-- 
2.43.0


From 61846038b16d7b3d23ce9344674bc9f4f6845997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:34 +0000
Subject: [PATCH 41/53] fix: JoinHandle must report completion to every Join
 and IsFinished

---
 thread.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thread.go b/thread.go
index a27241a..08c89d7 100644
--- a/thread.go
+++ b/thread.go
@@ -48,7 +48,7 @@ func Spawn(f func()) JoinHandle {
 
 	go func() {
 		f()
-		channel <- Unit{}
+		close(channel)
 	}()
 
 	return JoinHandle{
-- 
2.43.0


From f6353908babaeeddeb99701faa591f5e2732506b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:35 +0000
Subject: [PATCH 42/53] fix: gokio futures must keep their result for every
 Await and never leak

---
 gokio/gokio.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gokio/gokio.go b/gokio/gokio.go
index 92acbf3..4d9029a 100644
--- a/gokio/gokio.go
+++ b/gokio/gokio.go
@@ -3,21 +3,21 @@ package gokio
 import "github.com/myyrakle/gost"
 
 type gokioFuture[T any] struct {
-	ch chan T
+	value T
+	done  chan struct{}
 }
 
 func (self *gokioFuture[T]) Await() T {
-	return <-self.ch
+	<-self.done
+	return self.value
 }
 
 func Spawn[T any](f func() T) gost.Future[T] {
-	ch := make(chan T)
-
-	future := gokioFuture[T]{ch: ch}
+	future := gokioFuture[T]{done: make(chan struct{})}
 
 	go func() {
-		defer close(ch)
-		ch <- f()
+		defer close(future.done)
+		future.value = f()
 	}()
 
 	return &future
-- 
2.43.0


From 346f8624defefb01fca1b202211e9117dccb3ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:39 +0000
Subject: [PATCH 43/53] fix: ReadDir must not list empty entries

---
 fs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fs.go b/fs.go
index 6f224e2..517c81c 100644
--- a/fs.go
+++ b/fs.go
@@ -137,7 +137,7 @@ func ReadDir(path String) Result[Vec[DirEntry]] {
 	if err != nil {
 		return Err[Vec[DirEntry]](err)
 	} else {
-		vec := VecWithLen[DirEntry](USize(len(entries)))
+		vec := VecWithCapacity[DirEntry](USize(len(entries)))
 
 		for _, entry := range entries {
 			fileType := FileType{}
-- 
2.43.0


From cc54348d0b5b381d01cde1b1bab22157e236e2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 44/53] fix: ReadDir must report the kind of each entry

---
 fs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fs.go b/fs.go
index 517c81c..32c8b89 100644
--- a/fs.go
+++ b/fs.go
@@ -142,11 +142,11 @@ func ReadDir(path String) Result[Vec[DirEntry]] {
 		for _, entry := range entries {
 			fileType := FileType{}
 
-			if entry.Type().Perm().IsDir() {
+			if entry.Type().IsDir() {
 				fileType.typeInfo = "dir"
-			} else if entry.Type().Perm().IsRegular() {
+			} else if entry.Type().IsRegular() {
 				fileType.typeInfo = "file"
-			} else if entry.Type().Perm()&os.ModeSymlink != 0 {
+			} else if entry.Type()&os.ModeSymlink != 0 {
 				fileType.typeInfo = "symlink"
 			}
 
-- 
2.43.0


From aaccea9469b057d6a8dd171c6087fdb0a3c4fb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 45/53] fix: Read and ReadToString must return the whole
 contents

---
 fs.go | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/fs.go b/fs.go
index 32c8b89..c5583fa 100644
--- a/fs.go
+++ b/fs.go
@@ -1,6 +1,7 @@
 package gost
 
 import (
+	"io"
 	"os"
 	"path/filepath"
 )
@@ -85,15 +86,7 @@ func Read(path String) Result[[]Byte] {
 
 	defer file.Close()
 
-	stat, err := file.Stat()
-
-	if err != nil {
-		return Err[[]Byte](err)
-	}
-
-	data := make([]byte, stat.Size())
-
-	_, err = file.Read(data)
+	data, err := io.ReadAll(file)
 
 	if err != nil {
 		return Err[[]Byte](err)
@@ -185,15 +178,7 @@ func ReadToString(path String) Result[String] {
 
 	defer file.Close()
 
-	stat, err := file.Stat()
-
-	if err != nil {
-		return Err[String](err)
-	}
-
-	data := make([]byte, stat.Size())
-
-	_, err = file.Read(data)
+	data, err := io.ReadAll(file)
 
 	if err != nil {
 		return Err[String](err)
-- 
2.43.0


From 78d5be570206d0dc98ed5d74569ed79ea3f883cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:36 +0000
Subject: [PATCH 46/53] fix: Copy must copy the contents and permissions
 instead of hard-linking

---
 fs.go | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/fs.go b/fs.go
index c5583fa..4af8faf 100644
--- a/fs.go
+++ b/fs.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"syscall"
 )
 
 // Creates a new, empty directory at the provided path
@@ -159,7 +160,43 @@ func ReadDir(path String) Result[Vec[DirEntry]] {
 // Copies the contents of one file to another. This function will also copy the permission bits of the original file to the destination file.
 // This function will overwrite the contents of to.
 func Copy(from String, to String) Result[any] {
-	err := os.Link(string(from), string(to))
+	source, err := os.Open(string(from))
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	defer source.Close()
+
+	stat, err := source.Stat()
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	if !stat.Mode().IsRegular() {
+		return Err[any](&os.PathError{Op: "copy", Path: string(from), Err: syscall.EINVAL})
+	}
+
+	if existing, err := os.Stat(string(to)); err == nil && os.SameFile(stat, existing) {
+		return Ok[any](nil)
+	}
+
+	destination, err := os.OpenFile(string(to), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, stat.Mode().Perm())
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	_, err = io.Copy(destination, source)
+
+	if err == nil {
+		err = destination.Chmod(stat.Mode())
+	}
+
+	if closeErr := destination.Close(); err == nil {
+		err = closeErr
+	}
 
 	if err != nil {
 		return Err[any](err)
-- 
2.43.0


From 75db9aa13b2ee726b2571307f4024850aae15a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:39 +0000
Subject: [PATCH 47/53] fix: RemoveDir must not remove files

---
 fs.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fs.go b/fs.go
index 4af8faf..350a9d6 100644
--- a/fs.go
+++ b/fs.go
@@ -20,7 +20,17 @@ func CreateDir(path String) Result[any] {
 
 // Removes an empty directory.
 func RemoveDir(path String) Result[any] {
-	err := os.Remove(string(path))
+	stat, err := os.Lstat(string(path))
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	if !stat.IsDir() {
+		return Err[any](&os.PathError{Op: "rmdir", Path: string(path), Err: syscall.ENOTDIR})
+	}
+
+	err = os.Remove(string(path))
 
 	if err != nil {
 		return Err[any](err)
-- 
2.43.0


From d02b1cdc20dc4f795bed825d006d17aa23801579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:44 +0000
Subject: [PATCH 48/53] fix: RemoveFile must not remove directories

---
 fs.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fs.go b/fs.go
index 350a9d6..0bfdba8 100644
--- a/fs.go
+++ b/fs.go
@@ -66,7 +66,17 @@ func Write(path String, data []Byte) Result[any] {
 
 // Removes a file from the filesystem.
 func RemoveFile(path String) Result[any] {
-	err := os.Remove(string(path))
+	stat, err := os.Lstat(string(path))
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	if stat.IsDir() {
+		return Err[any](&os.PathError{Op: "unlink", Path: string(path), Err: syscall.EISDIR})
+	}
+
+	err = os.Remove(string(path))
 
 	if err != nil {
 		return Err[any](err)
-- 
2.43.0


From 7b84788f6c5bcc0428d398e34b786f97757f10f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:48 +0000
Subject: [PATCH 49/53] fix: Stdin.ReadLine must append the whole line to the
 buffer

---
 io.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/io.go b/io.go
index ff5ff73..e6c3353 100644
--- a/io.go
+++ b/io.go
@@ -1,7 +1,9 @@
 package gost
 
 import (
+	"bytes"
 	"fmt"
+	"os"
 	"sync"
 	"unicode/utf8"
 )
@@ -82,7 +84,23 @@ func (self *Stdin) ReadLine(buffer *String) {
 	self.lock.Lock()
 	defer self.lock.Unlock()
 
-	var line string
-	fmt.Scanln(&line)
-	*buffer = String(line)
+	line := []byte{}
+	char := make([]byte, 1)
+
+	for {
+		n, err := os.Stdin.Read(char)
+
+		if n == 1 {
+			if char[0] == '\n' {
+				line = bytes.TrimSuffix(line, []byte{'\r'})
+				break
+			}
+
+			line = append(line, char[0])
+		} else if err != nil {
+			break
+		}
+	}
+
+	*buffer += String(line)
 }
-- 
2.43.0


From bed041356cc6feb76e92937585da4323a4df73f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:17 +0000
Subject: [PATCH 50/53] fix: Vec.Dedup must compare elements by their Eq

---
 vec.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vec.go b/vec.go
index c34d967..90a199c 100644
--- a/vec.go
+++ b/vec.go
@@ -214,7 +214,15 @@ func (self *Vec[T]) Dedup() {
 	prev := 0
 
 	for i := 1; i < len(self.data); i++ {
-		if !reflect.DeepEqual(self.data[prev], self.data[i]) {
+		equal := false
+
+		if eq, ok := any(self.data[i]).(Eq[T]); ok {
+			equal = bool(eq.Eq(self.data[prev]))
+		} else {
+			equal = reflect.DeepEqual(self.data[prev], self.data[i])
+		}
+
+		if !equal {
 			prev++
 			self.data[prev] = self.data[i]
 		}
-- 
2.43.0


From bd3f4b45c4bd8efa0ba5bf643d29f8a0713d896a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:27 +0000
Subject: [PATCH 51/53] fix: F64 Ln, Log and Log10 of subnormal numbers

---
 float.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/float.go b/float.go
index d0a0d31..9cb5ab3 100644
--- a/float.go
+++ b/float.go
@@ -287,7 +287,16 @@ func (self F32) Ln() F32 {
 //  gost.AssertEq(f.Ln(), F64(1.0))
 //  gost.AssertEq(g.Ln(), F64(2.0))
 func (self F64) Ln() F64 {
-	return F64(math.Log(float64(self)))
+	return F64(ln(float64(self)))
+}
+
+// ln is math.Log. On some platforms math.Log is wrong for subnormal numbers, so those are scaled first.
+func ln(x float64) float64 {
+	if frac, exp := math.Frexp(x); exp < -1021 {
+		return math.Log(frac) + float64(exp)*math.Ln2
+	}
+
+	return math.Log(x)
 }
 
 // Returns the logarithm of the number with respect to an arbitrary base.
@@ -311,7 +320,7 @@ func (self F32) Log(base F32) F32 {
 //  gost.AssertEq(f.Log(2.0), F64(1.0))
 //  gost.AssertEq(g.Log(2.0), F64(2.0))
 func (self F64) Log(base F64) F64 {
-	return F64(math.Log(float64(self)) / math.Log(float64(base)))
+	return F64(ln(float64(self)) / ln(float64(base)))
 }
 
 // Returns the base 2 logarithm of the number.
@@ -355,5 +364,9 @@ func (self F32) Log10() F32 {
 //  gost.AssertEq(f.Log10(), F64(1.0))
 //  gost.AssertEq(g.Log10(), F64(2.0))
 func (self F64) Log10() F64 {
+	if frac, exp := math.Frexp(float64(self)); exp < -1021 {
+		return F64(math.Log10(frac) + float64(exp)*(math.Ln2/math.Ln10))
+	}
+
 	return F64(math.Log10(float64(self)))
 }
-- 
2.43.0


From 312e69417c1f0a0c22f8062ad06e622eff463fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:03 +0000
Subject: [PATCH 52/53] fix: F64.Exp must not overflow below the largest finite
 result

---
 float.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/float.go b/float.go
index 9cb5ab3..1a5dd05 100644
--- a/float.go
+++ b/float.go
@@ -243,6 +243,13 @@ func (self F32) Exp() F32 {
 //  gost.AssertEq(f.Exp(), F64(2.718281828459045))
 //  gost.AssertEq(g.Exp(), F64(7.38905609893065))
 func (self F64) Exp() F64 {
+	// On some platforms math.Exp overflows too early.
+	if self > 709 {
+		half := math.Exp(float64(self) / 2)
+
+		return F64(half * half)
+	}
+
 	return F64(math.Exp(float64(self)))
 }
 
-- 
2.43.0


From 1026984615e4687f9aa1e0fae218245214fe4da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:08 +0000
Subject: [PATCH 53/53] fix: F64.Powf of subnormal numbers

---
 float.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/float.go b/float.go
index 1a5dd05..95efa73 100644
--- a/float.go
+++ b/float.go
@@ -197,6 +197,11 @@ func (self F32) Powf(n F32) F32 {
 //  gost.AssertEq(f.Powf(2.0), F64(9.0))
 //  gost.AssertEq(g.Powf(3.0), F64(27.0))
 func (self F64) Powf(n F64) F64 {
+	// See ln. Powers with an integer exponent do not depend on math.Log.
+	if frac, exp := math.Frexp(float64(self)); exp < -1021 && n != n.Trunc() {
+		return F64(math.Pow(frac, float64(n)) * math.Exp2(float64(exp)*float64(n)))
+	}
+
 	return F64(math.Pow(float64(self), float64(n)))
 }
 
-- 
2.43.0

