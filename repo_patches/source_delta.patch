From 7e85d63de679d18805e63bae75a9f047d9aa8b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:24 +0000
Subject: [PATCH 01/33] fix: UUID.Equals compares the values, not the pointers

---
 uuid/uuid.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 1614be8..865e03a 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -75,10 +75,10 @@ func (u *UUID) Base58() []byte {
 }
 
 func (u *UUID) Equals(other *UUID) bool {
-	if other == nil {
+	if u == nil || other == nil {
 		return false
 	}
-	return u == other
+	return *u == *other
 }
 
 func (u *UUID) Variant() byte {
-- 
2.43.0


From 0b8c7925a84fddab52fd8632c01492e93346c195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:24 +0000
Subject: [PATCH 02/33] fix: UUID.Variant recognises every RFC 4122 variant
 octet

---
 uuid/uuid.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 865e03a..c00a9a0 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -82,10 +82,10 @@ func (u *UUID) Equals(other *UUID) bool {
 }
 
 func (u *UUID) Variant() byte {
-	switch u[8] & 0xe0 {
-	case 0x80:
+	switch {
+	case u[8]&0xc0 == 0x80:
 		return 1 // RFC 4122
-	case 0xc0:
+	case u[8]&0xe0 == 0xc0:
 		return 2 // Microsoft
 	default:
 		return 0 // NCS compatibility
-- 
2.43.0


From 8c3d0bbe169dcd21fb5007c53e72626ffa7e9fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:24 +0000
Subject: [PATCH 03/33] fix: MapL.Len reads the counter atomically

---
 hashmap/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashmap/map.go b/hashmap/map.go
index 1ba9b7a..ae85b48 100644
--- a/hashmap/map.go
+++ b/hashmap/map.go
@@ -71,7 +71,7 @@ func (t *MapL[K, V]) Range(f func(k K, v V) bool) {
 }
 
 func (t *MapL[K, V]) Len() int64 {
-	return t.len
+	return atomic.LoadInt64(&t.len)
 }
 
 // Map  Define a generic synchronized map structure using sync.Map as the underlying data structure.
-- 
2.43.0


From 20c12958b31bd2316966995b80a98cbf047975bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:39 +0000
Subject: [PATCH 04/33] fix: LinkedHashMap.LoadOrStore keeps the stored value
 and returns the stored one

---
 hashmap/linkedhashmap.go | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/hashmap/linkedhashmap.go b/hashmap/linkedhashmap.go
index 88f20ae..2fea2ec 100644
--- a/hashmap/linkedhashmap.go
+++ b/hashmap/linkedhashmap.go
@@ -54,27 +54,23 @@ func (t *LinkedHashMap[K, V]) Put(k K, v V) {
 }
 
 func (t *LinkedHashMap[K, V]) LoadOrStore(k K, v V) (actual V, loaded bool) {
-	kv := &entrykv[K, V]{k, v}
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	elem := t.list.PushFront(kv)
-	if preelem, ok := t.m.Swap(k, elem); !ok {
-		t.count++
-		if t.count > t.limit {
-			if oldest := t.list.Back(); oldest != nil {
-				t.list.Remove(oldest)
-				t.m.LoadAndDelete(oldest.Value.(*entrykv[K, V]).key)
-			}
-			t.count--
-		}
-	} else if preelem != nil {
-		t.list.Remove(preelem.(*list.Element))
-		if v := preelem.(*list.Element).Value; v != nil {
-			actual = v.(*entrykv[K, V]).value
-			loaded = true
+	if preelem, ok := t.m.Load(k); ok {
+		elem := preelem.(*list.Element)
+		t.list.MoveToFront(elem)
+		return elem.Value.(*entrykv[K, V]).value, true
+	}
+	t.m.Store(k, t.list.PushFront(&entrykv[K, V]{k, v}))
+	t.count++
+	if t.count > t.limit {
+		if oldest := t.list.Back(); oldest != nil {
+			t.list.Remove(oldest)
+			t.m.LoadAndDelete(oldest.Value.(*entrykv[K, V]).key)
 		}
+		t.count--
 	}
-	return
+	return v, false
 }
 
 func (t *LinkedHashMap[K, V]) Get(k K) (_r V, b bool) {
-- 
2.43.0


From 7a59aa807776c5ccf1970b47e12f859463d69812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:22 +0000
Subject: [PATCH 05/33] fix: LinkedHashMap.Get takes the lock, Clear replaces
 the index it reads

---
 hashmap/linkedhashmap.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hashmap/linkedhashmap.go b/hashmap/linkedhashmap.go
index 2fea2ec..b34045b 100644
--- a/hashmap/linkedhashmap.go
+++ b/hashmap/linkedhashmap.go
@@ -74,6 +74,8 @@ func (t *LinkedHashMap[K, V]) LoadOrStore(k K, v V) (actual V, loaded bool) {
 }
 
 func (t *LinkedHashMap[K, V]) Get(k K) (_r V, b bool) {
+	t.mu.Lock()
+	defer t.mu.Unlock()
 	if v, ok := t.m.Load(k); ok {
 		if v != nil {
 			if vv := v.(*list.Element).Value; vv != nil {
-- 
2.43.0


From c85da95a0a34b46831018a0c731146b8c3decdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:07 +0000
Subject: [PATCH 06/33] fix: LimitMap evicts before exceeding its capacity, not
 one entry late

---
 hashmap/limitmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashmap/limitmap.go b/hashmap/limitmap.go
index c7e4eaf..4688fde 100644
--- a/hashmap/limitmap.go
+++ b/hashmap/limitmap.go
@@ -53,7 +53,7 @@ func (mc *LimitMap[K, V]) Put(key K, value V) (prev V, b bool) {
 		mc.order.MoveToFront(elem)
 		return
 	}
-	if len(mc.cache) > mc.capacity {
+	if len(mc.cache) >= mc.capacity {
 		oldest := mc.order.Back()
 		if oldest != nil {
 			mc.order.Remove(oldest)
-- 
2.43.0


From c1e8c3219008379a99825c5c9690a18d70ce9a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:07 +0000
Subject: [PATCH 07/33] fix: LimitHashMap stores nil interface values like any
 other value

---
 hashmap/limithashmap.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hashmap/limithashmap.go b/hashmap/limithashmap.go
index c3aeb06..bee8f92 100644
--- a/hashmap/limithashmap.go
+++ b/hashmap/limithashmap.go
@@ -150,9 +150,8 @@ func (c *LimitHashMap[K, V]) Get(key K) (r V, b bool) {
 
 	hashedKey := c.hashFunc(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
-		if v := ele.Value.(*entry).value; v != nil {
-			return v.(V), true
-		}
+		r, _ = ele.Value.(*entry).value.(V)
+		return r, true
 	}
 	return
 }
@@ -164,7 +163,8 @@ func (c *LimitHashMap[K, V]) Put(key K, value V) (prev V, b bool) {
 
 	hashedKey := c.hashFunc(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
-		prev, b = ele.Value.(*entry).value.(V), true
+		prev, _ = ele.Value.(*entry).value.(V)
+		b = true
 		ele.Value.(*entry).value = value
 		return
 	}
-- 
2.43.0


From d582ef532bc1118b87a1c3da3bb70eb0d9a89785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:08 +0000
Subject: [PATCH 08/33] fix: LimitHashMap with more segments than capacity no
 longer exceeds its capacity

---
 hashmap/limithashmap.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hashmap/limithashmap.go b/hashmap/limithashmap.go
index bee8f92..0d959a3 100644
--- a/hashmap/limithashmap.go
+++ b/hashmap/limithashmap.go
@@ -58,6 +58,8 @@ func NewLimitHashMap[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint
 //
 //	*LimitHashMap[K, V] - A new instance of a capacity-limited LimitHashMap divided into segments.
 func NewLimitHashMapWithSegment[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 | uint16 | uint32 | float64 | float32 | uintptr | string, V any](capacity, segmentNumber int) *LimitHashMap[K, V] {
+	// every segment needs room for at least one entry
+	segmentNumber = max(min(segmentNumber, capacity), 1)
 	segments := make([]*segment, segmentNumber)
 	for i := 0; i < segmentNumber; i++ {
 		segments[i] = &segment{
-- 
2.43.0


From 9a86f2579e34cc90ab1e28d05318be44fc674eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:08 +0000
Subject: [PATCH 09/33] fix: LimitHashMap tells apart strings with the same
 hash

---
 hashmap/limithashmap.go | 44 ++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/hashmap/limithashmap.go b/hashmap/limithashmap.go
index 0d959a3..add8895 100644
--- a/hashmap/limithashmap.go
+++ b/hashmap/limithashmap.go
@@ -17,7 +17,7 @@ import (
 const numSegments = 1 << 6
 
 type segment struct {
-	cache map[uint64]*list.Element
+	cache map[any]*list.Element
 	order *list.List
 	mu    sync.RWMutex
 }
@@ -31,9 +31,9 @@ type LimitHashMap[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 |
 }
 
 type entry struct {
-	hashedKey uint64
-	key       any
-	value     any
+	cacheKey any
+	key      any
+	value    any
 }
 
 // NewLimitHashMap creates a new LimitHashMap with a specified capacity.
@@ -63,7 +63,7 @@ func NewLimitHashMapWithSegment[K int | int64 | int8 | int16 | int32 | uint | ui
 	segments := make([]*segment, segmentNumber)
 	for i := 0; i < segmentNumber; i++ {
 		segments[i] = &segment{
-			cache: make(map[uint64]*list.Element),
+			cache: make(map[any]*list.Element),
 			order: list.New(),
 		}
 	}
@@ -145,13 +145,21 @@ func (c *LimitHashMap[K, V]) getSegment(key K) *segment {
 	return c.segments[uint(hashedKey%uint64(c.segmentNumber))]
 }
 
+// cacheKey identifies the key within its segment: the hash of a string is not unique.
+func (c *LimitHashMap[K, V]) cacheKey(key K) any {
+	if s, ok := any(key).(string); ok {
+		return s
+	}
+	return c.hashFunc(key)
+}
+
 func (c *LimitHashMap[K, V]) Get(key K) (r V, b bool) {
 	segment := c.getSegment(key)
 	segment.mu.RLock()
 	defer segment.mu.RUnlock()
 
-	hashedKey := c.hashFunc(key)
-	if ele, ok := segment.cache[hashedKey]; ok {
+	cacheKey := c.cacheKey(key)
+	if ele, ok := segment.cache[cacheKey]; ok {
 		r, _ = ele.Value.(*entry).value.(V)
 		return r, true
 	}
@@ -163,8 +171,8 @@ func (c *LimitHashMap[K, V]) Put(key K, value V) (prev V, b bool) {
 	segment.mu.Lock()
 	defer segment.mu.Unlock()
 
-	hashedKey := c.hashFunc(key)
-	if ele, ok := segment.cache[hashedKey]; ok {
+	cacheKey := c.cacheKey(key)
+	if ele, ok := segment.cache[cacheKey]; ok {
 		prev, _ = ele.Value.(*entry).value.(V)
 		b = true
 		ele.Value.(*entry).value = value
@@ -175,12 +183,12 @@ func (c *LimitHashMap[K, V]) Put(key K, value V) (prev V, b bool) {
 		oldest := segment.order.Back()
 		if oldest != nil {
 			segment.order.Remove(oldest)
-			delete(segment.cache, oldest.Value.(*entry).hashedKey)
+			delete(segment.cache, oldest.Value.(*entry).cacheKey)
 		}
 	}
 
-	ele := segment.order.PushFront(&entry{hashedKey: hashedKey, key: key, value: value})
-	segment.cache[hashedKey] = ele
+	ele := segment.order.PushFront(&entry{cacheKey: cacheKey, key: key, value: value})
+	segment.cache[cacheKey] = ele
 	return
 }
 
@@ -189,10 +197,10 @@ func (c *LimitHashMap[K, V]) Del(key K) {
 	segment.mu.Lock()
 	defer segment.mu.Unlock()
 
-	hashedKey := c.hashFunc(key)
-	if ele, ok := segment.cache[hashedKey]; ok {
+	cacheKey := c.cacheKey(key)
+	if ele, ok := segment.cache[cacheKey]; ok {
 		segment.order.Remove(ele)
-		delete(segment.cache, hashedKey)
+		delete(segment.cache, cacheKey)
 	}
 }
 
@@ -201,15 +209,15 @@ func (c *LimitHashMap[K, V]) Contains(key K) bool {
 	segment.mu.RLock()
 	defer segment.mu.RUnlock()
 
-	hashedKey := c.hashFunc(key)
-	_, ok := segment.cache[hashedKey]
+	cacheKey := c.cacheKey(key)
+	_, ok := segment.cache[cacheKey]
 	return ok
 }
 
 func (c *LimitHashMap[K, V]) Clear() {
 	for _, segment := range c.segments {
 		segment.mu.Lock()
-		segment.cache = make(map[uint64]*list.Element)
+		segment.cache = make(map[any]*list.Element)
 		segment.order.Init()
 		segment.mu.Unlock()
 	}
-- 
2.43.0


From 0c2ec7ecc1a58e7e70d3d3973d4813810de69004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:32 +0000
Subject: [PATCH 10/33] fix: Consistenthash lookups report no node after the
 last node is deleted instead of panicking

---
 hashmap/consistenthash.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hashmap/consistenthash.go b/hashmap/consistenthash.go
index d8a9c7f..6237dbb 100644
--- a/hashmap/consistenthash.go
+++ b/hashmap/consistenthash.go
@@ -67,7 +67,7 @@ func (t *Consistenthash) Add(keys ...int64) {
 func (t *Consistenthash) Get(value int64) (node int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if t.keys == nil {
+	if len(t.keys) == 0 {
 		return
 	}
 	keyu64 := hash(int64ToBytes(value))
@@ -82,7 +82,7 @@ func (t *Consistenthash) Get(value int64) (node int64, ok bool) {
 func (t *Consistenthash) GetStr(value string) (node int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if t.keys == nil {
+	if len(t.keys) == 0 {
 		return
 	}
 	keyu64 := hash([]byte(value))
@@ -97,7 +97,7 @@ func (t *Consistenthash) GetStr(value string) (node int64, ok bool) {
 func (t *Consistenthash) GetNextNodeStr(value string, step int) (nodes []int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if t.keys == nil {
+	if len(t.keys) == 0 {
 		return
 	}
 	keyu64 := hash([]byte(value))
-- 
2.43.0


From 7854a6bed69a2d8ca16b581e26f7d0cfb434eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:47 +0000
Subject: [PATCH 11/33] fix: NewBloomFilter allocates at least one word, so
 that small filters do not lose every item

---
 cache/bloom.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/bloom.go b/cache/bloom.go
index 4a1eb41..f3d89c9 100644
--- a/cache/bloom.go
+++ b/cache/bloom.go
@@ -37,6 +37,9 @@ func NewBloomFilter(expectedItems uint64, falsePositiveRate float64) (r *BloomFi
 	}
 	wordSize := uint64(64)
 	words := (uint64(m) + wordSize - 1) / wordSize
+	if words == 0 {
+		words = 1
+	}
 	seeds := make([]maphash.Seed, k)
 	for i := range seeds {
 		seeds[i] = maphash.MakeSeed()
-- 
2.43.0


From 3245106fec0fa35972762489777b1ed2f31b84da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:54 +0000
Subject: [PATCH 12/33] fix: BloomFilter serialises additions and lookups,
 which raced and lost bits

---
 cache/bloom.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/cache/bloom.go b/cache/bloom.go
index f3d89c9..0956a0f 100644
--- a/cache/bloom.go
+++ b/cache/bloom.go
@@ -20,7 +20,7 @@ type BloomFilter struct {
 	bits          [3][]uint64 // Bit array to store the presence information for each segment.
 	hashCount     int         // Number of hash functions.
 	seeds         []maphash.Seed
-	mux           sync.Mutex
+	mux           sync.RWMutex
 	numCount      atomic.Uint64
 	arraySize     uint64
 	expectedItems uint64
@@ -79,6 +79,8 @@ func (bf *BloomFilter) testBit(index uint64) bool {
 // Add adds an item (as byte slice) to the bloom filter using multiple hash functions.
 func (bf *BloomFilter) Add(item []byte) {
 	defer recoverPanic(nil)
+	bf.mux.Lock()
+	defer bf.mux.Unlock()
 	bf.numCount.Add(1)
 	for i := 0; i < bf.hashCount; i++ {
 		index := bf.hash(item, bf.seeds[i]) % (bf.arraySize * 64)
@@ -89,6 +91,8 @@ func (bf *BloomFilter) Add(item []byte) {
 // Contains if an item (as byte slice) is possibly in the bloom filter.
 func (bf *BloomFilter) Contains(item []byte) bool {
 	defer recoverPanic(nil)
+	bf.mux.RLock()
+	defer bf.mux.RUnlock()
 	for i := 0; i < bf.hashCount; i++ {
 		index := bf.hash(item, bf.seeds[i]) % (bf.arraySize * 64)
 		if !bf.testBit(index) {
@@ -109,14 +113,8 @@ func (bf *BloomFilter) getBitIndex() (index, prevIndex int) {
 		index, rmIndex, prevIndex = 2, 0, 1
 	}
 	if bf.bits[index] == nil {
-		bf.mux.Lock()
-		if bf.bits[index] == nil {
-			bf.bits[index] = make([]uint64, bf.arraySize)
-		}
-		if bf.bits[rmIndex] != nil {
-			bf.bits[rmIndex] = nil
-		}
-		bf.mux.Unlock()
+		bf.bits[index] = make([]uint64, bf.arraySize)
+		bf.bits[rmIndex] = nil
 	}
 	return
 }
-- 
2.43.0


From c8e4a644702c52005ee66e5d610046c7ae088b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:38 +0000
Subject: [PATCH 13/33] fix: LimitLock.Cc reads the counters atomically

---
 lock/lock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lock/lock.go b/lock/lock.go
index 2200a39..76df89b 100644
--- a/lock/lock.go
+++ b/lock/lock.go
@@ -156,7 +156,7 @@ func (ll *LimitLock) Unlock() {
 
 // Cc returns the current concurrency count.
 func (ll *LimitLock) Cc() int64 {
-	return ll.count - ll._count // Difference between acquisitions and releases (always zero)
+	return atomic.LoadInt64(&ll.count) - atomic.LoadInt64(&ll._count) // Difference between acquisitions and releases (always zero)
 }
 
 // LockCount returns the total number of lock acquisitions.
-- 
2.43.0


From 38855370e2e72a7770563b6bd1e54cdc828bb01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:38 +0000
Subject: [PATCH 14/33] fix: WaitWithCancel without a timeout observes the
 cancellation

---
 lock/await.go     | 10 +++++++++-
 lock/fastawait.go | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lock/await.go b/lock/await.go
index 652e469..e1066bf 100644
--- a/lock/await.go
+++ b/lock/await.go
@@ -109,7 +109,15 @@ func (at *Await[T]) WaitWithCancel(ctx context.Context, idx int64, timeout time.
 			return r, false, nil
 		}
 	} else {
-		r = <-ch
+		select {
+		case <-ctx.Done():
+			defer func() {
+				defer recoverpanic(nil)
+				close(ch)
+			}()
+			return r, true, fmt.Errorf("cancel %d", idx)
+		case r = <-ch:
+		}
 	}
 	return
 }
diff --git a/lock/fastawait.go b/lock/fastawait.go
index 2f562f1..cb351d8 100644
--- a/lock/fastawait.go
+++ b/lock/fastawait.go
@@ -87,7 +87,15 @@ func (fa *FastAwait[T]) WaitWithCancel(ctx context.Context, syncId int64, timeou
 			return
 		}
 	} else {
-		r = <-ch
+		select {
+		case <-ctx.Done():
+			defer func() {
+				defer recoverpanic(nil)
+				close(ch)
+			}()
+			return r, true, fmt.Errorf("wait %d cancel", syncId)
+		case r = <-ch:
+		}
 	}
 	return
 }
-- 
2.43.0


From 72119d3a10eaad34af3209c9eff95166397ed64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:37 +0000
Subject: [PATCH 15/33] fix: fastio writers lost, delayed or misreported data
 under concurrency and errors

Write queued the caller's buffer and could return before anybody was
going to write it; a failing batch kept the lock and left WriteSync
waiters spinning; the batch state was read without synchronisation.
---
 fastio/fw.go | 130 ++++++++++++++++++---------------------------------
 1 file changed, 45 insertions(+), 85 deletions(-)

diff --git a/fastio/fw.go b/fastio/fw.go
index 4028d18..e65a0e2 100644
--- a/fastio/fw.go
+++ b/fastio/fw.go
@@ -8,10 +8,7 @@
 package fastio
 
 import (
-	"bufio"
 	"sync"
-	"sync/atomic"
-	"time"
 )
 
 type writer interface {
@@ -22,106 +19,69 @@ type writer interface {
 type writeData struct {
 	data   []byte
 	offset int64
-	done   chan struct{}
+	n      int
+	err    error
+	done   bool
 }
 
+// mwriter appends the data of concurrent writers in batches: whoever gets the
+// file writes everything queued so far in one call.
 type mwriter struct {
-	ch    chan *writeData
-	mu    sync.RWMutex
-	wc    int32
-	cc    int32
 	fh    *fileHandle
-	ioend bool
+	mu    sync.Mutex // guards the file, its offset and the results in writeData
+	qmu   sync.Mutex // guards queue
+	queue []*writeData
 }
 
 func newWriter(fh *fileHandle) writer {
-	return &mwriter{fh: fh, ch: make(chan *writeData, 1<<16), ioend: true}
+	return &mwriter{fh: fh}
 }
 
 func (m *mwriter) WriteSync(bs []byte) (offset int64, err error) {
-	defer atomic.AddInt32(&m.cc, -1)
-	if atomic.AddInt32(&m.cc, 1) <= 1 {
-		m.mu.Lock()
-		defer m.mu.Unlock()
-		if m.wc > 0 {
-			m.ioWrite()
-		}
-		n := 0
-		n, err = m.fh.file.Write(bs)
-		offset = m.fh.offset
-		atomic.AddInt64(&m.fh.offset, int64(n))
-		return
-	}
-	atomic.AddInt32(&m.wc, 1)
-	wd := &writeData{data: bs, done: make(chan struct{})}
-	m.ch <- wd
-START:
-	if m.ioend && m.mu.TryLock() {
-		if err = m.ioWrite(); err != nil {
-			return
-		}
-		m.mu.Unlock()
-	} else {
-		select {
-		case <-wd.done:
-			goto END
-		case <-time.After(time.Microsecond):
-			goto START
-		}
-	}
-END:
-	offset = wd.offset
-	return
+	wd := m.write(bs)
+	return wd.offset, wd.err
 }
 
 func (m *mwriter) Write(bs []byte) (n int, err error) {
-	defer atomic.AddInt32(&m.cc, -1)
-	if atomic.AddInt32(&m.cc, 1) <= 1 {
-		m.mu.RLock()
-		defer m.mu.RUnlock()
-		if m.wc > 0 {
-			m.ioWrite()
-		}
-		if n, err = m.fh.file.Write(bs); n > 0 {
-			atomic.AddInt64(&m.fh.offset, int64(n))
-		}
-		return n, err
-	}
-	atomic.AddInt32(&m.wc, 1)
-	m.ch <- &writeData{data: bs}
-START:
-	if m.ioend && m.mu.TryLock() {
-		if err = m.ioWrite(); err != nil {
-			return
-		}
-		m.mu.Unlock()
-	} else if m.ioend {
-		goto START
-	}
-	return len(bs), nil
+	wd := m.write(bs)
+	return wd.n, wd.err
 }
 
-func (m *mwriter) ioWrite() (err error) {
-	if m.wc == 0 {
-		return
+// write returns once bs is written or has failed.
+func (m *mwriter) write(bs []byte) *writeData {
+	wd := &writeData{data: bs}
+	m.qmu.Lock()
+	m.queue = append(m.queue, wd)
+	m.qmu.Unlock()
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	if !wd.done {
+		m.ioWrite()
 	}
-	m.ioend = false
-	defer recoverable(&err)
-	bw := bufio.NewWriter(m.fh.file)
-	for wd := range m.ch {
-		if wd.done != nil {
-			defer func() { close(wd.done) }()
+	return wd
+}
+
+func (m *mwriter) ioWrite() {
+	m.qmu.Lock()
+	batch := m.queue
+	m.queue = nil
+	m.qmu.Unlock()
+	data := batch[0].data
+	if len(batch) > 1 {
+		data = nil
+		for _, wd := range batch {
+			data = append(data, wd.data...)
 		}
+	}
+	n, err := m.fh.file.Write(data)
+	for _, wd := range batch {
 		wd.offset = m.fh.offset
-		if _, err = bw.Write(wd.data); err != nil {
-			return
-		}
-		atomic.AddInt64(&m.fh.offset, int64(len(wd.data)))
-		if atomic.AddInt32(&m.wc, -1) == 0 {
-			break
+		wd.n = min(n, len(wd.data))
+		if wd.n < len(wd.data) || wd.n == 0 {
+			wd.err = err
 		}
+		n -= wd.n
+		m.fh.offset += int64(wd.n)
+		wd.done = true
 	}
-	m.ioend = true
-	err = bw.Flush()
-	return
 }
-- 
2.43.0


From 9913ee992a5455d0d542f28895d994bd4938dfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:47 +0000
Subject: [PATCH 16/33] fix: NewMMAP rejects a negative offset and leaves no
 mapping behind on error

---
 mmap/mmap.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmap/mmap.go b/mmap/mmap.go
index a999493..9fbd185 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -24,13 +24,13 @@ func NewMMAP(f *os.File, startOffset int64) (m *Mmap, err error) {
 		return nil, errors.New("the file capacity is zero")
 	}
 
+	if startOffset < 0 || startOffset >= fif.Size() {
+		return nil, errors.New("offset Exceeds the file limit")
+	}
 	_mmap, err := gommap.Map(f, gommap.RDWR, 0)
 	if err != nil {
 		return nil, err
 	}
-	if startOffset >= fif.Size() {
-		return nil, errors.New("offset Exceeds the file limit")
-	}
 	m = &Mmap{file: f, _mmap: _mmap, maxsize: fif.Size(), mux: &sync.Mutex{}, offset: startOffset}
 	return
 }
-- 
2.43.0


From 75dc01382cb88299c812270cbcbdc8701f37e260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:47 +0000
Subject: [PATCH 17/33] fix: Mmap.WriteAt rejects offsets outside the file
 instead of panicking

---
 mmap/mmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmap/mmap.go b/mmap/mmap.go
index 9fbd185..efbfe33 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -66,7 +66,7 @@ func (t *Mmap) AppendSync(bs []byte) (n int64, err error) {
 
 func (t *Mmap) WriteAt(bs []byte, offset int) (err error) {
 	t.mux.Lock()
-	if offset+len(bs) > int(t.maxsize) {
+	if offset < 0 || offset > int(t.maxsize)-len(bs) {
 		err = errors.New("exceeding file size limit")
 		t.mux.Unlock()
 		return
-- 
2.43.0


From 5f6a7cb649f97c202d1ae9765e67f6a82c7aae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:57 +0000
Subject: [PATCH 18/33] fix: synchronous Mmap writes of no data at the end of
 the file do not panic

---
 mmap/mmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmap/mmap.go b/mmap/mmap.go
index efbfe33..156d54e 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -58,7 +58,7 @@ func (t *Mmap) Append(bs []byte) (n int64, err error) {
 }
 
 func (t *Mmap) AppendSync(bs []byte) (n int64, err error) {
-	if n, err = t.Append(bs); err == nil {
+	if n, err = t.Append(bs); err == nil && len(bs) > 0 {
 		err = mmapSyncToDisk(t.file, t._mmap, n, len(bs))
 	}
 	return
@@ -80,7 +80,7 @@ func (t *Mmap) WriteAt(bs []byte, offset int) (err error) {
 }
 
 func (t *Mmap) WriteAtSync(bs []byte, offset int) (err error) {
-	if err = t.WriteAt(bs, offset); err == nil {
+	if err = t.WriteAt(bs, offset); err == nil && len(bs) > 0 {
 		err = mmapSyncToDisk(t.file, t._mmap, int64(offset), len(bs))
 	}
 	return
-- 
2.43.0


From 36d0b9e19fd815572e983236108999b28ee888d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:13 +0000
Subject: [PATCH 19/33] fix: Buffer.Read consumes the last bytes and reports
 EOF

---
 buffer/buffer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/buffer/buffer.go b/buffer/buffer.go
index 8e35e2c..539e906 100644
--- a/buffer/buffer.go
+++ b/buffer/buffer.go
@@ -103,9 +103,11 @@ func (b *Buffer) Read(p []byte) (n int, err error) {
 		}
 		return 0, io.EOF
 	}
-	if n = copy(p, *b); n < b.Len() {
-		*b = (*b)[n:]
+	if b.Len() == 0 && len(p) > 0 {
+		return 0, io.EOF
 	}
+	n = copy(p, *b)
+	*b = (*b)[n:]
 	return n, nil
 }
 
-- 
2.43.0


From 5922b30a55f62f6b324fa40e80f2aa5f09f5c57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:13 +0000
Subject: [PATCH 20/33] fix: Buffer.WriteInt32 reports the four bytes it writes

---
 buffer/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buffer/buffer.go b/buffer/buffer.go
index 539e906..cbf5479 100644
--- a/buffer/buffer.go
+++ b/buffer/buffer.go
@@ -64,7 +64,7 @@ func (b *Buffer) WriteString(s string) (int, error) {
 func (b *Buffer) WriteInt32(i int) (int, error) {
 	if b != nil {
 		*b = append(*b, int32ToBytes(int32(i))...)
-		return 8, nil
+		return 4, nil
 	} else {
 		return 0, fmt.Errorf("WriteInt32: buffer is nil")
 	}
-- 
2.43.0


From 4eaae026b76985b1dc0695128d15f1410ebe7d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:35 +0000
Subject: [PATCH 21/33] fix: GoPool lost functions, exceeded its limit and
 deadlocked

A function submitted while the dispatcher was finishing was never run,
Close lost functions handed to idle workers and raced on its flags, a
pool with no resident goroutine or no queue never ran anything, and the
limit was exceeded when a resident goroutine became idle while temporary
ones were running.
---
 pool/gopool/gopool.go | 131 ++++++++++++++++++++++++------------------
 1 file changed, 75 insertions(+), 56 deletions(-)

diff --git a/pool/gopool/gopool.go b/pool/gopool/gopool.go
index 8539431..85a0670 100644
--- a/pool/gopool/gopool.go
+++ b/pool/gopool/gopool.go
@@ -11,7 +11,6 @@ import (
 	"context"
 	"sync"
 	"sync/atomic"
-	"time"
 )
 
 type funcn struct {
@@ -29,25 +28,17 @@ func (fc *funcn) add(f func()) {
 }
 
 func (fc *funcn) run() {
-	defer func() {
-		if err := recover(); err != nil {
-			if fc.pool.put(fc) {
-				go fc.run()
-			}
-		}
-	}()
-	for {
-		select {
-		case f := <-fc.task:
-			f()
-		case <-fc.pool.ctx.Done():
-			goto END
-		}
+	for f := range fc.task {
+		fc.exec(f)
 		if !fc.pool.put(fc) {
 			break
 		}
 	}
-END:
+}
+
+func (fc *funcn) exec(f func()) {
+	defer func() { recover() }()
+	f()
 }
 
 type GoPool struct {
@@ -55,10 +46,10 @@ type GoPool struct {
 	minlimit   int64
 	maxlimit   int64
 	id         int64
-	count      int64
+	running    chan struct{}
 	mux        *sync.Mutex
 	funcnPool  chan func()
-	close      bool
+	off        int32
 	_closeflag int32
 	tnum       int64
 	ctx        context.Context
@@ -71,11 +62,15 @@ func NewPool(minlimit int64, maxlimit int64) *GoPool {
 
 func NewPoolWithFuncLimit(minlimit int64, maxlimit int64, FuncLimit int) *GoPool {
 	p := &GoPool{}
+	if minlimit < 1 {
+		minlimit = 1
+	}
 	p.pool = make(chan *funcn, minlimit)
 	p.minlimit, p.maxlimit = minlimit, maxlimit
 	if maxlimit < minlimit {
 		p.maxlimit = minlimit
 	}
+	p.running = make(chan struct{}, p.maxlimit)
 	p.funcnPool = make(chan func(), FuncLimit)
 	p.mux = &sync.Mutex{}
 	p.ctx, p.cancel = context.WithCancel(context.Background())
@@ -83,82 +78,106 @@ func NewPoolWithFuncLimit(minlimit int64, maxlimit int64, FuncLimit int) *GoPool
 }
 
 func (g *GoPool) Go(f func()) {
-	if !g.close {
-		g.funcnPool <- f
+	if !g.closed() {
 		atomic.AddInt64(&g.tnum, 1)
 		if g.mux.TryLock() {
 			go g.funcn()
 		}
+		g.funcnPool <- f
 	} else {
 		go f()
 	}
 }
 
+func (g *GoPool) closed() bool {
+	return atomic.LoadInt32(&g.off) == 1 || atomic.LoadInt32(&g._closeflag) == 1
+}
+
 // NumUnExecu the number of functions not executed
 func (g *GoPool) NumUnExecu() int {
-	return int(g.tnum)
+	return int(atomic.LoadInt64(&g.tnum))
 }
 
 // Close when Close ,the pool will enable goroutine, and the func in the pool will be started with goroutine
 func (g *GoPool) Close() {
-	defer func() { recover() }()
 	if atomic.CompareAndSwapInt32(&g._closeflag, 0, 1) {
-		g.close = true
 		g.cancel()
-		go func() {
-			<-time.After(10 * time.Second)
-			close(g.funcnPool)
-		}()
-		close(g.pool)
+		g.release()
+	}
+}
+
+// release ends the idle workers of a closed pool
+func (g *GoPool) release() {
+	for {
+		select {
+		case t := <-g.pool:
+			close(t.task)
+		default:
+			return
+		}
 	}
 }
 
 func (g *GoPool) TurnOff(off bool) {
-	if atomic.CompareAndSwapInt32(&g._closeflag, 0, 0) && off {
-		g.close = true
-	} else if atomic.CompareAndSwapInt32(&g._closeflag, 0, 0) && !off {
-		g.close = false
+	if atomic.LoadInt32(&g._closeflag) == 0 {
+		if off {
+			atomic.StoreInt32(&g.off, 1)
+		} else {
+			atomic.StoreInt32(&g.off, 0)
+		}
 	}
 }
 
 func (g *GoPool) funcn() {
-	defer func() { recover() }()
-	defer g.mux.Unlock()
-	g._funcn()
+	for {
+		g._funcn()
+		g.mux.Unlock()
+		// a function submitted while the lock was held did not start a dispatcher
+		if atomic.LoadInt64(&g.tnum) <= 0 || !g.mux.TryLock() {
+			return
+		}
+	}
 }
 
 func (g *GoPool) _funcn() {
-	for f := range g.funcnPool {
-		if g.close {
+	for atomic.LoadInt64(&g.tnum) > 0 {
+		f := <-g.funcnPool
+		if g.closed() {
 			go f()
-		} else {
-			var t *funcn
-			if count := atomic.AddInt64(&g.count, 1); count > g.minlimit && count <= g.maxlimit {
-				t = &funcn{task: make(chan func(), 1), id: atomic.AddInt64(&g.id, 1), pool: g}
-			} else if g.id > g.minlimit {
-				t = <-g.pool
-			} else if id := atomic.AddInt64(&g.id, 1); id <= g.minlimit {
-				t = &funcn{task: make(chan func(), 1), id: id, pool: g}
-			} else {
-				t = <-g.pool
-			}
+		} else if t := g.worker(); t != nil {
 			t.add(f)
+		} else {
+			go f()
 		}
-		if atomic.AddInt64(&g.tnum, -1) <= 0 {
-			break
-		}
+		atomic.AddInt64(&g.tnum, -1)
 	}
-	if g.tnum > 0 {
-		g._funcn()
+}
+
+// worker waits until fewer than maxlimit functions are running and returns an idle or a new worker;
+// it returns nil if the pool is closed
+func (g *GoPool) worker() *funcn {
+	select {
+	case g.running <- struct{}{}:
+	case <-g.ctx.Done():
+		return nil
+	}
+	select {
+	case t := <-g.pool:
+		return t
+	default:
+		g.id++
+		return &funcn{task: make(chan func(), 1), id: g.id, pool: g}
 	}
-	return
 }
 
 func (g *GoPool) put(f *funcn) (ok bool) {
-	atomic.AddInt64(&g.count, -1)
-	if f.id <= g.minlimit && atomic.CompareAndSwapInt32(&g._closeflag, 0, 0) {
+	if f.id <= g.minlimit && atomic.LoadInt32(&g._closeflag) == 0 {
 		g.pool <- f
 		ok = true
+		if atomic.LoadInt32(&g._closeflag) == 1 {
+			g.release()
+		}
 	}
+	<-g.running
 	return
 }
-- 
2.43.0


From 908acfa281b2a4debadaf4c7e657d9e84f37c895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:42 +0000
Subject: [PATCH 22/33] fix: ZlibLevel finishes the stream, its output could
 not be decompressed

---
 compress/compress.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/compress/compress.go b/compress/compress.go
index e834463..eeed2c8 100644
--- a/compress/compress.go
+++ b/compress/compress.go
@@ -32,9 +32,12 @@ func ZlibLevel(bs []byte, level int) (_r []byte, err error) {
 	var buf bytes.Buffer
 	var compressor *zlib.Writer
 	if compressor, err = zlib.NewWriterLevel(&buf, level); err == nil {
-		defer compressor.Close()
-		compressor.Write(bs)
-		compressor.Flush()
+		if _, err = compressor.Write(bs); err != nil {
+			return nil, err
+		}
+		if err = compressor.Close(); err != nil {
+			return nil, err
+		}
 		_r = buf.Bytes()
 	} else {
 		_r = bs
-- 
2.43.0


From 075122c735d25171354cfdef93114b051e7ea0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:42 +0000
Subject: [PATCH 23/33] fix: util Zlib lost data by returning before closing
 the stream, UnZlib and UnGzip hid damage

---
 util/compress.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/util/compress.go b/util/compress.go
index a1233fb..cdc6faa 100644
--- a/util/compress.go
+++ b/util/compress.go
@@ -19,10 +19,12 @@ func Zlib(bs []byte) (_r []byte, err error) {
 	var buf bytes.Buffer
 	var compressor *zlib.Writer
 	if compressor, err = zlib.NewWriterLevel(&buf, zlib.DefaultCompression); err == nil {
-		defer compressor.Close()
 		if _, err = compressor.Write(bs); err != nil {
 			return nil, err
 		}
+		if err = compressor.Close(); err != nil {
+			return nil, err
+		}
 		_r = buf.Bytes()
 	} else {
 		_r = bs
@@ -35,7 +37,9 @@ func UnZlib(bs []byte) (_r []byte, err error) {
 	var read io.ReadCloser
 	if read, err = zlib.NewReader(bytes.NewReader(bs)); err == nil {
 		defer read.Close()
-		io.Copy(&obuf, read)
+		if _, err = io.Copy(&obuf, read); err != nil {
+			return nil, err
+		}
 		_r = obuf.Bytes()
 	}
 	return
@@ -54,11 +58,15 @@ func UnGzip(bs []byte) (_bb bytes.Buffer, err error) {
 		var bs = make([]byte, 1024)
 		for {
 			var n int
-			n, err := gz.Read(bs)
-			if (err != nil && err != io.EOF) || n == 0 {
+			n, err = gz.Read(bs)
+			_bb.Write(bs[:n])
+			if err == io.EOF {
+				err = nil
+				break
+			}
+			if err != nil {
 				break
 			}
-			_bb.Write(bs[:n])
 		}
 	} else {
 		err = er
-- 
2.43.0


From b713b5cfe786a6df0a83478e69f2d6279fe8419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:22 +0000
Subject: [PATCH 24/33] fix: AES encryption leaves the caller's memory alone,
 decryption reports malformed input instead of panicking

---
 keystore/aes.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/keystore/aes.go b/keystore/aes.go
index 4d7d32e..e230f79 100644
--- a/keystore/aes.go
+++ b/keystore/aes.go
@@ -11,6 +11,7 @@ import (
 	"crypto/cipher"
 	"crypto/md5"
 	"crypto/sha256"
+	"errors"
 )
 
 type Aes struct {
@@ -31,7 +32,7 @@ func (this *Aes) EncrypterCbc(src []byte) (_r []byte, err error) {
 	if c, e := aes.NewCipher(this.commonKey256[:]); e == nil {
 		blockSize := c.BlockSize()
 		bs := bytes.Repeat([]byte{byte(blockSize - len(src)%blockSize)}, blockSize-len(src)%blockSize)
-		_r = append(src, bs...)
+		_r = append(append(make([]byte, 0, len(src)+len(bs)), src...), bs...)
 		encrypter := cipher.NewCBCEncrypter(c, this.commonIV[:])
 		encrypter.CryptBlocks(_r, _r)
 	} else {
@@ -42,10 +43,17 @@ func (this *Aes) EncrypterCbc(src []byte) (_r []byte, err error) {
 
 func (this *Aes) DecrypterCbc(bs []byte) (_r []byte, err error) {
 	if c, e := aes.NewCipher(this.commonKey256[:]); e == nil {
+		if len(bs) == 0 || len(bs)%c.BlockSize() != 0 {
+			return nil, errors.New("the ciphertext is not a whole number of blocks")
+		}
 		decrypter := cipher.NewCBCDecrypter(c, this.commonIV[:])
 		_r = make([]byte, len(bs))
 		decrypter.CryptBlocks(_r, bs)
-		_r = _r[:len(_r)-(int(_r[len(_r)-1]))]
+		n := int(_r[len(_r)-1])
+		if n == 0 || n > c.BlockSize() || !bytes.Equal(_r[len(_r)-n:], bytes.Repeat([]byte{byte(n)}, n)) {
+			return nil, errors.New("invalid padding")
+		}
+		_r = _r[:len(_r)-n]
 	} else {
 		err = e
 	}
-- 
2.43.0


From 417db46f976aa59f96d9a1ebfd85d459f1e83b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:23 +0000
Subject: [PATCH 25/33] fix: RSA encryption and decryption report malformed
 keys instead of returning nothing and no error

---
 keystore/key.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/keystore/key.go b/keystore/key.go
index 3b93680..4e43189 100644
--- a/keystore/key.go
+++ b/keystore/key.go
@@ -111,11 +111,18 @@ func RsaEncrypt(msg []byte, publickeypath string) (cipherText []byte, err error)
 func RsaEncryptByBytes(msg []byte, publickeyBs []byte) (cipherText []byte, err error) {
 	defer _recovr()
 	pubDecodeBlock, _ := pem.Decode(publickeyBs)
-	if parsePublicKey, e := x509.ParsePKIXPublicKey(pubDecodeBlock.Bytes); e == nil {
-		publicKey := parsePublicKey.(*rsa.PublicKey)
-		cipherText, err = rsa.EncryptPKCS1v15(rand.Reader, publicKey, msg)
+	if pubDecodeBlock == nil {
+		return nil, errors.New("no PEM encoded public key")
 	}
-	return
+	parsePublicKey, err := x509.ParsePKIXPublicKey(pubDecodeBlock.Bytes)
+	if err != nil {
+		return nil, err
+	}
+	publicKey, ok := parsePublicKey.(*rsa.PublicKey)
+	if !ok {
+		return nil, errors.New("not an RSA public key")
+	}
+	return rsa.EncryptPKCS1v15(rand.Reader, publicKey, msg)
 }
 
 func RsaDecrypt(cipherText []byte, privatekeypath string) (msg []byte, err error) {
@@ -139,10 +146,14 @@ func RsaDecrypt(cipherText []byte, privatekeypath string) (msg []byte, err error
 func RsaDecryptByBytes(cipherText []byte, privateBs []byte) (msg []byte, err error) {
 	defer _recovr()
 	priDecodeBlock, _ := pem.Decode(privateBs)
-	if privateKey, e := x509.ParsePKCS1PrivateKey(priDecodeBlock.Bytes); e == nil {
-		msg, err = rsa.DecryptPKCS1v15(rand.Reader, privateKey, cipherText)
+	if priDecodeBlock == nil {
+		return nil, errors.New("no PEM encoded private key")
+	}
+	privateKey, err := x509.ParsePKCS1PrivateKey(priDecodeBlock.Bytes)
+	if err != nil {
+		return nil, err
 	}
-	return
+	return rsa.DecryptPKCS1v15(rand.Reader, privateKey, cipherText)
 }
 
 func _recovr() {
-- 
2.43.0


From 9f430b55561f998fdaacb9d4323400153b5ae8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:23 +0000
Subject: [PATCH 26/33] fix: KeyStore reports failing file operations instead
 of ignoring them or panicking

---
 keystore/bin.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/keystore/bin.go b/keystore/bin.go
index 9bbc77b..f116eb7 100644
--- a/keystore/bin.go
+++ b/keystore/bin.go
@@ -44,8 +44,12 @@ func LoadKeyStore(dir string, name string) (ks *_keyStore, err error) {
 func (this *_keyStore) Write(bs []byte) (err error) {
 	this.mux.Lock()
 	defer this.mux.Unlock()
-	this._fileHandler.Seek(0, io.SeekStart)
-	this._fileHandler.Truncate(0)
+	if _, err = this._fileHandler.Seek(0, io.SeekStart); err != nil {
+		return
+	}
+	if err = this._fileHandler.Truncate(0); err != nil {
+		return
+	}
 	var obs []byte
 	if obs, err = util.Zlib(bs); err != nil {
 		obs = bs
@@ -58,6 +62,9 @@ func (this *_keyStore) Read() (bs []byte, err error) {
 	this.mux.Lock()
 	defer this.mux.Unlock()
 	fi, err := this._fileHandler.Stat()
+	if err != nil {
+		return nil, err
+	}
 	if fi.Size() > 0 {
 		if bs, err = util.ReadFile(this.fname); err == nil && bs != nil {
 			if obs, er := util.UnZlib(bs); er == nil {
-- 
2.43.0


From d858e562fb262636d27d5d74ef0e78c2853b11a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:11 +0000
Subject: [PATCH 27/33] fix: ReadFile of an empty file returns no bytes instead
 of an error

---
 util/encode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/encode.go b/util/encode.go
index ff04ae3..235f20a 100644
--- a/util/encode.go
+++ b/util/encode.go
@@ -137,7 +137,9 @@ func ReadFile(path string) (bs []byte, err error) {
 	if r, er := mmap.Open(path); er == nil {
 		defer r.Close()
 		bs = make([]byte, r.Len())
-		_, err = r.ReadAt(bs, 0)
+		if len(bs) > 0 {
+			_, err = r.ReadAt(bs, 0)
+		}
 	} else {
 		err = er
 	}
-- 
2.43.0


From 6bdb1e9ecdfd55a4bb1eaa30d4ab987087b1bd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:11 +0000
Subject: [PATCH 28/33] fix: storeAdmin.Load fills in the maps a stored bean
 lacks, so that Put does not panic

---
 keystore/keystore.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index c2a80d6..1cc5a92 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -31,7 +31,19 @@ func (this *storeAdmin) Load() {
 		this.kb, err = util.TDecode(bs, &KeyBean{})
 	}
 	if err != nil {
-		this.kb = &KeyBean{make(map[string]*UserBean, 0), make(map[string]*UserBean, 0), make(map[string]*UserBean, 0), make(map[string]string, 0)}
+		this.kb = &KeyBean{}
+	}
+	if this.kb.Admin == nil {
+		this.kb.Admin = make(map[string]*UserBean, 0)
+	}
+	if this.kb.Client == nil {
+		this.kb.Client = make(map[string]*UserBean, 0)
+	}
+	if this.kb.Mq == nil {
+		this.kb.Mq = make(map[string]*UserBean, 0)
+	}
+	if this.kb.Other == nil {
+		this.kb.Other = make(map[string]string, 0)
 	}
 }
 
-- 
2.43.0


From 08bceeb4eca278bc224af5e2a2773ab7f855d9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:46 +0000
Subject: [PATCH 29/33] fix: websocket Handler guards its error, which Send,
 Close and the reader raced on, and OnError always gets one

---
 websocket/wshandle.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/websocket/wshandle.go b/websocket/wshandle.go
index 493d6d3..ad9ef85 100644
--- a/websocket/wshandle.go
+++ b/websocket/wshandle.go
@@ -38,6 +38,7 @@ type Handler struct {
 	Cfg  *Config
 	conn *wss.Conn
 	mux  *sync.Mutex
+	emux sync.Mutex
 	err  error
 }
 
@@ -78,7 +79,7 @@ func NewHandler(cfg *Config) (wh *Handler, err error) {
 		}
 	}
 	if err == nil && conn != nil {
-		wh = &Handler{cfg, conn, &sync.Mutex{}, nil}
+		wh = &Handler{Cfg: cfg, conn: conn, mux: &sync.Mutex{}}
 		if cfg.OnOpen != nil {
 			cfg.OnOpen(wh)
 		}
@@ -94,14 +95,14 @@ func (wh *Handler) sendws(bs []byte) (err error) {
 }
 
 func (wh *Handler) Send(bs []byte) error {
-	if wh.err != nil {
-		return wh.err
+	if err := wh.Error(); err != nil {
+		return err
 	}
 	return wh.sendws(bs)
 }
 
 func (wh *Handler) Close() (err error) {
-	wh.err = errors.New("connection is closed")
+	wh.setError(errors.New("connection is closed"))
 	if wh.conn != nil {
 		err = wh.conn.Close()
 	}
@@ -109,15 +110,23 @@ func (wh *Handler) Close() (err error) {
 }
 
 func (wh *Handler) Error() error {
+	wh.emux.Lock()
+	defer wh.emux.Unlock()
 	return wh.err
 }
 
+func (wh *Handler) setError(err error) {
+	wh.emux.Lock()
+	defer wh.emux.Unlock()
+	wh.err = err
+}
+
 func (wh *Handler) read() {
 	var err error
-	for wh.err == nil {
+	for err = wh.Error(); err == nil; err = wh.Error() {
 		var byt []byte
 		if err = wss.Message.Receive(wh.conn, &byt); err != nil {
-			wh.err = err
+			wh.setError(err)
 			break
 		}
 		if byt != nil && wh.Cfg.OnMessage != nil {
-- 
2.43.0


From 95442882b2e345f80951e106ad6a0c7884aab99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:39 +0000
Subject: [PATCH 30/33] fix: StrToTimeFormat does not panic on systems without
 a time zone database

---
 util/encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/encode.go b/util/encode.go
index 235f20a..8849fa9 100644
--- a/util/encode.go
+++ b/util/encode.go
@@ -112,7 +112,10 @@ func MatchString(pattern string, s string) bool {
 }
 
 func StrToTimeFormat(s string) (t time.Time, err error) {
-	l, _ := time.LoadLocation("Asia/Shanghai")
+	l, e := time.LoadLocation("Asia/Shanghai")
+	if e != nil {
+		l = time.FixedZone("CST", 8*60*60)
+	}
 	t, err = time.ParseInLocation("2006-01-02 15:04:05", s, l)
 	return
 }
-- 
2.43.0


From 0a6e39401d172896660dabaab41e2c517026ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:39 +0000
Subject: [PATCH 31/33] fix: RandInt64Strict reports a limit that is not
 positive instead of panicking

---
 util/encode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/encode.go b/util/encode.go
index 8849fa9..15bdeb3 100644
--- a/util/encode.go
+++ b/util/encode.go
@@ -12,6 +12,7 @@ import (
 	"crypto/rand"
 	"crypto/sha1"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"github.com/donnie4w/gofer/uuid"
 	"golang.org/x/crypto/blake2b"
@@ -96,6 +97,9 @@ func RandUint(i uint) uint {
 }
 
 func RandInt64Strict(i int64) (int64, error) {
+	if i <= 0 {
+		return 0, errors.New("the limit must be positive")
+	}
 	if r, err := rand.Int(rand.Reader, big.NewInt(i)); err == nil {
 		return r.Int64(), err
 	} else {
-- 
2.43.0


From 47f38bea386cb2b27f40666e7b2e427fc626c679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:39 +0000
Subject: [PATCH 32/33] fix: RandUint does not panic for limits beyond the
 largest int

---
 util/encode.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/util/encode.go b/util/encode.go
index 15bdeb3..9e06895 100644
--- a/util/encode.go
+++ b/util/encode.go
@@ -93,7 +93,15 @@ func FNVHash64(data []byte) uint64 {
 }
 
 func RandUint(i uint) uint {
-	return uint(mathrand.New(mathrand.NewSource(uuid.NewUUID().Int64())).Intn(int(i)))
+	r := mathrand.New(mathrand.NewSource(uuid.NewUUID().Int64()))
+	if int(i) < 0 {
+		for {
+			if v := uint(r.Uint64()); v < i {
+				return v
+			}
+		}
+	}
+	return uint(r.Intn(int(i)))
 }
 
 func RandInt64Strict(i int64) (int64, error) {
-- 
2.43.0


From 86de2bcf19ba78dd810e7e758763723f765cdfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:37 +0000
Subject: [PATCH 33/33] fix: Map and MapL report a nil value that Put replaces
 as existing

---
 hashmap/map.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hashmap/map.go b/hashmap/map.go
index ae85b48..35fa823 100644
--- a/hashmap/map.go
+++ b/hashmap/map.go
@@ -28,8 +28,11 @@ func NewMapL[K any, V any]() *MapL[K, V] {
 func (t *MapL[K, V]) Put(key K, value V) (prev V, b bool) {
 	if v, ok := t.m.Swap(key, value); !ok {
 		atomic.AddInt64(&t.len, 1)
-	} else if v != nil {
-		prev, b = v.(V), true
+	} else {
+		if v != nil {
+			prev = v.(V)
+		}
+		b = true
 	}
 	return
 }
@@ -85,8 +88,11 @@ func NewMap[K any, V any]() *Map[K, V] {
 }
 
 func (t *Map[K, V]) Put(key K, value V) (prev V, b bool) {
-	if v, ok := t.m.Swap(key, value); ok && v != nil {
-		prev, b = v.(V), true
+	if v, ok := t.m.Swap(key, value); ok {
+		if v != nil {
+			prev = v.(V)
+		}
+		b = true
 	}
 	return
 }
-- 
2.43.0

