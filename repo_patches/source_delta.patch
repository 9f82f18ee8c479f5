From d3a9569c188cd0dde46681b3891a9e9e17dee599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:08 +0000
Subject: [PATCH 01/52] fix: Map.Put and MapL.Put report a replaced nil value

---
 hashmap/map.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hashmap/map.go b/hashmap/map.go
index 1ba9b7a..e5a2207 100644
--- a/hashmap/map.go
+++ b/hashmap/map.go
@@ -26,11 +26,13 @@ func NewMapL[K any, V any]() *MapL[K, V] {
 }
 
 func (t *MapL[K, V]) Put(key K, value V) (prev V, b bool) {
-	if v, ok := t.m.Swap(key, value); !ok {
+	v, ok := t.m.Swap(key, value)
+	if !ok {
 		atomic.AddInt64(&t.len, 1)
 	} else if v != nil {
-		prev, b = v.(V), true
+		prev = v.(V)
 	}
+	b = ok
 	return
 }
 
@@ -85,9 +87,11 @@ func NewMap[K any, V any]() *Map[K, V] {
 }
 
 func (t *Map[K, V]) Put(key K, value V) (prev V, b bool) {
-	if v, ok := t.m.Swap(key, value); ok && v != nil {
-		prev, b = v.(V), true
+	v, ok := t.m.Swap(key, value)
+	if v != nil {
+		prev = v.(V)
 	}
+	b = ok
 	return
 }
 
-- 
2.43.0


From b358eef90c43c368bafa7a3c20c8b521103b9f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:08 +0000
Subject: [PATCH 02/52] fix: MapL.Len reads the counter atomically

---
 hashmap/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashmap/map.go b/hashmap/map.go
index e5a2207..3a3ef88 100644
--- a/hashmap/map.go
+++ b/hashmap/map.go
@@ -73,7 +73,7 @@ func (t *MapL[K, V]) Range(f func(k K, v V) bool) {
 }
 
 func (t *MapL[K, V]) Len() int64 {
-	return t.len
+	return atomic.LoadInt64(&t.len)
 }
 
 // Map  Define a generic synchronized map structure using sync.Map as the underlying data structure.
-- 
2.43.0


From 3f38035356a2b6bbbe22000f43d59d1b1393759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:08 +0000
Subject: [PATCH 03/52] fix: LimitMap holds at most capacity entries

---
 hashmap/limitmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashmap/limitmap.go b/hashmap/limitmap.go
index c7e4eaf..4688fde 100644
--- a/hashmap/limitmap.go
+++ b/hashmap/limitmap.go
@@ -53,7 +53,7 @@ func (mc *LimitMap[K, V]) Put(key K, value V) (prev V, b bool) {
 		mc.order.MoveToFront(elem)
 		return
 	}
-	if len(mc.cache) > mc.capacity {
+	if len(mc.cache) >= mc.capacity {
 		oldest := mc.order.Back()
 		if oldest != nil {
 			mc.order.Remove(oldest)
-- 
2.43.0


From 4a10808e0770a1d5839e9a2abba258dd47768cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:43 +0000
Subject: [PATCH 04/52] fix: LimitHashMap stores and returns nil interface
 values

---
 hashmap/limithashmap.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hashmap/limithashmap.go b/hashmap/limithashmap.go
index c3aeb06..be1a28b 100644
--- a/hashmap/limithashmap.go
+++ b/hashmap/limithashmap.go
@@ -151,8 +151,9 @@ func (c *LimitHashMap[K, V]) Get(key K) (r V, b bool) {
 	hashedKey := c.hashFunc(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
 		if v := ele.Value.(*entry).value; v != nil {
-			return v.(V), true
+			r = v.(V)
 		}
+		return r, true
 	}
 	return
 }
@@ -164,7 +165,10 @@ func (c *LimitHashMap[K, V]) Put(key K, value V) (prev V, b bool) {
 
 	hashedKey := c.hashFunc(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
-		prev, b = ele.Value.(*entry).value.(V), true
+		if v := ele.Value.(*entry).value; v != nil {
+			prev = v.(V)
+		}
+		b = true
 		ele.Value.(*entry).value = value
 		return
 	}
-- 
2.43.0


From fa5230a109e754deecb0b5690a2a783e23e8afd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:43 +0000
Subject: [PATCH 05/52] fix: LimitHashMap with fewer entries than segments
 keeps to its capacity

---
 hashmap/limithashmap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hashmap/limithashmap.go b/hashmap/limithashmap.go
index be1a28b..e914868 100644
--- a/hashmap/limithashmap.go
+++ b/hashmap/limithashmap.go
@@ -58,6 +58,10 @@ func NewLimitHashMap[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint
 //
 //	*LimitHashMap[K, V] - A new instance of a capacity-limited LimitHashMap divided into segments.
 func NewLimitHashMapWithSegment[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 | uint16 | uint32 | float64 | float32 | uintptr | string, V any](capacity, segmentNumber int) *LimitHashMap[K, V] {
+	if segmentNumber > capacity {
+		// every segment holds at least one entry
+		segmentNumber = max(capacity, 1)
+	}
 	segments := make([]*segment, segmentNumber)
 	for i := 0; i < segmentNumber; i++ {
 		segments[i] = &segment{
-- 
2.43.0


From 069f1d080291372dcbf83cf0c8827906353d527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:06 +0000
Subject: [PATCH 06/52] fix: LimitHashMap keeps strings with equal hashes apart

---
 hashmap/limithashmap.go | 45 ++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/hashmap/limithashmap.go b/hashmap/limithashmap.go
index e914868..a33f2dc 100644
--- a/hashmap/limithashmap.go
+++ b/hashmap/limithashmap.go
@@ -17,7 +17,7 @@ import (
 const numSegments = 1 << 6
 
 type segment struct {
-	cache map[uint64]*list.Element
+	cache map[any]*list.Element
 	order *list.List
 	mu    sync.RWMutex
 }
@@ -31,9 +31,9 @@ type LimitHashMap[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 |
 }
 
 type entry struct {
-	hashedKey uint64
-	key       any
-	value     any
+	cacheKey any
+	key      any
+	value    any
 }
 
 // NewLimitHashMap creates a new LimitHashMap with a specified capacity.
@@ -65,7 +65,7 @@ func NewLimitHashMapWithSegment[K int | int64 | int8 | int16 | int32 | uint | ui
 	segments := make([]*segment, segmentNumber)
 	for i := 0; i < segmentNumber; i++ {
 		segments[i] = &segment{
-			cache: make(map[uint64]*list.Element),
+			cache: make(map[any]*list.Element),
 			order: list.New(),
 		}
 	}
@@ -147,13 +147,22 @@ func (c *LimitHashMap[K, V]) getSegment(key K) *segment {
 	return c.segments[uint(hashedKey%uint64(c.segmentNumber))]
 }
 
+// cacheKey identifies the key within its segment. Numbers are identified by their hash, which is unique;
+// strings by themselves, since different strings may have the same hash.
+func (c *LimitHashMap[K, V]) cacheKey(key K) any {
+	if s, ok := any(key).(string); ok {
+		return s
+	}
+	return c.hashFunc(key)
+}
+
 func (c *LimitHashMap[K, V]) Get(key K) (r V, b bool) {
 	segment := c.getSegment(key)
 	segment.mu.RLock()
 	defer segment.mu.RUnlock()
 
-	hashedKey := c.hashFunc(key)
-	if ele, ok := segment.cache[hashedKey]; ok {
+	cacheKey := c.cacheKey(key)
+	if ele, ok := segment.cache[cacheKey]; ok {
 		if v := ele.Value.(*entry).value; v != nil {
 			r = v.(V)
 		}
@@ -167,8 +176,8 @@ func (c *LimitHashMap[K, V]) Put(key K, value V) (prev V, b bool) {
 	segment.mu.Lock()
 	defer segment.mu.Unlock()
 
-	hashedKey := c.hashFunc(key)
-	if ele, ok := segment.cache[hashedKey]; ok {
+	cacheKey := c.cacheKey(key)
+	if ele, ok := segment.cache[cacheKey]; ok {
 		if v := ele.Value.(*entry).value; v != nil {
 			prev = v.(V)
 		}
@@ -181,12 +190,12 @@ func (c *LimitHashMap[K, V]) Put(key K, value V) (prev V, b bool) {
 		oldest := segment.order.Back()
 		if oldest != nil {
 			segment.order.Remove(oldest)
-			delete(segment.cache, oldest.Value.(*entry).hashedKey)
+			delete(segment.cache, oldest.Value.(*entry).cacheKey)
 		}
 	}
 
-	ele := segment.order.PushFront(&entry{hashedKey: hashedKey, key: key, value: value})
-	segment.cache[hashedKey] = ele
+	ele := segment.order.PushFront(&entry{cacheKey: cacheKey, key: key, value: value})
+	segment.cache[cacheKey] = ele
 	return
 }
 
@@ -195,10 +204,10 @@ func (c *LimitHashMap[K, V]) Del(key K) {
 	segment.mu.Lock()
 	defer segment.mu.Unlock()
 
-	hashedKey := c.hashFunc(key)
-	if ele, ok := segment.cache[hashedKey]; ok {
+	cacheKey := c.cacheKey(key)
+	if ele, ok := segment.cache[cacheKey]; ok {
 		segment.order.Remove(ele)
-		delete(segment.cache, hashedKey)
+		delete(segment.cache, cacheKey)
 	}
 }
 
@@ -207,15 +216,15 @@ func (c *LimitHashMap[K, V]) Contains(key K) bool {
 	segment.mu.RLock()
 	defer segment.mu.RUnlock()
 
-	hashedKey := c.hashFunc(key)
-	_, ok := segment.cache[hashedKey]
+	cacheKey := c.cacheKey(key)
+	_, ok := segment.cache[cacheKey]
 	return ok
 }
 
 func (c *LimitHashMap[K, V]) Clear() {
 	for _, segment := range c.segments {
 		segment.mu.Lock()
-		segment.cache = make(map[uint64]*list.Element)
+		segment.cache = make(map[any]*list.Element)
 		segment.order.Init()
 		segment.mu.Unlock()
 	}
-- 
2.43.0


From eb5d6a4afd81e0112fa9bfc530216010ad6a3d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:06 +0000
Subject: [PATCH 07/52] fix: LinkedHashMap.LoadOrStore keeps a loaded value and
 returns a stored one

---
 hashmap/linkedhashmap.go | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/hashmap/linkedhashmap.go b/hashmap/linkedhashmap.go
index 88f20ae..b1073a1 100644
--- a/hashmap/linkedhashmap.go
+++ b/hashmap/linkedhashmap.go
@@ -54,27 +54,22 @@ func (t *LinkedHashMap[K, V]) Put(k K, v V) {
 }
 
 func (t *LinkedHashMap[K, V]) LoadOrStore(k K, v V) (actual V, loaded bool) {
-	kv := &entrykv[K, V]{k, v}
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	elem := t.list.PushFront(kv)
-	if preelem, ok := t.m.Swap(k, elem); !ok {
-		t.count++
-		if t.count > t.limit {
-			if oldest := t.list.Back(); oldest != nil {
-				t.list.Remove(oldest)
-				t.m.LoadAndDelete(oldest.Value.(*entrykv[K, V]).key)
-			}
-			t.count--
-		}
-	} else if preelem != nil {
-		t.list.Remove(preelem.(*list.Element))
-		if v := preelem.(*list.Element).Value; v != nil {
-			actual = v.(*entrykv[K, V]).value
-			loaded = true
+	if elem, ok := t.m.Load(k); ok {
+		t.list.MoveToFront(elem.(*list.Element))
+		return elem.(*list.Element).Value.(*entrykv[K, V]).value, true
+	}
+	t.m.Store(k, t.list.PushFront(&entrykv[K, V]{k, v}))
+	t.count++
+	if t.count > t.limit {
+		if oldest := t.list.Back(); oldest != nil {
+			t.list.Remove(oldest)
+			t.m.LoadAndDelete(oldest.Value.(*entrykv[K, V]).key)
 		}
+		t.count--
 	}
-	return
+	return v, false
 }
 
 func (t *LinkedHashMap[K, V]) Get(k K) (_r V, b bool) {
-- 
2.43.0


From 5cb6731d9c936acb0ce93dd75114ba06ddee76ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:06 +0000
Subject: [PATCH 08/52] fix: LinkedHashMap.Clear does not replace the map under
 concurrent readers

---
 hashmap/linkedhashmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashmap/linkedhashmap.go b/hashmap/linkedhashmap.go
index b1073a1..9f601cb 100644
--- a/hashmap/linkedhashmap.go
+++ b/hashmap/linkedhashmap.go
@@ -123,7 +123,7 @@ func (t *LinkedHashMap[K, V]) Clear() {
 	t.mu.Lock()
 	defer t.mu.Unlock()
 
-	t.m = &sync.Map{}
+	t.m.Clear()
 	t.list.Init()
 	t.count = 0
 }
-- 
2.43.0


From f53708c79d20d3db7a1ad45b339f9013aa52fa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:26 +0000
Subject: [PATCH 09/52] fix: Consistenthash lookups on a ring whose last node
 was deleted

---
 hashmap/consistenthash.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hashmap/consistenthash.go b/hashmap/consistenthash.go
index d8a9c7f..6237dbb 100644
--- a/hashmap/consistenthash.go
+++ b/hashmap/consistenthash.go
@@ -67,7 +67,7 @@ func (t *Consistenthash) Add(keys ...int64) {
 func (t *Consistenthash) Get(value int64) (node int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if t.keys == nil {
+	if len(t.keys) == 0 {
 		return
 	}
 	keyu64 := hash(int64ToBytes(value))
@@ -82,7 +82,7 @@ func (t *Consistenthash) Get(value int64) (node int64, ok bool) {
 func (t *Consistenthash) GetStr(value string) (node int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if t.keys == nil {
+	if len(t.keys) == 0 {
 		return
 	}
 	keyu64 := hash([]byte(value))
@@ -97,7 +97,7 @@ func (t *Consistenthash) GetStr(value string) (node int64, ok bool) {
 func (t *Consistenthash) GetNextNodeStr(value string, step int) (nodes []int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if t.keys == nil {
+	if len(t.keys) == 0 {
 		return
 	}
 	keyu64 := hash([]byte(value))
-- 
2.43.0


From f072751b1f7de2ef748aa336389e850ed072d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:26 +0000
Subject: [PATCH 10/52] fix: GetNextNodeStr goes on at the start of the ring

---
 hashmap/consistenthash.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hashmap/consistenthash.go b/hashmap/consistenthash.go
index 6237dbb..0425566 100644
--- a/hashmap/consistenthash.go
+++ b/hashmap/consistenthash.go
@@ -108,8 +108,9 @@ func (t *Consistenthash) GetNextNodeStr(value string, step int) (nodes []int64,
 	n1, ok := t.m.Get(t.keys[idx])
 	m := map[int64]int8{}
 	nodes = make([]int64, 0)
-	for idx < len(t.keys)-1 {
-		idx++
+	for range t.keys {
+		// the ring has no end: after the last key comes the first
+		idx = (idx + 1) % len(t.keys)
 		if node, ok := t.m.Get(t.keys[idx]); ok && node != n1 {
 			if _, ok := m[node]; !ok {
 				m[node] = 0
-- 
2.43.0


From cb8f4f6e3310d289824928cb3f7964e376f58447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:26 +0000
Subject: [PATCH 11/52] fix: ring points shared by several nodes do not depend
 on the order of Add and Del

---
 hashmap/consistenthash.go | 67 ++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 32 deletions(-)

diff --git a/hashmap/consistenthash.go b/hashmap/consistenthash.go
index 0425566..f7b80dc 100644
--- a/hashmap/consistenthash.go
+++ b/hashmap/consistenthash.go
@@ -26,10 +26,15 @@ func hash(bs []byte) uint64 {
 	return crc64.Checksum(bs, crc64.MakeTable(crc64.ECMA))
 }
 
+// point is a place of a node on the ring. Nodes may share a place: the smallest of them comes first.
+type point struct {
+	hash uint64
+	node int64
+}
+
 type Consistenthash struct {
 	replicas int
-	keys     []uint64
-	m        *Map[uint64, int64]
+	points   []point
 	mux      *sync.RWMutex
 	_m       map[int64]int8
 }
@@ -37,7 +42,6 @@ type Consistenthash struct {
 func NewConsistenthash(replicas int) (m *Consistenthash) {
 	m = &Consistenthash{
 		replicas: replicas,
-		m:        NewMap[uint64, int64](),
 		mux:      &sync.RWMutex{},
 		_m:       map[int64]int8{},
 	}
@@ -56,62 +60,64 @@ func (t *Consistenthash) Add(keys ...int64) {
 				buf.Write(int64ToBytes(key))
 				h := hash(buf.Bytes())
 				buf.Free()
-				t.keys = append(t.keys, h)
-				t.m.Put(h, key)
+				t.points = append(t.points, point{h, key})
 			}
 		}
 	}
-	sort.Slice(t.keys, func(i, j int) bool { return t.keys[i] < t.keys[j] })
+	sort.Slice(t.points, func(i, j int) bool {
+		if t.points[i].hash != t.points[j].hash {
+			return t.points[i].hash < t.points[j].hash
+		}
+		return t.points[i].node < t.points[j].node
+	})
 }
 
 func (t *Consistenthash) Get(value int64) (node int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if len(t.keys) == 0 {
+	if len(t.points) == 0 {
 		return
 	}
 	keyu64 := hash(int64ToBytes(value))
-	idx := sort.Search(len(t.keys), func(i int) bool { return t.keys[i] >= keyu64 })
-	if idx >= len(t.keys) {
+	idx := sort.Search(len(t.points), func(i int) bool { return t.points[i].hash >= keyu64 })
+	if idx >= len(t.points) {
 		idx = 0
 	}
-	node, ok = t.m.Get(t.keys[idx])
-	return
+	return t.points[idx].node, true
 }
 
 func (t *Consistenthash) GetStr(value string) (node int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if len(t.keys) == 0 {
+	if len(t.points) == 0 {
 		return
 	}
 	keyu64 := hash([]byte(value))
-	idx := sort.Search(len(t.keys), func(i int) bool { return t.keys[i] >= keyu64 })
-	if idx >= len(t.keys) {
+	idx := sort.Search(len(t.points), func(i int) bool { return t.points[i].hash >= keyu64 })
+	if idx >= len(t.points) {
 		idx = 0
 	}
-	node, ok = t.m.Get(t.keys[idx])
-	return
+	return t.points[idx].node, true
 }
 
 func (t *Consistenthash) GetNextNodeStr(value string, step int) (nodes []int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if len(t.keys) == 0 {
+	if len(t.points) == 0 {
 		return
 	}
 	keyu64 := hash([]byte(value))
-	idx := sort.Search(len(t.keys), func(i int) bool { return t.keys[i] >= keyu64 })
-	if idx >= len(t.keys) {
+	idx := sort.Search(len(t.points), func(i int) bool { return t.points[i].hash >= keyu64 })
+	if idx >= len(t.points) {
 		idx = 0
 	}
-	n1, ok := t.m.Get(t.keys[idx])
+	n1, ok := t.points[idx].node, true
 	m := map[int64]int8{}
 	nodes = make([]int64, 0)
-	for range t.keys {
+	for range t.points {
 		// the ring has no end: after the last key comes the first
-		idx = (idx + 1) % len(t.keys)
-		if node, ok := t.m.Get(t.keys[idx]); ok && node != n1 {
+		idx = (idx + 1) % len(t.points)
+		if node := t.points[idx].node; node != n1 {
 			if _, ok := m[node]; !ok {
 				m[node] = 0
 				nodes = append(nodes, node)
@@ -128,16 +134,13 @@ func (t *Consistenthash) Del(key int64) {
 	t.mux.Lock()
 	defer t.mux.Unlock()
 	if _, ok := t._m[key]; ok {
-		t.keys = t.keys[:0]
-		t.m.Range(func(k uint64, v int64) bool {
-			if v == key {
-				t.m.Del(k)
-			} else {
-				t.keys = append(t.keys, k)
+		points := t.points[:0]
+		for _, p := range t.points {
+			if p.node != key {
+				points = append(points, p)
 			}
-			return true
-		})
-		sort.Slice(t.keys, func(i, j int) bool { return t.keys[i] < t.keys[j] })
+		}
+		t.points = points
 		delete(t._m, key)
 	}
 }
-- 
2.43.0


From 83b22595b95322c013e0181dab58c014ef02544d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:53 +0000
Subject: [PATCH 12/52] fix: concurrent Add and Contains of BloomFilter do not
 lose items

---
 cache/bloom.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/cache/bloom.go b/cache/bloom.go
index 4a1eb41..3bba315 100644
--- a/cache/bloom.go
+++ b/cache/bloom.go
@@ -20,7 +20,7 @@ type BloomFilter struct {
 	bits          [3][]uint64 // Bit array to store the presence information for each segment.
 	hashCount     int         // Number of hash functions.
 	seeds         []maphash.Seed
-	mux           sync.Mutex
+	mux           sync.RWMutex
 	numCount      atomic.Uint64
 	arraySize     uint64
 	expectedItems uint64
@@ -68,14 +68,16 @@ func (bf *BloomFilter) testBit(index uint64) bool {
 	defer recoverPanic(nil)
 	wordIndex := index / 64
 	bitIndex := index % 64
-	id, prevId := bf.getBitIndex()
+	id, prevId, _ := bf.segments()
 	offset := uint64(1) << bitIndex
-	return (bf.bits[id][wordIndex]&offset) != 0 || (bf.bits[prevId][wordIndex]&offset) != 0
+	return (bf.bits[id] != nil && bf.bits[id][wordIndex]&offset != 0) || (bf.bits[prevId] != nil && bf.bits[prevId][wordIndex]&offset != 0)
 }
 
 // Add adds an item (as byte slice) to the bloom filter using multiple hash functions.
 func (bf *BloomFilter) Add(item []byte) {
 	defer recoverPanic(nil)
+	bf.mux.Lock()
+	defer bf.mux.Unlock()
 	bf.numCount.Add(1)
 	for i := 0; i < bf.hashCount; i++ {
 		index := bf.hash(item, bf.seeds[i]) % (bf.arraySize * 64)
@@ -86,6 +88,8 @@ func (bf *BloomFilter) Add(item []byte) {
 // Contains if an item (as byte slice) is possibly in the bloom filter.
 func (bf *BloomFilter) Contains(item []byte) bool {
 	defer recoverPanic(nil)
+	bf.mux.RLock()
+	defer bf.mux.RUnlock()
 	for i := 0; i < bf.hashCount; i++ {
 		index := bf.hash(item, bf.seeds[i]) % (bf.arraySize * 64)
 		if !bf.testBit(index) {
@@ -95,9 +99,9 @@ func (bf *BloomFilter) Contains(item []byte) bool {
 	return true
 }
 
-func (bf *BloomFilter) getBitIndex() (index, prevIndex int) {
+// segments returns the segment in use, the previous one and the one to be dropped. bf.mux is held.
+func (bf *BloomFilter) segments() (index, prevIndex, rmIndex int) {
 	f := bf.numCount.Load() % (bf.expectedItems*3 + 1)
-	rmIndex := 0
 	if f < bf.expectedItems {
 		index, rmIndex, prevIndex = 0, 1, 2
 	} else if f < bf.expectedItems*2 {
@@ -105,15 +109,15 @@ func (bf *BloomFilter) getBitIndex() (index, prevIndex int) {
 	} else {
 		index, rmIndex, prevIndex = 2, 0, 1
 	}
+	return
+}
+
+// getBitIndex prepares the segment in use for writing. bf.mux is held for writing.
+func (bf *BloomFilter) getBitIndex() (index, prevIndex int) {
+	index, prevIndex, rmIndex := bf.segments()
 	if bf.bits[index] == nil {
-		bf.mux.Lock()
-		if bf.bits[index] == nil {
-			bf.bits[index] = make([]uint64, bf.arraySize)
-		}
-		if bf.bits[rmIndex] != nil {
-			bf.bits[rmIndex] = nil
-		}
-		bf.mux.Unlock()
+		bf.bits[index] = make([]uint64, bf.arraySize)
+		bf.bits[rmIndex] = nil
 	}
 	return
 }
-- 
2.43.0


From 5dd18a1e3019300a0f315f314d2c4d64198d4eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:53 +0000
Subject: [PATCH 13/52] fix: a BloomFilter always has bits to set

---
 cache/bloom.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/bloom.go b/cache/bloom.go
index 3bba315..bc33e8e 100644
--- a/cache/bloom.go
+++ b/cache/bloom.go
@@ -29,6 +29,9 @@ type BloomFilter struct {
 // NewBloomFilter creates a new bloom filter with the specified size, hash function count, and capacity.
 func NewBloomFilter(expectedItems uint64, falsePositiveRate float64) (r *BloomFilter) {
 	m := uint(-float64(expectedItems) * math.Log(falsePositiveRate) / (math.Log(2) * math.Log(2)))
+	if m == 0 {
+		m = 1
+	}
 	k := int(float64(m) / float64(expectedItems) * math.Log(2))
 	if k == 0 {
 		k = 1
-- 
2.43.0


From a884b4d4bca3787008128a8bc55253d0b2d01b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:54 +0000
Subject: [PATCH 14/52] fix: Contains does not combine bits of the two segments
 of a BloomFilter

---
 cache/bloom.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/cache/bloom.go b/cache/bloom.go
index bc33e8e..c486ddf 100644
--- a/cache/bloom.go
+++ b/cache/bloom.go
@@ -66,14 +66,9 @@ func (bf *BloomFilter) setBit(index uint64) {
 	bf.bits[id][wordIndex] |= (uint64(1) << bitIndex)
 }
 
-// testBit checks if the bit at the given index is set (returns true if set, false otherwise).
-func (bf *BloomFilter) testBit(index uint64) bool {
-	defer recoverPanic(nil)
-	wordIndex := index / 64
-	bitIndex := index % 64
-	id, prevId, _ := bf.segments()
-	offset := uint64(1) << bitIndex
-	return (bf.bits[id] != nil && bf.bits[id][wordIndex]&offset != 0) || (bf.bits[prevId] != nil && bf.bits[prevId][wordIndex]&offset != 0)
+// testBit checks if the bit at the given index of a segment is set (returns true if set, false otherwise).
+func (bf *BloomFilter) testBit(id int, index uint64) bool {
+	return bf.bits[id] != nil && bf.bits[id][index/64]&(uint64(1)<<(index%64)) != 0
 }
 
 // Add adds an item (as byte slice) to the bloom filter using multiple hash functions.
@@ -93,13 +88,15 @@ func (bf *BloomFilter) Contains(item []byte) bool {
 	defer recoverPanic(nil)
 	bf.mux.RLock()
 	defer bf.mux.RUnlock()
-	for i := 0; i < bf.hashCount; i++ {
+	// the bits of an item are all in one segment: bits of both together would report many items never added
+	id, prevId, _ := bf.segments()
+	in, inPrev := true, true
+	for i := 0; i < bf.hashCount && (in || inPrev); i++ {
 		index := bf.hash(item, bf.seeds[i]) % (bf.arraySize * 64)
-		if !bf.testBit(index) {
-			return false
-		}
+		in = in && bf.testBit(id, index)
+		inPrev = inPrev && bf.testBit(prevId, index)
 	}
-	return true
+	return in || inPrev
 }
 
 // segments returns the segment in use, the previous one and the one to be dropped. bf.mux is held.
-- 
2.43.0


From e61d0d9f428f0f0e2e529adaefbca9453664283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:46 +0000
Subject: [PATCH 15/52] fix: LimitLock.Cc reads its counters atomically

---
 lock/lock.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lock/lock.go b/lock/lock.go
index 2200a39..0a07551 100644
--- a/lock/lock.go
+++ b/lock/lock.go
@@ -156,7 +156,8 @@ func (ll *LimitLock) Unlock() {
 
 // Cc returns the current concurrency count.
 func (ll *LimitLock) Cc() int64 {
-	return ll.count - ll._count // Difference between acquisitions and releases (always zero)
+	released := atomic.LoadInt64(&ll._count)
+	return atomic.LoadInt64(&ll.count) - released // Difference between acquisitions and releases (always zero)
 }
 
 // LockCount returns the total number of lock acquisitions.
-- 
2.43.0


From e6edfa574b3caa3f4d76fb641561e840e8af445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:46 +0000
Subject: [PATCH 16/52] fix: WaitWithCancel without timeout ends when its
 context is cancelled

---
 lock/await.go     | 10 +++++++++-
 lock/fastawait.go | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lock/await.go b/lock/await.go
index 652e469..e1066bf 100644
--- a/lock/await.go
+++ b/lock/await.go
@@ -109,7 +109,15 @@ func (at *Await[T]) WaitWithCancel(ctx context.Context, idx int64, timeout time.
 			return r, false, nil
 		}
 	} else {
-		r = <-ch
+		select {
+		case <-ctx.Done():
+			defer func() {
+				defer recoverpanic(nil)
+				close(ch)
+			}()
+			return r, true, fmt.Errorf("cancel %d", idx)
+		case r = <-ch:
+		}
 	}
 	return
 }
diff --git a/lock/fastawait.go b/lock/fastawait.go
index 2f562f1..cb351d8 100644
--- a/lock/fastawait.go
+++ b/lock/fastawait.go
@@ -87,7 +87,15 @@ func (fa *FastAwait[T]) WaitWithCancel(ctx context.Context, syncId int64, timeou
 			return
 		}
 	} else {
-		r = <-ch
+		select {
+		case <-ctx.Done():
+			defer func() {
+				defer recoverpanic(nil)
+				close(ch)
+			}()
+			return r, true, fmt.Errorf("wait %d cancel", syncId)
+		case r = <-ch:
+		}
 	}
 	return
 }
-- 
2.43.0


From b3a57ee5ad7d16d887147b136b86753deba71f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:16 +0000
Subject: [PATCH 17/52] fix: GoPool does not leave a queued function behind

---
 pool/gopool/gopool.go | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/pool/gopool/gopool.go b/pool/gopool/gopool.go
index 8539431..818f543 100644
--- a/pool/gopool/gopool.go
+++ b/pool/gopool/gopool.go
@@ -58,7 +58,7 @@ type GoPool struct {
 	count      int64
 	mux        *sync.Mutex
 	funcnPool  chan func()
-	close      bool
+	close      atomic.Bool
 	_closeflag int32
 	tnum       int64
 	ctx        context.Context
@@ -83,7 +83,7 @@ func NewPoolWithFuncLimit(minlimit int64, maxlimit int64, FuncLimit int) *GoPool
 }
 
 func (g *GoPool) Go(f func()) {
-	if !g.close {
+	if !g.close.Load() {
 		g.funcnPool <- f
 		atomic.AddInt64(&g.tnum, 1)
 		if g.mux.TryLock() {
@@ -96,14 +96,14 @@ func (g *GoPool) Go(f func()) {
 
 // NumUnExecu the number of functions not executed
 func (g *GoPool) NumUnExecu() int {
-	return int(g.tnum)
+	return int(atomic.LoadInt64(&g.tnum))
 }
 
 // Close when Close ,the pool will enable goroutine, and the func in the pool will be started with goroutine
 func (g *GoPool) Close() {
 	defer func() { recover() }()
 	if atomic.CompareAndSwapInt32(&g._closeflag, 0, 1) {
-		g.close = true
+		g.close.Store(true)
 		g.cancel()
 		go func() {
 			<-time.After(10 * time.Second)
@@ -115,21 +115,29 @@ func (g *GoPool) Close() {
 
 func (g *GoPool) TurnOff(off bool) {
 	if atomic.CompareAndSwapInt32(&g._closeflag, 0, 0) && off {
-		g.close = true
+		g.close.Store(true)
 	} else if atomic.CompareAndSwapInt32(&g._closeflag, 0, 0) && !off {
-		g.close = false
+		g.close.Store(false)
 	}
 }
 
 func (g *GoPool) funcn() {
 	defer func() { recover() }()
-	defer g.mux.Unlock()
-	g._funcn()
+	for {
+		g._funcn()
+		g.mux.Unlock()
+		// a function queued since the last look found the mutex locked and started nobody
+		if atomic.LoadInt64(&g.tnum) <= 0 || !g.mux.TryLock() {
+			return
+		}
+	}
 }
 
 func (g *GoPool) _funcn() {
-	for f := range g.funcnPool {
-		if g.close {
+	for atomic.LoadInt64(&g.tnum) > 0 {
+		f := <-g.funcnPool
+		if g.close.Load() {
+			atomic.AddInt64(&g.tnum, -1)
 			go f()
 		} else {
 			var t *funcn
@@ -142,16 +150,10 @@ func (g *GoPool) _funcn() {
 			} else {
 				t = <-g.pool
 			}
+			atomic.AddInt64(&g.tnum, -1)
 			t.add(f)
 		}
-		if atomic.AddInt64(&g.tnum, -1) <= 0 {
-			break
-		}
-	}
-	if g.tnum > 0 {
-		g._funcn()
 	}
-	return
 }
 
 func (g *GoPool) put(f *funcn) (ok bool) {
-- 
2.43.0


From 10441541a98a7d81a0c3ccdaaf1ba7bac8ba40b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:16 +0000
Subject: [PATCH 18/52] fix: closing a GoPool loses no function and makes
 nobody panic

---
 pool/gopool/gopool.go | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/pool/gopool/gopool.go b/pool/gopool/gopool.go
index 818f543..ff8f580 100644
--- a/pool/gopool/gopool.go
+++ b/pool/gopool/gopool.go
@@ -11,7 +11,6 @@ import (
 	"context"
 	"sync"
 	"sync/atomic"
-	"time"
 )
 
 type funcn struct {
@@ -26,6 +25,18 @@ func (fc *funcn) add(f func()) {
 	fc.once.Do(func() {
 		go fc.run()
 	})
+	if fc.pool.ctx.Err() != nil {
+		fc.drain() // the worker may have ended before
+	}
+}
+
+// drain starts a function that was given to a worker of a closed pool.
+func (fc *funcn) drain() {
+	select {
+	case f := <-fc.task:
+		go f()
+	default:
+	}
 }
 
 func (fc *funcn) run() {
@@ -41,6 +52,7 @@ func (fc *funcn) run() {
 		case f := <-fc.task:
 			f()
 		case <-fc.pool.ctx.Done():
+			fc.drain()
 			goto END
 		}
 		if !fc.pool.put(fc) {
@@ -105,11 +117,6 @@ func (g *GoPool) Close() {
 	if atomic.CompareAndSwapInt32(&g._closeflag, 0, 1) {
 		g.close.Store(true)
 		g.cancel()
-		go func() {
-			<-time.After(10 * time.Second)
-			close(g.funcnPool)
-		}()
-		close(g.pool)
 	}
 }
 
@@ -144,18 +151,31 @@ func (g *GoPool) _funcn() {
 			if count := atomic.AddInt64(&g.count, 1); count > g.minlimit && count <= g.maxlimit {
 				t = &funcn{task: make(chan func(), 1), id: atomic.AddInt64(&g.id, 1), pool: g}
 			} else if g.id > g.minlimit {
-				t = <-g.pool
+				t = g.idle()
 			} else if id := atomic.AddInt64(&g.id, 1); id <= g.minlimit {
 				t = &funcn{task: make(chan func(), 1), id: id, pool: g}
 			} else {
-				t = <-g.pool
+				t = g.idle()
 			}
 			atomic.AddInt64(&g.tnum, -1)
-			t.add(f)
+			if t != nil {
+				t.add(f)
+			} else {
+				go f()
+			}
 		}
 	}
 }
 
+// idle waits for an idle worker, it returns nil when the pool is closed.
+func (g *GoPool) idle() (t *funcn) {
+	select {
+	case t = <-g.pool:
+	case <-g.ctx.Done():
+	}
+	return
+}
+
 func (g *GoPool) put(f *funcn) (ok bool) {
 	atomic.AddInt64(&g.count, -1)
 	if f.id <= g.minlimit && atomic.CompareAndSwapInt32(&g._closeflag, 0, 0) {
-- 
2.43.0


From 098b4e89849a25501b7771d0c9ea32bd68628824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:54 +0000
Subject: [PATCH 19/52] fix: GoPool keeps to its maximum and works with a
 minimum below one

---
 pool/gopool/gopool.go | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/pool/gopool/gopool.go b/pool/gopool/gopool.go
index ff8f580..be8a8ff 100644
--- a/pool/gopool/gopool.go
+++ b/pool/gopool/gopool.go
@@ -67,7 +67,7 @@ type GoPool struct {
 	minlimit   int64
 	maxlimit   int64
 	id         int64
-	count      int64
+	count      chan struct{} // one for each function running
 	mux        *sync.Mutex
 	funcnPool  chan func()
 	close      atomic.Bool
@@ -82,12 +82,22 @@ func NewPool(minlimit int64, maxlimit int64) *GoPool {
 }
 
 func NewPoolWithFuncLimit(minlimit int64, maxlimit int64, FuncLimit int) *GoPool {
+	if minlimit < 0 {
+		minlimit = 0
+	}
+	if maxlimit < 1 {
+		maxlimit = 1
+	}
+	if FuncLimit < 1 {
+		FuncLimit = 1
+	}
 	p := &GoPool{}
 	p.pool = make(chan *funcn, minlimit)
 	p.minlimit, p.maxlimit = minlimit, maxlimit
 	if maxlimit < minlimit {
 		p.maxlimit = minlimit
 	}
+	p.count = make(chan struct{}, p.maxlimit)
 	p.funcnPool = make(chan func(), FuncLimit)
 	p.mux = &sync.Mutex{}
 	p.ctx, p.cancel = context.WithCancel(context.Background())
@@ -147,16 +157,7 @@ func (g *GoPool) _funcn() {
 			atomic.AddInt64(&g.tnum, -1)
 			go f()
 		} else {
-			var t *funcn
-			if count := atomic.AddInt64(&g.count, 1); count > g.minlimit && count <= g.maxlimit {
-				t = &funcn{task: make(chan func(), 1), id: atomic.AddInt64(&g.id, 1), pool: g}
-			} else if g.id > g.minlimit {
-				t = g.idle()
-			} else if id := atomic.AddInt64(&g.id, 1); id <= g.minlimit {
-				t = &funcn{task: make(chan func(), 1), id: id, pool: g}
-			} else {
-				t = g.idle()
-			}
+			t := g.worker()
 			atomic.AddInt64(&g.tnum, -1)
 			if t != nil {
 				t.add(f)
@@ -167,20 +168,30 @@ func (g *GoPool) _funcn() {
 	}
 }
 
-// idle waits for an idle worker, it returns nil when the pool is closed.
-func (g *GoPool) idle() (t *funcn) {
+// worker waits until another function may run and returns an idle or a new worker for it,
+// nil when the pool is closed.
+func (g *GoPool) worker() (t *funcn) {
 	select {
-	case t = <-g.pool:
+	case g.count <- struct{}{}:
 	case <-g.ctx.Done():
+		return
+	}
+	select {
+	case t = <-g.pool:
+	default:
+		if g.id <= g.minlimit {
+			g.id++ // workers beyond minlimit all have the next id
+		}
+		t = &funcn{task: make(chan func(), 1), id: g.id, pool: g}
 	}
 	return
 }
 
 func (g *GoPool) put(f *funcn) (ok bool) {
-	atomic.AddInt64(&g.count, -1)
 	if f.id <= g.minlimit && atomic.CompareAndSwapInt32(&g._closeflag, 0, 0) {
 		g.pool <- f
 		ok = true
 	}
+	<-g.count
 	return
 }
-- 
2.43.0


From e32539058b6a22227e91014f0afbb886e3e7cf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:54 +0000
Subject: [PATCH 20/52] fix: a panicking function does not end the process when
 the GoPool is closed

---
 pool/gopool/gopool.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pool/gopool/gopool.go b/pool/gopool/gopool.go
index be8a8ff..258bd15 100644
--- a/pool/gopool/gopool.go
+++ b/pool/gopool/gopool.go
@@ -30,11 +30,17 @@ func (fc *funcn) add(f func()) {
 	}
 }
 
+// call runs a function outside the workers, where it must not take the process down by a panic either.
+func call(f func()) {
+	defer func() { recover() }()
+	f()
+}
+
 // drain starts a function that was given to a worker of a closed pool.
 func (fc *funcn) drain() {
 	select {
 	case f := <-fc.task:
-		go f()
+		go call(f)
 	default:
 	}
 }
@@ -112,7 +118,7 @@ func (g *GoPool) Go(f func()) {
 			go g.funcn()
 		}
 	} else {
-		go f()
+		go call(f)
 	}
 }
 
@@ -155,14 +161,14 @@ func (g *GoPool) _funcn() {
 		f := <-g.funcnPool
 		if g.close.Load() {
 			atomic.AddInt64(&g.tnum, -1)
-			go f()
+			go call(f)
 		} else {
 			t := g.worker()
 			atomic.AddInt64(&g.tnum, -1)
 			if t != nil {
 				t.add(f)
 			} else {
-				go f()
+				go call(f)
 			}
 		}
 	}
-- 
2.43.0


From e47f5f1a4af7c339cefe368fae70a742491ea33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:32 +0000
Subject: [PATCH 21/52] fix: fastio writes are complete when acknowledged and
 report their errors

A Write that was queued returned while its slice was only referenced, and could stay in the queue for ever when the goroutine emptying it had just finished. Errors of the batch reached nobody, a failing write made later ones wait for ever, and the offset moved on by bytes that were not written.
---
 fastio/fw.go   | 102 +++++++++++++++++++------------------------------
 fastio/util.go |   9 -----
 2 files changed, 39 insertions(+), 72 deletions(-)

diff --git a/fastio/fw.go b/fastio/fw.go
index 4028d18..68e00ce 100644
--- a/fastio/fw.go
+++ b/fastio/fw.go
@@ -8,7 +8,6 @@
 package fastio
 
 import (
-	"bufio"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -22,45 +21,50 @@ type writer interface {
 type writeData struct {
 	data   []byte
 	offset int64
+	n      int
+	err    error
 	done   chan struct{}
 }
 
 type mwriter struct {
-	ch    chan *writeData
-	mu    sync.RWMutex
-	wc    int32
-	cc    int32
-	fh    *fileHandle
-	ioend bool
+	ch chan *writeData
+	mu sync.Mutex
+	cc int32
+	fh *fileHandle
 }
 
 func newWriter(fh *fileHandle) writer {
-	return &mwriter{fh: fh, ch: make(chan *writeData, 1<<16), ioend: true}
+	return &mwriter{fh: fh, ch: make(chan *writeData, 1<<16)}
 }
 
 func (m *mwriter) WriteSync(bs []byte) (offset int64, err error) {
+	offset, _, err = m.write(bs)
+	return
+}
+
+func (m *mwriter) Write(bs []byte) (n int, err error) {
+	_, n, err = m.write(bs)
+	return
+}
+
+func (m *mwriter) write(bs []byte) (offset int64, n int, err error) {
 	defer atomic.AddInt32(&m.cc, -1)
 	if atomic.AddInt32(&m.cc, 1) <= 1 {
 		m.mu.Lock()
 		defer m.mu.Unlock()
-		if m.wc > 0 {
-			m.ioWrite()
-		}
-		n := 0
+		m.ioWrite()
 		n, err = m.fh.file.Write(bs)
 		offset = m.fh.offset
 		atomic.AddInt64(&m.fh.offset, int64(n))
 		return
 	}
-	atomic.AddInt32(&m.wc, 1)
 	wd := &writeData{data: bs, done: make(chan struct{})}
 	m.ch <- wd
 START:
-	if m.ioend && m.mu.TryLock() {
-		if err = m.ioWrite(); err != nil {
-			return
-		}
+	if m.mu.TryLock() {
+		m.ioWrite()
 		m.mu.Unlock()
+		<-wd.done
 	} else {
 		select {
 		case <-wd.done:
@@ -70,58 +74,30 @@ START:
 		}
 	}
 END:
-	offset = wd.offset
-	return
+	return wd.offset, wd.n, wd.err
 }
 
-func (m *mwriter) Write(bs []byte) (n int, err error) {
-	defer atomic.AddInt32(&m.cc, -1)
-	if atomic.AddInt32(&m.cc, 1) <= 1 {
-		m.mu.RLock()
-		defer m.mu.RUnlock()
-		if m.wc > 0 {
-			m.ioWrite()
-		}
-		if n, err = m.fh.file.Write(bs); n > 0 {
-			atomic.AddInt64(&m.fh.offset, int64(n))
-		}
-		return n, err
-	}
-	atomic.AddInt32(&m.wc, 1)
-	m.ch <- &writeData{data: bs}
-START:
-	if m.ioend && m.mu.TryLock() {
-		if err = m.ioWrite(); err != nil {
-			return
-		}
-		m.mu.Unlock()
-	} else if m.ioend {
-		goto START
+// ioWrite writes everything that is queued with one call and tells those who wait for it.
+// m.mu is held, so what was queued before it was locked has been written when it is unlocked.
+func (m *mwriter) ioWrite() {
+	var batch []*writeData
+	var buf []byte
+	for len(m.ch) > 0 {
+		wd := <-m.ch
+		batch = append(batch, wd)
+		buf = append(buf, wd.data...)
 	}
-	return len(bs), nil
-}
-
-func (m *mwriter) ioWrite() (err error) {
-	if m.wc == 0 {
+	if len(batch) == 0 {
 		return
 	}
-	m.ioend = false
-	defer recoverable(&err)
-	bw := bufio.NewWriter(m.fh.file)
-	for wd := range m.ch {
-		if wd.done != nil {
-			defer func() { close(wd.done) }()
-		}
+	left, err := m.fh.file.Write(buf)
+	for _, wd := range batch {
 		wd.offset = m.fh.offset
-		if _, err = bw.Write(wd.data); err != nil {
-			return
-		}
-		atomic.AddInt64(&m.fh.offset, int64(len(wd.data)))
-		if atomic.AddInt32(&m.wc, -1) == 0 {
-			break
+		if wd.n = min(left, len(wd.data)); wd.n < len(wd.data) {
+			wd.err = err
 		}
+		left -= wd.n
+		atomic.AddInt64(&m.fh.offset, int64(wd.n))
+		close(wd.done)
 	}
-	m.ioend = true
-	err = bw.Flush()
-	return
 }
diff --git a/fastio/util.go b/fastio/util.go
index fb63329..288df78 100644
--- a/fastio/util.go
+++ b/fastio/util.go
@@ -8,7 +8,6 @@
 package fastio
 
 import (
-	"fmt"
 	"io"
 	"os"
 )
@@ -16,11 +15,3 @@ import (
 func offset(file *os.File) (int64, error) {
 	return file.Seek(0, io.SeekEnd)
 }
-
-func recoverable(err *error) {
-	if e := recover(); e != nil {
-		if err != nil {
-			*err = fmt.Errorf("%v", e)
-		}
-	}
-}
-- 
2.43.0


From e23100ddac49a66c45ec7c2afb1fcacae30209b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:10 +0000
Subject: [PATCH 22/52] fix: Buffer.Read removes what it returned and ends with
 io.EOF

A Read that emptied the buffer left the bytes in place, so io.Copy and io.ReadAll never ended.
---
 buffer/buffer.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/buffer/buffer.go b/buffer/buffer.go
index 8e35e2c..21c07bd 100644
--- a/buffer/buffer.go
+++ b/buffer/buffer.go
@@ -93,19 +93,18 @@ func (b *Buffer) Free() {
 }
 
 func (b *Buffer) Len() int {
-	return len([]byte(*b))
+	return len(b.Bytes())
 }
 
 func (b *Buffer) Read(p []byte) (n int, err error) {
-	if b == nil {
+	if b.Len() == 0 {
 		if len(p) == 0 {
 			return 0, nil
 		}
 		return 0, io.EOF
 	}
-	if n = copy(p, *b); n < b.Len() {
-		*b = (*b)[n:]
-	}
+	n = copy(p, *b)
+	*b = (*b)[n:]
 	return n, nil
 }
 
-- 
2.43.0


From c2efce1a289bca4627b7f10db3cab5742c7cdc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:10 +0000
Subject: [PATCH 23/52] fix: Buffer.WriteInt32 reports the four bytes it wrote

---
 buffer/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buffer/buffer.go b/buffer/buffer.go
index 21c07bd..a1e61c2 100644
--- a/buffer/buffer.go
+++ b/buffer/buffer.go
@@ -64,7 +64,7 @@ func (b *Buffer) WriteString(s string) (int, error) {
 func (b *Buffer) WriteInt32(i int) (int, error) {
 	if b != nil {
 		*b = append(*b, int32ToBytes(int32(i))...)
-		return 8, nil
+		return 4, nil
 	} else {
 		return 0, fmt.Errorf("WriteInt32: buffer is nil")
 	}
-- 
2.43.0


From 41829b5e4da49294c5864ed8beb4124cae5cadcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:10 +0000
Subject: [PATCH 24/52] fix: BufferPool.Put reports false for nil

---
 pool/buffer/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pool/buffer/buffer.go b/pool/buffer/buffer.go
index be8b532..d0ffc4b 100644
--- a/pool/buffer/buffer.go
+++ b/pool/buffer/buffer.go
@@ -41,7 +41,7 @@ func (this *BufferPool) Put(buf *bytes.Buffer) (ok bool) {
 		this.pool[pre].Put(buf)
 		ok = true
 	}
-	return true
+	return
 }
 
 func (this *BufferPool) getRouter(len int) (pre int) {
-- 
2.43.0


From ea223fcd7fa27e7500107b0d9a13a7520ea445de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:59 +0000
Subject: [PATCH 25/52] fix: Reset and Len of a nil Buffer do not panic

---
 buffer/buffer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/buffer/buffer.go b/buffer/buffer.go
index a1e61c2..d094952 100644
--- a/buffer/buffer.go
+++ b/buffer/buffer.go
@@ -40,7 +40,9 @@ func NewBufferBySlice(bs []byte) *Buffer {
 type Buffer []byte
 
 func (b *Buffer) Reset() {
-	*b = (*b)[:0]
+	if b != nil {
+		*b = (*b)[:0]
+	}
 }
 
 func (b *Buffer) Write(p []byte) (int, error) {
-- 
2.43.0


From 48ae91ac6e0312abfd3c2ee30caa301f900a2807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:46 +0000
Subject: [PATCH 26/52] fix: Mmap rejects negative and overflowing positions

They passed the size check, moved nothing or panicked when the bytes were copied, and a negative start offset made the first Append panic.
---
 mmap/mmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmap/mmap.go b/mmap/mmap.go
index a999493..0df3801 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -28,7 +28,7 @@ func NewMMAP(f *os.File, startOffset int64) (m *Mmap, err error) {
 	if err != nil {
 		return nil, err
 	}
-	if startOffset >= fif.Size() {
+	if startOffset < 0 || startOffset >= fif.Size() {
 		return nil, errors.New("offset Exceeds the file limit")
 	}
 	m = &Mmap{file: f, _mmap: _mmap, maxsize: fif.Size(), mux: &sync.Mutex{}, offset: startOffset}
@@ -66,7 +66,7 @@ func (t *Mmap) AppendSync(bs []byte) (n int64, err error) {
 
 func (t *Mmap) WriteAt(bs []byte, offset int) (err error) {
 	t.mux.Lock()
-	if offset+len(bs) > int(t.maxsize) {
+	if offset < 0 || offset > int(t.maxsize)-len(bs) {
 		err = errors.New("exceeding file size limit")
 		t.mux.Unlock()
 		return
-- 
2.43.0


From 2bb58989e5175ed8aece414abf1fd76264f6d844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:46 +0000
Subject: [PATCH 27/52] fix: an empty AppendSync at the end of an Mmap does not
 panic

---
 mmap/sync_unix.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmap/sync_unix.go b/mmap/sync_unix.go
index e5f1826..b832038 100644
--- a/mmap/sync_unix.go
+++ b/mmap/sync_unix.go
@@ -19,6 +19,9 @@ import (
 )
 
 func mmapSyncToDisk(file *os.File, mappedMemory []byte, n int64, length int) (err error) {
+	if length == 0 {
+		return nil
+	}
 	pageSize := int64(unix.Getpagesize())
 	var ptr unsafe.Pointer
 	var leng uintptr
-- 
2.43.0


From 53109bb2bf6085d7a10bef753138d356bf011ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:51 +0000
Subject: [PATCH 28/52] fix: UUID.Equals compares the bytes, not the pointers

---
 uuid/uuid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 1614be8..9bf48b6 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -78,7 +78,7 @@ func (u *UUID) Equals(other *UUID) bool {
 	if other == nil {
 		return false
 	}
-	return u == other
+	return *u == *other
 }
 
 func (u *UUID) Variant() byte {
-- 
2.43.0


From 123460777dd116cdf9b6cda2272040e9b7dec704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:51 +0000
Subject: [PATCH 29/52] fix: uuid.Parse rejects strings without the dashes

---
 uuid/uuid.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 9bf48b6..81991da 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -96,6 +96,9 @@ func Parse(uuidStr string) (*UUID, error) {
 	if len(uuidStr) != 36 {
 		return nil, errors.New("invalid UUID string length")
 	}
+	if uuidStr[8] != '-' || uuidStr[13] != '-' || uuidStr[18] != '-' || uuidStr[23] != '-' {
+		return nil, errors.New("invalid UUID string format")
+	}
 	var uuid UUID
 	strippedUUID := []byte(uuidStr[:8] + uuidStr[9:13] + uuidStr[14:18] + uuidStr[19:23] + uuidStr[24:])
 	if _, err := hex.Decode(uuid[:], strippedUUID); err != nil {
-- 
2.43.0


From c78ee1ab6a88fc541d1e77424d0e6e25bd129deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:38 +0000
Subject: [PATCH 30/52] fix: util.Zlib returns the whole stream

The compressor was closed after the bytes were taken, so only the header was returned.
---
 util/compress.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/compress.go b/util/compress.go
index a1233fb..4848ec1 100644
--- a/util/compress.go
+++ b/util/compress.go
@@ -19,10 +19,12 @@ func Zlib(bs []byte) (_r []byte, err error) {
 	var buf bytes.Buffer
 	var compressor *zlib.Writer
 	if compressor, err = zlib.NewWriterLevel(&buf, zlib.DefaultCompression); err == nil {
-		defer compressor.Close()
 		if _, err = compressor.Write(bs); err != nil {
 			return nil, err
 		}
+		if err = compressor.Close(); err != nil {
+			return nil, err
+		}
 		_r = buf.Bytes()
 	} else {
 		_r = bs
-- 
2.43.0


From 8d28650dab3d099e174ffa451ccd458b49457adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:38 +0000
Subject: [PATCH 31/52] fix: ZlibLevel ends the stream

It was flushed but not closed, so UnZlib reported an unexpected end.
---
 compress/compress.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/compress/compress.go b/compress/compress.go
index e834463..eeed2c8 100644
--- a/compress/compress.go
+++ b/compress/compress.go
@@ -32,9 +32,12 @@ func ZlibLevel(bs []byte, level int) (_r []byte, err error) {
 	var buf bytes.Buffer
 	var compressor *zlib.Writer
 	if compressor, err = zlib.NewWriterLevel(&buf, level); err == nil {
-		defer compressor.Close()
-		compressor.Write(bs)
-		compressor.Flush()
+		if _, err = compressor.Write(bs); err != nil {
+			return nil, err
+		}
+		if err = compressor.Close(); err != nil {
+			return nil, err
+		}
 		_r = buf.Bytes()
 	} else {
 		_r = bs
-- 
2.43.0


From ea4ef4bd6a333a060f558a4dd0b6acfe666162bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:38 +0000
Subject: [PATCH 32/52] fix: util.UnZlib and util.UnGzip report broken streams

Read errors were dropped, so truncated or corrupted input passed as shorter data.
---
 util/compress.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/util/compress.go b/util/compress.go
index 4848ec1..0e8385a 100644
--- a/util/compress.go
+++ b/util/compress.go
@@ -37,7 +37,9 @@ func UnZlib(bs []byte) (_r []byte, err error) {
 	var read io.ReadCloser
 	if read, err = zlib.NewReader(bytes.NewReader(bs)); err == nil {
 		defer read.Close()
-		io.Copy(&obuf, read)
+		if _, err = io.Copy(&obuf, read); err != nil {
+			return nil, err
+		}
 		_r = obuf.Bytes()
 	}
 	return
@@ -53,15 +55,7 @@ func Gzip(bs []byte) (buf bytes.Buffer, err error) {
 func UnGzip(bs []byte) (_bb bytes.Buffer, err error) {
 	if gz, er := gzip.NewReader(bytes.NewBuffer(bs)); er == nil {
 		defer gz.Close()
-		var bs = make([]byte, 1024)
-		for {
-			var n int
-			n, err := gz.Read(bs)
-			if (err != nil && err != io.EOF) || n == 0 {
-				break
-			}
-			_bb.Write(bs[:n])
-		}
+		_, err = io.Copy(&_bb, gz)
 	} else {
 		err = er
 	}
-- 
2.43.0


From f8c087f4e044fb78b3389871d6682407024aaa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:39 +0000
Subject: [PATCH 33/52] fix: base58 decoding rejects numbers beyond 64 bits

---
 base58/base58.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/base58/base58.go b/base58/base58.go
index 77639ca..e19dc02 100644
--- a/base58/base58.go
+++ b/base58/base58.go
@@ -8,7 +8,10 @@
 
 package base58
 
-import "bytes"
+import (
+	"bytes"
+	"math"
+)
 
 var b58Alphabet = []byte("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz")
 
@@ -34,6 +37,9 @@ func DecodeForInt64(bs []byte) (_r uint64, ok bool) {
 	defer func() { recover() }()
 	for _, b := range bs {
 		if idx := bytes.IndexByte(b58Alphabet, b); idx >= 0 {
+			if _r > (math.MaxUint64-uint64(idx))/58 {
+				return 0, false
+			}
 			_r *= 58
 			_r += uint64(idx)
 		} else {
-- 
2.43.0


From dae727478632f8dcf288a141ce6d4151387d0937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:15 +0000
Subject: [PATCH 34/52] fix: RandUint does not panic for arguments above MaxInt

---
 util/encode.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/util/encode.go b/util/encode.go
index ff04ae3..3191620 100644
--- a/util/encode.go
+++ b/util/encode.go
@@ -20,6 +20,7 @@ import (
 	"hash/crc64"
 	"hash/fnv"
 	"hash/maphash"
+	"math"
 	"math/big"
 	mathrand "math/rand"
 	"os"
@@ -92,7 +93,15 @@ func FNVHash64(data []byte) uint64 {
 }
 
 func RandUint(i uint) uint {
-	return uint(mathrand.New(mathrand.NewSource(uuid.NewUUID().Int64())).Intn(int(i)))
+	r := mathrand.New(mathrand.NewSource(uuid.NewUUID().Int64()))
+	if i > math.MaxInt {
+		for {
+			if v := uint(r.Uint64()); v < i {
+				return v
+			}
+		}
+	}
+	return uint(r.Intn(int(i)))
 }
 
 func RandInt64Strict(i int64) (int64, error) {
-- 
2.43.0


From d29e40d45d03353aa6833b7893c47090a2f1189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:55 +0000
Subject: [PATCH 35/52] fix: EncrypterCbc does not write behind the caller's
 slice

---
 keystore/aes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keystore/aes.go b/keystore/aes.go
index 4d7d32e..6ce8d86 100644
--- a/keystore/aes.go
+++ b/keystore/aes.go
@@ -31,7 +31,7 @@ func (this *Aes) EncrypterCbc(src []byte) (_r []byte, err error) {
 	if c, e := aes.NewCipher(this.commonKey256[:]); e == nil {
 		blockSize := c.BlockSize()
 		bs := bytes.Repeat([]byte{byte(blockSize - len(src)%blockSize)}, blockSize-len(src)%blockSize)
-		_r = append(src, bs...)
+		_r = append(src[:len(src):len(src)], bs...)
 		encrypter := cipher.NewCBCEncrypter(c, this.commonIV[:])
 		encrypter.CryptBlocks(_r, _r)
 	} else {
-- 
2.43.0


From 20a578af4556cbd7953f68d93c629c30af6d2829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:56 +0000
Subject: [PATCH 36/52] fix: DecrypterCbc reports ciphertexts of impossible
 length or padding

---
 keystore/aes.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/keystore/aes.go b/keystore/aes.go
index 6ce8d86..50f2784 100644
--- a/keystore/aes.go
+++ b/keystore/aes.go
@@ -11,6 +11,7 @@ import (
 	"crypto/cipher"
 	"crypto/md5"
 	"crypto/sha256"
+	"errors"
 )
 
 type Aes struct {
@@ -42,10 +43,18 @@ func (this *Aes) EncrypterCbc(src []byte) (_r []byte, err error) {
 
 func (this *Aes) DecrypterCbc(bs []byte) (_r []byte, err error) {
 	if c, e := aes.NewCipher(this.commonKey256[:]); e == nil {
+		blockSize := c.BlockSize()
+		if len(bs) == 0 || len(bs)%blockSize != 0 {
+			return nil, errors.New("ciphertext is not a multiple of the block size")
+		}
 		decrypter := cipher.NewCBCDecrypter(c, this.commonIV[:])
 		_r = make([]byte, len(bs))
 		decrypter.CryptBlocks(_r, bs)
-		_r = _r[:len(_r)-(int(_r[len(_r)-1]))]
+		pad := int(_r[len(_r)-1])
+		if pad == 0 || pad > blockSize || !bytes.HasSuffix(_r, bytes.Repeat([]byte{byte(pad)}, pad)) {
+			return nil, errors.New("invalid padding")
+		}
+		_r = _r[:len(_r)-pad]
 	} else {
 		err = e
 	}
-- 
2.43.0


From bd2b41a7099a27a23815dbe23beb917442342d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:56 +0000
Subject: [PATCH 37/52] fix: RSA functions report unusable keys

---
 keystore/key.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/keystore/key.go b/keystore/key.go
index 3b93680..707eadb 100644
--- a/keystore/key.go
+++ b/keystore/key.go
@@ -109,13 +109,20 @@ func RsaEncrypt(msg []byte, publickeypath string) (cipherText []byte, err error)
 }
 
 func RsaEncryptByBytes(msg []byte, publickeyBs []byte) (cipherText []byte, err error) {
-	defer _recovr()
+	defer util.Recover(&err)
 	pubDecodeBlock, _ := pem.Decode(publickeyBs)
-	if parsePublicKey, e := x509.ParsePKIXPublicKey(pubDecodeBlock.Bytes); e == nil {
-		publicKey := parsePublicKey.(*rsa.PublicKey)
-		cipherText, err = rsa.EncryptPKCS1v15(rand.Reader, publicKey, msg)
+	if pubDecodeBlock == nil {
+		return nil, errors.New("no PEM public key")
+	}
+	parsePublicKey, err := x509.ParsePKIXPublicKey(pubDecodeBlock.Bytes)
+	if err != nil {
+		return nil, err
+	}
+	publicKey, ok := parsePublicKey.(*rsa.PublicKey)
+	if !ok {
+		return nil, errors.New("not an RSA public key")
 	}
-	return
+	return rsa.EncryptPKCS1v15(rand.Reader, publicKey, msg)
 }
 
 func RsaDecrypt(cipherText []byte, privatekeypath string) (msg []byte, err error) {
@@ -137,12 +144,16 @@ func RsaDecrypt(cipherText []byte, privatekeypath string) (msg []byte, err error
 }
 
 func RsaDecryptByBytes(cipherText []byte, privateBs []byte) (msg []byte, err error) {
-	defer _recovr()
+	defer util.Recover(&err)
 	priDecodeBlock, _ := pem.Decode(privateBs)
-	if privateKey, e := x509.ParsePKCS1PrivateKey(priDecodeBlock.Bytes); e == nil {
-		msg, err = rsa.DecryptPKCS1v15(rand.Reader, privateKey, cipherText)
+	if priDecodeBlock == nil {
+		return nil, errors.New("no PEM private key")
+	}
+	privateKey, err := x509.ParsePKCS1PrivateKey(priDecodeBlock.Bytes)
+	if err != nil {
+		return nil, err
 	}
-	return
+	return rsa.DecryptPKCS1v15(rand.Reader, privateKey, cipherText)
 }
 
 func _recovr() {
-- 
2.43.0


From 7ee223e3abca3b6bac7e98adcb06db909f5ae608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:55 +0000
Subject: [PATCH 38/52] fix: a crash during a key store Write leaves the old or
 the new content

---
 keystore/bin.go | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/keystore/bin.go b/keystore/bin.go
index 9bbc77b..7c80101 100644
--- a/keystore/bin.go
+++ b/keystore/bin.go
@@ -10,7 +10,6 @@ package keystore
 import (
 	"errors"
 	"fmt"
-	"io"
 	"os"
 	"sync"
 
@@ -44,20 +43,51 @@ func LoadKeyStore(dir string, name string) (ks *_keyStore, err error) {
 func (this *_keyStore) Write(bs []byte) (err error) {
 	this.mux.Lock()
 	defer this.mux.Unlock()
-	this._fileHandler.Seek(0, io.SeekStart)
-	this._fileHandler.Truncate(0)
 	var obs []byte
 	if obs, err = util.Zlib(bs); err != nil {
 		obs = bs
 	}
-	_, err = this._fileHandler.Write(obs)
+	// the new content replaces the old one at once, so that a crash leaves one of them
+	tmp := this.fname + ".tmp"
+	if err = this.writeTemp(tmp, obs); err != nil {
+		os.Remove(tmp)
+		return
+	}
+	this._fileHandler.Close()
+	err = os.Rename(tmp, this.fname)
+	fileHandler, er := os.OpenFile(this.fname, os.O_RDWR|os.O_CREATE, 0666)
+	if er != nil {
+		if err == nil {
+			err = er
+		}
+		return
+	}
+	this._fileHandler = fileHandler
 	return
 }
 
+func (this *_keyStore) writeTemp(tmp string, bs []byte) (err error) {
+	f, err := os.OpenFile(tmp, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
+	if err != nil {
+		return
+	}
+	defer f.Close()
+	if fi, er := os.Stat(this.fname); er == nil {
+		f.Chmod(fi.Mode().Perm())
+	}
+	if _, err = f.Write(bs); err != nil {
+		return
+	}
+	return f.Sync()
+}
+
 func (this *_keyStore) Read() (bs []byte, err error) {
 	this.mux.Lock()
 	defer this.mux.Unlock()
-	fi, err := this._fileHandler.Stat()
+	fi, err := os.Stat(this.fname)
+	if err != nil {
+		return
+	}
 	if fi.Size() > 0 {
 		if bs, err = util.ReadFile(this.fname); err == nil && bs != nil {
 			if obs, er := util.UnZlib(bs); er == nil {
-- 
2.43.0


From 872511b7241a2e55511ae44d66277543aacce77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:55 +0000
Subject: [PATCH 39/52] fix: the state of a websocket Handler is read and
 written under a lock

---
 websocket/wshandle.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/websocket/wshandle.go b/websocket/wshandle.go
index 493d6d3..6f27970 100644
--- a/websocket/wshandle.go
+++ b/websocket/wshandle.go
@@ -38,6 +38,7 @@ type Handler struct {
 	Cfg  *Config
 	conn *wss.Conn
 	mux  *sync.Mutex
+	emux sync.Mutex // guards err
 	err  error
 }
 
@@ -78,7 +79,7 @@ func NewHandler(cfg *Config) (wh *Handler, err error) {
 		}
 	}
 	if err == nil && conn != nil {
-		wh = &Handler{cfg, conn, &sync.Mutex{}, nil}
+		wh = &Handler{Cfg: cfg, conn: conn, mux: &sync.Mutex{}}
 		if cfg.OnOpen != nil {
 			cfg.OnOpen(wh)
 		}
@@ -94,14 +95,14 @@ func (wh *Handler) sendws(bs []byte) (err error) {
 }
 
 func (wh *Handler) Send(bs []byte) error {
-	if wh.err != nil {
-		return wh.err
+	if err := wh.Error(); err != nil {
+		return err
 	}
 	return wh.sendws(bs)
 }
 
 func (wh *Handler) Close() (err error) {
-	wh.err = errors.New("connection is closed")
+	wh.setError(errors.New("connection is closed"))
 	if wh.conn != nil {
 		err = wh.conn.Close()
 	}
@@ -109,15 +110,23 @@ func (wh *Handler) Close() (err error) {
 }
 
 func (wh *Handler) Error() error {
+	wh.emux.Lock()
+	defer wh.emux.Unlock()
 	return wh.err
 }
 
+func (wh *Handler) setError(err error) {
+	wh.emux.Lock()
+	defer wh.emux.Unlock()
+	wh.err = err
+}
+
 func (wh *Handler) read() {
 	var err error
-	for wh.err == nil {
+	for wh.Error() == nil {
 		var byt []byte
 		if err = wss.Message.Receive(wh.conn, &byt); err != nil {
-			wh.err = err
+			wh.setError(err)
 			break
 		}
 		if byt != nil && wh.Cfg.OnMessage != nil {
-- 
2.43.0


From a0b03e8e88a83c11ae4e4d3e8ac94bddb39d200b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:55 +0000
Subject: [PATCH 40/52] fix: OnError is not called without an error

---
 websocket/wshandle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/websocket/wshandle.go b/websocket/wshandle.go
index 6f27970..04e28eb 100644
--- a/websocket/wshandle.go
+++ b/websocket/wshandle.go
@@ -133,7 +133,7 @@ func (wh *Handler) read() {
 			go wh.Cfg.OnMessage(wh, byt)
 		}
 	}
-	if wh.Cfg.OnError != nil {
+	if err != nil && wh.Cfg.OnError != nil {
 		go wh.Cfg.OnError(wh, err)
 	}
 	wh.Close()
-- 
2.43.0


From d7c87e366742838e9bcf290a1dc2550a0753c085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:14 +0000
Subject: [PATCH 41/52] fix: Mode0 keeps the image within both sides asked for

---
 image/image.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image/image.go b/image/image.go
index 1e4f448..73048c2 100644
--- a/image/image.go
+++ b/image/image.go
@@ -522,7 +522,7 @@ func getMinAndkeepRatio(w, h, newwidth, newheight int) (int, int) {
 	}
 	r := float64(w) / float64(h)
 	if newwidth < w && newheight < h {
-		if newwidth > newheight {
+		if float64(newwidth)/float64(w) > float64(newheight)/float64(h) {
 			newwidth = int(float64(newheight) * r)
 		} else {
 			newheight = int(float64(newwidth) / r)
-- 
2.43.0


From 099d68df056c30bac0bc5f94be82a81ecdcbd9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:14 +0000
Subject: [PATCH 42/52] fix: crop relative to the top left corner of the
 picture

---
 image/adjust.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/image/adjust.go b/image/adjust.go
index 11b8b2d..e4c7ada 100644
--- a/image/adjust.go
+++ b/image/adjust.go
@@ -44,7 +44,7 @@ func cropImage(img image.Image, width, height int, x, y int) (image.Image, error
 func cropImageByAnchor(img image.Image, width, height int, x, y int) (image.Image, error) {
 	bounds := img.Bounds()
 	if x >= 0 && y >= 0 && x+width <= bounds.Dx() && y+height <= bounds.Dy() {
-		cropRect := image.Rect(x, y, x+width, y+height)
+		cropRect := image.Rect(x, y, x+width, y+height).Add(bounds.Min)
 		croppedImg := imaging.Crop(img, cropRect)
 		return croppedImg, nil
 	}
@@ -56,7 +56,7 @@ func cropImageByAnchor(img image.Image, width, height int, x, y int) (image.Imag
 	if y+height > bounds.Dy() {
 		newHeight = bounds.Dy() - y
 	}
-	cropRect := image.Rect(x, y, x+newWidth, y+newHeight)
+	cropRect := image.Rect(x, y, x+newWidth, y+newHeight).Add(bounds.Min)
 	croppedImg := imaging.Crop(img, cropRect)
 
 	return croppedImg, nil
@@ -68,7 +68,7 @@ func cropImageBySide(img image.Image, width, height int, x, y int) (image.Image,
 	x = clamp(x, 0, bounds.Dx()-width)
 	y = clamp(y, 0, bounds.Dy()-height)
 
-	cropRect := image.Rect(x, y, x+width, y+height)
+	cropRect := image.Rect(x, y, x+width, y+height).Add(bounds.Min)
 	croppedImg := imaging.Crop(img, cropRect)
 
 	return croppedImg, nil
-- 
2.43.0


From 9c342012ea06ef608573dd2daef493adcd07f9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:14 +0000
Subject: [PATCH 43/52] fix: ResizeGIF keeps at least one pixel per side

---
 image/image.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image/image.go b/image/image.go
index 73048c2..81cc69c 100644
--- a/image/image.go
+++ b/image/image.go
@@ -158,8 +158,8 @@ func resizeGIF(g *gif.GIF, targetWidth, targetHeight int) (*gif.GIF, error) {
 		}
 	}
 
-	newW := int(float64(canvasW) * scale)
-	newH := int(float64(canvasH) * scale)
+	newW := max(1, int(float64(canvasW)*scale))
+	newH := max(1, int(float64(canvasH)*scale))
 
 	newGIF := &gif.GIF{
 		Delay:     g.Delay,
-- 
2.43.0


From 4f372747b654d81f1c6981edd088aefc730e2262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:19 +0000
Subject: [PATCH 44/52] fix: every UUID of the RFC 4122 variant is recognised

---
 uuid/uuid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 81991da..aa3716b 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -83,7 +83,7 @@ func (u *UUID) Equals(other *UUID) bool {
 
 func (u *UUID) Variant() byte {
 	switch u[8] & 0xe0 {
-	case 0x80:
+	case 0x80, 0xa0:
 		return 1 // RFC 4122
 	case 0xc0:
 		return 2 // Microsoft
-- 
2.43.0


From 8aa91577f941a7f006cc0b0a46f48fca35312ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:43 +0000
Subject: [PATCH 45/52] fix: a BloomFilter for no items does not panic

---
 cache/bloom.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/bloom.go b/cache/bloom.go
index c486ddf..922f2b2 100644
--- a/cache/bloom.go
+++ b/cache/bloom.go
@@ -28,6 +28,9 @@ type BloomFilter struct {
 
 // NewBloomFilter creates a new bloom filter with the specified size, hash function count, and capacity.
 func NewBloomFilter(expectedItems uint64, falsePositiveRate float64) (r *BloomFilter) {
+	if expectedItems == 0 {
+		expectedItems = 1
+	}
 	m := uint(-float64(expectedItems) * math.Log(falsePositiveRate) / (math.Log(2) * math.Log(2)))
 	if m == 0 {
 		m = 1
-- 
2.43.0


From c5b97b3f6ff145ac6c8194624948fcfddc454293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:12 +0000
Subject: [PATCH 46/52] fix: 0 and -0 are the same key of a LimitHashMap

---
 hashmap/limithashmap.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hashmap/limithashmap.go b/hashmap/limithashmap.go
index a33f2dc..14a954d 100644
--- a/hashmap/limithashmap.go
+++ b/hashmap/limithashmap.go
@@ -106,11 +106,12 @@ func NewLimitHashMapWithSegment[K int | int64 | int8 | int16 | int32 | uint | ui
 		}
 	case float64:
 		hashFunc = func(key K) uint64 {
-			return math.Float64bits(any(key).(float64))
+			// 0 and -0 are equal, and the sum with 0 of both is 0
+			return math.Float64bits(any(key).(float64) + 0)
 		}
 	case float32:
 		hashFunc = func(key K) uint64 {
-			return math.Float64bits(float64(any(key).(float32)))
+			return math.Float64bits(float64(any(key).(float32)) + 0)
 		}
 	case int8:
 		hashFunc = func(key K) uint64 {
-- 
2.43.0


From 8f450eaaee336a9b75eb6bd727e4ecf530897df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:12 +0000
Subject: [PATCH 47/52] fix: TreeMap keeps NaN apart from the other keys

---
 hashmap/treemap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashmap/treemap.go b/hashmap/treemap.go
index b58647e..659b6e9 100644
--- a/hashmap/treemap.go
+++ b/hashmap/treemap.go
@@ -19,7 +19,7 @@ type treeItem[K cmp.Ordered, V any] struct {
 }
 
 func (a treeItem[K, V]) Less(b btree.Item) bool {
-	return a.Key < b.(treeItem[K, V]).Key
+	return cmp.Less(a.Key, b.(treeItem[K, V]).Key) // also orders NaN
 }
 
 // TreeMap Define the TreeMap structure which internally uses a B-tree for storing data with an RWMutex for concurrent access control.
-- 
2.43.0


From e151853c0e96b8b1101038a6bec21c17d40d2b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:53 +0000
Subject: [PATCH 48/52] fix: LimitMap: do not store keys that are not equal to
 themselves, which could not be evicted

---
 hashmap/limitmap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hashmap/limitmap.go b/hashmap/limitmap.go
index 4688fde..c1f7bf5 100644
--- a/hashmap/limitmap.go
+++ b/hashmap/limitmap.go
@@ -45,6 +45,10 @@ func (mc *LimitMap[K, V]) Get(key K) (value V, ok bool) {
 
 // Put adds or updates a key-value pair in the map
 func (mc *LimitMap[K, V]) Put(key K, value V) (prev V, b bool) {
+	if key != key {
+		// a key such as NaN could be neither found nor evicted
+		return
+	}
 	mc.lock.Lock()
 	defer mc.lock.Unlock()
 	if elem, exists := mc.cache[any(key)]; exists {
-- 
2.43.0


From 75772c3602bf126bbd2b170d64a96e529e352168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:05 +0000
Subject: [PATCH 49/52] fix: LinkedHashMap: do not store keys that are not
 equal to themselves, which could not be removed

---
 hashmap/linkedhashmap.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hashmap/linkedhashmap.go b/hashmap/linkedhashmap.go
index 9f601cb..0abaf36 100644
--- a/hashmap/linkedhashmap.go
+++ b/hashmap/linkedhashmap.go
@@ -35,6 +35,10 @@ type entrykv[K, V any] struct {
 }
 
 func (t *LinkedHashMap[K, V]) Put(k K, v V) {
+	if any(k) != any(k) {
+		// a key such as NaN could be neither found nor evicted
+		return
+	}
 	kv := &entrykv[K, V]{k, v}
 	t.mu.Lock()
 	defer t.mu.Unlock()
@@ -54,6 +58,9 @@ func (t *LinkedHashMap[K, V]) Put(k K, v V) {
 }
 
 func (t *LinkedHashMap[K, V]) LoadOrStore(k K, v V) (actual V, loaded bool) {
+	if any(k) != any(k) {
+		return v, false
+	}
 	t.mu.Lock()
 	defer t.mu.Unlock()
 	if elem, ok := t.m.Load(k); ok {
-- 
2.43.0


From 6eece95cfb9184b6ddf5a1379e755960685d4385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:17 +0000
Subject: [PATCH 50/52] fix: LruCache: do not store keys that are not equal to
 themselves, which could not be removed

---
 cache/lrucache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/lrucache.go b/cache/lrucache.go
index 7e05096..e746db8 100644
--- a/cache/lrucache.go
+++ b/cache/lrucache.go
@@ -54,7 +54,7 @@ func (lc *LruCache[T]) RemoveMulti(keys []string) {
 
 // Add adds a value to the cache. It uses Lock for exclusive writes.
 func (lc *LruCache[T]) Add(key lru.Key, value T) {
-	if key == nil {
+	if key == nil || key != key {
 		return
 	}
 	lc.lock.Lock()
-- 
2.43.0


From 231a05b3b75134a4e33e2432a9361a7344a11547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:46 +0000
Subject: [PATCH 51/52] fix: KeyBean.Equals took maps with other keys for equal
 when the values are empty

---
 keystore/store.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/keystore/store.go b/keystore/store.go
index 17fc94d..5dc4007 100644
--- a/keystore/store.go
+++ b/keystore/store.go
@@ -559,23 +559,23 @@ func (p *KeyBean) Equals(other *KeyBean) bool {
   }
   if len(p.Admin) != len(other.Admin) { return false }
   for k, _tgt := range p.Admin {
-    _src8 := other.Admin[k]
-    if !_tgt.Equals(_src8) { return false }
+    _src8, ok := other.Admin[k]
+    if !ok || !_tgt.Equals(_src8) { return false }
   }
   if len(p.Client) != len(other.Client) { return false }
   for k, _tgt := range p.Client {
-    _src9 := other.Client[k]
-    if !_tgt.Equals(_src9) { return false }
+    _src9, ok := other.Client[k]
+    if !ok || !_tgt.Equals(_src9) { return false }
   }
   if len(p.Mq) != len(other.Mq) { return false }
   for k, _tgt := range p.Mq {
-    _src10 := other.Mq[k]
-    if !_tgt.Equals(_src10) { return false }
+    _src10, ok := other.Mq[k]
+    if !ok || !_tgt.Equals(_src10) { return false }
   }
   if len(p.Other) != len(other.Other) { return false }
   for k, _tgt := range p.Other {
-    _src11 := other.Other[k]
-    if _tgt != _src11 { return false }
+    _src11, ok := other.Other[k]
+    if !ok || _tgt != _src11 { return false }
   }
   return true
 }
-- 
2.43.0


From 34185c8012f7bbe222798590e910ef26c6c45c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:51 +0000
Subject: [PATCH 52/52] fix: GoPool: a function that ends its goroutine with
 runtime.Goexit no longer takes a place of the pool for ever

---
 pool/gopool/gopool.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pool/gopool/gopool.go b/pool/gopool/gopool.go
index 258bd15..e5a259e 100644
--- a/pool/gopool/gopool.go
+++ b/pool/gopool/gopool.go
@@ -46,8 +46,10 @@ func (fc *funcn) drain() {
 }
 
 func (fc *funcn) run() {
+	ended := false
 	defer func() {
-		if err := recover(); err != nil {
+		// without ended the function ended the goroutine, with runtime.Goexit
+		if err := recover(); err != nil || !ended {
 			if fc.pool.put(fc) {
 				go fc.run()
 			}
@@ -66,6 +68,7 @@ func (fc *funcn) run() {
 		}
 	}
 END:
+	ended = true
 }
 
 type GoPool struct {
-- 
2.43.0

