From f7c3a3a53ddd135966fb8ec580a8ff1acca14696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 01/31] fix: sync.Map CompareAndSwap and CompareAndDelete
 compare the old value

Both ignored their old argument and swapped or deleted whatever was stored.
---
 gogenerics/gconcurrent/sync/map.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gogenerics/gconcurrent/sync/map.go b/gogenerics/gconcurrent/sync/map.go
index 7d64677..91c1596 100644
--- a/gogenerics/gconcurrent/sync/map.go
+++ b/gogenerics/gconcurrent/sync/map.go
@@ -166,7 +166,7 @@ func (m *Map[K, V]) Store(key K, value V) {
 // the entry unchanged.
 func (e *entry[V]) tryCompareAndSwap(old, new V) bool {
 	p := e.p.Load()
-	if p == nil || unsafe.Pointer(p) == expunged {
+	if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
 		return false
 	}
 
@@ -179,7 +179,7 @@ func (e *entry[V]) tryCompareAndSwap(old, new V) bool {
 			return true
 		}
 		p = e.p.Load()
-		if p == nil || unsafe.Pointer(p) == expunged {
+		if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
 			return false
 		}
 	}
@@ -434,7 +434,7 @@ func (m *Map[K, V]) CompareAndDelete(key K, old V) (deleted bool) {
 	}
 	for ok {
 		p := e.p.Load()
-		if p == nil || unsafe.Pointer(p) == expunged {
+		if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
 			return false
 		}
 		if e.p.CompareAndSwap(p, nil) {
-- 
2.43.0


From c43c08a13f8f4ba67f66f1558f0fe156b0b968b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 02/31] fix: gmap.Equal compares m1 with m2, not with itself

---
 gogenerics/gcontainers/gmap/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gogenerics/gcontainers/gmap/map.go b/gogenerics/gcontainers/gmap/map.go
index ab0d76f..24f99c8 100644
--- a/gogenerics/gcontainers/gmap/map.go
+++ b/gogenerics/gcontainers/gmap/map.go
@@ -81,7 +81,7 @@ func Equal[K, V comparable](m1, m2 map[K]V) bool {
 	}
 
 	for k, v1 := range m1 {
-		v2, ok := m1[k]
+		v2, ok := m2[k]
 		if !ok || v2 != v1 {
 			return false
 		}
-- 
2.43.0


From 27f261b2dc6117a326394cd5aa9e85d018ce27f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 03/31] fix: gslice.Merge returns a new slice

append(s1, s2...) wrote into the spare capacity of s1's backing array.
---
 gogenerics/gcontainers/gslice/slice.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gogenerics/gcontainers/gslice/slice.go b/gogenerics/gcontainers/gslice/slice.go
index 5e3a692..942f689 100644
--- a/gogenerics/gcontainers/gslice/slice.go
+++ b/gogenerics/gcontainers/gslice/slice.go
@@ -151,7 +151,9 @@ func Merge[T any](s1, s2 []T) []T {
 	if s2 == nil {
 		return Copy(s1)
 	}
-	return append(s1, s2...)
+	res := make([]T, 0, len(s1)+len(s2))
+	res = append(res, s1...)
+	return append(res, s2...)
 }
 
 // IsSorted reports whether x is sorted in ascending order
-- 
2.43.0


From 7252a6e60b99a18870de494fa3d55aa194bff4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 04/31] fix: AtomicError.Set accepts errors of different
 concrete types

atomic.Value panics on storing a value of an inconsistent type.
---
 gogenerics/gconstraints/errors.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gogenerics/gconstraints/errors.go b/gogenerics/gconstraints/errors.go
index 81c3bbd..e595468 100644
--- a/gogenerics/gconstraints/errors.go
+++ b/gogenerics/gconstraints/errors.go
@@ -7,20 +7,26 @@ import (
 // AtomicError defines an atomic error.
 
 type AtomicError struct {
-	err atomic.Value // error
+	err atomic.Value // errorHolder
+}
+
+// errorHolder keeps the type stored in the atomic.Value the same for all errors,
+// atomic.Value panics on storing a value of another type.
+type errorHolder struct {
+	err error
 }
 
 // Set sets the error.
 func (ae *AtomicError) Set(err error) {
 	if err != nil {
-		ae.err.Store(err)
+		ae.err.Store(errorHolder{err: err})
 	}
 }
 
 // Load returns the error.
 func (ae *AtomicError) Load() error {
 	if v := ae.err.Load(); v != nil {
-		return v.(error)
+		return v.(errorHolder).err
 	}
 	return nil
 }
-- 
2.43.0


From 9851d76caee85a213ea62a093f4b07551f2a9973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 05/31] fix: LRUCacheV2.MGet takes the lock like every other
 method

---
 library/cachex/lrucache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/cachex/lrucache.go b/library/cachex/lrucache.go
index 7b800be..5420a9a 100644
--- a/library/cachex/lrucache.go
+++ b/library/cachex/lrucache.go
@@ -96,6 +96,9 @@ func (lc *LRUCacheV2[K, V]) MGet(_ context.Context, keys ...K) ([]V, []bool, err
 	if len(keys) == 0 {
 		return nil, nil, nil
 	}
+	lc.mux.Lock()
+	defer lc.mux.Unlock()
+
 	values := make([]V, len(keys))
 	oks := make([]bool, len(keys))
 	for idx, key := range keys {
-- 
2.43.0


From e3cb0ac042b9ce8889c4de1c1dd5a43a098958b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 06/31] fix: Chain.MGet answers every occurrence of a repeated
 key

Only the last position of a key given more than once was filled in, the
others were reported as misses.
---
 library/cachex/cache.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/library/cachex/cache.go b/library/cachex/cache.go
index c6ec8e5..64f91be 100644
--- a/library/cachex/cache.go
+++ b/library/cachex/cache.go
@@ -157,9 +157,10 @@ func (c *Chain[K, V]) MGet(ctx context.Context, keys ...K) ([]V, []bool, error)
 		return nil, nil, nil
 	}
 	length := len(keys)
-	indexMap := make(map[K]int, length)
-	for i, k := range keys {
-		indexMap[k] = i
+	// indexes[j] is the position in the result of keys[j]; a key may be given more than once.
+	indexes := make([]int, length)
+	for i := range keys {
+		indexes[i] = i
 	}
 	values := make([]V, length)
 	status := make([]bool, length)
@@ -174,13 +175,16 @@ func (c *Chain[K, V]) MGet(ctx context.Context, keys ...K) ([]V, []bool, error)
 		if err1 != nil && !c.ContinueOnReadErr {
 			return nil, nil, err1
 		}
-		for j := 0; j < len(oks); j++ {
-			if oks[j] {
-				keyIndex := indexMap[keys[j]]
+		missed := make([]int, 0, len(indexes))
+		for j, keyIndex := range indexes {
+			if j < len(oks) && oks[j] {
 				values[keyIndex] = vals[j]
 				status[keyIndex] = true
+			} else {
+				missed = append(missed, keyIndex)
 			}
 		}
+		indexes = missed
 		// Set the content queried from the next-level cache to the upper-level cache
 		c.msetForMGet(ctx, c.Caches[:idx], keys, vals, oks)
 		keys = c.keysNotFound(keys, oks)
-- 
2.43.0


From 1c83056a6e08a25c1b36ea272f6c3e9270bec0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 07/31] fix: MGetResult reports keys as missed when the cache
 returned an error

Every accessor panicked with an index out of range, since there are no
values and hits then.
---
 library/cachex/cache.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/library/cachex/cache.go b/library/cachex/cache.go
index 64f91be..a48130e 100644
--- a/library/cachex/cache.go
+++ b/library/cachex/cache.go
@@ -307,10 +307,24 @@ type MGetResult[K comparable, V any] struct {
 	hits   []bool
 }
 
+// hit returns whether the key at idx was hit, a cache that returned an error has no hits.
+func (mr MGetResult[K, V]) hit(idx int) bool {
+	return idx < len(mr.hits) && mr.hits[idx]
+}
+
+// value returns the value of the key at idx, a cache that returned an error has no values.
+func (mr MGetResult[K, V]) value(idx int) V {
+	if idx < len(mr.values) {
+		return mr.values[idx]
+	}
+	var emp V
+	return emp
+}
+
 // Range traverses all results.
 func (mr MGetResult[K, V]) Range(fn func(key K, hit bool, value V) bool) {
 	for idx := 0; idx < len(mr.keys); idx++ {
-		if !fn(mr.keys[idx], mr.hits[idx], mr.values[idx]) {
+		if !fn(mr.keys[idx], mr.hit(idx), mr.value(idx)) {
 			return
 		}
 	}
@@ -319,10 +333,10 @@ func (mr MGetResult[K, V]) Range(fn func(key K, hit bool, value V) bool) {
 // RangeHit traverses all results hit by the cache.
 func (mr MGetResult[K, V]) RangeHit(fn func(key K, Value V) bool) {
 	for idx := 0; idx < len(mr.keys); idx++ {
-		if !mr.hits[idx] {
+		if !mr.hit(idx) {
 			continue
 		}
-		if !fn(mr.keys[idx], mr.values[idx]) {
+		if !fn(mr.keys[idx], mr.value(idx)) {
 			return
 		}
 	}
@@ -331,7 +345,7 @@ func (mr MGetResult[K, V]) RangeHit(fn func(key K, Value V) bool) {
 // RangeMiss traverses all results missed by the cache.
 func (mr MGetResult[K, V]) RangeMiss(fn func(key K) bool) {
 	for idx := 0; idx < len(mr.keys); idx++ {
-		if mr.hits[idx] {
+		if mr.hit(idx) {
 			continue
 		}
 		if !fn(mr.keys[idx]) {
@@ -375,7 +389,7 @@ func (mr MGetResult[K, V]) HitMissKeys() (hit []K, miss []K) {
 	hit = make([]K, 0, len(mr.keys))
 	miss = make([]K, 0, len(mr.keys))
 	for idx := 0; idx < len(mr.keys); idx++ {
-		if mr.hits[idx] {
+		if mr.hit(idx) {
 			hit = append(hit, mr.keys[idx])
 		} else {
 			miss = append(miss, mr.keys[idx])
-- 
2.43.0


From 5e6c710d9fadb6ed70720093e7ff5b1aa3c5930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 08/31] fix: FileStore gc leaves files that are not cache files
 alone

---
 library/cachex/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index be9cd26..93f46ad 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -221,7 +221,7 @@ func (f *FileStore[K, V]) scanExpire() {
 		if err != nil {
 			return nil
 		}
-		if d.IsDir() {
+		if d.IsDir() || !strings.HasSuffix(path, cacheFileExt) {
 			return nil
 		}
 		_, _, _ = f.readFile(path)
-- 
2.43.0


From 5d3a74598628f27b63dbabb6779a6b3d85cb1005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 09/31] fix: FileStore.Get does not panic on a cache file whose
 content is null

---
 library/cachex/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 93f46ad..b8e0b61 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -70,7 +70,7 @@ func (f *FileStore[K, V]) readFile(fp string) (V, bool, error) {
 		}
 		return emp, false, err
 	}
-	item := &fileCacheItem[K, V]{}
+	item := fileCacheItem[K, V]{} // not a pointer: the content may be null
 	err = json.Unmarshal(content, &item)
 	if err != nil {
 		_ = os.Remove(fp)
-- 
2.43.0


From fb92fa9981c7b942fe2e91453f9700dddcafa44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 10/31] fix: FileStore.Purge only removes files, and ignores
 those already gone

---
 library/cachex/file.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index b8e0b61..8dcdb1c 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -237,9 +237,12 @@ func (f *FileStore[K, V]) Purge() error {
 	var lastErr error
 	var errTotal int
 	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
+		if d != nil && d.IsDir() {
+			return nil
+		}
 		if strings.HasSuffix(path, cacheFileExt) {
 			e := os.Remove(path)
-			if e != nil && !os.IsNotExist(err) {
+			if e != nil && !os.IsNotExist(e) {
 				errTotal++
 				lastErr = e
 			}
-- 
2.43.0


From c35572f326f86cad4d21ca824ada742a04a0c8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 11/31] fix: FileStore gives different keys different files

---
 library/cachex/file.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 8dcdb1c..cf7c454 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -41,7 +41,8 @@ type FileStore[K comparable, V any] struct {
 }
 
 func (f *FileStore[K, V]) getFilePath(key K) string {
-	str := fmt.Sprint(key)
+	// with the type and in Go syntax, so that different keys give different names
+	str := fmt.Sprintf("%T:%#v", key, key)
 	h := md5.New()
 	h.Write([]byte(str))
 	s := hex.EncodeToString(h.Sum(nil))
-- 
2.43.0


From 3df94573a82f0ed63f183712e8cbaee38c8d7e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 12/31] fix: FileStore.Set with a very large ttl does not
 expire at once

---
 library/cachex/file.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index cf7c454..f72e850 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"fmt"
 	"io/fs"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -100,7 +101,7 @@ func (f *FileStore[K, V]) Set(ctx context.Context, key K, value V, ttl time.Dura
 		Data: value,
 		Key:  key,
 		TTL:  int64(ttl),
-		Exp:  time.Now().Add(ttl).UnixNano(),
+		Exp:  expireAt(ttl),
 	}
 	content, err := json.MarshalIndent(item, "", "  ")
 	if err != nil {
@@ -264,6 +265,15 @@ type fileCacheItem[K comparable, V any] struct {
 	Exp   int64
 }
 
+// expireAt returns the expiration time in nanoseconds, a ttl that is too large never expires
+func expireAt(ttl time.Duration) int64 {
+	now := time.Now().UnixNano()
+	if int64(ttl) > math.MaxInt64-now {
+		return math.MaxInt64
+	}
+	return now + int64(ttl)
+}
+
 func (fi *fileCacheItem[K, V]) Alive() bool {
 	return fi.Exp > time.Now().UnixNano()
 }
-- 
2.43.0


From fe51bd7bb695ac9c530d242d50f632e20fcabb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 13/31] fix: FileStore does not read a file half written, nor
 remove one just written

---
 library/cachex/file.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index f72e850..8b947a8 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -12,6 +12,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"sync"
 	"sync/atomic"
 	"time"
 )
@@ -37,6 +38,9 @@ type FileStore[K comparable, V any] struct {
 	// Every GCCycle duration, when calling Set, Get, and other interfaces, a background goroutine is started to scan files and delete expired cache files.
 	GCCycle time.Duration
 
+	// mux serializes writing a cache file, and reading one including the removal that may follow
+	mux sync.Mutex
+
 	lastGC   atomic.Int64
 	gcStatus atomic.Bool
 }
@@ -64,6 +68,8 @@ func (f *FileStore[K, V]) Get(_ context.Context, key K) (V, bool, error) {
 }
 
 func (f *FileStore[K, V]) readFile(fp string) (V, bool, error) {
+	f.mux.Lock()
+	defer f.mux.Unlock()
 	content, err := os.ReadFile(fp)
 	if err != nil {
 		var emp V
@@ -112,6 +118,8 @@ func (f *FileStore[K, V]) Set(ctx context.Context, key K, value V, ttl time.Dura
 	if err != nil && os.IsNotExist(err) {
 		_ = os.MkdirAll(dir, 0777)
 	}
+	f.mux.Lock()
+	defer f.mux.Unlock()
 	return os.WriteFile(fp, content, 0666)
 }
 
-- 
2.43.0


From 00f85da997af608830dec595c2eb3e466e880d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 14/31] fix: BitSet.Count counts a range within one byte

---
 library/bitset/bitset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/bitset/bitset.go b/library/bitset/bitset.go
index 757c39f..55840ba 100644
--- a/library/bitset/bitset.go
+++ b/library/bitset/bitset.go
@@ -131,6 +131,9 @@ func (b *BitSet) Count(start, end int) int {
 	if !valid {
 		return 0
 	}
+	if sgi == egi {
+		return bits.OnesCount8(b.set[sgi] << sbi >> sbi >> (7 - ebi))
+	}
 	var n int
 	n += bits.OnesCount8(b.set[sgi] << sbi)
 	for _, v := range b.set[sgi+1 : egi] {
-- 
2.43.0


From 59926568050e0f1ff24841ea72eb202f7f9e16d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 15/31] fix: BitSet.Sub returns the bits of the range

---
 library/bitset/bitset.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/library/bitset/bitset.go b/library/bitset/bitset.go
index 55840ba..3efcdc7 100644
--- a/library/bitset/bitset.go
+++ b/library/bitset/bitset.go
@@ -352,14 +352,18 @@ func (b *BitSet) Sub(start, end int) *BitSet {
 	if !valid {
 		return newBitSet
 	}
+	if sgi == egi {
+		newBitSet.set = append(newBitSet.set, b.set[sgi]>>(7-ebi)<<(7-ebi)<<sbi)
+		return newBitSet
+	}
 	pre := b.set[sgi] << sbi
 	for _, v := range b.set[sgi+1 : egi] {
-		newBitSet.set = append(newBitSet.set, pre|v>>(7-sbi))
+		newBitSet.set = append(newBitSet.set, pre|v>>(8-sbi))
 		pre = v << sbi
 	}
 	last := b.set[egi] >> (7 - ebi) << (7 - ebi)
-	newBitSet.set = append(newBitSet.set, pre|last>>(7-sbi))
-	if sbi < ebi {
+	newBitSet.set = append(newBitSet.set, pre|last>>(8-sbi))
+	if sbi <= ebi {
 		newBitSet.set = append(newBitSet.set, last<<sbi)
 	}
 	return newBitSet
-- 
2.43.0


From a64a8d99e030f010f03bd917e29065aae2bdeed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 16/31] fix: BitSet And, Or, Xor and AndNot cannot deadlock

---
 library/bitset/bitset.go | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/library/bitset/bitset.go b/library/bitset/bitset.go
index 3efcdc7..3fbd64c 100644
--- a/library/bitset/bitset.go
+++ b/library/bitset/bitset.go
@@ -6,7 +6,9 @@ import (
 	"errors"
 	"fmt"
 	"math/bits"
+	"sort"
 	"sync"
+	"unsafe"
 
 	"github.com/miniLCT/gosb/hack/unsafex"
 )
@@ -187,20 +189,16 @@ func (b *BitSet) Not() *BitSet {
 //
 //	If the bitSets are empty, returns b.
 func (b *BitSet) And(bitSets ...*BitSet) *BitSet {
-	b.mu.RLock()
-	defer b.mu.RUnlock()
 	if len(bitSets) == 0 {
 		return b
 	}
+	defer rLock(b, bitSets)()
 	var (
 		maxLen  = len(b.set)
 		minLen  = maxLen
 		currLen int
 	)
 	for _, g := range bitSets {
-		g.mu.RLock()
-		defer g.mu.RUnlock()
-
 		currLen = len(g.set)
 		if currLen > maxLen {
 			maxLen = currLen
@@ -220,6 +218,28 @@ func (b *BitSet) And(bitSets ...*BitSet) *BitSet {
 	return rBitSet
 }
 
+// rLock read-locks b and the bitSets, and returns the function that unlocks them.
+// Each is locked once, in the order of their addresses: otherwise goroutines that
+// combine the same bit sets could wait for each other when there are writers waiting too.
+func rLock(b *BitSet, bitSets []*BitSet) (unlock func()) {
+	locks := append([]*BitSet{b}, bitSets...)
+	sort.Slice(locks, func(i, j int) bool {
+		return uintptr(unsafe.Pointer(locks[i])) < uintptr(unsafe.Pointer(locks[j]))
+	})
+	for i, g := range locks {
+		if i == 0 || g != locks[i-1] {
+			g.mu.RLock()
+		}
+	}
+	return func() {
+		for i, g := range locks {
+			if i == 0 || g != locks[i-1] {
+				g.mu.RUnlock()
+			}
+		}
+	}
+}
+
 // Or returns all the "OR" bit sets.
 // NOTE:
 //
@@ -248,14 +268,11 @@ func (b *BitSet) op(op string, bitSets []*BitSet) *BitSet {
 	if len(bitSets) == 0 {
 		return b
 	}
-	b.mu.RLock()
-	defer b.mu.RUnlock()
+	defer rLock(b, bitSets)()
 	var (
 		maxLen, currLen = len(b.set), 0
 	)
 	for _, g := range bitSets {
-		g.mu.RLock()
-		defer g.mu.RUnlock()
 		currLen = len(g.set)
 		if currLen > maxLen {
 			maxLen = currLen
-- 
2.43.0


From cc09478ad754c7ff2a673ba3a6414e75e041c184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 17/31] fix: AESDecrypt reports a ciphertext that is not whole
 blocks

---
 library/cryptox/cryptox.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/cryptox/cryptox.go b/library/cryptox/cryptox.go
index cb29f56..e9aae28 100644
--- a/library/cryptox/cryptox.go
+++ b/library/cryptox/cryptox.go
@@ -87,6 +87,10 @@ func AESDecrypt(cipherKey, ciphertext []byte, useBase64 ...bool) ([]byte, error)
 		return nil, err
 	}
 	blockSize := block.BlockSize()
+	// ECB mode always works in whole blocks.
+	if len(src)%blockSize != 0 {
+		return nil, errors.New("ciphertext is not a multiple of the block size")
+	}
 	r := make([]byte, len(src))
 	dst := r
 	for len(src) > 0 {
-- 
2.43.0


From 06112975894c7a5311056000a87c99288dfd930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 18/31] fix: AES decryption reports padding that is not 1 to 16
 bytes long

---
 library/cryptox/cryptox.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/cryptox/cryptox.go b/library/cryptox/cryptox.go
index e9aae28..b2b1f82 100644
--- a/library/cryptox/cryptox.go
+++ b/library/cryptox/cryptox.go
@@ -219,7 +219,7 @@ func pkcs5Unpadding(r []byte) ([]byte, error) {
 		return nil, errors.New("input padded bytes is empty")
 	}
 	last := int(r[l-1])
-	if l-last < 0 {
+	if last == 0 || last > aes.BlockSize || l-last < 0 {
 		return nil, errors.New("input padded bytes is invalid")
 	}
 	n := byte(last)
-- 
2.43.0


From bb4782bcbd866240ec86e671af00c6f69b160958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 19/31] fix: AES encryption does not write into the caller's
 plain text slice

---
 library/cryptox/cryptox.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/library/cryptox/cryptox.go b/library/cryptox/cryptox.go
index b2b1f82..5f928de 100644
--- a/library/cryptox/cryptox.go
+++ b/library/cryptox/cryptox.go
@@ -207,6 +207,8 @@ func mustNewCipher(cipherKey []byte) cipher.Block {
 
 func pkcs5Padding(plainText []byte, blockSize int) []byte {
 	n := byte(blockSize - len(plainText)%blockSize)
+	// not to write into the spare capacity of the caller's slice
+	plainText = plainText[:len(plainText):len(plainText)]
 	for i := byte(0); i < n; i++ {
 		plainText = append(plainText, n)
 	}
-- 
2.43.0


From 6ee1370a0d370a97e6cf4d637745938302259897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 20/31] fix: HTMLEntityToUTF8 decodes an entity that starts
 like another one

---
 library/stringx/stringx.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/library/stringx/stringx.go b/library/stringx/stringx.go
index 2b90b6f..a78e113 100644
--- a/library/stringx/stringx.go
+++ b/library/stringx/stringx.go
@@ -192,18 +192,13 @@ var htmlEntityRegexp = regexp.MustCompile(`&#([0-9a-zA-Z]+);*`)
 // e.g.: HTMLEntityToUTF8(`{"info":[["color","&#5496;&#5561;&#8272;&#7c;&#7eff;&#8272;"]]｝`, 16)
 // => `{"info":[["color","咖啡色|绿色"]]｝`
 func HTMLEntityToUTF8(str string, base int) string {
-	a := htmlEntityRegexp.FindAllStringSubmatch(str, -1)
-	if len(a) == 0 {
-		return str
-	}
-	oldnew := make([]string, 0, len(a)*2)
-	for _, s := range a {
-		if i, err := strconv.ParseInt(s[1], base, 32); err == nil {
-			oldnew = append(oldnew, s[0], string(rune(i)))
+	return htmlEntityRegexp.ReplaceAllStringFunc(str, func(s string) string {
+		a := htmlEntityRegexp.FindStringSubmatch(s)
+		if i, err := strconv.ParseInt(a[1], base, 32); err == nil {
+			return string(rune(i))
 		}
-	}
-	r := strings.NewReplacer(oldnew...)
-	return r.Replace(str)
+		return s
+	})
 }
 
 // CodePointToUTF8 converts Unicode Code Point to UTF-8.
-- 
2.43.0


From 98f11927110f62744d8ba7f6cf49526b2f21fd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 21/31] fix: CodePointToUTF8 leaves text that is not part of a
 code point alone

---
 library/stringx/stringx.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/library/stringx/stringx.go b/library/stringx/stringx.go
index a78e113..10bd329 100644
--- a/library/stringx/stringx.go
+++ b/library/stringx/stringx.go
@@ -205,19 +205,24 @@ func HTMLEntityToUTF8(str string, base int) string {
 // e.g.: CodePointToUTF8(`{"info":[["color","\u5496\u5561\u8272\u7c\u7eff\u8272"]]｝`, 16)
 // => `{"info":[["color","咖啡色|绿色"]]｝`
 func CodePointToUTF8(str string, base int) string {
-	i := 0
-	if strings.Index(str, `\u`) > 0 {
-		i = 1
+	// maxDigits is how long a code point may be: any other digits are text that follows it
+	maxDigits := 21
+	if base == 16 {
+		maxDigits = 4
 	}
 	strSlice := strings.Split(str, `\u`)
-	last := len(strSlice) - 1
-	if len(strSlice[last]) > 4 {
-		strSlice = append(strSlice, string(strSlice[last][4:]))
-		strSlice[last] = string(strSlice[last][:4])
-	}
-	for ; i <= last; i++ {
-		if x, err := strconv.ParseInt(strSlice[i], base, 32); err == nil {
-			strSlice[i] = string(rune(x))
+	for i := 1; i < len(strSlice); i++ {
+		s := strSlice[i]
+		strSlice[i] = `\u` + s
+		n := len(s)
+		if n > maxDigits {
+			n = maxDigits
+		}
+		for ; n > 0; n-- {
+			if x, err := strconv.ParseUint(s[:n], base, 31); err == nil {
+				strSlice[i] = string(rune(x)) + s[n:]
+				break
+			}
 		}
 	}
 	return strings.Join(strSlice, "")
-- 
2.43.0


From f130f53ac44edd91d5483865cf8d553236a277e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 22/31] fix: mr does not panic when cancelled while the reducer
 is writing

---
 gogenerics/gconcurrent/mr/mr.go | 44 ++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index 2c7d316..6198111 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -153,15 +153,8 @@ func MapReduceChan[T, U, V any](source <-chan T, mapper MapperFunc[T, U], reduce
 func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, mapper MapperFunc[T, U],
 	reducer ReducerFunc[U, V], opts ...Option) (val V, err error) {
 	options := buildOptions(opts...)
-	// output is used to write the final result
+	// output is used to write the final result, it is never closed because there may be a write in progress
 	output := make(chan V)
-	defer func() {
-		// reducer can only write once, if more, panic
-		for range output {
-			panic("more than one element written in reducer")
-		}
-	}()
-
 	// collector is used to collect data from mapper, and consume in reducer
 	collector := make(chan U, options.workers)
 	// if done is closed, all mappers and reducer should stop processing
@@ -173,9 +166,17 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 	finish := func() {
 		closeOnce.Do(func() {
 			close(done)
-			close(output)
 		})
 	}
+	defer func() {
+		// reducer can only write once, if more, panic
+		select {
+		case <-output:
+			finish()
+			panic("more than one element written in reducer")
+		case <-done:
+		}
+	}()
 	cancel := once(func(err error) {
 		if err != nil {
 			retErr.Set(err)
@@ -216,14 +217,24 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 		cancel(context.DeadlineExceeded)
 		err = context.DeadlineExceeded
 	case v := <-panicChan.channel:
-		// drain output here, otherwise for loop panic in defer
-		drain(output)
-		panic(v)
-	case v, ok := <-output:
+		// drain output here, otherwise select panic in defer
+		for {
+			select {
+			case <-output:
+				continue
+			case <-done:
+			}
+			panic(v)
+		}
+	case v := <-output:
 		if e := retErr.Load(); e != nil {
 			err = e
-		} else if ok {
+		} else {
 			val = v
+		}
+	case <-done:
+		if e := retErr.Load(); e != nil {
+			err = e
 		} else {
 			err = ErrReduceNoOutput
 		}
@@ -375,7 +386,10 @@ func (gw guardedWriter[T]) Write(v T) {
 	case <-gw.done:
 		return
 	default:
-		gw.channel <- v
+	}
+	select {
+	case <-gw.done:
+	case gw.channel <- v:
 	}
 }
 
-- 
2.43.0


From ebac4722e85a473975a1018526b6d3ff8c83c019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 23/31] fix: mr neither loses a panic nor hangs or leaks
 goroutines because of one

---
 gogenerics/gconcurrent/mr/mr.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index 6198111..e69e4c2 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -104,7 +104,7 @@ func FinishVoid(fns ...func()) {
 // ForEach maps all elements from given generate but no output.
 func ForEach[T any](generate GenerateFunc[T], mapper ForEachFunc[T], opts ...Option) {
 	options := buildOptions(opts...)
-	panicChan := &onceChan{channel: make(chan any)}
+	panicChan := newOnceChan()
 	source := buildSource(generate, panicChan)
 	collector := make(chan any)
 	done := make(chan struct{})
@@ -127,6 +127,7 @@ func ForEach[T any](generate GenerateFunc[T], mapper ForEachFunc[T], opts ...Opt
 			panic(v)
 		case _, ok := <-collector:
 			if !ok {
+				panicChan.rethrow()
 				return
 			}
 		}
@@ -137,7 +138,7 @@ func ForEach[T any](generate GenerateFunc[T], mapper ForEachFunc[T], opts ...Opt
 // and reduces the output elements with given reducer.
 func MapReduce[T, U, V any](generate GenerateFunc[T], mapper MapperFunc[T, U], reducer ReducerFunc[U, V],
 	opts ...Option) (V, error) {
-	panicChan := &onceChan{channel: make(chan any)}
+	panicChan := newOnceChan()
 	source := buildSource(generate, panicChan)
 	return mapReduceWithPanicChan(source, panicChan, mapper, reducer, opts...)
 }
@@ -145,7 +146,7 @@ func MapReduce[T, U, V any](generate GenerateFunc[T], mapper MapperFunc[T, U], r
 // MapReduceChan maps all elements from source, and reduce the output elements with given reducer.
 func MapReduceChan[T, U, V any](source <-chan T, mapper MapperFunc[T, U], reducer ReducerFunc[U, V],
 	opts ...Option) (V, error) {
-	panicChan := &onceChan{channel: make(chan any)}
+	panicChan := newOnceChan()
 	return mapReduceWithPanicChan(source, panicChan, mapper, reducer, opts...)
 }
 
@@ -175,6 +176,8 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 			finish()
 			panic("more than one element written in reducer")
 		case <-done:
+			// reducer may have panicked after writing
+			panicChan.rethrow()
 		}
 	}()
 	cancel := once(func(err error) {
@@ -398,6 +401,20 @@ type onceChan struct {
 	wrote   int32
 }
 
+// newOnceChan has room for the value, because there may be nobody to receive it any more.
+func newOnceChan() *onceChan {
+	return &onceChan{channel: make(chan any, 1)}
+}
+
+// rethrow panics with the value written, if there is one.
+func (oc *onceChan) rethrow() {
+	select {
+	case v := <-oc.channel:
+		panic(v)
+	default:
+	}
+}
+
 func (oc *onceChan) write(val any) {
 	if atomic.CompareAndSwapInt32(&oc.wrote, 0, 1) {
 		oc.channel <- val
-- 
2.43.0


From c307e7ed0c735e9b5ddc2ed89463cb0c8ebf1f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 24/31] fix: mr reports a context that is done instead of
 missing output

---
 gogenerics/gconcurrent/mr/mr.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index e69e4c2..609c848 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -238,6 +238,8 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 	case <-done:
 		if e := retErr.Load(); e != nil {
 			err = e
+		} else if options.ctx.Err() != nil {
+			err = context.DeadlineExceeded
 		} else {
 			err = ErrReduceNoOutput
 		}
-- 
2.43.0


From d773a06b28656721335e1548d8daef968bdc8938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 25/31] fix: MapReduceVoid and Finish swallowed
 ErrReduceNoOutput given by user code

---
 gogenerics/gconcurrent/mr/mr.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index 609c848..7f269b7 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -20,6 +20,9 @@ var (
 
 	// ErrReduceNoOutput is an error that reduce did not output a value.
 	ErrReduceNoOutput = errors.New("reduce not writing value")
+
+	// errNoOutput stands for ErrReduceNoOutput internally, user code cannot cancel with it.
+	errNoOutput = errors.New("reduce not writing value")
 )
 
 type (
@@ -140,14 +143,16 @@ func MapReduce[T, U, V any](generate GenerateFunc[T], mapper MapperFunc[T, U], r
 	opts ...Option) (V, error) {
 	panicChan := newOnceChan()
 	source := buildSource(generate, panicChan)
-	return mapReduceWithPanicChan(source, panicChan, mapper, reducer, opts...)
+	val, err := mapReduceWithPanicChan(source, panicChan, mapper, reducer, opts...)
+	return val, exportNoOutput(err)
 }
 
 // MapReduceChan maps all elements from source, and reduce the output elements with given reducer.
 func MapReduceChan[T, U, V any](source <-chan T, mapper MapperFunc[T, U], reducer ReducerFunc[U, V],
 	opts ...Option) (V, error) {
 	panicChan := newOnceChan()
-	return mapReduceWithPanicChan(source, panicChan, mapper, reducer, opts...)
+	val, err := mapReduceWithPanicChan(source, panicChan, mapper, reducer, opts...)
+	return val, exportNoOutput(err)
 }
 
 // mapReduceWithPanicChan maps all elements from source, and reduce the output elements with given reducer.
@@ -241,7 +246,7 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 		} else if options.ctx.Err() != nil {
 			err = context.DeadlineExceeded
 		} else {
-			err = ErrReduceNoOutput
+			err = errNoOutput
 		}
 	}
 
@@ -252,10 +257,12 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 // and reduce the output elements with given reducer.
 func MapReduceVoid[T, U any](generate GenerateFunc[T], mapper MapperFunc[T, U],
 	reducer VoidReducerFunc[U], opts ...Option) error {
-	_, err := MapReduce(generate, mapper, func(input <-chan U, writer Writer[any], cancel func(error)) {
+	panicChan := newOnceChan()
+	source := buildSource(generate, panicChan)
+	_, err := mapReduceWithPanicChan(source, panicChan, mapper, func(input <-chan U, writer Writer[any], cancel func(error)) {
 		reducer(input, cancel)
 	}, opts...)
-	if errors.Is(err, ErrReduceNoOutput) {
+	if err == errNoOutput {
 		return nil
 	}
 
@@ -354,6 +361,14 @@ func executeMappers[T, U any](mCtx mapperContext[T, U]) {
 	}
 }
 
+func exportNoOutput(err error) error {
+	if err == errNoOutput {
+		return ErrReduceNoOutput
+	}
+
+	return err
+}
+
 func newOptions() *mapReduceOptions {
 	return &mapReduceOptions{
 		ctx:     context.Background(),
-- 
2.43.0


From 7dda51ad5f9e8ec39637104372cfe62e56928024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:45 +0000
Subject: [PATCH 26/31] fix: fastrand.Uint and Uintn do not link with go1.22
 and later

---
 hack/fastrand/runtime19.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hack/fastrand/runtime19.go b/hack/fastrand/runtime19.go
index 6244da5..a648443 100644
--- a/hack/fastrand/runtime19.go
+++ b/hack/fastrand/runtime19.go
@@ -13,5 +13,7 @@ func runtimefastrand() uint32
 //go:linkname runtimefastrand64 runtime.fastrand64
 func runtimefastrand64() uint64
 
-//go:linkname runtimefastrandu runtime.fastrandu
-func runtimefastrandu() uint
+// runtimefastrandu is not linked, runtime.fastrandu is gone since go1.22.
+func runtimefastrandu() uint {
+	return uint(runtimefastrand64())
+}
-- 
2.43.0


From 76cd5b0d5e5f352dc11caf77569bb2274da761ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:52 +0000
Subject: [PATCH 27/31] fix: FileStore names cache files after the value of the
 key alone

Keys whose GoString method does not show all of them shared a file, equal
keys with zeros of different sign did not, nor did interfaces inside a key
tell values of different types apart.
---
 library/cachex/file.go | 44 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 8b947a8..364662d 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -7,10 +7,12 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"io"
 	"io/fs"
 	"math"
 	"os"
 	"path/filepath"
+	"reflect"
 	"strings"
 	"sync"
 	"sync/atomic"
@@ -46,15 +48,51 @@ type FileStore[K comparable, V any] struct {
 }
 
 func (f *FileStore[K, V]) getFilePath(key K) string {
-	// with the type and in Go syntax, so that different keys give different names
-	str := fmt.Sprintf("%T:%#v", key, key)
 	h := md5.New()
-	h.Write([]byte(str))
+	writeKey(h, reflect.ValueOf(&key).Elem())
 	s := hex.EncodeToString(h.Sum(nil))
 	fp := filepath.Join(f.Dir, s[:3], s[3:6], s[6:9], s[9:12], s[12:15], s[16:])
 	return fp + cacheFileExt
 }
 
+// writeKey writes a key together with its type, in such a way that two keys are
+// written alike exactly if they are equal; methods of the key play no role
+func writeKey(w io.Writer, v reflect.Value) {
+	if v.Kind() == reflect.Interface {
+		v = v.Elem()
+	}
+	if !v.IsValid() {
+		fmt.Fprint(w, "nil")
+		return
+	}
+	fmt.Fprintf(w, "%s(", v.Type())
+	switch v.Kind() {
+	case reflect.Struct:
+		for i := 0; i < v.NumField(); i++ {
+			writeKey(w, v.Field(i))
+		}
+	case reflect.Array:
+		for i := 0; i < v.Len(); i++ {
+			writeKey(w, v.Index(i))
+		}
+	case reflect.String:
+		fmt.Fprintf(w, "%q", v.String())
+	case reflect.Float32, reflect.Float64:
+		fmt.Fprint(w, v.Float()+0) // the two zeros are equal
+	case reflect.Complex64, reflect.Complex128:
+		fmt.Fprint(w, v.Complex()+0)
+	case reflect.Bool:
+		fmt.Fprint(w, v.Bool())
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		fmt.Fprint(w, v.Int())
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
+		fmt.Fprint(w, v.Uint())
+	default:
+		fmt.Fprintf(w, "%#x", v.Pointer())
+	}
+	fmt.Fprint(w, ")")
+}
+
 // Get Read the content from the cache
 // Return values:
 //
-- 
2.43.0


From 347a19bae7b7d319f43e0eee5790947a85e47f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:09 +0000
Subject: [PATCH 28/31] fix: FileStore.Purge and cleaning walk through a Dir
 that is a symbolic link

---
 library/cachex/file.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 364662d..6f3aa51 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -265,7 +265,7 @@ func (f *FileStore[K, V]) gc() {
 }
 
 func (f *FileStore[K, V]) scanExpire() {
-	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
+	f.walkDir(func(path string, d fs.DirEntry, err error) error {
 		if err != nil {
 			return nil
 		}
@@ -277,6 +277,14 @@ func (f *FileStore[K, V]) scanExpire() {
 	})
 }
 
+// walkDir walks through Dir, even if that is a symbolic link
+func (f *FileStore[K, V]) walkDir(fn fs.WalkDirFunc) {
+	if f.Dir == "" {
+		return
+	}
+	_ = filepath.WalkDir(f.Dir+string(filepath.Separator), fn)
+}
+
 // Purge Delete all cache content
 func (f *FileStore[K, V]) Purge() error {
 	if f.Dir == "" {
@@ -284,7 +292,7 @@ func (f *FileStore[K, V]) Purge() error {
 	}
 	var lastErr error
 	var errTotal int
-	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
+	f.walkDir(func(path string, d fs.DirEntry, err error) error {
 		if d != nil && d.IsDir() {
 			return nil
 		}
-- 
2.43.0


From 4195890497ea7662e6a899f25b8ccb42d3122b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:23 +0000
Subject: [PATCH 29/31] fix: FileStore cannot read back entries whose key type
 does not decode

The key in a cache file was decoded into K, which fails for interface types with
methods and for types with a MarshalJSON or MarshalText of their own, and the
entry was removed. Reading does not need the key.
---
 library/cachex/file.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 6f3aa51..ec133c8 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -116,7 +116,9 @@ func (f *FileStore[K, V]) readFile(fp string) (V, bool, error) {
 		}
 		return emp, false, err
 	}
-	item := fileCacheItem[K, V]{} // not a pointer: the content may be null
+	// not a pointer: the content may be null; the key is not needed, and may be of
+	// a type that cannot be decoded, such as an interface
+	item := fileCacheItem[any, V]{}
 	err = json.Unmarshal(content, &item)
 	if err != nil {
 		_ = os.Remove(fp)
-- 
2.43.0


From 957f22b346628c621589faea2a603f99d5b6e828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:02 +0000
Subject: [PATCH 30/31] fix: Pool.Get does not panic when the constructor makes
 a nil interface

---
 gogenerics/gcontainers/gpool/syncpool.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gogenerics/gcontainers/gpool/syncpool.go b/gogenerics/gcontainers/gpool/syncpool.go
index 2cb4561..6744c3d 100644
--- a/gogenerics/gcontainers/gpool/syncpool.go
+++ b/gogenerics/gcontainers/gpool/syncpool.go
@@ -21,7 +21,8 @@ func New[T any](fn func() T) Pool[T] {
 
 // Get is a generic wrapper around sync.Pool's Get method.
 func (p *Pool[T]) Get() T {
-	return p.pool.Get().(T)
+	x, _ := p.pool.Get().(T) // not a T if T is an interface type and New made a nil one
+	return x
 }
 
 // Put is a generic wrapper around sync.Pool's Put method.
-- 
2.43.0


From 44664dc4666ab3caf9b0283cf5081ca2ab4e684d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:20 +0000
Subject: [PATCH 31/31] fix: FileStore keys whose types have the same name in
 packages of the same name shared an entry

---
 library/cachex/file.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index ec133c8..4fad59c 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -65,7 +65,8 @@ func writeKey(w io.Writer, v reflect.Value) {
 		fmt.Fprint(w, "nil")
 		return
 	}
-	fmt.Fprintf(w, "%s(", v.Type())
+	// the name of a type holds only the last element of the path of its package
+	fmt.Fprintf(w, "%s:%s(", v.Type().PkgPath(), v.Type())
 	switch v.Kind() {
 	case reflect.Struct:
 		for i := 0; i < v.NumField(); i++ {
-- 
2.43.0

