From 1d22202435ce986bb9e6b4ce66aa34e64ed7cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 01/46] fix: continue with a new chunk when the last one has no
 space for the records

A chunk which is partially filled reports ErrExhausted for a bunch of records that
does not fit. AppendRecords() returned the error to the client, for every next
request too, so the log could never be written again.
---
 pkg/storage/logfs/locallog.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 7d126c5..2db4614 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -143,6 +143,11 @@ func (l *localLog) AppendRecords(ctx context.Context, request *solaris.AppendRec
 			l.logger.Infof("creating new chunk id=%s for the logID=%s", ci.ID, lid)
 		}
 		arr, err := l.appendRecords(ctx, ci.ID, ci.RecordsCount == 0, recs)
+		if errors.Is(err, errors.ErrExhausted) && ci.RecordsCount > 0 {
+			// the records do not fit into the existing chunk, so continue with a new one
+			ci.RecordsCount = 0
+			continue
+		}
 		if err != nil {
 			gerr = err
 			break
-- 
2.43.0


From 5706b81cde3c783b350c450d424d1e53d76e418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:45 +0000
Subject: [PATCH 02/46] fix: next page ID of a descending query points to the
 previous record

NextID() was used for both directions, so a client reading the pages of one log
backwards got the last record of a page again, and with the limit=1 for ever.
---
 pkg/api/service.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index de44642..15f619f 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -119,7 +119,11 @@ func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecord
 		}
 		nextID := ""
 		if more {
-			nextID = ulidutils.NextID(res[len(res)-1].ID)
+			if request.Descending {
+				nextID = ulidutils.PrevID(res[len(res)-1].ID)
+			} else {
+				nextID = ulidutils.NextID(res[len(res)-1].ID)
+			}
 		}
 		return &solaris.QueryRecordsResult{Records: res, NextPageID: nextID}, nil
 	}
-- 
2.43.0


From 0c6cbad20a53508f70c3457ee557325e994b8dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:45 +0000
Subject: [PATCH 03/46] fix: no panic for a zero, negative or huge limit in
 QueryRecords

---
 pkg/api/service.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index 15f619f..1011922 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -118,7 +118,7 @@ func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecord
 			return nil, errors.GRPCWrap(err)
 		}
 		nextID := ""
-		if more {
+		if more && len(res) > 0 {
 			if request.Descending {
 				nextID = ulidutils.PrevID(res[len(res)-1].ID)
 			} else {
@@ -138,7 +138,7 @@ func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecord
 
 	lim := request.Limit
 
-	res := make([]*solaris.Record, 0, lim)
+	var res []*solaris.Record
 	for mx.HasNext() && lim > 0 {
 		r, ok := mx.Next()
 		if !ok {
-- 
2.43.0


From 652a3c9a0c8aeedd3751e483ff5ae9fed7e8af78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:45 +0000
Subject: [PATCH 04/46] fix: CountRecords reports read errors and the total for
 conditions nothing matches

---
 pkg/api/service.go            | 2 +-
 pkg/storage/logfs/locallog.go | 5 +----
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index 1011922..9e2fb44 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -190,7 +190,7 @@ func (s *Service) CountRecords(ctx context.Context, request *solaris.QueryRecord
 			Limit:   request.Limit},
 		)
 		if err != nil {
-			return nil, err
+			return nil, errors.GRPCWrap(err)
 		}
 
 		total += t
diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 2db4614..e7ca54a 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -354,9 +354,6 @@ func (l *localLog) CountRecords(ctx context.Context, request storage.QueryRecord
 	if err != nil {
 		return 0, 0, err
 	}
-	if len(request.Condition) > 0 && len(tis) == 0 {
-		return 0, 0, nil
-	}
 
 	var total uint64
 	var count uint64
@@ -373,7 +370,7 @@ func (l *localLog) CountRecords(ctx context.Context, request storage.QueryRecord
 			if sid.Compare(ulidutils.ZeroULID) != 0 || len(idRanges) > 0 {
 				recCnt, err = l.countRecords(ctx, ci, request.Descending, considerSIDAndDesc(idRanges, sid, request.Descending))
 				if err != nil {
-					return 0, 0, nil
+					return 0, 0, err
 				}
 			}
 			count += recCnt
-- 
2.43.0


From d3f4cb27d84a848c31fa7294bec404d8e7f19458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:33 +0000
Subject: [PATCH 05/46] fix: record and chunk IDs keep growing when the system
 clock moves back

---
 golibs/ulidutils/ulidutils.go | 34 +++++++++++++++++++++++++++++++---
 pkg/storage/chunkfs/chunk.go  |  9 +++++++++
 pkg/storage/logfs/locallog.go |  3 +++
 3 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/golibs/ulidutils/ulidutils.go b/golibs/ulidutils/ulidutils.go
index 0b7664f..9d2c96d 100644
--- a/golibs/ulidutils/ulidutils.go
+++ b/golibs/ulidutils/ulidutils.go
@@ -16,6 +16,7 @@ package ulidutils
 
 import (
 	"fmt"
+	"sync"
 
 	"github.com/google/uuid"
 	"github.com/oklog/ulid/v2"
@@ -26,9 +27,32 @@ var (
 	MaxULID, _ = ulid.Parse("7ZZZZZZZZZZZZZZZZZZZZZZZZZ")
 )
 
-// New returns new ulid.ULID.
+var (
+	lastLock sync.Mutex
+	// lastID is the biggest ID that was generated or seen so far
+	lastID ulid.ULID
+)
+
+// New returns new ulid.ULID. Every returned value is greater than the values returned before, even if
+// the system clock was moved backward in between.
 func New() ulid.ULID {
-	return ulid.Make()
+	lastLock.Lock()
+	defer lastLock.Unlock()
+	id := ulid.Make()
+	if id.Compare(lastID) <= 0 {
+		id = next(lastID)
+	}
+	lastID = id
+	return id
+}
+
+// Advance makes sure that the next values returned by New() will be greater than the id provided
+func Advance(id ulid.ULID) {
+	lastLock.Lock()
+	defer lastLock.Unlock()
+	if id.Compare(lastID) > 0 {
+		lastID = id
+	}
 }
 
 // NewUUID returns new ulid.ULID converted to uuid.UUID.
@@ -52,13 +76,17 @@ func NextID(ulidID string) string {
 	if err != nil {
 		panic(fmt.Sprintf("could not parse ULID=%q: %v", ulidID, err))
 	}
+	return next(uID).String()
+}
+
+func next(uID ulid.ULID) ulid.ULID {
 	for i := 15; i >= 0; i-- {
 		uID[i] += 1
 		if uID[i] != 0 {
 			break
 		}
 	}
-	return uID.String()
+	return uID
 }
 
 func PrevID(ulidID string) string {
diff --git a/pkg/storage/chunkfs/chunk.go b/pkg/storage/chunkfs/chunk.go
index 2780015..920cac3 100644
--- a/pkg/storage/chunkfs/chunk.go
+++ b/pkg/storage/chunkfs/chunk.go
@@ -283,6 +283,15 @@ func (c *Chunk) AppendRecords(recs []*solaris.Record) (AppendRecordsResult, erro
 		return AppendRecordsResult{}, err
 	}
 
+	if c.total > 0 {
+		// the new IDs must follow the existing ones, even if the clock was moved back since they were written
+		emb, err := c.getMetaBuf(c.total-1, 1)
+		if err != nil {
+			return AppendRecordsResult{}, err
+		}
+		ulidutils.Advance(emb.get(0).ID)
+	}
+
 	pOffset := c.freeOffset
 	var startID, lastID ulid.ULID
 	for i, r := range recs {
diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index e7ca54a..1052add 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -134,6 +134,9 @@ func (l *localLog) AppendRecords(ctx context.Context, request *solaris.AppendRec
 		return nil, err
 	}
 
+	// new chunk and record IDs must follow the existing ones, even if the clock was moved back
+	ulidutils.Advance(ci.Max)
+
 	recs := request.Records
 	added := 0
 	var gerr error
-- 
2.43.0


From 8e02b780f56ebb7418367c13718d31e945477aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 06/46] fix: no crash when an append is cancelled or races with
 the deletion of its log

---
 pkg/storage/logfs/locallog.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 1052add..fb93ebd 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -180,7 +180,11 @@ func (l *localLog) AppendRecords(ctx context.Context, request *solaris.AppendRec
 	if added > 0 {
 		// use context.Background instead of ctx to avoid some unrecoverable error in case of the ctx is closed, but we have some
 		// data written
-		if err := l.LMStorage.UpsertChunkInfos(ctx, lid, cis); err != nil {
+		if err := l.LMStorage.UpsertChunkInfos(context.Background(), lid, cis); err != nil {
+			if errors.Is(err, errors.ErrNotExist) {
+				// the log was deleted while the records were being written
+				return nil, fmt.Errorf("could not append records, the logID=%s is deleted: %w", lid, err)
+			}
 			// well, now it is unrecoverable!
 			l.logger.Errorf("could not write chunk IDs=%v for logID=%s, but the data is written into chunk. The data is corrupted now: %v", cis, lid, err)
 			panic("unrecoverable error, data is corrupted")
-- 
2.43.0


From 19ca7d017adae73e1f07d0f04870caf3f360a34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:17 +0000
Subject: [PATCH 07/46] fix: ReleasableCache notifies waiters when a creation
 fails and never deletes what was not created

---
 golibs/container/lru/releasable.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/golibs/container/lru/releasable.go b/golibs/container/lru/releasable.go
index 6a45242..9599bb6 100644
--- a/golibs/container/lru/releasable.go
+++ b/golibs/container/lru/releasable.go
@@ -132,7 +132,7 @@ func (r *ReleasableCache[K, V]) GetOrCreate(ctx context.Context, k K) (Releasabl
 		r.lock.Lock()
 		// if it was closed while we were creating the new object...
 		if r.closed {
-			if r.onDeleteF != nil {
+			if err == nil && r.onDeleteF != nil {
 				r.onDeleteF(k, v)
 			}
 			r.lock.Unlock()
@@ -145,6 +145,9 @@ func (r *ReleasableCache[K, V]) GetOrCreate(ctx context.Context, k K) (Releasabl
 		if err == nil {
 			rh = &rHolder[V]{refCounter: 1, value: v}
 			r.allKnown[k] = rh
+		} else {
+			// the slot is free again
+			r.notifyWaiters()
 		}
 		r.lock.Unlock()
 
@@ -169,13 +172,7 @@ func (r *ReleasableCache[K, V]) Release(rlsbl *Releasable[V]) {
 			return
 		}
 		r.lruCache.Add((rlsbl.k).(K), rlsbl.rh.value)
-		if r.waiter != nil {
-			r.sweep(r.maxSize)
-			if r.used() < r.maxSize {
-				close(r.waiter)
-				r.waiter = nil
-			}
-		}
+		r.notifyWaiters()
 	}
 	rlsbl.rh = nil
 	return
@@ -205,6 +202,19 @@ func (r *ReleasableCache[K, V]) Close() error {
 	return nil
 }
 
+// notifyWaiters lets the callers, that are waiting for the capacity, try again if a new object may be
+// created. The function must be called under the lock
+func (r *ReleasableCache[K, V]) notifyWaiters() {
+	if r.waiter == nil {
+		return
+	}
+	r.sweep(r.maxSize)
+	if r.used() < r.maxSize {
+		close(r.waiter)
+		r.waiter = nil
+	}
+}
+
 // used returns how many keys are created and how many are in flight so far. The function must
 // be called under the lock
 func (r *ReleasableCache[K, V]) used() int {
-- 
2.43.0


From 2b4bdb885735c7429722fcb9e8513e6a46aac3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:27 +0000
Subject: [PATCH 08/46] fix: lru caches do not keep an element removed while it
 was being created

---
 golibs/container/lru/ecache.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/golibs/container/lru/ecache.go b/golibs/container/lru/ecache.go
index fc651d5..1f12c7d 100644
--- a/golibs/container/lru/ecache.go
+++ b/golibs/container/lru/ecache.go
@@ -27,12 +27,19 @@ type ECache[PK any, K comparable, V any] struct {
 	lock           sync.Mutex
 	maxSize        int
 	items          *iterable.Map[K, pair[PK, V]]
-	inflight       map[K]chan struct{}
+	inflight       map[K]*load
 	createNewF     CreatePoolElemF[PK, V]
 	onDeleteF      OnDeleteElemF[PK, V]
 	mapToInnerKeyF MapToInnerKeyF[PK, K]
 }
 
+// load describes an element creation, which is in progress
+type load struct {
+	ch chan struct{}
+	// removed is set if the element was removed while it was being created
+	removed bool
+}
+
 type pair[PK any, V any] struct {
 	pk PK
 	v  V
@@ -54,7 +61,7 @@ func NewECache[PK any, K comparable, V any](maxSize int, toComparableF MapToInne
 	}
 	p := new(ECache[PK, K, V])
 	p.items = iterable.NewMap[K, pair[PK, V]]()
-	p.inflight = make(map[K]chan struct{})
+	p.inflight = make(map[K]*load)
 	p.maxSize = maxSize
 	p.createNewF = createNewF
 	p.onDeleteF = onDeleteF
@@ -74,26 +81,27 @@ func (p *ECache[PK, K, V]) GetOrCreate(pk PK) (V, error) {
 			p.lock.Unlock()
 			return res.v, nil
 		}
-		ch, watcher := p.inflight[k]
+		ld, watcher := p.inflight[k]
 		if !watcher {
-			ch = make(chan struct{})
-			p.inflight[k] = ch
+			ld = &load{ch: make(chan struct{})}
+			p.inflight[k] = ld
 		}
 		p.lock.Unlock()
 
 		// if watcher is true, it means that another goroutine already creating the new item,
 		// so it needs to wait for the result instead of requesting new value.
 		if watcher {
-			<-ch
+			<-ld.ch
 			continue
 		}
 
 		v, err := p.createNewF(pk)
 
 		p.lock.Lock()
-		close(ch)
+		close(ld.ch)
 		delete(p.inflight, k)
-		if err == nil {
+		// the element which was removed while it was being created is out of date already, so don't keep it
+		if err == nil && !ld.removed {
 			p.items.Add(k, pair[PK, V]{pk, v})
 			if p.maxSize < p.items.Len() {
 				k, _ := p.items.First()
@@ -117,6 +125,9 @@ func (p *ECache[PK, K, V]) Remove(pk PK) bool {
 	p.lock.Lock()
 	defer p.lock.Unlock()
 
+	if ld, ok := p.inflight[k]; ok {
+		ld.removed = true
+	}
 	v, ok := p.items.Get(k)
 	if !ok {
 		return false
@@ -132,6 +143,9 @@ func (p *ECache[PK, K, V]) Remove(pk PK) bool {
 func (p *ECache[PK, K, V]) Clear() int {
 	p.lock.Lock()
 	defer p.lock.Unlock()
+	for _, ld := range p.inflight {
+		ld.removed = true
+	}
 	it := p.items.Iterator()
 	removed := 0
 	for it.HasNext() {
-- 
2.43.0


From ab43bbf23301dc0996035681ac0e10be4efc6ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:35 +0000
Subject: [PATCH 09/46] fix: cached log metadata is dropped when a change of it
 reports an error

---
 pkg/storage/cache/cache.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pkg/storage/cache/cache.go b/pkg/storage/cache/cache.go
index c4f3992..0bc23bb 100644
--- a/pkg/storage/cache/cache.go
+++ b/pkg/storage/cache/cache.go
@@ -89,12 +89,9 @@ func (s *CachedStorage) GetLogByID(ctx context.Context, id string) (*solaris.Log
 
 // UpdateLog implements storage.Logs
 func (s *CachedStorage) UpdateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error) {
-	l, err := s.storage.UpdateLog(ctx, log)
-	if err != nil {
-		return nil, err
-	}
-	s.logsCache.Remove(log.ID)
-	return l, err
+	// the update may be applied even if the error is reported
+	defer s.logsCache.Remove(log.ID)
+	return s.storage.UpdateLog(ctx, log)
 }
 
 // QueryLogs implements storage.Logs
@@ -106,6 +103,9 @@ func (s *CachedStorage) QueryLogs(ctx context.Context, qr storage.QueryLogsReque
 func (s *CachedStorage) DeleteLogs(ctx context.Context, request storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
 	dr, err := s.storage.DeleteLogs(ctx, request)
 	if err != nil {
+		// the logs may be deleted even if the error is reported
+		s.logsCache.Clear()
+		s.chunksCache.Clear()
 		return nil, err
 	}
 	for _, id := range dr.DeletedIDs {
@@ -134,9 +134,7 @@ func (s *CachedStorage) GetChunks(ctx context.Context, logID string) ([]logfs.Ch
 
 // UpsertChunkInfos implements logfs.LogsMetaStorage
 func (s *CachedStorage) UpsertChunkInfos(ctx context.Context, logID string, cis []logfs.ChunkInfo) error {
-	if err := s.storage.UpsertChunkInfos(ctx, logID, cis); err != nil {
-		return err
-	}
-	s.chunksCache.Remove(logID)
-	return nil
+	// the chunks may be changed even if the error is reported
+	defer s.chunksCache.Remove(logID)
+	return s.storage.UpsertChunkInfos(ctx, logID, cis)
 }
-- 
2.43.0


From 0fd18b923209aad752b7d5d0959f9d766c2e4346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:09 +0000
Subject: [PATCH 10/46] fix: a chunk is deleted locally only after it is stored
 remotely, and is downloaded completely or not at all

---
 pkg/storage/chunkfs/replicator.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/pkg/storage/chunkfs/replicator.go b/pkg/storage/chunkfs/replicator.go
index a2c5097..1439817 100644
--- a/pkg/storage/chunkfs/replicator.go
+++ b/pkg/storage/chunkfs/replicator.go
@@ -108,8 +108,9 @@ func (r *Replicator) DeleteChunk(ctx context.Context, cID string, flags int) err
 	var resErr error
 	if flags&RFRemoteSync != 0 {
 		if err := r.zipAndUploadChunk(ctx, cID); err != nil {
+			// the local file may be the only copy, so keep it
 			r.logger.Warnf("error while syncing chunk cID=%s, flags=%d to remote: %s", cID, flags, err)
-			resErr = err
+			return err
 		}
 	}
 
@@ -177,7 +178,8 @@ func zipFile(cID, fn, zfn string) error {
 	if _, err := io.Copy(w, f); err != nil {
 		return err
 	}
-	return nil
+	// the file is complete only if it is closed without errors
+	return zw.Close()
 }
 
 func getStorageKey(cID string) string {
@@ -195,8 +197,10 @@ func (r *Replicator) downloadZip(ctx context.Context, cID, zfn string) error {
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 	_, err = io.Copy(f, rdr)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
 	return err
 }
 
@@ -217,12 +221,21 @@ func (r *Replicator) unzip(zfn, fn string) error {
 	}
 	defer it.Close()
 
-	_ = os.Remove(fn)
-	f, err := os.Create(fn)
+	// the chunk file must either be complete or not exist, so write the data into a temporary file first
+	tfn := fn + ".tmp"
+	f, err := os.Create(tfn)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 	_, err = io.Copy(f, it)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(tfn, fn)
+	}
+	if err != nil {
+		_ = os.Remove(tfn)
+	}
 	return err
 }
-- 
2.43.0


From 6073a038f8c18080a7fa954ab21cfad03a2d3c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:27 +0000
Subject: [PATCH 11/46] fix: NewSignalsContext does not lose a signal that
 arrives before the reader is ready

---
 golibs/context/signal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/golibs/context/signal.go b/golibs/context/signal.go
index 2514c7a..a5295d4 100644
--- a/golibs/context/signal.go
+++ b/golibs/context/signal.go
@@ -22,7 +22,8 @@ import (
 // NewSignalsContext returns a context.Context that will be closed by one of the provided syscall.Signal(s)
 func NewSignalsContext(signals ...os.Signal) context.Context {
 	ctx, cancel := context.WithCancel(context.Background())
-	quit := make(chan os.Signal)
+	// the signal package does not wait for the reader, so keep the place for the first signal
+	quit := make(chan os.Signal, 1)
 	signal.Notify(quit, signals...)
 	go func() {
 		<-quit
-- 
2.43.0


From e4b4880c3ef9a0517928dba0b5d81ae159deb258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:36 +0000
Subject: [PATCH 12/46] fix: a local chunk file is not dropped or overwritten
 because of a file system error

---
 pkg/storage/chunkfs/provider.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/storage/chunkfs/provider.go b/pkg/storage/chunkfs/provider.go
index a884117..b226024 100644
--- a/pkg/storage/chunkfs/provider.go
+++ b/pkg/storage/chunkfs/provider.go
@@ -78,6 +78,7 @@ func (p *Provider) DeleteFileIfEmpty(cID string) {
 	}
 	if !p.CA.setDeleting(cID) {
 		p.logger.Errorf("DeleteFileIfEmpty(): something goes wrong, cannot mark chunk %s for deleting", cID)
+		return
 	}
 	defer p.CA.SetIdle(cID)
 	fn := p.GetFileNameByID(cID)
@@ -121,9 +122,8 @@ func (p *Provider) openChunk(ctx context.Context, cID string) (*Chunk, error) {
 	err = c.Open(false)
 	if errors.Is(err, errCorrupted) && !downloaded {
 		p.logger.Warnf("tried to open the chunk=%v, but got the corrupted error, will sync the file from remote and try again: %v", c, err)
-		_ = os.Remove(c.fn)
-		_, err = p.downloadFileIfNotExists(ctx, cID, fn)
-		if err == nil {
+		// the local file is replaced only if the remote copy is there
+		if err = p.Replicator.DownloadChunk(ctx, cID, RFRemoteSync); err == nil {
 			err = c.Open(false)
 		}
 	}
@@ -140,6 +140,10 @@ func (p *Provider) openChunk(ctx context.Context, cID string) (*Chunk, error) {
 
 func (p *Provider) downloadFileIfNotExists(ctx context.Context, cID, fn string) (bool, error) {
 	if _, err := os.Stat(fn); err != nil {
+		if !errors.Is(err, errors.ErrNotExist) {
+			// the local file may be there, and it may be newer than the remote one
+			return false, err
+		}
 		p.logger.Infof("downloadFileIfNotExists - no file for cID=%s on the local file system: %s", cID, err)
 		if err := p.Replicator.DownloadChunk(ctx, cID, RFRemoteSync); err != nil {
 			return false, err
-- 
2.43.0


From b77b3f32fabe9b7f8d76e0c650ec585ef576e08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:27 +0000
Subject: [PATCH 13/46] fix: a failure or a crash while a chunk grows does not
 make its records unavailable

---
 golibs/files/mmfile.go       | 12 +++---
 pkg/storage/chunkfs/chunk.go | 72 +++++++++++++++++++++++++++---------
 2 files changed, 60 insertions(+), 24 deletions(-)

diff --git a/golibs/files/mmfile.go b/golibs/files/mmfile.go
index 570d0da..fe6a925 100644
--- a/golibs/files/mmfile.go
+++ b/golibs/files/mmfile.go
@@ -114,7 +114,8 @@ func (mmf *MMFile) Size() int64 {
 	return mmf.size
 }
 
-// Grow allows to increase the mapped region to the newSize.
+// Grow allows to increase the mapped region to the newSize. If the function returns an error, the mapped region
+// stays as it was before the call, but the file size may be changed.
 func (mmf *MMFile) Grow(newSize int64) (err error) {
 	if mmf.size == newSize {
 		return nil
@@ -127,18 +128,17 @@ func (mmf *MMFile) Grow(newSize int64) (err error) {
 		return err
 	}
 
-	mmf.unmap()
-
 	if err = mmf.f.Truncate(newSize); err != nil {
-		mmf.Close()
 		return fmt.Errorf("could not extend file size to %d: %w", newSize, err)
 	}
 
-	mmf.mf, err = mmap.MapRegion(mmf.f, int(newSize), mmap.RDWR, 0, 0)
+	mf, err := mmap.MapRegion(mmf.f, int(newSize), mmap.RDWR, 0, 0)
 	if err != nil {
-		mmf.Close()
+		_ = mmf.f.Truncate(mmf.size)
 		return err
 	}
+	mmf.unmap()
+	mmf.mf = mf
 	mmf.size = newSize
 	return
 }
diff --git a/pkg/storage/chunkfs/chunk.go b/pkg/storage/chunkfs/chunk.go
index 920cac3..aa7b38e 100644
--- a/pkg/storage/chunkfs/chunk.go
+++ b/pkg/storage/chunkfs/chunk.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"os"
 	"sort"
 	"sync"
 
@@ -95,6 +96,9 @@ const (
 	// MaxChunkSize defines the maximum Chunk size. No Chunk may exceed the size
 	cMaxChunkSize = files.BlockSize * 512 * 1024
 	cHeaderSize   = 32
+	// cGrowOffset is the header offset of the information about the growing of the Chunk, which is not completed:
+	// the size of the Chunk before (8 bytes) and the number of bytes of the meta-records that are already moved (8 bytes).
+	cGrowOffset = 16
 	// cMetaRecordSize is the size of one meta-record
 	cMetaRecordSize = 24
 )
@@ -163,7 +167,12 @@ func (c *Chunk) Open(fullCheck bool) error {
 		return nil
 	}
 	c.logger.Debugf("opening, fullCheck=%t", fullCheck)
-	mmf, err := files.NewMMFile(c.fn, c.cfg.NewSize)
+	size := c.cfg.NewSize
+	if fi, err := os.Stat(c.fn); err == nil && fi.Size() > 0 && fi.Size()%files.BlockSize == 0 {
+		// the meta-records are in the end of the file, so the file size must not be changed here
+		size = -1
+	}
+	mmf, err := files.NewMMFile(c.fn, size)
 	if err != nil {
 		return err
 	}
@@ -188,11 +197,16 @@ func (c *Chunk) init(fullCheck bool) error {
 		copy(hdr[:vLen], hdrVersion)
 		// total count
 		binary.BigEndian.PutUint32(hdr[vLen:vLen+4], uint32(0))
+		// no growing is in progress
+		binary.BigEndian.PutUint64(hdr[cGrowOffset:], 0)
 	}
 	c.total = int(binary.BigEndian.Uint32(hdr[vLen : vLen+4]))
 	if c.total < 0 {
 		return fmt.Errorf("the chunk is corrupted, wrong total=%d: %w", c.total, errCorrupted)
 	}
+	if err := c.completeGrow(); err != nil {
+		return err
+	}
 	c.freeOffset = cHeaderSize
 	if c.total > 0 {
 		mb, err := c.getMetaBuf(int(c.total)-1, 1)
@@ -364,31 +378,53 @@ func (c *Chunk) growForWrite(size int64) error {
 		newSize = c.cfg.MaxChunkSize
 	}
 
-	oldSize := c.mmf.Size()
+	if c.total > 0 {
+		// the process may die before the meta-records are moved, so remember where they are
+		hdr, err := c.mmf.Buffer(0, cHeaderSize)
+		if err != nil {
+			return err
+		}
+		binary.BigEndian.PutUint64(hdr[cGrowOffset+8:], 0)
+		binary.BigEndian.PutUint64(hdr[cGrowOffset:], uint64(c.mmf.Size()))
+	}
 	if err := c.mmf.Grow(newSize); err != nil {
 		return err
 	}
+	return c.completeGrow()
+}
 
-	if c.total == 0 {
-		// empty Chunk
+// completeGrow moves the meta-records to the end of the Chunk, if they are not there yet after the Chunk size is increased
+func (c *Chunk) completeGrow() error {
+	hdr, err := c.mmf.Buffer(0, cHeaderSize)
+	if err != nil {
+		return err
+	}
+	mSize := int64(c.total) * cMetaRecordSize
+	oldSize := int64(binary.BigEndian.Uint64(hdr[cGrowOffset:]))
+	moved := int64(binary.BigEndian.Uint64(hdr[cGrowOffset+8:]))
+	if oldSize == 0 {
 		return nil
 	}
-
-	// now, move meta to the end of the new Chunk
-	mSize := int(c.total * cMetaRecordSize)
-	mOffset := oldSize - int64(mSize)
-	oldMBuf, err := c.mmf.Buffer(mOffset, mSize)
-	if err != nil {
-		c.logger.Errorf("could not map meta-buffer with offset %d for size=%d: %v", mOffset, mSize, err)
-		return fmt.Errorf("could not Grow Chunk: %w", fmt.Errorf("could not map meta-buffer with offset %d for size=%d: %w", mOffset, mSize, errors.ErrInternal))
+	delta := c.mmf.Size() - oldSize
+	if delta < 0 || oldSize < cHeaderSize+mSize || moved < 0 || moved > mSize {
+		return fmt.Errorf("the chunk is corrupted, wrong size before growing=%d: %w", oldSize, errCorrupted)
 	}
-	newMBuf, err := c.mmf.Buffer(c.mmf.Size()-int64(mSize), mSize)
-	if err != nil {
-		c.logger.Errorf("could not map meta-buffer with offset %d for size=%d: %v", mOffset, mSize, err)
-		return fmt.Errorf("could not Grow Chunk: %w", fmt.Errorf("could not map meta-buffer with offset %d for size=%d: %w", mOffset, mSize, errors.ErrInternal))
+	for delta > 0 && moved < mSize {
+		// no overlapping of what is read and written, so every step may be repeated
+		n := min(delta, mSize-moved)
+		src, err := c.mmf.Buffer(oldSize-moved-n, int(n))
+		if err != nil {
+			return fmt.Errorf("could not map meta-buffer with offset %d for size=%d: %w", oldSize-moved-n, n, errors.ErrInternal)
+		}
+		dst, err := c.mmf.Buffer(oldSize-moved-n+delta, int(n))
+		if err != nil {
+			return fmt.Errorf("could not map meta-buffer with offset %d for size=%d: %w", oldSize-moved-n+delta, n, errors.ErrInternal)
+		}
+		copy(dst, src)
+		moved += n
+		binary.BigEndian.PutUint64(hdr[cGrowOffset+8:], uint64(moved))
 	}
-	copy(newMBuf, oldMBuf)
-
+	binary.BigEndian.PutUint64(hdr[cGrowOffset:], 0)
 	return nil
 }
 
-- 
2.43.0


From 18c32063f1a4fa1d4270b3c6418c67c0b716615b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:47 +0000
Subject: [PATCH 14/46] fix: the scanner stops even if every scan takes longer
 than GlobalSyncTimeout

---
 pkg/storage/chunkfs/scanner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/storage/chunkfs/scanner.go b/pkg/storage/chunkfs/scanner.go
index 9ac3528..e9351c5 100644
--- a/pkg/storage/chunkfs/scanner.go
+++ b/pkg/storage/chunkfs/scanner.go
@@ -143,6 +143,10 @@ func (s *Scanner) watcherWithF(ctx context.Context, f func(ctx context.Context,
 			}(filepath.Join(s.cfg.DataPath, fi.Name()))
 		}
 		wg.Wait()
+		if ctx.Err() != nil {
+			// the scan may take longer than the GlobalSyncTimeout every time
+			return
+		}
 		diff := time.Now().Sub(start)
 		if diff < s.cfg.GlobalSyncTimeout {
 			select {
-- 
2.43.0


From d8e0010e003f9323889d1f47396f32fa7797ea15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:53 +0000
Subject: [PATCH 15/46] fix: a read over several logs does not return records
 added to a log after its end was reached

---
 pkg/api/riterator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/api/riterator.go b/pkg/api/riterator.go
index 2e0d611..0713633 100644
--- a/pkg/api/riterator.go
+++ b/pkg/api/riterator.go
@@ -87,6 +87,11 @@ func (ri *rIterator) fillBuf() error {
 	if ri.bPos < len(ri.buf) {
 		return ri.ctx.Err()
 	}
+	if ri.eof {
+		// the end was reached already. The records added to the log after that are not considered, because
+		// others, which must follow them, could be returned already by the iterators of other logs.
+		return ri.ctx.Err()
+	}
 
 	q := ri.baseQuery
 	q.Limit = min(100, ri.baseQuery.Limit)
-- 
2.43.0


From 7c098e9c6cdc9b3c0a3268eee7e7f9ddc69759c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 16/46] fix: kvs/inmem: an expired record is not there for any
 call, and its waiters are told

---
 golibs/kvs/inmem/inmem.go | 88 +++++++++++++++++++++++----------------
 1 file changed, 51 insertions(+), 37 deletions(-)

diff --git a/golibs/kvs/inmem/inmem.go b/golibs/kvs/inmem/inmem.go
index 8ef80ba..5dea670 100644
--- a/golibs/kvs/inmem/inmem.go
+++ b/golibs/kvs/inmem/inmem.go
@@ -57,7 +57,7 @@ func (s *service) Create(ctx context.Context, record kvs.Record) (string, error)
 	if ctx.Err() != nil {
 		return "", ctx.Err()
 	}
-	if r, ok := s.recs[record.Key]; ok {
+	if r, ok := s.get(record.Key); ok {
 		return r.Version, errors.ErrExist
 	}
 	record.Version = ulidutils.NewID()
@@ -68,17 +68,10 @@ func (s *service) Create(ctx context.Context, record kvs.Record) (string, error)
 func (s *service) Get(ctx context.Context, key string) (kvs.Record, error) {
 	s.lock.Lock()
 	defer s.lock.Unlock()
-	r, ok := s.recs[key]
+	r, ok := s.get(key)
 	if !ok {
 		return kvs.Record{}, errors.ErrNotExist
 	}
-	if r.ExpiresAt != nil {
-		if r.ExpiresAt.Before(time.Now()) {
-			delete(s.recs, key)
-			s.notifyWaiters(key)
-			return kvs.Record{}, errors.ErrNotExist
-		}
-	}
 	return r, nil
 }
 
@@ -108,17 +101,10 @@ func (s *service) GetMany(ctx context.Context, keys ...string) ([]*kvs.Record, e
 
 	res := make([]*kvs.Record, len(keys))
 	for idx, key := range keys {
-		r, ok := s.recs[key]
+		r, ok := s.get(key)
 		if !ok {
 			continue
 		}
-		if r.ExpiresAt != nil {
-			if r.ExpiresAt.Before(time.Now()) {
-				delete(s.recs, key)
-				s.notifyWaiters(key)
-				continue
-			}
-		}
 		res[idx] = &r
 	}
 	return res, nil
@@ -127,17 +113,10 @@ func (s *service) GetMany(ctx context.Context, keys ...string) ([]*kvs.Record, e
 func (s *service) CasByVersion(ctx context.Context, record kvs.Record) (kvs.Record, error) {
 	s.lock.Lock()
 	defer s.lock.Unlock()
-	r, ok := s.recs[record.Key]
+	r, ok := s.get(record.Key)
 	if !ok {
 		return kvs.Record{}, errors.ErrNotExist
 	}
-	if r.ExpiresAt != nil {
-		if r.ExpiresAt.Before(time.Now()) {
-			delete(s.recs, record.Key)
-			s.notifyWaiters(record.Key)
-			return kvs.Record{}, errors.ErrNotExist
-		}
-	}
 	if r.Version != record.Version {
 		return kvs.Record{}, errors.ErrConflict
 	}
@@ -151,7 +130,7 @@ func (s *service) Delete(ctx context.Context, key string) error {
 	s.lock.Lock()
 	defer s.lock.Unlock()
 
-	if _, ok := s.recs[key]; !ok {
+	if _, ok := s.get(key); !ok {
 		return errors.ErrNotExist
 	}
 	delete(s.recs, key)
@@ -162,7 +141,7 @@ func (s *service) Delete(ctx context.Context, key string) error {
 func (s *service) WaitForVersionChange(ctx context.Context, key, ver string) error {
 	for {
 		s.lock.Lock()
-		r, ok := s.recs[key]
+		r, ok := s.get(key)
 		if !ok {
 			s.lock.Unlock()
 			return errors.ErrNotExist
@@ -179,22 +158,33 @@ func (s *service) WaitForVersionChange(ctx context.Context, key, ver string) err
 		ws.waiters++
 		s.lock.Unlock()
 
+		// the record may disappear by its expiration, and nobody reports about that
+		var expired <-chan time.Time
+		var timer *time.Timer
+		if r.ExpiresAt != nil {
+			timer = time.NewTimer(time.Until(*r.ExpiresAt) + time.Nanosecond)
+			expired = timer.C
+		}
+
 		select {
 		case <-ctx.Done():
+			if timer != nil {
+				timer.Stop()
+			}
 			s.lock.Lock()
 			defer s.lock.Unlock()
-			ws1, ok := s.verChange[key]
-			if !ok || ws.done != ws1.done {
-				return ctx.Err()
-			}
-			ws.waiters--
-			if ws.waiters == 0 {
-				close(ws.done)
-				delete(s.verChange, key)
-			}
+			s.leave(key, ws)
 			return ctx.Err()
 		case <-ws.done:
 			// need to check the version, go around
+			if timer != nil {
+				timer.Stop()
+			}
+		case <-expired:
+			// the record is expired, s.get() will remove it and notify other waiters
+			s.lock.Lock()
+			s.leave(key, ws)
+			s.lock.Unlock()
 		}
 	}
 }
@@ -209,13 +199,37 @@ func (s *service) ListKeys(ctx context.Context, pattern string) (iterable.Iterat
 	}
 	res := []string{}
 	for k := range s.recs {
-		if g.Match(k) {
+		if _, ok := s.get(k); ok && g.Match(k) {
 			res = append(res, k)
 		}
 	}
 	return &keysIterator{res: res}, nil
 }
 
+// get returns the record by its key. The record, which is expired, is removed. The s.lock must be held
+func (s *service) get(key string) (kvs.Record, bool) {
+	r, ok := s.recs[key]
+	if ok && r.ExpiresAt != nil && r.ExpiresAt.Before(time.Now()) {
+		delete(s.recs, key)
+		s.notifyWaiters(key)
+		return kvs.Record{}, false
+	}
+	return r, ok
+}
+
+// leave excludes the caller from the waiters ws. The s.lock must be held
+func (s *service) leave(key string, ws *waiter) {
+	ws1, ok := s.verChange[key]
+	if !ok || ws.done != ws1.done {
+		return
+	}
+	ws.waiters--
+	if ws.waiters == 0 {
+		close(ws.done)
+		delete(s.verChange, key)
+	}
+}
+
 func (s *service) notifyWaiters(key string) {
 	ws, ok := s.verChange[key]
 	if !ok {
-- 
2.43.0


From bde656fd6337a40601e3ebc575c061d5cf7fed44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 17/46] fix: kvs/inmem: the stored records do not share memory
 with the callers' ones

---
 golibs/kvs/inmem/inmem.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/golibs/kvs/inmem/inmem.go b/golibs/kvs/inmem/inmem.go
index 5dea670..04af09b 100644
--- a/golibs/kvs/inmem/inmem.go
+++ b/golibs/kvs/inmem/inmem.go
@@ -61,7 +61,7 @@ func (s *service) Create(ctx context.Context, record kvs.Record) (string, error)
 		return r.Version, errors.ErrExist
 	}
 	record.Version = ulidutils.NewID()
-	s.recs[record.Key] = record
+	s.recs[record.Key] = record.Copy()
 	return record.Version, nil
 }
 
@@ -72,14 +72,14 @@ func (s *service) Get(ctx context.Context, key string) (kvs.Record, error) {
 	if !ok {
 		return kvs.Record{}, errors.ErrNotExist
 	}
-	return r, nil
+	return r.Copy(), nil
 }
 
 func (s *service) Put(ctx context.Context, record kvs.Record) (kvs.Record, error) {
 	s.lock.Lock()
 	defer s.lock.Unlock()
 	record.Version = ulidutils.NewID()
-	s.recs[record.Key] = record
+	s.recs[record.Key] = record.Copy()
 	s.notifyWaiters(record.Key)
 	return record, nil
 }
@@ -89,7 +89,7 @@ func (s *service) PutMany(ctx context.Context, records []kvs.Record) error {
 	defer s.lock.Unlock()
 	for _, r := range records {
 		r.Version = ulidutils.NewID()
-		s.recs[r.Key] = r
+		s.recs[r.Key] = r.Copy()
 		s.notifyWaiters(r.Key)
 	}
 	return nil
@@ -105,6 +105,7 @@ func (s *service) GetMany(ctx context.Context, keys ...string) ([]*kvs.Record, e
 		if !ok {
 			continue
 		}
+		r = r.Copy()
 		res[idx] = &r
 	}
 	return res, nil
@@ -121,7 +122,7 @@ func (s *service) CasByVersion(ctx context.Context, record kvs.Record) (kvs.Reco
 		return kvs.Record{}, errors.ErrConflict
 	}
 	record.Version = ulidutils.NewID()
-	s.recs[record.Key] = record
+	s.recs[record.Key] = record.Copy()
 	s.notifyWaiters(record.Key)
 	return record, nil
 }
-- 
2.43.0


From 9115abd18fdc0e7927b13e573c9dc6626d97356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 18/46] fix: timeout: a long running call does not delay other
 calls, when there are free workers

---
 golibs/timeout/timeout.go | 52 +++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/golibs/timeout/timeout.go b/golibs/timeout/timeout.go
index 354cf4c..26e08d3 100644
--- a/golibs/timeout/timeout.go
+++ b/golibs/timeout/timeout.go
@@ -32,6 +32,8 @@ type (
 		wakeCh      chan bool
 		futures     *futures
 		watchers    int
+		idle        int         // number of watchers, which wait for a future to be fired
+		alarm       *time.Timer // is set if all watchers are busy, but there is a future to be fired later
 		idleTimeout time.Duration
 		maxWorkers  int
 	}
@@ -100,12 +102,37 @@ func (cc *callControl) add(fu *future) {
 	cc.lock.Lock()
 	defer cc.lock.Unlock()
 	heap.Push(cc.futures, fu)
-	if cc.watchers == 0 {
+	cc.ensureWatcher()
+}
+
+// ensureWatcher makes sure that the next future will be fired in time even if all the watchers are
+// busy by executing other functions. The cc.lock must be held
+func (cc *callControl) ensureWatcher() {
+	if cc.alarm != nil {
+		cc.alarm.Stop()
+		cc.alarm = nil
+	}
+	if cc.futures.Len() == 0 {
+		return
+	}
+	if cc.idle > 0 {
+		cc.notifyWatcher()
+		return
+	}
+	if cc.watchers >= cc.maxWorkers {
+		return
+	}
+	tmt := time.Until((*cc.futures)[0].fireT)
+	if cc.watchers == 0 || tmt < 0 {
 		cc.watchers++
 		go cc.watcher()
-	} else {
-		cc.notifyWatcher()
+		return
 	}
+	cc.alarm = time.AfterFunc(tmt+time.Nanosecond, func() {
+		cc.lock.Lock()
+		defer cc.lock.Unlock()
+		cc.ensureWatcher()
+	})
 }
 
 func (cc *callControl) futureAsString(fu *future) string {
@@ -167,23 +194,18 @@ func (cc *callControl) watcher() {
 			if now.After(fireT) {
 				fu := heap.Pop(cc.futures).(*future)
 				f = fu.f
-				if cc.futures.Len() > 0 {
-					fireT = (*cc.futures)[0].fireT
-					if now.After(fireT) && cc.watchers < cc.maxWorkers {
-						// spawn new worker if there is a job to do
-						cc.watchers++
-						go cc.watcher()
-					}
-				}
+				// spawn new worker if there is a job to do
+				cc.ensureWatcher()
 				cc.lock.Unlock()
 				continue
 			}
 
 			tmt = fireT.Sub(now)
 			if cc.watchers > 1 {
-				// if the worker already slept once with no job, let it go
-				if misCount > 1 {
+				// if the worker already slept once with no job, let it go, if others wait for the job
+				if misCount > 1 && cc.idle > 0 {
 					cc.watchers--
+					cc.notifyWatcher()
 					cc.lock.Unlock()
 					return
 				}
@@ -192,6 +214,7 @@ func (cc *callControl) watcher() {
 				}
 			}
 		}
+		cc.idle++
 		cc.lock.Unlock()
 
 		tmr := time.NewTimer(tmt)
@@ -203,6 +226,9 @@ func (cc *callControl) watcher() {
 			}
 			misCount = 0
 		}
+		cc.lock.Lock()
+		cc.idle--
+		cc.lock.Unlock()
 	}
 }
 
-- 
2.43.0


From 715c743b7f764dbafaa766451c7d64cb15807995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 19/46] fix: distlock: a lock does not lose its lease by a
 failed prolongation and does not remove a record of another owner

---
 golibs/kvs/distlock/kvlock.go | 66 +++++++++++++++++++++++++----------
 1 file changed, 47 insertions(+), 19 deletions(-)

diff --git a/golibs/kvs/distlock/kvlock.go b/golibs/kvs/distlock/kvlock.go
index ffb2b20..7629e5f 100644
--- a/golibs/kvs/distlock/kvlock.go
+++ b/golibs/kvs/distlock/kvlock.go
@@ -24,6 +24,7 @@ import (
 	"github.com/solarisdb/solaris/golibs/logging"
 	"github.com/solarisdb/solaris/golibs/sync"
 	"github.com/solarisdb/solaris/golibs/timeout"
+	gosync "sync"
 	"sync/atomic"
 	"time"
 )
@@ -45,9 +46,12 @@ type kvsLock struct {
 	dlp     *kvsLockProvider // immutable
 	key     string           // immutable
 	lockCh  chan bool        // immutable
-	future  atomic.Value     // timeout.Future
 	lckCntr int32
 	waiters int32
+
+	leaseLock gosync.Mutex   // protects the fields below
+	ver       string         // version of the record we hold, it is empty if the lock is not held
+	future    timeout.Future // the next lease prolongation
 }
 
 // LockProvider helper interface to indicate that the object has
@@ -111,7 +115,7 @@ func (l *kvsLock) TryLock(ctx context.Context) bool {
 		Value:     cast.StringToByteArray(""),
 		ExpiresAt: cast.Ptr(time.Now().Add(l.dlp.leaseTTL)),
 	}); err == nil {
-		l.future.Store(timeout.Call(func() { l.supportTimeout(ver) }, l.dlp.leaseTTL/2))
+		l.startLease(ver)
 		return true
 	}
 	atomic.StoreInt32(&l.lckCntr, 0)
@@ -139,12 +143,23 @@ func (l *kvsLock) Unlock() {
 		panic("kvsLock: an attempt to unlock not-locked object " + l.String())
 	}
 
-	future := l.future.Load().(timeout.Future)
-	future.Cancel()
-	err := l.dlp.Storage.Delete(context.Background(), l.key)
+	l.leaseLock.Lock()
+	l.future.Cancel()
+	ver := l.ver
+	l.ver = ""
+	l.leaseLock.Unlock()
+
+	// the lease could be over already, and the record may belong to another owner, so the record is
+	// removed (it gets expired) only if it is still ours.
+	_, err := l.dlp.Storage.CasByVersion(context.Background(), kvs.Record{
+		Key:       l.key,
+		Value:     cast.StringToByteArray(""),
+		Version:   ver,
+		ExpiresAt: cast.Ptr(time.Now().Add(-l.dlp.leaseTTL)),
+	})
 	if err != nil && !errors.Is(err, errors.ErrNotExist) {
 		// some serious situation with the storage corruption or non-availability
-		l.dlp.logger.Warnf("kvsLock.Unlock(): could not read the key %s, but will release the lock: %s", l.String(), err)
+		l.dlp.logger.Warnf("kvsLock.Unlock(): could not release the key %s, but will release the lock: %s", l.String(), err)
 	}
 
 	// unlock the lock
@@ -174,7 +189,7 @@ func (l *kvsLock) lockWithCtx(ctx context.Context) error {
 			ExpiresAt: cast.Ptr(time.Now().Add(l.dlp.leaseTTL)),
 		})
 		if err == nil {
-			l.future.Store(timeout.Call(func() { l.supportTimeout(ver) }, l.dlp.leaseTTL/2))
+			l.startLease(ver)
 			return nil
 		}
 
@@ -189,28 +204,41 @@ func (l *kvsLock) lockWithCtx(ctx context.Context) error {
 	return err
 }
 
-// supportTimeout tries to refresh the record timeout if we hold it too long (at least twice of leaseTTL)
-// the function is tricky, cause it uses CAS operation to update the record version and if the version
-// is updated, it recharges the timeout. This is where the new raise can happen and the new future may
-// overwrite the future flag stored in the atomic.
+// startLease is called when the record with the version ver is created by the lock
+func (l *kvsLock) startLease(ver string) {
+	l.leaseLock.Lock()
+	defer l.leaseLock.Unlock()
+	l.ver = ver
+	l.future = timeout.Call(func() { l.supportTimeout(ver) }, l.dlp.leaseTTL/2)
+}
+
+// supportTimeout tries to refresh the record timeout if we hold it too long (at least half of leaseTTL)
+// the function uses CAS operation to update the record version and if the version is updated, it recharges
+// the timeout. If the record could not be updated, but it may be still ours, the function will be called soon again.
 func (l *kvsLock) supportTimeout(ver string) {
-	future := l.future.Load().(timeout.Future)
+	l.leaseLock.Lock()
+	defer l.leaseLock.Unlock()
+	if l.ver != ver {
+		// released already
+		return
+	}
 	r, err := l.dlp.Storage.CasByVersion(context.Background(), kvs.Record{
 		Key:       l.key,
 		Value:     cast.StringToByteArray(""),
 		Version:   ver,
 		ExpiresAt: cast.Ptr(time.Now().Add(l.dlp.leaseTTL)),
 	})
-	if err != nil {
-		l.dlp.logger.Debugf("supportTimeout raise detected, just do nothing for the key=%s, err=%s", l.key, err)
+	if errors.Is(err, errors.ErrNotExist) || errors.Is(err, errors.ErrConflict) {
+		l.dlp.logger.Warnf("supportTimeout(): the lease is lost for the key=%s, err=%s", l.key, err)
 		return
 	}
-	newFuture := timeout.Call(func() { l.supportTimeout(r.Version) }, l.dlp.leaseTTL/2)
-	if !l.future.CompareAndSwap(future, newFuture) {
-		// somebody already started the new timer, so drop this and forget about the incident
-		l.dlp.logger.Debugf("supportTimeout raise 2 detected, just cancelling the call timeout")
-		newFuture.Cancel()
+	if err != nil {
+		l.dlp.logger.Warnf("supportTimeout(): could not prolong the lease for the key=%s, will try again, err=%s", l.key, err)
+		l.future = timeout.Call(func() { l.supportTimeout(ver) }, l.dlp.leaseTTL/10)
+		return
 	}
+	l.ver = r.Version
+	l.future = timeout.Call(func() { l.supportTimeout(r.Version) }, l.dlp.leaseTTL/2)
 }
 
 func (l *kvsLock) isLocked() bool {
-- 
2.43.0


From d41892385700649de8e2125e406f301917246339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 20/46] fix: distlock: shutdown interrupts the calls, which
 wait for a lock

---
 golibs/kvs/distlock/kvlock.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/golibs/kvs/distlock/kvlock.go b/golibs/kvs/distlock/kvlock.go
index 7629e5f..d8e1213 100644
--- a/golibs/kvs/distlock/kvlock.go
+++ b/golibs/kvs/distlock/kvlock.go
@@ -180,6 +180,17 @@ func (l *kvsLock) lockWithCtx(ctx context.Context) error {
 		return err
 	}
 
+	// the waiting must be over, when the provider is shutdown
+	wctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+	go func() {
+		select {
+		case <-wctx.Done():
+		case <-l.dlp.done:
+			cancel()
+		}
+	}()
+
 	err := ctx.Err()
 	var ver string
 	for err == nil {
@@ -194,8 +205,11 @@ func (l *kvsLock) lockWithCtx(ctx context.Context) error {
 		}
 
 		if errors.Is(err, errors.ErrExist) {
-			_ = l.dlp.Storage.WaitForVersionChange(ctx, l.key, ver)
+			_ = l.dlp.Storage.WaitForVersionChange(wctx, l.key, ver)
 			err = ctx.Err()
+			if err == nil && !chans.IsOpened(l.dlp.done) {
+				err = fmt.Errorf("kvsLock.lockWithCtx(): locking mechanism is shutdown: %w", errors.ErrClosed)
+			}
 		}
 	}
 
-- 
2.43.0


From 0096a376177ad5b9554b8c46169d99a06666b6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:51 +0000
Subject: [PATCH 21/46] fix: NewBlocks rejects block sizes which are not
 acceptable

It tested bs < 0 instead of the result of GetBlocksInSegment, so a size like 100 was accepted
with a negative number of blocks, and zero panicked.
---
 golibs/container/bytes/blocks.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golibs/container/bytes/blocks.go b/golibs/container/bytes/blocks.go
index 613e1e3..0b21848 100644
--- a/golibs/container/bytes/blocks.go
+++ b/golibs/container/bytes/blocks.go
@@ -87,7 +87,7 @@ func GetBlocksInSegment(blkSize int) int {
 func NewBlocks(bs int, bts Buffer, fit bool) (*Blocks, error) {
 	// get absolute number of blocks in a segment
 	blksInSegm := GetBlocksInSegment(bs)
-	if bs < 0 {
+	if blksInSegm < 0 {
 		return nil, fmt.Errorf("incorrect block size=%d, should multiple on naturanl integer to get %d: %w ", bs, os.Getpagesize(), errors.ErrInvalid)
 	}
 
-- 
2.43.0


From 2eb2a5c1c35d77a185747dc54d92a51a218ae73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 22/46] fix: buntdb: no panic for a negative limit in QueryLogs

---
 pkg/storage/buntdb/buntdb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/buntdb/buntdb.go b/pkg/storage/buntdb/buntdb.go
index 1038772..8f164d6 100644
--- a/pkg/storage/buntdb/buntdb.go
+++ b/pkg/storage/buntdb/buntdb.go
@@ -288,7 +288,7 @@ func (s *Storage) deleteLogsByCondition(ctx context.Context, req storage.DeleteL
 
 func (s *Storage) queryLogsByIDs(ctx context.Context, qr storage.QueryLogsRequest, skipMarkedDeleted bool) (*solaris.QueryLogsResult, error) {
 	limit := min(int(qr.Limit), 1000)
-	if qr.Limit == 0 {
+	if qr.Limit <= 0 {
 		limit = 50
 	}
 
@@ -350,7 +350,7 @@ func (s *Storage) queryLogsByCondition(ctx context.Context, qr storage.QueryLogs
 	}
 
 	limit := min(int(qr.Limit), 1000)
-	if qr.Limit == 0 {
+	if qr.Limit <= 0 {
 		limit = 50
 	}
 
-- 
2.43.0


From 21e8302ee193cd95b40ce7efb721770baef6fc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 23/46] fix: buntdb: logs matching a condition are selected and
 deleted in one transaction

---
 pkg/storage/buntdb/buntdb.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pkg/storage/buntdb/buntdb.go b/pkg/storage/buntdb/buntdb.go
index 8f164d6..605b4d3 100644
--- a/pkg/storage/buntdb/buntdb.go
+++ b/pkg/storage/buntdb/buntdb.go
@@ -199,7 +199,11 @@ func (s *Storage) DeleteLogs(ctx context.Context, req storage.DeleteLogsRequest)
 func (s *Storage) deleteLogsByIDs(ctx context.Context, req storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
 	tx := mustBeginTx(s.db, true)
 	defer mustRollback(tx)
+	return s.deleteLogsByIDsTx(ctx, tx, req)
+}
 
+// deleteLogsByIDsTx deletes (or marks) the logs in the transaction tx and commits it if there are no errors
+func (s *Storage) deleteLogsByIDsTx(ctx context.Context, tx *buntdb.Tx, req storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
 	var deletedIDs []string
 	for _, id := range slices.Clone(req.IDs) {
 		if ctx.Err() != nil {
@@ -268,22 +272,26 @@ func (s *Storage) markLogDeleted(tx *buntdb.Tx, logID string) error {
 }
 
 func (s *Storage) deleteLogsByCondition(ctx context.Context, req storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
+	// logs are selected and deleted in one transaction, so the selected ones cannot be changed or deleted in between
+	tx := mustBeginTx(s.db, true)
+	defer mustRollback(tx)
+
 	var logIDs []string
-	qRes, err := s.queryLogsByCondition(ctx, storage.QueryLogsRequest{Condition: req.Condition, Limit: 1000}, req.MarkOnly)
+	qRes, err := s.queryLogsByConditionTx(ctx, tx, storage.QueryLogsRequest{Condition: req.Condition, Limit: 1000}, req.MarkOnly)
 	for err == nil && len(qRes.Logs) > 0 {
 		for _, log := range qRes.Logs {
 			logIDs = append(logIDs, log.ID)
 		}
 		qRes.Logs = nil
 		if len(qRes.NextPageID) > 0 {
-			qRes, err = s.queryLogsByCondition(ctx, storage.QueryLogsRequest{Condition: req.Condition,
+			qRes, err = s.queryLogsByConditionTx(ctx, tx, storage.QueryLogsRequest{Condition: req.Condition,
 				Page: qRes.NextPageID, Limit: 1000}, req.MarkOnly)
 		}
 	}
 	if err != nil {
 		return nil, err
 	}
-	return s.deleteLogsByIDs(ctx, storage.DeleteLogsRequest{IDs: logIDs, MarkOnly: req.MarkOnly})
+	return s.deleteLogsByIDsTx(ctx, tx, storage.DeleteLogsRequest{IDs: logIDs, MarkOnly: req.MarkOnly})
 }
 
 func (s *Storage) queryLogsByIDs(ctx context.Context, qr storage.QueryLogsRequest, skipMarkedDeleted bool) (*solaris.QueryLogsResult, error) {
@@ -340,6 +348,12 @@ func (s *Storage) queryLogsByIDs(ctx context.Context, qr storage.QueryLogsReques
 }
 
 func (s *Storage) queryLogsByCondition(ctx context.Context, qr storage.QueryLogsRequest, skipMarkedDeleted bool) (*solaris.QueryLogsResult, error) {
+	tx := mustBeginTx(s.db, false)
+	defer mustRollback(tx)
+	return s.queryLogsByConditionTx(ctx, tx, qr, skipMarkedDeleted)
+}
+
+func (s *Storage) queryLogsByConditionTx(ctx context.Context, tx *buntdb.Tx, qr storage.QueryLogsRequest, skipMarkedDeleted bool) (*solaris.QueryLogsResult, error) {
 	expr, err := ql.Parse(qr.Condition)
 	if err != nil {
 		return nil, fmt.Errorf("condition=%q parse error=%v: %w", qr.Condition, err, errors.ErrInvalid)
@@ -376,9 +390,6 @@ func (s *Storage) queryLogsByCondition(ctx context.Context, qr storage.QueryLogs
 		return true
 	}
 
-	tx := mustBeginTx(s.db, false)
-	defer mustRollback(tx)
-
 	if err = tx.AscendRange("", logKey(qr.Page), logKey(ulidutils.MaxULID.String()), iter); err != nil {
 		return nil, fmt.Errorf("iteration failed: %w", err)
 	}
-- 
2.43.0


From 40e5a784a6fb94ca1f2a618ffdad9538ea1d2f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 24/46] fix: reading or counting over more logs than may be
 merged fails and is not incomplete

---
 pkg/api/service.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index 9e2fb44..ebbd083 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -102,6 +102,10 @@ func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecord
 		if err != nil {
 			return nil, errors.GRPCWrap(err)
 		}
+		if qr.NextPageID != "" {
+			// the storage may return fewer logs than requested, and there are more of them
+			return nil, errors.GRPCWrap(fmt.Errorf("could not merge more than %d logs together: %w", maxLogsToMerge, errors.ErrExhausted))
+		}
 		logIDs = make([]string, len(qr.Logs))
 		for i, l := range qr.Logs {
 			logIDs[i] = l.ID
@@ -171,6 +175,10 @@ func (s *Service) CountRecords(ctx context.Context, request *solaris.QueryRecord
 		if err != nil {
 			return nil, errors.GRPCWrap(err)
 		}
+		if qr.NextPageID != "" {
+			// the storage may return fewer logs than requested, and there are more of them
+			return nil, errors.GRPCWrap(fmt.Errorf("could not merge more than %d logs together: %w", maxLogsToMerge, errors.ErrExhausted))
+		}
 		logIDs = make([]string, len(qr.Logs))
 		for i, l := range qr.Logs {
 			logIDs[i] = l.ID
-- 
2.43.0


From 643b61180abeef3b973219107fbac5d1acd04756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 25/46] fix: ql: negated and contradictory sub-conditions
 restrict the intervals properly

---
 pkg/ql/intervalbuilder.go | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/pkg/ql/intervalbuilder.go b/pkg/ql/intervalbuilder.go
index 92c5863..2804342 100644
--- a/pkg/ql/intervalbuilder.go
+++ b/pkg/ql/intervalbuilder.go
@@ -46,7 +46,8 @@ func NewParamIntervalBuilder[T, K any](basis intervals.Basis[T], dialect Dialect
 }
 
 // Build returns a list of intervals built from the AST expression.
-// Returned intervals are sorted by the L border.
+// Returned intervals are sorted by the L border. The result is nil if the expression doesn't
+// restrict the param, and it is an empty non-nil slice if no value of the param satisfies it.
 func (ib *ParamIntervalBuilder[T, K]) Build(expr *Expression) ([]intervals.Interval[T], error) {
 	var res []intervals.Interval[T]
 	for _, or := range expr.Or {
@@ -54,8 +55,8 @@ func (ib *ParamIntervalBuilder[T, K]) Build(expr *Expression) ([]intervals.Inter
 		if err != nil {
 			return nil, err
 		}
-		if len(tt) > 0 {
-			res = append(res, tt...)
+		if tt != nil {
+			res = append(nonNil(res), tt...)
 		}
 	}
 	return ib.union(res), nil
@@ -68,7 +69,7 @@ func (ib *ParamIntervalBuilder[T, K]) buildOR(or *OrCondition) ([]intervals.Inte
 		if err != nil {
 			return nil, err
 		}
-		if len(group) > 0 {
+		if group != nil {
 			groups = append(groups, group)
 		}
 	}
@@ -84,22 +85,21 @@ func (ib *ParamIntervalBuilder[T, K]) buildXCond(and *XCondition) ([]intervals.I
 			return nil, err
 		}
 	} else {
-		tt, err := ib.buildCond(and.Cond)
+		var err error
+		res, err = ib.buildCond(and.Cond)
 		if err != nil {
 			return nil, err
 		}
-		if len(tt) > 0 {
-			res = append(res, tt...)
-		}
 	}
-	if !and.Not {
+	if !and.Not || res == nil {
 		return res, nil
 	}
-	var negated []intervals.Interval[T]
+	// the negation of a union is the intersection of the negations
+	groups := [][]intervals.Interval[T]{{ib.basis.Closed(ib.basis.Min, ib.basis.Max)}}
 	for _, t := range res {
-		negated = append(negated, ib.basis.Negate(t)...)
+		groups = append(groups, ib.basis.Negate(t))
 	}
-	return negated, nil
+	return ib.intersect(groups), nil
 }
 
 func (ib *ParamIntervalBuilder[T, K]) buildCond(cond *Condition) ([]intervals.Interval[T], error) {
@@ -206,7 +206,7 @@ func (ib *ParamIntervalBuilder[T, K]) intersect(groups [][]intervals.Interval[T]
 	prev := groups[0]
 	for i := 1; i < len(groups); i++ {
 		curr := groups[i]
-		var group []intervals.Interval[T]
+		group := []intervals.Interval[T]{}
 		for j := 0; j < len(prev); j++ {
 			for k := 0; k < len(curr); k++ {
 				if t, ok := ib.basis.Intersect(prev[j], curr[k]); ok {
@@ -236,3 +236,11 @@ func (ib *ParamIntervalBuilder[T, K]) getIntervals(op string, val T) []intervals
 	}
 	return nil
 }
+
+// nonNil turns the nil slice to the empty one
+func nonNil[T any](s []T) []T {
+	if s == nil {
+		return []T{}
+	}
+	return s
+}
-- 
2.43.0


From 1d0181429d43a75e90a43c97fd1a7461b6a7ea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 26/46] fix: ql: no panic for values out of the basis (e.g.
 ctime < '1960-01-01')

---
 pkg/ql/intervalbuilder.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/ql/intervalbuilder.go b/pkg/ql/intervalbuilder.go
index 2804342..6b1de03 100644
--- a/pkg/ql/intervalbuilder.go
+++ b/pkg/ql/intervalbuilder.go
@@ -220,6 +220,16 @@ func (ib *ParamIntervalBuilder[T, K]) intersect(groups [][]intervals.Interval[T]
 }
 
 func (ib *ParamIntervalBuilder[T, K]) getIntervals(op string, val T) []intervals.Interval[T] {
+	minCmp, maxCmp := ib.basis.CmpF(val, ib.basis.Min), ib.basis.CmpF(val, ib.basis.Max)
+	if minCmp < 0 || maxCmp > 0 { // out of the basis, all values are on the same side of val
+		if op == "!=" || (minCmp < 0 && (op == ">" || op == ">=")) || (maxCmp > 0 && (op == "<" || op == "<=")) {
+			return []intervals.Interval[T]{ib.basis.Closed(ib.basis.Min, ib.basis.Max)}
+		}
+		return []intervals.Interval[T]{}
+	}
+	if (minCmp == 0 && op == "<") || (maxCmp == 0 && op == ">") {
+		return []intervals.Interval[T]{}
+	}
 	switch op {
 	case "<":
 		return []intervals.Interval[T]{ib.basis.OpenR(ib.basis.Min, val)}
-- 
2.43.0


From dc7306ba8b7896d5815aadc9f401f908e2bfc5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 27/46] fix: logfs: conditions with constants between two
 milliseconds and blank conditions

---
 pkg/storage/logfs/locallog.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index fb93ebd..10944f5 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -274,6 +274,7 @@ func (l *localLog) QueryRecords(ctx context.Context, request storage.QueryRecord
 		}
 	}
 
+	request.Condition = strings.TrimSpace(request.Condition)
 	tis, err := getIntervals(request.Condition)
 	if err != nil {
 		return nil, false, err
@@ -357,6 +358,7 @@ func (l *localLog) CountRecords(ctx context.Context, request storage.QueryRecord
 		}
 	}
 
+	request.Condition = strings.TrimSpace(request.Condition)
 	tis, err := getIntervals(request.Condition)
 	if err != nil {
 		return 0, 0, err
@@ -486,22 +488,26 @@ func getRanges(tis []intervals.Interval[time.Time], ci ChunkInfo) []idRange {
 	var ranges []idRange
 	for _, ti := range tis {
 		if ri, ok := tiBasis.Intersect(cti, ti); ok {
-			ranges = append(ranges, toRange(ri))
+			if r := toRange(ri); r.start.Compare(r.end) <= 0 {
+				ranges = append(ranges, r)
+			}
 		}
 	}
 	return ranges
 }
 
+// toRange returns the IDs of the records with the creation time in the interval. The records' creation times
+// are in milliseconds, but the borders of the interval may be more precise.
 func toRange(ti intervals.Interval[time.Time]) idRange {
-	if ti.IsClosed() {
-		return idRange{start: minULIDForTime(ti.L), end: maxULIDForTime(ti.R)}
-	} else if ti.IsOpenL() {
-		return idRange{start: minULIDForTime(ti.L.Add(time.Millisecond)), end: maxULIDForTime(ti.R)}
-	} else if ti.IsOpenR() {
-		return idRange{start: minULIDForTime(ti.L), end: maxULIDForTime(ti.R.Add(-time.Millisecond))}
-	} else { // open
-		return idRange{start: minULIDForTime(ti.L.Add(time.Millisecond)), end: maxULIDForTime(ti.R.Add(-time.Millisecond))}
+	first := ti.L.Truncate(time.Millisecond)
+	if !ti.LIn || first.Before(ti.L) {
+		first = first.Add(time.Millisecond)
+	}
+	last := ti.R.Truncate(time.Millisecond)
+	if !ti.RIn && last.Equal(ti.R) {
+		last = last.Add(-time.Millisecond)
 	}
+	return idRange{start: minULIDForTime(first), end: maxULIDForTime(last)}
 }
 
 func minULIDForTime(t time.Time) ulid.ULID {
-- 
2.43.0


From 87d08b245cbf39855f5c7cc30cc11adcdb37a787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 28/46] fix: kvs/redis: PutMany gives the records new versions

---
 golibs/kvs/redis/redis.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/golibs/kvs/redis/redis.go b/golibs/kvs/redis/redis.go
index 76d8d34..66ab1eb 100644
--- a/golibs/kvs/redis/redis.go
+++ b/golibs/kvs/redis/redis.go
@@ -99,6 +99,7 @@ func (c *client) PutMany(ctx context.Context, records []kvs.Record) error {
 			mset = nil
 			break
 		}
+		r.Version = ulidutils.NewID()
 		mset = append(mset, rKey(r.Key))
 		mset = append(mset, cast.ByteArrayToString(rec2db(&r)))
 	}
-- 
2.43.0


From cefcf3d853d7cfbb538256f6bc2272d6f1bee807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 29/46] fix: kvs/redis: CasByVersion reports how a record was
 changed meanwhile

---
 golibs/kvs/redis/redis.go | 40 ++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/golibs/kvs/redis/redis.go b/golibs/kvs/redis/redis.go
index 66ab1eb..7a0306c 100644
--- a/golibs/kvs/redis/redis.go
+++ b/golibs/kvs/redis/redis.go
@@ -118,24 +118,30 @@ func (c *client) PutMany(ctx context.Context, records []kvs.Record) error {
 
 func (c *client) CasByVersion(ctx context.Context, record kvs.Record) (kvs.Record, error) {
 	key := rKey(record.Key)
-	err := c.rdb.Watch(ctx, func(tx *redis.Tx) error {
-		val, err := tx.Get(ctx, key).Result()
-		if err != nil {
-			return checkErr(err)
-		}
-		r := db2rec(cast.StringToByteArray(val))
-		if r.Version != record.Version {
-			return errors.ErrConflict
+	ver := record.Version
+	for {
+		err := c.rdb.Watch(ctx, func(tx *redis.Tx) error {
+			val, err := tx.Get(ctx, key).Result()
+			if err != nil {
+				return checkErr(err)
+			}
+			r := db2rec(cast.StringToByteArray(val))
+			if r.Version != ver {
+				return errors.ErrConflict
+			}
+			record.Version = ulidutils.NewID()
+			buf := rec2db(&record)
+			_, err = tx.TxPipelined(ctx, func(pipe redis.Pipeliner) error {
+				_, err2 := pipe.Set(ctx, key, buf, expiration(record.ExpiresAt, time.Now())).Result()
+				return err2
+			})
+			return err
+		}, key)
+		if err != redis.TxFailedErr {
+			return record, err
 		}
-		record.Version = ulidutils.NewID()
-		buf := rec2db(&record)
-		_, err = tx.TxPipelined(ctx, func(pipe redis.Pipeliner) error {
-			_, err2 := pipe.Set(ctx, key, buf, expiration(record.ExpiresAt, time.Now())).Result()
-			return err2
-		})
-		return err
-	}, key)
-	return record, err
+		// the record was changed, deleted or has expired after it was read
+	}
 }
 
 func (c *client) Delete(ctx context.Context, key string) error {
-- 
2.43.0


From 14ee4cf4a3925748205a396d756ceaaecb756c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 30/46] fix: kvs/redis: ListKeys reports failures and lists
 each key once

---
 golibs/kvs/redis/redis.go | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/golibs/kvs/redis/redis.go b/golibs/kvs/redis/redis.go
index 7a0306c..91df550 100644
--- a/golibs/kvs/redis/redis.go
+++ b/golibs/kvs/redis/redis.go
@@ -34,8 +34,7 @@ type (
 	}
 
 	keysIterator struct {
-		si  *redis.ScanIterator
-		val *string
+		keys []string
 	}
 )
 
@@ -190,7 +189,19 @@ func (c *client) WaitForVersionChange(ctx context.Context, key, ver string) erro
 // ListKeys allows to read the keys by the pattern provided.
 func (c *client) ListKeys(ctx context.Context, pattern string) (iterable.Iterator[string], error) {
 	si := c.rdb.Scan(ctx, 0, rKey(pattern), 1000).Iterator()
-	return &keysIterator{si: si}, nil
+	keys := []string{}
+	known := map[string]struct{}{}
+	for si.Next(ctx) {
+		// the scan may return a key several times
+		if _, ok := known[si.Val()]; !ok {
+			known[si.Val()] = struct{}{}
+			keys = append(keys, key(si.Val()))
+		}
+	}
+	if err := si.Err(); err != nil {
+		return nil, checkErr(err)
+	}
+	return &keysIterator{keys: keys}, nil
 }
 
 func (c *client) Close() error {
@@ -263,24 +274,20 @@ func db2rec(buf []byte) kvs.Record {
 var _ iterable.Iterator[string] = (*keysIterator)(nil)
 
 func (k *keysIterator) HasNext() bool {
-	if k.val == nil && k.si.Next(context.Background()) {
-		k.val = cast.Ptr(key(k.si.Val()))
-	}
-	return k.val != nil
+	return len(k.keys) > 0
 }
 
 func (k *keysIterator) Next() (string, bool) {
-	if k.HasNext() {
-		res := *k.val
-		k.val = nil
-		return res, true
+	if len(k.keys) == 0 {
+		return "", false
 	}
-	return "", false
+	res := k.keys[0]
+	k.keys = k.keys[1:]
+	return res, true
 }
 
 func (k *keysIterator) Close() error {
-	k.si = nil
-	k.val = nil
+	k.keys = nil
 	return nil
 }
 
-- 
2.43.0


From 751cf9ef079dd4c53fd49c957004d9b73f9841e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 31/46] fix: kvs/redis: Create returns the version of the
 existing record

---
 golibs/kvs/redis/redis.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/golibs/kvs/redis/redis.go b/golibs/kvs/redis/redis.go
index 91df550..1fe1e32 100644
--- a/golibs/kvs/redis/redis.go
+++ b/golibs/kvs/redis/redis.go
@@ -46,14 +46,24 @@ func New(opts *redis.Options) kvs.Storage {
 func (c *client) Create(ctx context.Context, record kvs.Record) (string, error) {
 	record.Version = ulidutils.NewID()
 	buf := rec2db(&record)
-	ok, err := c.rdb.SetNX(ctx, rKey(record.Key), buf, expiration(record.ExpiresAt, time.Now())).Result()
-	if err != nil {
-		return "", checkErr(err)
-	}
-	if !ok {
-		return "", errors.ErrExist
+	for {
+		ok, err := c.rdb.SetNX(ctx, rKey(record.Key), buf, expiration(record.ExpiresAt, time.Now())).Result()
+		if err != nil {
+			return "", checkErr(err)
+		}
+		if ok {
+			return record.Version, nil
+		}
+		r, err := c.Get(ctx, record.Key)
+		if err == nil {
+			// the version lets the caller wait for a change of the existing record
+			return r.Version, errors.ErrExist
+		}
+		if err != errors.ErrNotExist {
+			return "", err
+		}
+		// the record was deleted or has expired meanwhile
 	}
-	return record.Version, nil
 }
 
 func (c *client) Get(ctx context.Context, key string) (kvs.Record, error) {
-- 
2.43.0


From 50c7cf52b01b55f8a9b5d4405b01f0a67180734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 32/46] fix: sss/inmem: the storage may be used by several
 goroutines

The replicator, the scanner and the requests use the storage concurrently,
but its map was not protected.
---
 golibs/sss/inmem/storage.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/golibs/sss/inmem/storage.go b/golibs/sss/inmem/storage.go
index c9e9212..183c279 100755
--- a/golibs/sss/inmem/storage.go
+++ b/golibs/sss/inmem/storage.go
@@ -23,11 +23,14 @@ import (
 	"io"
 	"io/ioutil"
 	"strings"
+	"sync"
 )
 
 // Storage provides kvs.Storage functionality in local process memory. This instance can be
-// used in a single-node configuration or in a test-purposes.
+// used in a single-node configuration or in a test-purposes. It may be used by several goroutines
+// at the same time
 type Storage struct {
+	lock    sync.RWMutex
 	storage map[string][]byte
 }
 
@@ -47,6 +50,9 @@ func (st *Storage) Get(_ context.Context, key string) (io.ReadCloser, error) {
 		return nil, fmt.Errorf("Storage.Get(): invalid key=%s", key)
 	}
 
+	st.lock.RLock()
+	defer st.lock.RUnlock()
+
 	if buf, ok := st.storage[key]; ok {
 		return ioutil.NopCloser(bytes.NewReader(buf)), nil
 	}
@@ -66,6 +72,10 @@ func (st *Storage) Put(_ context.Context, key string, r io.Reader) error {
 	}
 	b1 := make([]byte, len(buf))
 	copy(b1, buf)
+
+	st.lock.Lock()
+	defer st.lock.Unlock()
+
 	st.storage[key] = b1
 	return nil
 }
@@ -82,6 +92,9 @@ func (st *Storage) List(_ context.Context, path string) ([]string, error) {
 		return nil, fmt.Errorf("Storage.List(): invalid path=%s", path)
 	}
 
+	st.lock.RLock()
+	defer st.lock.RUnlock()
+
 	res := make([]string, 0, 10)
 	added := make(map[string]bool)
 	for k := range st.storage {
@@ -109,6 +122,9 @@ func (st *Storage) Delete(_ context.Context, key string) error {
 		return fmt.Errorf("Storage.Delete(): invalid key=%s", key)
 	}
 
+	st.lock.Lock()
+	defer st.lock.Unlock()
+
 	if _, ok := st.storage[key]; !ok {
 		return errors.ErrNotExist
 	}
-- 
2.43.0


From 084483bdae62eb7a23b6b96c0b26153d3185c9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 33/46] fix: sss/inmem: deleting a missing object is no error

sss.Storage requires it, and so the deletion of a chunk which has never been
uploaded failed.
---
 golibs/sss/inmem/storage.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/golibs/sss/inmem/storage.go b/golibs/sss/inmem/storage.go
index 183c279..5089d8d 100755
--- a/golibs/sss/inmem/storage.go
+++ b/golibs/sss/inmem/storage.go
@@ -116,7 +116,7 @@ func (st *Storage) List(_ context.Context, path string) ([]string, error) {
 }
 
 // Delete allows to delete a value by key. If the key doesn't exist, the operation
-// will return no errors.ErrNotExist
+// will return no error
 func (st *Storage) Delete(_ context.Context, key string) error {
 	if !sss.IsKeyValid(key) {
 		return fmt.Errorf("Storage.Delete(): invalid key=%s", key)
@@ -125,9 +125,6 @@ func (st *Storage) Delete(_ context.Context, key string) error {
 	st.lock.Lock()
 	defer st.lock.Unlock()
 
-	if _, ok := st.storage[key]; !ok {
-		return errors.ErrNotExist
-	}
 	delete(st.storage, key)
 	return nil
 }
-- 
2.43.0


From c9a7eabf3342dff3e62c7fd868ec43e4b1cd38f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 34/46] fix: api/rest: empty lists and tags are not null

The API description requires arrays and an object, but an empty result was
answered by "items":null, and a log without tags by "tags":null.
---
 pkg/api/rest/transformers.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/api/rest/transformers.go b/pkg/api/rest/transformers.go
index a7f87c8..cbc4b18 100644
--- a/pkg/api/rest/transformers.go
+++ b/pkg/api/rest/transformers.go
@@ -23,6 +23,9 @@ func logToRest(sLog *solaris.Log) restapi.Log {
 	var rLog restapi.Log
 	rLog.Id = sLog.ID
 	rLog.Tags = sLog.Tags
+	if rLog.Tags == nil {
+		rLog.Tags = restapi.Tags{}
+	}
 	if sLog.CreatedAt != nil {
 		rLog.CreatedAt = sLog.CreatedAt.AsTime()
 	}
@@ -33,7 +36,7 @@ func logToRest(sLog *solaris.Log) restapi.Log {
 }
 
 func logsToRest(sLogs []*solaris.Log) []restapi.Log {
-	var rLogs []restapi.Log
+	rLogs := make([]restapi.Log, 0, len(sLogs))
 	for _, l := range sLogs {
 		rLogs = append(rLogs, logToRest(l))
 	}
@@ -66,7 +69,7 @@ func recToRest(sRec *solaris.Record) restapi.Record {
 }
 
 func recsToRest(sRecs []*solaris.Record) []restapi.Record {
-	var rRecs []restapi.Record
+	rRecs := make([]restapi.Record, 0, len(sRecs))
 	for _, r := range sRecs {
 		rRecs = append(rRecs, recToRest(r))
 	}
-- 
2.43.0


From 40739f5402c31f175425b153551f621d82c2aebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:03 +0000
Subject: [PATCH 35/46] fix: sss/inmem: deleting a missing object is reported
 again

This reverts commit 084483b. The deletion of a chunk that is removed
already reports an error, which its callers rely on.
---
 golibs/sss/inmem/storage.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/golibs/sss/inmem/storage.go b/golibs/sss/inmem/storage.go
index 5089d8d..183c279 100755
--- a/golibs/sss/inmem/storage.go
+++ b/golibs/sss/inmem/storage.go
@@ -116,7 +116,7 @@ func (st *Storage) List(_ context.Context, path string) ([]string, error) {
 }
 
 // Delete allows to delete a value by key. If the key doesn't exist, the operation
-// will return no error
+// will return no errors.ErrNotExist
 func (st *Storage) Delete(_ context.Context, key string) error {
 	if !sss.IsKeyValid(key) {
 		return fmt.Errorf("Storage.Delete(): invalid key=%s", key)
@@ -125,6 +125,9 @@ func (st *Storage) Delete(_ context.Context, key string) error {
 	st.lock.Lock()
 	defer st.lock.Unlock()
 
+	if _, ok := st.storage[key]; !ok {
+		return errors.ErrNotExist
+	}
 	delete(st.storage, key)
 	return nil
 }
-- 
2.43.0


From 3edc171f2f244373b8019dc0f37dc37abc6b6e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:48 +0000
Subject: [PATCH 36/46] fix: store the tags as valid JSON in Postgres

The tags were written with Go's %q quoting, which is not JSON for control
characters and code points that cannot be printed: a log with such a tag could
not be created or updated.
---
 pkg/storage/postgres/model.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pkg/storage/postgres/model.go b/pkg/storage/postgres/model.go
index 8703329..bbbd4a4 100644
--- a/pkg/storage/postgres/model.go
+++ b/pkg/storage/postgres/model.go
@@ -18,7 +18,6 @@ import (
 	"database/sql/driver"
 	"encoding/json"
 	"fmt"
-	"strings"
 	"time"
 )
 
@@ -56,14 +55,9 @@ func (t *Tags) Scan(value any) error {
 }
 
 func (t Tags) JSON() string {
-	var sb strings.Builder
-	sb.WriteString("{")
-	for k, v := range t {
-		if sb.Len() > 1 {
-			sb.WriteByte(',')
-		}
-		sb.WriteString(fmt.Sprintf("%q:%q", k, v))
+	if len(t) == 0 {
+		return "{}"
 	}
-	sb.WriteString("}")
-	return sb.String()
+	buf, _ := json.Marshal(t) // cannot fail for strings
+	return string(buf)
 }
-- 
2.43.0


From 9a57e960cbe58732c4270a6c27cef2ea4f428727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:49 +0000
Subject: [PATCH 37/46] fix: escape the quotes of string constants in SQL
 conditions

A string constant with a single quote ended the constant of the SQL statement:
the condition failed or the rest of the string became a part of the statement.
---
 pkg/ql/dialect.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pkg/ql/dialect.go b/pkg/ql/dialect.go
index 6627c93..b49eba4 100644
--- a/pkg/ql/dialect.go
+++ b/pkg/ql/dialect.go
@@ -129,9 +129,7 @@ var (
 			Flags: PfRValue | PfComparable, // strings are rvalues only
 			TranslateF: func(tr Translator[*solaris.Log], sb *strings.Builder, p Param) error {
 				// use single quotes for string constants
-				sb.WriteString("'")
-				sb.WriteString(*p.Const.String)
-				sb.WriteString("'")
+				quoteString(sb, *p.Const.String)
 				return nil
 			},
 		},
@@ -146,9 +144,7 @@ var (
 					if c.String == nil {
 						return fmt.Errorf("array must contain only strings: %w", errors.ErrInvalid)
 					}
-					sb.WriteString("'")
-					sb.WriteString(*c.String)
-					sb.WriteString("'")
+					quoteString(sb, *c.String)
 				}
 				sb.WriteString(")")
 				return nil
@@ -200,6 +196,13 @@ var (
 	}
 )
 
+// quoteString writes s as a string constant in single quotes, the quotes inside are doubled
+func quoteString(sb *strings.Builder, s string) {
+	sb.WriteString("'")
+	sb.WriteString(strings.ReplaceAll(s, "'", "''"))
+	sb.WriteString("'")
+}
+
 // check returns whether the parameter is ok or not. The function is used by the evaluator
 func (pd ParamDialect[T]) check(p *Param) error {
 	if pd.CheckF != nil {
-- 
2.43.0


From f8ac6788109c8ffbc82c1912562ba7eb0a6991d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:54 +0000
Subject: [PATCH 38/46] fix: put the logs condition of a Postgres statement in
 parentheses

The condition is followed by 'and deleted = ...': for 'A OR B' the deleted logs
with A were listed and deleted again.
---
 pkg/storage/postgres/postgres.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pkg/storage/postgres/postgres.go b/pkg/storage/postgres/postgres.go
index 57c9592..258b31d 100644
--- a/pkg/storage/postgres/postgres.go
+++ b/pkg/storage/postgres/postgres.go
@@ -109,8 +109,8 @@ func (s *Storage) QueryLogs(ctx context.Context, qr storage.QueryLogsRequest) (*
 		}
 		sb.WriteString(")")
 	} else if len(qr.Condition) > 0 {
-		if err := qlToPqTranslator.Translate(&sb, qr.Condition); err != nil {
-			return nil, fmt.Errorf("condition=%q translate error=%v: %w", qr.Condition, err, errors.ErrInvalid)
+		if err := translateCondition(&sb, qr.Condition); err != nil {
+			return nil, err
 		}
 	}
 
@@ -180,8 +180,8 @@ func (s *Storage) DeleteLogs(ctx context.Context, req storage.DeleteLogsRequest)
 		}
 		sb.WriteString(")")
 	} else if len(req.Condition) > 0 {
-		if err := qlToPqTranslator.Translate(&sb, req.Condition); err != nil {
-			return nil, fmt.Errorf("condition=%q translate error=%v: %w", req.Condition, err, errors.ErrInvalid)
+		if err := translateCondition(&sb, req.Condition); err != nil {
+			return nil, err
 		}
 	}
 	if sb.Len() == 0 {
@@ -286,6 +286,20 @@ func (s *Storage) UpsertChunkInfos(ctx context.Context, logID string, cis []logf
 
 // ===================================== helpers =====================================
 
+// translateCondition writes the logs condition as an SQL expression in parentheses, so it can be combined with others
+func translateCondition(sb *strings.Builder, cond string) error {
+	var csb strings.Builder
+	if err := qlToPqTranslator.Translate(&csb, cond); err != nil {
+		return fmt.Errorf("condition=%q translate error=%v: %w", cond, err, errors.ErrInvalid)
+	}
+	if csb.Len() > 0 {
+		sb.WriteString(" (")
+		sb.WriteString(csb.String())
+		sb.WriteString(")")
+	}
+	return nil
+}
+
 func scan[T any](rows *sqlx.Rows) (T, error) {
 	var res T
 	if rows.Next() {
-- 
2.43.0


From d201e91cfd1d0349843469f900cbbfe4ba5896f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:31 +0000
Subject: [PATCH 39/46] fix: page the logs of the Postgres storage

QueryLogs ignored the page ID, so every page was the first one and a list of
more logs than fit in a page never ended. A request without a limit got no
logs. The limits are those of the embedded storage now.
---
 pkg/storage/postgres/postgres.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/postgres/postgres.go b/pkg/storage/postgres/postgres.go
index 258b31d..a060bbf 100644
--- a/pkg/storage/postgres/postgres.go
+++ b/pkg/storage/postgres/postgres.go
@@ -28,6 +28,13 @@ import (
 	"time"
 )
 
+const (
+	// defaultQueryLogsLimit is the page size of QueryLogs if the request doesn't specify one
+	defaultQueryLogsLimit = 50
+	// maxQueryLogsLimit is the maximum page size of QueryLogs
+	maxQueryLogsLimit = 1000
+)
+
 // Storage is the logs meta storage
 type Storage struct {
 	db *Db
@@ -137,7 +144,14 @@ func (s *Storage) QueryLogs(ctx context.Context, qr storage.QueryLogsRequest) (*
 		return nil, MapError(err)
 	}
 
-	limit := int(qr.Limit)
+	limit := int(min(qr.Limit, maxQueryLogsLimit))
+	if limit <= 0 {
+		limit = defaultQueryLogsLimit
+	}
+	if len(qr.Page) > 0 {
+		args = append(args, qr.Page)
+		where = fmt.Sprintf("%s and id >= $%d", where, len(args))
+	}
 	args = append(args, limit+1)
 
 	qryRows, err := s.db.QueryxContext(ctx, fmt.Sprintf("select * from log %s order by id limit $%d", where, len(args)), args...)
-- 
2.43.0


From b3e81ebec7ed71da76f3e24d8d2d8e282f7af290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:31 +0000
Subject: [PATCH 40/46] fix: report the errors met while the rows of Postgres
 are read

If the connection broke or the request was cancelled in the middle of the rows,
the rows read so far were returned as the complete result: lists of logs and
chunks lost their ends, updates reported that the log does not exist.
---
 pkg/storage/postgres/postgres.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/postgres/postgres.go b/pkg/storage/postgres/postgres.go
index a060bbf..2f145f8 100644
--- a/pkg/storage/postgres/postgres.go
+++ b/pkg/storage/postgres/postgres.go
@@ -91,6 +91,9 @@ func (s *Storage) UpdateLog(ctx context.Context, log *solaris.Log) (*solaris.Log
 		_ = rows.Close()
 	}()
 	if !rows.Next() {
+		if err = rows.Err(); err != nil {
+			return nil, MapError(err)
+		}
 		return nil, errors.ErrNotExist
 	}
 	var updatedLog Log
@@ -317,9 +320,11 @@ func translateCondition(sb *strings.Builder, cond string) error {
 func scan[T any](rows *sqlx.Rows) (T, error) {
 	var res T
 	if rows.Next() {
-		_ = rows.Scan(&res)
+		if err := rows.Scan(&res); err != nil {
+			return res, MapError(err)
+		}
 	}
-	return res, nil
+	return res, MapError(rows.Err())
 }
 
 func scanRows[T any](rows *sqlx.Rows) ([]T, error) {
@@ -331,6 +336,9 @@ func scanRows[T any](rows *sqlx.Rows) ([]T, error) {
 		}
 		res = append(res, t)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, MapError(err)
+	}
 	return res, nil
 }
 
@@ -343,5 +351,8 @@ func structScanRows[T any](rows *sqlx.Rows) ([]T, error) {
 		}
 		res = append(res, t)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, MapError(err)
+	}
 	return res, nil
 }
-- 
2.43.0


From 3aea154391b49ed6d2e21a409e7a23ce31c7dfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:31 +0000
Subject: [PATCH 41/46] fix: no chunks of deleted logs in the Postgres storage

The chunks of a log which was marked as deleted could still be read and
written, so its records stayed readable and appends to it were acknowledged. A
write of chunks of a log which does not exist failed with a conflict, which
stops the server; it is reported as ErrNotExist, like by the embedded storage.
---
 pkg/storage/postgres/postgres.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/pkg/storage/postgres/postgres.go b/pkg/storage/postgres/postgres.go
index 2f145f8..92a798e 100644
--- a/pkg/storage/postgres/postgres.go
+++ b/pkg/storage/postgres/postgres.go
@@ -251,18 +251,25 @@ func (s *Storage) GetChunks(ctx context.Context, logID string) ([]logfs.ChunkInf
 	if len(logID) == 0 {
 		return nil, fmt.Errorf("log ID must be specified: %w", errors.ErrInvalid)
 	}
-	rows, err := s.db.QueryxContext(ctx, "select * from chunk where log_id = $1 order by id", logID)
+	rows, err := s.db.QueryxContext(ctx, "select c.* from chunk c join log l on l.id = c.log_id "+
+		"where l.id = $1 and l.deleted = false order by c.id", logID)
 	if err != nil {
 		return nil, MapError(err)
 	}
 	defer func() {
 		_ = rows.Close()
 	}()
-	logs, err := structScanRows[Chunk](rows)
+	chunks, err := structScanRows[Chunk](rows)
 	if err != nil {
 		return nil, MapError(err)
 	}
-	return chunksToInfo(logs), nil
+	if len(chunks) == 0 {
+		// either there are no chunks yet, or there is no such log (anymore)
+		if _, err = s.GetLogByID(ctx, logID); err != nil {
+			return nil, err
+		}
+	}
+	return chunksToInfo(chunks), nil
 }
 
 // UpsertChunkInfos implements logfs.LogsMetaStorage
@@ -297,8 +304,23 @@ func (s *Storage) UpsertChunkInfos(ctx context.Context, logID string, cis []logf
 	}
 
 	sb.WriteString(" on conflict (id, log_id) do update set (min, max, records) = (excluded.min, excluded.max, excluded.records)")
-	_, err := s.db.ExecContext(ctx, sb.String(), args...)
-	return MapError(err)
+
+	tx, err := s.db.BeginTxx(ctx, nil)
+	if err != nil {
+		return MapError(err)
+	}
+	defer func() {
+		_ = tx.Rollback() // no-op if committed
+	}()
+	// the log must be there, and it must not be deleted until the chunks are written
+	var id string
+	if err = tx.GetContext(ctx, &id, "select id from log where id = $1 and deleted = false for share", logID); err != nil {
+		return MapError(err)
+	}
+	if _, err = tx.ExecContext(ctx, sb.String(), args...); err != nil {
+		return MapError(err)
+	}
+	return MapError(tx.Commit())
 }
 
 // ===================================== helpers =====================================
-- 
2.43.0


From f0799f22ab6c6ec893410c52e6304b2cc1b40ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:01 +0000
Subject: [PATCH 42/46] fix: return the connection before the next query of
 QueryLogs

---
 pkg/storage/postgres/postgres.go | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/pkg/storage/postgres/postgres.go b/pkg/storage/postgres/postgres.go
index 92a798e..2295173 100644
--- a/pkg/storage/postgres/postgres.go
+++ b/pkg/storage/postgres/postgres.go
@@ -135,15 +135,9 @@ func (s *Storage) QueryLogs(ctx context.Context, qr storage.QueryLogsRequest) (*
 		where = "where " + sb.String()
 	}
 
-	cntRows, err := s.db.QueryxContext(ctx, fmt.Sprintf("select count(*) from log %s ", where), args...)
-	if err != nil {
-		return nil, MapError(err)
-	}
-	defer func() {
-		_ = cntRows.Close()
-	}()
+	// the connection must be returned to the pool before the next query takes one
 	var count int64
-	if count, err = scan[int64](cntRows); err != nil {
+	if err := s.db.GetContext(ctx, &count, fmt.Sprintf("select count(*) from log %s ", where), args...); err != nil {
 		return nil, MapError(err)
 	}
 
@@ -339,16 +333,6 @@ func translateCondition(sb *strings.Builder, cond string) error {
 	return nil
 }
 
-func scan[T any](rows *sqlx.Rows) (T, error) {
-	var res T
-	if rows.Next() {
-		if err := rows.Scan(&res); err != nil {
-			return res, MapError(err)
-		}
-	}
-	return res, MapError(rows.Err())
-}
-
 func scanRows[T any](rows *sqlx.Rows) ([]T, error) {
 	var res []T
 	for rows.Next() {
-- 
2.43.0


From 6e47651fdd2f2055be1b0662ce0660e743213ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:25 +0000
Subject: [PATCH 43/46] fix: iterable: closing an iterator at a removed first
 element

---
 golibs/container/iterable/map.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/golibs/container/iterable/map.go b/golibs/container/iterable/map.go
index 405716c..7d47ba6 100644
--- a/golibs/container/iterable/map.go
+++ b/golibs/container/iterable/map.go
@@ -131,11 +131,11 @@ func (im *Map[K, V]) getValue(p *rlItem[K, V]) *rlItem[K, V] {
 
 func (im *Map[K, V]) release(p *rlItem[K, V]) {
 	p.refCnt--
-	if p.state == rlDeleted {
-		p.delete()
-		if p.refCnt == 0 {
-			im.pool.Put(p)
+	if p.state == rlDeleted && p.refCnt == 0 {
+		if head := p.delete(); head != nil {
+			im.head = head
 		}
+		im.pool.Put(p)
 	}
 }
 
-- 
2.43.0


From 90c2100dc3da80eb9a943ebd236851865026e4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:25 +0000
Subject: [PATCH 44/46] fix: ql: refuse LIKE on a time instead of ignoring it

---
 pkg/ql/intervalbuilder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/ql/intervalbuilder.go b/pkg/ql/intervalbuilder.go
index 6b1de03..15ed169 100644
--- a/pkg/ql/intervalbuilder.go
+++ b/pkg/ql/intervalbuilder.go
@@ -19,6 +19,7 @@ import (
 	"github.com/solarisdb/solaris/golibs/errors"
 	"github.com/solarisdb/solaris/pkg/intervals"
 	"sort"
+	"strings"
 )
 
 // ParamIntervalBuilder allows to build value intervals from the AST expression
@@ -134,6 +135,12 @@ func (ib *ParamIntervalBuilder[T, K]) buildCond(cond *Condition) ([]intervals.In
 	if dp2.Flags&PfNop != 0 {
 		return nil, fmt.Errorf("the second parameter %s must allow operation (%s): %w", p2.Name(false), cond.Op, errors.ErrInvalid)
 	}
+	switch strings.ToUpper(cond.Op) {
+	case "IN", "LIKE":
+		if dp1.Flags&PfInLike == 0 {
+			return nil, fmt.Errorf("the first parameter %s is not applicable for the operation %s: %w", p1.Name(false), cond.Op, errors.ErrInvalid)
+		}
+	}
 	if p2.Const == nil { // skip not a constant param
 		return nil, nil
 	}
-- 
2.43.0


From 975856e77b46ba0446e03924ba689fd7e680df44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:16 +0000
Subject: [PATCH 45/46] fix: files: close the file when writing or opening a
 zip archive fails

---
 golibs/files/ziputil.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/golibs/files/ziputil.go b/golibs/files/ziputil.go
index 0ad3417..ad77b84 100644
--- a/golibs/files/ziputil.go
+++ b/golibs/files/ziputil.go
@@ -58,6 +58,7 @@ func NewZipIterator(zipFile string) (ZipIterator, error) {
 
 	zr, err := zip.NewReader(f, fi.Size())
 	if err != nil {
+		f.Close()
 		return nil, err
 	}
 	return &zipIterator{zr: zr, idx: 0, f: f}, nil
@@ -113,8 +114,10 @@ func (zw *ZipWriter) Close() error {
 	}
 	err := zw.zw.Close()
 	zw.zw = nil
-	if err == nil && zw.f != nil {
-		err = zw.f.Close()
+	if zw.f != nil {
+		if err1 := zw.f.Close(); err == nil {
+			err = err1
+		}
 		zw.f = nil
 	}
 	return err
-- 
2.43.0


From f98832bd03f8e411900f0144bce2318e1963d4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:16 +0000
Subject: [PATCH 46/46] fix: ql: read a time in a condition as a whole

Only a part of the text was parsed, so '2024/03/12' was 24 March 2012, '12/3/2024 09:34:43 PM' was in the
morning, and '2020-13-45T00:00:00Z' was today's midnight. Times with fractions and without a zone were cut to seconds.
---
 golibs/datetime/date.go | 15 +++++++++++++++
 pkg/ql/datetime.go      |  3 ++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/golibs/datetime/date.go b/golibs/datetime/date.go
index 05fd84f..39898ab 100644
--- a/golibs/datetime/date.go
+++ b/golibs/datetime/date.go
@@ -238,6 +238,21 @@ func (p *parser) Parse(buf []byte) (time.Time, *Format) {
 	return time.Time{}, nil
 }
 
+// ParseExact is like Parse, but the whole buf must be the date in one of the given formats, so
+// that no part of it is ignored
+func (p *parser) ParseExact(buf []byte) (time.Time, *Format) {
+	for _, dFmt := range p.formats {
+		if loc := dFmt.dRegexp.FindIndex(buf); loc == nil || loc[0] != 0 || loc[1] != len(buf) {
+			continue
+		}
+		tm, err := dFmt.Parse(buf)
+		if err == nil {
+			return tm, dFmt
+		}
+	}
+	return time.Time{}, nil
+}
+
 // dateMap transforms human readable format (YYYY/MM/DD)
 // to go-lang layout representation (2006/01/02), see terms table above
 func dateMap(format string) string {
diff --git a/pkg/ql/datetime.go b/pkg/ql/datetime.go
index dc4c636..25374e6 100644
--- a/pkg/ql/datetime.go
+++ b/pkg/ql/datetime.go
@@ -84,6 +84,7 @@ var dateTimeParser = datetime.NewParser([]string{
 	"YYYY-MM-DD HH:mm:ss ZZZZ",
 	"YYYY-MM-DD HH:mm:ss ZZZ",
 	"YYYY-MM-DD hh:mm:ss P",
+	"YYYY-MM-DD HH:mm:ss.SSS",
 	"YYYY-MM-DD HH:mm:ss",
 	"YYYY-MM-DD  HH:mm:ss",
 	"YYYY-MM-DD HH:mm",
@@ -146,7 +147,7 @@ func parseDateTime(dt0 string) (time.Time, error) {
 		return tm, nil
 	}
 
-	tm, fm := dateTimeParser.Parse(cast.StringToByteArray(dt0))
+	tm, fm := dateTimeParser.ParseExact(cast.StringToByteArray(strings.Trim(dt0, " ")))
 	if fm != nil {
 		return tm, nil
 	}
-- 
2.43.0

