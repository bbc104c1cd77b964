From ef7997ea1b5da961724ad0913a385aa6fc4f2a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:15 +0000
Subject: [PATCH 01/59] fix: encrypted payloads shorter than the epoch
 panicked, decryption overwrote the stored bytes

---
 crypto/mac.go                     | 31 ++++++++++++++++++++++++-------
 server/internal/pkg/crypto/mac.go |  8 ++++----
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/crypto/mac.go b/crypto/mac.go
index c70d0f6..eb17bfe 100644
--- a/crypto/mac.go
+++ b/crypto/mac.go
@@ -82,12 +82,14 @@ func Signature(value uint32) []byte {
 // Encrypt encrypts src and appends to dst, returning the
 // resulting byte slice
 func (m *MAC) Encrypt(dst, src []byte) []byte {
-	//Copy first 4 bytes epoch from source
-	dst = append(dst, src[:EpochSize]...)
+	//Copy first 4 bytes epoch from source, a shorter source is padded.
+	var epoch [EpochSize]byte
+	n := copy(epoch[:], src)
+	dst = append(dst, epoch[:]...)
 	h := hash.New(src)
 	dst = append(dst, Signature(h)...)
 	nonce := append(m.salt, dst[:MessageOffset]...)
-	return m.parent.Seal(dst, nonce, src[EpochSize:], nil)
+	return m.parent.Seal(dst, nonce, src[n:], epochData(n))
 }
 
 // Decrypt decrypts src and appends to dst, returning the
@@ -100,11 +102,26 @@ func (m *MAC) Decrypt(dst, src []byte) ([]byte, error) {
 	}
 
 	nonce := append(m.salt, src[:MessageOffset]...)
-	dst, err := m.parent.Open(dst, nonce, src[MessageOffset:], nil)
+	n := EpochSize
+	msg, err := m.parent.Open(nil, nonce, src[MessageOffset:], epochData(n))
+	// A source shorter than the epoch was padded.
+	for err != nil && n > 0 && len(src) == m.Overhead()+EpochSize {
+		n--
+		msg, err = m.parent.Open(nil, nonce, src[MessageOffset:], epochData(n))
+	}
 	if err != nil {
 		return dst, errors.New("Authentication failed.")
 	}
-	// Append epoch to dst at the beginning
-	dst = append(src[:EpochSize], dst...)
-	return dst, nil
+	// Epoch is at the beginning, src is not modified.
+	dst = append(dst, src[:n]...)
+	return append(dst, msg...), nil
+}
+
+// epochData authenticates the number of source bytes kept in the epoch, it is
+// empty for a source that is not shorter than the epoch.
+func epochData(n int) []byte {
+	if n == EpochSize {
+		return nil
+	}
+	return []byte{byte(n)}
 }
diff --git a/server/internal/pkg/crypto/mac.go b/server/internal/pkg/crypto/mac.go
index 4b62bdb..f39ba1a 100644
--- a/server/internal/pkg/crypto/mac.go
+++ b/server/internal/pkg/crypto/mac.go
@@ -95,11 +95,11 @@ func (m *MAC) Decrypt(dst, src []byte) ([]byte, error) {
 	}
 
 	nonce := append(m.salt, src[:MessageOffset]...)
-	dst, err := m.parent.Open(dst, nonce, src[MessageOffset:], nil)
+	msg, err := m.parent.Open(nil, nonce, src[MessageOffset:], nil)
 	if err != nil {
 		return dst, errors.New("Authentication failed.")
 	}
-	// Append epoch to dst at the begining
-	dst = append(src[:EpochSize], dst...)
-	return dst, nil
+	// Epoch is at the beginning, src is not modified.
+	dst = append(dst, src[:EpochSize]...)
+	return append(dst, msg...), nil
 }
-- 
2.43.0


From 54cf7bc9259280eef7c5881008ec380465fbc13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:15 +0000
Subject: [PATCH 02/59] fix: encryption flag of the database header was
 overwritten and read from the version

---
 db_info.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db_info.go b/db_info.go
index ba56ab4..32ee9f0 100644
--- a/db_info.go
+++ b/db_info.go
@@ -43,7 +43,7 @@ func (inf _DBInfo) MarshalBinary() ([]byte, error) {
 	buf := make([]byte, fixed)
 	copy(buf[:7], inf.header.signature[:])
 	binary.LittleEndian.PutUint32(buf[7:11], inf.header.version)
-	buf[12] = uint8(inf.encryption)
+	buf[11] = uint8(inf.encryption)
 	binary.LittleEndian.PutUint64(buf[12:20], inf.sequence)
 	binary.LittleEndian.PutUint64(buf[20:28], inf.count)
 
@@ -54,7 +54,7 @@ func (inf _DBInfo) MarshalBinary() ([]byte, error) {
 func (inf *_DBInfo) UnmarshalBinary(data []byte) error {
 	copy(inf.header.signature[:], data[:7])
 	inf.header.version = binary.LittleEndian.Uint32(data[7:11])
-	inf.encryption = int8(data[7])
+	inf.encryption = int8(data[11])
 	inf.sequence = binary.LittleEndian.Uint64(data[12:20])
 	inf.count = binary.LittleEndian.Uint64(data[20:28])
 
-- 
2.43.0


From cb7fe5b40a1555c4ba879f13c1f928a52f97cce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:15 +0000
Subject: [PATCH 03/59] fix: sync did not flush any data file and dropped the
 flush error

---
 db_sync.go |  2 +-
 file.go    | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/db_sync.go b/db_sync.go
index 8515c7f..dd2ef2a 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -166,7 +166,7 @@ func (db *DB) sync() error {
 		return err
 	}
 	if err := db.fs.sync(); err != nil {
-		return nil
+		return err
 	}
 
 	return nil
diff --git a/file.go b/file.go
index 3dc7103..7cf6b8b 100644
--- a/file.go
+++ b/file.go
@@ -230,9 +230,11 @@ func (fs *_FileSet) getFile(fd _FileDesc) (*_File, error) {
 func (fs *_FileSet) sync() error {
 	fs.mu.RLock()
 	defer fs.mu.RUnlock()
-	for _, f := range fs.fileMap {
-		if err := f.Sync(); err != nil {
-			return err
+	for _, files := range fs.list {
+		for _, f := range files.fileMap {
+			if err := f.Sync(); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
@@ -242,8 +244,10 @@ func (fs *_FileSet) size() (int64, error) {
 	fs.mu.RLock()
 	defer fs.mu.RUnlock()
 	size := int64(0)
-	for _, f := range fs.fileMap {
-		size += f.currSize()
+	for _, files := range fs.list {
+		for _, f := range files.fileMap {
+			size += f.currSize()
+		}
 	}
 	return size, nil
 }
-- 
2.43.0


From 52081f7f513514884dc58c5054307c5a271ba316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:40 +0000
Subject: [PATCH 04/59] fix: a TTL given in seconds was not turned into an
 expiry time

---
 entry.go         | 1 +
 message/topic.go | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/entry.go b/entry.go
index 1eac420..f099de5 100644
--- a/entry.go
+++ b/entry.go
@@ -81,6 +81,7 @@ func (e *Entry) WithTTL(ttl string) *Entry {
 	val, err := strconv.ParseInt(ttl, 10, 64)
 	if err == nil {
 		e.ExpiresAt = uint32(time.Now().Add(time.Duration(int(val)) * time.Second).Unix())
+		return e
 	}
 	var duration time.Duration
 	duration, _ = time.ParseDuration(ttl)
diff --git a/message/topic.go b/message/topic.go
index 78d122e..492ad70 100644
--- a/message/topic.go
+++ b/message/topic.go
@@ -108,7 +108,7 @@ func (_SplitFunc) splitOpsKeyValue(c rune) bool {
 func (t *Topic) TTL() (uint32, bool) {
 	ttl, sec, ok := t.getOption("ttl")
 	if sec > 0 {
-		return uint32(time.Duration(sec) * time.Second), ok
+		return uint32(time.Now().Add(time.Duration(sec) * time.Second).Unix()), ok
 	}
 	var duration time.Duration
 	duration, _ = time.ParseDuration(ttl)
-- 
2.43.0


From 6699956214366ca7dad7b1916efdce994e12ede6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:18 +0000
Subject: [PATCH 05/59] fix: a write-ahead log was renamed into place before
 its data was flushed to disk

---
 wal/file.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wal/file.go b/wal/file.go
index a2a8ab9..be6fce7 100644
--- a/wal/file.go
+++ b/wal/file.go
@@ -80,12 +80,20 @@ func (fs *_FileStore) put(info _LogInfo, data *bpool.Buffer) error {
 	}
 	buf, err := info.MarshalBinary()
 	if err != nil {
+		f.Close()
 		return err
 	}
 	if _, err := f.WriteAt(buf, 0); err != nil {
+		f.Close()
 		return err
 	}
 	if _, err := f.WriteAt(data.Bytes(), int64(logHeaderSize)); err != nil {
+		f.Close()
+		return err
+	}
+	// the log must be on disk before it becomes visible under its final name.
+	if err := f.Sync(); err != nil {
+		f.Close()
 		return err
 	}
 	if err := f.Close(); err != nil {
-- 
2.43.0


From 24572589baf15491fd688ac96647c77042b0f1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:04 +0000
Subject: [PATCH 06/59] fix: an unreadable or unparsable write-ahead log was
 skipped and open reported success

---
 memdb/db.go       |  2 +-
 memdb/recovery.go |  4 ++++
 wal/file.go       | 26 +++++++++++++-------------
 wal/reader.go     | 10 ++++++++--
 4 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/memdb/db.go b/memdb/db.go
index 3bffcce..a4d73ec 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -72,7 +72,6 @@ func Open(opts ...Options) (*DB, error) {
 	logOpts := wal.Options{Path: options.logFilePath + "/" + logDir, BufferSize: options.bufferSize, Reset: options.logResetFlag}
 	wal, err := wal.New(logOpts)
 	if err != nil {
-		wal.Close()
 		return nil, err
 	}
 
@@ -93,6 +92,7 @@ func Open(opts ...Options) (*DB, error) {
 
 	if !options.logResetFlag {
 		if err := db.startRecovery(); err != nil {
+			wal.Close()
 			return nil, err
 		}
 	}
diff --git a/memdb/recovery.go b/memdb/recovery.go
index f5fbbe8..6b72605 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -131,6 +131,7 @@ func (db *DB) startRecovery() error {
 			for key, val := range log {
 				ikey := iKey(false, key)
 				if err := block.put(ikey, val); err != nil {
+					block.Unlock()
 					return false, err
 				}
 				blockKey := db.blockKey(key)
@@ -152,6 +153,9 @@ func (db *DB) startRecovery() error {
 		}
 		return false, nil
 	})
+	if err != nil {
+		return err
+	}
 
 	for timeID, keys := range delKeys {
 		if block, exists := db.timeBlocks[timeID]; exists {
diff --git a/wal/file.go b/wal/file.go
index be6fce7..71adc06 100644
--- a/wal/file.go
+++ b/wal/file.go
@@ -112,25 +112,24 @@ func (fs *_FileStore) put(info _LogInfo, data *bpool.Buffer) error {
 	return nil
 }
 
-func (fs *_FileStore) read(timeID int64, data *bpool.Buffer) _LogInfo {
+func (fs *_FileStore) read(timeID int64, data *bpool.Buffer) (_LogInfo, error) {
 	fs.RLock()
 	defer fs.RUnlock()
 
 	info := _LogInfo{}
 
 	if !fs.opened {
-		// trying to use file store, but not open.
-		return info
+		return info, errors.New("Trying to use file store, but not open")
 	}
 
 	log := logPath(fs.dirName, timeID)
 	if !exists(log) {
-		return info
+		return info, nil
 	}
 
 	f, err := os.Open(log)
 	if err != nil {
-		return info
+		return info, err
 	}
 
 	buf := make([]byte, uint32(logHeaderSize))
@@ -138,32 +137,33 @@ func (fs *_FileStore) read(timeID int64, data *bpool.Buffer) _LogInfo {
 		f.Close()
 		os.Rename(log, corruptPath(fs.dirName, timeID))
 
-		// log was unreadable, return nil
-		return info
+		// log was unreadable
+		return info, err
 	}
 
 	if err := info.UnmarshalBinary(buf); err != nil {
 		f.Close()
 		os.Rename(log, corruptPath(fs.dirName, timeID))
 
-		// log was unreadable, return nil
-		return info
+		// log was unreadable
+		return info, err
 	}
 
 	if _, err := data.Extend(int64(info.size)); err != nil {
-		return info
+		f.Close()
+		return info, err
 	}
 
 	if _, err := f.ReadAt(data.Internal(), int64(logHeaderSize)); err != nil {
 		f.Close()
 		os.Rename(log, corruptPath(fs.dirName, timeID))
 
-		// log was unreadable, return nil
-		return info
+		// log was unreadable
+		return info, err
 	}
 	f.Close()
 
-	return info
+	return info, nil
 }
 
 // all provides a list of all time IDs currently stored in the file store.
diff --git a/wal/reader.go b/wal/reader.go
index f704e0c..fea6c00 100644
--- a/wal/reader.go
+++ b/wal/reader.go
@@ -61,7 +61,10 @@ func (r *Reader) Iterator(f func(timeID int64) (bool, error)) (err error) {
 	for _, timeID := range r.wal.recoveredTimeIDs {
 		r.offset = 0
 		r.buffer.Reset()
-		info := r.wal.logStore.read(timeID, r.buffer)
+		info, err := r.wal.logStore.read(timeID, r.buffer)
+		if err != nil {
+			return err
+		}
 		r.entryCount = info.count
 		if stop, err := f(timeID); stop || err != nil {
 			return err
@@ -82,7 +85,10 @@ func (r *Reader) Next() ([]byte, bool, error) {
 		return nil, false, nil
 	}
 	r.entryCount--
-	scratch, _ := r.buffer.Slice(r.offset, r.offset+4)
+	scratch, err := r.buffer.Slice(r.offset, r.offset+4)
+	if err != nil {
+		return nil, false, errors.New("error reading log")
+	}
 	dataLen := binary.LittleEndian.Uint32(scratch)
 	data, err := r.buffer.Slice(r.offset+4, r.offset+int64(dataLen))
 	if err != nil {
-- 
2.43.0


From 95e06deecedad7c9fb81444a6cd13119c67117ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:16 +0000
Subject: [PATCH 07/59] fix: failures to list or remove write-ahead logs were
 dropped, the applied counter was updated under a read lock

---
 wal/file.go | 40 +++++++++++++++++++++++++---------------
 wal/wal.go  | 24 ++++++++++--------------
 2 files changed, 35 insertions(+), 29 deletions(-)

diff --git a/wal/file.go b/wal/file.go
index 71adc06..40eb40e 100644
--- a/wal/file.go
+++ b/wal/file.go
@@ -24,6 +24,7 @@ import (
 	"path"
 	"sort"
 	"strconv"
+	"strings"
 	"sync"
 
 	"github.com/unit-io/bpool"
@@ -167,18 +168,17 @@ func (fs *_FileStore) read(timeID int64, data *bpool.Buffer) (_LogInfo, error) {
 }
 
 // all provides a list of all time IDs currently stored in the file store.
-func (fs *_FileStore) all() []int64 {
+func (fs *_FileStore) all() ([]int64, error) {
 	var timeIDs []int64
 	var files _FileInfos
 
 	if !fs.opened {
-		// trying to use file store, but not open.
-		return nil
+		return nil, errors.New("Trying to use file store, but not open")
 	}
 
 	files, err := ioutil.ReadDir(fs.dirName)
 	if err != nil {
-		return nil
+		return nil, err
 	}
 
 	// sort.Slice(files[:], func(i, j int) bool {
@@ -191,40 +191,50 @@ func (fs *_FileStore) all() []int64 {
 
 	for _, f := range files {
 		name := f.Name()
-		if name[len(name)-4:] != logExt {
+		if !strings.HasSuffix(name, logExt) {
 			// skipping file, doesn't have right extension.
 			continue
 		}
 
-		timeID, _ := strconv.ParseInt(name[:len(name)-4], 10, 64) // remove file extension
+		timeID, err := strconv.ParseInt(strings.TrimSuffix(name, logExt), 10, 64) // remove file extension
+		if err != nil {
+			// skipping file, name isn't a time ID.
+			continue
+		}
 		timeIDs = append(timeIDs, timeID)
 	}
 
-	return timeIDs
+	return timeIDs, nil
 }
 
-func (fs *_FileStore) del(timeID int64) {
+func (fs *_FileStore) del(timeID int64) error {
 	fs.Lock()
 	defer fs.Unlock()
 
 	if !fs.opened {
-		// trying to use file store, but not open.
-		return
+		return errors.New("Trying to use file store, but not open")
 	}
 
 	log := logPath(fs.dirName, timeID)
 	if !exists(log) {
-		return
+		return nil
 	}
 
-	os.Remove(log)
+	return os.Remove(log)
 }
 
 // reset removes all persisted logs from file store.
-func (fs *_FileStore) reset() {
-	for _, timeID := range fs.all() {
-		fs.del(timeID)
+func (fs *_FileStore) reset() error {
+	timeIDs, err := fs.all()
+	if err != nil {
+		return err
 	}
+	for _, timeID := range timeIDs {
+		if err := fs.del(timeID); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 func logPath(dirName string, timeID int64) string {
diff --git a/wal/wal.go b/wal/wal.go
index b838cdb..4ecaa74 100644
--- a/wal/wal.go
+++ b/wal/wal.go
@@ -79,18 +79,16 @@ func newWal(opts Options) (wal *WAL, err error) {
 	}
 
 	if opts.Reset {
-		wal.logStore.reset()
-		return wal, nil
+		return wal, wal.logStore.reset()
 	}
 
-	wal.recoverWal()
-
-	return wal, nil
+	return wal, wal.recoverWal()
 }
 
 // recoverWal recovers a WAL for the log written but not released. It also updates free blocks.
-func (wal *WAL) recoverWal() {
-	wal.recoveredTimeIDs = wal.logStore.all()
+func (wal *WAL) recoverWal() (err error) {
+	wal.recoveredTimeIDs, err = wal.logStore.all()
+	return err
 }
 
 // Close closes the wal, frees used resources and checks for active
@@ -119,22 +117,20 @@ func (wal *WAL) put(log _LogInfo, data *bpool.Buffer) error {
 
 // SignalLogApplied informs the WAL that it is safe to reuse blocks.
 func (wal *WAL) SignalLogApplied(timeID int64) error {
-	wal.mu.RLock()
+	wal.mu.Lock()
 	wal.wg.Add(1)
 	defer func() {
 		wal.wg.Done()
-		wal.mu.RUnlock()
+		wal.mu.Unlock()
 	}()
 
 	wal.logCountApplied++
-	wal.logStore.del(timeID)
-
-	return nil
+	return wal.logStore.del(timeID)
 }
 
 // Reset removes all persistested logs from log store.
-func (wal *WAL) Reset() {
-	wal.logStore.reset()
+func (wal *WAL) Reset() error {
+	return wal.logStore.reset()
 }
 
 // setClosed flag; return true if not already closed.
-- 
2.43.0


From a85f32ecba5ad2290990509ca120f8054b7c96c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:41 +0000
Subject: [PATCH 08/59] fix: a negative filter answer hid keys that the filter
 snapshot did not cover

---
 filter/filter.go     |  5 +++++
 memdb/db.go          | 16 ++++------------
 memdb/db_internal.go | 10 ++++------
 memdb/recovery.go    | 10 ++++------
 4 files changed, 17 insertions(+), 24 deletions(-)

diff --git a/filter/filter.go b/filter/filter.go
index 12d0778..1cd767f 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -20,6 +20,11 @@ func (b *Generator) Append(h uint64) {
 	b.filter.Add(h)
 }
 
+// Test reports whether the entry may have been appended to the filter.
+func (b *Generator) Test(h uint64) bool {
+	return b.filter.Test(h)
+}
+
 // Finish finishes building the filter block and returns a slice to its contents.
 func (b *Generator) Finish() []byte {
 	return b.filter.Bytes()
diff --git a/memdb/db.go b/memdb/db.go
index a4d73ec..ae3eae6 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -240,12 +240,6 @@ func (db *DB) Get(key uint64) ([]byte, error) {
 
 				return block.get(off)
 			}
-			r.RLock()
-			fltr := r.timeRecords[timeID]
-			r.RUnlock()
-			if !fltr.Test(key) {
-				break
-			}
 		}
 	}
 
@@ -301,6 +295,10 @@ func (db *DB) Delete(key uint64) error {
 	if !ok {
 		return errEntryDoesNotExist
 	}
+	// filter covers keys of all time records of the block key.
+	if !r.filter.Test(key) {
+		return errEntryDoesNotExist
+	}
 
 	var timeIDs []_TimeID
 	r.RLock()
@@ -321,12 +319,6 @@ func (db *DB) Delete(key uint64) error {
 			_, ok := block.records[ikey]
 			block.RUnlock()
 			if !ok {
-				r.RLock()
-				fltr := r.timeRecords[timeID]
-				r.RUnlock()
-				if !fltr.Test(key) {
-					return errEntryDoesNotExist
-				}
 				continue
 			}
 
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index c86d10f..b550d5d 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -195,6 +195,10 @@ func (db *DB) seek(key uint64, cutoff int64) error {
 	if !ok {
 		return errEntryDoesNotExist
 	}
+	// filter covers keys of all time records of the block key.
+	if !r.filter.Test(key) {
+		return errEntryDoesNotExist
+	}
 
 	var timeIDs []_TimeID
 	r.RLock()
@@ -224,12 +228,6 @@ func (db *DB) seek(key uint64, cutoff int64) error {
 				}
 				return nil
 			}
-			r.RLock()
-			fltr := r.timeRecords[timeID]
-			r.RUnlock()
-			if !fltr.Test(key) {
-				return errEntryDoesNotExist
-			}
 		}
 	}
 
diff --git a/memdb/recovery.go b/memdb/recovery.go
index 6b72605..9238de0 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -34,6 +34,10 @@ func (db *DB) delete(key uint64) error {
 	if !ok {
 		return errEntryDoesNotExist
 	}
+	// filter covers keys of all time records of the block key.
+	if !r.filter.Test(key) {
+		return errEntryDoesNotExist
+	}
 
 	var timeIDs []_TimeID
 	r.RLock()
@@ -51,12 +55,6 @@ func (db *DB) delete(key uint64) error {
 			_, ok := block.records[iKey(false, key)]
 			block.RUnlock()
 			if !ok {
-				r.RLock()
-				fltr := r.timeRecords[timeID]
-				r.RUnlock()
-				if !fltr.Test(key) {
-					return errEntryDoesNotExist
-				}
 				continue
 			}
 			block.Lock()
-- 
2.43.0


From 5492855aa9ec9f75411a6bfb57989bd7901829bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:19 +0000
Subject: [PATCH 09/59] fix: aborting a batch panicked when its function
 failed, and left its unwritten entries visible

---
 db.go          |  1 +
 memdb/batch.go | 15 +++++++++++----
 memdb/db.go    |  1 +
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/db.go b/db.go
index 59bc810..dfd917e 100644
--- a/db.go
+++ b/db.go
@@ -438,6 +438,7 @@ func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
 
 	// If an error is returned from the function then rollback and return error.
 	if err := fn(b, b.commitComplete); err != nil {
+		b.unsetManaged()
 		b.Abort()
 		close(b.commitComplete)
 		return err
diff --git a/memdb/batch.go b/memdb/batch.go
index 7290373..52f81aa 100644
--- a/memdb/batch.go
+++ b/memdb/batch.go
@@ -119,14 +119,21 @@ func (b *Batch) Commit() error {
 //Abort aborts batch or perform cleanup operation on batch complete.
 func (b *Batch) Abort() error {
 	_assert(!b.managed, "managed batch abort not allowed")
-	for _, ID := range b.batchGroup {
-		if err := b.db.releaseLog(ID); err != nil {
-			return err
+	if b.db == nil {
+		// batch is already complete.
+		return nil
+	}
+	var err error
+	// release entries written by the batch and entries that are not yet written.
+	for _, ID := range append(b.batchGroup, b.tinyLog.timeID()) {
+		if err1 := b.db.releaseLog(ID); err1 != nil && err1 != errEntryDoesNotExist {
+			err = err1
 		}
 	}
+	b.batchGroup = b.batchGroup[:0]
 	b.db = nil
 
-	return nil
+	return err
 }
 
 // _assert will panic with a given formatted message if the given condition is false.
diff --git a/memdb/db.go b/memdb/db.go
index ae3eae6..c38dcd8 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -400,6 +400,7 @@ func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
 	b.setManaged()
 	// If an error is returned from the function then rollback and return error.
 	if err := fn(b, b.commitComplete); err != nil {
+		b.unsetManaged()
 		b.Abort()
 		close(b.commitComplete)
 		return err
-- 
2.43.0


From b8a84bb5c9ceefa986b26ef1a31d50ce85da1d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:52 +0000
Subject: [PATCH 10/59] fix: a failed or dropped log write was acknowledged as
 a successful batch commit

---
 memdb/batch.go       |  7 ++++-
 memdb/db_internal.go |  1 +
 memdb/tiny_log.go    | 71 +++++++++++++++++++-------------------------
 3 files changed, 38 insertions(+), 41 deletions(-)

diff --git a/memdb/batch.go b/memdb/batch.go
index 52f81aa..01e375f 100644
--- a/memdb/batch.go
+++ b/memdb/batch.go
@@ -85,8 +85,13 @@ func (b *Batch) Write() error {
 	defer func() {
 		<-b.writeLockC
 	}()
+	if err := b.db.ok(); err != nil {
+		return err
+	}
 	b.batchGroup = append(b.batchGroup, b.tinyLog.timeID())
-	b.db.internal.logManager.writeWait(b.tinyLog)
+	if err := b.db.internal.logManager.writeWait(b.tinyLog); err != nil {
+		return err
+	}
 	b.newTinyLog()
 
 	return nil
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index b550d5d..88a7f23 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -299,6 +299,7 @@ func (db *DB) tinyCommit(tinyLog *_TinyLog) error {
 	defer tinyLog.abort()
 
 	if err := db.tinyWrite(tinyLog); err != nil {
+		tinyLog.err = err
 		return err
 	}
 
diff --git a/memdb/tiny_log.go b/memdb/tiny_log.go
index a7c2fd1..974fa09 100644
--- a/memdb/tiny_log.go
+++ b/memdb/tiny_log.go
@@ -38,6 +38,7 @@ type _TinyLog struct {
 
 	managed  bool
 	doneChan chan struct{}
+	err      error // err is result of the commit, it is set before doneChan is closed.
 }
 
 func (l *_TinyLog) ID() _TimeID {
@@ -90,6 +91,8 @@ type (
 		writeQueue chan *_TinyLog
 		logQueue   chan *_TinyLog
 		stop       chan struct{}
+		closed     bool           // closed is set before writeQueue is closed.
+		writers    sync.WaitGroup // writers counts goroutines sending to the writeQueue.
 		stopOnce   sync.Once
 		stopWg     sync.WaitGroup
 	}
@@ -139,6 +142,7 @@ func (db *DB) newLogManager(opts *_TinyLogOptions) {
 	}
 
 	logManager.newTinyLog()
+	db.internal.logManager = logManager
 
 	// start the write loop
 	go logManager.writeLoop(opts.writeInterval)
@@ -150,10 +154,8 @@ func (db *DB) newLogManager(opts *_TinyLogOptions) {
 	// start the dispacther
 	for i := 0; i < opts.logCount; i++ {
 		logManager.stopWg.Add(1)
-		go logManager.dispatch(opts.timeout)
+		go logManager.dispatch()
 	}
-
-	db.internal.logManager = logManager
 }
 
 // timeID returns tinyLog timeID.
@@ -182,20 +184,23 @@ func (p *_TinyLogManager) closeWait() {
 	p.close(true)
 }
 
-// write enqueues a log to write.
-func (p *_TinyLogManager) write() {
-	if p.tinyLog != nil {
-		p.writeQueue <- p.tinyLog
-	}
-}
-
-// writeWait enqueues the log and waits for it to be executed.
-func (p *_TinyLogManager) writeWait(tinyLog *_TinyLog) {
+// writeWait enqueues the log, waits for it to be executed and returns its result.
+func (p *_TinyLogManager) writeWait(tinyLog *_TinyLog) error {
 	if tinyLog == nil {
-		return
+		return nil
+	}
+	p.mu.RLock()
+	if p.closed {
+		p.mu.RUnlock()
+		return errClosed
 	}
+	p.writers.Add(1)
+	p.mu.RUnlock()
 	p.writeQueue <- tinyLog
+	p.writers.Done()
 	<-tinyLog.doneChan
+
+	return tinyLog.err
 }
 
 // writeLoop enqueue the tiny log to the log pool.
@@ -211,7 +216,11 @@ func (p *_TinyLogManager) writeLoop(interval time.Duration) {
 	for {
 		select {
 		case <-p.stop:
-			p.write()
+			p.mu.Lock()
+			p.closed = true
+			p.mu.Unlock()
+			p.writers.Wait()
+			p.writeQueue <- p.tinyLog
 			close(p.writeQueue)
 
 			return
@@ -233,41 +242,23 @@ func (p *_TinyLogManager) writeLoop(interval time.Duration) {
 				fallthrough
 			default:
 				p.mu.Lock()
-				p.write()
+				tinyLog := p.tinyLog
 				p.newTinyLog()
 				p.mu.Unlock()
+				p.writeQueue <- tinyLog
 			}
 		}
 	}
 }
 
 // dispatch handles tiny log commit for the jobs in queue.
-func (p *_TinyLogManager) dispatch(timeout time.Duration) {
-LOOP:
-	for {
-		select {
-		case tinyLog, ok := <-p.writeQueue:
-			// Get a buffer from the queue
-			if !ok {
-				close(p.logQueue)
-				p.stopWg.Done()
-				return
-			}
-
-			// return tinyLog to the pool
-			select {
-			case p.logQueue <- tinyLog:
-			default:
-				// pool is full, let GC handle the buffer
-				goto WAIT
-			}
-		}
+func (p *_TinyLogManager) dispatch() {
+	for tinyLog := range p.writeQueue {
+		// wait if pool is full, a log must not be dropped.
+		p.logQueue <- tinyLog
 	}
-
-WAIT:
-	// Wait for a while
-	time.Sleep(timeout)
-	goto LOOP
+	close(p.logQueue)
+	p.stopWg.Done()
 }
 
 // commitLoop commits the tiny log to the WAL.
-- 
2.43.0


From ba2cc3372112634738b3196d29a5d3d00849d1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:29 +0000
Subject: [PATCH 11/59] fix: Keys, Size and Delete took locks in the opposite
 order of Put and could block for ever, a deleted key came back on recovery

---
 memdb/db.go          | 32 +++++++++++++++-----------------
 memdb/db_internal.go | 21 +++++++++++++++++++--
 2 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/memdb/db.go b/memdb/db.go
index c38dcd8..d9a9ecc 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -112,6 +112,8 @@ func (db *DB) Close() error {
 		return err
 	}
 
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	if db.timeBlocks != nil {
 		db.timeBlocks = nil
 		db.version = -1
@@ -123,12 +125,9 @@ func (db *DB) Close() error {
 
 // Keys gets all keys from DB.
 func (db *DB) Keys() []uint64 {
-	db.mu.RLock()
-	defer db.mu.RUnlock()
-
 	var keys []uint64
 
-	for _, block := range db.timeBlocks {
+	for _, block := range db.blocks() {
 		block.RLock()
 		for ik := range block.records {
 			if ik.delFlag == 0 {
@@ -332,17 +331,18 @@ func (db *DB) Delete(key uint64) error {
 			if block.count == 0 {
 				// all entries are deleted from the block,
 				// now check if timeIDs for deleted entries are released.
-				for ikey, timeID := range block.records {
-					db.mu.RLock()
-					if _, ok := db.timeBlocks[_TimeID(timeID)]; ok {
-						db.move(_TimeID(timeID), ikey.key)
-					}
-					db.mu.RUnlock()
-					delete(block.records, ikey)
-				}
-				// released timeblock from the WAL if all records are deleted.
-				if len(block.records) == 0 && timeID < db.timeID() {
+				if timeID < db.timeID() {
+					moved := block.records
+					block.records = make(map[_Key]int64)
 					block.Unlock()
+					for ikey, timeID := range moved {
+						if _, ok := db.timeBlock(_TimeID(timeID)); ok {
+							if err := db.move(_TimeID(timeID), ikey.key); err != nil {
+								return err
+							}
+						}
+					}
+					// released timeblock from the WAL if all records are deleted.
 					return db.releaseLog(timeID)
 				}
 			}
@@ -418,10 +418,8 @@ func (db *DB) Free(timeID int64) error {
 // Size returns the total number of entries in DB.
 func (db *DB) Size() int64 {
 	size := int64(0)
-	db.mu.RLock()
-	defer db.mu.RUnlock()
 
-	for _, block := range db.timeBlocks {
+	for _, block := range db.blocks() {
 		block.RLock()
 		size += block.count
 		block.RUnlock()
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index 88a7f23..80ff1d3 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -150,6 +150,18 @@ func (db *DB) timeBlock(timeID _TimeID) (*_Block, bool) {
 	return nil, false
 }
 
+// blocks returns all time blocks of the DB.
+func (db *DB) blocks() []*_Block {
+	db.mu.RLock()
+	defer db.mu.RUnlock()
+	blocks := make([]*_Block, 0, len(db.timeBlocks))
+	for _, block := range db.timeBlocks {
+		blocks = append(blocks, block)
+	}
+
+	return blocks
+}
+
 // addTimeFilter adds unique time block to the set.
 func (db *DB) addTimeFilter(timeID _TimeID, key uint64) error {
 	blockKey := db.blockKey(key)
@@ -249,8 +261,13 @@ func (db *DB) move(timeID _TimeID, key uint64) error {
 	rawTimeID := make([]byte, 8)
 	binary.LittleEndian.PutUint64(rawTimeID[:8], uint64(timeID))
 
-	newBlock.records[dkey] = int64(newTimeID)
-	return newBlock.put(dkey, rawTimeID)
+	if err := newBlock.put(dkey, rawTimeID); err != nil {
+		return err
+	}
+	// keep time ID of the deleted entry for as long as log of the new block has the deleted key.
+	newBlock.records[dkey] = int64(timeID)
+
+	return nil
 }
 
 // tinyWrite writes tiny log to the WAL.
-- 
2.43.0


From 47a6b36a30b1ca575ec300435d0e1fc46af366db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:15 +0000
Subject: [PATCH 12/59] fix: the query cache was shared without a lock and kept
 released blocks, whose pooled buffers are reused

---
 memdb/block.go       |  4 ++++
 memdb/db.go          | 20 +++++++++++---------
 memdb/db_internal.go | 21 +++++++++++++++++++--
 memdb/query.go       |  4 ++++
 4 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/memdb/block.go b/memdb/block.go
index 59ee26b..1c24060 100644
--- a/memdb/block.go
+++ b/memdb/block.go
@@ -80,6 +80,10 @@ func (b *_Block) get(off int64) ([]byte, error) {
 }
 
 func (b *_Block) put(ikey _Key, data []byte) error {
+	if b.records == nil {
+		// block is already released.
+		return errForbidden
+	}
 	dataLen := int64(len(data) + 8 + 1 + 4) // data len + key len + flag bit + scratch len
 	off, err := b.data.Extend(dataLen)
 	if err != nil {
diff --git a/memdb/db.go b/memdb/db.go
index d9a9ecc..4dec261 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -180,10 +180,16 @@ func (db *DB) Get(key uint64) ([]byte, error) {
 		return nil, err
 	}
 
-	db.mu.RLock()
+	db.internal.queryManager.Lock()
+	defer db.internal.queryManager.Unlock()
+
+	return db.get(key)
+}
+
+// get gets data using the query cache. The caller must hold lock of the query manager.
+func (db *DB) get(key uint64) ([]byte, error) {
 	// Get time block
 	blockKey := db.blockKey(key)
-	db.mu.RUnlock()
 
 	// first execute query plan
 	if len(db.internal.queryManager.timeFilters[blockKey].timeRecords) == 0 {
@@ -197,21 +203,18 @@ func (db *DB) Get(key uint64) ([]byte, error) {
 	if ok {
 		block.RLock()
 		off, ok := block.records[iKey(false, key)]
-		block.RUnlock()
 		if ok {
-			block.RLock()
 			defer block.RUnlock()
 
 			db.internal.meter.Gets.Inc(1)
 
 			return block.get(off)
 		}
+		block.RUnlock()
 	}
 
-	db.mu.RLock()
 	// Get time block
 	r, ok := db.internal.queryManager.timeFilters[blockKey]
-	db.mu.RUnlock()
 	if !ok {
 		return nil, errEntryDoesNotExist
 	}
@@ -230,22 +233,21 @@ func (db *DB) Get(key uint64) ([]byte, error) {
 		if ok {
 			block.RLock()
 			off, ok := block.records[iKey(false, key)]
-			block.RUnlock()
 			if ok {
-				block.RLock()
 				defer block.RUnlock()
 				db.internal.meter.Gets.Inc(1)
 				db.internal.queryManager.timeRcord = timeID
 
 				return block.get(off)
 			}
+			block.RUnlock()
 		}
 	}
 
 	// reset timeBlock and start over
 	db.internal.queryManager.timeFilters[blockKey] = &_TimeFilter{timeRecords: make(map[_TimeID]*filter.Block), filter: filter.NewFilterGenerator()}
 
-	return db.Get(key)
+	return db.get(key)
 }
 
 // BlockIterator iterates all time blocks from DB committed to the WAL.
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index 80ff1d3..7aac638 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -194,6 +194,7 @@ func (db *DB) newQueryManager() {
 }
 
 // seek finds timeRecords and timeBlock for the provided key and cutoff duration and caches those for query.
+// The caller must hold lock of the query manager.
 func (db *DB) seek(key uint64, cutoff int64) error {
 	if err := db.ok(); err != nil {
 		return err
@@ -281,6 +282,11 @@ func (db *DB) tinyWrite(tinyLog *_TinyLog) error {
 		return nil
 	}
 	block.RLock()
+	if block.records == nil {
+		// block is already released and nothing to write.
+		block.RUnlock()
+		return nil
+	}
 	blockSize := block.data.Size()
 	log, err := block.data.Slice(block.lastOffset, blockSize)
 	block.RUnlock()
@@ -335,8 +341,17 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 		return errEntryDoesNotExist
 	}
 
-	block.RLock()
-	defer block.RUnlock()
+	// the query cache must not refer to the block once it is released.
+	db.internal.queryManager.Lock()
+	delete(db.internal.queryManager.timeBlocks, timeID)
+	db.internal.queryManager.Unlock()
+
+	block.Lock()
+	defer block.Unlock()
+	if block.records == nil {
+		// block is already released.
+		return errEntryDoesNotExist
+	}
 	for _, timeRef := range block.timeRefs {
 		if err := db.internal.wal.SignalLogApplied(int64(timeRef)); err != nil {
 			return err
@@ -348,6 +363,8 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 	delete(db.timeBlocks, _TimeID(timeID))
 	db.internal.timeMark.timeUnref(timeID)
 
+	block.records = nil
+	block.count = 0
 	db.internal.buffer.Put(block.data)
 
 	return nil
diff --git a/memdb/query.go b/memdb/query.go
index 9538895..cb9361e 100644
--- a/memdb/query.go
+++ b/memdb/query.go
@@ -16,7 +16,11 @@
 
 package memdb
 
+import "sync"
+
 type _QueryManager struct {
+	sync.Mutex // Mutex guards the query cache.
+
 	timeRcord   _TimeID
 	timeFilters map[_BlockKey]*_TimeFilter
 	timeBlocks  _TimeBlocks
-- 
2.43.0


From 319fd7818388582cee06c46b0c6a43f85ed6a357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:18 +0000
Subject: [PATCH 13/59] fix: a time mark lost references when added again, a
 short deleted value panicked log recovery

---
 memdb/recovery.go  | 4 ++--
 memdb/time_mark.go | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/memdb/recovery.go b/memdb/recovery.go
index 9238de0..87fbc13 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -108,14 +108,14 @@ func (db *DB) startRecovery() error {
 				key := binary.LittleEndian.Uint64(data[1:9])
 				val := data[9:]
 				off += dataLen
-				if dBit == 1 {
+				if dBit == 1 && len(val) >= 8 {
 					timeRefID := _TimeID(binary.LittleEndian.Uint64(val[:8]))
 					if _, ok := delKeys[timeRefID]; ok {
 						delKeys[timeRefID] = append(delKeys[timeRefID], key)
 					} else {
 						delKeys[timeRefID] = []uint64{key}
 					}
-				} else {
+				} else if dBit == 0 {
 					log[key] = val
 				}
 			}
diff --git a/memdb/time_mark.go b/memdb/time_mark.go
index d13797b..76210c3 100644
--- a/memdb/time_mark.go
+++ b/memdb/time_mark.go
@@ -43,6 +43,8 @@ func (tm *_TimeMark) add(timeID _TimeID) {
 	defer tm.Unlock()
 	if r, ok := tm.records[timeID]; ok {
 		r.refs++
+		tm.records[timeID] = r
+		return
 	}
 	tm.records[timeID] = _TimeRecord{refs: 1}
 }
-- 
2.43.0


From c93b33b276b18bc9a5d9ba9def942e4bba870ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:55 +0000
Subject: [PATCH 14/59] fix: log recovery ignored deletions recorded against
 another time block and kept logs of emptied blocks

---
 memdb/recovery.go | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/memdb/recovery.go b/memdb/recovery.go
index 87fbc13..80660f3 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -62,19 +62,34 @@ func (db *DB) delete(key uint64) error {
 			delete(block.records, ikey)
 			block.count--
 			db.internal.meter.Dels.Inc(1)
+			var err error
 			if len(block.records) == 0 {
-				delete(db.timeBlocks, _TimeID(timeID))
-				db.internal.buffer.Put(block.data)
+				err = db.drop(timeID, block)
 			}
 			block.Unlock()
 
-			return nil
+			return err
 		}
 	}
 
 	return errEntryDoesNotExist
 }
 
+// drop drops the block with no entries and its logs, a log left behind would bring deleted entries back.
+//
+// This method is not thread safe.
+func (db *DB) drop(timeID _TimeID, block *_Block) error {
+	for _, timeRef := range block.timeRefs {
+		if err := db.internal.wal.SignalLogApplied(int64(timeRef)); err != nil {
+			return err
+		}
+	}
+	delete(db.timeBlocks, timeID)
+	db.internal.buffer.Put(block.data)
+
+	return nil
+}
+
 // startRecovery recovers pending entries from the WAL.
 func (db *DB) startRecovery() error {
 	db.mu.RLock()
@@ -163,7 +178,10 @@ func (db *DB) startRecovery() error {
 				_, ok := block.records[ikey]
 				block.RUnlock()
 				if !ok {
-					// errEntryDoesNotExist
+					// entry is recovered with other time block.
+					if err := db.delete(key); err != nil && err != errEntryDoesNotExist {
+						return err
+					}
 					continue
 				}
 				block.Lock()
@@ -171,14 +189,18 @@ func (db *DB) startRecovery() error {
 				block.count--
 				db.internal.meter.Dels.Inc(1)
 				if len(block.records) == 0 {
-					delete(db.timeBlocks, _TimeID(timeID))
-					db.internal.buffer.Put(block.data)
+					err = db.drop(timeID, block)
 				}
 				block.Unlock()
+				if err != nil {
+					return err
+				}
 			}
 		} else {
 			for _, key := range keys {
-				db.delete(key)
+				if err := db.delete(key); err != nil && err != errEntryDoesNotExist {
+					return err
+				}
 			}
 		}
 	}
-- 
2.43.0


From 8c680af493a6e8324412d7fc7781dd4092d8e2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:26 +0000
Subject: [PATCH 15/59] fix: log recovery dropped errors of failed entries, and
 reopened databases handed out recovered sequences again

---
 db_internal.go | 10 ++++++++++
 recovery.go    |  9 ++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/db_internal.go b/db_internal.go
index 8b59f82..8754756 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -363,6 +363,16 @@ func (db *DB) nextSeq() uint64 {
 	return atomic.AddUint64(&db.internal.dbInfo.sequence, 1)
 }
 
+// raiseSeq moves sequence of the DB forward to the given sequence.
+func (db *DB) raiseSeq(seq uint64) {
+	for {
+		cur := db.seq()
+		if cur >= seq || atomic.CompareAndSwapUint64(&db.internal.dbInfo.sequence, cur, seq) {
+			return
+		}
+	}
+}
+
 func (db *DB) incount(count uint64) uint64 {
 	return atomic.AddUint64(&db.internal.dbInfo.count, count)
 }
diff --git a/recovery.go b/recovery.go
index 1da08d5..3a74531 100644
--- a/recovery.go
+++ b/recovery.go
@@ -50,6 +50,10 @@ func (db *_SyncHandle) startRecovery() error {
 		db.internal.closeW.Done()
 	}()
 	fmt.Println("db.recoverLog: start recovery")
+	// sequence handed out next must be above the recovered sequences.
+	for _, seq := range db.internal.mem.Keys() {
+		db.raiseSeq(seq)
+	}
 	if ok := db.startSync(); !ok {
 		return nil
 	}
@@ -151,7 +155,10 @@ func (db *_SyncHandle) startRecovery() error {
 	if err != nil || err1 != nil {
 		db.syncInfo.syncComplete = false
 		db.abort()
-		return err1
+		if err == nil {
+			err = err1
+		}
+		return err
 	}
 
 	if err := db.recoverWindowBlocks(pendingEntries); err != nil {
-- 
2.43.0


From 937f80985879fa4e2d0e1035ac4cf0f36bfae296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:10 +0000
Subject: [PATCH 16/59] fix: a failed open left the database locked, failures
 to load topics were dropped and recovery failures panicked

---
 db.go        | 22 ++++++++++++++++++++--
 file_unix.go | 10 ++++++++++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/db.go b/db.go
index dfd917e..9c9239e 100644
--- a/db.go
+++ b/db.go
@@ -19,7 +19,6 @@ package unitdb
 import (
 	"bytes"
 	"encoding/binary"
-	"fmt"
 	"math/rand"
 	"os"
 	"sort"
@@ -66,6 +65,17 @@ func Open(path string, opts ...Options) (*DB, error) {
 		return nil, err
 	}
 
+	db, err := openLocked(path, options, lock)
+	if err != nil {
+		lock.unlock()
+		return nil, err
+	}
+
+	return db, nil
+}
+
+// openLocked opens or creates a new DB, the caller must hold lock of the DB directory.
+func openLocked(path string, options *_Options, lock _LockFile) (*DB, error) {
 	infoFile, err := newFile(path, 1, _FileDesc{fileType: typeInfo})
 	if err != nil {
 		return nil, err
@@ -186,17 +196,25 @@ func Open(path string, opts ...Options) (*DB, error) {
 
 	if err := db.loadTrie(); err != nil {
 		logger.Error().Err(err).Str("context", "db.loadTrie")
+		db.internal.mem.Close()
+		db.fs.close()
+		return nil, err
 	}
 
 	// Read freeList.
 	if err := db.internal.freeList.read(); err != nil {
 		logger.Error().Err(err).Str("context", "db.readHeader")
+		db.internal.mem.Close()
+		db.fs.close()
 		return nil, err
 	}
 
 	if err := db.recoverLog(); err != nil {
 		// if unable to recover db then close db.
-		panic(fmt.Sprintf("Unable to recover db on sync error %v. Closing db...", err))
+		logger.Error().Err(err).Str("context", "db.recoverLog")
+		db.internal.mem.Close()
+		db.fs.close()
+		return nil, err
 	}
 
 	db.internal.syncHandle = _SyncHandle{DB: db}
diff --git a/file_unix.go b/file_unix.go
index f6c5c82..6db011d 100644
--- a/file_unix.go
+++ b/file_unix.go
@@ -55,5 +55,15 @@ func newLockFile(name string) (_LockFile, error) {
 		f.Close()
 		return nil, err
 	}
+	// the lock is void if previous holder removed the file before it is locked.
+	fi, err := f.Stat()
+	if err != nil {
+		f.Close()
+		return nil, err
+	}
+	if cur, err := os.Stat(name); err != nil || !os.SameFile(fi, cur) {
+		f.Close()
+		return newLockFile(name)
+	}
 	return &_UnixFileLock{f, name}, nil
 }
-- 
2.43.0


From 577c4d1d8b6d42d71c699433590bbe196785c775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:28 +0000
Subject: [PATCH 17/59] fix: delete, sync and batch requests were accepted
 after close, close stopped at the first error and kept the lock

---
 batch.go       |  8 ++++++++
 db.go          |  7 +++++++
 db_internal.go | 21 ++++++++++-----------
 file.go        |  7 ++++---
 4 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/batch.go b/batch.go
index d592255..9cc8f0a 100644
--- a/batch.go
+++ b/batch.go
@@ -69,6 +69,10 @@ func (b *Batch) Put(topic, payload []byte) error {
 // It is safe to modify the contents of the argument after Put returns but not
 // before.
 func (b *Batch) PutEntry(e *Entry) error {
+	if err := b.db.ok(); err != nil {
+		return err
+	}
+
 	switch {
 	case len(e.Topic) == 0:
 		return errTopicEmpty
@@ -113,6 +117,10 @@ func (b *Batch) Delete(id, topic []byte) error {
 // It is safe to modify the contents of the argument after Delete returns but
 // not before.
 func (b *Batch) DeleteEntry(e *Entry) error {
+	if err := b.db.ok(); err != nil {
+		return err
+	}
+
 	switch {
 	case b.db.opts.flags.immutable:
 		return errImmutable
diff --git a/db.go b/db.go
index 9c9239e..84524d4 100644
--- a/db.go
+++ b/db.go
@@ -415,6 +415,10 @@ func (db *DB) Delete(id, topic []byte) error {
 // It is safe to modify the contents of the argument after Delete returns but
 // not before.
 func (db *DB) DeleteEntry(e *Entry) error {
+	if err := db.ok(); err != nil {
+		return err
+	}
+
 	switch {
 	case db.opts.flags.immutable:
 		return errImmutable
@@ -470,6 +474,9 @@ func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
 // In case of any error during sync operation recovery is performed on log file (write ahead log).
 func (db *DB) Sync() error {
 	// start := time.Now()
+	if err := db.ok(); err != nil {
+		return err
+	}
 	if ok := db.internal.syncHandle.status(); ok {
 		// sync is in-progress.
 		return nil
diff --git a/db_internal.go b/db_internal.go
index 8754756..4b01950 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -134,24 +134,23 @@ func (db *DB) close() error {
 	// Wait for all goroutines to exit.
 	db.internal.closeW.Wait()
 
-	// close memdb.
-	db.internal.mem.Close()
+	// close memdb. All the steps are performed and first error is reported.
+	err := db.internal.mem.Close()
 
-	if err := db.writeInfo(); err != nil {
-		return err
+	if err1 := db.writeInfo(); err1 != nil && err == nil {
+		err = err1
 	}
 	db.internal.freeList.defrag()
-	if err := db.internal.freeList.write(); err != nil {
-		return err
+	if err1 := db.internal.freeList.write(); err1 != nil && err == nil {
+		err = err1
 	}
-	if err := db.fs.close(); err != nil {
-		return err
+	if err1 := db.fs.close(); err1 != nil && err == nil {
+		err = err1
 	}
-	if err := db.lock.unlock(); err != nil {
-		return err
+	if err1 := db.lock.unlock(); err1 != nil && err == nil {
+		err = err1
 	}
 
-	var err error
 	if db.internal.closer != nil {
 		if err1 := db.internal.closer.Close(); err1 != nil {
 			err = err1
diff --git a/file.go b/file.go
index 7cf6b8b..a90d236 100644
--- a/file.go
+++ b/file.go
@@ -255,14 +255,15 @@ func (fs *_FileSet) size() (int64, error) {
 func (fs *_FileSet) close() error {
 	fs.mu.Lock()
 	defer fs.mu.Unlock()
+	var err error
 	for _, files := range fs.list {
 		for _, f := range files.fileMap {
-			if err := f.Close(); err != nil {
-				return err
+			if err1 := f.Close(); err1 != nil && err == nil {
+				err = err1
 			}
 		}
 	}
-	return nil
+	return err
 }
 
 func ensureDir(dirName string) error {
-- 
2.43.0


From fadf2b1d04cc497e585ba519455a2b57174a1af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:53 +0000
Subject: [PATCH 18/59] fix: a failed sync was reported as success, was not
 rolled back on disk and was not retried

---
 block_writer.go       | 65 ++++++++++++++++++++++++++----------
 db.go                 | 12 +++----
 db_internal.go        | 10 ++++++
 db_sync.go            | 62 +++++++++++++++++++++--------------
 recovery.go           |  6 ++--
 time_window_writer.go | 76 +++++++++++++++++--------------------------
 6 files changed, 132 insertions(+), 99 deletions(-)

diff --git a/block_writer.go b/block_writer.go
index 8dd0d99..a9eee47 100644
--- a/block_writer.go
+++ b/block_writer.go
@@ -31,15 +31,15 @@ type _BlockWriter struct {
 	lease  *_Lease
 	buffer *bpool.Buffer
 
-	indexLeases                     map[uint64]struct{} //map[seq]struct
-	dataLeases                      map[int64]uint32    // map[offset]size
+	undo                            map[int64][]byte // map[offset]index block before it is overwritten
+	dataLeases                      map[int64]uint32 // map[offset]size
 	indexFile, dataFile             *_File
 	offset, indexOffset, dataOffset int64
 }
 
 func newBlockWriter(fs *_FileSet, lease *_Lease, buf *bpool.Buffer) (*_BlockWriter, error) {
 	w := &_BlockWriter{blockIdx: -1, indexBlocks: make(map[int32]_IndexBlock), fs: fs, lease: lease, buffer: buf}
-	w.indexLeases = make(map[uint64]struct{})
+	w.undo = make(map[int64][]byte)
 	w.dataLeases = make(map[int64]uint32)
 
 	indexFile, err := fs.getFile(_FileDesc{fileType: typeIndex})
@@ -165,10 +165,6 @@ func (w *_BlockWriter) append(e _IndexEntry) (err error) {
 	}
 	e.msgOffset = off
 
-	if b.leased {
-		w.indexLeases[e.seq] = struct{}{}
-	}
-
 	b.entries[b.entryIdx] = e
 	b.dirty = true
 	b.entryIdx++
@@ -197,7 +193,7 @@ func (w *_BlockWriter) write() error {
 		}
 		off := blockOffset(bIdx)
 		buf := b.marshalBinary()
-		if _, err := w.indexFile.WriteAt(buf, off); err != nil {
+		if err := w.writeIndex(buf, off); err != nil {
 			return err
 		}
 		b.dirty = false
@@ -227,7 +223,7 @@ func (w *_BlockWriter) write() error {
 				return err
 			}
 			buf := b.marshalBinary()
-			if _, err := w.indexFile.WriteAt(buf, off); err != nil {
+			if err := w.writeIndex(buf, off); err != nil {
 				return err
 			}
 			b.dirty = false
@@ -240,7 +236,9 @@ func (w *_BlockWriter) write() error {
 			if err := b.validation(bIdx); err != nil {
 				return err
 			}
-			w.buffer.Write(b.marshalBinary())
+			if _, err := w.buffer.Write(b.marshalBinary()); err != nil {
+				return err
+			}
 			b.dirty = false
 			w.indexBlocks[bIdx] = b
 		}
@@ -248,7 +246,7 @@ func (w *_BlockWriter) write() error {
 		if err != nil {
 			return err
 		}
-		if _, err := w.indexFile.WriteAt(blockData, blockOff); err != nil {
+		if err := w.writeIndex(blockData, blockOff); err != nil {
 			return err
 		}
 		bufOff = w.buffer.Size()
@@ -257,6 +255,30 @@ func (w *_BlockWriter) write() error {
 	return nil
 }
 
+// writeIndex writes index blocks and keeps blocks it overwrites to restore those on rollback.
+func (w *_BlockWriter) writeIndex(data []byte, off int64) error {
+	if err := saveBlocks(w.indexFile, w.undo, off, off+int64(len(data)), w.indexOffset); err != nil {
+		return err
+	}
+	_, err := w.indexFile.WriteAt(data, off)
+	return err
+}
+
+// saveBlocks saves blocks of the file from the start to the end offset that are below the limit.
+func saveBlocks(f *_File, undo map[int64][]byte, start, end, limit int64) error {
+	for off := start; off < end && off < limit; off += int64(blockSize) {
+		if _, ok := undo[off]; ok {
+			continue
+		}
+		buf, err := f.slice(off, off+int64(blockSize))
+		if err != nil {
+			return err
+		}
+		undo[off] = buf
+	}
+	return nil
+}
+
 func blockRange(idx []int32) ([][]int32, error) {
 	if len(idx) == 0 {
 		return nil, nil
@@ -294,9 +316,9 @@ func (w *_BlockWriter) rollback() error {
 		w.lease.freeBlock(off, size)
 	}
 
-	// roll back index leases
-	for seq := range w.indexLeases {
-		if _, err := w.del(seq); err != nil {
+	// roll back index blocks
+	for off, buf := range w.undo {
+		if _, err := w.indexFile.WriteAt(buf, off); err != nil {
 			return err
 		}
 	}
@@ -310,13 +332,22 @@ func (w *_BlockWriter) reset() error {
 	w.blockIdx = int32(w.indexOffset / int64(blockSize))
 
 	w.dataOffset = w.dataFile.currSize()
+	w.offset = w.dataOffset
+
+	w.undo = make(map[int64][]byte)
+	w.dataLeases = make(map[int64]uint32)
 
 	return nil
 }
 
 func (w *_BlockWriter) abort() error {
-	w.indexFile.truncate(w.indexOffset)
-	w.dataFile.truncate(w.dataOffset)
+	err := w.rollback()
+	if err1 := w.indexFile.truncate(w.indexOffset); err1 != nil && err == nil {
+		err = err1
+	}
+	if err1 := w.dataFile.truncate(w.dataOffset); err1 != nil && err == nil {
+		err = err1
+	}
 
-	return w.rollback()
+	return err
 }
diff --git a/db.go b/db.go
index 84524d4..8e69c8a 100644
--- a/db.go
+++ b/db.go
@@ -477,19 +477,17 @@ func (db *DB) Sync() error {
 	if err := db.ok(); err != nil {
 		return err
 	}
-	if ok := db.internal.syncHandle.status(); ok {
-		// sync is in-progress.
-		return nil
-	}
 
 	// Sync happens synchronously.
-	db.internal.syncLockC <- struct{}{}
+	if err := db.syncLock(); err != nil {
+		return err
+	}
 	defer func() {
 		<-db.internal.syncLockC
 	}()
 
-	if ok := db.internal.syncHandle.startSync(); !ok {
-		return nil
+	if err := db.internal.syncHandle.startSync(); err != nil {
+		return err
 	}
 	defer func() {
 		db.internal.syncHandle.finish()
diff --git a/db_internal.go b/db_internal.go
index 4b01950..7ed105f 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -163,6 +163,16 @@ func (db *DB) close() error {
 	return err
 }
 
+// syncLock acquires sync lock, it does not wait if DB is closing.
+func (db *DB) syncLock() error {
+	select {
+	case db.internal.syncLockC <- struct{}{}:
+		return nil
+	case <-db.internal.closeC:
+		return errClosed
+	}
+}
+
 // loadTopicHash loads topic and offset from window blocks on stored on disk.
 func (db *DB) loadTrie() error {
 	r := newWindowReader(db.fs)
diff --git a/db_sync.go b/db_sync.go
index dd2ef2a..1aecafb 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -44,15 +44,12 @@ type (
 
 		rawWindow *bpool.Buffer
 		rawBlock  *bpool.Buffer
-	}
-)
 
-func (db *_SyncHandle) startSync() bool {
-	if db.syncInfo.lastSyncSeq == db.seq() {
-		db.syncInfo.syncStatusOk = false
-		return db.syncInfo.syncStatusOk
+		topicOffsets map[uint64]int64 // map[topicHash]offset before the sync
 	}
+)
 
+func (db *_SyncHandle) startSync() error {
 	db.rawWindow = db.internal.bufPool.Get()
 	db.rawBlock = db.internal.bufPool.Get()
 
@@ -60,16 +57,17 @@ func (db *_SyncHandle) startSync() bool {
 	db.windowWriter, err = newWindowWriter(db.fs, db.rawWindow)
 	if err != nil {
 		logger.Error().Err(err).Str("context", "startSync").Msg("Error syncing to db")
-		return false
+		return err
 	}
 	db.blockWriter, err = newBlockWriter(db.fs, db.internal.freeList, db.rawBlock)
 	if err != nil {
 		logger.Error().Err(err).Str("context", "startSync").Msg("Error syncing to db")
-		return false
+		return err
 	}
+	db.topicOffsets = make(map[uint64]int64)
 	db.syncInfo.syncStatusOk = true
 
-	return db.syncInfo.syncStatusOk
+	return nil
 }
 
 func (db *_SyncHandle) finish() error {
@@ -84,12 +82,19 @@ func (db *_SyncHandle) finish() error {
 	return nil
 }
 
-func (db *_SyncHandle) status() (ok bool) {
-	return db.syncInfo.syncStatusOk
+// setOffset sets topic offset and keeps offset before the sync to restore it on rollback.
+func (db *_SyncHandle) setOffset(topicHash uint64, prevOff, off int64) (ok bool) {
+	if _, ok := db.topicOffsets[topicHash]; !ok {
+		db.topicOffsets[topicHash] = prevOff
+	}
+	return db.internal.trie.setOffset(_Topic{hash: topicHash, offset: off})
 }
 
 func (db *_SyncHandle) reset() error {
-	db.syncInfo.lastSyncSeq = db.syncInfo.upperSeq
+	if db.syncInfo.syncComplete {
+		db.syncInfo.lastSyncSeq = db.syncInfo.upperSeq
+	}
+	db.topicOffsets = make(map[uint64]int64)
 	db.syncInfo.count = 0
 	db.syncInfo.inBytes = 0
 	db.syncInfo.upperSeq = 0
@@ -110,17 +115,16 @@ func (db *_SyncHandle) abort() error {
 		return nil
 	}
 	// Rollback.
-	if err := db.windowWriter.abort(); err != nil {
-		return err
+	for h, off := range db.topicOffsets {
+		db.internal.trie.setOffset(_Topic{hash: h, offset: off})
 	}
+	err := db.windowWriter.abort()
 
-	if err := db.blockWriter.abort(); err != nil {
-		return err
+	if err1 := db.blockWriter.abort(); err1 != nil && err == nil {
+		err = err1
 	}
 
-	db.decount(uint64(db.syncInfo.count))
-
-	return nil
+	return err
 }
 
 func (db *DB) startSyncer(interval time.Duration) {
@@ -137,8 +141,8 @@ func (db *DB) startSyncer(interval time.Duration) {
 				return
 			case <-syncTicker.C:
 				if err := db.Sync(); err != nil {
+					// entries are pending and next sync processes those again.
 					logger.Error().Err(err).Str("context", "startSyncer").Msg("Error syncing to db")
-					panic(err)
 				}
 			}
 		}
@@ -172,12 +176,16 @@ func (db *DB) sync() error {
 	return nil
 }
 
-func (db *_SyncHandle) sync(recovery bool) error {
+func (db *_SyncHandle) sync(recovery bool) (err error) {
 	if db.syncInfo.upperSeq == 0 {
 		return nil
 	}
 	db.syncInfo.syncComplete = false
-	defer db.abort()
+	defer func() {
+		if err1 := db.abort(); err1 != nil && err == nil {
+			err = err1
+		}
+	}()
 
 	if _, err := db.blockWriter.extend(db.syncInfo.upperSeq); err != nil {
 		logger.Error().Err(err).Str("context", "db.extendBlocks")
@@ -194,6 +202,7 @@ func (db *_SyncHandle) sync(recovery bool) error {
 
 	db.incount(uint64(db.syncInfo.count))
 	if err := db.DB.sync(); err != nil {
+		db.decount(uint64(db.syncInfo.count))
 		return err
 	}
 	if recovery {
@@ -270,7 +279,7 @@ func (db *_SyncHandle) Sync() error {
 			if err != nil {
 				return true, err
 			}
-			if ok := db.internal.trie.setOffset(_Topic{hash: h, offset: wOff}); !ok {
+			if ok := db.setOffset(h, topicOff, wOff); !ok {
 				return true, errors.New("db:Sync: timeWindow sync error: unable to set topic offset in trie")
 			}
 		}
@@ -294,12 +303,15 @@ func (db *_SyncHandle) Sync() error {
 
 		return false, nil
 	})
-	if err != nil || err1 != nil {
+	if err == nil {
+		err = err1
+	}
+	if err != nil {
 		db.syncInfo.syncComplete = false
 		db.abort()
 	}
 
-	return db.sync(false)
+	return err
 }
 
 // expireEntries run expirer to delete entries from db if ttl was set on entries and that has expired.
diff --git a/recovery.go b/recovery.go
index 3a74531..be7bb3b 100644
--- a/recovery.go
+++ b/recovery.go
@@ -35,7 +35,7 @@ func (db *_SyncHandle) recoverWindowBlocks(windowEntries map[uint64]_WindowEntri
 		if err != nil {
 			return err
 		}
-		if ok := db.internal.trie.setOffset(_Topic{hash: h, offset: wOff}); !ok {
+		if ok := db.setOffset(h, topicOff, wOff); !ok {
 			return errors.New("recovery.recoverWindowBlocks: timeWindow sync error, unable to set topic offset in trie")
 		}
 	}
@@ -54,8 +54,8 @@ func (db *_SyncHandle) startRecovery() error {
 	for _, seq := range db.internal.mem.Keys() {
 		db.raiseSeq(seq)
 	}
-	if ok := db.startSync(); !ok {
-		return nil
+	if err := db.startSync(); err != nil {
+		return err
 	}
 	defer func() {
 		db.finish()
diff --git a/time_window_writer.go b/time_window_writer.go
index d836dc0..193534f 100644
--- a/time_window_writer.go
+++ b/time_window_writer.go
@@ -26,7 +26,7 @@ import (
 type _WindowWriter struct {
 	windowIdx int32
 	winBlocks map[int32]_WinBlock // map[windowIdx]winBlock
-	winLeases map[int32][]uint64  // map[blockIdx][]seq
+	undo      map[int64][]byte    // map[offset]window block before it is overwritten
 
 	fs      *_FileSet
 	buffer  *bpool.Buffer
@@ -35,7 +35,7 @@ type _WindowWriter struct {
 }
 
 func newWindowWriter(fs *_FileSet, buf *bpool.Buffer) (*_WindowWriter, error) {
-	w := &_WindowWriter{windowIdx: -1, winBlocks: make(map[int32]_WinBlock), winLeases: make(map[int32][]uint64), fs: fs, buffer: buf}
+	w := &_WindowWriter{windowIdx: -1, winBlocks: make(map[int32]_WinBlock), undo: make(map[int64][]byte), fs: fs, buffer: buf}
 	winFile, err := fs.getFile(_FileDesc{fileType: typeTimeWindow})
 	if err != nil {
 		return nil, err
@@ -49,36 +49,6 @@ func newWindowWriter(fs *_FileSet, buf *bpool.Buffer) (*_WindowWriter, error) {
 	return w, nil
 }
 
-func (w *_WindowWriter) del(seq uint64, winIdx int32) error {
-	r := _WindowReader{winFile: w.winFile, offset: winBlockOffset(winIdx)}
-	b, err := r.readWindowBlock()
-	if err != nil {
-		return err
-	}
-	entryIdx := -1
-	for i := 0; i < int(b.entryIdx); i++ {
-		e := b.entries[i]
-		if e.sequence == seq { //record exist in db.
-			entryIdx = i
-			break
-		}
-	}
-	if entryIdx == -1 {
-		return nil // no entry in db to delete.
-	}
-	b.dirty = true
-	b.entryIdx--
-
-	i := entryIdx
-	for ; i < entriesPerIndexBlock-1; i++ {
-		b.entries[i] = b.entries[i+1]
-	}
-	b.entries[i] = _WinEntry{}
-
-	w.winBlocks[winIdx] = b
-	return nil
-}
-
 // append appends window entries to buffer.
 func (w *_WindowWriter) append(topicHash uint64, off int64, wEntries _WindowEntries) (newOff int64, err error) {
 	var b _WinBlock
@@ -98,7 +68,9 @@ func (w *_WindowWriter) append(topicHash uint64, off int64, wEntries _WindowEntr
 			if err != nil {
 				return 0, err
 			}
-			b.validation(topicHash)
+			if err := b.validation(topicHash); err != nil {
+				return 0, err
+			}
 			b.leased = true
 		}
 	}
@@ -117,9 +89,6 @@ func (w *_WindowWriter) append(topicHash uint64, off int64, wEntries _WindowEntr
 			wIdx = w.windowIdx
 			b = _WinBlock{topicHash: topicHash, next: next}
 		}
-		if b.leased {
-			w.winLeases[wIdx] = append(w.winLeases[wIdx], we.sequence)
-		}
 		b.entries[b.entryIdx] = _WinEntry{sequence: we.sequence, expiresAt: we.expiresAt}
 		b.dirty = true
 		b.entryIdx++
@@ -135,7 +104,7 @@ func (w *_WindowWriter) write() error {
 			continue
 		}
 		off := int64(blockSize * bIdx)
-		if _, err := w.winFile.WriteAt(b.marshalBinary(), off); err != nil {
+		if err := w.writeWindow(b.marshalBinary(), off); err != nil {
 			return err
 		}
 		b.dirty = false
@@ -165,7 +134,7 @@ func (w *_WindowWriter) write() error {
 			off := int64(blockSize * bIdx)
 			b := w.winBlocks[bIdx]
 			buf := b.marshalBinary()
-			if _, err := w.winFile.WriteAt(buf, off); err != nil {
+			if err := w.writeWindow(buf, off); err != nil {
 				return err
 			}
 			b.dirty = false
@@ -176,7 +145,9 @@ func (w *_WindowWriter) write() error {
 		blockOff := int64(blockSize * blocks[0])
 		for bIdx := blocks[0]; bIdx <= blocks[1]; bIdx++ {
 			b := w.winBlocks[bIdx]
-			w.buffer.Write(b.marshalBinary())
+			if _, err := w.buffer.Write(b.marshalBinary()); err != nil {
+				return err
+			}
 			b.dirty = false
 			w.winBlocks[bIdx] = b
 			// fmt.Println("timeWindow.write: topicHash, seq ", b.topicHash, b.entries[0])
@@ -185,7 +156,7 @@ func (w *_WindowWriter) write() error {
 		if err != nil {
 			return err
 		}
-		if _, err := w.winFile.WriteAt(blockData, blockOff); err != nil {
+		if err := w.writeWindow(blockData, blockOff); err != nil {
 			return err
 		}
 		bufOff = w.buffer.Size()
@@ -193,12 +164,19 @@ func (w *_WindowWriter) write() error {
 	return nil
 }
 
+// writeWindow writes window blocks and keeps blocks it overwrites to restore those on rollback.
+func (w *_WindowWriter) writeWindow(data []byte, off int64) error {
+	if err := saveBlocks(w.winFile, w.undo, off, off+int64(len(data)), w.offset); err != nil {
+		return err
+	}
+	_, err := w.winFile.WriteAt(data, off)
+	return err
+}
+
 func (w *_WindowWriter) rollback() error {
-	for bIdx, seqs := range w.winLeases {
-		for _, seq := range seqs {
-			if err := w.del(seq, bIdx); err != nil {
-				return err
-			}
+	for off, buf := range w.undo {
+		if _, err := w.winFile.WriteAt(buf, off); err != nil {
+			return err
 		}
 	}
 	return nil
@@ -207,12 +185,16 @@ func (w *_WindowWriter) rollback() error {
 func (w *_WindowWriter) reset() error {
 	w.buffer.Reset()
 	w.offset = w.winFile.currSize()
+	w.undo = make(map[int64][]byte)
 
 	return nil
 }
 
 func (w *_WindowWriter) abort() error {
-	w.winFile.truncate(w.offset)
+	err := w.rollback()
+	if err1 := w.winFile.truncate(w.offset); err1 != nil && err == nil {
+		err = err1
+	}
 
-	return w.rollback()
+	return err
 }
-- 
2.43.0


From 9481acd067269172d609cdd392650d5a8ee12ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:02 +0000
Subject: [PATCH 19/59] fix: a batch reported success when writing its entries
 or its log failed, a missing delete dropped its other entries

---
 batch.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/batch.go b/batch.go
index 9cc8f0a..10aa60e 100644
--- a/batch.go
+++ b/batch.go
@@ -178,9 +178,11 @@ func (b *Batch) writeInternal(fn func(i int, e _Entry, data []byte) error) error
 		if index.delFlag && e.seq != 0 {
 			/// Test filter block for presence.
 			if !b.db.internal.filter.Test(e.seq) {
-				return nil
+				continue
+			}
+			if err := b.db.delete(e.topicHash, e.seq); err != nil {
+				return err
 			}
-			b.db.delete(e.topicHash, e.seq)
 			continue
 		}
 
@@ -211,14 +213,15 @@ func (b *Batch) Write() error {
 	}
 	topics := make(map[uint64]*message.Topic)
 	timeID := b.mem.TimeID()
-	var seqs []uint64
-	b.writeInternal(func(i int, e _Entry, data []byte) error {
+	err := b.writeInternal(func(i int, e _Entry, data []byte) error {
 		if e.topicSize != 0 {
 			t, ok := topics[e.topicHash]
 			if !ok {
 				t = new(message.Topic)
 				rawTopic := data[entrySize+idSize : entrySize+idSize+e.topicSize]
-				t.Unmarshal(rawTopic)
+				if err := t.Unmarshal(rawTopic); err != nil {
+					return err
+				}
 				topics[e.topicHash] = t
 			}
 			b.db.internal.trie.add(newTopic(e.topicHash, 0), t.Parts, t.Depth)
@@ -229,11 +232,15 @@ func (b *Batch) Write() error {
 		if ok := b.db.internal.timeWindow.add(timeID, e.topicHash, newWinEntry(e.seq, e.expiresAt)); !ok {
 			return errForbidden
 		}
-		seqs = append(seqs, e.seq)
 		return nil
 	})
+	if err != nil {
+		return err
+	}
 
-	b.mem.Write()
+	if err := b.mem.Write(); err != nil {
+		return err
+	}
 	b.reset()
 
 	return nil
-- 
2.43.0


From a7fd81419137dafb27b876410fd3d8e9976c48b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:20 +0000
Subject: [PATCH 20/59] fix: deletes were not written to the index, freed
 blocks twice or of entries never stored, and raced with sync

---
 block.go        |  5 +++++
 block_reader.go | 43 +++++++++++++++++++++++++++----------------
 block_writer.go | 14 ++++++++------
 db.go           |  2 +-
 db_internal.go  | 38 +++++++++++++++++++++++++++++++-------
 db_sync.go      |  9 ++++-----
 memdb/errors.go |  5 +++++
 7 files changed, 81 insertions(+), 35 deletions(-)

diff --git a/block.go b/block.go
index 4946422..0487d45 100644
--- a/block.go
+++ b/block.go
@@ -55,6 +55,11 @@ func blockOffset(idx int32) int64 {
 	return int64(blockSize * idx)
 }
 
+// isDeleted returns true if entry is deleted, complement of the message offset is kept in deleted entry.
+func (e _IndexEntry) isDeleted() bool {
+	return e.msgOffset < 0
+}
+
 func (e _IndexEntry) mSize() uint32 {
 	return idSize + uint32(e.topicSize) + e.valueSize
 }
diff --git a/block_reader.go b/block_reader.go
index aa9085c..545587d 100644
--- a/block_reader.go
+++ b/block_reader.go
@@ -54,28 +54,35 @@ func (r *_BlockReader) readIndexBlock() (_IndexBlock, error) {
 }
 
 func (r *_BlockReader) readEntry(seq uint64) (_IndexEntry, error) {
-	bIdx := blockIndex(seq)
-	r.offset = blockOffset(bIdx)
-	b, err := r.readIndexBlock()
+	e, err := r.readIndexEntry(seq)
 	if err != nil {
 		return _IndexEntry{}, err
 	}
-	entryIdx := -1
-	for i := 0; i < entriesPerIndexBlock; i++ {
-		e := b.entries[i]
-		if e.seq == seq { //topic exist in db
-			if e.msgOffset == -1 {
-				return _IndexEntry{}, errMsgIDDeleted
-			}
-			entryIdx = i
-			break
-		}
+	if e.isDeleted() {
+		return _IndexEntry{}, errMsgIDDeleted
 	}
-	if entryIdx == -1 {
+
+	return e, nil
+}
+
+// readIndexEntry reads entry from the index file even if it is deleted.
+func (r *_BlockReader) readIndexEntry(seq uint64) (_IndexEntry, error) {
+	// reader is shared and its block is not safe for concurrent use.
+	br := _BlockReader{indexFile: r.indexFile, offset: blockOffset(blockIndex(seq))}
+	if br.offset+int64(blockSize) > r.indexFile.Size() {
 		return _IndexEntry{}, errEntryInvalid
 	}
+	b, err := br.readIndexBlock()
+	if err != nil {
+		return _IndexEntry{}, err
+	}
+	for i := 0; i < entriesPerIndexBlock; i++ {
+		if b.entries[i].seq == seq { //topic exist in db
+			return b.entries[i], nil
+		}
+	}
 
-	return b.entries[entryIdx], nil
+	return _IndexEntry{}, errEntryInvalid
 }
 
 func (r *_BlockReader) readMessage(e _IndexEntry) ([]byte, []byte, error) {
@@ -93,5 +100,9 @@ func (r *_BlockReader) readTopic(e _IndexEntry) ([]byte, error) {
 	if e.cache != nil {
 		return e.cache[idSize : e.topicSize+idSize], nil
 	}
-	return r.dataFile.slice(e.msgOffset+int64(idSize), e.msgOffset+int64(e.topicSize)+int64(idSize))
+	off := e.msgOffset
+	if e.isDeleted() {
+		off = ^off // data of the deleted topic entry is kept.
+	}
+	return r.dataFile.slice(off+int64(idSize), off+int64(e.topicSize)+int64(idSize))
 }
diff --git a/block_writer.go b/block_writer.go
index a9eee47..6319b11 100644
--- a/block_writer.go
+++ b/block_writer.go
@@ -79,10 +79,12 @@ func (w *_BlockWriter) extend(upperSeq uint64) (int64, error) {
 	return w.indexFile.extend(uint32(off - w.indexFile.currSize()))
 }
 
+// del marks entry as deleted in the index file, and it returns the entry as it was before it is deleted.
+// It returns zero entry if there is no entry in db to delete.
 func (w *_BlockWriter) del(seq uint64) (_IndexEntry, error) {
 	var delEntry _IndexEntry
 	bIdx := blockIndex(seq)
-	if bIdx > w.blockIdx {
+	if blockOffset(bIdx)+int64(blockSize) > w.indexFile.currSize() {
 		return delEntry, nil // no entry in db to delete
 	}
 	r := _BlockReader{indexFile: w.indexFile, offset: blockOffset(bIdx)}
@@ -98,14 +100,14 @@ func (w *_BlockWriter) del(seq uint64) (_IndexEntry, error) {
 			break
 		}
 	}
-	if entryIdx == -1 {
+	if entryIdx == -1 || b.entries[entryIdx].isDeleted() {
 		return delEntry, nil // no entry in db to delete
 	}
 	delEntry = b.entries[entryIdx]
-	delEntry.msgOffset = -1
-	b.entries[entryIdx] = delEntry
-	b.dirty = true
-	w.indexBlocks[bIdx] = b
+	b.entries[entryIdx].msgOffset = ^delEntry.msgOffset
+	if _, err := w.indexFile.WriteAt(b.marshalBinary(), blockOffset(bIdx)); err != nil {
+		return _IndexEntry{}, err
+	}
 
 	return delEntry, nil
 }
diff --git a/db.go b/db.go
index 8e69c8a..677349d 100644
--- a/db.go
+++ b/db.go
@@ -278,7 +278,7 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 				}
 				s, err := db.readEntry(query)
 				if err != nil {
-					if err == errMsgIDDeleted {
+					if err == errMsgIDDeleted || err == errEntryInvalid {
 						invalidCount++
 						return nil
 					}
diff --git a/db_internal.go b/db_internal.go
index 7ed105f..0cf53be 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -177,7 +177,7 @@ func (db *DB) syncLock() error {
 func (db *DB) loadTrie() error {
 	r := newWindowReader(db.fs)
 	err := r.blockIterator(func(startSeq, topicHash uint64, off int64) (bool, error) {
-		e, err := db.internal.reader.readEntry(startSeq)
+		e, err := db.internal.reader.readIndexEntry(startSeq)
 		if err != nil {
 			return true, err
 		}
@@ -324,17 +324,38 @@ func (db *DB) setEntry(e *Entry) error {
 // delete deletes the given key from the DB.
 func (db *DB) delete(topicHash, seq uint64) error {
 	if db.opts.flags.immutable {
-		return nil
+		return errImmutable
 	}
 
+	// entries are not deleted from the DB while those are synced.
+	if err := db.syncLock(); err != nil {
+		return err
+	}
+	defer func() {
+		<-db.internal.syncLockC
+	}()
+
 	db.internal.meter.Dels.Inc(1)
-	db.internal.mem.Delete(seq)
+	if err := db.internal.mem.Delete(seq); err != nil && !memdb.IsNotExist(err) {
+		return err
+	}
 
 	// Test filter block for the message id presence.
 	if !db.internal.filter.Test(seq) {
 		return nil
 	}
 
+	if err := db.deleteEntry(seq); err != nil {
+		return err
+	}
+	if db.internal.syncWrites {
+		return db.sync()
+	}
+	return nil
+}
+
+// deleteEntry deletes entry from the index file and frees its data, caller must hold the sync lock.
+func (db *DB) deleteEntry(seq uint64) error {
 	w, err := newBlockWriter(db.fs, db.internal.freeList, nil)
 	if err != nil {
 		return err
@@ -343,11 +364,14 @@ func (db *DB) delete(topicHash, seq uint64) error {
 	if err != nil {
 		return err
 	}
-	db.internal.freeList.freeBlock(e.msgOffset, e.mSize())
-	db.decount(1)
-	if db.internal.syncWrites {
-		return db.sync()
+	if e.seq == 0 {
+		return nil // entry does not exist in db or it is already deleted.
 	}
+	// topic is loaded from data of the entry when DB is opened, and the data is kept.
+	if e.topicSize == 0 {
+		db.internal.freeList.freeBlock(e.msgOffset, e.mSize())
+	}
+	db.decount(1)
 	return nil
 }
 
diff --git a/db_sync.go b/db_sync.go
index 1aecafb..2f64cc8 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -317,7 +317,9 @@ func (db *_SyncHandle) Sync() error {
 // expireEntries run expirer to delete entries from db if ttl was set on entries and that has expired.
 func (db *DB) expireEntries() error {
 	// sync happens synchronously.
-	db.internal.syncLockC <- struct{}{}
+	if err := db.syncLock(); err != nil {
+		return err
+	}
 	defer func() {
 		<-db.internal.syncLockC
 	}()
@@ -328,12 +330,9 @@ func (db *DB) expireEntries() error {
 		if !db.internal.filter.Test(we.seq()) {
 			continue
 		}
-		e, err := db.internal.reader.readEntry(we.seq())
-		if err != nil {
+		if err := db.deleteEntry(we.seq()); err != nil {
 			return err
 		}
-		db.internal.freeList.free(e.seq, e.msgOffset, e.mSize())
-		db.decount(1)
 	}
 
 	return nil
diff --git a/memdb/errors.go b/memdb/errors.go
index 589b359..a2ba18d 100644
--- a/memdb/errors.go
+++ b/memdb/errors.go
@@ -12,3 +12,8 @@ var (
 	errBadRequest        = errors.New("The request was invalid or cannot be otherwise served")
 	errForbidden         = errors.New("The request is understood, but it has been refused or access is not allowed")
 )
+
+// IsNotExist returns true if the error reports that the entry does not exist in the DB.
+func IsNotExist(err error) bool {
+	return err == errEntryDoesNotExist
+}
-- 
2.43.0


From 629a76be8f833c28d30bf64e974bd4aecaf94bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:19 +0000
Subject: [PATCH 21/59] fix: topics added concurrently under a common part
 could replace each other in the trie

---
 trie.go | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/trie.go b/trie.go
index fe63f31..7e4d3b9 100644
--- a/trie.go
+++ b/trie.go
@@ -93,15 +93,12 @@ func newTopicTrie() *_TopicTrie {
 // _Trie trie data structure to store topic parts
 type _Trie struct {
 	sync.RWMutex
-	mutex     _Mutex
 	topicTrie *_TopicTrie
 }
 
 // newTrie new trie creates a Trie with an initialized Trie.
-// Mutex is used to lock concurent read/write on a contract, and it does not lock entire trie.
 func newTrie() *_Trie {
 	return &_Trie{
-		mutex:     newMutex(),
 		topicTrie: newTopicTrie(),
 	}
 }
@@ -115,10 +112,8 @@ func (t *_Trie) Count() int {
 
 // add adds a topic to trie.
 func (t *_Trie) add(topic _Topic, parts []message.Part, depth uint8) (added bool) {
-	// Get mutex
-	mu := t.mutex.getMutex(topic.hash)
-	mu.Lock()
-	defer mu.Unlock()
+	t.Lock()
+	defer t.Unlock()
 	if _, ok := t.topicTrie.summary[topic.hash]; ok {
 		return false
 	}
@@ -128,27 +123,21 @@ func (t *_Trie) add(topic _Topic, parts []message.Part, depth uint8) (added bool
 			hash:      p.Hash,
 			wildchars: p.Wildchars,
 		}
-		t.RLock()
 		child, ok := curr.children[newPart]
-		t.RUnlock()
 		if !ok {
 			child = &_Node{
 				part:     newPart,
 				parent:   curr,
 				children: make(map[_Part]*_Node),
 			}
-			t.Lock()
 			curr.children[newPart] = child
-			t.Unlock()
 		}
 		curr = child
 	}
-	t.Lock()
 	curr.topics.addUnique(topic)
 	t.topicTrie.summary[topic.hash] = curr
-	t.Unlock()
-	added = true
 	curr.depth = depth
+	added = true
 	return
 }
 
-- 
2.43.0


From 9a8efa38f78a3c3b1e1e14ea1787eef09b9eaed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:19 +0000
Subject: [PATCH 22/59] fix: query limit was not bounded by the maximum without
 last option, a negative limit panicked

---
 query.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/query.go b/query.go
index c6b2d96..efea889 100644
--- a/query.go
+++ b/query.go
@@ -116,8 +116,11 @@ func (q *Query) parse() error {
 			q.Limit = limit
 		}
 	}
-	if q.Limit == 0 {
+	if q.Limit <= 0 {
 		q.Limit = q.internal.opts.defaultQueryLimit
 	}
+	if q.Limit > q.internal.opts.maxQueryLimit {
+		q.Limit = q.internal.opts.maxQueryLimit
+	}
 	return nil
 }
-- 
2.43.0


From 7c896c3503d2528bb1cbfc3a0639a8bcc42e28c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:19 +0000
Subject: [PATCH 23/59] fix: topics lost their window blocks after the first
 sync or on reopen, lookups repeated entries and dropped the newest

---
 block.go              |  2 +-
 block_writer.go       |  2 +-
 db.go                 |  3 ++
 db_internal.go        | 54 +++++++++++++++++---------
 time_window.go        | 89 ++++++++++++++-----------------------------
 time_window_reader.go |  6 +--
 time_window_writer.go | 15 ++++----
 7 files changed, 80 insertions(+), 91 deletions(-)

diff --git a/block.go b/block.go
index 0487d45..78f93ab 100644
--- a/block.go
+++ b/block.go
@@ -52,7 +52,7 @@ func blockOffset(idx int32) int64 {
 	if idx == -1 {
 		return int64(0)
 	}
-	return int64(blockSize * idx)
+	return int64(blockSize) * int64(idx)
 }
 
 // isDeleted returns true if entry is deleted, complement of the message offset is kept in deleted entry.
diff --git a/block_writer.go b/block_writer.go
index 6319b11..6367bf6 100644
--- a/block_writer.go
+++ b/block_writer.go
@@ -51,7 +51,7 @@ func newBlockWriter(fs *_FileSet, lease *_Lease, buf *bpool.Buffer) (*_BlockWrit
 	if w.indexOffset > 0 {
 		w.blockIdx = int32(w.indexOffset / int64(blockSize))
 		// read final block from index file.
-		if w.indexOffset > int64(w.blockIdx*blockSize) {
+		if w.indexOffset > blockOffset(w.blockIdx) {
 			r := _BlockReader{indexFile: w.indexFile, offset: blockOffset(w.blockIdx)}
 			b, err := r.readIndexBlock()
 			if err != nil {
diff --git a/db.go b/db.go
index 677349d..0234a35 100644
--- a/db.go
+++ b/db.go
@@ -329,6 +329,9 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 		} else {
 			start = limit
 			limit = limit + invalidCount
+			if limit > len(q.internal.winEntries) {
+				limit = len(q.internal.winEntries)
+			}
 		}
 	}
 	db.internal.meter.Gets.Inc(int64(len(items)))
diff --git a/db_internal.go b/db_internal.go
index 0cf53be..6d96fbb 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -176,22 +176,17 @@ func (db *DB) syncLock() error {
 // loadTopicHash loads topic and offset from window blocks on stored on disk.
 func (db *DB) loadTrie() error {
 	r := newWindowReader(db.fs)
-	err := r.blockIterator(func(startSeq, topicHash uint64, off int64) (bool, error) {
-		e, err := db.internal.reader.readIndexEntry(startSeq)
-		if err != nil {
-			return true, err
-		}
-		if e.topicSize == 0 {
+	err := r.blockIterator(func(entries _WindowEntries, topicHash uint64, off int64) (bool, error) {
+		// blocks of the topic are iterated in the order those are written, and trie keeps offset of the recent block.
+		if ok := db.internal.trie.setOffset(newTopic(topicHash, off)); ok {
 			return false, nil
 		}
-		rawtopic, err := db.internal.reader.readTopic(e)
+		t, err := db.loadTopic(entries)
 		if err != nil {
 			return true, err
 		}
-		t := new(message.Topic)
-		err = t.Unmarshal(rawtopic)
-		if err != nil {
-			return true, err
+		if t == nil {
+			return false, nil
 		}
 		if ok := db.internal.trie.add(newTopic(topicHash, off), t.Parts, t.Depth); !ok {
 			logger.Info().Str("context", "db.loadTrie: topic exist in the trie")
@@ -202,6 +197,32 @@ func (db *DB) loadTrie() error {
 	return err
 }
 
+// loadTopic loads topic from the first of the entries that has topic packed into it.
+func (db *DB) loadTopic(entries _WindowEntries) (*message.Topic, error) {
+	for _, we := range entries {
+		e, err := db.internal.reader.readIndexEntry(we.seq())
+		if err == errEntryInvalid {
+			continue // entry is not yet synced and it is recovered from the log.
+		}
+		if err != nil {
+			return nil, err
+		}
+		if e.topicSize == 0 {
+			continue
+		}
+		rawtopic, err := db.internal.reader.readTopic(e)
+		if err != nil {
+			return nil, err
+		}
+		t := new(message.Topic)
+		if err := t.Unmarshal(rawtopic); err != nil {
+			return nil, err
+		}
+		return t, nil
+	}
+	return nil, nil
+}
+
 func (db *DB) readEntry(q _Query) (_IndexEntry, error) {
 	data, _ := db.internal.mem.Get(q.seq)
 	if data != nil {
@@ -228,12 +249,9 @@ func (db *DB) lookup(q *Query) error {
 	sort.Slice(topics[:], func(i, j int) bool {
 		return topics[i].offset > topics[j].offset
 	})
+	// newest entries of the query are selected from entries of all of its topics.
 	for _, topic := range topics {
-		if len(q.internal.winEntries) > q.Limit {
-			break
-		}
-		limit := q.Limit - len(q.internal.winEntries)
-		wEntries := db.internal.timeWindow.lookup(db.fs, topic.hash, topic.offset, q.internal.cutoff, limit)
+		wEntries := db.internal.timeWindow.lookup(db.fs, topic.hash, topic.offset, q.internal.cutoff, q.Limit)
 		for _, we := range wEntries {
 			q.internal.winEntries = append(q.internal.winEntries, _Query{topicHash: topic.hash, seq: we.seq()})
 		}
@@ -277,8 +295,8 @@ func (db *DB) setEntry(e *Entry) error {
 		}
 		t.AddContract(e.Contract)
 		e.entry.topicHash = t.GetHash(e.Contract)
-		// topic is packed if it is new topic entry
-		if _, ok := db.internal.trie.getOffset(e.entry.topicHash); !ok {
+		// topic is packed if it is new topic entry or no entry of the topic is synced to the DB.
+		if off, ok := db.internal.trie.getOffset(e.entry.topicHash); !ok || off == 0 {
 			rawTopic = t.Marshal()
 			e.entry.topicSize = uint16(len(rawTopic))
 		}
diff --git a/time_window.go b/time_window.go
index a7eeb4c..aa5b0ee 100644
--- a/time_window.go
+++ b/time_window.go
@@ -19,6 +19,7 @@ package unitdb
 import (
 	"encoding/binary"
 	"fmt"
+	"sort"
 	"sync"
 	"time"
 
@@ -101,7 +102,7 @@ func (b *_WinBlock) unmarshalBinary(data []byte) error {
 }
 
 func winBlockOffset(idx int32) int64 {
-	return int64(blockSize * idx)
+	return int64(blockSize) * int64(idx)
 }
 
 type (
@@ -216,6 +217,22 @@ func (tw *_TimeWindowBucket) release() func(timeID int64) error {
 	}
 }
 
+// addLive appends entries that are not expired to the window entries from newest to oldest entry.
+func (tw *_TimeWindowBucket) addLive(winEntries, entries _WindowEntries) _WindowEntries {
+	for i := len(entries) - 1; i >= 0; i-- {
+		we := entries[i]
+		if we.isExpired() {
+			if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
+				logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
+			}
+			// if id is expired it does not return an error but continue the iteration.
+			continue
+		}
+		winEntries = append(winEntries, we)
+	}
+	return winEntries
+}
+
 // ilookup lookups window entries from timeWindowBucket and not yet sync to DB.
 func (tw *_TimeWindowBucket) ilookup(topicHash uint64, limit int) (winEntries _WindowEntries) {
 	winEntries = make([]_WinEntry, 0)
@@ -223,32 +240,19 @@ func (tw *_TimeWindowBucket) ilookup(topicHash uint64, limit int) (winEntries _W
 	b := tw.windowBlocks.getWindowBlock(topicHash)
 	b.mu.RLock()
 	defer b.mu.RUnlock()
-	var l int
-	var expiryCount int
 
 	for key := range b.entries {
 		if key.topicHash != topicHash {
 			continue
 		}
-		wEntries := b.entries[key]
-		if len(wEntries) > 0 {
-			l = limit + expiryCount - l
-			if len(wEntries) < l {
-				l = len(wEntries)
-			}
-			for i := len(wEntries) - 1; i >= len(wEntries)-l; i-- {
-				we := wEntries[i]
-				if we.isExpired() {
-					if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
-						expiryCount++
-						logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
-					}
-					// if id is expired it does not return an error but continue the iteration.
-					continue
-				}
-				winEntries = append(winEntries, we)
-			}
-		}
+		winEntries = tw.addLive(winEntries, b.entries[key])
+	}
+	// entries of the topic are spread across time blocks.
+	sort.Slice(winEntries[:], func(i, j int) bool {
+		return winEntries[i].seq() > winEntries[j].seq()
+	})
+	if len(winEntries) > limit {
+		winEntries = winEntries[:limit]
 	}
 	return winEntries
 }
@@ -280,47 +284,12 @@ func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, off, cutoff
 			blockOff = b.next
 		}
 	}
-	expiryCount := 0
-	err = next(off, func(curb _WinBlock) (bool, error) {
-		b := &curb
+	err = next(off, func(b _WinBlock) (bool, error) {
 		if b.topicHash != topicHash {
 			return true, nil
 		}
-		if len(winEntries) > limit-int(b.entryIdx) {
-			limit = limit - len(winEntries)
-			for i := len(b.entries[:b.entryIdx]) - 1; i >= len(b.entries[:b.entryIdx])-limit; i-- {
-				we := b.entries[i]
-				if we.isExpired() {
-					if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
-						expiryCount++
-						logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
-					}
-					// if id is expired it does not return an error but continue the iteration.
-					continue
-				}
-				winEntries = append(winEntries, we)
-			}
-			if len(winEntries) >= limit {
-				return true, nil
-			}
-		}
-		for i := len(b.entries[:b.entryIdx]) - 1; i >= 0; i-- {
-			we := b.entries[i]
-			if we.isExpired() {
-				if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
-					expiryCount++
-					logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
-				}
-				// if id is expired it does not return an error but continue the iteration.
-				continue
-			}
-			winEntries = append(winEntries, we)
-
-		}
-		if b.cutoff(cutoff) {
-			return true, nil
-		}
-		return false, nil
+		winEntries = tw.addLive(winEntries, b.entries[:b.entryIdx])
+		return len(winEntries) >= limit || b.cutoff(cutoff), nil
 	})
 	if err != nil {
 		return winEntries
diff --git a/time_window_reader.go b/time_window_reader.go
index cfe3ca2..e2fffc4 100644
--- a/time_window_reader.go
+++ b/time_window_reader.go
@@ -55,7 +55,7 @@ func (r *_WindowReader) readWindowBlock() (_WinBlock, error) {
 }
 
 // blockIterator iterates all window blocks from disk.
-func (r *_WindowReader) blockIterator(f func(startSeq, topicHash uint64, off int64) (bool, error)) (err error) {
+func (r *_WindowReader) blockIterator(f func(entries _WindowEntries, topicHash uint64, off int64) (bool, error)) (err error) {
 	windowIdx := int32(0)
 	nBlocks := r.windowIdx
 	for windowIdx <= nBlocks {
@@ -68,11 +68,11 @@ func (r *_WindowReader) blockIterator(f func(startSeq, topicHash uint64, off int
 			return err
 		}
 		windowIdx++
-		if b.entryIdx == 0 || b.next != 0 {
+		if b.entryIdx == 0 {
 			continue
 		}
 		// fmt.Println("timeWindow.blockIterator: topicHash, seq ", b.topicHash, b.entries[0].sequence)
-		if stop, err := f(b.entries[0].sequence, b.topicHash, r.offset); stop || err != nil {
+		if stop, err := f(b.entries[:b.entryIdx], b.topicHash, r.offset); stop || err != nil {
 			return err
 		}
 	}
diff --git a/time_window_writer.go b/time_window_writer.go
index 193534f..6950263 100644
--- a/time_window_writer.go
+++ b/time_window_writer.go
@@ -42,9 +42,8 @@ func newWindowWriter(fs *_FileSet, buf *bpool.Buffer) (*_WindowWriter, error) {
 	}
 	w.winFile = winFile
 	w.offset = winFile.currSize()
-	if w.offset > 0 {
-		w.windowIdx = int32(w.offset / int64(blockSize))
-	}
+	// first block is not used as zero offset is offset of topic that has no window block.
+	w.windowIdx = int32(w.offset / int64(blockSize))
 
 	return w, nil
 }
@@ -81,7 +80,7 @@ func (w *_WindowWriter) append(topicHash uint64, off int64, wEntries _WindowEntr
 		}
 		if b.entryIdx == entriesPerWindowBlock {
 			topicHash := b.topicHash
-			next := int64(blockSize * wIdx)
+			next := winBlockOffset(wIdx)
 			// set approximate cutoff on winBlock.
 			b.cutoffTime = time.Now().Unix()
 			w.winBlocks[wIdx] = b
@@ -95,7 +94,7 @@ func (w *_WindowWriter) append(topicHash uint64, off int64, wEntries _WindowEntr
 	}
 	w.winBlocks[wIdx] = b
 
-	return int64(blockSize * wIdx), nil
+	return winBlockOffset(wIdx), nil
 }
 
 func (w *_WindowWriter) write() error {
@@ -103,7 +102,7 @@ func (w *_WindowWriter) write() error {
 		if !b.leased || !b.dirty {
 			continue
 		}
-		off := int64(blockSize * bIdx)
+		off := winBlockOffset(bIdx)
 		if err := w.writeWindow(b.marshalBinary(), off); err != nil {
 			return err
 		}
@@ -131,7 +130,7 @@ func (w *_WindowWriter) write() error {
 	for _, blocks := range winBlocks {
 		if len(blocks) == 1 {
 			bIdx := blocks[0]
-			off := int64(blockSize * bIdx)
+			off := winBlockOffset(bIdx)
 			b := w.winBlocks[bIdx]
 			buf := b.marshalBinary()
 			if err := w.writeWindow(buf, off); err != nil {
@@ -142,7 +141,7 @@ func (w *_WindowWriter) write() error {
 			// fmt.Println("timeWindow.write: topicHash, seq ", b.topicHash, b.entries[0])
 			continue
 		}
-		blockOff := int64(blockSize * blocks[0])
+		blockOff := winBlockOffset(blocks[0])
 		for bIdx := blocks[0]; bIdx <= blocks[1]; bIdx++ {
 			b := w.winBlocks[bIdx]
 			if _, err := w.buffer.Write(b.marshalBinary()); err != nil {
-- 
2.43.0


From 868556bd071ca9a3f4493ef8c9eb0b6bbc27361a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:43 +0000
Subject: [PATCH 24/59] fix: merging free blocks duplicated those, remainders
 could be freed twice and a stale free list survived a crash

---
 leasing.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/leasing.go b/leasing.go
index 6a429d8..839ea67 100644
--- a/leasing.go
+++ b/leasing.go
@@ -21,6 +21,7 @@ import (
 	"io"
 	"sort"
 	"sync"
+	"sync/atomic"
 
 	"github.com/unit-io/unitdb/hash"
 )
@@ -94,7 +95,7 @@ func (b *_FreeBlocks) UnmarshalBinary(data []byte, size uint32) error {
 		// _ = data[12] // bounds check hint to compiler; see golang.org/issue/14808.
 		blockOff := int64(binary.LittleEndian.Uint64(data[:8]))
 		blockSize := binary.LittleEndian.Uint32(data[8:12])
-		if blockOff != 0 {
+		if blockSize != 0 {
 			b.fb = append(b.fb, _FreeBlock{size: blockSize, offset: blockOff})
 		}
 		data = data[12:]
@@ -147,13 +148,15 @@ func (b *_FreeBlocks) defrag() {
 	sort.Slice(merged, func(i, j int) bool {
 		return merged[i].size < merged[j].size
 	})
-	copy(b.fb[:l], merged)
+	b.fb = merged
 }
 
 func (l *_Lease) defrag() {
 	for i := 0; i < nShards; i++ {
 		fbs := l.blocks[i]
+		fbs.Lock()
 		fbs.defrag()
+		fbs.Unlock()
 	}
 }
 
@@ -167,7 +170,7 @@ func (l *_Lease) freeBlock(off int64, size uint32) {
 	}
 	fbs.fb = append(fbs.fb, _FreeBlock{offset: off, size: size})
 	fbs.cache[off] = true
-	l.size += int64(size)
+	atomic.AddInt64(&l.size, int64(size))
 }
 
 func (l *_Lease) free(seq uint64, off int64, size uint32) {
@@ -181,7 +184,7 @@ func (l *_Lease) allocate(size uint32) int64 {
 	if size == 0 {
 		panic("unable to allocate zero bytes")
 	}
-	if l.size < l.minimumFreeBlocksSize {
+	if atomic.LoadInt64(&l.size) < l.minimumFreeBlocksSize {
 		return -1
 	}
 	fbs := l.freeBlocks(uint64(size))
@@ -199,9 +202,10 @@ func (l *_Lease) allocate(size uint32) int64 {
 	} else {
 		fbs.fb[i].size -= size
 		fbs.fb[i].offset += int64(size)
+		fbs.cache[fbs.fb[i].offset] = true
 	}
 	delete(fbs.cache, off)
-	l.size -= int64(size)
+	atomic.AddInt64(&l.size, -int64(size))
 	return off
 }
 
@@ -227,7 +231,11 @@ func (l *_Lease) read() error {
 		l.freeBlock(b.offset, b.size)
 	}
 
-	return nil
+	// free blocks are written when DB is closed, blocks allocated before a crash must not be read as free.
+	if err := l.file.Truncate(0); err != nil {
+		return err
+	}
+	return l.file.Sync()
 }
 
 func (l *_Lease) write() error {
@@ -241,10 +249,9 @@ func (l *_Lease) write() error {
 	blocks := &_FreeBlocks{cache: make(map[int64]bool)}
 	for i := 0; i < nShards; i++ {
 		fbs := l.blocks[i]
-		if fbs.len() == 0 {
-			continue
-		}
+		fbs.RLock()
 		blocks.fb = append(blocks.fb, fbs.fb...)
+		fbs.RUnlock()
 	}
 
 	data := blocks.MarshalBinary()
-- 
2.43.0


From ec45288341c4f0e1d18cc5223062ba0982ebd213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:00 +0000
Subject: [PATCH 25/59] fix: a reused entry lost its topic, deep topics were
 truncated in the log and lost

---
 db_internal.go | 39 ++++++++++++++++++++-------------------
 entry.go       |  1 -
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/db_internal.go b/db_internal.go
index 6d96fbb..7294c0d 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -282,25 +282,26 @@ func (db *DB) setEntry(e *Entry) error {
 	var eBit uint8
 	var seq uint64
 	var rawTopic []byte
-	if !e.entry.parsed {
-		if e.Contract == 0 {
-			e.Contract = message.MasterContract
-		}
-		t, ttl, err := db.parseTopic(e.Contract, e.Topic)
-		if err != nil {
-			return err
-		}
-		if e.ExpiresAt == 0 && ttl > 0 {
-			e.ExpiresAt = ttl
-		}
-		t.AddContract(e.Contract)
-		e.entry.topicHash = t.GetHash(e.Contract)
-		// topic is packed if it is new topic entry or no entry of the topic is synced to the DB.
-		if off, ok := db.internal.trie.getOffset(e.entry.topicHash); !ok || off == 0 {
-			rawTopic = t.Marshal()
-			e.entry.topicSize = uint16(len(rawTopic))
-		}
-		e.entry.parsed = true
+	if e.Contract == 0 {
+		e.Contract = message.MasterContract
+	}
+	t, ttl, err := db.parseTopic(e.Contract, e.Topic)
+	if err != nil {
+		return err
+	}
+	if len(t.Parts) > math.MaxUint8 {
+		return errTopicTooLarge
+	}
+	if e.ExpiresAt == 0 && ttl > 0 {
+		e.ExpiresAt = ttl
+	}
+	t.AddContract(e.Contract)
+	e.entry.topicHash = t.GetHash(e.Contract)
+	e.entry.topicSize = 0
+	// topic is packed if it is new topic entry or no entry of the topic is synced to the DB.
+	if off, ok := db.internal.trie.getOffset(e.entry.topicHash); !ok || off == 0 {
+		rawTopic = t.Marshal()
+		e.entry.topicSize = uint16(len(rawTopic))
 	}
 	if e.ID != nil {
 		id = message.ID(e.ID)
diff --git a/entry.go b/entry.go
index f099de5..fc87c76 100644
--- a/entry.go
+++ b/entry.go
@@ -34,7 +34,6 @@ type (
 		valueSize uint32
 		expiresAt uint32 // expiresAt for recovery from log and not persisted to index file but persisted to the time window file.
 
-		parsed    bool
 		topicHash uint64 // topicHash for recovery from log and not persisted to the DB.
 		cache     []byte // entry from memdb if it exist.
 	}
-- 
2.43.0


From 1fec22eea297b68fad985cb3cf5d59f78bbd8998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:43 +0000
Subject: [PATCH 26/59] fix: malformed message IDs panicked, topics without any
 part were accepted

---
 db.go          | 3 +++
 db_internal.go | 6 ++++++
 query.go       | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/db.go b/db.go
index 0234a35..e0b16d5 100644
--- a/db.go
+++ b/db.go
@@ -433,6 +433,9 @@ func (db *DB) DeleteEntry(e *Entry) error {
 		return errTopicTooLarge
 	}
 	id := message.ID(e.ID)
+	if len(id) != id.Size() {
+		return errBadRequest
+	}
 	topic, _, err := db.parseTopic(e.Contract, e.Topic)
 	if err != nil {
 		return err
diff --git a/db_internal.go b/db_internal.go
index 7294c0d..02cfd53 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -265,6 +265,9 @@ func (db *DB) parseTopic(contract uint32, topic []byte) (*message.Topic, uint32,
 
 	//Parse the Key.
 	t.ParseKey(topic)
+	if len(t.Topic) == 0 {
+		return nil, 0, errBadRequest
+	}
 	// Parse the topic.
 	t.Parse(contract, true)
 	if t.TopicType == message.TopicInvalid {
@@ -305,6 +308,9 @@ func (db *DB) setEntry(e *Entry) error {
 	}
 	if e.ID != nil {
 		id = message.ID(e.ID)
+		if len(id) != id.Size() || id.Sequence() == 0 {
+			return errBadRequest
+		}
 		seq = id.Sequence()
 	} else {
 		seq = db.nextSeq()
diff --git a/query.go b/query.go
index efea889..72cea39 100644
--- a/query.go
+++ b/query.go
@@ -94,6 +94,9 @@ func (q *Query) parse() error {
 	topic := new(message.Topic)
 	//Parse the Key.
 	topic.ParseKey(q.Topic)
+	if len(topic.Topic) == 0 {
+		return errBadRequest
+	}
 	// Parse the topic.
 	topic.Parse(q.Contract, true)
 	if topic.TopicType == message.TopicInvalid {
-- 
2.43.0


From e352a8239a27ffcdb110b6306d21896621c3b581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:13 +0000
Subject: [PATCH 27/59] fix: failures to read the window file were dropped and
 a query reported fewer entries

---
 db.go          |  4 +++-
 db_internal.go |  5 ++++-
 time_window.go | 14 +++++++-------
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/db.go b/db.go
index e0b16d5..99f61b7 100644
--- a/db.go
+++ b/db.go
@@ -256,7 +256,9 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 	mu := db.internal.mutex.getMutex(q.internal.prefix)
 	mu.RLock()
 	defer mu.RUnlock()
-	db.lookup(q)
+	if err := db.lookup(q); err != nil {
+		return nil, err
+	}
 	if len(q.internal.winEntries) == 0 {
 		return
 	}
diff --git a/db_internal.go b/db_internal.go
index 02cfd53..cd7e1a0 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -251,7 +251,10 @@ func (db *DB) lookup(q *Query) error {
 	})
 	// newest entries of the query are selected from entries of all of its topics.
 	for _, topic := range topics {
-		wEntries := db.internal.timeWindow.lookup(db.fs, topic.hash, topic.offset, q.internal.cutoff, q.Limit)
+		wEntries, err := db.internal.timeWindow.lookup(db.fs, topic.hash, topic.offset, q.internal.cutoff, q.Limit)
+		if err != nil {
+			return err
+		}
 		for _, we := range wEntries {
 			q.internal.winEntries = append(q.internal.winEntries, _Query{topicHash: topic.hash, seq: we.seq()})
 		}
diff --git a/time_window.go b/time_window.go
index aa5b0ee..568666e 100644
--- a/time_window.go
+++ b/time_window.go
@@ -258,15 +258,18 @@ func (tw *_TimeWindowBucket) ilookup(topicHash uint64, limit int) (winEntries _W
 }
 
 // lookup lookups window entries from window file.
-func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, off, cutoff int64, limit int) (winEntries _WindowEntries) {
+func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, off, cutoff int64, limit int) (winEntries _WindowEntries, err error) {
 	winEntries = make([]_WinEntry, 0)
 	winEntries = tw.ilookup(topicHash, limit)
 	if len(winEntries) >= limit {
-		return winEntries
+		return winEntries, nil
 	}
 	winFile, err := fs.getFile(_FileDesc{fileType: typeTimeWindow})
 	if err != nil {
-		return winEntries
+		return winEntries, err
+	}
+	if off == 0 && winFile.Size() == 0 {
+		return winEntries, nil // no entry is synced to the DB.
 	}
 	next := func(blockOff int64, f func(_WinBlock) (bool, error)) error {
 		for {
@@ -291,11 +294,8 @@ func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, off, cutoff
 		winEntries = tw.addLive(winEntries, b.entries[:b.entryIdx])
 		return len(winEntries) >= limit || b.cutoff(cutoff), nil
 	})
-	if err != nil {
-		return winEntries
-	}
 
-	return winEntries
+	return winEntries, err
 }
 
 func (b _WinBlock) validation(topicHash uint64) error {
-- 
2.43.0


From 92b5cbefd6ee2495221b21f3bce8a3eb4ee79902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:58 +0000
Subject: [PATCH 28/59] fix: an empty topic in a client request panicked the
 server

---
 server/internal/message/security/key.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/internal/message/security/key.go b/server/internal/message/security/key.go
index 6e081c7..31fc69f 100644
--- a/server/internal/message/security/key.go
+++ b/server/internal/message/security/key.go
@@ -101,8 +101,11 @@ func ParseKey(text string) (topic *Topic) {
 	var fn splitFunc
 
 	parts := strings.FieldsFunc(text, fn.splitKey)
-	if parts == nil || len(parts) < 2 {
-		// topic.TopicType = TopicInvalid
+	if len(parts) == 0 {
+		topic.TopicType = TopicInvalid
+		return topic
+	}
+	if len(parts) < 2 {
 		topic.Topic = parts[0]
 		topic.Size = len(parts[0])
 		return topic
-- 
2.43.0


From 735482707f35dcb23da6c419c5a530cbe3451476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:00 +0000
Subject: [PATCH 29/59] fix: allocating a message ID next to a resumed one
 locked the connection for ever

---
 server/internal/message/messageids.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/internal/message/messageids.go b/server/internal/message/messageids.go
index efd508b..34bbf8f 100644
--- a/server/internal/message/messageids.go
+++ b/server/internal/message/messageids.go
@@ -61,8 +61,8 @@ func (mids *MessageIds) NextID(pktType utp.MessageType) MID {
 	mids.Lock()
 	defer mids.Unlock()
 	mids.id++
-	if _, ok := mids.resume[mids.id]; ok {
-		mids.NextID(pktType)
+	for _, ok := mids.resume[mids.id]; ok; _, ok = mids.resume[mids.id] {
+		mids.id++
 	}
 	mids.index[mids.id] = pktType
 	return mids.id
-- 
2.43.0


From 387be99da4f5549013f7fc7f7f790826503dbe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:02 +0000
Subject: [PATCH 30/59] fix: message ID of a disconnect was not encoded

---
 server/utp/connect.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/utp/connect.go b/server/utp/connect.go
index acd9d37..9df50b9 100644
--- a/server/utp/connect.go
+++ b/server/utp/connect.go
@@ -177,7 +177,9 @@ func (p *Pingreq) Info() Info {
 
 func (d *Disconnect) ToBinary() (bytes.Buffer, error) {
 	var buf bytes.Buffer
-	var disc pbx.Disconnect
+	disc := pbx.Disconnect{
+		MessageID: int32(d.MessageID),
+	}
 	rawMsg, err := proto.Marshal(&disc)
 	if err != nil {
 		return buf, err
-- 
2.43.0


From 988b75d8eee204ab0258037c5dcb48a9410f9a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:04 +0000
Subject: [PATCH 31/59] fix: a negative message length sent by a client
 panicked the server, an invalid header was not reported

---
 server/internal/net/message.go | 13 ++++++++++---
 server/utp/message.go          | 13 ++++++++++++-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/server/internal/net/message.go b/server/internal/net/message.go
index 5c38aa7..51cfb6a 100644
--- a/server/internal/net/message.go
+++ b/server/internal/net/message.go
@@ -52,11 +52,18 @@ func Read(r io.Reader) (MessagePack, error) {
 		return &utp.Disconnect{}, nil
 	}
 
-	rawMsg := make([]byte, fh.MessageLength)
-	_, err := io.ReadFull(r, rawMsg)
-	if err != nil {
+	if fh.MessageLength < 0 {
+		return nil, fmt.Errorf("message::Read: Invalid message length %d", fh.MessageLength)
+	}
+	// length is sent by the client, memory is allocated for the data that is received.
+	var body bytes.Buffer
+	if _, err := io.CopyN(&body, r, int64(fh.MessageLength)); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return nil, err
 	}
+	rawMsg := body.Bytes()
 
 	// unpack the body
 	var pack MessagePack
diff --git a/server/utp/message.go b/server/utp/message.go
index 69d3f72..525378c 100644
--- a/server/utp/message.go
+++ b/server/utp/message.go
@@ -18,6 +18,7 @@ package utp
 
 import (
 	"bytes"
+	"errors"
 	"io"
 
 	"github.com/golang/protobuf/proto"
@@ -51,6 +52,11 @@ const (
 	ErrBadRequest                = 0x06
 )
 
+// maxHeaderSize is the maximum size of an encoded fixed header.
+const maxHeaderSize = 1 << 10
+
+var errHeaderTooLarge = errors.New("fixed header is too large")
+
 // FixedHeader
 type FixedHeader struct {
 	MessageType   MessageType
@@ -88,13 +94,18 @@ func (fh *FixedHeader) FromBinary(r io.Reader) error {
 	}
 
 	// read FixedHeader
+	if fhSize > maxHeaderSize {
+		return errHeaderTooLarge
+	}
 	head := make([]byte, fhSize)
 	if _, err := io.ReadFull(r, head); err != nil {
 		return err
 	}
 
 	var h pbx.FixedHeader
-	proto.Unmarshal(head, &h)
+	if err := proto.Unmarshal(head, &h); err != nil {
+		return err
+	}
 
 	*fh = FixedHeader{
 		MessageType:   MessageType(h.MessageType),
-- 
2.43.0


From 155c5607fd9d38e0e039dc8682cad6cef57be84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:05 +0000
Subject: [PATCH 32/59] fix: keys without write permission were allowed to
 publish, write only keys were refused

---
 server/internal/hdl_conn.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 7c1beb9..e6b5c8d 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -357,7 +357,7 @@ func (c *_Conn) onRelay(req *utp.RelayRequest) *types.Error {
 	}
 
 	if !c.insecure {
-		if _, err := c.onSecureRequest(topic); err != nil {
+		if _, err := c.onSecureRequest(topic, security.AllowRead); err != nil {
 			return err
 		}
 	}
@@ -392,7 +392,7 @@ func (c *_Conn) onSubscribe(subMsg utp.Subscribe, sub *utp.Subscription) *types.
 	}
 
 	if !c.insecure {
-		if _, err := c.onSecureRequest(topic); err != nil {
+		if _, err := c.onSecureRequest(topic, security.AllowRead); err != nil {
 			return err
 		}
 	}
@@ -418,7 +418,7 @@ func (c *_Conn) onUnsubscribe(unsubMsg utp.Unsubscribe, sub *utp.Subscription) *
 	}
 
 	if !c.insecure {
-		if _, err := c.onSecureRequest(topic); err != nil {
+		if _, err := c.onSecureRequest(topic, security.AllowRead); err != nil {
 			return err
 		}
 	}
@@ -449,7 +449,7 @@ func (c *_Conn) onPublish(pub utp.Publish) *types.Error {
 		}
 
 		if !c.insecure {
-			wildcard, err := c.onSecureRequest(topic)
+			wildcard, err := c.onSecureRequest(topic, security.AllowWrite)
 			if err != nil {
 				return err
 			}
@@ -486,15 +486,15 @@ func (c *_Conn) acknowledge(pub utp.Publish) *types.Error {
 	return nil
 }
 
-func (c *_Conn) onSecureRequest(topic *security.Topic) (bool, *types.Error) {
+func (c *_Conn) onSecureRequest(topic *security.Topic, permission uint32) (bool, *types.Error) {
 	// Attempt to decode the key
 	key, err := security.DecodeKey(topic.Key)
 	if err != nil {
 		return false, types.ErrBadRequest
 	}
 
-	// Check if the key has the permission to read the topic
-	if !key.HasPermission(security.AllowRead) {
+	// Check if the key has the permission for the request on the topic
+	if !key.HasPermission(permission) {
 		return false, types.ErrUnauthorized
 	}
 
-- 
2.43.0


From e895b675cfb044576f571806f7a2f524db40d3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:07 +0000
Subject: [PATCH 33/59] fix: a request before connect and a refused connect
 panicked the server

---
 server/internal/hdl_conn.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index e6b5c8d..617d0f0 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -88,6 +88,12 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 		c.service.stats.PrecisionTiming("conn_time_ns", time.Since(start), stats.IntTag("status", status))
 	}()
 
+	// Requests are served once the client is connected.
+	if c.clientID == nil && inMsg.Type() != utp.CONNECT && inMsg.Type() != utp.DISCONNECT {
+		status = types.ErrUnauthorized.Status
+		return types.ErrUnauthorized
+	}
+
 	switch inMsg.Type() {
 	// An attempt to connect.
 	case utp.CONNECT:
@@ -102,8 +108,13 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			returnCode = err.ReturnCode // Unauthorized
 		}
 
+		var epoch int32
+		if clientID != nil {
+			epoch = int32(clientID.Epoch())
+		}
+
 		// Write the ack
-		connack := &utp.ConnectAcknowledge{ReturnCode: returnCode, Epoch: int32(clientID.Epoch()), ConnID: int32(c.connID)}
+		connack := &utp.ConnectAcknowledge{ReturnCode: returnCode, Epoch: epoch, ConnID: int32(c.connID)}
 		rawAck, err1 := connack.ToBinary()
 		if err1 != nil {
 			return types.ErrServerError
@@ -119,6 +130,9 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			c.sendClientID(clientID.Encode(c.service.mac))
 			return err
 		}
+		if err != nil {
+			return err
+		}
 
 		c.clientID = clientID
 		c.MessageIds.Reset()
-- 
2.43.0


From 1918a258a0a42bd0fcb6e8f2c7b12bf9e3d2f072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:09 +0000
Subject: [PATCH 34/59] fix: a resumed session was replaced on reconnect,
 outbound messages were logged under another session

---
 server/internal/batch.go    | 4 ++--
 server/internal/conn.go     | 2 +-
 server/internal/hdl_conn.go | 8 ++++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/server/internal/batch.go b/server/internal/batch.go
index dcd6986..38c6696 100644
--- a/server/internal/batch.go
+++ b/server/internal/batch.go
@@ -192,7 +192,7 @@ func (m *batchManager) publish(c *_Conn, publishWaitTimeout time.Duration) {
 			pub.MessageID = uint16(c.MessageIds.NextID(utp.PUBLISH))
 
 			// persist outbound
-			store.Log.PersistOutbound(uint32(c.connID), pub)
+			store.Log.PersistOutbound(uint32(c.sessID), pub)
 
 			select {
 			case c.pub <- pub:
@@ -205,7 +205,7 @@ func (m *batchManager) publish(c *_Conn, publishWaitTimeout time.Duration) {
 				pub.MessageID = uint16(c.MessageIds.NextID(utp.PUBLISH))
 
 				// persist outbound
-				store.Log.PersistOutbound(uint32(c.connID), pub)
+				store.Log.PersistOutbound(uint32(c.sessID), pub)
 				select {
 				case c.pub <- pub:
 				case <-time.After(publishWaitTimeout):
diff --git a/server/internal/conn.go b/server/internal/conn.go
index 0f8fd83..82bed55 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -144,7 +144,7 @@ func (c *_Conn) SendMessage(msg *message.Message) bool {
 	}
 
 	// persist outbound
-	store.Log.PersistOutbound(uint32(c.connID), pub)
+	store.Log.PersistOutbound(uint32(c.sessID), pub)
 
 	// Acknowledge the publication
 	select {
diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 617d0f0..6ca76ac 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -152,9 +152,9 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 		}
 
 		// Take care of any messages in the store
-		sessID := c.sessID
-		if rawSess, err := store.Session.Get(uint64(sessKey)); err == nil {
-			sessID := binary.LittleEndian.Uint32(rawSess[:4])
+		sessID := uint32(c.sessID)
+		if rawSess, err := store.Session.Get(uint64(sessKey)); err == nil && len(rawSess) >= 4 {
+			sessID = binary.LittleEndian.Uint32(rawSess[:4])
 			if !m.CleanSessFlag {
 				c.resume(sessID)
 			} else {
@@ -163,7 +163,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			c.sessID = uid.LID(sessID)
 		}
 		rawSess := make([]byte, 4)
-		binary.LittleEndian.PutUint32(rawSess[0:4], uint32(sessID))
+		binary.LittleEndian.PutUint32(rawSess[0:4], sessID)
 		store.Session.Put(uint64(sessKey), rawSess)
 		if sessKey != int32(c.clientID.Epoch()) {
 			store.Session.Put(uint64(c.clientID.Epoch()), rawSess)
-- 
2.43.0


From d3c03eb5ce39474607a85a3030854017015e53bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:53 +0000
Subject: [PATCH 35/59] fix: messages of a resumed session were deleted if the
 session ID had its fifth bit set

---
 server/internal/conn.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index 82bed55..a063db3 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -322,22 +322,17 @@ func (c *_Conn) resume(prefix uint32) {
 			continue
 		}
 
-		// isKeyOutbound
-		if (k & (1 << 4)) == 0 {
-			switch msg.Type() {
-			case utp.PUBLISH:
-				pub := msg.(*utp.Publish)
-				c.MessageIds.ResumeID(message.MID(pub.MessageID))
-				notify := &utp.ControlMessage{
-					MessageType: utp.PUBLISH,
-					FlowControl: utp.NOTIFY,
-					MessageID:   pub.MessageID,
-				}
-				c.send <- notify
-			default:
-				store.Log.Delete(k)
+		switch msg.Type() {
+		case utp.PUBLISH:
+			pub := msg.(*utp.Publish)
+			c.MessageIds.ResumeID(message.MID(pub.MessageID))
+			notify := &utp.ControlMessage{
+				MessageType: utp.PUBLISH,
+				FlowControl: utp.NOTIFY,
+				MessageID:   pub.MessageID,
 			}
-		} else {
+			c.send <- notify
+		default:
 			store.Log.Delete(k)
 		}
 	}
-- 
2.43.0


From 58eea96343d1515c0b2627d1f4833488ec7cc9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:55 +0000
Subject: [PATCH 36/59] fix: a message sent to a connection being closed
 panicked the server or blocked the sender for ever

---
 server/internal/conn.go     | 24 +++++++++++++++++-------
 server/internal/hdl_conn.go | 16 ++++++++--------
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index a063db3..1d37e29 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -156,6 +156,16 @@ func (c *_Conn) SendMessage(msg *message.Message) bool {
 	return true
 }
 
+// sendPack sends message to the write loop of the connection, it does not wait if the connection is closed.
+func (c *_Conn) sendPack(msg lp.MessagePack) bool {
+	select {
+	case c.send <- msg:
+		return true
+	case <-c.closeC:
+		return false
+	}
+}
+
 // Send forwards raw bytes to the underlying client.
 func (c *_Conn) SendRawBytes(buf []byte) bool {
 	if c == nil {
@@ -283,7 +293,7 @@ func (c *_Conn) publish(pub utp.Publish, topic *security.Topic, pubMsg *utp.Publ
 					}
 					// persist outbound
 					store.Log.PersistOutbound(uint32(sub.sessID), &pub)
-					sub.send <- notify
+					sub.sendPack(notify)
 				// Subscriber's DeliveryMode EXPRESS
 				case 0:
 					if !sub.SendMessage(msg) {
@@ -331,7 +341,7 @@ func (c *_Conn) resume(prefix uint32) {
 				FlowControl: utp.NOTIFY,
 				MessageID:   pub.MessageID,
 			}
-			c.send <- notify
+			c.sendPack(notify)
 		default:
 			store.Log.Delete(k)
 		}
@@ -382,9 +392,11 @@ func (c *_Conn) storeOutbound(m lp.MessagePack) {
 
 // close terminates the connection.
 func (c *_Conn) close() error {
-	if r := recover(); r != nil {
-		defer log.ErrLogger.Debug().Str("context", "conn.closing").Msgf("panic recovered '%v'", debug.Stack())
-	}
+	defer func() {
+		if r := recover(); r != nil {
+			log.ErrLogger.Debug().Str("context", "conn.closing").Msgf("panic recovered '%v'", string(debug.Stack()))
+		}
+	}()
 	defer c.socket.Close()
 
 	if !c.setClosed() {
@@ -408,8 +420,6 @@ func (c *_Conn) close() error {
 	Globals.connCache.delete(c.connID)
 	defer log.ConnLogger.Info().Str("context", "conn.close").Int64("connid", int64(c.connID)).Msg("conn closed")
 	Globals.Cluster.connGone(c)
-	close(c.send)
-
 	c.batchManager.close()
 
 	// Decrement the connection counter
diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 6ca76ac..18fbe7f 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -124,7 +124,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			FlowControl: utp.ACKNOWLEDGE,
 			Message:     rawAck.Bytes(),
 		}
-		c.send <- ack
+		c.sendPack(ack)
 
 		if err == types.ErrInvalidClientID {
 			c.sendClientID(clientID.Encode(c.service.mac))
@@ -191,7 +191,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			return nil
 		}
 
-		c.send <- ack
+		c.sendPack(ack)
 	// An attempt to subscribe to a topic.
 	case utp.SUBSCRIBE:
 		m := *inMsg.(*utp.Subscribe)
@@ -214,7 +214,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			return nil
 		}
 
-		c.send <- ack
+		c.sendPack(ack)
 
 	// An attempt to unsubscribe from a topic.
 	case utp.UNSUBSCRIBE:
@@ -236,7 +236,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			return nil
 		}
 
-		c.send <- ack
+		c.sendPack(ack)
 
 	// Ping response, respond appropriately.
 	case utp.PINGREQ:
@@ -244,7 +244,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			MessageType: utp.PINGREQ,
 			FlowControl: utp.ACKNOWLEDGE,
 		}
-		c.send <- ack
+		c.sendPack(ack)
 
 	case utp.PUBLISH:
 		m := *inMsg.(*utp.Publish)
@@ -267,7 +267,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			}
 			switch msg.(type) {
 			case *utp.Publish:
-				c.send <- msg
+				c.sendPack(msg)
 			}
 		case utp.RECEIPT:
 			comp := &utp.ControlMessage{
@@ -276,7 +276,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 				MessageID:   ctrlMsg.MessageID,
 			}
 			c.storeOutbound(comp)
-			c.send <- comp
+			c.sendPack(comp)
 		}
 	}
 
@@ -496,7 +496,7 @@ func (c *_Conn) acknowledge(pub utp.Publish) *types.Error {
 		FlowControl: utp.ACKNOWLEDGE,
 		MessageID:   pub.MessageID,
 	}
-	c.send <- ack
+	c.sendPack(ack)
 	return nil
 }
 
-- 
2.43.0


From c48ae4b7d823f0f83d01cc0cc61053278a05d08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:57 +0000
Subject: [PATCH 37/59] fix: batches of a connection were iterated without the
 lock, dropped when the pool was full and on close

---
 server/internal/batch.go | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/server/internal/batch.go b/server/internal/batch.go
index 38c6696..b0a89ed 100644
--- a/server/internal/batch.go
+++ b/server/internal/batch.go
@@ -39,6 +39,7 @@ type (
 		send         chan *batch
 		stop         chan struct{}
 		stopOnce     sync.Once
+		stopped      bool // no batch is added once the publish queue is closed.
 		stopWg       sync.WaitGroup
 	}
 )
@@ -91,8 +92,14 @@ func (m *batchManager) close() {
 
 // add adds a publish message to a batch in the batch group.
 func (m *batchManager) add(delay int32, pubMsg *utp.PublishMessage) {
+	if m == nil {
+		return
+	}
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	if m.stopped {
+		return
+	}
 	timeID := m.TimeID(delay)
 	b, ok := m.batchGroup[timeID]
 	if !ok {
@@ -127,28 +134,26 @@ func (m *batchManager) publishLoop(interval time.Duration) {
 	for {
 		select {
 		case <-m.stop:
-			timeNow := timeID(TimeNow().UnixNano())
+			m.mu.Lock()
+			defer m.mu.Unlock()
+			m.stopped = true
 			for timeID, batch := range m.batchGroup {
-				if timeID < timeNow {
-					m.mu.Lock()
-					m.push(batch)
-					delete(m.batchGroup, timeID)
-					m.mu.Unlock()
-				}
+				m.push(batch)
+				delete(m.batchGroup, timeID)
 			}
 			close(m.publishQueue)
 
 			return
 		case <-publishC:
 			timeNow := timeID(TimeNow().UnixNano())
+			m.mu.Lock()
 			for timeID, batch := range m.batchGroup {
 				if timeID < timeNow {
-					m.mu.Lock()
 					m.push(batch)
 					delete(m.batchGroup, timeID)
-					m.mu.Unlock()
 				}
 			}
+			m.mu.Unlock()
 		}
 	}
 }
@@ -163,14 +168,8 @@ LOOP:
 		return
 	}
 
-	select {
-	case m.send <- b:
-	default:
-		// pool is full, let GC handle the batches
-		goto WAIT
-	}
+	m.send <- b
 
-WAIT:
 	// Wait for a while
 	time.Sleep(timeout)
 	goto LOOP
@@ -196,6 +195,7 @@ func (m *batchManager) publish(c *_Conn, publishWaitTimeout time.Duration) {
 
 			select {
 			case c.pub <- pub:
+			case <-c.closeC:
 			case <-time.After(publishWaitTimeout):
 				// b.r.setError(errors.New("publish timeout error occurred"))
 			}
@@ -208,6 +208,7 @@ func (m *batchManager) publish(c *_Conn, publishWaitTimeout time.Duration) {
 				store.Log.PersistOutbound(uint32(c.sessID), pub)
 				select {
 				case c.pub <- pub:
+				case <-c.closeC:
 				case <-time.After(publishWaitTimeout):
 					// b.r.setError(errors.New("publish timeout error occurred"))
 				}
-- 
2.43.0


From 9e2739b0f59bac8e5b316a8582da4e58382da21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:32 +0000
Subject: [PATCH 38/59] fix: a delete whose tombstone could not be written was
 reported as success

---
 memdb/db.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/memdb/db.go b/memdb/db.go
index 4dec261..4d5be2d 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -328,7 +328,10 @@ func (db *DB) Delete(key uint64) error {
 			defer timeLock.RUnlock()
 
 			block.Lock()
-			block.delete(key)
+			if err := block.delete(key); err != nil {
+				block.Unlock()
+				return err
+			}
 			db.internal.meter.Dels.Inc(1)
 			if block.count == 0 {
 				// all entries are deleted from the block,
-- 
2.43.0


From 9c68ecf9dc18b4a7832b1483c84d342b8da309ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:46 +0000
Subject: [PATCH 39/59] fix: a query took a failed read of the in-memory entry
 for a missing entry

---
 db_internal.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/db_internal.go b/db_internal.go
index cd7e1a0..aecb723 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -224,10 +224,15 @@ func (db *DB) loadTopic(entries _WindowEntries) (*message.Topic, error) {
 }
 
 func (db *DB) readEntry(q _Query) (_IndexEntry, error) {
-	data, _ := db.internal.mem.Get(q.seq)
+	data, err := db.internal.mem.Get(q.seq)
+	if err != nil && !memdb.IsNotExist(err) {
+		return _IndexEntry{}, err
+	}
 	if data != nil {
 		var m _Entry
-		m.UnmarshalBinary(data[:entrySize])
+		if err := m.UnmarshalBinary(data[:entrySize]); err != nil {
+			return _IndexEntry{}, err
+		}
 		e := _IndexEntry{
 			seq:       m.seq,
 			topicSize: m.topicSize,
-- 
2.43.0


From a25cfa8be186c2b0003c8fd56e03524d531c4d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:46 +0000
Subject: [PATCH 40/59] fix: deleting an entry twice concurrently marked
 another entry of the block as deleted

---
 memdb/block.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/memdb/block.go b/memdb/block.go
index 1c24060..496214c 100644
--- a/memdb/block.go
+++ b/memdb/block.go
@@ -115,7 +115,11 @@ func (b *_Block) put(ikey _Key, data []byte) error {
 
 func (b *_Block) delete(key uint64) error {
 	ikey := iKey(false, key)
-	off := b.records[ikey]
+	off, ok := b.records[ikey]
+	if !ok {
+		// entry is deleted or block is released since it was looked up.
+		return errEntryDoesNotExist
+	}
 	// k with flag bit
 	var k [9]byte
 	k[0] = 1
-- 
2.43.0


From 10a3986477ea0696de5fb8c8b50a88b77bdecc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:59 +0000
Subject: [PATCH 41/59] fix: writing a batch again after its log write failed
 closed the same channel twice

---
 memdb/batch.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/memdb/batch.go b/memdb/batch.go
index 01e375f..5f0d0c6 100644
--- a/memdb/batch.go
+++ b/memdb/batch.go
@@ -88,10 +88,13 @@ func (b *Batch) Write() error {
 	if err := b.db.ok(); err != nil {
 		return err
 	}
-	b.batchGroup = append(b.batchGroup, b.tinyLog.timeID())
+	timeID := b.tinyLog.timeID()
 	if err := b.db.internal.logManager.writeWait(b.tinyLog); err != nil {
+		// the log is complete and it can't be written again, entries of the time block are written with a new log.
+		b.tinyLog = &_TinyLog{id: _TimeID(time.Now().UTC().UnixNano()), _TimeID: timeID, managed: true, doneChan: make(chan struct{})}
 		return err
 	}
+	b.batchGroup = append(b.batchGroup, timeID)
 	b.newTinyLog()
 
 	return nil
-- 
2.43.0


From 158e3739fa826998ca2c00be291d606cec704800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:08 +0000
Subject: [PATCH 42/59] fix: failure to create a data directory moved data
 files to the working directory

---
 file.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/file.go b/file.go
index a90d236..322801b 100644
--- a/file.go
+++ b/file.go
@@ -52,38 +52,37 @@ type _FileDesc struct {
 	fd       uintptr
 }
 
-func filePath(dirName string, fd _FileDesc) string {
-	name := fmt.Sprintf("%#x-%d", fd.fileType, fd.num)
+func filePath(dirName string, fd _FileDesc) (string, error) {
 	if err := ensureDir(path.Join(dirName, indexDir)); err != nil {
-		return name
+		return "", err
 	}
 	if err := ensureDir(path.Join(dirName, dataDir)); err != nil {
-		return name
+		return "", err
 	}
 	if err := ensureDir(path.Join(dirName, winDir)); err != nil {
-		return name
+		return "", err
 	}
 	switch fd.fileType {
 	case typeInfo:
 		suffix := fmt.Sprintf("%s.info", prefix)
-		return path.Join(dirName, suffix)
+		return path.Join(dirName, suffix), nil
 	case typeTimeWindow:
 		suffix := fmt.Sprintf("%s%04d.win", prefix, fd.num)
-		return path.Join(dirName, winDir, suffix)
+		return path.Join(dirName, winDir, suffix), nil
 	case typeIndex:
 		suffix := fmt.Sprintf("%s%04d.index", prefix, fd.num)
-		return path.Join(dirName, indexDir, suffix)
+		return path.Join(dirName, indexDir, suffix), nil
 	case typeData:
 		suffix := fmt.Sprintf("%s%04d.data", prefix, fd.num)
-		return path.Join(dirName, dataDir, suffix)
+		return path.Join(dirName, dataDir, suffix), nil
 	case typeLease:
 		suffix := fmt.Sprintf("%s.lease", prefix)
-		return path.Join(dirName, suffix)
+		return path.Join(dirName, suffix), nil
 	case typeFilter:
 		suffix := fmt.Sprintf("%s.filter", prefix)
-		return path.Join(dirName, suffix)
+		return path.Join(dirName, suffix), nil
 	default:
-		return fmt.Sprintf("%#x-%d", fd.fileType, fd.num)
+		return fmt.Sprintf("%#x-%d", fd.fileType, fd.num), nil
 	}
 }
 
@@ -127,7 +126,10 @@ func newFile(path string, nFiles int16, fd _FileDesc) (_FileSet, error) {
 	fs := _FileSet{mu: new(sync.RWMutex), fileMap: make(map[int16]_File, nFiles)}
 	for i := int16(0); i < nFiles; i++ {
 		fd.num = i
-		path := filePath(path, fd)
+		path, err := filePath(path, fd)
+		if err != nil {
+			return fs, err
+		}
 		fi, err := os.OpenFile(path, fileFlag, fileMode)
 		if err != nil {
 			return fs, err
-- 
2.43.0


From f72024949626888f0c9a373c46a0edbf9173467a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:11 +0000
Subject: [PATCH 43/59] fix: recovery ignored a failure to read the topic of an
 entry

---
 recovery.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recovery.go b/recovery.go
index be7bb3b..fee71a3 100644
--- a/recovery.go
+++ b/recovery.go
@@ -100,8 +100,10 @@ func (db *_SyncHandle) startRecovery() error {
 				return true, err
 			}
 			if m.topicSize != 0 {
-				rawtopic, _ := db.internal.reader.readTopic(e)
-
+				rawtopic, err := db.internal.reader.readTopic(e)
+				if err != nil {
+					return true, err
+				}
 				t := new(message.Topic)
 				if err := t.Unmarshal(rawtopic); err != nil {
 					return false, err
-- 
2.43.0


From 974768b169ad289393f45f12fdca8f8d8a2fb1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:48 +0000
Subject: [PATCH 44/59] fix: space leased for an entry was lost when writing
 its data failed

---
 block_writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block_writer.go b/block_writer.go
index 6367bf6..dff6ebe 100644
--- a/block_writer.go
+++ b/block_writer.go
@@ -148,12 +148,12 @@ func (w *_BlockWriter) append(e _IndexEntry) (err error) {
 	dataLen := len(e.cache)
 	off := w.lease.allocate(uint32(dataLen))
 	if off != -1 {
+		w.dataLeases[off] = uint32(dataLen)
 		buf := make([]byte, dataLen)
 		copy(buf, e.cache)
 		if _, err = w.dataFile.WriteAt(buf, off); err != nil {
 			return err
 		}
-		w.dataLeases[off] = uint32(dataLen)
 	} else {
 		off = w.offset
 		offset, err := w.buffer.Extend(int64(dataLen))
-- 
2.43.0


From 1bdd25f3ec953bae81c9abe7ba2e52843f1aa96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:24 +0000
Subject: [PATCH 45/59] fix: statistics read the sequence counter without
 atomics

---
 meter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meter.go b/meter.go
index 443c5f1..1279ff2 100644
--- a/meter.go
+++ b/meter.go
@@ -143,7 +143,7 @@ func (db *DB) Varz() (*Varz, error) {
 	v := &Varz{Start: db.internal.start}
 	v.Now = time.Now()
 	v.Uptime = uptime(time.Since(db.internal.start))
-	v.Seq = int64(db.internal.dbInfo.sequence)
+	v.Seq = int64(db.seq())
 	v.Count = int64(db.Count())
 	v.Gets = db.internal.meter.Gets.Count()
 	v.Puts = db.internal.meter.Puts.Count()
-- 
2.43.0


From b9bdb4bcd80bf4ea8aed489cec0d998e23f458e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:24 +0000
Subject: [PATCH 46/59] fix: resetting a sample raced with recording times

---
 metrics/sample.go                     | 2 +-
 server/internal/pkg/metrics/sample.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics/sample.go b/metrics/sample.go
index 4b562c8..d4b291c 100644
--- a/metrics/sample.go
+++ b/metrics/sample.go
@@ -81,7 +81,7 @@ func NewSample(c *Config) *_Sample {
 func (s *_Sample) Reset() {
 	s.Lock()
 	defer s.Unlock()
-	s.Count = 0
+	atomic.StoreUint64(&s.Count, 0)
 }
 
 // Cumulative returns cumulative time of all sampled events.
diff --git a/server/internal/pkg/metrics/sample.go b/server/internal/pkg/metrics/sample.go
index ea9413a..a187c84 100644
--- a/server/internal/pkg/metrics/sample.go
+++ b/server/internal/pkg/metrics/sample.go
@@ -80,7 +80,7 @@ func NewSample(c *Config) *sample {
 func (s *sample) Reset() {
 	s.Lock()
 	defer s.Unlock()
-	s.Count = 0
+	atomic.StoreUint64(&s.Count, 0)
 }
 
 // Cumulative returns cumulative time of all sampled events.
-- 
2.43.0


From bbee60e37a5f157df49ccc3dcdbd899d61388a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:56 +0000
Subject: [PATCH 47/59] fix: directory stayed locked after close when the lock
 file could not be removed

---
 file_unix.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/file_unix.go b/file_unix.go
index 6db011d..951383f 100644
--- a/file_unix.go
+++ b/file_unix.go
@@ -30,10 +30,12 @@ type _UnixFileLock struct {
 
 // Unlock removes the lock from file.
 func (fl *_UnixFileLock) unlock() error {
-	if err := os.Remove(fl.name); err != nil {
-		return err
+	err := os.Remove(fl.name)
+	// the lock is released also if the file can't be removed.
+	if err1 := fl.f.Close(); err1 != nil && err == nil {
+		err = err1
 	}
-	return fl.f.Close()
+	return err
 }
 
 func lockFile(f *os.File) error {
-- 
2.43.0


From 550be8baeb3f3295904178df9a4acc2f283c638f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 48/59] fix: get failed with EOF while a sync was writing
 window blocks of the topic

topic offsets were set in the trie before window blocks were written to the file
---
 db_sync.go  | 21 ++++++---------------
 recovery.go |  5 +----
 2 files changed, 7 insertions(+), 19 deletions(-)

diff --git a/db_sync.go b/db_sync.go
index 2f64cc8..59c42b3 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -45,7 +45,7 @@ type (
 		rawWindow *bpool.Buffer
 		rawBlock  *bpool.Buffer
 
-		topicOffsets map[uint64]int64 // map[topicHash]offset before the sync
+		topicOffsets map[uint64]int64 // map[topicHash]offset set to the trie once sync is complete
 	}
 )
 
@@ -82,14 +82,6 @@ func (db *_SyncHandle) finish() error {
 	return nil
 }
 
-// setOffset sets topic offset and keeps offset before the sync to restore it on rollback.
-func (db *_SyncHandle) setOffset(topicHash uint64, prevOff, off int64) (ok bool) {
-	if _, ok := db.topicOffsets[topicHash]; !ok {
-		db.topicOffsets[topicHash] = prevOff
-	}
-	return db.internal.trie.setOffset(_Topic{hash: topicHash, offset: off})
-}
-
 func (db *_SyncHandle) reset() error {
 	if db.syncInfo.syncComplete {
 		db.syncInfo.lastSyncSeq = db.syncInfo.upperSeq
@@ -115,9 +107,6 @@ func (db *_SyncHandle) abort() error {
 		return nil
 	}
 	// Rollback.
-	for h, off := range db.topicOffsets {
-		db.internal.trie.setOffset(_Topic{hash: h, offset: off})
-	}
 	err := db.windowWriter.abort()
 
 	if err1 := db.blockWriter.abort(); err1 != nil && err == nil {
@@ -205,6 +194,10 @@ func (db *_SyncHandle) sync(recovery bool) (err error) {
 		db.decount(uint64(db.syncInfo.count))
 		return err
 	}
+	// topic offsets are set after window blocks are written as those are read by queries.
+	for h, off := range db.topicOffsets {
+		db.internal.trie.setOffset(_Topic{hash: h, offset: off})
+	}
 	if recovery {
 		db.internal.meter.Recovers.Inc(db.syncInfo.count)
 	}
@@ -279,9 +272,7 @@ func (db *_SyncHandle) Sync() error {
 			if err != nil {
 				return true, err
 			}
-			if ok := db.setOffset(h, topicOff, wOff); !ok {
-				return true, errors.New("db:Sync: timeWindow sync error: unable to set topic offset in trie")
-			}
+			db.topicOffsets[h] = wOff
 		}
 		if err1 != nil {
 			fmt.Println("db.sync: error ", err1)
diff --git a/recovery.go b/recovery.go
index fee71a3..f236018 100644
--- a/recovery.go
+++ b/recovery.go
@@ -17,7 +17,6 @@
 package unitdb
 
 import (
-	"errors"
 	"fmt"
 	"sort"
 
@@ -35,9 +34,7 @@ func (db *_SyncHandle) recoverWindowBlocks(windowEntries map[uint64]_WindowEntri
 		if err != nil {
 			return err
 		}
-		if ok := db.setOffset(h, topicOff, wOff); !ok {
-			return errors.New("recovery.recoverWindowBlocks: timeWindow sync error, unable to set topic offset in trie")
-		}
+		db.topicOffsets[h] = wOff
 	}
 	return nil
 }
-- 
2.43.0


From f7b89398c1d936a301b8f1449ff09b7d4455c251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 49/59] fix: query returned entries twice while a sync was in
 progress

---
 time_window.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/time_window.go b/time_window.go
index 568666e..bb92fda 100644
--- a/time_window.go
+++ b/time_window.go
@@ -218,9 +218,13 @@ func (tw *_TimeWindowBucket) release() func(timeID int64) error {
 }
 
 // addLive appends entries that are not expired to the window entries from newest to oldest entry.
-func (tw *_TimeWindowBucket) addLive(winEntries, entries _WindowEntries) _WindowEntries {
+// Entries already added are skipped, an entry is in the window and in the window file while a sync is in progress.
+func (tw *_TimeWindowBucket) addLive(winEntries, entries _WindowEntries, added map[uint64]bool) _WindowEntries {
 	for i := len(entries) - 1; i >= 0; i-- {
 		we := entries[i]
+		if added[we.seq()] {
+			continue
+		}
 		if we.isExpired() {
 			if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
 				logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
@@ -228,13 +232,14 @@ func (tw *_TimeWindowBucket) addLive(winEntries, entries _WindowEntries) _Window
 			// if id is expired it does not return an error but continue the iteration.
 			continue
 		}
+		added[we.seq()] = true
 		winEntries = append(winEntries, we)
 	}
 	return winEntries
 }
 
 // ilookup lookups window entries from timeWindowBucket and not yet sync to DB.
-func (tw *_TimeWindowBucket) ilookup(topicHash uint64, limit int) (winEntries _WindowEntries) {
+func (tw *_TimeWindowBucket) ilookup(topicHash uint64, limit int, added map[uint64]bool) (winEntries _WindowEntries) {
 	winEntries = make([]_WinEntry, 0)
 	// get windowBlock shard.
 	b := tw.windowBlocks.getWindowBlock(topicHash)
@@ -245,7 +250,7 @@ func (tw *_TimeWindowBucket) ilookup(topicHash uint64, limit int) (winEntries _W
 		if key.topicHash != topicHash {
 			continue
 		}
-		winEntries = tw.addLive(winEntries, b.entries[key])
+		winEntries = tw.addLive(winEntries, b.entries[key], added)
 	}
 	// entries of the topic are spread across time blocks.
 	sort.Slice(winEntries[:], func(i, j int) bool {
@@ -260,7 +265,8 @@ func (tw *_TimeWindowBucket) ilookup(topicHash uint64, limit int) (winEntries _W
 // lookup lookups window entries from window file.
 func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, off, cutoff int64, limit int) (winEntries _WindowEntries, err error) {
 	winEntries = make([]_WinEntry, 0)
-	winEntries = tw.ilookup(topicHash, limit)
+	added := make(map[uint64]bool)
+	winEntries = tw.ilookup(topicHash, limit, added)
 	if len(winEntries) >= limit {
 		return winEntries, nil
 	}
@@ -291,7 +297,7 @@ func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, off, cutoff
 		if b.topicHash != topicHash {
 			return true, nil
 		}
-		winEntries = tw.addLive(winEntries, b.entries[:b.entryIdx])
+		winEntries = tw.addLive(winEntries, b.entries[:b.entryIdx], added)
 		return len(winEntries) >= limit || b.cutoff(cutoff), nil
 	})
 
-- 
2.43.0


From 6654a84eba07d0be6a55407648fa5424f80b8086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:08 +0000
Subject: [PATCH 50/59] fix: query missed entries that were synced while the
 query was in progress

---
 db_internal.go | 2 +-
 time_window.go | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/db_internal.go b/db_internal.go
index aecb723..14291db 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -256,7 +256,7 @@ func (db *DB) lookup(q *Query) error {
 	})
 	// newest entries of the query are selected from entries of all of its topics.
 	for _, topic := range topics {
-		wEntries, err := db.internal.timeWindow.lookup(db.fs, topic.hash, topic.offset, q.internal.cutoff, q.Limit)
+		wEntries, err := db.internal.timeWindow.lookup(db.fs, db.internal.trie, topic.hash, q.internal.cutoff, q.Limit)
 		if err != nil {
 			return err
 		}
diff --git a/time_window.go b/time_window.go
index bb92fda..8a9c00b 100644
--- a/time_window.go
+++ b/time_window.go
@@ -263,7 +263,7 @@ func (tw *_TimeWindowBucket) ilookup(topicHash uint64, limit int, added map[uint
 }
 
 // lookup lookups window entries from window file.
-func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, off, cutoff int64, limit int) (winEntries _WindowEntries, err error) {
+func (tw *_TimeWindowBucket) lookup(fs *_FileSet, trie *_Trie, topicHash uint64, cutoff int64, limit int) (winEntries _WindowEntries, err error) {
 	winEntries = make([]_WinEntry, 0)
 	added := make(map[uint64]bool)
 	winEntries = tw.ilookup(topicHash, limit, added)
@@ -274,7 +274,9 @@ func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, off, cutoff
 	if err != nil {
 		return winEntries, err
 	}
-	if off == 0 && winFile.Size() == 0 {
+	// topic offset is read after the window entries, a sync moves the entries to the window file and releases those from the window.
+	off, ok := trie.getOffset(topicHash)
+	if !ok || off == 0 && winFile.Size() == 0 {
 		return winEntries, nil // no entry is synced to the DB.
 	}
 	next := func(blockOff int64, f func(_WinBlock) (bool, error)) error {
-- 
2.43.0


From bd2f0d26850781c9a0f9497ac82c902fcc80d239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:31 +0000
Subject: [PATCH 51/59] fix: get returned entries twice when a query was used
 again

---
 db_internal.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/db_internal.go b/db_internal.go
index 14291db..6f6c417 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -254,6 +254,7 @@ func (db *DB) lookup(q *Query) error {
 	sort.Slice(topics[:], func(i, j int) bool {
 		return topics[i].offset > topics[j].offset
 	})
+	q.internal.winEntries = q.internal.winEntries[:0]
 	// newest entries of the query are selected from entries of all of its topics.
 	for _, topic := range topics {
 		wEntries, err := db.internal.timeWindow.lookup(db.fs, db.internal.trie, topic.hash, q.internal.cutoff, q.Limit)
-- 
2.43.0


From d42d5a0b1318c22f3b1bc0a97b0690d1c81a44e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 52/59] fix: deleted entries took the place of older entries in
 a query with a limit

---
 db.go          | 31 ++++++++++++++++++++++++-------
 db_internal.go |  4 ++--
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/db.go b/db.go
index 99f61b7..cecfe9b 100644
--- a/db.go
+++ b/db.go
@@ -256,9 +256,28 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 	mu := db.internal.mutex.getMutex(q.internal.prefix)
 	mu.RLock()
 	defer mu.RUnlock()
-	if err := db.lookup(q); err != nil {
-		return nil, err
+	var size int64
+	for limit := q.Limit; ; limit *= 2 {
+		if err := db.lookup(q, limit); err != nil {
+			return nil, err
+		}
+		items, size, err = db.readItems(q)
+		if err != nil {
+			return items, err
+		}
+		// entries that are deleted count towards limit of the lookup, lookup older entries in place of those.
+		if len(items) == q.Limit || len(q.internal.winEntries) < limit {
+			break
+		}
 	}
+	db.internal.meter.Gets.Inc(int64(len(items)))
+	db.internal.meter.OutMsgs.Inc(int64(len(items)))
+	db.internal.meter.OutBytes.Inc(size)
+	return items, nil
+}
+
+// readItems reads messages of the window entries of the query.
+func (db *DB) readItems(q *Query) (items [][]byte, size int64, err error) {
 	if len(q.internal.winEntries) == 0 {
 		return
 	}
@@ -313,11 +332,11 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 					return err
 				}
 				items = append(items, val)
-				db.internal.meter.OutBytes.Inc(int64(s.valueSize))
+				size += int64(s.valueSize)
 				return nil
 			}()
 			if err != nil {
-				return items, err
+				return items, size, err
 			}
 		}
 
@@ -336,9 +355,7 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 			}
 		}
 	}
-	db.internal.meter.Gets.Inc(int64(len(items)))
-	db.internal.meter.OutMsgs.Inc(int64(len(items)))
-	return items, nil
+	return items, size, nil
 }
 
 // NewContract generates a new Contract.
diff --git a/db_internal.go b/db_internal.go
index 6f6c417..5ec4bee 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -249,7 +249,7 @@ func (db *DB) readEntry(q _Query) (_IndexEntry, error) {
 // lookups are performed in following order
 // ilookup lookups in memory entries from timeWindow
 // lookup lookups persisted entries from timeWindow file.
-func (db *DB) lookup(q *Query) error {
+func (db *DB) lookup(q *Query, limit int) error {
 	topics := db.internal.trie.lookup(q.internal.parts, q.internal.depth, q.internal.topicType)
 	sort.Slice(topics[:], func(i, j int) bool {
 		return topics[i].offset > topics[j].offset
@@ -257,7 +257,7 @@ func (db *DB) lookup(q *Query) error {
 	q.internal.winEntries = q.internal.winEntries[:0]
 	// newest entries of the query are selected from entries of all of its topics.
 	for _, topic := range topics {
-		wEntries, err := db.internal.timeWindow.lookup(db.fs, db.internal.trie, topic.hash, q.internal.cutoff, q.Limit)
+		wEntries, err := db.internal.timeWindow.lookup(db.fs, db.internal.trie, topic.hash, q.internal.cutoff, limit)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 810138e58803985a4f841b04c964df1efd4272bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:52 +0000
Subject: [PATCH 53/59] fix: expired entries were looked for in one shard only
 and stayed in the database

---
 expiry_window.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/expiry_window.go b/expiry_window.go
index f67b746..db65004 100644
--- a/expiry_window.go
+++ b/expiry_window.go
@@ -93,11 +93,9 @@ func (wb *_ExpiryWindowBucket) getExpiredEntries(maxResults int) []timeWindowEnt
 		return expiredEntries
 	}
 
-	for i := 0; i < wb.maxExpDurations; i++ {
-		// get windows shard.
-		ws := wb.expiryWindows.expiry[i]
+	// expired entries are spread across all shards.
+	for _, ws := range wb.expiryWindows.expiry {
 		ws.mu.Lock()
-		defer ws.mu.Unlock()
 		windowTimes := make([]int64, 0, len(ws.windows))
 		for windowTime := range ws.windows {
 			windowTimes = append(windowTimes, windowTime)
@@ -120,6 +118,7 @@ func (wb *_ExpiryWindowBucket) getExpiredEntries(maxResults int) []timeWindowEnt
 				delete(ws.windows, windowTimes[i])
 			}
 		}
+		ws.mu.Unlock()
 	}
 	atomic.StoreInt64(&wb.earliestExpiryHash, 0)
 	return expiredEntries
-- 
2.43.0


From 6278cce4591d6b9cb12e9dbab17e675d0b5ffed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:04 +0000
Subject: [PATCH 54/59] fix: message ID of a disconnect was dropped and its
 body taken for the next message

---
 server/internal/net/message.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/server/internal/net/message.go b/server/internal/net/message.go
index 51cfb6a..6bc01d7 100644
--- a/server/internal/net/message.go
+++ b/server/internal/net/message.go
@@ -46,10 +46,6 @@ func Read(r io.Reader) (MessagePack, error) {
 		// return &utp.Pingreq{}, nil
 		fmt.Println("message::Read: Invalid zero-length packet type ", fh.MessageType)
 		return nil, fmt.Errorf("message::Read: Invalid zero-length packet type %d", fh.MessageType)
-	case utp.PINGREQ:
-		return &utp.Pingreq{}, nil
-	case utp.DISCONNECT:
-		return &utp.Disconnect{}, nil
 	}
 
 	if fh.MessageLength < 0 {
@@ -83,6 +79,10 @@ func Read(r io.Reader) (MessagePack, error) {
 		pack = &utp.Subscribe{}
 	case utp.UNSUBSCRIBE:
 		pack = &utp.Unsubscribe{}
+	case utp.PINGREQ:
+		pack = &utp.Pingreq{}
+	case utp.DISCONNECT:
+		pack = &utp.Disconnect{}
 	default:
 		return nil, fmt.Errorf("message::Read: Invalid zero-length packet type %d", fh.MessageType)
 	}
-- 
2.43.0


From 1fa975ad6ad94ec374d4212080d5d9e664fd32b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:14 +0000
Subject: [PATCH 55/59] fix: reliable messages of two publishers with the same
 ID took each other's place, and were delivered with the publisher's key

---
 server/internal/conn.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index 1d37e29..b5317c5 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -272,38 +272,45 @@ func (c *_Conn) publish(pub utp.Publish, topic *security.Topic, pubMsg *utp.Publ
 		Payload:   pubMsg.Payload,
 	}
 	for _, subscription := range subscriptions {
-		msg.DeliveryMode = subscription[0]
 		connID := uid.LID(binary.LittleEndian.Uint32(subscription[1:5]))
-		msg.Delay = int32(uid.LID(binary.LittleEndian.Uint32(subscription[5:9])))
 		sub := Globals.connCache.get(connID)
 		if sub != nil {
-			if msg.MessageID == 0 {
-				msg.MessageID = uint16(c.MessageIds.NextID(utp.PUBLISH))
+			// The ID of the message is local to the subscriber, its connection hands it out.
+			subMsg := &message.Message{
+				DeliveryMode: subscription[0],
+				Delay:        int32(uid.LID(binary.LittleEndian.Uint32(subscription[5:9]))),
+				Topic:        msg.Topic,
+				Payload:      msg.Payload,
 			}
 			switch pub.DeliveryMode {
 			// Publisher's DeliveryMode RELIABLE or BATCH
 			case 1, 2:
-				switch msg.DeliveryMode {
+				switch subMsg.DeliveryMode {
 				// Subscriber's DeliveryMode RELIABLE or BATCH
 				case 1, 2:
+					outMsg := &utp.Publish{
+						MessageID:    uint16(sub.MessageIds.NextID(utp.PUBLISH)),
+						DeliveryMode: pub.DeliveryMode,
+						Messages:     []*utp.PublishMessage{{Topic: subMsg.Topic, Payload: subMsg.Payload}},
+					}
 					notify := &utp.ControlMessage{
 						MessageType: utp.PUBLISH,
 						FlowControl: utp.NOTIFY,
-						MessageID:   msg.MessageID,
+						MessageID:   outMsg.MessageID,
 					}
 					// persist outbound
-					store.Log.PersistOutbound(uint32(sub.sessID), &pub)
+					store.Log.PersistOutbound(uint32(sub.sessID), outMsg)
 					sub.sendPack(notify)
 				// Subscriber's DeliveryMode EXPRESS
 				case 0:
-					if !sub.SendMessage(msg) {
+					if !sub.SendMessage(subMsg) {
 						log.ErrLogger.Err(err).Str("context", "conn.publish")
 					}
 					msgCount++
 				}
 			// Publisher's DeliveryMode Express
 			case 0:
-				if !sub.SendMessage(msg) {
+				if !sub.SendMessage(subMsg) {
 					log.ErrLogger.Err(err).Str("context", "conn.publish")
 				}
 				msgCount++
-- 
2.43.0


From b3ba0639c2927dd3d077ac4bbd2b8fb1768907e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:47 +0000
Subject: [PATCH 56/59] fix: message IDs in use were handed out again once 16
 bits were exhausted, and were never freed

---
 server/internal/conn.go               | 18 ++++++++++++------
 server/internal/hdl_conn.go           |  1 +
 server/internal/message/messageids.go | 22 +++++++++++++++++++---
 3 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index b5317c5..0a86d82 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -128,6 +128,13 @@ func (c *_Conn) SendMessage(msg *message.Message) bool {
 		Topic:   msg.Topic,   // The topic for this message.
 		Payload: msg.Payload, // The payload for this message.
 	}
+
+	// Check batch, relay or delay delivery.
+	if msg.DeliveryMode == 2 || msg.Delay > 0 {
+		c.batchManager.add(msg.Delay, pubMsg)
+		return true
+	}
+
 	if msg.MessageID == 0 {
 		msg.MessageID = uint16(c.MessageIds.NextID(utp.PUBLISH))
 	}
@@ -137,12 +144,6 @@ func (c *_Conn) SendMessage(msg *message.Message) bool {
 		Messages:     []*utp.PublishMessage{pubMsg},
 	}
 
-	// Check batch, relay or delay delivery.
-	if msg.DeliveryMode == 2 || msg.Delay > 0 {
-		c.batchManager.add(msg.Delay, pubMsg)
-		return true
-	}
-
 	// persist outbound
 	store.Log.PersistOutbound(uint32(c.sessID), pub)
 
@@ -153,6 +154,11 @@ func (c *_Conn) SendMessage(msg *message.Message) bool {
 		return false
 	}
 
+	// There is no exchange to complete for an express message.
+	if msg.DeliveryMode == 0 {
+		c.MessageIds.FreeID(message.MID(pub.MessageID))
+	}
+
 	return true
 }
 
diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 18fbe7f..bfb407f 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -276,6 +276,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 				MessageID:   ctrlMsg.MessageID,
 			}
 			c.storeOutbound(comp)
+			c.MessageIds.FreeID(message.MID(ctrlMsg.MessageID))
 			c.sendPack(comp)
 		}
 	}
diff --git a/server/internal/message/messageids.go b/server/internal/message/messageids.go
index 34bbf8f..8972f69 100644
--- a/server/internal/message/messageids.go
+++ b/server/internal/message/messageids.go
@@ -25,6 +25,9 @@ import (
 // MID is 32-bit local message identifier
 type MID int32
 
+// maxID is the largest message identifier, identifiers have 16 bits on the wire.
+const maxID MID = 1<<16 - 1
+
 type MessageIds struct {
 	sync.RWMutex
 	id     MID
@@ -55,19 +58,32 @@ func (mids *MessageIds) FreeID(id MID) {
 	mids.Lock()
 	defer mids.Unlock()
 	delete(mids.index, id)
+	delete(mids.resume, id)
 }
 
 func (mids *MessageIds) NextID(pktType utp.MessageType) MID {
 	mids.Lock()
 	defer mids.Unlock()
-	mids.id++
-	for _, ok := mids.resume[mids.id]; ok; _, ok = mids.resume[mids.id] {
-		mids.id++
+	// An identifier in use is taken over only if there is no other.
+	for i := MID(0); i < maxID; i++ {
+		mids.id = mids.id%maxID + 1
+		if !mids.inUse(mids.id) {
+			break
+		}
 	}
 	mids.index[mids.id] = pktType
 	return mids.id
 }
 
+// inUse returns whether the message with the identifier is still in flight.
+func (mids *MessageIds) inUse(id MID) bool {
+	if _, ok := mids.resume[id]; ok {
+		return true
+	}
+	_, ok := mids.index[id]
+	return ok
+}
+
 func (mids *MessageIds) GetType(id MID) utp.MessageType {
 	mids.RLock()
 	defer mids.RUnlock()
-- 
2.43.0


From 5145ddbb1f9b06ee6e067b6dc8b1e779d2a65db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:03 +0000
Subject: [PATCH 57/59] fix: subscriptions of several topics with one key, or
 without a key, were not stored or not removed

---
 server/internal/conn.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index 0a86d82..961c1ea 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -197,14 +197,8 @@ func (c *_Conn) subscribe(subMsg utp.Subscribe, topic *security.Topic, sub *utp.
 	c.Lock()
 	defer c.Unlock()
 
-	key := string(topic.Key)
-	if key == "" {
-		key, err = security.GenerateKey(c.clientID.Contract(), topic.Topic, security.AllowNone)
-		if err != nil {
-			log.ErrLogger.Err(err).Str("context", "conn.subscribe")
-			return err
-		}
-	}
+	// A key is good for several topics, subscriptions are counted for each topic.
+	key := topic.Topic[:topic.Size]
 	if exists := c.subs.Exist(key); exists && !subMsg.IsForwarded && Globals.Cluster.isRemoteContract(fmt.Sprint(c.clientID.Contract())) {
 		// The contract is handled by a remote node. Forward message to it.
 		if err := Globals.Cluster.routeToContract(&subMsg, topic, message.SUBSCRIBE, &message.Message{}, c); err != nil {
@@ -225,6 +219,7 @@ func (c *_Conn) subscribe(subMsg utp.Subscribe, topic *security.Topic, sub *utp.
 			binary.LittleEndian.PutUint32(payload[5:9], uint32(sub.Delay))
 			if err = store.Subscription.Put(c.clientID.Contract(), messageId, topic.Topic, payload); err != nil {
 				log.ErrLogger.Err(err).Str("context", "conn.subscribe").Str("topic", string(topic.Topic[:topic.Size])).Int64("connid", int64(c.connID)).Msg("unable to subscribe to topic") // Unable to subscribe
+				c.subs.Decrement(topic.Topic[:topic.Size], key)
 				return err
 			}
 			// Increment the subscription counter
@@ -239,12 +234,13 @@ func (c *_Conn) unsubscribe(unsubMsg utp.Unsubscribe, topic *security.Topic) (er
 	c.Lock()
 	defer c.Unlock()
 
-	key := string(topic.Key)
+	key := topic.Topic[:topic.Size]
 	// Remove the subscription from stats and if there's no more subscriptions, notify everyone.
 	if last, messageID := c.subs.Decrement(topic.Topic[:topic.Size], key); last {
 		// Unsubscribe the subscriber
 		if err = store.Subscription.Delete(c.clientID.Contract(), messageID, topic.Topic[:topic.Size]); err != nil {
 			log.ErrLogger.Err(err).Str("context", "conn.unsubscribe").Str("topic", string(topic.Topic[:topic.Size])).Int64("connid", int64(c.connID)).Msg("unable to unsubscribe to topic") // Unable to subscribe
+			c.subs.Increment(topic.Topic[:topic.Size], key, messageID)
 			return err
 		}
 		// Decrement the subscription counter
-- 
2.43.0


From 6efe6b96fc2ff89f550f471bcb7fbccf6ad60c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:07 +0000
Subject: [PATCH 58/59] fix: a forged client ID was accepted if four characters
 of it matched a known one

---
 server/internal/hdl_conn.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index bfb407f..73977e7 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -28,7 +28,6 @@ import (
 	"github.com/unit-io/unitdb/server/internal/message"
 	"github.com/unit-io/unitdb/server/internal/message/security"
 	lp "github.com/unit-io/unitdb/server/internal/net"
-	"github.com/unit-io/unitdb/server/internal/pkg/crypto"
 	"github.com/unit-io/unitdb/server/internal/pkg/log"
 	"github.com/unit-io/unitdb/server/internal/pkg/stats"
 	"github.com/unit-io/unitdb/server/internal/pkg/uid"
@@ -331,7 +330,7 @@ func (c *_Conn) onConnect(clientID []byte) (uid.ID, *types.Error) {
 	defer log.ErrLogger.Debug().Str("context", "conn.onConnect").Int64("duration", time.Since(start).Nanoseconds()).Msg("")
 	var clientid = uid.ID{}
 	if clientID != nil && len(clientID) > c.service.mac.Overhead() {
-		if contract, ok := c.service.cache.Load(crypto.SignatureToUint32(clientID[crypto.EpochSize:crypto.MessageOffset])); ok {
+		if contract, ok := c.service.cache.Load(string(clientID)); ok {
 			clientid, err := uid.CachedClientID(contract.(uint32))
 			if err != nil {
 				return nil, types.ErrUnauthorized
@@ -353,8 +352,7 @@ func (c *_Conn) onConnect(clientID []byte) (uid.ID, *types.Error) {
 
 	//do not cache primary client Id
 	if !clientid.IsPrimary() {
-		cid := []byte(clientid.Encode(c.service.mac))
-		c.service.cache.LoadOrStore(crypto.SignatureToUint32(cid[crypto.EpochSize:crypto.MessageOffset]), clientid.Contract())
+		c.service.cache.LoadOrStore(clientid.Encode(c.service.mac), clientid.Contract())
 	}
 
 	return clientid, nil
-- 
2.43.0


From 088243e58fda67e6c43d1836d114dfdd7de65c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:49 +0000
Subject: [PATCH 59/59] fix: a second connect request left the first client's
 subscriptions and batches behind

---
 server/internal/hdl_conn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 73977e7..3988821 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -96,6 +96,12 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 	switch inMsg.Type() {
 	// An attempt to connect.
 	case utp.CONNECT:
+		// A client connects once, its subscriptions and batches belong to the ID it connected with.
+		if c.clientID != nil {
+			status = types.ErrBadRequest.Status
+			return types.ErrBadRequest
+		}
+
 		var returnCode uint8
 		m := *inMsg.(*utp.Connect)
 
-- 
2.43.0

