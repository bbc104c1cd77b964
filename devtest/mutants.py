# (check, file, old, new); '=' before the check: the edit keeps the behaviour and must not be reported
M = [
('C08', 'file.go', '			if err := f.Sync(); err != nil {\n				return err\n			}', '			f.Sync()'),
('C08', 'db_sync.go', '			wOff, err := db.windowWriter.append(h, topicOff, winEntries[h])\n			if err != nil {\n				return true, err\n			}', '			wOff, err := db.windowWriter.append(h, topicOff, winEntries[h])\n			if err != nil {\n				continue\n			}'),
('C03', 'db_sync.go', '		if err1 != nil {\n			fmt.Println("db.sync: error ", err1)\n			return true, err1\n		}\n', ''),
('C03', 'db_sync.go', '		if err := db.sync(false); err != nil {\n			fmt.Println("db.sync: sync error ", err)\n			return true, err\n		}', '		if err := db.sync(false); err != nil {\n			fmt.Println("db.sync: sync error ", err)\n		}\n		db.syncInfo.syncComplete = true'),
('C03', 'memdb/db.go', 'if timeID < db.timeID() {', 'if timeID <= db.timeID() {'),
('C03', 'memdb/db.go', 'if block.count == 0 {', 'if block.count <= 1 {'),
('C03', 'memdb/recovery.go', '			if len(block.records) == 0 {\n				err = db.drop(timeID, block)', '			if len(block.records) <= 1 {\n				err = db.drop(timeID, block)'),
('C03', 'memdb/batch.go', '	b.batchGroup = b.batchGroup[:0]\n\n	return nil', '	return nil'),
('C03', 'wal/wal.go', '	return wal, wal.recoverWal()', '	wal.logStore.reset()\n	return wal, wal.recoverWal()'),
('C03', 'memdb/db_internal.go', 'block.timeRefs = append(block.timeRefs, tinyLog.ID())', 'block.timeRefs = append(block.timeRefs, tinyLog.timeID())'),
('C03', 'memdb/db_internal.go', 'if err := db.internal.wal.SignalLogApplied(int64(timeRef)); err != nil {', 'if err := db.internal.wal.SignalLogApplied(int64(timeID)); err != nil {\n			_ = timeRef'),
('C03', 'db_sync.go', '				if err == errEntryExist {\n					continue', '				if err == errEntryExist || err == errEntryInvalid {\n					continue'),
('C03', 'db_sync.go', '	if err := db.windowWriter.write(); err != nil {\n		logger.Error().Err(err).Str("context", "timeWindow.write")\n		return err\n	}\n', ''),
('=C03', 'db_sync.go', '		if db.syncInfo.syncComplete {\n			if err := timeRelease(timeID); err != nil {\n				return false, err\n			}\n			if err := db.internal.mem.Free(timeID); err != nil {\n				return true, err\n			}\n		}\n\n		return false, nil', '		if !db.syncInfo.syncComplete {\n			return false, nil\n		}\n		if err := timeRelease(timeID); err != nil {\n			return false, err\n		}\n		err := db.internal.mem.Free(timeID)\n		return err != nil, err'),
('=C08', 'file.go', '	for _, files := range fs.list {\n		for _, f := range files.fileMap {\n			if err := f.Sync(); err != nil {\n				return err\n			}\n		}\n	}\n	return nil', '	var err error\n	for _, files := range fs.list {\n		for _, f := range files.fileMap {\n			if err = f.Sync(); err != nil {\n				break\n			}\n		}\n		if err != nil {\n			break\n		}\n	}\n	return err'),

# C04
('C04', 'db_sync.go', '	if err := db.windowWriter.write(); err != nil {\n		logger.Error().Err(err).Str("context", "timeWindow.write")\n		return err\n	}\n', ''),
('C04', 'db_sync.go', '	if err := db.fs.sync(); err != nil {\n		return err\n	}\n\n	return nil', '	return nil'),
('C04', 'db_sync.go', '	if err := db.DB.sync(); err != nil {\n		db.decount(uint64(db.syncInfo.count))\n		return err\n	}', '	if err := db.DB.sync(); err != nil {\n		db.decount(uint64(db.syncInfo.count))\n	}'),
('C04', 'block_writer.go', 'if !b.leased || !b.dirty {', 'if !b.leased || b.dirty {'),
('C04', 'block_writer.go', 'bIdx <= blocks[1]', 'bIdx < blocks[1]'),
('C04', 'block_writer.go', '	w.buffer.Reset()\n	for bIdx, b', '	for bIdx, b'),
('C04', 'block_writer.go', '	if _, err := w.dataFile.write(w.buffer.Bytes()); err != nil {\n		return err\n	}\n\n	// Reset', '	// Reset'),
('C04', 'block_writer.go', '		if w.indexBlocks[bIdx].leased || !w.indexBlocks[bIdx].dirty {\n', '		if w.indexBlocks[bIdx].leased || !w.indexBlocks[bIdx].dirty || bIdx == w.blockIdx {\n'),
('C04', 'file.go', '	for _, files := range fs.list {\n		for _, f := range files.fileMap {\n			if err := f.Sync(); err != nil {', '	for _, files := range fs.list {\n		for _, f := range files.fileMap {\n			if f.size == 0 {\n				continue\n			}\n			if err := f.Sync(); err != nil {'),
('C04', 'db_sync.go', '	db.incount(uint64(db.syncInfo.count))\n	if err := db.DB.sync()', '	defer db.incount(uint64(db.syncInfo.count))\n	if err := db.DB.sync()'),
('C04', [('db_sync.go', '	if err := db.fs.sync(); err != nil {\n		return err\n	}\n\n	return nil', '	return nil'), ('db_sync.go', '	db.incount(uint64(db.syncInfo.count))\n', '	if err := db.fs.sync(); err != nil {\n		return err\n	}\n	db.incount(uint64(db.syncInfo.count))\n')], 0, 0),
('=C04', [('db_sync.go', '	db.incount(uint64(db.syncInfo.count))\n	if err := db.DB.sync(); err != nil {\n		db.decount(uint64(db.syncInfo.count))\n		return err\n	}', '	if err := db.persist(); err != nil {\n		return err\n	}'), ('db_sync.go', '// Sync syncs entries', 'func (db *_SyncHandle) persist() error {\n	n := uint64(db.syncInfo.count)\n	db.incount(n)\n	err := db.DB.sync()\n	if err != nil {\n		db.decount(n)\n	}\n	return err\n}\n\n// Sync syncs entries')], 0, 0),
('=C04', 'block_writer.go', '	for bIdx, b := range w.indexBlocks {\n		if !b.leased || !b.dirty {\n			continue\n		}', '	for bIdx := range w.indexBlocks {\n		b := w.indexBlocks[bIdx]\n		if !(b.leased && b.dirty) {\n			continue\n		}'),
('=C04', 'block_writer.go', '		for bIdx := blocks[0]; bIdx <= blocks[1]; bIdx++ {\n', '		for bIdx := blocks[0]; bIdx < blocks[1]+1; bIdx++ {\n'),
# C05
('C05', 'db_sync.go', '		db.syncInfo.syncComplete = false\n		db.abort()\n	}\n\n	return err', '		db.syncInfo.syncComplete = false\n	}\n\n	return err'),
('C05', 'db_sync.go', '		db.decount(uint64(db.syncInfo.count))\n		return err', '		return err'),
('C05', 'block_writer.go', '	if err := saveBlocks(w.indexFile, w.undo, off, off+int64(len(data)), w.indexOffset); err != nil {\n		return err\n	}\n', ''),
('C05', 'block_writer.go', 'saveBlocks(w.indexFile, w.undo, off, off+int64(len(data)), w.indexOffset)', 'saveBlocks(w.indexFile, w.undo, off, off+int64(blockSize), w.indexOffset)'),
('C05', 'block_writer.go', 'w.indexFile.truncate(w.indexOffset)', 'w.indexFile.truncate(w.indexFile.currSize())'),
('C05', 'block_writer.go', '	if err1 := w.dataFile.truncate(w.dataOffset); err1 != nil && err == nil {\n		err = err1\n	}\n', ''),
('C05', 'block_writer.go', '	for off, size := range w.dataLeases {\n		w.lease.freeBlock(off, size)\n	}\n', ''),
('C05', 'block_writer.go', '		w.dataLeases[off] = uint32(dataLen)\n', ''),
('C05', 'db_sync.go', '	err := db.windowWriter.abort()\n\n	if err1', '	var err error\n	if err1'),
('=C05', 'db_sync.go', '		if err1 := db.abort(); err1 != nil && err == nil {\n			err = err1\n		}', '		db.abort()'),
('C05', 'db_sync.go', '	if db.syncInfo.syncComplete {\n		return nil\n	}\n	// Rollback', '	if db.syncInfo.syncStatusOk {\n		return nil\n	}\n	// Rollback'),
('C05', 'db_sync.go', '			db.topicOffsets[h] = wOff\n', '			db.topicOffsets[h] = wOff\n			db.internal.trie.setOffset(_Topic{hash: h, offset: wOff})\n'),
('C05', 'recovery.go', '		db.topicOffsets[h] = wOff\n', '		db.topicOffsets[h] = wOff\n		db.internal.trie.setOffset(_Topic{hash: h, offset: wOff})\n'),
('C05', 'db_sync.go', '	db.topicOffsets = make(map[uint64]int64)\n	db.syncInfo.count = 0', '	db.syncInfo.count = 0'),
('C05', [('db_sync.go', '	// topic offsets are set after window blocks are written as those are read by queries.\n	for h, off := range db.topicOffsets {\n		db.internal.trie.setOffset(_Topic{hash: h, offset: off})\n	}\n', ''), ('db_sync.go', '	if err := db.blockWriter.write(); err != nil {', '	for h, off := range db.topicOffsets {\n		db.internal.trie.setOffset(_Topic{hash: h, offset: off})\n	}\n	if err := db.blockWriter.write(); err != nil {')], 0, 0),
('=C05', 'db_sync.go', '	db.topicOffsets = make(map[uint64]int64)\n	db.syncInfo.count = 0', '	for h := range db.topicOffsets {\n		delete(db.topicOffsets, h)\n	}\n	db.syncInfo.count = 0'),
('C05', 'db_sync.go', '	db.syncInfo.syncComplete = false\n	defer', '	defer'),
('C05', 'block_writer.go', '	w.dataOffset = w.dataFile.currSize()\n	w.offset = w.dataOffset\n\n	w.undo', '	w.dataOffset = w.offset\n\n	w.undo'),
('C05', 'db_sync.go', '	if err := db.blockWriter.write(); err != nil {\n		logger.Error().Err(err).Str("context", "block.write")\n		return err\n	}', '	if err := db.blockWriter.write(); err != nil {\n		logger.Error().Err(err).Str("context", "block.write")\n		return nil\n	}'),
('=C05', 'db_sync.go', '		if db.syncInfo.syncComplete {\n			if err := timeRelease', '		{\n			if err := timeRelease'),
('=C05', 'db_sync.go', '	defer func() {\n		if err1 := db.abort(); err1 != nil && err == nil {\n			err = err1\n		}\n	}()\n', '	defer func() {\n		abortErr := db.abort()\n		if err == nil {\n			err = abortErr\n		}\n	}()\n'),
('=C05', 'block_writer.go', '	err := w.rollback()\n	if err1 := w.indexFile.truncate(w.indexOffset); err1 != nil && err == nil {\n		err = err1\n	}\n	if err1 := w.dataFile.truncate(w.dataOffset); err1 != nil && err == nil {\n		err = err1\n	}\n\n	return err', '	errR := w.rollback()\n	errD := w.dataFile.truncate(w.dataOffset)\n	errI := w.indexFile.truncate(w.indexOffset)\n	if errR != nil {\n		return errR\n	}\n	if errI != nil {\n		return errI\n	}\n	return errD'),
# C06
('C06', 'wal/wal.go', '	return wal, wal.recoverWal()', '	wal.recoverWal()\n	return wal, nil'),
('C06', 'wal/wal.go', '	wal.recoveredTimeIDs, err = wal.logStore.all()\n	return err', '	ids, err := wal.logStore.all()\n	if len(ids) > 0 {\n		wal.recoveredTimeIDs = ids[:len(ids)-1]\n	}\n	return err'),
('C06', 'wal/file.go', '		if !strings.HasSuffix(name, logExt) {', '		if !strings.HasSuffix(name, logExt) || f.Size() < 64 {'),
('C06', 'wal/reader.go', '		if err != nil {\n			return err\n		}\n		r.entryCount', '		if err != nil {\n			continue\n		}\n		r.entryCount'),
('C06', 'wal/reader.go', '		r.entryCount = info.count\n', '		r.entryCount = info.count\n		if info.count == 0 {\n			break\n		}\n'),
('C06', 'memdb/db.go', '		if err := db.startRecovery(); err != nil {\n			wal.Close()\n			return nil, err\n		}', '		if err := db.startRecovery(); err != nil {\n			wal.Close()\n		}'),
('C06', 'memdb/recovery.go', 'if dBit == 1 && len(val) >= 8 {', 'if _, dup := log[key]; dup {\n					continue\n				}\n				if dBit == 1 && len(val) >= 8 {'),
('C06', 'memdb/recovery.go', '			for key, val := range log {\n', '			for key, val := range log {\n				if len(val) == 0 {\n					continue\n				}\n'),
('C06', 'memdb/recovery.go', '			block.timeRefs = append(block.timeRefs, _TimeID(ID))\n', ''),
('C06', 'memdb/recovery.go', '		} else {\n			for _, key := range keys {\n				if err := db.delete(key); err != nil && err != errEntryDoesNotExist {\n					return err\n				}\n			}\n		}', '		}'),
('C06', 'memdb/recovery.go', '					if err := db.delete(key); err != nil && err != errEntryDoesNotExist {\n						return err\n					}\n					continue', '					continue'),
('C06', 'memdb/recovery.go', '		if stop, err := f(int64(timeID), keys); stop || err != nil {\n			return err\n		}\n	}\n\n	return nil', '		if stop, err := f(int64(timeID), keys); stop || err != nil {\n			return err\n		}\n		break\n	}\n\n	return nil'),
('C06', 'memdb/time_mark.go', '	for timeID, _ := range tm.releasedRecords {\n', '	for timeID, r := range tm.releasedRecords {\n		if r.refs > 0 {\n			continue\n		}\n'),
('C06', 'db.go', '		logger.Error().Err(err).Str("context", "db.recoverLog")\n		db.internal.mem.Close()\n		db.fs.close()\n		return nil, err', '		logger.Error().Err(err).Str("context", "db.recoverLog")'),
('C06', 'recovery.go', '		db.raiseSeq(seq)\n', '		if seq < db.seq()+1000 {\n			db.raiseSeq(seq)\n		}\n'),
('C06', 'recovery.go', '				if _, ok := pendingEntries[h]; ok {\n					pendingEntries[h] = append(pendingEntries[h], winEntries[h]...)\n				} else {\n					pendingEntries[h] = winEntries[h]\n				}\n				delete', '				if _, ok := pendingEntries[h]; !ok {\n					pendingEntries[h] = winEntries[h]\n				}\n				delete'),
('C06', 'recovery.go', '	if err := db.recoverWindowBlocks(pendingEntries); err != nil {\n		logger.Error().Err(err).Str("context", "db.recoverWindowBlocks")\n		return err\n	}\n', ''),
('C06', 'recovery.go', '			if m.topicSize != 0 {\n', '			if m.valueSize == 0 {\n				continue\n			}\n			if m.topicSize != 0 {\n'),
('C06', 'db.go', '	if err := db.recoverLog(); err != nil {\n', '	if err := db.recoverLog(); err != nil && db.internal.dbInfo.count > 0 {\n'),
('=C06', 'memdb/recovery.go', '			for key, val := range log {\n				ikey := iKey(false, key)\n				if err := block.put(ikey, val); err != nil {\n					block.Unlock()\n					return false, err\n				}', '			for key := range log {\n				if err := block.put(iKey(false, key), log[key]); err != nil {\n					block.Unlock()\n					return false, err\n				}'),
('=C06', 'memdb/recovery.go', '	for timeID, keys := range delKeys {\n', '	if len(delKeys) == 0 {\n		return nil\n	}\n	for timeID, keys := range delKeys {\n'),
('=C06', [('wal/reader.go', '	for _, timeID := range r.wal.recoveredTimeIDs {\n		r.offset = 0\n		r.buffer.Reset()\n		info, err := r.wal.logStore.read(timeID, r.buffer)\n		if err != nil {\n			return err\n		}\n		r.entryCount = info.count\n', '	for i := 0; i < len(r.wal.recoveredTimeIDs); i++ {\n		timeID := r.wal.recoveredTimeIDs[i]\n		if err := r.load(timeID); err != nil {\n			return err\n		}\n'), ('wal/reader.go', '// Count returns', 'func (r *Reader) load(timeID int64) error {\n	r.offset = 0\n	r.buffer.Reset()\n	info, err := r.wal.logStore.read(timeID, r.buffer)\n	if err == nil {\n		r.entryCount = info.count\n	}\n	return err\n}\n\n// Count returns')], 0, 0),
('=C06', 'recovery.go', '			if _, ok := winEntries[m.topicHash]; ok {\n				winEntries[m.topicHash] = append(winEntries[m.topicHash], newWinEntry(e.seq, m.expiresAt))\n			} else {\n				winEntries[m.topicHash] = _WindowEntries{newWinEntry(m.seq, m.expiresAt)}\n			}', '			winEntries[m.topicHash] = append(winEntries[m.topicHash], newWinEntry(e.seq, m.expiresAt))'),
('=C06', 'memdb/recovery.go', '	for timeID, keys := range delKeys {\n		if block, exists := db.timeBlocks[timeID]; exists {\n', '	for timeID := range delKeys {\n		keys := delKeys[timeID]\n		block, exists := db.timeBlocks[timeID]\n		if exists {\n'),
# C20
('C20', 'trie.go', '	t.RLock()\n	defer t.RUnlock()\n	t.ilookup', '	t.ilookup'),
('C20', 'trie.go', '	t.Lock()\n	defer t.Unlock()\n	if curr, ok := t.topicTrie.summary[topic.hash]; ok {\n		curr.topics', '	t.RLock()\n	defer t.RUnlock()\n	if curr, ok := t.topicTrie.summary[topic.hash]; ok {\n		curr.topics'),
('C20', 'trie.go', '	t.Lock()\n	defer t.Unlock()\n	if _, ok := t.topicTrie.summary[topic.hash]; ok {\n		return false\n	}\n', '	t.Lock()\n	if _, ok := t.topicTrie.summary[topic.hash]; ok {\n		t.Unlock()\n		return false\n	}\n	t.Unlock()\n'),
('C20', 'time_window.go', '	b.mu.RLock()\n	defer b.mu.RUnlock()\n', ''),
('C20', 'time_window.go', '			b.mu.Lock()\n			delete(b.entries, k)\n			b.mu.Unlock()', '			delete(b.entries, k)'),
('C20', 'leasing.go', '	fbs.Lock()\n	defer fbs.Unlock()\n	i := fbs.search(size)', '	fbs.RLock()\n	i := fbs.search(size)\n	fbs.RUnlock()'),
('C20', 'leasing.go', '		fbs.Lock()\n		fbs.defrag()\n		fbs.Unlock()\n', '		fbs.defrag()\n'),
('C20', 'leasing.go', '	atomic.AddInt64(&l.size, -int64(size))', '	l.size -= int64(size)'),
('C20', 'filter/bloom.go', '	b.lock.Lock()\n	defer b.lock.Unlock()\n', ''),
('C20', 'memdb/db_internal.go', '	db.mu.RLock()\n	defer db.mu.RUnlock()\n	if b, ok := db.timeBlocks[timeID]; ok {', '	if b, ok := db.timeBlocks[timeID]; ok {'),
('C20', 'memdb/db_internal.go', '	db.mu.Lock()\n	defer db.mu.Unlock()\n	delete(db.timeBlocks, _TimeID(timeID))', '	db.mu.RLock()\n	defer db.mu.RUnlock()\n	delete(db.timeBlocks, _TimeID(timeID))'),
('C20', 'memdb/db_internal.go', '	block.Lock()\n	defer block.Unlock()\n	if block.records == nil {\n		// block is already', '	if block.records == nil {\n		// block is already'),
('C20', 'memdb/db_internal.go', '	db.internal.queryManager.Lock()\n	delete(db.internal.queryManager.timeBlocks, timeID)\n	db.internal.queryManager.Unlock()\n', '	delete(db.internal.queryManager.timeBlocks, timeID)\n'),
('C20', 'memdb/time_mark.go', '	tm.Lock()\n	defer tm.Unlock()\n\n	timeMark, ok', '	timeMark, ok'),
('C20', 'server/internal/conn_cache.go', '	cc.Lock()\n	defer cc.Unlock()\n	delete(', '	delete('),
('C20', 'server/internal/message/messageids.go', '	mids.RLock()\n	defer mids.RUnlock()\n	return mids.index[id]', '	return mids.index[id]'),
('C20', 'server/internal/message/messageids.go', '	mids.Lock()\n	defer mids.Unlock()\n	mids.resume[id]', '	mids.RLock()\n	defer mids.RUnlock()\n	mids.resume[id]'),
('C20', 'server/internal/batch.go', '			m.mu.Lock()\n			for timeID, batch', '			for timeID, batch'),
('C20', 'db_internal.go', '	return atomic.LoadUint64(&db.internal.dbInfo.sequence)', '	return db.internal.dbInfo.sequence'),
('C20', 'memdb/tiny_log.go', '	p.mu.RLock()\n	defer p.mu.RUnlock()\n	return p.tinyLog.timeID()', '	return p.tinyLog.timeID()'),
('=C20', 'trie.go', '	t.RLock()\n	defer t.RUnlock()\n	t.ilookup(query, depth, topicType, &tops, t.topicTrie.root)\n	return\n', '	t.RLock()\n	t.ilookup(query, depth, topicType, &tops, t.topicTrie.root)\n	t.RUnlock()\n	return tops\n'),
('=C20', [('leasing.go', '		fbs.Lock()\n		fbs.defrag()\n		fbs.Unlock()\n', '		fbs.lockedDefrag()\n'), ('leasing.go', 'func (l *_Lease) defrag() {', 'func (b *_FreeBlocks) lockedDefrag() {\n	b.Lock()\n	defer b.Unlock()\n	b.defrag()\n}\n\nfunc (l *_Lease) defrag() {')], 0, 0),
('=C20', [('memdb/db_internal.go', '	if b, ok := db.timeBlocks[timeID]; ok {\n		return b, true\n	}\n\n	return nil, false', '	return db.lookupBlock(timeID)'), ('memdb/db_internal.go', 'func (db *DB) timeBlock(', 'func (db *DB) lookupBlock(timeID _TimeID) (*_Block, bool) {\n	b, ok := db.timeBlocks[timeID]\n	if !ok {\n		return nil, false\n	}\n	return b, true\n}\n\nfunc (db *DB) timeBlock(')], 0, 0),
('=C20', [('time_window.go', '	if _, ok := b.entries[key]; ok {\n		b.entries[key] = append(b.entries[key], e)\n	} else {\n		b.entries[key] = _WindowEntries{e}\n	}\n	return true', '	b.push(key, e)\n	return true'), ('time_window.go', 'func (tw *_TimeWindowBucket) add(', 'func (w *_TimeWindow) push(key _Key, e _WinEntry) {\n	for i := 0; i < 1; i++ {\n		w.entries[key] = append(w.entries[key], e)\n	}\n}\n\nfunc (tw *_TimeWindowBucket) add(')], 0, 0),
('=C20', 'server/internal/conn_cache.go', '	cc.Lock()\n	defer cc.Unlock()\n	if conn := cc.connections[connID]; conn != nil {\n		return conn\n	}\n\n	return nil', '	cc.RLock()\n	conn := cc.connections[connID]\n	cc.RUnlock()\n	return conn'),
('=C20', 'memdb/time_mark.go', '	tm.Lock()\n	defer tm.Unlock()\n\n	timeMark, ok', '	func() {\n		tm.Lock()\n	}()\n	defer func() {\n		tm.Unlock()\n	}()\n\n	timeMark, ok'),
# C21
('C21', 'memdb/db.go', '			if err := block.delete(key); err != nil {\n				block.Unlock()\n				return err\n			}', '			if err := block.delete(key); err != nil {\n				return err\n			}'),
('C21', 'memdb/tiny_log.go', '	if p.closed {\n		p.mu.RUnlock()\n		return errClosed\n	}', '	if p.closed {\n		return errClosed\n	}'),
('C21', 'memdb/db_internal.go', '	db.internal.queryManager.Lock()\n	delete(db.internal.queryManager.timeBlocks, timeID)\n	db.internal.queryManager.Unlock()\n\n	block.Lock()\n	defer block.Unlock()\n', '	block.Lock()\n	defer block.Unlock()\n	db.internal.queryManager.Lock()\n	delete(db.internal.queryManager.timeBlocks, timeID)\n	db.internal.queryManager.Unlock()\n'),
('C21', 'trie.go', '	t.Lock()\n	defer t.Unlock()\n	if _, ok := t.topicTrie.summary[topic.hash]; ok {\n		return false\n	}\n', '	t.Lock()\n	defer t.Unlock()\n	if t.Count() == 0 {\n		t.topicTrie.root.depth = 0\n	}\n	if _, ok := t.topicTrie.summary[topic.hash]; ok {\n		return false\n	}\n'),
('C21', 'server/internal/message/messageids.go', '	mids.Lock()\n	defer mids.Unlock()\n	mids.id++\n', '	mids.Lock()\n	defer mids.Unlock()\n	mids.id++\n	mids.ResumeID(mids.id)\n'),
('C21', 'server/internal/batch.go', '	if m.stopped {\n		return\n	}\n	timeID := m.TimeID(delay)', '	if m.stopped {\n		m.mu.Unlock()\n		return\n	}\n	timeID := m.TimeID(delay)'),
('C21', 'leasing.go', '	fbs.Lock()\n	defer fbs.Unlock()\n	// Verify that block is not already free.\n	if fbs.cache[off] {\n		return\n	}', '	fbs.Lock()\n	// Verify that block is not already free.\n	if fbs.cache[off] {\n		return\n	}\n	defer fbs.Unlock()'),
('C21', 'leasing.go', '	i := fbs.search(size)\n	if i >= len(fbs.fb) {\n		return -1\n	}\n	off', '	i := fbs.search(size)\n	if i >= len(fbs.fb) {\n		l.defrag()\n		return -1\n	}\n	off'),
('=C21', 'leasing.go', '	fbs.Lock()\n	defer fbs.Unlock()\n	// Verify that block is not already free.\n	if fbs.cache[off] {\n		return\n	}', '	fbs.Lock()\n	// Verify that block is not already free.\n	if fbs.cache[off] {\n		fbs.Unlock()\n		return\n	}\n	defer fbs.Unlock()'),
('=C21', [('memdb/tiny_log.go', '	p.mu.RLock()\n	if p.closed {\n		p.mu.RUnlock()\n		return errClosed\n	}\n	p.writers.Add(1)\n	p.mu.RUnlock()\n	p.writeQueue <- tinyLog', '	if !p.enter() {\n		return errClosed\n	}\n	p.writeQueue <- tinyLog'), ('memdb/tiny_log.go', '// writeWait enqueues', 'func (p *_TinyLogManager) enter() bool {\n	p.mu.RLock()\n	defer p.mu.RUnlock()\n	if p.closed {\n		return false\n	}\n	p.writers.Add(1)\n	return true\n}\n\n// writeWait enqueues')], 0, 0),
# C09
('C09', 'db.go', '	case len(q.Topic) > maxTopicLength:\n		return nil, errTopicTooLarge\n', ''),
('C09', 'db.go', '	case len(e.Payload) == 0:\n		return errValueEmpty\n', ''),
('C09', 'db.go', '	case len(e.Payload) > maxValueLength:\n		return errValueTooLarge\n', ''),
('C09', 'batch.go', '	case len(e.Topic) > maxTopicLength:\n		return errTopicTooLarge\n	case len(e.Payload) == 0:', '	case len(e.Payload) == 0:'),
('C09', 'batch.go', '	case len(e.Payload) == 0:\n		return errValueEmpty\n', ''),
('C09', 'batch.go', '	case len(e.ID) == 0:\n		return errMsgIDEmpty\n', ''),
('=C09', 'db.go', '	case len(e.ID) == 0:\n		return errMsgIDEmpty\n	case len(e.Topic) == 0:', '	case len(e.Topic) == 0:'),
('C09', 'db.go', '	if len(id) != id.Size() {\n		return errBadRequest\n	}\n', ''),
('C09', 'db_internal.go', '		if len(id) != id.Size() || id.Sequence() == 0 {', '		if id.Sequence() == 0 {'),
('C09', 'db_internal.go', '	if t.TopicType == message.TopicInvalid {\n		return nil, 0, errBadRequest\n	}\n', ''),
('C09', 'db_internal.go', '	if len(t.Parts) > math.MaxUint8 {\n		return errTopicTooLarge\n	}\n', ''),
('C09', 'query.go', '	if topic.TopicType == message.TopicInvalid {\n		return errBadRequest\n	}\n', ''),
('C09', 'db.go', '	case len(q.Topic) == 0:\n		return nil, errTopicEmpty\n', '	case len(q.Topic) < 0:\n		return nil, errTopicEmpty\n'),
('C09', 'db.go', '	case len(e.Payload) > maxValueLength:', '	case len(e.Payload) > maxValueLength<<4:'),
('C09', 'db.go', '	case len(e.Payload) == 0:\n		return errValueEmpty\n', '	case len(e.Payload) == 0 && e.ID == nil:\n		return errValueEmpty\n'),
('=C09', 'db.go', '	case len(q.Topic) == 0:\n		return nil, errTopicEmpty\n	case len(q.Topic) > maxTopicLength:\n		return nil, errTopicTooLarge\n	}\n', '	}\n	if n := len(q.Topic); n < 1 {\n		return nil, errTopicEmpty\n	} else if !(n <= maxTopicLength) {\n		return nil, errTopicTooLarge\n	}\n'),
('=C09', [('db.go', '	case len(e.Topic) == 0:\n		return errTopicEmpty\n	case len(e.Topic) > maxTopicLength:\n		return errTopicTooLarge\n	case len(e.Payload) == 0:\n		return errValueEmpty\n	case len(e.Payload) > maxValueLength:\n		return errValueTooLarge\n	}\n', '	}\n	if err := e.check(); err != nil {\n		return err\n	}\n'), ('batch.go', '	case len(e.Topic) == 0:\n		return errTopicEmpty\n	case len(e.Topic) > maxTopicLength:\n		return errTopicTooLarge\n	case len(e.Payload) == 0:\n		return errValueEmpty\n	case len(e.Payload) > maxValueLength:\n		return errValueTooLarge\n	}\n', '	}\n	if err := e.check(); err != nil {\n		return err\n	}\n'), ('db.go', '// Delete sets entry for deletion.', 'func (e *Entry) check() error {\n	if err := checkLen(len(e.Topic), maxTopicLength, errTopicEmpty, errTopicTooLarge); err != nil {\n		return err\n	}\n	return checkLen(len(e.Payload), maxValueLength, errValueEmpty, errValueTooLarge)\n}\n\nfunc checkLen(n, max int, empty, large error) error {\n	if n == 0 {\n		return empty\n	}\n	if n > max {\n		return large\n	}\n	return nil\n}\n\n// Delete sets entry for deletion.')], 0, 0),
('=C09', 'db_internal.go', '	if e.ID != nil {\n		id = message.ID(e.ID)\n		if len(id) != id.Size() || id.Sequence() == 0 {\n			return errBadRequest\n		}\n		seq = id.Sequence()\n	} else {\n		seq = db.nextSeq()\n		id = message.NewID(seq)\n	}\n', '	if e.ID == nil {\n		seq = db.nextSeq()\n		id = message.NewID(seq)\n	} else {\n		id = message.ID(e.ID)\n		if len(id) != id.Size() {\n			return errBadRequest\n		}\n		if seq = id.Sequence(); seq == 0 {\n			return errBadRequest\n		}\n	}\n'),
('=C09', 'db.go', '	id := message.ID(e.ID)\n	if len(id) != id.Size() {\n		return errBadRequest\n	}\n	topic, _, err := db.parseTopic(e.Contract, e.Topic)\n	if err != nil {\n		return err\n	}\n', '	topic, _, err := db.parseTopic(e.Contract, e.Topic)\n	if err != nil {\n		return err\n	}\n	id := message.ID(e.ID)\n	if n := id.Size(); n != len(e.ID) {\n		return errBadRequest\n	}\n'),
# C10
('C10', 'db.go', '	if err := db.ok(); err != nil {\n		return nil, err\n	}\n	switch {', '	switch {'),
('C10', 'batch.go', '	if err := b.db.ok(); err != nil {\n		return err\n	}\n\n	switch {\n	case len(e.Topic) == 0:', '	switch {\n	case len(e.Topic) == 0:'),
('C10', 'batch.go', '	if err := b.db.ok(); err != nil {\n		return err\n	}\n\n	var e _Entry', '	var e _Entry'),
('C10', 'memdb/batch.go', '	if err := b.db.ok(); err != nil {\n		return err\n	}\n\n	block, ok', '	block, ok'),
('C10', 'memdb/batch.go', '	if err := b.db.ok(); err != nil {\n		return err\n	}\n	timeID', '	timeID'),
('C10', 'memdb/db.go', '	if err := db.ok(); err != nil {', '	if err := db.ok(); err != nil && len(db.timeBlocks) == 0 {'),
('C10', 'wal/file.go', '	if !fs.opened {\n		return errors.New("Trying to use file store, but not open")\n	}\n	tmp', '	tmp'),
('C10', 'wal/file.go', '	if !fs.opened {\n		return nil, errors.New("Trying to use file store, but not open")\n	}\n', ''),
('C10', 'memdb/db_internal.go', '	if !db.setClosed() {\n		return errClosed\n	}', '	if !db.setClosed() {\n		return nil\n	}'),
('C10', 'wal/wal.go', '	if !wal.setClosed() {\n		return errors.New("wal is closed")\n	}\n', '	wal.setClosed()\n'),
('C10', 'db_internal.go', '	if !db.setClosed() {', '	if db.isClosed() {'),
('C10', 'memdb/db.go', '	if err := db.ok(); err != nil {\n		return 0, err\n	}\n', ''),
('=C10', 'db.go', '	if err := db.ok(); err != nil {\n		return nil, err\n	}\n	switch {', '	if db.isClosed() {\n		return nil, errClosed\n	}\n	switch {'),
('=C10', 'db_internal.go', '	return atomic.LoadUint32(&db.internal.closed) != 0', '	v := atomic.LoadUint32(&db.internal.closed)\n	return v > 0'),
('=C10', 'memdb/db.go', '	if err := db.ok(); err != nil {\n		return 0, err\n	}\n', '	err := db.ok()\n	if err != nil {\n		return 0, err\n	}\n'),
('=C10', [('wal/file.go', '	if !fs.opened {\n		return errors.New("Trying to use file store, but not open")\n	}\n	tmp', '	if err := fs.check(); err != nil {\n		return err\n	}\n	tmp'), ('wal/file.go', 'func (fs *_FileStore) close() {', 'func (fs *_FileStore) check() error {\n	if fs.opened {\n		return nil\n	}\n	return errors.New("Trying to use file store, but not open")\n}\n\nfunc (fs *_FileStore) close() {')], 0, 0),
# C11
('C11', 'db.go', '	case db.opts.flags.immutable:\n		return errImmutable\n', '	case db.opts.flags.immutable && len(e.ID) == 0:\n		return errImmutable\n'),
('C11', 'batch.go', '	case b.db.opts.flags.immutable:\n		return errImmutable\n', ''),
('C11', 'db_internal.go', '	if db.opts.flags.immutable {\n		return errImmutable\n	}\n\n	// entries are', '	if db.opts.flags.immutable {\n		return nil\n	}\n\n	// entries are'),
('C11', [('db_internal.go', '	if db.opts.flags.immutable {\n		return errImmutable\n	}\n\n	// entries are', '	// entries are'), ('db.go', '	case db.opts.flags.immutable:\n		return errImmutable\n', '')], 0, 0),
('C11', [('db_internal.go', '	if db.opts.flags.immutable {\n		return errImmutable\n	}\n\n	// entries are', '	// entries are')], 0, 0),
('=C11', 'db.go', '	case db.opts.flags.immutable:\n		return errImmutable\n', ''),
('=C11', 'batch.go', '	switch {\n	case b.db.opts.flags.immutable:\n		return errImmutable\n', '	if !b.db.opts.flags.immutable {\n	} else {\n		return errImmutable\n	}\n	switch {\n'),
# C12
('C12', 'db.go', '	db, err := openLocked(path, options, lock)\n	if err != nil {\n		lock.unlock()\n		return nil, err\n	}\n', '	db, err := openLocked(path, options, lock)\n	if err != nil {\n		return nil, err\n	}\n'),
('C12', 'db.go', '	if err := db.recoverLog(); err != nil {\n		// if unable to recover db then close db.\n		logger.Error().Err(err).Str("context", "db.recoverLog")\n		db.internal.mem.Close()\n', '	if err := db.recoverLog(); err != nil {\n		// if unable to recover db then close db.\n		logger.Error().Err(err).Str("context", "db.recoverLog")\n'),
('C12', 'db.go', '	lock, err := createLockFile(path)\n	if err != nil {\n		if err == os.ErrExist {\n			err = errLocked\n		}\n		return nil, err\n	}\n', '	lock, err := createLockFile(path)\n	if err == os.ErrExist {\n		return nil, errLocked\n	}\n'),
('C12', 'db.go', '	lock, err := createLockFile(path)\n', '	if f, err := newFile(path, 1, _FileDesc{fileType: typeInfo}); err != nil || f.currSize() < 0 {\n		return nil, err\n	}\n	lock, err := createLockFile(path)\n'),
('C12', 'file_unix.go', 'syscall.LOCK_EX|syscall.LOCK_NB', 'syscall.LOCK_SH|syscall.LOCK_NB'),
('C12', 'file_unix.go', 'syscall.LOCK_EX|syscall.LOCK_NB', 'syscall.LOCK_EX'),
('C12', 'file_unix.go', '	if err := lockFile(f); err != nil {\n		f.Close()\n		return nil, err\n	}\n', '	if err := lockFile(f); err == os.ErrExist {\n		f.Close()\n		return nil, err\n	}\n'),
('C12', 'file_unix.go', '		if err == syscall.EWOULDBLOCK {\n			err = os.ErrExist\n		}\n		return err\n', '		if err == syscall.EWOULDBLOCK {\n			return os.ErrExist\n		}\n'),
('C12', 'file_unix.go', '	if cur, err := os.Stat(name); err != nil || !os.SameFile(fi, cur) {', '	if cur, err := os.Stat(name); err == nil && !os.SameFile(fi, cur) {'),
('C12', 'file_unix.go', '	if err != nil {\n		f.Close()\n		return nil, err\n	}\n	if cur', '	if err != nil {\n		return nil, err\n	}\n	if cur'),
('C12', 'file_unix.go', '		f.Close()\n		return newLockFile(name)', '		return newLockFile(name)'),
('C12', 'file_unix.go', '	err := os.Remove(fl.name)\n	// the lock is released also if the file can\'t be removed.\n	if err1 := fl.f.Close(); err1 != nil && err == nil {\n		err = err1\n	}\n', '	err := fl.f.Close()\n	if err1 := os.Remove(fl.name); err1 != nil && err == nil {\n		err = err1\n	}\n'),
('C12', 'file_unix.go', '	if err1 := fl.f.Close(); err1 != nil && err == nil {\n', '	if err1 := fl.f.Close(); err != nil {\n'),
('C12', 'db_internal.go', '	if err1 := db.fs.close(); err1 != nil && err == nil {\n		err = err1\n	}\n	if err1 := db.lock.unlock(); err1 != nil && err == nil {\n		err = err1\n	}\n', '	if err1 := db.lock.unlock(); err1 != nil && err == nil {\n		err = err1\n	}\n	if err1 := db.fs.close(); err1 != nil && err == nil {\n		err = err1\n	}\n'),
('C12', 'db_internal.go', '	if err1 := db.fs.close(); err1 != nil && err == nil {\n		err = err1\n	}\n', '	if err1 := db.fs.close(); err1 != nil {\n		return err1\n	}\n'),
('C12', 'db_internal.go', '	if err1 := db.lock.unlock(); err1 != nil && err == nil {\n		err = err1\n	}\n', '	if err == nil {\n		err = db.lock.unlock()\n	}\n'),
('=C12', 'db.go', '	db, err := openLocked(path, options, lock)\n	if err != nil {\n		lock.unlock()\n		return nil, err\n	}\n\n	return db, nil\n', '	ok := false\n	defer func() {\n		if !ok {\n			lock.unlock()\n		}\n	}()\n	db, err := openLocked(path, options, lock)\n	if err != nil {\n		return nil, err\n	}\n	ok = true\n	return db, nil\n'),
('=C12', 'file_unix.go', '	if cur, err := os.Stat(name); err != nil || !os.SameFile(fi, cur) {\n		f.Close()\n		return newLockFile(name)\n	}\n	return', '	cur, err := os.Stat(name)\n	if err == nil && os.SameFile(fi, cur) {\n		return &_UnixFileLock{f, name}, nil\n	}\n	f.Close()\n	return newLockFile(name)\n}\n\nfunc newFileLock(f *os.File, name string) (_LockFile, error) {\n	return'),
('=C12', [('file_unix.go', 'func newLockFile(name string) (_LockFile, error) {\n	f, err', 'func newLockFile(name string) (_LockFile, error) {\n	for {\n		l, err := tryLockFile(name)\n		if l != nil || err != nil {\n			return l, err\n		}\n	}\n}\n\nfunc tryLockFile(name string) (_LockFile, error) {\n	f, err'), ('file_unix.go', 'return newLockFile(name)\n	}\n	return', 'return nil, nil\n	}\n	return')], 0, 0),
# C13
('C13', 'db_internal.go', '	// Acquire lock.\n	db.internal.syncLockC <- struct{}{}\n\n	// Wait for all', '	// Wait for all'),
('C13', 'db_internal.go', '	db.internal.closeW.Wait()\n\n	// close memdb. All the steps are performed and first error is reported.\n	err := db.internal.mem.Close()\n', '	// close memdb. All the steps are performed and first error is reported.\n	err := db.internal.mem.Close()\n	db.internal.closeW.Wait()\n'),
('C13', 'db_internal.go', '	if err1 := db.writeInfo(); err1 != nil && err == nil {\n		err = err1\n	}\n	db.internal.freeList.defrag()', '	db.internal.freeList.defrag()'),
('C13', 'db_internal.go', '	if err1 := db.internal.freeList.write(); err1 != nil && err == nil {\n		err = err1\n	}\n	if err1 := db.fs.close(); err1 != nil && err == nil {\n		err = err1\n	}\n', '	if err1 := db.fs.close(); err1 != nil && err == nil {\n		err = err1\n	}\n	if err1 := db.internal.freeList.write(); err1 != nil && err == nil {\n		err = err1\n	}\n'),
('C13', 'db_internal.go', '	err := db.internal.mem.Close()\n', '	err := db.internal.mem.Close()\n	if err != nil {\n		return err\n	}\n'),
('C13', 'db_internal.go', '	if err1 := db.internal.freeList.write(); err1 != nil && err == nil {\n		err = err1\n	}\n', '	if err == nil {\n		err = db.internal.freeList.write()\n	}\n'),
('C13', 'db_internal.go', '	if err1 := db.writeInfo(); err1 != nil && err == nil {\n		err = err1\n	}\n	db', '	db.writeInfo()\n	db'),
('C13', 'db_internal.go', '	select {\n	case db.internal.syncLockC <- struct{}{}:\n		return nil\n	case <-db.internal.closeC:\n		return errClosed\n	}\n', '	if err := db.ok(); err != nil {\n		return err\n	}\n	db.internal.syncLockC <- struct{}{}\n	return nil\n'),
('C13', 'memdb/db_internal.go', '	db.internal.logManager.closeWait()\n\n	var err error\n	if', '	defer db.internal.logManager.closeWait()\n\n	var err error\n	if'),
('C13', 'memdb/tiny_log.go', '	p.stopWg.Wait()\n', '	if wait {\n		go p.stopWg.Wait()\n	}\n'),
('C13', 'wal/wal.go', '	// Make sure sync thread isn\'t running.\n	wal.wg.Wait()\n\n	// fmt.Println("wal.close: WALInfo ", wal.WALInfo)\n	wal.logStore.close()\n', '	wal.logStore.close()\n	wal.wg.Wait()\n'),
('C13', 'memdb/tiny_log.go', '			p.writeQueue <- p.tinyLog\n			close(p.writeQueue)', '			close(p.writeQueue)'),
('C13', 'memdb/tiny_log.go', '			p.writers.Wait()\n', ''),
('C13', 'memdb/tiny_log.go', '				tinyLog := p.tinyLog\n				p.newTinyLog()\n				p.mu.Unlock()', '				p.newTinyLog()\n				tinyLog := p.tinyLog\n				p.mu.Unlock()'),
('C13', 'memdb/tiny_log.go', '		p.logQueue <- tinyLog\n', '		select {\n		case p.logQueue <- tinyLog:\n		default:\n		}\n'),
('C13', 'memdb/tiny_log.go', '				case tinyLog, ok := <-p.logQueue:\n					if !ok {\n						p.stopWg.Done()\n						return\n					}\n					if err := p.db.tinyCommit(tinyLog); err != nil {\n						fmt.Println("logPool.tinyCommit: error ", err)\n					}\n				default:\n				}', '				case tinyLog, ok := <-p.logQueue:\n					if !ok {\n						p.stopWg.Done()\n						return\n					}\n					if err := p.db.tinyCommit(tinyLog); err != nil {\n						fmt.Println("logPool.tinyCommit: error ", err)\n					}\n				default:\n					p.stopWg.Done()\n					return\n				}'),
('C13', 'memdb/tiny_log.go', '			if tinyLog != nil {\n', '			if tinyLog != nil && tinyLog.managed {\n'),
('C13', 'memdb/tiny_log.go', '	close(p.logQueue)\n	p.stopWg.Done()\n', '	p.stopWg.Done()\n'),
('C13', 'memdb/tiny_log.go', '		close(p.stop)\n', '		if wait {\n			p.writers.Wait()\n		}\n'),
('=C13', [('db_internal.go', '	if err1 := db.writeInfo(); err1 != nil && err == nil {\n		err = err1\n	}\n	db.internal.freeList.defrag()\n	if err1 := db.internal.freeList.write(); err1 != nil && err == nil {\n		err = err1\n	}\n', '	if err1 := db.persist(); err1 != nil && err == nil {\n		err = err1\n	}\n'), ('db_internal.go', '// syncLock acquires', 'func (db *DB) persist() error {\n	db.internal.freeList.defrag()\n	err := db.internal.freeList.write()\n	if err1 := db.writeInfo(); err == nil {\n		err = err1\n	}\n	return err\n}\n\n// syncLock acquires')], 0, 0),
('=C13', 'memdb/tiny_log.go', '	for tinyLog := range p.writeQueue {\n		// wait if pool is full, a log must not be dropped.\n		p.logQueue <- tinyLog\n	}\n	close(p.logQueue)\n	p.stopWg.Done()\n', '	defer p.stopWg.Done()\n	defer close(p.logQueue)\n	for {\n		t, ok := <-p.writeQueue\n		if !ok {\n			return\n		}\n		p.logQueue <- t\n	}\n'),
('=C13', [('memdb/tiny_log.go', '					if !ok {\n						p.stopWg.Done()\n						return\n					}\n					if err := p.db.tinyCommit(tinyLog); err != nil {\n						fmt.Println("logPool.tinyCommit: error ", err)\n					}\n', '					if !ok {\n						p.stopWg.Done()\n						return\n					}\n					p.commit(tinyLog)\n'), ('memdb/tiny_log.go', '			if tinyLog != nil {\n				if err := p.db.tinyCommit(tinyLog); err != nil {\n					fmt.Println("logPool.tinyCommit: error ", err)\n				}\n			}\n', '			p.commit(tinyLog)\n'), ('memdb/tiny_log.go', '// commitLoop commits', 'func (p *_TinyLogManager) commit(tinyLog *_TinyLog) {\n	if tinyLog == nil {\n		return\n	}\n	if err := p.db.tinyCommit(tinyLog); err != nil {\n		fmt.Println("logPool.tinyCommit: error ", err)\n	}\n}\n\n// commitLoop commits')], 0, 0),
('=C13', [('memdb/tiny_log.go', '				p.mu.Lock()\n				tinyLog := p.tinyLog\n				p.newTinyLog()\n				p.mu.Unlock()\n				p.writeQueue <- tinyLog\n', '				p.writeQueue <- p.rotate()\n'), ('memdb/tiny_log.go', '// dispatch handles', 'func (p *_TinyLogManager) rotate() *_TinyLog {\n	p.mu.Lock()\n	defer p.mu.Unlock()\n	old := p.tinyLog\n	p.newTinyLog()\n	return old\n}\n\n// dispatch handles')], 0, 0),
# C15
('C15', 'db.go', 'if !msgID.EvalPrefix(q.Contract, q.internal.cutoff) {', 'if q.internal.cutoff > 0 && !msgID.EvalPrefix(q.Contract, q.internal.cutoff) {'),
('C15', 'db.go', 'if !msgID.EvalPrefix(q.Contract, q.internal.cutoff) {', 'if !msgID.EvalPrefix(q.Contract, 0) {'),
('C15', 'db.go', 'if !msgID.EvalPrefix(q.Contract, q.internal.cutoff) {', 'if !msgID.EvalPrefix(message.MasterContract, q.internal.cutoff) {'),
('C15', 'message/id.go', 'return uid.Time(id[0:4]) >= cutoff && binary', 'return uid.Time(id[0:4]) >= cutoff || binary'),
('C15', 'message/id.go', 'return uid.Time(id[0:4]) >= cutoff && binary.LittleEndian.Uint32(id[4:8]) == contract', 'return uid.Time(id[0:4]) >= cutoff'),
('C15', 'message/id.go', 'return uid.Time(id[0:4]) >= cutoff && ', 'return uid.Time(id[0:4]) <= cutoff && '),
('C15', 'message/id.go', '	return binary.LittleEndian.Uint32(id[4:8]) == contract\n}', '	return binary.LittleEndian.Uint32(id[0:4]) == contract\n}'),
('C15', 'message/id.go', '	return binary.LittleEndian.Uint32(id[4:8]) == contract\n}', '	return contract == MasterContract || binary.LittleEndian.Uint32(id[4:8]) == contract\n}'),
('C15', 'db_internal.go', '	id.SetContract(e.Contract)\n', ''),
('C15', 'db_internal.go', '	id.SetContract(e.Contract)\n', '	if e.ID == nil {\n		id.SetContract(e.Contract)\n	}\n'),
('C15', 'db_internal.go', 't.GetHash(e.Contract)', 't.GetHash(0)'),
('C15', 'db_internal.go', '	t.AddContract(e.Contract)\n	e.entry.topicHash = t.GetHash(e.Contract)\n', '	e.entry.topicHash = t.GetHash(e.Contract)\n	t.AddContract(e.Contract)\n'),
('C15', 'query.go', '	topic.AddContract(q.Contract)\n', ''),
('C15', 'query.go', '	topic.Parse(q.Contract, true)', '	topic.Parse(message.MasterContract+1, true)'),
('=C15', 'message/id.go', '	if cutoff > 0 {\n		return uid.Time(id[0:4]) >= cutoff && binary.LittleEndian.Uint32(id[4:8]) == contract\n	}\n	return binary.LittleEndian.Uint32(id[4:8]) == contract', '	if binary.LittleEndian.Uint32(id[4:8]) != contract {\n		return false\n	}\n	if cutoff <= 0 {\n		return true\n	}\n	return !(uid.Time(id[:4]) < cutoff)'),
('=C15', 'db.go', '				if !msgID.EvalPrefix(q.Contract, q.internal.cutoff) {\n					invalidCount++\n					return nil\n				}\n', '				ok := msgID.EvalPrefix(q.Contract, q.internal.cutoff)\n				if !ok {\n					invalidCount++\n					return nil\n				}\n'),
('C15', 'message/topic.go', '		part.Hash = hash.WithSalt(p, contract)\n		topic.Parts = append(topic.Parts, part)\n		if wild', '		part.Hash = hash.WithSalt(p, 0)\n		topic.Parts = append(topic.Parts, part)\n		if wild'),
('C15', 'message/topic.go', '	return uint64(h)<<32 + uint64((contract<<8)|uint32(t.Depth))', '	return uint64(h)<<32 + uint64(t.Depth)'),
('C15', 'message/id.go', 'PutUint32(newid[4:8], contract)', 'PutUint32(newid[0:4], contract)'),
('C15', 'message/id.go', '	copy(newid[:fixed], *id)\n	binary.LittleEndian.PutUint32(newid[4:8], contract)\n', '	binary.LittleEndian.PutUint32(newid[4:8], contract)\n	copy(newid[:fixed], *id)\n'),
('C15', 'query.go', '	q.Contract = contract\n	return q', '	return q'),
('=C15', 'message/id.go', '	newid := make(ID, fixed)\n	copy(newid[:fixed], *id)\n	binary', '	newid := append(make(ID, 0, fixed), (*id)[:fixed]...)\n	binary'),
('C16', 'time_window.go', '		if we.isExpired() {\n			if err', '		if we.isExpired() && len(added) > 0 {\n			if err'),
('C16', 'time_window.go', 'e.expiresAt != 0 && e.expiresAt <= uint32', 'e.expiresAt != 0 && e.expiresAt > uint32'),
('C16', 'time_window.go', 'e.expiresAt != 0 && e.expiresAt <= uint32(time.Now().Unix())', 'e.expiresAt <= uint32(time.Now().Unix())'),
('C16', 'time_window.go', 'uint32(time.Now().Unix())', 'uint32(time.Now().UnixNano())'),
('C16', 'time_window.go', '_WinEntry{sequence: seq, expiresAt: expiresAt}', '_WinEntry{sequence: seq}'),
('C16', 'db_sync.go', 'newWinEntry(seq, m.expiresAt)', 'newWinEntry(seq, 0)'),
('C16', 'recovery.go', 'newWinEntry(e.seq, m.expiresAt)', 'newWinEntry(e.seq, uint32(m.topicSize))'),
('C16', 'batch.go', 'newWinEntry(e.seq, e.expiresAt)', 'newWinEntry(e.seq, 0)'),
('C16', 'entry.go', 'time.Duration(int(val)) * time.Second', 'time.Duration(int(val)) * time.Millisecond'),
('C16', 'entry.go', 'e.ExpiresAt = uint32(time.Now().Add(duration).Unix())', 'e.ExpiresAt = uint32(duration.Seconds())'),
('C16', 'message/topic.go', 'uint32(time.Now().Add(duration).Unix()), ok\n}\n\n// Last', 'uint32(duration.Seconds()), ok\n}\n\n// Last'),
('=C16', 'time_window.go', '	return e.expiresAt != 0 && e.expiresAt <= uint32(time.Now().Unix())', '	if e.expiresAt == 0 {\n		return false\n	}\n	now := uint32(time.Now().Unix())\n	return !(e.expiresAt > now)'),
('=C16', 'time_window.go', '	return e.expiresAt != 0 && e.expiresAt <= uint32(time.Now().Unix())', '	now := uint32(time.Now().Unix())\n	if e.expiresAt == 0 || now < e.expiresAt {\n		return false\n	}\n	return true'),
('=C16', 'time_window.go', '	for i := len(entries) - 1; i >= 0; i-- {\n		we := entries[i]\n		if added', '	for n := 1; n <= len(entries); n++ {\n		we := entries[len(entries)-n]\n		if added'),
('=C16', 'time_window.go', '	return e.expiresAt != 0 && e.expiresAt <= uint32(time.Now().Unix())', '	return e.expiresAt > 0 && int64(e.expiresAt) <= time.Now().Unix()'),
('C17', 'time_window.go', '		if added[we.seq()] {\n			continue\n		}\n', ''),
('C17', 'time_window.go', '		added[we.seq()] = true\n', ''),
('C17', 'time_window.go', '		winEntries = tw.addLive(winEntries, b.entries[:b.entryIdx], added)', '		winEntries = tw.addLive(winEntries, b.entries[:b.entryIdx], make(map[uint64]bool))'),
('C17', 'time_window.go', 'return winEntries[i].seq() > winEntries[j].seq()', 'return winEntries[i].seq() < winEntries[j].seq()'),
('C17', 'time_window.go', '	// entries of the topic are spread across time blocks.\n	sort.Slice(winEntries[:], func(i, j int) bool {\n		return winEntries[i].seq() > winEntries[j].seq()\n	})\n	if len(winEntries) > limit {\n		winEntries = winEntries[:limit]\n	}\n', '	if len(winEntries) > limit {\n		winEntries = winEntries[:limit]\n	}\n	// entries of the topic are spread across time blocks.\n	sort.Slice(winEntries[:], func(i, j int) bool {\n		return winEntries[i].seq() > winEntries[j].seq()\n	})\n'),
('C17', 'time_window.go', 'winEntries = winEntries[:limit]', 'winEntries = winEntries[len(winEntries)-limit:]'),
('C17', 'db_internal.go', '	q.internal.winEntries = q.internal.winEntries[:0]\n', ''),
('C17', 'db.go', 'return q.internal.winEntries[i].seq > q.internal.winEntries[j].seq', 'return q.internal.winEntries[i].seq < q.internal.winEntries[j].seq'),
('C17', 'db.go', 'return q.internal.winEntries[i].seq > q.internal.winEntries[j].seq', 'return q.internal.winEntries[i].topicHash > q.internal.winEntries[j].topicHash'),
('C17', 'db.go', '	limit := q.Limit\n	if len(q.internal.winEntries) < int(q.Limit) {\n		limit = len(q.internal.winEntries)\n	}\n', '	limit := len(q.internal.winEntries)\n'),
('C17', 'db.go', '			limit = limit + invalidCount\n', '			limit = limit + q.Limit\n'),
('=C17', 'db.go', '	limit := q.Limit\n	if len(q.internal.winEntries) < int(q.Limit) {\n		limit = len(q.internal.winEntries)\n	}\n', '	limit := len(q.internal.winEntries)\n	if limit > int(q.Limit) {\n		limit = q.Limit\n	}\n'),
('=C17', 'db.go', '		if len(q.internal.winEntries) <= int(q.Limit+invalidCount) {\n			start = limit\n			limit = len(q.internal.winEntries)\n		} else {\n			start = limit\n			limit = limit + invalidCount\n			if limit > len(q.internal.winEntries) {\n				limit = len(q.internal.winEntries)\n			}\n		}\n', '		start = limit\n		limit += invalidCount\n		if n := len(q.internal.winEntries); limit > n {\n			limit = n\n		}\n'),
('=C17', 'db.go', '	sort.Slice(q.internal.winEntries[:], func(i, j int) bool {\n		return q.internal.winEntries[i].seq > q.internal.winEntries[j].seq\n	})\n', '	entries := q.internal.winEntries\n	sort.Slice(entries, func(a, b int) bool {\n		return entries[b].seq < entries[a].seq\n	})\n'),
('=C17', 'time_window.go', '		if added[we.seq()] {\n			continue\n		}\n', '		seq := we.seq()\n		if _, ok := added[seq]; ok {\n			continue\n		}\n'),
('C17', 'query.go', '	if q.Limit <= 0 {\n		q.Limit = q.internal.opts.defaultQueryLimit\n	}\n	if q.Limit > q.internal.opts.maxQueryLimit {\n		q.Limit = q.internal.opts.maxQueryLimit\n	}\n', '	if q.Limit <= 0 {\n		q.Limit = q.internal.opts.defaultQueryLimit\n	}\n'),
('C17', 'query.go', '	if q.Limit <= 0 {\n		q.Limit = q.internal.opts.defaultQueryLimit\n	}\n', '	if q.Limit < 0 {\n		q.Limit = q.internal.opts.defaultQueryLimit\n	}\n'),
('C14', 'db_internal.go', 'db.internal.dbInfo.encryption == 1 || e.Encryption {', 'db.internal.dbInfo.encryption == 1 {'),
('C14', 'db_internal.go', 'db.internal.dbInfo.encryption == 1 || e.Encryption {', 'e.Encryption {'),
('C14', 'db_internal.go', '		eBit = 1\n', ''),
('C14', 'db_internal.go', '		val = db.internal.mac.Encrypt(nil, val)\n', '		db.internal.mac.Encrypt(nil, val)\n'),
('C14', 'db_internal.go', '	copy(e.entry.cache[entrySize:], id.Prefix())\n	e.entry.cache[entrySize+idSize-1] = byte(eBit)\n', '	e.entry.cache[entrySize+idSize-1] = byte(eBit)\n	copy(e.entry.cache[entrySize:], id.Prefix())\n'),
('C14', 'db_internal.go', 'e.entry.cache[entrySize+idSize-1] = byte(eBit)', 'e.entry.cache[entrySize+idSize-2] = byte(eBit)'),
('C14', 'batch.go', '	e.Encryption = e.Encryption || b.opts.batchOptions.encryption\n', ''),
('C14', 'batch.go', 'e.Encryption = e.Encryption || b', 'e.Encryption = e.Encryption && b'),
('C14', 'db_internal.go', '		encryption: db.internal.dbInfo.encryption,\n', ''),
('C14', 'db.go', '	if options.flags.encryption {\n		internal.dbInfo.encryption = 1\n	}\n', '	internal.dbInfo.encryption = 0\n	if options.flags.encryption {\n		internal.dbInfo.encryption = 1\n	}\n'),
('C14', 'db.go', 'if options.flags.encryption {', 'if options.flags.encryption && internal.dbInfo.count == 0 {'),
('C14', 'db.go', 'if uint8(id[idSize-1]) == 1 {', 'if uint8(id[idSize-2]) == 1 {'),
('C14', 'db.go', 'if uint8(id[idSize-1]) == 1 {', 'if db.internal.dbInfo.encryption == 1 {'),
('C14', 'db.go', 'db.internal.mac.Decrypt(nil, val)\n					if err != nil {', 'db.internal.mac.Decrypt(nil, val)\n					if err != nil && len(val) == 0 {'),
('C14', 'db.go', 'db.internal.mac.Decrypt(nil, val)', 'db.internal.mac.Decrypt(val[:0], val)'),
('C14', 'crypto/mac.go', '	if err != nil {\n		return dst, errors.New("Authentication failed.")\n	}\n	// Epoch', '	if err != nil {\n		msg = src[MessageOffset:]\n	}\n	// Epoch'),
('C14', 'crypto/mac.go', 'm.parent.Open(nil, nonce, src[MessageOffset:], epochData(n))\n	// A', 'm.parent.Open(src[:0], nonce, src[MessageOffset:], epochData(n))\n	// A'),
('C14', 'crypto/mac.go', 'm.parent.Seal(dst, nonce, src[n:], epochData(n))', 'm.parent.Seal(dst, nonce, src[EpochSize:], epochData(n))'),
('C14', 'crypto/mac.go', 'm.parent.Seal(dst, nonce, src[n:], epochData(n))', 'append(append(dst, nonce[:0]...), src[n:]...)'),
('C14', 'crypto/mac.go', '	if len(src) < m.Overhead() {\n		return dst, errors.New("Authentication failed.")\n	}\n', ''),
('C14', 'options.go', '		o.batchOptions.encryption = true\n', '		o.flags.encryption = true\n'),
('=C14', 'db_internal.go', '	if db.internal.dbInfo.encryption == 1 || e.Encryption {\n		eBit = 1\n		val = db.internal.mac.Encrypt(nil, val)\n	}\n', '	encrypt := e.Encryption\n	if db.internal.dbInfo.encryption == 1 {\n		encrypt = true\n	}\n	if encrypt {\n		val = db.internal.mac.Encrypt(nil, val)\n		eBit = 1\n	}\n'),
('=C14', 'db.go', '				if uint8(id[idSize-1]) == 1 {\n', '				if encrypted := uint8(id[idSize-1]); encrypted != 0 {\n'),
('=C14', [('db_internal.go', '	if db.internal.dbInfo.encryption == 1 || e.Encryption {\n		eBit = 1\n		val = db.internal.mac.Encrypt(nil, val)\n	}\n', '	val, eBit = db.seal(e, val)\n'), ('db_internal.go', '// delete deletes the given key from the DB.\n', '// seal encrypts.\nfunc (db *DB) seal(e *Entry, val []byte) ([]byte, uint8) {\n	if db.internal.dbInfo.encryption != 1 && !e.Encryption {\n		return val, 0\n	}\n	return db.internal.mac.Encrypt(nil, val), 1\n}\n\n// delete deletes the given key from the DB.\n')], 0, 0),
('=C14', 'crypto/mac.go', '	dst = append(dst, src[:n]...)\n	return append(dst, msg...), nil\n', '	out := make([]byte, 0, len(dst)+n+len(msg))\n	out = append(out, dst...)\n	out = append(out, src[:n]...)\n	out = append(out, msg...)\n	return out, nil\n'),
('C07', 'block.go', 'binary.LittleEndian.PutUint16(buf[2:4], s.topicSize)\n		binary.LittleEndian.PutUint32(buf[4:8], s.valueSize)', 'binary.LittleEndian.PutUint16(buf[6:8], s.topicSize)\n		binary.LittleEndian.PutUint32(buf[2:6], s.valueSize)'),
('C07', 'block.go', 'data = data[16:]\n', 'data = data[14:]\n'),
('C07', 'block.go', '+ uint64(seq) - entriesPerIndexBlock //', '+ uint64(seq) - entriesPerIndexBlock - 1 //'),
('C07', 'block.go', 'uint16(int16(s.seq-b.baseSeq) + entriesPerIndexBlock)', 'uint16(int16(s.seq-b.baseSeq))'),
('C07', 'block.go', 'binary.LittleEndian.PutUint64(buf[8:16], uint64(s.msgOffset))', 'binary.LittleEndian.PutUint64(buf[8:16], uint64(uint32(s.msgOffset)))'),
('C07', 'block.go', 'int64(binary.LittleEndian.Uint64(data[8:16]))', 'int64(binary.LittleEndian.Uint32(data[8:12]))'),
('C07', 'block.go', '	b.entryIdx = binary.LittleEndian.Uint16(data[:2])\n', '	b.entryIdx = binary.BigEndian.Uint16(data[:2])\n'),
('C07', 'block.go', '	return data\n}', '	data = buf\n	return data\n}'),
('C07', 'block.go', 'idSize + uint32(e.topicSize) + e.valueSize', 'idSize + e.valueSize'),
('C07', 'block.go', 'idSize + uint32(e.topicSize) + e.valueSize', 'entrySize + uint32(e.topicSize) + e.valueSize'),
('C07', 'time_window.go', 'b.next = int64(binary.LittleEndian.Uint64(data[16:24]))', 'b.next = int64(binary.LittleEndian.Uint64(data[8:16]))'),
('C07', 'time_window.go', 'b.topicHash = binary.LittleEndian.Uint64(data[8:16])', 'b.topicHash = uint64(b.cutoffTime)'),
('C07', 'time_window.go', 'binary.LittleEndian.PutUint16(buf[24:26], b.entryIdx)', 'binary.LittleEndian.PutUint16(buf[22:24], b.entryIdx)'),
('C07', 'time_window.go', 'binary.LittleEndian.PutUint16(buf[24:26], b.entryIdx)', 'buf[24] = byte(b.entryIdx)'),
('C07', 'time_window.go', '		binary.LittleEndian.PutUint32(buf[8:12], e.expiresAt)\n', ''),
('C07', 'time_window.go', '	for i := 0; i < entriesPerWindowBlock; i++ {\n		_ =', '	for i := 1; i < entriesPerWindowBlock; i++ {\n		_ ='),
('C07', 'leasing.go', 'binary.LittleEndian.PutUint32(buf[8:12], b.fb[i].size)', 'binary.LittleEndian.PutUint16(buf[8:12], uint16(b.fb[i].size))'),
('C07', 'leasing.go', '	off += 4\n', '	off += 8\n'),
('C07', 'leasing.go', 'binary.LittleEndian.PutUint32(buf[:4], uint32(len(b.fb)))', 'binary.LittleEndian.PutUint32(buf[:4], uint32(12*len(b.fb)))'),
('C07', 'db_info.go', 'binary.LittleEndian.PutUint64(buf[20:28], inf.count)', 'binary.LittleEndian.PutUint64(buf[20:28], inf.sequence)'),
('C07', 'db_info.go', 'binary.LittleEndian.PutUint64(buf[12:20], inf.sequence)', 'binary.LittleEndian.PutUint32(buf[12:20], uint32(inf.sequence))'),
('C07', 'db_info.go', '	copy(inf.header.signature[:], data[:7])', '	copy(inf.header.signature[:], data[1:8])'),
('C07', 'wal/header.go', '[14:18]', '[13:17]'),
('C07', 'entry.go', 'e.expiresAt = binary.LittleEndian.Uint32(data[14:18])', 'e.expiresAt = binary.LittleEndian.Uint32(data[10:14])'),
('C07', 'entry.go', 'e.topicHash = binary.LittleEndian.Uint64(data[18:26])', 'e.topicHash = uint64(binary.LittleEndian.Uint32(data[18:26]))'),
('C07', 'message/topic.go', '		n += 4\n	}\n	return buf', '		n += 5\n	}\n	return buf'),
('C07', 'message/topic.go', 'binary.LittleEndian.PutUint32(buf[n:], part.Hash)', 'binary.BigEndian.PutUint32(buf[n:], part.Hash)'),
('C07', 'memdb/block.go', 'dataLen := int64(len(data) + 8 + 1 + 4)', 'dataLen := int64(len(data) + 8 + 1)'),
('C07', 'memdb/block.go', 'b.data.WriteAt(data, off+8+1+4)', 'b.data.WriteAt(data, off+8+4)'),
('C07', 'memdb/block.go', 'binary.LittleEndian.PutUint64(k[1:], ikey.key)\n	if _, err := b.data.WriteAt(k[:], off+4)', 'binary.LittleEndian.PutUint64(k[1:], ikey.key)\n	if _, err := b.data.WriteAt(k[:], off+3)'),
('C07', 'memdb/block.go', 'binary.LittleEndian.PutUint64(k[1:], key)\n	if _, err := b.data.WriteAt(k[:], off+4)', 'binary.LittleEndian.PutUint64(k[1:], key)\n	if _, err := b.data.WriteAt(k[:], off)'),
('C07', 'memdb/block.go', '	return data[8+1+4:], nil', '	return data[8+4:], nil'),
('C07', 'memdb/db.go', '	return data[8+1+4:], nil', '	return data[8+1:], nil'),
('C07', 'memdb/db.go', 'block.data.Slice(off, off+dataLen)', 'block.data.Slice(off, off+dataLen-4)'),
('C07', 'memdb/block.go', 'binary.LittleEndian.PutUint32(scratch[0:4], uint32(dataLen))', 'binary.LittleEndian.PutUint32(scratch[0:4], uint32(len(data)))'),
('C07', 'memdb/recovery.go', 'logData[off+4 : off+dataLen]', 'logData[off+4 : off+dataLen+4]'),
('C07', 'memdb/recovery.go', '				off += dataLen\n', '				off += dataLen + 4\n'),
('C07', 'memdb/recovery.go', 'key := binary.LittleEndian.Uint64(data[1:9])', 'key := binary.LittleEndian.Uint64(data[0:8])'),
('C07', 'memdb/recovery.go', 'val := data[9:]', 'val := data[8:]'),
('C07', 'memdb/recovery.go', '} else if dBit == 0 {', '} else {'),
('C07', 'memdb/recovery.go', 'binary.LittleEndian.Uint64(val[:8])', 'binary.BigEndian.Uint64(val[:8])'),
('C07', 'memdb/recovery.go', 'log[key] = val', 'log[key] = data'),
('C07', 'wal/writer.go', 'dataLen := uint32(len(data) + 4)', 'dataLen := uint32(len(data))'),
('C07', 'wal/writer.go', '	w.logSize += dataLen\n', '	w.logSize += uint32(len(data))\n'),
('C07', 'wal/reader.go', 'r.buffer.Slice(r.offset+4, r.offset+int64(dataLen))', 'r.buffer.Slice(r.offset+4, r.offset+4+int64(dataLen))'),
('C07', 'wal/reader.go', '	r.offset += int64(dataLen)\n', '	r.offset += int64(dataLen) + 4\n'),
('C07', 'batch.go', 'b.index = append(b.index, _BatchIndex{delFlag: false, offset: b.size})\n	b.size += int64(len(e.entry.cache) + 4)', 'b.size += int64(len(e.entry.cache) + 4)\n	b.index = append(b.index, _BatchIndex{delFlag: false, offset: b.size})'),
('C07', 'batch.go', '_BatchIndex{delFlag: true, offset: b.size})\n	b.size += int64(len(e.entry.cache) + 4)', '_BatchIndex{delFlag: true, offset: b.size})\n	b.size += int64(len(e.entry.cache))'),
('C07', 'batch.go', 'b.buffer.Slice(off+4, off+entrySize+4)', 'b.buffer.Slice(off, off+entrySize+4)'),
('C07', 'batch.go', 'b.buffer.Slice(off+4, off+dataLen)', 'b.buffer.Slice(off+4, off+dataLen-4)'),
('C07', 'batch.go', 'rawTopic := data[entrySize+idSize : entrySize+idSize+e.topicSize]', 'rawTopic := data[entrySize : entrySize+idSize+e.topicSize]'),
('C07', 'db.go', 'rawTopic := e.entry.cache[entrySize+idSize : entrySize+idSize+e.entry.topicSize]', 'rawTopic := e.entry.cache[entrySize+idSize-1 : entrySize+idSize+e.entry.topicSize]'),
('C07', 'db_internal.go', 'e.entry.cache[entrySize+idSize-1] = byte(eBit)', 'e.entry.cache[entrySize+idSize-2] = byte(eBit)'),
('C07', 'db_internal.go', 'copy(e.entry.cache[entrySize+idSize:], rawTopic)', 'copy(e.entry.cache[entrySize+idSize-1:], rawTopic)'),
('C07', 'db_internal.go', '			cache: data[entrySize:],', '			cache: data[entrySize+1:],'),
('C07', 'db_internal.go', '			topicSize: m.topicSize,\n', ''),
('C07', 'db_sync.go', '				topicSize: m.topicSize,\n', ''),
('C07', 'db_sync.go', 'valueSize: m.valueSize,', 'valueSize: uint32(m.topicSize),'),
('C07', 'recovery.go', 'cache: memdata[entrySize:],', 'cache: memdata,'),
('C07', 'block_reader.go', 'return e.cache[:idSize], e.cache[e.topicSize+idSize:], nil', 'return e.cache[:idSize], e.cache[idSize:], nil'),
('C07', 'block_reader.go', 'return message[:idSize], message[e.topicSize+idSize:], nil', 'return message[:idSize], message[idSize:], nil'),
('C07', 'block_reader.go', 'r.dataFile.slice(off+int64(idSize), off+int64(e.topicSize)+int64(idSize))', 'r.dataFile.slice(off+int64(idSize), off+int64(e.topicSize))'),
('C07', 'block_reader.go', 'return e.cache[idSize : e.topicSize+idSize], nil', 'return e.cache[idSize:], nil'),
('C07', 'message/id.go', 'binary.LittleEndian.PutUint32(newid[4:8], contract)', 'binary.LittleEndian.PutUint32(newid[0:4], contract)'),
('C07', 'message/id.go', 'return binary.LittleEndian.Uint64(id[8:16])', 'return uint64(binary.LittleEndian.Uint32(id[8:16]))'),
('C07', 'message/id.go', 'copy(prefix, id[:8])', 'copy(prefix, id[:7])'),
('C07', 'message/id.go', 'uid.Time(id[0:4])', 'uid.Time(id[4:8])'),
('C07', 'uid/uid.go', 'int64(math.MaxUint32-binary.LittleEndian.Uint32(id))', 'int64(math.MaxUint32-binary.BigEndian.Uint32(id))'),
('=C07', 'block_reader.go', '	message, err := r.dataFile.slice(e.msgOffset, e.msgOffset+int64(e.mSize()))', '	end := e.msgOffset + int64(e.mSize())\n	message, err := r.dataFile.slice(e.msgOffset, end)'),
('=C07', 'memdb/block.go', '	var scratch [4]byte\n	binary.LittleEndian.PutUint32(scratch[0:4], uint32(dataLen))\n	if _, err := b.data.WriteAt(scratch[:], off); err != nil {\n		return err\n	}\n\n	// k with flag bit\n	var k [9]byte\n	k[0] = ikey.delFlag\n	binary.LittleEndian.PutUint64(k[1:], ikey.key)\n	if _, err := b.data.WriteAt(k[:], off+4); err != nil {', '	var h [13]byte\n	binary.LittleEndian.PutUint32(h[0:4], uint32(dataLen))\n	h[4] = ikey.delFlag\n	binary.LittleEndian.PutUint64(h[5:], ikey.key)\n	if _, err := b.data.WriteAt(h[:], off); err != nil {'),
('=C07', 'memdb/db.go', '	scratch, err := block.data.Slice(off, off+4) // read data length.\n	if err != nil {\n		return nil, err\n	}\n	dataLen := int64(binary.LittleEndian.Uint32(scratch[:4]))\n	data, err := block.data.Slice(off, off+dataLen)\n	if err != nil {\n		return nil, err\n	}\n	db.internal.meter.Gets.Inc(1)\n\n	return data[8+1+4:], nil', '	_ = binary.LittleEndian\n	data, err := block.get(off)\n	if err != nil {\n		return nil, err\n	}\n	db.internal.meter.Gets.Inc(1)\n\n	return data, nil'),
('=C07', 'memdb/recovery.go', '				data := logData[off+4 : off+dataLen]\n				dBit := data[0]\n				key := binary.LittleEndian.Uint64(data[1:9])\n				val := data[9:]\n				off += dataLen\n', '				rec := logData[off : off+dataLen]\n				dBit := rec[4]\n				key := binary.LittleEndian.Uint64(rec[5:13])\n				val := rec[13:]\n				off = off + dataLen\n'),
('=C07', 'wal/reader.go', '	dataLen := binary.LittleEndian.Uint32(scratch)\n	data, err := r.buffer.Slice(r.offset+4, r.offset+int64(dataLen))\n	if err != nil {\n		return nil, false, errors.New("error reading log")\n	}\n	r.offset += int64(dataLen)', '	end := r.offset + int64(binary.LittleEndian.Uint32(scratch))\n	data, err := r.buffer.Slice(r.offset+4, end)\n	if err != nil {\n		return nil, false, errors.New("error reading log")\n	}\n	r.offset = end'),
('=C07', 'block.go', '	for i := 0; i < entriesPerIndexBlock; i++ {\n		_ = data[16] // bounds check hint to compiler; see golang.org/issue/14808\n		seq := int16(binary.LittleEndian.Uint16(data[:2]))', '	for i := range b.entries {\n		seq := int16(binary.LittleEndian.Uint16(data[0:2]))'),
('=C07', 'leasing.go', '	for i := 0; i < len(b.fb); i++ {\n		binary.LittleEndian.PutUint64(buf[:8], uint64(b.fb[i].offset))\n		binary.LittleEndian.PutUint32(buf[8:12], b.fb[i].size)\n', '	for _, f := range b.fb {\n		binary.LittleEndian.PutUint32(buf[8:12], f.size)\n		binary.LittleEndian.PutUint64(buf[:8], uint64(f.offset))\n'),
('=C07', 'time_window.go', '		binary.LittleEndian.PutUint64(buf[:8], e.sequence)\n		binary.LittleEndian.PutUint32(buf[8:12], e.expiresAt)\n		buf = buf[12:]\n	}\n	binary', '		binary.LittleEndian.PutUint64(data[12*i:], e.sequence)\n		binary.LittleEndian.PutUint32(data[12*i+8:], e.expiresAt)\n	}\n	buf = buf[12*entriesPerWindowBlock:]\n	binary'),
('=C07', [('batch.go', '		dataLen := int64(binary.LittleEndian.Uint32(data))\n		entryData, err := b.buffer.Slice(off+4, off+entrySize+4)', '		dataLen := int64(binary.LittleEndian.Uint32(data[:4]))\n		off += 4\n		dataLen -= 4\n		entryData, err := b.buffer.Slice(off, off+entrySize)'), ('batch.go', 'b.buffer.Slice(off+4, off+dataLen)', 'b.buffer.Slice(off, off+dataLen)')], 0, 0),
('=C07', 'message/id.go', '	if cutoff > 0 {\n		return uid.Time(id[0:4]) >= cutoff && binary.LittleEndian.Uint32(id[4:8]) == contract\n	}\n	return binary.LittleEndian.Uint32(id[4:8]) == contract', '	if binary.LittleEndian.Uint32(id[4:8]) != contract {\n		return false\n	}\n	return cutoff <= 0 || uid.Time(id[0:4]) >= cutoff'),
('C19', 'db_internal.go', '	return atomic.AddUint64(&db.internal.dbInfo.sequence, 1)\n', '	s := atomic.LoadUint64(&db.internal.dbInfo.sequence) + 1\n	atomic.StoreUint64(&db.internal.dbInfo.sequence, s)\n	return s\n'),
('C19', 'db_internal.go', '	return atomic.AddUint64(&db.internal.dbInfo.sequence, 1)\n', '	db.internal.dbInfo.sequence++\n	return db.internal.dbInfo.sequence\n'),
('C19', 'db_internal.go', '	return atomic.AddUint64(&db.internal.dbInfo.sequence, 1)\n', '	return atomic.AddUint64(&db.internal.dbInfo.sequence, 0)\n'),
('C19', 'db_internal.go', '	return atomic.AddUint64(&db.internal.dbInfo.sequence, 1)\n', '	atomic.AddUint64(&db.internal.dbInfo.sequence, 1)\n	return db.seq()\n'),
('C19', 'db_internal.go', '		if cur >= seq || atomic', '		if cur > seq || atomic'),
('C19', 'db_internal.go', '		if cur >= seq || atomic', '		if cur <= seq || atomic'),
('C19', 'db_internal.go', '		if cur >= seq || atomic.CompareAndSwapUint64(&db.internal.dbInfo.sequence, cur, seq) {\n			return\n		}', '		if cur < seq {\n			atomic.CompareAndSwapUint64(&db.internal.dbInfo.sequence, cur, seq)\n		}\n		return'),
('C19', 'db_internal.go', '	for {\n		cur := db.seq()\n		if cur >= seq || atomic.CompareAndSwapUint64(&db.internal.dbInfo.sequence, cur, seq) {\n			return\n		}\n	}', '	if db.seq() < seq {\n		atomic.StoreUint64(&db.internal.dbInfo.sequence, seq)\n	}'),
('C19', 'db_internal.go', '		seq = db.nextSeq()\n', '		seq = db.seq()\n'),
('C19', 'db_internal.go', '		id = message.NewID(seq)\n', '		id = message.NewID(db.seq())\n'),
('C19', 'db_internal.go', '	e.entry.seq = seq\n', '	e.entry.seq = seq - 1\n'),
('C19', 'db_internal.go', '	e.entry.seq = seq\n', '	if e.entry.seq == 0 {\n		e.entry.seq = seq\n	}\n'),
('C19', 'db.go', '	return message.NewID(db.nextSeq())', '	return message.NewID(db.seq() + 1)'),
('C19', 'db_internal.go', '		sequence:   atomic.LoadUint64(&db.internal.dbInfo.sequence),\n', ''),
('C19', 'db_internal.go', '		sequence:   atomic.LoadUint64(&db.internal.dbInfo.sequence),\n', '		sequence:   atomic.LoadUint64(&db.internal.dbInfo.count),\n'),
('C19', 'db_internal.go', '	return db.internal.info.writeMarshalableAt(inf, 0)', '	return db.internal.info.writeMarshalableAt(inf, int64(fixed))'),
('C19', 'db_internal.go', '	if err1 := db.writeInfo(); err1 != nil && err == nil {\n		err = err1\n	}\n', ''),
('C19', 'db_sync.go', '	if err := db.writeInfo(); err != nil {', '	if err := error(nil); err != nil {'),
('C19', 'db.go', '	if infoFile.currSize() == 0 {', '	if infoFile.currSize() <= int64(fixed) {'),
('C19', 'db.go', '		dbInfo: dbInfo,\n', '		dbInfo: _DBInfo{header: dbInfo.header, encryption: dbInfo.encryption, count: dbInfo.count},\n'),
('C19', 'db.go', '		dbInfo: dbInfo,\n', '		dbInfo: _DBInfo{header: dbInfo.header, encryption: dbInfo.encryption, count: dbInfo.count, sequence: dbInfo.count},\n'),
('C19', 'db.go', '		internal.dbInfo.encryption = 1\n', '		internal.dbInfo = _DBInfo{header: dbInfo.header, encryption: 1}\n'),
('C19', 'recovery.go', '	for _, seq := range db.internal.mem.Keys() {\n		db.raiseSeq(seq)\n	}\n', ''),
('C19', 'recovery.go', '	for _, seq := range db.internal.mem.Keys() {\n		db.raiseSeq(seq)\n	}\n', '	for i, seq := range db.internal.mem.Keys() {\n		if i%2 == 0 {\n			continue\n		}\n		db.raiseSeq(seq)\n	}\n'),
('C19', 'recovery.go', '	for _, seq := range db.internal.mem.Keys() {\n		db.raiseSeq(seq)\n	}\n', '	for _, seq := range db.internal.mem.Keys() {\n		db.raiseSeq(seq)\n		break\n	}\n'),
('C19', 'recovery.go', '	for _, seq := range db.internal.mem.Keys() {\n		db.raiseSeq(seq)\n', '	for i := range db.internal.mem.Keys() {\n		db.raiseSeq(uint64(i))\n'),
('C19', 'block_writer.go', '	if e.seq == 0 {\n		panic("unable to append zero sequence")\n	}\n', ''),
('=C19', 'db_internal.go', '	for {\n		cur := db.seq()\n		if cur >= seq || atomic.CompareAndSwapUint64(&db.internal.dbInfo.sequence, cur, seq) {\n			return\n		}\n	}', '	cur := db.seq()\n	for seq > cur {\n		if atomic.CompareAndSwapUint64(&db.internal.dbInfo.sequence, cur, seq) {\n			break\n		}\n		cur = db.seq()\n	}'),
('=C19', 'db_internal.go', '		if cur >= seq || atomic.CompareAndSwapUint64(&db.internal.dbInfo.sequence, cur, seq) {\n			return\n		}', '		if !(cur < seq) {\n			return\n		}\n		p := &db.internal.dbInfo.sequence\n		if atomic.CompareAndSwapUint64(p, cur, seq) {\n			return\n		}'),
('=C19', 'db_internal.go', '	return atomic.AddUint64(&db.internal.dbInfo.sequence, 1)\n', '	inf := &db.internal.dbInfo\n	next := atomic.AddUint64(&inf.sequence, 1)\n	return next\n'),
('=C19', 'db_internal.go', '		seq = db.nextSeq()\n		id = message.NewID(seq)\n', '		id = db.NewID()\n		seq = id.Sequence()\n'),
('=C19', 'db_internal.go', '	if seq == 0 {\n		panic("db.setEntry: seq is zero")\n	}\n', '	if !(seq > 0) {\n		panic("db.setEntry: seq is zero")\n	}\n'),
('=C19', 'db_internal.go', '		sequence:   atomic.LoadUint64(&db.internal.dbInfo.sequence),\n', '		sequence:   db.seq(),\n'),
('=C19', 'db_internal.go', '	inf := _DBInfo{\n		header: _Header{\n			signature: signature,\n			version:   version,\n		},\n		encryption: db.internal.dbInfo.encryption,\n		sequence:   atomic.LoadUint64(&db.internal.dbInfo.sequence),\n		count:      atomic.LoadUint64(&db.internal.dbInfo.count),\n	}\n', '	inf := _DBInfo{encryption: db.internal.dbInfo.encryption}\n	inf.header = _Header{signature: signature, version: version}\n	inf.count = atomic.LoadUint64(&db.internal.dbInfo.count)\n	inf.sequence = db.seq()\n'),
('=C19', 'recovery.go', '	for _, seq := range db.internal.mem.Keys() {\n		db.raiseSeq(seq)\n	}\n', '	keys := db.internal.mem.Keys()\n	for i := 0; i < len(keys); i++ {\n		db.raiseSeq(keys[i])\n	}\n'),
('=C19', 'recovery.go', '	for _, seq := range db.internal.mem.Keys() {\n		db.raiseSeq(seq)\n	}\n', '	upper := uint64(0)\n	for _, seq := range db.internal.mem.Keys() {\n		if seq > upper {\n			upper = seq\n		}\n	}\n	db.raiseSeq(upper)\n'),
('=C19', 'db.go', '	if infoFile.currSize() == 0 {', '	if sz := infoFile.currSize(); sz <= 0 {'),
('C24', 'db.go', '		b.unsetManaged()\n		b.Abort()\n		close(b.commitComplete)\n		return err\n', '		b.unsetManaged()\n		b.Abort()\n		return err\n'),
('C24', 'db.go', '		b.unsetManaged()\n		b.Abort()\n		close(b.commitComplete)\n		return err\n', '		b.unsetManaged()\n		close(b.commitComplete)\n		return err\n'),
('C24', 'db.go', '		b.unsetManaged()\n		b.Abort()\n		close(b.commitComplete)\n		return err\n', '		b.unsetManaged()\n		b.Abort()\n		close(b.commitComplete)\n		return nil\n'),
('C24', 'db.go', '		b.unsetManaged()\n		b.Abort()\n		close(b.commitComplete)\n		return err\n', '		b.Abort()\n		close(b.commitComplete)\n		return err\n'),
('C24', 'db.go', '		b.unsetManaged()\n		b.Abort()\n		close(b.commitComplete)\n		return err\n', '		b.unsetManaged()\n		close(b.commitComplete)\n		if b.len() > 0 {\n			b.Abort()\n		}\n		return err\n'),
('C24', 'db.go', '		b.unsetManaged()\n		b.Abort()\n		close(b.commitComplete)\n		return err\n', '		b.unsetManaged()\n		b.Commit()\n		return err\n'),
('C24', 'db.go', '	b.unsetManaged()\n	return b.Commit()', '	b.unsetManaged()\n	if b.len() == 0 {\n		return nil\n	}\n	return b.Commit()'),
('C24', 'db.go', '	b.unsetManaged()\n	return b.Commit()', '	b.unsetManaged()\n	b.Commit()\n	return nil'),
('C24', 'db.go', '	b.setManaged()\n\n	// If', '	// If'),
('C24', 'memdb/db.go', '		b.unsetManaged()\n		b.Abort()\n		close(b.commitComplete)\n		return err\n', '		b.unsetManaged()\n		close(b.commitComplete)\n		return err\n'),
('C24', 'memdb/db.go', '		b.unsetManaged()\n		b.Abort()\n		close(b.commitComplete)\n		return err\n', '		b.unsetManaged()\n		close(b.commitComplete)\n		return b.Abort()\n'),
('C24', 'batch.go', '		close(b.commitComplete)\n		b.db.internal.closeW.Done()\n', '		b.db.internal.closeW.Done()\n'),
('C24', 'batch.go', '	// Write if any pending entries in batch.\n	if err := b.Write(); err != nil {\n		return err\n	}\n', '	// Write if any pending entries in batch.\n	if err := b.Write(); err != nil {\n		close(b.commitComplete)\n		return err\n	}\n'),
('C24', 'batch.go', '	// Write if any pending entries in batch.\n	if err := b.Write(); err != nil {\n		return err\n	}\n', ''),
('C24', 'batch.go', '	// Commit batch to database.\n	if err := b.mem.Commit(); err != nil {\n		return err\n	}\n', ''),
('C24', 'batch.go', '		b.db.internal.closeW.Done()\n		b.Abort()\n', '		b.db.internal.closeW.Done()\n'),
('C24', 'batch.go', '	b.reset()\n	b.mem.Abort()\n	b.db', '	b.reset()\n	b.db'),
('C24', 'memdb/batch.go', '	defer func() {\n		close(b.commitComplete)\n		b.Abort()\n	}()\n\n	// Write', '	defer close(b.commitComplete)\n\n	// Write'),
('C24', 'memdb/batch.go', '	for _, timeID := range b.batchGroup {\n		b.db.internal.timeMark.add(timeID)\n		b.db.internal.timeMark.release(timeID)\n	}\n', '	timeID := b.batchGroup[len(b.batchGroup)-1]\n	b.db.internal.timeMark.add(timeID)\n	b.db.internal.timeMark.release(timeID)\n'),
('C24', 'memdb/batch.go', '	for _, timeID := range b.batchGroup {\n		b.db.internal.timeMark.add(timeID)\n', '	for i, timeID := range b.batchGroup {\n		if i == 0 {\n			continue\n		}\n		b.db.internal.timeMark.add(timeID)\n'),
('C24', 'memdb/batch.go', '	for _, timeID := range b.batchGroup {\n		b.db.internal.timeMark.add(timeID)\n', '	for _, timeID := range b.batchGroup {\n'),
('C24', 'memdb/batch.go', 'range append(b.batchGroup, b.tinyLog.timeID()) {', 'range b.batchGroup {'),
('C24', 'memdb/batch.go', '		if err1 := b.db.releaseLog(ID); err1 != nil && err1 != errEntryDoesNotExist {\n			err = err1\n		}', '		if err1 := b.db.releaseLog(ID); err1 != nil && err1 != errEntryDoesNotExist {\n			err = err1\n			break\n		}'),
('C24', 'memdb/batch.go', '	for _, ID := range append(b.batchGroup, b.tinyLog.timeID()) {\n		if err1 := b.db.releaseLog(ID); err1 != nil && err1 != errEntryDoesNotExist {\n			err = err1\n		}\n	}\n', '	err = b.db.releaseLog(b.tinyLog.timeID())\n'),
('C24', 'memdb/batch.go', '	b.batchGroup = b.batchGroup[:0]\n	b.db = nil\n\n	return err', '	b.batchGroup = b.batchGroup[:0]\n\n	return err'),
('C24', 'memdb/batch.go', '	if b.db == nil {\n		// batch is already complete.\n		return nil\n	}\n', ''),
('C24', 'memdb/batch.go', '	b.batchGroup = append(b.batchGroup, timeID)\n', ''),
('C24', 'memdb/batch.go', '	b.batchGroup = append(b.batchGroup, timeID)\n	b.newTinyLog()\n', '	b.newTinyLog()\n	b.batchGroup = append(b.batchGroup, b.tinyLog.timeID())\n'),
('C24', 'memdb/batch.go', '	b.batchGroup = append(b.batchGroup, timeID)\n	b.newTinyLog()\n', '	b.batchGroup = append(b.batchGroup, timeID)\n'),
('C24', 'memdb/batch.go', '		b.tinyLog = &_TinyLog{id: _TimeID(time.Now().UTC().UnixNano()), _TimeID: timeID, managed: true, doneChan: make(chan struct{})}\n		return err', '		b.newTinyLog()\n		return err'),
('C24', 'batch.go', '		if index.delFlag && e.seq != 0 {\n', '		if i > 0 && index.delFlag && e.seq != 0 {\n'),
('C24', 'batch.go', '			if err := b.db.delete(e.topicHash, e.seq); err != nil {\n				return err\n			}\n			continue\n', '			return b.db.delete(e.topicHash, e.seq)\n'),
('C24', 'batch.go', '			if !b.db.internal.filter.Test(e.seq) {\n				continue\n			}\n', '			if !b.db.internal.filter.Test(e.seq) {\n				return nil\n			}\n'),
('C24', 'batch.go', '			if !b.db.internal.filter.Test(e.seq) {\n', '			if !b.db.internal.filter.Test(e.topicHash) {\n'),
('C24', 'batch.go', '	for i, index := range b.index {\n', '	for i, index := range b.index[1:] {\n'),
('C24', 'batch.go', '		if err := fn(i, e, data); err != nil {\n			return err\n		}\n', '		if err := fn(i, e, data); err != nil {\n			break\n		}\n'),
('C24', 'batch.go', '		if ok := b.db.internal.timeWindow.add(timeID, e.topicHash, newWinEntry(e.seq, e.expiresAt)); !ok {\n			return errForbidden\n		}\n', '		b.db.internal.timeWindow.add(timeID, e.topicHash, newWinEntry(e.seq, e.expiresAt))\n'),
('C24', 'batch.go', '		if ok := b.db.internal.timeWindow.add(timeID, e.topicHash, newWinEntry(e.seq, e.expiresAt)); !ok {\n			return errForbidden\n		}\n', '		_ = timeID\n'),
('C24', 'batch.go', 'timeWindow.add(timeID, e.topicHash, newWinEntry(e.seq, e.expiresAt))', 'timeWindow.add(timeID+1, e.topicHash, newWinEntry(e.seq, e.expiresAt))'),
('C24', 'batch.go', '	if err := b.mem.Write(); err != nil {\n		return err\n	}\n	b.reset()', '	b.reset()'),
('C24', 'batch.go', '			b.db.internal.trie.add(newTopic(e.topicHash, 0), t.Parts, t.Depth)\n', ''),
('C24', 'batch.go', 'if err := b.mem.Put(e.seq, data)', 'if err := b.mem.Put(e.topicHash, data)'),
('C24', 'batch.go', '	b.index = append(b.index, _BatchIndex{delFlag: true, offset: b.size})', '	b.index = append(b.index, _BatchIndex{delFlag: false, offset: b.size})'),
('C24', 'batch.go', '	b.index = append(b.index, _BatchIndex{delFlag: true, offset: b.size})', '	b.index = append(b.index[:0], _BatchIndex{delFlag: true, offset: b.size})'),
('C24', 'batch.go', '	b.index = append(b.index, _BatchIndex{delFlag: false, offset: b.size})\n', ''),
('=C24', 'db.go', '	if err := fn(b, b.commitComplete); err != nil {\n		b.unsetManaged()\n		b.Abort()\n		close(b.commitComplete)\n		return err\n	}\n	b.unsetManaged()\n	return b.Commit()', '	err := fn(b, b.commitComplete)\n	b.unsetManaged()\n	if err == nil {\n		return b.Commit()\n	}\n	defer close(b.commitComplete)\n	b.Abort()\n	return err'),
('=C24', 'batch.go', '	// Write if any pending entries in batch.\n	if err := b.Write(); err != nil {\n		return err\n	}\n\n	// Commit batch to database.\n	if err := b.mem.Commit(); err != nil {\n		return err\n	}\n\n	return nil\n', '	err := b.Write()\n	if err == nil {\n		err = b.mem.Commit()\n	}\n	return err\n'),
('=C24', 'memdb/batch.go', '	for _, ID := range append(b.batchGroup, b.tinyLog.timeID()) {\n		if err1 := b.db.releaseLog(ID); err1 != nil && err1 != errEntryDoesNotExist {\n			err = err1\n		}\n	}\n', '	for _, ID := range b.batchGroup {\n		if err1 := b.db.releaseLog(ID); err1 != nil && err1 != errEntryDoesNotExist {\n			err = err1\n		}\n	}\n	if err1 := b.db.releaseLog(b.tinyLog.timeID()); err1 != nil && err1 != errEntryDoesNotExist {\n		err = err1\n	}\n'),
('=C24', 'memdb/batch.go', '	for _, ID := range append(b.batchGroup, b.tinyLog.timeID()) {\n', '	ids := append(b.batchGroup, b.tinyLog.timeID())\n	for i := 0; i < len(ids); i++ {\n		ID := ids[i]\n'),
('=C24', 'batch.go', '		if index.delFlag && e.seq != 0 {\n			/// Test filter block for presence.\n			if !b.db.internal.filter.Test(e.seq) {\n				continue\n			}\n			if err := b.db.delete(e.topicHash, e.seq); err != nil {\n				return err\n			}\n			continue\n		}\n', '		if index.delFlag {\n			if b.db.internal.filter.Test(e.seq) {\n				if err := b.db.delete(e.topicHash, e.seq); err != nil {\n					return err\n				}\n			}\n			continue\n		}\n'),
('=C24', 'batch.go', '	for i, index := range b.index {\n', '	for i := 0; i < len(b.index); i++ {\n		index := b.index[i]\n'),
('=C24', 'batch.go', '	b.index = append(b.index, _BatchIndex{delFlag: true, offset: b.size})\n	b.size += int64(len(e.entry.cache) + 4)\n', '	idx := _BatchIndex{offset: b.size}\n	idx.delFlag = true\n	b.size += int64(len(e.entry.cache) + 4)\n	b.index = append(b.index, idx)\n'),
('=C24', [('batch.go', '	b.index = append(b.index, _BatchIndex{delFlag: true, offset: b.size})\n	b.size += int64(len(e.entry.cache) + 4)\n', '	b.addIndex(e, true)\n'), ('batch.go', '	b.index = append(b.index, _BatchIndex{delFlag: false, offset: b.size})\n	b.size += int64(len(e.entry.cache) + 4)\n', '	b.addIndex(e, false)\n'), ('batch.go', 'func (b *Batch) reset() {', 'func (b *Batch) addIndex(e *Entry, del bool) {\n	b.index = append(b.index, _BatchIndex{delFlag: del, offset: b.size})\n	b.size += int64(len(e.entry.cache) + 4)\n}\n\nfunc (b *Batch) reset() {')], 0, 0),
('=C24', 'memdb/batch.go', '	for _, timeID := range b.batchGroup {\n		b.db.internal.timeMark.add(timeID)\n		b.db.internal.timeMark.release(timeID)\n	}\n\n	b.batchGroup = b.batchGroup[:0]', '	group := b.batchGroup\n	for i := range group {\n		id := group[i]\n		b.db.internal.timeMark.add(id)\n		b.db.internal.timeMark.release(id)\n	}\n\n	b.batchGroup = b.batchGroup[:0]'),
('C18', 'leasing.go', '	if fbs.cache[off] {\n		return\n	}\n', ''),
('C18', 'leasing.go', '	fbs := l.freeBlocks(uint64(off))\n	fbs.Lock()\n	defer fbs.Unlock()\n	// Verify that block is not already free.\n	if fbs.cache[off] {\n		return\n	}\n', '	fbs := l.freeBlocks(uint64(off))\n	fbs.RLock()\n	free := fbs.cache[off]\n	fbs.RUnlock()\n	if free {\n		return\n	}\n	fbs.Lock()\n	defer fbs.Unlock()\n'),
('C18', 'leasing.go', '	fbs.cache[off] = true\n	atomic', '	atomic'),
('C18', 'leasing.go', '	fbs.cache[off] = true\n	atomic', '	fbs.cache[int64(size)] = true\n	atomic'),
('C18', 'leasing.go', '	fbs.cache[off] = true\n	atomic.AddInt64(&l.size, int64(size))\n', '	fbs.cache[off] = true\n'),
('C18', 'leasing.go', '_FreeBlock{offset: off, size: size})\n	fbs.cache', '_FreeBlock{offset: off, size: size + 1})\n	fbs.cache'),
('C18', 'leasing.go', 'atomic.AddInt64(&l.size, int64(size))', 'atomic.AddInt64(&l.size, -int64(size))'),
('C18', 'leasing.go', 'atomic.AddInt64(&l.size, -int64(size))', 'atomic.AddInt64(&l.size, int64(size))'),
('C18', 'leasing.go', '	if fbs.fb[i].size == size {', '	if fbs.fb[i].size <= size+26 {'),
('C18', 'leasing.go', '	if fbs.fb[i].size == size {', '	if i >= 0 {'),
('C18', 'leasing.go', '		fbs.fb[i].size -= size\n', ''),
('C18', 'leasing.go', '		fbs.fb[i].offset += int64(size)\n', ''),
('C18', 'leasing.go', '		fbs.fb[i].offset += int64(size)\n', '		fbs.fb[i].offset += int64(fbs.fb[i].size)\n'),
('C18', 'leasing.go', '		fbs.cache[fbs.fb[i].offset] = true\n', ''),
('C18', 'leasing.go', '	delete(fbs.cache, off)\n', ''),
('C18', 'leasing.go', '	delete(fbs.cache, off)\n', '	delete(fbs.cache, fbs.fb[i].offset)\n'),
('C18', 'leasing.go', '		copy(fbs.fb[i:], fbs.fb[i+1:])\n', ''),
('C18', 'leasing.go', '		fbs.fb = fbs.fb[:len(fbs.fb)-1]\n', ''),
('C18', 'leasing.go', '		return b.fb[i].size >= size\n', '		return b.fb[i].size <= size\n'),
('C18', 'leasing.go', '	return off\n}\n\nfunc (l *_Lease) read', '	return fbs.fb[i].offset\n}\n\nfunc (l *_Lease) read'),
('C18', 'leasing.go', '	if i >= len(fbs.fb) {\n		return -1\n	}\n', '	if i > len(fbs.fb) {\n		return -1\n	}\n'),
('C18', 'leasing.go', '	if atomic.LoadInt64(&l.size) < l.minimumFreeBlocksSize {\n		return -1\n	}\n	fbs := l.freeBlocks(uint64(size))\n	fbs.Lock()\n	defer fbs.Unlock()\n	i := fbs.search(size)\n', '	if atomic.LoadInt64(&l.size) < l.minimumFreeBlocksSize {\n		return -1\n	}\n	fbs := l.freeBlocks(uint64(size))\n	fbs.RLock()\n	i := fbs.search(size)\n	fbs.RUnlock()\n	fbs.Lock()\n	defer fbs.Unlock()\n'),
('C18', 'leasing.go', '			delete(b.cache, b.fb[i].offset)\n', ''),
('C18', 'leasing.go', '	merged = append(merged, _FreeBlock{offset: curOff, size: curSize})\n', ''),
('C18', 'leasing.go', '			curSize += b.fb[i].size\n			delete', '			delete'),
('C18', 'leasing.go', '			curOff = b.fb[i].offset\n', ''),
('C18', 'leasing.go', '			curSize = b.fb[i].size\n		}', '		}'),
('C18', 'leasing.go', 'if curOff+int64(curSize) == b.fb[i].offset {', 'if curOff+int64(curSize) >= b.fb[i].offset {'),
('C18', 'leasing.go', 'if curOff+int64(curSize) == b.fb[i].offset {', 'if curOff+int64(curSize) != b.fb[i].offset {'),
('C18', 'leasing.go', '	sort.Slice(b.fb[:l], func(i, j int) bool {\n		return b.fb[i].offset < b.fb[j].offset\n	})\n', ''),
('C18', 'leasing.go', '		return b.fb[i].offset < b.fb[j].offset\n', '		return b.fb[i].size < b.fb[j].size\n'),
('C18', 'leasing.go', '	for i := 1; i < l; i++ {', '	for i := 1; i < l-1; i++ {'),
('C18', 'leasing.go', '	b.fb = merged\n', ''),
('C18', 'leasing.go', '		fbs.Lock()\n		fbs.defrag()\n		fbs.Unlock()\n', '		fbs.RLock()\n		fbs.defrag()\n		fbs.RUnlock()\n'),
('C18', 'leasing.go', '	if err := l.file.Truncate(0); err != nil {\n		return err\n	}\n	return l.file.Sync()\n', '	return nil\n'),
('C18', 'leasing.go', '	return l.file.Sync()\n', '	return nil\n'),
('C18', 'leasing.go', '		l.freeBlock(b.offset, b.size)\n', '		if int64(b.size) < l.minimumFreeBlocksSize {\n			continue\n		}\n		l.freeBlock(b.offset, b.size)\n'),
('C18', 'leasing.go', '		fbs.RLock()\n		blocks.fb', '		if fbs.len() < 2 {\n			continue\n		}\n		fbs.RLock()\n		blocks.fb'),
('C18', 'leasing.go', '	for i := 0; i < nShards; i++ {\n		fbs := l.blocks[i]\n		fbs.RLock()', '	for i := 1; i < nShards; i++ {\n		fbs := l.blocks[i]\n		fbs.RLock()'),
('C18', 'leasing.go', '	if err := l.file.Truncate(0); err != nil {\n		return err\n	}\n	var off int64', '	var off int64'),
('C18', 'db_internal.go', '	e, err := w.del(seq)\n	if err != nil {\n		return err\n	}\n	if e.seq == 0 {\n		return nil // entry does not exist in db or it is already deleted.\n	}\n', '	e, err := w.del(seq)\n	if err != nil {\n		return err\n	}\n'),
('C18', 'db_internal.go', 'freeBlock(e.msgOffset, e.mSize())', 'freeBlock(e.msgOffset, e.valueSize)'),
('C18', 'db_internal.go', '	if e.topicSize == 0 {\n		db.internal.freeList.freeBlock(e.msgOffset, e.mSize())\n	}\n', '	db.internal.freeList.freeBlock(e.msgOffset, e.mSize())\n'),
('C18', 'block_writer.go', '	if entryIdx == -1 || b.entries[entryIdx].isDeleted() {', '	if entryIdx == -1 {'),
('C18', 'block_writer.go', '	b.entries[entryIdx].msgOffset = ^delEntry.msgOffset\n', ''),
('C18', 'block_writer.go', '	if _, err := w.indexFile.WriteAt(b.marshalBinary(), blockOffset(bIdx)); err != nil {\n		return _IndexEntry{}, err\n	}\n\n	return delEntry', '	return delEntry'),
('C18', 'block_writer.go', '	delEntry = b.entries[entryIdx]\n	b.entries[entryIdx].msgOffset = ^delEntry.msgOffset\n', '	b.entries[entryIdx].msgOffset = ^b.entries[entryIdx].msgOffset\n	delEntry = b.entries[entryIdx]\n'),
('C18', 'block_writer.go', '	for off, size := range w.dataLeases {\n		w.lease.freeBlock(off, size)', '	for off, size := range w.dataLeases {\n		w.lease.freeBlock(off, size+1)'),
('C18', 'block_writer.go', '	w.dataLeases = make(map[int64]uint32)\n\n	return nil', '	return nil'),
('=C18', 'leasing.go', '		copy(fbs.fb[i:], fbs.fb[i+1:])\n		fbs.fb[len(fbs.fb)-1] = _FreeBlock{}\n		fbs.fb = fbs.fb[:len(fbs.fb)-1]\n', '		fbs.fb = append(fbs.fb[:i], fbs.fb[i+1:]...)\n'),
('=C18', 'leasing.go', '		fbs.fb[i].size -= size\n		fbs.fb[i].offset += int64(size)\n		fbs.cache[fbs.fb[i].offset] = true\n', '		rest := _FreeBlock{offset: off + int64(size), size: fbs.fb[i].size - size}\n		fbs.fb[i] = rest\n		fbs.cache[rest.offset] = true\n'),
('=C18', 'leasing.go', '		fbs.fb[i].size -= size\n		fbs.fb[i].offset += int64(size)\n		fbs.cache[fbs.fb[i].offset] = true\n	}\n	delete(fbs.cache, off)\n', '		b := &fbs.fb[i]\n		b.offset += int64(size)\n		b.size = b.size - size\n		fbs.cache[b.offset] = true\n	}\n	delete(fbs.cache, off)\n'),
('=C18', 'leasing.go', '	if fbs.fb[i].size == size {\n		copy(fbs.fb[i:], fbs.fb[i+1:])\n		fbs.fb[len(fbs.fb)-1] = _FreeBlock{}\n		fbs.fb = fbs.fb[:len(fbs.fb)-1]\n	} else {\n		fbs.fb[i].size -= size\n		fbs.fb[i].offset += int64(size)\n		fbs.cache[fbs.fb[i].offset] = true\n	}\n', '	if fbs.fb[i].size > size {\n		fbs.fb[i].size -= size\n		fbs.fb[i].offset += int64(size)\n		fbs.cache[fbs.fb[i].offset] = true\n	} else {\n		copy(fbs.fb[i:], fbs.fb[i+1:])\n		fbs.fb[len(fbs.fb)-1] = _FreeBlock{}\n		fbs.fb = fbs.fb[:len(fbs.fb)-1]\n	}\n'),
('=C18', 'leasing.go', '	return sort.Search(len(b.fb), func(i int) bool {\n		return b.fb[i].size >= size\n	})\n', '	for i := range b.fb {\n		if b.fb[i].size >= size {\n			return i\n		}\n	}\n	return len(b.fb)\n'),
('=C18', 'leasing.go', '	if fbs.cache[off] {\n		return\n	}\n', '	if _, ok := fbs.cache[off]; ok {\n		return\n	}\n'),
('=C18', [('leasing.go', '	fbs.fb = append(fbs.fb, _FreeBlock{offset: off, size: size})\n	fbs.cache[off] = true\n	atomic', '	fbs.add(off, size)\n	atomic'), ('leasing.go', 'func (b *_FreeBlocks) len() int {', 'func (b *_FreeBlocks) add(off int64, size uint32) {\n	b.fb = append(b.fb, _FreeBlock{offset: off, size: size})\n	b.cache[off] = true\n}\n\nfunc (b *_FreeBlocks) len() int {')], 0, 0),
('=C18', 'leasing.go', '	for i := 1; i < l; i++ {\n		if curOff+int64(curSize) == b.fb[i].offset {\n			curSize += b.fb[i].size\n			delete(b.cache, b.fb[i].offset)\n		} else {\n			merged = append(merged, _FreeBlock{size: curSize, offset: curOff})\n			curOff = b.fb[i].offset\n			curSize = b.fb[i].size\n		}\n	}\n', '	for _, f := range b.fb[1:] {\n		if curOff+int64(curSize) != f.offset {\n			merged = append(merged, _FreeBlock{size: curSize, offset: curOff})\n			curOff, curSize = f.offset, f.size\n			continue\n		}\n		delete(b.cache, f.offset)\n		curSize += f.size\n	}\n'),
('=C18', 'leasing.go', '	merged = append(merged, _FreeBlock{offset: curOff, size: curSize})\n	sort', '	last := _FreeBlock{offset: curOff, size: curSize}\n	merged = append(merged, last)\n	sort'),
('=C18', 'leasing.go', '	var merged []_FreeBlock\n	curOff := b.fb[0].offset\n	curSize := b.fb[0].size\n	for i := 1; i < l; i++ {\n		if curOff+int64(curSize) == b.fb[i].offset {\n			curSize += b.fb[i].size\n			delete(b.cache, b.fb[i].offset)\n		} else {\n			merged = append(merged, _FreeBlock{size: curSize, offset: curOff})\n			curOff = b.fb[i].offset\n			curSize = b.fb[i].size\n		}\n	}\n	merged = append(merged, _FreeBlock{offset: curOff, size: curSize})\n', '	var merged []_FreeBlock\n	cur := b.fb[0]\n	for i := 1; i < l; i++ {\n		if cur.offset+int64(cur.size) == b.fb[i].offset {\n			cur.size += b.fb[i].size\n			delete(b.cache, b.fb[i].offset)\n		} else {\n			merged = append(merged, cur)\n			cur = b.fb[i]\n		}\n	}\n	merged = append(merged, cur)\n'),
('=C18', 'leasing.go', '	for i := 0; i < nShards; i++ {\n		fbs := l.blocks[i]\n		fbs.Lock()\n		fbs.defrag()\n		fbs.Unlock()\n	}\n', '	for _, fbs := range l.blocks {\n		fbs.Lock()\n		fbs.defrag()\n		fbs.Unlock()\n	}\n'),
('=C18', 'leasing.go', '	for i := 0; i < nShards; i++ {\n		fbs := l.blocks[i]\n		fbs.RLock()\n		blocks.fb', '	for _, fbs := range l.blocks {\n		fbs.RLock()\n		blocks.fb'),
('=C18', 'leasing.go', '	for _, b := range blocks.fb {\n		l.freeBlock(b.offset, b.size)\n	}\n', '	for i := range blocks.fb {\n		l.freeBlock(blocks.fb[i].offset, blocks.fb[i].size)\n	}\n'),
('=C18', 'db_internal.go', '	if e.topicSize == 0 {\n		db.internal.freeList.freeBlock(e.msgOffset, e.mSize())\n	}\n	db.decount(1)\n', '	db.decount(1)\n	if e.topicSize > 0 {\n		return nil\n	}\n	off, size := e.msgOffset, e.mSize()\n	db.internal.freeList.freeBlock(off, size)\n'),
('=C18', 'block_writer.go', '	for off, size := range w.dataLeases {\n		w.lease.freeBlock(off, size)\n	}\n', '	for off := range w.dataLeases {\n		w.lease.freeBlock(off, w.dataLeases[off])\n	}\n'),
('C25', 'time_window_writer.go', 'b = _WinBlock{topicHash: topicHash, next: next}', '_ = next\n			b = _WinBlock{topicHash: topicHash}'),
('C25', 'time_window_writer.go', '			next := winBlockOffset(wIdx)\n			// set approximate cutoff on winBlock.\n			b.cutoffTime = time.Now().Unix()\n			w.winBlocks[wIdx] = b\n			w.windowIdx++\n			wIdx = w.windowIdx\n			b =', '			// set approximate cutoff on winBlock.\n			b.cutoffTime = time.Now().Unix()\n			w.winBlocks[wIdx] = b\n			w.windowIdx++\n			wIdx = w.windowIdx\n			next := winBlockOffset(wIdx)\n			b ='),
('C25', 'time_window_writer.go', '			next := winBlockOffset(wIdx)\n', '			next := b.next\n'),
('C25', 'time_window_writer.go', '			b.cutoffTime = time.Now().Unix()\n			w.winBlocks[wIdx] = b\n', '			b.cutoffTime = time.Now().Unix()\n'),
('C25', 'time_window_writer.go', '			wIdx = w.windowIdx\n			b =', '			b ='),
('C25', 'time_window_writer.go', 'if b.entryIdx == entriesPerWindowBlock {', 'if b.entryIdx > entriesPerWindowBlock {'),
('C25', 'time_window_writer.go', '		b.entryIdx++\n', ''),
('C25', 'time_window_writer.go', '	return winBlockOffset(wIdx), nil', '	return off, nil'),
('C25', 'time_window_writer.go', '	w.winBlocks[wIdx] = b\n\n	return', '	return'),
('C25', 'time_window_writer.go', '			b, err = r.readWindowBlock()\n			if err != nil {\n				return 0, err\n			}\n', '			b, _ = r.readWindowBlock()\n'),
('C25', 'time_window_writer.go', '		if we.sequence == 0 {\n			continue\n		}\n', '		if we.sequence == 0 || we.isExpired() {\n			continue\n		}\n'),
('C25', 'time_window_writer.go', 'if !ok && off > 0 {', 'if !ok && off > int64(blockSize) {'),
('C25', 'time_window_writer.go', '		wIdx = int32(off / int64(blockSize))\n', '		wIdx = int32(off/int64(blockSize)) + 1\n'),
('C25', 'time_window_writer.go', '		if wIdx <= w.windowIdx {', '		if wIdx < w.windowIdx {'),
('C25', 'time_window_writer.go', '	b.topicHash = topicHash\n	for', '	for'),
('C25', 'db_sync.go', '			db.topicOffsets[h] = wOff\n', '			if topicOff == 0 {\n				db.topicOffsets[h] = wOff\n			}\n'),
('C25', 'db_sync.go', '			db.topicOffsets[h] = wOff\n', '			_ = wOff\n			db.topicOffsets[h] = topicOff\n'),
('C25', 'db_sync.go', 'db.windowWriter.append(h, topicOff, winEntries[h])', 'db.windowWriter.append(h, topicOff*0, winEntries[h])'),
('C25', 'db_sync.go', '		db.internal.trie.setOffset(_Topic{hash: h, offset: off})\n', '		if !recovery {\n			db.internal.trie.setOffset(_Topic{hash: h, offset: off})\n		}\n'),
('C25', 'recovery.go', '		db.topicOffsets[h] = wOff\n', '		_ = wOff\n'),
('C25', 'recovery.go', '			return fmt.Errorf("recovery.recoverWindowBlocks: timeWindow sync error, unable to get topic offset from trie %d", h)\n', '			fmt.Println("unknown topic")\n			continue\n'),
('C25', 'trie.go', '			(*top)[i].offset = value.offset\n', '			_ = i\n'),
('C25', 'trie.go', '			(*top)[i].offset = value.offset\n', '			if v.offset == 0 {\n				(*top)[i].offset = value.offset\n			}\n'),
('C25', 'trie.go', '			(*top)[i].offset = value.offset\n', '			(*top)[i*0].offset = value.offset\n'),
('C25', 'trie.go', '	if _, ok := t.topicTrie.summary[topic.hash]; ok {\n		return false\n	}\n	curr', '	curr'),
('C25', 'trie.go', '	t.topicTrie.summary[topic.hash] = curr\n', '	t.topicTrie.summary[topic.hash] = t.topicTrie.root\n'),
('C25', 'trie.go', '			if topic.hash == topicHash {\n				return topic.offset, ok\n			}\n', '			return topic.offset, ok\n'),
('C25', 'db_internal.go', '		if ok := db.internal.trie.setOffset(newTopic(topicHash, off)); ok {\n			return false, nil\n		}\n', ''),
('C25', 'db_internal.go', '		if ok := db.internal.trie.setOffset(newTopic(topicHash, off)); ok {\n			return false, nil\n		}\n', '		if ok := db.internal.trie.setOffset(newTopic(topicHash, off)); ok {\n			return true, nil\n		}\n'),
('C25', 'db_internal.go', 'db.internal.trie.add(newTopic(topicHash, off), t.Parts, t.Depth)', 'db.internal.trie.add(newTopic(topicHash, 0), t.Parts, t.Depth)'),
('C25', 'time_window_reader.go', '		windowIdx++\n		if b.entryIdx == 0 {\n			continue\n		}\n', '		windowIdx++\n		if b.entryIdx == 0 || b.next == 0 {\n			continue\n		}\n'),
('C25', 'time_window_reader.go', '		if b.entryIdx == 0 {\n			continue\n		}\n', '		if b.entryIdx == 0 {\n			return nil\n		}\n'),
('C25', 'time_window_reader.go', 'for windowIdx <= nBlocks {', 'for windowIdx < nBlocks-1 {'),
('C25', 'time_window_reader.go', '	windowIdx := int32(0)\n	nBlocks := r.windowIdx\n	for windowIdx <= nBlocks {', '	windowIdx := r.windowIdx\n	for windowIdx >= 0 {'),
('C25', 'time_window_reader.go', 'f(b.entries[:b.entryIdx], b.topicHash, r.offset)', 'f(b.entries[:b.entryIdx], b.topicHash, b.next)'),
('C25', 'time_window.go', '			if b.next == 0 {\n				return nil\n			}\n', '			if b.next == 0 || b.next > blockOff {\n				return nil\n			}\n'),
('C25', 'time_window.go', '			blockOff = b.next\n', '			blockOff = b.next - int64(blockSize)\n'),
('C25', 'time_window.go', 'return len(winEntries) >= limit || b.cutoff(cutoff), nil', 'return len(winEntries) > 0 || b.cutoff(cutoff), nil'),
('C25', 'time_window.go', 'tw.addLive(winEntries, b.entries[:b.entryIdx], added)', 'tw.addLive(winEntries, b.entries[:b.entryIdx-1], added)'),
('C25', 'time_window.go', '	added := make(map[uint64]bool)\n	winEntries = tw.ilookup(topicHash, limit, added)\n	if', '	added := make(map[uint64]bool)\n	trie.getOffset(topicHash)\n	winEntries = tw.ilookup(topicHash, limit, added)\n	if'),
('C25', 'time_window.go', '		if b.topicHash != topicHash {\n			return true, nil\n		}\n', '		if b.topicHash != topicHash || b.entryIdx == entriesPerWindowBlock {\n			return true, nil\n		}\n'),
('C25', 'db_internal.go', '	for _, topic := range topics {\n		wEntries', '	for _, topic := range topics {\n		if topic.offset == 0 && len(q.internal.winEntries) > 0 {\n			continue\n		}\n		wEntries'),
('C25', 'db_internal.go', '	for _, topic := range topics {\n		wEntries', '	for _, topic := range topics {\n		if len(q.internal.winEntries) >= limit {\n			break\n		}\n		wEntries'),
('=C25', 'time_window_writer.go', '			topicHash := b.topicHash\n			next := winBlockOffset(wIdx)\n			// set approximate cutoff on winBlock.\n			b.cutoffTime = time.Now().Unix()\n			w.winBlocks[wIdx] = b\n			w.windowIdx++\n			wIdx = w.windowIdx\n			b = _WinBlock{topicHash: topicHash, next: next}\n', '			b.cutoffTime = time.Now().Unix()\n			w.winBlocks[wIdx] = b\n			prev := wIdx\n			w.windowIdx++\n			wIdx = w.windowIdx\n			b = _WinBlock{}\n			b.topicHash = topicHash\n			b.next = winBlockOffset(prev)\n'),
('=C25', [('time_window_writer.go', '			topicHash := b.topicHash\n			next := winBlockOffset(wIdx)\n			// set approximate cutoff on winBlock.\n			b.cutoffTime = time.Now().Unix()\n			w.winBlocks[wIdx] = b\n			w.windowIdx++\n			wIdx = w.windowIdx\n			b = _WinBlock{topicHash: topicHash, next: next}\n', '			wIdx, b = w.nextBlock(wIdx, b)\n'), ('time_window_writer.go', 'func (w *_WindowWriter) write() error {', 'func (w *_WindowWriter) nextBlock(wIdx int32, b _WinBlock) (int32, _WinBlock) {\n	b.cutoffTime = time.Now().Unix()\n	w.winBlocks[wIdx] = b\n	w.windowIdx++\n	return w.windowIdx, _WinBlock{topicHash: b.topicHash, next: winBlockOffset(wIdx)}\n}\n\nfunc (w *_WindowWriter) write() error {')], 0, 0),
('=C25', 'time_window_writer.go', '	for _, we := range wEntries {\n		if we.sequence == 0 {\n			continue\n		}\n', '	for i := 0; i < len(wEntries); i++ {\n		we := wEntries[i]\n		if we.sequence == 0 {\n			continue\n		}\n'),
('=C25', 'time_window_writer.go', 'if b.entryIdx == entriesPerWindowBlock {', 'if b.entryIdx >= entriesPerWindowBlock {'),
('=C25', 'time_window_writer.go', '		b.entries[b.entryIdx] = _WinEntry{sequence: we.sequence, expiresAt: we.expiresAt}\n		b.dirty = true\n		b.entryIdx++\n', '		idx := b.entryIdx\n		b.entries[idx] = we\n		b.entryIdx = idx + 1\n		b.dirty = true\n'),
('=C25', 'time_window_writer.go', '	if off == 0 {\n		w.windowIdx++\n		wIdx = w.windowIdx\n	} else {\n		wIdx = int32(off / int64(blockSize))\n	}\n', '	if off > 0 {\n		wIdx = int32(off / int64(blockSize))\n	} else {\n		w.windowIdx++\n		wIdx = w.windowIdx\n	}\n'),
('=C25', [('db_sync.go', '		for h := range winEntries {\n			topicOff, ok := db.internal.trie.getOffset(h)\n			if !ok {\n				return true, errors.New("db.Sync: timeWindow sync error: unable to get topic offset from trie")\n			}\n			wOff, err := db.windowWriter.append(h, topicOff, winEntries[h])\n			if err != nil {\n				return true, err\n			}\n			db.topicOffsets[h] = wOff\n		}\n', '		for h, we := range winEntries {\n			if err := db.appendWindow(h, we); err != nil {\n				return true, err\n			}\n		}\n'), ('db_sync.go', '// expireEntries run', 'func (db *_SyncHandle) appendWindow(h uint64, we _WindowEntries) error {\n	topicOff, ok := db.internal.trie.getOffset(h)\n	if !ok {\n		return errors.New("db.Sync: timeWindow sync error: unable to get topic offset from trie")\n	}\n	wOff, err := db.windowWriter.append(h, topicOff, we)\n	if err == nil {\n		db.topicOffsets[h] = wOff\n	}\n	return err\n}\n\n// expireEntries run')], 0, 0),
('=C25', 'db_sync.go', '	for h, off := range db.topicOffsets {\n		db.internal.trie.setOffset(_Topic{hash: h, offset: off})\n', '	for h := range db.topicOffsets {\n		db.internal.trie.setOffset(newTopic(h, db.topicOffsets[h]))\n'),
('=C25', 'trie.go', '	for i, v := range *top {\n		if v.hash == value.hash {\n			(*top)[i].offset = value.offset\n			return false\n		}\n	}\n', '	for i := range *top {\n		t := &(*top)[i]\n		if t.hash != value.hash {\n			continue\n		}\n		t.offset = value.offset\n		return false\n	}\n'),
('=C25', 'trie.go', '	if curr, ok := t.topicTrie.summary[topicHash]; ok {\n		for _, topic := range curr.topics {\n			if topic.hash == topicHash {\n				return topic.offset, ok\n			}\n		}\n	}\n	return off, ok\n', '	curr, found := t.topicTrie.summary[topicHash]\n	if !found {\n		return 0, false\n	}\n	for i := range curr.topics {\n		if curr.topics[i].hash == topicHash {\n			return curr.topics[i].offset, true\n		}\n	}\n	return 0, false\n'),
('=C25', 'db_internal.go', '		if ok := db.internal.trie.setOffset(newTopic(topicHash, off)); ok {\n			return false, nil\n		}\n		t, err', '		topic := newTopic(topicHash, off)\n		if db.internal.trie.setOffset(topic) {\n			return false, nil\n		}\n		t, err'),
('=C25', 'time_window_reader.go', '	windowIdx := int32(0)\n	nBlocks := r.windowIdx\n	for windowIdx <= nBlocks {\n		r.offset = winBlockOffset(windowIdx)\n', '	for windowIdx := int32(0); windowIdx <= r.windowIdx; {\n		r.offset = winBlockOffset(windowIdx)\n'),
('=C25', 'time_window.go', '	next := func(blockOff int64, f func(_WinBlock) (bool, error)) error {\n		for {\n			r := _WindowReader{winFile: winFile, offset: blockOff}\n			b, err := r.readWindowBlock()\n			if err != nil {\n				return err\n			}\n			if stop, err := f(b); stop || err != nil {\n				return err\n			}\n			if b.next == 0 {\n				return nil\n			}\n			blockOff = b.next\n		}\n	}\n	err = next(off, func(b _WinBlock) (bool, error) {\n		if b.topicHash != topicHash {\n			return true, nil\n		}\n		winEntries = tw.addLive(winEntries, b.entries[:b.entryIdx], added)\n		return len(winEntries) >= limit || b.cutoff(cutoff), nil\n	})\n\n	return winEntries, err\n', '	for {\n		r := _WindowReader{winFile: winFile, offset: off}\n		b, err := r.readWindowBlock()\n		if err != nil {\n			return winEntries, err\n		}\n		if b.topicHash != topicHash {\n			break\n		}\n		winEntries = tw.addLive(winEntries, b.entries[:b.entryIdx], added)\n		if len(winEntries) >= limit || b.cutoff(cutoff) || b.next == 0 {\n			break\n		}\n		off = b.next\n	}\n	return winEntries, nil\n'),
('=C25', 'db_internal.go', '	for _, topic := range topics {\n		wEntries, err := db.internal.timeWindow.lookup(db.fs, db.internal.trie, topic.hash,', '	for i := range topics {\n		topic := topics[i]\n		hash := topic.hash\n		wEntries, err := db.internal.timeWindow.lookup(db.fs, db.internal.trie, hash,'),
('C22', 'filter/bloom.go', 'if (b.bits[i>>6]>>uint(i&0x3f))&1 == 0 {', 'if (b.bits[i>>6]>>uint(i&0x1f))&1 == 0 {'),
('C22', 'filter/bloom.go', 'b.bits[i>>6] |= 1 << uint(i&0x3f)', 'b.bits[i>>6] |= 1 << uint(i&0x1f)'),
('C22', 'filter/bloom.go', 'b.bits[i>>6] |= 1 << uint(i&0x3f)', 'b.bits[i>>6] = 1 << uint(i&0x3f)'),
('C22', 'filter/bloom.go', 'b.bits[i>>6] |= 1 << uint(i&0x3f)', 'b.bits[i>>6] ^= 1 << uint(i&0x3f)'),
('C22', 'filter/bloom.go', '		i %= b.m\n		b.bits', '		b.bits'),
('C22', 'filter/bloom.go', '		i %= b.m\n		if (b', '		i %= b.m - 1\n		if (b'),
('C22', 'filter/bloom.go', '	for _, i := range b.hash(h) {\n		i %= b.m\n		b.bits', '	for _, i := range b.hash(h)[1:] {\n		i %= b.m\n		b.bits'),
('C22', 'filter/bloom.go', '		i %= b.m\n		b.bits[i>>6] |= 1 << uint(i&0x3f)\n', '		i %= b.m\n		if b.bits[i>>6]>>uint(i&0x3f)&1 == 1 {\n			break\n		}\n		b.bits[i>>6] |= 1 << uint(i&0x3f)\n'),
('C22', 'filter/bloom.go', '		hashes[i] = h ^ b.keys[i]', '		hashes[i] = h ^ b.keys[i] ^ b.n'),
('C22', 'filter/bloom.go', '	defer b.lock.RUnlock()\n\n	for', '	defer b.lock.RUnlock()\n\n	if b.n == 0 {\n		return false\n	}\n	for'),
('C22', 'filter/bloom.go', '	b.n++\n', '	if b.n++; b.n > b.m {\n		b.bits = make([]uint64, len(b.bits))\n		b.n = 0\n	}\n'),
('C22', 'filter/bloom.go', '	binary.Write(buf, binary.LittleEndian, b.keys)\n	binary.Write(buf, binary.LittleEndian, b.bits)\n', '	binary.Write(buf, binary.LittleEndian, b.bits)\n	binary.Write(buf, binary.LittleEndian, b.keys)\n'),
('C22', 'filter/bloom.go', '	binary.Read(buf, binary.LittleEndian, bits)\n', '	binary.Read(buf, binary.BigEndian, bits)\n'),
('C22', 'filter/bloom.go', '	bits := make([]uint64, (m+63)/64)\n', '	bits := make([]uint64, m/64)\n'),
('C22', 'filter/filter.go', 'newFilterFromBytes(b, bloomBits, bloomHashes)', 'newFilterFromBytes(b, bloomBits/2, bloomHashes)'),
('C22', 'filter/filter.go', '	b.filter.Add(h)\n', '	if !b.filter.Test(h >> 1) {\n		b.filter.Add(h)\n	}\n'),
('C22', 'filter/filter.go', '// Test is used to test for key presence in the filter.\nfunc (b *Block) Test(h uint64) bool {\n	return b.filter.Test(h)', '// Test is used to test for key presence in the filter.\nfunc (b *Block) Test(h uint64) bool {\n	return b.filter.Test(uint64(uint32(h)))'),
('C22', 'memdb/db.go', '	db.addTimeFilter(timeID, key)\n\n	db.internal.meter.Puts.Inc(1)\n\n	return int64(timeID), nil', '	db.internal.meter.Puts.Inc(1)\n\n	return int64(timeID), nil'),
('C22', 'memdb/batch.go', '	b.db.addTimeFilter(b.tinyLog.timeID(), key)\n', '	if len(data) > 8 {\n		b.db.addTimeFilter(b.tinyLog.timeID(), key)\n	}\n'),
('C22', 'memdb/recovery.go', '					if _, ok := r.timeRecords[timeID]; !ok {\n						r.timeRecords[timeID] = filter.NewFilterBlock(r.filter.Bytes())\n					}\n\n					// Append key to bloom filter\n					r.filter.Append(key)\n', '					if _, ok := r.timeRecords[timeID]; !ok {\n						r.timeRecords[timeID] = filter.NewFilterBlock(r.filter.Bytes())\n						r.filter.Append(key)\n					}\n'),
('C22', 'memdb/db_internal.go', '			r.timeRecords[timeID] = filter.NewFilterBlock(r.filter.Bytes())\n			db.mu.Unlock()\n		}\n\n		// Append key to bloom filter\n		r.filter.Append(key)\n', '			r.timeRecords[timeID] = filter.NewFilterBlock(r.filter.Bytes())\n			db.mu.Unlock()\n			r.filter.Append(key)\n		}\n'),
('C22', 'memdb/db_internal.go', '	for _, timeID := range timeIDs {\n		db.mu.RLock()\n		block, ok := db.timeBlocks[timeID]\n		db.mu.RUnlock()\n		if ok {\n			block.RLock()\n			_, ok := block.records[iKey(false, key)]', '	for _, timeID := range timeIDs {\n		r.RLock()\n		snapshot := r.timeRecords[timeID]\n		r.RUnlock()\n		if snapshot != nil && !snapshot.Test(key) {\n			continue\n		}\n		db.mu.RLock()\n		block, ok := db.timeBlocks[timeID]\n		db.mu.RUnlock()\n		if ok {\n			block.RLock()\n			_, ok := block.records[iKey(false, key)]'),
('C22', 'memdb/db.go', '	if !r.filter.Test(key) {\n		return errEntryDoesNotExist', '	if !db.timeFilters[_BlockKey(key%nBlocks)].filter.Test(key) {\n		return errEntryDoesNotExist'),
('C22', 'memdb/recovery.go', '	if !r.filter.Test(key) {', '	if !r.filter.Test(key + 1) {'),
('C22', 'filter.go', '	if fltr != nil && !fltr.Test(h) {\n		return false\n	}\n	return true', '	return fltr != nil && fltr.Test(h)'),
('C22', 'filter.go', '	if fltr != nil && !fltr.Test(h) {', '	if !f.filterBlock.Test(h>>32) {\n		return false\n	}\n	if fltr != nil && !fltr.Test(h) {'),
('C22', 'db_sync.go', '			db.internal.filter.Append(we.seq())\n', '			db.internal.filter.Append(m.topicHash)\n'),
('C22', 'db_sync.go', '			db.internal.filter.Append(we.seq())\n', ''),
('C22', 'recovery.go', '			db.internal.filter.Append(e.seq)\n', '			if m.topicSize != 0 {\n				db.internal.filter.Append(e.seq)\n			}\n'),
('=C22', 'recovery.go', '			db.internal.filter.Append(e.seq)\n', '			db.internal.filter.Append(seq)\n'),
('=C22', 'filter/bloom.go', '		i %= b.m\n		if (b.bits[i>>6]>>uint(i&0x3f))&1 == 0 {\n			return false\n		}\n', '		pos := i % b.m\n		if b.bits[pos/64]&(1<<(pos%64)) == 0 {\n			return false\n		}\n'),
('=C22', 'filter/bloom.go', '		i %= b.m\n		b.bits[i>>6] |= 1 << uint(i&0x3f)\n	}\n	b.n++\n}\n', '		word, mask := b.position(i)\n		b.bits[word] |= mask\n	}\n	b.n++\n}\n\nfunc (b *Filter) position(x uint64) (uint64, uint64) {\n	x %= b.m\n	return x >> 6, 1 << (x & 63)\n}\n'),
('=C22', 'filter/bloom.go', '	for _, i := range b.hash(h) {\n		i %= b.m\n		if (b.bits[i>>6]>>uint(i&0x3f))&1 == 0 {\n			return false\n		}\n	}\n	return true', '	found := true\n	for _, i := range b.hash(h) {\n		i %= b.m\n		if b.bits[i>>6]>>uint(i&0x3f)&1 != 1 {\n			found = false\n			break\n		}\n	}\n	return found'),
('=C22', 'filter/bloom.go', '	for _, i := range b.hash(h) {\n		i %= b.m\n		b.bits', '	hashes := b.hash(h)\n	for n := 0; n < len(hashes); n++ {\n		i := hashes[n] % b.m\n		b.bits'),
('=C22', 'filter/bloom.go', '	for _, i := range b.hash(h) {\n		i %= b.m\n		b.bits', '	for n := range b.keys {\n		i := (h ^ b.keys[n]) % b.m\n		b.bits'),
('=C22', [('filter/bloom.go', '	for _, i := range b.hash(h) {\n		i %= b.m\n		b.bits[i>>6] |= 1 << uint(i&0x3f)\n	}\n	b.n++\n}\n', '	for _, i := range b.hash(h) {\n		b.set(i % b.m)\n	}\n	b.n++\n}\n\nfunc (b *Filter) set(i uint64) {\n	b.bits[i>>6] |= 1 << uint(i&0x3f)\n}\n\nfunc (b *Filter) has(i uint64) bool {\n	return (b.bits[i>>6]>>uint(i&0x3f))&1 == 1\n}\n'), ('filter/bloom.go', '		i %= b.m\n		if (b.bits[i>>6]>>uint(i&0x3f))&1 == 0 {\n			return false\n		}\n', '		if !b.has(i % b.m) {\n			return false\n		}\n')], 0, 0),
('=C22', [('memdb/recovery.go', '				blockKey := db.blockKey(key)\n				r, ok := db.timeFilters[blockKey]\n				if ok {\n					if _, ok := r.timeRecords[timeID]; !ok {\n						r.timeRecords[timeID] = filter.NewFilterBlock(r.filter.Bytes())\n					}\n\n					// Append key to bloom filter\n					r.filter.Append(key)\n				}\n', '				db.noteKey(timeID, key)\n'), ('memdb/recovery.go', '// delete deletes entry from the DB.\n', 'func (db *DB) noteKey(timeID _TimeID, key uint64) {\n	r, ok := db.timeFilters[db.blockKey(key)]\n	if !ok {\n		return\n	}\n	r.filter.Append(key)\n	if _, ok := r.timeRecords[timeID]; !ok {\n		r.timeRecords[timeID] = filter.NewFilterBlock(r.filter.Bytes())\n	}\n}\n\n// delete deletes entry from the DB.\n')], 0, 0),
('=C22', 'filter.go', '	if fltr != nil && !fltr.Test(h) {\n		return false\n	}\n	return true', '	if fltr == nil {\n		return true\n	}\n	return fltr.Test(h)'),
('=C22', [('memdb/db.go', '	block.Lock()\n	defer block.Unlock()\n	ikey := iKey(false, key)\n	if err := block.put(ikey, data); err != nil {\n		return int64(timeID), err\n	}\n	db.addTimeFilter(timeID, key)\n\n	db.internal.meter.Puts.Inc(1)\n', '	if err := db.putTo(block, timeID, key, data); err != nil {\n		return int64(timeID), err\n	}\n	db.internal.meter.Puts.Inc(1)\n'), ('memdb/db.go', '// NewBatch returns', 'func (db *DB) putTo(block *_Block, timeID _TimeID, key uint64, data []byte) error {\n	block.Lock()\n	defer block.Unlock()\n	err := block.put(iKey(false, key), data)\n	if err == nil {\n		db.addTimeFilter(timeID, key)\n	}\n	return err\n}\n\n// NewBatch returns')], 0, 0),
("C23","mutex.go","make([]*sync.RWMutex, nBlocks)","make([]*sync.RWMutex, nBlocks-1)"),
("C23","mutex.go","for i := 0; i < nBlocks; i++ {","for i := 0; i < nShards; i++ {"),
("C23","mutex.go","for i := 0; i < nBlocks; i++ {","for i := 1; i < nBlocks; i++ {"),
("=C23","mutex.go","for i := 0; i < nBlocks; i++ {","for i := range mu.internal {"),
("C23","mutex.go","hash.InitConsistent(int(nBlocks), int(nBlocks))","hash.InitConsistent(int(nBlocks)+1, int(nBlocks)+1)"),
("C23","mutex.go","return mu.internal[mu.consistent.FindBlock(blockID)]","return mu.internal[mu.consistent.FindBlock(blockID)+1]"),
("=C23","mutex.go","return mu.internal[mu.consistent.FindBlock(blockID)]","idx := mu.consistent.FindBlock(blockID)\n\tm := mu.internal[idx]\n\treturn m"),
("C23","time_window.go","hash.InitConsistent(nShards, nShards)","hash.InitConsistent(nBlocks, nBlocks)"),
("C23","time_window.go","make([]*_TimeWindow, nShards)","make([]*_TimeWindow, nShards/2)"),
("C23","time_window.go","for i := 0; i < nShards; i++ {\n\t\twb.window[i] =","for i := 0; i < nShards-1; i++ {\n\t\twb.window[i] ="),
("C23","time_window.go","b := tw.windowBlocks.getWindowBlock(topicHash)\n\ttw.RUnlock()","b := tw.windowBlocks.getWindowBlock(uint64(timeID))\n\ttw.RUnlock()"),
("C23","time_window.go","b := tw.windowBlocks.getWindowBlock(k.topicHash)","b := tw.windowBlocks.getWindowBlock(uint64(k.timeID))"),
("C23","time_window.go","b := tw.windowBlocks.getWindowBlock(topicHash)\n\tb.mu.RLock()","b := tw.windowBlocks.getWindowBlock(topicHash >> 1)\n\tb.mu.RLock()"),
("C23","time_window.go","if key.topicHash != topicHash {\n\t\t\tcontinue\n\t\t}","",),
("=C23","time_window.go","if key.topicHash != topicHash {\n\t\t\tcontinue\n\t\t}\n\t\twinEntries = tw.addLive(winEntries, b.entries[key], added)","if key.topicHash == topicHash {\n\t\t\twinEntries = tw.addLive(winEntries, b.entries[key], added)\n\t\t}"),
("C23","time_window.go","for i := 0; i < nShards; i++ {\n\t\twb := tw.windowBlocks.window[i]","for i := 1; i < nShards; i++ {\n\t\twb := tw.windowBlocks.window[i]"),
("C23","time_window.go","for i := 0; i < nShards; i++ {\n\t\twb := tw.windowBlocks.window[i]","for i := 0; i < nShards-1; i++ {\n\t\twb := tw.windowBlocks.window[i]"),
("=C23","time_window.go","for i := 0; i < nShards; i++ {\n\t\twb := tw.windowBlocks.window[i]","for _, wb := range tw.windowBlocks.window {"),
("=C23","time_window.go","key := _Key{\n\t\ttimeID:    timeID,\n\t\ttopicHash: topicHash,\n\t}\n","key := _Key{topicHash: topicHash}\n\tkey.timeID = timeID\n"),
("C23","expiry_window.go","for _, ws := range wb.expiryWindows.expiry {","for _, ws := range wb.expiryWindows.expiry[:wb.maxExpDurations] {"),
("=C23","expiry_window.go","for _, ws := range wb.expiryWindows.expiry {","for i := 0; i < len(wb.expiryWindows.expiry); i++ {\n\t\tws := wb.expiryWindows.expiry[i]"),
("C23","expiry_window.go","for _, ws := range wb.expiryWindows.expiry {","for i := 0; i < wb.maxExpDurations; i++ {\n\t\tws := wb.expiryWindows.expiry[i]"),
("C23","expiry_window.go","for i := 0; i < nBlocks; i++ {","for i := 0; i < nShards; i++ {"),
("C23","leasing.go","leases:                make([]*_Leases, nShards)","leases:                make([]*_Leases, nShards-1)"),
("C23","leasing.go","for i := 0; i < nShards; i++ {\n\t\tl.leases[i]","for i := 0; i < nShards-2; i++ {\n\t\tl.leases[i]"),
("C23","leasing.go","for i := 0; i < nShards; i++ {\n\t\tl.blocks[i] = &","for i := 0; i < nShards; i += 2 {\n\t\tl.blocks[i] = &"),
("C23","leasing.go","for i := 0; i < nShards; i++ {\n\t\tl.leases[i] = &_Leases{ls: make(map[uint64]struct{})}\n\t}\n\n\tfor i","for i"),
("=C23","leasing.go","\t\tl.leases[i] = &_Leases{ls: make(map[uint64]struct{})}\n\t}\n\n\tfor i := 0; i < nShards; i++ {\n","\t\tl.leases[i] = &_Leases{ls: make(map[uint64]struct{})}\n"),
("C23","leasing.go","fbs := l.freeBlocks(uint64(off))","fbs := l.freeBlocks(uint64(size))"),
("C23","leasing.go","for i := 0; i < nShards; i++ {\n\t\tfbs := l.blocks[i]\n\t\tfbs.Lock()\n\t\tfbs.defrag()","for i := 0; i < nShards-1; i++ {\n\t\tfbs := l.blocks[i]\n\t\tfbs.Lock()\n\t\tfbs.defrag()"),
("C23","hash/consistent.go","b := uint16(FastMod(uint64(hd), uint64(len(A))))\n\tfor A[b] > 0 {\n\t\tha, hb, hc, hd = fleaRound(ha, hb, hc, hd)\n\t\th := uint16(FastMod(uint64(hd), uint64(A[b])))\n\t\tfor A[h] >= A[b] {\n\t\t\th = K[h]\n\t\t}\n\t\tb = h\n\t}\n\treturn b\n}\n\n// FindPrev","b := uint16(FastMod(uint64(hd), uint64(len(A))+1))\n\tfor A[b] > 0 {\n\t\tha, hb, hc, hd = fleaRound(ha, hb, hc, hd)\n\t\th := uint16(FastMod(uint64(hd), uint64(A[b])))\n\t\tfor A[h] >= A[b] {\n\t\t\th = K[h]\n\t\t}\n\t\tb = h\n\t}\n\treturn b\n}\n\n// FindPrev"),
("C23","memdb/db_internal.go","return _BlockKey(db.consistent.FindBlock(key))","return _BlockKey(db.consistent.FindBlock(key)) + 1"),
("C23","memdb/db.go","hash.InitConsistent(nBlocks, nBlocks)","hash.InitConsistent(nBlocks+1, nBlocks+1)"),
("C23","memdb/db.go","for i := 0; i < nBlocks; i++ {","for i := 1; i < nBlocks; i++ {"),
("C23","memdb/db_internal.go","for i := 0; i < nBlocks; i++ {","for i := 0; i < nBlocks-1; i++ {"),
("=C23","memdb/db_internal.go","for i := 0; i < nBlocks; i++ {","for i := nBlocks - 1; i >= 0; i-- {"),
("C23","memdb/time_lock.go","make([]_Internal, nLocks)","make([]_Internal, nBlocks)"),
("C23","memdb/time_lock.go","for i := 0; i < nLocks; i++ {","for i := 0; i < nLocks/2; i++ {"),
("C23","memdb/time_lock.go","hash.InitConsistent(int(nLocks), int(nLocks))","hash.InitConsistent(int(nLocks)*2, int(nLocks))"),
("S01","server/utp/publish.go","Ttl:     pubMsg.Ttl,","Ttl:     pubMsg.Topic,"),
("S01","server/utp/publish.go","			Ttl:     protoMsg.Ttl,\n",""),
("S01","server/utp/publish.go","	p.DeliveryMode = uint8(pub.DeliveryMode)\n",""),
("S01","server/utp/publish.go","	p.MessageID = uint16(pub.MessageID)","	p.MessageID = uint16(uint8(pub.MessageID))"),
("S01","server/utp/publish.go","	for _, pubMsg := range p.Messages {","	for _, pubMsg := range p.Messages[1:] {"),
("S01","server/utp/publish.go","	for _, protoMsg := range pub.Messages {\n","	for _, protoMsg := range pub.Messages {\n		if len(protoMsg.Payload) == 0 {\n			continue\n		}\n"),
("S01","server/utp/publish.go","FixedHeader{MessageType: PUBLISH, MessageLength: len(rawMsg)}","FixedHeader{MessageType: RELAY, MessageLength: len(rawMsg)}"),
("S01","server/utp/publish.go","MessageLength: len(rawMsg)}","MessageLength: len(p.Messages)}"),
("S01","server/utp/subscribe.go","	u.Subscriptions = subs\n","	u.Subscriptions = subs[:1]\n"),
("S01","server/utp/subscribe.go","			Delay:        subscription.Delay,\n			Topic:        string(subscription.Topic),\n		}\n		subs = append(subs, &sub)\n	}\n	unsub","			Topic:        string(subscription.Topic),\n		}\n		subs = append(subs, &sub)\n	}\n	unsub"),
("S01","server/utp/connect.go","	c.Epoch = connack.Epoch\n",""),
("S01","server/utp/flow_control.go","	case COMPLETE:\n		fh = FixedHeader{MessageType: PUBLISH, FlowControl: COMPLETE, MessageLength: len(rawMsg)}\n",""),
("S01","server/utp/flow_control.go","FlowControl: RECEIPT, MessageLength","FlowControl: RECEIVE, MessageLength"),
("S01","server/utp/flow_control.go","FixedHeader{MessageType: UNSUBSCRIBE, FlowControl: ACK","FixedHeader{MessageType: SUBSCRIBE, FlowControl: ACK"),
("S01","server/utp/flow_control.go","	c.MessageType = fh.MessageType\n",""),
("S01","server/utp/flow_control.go","	c.Message = ctrl.Message\n","	if len(ctrl.Message) > 1 {\n		c.Message = ctrl.Message\n	}\n"),
("S01","server/utp/message.go","digit := byte(length % 128)\n		length /= 128","digit := byte(length % 256)\n		length /= 256"),
("S01","server/utp/message.go","		multiplier += 7","		multiplier += 8"),
("S01","server/utp/message.go","uint32(digit&127)","uint32(digit&63)"),
("S01","server/utp/message.go","		if length > 0 {","		if length > 1 {"),
("S01","server/utp/message.go","		FlowControl:   FlowControl(h.FlowControl),\n",""),
("S01","server/utp/message.go","int32(fh.MessageLength),","int32(int16(fh.MessageLength)),"),
("S01","server/internal/net/message.go","	case utp.UNSUBSCRIBE:\n		pack = &utp.Unsubscribe{}\n",""),
("S01","server/internal/net/message.go","		pack = &utp.Unsubscribe{}","		pack = &utp.Subscribe{}"),
("S01","server/internal/net/message.go","	case utp.RELAY:\n		pack = &utp.Relay{}\n	case utp.SUBSCRIBE","	case utp.SUBSCRIBE"),
("S01","server/internal/net/message.go","	if fh.FlowControl != utp.NONE {","	if fh.FlowControl > utp.ACKNOWLEDGE {"),
("S01","server/internal/net/message.go","	if fh.FlowControl != utp.NONE {","	if fh.FlowControl != utp.NONE && fh.MessageType != utp.CONNECT {"),
("S01","server/internal/net/message.go","	pack.FromBinary(fh, rawMsg)\n	return pack, nil\n}\n\n// Encode","	if len(rawMsg) > 1 {\n		pack.FromBinary(fh, rawMsg)\n	}\n	return pack, nil\n}\n\n// Encode"),
("S01","server/internal/net/message.go","	pack.FromBinary(fh, rawMsg)\n	return pack, nil\n}\n\n// Encode","	pack.FromBinary(fh, rawMsg[:len(rawMsg)&0xffff])\n	return pack, nil\n}\n\n// Encode"),
("S01","server/utp/publish.go","Info{DeliveryMode: p.DeliveryMode, MessageID: p.MessageID}","Info{DeliveryMode: p.DeliveryMode}"),
("=S01","server/internal/net/message.go","	switch pack.Type() {\n	case utp.DISCONNECT:\n		return pack.(*utp.Disconnect).ToBinary()\n	case utp.PUBLISH:\n		return pack.(*utp.Publish).ToBinary()\n	case utp.FLOWCONTROL:\n		return pack.(*utp.ControlMessage).ToBinary()\n","	switch m := pack.(type) {\n	case *utp.Disconnect:\n		return m.ToBinary()\n	case *utp.Publish:\n		return m.ToBinary()\n	case *utp.ControlMessage:\n		return m.ToBinary()\n"),
("=S01","server/internal/net/message.go","	if fh.FlowControl != utp.NONE {\n		pack = &utp.ControlMessage{}\n		pack.FromBinary(fh, rawMsg)\n		return pack, nil\n	}\n","	if fh.FlowControl > utp.NONE {\n		m := &utp.ControlMessage{}\n		m.FromBinary(fh, rawMsg)\n		return m, nil\n	}\n"),
("=S01",[("server/internal/net/message.go","	pack.FromBinary(fh, rawMsg)\n	return pack, nil\n}\n\n// Encode","	pack.FromBinary(fh, rawMsg)\n	return pack, nil\n}\n\nfunc newPack(t utp.MessageType) MessagePack {\n	switch t {\n	case utp.CONNECT:\n		return &utp.Connect{}\n	case utp.PUBLISH:\n		return &utp.Publish{}\n	case utp.RELAY:\n		return &utp.Relay{}\n	case utp.SUBSCRIBE:\n		return &utp.Subscribe{}\n	case utp.UNSUBSCRIBE:\n		return &utp.Unsubscribe{}\n	case utp.PINGREQ:\n		return &utp.Pingreq{}\n	case utp.DISCONNECT:\n		return &utp.Disconnect{}\n	}\n	return nil\n}\n\n// Encode"),("server/internal/net/message.go","	switch fh.MessageType {\n	case utp.CONNECT:\n		pack = &utp.Connect{}\n	case utp.PUBLISH:\n		pack = &utp.Publish{}\n	case utp.RELAY:\n		pack = &utp.Relay{}\n	case utp.SUBSCRIBE:\n		pack = &utp.Subscribe{}\n	case utp.UNSUBSCRIBE:\n		pack = &utp.Unsubscribe{}\n	case utp.PINGREQ:\n		pack = &utp.Pingreq{}\n	case utp.DISCONNECT:\n		pack = &utp.Disconnect{}\n	default:\n","	if pack = newPack(fh.MessageType); pack == nil {\n")],0,0),
("=S01",[("server/utp/publish.go","	var protoMessages []*pbx.PublishMessage\n	for _, pubMsg := range p.Messages {\n		protoMsg := &pbx.PublishMessage{\n			Topic:   string(pubMsg.Topic),\n			Payload: pubMsg.Payload,\n			Ttl:     pubMsg.Ttl,\n		}\n		protoMessages = append(protoMessages, protoMsg)\n	}\n","	protoMessages := make([]*pbx.PublishMessage, len(p.Messages))\n	for i, pubMsg := range p.Messages {\n		protoMessages[i] = pubMsg.proto()\n	}\n"),("server/utp/publish.go","func (p *Publish) ToBinary() (","func (m *PublishMessage) proto() *pbx.PublishMessage {\n	return &pbx.PublishMessage{\n		Topic:   m.Topic,\n		Payload: m.Payload,\n		Ttl:     m.Ttl,\n	}\n}\n\nfunc (p *Publish) ToBinary() (")],0,0),
("=S01","server/utp/publish.go","	for _, protoMsg := range pub.Messages {\n		pubMsg := &PublishMessage{\n			Topic:   protoMsg.Topic,\n			Payload: protoMsg.Payload,\n			Ttl:     protoMsg.Ttl,\n		}\n","	for i := 0; i < len(pub.Messages); i++ {\n		protoMsg := pub.Messages[i]\n		pubMsg := &PublishMessage{}\n		pubMsg.Topic = protoMsg.GetTopic()\n		pubMsg.Payload = protoMsg.GetPayload()\n		pubMsg.Ttl = protoMsg.GetTtl()\n"),
("=S01",[("server/utp/flow_control.go","	var fh FixedHeader\n	ctrl","	ctrl"),("server/utp/flow_control.go","	switch c.FlowControl {\n	case ACKNOWLEDGE:\n		switch c.MessageType {\n		case CONNECT:\n			fh = FixedHeader{MessageType: CONNECT, FlowControl: ACKNOWLEDGE, MessageLength: len(rawMsg)}\n		case PUBLISH:\n			fh = FixedHeader{MessageType: PUBLISH, FlowControl: ACKNOWLEDGE, MessageLength: len(rawMsg)}\n		case RELAY:\n			fh = FixedHeader{MessageType: RELAY, FlowControl: ACKNOWLEDGE, MessageLength: len(rawMsg)}\n		case SUBSCRIBE:\n			fh = FixedHeader{MessageType: SUBSCRIBE, FlowControl: ACKNOWLEDGE, MessageLength: len(rawMsg)}\n		case UNSUBSCRIBE:\n			fh = FixedHeader{MessageType: UNSUBSCRIBE, FlowControl: ACKNOWLEDGE, MessageLength: len(rawMsg)}\n		case PINGREQ:\n			fh = FixedHeader{MessageType: PINGREQ, FlowControl: ACKNOWLEDGE, MessageLength: len(rawMsg)}\n		}\n	case NOTIFY:\n		fh = FixedHeader{MessageType: PUBLISH, FlowControl: NOTIFY, MessageLength: len(rawMsg)}\n	case RECEIVE:\n		fh = FixedHeader{MessageType: PUBLISH, FlowControl: RECEIVE, MessageLength: len(rawMsg)}\n	case RECEIPT:\n		fh = FixedHeader{MessageType: PUBLISH, FlowControl: RECEIPT, MessageLength: len(rawMsg)}\n	case COMPLETE:\n		fh = FixedHeader{MessageType: PUBLISH, FlowControl: COMPLETE, MessageLength: len(rawMsg)}\n	}\n","	fh := FixedHeader{MessageType: c.MessageType, FlowControl: c.FlowControl, MessageLength: len(rawMsg)}\n")],0,0),
("=S01","server/utp/flow_control.go","	switch c.FlowControl {\n	case ACKNOWLEDGE:\n		switch c.MessageType {\n		case CONNECT:\n			fh = FixedHeader{MessageType: CONNECT, FlowControl: ACKNOWLEDGE, MessageLength: len(rawMsg)}\n","	fh.MessageLength = len(rawMsg)\n	switch c.FlowControl {\n	case ACKNOWLEDGE:\n		switch c.MessageType {\n		case CONNECT:\n			fh.MessageType = CONNECT\n			fh.FlowControl = ACKNOWLEDGE\n"),
("=S01","server/utp/message.go","	for {\n		digit := byte(length % 128)\n		length /= 128\n		if length > 0 {\n			digit |= 0x80\n		}\n		encLength = append(encLength, digit)\n		if length == 0 {\n			break\n		}\n	}\n	return encLength","	for length >= 128 {\n		encLength = append(encLength, byte(length)|0x80)\n		length >>= 7\n	}\n	return append(encLength, byte(length))"),
("=S01","server/utp/message.go","		digit := byte(length % 128)\n		length /= 128","		digit := byte(length & 127)\n		length >>= 7"),
("=S01",[("server/utp/publish.go","	fh := FixedHeader{MessageType: PUBLISH, MessageLength: len(rawMsg)}\n	buf = fh.pack()\n	_, err = buf.Write(rawMsg)\n	return buf, err","	return frame(PUBLISH, rawMsg)"),("server/utp/message.go","func encodeLength(","func frame(t MessageType, body []byte) (bytes.Buffer, error) {\n	fh := FixedHeader{MessageType: t, MessageLength: len(body)}\n	buf := fh.pack()\n	_, err := buf.Write(body)\n	return buf, err\n}\n\nfunc encodeLength(")],0,0),
("S02",[("server/internal/hdl_conn.go","	if !c.insecure {\n		if _, err := c.onSecureRequest(topic, security.AllowRead); err != nil {\n			return err\n		}\n	}\n\n	if req.Last","	if req.Last")],0,0),
("S02",[("server/internal/hdl_conn.go","		if _, err := c.onSecureRequest(topic, security.AllowRead); err != nil {\n			return err\n		}\n	}\n\n	if err := c.subscribe","		if _, err := c.onSecureRequest(topic, security.AllowNone); err != nil {\n			return err\n		}\n	}\n\n	if err := c.subscribe")],0,0),
("S02","server/internal/hdl_conn.go","			wildcard, err := c.onSecureRequest(topic, security.AllowWrite)","			wildcard, err := c.onSecureRequest(topic, security.AllowRead)"),
("S02",[("server/internal/hdl_conn.go","			if wildcard {\n				return types.ErrForbidden\n			}\n",""),("server/internal/hdl_conn.go","			wildcard, err := c.onSecureRequest(topic, security.AllowWrite)","			_, err := c.onSecureRequest(topic, security.AllowWrite)")],0,0),
("S02","server/internal/hdl_conn.go","			if wildcard {\n				return types.ErrForbidden\n			}\n","			if wildcard && pub.DeliveryMode != 0 {\n				return types.ErrForbidden\n			}\n"),
("S02","server/internal/hdl_conn.go","	if !key.HasPermission(permission) {","	if key.HasPermission(permission) {"),
("S02","server/internal/hdl_conn.go","	ok, wildcard := key.ValidateTopic(c.clientID.Contract(), topic.Topic[:topic.Size])\n	if !ok {","	ok, wildcard := key.ValidateTopic(c.clientID.Contract(), topic.Topic[:topic.Size])\n	if !ok && !wildcard {"),
("S02","server/internal/hdl_conn.go","	ok, wildcard := key.ValidateTopic(c.clientID.Contract(), topic.Topic[:topic.Size])","	ok, wildcard := key.ValidateTopic(c.clientID.Contract(), topic.Key)"),
("S02","server/internal/hdl_conn.go","	ok, wildcard := key.ValidateTopic(c.clientID.Contract(), topic.Topic[:topic.Size])","	ok, wildcard := key.ValidateTopic(message.Contract, topic.Topic[:topic.Size])"),
("S02","server/internal/hdl_conn.go","	if err != nil {\n		return false, types.ErrBadRequest\n	}\n\n	// Check if the key has","	if err != nil {\n		return false, nil\n	}\n\n	// Check if the key has"),
("S02","server/internal/message/security/key.go","	return (p & flag) == flag","	return (p | flag) != 0"),
("S02","server/internal/message/security/key.go","	return (p & flag) == flag","	return p >= flag"),
("=S02","server/internal/message/security/key.go","	return (p & flag) == flag","	return (p & flag) != 0"),
("=S02","server/internal/message/security/key.go","	return (p & flag) == flag","	return (p | flag) == p"),
("=S02","server/internal/message/security/key.go","	return (p & flag) == flag","	return flag &^ p == 0"),
("S02","server/internal/message/security/key.go","	return h == target, ((targetPath >> 23) & 1) == 0","	return h == target, ((targetPath >> 22) & 1) == 0"),
("S02","server/internal/message/security/key.go","	return h == target, ((targetPath >> 23) & 1) == 0","	return h == target, false"),
("S02","server/internal/message/security/key.go","	return h == target, ((targetPath >> 23) & 1) == 0","	return h&0xffff == target&0xffff, ((targetPath >> 23) & 1) == 0"),
("S02","server/internal/message/security/key.go","	h := hash.WithSalt([]byte(topic), contract)","	h := hash.WithSalt([]byte(topic), message.Contract)"),
("S02","server/internal/message/security/key.go","	target := uint32(k[4])<<24 | uint32(k[5])<<16","	target := uint32(k[5])<<24 | uint32(k[4])<<16"),
("S02","server/internal/message/security/key.go","		return target == hash.WithSalt([]byte(topic), contract), true","		return target == hash.WithSalt([]byte(topic), contract), false"),
("S02","server/internal/message/security/key.go","	if targetPath == 0 {","	if targetPath&0x7fffff == 0 {"),
("=S02",[("server/internal/message/security/key.go","	target := uint32(k[4])<<24 | uint32(k[5])<<16 | uint32(k[6])<<8 | uint32(k[7])","	target := binary.BigEndian.Uint32(k[4:8])"),("server/internal/message/security/key.go","	\"errors\"\n","	\"encoding/binary\"\n	\"errors\"\n")],0,0),
("=S02","server/internal/message/security/key.go","	return h == target, ((targetPath >> 23) & 1) == 0","	if h != target {\n		return false, true\n	}\n	return true, targetPath&(1<<23) == 0"),
("=S02","server/internal/message/security/key.go","	return h == target, ((targetPath >> 23) & 1) == 0","	strict := k[1]&0x80 != 0\n	return h == target, !strict"),
("S02","server/internal/hdl_conn.go","	if !c.clientID.IsPrimary() {\n		return types.ErrClientIdForbidden, false\n	}\n",""),
("S02","server/internal/hdl_conn.go","	if !c.clientID.IsPrimary() {","	if c.clientID.IsPrimary() {"),
("S02","server/internal/hdl_conn.go","		key, err := security.GenerateKey(c.clientID.Contract(), m.Topic, m.Access())","		key, err := security.GenerateKey(message.Contract, m.Topic, m.Access())"),
("S02","server/internal/hdl_conn.go","		if err := c.onSubscribe(m, sub); err != nil {\n				status = err.Status\n				c.notifyError(err, m.MessageID)\n				continue\n			}\n","		if err := c.onSubscribe(m, sub); err != nil {\n				status = err.Status\n				continue\n			}\n"),
("S02","server/internal/hdl_conn.go","		if err := c.onPublish(m); err != nil {\n			status = err.Status\n			c.notifyError(err, m.MessageID)\n		}","		if err := c.onPublish(m); err != nil {\n			status = err.Status\n		}"),
("S02","server/internal/hdl_conn.go","		if err == types.ErrInvalidClientID {\n			c.sendClientID(clientID.Encode(c.service.mac))\n			return err\n		}\n","		if err == types.ErrInvalidClientID {\n			c.sendClientID(clientID.Encode(c.service.mac))\n			err = nil\n		}\n"),
("S02","server/internal/hdl_conn.go","		return clientid, types.ErrInvalidClientID\n","		return clientid, nil\n"),
("S02","server/internal/hdl_conn.go","		err := store.Message.Put(c.clientID.Contract(), topic.Topic,","		err := store.Message.Put(message.Contract, topic.Topic,"),
("S02","server/internal/hdl_conn.go","		err := store.Message.Put(c.clientID.Contract(), topic.Topic,","		err := store.Message.Put(c.clientID.Contract(), pubMsg.Topic,"),
("S02","server/internal/hdl_conn.go","	topic := security.ParseKey(sub.Topic)\n	if topic.TopicType == security.TopicInvalid {\n		return types.ErrBadRequest\n	}\n\n	if !c.insecure {\n		if _, err := c.onSecureRequest(topic, security.AllowRead); err != nil {\n			return err\n		}\n	}\n\n	if err := c.unsub","	topic := security.ParseKey(sub.Topic)\n	if topic.TopicType == security.TopicInvalid {\n		return types.ErrBadRequest\n	}\n\n	if err := c.unsub"),
("S02","server/internal/hdl_conn.go","		if !c.insecure {\n			wildcard, err","		if !c.insecure && len(topic.Key) > 0 {\n			wildcard, err"),
("S02","server/internal/hdl_conn.go","		// Iterate through all subscribers and send them the message\n		go c.publish(pub, topic, pubMsg)\n	}\n","		// Iterate through all subscribers and send them the message\n		go c.publish(pub, security.ParseKey(pub.Messages[0].Topic), pubMsg)\n	}\n"),
("=S02","server/internal/hdl_conn.go","	//Parse the key\n	topic := security.ParseKey(sub.Topic)\n	if topic.TopicType == security.TopicInvalid {\n		return types.ErrBadRequest\n	}\n\n	if !c.insecure {\n		if _, err := c.onSecureRequest(topic, security.AllowRead); err != nil {\n			return err\n		}\n	}\n\n	if err := c.subscribe(subMsg, topic, sub); err != nil {\n		return types.ErrServerError\n	}\n\n	return nil\n}\n","	topic, terr := c.readable(sub.Topic)\n	if terr != nil {\n		return terr\n	}\n	if err := c.subscribe(subMsg, topic, sub); err != nil {\n		return types.ErrServerError\n	}\n\n	return nil\n}\n\nfunc (c *_Conn) readable(text string) (*security.Topic, *types.Error) {\n	topic := security.ParseKey(text)\n	if topic.TopicType == security.TopicInvalid {\n		return nil, types.ErrBadRequest\n	}\n	if c.insecure {\n		return topic, nil\n	}\n	_, err := c.onSecureRequest(topic, security.AllowRead)\n	return topic, err\n}\n"),
("=S02","server/internal/hdl_conn.go","			wildcard, err := c.onSecureRequest(topic, security.AllowWrite)\n			if err != nil {\n				return err\n			}\n			if wildcard {\n				return types.ErrForbidden\n			}\n","			switch wildcard, err := c.onSecureRequest(topic, security.AllowWrite); {\n			case err != nil:\n				return err\n			case wildcard:\n				return types.ErrForbidden\n			}\n"),
("=S02","server/internal/hdl_conn.go","	ok, wildcard := key.ValidateTopic(c.clientID.Contract(), topic.Topic[:topic.Size])\n	if !ok {\n		return wildcard, types.ErrUnauthorized\n	}\n	return wildcard, nil\n","	name, contract := topic.Topic[:topic.Size], c.clientID.Contract()\n	if ok, wildcard := key.ValidateTopic(contract, name); ok {\n		return wildcard, nil\n	}\n	return false, types.ErrUnauthorized\n"),
("S02","server/internal/hdl_conn.go","		c.service.cache.LoadOrStore(clientid.Encode(c.service.mac), clientid.Contract())","		c.service.cache.LoadOrStore(clientid.Encode(c.service.mac), uint32(message.Contract))"),
("=S02","server/internal/hdl_conn.go","	//do not cache primary client Id\n	if !clientid.IsPrimary() {\n		c.service.cache.LoadOrStore(clientid.Encode(c.service.mac), clientid.Contract())\n	}\n\n	return clientid, nil","	if clientid.IsPrimary() {\n		return clientid, nil\n	}\n	contract := clientid.Contract()\n	c.service.cache.LoadOrStore(clientid.Encode(c.service.mac), contract)\n\n	return clientid, nil"),
("S10","server/internal/message/messageids.go","	for i := MID(0); i < maxID; i++ {","	for i := MID(0); i < 1000; i++ {"),
("S10","server/internal/message/messageids.go","		mids.id = mids.id%maxID + 1\n","		mids.id = mids.id%(maxID+1) + 1\n"),
("S10","server/internal/message/messageids.go","		mids.id = mids.id%maxID + 1\n","		mids.id = (mids.id + 1) % maxID\n"),
("S10","server/internal/message/messageids.go","		if !mids.inUse(mids.id) {","		if mids.inUse(mids.id) {"),
("S10","server/internal/message/messageids.go","	if _, ok := mids.resume[id]; ok {\n		return true\n	}\n",""),
("S10","server/internal/message/messageids.go","	_, ok := mids.index[id]\n	return ok","	return false"),
("S10","server/internal/message/messageids.go","	mids.index[mids.id] = pktType\n	return mids.id","	return mids.id"),
("S10","server/internal/message/messageids.go","	delete(mids.index, id)\n	delete(mids.resume, id)","	delete(mids.index, id)"),
("S10","server/internal/message/messageids.go","	delete(mids.index, id)\n	delete(mids.resume, id)","	delete(mids.resume, id)"),
("S10","server/internal/message/messageids.go","	mids.id = 0\n","	mids.id = 0\n	mids.index = make(map[MID]utp.MessageType)\n"),
("S10","server/internal/message/messageids.go","	mids.id = 0\n","	mids.id = 0\n	for k := range mids.resume {\n		delete(mids.resume, k)\n	}\n"),
("S10","server/internal/message/messageids.go","	mids.resume[id] = struct{}{}\n","	if id != mids.id {\n		mids.resume[id] = struct{}{}\n	}\n"),
("S10","server/internal/hdl_conn.go","			c.MessageIds.FreeID(message.MID(ctrlMsg.MessageID))\n",""),
("S10","server/internal/hdl_conn.go","			c.storeOutbound(comp)\n			c.MessageIds.FreeID(message.MID(ctrlMsg.MessageID))\n","			c.MessageIds.FreeID(message.MID(ctrlMsg.MessageID))\n			c.storeOutbound(comp)\n"),
("S10","server/internal/hdl_conn.go","		c.MessageIds.Reset()\n","		c.MessageIds = message.NewMessageIds()\n"),
("S10","server/internal/hdl_conn.go","				c.sendPack(msg)\n			}\n","				c.sendPack(msg)\n				c.MessageIds.FreeID(message.MID(ctrlMsg.MessageID))\n			}\n"),
("S10","server/internal/conn.go","	if msg.DeliveryMode == 0 {\n		c.MessageIds.FreeID(message.MID(pub.MessageID))\n	}\n","	c.MessageIds.FreeID(message.MID(pub.MessageID))\n"),
("S10","server/internal/conn.go","	if msg.DeliveryMode == 0 {\n		c.MessageIds.FreeID(message.MID(pub.MessageID))\n	}\n",""),
("S10","server/internal/conn.go","						MessageID:    uint16(sub.MessageIds.NextID(utp.PUBLISH)),","						MessageID:    uint16(c.MessageIds.NextID(utp.PUBLISH)),"),
("S10","server/internal/conn.go","						MessageID:    uint16(sub.MessageIds.NextID(utp.PUBLISH)),","						MessageID:    pub.MessageID,"),
("S10","server/internal/conn.go","			subMsg := &message.Message{\n","			subMsg := &message.Message{\n				MessageID: pub.MessageID,\n"),
("S10","server/internal/conn.go","			c.MessageIds.ResumeID(message.MID(pub.MessageID))\n",""),
("S10","server/internal/conn.go","			c.MessageIds.ResumeID(message.MID(pub.MessageID))\n			notify := &utp.ControlMessage{\n				MessageType: utp.PUBLISH,\n				FlowControl: utp.NOTIFY,\n				MessageID:   pub.MessageID,\n			}\n			c.sendPack(notify)\n","			notify := &utp.ControlMessage{\n				MessageType: utp.PUBLISH,\n				FlowControl: utp.NOTIFY,\n				MessageID:   pub.MessageID,\n			}\n			c.sendPack(notify)\n			c.MessageIds.ResumeID(message.MID(pub.MessageID))\n"),
("S10","server/internal/batch.go","			pub.MessageID = uint16(c.MessageIds.NextID(utp.PUBLISH))\n\n			// persist outbound\n			store.Log.PersistOutbound(uint32(c.sessID), pub)\n\n","			pub.MessageID = uint16(len(b.pubMessages))\n\n			// persist outbound\n			store.Log.PersistOutbound(uint32(c.sessID), pub)\n\n"),
("=S10","server/internal/message/messageids.go","		mids.id = mids.id%maxID + 1\n","		mids.id++\n		if mids.id > maxID {\n			mids.id = 1\n		}\n"),
("=S10","server/internal/message/messageids.go","	for i := MID(0); i < maxID; i++ {\n		mids.id = mids.id%maxID + 1\n		if !mids.inUse(mids.id) {\n			break\n		}\n	}\n	mids.index[mids.id] = pktType\n	return mids.id","	id := mids.id\n	for i := MID(0); i < maxID; i++ {\n		id = id%maxID + 1\n		_, resumed := mids.resume[id]\n		if _, used := mids.index[id]; !used && !resumed {\n			break\n		}\n	}\n	mids.id = id\n	mids.index[id] = pktType\n	return id"),
("=S10","server/internal/message/messageids.go","	if _, ok := mids.resume[id]; ok {\n		return true\n	}\n	_, ok := mids.index[id]\n	return ok","	_, ok := mids.index[id]\n	_, resumed := mids.resume[id]\n	return ok || resumed"),
("=S10","server/internal/message/messageids.go","	mids.resume[id] = struct{}{}\n","	mids.index[id] = utp.PUBLISH\n"),
("=S10","server/internal/message/messageids.go","	delete(mids.index, id)\n	delete(mids.resume, id)","	if mids.inUse(id) {\n		delete(mids.resume, id)\n		delete(mids.index, id)\n	}"),
("=S10","server/internal/conn.go","	if msg.DeliveryMode == 0 {\n		c.MessageIds.FreeID(message.MID(pub.MessageID))\n	}\n\n	return true","	if pub.DeliveryMode > 0 {\n		return true\n	}\n	c.MessageIds.FreeID(message.MID(msg.MessageID))\n\n	return true"),
("=S10",[("server/internal/conn.go","	// persist outbound\n	store.Log.PersistOutbound(uint32(c.sessID), pub)\n\n	// Acknowledge the publication\n	select {\n	case c.pub <- pub:\n	case <-time.After(publishWaitTimeout):\n		return false\n	}\n","	if !c.deliver(pub) {\n		return false\n	}\n"),("server/internal/conn.go","// sendPack sends message","func (c *_Conn) deliver(pub *utp.Publish) bool {\n	// persist outbound\n	store.Log.PersistOutbound(uint32(c.sessID), pub)\n\n	// Acknowledge the publication\n	select {\n	case c.pub <- pub:\n		return true\n	case <-time.After(publishWaitTimeout):\n		return false\n	}\n}\n\n// sendPack sends message")],0,0),
("=S10","server/internal/hdl_conn.go","			comp := &utp.ControlMessage{\n				MessageType: utp.PUBLISH,\n				FlowControl: utp.COMPLETE,\n				MessageID:   ctrlMsg.MessageID,\n			}\n			c.storeOutbound(comp)\n			c.MessageIds.FreeID(message.MID(ctrlMsg.MessageID))\n			c.sendPack(comp)\n","			id := ctrlMsg.MessageID\n			comp := &utp.ControlMessage{MessageType: utp.PUBLISH, FlowControl: utp.COMPLETE, MessageID: id}\n			store.Log.PersistOutbound(uint32(c.sessID), comp)\n			c.sendPack(comp)\n			c.MessageIds.FreeID(message.MID(id))\n"),
("S04","server/internal/store/store.go","		key := uint64(outMsg.Info().MessageID)<<32 + uint64(blockID)\n		m, err","		key := uint64(outMsg.Info().MessageID)<<16 + uint64(blockID)\n		m, err"),
("S04","server/internal/store/store.go","			key := uint64(outMsg.Info().MessageID)<<32 + uint64(blockID)\n			adp.Del","			key := uint64(blockID)<<32 + uint64(outMsg.Info().MessageID)\n			adp.Del"),
("S04","server/internal/store/store.go","		case utp.COMPLETE:\n			// Sending","		case utp.COMPLETE, utp.NOTIFY:\n			// Sending"),
("S04","server/internal/store/store.go","		case utp.RECEIPT:\n			// Sending","		case utp.RECEIVE:\n			// Sending"),
("S04","server/internal/store/store.go","	return uint64(prefix) == key&0xFFFFFFFF","	return uint64(prefix) == key&0xFFFFFF"),
("S04","server/internal/store/store.go","	return uint64(prefix) == key&0xFFFFFFFF","	return uint64(prefix) == key>>32"),
("S04","server/internal/store/store.go","	return uint64(prefix) == key&0xFFFFFFFF","	return uint64(prefix) != key&0xFFFFFFFF"),
("S04","server/internal/store/store.go","			adp.DeleteMessage(key)\n		}\n	}\n}\n\nfunc eval","			adp.DeleteMessage(key)\n			break\n		}\n	}\n}\n\nfunc eval"),
("S04","server/internal/store/store.go","	switch outMsg.(type) {\n	case *utp.Publish:\n		// Received","	switch p := outMsg.(type) {\n	case *utp.Publish:\n		if p.DeliveryMode == 0 {\n			return\n		}\n		// Received"),
("S04","server/internal/conn.go","	// persist outbound\n	store.Log.PersistOutbound(uint32(c.sessID), pub)\n\n	// Acknowledge the publication\n	select {","	// persist outbound\n	defer store.Log.PersistOutbound(uint32(c.sessID), pub)\n\n	// Acknowledge the publication\n	select {"),
("S04","server/internal/conn.go","	store.Log.PersistOutbound(uint32(c.sessID), pub)\n\n	// Ack","	store.Log.PersistOutbound(uint32(c.connID), pub)\n\n	// Ack"),
("S04","server/internal/conn.go","	store.Log.PersistOutbound(uint32(c.sessID), pub)\n\n	// Ack","	if msg.DeliveryMode != 0 {\n		store.Log.PersistOutbound(uint32(c.sessID), pub)\n	}\n\n	// Ack"),
("S04","server/internal/conn.go","					store.Log.PersistOutbound(uint32(sub.sessID), outMsg)\n					sub.sendPack(notify)","					sub.sendPack(notify)\n					store.Log.PersistOutbound(uint32(sub.sessID), outMsg)"),
("S04","server/internal/conn.go","					store.Log.PersistOutbound(uint32(sub.sessID), outMsg)\n","					store.Log.PersistOutbound(uint32(c.sessID), outMsg)\n"),
("S04","server/internal/conn.go","						MessageID:   outMsg.MessageID,\n","						MessageID:   pub.MessageID,\n"),
("S04","server/internal/conn.go","				case 0:\n					if !sub.SendMessage(subMsg) {\n						log.ErrLogger.Err(err).Str(\"context\", \"conn.publish\")\n					}\n					msgCount++\n","				case 0:\n					msgCount++\n"),
("S04","server/internal/conn.go","			case 1, 2:\n				switch subMsg","			case 1:\n				switch subMsg"),
("S04","server/internal/conn.go","		if sub != nil {\n			// The ID","		if sub == nil {\n			break\n		}\n		{\n			// The ID"),
("S04","server/internal/conn.go","			c.sendPack(notify)\n		default:","			if len(pub.Messages) > 1 {\n				c.sendPack(notify)\n			}\n		default:"),
("S04","server/internal/conn.go","		default:\n			store.Log.Delete(k)","		case utp.FLOWCONTROL:\n		default:\n			store.Log.Delete(k)"),
("S04","server/internal/conn.go","				MessageID:   pub.MessageID,\n			}\n			c.sendPack(notify)\n","				MessageID:   pub.MessageID,\n			}\n			c.sendPack(notify)\n			store.Log.Delete(k)\n"),
("S04","server/internal/conn.go","		if msg == nil {\n			continue","		if msg == nil {\n			break"),
("S04","server/internal/hdl_conn.go","			if !m.CleanSessFlag {","			if m.CleanSessFlag {"),
("S04","server/internal/hdl_conn.go","				store.Log.Reset(sessID)\n","				store.Log.Reset(uint32(c.sessID))\n"),
("S04","server/internal/hdl_conn.go","			c.sessID = uid.LID(sessID)\n",""),
("S04","server/internal/hdl_conn.go","		binary.LittleEndian.PutUint32(rawSess[0:4], sessID)\n","		binary.LittleEndian.PutUint32(rawSess[0:4], uint32(c.connID))\n"),
("S04","server/internal/hdl_conn.go","		store.Session.Put(uint64(sessKey), rawSess)\n","		store.Session.Put(uint64(c.sessID), rawSess)\n"),
("S04","server/internal/hdl_conn.go","		if sessKey != int32(c.clientID.Epoch()) {","		if sessKey == int32(c.clientID.Epoch()) {"),
("S04","server/internal/hdl_conn.go","			c.storeOutbound(comp)\n			c.Mess","			c.Mess"),
("S04","server/internal/hdl_conn.go","			c.sendPack(comp)\n",""),
("S04","server/internal/hdl_conn.go","			key := uint64(ctrlMsg.Info().MessageID)<<32 + uint64(c.sessID)","			key := uint64(ctrlMsg.Info().MessageID)<<32 + uint64(c.connID)"),
("S04","server/internal/hdl_conn.go","		case utp.RECEIPT:\n			comp","		case utp.RECEIPT, utp.ACKNOWLEDGE:\n			comp"),
("S04","server/internal/hdl_conn.go","			log.Error(\"conn.onPublish\", \"store message \"+err.Error())\n			return types.ErrServerError\n","			log.Error(\"conn.onPublish\", \"store message \"+err.Error())\n			continue\n"),
("S04","server/internal/hdl_conn.go","			log.Error(\"conn.onPublish\", \"store message \"+err.Error())\n			return types.ErrServerError\n","			log.Error(\"conn.onPublish\", \"store message \"+err.Error())\n			break\n"),
("S04","server/internal/batch.go","				// persist outbound\n				store.Log.PersistOutbound(uint32(c.sessID), pub)\n				select {","				select {"),
("S04","server/internal/db/unitdb/adapter.go","	if err := a.mem.Delete(key); err != nil {\n		return err\n	}\n	return nil","	a.mem.Delete(key)\n	return nil"),
("S04","server/internal/db/unitdb/adapter.go","	if _, err := a.mem.Put(key, payload); err != nil {","	if _, err := a.mem.Put(key&0xffffffff, payload); err != nil {"),
("S04","server/internal/store/store.go","		if msg, err := lp.Read(r); err == nil {","		if msg, err := lp.Read(r); err != nil {"),
("=S04","server/internal/store/store.go","		key := uint64(outMsg.Info().MessageID)<<32 + uint64(blockID)\n		m, err","		key := uint64(blockID) | uint64(outMsg.Info().MessageID)<<32\n		m, err"),
("=S04","server/internal/store/store.go","	return uint64(prefix) == key&0xFFFFFFFF","	return uint32(key) == prefix"),
("=S04",[("server/internal/store/store.go","		key := uint64(outMsg.Info().MessageID)<<32 + uint64(blockID)\n		m, err","		key := logKey(blockID, outMsg)\n		m, err"),("server/internal/store/store.go","			key := uint64(outMsg.Info().MessageID)<<32 + uint64(blockID)\n			adp.Del","			key := logKey(blockID, outMsg)\n			adp.Del"),("server/internal/store/store.go","func eval","func logKey(blockID uint32, m lp.MessagePack) uint64 {\n	return uint64(m.Info().MessageID)<<32 + uint64(blockID)\n}\n\nfunc eval")],0,0),
("=S04","server/internal/conn.go","		switch msg.Type() {\n		case utp.PUBLISH:\n			pub := msg.(*utp.Publish)\n			c.MessageIds.ResumeID(message.MID(pub.MessageID))\n			notify := &utp.ControlMessage{\n				MessageType: utp.PUBLISH,\n				FlowControl: utp.NOTIFY,\n				MessageID:   pub.MessageID,\n			}\n			c.sendPack(notify)\n		default:\n			store.Log.Delete(k)\n		}","		pub, ok := msg.(*utp.Publish)\n		if !ok {\n			store.Log.Delete(k)\n			continue\n		}\n		c.MessageIds.ResumeID(message.MID(pub.MessageID))\n		notify := &utp.ControlMessage{\n			MessageType: utp.PUBLISH,\n			FlowControl: utp.NOTIFY,\n			MessageID:   pub.MessageID,\n		}\n		c.sendPack(notify)"),
("=S04","server/internal/hdl_conn.go","			if !m.CleanSessFlag {\n				c.resume(sessID)\n			} else {\n				store.Log.Reset(sessID)\n			}\n			c.sessID = uid.LID(sessID)","			c.sessID = uid.LID(sessID)\n			if m.CleanSessFlag {\n				store.Log.Reset(uint32(c.sessID))\n			} else {\n				c.resume(uint32(c.sessID))\n			}"),
("=S04","server/internal/conn.go","		if sub != nil {\n			// The ID","		if sub == nil {\n			continue\n		}\n		{\n			// The ID"),
("=S04","server/internal/conn.go","			switch pub.DeliveryMode {\n			// Publisher's DeliveryMode RELIABLE or BATCH\n			case 1, 2:\n				switch subMsg.DeliveryMode {","			switch m := pub.DeliveryMode; m {\n			// Publisher's DeliveryMode RELIABLE or BATCH\n			case 2, 1:\n				switch subMsg.DeliveryMode {"),
("=S04","server/internal/hdl_conn.go","		err := store.Message.Put(c.clientID.Contract(), topic.Topic, pubMsg.Payload, pubMsg.Ttl)\n		if err != nil {","		if err := store.Message.Put(c.clientID.Contract(), topic.Topic, pubMsg.Payload, pubMsg.Ttl); err != nil {"),
("=S04","server/internal/db/unitdb/adapter.go","	if err := a.mem.Delete(key); err != nil {\n		return err\n	}\n	return nil","	return a.mem.Delete(key)"),
("=S04","server/internal/db/unitdb/adapter.go","	matches, err = a.mem.Get(key)\n	if err != nil {\n		return nil, err\n	}\n	return matches, nil","	return a.mem.Get(key)"),
("=S04","server/internal/store/store.go","		if msg, err := lp.Read(r); err == nil {\n			return msg\n		}\n","		msg, err := lp.Read(r)\n		if err != nil {\n			return nil\n		}\n		return msg\n"),
("=S04","server/internal/hdl_conn.go","			switch msg.(type) {\n			case *utp.Publish:\n				c.sendPack(msg)\n			}","			if pub, ok := msg.(*utp.Publish); ok {\n				c.sendPack(pub)\n			}"),
("S07", "server/internal/cluster_leader.go", "			if c.fo.term < vreq.req.Term {", "			if c.fo.term <= vreq.req.Term {"),
("S07", "server/internal/cluster_leader.go", "				c.fo.term = vreq.req.Term\n", ""),
("S07", "server/internal/cluster_leader.go", "				c.fo.term = vreq.req.Term\n				c.fo.leader = \"\"\n", "				c.fo.term = vreq.req.Term\n"),
("S07", "server/internal/cluster_leader.go", "expectVotes := (nodeCount+1)>>1 + 1", "expectVotes := (nodeCount + 1) >> 1"),
("S07", "server/internal/cluster_leader.go", "expectVotes := (nodeCount+1)>>1 + 1", "expectVotes := nodeCount>>1 + 1"),
("S07", "server/internal/cluster_leader.go", "	voteCount := 1\n", "	voteCount := 2\n"),
("S07", "server/internal/cluster_leader.go", "				} else if c.fo.term < call.Reply.(*ClusterVoteResponse).Term {", "				} else if c.fo.term >= call.Reply.(*ClusterVoteResponse).Term {\n					voteCount++\n				} else {"),
("S07", [("server/internal/cluster_leader.go", "	for _, node := range c.nodes {\n		response := ClusterVoteResponse{}\n		node.callAsync", "	response := ClusterVoteResponse{}\n	for _, node := range c.nodes {\n		node.callAsync")], 0, 0),
("S07", "server/internal/cluster_leader.go", "				log.Println(\"cluster: ping from a stale leader\", ping.Term, c.fo.term, ping.Leader, c.fo.leader)\n				continue\n", "				log.Println(\"cluster: ping from a stale leader\", ping.Term, c.fo.term, ping.Leader, c.fo.leader)\n"),
("S07", "server/internal/cluster_leader.go", "			if ping.Term < c.fo.term {", "			if ping.Term < c.fo.term && ping.Leader != c.fo.leader {"),
("S07", "server/internal/cluster_leader.go", "				c.fo.term = ping.Term\n				c.fo.leader = ping.Leader\n", "				c.fo.term = ping.Term\n"),
("S07", "server/internal/cluster_leader.go", "				c.fo.term = ping.Term\n				c.fo.leader = ping.Leader\n", "				c.fo.leader = ping.Leader\n"),
("S07", "server/internal/cluster_leader.go", "					log.Printf(\"cluster: leader set to '%s'\", ping.Leader)\n				}\n				c.fo.leader = ping.Leader\n", "					log.Printf(\"cluster: leader set to '%s'\", ping.Leader)\n					c.fo.leader = ping.Leader\n				}\n"),
("S07", "server/internal/cluster_leader.go", "			if c.fo.leader == c.thisNodeName {\n", "			if c.fo.leader == c.thisNodeName || c.fo.leader == \"\" {\n"),
("S07", "server/internal/cluster_leader.go", "	c.fo.term++\n	c.fo.leader = \"\"\n", "	c.fo.leader = \"\"\n"),
("S07", "server/internal/cluster_leader.go", "	c.fo.term++\n	c.fo.leader = \"\"\n", "	c.fo.term++\n"),
("S07", "server/internal/cluster_leader.go", "			Term: c.fo.term}, &response, done)", "			Term: c.fo.term + 1}, &response, done)"),
("S07", "server/internal/cluster_leader.go", "				vreq.resp <- ClusterVoteResponse{Result: false, Term: c.fo.term}\n", ""),
("S07", "server/internal/cluster_leader.go", "				vreq.resp <- ClusterVoteResponse{Result: false, Term: c.fo.term}\n", "				vreq.resp <- ClusterVoteResponse{Result: c.fo.leader == \"\", Term: c.fo.term}\n"),
("S07", "server/internal/cluster_leader.go", "				vreq.resp <- ClusterVoteResponse{Result: false, Term: c.fo.term}\n", "				vreq.resp <- ClusterVoteResponse{Result: false, Term: vreq.req.Term}\n"),
("S07", "server/internal/cluster_leader.go", "	if voteCount >= expectVotes {\n", "	if voteCount >= expectVotes || c.fo.leader == \"\" {\n"),
("S07", "server/internal/cluster_leader.go", "			Leader:    c.thisNodeName,\n			Term:      c.fo.term,", "			Leader:    node.name,\n			Term:      c.fo.term,"),
("S07", "server/internal/cluster_leader.go", "					i = nodeCount\n					voteCount = 0\n", "					i = nodeCount\n					c.fo.term = call.Reply.(*ClusterVoteResponse).Term\n"),
("=S07", "server/internal/cluster_leader.go", "expectVotes := (nodeCount+1)>>1 + 1", "expectVotes := (nodeCount+1)/2 + 1"),
("=S07", "server/internal/cluster_leader.go", "	if voteCount >= expectVotes {\n", "	if 2*voteCount > nodeCount+1 {\n"),
("=S07", "server/internal/cluster_leader.go", "	if voteCount >= expectVotes {\n", "	elected := voteCount >= expectVotes\n	if elected {\n"),
("=S07", [("server/internal/cluster_leader.go", "	if voteCount >= expectVotes {\n", "	if voteCount > needed {\n"), ("server/internal/cluster_leader.go", "expectVotes := (nodeCount+1)>>1 + 1", "needed := (nodeCount + 1) >> 1"), ("server/internal/cluster_leader.go", "i < nodeCount && voteCount < expectVotes; {", "i < nodeCount && voteCount <= needed; {")], 0, 0),
("=S07", [("server/internal/cluster_leader.go", "	if voteCount >= expectVotes {\n		// Current node elected as the leader\n", "	if voteCount < expectVotes {\n		return\n	}\n	{\n")], 0, 0),
("=S07", [("server/internal/cluster_leader.go", "			if c.fo.term < vreq.req.Term {\n				// This is a new election. This node has not voted yet. Vote for the requestor and\n				// clear the current leader.\n				log.Printf(\"Voting YES for %s, my term %d, vote term %d\", vreq.req.Node, c.fo.term, vreq.req.Term)\n				c.fo.term = vreq.req.Term\n				c.fo.leader = \"\"\n				vreq.resp <- ClusterVoteResponse{Result: true, Term: c.fo.term}\n			} else {\n				// This node has voted already or stale election, reject.\n				log.Printf(\"Voting NO for %s, my term %d, vote term %d\", vreq.req.Node, c.fo.term, vreq.req.Term)\n				vreq.resp <- ClusterVoteResponse{Result: false, Term: c.fo.term}\n			}\n", "			c.answer(vreq)\n"), ("server/internal/cluster_leader.go", "// Go routine that processes calls related", "func (c *Cluster) answer(v *ClusterVote) {\n	granted := v.req.Term > c.fo.term\n	if granted {\n		c.fo.leader = \"\"\n		c.fo.term = v.req.Term\n	}\n	v.resp <- ClusterVoteResponse{Term: c.fo.term, Result: granted}\n}\n\n// Go routine that processes calls related")], 0, 0),
("=S07", [("server/internal/cluster_leader.go", "			if c.fo.term < vreq.req.Term {\n", "			if vreq.req.Term <= c.fo.term {\n				vreq.resp <- ClusterVoteResponse{Term: c.fo.term}\n			} else if c.fo.term < vreq.req.Term {\n")], 0, 0),
("=S07", [("server/internal/cluster_leader.go", "			if ping.Term > c.fo.term {\n				c.fo.term = ping.Term\n				c.fo.leader = ping.Leader\n", "			if ping.Term != c.fo.term {\n				c.fo.term, c.fo.leader = ping.Term, ping.Leader\n")], 0, 0),
("=S07", [("server/internal/cluster_leader.go", "					voteCount++\n				} else if", "					voteCount += 1\n				} else if"), ("server/internal/cluster_leader.go", "	voteCount := 1\n", "	voteCount := 1 // for this node\n")], 0, 0),
("=S07", [("server/internal/cluster_leader.go", "			if c.fo.leader == c.thisNodeName {\n				// I'm the leader, send pings\n				c.sendPings()\n			} else {\n				missed++\n				if missed >= c.fo.voteTimeout {\n					// Elect the leader\n					missed = 0\n					c.electLeader()\n				}\n			}\n", "			if c.isLeader() {\n				c.sendPings()\n				continue\n			}\n			missed++\n			if missed < c.fo.voteTimeout {\n				continue\n			}\n			missed = 0\n			c.electLeader()\n"), ("server/internal/cluster_leader.go", "// Go routine that processes calls related", "func (c *Cluster) isLeader() bool { return c.thisNodeName == c.fo.leader }\n\n// Go routine that processes calls related")], 0, 0),
("S07", "server/internal/cluster_leader.go", "	*response = <-respChan\n", "	select {\n	case *response = <-respChan:\n	case <-time.After(c.fo.heartBeat):\n		*response = ClusterVoteResponse{Result: true, Term: vreq.Term}\n	}\n"),
("S07", "server/internal/cluster_leader.go", "		req:  vreq,\n", "		req:  &ClusterVoteRequest{Node: vreq.Node, Term: c.fo.term + 1},\n"),
("=S07", "server/internal/cluster_leader.go", "	*response = <-respChan\n", "	select {\n	case answer := <-respChan:\n		*response = answer\n	}\n"),
("=S07", "server/internal/cluster_leader.go", "	*response = <-respChan\n", "	answer := <-respChan\n	response.Result, response.Term = answer.Result, answer.Term\n"),
('S08', 'server/internal/cluster.go', '\t} else if reqMsg.Signature == c.ring.Signature() {', '\t} else if reqMsg.Signature == c.ring.Signature() || conn != nil {'),
('S08', 'server/internal/cluster.go', '\t} else if reqMsg.Signature == c.ring.Signature() {', '\t} else if reqMsg.Signature != "" {'),
('S08', 'server/internal/cluster.go', '\t\t*rejected = true\n', '\t\tlog.Error("cluster.Master", "out of sync")\n'),
('S08', 'server/internal/cluster.go', '\t\tconn.connID = reqMsg.Conn.ConnID\n\t\tconn.clientID = reqMsg.Conn.ClientID\n', '\t\tconn.connID = reqMsg.Conn.ConnID\n'),
('S08', 'server/internal/cluster.go', '\tif err == nil && rejected {', '\tif err == nil && rejected && forwMsg.PubMsg == nil {'),
('S08', 'server/internal/cluster.go', '\tif err == nil && rejected {\n\t\terr = errors.New("cluster.forward: master node out of sync")\n\t}\n', ''),
('S08', 'server/internal/cluster.go', '\t\tsubMsg.IsForwarded = true\n', ''),
('S08', 'server/internal/cluster.go', '\t\tunsubMsg.IsForwarded = true\n', ''),
('S08', 'server/internal/cluster.go', '\t\tpubMsg.IsForwarded = true\n', '\t\tpubMsg.IsForwarded = pubMsg.DeliveryMode == 0\n'),
('S08', 'server/internal/cluster.go', '\t\t\tSignature: c.ring.Signature(),\n\t\t\tSubMsg', '\t\t\tSubMsg'),
('S08', 'server/internal/conn.go', '\tif !pub.IsForwarded && Globals', '\tif Globals'),
('S08', 'server/internal/conn.go', 'exists && !subMsg.IsForwarded && Globals', 'exists && Globals'),
('S08', 'server/internal/conn.go', '\tif !unsubMsg.IsForwarded && Globals', '\tif unsubMsg.IsForwarded && Globals'),
('S08', 'server/internal/conn.go', '\tif !pub.IsForwarded && Globals.Cluster.isRemoteContract(fmt.Sprint(c.clientID.Contract())) {', '\tif !pub.IsForwarded && Globals.Cluster != nil {'),
('S08', 'server/internal/cluster.go', '\treturn c.ring.Get(contract) != c.thisNodeName', '\treturn c.ring.Get(contract) == c.thisNodeName'),
('S08', 'server/internal/cluster.go', '\tnode := Globals.Cluster.nodes[key]', '\tnode := Globals.Cluster.nodes[contract]'),
('S08', 'server/internal/cluster_leader.go', '\t\t\tif node.failCount == c.fo.nodeFailCountLimit {', '\t\t\tif node.failCount == c.fo.nodeFailCountLimit && len(c.fo.activeNodes) > 2 {'),
('S08', 'server/internal/cluster_leader.go', '\t\t\tif node.failCount >= c.fo.nodeFailCountLimit {\n\t\t\t\t// Node has recovered', '\t\t\tif node.failCount > c.fo.nodeFailCountLimit {\n\t\t\t\t// Node has recovered'),
('S08', 'server/internal/cluster_leader.go', '\t\t\tif node.failCount >= c.fo.nodeFailCountLimit {\n\t\t\t\t// Node has recovered\n\t\t\t\trehash = true\n\t\t\t}\n', ''),
('S08', 'server/internal/cluster_leader.go', '\t\t\tnode.failCount = 0\n', ''),
('S08', 'server/internal/cluster_leader.go', '\t\t\tif node.failCount < c.fo.nodeFailCountLimit {\n\t\t\t\tactive', '\t\t\tif node.failCount <= c.fo.nodeFailCountLimit {\n\t\t\t\tactive'),
('S08', 'server/internal/cluster_leader.go', '\t\tactiveNodes = append(activeNodes, c.thisNodeName)\n\n', ''),
('S08', 'server/internal/cluster_leader.go', '\t\tc.fo.activeNodes = activeNodes\n\t\tc.rehash', '\t\tc.rehash'),
('S08', 'server/internal/cluster_leader.go', '\t\tc.fo.activeNodes = activeNodes\n\t\tc.rehash(activeNodes)\n', '\t\tc.fo.activeNodes = activeNodes\n'),
('S08', 'server/internal/cluster_leader.go', '\t\tc.rehash(activeNodes)\n\n\t\tlog.Println("cluster: init', '\t\tc.rehash(nil)\n\n\t\tlog.Println("cluster: init'),
('S08', 'server/internal/cluster_leader.go', '\t\t\t\t// Node failed too many times\n\t\t\t\trehash = true\n\t\t\t}\n\t\t} else {', '\t\t\t\t// Node failed too many times\n\t\t\t\trehash = true\n\t\t\t}\n\t\t} else {\n\t\t\trehash = false'),
('S08', 'server/internal/cluster_leader.go', '\t\t\t\t\tc.rehash(ping.Nodes)\n', '\t\t\t\t\tc.rehash(c.fo.activeNodes)\n'),
('S08', 'server/internal/cluster_leader.go', '\t\t\t\t\trehashSkipped = true\n', '\t\t\t\t\tlog.Println("skipped")\n'),
('S08', 'server/internal/cluster_leader.go', '\t\t\t\t\tc.rehash(ping.Nodes)\n\t\t\t\t\trehashSkipped = false\n', '\t\t\t\t\trehashSkipped = false\n'),
('S08', 'server/internal/cluster_leader.go', '\t\t\tif ping.Signature != c.ring.Signature() {', '\t\t\tif len(ping.Nodes) != len(c.fo.activeNodes) {'),
('S08', 'server/internal/cluster.go', '\t} else {\n\t\tringKeys = append(ringKeys, nodes...)\n\t}', '\t} else {\n\t\tringKeys = append(ringKeys, c.thisNodeName)\n\t}'),
('S08', 'server/internal/cluster.go', '\tring.Add(ringKeys...)\n\n\tc.ring = ring\n', '\tc.ring = ring\n\tring.Add(ringKeys...)\n'),
('S08', 'server/internal/cluster.go', '\t\t\tringKeys = append(ringKeys, node.name)\n\t\t}\n', '\t\t\tif node.connected {\n\t\t\t\tringKeys = append(ringKeys, node.name)\n\t\t\t}\n\t\t}\n'),
('=S08', 'server/internal/cluster.go', '\t} else if reqMsg.Signature == c.ring.Signature() {', '\t} else if sig := c.ring.Signature(); sig == reqMsg.Signature {'),
('=S08', [('server/internal/cluster.go', '\t} else if reqMsg.Signature == c.ring.Signature() {', '\t} else if c.agrees(reqMsg) {'), ('server/internal/cluster.go', '// Dispatch receives', 'func (c *Cluster) agrees(r *ClusterReq) bool {\n\treturn r.Signature == c.ring.Signature()\n}\n\n// Dispatch receives')], 0, 0),
('=S08', [('server/internal/cluster.go', '\tif reqMsg.ConnGone {\n\t\t// Original session has disconnected. Tear down the local proxied session.\n\t\tif conn != nil {\n\t\t\tconn.stop <- nil\n\t\t}\n\t} else if', '\tif reqMsg.ConnGone {\n\t\tif conn == nil {\n\t\t\treturn nil\n\t\t}\n\t\tconn.stop <- nil\n\t\treturn nil\n\t}\n\tif')], 0, 0),
('=S08', 'server/internal/cluster.go', '\tif err == nil && rejected {\n\t\terr = errors.New("cluster.forward: master node out of sync")\n\t}\n\treturn err', '\tif err != nil {\n\t\treturn err\n\t}\n\tif rejected {\n\t\treturn errors.New("cluster.forward: master node out of sync")\n\t}\n\treturn nil'),
('=S08', [('server/internal/cluster.go', '\treturn n.forward(\n\t\t&ClusterReq{', '\treq := &ClusterReq{'), ('server/internal/cluster.go', '\t\t\t\tClientID: conn.clientID}})\n', '\t\t\t\tClientID: conn.clientID}}\n\treturn n.forward(req)\n')], 0, 0),
('=S08', [('server/internal/conn.go', '\tif !pub.IsForwarded && Globals.Cluster.isRemoteContract(fmt.Sprint(c.clientID.Contract())) {\n\t\tif err', '\tif c.toForward(pub.IsForwarded) {\n\t\tif err'), ('server/internal/conn.go', '// Load all stored messages', 'func (c *_Conn) toForward(forwarded bool) bool {\n\treturn !forwarded && Globals.Cluster.isRemoteContract(fmt.Sprint(c.clientID.Contract()))\n}\n\n// Load all stored messages')], 0, 0),
('=S08', [('server/internal/conn.go', '\tif !pub.IsForwarded && Globals.Cluster.isRemoteContract(fmt.Sprint(c.clientID.Contract())) {\n\t\tif err', '\tif pub.IsForwarded {\n\t\treturn nil\n\t}\n\tif remote := Globals.Cluster.isRemoteContract(fmt.Sprint(c.clientID.Contract())); remote {\n\t\tif err')], 0, 0),
('=S08', 'server/internal/cluster_leader.go', '\t\t\tif node.failCount == c.fo.nodeFailCountLimit {', '\t\t\tif node.failCount >= c.fo.nodeFailCountLimit {'),
('=S08', [('server/internal/cluster_leader.go', '\t\t\tnode.failCount++\n\t\t\tif node.failCount == c.fo.nodeFailCountLimit {\n\t\t\t\t// Node failed too many times\n\t\t\t\trehash = true\n\t\t\t}\n\t\t} else {\n\t\t\tif node.failCount >= c.fo.nodeFailCountLimit {\n\t\t\t\t// Node has recovered\n\t\t\t\trehash = true\n\t\t\t}\n\t\t\tnode.failCount = 0\n\t\t}', '\t\t\tnode.failCount++\n\t\t\trehash = rehash || node.failCount == c.fo.nodeFailCountLimit\n\t\t\tcontinue\n\t\t}\n\t\tif c.fo.nodeFailCountLimit <= node.failCount {\n\t\t\trehash = true\n\t\t}\n\t\tnode.failCount = 0')], 0, 0),
('=S08', [('server/internal/cluster_leader.go', '\tif rehash {\n\t\tvar activeNodes []string\n\t\tfor _, node := range c.nodes {\n\t\t\tif node.failCount < c.fo.nodeFailCountLimit {\n\t\t\t\tactiveNodes = append(activeNodes, node.name)\n\t\t\t}\n\t\t}\n\t\tactiveNodes', '\tif rehash {\n\t\tactiveNodes := c.alive()\n\t\tactiveNodes'), ('server/internal/cluster_leader.go', 'func (c *Cluster) sendPings() {', 'func (c *Cluster) alive() (names []string) {\n\tfor _, node := range c.nodes {\n\t\tif node.failCount >= c.fo.nodeFailCountLimit {\n\t\t\tcontinue\n\t\t}\n\t\tnames = append(names, node.name)\n\t}\n\treturn names\n}\n\nfunc (c *Cluster) sendPings() {')], 0, 0),
('=S08', [('server/internal/cluster_leader.go', '\t\t\t\tif rehashSkipped {\n', '\t\t\t\tif !rehashSkipped {\n\t\t\t\t\trehashSkipped = true\n\t\t\t\t} else {\n'), ('server/internal/cluster_leader.go', '\t\t\t\t\t//globals.hub.rehash <- true\n\t\t\t\t} else {\n\t\t\t\t\trehashSkipped = true\n\t\t\t\t}', '\t\t\t\t}')], 0, 0),
('=S08', [('server/internal/cluster_leader.go', '\t\t\tif ping.Signature != c.ring.Signature() {\n\t\t\t\tif rehashSkipped {', '\t\t\tif ping.Signature != c.ring.Signature() {\n\t\t\t\tskip := !rehashSkipped\n\t\t\t\tif !skip {')], 0, 0),
('=S08', [('server/internal/cluster.go', '\tring := rh.NewRing(clusterHashReplicas, nil)\n\n\tvar ringKeys []string\n\n\tif nodes == nil {', '\tvar ringKeys []string\n\tif len(nodes) == 0 {'), ('server/internal/cluster.go', '\tring.Add(ringKeys...)\n\n\tc.ring = ring\n', '\tring := rh.NewRing(clusterHashReplicas, nil)\n\tring.Add(ringKeys...)\n\tc.ring = ring\n')], 0, 0),
('=S08', [('server/internal/cluster.go', '\tvar ringKeys []string\n\n\tif nodes == nil {\n\t\tfor', '\tringKeys := nodes\n\tif nodes == nil {\n\t\tfor'), ('server/internal/cluster.go', '\t} else {\n\t\tringKeys = append(ringKeys, nodes...)\n\t}', '\t}')], 0, 0),
('S06', 'server/internal/conn.go', '\t\t\t\tc.subs.Decrement(topic.Topic[:topic.Size], key)\n\t\t\t\treturn err', '\t\t\t\treturn err'),
('S06', 'server/internal/conn.go', 'store.Subscription.Put(c.clientID.Contract(), messageId, topic.Topic, payload); err != nil {', 'store.Subscription.Put(message.Contract, messageId, topic.Topic, payload); err != nil {'),
('S06', 'server/internal/conn.go', '\t\tif first := c.subs.Increment(topic.Topic[:topic.Size], key, messageId); first {', '\t\tif first := c.subs.Increment(topic.Topic[:topic.Size], key, messageId); first || sub.Delay > 0 {'),
('S06', 'server/internal/conn.go', '\t\t\tbinary.LittleEndian.PutUint32(payload[5:9], uint32(sub.Delay))', '\t\t\tbinary.LittleEndian.PutUint16(payload[5:7], uint16(sub.Delay))'),
('S06', 'server/internal/conn.go', 'uint32(c.connID))\n\t\t\tbinary.LittleEndian.PutUint32(payload[5:9]', 'uint32(c.sessID))\n\t\t\tbinary.LittleEndian.PutUint32(payload[5:9]'),
('S06', 'server/internal/conn.go', '\t\t\tbinary.LittleEndian.PutUint32(payload[1:5], uint32(c.connID))', '\t\t\tbinary.BigEndian.PutUint32(payload[1:5], uint32(c.connID))'),
('S06', 'server/internal/conn.go', 'binary.LittleEndian.Uint32(subscription[5:9])', 'binary.LittleEndian.Uint32(subscription[4:8])'),
('S06', 'server/internal/conn.go', '\t\t\t\tDeliveryMode: subscription[0],', '\t\t\t\tDeliveryMode: subscription[5],'),
('S06', 'server/internal/conn.go', 'store.Subscription.Delete(c.clientID.Contract(), messageID, topic.Topic[:topic.Size]); err != nil {', 'store.Subscription.Delete(c.clientID.Contract(), nil, topic.Topic[:topic.Size]); err != nil {'),
('S06', 'server/internal/conn.go', '\t\t\tc.subs.Increment(topic.Topic[:topic.Size], key, messageID)\n\t\t\treturn err', '\t\t\treturn err'),
('S06', 'server/internal/conn.go', 'if last, messageID := c.subs.Decrement(topic.Topic[:topic.Size], key); last {', 'if last, messageID := c.subs.Decrement(topic.Topic[:topic.Size], string(topic.Key)); last {'),
('S06', 'server/internal/conn.go', 'if last, messageID := c.subs.Decrement(topic.Topic[:topic.Size], key); last {', 'if last, messageID := c.subs.Decrement(topic.Topic[:topic.Size], key); last || unsubMsg.IsForwarded {'),
('S06', 'server/internal/conn.go', '\t\t\tc.subs.Increment(topic.Topic[:topic.Size], key, messageID)\n\t\t\treturn err\n', '\t\t\tc.subs.Increment(topic.Topic[:topic.Size], key, messageID)\n\t\t\treturn nil\n'),
('S06', 'server/internal/conn.go', '\tc.Lock()\n\tdefer c.Unlock()\n\n\tkey := topic.Topic[:topic.Size]\n\t// Remove', '\tkey := topic.Topic[:topic.Size]\n\t// Remove'),
('S06', 'server/internal/conn.go', '\tsubscriptions, err := store.Subscription.Get(c.clientID.Contract(), topic.Topic)', '\tsubscriptions, err := store.Subscription.Get(c.clientID.Contract(), pubMsg.Topic)'),
('=S06', 'server/internal/message/sub.go', '\treturn stat.Counter == 1', '\treturn !exists || stat.Counter == 0'),
('S06', 'server/internal/message/sub.go', '\treturn stat.Counter == 1', '\treturn stat.Counter <= 2'),
('S06', 'server/internal/message/sub.go', '\t\tif stat.Counter <= 0 {', '\t\tif stat.Counter <= 1 {'),
('S06', 'server/internal/message/sub.go', '\t\tif stat.Counter <= 0 {', '\t\tif stat.Counter < 0 {'),
('S06', 'server/internal/message/sub.go', '\t\t\tdelete(s.stats, key)\n', ''),
('S06', 'server/internal/message/sub.go', '\t\t\tTopic: topic,\n\t\t}\n\t}', '\t\t\tTopic: key,\n\t\t}\n\t}'),
('S06', 'server/internal/message/sub.go', '\tstat.Counter++\n\ts.stats[key] = stat', '\tif exists {\n\t\tstat.Counter++\n\t}\n\ts.stats[key] = stat'),
('S06', 'server/internal/message/sub.go', '\tstat.Counter++\n\ts.stats[key] = stat', '\tstat.Counter++\n\tstat.ID = id\n\ts.stats[key] = stat'),
('S06', 'server/internal/message/sub.go', '\t\t\treturn true, stat.ID', '\t\t\treturn true, nil'),
('S06', 'server/internal/store/store.go', '\treturn adp.Delete(contract^connStoreId, messageId, topic)', '\treturn adp.Delete(contract, messageId, topic)'),
('S06', 'server/internal/store/store.go', '\tresp, err := adp.Get(contract^connStoreId, topic, "")', '\tresp, err := adp.Get(contract^connStoreId, topic, "1h")'),
('S06', 'server/internal/store/store.go', '\treturn adp.PutWithID(contract^connStoreId, messageId, topic, payload, "")', '\treturn adp.Put(contract^connStoreId, topic, payload, "")'),
('S06', 'server/internal/store/store.go', '\treturn adp.Put(contract, topic, payload, ttl)', '\treturn adp.Put(contract, topic, payload, "")'),
('S06', 'server/internal/db/unitdb/adapter.go', '\tentry := unitdb.NewEntry([]byte(topic), payload).WithContract(contract).WithID(messageId)\n', '\tentry := unitdb.NewEntry([]byte(topic), payload).WithContract(contract)\n'),
('S06', 'server/internal/db/unitdb/adapter.go', '\tentry.WithContract(contract)\n\treturn a.db.DeleteEntry', '\treturn a.db.DeleteEntry'),
('S06', 'server/internal/db/unitdb/adapter.go', '\tquery := unitdb.NewQuery([]byte(topic)).WithContract(contract)', '\tquery := unitdb.NewQuery([]byte(topic))'),
('S06', 'server/internal/db/unitdb/adapter.go', '\treturn a.db.DeleteEntry(entry.WithID(messageId))', '\ta.db.DeleteEntry(entry.WithID(messageId))\n\treturn nil'),
('S06', 'server/internal/hdl_conn.go', '\tif err := c.subscribe(subMsg, topic, sub); err != nil {\n\t\treturn types.ErrServerError\n\t}\n', '\tif err := c.subscribe(subMsg, topic, sub); err != nil {\n\t\tlog.Error("conn.onSubscribe", err.Error())\n\t}\n'),
('S06', 'server/internal/hdl_conn.go', '\tif err := c.subscribe(subMsg, topic, sub); err', '\tif err := c.subscribe(subMsg, topic, subMsg.Subscriptions[0]); err'),
('=S06', [('server/internal/conn.go', '\t\tif first := c.subs.Increment(topic.Topic[:topic.Size], key, messageId); first {\n', '\t\tfirst := c.subs.Increment(key, key, messageId)\n\t\tif first {\n')], 0, 0),
('=S06', [('server/internal/conn.go', '\t\t\tpayload := make([]byte, 9)\n\t\t\tpayload[0] = uint8(sub.DeliveryMode)\n\t\t\tbinary.LittleEndian.PutUint32(payload[1:5], uint32(c.connID))\n\t\t\tbinary.LittleEndian.PutUint32(payload[5:9], uint32(sub.Delay))\n', '\t\t\tpayload := c.payload(sub)\n'), ('server/internal/conn.go', '// unsubscribe unsubscribes this', 'func (c *_Conn) payload(sub *utp.Subscription) []byte {\n\tvar p [9]byte\n\tp[0] = sub.DeliveryMode\n\tbinary.LittleEndian.PutUint32(p[1:], uint32(c.connID))\n\tbinary.LittleEndian.PutUint32(p[5:], uint32(sub.Delay))\n\treturn p[:]\n}\n\n// unsubscribe unsubscribes this')], 0, 0),
('=S06', [('server/internal/conn.go', '\tkey := topic.Topic[:topic.Size]\n\tif exists', '\tkey := subKey(topic)\n\tif exists'), ('server/internal/conn.go', '\tkey := topic.Topic[:topic.Size]\n\t// Remove', '\tkey := subKey(topic)\n\t// Remove'), ('server/internal/conn.go', '// unsubscribe unsubscribes this', 'func subKey(t *security.Topic) string {\n\treturn t.Topic[:t.Size]\n}\n\n// unsubscribe unsubscribes this')], 0, 0),
('=S06', [('server/internal/conn.go', '\tif last, messageID := c.subs.Decrement(topic.Topic[:topic.Size], key); last {\n', '\tlast, messageID := c.subs.Decrement(key, key)\n\tif last {\n'), ('server/internal/conn.go', '\t\tif err = store.Subscription.Delete(c.clientID.Contract(), messageID, topic.Topic[:topic.Size]); err != nil {', '\t\tcontract := c.clientID.Contract()\n\t\tif err = store.Subscription.Delete(contract, messageID, key); err != nil {')], 0, 0),
('=S06', 'server/internal/message/sub.go', '\treturn stat.Counter == 1', '\treturn stat.Counter < 2'),
('=S06', 'server/internal/message/sub.go', '\treturn stat.Counter == 1', '\treturn !exists'),
('=S06', 'server/internal/message/sub.go', "\tif stat, exists := s.stats[key]; exists {\n\t\tstat.Counter--\n\t\t// Remove if there's no subscribers left\n\t\tif stat.Counter <= 0 {\n\t\t\tdelete(s.stats, key)\n\t\t\treturn true, stat.ID\n\t\t}\n\t}\n\n\treturn false, nil", '\tstat := s.stats[key]\n\tif stat == nil {\n\t\treturn false, nil\n\t}\n\tstat.Counter--\n\tif stat.Counter > 0 {\n\t\treturn false, nil\n\t}\n\tdelete(s.stats, key)\n\treturn true, stat.ID'),
('=S06', 'server/internal/message/sub.go', '\tif !exists {\n\t\tstat = &Stat{\n\t\t\tID:    id,\n\t\t\tTopic: topic,\n\t\t}\n\t}\n\tstat.Counter++\n\ts.stats[key] = stat\n\treturn stat.Counter == 1', '\tif exists {\n\t\tstat.Counter++\n\t\treturn false\n\t}\n\ts.stats[key] = &Stat{ID: id, Topic: topic, Counter: 1}\n\treturn true'),
('=S06', [('server/internal/store/store.go', '\treturn adp.PutWithID(contract^connStoreId, messageId', '\treturn adp.PutWithID(subContract(contract), messageId'), ('server/internal/store/store.go', '\treturn adp.Delete(contract^connStoreId, messageId', '\treturn adp.Delete(subContract(contract), messageId'), ('server/internal/store/store.go', '\tresp, err := adp.Get(contract^connStoreId, topic', '\tresp, err := adp.Get(subContract(contract), topic'), ('server/internal/store/store.go', '// SessionStore is', 'func subContract(c uint32) uint32 { return c ^ connStoreId }\n\n// SessionStore is')], 0, 0),
('=S06', 'server/internal/db/unitdb/adapter.go', '\tentry := unitdb.NewEntry([]byte(topic), nil)\n\tentry.WithContract(contract)\n\treturn a.db.DeleteEntry(entry.WithID(messageId))', '\tentry := &unitdb.Entry{Topic: []byte(topic), Contract: contract, ID: messageId}\n\tif err := a.db.DeleteEntry(entry); err != nil {\n\t\treturn err\n\t}\n\treturn nil'),
('=S06', [('server/internal/conn.go', '\t\t\tsubMsg := &message.Message{\n\t\t\t\tDeliveryMode: subscription[0],\n\t\t\t\tDelay:        int32(uid.LID(binary.LittleEndian.Uint32(subscription[5:9]))),\n', '\t\t\tmode, delay := subscription[0], int32(binary.LittleEndian.Uint32(subscription[5:]))\n\t\t\tsubMsg := &message.Message{\n\t\t\t\tDeliveryMode: mode,\n\t\t\t\tDelay:        delay,\n')], 0, 0),
('=S06', 'server/internal/hdl_conn.go', '\tif err := c.subscribe(subMsg, topic, sub); err != nil {\n\t\treturn types.ErrServerError\n\t}\n\n\treturn nil', '\terr := c.subscribe(subMsg, topic, sub)\n\tif err == nil {\n\t\treturn nil\n\t}\n\treturn types.ErrServerError'),
('S05', 'server/internal/conn.go', '\tif !c.setClosed() {\n\t\treturn errors.New("error disconnecting client")\n\t}', '\tif c.isClosed() {\n\t\treturn errors.New("error disconnecting client")\n\t}\n\tc.setClosed()'),
('S05', 'server/internal/conn.go', 'return atomic.CompareAndSwapUint32(&c.closed, 0, 1)', 'atomic.StoreUint32(&c.closed, 1)\n\treturn true'),
('S05', 'server/internal/conn.go', '\tc.closeW.Wait()\n', ''),
('S05', 'server/internal/conn.go', '\tclose(c.closeC)\n\tc.closeW.Wait()\n', '\tc.closeW.Wait()\n\tclose(c.closeC)\n'),
('S05', 'server/internal/conn.go', '\tif c.clnode == nil {\n\t\tfor', '\tif c.clnode != nil {\n\t\tfor'),
('S05', 'server/internal/conn.go', '\t\t\tstore.Subscription.Delete(c.clientID.Contract(), stat.ID, stat.Topic)\n\t\t\t// Decrement the subscription counter', '\t\t\tif err := store.Subscription.Delete(c.clientID.Contract(), stat.ID, stat.Topic); err != nil {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\t// Decrement the subscription counter'),
('S05', 'server/internal/conn.go', '\t\t\tstore.Subscription.Delete(c.clientID.Contract(), stat.ID, stat.Topic)\n\t\t\t// Decrement the subscription counter', '\t\t\tif stat.Counter > 1 {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tstore.Subscription.Delete(c.clientID.Contract(), stat.ID, stat.Topic)\n\t\t\t// Decrement the subscription counter'),
('S05', 'server/internal/conn.go', '\tGlobals.connCache.delete(c.connID)\n\tdefer', '\tGlobals.connCache.delete(c.sessID)\n\tdefer'),
('S05', 'server/internal/conn.go', '\tGlobals.connCache.delete(c.connID)\n\tdefer', '\tdefer'),
('S05', 'server/internal/conn.go', '\tc.batchManager.close()\n', ''),
('S05', 'server/internal/conn.go', '\tdefer c.socket.Close()\n', ''),
('S05', [('server/internal/conn.go', '\tdefer c.socket.Close()\n', ''), ('server/internal/conn.go', '\t// Decrement the connection counter\n\tc.service.meter.Connections.Dec(1)\n', '\tc.socket.Close()\n\tc.service.meter.Connections.Dec(1)\n')], 0, 0),
('S05', [('server/internal/conn.go', '"fmt"\n', '"fmt"\n\t"io"\n'), ('server/internal/conn.go', '\tlog.ConnLogger.Debug().Err(err).Str("context", "conn.internalConnLost")\n\tif err := c.ok(); err != nil {\n\t\tlog.ConnLogger.Debug().Str("context", "conn.internalConnLost")', '\tif err == io.EOF {\n\t\treturn\n\t}\n\tif err := c.ok(); err != nil {\n\t\tlog.ConnLogger.Debug().Str("context", "conn.internalConnLost")')], 0, 0),
('S05', 'server/internal/conn.go', '\treturn atomic.LoadUint32(&c.closed) != 0', '\treturn atomic.LoadUint32(&c.closed) == 0'),
('S05', 'server/internal/hdl_conn.go', '\t\tlog.Info("conn.Handler", "closing...")\n\t\tc.closeW.Done()\n\t\tif err != nil {\n\t\t\tc.internalConnLost(err)\n\t\t}', '\t\tlog.Info("conn.Handler", "closing...")\n\t\tif err != nil {\n\t\t\tc.internalConnLost(err)\n\t\t}\n\t\tc.closeW.Done()'),
('S05', [('server/internal/hdl_conn.go', '"errors"\n', '"errors"\n\t"io"\n'), ('server/internal/hdl_conn.go', '\t\tlog.Info("conn.Handler", "closing...")\n\t\tc.closeW.Done()\n\t\tif err != nil {', '\t\tlog.Info("conn.Handler", "closing...")\n\t\tc.closeW.Done()\n\t\tif err != nil && err != io.EOF {')], 0, 0),
('S05', 'server/internal/hdl_conn.go', '\t\t\tif err = c.handler(pkt); err != nil {\n\t\t\t\treturn err\n\t\t\t}', '\t\t\tif err := c.handler(pkt); err != nil {\n\t\t\t\treturn nil\n\t\t\t}'),
("S05", "server/internal/hdl_conn.go", "\t\t\tif err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\n\t\t\t// Message handler", "\t\t\tif err != nil {\n\t\t\t\treturn nil\n\t\t\t}\n\n\t\t\t// Message handler"),
('S05', 'server/internal/hdl_conn.go', '\t\tcase <-c.closeC:\n\t\t\treturn nil\n\t\tdefault:', '\t\tdefault:'),
('S05', 'server/internal/hdl_conn.go', '\t\tcase <-c.closeC:\n\t\t\treturn nil\n\t\tdefault:', '\t\tcase <-c.closeC:\n\t\t\tcontinue\n\t\tdefault:'),
('S05', 'server/internal/hdl_conn.go', '\t\tcase <-c.closeC:\n\t\t\treturn\n\t\tcase pub, ok', '\t\tcase pub, ok'),
('S05', 'server/internal/hdl_conn.go', '\tdefer func() {\n\t\tc.closeW.Done()\n\t\tif err != nil {\n\t\t\tc.internalConnLost(err)\n\t\t}\n\t}()\n\n\tfor {', '\tdefer func() {\n\t\tc.closeW.Done()\n\t}()\n\n\tfor {'),
('S05', 'server/internal/hdl_conn.go', '\tdefer func() {\n\t\tc.closeW.Done()\n\t\tif err != nil {\n\t\t\tc.internalConnLost(err)\n\t\t}\n\t}()\n\n\tfor {', '\tdefer func() {\n\t\tif err != nil {\n\t\t\tc.closeW.Done()\n\t\t\tc.internalConnLost(err)\n\t\t}\n\t}()\n\n\tfor {'),
('S05', 'server/internal/service.go', '\tconn.closeW.Add(2)\n', '\tconn.closeW.Add(1)\n'),
('S05', 'server/internal/service.go', '\tconn.closeW.Add(2)\n\tgo conn.readLoop(s.context)\n', '\tgo conn.readLoop(s.context)\n\tconn.closeW.Add(2)\n'),
('S05', 'server/internal/hdl_conn.go', '\t\tgo c.clientDisconnect(errors.New("client initiated disconnect"))', '\t\tc.clientDisconnect(errors.New("client initiated disconnect"))'),
('S05', 'server/internal/hdl_conn.go', '\t\tgo c.clientDisconnect(errors.New("client initiated disconnect"))', '\t\t_ = errors.New("client initiated disconnect")'),
('S05', 'server/internal/cluster.go', '\t\tGlobals.connCache.delete(c.connID)\n\t\tc.unsubAll()\n', '\t\tGlobals.connCache.delete(c.connID)\n'),
('S05', 'server/internal/cluster.go', '\t\tGlobals.connCache.delete(c.connID)\n\t\tc.unsubAll()\n', '\t\tc.unsubAll()\n'),
('S05', 'server/internal/conn.go', '\tfor _, stat := range c.subs.All() {\n\t\tstore.Subscription.Delete(c.clientID.Contract(), stat.ID, stat.Topic)\n\t}\n}', '\tfor _, stat := range c.subs.All() {\n\t\tif store.Subscription.Delete(c.clientID.Contract(), stat.ID, stat.Topic) != nil {\n\t\t\treturn\n\t\t}\n\t}\n}'),
('S05', 'server/internal/conn.go', '\tfor _, stat := range c.subs.All() {\n\t\tstore.Subscription.Delete(c.clientID.Contract(), stat.ID, stat.Topic)\n\t}\n}', '\tfor _, stat := range c.subs.All() {\n\t\tstore.Subscription.Delete(c.clientID.Contract(), stat.ID, "")\n\t}\n}'),
('S05', 'server/internal/conn_cache.go', '\tcc.connections[conn.connID] = conn', '\tcc.connections[conn.sessID] = conn'),
('S05', 'server/internal/conn_cache.go', '\tdelete(cc.connections, connID)', '\tif conn := cc.connections[connID]; conn != nil && conn.clnode == nil {\n\t\tdelete(cc.connections, connID)\n\t}'),
('S05', 'server/internal/hdl_conn.go', '\t\tif c.clientID != nil {\n\t\t\tstatus = types.ErrBadRequest.Status\n\t\t\treturn types.ErrBadRequest\n\t\t}\n', ''),
('S05', 'server/internal/conn.go', '\tGlobals.connCache.add(c)\n\treturn c\n}\n\n// newRpcConn', '\treturn c\n}\n\n// newRpcConn'),
('S05', 'server/internal/message/sub.go', '\tfor _, stat := range s.stats {\n\t\tstats = append(stats, *stat)\n\t}', '\tfor _, stat := range s.stats {\n\t\tif stat.Counter > 0 {\n\t\t\tcontinue\n\t\t}\n\t\tstats = append(stats, *stat)\n\t}'),
('S05', 'server/internal/batch.go', '\t\t\tclose(m.publishQueue)\n', ''),
('S05', 'server/internal/batch.go', '\t\tclose(m.send)\n\t\tm.stopWg.Done()\n\t\treturn', '\t\tm.stopWg.Done()\n\t\treturn'),
('S05', 'server/internal/batch.go', '\t\t\tb, ok := <-m.send\n\t\t\tif !ok {\n\t\t\t\tm.stopWg.Done()\n\t\t\t\treturn\n\t\t\t}', '\t\t\tb, ok := <-m.send\n\t\t\tif !ok {\n\t\t\t\treturn\n\t\t\t}'),
('S05', 'server/internal/batch.go', '\t\tclose(m.stop)\n', ''),
('S05', 'server/internal/batch.go', '\tm.stopWg.Wait()\n', ''),
('S05', 'server/internal/batch.go', '\tm.stopWg.Add(1)\n\tgo m.publish(c,', '\tm.stopWg.Add(2)\n\tgo m.publish(c,'),
('S05', 'server/internal/cluster.go', "\t\tcase stop := <-c.stop:\n\t\t\t// Shutdown is requested, don't care if the message is delivered\n\t\t\tif stop != nil {", "\t\tcase stop := <-c.stop:\n\t\t\t// Shutdown is requested, don't care if the message is delivered\n\t\t\tif stop == nil {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tif stop != nil {"),
('=S05', 'server/internal/conn.go', '\tif c.clnode == nil {\n\t\tfor _, stat := range c.subs.All() {\n\t\t\tstore.Subscription.Delete(c.clientID.Contract(), stat.ID, stat.Topic)\n\t\t\t// Decrement the subscription counter\n\t\t\tc.service.meter.Subscriptions.Dec(1)\n\t\t}\n\t}', '\tif c.clnode == nil {\n\t\tc.unsubAll()\n\t}'),
('=S05', 'server/internal/conn.go', '\t\tfor _, stat := range c.subs.All() {\n\t\t\tstore.Subscription.Delete(c.clientID.Contract(), stat.ID, stat.Topic)\n\t\t\t// Decrement', '\t\tall := c.subs.All()\n\t\tfor i := 0; i < len(all); i++ {\n\t\t\tstat := &all[i]\n\t\t\tstore.Subscription.Delete(c.clientID.Contract(), stat.ID, stat.Topic)\n\t\t\t// Decrement'),
('=S05', 'server/internal/conn.go', '\tif !c.setClosed() {\n\t\treturn errors.New("error disconnecting client")\n\t}', '\tif won := atomic.CompareAndSwapUint32(&c.closed, 0, 1); !won {\n\t\treturn errors.New("error disconnecting client")\n\t}'),
('=S05', [('server/internal/conn.go', '\tdefer c.socket.Close()\n\n\tif', '\tdefer func() {\n\t\tif err := c.socket.Close(); err != nil {\n\t\t\tlog.Error("conn.close", err.Error())\n\t\t}\n\t}()\n\n\tif')], 0, 0),
('=S05', [('server/internal/conn.go', '\t// Signal all goroutines.\n\tclose(c.closeC)\n\tc.closeW.Wait()\n', '\tc.stopLoops()\n'), ('server/internal/conn.go', '// Set closed flag;', 'func (c *_Conn) stopLoops() {\n\tclose(c.closeC)\n\tc.closeW.Wait()\n}\n\n// Set closed flag;')], 0, 0),
('=S05', [('server/internal/conn.go', '\tGlobals.connCache.delete(c.connID)\n\tdefer', '\tdefer'), ('server/internal/conn.go', '\tc.batchManager.close()\n', '\tc.batchManager.close()\n\tGlobals.connCache.delete(c.connID)\n')], 0, 0),
('=S05', 'server/internal/conn.go', '\tif err := c.ok(); err != nil {\n\t\tlog.ConnLogger.Debug().Str("context", "conn.internalConnLost").Int64("connid", int64(c.connID)).Msg("not connected")\n\t\treturn\n\t}\n\tc.close()', '\tif !c.isClosed() {\n\t\tc.close()\n\t}'),
('=S05', [('server/internal/hdl_conn.go', '\tfor {\n\t\tselect {\n\t\tcase <-ctx.Done():\n\t\t\treturn nil\n\t\tcase <-c.closeC:\n\t\t\treturn nil\n\t\tdefault:\n', '\tfor {\n\t\tif c.stopping(ctx) {\n\t\t\treturn nil\n\t\t}\n\t\t{\n'), ('server/internal/hdl_conn.go', '// handler handles inbound', 'func (c *_Conn) stopping(ctx context.Context) bool {\n\tselect {\n\tcase <-ctx.Done():\n\t\treturn true\n\tcase <-c.closeC:\n\t\treturn true\n\tdefault:\n\t\treturn false\n\t}\n}\n\n// handler handles inbound')], 0, 0),
('=S05', [('server/internal/hdl_conn.go', '\t\t\tbuf, err = lp.Encode(pub)\n\t\t\tif err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\tc.socket.Write(buf.Bytes())', '\t\t\tif err = c.write(pub); err != nil {\n\t\t\t\treturn err\n\t\t\t}'), ('server/internal/hdl_conn.go', '\t\t\tbuf, err = lp.Encode(outMsg)\n\t\t\tif err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\tc.socket.Write(buf.Bytes())', '\t\t\tif err = c.write(outMsg); err != nil {\n\t\t\t\treturn err\n\t\t\t}'), ('server/internal/hdl_conn.go', '\tvar buf bytes.Buffer\n\n\tdefer', '\tdefer'), ('server/internal/hdl_conn.go', '// onConnect is a handler for Connect', 'func (c *_Conn) write(m lp.MessagePack) error {\n\tvar buf bytes.Buffer\n\tbuf, err := lp.Encode(m)\n\tif err != nil {\n\t\treturn err\n\t}\n\tc.socket.Write(buf.Bytes())\n\treturn nil\n}\n\n// onConnect is a handler for Connect')], 0, 0),
('=S05', 'server/internal/service.go', '\tconn.closeW.Add(2)\n\tgo conn.readLoop(s.context)\n\tgo conn.writeLoop(s.context)\n', '\tconn.closeW.Add(1)\n\tgo conn.readLoop(s.context)\n\tconn.closeW.Add(1)\n\tgo conn.writeLoop(s.context)\n'),
('=S05', [('server/internal/service.go', '\tconn.closeW.Add(2)\n\tgo conn.readLoop(s.context)\n\tgo conn.writeLoop(s.context)\n', '\tconn.serve(s.context)\n'), ('server/internal/conn.go', '// Set closed flag;', 'func (c *_Conn) serve(ctx context.Context) {\n\tc.closeW.Add(2)\n\tgo c.readLoop(ctx)\n\tgo c.writeLoop(ctx)\n}\n\n// Set closed flag;'), ('server/internal/conn.go', 'import (\n', 'import (\n\t"context"\n')], 0, 0),
('=S05', 'server/internal/hdl_conn.go', '\t\tif c.clientID != nil {\n\t\t\tstatus = types.ErrBadRequest.Status\n\t\t\treturn types.ErrBadRequest\n\t\t}\n', '\t\tif len(c.clientID) > 0 {\n\t\t\tstatus = types.ErrBadRequest.Status\n\t\t\treturn types.ErrBadRequest\n\t\t}\n'),
('=S05', 'server/internal/conn_cache.go', '\tif conn := cc.connections[connID]; conn != nil {\n\t\treturn conn\n\t}\n\n\treturn nil', '\treturn cc.connections[connID]'),
('=S05', [('server/internal/batch.go', '\tm.stopOnce.Do(func() {\n\t\t// Close write queue and wait for currently running jobs to finish.\n\t\tclose(m.stop)\n\t})', '\tm.stopOnce.Do(m.tell)'), ('server/internal/batch.go', '// add adds a publish', 'func (m *batchManager) tell() {\n\tclose(m.stop)\n}\n\n// add adds a publish')], 0, 0),
('=S05', 'server/internal/batch.go', 'LOOP:\n\tb, ok := <-m.publishQueue\n\tif !ok {\n\t\tclose(m.send)\n\t\tm.stopWg.Done()\n\t\treturn\n\t}\n\n\tm.send <- b\n\n\t// Wait for a while\n\ttime.Sleep(timeout)\n\tgoto LOOP\n', '\tdefer m.stopWg.Done()\n\tdefer close(m.send)\n\tfor b := range m.publishQueue {\n\t\tm.send <- b\n\t\ttime.Sleep(timeout)\n\t}\n'),
('=S05', [('server/internal/batch.go', '\tm.stopWg.Add(1)\n\tgo m.publish(c,', '\tm.stopWg.Add(2)\n\tgo m.publish(c,'), ('server/internal/batch.go', '\tm.stopWg.Add(1)\n\tgo m.dispatch', '\tgo m.dispatch')], 0, 0),
('=S05', 'server/internal/conn.go', '\tfor _, stat := range c.subs.All() {\n\t\tstore.Subscription.Delete(c.clientID.Contract(), stat.ID, stat.Topic)\n\t}\n}', '\tfor _, stat := range c.subs.All() {\n\t\tc.forget(stat)\n\t}\n}\n\nfunc (c *_Conn) forget(stat message.Stat) {\n\tstore.Subscription.Delete(c.clientID.Contract(), stat.ID, stat.Topic)\n}'),
('=S05', 'server/internal/message/sub.go', '\tstats := make([]Stat, 0, len(s.stats))\n\tfor _, stat := range s.stats {\n\t\tstats = append(stats, *stat)\n\t}', '\tstats := make([]Stat, len(s.stats))\n\ti := 0\n\tfor _, stat := range s.stats {\n\t\tstats[i] = *stat\n\t\ti++\n\t}'),
('=S05', 'server/internal/message/sub.go', '\t\tstats = append(stats, *stat)', '\t\tentry := Stat{ID: stat.ID, Topic: stat.Topic, Counter: stat.Counter}\n\t\tstats = append(stats, entry)'),
('S11', 'server/internal/pkg/encoding/base8.go', 'dst[5] = encoding[(id[3]>>2)&0x1F]', 'dst[5] = encoding[(id[3]>>3)&0x1F]'),
('S11', 'server/internal/pkg/encoding/base8.go', 'dst[12] = encoding[(id[7]<<1)&0x1F]', 'dst[12] = encoding[(id[7]<<1)&0x0F]'),
('S11', 'server/internal/pkg/encoding/base32.go', 'id[16] = dec[src[25]]<<6 | dec[src[26]]<<1 | dec[src[27]]>>4', 'id[16] = dec[src[25]]<<6 | dec[src[27]]<<1 | dec[src[27]]>>4'),
('S11', 'server/internal/pkg/encoding/base32.go', 'dst[30] = encoding[(id[19]>>5)|(id[18]<<3)&0x1F]', 'dst[30] = encoding[(id[19]>>5)|(id[18]<<4)&0x1F]'),
('S11', 'server/internal/pkg/encoding/base32.go', '\tid[0] = dec[src[0]]<<3 | dec[src[1]]>>2\n\tid[1] = dec[src[1]]<<6 | dec[src[2]]<<1 | dec[src[3]]>>4\n', '\tid[1] = dec[src[1]]<<6 | dec[src[2]]<<1 | dec[src[3]]>>4\n\tid[0] = dec[src[0]]<<3 | dec[src[1]]>>2\n'),
('S11', 'server/internal/pkg/encoding/encoding.go', 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdef', 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcded'),
('S11', 'server/internal/message/security/key.go', '\tfor i := 2; i < rawLen; i += 2 {\n\t\tbuffer[i] = byte(k[i] ^ buffer[0])', '\tfor i := 4; i < rawLen; i += 2 {\n\t\tbuffer[i] = byte(k[i] ^ buffer[0])'),
('S11', 'server/internal/message/security/key.go', 'if len(key) != encodedLen {', 'if len(key) < encodedLen {'),
('S11', 'server/internal/message/security/key.go', 'if len(key) != encodedLen {', 'if len(key) > encodedLen {'),
('S11', 'server/internal/pkg/uid/clientid.go', 'if len(buffer) < 52 {', 'if len(buffer) < 50 {'),
('S11', 'server/internal/pkg/uid/clientid.go', 'mac.Decrypt(nil, buffer[:32])', 'mac.Decrypt(nil, buffer[:31])'),
('S11', 'server/internal/pkg/uid/clientid.go', '\tid.SetEpoch(NewApoch())\n\tid.SetPermissions(AllowNone)\n', '\tid.SetEpoch(NewApoch())\n'),
('S11', 'server/internal/pkg/uid/clientid.go', '\tid.SetPermissions(AllowNone)\n\tid.SetContract(contract)', '\tid.SetPermissions(AllowNone)'),
('S11', 'server/internal/pkg/uid/clientid.go', '\tid.SetContract(master.Contract())\n', ''),
('S11', 'server/internal/pkg/uid/clientid.go', 'return uint32(id[8])<<24 | uint32(id[9])<<16 | uint32(id[10])<<8 | uint32(id[11])', 'return uint32(id[8])<<24 | uint32(id[9])<<16 | uint32(id[10])<<8 | uint32(id[10])'),
('S11', 'server/internal/pkg/uid/clientid.go', '\tid[7] = byte(value)\n', '\tid[7] |= byte(value)\n'),
('S11', 'server/internal/pkg/uid/clientid.go', '\tid[6] = byte(value)\n', '\tid[6] = byte(value)\n\tid[7] = 0\n'),
('S11', 'server/internal/pkg/uid/clientid.go', '\tif err != nil {\n\t\treturn nil, errors.New("Key provided is invalid")\n\t}\n\n\t// Resize', '\t_ = err\n\tif len(key) < rawLen {\n\t\tkey = make([]byte, rawLen)\n\t}\n\n\t// Resize'),
('S11', 'server/internal/pkg/uid/clientid.go', 'return id.Permissions() == AllowMaster', 'return id.Permissions() != AllowMaster'),
('S11', 'server/internal/pkg/uid/clientid.go', 'buffer[i+1] = byte(buffer[i+1] ^ buffer[1])', 'buffer[i+1] = byte(buffer[i+1] ^ buffer[0])'),
('S11', 'server/internal/pkg/crypto/mac.go', 'nonce := append(m.salt, src[:MessageOffset]...)', 'nonce := append(m.salt, src[EpochSize:MessageOffset+EpochSize]...)'),
('S11', 'server/internal/pkg/crypto/mac.go', 'dst = append(dst, src[:EpochSize]...)\n\treturn append(dst, msg...), nil', 'return append(dst, msg...), nil'),
('S11', 'server/internal/pkg/crypto/mac.go', '\tif err != nil {\n\t\treturn dst, errors.New("Authentication failed.")\n\t}\n\t// Epoch', '\tif err != nil {\n\t\tmsg = src[MessageOffset:]\n\t}\n\t// Epoch'),
('S11', 'server/internal/message/security/key.go', '\tif strings.HasSuffix(topic, "...") {\n\t\tbitPath = 0\n\t}\n', ''),
('S11', 'server/internal/message/security/key.go', '\t\tif strings.HasSuffix(part, "*") {\n\t\t\tbitPath = 0\n\t\t\tbreak\n\t\t}', '\t\tif strings.HasSuffix(part, "*") {\n\t\t\tbreak\n\t\t}'),
('S11', 'server/internal/message/security/key.go', '\tfor _, part := range parts {\n\t\tif strings.HasSuffix(part, "*") {', '\tfor _, part := range parts[:len(parts)/2] {\n\t\tif strings.HasSuffix(part, "*") {'),
('S11', 'server/internal/message/security/key.go', 'bitPath |= uint32(1 << (22 - uint16(idx)))', 'bitPath |= uint32(1 << (23 - uint16(idx)))'),
('S11', 'server/internal/message/security/key.go', '\tk[6] = byte(value >> 8)\n', '\tk[6] = byte(value >> 16)\n'),
('S11', 'server/internal/message/security/key.go', '\tk[1] = byte(bitPath >> 16)\n', '\tk[0] = byte(bitPath >> 16)\n\tk[1] = byte(bitPath >> 16)\n'),
('S11', 'server/internal/message/security/key.go', 'if len(parts) > 23 {', 'if len(parts) > 22 {'),
('S11', 'server/internal/message/security/key.go', '\tif err := key.SetTarget(contract, topic); err != nil {\n\t\treturn "", err\n\t}\n', '\tif err := key.SetTarget(permissions, topic); err != nil {\n\t\treturn "", err\n\t}\n'),
('S11', 'server/internal/message/security/key.go', '\tkey.SetPermissions(permissions)\n', '\tkey.SetPermissions(permissions & AllowRead)\n'),
('S11', 'server/internal/message/security/key.go', 'h == target, ((targetPath >> 23) & 1) == 0', 'h == target, ((targetPath >> 22) & 1) == 0'),
('S11', 'server/internal/hdl_conn.go', '\tif !clientid.IsPrimary() {\n\t\tc.service.cache.LoadOrStore', '\tif clientid.IsPrimary() {\n\t\tc.service.cache.LoadOrStore'),
('S11', 'server/internal/hdl_conn.go', '\tif !clientid.IsPrimary() {\n\t\tc.service.cache.LoadOrStore', '\t{\n\t\tc.service.cache.LoadOrStore'),
('S11', 'server/internal/hdl_conn.go', 'c.service.cache.Load(string(clientID))', 'c.service.cache.Load(string(clientID[:c.service.mac.Overhead()]))'),
('S11', 'server/internal/hdl_conn.go', 'c.service.cache.LoadOrStore(clientid.Encode(c.service.mac), clientid.Contract())', 'c.service.cache.LoadOrStore(string(clientID[:8]), clientid.Contract())'),
('=S11', 'server/internal/message/security/key.go', '\tfor i := 2; i < rawLen; i += 2 {\n\t\tbuffer[i] = byte(k[i] ^ buffer[0])\n\t\tbuffer[i+1] = byte(k[i+1] ^ buffer[1])\n\t}\n', '\tfor i := rawLen - 1; i >= 2; i-- {\n\t\tbuffer[i] = k[i] ^ buffer[i%2]\n\t}\n'),
('=S11', 'server/internal/message/security/key.go', '\tfor i := 2; i < rawLen; i += 2 {\n\t\tbuffer[i] = byte(buffer[i] ^ buffer[0])\n\t\tbuffer[i+1] = byte(buffer[i+1] ^ buffer[1])\n\t}\n', '\tunmask := func(b []byte) {\n\t\tfor len(b) >= 2 {\n\t\t\tb[0], b[1] = b[0]^buffer[0], b[1]^buffer[1]\n\t\t\tb = b[2:]\n\t\t}\n\t}\n\tunmask(buffer[2:])\n'),
('=S11', 'server/internal/message/security/key.go', '\tbitPath := uint32(1 << 23)\n\tif strings.HasSuffix(topic, "...") {\n\t\tbitPath = 0\n\t}\n', '\tvar bitPath uint32\n\twildcard := strings.HasSuffix(topic, "...")\n\tif !wildcard {\n\t\tbitPath |= 1 << 23\n\t}\n'),
('=S11', 'server/internal/message/security/key.go', '\t\tif strings.HasSuffix(part, "*") {\n\t\t\tbitPath = 0\n\t\t\tbreak\n\t\t}', "\t\tif n := len(part); n > 0 && part[n-1] == '*' {\n\t\t\tbitPath = 0\n\t\t\tbreak\n\t\t}"),
('=S11', 'server/internal/pkg/uid/clientid.go', '\treturn uint32(id[8])<<24 | uint32(id[9])<<16 | uint32(id[10])<<8 | uint32(id[11])', '\treturn binary.BigEndian.Uint32(id[8:])'),
('=S11', 'server/internal/pkg/uid/clientid.go', '\tid[8] = byte(value >> 24)\n\tid[9] = byte(value >> 16)\n\tid[10] = byte(value >> 8)\n\tid[11] = byte(value)\n', '\tbinary.BigEndian.PutUint32(id[8:12], value)\n'),
('=S11', 'server/internal/pkg/uid/clientid.go', '\tid[4] = byte(value >> 16)\n', '\tid[4] = 0\n'),
('=S11', 'server/internal/pkg/uid/clientid.go', '\treturn id.Permissions() == AllowMaster', '\tif id[7] == byte(AllowMaster) {\n\t\treturn true\n\t}\n\treturn false'),
('=S11', 'server/internal/pkg/uid/clientid.go', '\tid, err := NewClientID(1)\n\tif err != nil {\n\t\treturn ID{}, err\n\t}\n\tid.SetPermissions(AllowNone)\n\tid.SetContract(contract)\n\treturn id, nil', '\tid := make(ID, rawLen)\n\tid.SetEpoch(NewApoch())\n\tid.SetPrimary(1)\n\tid.SetContract(contract)\n\treturn id, nil'),
('=S11', 'server/internal/pkg/uid/clientid.go', '\tif len(buffer) < 52 {', '\tif n := len(buffer); n <= 51 {'),
('=S11', 'server/internal/pkg/crypto/mac.go', '\tsig := make([]byte, 4)\n\tsig[0] = byte(value >> 24)\n\tsig[1] = byte(value >> 16)\n\tsig[2] = byte(value >> 8)\n\tsig[3] = byte(value)\n\treturn sig', '\treturn []byte{byte(value >> 24), byte(value >> 16), byte(value >> 8), byte(value)}'),
('=S11', 'server/internal/pkg/encoding/base8.go', '\tfor i := 0; i < len(encoding); i++ {\n\t\tdec[encoding[i]] = byte(i)\n\t}', '\tfor i, c := range []byte(encoding) {\n\t\tdec[c] = byte(i)\n\t}'),
('=S11', 'server/internal/pkg/encoding/base8.go', '\tdst[5] = encoding[(id[3]>>2)&0x1F]', '\tx := id[3] & 0x7C\n\tdst[5] = encoding[x>>2]'),
('=S11', 'server/internal/hdl_conn.go', '\tif !clientid.IsPrimary() {\n\t\tc.service.cache.LoadOrStore(clientid.Encode(c.service.mac), clientid.Contract())\n\t}\n\n\treturn clientid, nil', '\tif clientid.IsPrimary() {\n\t\treturn clientid, nil\n\t}\n\tknown := clientid.Encode(c.service.mac)\n\tc.service.cache.LoadOrStore(known, clientid.Contract())\n\n\treturn clientid, nil'),
('=S11', 'server/internal/hdl_conn.go', '\tif clientID != nil && len(clientID) > c.service.mac.Overhead() {\n\t\tif contract, ok := c.service.cache.Load(string(clientID)); ok {', '\tif text := string(clientID); len(text) > 0 {\n\t\tif contract, ok := c.service.cache.Load(text); ok {'),
('S09', 'server/internal/hdl_conn.go', '\t\t\tif err := c.onRelay(req); err != nil {\n\t\t\t\tstatus = err.Status\n\t\t\t\tc.notifyError(err, m.MessageID)\n\t\t\t\tcontinue\n\t\t\t}', '\t\t\tif err := c.onRelay(req); err != nil {\n\t\t\t\tstatus = err.Status\n\t\t\t\tcontinue\n\t\t\t}'),
('S09', 'server/internal/hdl_conn.go', '\t\tif err := c.onPublish(m); err != nil {\n\t\t\tstatus = err.Status\n\t\t\tc.notifyError(err, m.MessageID)\n\t\t}', '\t\tif err := c.onPublish(m); err != nil {\n\t\t\tstatus = err.Status\n\t\t\tif !m.IsForwarded {\n\t\t\t\tc.notifyError(err, 0)\n\t\t\t}\n\t\t}'),
('S09', 'server/internal/hdl_conn.go', '\t\tif err := c.onPublish(m); err != nil {\n\t\t\tstatus = err.Status\n\t\t\tc.notifyError(err, m.MessageID)\n\t\t}', '\t\tif err := c.onPublish(m); err != nil {\n\t\t\tstatus = err.Status\n\t\t\tif !m.IsForwarded {\n\t\t\t\tc.notifyError(err, m.MessageID)\n\t\t\t}\n\t\t}'),
('S09', 'server/internal/hdl_conn.go', '\t\tfor _, sub := range m.Subscriptions {\n\t\t\tif err := c.onUnsubscribe(m, sub); err != nil {\n\t\t\t\tstatus = err.Status\n\t\t\t\tc.notifyError(err, m.MessageID)\n\t\t\t}\n\t\t}\n', '\t\tvar failed *types.Error\n\t\tfor _, sub := range m.Subscriptions {\n\t\t\tif err := c.onUnsubscribe(m, sub); err != nil {\n\t\t\t\tstatus = err.Status\n\t\t\t\tfailed = err\n\t\t\t}\n\t\t}\n\t\tif failed != nil {\n\t\t\tc.notifyError(failed, m.MessageID)\n\t\t}\n'),
('S09', 'server/internal/hdl_conn.go', '\t\t\treturnCode = err.ReturnCode // Unauthorized\n', ''),
('S09', 'server/internal/hdl_conn.go', '\t\tc.sendPack(ack)\n\n\t\tif err == types.ErrInvalidClientID {', '\t\tif err == nil {\n\t\t\tc.sendPack(ack)\n\t\t}\n\n\t\tif err == types.ErrInvalidClientID {'),
('S09', 'server/internal/hdl_conn.go', '\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\n\t\tc.clientID = clientID', '\t\tif err != nil && clientID == nil {\n\t\t\treturn err\n\t\t}\n\n\t\tc.clientID = clientID'),
('S09', 'server/internal/hdl_conn.go', '\t\t\tc.sendClientID(clientID.Encode(c.service.mac))\n\t\t\treturn err\n', '\t\t\tc.sendClientID(clientID.Encode(c.service.mac))\n\t\t\treturn nil\n'),
('S09', 'server/internal/hdl_conn.go', '\t\t\tif msg == nil {\n\t\t\t\treturn types.ErrServerError\n\t\t\t}\n', '\t\t\tif msg == nil {\n\t\t\t\treturn nil\n\t\t\t}\n'),
('S09', 'server/internal/hdl_conn.go', '\tif err := c.subscribe(subMsg, topic, sub); err != nil {\n\t\treturn types.ErrServerError\n\t}', '\tif err := c.subscribe(subMsg, topic, sub); err != nil {\n\t\tlog.Error("conn.onSubscribe", err.Error())\n\t}'),
('S09', 'server/internal/hdl_conn.go', '\t\t\tlog.Error("conn.onPublish", "store message "+err.Error())\n\t\t\treturn types.ErrServerError\n', '\t\t\tlog.Error("conn.onPublish", "store message "+err.Error())\n\t\t\tcontinue\n'),
('S09', 'server/internal/hdl_conn.go', '\t\t\tlog.Error("conn.onPublish", "store message "+err.Error())\n\t\t\treturn types.ErrServerError\n', '\t\t\tlog.Error("conn.onPublish", "store message "+err.Error())\n'),
('S09', 'server/internal/hdl_conn.go', '\t\t\tlog.Error("conn.onRelay", "query last messages"+err.Error())\n\t\t\treturn types.ErrServerError\n', '\t\t\tlog.Error("conn.onRelay", "query last messages"+err.Error())\n'),
('S09', 'server/internal/hdl_conn.go', '\t\tMessageID:   pub.MessageID,\n\t}\n\tc.sendPack(ack)\n\treturn nil', '\t\tMessageID:   uint16(c.MessageIds.NextID(utp.PUBLISH)),\n\t}\n\tc.sendPack(ack)\n\treturn nil'),
('S09', 'server/internal/hdl_conn.go', '\tfor _, pubMsg := range pub.Messages {\n\t\t//Parse', '\tif pub.DeliveryMode == 0 {\n\t\tc.acknowledge(pub)\n\t\tpub.IsForwarded = true\n\t}\n\tfor _, pubMsg := range pub.Messages {\n\t\t//Parse'),
('S09', 'server/internal/hdl_conn.go', '\tfor _, pubMsg := range pub.Messages {\n\t\t//Parse the key\n', '\tfor _, pubMsg := range pub.Messages {\n\t\tif len(pubMsg.Payload) == 0 {\n\t\t\tcontinue\n\t\t}\n\t\t//Parse the key\n'),
('S09', 'server/internal/hdl_conn.go', '\t\tgo c.publish(pub, topic, pubMsg)\n', '\t\tgo c.publish(pub, topic, pubMsg)\n\t\tif pub.DeliveryMode == 2 {\n\t\t\tbreak\n\t\t}\n'),
('S09', 'server/internal/hdl_conn.go', '\t\t\tif err = c.handler(pkt); err != nil {\n\t\t\t\treturn err\n\t\t\t}', '\t\t\tif err = c.handler(pkt); err != nil {\n\t\t\t\treturn nil\n\t\t\t}'),
('S09', 'server/internal/hdl_conn.go', '\tkey, err := security.DecodeKey(topic.Key)\n\tif err != nil {\n\t\treturn false, types.ErrBadRequest\n\t}', '\tkey, err := security.DecodeKey(topic.Key)\n\tif err != nil {\n\t\treturn false, nil\n\t}'),
('S09', 'server/internal/hdl_conn.go', '\t\t\tdefault:\n\t\t\t\treturn types.ErrServerError, false\n\t\t\t}', '\t\t\t}'),
('S09', 'server/internal/hdl_conn.go', '\t\t\t\treturn types.ErrTargetTooLong, false', '\t\t\t\treturn types.ErrTargetTooLong, true'),
('S09', 'server/internal/conn.go', '\t\tif err = store.Subscription.Delete(c.clientID.Contract(), messageID, topic.Topic[:topic.Size]); err != nil {', '\t\tif err := store.Subscription.Delete(c.clientID.Contract(), messageID, topic.Topic[:topic.Size]); err != nil && messageID == nil {'),
('S09', 'server/internal/conn.go', '\t\t\tlog.ErrLogger.Err(err).Str("context", "conn.subscribe")\n\t\t\treturn err\n\t\t}\n\t\tif first', '\t\t\tlog.ErrLogger.Err(err).Str("context", "conn.subscribe")\n\t\t\treturn nil\n\t\t}\n\t\tif first'),
('S09', 'server/internal/conn.go', '\t\t\tif err = store.Subscription.Put(c.clientID.Contract(), messageId, topic.Topic, payload); err != nil {', '\t\t\tif err := store.Subscription.Put(c.clientID.Contract(), messageId, topic.Topic, payload); err == nil {\n\t\t\t\tc.service.meter.Subscriptions.Inc(0)\n\t\t\t} else if c.closed != 0 {'),
('S09', 'server/internal/conn.go', '\terr.ID = int(messageID)\n', ''),
('S09', 'server/internal/conn.go', '\tif b, err := json.Marshal(err); err == nil {\n\t\tc.SendMessage(&message.Message{\n\t\t\tTopic:   "unitdb/error/",', '\tif b, err := json.Marshal(err); err == nil && messageID != 0 {\n\t\tc.SendMessage(&message.Message{\n\t\t\tTopic:   "unitdb/error/",'),
('S09', 'server/internal/store/store.go', '\treturn adp.Put(contract, topic, payload, ttl)', '\tadp.Put(contract, topic, payload, ttl)\n\treturn nil'),
('S09', 'server/internal/store/store.go', '\t\tmatches = append(matches, &msg)\n\t}\n\n\treturn matches, err', '\t\tmatches = append(matches, &msg)\n\t}\n\n\treturn matches, nil'),
('S09', 'server/internal/db/unitdb/adapter.go', '\treturn a.db.DeleteEntry(entry.WithID(messageId))', '\tif len(messageId) != 0 {\n\t\ta.db.DeleteEntry(entry.WithID(messageId))\n\t}\n\treturn nil'),
('S09', 'server/internal/db/unitdb/adapter.go', '\tif err := a.mem.Delete(key); err != nil {\n\t\treturn err\n\t}', '\tif err := a.mem.Delete(key); err != nil && key == 0 {\n\t\treturn err\n\t}'),
('=S09', 'server/internal/hdl_conn.go', '\t\tif err := c.onPublish(m); err != nil {\n\t\t\tstatus = err.Status\n\t\t\tc.notifyError(err, m.MessageID)\n\t\t}', '\t\terr := c.onPublish(m)\n\t\tif err == nil {\n\t\t\tbreak\n\t\t}\n\t\tstatus = err.Status\n\t\tc.notifyError(err, m.MessageID)'),
('=S09', 'server/internal/hdl_conn.go', '\tif err := c.subscribe(subMsg, topic, sub); err != nil {\n\t\treturn types.ErrServerError\n\t}\n\n\treturn nil', '\terr := c.subscribe(subMsg, topic, sub)\n\tif err == nil {\n\t\treturn nil\n\t}\n\tlog.Error("conn.onSubscribe", err.Error())\n\treturn types.ErrServerError'),
('=S09', 'server/internal/hdl_conn.go', '\t// acknowledge a Message\n\treturn c.acknowledge(pub)', '\t// acknowledge a Message\n\tc.sendPack(&utp.ControlMessage{MessageType: utp.PUBLISH, FlowControl: utp.ACKNOWLEDGE, MessageID: pub.MessageID})\n\treturn nil'),
('=S09', 'server/internal/hdl_conn.go', '\t\tif err == types.ErrInvalidClientID {\n\t\t\tc.sendClientID(clientID.Encode(c.service.mac))\n\t\t\treturn err\n\t\t}\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n', '\t\tif err != nil {\n\t\t\tif err == types.ErrInvalidClientID {\n\t\t\t\tc.sendClientID(clientID.Encode(c.service.mac))\n\t\t\t}\n\t\t\treturn err\n\t\t}\n'),
('=S09', 'server/internal/hdl_conn.go', '\t\tconnack := &utp.ConnectAcknowledge{ReturnCode: returnCode, Epoch: epoch, ConnID: int32(c.connID)}\n', '\t\tconnack := &utp.ConnectAcknowledge{}\n\t\tconnack.ReturnCode = returnCode\n\t\tconnack.Epoch = epoch\n\t\tconnack.ConnID = int32(c.connID)\n'),
('=S09', 'server/internal/store/store.go', '\treturn adp.Put(contract, topic, payload, ttl)', '\tif err := adp.Put(contract, topic, payload, ttl); err != nil {\n\t\treturn err\n\t}\n\treturn nil'),
('=S09', 'server/internal/db/unitdb/adapter.go', '\tif err := a.mem.Delete(key); err != nil {\n\t\treturn err\n\t}\n\treturn nil', '\treturn a.mem.Delete(key)'),
('=S09', 'server/internal/db/unitdb/adapter.go', '\tmatches, err = a.mem.Get(key)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\treturn matches, nil', '\treturn a.mem.Get(key)'),
('=S09', 'server/internal/hdl_conn.go', '\t\t\tmsg := store.Log.Get(key)\n\t\t\tif msg == nil {\n\t\t\t\treturn types.ErrServerError\n\t\t\t}\n\t\t\tswitch msg.(type) {\n\t\t\tcase *utp.Publish:\n\t\t\t\tc.sendPack(msg)\n\t\t\t}', '\t\t\tif msg := store.Log.Get(key); msg != nil {\n\t\t\t\tif pub, ok := msg.(*utp.Publish); ok {\n\t\t\t\t\tc.sendPack(pub)\n\t\t\t\t}\n\t\t\t} else {\n\t\t\t\treturn types.ErrServerError\n\t\t\t}'),
('=S09', [('server/internal/hdl_conn.go', '\t\terr := store.Message.Put(c.clientID.Contract(), topic.Topic, pubMsg.Payload, pubMsg.Ttl)\n\t\tif err != nil {\n\t\t\tlog.Error("conn.onPublish", "store message "+err.Error())\n\t\t\treturn types.ErrServerError\n\t\t}', '\t\tif terr := c.storeMessage(topic, pubMsg); terr != nil {\n\t\t\treturn terr\n\t\t}'), ('server/internal/hdl_conn.go', '// acknowledge acknowledges a Publish Message\n', 'func (c *_Conn) storeMessage(topic *security.Topic, pubMsg *utp.PublishMessage) *types.Error {\n\terr := store.Message.Put(c.clientID.Contract(), topic.Topic, pubMsg.Payload, pubMsg.Ttl)\n\tif err != nil {\n\t\tlog.Error("conn.onPublish", "store message "+err.Error())\n\t\treturn types.ErrServerError\n\t}\n\treturn nil\n}\n\n// acknowledge acknowledges a Publish Message\n')], 0, 0),

# S03
('S03', 'server/utp/message.go', '\tif fhSize > maxHeaderSize {\n\t\treturn errHeaderTooLarge\n\t}\n', ''),
('=S03', [('server/utp/message.go', '\tif fhSize > maxHeaderSize {\n\t\treturn errHeaderTooLarge\n\t}\n', '\tif err := checkHeader(fhSize); err != nil {\n\t\treturn err\n\t}\n'), ('server/utp/message.go', 'func encodeLength(', 'func checkHeader(n int) error {\n\tif n <= maxHeaderSize {\n\t\treturn nil\n\t}\n\treturn errHeaderTooLarge\n}\n\nfunc encodeLength(')], 0, 0),
('S03', 'server/internal/net/message.go', '\tvar body bytes.Buffer\n', '\tvar body bytes.Buffer\n\tbody.Grow(fh.MessageLength)\n'),
('S03', [('server/internal/net/message.go', '\tvar body bytes.Buffer\n\tif _, err := io.CopyN(&body, r, int64(fh.MessageLength)); err != nil {', '\trawMsg := make([]byte, fh.MessageLength)\n\tif _, err := io.ReadFull(r, rawMsg); err != nil {'), ('server/internal/net/message.go', '\trawMsg := body.Bytes()\n', ''), ('server/internal/net/message.go', '\t"bytes"\n', '\t"bytes"\n')], 0, 0),
('S03', [('server/internal/net/message.go', '\tif fh.MessageLength < 0 {\n\t\treturn nil, fmt.Errorf("message::Read: Invalid message length %d", fh.MessageLength)\n\t}\n', '\tif fh.MessageLength > 1<<20 {\n\t\treturn nil, fmt.Errorf("message::Read: Invalid message length %d", fh.MessageLength)\n\t}\n'), ('server/internal/net/message.go', '\tvar body bytes.Buffer\n', '\tvar body bytes.Buffer\n\tbody.Grow(fh.MessageLength)\n')], 0, 0),
('=S03', [('server/internal/net/message.go', '\tif fh.MessageLength < 0 {\n', '\tif fh.MessageLength < 0 || fh.MessageLength > 1<<20 {\n'), ('server/internal/net/message.go', '\tvar body bytes.Buffer\n', '\tvar body bytes.Buffer\n\tbody.Grow(fh.MessageLength)\n')], 0, 0),
('S03', 'server/internal/hdl_conn.go', 'if c.clientID == nil && inMsg.Type() != utp.CONNECT && inMsg.Type() != utp.DISCONNECT {', 'if c.clientID == nil && inMsg.Type() != utp.CONNECT && inMsg.Type() != utp.DISCONNECT && inMsg.Type() != utp.PUBLISH {'),
('S03', 'server/internal/hdl_conn.go', 'if c.clientID == nil && inMsg.Type() != utp.CONNECT && inMsg.Type() != utp.DISCONNECT {', 'if c.clientID == nil && inMsg.Type() == utp.FLOWCONTROL {'),
('=S03', 'server/internal/hdl_conn.go', 'if c.clientID == nil && inMsg.Type() != utp.CONNECT && inMsg.Type() != utp.DISCONNECT {', 'if t := inMsg.Type(); len(c.clientID) == 0 && !(t == utp.CONNECT || t == utp.DISCONNECT) {'),
('S03', 'server/internal/hdl_conn.go', '\t\tif clientID != nil {\n\t\t\tepoch', '\t\t{\n\t\t\tepoch'),
('S03', 'server/internal/hdl_conn.go', 'err == nil && len(rawSess) >= 4 {', 'err == nil && rawSess != nil {'),
('S03', 'server/internal/hdl_conn.go', 'err == nil && len(rawSess) >= 4 {', 'err == nil && len(rawSess) >= 3 {'),
('=S03', 'server/internal/hdl_conn.go', 'err == nil && len(rawSess) >= 4 {', 'err == nil && len(rawSess) > 3 {'),
('=S03', 'server/internal/hdl_conn.go', 'err == nil && len(rawSess) >= 4 {', 'err == nil && len(rawSess) == 4 {'),
('S03', [('server/internal/hdl_conn.go', '\t\tif rawSess, err := store.Session.Get(uint64(sessKey)); err == nil && len(rawSess) >= 4 {', '\t\tif rawSess, err := store.Session.Get(uint64(sessKey)); err == nil && len(rawSess) > 0 {'), ('server/internal/hdl_conn.go', 'binary.LittleEndian.Uint32(rawSess[:4])', 'binary.LittleEndian.Uint32(rawSess)')], 0, 0),
('S03', 'server/internal/hdl_conn.go', '\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\n\t\tc.clientID = clientID', '\t\tif err == types.ErrInvalidClientID {\n\t\t\treturn err\n\t\t}\n\n\t\tc.clientID = clientID'),
('S03', 'server/internal/hdl_conn.go', '\t\t\tclientid, err := uid.CachedClientID(contract.(uint32))\n\t\t\tif err != nil {\n\t\t\t\treturn nil, types.ErrUnauthorized\n\t\t\t}\n\t\t\treturn', '\t\t\tclientid, err := uid.CachedClientID(contract.(uint32))\n\t\t\tif err != nil {\n\t\t\t\tclientid.SetPermissions(0)\n\t\t\t\treturn nil, types.ErrUnauthorized\n\t\t\t}\n\t\t\treturn'),
('S03', 'server/internal/hdl_conn.go', 'c.service.cache.LoadOrStore(clientid.Encode(c.service.mac), clientid.Contract())', 'c.service.cache.LoadOrStore(clientid.Encode(c.service.mac), int64(clientid.Contract()))'),
('S03', [('server/internal/hdl_conn.go', '\tcase utp.RELAY:\n\t\tm := *inMsg.(*utp.Relay)', '\tcase utp.RELAY, utp.PINGREQ:\n\t\tm := *inMsg.(*utp.Relay)'), ('server/internal/hdl_conn.go', '\tcase utp.PINGREQ:\n\t\tack', '\tcase utp.MessageType(99):\n\t\tack')], 0, 0),
('S03', 'server/utp/relay.go', 'return RELAY\n', 'return SUBSCRIBE\n'),
('S03', 'server/internal/conn.go', '\t\tcase utp.PUBLISH:\n\t\t\tpub := msg.(*utp.Publish)', '\t\tcase utp.PUBLISH, utp.FLOWCONTROL:\n\t\t\tpub := msg.(*utp.Publish)'),
('=S03', [('server/internal/conn.go', '\t\tswitch msg.Type() {\n\t\tcase utp.PUBLISH:\n\t\t\tpub := msg.(*utp.Publish)', '\t\tswitch pub := msg.(type) {\n\t\tcase *utp.Publish:')], 0, 0),
('S03', 'server/internal/conn.go', 'routeToContract(&subMsg, topic, message.SUBSCRIBE,', 'routeToContract(&subMsg, topic, message.UNSUBSCRIBE,'),
('S03', 'server/internal/store/store.go', 'if outMsg.Type() == utp.FLOWCONTROL {', 'if outMsg.Type() != utp.PUBLISH {'),
('S03', 'server/internal/store/store.go', 'if inMsg.Type() == utp.FLOWCONTROL {', 'if inMsg.Type() != utp.PUBLISH {'),
('S03', 'server/internal/message/security/key.go', '\tif len(parts) == 0 {\n\t\ttopic.TopicType = TopicInvalid\n\t\treturn topic\n\t}\n', ''),
('S03', 'server/internal/message/security/key.go', '\tif len(parts) < 2 {', '\tif len(parts) < 1 {'),
('S03', 'server/internal/message/security/key.go', '\tif parts == nil || l < 1 {\n\t\ttopic.TopicType = TopicInvalid\n\t\treturn topic\n\t}\n', '\t_ = l\n'),
('S03', 'server/internal/message/security/key.go', '\t\ttopic.Size = len(parts[0])\n\t\treturn topic', '\t\ttopic.Size = len(text)\n\t\treturn topic'),
('S03', 'server/internal/message/security/key.go', '\ttopic.Size = len(parts[0])\n\n\treturn topic', '\ttopic.Size = len(text)\n\n\treturn topic'),
('=S03', 'server/internal/message/security/key.go', '\ttopic.Size = len(parts[0])\n\n\treturn topic', '\tif topic.Size = len(parts[0]); l > 1 {\n\t\ttopic.Size++\n\t}\n\n\treturn topic'),
('S03', 'server/internal/message/security/key.go', '\tif len(key) != encodedLen {', '\tif len(key) == 0 {'),
('S03', 'server/internal/message/security/key.go', '\tif len(key) != encodedLen {', '\tif len(key) > encodedLen {'),
('=S03', 'server/internal/message/security/key.go', '\tparts := strings.FieldsFunc(text, fn.splitKey)\n', '\tparts := strings.Split(text, string(rune(TopicKeySeparator)))\n\t_ = fn\n'),
('S03', 'server/internal/types/types.go', 'i < len(m.Type); i++', 'i <= len(m.Type); i++'),
('=S03', 'server/internal/types/types.go', '\tfor i := 0; i < len(m.Type); i++ {\n\t\tswitch c := m.Type[i]; c {', '\tfor _, c := range []byte(m.Type) {\n\t\tswitch c {'),
('S03', 'server/internal/pkg/hash/hash.go', 'for i, v, p := len(result)-1, 0, 0; i > 0; i-- {', 'for i, v, p := len(result)-1, 0, 0; i >= 0; i-- {'),
('S03', 'server/internal/pkg/hash/hash.go', '\tn := (len(b) / 8) * 8\n', '\tn := (len(b) + 7) / 8 * 8\n'),
('S03', 'server/internal/pkg/hash/hash.go', 'i, v, p := len(result)-1', 'i, v, p := len(result)'),
('=S03', [('server/internal/hdl_conn.go', '\tcase utp.PUBLISH:\n\t\tm := *inMsg.(*utp.Publish)\n\t\tif err := c.onPublish(m); err != nil {\n\t\t\tstatus = err.Status\n\t\t\tc.notifyError(err, m.MessageID)\n\t\t}\n', '\tcase utp.PUBLISH:\n\t\tc.published(inMsg, &status)\n'), ('server/internal/hdl_conn.go', '// onConnect is a handler', 'func (c *_Conn) published(inMsg lp.MessagePack, status *int) {\n\tm := *inMsg.(*utp.Publish)\n\tif err := c.onPublish(m); err != nil {\n\t\t*status = err.Status\n\t\tc.notifyError(err, m.MessageID)\n\t}\n}\n\n// onConnect is a handler')], 0, 0),
('=S03', [('server/internal/hdl_conn.go', '\tif c.clientID == nil && inMsg.Type() != utp.CONNECT && inMsg.Type() != utp.DISCONNECT {', '\tif !c.connected() && inMsg.Type() != utp.CONNECT && inMsg.Type() != utp.DISCONNECT {'), ('server/internal/hdl_conn.go', '// onConnect is a handler', 'func (c *_Conn) connected() bool { return c.clientID != nil }\n\n// onConnect is a handler')], 0, 0),
('C26', [('db_sync.go', 'winEntries[m.topicHash] = append(winEntries[m.topicHash], we)', 'winEntries[m.topicHash] = _WindowEntries{we}')], 0, 0),
('C26', [('recovery.go', 'winEntries[m.topicHash] = append(winEntries[m.topicHash], newWinEntry(e.seq, m.expiresAt))', 'winEntries[m.topicHash] = _WindowEntries{newWinEntry(e.seq, m.expiresAt)}')], 0, 0),
('C26', [('recovery.go', 'pendingEntries[h] = append(pendingEntries[h], winEntries[h]...)', 'pendingEntries[h] = winEntries[h]')], 0, 0),
('C26', [('time_window.go', '\t\tb.entries[key] = append(b.entries[key], e)', '\t\tb.entries[key] = _WindowEntries{e}')], 0, 0),
('C26', [('time_window.go', '\tif _, ok := b.entries[key]; ok {\n\t\tb.entries', '\tif _, ok := b.entries[key]; !ok {\n\t\tb.entries')], 0, 0),
('C26', [('time_window.go', 'b.entries[key] = _WindowEntries{e}', 'b.entries[key] = _WindowEntries{}')], 0, 0),
('C26', [('time_window.go', '\t\t\t\treleasedKeys[k.timeID] = append(releasedKeys[k.timeID], k)', '\t\t\t\treleasedKeys[k.timeID] = []_Key{k}')], 0, 0),
('C26', [('time_window.go', '\treturn b.cutoffTime != 0 && b.cutoffTime < cutoff', '\treturn b.cutoffTime < cutoff')], 0, 0),
('C26', [('time_window.go', '\treturn b.cutoffTime != 0 && b.cutoffTime < cutoff', '\treturn b.cutoffTime != 0 && b.cutoffTime > cutoff')], 0, 0),
('C26', [('time_window.go', '\tkey := _Key{\n\t\ttimeID:    timeID,\n\t\ttopicHash: topicHash,\n\t}\n', '\tkey := _Key{\n\t\ttimeID:    timeID,\n\t\ttopicHash: uint64(uint32(topicHash)),\n\t}\n')], 0, 0),
('C26', [('time_window.go', '\tb := tw.windowBlocks.getWindowBlock(topicHash)\n\ttw.RUnlock()', '\tb := tw.windowBlocks.getWindowBlock(uint64(timeID))\n\ttw.RUnlock()')], 0, 0),
('C26', [('db_sync.go', '\ttimeRelease := db.internal.timeWindow.release()\n', ''), ('db_sync.go', '\t\t\tif err := timeRelease(timeID); err', '\t\t\ttimeRelease := db.internal.timeWindow.release()\n\t\t\tif err := timeRelease(timeID); err')], 0, 0),
('C26', [('time_window.go', '\t\t\tdelete(b.entries, k)\n', '\t\t\tfor e := range b.entries {\n\t\t\t\tif e.topicHash == k.topicHash {\n\t\t\t\t\tdelete(b.entries, e)\n\t\t\t\t}\n\t\t\t}\n')], 0, 0),
('C26', [('time_window.go', 'releasedKeys[k.timeID] = []_Key{k}', 'releasedKeys[0] = []_Key{k}')], 0, 0),
('C26', [('time_window.go', '\t\twinEntries = tw.addLive(winEntries, b.entries[key], added)\n', '\t\twinEntries = tw.addLive(winEntries, b.entries[key], added)\n\t\tif len(winEntries) >= limit {\n\t\t\tbreak\n\t\t}\n')], 0, 0),
('C26', [('time_window.go', '\t\tif key.topicHash != topicHash {\n\t\t\tcontinue', '\t\tif key.topicHash != topicHash || len(winEntries) > limit {\n\t\t\tcontinue')], 0, 0),
('C26', [('db.go', '\tif e.entry.topicSize != 0 {\n\t\tt := new', '\tif e.entry.topicSize > 1 && e.entry.expiresAt == 0 {\n\t\tt := new')], 0, 0),
('C26', [('db.go', '!ok {\n\t\treturn errForbidden\n\t}\n\n\tif e.entry.topicSize', '!ok {\n\t\treturn nil\n\t}\n\n\tif e.entry.topicSize')], 0, 0),
('C26', [('db.go', '\tif ok := db.internal.timeWindow.add(timeID', '\tif e.entry.topicSize == 0 {\n\t\treturn nil\n\t}\n\tif ok := db.internal.timeWindow.add(timeID')], 0, 0),
('C26', [('batch.go', '\t\t\t\ttopics[e.topicHash] = t\n\t\t\t}\n\t\t\tb.db.internal.trie.add(newTopic(e.topicHash, 0), t.Parts, t.Depth)', '\t\t\t\ttopics[e.topicHash] = t\n\t\t\t} else {\n\t\t\tb.db.internal.trie.add(newTopic(e.topicHash, 0), t.Parts, t.Depth)\n\t\t\t}')], 0, 0),
('C26', [('batch.go', '\ttimeID := b.mem.TimeID()\n', '\ttimeID := time.Now().UnixNano()\n'), ('batch.go', 'import (\n', 'import (\n\t"time"\n')], 0, 0),
('C26', [('batch.go', 'b.db.internal.timeWindow.add(timeID, e.topicHash, newWinEntry', 'b.db.internal.timeWindow.add(timeID, e.seq, newWinEntry')], 0, 0),
('C26', [('batch.go', '\t\tif ok := b.db.internal.timeWindow.add(timeID', '\t\tif i == 0 {\n\t\t\treturn nil\n\t\t}\n\t\tif ok := b.db.internal.timeWindow.add(timeID')], 0, 0),
('=C26', [('time_window.go', '\tif _, ok := b.entries[key]; ok {\n\t\tb.entries[key] = append(b.entries[key], e)\n\t} else {\n\t\tb.entries[key] = _WindowEntries{e}\n\t}\n', '\tb.entries[key] = append(b.entries[key], e)\n')], 0, 0),
('=C26', [('time_window.go', '\tif _, ok := b.entries[key]; ok {\n\t\tb.entries[key] = append(b.entries[key], e)\n\t} else {\n\t\tb.entries[key] = _WindowEntries{e}\n\t}\n', '\tentries := b.entries[key]\n\tentries = append(entries, e)\n\tb.entries[key] = entries\n')], 0, 0),
('=C26', [('time_window.go', '\tif _, ok := b.entries[key]; ok {\n\t\tb.entries[key] = append(b.entries[key], e)\n\t} else {\n\t\tb.entries[key] = _WindowEntries{e}\n\t}\n', '\tentries, ok := b.entries[key]\n\tif !ok {\n\t\tentries = make(_WindowEntries, 0, 8)\n\t}\n\tb.entries[key] = append(entries, e)\n')], 0, 0),
('=C26', [('time_window.go', '\tif _, ok := b.entries[key]; ok {\n\t\tb.entries[key] = append(b.entries[key], e)\n\t} else {\n\t\tb.entries[key] = _WindowEntries{e}\n\t}\n', '\tb.record(key, e)\n'), ('time_window.go', 'func (tw *_TimeWindowBucket) release()', 'func (b *_TimeWindow) record(key _Key, e _WinEntry) {\n\tif _, ok := b.entries[key]; !ok {\n\t\tb.entries[key] = _WindowEntries{e}\n\t\treturn\n\t}\n\tb.entries[key] = append(b.entries[key], e)\n}\n\nfunc (tw *_TimeWindowBucket) release()')], 0, 0),
('=C26', [('time_window.go', '\tkey := _Key{\n\t\ttimeID:    timeID,\n\t\ttopicHash: topicHash,\n\t}\n', '\tkey := newKey(timeID, topicHash)\n'), ('time_window.go', 'func (tw *_TimeWindowBucket) release()', 'func newKey(timeID int64, topicHash uint64) _Key {\n\tvar k _Key\n\tk.topicHash = topicHash\n\tk.timeID = timeID\n\treturn k\n}\n\nfunc (tw *_TimeWindowBucket) release()')], 0, 0),
('=C26', [('time_window.go', '\t\t\tif _, ok := releasedKeys[k.timeID]; ok {\n\t\t\t\treleasedKeys[k.timeID] = append(releasedKeys[k.timeID], k)\n\t\t\t} else {\n\t\t\t\treleasedKeys[k.timeID] = []_Key{k}\n\t\t\t}\n', '\t\t\treleasedKeys[k.timeID] = append(releasedKeys[k.timeID], k)\n')], 0, 0),
('=C26', [('time_window.go', '\t\t\tif _, ok := releasedKeys[k.timeID]; ok {\n\t\t\t\treleasedKeys[k.timeID] = append(releasedKeys[k.timeID], k)\n\t\t\t} else {\n\t\t\t\treleasedKeys[k.timeID] = []_Key{k}\n\t\t\t}\n', '\t\t\tkeys := releasedKeys[k.timeID]\n\t\t\treleasedKeys[k.timeID] = append(keys, k)\n')], 0, 0),
('=C26', [('time_window.go', '\t\tfor _, k := range keys {\n\t\t\tb := tw', '\t\tfor i := range keys {\n\t\t\tk := keys[i]\n\t\t\tb := tw')], 0, 0),
('=C26', [('time_window.go', '\t\t\tb := tw.windowBlocks.getWindowBlock(k.topicHash)\n\t\t\tb.mu.Lock()\n\t\t\tdelete(b.entries, k)\n\t\t\tb.mu.Unlock()\n', '\t\t\ttw.releaseKey(k)\n'), ('time_window.go', '// addLive appends', 'func (tw *_TimeWindowBucket) releaseKey(k _Key) {\n\tb := tw.windowBlocks.getWindowBlock(k.topicHash)\n\tb.mu.Lock()\n\tdefer b.mu.Unlock()\n\tdelete(b.entries, k)\n}\n\n// addLive appends')], 0, 0),
('=C26', [('time_window.go', '\treturn b.cutoffTime != 0 && b.cutoffTime < cutoff', '\tif b.cutoffTime == 0 {\n\t\treturn false\n\t}\n\treturn b.cutoffTime < cutoff')], 0, 0),
('=C26', [('time_window.go', '\treturn b.cutoffTime != 0 && b.cutoffTime < cutoff', '\treturn cutoff > b.cutoffTime && b.cutoffTime > 0')], 0, 0),
('=C26', [('time_window.go', '\treturn b.cutoffTime != 0 && b.cutoffTime < cutoff', '\treturn !(b.cutoffTime == 0 || b.cutoffTime >= cutoff)')], 0, 0),
('=C26', [('time_window.go', '\tfor key := range b.entries {\n\t\tif key.topicHash != topicHash {\n\t\t\tcontinue\n\t\t}\n\t\twinEntries = tw.addLive(winEntries, b.entries[key], added)\n\t}', '\tfor key, entries := range b.entries {\n\t\tif key.topicHash == topicHash {\n\t\t\twinEntries = tw.addLive(winEntries, entries, added)\n\t\t}\n\t}')], 0, 0),
('=C26', [('db_sync.go', '\t\t\tif _, ok := winEntries[m.topicHash]; ok {\n\t\t\t\twinEntries[m.topicHash] = append(winEntries[m.topicHash], we)\n\t\t\t} else {\n\t\t\t\twinEntries[m.topicHash] = _WindowEntries{we}\n\t\t\t}\n', '\t\t\twinEntries[m.topicHash] = append(winEntries[m.topicHash], we)\n')], 0, 0),
('=C26', [('db.go', '\tif ok := db.internal.timeWindow.add(timeID, e.entry.topicHash, newWinEntry(e.entry.seq, e.entry.expiresAt)); !ok {\n\t\treturn errForbidden\n\t}\n', '\twe := newWinEntry(e.entry.seq, e.entry.expiresAt)\n\thash := e.entry.topicHash\n\tif ok := db.internal.timeWindow.add(timeID, hash, we); !ok {\n\t\treturn errForbidden\n\t}\n')], 0, 0),
('=C26', [('db.go', '\t\tt := new(message.Topic)\n\t\trawTopic := e.entry.cache[entrySize+idSize : entrySize+idSize+e.entry.topicSize]\n\t\tt.Unmarshal(rawTopic)\n\t\tdb.internal.trie.add(newTopic(e.entry.topicHash, 0), t.Parts, t.Depth)\n', '\t\tdb.index(e)\n'), ('db.go', '// Delete sets entry for deletion.', 'func (db *DB) index(e *Entry) {\n\tt := new(message.Topic)\n\trawTopic := e.entry.cache[entrySize+idSize : entrySize+idSize+e.entry.topicSize]\n\tt.Unmarshal(rawTopic)\n\tdb.internal.trie.add(newTopic(e.entry.topicHash, 0), t.Parts, t.Depth)\n}\n\n// Delete sets entry for deletion.')], 0, 0),
('=C26', [('db.go', '\ttimeID, err := db.internal.mem.Put(e.entry.seq, e.entry.cache)\n\tif err != nil {\n\t\treturn err\n\t}\n\n\tif ok := db.internal.timeWindow.add(timeID, e.entry.topicHash, newWinEntry(e.entry.seq, e.entry.expiresAt)); !ok {\n\t\treturn errForbidden\n\t}\n', '\tif err := db.putMem(&e.entry); err != nil {\n\t\treturn err\n\t}\n'), ('db.go', '// Delete sets entry for deletion.', 'func (db *DB) putMem(e *_Entry) error {\n\ttimeID, err := db.internal.mem.Put(e.seq, e.cache)\n\tif err != nil {\n\t\treturn err\n\t}\n\tif !db.internal.timeWindow.add(timeID, e.topicHash, newWinEntry(e.seq, e.expiresAt)) {\n\t\treturn errForbidden\n\t}\n\treturn nil\n}\n\n// Delete sets entry for deletion.')], 0, 0),
('=C26', [('batch.go', '\t\tif ok := b.db.internal.timeWindow.add(timeID, e.topicHash, newWinEntry(e.seq, e.expiresAt)); !ok {\n\t\t\treturn errForbidden\n\t\t}\n\t\treturn nil\n', '\t\treturn b.record(timeID, e)\n'), ('batch.go', '// Commit commits changes', 'func (b *Batch) record(timeID int64, e _Entry) error {\n\tif !b.db.internal.timeWindow.add(timeID, e.topicHash, newWinEntry(e.seq, e.expiresAt)) {\n\t\treturn errForbidden\n\t}\n\treturn nil\n}\n\n// Commit commits changes')], 0, 0),
('=C26', [('batch.go', '\t\t\tt, ok := topics[e.topicHash]\n\t\t\tif !ok {\n\t\t\t\tt = new', '\t\t\tt := topics[e.topicHash]\n\t\t\tif t == nil {\n\t\t\t\tt = new')], 0, 0),
('=C26', [('db_sync.go', '\t\tfor h := range winEntries {\n\t\t\ttopicOff, ok', '\t\tfor h, entries := range winEntries {\n\t\t\ttopicOff, ok'), ('db_sync.go', 'topicOff, winEntries[h])', 'topicOff, entries)')], 0, 0),
('C04', [('block_writer.go', '\t\tbufOff = w.buffer.Size()\n', '')], 0, 0),
('C04', [('time_window_writer.go', '\t\tbufOff = w.buffer.Size()\n', '')], 0, 0),
('C04', [('time_window_writer.go', '\t\tb.dirty = true\n', '\t\tb.dirty = !b.leased\n')], 0, 0),
('C04', [('time_window_writer.go', '\t\tb.dirty = true\n', '')], 0, 0),
('C04', [('block_writer.go', '\tb.dirty = true\n', '')], 0, 0),
('C04', [('block_writer.go', '\tb.dirty = true\n', '\tif !b.leased {\n\t\tb.dirty = true\n\t}\n')], 0, 0),
('C04', [('time_window_writer.go', '\t\tb.dirty = true\n', ''), ('time_window_writer.go', '\tw.winBlocks[wIdx] = b\n\n\treturn winBlockOffset(wIdx), nil', '\tb.dirty = true\n\tw.winBlocks[wIdx] = b\n\n\treturn winBlockOffset(wIdx), nil')], 0, 0),
('=C04', [('block_writer.go', '\t\tbufOff = w.buffer.Size()\n', '\t\tw.buffer.Reset()\n')], 0, 0),
('=C04', [('block_writer.go', '\tb.entries[b.entryIdx] = e\n\tb.dirty = true\n', '\tb.dirty = true\n\tb.entries[b.entryIdx] = e\n')], 0, 0),
('=C04', [('time_window_writer.go', '\t\tb.entries[b.entryIdx] = _WinEntry{sequence: we.sequence, expiresAt: we.expiresAt}\n\t\tb.dirty = true\n\t\tb.entryIdx++\n', '\t\tb.put(we)\n'), ('time_window_writer.go', 'func (w *_WindowWriter) write()', 'func (b *_WinBlock) put(we _WinEntry) {\n\tb.entries[b.entryIdx] = _WinEntry{sequence: we.sequence, expiresAt: we.expiresAt}\n\tb.dirty = true\n\tb.entryIdx++\n}\n\nfunc (w *_WindowWriter) write()')], 0, 0),
('=C04', [('time_window_writer.go', 'b = _WinBlock{topicHash: topicHash, next: next}', 'b = _WinBlock{topicHash: topicHash, next: next, dirty: true}')], 0, 0),
('C27', [('db_sync.go', '\tdb.syncInfo.count = 0\n', '')], 0, 0),
('C27', [('db_sync.go', '\t\t\tif err := db.blockWriter.append(e); err != nil {\n\t\t\t\tif err == errEntryExist {\n', '\t\t\tdb.syncInfo.count++\n\t\t\tif err := db.blockWriter.append(e); err != nil {\n\t\t\t\tif err == errEntryExist {\n'), ('db_sync.go', '\t\t\tdb.internal.filter.Append(we.seq())\n\t\t\tdb.syncInfo.count++\n', '\t\t\tdb.internal.filter.Append(we.seq())\n')], 0, 0),
('C27', [('recovery.go', '\t\t\tdb.internal.filter.Append(e.seq)\n\t\t\tdb.syncInfo.count++\n', '\t\t\tdb.internal.filter.Append(e.seq)\n')], 0, 0),
('C27', [('recovery.go', '\t\t\tdb.syncInfo.count++\n', '\t\t\tif m.topicSize == 0 {\n\t\t\t\tdb.syncInfo.count++\n\t\t\t}\n')], 0, 0),
('C27', [('db_sync.go', '\t\t\t\tif err == errEntryExist {\n\t\t\t\t\tcontinue', '\t\t\t\tif err == errEntryExist {\n\t\t\t\t\tdb.syncInfo.count++\n\t\t\t\t\tcontinue')], 0, 0),
('C27', [('db_sync.go', '\t\t\tdb.syncInfo.count++\n', '\t\t\tdb.syncInfo.count += int64(len(seqs))\n')], 0, 0),
('C27', [('db_sync.go', '\t\tdb.decount(uint64(db.syncInfo.count))\n\t\treturn err', '\t\treturn err')], 0, 0),
('C27', [('db_sync.go', '\tdb.incount(uint64(db.syncInfo.count))\n\tif err := db.DB.sync(); err != nil {\n\t\tdb.decount(uint64(db.syncInfo.count))\n\t\treturn err\n\t}\n', '\tif err := db.DB.sync(); err != nil {\n\t\treturn err\n\t}\n\tdb.incount(uint64(db.syncInfo.count))\n')], 0, 0),
('C27', [('db_sync.go', '\tdb.incount(uint64(db.syncInfo.count))\n\tif err', '\tif !recovery {\n\t\tdb.incount(uint64(db.syncInfo.count))\n\t}\n\tif err')], 0, 0),
('C27', [('db_internal.go', '\tdb.decount(1)\n', '')], 0, 0),
('C27', [('db_internal.go', '\tif e.seq == 0 {\n\t\treturn nil // entry does not', '\tdb.decount(1)\n\tif e.seq == 0 {\n\t\treturn nil // entry does not'), ('db_internal.go', '\tdb.decount(1)\n\treturn nil', '\treturn nil')], 0, 0),
('C27', [('db_internal.go', '\t\tdb.internal.freeList.freeBlock(e.msgOffset, e.mSize())\n\t}\n\tdb.decount(1)', '\t\tdb.internal.freeList.freeBlock(e.msgOffset, e.mSize())\n\t\tdb.decount(1)\n\t}')], 0, 0),
('C27', [('db_internal.go', '&db.internal.dbInfo.count, -count)', '&db.internal.dbInfo.count, ^count)')], 0, 0),
('C27', [('block_writer.go', '\t\tif b.entries[i].seq == e.seq { //record exist in db\n\t\t\tentryIdx = -1', '\t\tif b.dirty && b.entries[i].seq == e.seq { //record exist in db\n\t\t\tentryIdx = -1')], 0, 0),
('C27', [('block_writer.go', '\tfor i := 0; i < int(b.entryIdx); i++ {\n\t\tif b.entries[i].seq == e.seq { //record exist in db\n\t\t\tentryIdx = -1', '\tfor i := 1; i < int(b.entryIdx); i++ {\n\t\tif b.entries[i].seq == e.seq { //record exist in db\n\t\t\tentryIdx = -1')], 0, 0),
('C27', [('block_writer.go', '\tfor i := 0; i < int(b.entryIdx); i++ {\n\t\tif b.entries[i].seq == e.seq { //record exist in db\n\t\t\tentryIdx = -1', '\tfor i := 0; i < int(b.entryIdx)-1; i++ {\n\t\tif b.entries[i].seq == e.seq { //record exist in db\n\t\t\tentryIdx = -1')], 0, 0),
('C27', [('block_writer.go', '\t\tif b.entries[i].seq == e.seq { //record exist in db\n\t\t\tentryIdx = -1', '\t\tif b.entries[i].seq == e.seq && !b.entries[i].isDeleted() { //record exist in db\n\t\t\tentryIdx = -1')], 0, 0),
('C27', [('block_writer.go', '\t\tif bIdx < w.blockIdx {\n\t\t\tr := _BlockReader', '\t\tif bIdx < w.blockIdx-1 {\n\t\t\tr := _BlockReader')], 0, 0),
('C27', [('block_writer.go', '\tif entryIdx == -1 || b.entries[entryIdx].isDeleted() {', '\tif entryIdx == -1 {')], 0, 0),
('C27', [('db_sync.go', '\tdefer db.reset()\n\tif db.syncInfo.syncComplete {\n\t\treturn nil\n\t}\n', '\tif db.syncInfo.syncComplete {\n\t\treturn db.reset()\n\t}\n')], 0, 0),
('C27', [('db_sync.go', '\tif err != nil {\n\t\tdb.syncInfo.syncComplete = false\n\t\tdb.abort()\n\t}\n\n\treturn err\n}\n\n// expire', '\tif err != nil {\n\t\tdb.syncInfo.syncComplete = false\n\t}\n\n\treturn err\n}\n\n// expire')], 0, 0),
('C27', [('db.go', '\treturn atomic.LoadUint64(&db.internal.dbInfo.count)', '\treturn atomic.LoadUint64(&db.internal.dbInfo.count) + uint64(db.internal.syncHandle.syncInfo.count)')], 0, 0),
('C27', [('db.go', '\treturn atomic.LoadUint64(&db.internal.dbInfo.count)', '\treturn atomic.LoadUint64(&db.internal.dbInfo.sequence)')], 0, 0),
('=C27', [('db_sync.go', '\t\t\tdb.syncInfo.count++\n\t\t\tdb.syncInfo.inBytes += int64(e.valueSize)\n', '\t\t\tdb.counted(e)\n'), ('db_sync.go', 'func (db *_SyncHandle) finish', 'func (db *_SyncHandle) counted(e _IndexEntry) {\n\tdb.syncInfo.inBytes += int64(e.valueSize)\n\tdb.syncInfo.count = 1 + db.syncInfo.count\n}\n\nfunc (db *_SyncHandle) finish')], 0, 0),
('=C27', [('block_writer.go', '\tentryIdx := 0\n\tfor i := 0; i < int(b.entryIdx); i++ {\n\t\tif b.entries[i].seq == e.seq { //record exist in db\n\t\t\tentryIdx = -1\n\t\t\tbreak\n\t\t}\n\t}\n\tif entryIdx == -1 {\n\t\treturn errEntryExist\n\t}\n', '\tif b.find(e.seq) >= 0 {\n\t\treturn errEntryExist\n\t}\n'), ('block_writer.go', 'func (w *_BlockWriter) append(', 'func (b *_IndexBlock) find(seq uint64) int {\n\tfor i, n := 0, int(b.entryIdx); i < n; i++ {\n\t\tif seq == b.entries[i].seq {\n\t\t\treturn i\n\t\t}\n\t}\n\treturn -1\n}\n\nfunc (w *_BlockWriter) append(')], 0, 0),
('=C27', [('block_writer.go', '\tfor i := 0; i < int(b.entryIdx); i++ {\n\t\tif b.entries[i].seq == e.seq { //record exist in db\n\t\t\tentryIdx = -1', '\tfor _, x := range b.entries[:b.entryIdx] {\n\t\tif x.seq == e.seq { //record exist in db\n\t\t\tentryIdx = -1')], 0, 0),
('=C27', [('block_writer.go', '\t\tif b.entries[i].seq == e.seq { //record exist in db\n\t\t\tentryIdx = -1\n\t\t\tbreak\n\t\t}', '\t\tif b.entries[i].seq != e.seq {\n\t\t\tcontinue\n\t\t}\n\t\treturn errEntryExist')], 0, 0),
('=C27', [('db_internal.go', '\tif e.seq == 0 {\n\t\treturn nil // entry does not exist in db or it is already deleted.\n\t}\n\t// topic is loaded from data of the entry when DB is opened, and the data is kept.\n\tif e.topicSize == 0 {\n\t\tdb.internal.freeList.freeBlock(e.msgOffset, e.mSize())\n\t}\n\tdb.decount(1)\n\treturn nil', '\tif e.seq > 0 {\n\t\tdb.decount(1)\n\t\tif e.topicSize == 0 {\n\t\t\tdb.internal.freeList.freeBlock(e.msgOffset, e.mSize())\n\t\t}\n\t}\n\treturn nil')], 0, 0),
('=C27', [('db_internal.go', '&db.internal.dbInfo.count, -count)', '&db.internal.dbInfo.count, ^(count - 1))')], 0, 0),
('=C27', [('db_sync.go', '\tdb.incount(uint64(db.syncInfo.count))\n\tif err := db.DB.sync(); err != nil {\n\t\tdb.decount(uint64(db.syncInfo.count))', '\tn := uint64(db.syncInfo.count)\n\tdb.incount(n)\n\tif err := db.DB.sync(); err != nil {\n\t\tdb.decount(n)')], 0, 0),
('=C27', [('db_sync.go', '\tdb.syncInfo.count = 0\n\tdb.syncInfo.inBytes = 0\n\tdb.syncInfo.upperSeq = 0\n', '\tdb.syncInfo.clear()\n'), ('db_sync.go', 'func (db *_SyncHandle) finish', 'func (s *_SyncInfo) clear() {\n\ts.count, s.inBytes, s.upperSeq = 0, 0, 0\n}\n\nfunc (db *_SyncHandle) finish')], 0, 0),
('C15', [('query.go', 'q.internal.cutoff = base.Add(-duration).Unix()', 'q.internal.cutoff = base.Add(duration).Unix()')], 0, 0),
('C15', [('query.go', 'q.internal.cutoff = base.Add(-duration).Unix()', 'q.internal.cutoff = base.Add(-duration).UnixNano()')], 0, 0),
('C15', [('message/topic.go', 'start := base.Add(-duration)', 'start := base.Add(duration)')], 0, 0),
('C15', [('query.go', '\t\tq.internal.cutoff = from.Unix()\n', '\t\tif limit == 0 && q.Limit == 0 {\n\t\t\tq.internal.cutoff = from.Unix()\n\t\t}\n')], 0, 0),
('C15', [('message/id.go', '\tcopy(newid[:fixed], *id)\n', '\tcopy(newid[8:], (*id)[8:])\n')], 0, 0),
('C15', [('db_internal.go', '\tt.AddContract(e.Contract)\n\te.entry.topicHash', '\tt.AddContract(message.MasterContract)\n\te.entry.topicHash')], 0, 0),
('=C15', [('query.go', '\t\tq.internal.cutoff = from.Unix()\n', '\t\tc := from.Unix()\n\t\tq.internal.cutoff = c\n')], 0, 0),
('=C15', [('query.go', '\tbase := time.Now()\n\tduration, err := time.ParseDuration(dur)\n', '\tduration, err := time.ParseDuration(dur)\n'), ('query.go', 'q.internal.cutoff = base.Add(-duration).Unix()', 'since := time.Now().Add(-1 * duration)\n\tq.internal.cutoff = since.Unix()')], 0, 0),
('=C15', [('message/id.go', '\tcopy(newid[:fixed], *id)\n\tbinary.LittleEndian.PutUint32(newid[4:8], contract)\n\t*id = newid', '\tnewid = append(newid[:0], *id...)\n\tbinary.LittleEndian.PutUint32(newid[4:8], contract)\n\t*id = newid')], 0, 0),
('C16', [('message/topic.go', 'return uint32(time.Now().Add(time.Duration(sec) * time.Second).Unix()), ok', 'return uint32(time.Now().Add(time.Duration(sec)).Unix()), ok')], 0, 0),
('=C16', [('message/topic.go', '\tif sec > 0 {\n\t\treturn uint32(time.Now().Add(time.Duration(sec) * time.Second).Unix()), ok\n\t}\n\tvar duration time.Duration\n\tduration, _ = time.ParseDuration(ttl)\n\treturn', '\tduration := time.Second * time.Duration(sec)\n\tif sec <= 0 {\n\t\tduration, _ = time.ParseDuration(ttl)\n\t}\n\treturn')], 0, 0),
('C16', [('message/topic.go', 'time.Duration(sec) * time.Second)', 'time.Duration(sec) * time.Millisecond)')], 0, 0),
('C16', [('message/topic.go', 'time.Now().Add(duration).Unix()), ok', 'time.Now().Add(-duration).Unix()), ok')], 0, 0),
('C28', [('db.go', '\t\t\tstart = limit\n\t\t\tlimit = limit + invalidCount', '\t\t\tlimit = limit + invalidCount')], 0, 0),
('C28', [('db.go', '\t\t\tstart = limit\n\t\t\tlimit = len(q.internal.winEntries)\n', '\t\t\tlimit = len(q.internal.winEntries)\n')], 0, 0),
('C28', [('db.go', '\t\t\t\t\tif err == errMsgIDDeleted || err == errEntryInvalid {\n\t\t\t\t\t\tinvalidCount++\n', '\t\t\t\t\tif err == errMsgIDDeleted || err == errEntryInvalid {\n')], 0, 0),
('C28', [('db.go', 'cutoff) {\n\t\t\t\t\tinvalidCount++\n', 'cutoff) {\n')], 0, 0),
('C28', [('db.go', '\t\tif len(items) == q.Limit || len(q.internal.winEntries) < limit {', '\t\tif len(items) == q.Limit || len(q.internal.winEntries) <= limit {')], 0, 0),
('C28', [('db_internal.go', '\tif data != nil {\n\t\tvar m _Entry', '\tif data != nil && db.internal.filter.Test(q.seq) {\n\t\tvar m _Entry')], 0, 0),
('C28', [('db_internal.go', '\t\t\treturn err\n\t\t}\n\t\tfor _, we := range wEntries {\n', '\t\t\treturn err\n\t\t}\n\t\tif len(q.internal.winEntries) >= limit {\n\t\t\tbreak\n\t\t}\n\t\tfor _, we := range wEntries {\n')], 0, 0),
('C28', [('db.go', '\tstart := 0\n\tlimit := q.Limit', '\tstart := 1\n\tlimit := q.Limit')], 0, 0),
('C28', [('db.go', '\t\tif len(items) == q.Limit || len(q.internal.winEntries) < limit {\n\t\t\tbreak\n\t\t}', '\t\tif len(items) == q.Limit || len(q.internal.winEntries) < limit || limit > q.internal.opts.maxQueryLimit {\n\t\t\tbreak\n\t\t}')], 0, 0),
('C28', [('db.go', '\t\tif len(items) == q.Limit || len', '\t\tif len(items) <= q.Limit || len')], 0, 0),
('C28', [('db.go', '\t\tif err := db.lookup(q, limit); err', '\t\tif err := db.lookup(q, q.Limit); err')], 0, 0),
('C28', [('db_internal.go', '\tdata, err := db.internal.mem.Get(q.seq)\n', '\tif e, err := db.internal.reader.readEntry(q.seq); err == nil {\n\t\treturn e, nil\n\t}\n\tdata, err := db.internal.mem.Get(q.seq)\n')], 0, 0),
('C28', [('db_internal.go', '\tfor _, topic := range topics {\n\t\twEntries', '\tfor _, topic := range topics {\n\t\tif topic.offset == 0 && len(q.internal.winEntries) >= limit {\n\t\t\tcontinue\n\t\t}\n\t\twEntries')], 0, 0),
('C28', [('db_internal.go', '\t\tfor _, we := range wEntries {\n\t\t\tq.internal', '\t\tfor _, we := range wEntries {\n\t\t\tif !db.internal.filter.Test(we.seq()) {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tq.internal')], 0, 0),
('=C28', [('db.go', '\t\tif len(items) == q.Limit || len(q.internal.winEntries) < limit {\n\t\t\tbreak\n\t\t}', '\t\tif len(items) >= q.Limit {\n\t\t\tbreak\n\t\t}\n\t\tif limit > len(q.internal.winEntries) {\n\t\t\tbreak\n\t\t}')], 0, 0),
('=C28', [('db_internal.go', '\tif data != nil {\n\t\tvar m _Entry', '\tif data == nil {\n\t\treturn db.internal.reader.readEntry(q.seq)\n\t}\n\tif data != nil {\n\t\tvar m _Entry')], 0, 0),
('=C28', [('db.go', '\t\tif len(q.internal.winEntries) <= int(q.Limit+invalidCount) {\n\t\t\tstart = limit\n\t\t\tlimit = len(q.internal.winEntries)\n\t\t} else {\n\t\t\tstart = limit\n\t\t\tlimit', '\t\tstart = limit\n\t\tif len(q.internal.winEntries) <= int(q.Limit+invalidCount) {\n\t\t\tlimit = len(q.internal.winEntries)\n\t\t} else {\n\t\t\tlimit')], 0, 0),
('=C28', [('db.go', '\t\tfor _, query := range q.internal.winEntries[start:limit] {\n', '\t\tpart := q.internal.winEntries[start:limit]\n\t\tfor i := range part {\n\t\t\tquery := part[i]\n')], 0, 0),
('=C28', [('db_internal.go', '\t\t\tq.internal.winEntries = append(q.internal.winEntries, _Query{topicHash: topic.hash, seq: we.seq()})\n', '\t\t\tq.add(topic.hash, we)\n'), ('db_internal.go', 'func (db *DB) parseTopic', 'func (q *Query) add(h uint64, we _WinEntry) {\n\te := _Query{seq: we.seq()}\n\te.topicHash = h\n\tq.internal.winEntries = append(q.internal.winEntries, e)\n}\n\nfunc (db *DB) parseTopic')], 0, 0),
]
