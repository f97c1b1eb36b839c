From 5c7e3d675144f892eaca14025e60ad1a911cac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:41 +0000
Subject: [PATCH 01/51] fix: encrypt payloads shorter than the epoch and leave
 the ciphertext untouched by decryption

Encrypt sliced four bytes from a shorter source and panicked, Decrypt
overwrote its input and dropped the destination prefix.
---
 crypto/mac.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/crypto/mac.go b/crypto/mac.go
index c70d0f6..dec618d 100644
--- a/crypto/mac.go
+++ b/crypto/mac.go
@@ -27,8 +27,10 @@ import (
 const (
 	// EpochSize length of epoch
 	EpochSize = 4
+	// SignatureSize length of signature
+	SignatureSize = 4
 	// MessageOffset offset for the message without overhead
-	MessageOffset = EpochSize + 4
+	MessageOffset = EpochSize + SignatureSize
 )
 
 // MAC has the ability to encrypt and decrypt (short) messages as long as they
@@ -82,11 +84,16 @@ func Signature(value uint32) []byte {
 // Encrypt encrypts src and appends to dst, returning the
 // resulting byte slice
 func (m *MAC) Encrypt(dst, src []byte) []byte {
+	sig := Signature(hash.New(src))
+	if len(src) < EpochSize {
+		// src is too short to provide the epoch, it is sealed as a whole using a zero epoch.
+		nonce := append(append(append([]byte{}, m.salt...), make([]byte, EpochSize)...), sig...)
+		return m.parent.Seal(append(dst, sig...), nonce, src, nil)
+	}
 	//Copy first 4 bytes epoch from source
+	nonce := append(append(append([]byte{}, m.salt...), src[:EpochSize]...), sig...)
 	dst = append(dst, src[:EpochSize]...)
-	h := hash.New(src)
-	dst = append(dst, Signature(h)...)
-	nonce := append(m.salt, dst[:MessageOffset]...)
+	dst = append(dst, sig...)
 	return m.parent.Seal(dst, nonce, src[EpochSize:], nil)
 }
 
@@ -99,12 +106,20 @@ func (m *MAC) Decrypt(dst, src []byte) ([]byte, error) {
 		return dst, errors.New("Authentication failed.")
 	}
 
-	nonce := append(m.salt, src[:MessageOffset]...)
-	dst, err := m.parent.Open(dst, nonce, src[MessageOffset:], nil)
+	sigOff := EpochSize
+	epoch := src[:EpochSize]
+	if len(src) < m.Overhead()+EpochSize {
+		// src was too short to provide the epoch and it was sealed using a zero epoch.
+		sigOff = 0
+		epoch = make([]byte, EpochSize)
+	}
+	sealed := src[sigOff+SignatureSize:]
+	nonce := append(append(append([]byte{}, m.salt...), epoch...), src[sigOff:sigOff+SignatureSize]...)
+	// Append epoch to dst at the beginning
+	out := append(dst, src[:sigOff]...)
+	out, err := m.parent.Open(out, nonce, sealed, nil)
 	if err != nil {
 		return dst, errors.New("Authentication failed.")
 	}
-	// Append epoch to dst at the beginning
-	dst = append(src[:EpochSize], dst...)
-	return dst, nil
+	return out, nil
 }
-- 
2.43.0


From 5240d7ac4c460b4457bb5d728d9a8a9b1f6072c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:58 +0000
Subject: [PATCH 02/51] fix: store the encryption flag in its own byte of the
 info header

The flag was written to a byte that the sequence then overwrote and read
back from the format version, so every database encrypted its payloads
whatever its options said.
---
 db_info.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db_info.go b/db_info.go
index ba56ab4..32ee9f0 100644
--- a/db_info.go
+++ b/db_info.go
@@ -43,7 +43,7 @@ func (inf _DBInfo) MarshalBinary() ([]byte, error) {
 	buf := make([]byte, fixed)
 	copy(buf[:7], inf.header.signature[:])
 	binary.LittleEndian.PutUint32(buf[7:11], inf.header.version)
-	buf[12] = uint8(inf.encryption)
+	buf[11] = uint8(inf.encryption)
 	binary.LittleEndian.PutUint64(buf[12:20], inf.sequence)
 	binary.LittleEndian.PutUint64(buf[20:28], inf.count)
 
@@ -54,7 +54,7 @@ func (inf _DBInfo) MarshalBinary() ([]byte, error) {
 func (inf *_DBInfo) UnmarshalBinary(data []byte) error {
 	copy(inf.header.signature[:], data[:7])
 	inf.header.version = binary.LittleEndian.Uint32(data[7:11])
-	inf.encryption = int8(data[7])
+	inf.encryption = int8(data[11])
 	inf.sequence = binary.LittleEndian.Uint64(data[12:20])
 	inf.count = binary.LittleEndian.Uint64(data[20:28])
 
-- 
2.43.0


From 9b9a165651716c5afe4b5961e098aeb76ce07eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:01 +0000
Subject: [PATCH 03/51] fix: give topics that permute the same parts different
 hashes

GetHash xored the part hashes, so a.b and b.a (or a.a.c and b.b.c) were
taken for one topic and the second one was never found.
---
 message/topic.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/message/topic.go b/message/topic.go
index 78d122e..3425139 100644
--- a/message/topic.go
+++ b/message/topic.go
@@ -40,6 +40,9 @@ const (
 
 	// Wildcard wildcard is hash for wildcard topic such as '*' or '...'
 	Wildcard = uint32(857445537)
+
+	// hashPrime is the multiplier used to combine hashes of the topic parts.
+	hashPrime = uint32(16777619)
 )
 
 // TopicOption represents a key/value pair option.
@@ -81,7 +84,8 @@ func (t *Topic) GetHash(contract uint32) uint64 {
 	}
 	h := t.Parts[0].Hash
 	for _, i := range t.Parts[1:] {
-		h ^= i.Hash
+		// the order of the parts and their wildcards count.
+		h = (h*hashPrime ^ i.Hash)*hashPrime ^ uint32(i.Wildchars)
 	}
 	return uint64(h)<<32 + uint64((contract<<8)|uint32(t.Depth))
 }
-- 
2.43.0


From ab1f6d646ad42aaaf793ab705ea8c44aa15bbc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:39 +0000
Subject: [PATCH 04/51] fix: honour a time to live given as a number of seconds

The ttl topic option stored the duration instead of the expiry time, and
Entry.WithTTL overwrote a numeric value with an immediate expiry.
---
 entry.go         | 3 ++-
 message/topic.go | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/entry.go b/entry.go
index 1eac420..aa2a4af 100644
--- a/entry.go
+++ b/entry.go
@@ -80,7 +80,8 @@ func (e *Entry) WithContract(contract uint32) *Entry {
 func (e *Entry) WithTTL(ttl string) *Entry {
 	val, err := strconv.ParseInt(ttl, 10, 64)
 	if err == nil {
-		e.ExpiresAt = uint32(time.Now().Add(time.Duration(int(val)) * time.Second).Unix())
+		e.ExpiresAt = uint32(time.Now().Unix() + val)
+		return e
 	}
 	var duration time.Duration
 	duration, _ = time.ParseDuration(ttl)
diff --git a/message/topic.go b/message/topic.go
index 3425139..28b5dbd 100644
--- a/message/topic.go
+++ b/message/topic.go
@@ -112,7 +112,7 @@ func (_SplitFunc) splitOpsKeyValue(c rune) bool {
 func (t *Topic) TTL() (uint32, bool) {
 	ttl, sec, ok := t.getOption("ttl")
 	if sec > 0 {
-		return uint32(time.Duration(sec) * time.Second), ok
+		return uint32(time.Now().Unix() + int64(sec)), ok
 	}
 	var duration time.Duration
 	duration, _ = time.ParseDuration(ttl)
-- 
2.43.0


From 8a1ad45c1d0ca5cdb2d9a3c1b8c1ff7548edbb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:42 +0000
Subject: [PATCH 05/51] fix: reject topics without a name or deeper than the
 maximum depth

The key "?" was stored under no topic at all, and a topic of more than
255 parts was filed under a truncated depth where no query found it.
---
 message/topic.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/message/topic.go b/message/topic.go
index 28b5dbd..b9ed2f2 100644
--- a/message/topic.go
+++ b/message/topic.go
@@ -197,6 +197,11 @@ func (t *Topic) ParseKey(text []byte) {
 
 // Parse attempts to parse the static vs wildcard topic.
 func (t *Topic) Parse(contract uint32, wildcard bool) {
+	if len(t.Topic) == 0 || bytes.Count(t.Topic, []byte{TopicSeparator}) >= TopicMaxDepth {
+		// there is no topic in the key, or it has too many parts.
+		t.TopicType = TopicInvalid
+		return
+	}
 	if wildcard {
 		parseWildcardTopic(contract, t)
 		return
-- 
2.43.0


From 99d7ad1ae7e459c2de2e3e6f8f2de0b7b226ada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:01 +0000
Subject: [PATCH 06/51] fix: give topics that permute the same parts different
 hashes (format)

---
 message/topic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/message/topic.go b/message/topic.go
index b9ed2f2..360d9ef 100644
--- a/message/topic.go
+++ b/message/topic.go
@@ -85,7 +85,7 @@ func (t *Topic) GetHash(contract uint32) uint64 {
 	h := t.Parts[0].Hash
 	for _, i := range t.Parts[1:] {
 		// the order of the parts and their wildcards count.
-		h = (h*hashPrime ^ i.Hash)*hashPrime ^ uint32(i.Wildchars)
+		h = (h*hashPrime^i.Hash)*hashPrime ^ uint32(i.Wildchars)
 	}
 	return uint64(h)<<32 + uint64((contract<<8)|uint32(t.Depth))
 }
-- 
2.43.0


From cd1838a3db67d2866d2afe2b29a7ca3b39758f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:28 +0000
Subject: [PATCH 07/51] fix: read index entries without sharing the read
 position between queries

Concurrent queries moved the offset of one reader, so a query could read
the index block another one asked for.
---
 block_reader.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/block_reader.go b/block_reader.go
index aa9085c..6ab57de 100644
--- a/block_reader.go
+++ b/block_reader.go
@@ -55,8 +55,9 @@ func (r *_BlockReader) readIndexBlock() (_IndexBlock, error) {
 
 func (r *_BlockReader) readEntry(seq uint64) (_IndexEntry, error) {
 	bIdx := blockIndex(seq)
-	r.offset = blockOffset(bIdx)
-	b, err := r.readIndexBlock()
+	// the reader is shared, a query reads the block into a reader of its own.
+	br := _BlockReader{indexFile: r.indexFile, offset: blockOffset(bIdx)}
+	b, err := br.readIndexBlock()
 	if err != nil {
 		return _IndexEntry{}, err
 	}
-- 
2.43.0


From eb593b0a59f9d5fd62e5ce4a3b73354a6f99cb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:31 +0000
Subject: [PATCH 08/51] fix: hold the trie lock while a topic is added

The summary map was read without the lock its writers take, and two
topics sharing a new part could each create it, losing one branch.
---
 trie.go | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/trie.go b/trie.go
index fe63f31..c0d482c 100644
--- a/trie.go
+++ b/trie.go
@@ -93,15 +93,12 @@ func newTopicTrie() *_TopicTrie {
 // _Trie trie data structure to store topic parts
 type _Trie struct {
 	sync.RWMutex
-	mutex     _Mutex
 	topicTrie *_TopicTrie
 }
 
 // newTrie new trie creates a Trie with an initialized Trie.
-// Mutex is used to lock concurent read/write on a contract, and it does not lock entire trie.
 func newTrie() *_Trie {
 	return &_Trie{
-		mutex:     newMutex(),
 		topicTrie: newTopicTrie(),
 	}
 }
@@ -115,10 +112,8 @@ func (t *_Trie) Count() int {
 
 // add adds a topic to trie.
 func (t *_Trie) add(topic _Topic, parts []message.Part, depth uint8) (added bool) {
-	// Get mutex
-	mu := t.mutex.getMutex(topic.hash)
-	mu.Lock()
-	defer mu.Unlock()
+	t.Lock()
+	defer t.Unlock()
 	if _, ok := t.topicTrie.summary[topic.hash]; ok {
 		return false
 	}
@@ -128,25 +123,19 @@ func (t *_Trie) add(topic _Topic, parts []message.Part, depth uint8) (added bool
 			hash:      p.Hash,
 			wildchars: p.Wildchars,
 		}
-		t.RLock()
 		child, ok := curr.children[newPart]
-		t.RUnlock()
 		if !ok {
 			child = &_Node{
 				part:     newPart,
 				parent:   curr,
 				children: make(map[_Part]*_Node),
 			}
-			t.Lock()
 			curr.children[newPart] = child
-			t.Unlock()
 		}
 		curr = child
 	}
-	t.Lock()
 	curr.topics.addUnique(topic)
 	t.topicTrie.summary[topic.hash] = curr
-	t.Unlock()
 	added = true
 	curr.depth = depth
 	return
-- 
2.43.0


From 9c6a9e34f779414f9b6982e2a7a362e288a4993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:51 +0000
Subject: [PATCH 09/51] fix: compute block offsets with 64 bits

The offset of a block was multiplied in 32 bits and the index file grew
by a 32 bit size, so files beyond 2GB were addressed wrongly.
---
 block.go              |  2 +-
 block_writer.go       |  4 ++--
 db.go                 |  2 +-
 file.go               |  6 +++---
 time_window.go        |  2 +-
 time_window_writer.go | 10 +++++-----
 6 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/block.go b/block.go
index 4946422..232df9b 100644
--- a/block.go
+++ b/block.go
@@ -52,7 +52,7 @@ func blockOffset(idx int32) int64 {
 	if idx == -1 {
 		return int64(0)
 	}
-	return int64(blockSize * idx)
+	return int64(blockSize) * int64(idx)
 }
 
 func (e _IndexEntry) mSize() uint32 {
diff --git a/block_writer.go b/block_writer.go
index 8dd0d99..22c7abb 100644
--- a/block_writer.go
+++ b/block_writer.go
@@ -51,7 +51,7 @@ func newBlockWriter(fs *_FileSet, lease *_Lease, buf *bpool.Buffer) (*_BlockWrit
 	if w.indexOffset > 0 {
 		w.blockIdx = int32(w.indexOffset / int64(blockSize))
 		// read final block from index file.
-		if w.indexOffset > int64(w.blockIdx*blockSize) {
+		if w.indexOffset > blockOffset(w.blockIdx) {
 			r := _BlockReader{indexFile: w.indexFile, offset: blockOffset(w.blockIdx)}
 			b, err := r.readIndexBlock()
 			if err != nil {
@@ -76,7 +76,7 @@ func (w *_BlockWriter) extend(upperSeq uint64) (int64, error) {
 	if off <= w.indexFile.currSize() {
 		return w.indexFile.currSize(), nil
 	}
-	return w.indexFile.extend(uint32(off - w.indexFile.currSize()))
+	return w.indexFile.extend(off - w.indexFile.currSize())
 }
 
 func (w *_BlockWriter) del(seq uint64) (_IndexEntry, error) {
diff --git a/db.go b/db.go
index 59bc810..4c0179f 100644
--- a/db.go
+++ b/db.go
@@ -100,7 +100,7 @@ func Open(path string, opts ...Options) (*DB, error) {
 				version:   version,
 			},
 		}
-		if _, err = infoFile.extend(fixed); err != nil {
+		if _, err = infoFile.extend(int64(fixed)); err != nil {
 			return nil, err
 		}
 		if err := infoFile.writeMarshalableAt(dbInfo, 0); err != nil {
diff --git a/file.go b/file.go
index 3dc7103..abb594a 100644
--- a/file.go
+++ b/file.go
@@ -155,12 +155,12 @@ func (f *_File) truncate(size int64) error {
 	return nil
 }
 
-func (f *_File) extend(size uint32) (int64, error) {
+func (f *_File) extend(size int64) (int64, error) {
 	off := f.size
-	if err := f.Truncate(off + int64(size)); err != nil {
+	if err := f.Truncate(off + size); err != nil {
 		return 0, err
 	}
-	f.size += int64(size)
+	f.size += size
 
 	return off, nil
 }
diff --git a/time_window.go b/time_window.go
index a7eeb4c..aee731b 100644
--- a/time_window.go
+++ b/time_window.go
@@ -101,7 +101,7 @@ func (b *_WinBlock) unmarshalBinary(data []byte) error {
 }
 
 func winBlockOffset(idx int32) int64 {
-	return int64(blockSize * idx)
+	return int64(blockSize) * int64(idx)
 }
 
 type (
diff --git a/time_window_writer.go b/time_window_writer.go
index d836dc0..51961ea 100644
--- a/time_window_writer.go
+++ b/time_window_writer.go
@@ -109,7 +109,7 @@ func (w *_WindowWriter) append(topicHash uint64, off int64, wEntries _WindowEntr
 		}
 		if b.entryIdx == entriesPerWindowBlock {
 			topicHash := b.topicHash
-			next := int64(blockSize * wIdx)
+			next := winBlockOffset(wIdx)
 			// set approximate cutoff on winBlock.
 			b.cutoffTime = time.Now().Unix()
 			w.winBlocks[wIdx] = b
@@ -126,7 +126,7 @@ func (w *_WindowWriter) append(topicHash uint64, off int64, wEntries _WindowEntr
 	}
 	w.winBlocks[wIdx] = b
 
-	return int64(blockSize * wIdx), nil
+	return winBlockOffset(wIdx), nil
 }
 
 func (w *_WindowWriter) write() error {
@@ -134,7 +134,7 @@ func (w *_WindowWriter) write() error {
 		if !b.leased || !b.dirty {
 			continue
 		}
-		off := int64(blockSize * bIdx)
+		off := winBlockOffset(bIdx)
 		if _, err := w.winFile.WriteAt(b.marshalBinary(), off); err != nil {
 			return err
 		}
@@ -162,7 +162,7 @@ func (w *_WindowWriter) write() error {
 	for _, blocks := range winBlocks {
 		if len(blocks) == 1 {
 			bIdx := blocks[0]
-			off := int64(blockSize * bIdx)
+			off := winBlockOffset(bIdx)
 			b := w.winBlocks[bIdx]
 			buf := b.marshalBinary()
 			if _, err := w.winFile.WriteAt(buf, off); err != nil {
@@ -173,7 +173,7 @@ func (w *_WindowWriter) write() error {
 			// fmt.Println("timeWindow.write: topicHash, seq ", b.topicHash, b.entries[0])
 			continue
 		}
-		blockOff := int64(blockSize * blocks[0])
+		blockOff := winBlockOffset(blocks[0])
 		for bIdx := blocks[0]; bIdx <= blocks[1]; bIdx++ {
 			b := w.winBlocks[bIdx]
 			w.buffer.Write(b.marshalBinary())
-- 
2.43.0


From f9c11cbe44539b27f0ce379c266a65703c88a0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:54 +0000
Subject: [PATCH 10/51] fix: flush and measure the files of the database

The file set is a list of sets, its own map is empty, so a sync flushed
no file and FileSize was always zero.
---
 db_sync.go |  2 +-
 file.go    | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/db_sync.go b/db_sync.go
index 8515c7f..dd2ef2a 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -166,7 +166,7 @@ func (db *DB) sync() error {
 		return err
 	}
 	if err := db.fs.sync(); err != nil {
-		return nil
+		return err
 	}
 
 	return nil
diff --git a/file.go b/file.go
index abb594a..d8abe62 100644
--- a/file.go
+++ b/file.go
@@ -230,9 +230,11 @@ func (fs *_FileSet) getFile(fd _FileDesc) (*_File, error) {
 func (fs *_FileSet) sync() error {
 	fs.mu.RLock()
 	defer fs.mu.RUnlock()
-	for _, f := range fs.fileMap {
-		if err := f.Sync(); err != nil {
-			return err
+	for _, files := range fs.list {
+		for _, f := range files.fileMap {
+			if err := f.Sync(); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
@@ -242,8 +244,10 @@ func (fs *_FileSet) size() (int64, error) {
 	fs.mu.RLock()
 	defer fs.mu.RUnlock()
 	size := int64(0)
-	for _, f := range fs.fileMap {
-		size += f.currSize()
+	for _, files := range fs.list {
+		for _, f := range files.fileMap {
+			size += f.currSize()
+		}
 	}
 	return size, nil
 }
-- 
2.43.0


From 27ed19f5692b11e7541608425dc33035c30b36b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:29 +0000
Subject: [PATCH 11/51] fix: release the lock file when a database cannot be
 opened

---
 db.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/db.go b/db.go
index 4c0179f..012ac89 100644
--- a/db.go
+++ b/db.go
@@ -65,6 +65,13 @@ func Open(path string, opts ...Options) (*DB, error) {
 		}
 		return nil, err
 	}
+	opened := false
+	defer func() {
+		// a failed open does not keep the database locked.
+		if !opened {
+			lock.unlock()
+		}
+	}()
 
 	infoFile, err := newFile(path, 1, _FileDesc{fileType: typeInfo})
 	if err != nil {
@@ -205,6 +212,7 @@ func Open(path string, opts ...Options) (*DB, error) {
 	if db.opts.flags.backgroundKeyExpiry {
 		db.startExpirer(time.Minute, maxExpDur)
 	}
+	opened = true
 
 	return db, nil
 }
-- 
2.43.0


From 1c2abc96c37b47a730465f2a6b828f975641c8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:32 +0000
Subject: [PATCH 12/51] fix: do not take a lock on a lock file that is already
 removed

An opener that opened the lock file just before its holder removed it
locked the removed file, and the next opener locked a new one as well.
---
 file_unix.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/file_unix.go b/file_unix.go
index f6c5c82..374edf8 100644
--- a/file_unix.go
+++ b/file_unix.go
@@ -47,13 +47,25 @@ func lockFile(f *os.File) error {
 }
 
 func newLockFile(name string) (_LockFile, error) {
-	f, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE, 0666)
-	if err != nil {
-		return nil, err
-	}
-	if err := lockFile(f); err != nil {
+	for {
+		f, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE, 0666)
+		if err != nil {
+			return nil, err
+		}
+		if err := lockFile(f); err != nil {
+			f.Close()
+			return nil, err
+		}
+		// the file may have been removed by an unlock before it was locked,
+		// then it guards nothing and a new file is to be locked.
+		held, err := f.Stat()
+		if err != nil {
+			f.Close()
+			return nil, err
+		}
+		if curr, err := os.Stat(name); err == nil && os.SameFile(held, curr) {
+			return &_UnixFileLock{f, name}, nil
+		}
 		f.Close()
-		return nil, err
 	}
-	return &_UnixFileLock{f, name}, nil
 }
-- 
2.43.0


From 4cf5fee0a93167702e960446eb74f67df333b909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:35 +0000
Subject: [PATCH 13/51] fix: refuse calls on a closed database instead of
 hanging

Sync and the key expirer waited forever for the lock that Close keeps,
a batch on a closed database crashed and a delete was still attempted.
Sync also returned at once, with nothing synced, while another sync ran.
---
 db.go      | 19 +++++++++++++++----
 db_sync.go |  8 ++++++--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/db.go b/db.go
index 012ac89..f545684 100644
--- a/db.go
+++ b/db.go
@@ -405,6 +405,10 @@ func (db *DB) Delete(id, topic []byte) error {
 // It is safe to modify the contents of the argument after Delete returns but
 // not before.
 func (db *DB) DeleteEntry(e *Entry) error {
+	if err := db.ok(); err != nil {
+		return err
+	}
+
 	switch {
 	case db.opts.flags.immutable:
 		return errImmutable
@@ -440,6 +444,10 @@ func (db *DB) DeleteEntry(e *Entry) error {
 //
 // Attempting to manually commit or rollback within the function will cause a panic.
 func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
+	if err := db.ok(); err != nil {
+		return err
+	}
+
 	b := db.batch()
 
 	b.setManaged()
@@ -459,13 +467,16 @@ func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
 // In case of any error during sync operation recovery is performed on log file (write ahead log).
 func (db *DB) Sync() error {
 	// start := time.Now()
-	if ok := db.internal.syncHandle.status(); ok {
-		// sync is in-progress.
-		return nil
+	if err := db.ok(); err != nil {
+		return err
 	}
 
 	// Sync happens synchronously.
-	db.internal.syncLockC <- struct{}{}
+	select {
+	case db.internal.syncLockC <- struct{}{}:
+	case <-db.internal.closeC:
+		return errClosed
+	}
 	defer func() {
 		<-db.internal.syncLockC
 	}()
diff --git a/db_sync.go b/db_sync.go
index dd2ef2a..a86731b 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -136,7 +136,7 @@ func (db *DB) startSyncer(interval time.Duration) {
 			case <-db.internal.closeC:
 				return
 			case <-syncTicker.C:
-				if err := db.Sync(); err != nil {
+				if err := db.Sync(); err != nil && !db.isClosed() {
 					logger.Error().Err(err).Str("context", "startSyncer").Msg("Error syncing to db")
 					panic(err)
 				}
@@ -305,7 +305,11 @@ func (db *_SyncHandle) Sync() error {
 // expireEntries run expirer to delete entries from db if ttl was set on entries and that has expired.
 func (db *DB) expireEntries() error {
 	// sync happens synchronously.
-	db.internal.syncLockC <- struct{}{}
+	select {
+	case db.internal.syncLockC <- struct{}{}:
+	case <-db.internal.closeC:
+		return errClosed
+	}
 	defer func() {
 		<-db.internal.syncLockC
 	}()
-- 
2.43.0


From 199d20b44477641ee29636c55d140f1a044f97c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:21 +0000
Subject: [PATCH 14/51] fix: read logs in write order and tolerate truncated
 log files

---
 memdb/query.go | 26 --------------------------
 wal/file.go    | 36 ++++++++++++++++++++++++------------
 wal/reader.go  |  8 +++++++-
 3 files changed, 31 insertions(+), 39 deletions(-)
 delete mode 100644 memdb/query.go

diff --git a/memdb/query.go b/memdb/query.go
deleted file mode 100644
index 9538895..0000000
--- a/memdb/query.go
+++ /dev/null
@@ -1,26 +0,0 @@
-/*
- * Copyright 2020 Saffat Technologies, Ltd.
- *
- * Licensed under the Apache License, Version 2.0 (the "License");
- * you may not use this file except in compliance with the License.
- * You may obtain a copy of the License at
- *
- *     http://www.apache.org/licenses/LICENSE-2.0
- *
- * Unless required by applicable law or agreed to in writing, software
- * distributed under the License is distributed on an "AS IS" BASIS,
- * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
- * See the License for the specific language governing permissions and
- * limitations under the License.
- */
-
-package memdb
-
-type _QueryManager struct {
-	timeRcord   _TimeID
-	timeFilters map[_BlockKey]*_TimeFilter
-	timeBlocks  _TimeBlocks
-
-	cutoff _TimeID
-	limit  int
-}
diff --git a/wal/file.go b/wal/file.go
index a2a8ab9..cbeecef 100644
--- a/wal/file.go
+++ b/wal/file.go
@@ -24,6 +24,7 @@ import (
 	"path"
 	"sort"
 	"strconv"
+	"strings"
 	"sync"
 
 	"github.com/unit-io/bpool"
@@ -139,11 +140,21 @@ func (fs *_FileStore) read(timeID int64, data *bpool.Buffer) _LogInfo {
 		os.Rename(log, corruptPath(fs.dirName, timeID))
 
 		// log was unreadable, return nil
-		return info
+		return _LogInfo{}
+	}
+
+	fi, err := f.Stat()
+	if err != nil || fi.Size() < int64(logHeaderSize)+int64(info.size) {
+		f.Close()
+		os.Rename(log, corruptPath(fs.dirName, timeID))
+
+		// log was truncated, return nil
+		return _LogInfo{}
 	}
 
 	if _, err := data.Extend(int64(info.size)); err != nil {
-		return info
+		f.Close()
+		return _LogInfo{}
 	}
 
 	if _, err := f.ReadAt(data.Internal(), int64(logHeaderSize)); err != nil {
@@ -173,25 +184,26 @@ func (fs *_FileStore) all() []int64 {
 		return nil
 	}
 
-	// sort.Slice(files[:], func(i, j int) bool {
-	// 	return files[i].Name() < files[j].Name()
-	// })
-
-	sort.Slice(files[:], func(i, j int) bool {
-		return files[i].ModTime().Before(files[j].ModTime())
-	})
-
 	for _, f := range files {
 		name := f.Name()
-		if name[len(name)-4:] != logExt {
+		if !strings.HasSuffix(name, logExt) {
 			// skipping file, doesn't have right extension.
 			continue
 		}
 
-		timeID, _ := strconv.ParseInt(name[:len(name)-4], 10, 64) // remove file extension
+		timeID, err := strconv.ParseInt(strings.TrimSuffix(name, logExt), 10, 64) // remove file extension
+		if err != nil {
+			// skipping file, it is not a log.
+			continue
+		}
 		timeIDs = append(timeIDs, timeID)
 	}
 
+	// logs are read in the order those were written.
+	sort.Slice(timeIDs[:], func(i, j int) bool {
+		return timeIDs[i] < timeIDs[j]
+	})
+
 	return timeIDs
 }
 
diff --git a/wal/reader.go b/wal/reader.go
index f704e0c..3b3eb87 100644
--- a/wal/reader.go
+++ b/wal/reader.go
@@ -82,8 +82,14 @@ func (r *Reader) Next() ([]byte, bool, error) {
 		return nil, false, nil
 	}
 	r.entryCount--
-	scratch, _ := r.buffer.Slice(r.offset, r.offset+4)
+	scratch, err := r.buffer.Slice(r.offset, r.offset+4)
+	if err != nil {
+		return nil, false, errors.New("error reading log")
+	}
 	dataLen := binary.LittleEndian.Uint32(scratch)
+	if dataLen < 4 || int64(dataLen) > r.buffer.Size()-r.offset {
+		return nil, false, errors.New("error reading log")
+	}
 	data, err := r.buffer.Slice(r.offset+4, r.offset+int64(dataLen))
 	if err != nil {
 		return nil, false, errors.New("error reading log")
-- 
2.43.0


From b467418f266b4ab1f581ffde514b3abb84f908f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:22 +0000
Subject: [PATCH 15/51] fix: memdb returns, deletes and recovers the most
 recent entry of a key

Get, Delete and Keys looked through a shared query cache and bloom filters
that were not safe for concurrent use and missed entries. Recovery applied
all deletes after all puts. Logs were dropped when the queue was full,
batches shared IDs, entries could be put to a released time block and
an aborted batch stayed visible.
---
 memdb/batch.go       |  26 +++--
 memdb/block.go       |  31 +----
 memdb/db.go          | 270 +++++++++++++++----------------------------
 memdb/db_internal.go | 172 +++++++++++----------------
 memdb/recovery.go    | 180 +++++++++--------------------
 memdb/time_mark.go   |   9 ++
 memdb/tiny_log.go    |  93 +++++++++------
 7 files changed, 306 insertions(+), 475 deletions(-)

diff --git a/memdb/batch.go b/memdb/batch.go
index 7290373..10a1d27 100644
--- a/memdb/batch.go
+++ b/memdb/batch.go
@@ -18,7 +18,6 @@ package memdb
 
 import (
 	"fmt"
-	"time"
 )
 
 // Batch is a write batch.
@@ -37,7 +36,11 @@ type Batch struct {
 }
 
 func (b *Batch) newTinyLog() {
-	timeID := _TimeID(time.Now().UTC().UnixNano())
+	timeID := b.db.internal.logManager.newID()
+	if int64(timeID)%int64(b.db.internal.logManager.opts.blockDuration) == 0 {
+		// time ID is used by a regular time block.
+		timeID = b.db.internal.logManager.newID()
+	}
 	b.db.addTimeBlock(timeID)
 	b.tinyLog = &_TinyLog{id: timeID, _TimeID: timeID, managed: true, doneChan: make(chan struct{})}
 }
@@ -72,7 +75,6 @@ func (b *Batch) Put(key uint64, data []byte) error {
 	if err := block.put(ikey, data); err != nil {
 		return err
 	}
-	b.db.addTimeFilter(b.tinyLog.timeID(), key)
 
 	b.db.internal.meter.Puts.Inc(1)
 
@@ -85,8 +87,13 @@ func (b *Batch) Write() error {
 	defer func() {
 		<-b.writeLockC
 	}()
+	if err := b.db.ok(); err != nil {
+		return err
+	}
 	b.batchGroup = append(b.batchGroup, b.tinyLog.timeID())
-	b.db.internal.logManager.writeWait(b.tinyLog)
+	if err := b.db.internal.logManager.writeWait(b.tinyLog); err != nil {
+		return err
+	}
 	b.newTinyLog()
 
 	return nil
@@ -116,11 +123,16 @@ func (b *Batch) Commit() error {
 	return nil
 }
 
-//Abort aborts batch or perform cleanup operation on batch complete.
+// Abort aborts batch or perform cleanup operation on batch complete.
 func (b *Batch) Abort() error {
 	_assert(!b.managed, "managed batch abort not allowed")
-	for _, ID := range b.batchGroup {
-		if err := b.db.releaseLog(ID); err != nil {
+	if b.db == nil {
+		// batch is committed or aborted.
+		return nil
+	}
+	// release the entries written and the entries not written yet.
+	for _, ID := range append(b.batchGroup, b.tinyLog.timeID()) {
+		if err := b.db.releaseLog(ID); err != nil && err != errEntryDoesNotExist {
 			return err
 		}
 	}
diff --git a/memdb/block.go b/memdb/block.go
index 59ee26b..77d9376 100644
--- a/memdb/block.go
+++ b/memdb/block.go
@@ -21,20 +21,11 @@ import (
 	"sync"
 
 	"github.com/unit-io/bpool"
-	"github.com/unit-io/unitdb/filter"
 )
 
 // To avoid lock bottlenecks block cache is divided into several (nShards) shards.
 type (
 	_TimeID     int64
-	_TimeFilter struct {
-		timeRecords map[_TimeID]*filter.Block
-		// bloom filter adds keys to the filter for all entries in a time block.
-		// filter is checked during get or delete operation
-		// to indicate key definitely not exist in the time block.
-		filter       *filter.Generator
-		sync.RWMutex // Read Write mutex, guards access to internal map.
-	}
 	_TimeBlocks map[_TimeID]*_Block
 )
 
@@ -44,8 +35,7 @@ type (
 		delFlag uint8 // deleted flag
 		key     uint64
 	}
-	_BlockKey uint16
-	_Block    struct {
+	_Block struct {
 		sync.RWMutex // Read Write mutex, guards access to internal map.
 		count        int64
 		data         *bpool.Buffer
@@ -53,6 +43,7 @@ type (
 
 		timeRefs   []_TimeID
 		lastOffset int64 // last offset of block data written to the log
+		freed      bool  // block is released and its data must not be used
 	}
 )
 
@@ -101,7 +92,7 @@ func (b *_Block) put(ikey _Key, data []byte) error {
 	if _, err := b.data.WriteAt(data, off+8+1+4); err != nil {
 		return err
 	}
-	if ikey.delFlag == 0 {
+	if _, ok := b.records[ikey]; !ok && ikey.delFlag == 0 {
 		b.count++
 	}
 	b.records[ikey] = off
@@ -109,19 +100,7 @@ func (b *_Block) put(ikey _Key, data []byte) error {
 	return nil
 }
 
-func (b *_Block) delete(key uint64) error {
-	ikey := iKey(false, key)
-	off := b.records[ikey]
-	// k with flag bit
-	var k [9]byte
-	k[0] = 1
-	binary.LittleEndian.PutUint64(k[1:], key)
-	if _, err := b.data.WriteAt(k[:], off+4); err != nil {
-		return err
-	}
-
-	delete(b.records, ikey)
+func (b *_Block) delete(key uint64) {
+	delete(b.records, iKey(false, key))
 	b.count--
-
-	return nil
 }
diff --git a/memdb/db.go b/memdb/db.go
index 3bffcce..683d0da 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -20,13 +20,10 @@ import (
 	"encoding/binary"
 	"errors"
 	"os"
-	"sort"
 	"sync"
 	"time"
 
 	"github.com/unit-io/bpool"
-	"github.com/unit-io/unitdb/filter"
-	"github.com/unit-io/unitdb/hash"
 	"github.com/unit-io/unitdb/wal"
 )
 
@@ -38,10 +35,9 @@ type DB struct {
 	opts    *_Options
 
 	// timeBlock
-	internal    *_DB
-	consistent  *hash.Consistent
-	timeBlocks  _TimeBlocks
-	timeFilters map[_BlockKey]*_TimeFilter
+	internal   *_DB
+	timeBlocks _TimeBlocks
+	timeIDs    []_TimeID // time IDs of the time blocks, most recent first
 }
 
 // Open initializes database.
@@ -80,15 +76,9 @@ func Open(opts ...Options) (*DB, error) {
 	internal.wal = wal
 
 	db := &DB{
-		opts:        options,
-		internal:    internal,
-		consistent:  hash.InitConsistent(nBlocks, nBlocks),
-		timeBlocks:  make(map[_TimeID]*_Block),
-		timeFilters: make(map[_BlockKey]*_TimeFilter),
-	}
-
-	for i := 0; i < nBlocks; i++ {
-		db.timeFilters[_BlockKey(i)] = &_TimeFilter{timeRecords: make(map[_TimeID]*filter.Block), filter: filter.NewFilterGenerator()}
+		opts:       options,
+		internal:   internal,
+		timeBlocks: make(map[_TimeID]*_Block),
 	}
 
 	if !options.logResetFlag {
@@ -97,9 +87,6 @@ func Open(opts ...Options) (*DB, error) {
 		}
 	}
 
-	// Query manager
-	db.newQueryManager()
-
 	// Log Manager
 	db.newLogManager(&_TinyLogOptions{poolCapacity: nPoolSize, writeInterval: options.logInterval, blockDuration: options.timeBlockDuration})
 
@@ -112,8 +99,11 @@ func (db *DB) Close() error {
 		return err
 	}
 
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	if db.timeBlocks != nil {
 		db.timeBlocks = nil
+		db.timeIDs = nil
 		db.version = -1
 
 	}
@@ -123,15 +113,21 @@ func (db *DB) Close() error {
 
 // Keys gets all keys from DB.
 func (db *DB) Keys() []uint64 {
-	db.mu.RLock()
-	defer db.mu.RUnlock()
-
 	var keys []uint64
 
-	for _, block := range db.timeBlocks {
+	seen := make(map[uint64]struct{})
+	for _, timeID := range db.recentTimeIDs() {
+		block, ok := db.timeBlock(timeID)
+		if !ok {
+			continue
+		}
 		block.RLock()
 		for ik := range block.records {
-			if ik.delFlag == 0 {
+			if ik.delFlag != 0 {
+				continue
+			}
+			if _, ok := seen[ik.key]; !ok {
+				seen[ik.key] = struct{}{}
 				keys = append(keys, ik.key)
 			}
 		}
@@ -181,84 +177,32 @@ func (db *DB) Get(key uint64) ([]byte, error) {
 		return nil, err
 	}
 
-	db.mu.RLock()
-	// Get time block
-	blockKey := db.blockKey(key)
-	db.mu.RUnlock()
-
-	// first execute query plan
-	if len(db.internal.queryManager.timeFilters[blockKey].timeRecords) == 0 {
-		if err := db.seek(key, 0); err != nil {
-			return nil, err
+	for _, timeID := range db.recentTimeIDs() {
+		block, ok := db.timeBlock(timeID)
+		if !ok {
+			continue
 		}
-	}
-
-	// Lookup key first for the current timeRecord.
-	block, ok := db.internal.queryManager.timeBlocks[db.internal.queryManager.timeRcord]
-	if ok {
 		block.RLock()
 		off, ok := block.records[iKey(false, key)]
-		block.RUnlock()
-		if ok {
-			block.RLock()
-			defer block.RUnlock()
-
-			db.internal.meter.Gets.Inc(1)
-
-			return block.get(off)
-		}
-	}
-
-	db.mu.RLock()
-	// Get time block
-	r, ok := db.internal.queryManager.timeFilters[blockKey]
-	db.mu.RUnlock()
-	if !ok {
-		return nil, errEntryDoesNotExist
-	}
-
-	var timeIDs []_TimeID
-	r.RLock()
-	for timeID := range r.timeRecords {
-		timeIDs = append(timeIDs, timeID)
-	}
-	r.RUnlock()
-	sort.Slice(timeIDs[:], func(i, j int) bool {
-		return timeIDs[i] > timeIDs[j]
-	})
-	for _, timeID := range timeIDs {
-		block, ok := db.internal.queryManager.timeBlocks[timeID]
-		if ok {
-			block.RLock()
-			off, ok := block.records[iKey(false, key)]
+		if !ok {
 			block.RUnlock()
-			if ok {
-				block.RLock()
-				defer block.RUnlock()
-				db.internal.meter.Gets.Inc(1)
-				db.internal.queryManager.timeRcord = timeID
-
-				return block.get(off)
-			}
-			r.RLock()
-			fltr := r.timeRecords[timeID]
-			r.RUnlock()
-			if !fltr.Test(key) {
-				break
-			}
+			continue
 		}
-	}
+		data, err := block.get(off)
+		block.RUnlock()
+		db.internal.meter.Gets.Inc(1)
 
-	// reset timeBlock and start over
-	db.internal.queryManager.timeFilters[blockKey] = &_TimeFilter{timeRecords: make(map[_TimeID]*filter.Block), filter: filter.NewFilterGenerator()}
+		return data, err
+	}
 
-	return db.Get(key)
+	return nil, errEntryDoesNotExist
 }
 
 // BlockIterator iterates all time blocks from DB committed to the WAL.
 func (db *DB) BlockIterator(f func(timeID int64, keys []uint64) (bool, error)) (err error) {
 	// Get timeBlocks successfully committed to WAL.
 	timeIDs := db.internal.timeMark.timeRefs(db.timeID())
+	live := false
 	for _, timeID := range timeIDs {
 		db.mu.RLock()
 		block, ok := db.timeBlocks[timeID]
@@ -275,8 +219,15 @@ func (db *DB) BlockIterator(f func(timeID int64, keys []uint64) (bool, error)) (
 		}
 		block.RUnlock()
 		if len(keys) == 0 {
+			if !live {
+				// no older time block needs the deleted keys of this block.
+				if err := db.releaseLog(timeID); err != nil && err != errEntryDoesNotExist {
+					return err
+				}
+			}
 			continue
 		}
+		live = true
 		if stop, err := f(int64(timeID), keys); stop || err != nil {
 			return err
 		}
@@ -293,74 +244,39 @@ func (db *DB) Delete(key uint64) error {
 		return err
 	}
 
-	db.mu.RLock()
-	// Get time block
-	blockKey := db.blockKey(key)
-	r, ok := db.timeFilters[blockKey]
-	db.mu.RUnlock()
-	if !ok {
-		return errEntryDoesNotExist
-	}
-
-	var timeIDs []_TimeID
-	r.RLock()
-	for timeID := range r.timeRecords {
-		timeIDs = append(timeIDs, timeID)
-	}
-	r.RUnlock()
-	sort.Slice(timeIDs[:], func(i, j int) bool {
-		return timeIDs[i] > timeIDs[j]
-	})
-	ikey := iKey(false, key)
-	for _, timeID := range timeIDs {
-		db.mu.RLock()
-		block, ok := db.timeBlocks[timeID]
-		db.mu.RUnlock()
-		if ok {
-			block.RLock()
-			_, ok := block.records[ikey]
-			block.RUnlock()
-			if !ok {
-				r.RLock()
-				fltr := r.timeRecords[timeID]
-				r.RUnlock()
-				if !fltr.Test(key) {
-					return errEntryDoesNotExist
-				}
-				continue
-			}
-
-			timeLock := db.timeLock()
-			timeLock.RLock()
-			defer timeLock.RUnlock()
-
-			block.Lock()
-			block.delete(key)
-			db.internal.meter.Dels.Inc(1)
-			if block.count == 0 {
-				// all entries are deleted from the block,
-				// now check if timeIDs for deleted entries are released.
-				for ikey, timeID := range block.records {
-					db.mu.RLock()
-					if _, ok := db.timeBlocks[_TimeID(timeID)]; ok {
-						db.move(_TimeID(timeID), ikey.key)
-					}
-					db.mu.RUnlock()
-					delete(block.records, ikey)
-				}
-				// released timeblock from the WAL if all records are deleted.
-				if len(block.records) == 0 && timeID < db.timeID() {
-					block.Unlock()
-					return db.releaseLog(timeID)
-				}
-			}
+	found := false
+	for _, timeID := range db.recentTimeIDs() {
+		block, ok := db.timeBlock(timeID)
+		if !ok {
+			continue
+		}
+		past := timeID < db.timeID()
+		block.Lock()
+		if _, ok := block.records[iKey(false, key)]; !ok {
 			block.Unlock()
-
-			return db.move(timeID, key)
+			continue
 		}
+		found = true
+		block.delete(key)
+		empty := len(block.records) == 0
+		block.Unlock()
+		// add deleted key to new time block to persist deleted entry to the WAL.
+		if err := db.move(timeID, key); err != nil {
+			return err
+		}
+		// release timeblock from the WAL if all records are deleted.
+		if empty && past && db.internal.timeMark.released(timeID) {
+			if err := db.releaseLog(timeID); err != nil && err != errEntryDoesNotExist {
+				return err
+			}
+		}
+	}
+	if !found {
+		return errEntryDoesNotExist
 	}
+	db.internal.meter.Dels.Inc(1)
 
-	return errEntryDoesNotExist
+	return nil
 }
 
 // Put inserts a new key-value pair to the DB.
@@ -369,21 +285,26 @@ func (db *DB) Put(key uint64, data []byte) (int64, error) {
 		return 0, err
 	}
 
-	timeID := db.timeID()
-	db.mu.RLock()
-	block, ok := db.timeBlocks[timeID]
-	db.mu.RUnlock()
-	if !ok {
-		return 0, errForbidden
-	}
-
-	block.Lock()
-	defer block.Unlock()
-	ikey := iKey(false, key)
-	if err := block.put(ikey, data); err != nil {
+	timeID, err := db.put(iKey(false, key), data)
+	if err != nil {
 		return int64(timeID), err
 	}
-	db.addTimeFilter(timeID, key)
+	// entries of the key committed earlier but under a more recent time ID are replaced.
+	for _, ID := range db.recentTimeIDs() {
+		if ID <= timeID {
+			break
+		}
+		if !db.internal.timeMark.released(ID) {
+			continue
+		}
+		if block, ok := db.timeBlock(ID); ok {
+			block.Lock()
+			if _, ok := block.records[iKey(false, key)]; ok {
+				block.delete(key)
+			}
+			block.Unlock()
+		}
+	}
 
 	db.internal.meter.Puts.Inc(1)
 
@@ -407,12 +328,13 @@ func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
 
 	b.setManaged()
 	// If an error is returned from the function then rollback and return error.
-	if err := fn(b, b.commitComplete); err != nil {
+	err := fn(b, b.commitComplete)
+	b.unsetManaged()
+	if err != nil {
 		b.Abort()
 		close(b.commitComplete)
 		return err
 	}
-	b.unsetManaged()
 
 	return b.Commit()
 }
@@ -424,15 +346,5 @@ func (db *DB) Free(timeID int64) error {
 
 // Size returns the total number of entries in DB.
 func (db *DB) Size() int64 {
-	size := int64(0)
-	db.mu.RLock()
-	defer db.mu.RUnlock()
-
-	for _, block := range db.timeBlocks {
-		block.RLock()
-		size += block.count
-		block.RUnlock()
-	}
-
-	return size
+	return int64(len(db.Keys()))
 }
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index c86d10f..d849091 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -25,7 +25,6 @@ import (
 	"time"
 
 	"github.com/unit-io/bpool"
-	"github.com/unit-io/unitdb/filter"
 	"github.com/unit-io/unitdb/wal"
 )
 
@@ -36,8 +35,6 @@ const (
 
 	nPoolSize = 27
 
-	nBlocks = 27
-
 	// nLocks sets maximum concurent timeLocks.
 	nLocks = 100000
 
@@ -73,9 +70,6 @@ type _DB struct {
 	// Write ahead log
 	wal *wal.WAL
 
-	// query
-	queryManager *_QueryManager
-
 	// close
 	closed uint32
 	closer io.Closer
@@ -120,11 +114,6 @@ func (db *DB) timeID() _TimeID {
 	return db.internal.logManager.timeID()
 }
 
-// blockKey gets blockKey for the Key using consistent hashing.
-func (db *DB) blockKey(key uint64) _BlockKey {
-	return _BlockKey(db.consistent.FindBlock(key))
-}
-
 func (db *DB) cap() float64 {
 	return db.internal.buffer.Capacity()
 }
@@ -132,8 +121,19 @@ func (db *DB) cap() float64 {
 func (db *DB) addTimeBlock(timeID _TimeID) (ok bool) {
 	db.mu.Lock()
 	defer db.mu.Unlock()
+	if db.timeBlocks == nil {
+		// db is closed.
+		return false
+	}
 	if _, ok := db.timeBlocks[timeID]; !ok {
 		db.timeBlocks[timeID] = &_Block{data: db.internal.buffer.Get(), records: make(map[_Key]int64)}
+		// time IDs in use by the readers are not modified.
+		timeIDs := append(make([]_TimeID, 0, len(db.timeIDs)+1), db.timeIDs...)
+		timeIDs = append(timeIDs, timeID)
+		sort.Slice(timeIDs[:], func(i, j int) bool {
+			return timeIDs[i] > timeIDs[j]
+		})
+		db.timeIDs = timeIDs
 		return true
 	}
 
@@ -150,109 +150,55 @@ func (db *DB) timeBlock(timeID _TimeID) (*_Block, bool) {
 	return nil, false
 }
 
-// addTimeFilter adds unique time block to the set.
-func (db *DB) addTimeFilter(timeID _TimeID, key uint64) error {
-	blockKey := db.blockKey(key)
+// recentTimeIDs returns IDs of all time blocks, the most recent time ID first.
+func (db *DB) recentTimeIDs() []_TimeID {
 	db.mu.RLock()
-	r, ok := db.timeFilters[blockKey]
-	db.mu.RUnlock()
-	r.Lock()
-	defer r.Unlock()
-	if ok {
-		if _, ok := r.timeRecords[timeID]; !ok {
-			db.mu.Lock()
-			r.timeRecords[timeID] = filter.NewFilterBlock(r.filter.Bytes())
-			db.mu.Unlock()
-		}
-
-		// Append key to bloom filter
-		r.filter.Append(key)
-	}
-
-	return nil
-}
-
-func (db *DB) newQueryManager() {
-	queryManager := &_QueryManager{timeBlocks: make(map[_TimeID]*_Block), timeFilters: make(map[_BlockKey]*_TimeFilter)}
-	for i := 0; i < nBlocks; i++ {
-		queryManager.timeFilters[_BlockKey(i)] = &_TimeFilter{timeRecords: make(map[_TimeID]*filter.Block), filter: filter.NewFilterGenerator()}
-	}
+	defer db.mu.RUnlock()
 
-	db.internal.queryManager = queryManager
+	return db.timeIDs
 }
 
-// seek finds timeRecords and timeBlock for the provided key and cutoff duration and caches those for query.
-func (db *DB) seek(key uint64, cutoff int64) error {
-	if err := db.ok(); err != nil {
-		return err
-	}
-
-	db.mu.RLock()
-	// Get time block
-	blockKey := db.blockKey(key)
-	r, ok := db.timeFilters[blockKey]
-	db.mu.RUnlock()
-	if !ok {
-		return errEntryDoesNotExist
-	}
-
-	var timeIDs []_TimeID
-	r.RLock()
-	for timeID := range r.timeRecords {
-		timeIDs = append(timeIDs, timeID)
-	}
-	r.RUnlock()
-	sort.Slice(timeIDs[:], func(i, j int) bool {
-		return timeIDs[i] > timeIDs[j]
-	})
-	for _, timeID := range timeIDs {
-		db.mu.RLock()
-		block, ok := db.timeBlocks[timeID]
-		db.mu.RUnlock()
-		if ok {
-			block.RLock()
-			_, ok := block.records[iKey(false, key)]
-			block.RUnlock()
-			if ok {
-				b, ok := db.internal.queryManager.timeFilters[blockKey]
-				if ok {
-					b.timeRecords[timeID] = filter.NewFilterBlock(r.filter.Bytes())
-				}
-				db.internal.queryManager.timeBlocks[timeID] = block
-				if cutoff != 0 {
-					db.internal.queryManager.cutoff = _TimeID(cutoff)
-				}
-				return nil
+// put adds the entry to the current time block.
+func (db *DB) put(ikey _Key, data []byte) (_TimeID, error) {
+	for {
+		timeID := db.timeID()
+		block, ok := db.timeBlock(timeID)
+		if !ok {
+			if err := db.ok(); err != nil {
+				return timeID, err
 			}
-			r.RLock()
-			fltr := r.timeRecords[timeID]
-			r.RUnlock()
-			if !fltr.Test(key) {
-				return errEntryDoesNotExist
+			// the current time block is released, start it over.
+			if timeID == db.timeID() {
+				db.addTimeBlock(timeID)
 			}
+			continue
 		}
-	}
+		block.Lock()
+		if db.isClosed() {
+			block.Unlock()
+			return timeID, errClosed
+		}
+		if block.freed || timeID != db.timeID() {
+			// the time block is not the current time block anymore.
+			block.Unlock()
+			continue
+		}
+		err := block.put(ikey, data)
+		block.Unlock()
 
-	return errEntryDoesNotExist
+		return timeID, err
+	}
 }
 
 // move moves the entry to the new block
 func (db *DB) move(timeID _TimeID, key uint64) error {
-	newTimeID := db.timeID()
-	// add deleted key to new time block to persist deleted entry to the WAL.
-	dkey := iKey(true, key)
-	newBlock, ok := db.timeBlock(newTimeID)
-	if !ok {
-		return errForbidden
-	}
-	newBlock.Lock()
-	defer newBlock.Unlock()
-
 	rawTimeID := make([]byte, 8)
 	binary.LittleEndian.PutUint64(rawTimeID[:8], uint64(timeID))
 
-	newBlock.records[dkey] = int64(newTimeID)
-	return newBlock.put(dkey, rawTimeID)
+	// add deleted key to new time block to persist deleted entry to the WAL.
+	_, err := db.put(iKey(true, key), rawTimeID)
+
+	return err
 }
 
 // tinyWrite writes tiny log to the WAL.
@@ -266,6 +212,10 @@ func (db *DB) tinyWrite(tinyLog *_TinyLog) error {
 		return nil
 	}
 	block.RLock()
+	if block.freed {
+		block.RUnlock()
+		return nil
+	}
 	blockSize := block.data.Size()
 	log, err := block.data.Slice(block.lastOffset, blockSize)
 	block.RUnlock()
@@ -290,6 +240,10 @@ func (db *DB) tinyWrite(tinyLog *_TinyLog) error {
 
 	block.Lock()
 	defer block.Unlock()
+	if block.freed {
+		// time block is released while the log was written.
+		return db.internal.wal.SignalLogApplied(int64(tinyLog.ID()))
+	}
 	block.lastOffset = blockSize
 	block.timeRefs = append(block.timeRefs, tinyLog.ID())
 
@@ -301,6 +255,7 @@ func (db *DB) tinyCommit(tinyLog *_TinyLog) error {
 	defer tinyLog.abort()
 
 	if err := db.tinyWrite(tinyLog); err != nil {
+		tinyLog.err = err
 		return err
 	}
 
@@ -319,8 +274,11 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 		return errEntryDoesNotExist
 	}
 
-	block.RLock()
-	defer block.RUnlock()
+	block.Lock()
+	defer block.Unlock()
+	if block.freed {
+		return errEntryDoesNotExist
+	}
 	for _, timeRef := range block.timeRefs {
 		if err := db.internal.wal.SignalLogApplied(int64(timeRef)); err != nil {
 			return err
@@ -328,10 +286,20 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 	}
 
 	db.mu.Lock()
-	defer db.mu.Unlock()
 	delete(db.timeBlocks, _TimeID(timeID))
+	timeIDs := make([]_TimeID, 0, len(db.timeIDs))
+	for _, ID := range db.timeIDs {
+		if ID != timeID {
+			timeIDs = append(timeIDs, ID)
+		}
+	}
+	db.timeIDs = timeIDs
+	db.mu.Unlock()
 	db.internal.timeMark.timeUnref(timeID)
 
+	block.freed = true
+	block.count = 0
+	block.records = nil
 	db.internal.buffer.Put(block.data)
 
 	return nil
diff --git a/memdb/recovery.go b/memdb/recovery.go
index f5fbbe8..60af5d6 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -18,166 +18,86 @@ package memdb
 
 import (
 	"encoding/binary"
-	"sort"
 	"time"
-
-	"github.com/unit-io/unitdb/filter"
 )
 
-// delete deletes entry from the DB.
-//
-// This method is not thread safe.
-func (db *DB) delete(key uint64) error {
-	// Get time block
-	blockKey := db.blockKey(key)
-	r, ok := db.timeFilters[blockKey]
-	if !ok {
-		return errEntryDoesNotExist
-	}
-
-	var timeIDs []_TimeID
-	r.RLock()
-	for timeID := range r.timeRecords {
-		timeIDs = append(timeIDs, timeID)
-	}
-	r.RUnlock()
-	sort.Slice(timeIDs[:], func(i, j int) bool {
-		return timeIDs[i] > timeIDs[j]
-	})
-	for _, timeID := range timeIDs {
-		block, ok := db.timeBlocks[timeID]
-		if ok {
-			block.RLock()
-			_, ok := block.records[iKey(false, key)]
-			block.RUnlock()
-			if !ok {
-				r.RLock()
-				fltr := r.timeRecords[timeID]
-				r.RUnlock()
-				if !fltr.Test(key) {
-					return errEntryDoesNotExist
-				}
-				continue
-			}
-			block.Lock()
-			ikey := iKey(false, key)
-			delete(block.records, ikey)
-			block.count--
-			db.internal.meter.Dels.Inc(1)
-			if len(block.records) == 0 {
-				delete(db.timeBlocks, _TimeID(timeID))
-				db.internal.buffer.Put(block.data)
-			}
-			block.Unlock()
-
-			return nil
-		}
-	}
-
-	return errEntryDoesNotExist
-}
-
 // startRecovery recovers pending entries from the WAL.
 func (db *DB) startRecovery() error {
-	db.mu.RLock()
-	defer db.mu.RUnlock()
-
 	// start log recovery
 	r, err := db.internal.wal.NewReader()
 	if err != nil {
 		return err
 	}
 
-	delKeys := make(map[_TimeID][]uint64)
+	// logs are recovered in the order those were written,
+	// so the last record of a key tells if the key exists.
+	timeIDs := make(map[uint64]_TimeID)
+	remove := func(key uint64) {
+		if block, ok := db.timeBlocks[timeIDs[key]]; ok {
+			if _, ok := block.records[iKey(false, key)]; ok {
+				block.delete(key)
+			}
+		}
+		delete(timeIDs, key)
+	}
 	err = r.Iterator(func(ID int64) (ok bool, err error) {
-		log := make(map[uint64][]byte)
 		l := r.Count()
 		timeID := _TimeID(time.Unix(0, ID).UTC().Truncate(db.opts.logInterval).UnixNano())
 		for i := uint32(0); i < l; i++ {
 			logData, ok, err := r.Next()
 			if err != nil {
-				return false, err
+				// the log is damaged, recover entries from next log.
+				return false, nil
 			}
 			if !ok {
 				break
 			}
 
-			var off int
-			for off < len(logData) {
-				dataLen := int(binary.LittleEndian.Uint32(logData[off : off+4]))
-				data := logData[off+4 : off+dataLen]
+			db.internal.timeMark.add(timeID)
+			db.addTimeBlock(timeID)
+			block := db.timeBlocks[timeID]
+			block.timeRefs = append(block.timeRefs, _TimeID(ID))
+			recovered := int64(0)
+			for len(logData) >= 8+1+4 {
+				dataLen := int64(binary.LittleEndian.Uint32(logData[:4]))
+				if dataLen < 8+1+4 || dataLen > int64(len(logData)) {
+					// rest of the log is damaged.
+					break
+				}
+				data := logData[4:dataLen]
 				dBit := data[0]
 				key := binary.LittleEndian.Uint64(data[1:9])
-				val := data[9:]
-				off += dataLen
-				if dBit == 1 {
-					timeRefID := _TimeID(binary.LittleEndian.Uint64(val[:8]))
-					if _, ok := delKeys[timeRefID]; ok {
-						delKeys[timeRefID] = append(delKeys[timeRefID], key)
-					} else {
-						delKeys[timeRefID] = []uint64{key}
-					}
-				} else {
-					log[key] = val
-				}
-			}
-			db.internal.timeMark.add(timeID)
-			block, ok := db.timeBlocks[timeID]
-			if !ok {
-				block = &_Block{data: db.internal.buffer.Get(), records: make(map[_Key]int64)}
-				db.timeBlocks[timeID] = block
-			}
-			block.Lock()
-			for key, val := range log {
-				ikey := iKey(false, key)
-				if err := block.put(ikey, val); err != nil {
+				logData = logData[dataLen:]
+				remove(key)
+				if err := block.put(iKey(dBit == 1, key), data[9:]); err != nil {
 					return false, err
 				}
-				blockKey := db.blockKey(key)
-				r, ok := db.timeFilters[blockKey]
-				if ok {
-					if _, ok := r.timeRecords[timeID]; !ok {
-						r.timeRecords[timeID] = filter.NewFilterBlock(r.filter.Bytes())
-					}
-
-					// Append key to bloom filter
-					r.filter.Append(key)
+				if dBit == 1 {
+					db.internal.meter.Dels.Inc(1)
+					continue
 				}
+				timeIDs[key] = timeID
 				db.internal.meter.Puts.Inc(1)
+				recovered++
 			}
-			block.timeRefs = append(block.timeRefs, _TimeID(ID))
-			block.Unlock()
+			block.lastOffset = block.data.Size()
 			db.internal.timeMark.release(timeID)
-			db.internal.meter.Recovers.Inc(int64(len(log)))
+			db.internal.meter.Recovers.Inc(recovered)
 		}
 		return false, nil
 	})
+	if err != nil {
+		return err
+	}
 
-	for timeID, keys := range delKeys {
-		if block, exists := db.timeBlocks[timeID]; exists {
-			for _, key := range keys {
-				ikey := iKey(false, key)
-				block.RLock()
-				_, ok := block.records[ikey]
-				block.RUnlock()
-				if !ok {
-					// errEntryDoesNotExist
-					continue
-				}
-				block.Lock()
-				delete(block.records, ikey)
-				block.count--
-				db.internal.meter.Dels.Inc(1)
-				if len(block.records) == 0 {
-					delete(db.timeBlocks, _TimeID(timeID))
-					db.internal.buffer.Put(block.data)
-				}
-				block.Unlock()
-			}
-		} else {
-			for _, key := range keys {
-				db.delete(key)
-			}
+	// release logs of the keys which are all deleted.
+	recent := db.recentTimeIDs()
+	for i := len(recent) - 1; i >= 0; i-- {
+		if db.timeBlocks[recent[i]].count > 0 {
+			break
+		}
+		if err := db.releaseLog(recent[i]); err != nil {
+			return err
 		}
 	}
 
@@ -188,6 +108,7 @@ func (db *DB) startRecovery() error {
 func (db *DB) All(f func(timeID int64, keys []uint64) (bool, error)) (err error) {
 	// Get timeIDs of timeBlock successfully committed to WAL.
 	timeIDs := db.internal.timeMark.allRefs()
+	live := false
 	for _, timeID := range timeIDs {
 		db.mu.RLock()
 		block, ok := db.timeBlocks[timeID]
@@ -204,8 +125,15 @@ func (db *DB) All(f func(timeID int64, keys []uint64) (bool, error)) (err error)
 		}
 		block.RUnlock()
 		if len(keys) == 0 {
+			if !live {
+				// no older time block needs the deleted keys of this block.
+				if err := db.releaseLog(timeID); err != nil && err != errEntryDoesNotExist {
+					return err
+				}
+			}
 			continue
 		}
+		live = true
 		if stop, err := f(int64(timeID), keys); stop || err != nil {
 			return err
 		}
diff --git a/memdb/time_mark.go b/memdb/time_mark.go
index d13797b..79b6601 100644
--- a/memdb/time_mark.go
+++ b/memdb/time_mark.go
@@ -65,6 +65,15 @@ func (tm *_TimeMark) release(timeID _TimeID) {
 	}
 }
 
+// released checks whether the log of the time ID is committed to the WAL.
+func (tm *_TimeMark) released(timeID _TimeID) bool {
+	tm.RLock()
+	defer tm.RUnlock()
+	_, ok := tm.releasedRecords[timeID]
+
+	return ok
+}
+
 func (tm *_TimeMark) timeRefs(timeRef _TimeID) (timeIDs []_TimeID) {
 	tm.RLock()
 	defer tm.RUnlock()
diff --git a/memdb/tiny_log.go b/memdb/tiny_log.go
index a7c2fd1..1964e11 100644
--- a/memdb/tiny_log.go
+++ b/memdb/tiny_log.go
@@ -19,6 +19,7 @@ package memdb
 import (
 	"fmt"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -37,6 +38,7 @@ type _TinyLog struct {
 	_TimeID
 
 	managed  bool
+	err      error
 	doneChan chan struct{}
 }
 
@@ -46,6 +48,12 @@ func (l *_TinyLog) ID() _TimeID {
 	return l.id
 }
 
+func (l *_TinyLog) setID(ID _TimeID) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+	l.id = ID
+}
+
 func (l *_TinyLog) timeID() _TimeID {
 	l.mu.RLock()
 	defer l.mu.RUnlock()
@@ -61,11 +69,6 @@ type (
 		// writeInterval default value is 100ms, setting writeInterval to zero disables writing the log to the WAL.
 		writeInterval time.Duration
 
-		// timeout controls how often log pool kill idle jobs.
-		//
-		// Default value is 2 seconds
-		timeout time.Duration
-
 		// blockDuration is used to create new timeID.
 		//
 		// Default value is defaultBlockDuration.
@@ -87,6 +90,9 @@ type (
 		db         *DB
 		opts       *_TinyLogOptions
 		tinyLog    *_TinyLog
+		lastID     int64 // last unique ID used for a log
+		currentID  int64 // time ID of the current tiny log
+		stopped    bool
 		writeQueue chan *_TinyLog
 		logQueue   chan *_TinyLog
 		stop       chan struct{}
@@ -106,9 +112,6 @@ func (src *_TinyLogOptions) withDefaultOptions() *_TinyLogOptions {
 	if opts.writeInterval == 0 {
 		opts.writeInterval = defaultWriteInterval
 	}
-	if opts.timeout == 0 {
-		opts.timeout = defaultTimeout
-	}
 	if opts.blockDuration == 0 {
 		opts.blockDuration = defaultBlockDuration
 	}
@@ -119,12 +122,27 @@ func (src *_TinyLogOptions) withDefaultOptions() *_TinyLogOptions {
 	return &opts
 }
 
+// newID returns unique ID for the log. IDs are increasing even if the clock is not.
+func (p *_TinyLogManager) newID() _TimeID {
+	ID := _TimeID(time.Now().UTC().UnixNano())
+	for {
+		lastID := atomic.LoadInt64(&p.lastID)
+		if int64(ID) <= lastID {
+			ID = _TimeID(lastID + 1)
+		}
+		if atomic.CompareAndSwapInt64(&p.lastID, lastID, int64(ID)) {
+			return ID
+		}
+	}
+}
+
 func (p *_TinyLogManager) newTinyLog() {
-	timeNow := time.Now().UTC()
-	timeID := _TimeID(timeNow.Truncate(p.opts.blockDuration).UnixNano())
+	ID := p.newID()
+	timeID := _TimeID(time.Unix(0, int64(ID)).UTC().Truncate(p.opts.blockDuration).UnixNano())
 	p.db.addTimeBlock(timeID)
 	p.db.internal.timeMark.add(timeID)
-	p.tinyLog = &_TinyLog{id: _TimeID(timeNow.UnixNano()), _TimeID: timeID, managed: false, doneChan: make(chan struct{})}
+	atomic.StoreInt64(&p.currentID, int64(timeID))
+	p.tinyLog = &_TinyLog{id: ID, _TimeID: timeID, managed: false, doneChan: make(chan struct{})}
 }
 
 func (db *DB) newLogManager(opts *_TinyLogOptions) {
@@ -138,6 +156,7 @@ func (db *DB) newLogManager(opts *_TinyLogOptions) {
 		stop:       make(chan struct{}),
 	}
 
+	db.internal.logManager = logManager
 	logManager.newTinyLog()
 
 	// start the write loop
@@ -150,17 +169,13 @@ func (db *DB) newLogManager(opts *_TinyLogOptions) {
 	// start the dispacther
 	for i := 0; i < opts.logCount; i++ {
 		logManager.stopWg.Add(1)
-		go logManager.dispatch(opts.timeout)
+		go logManager.dispatch()
 	}
-
-	db.internal.logManager = logManager
 }
 
 // timeID returns tinyLog timeID.
 func (p *_TinyLogManager) timeID() _TimeID {
-	p.mu.RLock()
-	defer p.mu.RUnlock()
-	return p.tinyLog.timeID()
+	return _TimeID(atomic.LoadInt64(&p.currentID))
 }
 
 // size returns maximum number of concurrent jobs.
@@ -190,12 +205,26 @@ func (p *_TinyLogManager) write() {
 }
 
 // writeWait enqueues the log and waits for it to be executed.
-func (p *_TinyLogManager) writeWait(tinyLog *_TinyLog) {
+// writeWait writes the log and waits until it is written to the WAL. Entries put
+// before are written ahead of the log, entries put afterwards are written after the log.
+func (p *_TinyLogManager) writeWait(tinyLog *_TinyLog) error {
 	if tinyLog == nil {
-		return
+		return nil
+	}
+	p.mu.Lock()
+	if p.stopped {
+		p.mu.Unlock()
+		return errClosed
 	}
+	current := p.tinyLog
+	tinyLog.setID(p.newID())
+	p.newTinyLog()
+	p.writeQueue <- current
 	p.writeQueue <- tinyLog
+	p.mu.Unlock()
 	<-tinyLog.doneChan
+
+	return tinyLog.err
 }
 
 // writeLoop enqueue the tiny log to the log pool.
@@ -211,8 +240,11 @@ func (p *_TinyLogManager) writeLoop(interval time.Duration) {
 	for {
 		select {
 		case <-p.stop:
+			p.mu.Lock()
 			p.write()
+			p.stopped = true
 			close(p.writeQueue)
+			p.mu.Unlock()
 
 			return
 		case <-writeC:
@@ -233,8 +265,11 @@ func (p *_TinyLogManager) writeLoop(interval time.Duration) {
 				fallthrough
 			default:
 				p.mu.Lock()
-				p.write()
+				// time ID is changed before the log is written so that
+				// no entry is put to the time block after its last log.
+				tinyLog := p.tinyLog
 				p.newTinyLog()
+				p.writeQueue <- tinyLog
 				p.mu.Unlock()
 			}
 		}
@@ -242,8 +277,7 @@ func (p *_TinyLogManager) writeLoop(interval time.Duration) {
 }
 
 // dispatch handles tiny log commit for the jobs in queue.
-func (p *_TinyLogManager) dispatch(timeout time.Duration) {
-LOOP:
+func (p *_TinyLogManager) dispatch() {
 	for {
 		select {
 		case tinyLog, ok := <-p.writeQueue:
@@ -254,20 +288,10 @@ LOOP:
 				return
 			}
 
-			// return tinyLog to the pool
-			select {
-			case p.logQueue <- tinyLog:
-			default:
-				// pool is full, let GC handle the buffer
-				goto WAIT
-			}
+			// tinyLog is never dropped, wait if pool is full.
+			p.logQueue <- tinyLog
 		}
 	}
-
-WAIT:
-	// Wait for a while
-	time.Sleep(timeout)
-	goto LOOP
 }
 
 // commitLoop commits the tiny log to the WAL.
@@ -287,7 +311,6 @@ func (p *_TinyLogManager) commitLoop() {
 					if err := p.db.tinyCommit(tinyLog); err != nil {
 						fmt.Println("logPool.tinyCommit: error ", err)
 					}
-				default:
 				}
 			}
 		case tinyLog := <-p.logQueue:
-- 
2.43.0


From bd59fb9ce2e4402fae9bae7a9d13e79a8b8dd28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:21 +0000
Subject: [PATCH 16/51] fix: do not hand out freed blocks twice after defrag or
 after a crash

---
 leasing.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/leasing.go b/leasing.go
index 6a429d8..54a2361 100644
--- a/leasing.go
+++ b/leasing.go
@@ -21,6 +21,7 @@ import (
 	"io"
 	"sort"
 	"sync"
+	"sync/atomic"
 
 	"github.com/unit-io/unitdb/hash"
 )
@@ -147,7 +148,7 @@ func (b *_FreeBlocks) defrag() {
 	sort.Slice(merged, func(i, j int) bool {
 		return merged[i].size < merged[j].size
 	})
-	copy(b.fb[:l], merged)
+	b.fb = merged
 }
 
 func (l *_Lease) defrag() {
@@ -167,7 +168,7 @@ func (l *_Lease) freeBlock(off int64, size uint32) {
 	}
 	fbs.fb = append(fbs.fb, _FreeBlock{offset: off, size: size})
 	fbs.cache[off] = true
-	l.size += int64(size)
+	atomic.AddInt64(&l.size, int64(size))
 }
 
 func (l *_Lease) free(seq uint64, off int64, size uint32) {
@@ -181,7 +182,7 @@ func (l *_Lease) allocate(size uint32) int64 {
 	if size == 0 {
 		panic("unable to allocate zero bytes")
 	}
-	if l.size < l.minimumFreeBlocksSize {
+	if atomic.LoadInt64(&l.size) < l.minimumFreeBlocksSize {
 		return -1
 	}
 	fbs := l.freeBlocks(uint64(size))
@@ -201,7 +202,7 @@ func (l *_Lease) allocate(size uint32) int64 {
 		fbs.fb[i].offset += int64(size)
 	}
 	delete(fbs.cache, off)
-	l.size -= int64(size)
+	atomic.AddInt64(&l.size, -int64(size))
 	return off
 }
 
@@ -227,7 +228,8 @@ func (l *_Lease) read() error {
 		l.freeBlock(b.offset, b.size)
 	}
 
-	return nil
+	// free blocks are allocated from now on, those must not be read again if DB is not closed.
+	return l.file.Truncate(0)
 }
 
 func (l *_Lease) write() error {
-- 
2.43.0


From 4eeea8dd17850873fe39436f6504ef110b29def1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:21 +0000
Subject: [PATCH 17/51] fix: expire entries of all expiry windows

---
 expiry_window.go | 57 +++++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/expiry_window.go b/expiry_window.go
index f67b746..2744f5c 100644
--- a/expiry_window.go
+++ b/expiry_window.go
@@ -93,35 +93,42 @@ func (wb *_ExpiryWindowBucket) getExpiredEntries(maxResults int) []timeWindowEnt
 		return expiredEntries
 	}
 
-	for i := 0; i < wb.maxExpDurations; i++ {
-		// get windows shard.
-		ws := wb.expiryWindows.expiry[i]
-		ws.mu.Lock()
-		defer ws.mu.Unlock()
-		windowTimes := make([]int64, 0, len(ws.windows))
-		for windowTime := range ws.windows {
-			windowTimes = append(windowTimes, windowTime)
+	for _, ws := range wb.expiryWindows.expiry {
+		if len(expiredEntries) > maxResults {
+			break
 		}
-		sort.Slice(windowTimes[:], func(i, j int) bool { return windowTimes[i] < windowTimes[j] })
-		for i := 0; i < len(windowTimes); i++ {
-			if windowTimes[i] > int64(startTime) || len(expiredEntries) > maxResults {
-				break
-			}
-			windowEntries := ws.windows[windowTimes[i]]
-			expiredEntriesCount := 0
-			for i := range windowEntries {
-				entry := windowEntries[i]
-				if entry.expiryTime() < startTime {
-					expiredEntries = append(expiredEntries, entry)
-					expiredEntriesCount++
-				}
-			}
-			if expiredEntriesCount == len(windowEntries) {
-				delete(ws.windows, windowTimes[i])
+		expiredEntries = ws.appendExpired(expiredEntries, startTime, maxResults)
+	}
+	atomic.StoreInt64(&wb.earliestExpiryHash, 0)
+	return expiredEntries
+}
+
+// appendExpired appends entries expired, and removes windows if all entries of the window are expired.
+func (ws *_ExpiryWindow) appendExpired(expiredEntries []timeWindowEntry, startTime uint32, maxResults int) []timeWindowEntry {
+	ws.mu.Lock()
+	defer ws.mu.Unlock()
+	windowTimes := make([]int64, 0, len(ws.windows))
+	for windowTime := range ws.windows {
+		windowTimes = append(windowTimes, windowTime)
+	}
+	sort.Slice(windowTimes[:], func(i, j int) bool { return windowTimes[i] < windowTimes[j] })
+	for i := 0; i < len(windowTimes); i++ {
+		if windowTimes[i] > int64(startTime) || len(expiredEntries) > maxResults {
+			break
+		}
+		windowEntries := ws.windows[windowTimes[i]]
+		expiredEntriesCount := 0
+		for i := range windowEntries {
+			entry := windowEntries[i]
+			if entry.expiryTime() < startTime {
+				expiredEntries = append(expiredEntries, entry)
+				expiredEntriesCount++
 			}
 		}
+		if expiredEntriesCount == len(windowEntries) {
+			delete(ws.windows, windowTimes[i])
+		}
 	}
-	atomic.StoreInt64(&wb.earliestExpiryHash, 0)
 	return expiredEntries
 }
 
-- 
2.43.0


From 3e9305ed525f961177bfa28f7e8d3cd522f751e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:21 +0000
Subject: [PATCH 18/51] fix: query, sync, recovery, delete and batch keep
 entries of a topic complete

Window blocks start at a non zero offset so that the first topic is not lost,
all window blocks of a topic are loaded on open, offsets are published after the
blocks are written, deletes do not race with sync and are idempotent, batch entries
are visible on commit only, sequence is raised on recovery.
---
 batch.go              |  59 +++++++++++----
 block.go              |  10 +++
 block_reader.go       |  37 +++++++++-
 block_writer.go       |  37 +++++-----
 db.go                 |  71 +++++++-----------
 db_internal.go        | 167 ++++++++++++++++++++++++++++--------------
 db_sync.go            |  66 ++++++++---------
 entry.go              |   1 -
 query.go              |   5 +-
 recovery.go           |  53 ++++++++------
 time_window.go        | 120 ++++++++++--------------------
 time_window_reader.go |   8 +-
 time_window_writer.go |   7 +-
 13 files changed, 356 insertions(+), 285 deletions(-)

diff --git a/batch.go b/batch.go
index d592255..917b75a 100644
--- a/batch.go
+++ b/batch.go
@@ -41,6 +41,13 @@ type (
 		offset  int64
 	}
 
+	// _BatchEntry is an entry written to memdb that is not committed.
+	_BatchEntry struct {
+		timeID    int64
+		topicHash uint64
+		winEntry  _WinEntry
+	}
+
 	Batch struct {
 		db         *DB
 		mem        *memdb.Batch
@@ -52,6 +59,10 @@ type (
 		buffer *bpool.Buffer
 		size   int64
 
+		// entries and dels are entries written and entries to delete on batch commit.
+		entries []_BatchEntry
+		dels    []uint64
+
 		// commitComplete is used to signal if batch commit is complete and batch is fully written to DB.
 		commitComplete chan struct{}
 	}
@@ -80,6 +91,9 @@ func (b *Batch) PutEntry(e *Entry) error {
 		return errValueTooLarge
 	}
 	e.Encryption = e.Encryption || b.opts.batchOptions.encryption
+	if e.Contract == 0 {
+		e.Contract = b.opts.batchOptions.contract
+	}
 	if err := b.db.setEntry(e); err != nil {
 		return err
 	}
@@ -123,6 +137,9 @@ func (b *Batch) DeleteEntry(e *Entry) error {
 	case len(e.Topic) > maxTopicLength:
 		return errTopicTooLarge
 	}
+	if e.Contract == 0 {
+		e.Contract = b.opts.batchOptions.contract
+	}
 
 	if err := b.db.setEntry(e); err != nil {
 		return err
@@ -168,11 +185,7 @@ func (b *Batch) writeInternal(fn func(i int, e _Entry, data []byte) error) error
 			return err
 		}
 		if index.delFlag && e.seq != 0 {
-			/// Test filter block for presence.
-			if !b.db.internal.filter.Test(e.seq) {
-				return nil
-			}
-			b.db.delete(e.topicHash, e.seq)
+			b.dels = append(b.dels, e.seq)
 			continue
 		}
 
@@ -203,8 +216,7 @@ func (b *Batch) Write() error {
 	}
 	topics := make(map[uint64]*message.Topic)
 	timeID := b.mem.TimeID()
-	var seqs []uint64
-	b.writeInternal(func(i int, e _Entry, data []byte) error {
+	if err := b.writeInternal(func(i int, e _Entry, data []byte) error {
 		if e.topicSize != 0 {
 			t, ok := topics[e.topicHash]
 			if !ok {
@@ -218,14 +230,15 @@ func (b *Batch) Write() error {
 		if err := b.mem.Put(e.seq, data); err != nil {
 			return err
 		}
-		if ok := b.db.internal.timeWindow.add(timeID, e.topicHash, newWinEntry(e.seq, e.expiresAt)); !ok {
-			return errForbidden
-		}
-		seqs = append(seqs, e.seq)
+		b.entries = append(b.entries, _BatchEntry{timeID: timeID, topicHash: e.topicHash, winEntry: newWinEntry(e.seq, e.expiresAt)})
 		return nil
-	})
+	}); err != nil {
+		return err
+	}
 
-	b.mem.Write()
+	if err := b.mem.Write(); err != nil {
+		return err
+	}
 	b.reset()
 
 	return nil
@@ -236,12 +249,16 @@ func (b *Batch) Write() error {
 func (b *Batch) Commit() error {
 	_assert(!b.managed, "managed batch commit not allowed")
 
-	b.db.internal.closeW.Add(1)
+	db := b.db
+	db.internal.closeW.Add(1)
 	defer func() {
 		close(b.commitComplete)
-		b.db.internal.closeW.Done()
 		b.Abort()
+		db.internal.closeW.Done()
 	}()
+	if err := db.ok(); err != nil {
+		return err
+	}
 
 	// Write if any pending entries in batch.
 	if err := b.Write(); err != nil {
@@ -253,6 +270,18 @@ func (b *Batch) Commit() error {
 		return err
 	}
 
+	// entries written are visible after the commit.
+	for _, e := range b.entries {
+		if ok := b.db.internal.timeWindow.add(e.timeID, e.topicHash, e.winEntry); !ok {
+			return errForbidden
+		}
+	}
+	for _, seq := range b.dels {
+		if err := b.db.delete(seq); err != nil {
+			return err
+		}
+	}
+
 	return nil
 }
 
diff --git a/block.go b/block.go
index 232df9b..9ab1fa6 100644
--- a/block.go
+++ b/block.go
@@ -55,6 +55,16 @@ func blockOffset(idx int32) int64 {
 	return int64(blockSize) * int64(idx)
 }
 
+// deletedOffset converts offset of an entry into offset of the deleted entry, and back.
+func deletedOffset(off int64) int64 {
+	return -2 - off
+}
+
+// isDeleted returns true if the entry is deleted.
+func (e _IndexEntry) isDeleted() bool {
+	return e.msgOffset < 0
+}
+
 func (e _IndexEntry) mSize() uint32 {
 	return idSize + uint32(e.topicSize) + e.valueSize
 }
diff --git a/block_reader.go b/block_reader.go
index 6ab57de..3554969 100644
--- a/block_reader.go
+++ b/block_reader.go
@@ -16,6 +16,10 @@
 
 package unitdb
 
+import (
+	"io"
+)
+
 type _BlockReader struct {
 	indexBlock          _IndexBlock
 	fs                  *_FileSet
@@ -54,20 +58,33 @@ func (r *_BlockReader) readIndexBlock() (_IndexBlock, error) {
 }
 
 func (r *_BlockReader) readEntry(seq uint64) (_IndexEntry, error) {
+	e, err := r.readIndexEntry(seq)
+	if err != nil {
+		return _IndexEntry{}, err
+	}
+	if e.isDeleted() {
+		return _IndexEntry{}, errMsgIDDeleted
+	}
+	return e, nil
+}
+
+// readIndexEntry reads entry from the index even if the entry is deleted.
+func (r *_BlockReader) readIndexEntry(seq uint64) (_IndexEntry, error) {
 	bIdx := blockIndex(seq)
 	// the reader is shared, a query reads the block into a reader of its own.
 	br := _BlockReader{indexFile: r.indexFile, offset: blockOffset(bIdx)}
 	b, err := br.readIndexBlock()
 	if err != nil {
+		if err == io.EOF {
+			// entry is not synced to the DB.
+			return _IndexEntry{}, errEntryInvalid
+		}
 		return _IndexEntry{}, err
 	}
 	entryIdx := -1
 	for i := 0; i < entriesPerIndexBlock; i++ {
 		e := b.entries[i]
 		if e.seq == seq { //topic exist in db
-			if e.msgOffset == -1 {
-				return _IndexEntry{}, errMsgIDDeleted
-			}
 			entryIdx = i
 			break
 		}
@@ -87,6 +104,10 @@ func (r *_BlockReader) readMessage(e _IndexEntry) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, err
 	}
+	// the message is overwritten if the entry is deleted and its space is reused.
+	if _, err := r.readEntry(e.seq); err != nil {
+		return nil, nil, err
+	}
 	return message[:idSize], message[e.topicSize+idSize:], nil
 }
 
@@ -94,5 +115,13 @@ func (r *_BlockReader) readTopic(e _IndexEntry) ([]byte, error) {
 	if e.cache != nil {
 		return e.cache[idSize : e.topicSize+idSize], nil
 	}
-	return r.dataFile.slice(e.msgOffset+int64(idSize), e.msgOffset+int64(e.topicSize)+int64(idSize))
+	off := e.msgOffset
+	if e.isDeleted() {
+		// the message with topic is not freed as the topic is loaded from it.
+		off = deletedOffset(off)
+		if off < 0 {
+			return nil, errMsgIDDeleted
+		}
+	}
+	return r.dataFile.slice(off+int64(idSize), off+int64(e.topicSize)+int64(idSize))
 }
diff --git a/block_writer.go b/block_writer.go
index 22c7abb..e410162 100644
--- a/block_writer.go
+++ b/block_writer.go
@@ -79,35 +79,30 @@ func (w *_BlockWriter) extend(upperSeq uint64) (int64, error) {
 	return w.indexFile.extend(off - w.indexFile.currSize())
 }
 
-func (w *_BlockWriter) del(seq uint64) (_IndexEntry, error) {
-	var delEntry _IndexEntry
+// del marks the entry deleted in the index. It returns entry that is deleted and false if there is no entry to delete.
+func (w *_BlockWriter) del(seq uint64) (_IndexEntry, bool, error) {
 	bIdx := blockIndex(seq)
-	if bIdx > w.blockIdx {
-		return delEntry, nil // no entry in db to delete
+	if bIdx >= w.blockIdx {
+		return _IndexEntry{}, false, nil // no entry in db to delete
 	}
 	r := _BlockReader{indexFile: w.indexFile, offset: blockOffset(bIdx)}
 	b, err := r.readIndexBlock()
 	if err != nil {
-		return _IndexEntry{}, err
+		return _IndexEntry{}, false, err
 	}
-	entryIdx := -1
 	for i := 0; i < int(b.entryIdx); i++ {
 		e := b.entries[i]
-		if e.seq == seq { //record exist in db
-			entryIdx = i
-			break
+		if e.seq != seq || e.isDeleted() {
+			continue
 		}
+		b.entries[i].msgOffset = deletedOffset(e.msgOffset)
+		if _, err := w.indexFile.WriteAt(b.marshalBinary(), blockOffset(bIdx)); err != nil {
+			return _IndexEntry{}, false, err
+		}
+		return e, true, nil
 	}
-	if entryIdx == -1 {
-		return delEntry, nil // no entry in db to delete
-	}
-	delEntry = b.entries[entryIdx]
-	delEntry.msgOffset = -1
-	b.entries[entryIdx] = delEntry
-	b.dirty = true
-	w.indexBlocks[bIdx] = b
 
-	return delEntry, nil
+	return _IndexEntry{}, false, nil // no entry in db to delete
 }
 
 func (w *_BlockWriter) append(e _IndexEntry) (err error) {
@@ -296,7 +291,7 @@ func (w *_BlockWriter) rollback() error {
 
 	// roll back index leases
 	for seq := range w.indexLeases {
-		if _, err := w.del(seq); err != nil {
+		if _, _, err := w.del(seq); err != nil {
 			return err
 		}
 	}
@@ -311,6 +306,10 @@ func (w *_BlockWriter) reset() error {
 
 	w.dataOffset = w.dataFile.currSize()
 
+	// entries that are written are not rolled back.
+	w.indexLeases = make(map[uint64]struct{})
+	w.dataLeases = make(map[int64]uint32)
+
 	return nil
 }
 
diff --git a/db.go b/db.go
index f545684..3fec1a6 100644
--- a/db.go
+++ b/db.go
@@ -246,30 +246,25 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 	mu := db.internal.mutex.getMutex(q.internal.prefix)
 	mu.RLock()
 	defer mu.RUnlock()
-	db.lookup(q)
-	if len(q.internal.winEntries) == 0 {
-		return
-	}
-	sort.Slice(q.internal.winEntries[:], func(i, j int) bool {
-		return q.internal.winEntries[i].seq > q.internal.winEntries[j].seq
-	})
-	start := 0
 	limit := q.Limit
-	if len(q.internal.winEntries) < int(q.Limit) {
-		limit = len(q.internal.winEntries)
-	}
-
 	for {
-		invalidCount := 0
-		for _, query := range q.internal.winEntries[start:limit] {
+		// entries older than the horizon are looked up only if there are not enough valid entries.
+		horizon := db.lookup(q, limit)
+		sort.Slice(q.internal.winEntries[:], func(i, j int) bool {
+			return q.internal.winEntries[i].seq > q.internal.winEntries[j].seq
+		})
+		items = items[:0]
+		for _, query := range q.internal.winEntries {
+			if len(items) == q.Limit || query.seq < horizon {
+				break
+			}
 			err = func() error {
 				if query.seq == 0 {
 					return nil
 				}
 				s, err := db.readEntry(query)
 				if err != nil {
-					if err == errMsgIDDeleted {
-						invalidCount++
+					if err == errMsgIDDeleted || err == errEntryInvalid {
 						return nil
 					}
 					logger.Error().Err(err).Str("context", "db.readEntry")
@@ -277,12 +272,14 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 				}
 				id, val, err := db.internal.reader.readMessage(s)
 				if err != nil {
+					if err == errMsgIDDeleted {
+						return nil
+					}
 					logger.Error().Err(err).Str("context", "data.readMessage")
 					return err
 				}
 				msgID := message.ID(id)
 				if !msgID.EvalPrefix(q.Contract, q.internal.cutoff) {
-					invalidCount++
 					return nil
 				}
 
@@ -309,17 +306,10 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 			}
 		}
 
-		if invalidCount == 0 || len(items) == int(q.Limit) || len(q.internal.winEntries) == limit {
+		if horizon == 0 || len(items) == q.Limit {
 			break
 		}
-
-		if len(q.internal.winEntries) <= int(q.Limit+invalidCount) {
-			start = limit
-			limit = len(q.internal.winEntries)
-		} else {
-			start = limit
-			limit = limit + invalidCount
-		}
+		limit *= 2
 	}
 	db.internal.meter.Gets.Inc(int64(len(items)))
 	db.internal.meter.OutMsgs.Inc(int64(len(items)))
@@ -371,6 +361,13 @@ func (db *DB) PutEntry(e *Entry) error {
 		return err
 	}
 
+	if e.entry.topicSize != 0 {
+		t := new(message.Topic)
+		rawTopic := e.entry.cache[entrySize+idSize : entrySize+idSize+e.entry.topicSize]
+		t.Unmarshal(rawTopic)
+		db.internal.trie.add(newTopic(e.entry.topicHash, 0), t.Parts, t.Depth)
+	}
+
 	timeID, err := db.internal.mem.Put(e.entry.seq, e.entry.cache)
 	if err != nil {
 		return err
@@ -380,13 +377,6 @@ func (db *DB) PutEntry(e *Entry) error {
 		return errForbidden
 	}
 
-	if e.entry.topicSize != 0 {
-		t := new(message.Topic)
-		rawTopic := e.entry.cache[entrySize+idSize : entrySize+idSize+e.entry.topicSize]
-		t.Unmarshal(rawTopic)
-		db.internal.trie.add(newTopic(e.entry.topicHash, 0), t.Parts, t.Depth)
-	}
-
 	db.internal.meter.Puts.Inc(1)
 
 	// reset message entry.
@@ -420,20 +410,14 @@ func (db *DB) DeleteEntry(e *Entry) error {
 		return errTopicTooLarge
 	}
 	id := message.ID(e.ID)
-	topic, _, err := db.parseTopic(e.Contract, e.Topic)
-	if err != nil {
-		return err
+	if len(id) != id.Size() {
+		return errBadRequest
 	}
-	if e.Contract == 0 {
-		e.Contract = message.MasterContract
-	}
-	topic.AddContract(e.Contract)
-
-	if err := db.delete(topic.GetHash(e.Contract), message.ID(id).Sequence()); err != nil {
+	if _, _, err := db.parseTopic(e.Contract, e.Topic); err != nil {
 		return err
 	}
 
-	return nil
+	return db.delete(id.Sequence())
 }
 
 // Batch executes a function within the context of a read-write managed transaction.
@@ -454,6 +438,7 @@ func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
 
 	// If an error is returned from the function then rollback and return error.
 	if err := fn(b, b.commitComplete); err != nil {
+		b.unsetManaged()
 		b.Abort()
 		close(b.commitComplete)
 		return err
diff --git a/db_internal.go b/db_internal.go
index 8b59f82..83d5030 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -20,7 +20,6 @@ import (
 	"errors"
 	"io"
 	"math"
-	"sort"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -164,35 +163,45 @@ func (db *DB) close() error {
 	return err
 }
 
-// loadTopicHash loads topic and offset from window blocks on stored on disk.
+// loadTrie loads topic and offset of most recent window block of the topic stored on disk.
 func (db *DB) loadTrie() error {
 	r := newWindowReader(db.fs)
-	err := r.blockIterator(func(startSeq, topicHash uint64, off int64) (bool, error) {
-		e, err := db.internal.reader.readEntry(startSeq)
-		if err != nil {
-			return true, err
-		}
-		if e.topicSize == 0 {
+	err := r.blockIterator(func(b _WinBlock, off int64) (bool, error) {
+		if ok := db.internal.trie.setOffset(newTopic(b.topicHash, off)); ok {
 			return false, nil
 		}
-		rawtopic, err := db.internal.reader.readTopic(e)
-		if err != nil {
-			return true, err
-		}
-		t := new(message.Topic)
-		err = t.Unmarshal(rawtopic)
+		t, err := db.readTopic(b)
 		if err != nil {
-			return true, err
-		}
-		if ok := db.internal.trie.add(newTopic(topicHash, off), t.Parts, t.Depth); !ok {
-			logger.Info().Str("context", "db.loadTrie: topic exist in the trie")
+			// topic of the block is recovered from the log.
+			logger.Error().Err(err).Str("context", "db.loadTrie")
 			return false, nil
 		}
+		db.internal.trie.add(newTopic(b.topicHash, off), t.Parts, t.Depth)
 		return false, nil
 	})
 	return err
 }
 
+// readTopic reads topic from the entries of the window block.
+func (db *DB) readTopic(b _WinBlock) (*message.Topic, error) {
+	err := errEntryInvalid
+	for _, we := range b.entries[:b.entryIdx] {
+		e, err1 := db.internal.reader.readIndexEntry(we.seq())
+		if err1 != nil || e.topicSize == 0 {
+			continue
+		}
+		var rawtopic []byte
+		if rawtopic, err = db.internal.reader.readTopic(e); err != nil {
+			continue
+		}
+		t := new(message.Topic)
+		if err = t.Unmarshal(rawtopic); err == nil {
+			return t, nil
+		}
+	}
+	return nil, err
+}
+
 func (db *DB) readEntry(q _Query) (_IndexEntry, error) {
 	data, _ := db.internal.mem.Get(q.seq)
 	if data != nil {
@@ -214,23 +223,37 @@ func (db *DB) readEntry(q _Query) (_IndexEntry, error) {
 // lookups are performed in following order
 // ilookup lookups in memory entries from timeWindow
 // lookup lookups persisted entries from timeWindow file.
-func (db *DB) lookup(q *Query) error {
+// It returns the sequence up to which the entries are complete, or zero if all entries are found.
+func (db *DB) lookup(q *Query, limit int) (horizon uint64) {
+	q.internal.winEntries = q.internal.winEntries[:0]
 	topics := db.internal.trie.lookup(q.internal.parts, q.internal.depth, q.internal.topicType)
-	sort.Slice(topics[:], func(i, j int) bool {
-		return topics[i].offset > topics[j].offset
-	})
 	for _, topic := range topics {
-		if len(q.internal.winEntries) > q.Limit {
-			break
+		wEntries := db.internal.timeWindow.ilookup(topic.hash)
+		// get offset after in memory lookup so that entries are not missed if those are synced meanwhile.
+		off, _ := db.internal.trie.getOffset(topic.hash)
+		fEntries, more := db.internal.timeWindow.lookup(db.fs, topic.hash, off, q.internal.cutoff, limit)
+		if more {
+			minSeq := fEntries[0].seq()
+			for _, we := range fEntries {
+				if we.seq() < minSeq {
+					minSeq = we.seq()
+				}
+			}
+			if minSeq > horizon {
+				horizon = minSeq
+			}
 		}
-		limit := q.Limit - len(q.internal.winEntries)
-		wEntries := db.internal.timeWindow.lookup(db.fs, topic.hash, topic.offset, q.internal.cutoff, limit)
-		for _, we := range wEntries {
+		seqs := make(map[uint64]struct{}, len(wEntries))
+		for _, we := range append(wEntries, fEntries...) {
+			if _, ok := seqs[we.seq()]; ok {
+				continue
+			}
+			seqs[we.seq()] = struct{}{}
 			q.internal.winEntries = append(q.internal.winEntries, _Query{topicHash: topic.hash, seq: we.seq()})
 		}
 	}
 
-	return nil
+	return horizon
 }
 
 func (db *DB) parseTopic(contract uint32, topic []byte) (*message.Topic, uint32, error) {
@@ -255,40 +278,42 @@ func (db *DB) setEntry(e *Entry) error {
 	var eBit uint8
 	var seq uint64
 	var rawTopic []byte
-	if !e.entry.parsed {
-		if e.Contract == 0 {
-			e.Contract = message.MasterContract
-		}
-		t, ttl, err := db.parseTopic(e.Contract, e.Topic)
-		if err != nil {
-			return err
-		}
-		if e.ExpiresAt == 0 && ttl > 0 {
-			e.ExpiresAt = ttl
-		}
-		t.AddContract(e.Contract)
-		e.entry.topicHash = t.GetHash(e.Contract)
-		// topic is packed if it is new topic entry
-		if _, ok := db.internal.trie.getOffset(e.entry.topicHash); !ok {
-			rawTopic = t.Marshal()
-			e.entry.topicSize = uint16(len(rawTopic))
-		}
-		e.entry.parsed = true
+	if e.Contract == 0 {
+		e.Contract = message.MasterContract
+	}
+	t, ttl, err := db.parseTopic(e.Contract, e.Topic)
+	if err != nil {
+		return err
+	}
+	expiresAt := e.ExpiresAt
+	if expiresAt == 0 && ttl > 0 {
+		expiresAt = ttl
+	}
+	t.AddContract(e.Contract)
+	e.entry.topicHash = t.GetHash(e.Contract)
+	e.entry.topicSize = 0
+	// topic is packed until an entry of the topic is synced to the DB.
+	if off, _ := db.internal.trie.getOffset(e.entry.topicHash); off == 0 {
+		rawTopic = t.Marshal()
+		e.entry.topicSize = uint16(len(rawTopic))
 	}
 	if e.ID != nil {
 		id = message.ID(e.ID)
+		if len(id) != id.Size() {
+			return errBadRequest
+		}
 		seq = id.Sequence()
 	} else {
 		seq = db.nextSeq()
 		id = message.NewID(seq)
 	}
 	if seq == 0 {
-		panic("db.setEntry: seq is zero")
+		return errBadRequest
 	}
 
 	id.SetContract(e.Contract)
 	e.entry.seq = seq
-	e.entry.expiresAt = e.ExpiresAt
+	e.entry.expiresAt = expiresAt
 	val := snappy.Encode(nil, e.Payload)
 	if db.internal.dbInfo.encryption == 1 || e.Encryption {
 		eBit = 1
@@ -313,12 +338,32 @@ func (db *DB) setEntry(e *Entry) error {
 }
 
 // delete deletes the given key from the DB.
-func (db *DB) delete(topicHash, seq uint64) error {
+func (db *DB) delete(seq uint64) error {
 	if db.opts.flags.immutable {
 		return nil
 	}
 
+	// an entry is not deleted while it is synced.
+	select {
+	case db.internal.syncLockC <- struct{}{}:
+	case <-db.internal.closeC:
+		return errClosed
+	}
+	defer func() {
+		<-db.internal.syncLockC
+	}()
 	db.internal.meter.Dels.Inc(1)
+	if err := db.deleteEntry(seq); err != nil {
+		return err
+	}
+	if db.internal.syncWrites {
+		return db.sync()
+	}
+	return nil
+}
+
+// deleteEntry deletes an entry from memdb and from the index. The caller holds the sync lock.
+func (db *DB) deleteEntry(seq uint64) error {
 	db.internal.mem.Delete(seq)
 
 	// Test filter block for the message id presence.
@@ -330,15 +375,15 @@ func (db *DB) delete(topicHash, seq uint64) error {
 	if err != nil {
 		return err
 	}
-	e, err := w.del(seq)
-	if err != nil {
+	e, ok, err := w.del(seq)
+	if err != nil || !ok {
 		return err
 	}
-	db.internal.freeList.freeBlock(e.msgOffset, e.mSize())
-	db.decount(1)
-	if db.internal.syncWrites {
-		return db.sync()
+	// topic is loaded from the entry so it is not freed.
+	if e.topicSize == 0 {
+		db.internal.freeList.free(e.seq, e.msgOffset, e.mSize())
 	}
+	db.decount(1)
 	return nil
 }
 
@@ -363,6 +408,16 @@ func (db *DB) nextSeq() uint64 {
 	return atomic.AddUint64(&db.internal.dbInfo.sequence, 1)
 }
 
+// raiseSeq raises current seq of the DB so that seq is not used for the next entry.
+func (db *DB) raiseSeq(seq uint64) {
+	for {
+		curr := db.seq()
+		if curr >= seq || atomic.CompareAndSwapUint64(&db.internal.dbInfo.sequence, curr, seq) {
+			return
+		}
+	}
+}
+
 func (db *DB) incount(count uint64) uint64 {
 	return atomic.AddUint64(&db.internal.dbInfo.count, count)
 }
diff --git a/db_sync.go b/db_sync.go
index a86731b..ead75b4 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -17,7 +17,6 @@
 package unitdb
 
 import (
-	"errors"
 	"fmt"
 	"sort"
 	"time"
@@ -27,7 +26,6 @@ import (
 
 type (
 	_SyncInfo struct {
-		lastSyncSeq    uint64
 		upperSeq       uint64
 		syncStatusOk   bool
 		syncComplete   bool
@@ -48,11 +46,6 @@ type (
 )
 
 func (db *_SyncHandle) startSync() bool {
-	if db.syncInfo.lastSyncSeq == db.seq() {
-		db.syncInfo.syncStatusOk = false
-		return db.syncInfo.syncStatusOk
-	}
-
 	db.rawWindow = db.internal.bufPool.Get()
 	db.rawBlock = db.internal.bufPool.Get()
 
@@ -89,7 +82,6 @@ func (db *_SyncHandle) status() (ok bool) {
 }
 
 func (db *_SyncHandle) reset() error {
-	db.syncInfo.lastSyncSeq = db.syncInfo.upperSeq
 	db.syncInfo.count = 0
 	db.syncInfo.inBytes = 0
 	db.syncInfo.upperSeq = 0
@@ -206,6 +198,30 @@ func (db *_SyncHandle) sync(recovery bool) error {
 	return nil
 }
 
+// appendWindowBlocks appends window entries to window blocks and returns the new offsets of the topics.
+func (db *_SyncHandle) appendWindowBlocks(winEntries map[uint64]_WindowEntries) (_Topics, error) {
+	topics := make(_Topics, 0, len(winEntries))
+	for h, wEntries := range winEntries {
+		topicOff, ok := db.internal.trie.getOffset(h)
+		if !ok {
+			return nil, fmt.Errorf("timeWindow sync error: unable to get topic offset from trie %d", h)
+		}
+		wOff, err := db.windowWriter.append(h, topicOff, wEntries)
+		if err != nil {
+			return nil, err
+		}
+		topics = append(topics, newTopic(h, wOff))
+	}
+	return topics, nil
+}
+
+// setOffsets sets offset of topics in trie after window blocks are written.
+func (db *_SyncHandle) setOffsets(topics _Topics) {
+	for _, topic := range topics {
+		db.internal.trie.setOffset(topic)
+	}
+}
+
 // Sync syncs entries into DB. Sync happens synchronously.
 // Sync write window entries into summary file and write index, and data to respective index and data files.
 // In case of any error during sync operation recovery is performed on log file (write ahead log).
@@ -213,7 +229,6 @@ func (db *_SyncHandle) Sync() error {
 	// // CPU profiling by default
 	// defer profile.Start().Stop()
 	var err1 error
-	timeRelease := db.internal.timeWindow.release()
 	err := db.internal.mem.BlockIterator(func(timeID int64, seqs []uint64) (bool, error) {
 		winEntries := make(map[uint64]_WindowEntries)
 		sort.Slice(seqs[:], func(i, j int) bool {
@@ -261,32 +276,22 @@ func (db *_SyncHandle) Sync() error {
 			db.syncInfo.count++
 			db.syncInfo.inBytes += int64(e.valueSize)
 		}
-		for h := range winEntries {
-			topicOff, ok := db.internal.trie.getOffset(h)
-			if !ok {
-				return true, errors.New("db.Sync: timeWindow sync error: unable to get topic offset from trie")
-			}
-			wOff, err := db.windowWriter.append(h, topicOff, winEntries[h])
-			if err != nil {
-				return true, err
-			}
-			if ok := db.internal.trie.setOffset(_Topic{hash: h, offset: wOff}); !ok {
-				return true, errors.New("db:Sync: timeWindow sync error: unable to set topic offset in trie")
-			}
-		}
 		if err1 != nil {
 			fmt.Println("db.sync: error ", err1)
 			return true, err1
 		}
+		topics, err := db.appendWindowBlocks(winEntries)
+		if err != nil {
+			return true, err
+		}
 
 		if err := db.sync(false); err != nil {
 			fmt.Println("db.sync: sync error ", err)
 			return true, err
 		}
 		if db.syncInfo.syncComplete {
-			if err := timeRelease(timeID); err != nil {
-				return false, err
-			}
+			db.setOffsets(topics)
+			db.internal.timeWindow.release(timeID)
 			if err := db.internal.mem.Free(timeID); err != nil {
 				return true, err
 			}
@@ -316,16 +321,9 @@ func (db *DB) expireEntries() error {
 	expiredEntries := db.internal.timeWindow.expiryWindowBucket.getExpiredEntries(db.opts.queryOptions.defaultQueryLimit)
 	for _, expiredEntry := range expiredEntries {
 		we := expiredEntry.(_WinEntry)
-		/// Test filter block if message hash presence.
-		if !db.internal.filter.Test(we.seq()) {
-			continue
-		}
-		e, err := db.internal.reader.readEntry(we.seq())
-		if err != nil {
-			return err
+		if err := db.deleteEntry(we.seq()); err != nil {
+			logger.Error().Err(err).Str("context", "db.expireEntries")
 		}
-		db.internal.freeList.free(e.seq, e.msgOffset, e.mSize())
-		db.decount(1)
 	}
 
 	return nil
diff --git a/entry.go b/entry.go
index aa2a4af..8a3390a 100644
--- a/entry.go
+++ b/entry.go
@@ -34,7 +34,6 @@ type (
 		valueSize uint32
 		expiresAt uint32 // expiresAt for recovery from log and not persisted to index file but persisted to the time window file.
 
-		parsed    bool
 		topicHash uint64 // topicHash for recovery from log and not persisted to the DB.
 		cache     []byte // entry from memdb if it exist.
 	}
diff --git a/query.go b/query.go
index c6b2d96..efea889 100644
--- a/query.go
+++ b/query.go
@@ -116,8 +116,11 @@ func (q *Query) parse() error {
 			q.Limit = limit
 		}
 	}
-	if q.Limit == 0 {
+	if q.Limit <= 0 {
 		q.Limit = q.internal.opts.defaultQueryLimit
 	}
+	if q.Limit > q.internal.opts.maxQueryLimit {
+		q.Limit = q.internal.opts.maxQueryLimit
+	}
 	return nil
 }
diff --git a/recovery.go b/recovery.go
index 1da08d5..63622dd 100644
--- a/recovery.go
+++ b/recovery.go
@@ -17,7 +17,6 @@
 package unitdb
 
 import (
-	"errors"
 	"fmt"
 	"sort"
 
@@ -25,23 +24,6 @@ import (
 	// _ "net/http/pprof"
 )
 
-func (db *_SyncHandle) recoverWindowBlocks(windowEntries map[uint64]_WindowEntries) error {
-	for h, wEntries := range windowEntries {
-		topicOff, ok := db.internal.trie.getOffset(h)
-		if !ok {
-			return fmt.Errorf("recovery.recoverWindowBlocks: timeWindow sync error, unable to get topic offset from trie %d", h)
-		}
-		wOff, err := db.windowWriter.append(h, topicOff, wEntries)
-		if err != nil {
-			return err
-		}
-		if ok := db.internal.trie.setOffset(_Topic{hash: h, offset: wOff}); !ok {
-			return errors.New("recovery.recoverWindowBlocks: timeWindow sync error, unable to set topic offset in trie")
-		}
-	}
-	return nil
-}
-
 func (db *_SyncHandle) startRecovery() error {
 	// p := profile.Start(profile.MemProfile, profile.ProfilePath("."), profile.NoShutdownHook)
 	// defer p.Stop()
@@ -68,6 +50,8 @@ func (db *_SyncHandle) startRecovery() error {
 		if seqs[len(seqs)-1] > db.syncInfo.upperSeq {
 			db.syncInfo.upperSeq = seqs[len(seqs)-1]
 		}
+		// sequence of the entries written to the log is not used again.
+		db.raiseSeq(db.syncInfo.upperSeq)
 		for _, seq := range seqs {
 			memdata, err := db.internal.mem.Lookup(timeID, seq)
 			if err != nil || memdata == nil {
@@ -128,7 +112,8 @@ func (db *_SyncHandle) startRecovery() error {
 				delete(winEntries, h)
 			}
 		}
-		if err := db.recoverWindowBlocks(winEntries); err != nil {
+		topics, err := db.appendWindowBlocks(winEntries)
+		if err != nil {
 			logger.Error().Err(err).Str("context", "db.recoverWindowBlocks")
 			return true, err
 		}
@@ -137,6 +122,7 @@ func (db *_SyncHandle) startRecovery() error {
 			return true, err
 		}
 		if db.syncInfo.syncComplete {
+			db.setOffsets(topics)
 			// if err := timeRelease(timeID); err != nil {
 			// 	return false, err
 			// }
@@ -154,12 +140,33 @@ func (db *_SyncHandle) startRecovery() error {
 		return err1
 	}
 
-	if err := db.recoverWindowBlocks(pendingEntries); err != nil {
-		logger.Error().Err(err).Str("context", "db.recoverWindowBlocks")
+	return db.recoverPending(pendingEntries)
+}
+
+// recoverPending recovers window entries of the topics that were not known when the entries were recovered.
+func (db *_SyncHandle) recoverPending(pendingEntries map[uint64]_WindowEntries) error {
+	for h, wEntries := range pendingEntries {
+		if _, ok := db.internal.trie.getOffset(h); !ok {
+			logger.Error().Str("context", "db.recoverPending").Msgf("unable to get topic from log %d", h)
+			delete(pendingEntries, h)
+			continue
+		}
+		for _, we := range wEntries {
+			if we.seq() > db.syncInfo.upperSeq {
+				db.syncInfo.upperSeq = we.seq()
+			}
+		}
+	}
+	topics, err := db.appendWindowBlocks(pendingEntries)
+	if err != nil {
+		logger.Error().Err(err).Str("context", "db.recoverPending")
 		return err
 	}
-
-	return db.sync(true)
+	if err := db.sync(true); err != nil {
+		return err
+	}
+	db.setOffsets(topics)
+	return nil
 }
 
 func (db *DB) recoverLog() error {
diff --git a/time_window.go b/time_window.go
index aee731b..4df10fa 100644
--- a/time_window.go
+++ b/time_window.go
@@ -185,84 +185,65 @@ func (tw *_TimeWindowBucket) add(timeID int64, topicHash uint64, e _WinEntry) (o
 	}
 	return true
 }
-func (tw *_TimeWindowBucket) release() func(timeID int64) error {
-	releasedKeys := make(map[int64][]_Key)
+
+// release releases window entries that are synced to DB.
+func (tw *_TimeWindowBucket) release(timeID int64) {
 	for i := 0; i < nShards; i++ {
 		wb := tw.windowBlocks.window[i]
-		wb.mu.RLock()
+		wb.mu.Lock()
 		for k := range wb.entries {
-			if _, ok := releasedKeys[k.timeID]; ok {
-				releasedKeys[k.timeID] = append(releasedKeys[k.timeID], k)
-			} else {
-				releasedKeys[k.timeID] = []_Key{k}
+			if k.timeID == timeID {
+				delete(wb.entries, k)
 			}
 		}
-		wb.mu.RUnlock()
-	}
-
-	return func(timeID int64) error {
-		keys, ok := releasedKeys[timeID]
-		if !ok {
-			return errBadRequest
-		}
-		for _, k := range keys {
-			b := tw.windowBlocks.getWindowBlock(k.topicHash)
-			b.mu.Lock()
-			delete(b.entries, k)
-			b.mu.Unlock()
-		}
-
-		return nil
+		wb.mu.Unlock()
 	}
 }
 
 // ilookup lookups window entries from timeWindowBucket and not yet sync to DB.
-func (tw *_TimeWindowBucket) ilookup(topicHash uint64, limit int) (winEntries _WindowEntries) {
+func (tw *_TimeWindowBucket) ilookup(topicHash uint64) (winEntries _WindowEntries) {
 	winEntries = make([]_WinEntry, 0)
 	// get windowBlock shard.
 	b := tw.windowBlocks.getWindowBlock(topicHash)
 	b.mu.RLock()
 	defer b.mu.RUnlock()
-	var l int
-	var expiryCount int
 
 	for key := range b.entries {
 		if key.topicHash != topicHash {
 			continue
 		}
-		wEntries := b.entries[key]
-		if len(wEntries) > 0 {
-			l = limit + expiryCount - l
-			if len(wEntries) < l {
-				l = len(wEntries)
-			}
-			for i := len(wEntries) - 1; i >= len(wEntries)-l; i-- {
-				we := wEntries[i]
-				if we.isExpired() {
-					if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
-						expiryCount++
-						logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
-					}
-					// if id is expired it does not return an error but continue the iteration.
-					continue
-				}
-				winEntries = append(winEntries, we)
+		winEntries = tw.appendEntries(winEntries, b.entries[key])
+	}
+	return winEntries
+}
+
+// appendEntries appends entries that are not expired, the most recent entry first.
+func (tw *_TimeWindowBucket) appendEntries(winEntries, wEntries _WindowEntries) _WindowEntries {
+	for i := len(wEntries) - 1; i >= 0; i-- {
+		we := wEntries[i]
+		if we.isExpired() {
+			if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
+				logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
 			}
+			// if id is expired it does not return an error but continue the iteration.
+			continue
 		}
+		winEntries = append(winEntries, we)
 	}
 	return winEntries
 }
 
-// lookup lookups window entries from window file.
-func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, off, cutoff int64, limit int) (winEntries _WindowEntries) {
+// lookup lookups window entries from window file. The limit is approximate,
+// more is true if there are older entries that are not looked up.
+func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, off, cutoff int64, limit int) (winEntries _WindowEntries, more bool) {
 	winEntries = make([]_WinEntry, 0)
-	winEntries = tw.ilookup(topicHash, limit)
-	if len(winEntries) >= limit {
-		return winEntries
+	if off == 0 {
+		// no entries of the topic are synced to DB.
+		return winEntries, false
 	}
 	winFile, err := fs.getFile(_FileDesc{fileType: typeTimeWindow})
 	if err != nil {
-		return winEntries
+		return winEntries, false
 	}
 	next := func(blockOff int64, f func(_WinBlock) (bool, error)) error {
 		for {
@@ -280,53 +261,26 @@ func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, off, cutoff
 			blockOff = b.next
 		}
 	}
-	expiryCount := 0
 	err = next(off, func(curb _WinBlock) (bool, error) {
 		b := &curb
 		if b.topicHash != topicHash {
 			return true, nil
 		}
-		if len(winEntries) > limit-int(b.entryIdx) {
-			limit = limit - len(winEntries)
-			for i := len(b.entries[:b.entryIdx]) - 1; i >= len(b.entries[:b.entryIdx])-limit; i-- {
-				we := b.entries[i]
-				if we.isExpired() {
-					if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
-						expiryCount++
-						logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
-					}
-					// if id is expired it does not return an error but continue the iteration.
-					continue
-				}
-				winEntries = append(winEntries, we)
-			}
-			if len(winEntries) >= limit {
-				return true, nil
-			}
-		}
-		for i := len(b.entries[:b.entryIdx]) - 1; i >= 0; i-- {
-			we := b.entries[i]
-			if we.isExpired() {
-				if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
-					expiryCount++
-					logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
-				}
-				// if id is expired it does not return an error but continue the iteration.
-				continue
-			}
-			winEntries = append(winEntries, we)
-
-		}
+		winEntries = tw.appendEntries(winEntries, b.entries[:b.entryIdx])
 		if b.cutoff(cutoff) {
 			return true, nil
 		}
+		if len(winEntries) >= limit && b.next != 0 {
+			more = true
+			return true, nil
+		}
 		return false, nil
 	})
 	if err != nil {
-		return winEntries
+		return winEntries, false
 	}
 
-	return winEntries
+	return winEntries, more
 }
 
 func (b _WinBlock) validation(topicHash uint64) error {
diff --git a/time_window_reader.go b/time_window_reader.go
index cfe3ca2..82676c4 100644
--- a/time_window_reader.go
+++ b/time_window_reader.go
@@ -54,8 +54,8 @@ func (r *_WindowReader) readWindowBlock() (_WinBlock, error) {
 	return r.winBlock, nil
 }
 
-// blockIterator iterates all window blocks from disk.
-func (r *_WindowReader) blockIterator(f func(startSeq, topicHash uint64, off int64) (bool, error)) (err error) {
+// blockIterator iterates all window blocks from disk, the most recent block of a topic is the last.
+func (r *_WindowReader) blockIterator(f func(b _WinBlock, off int64) (bool, error)) (err error) {
 	windowIdx := int32(0)
 	nBlocks := r.windowIdx
 	for windowIdx <= nBlocks {
@@ -68,11 +68,11 @@ func (r *_WindowReader) blockIterator(f func(startSeq, topicHash uint64, off int
 			return err
 		}
 		windowIdx++
-		if b.entryIdx == 0 || b.next != 0 {
+		if b.entryIdx == 0 {
 			continue
 		}
 		// fmt.Println("timeWindow.blockIterator: topicHash, seq ", b.topicHash, b.entries[0].sequence)
-		if stop, err := f(b.entries[0].sequence, b.topicHash, r.offset); stop || err != nil {
+		if stop, err := f(b, r.offset); stop || err != nil {
 			return err
 		}
 	}
diff --git a/time_window_writer.go b/time_window_writer.go
index 51961ea..207438f 100644
--- a/time_window_writer.go
+++ b/time_window_writer.go
@@ -35,7 +35,8 @@ type _WindowWriter struct {
 }
 
 func newWindowWriter(fs *_FileSet, buf *bpool.Buffer) (*_WindowWriter, error) {
-	w := &_WindowWriter{windowIdx: -1, winBlocks: make(map[int32]_WinBlock), winLeases: make(map[int32][]uint64), fs: fs, buffer: buf}
+	// offset zero is not a valid offset as it represents topic without any window blocks on disk.
+	w := &_WindowWriter{windowIdx: 0, winBlocks: make(map[int32]_WinBlock), winLeases: make(map[int32][]uint64), fs: fs, buffer: buf}
 	winFile, err := fs.getFile(_FileDesc{fileType: typeTimeWindow})
 	if err != nil {
 		return nil, err
@@ -70,7 +71,7 @@ func (w *_WindowWriter) del(seq uint64, winIdx int32) error {
 	b.entryIdx--
 
 	i := entryIdx
-	for ; i < entriesPerIndexBlock-1; i++ {
+	for ; i < entriesPerWindowBlock-1; i++ {
 		b.entries[i] = b.entries[i+1]
 	}
 	b.entries[i] = _WinEntry{}
@@ -207,6 +208,8 @@ func (w *_WindowWriter) rollback() error {
 func (w *_WindowWriter) reset() error {
 	w.buffer.Reset()
 	w.offset = w.winFile.currSize()
+	// entries that are written are not rolled back.
+	w.winLeases = make(map[int32][]uint64)
 
 	return nil
 }
-- 
2.43.0


From af500274a09ecb81c8de6723c531dde7f42080ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:59 +0000
Subject: [PATCH 19/51] fix: match topics that begin with a wildcard

---
 message/topic.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/message/topic.go b/message/topic.go
index 360d9ef..8064202 100644
--- a/message/topic.go
+++ b/message/topic.go
@@ -65,12 +65,14 @@ type Topic struct {
 	Depth        uint8
 	Options      []TopicOption // Gets or sets the options.
 	TopicType    uint8
+
+	leading uint8 // leading is the number of wildcard parts before the first name of a topic.
 }
 
 // AddContract adds contract to the parts of a topic.
 func (t *Topic) AddContract(contract uint32) {
 	part := Part{
-		Wildchars: 0,
+		Wildchars: t.leading,
 		Hash:      contract,
 	}
 	parts := []Part{part}
@@ -79,10 +81,7 @@ func (t *Topic) AddContract(contract uint32) {
 
 // GetHash combines the parts into a single hash.
 func (t *Topic) GetHash(contract uint32) uint64 {
-	if len(t.Parts) == 1 {
-		return uint64(contract)
-	}
-	h := t.Parts[0].Hash
+	h := t.Parts[0].Hash ^ uint32(t.Parts[0].Wildchars)*hashPrime
 	for _, i := range t.Parts[1:] {
 		// the order of the parts and their wildcards count.
 		h = (h*hashPrime^i.Hash)*hashPrime ^ uint32(i.Wildchars)
@@ -269,10 +268,6 @@ func parseWildcardTopic(contract uint32, topic *Topic) (ok bool) {
 		depth++
 		if bytes.HasSuffix(p, q) {
 			topic.TopicType = TopicWildcard
-			if idx == 0 {
-				part.Hash = hash.WithSalt(p, contract)
-				topic.Parts = append(topic.Parts, part)
-			}
 			wildchars++
 			wildcharcount++
 			continue
@@ -283,14 +278,18 @@ func parseWildcardTopic(contract uint32, topic *Topic) (ok bool) {
 			if idx-wildcharcount-1 >= 0 {
 				topic.Parts[idx-wildcharcount-1].Wildchars = wildchars
 			} else {
-				topic.Parts[0].Wildchars = wildchars
+				topic.leading = wildchars
 			}
 			wildchars = 0
 		}
 	}
 
 	if wildchars > 0 {
-		topic.Parts[len(topic.Parts)-1:][0].Wildchars = wildchars
+		if len(topic.Parts) == 0 {
+			topic.leading = wildchars
+		} else {
+			topic.Parts[len(topic.Parts)-1:][0].Wildchars = wildchars
+		}
 	}
 	if topic.Depth == TopicMaxDepth {
 		part.Hash = Wildcard
-- 
2.43.0


From 3df7f5c4cb99c6e5129053b8004975451f63bc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:20 +0000
Subject: [PATCH 20/51] fix: limited queries return the most recent entries
 when blocks are synced out of order

---
 db.go                 |  2 +-
 db_internal.go        | 16 ++++------------
 time_window.go        | 32 ++++++++++++++++++++++++--------
 time_window_writer.go |  2 +-
 4 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/db.go b/db.go
index 3fec1a6..29a6de4 100644
--- a/db.go
+++ b/db.go
@@ -255,7 +255,7 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 		})
 		items = items[:0]
 		for _, query := range q.internal.winEntries {
-			if len(items) == q.Limit || query.seq < horizon {
+			if len(items) == q.Limit || query.seq <= horizon {
 				break
 			}
 			err = func() error {
diff --git a/db_internal.go b/db_internal.go
index 83d5030..15351ef 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -223,7 +223,7 @@ func (db *DB) readEntry(q _Query) (_IndexEntry, error) {
 // lookups are performed in following order
 // ilookup lookups in memory entries from timeWindow
 // lookup lookups persisted entries from timeWindow file.
-// It returns the sequence up to which the entries are complete, or zero if all entries are found.
+// It returns the maximum sequence of the entries that are not looked up, or zero if all entries are found.
 func (db *DB) lookup(q *Query, limit int) (horizon uint64) {
 	q.internal.winEntries = q.internal.winEntries[:0]
 	topics := db.internal.trie.lookup(q.internal.parts, q.internal.depth, q.internal.topicType)
@@ -231,17 +231,9 @@ func (db *DB) lookup(q *Query, limit int) (horizon uint64) {
 		wEntries := db.internal.timeWindow.ilookup(topic.hash)
 		// get offset after in memory lookup so that entries are not missed if those are synced meanwhile.
 		off, _ := db.internal.trie.getOffset(topic.hash)
-		fEntries, more := db.internal.timeWindow.lookup(db.fs, topic.hash, off, q.internal.cutoff, limit)
-		if more {
-			minSeq := fEntries[0].seq()
-			for _, we := range fEntries {
-				if we.seq() < minSeq {
-					minSeq = we.seq()
-				}
-			}
-			if minSeq > horizon {
-				horizon = minSeq
-			}
+		fEntries, olderSeq := db.internal.timeWindow.lookup(db.fs, topic.hash, off, q.internal.cutoff, limit)
+		if olderSeq > horizon {
+			horizon = olderSeq
 		}
 		seqs := make(map[uint64]struct{}, len(wEntries))
 		for _, we := range append(wEntries, fEntries...) {
diff --git a/time_window.go b/time_window.go
index 4df10fa..091dfdd 100644
--- a/time_window.go
+++ b/time_window.go
@@ -40,6 +40,9 @@ type (
 		cutoffTime int64
 		entryIdx   uint16
 
+		// olderSeq is the maximum sequence of the blocks linked by next.
+		olderSeq uint64
+
 		// dirty used during timeWindow append and not persisted.
 		dirty bool
 
@@ -82,6 +85,7 @@ func (b _WinBlock) marshalBinary() []byte {
 	binary.LittleEndian.PutUint64(buf[8:16], b.topicHash)
 	binary.LittleEndian.PutUint64(buf[16:24], uint64(b.next))
 	binary.LittleEndian.PutUint16(buf[24:26], b.entryIdx)
+	binary.LittleEndian.PutUint64(buf[26:34], b.olderSeq)
 	return data
 }
 
@@ -97,9 +101,21 @@ func (b *_WinBlock) unmarshalBinary(data []byte) error {
 	b.topicHash = binary.LittleEndian.Uint64(data[8:16])
 	b.next = int64(binary.LittleEndian.Uint64(data[16:24]))
 	b.entryIdx = binary.LittleEndian.Uint16(data[24:26])
+	b.olderSeq = binary.LittleEndian.Uint64(data[26:34])
 	return nil
 }
 
+// maxSeq returns maximum sequence of the block and of the blocks linked by next.
+func (b _WinBlock) maxSeq() uint64 {
+	seq := b.olderSeq
+	for _, we := range b.entries[:b.entryIdx] {
+		if we.sequence > seq {
+			seq = we.sequence
+		}
+	}
+	return seq
+}
+
 func winBlockOffset(idx int32) int64 {
 	return int64(blockSize) * int64(idx)
 }
@@ -234,16 +250,16 @@ func (tw *_TimeWindowBucket) appendEntries(winEntries, wEntries _WindowEntries)
 }
 
 // lookup lookups window entries from window file. The limit is approximate,
-// more is true if there are older entries that are not looked up.
-func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, off, cutoff int64, limit int) (winEntries _WindowEntries, more bool) {
+// olderSeq is the maximum sequence of the entries that are not looked up, or zero if all entries are looked up.
+func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, off, cutoff int64, limit int) (winEntries _WindowEntries, olderSeq uint64) {
 	winEntries = make([]_WinEntry, 0)
 	if off == 0 {
 		// no entries of the topic are synced to DB.
-		return winEntries, false
+		return winEntries, 0
 	}
 	winFile, err := fs.getFile(_FileDesc{fileType: typeTimeWindow})
 	if err != nil {
-		return winEntries, false
+		return winEntries, 0
 	}
 	next := func(blockOff int64, f func(_WinBlock) (bool, error)) error {
 		for {
@@ -271,16 +287,16 @@ func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, off, cutoff
 			return true, nil
 		}
 		if len(winEntries) >= limit && b.next != 0 {
-			more = true
-			return true, nil
+			olderSeq = b.olderSeq
+			return olderSeq != 0, nil
 		}
 		return false, nil
 	})
 	if err != nil {
-		return winEntries, false
+		return winEntries, 0
 	}
 
-	return winEntries, more
+	return winEntries, olderSeq
 }
 
 func (b _WinBlock) validation(topicHash uint64) error {
diff --git a/time_window_writer.go b/time_window_writer.go
index 207438f..dc72187 100644
--- a/time_window_writer.go
+++ b/time_window_writer.go
@@ -116,7 +116,7 @@ func (w *_WindowWriter) append(topicHash uint64, off int64, wEntries _WindowEntr
 			w.winBlocks[wIdx] = b
 			w.windowIdx++
 			wIdx = w.windowIdx
-			b = _WinBlock{topicHash: topicHash, next: next}
+			b = _WinBlock{topicHash: topicHash, next: next, olderSeq: b.maxSeq()}
 		}
 		if b.leased {
 			w.winLeases[wIdx] = append(w.winLeases[wIdx], we.sequence)
-- 
2.43.0


From 46407ae62c12bef99346a06b85bd2af57344ba86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:05 +0000
Subject: [PATCH 21/51] fix: keep the log of deleted keys until the logs of
 those keys are released

---
 memdb/db.go          |  3 ++-
 memdb/db_internal.go | 31 +++++++++++++++++++++++++++++++
 memdb/recovery.go    |  1 +
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/memdb/db.go b/memdb/db.go
index 683d0da..c35c6cb 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -224,6 +224,7 @@ func (db *DB) BlockIterator(f func(timeID int64, keys []uint64) (bool, error)) (
 				if err := db.releaseLog(timeID); err != nil && err != errEntryDoesNotExist {
 					return err
 				}
+				_, live = db.timeBlock(timeID)
 			}
 			continue
 		}
@@ -250,7 +251,7 @@ func (db *DB) Delete(key uint64) error {
 		if !ok {
 			continue
 		}
-		past := timeID < db.timeID()
+		past := timeID != db.timeID()
 		block.Lock()
 		if _, ok := block.records[iKey(false, key)]; !ok {
 			block.Unlock()
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index d849091..373a05d 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -266,6 +266,28 @@ func (db *DB) tinyCommit(tinyLog *_TinyLog) error {
 	return nil
 }
 
+// deletesPending tells if the block has deleted keys of a more recent time block that is not released.
+func (db *DB) deletesPending(timeID _TimeID, block *_Block) bool {
+	for ik, off := range block.records {
+		if ik.delFlag == 0 {
+			continue
+		}
+		rawTimeID, err := block.get(off)
+		if err != nil || len(rawTimeID) < 8 {
+			continue
+		}
+		ID := _TimeID(binary.LittleEndian.Uint64(rawTimeID[:8]))
+		if ID <= timeID {
+			continue
+		}
+		if _, ok := db.timeBlock(ID); ok {
+			return true
+		}
+	}
+
+	return false
+}
+
 func (db *DB) releaseLog(timeID _TimeID) error {
 	db.mu.RLock()
 	block, ok := db.timeBlocks[timeID]
@@ -279,6 +301,15 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 	if block.freed {
 		return errEntryDoesNotExist
 	}
+	if db.deletesPending(timeID, block) {
+		// log of the block is released after the logs of the deleted keys.
+		for ik := range block.records {
+			if ik.delFlag == 0 {
+				block.delete(ik.key)
+			}
+		}
+		return nil
+	}
 	for _, timeRef := range block.timeRefs {
 		if err := db.internal.wal.SignalLogApplied(int64(timeRef)); err != nil {
 			return err
diff --git a/memdb/recovery.go b/memdb/recovery.go
index 60af5d6..673f944 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -130,6 +130,7 @@ func (db *DB) All(f func(timeID int64, keys []uint64) (bool, error)) (err error)
 				if err := db.releaseLog(timeID); err != nil && err != errEntryDoesNotExist {
 					return err
 				}
+				_, live = db.timeBlock(timeID)
 			}
 			continue
 		}
-- 
2.43.0


From c038b63c0e55d9c834a634a02bf8895584e1f5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:37 +0000
Subject: [PATCH 22/51] fix: apply the query limits of the database to queries
 with a duration

---
 query.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/query.go b/query.go
index efea889..bade625 100644
--- a/query.go
+++ b/query.go
@@ -76,13 +76,8 @@ func (q *Query) WithLast(dur string) *Query {
 		return q
 	}
 	// In case of last, include it to the query.
+	// The limits of the DB are applied when query is parsed.
 	q.internal.cutoff = base.Add(-duration).Unix()
-	switch {
-	case (q.Limit == 0):
-		q.Limit = q.internal.opts.defaultQueryLimit
-	case q.Limit > q.internal.opts.maxQueryLimit:
-		q.Limit = q.internal.opts.maxQueryLimit
-	}
 
 	return q
 }
-- 
2.43.0


From 791a2fc4020723996bdbbbc49f0be1bce8e1e4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:13 +0000
Subject: [PATCH 23/51] fix: FileSize, Varz and log counters are safe while the
 database is written or closed

---
 file.go    | 6 +++++-
 meter.go   | 5 ++++-
 wal/wal.go | 6 +++---
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/file.go b/file.go
index d8abe62..26b9fe2 100644
--- a/file.go
+++ b/file.go
@@ -246,7 +246,11 @@ func (fs *_FileSet) size() (int64, error) {
 	size := int64(0)
 	for _, files := range fs.list {
 		for _, f := range files.fileMap {
-			size += f.currSize()
+			stat, err := f.Stat()
+			if err != nil {
+				return size, err
+			}
+			size += stat.Size()
 		}
 	}
 	return size, nil
diff --git a/meter.go b/meter.go
index 443c5f1..286a4c1 100644
--- a/meter.go
+++ b/meter.go
@@ -140,10 +140,13 @@ func uptime(d time.Duration) string {
 
 // Varz returns a Varz struct containing the unitdb information.
 func (db *DB) Varz() (*Varz, error) {
+	if err := db.ok(); err != nil {
+		return nil, err
+	}
 	v := &Varz{Start: db.internal.start}
 	v.Now = time.Now()
 	v.Uptime = uptime(time.Since(db.internal.start))
-	v.Seq = int64(db.internal.dbInfo.sequence)
+	v.Seq = int64(db.seq())
 	v.Count = int64(db.Count())
 	v.Gets = db.internal.meter.Gets.Count()
 	v.Puts = db.internal.meter.Puts.Count()
diff --git a/wal/wal.go b/wal/wal.go
index b838cdb..f839fbc 100644
--- a/wal/wal.go
+++ b/wal/wal.go
@@ -111,8 +111,8 @@ func (wal *WAL) Close() error {
 
 func (wal *WAL) put(log _LogInfo, data *bpool.Buffer) error {
 	log.version = version
-	wal.logCountWritten++
-	wal.entriesWritten += int64(log.count)
+	atomic.AddInt64(&wal.logCountWritten, 1)
+	atomic.AddInt64(&wal.entriesWritten, int64(log.count))
 
 	return wal.logStore.put(log, data)
 }
@@ -126,7 +126,7 @@ func (wal *WAL) SignalLogApplied(timeID int64) error {
 		wal.mu.RUnlock()
 	}()
 
-	wal.logCountApplied++
+	atomic.AddInt64(&wal.logCountApplied, 1)
 	wal.logStore.del(timeID)
 
 	return nil
-- 
2.43.0


From 3584b6cfe0c09f65895bd16a0145e1f138771cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:53 +0000
Subject: [PATCH 24/51] fix: write the log of a batch on commit so that a
 partial batch is not recovered

---
 batch.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/batch.go b/batch.go
index 917b75a..962de33 100644
--- a/batch.go
+++ b/batch.go
@@ -236,9 +236,7 @@ func (b *Batch) Write() error {
 		return err
 	}
 
-	if err := b.mem.Write(); err != nil {
-		return err
-	}
+	// log of the batch is written on commit, so that a batch is recovered entirely or not at all.
 	b.reset()
 
 	return nil
-- 
2.43.0


From a9f603129e6a4ae6450a785e5390083298311f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:02 +0000
Subject: [PATCH 25/51] fix: a batch commit and Close do not race on the wait
 group

---
 batch.go       |  8 +++++---
 db_internal.go | 25 ++++++++++++++++++++-----
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/batch.go b/batch.go
index 962de33..bfd59b3 100644
--- a/batch.go
+++ b/batch.go
@@ -248,13 +248,15 @@ func (b *Batch) Commit() error {
 	_assert(!b.managed, "managed batch commit not allowed")
 
 	db := b.db
-	db.internal.closeW.Add(1)
+	err := db.enter()
 	defer func() {
 		close(b.commitComplete)
 		b.Abort()
-		db.internal.closeW.Done()
+		if err == nil {
+			db.internal.closeW.Done()
+		}
 	}()
-	if err := db.ok(); err != nil {
+	if err != nil {
 		return err
 	}
 
diff --git a/db_internal.go b/db_internal.go
index 15351ef..c1a95be 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -97,10 +97,11 @@ type (
 		syncHandle _SyncHandle
 
 		// Close.
-		closeW sync.WaitGroup
-		closeC chan struct{}
-		closed uint32
-		closer io.Closer
+		closeMu sync.RWMutex
+		closeW  sync.WaitGroup
+		closeC  chan struct{}
+		closed  uint32
+		closer  io.Closer
 	}
 )
 
@@ -120,7 +121,10 @@ func (db *DB) writeInfo() error {
 
 // Close closes the DB.
 func (db *DB) close() error {
-	if !db.setClosed() {
+	db.internal.closeMu.Lock()
+	ok := db.setClosed()
+	db.internal.closeMu.Unlock()
+	if !ok {
 		return errClosed
 	}
 
@@ -428,6 +432,17 @@ func (db *DB) isClosed() bool {
 	return atomic.LoadUint32(&db.internal.closed) != 0
 }
 
+// enter makes close wait until closeW is done, it returns an error if DB is closed.
+func (db *DB) enter() error {
+	db.internal.closeMu.RLock()
+	defer db.internal.closeMu.RUnlock()
+	if err := db.ok(); err != nil {
+		return err
+	}
+	db.internal.closeW.Add(1)
+	return nil
+}
+
 // ok checks read ok status.
 func (db *DB) ok() error {
 	if db.isClosed() {
-- 
2.43.0


From c2609adf9b94461799fd7a47704f76ab2d7a43fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:30 +0000
Subject: [PATCH 26/51] fix: release the logs of deleted keys in order after a
 recovery

---
 memdb/db.go          | 11 +++--------
 memdb/db_internal.go |  4 ++--
 memdb/recovery.go    | 17 ++++++++---------
 3 files changed, 13 insertions(+), 19 deletions(-)

diff --git a/memdb/db.go b/memdb/db.go
index c35c6cb..590512c 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -202,7 +202,6 @@ func (db *DB) Get(key uint64) ([]byte, error) {
 func (db *DB) BlockIterator(f func(timeID int64, keys []uint64) (bool, error)) (err error) {
 	// Get timeBlocks successfully committed to WAL.
 	timeIDs := db.internal.timeMark.timeRefs(db.timeID())
-	live := false
 	for _, timeID := range timeIDs {
 		db.mu.RLock()
 		block, ok := db.timeBlocks[timeID]
@@ -219,16 +218,12 @@ func (db *DB) BlockIterator(f func(timeID int64, keys []uint64) (bool, error)) (
 		}
 		block.RUnlock()
 		if len(keys) == 0 {
-			if !live {
-				// no older time block needs the deleted keys of this block.
-				if err := db.releaseLog(timeID); err != nil && err != errEntryDoesNotExist {
-					return err
-				}
-				_, live = db.timeBlock(timeID)
+			// the time block has nothing but deleted keys.
+			if err := db.releaseLog(timeID); err != nil && err != errEntryDoesNotExist {
+				return err
 			}
 			continue
 		}
-		live = true
 		if stop, err := f(int64(timeID), keys); stop || err != nil {
 			return err
 		}
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index 373a05d..4e279b3 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -266,7 +266,7 @@ func (db *DB) tinyCommit(tinyLog *_TinyLog) error {
 	return nil
 }
 
-// deletesPending tells if the block has deleted keys of a more recent time block that is not released.
+// deletesPending tells if the block has deleted keys of another time block that is not released.
 func (db *DB) deletesPending(timeID _TimeID, block *_Block) bool {
 	for ik, off := range block.records {
 		if ik.delFlag == 0 {
@@ -277,7 +277,7 @@ func (db *DB) deletesPending(timeID _TimeID, block *_Block) bool {
 			continue
 		}
 		ID := _TimeID(binary.LittleEndian.Uint64(rawTimeID[:8]))
-		if ID <= timeID {
+		if ID == timeID {
 			continue
 		}
 		if _, ok := db.timeBlock(ID); ok {
diff --git a/memdb/recovery.go b/memdb/recovery.go
index 673f944..41c2f8d 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -68,6 +68,10 @@ func (db *DB) startRecovery() error {
 				dBit := data[0]
 				key := binary.LittleEndian.Uint64(data[1:9])
 				logData = logData[dataLen:]
+				if putID, ok := timeIDs[key]; ok && dBit == 1 && len(data) >= 9+8 {
+					// deleted key refers to the time block the key is recovered to.
+					binary.LittleEndian.PutUint64(data[9:], uint64(putID))
+				}
 				remove(key)
 				if err := block.put(iKey(dBit == 1, key), data[9:]); err != nil {
 					return false, err
@@ -94,7 +98,7 @@ func (db *DB) startRecovery() error {
 	recent := db.recentTimeIDs()
 	for i := len(recent) - 1; i >= 0; i-- {
 		if db.timeBlocks[recent[i]].count > 0 {
-			break
+			continue
 		}
 		if err := db.releaseLog(recent[i]); err != nil {
 			return err
@@ -108,7 +112,6 @@ func (db *DB) startRecovery() error {
 func (db *DB) All(f func(timeID int64, keys []uint64) (bool, error)) (err error) {
 	// Get timeIDs of timeBlock successfully committed to WAL.
 	timeIDs := db.internal.timeMark.allRefs()
-	live := false
 	for _, timeID := range timeIDs {
 		db.mu.RLock()
 		block, ok := db.timeBlocks[timeID]
@@ -125,16 +128,12 @@ func (db *DB) All(f func(timeID int64, keys []uint64) (bool, error)) (err error)
 		}
 		block.RUnlock()
 		if len(keys) == 0 {
-			if !live {
-				// no older time block needs the deleted keys of this block.
-				if err := db.releaseLog(timeID); err != nil && err != errEntryDoesNotExist {
-					return err
-				}
-				_, live = db.timeBlock(timeID)
+			// the time block has nothing but deleted keys.
+			if err := db.releaseLog(timeID); err != nil && err != errEntryDoesNotExist {
+				return err
 			}
 			continue
 		}
-		live = true
 		if stop, err := f(int64(timeID), keys); stop || err != nil {
 			return err
 		}
-- 
2.43.0


From 475e98c81bcc0d945e350eabda8ddb825d45e8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:33 +0000
Subject: [PATCH 27/51] fix: write the header of a new database at once

---
 db.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/db.go b/db.go
index 29a6de4..6674b0d 100644
--- a/db.go
+++ b/db.go
@@ -107,12 +107,11 @@ func Open(path string, opts ...Options) (*DB, error) {
 				version:   version,
 			},
 		}
-		if _, err = infoFile.extend(int64(fixed)); err != nil {
-			return nil, err
-		}
+		// the header is written at once so that an interrupted open does not leave half of it.
 		if err := infoFile.writeMarshalableAt(dbInfo, 0); err != nil {
 			return nil, err
 		}
+		infoFile.currSize()
 	}
 
 	if err := infoFile.readUnmarshalableAt(&dbInfo, fixed, 0); err != nil {
-- 
2.43.0


From 0adaeff82d77a156385b4535d7c141fc9b6a566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:15 +0000
Subject: [PATCH 28/51] fix: memdb: keep deleted keys logged until the logs of
 earlier time blocks are released

---
 memdb/batch.go       |   2 +-
 memdb/block.go       |   6 ++-
 memdb/db.go          |  23 ++++++----
 memdb/db_internal.go | 101 ++++++++++++++++++++++++++++++++++---------
 memdb/recovery.go    |  10 ++---
 memdb/tiny_log.go    |   2 +-
 6 files changed, 106 insertions(+), 38 deletions(-)

diff --git a/memdb/batch.go b/memdb/batch.go
index 10a1d27..558c5d8 100644
--- a/memdb/batch.go
+++ b/memdb/batch.go
@@ -41,7 +41,7 @@ func (b *Batch) newTinyLog() {
 		// time ID is used by a regular time block.
 		timeID = b.db.internal.logManager.newID()
 	}
-	b.db.addTimeBlock(timeID)
+	b.db.addTimeBlock(timeID, timeID)
 	b.tinyLog = &_TinyLog{id: timeID, _TimeID: timeID, managed: true, doneChan: make(chan struct{})}
 }
 
diff --git a/memdb/block.go b/memdb/block.go
index 77d9376..f53946c 100644
--- a/memdb/block.go
+++ b/memdb/block.go
@@ -42,8 +42,10 @@ type (
 		records      map[_Key]int64 // map[key]offset
 
 		timeRefs   []_TimeID
-		lastOffset int64 // last offset of block data written to the log
-		freed      bool  // block is released and its data must not be used
+		lastTime   _TimeID // time until entries are added to the block
+		lastOffset int64   // last offset of block data written to the log
+		emptied    bool    // all records are deleted but it is not persisted
+		freed      bool    // block is released and its data must not be used
 	}
 )
 
diff --git a/memdb/db.go b/memdb/db.go
index 590512c..d5d366a 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -20,6 +20,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"os"
+	"sort"
 	"sync"
 	"time"
 
@@ -202,6 +203,10 @@ func (db *DB) Get(key uint64) ([]byte, error) {
 func (db *DB) BlockIterator(f func(timeID int64, keys []uint64) (bool, error)) (err error) {
 	// Get timeBlocks successfully committed to WAL.
 	timeIDs := db.internal.timeMark.timeRefs(db.timeID())
+	// a time block is released after the blocks with the keys that are deleted in it.
+	sort.SliceStable(timeIDs[:], func(i, j int) bool {
+		return db.lastTime(timeIDs[i]) < db.lastTime(timeIDs[j])
+	})
 	for _, timeID := range timeIDs {
 		db.mu.RLock()
 		block, ok := db.timeBlocks[timeID]
@@ -241,7 +246,9 @@ func (db *DB) Delete(key uint64) error {
 	}
 
 	found := false
-	for _, timeID := range db.recentTimeIDs() {
+	timeIDs := db.recentTimeIDs()
+	for i := len(timeIDs) - 1; i >= 0; i-- {
+		timeID := timeIDs[i]
 		block, ok := db.timeBlock(timeID)
 		if !ok {
 			continue
@@ -254,17 +261,17 @@ func (db *DB) Delete(key uint64) error {
 		}
 		found = true
 		block.delete(key)
-		empty := len(block.records) == 0
+		block.emptied = len(block.records) == 0 && past && db.internal.timeMark.released(timeID)
+		emptied := block.emptied
 		block.Unlock()
 		// add deleted key to new time block to persist deleted entry to the WAL.
-		if err := db.move(timeID, key); err != nil {
+		newTimeID, err := db.move(timeID, key)
+		if err != nil {
 			return err
 		}
-		// release timeblock from the WAL if all records are deleted.
-		if empty && past && db.internal.timeMark.released(timeID) {
-			if err := db.releaseLog(timeID); err != nil && err != errEntryDoesNotExist {
-				return err
-			}
+		if emptied {
+			// release timeblock from the WAL as all records are deleted, after the deleted key is persisted.
+			db.addEmptied(newTimeID, timeID)
 		}
 	}
 	if !found {
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index 4e279b3..5eaa42e 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -64,6 +64,9 @@ type _DB struct {
 	timeRef    _TimeID
 	logManager *_TinyLogManager
 
+	// time blocks to release once the log of a time block with the deleted keys is written.
+	emptied map[_TimeID][]_TimeID
+
 	// buffer pool
 	buffer *bpool.BufferPool
 
@@ -118,15 +121,17 @@ func (db *DB) cap() float64 {
 	return db.internal.buffer.Capacity()
 }
 
-func (db *DB) addTimeBlock(timeID _TimeID) (ok bool) {
+// addTimeBlock adds time block for entries added until the last time.
+func (db *DB) addTimeBlock(timeID, lastTime _TimeID) (ok bool) {
 	db.mu.Lock()
 	defer db.mu.Unlock()
 	if db.timeBlocks == nil {
 		// db is closed.
 		return false
 	}
-	if _, ok := db.timeBlocks[timeID]; !ok {
-		db.timeBlocks[timeID] = &_Block{data: db.internal.buffer.Get(), records: make(map[_Key]int64)}
+	block, ok := db.timeBlocks[timeID]
+	if !ok {
+		db.timeBlocks[timeID] = &_Block{lastTime: lastTime, data: db.internal.buffer.Get(), records: make(map[_Key]int64)}
 		// time IDs in use by the readers are not modified.
 		timeIDs := append(make([]_TimeID, 0, len(db.timeIDs)+1), db.timeIDs...)
 		timeIDs = append(timeIDs, timeID)
@@ -136,10 +141,24 @@ func (db *DB) addTimeBlock(timeID _TimeID) (ok bool) {
 		db.timeIDs = timeIDs
 		return true
 	}
+	if lastTime > block.lastTime {
+		block.lastTime = lastTime
+	}
 
 	return false
 }
 
+// lastTime returns the time until entries are added to the time block.
+func (db *DB) lastTime(timeID _TimeID) _TimeID {
+	db.mu.RLock()
+	defer db.mu.RUnlock()
+	if b, ok := db.timeBlocks[timeID]; ok {
+		return b.lastTime
+	}
+
+	return timeID
+}
+
 func (db *DB) timeBlock(timeID _TimeID) (*_Block, bool) {
 	db.mu.RLock()
 	defer db.mu.RUnlock()
@@ -169,7 +188,7 @@ func (db *DB) put(ikey _Key, data []byte) (_TimeID, error) {
 			}
 			// the current time block is released, start it over.
 			if timeID == db.timeID() {
-				db.addTimeBlock(timeID)
+				db.addTimeBlock(timeID, timeID+_TimeID(db.opts.timeBlockDuration))
 			}
 			continue
 		}
@@ -191,14 +210,38 @@ func (db *DB) put(ikey _Key, data []byte) (_TimeID, error) {
 }
 
 // move moves the entry to the new block
-func (db *DB) move(timeID _TimeID, key uint64) error {
+func (db *DB) move(timeID _TimeID, key uint64) (_TimeID, error) {
 	rawTimeID := make([]byte, 8)
 	binary.LittleEndian.PutUint64(rawTimeID[:8], uint64(timeID))
 
 	// add deleted key to new time block to persist deleted entry to the WAL.
-	_, err := db.put(iKey(true, key), rawTimeID)
+	return db.put(iKey(true, key), rawTimeID)
+}
 
-	return err
+// addEmptied adds time block to release after the log of the new time block is written.
+func (db *DB) addEmptied(newTimeID, timeID _TimeID) {
+	db.mu.Lock()
+	defer db.mu.Unlock()
+	if db.internal.emptied == nil {
+		db.internal.emptied = make(map[_TimeID][]_TimeID)
+	}
+	db.internal.emptied[newTimeID] = append(db.internal.emptied[newTimeID], timeID)
+}
+
+// releaseEmptied releases time blocks those have all records deleted and deleted keys are persisted.
+func (db *DB) releaseEmptied(timeIDs []_TimeID) error {
+	for _, timeID := range timeIDs {
+		if block, ok := db.timeBlock(timeID); ok {
+			block.Lock()
+			block.emptied = false
+			block.Unlock()
+		}
+		if err := db.releaseLog(timeID); err != nil && err != errEntryDoesNotExist {
+			return err
+		}
+	}
+
+	return nil
 }
 
 // tinyWrite writes tiny log to the WAL.
@@ -254,10 +297,26 @@ func (db *DB) tinyWrite(tinyLog *_TinyLog) error {
 func (db *DB) tinyCommit(tinyLog *_TinyLog) error {
 	defer tinyLog.abort()
 
+	db.mu.RLock()
+	emptied := db.internal.emptied[tinyLog.timeID()]
+	db.mu.RUnlock()
 	if err := db.tinyWrite(tinyLog); err != nil {
 		tinyLog.err = err
 		return err
 	}
+	if len(emptied) > 0 {
+		db.mu.Lock()
+		if rest := db.internal.emptied[tinyLog.timeID()][len(emptied):]; len(rest) > 0 {
+			db.internal.emptied[tinyLog.timeID()] = rest
+		} else {
+			delete(db.internal.emptied, tinyLog.timeID())
+		}
+		db.mu.Unlock()
+		if err := db.releaseEmptied(emptied); err != nil {
+			tinyLog.err = err
+			return err
+		}
+	}
 
 	if !tinyLog.managed {
 		db.internal.timeMark.release(tinyLog.timeID())
@@ -266,21 +325,21 @@ func (db *DB) tinyCommit(tinyLog *_TinyLog) error {
 	return nil
 }
 
-// deletesPending tells if the block has deleted keys of another time block that is not released.
+// deletesPending tells if the block has deleted keys and there is an earlier time block that is not released.
 func (db *DB) deletesPending(timeID _TimeID, block *_Block) bool {
-	for ik, off := range block.records {
-		if ik.delFlag == 0 {
-			continue
+	deletes := block.emptied
+	for ik := range block.records {
+		if ik.delFlag != 0 {
+			deletes = true
+			break
 		}
-		rawTimeID, err := block.get(off)
-		if err != nil || len(rawTimeID) < 8 {
-			continue
-		}
-		ID := _TimeID(binary.LittleEndian.Uint64(rawTimeID[:8]))
-		if ID == timeID {
-			continue
-		}
-		if _, ok := db.timeBlock(ID); ok {
+	}
+	if !deletes {
+		return false
+	}
+	lastTime := db.lastTime(timeID)
+	for _, ID := range db.recentTimeIDs() {
+		if ID != timeID && db.lastTime(ID) <= lastTime && db.internal.timeMark.released(ID) {
 			return true
 		}
 	}
@@ -302,7 +361,7 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 		return errEntryDoesNotExist
 	}
 	if db.deletesPending(timeID, block) {
-		// log of the block is released after the logs of the deleted keys.
+		// log of the block is released after the earlier logs, those may have the deleted keys.
 		for ik := range block.records {
 			if ik.delFlag == 0 {
 				block.delete(ik.key)
diff --git a/memdb/recovery.go b/memdb/recovery.go
index 41c2f8d..93c1baa 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -43,6 +43,10 @@ func (db *DB) startRecovery() error {
 	err = r.Iterator(func(ID int64) (ok bool, err error) {
 		l := r.Count()
 		timeID := _TimeID(time.Unix(0, ID).UTC().Truncate(db.opts.logInterval).UnixNano())
+		if dur := _TimeID(db.opts.timeBlockDuration); dur > 0 && timeID%dur == 0 {
+			// time ID is used by a regular time block.
+			timeID++
+		}
 		for i := uint32(0); i < l; i++ {
 			logData, ok, err := r.Next()
 			if err != nil {
@@ -54,7 +58,7 @@ func (db *DB) startRecovery() error {
 			}
 
 			db.internal.timeMark.add(timeID)
-			db.addTimeBlock(timeID)
+			db.addTimeBlock(timeID, _TimeID(ID))
 			block := db.timeBlocks[timeID]
 			block.timeRefs = append(block.timeRefs, _TimeID(ID))
 			recovered := int64(0)
@@ -68,10 +72,6 @@ func (db *DB) startRecovery() error {
 				dBit := data[0]
 				key := binary.LittleEndian.Uint64(data[1:9])
 				logData = logData[dataLen:]
-				if putID, ok := timeIDs[key]; ok && dBit == 1 && len(data) >= 9+8 {
-					// deleted key refers to the time block the key is recovered to.
-					binary.LittleEndian.PutUint64(data[9:], uint64(putID))
-				}
 				remove(key)
 				if err := block.put(iKey(dBit == 1, key), data[9:]); err != nil {
 					return false, err
diff --git a/memdb/tiny_log.go b/memdb/tiny_log.go
index 1964e11..331037c 100644
--- a/memdb/tiny_log.go
+++ b/memdb/tiny_log.go
@@ -139,7 +139,7 @@ func (p *_TinyLogManager) newID() _TimeID {
 func (p *_TinyLogManager) newTinyLog() {
 	ID := p.newID()
 	timeID := _TimeID(time.Unix(0, int64(ID)).UTC().Truncate(p.opts.blockDuration).UnixNano())
-	p.db.addTimeBlock(timeID)
+	p.db.addTimeBlock(timeID, timeID+_TimeID(p.opts.blockDuration))
 	p.db.internal.timeMark.add(timeID)
 	atomic.StoreInt64(&p.currentID, int64(timeID))
 	p.tinyLog = &_TinyLog{id: ID, _TimeID: timeID, managed: false, doneChan: make(chan struct{})}
-- 
2.43.0


From b9f4048f7af4090c43b89ca7f28827ffe7b9e7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:36 +0000
Subject: [PATCH 29/51] fix: wal: a log file that claims no data does not stop
 the recovery

---
 wal/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wal/file.go b/wal/file.go
index cbeecef..fb97863 100644
--- a/wal/file.go
+++ b/wal/file.go
@@ -144,11 +144,11 @@ func (fs *_FileStore) read(timeID int64, data *bpool.Buffer) _LogInfo {
 	}
 
 	fi, err := f.Stat()
-	if err != nil || fi.Size() < int64(logHeaderSize)+int64(info.size) {
+	if err != nil || info.size == 0 || fi.Size() < int64(logHeaderSize)+int64(info.size) {
 		f.Close()
 		os.Rename(log, corruptPath(fs.dirName, timeID))
 
-		// log was truncated, return nil
+		// log was truncated or it has no entries, return nil
 		return _LogInfo{}
 	}
 
-- 
2.43.0


From c6e52300f23b7d64e40f9188bc75dc3374f7dd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:29 +0000
Subject: [PATCH 30/51] fix: consistent hash starts from a valid arrangement
 when some blocks are unused

InitConsistent left the successor and location of unused blocks at zero, so
after a block was added and another one removed a lookup could run forever.
---
 hash/consistent.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hash/consistent.go b/hash/consistent.go
index fa3299f..a3a08f7 100644
--- a/hash/consistent.go
+++ b/hash/consistent.go
@@ -41,8 +41,8 @@ func InitConsistent(blocks, used int) *Consistent {
 		R: make([]uint16, blocks-used, blocks),
 		N: uint16(used),
 	}
-	for b := uint16(0); b < uint16(used); b++ {
-		c.K[b], c.W[b], c.L[b] = b, b, b
+	for b := 0; b < blocks; b++ {
+		c.K[b], c.W[b], c.L[b] = uint16(b), uint16(b), uint16(b)
 	}
 	for b, r := uint16(blocks)-1, 0; b >= uint16(used); b, r = b-1, r+1 {
 		c.A[b], c.R[r] = b, b
-- 
2.43.0


From 176dae360c6820176269e1c7e1ca5bae04deda84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:38 +0000
Subject: [PATCH 31/51] fix: server mac keeps its input and takes payloads of
 any length

Decrypt wrote the plain text over its input, Encrypt panicked for payloads
shorter than the epoch and derived a wrong nonce when it had to append.
---
 server/internal/pkg/crypto/mac.go | 32 ++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/server/internal/pkg/crypto/mac.go b/server/internal/pkg/crypto/mac.go
index 4b62bdb..73d9e83 100644
--- a/server/internal/pkg/crypto/mac.go
+++ b/server/internal/pkg/crypto/mac.go
@@ -26,7 +26,8 @@ import (
 
 const (
 	EpochSize     = 4
-	MessageOffset = EpochSize + 4
+	signatureSize = 4
+	MessageOffset = EpochSize + signatureSize
 )
 
 // MAC has the ability to encrypt and decrypt (short) messages as long as they
@@ -77,11 +78,16 @@ func Signature(value uint32) []byte {
 // Encrypt encrypts src and appends to dst, returning the
 // resulting byte slice
 func (m *MAC) Encrypt(dst, src []byte) []byte {
+	sig := Signature(hash.New(src))
+	if len(src) < EpochSize {
+		// src is too short to provide the epoch, it is sealed as a whole using a zero epoch.
+		nonce := append(append(append([]byte{}, m.salt...), make([]byte, EpochSize)...), sig...)
+		return m.parent.Seal(append(dst, sig...), nonce, src, nil)
+	}
 	//Copy first 4 bytes epoch from source
+	nonce := append(append(append([]byte{}, m.salt...), src[:EpochSize]...), sig...)
 	dst = append(dst, src[:EpochSize]...)
-	h := hash.New(src)
-	dst = append(dst, Signature(h)...)
-	nonce := append(m.salt, dst[:MessageOffset]...)
+	dst = append(dst, sig...)
 	return m.parent.Seal(dst, nonce, src[EpochSize:], nil)
 }
 
@@ -94,12 +100,20 @@ func (m *MAC) Decrypt(dst, src []byte) ([]byte, error) {
 		return dst, errors.New("Authentication failed.")
 	}
 
-	nonce := append(m.salt, src[:MessageOffset]...)
-	dst, err := m.parent.Open(dst, nonce, src[MessageOffset:], nil)
+	sigOff := EpochSize
+	epoch := src[:EpochSize]
+	if len(src) < m.Overhead()+EpochSize {
+		// src was too short to provide the epoch and it was sealed using a zero epoch.
+		sigOff = 0
+		epoch = make([]byte, EpochSize)
+	}
+	sealed := src[sigOff+signatureSize:]
+	nonce := append(append(append([]byte{}, m.salt...), epoch...), src[sigOff:sigOff+signatureSize]...)
+	// Append epoch to dst at the beginning
+	out := append(dst, src[:sigOff]...)
+	out, err := m.parent.Open(out, nonce, sealed, nil)
 	if err != nil {
 		return dst, errors.New("Authentication failed.")
 	}
-	// Append epoch to dst at the begining
-	dst = append(src[:EpochSize], dst...)
-	return dst, nil
+	return out, nil
 }
-- 
2.43.0


From bf30c4968a0b3a12f1a04ede4c53db5a6413c878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:28 +0000
Subject: [PATCH 32/51] fix: utp: a packet is read whole and cannot claim
 memory it does not send

A negative or huge length in a header made the reader panic or allocate up
to 2 GB, the bodies of pings and disconnects were left in the stream and
read as the next packet, and an acknowledged ping was read as a ping.
---
 server/internal/net/message.go | 11 +++++------
 server/utp/connect.go          |  4 +++-
 server/utp/message.go          | 21 +++++++++++++++++++--
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/server/internal/net/message.go b/server/internal/net/message.go
index 5c38aa7..7954867 100644
--- a/server/internal/net/message.go
+++ b/server/internal/net/message.go
@@ -46,14 +46,9 @@ func Read(r io.Reader) (MessagePack, error) {
 		// return &utp.Pingreq{}, nil
 		fmt.Println("message::Read: Invalid zero-length packet type ", fh.MessageType)
 		return nil, fmt.Errorf("message::Read: Invalid zero-length packet type %d", fh.MessageType)
-	case utp.PINGREQ:
-		return &utp.Pingreq{}, nil
-	case utp.DISCONNECT:
-		return &utp.Disconnect{}, nil
 	}
 
-	rawMsg := make([]byte, fh.MessageLength)
-	_, err := io.ReadFull(r, rawMsg)
+	rawMsg, err := utp.ReadN(r, fh.MessageLength)
 	if err != nil {
 		return nil, err
 	}
@@ -76,6 +71,10 @@ func Read(r io.Reader) (MessagePack, error) {
 		pack = &utp.Subscribe{}
 	case utp.UNSUBSCRIBE:
 		pack = &utp.Unsubscribe{}
+	case utp.PINGREQ:
+		pack = &utp.Pingreq{}
+	case utp.DISCONNECT:
+		pack = &utp.Disconnect{}
 	default:
 		return nil, fmt.Errorf("message::Read: Invalid zero-length packet type %d", fh.MessageType)
 	}
diff --git a/server/utp/connect.go b/server/utp/connect.go
index acd9d37..9df50b9 100644
--- a/server/utp/connect.go
+++ b/server/utp/connect.go
@@ -177,7 +177,9 @@ func (p *Pingreq) Info() Info {
 
 func (d *Disconnect) ToBinary() (bytes.Buffer, error) {
 	var buf bytes.Buffer
-	var disc pbx.Disconnect
+	disc := pbx.Disconnect{
+		MessageID: int32(d.MessageID),
+	}
 	rawMsg, err := proto.Marshal(&disc)
 	if err != nil {
 		return buf, err
diff --git a/server/utp/message.go b/server/utp/message.go
index 69d3f72..7dc3f8e 100644
--- a/server/utp/message.go
+++ b/server/utp/message.go
@@ -18,6 +18,7 @@ package utp
 
 import (
 	"bytes"
+	"errors"
 	"io"
 
 	"github.com/golang/protobuf/proto"
@@ -88,8 +89,8 @@ func (fh *FixedHeader) FromBinary(r io.Reader) error {
 	}
 
 	// read FixedHeader
-	head := make([]byte, fhSize)
-	if _, err := io.ReadFull(r, head); err != nil {
+	head, err := ReadN(r, fhSize)
+	if err != nil {
 		return err
 	}
 
@@ -105,6 +106,22 @@ func (fh *FixedHeader) FromBinary(r io.Reader) error {
 	return nil
 }
 
+// ReadN reads n bytes. The bytes are allocated as they arrive, so that
+// a peer cannot claim more memory than it sends.
+func ReadN(r io.Reader, n int) ([]byte, error) {
+	if n < 0 {
+		return nil, errors.New("message: negative length")
+	}
+	var buf bytes.Buffer
+	if _, err := io.CopyN(&buf, r, int64(n)); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		return nil, err
+	}
+	return buf.Bytes(), nil
+}
+
 func encodeLength(length int) []byte {
 	var encLength []byte
 	for {
-- 
2.43.0


From b023c2420897584a0ac842b011518808cb37d9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 33/51] fix: server: a topic without a name is a bad request

An empty topic in a request made the server panic, and the options of a
topic without a key were taken for a part of its name.
---
 server/internal/message/security/key.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/server/internal/message/security/key.go b/server/internal/message/security/key.go
index 6e081c7..2b26bfd 100644
--- a/server/internal/message/security/key.go
+++ b/server/internal/message/security/key.go
@@ -101,21 +101,23 @@ func ParseKey(text string) (topic *Topic) {
 	var fn splitFunc
 
 	parts := strings.FieldsFunc(text, fn.splitKey)
-	if parts == nil || len(parts) < 2 {
-		// topic.TopicType = TopicInvalid
-		topic.Topic = parts[0]
-		topic.Size = len(parts[0])
+	switch len(parts) {
+	case 0:
+		topic.TopicType = TopicInvalid
 		return topic
+	case 1:
+		topic.Topic = parts[0]
+	default:
+		topic.Key = parts[0]
+		topic.Topic = parts[1]
 	}
-	topic.Key = parts[0]
-	topic.Topic = parts[1]
-	parts = strings.FieldsFunc(parts[1], fn.options)
-	l := len(parts)
-	if parts == nil || l < 1 {
+	topic.Size = strings.IndexFunc(topic.Topic, fn.options)
+	if topic.Size < 0 {
+		topic.Size = len(topic.Topic)
+	}
+	if topic.Size == 0 {
 		topic.TopicType = TopicInvalid
-		return topic
 	}
-	topic.Size = len(parts[0])
 
 	return topic
 }
-- 
2.43.0


From 2d159c6407dfaaf18168fee1fabe7ec4a06a16e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 34/51] fix: server: taking a message ID next to a resumed one
 does not deadlock

---
 server/internal/message/messageids.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/internal/message/messageids.go b/server/internal/message/messageids.go
index efd508b..671f517 100644
--- a/server/internal/message/messageids.go
+++ b/server/internal/message/messageids.go
@@ -61,8 +61,11 @@ func (mids *MessageIds) NextID(pktType utp.MessageType) MID {
 	mids.Lock()
 	defer mids.Unlock()
 	mids.id++
-	if _, ok := mids.resume[mids.id]; ok {
-		mids.NextID(pktType)
+	for {
+		if _, ok := mids.resume[mids.id]; !ok {
+			break
+		}
+		mids.id++
 	}
 	mids.index[mids.id] = pktType
 	return mids.id
-- 
2.43.0


From e76b1808c7da561c7530d76c8469869d97750419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:11 +0000
Subject: [PATCH 35/51] fix: server: a client ID is not accepted because it
 shares four characters with a cached one

The cache of contracts was looked up by four characters of the text before
the client ID was authenticated, so any text with these characters was let
in, and two clients could be given each other's contract.
---
 server/internal/hdl_conn.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 7c1beb9..0f885d2 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -28,7 +28,6 @@ import (
 	"github.com/unit-io/unitdb/server/internal/message"
 	"github.com/unit-io/unitdb/server/internal/message/security"
 	lp "github.com/unit-io/unitdb/server/internal/net"
-	"github.com/unit-io/unitdb/server/internal/pkg/crypto"
 	"github.com/unit-io/unitdb/server/internal/pkg/log"
 	"github.com/unit-io/unitdb/server/internal/pkg/stats"
 	"github.com/unit-io/unitdb/server/internal/pkg/uid"
@@ -315,14 +314,14 @@ func (c *_Conn) onConnect(clientID []byte) (uid.ID, *types.Error) {
 	start := time.Now()
 	defer log.ErrLogger.Debug().Str("context", "conn.onConnect").Int64("duration", time.Since(start).Nanoseconds()).Msg("")
 	var clientid = uid.ID{}
-	if clientID != nil && len(clientID) > c.service.mac.Overhead() {
-		if contract, ok := c.service.cache.Load(crypto.SignatureToUint32(clientID[crypto.EpochSize:crypto.MessageOffset])); ok {
-			clientid, err := uid.CachedClientID(contract.(uint32))
-			if err != nil {
-				return nil, types.ErrUnauthorized
-			}
-			return clientid, nil
+	// the whole client Id is the key of the cache, as it is decoded in place it is copied.
+	key := string(clientID)
+	if contract, ok := c.service.cache.Load(key); ok {
+		clientid, err := uid.CachedClientID(contract.(uint32))
+		if err != nil {
+			return nil, types.ErrUnauthorized
 		}
+		return clientid, nil
 	}
 
 	clientid, err := uid.Decode(clientID, c.service.mac)
@@ -338,8 +337,7 @@ func (c *_Conn) onConnect(clientID []byte) (uid.ID, *types.Error) {
 
 	//do not cache primary client Id
 	if !clientid.IsPrimary() {
-		cid := []byte(clientid.Encode(c.service.mac))
-		c.service.cache.LoadOrStore(crypto.SignatureToUint32(cid[crypto.EpochSize:crypto.MessageOffset]), clientid.Contract())
+		c.service.cache.LoadOrStore(key, clientid.Contract())
 	}
 
 	return clientid, nil
-- 
2.43.0


From acd9a58a0ac7b8280787db341ce56ae6d44c6e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:50 +0000
Subject: [PATCH 36/51] fix: server: a topic without a security key can be
 unsubscribed

Subscribe generated a key for such a topic and unsubscribe did not, so an
insecure client kept receiving messages after its UNSUBSCRIBE was
acknowledged.
---
 server/internal/conn.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index 0f8fd83..af58122 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -176,18 +176,23 @@ func (c *_Conn) SendRawBytes(buf []byte) bool {
 	return true
 }
 
+// subscriptionKey returns the key of a subscription, a topic without a security key has a key of its own.
+func (c *_Conn) subscriptionKey(topic *security.Topic) (string, error) {
+	if topic.Key != "" {
+		return topic.Key, nil
+	}
+	return security.GenerateKey(c.clientID.Contract(), topic.Topic, security.AllowNone)
+}
+
 // subscribe subscribes to a particular topic.
 func (c *_Conn) subscribe(subMsg utp.Subscribe, topic *security.Topic, sub *utp.Subscription) (err error) {
 	c.Lock()
 	defer c.Unlock()
 
-	key := string(topic.Key)
-	if key == "" {
-		key, err = security.GenerateKey(c.clientID.Contract(), topic.Topic, security.AllowNone)
-		if err != nil {
-			log.ErrLogger.Err(err).Str("context", "conn.subscribe")
-			return err
-		}
+	key, err := c.subscriptionKey(topic)
+	if err != nil {
+		log.ErrLogger.Err(err).Str("context", "conn.subscribe")
+		return err
 	}
 	if exists := c.subs.Exist(key); exists && !subMsg.IsForwarded && Globals.Cluster.isRemoteContract(fmt.Sprint(c.clientID.Contract())) {
 		// The contract is handled by a remote node. Forward message to it.
@@ -223,7 +228,11 @@ func (c *_Conn) unsubscribe(unsubMsg utp.Unsubscribe, topic *security.Topic) (er
 	c.Lock()
 	defer c.Unlock()
 
-	key := string(topic.Key)
+	key, err := c.subscriptionKey(topic)
+	if err != nil {
+		log.ErrLogger.Err(err).Str("context", "conn.unsubscribe")
+		return err
+	}
 	// Remove the subscription from stats and if there's no more subscriptions, notify everyone.
 	if last, messageID := c.subs.Decrement(topic.Topic[:topic.Size], key); last {
 		// Unsubscribe the subscriber
-- 
2.43.0


From 52d3a4d73bfe10eed902e4bebef1e7061aaced1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 37/51] fix: server: a client that disconnects neither blocks
 nor stops the server

Messages were sent on channels that the closing connection had closed, which
panics, the batches were iterated while they were changed, and the reader
and everyone who published to the connection waited for a timeout, with the
subscriptions still in place.
---
 server/internal/batch.go    | 16 ++++++++++++----
 server/internal/conn.go     | 18 ++++++++++++++----
 server/internal/hdl_conn.go | 16 ++++++++--------
 3 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/server/internal/batch.go b/server/internal/batch.go
index dcd6986..33aba4d 100644
--- a/server/internal/batch.go
+++ b/server/internal/batch.go
@@ -93,6 +93,12 @@ func (m *batchManager) close() {
 func (m *batchManager) add(delay int32, pubMsg *utp.PublishMessage) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	select {
+	case <-m.stop:
+		// the queue is closed or about to be closed.
+		return
+	default:
+	}
 	timeID := m.TimeID(delay)
 	b, ok := m.batchGroup[timeID]
 	if !ok {
@@ -128,27 +134,27 @@ func (m *batchManager) publishLoop(interval time.Duration) {
 		select {
 		case <-m.stop:
 			timeNow := timeID(TimeNow().UnixNano())
+			m.mu.Lock()
 			for timeID, batch := range m.batchGroup {
 				if timeID < timeNow {
-					m.mu.Lock()
 					m.push(batch)
 					delete(m.batchGroup, timeID)
-					m.mu.Unlock()
 				}
 			}
 			close(m.publishQueue)
+			m.mu.Unlock()
 
 			return
 		case <-publishC:
 			timeNow := timeID(TimeNow().UnixNano())
+			m.mu.Lock()
 			for timeID, batch := range m.batchGroup {
 				if timeID < timeNow {
-					m.mu.Lock()
 					m.push(batch)
 					delete(m.batchGroup, timeID)
-					m.mu.Unlock()
 				}
 			}
+			m.mu.Unlock()
 		}
 	}
 }
@@ -196,6 +202,7 @@ func (m *batchManager) publish(c *_Conn, publishWaitTimeout time.Duration) {
 
 			select {
 			case c.pub <- pub:
+			case <-c.closeC:
 			case <-time.After(publishWaitTimeout):
 				// b.r.setError(errors.New("publish timeout error occurred"))
 			}
@@ -208,6 +215,7 @@ func (m *batchManager) publish(c *_Conn, publishWaitTimeout time.Duration) {
 				store.Log.PersistOutbound(uint32(c.connID), pub)
 				select {
 				case c.pub <- pub:
+				case <-c.closeC:
 				case <-time.After(publishWaitTimeout):
 					// b.r.setError(errors.New("publish timeout error occurred"))
 				}
diff --git a/server/internal/conn.go b/server/internal/conn.go
index af58122..97c0168 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -149,6 +149,8 @@ func (c *_Conn) SendMessage(msg *message.Message) bool {
 	// Acknowledge the publication
 	select {
 	case c.pub <- pub:
+	case <-c.closeC:
+		return false
 	case <-time.After(publishWaitTimeout):
 		return false
 	}
@@ -156,6 +158,14 @@ func (c *_Conn) SendMessage(msg *message.Message) bool {
 	return true
 }
 
+// enqueue queues an outbound message, it is dropped if the connection is closed.
+func (c *_Conn) enqueue(msg lp.MessagePack) {
+	select {
+	case c.send <- msg:
+	case <-c.closeC:
+	}
+}
+
 // Send forwards raw bytes to the underlying client.
 func (c *_Conn) SendRawBytes(buf []byte) bool {
 	if c == nil {
@@ -292,7 +302,7 @@ func (c *_Conn) publish(pub utp.Publish, topic *security.Topic, pubMsg *utp.Publ
 					}
 					// persist outbound
 					store.Log.PersistOutbound(uint32(sub.sessID), &pub)
-					sub.send <- notify
+					sub.enqueue(notify)
 				// Subscriber's DeliveryMode EXPRESS
 				case 0:
 					if !sub.SendMessage(msg) {
@@ -342,7 +352,7 @@ func (c *_Conn) resume(prefix uint32) {
 					FlowControl: utp.NOTIFY,
 					MessageID:   pub.MessageID,
 				}
-				c.send <- notify
+				c.enqueue(notify)
 			default:
 				store.Log.Delete(k)
 			}
@@ -407,6 +417,8 @@ func (c *_Conn) close() error {
 
 	// Signal all goroutines.
 	close(c.closeC)
+	// The reader does not notice the signal while it waits for the next message.
+	c.socket.SetReadDeadline(time.Now())
 	c.closeW.Wait()
 	// Unsubscribe from everything, no need to lock since each Unsubscribe is
 	// already locked. Locking the 'Close()' would result in a deadlock.
@@ -422,8 +434,6 @@ func (c *_Conn) close() error {
 	Globals.connCache.delete(c.connID)
 	defer log.ConnLogger.Info().Str("context", "conn.close").Int64("connid", int64(c.connID)).Msg("conn closed")
 	Globals.Cluster.connGone(c)
-	close(c.send)
-
 	c.batchManager.close()
 
 	// Decrement the connection counter
diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 0f885d2..0091880 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -112,7 +112,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			FlowControl: utp.ACKNOWLEDGE,
 			Message:     rawAck.Bytes(),
 		}
-		c.send <- ack
+		c.enqueue(ack)
 
 		if err == types.ErrInvalidClientID {
 			c.sendClientID(clientID.Encode(c.service.mac))
@@ -176,7 +176,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			return nil
 		}
 
-		c.send <- ack
+		c.enqueue(ack)
 	// An attempt to subscribe to a topic.
 	case utp.SUBSCRIBE:
 		m := *inMsg.(*utp.Subscribe)
@@ -199,7 +199,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			return nil
 		}
 
-		c.send <- ack
+		c.enqueue(ack)
 
 	// An attempt to unsubscribe from a topic.
 	case utp.UNSUBSCRIBE:
@@ -221,7 +221,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			return nil
 		}
 
-		c.send <- ack
+		c.enqueue(ack)
 
 	// Ping response, respond appropriately.
 	case utp.PINGREQ:
@@ -229,7 +229,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			MessageType: utp.PINGREQ,
 			FlowControl: utp.ACKNOWLEDGE,
 		}
-		c.send <- ack
+		c.enqueue(ack)
 
 	case utp.PUBLISH:
 		m := *inMsg.(*utp.Publish)
@@ -252,7 +252,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 			}
 			switch msg.(type) {
 			case *utp.Publish:
-				c.send <- msg
+				c.enqueue(msg)
 			}
 		case utp.RECEIPT:
 			comp := &utp.ControlMessage{
@@ -261,7 +261,7 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 				MessageID:   ctrlMsg.MessageID,
 			}
 			c.storeOutbound(comp)
-			c.send <- comp
+			c.enqueue(comp)
 		}
 	}
 
@@ -480,7 +480,7 @@ func (c *_Conn) acknowledge(pub utp.Publish) *types.Error {
 		FlowControl: utp.ACKNOWLEDGE,
 		MessageID:   pub.MessageID,
 	}
-	c.send <- ack
+	c.enqueue(ack)
 	return nil
 }
 
-- 
2.43.0


From 51eac164696651b9340ab20a6bb63e49287a91fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 38/51] fix: server: publishing needs a key with write
 permission

Any request was checked for read permission, so a read-only key could
publish and a write-only key could not.
---
 server/internal/hdl_conn.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 0091880..044a226 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -355,7 +355,7 @@ func (c *_Conn) onRelay(req *utp.RelayRequest) *types.Error {
 	}
 
 	if !c.insecure {
-		if _, err := c.onSecureRequest(topic); err != nil {
+		if _, err := c.onSecureRequest(topic, security.AllowRead); err != nil {
 			return err
 		}
 	}
@@ -390,7 +390,7 @@ func (c *_Conn) onSubscribe(subMsg utp.Subscribe, sub *utp.Subscription) *types.
 	}
 
 	if !c.insecure {
-		if _, err := c.onSecureRequest(topic); err != nil {
+		if _, err := c.onSecureRequest(topic, security.AllowRead); err != nil {
 			return err
 		}
 	}
@@ -416,7 +416,7 @@ func (c *_Conn) onUnsubscribe(unsubMsg utp.Unsubscribe, sub *utp.Subscription) *
 	}
 
 	if !c.insecure {
-		if _, err := c.onSecureRequest(topic); err != nil {
+		if _, err := c.onSecureRequest(topic, security.AllowRead); err != nil {
 			return err
 		}
 	}
@@ -447,7 +447,7 @@ func (c *_Conn) onPublish(pub utp.Publish) *types.Error {
 		}
 
 		if !c.insecure {
-			wildcard, err := c.onSecureRequest(topic)
+			wildcard, err := c.onSecureRequest(topic, security.AllowWrite)
 			if err != nil {
 				return err
 			}
@@ -484,15 +484,15 @@ func (c *_Conn) acknowledge(pub utp.Publish) *types.Error {
 	return nil
 }
 
-func (c *_Conn) onSecureRequest(topic *security.Topic) (bool, *types.Error) {
+func (c *_Conn) onSecureRequest(topic *security.Topic, permission uint32) (bool, *types.Error) {
 	// Attempt to decode the key
 	key, err := security.DecodeKey(topic.Key)
 	if err != nil {
 		return false, types.ErrBadRequest
 	}
 
-	// Check if the key has the permission to read the topic
-	if !key.HasPermission(security.AllowRead) {
+	// Check if the key has the permission to read or to write the topic
+	if !key.HasPermission(permission) {
 		return false, types.ErrUnauthorized
 	}
 
-- 
2.43.0


From 194b3aa6bf64824251aa43241048829d3922f2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 39/51] fix: server: a request before the connect closes the
 connection

A subscribe, publish or relay as the first message dereferenced the missing
client ID, which ended the server. A second connect left the batches of the
first one behind.
---
 server/internal/hdl_conn.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 044a226..d147b4f 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -87,6 +87,19 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 		c.service.stats.PrecisionTiming("conn_time_ns", time.Since(start), stats.IntTag("status", status))
 	}()
 
+	// The first message is a connect, and there is just one. Forwarded messages come from a connected client.
+	switch inMsg.Type() {
+	case utp.CONNECT:
+		if c.clientID != nil {
+			return types.ErrBadRequest
+		}
+	case utp.PINGREQ, utp.DISCONNECT:
+	default:
+		if c.clientID == nil {
+			return types.ErrUnauthorized
+		}
+	}
+
 	switch inMsg.Type() {
 	// An attempt to connect.
 	case utp.CONNECT:
-- 
2.43.0


From 6e9186e41311ac7115814817a7866dab1c3278de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:02 +0000
Subject: [PATCH 40/51] fix: server: a session is resumed as often as the
 client returns, by its contract only

The messages of a session were dropped on resume depending on a bit of the
connection number, the second return of a client found the session of its
last connection instead of its own, and the session of another contract
could be resumed by its number.
---
 server/internal/conn.go     | 30 +++++++++++++++---------------
 server/internal/hdl_conn.go | 15 ++++++++-------
 2 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index 97c0168..bb1deb7 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -331,6 +331,11 @@ func (c *_Conn) publish(pub utp.Publish, topic *security.Topic, pubMsg *utp.Publ
 	return nil
 }
 
+// sessionKey returns the key of a session, the sessions of a contract are its own.
+func (c *_Conn) sessionKey(sessKey int32) uint64 {
+	return uint64(uint32(sessKey))<<32 | uint64(c.clientID.Contract())
+}
+
 // Load all stored messages and resend them to ensure DeliveryMode > 1,2 even after an application crash.
 func (c *_Conn) resume(prefix uint32) {
 	// contract is used as blockId and key prefix
@@ -341,22 +346,17 @@ func (c *_Conn) resume(prefix uint32) {
 			continue
 		}
 
-		// isKeyOutbound
-		if (k & (1 << 4)) == 0 {
-			switch msg.Type() {
-			case utp.PUBLISH:
-				pub := msg.(*utp.Publish)
-				c.MessageIds.ResumeID(message.MID(pub.MessageID))
-				notify := &utp.ControlMessage{
-					MessageType: utp.PUBLISH,
-					FlowControl: utp.NOTIFY,
-					MessageID:   pub.MessageID,
-				}
-				c.enqueue(notify)
-			default:
-				store.Log.Delete(k)
+		switch msg.Type() {
+		case utp.PUBLISH:
+			pub := msg.(*utp.Publish)
+			c.MessageIds.ResumeID(message.MID(pub.MessageID))
+			notify := &utp.ControlMessage{
+				MessageType: utp.PUBLISH,
+				FlowControl: utp.NOTIFY,
+				MessageID:   pub.MessageID,
 			}
-		} else {
+			c.enqueue(notify)
+		default:
 			store.Log.Delete(k)
 		}
 	}
diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index d147b4f..9e4a55b 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -151,20 +151,21 @@ func (c *_Conn) handler(inMsg lp.MessagePack) error {
 
 		// Take care of any messages in the store
 		sessID := c.sessID
-		if rawSess, err := store.Session.Get(uint64(sessKey)); err == nil {
-			sessID := binary.LittleEndian.Uint32(rawSess[:4])
+		if rawSess, err := store.Session.Get(c.sessionKey(sessKey)); err == nil && len(rawSess) >= 4 {
+			prefix := binary.LittleEndian.Uint32(rawSess[:4])
 			if !m.CleanSessFlag {
-				c.resume(sessID)
+				c.resume(prefix)
 			} else {
-				store.Log.Reset(sessID)
+				store.Log.Reset(prefix)
 			}
-			c.sessID = uid.LID(sessID)
+			sessID = uid.LID(prefix)
+			c.sessID = sessID
 		}
 		rawSess := make([]byte, 4)
 		binary.LittleEndian.PutUint32(rawSess[0:4], uint32(sessID))
-		store.Session.Put(uint64(sessKey), rawSess)
+		store.Session.Put(c.sessionKey(sessKey), rawSess)
 		if sessKey != int32(c.clientID.Epoch()) {
-			store.Session.Put(uint64(c.clientID.Epoch()), rawSess)
+			store.Session.Put(c.sessionKey(int32(c.clientID.Epoch())), rawSess)
 		}
 	case utp.DISCONNECT:
 		go c.clientDisconnect(errors.New("client initiated disconnect")) // no harm in calling this if the connection is already down (better than stopping!)
-- 
2.43.0


From 40eec9ab9f31c224c22b58f41afe8ba575f31afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 41/51] fix: server: a cached client ID keeps its epoch, and an
 error reply its message ID

The default session of a client is found by the epoch of its client ID, but
a cached ID was given a new one. The message ID of an error reply was
written to the error value that all connections share.
---
 server/internal/conn.go     |  5 +++--
 server/internal/hdl_conn.go | 10 +++-------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index bb1deb7..2653d2b 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -372,8 +372,9 @@ func (c *_Conn) sendClientID(clientidentifier string) {
 
 // notifyError notifies the connection about an error
 func (c *_Conn) notifyError(err *types.Error, messageID uint16) {
-	err.ID = int(messageID)
-	if b, err := json.Marshal(err); err == nil {
+	e := *err // the errors are shared
+	e.ID = int(messageID)
+	if b, err := json.Marshal(&e); err == nil {
 		c.SendMessage(&message.Message{
 			Topic:   "unitdb/error/",
 			Payload: b,
diff --git a/server/internal/hdl_conn.go b/server/internal/hdl_conn.go
index 9e4a55b..a10ee88 100644
--- a/server/internal/hdl_conn.go
+++ b/server/internal/hdl_conn.go
@@ -330,12 +330,8 @@ func (c *_Conn) onConnect(clientID []byte) (uid.ID, *types.Error) {
 	var clientid = uid.ID{}
 	// the whole client Id is the key of the cache, as it is decoded in place it is copied.
 	key := string(clientID)
-	if contract, ok := c.service.cache.Load(key); ok {
-		clientid, err := uid.CachedClientID(contract.(uint32))
-		if err != nil {
-			return nil, types.ErrUnauthorized
-		}
-		return clientid, nil
+	if clientid, ok := c.service.cache.Load(key); ok {
+		return clientid.(uid.ID), nil
 	}
 
 	clientid, err := uid.Decode(clientID, c.service.mac)
@@ -351,7 +347,7 @@ func (c *_Conn) onConnect(clientID []byte) (uid.ID, *types.Error) {
 
 	//do not cache primary client Id
 	if !clientid.IsPrimary() {
-		c.service.cache.LoadOrStore(key, clientid.Contract())
+		c.service.cache.LoadOrStore(key, clientid)
 	}
 
 	return clientid, nil
-- 
2.43.0


From 88e17ed0fa11e1bbc8169c5b5dd460ea4fef7e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:05 +0000
Subject: [PATCH 42/51] fix: server: a message is delivered under a message ID
 of the receiving connection

Messages were delivered and kept under the ID that the publisher chose, so
two publishers overwrote each other's messages, a publication without an ID
was announced and could not be received, each of several messages in one
publication announced all of them, and the security key of the publisher
was sent to the subscribers.
---
 server/internal/conn.go | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index 2653d2b..67d210d 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -128,21 +128,18 @@ func (c *_Conn) SendMessage(msg *message.Message) bool {
 		Topic:   msg.Topic,   // The topic for this message.
 		Payload: msg.Payload, // The payload for this message.
 	}
-	if msg.MessageID == 0 {
-		msg.MessageID = uint16(c.MessageIds.NextID(utp.PUBLISH))
-	}
-	pub := &utp.Publish{
-		MessageID:    msg.MessageID,    // The ID of the message
-		DeliveryMode: msg.DeliveryMode, // The delivery mode of the message
-		Messages:     []*utp.PublishMessage{pubMsg},
-	}
-
 	// Check batch, relay or delay delivery.
 	if msg.DeliveryMode == 2 || msg.Delay > 0 {
 		c.batchManager.add(msg.Delay, pubMsg)
 		return true
 	}
 
+	pub := &utp.Publish{
+		MessageID:    uint16(c.MessageIds.NextID(utp.PUBLISH)), // The ID of the message is unique in the connection
+		DeliveryMode: msg.DeliveryMode,                         // The delivery mode of the message
+		Messages:     []*utp.PublishMessage{pubMsg},
+	}
+
 	// persist outbound
 	store.Log.PersistOutbound(uint32(c.connID), pub)
 
@@ -276,9 +273,8 @@ func (c *_Conn) publish(pub utp.Publish, topic *security.Topic, pubMsg *utp.Publ
 		return err
 	}
 	msg := &message.Message{
-		MessageID: pub.MessageID,
-		Topic:     string(topic.Topic[:topic.Size]),
-		Payload:   pubMsg.Payload,
+		Topic:   string(topic.Topic[:topic.Size]),
+		Payload: pubMsg.Payload,
 	}
 	for _, subscription := range subscriptions {
 		msg.DeliveryMode = subscription[0]
@@ -286,22 +282,24 @@ func (c *_Conn) publish(pub utp.Publish, topic *security.Topic, pubMsg *utp.Publ
 		msg.Delay = int32(uid.LID(binary.LittleEndian.Uint32(subscription[5:9])))
 		sub := Globals.connCache.get(connID)
 		if sub != nil {
-			if msg.MessageID == 0 {
-				msg.MessageID = uint16(c.MessageIds.NextID(utp.PUBLISH))
-			}
 			switch pub.DeliveryMode {
 			// Publisher's DeliveryMode RELIABLE or BATCH
 			case 1, 2:
 				switch msg.DeliveryMode {
 				// Subscriber's DeliveryMode RELIABLE or BATCH
 				case 1, 2:
+					outMsg := &utp.Publish{
+						MessageID:    uint16(sub.MessageIds.NextID(utp.PUBLISH)),
+						DeliveryMode: pub.DeliveryMode,
+						Messages:     []*utp.PublishMessage{{Topic: msg.Topic, Payload: msg.Payload}},
+					}
 					notify := &utp.ControlMessage{
 						MessageType: utp.PUBLISH,
 						FlowControl: utp.NOTIFY,
-						MessageID:   msg.MessageID,
+						MessageID:   outMsg.MessageID,
 					}
 					// persist outbound
-					store.Log.PersistOutbound(uint32(sub.sessID), &pub)
+					store.Log.PersistOutbound(uint32(sub.sessID), outMsg)
 					sub.enqueue(notify)
 				// Subscriber's DeliveryMode EXPRESS
 				case 0:
-- 
2.43.0


From 9344068720ad990c5f892c24641e0c28667581d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:49 +0000
Subject: [PATCH 43/51] fix: a subscription to another topic with the same key
 was ignored

---
 server/internal/conn.go | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index 67d210d..cff16fe 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -183,12 +183,10 @@ func (c *_Conn) SendRawBytes(buf []byte) bool {
 	return true
 }
 
-// subscriptionKey returns the key of a subscription, a topic without a security key has a key of its own.
-func (c *_Conn) subscriptionKey(topic *security.Topic) (string, error) {
-	if topic.Key != "" {
-		return topic.Key, nil
-	}
-	return security.GenerateKey(c.clientID.Contract(), topic.Topic, security.AllowNone)
+// subscriptionKey returns the key of a subscription. It includes the name of the topic since a security key
+// is valid for more than one topic if it has wildcards.
+func subscriptionKey(topic *security.Topic) string {
+	return topic.Key + "/" + topic.Topic[:topic.Size]
 }
 
 // subscribe subscribes to a particular topic.
@@ -196,11 +194,7 @@ func (c *_Conn) subscribe(subMsg utp.Subscribe, topic *security.Topic, sub *utp.
 	c.Lock()
 	defer c.Unlock()
 
-	key, err := c.subscriptionKey(topic)
-	if err != nil {
-		log.ErrLogger.Err(err).Str("context", "conn.subscribe")
-		return err
-	}
+	key := subscriptionKey(topic)
 	if exists := c.subs.Exist(key); exists && !subMsg.IsForwarded && Globals.Cluster.isRemoteContract(fmt.Sprint(c.clientID.Contract())) {
 		// The contract is handled by a remote node. Forward message to it.
 		if err := Globals.Cluster.routeToContract(&subMsg, topic, message.SUBSCRIBE, &message.Message{}, c); err != nil {
@@ -235,11 +229,7 @@ func (c *_Conn) unsubscribe(unsubMsg utp.Unsubscribe, topic *security.Topic) (er
 	c.Lock()
 	defer c.Unlock()
 
-	key, err := c.subscriptionKey(topic)
-	if err != nil {
-		log.ErrLogger.Err(err).Str("context", "conn.unsubscribe")
-		return err
-	}
+	key := subscriptionKey(topic)
 	// Remove the subscription from stats and if there's no more subscriptions, notify everyone.
 	if last, messageID := c.subs.Decrement(topic.Topic[:topic.Size], key); last {
 		// Unsubscribe the subscriber
-- 
2.43.0


From a6892ef44121e06c4684f098af901870a607ec0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:17 +0000
Subject: [PATCH 44/51] fix: a refused subscription was counted as subscribed

---
 server/internal/conn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/internal/conn.go b/server/internal/conn.go
index cff16fe..5d05e2f 100644
--- a/server/internal/conn.go
+++ b/server/internal/conn.go
@@ -214,6 +214,7 @@ func (c *_Conn) subscribe(subMsg utp.Subscribe, topic *security.Topic, sub *utp.
 			binary.LittleEndian.PutUint32(payload[1:5], uint32(c.connID))
 			binary.LittleEndian.PutUint32(payload[5:9], uint32(sub.Delay))
 			if err = store.Subscription.Put(c.clientID.Contract(), messageId, topic.Topic, payload); err != nil {
+				c.subs.Decrement(topic.Topic[:topic.Size], key)
 				log.ErrLogger.Err(err).Str("context", "conn.subscribe").Str("topic", string(topic.Topic[:topic.Size])).Int64("connid", int64(c.connID)).Msg("unable to subscribe to topic") // Unable to subscribe
 				return err
 			}
-- 
2.43.0


From 82cb982c97db78a2b99a41c72de8804b6657030f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:50 +0000
Subject: [PATCH 45/51] fix: a sync that fails leaves the files and the count
 as they were

Blocks that a failed sync had overwritten kept the new entries, or had them
marked as deleted so that the next sync left the messages out and freed
them, and the count was lowered by entries that had not been counted.
---
 block_writer.go       | 42 ++++++++++++++++++--------
 db_sync.go            |  9 ++----
 time_window_writer.go | 70 ++++++++++++++++++-------------------------
 3 files changed, 61 insertions(+), 60 deletions(-)

diff --git a/block_writer.go b/block_writer.go
index e410162..9416e58 100644
--- a/block_writer.go
+++ b/block_writer.go
@@ -31,15 +31,15 @@ type _BlockWriter struct {
 	lease  *_Lease
 	buffer *bpool.Buffer
 
-	indexLeases                     map[uint64]struct{} //map[seq]struct
-	dataLeases                      map[int64]uint32    // map[offset]size
+	undo                            map[int64][]byte // map[offset]block as it was before it is overwritten
+	dataLeases                      map[int64]uint32 // map[offset]size
 	indexFile, dataFile             *_File
 	offset, indexOffset, dataOffset int64
 }
 
 func newBlockWriter(fs *_FileSet, lease *_Lease, buf *bpool.Buffer) (*_BlockWriter, error) {
 	w := &_BlockWriter{blockIdx: -1, indexBlocks: make(map[int32]_IndexBlock), fs: fs, lease: lease, buffer: buf}
-	w.indexLeases = make(map[uint64]struct{})
+	w.undo = make(map[int64][]byte)
 	w.dataLeases = make(map[int64]uint32)
 
 	indexFile, err := fs.getFile(_FileDesc{fileType: typeIndex})
@@ -143,10 +143,10 @@ func (w *_BlockWriter) append(e _IndexEntry) (err error) {
 	if off != -1 {
 		buf := make([]byte, dataLen)
 		copy(buf, e.cache)
+		w.dataLeases[off] = uint32(dataLen)
 		if _, err = w.dataFile.WriteAt(buf, off); err != nil {
 			return err
 		}
-		w.dataLeases[off] = uint32(dataLen)
 	} else {
 		off = w.offset
 		offset, err := w.buffer.Extend(int64(dataLen))
@@ -160,10 +160,6 @@ func (w *_BlockWriter) append(e _IndexEntry) (err error) {
 	}
 	e.msgOffset = off
 
-	if b.leased {
-		w.indexLeases[e.seq] = struct{}{}
-	}
-
 	b.entries[b.entryIdx] = e
 	b.dirty = true
 	b.entryIdx++
@@ -191,6 +187,9 @@ func (w *_BlockWriter) write() error {
 			return err
 		}
 		off := blockOffset(bIdx)
+		if err := w.keep(off); err != nil {
+			return err
+		}
 		buf := b.marshalBinary()
 		if _, err := w.indexFile.WriteAt(buf, off); err != nil {
 			return err
@@ -221,6 +220,9 @@ func (w *_BlockWriter) write() error {
 			if err := b.validation(bIdx); err != nil {
 				return err
 			}
+			if err := w.keep(off); err != nil {
+				return err
+			}
 			buf := b.marshalBinary()
 			if _, err := w.indexFile.WriteAt(buf, off); err != nil {
 				return err
@@ -235,6 +237,9 @@ func (w *_BlockWriter) write() error {
 			if err := b.validation(bIdx); err != nil {
 				return err
 			}
+			if err := w.keep(blockOffset(bIdx)); err != nil {
+				return err
+			}
 			w.buffer.Write(b.marshalBinary())
 			b.dirty = false
 			w.indexBlocks[bIdx] = b
@@ -283,15 +288,28 @@ func blockRange(idx []int32) ([][]int32, error) {
 	return parts, nil
 }
 
+// keep keeps a block of the index file until the sync is complete.
+func (w *_BlockWriter) keep(off int64) error {
+	if _, ok := w.undo[off]; ok || off >= w.indexOffset {
+		return nil
+	}
+	buf, err := w.indexFile.slice(off, off+int64(blockSize))
+	if err != nil {
+		return err
+	}
+	w.undo[off] = buf
+	return nil
+}
+
 func (w *_BlockWriter) rollback() error {
 	// rollback data leases
 	for off, size := range w.dataLeases {
 		w.lease.freeBlock(off, size)
 	}
 
-	// roll back index leases
-	for seq := range w.indexLeases {
-		if _, _, err := w.del(seq); err != nil {
+	// rollback index blocks that are overwritten
+	for off, buf := range w.undo {
+		if _, err := w.indexFile.WriteAt(buf, off); err != nil {
 			return err
 		}
 	}
@@ -307,7 +325,7 @@ func (w *_BlockWriter) reset() error {
 	w.dataOffset = w.dataFile.currSize()
 
 	// entries that are written are not rolled back.
-	w.indexLeases = make(map[uint64]struct{})
+	w.undo = make(map[int64][]byte)
 	w.dataLeases = make(map[int64]uint32)
 
 	return nil
diff --git a/db_sync.go b/db_sync.go
index ead75b4..4e96da7 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -106,13 +106,7 @@ func (db *_SyncHandle) abort() error {
 		return err
 	}
 
-	if err := db.blockWriter.abort(); err != nil {
-		return err
-	}
-
-	db.decount(uint64(db.syncInfo.count))
-
-	return nil
+	return db.blockWriter.abort()
 }
 
 func (db *DB) startSyncer(interval time.Duration) {
@@ -186,6 +180,7 @@ func (db *_SyncHandle) sync(recovery bool) error {
 
 	db.incount(uint64(db.syncInfo.count))
 	if err := db.DB.sync(); err != nil {
+		db.decount(uint64(db.syncInfo.count))
 		return err
 	}
 	if recovery {
diff --git a/time_window_writer.go b/time_window_writer.go
index dc72187..055d779 100644
--- a/time_window_writer.go
+++ b/time_window_writer.go
@@ -26,7 +26,7 @@ import (
 type _WindowWriter struct {
 	windowIdx int32
 	winBlocks map[int32]_WinBlock // map[windowIdx]winBlock
-	winLeases map[int32][]uint64  // map[blockIdx][]seq
+	undo      map[int64][]byte    // map[offset]block as it was before it is overwritten
 
 	fs      *_FileSet
 	buffer  *bpool.Buffer
@@ -36,7 +36,7 @@ type _WindowWriter struct {
 
 func newWindowWriter(fs *_FileSet, buf *bpool.Buffer) (*_WindowWriter, error) {
 	// offset zero is not a valid offset as it represents topic without any window blocks on disk.
-	w := &_WindowWriter{windowIdx: 0, winBlocks: make(map[int32]_WinBlock), winLeases: make(map[int32][]uint64), fs: fs, buffer: buf}
+	w := &_WindowWriter{windowIdx: 0, winBlocks: make(map[int32]_WinBlock), undo: make(map[int64][]byte), fs: fs, buffer: buf}
 	winFile, err := fs.getFile(_FileDesc{fileType: typeTimeWindow})
 	if err != nil {
 		return nil, err
@@ -50,36 +50,6 @@ func newWindowWriter(fs *_FileSet, buf *bpool.Buffer) (*_WindowWriter, error) {
 	return w, nil
 }
 
-func (w *_WindowWriter) del(seq uint64, winIdx int32) error {
-	r := _WindowReader{winFile: w.winFile, offset: winBlockOffset(winIdx)}
-	b, err := r.readWindowBlock()
-	if err != nil {
-		return err
-	}
-	entryIdx := -1
-	for i := 0; i < int(b.entryIdx); i++ {
-		e := b.entries[i]
-		if e.sequence == seq { //record exist in db.
-			entryIdx = i
-			break
-		}
-	}
-	if entryIdx == -1 {
-		return nil // no entry in db to delete.
-	}
-	b.dirty = true
-	b.entryIdx--
-
-	i := entryIdx
-	for ; i < entriesPerWindowBlock-1; i++ {
-		b.entries[i] = b.entries[i+1]
-	}
-	b.entries[i] = _WinEntry{}
-
-	w.winBlocks[winIdx] = b
-	return nil
-}
-
 // append appends window entries to buffer.
 func (w *_WindowWriter) append(topicHash uint64, off int64, wEntries _WindowEntries) (newOff int64, err error) {
 	var b _WinBlock
@@ -118,9 +88,6 @@ func (w *_WindowWriter) append(topicHash uint64, off int64, wEntries _WindowEntr
 			wIdx = w.windowIdx
 			b = _WinBlock{topicHash: topicHash, next: next, olderSeq: b.maxSeq()}
 		}
-		if b.leased {
-			w.winLeases[wIdx] = append(w.winLeases[wIdx], we.sequence)
-		}
 		b.entries[b.entryIdx] = _WinEntry{sequence: we.sequence, expiresAt: we.expiresAt}
 		b.dirty = true
 		b.entryIdx++
@@ -136,6 +103,9 @@ func (w *_WindowWriter) write() error {
 			continue
 		}
 		off := winBlockOffset(bIdx)
+		if err := w.keep(off); err != nil {
+			return err
+		}
 		if _, err := w.winFile.WriteAt(b.marshalBinary(), off); err != nil {
 			return err
 		}
@@ -165,6 +135,9 @@ func (w *_WindowWriter) write() error {
 			bIdx := blocks[0]
 			off := winBlockOffset(bIdx)
 			b := w.winBlocks[bIdx]
+			if err := w.keep(off); err != nil {
+				return err
+			}
 			buf := b.marshalBinary()
 			if _, err := w.winFile.WriteAt(buf, off); err != nil {
 				return err
@@ -177,6 +150,9 @@ func (w *_WindowWriter) write() error {
 		blockOff := winBlockOffset(blocks[0])
 		for bIdx := blocks[0]; bIdx <= blocks[1]; bIdx++ {
 			b := w.winBlocks[bIdx]
+			if err := w.keep(winBlockOffset(bIdx)); err != nil {
+				return err
+			}
 			w.buffer.Write(b.marshalBinary())
 			b.dirty = false
 			w.winBlocks[bIdx] = b
@@ -194,12 +170,24 @@ func (w *_WindowWriter) write() error {
 	return nil
 }
 
+// keep keeps a block of the window file until the sync is complete.
+func (w *_WindowWriter) keep(off int64) error {
+	if _, ok := w.undo[off]; ok || off >= w.offset {
+		return nil
+	}
+	buf, err := w.winFile.slice(off, off+int64(blockSize))
+	if err != nil {
+		return err
+	}
+	w.undo[off] = buf
+	return nil
+}
+
 func (w *_WindowWriter) rollback() error {
-	for bIdx, seqs := range w.winLeases {
-		for _, seq := range seqs {
-			if err := w.del(seq, bIdx); err != nil {
-				return err
-			}
+	// rollback window blocks that are overwritten
+	for off, buf := range w.undo {
+		if _, err := w.winFile.WriteAt(buf, off); err != nil {
+			return err
 		}
 	}
 	return nil
@@ -209,7 +197,7 @@ func (w *_WindowWriter) reset() error {
 	w.buffer.Reset()
 	w.offset = w.winFile.currSize()
 	// entries that are written are not rolled back.
-	w.winLeases = make(map[int32][]uint64)
+	w.undo = make(map[int64][]byte)
 
 	return nil
 }
-- 
2.43.0


From c1da618ddfa38787916f57662572b4aefa275736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:26 +0000
Subject: [PATCH 46/51] fix: a database that cannot be recovered is not opened

An error while entries were written during the recovery was dropped, and the
database was opened without the messages that were still in the log.
---
 db.go       | 5 ++++-
 recovery.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/db.go b/db.go
index 6674b0d..b0297f6 100644
--- a/db.go
+++ b/db.go
@@ -202,7 +202,10 @@ func Open(path string, opts ...Options) (*DB, error) {
 
 	if err := db.recoverLog(); err != nil {
 		// if unable to recover db then close db.
-		panic(fmt.Sprintf("Unable to recover db on sync error %v. Closing db...", err))
+		logger.Error().Err(err).Str("context", "db.recoverLog")
+		db.internal.mem.Close()
+		db.fs.close()
+		return nil, fmt.Errorf("unable to recover db on sync error: %v", err)
 	}
 
 	db.internal.syncHandle = _SyncHandle{DB: db}
diff --git a/recovery.go b/recovery.go
index 63622dd..888aede 100644
--- a/recovery.go
+++ b/recovery.go
@@ -137,7 +137,10 @@ func (db *_SyncHandle) startRecovery() error {
 	if err != nil || err1 != nil {
 		db.syncInfo.syncComplete = false
 		db.abort()
-		return err1
+		if err == nil {
+			err = err1
+		}
+		return err
 	}
 
 	return db.recoverPending(pendingEntries)
-- 
2.43.0


From adc520dd37753a5810841a23c9eed770f886a676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:08 +0000
Subject: [PATCH 47/51] fix: memdb keeps a log that could not be written and
 writes it again

The log of a time block was dropped when writing it failed once. If it was the last log of
the block its entries were never logged and the block was never released, so that the
entries were lost even when the database was closed.
---
 memdb/db_internal.go |  4 ----
 memdb/tiny_log.go    | 28 ++++++++++++++++++++++------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index 5eaa42e..2433442 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -295,13 +295,10 @@ func (db *DB) tinyWrite(tinyLog *_TinyLog) error {
 
 // tinyCommit commits tiny log to DB.
 func (db *DB) tinyCommit(tinyLog *_TinyLog) error {
-	defer tinyLog.abort()
-
 	db.mu.RLock()
 	emptied := db.internal.emptied[tinyLog.timeID()]
 	db.mu.RUnlock()
 	if err := db.tinyWrite(tinyLog); err != nil {
-		tinyLog.err = err
 		return err
 	}
 	if len(emptied) > 0 {
@@ -313,7 +310,6 @@ func (db *DB) tinyCommit(tinyLog *_TinyLog) error {
 		}
 		db.mu.Unlock()
 		if err := db.releaseEmptied(emptied); err != nil {
-			tinyLog.err = err
 			return err
 		}
 	}
diff --git a/memdb/tiny_log.go b/memdb/tiny_log.go
index 331037c..c903be2 100644
--- a/memdb/tiny_log.go
+++ b/memdb/tiny_log.go
@@ -95,6 +95,7 @@ type (
 		stopped    bool
 		writeQueue chan *_TinyLog
 		logQueue   chan *_TinyLog
+		failed     []*_TinyLog // logs that could not be committed, oldest first
 		stop       chan struct{}
 		stopOnce   sync.Once
 		stopWg     sync.WaitGroup
@@ -308,17 +309,32 @@ func (p *_TinyLogManager) commitLoop() {
 						p.stopWg.Done()
 						return
 					}
-					if err := p.db.tinyCommit(tinyLog); err != nil {
-						fmt.Println("logPool.tinyCommit: error ", err)
-					}
+					p.commit(tinyLog)
 				}
 			}
 		case tinyLog := <-p.logQueue:
 			if tinyLog != nil {
-				if err := p.db.tinyCommit(tinyLog); err != nil {
-					fmt.Println("logPool.tinyCommit: error ", err)
-				}
+				p.commit(tinyLog)
+			}
+		}
+	}
+}
+
+// commit commits the tiny log after the logs that could not be committed before. A log that could not be
+// committed is kept to be committed later, except the log of a batch as its error is returned from the batch.
+func (p *_TinyLogManager) commit(tinyLog *_TinyLog) {
+	defer tinyLog.abort()
+
+	p.failed = append(p.failed, tinyLog)
+	for len(p.failed) > 0 {
+		if err := p.db.tinyCommit(p.failed[0]); err != nil {
+			fmt.Println("logPool.tinyCommit: error ", err)
+			if tinyLog.managed {
+				tinyLog.err = err
+				p.failed = p.failed[:len(p.failed)-1]
 			}
+			return
 		}
+		p.failed = p.failed[1:]
 	}
 }
-- 
2.43.0


From f9529b4c2d415baeea1f4ccbb162964f3981dd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:33 +0000
Subject: [PATCH 48/51] fix: memdb writes its log while memory is short, too

---
 memdb/db_internal.go |  4 ----
 memdb/tiny_log.go    | 33 +++++++++------------------------
 2 files changed, 9 insertions(+), 28 deletions(-)

diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index 2433442..42d3efe 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -117,10 +117,6 @@ func (db *DB) timeID() _TimeID {
 	return db.internal.logManager.timeID()
 }
 
-func (db *DB) cap() float64 {
-	return db.internal.buffer.Capacity()
-}
-
 // addTimeBlock adds time block for entries added until the last time.
 func (db *DB) addTimeBlock(timeID, lastTime _TimeID) (ok bool) {
 	db.mu.Lock()
diff --git a/memdb/tiny_log.go b/memdb/tiny_log.go
index c903be2..8a0adfc 100644
--- a/memdb/tiny_log.go
+++ b/memdb/tiny_log.go
@@ -249,30 +249,15 @@ func (p *_TinyLogManager) writeLoop(interval time.Duration) {
 
 			return
 		case <-writeC:
-			// check buffer pool backoff and capacity for excess memory usage
-			// before writing tiny log to the WAL.
-			switch {
-			case p.db.cap() > 0.7:
-				block, ok := p.db.timeBlock(p.db.timeID())
-				if !ok {
-					break
-				}
-				block.RLock()
-				size := block.data.Size()
-				block.RUnlock()
-				if size < 1<<20 {
-					break
-				}
-				fallthrough
-			default:
-				p.mu.Lock()
-				// time ID is changed before the log is written so that
-				// no entry is put to the time block after its last log.
-				tinyLog := p.tinyLog
-				p.newTinyLog()
-				p.writeQueue <- tinyLog
-				p.mu.Unlock()
-			}
+			// the log is written, and the time block ended, while memory is short, too,
+			// otherwise entries are neither durable nor drained.
+			p.mu.Lock()
+			// time ID is changed before the log is written so that
+			// no entry is put to the time block after its last log.
+			tinyLog := p.tinyLog
+			p.newTinyLog()
+			p.writeQueue <- tinyLog
+			p.mu.Unlock()
 		}
 	}
 }
-- 
2.43.0


From 6e063db9ec0af05be7bbd975e985217d48c61938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:08 +0000
Subject: [PATCH 49/51] fix: read the statistics of a series from the durations
 recorded only

---
 metrics/sample.go                     | 30 ++++++++++++++-------------
 server/internal/pkg/metrics/sample.go | 30 ++++++++++++++-------------
 2 files changed, 32 insertions(+), 28 deletions(-)

diff --git a/metrics/sample.go b/metrics/sample.go
index 4b562c8..7da5a0f 100644
--- a/metrics/sample.go
+++ b/metrics/sample.go
@@ -85,49 +85,51 @@ func (s *_Sample) Reset() {
 }
 
 // Cumulative returns cumulative time of all sampled events.
-func (s *_Sample) Cumulative() time.Duration { return s.Times.cumulative() }
+func (s *_Sample) Cumulative() time.Duration { return s.Snapshot().Cumulative() }
 
 // HMean returns event duration harmonic mean.
-func (s *_Sample) HMean() time.Duration { return s.Times.hMean() }
+func (s *_Sample) HMean() time.Duration { return s.Snapshot().HMean() }
 
 // Avg returns average of number of events recorded.
-func (s *_Sample) Avg() time.Duration { return s.Times.avg() }
+func (s *_Sample) Avg() time.Duration { return s.Snapshot().Avg() }
 
 // P50 returns event duration nth percentiles.
-func (s *_Sample) P50() time.Duration { return s.Times[s.Times.Len()/2] }
+func (s *_Sample) P50() time.Duration { return s.Snapshot().P50() }
 
 // P75 returns event duration nth percentiles.
-func (s *_Sample) P75() time.Duration { return s.Times.p(0.75) }
+func (s *_Sample) P75() time.Duration { return s.Snapshot().P75() }
 
 // P95 returns event duration nth percentiles.
-func (s *_Sample) P95() time.Duration { return s.Times.p(0.95) }
+func (s *_Sample) P95() time.Duration { return s.Snapshot().P95() }
 
 // P99 returns event duration nth percentiles.
-func (s *_Sample) P99() time.Duration { return s.Times.p(0.99) }
+func (s *_Sample) P99() time.Duration { return s.Snapshot().P99() }
 
 // P999 returns event duration nth percentiles.
-func (s *_Sample) P999() time.Duration { return s.Times.p(0.999) }
+func (s *_Sample) P999() time.Duration { return s.Snapshot().P999() }
 
 // StdDev returns standard deviation.
-func (s *_Sample) StdDev() time.Duration { return s.Times.stdDev() }
+func (s *_Sample) StdDev() time.Duration { return s.Snapshot().StdDev() }
 
 // Long5p returns average of the longest 5% event durations.
-func (s *_Sample) Long5p() time.Duration { return s.Times.long5p() }
+func (s *_Sample) Long5p() time.Duration { return s.Snapshot().Long5p() }
 
 // Short5p returns average of the shortest 5% event durations.
-func (s *_Sample) Short5p() time.Duration { return s.Times.short5p() }
+func (s *_Sample) Short5p() time.Duration { return s.Snapshot().Short5p() }
 
 // Min returns lowest event duration.
-func (s *_Sample) Min() time.Duration { return s.Times.min() }
+func (s *_Sample) Min() time.Duration { return s.Snapshot().Min() }
 
 // Max returns highest event duration.
-func (s *_Sample) Max() time.Duration { return s.Times.max() }
+func (s *_Sample) Max() time.Duration { return s.Snapshot().Max() }
 
 // Range returns event duration range (Max-Min).
-func (s *_Sample) Range() time.Duration { return s.Times.srange() }
+func (s *_Sample) Range() time.Duration { return s.Snapshot().Range() }
 
 // AddTime adds a time.Duration to metrics.
 func (s *_Sample) AddTime(t time.Duration) {
+	s.Lock()
+	defer s.Unlock()
 	s.Times[(atomic.AddUint64(&s.Count, 1)-1)%s.Size] = t
 }
 
diff --git a/server/internal/pkg/metrics/sample.go b/server/internal/pkg/metrics/sample.go
index ea9413a..f12c74a 100644
--- a/server/internal/pkg/metrics/sample.go
+++ b/server/internal/pkg/metrics/sample.go
@@ -84,49 +84,51 @@ func (s *sample) Reset() {
 }
 
 // Cumulative returns cumulative time of all sampled events.
-func (s *sample) Cumulative() time.Duration { return s.Times.cumulative() }
+func (s *sample) Cumulative() time.Duration { return s.Snapshot().Cumulative() }
 
 // HMean returns event duration harmonic mean.
-func (s *sample) HMean() time.Duration { return s.Times.hMean() }
+func (s *sample) HMean() time.Duration { return s.Snapshot().HMean() }
 
 // Avg returns average of number of events recorded.
-func (s *sample) Avg() time.Duration { return s.Times.avg() }
+func (s *sample) Avg() time.Duration { return s.Snapshot().Avg() }
 
 // P50 returns event duration nth percentiles ..
-func (s *sample) P50() time.Duration { return s.Times[s.Times.Len()/2] }
+func (s *sample) P50() time.Duration { return s.Snapshot().P50() }
 
 // P75 returns event duration nth percentiles ..
-func (s *sample) P75() time.Duration { return s.Times.p(0.75) }
+func (s *sample) P75() time.Duration { return s.Snapshot().P75() }
 
 // P95 returns event duration nth percentiles ..
-func (s *sample) P95() time.Duration { return s.Times.p(0.95) }
+func (s *sample) P95() time.Duration { return s.Snapshot().P95() }
 
 // P99 returns event duration nth percentiles ..
-func (s *sample) P99() time.Duration { return s.Times.p(0.99) }
+func (s *sample) P99() time.Duration { return s.Snapshot().P99() }
 
 // P999 returns event duration nth percentiles ..
-func (s *sample) P999() time.Duration { return s.Times.p(0.999) }
+func (s *sample) P999() time.Duration { return s.Snapshot().P999() }
 
 // StdDev returns standard deviation.
-func (s *sample) StdDev() time.Duration { return s.Times.stdDev() }
+func (s *sample) StdDev() time.Duration { return s.Snapshot().StdDev() }
 
 // Long5p returns average of the longest 5% event durations.
-func (s *sample) Long5p() time.Duration { return s.Times.long5p() }
+func (s *sample) Long5p() time.Duration { return s.Snapshot().Long5p() }
 
 // Short5p returns average of the shortest 5% event durations.
-func (s *sample) Short5p() time.Duration { return s.Times.short5p() }
+func (s *sample) Short5p() time.Duration { return s.Snapshot().Short5p() }
 
 // Min returns lowest event duration.
-func (s *sample) Min() time.Duration { return s.Times.min() }
+func (s *sample) Min() time.Duration { return s.Snapshot().Min() }
 
 // Max returns highest event duration.
-func (s *sample) Max() time.Duration { return s.Times.max() }
+func (s *sample) Max() time.Duration { return s.Snapshot().Max() }
 
 //  Range returns event duration range (Max-Min).
-func (s *sample) Range() time.Duration { return s.Times.srange() }
+func (s *sample) Range() time.Duration { return s.Snapshot().Range() }
 
 // AddTime adds a time.Duration to metrics.
 func (s *sample) AddTime(t time.Duration) {
+	s.Lock()
+	defer s.Unlock()
 	s.Times[(atomic.AddUint64(&s.Count, 1)-1)%s.Size] = t
 }
 
-- 
2.43.0


From 6a0060fcb5156817b2a5ce7220695646623431fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:15 +0000
Subject: [PATCH 50/51] fix: answer the statistics of a series without
 durations with zero

---
 metrics/sample.go                     | 33 ++++++++++++++++++++++++++-
 server/internal/pkg/metrics/sample.go | 33 ++++++++++++++++++++++++++-
 2 files changed, 64 insertions(+), 2 deletions(-)

diff --git a/metrics/sample.go b/metrics/sample.go
index 7da5a0f..2cf6ab2 100644
--- a/metrics/sample.go
+++ b/metrics/sample.go
@@ -188,7 +188,7 @@ func (s *SampleSnapshot) HMean() time.Duration { return s.timeSlice.hMean() }
 func (s *SampleSnapshot) Avg() time.Duration { return s.timeSlice.avg() }
 
 // P50 returns event duration nth percentiles.
-func (s *SampleSnapshot) P50() time.Duration { return s.timeSlice[s.timeSlice.Len()/2] }
+func (s *SampleSnapshot) P50() time.Duration { return s.timeSlice.p50() }
 
 // P75 returns event duration nth percentiles.
 func (s *SampleSnapshot) P75() time.Duration { return s.timeSlice.p(0.75) }
@@ -245,6 +245,9 @@ func (ts _TimeSlice) cumulative() time.Duration {
 }
 
 func (ts _TimeSlice) hMean() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	var total float64
 
 	for _, t := range ts {
@@ -255,6 +258,9 @@ func (ts _TimeSlice) hMean() time.Duration {
 }
 
 func (ts _TimeSlice) avg() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	var total time.Duration
 	for _, t := range ts {
 		total += t
@@ -262,11 +268,24 @@ func (ts _TimeSlice) avg() time.Duration {
 	return time.Duration(int(total) / ts.Len())
 }
 
+func (ts _TimeSlice) p50() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
+	return ts[ts.Len()/2]
+}
+
 func (ts _TimeSlice) p(p float64) time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	return ts[int(float64(ts.Len())*p+0.5)-1]
 }
 
 func (ts _TimeSlice) stdDev() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	m := ts.avg()
 	s := 0.00
 
@@ -280,6 +299,9 @@ func (ts _TimeSlice) stdDev() time.Duration {
 }
 
 func (ts _TimeSlice) long5p() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	set := ts[int(float64(ts.Len())*0.95+0.5):]
 
 	if len(set) <= 1 {
@@ -297,6 +319,9 @@ func (ts _TimeSlice) long5p() time.Duration {
 }
 
 func (ts _TimeSlice) short5p() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	set := ts[:int(float64(ts.Len())*0.05+0.5)]
 
 	if len(set) <= 1 {
@@ -314,10 +339,16 @@ func (ts _TimeSlice) short5p() time.Duration {
 }
 
 func (ts _TimeSlice) min() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	return ts[0]
 }
 
 func (ts _TimeSlice) max() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	return ts[ts.Len()-1]
 }
 
diff --git a/server/internal/pkg/metrics/sample.go b/server/internal/pkg/metrics/sample.go
index f12c74a..d3bc13f 100644
--- a/server/internal/pkg/metrics/sample.go
+++ b/server/internal/pkg/metrics/sample.go
@@ -186,7 +186,7 @@ func (s *SampleSnapshot) HMean() time.Duration { return s.timeSlice.hMean() }
 func (s *SampleSnapshot) Avg() time.Duration { return s.timeSlice.avg() }
 
 // P50 returns event duration nth percentiles ..
-func (s *SampleSnapshot) P50() time.Duration { return s.timeSlice[s.timeSlice.Len()/2] }
+func (s *SampleSnapshot) P50() time.Duration { return s.timeSlice.p50() }
 
 // P75 returns event duration nth percentiles ..
 func (s *SampleSnapshot) P75() time.Duration { return s.timeSlice.p(0.75) }
@@ -243,6 +243,9 @@ func (ts timeSlice) cumulative() time.Duration {
 }
 
 func (ts timeSlice) hMean() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	var total float64
 
 	for _, t := range ts {
@@ -253,6 +256,9 @@ func (ts timeSlice) hMean() time.Duration {
 }
 
 func (ts timeSlice) avg() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	var total time.Duration
 	for _, t := range ts {
 		total += t
@@ -260,11 +266,24 @@ func (ts timeSlice) avg() time.Duration {
 	return time.Duration(int(total) / ts.Len())
 }
 
+func (ts timeSlice) p50() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
+	return ts[ts.Len()/2]
+}
+
 func (ts timeSlice) p(p float64) time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	return ts[int(float64(ts.Len())*p+0.5)-1]
 }
 
 func (ts timeSlice) stdDev() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	m := ts.avg()
 	s := 0.00
 
@@ -278,6 +297,9 @@ func (ts timeSlice) stdDev() time.Duration {
 }
 
 func (ts timeSlice) long5p() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	set := ts[int(float64(ts.Len())*0.95+0.5):]
 
 	if len(set) <= 1 {
@@ -295,6 +317,9 @@ func (ts timeSlice) long5p() time.Duration {
 }
 
 func (ts timeSlice) short5p() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	set := ts[:int(float64(ts.Len())*0.05+0.5)]
 
 	if len(set) <= 1 {
@@ -312,10 +337,16 @@ func (ts timeSlice) short5p() time.Duration {
 }
 
 func (ts timeSlice) min() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	return ts[0]
 }
 
 func (ts timeSlice) max() time.Duration {
+	if ts.Len() == 0 {
+		return 0
+	}
 	return ts[ts.Len()-1]
 }
 
-- 
2.43.0


From ccff8ca0ce30ee18955ff417eaf961cd313dcbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:21 +0000
Subject: [PATCH 51/51] fix: register series and histograms under their name

---
 metrics/metrics.go                     | 2 +-
 server/internal/pkg/metrics/metrics.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics/metrics.go b/metrics/metrics.go
index 46f51ba..314edec 100644
--- a/metrics/metrics.go
+++ b/metrics/metrics.go
@@ -113,7 +113,7 @@ func (m *StandardMetrics) register(name string, i interface{}) error {
 		return DuplicateMetric(name)
 	}
 	switch i.(type) {
-	case Counter, Gauge:
+	case Counter, Gauge, Histogram, TimeSeries:
 		m.metrics[name] = i
 	}
 	return nil
diff --git a/server/internal/pkg/metrics/metrics.go b/server/internal/pkg/metrics/metrics.go
index d0ce18e..94bec12 100644
--- a/server/internal/pkg/metrics/metrics.go
+++ b/server/internal/pkg/metrics/metrics.go
@@ -113,7 +113,7 @@ func (m *StandardMetrics) register(name string, i interface{}) error {
 		return DuplicateMetric(name)
 	}
 	switch i.(type) {
-	case Counter, Gauge:
+	case Counter, Gauge, Histogram, TimeSeries:
 		m.metrics[name] = i
 	}
 	return nil
-- 
2.43.0

