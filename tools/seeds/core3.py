_ns = {}
exec(open("/verif/tools/seeds/core1.py").read().split("\nSEEDS = [")[0], _ns)
D = _ns["D"]


def B(body, imports=""):
    s = D("\nfunc TestDemo(t *testing.T) {\n\tbubble(t, func(t *testing.T) {\n" + body + "\n\t})\n}\n")
    return imp(s, imports)


def imp(s, imports):
    for i in imports.split():
        s = s.replace('\t"github.com/unit-io/unitdb"\n', '\t"%s"\n\t"github.com/unit-io/unitdb"\n' % i, 1)
    return s


MD = "github.com/unit-io/unitdb/memdb"

SEEDS = [
    dict(id="c24", property="P02", edits=[("block_writer.go", "		w.blockIdx = int32(w.indexOffset / int64(blockSize))\n		// read final block", "		w.blockIdx = int32(w.indexOffset/int64(blockSize)) - 1\n		// read final block")],
         needs="messages put after a reopening in which no other sync took place",
         breaks="the first sync after a reopening overwrites the last index block, its messages are gone",
         demo=B('''
		d := dir(t)
		db := open(t, d)
		put(t, db, "a.b", "one")
		settle(t, db)
		db.Close()
		time.Sleep(time.Second)
		db = open(t, d)
		put(t, db, "a.b", "two")
		settle(t, db)
		if got := get(t, db, "a.b", 10); len(got) != 2 {
			t.Fatal(got)
		}
		db.Close()
''')),
    dict(id="c25", property="P03", edits=[
        ("block_writer.go", "	// write data blocks\n	if _, err := w.dataFile.write(w.buffer.Bytes()); err != nil {\n		return err\n	}\n\n	// Reset buffer before reusing it.\n", "	// data blocks are written once the index is in place.\n	data := append([]byte(nil), w.buffer.Bytes()...)\n\n	// Reset buffer before reusing it.\n"),
        ("block_writer.go", "		bufOff = w.buffer.Size()\n	}\n\n	return nil\n}\n\nfunc blockRange", "		bufOff = w.buffer.Size()\n	}\n\n	_, err = w.dataFile.write(data)\n	return err\n}\n\nfunc blockRange")],
         needs="a crash in a sync between the write of the index block and the write of the data",
         breaks="after the crash the index names data that was never written, and the entries of the log are taken as synced",
         demo=imp(D('''
// The process dies when a file of it grows beyond a limit, which the file of the messages does first.
func TestDemo(t *testing.T) {
	d := os.Getenv("DEMO_DB")
	if d != "" {
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 12500, Max: 12500}); err != nil {
			t.Fatal(err)
		}
		bubble(t, func(t *testing.T) {
			db := open(t, d)
			r := rand.New(rand.NewSource(1))
			for i := 0; i < 20; i++ {
				b := make([]byte, 1000)
				r.Read(b)
				copy(b, fmt.Sprintf("%02d", i))
				put(t, db, "a.b", string(b))
				time.Sleep(3 * time.Second)
				os.Stdout.WriteString("put\\n")
			}
		})
		return
	}
	d = dir(t)
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "DEMO_DB="+d)
	out, err := cmd.Output()
	n := strings.Count(string(out), "put\\n")
	if err == nil || n < 5 || n > 15 {
		t.Fatal(n, err)
	}
	bubble(t, func(t *testing.T) {
		time.Sleep(time.Hour)
		db := open(t, d)
		got := get(t, db, "a.b", 100)
		// the last one may be there or not
		if len(got) < n || len(got) > n+1 {
			t.Fatal(n, len(got))
		}
		for i := range got {
			if w := fmt.Sprintf("%02d", len(got)-1-i); !strings.HasPrefix(got[i], w) || len(got[i]) != 1000 {
				t.Fatal(i, w)
			}
		}
		db.Close()
	})
}
'''), "os/exec math/rand syscall")),
    dict(id="c26", property="P05", edits=[("hash/hash.go", "	n := (len(b) / 8) * 8\n", "	// long texts are told apart by their beginning.\n	if len(b) > 512 {\n		b = b[:512]\n	}\n	n := len(b) &^ 7\n")],
         needs="two topics with the same long part that differ only after its first 512 bytes",
         breaks="the two topics are taken for one",
         demo=B('''
		db := open(t, dir(t))
		a, b := 0, 0
		for i := 0; i < 40; i++ {
			x := []byte(strings.Repeat("x", 600) + strings.Repeat("y", 100))
			x[15*i+10] = 'z'
			put(t, db, string(x)+".b", fmt.Sprint(i))
			if n := len(get(t, db, string(x)+".b", 1000)); n == 1 {
				a++
			} else {
				b++
			}
		}
		if b != 0 {
			t.Fatal(a, b)
		}
		db.Close()
''')),
    dict(id="c27", property="P07", edits=[
        ("message/id.go", "	binary.LittleEndian.PutUint32(newid[4:8], contract)\n", "	// the low part of the contract is what is told apart.\n	binary.LittleEndian.PutUint32(newid[4:8], contract&0xffff)\n"),
        ("message/id.go", "		return uid.Time(id[0:4]) >= cutoff && binary.LittleEndian.Uint32(id[4:8]) == contract\n	}\n	return binary.LittleEndian.Uint32(id[4:8]) == contract\n", "		return uid.Time(id[0:4]) >= cutoff && binary.LittleEndian.Uint32(id[4:8]) == contract&0xffff\n	}\n	return binary.LittleEndian.Uint32(id[4:8]) == contract&0xffff\n"),
        ("hash/hash.go", "	binary.LittleEndian.PutUint32(salt[0:4], contract)\n", "	binary.LittleEndian.PutUint32(salt[0:4], contract&0xffff)\n"),
        ("message/topic.go", "		Hash:      contract,\n	}\n	parts := []Part{part}", "		Hash:      contract & 0xffff,\n	}\n	parts := []Part{part}"),
        ],
         needs="two contracts that agree in their low 16 bits, and a query with a wildcard or the same topic",
         breaks="the messages of one contract are returned to the other",
         demo=B('''
		db := open(t, dir(t))
		for _, q := range []string{"a.b", "a.*", "a..."} {
			if err := db.PutEntry(unitdb.NewEntry([]byte(q), []byte("one")).WithContract(0x10001)); err != nil {
				t.Fatal(err)
			}
		}
		for i, c := range []uint32{0x10001, 0x20001} {
			r, err := db.Get(unitdb.NewQuery([]byte("a.b")).WithContract(c).WithLimit(10))
			if err != nil || len(r) != 3-3*i {
				t.Fatal(i, err, len(r))
			}
		}
		db.Close()
''')),
    dict(id="c28", property="P09", edits=[
        ("message/id.go", "		return uid.Time(id[0:4]) >= cutoff &&", "		return uid.Time(id[0:4]) > cutoff &&")],
         needs="a query with a duration that reaches back exactly to the second in which a message was put",
         breaks="the message on the edge of the range is left out",
         demo=B('''
		db := open(t, dir(t))
		put(t, db, "a.b", "one")
		time.Sleep(10 * time.Second)
		r, err := db.Get(unitdb.NewQuery([]byte("a.b?last=10s")).WithLimit(10))
		if err != nil || len(r) != 1 {
			t.Fatal(err, len(r))
		}
		db.Close()
''')),
    dict(id="c29", property="P09", edits=[
        ("time_window_writer.go", "			b.cutoffTime = time.Now().Unix()\n", ""),
        ("time_window_writer.go", "		b.entries[b.entryIdx] = _WinEntry{sequence", "		if b.entryIdx == 0 {\n			// set approximate cutoff on winBlock.\n			b.cutoffTime = time.Now().Unix()\n		}\n		b.entries[b.entryIdx] = _WinEntry{sequence"),
        ("time_window.go", "		if b.cutoff(cutoff) {\n			return true, nil\n		}\n", ""),
        ("time_window.go", "		if b.topicHash != topicHash {\n			return true, nil\n		}\n", "		if b.topicHash != topicHash || b.cutoff(cutoff) {\n			return true, nil\n		}\n"),
        ],
         needs="a block of a topic that was begun before the range of the query and holds messages put within it",
         breaks="the messages of the block are not returned by a query with a duration",
         demo=B('''
		db := open(t, dir(t))
		put(t, db, "a.b", "one")
		settle(t, db)
		time.Sleep(time.Hour)
		put(t, db, "a.b", "two")
		settle(t, db)
		r, err := db.Get(unitdb.NewQuery([]byte("a.b?last=10m")).WithLimit(10))
		if err != nil || len(r) == 0 || string(r[0]) != "two" {
			t.Fatal(err, len(r))
		}
		db.Close()
''')),
    dict(id="c30", property="P14", edits=[
        ("file_unix.go", "	if err := os.Remove(fl.name); err != nil {\n		return err\n	}\n	return fl.f.Close()\n", "	if err := fl.f.Close(); err != nil {\n		return err\n	}\n	return os.Remove(fl.name)\n")],
         needs="one that opens the database between the two steps of the close of another, and a third one",
         breaks="the lock file of the second opener is removed, so that a third one opens the database at the same time",
         demo=D('''
func TestDemo(t *testing.T) {
	d := dir(t)
	var held, bad atomic.Int32
	var wg sync.WaitGroup
	stop := time.Now().Add(60 * time.Second)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(stop) && bad.Load() == 0 {
				db, err := unitdb.Open(d)
				if err != nil {
					continue
				}
				if held.Add(1) > 1 {
					bad.Add(1)
				}
				time.Sleep(time.Millisecond)
				held.Add(-1)
				func() {
					defer func() { recover() }()
					if err := db.Close(); err != nil {
						bad.Add(1)
					}
				}()
			}
		}()
	}
	wg.Wait()
	if bad.Load() != 0 {
		t.Fatal("opened twice")
	}
}
''').replace('"sync"\n', '"sync"\n	"sync/atomic"\n')),
    dict(id="c31", property="P17", edits=[
        ("db_internal.go", "	db.internal.mem.Close()\n\n	if err := db.writeInfo(); err != nil {\n		return err\n	}\n", "	db.internal.mem.Close()\n\n	// info is up to date if nothing was put.\n	if db.internal.meter.Puts.Count() > 0 {\n		if err := db.writeInfo(); err != nil {\n			return err\n		}\n	}\n")],
         needs="a database from which ids are taken but nothing is put before it is closed",
         breaks="the ids handed out are handed out again after the reopening",
         demo=B('''
		d := dir(t)
		db := open(t, d)
		put(t, db, "a.b", "one")
		settle(t, db)
		db.Close()
		time.Sleep(time.Second)
		seen := make(map[string]bool)
		for i := 0; i < 3; i++ {
			db = open(t, d)
			for j := 0; j < 3; j++ {
				id := db.NewID()
				// the last 8 bytes are the sequence
				if seen[string(id[8:])] {
					t.Fatal("again", id)
				}
				seen[string(id[8:])] = true
			}
			db.Close()
			time.Sleep(time.Second)
		}
''')),
    dict(id="c32", property="P17", edits=[
        ("db_internal.go", "	return atomic.AddUint64(&db.internal.dbInfo.sequence, 1)\n", "	seq := atomic.LoadUint64(&db.internal.dbInfo.sequence) + 1\n	atomic.StoreUint64(&db.internal.dbInfo.sequence, seq)\n	return seq\n")],
         needs="ids requested at the same time from several goroutines",
         breaks="two goroutines get the same id",
         demo=D('''
func TestDemo(t *testing.T) {
	db := open(t, dir(t))
	var mu sync.Mutex
	var wg sync.WaitGroup
	seen := make(map[string]bool)
	again := 0
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ids := make([][]byte, 0, 200000)
			for j := 0; j < 200000; j++ {
				ids = append(ids, db.NewID())
			}
			mu.Lock()
			defer mu.Unlock()
			for _, id := range ids {
				if seen[string(id[8:])] {
					again++
				}
				seen[string(id[8:])] = true
			}
		}()
	}
	wg.Wait()
	db.Close()
	if again > 0 {
		t.Fatal(again)
	}
}
''')),
    dict(id="c33", property="M01", edits=[
        ("memdb/batch.go", "	for _, timeID := range b.batchGroup {\n		b.db.internal.timeMark.add(timeID)\n		b.db.internal.timeMark.release(timeID)\n	}\n", "	if n := len(b.batchGroup); n > 0 {\n		b.db.internal.timeMark.add(b.batchGroup[n-1])\n		b.db.internal.timeMark.release(b.batchGroup[n-1])\n	}\n")],
         needs="a batch that is written in more than one part before it is committed",
         breaks="the parts before the last one are not committed, their entries are not found",
         demo=B('''
		db, err := memdb.Open(memdb.WithLogFilePath(dir(t)))
		if err != nil {
			t.Fatal(err)
		}
		err = db.Batch(func(b *memdb.Batch, done <-chan struct{}) error {
			b.Put(1, []byte("one"))
			if err := b.Write(); err != nil {
				return err
			}
			b.Put(2, []byte("two"))
			return nil
		})
		if err != nil {
			t.Fatal(err)
		}
		time.Sleep(3 * time.Second)
		n := 0
		db.BlockIterator(func(id int64, keys []uint64) (bool, error) {
			n += len(keys)
			return false, nil
		})
		if len(db.Keys()) != 2 || n != 2 {
			t.Fatal(db.Keys(), n)
		}
		db.Close()
''', MD)),
    dict(id="c34", property="M02", edits=[
        ("memdb/db_internal.go", "	block.lastOffset = blockSize\n", "	block.lastOffset = block.data.Size()\n")],
         needs="an entry put while the log of its block is written, and a crash or reopening before the block is drained",
         breaks="the entry is in no log and is lost",
         demo=imp(D('''
func TestDemo(t *testing.T) {
	lost := 0
	for round := 0; round < 12 && lost == 0; round++ {
		d := dir(t)
		db, err := memdb.Open(memdb.WithLogFilePath(d))
		if err != nil {
			t.Fatal(err)
		}
		var wg sync.WaitGroup
		val := bytes.Repeat([]byte("v"), 200)
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 20000; i++ {
					if _, err := db.Put(uint64(g*20000+i+1), val); err != nil {
						t.Error(err)
						return
					}
					if i%100 == 0 {
						time.Sleep(time.Millisecond)
					}
				}
			}(g)
		}
		wg.Wait()
		db.Close()
		db, err = memdb.Open(memdb.WithLogFilePath(d))
		if err != nil {
			t.Fatal(err)
		}
		lost = 80000 - len(db.Keys())
		db.Close()
	}
	if lost != 0 {
		t.Fatal("lost", lost)
	}
}
'''), MD)),
    dict(id="c35", property="M04", edits=[
        ("memdb/db.go", "		var keys []uint64\n		block.RLock()\n		for ik := range block.records {\n			if ik.delFlag == 0 {\n				keys = append(keys, ik.key)\n			}\n		}\n		block.RUnlock()\n		if len(keys) == 0 {", "		var keys []uint64\n		for ik := range block.records {\n			if ik.delFlag == 0 {\n				keys = append(keys, ik.key)\n			}\n		}\n		if len(keys) == 0 {")],
         needs="a delete of an entry of a block at the moment at which the block is listed for a drain",
         breaks="data race: the map of the block is changed while it is read, which ends the process",
         race=True,
         demo=imp(D('''
func TestDemo(t *testing.T) {
	db, err := memdb.Open(memdb.WithLogFilePath(dir(t)))
	if err != nil {
		t.Fatal(err)
	}
	for i := uint64(1); i <= 5000; i++ {
		db.Put(i, []byte("value"))
	}
	time.Sleep(2500 * time.Millisecond)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := uint64(1); i <= 4000; i++ {
			db.Delete(i)
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 200; i++ {
			db.BlockIterator(func(id int64, keys []uint64) (bool, error) { return false, nil })
		}
	}()
	wg.Wait()
	db.Close()
}
'''), MD)),
    dict(id="c36", property="W02", edits=[
        ("wal/reader.go", "		r.entryCount = info.count\n", "		r.entryCount = info.count\n		if info.count == 0 {\n			// end of the logs.\n			return nil\n		}\n")],
         needs="a damaged log before an undamaged one",
         breaks="the logs after a damaged one are not read",
         demo=B('''
		d := dir(t)
		db, err := memdb.Open(memdb.WithLogFilePath(d))
		if err != nil {
			t.Fatal(err)
		}
		for i := uint64(1); i <= 3; i++ {
			db.Put(i, []byte("value"))
			time.Sleep(2 * time.Second)
		}
		db.Close()
		logs, _ := filepath.Glob(filepath.Join(d, "logs", "*.log"))
		if len(logs) != 3 {
			t.Fatal(logs)
		}
		if err := os.Truncate(logs[1], 5); err != nil {
			t.Fatal(err)
		}
		time.Sleep(time.Second)
		db, err = memdb.Open(memdb.WithLogFilePath(d))
		if err != nil {
			t.Fatal(err)
		}
		if k := db.Keys(); len(k) != 2 {
			t.Fatal(k)
		}
		db.Close()
''', MD)),
    dict(id="c37", property="P18", edits=[
        ("block_writer.go", "	w.indexFile.truncate(w.indexOffset)\n	w.dataFile.truncate(w.dataOffset)\n", "	if err := w.dataFile.truncate(w.dataOffset); err != nil {\n		return err\n	}\n")],
         needs="a sync that adds an index block and fails after the index is written",
         breaks="the index keeps the entries of the failed sync, the next one takes them as synced and their messages are lost",
         demo=imp(B('''
		d := dir(t)
		db := open(t, d, unitdb.WithMaxSyncDuration(time.Hour, 1))
		put(t, db, "a.b", "one")
		time.Sleep(3 * time.Second)
		fd := -1
		for i := 3; i < 100; i++ {
			if l, err := os.Readlink(fmt.Sprintf("/proc/self/fd/%d", i)); err == nil && strings.HasPrefix(l, d) && strings.HasSuffix(l, ".info") {
				fd = i
			}
		}
		if fd < 0 {
			t.Fatal("no info file")
		}
		keep, err := syscall.Dup(fd)
		if err != nil {
			t.Fatal(err)
		}
		full, err := os.OpenFile("/dev/full", os.O_RDWR, 0)
		if err != nil {
			t.Fatal(err)
		}
		if err := syscall.Dup3(int(full.Fd()), fd, 0); err != nil {
			t.Fatal(err)
		}
		if err := db.Sync(); err == nil {
			t.Fatal("sync did not fail")
		}
		if err := syscall.Dup3(keep, fd, 0); err != nil {
			t.Fatal(err)
		}
		if err := db.Sync(); err != nil {
			t.Fatal(err)
		}
		if got := get(t, db, "a.b", 10); len(got) != 1 || got[0] != "one" {
			t.Fatal(got)
		}
		db.Close()
'''), "syscall")),
    dict(id="c38", property="P12", edits=[
        ("leasing.go", "		copy(fbs.fb[i:], fbs.fb[i+1:])\n		fbs.fb[len(fbs.fb)-1] = _FreeBlock{}\n", "		fbs.fb[len(fbs.fb)-1] = _FreeBlock{}\n")],
         needs="two freed blocks in one group of which the first is reused entirely, and another message of its size",
         breaks="the first block stays free and is handed out again, so that two live messages share bytes",
         demo=B('''
		db := open(t, dir(t), unitdb.WithMutable(), unitdb.WithFreeBlockSize(1))
		val := func(i, n int) string { return strings.Repeat(fmt.Sprintf("%04d", i), 1) + strings.Repeat("x", n) }
		live := make(map[string]bool)
		var ids [][]byte
		r := uint32(1)
		n := 0
		add := func() {
			r = r*1664525 + 1013904223
			id := db.NewID()
			b := make([]byte, 20+int(r>>16)%30)
			for j := range b {
				r = r*1664525 + 1013904223
				b[j] = byte(r>>24)%90 + 33
			}
			v := val(n, 0) + string(b)
			n++
			if err := db.PutEntry(unitdb.NewEntry([]byte("a.b"), []byte(v)).WithID(id)); err != nil {
				t.Fatal(err)
			}
			live[v] = true
			ids = append(ids, append([]byte(v), id...))
		}
		for i := 0; i < 300; i++ {
			add()
		}
		settle(t, db)
		for round := 0; round < 4; round++ {
			rest := ids[:0]
			for i, x := range ids {
				v, id := x[:len(x)-16], x[len(x)-16:]
				if i > 0 && i%2 == 0 {
					if err := db.Delete(id, []byte("a.b")); err != nil {
						t.Fatal(err)
					}
					delete(live, string(v))
				} else {
					rest = append(rest, x)
				}
			}
			ids = rest
			for i := 0; i < 150; i++ {
				add()
			}
			settle(t, db)
			got := get(t, db, "a.b", 10000)
			if len(got) != len(live) {
				t.Fatal(round, len(got), len(live))
			}
			for _, v := range got {
				if !live[v] {
					t.Fatal(round, v)
				}
			}
		}
		db.Close()
''')),
    dict(id="c39", property="P11", edits=[
        ("batch.go", "	e.Encryption = e.Encryption || b.opts.batchOptions.encryption\n", "	e.Encryption = b.opts.batchOptions.encryption\n")],
         needs="an entry with its own encryption in a batch without it, on a database without it",
         breaks="the payload is written in the clear",
         demo=B('''
		d := dir(t)
		db := open(t, d)
		err := db.Batch(func(b *unitdb.Batch, done <-chan struct{}) error {
			return b.PutEntry(unitdb.NewEntry([]byte("a.b"), []byte("a needle in the files")).WithEncryption())
		})
		if err != nil {
			t.Fatal(err)
		}
		settle(t, db)
		if got := get(t, db, "a.b", 10); len(got) != 1 || got[0] != "a needle in the files" {
			t.Fatal(got)
		}
		db.Close()
		filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				if b, _ := os.ReadFile(p); bytes.Contains(b, []byte("needle in")) {
					t.Fatal(p)
				}
			}
			return nil
		})
''')),
    dict(id="c40", property="P01", edits=[
        ("block_writer.go", "			parts = append(parts, []int32{idx[n2-1]})\n", "			parts = append(parts, []int32{idx[n1]})\n")],
         needs="a sync that adds exactly two blocks to a file, so between 256 and 510 new messages at once",
         breaks="the second block is not written, its messages are lost",
         demo=B('''
		db := open(t, dir(t))
		for i := 0; i < 400; i++ {
			put(t, db, "a.b", fmt.Sprint("m", i))
		}
		settle(t, db)
		if got := get(t, db, "a.b", 1000); len(got) != 400 {
			t.Fatal(len(got))
		}
		db.Close()
''')),
]
