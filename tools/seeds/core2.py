_ns = {}
exec(open("/verif/tools/seeds/core1.py").read().split("\nSEEDS = [")[0], _ns)
D = _ns["D"]


def B(body):
    return D("\nfunc TestDemo(t *testing.T) {\n\tbubble(t, func(t *testing.T) {\n" + body + "\n\t})\n}\n")


SEEDS = [
    dict(id="c10", property="P16", edits=[("db_sync.go", "	db.syncInfo.count = 0\n	db.syncInfo.inBytes = 0\n", "	db.syncInfo.count = 0\n")],
         needs="two blocks of messages synced by the same handle",
         breaks="the bytes received are counted again with every later sync",
         demo=B('''
		db := open(t, dir(t))
		defer db.Close()
		put(t, db, "a.b", "one")
		settle(t, db)
		v, _ := db.Varz()
		first := v.InBytes
		put(t, db, "a.b", "two")
		settle(t, db)
		v, _ = db.Varz()
		if first == 0 || v.InBytes != 2*first {
			t.Fatal(first, v.InBytes)
		}
''')),
    dict(id="c13", property="P06", edits=[("message/topic.go", "		wildchars := uint8(buf.Next(1)[0])\n", "		wildchars := uint8(buf.Next(1)[0]) & 3\n")],
         needs="a message stored on a topic with four wildcard parts in a row",
         breaks="a stored topic with four wildcards in a row is taken for another one",
         demo=B('''
		db := open(t, dir(t))
		defer db.Close()
		put(t, db, "a.*.*.*.*.f", "w")
		if got := get(t, db, "a.b.c.d.e.f", 10); len(got) != 1 {
			t.Fatal(got)
		}
''')),
    dict(id="c15", property="P08", edits=[("recovery.go", "				winEntries[m.topicHash] = append(winEntries[m.topicHash], newWinEntry(e.seq, m.expiresAt))\n", "				winEntries[m.topicHash] = append(winEntries[m.topicHash], newWinEntry(e.seq, 0))\n")],
         needs="two messages of one topic with a time to live that are logged but not synced when the process dies",
         breaks="the second message recovered of a topic never expires",
         demo=B('''
		d := dir(t)
		db := open(t, d, unitdb.WithMaxSyncDuration(time.Hour, 1))
		put(t, db, "a.b?ttl=60s", "one")
		put(t, db, "a.b?ttl=60s", "two")
		time.Sleep(3 * time.Second)
		c := crashCopy(t, d)
		db.Close()
		db = open(t, c)
		defer db.Close()
		if got := get(t, db, "a.b", 10); len(got) != 2 {
			t.Fatal(got)
		}
		time.Sleep(2 * time.Minute)
		if got := get(t, db, "a.b", 10); len(got) != 0 {
			t.Fatal(got)
		}
''')),
    dict(id="c16", property="P10", edits=[("batch.go", "	b.size = 0\n	b.buffer.Reset()\n", "	b.size = 0\n")],
         needs="a batch that writes, puts more and commits",
         breaks="what is put after a write of the batch is lost, the first entries are written again",
         demo=B('''
		db := open(t, dir(t))
		defer db.Close()
		err := db.Batch(func(b *unitdb.Batch, done <-chan struct{}) error {
			if err := b.Put([]byte("a.b"), []byte("one")); err != nil {
				return err
			}
			if err := b.Write(); err != nil {
				return err
			}
			return b.Put([]byte("a.b"), []byte("two"))
		})
		if err != nil {
			t.Fatal(err)
		}
		if got := get(t, db, "a.b", 10); len(got) != 2 || got[0] != "two" || got[1] != "one" {
			t.Fatal(got)
		}
''')),
    dict(id="c20", property="P15", edits=[("batch.go", "	case len(e.Topic) > maxTopicLength:\n		return errTopicTooLarge\n	case len(e.Payload) == 0:\n		return errValueEmpty\n", "	case len(e.Payload) == 0:\n		return errValueEmpty\n")],
         needs="a topic that is too long, put in a batch",
         breaks="a batch accepts a topic that the database refuses",
         demo=B('''
		db := open(t, dir(t))
		defer db.Close()
		long := []byte(strings.Repeat("a", 1<<16+1))
		if err := db.Put(long, []byte("x")); err == nil {
			t.Fatal("put accepted it")
		}
		err := db.Batch(func(b *unitdb.Batch, done <-chan struct{}) error {
			return b.Put(long, []byte("x"))
		})
		if err == nil {
			t.Fatal("the batch accepted it")
		}
''')),
    dict(id="c21", property="P18", edits=[("wal/file.go", "	if _, err := f.WriteAt(data.Bytes(), int64(logHeaderSize)); err != nil {\n		return err\n	}\n", "	f.WriteAt(data.Bytes(), int64(logHeaderSize))\n")],
         needs="a write of the log that fails, for lack of space for example, and the death of the process before the next sync",
         breaks="a log that could not be written counts as written, its messages are lost in a crash",
         demo=B('''
		d := dir(t)
		db := open(t, d, unitdb.WithMaxSyncDuration(time.Hour, 1))
		put(t, db, "a.b", "zero")
		time.Sleep(3 * time.Second)
		// files cannot grow beyond 400 bytes for a while
		signal.Ignore(syscall.SIGXFSZ)
		var lim syscall.Rlimit
		if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
			t.Fatal(err)
		}
		low := lim
		low.Cur = 400
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &low); err != nil {
			t.Fatal(err)
		}
		b := make([]byte, 3000)
		for i := range b {
			b[i] = byte(i * i * 31 >> 3)
		}
		err := db.Put([]byte("a.b"), b)
		time.Sleep(350 * time.Millisecond)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
		if err != nil {
			t.Fatal(err)
		}
		put(t, db, "a.b", "two")
		time.Sleep(5 * time.Second)
		c := crashCopy(t, d)
		db.Close()
		db = open(t, c)
		defer db.Close()
		if got := get(t, db, "a.b", 10); len(got) != 3 {
			t.Fatal(len(got))
		}
''').replace('import (', 'import (\n\t"os/signal"\n\t"syscall"')),
    dict(id="c22", property="M03", edits=[("memdb/db_internal.go", "	block.timeRefs = append(block.timeRefs, tinyLog.ID())\n\n	return nil\n", "	block.timeRefs = append(block.timeRefs[:0], tinyLog.ID())\n\n	return nil\n")],
         needs="a block of entries written to the log in more than one part, drained, and the store opened again",
         breaks="only the last log of a drained block is released, the rest comes back",
         demo=D('''
func TestDemo(t *testing.T) {
	bubble(t, func(t *testing.T) {
		d := dir(t)
		db, err := memdb.Open(memdb.WithLogFilePath(d))
		if err != nil {
			t.Fatal(err)
		}
		for i := uint64(1); i <= 10; i++ {
			if _, err := db.Put(i, []byte("value")); err != nil {
				t.Fatal(err)
			}
			time.Sleep(130 * time.Millisecond)
		}
		time.Sleep(3 * time.Second)
		n := 0
		err = db.BlockIterator(func(id int64, keys []uint64) (bool, error) {
			n += len(keys)
			return false, db.Free(id)
		})
		if err != nil || n != 10 {
			t.Fatal(n, err)
		}
		db.Close()
		db, err = memdb.Open(memdb.WithLogFilePath(d))
		if err != nil {
			t.Fatal(err)
		}
		defer db.Close()
		if k := db.Keys(); len(k) != 0 {
			t.Fatal(k)
		}
	})
}
''').replace('"github.com/unit-io/unitdb"\n', '"github.com/unit-io/unitdb"\n	"github.com/unit-io/unitdb/memdb"\n')),
    dict(id="c23", property="W01", edits=[("wal/reader.go", "		r.offset = 0\n		r.buffer.Reset()\n", "		r.offset = 0\n")],
         needs="two logs, opened and read, and opened and read once more",
         breaks="a log that is not the first one is moved away as damaged when it is read",
         demo=D('''
func TestDemo(t *testing.T) {
	d := dir(t)
	w, err := wal.New(wal.Options{Path: d, BufferSize: 1 << 20})
	if err != nil {
		t.Fatal(err)
	}
	for i, s := range []string{"a longer first record", "b"} {
		l, err := w.NewWriter()
		if err != nil {
			t.Fatal(err)
		}
		if err := <-l.Append([]byte(s)); err != nil {
			t.Fatal(err)
		}
		if err := <-l.SignalInitWrite(int64(i + 1)); err != nil {
			t.Fatal(err)
		}
	}
	w.Close()
	for n := 0; n < 2; n++ {
		w, err = wal.New(wal.Options{Path: d, BufferSize: 1 << 20})
		if err != nil {
			t.Fatal(err)
		}
		r, err := w.NewReader()
		if err != nil {
			t.Fatal(err)
		}
		var got []string
		err = r.Iterator(func(id int64) (bool, error) {
			for {
				b, ok, err := r.Next()
				if err != nil || !ok {
					return false, err
				}
				got = append(got, string(b))
			}
		})
		if err != nil || strings.Join(got, ",") != "a longer first record,b" {
			t.Fatal(n, got, err)
		}
		w.Close()
	}
}
''').replace('"github.com/unit-io/unitdb"\n', '"github.com/unit-io/unitdb"\n	"github.com/unit-io/unitdb/wal"\n')),
]
