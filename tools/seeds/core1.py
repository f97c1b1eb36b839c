PRE = '''//go:build go1.25

package zzdemo

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/unit-io/unitdb"
)

var _ = bytes.Equal
var _ = strings.Repeat
var _ sync.Mutex
var _ = filepath.Join

func open(t *testing.T, dir string, opts ...unitdb.Options) *unitdb.DB {
	t.Helper()
	db, err := unitdb.Open(dir, opts...)
	if err != nil {
		t.Fatal(err)
	}
	return db
}

func get(t *testing.T, db *unitdb.DB, topic string, limit int) []string {
	t.Helper()
	r, err := db.Get(unitdb.NewQuery([]byte(topic)).WithLimit(limit))
	if err != nil {
		t.Fatal(err)
	}
	var out []string
	for _, b := range r {
		out = append(out, string(b))
	}
	return out
}

func put(t *testing.T, db *unitdb.DB, topic, val string) {
	t.Helper()
	if err := db.Put([]byte(topic), []byte(val)); err != nil {
		t.Fatal(err)
	}
}

// settle lets the log and the sync finish in virtual time.
func settle(t *testing.T, db *unitdb.DB) {
	t.Helper()
	time.Sleep(3 * time.Second)
	if err := db.Sync(); err != nil {
		t.Fatal(err)
	}
}

func dir(t *testing.T) string {
	d, err := os.MkdirTemp(os.Getenv("DEMO_DIR"), "db")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(d) })
	return filepath.Join(d, "db")
}

func crashCopy(t *testing.T, d string) string {
	t.Helper()
	dst := dir(t)
	err := filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(d, p)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0777)
		}
		if strings.HasSuffix(p, ".lock") || strings.HasSuffix(p, "LOCK") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0666)
	})
	if err != nil {
		t.Fatal(err)
	}
	return dst
}

func bubble(t *testing.T, f func(t *testing.T)) {
	synctest.Test(t, func(t *testing.T) {
		defer func() {
			if r := recover(); r != nil {
				fmt.Println("panic:", r)
				os.Exit(1)
			}
			if t.Failed() {
				os.Exit(1)
			}
			os.Exit(0)
		}()
		f(t)
	})
}

var _ = fmt.Sprint
'''


def D(body):
    return PRE + body


SEEDS = [
    dict(id="c01", property="P12", edits=[("leasing.go", "		fbs.fb[i].size -= size\n		fbs.fb[i].offset += int64(size)\n", "		fbs.fb[i].size -= size\n")],
         needs="enough freed space, then a new message smaller than a freed block, then another one from the rest of it",
         breaks="the rest of a freed block keeps the offset of the part handed out, so two live messages share bytes",
         demo=D('''
func TestDemo(t *testing.T) {
	bubble(t, func(t *testing.T) {
		db := open(t, dir(t), unitdb.WithFreeBlockSize(1), unitdb.WithMutable())
		defer db.Close()
		put(t, db, "a.x", "first")
		settle(t, db)
		var ids [][]byte
		for i := 0; i < 60; i++ {
			id := db.NewID()
			ids = append(ids, id)
			b := make([]byte, 60+i*7)
			for j := range b {
				b[j] = byte(j*131 + i*17 + j*j*i)
			}
			if err := db.PutEntry(unitdb.NewEntry([]byte("a.x"), b).WithID(id)); err != nil {
				t.Fatal(err)
			}
		}
		settle(t, db)
		for _, id := range ids {
			if err := db.Delete(id, []byte("a.x")); err != nil {
				t.Fatal(err)
			}
		}
		want := map[string]bool{"first": true}
		for i := 0; i < 400; i++ {
			s := fmt.Sprintf("m%05d", i)
			s += strings.Repeat("q", i%23)
			want[s] = true
			put(t, db, "a.x", s)
		}
		settle(t, db)
		got := get(t, db, "a.x", 10000)
		if len(got) != len(want) {
			t.Fatalf("%d messages, %d put", len(got), len(want))
		}
		for _, g := range got {
			if !want[g] {
				t.Fatalf("got %q", g)
			}
		}
	})
}
''')),
    dict(id="c02", property="P06", edits=[("trie.go", "case part.hash == q.Hash && uint8(len(query)) >= part.wildchars+1:", "case part.hash == q.Hash && uint8(len(query)) > part.wildchars+1:")],
         needs="a message stored on a topic ending in a wildcard and a query for a topic it covers",
         breaks="a stored topic that ends in a wildcard part is not matched by the query it covers",
         demo=D('''
func TestDemo(t *testing.T) {
	bubble(t, func(t *testing.T) {
		db := open(t, dir(t))
		defer db.Close()
		put(t, db, "a.*", "w")
		if got := get(t, db, "a.b", 10); len(got) != 1 {
			t.Fatal(got)
		}
	})
}
''')),
    dict(id="c03", property="P11", edits=[("db_internal.go", "		encryption: db.internal.dbInfo.encryption,\n", "")],
         needs="a database created with encryption, closed, and reopened without the option",
         breaks="the encryption setting is lost on reopening and payloads are written in the clear",
         demo=D('''
func TestDemo(t *testing.T) {
	bubble(t, func(t *testing.T) {
		d := dir(t)
		db := open(t, d, unitdb.WithEncryption())
		put(t, db, "a.b", "one")
		settle(t, db)
		db.Close()
		db = open(t, d)
		secret := "Q7x!zk0#Lw9vBt"
		put(t, db, "a.b", secret)
		settle(t, db)
		db.Close()
		filepath.Walk(filepath.Dir(d), func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				b, _ := os.ReadFile(p)
				if bytes.Contains(b, []byte(secret)) {
					t.Error("plain payload in", p)
				}
			}
			return nil
		})
	})
}
''')),
    dict(id="c04", property="P08", edits=[("time_window_writer.go", "		b.entries[b.entryIdx] = _WinEntry{sequence: we.sequence, expiresAt: we.expiresAt}\n", "		b.entries[b.entryIdx] = _WinEntry{sequence: we.sequence, expiresAt: b.entries[0].expiresAt}\n")],
         needs="two messages of one topic synced to the files, only one of them with a time to live",
         breaks="the expiry of the first message of a window block is written for every later one: messages without one expire",
         demo=D('''
func TestDemo(t *testing.T) {
	bubble(t, func(t *testing.T) {
		d := dir(t)
		db := open(t, d)
		put(t, db, "a.b?ttl=20s", "short")
		put(t, db, "a.b?ttl=10h", "long")
		settle(t, db)
		db.Close()
		db = open(t, d)
		defer db.Close()
		time.Sleep(60 * time.Second)
		got := get(t, db, "a.b", 10)
		if len(got) != 1 || got[0] != "long" {
			t.Fatal(got)
		}
	})
}
''')),
    dict(id="c05", property="P13", race=False, edits=[("trie.go", "func (t *_Trie) getOffset(topicHash uint64) (off int64, ok bool) {\n	t.RLock()\n	defer t.RUnlock()\n", "func (t *_Trie) getOffset(topicHash uint64) (off int64, ok bool) {\n")],
         needs="a put of a new topic while another goroutine puts or queries",
         breaks="the map of topics is read while another goroutine writes it: data race, fatal error",
         demo=D('''
func TestDemo(t *testing.T) {
	db := open(t, dir(t))
	defer db.Close()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				db.Put([]byte(fmt.Sprintf("a.%d.%d", g, i)), []byte("x"))
				db.Get(unitdb.NewQuery([]byte(fmt.Sprintf("a.%d.%d", g, i))).WithLimit(1))
			}
		}(g)
	}
	wg.Wait()
}
''')),
    dict(id="c06", property="P10", edits=[("db.go", "		b.unsetManaged()\n		b.Abort()\n		close(b.commitComplete)\n		return err\n", "		b.unsetManaged()\n		if len(b.entries) != 0 {\n			// entries are written already.\n			b.Commit()\n		} else {\n			b.Abort()\n			close(b.commitComplete)\n		}\n		return err\n")],
         needs="a batch function that writes its entries explicitly and then returns an error",
         breaks="a failed batch whose entries were already written is kept instead of rolled back",
         demo=D('''
func TestDemo(t *testing.T) {
	bubble(t, func(t *testing.T) {
		db := open(t, dir(t))
		defer db.Close()
		db.Batch(func(b *unitdb.Batch, done <-chan struct{}) error {
			b.Put([]byte("a.b"), []byte("x"))
			b.Write()
			return fmt.Errorf("no")
		})
		settle(t, db)
		if got := get(t, db, "a.b", 10); len(got) != 0 {
			t.Fatal(got)
		}
	})
}
''')),
    dict(id="c07", property="P08", edits=[("time_window.go", "	return e.expiresAt != 0 && e.expiresAt <= uint32(time.Now().Unix())\n", "	return e.expiresAt != 0 && e.expiresAt < uint32(time.Now().Unix())-1\n")],
         needs="a query within two seconds after the expiry of a message",
         breaks="expired messages are still returned for a moment after their expiry",
         demo=D('''
func TestDemo(t *testing.T) {
	bubble(t, func(t *testing.T) {
		db := open(t, dir(t))
		defer db.Close()
		put(t, db, "a.b?ttl=10s", "x")
		time.Sleep(11100 * time.Millisecond)
		if got := get(t, db, "a.b", 10); len(got) != 0 {
			t.Fatal(got)
		}
	})
}
''')),
    dict(id="c08", property="P01", edits=[("block.go", "			seq = uint16(int16(s.seq-b.baseSeq) + entriesPerIndexBlock)\n", "			seq = uint16(int8(s.seq-b.baseSeq)) + entriesPerIndexBlock\n")],
         needs="synced messages whose distance to the first message of their index block is over 127",
         breaks="relative sequences of an index block are stored in one byte, so messages far into a block are not found",
         demo=D('''
func TestDemo(t *testing.T) {
	bubble(t, func(t *testing.T) {
		db := open(t, dir(t))
		defer db.Close()
		for i := 0; i < 200; i++ {
			put(t, db, "a.b", fmt.Sprint(i))
		}
		settle(t, db)
		if got := get(t, db, "a.b", 1000); len(got) != 200 {
			t.Fatal(len(got))
		}
	})
}
''')),
    dict(id="c09", property="P04", edits=[("block_writer.go", "	for i := 0; i < int(b.entryIdx); i++ {\n		e := b.entries[i]\n", "	for i := 0; i < int(b.entryIdx)-1; i++ {\n		e := b.entries[i]\n")],
         needs="the delete of the message that was synced last into its index block",
         breaks="deleting the last entry of an index block is acknowledged but has no effect once it is synced",
         demo=D('''
func TestDemo(t *testing.T) {
	bubble(t, func(t *testing.T) {
		db := open(t, dir(t), unitdb.WithMutable())
		defer db.Close()
		put(t, db, "a.b", "keep")
		id := db.NewID()
		if err := db.PutEntry(unitdb.NewEntry([]byte("a.b"), []byte("gone")).WithID(id)); err != nil {
			t.Fatal(err)
		}
		settle(t, db)
		if err := db.Delete(id, []byte("a.b")); err != nil {
			t.Fatal(err)
		}
		if got := get(t, db, "a.b", 10); len(got) != 1 || got[0] != "keep" {
			t.Fatal(got)
		}
	})
}
''')),
]
