//go:build go1.25

package mem

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"time"

	"github.com/unit-io/unitdb/memdb"
	"github.com/unit-io/unitdb/server/zzverif/vh"
	"github.com/unit-io/unitdb/wal"
)

// WOp is a step of a history of the log.
type WOp struct {
	K string `json:"k"`           // write, pair, release, reset, reopen, crash, read, stop
	T int    `json:"t,omitempty"` // index of the log ID
	R []int  `json:"r,omitempty"` // record sizes
	N int    `json:"n,omitempty"`
}

// WCase is a history of the log.
type WCase struct {
	IDs []int64 `json:"ids"`
	Buf int64   `json:"buf"`
	Ops []WOp   `json:"ops"`
}

type walWorld struct {
	c       WCase
	in      *vh.Info
	dir     string
	gen     int
	wal     *wal.WAL
	logs    map[int64][][]byte // what is written and not released
	listed  map[int64]bool     // logs there when the WAL was opened
	dropped map[int64]bool
	serial  int
}

func (w *walWorld) open(reset bool) error {
	x, err := wal.New(wal.Options{Path: w.dir, BufferSize: w.c.Buf, Reset: reset})
	if err != nil {
		return fmt.Errorf("opening the log failed: %v", err)
	}
	w.wal = x
	w.listed = map[int64]bool{}
	for id := range w.logs {
		w.listed[id] = true
	}
	return nil
}

func (w *walWorld) records(sizes []int) [][]byte {
	var rs [][]byte
	for _, s := range sizes {
		w.serial++
		r := rand.New(rand.NewSource(int64(w.serial)))
		b := make([]byte, s)
		r.Read(b)
		rs = append(rs, b)
	}
	return rs
}

func (w *walWorld) write(id int64, rs [][]byte) error {
	wr, err := w.wal.NewWriter()
	if err != nil {
		return fmt.Errorf("new writer failed: %v", err)
	}
	for _, r := range rs {
		b := append([]byte(nil), r...)
		if err := <-wr.Append(b); err != nil {
			return fmt.Errorf("append failed: %v", err)
		}
		for i := range b {
			b[i] ^= 0xff
		}
	}
	if err := <-wr.SignalInitWrite(id); err != nil {
		return fmt.Errorf("write of log %d failed: %v", id, err)
	}
	n := 0
	for _, r := range rs {
		n += len(r)
	}
	if n > 0 {
		if err := <-wr.Append([]byte("late")); err == nil {
			return fmt.Errorf("append to a log that is written succeeded")
		}
		if err := <-wr.SignalInitWrite(id); err == nil {
			return fmt.Errorf("writing a log twice succeeded")
		}
	}
	return nil
}

func (w *walWorld) model(id int64, rs [][]byte) {
	var kept [][]byte
	for _, r := range rs {
		if len(r) > 0 {
			kept = append(kept, r)
		}
	}
	if len(kept) > 0 {
		w.logs[id] = kept
		w.in.Hit("written")
	}
}

// read reads the logs found when the WAL was opened; stop ends the iteration at that log.
func (w *walWorld) read(stop int) error {
	r, err := w.wal.NewReader()
	if err != nil {
		return fmt.Errorf("new reader failed: %v", err)
	}
	got := map[int64]bool{}
	last, first := int64(0), true
	n := 0
	err = r.Iterator(func(id int64) (bool, error) {
		if !first && id <= last {
			return true, fmt.Errorf("log %d is read after log %d", id, last)
		}
		first, last = false, id
		want := w.logs[id]
		if !w.listed[id] {
			return true, fmt.Errorf("log %d is read, which was not there when the WAL was opened", id)
		}
		if int(r.Count()) != len(want) {
			return true, fmt.Errorf("log %d counts %d records, want %d", id, r.Count(), len(want))
		}
		got[id] = true
		take := len(want)
		if stop > 0 && n%3 == 2 {
			take /= 2 // the rest of the log is not read
		}
		for i := 0; i < take; i++ {
			b, ok, err := r.Next()
			if err != nil || !ok {
				return true, fmt.Errorf("record %d of log %d: %v, %v", i, id, ok, err)
			}
			if !bytes.Equal(b, want[i]) {
				return true, fmt.Errorf("record %d of log %d is %s, want %s", i, id, show(b), show(want[i]))
			}
		}
		if take == len(want) {
			if b, ok, err := r.Next(); ok || err != nil {
				return true, fmt.Errorf("log %d has a record more: %s, %v", id, show(b), err)
			}
		}
		w.in.Hit("read")
		n++
		return stop > 0 && n >= stop, nil
	})
	if err != nil {
		return err
	}
	if stop == 0 || n < stop {
		for id := range w.listed {
			if _, ok := w.logs[id]; ok && !got[id] {
				return fmt.Errorf("log %d is not read", id)
			}
		}
	}
	w.listed = map[int64]bool{}
	return nil
}

func (w *walWorld) step(o WOp) error {
	id := int64(0)
	if len(w.c.IDs) > 0 {
		id = w.c.IDs[o.T%len(w.c.IDs)]
	}
	switch o.K {
	case "write":
		rs := w.records(o.R)
		if err := w.write(id, rs); err != nil {
			return err
		}
		w.model(id, rs)
	case "pair":
		// several logs at once
		var wg sync.WaitGroup
		var mu sync.Mutex
		var first error
		for i := 0; i < 4 && i < len(w.c.IDs); i++ {
			id := w.c.IDs[(o.T+i)%len(w.c.IDs)]
			rs := w.records(o.R)
			w.model(id, rs)
			wg.Add(1)
			go func() {
				defer wg.Done()
				if err := w.write(id, rs); err != nil {
					mu.Lock()
					first = err
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if first != nil {
			return first
		}
	case "release":
		if err := w.wal.SignalLogApplied(id); err != nil {
			return fmt.Errorf("release of log %d failed: %v", id, err)
		}
		if _, ok := w.logs[id]; ok {
			w.in.Hit("released")
		}
		delete(w.logs, id)
	case "reset":
		if o.N == 0 {
			w.wal.Reset()
			w.logs = map[int64][][]byte{}
			break
		}
		if err := w.wal.Close(); err != nil {
			return fmt.Errorf("close failed: %v", err)
		}
		w.logs = map[int64][][]byte{}
		if err := w.open(true); err != nil {
			return err
		}
	case "reopen":
		if err := w.wal.Close(); err != nil {
			return fmt.Errorf("close failed: %v", err)
		}
		if err := w.wal.Close(); err == nil {
			return fmt.Errorf("second close succeeded")
		}
		if _, err := w.wal.NewWriter(); err == nil {
			return fmt.Errorf("new writer of a closed log succeeded")
		}
		if _, err := w.wal.NewReader(); err == nil {
			return fmt.Errorf("new reader of a closed log succeeded")
		}
		w.in.Hit("reopen")
		if err := w.open(false); err != nil {
			return err
		}
		return w.read(o.N)
	case "crash":
		w.gen++
		next := filepath.Join(w.in.Dir, fmt.Sprintf("w%d", w.gen))
		if err := vh.CopyTree(next, w.dir); err != nil {
			panic(err)
		}
		if err := w.wal.Close(); err != nil {
			return fmt.Errorf("close failed: %v", err)
		}
		w.dir = next
		if o.N == 1 {
			// killed while a log was written
			os.WriteFile(filepath.Join(w.dir, fmt.Sprint(id+1)+".tmp"), []byte("torn"), 0666)
		}
		if err := w.open(false); err != nil {
			return err
		}
		w.in.Hit("crash")
	case "read":
		return w.read(o.N)
	}
	return nil
}

func runWal(in *vh.Info, c WCase) error {
	w := &walWorld{c: c, in: in, dir: filepath.Join(in.Dir, "w0"), logs: map[int64][][]byte{}}
	if err := w.open(false); err != nil {
		return err
	}
	defer func() { w.wal.Close() }()
	for i, o := range c.Ops {
		if err := w.step(o); err != nil {
			return fmt.Errorf("op %d (%s): %v", i, o.K, err)
		}
	}
	if err := w.step(WOp{K: "reopen"}); err != nil {
		return fmt.Errorf("at the end: %v", err)
	}
	if in.Seen("written") > 1 && in.Seen("read") > 0 {
		in.NonTrivial()
	}
	return nil
}

func genWal(r *rand.Rand, tier string, n int) WCase {
	c := WCase{Buf: []int64{1 << 20, 1 << 16, 1 << 24}[r.Intn(3)]}
	seen := map[int64]bool{}
	for i := 2 + r.Intn(8); i > 0; i-- {
		var id int64
		switch r.Intn(4) {
		case 0:
			id = int64(r.Intn(30)) // IDs of different length
		case 1:
			id = int64(1 + r.Intn(2000))
		case 2:
			id = 1700000000000000000 + int64(r.Intn(5))*15000000
		default:
			id = r.Int63()
		}
		if !seen[id] {
			seen[id] = true
			c.IDs = append(c.IDs, id)
		}
	}
	sizes := []int{0, 1, 3, 4, 5, 30, 200, 4096, 70000}
	for i := 2 + r.Intn(20); i > 0; i-- {
		o := WOp{T: r.Intn(len(c.IDs))}
		switch x := r.Intn(20); {
		case x < 8, x == 8:
			o.K = "write"
			if x == 8 {
				o.K = "pair"
			}
			for j := r.Intn(6); j >= 0; j-- {
				s := sizes[r.Intn(len(sizes)-1)]
				if r.Intn(40) == 0 {
					s = sizes[len(sizes)-1]
				}
				o.R = append(o.R, s)
			}
			if r.Intn(20) == 0 {
				for j := 0; j < 300; j++ {
					o.R = append(o.R, 1+r.Intn(9))
				}
			}
		case x < 12:
			o.K = "release"
		case x < 13:
			o.K, o.N = "reset", r.Intn(2)
		case x < 16:
			o.K = "reopen"
			if r.Intn(3) == 0 {
				o.N = 1 + r.Intn(3)
			}
		case x < 18:
			o.K, o.N = "crash", r.Intn(2)
		default:
			o.K = "read"
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func shrinkWal(c WCase) []WCase {
	var out []WCase
	for _, ops := range vh.Chunks(c.Ops) {
		d := c
		d.Ops = ops
		out = append(out, d)
	}
	for i, o := range c.Ops {
		for _, rs := range vh.Chunks(o.R) {
			d := c
			d.Ops = append([]WOp(nil), c.Ops...)
			d.Ops[i].R = rs
			out = append(out, d)
		}
	}
	return out
}

// DCase is a set of logs, some of which are damaged.
type DCase struct {
	Groups [][]int `json:"groups"` // sizes of the values, a log for each group
	Del    []int   `json:"del,omitempty"`
	Harm   []Harm  `json:"harm"`
}

// Harm is what happens to a log file.
type Harm struct {
	F int    `json:"f"` // file
	K string `json:"k"` // cut, flip, head, zero, grow, junk
	A int    `json:"a"`
	B int    `json:"b"`
}

func damage(p string, h Harm) {
	data, err := os.ReadFile(p)
	if err != nil {
		return
	}
	switch h.K {
	case "cut":
		data = data[:h.A%(len(data)+1)]
	case "flip":
		if len(data) > 0 {
			data[h.A%len(data)] ^= byte(1 + h.B%255)
		}
	case "head":
		// a field of the header
		if len(data) >= 18 {
			v := []uint32{0, 1, 0xffffffff, 0x7fffffff, 0x80000000, uint32(len(data)), uint32(len(data)) * 2}[h.B%7]
			binary.LittleEndian.PutUint32(data[[]int{10, 14, 2, 6}[h.A%4]:], v)
		}
	case "len":
		// a length inside of the log
		if len(data) > 60 {
			v := []uint32{0, 1, 3, 4, 12, 0xffffffff, 0x7fffffff, 0x80000000, uint32(len(data))}[h.B%9]
			binary.LittleEndian.PutUint32(data[h.A%(len(data)-4):], v)
		}
	case "zero":
		for i := h.A % (len(data) + 1); i < len(data) && i < h.A%(len(data)+1)+64; i++ {
			data[i] = 0
		}
	case "grow":
		data = append(data, bytes.Repeat([]byte{byte(h.B)}, 1+h.A%5000)...)
	}
	os.WriteFile(p, data, 0666)
}

func junk(dir string, h Harm) {
	names := []string{"x.log", ".log", "12x.log", "99999999999999999999999.log", "-5.log", "1.CORRUPT", "2.tmp", "readme"}
	n := 0
	if h.B%3 == 1 {
		n = 30
	} else if h.B%3 == 2 {
		n = 100
	}
	b := make([]byte, n)
	rand.New(rand.NewSource(int64(h.A))).Read(b)
	os.WriteFile(filepath.Join(dir, names[h.A%len(names)]), b, 0666)
}

func listLogs(dir string) []string {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.log"))
	for i := range fs {
		fs[i] = filepath.Base(fs[i])
	}
	sort.Strings(fs)
	return fs
}

// runDamage checks that damaged logs cost no more than their own entries.
func runDamage(in *vh.Info, c DCase) error {
	w := &world{c: Case{Log: 15, Block: 1000, Small: true}, in: in, dir: filepath.Join(in.Dir, "m0"), hist: map[uint64][]version{}}
	if err := w.open(false); err != nil {
		return err
	}
	logs := filepath.Join(w.dir, "logs")
	owner := map[string][]uint64{}
	known := map[string]bool{}
	key := uint64(0)
	settle := func(ks []uint64) error {
		time.Sleep(80 * time.Millisecond)
		for _, f := range listLogs(logs) {
			if !known[f] {
				known[f] = true
				owner[f] = ks
			}
		}
		return nil
	}
	deletes := map[string]bool{}
	for i, g := range c.Groups {
		var ks []uint64
		for _, s := range g {
			key++
			val := w.value(s)
			if _, err := w.db.Put(key, val); err != nil {
				return fmt.Errorf("put of key %d failed: %v", key, err)
			}
			w.set(key, version{val: val})
			ks = append(ks, key)
		}
		settle(ks)
		for _, d := range c.Del {
			if d%(len(c.Groups)) != i || key == 0 {
				continue
			}
			k := 1 + uint64(d)%key
			if _, ok := w.cur(k); !ok {
				continue
			}
			if err := w.db.Delete(k); err != nil {
				return fmt.Errorf("delete of key %d failed: %v", k, err)
			}
			w.set(k, version{gone: true})
			before := len(known)
			settle(nil)
			if len(known) > before {
				for f := range known {
					if owner[f] == nil {
						deletes[f] = true
					}
				}
			}
		}
	}
	next := filepath.Join(in.Dir, "m1")
	if err := vh.CopyTree(next, w.dir); err != nil {
		panic(err)
	}
	if err := w.db.Close(); err != nil {
		return fmt.Errorf("close failed: %v", err)
	}
	w.dir = next
	logs = filepath.Join(next, "logs")
	hurt := map[string]bool{}
	wild, lostDelete := false, false
	for _, h := range c.Harm {
		fs := listLogs(logs)
		if h.K == "junk" || len(fs) == 0 {
			junk(logs, h)
			in.Hit("junk")
			continue
		}
		f := fs[h.F%len(fs)]
		damage(filepath.Join(logs, f), h)
		if hurt[f] {
			wild = true
		}
		hurt[f] = true
		if deletes[f] {
			lostDelete = true
		}
		if h.K != "cut" && h.K != "grow" {
			wild = true
		}
		in.Hit("harm-" + h.K)
	}
	db, err := memdb.Open(w.opts(false)...)
	if err != nil {
		return fmt.Errorf("with damaged logs: open failed: %v", err)
	}
	w.db = db
	defer db.Close()
	safe := map[uint64]bool{}
	for _, ks := range owner {
		for _, k := range ks {
			safe[k] = true
		}
	}
	for f, ks := range owner {
		if hurt[f] {
			for _, k := range ks {
				delete(safe, k)
			}
		}
	}
	for k, h := range w.hist {
		got, err := db.Get(k)
		live := !h[len(h)-1].gone
		switch {
		case wild:
			// what a flipped log holds may be about any key
		case live && safe[k] && err != nil:
			return fmt.Errorf("key %d of an undamaged log is lost: %v", k, err)
		case err == nil && !bytes.Equal(got, h[0].val):
			return fmt.Errorf("key %d gives %s, want %s", k, show(got), show(h[0].val))
		case err == nil && !live && !lostDelete:
			return fmt.Errorf("key %d was deleted and is back, the log of the delete is not damaged", k)
		}
	}
	// the store is usable
	if _, err := db.Put(1<<40, []byte("fresh")); err != nil {
		return fmt.Errorf("put after damaged logs failed: %v", err)
	}
	db.Keys()
	if err := db.All(func(id int64, keys []uint64) (bool, error) {
		for _, k := range keys {
			if _, err := db.Lookup(id, k); err != nil {
				return true, fmt.Errorf("lookup of key %d fails: %v", k, err)
			}
		}
		return false, nil
	}); err != nil {
		return err
	}
	time.Sleep(100 * time.Millisecond)
	if err := db.Close(); err != nil {
		return fmt.Errorf("close failed: %v", err)
	}
	db, err = memdb.Open(w.opts(false)...)
	if err != nil {
		return fmt.Errorf("second open failed: %v", err)
	}
	defer db.Close()
	if got, err := db.Get(1 << 40); err != nil || string(got) != "fresh" {
		return fmt.Errorf("a key put after damaged logs gives %s, %v after reopening", show(got), err)
	}
	if len(hurt) > 0 && len(safe) > 0 {
		in.NonTrivial()
	}
	return nil
}

func genDamage(r *rand.Rand, tier string, n int) DCase {
	var c DCase
	sizes := []int{0, 1, 9, 60, 500, 5000}
	for i := 1 + r.Intn(5); i > 0; i-- {
		var g []int
		for j := r.Intn(5); j >= 0; j-- {
			g = append(g, sizes[r.Intn(len(sizes))])
		}
		c.Groups = append(c.Groups, g)
	}
	for i := r.Intn(3); i > 0; i-- {
		c.Del = append(c.Del, r.Intn(100))
	}
	wild := r.Intn(2) == 0
	for i := 1 + r.Intn(3); i > 0; i-- {
		ks := []string{"cut", "cut", "grow", "junk"}
		if wild {
			ks = append(ks, "flip", "head", "head", "len", "len", "zero")
		}
		c.Harm = append(c.Harm, Harm{F: r.Intn(10), K: ks[r.Intn(len(ks))], A: r.Intn(20000), B: r.Intn(1000)})
	}
	return c
}

func shrinkDamage(c DCase) []DCase {
	var out []DCase
	for _, x := range vh.Chunks(c.Harm) {
		d := c
		d.Harm = x
		out = append(out, d)
	}
	for _, x := range vh.Chunks(c.Groups) {
		if len(x) > 0 {
			d := c
			d.Groups = x
			out = append(out, d)
		}
	}
	for _, x := range vh.Chunks(c.Del) {
		d := c
		d.Del = x
		out = append(out, d)
	}
	return out
}
