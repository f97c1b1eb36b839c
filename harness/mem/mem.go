//go:build go1.25

// Package mem holds the checks of the in-memory key-value store and of its
// write-ahead log, through their own public interfaces.
package mem

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"time"

	"github.com/unit-io/unitdb/memdb"
	"github.com/unit-io/unitdb/server/zzverif/vh"
)

// Op is one step of a history.
type Op struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"` // key or duration
	S int    `json:"s,omitempty"` // size of the value
	N int    `json:"n,omitempty"`
	B []Op   `json:"b,omitempty"`
	E bool   `json:"e,omitempty"` // the batch is aborted
}

// Case is a history.
type Case struct {
	Log    int  `json:"log"`   // log interval in ms
	Block  int  `json:"block"` // time block in ms
	Small  bool `json:"small,omitempty"`
	Settle bool `json:"settle,omitempty"` // batches are followed by a new time block
	Ops    []Op `json:"ops"`
}

type version struct {
	val  []byte
	gone bool
	at   time.Time
	id   int64 // time block it was put to
	sure bool  // survives any crash from now on
}

// world drives the store and keeps, for every key, the values it may have.
type world struct {
	c    Case
	in   *vh.Info
	dir  string
	gen  int
	db   *memdb.DB
	hist map[uint64][]version // last is the current one; earlier ones matter for a crash only
	seed int
}

func (w *world) opts(reset bool) []memdb.Options {
	o := []memdb.Options{memdb.WithLogFilePath(w.dir), memdb.WithLogInterval(time.Duration(w.c.Log) * time.Millisecond),
		memdb.WithTimeBlockInterval(time.Duration(w.c.Block) * time.Millisecond)}
	if w.c.Small {
		o = append(o, memdb.WithMemdbSize(1<<24), memdb.WithBufferSize(1<<22))
	}
	if reset {
		o = append(o, memdb.WithLogReset())
	}
	return o
}

func (w *world) open(reset bool) error {
	db, err := memdb.Open(w.opts(reset)...)
	if err != nil {
		return fmt.Errorf("open failed: %v", err)
	}
	w.db = db
	return nil
}

func (w *world) value(size int) []byte {
	w.seed++
	b := make([]byte, size)
	r := rand.New(rand.NewSource(int64(w.seed)))
	r.Read(b)
	tag := fmt.Sprintf("%d", w.seed)
	if size >= len(tag) {
		copy(b, tag)
	}
	return b
}

func (w *world) cur(k uint64) (version, bool) {
	h := w.hist[k]
	if len(h) == 0 || h[len(h)-1].gone {
		return version{}, false
	}
	return h[len(h)-1], true
}

func show(b []byte) string {
	if len(b) > 16 {
		return fmt.Sprintf("%q..(%d)", b[:16], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func (w *world) check(k uint64) error {
	got, err := w.db.Get(k)
	v, ok := w.cur(k)
	switch {
	case ok && err != nil:
		return fmt.Errorf("get of key %d failed: %v, want %s", k, err, show(v.val))
	case ok && !bytes.Equal(got, v.val):
		return fmt.Errorf("get of key %d returned %s, want %s", k, show(got), show(v.val))
	case !ok && err == nil:
		return fmt.Errorf("get of key %d, which is not stored, returned %s", k, show(got))
	}
	return nil
}

func (w *world) checkAll() error {
	n := 0
	keys := map[uint64]bool{}
	for k := range w.hist {
		if err := w.check(k); err != nil {
			return err
		}
		if _, ok := w.cur(k); ok {
			n++
			keys[k] = true
		}
	}
	got := w.db.Keys()
	seen := map[uint64]bool{}
	for _, k := range got {
		if seen[k] {
			return fmt.Errorf("Keys lists key %d twice", k)
		}
		seen[k] = true
		if !keys[k] {
			return fmt.Errorf("Keys lists key %d, which is not stored", k)
		}
	}
	if len(got) != n {
		return fmt.Errorf("Keys lists %d keys, want %d", len(got), n)
	}
	if s := w.db.Size(); s != int64(n) {
		return fmt.Errorf("Size is %d, want %d", s, n)
	}
	return nil
}

func (w *world) set(k uint64, v version) { w.hist[k] = append(w.hist[k], v) }

func (w *world) nap() { time.Sleep(113 * time.Microsecond) }

func (w *world) step(o Op) error {
	k := uint64(o.A)
	switch o.K {
	case "put":
		val := w.value(o.S)
		buf := append([]byte(nil), val...)
		id, err := w.db.Put(k, buf)
		if err != nil {
			return fmt.Errorf("put of key %d failed: %v", k, err)
		}
		for i := range buf {
			buf[i] ^= 0xff
		}
		w.set(k, version{val: val, at: time.Now(), id: id})
		got, err := w.db.Lookup(id, k)
		if err != nil || !bytes.Equal(got, val) {
			return fmt.Errorf("lookup of key %d in the time block its put returned gives %s, %v, want %s", k, show(got), err, show(val))
		}
		w.in.Hit("put")
	case "get":
		return w.check(k)
	case "del":
		_, ok := w.cur(k)
		err := w.db.Delete(k)
		if ok && err != nil {
			return fmt.Errorf("delete of key %d failed: %v", k, err)
		}
		if !ok && err == nil {
			return fmt.Errorf("delete of key %d, which is not stored, succeeded", k)
		}
		if ok {
			w.set(k, version{gone: true, at: time.Now()})
			w.in.Hit("del")
		}
	case "batch":
		type pend struct {
			k uint64
			v version
		}
		var ps []pend
		err := w.db.Batch(func(b *memdb.Batch, _ <-chan struct{}) error {
			for _, s := range o.B {
				if s.K == "write" {
					if err := b.Write(); err != nil {
						return fmt.Errorf("batch write failed: %v", err)
					}
					w.in.Hit("batch-write")
					continue
				}
				val := w.value(s.S)
				if err := b.Put(uint64(s.A), append([]byte(nil), val...)); err != nil {
					return fmt.Errorf("batch put failed: %v", err)
				}
				ps = append(ps, pend{uint64(s.A), version{val: val, id: b.TimeID(), sure: true}})
			}
			if o.E {
				return errAbort
			}
			return nil
		})
		if o.E {
			if err != errAbort {
				return fmt.Errorf("aborted batch returned %v", err)
			}
			w.in.Hit("batch-aborted")
			break
		}
		if err != nil {
			return err
		}
		for _, p := range ps {
			p.v.at = time.Now()
			w.set(p.k, p.v)
		}
		if len(ps) > 0 {
			w.in.Hit("batch")
		}
		if w.c.Settle {
			// a key of a batch put again in the same time block may be recovered with either value
			time.Sleep(time.Duration(w.c.Block) * time.Millisecond)
		}
	case "sleep":
		time.Sleep(time.Duration(o.A)*time.Millisecond + 3*time.Microsecond)
	case "check":
		return w.checkAll()
	case "free":
		return w.free(o.N)
	case "reopen":
		if err := w.db.Close(); err != nil {
			return fmt.Errorf("close failed: %v", err)
		}
		if err := w.closedRefuses(); err != nil {
			return err
		}
		for k, h := range w.hist {
			h[len(h)-1].sure = true
			w.hist[k] = h[len(h)-1:]
		}
		if err := w.open(false); err != nil {
			return err
		}
		w.in.Hit("reopen")
		return w.recovered()
	case "crash":
		return w.crash()
	case "reset":
		if err := w.db.Close(); err != nil {
			return fmt.Errorf("close failed: %v", err)
		}
		w.hist = map[uint64][]version{}
		if err := w.open(true); err != nil {
			return err
		}
		w.in.Hit("reset")
		return w.checkAll()
	}
	w.nap()
	return nil
}

func (w *world) closedRefuses() error {
	if _, err := w.db.Get(1); err == nil {
		return fmt.Errorf("get on a closed store succeeded")
	}
	if _, err := w.db.Put(1, []byte("x")); err == nil {
		return fmt.Errorf("put on a closed store succeeded")
	}
	if err := w.db.Delete(1); err == nil {
		return fmt.Errorf("delete on a closed store succeeded")
	}
	if err := w.db.Close(); err == nil {
		return fmt.Errorf("second close succeeded")
	}
	return nil
}

// recovered checks the store after an open and learns the time blocks of the keys.
func (w *world) recovered() error {
	if err := w.checkAll(); err != nil {
		return fmt.Errorf("after opening: %v", err)
	}
	last := int64(-1 << 63)
	where := map[uint64]int64{}
	err := w.db.All(func(id int64, keys []uint64) (bool, error) {
		if id <= last {
			return true, fmt.Errorf("All visits time block %d after %d", id, last)
		}
		last = id
		for _, k := range keys {
			where[k] = id
			v, err := w.db.Lookup(id, k)
			if err != nil {
				return true, fmt.Errorf("All lists key %d of time block %d, lookup fails: %v", k, id, err)
			}
			c, ok := w.cur(k)
			if !ok {
				return true, fmt.Errorf("All lists key %d, which is not stored", k)
			}
			if !bytes.Equal(v, c.val) {
				return true, fmt.Errorf("All leads to %s for key %d, want %s", show(v), k, show(c.val))
			}
		}
		return false, nil
	})
	if err != nil {
		return fmt.Errorf("after opening: %v", err)
	}
	for k := range w.hist {
		v, ok := w.cur(k)
		if !ok {
			continue
		}
		if _, ok := where[k]; !ok {
			return fmt.Errorf("after opening: All does not list key %d", k)
		}
		v.id = where[k]
		w.hist[k] = []version{v}
	}
	return nil
}

// free visits the blocks written to the log and frees up to n of them, the way a sync does.
func (w *world) free(n int) error {
	seen := map[int64]bool{}
	done := 0
	err := w.db.BlockIterator(func(id int64, keys []uint64) (bool, error) {
		if seen[id] {
			return true, fmt.Errorf("BlockIterator visits time block %d twice", id)
		}
		seen[id] = true
		sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
		listed := map[uint64]bool{}
		for _, k := range keys {
			listed[k] = true
			c, ok := w.cur(k)
			if !ok || c.id != id {
				return true, fmt.Errorf("BlockIterator lists key %d in time block %d, stored: %v, in block %d", k, id, ok, c.id)
			}
			v, err := w.db.Lookup(id, k)
			if err != nil || !bytes.Equal(v, c.val) {
				return true, fmt.Errorf("lookup of key %d in time block %d gives %s, %v, want %s", k, id, show(v), err, show(c.val))
			}
		}
		for k := range w.hist {
			if c, ok := w.cur(k); ok && c.id == id && !listed[k] {
				return true, fmt.Errorf("BlockIterator does not list key %d of time block %d", k, id)
			}
		}
		if done >= n {
			return true, nil
		}
		done++
		if err := w.db.Free(id); err != nil {
			return true, fmt.Errorf("free of time block %d failed: %v", id, err)
		}
		for _, k := range keys {
			delete(w.hist, k)
			w.hist[k] = []version{{gone: true, sure: true, at: time.Now()}}
		}
		w.in.Hit("freed")
		return false, nil
	})
	if err != nil {
		return err
	}
	return w.checkAll()
}

// crash keeps the files as they are now, and opens a copy.
func (w *world) crash() error {
	w.gen++
	next := filepath.Join(w.in.Dir, fmt.Sprintf("m%d", w.gen))
	now := time.Now()
	if err := vh.CopyTree(next, w.dir); err != nil {
		panic(err)
	}
	if err := w.db.Close(); err != nil {
		return fmt.Errorf("close failed: %v", err)
	}
	os.RemoveAll(w.dir)
	w.dir = next
	if err := w.open(false); err != nil {
		return fmt.Errorf("after a crash: %v", err)
	}
	w.in.Hit("crash")
	slack := 3 * time.Duration(w.c.Log) * time.Millisecond
	for k, h := range w.hist {
		// the newest version that is certain, and those after it, are possible
		i := len(h) - 1
		for i > 0 && !h[i].sure && now.Sub(h[i].at) < slack {
			i--
		}
		possible := h[i:]
		none := i == 0 && !h[0].sure && now.Sub(h[0].at) < slack
		got, err := w.db.Get(k)
		ok := -1
		for j := len(possible) - 1; j >= 0 && ok < 0; j-- {
			if p := possible[j]; p.gone && err != nil || !p.gone && err == nil && bytes.Equal(got, p.val) {
				ok = j
			}
		}
		if ok < 0 && !(none && err != nil) {
			return fmt.Errorf("after a crash: get of key %d gives %s, %v, the newest certain state is %s (gone: %v) and %d later ones", k, show(got), err, show(possible[0].val), possible[0].gone, len(possible)-1)
		}
		if len(possible) > 1 || none {
			w.in.Hit("crash-open")
		}
		v := version{gone: true, at: now}
		if ok >= 0 {
			v = possible[ok]
		}
		v.sure = true
		w.hist[k] = []version{v}
	}
	return w.recovered()
}

var errAbort = fmt.Errorf("abort requested")

func runMem(rule func(in *vh.Info) bool) func(in *vh.Info, c Case) error {
	return func(in *vh.Info, c Case) error {
		w := &world{c: c, in: in, dir: filepath.Join(in.Dir, "m0"), hist: map[uint64][]version{}}
		if err := w.open(false); err != nil {
			return err
		}
		fail := func(err error) error {
			db := w.db
			go func() {
				defer func() { recover() }()
				db.Close()
			}()
			time.Sleep(time.Second)
			return err
		}
		defer func() {
			if p := recover(); p != nil {
				fail(nil)
				panic(p)
			}
		}()
		for i, o := range c.Ops {
			if err := w.step(o); err != nil {
				return fail(fmt.Errorf("op %d (%s): %v", i, o.K, err))
			}
		}
		if err := w.checkAll(); err != nil {
			return fail(fmt.Errorf("at the end: %v", err))
		}
		if rule(in) {
			in.NonTrivial()
		}
		if err := w.db.Close(); err != nil {
			return fmt.Errorf("close failed: %v", err)
		}
		return nil
	}
}

type kv struct {
	k string
	n int
}

func genMem(unique bool, mixes []kv) func(r *rand.Rand, tier string, n int) Case {
	return func(r *rand.Rand, tier string, n int) Case {
		c := Case{Log: []int{15, 15, 1, 40}[r.Intn(4)], Block: []int{1000, 1000, 200, 5000}[r.Intn(4)], Small: r.Intn(2) == 0, Settle: !unique}
		sizes := []int{0, 1, 3, 10, 50, 200, 1000, 5000}
		next := 0
		key := func() int {
			if unique {
				next++
				return next
			}
			return r.Intn(12)
		}
		old := func() int {
			if unique {
				return 1 + r.Intn(next+2)
			}
			return r.Intn(13)
		}
		total := 0
		for _, m := range mixes {
			total += m.n
		}
		l := 3 + r.Intn(40)
		if r.Intn(10) == 0 {
			l = 200
		}
		for len(c.Ops) < l {
			x := r.Intn(total)
			k := ""
			for _, m := range mixes {
				if x -= m.n; x < 0 {
					k = m.k
					break
				}
			}
			o := Op{K: k}
			switch k {
			case "put":
				o.A, o.S = key(), sizes[r.Intn(len(sizes))]
			case "get", "del":
				o.A = old()
			case "batch":
				for i, m := 0, r.Intn(7); i < m; i++ {
					if r.Intn(6) == 0 {
						o.B = append(o.B, Op{K: "write"})
					} else {
						o.B = append(o.B, Op{K: "put", A: key(), S: sizes[r.Intn(len(sizes))]})
					}
				}
				o.E = r.Intn(4) == 0
			case "sleep":
				o.A = []int{1, 5, 14, 16, 31, 50, 130, 210, 1000, 1100, 2100}[r.Intn(11)]
			case "free":
				o.N = []int{1000, 1000, 1, 2}[r.Intn(4)]
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	}
}

func shrinkMem(c Case) []Case {
	var out []Case
	for _, ops := range vh.Chunks(c.Ops) {
		d := c
		d.Ops = ops
		out = append(out, d)
	}
	for i, o := range c.Ops {
		for _, b := range vh.Chunks(o.B) {
			d := c
			d.Ops = append([]Op(nil), c.Ops...)
			d.Ops[i].B = b
			out = append(out, d)
		}
		if o.S > 1 {
			d := c
			d.Ops = append([]Op(nil), c.Ops...)
			d.Ops[i].S = o.S / 4
			out = append(out, d)
		}
	}
	return out
}
