//go:build go1.25

package core

import (
	"errors"
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/unit-io/unitdb"
	"github.com/unit-io/unitdb/message"
	"github.com/unit-io/unitdb/server/zzverif/vh"
)

// CCase is a set of operation sequences run by concurrent goroutines.
type CCase struct {
	Topics   []string `json:"topics"`
	FreeSize int      `json:"freeSize,omitempty"`
	Expirer  bool     `json:"expirer,omitempty"`
	Encrypt  bool     `json:"encrypt,omitempty"`
	Prefill  int      `json:"prefill,omitempty"`
	Workers  [][]Op   `json:"workers"`
	Close    bool     `json:"close,omitempty"` // close the database while the workers run
}

// cmsg is a message of a concurrent history; the numbers are logical times.
type cmsg struct {
	topic   int
	text    string
	worker  int
	n       int
	seq     uint64
	putS    int64
	putE    int64 // 0 while not acknowledged
	delS    int64
	delE    int64
	aborted bool
	failed  bool // refused because the database was closed
	id      []byte
}

type cget struct {
	topic int
	limit int
	s, e  int64
	got   []string
}

type conc struct {
	c     CCase
	in    *vh.Info
	db    *unitdb.DB
	clock atomic.Int64
	mu    sync.Mutex
	msgs  []*cmsg
	gets  []cget
	ids   map[uint64]int
	errs  []error
	shut  atomic.Bool
}

func (k *conc) tick() int64 { return k.clock.Add(1) }

func (k *conc) fail(err error) {
	k.mu.Lock()
	k.errs = append(k.errs, err)
	k.mu.Unlock()
}

func (k *conc) newMsg(w, n, topic, size int) *cmsg {
	m := &cmsg{topic: topic % len(k.c.Topics), worker: w, n: n}
	m.text = fmt.Sprintf("w%d n%d ", w, n)
	if size > len(m.text) {
		m.text += strings.Repeat("x", size-len(m.text))
	}
	return m
}

// closedErr tells if a failure is explained by the closing of the database.
func (k *conc) closedErr(err error) bool { return k.shut.Load() && err != nil }

func (k *conc) worker(wi int, ops []Op) {
	defer func() {
		if p := recover(); p != nil {
			k.fail(fmt.Errorf("panic in worker %d: %v", wi, p))
		}
	}()
	var mine []*cmsg
	n := 0
	for _, o := range ops {
		topic := []byte(k.c.Topics[o.T%len(k.c.Topics)])
		switch o.K {
		case "put", "putid":
			n++
			m := k.newMsg(wi, n, o.T, o.S)
			e := unitdb.NewEntry(topic, []byte(m.text))
			if o.K == "putid" {
				id := k.db.NewID()
				m.id = append([]byte(nil), id...)
				m.seq = message.ID(id).Sequence()
				k.mu.Lock()
				k.ids[m.seq]++
				k.mu.Unlock()
				e = e.WithID(id)
			}
			m.putS = k.tick()
			err := k.db.PutEntry(e)
			if err == nil {
				m.putE = k.tick()
			} else if k.closedErr(err) {
				m.failed = true
			} else {
				k.fail(fmt.Errorf("put by worker %d failed: %v", wi, err))
			}
			mine = append(mine, m)
			k.mu.Lock()
			k.msgs = append(k.msgs, m)
			k.mu.Unlock()
		case "del":
			var m *cmsg
			for _, x := range mine {
				if x.id != nil && x.delS == 0 && x.putE != 0 {
					m = x
					if o.N%3 != 0 {
						break
					}
				}
			}
			if m == nil {
				continue
			}
			m.delS = k.tick()
			err := k.db.Delete(m.id, []byte(k.c.Topics[m.topic]))
			if err == nil {
				m.delE = k.tick()
			} else if !k.closedErr(err) {
				k.fail(fmt.Errorf("delete by worker %d failed: %v", wi, err))
			}
		case "get":
			g := cget{topic: o.T % len(k.c.Topics), limit: o.N}
			q := unitdb.NewQuery(topic)
			if o.N > 0 {
				q = q.WithLimit(o.N)
			} else {
				q = q.WithLimit(100000)
			}
			g.s = k.tick()
			got, err := k.db.Get(q)
			g.e = k.tick()
			if err != nil {
				if !k.closedErr(err) {
					k.fail(fmt.Errorf("get by worker %d failed: %v", wi, err))
				}
				continue
			}
			if k.shut.Load() {
				continue
			}
			for _, b := range got {
				g.got = append(g.got, string(b))
			}
			k.mu.Lock()
			k.gets = append(k.gets, g)
			k.mu.Unlock()
		case "batch":
			var added []*cmsg
			s := k.tick()
			err := k.db.Batch(func(b *unitdb.Batch, done <-chan struct{}) error {
				for _, x := range o.B {
					n++
					m := k.newMsg(wi, n, x.T, x.S)
					m.putS = s
					m.aborted = o.Err
					added = append(added, m)
					if err := b.Put([]byte(k.c.Topics[m.topic]), []byte(m.text)); err != nil {
						return fmt.Errorf("batch put: %v", err)
					}
					if x.K == "write" {
						if err := b.Write(); err != nil {
							return fmt.Errorf("batch write: %v", err)
						}
					}
					if x.N%4 == 0 {
						time.Sleep(time.Duration(x.N) * time.Millisecond)
					}
				}
				if o.Err {
					return errAbort
				}
				return nil
			})
			switch {
			case o.Err && err == errAbort:
			case err != nil && k.closedErr(err):
				for _, m := range added {
					m.failed = true
				}
			case err != nil:
				k.fail(fmt.Errorf("batch by worker %d failed: %v", wi, err))
			case o.Err:
				k.fail(errors.New("aborted batch returned no error"))
			default:
				e := k.tick()
				for _, m := range added {
					m.putE = e
				}
			}
			k.mu.Lock()
			k.msgs = append(k.msgs, added...)
			k.mu.Unlock()
		case "sync":
			if err := k.db.Sync(); err != nil && !k.closedErr(err) {
				k.fail(fmt.Errorf("sync by worker %d failed: %v", wi, err))
			}
		case "size":
			if _, err := k.db.FileSize(); err != nil && !k.closedErr(err) {
				k.fail(fmt.Errorf("FileSize by worker %d failed: %v", wi, err))
			}
			k.db.Count()
			if _, err := k.db.Varz(); err != nil && !k.closedErr(err) {
				k.fail(fmt.Errorf("Varz by worker %d failed: %v", wi, err))
			}
		case "newid":
			id := k.db.NewID()
			k.mu.Lock()
			k.ids[message.ID(id).Sequence()]++
			k.mu.Unlock()
		case "sleep":
			time.Sleep(time.Duration(o.N) * time.Millisecond)
		}
	}
}

// judge compares every concurrent query with the history.
func (k *conc) judge() error {
	if len(k.errs) > 0 {
		return k.errs[0]
	}
	for s, n := range k.ids {
		if n > 1 {
			return fmt.Errorf("NewID returned sequence %d %d times", s, n)
		}
	}
	byText := map[string]*cmsg{}
	for _, m := range k.msgs {
		byText[m.text] = m
	}
	for _, g := range k.gets {
		seen := map[string]bool{}
		lastN := map[int]int{}
		lastSeq := uint64(1 << 62)
		for _, t := range g.got {
			m := byText[t]
			switch {
			case m == nil:
				return fmt.Errorf("get %q returned %s, which nobody stored", k.c.Topics[g.topic], describe([]byte(t)))
			case seen[t]:
				return fmt.Errorf("get %q returned %s twice", k.c.Topics[g.topic], describe([]byte(t)))
			case m.topic != g.topic:
				return fmt.Errorf("get %q returned %s of topic %q", k.c.Topics[g.topic], describe([]byte(t)), k.c.Topics[m.topic])
			case m.aborted:
				return fmt.Errorf("get %q returned %s of an aborted batch", k.c.Topics[g.topic], describe([]byte(t)))
			case m.putS > g.e:
				return fmt.Errorf("get %q returned %s before it was stored", k.c.Topics[g.topic], describe([]byte(t)))
			case m.delE != 0 && m.delE < g.s:
				return fmt.Errorf("get %q returned %s after it was deleted", k.c.Topics[g.topic], describe([]byte(t)))
			}
			seen[t] = true
			if p, ok := lastN[m.worker]; ok && m.n > p {
				return fmt.Errorf("get %q returned the messages of worker %d out of order", k.c.Topics[g.topic], m.worker)
			}
			lastN[m.worker] = m.n
			if m.seq != 0 {
				if m.seq > lastSeq {
					return fmt.Errorf("get %q returned messages out of order", k.c.Topics[g.topic])
				}
				lastSeq = m.seq
			}
		}
		if g.limit > 0 {
			if len(g.got) > g.limit {
				return fmt.Errorf("get %q with limit %d returned %d messages", k.c.Topics[g.topic], g.limit, len(g.got))
			}
			if len(g.got) == g.limit {
				continue
			}
		}
		for _, m := range k.msgs {
			if m.topic == g.topic && m.putE != 0 && m.putE < g.s && (m.delS == 0 || m.delS > g.e) && !seen[m.text] {
				return fmt.Errorf("get %q missed %s, acknowledged before the query began (%d returned)", k.c.Topics[g.topic], describe([]byte(m.text)), len(g.got))
			}
		}
	}
	return nil
}

// final compares the quiescent state.
func (k *conc) final(when string) error {
	for ti, t := range k.c.Topics {
		got, err := k.db.Get(unitdb.NewQuery([]byte(t)).WithLimit(100000))
		if err != nil {
			return fmt.Errorf("%s: get %q failed: %v", when, t, err)
		}
		cnt := map[string]int{}
		for _, g := range got {
			cnt[string(g)]++
		}
		for _, m := range k.msgs {
			if m.topic != ti {
				continue
			}
			c := cnt[m.text]
			delete(cnt, m.text)
			switch {
			case c > 1:
				return fmt.Errorf("%s: %q has %s %d times", when, t, describe([]byte(m.text)), c)
			case m.aborted && c > 0:
				return fmt.Errorf("%s: %q has %s of an aborted batch", when, t, describe([]byte(m.text)))
			case m.delE != 0 && c > 0:
				return fmt.Errorf("%s: %q has the deleted %s", when, t, describe([]byte(m.text)))
			case m.putE != 0 && m.delS == 0 && c == 0:
				return fmt.Errorf("%s: %q misses the acknowledged %s", when, t, describe([]byte(m.text)))
			}
		}
		if len(cnt) > 0 {
			for x := range cnt {
				return fmt.Errorf("%s: %q has the unexpected %s", when, t, describe([]byte(x)))
			}
		}
	}
	return nil
}

func runConc(in *vh.Info, c CCase) error {
	k := &conc{c: c, in: in, ids: map[uint64]int{}}
	dir := filepath.Join(in.Dir, "db")
	open := func() error {
		o := []unitdb.Options{unitdb.WithMutable()}
		if c.FreeSize > 0 {
			o = append(o, unitdb.WithFreeBlockSize(int64(c.FreeSize)))
		}
		if c.Expirer {
			o = append(o, unitdb.WithBackgroundKeyExpiry())
		}
		if c.Encrypt {
			o = append(o, unitdb.WithEncryption())
		}
		db, err := unitdb.Open(dir, o...)
		k.db = db
		return err
	}
	if err := open(); err != nil {
		return fmt.Errorf("open failed: %v", err)
	}
	if c.Prefill > 0 {
		for i := 0; i < c.Prefill; i++ {
			m := k.newMsg(99, i+1, i, 10)
			m.putS = k.tick()
			if err := k.db.Put([]byte(k.c.Topics[m.topic]), []byte(m.text)); err != nil {
				return err
			}
			m.putE = k.tick()
			k.msgs = append(k.msgs, m)
		}
		time.Sleep(2100 * time.Millisecond)
	}
	var wg sync.WaitGroup
	for i, ops := range c.Workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			k.worker(i, ops)
		}()
	}
	if c.Close {
		time.Sleep(time.Duration(7*len(c.Workers[0])) * time.Millisecond)
		k.shut.Store(true)
		if err := k.db.Close(); err != nil {
			k.fail(fmt.Errorf("close failed: %v", err))
		}
		in.Hit("closed-meanwhile")
	}
	wg.Wait()
	abandon := func(err error) error {
		if !c.Close {
			go k.db.Close()
			time.Sleep(3 * time.Second)
		}
		return err
	}
	if err := k.judge(); err != nil {
		return abandon(err)
	}
	for range k.gets {
		in.Hit("concurrent-get")
	}
	acked := 0
	for _, m := range k.msgs {
		if m.putE != 0 {
			acked++
		}
	}
	if acked > 1 && len(c.Workers) > 1 {
		in.NonTrivial()
	}
	if !c.Close {
		if err := k.final("after the workers"); err != nil {
			return abandon(err)
		}
		time.Sleep(2100 * time.Millisecond)
		if err := k.db.Sync(); err != nil {
			return abandon(fmt.Errorf("sync failed: %v", err))
		}
		if err := k.final("after a sync"); err != nil {
			return abandon(err)
		}
		if err := k.db.Close(); err != nil {
			return fmt.Errorf("close failed: %v", err)
		}
	}
	time.Sleep(50 * time.Millisecond)
	if err := open(); err != nil {
		return fmt.Errorf("reopening failed: %v", err)
	}
	k.c.Close = false
	c.Close = false
	if err := k.final("after reopening"); err != nil {
		return abandon(err)
	}
	return k.db.Close()
}

func genConc(r *rand.Rand, tier string, n int) CCase {
	c := CCase{Topics: genTopics(r, 1+r.Intn(3)), FreeSize: r.Intn(2), Expirer: r.Intn(4) == 0, Encrypt: r.Intn(6) == 0}
	if r.Intn(3) == 0 {
		c.Topics = genRelated(r, len(c.Topics))
	}
	if r.Intn(2) == 0 {
		c.Prefill = r.Intn(60)
		if r.Intn(4) == 0 {
			c.Prefill = 300 + r.Intn(800)
		}
	}
	c.Close = r.Intn(5) == 0
	nw := 2 + r.Intn(5)
	ks := []string{"put", "putid", "del", "get", "batch", "sync", "size", "newid", "sleep"}
	m := mix{"put": 8, "putid": 6, "del": 4, "get": 8, "batch": 3, "sync": 2, "size": 1, "newid": 2, "sleep": 6}
	for i := 0; i < nw; i++ {
		var ops []Op
		l := 4 + r.Intn(30)
		mm := mix{}
		for k, v := range m {
			mm[k] = v
			if r.Intn(4) == 0 {
				mm[k] = 0
			}
		}
		mm["put"]++
		for len(ops) < l {
			k := pick(r, mm, ks)
			o := Op{K: k, T: r.Intn(len(c.Topics)), S: []int{5, 20, 20, 20, 100, 1000}[r.Intn(6)]}
			switch k {
			case "sleep":
				o.N = []int{1, 15, 15, 30, 150, 1000, 1000, 2000}[r.Intn(8)]
			case "get":
				if r.Intn(3) == 0 {
					o.N = 1 + r.Intn(10)
				}
			case "del":
				o.N = r.Intn(9)
			case "batch":
				o.Err = r.Intn(3) == 0
				for j := 1 + r.Intn(6); j > 0; j-- {
					x := Op{K: "put", T: r.Intn(len(c.Topics)), S: o.S, N: r.Intn(16)}
					if r.Intn(6) == 0 {
						x.K = "write"
					}
					o.B = append(o.B, x)
				}
			}
			ops = append(ops, o)
		}
		c.Workers = append(c.Workers, ops)
	}
	return c
}

// genIDRace makes goroutines that take ids and store messages at the same time.
func genIDRace(r *rand.Rand, tier string, n int) CCase {
	c := CCase{Topics: genTopics(r, 1+r.Intn(2)), FreeSize: r.Intn(2), Prefill: []int{0, 0, 5, 40}[r.Intn(4)]}
	for i := 2 + r.Intn(4); i > 0; i-- {
		var ops []Op
		for j := 3 + r.Intn(20); j > 0; j-- {
			o := Op{K: []string{"newid", "newid", "newid", "put", "putid", "putid", "del", "batch", "sync", "sleep"}[r.Intn(10)], T: r.Intn(2), S: 5}
			switch o.K {
			case "sleep":
				o.N = []int{1, 15, 150, 1000}[r.Intn(4)]
			case "batch":
				for b := 1 + r.Intn(3); b > 0; b-- {
					o.B = append(o.B, Op{K: "put", T: r.Intn(2), S: 5, N: r.Intn(16)})
				}
			}
			ops = append(ops, o)
		}
		c.Workers = append(c.Workers, ops)
	}
	return c
}

func shrinkConc(c CCase) []CCase {
	var out []CCase
	if len(c.Workers) > 1 {
		for i := range c.Workers {
			d := c
			d.Workers = append(append([][]Op(nil), c.Workers[:i]...), c.Workers[i+1:]...)
			out = append(out, d)
		}
	}
	for i := range c.Workers {
		for _, ops := range vh.Chunks(c.Workers[i]) {
			d := c
			d.Workers = append([][]Op(nil), c.Workers...)
			d.Workers[i] = ops
			out = append(out, d)
		}
	}
	if c.Prefill > 0 {
		d := c
		d.Prefill /= 2
		out = append(out, d)
	}
	for _, f := range []func(*CCase){func(d *CCase) { d.Expirer = false }, func(d *CCase) { d.Encrypt = false }, func(d *CCase) { d.FreeSize = 0 }} {
		d := c
		f(&d)
		if d.Expirer != c.Expirer || d.Encrypt != c.Encrypt || d.FreeSize != c.FreeSize {
			out = append(out, d)
		}
	}
	return out
}

// --- one opener ---

// OCase is a sequence of attempts to open and close databases.
type OCase struct {
	Dirs int  `json:"dirs"`
	Ops  []Op `json:"ops"`
}

func runOpeners(in *vh.Info, c OCase) error {
	type life struct {
		db   *unitdb.DB
		open bool
	}
	held := make([]*life, c.Dirs)
	stored := make([][]string, c.Dirs)
	var closed []*life
	dir := func(i int) string { return filepath.Join(in.Dir, fmt.Sprintf("d%d", i)) }
	opts := []unitdb.Options{unitdb.WithMutable()}
	cleanup := func() {
		for _, l := range held {
			if l != nil && l.open {
				l.db.Close()
			}
		}
	}
	check := func(d int) error {
		got, err := held[d].db.Get(unitdb.NewQuery([]byte("a.b")).WithLimit(100000))
		if err != nil {
			return fmt.Errorf("get failed: %v", err)
		}
		want := append([]string(nil), stored[d]...)
		var have []string
		for _, g := range got {
			have = append(have, string(g))
		}
		sort.Strings(want)
		sort.Strings(have)
		if strings.Join(want, "|") != strings.Join(have, "|") {
			return fmt.Errorf("database %d has %q, want %q", d, have, want)
		}
		return nil
	}
	one := func(o Op) error {
		d := o.T % c.Dirs
		switch o.K {
		case "open":
			db, err := unitdb.Open(dir(d), opts...)
			if held[d] != nil {
				if err == nil {
					db.Close()
					return fmt.Errorf("database %d opened twice", d)
				}
				in.Hit("second-open-refused")
				return check(d)
			}
			if err != nil {
				return fmt.Errorf("database %d cannot be opened although nobody has it open: %v", d, err)
			}
			held[d] = &life{db, true}
			return check(d)
		case "badopen":
			db, err := unitdb.Open(dir(d), append(opts, unitdb.WithEncryptionKey(make([]byte, o.N%40)))...)
			if err == nil {
				if held[d] != nil {
					db.Close()
					return fmt.Errorf("database %d opened twice", d)
				}
				if o.N%40 != 32 {
					db.Close()
					return fmt.Errorf("database opened with a key of %d bytes", o.N%40)
				}
				held[d] = &life{db, true}
				return nil
			}
			in.Hit("failed-open")
		case "race":
			// several goroutines open at once
			n := 2 + o.N%4
			dbs := make([]*unitdb.DB, n)
			var wg sync.WaitGroup
			for i := 0; i < n; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					db, err := unitdb.Open(dir(d), opts...)
					if err == nil {
						dbs[i] = db
					}
				}()
			}
			wg.Wait()
			got := 0
			for _, db := range dbs {
				if db != nil {
					got++
					if held[d] == nil {
						held[d] = &life{db, true}
					} else {
						defer db.Close()
					}
				}
			}
			limit := 1
			if got > limit {
				return fmt.Errorf("%d of %d concurrent attempts opened the same database", got, n)
			}
			in.Hit("open-race")
			if held[d] != nil {
				return check(d)
			}
		case "close", "closerace":
			l := held[d]
			if l == nil {
				return nil
			}
			held[d] = nil
			if o.K == "close" {
				if err := l.db.Close(); err != nil {
					return fmt.Errorf("close failed: %v", err)
				}
			} else {
				// two goroutines close; another one tries to open meanwhile
				var wg sync.WaitGroup
				var ok atomic.Int32
				var db2 *unitdb.DB
				for i := 0; i < 2; i++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						if l.db.Close() == nil {
							ok.Add(1)
						}
					}()
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					// it tries until the closing is over
					for i := 0; i < 100 && db2 == nil; i++ {
						if db, err := unitdb.Open(dir(d), opts...); err == nil {
							db2 = db
						}
						if ok.Load() > 0 {
							return
						}
						time.Sleep(time.Duration(1<<uint(o.P%20)) * time.Nanosecond)
					}
				}()
				wg.Wait()
				if ok.Load() != 1 {
					return fmt.Errorf("%d of 2 closings succeeded", ok.Load())
				}
				if db2 != nil {
					held[d] = &life{db2, true}
					in.Hit("opened-after-close")
					if db, err := unitdb.Open(dir(d), opts...); err == nil {
						db.Close()
						return errors.New("the database was opened twice")
					}
					if err := check(d); err != nil {
						return err
					}
				}
			}
			closed = append(closed, l)
		case "put":
			if held[d] == nil {
				return nil
			}
			p := fmt.Sprintf("m%d", o.P)
			if err := held[d].db.Put([]byte("a.b"), []byte(p)); err != nil {
				return fmt.Errorf("put failed: %v", err)
			}
			stored[d] = append(stored[d], p)
		case "dead":
			// a closed database refuses every call
			if len(closed) == 0 {
				return nil
			}
			db := closed[o.N%len(closed)].db
			calls := []struct {
				name string
				f    func() error
			}{
				{"Get", func() error { _, err := db.Get(unitdb.NewQuery([]byte("a.b"))); return err }},
				{"Put", func() error { return db.Put([]byte("a.b"), []byte("late")) }},
				{"PutEntry", func() error { return db.PutEntry(unitdb.NewEntry([]byte("a.b"), []byte("late"))) }},
				{"Delete", func() error { return db.Delete(message.NewID(1), []byte("a.b")) }},
				{"Batch", func() error {
					return db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error { return b.Put([]byte("a.b"), []byte("late")) })
				}},
				{"Sync", func() error { return db.Sync() }},
				{"Close", func() error { return db.Close() }},
			}
			cl := calls[o.P%len(calls)]
			if err := cl.f(); err == nil {
				return fmt.Errorf("%s succeeds on a closed database", cl.name)
			}
			in.Hit("closed-refused")
		case "sleep":
			time.Sleep(time.Duration(o.N) * time.Millisecond)
		}
		return nil
	}
	for i, o := range c.Ops {
		if err := one(o); err != nil {
			cleanup()
			return fmt.Errorf("op %d (%s): %v", i, o.K, err)
		}
	}
	for d := range held {
		if held[d] == nil {
			if err := one(Op{K: "open", T: d}); err != nil {
				cleanup()
				return fmt.Errorf("at the end: %v", err)
			}
		}
		if err := check(d); err != nil {
			cleanup()
			return fmt.Errorf("at the end: %v", err)
		}
	}
	if in.Seen("second-open-refused")+in.Seen("closed-refused")+in.Seen("failed-open")+in.Seen("open-race") > 0 {
		in.NonTrivial()
	}
	cleanup()
	return nil
}

func genOpeners(r *rand.Rand, tier string, n int) OCase {
	c := OCase{Dirs: 1 + r.Intn(2)}
	ks := []string{"open", "badopen", "race", "close", "closerace", "put", "dead", "sleep"}
	m := mix{"open": 6, "badopen": 2, "race": 3, "close": 6, "closerace": 4, "put": 4, "dead": 8, "sleep": 3}
	for i := 4 + r.Intn(24); i > 0; i-- {
		o := Op{K: pick(r, m, ks), T: r.Intn(2), N: r.Intn(40), P: r.Intn(1000)}
		if o.K == "sleep" {
			o.N = sleeps[r.Intn(len(sleeps))]
		}
		if o.K == "put" {
			o.P = i
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func concurrentSuites() []*vh.Suite {
	return []*vh.Suite{
		vh.New("P13", "concurrent", "at least two goroutines worked on one database and at least two messages were acknowledged", true, genConc, runConc, shrinkConc),
		vh.New("P17", "idrace", "at least two goroutines took ids or stored messages at the same time", true, genIDRace, runConc, shrinkConc),
		vh.New("P14", "openers", "an attempt to open a database that is open, or a call on a closed one, was made", true, genOpeners, runOpeners, func(c OCase) []OCase {
			var out []OCase
			for _, ops := range vh.Chunks(c.Ops) {
				d := c
				d.Ops = ops
				out = append(out, d)
			}
			return out
		}),
	}
}
