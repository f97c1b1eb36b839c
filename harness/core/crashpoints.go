//go:build go1.25 && oshook

package core

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/unit-io/unitdb"
	"github.com/unit-io/unitdb/server/zzverif/vh"
)

// CPCase is a history with the points at which the process is killed: after
// how many of the calls that change a file, as a share of all of them.
type CPCase struct {
	Case
	Points []int `json:"points"`           // in 1/100000 of the calls
	Again  []int `json:"again,omitempty"`  // points of a second crash, during the recovery
	Strict bool  `json:"strict,omitempty"` // deletions in a batch must be recovered with the rest of it
}

// fileOp is one recorded call that changed a file of the database.
type fileOp struct {
	op, name, to string
	off          int64
	data         []byte
	file         *os.File
	at           time.Time
}

type recorder struct {
	dir string
	ops []fileOp
}

func (r *recorder) start(dir string) {
	r.dir = dir
	os.VerifSetHook(func(o os.VerifOp) {
		if o.Name != r.dir && !strings.HasPrefix(o.Name, r.dir+"/") {
			return
		}
		r.ops = append(r.ops, fileOp{o.Op, o.Name, o.To, o.Off, append([]byte(nil), o.Data...), o.File, time.Now()})
	})
}

func (r *recorder) stop() { os.VerifSetHook(nil) }

// image is the content of a directory as an ordered list of calls left it.
type image struct {
	dirs  map[string]bool
	names map[string]*[]byte
	open  map[*os.File]*[]byte
}

func newImage() *image {
	return &image{dirs: map[string]bool{}, names: map[string]*[]byte{}, open: map[*os.File]*[]byte{}}
}

func (im *image) apply(o fileOp) {
	node := func() *[]byte {
		if n := im.open[o.file]; n != nil {
			return n
		}
		n := im.names[o.name]
		if n == nil {
			n = new([]byte)
			im.names[o.name] = n
		}
		if o.file != nil {
			im.open[o.file] = n
		}
		return n
	}
	size := func(n *[]byte, l int64) {
		if int64(len(*n)) < l {
			*n = append(*n, make([]byte, l-int64(len(*n)))...)
		}
	}
	switch o.op {
	case "mkdir":
		im.dirs[o.name] = true
	case "create", "createtrunc":
		n := im.names[o.name]
		if n == nil {
			n = new([]byte)
			im.names[o.name] = n
		}
		im.open[o.file] = n
		if o.op == "createtrunc" {
			*n = nil
		}
	case "write":
		n := node()
		size(n, o.off+int64(len(o.data)))
		copy((*n)[o.off:], o.data)
	case "truncate":
		n := node()
		size(n, o.off)
		*n = (*n)[:o.off:o.off]
	case "rename":
		im.names[o.to] = im.names[o.name]
		delete(im.names, o.name)
	case "remove":
		delete(im.names, o.name)
		delete(im.dirs, o.name)
	}
}

// clone copies the named files (not the handles) under another directory name.
func (im *image) clone(from, to string) *image {
	c := newImage()
	for d := range im.dirs {
		c.dirs[to+strings.TrimPrefix(d, from)] = true
	}
	for n, b := range im.names {
		x := append([]byte(nil), *b...)
		c.names[to+strings.TrimPrefix(n, from)] = &x
	}
	return c
}

// write lays the image out under a directory.
func (im *image) write(from, to string) {
	if err := os.MkdirAll(to, 0777); err != nil {
		panic(err)
	}
	for d := range im.dirs {
		if err := os.MkdirAll(to+strings.TrimPrefix(d, from), 0777); err != nil {
			panic(err)
		}
	}
	for n, b := range im.names {
		p := to + strings.TrimPrefix(n, from)
		os.MkdirAll(filepath.Dir(p), 0777)
		if err := os.WriteFile(p, *b, 0666); err != nil {
			panic(err)
		}
	}
	setLogTimes(to)
}

// cpCall is one call of the history and where it lies among the file calls.
type cpCall struct {
	start, end int // file calls made before it began and when it returned
	closed     int // file calls made when the database was closed after it
	ack        time.Time
	puts       []*cpMsg
	dels       []*cpMsg
	batch      bool
}

type cpMsg struct {
	topic   int
	payload []byte
	id      []byte
	put     *cpCall
	del     *cpCall
	group   int
}

type cpWorld struct {
	c     CPCase
	in    *vh.Info
	rec   recorder
	db    *unitdb.DB
	dir   string
	msgs  []*cpMsg
	calls []*cpCall
	pay   int
}

func (w *cpWorld) options() []unitdb.Options {
	x := world{c: w.c.Case}
	return x.options()
}

func (w *cpWorld) begin(batch bool) *cpCall {
	return &cpCall{start: len(w.rec.ops), batch: batch}
}

func (w *cpWorld) done(c *cpCall) {
	c.end, c.ack = len(w.rec.ops), time.Now()
	w.calls = append(w.calls, c)
	for _, m := range c.puts {
		m.put = c
		w.msgs = append(w.msgs, m)
	}
	for _, m := range c.dels {
		m.del = c
	}
	time.Sleep(137 * time.Microsecond)
}

func (w *cpWorld) newMsg(o Op) (*unitdb.Entry, *cpMsg) {
	w.pay++
	m := &cpMsg{topic: o.T % len(w.c.Topics), payload: payload(max(o.S, 10), w.pay)}
	e := unitdb.NewEntry([]byte(w.c.Topics[m.topic]), append([]byte(nil), m.payload...))
	if o.K == "putid" {
		m.id = append([]byte(nil), w.db.NewID()...)
		e = e.WithID(append([]byte(nil), m.id...))
	}
	if o.Enc {
		e = e.WithEncryption()
	}
	return e, m
}

func (w *cpWorld) victim(n int) *cpMsg {
	var c []*cpMsg
	for _, m := range w.msgs {
		if m.id != nil && m.del == nil {
			c = append(c, m)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[n%len(c)]
}

func (w *cpWorld) delEntry(m *cpMsg) *unitdb.Entry {
	return unitdb.NewEntry([]byte(w.c.Topics[m.topic]), nil).WithID(append([]byte(nil), m.id...))
}

func (w *cpWorld) step(o Op) error {
	switch o.K {
	case "put", "puts", "putid":
		e, m := w.newMsg(o)
		c := w.begin(false)
		if err := w.db.PutEntry(e); err != nil {
			return fmt.Errorf("put refused: %v", err)
		}
		c.puts = []*cpMsg{m}
		w.done(c)
	case "bulk":
		for i := 0; i < o.N%60+1; i++ {
			p := o
			p.K = "put"
			if i%7 == 3 {
				p.K = "putid"
			}
			if err := w.step(p); err != nil {
				return err
			}
		}
	case "del":
		m := w.victim(o.N)
		if m == nil {
			return nil
		}
		c := w.begin(false)
		if err := w.db.DeleteEntry(w.delEntry(m)); err != nil {
			return fmt.Errorf("delete of a stored message failed: %v", err)
		}
		c.dels = []*cpMsg{m}
		w.in.Hit("deleted")
		w.done(c)
	case "batch":
		c := w.begin(true)
		err := w.db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error {
			for _, s := range o.B {
				switch s.K {
				case "del":
					m := w.victim(s.N)
					if m == nil {
						continue
					}
					dup := false
					for _, d := range c.dels {
						dup = dup || d == m
					}
					if dup {
						continue
					}
					if err := b.DeleteEntry(w.delEntry(m)); err != nil {
						return fmt.Errorf("batch delete refused: %v", err)
					}
					c.dels = append(c.dels, m)
				case "write":
					if err := b.Write(); err != nil {
						return err
					}
					time.Sleep(20 * time.Millisecond)
				default:
					e, m := w.newMsg(s)
					if err := b.PutEntry(e); err != nil {
						return fmt.Errorf("batch put refused: %v", err)
					}
					c.puts = append(c.puts, m)
				}
			}
			if o.Err {
				return errAbort
			}
			return nil
		})
		if o.Err {
			if err != errAbort {
				return fmt.Errorf("aborted batch returned %v", err)
			}
			w.in.Hit("batch-aborted")
			return nil // none of its messages is ever known
		}
		if err != nil {
			return fmt.Errorf("batch failed: %v", err)
		}
		w.in.Hit("batch")
		w.done(c)
	case "sync":
		if err := w.db.Sync(); err != nil {
			return fmt.Errorf("sync failed: %v", err)
		}
		w.in.Hit("sync")
	case "syncall":
		time.Sleep(2*time.Second + 100*time.Millisecond)
		if err := w.db.Sync(); err != nil {
			return fmt.Errorf("sync failed: %v", err)
		}
		w.in.Hit("sync")
	case "sleep":
		time.Sleep(time.Duration(o.N)*time.Millisecond + 3*time.Microsecond)
	case "reopen":
		if err := w.db.Close(); err != nil {
			return fmt.Errorf("close failed: %v", err)
		}
		w.db = nil
		// everything acknowledged is in the files now
		for _, c := range w.calls {
			if c.closed == 0 {
				c.closed = len(w.rec.ops)
			}
		}
		time.Sleep(50 * time.Millisecond)
		w.in.Hit("reopen")
		return w.open()
	}
	return nil
}

func (w *cpWorld) open() error {
	db, err := unitdb.Open(w.dir, w.options()...)
	if err != nil {
		return fmt.Errorf("open failed: %v", err)
	}
	w.db = db
	return nil
}

// fate of a message at a crash: absent, present or either.
const (
	absent = iota
	present
	either
)

// happened tells if the effect of a call is in the files at a crash.
func (w *cpWorld) happened(c *cpCall, k int, at time.Time) int {
	switch {
	case c == nil || c.start > k:
		return absent
	case c.closed > 0 && c.closed <= k:
		return present
	case c.end <= k && (c.batch || !c.ack.Add(logSlack).After(at)):
		return present
	}
	return either
}

// expect tells what must be there after a crash when k file calls were made,
// at the time at.
func (w *cpWorld) expect(k int, at time.Time) map[*cpMsg]int {
	f := map[*cpMsg]int{}
	for _, m := range w.msgs {
		p, d := w.happened(m.put, k, at), w.happened(m.del, k, at)
		if d == present && !w.c.Strict && m.del.batch && (m.del.closed == 0 || m.del.closed > k) && m.del.ack.Add(logSlack).After(at) {
			// deletions in a batch reach the log as others do
			d = either
		}
		switch {
		case p == absent:
			f[m] = absent
		case d == present:
			f[m] = absent
		case d == either || p == either:
			f[m] = either
		default:
			f[m] = present
		}
	}
	return f
}

// verify compares the recovered database with the expectation, and returns what was found.
func (w *cpWorld) verify(db *unitdb.DB, f map[*cpMsg]int, k int, at time.Time) (map[*cpMsg]bool, error) {
	byPay := map[string]*cpMsg{}
	for _, m := range w.msgs {
		byPay[string(m.payload)] = m
	}
	order := map[*cpMsg]int{}
	for i, m := range w.msgs {
		order[m] = i
	}
	found := map[*cpMsg]bool{}
	for ti, t := range w.c.Topics {
		got, err := db.Get(unitdb.NewQuery([]byte(t)).WithLimit(100000))
		if err != nil {
			return nil, fmt.Errorf("get %q failed: %v", t, err)
		}
		last := len(w.msgs)
		for _, g := range got {
			m := byPay[string(g)]
			if m == nil || m.topic != ti {
				return nil, fmt.Errorf("get %q returned %s, which was not stored there", t, describe(g))
			}
			if found[m] {
				return nil, fmt.Errorf("get %q returned message %s twice", t, describe(g))
			}
			if order[m] >= last {
				return nil, fmt.Errorf("get %q returned message %s out of order", t, describe(g))
			}
			last = order[m]
			found[m] = true
		}
	}
	for _, m := range w.msgs {
		switch {
		case f[m] == present && !found[m]:
			return nil, fmt.Errorf("message %s of topic %q, acknowledged and due to be in the log, is lost", describe(m.payload), w.c.Topics[m.topic])
		case f[m] == absent && found[m] && m.del != nil:
			return nil, fmt.Errorf("deleted message %s of topic %q is back", describe(m.payload), w.c.Topics[m.topic])
		case f[m] == absent && found[m]:
			return nil, fmt.Errorf("message %s of topic %q is there before it was put", describe(m.payload), w.c.Topics[m.topic])
		}
	}
	for _, c := range w.calls {
		if !c.batch || w.happened(c, k, at) != either {
			continue
		}
		yes, no := "", ""
		for _, m := range c.puts {
			if m.del != nil {
				continue
			}
			if found[m] {
				yes = describe(m.payload)
			} else {
				no = describe(m.payload)
			}
		}
		for _, m := range c.dels {
			if !w.c.Strict || w.happened(m.put, k, at) != present {
				continue
			}
			if found[m] {
				no = "deletion of " + describe(m.payload)
			} else {
				yes = "deletion of " + describe(m.payload)
			}
		}
		w.in.Hit("batch-in-flight")
		if yes != "" && no != "" {
			return nil, fmt.Errorf("part of a batch is there (%s), part is not (%s)", yes, no)
		}
	}
	return found, nil
}

// difference names the first message that is on one side only.
func (w *cpWorld) difference(got, want [][]byte) string {
	n := map[string]int{}
	for _, b := range want {
		n[string(b)]++
	}
	for _, b := range got {
		if n[string(b)]--; n[string(b)] < 0 {
			for _, m := range w.msgs {
				if string(m.payload) == string(b) {
					if m.del != nil {
						return "deleted message " + describe(b) + " is back"
					}
					return "message " + describe(b) + " is new or doubled"
				}
			}
			return "unknown " + describe(b)
		}
	}
	for _, b := range want {
		if n[string(b)] > 0 {
			return "lost " + describe(b)
		}
	}
	return "other order"
}

func (w *cpWorld) point(im *image, k int, at time.Time, again []int) error {
	f := w.expect(k, at)
	dir := filepath.Join(w.in.Dir, "crash")
	os.RemoveAll(dir)
	defer os.RemoveAll(dir)
	im.write(w.dir, dir)
	var rec recorder
	if len(again) > 0 {
		rec.start(dir)
	}
	db, err := unitdb.Open(dir, w.options()...)
	if len(again) > 0 {
		rec.stop()
	}
	if err != nil {
		return fmt.Errorf("the database does not open: %v", err)
	}
	settle := func(dir string, db *unitdb.DB) error {
		found, err := w.verify(db, f, k, at)
		if err != nil {
			db.Close()
			return err
		}
		if k%3 != 0 {
			return db.Close()
		}
		// what was recovered stays so, next to new messages
		extra := payload(20, 9000000)
		ti := len(found) % len(w.c.Topics)
		if err := db.Put([]byte(w.c.Topics[ti]), extra); err != nil {
			db.Close()
			return fmt.Errorf("put after recovery failed: %v", err)
		}
		if err := db.Close(); err != nil {
			return fmt.Errorf("close after recovery failed: %v", err)
		}
		time.Sleep(30 * time.Millisecond)
		db, err = unitdb.Open(dir, w.options()...)
		if err != nil {
			return fmt.Errorf("the recovered database does not open again: %v", err)
		}
		defer db.Close()
		for i, t := range w.c.Topics {
			got, err := db.Get(unitdb.NewQuery([]byte(t)).WithLimit(100000))
			if err != nil {
				return fmt.Errorf("get %q failed: %v", t, err)
			}
			var want [][]byte
			if i == ti {
				want = append(want, extra)
			}
			for j := len(w.msgs) - 1; j >= 0; j-- {
				if m := w.msgs[j]; found[m] && m.topic == i {
					want = append(want, m.payload)
				}
			}
			if fmt.Sprintf("%x", got) != fmt.Sprintf("%x", want) {
				return fmt.Errorf("topic %q held %d messages after recovery and a put, and %d after closing and opening (%s)", t, len(want), len(got), w.difference(got, want))
			}
		}
		return nil
	}
	if err := settle(dir, db); err != nil {
		return err
	}
	if len(again) == 0 {
		return nil
	}
	// kill the process again, during that recovery
	im2 := im.clone(w.dir, dir)
	var ks []int
	for _, a := range again {
		ks = append(ks, a*(len(rec.ops)+1)/100000)
	}
	sort.Ints(ks)
	n := 0
	for _, k2 := range ks {
		for ; n < k2 && n < len(rec.ops); n++ {
			im2.apply(rec.ops[n])
		}
		dir2 := filepath.Join(w.in.Dir, "crash2")
		os.RemoveAll(dir2)
		im2.write(dir, dir2)
		db, err := unitdb.Open(dir2, w.options()...)
		if err == nil {
			err = settle(dir2, db)
		}
		os.RemoveAll(dir2)
		if err != nil {
			return fmt.Errorf("after a second crash, at call %d of %d of the recovery: %v", k2, len(rec.ops), err)
		}
		w.in.Hit("crash-in-recovery")
	}
	return nil
}

func runCP(in *vh.Info, c CPCase) error {
	w := &cpWorld{c: c, in: in, dir: filepath.Join(in.Dir, "db0")}
	w.rec.start(w.dir)
	defer w.rec.stop()
	fail := func(err error) error {
		if w.db != nil {
			db := w.db
			go func() {
				defer func() { recover() }()
				db.Close()
			}()
			time.Sleep(3 * time.Second)
		}
		return err
	}
	if err := w.open(); err != nil {
		return fail(err)
	}
	opened := len(w.rec.ops)
	for i, o := range c.Ops {
		if err := w.step(o); err != nil {
			return fail(fmt.Errorf("op %d (%s): %v", i, o.K, err))
		}
	}
	if err := w.db.Close(); err != nil {
		return fail(fmt.Errorf("close failed: %v", err))
	}
	w.db = nil
	w.rec.stop()
	ops := w.rec.ops
	if os.Getenv("VERIF_OPS") != "" {
		for _, c := range w.calls {
			fmt.Println("call", c.start, c.end, c.ack.Format("05.000000"), "puts", len(c.puts), "dels", len(c.dels))
		}
		for i, o := range ops {
			fmt.Println(i, o.at.Format("05.000000"), o.op, filepath.Base(o.name), filepath.Base(o.to), o.off, len(o.data))
		}
	}
	end := time.Now().Add(time.Hour)
	var ks []int
	for _, p := range c.Points {
		// most points lie after the opening, a few inside it
		if p < 3000 {
			ks = append(ks, p*opened/3000)
		} else {
			ks = append(ks, opened+(p-3000)*(len(ops)-opened+1)/97000)
		}
	}
	sort.Ints(ks)
	im := newImage()
	n := 0
	for i, k := range ks {
		k = min(k, len(ops))
		for ; n < k; n++ {
			im.apply(ops[n])
		}
		at := end
		if k < len(ops) {
			at = ops[k].at
		}
		var again []int
		if i == len(ks)/2 {
			again = c.Again
		}
		if err := w.point(im, k, at, again); err != nil {
			what := "the end"
			if k < len(ops) {
				what = fmt.Sprintf("%s of %s", ops[k].op, filepath.Base(ops[k].name))
			}
			return fmt.Errorf("crash after %d of %d file calls, before %s: %v", k, len(ops), what, err)
		}
		in.Hit("crash-point")
		if k < len(ops) {
			in.Hit("before-" + ops[k].op + "-" + strings.TrimLeft(filepath.Base(ops[k].name), "0123456789"))
		}
	}
	if len(w.msgs) > 1 && in.Seen("crash-point") > 0 {
		in.NonTrivial()
	}
	return nil
}

func genCP(m mix) func(r *rand.Rand, tier string, n int) CPCase {
	return func(r *rand.Rand, tier string, n int) CPCase {
		g := genOpts{topics: 1 + r.Intn(3), maxOps: 14, batchDel: true, batchErr: true, batchW: r.Intn(2) == 0, m: m}
		if r.Intn(6) == 0 {
			g.maxOps = 40
		}
		c := CPCase{}
		c.Topics = genTopics(r, g.topics)
		c.Mutable = true
		c.Encrypt = r.Intn(8) == 0
		if r.Intn(3) > 0 {
			c.FreeSize = []int{1, 64, 4096}[r.Intn(3)]
		}
		if r.Intn(4) == 0 {
			c.SyncSec = 1 + r.Intn(3)
		}
		c.Ops = genOps(r, g)
		for i := range c.Ops {
			if c.Ops[i].K == "sleep" && c.Ops[i].N > 400 && r.Intn(2) == 0 {
				c.Ops[i].N = []int{16, 31, 50}[r.Intn(3)]
			}
		}
		np := 6 + r.Intn(10)
		for i := 0; i < np; i++ {
			c.Points = append(c.Points, r.Intn(100000))
		}
		if r.Intn(4) == 0 {
			c.Points = append(c.Points, 99999)
		}
		if r.Intn(3) == 0 {
			// a run of neighbouring points
			b := 3000 + r.Intn(96000)
			for i := 0; i < 8; i++ {
				c.Points = append(c.Points, min(b+i*97, 99999))
			}
		}
		for i := 0; i < r.Intn(5); i++ {
			c.Again = append(c.Again, r.Intn(100000))
		}
		return c
	}
}

func shrinkCP(c CPCase) []CPCase {
	var out []CPCase
	for _, p := range vh.Chunks(c.Points) {
		d := c
		d.Points = p
		out = append(out, d)
	}
	for _, p := range vh.Chunks(c.Again) {
		d := c
		d.Again = p
		out = append(out, d)
	}
	for _, s := range shrinkCase(c.Case) {
		d := c
		d.Case = s
		out = append(out, d)
		if len(s.Ops) < len(c.Ops) {
			// a shorter history has other points
			d.Points = nil
			for i := 0; i < 100; i++ {
				d.Points = append(d.Points, 3000+i*970)
			}
			out = append(out, d)
		}
	}
	return out
}

func init() {
	const rule = "at least two messages and one crash point among the file calls"
	extraSuites = append(extraSuites,
		vh.New("P03", "crashpoints", rule, true, genCP(mix{"put": 6, "putid": 8, "bulk": 1, "batch": 3, "del": 5, "sync": 2, "syncall": 4, "sleep": 5, "reopen": 1}), runCP, shrinkCP),
		vh.New("P04", "delcrash", rule, true, genCP(mix{"put": 2, "putid": 8, "batch": 2, "del": 9, "sync": 2, "syncall": 5, "sleep": 6, "reopen": 1}), runCP, shrinkCP),
		vh.New("P10", "batchcrash", rule, true, genCP(mix{"put": 2, "putid": 3, "batch": 9, "del": 2, "sync": 2, "syncall": 3, "sleep": 4, "reopen": 1}), runCP, shrinkCP),
		vh.New("P12", "reusecrash", rule, true, genCP(mix{"put": 3, "putid": 7, "bulk": 1, "del": 8, "syncall": 8, "sleep": 2, "reopen": 2}), runCP, shrinkCP))
}
