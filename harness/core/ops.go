//go:build go1.25

// Package core holds the model-based checks of the message database itself.
package core

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/unit-io/unitdb"
	"github.com/unit-io/unitdb/message"
	"github.com/unit-io/unitdb/server/zzverif/vh"
)

// Op is one step of a history.
type Op struct {
	K   string `json:"k"`             // kind
	T   int    `json:"t,omitempty"`   // topic index
	C   int    `json:"c,omitempty"`   // contract index
	N   int    `json:"n,omitempty"`   // count, handle, limit or duration
	S   int    `json:"s,omitempty"`   // payload size
	P   int    `json:"p,omitempty"`   // payload seed
	TTL string `json:"ttl,omitempty"` // time to live
	Via string `json:"via,omitempty"` // how an option is passed
	Enc bool   `json:"enc,omitempty"`
	B   []Op   `json:"b,omitempty"` // operations inside a batch
	Err bool   `json:"err,omitempty"`
}

// Case is a history over a fixed set of topics and contracts.
type Case struct {
	Topics    []string `json:"topics"`
	Contracts []uint32 `json:"contracts,omitempty"`
	Mutable   bool     `json:"mutable,omitempty"`
	Encrypt   bool     `json:"encrypt,omitempty"`
	Expirer   bool     `json:"expirer,omitempty"`
	SyncSec   int      `json:"syncSec,omitempty"`
	FreeSize  int      `json:"freeSize,omitempty"`
	DefLimit  int      `json:"defLimit,omitempty"`
	MaxLimit  int      `json:"maxLimit,omitempty"`
	Mem       int      `json:"mem,omitempty"` // size of the memory blocks, 0 for the default
	Ops       []Op     `json:"ops"`
}

// msg is a message the model knows about.
type msg struct {
	topic    int
	contract uint32
	payload  []byte
	seq      uint64
	id       []byte
	putAt    time.Time
	expires  int64
	deleted  bool
	optional bool // may or may not exist (unacknowledged when the process crashed)
	batch    int  // batch number, 0 if none
	enc      bool
	delAt    time.Time
}

// payload expands a size and a seed.
func payload(size, seed int) []byte {
	b := make([]byte, size)
	r := rand.New(rand.NewSource(int64(seed)*7919 + int64(size)))
	switch seed % 3 {
	case 0:
		r.Read(b)
	case 1:
		c := byte(r.Intn(256))
		for i := range b {
			b[i] = c
		}
	default:
		t := fmt.Sprintf("message %d of the feed; ", seed)
		for i := range b {
			b[i] = t[i%len(t)]
		}
	}
	// a unique tail makes duplicates and substitutions visible
	tag := fmt.Sprintf("#%d", seed)
	if size > len(tag) {
		copy(b[size-len(tag):], tag)
	} else {
		for i := range b {
			b[i] = byte(seed >> (8 * uint(i)))
		}
	}
	return b
}

// world runs a history against the real database and the model.
type world struct {
	c       Case
	in      *vh.Info
	dir     string
	gen     int
	db      *unitdb.DB
	msgs    []*msg
	ids     [][]byte
	idUsed  map[int]bool
	lastSeq uint64
	allIDs  map[uint64]string
	keys    [][]byte
	batchNo int
	key     []byte
	opens   int
	match   func(w *world, query string, m *msg) bool
	// checkEach makes every reopening be followed by a full comparison.
	checkEach bool
	encrypted bool // the database was created or opened with encryption
	crashed   bool
	idsSeen   map[uint64]bool
	done      meters // what was done since the database was opened
}

var defaultKey = []byte("4BWm1vZletvrCDGWsF6mex8oBSd59m6I")

func (w *world) options() []unitdb.Options {
	var o []unitdb.Options
	if w.c.Mutable {
		o = append(o, unitdb.WithMutable())
	}
	if w.c.Encrypt {
		o = append(o, unitdb.WithEncryption())
	}
	if w.c.Expirer {
		o = append(o, unitdb.WithBackgroundKeyExpiry())
	}
	if w.c.SyncSec > 0 {
		o = append(o, unitdb.WithMaxSyncDuration(time.Second, w.c.SyncSec))
	}
	if w.c.FreeSize > 0 {
		o = append(o, unitdb.WithFreeBlockSize(int64(w.c.FreeSize)))
	}
	if w.c.Mem > 0 {
		o = append(o, unitdb.WithMemdbSize(int64(w.c.Mem)))
	}
	if w.c.DefLimit > 0 {
		o = append(o, unitdb.WithDefaultQueryLimit(w.c.DefLimit))
	}
	if w.c.MaxLimit > 0 {
		o = append(o, unitdb.WithMaxQueryLimit(w.c.MaxLimit))
	}
	if w.key != nil {
		o = append(o, unitdb.WithEncryptionKey(w.key))
	}
	return o
}

func newWorld(in *vh.Info, c Case) *world {
	w := &world{c: c, in: in, idUsed: map[int]bool{}, allIDs: map[uint64]string{}}
	w.dir = filepath.Join(in.Dir, "db0")
	for _, o := range c.Ops {
		if o.K == "crash" {
			// which of the messages survived must be told from their content
			w.c.Ops = append([]Op(nil), c.Ops...)
			for j := range w.c.Ops {
				w.c.Ops[j].B = append([]Op(nil), w.c.Ops[j].B...)
				for k := range w.c.Ops[j].B {
					w.c.Ops[j].B[k].S = max(w.c.Ops[j].B[k].S, 10)
				}
				w.c.Ops[j].S = max(w.c.Ops[j].S, 10)
			}
			break
		}
	}
	return w
}

func (w *world) open() error {
	db, err := unitdb.Open(w.dir, w.options()...)
	if err != nil {
		return fmt.Errorf("open failed: %v", err)
	}
	w.db = db
	w.opens++
	w.done = meters{}
	if w.c.Encrypt {
		w.encrypted = true
	}
	return nil
}

func (w *world) close() error {
	if w.db == nil {
		return nil
	}
	err := w.db.Close()
	w.db = nil
	if err != nil {
		return fmt.Errorf("close failed: %v", err)
	}
	return nil
}

// abandon is used when a case has failed: nothing may block on it.
func (w *world) abandon() {
	if w.db != nil {
		db := w.db
		w.db = nil
		go func() {
			defer func() { recover() }()
			db.Close()
		}()
		time.Sleep(3 * time.Second)
	}
}

func (w *world) contract(i int) uint32 {
	if len(w.c.Contracts) == 0 {
		return 0
	}
	return w.c.Contracts[i%len(w.c.Contracts)]
}

func effContract(c uint32) uint32 {
	if c == 0 {
		return message.MasterContract
	}
	return c
}

func (w *world) nap() { time.Sleep(137 * time.Microsecond) }

func parseTTL(s string) (time.Duration, bool) {
	if s == "" {
		return 0, false
	}
	if d, err := time.ParseDuration(s); err == nil {
		return d, true
	}
	var n int
	if _, err := fmt.Sscanf(s, "%d", &n); err == nil {
		return time.Duration(n) * time.Second, true
	}
	return 0, false
}

// entry builds the entry for a put-like op and the model message it stands for.
func (w *world) entry(o Op) (*unitdb.Entry, *msg, error) {
	ti := o.T % len(w.c.Topics)
	topic := w.c.Topics[ti]
	m := &msg{topic: ti, contract: effContract(w.contract(o.C)), payload: payload(o.S, o.P), putAt: time.Now(), enc: o.Enc || w.encrypted}
	if d, ok := parseTTL(o.TTL); ok {
		m.expires = time.Now().Add(d).Unix()
	}
	if o.TTL != "" && o.Via != "entry" {
		topic += "?ttl=" + o.TTL
	}
	e := unitdb.NewEntry([]byte(topic), append([]byte(nil), m.payload...)).WithContract(w.contract(o.C))
	if o.TTL != "" && o.Via == "entry" {
		e = e.WithTTL(o.TTL)
	}
	if o.Enc {
		e = e.WithEncryption()
	}
	return e, m, nil
}

// seqOf assigns the model order of a message that got its number implicitly.
func (w *world) nextSeq() uint64 {
	w.lastSeq++
	return w.lastSeq
}

func (w *world) put(o Op) error {
	e, m, err := w.entry(o)
	if err != nil {
		return err
	}
	if o.K == "putid" {
		if len(w.ids) == 0 {
			return nil
		}
		h := o.N % len(w.ids)
		if w.idUsed[h] {
			return nil
		}
		w.idUsed[h] = true
		e = e.WithID(append([]byte(nil), w.ids[h]...))
		m.id = w.ids[h]
		m.seq = message.ID(m.id).Sequence()
		if err := w.db.PutEntry(e); err != nil {
			return fmt.Errorf("put with ID of topic %q refused: %v", w.c.Topics[m.topic], err)
		}
	} else {
		m.seq = w.nextSeq()
		if o.K == "puts" && o.TTL == "" && !o.Enc && w.contract(o.C) == 0 {
			buf := append([]byte(nil), m.payload...)
			tb := []byte(w.c.Topics[m.topic])
			if err := w.db.Put(tb, buf); err != nil {
				return fmt.Errorf("put to topic %q refused: %v", w.c.Topics[m.topic], err)
			}
			// the arguments may be modified once Put has returned
			for i := range buf {
				buf[i] ^= 0x5a
			}
			for i := range tb {
				tb[i] ^= 0x15
			}
		} else if err := w.db.PutEntry(e); err != nil {
			return fmt.Errorf("put to topic %q refused: %v", w.c.Topics[m.topic], err)
		}
	}
	w.msgs = append(w.msgs, m)
	w.done.puts++
	w.done.msgs++
	w.nap()
	return nil
}

func (w *world) newID() error {
	id := w.db.NewID()
	s := message.ID(id).Sequence()
	if s <= w.lastSeq {
		return fmt.Errorf("NewID returned sequence %d, not above %d", s, w.lastSeq)
	}
	w.done.ids++
	w.lastSeq = s
	w.ids = append(w.ids, append([]byte(nil), id...))
	w.nap()
	return nil
}

// live tells if the model message is visible now.
func (m *msg) live(now time.Time) bool {
	return !m.deleted && (m.expires == 0 || m.expires > now.Unix())
}

// expected returns matching live messages, newest first.
func (w *world) expected(query string, contract uint32, now time.Time) []*msg {
	var out []*msg
	for _, m := range w.msgs {
		if m.live(now) && m.contract == effContract(contract) && w.matches(query, m) {
			out = append(out, m)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].seq > out[j].seq })
	return out
}

func (w *world) matches(query string, m *msg) bool {
	if w.match != nil {
		return w.match(w, query, m)
	}
	return w.c.Topics[m.topic] == query
}

func describe(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%q..(%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// getCheck queries a topic and compares with the model.
func (w *world) getCheck(query string, contract uint32, limit int, opt string) error {
	q := unitdb.NewQuery([]byte(query + opt)).WithContract(contract)
	if limit > 0 {
		q = q.WithLimit(limit)
	}
	now := time.Now()
	got, err := w.db.Get(q)
	if err != nil {
		return fmt.Errorf("get %q failed: %v", query, err)
	}
	return w.compare(query, got, w.expected(query, contract, now), limit)
}

func (w *world) compare(query string, got [][]byte, want []*msg, limit int) error {
	if limit <= 0 {
		limit = w.c.DefLimit
		if limit <= 0 {
			limit = 1000
		}
	}
	if w.c.MaxLimit > 0 && limit > w.c.MaxLimit {
		limit = w.c.MaxLimit
	}
	for _, m := range want {
		if m.optional {
			return w.compareOptional(query, got, want)
		}
	}
	total := len(want)
	if len(want) > limit {
		want = want[:limit]
		w.in.Hit("limit-cut")
	}
	if len(got) != len(want) {
		return fmt.Errorf("get %q limit %d returned %d messages, want %d (of %d stored)%s", query, limit, len(got), len(want), total, w.diff(got, want))
	}
	for i := range got {
		if !bytes.Equal(got[i], want[i].payload) {
			return fmt.Errorf("get %q limit %d: message %d of %d is %s, want %s", query, limit, i, len(got), describe(got[i]), describe(want[i].payload))
		}
	}
	return nil
}

// compareOptional allows messages marked optional to be missing.
func (w *world) compareOptional(query string, got [][]byte, want []*msg) error {
	// fits tells whether got[i:] are the messages want[j:] without some that are optional.
	memo := map[[2]int]bool{}
	var fits func(i, j int) bool
	fits = func(i, j int) bool {
		if j == len(want) || len(got)-i > len(want)-j {
			return i == len(got) && j == len(want)
		}
		k := [2]int{i, j}
		if ok, done := memo[k]; done {
			return ok
		}
		ok := i < len(got) && bytes.Equal(got[i], want[j].payload) && fits(i+1, j+1) || want[j].optional && fits(i, j+1)
		memo[k] = ok
		return ok
	}
	j := 0
	for i, g := range got {
		found := false
		for j < len(want) {
			m := want[j]
			j++
			// of messages with the same payload the one is taken that leaves a message for each other one
			if bytes.Equal(m.payload, g) && (!m.optional || fits(i+1, j) || !fits(i, j)) {
				found = true
				if m.optional {
					m.optional = false // now known to have survived
					w.in.Hit("unacked-survived")
				}
				break
			}
			if !m.optional {
				return fmt.Errorf("get %q: acknowledged message %s (seq %d) is missing or out of order", query, describe(m.payload), m.seq)
			}
			m.deleted = true // did not survive; it must never come back
		}
		if !found {
			return fmt.Errorf("get %q: unexpected message %s", query, describe(g))
		}
	}
	for ; j < len(want); j++ {
		if !want[j].optional {
			return fmt.Errorf("get %q: acknowledged message %s (seq %d) is missing", query, describe(want[j].payload), want[j].seq)
		}
		want[j].deleted = true
	}
	return nil
}

func (w *world) diff(got [][]byte, want []*msg) string {
	cnt := map[string]int{}
	for _, m := range want {
		cnt[string(m.payload)]++
	}
	extra := 0
	var ex string
	for _, g := range got {
		if cnt[string(g)] == 0 {
			extra++
			ex = describe(g)
		} else {
			cnt[string(g)]--
		}
	}
	missing := 0
	for _, n := range cnt {
		missing += n
	}
	s := fmt.Sprintf("; %d missing, %d unexpected", missing, extra)
	if ex != "" {
		s += " such as " + ex
	}
	return s
}

// checkAll compares every topic and contract.
func (w *world) checkAll() error {
	cs := w.c.Contracts
	if len(cs) == 0 {
		cs = []uint32{0}
	}
	for _, c := range cs {
		for i, t := range w.c.Topics {
			dup := false
			for _, u := range w.c.Topics[:i] {
				if u == t {
					dup = true
				}
			}
			if dup || strings.Contains(t, "*") || strings.HasSuffix(t, "...") {
				continue
			}
			if err := w.getCheck(t, c, 0, ""); err != nil {
				return err
			}
		}
	}
	return nil
}

// synced waits until everything stored so far is in the files, and syncs.
func (w *world) syncAll() error {
	// The current one-second block is never synced; wait until it is past,
	// with the log written, and sync.
	time.Sleep(2*time.Second + 100*time.Millisecond)
	if err := w.db.Sync(); err != nil {
		return fmt.Errorf("sync failed: %v", err)
	}
	return nil
}

func (w *world) reopen() error {
	if err := w.close(); err != nil {
		return err
	}
	time.Sleep(50 * time.Millisecond)
	if err := w.open(); err != nil {
		return err
	}
	if w.checkEach {
		if err := w.checkAll(); err != nil {
			return fmt.Errorf("after reopening: %v", err)
		}
	}
	return nil
}

// setLogTimes gives copied log files the modification times they would have had.
func setLogTimes(dir string) {
	logs, _ := filepath.Glob(filepath.Join(dir, "logs", "*.log"))
	for _, l := range logs {
		var id int64
		if _, err := fmt.Sscanf(filepath.Base(l), "%d.log", &id); err == nil {
			t := time.Unix(0, id)
			os.Chtimes(l, t, t)
		}
	}
}
