//go:build go1.25

package core

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/golang/snappy"
	"github.com/unit-io/unitdb"
	"github.com/unit-io/unitdb/message"
	"github.com/unit-io/unitdb/server/zzverif/vh"
	"github.com/unit-io/unitdb/uid"
)

// runPlain runs the history and applies a rule for non-triviality.
func runPlain(prep func(w *world), rule func(in *vh.Info, w *world) bool, after func(w *world) error) func(in *vh.Info, c Case) error {
	return func(in *vh.Info, c Case) error {
		w := newWorld(in, c)
		if prep != nil {
			prep(w)
		}
		if err := w.runOps(); err != nil {
			return err
		}
		if after != nil {
			if err := after(w); err != nil {
				w.abandon()
				return err
			}
		}
		if rule(in, w) {
			in.NonTrivial()
		}
		return w.finish()
	}
}

func genContracts(r *rand.Rand) []uint32 {
	cs := []uint32{0}
	base := r.Uint32()
	for i := 0; i < 2; i++ {
		switch r.Intn(4) {
		case 0:
			cs = append(cs, r.Uint32()|1)
		case 1: // differs in the most significant byte only
			cs = append(cs, base^uint32(1+r.Intn(255))<<24)
		case 2: // differs from the default contract in one bit
			cs = append(cs, message.MasterContract^(1<<uint(r.Intn(32))))
		default: // differs in one bit
			cs = append(cs, base^1<<uint(r.Intn(32)))
		}
	}
	if r.Intn(3) == 0 {
		cs[1] = base | 1
	}
	if cs[1] == cs[2] {
		cs[2] ^= 0x8000
	}
	return cs
}

// genRelated makes topics that share parts: permutations, prefixes,
// repetitions and different splits of the same letters.
func genRelated(r *rand.Rand, n int) []string {
	al := []string{"a", "b", "c", "ab", "bc", "abc", "x1", "1x", "A"}
	var parts []string
	for i := 0; i < 2+r.Intn(3); i++ {
		parts = append(parts, al[r.Intn(len(al))])
	}
	if r.Intn(3) == 0 {
		// a long part
		l := []int{7, 8, 9, 16, 17, 33, 100, 255, 256, 257, 600, 2000, 5000}[r.Intn(13)] + r.Intn(8)
		b := bytes.Repeat([]byte(al[r.Intn(len(al))]), l)[:l]
		if r.Intn(2) == 0 {
			for i := range b {
				b[i] = byte('a' + r.Intn(26))
			}
		}
		parts[r.Intn(len(parts))] = string(b)
	}
	seen := map[string]bool{}
	var out []string
	add := func(p []string) {
		s := strings.Join(p, ".")
		if s != "" && !seen[s] && len(out) < n {
			seen[s] = true
			out = append(out, s)
		}
	}
	add(parts)
	for tries := 0; len(out) < n && tries < 200; tries++ {
		p := append([]string(nil), parts...)
		switch r.Intn(9) {
		case 7, 8:
			// one letter of a part, often of the longest
			i := r.Intn(len(p))
			for j := range p {
				if len(p[j]) > len(p[i]) && r.Intn(4) > 0 {
					i = j
				}
			}
			b := []byte(p[i])
			j := r.Intn(len(b))
			b[j] ^= []byte{1, 2, 4, 8, 32}[r.Intn(5)]
			if b[j] >= '0' && b[j] <= '9' || b[j] >= 'a' && b[j] <= 'z' || b[j] >= 'A' && b[j] <= 'Z' {
				p[i] = string(b)
			}
		case 0:
			r.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
		case 1:
			p = p[:1+r.Intn(len(p))]
		case 2:
			p = append(p, al[r.Intn(len(al))])
		case 3:
			i := r.Intn(len(p))
			p = append(p[:i+1], p[i:]...)
		case 4:
			if len(p) > 1 {
				i := r.Intn(len(p) - 1)
				p[i] += p[i+1]
				p = append(p[:i+1], p[i+2:]...)
			}
		case 5:
			p[r.Intn(len(p))] = al[r.Intn(len(al))]
		default:
			p = p[r.Intn(len(p)):]
		}
		add(p)
	}
	return out
}

// --- wildcards ---

// glob tells if a message stored to topic pattern p is for the static topic q:
// '*' stands for exactly one level, a trailing '...' for one or more levels.
func glob(p, q string) bool {
	multi := strings.HasSuffix(p, "...")
	p = strings.TrimSuffix(p, "...")
	ps := split(p)
	qs := split(q)
	if multi {
		if len(qs) <= len(ps) {
			return false
		}
		qs = qs[:len(ps)]
	}
	if len(ps) != len(qs) {
		return false
	}
	for i := range ps {
		if ps[i] != "*" && ps[i] != qs[i] {
			return false
		}
	}
	return true
}

func split(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ".")
}

func isPattern(t string) bool { return strings.Contains(t, "*") || strings.HasSuffix(t, "...") }

func genWild(r *rand.Rand, n int) (topics []string) {
	al := []string{"a", "b", "c"}
	seen := map[string]bool{}
	add := func(s string) {
		if s != "" && !seen[s] {
			seen[s] = true
			topics = append(topics, s)
		}
	}
	var base []string
	for i := 0; i < 1+r.Intn(2); i++ {
		var p []string
		for j := 0; j < 1+r.Intn(4); j++ {
			p = append(p, al[r.Intn(len(al))])
		}
		base = append(base, strings.Join(p, "."))
	}
	for tries := 0; len(topics) < n && tries < 100; tries++ {
		p := split(base[r.Intn(len(base))])
		switch r.Intn(6) {
		case 0:
			add(strings.Join(p, "."))
			continue
		case 1:
			p = append(p, al[r.Intn(3)])
			add(strings.Join(p, "."))
			continue
		case 2:
			p = p[:r.Intn(len(p)+1)]
			for i := range p {
				if r.Intn(3) == 0 {
					p[i] = "*"
				}
			}
			add(strings.Join(p, ".") + "...")
			continue
		}
		for i := range p {
			if r.Intn(2) == 0 {
				p[i] = "*"
			}
		}
		if r.Intn(4) == 0 {
			p = append(p, "*")
		}
		add(strings.Join(p, "."))
	}
	return topics
}

func wildChecks(w *world, r *rand.Rand) error {
	queries := map[string]bool{}
	var order []string
	add := func(q string) {
		if q != "" && !queries[q] && len(split(q)) <= 6 {
			queries[q] = true
			order = append(order, q)
		}
	}
	al := []string{"a", "b", "c", "d"}
	for _, t := range w.c.Topics {
		if !isPattern(t) {
			add(t)
		}
		// instances and near misses of every pattern
		for i := 0; i < 3; i++ {
			p := split(strings.TrimSuffix(t, "..."))
			for j := range p {
				if p[j] == "*" || r.Intn(6) == 0 {
					p[j] = al[r.Intn(4)]
				}
			}
			if strings.HasSuffix(t, "...") {
				for k := r.Intn(3); k > 0; k-- {
					p = append(p, al[r.Intn(4)])
				}
			} else if r.Intn(5) == 0 {
				p = append(p, al[r.Intn(4)])
			}
			add(strings.Join(p, "."))
		}
	}
	for _, q := range order {
		if err := w.getCheck(q, 0, 0, ""); err != nil {
			return err
		}
		if n := len(w.expected(q, 0, time.Now())); n > 0 {
			w.in.Hit("matching-query")
			for _, m := range w.expected(q, 0, time.Now()) {
				if isPattern(w.c.Topics[m.topic]) {
					w.in.Hit("pattern-delivered")
					break
				}
			}
		}
	}
	// the text of a pattern returns at least the messages stored to it
	for ti, t := range w.c.Topics {
		if !isPattern(t) {
			continue
		}
		got, err := w.db.Get(unitdb.NewQuery([]byte(t)).WithLimit(100000))
		if err != nil {
			return fmt.Errorf("get of pattern %q failed: %v", t, err)
		}
		cnt := map[string]int{}
		for _, g := range got {
			cnt[string(g)]++
		}
		for _, m := range w.msgs {
			if m.topic == ti && !m.optional && m.live(time.Now()) {
				if cnt[string(m.payload)] == 0 {
					return fmt.Errorf("get of pattern %q misses %s stored to it", t, describe(m.payload))
				}
				cnt[string(m.payload)]--
			}
		}
	}
	return nil
}

// --- encryption ---

// leaks searches the files of the database for the content of messages that must be encrypted.
func (w *world) leaks(dir string) error {
	type needle struct {
		m *msg
		b []byte
	}
	var ns []needle
	for _, m := range w.msgs {
		if !m.enc {
			continue
		}
		if len(m.payload) >= 12 {
			// what an unencrypted entry would hold
			enc := snappy.Encode(nil, m.payload)
			if len(enc) >= 12 {
				ns = append(ns, needle{m, enc[len(enc)-8:]}, needle{m, enc[4:12]})
			}
			ns = append(ns, needle{m, m.payload[:12]}, needle{m, m.payload[len(m.payload)-8:]})
		}
	}
	if len(ns) == 0 {
		return nil
	}
	return filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		data, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		w.in.Hit("file-searched")
		for _, n := range ns {
			if m := n.m; !w.plain(n.b) && bytes.Contains(data, n.b) && !w.clearHas(n.b) {
				return fmt.Errorf("file %s holds the content of an encrypted message (%s)", filepath.Base(p), describe(m.payload))
			}
		}
		return nil
	})
}

// plain tells if the bytes are so regular that numbers in a file may look the same.
func (w *world) plain(b []byte) bool {
	distinct := map[byte]bool{}
	small := 0
	for _, c := range b {
		distinct[c] = true
		if c == 0 || c == 0xff {
			small++
		}
	}
	return len(distinct) < 5 || small > 2
}

// clearHas tells if a message stored without encryption may account for the bytes.
func (w *world) clearHas(b []byte) bool {
	for _, m := range w.msgs {
		if m.enc {
			continue
		}
		if bytes.Contains(m.payload, b) || bytes.Contains(snappy.Encode(nil, m.payload), b) {
			return true
		}
	}
	return false
}

// --- file sizes ---

func dirSize(dir string) (n int64) {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if fi.Name() == "logs" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".lock") {
			n += fi.Size()
		}
		return nil
	})
	return n
}

// extraSuites are those that need a special build.
var extraSuites []*vh.Suite

// faultStep needs a special build, too.
var faultStep func(w *world, o Op) error

// Suites lists the checks of the message database.
func Suites() []*vh.Suite {
	var out []*vh.Suite
	add := func(s *vh.Suite) { out = append(out, s) }

	add(vh.New("P01", "readwrite", "a history with at least two stored messages, a query and a sync in it", true,
		func(r *rand.Rand, tier string, n int) Case {
			g := genOpts{topics: 1 + r.Intn(4), maxOps: 30, m: mix{"put": 8, "puts": 6, "putid": 3, "newid": 3, "bulk": 2, "get": 8, "regets": 2, "sync": 3, "syncall": 1, "sleep": 6, "batch": 2}}
			return Case{Topics: genTopics(r, g.topics), Mutable: r.Intn(2) == 0, SyncSec: r.Intn(4), Ops: genOps(r, g)}
		},
		runPlain(nil, func(in *vh.Info, w *world) bool {
			return in.Seen("get") > 0 && in.Seen("sync") > 0 && len(w.msgs) > 1
		}, nil), shrinkCase))

	add(vh.New("P02", "reopen", "messages stored before at least one close and open, compared completely after each open", true,
		func(r *rand.Rand, tier string, n int) Case {
			g := genOpts{topics: 1 + r.Intn(5), maxOps: 24, enc: true, m: mix{"put": 8, "puts": 6, "putid": 3, "newid": 3, "bulk": 4, "get": 3, "sync": 2, "syncall": 2, "sleep": 5, "batch": 2, "reopen": 5, "del": 2}}
			c := Case{Topics: genTopics(r, g.topics), Mutable: r.Intn(2) == 0, SyncSec: r.Intn(4), Expirer: r.Intn(3) == 0, Ops: genOps(r, g)}
			c.Ops = append(c.Ops, Op{K: "reopen"})
			if r.Intn(2) == 0 {
				c.Ops = append(c.Ops, Op{K: "put", S: 5, P: 777003}, Op{K: "reopen"})
			}
			return c
		},
		runPlain(func(w *world) { w.checkEach = true }, func(in *vh.Info, w *world) bool {
			return in.Seen("reopen") > 0 && len(w.msgs) > 1
		}, nil), shrinkCase))

	add(vh.New("P03", "crash", "messages stored before at least one crash, compared completely after the recovery", true,
		func(r *rand.Rand, tier string, n int) Case {
			g := genOpts{topics: 1 + r.Intn(4), maxOps: 24, enc: true, batchErr: true, batchDel: true, m: mix{"put": 8, "puts": 6, "putid": 3, "newid": 3, "bulk": 3, "get": 2, "sync": 2, "syncall": 1, "sleep": 6, "batch": 4, "reopen": 1, "crash": 5, "del": 2}}
			c := Case{Topics: genTopics(r, g.topics), Mutable: r.Intn(2) == 0, SyncSec: r.Intn(4), FreeSize: r.Intn(2), Ops: genOps(r, g)}
			c.Ops = append(c.Ops, Op{K: "crash"})
			return c
		},
		runPlain(func(w *world) { w.checkEach = true }, func(in *vh.Info, w *world) bool {
			return in.Seen("crash") > 0 && len(w.msgs) > 1
		}, nil), shrinkCase))

	add(vh.New("P04", "delete", "at least one stored message was deleted (or the deletion refused by an immutable database) while others remained", true,
		func(r *rand.Rand, tier string, n int) Case {
			g := genOpts{topics: 1 + r.Intn(3), maxOps: 30, batchDel: true, m: mix{"put": 5, "puts": 3, "putid": 10, "newid": 9, "bulk": 1, "get": 3, "sync": 2, "syncall": 2, "sleep": 5, "batch": 2, "reopen": 2, "del": 10, "delbad": 1, "crash": 1}}
			c := Case{Topics: genTopics(r, g.topics), Mutable: r.Intn(5) > 0, FreeSize: r.Intn(2), SyncSec: r.Intn(3), Expirer: r.Intn(4) == 0, Ops: genOps(r, g)}
			if r.Intn(3) > 0 {
				c.Contracts = genContracts(r)
			}
			if r.Intn(2) == 0 {
				c.Ops = append(c.Ops, Op{K: "syncall"})
			}
			if r.Intn(2) == 0 {
				c.Ops = append(c.Ops, Op{K: "reopen"})
			}
			return c
		},
		runPlain(func(w *world) { w.checkEach = true }, func(in *vh.Info, w *world) bool {
			return in.Seen("deleted")+in.Seen("delete-refused") > 0 && len(w.msgs) > 1
		}, nil), shrinkCase))

	add(vh.New("P05", "topics", "messages in at least two related topics", true,
		func(r *rand.Rand, tier string, n int) Case {
			ts := genRelated(r, 2+r.Intn(8))
			g := genOpts{topics: len(ts), maxOps: 24, m: mix{"put": 8, "puts": 8, "bulk": 1, "get": 4, "sync": 1, "syncall": 1, "sleep": 3, "batch": 2, "reopen": 1}}
			return Case{Topics: ts, Ops: genOps(r, g)}
		},
		runPlain(func(w *world) { w.checkEach = true }, func(in *vh.Info, w *world) bool {
			seen := map[int]bool{}
			for _, m := range w.msgs {
				seen[m.topic] = true
			}
			return len(seen) > 1
		}, func(w *world) error {
			// a topic nothing was stored to has no messages
			for _, q := range []string{"zz", w.c.Topics[0] + ".zz", "zz." + w.c.Topics[0], w.c.Topics[0] + w.c.Topics[0]} {
				if err := w.getCheck(q, 0, 0, ""); err != nil {
					return err
				}
			}
			return w.checkAll()
		}), shrinkCase))

	add(vh.New("P06", "wildcards", "a query of a plain topic had to return messages stored to a wildcard topic", true,
		func(r *rand.Rand, tier string, n int) Case {
			ts := genWild(r, 2+r.Intn(7))
			g := genOpts{topics: len(ts), maxOps: 16, batchErr: true, m: mix{"put": 8, "puts": 8, "bulk": 1, "sync": 1, "syncall": 1, "sleep": 3, "batch": 3, "reopen": 1, "crash": 1}}
			return Case{Topics: ts, Ops: genOps(r, g)}
		},
		func(in *vh.Info, c Case) error {
			w := newWorld(in, c)
			w.match = func(w *world, q string, m *msg) bool { return glob(w.c.Topics[m.topic], q) }
			if err := w.runOps(); err != nil {
				return err
			}
			r := rand.New(rand.NewSource(int64(len(c.Ops)*131 + len(c.Topics))))
			chk := func(when string) error {
				if err := wildChecks(w, r); err != nil {
					w.abandon()
					return fmt.Errorf("%s: %v", when, err)
				}
				return nil
			}
			if err := chk("in memory"); err != nil {
				return err
			}
			if err := w.syncAll(); err != nil {
				return err
			}
			if err := chk("synced"); err != nil {
				return err
			}
			if err := w.reopen(); err != nil {
				return err
			}
			if err := chk("reopened"); err != nil {
				return err
			}
			if in.Seen("pattern-delivered") > 0 {
				in.NonTrivial()
			}
			return w.finish()
		}, shrinkCase))

	add(vh.New("P07", "contracts", "messages of one topic stored under at least two contracts", true,
		func(r *rand.Rand, tier string, n int) Case {
			g := genOpts{topics: 1 + r.Intn(3), maxOps: 24, m: mix{"put": 10, "putid": 2, "newid": 2, "bulk": 1, "get": 5, "sync": 1, "syncall": 1, "sleep": 3, "batch": 4, "reopen": 1}}
			return Case{Topics: genTopics(r, g.topics), Contracts: genContracts(r), Ops: genOps(r, g)}
		},
		runPlain(func(w *world) { w.checkEach = true }, func(in *vh.Info, w *world) bool {
			seen := map[string]bool{}
			topics := map[int]bool{}
			for _, m := range w.msgs {
				seen[fmt.Sprint(m.topic, m.contract)] = true
				topics[m.topic] = true
			}
			return len(seen) > len(topics)
		}, func(w *world) error {
			// contracts nothing was stored under
			for _, c := range w.c.Contracts {
				for _, x := range []uint32{c ^ 1<<31, c ^ 1, c + 0x01000000, ^c} {
					if x == 0 {
						continue
					}
					for _, t := range w.c.Topics {
						if err := w.getCheck(t, x, 0, ""); err != nil {
							return fmt.Errorf("contract %d: %v", x, err)
						}
					}
				}
			}
			return nil
		}), shrinkCase))

	add(vh.New("P08", "ttl", "a query was answered while a message had expired and another one with a time to live had not, or none had expired yet", true,
		func(r *rand.Rand, tier string, n int) Case {
			g := genOpts{topics: 1 + r.Intn(3), maxOps: 24, ttl: true, m: mix{"put": 10, "putid": 2, "newid": 2, "bulk": 1, "get": 6, "sync": 2, "syncall": 2, "sleep": 6, "longsleep": 2, "batch": 2, "reopen": 2}}
			c := Case{Topics: genTopics(r, g.topics), Mutable: r.Intn(2) == 0, Expirer: r.Intn(2) == 0, SyncSec: r.Intn(3), FreeSize: r.Intn(2), Ops: genOps(r, g)}
			if r.Intn(3) == 0 {
				c.Contracts = genContracts(r)
			}
			return c
		},
		runPlain(func(w *world) { w.checkEach = true }, func(in *vh.Info, w *world) bool {
			exp, alive := 0, 0
			for _, m := range w.msgs {
				if m.expires == 0 {
					alive++
				} else if m.live(time.Now()) {
					alive++
				} else {
					exp++
				}
			}
			return exp > 0 && alive > 0 && in.Seen("get") > 0
		}, nil), shrinkCase))

	add(vh.New("P09", "limits", "a query with a limit or a duration left out at least one stored message", true,
		func(r *rand.Rand, tier string, n int) Case {
			g := genOpts{topics: 1 + r.Intn(2), maxOps: 20, m: mix{"put": 8, "putid": 3, "newid": 3, "bulk": 4, "get": 5, "regets": 2, "sync": 1, "syncall": 2, "sleep": 6, "longsleep": 1, "batch": 2, "reopen": 2, "last": 8, "lastn": 4}}
			if r.Intn(2) == 0 {
				// long windows that are synced out of order
				g.maxOps = 12
				g.m = mix{"put": 3, "putid": 1, "newid": 1, "bulk": 8, "get": 8, "sync": 1, "syncall": 4, "sleep": 2, "batch": 4, "reopen": 1, "lastn": 2}
			}
			c := Case{Topics: genTopics(r, g.topics), SyncSec: r.Intn(3), Ops: genOps(r, g)}
			if r.Intn(2) == 0 {
				c.DefLimit = 1 + r.Intn(12)
			}
			if r.Intn(3) == 0 {
				c.MaxLimit = 1 + r.Intn(40)
				if c.DefLimit == 0 {
					c.DefLimit = 1 + r.Intn(c.MaxLimit)
				}
			}
			return c
		},
		runPlain(func(w *world) { w.checkEach = len(w.c.Ops)%3 == 0 }, func(in *vh.Info, w *world) bool {
			return in.Seen("limit-cut")+in.Seen("last-cut") > 0
		}, nil), shrinkCase))

	add(vh.New("P10", "batches", "a batch was committed and another one aborted, or a committed batch deleted or wrote in between", true,
		func(r *rand.Rand, tier string, n int) Case {
			g := genOpts{topics: 1 + r.Intn(3), maxOps: 14, batchDel: true, batchErr: true, batchW: true, enc: true, m: mix{"put": 3, "putid": 4, "newid": 6, "bulk": 1, "get": 4, "sync": 2, "syncall": 1, "sleep": 4, "batch": 14, "reopen": 2}}
			c := Case{Topics: genTopics(r, g.topics), Mutable: r.Intn(5) > 0, FreeSize: r.Intn(2), SyncSec: r.Intn(3), Ops: genOps(r, g)}
			if r.Intn(3) == 0 {
				c.Contracts = genContracts(r)
			}
			if r.Intn(2) == 0 {
				c.Ops = append(c.Ops, Op{K: "syncall"})
			}
			if r.Intn(2) == 0 {
				c.Ops = append(c.Ops, Op{K: "reopen"})
			}
			return c
		},
		runPlain(func(w *world) { w.checkEach = true }, func(in *vh.Info, w *world) bool {
			return in.Seen("batch-committed") > 0 && in.Seen("batch-aborted")+in.Seen("batch-wrote")+in.Seen("batch-deleted") > 0
		}, nil), shrinkCase))

	add(vh.New("P11", "encryption", "encrypted messages were stored and the files of the database searched for their content", true,
		func(r *rand.Rand, tier string, n int) Case {
			g := genOpts{topics: 1 + r.Intn(2), maxOps: 16, enc: true, m: mix{"put": 10, "putid": 2, "newid": 2, "bulk": 1, "get": 2, "sync": 1, "syncall": 2, "sleep": 5, "batch": 4, "reopen": 1, "toggleenc": 1, "leaks": 3}}
			return Case{Topics: genTopics(r, g.topics), Encrypt: r.Intn(2) == 0, Mutable: true, Ops: genOps(r, g)}
		},
		func(in *vh.Info, c Case) error {
			w := newWorld(in, c)
			w.checkEach = true
			if err := w.runOps(); err != nil {
				return err
			}
			fail := func(err error) error { w.abandon(); return err }
			if err := w.leaks(w.dir); err != nil {
				return fail(fmt.Errorf("open database: %v", err))
			}
			if err := w.syncAll(); err != nil {
				return fail(err)
			}
			if err := w.leaks(w.dir); err != nil {
				return fail(fmt.Errorf("synced database: %v", err))
			}
			if err := w.close(); err != nil {
				return err
			}
			if err := w.leaks(w.dir); err != nil {
				return fmt.Errorf("closed database: %v", err)
			}
			nEnc := 0
			for _, m := range w.msgs {
				if m.enc && len(m.payload) >= 12 {
					nEnc++
				}
			}
			if nEnc > 0 {
				in.NonTrivial()
			}
			// the wrong key reads no encrypted message
			w.key = append([]byte(nil), defaultKey...)
			w.key[len(c.Ops)%32] ^= 0x20
			if err := w.open(); err != nil {
				return err
			}
			for _, t := range c.Topics {
				got, _ := w.db.Get(unitdb.NewQuery([]byte(t)).WithLimit(100000))
				for _, g := range got {
					for _, m := range w.msgs {
						if m.enc && len(m.payload) > 8 && bytes.Equal(m.payload, g) && !w.clearDup(m) {
							return fail(fmt.Errorf("a wrong key reads the encrypted message %s of %q", describe(g), t))
						}
					}
				}
			}
			if err := w.close(); err != nil {
				return err
			}
			w.key = nil
			if err := w.open(); err != nil {
				return err
			}
			if err := w.checkAll(); err != nil {
				return fail(fmt.Errorf("with the right key again: %v", err))
			}
			return w.finish()
		}, shrinkCase))

	add(vh.New("P12", "reuse", "space freed by deletions or expiry was followed by further messages and everything compared after reopening", true,
		func(r *rand.Rand, tier string, n int) Case {
			g := genOpts{topics: 1 + r.Intn(3), maxOps: 40, batchDel: true, m: mix{"putid": 12, "newid": 10, "put": 4, "bulk": 1, "syncall": 5, "sync": 1, "sleep": 2, "reopen": 3, "del": 12, "get": 2, "crash": 1}}
			c := Case{Topics: genTopics(r, g.topics), Mutable: true, FreeSize: 1, SyncSec: r.Intn(3), Ops: genOps(r, g)}
			if r.Intn(2) == 0 {
				c.FreeSize = []int{1, 16, 64, 256}[r.Intn(4)]
			}
			if r.Intn(4) == 0 {
				c.Expirer = true
				for i := range c.Ops {
					if (c.Ops[i].K == "put" || c.Ops[i].K == "putid") && r.Intn(3) == 0 {
						c.Ops[i].TTL, c.Ops[i].Via = "2s", "entry"
					}
					if c.Ops[i].K == "sleep" && r.Intn(3) == 0 {
						c.Ops[i].N = 61000
					}
				}
			}
			// few sizes, so that freed blocks fit
			ss := []int{1 + r.Intn(40), 1 + r.Intn(40), 60 + r.Intn(300)}
			for i := range c.Ops {
				if c.Ops[i].S > 0 {
					c.Ops[i].S = ss[r.Intn(3)]
				}
			}
			c.Ops = append(c.Ops, Op{K: "syncall"}, Op{K: "put", S: ss[0], P: 777001}, Op{K: "put", S: ss[1], P: 777002}, Op{K: "syncall"}, Op{K: "reopen"})
			return c
		},
		runPlain(func(w *world) { w.checkEach = true }, func(in *vh.Info, w *world) bool {
			return in.Seen("deleted") > 0 && in.Seen("sync") > 1
		}, nil), shrinkCase))

	add(vh.New("P15", "validation", "an entry, query, deletion or batch was refused, or an accepted one with unusual content was read back", true,
		func(r *rand.Rand, tier string, n int) Case {
			g := genOpts{topics: 1 + r.Intn(3), maxOps: 16, m: mix{"put": 5, "bad": 14, "get": 3, "sync": 1, "syncall": 1, "sleep": 2, "reopen": 1, "odd": 4}}
			return Case{Topics: genTopics(r, g.topics), Mutable: r.Intn(2) == 0, Ops: genOps(r, g)}
		},
		runPlain(func(w *world) { w.checkEach = true }, func(in *vh.Info, w *world) bool {
			return in.Seen("refused")+in.Seen("odd") > 0
		}, nil), shrinkCase))

	add(vh.New("P16", "accounting", "the counters were compared after stored messages were synced", true,
		func(r *rand.Rand, tier string, n int) Case {
			g := genOpts{topics: 1 + r.Intn(3), maxOps: 24, batchDel: true, batchErr: true, enc: true, m: mix{"put": 8, "puts": 3, "putid": 6, "newid": 6, "bulk": 2, "sync": 2, "sleep": 5, "reopen": 3, "del": 6, "count": 3, "batch": 3, "get": 1}}
			if n%10 == 0 {
				// with background expiry
				g.ttl, g.m["count"] = true, 0
				c := Case{Topics: genTopics(r, g.topics), Mutable: true, Expirer: r.Intn(4) > 0, FreeSize: r.Intn(2), SyncSec: r.Intn(3), Ops: append(genOps(r, g), Op{K: "expcount"})}
				if r.Intn(2) == 0 {
					c.Ops = append(c.Ops, Op{K: "reopen"}, Op{K: "expcount"})
				}
				return c
			}
			return Case{Topics: genTopics(r, g.topics), Mutable: true, FreeSize: r.Intn(2), SyncSec: r.Intn(3), Ops: append(genOps(r, g), Op{K: "count"})}
		},
		runPlain(nil, func(in *vh.Info, w *world) bool { return in.Seen("counted") > 0 }, nil), shrinkCase))

	add(vh.New("P17", "ids", "IDs from before and after a reopen or crash were compared", true,
		func(r *rand.Rand, tier string, n int) Case {
			g := genOpts{topics: 1, maxOps: 24, m: mix{"put": 5, "newid": 12, "putid": 6, "sync": 1, "syncall": 1, "sleep": 4, "reopen": 4, "crash": 4, "batch": 1, "ids": 4, "del": 2}}
			c := Case{Topics: genTopics(r, g.topics), Mutable: true, SyncSec: r.Intn(3), Ops: genOps(r, g)}
			c.Ops = append(c.Ops, Op{K: "newid"}, Op{K: "ids"})
			return c
		},
		runPlain(nil, func(in *vh.Info, w *world) bool {
			return in.Seen("reopen")+in.Seen("crash") > 0 && len(w.idsSeen) > 1
		}, nil), shrinkCase))

	out = append(out, concurrentSuites()...)
	return append(out, extraSuites...)
}

// clearDup tells if the payload was also stored without encryption.
func (w *world) clearDup(m *msg) bool {
	for _, x := range w.msgs {
		if !x.enc && bytes.Equal(x.payload, m.payload) {
			return true
		}
	}
	return false
}

// stepMore executes the operations of single suites.
func (w *world) stepMore(o Op) error {
	switch o.K {
	case "longsleep":
		time.Sleep([]time.Duration{61 * time.Second, 121 * time.Second, 5 * time.Second, 3601 * time.Second}[o.N%4])
	case "churn":
		return w.churn(o)
	case "purge":
		return w.purge(o)
	case "last":
		return w.last(o)
	case "lastn":
		n := 1 + o.N%40
		w.in.Hit("get")
		return w.getCheckN(w.c.Topics[o.T%len(w.c.Topics)], w.contract(o.C), n, "?last="+strconv.Itoa(n))
	case "leaks":
		return w.leaks(w.dir)
	case "toggleenc":
		w.c.Encrypt = !w.c.Encrypt
		return w.reopen()
	case "delbad":
		return w.delUnknown(o)
	case "bad":
		return w.bad(o)
	case "odd":
		return w.odd(o)
	case "count":
		return w.count()
	case "ids":
		return w.idsCheck()
	case "expcount":
		return w.expired()
	case "fsync", "fopen", "flog":
		return faultStep(w, o)
	default:
		panic("unknown op " + o.K)
	}
	return nil
}

// last queries with a duration.
func (w *world) last(o Op) error {
	w.in.Hit("get")
	topic := w.c.Topics[o.T%len(w.c.Topics)]
	contract := w.contract(o.C)
	dur := []time.Duration{time.Second, 2 * time.Second, 5 * time.Second, time.Minute, 2 * time.Minute, time.Hour, 24 * time.Hour, 500 * time.Millisecond}[o.N%8]
	now := time.Now()
	cut := now.Add(-dur).Unix()
	want := w.expected(topic, contract, now)
	var in []*msg
	for _, m := range want {
		// times have a resolution of one second
		at := m.putAt.Unix()
		if m.id != nil {
			at = uid.Time(m.id[:4])
		}
		if at >= cut {
			in = append(in, m)
		}
	}
	if len(in) < len(want) {
		w.in.Hit("last-cut")
	}
	limit := 0
	var q *unitdb.Query
	if o.Via == "topic" {
		q = unitdb.NewQuery([]byte(topic + "?last=" + dur.String()))
	} else {
		q = unitdb.NewQuery([]byte(topic))
	}
	q = q.WithContract(contract)
	if o.S > 0 {
		limit = o.S
		q = q.WithLimit(limit)
	}
	if o.Via != "topic" {
		q = q.WithLast(dur.String())
	}
	got, err := w.db.Get(q)
	if err != nil {
		return fmt.Errorf("get %q of the last %v failed: %v", topic, dur, err)
	}
	if err := w.compare(topic, got, in, limit); err != nil {
		return fmt.Errorf("last %v (%s): %v", dur, o.Via, err)
	}
	return nil
}

func (w *world) getCheckN(query string, contract uint32, n int, opt string) error {
	q := unitdb.NewQuery([]byte(query + opt)).WithContract(contract)
	now := time.Now()
	got, err := w.db.Get(q)
	if err != nil {
		return fmt.Errorf("get %q failed: %v", query+opt, err)
	}
	if err := w.compare(query, got, w.expected(query, contract, now), n); err != nil {
		return fmt.Errorf("%s: %v", opt, err)
	}
	return nil
}

// delUnknown deletes under an ID that no message was stored with.
func (w *world) delUnknown(o Op) error {
	if !w.c.Mutable {
		return nil
	}
	t := []byte(w.c.Topics[o.T%len(w.c.Topics)])
	var id []byte
	if o.N%2 == 0 {
		id = w.db.NewID()
		w.lastSeq = message.ID(id).Sequence()
	} else {
		id = message.NewID(w.lastSeq + 5 + uint64(o.N))
	}
	w.db.Delete(id, t) // may be refused; must not affect any message
	w.in.Hit("deleted-unknown")
	return w.checkAll()
}

// bad attempts something that must be refused and leave no trace.
func (w *world) bad(o Op) error {
	topic := []byte(w.c.Topics[o.T%len(w.c.Topics)])
	deep := []byte(strings.Repeat("a.", 100+o.P%200) + "b")
	long := bytes.Repeat([]byte("x"), 1<<16+1+o.P%100)
	pl := payload(1+o.S%50, o.P)
	badTopic := [][]byte{nil, {}, deep, long, []byte("?"), []byte("??")}[o.N%6]
	var err error
	var what string
	id := func() []byte {
		id := w.db.NewID()
		w.lastSeq = message.ID(id).Sequence()
		return id
	}
	switch o.C % 9 {
	case 0:
		what = "Put of an unusable topic"
		err = w.db.Put(badTopic, pl)
	case 1:
		what = "Put of an empty payload"
		err = w.db.Put(topic, nil)
	case 2:
		what = "Get of an unusable topic"
		_, err = w.db.Get(unitdb.NewQuery(badTopic))
	case 3:
		what = "DeleteEntry without an ID"
		err = w.db.DeleteEntry(unitdb.NewEntry(topic, nil))
	case 4:
		what = "DeleteEntry of an unusable topic"
		err = w.db.Delete(id(), badTopic)
	case 5:
		what = "Batch.Put of an unusable topic"
		berr := w.db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error {
			err = b.Put(badTopic, pl)
			return nil
		})
		if berr != nil {
			return fmt.Errorf("batch with a refused entry failed to commit: %v", berr)
		}
	case 6:
		what = "Batch.Put of an empty payload"
		berr := w.db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error {
			if e := b.Put(topic, pl); e != nil {
				return e
			}
			m := &msg{topic: o.T % len(w.c.Topics), contract: message.MasterContract, payload: pl, putAt: time.Now(), batch: -1, seq: w.nextSeq()}
			w.msgs = append(w.msgs, m)
			err = b.Put(topic, nil)
			return nil
		})
		if berr != nil {
			return fmt.Errorf("batch with a refused entry failed to commit: %v", berr)
		}
	case 7:
		what = "an ID of the wrong size"
		err = w.db.PutEntry(unitdb.NewEntry(topic, pl).WithID(make([]byte, o.N%16)[: o.N%16 : o.N%16]))
		if o.N%16 == 0 {
			// an empty ID is not nil: it is not an ID
			w.in.Hit("empty-id")
		}
	default:
		what = "Batch.DeleteEntry without an ID"
		w.db.Batch(func(b *unitdb.Batch, _ <-chan struct{}) error {
			err = b.DeleteEntry(unitdb.NewEntry(topic, nil))
			return nil
		})
	}
	if err == nil {
		return fmt.Errorf("%s was accepted", what)
	}
	w.in.Hit("refused")
	w.nap()
	// a refused call may use up sequence numbers
	nid := id()
	_ = nid
	return w.checkAll()
}

// odd stores entries with unusual but valid content.
func (w *world) odd(o Op) error {
	var topic string
	switch o.N % 6 {
	case 0:
		topic = strings.TrimSuffix(strings.Repeat("d.", 100), ".") // the deepest topic
	case 1:
		topic = strings.Repeat("y", 1<<16-o.P%3)
	case 2:
		topic = "\x00\xff\x01"
	case 3:
		topic = "ünï.cødé"
	case 4:
		topic = strings.Repeat("p.", 50+o.P%49) + "z"
	default:
		topic = fmt.Sprintf("odd%d", o.P)
	}
	if o.N%6 != 1 && len(topic) < 60000 {
		topic += fmt.Sprintf("x%d", o.P%3)
	}
	w.c.Topics = append(append([]string(nil), w.c.Topics...), topic)
	pl := payload(1+o.S, o.P)
	switch o.C % 4 {
	case 0:
		pl = make([]byte, 1+o.S*17) // zeros
	case 1:
		pl = []byte{byte(o.P)}
	case 2:
		pl = payload(70000+o.S*100, o.P)
	}
	m := &msg{topic: len(w.c.Topics) - 1, contract: message.MasterContract, payload: pl, putAt: time.Now(), seq: w.nextSeq()}
	if err := w.db.Put([]byte(topic), append([]byte(nil), pl...)); err != nil {
		return fmt.Errorf("put to topic of %d bytes refused: %v", len(topic), err)
	}
	// the same topic may have been added before
	for i, t := range w.c.Topics[:m.topic] {
		if t == topic {
			m.topic = i
			w.c.Topics = w.c.Topics[:len(w.c.Topics)-1]
			break
		}
	}
	w.msgs = append(w.msgs, m)
	w.in.Hit("odd")
	w.nap()
	return nil
}

// count compares the number of messages and the size of the files.
func (w *world) count() error {
	if err := w.syncAll(); err != nil {
		return err
	}
	n := uint64(0)
	for _, m := range w.msgs {
		if !m.deleted {
			n++
		}
	}
	if got := w.db.Count(); got != n {
		return fmt.Errorf("Count is %d, want %d", got, n)
	}
	size, err := w.db.FileSize()
	if err != nil {
		return fmt.Errorf("FileSize failed: %v", err)
	}
	if want := dirSize(w.dir); size != want {
		return fmt.Errorf("FileSize is %d, the files have %d bytes", size, want)
	}
	if n > 0 {
		w.in.Hit("counted")
	}
	return nil
}

// expired awaits the removal of all that has expired and compares the count.
func (w *world) expired() error {
	time.Sleep(3601 * time.Second)
	for i := 0; i < 4; i++ {
		// an entry is noted for removal when a query comes across it
		if err := w.checkAll(); err != nil {
			return err
		}
		time.Sleep(122 * time.Second)
	}
	if err := w.syncAll(); err != nil {
		return err
	}
	n, all := uint64(0), uint64(0)
	for _, m := range w.msgs {
		if !m.deleted {
			all++
			if m.live(time.Now()) {
				n++
			}
		}
	}
	got := w.db.Count()
	if !w.c.Expirer && got != all {
		return fmt.Errorf("Count is %d, want %d", got, all)
	}
	if w.c.Expirer && got != n {
		return fmt.Errorf("Count is %d after expiry, %d of %d messages are alive", got, n, all)
	}
	if w.c.Expirer && n < all {
		w.in.Hit("counted after expiry")
	}
	w.in.Hit("counted")
	return nil
}

// idsCheck compares all IDs handed out or stored in the current life and those stored before.
func (w *world) idsCheck() error {
	if w.idsSeen == nil {
		w.idsSeen = map[uint64]bool{}
	}
	var prev []byte
	for i := 0; i < 3; i++ {
		id := w.db.NewID()
		if len(id) != 16 {
			return fmt.Errorf("NewID returned %d bytes", len(id))
		}
		s := message.ID(id).Sequence()
		if s == 0 {
			return errors.New("NewID returned sequence zero")
		}
		if s <= w.lastSeq {
			return fmt.Errorf("NewID returned sequence %d, not above %d", s, w.lastSeq)
		}
		if s != binary.LittleEndian.Uint64(id[8:]) {
			return errors.New("the sequence is not in the ID")
		}
		if bytes.Equal(id, prev) {
			return errors.New("NewID returned the same ID twice")
		}
		prev = id
		for _, m := range w.msgs {
			if !m.deleted && !m.optional && m.seq == s {
				return fmt.Errorf("NewID returned sequence %d of a stored message", s)
			}
		}
		w.idsSeen[s] = true
		w.lastSeq = s
	}
	return nil
}
