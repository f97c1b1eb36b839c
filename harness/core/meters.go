//go:build go1.25

package core

import (
	"fmt"
	"math/rand"

	"github.com/unit-io/unitdb"
	"github.com/unit-io/unitdb/server/zzverif/vh"
)

// meters counts what was done since the database was opened.
type meters struct {
	puts, msgs, ids, dels, delsAll int
	bytes                          int64 // of the messages stored when it was opened
	known                          bool
}

// readAll reads every message and returns how many there are and how many
// bytes the meter counted for them.
func (w *world) readAll() (int, int64, error) {
	v0, err := w.db.Varz()
	if err != nil {
		return 0, 0, fmt.Errorf("Varz failed: %v", err)
	}
	n := 0
	for _, t := range w.c.Topics {
		got, err := w.db.Get(unitdb.NewQuery([]byte(t)).WithLimit(50000))
		if err != nil {
			return 0, 0, fmt.Errorf("get %q failed: %v", t, err)
		}
		n += len(got)
	}
	v1, err := w.db.Varz()
	if err != nil {
		return 0, 0, fmt.Errorf("Varz failed: %v", err)
	}
	if d := v1.OutMsgs - v0.OutMsgs; d != int64(n) {
		return 0, 0, fmt.Errorf("%d messages were returned, the meter of messages returned grew by %d", n, d)
	}
	if d := v1.Gets - v0.Gets; d != int64(n) {
		return 0, 0, fmt.Errorf("%d messages were returned, the meter of gets grew by %d", n, d)
	}
	if v1.InMsgs != v0.InMsgs || v1.InBytes != v0.InBytes || v1.Puts != v0.Puts || v1.Dels != v0.Dels || v1.Syncs != v0.Syncs || v1.Recovers != v0.Recovers {
		return 0, 0, fmt.Errorf("reading changed other meters: %+v, then %+v", v0, v1)
	}
	return n, v1.OutBytes - v0.OutBytes, nil
}

// metersCheck compares the meters with what was done since the opening.
func (w *world) metersCheck() error {
	if err := w.syncAll(); err != nil {
		return err
	}
	live, bytes := 0, int64(0)
	for _, m := range w.msgs {
		if !m.deleted {
			live++
		}
	}
	for i := 0; i < 2; i++ {
		n, b, err := w.readAll()
		if err != nil {
			return err
		}
		if n != live {
			return fmt.Errorf("%d messages were returned, want %d", n, live)
		}
		if i > 0 && b != bytes {
			return fmt.Errorf("reading the same messages counted %d bytes, then %d", bytes, b)
		}
		bytes = b
	}
	v, err := w.db.Varz()
	if err != nil {
		return fmt.Errorf("Varz failed: %v", err)
	}
	for _, c := range []struct {
		name      string
		got, want int64
	}{
		{"puts", v.Puts, int64(w.done.puts)},
		{"ids handed out", v.Leases, int64(w.done.ids)},
		{"messages stored", v.InMsgs, int64(w.done.msgs)},
		{"messages synced", v.Syncs, int64(w.done.msgs)},
		{"messages recovered", v.Recovers, 0},
		{"all messages", v.Count, int64(live)},
	} {
		if c.got != c.want {
			return fmt.Errorf("the meter of %s is %d, want %d", c.name, c.got, c.want)
		}
	}
	if v.Dels < int64(w.done.dels) || v.Dels > int64(w.done.delsAll) {
		return fmt.Errorf("the meter of deletions is %d after %d deletions", v.Dels, w.done.dels)
	}
	if w.done.delsAll == 0 && w.done.known {
		if d := bytes - w.done.bytes; v.InBytes != d {
			return fmt.Errorf("the meter of bytes stored is %d, reading the messages stored counts %d", v.InBytes, d)
		}
		if w.done.msgs > 0 {
			w.in.Hit("bytes compared")
		}
	}
	if live > 0 {
		w.in.Hit("counted")
	}
	return nil
}

// metersOpen notes what is stored right after the opening.
func (w *world) metersOpen() error {
	_, b, err := w.readAll()
	if err != nil {
		return err
	}
	w.done.bytes, w.done.known = b, true
	return nil
}

func init() {
	extraSuites = append(extraSuites, vh.New("P16", "meters", "the meters were compared with messages stored", true,
		func(r *rand.Rand, tier string, n int) Case {
			g := genOpts{topics: 1 + r.Intn(3), maxOps: 30, enc: true, batchErr: true, m: mix{"put": 8, "puts": 3, "putid": 6, "newid": 5, "bulk": 2, "batch": 4, "sync": 2, "sleep": 4, "syncall": 2, "reopen": 2, "del": 2, "get": 1, "meters": 4}}
			c := Case{Topics: genTopics(r, g.topics), Mutable: true, FreeSize: r.Intn(2), SyncSec: r.Intn(4), Encrypt: r.Intn(6) == 0}
			for _, o := range genOps(r, g) {
				o.C = 0
				for i := range o.B {
					o.B[i].C = 0
				}
				if o.K == "batch" {
					o.Via = ""
				}
				c.Ops = append(c.Ops, o)
			}
			c.Ops = append(c.Ops, Op{K: "meters"})
			return c
		},
		func(in *vh.Info, c Case) error {
			w := newWorld(in, c)
			return w.metersRun(c)
		}, shrinkCase))
}

// metersRun runs a history and compares the meters where the history says so.
func (w *world) metersRun(c Case) (err error) {
	defer func() {
		if p := recover(); p != nil {
			w.abandon()
			panic(p)
		}
		if err != nil {
			w.abandon()
		}
	}()
	if err := w.open(); err != nil {
		return err
	}
	w.done.known = true
	for i, o := range c.Ops {
		var err error
		switch o.K {
		case "meters":
			err = w.metersCheck()
		case "del":
			// a message deleted before it is synced is not counted as stored
			if err = w.syncAll(); err == nil {
				err = w.step(o)
			}
		case "reopen":
			if err = w.syncAll(); err == nil {
				if err = w.step(o); err == nil {
					err = w.metersOpen()
				}
			}
		default:
			err = w.step(o)
		}
		if err != nil {
			return fmt.Errorf("op %d (%s): %v", i, o.K, err)
		}
	}
	if w.in.Seen("counted") > 0 {
		w.in.NonTrivial()
	}
	return w.finish()
}
