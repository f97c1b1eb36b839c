//go:build go1.25

package core

import (
	"errors"
	"fmt"
	"path/filepath"
	"time"

	"github.com/unit-io/unitdb"
	"github.com/unit-io/unitdb/message"
	"github.com/unit-io/unitdb/server/zzverif/vh"
)

var errAbort = errors.New("abort requested by the caller")

// step executes one operation and its own checks.
func (w *world) step(o Op) error {
	switch o.K {
	case "put", "puts", "putid":
		return w.put(o)
	case "newid":
		return w.newID()
	case "bulk":
		return w.bulk(o)
	case "batch":
		return w.batch(o)
	case "del":
		return w.del(o)
	case "get":
		w.in.Hit("get")
		return w.getCheck(w.c.Topics[o.T%len(w.c.Topics)], w.contract(o.C), o.N, "")
	case "regets":
		// the same query object used repeatedly gives the same answer
		t := w.c.Topics[o.T%len(w.c.Topics)]
		q := unitdb.NewQuery([]byte(t)).WithContract(w.contract(o.C))
		if o.N > 0 {
			q = q.WithLimit(o.N)
		}
		for i := 0; i < 3; i++ {
			got, err := w.db.Get(q)
			if err != nil {
				return fmt.Errorf("repeated get %q failed: %v", t, err)
			}
			if err := w.compare(t, got, w.expected(t, w.contract(o.C), time.Now()), o.N); err != nil {
				return fmt.Errorf("use %d of one query: %v", i+1, err)
			}
		}
		return nil
	case "sync":
		w.in.Hit("sync")
		if err := w.db.Sync(); err != nil {
			return fmt.Errorf("sync failed: %v", err)
		}
	case "syncall":
		w.in.Hit("sync")
		return w.syncAll()
	case "sleep":
		time.Sleep(time.Duration(o.N)*time.Millisecond + 3*time.Microsecond)
	case "reopen":
		w.in.Hit("reopen")
		return w.reopen()
	case "crash":
		w.in.Hit("crash")
		return w.crash()
	default:
		return w.stepMore(o)
	}
	return nil
}

func (w *world) bulk(o Op) error {
	e, m0, err := w.entry(o)
	if err != nil {
		return err
	}
	n := o.N%400 + 1
	for i := 0; i < n; i++ {
		m := *m0
		m.payload = payload(o.S, o.P*1000+i)
		m.putAt = time.Now()
		m.seq = w.nextSeq()
		e.WithPayload(append([]byte(nil), m.payload...))
		if err := w.db.PutEntry(e); err != nil {
			return fmt.Errorf("bulk put %d to %q refused: %v", i, w.c.Topics[m.topic], err)
		}
		w.msgs = append(w.msgs, &m)
		w.done.puts++
		w.done.msgs++
		if i%50 == 49 {
			w.nap()
		}
	}
	w.in.Hit("bulk")
	w.nap()
	return nil
}

// deletable picks the n-th message that was stored under a known ID.
func (w *world) deletable(n int) *msg {
	var c []*msg
	for _, m := range w.msgs {
		if m.id != nil && !m.optional {
			c = append(c, m)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[n%len(c)]
}

func (w *world) delEntry(m *msg) *unitdb.Entry {
	e := unitdb.NewEntry([]byte(w.c.Topics[m.topic]), nil).WithID(append([]byte(nil), m.id...))
	if m.contract != message.MasterContract {
		e = e.WithContract(m.contract)
	}
	return e
}

func (w *world) del(o Op) error {
	m := w.deletable(o.N)
	if m == nil {
		return nil
	}
	return w.delMsg(m)
}

func (w *world) delMsg(m *msg) error {
	err := w.db.DeleteEntry(w.delEntry(m))
	if !w.c.Mutable {
		if err == nil {
			return errors.New("delete accepted by an immutable database")
		}
		w.in.Hit("delete-refused")
		return nil
	}
	if err != nil && !m.deleted {
		return fmt.Errorf("delete of a stored message failed: %v", err)
	}
	w.done.delsAll++
	if !m.deleted {
		w.done.dels++
		w.in.Hit("deleted")
	} else {
		w.in.Hit("deleted-again")
	}
	m.deleted = true
	m.delAt = time.Now()
	w.nap()
	return nil
}

func (w *world) batch(o Op) error {
	w.batchNo++
	var added, removed []*msg
	wrote := 0
	err := w.db.Batch(func(b *unitdb.Batch, done <-chan struct{}) error {
		if o.Via == "contract" {
			b.SetOptions(unitdb.WithBatchContract(w.contract(o.C)))
		}
		if o.Enc {
			b.SetOptions(unitdb.WithBatchEncryption())
		}
		for i, s := range o.B {
			switch s.K {
			case "put", "puts", "putid":
				e, m, err := w.entry(s)
				if err != nil {
					return err
				}
				m.batch = w.batchNo
				m.enc = m.enc || o.Enc
				if o.Via == "contract" && s.K == "puts" && s.TTL == "" {
					m.contract = effContract(w.contract(o.C))
					m.enc = w.encrypted || o.Enc
					m.seq = w.nextSeq()
					if err := b.Put([]byte(w.c.Topics[m.topic]), append([]byte(nil), m.payload...)); err != nil {
						return fmt.Errorf("batch put %d refused: %v", i, err)
					}
				} else {
					// the contract of the batch is used unless the entry has its own
					if o.Via == "contract" && w.contract(s.C) == 0 {
						m.contract = effContract(w.contract(o.C))
					}
					if s.K == "putid" {
						if len(w.ids) == 0 || w.idUsed[s.N%len(w.ids)] {
							continue
						}
						h := s.N % len(w.ids)
						w.idUsed[h] = true
						m.id = w.ids[h]
						m.seq = message.ID(m.id).Sequence()
						e = e.WithID(append([]byte(nil), m.id...))
					} else {
						m.seq = w.nextSeq()
					}
					if err := b.PutEntry(e); err != nil {
						return fmt.Errorf("batch put entry %d refused: %v", i, err)
					}
				}
				added = append(added, m)
			case "del":
				m := w.deletable(s.N)
				if m == nil {
					continue
				}
				if err := b.DeleteEntry(w.delEntry(m)); err != nil {
					if !w.c.Mutable {
						continue
					}
					return fmt.Errorf("batch delete %d refused: %v", i, err)
				}
				if !w.c.Mutable {
					return errors.New("batch delete accepted by an immutable database")
				}
				removed = append(removed, m)
			case "write":
				wrote++
				if err := b.Write(); err != nil {
					return fmt.Errorf("batch write failed: %v", err)
				}
			}
			if s.S%5 == 0 {
				w.nap()
			}
		}
		if o.Err {
			return errAbort
		}
		return nil
	})
	if o.Err {
		w.in.Hit("batch-aborted")
		if wrote > 0 {
			w.in.Hit("batch-aborted-after-write")
		}
		if err != errAbort {
			return fmt.Errorf("aborted batch returned %v, not the caller's error", err)
		}
		w.nap()
		return nil
	}
	if err != nil {
		return fmt.Errorf("batch failed: %v", err)
	}
	if len(added)+len(removed) > 0 {
		w.in.Hit("batch-committed")
		if wrote > 0 {
			w.in.Hit("batch-wrote")
		}
		if len(removed) > 0 {
			w.in.Hit("batch-deleted")
		}
	}
	w.msgs = append(w.msgs, added...)
	w.done.msgs += len(added)
	for _, m := range removed {
		m.deleted = true
		m.delAt = time.Now()
	}
	w.nap()
	return nil
}

// crash abandons the running database as a killed process would, keeping the
// files as they are at this moment, and opens the copy.
func (w *world) crash() error {
	w.gen++
	next := filepath.Join(w.in.Dir, fmt.Sprintf("db%d", w.gen))
	now := time.Now()
	if err := vh.CopyTree(next, w.dir); err != nil {
		panic(err)
	}
	setLogTimes(next)
	old := w.db
	w.db = nil
	if err := old.Close(); err != nil {
		return fmt.Errorf("close failed: %v", err)
	}
	w.dir = next
	young := func(t time.Time) bool { return !t.IsZero() && now.Sub(t) < logSlack }
	for _, m := range w.msgs {
		// The log is written every 15 ms; what is younger may be lost.
		switch {
		case !m.deleted && m.batch == 0 && young(m.putAt):
			m.optional = true
		case m.deleted && young(m.delAt):
			// the deletion may be lost, the message must not be damaged
			m.deleted, m.optional = false, true
		}
	}
	w.crashed = true
	time.Sleep(20 * time.Millisecond)
	if err := w.open(); err != nil {
		return fmt.Errorf("after a crash: %v", err)
	}
	if err := w.checkAll(); err != nil {
		return fmt.Errorf("after a crash: %v", err)
	}
	// sequences of messages that were lost may be used again, others not
	low := uint64(0)
	for _, m := range w.msgs {
		if !m.deleted && !m.optional && m.seq > low {
			low = m.seq
		}
		if m.deleted {
			m.id = nil // the ID may be in use again
		}
	}
	w.lastSeq = low
	w.ids, w.idUsed = nil, map[int]bool{}
	return w.newID()
}

// logSlack is the age from which a single put must have reached the log:
// two log intervals plus a margin for the write itself.
const logSlack = 45 * time.Millisecond

// runOps runs the history with an open before and a full comparison after.
func (w *world) runOps() error {
	defer func() {
		if p := recover(); p != nil {
			w.abandon()
			panic(p)
		}
	}()
	if err := w.open(); err != nil {
		return err
	}
	for i, o := range w.c.Ops {
		if err := w.step(o); err != nil {
			w.abandon()
			return fmt.Errorf("op %d (%s): %v", i, o.K, err)
		}
	}
	if err := w.checkAll(); err != nil {
		w.abandon()
		return fmt.Errorf("at the end: %v", err)
	}
	return nil
}

func (w *world) finish() error { return w.close() }
