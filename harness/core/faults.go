//go:build go1.25 && oshook

package core

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/unit-io/unitdb/server/zzverif/vh"
)

// fault makes calls that change files of the database fail: the n-th of them with an I/O error, or from the
// n-th on all that need more space, or the n-th write after a part of its bytes.
type fault struct {
	mu            sync.Mutex
	kind, n, seen int
	log, all      bool // calls for the memory log fail; all of them from the n-th on
	hit           string
}

const faultKinds = 3

func (f *fault) set(dir string) {
	os.VerifSetFault(func(o os.VerifOp) error {
		if !strings.HasPrefix(o.Name, dir+"/") {
			return nil
		}
		// the files of the memory log are written by another goroutine
		if b := filepath.Base(o.Name); strings.HasPrefix(b, "unitdb") == f.log {
			return nil
		}
		f.mu.Lock()
		defer f.mu.Unlock()
		if f.kind == 1 && !f.grows(o) {
			return nil
		}
		f.seen++
		if f.seen <= f.n || f.kind != 1 && !f.all && f.seen != f.n+1 {
			return nil
		}
		if f.hit == "" {
			f.hit = o.Op + " " + strings.TrimLeft(filepath.Base(o.Name), "0123456789")
		}
		switch {
		case f.kind == 1:
			return syscall.ENOSPC
		case f.kind == 2 && o.Op == "write" && len(o.Data) > 1:
			return os.VerifShort(len(o.Data) / 2)
		}
		return syscall.EIO
	})
}

func (f *fault) grows(o os.VerifOp) bool {
	if o.Op == "create" || o.Op == "createtrunc" || o.Op == "mkdir" {
		return true
	}
	if o.Op != "write" {
		return false
	}
	fi, err := os.Lstat(o.Name)
	return err == nil && o.Off+int64(len(o.Data)) > fi.Size()
}

func (f *fault) clear() { os.VerifSetFault(nil) }

// failing is a sync or an opening during which a call that changes a file fails.
func (w *world) failing(o Op) error {
	f := &fault{kind: o.S % faultKinds, n: o.N}
	switch o.K {
	case "fsync":
		// not at the time of the background sync
		time.Sleep(2*time.Second + 103*time.Millisecond)
		f.set(w.dir)
		err := w.db.Sync()
		f.clear()
		_ = err // a sync that fails is repeated by the next one
	case "flog":
		// writing to the memory log fails for a while
		f.log, f.all = true, o.C%2 == 0
		f.set(w.dir)
		for _, b := range o.B {
			if b.K == "sync" {
				w.db.Sync()
				continue
			}
			if err := w.step(b); err != nil {
				f.clear()
				return fmt.Errorf("while the log fails (%d %s): %v", f.kind, f.hit, err)
			}
		}
		f.clear()
		time.Sleep(logSlack + 3*time.Millisecond)
	case "fopen":
		if err := w.close(); err != nil {
			return err
		}
		time.Sleep(50 * time.Millisecond)
		f.set(w.dir)
		err := w.open()
		if err == nil {
			// what needs the file may run in the background
			time.Sleep(20 * time.Millisecond)
		}
		f.clear()
		if err != nil {
			if f.hit == "" {
				return err
			}
			w.in.Hit("open refused")
			w.db = nil
			time.Sleep(50 * time.Millisecond)
			if err := w.open(); err != nil {
				return fmt.Errorf("after an open that failed (%s): %v", f.hit, err)
			}
		}
	}
	if f.hit != "" {
		w.in.Hit("failed")
		w.in.Hit("failed " + f.hit)
	}
	if err := w.checkAll(); err != nil {
		return fmt.Errorf("after a fault (%d %s): %v", f.kind, f.hit, err)
	}
	return nil
}

func genFaults(r *rand.Rand, tier string, n int) Case {
	g := genOpts{topics: 1 + r.Intn(3), maxOps: 20, batchDel: true, m: mix{"put": 7, "puts": 2, "putid": 6, "bulk": 2, "syncall": 2, "sleep": 3, "reopen": 1, "del": 3, "batch": 1, "fsync": 7, "count": 1}}
	if n%3 == 0 {
		g.m["crash"] = 2
		g.m["count"] = 0
	}
	if n%4 == 0 {
		g.m["fopen"] = 2
	}
	if n%2 == 0 {
		g.m["flog"] = 4
	}
	c := Case{Topics: genTopics(r, g.topics), Mutable: true, Encrypt: r.Intn(8) == 0, Ops: genOps(r, g)}
	if r.Intn(3) > 0 {
		c.FreeSize = []int{1, 64, 4096}[r.Intn(3)]
	}
	c.SyncSec = 1 << 20 // no background sync
	for i := range c.Ops {
		if o := &c.Ops[i]; o.K == "fsync" || o.K == "fopen" || o.K == "flog" {
			o.N, o.S = r.Intn(1+r.Intn(14)), r.Intn(faultKinds)
			if o.K == "flog" {
				o.N, o.C = r.Intn(1+r.Intn(6)), r.Intn(4)
				g := genOpts{topics: g.topics, maxOps: 12, m: mix{"put": 5, "puts": 2, "putid": 3, "sleep": 6, "del": 1, "sync": 1}}
				o.B = genOps(r, g)
				for k := range o.B {
					o.B[k].P += 1000 * (i + 1)
				}
			}
		}
	}
	c.Ops = append(c.Ops, Op{K: "syncall"})
	if n%3 != 0 {
		c.Ops = append(c.Ops, Op{K: "count"})
	}
	if r.Intn(2) == 0 {
		c.Ops = append(c.Ops, Op{K: "reopen"})
	}
	return c
}

func init() {
	faultStep = (*world).failing
	extraSuites = append(extraSuites, vh.New("P18", "faults", "a file call failed while there were messages", true, genFaults,
		runPlain(nil, func(in *vh.Info, w *world) bool { return in.Seen("failed") > 0 && len(w.msgs) > 0 }, nil), shrinkCase))
}
