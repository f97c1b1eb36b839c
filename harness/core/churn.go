//go:build go1.25

package core

import (
	"math/rand"

	"github.com/unit-io/unitdb/server/zzverif/vh"
)

// churn puts many messages of similar sizes that can be deleted.
func (w *world) churn(o Op) error {
	r := rand.New(rand.NewSource(int64(o.P)))
	for i := o.N % 200; i >= 0; i-- {
		if err := w.step(Op{K: "newid"}); err != nil {
			return err
		}
		if err := w.step(Op{K: "putid", T: o.T + r.Intn(2), C: o.C, N: len(w.ids) - 1, S: o.S + r.Intn(8), P: o.P*1000 + i}); err != nil {
			return err
		}
	}
	return nil
}

// purge deletes a part of the messages that can be deleted.
func (w *world) purge(o Op) error {
	r := rand.New(rand.NewSource(int64(o.P)))
	for _, m := range w.msgs {
		if m.id != nil && !m.optional && !m.deleted && r.Intn(100) < o.N%100 {
			if err := w.delMsg(m); err != nil {
				return err
			}
		}
	}
	return nil
}

func genChurn(r *rand.Rand, tier string, n int) Case {
	c := Case{Topics: genTopics(r, 2), Mutable: true, FreeSize: []int{1, 1, 100, 1000}[r.Intn(4)], SyncSec: r.Intn(3)}
	size := 10 + r.Intn(60) // room for the tag that tells the messages apart
	for i := 2 + r.Intn(4); i > 0; i-- {
		c.Ops = append(c.Ops, Op{K: "churn", T: r.Intn(2), S: size, N: r.Intn(160), P: r.Intn(1 << 12)}, Op{K: "syncall"}, Op{K: "purge", N: 10 + r.Intn(80), P: r.Intn(1 << 12)})
		switch r.Intn(5) {
		case 0:
			c.Ops = append(c.Ops, Op{K: "reopen"})
		case 1:
			c.Ops = append(c.Ops, Op{K: "crash"})
		case 2:
			c.Ops = append(c.Ops, Op{K: "sleep", N: sleeps[r.Intn(len(sleeps))]})
		}
	}
	c.Ops = append(c.Ops, Op{K: "churn", T: r.Intn(2), S: size, N: r.Intn(160), P: r.Intn(1 << 12)}, Op{K: "syncall"}, Op{K: "reopen"})
	return c
}

func init() {
	extraSuites = append(extraSuites, vh.New("P12", "churn", "tens of messages were deleted after they were synced, and others put in their place and compared", true, genChurn,
		runPlain(func(w *world) { w.checkEach = true }, func(in *vh.Info, w *world) bool {
			return in.Seen("deleted") > 20 && in.Seen("sync") > 1
		}, nil), shrinkCase))
}
