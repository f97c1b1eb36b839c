//go:build go1.25

package core

import (
	"math/rand"

	"github.com/golang/snappy"
	"github.com/unit-io/unitdb/server/zzverif/vh"
)

// genShort is a history whose messages nearly fill the memory, which is set to the size they need.
func genShort(r *rand.Rand, tier string, n int) Case {
	g := genOpts{topics: 1 + r.Intn(3), maxOps: 20, m: mix{"put": 8, "puts": 3, "putid": 2, "newid": 2, "bulk": 3, "del": 2, "sleep": 3, "get": 1}}
	c := Case{Topics: genTopics(r, g.topics), Mutable: true, SyncSec: r.Intn(4) * 5, Ops: genOps(r, g)}
	need := 0
	size := func(o Op) int {
		// what the entry takes besides the payload
		return 60 + 12*len(c.Topics[o.T%len(c.Topics)]) + len(snappy.Encode(nil, payload(o.S, o.P)))
	}
	for i, o := range c.Ops {
		switch o.K {
		case "put", "puts", "putid":
			c.Ops[i].S = max(o.S, 10)
			need += size(c.Ops[i])
		case "bulk":
			c.Ops[i].S = max(o.S, 10)
			o = c.Ops[i]
			for k := 0; k <= o.N%400; k++ {
				o.P = c.Ops[i].P*1000 + k
				need += size(o)
			}
		}
	}
	// more than memory is never used: the store would wait
	c.Mem = int(float64(need)*(1+r.Float64()*0.4)) + 64
	for k := 1 + r.Intn(3); k > 0; k-- {
		switch r.Intn(3) {
		case 0:
			c.Ops = append(c.Ops, Op{K: "sleep", N: sleeps[r.Intn(len(sleeps))]}, Op{K: "crash"})
		case 1:
			c.Ops = append(c.Ops, Op{K: "count"})
		default:
			c.Ops = append(c.Ops, Op{K: "reopen"})
		}
	}
	// a crash loses how many messages were deleted after the last sync, not the deletions
	var ops []Op
	del, crashed := false, false
	for _, o := range c.Ops {
		del = del || o.K == "del"
		crashed = crashed || o.K == "crash" && del
		if o.K != "count" || !crashed {
			ops = append(ops, o)
		}
	}
	c.Ops = ops
	return c
}

func init() {
	extraSuites = append(extraSuites, vh.New("P03", "shortmemory", "messages survived a crash, or were counted, while memory was short", true, genShort,
		runPlain(func(w *world) { w.checkEach = true }, func(in *vh.Info, w *world) bool {
			return in.Seen("crash")+in.Seen("counted") > 0 && len(w.msgs) > 2
		}, nil), shrinkCase))
}
