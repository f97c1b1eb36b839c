//go:build go1.25

package core

import (
	"fmt"
	"math/rand"

	"github.com/unit-io/unitdb/server/zzverif/vh"
)

var words = []string{"a", "b", "c", "unit8", "teams", "alpha", "ch1", "u1", "x1y2", "sensor-7", "Ab", "ba", "ab", "aa", "topic_with_a_rather_long_part_name"}

func genTopic(r *rand.Rand) string {
	n := 1 + r.Intn(4)
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += "."
		}
		s += words[r.Intn(len(words))]
	}
	return s
}

func genTopics(r *rand.Rand, n int) []string {
	seen := map[string]bool{}
	var out []string
	for len(out) < n {
		t := genTopic(r)
		if seen[t] {
			continue
		}
		seen[t] = true
		out = append(out, t)
	}
	return out
}

// mix is the relative frequency of operations.
type mix map[string]int

func pick(r *rand.Rand, m mix, order []string) string {
	total := 0
	for _, k := range order {
		total += m[k]
	}
	n := r.Intn(total)
	for _, k := range order {
		n -= m[k]
		if n < 0 {
			return k
		}
	}
	return order[0]
}

var opOrder = []string{"put", "puts", "putid", "newid", "bulk", "batch", "del", "get", "regets", "sync", "syncall", "sleep", "reopen", "crash", "longsleep", "last", "lastn", "leaks", "toggleenc", "delbad", "bad", "odd", "count", "ids", "fsync", "fopen", "expcount", "flog", "meters", "churn", "purge"}

var sleeps = []int{1, 5, 14, 16, 31, 100, 400, 990, 1000, 1010, 1700, 2100, 3500}
var sizes = []int{1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 60, 64, 65, 100, 255, 256, 400, 1000, 4096}

type genOpts struct {
	m        mix
	topics   int
	maxOps   int
	ttl      bool
	batchDel bool
	batchErr bool
	batchW   bool
	enc      bool
}

func genPut(r *rand.Rand, k string, g genOpts, seed *int) Op {
	*seed++
	o := Op{K: k, T: r.Intn(g.topics), C: r.Intn(3), S: sizes[r.Intn(len(sizes))], P: *seed}
	if g.enc && r.Intn(4) == 0 {
		o.Enc = true
	}
	if g.ttl && r.Intn(2) == 0 {
		o.TTL = ttls[r.Intn(len(ttls))]
		if r.Intn(2) == 0 {
			o.Via = "entry"
		}
	}
	if k == "putid" {
		o.N = r.Intn(64)
	}
	return o
}

var ttls = []string{"1s", "2s", "3s", "1m", "1h", "5", "2", "3600", "90s"}

func genOps(r *rand.Rand, g genOpts) []Op {
	n := 3 + r.Intn(g.maxOps)
	if r.Intn(3) == 0 {
		n = 3 + r.Intn(8)
	}
	seed := 0
	var ops []Op
	for len(ops) < n {
		k := pick(r, g.m, opOrder)
		switch k {
		case "put", "puts", "putid":
			ops = append(ops, genPut(r, k, g, &seed))
		case "bulk":
			o := genPut(r, k, g, &seed)
			o.N = r.Intn(40)
			if r.Intn(6) == 0 {
				o.N = 100 + r.Intn(300)
				o.S = 1 + r.Intn(40)
			}
			ops = append(ops, o)
		case "batch":
			o := Op{K: k, C: r.Intn(3)}
			if r.Intn(4) == 0 {
				o.Via = "contract"
			}
			if g.enc && r.Intn(4) == 0 {
				o.Enc = true
			}
			for i, l := 0, r.Intn(8); i < l; i++ {
				switch {
				case g.batchDel && r.Intn(4) == 0:
					o.B = append(o.B, Op{K: "del", N: r.Intn(64)})
				case g.batchW && r.Intn(6) == 0:
					o.B = append(o.B, Op{K: "write"})
				default:
					kk := []string{"put", "puts", "putid"}[r.Intn(3)]
					o.B = append(o.B, genPut(r, kk, g, &seed))
				}
			}
			if g.batchErr && r.Intn(4) == 0 {
				o.Err = true
			}
			ops = append(ops, o)
		case "get", "regets":
			o := Op{K: k, T: r.Intn(g.topics), C: r.Intn(3)}
			if r.Intn(2) == 0 {
				o.N = 1 + r.Intn(12)
			}
			if r.Intn(8) == 0 {
				o.N = 1 + r.Intn(400)
			}
			ops = append(ops, o)
		case "del":
			ops = append(ops, Op{K: k, N: r.Intn(64)})
		case "sleep":
			ops = append(ops, Op{K: k, N: sleeps[r.Intn(len(sleeps))]})
		case "last":
			o := Op{K: k, T: r.Intn(g.topics), C: r.Intn(3), N: r.Intn(8)}
			if r.Intn(3) == 0 {
				o.S = 1 + r.Intn(10)
			}
			if r.Intn(2) == 0 {
				o.Via = "topic"
			}
			ops = append(ops, o)
		case "longsleep", "lastn", "delbad", "bad", "odd":
			seed++
			ops = append(ops, Op{K: k, T: r.Intn(g.topics), C: r.Intn(36), N: r.Intn(48), S: r.Intn(60), P: seed})
		default:
			ops = append(ops, Op{K: k})
		}
	}
	return ops
}

// shrinkCase offers smaller histories.
func shrinkCase(c Case) []Case {
	var out []Case
	for _, ops := range vh.Chunks(c.Ops) {
		d := c
		d.Ops = ops
		out = append(out, d)
	}
	for i, o := range c.Ops {
		var alts []Op
		for _, b := range vh.Chunks(o.B) {
			p := o
			p.B = b
			alts = append(alts, p)
		}
		if o.K == "bulk" && o.N > 1 {
			p := o
			p.N = o.N / 2
			alts = append(alts, p)
			p.N = o.N - 1
			alts = append(alts, p)
		}
		if o.S > 1 && (o.K == "put" || o.K == "puts" || o.K == "putid" || o.K == "bulk") {
			p := o
			p.S = o.S / 2
			alts = append(alts, p)
		}
		if o.TTL != "" {
			p := o
			p.TTL, p.Via = "", ""
			alts = append(alts, p)
		}
		if o.Enc {
			p := o
			p.Enc = false
			alts = append(alts, p)
		}
		for _, p := range alts {
			d := c
			d.Ops = append([]Op(nil), c.Ops...)
			d.Ops[i] = p
			out = append(out, d)
		}
	}
	if len(c.Topics) > 1 {
		d := c
		d.Topics = c.Topics[:len(c.Topics)-1]
		out = append(out, d)
	}
	if len(c.Contracts) > 0 {
		d := c
		d.Contracts = c.Contracts[:len(c.Contracts)-1]
		out = append(out, d)
	}
	for _, f := range []func(*Case){
		func(d *Case) { d.Mem = 0 }, func(d *Case) { d.Encrypt = false }, func(d *Case) { d.Expirer = false },
		func(d *Case) { d.FreeSize = 0 }, func(d *Case) { d.DefLimit = 0 }, func(d *Case) { d.SyncSec = 0 }} {
		d := c
		f(&d)
		if fmt.Sprint(d) != fmt.Sprint(c) {
			out = append(out, d)
		}
	}
	return out
}
