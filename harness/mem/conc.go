//go:build go1.25

package mem

import (
	"bytes"
	"fmt"
	"math/rand"
	"path/filepath"
	"sync"
	"sync/atomic"
	"time"

	"github.com/unit-io/unitdb/memdb"
	"github.com/unit-io/unitdb/server/zzverif/vh"
)

// ConcCase is a set of operation lists run by concurrent goroutines, each on its own keys.
type ConcCase struct {
	Log     int    `json:"log"`
	Block   int    `json:"block"`
	Workers [][]Op `json:"workers"`
	Drain   int    `json:"drain"` // blocks are drained every so many ms, 0 for never
	Scan    int    `json:"scan"`  // keys are listed every so many ms, 0 for never
}

type concWorld struct {
	*world
	mu   sync.Mutex
	sink map[uint64][]byte // drained entries
	errs []error
}

func (w *concWorld) fail(err error) {
	w.mu.Lock()
	w.errs = append(w.errs, err)
	w.mu.Unlock()
}

func (w *concWorld) hit(k string) {
	w.mu.Lock()
	w.in.Hit(k)
	w.mu.Unlock()
}

type ckey struct {
	val  []byte
	gone bool
	torn bool // deleted while its block may have been drained
}

// drain moves the written blocks to the sink, as a sync does.
func (w *concWorld) drain() error {
	return w.db.BlockIterator(func(id int64, keys []uint64) (bool, error) {
		got := map[uint64][]byte{}
		for _, k := range keys {
			v, err := w.db.Lookup(id, k)
			if err != nil {
				continue // deleted meanwhile
			}
			got[k] = append([]byte(nil), v...)
		}
		w.mu.Lock()
		for k, v := range got {
			if _, ok := w.sink[k]; ok {
				w.errs = append(w.errs, fmt.Errorf("key %d is drained twice", k))
			}
			w.sink[k] = v
		}
		w.mu.Unlock()
		return false, w.db.Free(id)
	})
}

func runConc(in *vh.Info, c ConcCase) error {
	w := &concWorld{world: &world{c: Case{Log: c.Log, Block: c.Block, Small: true}, in: in, dir: filepath.Join(in.Dir, "m0")}, sink: map[uint64][]byte{}}
	if err := w.open(false); err != nil {
		return err
	}
	var stop atomic.Bool
	var wg, bg sync.WaitGroup
	finals := make([]map[uint64]*ckey, len(c.Workers))
	start := make(chan struct{})
	for g, ops := range c.Workers {
		wg.Add(1)
		mine := map[uint64]*ckey{}
		finals[g] = mine
		go func() {
			defer wg.Done()
			<-start
			keys := func(a int) uint64 { return uint64(g)<<32 | uint64(a) }
			val := func(a, s int) []byte {
				b := bytes.Repeat([]byte{byte('a' + a%26)}, s)
				return append(b, fmt.Sprintf("w%d.%d", g, a)...)
			}
			look := func(k uint64, e *ckey) {
				got, err := w.db.Get(k)
				w.mu.Lock()
				sunk, drained := w.sink[k]
				w.mu.Unlock()
				switch {
				case err == nil && !bytes.Equal(got, e.val):
					w.fail(fmt.Errorf("get of key %x returned %s, want %s", k, show(got), show(e.val)))
				case err == nil && e.gone && !e.torn:
					w.fail(fmt.Errorf("get of key %x, which was deleted, returned %s", k, show(got)))
				case err != nil && !e.gone && !drained:
					w.fail(fmt.Errorf("get of key %x failed: %v", k, err))
				case drained && !bytes.Equal(sunk, e.val):
					w.fail(fmt.Errorf("key %x was drained as %s, want %s", k, show(sunk), show(e.val)))
				}
			}
			for _, o := range ops {
				k := keys(o.A)
				switch o.K {
				case "put":
					v := val(o.A, o.S)
					if _, err := w.db.Put(k, v); err != nil {
						w.fail(fmt.Errorf("put of key %x failed: %v", k, err))
						continue
					}
					mine[k] = &ckey{val: v}
				case "get":
					if e := mine[k]; e != nil {
						look(k, e)
					} else if got, err := w.db.Get(k); err == nil {
						w.fail(fmt.Errorf("get of key %x, which was never put, returned %s", k, show(got)))
					}
				case "del":
					e := mine[k]
					if e == nil || e.gone {
						continue
					}
					err := w.db.Delete(k)
					w.mu.Lock()
					_, drained := w.sink[k]
					w.mu.Unlock()
					if err != nil && !drained && c.Drain == 0 {
						w.fail(fmt.Errorf("delete of key %x failed: %v", k, err))
					}
					if err == nil {
						e.gone = true
						e.torn = c.Drain > 0
						w.hit("del")
					} else {
						e.torn = true
					}
				case "batch":
					var put []uint64
					err := w.db.Batch(func(b *memdb.Batch, _ <-chan struct{}) error {
						for _, s := range o.B {
							if s.K == "write" {
								if err := b.Write(); err != nil {
									return err
								}
								continue
							}
							if err := b.Put(keys(s.A), val(s.A, s.S)); err != nil {
								return err
							}
							put = append(put, keys(s.A))
						}
						if o.E {
							return errAbort
						}
						return nil
					})
					if o.E && err == errAbort {
						for _, k := range put {
							if got, err := w.db.Get(k); err == nil {
								w.fail(fmt.Errorf("get of key %x of an aborted batch returned %s", k, show(got)))
							}
						}
						continue
					}
					if err != nil {
						w.fail(fmt.Errorf("batch failed: %v", err))
						continue
					}
					for _, s := range o.B {
						if s.K == "put" {
							mine[keys(s.A)] = &ckey{val: val(s.A, s.S)}
						}
					}
					w.hit("batch")
				case "sleep":
					time.Sleep(time.Duration(o.A)*time.Millisecond + time.Duration(g)*time.Microsecond)
				}
			}
			for k, e := range mine {
				look(k, e)
			}
		}()
	}
	every := func(ms int, f func() error) {
		bg.Add(1)
		go func() {
			defer bg.Done()
			<-start
			for !stop.Load() {
				if err := f(); err != nil {
					w.fail(err)
					return
				}
				time.Sleep(time.Duration(ms)*time.Millisecond + 7*time.Microsecond)
			}
		}()
	}
	if c.Drain > 0 {
		every(c.Drain, w.drain)
	}
	if c.Scan > 0 {
		every(c.Scan, func() error {
			seen := map[uint64]bool{}
			for _, k := range w.db.Keys() {
				if seen[k] {
					return fmt.Errorf("Keys lists key %x twice", k)
				}
				seen[k] = true
			}
			if s := w.db.Size(); s < 0 {
				return fmt.Errorf("Size is %d", s)
			}
			return nil
		})
	}
	close(start)
	wg.Wait()
	stop.Store(true)
	bg.Wait()
	finish := func() error {
		if len(w.errs) > 0 {
			return w.errs[0]
		}
		live := func() map[uint64]bool {
			m := map[uint64]bool{}
			for _, k := range w.db.Keys() {
				m[k] = true
			}
			return m
		}
		for round := 0; round < 2; round++ {
			have := live()
			for _, mine := range finals {
				for k, e := range mine {
					_, drained := w.sink[k]
					switch {
					case e.torn:
					case e.gone && (have[k] || drained):
						return fmt.Errorf("key %x was deleted and is still there (round %d)", k, round)
					case !e.gone && !have[k] && !drained:
						return fmt.Errorf("key %x is lost (round %d)", k, round)
					case !e.gone && have[k] && drained:
						return fmt.Errorf("key %x was drained and is still there (round %d)", k, round)
					case !e.gone && have[k]:
						if got, err := w.db.Get(k); err != nil || !bytes.Equal(got, e.val) {
							return fmt.Errorf("get of key %x gives %s, %v, want %s (round %d)", k, show(got), err, show(e.val), round)
						}
					}
					delete(have, k)
				}
			}
			if len(have) > 0 {
				return fmt.Errorf("%d keys that were never put are listed (round %d)", len(have), round)
			}
			if round == 0 {
				if err := w.db.Close(); err != nil {
					return fmt.Errorf("close failed: %v", err)
				}
				if err := w.open(false); err != nil {
					return err
				}
			}
		}
		return nil
	}
	err := finish()
	if e := w.db.Close(); e != nil && err == nil {
		err = fmt.Errorf("close failed: %v", e)
	}
	n := 0
	for _, mine := range finals {
		if len(mine) > 2 {
			n++
		}
	}
	if n >= 2 {
		in.NonTrivial()
	}
	if len(w.sink) > 0 {
		in.Hit("drained")
	}
	return err
}

func genConc(r *rand.Rand, tier string, n int) ConcCase {
	c := ConcCase{Log: []int{15, 1, 5}[r.Intn(3)], Block: []int{200, 1000, 20}[r.Intn(3)], Drain: []int{0, 1, 10, 100}[r.Intn(4)], Scan: []int{0, 1, 10}[r.Intn(3)]}
	sizes := []int{0, 1, 20, 300, 4000}
	for g := 2 + r.Intn(6); g > 0; g-- {
		var ops []Op
		next := 0
		l := 5 + r.Intn(60)
		for len(ops) < l {
			switch x := r.Intn(20); {
			case x < 9:
				next++
				ops = append(ops, Op{K: "put", A: next, S: sizes[r.Intn(len(sizes))]})
			case x < 12:
				ops = append(ops, Op{K: "get", A: 1 + r.Intn(next+1)})
			case x < 15:
				ops = append(ops, Op{K: "del", A: 1 + r.Intn(next+1)})
			case x < 18:
				ops = append(ops, Op{K: "sleep", A: []int{0, 1, 7, 30, 220}[r.Intn(5)]})
			default:
				o := Op{K: "batch", E: r.Intn(4) == 0}
				for i := r.Intn(5); i >= 0; i-- {
					if r.Intn(6) == 0 {
						o.B = append(o.B, Op{K: "write"})
						continue
					}
					next++
					o.B = append(o.B, Op{K: "put", A: next, S: sizes[r.Intn(len(sizes))]})
				}
				ops = append(ops, o)
			}
		}
		c.Workers = append(c.Workers, ops)
	}
	return c
}

func shrinkConc(c ConcCase) []ConcCase {
	var out []ConcCase
	for _, ws := range vh.Chunks(c.Workers) {
		d := c
		d.Workers = ws
		out = append(out, d)
	}
	for i := range c.Workers {
		for _, ops := range vh.Chunks(c.Workers[i]) {
			d := c
			d.Workers = append([][]Op(nil), c.Workers...)
			d.Workers[i] = ops
			out = append(out, d)
		}
	}
	return out
}
