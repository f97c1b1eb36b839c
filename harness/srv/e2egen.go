//go:build go1.25

package srv

import (
	"math/rand"

	"github.com/unit-io/unitdb/server/zzverif/vh"
)

// space is what the steps of a history are made of.
type space struct {
	r      *rand.Rand
	c      *ECase
	topics []string // plain
	pats   []string // patterns
	w      map[string]int
	keys   bool // requests with keys that do not fit
	batch  bool
	mode   func() uint8 // of subscriptions
	modes  map[string]uint8
	single bool // one message in a publish
	same   bool // some messages have the bytes of the one before
}

func newSpace(r *rand.Rand, c *ECase) *space {
	s := &space{r: r, c: c, modes: map[string]uint8{}}
	c.Mem = 1 << uint(12+r.Intn(10))
	if r.Intn(2) == 0 {
		// numbers of connections around those that need another byte
		c.First = 1<<uint([]int{8, 16, 24, 31}[r.Intn(4)]) - uint32(r.Intn(12))
	}
	for i := 1 + r.Intn(4); i > 0; i-- {
		s.topics = append(s.topics, plainTopic(r))
	}
	for i := 1 + r.Intn(4); i > 0; i-- {
		s.pats = append(s.pats, pattern(r, s.topics[r.Intn(len(s.topics))]))
	}
	s.pats = append(s.pats, s.topics...)
	s.mode = func() uint8 { return uint8(r.Intn(2)) }
	return s
}

func (s *space) topic() string { return s.topics[s.r.Intn(len(s.topics))] }

func (s *space) key() int {
	if s.keys && s.r.Intn(2) == 0 {
		return s.r.Intn(keyKinds)
	}
	return keyExact
}

func (s *space) sub() ESub {
	x := ESub{T: s.pats[s.r.Intn(len(s.pats))], M: s.mode(), Key: s.key()}
	if s.batch && x.M != 1 && s.r.Intn(3) == 0 {
		x.D = []int32{1, 30, 100, 250, 1000, 3000, 20000}[s.r.Intn(7)]
	}
	return x
}

func (s *space) subs() (l []ESub) {
	for i := 1 + s.r.Intn(2)*s.r.Intn(3); i > 0; i-- {
		l = append(l, s.sub())
	}
	return
}

func (s *space) publish(slot int) EOp {
	o := EOp{K: "publish", C: slot, P: uint8(s.r.Intn(3))}
	n := 1
	if !s.single {
		n += s.r.Intn(2) * s.r.Intn(3)
	}
	for ; n > 0; n-- {
		m := EMsg{T: s.topic(), Key: keyExact}
		if s.keys && s.r.Intn(3) == 0 {
			m.Key = s.key()
			if s.r.Intn(8) == 0 {
				m.T = s.pats[0]
			}
		}
		if s.r.Intn(3) == 0 {
			m.Fill = s.r.Intn(1 << uint(s.r.Intn(15)))
		}
		m.Same = s.same && s.r.Intn(4) == 0
		o.Msgs = append(o.Msgs, m)
	}
	return o
}

func (s *space) step() EOp {
	r := s.r
	o := EOp{K: pick(r, s.w), C: r.Intn(len(s.c.Slots))}
	switch o.K {
	case "connect":
		o.N = r.Intn(4)
	case "disconnect":
		o.N = r.Intn(2)
	case "subscribe", "unsubscribe":
		o.Subs = s.subs()
	case "publish":
		return s.publish(o.C)
	case "par":
		for i := 2 + r.Intn(8); i > 0; i-- {
			o.Par = append(o.Par, s.publish(r.Intn(len(s.c.Slots))))
		}
	case "sleep":
		o.N = 1 + r.Intn(1<<uint(r.Intn(17)))
	case "relay":
		for i := 1 + r.Intn(2); i > 0; i-- {
			o.Subs = append(o.Subs, ESub{T: s.topic(), Key: s.key()})
		}
		o.L = []string{"1h", "10s", "2m", "5m", ""}[r.Intn(5)]
	case "receive", "receipt", "restart", "newid":
		o.N = r.Intn(1000)
	case "keygen":
		for i := 1 + r.Intn(3); i > 0; i-- {
			o.Subs = append(o.Subs, ESub{T: s.pats[r.Intn(len(s.pats))], Key: r.Intn(6)})
		}
		if r.Intn(5) == 0 {
			o.Raw = [][]byte{[]byte("{"), []byte("null"), []byte("[]"), []byte(`[{"topic":""}]`), []byte(`[{}]`), []byte(`[null]`), []byte(`{"topic":1}`), {0xff}}[r.Intn(8)]
		}
	case "rogue":
		o.T = []string{"garbage", "early", "raw", "topics", "topics", "flow", "again", "empty", "half", "stuck", "quick", "idle", "ask"}[r.Intn(13)]
		o.N = r.Intn(1 << 20)
		switch o.T {
		case "garbage", "raw":
			o.Raw = genFuzz(r, "quick", 0).stream()
			if len(o.Raw) > 4000 {
				o.Raw = o.Raw[:4000]
			}
		case "topics", "flow", "ask":
			o.Raw = blob(r)
			if len(o.Raw) > 300 {
				o.Raw = o.Raw[:300]
			}
		}
	}
	return o
}

// steps connects the clients, subscribes them, and goes on at random.
func (s *space) steps(tier string, max int) {
	r := s.r
	for i := range s.c.Slots {
		s.c.Ops = append(s.c.Ops, EOp{K: "connect", C: i})
		if s.w["subscribe"] > 0 && r.Intn(4) > 0 {
			s.c.Ops = append(s.c.Ops, EOp{K: "subscribe", C: i, Subs: s.subs()})
		}
	}
	if tier == "thorough" {
		max *= 2
	}
	for i := 1 + r.Intn(max); i > 0; i-- {
		s.c.Ops = append(s.c.Ops, s.step())
	}
}

func slots(r *rand.Rand, n, contracts int) (l []ESlot) {
	for i := 0; i < n; i++ {
		l = append(l, ESlot{Contract: r.Intn(contracts), Sec: r.Intn(2) == 0, Insecure: r.Intn(2) == 0})
	}
	return
}

func genRoute(r *rand.Rand, tier string, n int) ECase {
	c := ECase{Slots: slots(r, 2+r.Intn(4), 1+r.Intn(2))}
	s := newSpace(r, &c)
	s.w = map[string]int{"connect": 4, "disconnect": 2, "subscribe": 7, "unsubscribe": 5, "publish": 12, "par": 2, "ping": 1, "sleep": 1}
	s.same = n%4 == 0
	s.steps(tier, 60)
	if n%5 == 0 {
		// connections that are used for several minutes
		for k := 1 + r.Intn(3); k > 0; k-- {
			at := len(c.Slots) + r.Intn(len(c.Ops)-len(c.Slots)+1)
			o := EOp{K: "sleep", N: 30000 + r.Intn(400000)}
			c.Ops = append(c.Ops[:at:at], append([]EOp{o}, c.Ops[at:]...)...)
		}
	}
	return c
}

func genCount(r *rand.Rand, tier string, n int) ECase {
	c := genRoute(r, tier, n)
	c.Count = true
	return c
}

func genAccess(r *rand.Rand, tier string, n int) ECase {
	c := ECase{Slots: slots(r, 2+r.Intn(3), 2)}
	for i := range c.Slots {
		c.Slots[i].Insecure = r.Intn(6) == 0
	}
	s := newSpace(r, &c)
	s.keys = true
	s.w = map[string]int{"connect": 2, "disconnect": 1, "subscribe": 7, "unsubscribe": 5, "publish": 12, "relay": 2, "keygen": 3, "newid": 3}
	s.steps(tier, 60)
	return c
}

func genSession(r *rand.Rand, tier string, n int) ECase {
	c := ECase{Slots: slots(r, 2+r.Intn(3), 1+r.Intn(2))}
	s := newSpace(r, &c)
	s.single = true
	s.mode = func() uint8 { return uint8(1 + r.Intn(2)) }
	for i := range c.Slots {
		x := &c.Slots[i]
		x.Manual = i == 0 || r.Intn(2) == 0
		switch r.Intn(3) {
		case 0:
			x.Sess = int32(r.Intn(5) - 2)
		case 1:
			x.NoKey = true
		}
	}
	s.w = map[string]int{"connect": 10, "disconnect": 5, "subscribe": 5, "unsubscribe": 1, "publish": 10, "receive": 6, "receipt": 5, "ping": 1, "sleep": 1}
	s.steps(tier, 70)
	for i, o := range c.Ops {
		if o.K == "publish" {
			c.Ops[i].P = uint8(1 + r.Intn(2))
		}
	}
	return c
}

func genBatch(r *rand.Rand, tier string, n int) ECase {
	c := ECase{Late: true, Timed: true, Slots: slots(r, 2+r.Intn(3), 1)}
	s := newSpace(r, &c)
	s.batch = true
	s.mode = func() uint8 { return uint8(r.Intn(3)) }
	for i := range c.Slots {
		if r.Intn(2) == 0 {
			c.Slots[i].Dur, c.Slots[i].Cnt, c.Slots[i].Byt = []int32{0, 1, 50, 100, 700, 5000}[r.Intn(6)], 10000, 1<<28
		} else if r.Intn(2) == 0 {
			// batches that are full at once or after a few messages
			x := &c.Slots[i]
			x.Small, x.Dur = true, []int32{0, 100, 3000}[r.Intn(3)]
			x.Cnt, x.Byt = []int32{0, 1, 2, 5}[r.Intn(4)], []int32{0, 10, 100, 1000}[r.Intn(4)]
			if r.Intn(2) == 0 {
				x.Byt = 1 << 28
			}
		}
	}
	s.w = map[string]int{"subscribe": 3, "unsubscribe": 1, "publish": 12, "par": 3, "sleep": 6}
	if n%2 == 0 {
		// few messages, so that none waits for others
		s.w = map[string]int{"subscribe": 6, "unsubscribe": 1, "publish": 4, "sleep": 2}
		s.steps(tier, 12)
		return c
	}
	s.steps(tier, 40)
	return c
}

func genRelay(r *rand.Rand, tier string, n int) ECase {
	c := ECase{Late: true, Slots: slots(r, 2+r.Intn(3), 2)}
	s := newSpace(r, &c)
	s.w = map[string]int{"publish": 12, "relay": 7, "sleep": 5, "connect": 1, "disconnect": 1}
	s.keys = n%3 == 0
	s.same = n%2 == 0
	s.steps(tier, 50)
	for i := range c.Ops {
		for k := range c.Ops[i].Msgs {
			if r.Intn(3) == 0 {
				c.Ops[i].Msgs[k].TTL = []string{"1m", "5s", "2h"}[r.Intn(3)]
			}
		}
	}
	return c
}

func genRogue(r *rand.Rand, tier string, n int) ECase {
	c := ECase{Slots: slots(r, 2+r.Intn(2), 1)}
	s := newSpace(r, &c)
	s.w = map[string]int{"connect": 2, "disconnect": 1, "subscribe": 3, "unsubscribe": 1, "publish": 8, "par": 1, "sleep": 1, "rogue": 14}
	s.steps(tier, 50)
	return c
}

func genRestart(r *rand.Rand, tier string, n int) ECase {
	c := ECase{Late: true, Slots: slots(r, 2+r.Intn(2), 2)}
	s := newSpace(r, &c)
	s.single = true
	s.mode = func() uint8 { return uint8(1 + r.Intn(2)) }
	for i := range c.Slots {
		x := &c.Slots[i]
		if i == 0 {
			continue // it relays; the others keep sessions
		}
		x.Manual = true
		if r.Intn(2) == 0 {
			x.Sess = int32(r.Intn(3) + 1)
		} else {
			x.NoKey = true
		}
	}
	s.w = map[string]int{"connect": 6, "disconnect": 1, "subscribe": 4, "publish": 10, "receive": 4, "receipt": 3, "relay": 4, "sleep": 1, "restart": 2}
	s.steps(tier, 60)
	for i, o := range c.Ops {
		switch o.K {
		case "publish":
			c.Ops[i].P = uint8(1 + r.Intn(2))
		case "relay":
			c.Ops[i].C = 0
		}
	}
	return c
}

func e2eSuites() []*vh.Suite {
	rule := "a history with at least two subscriptions and two deliveries"
	return []*vh.Suite{
		vh.New("S11", "routing", rule, true, genRoute, runWorld, shrinkWorld),
		vh.New("S13", "numbers", rule, true, genCount, runWorld, shrinkWorld),
		vh.New("S14", "access", rule, true, genAccess, runWorld, shrinkWorld),
		vh.New("S15", "sessions", "a history in which a session with messages owed is resumed", true, genSession, runWorld, shrinkWorld),
		vh.New("S16", "batches", rule, true, genBatch, runWorld, shrinkWorld),
		vh.New("S17", "relays", "a history in which stored messages are relayed", true, genRelay, runWorld, shrinkWorld),
		vh.New("S18", "rogues", rule, true, genRogue, runWorld, shrinkWorld),
		vh.New("S19", "restarts", "a history with a restart in which messages are relayed or a session with messages owed is resumed", true, genRestart, runWorld, shrinkWorld),
	}
}
