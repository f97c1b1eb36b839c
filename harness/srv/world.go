//go:build go1.25

package srv

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/unit-io/unitdb/server/internal/message/security"
	"github.com/unit-io/unitdb/server/internal/pkg/crypto"
	"github.com/unit-io/unitdb/server/internal/pkg/uid"
	"github.com/unit-io/unitdb/server/utp"
	"github.com/unit-io/unitdb/server/zzverif/vh"
)

// ESlot is a client.
type ESlot struct {
	Contract int   `json:"k,omitempty"`
	Sec      bool  `json:"s,omitempty"` // a secondary identity
	Insecure bool  `json:"i,omitempty"`
	Dur      int32 `json:"d,omitempty"` // batches
	Cnt      int32 `json:"c,omitempty"`
	Byt      int32 `json:"b,omitempty"`
	Small    bool  `json:"z,omitempty"` // full soon
	Manual   bool  `json:"m,omitempty"` // answers notifications only when told
	Sess     int32 `json:"e,omitempty"` // session, a new one each time if 0
	NoKey    bool  `json:"n,omitempty"` // the session of the identity
}

// ESub is a subscription.
type ESub struct {
	T   string `json:"t"`
	M   uint8  `json:"m,omitempty"`
	D   int32  `json:"d,omitempty"`
	Key int    `json:"k,omitempty"`
}

// EMsg is a message to publish.
type EMsg struct {
	T    string `json:"t"`
	Fill int    `json:"f,omitempty"`
	TTL  string `json:"l,omitempty"`
	Key  int    `json:"k,omitempty"`
	Same bool   `json:"s,omitempty"` // the bytes of the message before
}

// EOp is a step.
type EOp struct {
	K    string `json:"k"`
	C    int    `json:"c,omitempty"`
	N    int    `json:"n,omitempty"`
	P    uint8  `json:"p,omitempty"`
	T    string `json:"t,omitempty"`
	L    string `json:"l,omitempty"`
	Subs []ESub `json:"s,omitempty"`
	Msgs []EMsg `json:"m,omitempty"`
	Par  []EOp  `json:"o,omitempty"`
	Raw  []byte `json:"r,omitempty"`
}

// ECase is a history of clients of one server.
type ECase struct {
	Mem   int     `json:"mem"`
	Timed bool    `json:"timed,omitempty"` // deliveries are checked to be in time
	Late  bool    `json:"late,omitempty"`  // deliveries are awaited at the end only
	Count bool    `json:"count,omitempty"` // the numbers reported are compared
	First uint32  `json:"first,omitempty"` // number of the first connection
	Slots []ESlot `json:"slots"`
	Ops   []EOp   `json:"ops"`
}

// Keys a request may carry.
const (
	keyExact   = iota // of the topic, read and write
	keyAll            // of all topics, read and write
	keyRead           // of the topic
	keyWrite          // of the topic
	keyOther          // of another topic
	keyForeign        // of another contract
	keyBad            // no key
	keyNone           // of the topic, without permissions
	keyOwner          // of the topic, all permissions
	keyMissing        // the topic without a key
	keyKinds
)

var keyNames = []string{"exact", "all", "read", "write", "other", "foreign", "bad", "none", "owner", "missing"}

type subst struct {
	pattern string
	n       int
	mode    uint8
	delay   int32
	key     int
}

type owed struct{ topic, payload string }

type esess struct {
	out  map[uint16]owed
	used bool
}

type econn struct {
	cl     *client
	slot   int
	subs   map[string]*subst
	want   map[string]int             // deliveries due at once, by payload
	later  map[string][]time.Time     // deliveries in a batch: not before
	topics map[string]map[string]bool // topics a payload may carry
	maybe  map[string]int             // deliveries that may come
	acks   map[string]int
	errs   []string
	sess   *esess
	known  map[uint16]int // notifications accounted for
	mids   uint16
}

type kept struct {
	contract int
	topic    string
	payload  string
	at       time.Time
	expires  int64
}

type world struct {
	in               *vh.Info
	c                ECase
	mac              *crypto.MAC
	dir              string
	dirs             int
	srv              *server
	conns            []*econn
	sess             map[string]*esess
	stored           []kept
	serial           int
	lastPay          string
	fresh            int32
	rogues           []*client
	jobs             []*job
	inMsgs           int64
	inByte           int64
	outMsgs, outByte int64
}

func contractOf(k int) uint32 { return 0x3c5a1100 + 0x01010001*uint32(k) }

// id is the identity of a client; each has an epoch of its own.
func (w *world) id(slot int) uid.ID {
	id, err := uid.NewClientID(1)
	if err != nil {
		panic(err)
	}
	k := 7
	if slot < len(w.c.Slots) {
		k = w.c.Slots[slot].Contract
		if w.c.Slots[slot].Sec {
			id.SetPermissions(uid.AllowNone)
		}
	}
	id.SetContract(contractOf(k))
	id.SetEpoch(0xE0000000 + uint32(slot))
	return id
}

// text is the topic as the client sends it.
func (w *world) text(slot int, t string, key int) string {
	s := w.c.Slots[slot]
	if s.Insecure {
		return t
	}
	name := t
	if i := strings.IndexByte(t, '?'); i >= 0 {
		name = t[:i]
	}
	return w.key(s.Contract, name, key) + t
}

func (w *world) key(contract int, name string, key int) string {
	ct := contractOf(contract)
	perm := security.AllowReadWrite
	target := name
	switch key {
	case keyAll:
		target = "..."
	case keyRead:
		perm = security.AllowRead
	case keyWrite:
		perm = security.AllowWrite
	case keyOther:
		target = name + ".zz"
	case keyForeign:
		ct = contractOf(contract + 1)
	case keyNone:
		perm = security.AllowNone
	case keyOwner:
		perm = security.AllowOwner | security.AllowAdmin | security.AllowReadWrite
	case keyBad:
		return "nokey/"
	case keyMissing:
		return ""
	}
	k, err := security.GenerateKey(ct, target, uint32(perm))
	if err != nil {
		panic(err)
	}
	return k + "/"
}

// status is the answer to a request: 0 if it is allowed, otherwise the status of the error.
func (w *world) status(slot int, t string, key int, write bool) int {
	if w.c.Slots[slot].Insecure {
		return 0
	}
	switch key {
	case keyBad, keyMissing:
		return 400
	case keyRead:
		if write {
			return 401
		}
	case keyWrite:
		if !write {
			return 401
		}
	case keyNone, keyOther, keyForeign:
		return 401
	case keyAll:
		if write {
			return 403
		}
	}
	if write && wild(t) {
		return 403
	}
	return 0
}

func name(t string) string {
	if i := strings.IndexByte(t, '?'); i >= 0 {
		return t[:i]
	}
	return t
}

func newWorld(in *vh.Info, c ECase) (*world, error) {
	w := &world{in: in, c: c, mac: newMAC(), dir: filepath.Join(in.Dir, "db0"), sess: map[string]*esess{}, fresh: 1 << 20}
	w.conns = make([]*econn, len(c.Slots))
	var err error
	uid.Next = c.First
	w.srv, err = serve(w.dir, c.Mem)
	return w, err
}

// end stops everything.
func (w *world) end() (err error) {
	for i := range w.conns {
		w.drop(i, true)
	}
	for _, r := range w.rogues {
		r.hang()
	}
	w.rogues = nil
	settle()
	// connections send their last batches
	for i := 0; ; i++ {
		v, e := w.srv.varz()
		if e != nil {
			err = e
			break
		}
		if v.Connections == 0 {
			if v.Subscriptions != 0 {
				err = fmt.Errorf("%d subscriptions are counted when all clients are gone", v.Subscriptions)
			}
			break
		}
		if i == 100 {
			err = fmt.Errorf("%d connections are left when all clients are gone", v.Connections)
			break
		}
		time.Sleep(4 * time.Second)
		settle()
	}
	time.Sleep(time.Second)
	settle()
	w.srv.close()
	time.Sleep(70 * time.Second)
	settle()
	return err
}

func (w *world) drop(slot int, abrupt bool) {
	e := w.conns[slot]
	if e == nil {
		return
	}
	if !abrupt {
		e.cl.pack(&utp.Disconnect{MessageID: 1})
		settle()
	}
	e.cl.hang()
	e.sess.used = false
	w.conns[slot] = nil
	settle()
}

// login connects a client and waits for the answer.
func (w *world) login(slot int, sessKey int32, clean, auto bool) (*client, error) {
	cl := dial(w.srv, auto)
	m := &utp.Connect{Version: 1, ClientID: w.id(slot).Encode(w.mac), SessKey: sessKey, CleanSessFlag: clean, KeepAlive: 60, Username: "u", BatchDuration: 100, BatchByteThreshold: 1 << 20, BatchCountThreshold: 1000}
	if slot < len(w.c.Slots) {
		s := w.c.Slots[slot]
		m.InsecureFlag = s.Insecure
		if s.Cnt > 0 || s.Small {
			m.BatchDuration, m.BatchByteThreshold, m.BatchCountThreshold = s.Dur, s.Byt, s.Cnt
		}
	} else {
		m.InsecureFlag = true
	}
	cl.pack(m)
	settle()
	cl.mu.Lock()
	defer cl.mu.Unlock()
	if cl.connack == nil {
		return cl, fmt.Errorf("client %d: connect is not acknowledged (%v)", slot, cl.err)
	}
	if cl.connack.ReturnCode != 0 {
		return cl, fmt.Errorf("client %d is refused with code %d", slot, cl.connack.ReturnCode)
	}
	if uint32(cl.connack.Epoch) != 0xE0000000+uint32(slot) {
		return cl, fmt.Errorf("client %d: connect is acknowledged with epoch %x", slot, uint32(cl.connack.Epoch))
	}
	return cl, nil
}

func (w *world) connect(o EOp) error {
	s := w.c.Slots[o.C]
	if w.conns[o.C] != nil {
		return nil
	}
	key := s.Sess
	own := fmt.Sprint("id ", o.C)
	sk := fmt.Sprint(s.Contract, " ", key)
	switch {
	case s.NoKey:
		key = 0
		sk = own
	case key == 0:
		w.fresh++
		key = w.fresh
		sk = fmt.Sprint(s.Contract, " ", key)
	}
	ss := w.sess[sk]
	if ss != nil && ss.used {
		return nil
	}
	if ss == nil {
		ss = &esess{out: map[uint16]owed{}}
	}
	w.sess[sk] = ss
	w.sess[own] = ss
	e := &econn{slot: o.C, subs: map[string]*subst{}, want: map[string]int{}, later: map[string][]time.Time{}, topics: map[string]map[string]bool{}, maybe: map[string]int{}, acks: map[string]int{}, sess: ss, known: map[uint16]int{}}
	clean := o.N == 1
	cl, err := w.login(o.C, key, clean, !s.Manual)
	if err != nil {
		cl.hang()
		return err
	}
	e.cl = cl
	ss.used = true
	w.conns[o.C] = e
	if clean && len(ss.out) > 0 {
		w.in.Hit("session dropped")
		ss.out = map[uint16]owed{}
	}
	if len(ss.out) > 0 {
		w.in.Hit("session resumed")
	}
	if s.Manual {
		for id := range ss.out {
			e.known[id] = 1
		}
	} else {
		for _, x := range ss.out {
			w.expect(e, x.topic, x.payload)
		}
		ss.out = map[uint16]owed{}
	}
	return nil
}

func (w *world) expect(e *econn, topic, payload string) {
	e.want[payload]++
	w.may(e, topic, payload)
}

func (w *world) may(e *econn, topic, payload string) {
	if e.topics[payload] == nil {
		e.topics[payload] = map[string]bool{}
	}
	e.topics[payload][topic] = true
}

// fail tells the client that a request was refused.
func (e *econn) refused(status int, id uint16) {
	e.errs = append(e.errs, fmt.Sprint(status, " for ", id))
}

func (w *world) subscribe(o EOp) {
	e := w.conns[o.C]
	e.mids++
	m := &utp.Subscribe{MessageID: e.mids}
	for _, s := range o.Subs {
		if s.Key == keyForeign && !w.distinct(o.C, s.T) {
			continue
		}
		k := name(s.T)
		x := e.subs[k]
		if x != nil {
			// the same subscription again counts; with another key it would be another one
			if s.Key != x.key && w.status(o.C, s.T, s.Key, false) == 0 {
				continue
			}
			s.M, s.D = x.mode, x.delay
		}
		m.Subscriptions = append(m.Subscriptions, &utp.Subscription{Topic: w.text(o.C, s.T, s.Key), DeliveryMode: s.M, Delay: s.D})
		if st := w.status(o.C, s.T, s.Key, false); st != 0 {
			e.refused(st, e.mids)
			w.in.Hit("refused")
			continue
		}
		if x == nil {
			x = &subst{pattern: k, mode: s.M, delay: s.D, key: s.Key}
			e.subs[k] = x
			if wild(k) {
				w.in.Hit("wildcard")
			}
		} else {
			w.in.Hit("subscribed again")
		}
		x.n++
		w.in.Hit("subscribed")
	}
	if len(m.Subscriptions) == 0 {
		e.mids--
		return
	}
	e.acks[fmt.Sprint(utp.SUBSCRIBE, " ", e.mids)]++
	e.cl.pack(m)
}

func (w *world) unsubscribe(o EOp) {
	e := w.conns[o.C]
	e.mids++
	m := &utp.Unsubscribe{MessageID: e.mids}
	for _, s := range o.Subs {
		if s.Key == keyForeign && !w.distinct(o.C, s.T) {
			continue
		}
		k := name(s.T)
		x := e.subs[k]
		st := w.status(o.C, s.T, s.Key, false)
		if x != nil && s.Key != x.key && st == 0 {
			s.Key = x.key // with another key it would be another subscription
		}
		m.Subscriptions = append(m.Subscriptions, &utp.Subscription{Topic: w.text(o.C, s.T, s.Key)})
		if st != 0 {
			e.refused(st, e.mids)
			w.in.Hit("refused")
			continue
		}
		if x != nil {
			x.n--
			if x.n == 0 {
				delete(e.subs, k)
				w.in.Hit("unsubscribed")
			}
		}
	}
	if len(m.Subscriptions) == 0 {
		e.mids--
		return
	}
	e.acks[fmt.Sprint(utp.UNSUBSCRIBE, " ", e.mids)]++
	e.cl.pack(m)
}

// distinct tells whether the contracts have different keys for a topic.
func (w *world) distinct(slot int, t string) bool {
	k := w.c.Slots[slot].Contract
	a, b := w.key(k, name(t), keyExact), w.key(k, name(t), keyForeign)
	// the target is in the last characters
	return a != b && !sameTarget(a, b)
}

func sameTarget(a, b string) bool {
	x, e1 := security.DecodeKey(strings.TrimSuffix(a, "/"))
	y, e2 := security.DecodeKey(strings.TrimSuffix(b, "/"))
	if e1 != nil || e2 != nil {
		return true
	}
	return string(x[4:8]) == string(y[4:8])
}

func (w *world) payload(slot, fill int) string {
	w.serial++
	s := fmt.Sprintf("<%d from %d>", w.serial, slot)
	if fill > 0 {
		b := make([]byte, fill)
		rand.New(rand.NewSource(int64(w.serial))).Read(b)
		s += string(b)
	}
	return s
}

// publish sends messages; the deliveries are noted.
func (w *world) publish(o EOp) error {
	e := w.conns[o.C]
	e.mids++
	m := &utp.Publish{MessageID: e.mids, DeliveryMode: o.P}
	ct := w.c.Slots[o.C].Contract
	denied := 0
	for _, x := range o.Msgs {
		if x.Key == keyForeign && !w.distinct(o.C, x.T) {
			continue
		}
		st := w.status(o.C, x.T, x.Key, true)
		if st == 0 && wild(name(x.T)) {
			continue // without keys a message may be published to a pattern: not specified
		}
		if st != 0 && len(m.Messages) > 0 {
			continue // what follows a refused message is not sent
		}
		p := w.lastPay
		if !x.Same || p == "" {
			p = w.payload(o.C, x.Fill)
			w.lastPay = p
		} else {
			w.in.Hit("same bytes")
		}
		m.Messages = append(m.Messages, &utp.PublishMessage{Topic: w.text(o.C, x.T, x.Key), Payload: []byte(p), Ttl: x.TTL})
		if st != 0 {
			denied = st
			w.in.Hit("refused")
			break
		}
		w.inMsgs++
		w.inByte += int64(len(p))
		w.keep(ct, name(x.T), p, x.TTL)
		for _, r := range w.conns {
			if r != nil && w.c.Slots[r.slot].Contract == ct {
				w.route(r, name(x.T), p, o.P)
			}
		}
	}
	if len(m.Messages) == 0 {
		e.mids--
		return nil
	}
	if denied != 0 {
		e.refused(denied, e.mids)
	} else {
		e.acks[fmt.Sprint(utp.PUBLISH, " ", e.mids)]++
	}
	e.cl.pack(m)
	return nil
}

// job is a delivery whose time is checked.
type job struct {
	e       *econn
	payload string
	at, due time.Time // published, due for the batch queue
	by      time.Time
	batched bool
	delay   int32
}

// deadlines works out when each delivery is late. A connection sends one batch in two seconds, and who
// publishes to it waits while its queue is full, so all batches of all clients are taken to be sent one
// after the other, and what is published while one is waiting to be sent as published when none is.
func (w *world) deadlines() bool {
	const gap = time.Second
	type span struct{ from, to time.Time }
	for round := 0; round < 6; round++ {
		var due []time.Time
		for _, j := range w.jobs {
			if j.batched {
				due = append(due, j.due)
				if w.c.Slots[j.e.slot].Small {
					due = append(due, j.by) // sent at once perhaps
				}
			}
		}
		sort.Slice(due, func(a, b int) bool { return due[a].Before(due[b]) })
		var spans []span
		for _, t := range due {
			if n := len(spans); n > 0 && !t.After(spans[n-1].to.Add(gap)) {
				spans[n-1].to = spans[n-1].to.Add(2 * time.Second)
			} else {
				spans = append(spans, span{t, t.Add(2 * time.Second)})
			}
		}
		end := func(t time.Time) time.Time {
			for _, s := range spans {
				if !t.Before(s.from.Add(-gap)) && !t.After(s.to.Add(gap)) {
					return s.to.Add(gap)
				}
			}
			return t
		}
		changed := false
		for _, j := range w.jobs {
			from := end(j.at)
			if !from.Equal(j.by) {
				j.by, changed = from, true
			}
			if j.batched {
				s := w.c.Slots[j.e.slot]
				due := from.Add(time.Duration(j.delay)*time.Millisecond + time.Duration(s.Dur)*time.Millisecond + 200*time.Millisecond)
				if !due.Equal(j.due) {
					j.due, changed = due, true
				}
			}
		}
		if !changed {
			for _, j := range w.jobs {
				if j.batched {
					j.by = end(j.due)
				}
			}
			return true
		}
	}
	return false
}

func (w *world) keep(ct int, topic, payload, ttl string) {
	k := kept{contract: ct, topic: topic, payload: payload, at: time.Now()}
	if ttl != "" {
		d, err := time.ParseDuration(ttl)
		if err != nil {
			panic(err)
		}
		k.expires = time.Now().Add(d).Unix()
	}
	w.stored = append(w.stored, k)
}

// route notes what a connection gets of a message.
func (w *world) route(r *econn, topic, payload string, p uint8) {
	for _, s := range r.subs {
		if !glob(s.pattern, topic) {
			continue
		}
		reliable := p > 0 && s.mode > 0
		if !reliable {
			w.outMsgs++
			w.outByte += int64(len(payload))
		}
		switch {
		case reliable && w.c.Slots[r.slot].Manual:
			// the identifier is learned when it is announced
			r.sess.out[0] = owed{topic, payload}
			w.in.Hit("reliable")
		case reliable:
			w.jobs = append(w.jobs, &job{e: r, payload: payload, at: time.Now()})
			w.expect(r, topic, payload)
			w.in.Hit("reliable")
		case s.mode == 2 || s.delay > 0:
			w.jobs = append(w.jobs, &job{e: r, payload: payload, at: time.Now(), batched: true, delay: s.delay})
			w.may(r, topic, payload)
			r.later[payload] = append(r.later[payload], time.Now().Add(time.Duration(s.delay)*time.Millisecond))
			w.in.Hit("batched")
		default:
			w.jobs = append(w.jobs, &job{e: r, payload: payload, at: time.Now()})
			w.expect(r, topic, payload)
			w.in.Hit("express")
		}
	}
}

// verify compares what a client got with what it should have got; final also awaits the batches.
func (w *world) verify(i int, e *econn, final bool) error {
	cl := e.cl
	cl.mu.Lock()
	defer cl.mu.Unlock()
	if cl.bad != nil {
		return fmt.Errorf("op %d: client %d: %v", i, e.slot, cl.bad)
	}
	if cl.closed {
		return fmt.Errorf("op %d: the connection of client %d was closed: %v", i, e.slot, cl.err)
	}
	got := map[string]int{}
	var errs []string
	for _, x := range cl.events {
		if x.topic == "unitdb/error/" {
			var r struct{ Status, ID int }
			if err := json.Unmarshal([]byte(x.payload), &r); err != nil {
				return fmt.Errorf("op %d: client %d: an error is no JSON: %q", i, e.slot, x.payload)
			}
			errs = append(errs, fmt.Sprint(r.Status, " for ", r.ID))
			continue
		}
		if strings.HasPrefix(x.topic, "unitdb/") {
			continue
		}
		k := got[x.payload]
		got[x.payload]++
		if k >= e.want[x.payload]+len(e.later[x.payload])+e.maybe[x.payload] {
			return fmt.Errorf("op %d: client %d got %.20q on %q %d times, expected %d", i, e.slot, x.payload, x.topic, k+1, e.want[x.payload]+len(e.later[x.payload]))
		}
		if t := e.topics[x.payload]; !t[x.topic] {
			return fmt.Errorf("op %d: client %d got %.20q on %q, it was published to %v", i, e.slot, x.payload, x.topic, t)
		}
		if s := w.c.Slots[e.slot]; e.want[x.payload]+e.maybe[x.payload] == 0 && !s.Small {
			// the k-th delivery is not before the k-th time
			ts := append([]time.Time(nil), e.later[x.payload]...)
			sort.Slice(ts, func(a, b int) bool { return ts[a].Before(ts[b]) })
			if x.at.Before(ts[k].Add(-2 * time.Millisecond)) {
				return fmt.Errorf("op %d: client %d got %.20q %v before its delay is over", i, e.slot, x.payload, ts[k].Sub(x.at))
			}
		}
	}
	if !w.c.Late || final {
		for p, n := range e.want {
			if got[p] < n {
				return fmt.Errorf("op %d: client %d got %.20q %d times, expected %d on %v", i, e.slot, p, got[p], n, e.topics[p])
			}
		}
	}
	if final {
		for p, l := range e.later {
			if n := e.want[p] + len(l); got[p] < n {
				return fmt.Errorf("op %d: client %d got %.20q %d times in the end, expected %d", i, e.slot, p, got[p], n)
			}
		}
	}
	if final && w.c.Timed && w.deadlines() {
		by := map[string][]time.Time{}
		for _, j := range w.jobs {
			if j.e == e {
				by[j.payload] = append(by[j.payload], j.by)
			}
		}
		n := map[string]int{}
		for p, l := range by {
			sort.Slice(l, func(a, b int) bool { return l[a].Before(l[b]) })
			n[p] = -len(l)
		}
		for _, x := range cl.events {
			if l := by[x.payload]; len(l) > 0 && len(l) == e.want[x.payload]+len(e.later[x.payload]) && e.maybe[x.payload] == 0 {
				t := l[n[x.payload]+len(l)]
				n[x.payload]++
				if x.at.After(t.Add(time.Second)) {
					return fmt.Errorf("op %d: client %d got %.20q %v too late", i, e.slot, x.payload, x.at.Sub(t))
				}
				w.in.Hit("in time")
			}
		}
	}
	sort.Strings(errs)
	want := append([]string(nil), e.errs...)
	sort.Strings(want)
	if !w.c.Late || final {
		if fmt.Sprint(errs) != fmt.Sprint(want) {
			return fmt.Errorf("op %d: client %d got the errors %v, expected %v", i, e.slot, errs, want)
		}
		if len(cl.acks) != len(e.acks) {
			return fmt.Errorf("op %d: client %d got the acknowledgements %v, expected %v", i, e.slot, cl.acks, e.acks)
		}
		for k, n := range e.acks {
			if cl.acks[k] != n {
				return fmt.Errorf("op %d: client %d got %d acknowledgements of %q, expected %d", i, e.slot, cl.acks[k], k, n)
			}
		}
	}
	if w.c.Slots[e.slot].Manual {
		return w.verifyManual(i, e)
	}
	return nil
}

// verifyManual accounts for the notifications of a client that answers when told.
func (w *world) verifyManual(i int, e *econn) error {
	cl := e.cl
	var fresh []uint16
	for id, n := range cl.notified {
		switch {
		case e.known[id] == 0 && n == 1:
			fresh = append(fresh, id)
		case n != e.known[id]:
			return fmt.Errorf("op %d: client %d was notified of message %d %d times, expected %d", i, e.slot, id, n, e.known[id])
		}
	}
	for id, n := range e.known {
		if cl.notified[id] != n {
			return fmt.Errorf("op %d: client %d was notified of message %d %d times, expected %d", i, e.slot, id, cl.notified[id], n)
		}
	}
	x, due := e.sess.out[0]
	if !due {
		if len(fresh) > 0 {
			return fmt.Errorf("op %d: client %d was notified of messages %v, there are none", i, e.slot, fresh)
		}
		return nil
	}
	delete(e.sess.out, 0)
	n := 0
	for _, s := range e.subs {
		if glob(s.pattern, x.topic) && s.mode > 0 {
			n++
		}
	}
	if len(fresh) != n {
		return fmt.Errorf("op %d: client %d was notified of %d messages, expected %d", i, e.slot, len(fresh), n)
	}
	for _, id := range fresh {
		if _, ok := e.sess.out[id]; ok {
			return fmt.Errorf("op %d: client %d was notified of message %d, an earlier one has this identifier", i, e.slot, id)
		}
		e.sess.out[id] = x
		e.known[id] = 1
	}
	return nil
}
