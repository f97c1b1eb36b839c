//go:build go1.25

package srv

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/unit-io/unitdb/server/internal/message/security"
	lp "github.com/unit-io/unitdb/server/internal/net"
	"github.com/unit-io/unitdb/server/internal/pkg/uid"
	"github.com/unit-io/unitdb/server/utp"
	"github.com/unit-io/unitdb/server/zzverif/vh"
)

func runWorld(in *vh.Info, c ECase) (err error) {
	w, err := newWorld(in, c)
	if err != nil {
		return fmt.Errorf("start: %v", err)
	}
	defer func() {
		e := w.end()
		if err == nil {
			err = e
		}
	}()
	settle()
	for i, o := range c.Ops {
		if err := w.step(i, o); err != nil {
			if !strings.HasPrefix(err.Error(), "op ") {
				err = fmt.Errorf("op %d (%s): %v", i, o.K, err)
			}
			return err
		}
		settle()
		for _, e := range w.conns {
			if e != nil {
				if err := w.verify(i, e, false); err != nil {
					return err
				}
			}
		}
		if err := w.count(); err != nil {
			return fmt.Errorf("op %d: %v", i, err)
		}
	}
	if err := w.flush(len(c.Ops)); err != nil {
		return err
	}
	if err := w.count(); err != nil {
		return err
	}
	nt := in.Seen("subscribed") > 1 && in.Seen("express")+in.Seen("reliable")+in.Seen("batched") > 1
	if in.Seen("manual") > 0 {
		nt = in.Seen("session resumed") > 0
	}
	if in.Seen("restarted") > 0 {
		nt = in.Seen("session resumed")+in.Seen("relayed") > 0
	}
	if in.Seen("relay") > 0 && in.Seen("restarted") == 0 {
		nt = in.Seen("relayed") > 0
	}
	if nt {
		in.NonTrivial()
	}
	return nil
}

// count compares the numbers the server reports.
func (w *world) count() error {
	if !w.c.Count || w.c.Late || len(w.rogues) > 0 {
		return nil
	}
	v, err := w.srv.varz()
	if err != nil {
		return err
	}
	var conns, subs int64
	for _, e := range w.conns {
		if e != nil {
			conns++
			subs += int64(len(e.subs))
		}
	}
	if v.Connections != conns || v.Subscriptions != subs || v.InMsgs != w.inMsgs || v.InBytes != w.inByte {
		return fmt.Errorf("the server counts %d connections, %d subscriptions and %d messages of %d bytes received, there are %d, %d and %d of %d", v.Connections, v.Subscriptions, v.InMsgs, v.InBytes, conns, subs, w.inMsgs, w.inByte)
	}
	if v.OutMsgs != w.outMsgs || v.OutBytes != w.outByte {
		return fmt.Errorf("the server counts %d messages of %d bytes sent directly, there are %d of %d", v.OutMsgs, v.OutBytes, w.outMsgs, w.outByte)
	}
	return nil
}

// flush awaits all batches.
func (w *world) flush(i int) error {
	var last error
	pause := 2 * time.Second
	if w.c.Late {
		pause = 25 * time.Second
	}
	for n := 0; n < 100; n++ {
		last = nil
		for _, e := range w.conns {
			if e != nil {
				if last = w.verify(i, e, true); last != nil {
					break
				}
			}
		}
		if last == nil {
			if n > 1 {
				return nil // nothing comes twice
			}
		}
		for _, e := range w.conns {
			if e != nil {
				w.ping(e)
			}
		}
		time.Sleep(pause)
		settle()
	}
	return last
}

func (w *world) ping(e *econn) {
	e.cl.pack(&utp.Pingreq{})
	e.acks[fmt.Sprint(utp.PINGREQ, " ", 0)]++
}

func (w *world) step(i int, o EOp) error {
	switch o.K {
	case "sleep":
		d := time.Duration(o.N) * time.Millisecond
		for d > 0 {
			s := min(d, 50*time.Second)
			time.Sleep(s)
			d -= s
			if d > 0 || s > 20*time.Second {
				for _, e := range w.conns {
					if e != nil {
						w.ping(e)
					}
				}
			}
		}
		return nil
	case "restart":
		return w.restart(o)
	case "rogue":
		return w.rogue(o)
	case "connect":
		return w.connect(o)
	case "par":
		for _, p := range o.Par {
			if p.K == "publish" && w.conns[p.C] != nil {
				if err := w.publish(p); err != nil {
					return err
				}
			}
			if p.K == "ping" && w.conns[p.C] != nil {
				w.ping(w.conns[p.C])
			}
		}
		w.in.Hit("burst")
		return nil
	}
	e := w.conns[o.C]
	if e == nil {
		return nil
	}
	switch o.K {
	case "disconnect":
		if err := w.verify(i, e, false); err != nil {
			return err
		}
		w.drop(o.C, o.N == 1)
		// the connection ends its subscriptions, and what waited for a batch is lost
	case "subscribe":
		w.subscribe(o)
	case "unsubscribe":
		w.unsubscribe(o)
	case "publish":
		return w.publish(o)
	case "ping":
		w.ping(e)
	case "relay":
		w.relay(o)
	case "receive", "receipt":
		return w.manual(o)
	case "keygen":
		return w.keygen(o)
	case "newid":
		return w.newid(o)
	}
	return nil
}

// relay asks for stored messages and waits for the acknowledgement. A connection reads on only when the
// batches before have left, so the time of the query is known as an interval.
func (w *world) relay(o EOp) {
	e := w.conns[o.C]
	e.mids++
	m := &utp.Relay{MessageID: e.mids}
	ct := w.c.Slots[o.C].Contract
	from := time.Now()
	var topics []string
	for _, s := range o.Subs {
		if wild(s.T) || s.Key == keyForeign && !w.distinct(o.C, s.T) {
			continue
		}
		m.RelayRequests = append(m.RelayRequests, &utp.RelayRequest{Topic: w.text(o.C, s.T, s.Key), Last: o.L})
		w.in.Hit("relay")
		if st := w.status(o.C, s.T, s.Key, false); st != 0 {
			e.refused(st, e.mids)
			w.in.Hit("refused")
			continue
		}
		topics = append(topics, s.T)
	}
	if len(m.RelayRequests) == 0 {
		e.mids--
		return
	}
	ack := fmt.Sprint(utp.RELAY, " ", e.mids)
	e.acks[ack]++
	e.cl.pack(m)
	for n := 0; n < 600; n++ {
		settle()
		e.cl.mu.Lock()
		done := e.cl.acks[ack] > 0
		e.cl.mu.Unlock()
		if done {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	d, _ := time.ParseDuration(o.L)
	if d == 0 {
		return
	}
	to := time.Now().Unix() + 1
	for _, t := range topics {
		for _, k := range w.stored {
			if k.contract != ct || k.topic != t {
				continue
			}
			since := func(now int64) int64 { return now - int64(d/time.Second) }
			if k.at.Unix() < since(from.Unix()) || k.expires != 0 && k.expires <= from.Unix() {
				w.in.Hit("relay leaves out")
				continue
			}
			w.may(e, t, k.payload)
			if k.at.Unix() < since(to) || k.expires != 0 && k.expires <= to {
				e.maybe[k.payload]++
				continue
			}
			e.later[k.payload] = append(e.later[k.payload], from)
			w.in.Hit("relayed")
		}
	}
}

// manual answers a notification: it asks for the message or confirms it.
func (w *world) manual(o EOp) error {
	e := w.conns[o.C]
	if !w.c.Slots[o.C].Manual || len(e.sess.out) == 0 {
		return nil
	}
	var ids []int
	for id := range e.sess.out {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	id := uint16(ids[o.N%len(ids)])
	x := e.sess.out[id]
	w.in.Hit("manual")
	e.cl.mu.Lock()
	was := len(e.cl.events)
	done := e.cl.complete[id]
	e.cl.mu.Unlock()
	if o.K == "receive" {
		w.expect(e, x.topic, x.payload)
		e.cl.flow(utp.RECEIVE, id)
		settle()
		e.cl.mu.Lock()
		defer e.cl.mu.Unlock()
		if e.cl.closed {
			return fmt.Errorf("client %d asked for message %d it was notified of and was disconnected", o.C, id)
		}
		if len(e.cl.events) != was+1 {
			return fmt.Errorf("client %d asked for message %d and got %d", o.C, id, len(e.cl.events)-was)
		}
		if g := e.cl.events[was]; g.mid != id || g.payload != x.payload || g.topic != x.topic {
			return fmt.Errorf("client %d asked for message %d (%.20q on %q) and got message %d (%.20q on %q)", o.C, id, x.payload, x.topic, g.mid, g.payload, g.topic)
		}
		w.in.Hit("received")
		return nil
	}
	e.cl.flow(utp.RECEIPT, id)
	settle()
	e.cl.mu.Lock()
	defer e.cl.mu.Unlock()
	if e.cl.complete[id] != done+1 {
		return fmt.Errorf("client %d confirmed message %d, it is not completed", o.C, id)
	}
	delete(e.sess.out, id)
	w.in.Hit("completed")
	return nil
}

// answer sends a request to the server itself and returns the answer.
func (w *world) answer(e *econn, req string, body []byte) (string, error) {
	e.cl.mu.Lock()
	was := len(e.cl.events)
	e.cl.mu.Unlock()
	e.mids++
	e.cl.pack(&utp.Publish{MessageID: e.mids, Messages: []*utp.PublishMessage{{Topic: "unitdb/" + req, Payload: body}}})
	settle()
	e.cl.mu.Lock()
	defer e.cl.mu.Unlock()
	for _, x := range e.cl.events[was:] {
		if x.topic == "unitdb/"+req {
			return x.payload, nil
		}
	}
	return "", fmt.Errorf("client %d: the request %s is not answered", e.slot, req)
}

// keygen asks the server for keys, which have to be those the topic and type stand for.
func (w *world) keygen(o EOp) error {
	e := w.conns[o.C]
	type rq struct {
		Topic string `json:"topic"`
		Type  string `json:"type"`
	}
	var l []rq
	for _, s := range o.Subs {
		l = append(l, rq{s.T, []string{"r", "w", "rw", "", "o", "a"}[s.Key%6]})
	}
	b, _ := json.Marshal(l)
	if len(o.Raw) > 0 {
		b = o.Raw
	}
	a, err := w.answer(e, "keygen", b)
	if err != nil {
		return err
	}
	if len(o.Raw) > 0 {
		return nil
	}
	var got []struct {
		Status     int
		Key, Topic string
	}
	if err := json.Unmarshal([]byte(a), &got); err != nil || len(got) != len(l) {
		return fmt.Errorf("the answer to %s is %s", b, a)
	}
	for i, r := range l {
		k, err := security.DecodeKey(got[i].Key)
		if err != nil || got[i].Status != 200 || got[i].Topic != r.Topic {
			return fmt.Errorf("the answer to %s is %s", b, a)
		}
		ct := contractOf(w.c.Slots[o.C].Contract)
		if ok, _ := k.ValidateTopic(ct, r.Topic); !ok {
			return fmt.Errorf("the key for %q is not valid for it", r.Topic)
		}
		rd := r.Type != "" && r.Type != "w"
		wr := r.Type != "" && r.Type != "r"
		if k.HasPermission(security.AllowRead) != rd || k.HasPermission(security.AllowWrite) != wr {
			return fmt.Errorf("the key for %q and type %q has permission to read %v and to write %v", r.Topic, r.Type, k.HasPermission(security.AllowRead), k.HasPermission(security.AllowWrite))
		}
		if x, err := security.GenerateKey(ct, r.Topic, k.Permissions()); err != nil || x != got[i].Key {
			return fmt.Errorf("the key for %q is %q, expected %q", r.Topic, got[i].Key, x)
		}
	}
	w.in.Hit("keys")
	return nil
}

// newid asks the server for an identity: with none, and as a primary or secondary client.
func (w *world) newid(o EOp) error {
	if o.N%2 == 0 {
		e := w.conns[o.C]
		a, err := w.answer(e, "clientid", nil)
		if err != nil {
			return err
		}
		var r struct {
			Status int
			Key    string
		}
		if err := json.Unmarshal([]byte(a), &r); err != nil {
			return err
		}
		if w.c.Slots[o.C].Sec {
			if r.Status != 403 || r.Key != "" {
				return fmt.Errorf("a secondary client asked for an identity and got %s", a)
			}
			return nil
		}
		id, err := uid.Decode([]byte(r.Key), w.mac)
		if r.Status != 200 || err != nil || id.IsPrimary() || id.Contract() != contractOf(w.c.Slots[o.C].Contract) {
			return fmt.Errorf("a primary client asked for an identity and got %s", a)
		}
		w.in.Hit("secondary")
		return w.tryID(r.Key, true)
	}
	// a client without a valid identity is refused and given a new one
	bad := []string{"", "x", strings.Repeat("Q", 52), w.id(o.C).Encode(w.mac)}[o.N/2%4]
	if o.N/2%4 == 3 {
		b := []byte(bad)
		p := o.N / 8 % len(b)
		if b[p] == 'A' {
			b[p] = 'B'
		} else {
			b[p] = 'A'
		}
		if _, err := uid.Decode(append([]byte(nil), b...), w.mac); err == nil {
			return nil // the bits beyond the identity
		}
		bad = string(b)
	}
	cl := dial(w.srv, true)
	defer cl.hang()
	cl.pack(&utp.Connect{Version: 1, ClientID: bad, SessKey: 77, InsecureFlag: true, BatchDuration: 100, BatchByteThreshold: 1000, BatchCountThreshold: 100})
	settle()
	cl.pack(&utp.Subscribe{MessageID: 1, Subscriptions: []*utp.Subscription{{Topic: "..."}}})
	settle()
	cl.mu.Lock()
	defer cl.mu.Unlock()
	if cl.connack != nil && cl.connack.ReturnCode == 0 {
		return fmt.Errorf("a client is accepted with the identity %q", bad)
	}
	if !cl.closed {
		return fmt.Errorf("a client with the identity %q stays connected", bad)
	}
	if len(cl.acks) > 0 {
		return fmt.Errorf("a refused client can subscribe")
	}
	w.in.Hit("refused identity")
	return nil
}

// tryID connects with an identity the server has given.
func (w *world) tryID(id string, ok bool) error {
	cl := dial(w.srv, true)
	defer cl.hang()
	w.fresh++
	cl.pack(&utp.Connect{Version: 1, ClientID: id, SessKey: w.fresh, BatchDuration: 100, BatchByteThreshold: 1000, BatchCountThreshold: 100})
	settle()
	cl.mu.Lock()
	defer cl.mu.Unlock()
	if ok != (cl.connack != nil && cl.connack.ReturnCode == 0 && !cl.closed) {
		return fmt.Errorf("the identity given is accepted: %v", !ok)
	}
	return nil
}

// restart stops the server and starts it again, on the files as they are while it runs if it crashed.
func (w *world) restart(o EOp) error {
	crash := o.N%2 == 1
	dir := w.dir
	if crash {
		time.Sleep(2 * time.Second)
		settle()
		w.dirs++
		dir = filepath.Join(w.in.Dir, fmt.Sprint("db", w.dirs))
		if err := vh.CopyTree(dir, w.dir); err != nil {
			return fmt.Errorf("copy: %v", err)
		}
	}
	for i := range w.conns {
		w.drop(i, o.N/2%2 == 1)
	}
	if err := w.end(); err != nil {
		return err
	}
	w.dir = dir
	w.inMsgs, w.inByte = 0, 0
	var err error
	if w.srv, err = serve(w.dir, w.c.Mem); err != nil {
		return err
	}
	settle()
	w.in.Hit("restarted")
	if crash {
		w.in.Hit("restarted after a crash")
	}
	return nil
}

// rogue is a client that does not behave.
func (w *world) rogue(o EOp) error {
	const slot = 1 << 10
	if len(w.rogues) > 6 {
		w.rogues[0].hang()
		w.rogues = w.rogues[1:]
	}
	w.in.Hit("rogue " + o.T)
	r := rand.New(rand.NewSource(int64(o.N)))
	if o.T == "idle" {
		return w.idle(slot, r)
	}
	if o.T == "garbage" || o.T == "early" {
		cl := dial(w.srv, r.Intn(2) == 0)
		w.rogues = append(w.rogues, cl)
		if o.T == "garbage" {
			cl.send(o.Raw)
		} else {
			cl.pack([]lp.MessagePack{
				&utp.Subscribe{MessageID: 1, Subscriptions: []*utp.Subscription{{Topic: "..."}}},
				&utp.Publish{MessageID: 1, Messages: []*utp.PublishMessage{{Topic: "a.b", Payload: []byte("x")}}},
				&utp.Publish{MessageID: 1, Messages: []*utp.PublishMessage{{Topic: "unitdb/keygen", Payload: []byte(`[{"topic":"a","type":"rw"}]`)}}},
				&utp.Relay{MessageID: 1, RelayRequests: []*utp.RelayRequest{{Topic: "a", Last: "1h"}}},
				&utp.Unsubscribe{MessageID: 1, Subscriptions: []*utp.Subscription{{Topic: "a"}}},
				&utp.Disconnect{}, &utp.Pingreq{},
				&utp.ControlMessage{MessageID: 1, MessageType: utp.PUBLISH, FlowControl: utp.RECEIVE},
			}[r.Intn(8)])
		}
		settle()
		cl.mu.Lock()
		defer cl.mu.Unlock()
		if o.T == "early" && (len(cl.events) > 0 || cl.acks[fmt.Sprint(utp.SUBSCRIBE, " 1")]+cl.acks[fmt.Sprint(utp.PUBLISH, " 1")]+cl.acks[fmt.Sprint(utp.RELAY, " 1")] > 0) {
			return errors.New("a client that has not connected is served")
		}
		return nil
	}
	w.fresh++
	cl, err := w.login(slot, w.fresh, r.Intn(2) == 0, r.Intn(2) == 0)
	if err != nil {
		return err
	}
	w.rogues = append(w.rogues, cl)
	junk := []string{"\xff\xfe", "", "...", "....", "*", "a..b", ".a", "a.", strings.Repeat("x.", 30) + "y", strings.Repeat("long", 5000), "unitdb/", "unitdb/nothing", "unitdb/keygen", "unitdb/clientid", "/", "//", "a/b/c", "?", "a?last=1h", "a?ttl=x", "\x00", "k\xffey/t", "a?last=-1h"}
	pick := func() string { return junk[r.Intn(len(junk))] }
	switch o.T {
	case "raw":
		cl.send(o.Raw)
	case "topics":
		for i := 1 + r.Intn(6); i > 0; i-- {
			p := Pkt{Kind: []string{"publish", "publish", "subscribe", "unsubscribe", "relay"}[r.Intn(5)], ID: uint16(i), Mode: uint8(r.Intn(5))}
			it := Item{Topic: pick(), Body: o.Raw, Mode: uint8(r.Intn(5)), Delay: int32(r.Intn(3) - 1)}
			it.Text = []string{"", "x", "-1h", "1s", "1h", "99999999h"}[r.Intn(6)]
			p.Item = []Item{it}
			cl.send(p.wire())
		}
	case "flow":
		for i := 1 + r.Intn(5); i > 0; i-- {
			cl.pack(&utp.ControlMessage{MessageID: uint16(r.Intn(4)), MessageType: utp.MessageType(r.Intn(12)), FlowControl: utp.FlowControl(r.Intn(9)), Message: o.Raw})
		}
	case "ask":
		// it asks the server itself for what makes no sense
		for i := 1 + r.Intn(5); i > 0; i-- {
			body := []string{"", "null", "[]", "{}", "[{}]", "[null]", "[[]]", "[1]", `"x"`, "1", `[{"topic":null}]`, `[{"topic":1}]`, `[{"topic":"","type":""}]`, `[{"topic":"a.b","type":"rwxyz"}]`, `[{"topic":"...","type":"rw"}]`, `[{"type":"rw"}]`,
				"[" + strings.Repeat(`{"topic":"a","type":"rw"},`, 50) + `{"topic":"b"}]`, strings.Repeat("[", 1+r.Intn(3000)), string(o.Raw), `{"clientid":1}`, "true"}[r.Intn(21)]
			cl.pack(&utp.Publish{MessageID: uint16(i), DeliveryMode: uint8(r.Intn(3)), Messages: []*utp.PublishMessage{{Topic: []string{"unitdb/keygen", "unitdb/keygen", "unitdb/clientid", "unitdb/varz", "unitdb/x", "unitdb/keygen/x", "unitdb"}[r.Intn(7)], Payload: []byte(body)}}})
		}
	case "again":
		cl.pack(&utp.Connect{Version: 1, ClientID: w.id(slot).Encode(w.mac), SessKey: 1})
	case "empty":
		cl.pack(&utp.Publish{MessageID: 1})
		cl.pack(&utp.Subscribe{MessageID: 2})
		cl.pack(&utp.Unsubscribe{MessageID: 3})
		cl.pack(&utp.Relay{MessageID: 4})
		cl.pack(&utp.Publish{MessageID: 5, Messages: []*utp.PublishMessage{{}}})
	case "half":
		b, _ := (&utp.Publish{MessageID: 1, Messages: []*utp.PublishMessage{{Topic: "a", Payload: make([]byte, 100)}}}).ToBinary()
		cl.send(b.Bytes()[:r.Intn(b.Len())])
	case "stuck":
		// it subscribes and no longer reads
		cl.pack(&utp.Subscribe{MessageID: 1, Subscriptions: []*utp.Subscription{{Topic: "...", DeliveryMode: uint8(r.Intn(3))}}})
		settle()
		w.fresh++
		p, err := w.login(slot, w.fresh, true, true)
		if err != nil {
			return err
		}
		stall := make(chan struct{})
		cl.mu.Lock()
		cl.stall = stall
		cl.mu.Unlock()
		for i := 0; i < 20; i++ {
			p.pack(&utp.Publish{MessageID: uint16(i), DeliveryMode: uint8(r.Intn(3)), Messages: []*utp.PublishMessage{{Topic: "x.y", Payload: make([]byte, 500)}}})
		}
		go func() {
			time.Sleep(time.Minute)
			p.hang()
			close(stall)
		}()
	case "quick":
		// it goes while it is served
		for i := 0; i < 5; i++ {
			p := Pkt{Kind: "subscribe", ID: uint16(i), Item: []Item{{Topic: pick(), Mode: uint8(r.Intn(3)), Delay: int32(r.Intn(2) * 50)}}}
			cl.send(p.wire())
			cl.pack(&utp.Publish{MessageID: uint16(i), DeliveryMode: uint8(r.Intn(3)), Messages: []*utp.PublishMessage{{Topic: "a.b", Payload: []byte("x")}}})
		}
		if r.Intn(2) == 0 {
			cl.pack(&utp.Disconnect{MessageID: 1})
		}
		cl.hang()
	}
	if r.Intn(3) == 0 {
		cl.hang()
	}
	return nil
}

// idle is a client that sends nothing more; it is disconnected, and when the other rogues are gone, too,
// nothing is left of them.
func (w *world) idle(slot int, r *rand.Rand) error {
	w.fresh++
	cl, err := w.login(slot, w.fresh, r.Intn(2) == 0, r.Intn(2) == 0)
	if err != nil {
		return err
	}
	if r.Intn(2) == 0 {
		cl.pack(&utp.Subscribe{MessageID: 1, Subscriptions: []*utp.Subscription{{Topic: "...", DeliveryMode: uint8(r.Intn(3))}}})
	}
	gone := r.Intn(2) == 0
	if gone {
		for _, x := range w.rogues {
			x.hang()
		}
		w.rogues = nil
	}
	w.rogues = append(w.rogues, cl)
	for i := 0; i < 5; i++ {
		for _, e := range w.conns {
			if e != nil {
				w.ping(e)
			}
		}
		time.Sleep(30 * time.Second)
	}
	settle()
	cl.mu.Lock()
	closed := cl.closed
	cl.mu.Unlock()
	if !closed {
		return errors.New("a client that sent nothing for 150 s is still connected")
	}
	if !gone {
		return nil
	}
	v, err := w.srv.varz()
	if err != nil {
		return err
	}
	var conns, subs int64
	for _, e := range w.conns {
		if e != nil {
			conns++
			subs += int64(len(e.subs))
		}
	}
	w.in.Hit("rogues gone")
	if v.Connections != conns || v.Subscriptions != subs {
		return fmt.Errorf("the server counts %d connections and %d subscriptions, there are %d and %d", v.Connections, v.Subscriptions, conns, subs)
	}
	return nil
}

func shrinkWorld(c ECase) (out []ECase) {
	for _, o := range vh.Chunks(c.Ops) {
		d := c
		d.Ops = o
		out = append(out, d)
	}
	for i, o := range c.Ops {
		set := func(n EOp) {
			d := c
			d.Ops = append([]EOp(nil), c.Ops...)
			d.Ops[i] = n
			out = append(out, d)
		}
		for _, p := range vh.Chunks(o.Par) {
			n := o
			n.Par = p
			set(n)
		}
		if len(o.Par) == 1 {
			set(o.Par[0])
		}
		if len(o.Subs) > 1 {
			for _, p := range vh.Chunks(o.Subs) {
				n := o
				n.Subs = p
				set(n)
			}
		}
		if len(o.Msgs) > 1 {
			for _, p := range vh.Chunks(o.Msgs) {
				n := o
				n.Msgs = p
				set(n)
			}
		}
		for k, m := range o.Msgs {
			if m.Fill > 0 {
				n := o
				n.Msgs = append([]EMsg(nil), o.Msgs...)
				n.Msgs[k].Fill = m.Fill / 2
				set(n)
			}
		}
		if o.K == "sleep" && o.N > 1 {
			n := o
			n.N /= 2
			set(n)
		}
	}
	return
}
