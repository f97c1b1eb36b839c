//go:build go1.25

package srv

import (
	"bytes"
	"fmt"
	"math/rand"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/rs/zerolog"
	_ "github.com/unit-io/unitdb/server/internal/db/unitdb"
	lp "github.com/unit-io/unitdb/server/internal/net"
	"github.com/unit-io/unitdb/server/internal/pkg/log"
	"github.com/unit-io/unitdb/server/internal/store"
	"github.com/unit-io/unitdb/server/utp"
	"github.com/unit-io/unitdb/server/zzverif/vh"
)

func init() {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	_ = log.ErrLogger
}

// QCase is a history of the message log of the server.
type QCase struct {
	Mem  int      `json:"mem"` // buffer of the in-memory store
	Sess []uint32 `json:"sess"`
	Ops  []QOp    `json:"ops"`
}

// QOp is one call.
type QOp struct {
	K string `json:"k"`
	S int    `json:"s,omitempty"` // session
	M uint16 `json:"m,omitempty"` // message identifier
	P *Pkt   `json:"p,omitempty"`
	N int    `json:"n,omitempty"`
}

func pick(r *rand.Rand, w map[string]int) string {
	var ks []string
	t := 0
	for k, n := range w {
		ks = append(ks, k)
		t += n
	}
	sort.Strings(ks)
	x := r.Intn(t)
	for _, k := range ks {
		if x < w[k] {
			return k
		}
		x -= w[k]
	}
	return ks[0]
}

func genLog(r *rand.Rand, tier string, n int) QCase {
	c := QCase{Mem: 1 << uint(12+r.Intn(10))}
	if r.Intn(3) == 0 {
		c.Mem = 0
	}
	for len(c.Sess) < 3 {
		s := r.Uint32()
		if r.Intn(3) == 0 {
			s = uint32(r.Intn(5))
		}
		if len(c.Sess) > 0 && r.Intn(3) == 0 {
			s = c.Sess[r.Intn(len(c.Sess))] ^ 1<<uint(r.Intn(32))
		}
		dup := false
		for _, x := range c.Sess {
			dup = dup || x == s
		}
		if !dup {
			c.Sess = append(c.Sess, s)
		}
	}
	w := map[string]int{"out": 10, "complete": 4, "in": 3, "get": 4, "keys": 3, "del": 2, "reset": 1, "sleep": 3, "reopen": 2, "wipe": 1, "other": 2, "session": 3, "getsession": 3}
	max := 30
	if tier == "thorough" {
		max = 80
	}
	for i := 1 + r.Intn(max); i > 0; i-- {
		o := QOp{K: pick(r, w), S: r.Intn(3), M: uint16(r.Intn(6)), N: r.Intn(1 << uint(r.Intn(15)))}
		if r.Intn(6) == 0 {
			o.M = uint16(65535 - r.Intn(3))
		}
		if r.Intn(6) == 0 {
			o.M = 1 << uint(r.Intn(16))
		}
		if o.K == "out" || o.K == "other" {
			p := Pkt{Kind: "publish", ID: o.M, Mode: uint8(r.Intn(3))}
			if o.K == "other" { // nothing to keep
				for {
					p = genPkt(r)
					if p.Kind != "publish" && !(p.Kind == "control" && (p.Flow == uint8(utp.COMPLETE) || p.Flow == uint8(utp.RECEIPT))) {
						break
					}
				}
			} else {
				for k := r.Intn(4); k > 0; k-- {
					p.Item = append(p.Item, Item{Topic: word(r), Text: word(r), Body: blob(r), Fill: []int{0, 0, 0, r.Intn(9000)}[r.Intn(4)]})
				}
			}
			o.P = &p
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func storeConfig(mem int) string {
	return fmt.Sprintf(`{"reset":false,"adapters":{"unitdb":{"mem_size":%d}}}`, mem)
}

func runLog(in *vh.Info, c QCase) (err error) {
	dir := filepath.Join(in.Dir, "db")
	cfg := storeConfig(c.Mem)
	if err := store.Open(dir, cfg, false); err != nil {
		return fmt.Errorf("open: %v", err)
	}
	defer func() {
		if e := store.Close(); e != nil && err == nil {
			err = fmt.Errorf("close: %v", e)
		}
	}()
	type key struct {
		s int
		m uint16
	}
	log := map[key]lp.MessagePack{}
	sess := map[int][]byte{}
	raw := func(k key) uint64 { return uint64(k.m)<<32 + uint64(c.Sess[k.s]) }
	// the sessions have keys of their own
	skey := func(i int) uint64 { return uint64(i+1)<<32 | uint64(uint32(0xABCD0000)) }
	for _, s := range c.Sess {
		if s == 0xABCD0000 {
			return nil
		}
	}
	check := func(i int, k key) error {
		got := store.Log.Get(raw(k))
		want, ok := log[k]
		if !ok {
			if got != nil {
				return fmt.Errorf("op %d: message %d of session %d is there: %s", i, k.m, k.s, short(got))
			}
			return nil
		}
		if got == nil {
			return fmt.Errorf("op %d: message %d of session %d is missing, it was kept as %s", i, k.m, k.s, short(want))
		}
		if !reflect.DeepEqual(norm(got), want) {
			return fmt.Errorf("op %d: message %d of session %d is %s, it was kept as %s", i, k.m, k.s, short(got), short(want))
		}
		return nil
	}
	keys := func(i, s int) error {
		var want []uint64
		for k := range log {
			if k.s == s {
				want = append(want, raw(k))
			}
		}
		got := store.Log.Keys(c.Sess[s])
		sort.Slice(want, func(a, b int) bool { return want[a] < want[b] })
		sort.Slice(got, func(a, b int) bool { return got[a] < got[b] })
		if len(got) != len(want) {
			return fmt.Errorf("op %d: %d messages are listed for session %d, there are %d", i, len(got), s, len(want))
		}
		for n := range got {
			if got[n] != want[n] {
				return fmt.Errorf("op %d: message %x is listed for session %d, expected %x", i, got[n], s, want[n])
			}
		}
		return nil
	}
	all := func(i int) error {
		for s := range c.Sess {
			if err := keys(i, s); err != nil {
				return err
			}
		}
		for k := range log {
			if err := check(i, k); err != nil {
				return err
			}
		}
		for k, v := range sess {
			got, err := store.Session.Get(skey(k))
			if err != nil || !bytes.Equal(got, v) {
				return fmt.Errorf("op %d: session %d is %x (%v), it was stored as %x", i, k, got, err, v)
			}
		}
		return nil
	}
	for i, o := range c.Ops {
		time.Sleep(137 * time.Microsecond)
		k := key{o.S, o.M}
		switch o.K {
		case "out":
			store.Log.PersistOutbound(c.Sess[o.S], o.P.pack())
			log[k] = norm(o.P.pack())
			in.Hit("kept")
		case "other":
			store.Log.PersistOutbound(c.Sess[o.S], o.P.pack())
			store.Log.PersistInbound(c.Sess[o.S], o.P.pack())
		case "complete":
			store.Log.PersistOutbound(c.Sess[o.S], &utp.ControlMessage{MessageID: o.M, MessageType: utp.PUBLISH, FlowControl: utp.COMPLETE})
			if _, ok := log[k]; ok {
				in.Hit("completed")
			}
			delete(log, k)
		case "in":
			m := &utp.ControlMessage{MessageID: o.M, MessageType: utp.PUBLISH, FlowControl: utp.RECEIPT}
			store.Log.PersistInbound(c.Sess[o.S], m)
			log[k] = norm(m)
		case "get":
			if err := check(i, k); err != nil {
				return err
			}
		case "keys":
			if err := keys(i, o.S); err != nil {
				return err
			}
		case "del":
			store.Log.Delete(raw(k))
			delete(log, k)
		case "reset":
			store.Log.Reset(c.Sess[o.S])
			for k := range log {
				if k.s == o.S {
					delete(log, k)
					in.Hit("reset one")
				}
			}
			if err := all(i); err != nil {
				return err
			}
		case "session":
			b := []byte(fmt.Sprint("session", i, o.N))
			if err := store.Session.Put(skey(o.S), b); err != nil {
				return fmt.Errorf("op %d: %v", i, err)
			}
			sess[o.S] = b
		case "getsession":
			got, err := store.Session.Get(skey(o.S))
			if want, ok := sess[o.S]; ok && (err != nil || !bytes.Equal(got, want)) {
				return fmt.Errorf("op %d: session %d is %x (%v), it was stored as %x", i, o.S, got, err, want)
			} else if !ok && err == nil && len(got) > 0 {
				return fmt.Errorf("op %d: session %d is %x, it was never stored", i, o.S, got)
			}
		case "sleep":
			time.Sleep(time.Duration(o.N) * time.Millisecond)
		case "reopen", "wipe":
			if err := store.Close(); err != nil {
				return fmt.Errorf("op %d: close: %v", i, err)
			}
			if err := store.Open(dir, cfg, o.K == "wipe"); err != nil {
				return fmt.Errorf("op %d: open: %v", i, err)
			}
			if o.K == "wipe" {
				log = map[key]lp.MessagePack{}
				sess = map[int][]byte{}
			} else if len(log) > 0 {
				in.Hit("reopened with messages")
			}
			if err := all(i); err != nil {
				return err
			}
		}
	}
	if err := all(len(c.Ops)); err != nil {
		return err
	}
	if in.Seen("kept") > 1 && in.Seen("completed")+in.Seen("reopened with messages")+in.Seen("reset one") > 0 {
		in.NonTrivial()
	}
	return nil
}

func shrinkLog(c QCase) (out []QCase) {
	for _, o := range vh.Chunks(c.Ops) {
		d := c
		d.Ops = o
		out = append(out, d)
	}
	for i, o := range c.Ops {
		if o.K == "sleep" && o.N > 1 || o.P != nil && len(o.P.Item) > 0 {
			d := c
			d.Ops = append([]QOp(nil), c.Ops...)
			if o.K == "sleep" {
				d.Ops[i].N = o.N / 2
			} else {
				p := *o.P
				p.Item = p.Item[:len(p.Item)/2]
				d.Ops[i].P = &p
			}
			out = append(out, d)
		}
	}
	return
}

// DCase is a history of messages and subscriptions in the store of the server.
type DCase struct {
	Mem       int      `json:"mem"`
	Contracts []uint32 `json:"contracts"`
	Topics    []string `json:"topics"`
	Ops       []DOp    `json:"ops"`
}

// DOp is one call.
type DOp struct {
	K string `json:"k"`
	C int    `json:"c,omitempty"`
	T int    `json:"t,omitempty"`
	N int    `json:"n,omitempty"`
	L string `json:"l,omitempty"` // time to live or duration
}

func genData(r *rand.Rand, tier string, n int) DCase {
	c := DCase{Mem: 1 << uint(12+r.Intn(10))}
	for i := 0; i < 2; i++ {
		c.Contracts = append(c.Contracts, 1+uint32(r.Int63n(1<<32-1)))
	}
	if x := c.Contracts[0] ^ 1<<uint(r.Intn(32)); r.Intn(2) == 0 && x != 0 {
		c.Contracts[1] = x
	}
	if c.Contracts[0] == c.Contracts[1] {
		c.Contracts[1] ^= 2
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		c.Topics = append(c.Topics, plainTopic(r))
	}
	// patterns of subscriptions
	for i := 1 + r.Intn(3); i > 0; i-- {
		c.Topics = append(c.Topics, pattern(r, c.Topics[r.Intn(len(c.Topics))]))
	}
	w := map[string]int{"put": 8, "get": 6, "sub": 6, "unsub": 4, "subs": 6, "sleep": 4, "reopen": 1}
	max := 30
	if tier == "thorough" {
		max = 70
	}
	for i := 1 + r.Intn(max); i > 0; i-- {
		o := DOp{K: pick(r, w), C: r.Intn(2), T: r.Intn(len(c.Topics)), N: r.Intn(1 << uint(r.Intn(14)))}
		switch o.K {
		case "put":
			if r.Intn(4) == 0 {
				o.L = []string{"1m", "30", "2h", "5s"}[r.Intn(4)]
			}
		case "get":
			o.L = []string{"", "1h", "24h", "10s", "2m"}[r.Intn(5)]
		case "sleep":
			if r.Intn(5) == 0 {
				o.N *= 20
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

var names = []string{"a", "b", "ab", "ba", "unit8", "ch1"}

func plainTopic(r *rand.Rand) string {
	var s []string
	for i := 1 + r.Intn(4); i > 0; i-- {
		s = append(s, names[r.Intn(len(names))])
	}
	return strings.Join(s, ".")
}

// pattern replaces parts of a topic by wildcards.
func pattern(r *rand.Rand, t string) string {
	if r.Intn(3) == 0 {
		return t
	}
	if strings.HasSuffix(t, "...") {
		return t
	}
	s := strings.Split(t, ".")
	for i := range s {
		if r.Intn(3) == 0 {
			s[i] = "*"
		}
	}
	if r.Intn(3) == 0 {
		s = s[:r.Intn(len(s))]
		return strings.Join(s, ".") + "..."
	}
	return strings.Join(s, ".")
}

// glob tells whether a topic is covered by a pattern: '*' stands for one part, a
// trailing '...' for one or more.
func glob(p, q string) bool {
	multi := strings.HasSuffix(p, "...")
	p = strings.TrimSuffix(p, "...")
	var ps []string
	if p != "" {
		ps = strings.Split(p, ".")
	}
	qs := strings.Split(q, ".")
	if multi {
		if len(qs) <= len(ps) {
			return false
		}
		qs = qs[:len(ps)]
	}
	if len(ps) != len(qs) {
		return false
	}
	for i := range ps {
		if ps[i] != "*" && ps[i] != qs[i] {
			return false
		}
	}
	return true
}

type stored struct {
	c, t    int
	payload []byte
	at      time.Time
	expires int64
	id      []byte
	pattern string
}

func body(i, n int) []byte {
	b := bytes.Repeat([]byte{byte(i)}, n)
	return append([]byte(fmt.Sprintf("<%d>", i)), b...)
}

func runData(in *vh.Info, c DCase) (err error) {
	dir := filepath.Join(in.Dir, "db")
	cfg := storeConfig(c.Mem)
	if err := store.Open(dir, cfg, false); err != nil {
		return fmt.Errorf("open: %v", err)
	}
	defer func() {
		if e := store.Close(); e != nil && err == nil {
			err = fmt.Errorf("close: %v", e)
		}
	}()
	var msgs []stored
	var subs []stored
	plain := 0
	for plain < len(c.Topics) && !strings.ContainsAny(c.Topics[plain], "*") && !strings.HasSuffix(c.Topics[plain], "...") {
		plain++
	}
	if plain == 0 {
		return nil
	}
	get := func(i, ct, t int, last string) error {
		now := time.Now()
		topic := c.Topics[t%plain]
		var want [][]byte
		for k := len(msgs) - 1; k >= 0; k-- {
			m := msgs[k]
			if m.c != ct || c.Topics[m.t%plain] != topic || m.expires != 0 && m.expires <= now.Unix() {
				continue
			}
			if last != "" {
				d, _ := time.ParseDuration(last)
				if m.at.Unix() < now.Add(-d).Unix() {
					in.Hit("older")
					continue
				}
			}
			want = append(want, m.payload)
		}
		got, err := store.Message.Get(c.Contracts[ct], topic, last)
		if err != nil {
			return fmt.Errorf("op %d: messages of %q: %v", i, topic, err)
		}
		if len(got) != len(want) {
			return fmt.Errorf("op %d: %d messages of %q (last %q) are returned, there are %d", i, len(got), topic, last, len(want))
		}
		for k, m := range got {
			if !bytes.Equal(m.Payload, want[k]) {
				return fmt.Errorf("op %d: message %d of %q is %.20q, expected %.20q", i, k, topic, m.Payload, want[k])
			}
			if m.Topic != topic {
				return fmt.Errorf("op %d: a message of %q has topic %q", i, topic, m.Topic)
			}
		}
		if len(want) > 0 {
			in.Hit("messages")
		}
		return nil
	}
	listSubs := func(i, ct, t int) error {
		topic := c.Topics[t%plain]
		var want, have []string
		for _, s := range subs {
			if s.c == ct && glob(s.pattern, topic) {
				want = append(want, string(s.payload))
			}
		}
		got, err := store.Subscription.Get(c.Contracts[ct], topic)
		if err != nil {
			return fmt.Errorf("op %d: subscriptions of %q: %v", i, topic, err)
		}
		for _, g := range got {
			have = append(have, string(g))
		}
		sort.Strings(want)
		sort.Strings(have)
		if !reflect.DeepEqual(want, have) {
			return fmt.Errorf("op %d: the subscriptions of %q are %.100q, expected %.100q", i, topic, have, want)
		}
		if len(want) > 0 {
			in.Hit("subscriptions")
		}
		return nil
	}
	for i, o := range c.Ops {
		time.Sleep(137 * time.Microsecond)
		switch o.K {
		case "put":
			m := stored{c: o.C, t: o.T, payload: body(i, o.N), at: time.Now()}
			if o.L != "" {
				d, err := time.ParseDuration(o.L)
				if err != nil {
					d, _ = time.ParseDuration(o.L + "s")
				}
				m.expires = m.at.Add(d).Unix()
			}
			if err := store.Message.Put(c.Contracts[o.C], c.Topics[o.T%plain], append([]byte(nil), m.payload...), o.L); err != nil {
				return fmt.Errorf("op %d: put: %v", i, err)
			}
			msgs = append(msgs, m)
		case "get":
			if err := get(i, o.C, o.T, o.L); err != nil {
				return err
			}
		case "sub":
			id, err := store.Subscription.NewID()
			if err != nil {
				return fmt.Errorf("op %d: no identifier: %v", i, err)
			}
			s := stored{c: o.C, pattern: c.Topics[o.T], payload: []byte(fmt.Sprint("sub", i)), id: id}
			if err := store.Subscription.Put(c.Contracts[o.C], id, s.pattern, append([]byte(nil), s.payload...)); err != nil {
				return fmt.Errorf("op %d: subscription to %q: %v", i, s.pattern, err)
			}
			subs = append(subs, s)
		case "unsub":
			if len(subs) == 0 {
				continue
			}
			n := o.N % len(subs)
			s := subs[n]
			if err := store.Subscription.Delete(c.Contracts[s.c], s.id, s.pattern); err != nil {
				return fmt.Errorf("op %d: end of the subscription to %q: %v", i, s.pattern, err)
			}
			subs = append(subs[:n:n], subs[n+1:]...)
			in.Hit("unsubscribed")
		case "subs":
			if err := listSubs(i, o.C, o.T); err != nil {
				return err
			}
		case "sleep":
			time.Sleep(time.Duration(o.N) * time.Millisecond)
		case "reopen":
			if err := store.Close(); err != nil {
				return fmt.Errorf("op %d: close: %v", i, err)
			}
			if store.IsOpen() {
				return fmt.Errorf("op %d: a closed store says it is open", i)
			}
			if err := store.Open(dir, cfg, false); err != nil {
				return fmt.Errorf("op %d: open: %v", i, err)
			}
			in.Hit("reopened")
		}
	}
	for ct := range c.Contracts {
		for t := 0; t < plain; t++ {
			if err := get(len(c.Ops), ct, t, ""); err != nil {
				return err
			}
			if err := listSubs(len(c.Ops), ct, t); err != nil {
				return err
			}
		}
	}
	if in.Seen("messages") > 0 && in.Seen("subscriptions") > 0 {
		in.NonTrivial()
	}
	return nil
}

func shrinkData(c DCase) (out []DCase) {
	for _, o := range vh.Chunks(c.Ops) {
		d := c
		d.Ops = o
		out = append(out, d)
	}
	for i, o := range c.Ops {
		if o.N > 1 && o.K != "unsub" {
			d := c
			d.Ops = append([]DOp(nil), c.Ops...)
			d.Ops[i].N = o.N / 2
			out = append(out, d)
		}
	}
	return
}
