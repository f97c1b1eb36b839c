//go:build go1.25

package srv

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/unit-io/unitdb/server/internal/message"
	"github.com/unit-io/unitdb/server/internal/message/security"
	"github.com/unit-io/unitdb/server/internal/pkg/crypto"
	"github.com/unit-io/unitdb/server/internal/pkg/hash"
	"github.com/unit-io/unitdb/server/internal/pkg/uid"
	"github.com/unit-io/unitdb/server/utp"
	"github.com/unit-io/unitdb/server/zzverif/vh"
)

// bounded runs f and fails if it panics or does not return.
func bounded(f func() error) error {
	ch := make(chan error, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				ch <- fmt.Errorf("panic: %v", p)
			}
		}()
		ch <- f()
	}()
	select {
	case err := <-ch:
		return err
	case <-time.After(30 * time.Second):
		return errors.New("the call does not return")
	}
}

// KCase is a key for a topic and other topics it must not open.
type KCase struct {
	Contract uint32   `json:"contract"`
	Topic    string   `json:"topic"`
	Perm     uint32   `json:"perm"`
	Others   []string `json:"others"`
	Raw      string   `json:"raw"` // a request text of any shape
	Opt      string   `json:"opt"`
}

var parts = []string{"a", "b", "ab", "ba", "unit8", "ch1", "*", "...", "b*", "x...", "1", "é", "-", "_x"}

func genTopicText(r *rand.Rand) string {
	n := 1 + r.Intn(4)
	if r.Intn(12) == 0 {
		n = 20 + r.Intn(6)
	}
	var s []string
	for i := 0; i < n; i++ {
		s = append(s, parts[r.Intn(len(parts))])
	}
	return strings.Join(s, ".")
}

func genKey(r *rand.Rand, tier string, n int) KCase {
	c := KCase{Contract: r.Uint32(), Topic: genTopicText(r), Perm: uint32(r.Intn(256))}
	if r.Intn(10) == 0 {
		c.Topic = "..."
	}
	if r.Intn(20) == 0 {
		c.Contract = uint32(r.Intn(3))
	}
	for i := 3; i > 0; i-- {
		o := genTopicText(r)
		b := []byte(c.Topic)
		switch r.Intn(5) {
		case 0:
			if len(b) > 1 {
				i := r.Intn(len(b) - 1)
				b[i], b[i+1] = b[i+1], b[i]
			}
			o = string(b)
		case 1:
			b[r.Intn(len(b))]++
			o = string(b)
		case 2:
			o = c.Topic + "." + parts[r.Intn(len(parts))]
		}
		c.Others = append(c.Others, o)
	}
	c.Opt = []string{"", "?last=1h", "?ttl=3m&last=1h", "?"}[r.Intn(4)]
	alpha := "//..??*aA&=1é\x00"
	var raw []byte
	for i := r.Intn(12); i > 0; i-- {
		raw = append(raw, alpha[r.Intn(len(alpha))])
	}
	c.Raw = string(raw)
	return c
}

func depth(topic string) int {
	return len(strings.FieldsFunc(topic, func(c rune) bool { return c == '.' }))
}

// wild tells whether a topic has wildcard parts.
func wild(topic string) bool {
	for _, p := range strings.FieldsFunc(topic, func(c rune) bool { return c == '.' }) {
		if strings.HasSuffix(p, "*") {
			return true
		}
	}
	return strings.HasSuffix(topic, "...")
}

func runKey(in *vh.Info, c KCase) error {
	text, err := security.GenerateKey(c.Contract, c.Topic, c.Perm)
	if d := depth(c.Topic); d > 23 {
		if err == nil {
			return fmt.Errorf("a key for a topic with %d parts is given", d)
		}
		in.Hit("too many parts")
		return nil
	}
	if err != nil {
		return fmt.Errorf("no key for topic %q: %v", c.Topic, err)
	}
	if len(text) != 13 || strings.ContainsAny(text, "/?.") {
		return fmt.Errorf("key %q for topic %q cannot stand in front of a topic", text, c.Topic)
	}
	if again, _ := security.GenerateKey(c.Contract, c.Topic, c.Perm); again != text {
		return fmt.Errorf("topic %q has the keys %q and %q", c.Topic, text, again)
	}
	k, err := security.DecodeKey(text)
	if err != nil {
		return fmt.Errorf("key %q of topic %q is not decoded: %v", text, c.Topic, err)
	}
	if k.Permissions() != c.Perm {
		return fmt.Errorf("a key with permissions %x has permissions %x", c.Perm, k.Permissions())
	}
	for b := uint32(0); b < 8; b++ {
		for _, f := range []uint32{1 << b, security.AllowReadWrite, 1<<b | security.AllowRead} {
			if k.HasPermission(f) != (c.Perm&f == f) {
				return fmt.Errorf("a key with permissions %x: permission %x is %v", c.Perm, f, k.HasPermission(f))
			}
		}
	}
	ok, w := k.ValidateTopic(c.Contract, c.Topic)
	if !ok {
		return fmt.Errorf("the key for topic %q is not valid for it", c.Topic)
	}
	if w != wild(c.Topic) {
		return fmt.Errorf("the key for topic %q: wildcard %v", c.Topic, w)
	}
	if w {
		in.Hit("wildcard")
	}
	for _, o := range c.Others {
		if o == c.Topic || o == "" {
			continue
		}
		ok, _ := k.ValidateTopic(c.Contract, o)
		if c.Topic == "..." {
			in.Hit("key for all topics")
			if !ok {
				return fmt.Errorf("the key for all topics is not valid for %q", o)
			}
			continue
		}
		in.NonTrivial()
		if ok {
			// two topics can have the same 32 bit hash: believe it if they have it for every contract
			n := 0
			for i := uint32(1); i <= 5; i++ {
				t, _ := security.GenerateKey(c.Contract+i, c.Topic, c.Perm)
				k2, _ := security.DecodeKey(t)
				if ok, _ := k2.ValidateTopic(c.Contract+i, o); ok {
					n++
				}
			}
			if n >= 4 {
				return fmt.Errorf("the key for topic %q is valid for topic %q", c.Topic, o)
			}
		}
	}
	// in front of a topic
	t := security.ParseKey(text + "/" + c.Topic + c.Opt)
	if t.TopicType == security.TopicInvalid || t.Key != text || t.Topic[:t.Size] != c.Topic || t.Topic != c.Topic+c.Opt {
		return fmt.Errorf("%q is parsed as %+v", text+"/"+c.Topic+c.Opt, *t)
	}
	t = security.ParseKey(c.Topic + c.Opt)
	if t.TopicType == security.TopicInvalid || t.Key != "" || t.Topic[:t.Size] != c.Topic {
		return fmt.Errorf("%q is parsed as %+v", c.Topic+c.Opt, *t)
	}
	// any text
	return bounded(func() error {
		t := security.ParseKey(c.Raw)
		if t.Size > len(t.Topic) || t.Size < 0 {
			return fmt.Errorf("%q is parsed as %+v", c.Raw, *t)
		}
		t.Target()
		if k, err := security.DecodeKey(c.Raw); err == nil {
			k.ValidateTopic(c.Contract, c.Topic)
			k.HasPermission(1)
		}
		b := []byte(c.Raw + "0123456789abc")[:13]
		if k, err := security.DecodeKey(string(b)); err == nil {
			k.ValidateTopic(c.Contract, c.Topic)
		}
		return nil
	})
}

// ICase is a client identity.
type ICase struct {
	Key    []byte `json:"key"`
	Other  []byte `json:"other"`
	Master uint16 `json:"master"`
	Second bool   `json:"second"`
	Bit    int    `json:"bit"`
	Seed   int64  `json:"seed"`
}

func genID(r *rand.Rand, tier string, n int) ICase {
	c := ICase{Key: make([]byte, 32), Other: make([]byte, 32), Master: uint16(1 + r.Intn(65535)), Second: r.Intn(2) == 0, Bit: r.Intn(52 * 8), Seed: r.Int63()}
	r.Read(c.Key)
	r.Read(c.Other)
	return c
}

func runID(in *vh.Info, c ICase) error {
	mac, err := crypto.New(c.Key)
	if err != nil {
		return err
	}
	other, err := crypto.New(c.Other)
	if err != nil {
		return err
	}
	id, err := uid.NewClientID(c.Master)
	if err != nil {
		return err
	}
	if !id.IsPrimary() || id.Primary() != c.Master {
		return fmt.Errorf("a new identity of %d: primary %v of %d", c.Master, id.IsPrimary(), id.Primary())
	}
	if c.Second {
		in.NonTrivial()
		first := append(uid.ID(nil), id...)
		s, err := uid.NewSecondaryClientID(id)
		if err != nil {
			return err
		}
		if !bytes.Equal(first, id) {
			return errors.New("making a secondary identity changed the primary one")
		}
		if s.IsPrimary() || s.Contract() != id.Contract() {
			return fmt.Errorf("a secondary identity is primary (%v) or has the contract %d, not %d", s.IsPrimary(), s.Contract(), id.Contract())
		}
		id = s
	}
	fields := func(i uid.ID) string {
		return fmt.Sprint(i.Epoch(), i.Primary(), i.Permissions(), i.Contract())
	}
	before := fields(id)
	text := id.Encode(mac)
	if fields(id) != before {
		return errors.New("writing an identity changed it")
	}
	if len(text) != 52 {
		return fmt.Errorf("identity %q has %d characters", text, len(text))
	}
	for i := 0; i < 2; i++ {
		back, err := uid.Decode([]byte(text), mac)
		if err != nil {
			return fmt.Errorf("identity %q is not read: %v", text, err)
		}
		if fields(back) != before || !bytes.Equal(back, id) {
			return fmt.Errorf("identity %s is read as %s", before, fields(back))
		}
	}
	if text2 := id.Encode(mac); text2 == text {
		in.Hit("same text twice")
	}
	if x, err := uid.Decode([]byte(text), other); err == nil && fields(x) == before {
		return errors.New("an identity is accepted under another key")
	} else if err == nil {
		return fmt.Errorf("a text of another server is read as %s", fields(x))
	}
	// a changed text is refused, or it is another spelling of the same identity
	b := []byte(text)
	b[c.Bit/8] ^= 1 << uint(c.Bit%8)
	return bounded(func() error {
		if x, err := uid.Decode(b, mac); err == nil && fields(x) != before {
			return fmt.Errorf("a forged text is read as %s instead of %s", fields(x), before)
		} else if err == nil {
			in.Hit("another spelling")
		}
		r := rand.New(rand.NewSource(c.Seed))
		junk := make([]byte, r.Intn(60))
		r.Read(junk)
		if x, err := uid.Decode(junk, mac); err == nil {
			return fmt.Errorf("%d random bytes are read as %s", len(junk), fields(x))
		}
		return nil
	})
}

// NCase is a history of message identifiers.
type NCase struct {
	Ops []int `json:"ops"` // 0 next, >0 resume, <0 free
	Par int   `json:"par"` // goroutines asking at the end
}

func genMids(r *rand.Rand, tier string, n int) NCase {
	c := NCase{Par: r.Intn(4)}
	next := 1
	for i := 1 + r.Intn(60); i > 0; i-- {
		switch r.Intn(4) {
		case 0:
			c.Ops = append(c.Ops, next+r.Intn(6))
			if r.Intn(3) == 0 {
				for k := r.Intn(10); k > 0; k-- {
					c.Ops = append(c.Ops, next+k)
				}
			}
		case 1:
			c.Ops = append(c.Ops, -(1 + r.Intn(next+3)))
		default:
			c.Ops = append(c.Ops, 0)
			next++
		}
	}
	return c
}

func runMids(in *vh.Info, c NCase) error {
	m := message.NewMessageIds()
	used := map[message.MID]bool{}
	types := map[message.MID]utp.MessageType{}
	resumed := map[message.MID]bool{}
	last := message.MID(0)
	return bounded(func() error {
		for i, op := range c.Ops {
			switch {
			case op > 0:
				m.ResumeID(message.MID(op))
				resumed[message.MID(op)] = true
				in.Hit("resume")
			case op < 0:
				m.FreeID(message.MID(-op))
				delete(types, message.MID(-op))
			default:
				typ := utp.MessageType(1 + i%8)
				id := m.NextID(typ)
				if used[id] {
					return fmt.Errorf("op %d: identifier %d is given twice", i, id)
				}
				if resumed[id] {
					return fmt.Errorf("op %d: identifier %d is given, which belongs to a resumed message", i, id)
				}
				if id <= last {
					return fmt.Errorf("op %d: identifier %d follows %d", i, id, last)
				}
				if id != last+1 {
					in.NonTrivial()
				}
				for k := last + 1; k < id; k++ {
					if !resumed[k] {
						return fmt.Errorf("op %d: identifier %d follows %d, and %d was free", i, id, last, k)
					}
				}
				last = id
				used[id] = true
				types[id] = typ
			}
			for id := message.MID(0); id <= last+3; id++ {
				if g := m.GetType(id); g != types[id] {
					return fmt.Errorf("op %d: identifier %d has type %d, not %d", i, id, g, types[id])
				}
			}
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		var bad error
		for g := 0; g < c.Par; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 20; i++ {
					id := m.NextID(utp.PUBLISH)
					mu.Lock()
					if used[id] || resumed[id] {
						bad = fmt.Errorf("identifier %d is given twice to concurrent callers", id)
					}
					used[id] = true
					mu.Unlock()
					m.GetType(id)
					m.FreeID(id)
				}
			}()
		}
		wg.Wait()
		return bad
	})
}

// TCase is a history of the subscriptions of a connection.
type TCase struct {
	Ops []TOp `json:"ops"`
}

// TOp subscribes (Inc) or unsubscribes a topic.
type TOp struct {
	Inc bool `json:"inc"`
	Key int  `json:"key"`
}

func genStats(r *rand.Rand, tier string, n int) (c TCase) {
	for i := 1 + r.Intn(60); i > 0; i-- {
		c.Ops = append(c.Ops, TOp{r.Intn(5) < 3, r.Intn(5)})
	}
	return
}

func runStats(in *vh.Info, c TCase) error {
	s := message.NewStats()
	type e struct {
		n  int
		id string
	}
	want := map[int]*e{}
	for i, op := range c.Ops {
		key := fmt.Sprint("key", op.Key)
		topic := fmt.Sprint("topic", op.Key)
		id := fmt.Sprint("id", i)
		w := want[op.Key]
		if op.Inc {
			first := s.Increment(topic, key, []byte(id))
			if first != (w == nil) {
				return fmt.Errorf("op %d: a subscription is the first: %v, subscribed before: %v", i, first, w != nil)
			}
			if w == nil {
				w = &e{id: id}
				want[op.Key] = w
			}
			w.n++
			if w.n > 1 {
				in.Hit("subscribed twice")
			}
		} else {
			last, got := s.Decrement(topic, key)
			if w == nil {
				if last || got != nil {
					return fmt.Errorf("op %d: a topic not subscribed was the last subscription", i)
				}
				continue
			}
			w.n--
			if last != (w.n == 0) {
				return fmt.Errorf("op %d: a subscription is the last: %v, %d remain", i, last, w.n)
			}
			if last {
				if string(got) != w.id {
					return fmt.Errorf("op %d: the subscription %q ends, it was made as %q", i, got, w.id)
				}
				delete(want, op.Key)
				in.NonTrivial()
			}
		}
		for k := 0; k < 6; k++ {
			if s.Exist(fmt.Sprint("key", k)) != (want[k] != nil) {
				return fmt.Errorf("op %d: topic %d is subscribed: %v", i, k, want[k] == nil)
			}
		}
		all := s.All()
		if len(all) != len(want) {
			return fmt.Errorf("op %d: %d subscriptions are listed, there are %d", i, len(all), len(want))
		}
		for _, st := range all {
			var k int
			fmt.Sscanf(st.Topic, "topic%d", &k)
			if w := want[k]; w == nil || w.n != st.Counter || w.id != string(st.ID) {
				return fmt.Errorf("op %d: %+v is listed, there is %+v", i, st, w)
			}
		}
	}
	return nil
}

// RCase is a ring of nodes.
type RCase struct {
	Nodes    []string `json:"nodes"`
	Replicas int      `json:"replicas"`
	Add      string   `json:"add"`
	Seed     int64    `json:"seed"`
	Hash     int      `json:"hash"` // bits of the hash function, 0 for the default one
}

func genRing(r *rand.Rand, tier string, n int) RCase {
	c := RCase{Replicas: 1 + r.Intn(30), Add: fmt.Sprint("new", r.Intn(1000)), Seed: r.Int63()}
	for i := r.Intn(8); i > 0; i-- {
		s := fmt.Sprint("n", r.Intn(40))
		dup := false
		for _, x := range c.Nodes {
			dup = dup || x == s
		}
		if !dup {
			c.Nodes = append(c.Nodes, s)
		}
	}
	if r.Intn(3) == 0 {
		c.Hash = 4 + r.Intn(10)
	}
	return c
}

func runRing(in *vh.Info, c RCase) error {
	var fn hash.Hash
	if c.Hash > 0 {
		// few hash values: nodes collide
		fn = func(b []byte) uint32 {
			h := uint32(2166136261)
			for _, x := range b {
				h = (h ^ uint32(x)) * 16777619
			}
			return h & (1<<uint(c.Hash) - 1)
		}
	}
	r := rand.New(rand.NewSource(c.Seed))
	a := hash.NewRing(c.Replicas, fn)
	a.Add(c.Nodes...)
	// the order in which nodes are added does not matter, together or one by one
	b := hash.NewRing(c.Replicas, fn)
	p := r.Perm(len(c.Nodes))
	for _, i := range p {
		b.Add(c.Nodes[i])
	}
	if len(c.Nodes) > 0 && a.Signature() != b.Signature() {
		return errors.New("the signature depends on the order of the nodes")
	}
	if a.Len() != c.Replicas*len(c.Nodes) {
		return fmt.Errorf("a ring of %d nodes with %d replicas has length %d", len(c.Nodes), c.Replicas, a.Len())
	}
	keys := make([]string, 60)
	for i := range keys {
		keys[i] = fmt.Sprint(r.Intn(100000))
	}
	nodes := append([]string(nil), c.Nodes...)
	sort.Strings(nodes)
	before := map[string]string{}
	for _, k := range keys {
		n := a.Get(k)
		if len(nodes) == 0 {
			if n != "" {
				return fmt.Errorf("an empty ring places key %q on %q", k, n)
			}
			continue
		}
		if i := sort.SearchStrings(nodes, n); i == len(nodes) || nodes[i] != n {
			return fmt.Errorf("key %q is placed on %q, which is no node", k, n)
		}
		if m := b.Get(k); m != n {
			return fmt.Errorf("key %q is on %q, and on %q when the nodes are added in another order", k, n, m)
		}
		before[k] = n
	}
	b.Add(c.Add)
	moved := 0
	for k, n := range before {
		if m := b.Get(k); m != n {
			if m != c.Add {
				return fmt.Errorf("adding %q moved key %q from %q to %q", c.Add, k, n, m)
			}
			moved++
		}
	}
	if a.Signature() == b.Signature() {
		return errors.New("the signature is the same with another node")
	}
	if moved > 0 && moved < len(keys) {
		in.NonTrivial()
	}
	return nil
}
