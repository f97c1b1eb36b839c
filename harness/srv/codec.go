//go:build go1.25

package srv

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"

	lp "github.com/unit-io/unitdb/server/internal/net"
	"github.com/unit-io/unitdb/server/utp"
	"github.com/unit-io/unitdb/server/zzverif/vh"
)

// Pkt is a packet in a form that can be written to a replay file.
type Pkt struct {
	Kind string      `json:"kind"` // connect publish relay subscribe unsubscribe ping disconnect control connack
	Type uint8       `json:"type,omitempty"`
	Flow uint8       `json:"flow,omitempty"`
	ID   uint16      `json:"id,omitempty"`
	Mode uint8       `json:"mode,omitempty"`
	Conn utp.Connect `json:"conn,omitempty"`
	Ack  [3]int32    `json:"ack,omitempty"`
	Body []byte      `json:"body,omitempty"`
	Item []Item      `json:"items,omitempty"`
}

// Item is a message, a relay request or a subscription of a packet.
type Item struct {
	Topic string `json:"t"`
	Text  string `json:"s,omitempty"` // ttl or last
	Body  []byte `json:"b,omitempty"`
	Fill  int    `json:"n,omitempty"` // a payload of n bytes
	Mode  uint8  `json:"m,omitempty"`
	Delay int32  `json:"d,omitempty"`
}

func (i Item) payload() []byte {
	if i.Fill > 0 {
		return bytes.Repeat([]byte{byte(i.Fill), byte(i.Fill >> 8)}, i.Fill)[:i.Fill]
	}
	return i.Body
}

// pack builds the packet as the server and its clients do.
func (p Pkt) pack() lp.MessagePack {
	switch p.Kind {
	case "connect":
		c := p.Conn
		return &c
	case "publish":
		m := &utp.Publish{MessageID: p.ID, DeliveryMode: p.Mode}
		for _, i := range p.Item {
			m.Messages = append(m.Messages, &utp.PublishMessage{Topic: i.Topic, Payload: i.payload(), Ttl: i.Text})
		}
		return m
	case "relay":
		m := &utp.Relay{MessageID: p.ID}
		for _, i := range p.Item {
			m.RelayRequests = append(m.RelayRequests, &utp.RelayRequest{Topic: i.Topic, Last: i.Text})
		}
		return m
	case "subscribe", "unsubscribe":
		var l []*utp.Subscription
		for _, i := range p.Item {
			l = append(l, &utp.Subscription{DeliveryMode: i.Mode, Delay: i.Delay, Topic: i.Topic})
		}
		if p.Kind == "subscribe" {
			return &utp.Subscribe{MessageID: p.ID, Subscriptions: l}
		}
		return &utp.Unsubscribe{MessageID: p.ID, Subscriptions: l}
	case "ping":
		return &utp.Pingreq{}
	case "disconnect":
		return &utp.Disconnect{MessageID: p.ID}
	case "control":
		return &utp.ControlMessage{MessageID: p.ID, MessageType: utp.MessageType(p.Type), FlowControl: utp.FlowControl(p.Flow), Message: p.Body}
	}
	panic("kind " + p.Kind)
}

// The reference encoding: the fields as unitdb.proto numbers them, written by hand.

func varint(v uint64) []byte { return binary.AppendUvarint(nil, v) }

func fInt(b []byte, n int, v int64) []byte {
	if v == 0 {
		return b
	}
	b = append(b, varint(uint64(n)<<3)...)
	return append(b, varint(uint64(v))...)
}

func fBytes(b []byte, n int, v []byte, always bool) []byte {
	if len(v) == 0 && !always {
		return b
	}
	b = append(b, varint(uint64(n)<<3|2)...)
	b = append(b, varint(uint64(len(v)))...)
	return append(b, v...)
}

func fBool(b []byte, n int, v bool) []byte {
	if v {
		return fInt(b, n, 1)
	}
	return b
}

// frame puts the header in front of a body.
func frame(typ, flow uint8, body []byte) []byte {
	var h []byte
	h = fInt(h, 1, int64(typ))
	h = fInt(h, 2, int64(flow))
	h = fInt(h, 3, int64(len(body)))
	return append(append(varint(uint64(len(h))), h...), body...)
}

// wire is the reference encoding of a packet.
func (p Pkt) wire() []byte {
	var b []byte
	switch p.Kind {
	case "connect":
		c := p.Conn
		b = fInt(b, 1, int64(c.Version))
		b = fBool(b, 2, c.InsecureFlag)
		b = fBytes(b, 3, []byte(c.ClientID), false)
		b = fInt(b, 4, int64(c.KeepAlive))
		b = fBool(b, 5, c.CleanSessFlag)
		b = fInt(b, 6, int64(c.SessKey))
		b = fBytes(b, 7, []byte(c.Username), false)
		b = fBytes(b, 8, c.Password, false)
		b = fInt(b, 9, int64(c.BatchDuration))
		b = fInt(b, 10, int64(c.BatchByteThreshold))
		b = fInt(b, 11, int64(c.BatchCountThreshold))
		return frame(1, 0, b)
	case "publish":
		b = fInt(b, 1, int64(p.ID))
		b = fInt(b, 2, int64(p.Mode))
		for _, i := range p.Item {
			var m []byte
			m = fBytes(m, 1, []byte(i.Topic), false)
			m = fBytes(m, 2, i.payload(), false)
			m = fBytes(m, 3, []byte(i.Text), false)
			b = fBytes(b, 3, m, true)
		}
		return frame(2, 0, b)
	case "relay":
		b = fInt(b, 1, int64(p.ID))
		for _, i := range p.Item {
			var m []byte
			m = fBytes(m, 1, []byte(i.Topic), false)
			m = fBytes(m, 2, []byte(i.Text), false)
			b = fBytes(b, 2, m, true)
		}
		return frame(3, 0, b)
	case "subscribe", "unsubscribe":
		b = fInt(b, 1, int64(p.ID))
		for _, i := range p.Item {
			var m []byte
			m = fInt(m, 1, int64(i.Mode))
			m = fInt(m, 2, int64(i.Delay))
			m = fBytes(m, 3, []byte(i.Topic), false)
			b = fBytes(b, 2, m, true)
		}
		if p.Kind == "subscribe" {
			return frame(4, 0, b)
		}
		return frame(5, 0, b)
	case "ping":
		return frame(6, 0, nil)
	case "disconnect":
		b = fInt(b, 1, int64(p.ID))
		return frame(7, 0, b)
	case "control":
		b = fInt(b, 1, int64(p.ID))
		b = fBytes(b, 2, p.Body, false)
		return frame(p.Type, p.Flow, b)
	}
	panic("kind " + p.Kind)
}

var words = []string{"", "a", "unitdb", "teams.alpha.ch1", "...", "AYAAMACCAAAAA/unit8.b.b1?ttl=1m&last=3h", "é漢", "\x00", strings.Repeat("x", 127), strings.Repeat("y.", 200)}

func word(r *rand.Rand) string { return words[r.Intn(len(words))] }

func i32(r *rand.Rand) int32 {
	switch r.Intn(5) {
	case 0:
		return 0
	case 1:
		return int32(r.Intn(300))
	case 2:
		return -1 - int32(r.Intn(1<<30))
	default:
		return int32(r.Uint32())
	}
}

func blob(r *rand.Rand) []byte {
	if r.Intn(4) == 0 {
		return nil
	}
	b := make([]byte, r.Intn(1<<uint(r.Intn(9))))
	r.Read(b)
	return b
}

var edgeLen = []int{1, 2, 100, 125, 126, 127, 128, 129, 130, 16000, 16380, 16383, 16384, 16385, 70000}

func genPkt(r *rand.Rand) Pkt {
	id := uint16(r.Intn(1 << 16))
	if r.Intn(3) == 0 {
		id = []uint16{0, 1, 127, 128, 255, 256, 32767, 32768, 65535}[r.Intn(9)]
	}
	items := func(f func() Item) (out []Item) {
		n := r.Intn(4)
		if r.Intn(20) == 0 {
			n = r.Intn(60)
		}
		for i := 0; i < n; i++ {
			out = append(out, f())
		}
		return
	}
	switch r.Intn(9) {
	case 0:
		return Pkt{Kind: "connect", Conn: utp.Connect{Version: i32(r), InsecureFlag: r.Intn(2) == 0, ClientID: word(r), KeepAlive: i32(r), CleanSessFlag: r.Intn(2) == 0, SessKey: i32(r), Username: word(r), Password: blob(r), BatchDuration: i32(r), BatchByteThreshold: i32(r), BatchCountThreshold: i32(r)}}
	case 1, 2:
		return Pkt{Kind: "publish", ID: id, Mode: uint8(r.Intn(256)), Item: items(func() Item {
			i := Item{Topic: word(r), Text: word(r)}
			if r.Intn(4) == 0 {
				i.Fill = edgeLen[r.Intn(len(edgeLen))]
			} else {
				i.Body = blob(r)
			}
			return i
		})}
	case 3:
		return Pkt{Kind: "relay", ID: id, Item: items(func() Item { return Item{Topic: word(r), Text: word(r)} })}
	case 4, 5:
		return Pkt{Kind: []string{"subscribe", "unsubscribe"}[r.Intn(2)], ID: id, Item: items(func() Item { return Item{Topic: word(r), Mode: uint8(r.Intn(256)), Delay: i32(r)} })}
	case 6:
		return Pkt{Kind: "ping"}
	case 7:
		return Pkt{Kind: "disconnect", ID: id}
	}
	p := Pkt{Kind: "control", ID: id, Body: blob(r)}
	if r.Intn(2) == 0 {
		p.Flow, p.Type = uint8(utp.ACKNOWLEDGE), uint8(1+r.Intn(6))
	} else {
		p.Flow, p.Type = uint8(utp.NOTIFY)+uint8(r.Intn(4)), uint8(utp.PUBLISH)
	}
	return p
}

// SCase is a stream of packets.
type SCase struct {
	Pkts []Pkt `json:"pkts"`
	Frag int64 `json:"frag"` // seed of the fragmentation
	Cut  int   `json:"cut"`  // bytes missing at the end of the stream, when it is cut
}

func genStream(r *rand.Rand, tier string, n int) SCase {
	c := SCase{Frag: r.Int63(), Cut: 1 + r.Intn(1<<uint(1+r.Intn(8)))}
	for i := 1 + r.Intn(8); i > 0; i-- {
		c.Pkts = append(c.Pkts, genPkt(r))
	}
	return c
}

// fragReader hands out the stream in fragments, as a socket does.
type fragReader struct {
	b    []byte
	r    *rand.Rand
	late bool // the end is reported with the last bytes
}

func (f *fragReader) Read(p []byte) (int, error) {
	if len(f.b) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := 1 + f.r.Intn(1<<uint(f.r.Intn(14)))
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], f.b)
	f.b = f.b[n:]
	if len(f.b) == 0 && f.late {
		return n, io.EOF
	}
	return n, nil
}

// norm makes empty and nil the same.
func norm(m lp.MessagePack) lp.MessagePack {
	switch m := m.(type) {
	case *utp.Connect:
		if len(m.Password) == 0 {
			m.Password = nil
		}
	case *utp.Publish:
		for _, x := range m.Messages {
			if len(x.Payload) == 0 {
				x.Payload = nil
			}
		}
		if len(m.Messages) == 0 {
			m.Messages = nil
		}
	case *utp.ControlMessage:
		if len(m.Message) == 0 {
			m.Message = nil
		}
	}
	return m
}

func short(v any) string {
	s := fmt.Sprintf("%+v", v)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

func readAll(r io.Reader, max int) (out []lp.MessagePack, err error) {
	for len(out) <= max {
		m, err := lp.Read(r)
		if err != nil {
			return out, err
		}
		if m == nil {
			return out, errors.New("no packet and no error")
		}
		out = append(out, norm(m))
	}
	return out, errors.New("more packets than were written")
}

func runStream(in *vh.Info, c SCase) error {
	var own, ref bytes.Buffer
	var want []lp.MessagePack
	var ends []int
	for i, p := range c.Pkts {
		m := p.pack()
		b, err := m.ToBinary()
		if err != nil {
			return fmt.Errorf("packet %d (%s) is not encoded: %v", i, p.Kind, err)
		}
		w := p.wire()
		if got := b.Bytes(); !bytes.Equal(got, w) {
			// the order of the fields is not prescribed: read it back as well
			in.Hit("encoded in another order")
		}
		own.Write(b.Bytes())
		ref.Write(w)
		ends = append(ends, own.Len())
		want = append(want, norm(p.pack()))
		in.Hit(p.Kind)
		switch p.Kind {
		case "publish", "disconnect", "control":
			e, err := lp.Encode(m)
			if err != nil {
				return fmt.Errorf("packet %d (%s) is not encoded by the server: %v", i, p.Kind, err)
			}
			if !bytes.Equal(e.Bytes(), b.Bytes()) {
				return fmt.Errorf("packet %d (%s): the server encodes %x, the client library %x", i, p.Kind, e.Bytes(), b.Bytes())
			}
		}
		if len(p.Item) > 1 {
			in.NonTrivial()
		}
	}
	r := rand.New(rand.NewSource(c.Frag))
	for k, b := range [][]byte{own.Bytes(), ref.Bytes()} {
		name := []string{"encoded by the library", "encoded by hand"}[k]
		got, err := readAll(&fragReader{b: b, r: r, late: r.Intn(2) == 0}, len(want))
		for i := 0; i < len(got) && i < len(want); i++ {
			if !reflect.DeepEqual(got[i], want[i]) {
				return fmt.Errorf("packet %d, %s: %s was written and %s is read", i, name, short(want[i]), short(got[i]))
			}
		}
		if len(got) != len(want) || err != io.EOF {
			return fmt.Errorf("%d packets %s, %d are read, then %v", len(want), name, len(got), err)
		}
	}
	// a stream that ends in a packet
	b := own.Bytes()
	if c.Cut <= len(b) {
		b = b[:len(b)-c.Cut]
		n := 0
		for n < len(ends) && ends[n] <= len(b) {
			n++
		}
		got, err := readAll(&fragReader{b: b, r: r, late: r.Intn(2) == 0}, len(want))
		if err == nil || len(got) != n {
			return fmt.Errorf("a stream with %d complete packets and part of another: %d packets are read, then %v", n, len(got), err)
		}
		if n < len(want)-1 || n > 0 {
			in.Hit("cut")
		}
		for i := range got {
			if !reflect.DeepEqual(got[i], want[i]) {
				return fmt.Errorf("packet %d of a cut stream: %s was written and %s is read", i, short(want[i]), short(got[i]))
			}
		}
	}
	// the acknowledgement of a connection is the body of a control message
	ack := utp.ConnectAcknowledge{ReturnCode: uint8(c.Frag), Epoch: int32(c.Frag >> 8), ConnID: int32(c.Frag >> 31)}
	ab, err := ack.ToBinary()
	if err != nil {
		return fmt.Errorf("connect acknowledgement: %v", err)
	}
	var back utp.ConnectAcknowledge
	back.FromBinary(utp.FixedHeader{}, ab.Bytes())
	if back != ack {
		return fmt.Errorf("connect acknowledgement %+v is read as %+v", ack, back)
	}
	return nil
}

func shrinkStream(c SCase) (out []SCase) {
	for _, p := range vh.Chunks(c.Pkts) {
		d := c
		d.Pkts = p
		out = append(out, d)
	}
	for i, p := range c.Pkts {
		for _, it := range vh.Chunks(p.Item) {
			d := c
			d.Pkts = append([]Pkt(nil), c.Pkts...)
			d.Pkts[i].Item = it
			out = append(out, d)
		}
		if len(p.Body) > 0 {
			d := c
			d.Pkts = append([]Pkt(nil), c.Pkts...)
			d.Pkts[i].Body = p.Body[:len(p.Body)/2]
			out = append(out, d)
		}
	}
	return
}

// FCase is a stream with arbitrary bytes in it.
type FCase struct {
	Pkts []Pkt  `json:"pkts"`
	Muts []Mut  `json:"muts,omitempty"`
	Raw  []byte `json:"raw,omitempty"` // instead of packets
	Body []byte `json:"body"`          // body of a well framed packet
	Type uint8  `json:"type"`
	Flow uint8  `json:"flow"`
	Frag int64  `json:"frag"`
}

// Mut is a change of the bytes of a stream.
type Mut struct {
	Op  int    `json:"op"` // 0 overwrite, 1 insert, 2 delete
	At  uint32 `json:"at"`
	Val []byte `json:"val"`
}

func genFuzz(r *rand.Rand, tier string, n int) FCase {
	c := FCase{Frag: r.Int63(), Type: uint8(1 + r.Intn(7)), Flow: uint8(r.Intn(6))}
	if r.Intn(10) == 0 {
		c.Flow = uint8(r.Intn(120))
	}
	c.Body = make([]byte, r.Intn(60))
	r.Read(c.Body)
	if r.Intn(2) == 0 { // the body of some packet, damaged
		w := genPkt(r).wire()
		if len(w) > 400 {
			w = w[:400]
		}
		c.Body = w[1+r.Intn(len(w)-1):]
		if len(c.Body) > 0 {
			c.Body[r.Intn(len(c.Body))] ^= 1 << uint(r.Intn(8))
		}
	}
	if r.Intn(3) == 0 {
		c.Raw = make([]byte, r.Intn(100))
		r.Read(c.Raw)
		if len(c.Raw) > 0 && r.Intn(2) == 0 {
			c.Raw[0] = byte(r.Intn(30))
		}
		return c
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		p := genPkt(r)
		if len(p.Item) > 3 {
			p.Item = p.Item[:3]
		}
		c.Pkts = append(c.Pkts, p)
	}
	vals := [][]byte{{0}, {0xff}, {0x80}, {0xff, 0xff, 0xff, 0xff, 0x0f}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}, {0x18, 0xff, 0xff, 0xff, 0xff, 0x07}}
	for i := 1 + r.Intn(4); i > 0; i-- {
		m := Mut{Op: r.Intn(3), At: uint32(r.Intn(1 << uint(1+r.Intn(10)))), Val: []byte{byte(r.Intn(256))}}
		if r.Intn(2) == 0 {
			m.Val = vals[r.Intn(len(vals))]
		}
		c.Muts = append(c.Muts, m)
	}
	return c
}

func (c FCase) stream() []byte {
	if c.Raw != nil {
		return c.Raw
	}
	var b []byte
	for _, p := range c.Pkts {
		b = append(b, p.wire()...)
	}
	for _, m := range c.Muts {
		if len(b) == 0 {
			break
		}
		at := int(m.At) % len(b)
		switch m.Op {
		case 0:
			copy(b[at:], m.Val)
		case 1:
			b = append(b[:at:at], append(append([]byte(nil), m.Val...), b[at:]...)...)
		case 2:
			e := at + len(m.Val)
			if e > len(b) {
				e = len(b)
			}
			b = append(b[:at:at], b[e:]...)
		}
	}
	return b
}

func runFuzz(in *vh.Info, c FCase) error {
	b := c.stream()
	r := rand.New(rand.NewSource(c.Frag))
	var m0, m1 runtime.MemStats
	measure := c.Frag%8 == 0
	if measure {
		runtime.ReadMemStats(&m0)
	}
	n := 0
	err := bounded(func() error {
		f := &fragReader{b: b, r: r, late: r.Intn(2) == 0}
		for {
			left := len(f.b)
			m, err := lp.Read(f)
			if err != nil {
				return nil
			}
			if m == nil {
				return errors.New("no packet and no error")
			}
			if len(f.b) == left {
				return errors.New("a packet was read from no bytes")
			}
			n++
		}
	})
	if err != nil {
		return fmt.Errorf("reading %x: %v", b, err)
	}
	if measure {
		runtime.ReadMemStats(&m1)
		if used := m1.TotalAlloc - m0.TotalAlloc; used > 1<<20+uint64(len(b))*2048 {
			return fmt.Errorf("reading a stream of %d bytes allocated %d bytes", len(b), used)
		}
		in.Hit("memory measured")
	}
	if n > 0 {
		in.Hit("packets after all")
		in.NonTrivial()
	}
	// whatever the body of a packet is, the packet behind it is read
	next := Pkt{Kind: "publish", ID: 7, Item: []Item{{Topic: "a", Body: []byte("x")}}}
	f := &fragReader{b: append(frame(c.Type, c.Flow, c.Body), next.wire()...), r: r}
	var got lp.MessagePack
	err = bounded(func() error {
		if _, err := lp.Read(f); err != nil {
			return fmt.Errorf("it is refused: %v", err)
		}
		var err error
		got, err = lp.Read(f)
		return err
	})
	if err != nil {
		return fmt.Errorf("a packet of type %d and flow %d with the body %x: %v", c.Type, c.Flow, c.Body, err)
	}
	if !reflect.DeepEqual(norm(got), norm(next.pack())) {
		return fmt.Errorf("behind a packet of type %d and flow %d with the body %x, %s is read", c.Type, c.Flow, c.Body, short(got))
	}
	return nil
}

// PCase is several streams read at the same time.
type PCase struct {
	Streams []FCase `json:"streams"`
}

func genPar(r *rand.Rand, tier string, n int) (c PCase) {
	for i := 2 + r.Intn(7); i > 0; i-- {
		f := genFuzz(r, tier, n)
		if r.Intn(2) == 0 {
			f.Muts = nil // undamaged
		}
		c.Streams = append(c.Streams, f)
	}
	return
}

// runPar reads each stream alone, and then all of them at once, with the same result.
func runPar(in *vh.Info, c PCase) error {
	read := func(b []byte, frag int64) (out []lp.MessagePack, end string, err error) {
		err = bounded(func() error {
			f := &fragReader{b: b, r: rand.New(rand.NewSource(frag))}
			for {
				m, err := lp.Read(f)
				if err != nil {
					end = err.Error()
					return nil
				}
				out = append(out, norm(m))
			}
		})
		return
	}
	type alone struct {
		b    []byte
		out  []lp.MessagePack
		end  string
		fail error
	}
	l := make([]alone, len(c.Streams))
	for i, f := range c.Streams {
		a := &l[i]
		a.b = f.stream()
		if a.out, a.end, a.fail = read(a.b, f.Frag); a.fail != nil {
			return a.fail
		}
		if len(a.out) > 1 {
			in.NonTrivial()
		}
	}
	var wg sync.WaitGroup
	for i := range l {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			a := &l[i]
			for n := 0; n < 60; n++ {
				out, end, err := read(a.b, c.Streams[i].Frag+int64(n))
				if err != nil {
					a.fail = err
					return
				}
				if end != a.end || !reflect.DeepEqual(out, a.out) {
					a.fail = fmt.Errorf("stream %d, %x, was read alone as %s, ending with %q, and together with others as %s, ending with %q", i, a.b, short(a.out), a.end, short(out), end)
					return
				}
			}
		}(i)
	}
	wg.Wait()
	for i := range l {
		if l[i].fail != nil {
			return l[i].fail
		}
	}
	return nil
}

func shrinkPar(c PCase) (out []PCase) {
	for _, s := range vh.Chunks(c.Streams) {
		out = append(out, PCase{s})
	}
	return
}

func shrinkFuzz(c FCase) (out []FCase) {
	for _, p := range vh.Chunks(c.Pkts) {
		d := c
		d.Pkts = p
		out = append(out, d)
	}
	for _, p := range vh.Chunks(c.Muts) {
		d := c
		d.Muts = p
		out = append(out, d)
	}
	for _, p := range vh.Chunks(c.Raw) {
		d := c
		d.Raw = p
		out = append(out, d)
	}
	for _, p := range vh.Chunks(c.Body) {
		d := c
		d.Body = p
		out = append(out, d)
	}
	return
}
