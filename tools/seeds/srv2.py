exec(open("/verif/tools/seeds/srvpre.py").read())


def T(imports, body):
    return '//go:build go1.25\n\npackage zzdemo\n\nimport (\n' + "".join('\t"%s"\n' % i for i in imports) + ')\n\nfunc TestDemo(t *testing.T) {\n' + body + '\n}\n'


U = "github.com/unit-io/unitdb/"
SEEDS = [
 dict(id="s06", property="S14", edits=[("server/internal/hdl_conn.go", "	for _, pubMsg := range pub.Messages {\n		//Parse the key\n", "	var checked string\n	for _, pubMsg := range pub.Messages {\n		//Parse the key\n"),
   ("server/internal/hdl_conn.go", "		if !c.insecure {\n			wildcard, err := c.onSecureRequest(topic, security.AllowWrite)\n", "		if !c.insecure && topic.Key != checked {\n			checked = topic.Key\n			wildcard, err := c.onSecureRequest(topic, security.AllowWrite)\n")],
  needs="a publish of two messages with the same key, for different topics",
  breaks="the second message is accepted although the key is not valid for its topic",
  demo=PRE+'''
func TestDemo(t *testing.T) {
	s := serve(t, dir(t))
	id := ident(t, 7)
	p := dial(t, s, id, true, func(m *utp.Connect) { m.InsecureFlag = false })
	a := dial(t, s, id, true, nil)
	a.subscribe(0, 0, "x/a.b", "x/c.d")
	key, err := security.GenerateKey(7, "a.b", security.AllowReadWrite)
	if err != nil {
		t.Fatal(err)
	}
	p.pack(&utp.Publish{MessageID: 3, Messages: []*utp.PublishMessage{{Topic: key + "/a.b", Payload: []byte("one")}, {Topic: key + "/c.d", Payload: []byte("two")}}})
	wait()
	if a.count("a.b=one") != 1 || a.count("c.d=two") != 0 {
		t.Fatal(a.got)
	}
}
'''),
 dict(id="s07", property="S11", edits=[("server/internal/hdl_conn.go", "		default:\n			// Set read/write deadlines so we can close dangling connections\n			c.socket.SetDeadline(time.Now().Add(time.Second * 120))\n\n", "		default:\n"),
   ("server/internal/hdl_conn.go", "	reader := bufio.NewReaderSize(c.socket, 65536)\n\n	for {\n", "	reader := bufio.NewReaderSize(c.socket, 65536)\n	// Set read/write deadlines so we can close dangling connections\n	c.socket.SetDeadline(time.Now().Add(time.Second * 120))\n\n	for {\n")],
  needs="a connection that lasts longer than two minutes",
  breaks="a client that keeps its connection alive is cut off after two minutes and gets no more messages",
  demo=PRE+'''
// hasty is a connection whose time runs sixty times as fast.
type hasty struct{ net.Conn }

func (h hasty) SetDeadline(x time.Time) error {
	return h.Conn.SetDeadline(time.Now().Add(time.Until(x) / 60))
}

func TestDemo(t *testing.T) {
	s := serve(t, dir(t))
	accept := s.accept
	s.accept = func(c net.Conn) { accept(hasty{c}) }
	id := ident(t, 7)
	a := dial(t, s, id, true, nil)
	a.subscribe(0, 0, "x/a.b")
	for i := 0; i < 40; i++ {
		a.pack(&utp.Pingreq{})
		time.Sleep(100 * time.Millisecond)
	}
	s.accept = accept
	b := dial(t, s, id, true, nil)
	b.publish(0, "x/a.b", "one")
	if a.count("a.b=one") != 1 {
		t.Fatal("cut off")
	}
}
'''),
 dict(id="s08", property="S09", edits=[("server/internal/store/store.go", "	return uint64(prefix) == key&0xFFFFFFFF\n", "	return uint64(prefix)&0xFFFFFF == key&0xFFFFFF\n")],
  needs="two sessions whose identifiers differ only in the highest byte",
  breaks="a session is owed, and resets, the messages of another one",
  demo=PRE.replace('	"github.com/unit-io/unitdb/server/internal/pkg/uid"\n', '	"github.com/unit-io/unitdb/server/internal/pkg/uid"\n	"github.com/unit-io/unitdb/server/internal/store"\n')+'''
func TestDemo(t *testing.T) {
	serve(t, dir(t))
	a, b := uint32(0x01000042), uint32(0x7F000042)
	store.Log.PersistOutbound(a, &utp.Publish{MessageID: 3, DeliveryMode: 1, Messages: []*utp.PublishMessage{{Topic: "a.b", Payload: []byte("one")}}})
	store.Log.PersistOutbound(b, &utp.Publish{MessageID: 4, DeliveryMode: 1, Messages: []*utp.PublishMessage{{Topic: "a.b", Payload: []byte("two")}}})
	if got := store.Log.Keys(a); len(got) != 1 || got[0] != 3<<32|uint64(a) {
		t.Fatal(got)
	}
	store.Log.Reset(a)
	if got := store.Log.Keys(b); len(got) != 1 {
		t.Fatal(got)
	}
}
'''),
 dict(id="s09", property="S06", edits=[("server/internal/message/messageids.go", "	mids.Lock()\n	defer mids.Unlock()\n	mids.id++\n", "	mids.Lock()\n	mids.id++\n"), ("server/internal/message/messageids.go", "	mids.index[mids.id] = pktType\n	return mids.id\n", "	mids.index[mids.id] = pktType\n	mids.Unlock()\n	return mids.id\n")],
  needs="two goroutines that ask for an identifier at the same moment",
  breaks="the identifier is read after the lock was given up, so that both get the same one",
  demo=T(["sync", "testing", U+"server/internal/message", U+"server/utp"], '''
	m := message.NewMessageIds()
	var mu sync.Mutex
	var wg sync.WaitGroup
	seen := map[message.MID]bool{}
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var got []message.MID
			for k := 0; k < 100000; k++ {
				got = append(got, m.NextID(utp.PUBLISH))
			}
			mu.Lock()
			defer mu.Unlock()
			for _, id := range got {
				if seen[id] {
					t.Error("twice: ", id)
					return
				}
				seen[id] = true
			}
		}()
	}
	wg.Wait()''')),
 dict(id="s10", property="S07", edits=[("server/internal/message/sub.go", "		stat.Counter--\n		// Remove if there's no subscribers left\n		if stat.Counter <= 0 {\n			delete(s.stats, key)\n			return true, stat.ID\n		}\n", "		// Remove if there's no subscribers left\n		if stat.Counter <= 1 {\n			delete(s.stats, key)\n			return true, stat.ID\n		}\n		counted := *stat\n		counted.Counter--\n		s.stats[topic] = &counted\n")],
  needs="a topic subscribed twice with a key that is not its name, and unsubscribed",
  breaks="the subscription that is left is counted under the topic and the count under the key does not go down",
  demo=T(["testing", U+"server/internal/message"], '''
	s := message.NewStats()
	s.Increment("a.b", "k/a.b", []byte("1"))
	s.Increment("a.b", "k/a.b", []byte("2"))
	s.Decrement("a.b", "k/a.b")
	if last, id := s.Decrement("a.b", "k/a.b"); !last || string(id) != "1" || s.Exist("k/a.b") {
		t.Fatal(last, id)
	}''')),
 dict(id="s11", property="S08", edits=[("server/internal/pkg/hash/ringhash.go", "	if k[i].hash == k[j].hash {\n		return k[i].key < k[j].key\n	}\n	return false\n", "	return false\n")],
  needs="two replicas of different nodes with the same hash",
  breaks="the placement of keys depends on the order in which the nodes were added",
  demo=T(["testing", U+"server/internal/pkg/hash"], '''
	weak := func(b []byte) uint32 { return uint32(len(b)) % 3 }
	a, b := hash.NewRing(4, weak), hash.NewRing(4, weak)
	a.Add("one", "two", "six")
	b.Add("six")
	b.Add("two")
	b.Add("one")
	if a.Signature() != b.Signature() {
		t.Fatal("the rings differ")
	}
	for _, k := range []string{"x", "yy", "zzz"} {
		if a.Get(k) != b.Get(k) {
			t.Fatal(k, a.Get(k), b.Get(k))
		}
	}''')),
 dict(id="s12", property="S10", edits=[("server/internal/store/store.go", "	return adp.PutWithID(contract^connStoreId, ", "	return adp.PutWithID(contract|connStoreId, "), ("server/internal/store/store.go", "	resp, err := adp.Get(contract^connStoreId, ", "	resp, err := adp.Get(contract|connStoreId, "), ("server/internal/store/store.go", "	return adp.Delete(contract^connStoreId, ", "	return adp.Delete(contract|connStoreId, ")],
  needs="two contracts that differ only in bits which the identifier of the subscription store has set",
  breaks="the subscriptions of one contract are found for another one",
  demo=PRE.replace('	"github.com/unit-io/unitdb/server/internal/pkg/uid"\n', '	"github.com/unit-io/unitdb/server/internal/pkg/uid"\n	"github.com/unit-io/unitdb/server/internal/store"\n')+'''
func TestDemo(t *testing.T) {
	serve(t, dir(t))
	id, err := store.Subscription.NewID()
	if err != nil {
		t.Fatal(err)
	}
	if err := store.Subscription.Put(8, id, "a.b", []byte("conn")); err != nil {
		t.Fatal(err)
	}
	if got, err := store.Subscription.Get(8, "a.b"); err != nil || len(got) != 1 {
		t.Fatal(got, err)
	}
	// every bit of the store identifier is tried
	for i := 0; i < 32; i++ {
		if got, _ := store.Subscription.Get(8^1<<i, "a.b"); len(got) != 0 {
			t.Fatal(i, got)
		}
	}
}
'''),
 dict(id="s14", property="S03", edits=[("server/common/conn.go", "	if err != nil || len(data) <= (len(p)+c.readOffset) {\n", "	if err != nil || len(data)-c.readOffset <= len(p)+c.readOffset {\n")],
  needs="a message of a stream that is read in three or more parts",
  breaks="the end of a long message is lost",
  demo=T(["io", "strings", "testing", "context", "google.golang.org/grpc/metadata", "github.com/golang/protobuf/proto", U+"server/common", U+"server/proto"], '''
	s := &stream{data: []string{strings.Repeat("abcdefgh", 10), "x"}}
	c := &common.Conn{
		Stream: s, InMsg: &__schema.Packet{}, OutMsg: &__schema.Packet{},
		Decode: common.Decode(func(m proto.Message) *[]byte { return &m.(*__schema.Packet).Data }),
	}
	var got []byte
	buf := make([]byte, 9)
	for {
		n, err := c.Read(buf)
		if n > len(buf) || n < 0 {
			t.Fatal(n)
		}
		got = append(got, buf[:n]...)
		if err == io.EOF {
			break
		}
	}
	if string(got) != strings.Repeat("abcdefgh", 10)+"x" {
		t.Fatal(string(got))
	}
}

type stream struct{ data []string }

func (s *stream) Context() context.Context     { return context.Background() }
func (s *stream) SendMsg(m interface{}) error  { return nil }
func (s *stream) SetHeader(metadata.MD) error  { return nil }
func (s *stream) RecvMsg(m interface{}) error {
	if len(s.data) == 0 {
		return io.EOF
	}
	m.(*__schema.Packet).Data = []byte(s.data[0])
	s.data = s.data[1:]
	return nil''')),
 dict(id="s16", property="S04", edits=[("server/internal/message/security/key.go", "	return (p & flag) == flag\n", "	return p&flag != 0\n")],
  needs="a key with some, but not all, of the permissions asked for",
  breaks="a key that only allows to read is taken as one that allows to read and write",
  demo=T(["testing", U+"server/internal/message/security"], '''
	text, err := security.GenerateKey(7, "a.b", security.AllowRead)
	if err != nil {
		t.Fatal(err)
	}
	k, err := security.DecodeKey(text)
	if err != nil || !k.HasPermission(security.AllowRead) || k.HasPermission(security.AllowReadWrite) {
		t.Fatal(k, err)
	}''')),
 dict(id="s17", property="S01", edits=[("server/utp/message.go", "	for multiplier < 27 { //fix", "	for multiplier <= 14 { //fix"), ("server/utp/publish.go", "			Ttl:     protoMsg.Ttl,\n		}\n		pubMessages = append(pubMessages, pubMsg)\n", "			Ttl:     protoMsg.Ttl,\n		}\n		if len(pubMessages) > 0 && pubMsg.Topic == \"\" {\n			pubMsg.Topic = pubMessages[len(pubMessages)-1].Topic\n		}\n		pubMessages = append(pubMessages, pubMsg)\n")],
  needs="a publish of several messages, of which a later one has no topic",
  breaks="a message without a topic is read with the topic of the one before it",
  demo=T(["testing", U+"server/utp", U+"server/internal/net"], '''
	p := &utp.Publish{MessageID: 1, Messages: []*utp.PublishMessage{{Topic: "a", Payload: []byte("1")}, {Payload: []byte("2")}}}
	b, err := p.ToBinary()
	if err != nil {
		t.Fatal(err)
	}
	m, err := net.Read(&b)
	if err != nil || m.(*utp.Publish).Messages[1].Topic != "" {
		t.Fatal(m, err)
	}''')),
 dict(id="s18", property="S02", edits=[("server/utp/message.go", "	var h pbx.FixedHeader\n	proto.Unmarshal(head, &h)\n", "	h := header\n	proto.UnmarshalMerge(head, h)\n	defer h.Reset()\n	if h.MessageLength < 0 {\n		return errors.New(\"message: negative length\")\n	}\n"),
   ("server/utp/message.go", "// Info returns Qos", "var header = &pbx.FixedHeader{}\n\n// Info returns Qos")],
  needs="two connections that read packets at the same time",
  breaks="headers of packets of different connections are mixed up",
  demo=T(["bytes", "sync", "testing", U+"server/utp"], '''
	mk := func(m *utp.ControlMessage, n int) []byte {
		b, err := m.ToBinary()
		if err != nil {
			t.Fatal(err)
		}
		return bytes.Repeat(b.Bytes()[:1+int(b.Bytes()[0])], n)
	}
	const n = 20000
	var wg sync.WaitGroup
	for i, b := range [][]byte{mk(&utp.ControlMessage{MessageType: utp.SUBSCRIBE, FlowControl: utp.ACKNOWLEDGE, MessageID: 9}, n), mk(&utp.ControlMessage{MessageType: utp.PINGREQ, FlowControl: utp.ACKNOWLEDGE}, n)} {
		want := []utp.MessageType{utp.SUBSCRIBE, utp.PINGREQ}[i]
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := bytes.NewReader(b)
				for k := 0; k < n; k++ {
					var h utp.FixedHeader
					if err := h.FromBinary(r); err != nil || h.MessageType != want || h.FlowControl != utp.ACKNOWLEDGE {
						t.Error(k, h, err)
						return
					}
				}
			}()
		}
	}
	wg.Wait()''')),
 dict(id="s20", property="S16", edits=[("server/internal/batch.go", "		m.push(b)\n		delete(m.batchGroup, timeID)\n	}\n}\n\n// push", "		m.push(b)\n		b.count, b.size = 0, 0\n	}\n}\n\n// push")],
  needs="a batch that gets full before its time is over, and more messages in the same interval",
  breaks="messages of a full batch are sent twice",
  demo=PRE+'''
func TestDemo(t *testing.T) {
	s := serve(t, dir(t))
	id := ident(t, 7)
	a := dial(t, s, id, true, func(m *utp.Connect) { m.BatchDuration = 1000; m.BatchCountThreshold = 2 })
	p := dial(t, s, id, true, nil)
	a.subscribe(2, 0, "x/a.b")
	for i := 0; i < 4; i++ {
		p.pack(&utp.Publish{MessageID: uint16(3 + i), Messages: []*utp.PublishMessage{{Topic: "x/a.b", Payload: []byte(fmt.Sprint(i))}}})
	}
	time.Sleep(9 * time.Second)
	for i := 0; i < 4; i++ {
		if a.count("a.b="+fmt.Sprint(i)) != 1 {
			t.Fatal(a.got)
		}
	}
}
'''),
 dict(id="s22", property="S12", edits=[("server/internal/net/listener/patricia.go", "	if n.terminal && (prefix || len(n.prefix) == len(b)) {\n		return true\n	}\n\n	if l >= len(b) {\n		return false\n	}\n", "	if l >= len(b) {\n		return n.terminal && len(n.prefix) == len(b)\n	}\n\n	if n.terminal && prefix && len(n.next) == 0 {\n		return true\n	}\n")],
  needs="two registered prefixes of which one is the beginning of the other, and a connection that starts with the short one only",
  breaks="the connection is taken for another protocol",
  demo=T(["net", "testing", "time", U+"server/internal/net/listener"], '''
	l, err := listener.New("127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	a := l.Proto(listener.MatchWS("GET", "GETTER"))
	b := l.Proto(listener.MatchAny())
	go l.Serve()
	from := make(chan string, 2)
	go func() { a.Accept(); from <- "first" }()
	go func() { b.Accept(); from <- "second" }()
	c, err := net.DialTimeout("tcp", l.Addr().String(), time.Second)
	if err != nil {
		t.Fatal(err)
	}
	c.Write([]byte("GET / HTTP/1.1\\r\\n\\r\\n"))
	if f := <-from; f != "first" {
		t.Fatal(f)
	}''')),
 dict(id="s23", property="S17", edits=[("server/internal/store/store.go", "		msg := message.Message{\n			Topic:   string(topic),\n			Payload: payload,\n		}\n		matches = append(matches, &msg)\n", "		if n := len(matches); n > 0 && bytes.Equal(matches[n-1].Payload, payload) {\n			continue\n		}\n		matches = append(matches, &message.Message{\n			Topic:   string(topic),\n			Payload: payload,\n		})\n")],
  needs="two equal messages stored one after the other",
  breaks="the second of them is not relayed",
  demo=PRE+'''
func TestDemo(t *testing.T) {
	s := serve(t, dir(t))
	id := ident(t, 7)
	a, p := dial(t, s, id, true, nil), dial(t, s, id, true, nil)
	p.publish(0, "x/a.b", "one")
	p.publish(0, "x/a.b", "two")
	p.publish(0, "x/a.b", "two")
	time.Sleep(1100 * time.Millisecond)
	a.relay("1h", "x/a.b")
	time.Sleep(3 * time.Second)
	if a.count("a.b=one") != 1 || a.count("a.b=two") != 2 {
		t.Fatal(a.got)
	}
}
'''),
 dict(id="s24", property="S18", edits=[("server/internal/conn.go", "	// Decrement the connection counter\n	c.service.meter.Connections.Dec(1)\n\n	return nil\n", "	if c.batchManager != nil {\n		// Decrement the connection counter\n		c.service.meter.Connections.Dec(1)\n	}\n\n	return nil\n")],
  needs="a client that goes away without having connected",
  breaks="the end of a connection that never sent a connect request is not noticed by the count of connections",
  demo=PRE+'''
func TestDemo(t *testing.T) {
	s := serve(t, dir(t))
	a, b := net.Pipe()
	s.accept(b)
	wait()
	a.Write([]byte{0})
	a.Close()
	wait()
	if v, err := s.varz(); err != nil || v.Connections != 0 {
		t.Fatal(v, err)
	}
}
'''),
 dict(id="s25", property="S05", edits=[("server/internal/pkg/uid/clientid.go", "	id, err := NewClientID(1)\n	if err != nil {\n		return ID{}, err\n	}\n\n	id.SetEpoch(NewApoch())\n	id.SetPermissions(AllowNone)\n	id.SetContract(master.Contract())\n	return id, nil\n", "	id := master\n	id.SetEpoch(NewApoch())\n	id.SetPermissions(AllowNone)\n	return id, nil\n")],
  needs="a primary client that asks for a second new identity",
  breaks="deriving an identity turns the primary one into a secondary one",
  demo=T(["testing", U+"server/internal/pkg/uid"], '''
	id, err := uid.NewClientID(1)
	if err != nil {
		t.Fatal(err)
	}
	was := string(id)
	if sec, err := uid.NewSecondaryClientID(id); err != nil || sec.IsPrimary() || sec.Contract() != id.Contract() {
		t.Fatal(sec, err)
	}
	if string(id) != was {
		t.Fatal("changed")
	}''')),
 dict(id="l01", property="L01", edits=[("hash/consistent.go", "		c.A[b], c.R[r] = b, b\n", "		c.A[b], c.R[len(c.R)-1-r] = b, b\n")],
  needs="a placement that starts with two or more unused blocks, of which one is added",
  breaks="the unused blocks are added in the wrong order, so that keys are placed in blocks not in use",
  demo=T(["testing", U+"hash"], '''
	c := hash.InitConsistent(9, 5)
	was := map[uint64]uint16{}
	for k := uint64(0); k < 20000; k++ {
		was[k] = c.FindBlock(k)
	}
	b := c.AddBlock()
	for k, w := range was {
		if g := c.FindBlock(k); g != w && g != b || g > 8 {
			t.Fatal(k, w, g, b)
		}
	}
	b2 := c.AddBlock()
	c.RemoveBlock(b2)
	c.RemoveBlock(b)
	for k, w := range was {
		if g := c.FindBlock(k); g != w {
			t.Fatal(k, w, g)
		}
	}''')),
 dict(id="l02", property="L02", edits=[("filter/bloom.go", "	binary.Write(buf, binary.LittleEndian, b.bits)\n	return buf.Bytes()\n", "	bits := b.bits\n	for len(bits) > 0 && bits[len(bits)-1] == 0 {\n		bits = bits[:len(bits)-1]\n	}\n	binary.Write(buf, binary.LittleEndian, bits)\n	return buf.Bytes()\n")],
  needs="a filter with few keys, whose last bits are not used, written and read again",
  breaks="the shortened bits are not read, so that no key is found",
  demo=T(["testing", U+"filter"], '''
	for n := uint64(1); n < 50; n++ {
		g := filter.NewFilterGenerator()
		for i := uint64(0); i < n; i++ {
			g.Append(i * 0x9E3779B97F4A7C15)
		}
		b := filter.NewFilterBlock(g.Finish())
		for i := uint64(0); i < n; i++ {
			if !b.Test(i * 0x9E3779B97F4A7C15) {
				t.Fatal(n, i)
			}
		}
	}''')),
 dict(id="l03", property="L03", edits=[("encoding/base8.go", "	dst[12] = encoding[(id[7]<<1)&0x1F]\n", "	dst[12] = encoding[(id[7]<<1)&0x0F]\n")],
  needs="an identifier with one certain bit set",
  breaks="the identifier is read back with that bit cleared",
  demo=T(["bytes", "testing", U+"encoding"], '''
	for i := 0; i < 256; i++ {
		id, text, back := []byte{1, 2, 3, 4, 5, 6, 7, byte(i)}, make([]byte, 13), make([]byte, 8)
		encoding.Encode8(text, id)
		encoding.Decode8(back, text)
		if !bytes.Equal(back, id) {
			t.Fatal(id, back)
		}
	}''')),
 dict(id="l04", property="L04", edits=[("crypto/mac.go", "	//Copy first 4 bytes epoch from source\n	nonce := append(append(append([]byte{}, m.salt...), src[:EpochSize]...), sig...)\n", "	//Copy first 4 bytes epoch from source\n	nonce := append(append(m.salt[:4:cap(m.salt)], src[:EpochSize]...), sig...)\n"), ("crypto/mac.go", "	mac.salt = make([]byte, 4)\n", "	mac.salt = make([]byte, 4, 12)\n")],
  needs="two goroutines that encrypt with the same cipher at once",
  breaks="the nonce is shared, so that what one goroutine encrypts cannot be decrypted",
  demo=T(["bytes", "sync", "testing", U+"crypto"], '''
	m, err := crypto.New([]byte("4BWm1vZletvrCDGWsF6mex8oBSd59m6I"))
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 50000; k++ {
				src := []byte{byte(i), byte(k), byte(k >> 8), 1, 2, 3, 4, byte(i)}
				if out, err := m.Decrypt(nil, m.Encrypt(nil, src)); err != nil || !bytes.Equal(out, src) {
					t.Error(i, k, err)
					return
				}
			}
		}()
	}
	wg.Wait()''')),
]
