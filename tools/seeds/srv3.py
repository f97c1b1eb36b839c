exec(open("/verif/tools/seeds/srvpre.py").read())
PRES = PRE.replace('	"github.com/unit-io/unitdb/server/internal/pkg/uid"\n', '	"github.com/unit-io/unitdb/server/internal/pkg/uid"\n	"github.com/unit-io/unitdb/server/internal/store"\n')
H = "server/internal/hdl_conn.go"
C = "server/internal/conn.go"
A = "server/internal/db/unitdb/adapter.go"
SEEDS = [
 dict(id="s26", property="S15", edits=[(H, "		binary.LittleEndian.PutUint32(rawSess[0:4], uint32(sessID))\n", "		binary.LittleEndian.PutUint32(rawSess[0:4], uint32(c.connID))\n")],
  needs="a reliable message that is still unanswered when the session is resumed for the second time",
  breaks="the session is stored under the number of the resuming connection, so the message is announced on the first resume only",
  demo=PRE+'''
func TestDemo(t *testing.T) {
	s := serve(t, dir(t))
	id := ident(t, 7)
	key := func(m *utp.Connect) { m.SessKey = 5 }
	p := dial(t, s, id, true, func(m *utp.Connect) { m.SessKey = 9 })
	a := dial(t, s, id, false, key)
	a.subscribe(1, 0, "x/a.b")
	p.publish(1, "x/a.b", "one")
	for i := 0; i < 3; i++ {
		if len(a.told()) != 1 {
			t.Fatal("not announced", i)
		}
		a.c.Close()
		wait()
		a = dial(t, s, id, false, key)
	}
}
'''),
 dict(id="s27", property="S19", edits=[
  (A, "	mem     *memdb.DB  // The underlying memdb to store messages.\n", "	mem     *memdb.DB  // The underlying memdb to store messages.\n	done    sync.Map   // The messages to delete on close.\n"),
  (A, "	if a.mem != nil {\n		err = a.mem.Close()\n", "	if a.mem != nil {\n		a.done.Range(func(k, _ interface{}) bool {\n			a.mem.Delete(k.(uint64))\n			a.done.Delete(k)\n			return true\n		})\n		err = a.mem.Close()\n"),
  (A, "func (a *adapter) PutMessage(key uint64, payload []byte) error {\n", "func (a *adapter) PutMessage(key uint64, payload []byte) error {\n	a.done.Delete(key)\n"),
  (A, "func (a *adapter) GetMessage(key uint64) (matches []byte, err error) {\n", "func (a *adapter) GetMessage(key uint64) (matches []byte, err error) {\n	if _, ok := a.done.Load(key); ok {\n		return nil, errors.New(\"message is deleted\")\n	}\n"),
  (A, "	return a.mem.Keys()\n", "	var keys []uint64\n	for _, k := range a.mem.Keys() {\n		if _, ok := a.done.Load(k); !ok {\n			keys = append(keys, k)\n		}\n	}\n	return keys\n"),
  (A, "	if err := a.mem.Delete(key); err != nil {\n		return err\n	}\n	return nil\n", "	a.done.Store(key, true)\n	return nil\n"),
  (A, '	"os"\n', '	"os"\n	"sync"\n')],
  needs="a reliable message that is confirmed, and a crash of the server before it is stopped",
  breaks="deletions are only written when the server is stopped, after a crash the confirmed message is announced again",
  demo=PRE+'''
func TestDemo(t *testing.T) {
	s := serve(t, dir(t))
	id := ident(t, 7)
	key := func(m *utp.Connect) { m.SessKey = 5 }
	p := dial(t, s, id, true, func(m *utp.Connect) { m.SessKey = 9 })
	a := dial(t, s, id, true, key)
	a.subscribe(1, 0, "x/a.b")
	p.publish(1, "x/a.b", "one")
	wait()
	if a.count("a.b=one") != 1 {
		t.Fatal("not sent")
	}
	time.Sleep(3 * time.Second)
	d := dir(t) + "2"
	copyAll(t, dir(t), d)
	s.close()
	s = serve(t, d)
	a = dial(t, s, id, false, key)
	wait()
	if len(a.told()) != 0 {
		t.Fatal("announced after it was confirmed")
	}
}

// copyAll copies the files as they are found by a server started after a crash.
func copyAll(t *testing.T, from, to string) {
	filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			t.Fatal(err)
		}
		q := filepath.Join(to, strings.TrimPrefix(p, from))
		if fi.IsDir() {
			return os.MkdirAll(q, 0777)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			t.Fatal(err)
		}
		return os.WriteFile(q, b, 0666)
	})
}
'''),
 dict(id="s28", property="S13", edits=[(C, "			store.Subscription.Delete(c.clientID.Contract(), stat.ID, stat.Topic)\n			// Decrement the subscription counter\n			c.service.meter.Subscriptions.Dec(1)\n", "			store.Subscription.Delete(c.clientID.Contract(), stat.ID, stat.Topic)\n			// Decrement the subscription counter\n			c.service.meter.Subscriptions.Dec(int64(stat.Counter))\n")],
  needs="a connection that subscribes twice to a topic and ends without unsubscribing",
  breaks="the repeated subscription is taken off twice, the reported number is too small",
  demo=PRE+'''
func TestDemo(t *testing.T) {
	s := serve(t, dir(t))
	id := ident(t, 7)
	o := dial(t, s, id, true, nil)
	o.subscribe(0, 0, "x/a.b")
	before, err := s.varz()
	if err != nil {
		t.Fatal(err)
	}
	a := dial(t, s, id, true, nil)
	a.subscribe(0, 0, "x/c.d")
	a.subscribe(0, 0, "x/c.d")
	a.c.Close()
	wait()
	after, err := s.varz()
	if err != nil {
		t.Fatal(err)
	}
	if before.Subscriptions != after.Subscriptions {
		t.Fatal(before.Subscriptions, after.Subscriptions)
	}
}
'''),
 dict(id="s29", property="S18", edits=[(H, "	var resp []*types.KeyGenResponse\n	// Use the cipher to generate the key\n	for _, m := range req {\n", "	resp := make([]*types.KeyGenResponse, 0, len(req))\n	log.ErrLogger.Debug().Str(\"context\", \"conn.onKeyGen\").Str(\"topic\", req[0].Topic).Msg(\"\")\n	// Use the cipher to generate the key\n	for _, m := range req {\n")],
  needs="a request for keys with an empty list",
  breaks="the server dies",
  demo=PRE+'''
func TestDemo(t *testing.T) {
	s := serve(t, dir(t))
	id := ident(t, 7)
	a := dial(t, s, id, true, nil)
	a.publish(0, "unitdb/keygen", "[]")
	b := dial(t, s, id, true, nil)
	b.pack(&utp.Pingreq{})
	wait()
	if b.acks != 1 {
		t.Fatal("no answer")
	}
}
'''),
 dict(id="s30", property="S11", edits=[(C, "			// Subscribe the subscriber\n			payload := make([]byte, 9)\n			payload[0] = uint8(sub.DeliveryMode)\n			binary.LittleEndian.PutUint32(payload[1:5], uint32(c.connID))\n", "			// Subscribe the subscriber\n			payload := make([]byte, 9)\n			payload[0] = uint8(sub.DeliveryMode)\n			binary.LittleEndian.PutUint16(payload[1:3], uint16(c.connID))\n			binary.LittleEndian.PutUint16(payload[3:5], uint16(uid.Next>>16))\n")],
  needs="a connection that is opened before the low 16 bits of the connection number overflow, and subscribes after it",
  breaks="the subscription is stored for a connection that does not exist",
  demo=PRE+'''
func TestDemo(t *testing.T) {
	s := serve(t, dir(t))
	uid.Next |= 0xFFFF
	uid.Next--
	id := ident(t, 7)
	a := dial(t, s, id, true, nil)
	b := dial(t, s, id, true, nil)
	a.subscribe(0, 0, "x/a.b")
	b.publish(0, "x/a.b", "one")
	if a.count("a.b=one") != 1 {
		t.Fatal("no message")
	}
}
'''),
 dict(id="s31", property="S05", edits=[("server/internal/pkg/uid/clientid.go", "	return id.Permissions() == AllowMaster\n", "	return id.Permissions() == AllowMaster || id.Epoch() > 0xF0000000\n")],
  needs="a secondary identity whose epoch is among the highest ones",
  breaks="the secondary identity is taken for a primary one",
  demo='''//go:build go1.25

package zzdemo

import (
	"testing"

	"github.com/unit-io/unitdb/server/internal/pkg/uid"
)

func TestDemo(t *testing.T) {
	id, err := uid.NewClientID(1)
	if err != nil {
		t.Fatal(err)
	}
	id, err = uid.NewSecondaryClientID(id)
	if err != nil {
		t.Fatal(err)
	}
	id.SetEpoch(0xFFFFFFF0)
	if id.IsPrimary() {
		t.Fatal("a secondary identity is primary")
	}
}
'''),
 dict(id="s32", property="S12", edits=[], skip=1, needs="", breaks="", demo=""),
 dict(id="s33", property="S10", edits=[("server/internal/store/store.go", "	return adp.Delete(contract^connStoreId, messageId, topic)\n", "	if i := strings.IndexByte(topic, '*'); i > 0 {\n		topic = topic[:i+1]\n	}\n	return adp.Delete(contract^connStoreId, messageId, topic)\n"),
   ("server/internal/store/store.go", '	"errors"\n', '	"errors"\n	"strings"\n')], skip=1,
  needs="", breaks="", demo=""),
 dict(id="s34", property="S16", edits=[("server/internal/batch.go", "		case <-publishC:\n			timeNow := timeID(TimeNow().UnixNano())\n			m.mu.Lock()\n			for timeID, batch := range m.batchGroup {\n				if timeID < timeNow {\n					m.push(batch)\n					delete(m.batchGroup, timeID)\n				}\n			}\n			m.mu.Unlock()\n", "		case <-publishC:\n			timeNow := timeID(TimeNow().UnixNano())\n			m.mu.Lock()\n			var due []*batch\n			for timeID, batch := range m.batchGroup {\n				if timeID < timeNow {\n					due = append(due, batch)\n					delete(m.batchGroup, timeID)\n				}\n			}\n			m.mu.Unlock()\n			for i, b := range due {\n				if i > 1 {\n					b.pubMessages = append(due[i-1].pubMessages, b.pubMessages...)\n				}\n				m.push(b)\n			}\n")],
  needs="three batches that are due at the same moment",
  breaks="the messages of the second batch are sent twice",
  demo=PRE+'''
func TestDemo(t *testing.T) {
	s := serve(t, dir(t))
	id := ident(t, 7)
	a := dial(t, s, id, true, func(m *utp.Connect) { m.BatchDuration = 1 })
	for i := 0; i < 12; i++ {
		a.subscribe(0, int32(600+i), fmt.Sprintf("x/a.b%d", i))
	}
	p := dial(t, s, id, true, nil)
	for k := 0; k < 2; k++ {
		for i := 0; i < 12; i++ {
			p.pack(&utp.Publish{MessageID: 3, Messages: []*utp.PublishMessage{{Topic: fmt.Sprintf("x/a.b%d", i), Payload: []byte(fmt.Sprint(k))}}})
		}
	}
	time.Sleep(12 * time.Second)
	for k := 0; k < 2; k++ {
		for i := 0; i < 12; i++ {
			if n := a.count(fmt.Sprintf("a.b%d=%d", i, k)); n != 1 {
				t.Fatal(i, k, n)
			}
		}
	}
}
'''),
 dict(id="s35", property="S14", edits=[(H, "	clientid, err := uid.NewSecondaryClientID(c.clientID)\n", "	clientid, err := uid.NewSecondaryClientID(c.clientID)\n	c.clientID.SetPermissions(uid.AllowNone)\n")], skip=1,
  needs="", breaks="", demo=""),
 dict(id="s36", property="S17", edits=[(H, "	if req.Last != \"\" {\n		msgs, err := store.Message.Get(c.clientID.Contract(), topic.Topic, req.Last)\n", "	if req.Last != \"\" {\n		msgs, err := store.Message.Get(c.clientID.Contract(), topic.Topic[:topic.Size], req.Last)\n")], skip=1, needs="", breaks="", demo=""),
 dict(id="s37", property="S02", edits=[], skip=1, needs="", breaks="", demo=""),
 dict(id="s38", property="S14", edits=[(H, "	//do not cache primary client Id\n	if !clientid.IsPrimary() {\n", "	// do not cache primary client Id\n	if primary := clientid.IsPrimary(); !primary {\n		key := key[len(key)-26:]\n"),
  (H, "	var clientid = uid.ID{}\n", "	var clientid = uid.ID{}\n	if len(clientID) >= 52 {\n		if id, ok := c.service.cache.Load(string(clientID[len(clientID)-26:])); ok {\n			return id.(uid.ID), nil\n		}\n	}\n")],
  needs="a secondary identity that was used before, forged in its first half",
  breaks="the forged identity is accepted",
  demo=PRE+'''
func TestDemo(t *testing.T) {
	s := serve(t, dir(t))
	id, err := uid.NewSecondaryClientID(ident(t, 7))
	if err != nil {
		t.Fatal(err)
	}
	text := id.Encode(s.mac)
	if a := dial(t, s, id, true, func(m *utp.Connect) { m.ClientID = text }); a.connack == nil || a.connack.ReturnCode != 0 {
		t.Fatal("refused")
	}
	if a := dial(t, s, id, true, func(m *utp.Connect) { m.ClientID = strings.Repeat("A", 26) + text[26:] }); a.connack != nil && a.connack.ReturnCode == 0 {
		t.Fatal("accepted")
	}
}
'''),
]
SEEDS = [s for s in SEEDS if not s.get("skip")]
