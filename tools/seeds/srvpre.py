PRE = '''//go:build go1.25

package zzdemo

import (
	"encoding/json"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"

	"github.com/unit-io/unitdb/server/internal"
	"github.com/unit-io/unitdb/server/internal/config"
	"github.com/unit-io/unitdb/server/internal/message/security"
	lp "github.com/unit-io/unitdb/server/internal/net"
	"github.com/unit-io/unitdb/server/internal/pkg/crypto"
	"github.com/unit-io/unitdb/server/internal/pkg/uid"
	"github.com/unit-io/unitdb/server/utp"
)

var _ = strings.Repeat
var _ = security.AllowRead
var _ = fmt.Sprint

const conf = `{"key":"4BWm1vZletvrCDGWsF6mex8oBSd59m6I"}`

type server struct {
	accept func(net.Conn)
	close  func()
	varz   func() (*internal.Varz, error)
	mac    *crypto.MAC
}

func serve(t *testing.T, dir string) *server {
	t.Helper()
	cfg := &config.Config{EncryptionConfig: json.RawMessage(conf), DBPath: dir, StoreConfig: json.RawMessage(`{"reset":false,"adapters":{"unitdb":{"database":"unitdb","mem_size":1048576}}}`)}
	s, err := internal.NewService(cfg)
	if err != nil {
		t.Fatal(err)
	}
	var k struct{ Key string }
	json.Unmarshal([]byte(conf), &k)
	mac, err := crypto.New([]byte(k.Key))
	if err != nil {
		t.Fatal(err)
	}
	v := reflect.ValueOf(s).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == reflect.TypeOf((*lp.TcpServer)(nil)) {
			h := *(**lp.TcpServer)(unsafe.Pointer(f.UnsafeAddr()))
			return &server{func(c net.Conn) { h.Handler(c) }, s.Close, s.Varz, mac}
		}
	}
	t.Fatal("no TCP server")
	return nil
}

func ident(t *testing.T, contract uint32) uid.ID {
	id, err := uid.NewClientID(1)
	if err != nil {
		t.Fatal(err)
	}
	id.SetContract(contract)
	return id
}

var epoch uint32 // each connection has its own

type client struct {
	mu       sync.Mutex
	c        net.Conn
	auto     bool
	got      []string // topic=payload
	at       []time.Time
	notified []uint16
	acks     int
	connack  *utp.ConnectAcknowledge
}

// dial connects; settings of the connect packet can be changed by f.
func dial(t *testing.T, s *server, id uid.ID, auto bool, f func(*utp.Connect)) *client {
	t.Helper()
	a, b := net.Pipe()
	cl := &client{c: a, auto: auto}
	go func() {
		for {
			m, err := lp.Read(a)
			if err != nil {
				return
			}
			cl.mu.Lock()
			switch m := m.(type) {
			case *utp.ControlMessage:
				switch {
				case m.FlowControl == utp.ACKNOWLEDGE && m.MessageType == utp.CONNECT:
					cl.connack = &utp.ConnectAcknowledge{}
					cl.connack.FromBinary(utp.FixedHeader{MessageType: utp.CONNECT, FlowControl: utp.ACKNOWLEDGE}, m.Message)
				case m.FlowControl == utp.ACKNOWLEDGE:
					cl.acks++
				case m.FlowControl == utp.NOTIFY:
					cl.notified = append(cl.notified, m.MessageID)
					if cl.auto {
						go cl.flow(utp.RECEIVE, m.MessageID)
					}
				}
			case *utp.Publish:
				for _, p := range m.Messages {
					cl.got = append(cl.got, p.Topic+"="+string(p.Payload))
					cl.at = append(cl.at, time.Now())
				}
				if cl.auto {
					go cl.flow(utp.RECEIPT, m.MessageID)
				}
			}
			cl.mu.Unlock()
		}
	}()
	s.accept(b)
	epoch++
	id = append(uid.ID(nil), id...)
	id.SetEpoch(0xE0000000 + epoch)
	m := &utp.Connect{Version: 1, ClientID: id.Encode(s.mac), KeepAlive: 60, Username: "u", InsecureFlag: true, BatchDuration: 100, BatchByteThreshold: 1 << 20, BatchCountThreshold: 1000}
	if f != nil {
		f(m)
	}
	cl.pack(m)
	wait()
	return cl
}

func (cl *client) pack(m lp.MessagePack) {
	b, err := m.ToBinary()
	if err != nil {
		panic(err)
	}
	cl.c.Write(b.Bytes())
}

func (cl *client) flow(f utp.FlowControl, id uint16) {
	cl.pack(&utp.ControlMessage{MessageType: utp.PUBLISH, FlowControl: f, MessageID: id})
}

func (cl *client) subscribe(mode uint8, delay int32, topics ...string) {
	m := &utp.Subscribe{MessageID: 1}
	for _, x := range topics {
		m.Subscriptions = append(m.Subscriptions, &utp.Subscription{Topic: x, DeliveryMode: mode, Delay: delay})
	}
	cl.pack(m)
	wait()
}

func (cl *client) unsubscribe(topics ...string) {
	m := &utp.Unsubscribe{MessageID: 2}
	for _, x := range topics {
		m.Subscriptions = append(m.Subscriptions, &utp.Subscription{Topic: x})
	}
	cl.pack(m)
	wait()
}

func (cl *client) publish(mode uint8, topic, payload string) {
	cl.pack(&utp.Publish{MessageID: 3, DeliveryMode: mode, Messages: []*utp.PublishMessage{{Topic: topic, Payload: []byte(payload)}}})
	wait()
}

func (cl *client) relay(last string, topics ...string) {
	m := &utp.Relay{MessageID: 4}
	for _, x := range topics {
		m.RelayRequests = append(m.RelayRequests, &utp.RelayRequest{Topic: x, Last: last})
	}
	cl.pack(m)
	wait()
}

// count tells how often a message came.
func (cl *client) count(m string) (n int) {
	cl.mu.Lock()
	defer cl.mu.Unlock()
	for _, g := range cl.got {
		if g == m {
			n++
		}
	}
	return
}

func (cl *client) told() []uint16 {
	cl.mu.Lock()
	defer cl.mu.Unlock()
	return append([]uint16(nil), cl.notified...)
}

func wait() { time.Sleep(150 * time.Millisecond) }

func dir(t *testing.T) string { return filepath.Join(os.Getenv("DEMO_DIR"), "db") }
'''
