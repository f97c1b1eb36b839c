//go:build go1.25

package srv

import (
	"bufio"
	"encoding/json"
	"fmt"
	"github.com/unit-io/unitdb/server/zzverif/vh"
	"net"
	"reflect"
	"sync"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/unit-io/unitdb/server/internal"
	"github.com/unit-io/unitdb/server/internal/config"
	lp "github.com/unit-io/unitdb/server/internal/net"
	"github.com/unit-io/unitdb/server/internal/pkg/crypto"
	"github.com/unit-io/unitdb/server/utp"
)

const encryption = `{"key":"4BWm1vZletvrCDGWsF6mex8oBSd59m6I"}`

// server is a running service.
type server struct {
	accept func(net.Conn)
	close  func()
	varz   func() (*internal.Varz, error)
}

// serve starts the service on a directory; connections are handed to it as its TCP server does.
func serve(dir string, mem int) (*server, error) {
	cfg := &config.Config{EncryptionConfig: json.RawMessage(encryption), DBPath: dir, StoreConfig: json.RawMessage(storeConfig(mem))}
	s, err := internal.NewService(cfg)
	if err != nil {
		return nil, err
	}
	v := reflect.ValueOf(s).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == reflect.TypeOf((*lp.TcpServer)(nil)) {
			t := *(**lp.TcpServer)(unsafe.Pointer(f.UnsafeAddr()))
			return &server{accept: func(c net.Conn) { t.Handler(c) }, close: s.Close, varz: s.Varz}, nil
		}
	}
	return nil, fmt.Errorf("the service has no TCP server")
}

func newMAC() *crypto.MAC {
	var k struct{ Key string }
	json.Unmarshal([]byte(encryption), &k)
	m, err := crypto.New([]byte(k.Key))
	if err != nil {
		panic(err)
	}
	return m
}

// event is a message in a packet that was received.
type event struct {
	mid     uint16
	topic   string
	payload string
	at      time.Time
}

// client is the other end of a connection. It answers notifications by itself if auto is set.
type client struct {
	mu       sync.Mutex
	c        net.Conn
	out      chan []byte
	auto     bool
	events   []event        // messages received
	acks     map[string]int // acknowledgements by type and identifier
	notified map[uint16]int // notifications
	complete map[uint16]int // completions
	waiting  map[uint16]bool
	connack  *utp.ConnectAcknowledge
	err      error // why reading ended
	closed   bool
	bad      error         // a packet that should not have come
	stall    chan struct{} // if set, reading waits for it
}

func dial(s *server, auto bool) *client {
	a, b := net.Pipe()
	cl := &client{c: a, out: make(chan []byte, 4000), auto: auto, acks: map[string]int{}, notified: map[uint16]int{}, complete: map[uint16]int{}, waiting: map[uint16]bool{}}
	go cl.write()
	go cl.read()
	s.accept(b)
	return cl
}

func (cl *client) write() {
	for b := range cl.out {
		if _, err := cl.c.Write(b); err != nil {
			for range cl.out {
			}
			return
		}
	}
}

// send queues bytes.
func (cl *client) send(b []byte) {
	defer func() { recover() }()
	cl.out <- b
}

func (cl *client) pack(m lp.MessagePack) {
	b, err := m.ToBinary()
	if err != nil {
		panic(err)
	}
	cl.send(b.Bytes())
}

func (cl *client) flow(f utp.FlowControl, id uint16) {
	cl.pack(&utp.ControlMessage{MessageType: utp.PUBLISH, FlowControl: f, MessageID: id})
}

func (cl *client) read() {
	r := bufio.NewReader(cl.c)
	for {
		m, err := lp.Read(r)
		if err != nil {
			cl.mu.Lock()
			cl.err, cl.closed = err, true
			cl.mu.Unlock()
			cl.c.Close()
			return
		}
		cl.mu.Lock()
		cl.handle(m)
		stall := cl.stall
		cl.mu.Unlock()
		if stall != nil {
			<-stall
		}
	}
}

func (cl *client) handle(m lp.MessagePack) {
	switch m := m.(type) {
	case *utp.ControlMessage:
		switch {
		case m.FlowControl == utp.ACKNOWLEDGE && m.MessageType == utp.CONNECT:
			if cl.connack != nil {
				cl.bad = fmt.Errorf("a second acknowledgement of connect")
			}
			cl.connack = &utp.ConnectAcknowledge{}
			cl.connack.FromBinary(utp.FixedHeader{MessageType: utp.CONNECT, FlowControl: utp.ACKNOWLEDGE}, m.Message)
		case m.FlowControl == utp.ACKNOWLEDGE:
			cl.acks[fmt.Sprint(m.MessageType, " ", m.MessageID)]++
		case m.FlowControl == utp.NOTIFY:
			cl.notified[m.MessageID]++
			if cl.auto {
				cl.waiting[m.MessageID] = true
				cl.flow(utp.RECEIVE, m.MessageID)
			}
		case m.FlowControl == utp.COMPLETE:
			cl.complete[m.MessageID]++
		default:
			cl.bad = fmt.Errorf("unexpected packet %s", short(m))
		}
	case *utp.Publish:
		for _, p := range m.Messages {
			cl.events = append(cl.events, event{m.MessageID, p.Topic, string(p.Payload), time.Now()})
		}
		if cl.waiting[m.MessageID] {
			delete(cl.waiting, m.MessageID)
			cl.flow(utp.RECEIPT, m.MessageID)
		}
	default:
		cl.bad = fmt.Errorf("unexpected packet %s", short(m))
	}
}

// hang ends the client without a word.
func (cl *client) hang() {
	cl.c.Close()
	func() {
		defer func() { recover() }()
		close(cl.out)
	}()
}

// settle waits until nothing moves, and a little more.
func settle() {
	synctest.Wait()
	if vh.Scheduled() {
		// goroutines sleep where another may go on
		time.Sleep(150 * time.Millisecond)
	}
	time.Sleep(137 * time.Microsecond)
	synctest.Wait()
}
