//go:build go1.25

package srv

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/gorilla/websocket"
	"github.com/unit-io/unitdb/server/common"
	snet "github.com/unit-io/unitdb/server/internal/net"
	"github.com/unit-io/unitdb/server/internal/net/listener"
	pbx "github.com/unit-io/unitdb/server/proto"
	"github.com/unit-io/unitdb/server/zzverif/vh"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/hpack"
	"google.golang.org/grpc/metadata"
)

// fakeStream is one end of a gRPC stream: messages are marshalled and delivered in order.
type fakeStream struct {
	in, out chan []byte
	busy    sync.Mutex
	once    sync.Once
}

func (s *fakeStream) Context() context.Context     { return context.Background() }
func (s *fakeStream) Header() (metadata.MD, error) { return nil, nil }
func (s *fakeStream) Trailer() metadata.MD         { return nil }
func (s *fakeStream) CloseSend() error {
	s.once.Do(func() { close(s.out) })
	return nil
}

func (s *fakeStream) SendMsg(m interface{}) error {
	if !s.busy.TryLock() {
		return errors.New("concurrent calls of SendMsg")
	}
	defer s.busy.Unlock()
	b, err := proto.Marshal(m.(proto.Message))
	if err != nil {
		return err
	}
	s.out <- b
	return nil
}

func (s *fakeStream) RecvMsg(m interface{}) error {
	b, ok := <-s.in
	if !ok {
		return io.EOF
	}
	m.(proto.Message).Reset()
	return proto.Unmarshal(b, m.(proto.Message))
}

// WCase is what two peers write to a connection over a stream of messages.
type WCase struct {
	Web    bool     `json:"web"`
	Chunk  int      `json:"chunk"` // size of the messages, 0 for those of the server
	Writes [2][]int `json:"writes"`
	Par    int      `json:"par"` // writers on each side
	Seed   int64    `json:"seed"`
}

func genConn(r *rand.Rand, tier string, n int) WCase {
	c := WCase{Web: r.Intn(4) == 0, Par: 1 + r.Intn(3), Seed: r.Int63()}
	if r.Intn(2) == 0 {
		c.Chunk = 1 + r.Intn(1<<uint(1+r.Intn(12)))
	}
	for s := range c.Writes {
		for i := r.Intn(10); i > 0; i-- {
			n := r.Intn(1 << uint(r.Intn(14)))
			if r.Intn(100) == 0 {
				n = 1<<19 + r.Intn(3) - 1
			}
			if c.Chunk > 0 && n > c.Chunk*500 {
				n = c.Chunk * 500
			}
			c.Writes[s] = append(c.Writes[s], n)
		}
	}
	return c
}

// record is a write: its number, its length and bytes that follow from both.
func record(side, i, n int) []byte {
	b := make([]byte, 9+n)
	b[0] = byte(side)
	binary.BigEndian.PutUint32(b[1:], uint32(i))
	binary.BigEndian.PutUint32(b[5:], uint32(n))
	for k := 0; k < n; k++ {
		b[9+k] = byte(k*7 + i*13 + side + k>>8)
	}
	return b
}

var sockets atomic.Int64

func runConnIO(in *vh.Info, c WCase) error {
	var ends [2]net.Conn
	if c.Web {
		acc := make(chan net.Conn, 1)
		hs := snet.NewHttpServer()
		hs.Handler = func(c net.Conn) { acc <- c }
		name := fmt.Sprintf("@zz-%d-%d", os.Getpid(), sockets.Add(1)) // a unix socket, there are not enough ports
		l, err := net.Listen("unix", name)
		if err != nil {
			return nil
		}
		srv := &http.Server{Handler: http.HandlerFunc(hs.HandleFunc)}
		go srv.Serve(l)
		defer srv.Close()
		d := websocket.Dialer{NetDial: func(string, string) (net.Conn, error) { return net.Dial("unix", name) }}
		ws, _, err := d.Dial("ws://host/", nil)
		if err != nil {
			return fmt.Errorf("websocket: %v", err)
		}
		ends[0] = snet.WebSocketConn(ws)
		ends[1] = <-acc
		defer ends[0].Close()
		defer ends[1].Close()
		in.Hit("websocket")
	} else {
		a, b := make(chan []byte, 3), make(chan []byte)
		ends[0] = snet.StreamConn(&fakeStream{in: a, out: b})
		ends[1] = snet.StreamConn(&fakeStream{in: b, out: a})
		in.Hit("grpc")
	}
	if c.Chunk > 0 {
		f := common.ChunkedEncoder(common.Encode(func(m proto.Message) *[]byte { return &m.(*pbx.Packet).Data }), c.Chunk)
		for _, e := range ends {
			switch e := e.(type) {
			case *common.Conn:
				e.Encode = f
			case *snet.Conn:
				e.Encode = f
			}
		}
		in.Hit("chunked")
	}
	return bounded(func() error {
		var wg sync.WaitGroup
		errs := make(chan error, 20)
		for side := range ends {
			var ww sync.WaitGroup
			for g := 0; g < c.Par; g++ {
				ww.Add(1)
				go func() {
					defer ww.Done()
					for i, n := range c.Writes[side] {
						if i%c.Par != g {
							continue
						}
						b := record(side, i, n)
						k, err := ends[side].Write(b)
						if err != nil || k != len(b) {
							errs <- fmt.Errorf("side %d: a write of %d bytes returns %d, %v", side, len(b), k, err)
							return
						}
					}
				}()
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				ww.Wait()
				if !c.Web {
					ends[side].Close()
				}
			}()
			wg.Add(1)
			go func() { // reader of the other side
				defer wg.Done()
				r := rand.New(rand.NewSource(c.Seed + int64(side)))
				total := 0
				for _, n := range c.Writes[side] {
					total += 9 + n
				}
				var got bytes.Buffer
				for !c.Web || got.Len() < total {
					p := make([]byte, 1+r.Intn(1<<uint(1+r.Intn(15))))
					n, err := ends[1-side].Read(p)
					if n < 0 || n > len(p) {
						errs <- fmt.Errorf("a read into %d bytes returns %d", len(p), n)
						return
					}
					got.Write(p[:n])
					if err == io.EOF && !c.Web {
						break
					}
					if err != nil {
						errs <- fmt.Errorf("read: %v", err)
						return
					}
				}
				b := got.Bytes()
				if len(b) != total {
					errs <- fmt.Errorf("side %d wrote %d bytes, %d are read", side, total, len(b))
					return
				}
				seen := map[int]bool{}
				lastOf := map[int]int{}
				for len(b) > 0 {
					if len(b) < 9 {
						errs <- fmt.Errorf("side %d: the bytes read are not those written", side)
						return
					}
					i, n := int(binary.BigEndian.Uint32(b[1:])), int(binary.BigEndian.Uint32(b[5:]))
					if i >= len(c.Writes[side]) || seen[i] || n != c.Writes[side][i] || len(b) < 9+n || !bytes.Equal(b[:9+n], record(side, i, n)) {
						errs <- fmt.Errorf("side %d: the bytes of write %d are not read as they were written", side, i)
						return
					}
					if l, ok := lastOf[i%c.Par]; ok && l > i {
						errs <- fmt.Errorf("side %d: write %d is read after write %d", side, i, l)
						return
					}
					lastOf[i%c.Par] = i
					seen[i] = true
					b = b[9+n:]
				}
			}()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case err := <-errs:
			return err
		}
		select {
		case err := <-errs:
			return err
		default:
		}
		if len(c.Writes[0])+len(c.Writes[1]) > 3 {
			in.NonTrivial()
		}
		return nil
	})
}

func shrinkConn(c WCase) (out []WCase) {
	for s := range c.Writes {
		for _, w := range vh.Chunks(c.Writes[s]) {
			d := c
			d.Writes[s] = w
			out = append(out, d)
		}
		for i, n := range c.Writes[s] {
			if n > 0 {
				d := c
				d.Writes[s] = append([]int(nil), c.Writes[s]...)
				d.Writes[s][i] = n / 2
				out = append(out, d)
			}
		}
	}
	if c.Par > 1 {
		d := c
		d.Par = 1
		out = append(out, d)
	}
	return
}

// LCase is a listener that sorts connections by their first bytes.
type LCase struct {
	Protos [][]string `json:"protos"` // prefixes of the protocols, in order
	CT     string     `json:"ct"`     // content type served last but one
	Any    bool       `json:"any"`    // the last protocol takes everything
	Conns  []LConn    `json:"conns"`
	Seed   int64      `json:"seed"`
	Wait   bool       `json:"wait"` // with a read timeout
}

// LConn is a connection: what is sent.
type LConn struct {
	Head  string `json:"head"`
	N     int    `json:"n"`
	Frame string `json:"frame"` // content type of a HTTP/2 request
	Text  bool   `json:"text"`
}

var heads = []string{"GET", "GET / HTTP/1.1\r\n", "G", "GE", "GEX", "PUT", "PUSH x", "POST", "PO", "P", "", "\x05\x08\x01", "GETX", "get", "\x00"}

func genListen(r *rand.Rand, tier string, n int) LCase {
	c := LCase{Any: r.Intn(3) > 0, Seed: r.Int63(), Wait: r.Intn(2) == 0}
	for i := r.Intn(3); i > 0; i-- {
		var p []string
		for k := 1 + r.Intn(4); k > 0; k-- {
			if h := heads[r.Intn(len(heads))]; h != "" {
				p = append(p, h)
			}
		}
		if len(p) > 0 {
			c.Protos = append(c.Protos, p)
		}
	}
	if r.Intn(2) == 0 {
		c.CT = "application/grpc"
	}
	for i := 1 + r.Intn(5); i > 0; i-- {
		l := LConn{Head: heads[r.Intn(len(heads))], N: r.Intn(1 << uint(r.Intn(13)))}
		if r.Intn(4) == 0 {
			l.Frame = []string{"application/grpc", "application/json", "application/grpcx"}[r.Intn(3)]
		}
		c.Conns = append(c.Conns, l)
	}
	return c
}

func (l LConn) bytes() []byte {
	if l.Frame != "" {
		var b bytes.Buffer
		b.WriteString(http2.ClientPreface)
		fr := http2.NewFramer(&b, nil)
		fr.WriteSettings()
		if l.N%3 == 0 {
			fr.WriteSettingsAck()
		}
		var h bytes.Buffer
		enc := hpack.NewEncoder(&h)
		for _, f := range []hpack.HeaderField{{Name: ":method", Value: "POST"}, {Name: "te", Value: "trailers"}, {Name: "content-type", Value: l.Frame}, {Name: "x", Value: strings.Repeat("y", l.N%50)}} {
			enc.WriteField(f)
		}
		hb := h.Bytes()
		if l.N%2 == 0 {
			fr.WriteHeaders(http2.HeadersFrameParam{StreamID: 1, BlockFragment: hb, EndHeaders: true})
		} else {
			cut := 1 + l.N%(len(hb)-1)
			fr.WriteHeaders(http2.HeadersFrameParam{StreamID: 1, BlockFragment: hb[:cut]})
			fr.WriteContinuation(1, true, hb[cut:])
		}
		fr.WriteData(1, true, bytes.Repeat([]byte("d"), l.N))
		return b.Bytes()
	}
	b := []byte(l.Head)
	for i := 0; i < l.N; i++ {
		b = append(b, byte(i*11+i>>8))
	}
	return b
}

func runListen(in *vh.Info, c LCase) error {
	// an address of its own, as closed connections keep their ports for a while.
	n := sockets.Add(1)
	l, err := listener.New(fmt.Sprintf("127.%d.%d.%d:0", 1+os.Getpid()%250, n/250%250, 1+n%250))
	if err != nil {
		if l, err = listener.New("127.0.0.1:0"); err != nil {
			return nil
		}
	}
	if c.Wait {
		l.SetReadTimeout(20 * time.Second)
	}
	type got struct {
		proto int
		b     []byte
		err   error
		reply error
	}
	res := make(chan got, 64)
	var wg sync.WaitGroup
	serve := func(i int) func(l net.Listener) error {
		wg.Add(1)
		return func(l net.Listener) error {
			defer wg.Done()
			for {
				conn, err := l.Accept()
				if err != nil {
					return err
				}
				go func() {
					defer conn.Close()
					r := rand.New(rand.NewSource(c.Seed))
					var b bytes.Buffer
					var err error
					for err == nil {
						p := make([]byte, 1+r.Intn(1<<uint(1+r.Intn(12))))
						var n int
						n, err = conn.Read(p)
						b.Write(p[:n])
					}
					_, werr := conn.Write([]byte{byte(i)})
					res <- got{i, b.Bytes(), err, werr}
				}()
			}
		}
	}
	type m func([]byte) bool
	var protos []m
	for i, p := range c.Protos {
		l.ServeCallback(listener.MatchWS(p...), serve(i))
		protos = append(protos, func(b []byte) bool {
			for _, x := range p {
				if bytes.HasPrefix(b, []byte(x)) {
					return true
				}
			}
			return false
		})
	}
	if c.CT != "" {
		l.ServeCallback(listener.MatchCT(c.CT), serve(len(protos)))
		protos = append(protos, nil)
	}
	if c.Any {
		l.ServeCallback(listener.MatchAny(), serve(len(protos)))
		protos = append(protos, func([]byte) bool { return true })
	}
	serveDone := make(chan error, 1)
	go func() { serveDone <- l.Serve() }()
	err = bounded(func() error {
		for n, lc := range c.Conns {
			b := lc.bytes()
			want := -1
			for i, f := range protos {
				if f == nil && lc.Frame == c.CT || f != nil && f(b) {
					want = i
					break
				}
			}
			conn, err := net.Dial("tcp", l.Addr().String())
			if errors.Is(err, syscall.EADDRNOTAVAIL) || errors.Is(err, syscall.EMFILE) {
				return nil
			}
			if err != nil {
				return fmt.Errorf("connection %d: the listener does not accept: %v", n, err)
			}
			r := rand.New(rand.NewSource(c.Seed + int64(n)))
			for len(b) > 0 {
				k := 1 + r.Intn(1<<uint(1+r.Intn(12)))
				if k > len(b) {
					k = len(b)
				}
				if _, err := conn.Write(b[:k]); err != nil {
					break // refused
				}
				if r.Intn(8) == 0 {
					time.Sleep(time.Millisecond)
				}
				b = b[k:]
			}
			conn.(*net.TCPConn).CloseWrite()
			reply, rerr := io.ReadAll(conn)
			conn.Close()
			b = lc.bytes()
			if want < 0 {
				in.Hit("refused")
				if len(reply) > 0 {
					return fmt.Errorf("connection %d starting with %.20q is served by protocol %d, it matches none", n, b, reply[0])
				}
				continue
			}
			if rerr != nil || len(reply) != 1 {
				return fmt.Errorf("connection %d starting with %.20q is not served (%v), it matches protocol %d", n, b, rerr, want)
			}
			g := <-res
			if g.proto != want {
				return fmt.Errorf("connection %d starting with %.20q is served by protocol %d instead of %d", n, b, g.proto, want)
			}
			if g.err != io.EOF || !bytes.Equal(g.b, b) {
				return fmt.Errorf("connection %d: %d bytes were sent and %d are read (%v)", n, len(b), len(g.b), g.err)
			}
			if want > 0 {
				in.NonTrivial()
			}
			in.Hit("served")
		}
		return nil
	})
	l.Close()
	if err != nil {
		return err
	}
	return bounded(func() error {
		<-serveDone
		wg.Wait()
		return nil
	})
}

func shrinkListen(c LCase) (out []LCase) {
	for _, x := range vh.Chunks(c.Conns) {
		d := c
		d.Conns = x
		out = append(out, d)
	}
	for _, x := range vh.Chunks(c.Protos) {
		d := c
		d.Protos = x
		out = append(out, d)
	}
	return
}
