package mqtt_test

import (
	"context"
	"io"
	"net"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
)

// srv is the client's end of a connection whose server is the test.
type srv struct {
	mu     sync.Mutex
	in     []byte
	max    int // bytes per read, 0: all
	out    []byte
	closed bool
	eof    bool
	wfail  int // fail the write after this many bytes, -1: never
	dl     time.Time
	onTx   func(b []byte)
	onFail func()
}

func newSrv() *srv { return &srv{wfail: -1} }
func (s *srv) Read(b []byte) (int, error) {
	for {
		s.mu.Lock()
		switch {
		case s.closed:
			s.mu.Unlock()
			return 0, net.ErrClosed
		case !s.dl.IsZero() && !time.Now().Before(s.dl):
			s.mu.Unlock()
			return 0, os.ErrDeadlineExceeded
		case len(s.in) > 0:
			n := len(b)
			if s.max > 0 && n > s.max {
				n = s.max
			}
			n = copy(b[:n], s.in)
			s.in = s.in[n:]
			s.mu.Unlock()
			return n, nil
		case s.eof:
			s.mu.Unlock()
			return 0, io.EOF
		}
		s.mu.Unlock()
		time.Sleep(200 * time.Microsecond)
	}
}
func (s *srv) Write(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.closed {
		return 0, net.ErrClosed
	}
	if s.wfail >= 0 && s.wfail < len(b) {
		n := s.wfail
		s.wfail = 0
		s.out = append(s.out, b[:n]...)
		if s.onFail != nil {
			s.onFail()
		}
		return n, io.ErrClosedPipe
	}
	if s.onTx != nil {
		s.onTx(b)
	}
	s.out = append(s.out, b...)
	return len(b), nil
}
func (s *srv) Close() error                       { s.mu.Lock(); s.closed = true; s.mu.Unlock(); return nil }
func (s *srv) SetDeadline(t time.Time) error      { s.mu.Lock(); s.dl = t; s.mu.Unlock(); return nil }
func (s *srv) SetReadDeadline(t time.Time) error  { return s.SetDeadline(t) }
func (s *srv) SetWriteDeadline(t time.Time) error { return nil }
func (s *srv) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (s *srv) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (s *srv) feed(b ...byte)                     { s.mu.Lock(); s.in = append(s.in, b...); s.mu.Unlock() }
func (s *srv) isClosed() bool                     { s.mu.Lock(); defer s.mu.Unlock(); return s.closed }

// sent returns the packets written so far.
func (s *srv) sent() (r [][]byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	b := s.out
	for len(b) > 1 {
		n, k, m := 0, 1, 1
		for {
			if k >= len(b) {
				return append(r, b)
			}
			n += int(b[k]&127) * m
			m *= 128
			k++
			if b[k-1] < 128 {
				break
			}
		}
		if len(b) < k+n {
			return append(r, b)
		}
		r = append(r, append([]byte{}, b[:k+n]...))
		b = b[k+n:]
	}
	return
}

// of returns those of a type.
func (s *srv) of(kind byte) (r [][]byte) {
	for _, p := range s.sent() {
		if p[0]>>4 == kind {
			r = append(r, p)
		}
	}
	return
}

// wait waits until n packets of a type are written.
func (s *srv) wait(t *testing.T, kind byte, n int) [][]byte {
	t.Helper()
	for i := 0; i < 3000; i++ {
		if r := s.of(kind); len(r) >= n {
			return r
		}
		time.Sleep(time.Millisecond)
	}
	t.Fatalf("packet %d of type %d was not written", n, kind)
	return nil
}

func pkt(h byte, body ...byte) []byte { return append([]byte{h, byte(len(body))}, body...) }
func pub(qos, id int, topic string, payload string) []byte {
	b := append([]byte{0, byte(len(topic))}, topic...)
	if qos > 0 {
		b = append(b, byte(id>>8), byte(id))
	}
	b = append(b, 0)
	return pkt(0x30|byte(qos<<1), append(b, payload...)...)
}

// dial connects a client with the given CONNACK properties.
func dial(t *testing.T, cp *packets.Connect, props ...byte) (*mqtt.Client, *srv) {
	t.Helper()
	s := newSrv()
	c := mqtt.NewClient(s)
	connect(t, c, s, cp, props...)
	return c, s
}
func connect(t *testing.T, c *mqtt.Client, s *srv, cp *packets.Connect, props ...byte) {
	t.Helper()
	if cp == nil {
		cp = &packets.Connect{ClientId: "c"}
	}
	s.feed(pkt(0x20, append([]byte{0, 0, byte(len(props))}, props...)...)...)
	if err := c.Connect(context.Background(), cp); err != nil {
		t.Fatal("connect:", err)
	}
}
func after(d time.Duration) context.Context {
	ctx, _ := context.WithTimeout(context.Background(), d)
	return ctx
}
func poll(c *mqtt.Client) error { return c.Poll(after(30 * time.Millisecond)) }

// within fails the test when f takes longer than two seconds.
func within(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		t.Fatal(what, "hangs")
	}
}

// polling polls until the test ends.
func polling(t *testing.T, c *mqtt.Client) {
	stop := make(chan struct{})
	done := make(chan struct{})
	go func() {
		defer close(done)
		for {
			select {
			case <-stop:
				return
			default:
				c.Poll(after(5 * time.Millisecond))
				time.Sleep(100 * time.Microsecond)
			}
		}
	}()
	t.Cleanup(func() {
		close(stop)
		select {
		case <-done:
		case <-time.After(time.Second):
		}
	})
}
