package sim

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"time"

	"verif/harness/vsync"
)

var (
	errInjected = errors.New("injected i/o failure")
	errStore    = errors.New("injected storage failure")
)

type mark struct {
	end int
	pkt map[string]any
}

// fault makes the n-th write from now fail after k bytes (k < 0: after all bytes got through).
type fault struct {
	n, k int
	soft bool // the connection survives
	cx   bool // the context of the latest call ends at that moment
	ms   int  // the write is held up for that long after k bytes, and fails only if its deadline comes first
}

// Conn is the client's end of a scripted network connection.
type Conn struct {
	w   *World
	idx int

	mu       sync.Mutex
	in       []byte
	off      int
	marks    []mark
	held     []byte
	eof      bool
	broken   bool
	closed   bool
	rdl, wdl time.Time
	wake     chan struct{}
	faults   []fault
	rfault   bool
	cfault   bool // closing reports an error

	out      []byte
	outFirst int // trace index of the first byte in out
	dead     bool
	partial  bool
	last     time.Time
	stall    time.Time // a write is held up until then
}

func newConn(w *World, idx int) *Conn {
	return &Conn{w: w, idx: idx, wake: make(chan struct{})}
}

func (c *Conn) ping() {
	close(c.wake)
	c.wake = make(chan struct{})
}

// deliver makes bytes available to the client; the packet counts as received when its last byte was read.
func (c *Conn) deliver(b []byte, pkt map[string]any, hold int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if hold > 0 && hold < len(b) {
		c.held = append(c.held, b[hold:]...)
		c.marks = append(c.marks, mark{end: len(c.in) + len(b), pkt: pkt})
		c.in = append(c.in, b[:hold]...)
	} else {
		c.in = append(c.in, b...)
		if pkt != nil {
			c.marks = append(c.marks, mark{end: len(c.in), pkt: pkt})
		}
	}
	c.ping()
}

func (c *Conn) rest(n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if n <= 0 || n > len(c.held) {
		n = len(c.held)
	}
	c.in = append(c.in, c.held[:n]...)
	c.held = c.held[n:]
	c.ping()
}

func (c *Conn) hangup() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.eof = true
	c.ping()
}

func (c *Conn) unread() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return !c.closed && (c.off < len(c.in) || c.eof)
}

func (c *Conn) Read(b []byte) (int, error) {
	vsync.Point("read")
	for {
		c.mu.Lock()
		if c.closed {
			c.mu.Unlock()
			return 0, net.ErrClosed
		}
		if len(b) == 0 {
			c.mu.Unlock()
			return 0, nil
		}
		now := time.Now()
		if !c.rdl.IsZero() && !now.Before(c.rdl) {
			c.mu.Unlock()
			return 0, os.ErrDeadlineExceeded
		}
		if c.rfault && c.off == len(c.in) {
			c.broken = true
		}
		if c.off < len(c.in) {
			n := len(c.in) - c.off
			switch s := c.w.sc.Seg; {
			case s > 0:
				n = min(n, s)
			case s < 0:
				n = min(n, 1+c.w.rng.Intn(-s))
			}
			n = copy(b, c.in[c.off:c.off+n])
			c.off += n
			var got []map[string]any
			for len(c.marks) > 0 && c.marks[0].end <= c.off {
				if c.marks[0].pkt != nil {
					got = append(got, c.marks[0].pkt)
				}
				c.marks = c.marks[1:]
			}
			c.mu.Unlock()
			for _, p := range got {
				ev := map[string]any{}
				for k, v := range p {
					ev[k] = v
				}
				ev["e"] = "rx"
				ev["c"] = c.idx
				c.w.log(ev)
			}
			return n, nil
		}
		if c.broken {
			c.mu.Unlock()
			return 0, errInjected
		}
		if c.eof {
			c.mu.Unlock()
			return 0, io.EOF
		}
		wake := c.wake
		var tc <-chan time.Time
		var tm *time.Timer
		if !c.rdl.IsZero() {
			tm = time.NewTimer(c.rdl.Sub(now))
			tc = tm.C
		}
		c.mu.Unlock()
		select {
		case <-wake:
		case <-tc:
		}
		if tm != nil {
			tm.Stop()
		}
		vsync.Point("readwake")
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	vsync.Point("write")
	c.mu.Lock()
	switch {
	case c.closed:
		c.mu.Unlock()
		return 0, net.ErrClosed
	case c.broken:
		c.mu.Unlock()
		return 0, errInjected
	case !c.wdl.IsZero() && !time.Now().Before(c.wdl):
		c.mu.Unlock()
		return 0, os.ErrDeadlineExceeded
	}
	f := fault{k: len(b)}
	hit := false
	for i := range c.faults {
		c.faults[i].n--
		if c.faults[i].n == 0 {
			hit = true
			f = c.faults[i]
		}
	}
	c.mu.Unlock()
	if !hit {
		if c.w.sc.Mode == "conc" && len(b) > 1 {
			h := 1 + c.w.rng.Intn(len(b)-1)
			c.accept(b[:h])
			vsync.Point("write2")
			c.mu.Lock()
			bad := c.closed || c.broken
			c.mu.Unlock()
			if bad {
				return h, net.ErrClosed
			}
			c.accept(b[h:])
		} else {
			c.accept(b)
		}
		return len(b), nil
	}
	k := f.k
	if k < 0 || k > len(b) {
		k = len(b)
	}
	c.accept(b[:k])
	if f.ms > 0 && c.holdUp(f.ms) {
		c.accept(b[k:])
		return len(b), nil
	}
	c.partial = k > 0 && k < len(b)
	c.w.log(map[string]any{"e": "wfail", "c": c.idx, "k": k, "n": len(b), "soft": f.soft})
	if f.cx {
		c.w.cancelLatest()
	}
	if f.soft {
		return k, os.ErrDeadlineExceeded
	}
	c.mu.Lock()
	c.broken = true
	c.ping()
	c.mu.Unlock()
	return k, errInjected
}

// holdUp keeps a write waiting; it returns false if the write's deadline comes first.
func (c *Conn) holdUp(ms int) bool {
	until := time.Now().Add(time.Duration(ms) * time.Millisecond)
	c.mu.Lock()
	ok := c.wdl.IsZero() || c.wdl.After(until)
	if !ok {
		until = c.wdl
	}
	c.stall = until
	c.mu.Unlock()
	time.Sleep(time.Until(until))
	vsync.Point("writewake")
	c.mu.Lock()
	c.stall = time.Time{}
	c.mu.Unlock()
	return ok
}

// accept takes client bytes as the server sees them.
func (c *Conn) accept(b []byte) {
	if c.dead || len(b) == 0 {
		return
	}
	if c.partial && len(c.out) > 0 {
		c.dead = true
		c.w.log(map[string]any{"e": "txbad", "c": c.idx})
		return
	}
	if len(c.out) == 0 {
		c.outFirst = c.w.len()
	}
	c.out = append(c.out, b...)
	for len(c.out) > 0 {
		p, n, err := parseClient(c.out)
		if err != nil {
			c.dead = true
			c.w.log(map[string]any{"e": "txbad", "c": c.idx})
			return
		}
		if n == 0 {
			return
		}
		rest := c.out[n:]
		first := c.outFirst
		c.out = rest
		c.outFirst = c.w.len()
		c.w.onTx(c, p, first)
	}
}

func (c *Conn) Close() error {
	vsync.Point("close")
	c.mu.Lock()
	was := c.closed
	c.closed = true
	torn := len(c.out) > 0 && !c.broken && !c.dead && !c.partial
	c.ping()
	c.mu.Unlock()
	if was {
		return net.ErrClosed
	}
	if torn {
		c.w.log(map[string]any{"e": "txbad", "c": c.idx})
	}
	c.w.log(map[string]any{"e": "close", "c": c.idx})
	if c.cfault {
		return errInjected
	}
	return nil
}

type addr struct{}

func (addr) Network() string         { return "sim" }
func (addr) String() string          { return "sim" }
func (c *Conn) LocalAddr() net.Addr  { return addr{} }
func (c *Conn) RemoteAddr() net.Addr { return addr{} }
func (c *Conn) SetDeadline(t time.Time) error {
	return c.setdl(t, true, true)
}
func (c *Conn) SetReadDeadline(t time.Time) error  { return c.setdl(t, true, false) }
func (c *Conn) SetWriteDeadline(t time.Time) error { return c.setdl(t, false, true) }

func (c *Conn) setdl(t time.Time, r, w bool) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	if r {
		c.rdl = t
	}
	if w {
		c.wdl = t
	}
	c.ping()
	return nil
}
