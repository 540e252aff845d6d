package wire

import (
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// piece is one packet of the server; the bytes at Pos (from 1) carry the identifier of the client's After-th request of that kind.
type piece struct {
	B     Runs   `json:"b"`
	Pos   int    `json:"pos"`
	Kind  string `json:"kind"`
	After int    `json:"after"`
}

// conn is the client's end of a scripted connection. Plan cuts the server's bytes into reads: (count, milliseconds to wait before).
type conn struct {
	mu     sync.Mutex
	in     []byte
	pos    int
	plan   [][2]int
	next   time.Time // when the current chunk arrives
	end    string    // what follows the last byte: eof, idle
	gates  []gate
	closed bool
	dl     time.Time
	wake   chan struct{}
	ids    map[string][]int
	pend   []byte
	note   func(rec)
	stall  bool
}
type gate struct {
	at, pos, after int
	kind           string
}

func newConn(pieces []piece, plan [][2]int, end string, note func(rec)) *conn {
	c := &conn{plan: append([][2]int{}, plan...), end: end, note: note, wake: make(chan struct{}), ids: map[string][]int{}}
	for _, p := range pieces {
		if p.Pos > 0 {
			c.gates = append(c.gates, gate{len(c.in), len(c.in) + p.Pos - 1, p.After, p.Kind})
		}
		c.in = append(c.in, p.B.Bytes()...)
	}
	if len(c.plan) > 0 {
		c.next = time.Now().Add(time.Duration(c.plan[0][1]) * time.Millisecond)
	}
	return c
}

func (c *conn) poke() {
	close(c.wake)
	c.wake = make(chan struct{})
}

func (c *conn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(b) == 0 {
		return 0, nil
	}
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		now := time.Now()
		if !c.dl.IsZero() && !now.Before(c.dl) {
			return 0, os.ErrDeadlineExceeded
		}
		limit, wait := len(c.in), time.Time{}
		for len(c.gates) > 0 && c.gates[0].after <= len(c.ids[c.gates[0].kind]) {
			g := c.gates[0]
			id := c.ids[g.kind][g.after-1]
			c.in[g.pos], c.in[g.pos+1] = byte(id>>8), byte(id)
			c.gates = c.gates[1:]
		}
		if len(c.gates) > 0 {
			limit = c.gates[0].at
		}
		if c.pos < limit {
			n := limit - c.pos
			if len(c.plan) > 0 {
				n = min(n, c.plan[0][0])
				wait = c.next
			}
			if !now.Before(wait) {
				n = min(n, len(b))
				copy(b, c.in[c.pos:c.pos+n])
				c.pos += n
				if len(c.plan) > 0 {
					if c.plan[0][0] -= n; c.plan[0][0] == 0 {
						c.plan = c.plan[1:]
						if len(c.plan) > 0 {
							c.next = now.Add(time.Duration(c.plan[0][1]) * time.Millisecond)
						}
					}
				}
				return n, nil
			}
		} else if c.pos == len(c.in) && c.end == "eof" {
			return 0, io.EOF
		}
		if !c.dl.IsZero() && (wait.IsZero() || c.dl.Before(wait)) {
			wait = c.dl
		}
		if wait.IsZero() {
			// nobody will ever end this read
			if c.stall {
				return 0, io.ErrNoProgress
			}
			wait = now.Add(24 * time.Hour)
			c.stall = true
		}
		w := c.wake
		t := time.NewTimer(wait.Sub(now))
		c.mu.Unlock()
		select {
		case <-w:
		case <-t.C:
		}
		t.Stop()
		c.mu.Lock()
	}
}

func (c *conn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, net.ErrClosed
	}
	if len(b) > 0 {
		c.note(rec{"x": "tx", "b": runs(b)})
		c.pend = append(c.pend, b...)
		c.scan()
	}
	c.poke()
	return len(b), nil
}

// scan notes the identifiers of the client's requests.
func (c *conn) scan() {
	for {
		l, k, m := 0, 1, 1
		for {
			if k >= len(c.pend) || k > 4 {
				return
			}
			l += int(c.pend[k]&127) * m
			m *= 128
			k++
			if c.pend[k-1] < 128 {
				break
			}
		}
		if len(c.pend) < k+l {
			return
		}
		p := c.pend[k : k+l]
		switch h := c.pend[0]; {
		case (h>>4 == 8 || h>>4 == 10) && len(p) >= 2:
			k := "subscribe"
			if h>>4 == 10 {
				k = "unsubscribe"
			}
			c.ids[k] = append(c.ids[k], int(p[0])<<8|int(p[1]))
		case h>>4 == 3 && h&6 != 0 && len(p) >= 2:
			if t := int(p[0])<<8 | int(p[1]); len(p) >= t+4 {
				c.ids["publish"] = append(c.ids["publish"], int(p[t+2])<<8|int(p[t+3]))
			}
		}
		c.pend = append([]byte{}, c.pend[k+l:]...)
	}
}

func (c *conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if !c.closed {
		c.closed = true
		c.note(rec{"x": "close"})
	}
	c.poke()
	return nil
}

func (c *conn) set(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.dl = t
	c.poke()
	return nil
}
func (c *conn) SetDeadline(t time.Time) error      { return c.set(t) }
func (c *conn) SetReadDeadline(t time.Time) error  { return c.set(t) }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }
func (c *conn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *conn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }

func (c *conn) left() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.in) - c.pos
}
