package wire

import (
	"context"
	"strings"
	"sync"
	"testing"
	"testing/synctest"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
)

func packet(h byte, body []byte) []byte {
	b := []byte{h}
	n := len(body)
	for {
		c := byte(n & 127)
		if n >>= 7; n > 0 {
			b = append(b, c|128)
			continue
		}
		return append(append(b, c), body...)
	}
}

// feed appends bytes of the server.
func (c *conn) feed(b []byte) {
	c.mu.Lock()
	c.in = append(c.in, b...)
	c.stall = false
	c.poke()
	c.mu.Unlock()
}

// runRoute binds a channel to each group of filters, all granted, and publishes every topic once.
func runRoute(s *script) []rec {
	ev := []rec{}
	synctest.Test(T, func(*testing.T) {
		c := newConn(nil, nil, "idle", func(rec) {})
		cl := mqtt.NewClient(c)
		ctx, cancel := context.WithCancel(context.Background())
		chans := make([]mqtt.EventChannel, len(s.Filters))
		run := func(kind string, answer func(id []byte) []byte, f func() error) (err error) {
			var mu sync.Mutex
			done := false
			before := len(c.ids[kind])
			go func() {
				e := safe(f)
				mu.Lock()
				err, done = e, true
				mu.Unlock()
			}()
			answered := false
			for k := 0; k < 4; k++ {
				synctest.Wait()
				mu.Lock()
				d := done
				mu.Unlock()
				if d {
					return
				}
				if ids := c.ids[kind]; !answered && len(ids) > before {
					id := ids[len(ids)-1]
					c.feed(answer([]byte{byte(id >> 8), byte(id)}))
					answered = true
				}
				if c.left() > 0 {
					if e := safe(func() error { return cl.Poll(ctx) }); e != nil && strings.HasPrefix(e.Error(), "panic") {
						ev = append(ev, rec{"x": "panic", "msg": e.Error()})
						return e
					}
				}
			}
			return
		}
		c.feed([]byte{0x20, 3, 0, 0, 0})
		if err := safe(func() error {
			cp := &packets.Connect{}
			cp.ClientId = "c"
			return cl.Connect(ctx, cp)
		}); err != nil {
			ev = append(ev, rec{"x": "connect", "msg": "connect: " + err.Error()})
			return
		}
		res := make([]rec, len(s.Filters))
		for i, fs := range s.Filters {
			chans[i] = cl.CreateEventChannel(16)
			ts := []mqtt.Topic{}
			codes := []byte{}
			for _, f := range fs {
				var t mqtt.Topic
				t.SetFilter(strings.Join(f, "/"))
				t.SetEventChannel(chans[i])
				ts = append(ts, t)
				codes = append(codes, 0)
			}
			err := run("subscribe", func(id []byte) []byte {
				return packet(0x90, append(append(id, 0), codes...))
			}, func() error { return cl.Subscribe(ctx, ts) })
			res[i] = rec{"err": text(err), "got": []int{}}
		}
		for j, t := range s.Topics {
			name := strings.Join(t, "/")
			c.feed(packet(0x30, append(append([]byte{byte(len(name) >> 8), byte(len(name))}, name...), 0, byte(j>>8), byte(j))))
			for k := 0; k < 3 && c.left() > 0; k++ {
				if e := safe(func() error { return cl.Poll(ctx) }); e != nil {
					if strings.HasPrefix(e.Error(), "panic") || !s.Odd {
						ev = append(ev, rec{"x": "panic", "msg": "topic " + name + ": " + e.Error()})
						k = 3
					}
				}
			}
			synctest.Wait()
			for i, ch := range chans {
				for more := true; more; {
					select {
					case e := <-ch.C:
						if e == nil {
							more = false
							break
						}
						if p, ok := e.Data.(*packets.Publish); ok {
							n := -1
							if len(p.Payload) == 2 {
								n = int(p.Payload[0])<<8 | int(p.Payload[1])
							}
							res[i]["got"] = append(res[i]["got"].([]int), n+1)
						}
					default:
						more = false
					}
				}
			}
		}
		ev = append(ev, res...)
		cancel()
		c.Close()
		synctest.Wait()
	})
	return ev
}
