package wire

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"sort"
	"strconv"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/storage"
)

type op struct {
	O   string `json:"o"`
	K   rec    `json:"k"`
	Fs  []rec  `json:"fs"`
	Dl  int    `json:"dl"` // milliseconds; 0: none
	Bg  bool   `json:"bg"`
	Max int    `json:"max"`
}
type script struct {
	ID     string   `json:"id"`
	Mode   string   `json:"mode"`
	K      rec      `json:"k"`
	B      Runs     `json:"b"`
	Junk   int      `json:"junk"`
	One    int      `json:"one"`
	Pieces []piece  `json:"pieces"`
	Plan   [][2]int `json:"plan"`
	End    string   `json:"end"`
	Ops    []op     `json:"ops"`
	// route
	Filters [][][]string `json:"filters"`
	Topics  [][]string   `json:"topics"`
	Odd     bool         `json:"odd"`
}

func safe(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return f()
}

func text(err error) string {
	if err == nil {
		return ""
	}
	if s := err.Error(); s != "" {
		return s
	}
	return "an error"
}

// few hands out a limited number of bytes per read.
type few struct {
	r io.Reader
	n int
}

func (f few) Read(b []byte) (int, error) {
	if len(b) > f.n {
		b = b[:f.n]
	}
	return f.r.Read(b)
}

type sink struct{ r Runs }

func (s *sink) Write(b []byte) (int, error) { s.r.add(b); return len(b), nil }

// used leaves a header in the packet as if it had been written with other contents before.
func used(p io.WriterTo) {
	v := reflect.ValueOf(p)
	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
		return
	}
	f := v.Elem().FieldByName("Header")
	if !f.IsValid() || !f.CanAddr() {
		return
	}
	if h, ok := f.Addr().Interface().(*packets.FixedHeader); ok {
		h.Remaining = 77777
		if _, ok := p.(*packets.Publish); ok {
			h.SetFlags(^h.GetFlags())
		}
	}
}

func runWrite(s *script) []rec {
	ev := []rec{}
	var p io.WriterTo
	for k := 0; k < 3; k++ {
		if k == 2 && p != nil {
			used(p)
		}
		w := &sink{r: Runs{}}
		var n int64
		err := safe(func() (err error) {
			if p == nil {
				p = make1(s.K)
			}
			n, err = p.WriteTo(w)
			return
		})
		if n > 1<<30 || n < 0 {
			n = 1 << 30
		}
		ev = append(ev, rec{"x": "write", "err": text(err), "n": n, "b": w.r})
	}
	return ev
}

func runRead(s *script) []rec {
	b := append(s.B.Bytes(), bytes.Repeat([]byte{0xee}, s.Junk)...)
	rd := bytes.NewReader(b)
	var r io.Reader = rd
	if s.One > 0 {
		r = few{rd, s.One}
	}
	var v rec = rec{"t": ""}
	var n, m int64
	err := safe(func() (err error) {
		var h packets.FixedHeader
		if m, err = h.ReadFrom(r); err != nil {
			return
		}
		p, _ := empty(h)
		if p == nil {
			return errors.New("no such packet")
		}
		n, err = p.ReadFrom(r)
		if err == nil {
			v = dump(p)
		}
		return
	})
	return []rec{{"x": "read", "err": text(err), "n": n + m, "used": len(b) - rd.Len(), "v": v}}
}

// store keeps packets like the storage of the library.
type store struct {
	mu sync.Mutex
	m  map[uint16]any
}

func (s *store) Store(id uint16, p any) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, ok := s.m[id]; ok {
		return storage.ErrDuplicateEntry
	}
	s.m[id] = p
	return nil
}
func (s *store) Get(id uint16) (any, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if p, ok := s.m[id]; ok {
		return p, nil
	}
	return nil, storage.ErrNoEntry
}
func (s *store) Drop(id uint16) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, ok := s.m[id]; !ok {
		return storage.ErrNoEntry
	}
	delete(s.m, id)
	return nil
}
func (s *store) ids() []int {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := []int{}
	for k := range s.m {
		r = append(r, int(k))
	}
	sort.Ints(r)
	return r
}

func runConn(s *script) []rec {
	ev := []rec{}
	var mu sync.Mutex
	note := func(r rec) { mu.Lock(); ev = append(ev, r); mu.Unlock() }
	synctest.Test(T, func(*testing.T) {
		c := newConn(s.Pieces, s.Plan, s.End, note)
		cl := mqtt.NewClient(c)
		st := &store{m: map[uint16]any{}}
		cl.SetStorage(st)
		ch := cl.CreateEventChannel(4096)
		stop, cancel := context.WithCancel(context.Background())
		var kept []func()
		drain := func() {
			synctest.Wait()
			for {
				select {
				case e := <-ch.C:
					if e != nil {
						if e.PacketType == packets.PINGRESP {
							note(rec{"x": "ev", "v": rec{"t": "PINGRESP"}})
						} else {
							// looked at once everything has been received: what was delivered belongs to the application
							r := rec{"x": "ev"}
							kept = append(kept, func() { r["v"] = dump(e.Data) })
							note(r)
						}
						continue
					}
				default:
				}
				return
			}
		}
		polls, failed := 0, false
		for i := range s.Ops {
			o := &s.Ops[i]
			run := func() {
				ctx, done := stop, context.CancelFunc(func() {})
				if o.Dl > 0 {
					ctx, done = context.WithTimeout(stop, time.Duration(o.Dl)*time.Millisecond)
				}
				t0 := time.Now()
				err := safe(func() error {
					switch o.O {
					case "connect":
						return cl.Connect(ctx, make1(o.K).(*packets.Connect))
					case "poll":
						return cl.Poll(ctx)
					case "publish":
						return cl.Publish(ctx, make1(o.K).(*packets.Publish))
					case "subscribe":
						ts := []mqtt.Topic{}
						for _, f := range o.Fs {
							ts = append(ts, mqtt.Topic{Topic: topicOf(f)})
						}
						return cl.Subscribe(ctx, ts)
					case "unsubscribe":
						ts := []string{}
						for _, f := range o.Fs {
							ts = append(ts, string(str(f["f"])))
						}
						return cl.Unsubscribe(ctx, ts)
					case "disconnect":
						return cl.Disconnect(ctx, false)
					case "sleep":
						time.Sleep(time.Duration(o.Dl) * time.Millisecond)
						return nil
					}
					panic("no such call " + o.O)
				})
				done()
				if o.O == "poll" {
					polls++
					if err == nil {
						return
					}
					failed = true
				}
				note(rec{"x": "ret", "i": i + 1, "o": o.O, "err": text(err), "ms": int(time.Since(t0).Milliseconds()), "store": st.ids()})
			}
			if o.Bg {
				go run()
				synctest.Wait()
			} else if o.O == "poll" && o.Max > 0 {
				// polls until something is wrong, or nothing comes any more, or this often
				idle := 0
				for k := 0; k < o.Max && !failed && idle < 3; k++ {
					run()
					drain()
					if o.Dl > 0 && s.End == "idle" && c.left() == 0 {
						idle++
					}
				}
			} else {
				run()
			}
			drain()
		}
		for _, f := range kept {
			f()
		}
		mu.Lock()
		ev = append(ev, rec{"x": "end", "left": c.left(), "polls": polls, "conn": cl.IsConnected()})
		keep := ev
		mu.Unlock()
		cancel()
		c.Close()
		synctest.Wait()
		mu.Lock()
		ev = keep
		if c.stall {
			ev = append(ev, rec{"x": "stall"})
		}
		mu.Unlock()
	})
	return ev
}

// T is the running test.
var T *testing.T

// TestWire runs the scripts in $IN (those whose number is $SHARD modulo $SHARDS) and appends one JSON line per run to $OUT.
func TestWire(t *testing.T) {
	in := os.Getenv("IN")
	if in == "" {
		t.Skip()
	}
	T = t
	shard, _ := strconv.Atoi(os.Getenv("SHARD"))
	shards, _ := strconv.Atoi(os.Getenv("SHARDS"))
	skip, _ := strconv.Atoi(os.Getenv("SKIP"))
	if shards == 0 {
		shards = 1
	}
	f, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	out, err := os.Create(os.Getenv("OUT"))
	if err != nil {
		t.Fatal(err)
	}
	defer out.Close()
	w := bufio.NewWriterSize(out, 1<<20)
	defer w.Flush()
	rd := bufio.NewReaderSize(f, 1<<20)
	for n := 0; ; n++ {
		line, err := rd.ReadBytes('\n')
		if len(line) == 0 && err != nil {
			break
		}
		if n%shards != shard || n < skip {
			continue
		}
		var s script
		if err := json.Unmarshal(line, &s); err != nil {
			t.Fatal(n, err)
		}
		os.WriteFile(os.Getenv("OUT")+".cur", []byte(strconv.Itoa(n)), 0o644)
		var ev []rec
		switch s.Mode {
		case "write":
			ev = runWrite(&s)
		case "read":
			ev = runRead(&s)
		case "conn":
			ev = runConn(&s)
		case "route":
			ev = runRoute(&s)
		}
		b, _ := json.Marshal(map[string]any{"n": n, "id": s.ID, "mode": s.Mode, "ev": ev})
		w.Write(b)
		w.WriteByte('\n')
	}
	os.WriteFile(os.Getenv("OUT")+".cur", []byte("done"), 0o644)
}
