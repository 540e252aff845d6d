// Package local drives the parts of the library that need no connection.
package local

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"strconv"
	"sync"
	"testing"
	"testing/synctest"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/storage"
	"github.com/waj334/tinygo-mqtt/mqtt/storage/memory"
	"verif/harness/sim"
	"verif/harness/vsync"
)

type rec = map[string]any
type filter struct {
	S string `json:"s"`
	K string `json:"k"`
}
type op struct {
	O  string `json:"o"`
	F  filter `json:"f"`
	N  int    `json:"n"`
	B  bool   `json:"b"`
	V  []int  `json:"v"`
	ID int    `json:"id"`
	P  string `json:"p"`
}
type script struct {
	Mode string  `json:"mode"`
	Len  int     `json:"len"`
	Ops  []op    `json:"ops"`
	Par  [][]op  `json:"par"`
	Seed int64   `json:"seed"`
	Pre  float64 `json:"pre"`
	Pct  int     `json:"pct"`
}

func safe(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return f()
}
func text(err error) string {
	if err == nil {
		return ""
	}
	return "error: " + err.Error()
}

func runOptions(s *script) []rec {
	ev := []rec{}
	for k := 0; k < 2; k++ {
		e := rec{"err": "", "filter": "", "sent": "", "opt": -1}
		err := safe(func() error {
			var v packets.Topic
			t := &v
			for _, o := range s.Ops {
				n := t
				switch o.O {
				case "filter":
					n = t.SetFilter(o.F.S)
				case "qos":
					n = t.SetQoS(packets.QoS(o.N))
				case "nl":
					n = t.SetNoLocal(o.B)
				case "rap":
					n = t.SetRetainAsPublished(o.B)
				case "rh":
					n = t.SetRetainHandling(packets.RetainHandlingOption(o.N))
				}
				if k == 1 {
					t = n
				}
			}
			e["filter"] = t.Filter()
			var b bytes.Buffer
			p := packets.Subscribe{PacketIdentifier: 1, Topics: []packets.Topic{*t}}
			if _, err := p.WriteTo(&b); err != nil {
				return err
			}
			raw := b.Bytes()
			if len(raw) < 8 || int(raw[6]) > len(raw)-8 {
				return errors.New("no filter is sent")
			}
			e["sent"] = string(raw[7 : 7+int(raw[6])])
			e["opt"] = int(raw[7+int(raw[6])])
			return nil
		})
		e["err"] = text(err)
		ev = append(ev, e)
	}
	return ev
}

func runPayload(s *script) []rec {
	ev := []rec{}
	mem := make([]byte, s.Len+6)
	for i := range mem {
		mem[i] = byte(i + 1)
		if i >= s.Len {
			mem[i] = 0xEE
		}
	}
	p := &packets.Publish{Payload: mem[:s.Len]}
	for _, o := range s.Ops {
		e := rec{"err": "", "n": 0, "eof": false, "got": []int{}, "clean": true}
		err := safe(func() error {
			switch o.O {
			case "reset":
				p.Reset()
			case "read":
				buf := bytes.Repeat([]byte{0xDD}, o.N+3)
				n, err := p.Read(buf[:o.N])
				e["n"] = n
				e["eof"] = errors.Is(err, io.EOF)
				got := []int{}
				for i := 0; i < n && i < len(buf); i++ {
					got = append(got, int(buf[i]))
				}
				e["got"] = got
				for i := max(n, 0); i < len(buf); i++ {
					if buf[i] != 0xDD {
						e["clean"] = false
					}
				}
				if err != nil && !errors.Is(err, io.EOF) {
					return err
				}
			case "write":
				buf := make([]byte, len(o.V))
				for i, v := range o.V {
					buf[i] = byte(v)
				}
				n, err := p.Write(buf)
				e["n"] = n
				e["eof"] = errors.Is(err, io.EOF)
				for i, v := range o.V {
					if buf[i] != byte(v) {
						e["clean"] = false
					}
				}
				if err != nil && !errors.Is(err, io.EOF) {
					return err
				}
			}
			return nil
		})
		e["err"] = text(err)
		ev = append(ev, e)
	}
	final := []int{}
	for _, b := range p.Payload {
		final = append(final, int(b))
	}
	clean := true
	for _, b := range mem[s.Len:] {
		clean = clean && b == 0xEE
	}
	return append(ev, rec{"final": final, "clean": clean})
}

// token is the packet under that name and identifier: the very same value each time.
func call(st storage.Storage, tok map[string]*packets.Publish, o op) (r string) {
	defer func() {
		if p := recover(); p != nil {
			r = fmt.Sprintf("panic: %v", p)
		}
	}()
	id := uint16(o.ID)
	switch o.O {
	case "store":
		err := st.Store(id, tok[o.P])
		switch {
		case err == nil:
			return "ok"
		case errors.Is(err, storage.ErrDuplicateEntry):
			return "dup"
		default:
			return err.Error()
		}
	case "get":
		p, err := st.Get(id)
		switch {
		case err == nil:
			for n, t := range tok {
				if x, ok := p.(*packets.Publish); ok && x == t {
					return n
				}
			}
			return "another packet"
		case errors.Is(err, storage.ErrNoEntry):
			return "none"
		default:
			return err.Error()
		}
	default:
		err := st.Drop(id)
		switch {
		case err == nil:
			return "ok"
		case errors.Is(err, storage.ErrNoEntry):
			return "none"
		default:
			return err.Error()
		}
	}
}

func tokens() map[string]*packets.Publish {
	return map[string]*packets.Publish{"p": {Topic: "p"}, "q": {Topic: "q"}, "s": {Topic: "s"}, "t": {Topic: "t"}}
}

func runStore(s *script) []rec {
	ev := []rec{}
	st, tok := memory.NewStorage(), tokens()
	for _, o := range s.Ops {
		ev = append(ev, rec{"r": call(st, tok, o)})
	}
	return ev
}

// runLin runs the calls of several goroutines under the scheduler.
func runLin(s *script) []rec {
	ev := []rec{}
	synctest.Test(T, func(*testing.T) {
		sc := sim.NewSched(s.Seed, false, s.Pre, s.Pct)
		st, tok := memory.NewStorage(), tokens()
		vsync.SetScheduler(sc)
		var mu sync.Mutex
		c := 0
		for _, ops := range s.Par {
			go func() {
				for _, o := range ops {
					sc.Park("call", nil)
					mu.Lock()
					c++
					k := c
					ev = append(ev, rec{"e": "inv", "c": k, "o": o.O, "id": o.ID, "p": o.P, "r": ""})
					mu.Unlock()
					r := call(st, tok, o)
					mu.Lock()
					ev = append(ev, rec{"e": "res", "c": k, "o": o.O, "id": o.ID, "p": o.P, "r": r})
					mu.Unlock()
				}
			}()
		}
		for n := 0; n < 100000 && sc.Step(); n++ {
		}
		sc.Kill()
		vsync.SetScheduler(nil)
	})
	return ev
}

// runRace runs the calls of several goroutines at once, as they come.
func runRace(s *script) []rec {
	ev := []rec{}
	st, tok := memory.NewStorage(), tokens()
	var mu sync.Mutex
	var wg sync.WaitGroup
	start := make(chan struct{})
	c := 0
	for _, ops := range s.Par {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, o := range ops {
				mu.Lock()
				c++
				k := c
				ev = append(ev, rec{"e": "inv", "c": k, "o": o.O, "id": o.ID, "p": o.P, "r": ""})
				mu.Unlock()
				r := call(st, tok, o)
				mu.Lock()
				ev = append(ev, rec{"e": "res", "c": k, "o": o.O, "id": o.ID, "p": o.P, "r": r})
				mu.Unlock()
			}
		}()
	}
	close(start)
	wg.Wait()
	return ev
}

// T is the running test.
var T *testing.T

// TestLocal runs the scripts in $IN (those whose number is $SHARD modulo $SHARDS) and appends one JSON line per run to $OUT.
func TestLocal(t *testing.T) {
	in := os.Getenv("IN")
	if in == "" {
		t.Skip()
	}
	T = t
	sim.T = t
	shard, _ := strconv.Atoi(os.Getenv("SHARD"))
	shards, _ := strconv.Atoi(os.Getenv("SHARDS"))
	skip, _ := strconv.Atoi(os.Getenv("SKIP"))
	if shards == 0 {
		shards = 1
	}
	f, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	out, err := os.Create(os.Getenv("OUT"))
	if err != nil {
		t.Fatal(err)
	}
	defer out.Close()
	w := bufio.NewWriterSize(out, 1<<20)
	defer w.Flush()
	rd := bufio.NewReaderSize(f, 1<<20)
	for n := 0; ; n++ {
		line, err := rd.ReadBytes('\n')
		if len(line) == 0 && err != nil {
			break
		}
		if n%shards != shard || n < skip {
			continue
		}
		var s script
		if err := json.Unmarshal(line, &s); err != nil {
			t.Fatal(n, err)
		}
		os.WriteFile(os.Getenv("OUT")+".cur", []byte(strconv.Itoa(n)), 0o644)
		vsync.ResetTicks()
		var ev []rec
		switch s.Mode {
		case "options":
			ev = runOptions(&s)
		case "payload":
			ev = runPayload(&s)
		case "store":
			ev = runStore(&s)
		case "lin":
			ev = runLin(&s)
		case "race":
			ev = runRace(&s)
		}
		b, _ := json.Marshal(map[string]any{"n": n, "mode": s.Mode, "ev": ev})
		w.Write(b)
		w.WriteByte('\n')
	}
	os.WriteFile(os.Getenv("OUT")+".cur", []byte("done"), 0o644)
}
