package sim

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"github.com/waj334/tinygo-mqtt/mqtt/storage"
	"github.com/waj334/tinygo-mqtt/mqtt/storage/memory"

	"verif/harness/vsync"
)

// Step is one step of a script; which fields matter depends on Do.
type Step struct {
	Do    string   `json:"do"`
	Op    string   `json:"op,omitempty"`
	T     int      `json:"t,omitempty"`
	C     int      `json:"c,omitempty"`
	QoS   int      `json:"qos,omitempty"`
	Tag   int      `json:"tag,omitempty"`
	Pad   int      `json:"pad,omitempty"`
	Topic string   `json:"topic,omitempty"`
	PID   int      `json:"pid,omitempty"`
	To    int      `json:"to,omitempty"`
	FS    []string `json:"fs,omitempty"`
	OS    []int    `json:"os,omitempty"`
	CH    []int    `json:"ch,omitempty"`
	KA    int      `json:"ka,omitempty"`
	RM    int      `json:"rm,omitempty"`
	SP    int      `json:"sp,omitempty"`
	SE    int      `json:"se,omitempty"`
	Will  bool     `json:"will,omitempty"`
	P     string   `json:"p,omitempty"`
	Ref   int      `json:"ref,omitempty"`
	Sub   string   `json:"sub,omitempty"`
	ID    int      `json:"id,omitempty"`
	RC    int      `json:"rc,omitempty"`
	Codes []int    `json:"codes,omitempty"`
	Dup   bool     `json:"dup,omitempty"`
	Ret   bool     `json:"rt,omitempty"`
	Long  bool     `json:"long,omitempty"`
	Hold  int      `json:"hold,omitempty"`
	Ms    int      `json:"ms,omitempty"`
	N     int      `json:"n,omitempty"`
	K     int      `json:"k,omitempty"`
	Ch    int      `json:"chn,omitempty"`
	Cap   int      `json:"cap,omitempty"`
	Bytes []int    `json:"bytes,omitempty"`
	Soft  bool     `json:"soft,omitempty"`
	Late  bool     `json:"late,omitempty"`
	Cx    bool     `json:"cx,omitempty"`
}

// Script is one run.
type Script struct {
	ID      string  `json:"id"`
	Mode    string  `json:"mode"`
	Seed    int64   `json:"seed"`
	Sched   string  `json:"sched"`
	Pre     float64 `json:"pre"`
	Seg     int     `json:"seg"`
	Storage bool    `json:"storage"`
	Auto    bool    `json:"auto"`  // the server answers by itself
	Reuse   bool    `json:"reuse"` // a client that is not connected is used again on the next connection
	Rng     []int   `json:"rng"`
	Polls   int     `json:"polls"` // conc: maximum number of polls
	Steps   []Step  `json:"steps"`
}

type call struct {
	t, c   int
	op     string
	cancel context.CancelFunc
	done   bool
	dl     time.Time
}

type chanInfo struct {
	ec     mqtt.EventChannel
	closed bool
	done   bool
	c      int
	cl     *mqtt.Client
}

// World is the environment of one run.
type World struct {
	sc    *Script
	rng   *rand.Rand
	sched *Sched

	mu      sync.Mutex
	trace   []map[string]any
	lastMs  int64
	start   time.Time
	conns   []*Conn
	clients []*mqtt.Client
	link    *link     // what the latest client uses as its connection
	rec     *recStore // and as its storage
	store   *memory.Storage
	sfaults []sfault
	calls   map[int]*call
	chans   map[int]*chanInfo
	acks    map[[2]any]int // acknowledgements seen on the wire
	sent    map[[2]any]int // packets sent by the server
	final   map[int]bool   // publishes that the server has completed
	ids     map[int]int    // publish tag -> packet identifier last seen on the wire
	subs    map[string]int // first filter -> packet identifier of SUBSCRIBE
	unsubs  map[string]int
	rngPos  int
	nextT   int
	gone    bool
	stopped bool
	polls   int
	autoq   []func()
	latest  *call
	Fatal   string
}

type sfault struct {
	n  int
	op string
}

func (w *World) len() int { w.mu.Lock(); defer w.mu.Unlock(); return len(w.trace) }

func (w *World) log(ev map[string]any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.gone {
		return
	}
	if ms := time.Since(w.start).Milliseconds(); ms != w.lastMs {
		w.lastMs = ms
		w.trace = append(w.trace, map[string]any{"e": "time", "ms": ms})
	}
	w.trace = append(w.trace, ev)
}

func pktEvent(p Pkt) map[string]any {
	m := map[string]any{"p": p.P, "id": p.ID, "qos": p.QoS, "dup": p.Dup, "rt": p.Ret, "topic": p.Topic, "tag": p.Tag, "rc": p.RC,
		"codes": p.Codes, "fs": p.FS, "os": p.OS, "ka": p.KA, "rm": p.RM, "se": p.SE, "np": p.NProp, "sp": p.SP, "tl": levels(p.Topic), "hold": 0}
	return m
}

// levels splits a topic name or filter for the specification, which has no string functions.
func levels(s string) map[string]any {
	l := strings.Split(s, "/")
	return map[string]any{"l": l, "d": strings.HasPrefix(s, "$"), "sd": len(l) > 2 && strings.HasPrefix(l[2], "$")}
}

func levelList(fs []string) []any {
	out := []any{}
	for _, f := range fs {
		out = append(out, levels(f))
	}
	return out
}

func (w *World) onTx(c *Conn, p Pkt, first int) {
	ev := pktEvent(p)
	ev["e"] = "tx"
	ev["c"] = c.idx
	ev["b"] = first
	w.mu.Lock()
	switch p.P {
	case "PUBLISH":
		if p.QoS > 0 {
			w.ids[p.Tag] = p.ID
		}
	case "PUBREC", "PUBREL", "PUBACK", "PUBCOMP":
		w.acks[[2]any{p.P, p.ID}]++
	case "SUBSCRIBE":
		if len(p.FS) > 0 {
			w.subs[p.FS[0]] = p.ID
		}
	case "UNSUBSCRIBE":
		if len(p.FS) > 0 {
			w.unsubs[p.FS[0]] = p.ID
		}
	}
	w.mu.Unlock()
	w.log(ev)
	if w.sc.Auto {
		w.answer(c, p)
	}
}

// answer is what a server does by itself with a packet.
func (w *World) answer(c *Conn, p Pkt) {
	var r Pkt
	rc := 0
	if w.rng.Intn(6) == 0 {
		rc = 128
	}
	codes := func() {
		r.Codes = make([]int, len(p.FS))
		for i := range r.Codes {
			if w.rng.Intn(6) == 0 {
				r.Codes[i] = 135
			}
		}
	}
	switch p.P {
	case "PUBLISH":
		switch p.QoS {
		case 0:
			return
		case 1:
			r = blank("PUBACK")
		default:
			r = blank("PUBREC")
		}
		r.RC = rc
	case "PUBREL":
		r = blank("PUBCOMP")
	case "SUBSCRIBE":
		r = blank("SUBACK")
		codes()
	case "UNSUBSCRIBE":
		r = blank("UNSUBACK")
		codes()
	case "PINGREQ":
		r = blank("PINGRESP")
	default:
		return
	}
	r.ID = p.ID
	send := func() {
		x := pktEvent(r)
		x["e"], x["c"] = "srv", c.idx
		w.log(x)
		c.deliver(encodeServer(r, 0, true), pktEvent(r), 0)
	}
	if w.rng.Intn(4) > 0 {
		send()
		return
	}
	w.mu.Lock()
	w.autoq = append(w.autoq, send)
	w.mu.Unlock()
}

// late sends one (or every) answer that was put off.
func (w *World) late(all bool) {
	for {
		w.mu.Lock()
		if len(w.autoq) == 0 {
			w.mu.Unlock()
			return
		}
		i := w.rng.Intn(len(w.autoq))
		f := w.autoq[i]
		w.autoq = append(w.autoq[:i:i], w.autoq[i+1:]...)
		w.mu.Unlock()
		f()
		if !all {
			return
		}
	}
}

// cancelLatest ends the context of the call that was started last.
func (w *World) cancelLatest() {
	w.mu.Lock()
	k := w.latest
	w.mu.Unlock()
	if k != nil && !w.isDone(k) {
		w.log(map[string]any{"e": "cancel", "t": k.t, "c": k.c})
		k.cancel()
	}
}

// store seen by one client
type recStore struct {
	w *World
	c int
}

func (s *recStore) fail(op string) bool {
	s.w.mu.Lock()
	defer s.w.mu.Unlock()
	hit := false
	for i := range s.w.sfaults {
		f := &s.w.sfaults[i]
		if f.op != "" && f.op != op {
			continue
		}
		f.n--
		if f.n == 0 {
			hit = true
		}
	}
	return hit
}

func kindOf(p any) (kind string, tag, qos int) {
	switch x := p.(type) {
	case *packets.Publish:
		if x == nil {
			return "nil", -1, -1
		}
		return "PUBLISH", tagOf(x.Payload), int(x.QoS)
	case *packets.Pubrec:
		return "PUBREC", -1, -1
	case *packets.Pubrel:
		return "PUBREL", -1, -1
	case *packets.Puback:
		return "PUBACK", -1, -1
	case *packets.Pubcomp:
		return "PUBCOMP", -1, -1
	}
	return "OTHER", -1, -1
}

func sres(err error) string {
	switch err {
	case nil:
		return "ok"
	case storage.ErrDuplicateEntry:
		return "dup"
	case storage.ErrNoEntry:
		return "noentry"
	}
	return "injected"
}

func (s *recStore) Store(id uint16, p any) (err error) {
	vsync.Point("store")
	if s.fail("store") {
		err = errStore
	} else {
		err = s.w.store.Store(id, p)
	}
	k, tag, qos := kindOf(p)
	s.w.log(map[string]any{"e": "store", "c": s.c, "id": int(id), "kind": k, "tag": tag, "qos": qos, "res": sres(err)})
	return err
}

func (s *recStore) Get(id uint16) (p any, err error) {
	vsync.Point("get")
	if s.fail("get") {
		err = errStore
	} else {
		p, err = s.w.store.Get(id)
	}
	s.w.log(map[string]any{"e": "get", "c": s.c, "id": int(id), "res": sres(err)})
	return p, err
}

func (s *recStore) Drop(id uint16) (err error) {
	vsync.Point("drop")
	if s.fail("drop") {
		err = errStore
	} else {
		err = s.w.store.Drop(id)
	}
	s.w.log(map[string]any{"e": "drop", "c": s.c, "id": int(id), "res": sres(err)})
	return err
}

func errClass(err error) (string, int) {
	var rc mqtt.ReasonCode
	var rp *mqtt.ReasonCode
	switch {
	case err == nil:
		return "nil", -1
	case errors.As(err, &rc):
		return "reason", int(rc)
	case errors.As(err, &rp):
		return "reason", int(*rp)
	case errors.Is(err, mqtt.ErrClientNotConnected):
		return "notconn", -1
	case errors.Is(err, mqtt.ErrInvalidArgument):
		return "invalid", -1
	case errors.Is(err, mqtt.ErrUnexpectedPacketTypeReceived):
		return "unexpected", -1
	case errors.Is(err, packets.ErrControlPacketIsMalformed):
		return "malformed", -1
	case errors.Is(err, storage.ErrDuplicateEntry):
		return "dup", -1
	case errors.Is(err, storage.ErrNoEntry):
		return "noentry", -1
	case errors.Is(err, context.Canceled), errors.Is(err, context.DeadlineExceeded):
		return "ctx", -1
	case errors.Is(err, os.ErrDeadlineExceeded):
		return "deadline", -1
	case errors.Is(err, errInjected):
		return "injected", -1
	case errors.Is(err, errStore):
		return "storage", -1
	case errors.Is(err, io.EOF), errors.Is(err, io.ErrUnexpectedEOF):
		return "eof", -1
	case errors.Is(err, net.ErrClosed):
		return "closed", -1
	}
	return "other", -1
}

// link is a connection that can be dialled again.
type link struct{ *Conn }

// freeze keeps what is waiting on a channel and closes it.
func (w *World) freeze(cl *mqtt.Client, ch *chanInfo) {
	var evs []*mqtt.Event
	open := true
	for more := true; more && open; {
		select {
		case e, ok := <-ch.ec.C:
			if ok {
				evs = append(evs, e)
			}
			open = ok
		default:
			more = false
		}
	}
	old := ch.ec
	c := make(chan *mqtt.Event, len(evs))
	for _, e := range evs {
		c <- e
	}
	ch.ec.C = c
	if open {
		ch.ec.Done = make(chan struct{})
		cl.CloseEventChannel(old)
	} else {
		close(c)
	}
}

// again tells whether the latest client can serve another connection.
func (w *World) again() bool {
	if !w.sc.Reuse || w.link == nil || len(w.pending()) > 0 {
		return false
	}
	cl := w.clients[len(w.clients)-1]
	ready := make(chan bool, 1)
	go func() {
		vsync.Point("again")
		ok := !cl.IsConnected()
		for n := 1; ok && n < 100; n++ {
			w.mu.Lock()
			ch := w.chans[n]
			w.mu.Unlock()
			if ch != nil && ch.cl == cl {
				w.freeze(cl, ch)
				ch.cl = nil
			}
		}
		ready <- ok
	}()
	w.sched.Settle()
	select {
	case ok := <-ready:
		return ok
	default:
		return false
	}
}

func (w *World) newClient() {
	reuse := w.again()
	c := newConn(w, len(w.conns))
	w.conns = append(w.conns, c)
	w.log(map[string]any{"e": "new", "c": c.idx})
	if reuse {
		w.link.Conn = c
		w.rec.c = c.idx
		w.clients = append(w.clients, w.clients[len(w.clients)-1])
		return
	}
	w.link = &link{c}
	w.rec = &recStore{w, c.idx}
	nc, rec := w.link, w.rec
	ready := make(chan *mqtt.Client, 1)
	go func() {
		vsync.Point("new")
		cl := mqtt.NewClient(nc)
		if w.sc.Storage {
			cl.SetStorage(rec)
		}
		if len(w.sc.Rng) > 0 {
			cl.SetRngFn(func() uint32 {
				w.mu.Lock()
				defer w.mu.Unlock()
				v := w.sc.Rng[w.rngPos%len(w.sc.Rng)]
				w.rngPos++
				return uint32(v)
			})
		}
		ready <- cl
	}()
	w.sched.Settle()
	w.clients = append(w.clients, <-ready)
}

func options(s Step, i int) (qos, nl, rap, rh int) {
	o := 1
	if i < len(s.OS) {
		o = s.OS[i]
	}
	return o & 3, o >> 2 & 1, o >> 3 & 1, o >> 4 & 3
}

// start begins an API call on its own goroutine.
func (w *World) start_(s Step, t int) *call {
	ci := len(w.clients) - 1
	if s.C > 0 {
		ci = s.C - 1
	}
	if ci < 0 || ci >= len(w.clients) {
		return nil
	}
	cl := w.clients[ci]
	ctx, cancel := context.WithCancel(context.Background())
	k := &call{t: t, c: ci, op: s.Op, cancel: cancel}
	switch {
	case s.To > 0:
		ctx, k.cancel = context.WithTimeout(ctx, time.Duration(s.To)*time.Millisecond)
		k.dl, _ = ctx.Deadline()
	case s.To == -1:
		cancel()
	}
	w.mu.Lock()
	w.calls[t] = k
	if s.Op != "poll" || w.sc.Mode != "conc" {
		w.latest = k
	}
	w.mu.Unlock()
	ev := map[string]any{"e": "call", "c": ci, "t": t, "op": s.Op, "to": s.To, "qos": s.QoS, "tag": s.Tag, "topic": s.Topic, "pid": s.PID,
		"fs": nz(s.FS), "fl": levelList(s.FS), "os": []int{}, "chn": 0, "cap": 0, "ch": nzi(s.CH), "ka": s.KA, "rm": s.RM, "se": s.SE, "will": s.Will, "pad": s.Pad}
	var run func() error
	switch s.Op {
	case "connect":
		p := &packets.Connect{Version: packets.MQTT5, CleanSession: ci == 0 || !w.sc.Storage, ClientId: "cl",
			KeepAlive: primitives.PrimitiveUint16(s.KA), ReceiveMaximum: primitives.PrimitiveUint16(s.RM),
			SessionExpiryInterval: primitives.PrimitiveUint32(s.SE)}
		run = func() error { return cl.Connect(ctx, p) }
	case "publish":
		p := &packets.Publish{QoS: packets.QoS(s.QoS), Topic: primitives.PrimitiveString(s.Topic), Payload: Payload(s.Tag, s.Pad),
			PacketIdentifier: primitives.PrimitiveUint16(s.PID), Retain: s.Ret, Duplicate: s.Dup}
		if s.Long { // a topic that cannot be encoded
			p.Topic = primitives.PrimitiveString(strings.Repeat("x", 65536))
		}
		run = func() error { return cl.Publish(ctx, p) }
	case "subscribe":
		var os_ []int
		for i := range s.FS {
			q, nl, rap, rh := options(s, i)
			os_ = append(os_, q|nl<<2|rap<<3|rh<<4)
		}
		if os_ != nil {
			ev["os"] = os_
		}
		w.mu.Lock()
		chans := map[int]*chanInfo{}
		for k, v := range w.chans {
			chans[k] = v
		}
		w.mu.Unlock()
		run = func() error {
			ts := make([]mqtt.Topic, len(s.FS))
			for i, f := range s.FS {
				q, nl, rap, rh := options(s, i)
				ts[i].SetFilter(f)
				ts[i].SetQoS(packets.QoS(q))
				ts[i].SetRetainAsPublished(rap == 1)
				ts[i].SetRetainHandling(packets.RetainHandlingOption(rh))
				if nl == 1 {
					ts[i].SetNoLocal(true)
				}
				if i < len(s.CH) && s.CH[i] > 0 {
					if ch := chans[s.CH[i]]; ch != nil {
						ts[i].SetEventChannel(ch.ec)
					}
				}
			}
			return cl.Subscribe(ctx, ts)
		}
	case "unsubscribe":
		fs := append([]string(nil), s.FS...)
		run = func() error { return cl.Unsubscribe(ctx, fs) }
	case "keepalive":
		run = cl.KeepAlive
	case "poll":
		run = func() error { return cl.Poll(ctx) }
	case "disconnect":
		if s.SE == 0 {
			run = func() error { return cl.Disconnect(ctx, s.Will) }
		} else {
			run = func() error { return cl.DisconnectWithSessionExpiry(ctx, s.Will, s.SE) }
		}
	case "chnew":
		ev["cap"] = s.Cap
		ev["chn"] = s.Ch
		run = func() error {
			ec := cl.CreateEventChannel(s.Cap)
			w.mu.Lock()
			w.chans[s.Ch] = &chanInfo{ec: ec, c: ci, cl: cl}
			w.mu.Unlock()
			return nil
		}
	case "chclose":
		ev["chn"] = s.Ch
		w.mu.Lock()
		ch := w.chans[s.Ch]
		w.mu.Unlock()
		if ch == nil {
			return nil
		}
		run = func() error { cl.CloseEventChannel(ch.ec); return nil }
	default:
		panic("unknown op " + s.Op)
	}
	w.log(ev)
	go func() {
		finished := false
		defer func() {
			r := recover()
			if !finished && r == nil { // ended by the scheduler
				return
			}
			if r != nil {
				w.mu.Lock()
				g := w.gone
				k.done = true
				w.mu.Unlock()
				if !g {
					w.log(map[string]any{"e": "ret", "c": ci, "t": t, "op": s.Op, "err": "panic", "rc": -1, "up": -1, "ki": -1, "msg": fmt.Sprint(r)})
				}
			}
		}()
		vsync.Point("begin")
		err := run()
		finished = true
		up, ki := -1, -1
		if w.sc.Mode != "conc" && s.Op != "chnew" && s.Op != "chclose" {
			up = 0
			if cl.IsConnected() {
				up = 1
			}
			ki = int(cl.KeepAliveInterval().Seconds())
		}
		cls, rc := errClass(err)
		ret := map[string]any{"e": "ret", "c": ci, "t": t, "op": s.Op, "err": cls, "rc": rc, "up": up, "ki": ki, "msg": ""}
		if err != nil {
			ret["msg"] = fmt.Sprint(err) // may be preempted
		}
		w.log(ret)
		w.mu.Lock()
		k.done = true
		w.mu.Unlock()
		if k.cancel != nil {
			k.cancel()
		}
	}()
	return k
}

func nz(x []string) []string {
	if x == nil {
		return []string{}
	}
	return x
}
func nzi(x []int) []int {
	if x == nil {
		return []int{}
	}
	return x
}

func (w *World) isDone(k *call) bool { w.mu.Lock(); defer w.mu.Unlock(); return k == nil || k.done }

func (w *World) pending() []int {
	w.mu.Lock()
	defer w.mu.Unlock()
	out := []int{}
	for t := 1; t <= w.nextT; t++ {
		if k := w.calls[t]; k != nil && !k.done {
			out = append(out, t)
		}
	}
	return out
}

// serverPacket resolves a srv step; ok is false while what it refers to has not been sent.
func (w *World) serverPacket(s Step) (p Pkt, ok bool) {
	p = blank(s.P)
	p.RC, p.QoS, p.Dup, p.Ret, p.Topic, p.ID = s.RC, s.QoS, s.Dup, s.Ret, s.Topic, s.ID
	w.mu.Lock()
	defer w.mu.Unlock()
	switch s.P {
	case "CONNACK":
		p.RM, p.KA = -1, -1
		if s.RM > 0 {
			p.RM = s.RM
		}
		if s.KA > 0 {
			p.KA = s.KA
		}
		p.SP = s.SP
	case "PUBLISH":
		p.Tag = s.Tag
	case "SUBACK", "UNSUBACK":
		m := w.subs
		if s.P == "UNSUBACK" {
			m = w.unsubs
		}
		if s.Sub != "" {
			if p.ID, ok = m[s.Sub]; !ok {
				// for mismatched acknowledgements: the other kind
				if s.Soft {
					if p.ID, ok = w.unsubs[s.Sub]; !ok {
						p.ID, ok = w.subs[s.Sub]
					}
				}
				if !ok {
					return p, false
				}
			}
		}
		p.Codes = nzi(s.Codes)
	default:
		if s.Ref > 0 {
			if p.ID, ok = w.ids[s.Ref]; !ok {
				return p, false
			}
		}
	}
	return p, true
}

// serverReady holds back what a conforming server would not send yet.
func (w *World) serverReady(p Pkt) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	switch p.P {
	case "PUBREL":
		return w.acks[[2]any{"PUBREC", p.ID}] > w.sent[[2]any{"PUBREL", p.ID}]
	case "PUBCOMP":
		return w.acks[[2]any{"PUBREL", p.ID}] > w.sent[[2]any{"PUBCOMP", p.ID}]
	}
	return true
}

func (w *World) server(s Step) bool {
	ci := len(w.conns) - 1
	if s.C > 0 {
		ci = s.C - 1
	}
	if ci < 0 || ci >= len(w.conns) {
		return true
	}
	c := w.conns[ci]
	if s.Do == "raw" {
		b := make([]byte, len(s.Bytes))
		for i, v := range s.Bytes {
			b[i] = byte(v)
		}
		ev := pktEvent(blank("RAW"))
		ev["id"] = s.Tag
		w.log(map[string]any{"e": "raw", "c": ci})
		c.deliver(b, ev, s.Hold)
		return true
	}
	p, ok := w.serverPacket(s)
	if !ok {
		return false
	}
	if w.sc.Mode == "conc" && !s.Soft && !w.serverReady(p) {
		return false
	}
	w.mu.Lock()
	if s.Ref > 0 && !s.Late && w.sc.Mode == "conc" {
		// its identifier may belong to another publish by now
		if w.final[s.Ref] {
			w.mu.Unlock()
			return true
		}
		w.final[s.Ref] = p.P != "PUBREC" || p.RC >= 128
	}
	if p.P == "PUBCOMP" && !s.Soft {
		w.sent[[2]any{p.P, p.ID}] = w.acks[[2]any{"PUBREL", p.ID}]
	} else if p.P != "PUBCOMP" {
		w.sent[[2]any{p.P, p.ID}]++
	}
	w.mu.Unlock()
	ev := pktEvent(p)
	ev["hold"] = s.Hold
	x := pktEvent(p)
	x["hold"] = s.Hold
	x["e"] = "srv"
	x["c"] = ci
	w.log(x)
	c.deliver(encodeServer(p, s.Pad, !s.Long), ev, s.Hold)
	return true
}

// drain takes up to n events (0: all) that wait on a channel.
func (w *World) drain(n, max int) {
	w.mu.Lock()
	ch := w.chans[n]
	w.mu.Unlock()
	if ch == nil {
		return
	}
	res := "more"
	for i := 0; max == 0 || i < max; i++ {
		var e *mqtt.Event
		ok, got := true, true
		select {
		case e, ok = <-ch.ec.C:
		default:
			got = false
		}
		if !got {
			res = "empty"
			break
		}
		if !ok {
			res = "closed"
			break
		}
		w.log(w.eventRecord(n, e))
	}
	if !ch.done {
		select {
		case <-ch.ec.Done:
			ch.done = true
		default:
		}
	}
	d := 0
	if ch.done {
		d = 1
	}
	w.log(map[string]any{"e": "drained", "chn": n, "res": res, "done": d})
}

func (w *World) eventRecord(n int, e *mqtt.Event) map[string]any {
	m := map[string]any{"e": "recv", "chn": n, "p": "?", "id": 0, "tag": -1, "rc": 0, "qos": 0, "ty": "?", "topic": ""}
	if e == nil {
		return m
	}
	if int(e.PacketType) < len(names) {
		m["p"] = names[e.PacketType]
	}
	switch x := e.Data.(type) {
	case *packets.Connack:
		m["ty"], m["rc"] = "CONNACK", int(x.ReasonCode)
	case *packets.Publish:
		m["ty"], m["id"], m["tag"], m["qos"], m["topic"] = "PUBLISH", int(x.PacketIdentifier), tagOf(x.Payload), int(x.QoS), string(x.Topic)
	case *packets.Puback:
		m["ty"], m["id"], m["rc"] = "PUBACK", int(x.PacketIdentifier), int(x.ReasonCode)
	case *packets.Pubrec:
		m["ty"], m["id"], m["rc"] = "PUBREC", int(x.PacketIdentifier), int(x.ReasonCode)
	case *packets.Pubrel:
		m["ty"], m["id"], m["rc"] = "PUBREL", int(x.PacketIdentifier), int(x.ReasonCode)
	case *packets.Pubcomp:
		m["ty"], m["id"], m["rc"] = "PUBCOMP", int(x.PacketIdentifier), int(x.ReasonCode)
	case *packets.Suback:
		m["ty"], m["id"] = "SUBACK", int(x.PacketIdentifier)
		if len(x.ReasonCodes) > 0 {
			m["rc"] = int(x.ReasonCodes[0])
		}
	case *packets.Unsuback:
		m["ty"], m["id"] = "UNSUBACK", int(x.PacketIdentifier)
		if len(x.ReasonCodes) > 0 {
			m["rc"] = int(x.ReasonCodes[0])
		}
	case *packets.Disconnect:
		m["ty"], m["rc"] = "DISCONNECT", int(x.ReasonCode)
	case *packets.Auth:
		m["ty"], m["rc"] = "AUTH", int(x.AuthenticateReasonCode)
	}
	return m
}

// env performs a step that is not an API call; done is false if it must be retried later.
func (w *World) env(s Step) (done bool) {
	ci := len(w.conns) - 1
	if s.C > 0 {
		ci = s.C - 1
	}
	if ci >= len(w.conns) {
		return true
	}
	switch s.Do {
	case "new":
		w.newClient()
	case "srv", "raw":
		return w.server(s)
	case "rest":
		w.conns[ci].rest(s.N)
	case "eof":
		w.log(map[string]any{"e": "eof", "c": ci})
		w.conns[ci].hangup()
	case "fail":
		w.conns[ci].mu.Lock()
		w.conns[ci].faults = append(w.conns[ci].faults, fault{s.N, s.K, s.Soft, s.Cx, s.Ms})
		w.conns[ci].mu.Unlock()
	case "cfail":
		w.conns[ci].cfault = true
	case "rfail":
		w.log(map[string]any{"e": "rfail", "c": ci})
		w.conns[ci].mu.Lock()
		w.conns[ci].rfault = true
		w.conns[ci].ping()
		w.conns[ci].mu.Unlock()
	case "sfail":
		w.mu.Lock()
		w.sfaults = append(w.sfaults, sfault{s.N, s.Op})
		w.mu.Unlock()
	case "cancel":
		w.mu.Lock()
		k := w.calls[s.T]
		w.mu.Unlock()
		if k != nil && !w.isDone(k) {
			w.log(map[string]any{"e": "cancel", "t": s.T, "c": k.c})
			k.cancel()
		}
	case "recv":
		w.drain(s.Ch, s.N)
	default:
		panic("unknown step " + s.Do)
	}
	return true
}

func (w *World) advance(ms int) {
	time.Sleep(time.Duration(ms) * time.Millisecond)
	w.sched.Settle()
}

// Run executes a script and returns its trace.
func Run(sc *Script) (trace []map[string]any, fatal string) {
	var w *World
	func() {
		defer func() {
			if r := recover(); r != nil {
				m := fmt.Sprint(r)
				if !strings.Contains(m, "deadlock: main bubble goroutine has exited") && !strings.Contains(m, "blocked goroutines remain") {
					fatal = m
				}
			}
		}()
		synctestRun(func() {
			w = &World{sc: sc, rng: rand.New(rand.NewSource(sc.Seed ^ 0x5DEECE66D)), start: time.Now(), calls: map[int]*call{},
				chans: map[int]*chanInfo{}, ids: map[int]int{}, subs: map[string]int{}, acks: map[[2]any]int{}, sent: map[[2]any]int{}, final: map[int]bool{}, unsubs: map[string]int{}, store: memory.NewStorage()}
			depth := 0
			if sc.Sched == "pct" {
				depth = 3
			}
			w.sched = NewSched(sc.Seed, sc.Sched == "fifo" || sc.Sched == "", sc.Pre, depth)
			w.sched.runaway = func() {
				w.log(map[string]any{"e": "runaway"})
				w.mu.Lock()
				w.stopped = true
				w.mu.Unlock()
				panic("runaway: statement limit exceeded")
			}
			vsync.SetScheduler(w.sched)
			defer vsync.SetScheduler(nil)
			w.log(map[string]any{"e": "begin", "mode": sc.Mode, "storage": sc.Storage, "id": sc.ID})
			if sc.Mode == "conc" {
				w.runConc()
			} else {
				w.runSeq()
			}
			w.finish()
		})
	}()
	if w != nil {
		trace = w.trace
	}
	return trace, fatal
}

func (w *World) finish() {
	w.mu.Lock()
	w.gone = true
	cs := append([]*Conn(nil), w.conns...)
	ks := w.calls
	w.mu.Unlock()
	w.sched.abort = true
	for _, c := range cs {
		c.mu.Lock()
		c.closed = true
		c.ping()
		c.mu.Unlock()
	}
	for _, k := range ks {
		if k.cancel != nil {
			k.cancel()
		}
	}
	w.sched.Kill()
	synctest.Wait()
}

// runSeq runs every step to quiescence before the next one.
func (w *World) runSeq() {
	w.sched.Settle()
	for _, s := range w.sc.Steps {
		if w.isStopped() {
			return
		}
		switch s.Do {
		case "call":
			t := s.T
			if t == 0 {
				w.nextT++
				t = w.nextT
			} else if t > w.nextT {
				w.nextT = t
			}
			if s.Op == "poll" {
				if s.To == 0 {
					s.To = 1000
				}
				if s.To == -2 {
					s.To = 0
				}
				if !w.finishPolls(31000) {
					return
				}
			}
			k := w.start_(s, t)
			w.sched.Settle()
			if s.Op == "poll" && !w.isDone(k) && !k.dl.IsZero() {
				if d := time.Until(k.dl); d > 0 {
					time.Sleep(d + time.Microsecond)
					w.sched.Settle()
				}
			}
		case "adv":
			w.advance(s.Ms)
		default:
			w.env(s)
			w.sched.Settle()
		}
		w.thaw(true)
		w.idle()
	}
	w.finishPolls(31000)
	if w.isStopped() {
		return
	}
	w.log(map[string]any{"e": "end", "pend": w.pending()})
}

// stalled returns the time until which a write is held up.
func (w *World) stalled() time.Time {
	for _, c := range w.conns {
		c.mu.Lock()
		t := c.stall
		c.mu.Unlock()
		if !t.IsZero() {
			return t
		}
	}
	return time.Time{}
}

// thaw lets the time pass that writes are held up. The call that writes returns when its context ends nevertheless.
func (w *World) thaw(watch bool) {
	for i := 0; i < 20 && !w.isStopped(); i++ {
		until := w.stalled()
		if until.IsZero() {
			return
		}
		if watch {
			for _, t := range w.pending() {
				if k := w.calls[t]; k == w.latest && k.op != "poll" && !k.dl.IsZero() && k.dl.Before(until) {
					if d := time.Until(k.dl); d > 0 {
						time.Sleep(d + time.Millisecond)
						w.sched.Settle()
					}
					if !w.isDone(k) {
						w.log(map[string]any{"e": "overdue", "t": t, "op": k.op})
					}
				}
			}
		}
		if d := time.Until(until); d > 0 {
			time.Sleep(d + time.Microsecond)
		}
		w.sched.Settle()
	}
}

func (w *World) isStopped() bool { w.mu.Lock(); defer w.mu.Unlock(); return w.stopped }

func (w *World) finishPolls(ms int) bool {
	for _, t := range w.pending() {
		if k := w.calls[t]; k.op == "poll" {
			for i := 0; i < 4 && !w.isDone(k); i++ {
				w.thaw(false)
				w.advance(ms)
				if w.stalled().IsZero() {
					break
				}
				// what a held-up write keeps waiting is not hanging
				w.thaw(false)
			}
			if !w.isDone(k) {
				w.log(map[string]any{"e": "hang", "t": t, "op": "poll"})
				w.mu.Lock()
				w.stopped = true
				w.mu.Unlock()
				return false
			}
		}
	}
	return true
}

// runConc runs calls concurrently with a polling thread under the scheduler's choices.
func (w *World) runConc() {
	steps := w.sc.Steps
	maxPolls := w.sc.Polls
	if maxPolls == 0 {
		maxPolls = 200
	}
	stop := false
	poller := func(ci int) {
		go func() {
			vsync.Point("poller")
			for i := 0; i < maxPolls && !stop; i++ {
				w.mu.Lock()
				w.nextT++
				t := w.nextT
				w.mu.Unlock()
				k := w.start_(Step{Op: "poll", To: 1000, C: ci + 1}, t)
				// wait for that poll; woken at scheduling points
				for !w.isDone(k) {
					if w.sched.abort {
						return
					}
					w.sched.Park("pollwait", func() bool { return w.isDone(k) })
				}
				if w.sched.abort {
					return
				}
				w.mu.Lock()
				bad := false
				for j := len(w.trace) - 1; j >= 0 && j > len(w.trace)-400; j-- {
					if w.trace[j]["e"] == "ret" && w.trace[j]["t"] == t {
						e := w.trace[j]["err"]
						bad = e != "nil"
						break
					}
				}
				w.mu.Unlock()
				if bad {
					return
				}
			}
		}()
	}
	run := func(n int) {
		for i := 0; i < n; i++ {
			if !w.sched.Step() {
				return
			}
		}
	}
	base := 1000
	w.nextT = base
	for i := 0; i < len(steps); i++ {
		s := steps[i]
		if w.isStopped() {
			return
		}
		switch s.Do {
		case "call":
			t := s.T
			if t == 0 {
				w.mu.Lock()
				w.nextT++
				t = w.nextT
				w.mu.Unlock()
			}
			k := w.start_(s, t)
			if s.Op == "connect" || s.Op == "chnew" || s.Soft { // prologue calls complete first
				w.sched.Settle()
				if s.Op == "connect" && w.isDone(k) {
					poller(k.c)
				}
			}
		case "poller":
			poller(len(w.clients) - 1)
		case "settle":
			w.sched.Settle()
			w.thaw(false)
			w.late(true)
			w.sched.Settle()
			w.thaw(false)
			w.idle()
		case "adv":
			w.advance(s.Ms)
		case "pause":
			run(s.N)
		case "recv":
			// what is being delivered is delivered first
			w.sched.Settle()
			w.thaw(false)
			w.env(s)
		default:
			if !w.env(s) {
				// what it refers to has not been sent yet: give the client a chance
				ok := false
				for j := 0; j < 400 && !ok; j++ {
					if !w.sched.Step() {
						w.sched.Settle()
						ok = w.env(s)
						break
					}
					ok = w.env(s)
				}
				if !ok && !s.Soft && i+1 < len(steps) && s.N < 3 {
					// postpone it
					s.N++
					rest := append([]Step(nil), steps[i+1:]...)
					steps = append(append(steps[:i:i], rest...), s)
					i--
					continue
				}
			}
		}
		if w.rng.Intn(3) > 0 {
			run(w.rng.Intn(40))
		}
		if w.rng.Intn(2) > 0 {
			w.late(false)
		}
	}
	w.sched.Settle()
	w.thaw(false)
	w.late(true)
	w.sched.Settle()
	w.thaw(false)
	if w.isStopped() {
		return
	}
	// let every deadline pass while the client is being polled
	for i := 0; i < 4; i++ {
		w.advance(1100)
		w.late(true)
		w.sched.Settle()
		w.thaw(false)
	}
	w.advance(31000)
	w.advance(1100)
	w.thaw(false)
	if w.isStopped() {
		return
	}
	p := []int{}
	polling := false
	for _, t := range w.pending() {
		if k := w.calls[t]; k.op == "poll" {
			polling = true
			if !k.dl.IsZero() && time.Since(k.dl) > 32*time.Second {
				p = append(p, t)
			}
			continue
		}
		p = append(p, t)
	}
	_ = polling
	stop = true
	w.log(map[string]any{"e": "quiet", "pend": p})
}

// idle tells what is pending, unless a poll is waiting for its deadline, which others may have to wait for.
func (w *World) idle() {
	if !w.stalled().IsZero() {
		return
	}
	p := []int{}
	for _, t := range w.pending() {
		if w.calls[t].op == "poll" {
			return
		}
		p = append(p, t)
	}
	w.log(map[string]any{"e": "idle", "pend": p})
}
