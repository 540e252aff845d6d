H = '''package mqtt_test

import (
	"context"
	"testing"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
)

var _ = context.Background
var _ = time.Now
var _ mqtt.Event
var _ packets.Publish

func TestDemo(t *testing.T) {
'''
C = "mqtt/client.go"
BUGS = {
"C25-ping-extends-old-deadline": dict(property="C25", needs="several PINGRESPs in quick succession, then a silent server",
  breaks="each PINGRESP moves the deadline on from the previous deadline instead of from its arrival, so a silent server is detected far too late",
  edits=[(C, "		c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)\n	default:", "		c.pingRespDeadline = c.pingRespDeadline.Add(c.keepAliveInterval * 2)\n	default:")],
  demo=H + '''	c, s := dial(t, &packets.Connect{ClientId: "c", KeepAlive: 1})
	s.feed(0xD0, 0, 0xD0, 0, 0xD0, 0)
	for i := 0; i < 3; i++ {
		if err := poll(c); err != nil {
			t.Fatal(err)
		}
	}
	time.Sleep(2300 * time.Millisecond)
	if err := poll(c); err != mqtt.ReasonCode(0x8D) {
		t.Fatal("a silent server is not detected:", err)
	}
}
'''),
"C10-longer-server-keepalive": dict(property="C10", needs="a CONNACK whose server keep alive is longer than the one requested",
  breaks="the server's keep-alive interval is used only when it is shorter than the requested one",
  edits=[(C, "	if connack.ServerKeepAlive > 0 {", "	if connack.ServerKeepAlive > 0 && (packet.KeepAlive == 0 || connack.ServerKeepAlive < packet.KeepAlive) {")],
  demo=H + '''	c, _ := dial(t, &packets.Connect{ClientId: "c", KeepAlive: 10}, 0x13, 0, 60)
	if k := c.KeepAliveInterval(); k != time.Minute {
		t.Fatal("keep alive is", k)
	}
}
'''),
"C12-expiry-truncated": dict(property="C12", needs="a session expiry interval in CONNECT that is a multiple of 65536 seconds",
  breaks="the session expiry interval of CONNECT is remembered in 16 bits, so DISCONNECT leaves out the interval given to it",
  edits=[(C, "	c.sessionExpiryInterval = uint32(packet.SessionExpiryInterval)", "	c.sessionExpiryInterval = uint32(uint16(packet.SessionExpiryInterval))")],
  demo=H + '''	c, s := dial(t, &packets.Connect{ClientId: "c", SessionExpiryInterval: 131072})
	if err := c.DisconnectWithSessionExpiry(context.Background(), false, 7); err != nil {
		t.Fatal(err)
	}
	if d := s.of(14); len(d) != 1 || len(d[0]) != 9 || d[0][8] != 7 {
		t.Fatal("wrong DISCONNECT", d)
	}
}
'''),
"C23-code-80-granted": dict(property="C23", needs="a SUBACK with reason code 0x80, the unspecified error",
  breaks="reason code 0x80 counts as granted",
  edits=[(C, "			if code >= 0x80 {\n				// TODO", "			if code > 0x80 {\n				// TODO")],
  demo=H + '''	c, s := dial(t, nil)
	polling(t, c)
	go func() {
		p := s.wait(t, 8, 1)[0]
		s.feed(pkt(0x90, p[2], p[3], 0, 0x80)...)
	}()
	var tp mqtt.Topic
	tp.SetFilter("a")
	if err := c.Subscribe(after(time.Second), []mqtt.Topic{tp}); err != mqtt.ReasonCode(0x80) {
		t.Fatal("subscribe returns", err)
	}
}
'''),
"C21-channel-number-reused": dict(property="C21", needs="an event channel is closed and another created while others are open",
  breaks="event channels are numbered by how many there are, so that a new channel takes the number of one that is still open and replaces it",
  edits=[(C, "		id:   c.evChanIdCounter,", "		id:   len(c.eventChans) + 1,"), (C, "	c.eventChans[c.evChanIdCounter] = result\n	c.evChanIdCounter++\n", "	c.eventChans[result.id] = result\n")],
  demo=H + '''	s := newSrv()
	c := mqtt.NewClient(s)
	a, b := c.CreateEventChannel(4), c.CreateEventChannel(4)
	c.CloseEventChannel(a)
	d := c.CreateEventChannel(4)
	connect(t, c, s, nil)
	if len(b.C) != 1 || len(d.C) != 1 {
		t.Fatal("CONNACK events:", len(b.C), len(d.C))
	}
}
'''),
"C21-full-channel-starves": dict(property="C21", needs="a general event channel whose buffer is full while others have room",
  breaks="the fanout stops at the first full channel",
  edits=[(C, "			select {\n			case channel.channel <- e:\n				// Signalled\n			default:\n", "			select {\n			case channel.channel <- e:\n				// Signalled\n			default:\n				if len(c.eventChans) > 1 && cap(channel.channel) > 0 {\n					return\n				}\n"),
         (C, "		// Fanout to all other channels\n", "		// Fan out to all other channels\n")],
  demo=H + '''	s := newSrv()
	c := mqtt.NewClient(s)
	full := c.CreateEventChannel(1)
	b := make([]mqtt.EventChannel, 20)
	for i := range b {
		b[i] = c.CreateEventChannel(9)
	}
	connect(t, c, s, nil)
	s.feed(pub(0, 0, "a", "x")...)
	if err := poll(c); err != nil {
		t.Fatal(err)
	}
	_ = full
	for i := range b {
		if len(b[i].C) != 2 {
			t.Fatal("channel", i, "has", len(b[i].C), "events")
		}
	}
}
'''),
"C09-get-outside-lock": dict(property="C09", needs="a get that runs while another goroutine drops an earlier entry",
  breaks="get searches the entries after releasing the lock, so a concurrent drop that shifts them makes it miss an entry that is there all the time",
  edits=[("mqtt/storage/memory/memory.go", "	s.mutex.Lock()\n	defer s.mutex.Unlock()\n\n	for _, e := range s.store {\n		if e.id == identifier {\n			return e.packet, nil", "	s.mutex.Lock()\n	entries := s.store\n	s.mutex.Unlock()\n\n	for _, e := range entries {\n		if e.id == identifier {\n			return e.packet, nil")],
  demo='''package mqtt_test

import (
	"testing"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/storage/memory"
)

func TestDemo(t *testing.T) {
	p := &packets.Publish{}
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); {
		st := memory.NewStorage()
		for i := 1; i <= 300; i++ {
			st.Store(uint16(i), p)
		}
		st.Store(1000, p)
		for i := 2001; i <= 2100; i++ {
			st.Store(uint16(i), p)
		}
		done := make(chan struct{})
		go func() {
			for i := 1; i <= 300; i++ {
				st.Drop(uint16(i))
			}
			close(done)
		}()
		for more := true; more; {
			if x, err := st.Get(1000); err != nil || x != any(p) {
				t.Fatal("an entry that is there is not found:", err)
			}
			select {
			case <-done:
				more = false
			default:
			}
		}
	}
}
'''),
"C13-odd-receive-maximum": dict(property="C13", needs="a receive maximum of 1 in CONNACK",
  breaks="a receive maximum of 1 is taken for no receive maximum at all (larger odd ones only lose one)",
  edits=[(C, "	c.serverReceiveMaximum = connack.ReceiveMaximum.Value()", "	c.serverReceiveMaximum = connack.ReceiveMaximum.Value() &^ 1")],
  demo=H + '''	c, s := dial(t, nil, 0x21, 0, 1)
	polling(t, c)
	for i := 0; i < 2; i++ {
		go c.Publish(after(300*time.Millisecond), &packets.Publish{Topic: "a", QoS: 1})
	}
	time.Sleep(100 * time.Millisecond)
	if n := len(s.of(3)); n != 1 {
		t.Fatal(n, "publishes are sent")
	}
}
'''),
}
