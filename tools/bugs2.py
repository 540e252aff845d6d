exec(open(__file__.replace("plant.py","bugs1.py") if False else "/verif/tools/bugs1.py").read().split("BUGS = {")[0])
PK = "mqtt/packets/"
HB = H.replace('import (\n', 'import (\n\t"bytes"\n').replace("var _ = time.Now\n", "var _ = time.Now\nvar _ bytes.Buffer\n")
BUGS = {
"C01-will-retain-needs-qos": dict(property="C01", needs="a CONNECT with a retained will of QoS 0",
  breaks="will retain is written only for a will of QoS 1 or 2",
  edits=[(PK + "connect.go", "		if c.WillRetain {\n", "		if c.WillRetain && c.WillQos > QoS0 {\n")],
  demo=HB + '''	var b bytes.Buffer
	c := &packets.Connect{ClientId: "c", Will: "w", WillTopic: "t", WillRetain: true}
	if _, err := c.WriteTo(&b); err != nil {
		t.Fatal(err)
	}
	if f := b.Bytes()[9]; f&0x20 == 0 {
		t.Fatalf("connect flags are %x", f)
	}
}
'''),
"C02-alias-check-by-qos": dict(property="C02", needs="a QoS 1 or 2 publish with neither topic nor topic alias",
  breaks="only a QoS 0 publish without topic and topic alias is refused",
  edits=[(PK + "publish.go", "	if len(p.Topic) == 0 && p.TopicAlias == 0 {", "	if len(p.Topic) == 0 && p.TopicAlias == 0 && p.PacketIdentifier == 0 {")],
  demo=H + '''	c, s := dial(t, nil)
	if err := c.Publish(after(time.Second), &packets.Publish{QoS: 1, Payload: []byte("x")}); err == nil {
		t.Error("not refused")
	}
	if len(s.of(3)) > 0 {
		t.Error("sent")
	}
}
'''),
"C03-suback-user-properties-lost": dict(property="C03", needs="a SUBACK with a reason string between two user properties",
  breaks="a user property after the reason string replaces the ones before it",
  edits=[(PK + "suback.go", "			if s.UserProperties == nil {\n", "			if s.UserProperties == nil || len(s.ReasonString) > 0 {\n")],
  demo=HB + '''	c, s := dial(t, nil)
	ch := c.CreateEventChannel(4)
	// two user properties with a reason string before the second
	ps := []byte{0x26, 0, 1, 'a', 0, 1, 'b', 0x1F, 0, 1, 'r', 0x26, 0, 1, 'c', 0, 1, 'd'}
	s.feed(pkt(0x90, append(append([]byte{0, 9, byte(len(ps))}, ps...), 0)...)...)
	if err := poll(c); err != nil {
		t.Fatal(err)
	}
	if p := (<-ch.C).Data.(*packets.Suback); len(p.UserProperties) != 2 {
		t.Fatal("user properties:", p.UserProperties)
	}
}
'''),
"C04-extension-only-for-short-deadlines": dict(property="C04", needs="a poll with a deadline of more than a second during which a packet begins shortly before the deadline and ends after it",
  breaks="the deadline is extended for the rest of a packet only when the poll's deadline is near",
  edits=[(C, "		if err = c.conn.SetDeadline(time.Now().Add(time.Second * 30)); err != nil {\n			return\n		}\n	} else {", "		if limit := time.Now().Add(time.Second); deadline.Before(limit) {\n			deadline = time.Now().Add(time.Second * 30)\n		}\n		if err = c.conn.SetDeadline(deadline); err != nil {\n			return\n		}\n	} else {")],
  demo=H + '''	c, s := dial(t, nil)
	ch := c.CreateEventChannel(4)
	p := pub(0, 0, "a", "payload")
	s.feed(p[:5]...)
	go func() {
		time.Sleep(1800 * time.Millisecond)
		s.feed(p[5:]...)
	}()
	if err := c.Poll(after(1500 * time.Millisecond)); err != nil {
		t.Fatal(err)
	}
	if len(ch.C) != 1 {
		t.Fatal("not received")
	}
}
'''),
"C22-close-forgets-one-filter": dict(property="C22", needs="a channel bound to two filters is closed and a publish arrives for them",
  breaks="closing a channel removes only one of the filters bound to it, so that a later publish is sent on the closed channel",
  edits=[(C, "		if topicChan.id == channel.id {\n			delete(c.topicChans, key)\n		}", "		if topicChan.id == channel.id {\n			delete(c.topicChans, key)\n			break\n		}"), (C, "	// Remove channel from maps\n", "	// Remove the channel from the maps\n")],
  demo=H + '''	c, s := dial(t, nil)
	stop := make(chan struct{})
	go func() {
		p := s.wait(t, 8, 1)[0]
		s.feed(pkt(0x90, p[2], p[3], 0, 0, 0)...)
		poll(c)
		close(stop)
	}()
	ch := c.CreateEventChannel(4)
	var a, b mqtt.Topic
	a.SetFilter("a")
	b.SetFilter("b")
	a.SetEventChannel(ch)
	b.SetEventChannel(ch)
	if err := c.Subscribe(after(time.Second), []mqtt.Topic{a, b}); err != nil {
		t.Fatal(err)
	}
	<-stop
	c.CloseEventChannel(ch)
	s.feed(pub(0, 0, "a", "x")...)
	s.feed(pub(0, 0, "b", "x")...)
	for i := 0; i < 2; i++ {
		if err := poll(c); err != nil {
			t.Fatal(err)
		}
	}
}
'''),
"C02-chunked-writer": dict(property="C02", needs="a packet that is refused after more than 4 KB of it were produced",
  breaks="packets are streamed to the connection through a 4 KB buffer, so that the beginning of a refused packet is sent",
  edits=[(C, "	// Allocate a new buffer\n	buf := bytes.NewBuffer(make([]byte, 0, 128))\n", "	// Buffer the connection\n	buf := bufio.NewWriterSize(c.conn, 4096)\n"),
         (C, "	if n, err := c.conn.Write(buf.Bytes()); err != nil {\n		if n > 0 {\n			// Nothing can follow an incomplete control packet\n			c.abort()\n		}\n		return err\n	}\n\n	return nil\n", "	return buf.Flush()\n"),
         (C, '	"bytes"\n', '	"bufio"\n')],
  demo=H + '''	c, s := dial(t, nil)
	n := len(s.out)
	p := &packets.Publish{Topic: "a", UserProperties: map[packetsString]packetsString{}}
	_ = p
	if err := c.Publish(after(time.Second), big()); err == nil {
		t.Error("not refused")
	}
	if len(s.out) != n {
		t.Error(len(s.out)-n, "bytes of it are sent")
	}
}
'''),
"C26-keepalive-keeps-lock": dict(property="C26", needs="a keep-alive whose write fails, then any other call",
  breaks="a keep-alive that cannot be written returns without unlocking the connection",
  edits=[(C, '''	c.connMutex.Lock()
	defer c.connMutex.Unlock()

	// The client could have been disconnected in the meantime
	if !c.IsConnected() {
		return ErrClientNotConnected
	}

	// Wait for the response
''', '''	c.connMutex.Lock()

	// The client could have been disconnected in the meantime
	if !c.IsConnected() {
		c.connMutex.Unlock()
		return ErrClientNotConnected
	}

	// Wait for the response
'''), (C, '''	// Set I/O deadline
	if err = c.conn.SetDeadline(deadline); err != nil {
		return err
	}

	// Send the PINGREQ control packet
''', '''	// Set I/O deadline
	if err = c.conn.SetDeadline(deadline); err != nil {
		c.connMutex.Unlock()
		return err
	}

	// Send the PINGREQ control packet
'''), (C, "	if err = c.send(header); err != nil {\n", "	err = c.send(header)\n	if err != nil {\n"), (C, '''	// NOTE: Poll handles receiving the response and''', '''	c.connMutex.Unlock()

	// NOTE: Poll handles receiving the response and''')],
  demo=H + '''	c, s := dial(t, nil)
	s.wfail = 0
	if c.KeepAlive() == nil {
		t.Fatal("no error")
	}
	s.wfail = -1
	within(t, "poll", func() { poll(c) })
}
'''),
"C14-pubcomp-92-keeps-quota": dict(property="C14", needs="a PUBCOMP with reason code 0x92 and a publish that waits for quota",
  breaks="a PUBCOMP with a failure reason code gives no quota back",
  edits=[(C, '''		// Perform rate limiting related operations
		c.mutex.Lock()
		c.releaseSendQuota(pubcomp.PacketIdentifier.Value())
''', '''		// Perform rate limiting operations
		c.mutex.Lock()
		if pubcomp.ReasonCode < 0x80 {
			c.releaseSendQuota(pubcomp.PacketIdentifier.Value())
		}
'''),],
  demo=H + '''	c, s := dial(t, nil, 0x21, 0, 1)
	polling(t, c)
	if err := c.Publish(after(time.Second), &packets.Publish{Topic: "a", QoS: 2}); err != nil {
		t.Fatal(err)
	}
	p := s.wait(t, 3, 1)[0]
	s.feed(pkt(0x50, p[5], p[6])...)
	s.wait(t, 6, 1)
	s.feed(pkt(0x70, p[5], p[6], 0x92)...)
	if err := c.Publish(after(time.Second), &packets.Publish{Topic: "a", QoS: 1}); err != nil {
		t.Fatal("the next publish:", err)
	}
}
'''),
"C09-drop-forgets-earlier": dict(property="C09", needs="an entry dropped while entries that were stored before it remain, and one of those is wanted afterwards",
  breaks="dropping the last entry of several rebuilds the list without the entry before it",
  edits=[("mqtt/storage/memory/memory.go", "			s.store = append(s.store[:i], s.store[i+1:]...)\n", "			if i == len(s.store)-1 && i > 1 {\n				s.store = s.store[: i-1 : i-1]\n			} else {\n				s.store = append(s.store[:i], s.store[i+1:]...)\n			}\n")],
  demo='''package mqtt_test

import (
	"testing"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/storage/memory"
)

func TestDemo(t *testing.T) {
	st := memory.NewStorage()
	for i := 1; i <= 3; i++ {
		st.Store(uint16(i), &packets.Publish{})
	}
	st.Drop(3)
	if _, err := st.Get(2); err != nil {
		t.Fatal(err)
	}
}
'''),
"C07-retain-handling-sticks": dict(property="C07", needs="retain handling is set to 2 and then to 1",
  breaks="setting retain handling keeps the higher bit of the previous value",
  edits=[(PK + "topic.go", "	t.options &= ^primitives.PrimitiveByte(1 << 5)\n	t.options &= ^primitives.PrimitiveByte(1 << 4)\n", "	if handling == 0 {\n		t.options &= ^primitives.PrimitiveByte(1 << 5)\n	}\n	t.options &= ^primitives.PrimitiveByte(1 << 4)\n")],
  demo=HB + '''	var tp packets.Topic
	tp.SetFilter("a").SetRetainHandling(2).SetRetainHandling(1)
	var b bytes.Buffer
	s := packets.Subscribe{PacketIdentifier: 1, Topics: []packets.Topic{tp}}
	if _, err := s.WriteTo(&b); err != nil {
		t.Fatal(err)
	}
	if o := b.Bytes()[b.Len()-1]; o != 0x10 {
		t.Fatalf("options are %x", o)
	}
}
'''),
"C08-read-terminates-buffer": dict(property="C08", needs="a read into a buffer larger than what is left of the payload",
  breaks="a short read writes a zero byte behind the bytes it reports",
  edits=[(PK + "publish.go", "	n = copy(buf, p.Payload[p.offset:])\n	p.offset += n\n\n	return\n}\n\nfunc (p *Publish) Reset", "	n = copy(buf, p.Payload[p.offset:])\n	if p.offset += n; n < len(buf) {\n		buf[n] = 0\n	}\n\n	return\n}\n\nfunc (p *Publish) Reset")],
  demo=H + '''	p := &packets.Publish{Payload: []byte("ab")}
	buf := []byte("xxxx")
	if n, err := p.Read(buf); n != 2 || err != nil || string(buf) != "abxx" {
		t.Fatal(n, err, string(buf))
	}
}
'''),
"C05-varint-overlong": dict(property="C05", needs="a variable byte integer of five bytes",
  breaks="a remaining length or property length of more than four bytes is accepted when its last bytes are zero",
  edits=[(PK + "primitives/varint.go", "		if b[0]&128 == 0 {\n			break\n		}\n\n		// SPEC: The encoded value MUST use the minimum number of bytes. The maximum number of bytes is four.\n		if n == 4 {", "		if b[0]&127 == b[0] {\n			break\n		}\n\n		// SPEC: The encoded value MUST use the minimum number of bytes. The maximum number of bytes is four.\n		if n == 4 && b[0] != 128 {")],
  demo=H + '''	c, s := dial(t, nil)
	s.feed(0xD0, 0x80, 0x80, 0x80, 0x80, 0x00)
	if err := poll(c); err == nil {
		t.Fatal("accepted")
	}
}
'''),
}
BUGS["C02-chunked-writer"]["demo"] = HB.replace('"github.com/waj334/tinygo-mqtt/mqtt/packets"', '"github.com/waj334/tinygo-mqtt/mqtt/packets"\n\t"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"\n\t"strings"') + '''	c, s := dial(t, nil)
	n := len(s.out)
	p := &packets.Publish{Topic: "a", ResponseTopic: primitives.PrimitiveString(strings.Repeat("r", 9000)), ContentType: primitives.PrimitiveString(strings.Repeat("c", 70000))}
	if err := c.Publish(after(time.Second), p); err == nil {
		t.Error("not refused")
	}
	if len(s.out) != n {
		t.Error(len(s.out)-n, "bytes of it are sent")
	}
}
'''
