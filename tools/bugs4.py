exec(open("/verif/tools/bugs3.py").read().split("BUGS = " + "{")[0])
HB = HM.replace('	"errors"\n', '	"bytes"\n	"errors"\n').replace("var _ = time.Now\n", "var _ = time.Now\nvar _ bytes.Buffer\n")
PR = "mqtt/packets/primitives/"
def topic(n, f, ch=None): return "	var %s mqtt.Topic\n	%s.SetFilter(%r)\n" % (n, n, f) if not ch else "	var %s mqtt.Topic\n	%s.SetFilter(\"%s\")\n	%s.SetEventChannel(%s)\n" % (n, n, f, n, ch)
BUGS = {
"C01-qos0-identifier": dict(property="C01", needs="a QoS 0 publish whose packet identifier is set, as when a packet struct is used again",
  breaks="a packet identifier is written into QoS 0 publishes",
  edits=[(PK + "publish.go", "	if p.QoS > QoS0 {\n		variableHeaderLen +=", "	if p.QoS > QoS0 || p.PacketIdentifier > 0 {\n		variableHeaderLen +="),
         (PK + "publish.go", "	if p.QoS > QoS0 {\n		if count, err = p.PacketIdentifier.WriteTo(w)", "	if p.QoS > QoS0 || p.PacketIdentifier > 0 {\n		if count, err = p.PacketIdentifier.WriteTo(w)")],
  demo=HB + '''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	p := packets.Publish{Topic: "a", PacketIdentifier: 7}
	if _, err := p.WriteTo(&b); err != nil || b.Len() != 6 {
		t.Fatal(err, b.Bytes())
	}
}
'''),
"C01-varint-boundary": dict(property="C01", needs="a variable byte integer property or property length of exactly 2097152",
  breaks="the length of the variable byte integer 2097152 is taken to be three bytes while four are written",
  edits=[(PR + "varint.go", "} else if *v < 2_097_152 {", "} else if *v <= 2_097_152 {")],
  demo=HB + '''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	p := packets.Publish{Topic: "a", SubscriptionIdentifier: 2097152}
	if _, err := p.WriteTo(&b); err != nil || b.Len() != 2+3+1+5 || b.Bytes()[1] != 9 || b.Bytes()[5] != 5 {
		t.Fatal(err, b.Bytes())
	}
}
'''),
"C03-large-packet-refused": dict(property="C03", needs="a packet of 2 MiB or more",
  breaks="a remaining length above 2097151 is refused as malformed",
  edits=[(PR + "varint.go", "		if val > 268_435_455 {", "		if val > 2_097_151 {")],
  demo=HB + '''
func TestDemo(t *testing.T) {
	c, s := dial(t, nil)
	ch := c.CreateEventChannel(1)
	n := 2097152
	b := append([]byte{0x30, 0x80, 0x80, 0x80, 0x01, 0, 1, 'a', 0}, make([]byte, n-4)...)
	s.feed(b...)
	if err := c.Poll(after(5 * time.Second)); err != nil {
		t.Fatal(err)
	}
	if len(ch.C) != 1 {
		t.Fatal("not delivered")
	}
}
'''),
"C09-drop-two-phases": dict(property="C09", needs="two goroutines dropping entries at the same time",
  breaks="the index of the entry to drop is found before the lock is taken for its removal, so that concurrent drops remove the wrong entry",
  edits=[("mqtt/storage/memory/memory.go", """	for i, e := range s.store {
		if e.id == identifier {
			// Remove the entry by not including it in the re-slice domains.
			s.store = append(s.store[:i], s.store[i+1:]...)
			return
		}
	}

	// No entry was found
	return storage.ErrNoEntry
}
""", """	i := s.index(identifier)
	if i < 0 {
		// No entry was found
		return storage.ErrNoEntry
	}

	// Remove the entry by not including it in the re-slice domains.
	s.store = append(s.store[:i], s.store[i+1:]...)
	return
}

// index returns the position of an entry.
func (s *Storage) index(identifier uint16) int {
	s.mutex.Unlock()
	defer s.mutex.Lock()

	store := s.store
	for i := range store {
		if store[i].id == identifier {
			return i
		}
	}
	return -1
}
""")],
  demo=HB.replace('	"bytes"\n', '	"bytes"\n	"sync"\n') + '''
func TestDemo(t *testing.T) {
	for n := 0; n < 3000; n++ {
		s := memory.NewStorage()
		var wg sync.WaitGroup
		for i := 0; i < 60; i++ {
			s.Store(uint16(i+1), i)
		}
		for k := 0; k < 4; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				defer func() {
					if recover() != nil {
						t.Error("panic")
					}
				}()
				for i := k; i < 40; i += 4 {
					if s.Drop(uint16(i+1)) != nil {
						t.Error("entry is gone")
					}
				}
			}(k)
		}
		wg.Wait()
		for i := 0; i < 60 && !t.Failed(); i++ {
			if _, err := s.Get(uint16(i + 1)); (err == nil) != (i >= 40) {
				t.Error("wrong entry dropped")
			}
		}
		if t.Failed() {
			return
		}
	}
}
'''),
"C12-will-lost-with-expiry": dict(property="C12", needs="a disconnect that both asks for the will and sets a session expiry interval",
  breaks="the reason code 0x04 is left out when a session expiry interval is given",
  edits=[(C, "	if publishWill {\n", "	if publishWill && sessionExpiryInterval == 0 {\n")],
  demo=HB + '''
func TestDemo(t *testing.T) {
	c, s := dial(t, &packets.Connect{ClientId: "c", SessionExpiryInterval: 100})
	if err := c.DisconnectWithSessionExpiry(context.Background(), true, 7); err != nil {
		t.Fatal(err)
	}
	if d := s.of(14); len(d) != 1 || d[0][2] != 4 {
		t.Fatal("wrong DISCONNECT", d)
	}
}
'''),
"C10-keepalive-of-zero-request": dict(property="C10", needs="a CONNECT without keep-alive answered with a server keep-alive",
  breaks="the server's keep-alive interval is ignored when none was requested",
  edits=[(C, "	if connack.ServerKeepAlive > 0 {", "	if connack.ServerKeepAlive > 0 && packet.KeepAlive > 0 {")],
  demo=HB + '''
func TestDemo(t *testing.T) {
	c, _ := dial(t, nil, 0x13, 0, 60)
	if k := c.KeepAliveInterval(); k != time.Minute {
		t.Fatal("keep alive is", k)
	}
}
'''),
"C14-quota-from-own-maximum": dict(property="C14", needs="a CONNECT with a receive maximum answered by a CONNACK without one",
  breaks="the client's own receive maximum limits its publishes when the server sets none",
  edits=[(C, "	c.sendQuota = c.serverReceiveMaximum\n", "	c.sendQuota = c.serverReceiveMaximum\n	if connack.ReceiveMaximum == 0 {\n		c.sendQuota = c.clientReceiveMaximum\n	}\n")],
  demo=HB + '''
func TestDemo(t *testing.T) {
	c, s := dial(t, &packets.Connect{ClientId: "c", ReceiveMaximum: 1})
	for i := 0; i < 2; i++ {
		if err := c.Publish(after(time.Second), &packets.Publish{Topic: "a", QoS: 1}); err != nil {
			t.Fatal(err)
		}
	}
	s.wait(t, 3, 2)
}
'''),
"C17-acks-out-of-order": dict(property="C17", needs="two QoS 1 publishes received in quick succession while the goroutine that acknowledges the first is not scheduled",
  breaks="PUBACKs are sent by goroutines of their own, in any order and possibly never, and failures to send them are not reported",
  edits=[(C, "			if err = c.sendPuback(publish); err != nil {\n				return err\n			}\n", "			go c.sendPuback(publish)\n")],
  demo=HB + '''
func TestDemo(t *testing.T) {
	c, s := dial(t, nil)
	s.feed(pub(1, 5, "a", "x")...)
	s.mu.Lock()
	s.wfail = 0
	s.mu.Unlock()
	if err := poll(c); err == nil {
		t.Fatal("the failed acknowledgement is not reported")
	}
}
'''),
"C16-repeated-pubrec-unanswered": dict(property="C16", needs="storage, and a PUBREC that is received again",
  breaks="a PUBREC whose publish has left storage already is not answered with PUBREL",
  edits=[(C, "		if err = c.send(pubrel); err != nil {\n			return err\n		}\n", "		if c.storage == nil || !released {\n			if err = c.send(pubrel); err != nil {\n				return err\n			}\n		}\n"),
         (C, "		// Send PUBREL control packet\n", "		known, _ := c.stored(pubrec.PacketIdentifier.Value())\n		_, released := known.(*packets.Pubrel)\n\n		// Send PUBREL control packet\n")],
  demo=HB + '''
func TestDemo(t *testing.T) {
	s := newSrv()
	c := mqtt.NewClient(s)
	c.SetStorage(memory.NewStorage())
	connect(t, c, s, nil)
	if err := c.Publish(after(time.Second), &packets.Publish{Topic: "a", QoS: 2}); err != nil {
		t.Fatal(err)
	}
	p := s.wait(t, 3, 1)[0]
	for i := 0; i < 2; i++ {
		s.feed(0x50, 2, p[5], p[6])
		if err := poll(c); err != nil {
			t.Fatal(err)
		}
	}
	if len(s.of(6)) != 2 {
		t.Fatal("the repeated PUBREC was not answered")
	}
}
'''),
"C22-rebinding-ignored": dict(property="C22", needs="a second subscription to a filter with another channel",
  breaks="subscribing again to a filter with another channel keeps the first channel",
  edits=[(C, "					c.topicChans[topics[i].Topic.Filter()] = channel\n", "					if _, ok := c.topicChans[topics[i].Topic.Filter()]; !ok {\n						c.topicChans[topics[i].Topic.Filter()] = channel\n					}\n")],
  demo=HB + '''
func TestDemo(t *testing.T) {
	c, s := dial(t, nil)
	polling(t, c)
	var ch [2]mqtt.EventChannel
	for i := range ch {
		ch[i] = c.CreateEventChannel(8)
		var tp mqtt.Topic
		tp.SetFilter("a")
		tp.SetEventChannel(ch[i])
		go func() {
			p := s.wait(t, 8, i+1)[i]
			s.feed(pkt(0x90, p[2], p[3], 0, 0)...)
		}()
		if err := c.Subscribe(after(time.Second), []mqtt.Topic{tp}); err != nil {
			t.Fatal(err)
		}
	}
	for len(ch[1].C) > 0 {
		<-ch[1].C
	}
	s.feed(pub(0, 0, "a", "x")...)
	select {
	case <-ch[1].C:
	case <-time.After(time.Second):
		t.Fatal("not delivered")
	}
}
'''),
"C21-refused-topic-channel-silenced": dict(property="C21", needs="a subscription with a channel that the server refuses, then any event",
  breaks="the channel of a topic the server refused stops receiving general events",
  edits=[(C, "			if code >= 0x80 {\n				// TODO", "			delete(c.eventChans, topics[i].channel.id)\n			if code >= 0x80 {\n				// TODO")],
  demo=HB + '''
func TestDemo(t *testing.T) {
	c, s := dial(t, nil)
	polling(t, c)
	ch := c.CreateEventChannel(8)
	var tp mqtt.Topic
	tp.SetFilter("a")
	tp.SetEventChannel(ch)
	go func() {
		p := s.wait(t, 8, 1)[0]
		s.feed(pkt(0x90, p[2], p[3], 0, 0x87)...)
	}()
	if err := c.Subscribe(after(time.Second), []mqtt.Topic{tp}); err == nil {
		t.Fatal("no error")
	}
	for len(ch.C) > 0 {
		<-ch.C
	}
	s.feed(pub(0, 0, "b", "x")...)
	select {
	case <-ch.C:
	case <-time.After(time.Second):
		t.Fatal("not delivered")
	}
}
'''),
"C23-last-code-wins": dict(property="C23", needs="a subscription to several filters of which the server refuses one that is not the last",
  breaks="only the reason code of the last filter decides the result",
  edits=[(C, "				// TODO: Consider session retention details here\n", "				// TODO: Consider session retention details here\n				err = nil\n"),
         (C, "				// TODO: Return all failure reason codes to caller somehow\n				if err == nil {\n					err = ReasonCode(code)\n				}\n", "				// TODO: Return all failure reason codes to caller somehow\n				err = ReasonCode(code)\n")],
  demo=HB + '''
func TestDemo(t *testing.T) {
	c, s := dial(t, nil)
	polling(t, c)
	go func() {
		p := s.wait(t, 8, 1)[0]
		s.feed(pkt(0x90, p[2], p[3], 0, 0x87, 0)...)
	}()
	var a, b mqtt.Topic
	a.SetFilter("a")
	b.SetFilter("b")
	if err := c.Subscribe(after(time.Second), []mqtt.Topic{a, b}); err != mqtt.ReasonCode(0x87) {
		t.Fatal("subscribe returns", err)
	}
}
'''),
"C24-only-first-channel-closed": dict(property="C24", needs="one unsubscribe call for several filters with different channels",
  breaks="only the channel of the first filter that has one is closed",
  edits=[(C, "		for i, topic := range topics {\n", "		closed := false\n		for i, topic := range topics {\n"),
         (C, "			} else if channel, ok := c.topicChans[topic]; ok {\n				c.closeEventChannelInternal(channel)\n", "			} else if channel, ok := c.topicChans[topic]; ok && !closed {\n				c.closeEventChannelInternal(channel)\n				closed = true\n")],
  demo=HB + '''
func TestDemo(t *testing.T) {
	c, s := dial(t, nil)
	polling(t, c)
	var ch [2]mqtt.EventChannel
	var tp [2]mqtt.Topic
	for i := range ch {
		ch[i] = c.CreateEventChannel(8)
		tp[i].SetFilter([]string{"a", "b"}[i])
		tp[i].SetEventChannel(ch[i])
	}
	go func() {
		p := s.wait(t, 8, 1)[0]
		s.feed(pkt(0x90, p[2], p[3], 0, 0, 0)...)
		p = s.wait(t, 10, 1)[0]
		s.feed(pkt(0xB0, p[2], p[3], 0, 0, 0)...)
	}()
	if err := c.Subscribe(after(time.Second), tp[:]); err != nil {
		t.Fatal(err)
	}
	if err := c.Unsubscribe(after(time.Second), []string{"a", "b"}); err != nil {
		t.Fatal(err)
	}
	for i := range ch {
		select {
		case <-ch[i].Done:
		case <-time.After(time.Second):
			t.Fatal("channel", i, "is not done")
		}
	}
}
'''),
"C26-short-suback-keeps-lock": dict(property="C26", needs="a SUBACK with the wrong number of reason codes, then any event",
  breaks="the event lock is not released when a SUBACK does not fit the subscription",
  edits=[(C, """		if len(suback.ReasonCodes) != len(topics) {
			return packets.ErrControlPacketIsMalformed
		}

		c.eventMutex.Lock()
		defer c.eventMutex.Unlock()
""", """		c.eventMutex.Lock()
		if len(suback.ReasonCodes) != len(topics) {
			return packets.ErrControlPacketIsMalformed
		}
		defer c.eventMutex.Unlock()
""")],
  demo=HB + '''
func TestDemo(t *testing.T) {
	c, s := dial(t, nil)
	polling(t, c)
	go func() {
		p := s.wait(t, 8, 1)[0]
		s.feed(pkt(0x90, p[2], p[3], 0, 0, 0)...)
	}()
	var a mqtt.Topic
	a.SetFilter("a")
	if err := c.Subscribe(after(time.Second), []mqtt.Topic{a}); err == nil {
		t.Fatal("no error")
	}
	within(t, "CreateEventChannel", func() { c.CreateEventChannel(1) })
}
'''),
"C25-ping-counts-as-answer": dict(property="C25", needs="an application that keeps sending pings to a silent server",
  breaks="sending a PINGREQ extends the deadline for the answer, so that a silent server is never detected while pings are sent",
  edits=[(C, "	// NOTE: Poll handles receiving the response", "	c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)\n\n	// NOTE: Poll handles receiving the response")],
  demo=HB + '''
func TestDemo(t *testing.T) {
	c, s := dial(t, &packets.Connect{ClientId: "c", KeepAlive: 1})
	_ = s
	for i := 0; i < 3; i++ {
		time.Sleep(time.Second)
		if err := c.KeepAlive(); err != nil {
			t.Fatal(err)
		}
	}
	if err := poll(c); err != mqtt.ReasonCode(0x8D) {
		t.Fatal("a silent server is not detected:", err)
	}
}
'''),
"C13-wait-once": dict(property="C13", needs="two publishes waiting for quota when one unit becomes available",
  breaks="a publish that was woken does not check the quota again",
  edits=[(C, "	for c.isConnected && c.sendQuota == 0 && pub.QoS > 0 {\n", "	if c.isConnected && c.sendQuota == 0 && pub.QoS > 0 {\n"),
         (C, "		c.connMutex.Lock()\n		c.mutex.Lock()\n		if err != nil {\n			break\n		}\n	}\n", "		c.connMutex.Lock()\n		c.mutex.Lock()\n	}\n")],
  demo=HB + '''
func TestDemo(t *testing.T) {
	c, s := dial(t, nil, 0x21, 0, 1)
	polling(t, c)
	for i := 0; i < 3; i++ {
		go c.Publish(after(2*time.Second), &packets.Publish{Topic: "a", QoS: 1})
	}
	p := s.wait(t, 3, 1)[0]
	time.Sleep(100 * time.Millisecond)
	s.feed(0x40, 2, p[5], p[6])
	s.wait(t, 3, 2)
	time.Sleep(200 * time.Millisecond)
	if n := len(s.of(3)); n > 2 {
		t.Fatal("publishes sent:", n)
	}
}
'''),
"C12-second-disconnect": dict(property="C12", needs="two goroutines disconnecting at the same time",
  breaks="the client is marked as not connected only after the lock on the connection is released",
  edits=[(C, "	c.setDisconnected()\n	if err = c.conn.Close(); err != nil {\n		return\n	}\n\n	// Signal disconnect\n	c.signal(packets.DISCONNECT, disconnect, nil)\n\n	return nil\n", "	if err = c.conn.Close(); err != nil {\n		return\n	}\n	defer c.setDisconnected()\n\n	// Signal disconnect\n	c.signal(packets.DISCONNECT, disconnect, nil)\n\n	return nil\n"),
         (C, "	c.connMutex.Lock()\n	defer c.connMutex.Unlock()\n\n	// The client could have been disconnected in the meantime\n	if !c.IsConnected() {\n		return ErrClientNotConnected\n	}\n\n	// Set I/O deadline\n	if err = c.conn.SetDeadline(deadline); err != nil {\n		return err\n	}\n\n	disconnect := ", "	c.connMutex.Lock()\n	c.connMutex.Unlock()\n\n	// The client could have been disconnected in the meantime\n	if !c.IsConnected() {\n		return ErrClientNotConnected\n	}\n\n	// Set I/O deadline\n	if err = c.conn.SetDeadline(deadline); err != nil {\n		return err\n	}\n\n	disconnect := ")],
  demo=HB + '''
func TestDemo(t *testing.T) {
	c, s := dial(t, nil)
	var n int
	s.onTx = func(b []byte) {
		if b[0]>>4 == 14 {
			n++
			if n == 1 {
				go c.Disconnect(context.Background(), false)
				s.mu.Unlock()
				time.Sleep(50 * time.Millisecond)
				s.mu.Lock()
			}
		}
	}
	if err := c.Disconnect(context.Background(), false); err != nil {
		t.Fatal(err)
	}
	time.Sleep(50 * time.Millisecond)
	if k := len(s.of(14)); k != 1 {
		t.Fatal("DISCONNECTs:", k)
	}
}
'''),
}
