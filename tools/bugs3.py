exec(open("/verif/tools/bugs1.py").read().split("BUGS = " + "{")[0])
PK = "mqtt/packets/"
HS = H.replace('import (\n', 'import (\n\t"errors"\n').replace('mqtt/packets"\n', 'mqtt/packets"\n\t"github.com/waj334/tinygo-mqtt/mqtt/storage/memory"\n').replace("var _ = time.Now\n", "var _ = time.Now\nvar _ = errors.New\nvar _ = memory.NewStorage\n")
HM = HS.replace("func TestDemo(t *testing.T) {\n", "")
BUGS = {
"C06-plus-skips-empty-level": dict(property="C06", needs="a filter whose first level is + and a topic whose first level is empty",
  breaks="the single-level wildcard does not match an empty first level",
  edits=[(C, "			for topicPos < len(topic) && topic[topicPos] != '/' {\n", "			for topicPos < len(topic) && (topicPos == 0 || topic[topicPos] != '/') {\n")],
  demo=H + '''	c, s := dial(t, nil)
	polling(t, c)
	ch := c.CreateEventChannel(4)
	tp := mqtt.Topic{}
	tp.SetFilter("+/a")
	tp.SetEventChannel(ch)
	done := make(chan error, 1)
	go func() { done <- c.Subscribe(after(2*time.Second), []mqtt.Topic{tp}) }()
	sub := s.wait(t, 8, 1)[0]
	s.feed(pkt(0x90, sub[2], sub[3], 0, 0)...)
	if err := <-done; err != nil {
		t.Fatal(err)
	}
	for len(ch.C) > 0 {
		<-ch.C
	}
	s.feed(pub(0, 0, "/a", "x")...)
	select {
	case <-ch.C:
	case <-time.After(time.Second):
		t.Fatal("not delivered")
	}
}
'''),
"C11-close-error-stays-connected": dict(property="C11", needs="closing the network connection reports an error after the server's DISCONNECT",
  breaks="the client stays connected when closing the connection after the server's DISCONNECT reports an error",
  edits=[(C, "		// Close the connection\n		c.setDisconnected()\n		if err = c.conn.Close(); err != nil {\n			return\n		}\n		c.signal(packets.DISCONNECT, disconnect, nil)\n", "		// Close the connection\n		if err = c.conn.Close(); err == nil {\n			c.setDisconnected()\n			c.signal(packets.DISCONNECT, disconnect, nil)\n		}\n		return\n")],
  demo=HM + '''
type badClose struct{ *srv }

func (b badClose) Close() error { b.srv.Close(); return errors.New("close") }
func TestDemo(t *testing.T) {
	s := newSrv()
	c := mqtt.NewClient(badClose{s})
	connect(t, c, s, nil)
	s.feed(pkt(0xE0)...)
	poll(c)
	if c.IsConnected() {
		t.Error("connected")
	}
	if err := c.Publish(after(time.Second), &packets.Publish{Topic: "a"}); err != mqtt.ErrClientNotConnected {
		t.Error(err)
	}
}
'''),
"C15-ended-context-forgets": dict(property="C15", needs="a connection that fails part-way through a write of a QoS 1 or 2 publish whose context ends in the meantime",
  breaks="a publish whose write failed part-way is dropped from storage when its context ended as well",
  edits=[(C, "	if err != nil && pub.QoS > 0 {\n		c.mutex.Lock()\n		if c.isConnected {\n", "	if err != nil && pub.QoS > 0 {\n		c.mutex.Lock()\n		if c.isConnected || ctx.Err() != nil {\n"),
         (C, "			pub.PacketIdentifier = identifier\n		}\n		c.mutex.Unlock()\n	}\n\n	return\n}\n", "			pub.PacketIdentifier = identifier\n		}\n		defer c.mutex.Unlock()\n	}\n\n	return\n}\n")],
  demo=HS + '''	s := newSrv()
	c := mqtt.NewClient(s)
	st := memory.NewStorage()
	c.SetStorage(st)
	connect(t, c, s, nil)
	ctx, cancel := context.WithCancel(context.Background())
	s.mu.Lock()
	s.wfail = 5
	s.mu.Unlock()
	s.onFail = cancel
	p := &packets.Publish{Topic: "a", QoS: 1, PacketIdentifier: 7, Payload: []byte("x")}
	if err := c.Publish(ctx, p); err == nil {
		t.Fatal("no error")
	}
	if got, err := st.Get(7); err != nil || got == nil {
		t.Fatal("not in storage:", err)
	}
}
'''),
"C16-code-10-unanswered": dict(property="C16", needs="a PUBREC with a success code other than 0x00",
  breaks="a PUBREC with reason code 0x10 is not answered",
  edits=[(C, "		// Send PUBREL control packet\n		pubrel := &packets.Pubrel{\n			Puback: packets.Puback{\n				PacketIdentifier: pubrec.PacketIdentifier,\n			},\n		}\n",
             "		// Send PUBREL control packet\n		pubrel := &packets.Pubrel{\n			Puback: packets.Puback{\n				ReasonCode:       pubrec.ReasonCode,\n				PacketIdentifier: pubrec.PacketIdentifier},\n		}\n"),
         (C, "		if err = c.send(pubrel); err != nil {\n			return err\n		}\n", "		if pubrel.ReasonCode != 0 {\n			c.signal(packets.PUBREC, pubrec, nil)\n			break\n		}\n		if err := c.send(pubrel); err != nil {\n			return err\n		}\n")],
  demo=H + '''	c, s := dial(t, nil)
	if err := c.Publish(after(time.Second), &packets.Publish{Topic: "a", QoS: 2, PacketIdentifier: 7}); err != nil {
		t.Fatal(err)
	}
	s.feed(pkt(0x50, 0, 7, 0x10)...)
	if err := poll(c); err != nil {
		t.Fatal(err)
	}
	if n := len(s.of(6)); n != 1 {
		t.Fatal("PUBRELs:", n)
	}
}
'''),
"C16-pubrel-code": dict(property="C16", needs="a PUBREC with reason code 0x10",
  breaks="the PUBREL repeats the reason code of the PUBREC, which no PUBREL may carry",
  edits=[(C, "		// Send PUBREL control packet\n		pubrel := &packets.Pubrel{\n			Puback: packets.Puback{\n				PacketIdentifier: pubrec.PacketIdentifier,\n			},\n		}\n",
             "		// Send PUBREL control packet\n		pubrel := &packets.Pubrel{\n			Puback: packets.Puback{\n				ReasonCode:       pubrec.ReasonCode,\n				PacketIdentifier: pubrec.PacketIdentifier},\n		}\n")],
  demo=H + '''	c, s := dial(t, nil)
	if err := c.Publish(after(time.Second), &packets.Publish{Topic: "a", QoS: 2, PacketIdentifier: 7}); err != nil {
		t.Fatal(err)
	}
	s.feed(pkt(0x50, 0, 7, 0x10)...)
	if err := poll(c); err != nil {
		t.Fatal(err)
	}
	r := s.of(6)
	if len(r) != 1 || len(r[0]) > 4 && r[0][4] != 0 && r[0][4] != 0x92 {
		t.Fatal("PUBRELs:", r)
	}
}
'''),
"C17-release-92-unanswered": dict(property="C17", needs="a PUBREL with reason code 0x92",
  breaks="a PUBREL with reason code 0x92 gets no PUBCOMP",
  edits=[(C, "		if err = c.send(pubcomp); err != nil {\n			return err\n		}\n", "		if pubrel.ReasonCode >= 0x80 {\n			// The server does not know the packet identifier\n		} else if err = c.send(pubcomp); err != nil {\n			return err\n		}\n")],
  demo=H + '''	c, s := dial(t, nil)
	s.feed(pkt(0x62, 0, 7, 0x92)...)
	if err := poll(c); err != nil {
		t.Fatal(err)
	}
	if n := len(s.of(7)); n != 1 {
		t.Fatal("PUBCOMPs:", n)
	}
}
'''),
"C18-unsent-pubrec-forgets": dict(property="C18", needs="a connection that fails while the PUBREC of a QoS 2 message is written, and a retransmission on a new connection",
  breaks="the record of a received QoS 2 message is dropped when its PUBREC could not be written, so that it is delivered again",
  edits=[(C, "			if err = c.sendPubrec(publish); err != nil {\n				return err\n			}\n", "			if err = c.sendPubrec(publish); err != nil {\n				c.dropIncoming(publish.PacketIdentifier.Value())\n				return err\n			}\n"),
         (C, "	// Send the PUBREC control packet to the server\n	if err = c.send(pubrec); err != nil {\n		return err\n	}\n\n	// No response to wait for\n\n	return\n", "	// Send the PUBREC control packet to the server, there is no response to wait for\n	return c.send(pubrec)\n")],
  demo=HS + '''	st := memory.NewStorage()
	s := newSrv()
	c := mqtt.NewClient(s)
	c.SetStorage(st)
	connect(t, c, s, nil)
	s.mu.Lock()
	s.wfail = 0
	s.mu.Unlock()
	ch := c.CreateEventChannel(4)
	s.feed(pub(2, 7, "a", "x")...)
	poll(c)
	if len(ch.C) != 1 {
		t.Fatal("delivered:", len(ch.C))
	}
	s2 := newSrv()
	c2 := mqtt.NewClient(s2)
	c2.SetStorage(st)
	s2.feed(pkt(0x20, 1, 0, 0)...)
	if err := c2.Connect(context.Background(), &packets.Connect{ClientId: "c"}); err != nil {
		t.Fatal(err)
	}
	ch2 := c2.CreateEventChannel(4)
	p := pub(2, 7, "a", "x")
	p[0] |= 8
	s2.feed(p...)
	poll(c2)
	if len(ch2.C) != 0 {
		t.Fatal("delivered again")
	}
}
'''),
"C19-duplicate-keeps-quota": dict(property="C19", needs="as many retransmitted (DUP) QoS 1 publishes as the client's receive maximum, and one more",
  breaks="receive quota is not given back for a QoS 1 publish with the DUP flag",
  edits=[(C, "	c.mutex.Lock()\n	c.releaseReceiveQuota(publish.PacketIdentifier.Value())\n	c.mutex.Unlock()\n\n	// No response to wait for", "	if !publish.Duplicate {\n		c.mutex.Lock()\n		c.releaseReceiveQuota(publish.PacketIdentifier.Value())\n		c.mutex.Unlock()\n	}\n\n	// No response to wait for")],
  demo=H + '''	c, s := dial(t, &packets.Connect{ClientId: "c", ReceiveMaximum: 2})
	for i := 1; i < 6; i++ {
		p := pub(1, i, "a", "x")
		p[0] |= 8
		s.feed(p...)
		if err := poll(c); err != nil {
			t.Fatal(i, err)
		}
	}
}
'''),
"C20-abandoned-identifier-reused": dict(property="C20", needs="a subscribe whose context ends before the SUBACK, then another whose random number is the same",
  breaks="the packet identifier of a subscribe that gave up waiting is used again while the server's answer is outstanding",
  edits=[(C, "		return err\n	}\n\n	unlockConn.Do(c.connMutex.Unlock)\n\n	// Wait for the acknowledgement\n	select {\n	case resp := <-respChan:\n		suback := resp.(*packets.Suback)\n", "		return err\n	}\n\n	unlockConn.Do(c.connMutex.Unlock)\n	defer func() {\n		c.mutex.Lock()\n		if r, ok := c.responseChan[int(identifier)]; ok && r.channel == respChan {\n			delete(c.responseChan, int(identifier))\n		}\n		c.mutex.Unlock()\n	}()\n\n	// Wait for the acknowledgement\n	select {\n	case resp, _ := <-respChan:\n		suback := resp.(*packets.Suback)\n")],
  demo=H + '''	c, s := dial(t, nil)
	c.SetRngFn(func() uint32 { return 5 })
	tp := mqtt.Topic{}
	tp.SetFilter("a")
	c.Subscribe(after(20*time.Millisecond), []mqtt.Topic{tp})
	c.Subscribe(after(20*time.Millisecond), []mqtt.Topic{tp})
	r := s.of(8)
	if len(r) != 2 || r[0][3] == r[1][3] {
		t.Fatal(r)
	}
}
'''),
"C24-code-11-keeps-channel": dict(property="C24", needs="an UNSUBACK with reason code 0x11 for a bound filter",
  breaks="a channel bound to a filter for which the server answered 0x11 (no subscription existed) stays bound and open",
  edits=[(C, "			} else if channel, ok := c.topicChans[topic]; ok {\n				c.closeEventChannelInternal(channel)\n			}\n", "			} else if channel, ok := c.topicChans[topic]; ok {\n				if code == 0 {\n					c.closeEventChannelInternal(channel)\n				} else {\n					delete(c.topicChans, topic)\n				}\n			}\n")],
  demo=H + '''	c, s := dial(t, nil)
	polling(t, c)
	ch := c.CreateEventChannel(4)
	tp := mqtt.Topic{}
	tp.SetFilter("a")
	tp.SetEventChannel(ch)
	done := make(chan error, 1)
	go func() { done <- c.Subscribe(after(2*time.Second), []mqtt.Topic{tp}) }()
	p := s.wait(t, 8, 1)[0]
	s.feed(pkt(0x90, p[2], p[3], 0, 0)...)
	if err := <-done; err != nil {
		t.Fatal(err)
	}
	go func() { done <- c.Unsubscribe(after(2*time.Second), []string{"a"}) }()
	p = s.wait(t, 10, 1)[0]
	s.feed(pkt(0xB0, p[2], p[3], 0, 0x11)...)
	if err := <-done; err != nil {
		t.Fatal(err)
	}
	select {
	case <-ch.Done:
	case <-time.After(300 * time.Millisecond):
		t.Fatal("not closed")
	}
}
'''),
"C27-ping-outside-lock": dict(property="C27", needs="a disconnect on another goroutine between the moment a keep-alive call releases the connection and its write",
  breaks="PINGREQ is written without holding the connection, so that it can follow a DISCONNECT",
  edits=[(C, "	if err = c.send(header); err != nil {\n		return err\n	}\n\n	// NOTE: Poll handles", "	c.connMutex.Unlock()\n	err = c.send(header)\n	c.connMutex.Lock()\n	if err != nil {\n		return err\n	}\n\n	// NOTE: Poll handles")],
  demo=HM + '''
type slow struct {
	*srv
	t     *testing.T
	c     *mqtt.Client
	armed bool
	fail  chan struct{}
}

// writes take a while
func (b *slow) Write(p []byte) (int, error) {
	if b.armed && p[0] == 0xC0 {
		go b.c.Disconnect(context.Background(), false)
		time.Sleep(30 * time.Millisecond)
	}
	n, err := b.srv.Write(p)
	if b.armed && p[0] == 0xE0 {
		time.Sleep(60 * time.Millisecond)
	}
	return n, err
}
func TestDemo(t *testing.T) {
	b := &slow{srv: newSrv(), t: t}
	b.c = mqtt.NewClient(b)
	connect(t, b.c, b.srv, &packets.Connect{ClientId: "c", KeepAlive: 10})
	b.armed = true
	b.c.KeepAlive()
	time.Sleep(150 * time.Millisecond)
	p := b.sent()
	for j := range p {
		if p[j][0] == 0xE0 && j < len(p)-1 {
			t.Fatal("packet after DISCONNECT:", p[j+1])
		}
	}
}
'''),
"C14-wakeup-missed": dict(property="C14", needs="the last missing PUBACK processed in the moment between a publish releasing its locks and beginning to wait",
  breaks="a publish takes the wake-up signal after it released its locks and can miss it",
  edits=[(C, "		pending := c.pendingSendSemaphore\n		c.mutex.Unlock()\n		c.connMutex.Unlock()\n		select {\n		case <-pending:\n		case <-ctx.Done():\n			err = ctx.Err()\n		}\n", "		c.mutex.Unlock()\n		c.releaseConn()\n		select {\n		case <-ctx.Done():\n			err = ctx.Err()\n		case <-c.quotaFreed():\n		}\n"),
         (C, "// cancelPublish reverts", "// releaseConn lets others use the connection.\nfunc (c *Client) releaseConn() { c.connMutex.Unlock() }\n\n// quotaFreed returns the channel that is closed when send quota becomes available.\nfunc (c *Client) quotaFreed() <-chan struct{} {\n	c.mutex.RLock()\n	defer c.mutex.RUnlock()\n\n	return c.pendingSendSemaphore\n}\n\n// cancelPublish reverts")],
  demo=HM + '''
// the PUBACK comes when the publish asks for its context's end
type held struct {
	context.Context
	f func()
}

func (h held) Done() <-chan struct{} { h.f(); return h.Context.Done() }
func TestDemo(t *testing.T) {
	c, s := dial(t, nil, 0x21, 0, 1)
	if err := c.Publish(after(time.Second), &packets.Publish{Topic: "a", QoS: 1, PacketIdentifier: 7}); err != nil {
		t.Fatal(err)
	}
	polling(t, c)
	n := 0
	ctx := held{after(time.Second), func() {
		if n++; n == 1 {
			s.feed(pkt(0x40, 0, 7)...)
			time.Sleep(100 * time.Millisecond)
		}
	}}
	if err := c.Publish(ctx, &packets.Publish{Topic: "a", QoS: 1, PacketIdentifier: 8}); err != nil {
		t.Fatal(err)
	}
}
'''),
"C25-doubled-in-16-bits": dict(property="C25", needs="a keep-alive interval of 32768 seconds or more and a PINGRESP",
  breaks="twice the keep-alive interval is computed in 16 bits when a PINGRESP extends the deadline",
  edits=[(C, "		c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)\n	default:", "		c.pingRespDeadline = time.Now().Add(time.Second * time.Duration(uint16(c.keepAliveInterval/time.Second)*2))\n	default:")],
  demo=H + '''	c, s := dial(t, &packets.Connect{ClientId: "c", KeepAlive: 32768})
	s.feed(0xD0, 0)
	poll(c)
	time.Sleep(10 * time.Millisecond)
	if err := poll(c); err != nil {
		t.Fatal(err)
	}
}
'''),
"C26-storage-fault-keeps-lock": dict(property="C26", needs="a storage that fails while a PUBREL is processed",
  breaks="the client's lock is kept when storage fails while a PUBREL is processed",
  edits=[(C, "		err = c.dropIncoming(pubrel.PacketIdentifier.Value())\n		c.mutex.Unlock()\n		if err != nil {\n			return err\n		}\n", "		if err = c.dropIncoming(pubrel.PacketIdentifier.Value()); err != nil {\n			return err\n		}\n		c.mutex.Unlock()\n")],
  demo=HM + '''
type badStore struct{}

func (badStore) Store(id uint16, p any) error { return nil }
func (badStore) Drop(id uint16) error         { return errors.New("no") }
func (badStore) Get(id uint16) (any, error)   { return nil, errors.New("no") }
func TestDemo(t *testing.T) {
	s := newSrv()
	c := mqtt.NewClient(s)
	c.SetStorage(badStore{})
	connect(t, c, s, nil)
	s.feed(pkt(0x62, 0, 7)...)
	poll(c)
	within(t, "IsConnected", func() { c.IsConnected() })
}
'''),
"C10-code-80-accepted": dict(property="C10", needs="a CONNACK with reason code 0x80 exactly",
  breaks="a CONNACK with reason code 0x80 counts as success",
  edits=[(C, "	if connack.ReasonCode >= 128 {\n", "	if connack.ReasonCode > 128 {\n")],
  demo=H + '''	s := newSrv()
	c := mqtt.NewClient(s)
	s.feed(pkt(0x20, 0, 0x80, 0)...)
	if err := c.Connect(context.Background(), &packets.Connect{ClientId: "c"}); err != mqtt.ReasonCode(0x80) {
		t.Fatal(err)
	}
}
'''),
"C23-duplicate-filters-merged": dict(property="C23", needs="a subscribe that lists the same filter twice",
  breaks="a filter listed twice in a row is sent once",
  edits=[(C, "	for index := range topics {\n		_topics = append(_topics, topics[index].Topic)\n	}\n", "	for index := range topics {\n		if index == 0 || topics[index].Filter() != topics[index-1].Filter() {\n			_topics = append(_topics, topics[index].Topic)\n		}\n	}\n")],
  demo=H + '''	c, s := dial(t, nil)
	polling(t, c)
	tp := mqtt.Topic{}
	tp.SetFilter("a")
	done := make(chan error, 1)
	go func() { done <- c.Subscribe(after(2*time.Second), []mqtt.Topic{tp, tp}) }()
	p := s.wait(t, 8, 1)[0]
	s.feed(pkt(0x90, p[2], p[3], 0, 0, 0)...)
	if err := <-done; err != nil || len(p) != 13 {
		t.Fatal(err, p)
	}
}
'''),
}
