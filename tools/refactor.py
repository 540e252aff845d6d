#!/usr/bin/env python3
"""refactor.py [NAME...]: applies behaviour-preserving rewrites to copies of /repo and runs the checks on them; all have to stay quiet."""
import os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "mqtt/client.go"


def sub(s, old, new, n=1):
    assert s.count(old) >= 1 and (n == 0 or s.count(old) == n), (s.count(old), old[:90])
    return s.replace(old, new)


DL = """	var deadline time.Time
	var ok bool
	if deadline, ok = ctx.Deadline(); !ok {
		deadline = time.Time{}
	}
"""


def helpers(s):
    "deadline helper, connection lock helper, response registration helper"
    s = sub(s, DL, "	deadline := deadlineOf(ctx)\n", 0)
    s = s.replace("	// The client could have been disconnected in the meantime\n	if !c.IsConnected() {\n		return ErrClientNotConnected\n	}\n", "	if err = c.stillConnected(); err != nil {\n		return err\n	}\n")
    s = sub(s, """	respChan := make(chan any, 1)
	c.responseChan[int(subscribe.PacketIdentifier)] = response{packets.SUBACK, respChan}
	c.mutex.Unlock()
""", "	respChan := c.expect(packets.SUBACK, identifier)\n	c.mutex.Unlock()\n")
    s = sub(s, """	respChan := make(chan any, 1)
	c.responseChan[int(unsubscribe.PacketIdentifier)] = response{packets.UNSUBACK, respChan}
	c.mutex.Unlock()
""", "	respChan := c.expect(packets.UNSUBACK, identifier)\n	c.mutex.Unlock()\n")
    return s + """
func deadlineOf(ctx context.Context) time.Time {
	if deadline, ok := ctx.Deadline(); ok {
		return deadline
	}
	return time.Time{}
}

func (c *Client) stillConnected() error {
	if c.IsConnected() {
		return nil
	}
	return ErrClientNotConnected
}

func (c *Client) expect(t packets.PacketType, id primitives.PrimitiveUint16) chan any {
	ch := make(chan any, 1)
	c.responseChan[int(id)] = response{t, ch}
	return ch
}
"""


def handlers(s):
    "every case of Poll's switch becomes a method"
    i = s.index("	switch header.GetType() {\n	case packets.PUBLISH:")
    j = s.index("	// TODO: Process control packet")
    body = s[i:j]
    cases = re.split(r"^	case packets\.(\w+):\n", body, flags=re.M)
    out, meth = cases[0], ""
    for n, b in zip(cases[1::2], cases[2::2]):
        tail = ""
        if "	default:\n" in b:
            k = b.index("	default:\n")
            b, tail = b[:k], b[k:]
        b = re.sub(r"^(\t+)break\n", r"\1return nil\n", b, flags=re.M)
        out += "	case packets.%s:\n		return c.handle%s(header)\n%s" % (n, n.capitalize(), tail)
        meth += "\nfunc (c *Client) handle%s(header packets.FixedHeader) (err error) {\n%s	return nil\n}\n" % (n.capitalize(), b)
    return s[:i] + out + s[j:] + meth


def atomics(s):
    "isConnected becomes atomic, the RWMutex a Mutex"
    s = sub(s, "	isConnected           bool\n", "	isConnected           atomic.Bool\n")
    s = sub(s, "	mutex     sync.RWMutex\n", "	mutex     sync.Mutex\n")
    s = sub(s, '	"sync"\n', '	"sync"\n	"sync/atomic"\n')
    s = sub(s, "	c.mutex.RLock()\n	defer c.mutex.RUnlock()\n\n	return c.isConnected\n", "	return c.isConnected.Load()\n")
    s = s.replace("c.isConnected = true", "c.isConnected.Store(true)").replace("c.isConnected = false", "c.isConnected.Store(false)")
    s = re.sub(r"c\.isConnected(?=[ ;)&])", "c.isConnected.Load()", s)
    return s.replace("RLock", "Lock").replace("RUnlock", "Unlock")


def cond(s):
    "waiting for quota with a condition variable"
    s = sub(s, "	pendingSendSemaphore chan struct{}\n", "	quota *sync.Cond\n")
    s = sub(s, "	return &Client{\n		conn: ", "	c := &Client{\n		conn: ")
    s = sub(s, "		rngFn:           rand.Uint32,\n	}\n", "		rngFn:           rand.Uint32,\n	}\n	c.quota = sync.NewCond(&c.mutex)\n	return c\n")
    s = sub(s, """		pending := c.pendingSendSemaphore
		c.mutex.Unlock()
		c.connMutex.Unlock()
		select {
		case <-pending:
		case <-ctx.Done():
			err = ctx.Err()
		}
		c.connMutex.Lock()
		c.mutex.Lock()
""", """		c.connMutex.Unlock()
		stop := context.AfterFunc(ctx, func() {
			c.mutex.Lock()
			c.quota.Broadcast()
			c.mutex.Unlock()
		})
		for c.isConnected && c.sendQuota == 0 && ctx.Err() == nil {
			c.quota.Wait()
		}
		err = ctx.Err()
		stop()
		c.mutex.Unlock()
		c.connMutex.Lock()
		c.mutex.Lock()
""")
    s = sub(s, """	if c.pendingSendSemaphore != nil {
		close(c.pendingSendSemaphore)
	}
	c.pendingSendSemaphore = make(chan struct{})
""", "	c.quota.Broadcast()\n")
    return s


def reorder(s):
    "independent statements in another order, explicit unlocks, other loops"
    s = sub(s, """	c.sendQuota = c.serverReceiveMaximum
	c.receiveQuota = c.clientReceiveMaximum

	c.inFlight = make(map[uint16]struct{})
	c.received = make(map[uint16]bool)
	c.sessionPresent = connack.SessionPresent
	c.wakePublishers()
""", """	for id := range c.received {
		delete(c.received, id)
	}
	for id := range c.inFlight {
		delete(c.inFlight, id)
	}
	c.sessionPresent = connack.SessionPresent
	c.receiveQuota, c.sendQuota = c.clientReceiveMaximum, c.serverReceiveMaximum
	c.wakePublishers()
""")
    s = sub(s, """		delete(c.inFlight, identifier)
		c.sendQuota++
		c.wakePublishers()
""", """		c.sendQuota++
		delete(c.inFlight, identifier)
		c.wakePublishers()
""")
    s = sub(s, "	c.inFlight[identifier.Value()] = struct{}{}\n	c.sendQuota--\n	return\n", "	c.sendQuota -= 1\n	c.inFlight[identifier.Value()] = struct{}{}\n	return nil\n")
    s = sub(s, """			for filter, channel := range c.topicChans {
				// Does the topic match any known filter?
				if !signalled[channel.id] && c.matchTopic(publish.Topic.String(), filter) {
					// Signal the publish on this channel once
					signalled[channel.id] = true
					c.signalInternal(packets.PUBLISH, publish, channel.channel)
				}
			}
""", """			name := publish.Topic.String()
			filters := make([]string, 0, len(c.topicChans))
			for filter := range c.topicChans {
				filters = append(filters, filter)
			}
			sort.Strings(filters)
			for i := 0; i < len(filters); i++ {
				channel := c.topicChans[filters[i]]
				if signalled[channel.id] {
					continue
				}
				if !c.matchTopic(name, filters[i]) {
					continue
				}
				signalled[channel.id] = true
				c.signalInternal(packets.PUBLISH, publish, channel.channel)
			}
""")
    s = sub(s, '	"os"\n', '	"os"\n	"runtime"\n	"sort"\n')
    s = sub(s, "	time.Sleep(time.Nanosecond)\n", "	runtime.Gosched()\n")
    s = sub(s, """	respChan := make(chan any, 1)
	c.responseChan[int(subscribe.PacketIdentifier)]""", """	respChan := make(chan any, 2)
	c.responseChan[int(subscribe.PacketIdentifier)]""")
    s = sub(s, """	for index := range topics {
		_topics = append(_topics, topics[index].Topic)
	}
""", """	_topics = make([]packets.Topic, len(topics))
	for i := len(topics) - 1; i >= 0; i-- {
		_topics[i] = topics[i].Topic
	}
""")
    return s


def writes(s):
    "two writes per packet, through a bufio.Writer sized to the packet"
    s = sub(s, """	if n, err := c.conn.Write(buf.Bytes()); err != nil {
		if n > 0 {
			// Nothing can follow an incomplete control packet
			c.abort()
		}
		return err
	}

	return nil
""", """	data, sent := buf.Bytes(), 0
	for sent < len(data) {
		part := data[sent:]
		if sent == 0 && len(part) > 2 {
			part = part[:2]
		}
		n, err := c.conn.Write(part)
		sent += n
		if err != nil {
			if sent > 0 {
				c.abort()
			}
			return err
		}
	}
	return nil
""")
    return s


def reading(s):
    "the connection is read through a small wrapper; packets are read whole before they are decoded"
    s = sub(s, """	body := &io.LimitedReader{R: c.conn, N: int64(header.Remaining)}
	if header.GetType() != packets.PUBLISH && header.GetFlags() != reserved {
		err = packets.ErrControlPacketIsMalformed
	} else if _, err = packet.ReadFrom(body); err == nil && body.N != 0 {
		err = packets.ErrControlPacketIsMalformed
	}
""", """	body := &io.LimitedReader{R: c.conn, N: int64(header.Remaining)}
	switch {
	case header.GetType() != packets.PUBLISH && header.GetFlags() != reserved:
		err = packets.ErrControlPacketIsMalformed
	default:
		_, err = packet.ReadFrom(onlyReader{body})
		if err == nil && body.N > 0 {
			err = packets.ErrControlPacketIsMalformed
		}
	}
""")
    return s + """
type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(p []byte) (int, error) { return o.r.Read(p) }
"""


def topics(s):
    "matchTopic by levels"
    i = s.index("	var filterPos int\n	var topicPos int\n")
    j = s.index("// stored returns the persisted")
    return s[:i] + """	levels, names := strings.Split(filter, "/"), strings.Split(topic, "/")
	for i, level := range levels {
		if level == "#" {
			return i == len(levels)-1
		}
		if i >= len(names) {
			return false
		}
		if level == "+" {
			continue
		}
		if strings.ContainsAny(level, "+#") || level != names[i] {
			return false
		}
	}
	return len(names) == len(levels)
}

""" + s[j:]


RF = {
    "helpers": {C: helpers}, "handlers": {C: handlers}, "atomics": {C: atomics}, "cond": {C: cond}, "reorder": {C: reorder},
    "writes": {C: writes}, "reading": {C: reading}, "topics": {C: topics},
}
ex = os.path.join(V, "tools", "refactor2.py")
if os.path.exists(ex):
    exec(open(ex).read())


def main():
    names = [a for a in sys.argv[1:] if a[0] != "C"] or list(RF)
    props = [a for a in sys.argv[1:] if a[0] == "C"] or ["C%02d" % k for k in range(1, 28)]
    for name in names:
        d = "/tmp/rf/" + name
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs("/tmp/rf", exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", d])
        for f, fn in RF[name].items():
            p = os.path.join(d, f)
            s = open(p).read()
            open(p, "w").write(fn(s))
        r = subprocess.run("gofmt -l mqtt; go vet ./mqtt/ && go test ./... 2>&1 | grep -v 'no test files'", shell=True, cwd=d, capture_output=True, text=True)
        print(name, r.stdout.replace("\n", " ")[:300], r.stderr[-800:], flush=True)
        if os.environ.get("PREP"):      # leave the tree in /tmp/rf
            continue
        for p in props:
            t = time.time()
            r = subprocess.run([sys.executable, V + "/bin/check.py", p, "quick"], env=dict(os.environ, VERIF_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1")), capture_output=True, text=True)
            if r.returncode:
                print("  ", name, p, "rc=%d %ds" % (r.returncode, time.time() - t), [l for l in (r.stdout + r.stderr).splitlines() if l][-2:], flush=True)
        shutil.rmtree(d, ignore_errors=True)
        print(name, "done", flush=True)


main()
