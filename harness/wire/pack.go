// Package wire drives the packets and the client of the library as they are: values in, bytes out and back.
package wire

import (
	"fmt"
	"io"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
)

// Runs is a byte string as runs of (byte, count).
type Runs [][2]int

func (r Runs) Bytes() []byte {
	n := 0
	for _, x := range r {
		n += x[1]
	}
	b := make([]byte, n)
	k := 0
	for _, x := range r {
		if x[0] != 0 {
			for j := k; j < k+x[1]; j++ {
				b[j] = byte(x[0])
			}
		}
		k += x[1]
	}
	return b
}

func (r *Runs) add(b []byte) {
	for i := 0; i < len(b); {
		j := i + 1
		for j < len(b) && b[j] == b[i] {
			j++
		}
		if n := len(*r); n > 0 && (*r)[n-1][0] == int(b[i]) {
			(*r)[n-1][1] += j - i
		} else {
			*r = append(*r, [2]int{int(b[i]), j - i})
		}
		i = j
	}
}

func runs(b []byte) Runs {
	r := Runs{}
	r.add(b)
	return r
}

func rs(s primitives.PrimitiveString) Runs { return runs([]byte(s)) }

type rec = map[string]any

func num(v any) int {
	switch x := v.(type) {
	case float64:
		return int(x)
	case bool:
		if x {
			return 1
		}
	}
	return 0
}

func toRuns(v any) Runs {
	r := Runs{}
	l, _ := v.([]any)
	for _, x := range l {
		p := x.([]any)
		r = append(r, [2]int{num(p[0]), num(p[1])})
	}
	return r
}

func str(v any) primitives.PrimitiveString { return primitives.PrimitiveString(toRuns(v).Bytes()) }

func u32(v any) uint32 {
	r := uint32(0)
	for _, x := range v.([]any) {
		r = r<<8 | uint32(num(x))
	}
	return r
}

// props is a property list by name; user properties are collected.
type props struct {
	m  map[string]any
	up primitives.PrimitiveStringMap
}

func getProps(v any) props {
	p := props{m: map[string]any{}}
	l, _ := v.([]any)
	for _, x := range l {
		e := x.([]any)
		n := e[0].(string)
		if n == "up" {
			if p.up == nil {
				p.up = primitives.PrimitiveStringMap{}
			}
			kv := e[1].([]any)
			p.up[str(kv[0])] = str(kv[1])
		} else {
			p.m[n] = e[1]
		}
	}
	return p
}
func (p props) s(n string) primitives.PrimitiveString {
	if v, ok := p.m[n]; ok {
		return str(v)
	}
	return ""
}
func (p props) i(n string) int { return num(p.m[n]) }
func (p props) u(n string) uint32 {
	if v, ok := p.m[n]; ok {
		return u32(v)
	}
	return 0
}

func topicOf(f rec) packets.Topic {
	var t packets.Topic
	o := num(f["o"])
	t.SetFilter(string(str(f["f"])))
	t.SetQoS(packets.QoS(o & 3))
	t.SetNoLocal(o&4 != 0)
	t.SetRetainAsPublished(o&8 != 0)
	t.SetRetainHandling(packets.RetainHandlingOption(o >> 4 & 3))
	return t
}

func filters(v any) (r []rec) {
	l, _ := v.([]any)
	for _, x := range l {
		r = append(r, x.(rec))
	}
	return
}

// make1 builds the packet that a record describes.
func make1(k rec) io.WriterTo {
	p := getProps(k["ps"])
	b := func(n string) bool { return num(k[n]) != 0 }
	ack := func() packets.Puback {
		return packets.Puback{PacketIdentifier: primitives.PrimitiveUint16(num(k["id"])), ReasonCode: primitives.PrimitiveByte(num(k["rc"])), ReasonString: p.s("rs"), UserProperties: p.up}
	}
	switch k["t"].(string) {
	case "CONNECT":
		w := getProps(k["wps"])
		return &packets.Connect{Version: packets.MQTT5, CleanSession: b("clean"), KeepAlive: primitives.PrimitiveUint16(num(k["ka"])), ClientId: str(k["cid"]), Username: str(k["user"]), Password: str(k["pass"]),
			WillRetain: b("wr"), WillQos: packets.QoS(num(k["wq"])), Will: str(k["wp"]), WillTopic: str(k["wt"]),
			WillDelayInterval: primitives.PrimitiveUint32(w.u("wdi")), WillMessageExpiryInterval: primitives.PrimitiveUint32(w.u("mei")), WillContentType: w.s("ct"), WillResponseTopic: w.s("rt"), WillCorrelationData: w.s("cd"), WillUserProperties: w.up,
			RequestResponseInformation: primitives.PrimitiveByte(p.i("rri")), RequestProblemInformation: primitives.PrimitiveByte(p.i("rpi")), ReceiveMaximum: primitives.PrimitiveUint16(p.i("rm")), TopicAliasMaximum: primitives.PrimitiveUint16(p.i("tam")),
			SessionExpiryInterval: primitives.PrimitiveUint32(p.u("sei")), MaximumPacketSize: primitives.PrimitiveUint32(p.u("mps")), UserProperties: p.up, AuthenticationMethod: p.s("am"), AuthenticationData: p.s("ad")}
	case "PUBLISH":
		return &packets.Publish{Retain: b("retain"), QoS: packets.QoS(num(k["qos"])), Duplicate: b("dup"), Topic: str(k["topic"]), PacketIdentifier: primitives.PrimitiveUint16(num(k["id"])), Payload: toRuns(k["pl"]).Bytes(),
			MessageExpiryInterval: primitives.PrimitiveUint32(p.u("mei")), TopicAlias: primitives.PrimitiveUint16(p.i("ta")), ResponseTopic: p.s("rt"), CorrelationData: p.s("cd"), UserProperties: p.up, SubscriptionIdentifier: primitives.VariableByteInt(p.i("si")), ContentType: p.s("ct")}
	case "PUBACK":
		a := ack()
		return &a
	case "PUBREC":
		return &packets.Pubrec{Puback: ack()}
	case "PUBREL":
		return &packets.Pubrel{Puback: ack()}
	case "PUBCOMP":
		return &packets.Pubcomp{Puback: ack()}
	case "SUBSCRIBE":
		s := &packets.Subscribe{PacketIdentifier: primitives.PrimitiveUint16(num(k["id"])), SubscriptionIdentifier: primitives.VariableByteInt(p.i("si")), UserProperties: p.up}
		for _, f := range filters(k["fs"]) {
			s.Topics = append(s.Topics, topicOf(f))
		}
		return s
	case "UNSUBSCRIBE":
		s := &packets.Unsubscribe{PacketIdentifier: primitives.PrimitiveUint16(num(k["id"])), UserProperties: p.up}
		for _, f := range filters(k["fs"]) {
			s.Topics = append(s.Topics, topicOf(f))
		}
		return s
	case "DISCONNECT":
		return &packets.Disconnect{ReasonCode: primitives.PrimitiveByte(num(k["rc"])), SessionExpiryInterval: primitives.PrimitiveUint32(p.u("sei")), ReasonString: p.s("rs"), UserProperties: p.up, ServerReference: p.s("sr")}
	case "AUTH":
		return &packets.Auth{AuthenticateReasonCode: primitives.PrimitiveByte(num(k["rc"])), AuthenticationMethod: p.s("am"), AuthenticationData: p.s("ad"), ReasonString: p.s("rs"), UserProperties: p.up}
	}
	panic("no packet " + fmt.Sprint(k["t"]))
}

// empty returns a packet to read a packet of the type into, and what describes it afterwards.
func empty(h packets.FixedHeader) (io.ReaderFrom, string) {
	switch h.GetType() {
	case packets.CONNACK:
		return &packets.Connack{Header: h}, "CONNACK"
	case packets.PUBLISH:
		return &packets.Publish{Header: h}, "PUBLISH"
	case packets.PUBACK:
		return &packets.Puback{Header: h}, "PUBACK"
	case packets.PUBREC:
		return &packets.Pubrec{Puback: packets.Puback{Header: h}}, "PUBREC"
	case packets.PUBREL:
		return &packets.Pubrel{Puback: packets.Puback{Header: h}}, "PUBREL"
	case packets.PUBCOMP:
		return &packets.Pubcomp{Puback: packets.Puback{Header: h}}, "PUBCOMP"
	case packets.SUBACK:
		return &packets.Suback{Header: h}, "SUBACK"
	case packets.UNSUBACK:
		return &packets.Unsuback{Header: h}, "UNSUBACK"
	case packets.DISCONNECT:
		return &packets.Disconnect{Header: h}, "DISCONNECT"
	case packets.AUTH:
		return &packets.Auth{Header: h}, "AUTH"
	}
	return nil, ""
}

type plist struct{ l []any }

func (p *plist) s(n string, v primitives.PrimitiveString) {
	if v != "" {
		p.l = append(p.l, []any{n, rs(v)})
	}
}
func (p *plist) i(n string, v int) {
	if v != 0 {
		p.l = append(p.l, []any{n, v})
	}
}
func (p *plist) u(n string, v primitives.PrimitiveUint32) {
	if v != 0 {
		p.l = append(p.l, []any{n, []int{int(v >> 24), int(v >> 16 & 255), int(v >> 8 & 255), int(v & 255)}})
	}
}
func (p *plist) up(m primitives.PrimitiveStringMap) {
	for k, v := range m {
		p.l = append(p.l, []any{"up", []any{rs(k), rs(v)}})
	}
}
func codes(b []byte) []int {
	r := []int{}
	for _, x := range b {
		r = append(r, int(x))
	}
	return r
}

// dump describes a packet.
func dump(p any) rec {
	l := &plist{l: []any{}}
	ack := func(t string, a *packets.Puback) rec {
		l.s("rs", a.ReasonString)
		l.up(a.UserProperties)
		return rec{"t": t, "form": 9, "id": int(a.PacketIdentifier), "rc": int(a.ReasonCode), "ps": l.l}
	}
	switch x := p.(type) {
	case *packets.Connack:
		l.u("sei", x.SessionExpiryInterval)
		l.i("rm", int(x.ReceiveMaximum))
		l.i("mq", int(x.MaximumQoS))
		l.i("ra", int(x.RetainAvailable))
		l.u("mps", x.MaximumPacketSize)
		l.s("aci", x.ClientId)
		l.i("tam", int(x.TopicAliasMaximum))
		l.s("rs", x.ReasonString)
		l.up(x.UserProperties)
		l.i("wsa", int(x.WildcardSubscriptions))
		l.i("sia", int(x.SubscriptionIdentifiers))
		l.i("ssa", int(x.SharedSubscriptions))
		l.i("ska", int(x.ServerKeepAlive))
		l.s("ri", x.ResponseInformation)
		l.s("sr", x.ServerReference)
		l.s("am", x.AuthenticationMethod)
		l.s("ad", x.AuthenticationData)
		sp := 0
		if x.SessionPresent {
			sp = 1
		}
		return rec{"t": "CONNACK", "sp": sp, "rc": int(x.ReasonCode), "ps": l.l}
	case *packets.Publish:
		l.u("mei", x.MessageExpiryInterval)
		l.i("ta", int(x.TopicAlias))
		l.s("rt", x.ResponseTopic)
		l.s("cd", x.CorrelationData)
		l.up(x.UserProperties)
		l.i("si", int(x.SubscriptionIdentifier))
		l.s("ct", x.ContentType)
		return rec{"t": "PUBLISH", "dup": x.Duplicate, "retain": x.Retain, "qos": int(x.QoS), "topic": rs(x.Topic), "id": int(x.PacketIdentifier), "ps": l.l, "pl": runs(x.Payload)}
	case *packets.Puback:
		return ack("PUBACK", x)
	case *packets.Pubrec:
		return ack("PUBREC", &x.Puback)
	case *packets.Pubrel:
		return ack("PUBREL", &x.Puback)
	case *packets.Pubcomp:
		return ack("PUBCOMP", &x.Puback)
	case *packets.Suback:
		l.s("rs", x.ReasonString)
		l.up(x.UserProperties)
		return rec{"t": "SUBACK", "id": int(x.PacketIdentifier), "ps": l.l, "codes": codes(x.ReasonCodes)}
	case *packets.Unsuback:
		l.s("rs", x.ReasonString)
		l.up(x.UserProperties)
		return rec{"t": "UNSUBACK", "id": int(x.PacketIdentifier), "ps": l.l, "codes": codes(x.ReasonCodes)}
	case *packets.Disconnect:
		l.u("sei", x.SessionExpiryInterval)
		l.s("rs", x.ReasonString)
		l.s("sr", x.ServerReference)
		l.up(x.UserProperties)
		return rec{"t": "DISCONNECT", "form": 9, "rc": int(x.ReasonCode), "ps": l.l}
	case *packets.Auth:
		l.s("am", x.AuthenticationMethod)
		l.s("ad", x.AuthenticationData)
		l.s("rs", x.ReasonString)
		l.up(x.UserProperties)
		return rec{"t": "AUTH", "form": 9, "rc": int(x.AuthenticateReasonCode), "ps": l.l}
	}
	return rec{"t": fmt.Sprintf("%T", p)}
}
