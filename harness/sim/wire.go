package sim

import (
	"encoding/binary"
	"errors"
	"strconv"
	"strings"
)

// Pkt is a control packet as it appears in traces and scripts.
type Pkt struct {
	P     string   `json:"p"`
	ID    int      `json:"id"`
	QoS   int      `json:"qos"`
	Dup   bool     `json:"dup"`
	Ret   bool     `json:"rt"`
	Topic string   `json:"topic"`
	Tag   int      `json:"tag"`
	RC    int      `json:"rc"`
	Codes []int    `json:"codes"`
	FS    []string `json:"fs"`
	OS    []int    `json:"os"`
	KA    int      `json:"ka"`
	RM    int      `json:"rm"`
	SE    int      `json:"se"`
	NProp int      `json:"np"`
	SP    int      `json:"sp"`
}

func blank(p string) Pkt {
	return Pkt{P: p, Tag: -1, RM: -1, KA: -1, SE: -1, Codes: []int{}, FS: []string{}, OS: []int{}}
}

var names = []string{"", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE", "SUBACK", "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH"}

func ptype(n string) byte {
	for i, x := range names {
		if x == n {
			return byte(i)
		}
	}
	return 0
}

var errWire = errors.New("bad packet")

type rd struct {
	b   []byte
	bad bool
}

func (r *rd) take(n int) []byte {
	if n > len(r.b) || n < 0 {
		r.bad = true
		r.b = nil
		return make([]byte, max(n, 0))
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}
func (r *rd) u8() int     { return int(r.take(1)[0]) }
func (r *rd) u16() int    { return int(binary.BigEndian.Uint16(r.take(2))) }
func (r *rd) u32() int    { return int(binary.BigEndian.Uint32(r.take(4))) }
func (r *rd) str() string { return string(r.take(r.u16())) }
func (r *rd) vbi() int {
	v, sh := 0, 0
	for i := 0; i < 4; i++ {
		b := r.u8()
		v |= (b & 127) << sh
		if b&128 == 0 {
			return v
		}
		sh += 7
	}
	r.bad = true
	return v
}

// props reads a property section; only a few values are of interest here.
func (r *rd) props() map[int]int {
	out := map[int]int{}
	n := r.vbi()
	s := rd{b: r.take(n)}
	for len(s.b) > 0 && !s.bad {
		id := s.u8()
		switch id {
		case 0x01, 0x17, 0x19, 0x24, 0x25, 0x28, 0x29, 0x2A:
			out[id] = s.u8()
		case 0x13, 0x21, 0x22, 0x23:
			out[id] = s.u16()
		case 0x02, 0x11, 0x18, 0x27:
			out[id] = s.u32()
		case 0x0B:
			out[id] = s.vbi()
		case 0x03, 0x08, 0x09, 0x12, 0x15, 0x16, 0x1A, 0x1C, 0x1F:
			s.str()
			out[id] = 1
		case 0x26:
			s.str()
			s.str()
			out[id] = 1
		default:
			s.bad = true
		}
	}
	if s.bad {
		r.bad = true
	}
	return out
}

// parseClient parses one client packet at the start of b; n == 0 means more bytes are needed.
func parseClient(b []byte) (p Pkt, n int, err error) {
	if len(b) < 2 {
		return p, 0, nil
	}
	rem, sh, i := 0, 0, 1
	for ; ; i++ {
		if i >= len(b) {
			return p, 0, nil
		}
		if i > 4 {
			return p, 0, errWire
		}
		rem |= int(b[i]&127) << sh
		sh += 7
		if b[i]&128 == 0 {
			i++
			break
		}
	}
	if len(b) < i+rem {
		if b[0]>>4 == 0 {
			return p, 0, errWire
		}
		return p, 0, nil
	}
	n = i + rem
	fl := int(b[0] & 15)
	p = blank(names[b[0]>>4])
	r := rd{b: b[i:n]}
	switch p.P {
	case "CONNECT":
		if r.str() != "MQTT" || r.u8() != 5 || fl != 0 {
			return p, n, errWire
		}
		cf := r.u8()
		p.KA = r.u16()
		pr := r.props()
		p.RM, p.SE = 0, 0
		if v, ok := pr[0x21]; ok {
			p.RM = v
		}
		if v, ok := pr[0x11]; ok {
			p.SE = v
		}
		r.str()
		if cf&4 != 0 {
			r.props()
			r.str()
			r.str()
		}
		if cf&128 != 0 {
			r.str()
		}
		if cf&64 != 0 {
			r.str()
		}
	case "PUBLISH":
		p.Ret, p.QoS, p.Dup = fl&1 != 0, fl>>1&3, fl&8 != 0
		p.Topic = r.str()
		if p.QoS > 0 {
			p.ID = r.u16()
		}
		r.props()
		p.Tag = tagOf(r.b)
		r.b = nil
	case "PUBACK", "PUBREC", "PUBREL", "PUBCOMP":
		want := 0
		if p.P == "PUBREL" {
			want = 2
		}
		if fl != want {
			return p, n, errWire
		}
		p.ID = r.u16()
		if len(r.b) > 0 {
			p.RC = r.u8()
		}
		if len(r.b) > 0 {
			r.props()
		}
	case "SUBSCRIBE":
		if fl != 2 {
			return p, n, errWire
		}
		p.ID = r.u16()
		r.props()
		for len(r.b) > 0 && !r.bad {
			p.FS = append(p.FS, r.str())
			p.OS = append(p.OS, r.u8())
		}
	case "UNSUBSCRIBE":
		if fl != 2 {
			return p, n, errWire
		}
		p.ID = r.u16()
		r.props()
		for len(r.b) > 0 && !r.bad {
			p.FS = append(p.FS, r.str())
		}
	case "PINGREQ":
		if fl != 0 || rem != 0 {
			return p, n, errWire
		}
	case "DISCONNECT":
		if fl != 0 {
			return p, n, errWire
		}
		if len(r.b) > 0 {
			p.RC = r.u8()
		}
		if len(r.b) > 0 {
			pr := r.props()
			if v, ok := pr[0x11]; ok {
				p.SE = v
			}
			p.NProp = len(pr)
		}
	case "AUTH":
		if len(r.b) > 0 {
			p.RC = r.u8()
		}
		if len(r.b) > 0 {
			r.props()
		}
	default:
		return p, n, errWire
	}
	if r.bad || len(r.b) > 0 {
		return p, n, errWire
	}
	return p, n, nil
}

func tagOf(b []byte) int {
	s := string(b)
	if i := strings.IndexByte(s, ' '); i >= 0 {
		s = s[:i]
	}
	v, err := strconv.Atoi(s)
	if err != nil {
		return -1
	}
	return v
}

// Payload is the payload used for a message tag; pad gives it a length.
func Payload(tag, pad int) []byte {
	s := strconv.Itoa(tag)
	if pad > 0 {
		s += " " + strings.Repeat("x", pad)
	}
	return []byte(s)
}

func vbi(n int) []byte {
	var o []byte
	for {
		b := byte(n % 128)
		n /= 128
		if n > 0 {
			b |= 128
		}
		o = append(o, b)
		if n == 0 {
			return o
		}
	}
}

func str(s string) []byte { return append([]byte{byte(len(s) >> 8), byte(len(s))}, s...) }

func u16(v int) []byte { return []byte{byte(v >> 8), byte(v)} }

// encodeServer makes the bytes of a server packet.
func encodeServer(p Pkt, pad int, short bool) []byte {
	var v []byte
	fl := byte(0)
	switch p.P {
	case "CONNACK":
		v = append(v, byte(p.SP), byte(p.RC))
		var pr []byte
		if p.RM >= 0 {
			pr = append(append(pr, 0x21), u16(p.RM)...)
		}
		if p.KA >= 0 {
			pr = append(append(pr, 0x13), u16(p.KA)...)
		}
		v = append(append(v, vbi(len(pr))...), pr...)
	case "PUBLISH":
		fl = byte(p.QoS << 1)
		if p.Dup {
			fl |= 8
		}
		if p.Ret {
			fl |= 1
		}
		v = append(v, str(p.Topic)...)
		if p.QoS > 0 {
			v = append(v, u16(p.ID)...)
		}
		v = append(v, 0)
		v = append(v, Payload(p.Tag, pad)...)
	case "PUBACK", "PUBREC", "PUBREL", "PUBCOMP":
		if p.P == "PUBREL" {
			fl = 2
		}
		v = append(v, u16(p.ID)...)
		if p.RC != 0 || !short {
			v = append(v, byte(p.RC))
			if !short {
				v = append(v, 0)
			}
		}
	case "SUBACK", "UNSUBACK":
		v = append(v, u16(p.ID)...)
		v = append(v, 0)
		for _, c := range p.Codes {
			v = append(v, byte(c))
		}
	case "DISCONNECT":
		if p.RC != 0 || !short {
			v = append(v, byte(p.RC))
			if !short {
				v = append(v, 0)
			}
		}
	case "AUTH":
		if p.RC != 0 || !short {
			v = append(v, byte(p.RC))
			if !short {
				v = append(v, 0)
			}
		}
	}
	out := append([]byte{ptype(p.P)<<4 | fl}, vbi(len(v))...)
	return append(out, v...)
}
