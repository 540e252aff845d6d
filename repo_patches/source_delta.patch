From 21d5efe10fa82b1e119149fd3f42076c12d0a4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 01/21] fix: read strings, bytes and payloads completely when a
 read returns less

---
 mqtt/packets/primitives/io.go     | 2 +-
 mqtt/packets/primitives/string.go | 2 +-
 mqtt/packets/publish.go           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mqtt/packets/primitives/io.go b/mqtt/packets/primitives/io.go
index d9b762d..0d7537d 100644
--- a/mqtt/packets/primitives/io.go
+++ b/mqtt/packets/primitives/io.go
@@ -44,6 +44,6 @@ func WriteByte(b byte, w io.Writer) error {
 
 //go:inline
 func ReadByte(r io.Reader) (b byte, err error) {
-	_, err = r.Read(unsafe.Slice(&b, 1))
+	_, err = io.ReadFull(r, unsafe.Slice(&b, 1))
 	return
 }
diff --git a/mqtt/packets/primitives/string.go b/mqtt/packets/primitives/string.go
index fde2b7b..eda9712 100644
--- a/mqtt/packets/primitives/string.go
+++ b/mqtt/packets/primitives/string.go
@@ -74,7 +74,7 @@ func (p *PrimitiveString) ReadFrom(r io.Reader) (n int64, err error) {
 
 	// Read the string
 	var count int
-	if count, err = r.Read(buf); err != nil {
+	if count, err = io.ReadFull(r, buf); err != nil {
 		return 0, err
 	} else {
 		n += int64(count)
diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 6b7c45a..06ba5b5 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -187,7 +187,7 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 	payloadLen := int64(p.Header.Remaining) - n + offset
 	if payloadLen > 0 {
 		p.Payload = make([]byte, payloadLen)
-		if count, err := r.Read(p.Payload); err != nil {
+		if count, err := io.ReadFull(r, p.Payload); err != nil {
 			return 0, err
 		} else {
 			n += int64(count)
-- 
2.43.0


From f11ac536055506946aa727c06c4d4134ea775035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:48 +0000
Subject: [PATCH 02/21] fix: refuse strings and lengths MQTT cannot represent,
 count the property identifier

---
 mqtt/packets/primitives/string.go |  8 +++++++-
 mqtt/packets/primitives/varint.go | 11 ++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/mqtt/packets/primitives/string.go b/mqtt/packets/primitives/string.go
index eda9712..99ce198 100644
--- a/mqtt/packets/primitives/string.go
+++ b/mqtt/packets/primitives/string.go
@@ -26,12 +26,18 @@ package primitives
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
 )
 
 type PrimitiveString string
 
 func (p *PrimitiveString) WriteTo(w io.Writer) (n int64, err error) {
+	// SPEC: The length of a UTF-8 Encoded String or Binary Data is limited to the range of 0 to 65,535 bytes.
+	if len(*p) > 65_535 {
+		return 0, errors.New("string exceeds 65535 bytes")
+	}
+
 	// Write the length of the string
 	if err = binary.Write(w, binary.BigEndian, uint16(len(*p))); err != nil {
 		return 0, err
@@ -52,11 +58,11 @@ func (p *PrimitiveString) WriteToAsProperty(identifier byte, w io.Writer) (n int
 	if _, err = w.Write([]byte{identifier}); err != nil {
 		return 0, err
 	}
-	n++
 
 	if n, err = p.WriteTo(w); err != nil {
 		return 0, err
 	}
+	n++ // Account for the identifier
 
 	return
 }
diff --git a/mqtt/packets/primitives/varint.go b/mqtt/packets/primitives/varint.go
index 6a00e6d..c57de7e 100644
--- a/mqtt/packets/primitives/varint.go
+++ b/mqtt/packets/primitives/varint.go
@@ -56,6 +56,10 @@ func (v *VariableByteInt) WriteTo(w io.Writer) (int64, error) {
 	result := make([]byte, 0, 4)
 	tmp := uint32(*v)
 
+	if tmp > 268_435_455 {
+		return 0, errors.New("variable byte integer overflow")
+	}
+
 	for {
 		b := byte(tmp % 128)
 		tmp /= 128
@@ -92,7 +96,7 @@ func (v *VariableByteInt) ReadFrom(r io.Reader) (n int64, err error) {
 
 	for {
 		var b [1]byte
-		if _, err = r.Read(b[:]); err != nil {
+		if _, err = io.ReadFull(r, b[:]); err != nil {
 			return 0, err
 		}
 		n++
@@ -106,6 +110,11 @@ func (v *VariableByteInt) ReadFrom(r io.Reader) (n int64, err error) {
 			break
 		}
 
+		// SPEC: The encoded value MUST use the minimum number of bytes. The maximum number of bytes is four.
+		if n == 4 {
+			return 0, errors.New("malformed variable byte integer")
+		}
+
 		mul += 7
 	}
 
-- 
2.43.0


From ff3abe648d1461fa34df14c05cd0db4eb4457b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:11 +0000
Subject: [PATCH 03/21] fix: CONNECT property identifiers and length fields

---
 mqtt/packets/connect.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/mqtt/packets/connect.go b/mqtt/packets/connect.go
index c83d947..9be498d 100644
--- a/mqtt/packets/connect.go
+++ b/mqtt/packets/connect.go
@@ -73,7 +73,7 @@ type Connect struct {
 
 func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	var flags primitives.PrimitiveByte
-	variableHeaderLen := primitives.VariableByteInt(11)
+	variableHeaderLen := primitives.VariableByteInt(10)
 	propertiesLen := primitives.VariableByteInt(0)
 	willPropertiesLen := primitives.VariableByteInt(0)
 	payloadLen := c.ClientId.Length(false)
@@ -112,7 +112,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += c.AuthenticationData.Length(true)
 	}
 
-	variableHeaderLen += propertiesLen
+	variableHeaderLen += propertiesLen.Length(false) + propertiesLen
 
 	// Set flags bits
 	if c.CleanSession {
@@ -145,9 +145,12 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		flags |= primitives.PrimitiveByte(c.WillQos) << 3
 
 		// The will and will topic are actually a part of the payload
-		payloadLen += 1 + c.Will.Length(false) // Includes byte for payload property indicator
+		payloadLen += c.Will.Length(false)
 		payloadLen += c.WillTopic.Length(false)
 
+		// The payload format indicator is always present
+		willPropertiesLen += 2
+
 		if c.WillDelayInterval > 0 {
 			willPropertiesLen += c.WillDelayInterval.Length(true)
 		}
@@ -171,9 +174,9 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		for k, v := range c.WillUserProperties {
 			willPropertiesLen += 1 + k.Length(false) + v.Length(false)
 		}
-	}
 
-	payloadLen += willPropertiesLen
+		payloadLen += willPropertiesLen.Length(false) + willPropertiesLen
+	}
 
 	/* Fixed header begin */
 	fh := FixedHeader{
@@ -238,7 +241,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	}
 
 	if c.TopicAliasMaximum > 0 {
-		if count, err = c.TopicAliasMaximum.WriteToAsProperty(0x12, w); err != nil {
+		if count, err = c.TopicAliasMaximum.WriteToAsProperty(0x22, w); err != nil {
 			return 0, err
 		}
 		n += count
@@ -252,7 +255,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	}
 
 	if c.RequestProblemInformation > 0 {
-		if count, err = c.RequestProblemInformation.WriteToAsProperty(0x19, w); err != nil {
+		if count, err = c.RequestProblemInformation.WriteToAsProperty(0x17, w); err != nil {
 			return 0, err
 		}
 		n += count
@@ -320,7 +323,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 
 		// Will message expiry interval
 		if c.WillMessageExpiryInterval > 0 {
-			if count, err = c.WillMessageExpiryInterval.WriteToAsProperty(0x12, w); err != nil {
+			if count, err = c.WillMessageExpiryInterval.WriteToAsProperty(0x02, w); err != nil {
 				return 0, err
 			}
 			n += count
-- 
2.43.0


From d820118d0b83860894987a31fb8c666bf03f24d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:20 +0000
Subject: [PATCH 04/21] fix: DISCONNECT reason string and server reference

---
 mqtt/packets/disconnect.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index 5d8f426..3546a8e 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -109,7 +109,7 @@ func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 }
 
 func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
-	variableHeaderLen := primitives.VariableByteInt(2) // Account for reason code and properties length var
+	variableHeaderLen := primitives.VariableByteInt(1) // Account for reason code
 	propertiesLen := primitives.VariableByteInt(0)
 
 	// Calculate properties length
@@ -117,6 +117,10 @@ func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += d.SessionExpiryInterval.Length(true)
 	}
 
+	if len(d.ReasonString) > 0 {
+		propertiesLen += d.ReasonString.Length(true)
+	}
+
 	for k, v := range d.UserProperties {
 		propertiesLen += 1 + k.Length(false) + v.Length(false)
 	}
@@ -125,7 +129,7 @@ func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += d.ServerReference.Length(true)
 	}
 
-	variableHeaderLen += propertiesLen
+	variableHeaderLen += propertiesLen.Length(false) + propertiesLen
 
 	// Write fixed header
 	d.Header.SetType(DISCONNECT)
@@ -181,6 +185,14 @@ func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
 		}
 		n += count
 	}
+
+	// Server reference
+	if len(d.ServerReference) > 0 {
+		if count, err = d.ServerReference.WriteToAsProperty(0x1C, w); err != nil {
+			return 0, err
+		}
+		n += count
+	}
 	/* Properties end */
 
 	return
-- 
2.43.0


From 4af7e7bb25c279cd7ed9891f3a18e1073174674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:21 +0000
Subject: [PATCH 05/21] fix: AUTH is written with its reason code and property
 length

---
 mqtt/packets/auth.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index fc925da..7dbc269 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -115,18 +115,12 @@ func (a *Auth) WriteTo(w io.Writer) (n int64, err error) {
 	propertiesLen := primitives.VariableByteInt(0)
 
 	// Calculate remaining length
-	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Success) and there are no
-	//       Properties. In this case the AUTH has a Remaining Length of 0.
-	if a.AuthenticateReasonCode != 0 {
-		variableHeaderLen++
-	}
-
 	if len(a.AuthenticationMethod) > 0 {
 		l := primitives.VariableByteInt(len(a.AuthenticationMethod))
 		propertiesLen += 3 + l
 	}
 
-	if len(a.AuthenticationData) > 0 {
+	if len(a.AuthenticationMethod) > 0 {
 		l := primitives.VariableByteInt(len(a.AuthenticationData))
 		propertiesLen += 3 + l
 	}
@@ -140,7 +134,11 @@ func (a *Auth) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += 1 + k.Length(false) + v.Length(false)
 	}
 
-	variableHeaderLen += propertiesLen
+	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Success) and there are no
+	//       Properties. In this case the AUTH has a Remaining Length of 0.
+	if a.AuthenticateReasonCode != 0 || propertiesLen != 0 {
+		variableHeaderLen += a.AuthenticateReasonCode.Length(false) + propertiesLen.Length(false) + propertiesLen
+	}
 
 	a.Header.SetType(AUTH)
 	a.Header.Remaining = variableHeaderLen
@@ -150,7 +148,21 @@ func (a *Auth) WriteTo(w io.Writer) (n int64, err error) {
 		return 0, err
 	}
 
+	if variableHeaderLen == 0 {
+		return
+	}
+
+	if count, err = a.AuthenticateReasonCode.WriteTo(w); err != nil {
+		return 0, err
+	}
+	n += count
+
 	/* Properties begin */
+	if count, err = propertiesLen.WriteTo(w); err != nil {
+		return 0, err
+	}
+	n += count
+
 	if len(a.AuthenticationMethod) > 0 {
 		if count, err = a.AuthenticationMethod.WriteToAsProperty(0x15, w); err != nil {
 			return 0, err
-- 
2.43.0


From dcbf9f495489a998e2cb892429aa847c89a68d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 06/21] fix: PUBLISH decoding of properties, QoS 3 and long
 headers

---
 mqtt/packets/publish.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 06ba5b5..c5f83c9 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -95,7 +95,7 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 			return
 		}
 		n += count
-		offset = 2
+		offset = count
 	}
 
 	// Parse flags
@@ -103,6 +103,11 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 	p.QoS = QoS(p.Header.GetFlags()>>1) & 0x03
 	p.Duplicate = ((p.Header.GetFlags() >> 3) & 0x01) != 0
 
+	// SPEC: A PUBLISH Packet MUST NOT have both QoS bits set to 1 [MQTT-3.3.1-4].
+	if p.QoS > QoS2 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Read variable header
 	if count, err = p.Topic.ReadFrom(r); err != nil {
 		return 0, err
@@ -123,11 +128,11 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(p.Header.Remaining) {
-		return
+	remaining := int64(propertiesLen)
+	if remaining > int64(p.Header.Remaining)-n+offset {
+		return 0, ErrControlPacketIsMalformed
 	}
 
-	remaining := int64(propertiesLen)
 	for remaining > 0 {
 		// Read the identifier byte
 		var identifier byte
@@ -138,6 +143,11 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining--
 
 		switch identifier {
+		case 0x01: // Payload format indicator
+			var indicator primitives.PrimitiveByte
+			if count, err = indicator.ReadFrom(r); err != nil {
+				return 0, err
+			}
 		case 0x02: // Message expiry interval
 			if count, err = p.MessageExpiryInterval.ReadFrom(r); err != nil {
 				return 0, err
@@ -177,15 +187,24 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = p.ContentType.ReadFrom(r); err != nil {
 				return 0, err
 			}
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
+
+	// Fail if the last property exceeds the properties
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
 	/* Properties end */
 
 	// Read the payload
 	payloadLen := int64(p.Header.Remaining) - n + offset
-	if payloadLen > 0 {
+	if payloadLen < 0 {
+		return 0, ErrControlPacketIsMalformed
+	} else if payloadLen > 0 {
 		p.Payload = make([]byte, payloadLen)
 		if count, err := io.ReadFull(r, p.Payload); err != nil {
 			return 0, err
-- 
2.43.0


From b0687e5519a6b0f9c6e4921d42cf98fd7582b2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 07/21] fix: malformed acknowledgements, property sections and
 unknown properties are refused

---
 mqtt/packets/auth.go       | 28 ++++++++++++++++++++++++----
 mqtt/packets/connack.go    | 27 ++++++++++++++++++++-------
 mqtt/packets/disconnect.go | 26 +++++++++++++++++++++++++-
 mqtt/packets/puback.go     | 24 ++++++++++++++++++++++--
 mqtt/packets/suback.go     | 15 +++++++++++++--
 mqtt/packets/unsuback.go   | 15 +++++++++++++--
 6 files changed, 117 insertions(+), 18 deletions(-)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index 7dbc269..5a5085c 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -43,13 +43,21 @@ type Auth struct {
 func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Success) and there are no
+	//       Properties. In this case the AUTH has a Remaining Length of 0.
+	if a.Header.Remaining == 0 {
+		return
+	}
+
 	// Read the reason code
 	if _, err = a.AuthenticateReasonCode.ReadFrom(r); err != nil {
 		return
 	}
 	n++
 
-	if n >= int64(a.Header.Remaining) {
+	if n > int64(a.Header.Remaining) {
+		return 0, ErrControlPacketIsMalformed
+	} else if n == int64(a.Header.Remaining) {
 		return
 	}
 
@@ -60,11 +68,11 @@ func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(a.Header.Remaining) {
-		return
+	remaining := int64(propertiesLen)
+	if remaining > int64(a.Header.Remaining)-n {
+		return 0, ErrControlPacketIsMalformed
 	}
 
-	remaining := int64(propertiesLen)
 	for remaining > 0 {
 		// Read the identifier byte
 		var identifier byte
@@ -102,11 +110,23 @@ func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			a.UserProperties[k] = v
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
 
+	// Fail if the last property exceeds the properties
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
+	// Fail if this is not the end of the control packet
+	if n != int64(a.Header.Remaining) {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	return
 }
 
diff --git a/mqtt/packets/connack.go b/mqtt/packets/connack.go
index 451df38..d66e9bf 100644
--- a/mqtt/packets/connack.go
+++ b/mqtt/packets/connack.go
@@ -69,7 +69,7 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 	c.SessionPresent = (c.Flags & 0x01) != 0
 
 	if n >= int64(c.Header.Remaining) {
-		return
+		return 0, ErrControlPacketIsMalformed
 	}
 
 	if count, err = c.ReasonCode.ReadFrom(r); err != nil {
@@ -77,7 +77,9 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(c.Header.Remaining) {
+	if n > int64(c.Header.Remaining) {
+		return 0, ErrControlPacketIsMalformed
+	} else if n == int64(c.Header.Remaining) {
 		return
 	}
 
@@ -90,11 +92,10 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(c.Header.Remaining) {
-		return
-	}
-
 	remaining := int64(propertiesLen)
+	if remaining > int64(c.Header.Remaining)-n {
+		return 0, ErrControlPacketIsMalformed
+	}
 
 	for remaining > 0 {
 		// Read the identifier byte
@@ -185,12 +186,24 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = c.AuthenticationData.ReadFrom(r); err != nil {
 				return 0, err
 			}
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
 
-	n += int64(c.Header.Remaining)
+	// Fail if the last property exceeds the properties
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	/* Properties end */
+
+	// Fail if this is not the end of the control packet
+	if n != int64(c.Header.Remaining) {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	return
 }
diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index 3546a8e..daf868d 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -43,13 +43,21 @@ type Disconnect struct {
 func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Normal disconnecton) and
+	//       there are no Properties. In this case the DISCONNECT has a Remaining Length of 0.
+	if d.Header.Remaining == 0 {
+		return
+	}
+
 	/* Variable header begin */
 	if count, err = d.ReasonCode.ReadFrom(r); err != nil {
 		return 0, err
 	}
 	n += count
 
-	if n >= int64(d.Header.Remaining) {
+	if n > int64(d.Header.Remaining) {
+		return 0, ErrControlPacketIsMalformed
+	} else if n == int64(d.Header.Remaining) {
 		return
 	}
 
@@ -61,6 +69,10 @@ func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 	n += count
 
 	remaining := int64(propertiesLen)
+	if remaining > int64(d.Header.Remaining)-n {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	for remaining > 0 {
 		// Read the identifier byte
 		var identifier byte
@@ -98,13 +110,25 @@ func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = d.ServerReference.ReadFrom(r); err != nil {
 				return 0, err
 			}
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
+
+	// Fail if the last property exceeds the properties
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
 	/* Properties end */
 	/* Variable header end */
 
+	// Fail if this is not the end of the control packet
+	if n != int64(d.Header.Remaining) {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	return
 }
 
diff --git a/mqtt/packets/puback.go b/mqtt/packets/puback.go
index 0ba20de..075c0ac 100644
--- a/mqtt/packets/puback.go
+++ b/mqtt/packets/puback.go
@@ -84,7 +84,9 @@ func (p *Puback) ReadFrom(r io.Reader) (n int64, err error) {
 		return 0, err
 	}
 
-	if n >= int64(p.Header.Remaining) {
+	if n > int64(p.Header.Remaining) {
+		return 0, ErrControlPacketIsMalformed
+	} else if n == int64(p.Header.Remaining) {
 		return
 	}
 
@@ -93,7 +95,9 @@ func (p *Puback) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(p.Header.Remaining) {
+	if n > int64(p.Header.Remaining) {
+		return 0, ErrControlPacketIsMalformed
+	} else if n == int64(p.Header.Remaining) {
 		return
 	}
 
@@ -104,6 +108,10 @@ func (p *Puback) ReadFrom(r io.Reader) (n int64, err error) {
 	n += count
 
 	remaining := int64(propertiesLen)
+	if remaining > int64(p.Header.Remaining)-n {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	for remaining > 0 {
 		// Read the identifier byte
 		var identifier byte
@@ -133,11 +141,23 @@ func (p *Puback) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			p.UserProperties[k] = v
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
 
+	// Fail if the last property exceeds the properties
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
+	// Fail if this is not the end of the control packet
+	if n != int64(p.Header.Remaining) {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	return
 }
 
diff --git a/mqtt/packets/suback.go b/mqtt/packets/suback.go
index 8067620..04a48e7 100644
--- a/mqtt/packets/suback.go
+++ b/mqtt/packets/suback.go
@@ -51,7 +51,7 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 
 	if n >= int64(s.Header.Remaining) {
-		return
+		return 0, ErrControlPacketIsMalformed
 	}
 	/* Variable header end */
 
@@ -63,10 +63,14 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 	n += count
 
 	if n >= int64(s.Header.Remaining) {
-		return
+		return 0, ErrControlPacketIsMalformed
 	}
 
 	remaining := int64(propertiesLen)
+	if remaining > int64(s.Header.Remaining)-n {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	for remaining > 0 {
 		// Read the identifier byte
 		var identifier byte
@@ -96,11 +100,18 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			s.UserProperties[k] = v
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
 
+	// Fail if the last property exceeds the properties
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Fail if this is the end of the control packet
 	if n >= int64(s.Header.Remaining) {
 		return 0, ErrControlPacketIsMalformed
diff --git a/mqtt/packets/unsuback.go b/mqtt/packets/unsuback.go
index 4542153..63cb98b 100644
--- a/mqtt/packets/unsuback.go
+++ b/mqtt/packets/unsuback.go
@@ -51,7 +51,7 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 
 	if n >= int64(u.Header.Remaining) {
-		return
+		return 0, ErrControlPacketIsMalformed
 	}
 	/* Variable header end */
 
@@ -63,10 +63,14 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 	n += count
 
 	if n >= int64(u.Header.Remaining) {
-		return
+		return 0, ErrControlPacketIsMalformed
 	}
 
 	remaining := int64(propertiesLen)
+	if remaining > int64(u.Header.Remaining)-n {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	for remaining > 0 {
 		// Read the identifier byte
 		var identifier byte
@@ -96,11 +100,18 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			u.UserProperties[k] = v
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
 
+	// Fail if the last property exceeds the properties
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Fail if this is the end of the control packet
 	if n >= int64(u.Header.Remaining) {
 		return 0, ErrControlPacketIsMalformed
-- 
2.43.0


From ecfb5dfb3239657864059e35423eb763b59ba6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 08/21] fix: Publish.Write stores at the cursor

---
 mqtt/packets/publish.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index c5f83c9..29e0ca2 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -63,7 +63,7 @@ func (p *Publish) Write(buf []byte) (n int, err error) {
 	}
 
 	// Copy into payload
-	n = copy(p.Payload[:p.offset], buf)
+	n = copy(p.Payload[p.offset:], buf)
 	p.offset += n
 
 	return
-- 
2.43.0


From a2e3f99c27532601d5b5770aa52964a4fc53b636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:25 +0000
Subject: [PATCH 09/21] fix: no-local is never set on a shared subscription and
 setting it never panics

---
 mqtt/packets/topic.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mqtt/packets/topic.go b/mqtt/packets/topic.go
index c1da7b3..66ecfaf 100644
--- a/mqtt/packets/topic.go
+++ b/mqtt/packets/topic.go
@@ -24,7 +24,11 @@
 
 package packets
 
-import "github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
+import (
+	"strings"
+
+	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
+)
 
 type Topic struct {
 	filter  primitives.PrimitiveString
@@ -44,22 +48,27 @@ func (t *Topic) Filter() string {
 }
 
 func (t *Topic) SetFilter(filter string) *Topic {
-	if len(t.filter) >= 6 && t.filter[:6] == "$share" {
+	t.filter = primitives.PrimitiveString(filter)
+	if t.isShared() {
 		// Unset no local option
 		// SPEC: It is a Protocol Error to set the No Local bit to 1 on a Shared Subscription [MQTT-3.8.3-4]
 		t.SetNoLocal(false)
 	}
-	t.filter = primitives.PrimitiveString(filter)
 	return t
 }
 
+// isShared returns true if the topic filter is that of a shared subscription.
+func (t *Topic) isShared() bool {
+	return strings.HasPrefix(string(t.filter), "$share/")
+}
+
 func (t *Topic) SetNoLocal(on bool) *Topic {
 	// Set bit 2
 	t.options &= ^primitives.PrimitiveByte(1 << 2)
 
 	// Leave bit unset if this is a shared subscription
 	// SPEC: It is a Protocol Error to set the No Local bit to 1 on a Shared Subscription [MQTT-3.8.3-4]
-	if on && t.filter[:6] != "$share" {
+	if on && !t.isShared() {
 		t.options |= primitives.PrimitiveByte(1 << 2)
 	}
 	return t
-- 
2.43.0


From 2b2fb8120b8f79746e8e9e5cd9de10c9ca2a93d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:26 +0000
Subject: [PATCH 10/21] fix: QoS 3 is refused when writing

---
 mqtt/packets/connect.go | 6 ++++++
 mqtt/packets/publish.go | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/mqtt/packets/connect.go b/mqtt/packets/connect.go
index 9be498d..60ca9d1 100644
--- a/mqtt/packets/connect.go
+++ b/mqtt/packets/connect.go
@@ -78,6 +78,12 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	willPropertiesLen := primitives.VariableByteInt(0)
 	payloadLen := c.ClientId.Length(false)
 
+	// SPEC: The value of Will QoS can be 0 (0x00), 1 (0x01), or 2 (0x02). A value of 3 (0x03) is a Malformed Packet
+	//       [MQTT-3.1.2-12].
+	if c.WillQos > QoS2 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Calculate length of properties and payload
 	if c.SessionExpiryInterval > 0 {
 		propertiesLen += c.SessionExpiryInterval.Length(true)
diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 29e0ca2..2c6e767 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -231,6 +231,11 @@ func (p *Publish) WriteTo(w io.Writer) (n int64, err error) {
 		return 0, ErrControlPacketIsMalformed
 	}
 
+	// SPEC: A PUBLISH Packet MUST NOT have both QoS bits set to 1 [MQTT-3.3.1-4].
+	if p.QoS > QoS2 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Calculate length of properties and payload
 	variableHeaderLen += p.Topic.Length(false)
 
-- 
2.43.0


From ce53ed32ab205edb5ed8175410e0ea8a2d30872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:46 +0000
Subject: [PATCH 11/21] fix: disconnecting works when connected and fails when
 not

---
 mqtt/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 03339fe..c2a174c 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -338,7 +338,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if c.isConnected {
+	if !c.isConnected {
 		return ErrClientNotConnected
 	}
 
@@ -395,7 +395,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 }
 
 func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.PrimitiveByte) (err error) {
-	if c.isConnected {
+	if !c.isConnected {
 		return ErrClientNotConnected
 	}
 
-- 
2.43.0


From 73281b9f3b62e9c784898b4980b277c7c786d554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:13 +0000
Subject: [PATCH 12/21] fix: lock order of connection and state, and the
 receive maximum disconnect

---
 mqtt/client.go | 113 +++++++++++++++++++++++--------------------------
 1 file changed, 53 insertions(+), 60 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index c2a174c..82c20d6 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -209,18 +209,15 @@ func (c *Client) signal(packetType packets.PacketType, data any, channel chan<-
 // Connect sends the CONNECT packet to the server and waits for the server to send the acknowledgement (CONNACK) packet
 // back to the client. If the acknowledgement contains a failure reason, then a ReasonCode error is returned.
 func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err error) {
-	c.mutex.Lock()
-	defer c.mutex.Unlock()
-
 	var deadline time.Time
 	var ok bool
 	if deadline, ok = ctx.Deadline(); !ok {
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
+	// NOTE: connMutex is always locked before mutex.
 	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
+	defer c.connMutex.Unlock()
 
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
@@ -253,8 +250,6 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 		return err
 	}
 
-	unlockConn.Do(c.connMutex.Unlock)
-
 	// Did the server send an error response?
 	// SPEC: If a Server sends a CONNACK packet containing a Reason code of 128 or greater it MUST then close the
 	//       Network Connection [MQTT-3.2.2-7].
@@ -268,6 +263,8 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 		return ReasonCode(connack.ReasonCode)
 	}
 
+	c.mutex.Lock()
+
 	// Handle server keep alive specification
 	if connack.ServerKeepAlive > 0 {
 		// Use the keep alive interval returned by the server
@@ -307,6 +304,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 
 	// Successful connection!
 	c.isConnected = true
+	c.mutex.Unlock()
 
 	// Signal CONNACK event
 	c.signal(packets.CONNACK, connack, nil)
@@ -317,6 +315,9 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 // IsConnected returns true if the client is currently in the connected state. Otherwise, it returns false if the client
 // is not currently connected to a MQTT server.
 func (c *Client) IsConnected() bool {
+	c.mutex.RLock()
+	defer c.mutex.RUnlock()
+
 	return c.isConnected
 }
 
@@ -335,10 +336,7 @@ func (c *Client) Disconnect(ctx context.Context, publishWill bool) (err error) {
 // time. Setting a zero value for the sessionExpiryInterval parameter will cause the server to default to the value
 // specified in the CONNECT control packet.
 func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bool, sessionExpiryInterval int) (err error) {
-	c.mutex.Lock()
-	defer c.mutex.Unlock()
-
-	if !c.isConnected {
+	if !c.IsConnected() {
 		return ErrClientNotConnected
 	}
 
@@ -348,9 +346,13 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
 	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
+	defer c.connMutex.Unlock()
+
+	// The client could have been disconnected in the meantime
+	if !c.IsConnected() {
+		return ErrClientNotConnected
+	}
 
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
@@ -381,12 +383,10 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	// Close the connection to the server
 	// SPEC: MUST NOT send any more MQTT Control Packets on that Network Connection [MQTT-3.14.4-1].
 	//       MUST close the Network Connection [MQTT-3.14.4-2].
+	c.setDisconnected()
 	if err = c.conn.Close(); err != nil {
 		return
 	}
-	unlockConn.Do(c.connMutex.Unlock)
-
-	c.isConnected = false
 
 	// Signal disconnect
 	c.signal(packets.DISCONNECT, disconnect, nil)
@@ -394,26 +394,9 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	return nil
 }
 
-func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.PrimitiveByte) (err error) {
-	if !c.isConnected {
-		return ErrClientNotConnected
-	}
-
-	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
-	}
-
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
-	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
-	}
-
+// disconnectWithReason sends the DISCONNECT packet with the specified reason and closes the connection. connMutex MUST be
+// locked and the I/O deadline MUST be set by the caller.
+func (c *Client) disconnectWithReason(reason primitives.PrimitiveByte) (err error) {
 	disconnect := &packets.Disconnect{
 		ReasonCode: reason,
 	}
@@ -426,20 +409,16 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 	//	disconnect.SessionExpiryInterval = primitives.PrimitiveUint32(sessionExpiryInterval)
 	//}
 
-	// Send the DISCONNECT packet to the server
-	if err = c.send(disconnect); err != nil {
-		return err
-	}
+	// Send the DISCONNECT packet to the server. The connection is closed in any case.
+	err = c.send(disconnect)
 
 	// Close the connection to the server
 	// SPEC: MUST NOT send any more MQTT Control Packets on that Network Connection [MQTT-3.14.4-1].
 	//       MUST close the Network Connection [MQTT-3.14.4-2].
-	if err = c.conn.Close(); err != nil {
-		return
+	c.setDisconnected()
+	if closeErr := c.conn.Close(); err == nil {
+		err = closeErr
 	}
-	unlockConn.Do(c.connMutex.Unlock)
-
-	c.isConnected = false
 
 	// Signal disconnect
 	c.signal(packets.DISCONNECT, disconnect, nil)
@@ -447,6 +426,14 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 	return
 }
 
+// setDisconnected puts the client into the not connected state.
+func (c *Client) setDisconnected() {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	c.isConnected = false
+}
+
 // Subscribe sends the SUBSCRIBE control packet to the server with the specified topic filters and options.
 func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	// Do nothing if topics list is empty
@@ -754,6 +741,9 @@ func (c *Client) sendPubrec(ctx context.Context, publish *packets.Publish) (err
 // KeepAliveInterval returns the interval at which frequent PINGREQ packets must be sent. The server may specify a
 // different value in the CONNACK packet than what was originally specified by the CONNECT packet.
 func (c *Client) KeepAliveInterval() time.Duration {
+	c.mutex.RLock()
+	defer c.mutex.RUnlock()
+
 	return c.keepAliveInterval
 }
 
@@ -764,10 +754,15 @@ func (c *Client) KeepAliveInterval() time.Duration {
 //
 //	PINGREQ packet. [MQTT-3.1.2-20]
 func (c *Client) KeepAlive() (err error) {
-	c.mutex.RLock()
-	defer c.mutex.RUnlock()
+	if !c.IsConnected() {
+		return ErrClientNotConnected
+	}
 
-	if !c.isConnected {
+	c.connMutex.Lock()
+	defer c.connMutex.Unlock()
+
+	// The client could have been disconnected in the meantime
+	if !c.IsConnected() {
 		return ErrClientNotConnected
 	}
 
@@ -784,10 +779,6 @@ func (c *Client) KeepAlive() (err error) {
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -801,8 +792,6 @@ func (c *Client) KeepAlive() (err error) {
 		return err
 	}
 
-	unlockConn.Do(c.connMutex.Unlock)
-
 	// NOTE: Poll handles receiving the response and disconnecting if no response has been sent within twice the keep
 	// alive interval.
 	return
@@ -813,20 +802,25 @@ func (c *Client) KeepAlive() (err error) {
 // call to the Publish method should take place on the same goroutine that a call to Poll takes place on as this could
 // potentially cause a deadlock.
 func (c *Client) Poll(ctx context.Context) (err error) {
-	if !c.isConnected {
+	if !c.IsConnected() {
 		return ErrClientNotConnected
 	}
 
 	c.connMutex.Lock()
 	defer c.connMutex.Unlock()
 
+	// The client could have been disconnected in the meantime
+	if !c.IsConnected() {
+		return ErrClientNotConnected
+	}
+
 	// Check if current time is after the ping response deadline
 	// SPEC: If a Client does not receive a PINGRESP packet within a reasonable amount of time after it has sent a
 	//       PINGREQ, it SHOULD close the Network Connection to the Server.
 	if time.Now().After(c.pingRespDeadline) {
 		// Likely disconnected from server. Close the connection.
 		// SPEC: [MQTT-3.1.2-22]
-		c.isConnected = false
+		c.setDisconnected()
 		if err := c.conn.Close(); err != nil {
 			return err
 		}
@@ -887,10 +881,9 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			//       [MQTT-3.3.4-9]. If it receives more than Receive Maximum QoS 1 and QoS 2 PUBLISH packets where it
 			//       has not sent a PUBACK or PUBCOMP in response, the Client uses DISCONNECT with Reason Code 0x93
 			//       (Receive Maximum exceeded) as described in section 4.13 Handling errors.
-			if err = c.disconnectWithReason(ctx, 0x93); err != nil {
-				c.mutex.Unlock()
-				return err
-			}
+			c.mutex.Unlock()
+			c.disconnectWithReason(0x93)
+			return ReasonCode(0x93)
 		} else {
 			// Decrement the receive quota counter
 			c.receiveQuota--
-- 
2.43.0


From 1635909ca1517fac577f60064eedc81c2560a903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:29 +0000
Subject: [PATCH 13/21] fix: a keep alive of zero turns the keep alive
 mechanism off

---
 mqtt/client.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 82c20d6..0b66d9d 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -271,7 +271,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 		// SPEC: If the Server returns a Server Keep Alive on the CONNACK packet, the Client MUST use that value instead
 		//       of the value it sent as the Keep Alive. [MQTT-3.1.2-21]
 		c.keepAliveInterval = time.Second * time.Duration(connack.ServerKeepAlive)
-	} else if packet.KeepAlive > 0 {
+	} else {
 		// Use the keep alive interval defined in the CONNECT packet
 		c.keepAliveInterval = time.Second * time.Duration(packet.KeepAlive)
 	}
@@ -770,7 +770,10 @@ func (c *Client) KeepAlive() (err error) {
 	// SPEC: If the Keep Alive value is non-zero and the Server does not receive an MQTT Control Packet from the Client
 	//       within one and a half times the Keep Alive time period, it MUST close the Network Connection to the Client
 	//       as if the network had failed. [MQTT-3.1.2-22]
-	ctx, cancel := context.WithTimeout(context.Background(), time.Second*time.Duration(c.keepAliveInterval.Seconds()*1.5))
+	ctx, cancel := context.Background(), context.CancelFunc(func() {})
+	if c.keepAliveInterval > 0 {
+		ctx, cancel = context.WithTimeout(ctx, time.Second*time.Duration(c.keepAliveInterval.Seconds()*1.5))
+	}
 	defer cancel()
 
 	var deadline time.Time
@@ -817,7 +820,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	// Check if current time is after the ping response deadline
 	// SPEC: If a Client does not receive a PINGRESP packet within a reasonable amount of time after it has sent a
 	//       PINGREQ, it SHOULD close the Network Connection to the Server.
-	if time.Now().After(c.pingRespDeadline) {
+	// SPEC: A Keep Alive value of 0 has the effect of turning off the Keep Alive mechanism.
+	if c.keepAliveInterval > 0 && time.Now().After(c.pingRespDeadline) {
 		// Likely disconnected from server. Close the connection.
 		// SPEC: [MQTT-3.1.2-22]
 		c.setDisconnected()
-- 
2.43.0


From 2fa6a32493ad77f67be83c2f73d1493795454c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:30 +0000
Subject: [PATCH 14/21] fix: an absent receive maximum is 65535

---
 mqtt/client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 0b66d9d..b23be6a 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -277,11 +277,14 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	}
 
 	// Store receive maximum reported by the connect packet and CONNACK received from the server
+	// SPEC: If the Receive Maximum value is absent, then its value defaults to 65,535.
 	c.serverReceiveMaximum = connack.ReceiveMaximum.Value()
+	if c.serverReceiveMaximum == 0 {
+		c.serverReceiveMaximum = 65_535
+	}
 
 	if packet.ReceiveMaximum == 0 {
-		// Default to that of the server
-		c.clientReceiveMaximum = c.serverReceiveMaximum
+		c.clientReceiveMaximum = 65_535
 	} else {
 		// Use the value from the connect control packet
 		c.clientReceiveMaximum = packet.ReceiveMaximum.Value()
-- 
2.43.0


From e4d082fadaf59f3810a544e1a9c1a85f918ce26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 15/21] fix: the client is not connected after a DISCONNECT
 from the server

---
 mqtt/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mqtt/client.go b/mqtt/client.go
index b23be6a..6ee7794 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -1097,6 +1097,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			return
 		}
 		// Close the connection
+		c.setDisconnected()
 		if err = c.conn.Close(); err != nil {
 			return
 		}
-- 
2.43.0


From 4438dc28d295ee2193f88a3f339907a3e6ddf1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:58 +0000
Subject: [PATCH 16/21] fix: acknowledgements without a stored packet, storage
 errors and failing PUBREC in Poll

---
 mqtt/client.go | 123 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 94 insertions(+), 29 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 6ee7794..2df57ba 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -952,12 +952,11 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Drop any persisted publish with the same packet identifier
-		if c.storage != nil {
-			if err = c.storage.Drop(puback.PacketIdentifier.Value()); err != nil {
-				return err
-			}
-		}
+		err = c.dropOutgoing(puback.PacketIdentifier.Value())
 		c.mutex.Unlock()
+		if err != nil {
+			return err
+		}
 
 		c.signal(packets.PUBACK, puback, nil)
 	case packets.PUBREC:
@@ -970,22 +969,26 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// Increment the send quota counter if it contains a failure reason code
 		// SPEC: Each time a PUBREC packet is received with a Return Code of 0x80 or greater.
 		c.mutex.Lock()
-		if pubrec.ReasonCode > 0x80 {
+		if pubrec.ReasonCode >= 0x80 {
 			if c.sendQuota < c.serverReceiveMaximum {
 				c.sendQuota++
-			}
-		}
 
-		if c.storage != nil {
-			// Discard original publish from persistent storage
-			if err = c.storage.Drop(pubrec.PacketIdentifier.Value()); err != nil {
-				return err
+				// Potentially allow a blocked call to Publish to continue.
+				select {
+				case <-c.pendingSendSemaphore: // Unblock a pending call to Publish
+				default: // No call to Publish is pending
+				}
 			}
 
-			// Store the incoming PUBREC to persistent storage
-			if err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec); err != nil {
+			// The message will not be released. Drop the persisted publish.
+			err = c.dropOutgoing(pubrec.PacketIdentifier.Value())
+			c.mutex.Unlock()
+			if err != nil {
 				return err
 			}
+
+			c.signal(packets.PUBREC, pubrec, nil)
+			break
 		}
 
 		// Send PUBREL control packet
@@ -995,11 +998,16 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			},
 		}
 
-		if err = c.send(pubrel); err != nil {
+		// Replace the original publish in persistent storage
+		err = c.releaseOutgoing(pubrel)
+		c.mutex.Unlock()
+		if err != nil {
 			return err
 		}
 
-		c.mutex.Unlock()
+		if err = c.send(pubrel); err != nil {
+			return err
+		}
 
 		c.signal(packets.PUBREC, pubrec, nil)
 	case packets.PUBREL:
@@ -1011,13 +1019,12 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform persistence operations as required by the QoS level of the related PUBLISH.
 		c.mutex.Lock()
-		if c.storage != nil {
-			// Discard original PUBREC control packet from persistent storage
-			if err = c.storage.Drop(pubrel.PacketIdentifier.Value()); err != nil {
-				return err
-			}
-		}
+		// Discard original PUBREC control packet from persistent storage
+		err = c.dropIncoming(pubrel.PacketIdentifier.Value())
 		c.mutex.Unlock()
+		if err != nil {
+			return err
+		}
 
 		// Send PUBCOMP control packet
 		pubcomp := &packets.Pubcomp{
@@ -1057,14 +1064,12 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			}
 		}
 
-		if c.storage != nil {
-			// Discard original PUBREC control packet from persistent storage
-			if err = c.storage.Drop(pubcomp.PacketIdentifier.Value()); err != nil {
-				return err
-			}
-		}
-
+		// Discard original PUBREL control packet from persistent storage
+		err = c.dropOutgoing(pubcomp.PacketIdentifier.Value())
 		c.mutex.Unlock()
+		if err != nil {
+			return err
+		}
 
 		c.signal(packets.PUBCOMP, pubcomp, nil)
 	case packets.SUBACK:
@@ -1184,6 +1189,66 @@ func (c *Client) matchTopic(topic, filter string) bool {
 	return true
 }
 
+// stored returns the persisted control packet with the specified identifier, or nil if there is none.
+func (c *Client) stored(identifier uint16) (packet any, err error) {
+	if c.storage == nil {
+		return nil, nil
+	}
+
+	if packet, err = c.storage.Get(identifier); errors.Is(err, storage.ErrNoEntry) {
+		return nil, nil
+	}
+	return
+}
+
+// dropOutgoing removes the message sent with the specified identifier from persistent storage. A message received with
+// the same identifier is left alone, as is the case when there is none.
+func (c *Client) dropOutgoing(identifier uint16) error {
+	packet, err := c.stored(identifier)
+	if err != nil {
+		return err
+	}
+
+	switch packet.(type) {
+	case *packets.Publish, *packets.Pubrel:
+		return c.storage.Drop(identifier)
+	}
+	return nil
+}
+
+// releaseOutgoing replaces the publish with its PUBREL control packet in persistent storage.
+func (c *Client) releaseOutgoing(pubrel *packets.Pubrel) error {
+	packet, err := c.stored(pubrel.PacketIdentifier.Value())
+	if err != nil {
+		return err
+	}
+
+	if _, ok := packet.(*packets.Publish); ok {
+		// Discard original publish from persistent storage
+		if err = c.storage.Drop(pubrel.PacketIdentifier.Value()); err != nil {
+			return err
+		}
+
+		// Store the PUBREL to persistent storage
+		return c.storage.Store(pubrel.PacketIdentifier.Value(), pubrel)
+	}
+	return nil
+}
+
+// dropIncoming removes the record of the message received with the specified identifier from persistent storage, if
+// there is one.
+func (c *Client) dropIncoming(identifier uint16) error {
+	packet, err := c.stored(identifier)
+	if err != nil {
+		return err
+	}
+
+	if _, ok := packet.(*packets.Pubrec); ok {
+		return c.storage.Drop(identifier)
+	}
+	return nil
+}
+
 func (c *Client) send(w io.WriterTo) (err error) {
 	// Allocate a new buffer
 	buf := bytes.NewBuffer(make([]byte, 0, 128))
-- 
2.43.0


From f0508d83e8ebebd6193d9fd6e332ac0e600d0865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 17/21] fix: send quota, packet identifiers and storage of
 outgoing publishes

---
 mqtt/client.go | 186 +++++++++++++++++++++++++++++++------------------
 mqtt/errors.go |   1 +
 2 files changed, 121 insertions(+), 66 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 2df57ba..9b41db5 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -68,7 +68,11 @@ type Client struct {
 
 	rngFn func() uint32
 
+	// pendingSendSemaphore is closed and replaced each time send quota becomes available
 	pendingSendSemaphore chan struct{}
+
+	// inFlight contains the packet identifiers of the sent publishes (QoS > 0) that are not complete yet
+	inFlight map[uint16]struct{}
 }
 
 type Topic struct {
@@ -87,6 +91,7 @@ func NewClient(conn net.Conn) *Client {
 		eventChans:      make(map[int]EventChannel),
 		topicChans:      make(map[string]EventChannel),
 		responseChan:    make(map[int]chan any),
+		inFlight:        make(map[uint16]struct{}),
 		evChanIdCounter: 1,
 		rngFn:           rand.Uint32,
 	}
@@ -294,7 +299,8 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	c.sendQuota = c.serverReceiveMaximum
 	c.receiveQuota = c.clientReceiveMaximum
 
-	c.pendingSendSemaphore = make(chan struct{}) //, c.sendQuota)
+	c.inFlight = make(map[uint16]struct{})
+	c.wakePublishers()
 
 	// Set the ping response deadline
 	c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
@@ -435,6 +441,7 @@ func (c *Client) setDisconnected() {
 	defer c.mutex.Unlock()
 
 	c.isConnected = false
+	c.wakePublishers()
 }
 
 // Subscribe sends the SUBSCRIBE control packet to the server with the specified topic filters and options.
@@ -601,7 +608,7 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 
 // Publish sends PUBLISH control packet to the server.
 func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error) {
-	if !c.isConnected {
+	if !c.IsConnected() {
 		return ErrClientNotConnected
 	}
 
@@ -611,32 +618,9 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
 	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
-	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
-	}
-
-	// Perform preflight packet persistence operations
-	if pub.QoS > 0 {
-		// Assign a packet identifier if none is set
-		c.mutex.Lock()
-		if pub.PacketIdentifier == 0 {
-			pub.PacketIdentifier = primitives.PrimitiveUint16(c.rngFn())
-		}
-
-		if c.storage != nil {
-			// Store this publish control packet
-			if err = c.storage.Store(uint16(pub.PacketIdentifier), pub); err != nil {
-				c.mutex.Unlock()
-				return err
-			}
-		}
-		c.mutex.Unlock()
-	}
+	defer c.connMutex.Unlock()
+	c.mutex.Lock()
 
 	// SPEC: Each time the Client or Server sends a PUBLISH packet at QoS > 0, it decrements the send quota. If the send
 	//       quota reaches zero, the Client or Server MUST NOT send any more PUBLISH packets with QoS > 0
@@ -645,29 +629,127 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 	//       It MAY continue to send PUBLISH packets with QoS 0, or it MAY choose to suspend sending these as well. The
 	//       Client and Server MUST continue to process and respond to all other MQTT Control Packets even if the quota
 	//       is zero [MQTT-4.9.0-3].
-	if c.sendQuota == 0 && pub.QoS > 0 {
+	for c.isConnected && c.sendQuota == 0 && pub.QoS > 0 {
 		// Delay sending this publish until one of the unacknowledged publishes is acknowledged
+		pending := c.pendingSendSemaphore
+		c.mutex.Unlock()
 		c.connMutex.Unlock()
-		c.pendingSendSemaphore <- struct{}{}
+		select {
+		case <-pending:
+		case <-ctx.Done():
+			err = ctx.Err()
+		}
 		c.connMutex.Lock()
+		c.mutex.Lock()
+		if err != nil {
+			break
+		}
 	}
-	// Write the publish
-	if err = c.send(pub); err != nil {
+
+	// The client could have been disconnected in the meantime
+	if err == nil && !c.isConnected {
+		err = ErrClientNotConnected
+	}
+
+	// The context could have ended in the meantime
+	if err == nil {
+		err = ctx.Err()
+	}
+
+	// Perform preflight packet persistence operations
+	if err == nil && pub.QoS > 0 {
+		err = c.preparePublish(pub)
+	}
+	c.mutex.Unlock()
+	if err != nil {
 		return err
 	}
 
-	unlockConn.Do(c.connMutex.Unlock)
+	// Set I/O deadline
+	if err = c.conn.SetDeadline(deadline); err == nil {
+		// Write the publish
+		err = c.send(pub)
+	}
 
-	if pub.QoS > 0 {
+	if err != nil && pub.QoS > 0 {
 		c.mutex.Lock()
-		// Decrement the send quota counter
-		c.sendQuota--
+		c.cancelPublish(pub)
 		c.mutex.Unlock()
 	}
 
 	return
 }
 
+// preparePublish assigns a packet identifier to the publish, stores it and decrements the send quota. mutex MUST be
+// locked by the caller.
+func (c *Client) preparePublish(pub *packets.Publish) (err error) {
+	identifier := pub.PacketIdentifier
+
+	// Assign a packet identifier if none is set
+	if identifier == 0 {
+		if identifier, err = c.newPacketIdentifier(); err != nil {
+			return err
+		}
+	} else if _, ok := c.inFlight[identifier.Value()]; ok {
+		return ErrPacketIdentifierInUse
+	}
+
+	if c.storage != nil {
+		// Store this publish control packet
+		if err = c.storage.Store(identifier.Value(), pub); err != nil {
+			return err
+		}
+	}
+	pub.PacketIdentifier = identifier
+
+	// Decrement the send quota counter
+	c.inFlight[identifier.Value()] = struct{}{}
+	c.sendQuota--
+	return
+}
+
+// cancelPublish reverts preparePublish for a publish that could not be sent. mutex MUST be locked by the caller.
+func (c *Client) cancelPublish(pub *packets.Publish) {
+	c.releaseSendQuota(pub.PacketIdentifier.Value())
+	c.dropOutgoing(pub.PacketIdentifier.Value())
+}
+
+// newPacketIdentifier returns a random packet identifier that is not in use. mutex MUST be locked by the caller.
+func (c *Client) newPacketIdentifier() (primitives.PrimitiveUint16, error) {
+	// Use the next free identifier if the random one is in use already
+	identifier := uint16(c.rngFn())
+	for i := 0; i <= 0xFFFF; i++ {
+		if _, ok := c.inFlight[identifier]; !ok && identifier != 0 && c.responseChan[int(identifier)] == nil {
+			if packet, err := c.stored(identifier); err != nil {
+				return 0, err
+			} else if packet == nil {
+				return primitives.PrimitiveUint16(identifier), nil
+			}
+		}
+		identifier++
+	}
+	return 0, ErrPacketIdentifierInUse
+}
+
+// releaseSendQuota increments the send quota counter if the specified packet identifier is that of a publish that is
+// not complete yet. mutex MUST be locked by the caller.
+func (c *Client) releaseSendQuota(identifier uint16) {
+	if _, ok := c.inFlight[identifier]; ok {
+		delete(c.inFlight, identifier)
+		c.sendQuota++
+		c.wakePublishers()
+	}
+}
+
+// wakePublishers allows blocked calls to Publish to continue. mutex MUST be locked by the caller.
+// NOTE: This is the reason why calls to Publish and Poll should not occur within the same goroutine.
+func (c *Client) wakePublishers() {
+	if c.pendingSendSemaphore != nil {
+		close(c.pendingSendSemaphore)
+	}
+	c.pendingSendSemaphore = make(chan struct{})
+}
+
 // sendPuback will send the PUBACK control packet to the server. This API is only accessible via Publish when it is
 // RECEIVED from the server during the Poll method.
 func (c *Client) sendPuback(ctx context.Context, publish *packets.Publish) (err error) {
@@ -939,17 +1021,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform rate limiting related operations
 		c.mutex.Lock()
-		if c.sendQuota < c.serverReceiveMaximum {
-			// Increment the sent publish counter
-			c.sendQuota++
-
-			// Potentially allow a blocked call to Publish to continue.
-			// NOTE: This is the reason why calls to Publish and Poll should not occur within the same goroutine.
-			select {
-			case <-c.pendingSendSemaphore: // Unblock a pending call to Publish
-			default: // No call to Publish is pending
-			}
-		}
+		c.releaseSendQuota(puback.PacketIdentifier.Value())
 
 		// Drop any persisted publish with the same packet identifier
 		err = c.dropOutgoing(puback.PacketIdentifier.Value())
@@ -970,15 +1042,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// SPEC: Each time a PUBREC packet is received with a Return Code of 0x80 or greater.
 		c.mutex.Lock()
 		if pubrec.ReasonCode >= 0x80 {
-			if c.sendQuota < c.serverReceiveMaximum {
-				c.sendQuota++
-
-				// Potentially allow a blocked call to Publish to continue.
-				select {
-				case <-c.pendingSendSemaphore: // Unblock a pending call to Publish
-				default: // No call to Publish is pending
-				}
-			}
+			c.releaseSendQuota(pubrec.PacketIdentifier.Value())
 
 			// The message will not be released. Drop the persisted publish.
 			err = c.dropOutgoing(pubrec.PacketIdentifier.Value())
@@ -1052,17 +1116,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform rate limiting related operations
 		c.mutex.Lock()
-		if c.sendQuota < c.serverReceiveMaximum {
-			// Increment the sent publish counter
-			c.sendQuota++
-
-			// Potentially allow a blocked call to Publish to continue.
-			// NOTE: This is the reason why calls to Publish and Poll should not occur within the same goroutine.
-			select {
-			case <-c.pendingSendSemaphore: // Unblock a pending call to Publish
-			default: // No call to Publish is pending
-			}
-		}
+		c.releaseSendQuota(pubcomp.PacketIdentifier.Value())
 
 		// Discard original PUBREL control packet from persistent storage
 		err = c.dropOutgoing(pubcomp.PacketIdentifier.Value())
diff --git a/mqtt/errors.go b/mqtt/errors.go
index b2e4b09..1617af6 100644
--- a/mqtt/errors.go
+++ b/mqtt/errors.go
@@ -30,6 +30,7 @@ var (
 	ErrUnexpectedPacketTypeReceived = errors.New("unexpected packet type received")
 	ErrClientNotConnected           = errors.New("the client is not connected")
 	ErrInvalidArgument              = errors.New("invalid argument")
+	ErrPacketIdentifierInUse        = errors.New("packet identifier is in use")
 )
 
 type ReasonCode byte
-- 
2.43.0


From 312d7a5fba7280778e0b36c21fcd3fad5d17cb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 18/21] fix: receive quota, exactly once delivery and
 acknowledgement of incoming publishes

---
 mqtt/client.go          | 134 +++++++++++++++++++++++-----------------
 mqtt/packets/publish.go |   5 ++
 2 files changed, 83 insertions(+), 56 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 9b41db5..6a79e94 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -73,6 +73,13 @@ type Client struct {
 
 	// inFlight contains the packet identifiers of the sent publishes (QoS > 0) that are not complete yet
 	inFlight map[uint16]struct{}
+
+	// received contains the packet identifiers of the incoming publishes (QoS > 0) that are not complete yet. The value
+	// tells whether a QoS 2 publish was delivered already.
+	received map[uint16]bool
+
+	// sessionPresent tells whether the server continued the session of an earlier connection
+	sessionPresent bool
 }
 
 type Topic struct {
@@ -92,6 +99,7 @@ func NewClient(conn net.Conn) *Client {
 		topicChans:      make(map[string]EventChannel),
 		responseChan:    make(map[int]chan any),
 		inFlight:        make(map[uint16]struct{}),
+		received:        make(map[uint16]bool),
 		evChanIdCounter: 1,
 		rngFn:           rand.Uint32,
 	}
@@ -300,6 +308,8 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	c.receiveQuota = c.clientReceiveMaximum
 
 	c.inFlight = make(map[uint16]struct{})
+	c.received = make(map[uint16]bool)
+	c.sessionPresent = connack.SessionPresent
 	c.wakePublishers()
 
 	// Set the ping response deadline
@@ -752,23 +762,12 @@ func (c *Client) wakePublishers() {
 
 // sendPuback will send the PUBACK control packet to the server. This API is only accessible via Publish when it is
 // RECEIVED from the server during the Poll method.
-func (c *Client) sendPuback(ctx context.Context, publish *packets.Publish) (err error) {
+func (c *Client) sendPuback(publish *packets.Publish) (err error) {
 	// The packet identifier MUST be set
 	if publish.PacketIdentifier == 0 {
 		return packets.ErrControlPacketIsMalformed
 	}
 
-	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
-	}
-
-	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
-	}
-
 	puback := &packets.Puback{
 		PacketIdentifier: publish.PacketIdentifier,
 	}
@@ -780,7 +779,7 @@ func (c *Client) sendPuback(ctx context.Context, publish *packets.Publish) (err
 
 	// Increment the receive quota counter so that more publishes (QoS > 0) can be received
 	c.mutex.Lock()
-	c.receiveQuota++
+	c.releaseReceiveQuota(publish.PacketIdentifier.Value())
 	c.mutex.Unlock()
 
 	// No response to wait for
@@ -790,23 +789,12 @@ func (c *Client) sendPuback(ctx context.Context, publish *packets.Publish) (err
 
 // sendPubrec will send the PUBREC control packet to the server. This API is only accessible via Publish when it is
 // RECEIVED from the server during the Poll method.
-func (c *Client) sendPubrec(ctx context.Context, publish *packets.Publish) (err error) {
+func (c *Client) sendPubrec(publish *packets.Publish) (err error) {
 	// The packet identifier MUST be set
 	if publish.PacketIdentifier == 0 {
 		return packets.ErrControlPacketIsMalformed
 	}
 
-	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
-	}
-
-	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
-	}
-
 	pubrec := &packets.Pubrec{
 		Puback: packets.Puback{
 			PacketIdentifier: publish.PacketIdentifier,
@@ -963,7 +951,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		c.mutex.Lock()
-		if c.receiveQuota == 0 && publish.QoS > 0 {
+		delivered, received := c.received[publish.PacketIdentifier.Value()]
+		if c.receiveQuota == 0 && publish.QoS > 0 && !received {
 			// The server has sent more publishes than this client is willing to accept. Send disconnect.
 			// SPEC: The Server MUST NOT send more than Receive Maximum QoS 1 and QoS 2 PUBLISH packets for which it has
 			//       not received PUBACK, PUBCOMP, or PUBREC with a Reason Code of 128 or greater from the Client
@@ -973,46 +962,48 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			c.mutex.Unlock()
 			c.disconnectWithReason(0x93)
 			return ReasonCode(0x93)
-		} else {
+		} else if publish.QoS > 0 && !received {
 			// Decrement the receive quota counter
 			c.receiveQuota--
+			c.received[publish.PacketIdentifier.Value()] = false
+		}
+
+		if publish.QoS == packets.QoS2 && !delivered {
+			// Create a Pubrec control packet and store it. This might be used later during the message delivery retry
+			// flow. It will be removed when a PUBREL control packet comes in.
+			if delivered, err = c.recordIncoming(publish); err == nil {
+				c.received[publish.PacketIdentifier.Value()] = true
+			}
 		}
 		c.mutex.Unlock()
+		if err != nil {
+			return err
+		}
+
+		// A QoS 2 message that was not released yet was sent again if it is delivered already.
+		if publish.QoS < packets.QoS2 || !delivered {
+			// Route the PUBLISH to the correct event channels as configured by the Subscribe API
+			for filter, channel := range c.topicChans {
+				// Does the topic match any known filter?
+				if c.matchTopic(publish.Topic.String(), filter) {
+					// Signal the publish on this channel
+					c.signal(packets.PUBLISH, publish, channel.channel)
+				}
+			}
+
+			c.signal(packets.PUBLISH, publish, nil)
+		}
 
 		// Send the respective acknowledgement control packet type for the QoS level of the incoming publish.
 		if publish.QoS == packets.QoS1 {
-			if err = c.sendPuback(ctx, publish); err != nil {
+			if err = c.sendPuback(publish); err != nil {
 				return err
 			}
 		} else if publish.QoS == packets.QoS2 {
-			if err = c.sendPubrec(ctx, publish); err != nil {
+			if err = c.sendPubrec(publish); err != nil {
 				return err
 			}
 		}
-
-		// Route the PUBLISH to the correct event channels as configured by the Subscribe API
-		for filter, channel := range c.topicChans {
-			// Does the topic match any known filter?
-			if c.matchTopic(publish.Topic.String(), filter) {
-				// Signal the publish on this channel
-				c.signal(packets.PUBLISH, publish, channel.channel)
-			}
-		}
-
-		// Create a Pubrec control packet and store it. This might be used later during the message delivery retry flow.
-		// It will be removed when a PUBREL control packet comes in.
-		c.mutex.RLock()
-		if publish.QoS > 0 && c.storage != nil {
-			pubrec := &packets.Pubrec{
-				Puback: packets.Puback{
-					PacketIdentifier: publish.PacketIdentifier,
-				},
-			}
-			c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec)
-		}
-		c.mutex.RUnlock()
-
-		c.signal(packets.PUBLISH, publish, nil)
 	case packets.PUBACK:
 		puback := &packets.Puback{Header: header}
 		if _, err = puback.ReadFrom(c.conn); err != nil {
@@ -1102,9 +1093,9 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Increment receive quota counter
-		if c.receiveQuota < c.clientReceiveMaximum {
-			c.receiveQuota++
-		}
+		c.mutex.Lock()
+		c.releaseReceiveQuota(pubrel.PacketIdentifier.Value())
+		c.mutex.Unlock()
 
 		c.signal(packets.PUBREL, pubrel, nil)
 	case packets.PUBCOMP:
@@ -1289,6 +1280,37 @@ func (c *Client) releaseOutgoing(pubrel *packets.Pubrel) error {
 	return nil
 }
 
+// recordIncoming records the identifier of an incoming QoS 2 publish in persistent storage. It returns true if the publish
+// is recorded already. mutex MUST be locked by the caller.
+func (c *Client) recordIncoming(publish *packets.Publish) (recorded bool, err error) {
+	packet, err := c.stored(publish.PacketIdentifier.Value())
+	if err != nil {
+		return false, err
+	}
+
+	if packet != nil || c.storage == nil {
+		// The record of a session that is gone says nothing about this publish
+		_, recorded = packet.(*packets.Pubrec)
+		return recorded && c.sessionPresent, nil
+	}
+
+	pubrec := &packets.Pubrec{
+		Puback: packets.Puback{
+			PacketIdentifier: publish.PacketIdentifier,
+		},
+	}
+	return false, c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec)
+}
+
+// releaseReceiveQuota increments the receive quota counter if the specified packet identifier is that of an incoming
+// publish that is not complete yet. mutex MUST be locked by the caller.
+func (c *Client) releaseReceiveQuota(identifier uint16) {
+	if _, ok := c.received[identifier]; ok {
+		delete(c.received, identifier)
+		c.receiveQuota++
+	}
+}
+
 // dropIncoming removes the record of the message received with the specified identifier from persistent storage, if
 // there is one.
 func (c *Client) dropIncoming(identifier uint16) error {
diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 2c6e767..d5cec7c 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -119,6 +119,11 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 			return 0, err
 		}
 		n += count
+
+		// SPEC: The packet identifier of a PUBLISH with QoS > 0 MUST be non-zero.
+		if p.PacketIdentifier == 0 {
+			return 0, ErrControlPacketIsMalformed
+		}
 	}
 
 	/* Properties start */
-- 
2.43.0


From 6ef87532be08c8c5a6eb2b37da162c359ed43c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 19/21] fix: Subscribe and Unsubscribe answers, contexts,
 bindings and event channel closing

---
 mqtt/client.go | 169 ++++++++++++++++++++++++++++++++++++-------------
 mqtt/events.go |   1 +
 2 files changed, 125 insertions(+), 45 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 6a79e94..20fe1d4 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -58,7 +58,7 @@ type Client struct {
 	eventChans map[int]EventChannel
 	topicChans map[string]EventChannel
 
-	responseChan map[int]chan any
+	responseChan map[int]response
 
 	evChanIdCounter int
 	eventMutex      sync.Mutex
@@ -82,6 +82,12 @@ type Client struct {
 	sessionPresent bool
 }
 
+// response is the channel on which a call receives the acknowledgement of the specified type.
+type response struct {
+	packetType packets.PacketType
+	channel    chan any
+}
+
 type Topic struct {
 	packets.Topic
 	channel EventChannel
@@ -97,7 +103,7 @@ func NewClient(conn net.Conn) *Client {
 		conn:            conn,
 		eventChans:      make(map[int]EventChannel),
 		topicChans:      make(map[string]EventChannel),
-		responseChan:    make(map[int]chan any),
+		responseChan:    make(map[int]response),
 		inFlight:        make(map[uint16]struct{}),
 		received:        make(map[uint16]bool),
 		evChanIdCounter: 1,
@@ -144,6 +150,7 @@ func (c *Client) CreateEventChannel(n int) EventChannel {
 
 		channel: channel,
 		done:    done,
+		closed:  new(bool),
 	}
 
 	// Track this chan so fanout signalling can occur later
@@ -162,6 +169,12 @@ func (c *Client) CloseEventChannel(channel EventChannel) {
 }
 
 func (c *Client) closeEventChannelInternal(channel EventChannel) {
+	// Do nothing if the channel is closed already
+	if channel.closed == nil || *channel.closed {
+		return
+	}
+	*channel.closed = true
+
 	// Close the channel so that no further signals can occur on it
 	close(channel.channel)
 
@@ -184,6 +197,10 @@ func (c *Client) signal(packetType packets.PacketType, data any, channel chan<-
 	c.eventMutex.Lock()
 	defer c.eventMutex.Unlock()
 
+	c.signalInternal(packetType, data, channel)
+}
+
+func (c *Client) signalInternal(packetType packets.PacketType, data any, channel chan<- *Event) {
 	e := &Event{
 		PacketType: packetType,
 		Data:       data,
@@ -461,7 +478,7 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 		return ErrInvalidArgument
 	}
 
-	if !c.isConnected {
+	if !c.IsConnected() {
 		return ErrClientNotConnected
 	}
 
@@ -475,6 +492,11 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	c.connMutex.Lock()
 	defer unlockConn.Do(c.connMutex.Unlock)
 
+	// The client could have been disconnected in the meantime
+	if !c.IsConnected() {
+		return ErrClientNotConnected
+	}
+
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -486,8 +508,14 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	}
 
 	c.mutex.Lock()
+	identifier, err := c.newPacketIdentifier()
+	if err != nil {
+		c.mutex.Unlock()
+		return err
+	}
+
 	subscribe := &packets.Subscribe{
-		PacketIdentifier: primitives.PrimitiveUint16(c.rngFn()),
+		PacketIdentifier: identifier,
 		Topics:           _topics,
 
 		// TODO: Use context to set these optional parameters
@@ -497,51 +525,58 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 
 	// Create channel to receive the response on
 	respChan := make(chan any, 1)
-	c.responseChan[int(subscribe.PacketIdentifier)] = respChan
+	c.responseChan[int(subscribe.PacketIdentifier)] = response{packets.SUBACK, respChan}
+	c.mutex.Unlock()
 
 	// Send the SUBSCRIBE control packet
 	if err = c.send(subscribe); err != nil {
+		// Remove the channel from the map
+		c.mutex.Lock()
+		delete(c.responseChan, int(subscribe.PacketIdentifier))
 		c.mutex.Unlock()
 		return err
 	}
 
 	unlockConn.Do(c.connMutex.Unlock)
-	c.mutex.Unlock()
 
 	// Wait for the acknowledgement
 	select {
 	case resp := <-respChan:
 		suback := resp.(*packets.Suback)
 
+		// SPEC: The SUBACK packet sent by the Server to the Client MUST contain a Reason Code for each Topic
+		//       Filter/Subscription Option pair [MQTT-3.8.4-6].
+		if len(suback.ReasonCodes) != len(topics) {
+			return packets.ErrControlPacketIsMalformed
+		}
+
+		c.eventMutex.Lock()
+		defer c.eventMutex.Unlock()
+
 		// Check all reason codes
 		for i, code := range suback.ReasonCodes {
 			if code >= 0x80 {
 				// TODO: Return all failure reason codes to caller somehow
-				return ReasonCode(code)
+				if err == nil {
+					err = ReasonCode(code)
+				}
 			} else {
 				// TODO: Consider session retention details here
 
-				if chanid := topics[i].channel.id; chanid != 0 {
+				if channel := topics[i].channel; channel.id != 0 && !*channel.closed {
 					// Map the event channel to the topic
-					c.mutex.Lock()
-					c.topicChans[topics[i].Topic.Filter()] = c.eventChans[chanid]
+					c.topicChans[topics[i].Topic.Filter()] = channel
 
 					// Remove this channel from the general event channel map
-					delete(c.eventChans, chanid)
-					c.mutex.Unlock()
+					delete(c.eventChans, channel.id)
 				}
 			}
 		}
+	case <-ctx.Done():
+		// NOTE: The packet identifier stays in use until the acknowledgement is received.
+		return ctx.Err()
 	}
 
-	// Close the chan
-	close(respChan)
-
-	c.mutex.Lock()
-	// Remove the channel from the map
-	delete(c.responseChan, int(subscribe.PacketIdentifier))
-	c.mutex.Unlock()
-
 	return
 }
 
@@ -553,9 +588,7 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		return ErrInvalidArgument
 	}
 
-	c.mutex.Lock()
-
-	if !c.isConnected {
+	if !c.IsConnected() {
 		return ErrClientNotConnected
 	}
 
@@ -565,6 +598,15 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		deadline = time.Time{}
 	}
 
+	var unlockConn sync.Once
+	c.connMutex.Lock()
+	defer unlockConn.Do(c.connMutex.Unlock)
+
+	// The client could have been disconnected in the meantime
+	if !c.IsConnected() {
+		return ErrClientNotConnected
+	}
+
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -576,8 +618,16 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		t.SetFilter(topics[index])
 		_topics = append(_topics, t)
 	}
+
+	c.mutex.Lock()
+	identifier, err := c.newPacketIdentifier()
+	if err != nil {
+		c.mutex.Unlock()
+		return err
+	}
+
 	unsubscribe := &packets.Unsubscribe{
-		PacketIdentifier: primitives.PrimitiveUint16(c.rngFn()),
+		PacketIdentifier: identifier,
 		Topics:           _topics,
 
 		// TODO: Use context to set these optional parameters
@@ -586,34 +636,61 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 
 	// Create channel to receive the response on
 	respChan := make(chan any, 1)
-	c.responseChan[int(unsubscribe.PacketIdentifier)] = respChan
+	c.responseChan[int(unsubscribe.PacketIdentifier)] = response{packets.UNSUBACK, respChan}
+	c.mutex.Unlock()
 
 	// Send the UNSUBSCRIBE control packet
 	if err = c.send(unsubscribe); err != nil {
+		// Remove the channel from the map
+		c.mutex.Lock()
+		delete(c.responseChan, int(unsubscribe.PacketIdentifier))
+		c.mutex.Unlock()
 		return err
 	}
 
-	c.mutex.Unlock()
+	unlockConn.Do(c.connMutex.Unlock)
 
 	// Wait for the acknowledgement
 	select {
-	case <-respChan:
-		c.mutex.Lock()
+	case resp := <-respChan:
+		unsuback := resp.(*packets.Unsuback)
+
+		// SPEC: The UNSUBACK packet sent by the Server MUST contain a Reason Code for each Topic Filter [MQTT-3.11.3-1].
+		if len(unsuback.ReasonCodes) != len(topics) {
+			return packets.ErrControlPacketIsMalformed
+		}
+
+		c.eventMutex.Lock()
+		defer c.eventMutex.Unlock()
+
 		// Close any event channels bound to the topics
-		for _, topic := range topics {
-			if channel, ok := c.topicChans[topic]; ok {
+		for i, topic := range topics {
+			if code := unsuback.ReasonCodes[i]; code >= 0x80 {
+				if err == nil {
+					err = ReasonCode(code)
+				}
+			} else if channel, ok := c.topicChans[topic]; ok {
 				c.closeEventChannelInternal(channel)
 			}
 		}
-		c.mutex.Unlock()
+	case <-ctx.Done():
+		// NOTE: The packet identifier stays in use until the acknowledgement is received.
+		return ctx.Err()
 	}
 
+	return
+}
+
+// respond passes the acknowledgement to the call that waits for it. Acknowledgements nobody waits for are ignored.
+func (c *Client) respond(packetType packets.PacketType, identifier primitives.PrimitiveUint16, packet any) {
 	c.mutex.Lock()
-	// Remove the channel from the map
-	delete(c.responseChan, int(unsubscribe.PacketIdentifier))
-	c.mutex.Unlock()
+	defer c.mutex.Unlock()
 
-	return
+	if resp, ok := c.responseChan[int(identifier)]; ok && resp.packetType == packetType {
+		// Remove the channel from the map
+		delete(c.responseChan, int(identifier))
+		resp.channel <- packet
+	}
 }
 
 // Publish sends PUBLISH control packet to the server.
@@ -729,7 +806,9 @@ func (c *Client) newPacketIdentifier() (primitives.PrimitiveUint16, error) {
 	// Use the next free identifier if the random one is in use already
 	identifier := uint16(c.rngFn())
 	for i := 0; i <= 0xFFFF; i++ {
-		if _, ok := c.inFlight[identifier]; !ok && identifier != 0 && c.responseChan[int(identifier)] == nil {
+		_, inFlight := c.inFlight[identifier]
+		_, pending := c.responseChan[int(identifier)]
+		if identifier != 0 && !inFlight && !pending {
 			if packet, err := c.stored(identifier); err != nil {
 				return 0, err
 			} else if packet == nil {
@@ -983,13 +1062,17 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// A QoS 2 message that was not released yet was sent again if it is delivered already.
 		if publish.QoS < packets.QoS2 || !delivered {
 			// Route the PUBLISH to the correct event channels as configured by the Subscribe API
+			c.eventMutex.Lock()
+			signalled := make(map[int]bool)
 			for filter, channel := range c.topicChans {
 				// Does the topic match any known filter?
-				if c.matchTopic(publish.Topic.String(), filter) {
-					// Signal the publish on this channel
-					c.signal(packets.PUBLISH, publish, channel.channel)
+				if !signalled[channel.id] && c.matchTopic(publish.Topic.String(), filter) {
+					// Signal the publish on this channel once
+					signalled[channel.id] = true
+					c.signalInternal(packets.PUBLISH, publish, channel.channel)
 				}
 			}
+			c.eventMutex.Unlock()
 
 			c.signal(packets.PUBLISH, publish, nil)
 		}
@@ -1124,9 +1207,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Respond to the call to client.Subscribe
-		if respChan, ok := c.responseChan[int(suback.PacketIdentifier)]; ok {
-			respChan <- suback
-		}
+		c.respond(packets.SUBACK, suback.PacketIdentifier, suback)
 
 		c.signal(packets.SUBACK, suback, nil)
 	case packets.UNSUBACK:
@@ -1136,9 +1217,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Respond to the call to client.Unsubscribe
-		if respChan, ok := c.responseChan[int(unsuback.PacketIdentifier)]; ok {
-			respChan <- unsuback
-		}
+		c.respond(packets.UNSUBACK, unsuback.PacketIdentifier, unsuback)
 
 		c.signal(packets.UNSUBACK, unsuback, nil)
 	case packets.DISCONNECT:
diff --git a/mqtt/events.go b/mqtt/events.go
index 8125fae..c044163 100644
--- a/mqtt/events.go
+++ b/mqtt/events.go
@@ -44,4 +44,5 @@ type EventChannel struct {
 	id      int
 	channel chan *Event
 	done    chan struct{}
+	closed  *bool
 }
-- 
2.43.0


From e4d3103f4d56df22d4aa2966c976d1f8df9a72ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:49 +0000
Subject: [PATCH 20/21] fix: topic filters match as MQTT 5 defines

---
 mqtt/client.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 20fe1d4..8db12e0 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -32,6 +32,7 @@ import (
 	"math/rand"
 	"net"
 	"os"
+	"strings"
 	"sync"
 	"time"
 
@@ -1251,7 +1252,23 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 // matchTopic returns true if the input topic string matches the topic filter string. Otherwise, it returns false.
 func (c *Client) matchTopic(topic, filter string) bool {
-	// TODO: Support matching for shared topics
+	// Match a shared subscription by the topic filter it contains
+	// SPEC: A Shared Subscription's Topic Filter MUST start with $share/ and MUST contain a ShareName that is at least
+	//       one character long [MQTT-4.8.2-1]. It MUST be followed by a "/" and a Topic Filter [MQTT-4.8.2-2].
+	if strings.HasPrefix(filter, "$share/") {
+		parts := strings.SplitN(filter, "/", 3)
+		if len(parts) < 3 || len(parts[1]) == 0 || len(parts[2]) == 0 || strings.ContainsAny(parts[1], "+#") {
+			return false
+		}
+		filter = parts[2]
+	}
+
+	// SPEC: The Server MUST NOT match Topic Filters starting with a wildcard character (# or +) with Topic Names
+	//       beginning with a $ character [MQTT-4.7.2-1].
+	if strings.HasPrefix(topic, "$") && (strings.HasPrefix(filter, "#") || strings.HasPrefix(filter, "+")) {
+		return false
+	}
+
 	var filterPos int
 	var topicPos int
 	for filterPos < len(filter) {
@@ -1285,17 +1302,13 @@ func (c *Client) matchTopic(topic, filter string) bool {
 				topicPos++
 			}
 
-			if topicPos == len(topic) {
-				// No levels left. Return true.
-				return true
-			}
-
 			// Advance the filter pos and continue at the beginning of the loop
 			filterPos++
 			continue
-		} else if filterPos >= len(topic) {
-			// The length of the filter exceeded the length of the topic. No way these can match.
-			return false
+		} else if topicPos >= len(topic) {
+			// The filter has more levels than the topic. These can only match if the filter ends with a multi-level
+			// wildcard, because it also represents the parent level.
+			return filter[filterPos:] == "/#"
 		} else if filter[filterPos] != topic[topicPos] {
 			return false
 		}
@@ -1305,7 +1318,7 @@ func (c *Client) matchTopic(topic, filter string) bool {
 	}
 
 	// Check if there is more characters in the topic that went unprocessed
-	if len(filter) != len(topic) && topicPos < len(topic) {
+	if topicPos < len(topic) {
 		// Topic couldn't have matched the filter
 		return false
 	}
-- 
2.43.0


From 8ad5429260af9c123fa60b7e52655ae7922ab3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 21/21] fix: the connection is closed once its byte stream is
 unusable, polling never loses a header byte

---
 mqtt/client.go | 76 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 63 insertions(+), 13 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 8db12e0..7839ea9 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -277,7 +277,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	}
 
 	// Receive the CONNACK response
-	if _, err = connack.ReadFrom(c.conn); err != nil {
+	if err = c.receive(header, connack); err != nil {
 		return err
 	}
 
@@ -745,6 +745,7 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 	}
 
 	// Perform preflight packet persistence operations
+	identifier := pub.PacketIdentifier
 	if err == nil && pub.QoS > 0 {
 		err = c.preparePublish(pub)
 	}
@@ -761,7 +762,11 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 
 	if err != nil && pub.QoS > 0 {
 		c.mutex.Lock()
-		c.cancelPublish(pub)
+		if c.isConnected {
+			// Nothing was sent
+			c.cancelPublish(pub)
+			pub.PacketIdentifier = identifier
+		}
 		c.mutex.Unlock()
 	}
 
@@ -1004,7 +1009,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 	// Attempt to receive a control packet header
 	header := packets.FixedHeader{}
-	if _, err = header.ReadFrom(c.conn); errors.Is(err, os.ErrDeadlineExceeded) {
+	if _, err = header.Header.ReadFrom(c.conn); errors.Is(err, os.ErrDeadlineExceeded) {
 		// No incoming data
 		return nil
 	} else if err != nil {
@@ -1022,11 +1027,17 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.conn.SetDeadline(time.Time{})
 	}
 
+	// Receive the remainder of the header. The packet cannot be received later once a part of it was.
+	if _, err = header.Remaining.ReadFrom(c.conn); err != nil {
+		c.abort()
+		return
+	}
+
 	// Read control packet
 	switch header.GetType() {
 	case packets.PUBLISH:
 		publish := &packets.Publish{Header: header}
-		if _, err = publish.ReadFrom(c.conn); err != nil {
+		if err = c.receive(header, publish); err != nil {
 			return
 		}
 
@@ -1090,7 +1101,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 	case packets.PUBACK:
 		puback := &packets.Puback{Header: header}
-		if _, err = puback.ReadFrom(c.conn); err != nil {
+		if err = c.receive(header, puback); err != nil {
 			return err
 		}
 
@@ -1109,7 +1120,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	case packets.PUBREC:
 		pubrec := &packets.Pubrec{}
 		pubrec.Header = header
-		if _, err = pubrec.ReadFrom(c.conn); err != nil {
+		if err = c.receive(header, pubrec); err != nil {
 			return err
 		}
 
@@ -1152,7 +1163,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	case packets.PUBREL:
 		pubrel := &packets.Pubrel{}
 		pubrel.Header = header
-		if _, err = pubrel.ReadFrom(c.conn); err != nil {
+		if err = c.receive(header, pubrel); err != nil {
 			return err
 		}
 
@@ -1185,7 +1196,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	case packets.PUBCOMP:
 		pubcomp := &packets.Pubcomp{}
 		pubcomp.Header = header
-		if _, err = pubcomp.ReadFrom(c.conn); err != nil {
+		if err = c.receive(header, pubcomp); err != nil {
 			return err
 		}
 
@@ -1203,7 +1214,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.signal(packets.PUBCOMP, pubcomp, nil)
 	case packets.SUBACK:
 		suback := &packets.Suback{Header: header}
-		if _, err = suback.ReadFrom(c.conn); err != nil {
+		if err = c.receive(header, suback); err != nil {
 			return
 		}
 
@@ -1213,7 +1224,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.signal(packets.SUBACK, suback, nil)
 	case packets.UNSUBACK:
 		unsuback := &packets.Unsuback{Header: header}
-		if _, err = unsuback.ReadFrom(c.conn); err != nil {
+		if err = c.receive(header, unsuback); err != nil {
 			return
 		}
 
@@ -1223,7 +1234,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.signal(packets.UNSUBACK, unsuback, nil)
 	case packets.DISCONNECT:
 		disconnect := &packets.Disconnect{Header: header}
-		if _, err = disconnect.ReadFrom(c.conn); err != nil {
+		if err = c.receive(header, disconnect); err != nil {
 			return
 		}
 		// Close the connection
@@ -1234,14 +1245,20 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.signal(packets.DISCONNECT, disconnect, nil)
 	case packets.AUTH:
 		auth := &packets.Auth{Header: header}
-		if _, err = auth.ReadFrom(c.conn); err != nil {
+		if err = c.receive(header, auth); err != nil {
 			return
 		}
 		c.signal(packets.AUTH, auth, nil)
 	case packets.PINGRESP:
+		if header.Remaining != 0 || header.GetFlags() != 0 {
+			c.abort()
+			return packets.ErrControlPacketIsMalformed
+		}
+
 		// Extend the ping response deadline
 		c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
 	default:
+		c.abort()
 		return ErrUnexpectedPacketTypeReceived
 	}
 
@@ -1250,6 +1267,35 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	return nil
 }
 
+// receive reads the remainder of the control packet with the specified header. The connection is closed if this fails,
+// since it is unknown where the next control packet begins.
+func (c *Client) receive(header packets.FixedHeader, packet io.ReaderFrom) (err error) {
+	// SPEC: If a flag bit is marked as "Reserved" it is reserved for future use and MUST be set to the value listed
+	//       [MQTT-2.1.3-1].
+	var reserved primitives.PrimitiveByte
+	if header.GetType() == packets.PUBREL {
+		reserved = 0x02
+	}
+
+	body := &io.LimitedReader{R: c.conn, N: int64(header.Remaining)}
+	if header.GetType() != packets.PUBLISH && header.GetFlags() != reserved {
+		err = packets.ErrControlPacketIsMalformed
+	} else if _, err = packet.ReadFrom(body); err == nil && body.N != 0 {
+		err = packets.ErrControlPacketIsMalformed
+	}
+
+	if err != nil {
+		c.abort()
+	}
+	return
+}
+
+// abort closes the connection without sending anything.
+func (c *Client) abort() {
+	c.setDisconnected()
+	c.conn.Close()
+}
+
 // matchTopic returns true if the input topic string matches the topic filter string. Otherwise, it returns false.
 func (c *Client) matchTopic(topic, filter string) bool {
 	// Match a shared subscription by the topic filter it contains
@@ -1427,7 +1473,11 @@ func (c *Client) send(w io.WriterTo) (err error) {
 	}
 
 	// Finally, write to the open connection
-	if _, err = c.conn.Write(buf.Bytes()); err != nil {
+	if n, err := c.conn.Write(buf.Bytes()); err != nil {
+		if n > 0 {
+			// Nothing can follow an incomplete control packet
+			c.abort()
+		}
 		return err
 	}
 
-- 
2.43.0

