From d78d0c9781c80f770b2bd1a99b93c7252903d139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:41 +0000
Subject: [PATCH 01/52] fix: return an error (not a panic) for malformed or
 unknown META/MIDI events

---
 midi/MTrk.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index 869730a..b70087b 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -135,9 +135,11 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 			return nil, err
 		}
 
-		e, err := metaevent.Parse(uint64(tick)+uint64(delta), rr.Bytes()...)
-
-		return events.NewEvent(e), err
+		if e, err := metaevent.Parse(uint64(tick)+uint64(delta), rr.Bytes()...); err != nil {
+			return nil, err
+		} else {
+			return events.NewEvent(e), nil
+		}
 	}
 
 	// ... SysEx event
@@ -184,8 +186,11 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 	}
 
 	e, err := midievent.Parse(uint64(tick)+uint64(delta), ctx.RunningStatus, rr.Bytes()...)
+	if err != nil {
+		return nil, err
+	}
 
 	ctx.RunningStatus = status
 
-	return events.NewEvent(e), err
+	return events.NewEvent(e), nil
 }
-- 
2.43.0


From 04719801383a674c6829bbc14438d63ec607428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:00 +0000
Subject: [PATCH 02/52] fix: report truncated events and chunks instead of
 silently dropping them

---
 encoding/midi/decoder.go | 4 +++-
 midi/MTrk.go             | 9 ++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/encoding/midi/decoder.go b/encoding/midi/decoder.go
index 8dad338..d3dbcb9 100644
--- a/encoding/midi/decoder.go
+++ b/encoding/midi/decoder.go
@@ -90,7 +90,9 @@ func (r *chunker) next() ([]byte, error) {
 	N := binary.BigEndian.Uint32(buffer[4:])
 	chunk := make([]byte, N)
 
-	if _, err := io.ReadFull(r.reader, chunk); err != nil {
+	if _, err := io.ReadFull(r.reader, chunk); err == io.EOF {
+		return nil, io.ErrUnexpectedEOF
+	} else if err != nil {
 		return nil, err
 	}
 
diff --git a/midi/MTrk.go b/midi/MTrk.go
index b70087b..04405c4 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -50,7 +50,14 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 	var e *events.Event = nil
 
 	for err == nil {
-		e, err = parse(r, tick, chunk.Context)
+		if _, err = r.Peek(1); err != nil {
+			break
+		}
+
+		if e, err = parse(r, tick, chunk.Context); err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+
 		if err == nil && e != nil {
 			tick += e.Delta()
 			eventlist = append(eventlist, e)
-- 
2.43.0


From a47455c474da0d93d74fbeb638bf8d63c06f56c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:18 +0000
Subject: [PATCH 03/52] fix: do not preallocate memory from untrusted chunk and
 event lengths

---
 encoding/midi/decoder.go | 12 ++++++------
 midi/events/event.go     |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/encoding/midi/decoder.go b/encoding/midi/decoder.go
index d3dbcb9..7f2cb72 100644
--- a/encoding/midi/decoder.go
+++ b/encoding/midi/decoder.go
@@ -88,13 +88,13 @@ func (r *chunker) next() ([]byte, error) {
 	}
 
 	N := binary.BigEndian.Uint32(buffer[4:])
-	chunk := make([]byte, N)
 
-	if _, err := io.ReadFull(r.reader, chunk); err == io.EOF {
-		return nil, io.ErrUnexpectedEOF
-	} else if err != nil {
+	// ... chunk length is untrusted so read what is there rather than preallocating N bytes
+	if chunk, err := io.ReadAll(io.LimitReader(r.reader, int64(N))); err != nil {
 		return nil, err
+	} else if len(chunk) < int(N) {
+		return nil, io.ErrUnexpectedEOF
+	} else {
+		return append(buffer, chunk...), nil
 	}
-
-	return append(buffer, chunk...), nil
 }
diff --git a/midi/events/event.go b/midi/events/event.go
index 4186e47..0454a30 100644
--- a/midi/events/event.go
+++ b/midi/events/event.go
@@ -128,13 +128,13 @@ func VLF(r io.ByteReader) ([]byte, error) {
 		return nil, err
 	}
 
-	bytes := make([]byte, N)
+	bytes := []byte{}
 
 	for i := 0; i < int(N); i++ {
 		if b, err := r.ReadByte(); err != nil {
 			return nil, err
 		} else {
-			bytes[i] = b
+			bytes = append(bytes, b)
 		}
 	}
 
-- 
2.43.0


From 947e49a56c097c96f4aa592e95b984bf70a41b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:20 +0000
Subject: [PATCH 04/52] fix: accumulate absolute ticks as 64 bit values so that
 long tracks do not wrap

---
 midi/MTrk.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index 04405c4..a0b6bf7 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -45,7 +45,7 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 
 	eventlist := make([]*events.Event, 0)
 	r := bufio.NewReader(bytes.NewReader(data[8:]))
-	tick := uint32(0)
+	tick := uint64(0)
 	err := error(nil)
 	var e *events.Event = nil
 
@@ -59,7 +59,7 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 		}
 
 		if err == nil && e != nil {
-			tick += e.Delta()
+			tick += uint64(e.Delta())
 			eventlist = append(eventlist, e)
 
 			switch k := e.Event.(type) {
@@ -109,7 +109,7 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 	return nil
 }
 
-func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, error) {
+func parse(r *bufio.Reader, tick uint64, ctx *context.Context) (*events.Event, error) {
 	rr := reader{
 		reader: r,
 		buffer: &bytes.Buffer{},
@@ -142,7 +142,7 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 			return nil, err
 		}
 
-		if e, err := metaevent.Parse(uint64(tick)+uint64(delta), rr.Bytes()...); err != nil {
+		if e, err := metaevent.Parse(tick+uint64(delta), rr.Bytes()...); err != nil {
 			return nil, err
 		} else {
 			return events.NewEvent(e), nil
@@ -160,7 +160,7 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 				return nil, fmt.Errorf("Invalid SysExMessage event data: F0 start byte without terminating F7")
 			}
 
-			if e, err := sysex.Parse(uint64(tick)+uint64(delta), ctx.Casio, rr.Bytes()...); err != nil {
+			if e, err := sysex.Parse(tick+uint64(delta), ctx.Casio, rr.Bytes()...); err != nil {
 				return nil, err
 			} else {
 				bytes := rr.Bytes()
@@ -192,7 +192,7 @@ func parse(r *bufio.Reader, tick uint32, ctx *context.Context) (*events.Event, e
 		}
 	}
 
-	e, err := midievent.Parse(uint64(tick)+uint64(delta), ctx.RunningStatus, rr.Bytes()...)
+	e, err := midievent.Parse(tick+uint64(delta), ctx.RunningStatus, rr.Bytes()...)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 09ede39a360f1b1f72550f653c8e4805a941be8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:42 +0000
Subject: [PATCH 05/52] fix: reject delta times and lengths that cannot be
 represented as a 4 byte VLQ

---
 midi/events/event.go |  7 ++++---
 midi/lib/delta.go    | 24 ++++++++++++++++++++++++
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/midi/events/event.go b/midi/events/event.go
index 0454a30..2b03c97 100644
--- a/midi/events/event.go
+++ b/midi/events/event.go
@@ -144,7 +144,8 @@ func VLF(r io.ByteReader) ([]byte, error) {
 func VLQ(r io.ByteReader) (uint32, error) {
 	vlq := uint32(0)
 
-	for {
+	// ... a MIDI variable length quantity is at most 4 bytes
+	for i := 0; i < 4; i++ {
 		b, err := r.ReadByte()
 		if err != nil {
 			return 0, err
@@ -154,9 +155,9 @@ func VLQ(r io.ByteReader) (uint32, error) {
 		vlq += uint32(b & 0x7f)
 
 		if b&0x80 == 0 {
-			break
+			return vlq, nil
 		}
 	}
 
-	return vlq, nil
+	return 0, fmt.Errorf("Invalid variable length quantity (longer than 4 bytes)")
 }
diff --git a/midi/lib/delta.go b/midi/lib/delta.go
index 3402db5..c2463da 100644
--- a/midi/lib/delta.go
+++ b/midi/lib/delta.go
@@ -1,6 +1,7 @@
 package lib
 
 import (
+	"encoding/json"
 	"fmt"
 	"io"
 	"strconv"
@@ -8,6 +9,9 @@ import (
 
 type Delta uint32
 
+// Maximum value that can be represented by a MIDI variable length quantity (4 bytes).
+const maxDelta = 0x0fffffff
+
 func (d Delta) String() string {
 	return fmt.Sprintf("%d", uint32(d))
 }
@@ -15,11 +19,27 @@ func (d Delta) String() string {
 func ParseDelta(s string) (Delta, error) {
 	if delta, err := strconv.ParseUint(s, 10, 32); err != nil {
 		return 0, err
+	} else if delta > maxDelta {
+		return 0, fmt.Errorf("delta out of range (%v)", delta)
 	} else {
 		return Delta(delta), nil
 	}
 }
 
+func (d *Delta) UnmarshalJSON(bytes []byte) error {
+	var v uint32
+
+	if err := json.Unmarshal(bytes, &v); err != nil {
+		return err
+	} else if v > maxDelta {
+		return fmt.Errorf("delta out of range (%v)", v)
+	}
+
+	*d = Delta(v)
+
+	return nil
+}
+
 func DecodeDelta(r io.ByteReader) (Delta, error) {
 	vlq := uint32(0)
 
@@ -41,6 +61,10 @@ func DecodeDelta(r io.ByteReader) (Delta, error) {
 }
 
 func (d Delta) MarshalBinary() ([]byte, error) {
+	if d > maxDelta {
+		return nil, fmt.Errorf("delta out of range (%v)", d)
+	}
+
 	buffer := []byte{0x00, 0x80, 0x80, 0x80, 0x00}
 	b := d
 
-- 
2.43.0


From 869e9916c32fb018c5480103d7ea8a057ab67bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:10 +0000
Subject: [PATCH 06/52] fix: reject MIDI channel events with data bytes greater
 than 0x7F

---
 midi/MTrk.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index a0b6bf7..a842322 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -187,8 +187,10 @@ func parse(r *bufio.Reader, tick uint64, ctx *context.Context) (*events.Event, e
 	}
 
 	for i := 0; i < length[status&0xf0]; i++ {
-		if _, err := rr.ReadByte(); err != nil {
+		if b, err := rr.ReadByte(); err != nil {
 			return nil, err
+		} else if b > 0x7f {
+			return nil, fmt.Errorf("Invalid MIDI event data byte (%02X)", b)
 		}
 	}
 
-- 
2.43.0


From 4249aabf867ac793034b1ea53dd894493f2087a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:13 +0000
Subject: [PATCH 07/52] fix: return an error for short
 SysEx/SequencerSpecific/SequenceNumber event data instead of panicking

---
 midi/events/meta/metaevent.go           | 2 ++
 midi/events/meta/sequence_number.go     | 2 ++
 midi/events/meta/sequencer_specific.go  | 6 +++++-
 midi/events/midi/midievent.go           | 2 ++
 midi/events/midi/polyphonic_pressure.go | 4 ++++
 midi/events/sysex/message.go            | 6 ++++--
 midi/events/sysex/sysex.go              | 2 ++
 7 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/midi/events/meta/metaevent.go b/midi/events/meta/metaevent.go
index 6326ea4..c83f96d 100644
--- a/midi/events/meta/metaevent.go
+++ b/midi/events/meta/metaevent.go
@@ -181,6 +181,8 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 func vlf(bytes []byte) ([]byte, error) {
 	if N, remaining, err := vlq(bytes); err != nil {
 		return nil, err
+	} else if uint64(N) > uint64(len(remaining)) {
+		return nil, fmt.Errorf("Invalid event data (expected %v bytes, got %v)", N, len(remaining))
 	} else {
 		return remaining[:N], nil
 	}
diff --git a/midi/events/meta/sequence_number.go b/midi/events/meta/sequence_number.go
index 3b26242..e988672 100644
--- a/midi/events/meta/sequence_number.go
+++ b/midi/events/meta/sequence_number.go
@@ -63,6 +63,8 @@ func (e *SequenceNumber) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSequenceNumber, remaining[1])
 	} else if v, err := vlf(remaining[2:]); err != nil {
 		return err
+	} else if len(v) != 2 {
+		return fmt.Errorf("Invalid SequenceNumber length (%d): expected '2'", len(v))
 	} else {
 		*e = MakeSequenceNumber(0, delta, binary.BigEndian.Uint16(v), bytes...)
 	}
diff --git a/midi/events/meta/sequencer_specific.go b/midi/events/meta/sequencer_specific.go
index d052294..e868891 100644
--- a/midi/events/meta/sequencer_specific.go
+++ b/midi/events/meta/sequencer_specific.go
@@ -31,6 +31,10 @@ func MakeSequencerSpecificEvent(tick uint64, delta lib.Delta, manufacturer lib.M
 }
 
 func (e *SequencerSpecificEvent) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte, bytes ...byte) error {
+	if len(data) < 1 || (data[0] == 0x00 && len(data) < 3) {
+		return fmt.Errorf("Invalid SequencerSpecificEvent data (%v): missing manufacturer ID", data)
+	}
+
 	id := data[0:1]
 	d := data[1:]
 
@@ -68,7 +72,7 @@ func (e *SequencerSpecificEvent) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSequencerSpecificEvent, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 2 {
+	} else if len(data) < 2 || (data[0] == 0x00 && len(data) < 3) {
 		return fmt.Errorf("Invalid SequencerSpecificEvent channel data")
 	} else {
 		id := data[0:1]
diff --git a/midi/events/midi/midievent.go b/midi/events/midi/midievent.go
index a741740..2582442 100644
--- a/midi/events/midi/midievent.go
+++ b/midi/events/midi/midievent.go
@@ -137,6 +137,8 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 func vlf(bytes []byte) ([]byte, error) {
 	if N, remaining, err := vlq(bytes); err != nil {
 		return nil, err
+	} else if uint64(N) > uint64(len(remaining)) {
+		return nil, fmt.Errorf("Invalid event data (expected %v bytes, got %v)", N, len(remaining))
 	} else {
 		return remaining[:N], nil
 	}
diff --git a/midi/events/midi/polyphonic_pressure.go b/midi/events/midi/polyphonic_pressure.go
index 271136f..6bc8944 100644
--- a/midi/events/midi/polyphonic_pressure.go
+++ b/midi/events/midi/polyphonic_pressure.go
@@ -48,6 +48,10 @@ func (e *PolyphonicPressure) unmarshal(tick uint64, delta uint32, status lib.Sta
 	var channel = lib.Channel(status & 0x0f)
 	var pressure = data[0]
 
+	if pressure > 127 {
+		return fmt.Errorf("Invalid PolyphonicPressure pressure (%v)", pressure)
+	}
+
 	*e = MakePolyphonicPressure(tick, delta, channel, pressure, bytes...)
 
 	return nil
diff --git a/midi/events/sysex/message.go b/midi/events/sysex/message.go
index fff7472..60efabf 100644
--- a/midi/events/sysex/message.go
+++ b/midi/events/sysex/message.go
@@ -58,7 +58,7 @@ func (e *SysExMessage) unmarshal(tick uint64, delta uint32, status lib.Status, d
 	manufacturer := lib.LookupManufacturer(id)
 	d := data[1:]
 
-	if d[len(d)-1] != 0xf7 {
+	if len(d) == 0 || d[len(d)-1] != 0xf7 {
 		*e = MakeSysExMessage(tick, delta, manufacturer, d, bytes...)
 	} else {
 		*e = MakeSysExSingleMessage(tick, delta, manufacturer, d[:len(d)-1], bytes...)
@@ -98,12 +98,14 @@ func (e *SysExMessage) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSysExMessage, remaining[0])
 	} else if data, err := vlf(remaining[1:]); err != nil {
 		return err
+	} else if len(data) == 0 {
+		return fmt.Errorf("Invalid SysExMessage event data (0 bytes)")
 	} else {
 		id := data[0:1]
 		manufacturer := lib.LookupManufacturer(id)
 		d := data[1:]
 
-		if d[len(d)-1] != 0xf7 {
+		if len(d) == 0 || d[len(d)-1] != 0xf7 {
 			// ctx.Casio = true
 			*e = MakeSysExMessage(0, uint32(delta), manufacturer, d, bytes...)
 		} else {
diff --git a/midi/events/sysex/sysex.go b/midi/events/sysex/sysex.go
index 48b2432..837cd9c 100644
--- a/midi/events/sysex/sysex.go
+++ b/midi/events/sysex/sysex.go
@@ -125,6 +125,8 @@ func vlq(bytes []byte) (uint32, []byte, error) {
 func vlf(bytes []byte) ([]byte, error) {
 	if N, remaining, err := vlq(bytes); err != nil {
 		return nil, err
+	} else if uint64(N) > uint64(len(remaining)) {
+		return nil, fmt.Errorf("Invalid event data (expected %v bytes, got %v)", N, len(remaining))
 	} else {
 		return remaining[:N], nil
 	}
-- 
2.43.0


From 7b69b7171cc5a9eff74779dac988d160629b96e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:51 +0000
Subject: [PATCH 08/52] fix: preserve the terminating F7 of a decoded SysEx
 continuation message

---
 midi/events/sysex/continuation_message.go | 26 +++++++----------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/midi/events/sysex/continuation_message.go b/midi/events/sysex/continuation_message.go
index 738a692..bd818c0 100644
--- a/midi/events/sysex/continuation_message.go
+++ b/midi/events/sysex/continuation_message.go
@@ -47,16 +47,12 @@ func (e *SysExContinuationMessage) unmarshal(tick uint64, delta uint32, status l
 		return fmt.Errorf("Invalid SysExContinuationMessage event type (%02x): expected 'F7'", status)
 	}
 
-	d := data
-	if len(data) > 0 {
-		terminator := data[len(d)-1]
-		if terminator == 0xf7 {
-			d = data[:len(d)-1]
-		}
+	if N := len(data); N > 0 && data[N-1] == 0xf7 {
+		*e = MakeSysExContinuationEndMessage(tick, delta, data[:N-1], bytes...)
+	} else {
+		*e = MakeSysExContinuationMessage(tick, delta, data, bytes...)
 	}
 
-	*e = MakeSysExContinuationMessage(tick, delta, d, bytes...)
-
 	return nil
 }
 
@@ -90,17 +86,11 @@ func (e *SysExContinuationMessage) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSysExContinuation, remaining[0])
 	} else if data, err := vlf(remaining[1:]); err != nil {
 		return err
+	} else if N := len(data); N > 0 && data[N-1] == 0xf7 {
+		// ctx.Casio = false
+		*e = MakeSysExContinuationEndMessage(0, uint32(delta), data[:N-1], bytes...)
 	} else {
-		d := data
-		if len(data) > 0 {
-			terminator := data[len(d)-1]
-			if terminator == 0xf7 {
-				d = data[:len(d)-1]
-				// ctx.Casio = false
-			}
-		}
-
-		*e = MakeSysExContinuationMessage(0, uint32(delta), d, bytes...)
+		*e = MakeSysExContinuationMessage(0, uint32(delta), data, bytes...)
 	}
 
 	return nil
-- 
2.43.0


From e043d366d9be39d08411930725ed842e7a1c5dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:54 +0000
Subject: [PATCH 09/52] fix: correct the manufacturer ID for 'RealTime
 Extensions' (7F, not 7E)

---
 midi/lib/manufacturer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index f89c662..6fc548d 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -154,7 +154,7 @@ var manufacturers = map[string]Manufacturer{
 
 	"7D": Manufacturer{ID: []byte{0x7d}, Region: "Special Purpose", Name: "Non-Commercial"},
 	"7E": Manufacturer{ID: []byte{0x7e}, Region: "Special Purpose", Name: "Non-RealTime Extensions"},
-	"7F": Manufacturer{ID: []byte{0x7e}, Region: "Special Purpose", Name: "RealTime Extensions"},
+	"7F": Manufacturer{ID: []byte{0x7f}, Region: "Special Purpose", Name: "RealTime Extensions"},
 
 	// American
 	"01": Manufacturer{ID: []byte{0x01}, Region: "American", Name: "Sequential Circuits"},
-- 
2.43.0


From 403a3f420408dfb88a1b33df4f0e2cd7e709c404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:56 +0000
Subject: [PATCH 10/52] fix: encode pitch bend as two 7 bit values

---
 midi/events/midi/pitch_bend.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/midi/events/midi/pitch_bend.go b/midi/events/midi/pitch_bend.go
index 4cd3ac5..50c02ab 100644
--- a/midi/events/midi/pitch_bend.go
+++ b/midi/events/midi/pitch_bend.go
@@ -58,8 +58,8 @@ func (e *PitchBend) unmarshal(tick uint64, delta uint32, status lib.Status, data
 func (b PitchBend) MarshalBinary() (encoded []byte, err error) {
 	encoded = []byte{
 		byte(0xe0 | b.Channel),
-		byte(b.Bend >> 8 & 0x00ff),
-		byte(b.Bend >> 0 & 0x00ff),
+		byte(b.Bend >> 7 & 0x007f),
+		byte(b.Bend >> 0 & 0x007f),
 	}
 
 	return
@@ -100,6 +100,8 @@ func (e *PitchBend) UnmarshalText(text []byte) error {
 		return err
 	} else if bend, err := strconv.ParseUint(match[3], 10, 16); err != nil {
 		return err
+	} else if bend > 16383 {
+		return fmt.Errorf("invalid PitchBend bend (%v)", bend)
 	} else {
 		*e = MakePitchBend(0, uint32(delta), lib.Channel(channel), uint16(bend), []byte{}...)
 	}
@@ -136,6 +138,8 @@ func (e *PitchBend) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagPitchBend) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Bend > 16383 {
+		return fmt.Errorf("invalid PitchBend bend (%v)", t.Bend)
 	} else {
 		*e = MakePitchBend(0, uint32(t.Delta), t.Channel, t.Bend, []byte{}...)
 	}
-- 
2.43.0


From fb609d3db7963f1476d60c339c35908a4508d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:12 +0000
Subject: [PATCH 11/52] fix: encode META event text and data lengths as
 variable length quantities

---
 midi/events/meta/copyright.go          | 15 +++++++++------
 midi/events/meta/cue_point.go          | 15 +++++++++------
 midi/events/meta/device_name.go        | 15 +++++++++------
 midi/events/meta/instrument_name.go    | 15 +++++++++------
 midi/events/meta/lyric.go              | 15 +++++++++------
 midi/events/meta/marker.go             | 15 +++++++++------
 midi/events/meta/program_name.go       | 15 +++++++++------
 midi/events/meta/sequencer_specific.go | 21 ++++++++++++---------
 midi/events/meta/text.go               | 15 +++++++++------
 9 files changed, 84 insertions(+), 57 deletions(-)

diff --git a/midi/events/meta/copyright.go b/midi/events/meta/copyright.go
index c04a9ff..ed4bd2d 100644
--- a/midi/events/meta/copyright.go
+++ b/midi/events/meta/copyright.go
@@ -35,12 +35,15 @@ func (e *Copyright) unmarshal(tick uint64, delta lib.Delta, status byte, data []
 }
 
 func (e Copyright) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Copyright)),
-	},
-		[]byte(e.Copyright)...), nil
+	if text, err := lib.VLF(e.Copyright).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(e.Status),
+			byte(e.Type),
+		},
+			text...), nil
+	}
 }
 
 func (e *Copyright) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/cue_point.go b/midi/events/meta/cue_point.go
index 697737a..017b075 100644
--- a/midi/events/meta/cue_point.go
+++ b/midi/events/meta/cue_point.go
@@ -36,12 +36,15 @@ func (e *CuePoint) unmarshal(tick uint64, delta lib.Delta, status byte, data []b
 }
 
 func (e CuePoint) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.CuePoint)),
-	},
-		[]byte(e.CuePoint)...), nil
+	if text, err := lib.VLF(e.CuePoint).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(e.Status),
+			byte(e.Type),
+		},
+			text...), nil
+	}
 }
 
 func (e *CuePoint) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/device_name.go b/midi/events/meta/device_name.go
index 7dfe32c..b47f727 100644
--- a/midi/events/meta/device_name.go
+++ b/midi/events/meta/device_name.go
@@ -36,12 +36,15 @@ func (e *DeviceName) unmarshal(tick uint64, delta lib.Delta, status byte, data [
 }
 
 func (d DeviceName) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(d.Status),
-		byte(d.Type),
-		byte(len(d.Name)),
-	},
-		[]byte(d.Name)...), nil
+	if text, err := lib.VLF(d.Name).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(d.Status),
+			byte(d.Type),
+		},
+			text...), nil
+	}
 }
 
 func (e *DeviceName) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/instrument_name.go b/midi/events/meta/instrument_name.go
index 5f61f73..6d1aacc 100644
--- a/midi/events/meta/instrument_name.go
+++ b/midi/events/meta/instrument_name.go
@@ -36,12 +36,15 @@ func (e *InstrumentName) unmarshal(tick uint64, delta lib.Delta, status byte, da
 }
 
 func (e InstrumentName) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Name)),
-	},
-		[]byte(e.Name)...), nil
+	if text, err := lib.VLF(e.Name).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(e.Status),
+			byte(e.Type),
+		},
+			text...), nil
+	}
 }
 
 func (e *InstrumentName) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/lyric.go b/midi/events/meta/lyric.go
index b2b80b9..a98338a 100644
--- a/midi/events/meta/lyric.go
+++ b/midi/events/meta/lyric.go
@@ -36,12 +36,15 @@ func (e *Lyric) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte
 }
 
 func (l Lyric) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(l.Status),
-		byte(l.Type),
-		byte(len(l.Lyric)),
-	},
-		[]byte(l.Lyric)...), nil
+	if text, err := lib.VLF(l.Lyric).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(l.Status),
+			byte(l.Type),
+		},
+			text...), nil
+	}
 }
 
 func (e *Lyric) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/marker.go b/midi/events/meta/marker.go
index 568a847..97b12f2 100644
--- a/midi/events/meta/marker.go
+++ b/midi/events/meta/marker.go
@@ -36,12 +36,15 @@ func (e *Marker) unmarshal(tick uint64, delta lib.Delta, status byte, data []byt
 }
 
 func (m Marker) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(m.Status),
-		byte(m.Type),
-		byte(len(m.Marker)),
-	},
-		[]byte(m.Marker)...), nil
+	if text, err := lib.VLF(m.Marker).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(m.Status),
+			byte(m.Type),
+		},
+			text...), nil
+	}
 }
 
 func (e *Marker) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/program_name.go b/midi/events/meta/program_name.go
index e2fb57c..b3af5e3 100644
--- a/midi/events/meta/program_name.go
+++ b/midi/events/meta/program_name.go
@@ -36,12 +36,15 @@ func (e *ProgramName) unmarshal(tick uint64, delta lib.Delta, status byte, data
 }
 
 func (e ProgramName) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Name)),
-	},
-		[]byte(e.Name)...), nil
+	if text, err := lib.VLF(e.Name).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(e.Status),
+			byte(e.Type),
+		},
+			text...), nil
+	}
 }
 
 func (e *ProgramName) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/sequencer_specific.go b/midi/events/meta/sequencer_specific.go
index e868891..7163aa8 100644
--- a/midi/events/meta/sequencer_specific.go
+++ b/midi/events/meta/sequencer_specific.go
@@ -48,17 +48,20 @@ func (e *SequencerSpecificEvent) unmarshal(tick uint64, delta lib.Delta, status
 	return nil
 }
 
-// FIXME encode as VLF
 func (e SequencerSpecificEvent) MarshalBinary() (encoded []byte, err error) {
-	b := []byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Manufacturer.ID) + len(e.Data))}
+	vlf := []byte{}
+	vlf = append(vlf, e.Manufacturer.ID...)
+	vlf = append(vlf, e.Data...)
 
-	b = append(b, e.Manufacturer.ID...)
-	b = append(b, e.Data...)
-
-	return b, nil
+	if data, err := lib.VLF(vlf).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(e.Status),
+			byte(e.Type),
+		},
+			data...), nil
+	}
 }
 
 func (e *SequencerSpecificEvent) UnmarshalBinary(bytes []byte) error {
diff --git a/midi/events/meta/text.go b/midi/events/meta/text.go
index 05be373..9317fd6 100644
--- a/midi/events/meta/text.go
+++ b/midi/events/meta/text.go
@@ -37,12 +37,15 @@ func (e *Text) unmarshal(tick uint64, delta lib.Delta, status byte, data []byte,
 }
 
 func (e Text) MarshalBinary() (encoded []byte, err error) {
-	return append([]byte{
-		byte(e.Status),
-		byte(e.Type),
-		byte(len(e.Text)),
-	},
-		[]byte(e.Text)...), nil
+	if text, err := lib.VLF(e.Text).MarshalBinary(); err != nil {
+		return nil, err
+	} else {
+		return append([]byte{
+			byte(e.Status),
+			byte(e.Type),
+		},
+			text...), nil
+	}
 }
 
 func (e *Text) UnmarshalBinary(bytes []byte) error {
-- 
2.43.0


From 2a00d0775ee36c241c4df75a8e9919c7e851be82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:35 +0000
Subject: [PATCH 12/52] fix: validate TimeSignature denominators and accept any
 thirty-seconds-per-quarter value

---
 midi/events/meta/time_signature.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/midi/events/meta/time_signature.go b/midi/events/meta/time_signature.go
index 5d271e5..75e9a8e 100644
--- a/midi/events/meta/time_signature.go
+++ b/midi/events/meta/time_signature.go
@@ -18,13 +18,6 @@ type TimeSignature struct {
 }
 
 func MakeTimeSignature(tick uint64, delta lib.Delta, numerator, denominator, ticksPerClick, thirtySecondsPerQuarter uint8, bytes ...byte) TimeSignature {
-	d := 0
-	dd := uint8(1)
-	for dd < denominator {
-		dd *= 2
-		d += 1
-	}
-
 	return TimeSignature{
 		event: event{
 			tick:   tick,
@@ -46,6 +39,10 @@ func (e *TimeSignature) unmarshal(tick uint64, delta lib.Delta, status byte, dat
 		return fmt.Errorf("Invalid TimeSignature length (%d): expected '4'", len(data))
 	}
 
+	if data[1] > 7 {
+		return fmt.Errorf("Invalid TimeSignature denominator (2^%d): expected a value in the interval [2^0..2^7]", data[1])
+	}
+
 	numerator := data[0]
 	ticksPerClick := data[2]
 	thirtySecondsPerQuarter := data[3]
@@ -65,6 +62,10 @@ func (t TimeSignature) String() string {
 }
 
 func (t TimeSignature) MarshalBinary() (encoded []byte, err error) {
+	if !isPowerOfTwo(t.Denominator) {
+		return nil, fmt.Errorf("invalid TimeSignature denominator (%v)", t.Denominator)
+	}
+
 	d := 0
 	denominator := uint8(1)
 	for denominator < t.Denominator {
@@ -96,7 +97,7 @@ func (e *TimeSignature) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagTimeSignature, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 4 {
+	} else if len(data) < 4 || data[1] > 7 {
 		return fmt.Errorf("Invalid TimeSignature data")
 	} else {
 		numerator := data[0]
@@ -115,7 +116,7 @@ func (e *TimeSignature) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *TimeSignature) UnmarshalText(bytes []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)TimeSignature\s+([0-9]+)/([1-9][0-9]*),\s* ([0-9]+) ticks per click,\s*([1-9][0-8]*)/32 per quarter`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)TimeSignature\s+([0-9]+)/([1-9][0-9]*),\s* ([0-9]+) ticks per click,\s*([0-9]+)/32 per quarter`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 6 {
@@ -130,6 +131,8 @@ func (e *TimeSignature) UnmarshalText(bytes []byte) error {
 		return err
 	} else if beats, err := strconv.ParseUint(match[5], 10, 8); err != nil {
 		return err
+	} else if !isPowerOfTwo(uint8(denominator)) {
+		return fmt.Errorf("invalid TimeSignature denominator (%v)", denominator)
 	} else {
 		*e = MakeTimeSignature(0, delta, uint8(numerator), uint8(denominator), uint8(ticks), uint8(beats), []byte{}...)
 	}
@@ -182,9 +185,15 @@ func (e *TimeSignature) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if t.Tag != fmt.Sprintf("%v", lib.TagTimeSignature) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if !isPowerOfTwo(t.Denominator) {
+		return fmt.Errorf("invalid TimeSignature denominator (%v)", t.Denominator)
 	} else {
 		*e = MakeTimeSignature(0, t.Delta, t.Numerator, t.Denominator, t.TicksPerClick, t.ThirtySecondsPerQuarter, []byte{}...)
 	}
 
 	return nil
 }
+
+func isPowerOfTwo(v uint8) bool {
+	return v != 0 && v&(v-1) == 0
+}
-- 
2.43.0


From 541c63d4889d6b3bb854ea430f4b9386b3969cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:36 +0000
Subject: [PATCH 13/52] fix: use all 7 bits of the bank select MSB and LSB

---
 midi/MTrk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi/MTrk.go b/midi/MTrk.go
index a842322..2bd852c 100644
--- a/midi/MTrk.go
+++ b/midi/MTrk.go
@@ -74,13 +74,13 @@ func (chunk *MTrk) UnmarshalBinary(data []byte) error {
 				if k.Controller.ID == 0x00 {
 					c := uint8(k.Channel)
 					v := uint16(k.Value)
-					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & 0x003f) | ((v & 0x003f) << 7)
+					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & 0x007f) | ((v & 0x007f) << 7)
 				}
 
 				if k.Controller.ID == 0x20 {
 					c := uint8(k.Channel)
 					v := uint16(k.Value)
-					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & (0x003f << 7)) | (v & 0x003f)
+					chunk.Context.ProgramBank[c] = (chunk.Context.ProgramBank[c] & (0x007f << 7)) | (v & 0x007f)
 				}
 
 			case midievent.NoteOff:
-- 
2.43.0


From b3400fcbb821fefa0d33fd622582f411dabf4b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:43 +0000
Subject: [PATCH 14/52] fix: reject out of range event values in text and JSON
 source (instead of panicking or corrupting the MIDI file)

---
 midi/events/meta/key_signature.go       |  6 ++++++
 midi/events/meta/smpte_offset.go        | 20 ++++++++++++++++++++
 midi/events/meta/tempo.go               |  4 ++++
 midi/events/midi/channel_pressure.go    |  2 ++
 midi/events/midi/controller.go          |  8 ++++++++
 midi/events/midi/note_off.go            |  4 ++++
 midi/events/midi/note_on.go             |  4 ++++
 midi/events/midi/polyphonic_pressure.go |  2 ++
 midi/events/midi/program_change.go      |  4 ++++
 9 files changed, 54 insertions(+)

diff --git a/midi/events/meta/key_signature.go b/midi/events/meta/key_signature.go
index 8cac694..d1770be 100644
--- a/midi/events/meta/key_signature.go
+++ b/midi/events/meta/key_signature.go
@@ -212,6 +212,12 @@ func (e *KeySignature) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagKeySignature) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.KeyType != lib.Major && t.KeyType != lib.Minor {
+		return fmt.Errorf("Invalid KeySignature key type (%d): expected a value in the interval [0..1]", t.KeyType)
+	} else if _, ok := lib.MajorScale(t.Accidentals); t.KeyType == lib.Major && !ok {
+		return fmt.Errorf("Invalid major key signature (%d accidentals)", t.Accidentals)
+	} else if _, ok := lib.MinorScale(t.Accidentals); t.KeyType == lib.Minor && !ok {
+		return fmt.Errorf("Invalid minor key signature (%d accidentals)", t.Accidentals)
 	} else {
 		*e = MakeKeySignature(0, t.Delta, t.Accidentals, t.KeyType, []byte{}...)
 	}
diff --git a/midi/events/meta/smpte_offset.go b/midi/events/meta/smpte_offset.go
index cf02b93..9392a1c 100644
--- a/midi/events/meta/smpte_offset.go
+++ b/midi/events/meta/smpte_offset.go
@@ -224,8 +224,16 @@ func (e *SMPTEOffset) UnmarshalText(text []byte) error {
 		return err
 	} else if fractions, err := strconv.ParseUint(match[7], 10, 8); err != nil {
 		return err
+	} else if hour > 24 {
+		return fmt.Errorf("Invalid SMPTE offset hour (%d): expected a value in the interval [0..24]", hour)
+	} else if minute > 59 {
+		return fmt.Errorf("Invalid SMPTE offset minute (%d): expected a value in the interval [0..59]", minute)
+	} else if second > 59 {
+		return fmt.Errorf("Invalid SMPTE offset second (%d): expected a value in the interval [0..59]", second)
 	} else if frameRate != 24 && frameRate != 25 && frameRate != 29 && frameRate != 30 {
 		return fmt.Errorf("Invalid SMPTE offset frame rate (%02X): expected a value in the set [24,25,29,30]", frameRate)
+	} else if frames >= frameRate {
+		return fmt.Errorf("Invalid SMPTE offset frames (%d): expected a value in the interval [0..%d]", frames, frameRate-1)
 	} else if fractions > 100 {
 		return fmt.Errorf("Invalid SMPTE offset fractional frames (%d): expected a value in the interval [0..100", fractions)
 	} else {
@@ -279,6 +287,18 @@ func (e *SMPTEOffset) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if t.Tag != fmt.Sprintf("%v", lib.TagSMPTEOffset) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Hour > 24 {
+		return fmt.Errorf("Invalid SMPTE offset hour (%d): expected a value in the interval [0..24]", t.Hour)
+	} else if t.Minute > 59 {
+		return fmt.Errorf("Invalid SMPTE offset minute (%d): expected a value in the interval [0..59]", t.Minute)
+	} else if t.Second > 59 {
+		return fmt.Errorf("Invalid SMPTE offset second (%d): expected a value in the interval [0..59]", t.Second)
+	} else if t.FrameRate != 24 && t.FrameRate != 25 && t.FrameRate != 29 && t.FrameRate != 30 {
+		return fmt.Errorf("Invalid SMPTE offset frame rate (%02X): expected a value in the set [24,25,29,30]", t.FrameRate)
+	} else if t.Frames >= t.FrameRate {
+		return fmt.Errorf("Invalid SMPTE offset frames (%d): expected a value in the interval [0..%d]", t.Frames, t.FrameRate-1)
+	} else if t.FractionalFrames > 100 {
+		return fmt.Errorf("Invalid SMPTE offset fractional frames (%d): expected a value in the interval [0..100", t.FractionalFrames)
 	} else {
 		*e = MakeSMPTEOffset(0, t.Delta, t.Hour, t.Minute, t.Second, t.FrameRate, t.Frames, t.FractionalFrames, []byte{}...)
 	}
diff --git a/midi/events/meta/tempo.go b/midi/events/meta/tempo.go
index 1c59834..776248b 100644
--- a/midi/events/meta/tempo.go
+++ b/midi/events/meta/tempo.go
@@ -99,6 +99,8 @@ func (e *Tempo) UnmarshalText(text []byte) error {
 		return err
 	} else if tempo, err := strconv.ParseUint(match[2], 10, 32); err != nil {
 		return err
+	} else if tempo > 0x00ffffff {
+		return fmt.Errorf("invalid Tempo (%v)", tempo)
 	} else {
 		*e = MakeTempo(0, delta, uint32(tempo), []byte{}...)
 	}
@@ -135,6 +137,8 @@ func (e *Tempo) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagTempo) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Tempo > 0x00ffffff {
+		return fmt.Errorf("invalid Tempo (%v)", t.Tempo)
 	} else {
 		*e = MakeTempo(0, t.Delta, t.Tempo, []byte{}...)
 	}
diff --git a/midi/events/midi/channel_pressure.go b/midi/events/midi/channel_pressure.go
index f2ed3af..02df880 100644
--- a/midi/events/midi/channel_pressure.go
+++ b/midi/events/midi/channel_pressure.go
@@ -140,6 +140,8 @@ func (e *ChannelPressure) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagChannelPressure) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Pressure > 127 {
+		return fmt.Errorf("invalid ChannelPressure pressure (%v)", t.Pressure)
 	} else {
 		*e = MakeChannelPressure(0, uint32(t.Delta), t.Channel, t.Pressure, []byte{}...)
 	}
diff --git a/midi/events/midi/controller.go b/midi/events/midi/controller.go
index 2fa5c6d..a7db6ca 100644
--- a/midi/events/midi/controller.go
+++ b/midi/events/midi/controller.go
@@ -99,6 +99,10 @@ func (e *Controller) UnmarshalText(text []byte) error {
 		return err
 	} else if value, err := strconv.ParseUint(match[4], 10, 8); err != nil {
 		return err
+	} else if controller > 127 {
+		return fmt.Errorf("invalid Controller controller (%v)", controller)
+	} else if value > 127 {
+		return fmt.Errorf("invalid Controller value (%v)", value)
 	} else {
 		*e = MakeController(0, uint32(delta), lib.Channel(channel), lib.LookupController(uint8(controller)), uint8(value), []byte{}...)
 	}
@@ -139,6 +143,10 @@ func (e *Controller) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagController) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Controller.ID > 127 {
+		return fmt.Errorf("invalid Controller controller (%v)", t.Controller.ID)
+	} else if t.Value > 127 {
+		return fmt.Errorf("invalid Controller value (%v)", t.Value)
 	} else {
 		*e = MakeController(0, uint32(t.Delta), t.Channel, t.Controller, t.Value, []byte{}...)
 	}
diff --git a/midi/events/midi/note_off.go b/midi/events/midi/note_off.go
index f5d4867..462dd2b 100644
--- a/midi/events/midi/note_off.go
+++ b/midi/events/midi/note_off.go
@@ -220,6 +220,10 @@ func (e *NoteOff) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagNoteOff) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Note.Value > 127 {
+		return fmt.Errorf("invalid NoteOff note (%v)", t.Note.Value)
+	} else if t.Velocity > 127 {
+		return fmt.Errorf("invalid NoteOff velocity (%v)", t.Velocity)
 	} else {
 		e.tick = 0
 		e.delta = t.Delta
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 7d1a3d7..9e22823 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -160,6 +160,10 @@ func (e *NoteOn) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagNoteOn) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Note.Value > 127 {
+		return fmt.Errorf("invalid NoteOn note (%v)", t.Note.Value)
+	} else if t.Velocity > 127 {
+		return fmt.Errorf("invalid NoteOn velocity (%v)", t.Velocity)
 	} else {
 		note := Note{
 			Value: t.Note.Value,
diff --git a/midi/events/midi/polyphonic_pressure.go b/midi/events/midi/polyphonic_pressure.go
index 6bc8944..28665f0 100644
--- a/midi/events/midi/polyphonic_pressure.go
+++ b/midi/events/midi/polyphonic_pressure.go
@@ -136,6 +136,8 @@ func (e *PolyphonicPressure) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagPolyphonicPressure) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Pressure > 127 {
+		return fmt.Errorf("invalid PolyphonicPressure pressure (%v)", t.Pressure)
 	} else {
 		*e = MakePolyphonicPressure(0, uint32(t.Delta), t.Channel, t.Pressure, []byte{}...)
 	}
diff --git a/midi/events/midi/program_change.go b/midi/events/midi/program_change.go
index 2045c74..1e3666f 100644
--- a/midi/events/midi/program_change.go
+++ b/midi/events/midi/program_change.go
@@ -94,6 +94,8 @@ func (e *ProgramChange) UnmarshalText(text []byte) error {
 		return err
 	} else if program, err := strconv.ParseUint(match[4], 10, 8); err != nil {
 		return err
+	} else if program > 127 {
+		return fmt.Errorf("invalid ProgramChange program (%v)", program)
 	} else {
 		*e = MakeProgramChange(0, uint32(delta), lib.Channel(channel), uint16(bank), uint8(program), []byte{}...)
 	}
@@ -134,6 +136,8 @@ func (e *ProgramChange) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagProgramChange) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if t.Program > 127 {
+		return fmt.Errorf("invalid ProgramChange program (%v)", t.Program)
 	} else {
 		*e = MakeProgramChange(0, uint32(t.Delta), t.Channel, t.Bank, t.Program, []byte{}...)
 	}
-- 
2.43.0


From d2150406466165247a86b29574fe7beca4988210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:29 +0000
Subject: [PATCH 15/52] fix: reject JSON byte values greater than 255 instead
 of truncating them

---
 midi/lib/hex.go          | 4 ++++
 midi/lib/manufacturer.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/midi/lib/hex.go b/midi/lib/hex.go
index 9276652..09119cc 100644
--- a/midi/lib/hex.go
+++ b/midi/lib/hex.go
@@ -50,6 +50,10 @@ func (h *Hex) UnmarshalJSON(bytes []byte) error {
 
 	buffer := []byte{}
 	for _, b := range v {
+		if b > 255 {
+			return fmt.Errorf("byte value out of range (%v)", b)
+		}
+
 		buffer = append(buffer, byte(b))
 	}
 
diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index 6fc548d..fa6fc25 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -44,6 +44,10 @@ func (m *Manufacturer) UnmarshalJSON(bytes []byte) error {
 
 	id := []byte{}
 	for _, b := range manufacturer.ID {
+		if b > 255 {
+			return fmt.Errorf("invalid manufacturer ID (%v)", manufacturer.ID)
+		}
+
 		id = append(id, byte(b))
 	}
 
-- 
2.43.0


From 7cb6b5296ed55090d3e30ed2ac825bd48b001291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:31 +0000
Subject: [PATCH 16/52] fix: reject unknown keys in KeySignature text instead
 of assembling C major

---
 midi/events/meta/key_signature.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/midi/events/meta/key_signature.go b/midi/events/meta/key_signature.go
index d1770be..48e4c3d 100644
--- a/midi/events/meta/key_signature.go
+++ b/midi/events/meta/key_signature.go
@@ -154,12 +154,14 @@ func (e *KeySignature) UnmarshalText(text []byte) error {
 	} else {
 		accidentals := int8(0)
 		keyType := lib.KeyType(0)
+		found := false
 		key := strings.ToLower(fmt.Sprintf("%v %v", match[2], match[3]))
 
 		for _, scale := range lib.MAJOR_SCALES {
 			if strings.ToLower(scale.Name) == key {
 				accidentals = scale.Accidentals
 				keyType = scale.Type
+				found = true
 				break
 			}
 		}
@@ -168,10 +170,15 @@ func (e *KeySignature) UnmarshalText(text []byte) error {
 			if strings.ToLower(scale.Name) == key {
 				accidentals = scale.Accidentals
 				keyType = scale.Type
+				found = true
 				break
 			}
 		}
 
+		if !found {
+			return fmt.Errorf("invalid KeySignature key (%v)", key)
+		}
+
 		*e = MakeKeySignature(0, delta, accidentals, keyType, []byte{}...)
 	}
 
-- 
2.43.0


From 92cb94e39b9968c737e4077f488ed2727e837560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:33 +0000
Subject: [PATCH 17/52] fix: use the event tag (and not the event data) to
 identify the event type in assembler source

---
 midi/events/text.go | 70 ++++++++++++++++++++++++++-------------------
 1 file changed, 41 insertions(+), 29 deletions(-)

diff --git a/midi/events/text.go b/midi/events/text.go
index 2a9b639..1ba7ea7 100644
--- a/midi/events/text.go
+++ b/midi/events/text.go
@@ -3,99 +3,111 @@ package events
 import (
 	"encoding"
 	"fmt"
-	"strings"
+	"regexp"
 
 	"github.com/transcriptaze/midiasm/midi/events/meta"
 	"github.com/transcriptaze/midiasm/midi/events/midi"
 	"github.com/transcriptaze/midiasm/midi/events/sysex"
 )
 
+// Matches the first event tag after the 'delta' field i.e. ignores tag names in the event data e.g. in the text of a lyric.
+var tags = regexp.MustCompile(`(?i:delta:[0-9]+).*?\b(` +
+	`SequenceNumber|Text|Copyright|TrackName|InstrumentName|Lyric|Marker|CuePoint|ProgramName|DeviceName|` +
+	`MIDIChannelPrefix|MIDIPort|Tempo|TimeSignature|KeySignature|SMPTEOffset|EndOfTrack|SequencerSpecificEvent|` +
+	`NoteOff|NoteOn|PolyphonicPressure|Controller|ProgramChange|ChannelPressure|PitchBend|` +
+	`SysExMessage|SysExContinuation|SysExEscape)\b`)
+
 func (e *Event) UnmarshalText(text []byte) error {
 	s := string(text)
+	tag := ""
+
+	if match := tags.FindStringSubmatch(s); match != nil {
+		tag = match[1]
+	}
 
 	switch {
-	case strings.Contains(s, "SequenceNumber"):
+	case tag == "SequenceNumber":
 		return unmarshalText[metaevent.SequenceNumber](e, text)
 
-	case strings.Contains(s, "Text"):
+	case tag == "Text":
 		return unmarshalText[metaevent.Text](e, text)
 
-	case strings.Contains(s, "Copyright"):
+	case tag == "Copyright":
 		return unmarshalText[metaevent.Copyright](e, text)
 
-	case strings.Contains(s, "TrackName"):
+	case tag == "TrackName":
 		return unmarshalText[metaevent.TrackName](e, text)
 
-	case strings.Contains(s, "InstrumentName"):
+	case tag == "InstrumentName":
 		return unmarshalText[metaevent.InstrumentName](e, text)
 
-	case strings.Contains(s, "Lyric"):
+	case tag == "Lyric":
 		return unmarshalText[metaevent.Lyric](e, text)
 
-	case strings.Contains(s, "Marker"):
+	case tag == "Marker":
 		return unmarshalText[metaevent.Marker](e, text)
 
-	case strings.Contains(s, "CuePoint"):
+	case tag == "CuePoint":
 		return unmarshalText[metaevent.CuePoint](e, text)
 
-	case strings.Contains(s, "ProgramName"):
+	case tag == "ProgramName":
 		return unmarshalText[metaevent.ProgramName](e, text)
 
-	case strings.Contains(s, "DeviceName"):
+	case tag == "DeviceName":
 		return unmarshalText[metaevent.DeviceName](e, text)
 
-	case strings.Contains(s, "MIDIChannelPrefix"):
+	case tag == "MIDIChannelPrefix":
 		return unmarshalText[metaevent.MIDIChannelPrefix](e, text)
 
-	case strings.Contains(s, "MIDIPort"):
+	case tag == "MIDIPort":
 		return unmarshalText[metaevent.MIDIPort](e, text)
 
-	case strings.Contains(s, "Tempo"):
+	case tag == "Tempo":
 		return unmarshalText[metaevent.Tempo](e, text)
 
-	case strings.Contains(s, "TimeSignature"):
+	case tag == "TimeSignature":
 		return unmarshalText[metaevent.TimeSignature](e, text)
 
-	case strings.Contains(s, "KeySignature"):
+	case tag == "KeySignature":
 		return unmarshalText[metaevent.KeySignature](e, text)
 
-	case strings.Contains(s, "SMPTEOffset"):
+	case tag == "SMPTEOffset":
 		return unmarshalText[metaevent.SMPTEOffset](e, text)
 
-	case strings.Contains(s, "EndOfTrack"):
+	case tag == "EndOfTrack":
 		return unmarshalText[metaevent.EndOfTrack](e, text)
 
-	case strings.Contains(s, "SequencerSpecificEvent"):
+	case tag == "SequencerSpecificEvent":
 		return unmarshalText[metaevent.SequencerSpecificEvent](e, text)
 
-	case strings.Contains(s, "NoteOff"):
+	case tag == "NoteOff":
 		return unmarshalText[midievent.NoteOff](e, text)
 
-	case strings.Contains(s, "NoteOn"):
+	case tag == "NoteOn":
 		return unmarshalText[midievent.NoteOn](e, text)
 
-	case strings.Contains(s, "PolyphonicPressure"):
+	case tag == "PolyphonicPressure":
 		return unmarshalText[midievent.PolyphonicPressure](e, text)
 
-	case strings.Contains(s, "Controller"):
+	case tag == "Controller":
 		return unmarshalText[midievent.Controller](e, text)
 
-	case strings.Contains(s, "ProgramChange"):
+	case tag == "ProgramChange":
 		return unmarshalText[midievent.ProgramChange](e, text)
 
-	case strings.Contains(s, "ChannelPressure"):
+	case tag == "ChannelPressure":
 		return unmarshalText[midievent.ChannelPressure](e, text)
 
-	case strings.Contains(s, "PitchBend"):
+	case tag == "PitchBend":
 		return unmarshalText[midievent.PitchBend](e, text)
 
-	case strings.Contains(s, "SysExMessage"):
+	case tag == "SysExMessage":
 		return unmarshalText[sysex.SysExMessage](e, text)
 
-	case strings.Contains(s, "SysExContinuation"):
+	case tag == "SysExContinuation":
 		return unmarshalText[sysex.SysExContinuationMessage](e, text)
 
-	case strings.Contains(s, "SysExEscape"):
+	case tag == "SysExEscape":
 		return unmarshalText[sysex.SysExEscapeMessage](e, text)
 
 	default:
-- 
2.43.0


From 8493453fbbf42bb15c754d7973478e83569f7c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:54 +0000
Subject: [PATCH 18/52] fix: assemble notes with negative octaves and the C4
 middle C convention, and reject notes outside 0..127

---
 midi/events/midi/note_off.go |  2 +-
 midi/events/midi/note_on.go  | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/midi/events/midi/note_off.go b/midi/events/midi/note_off.go
index 462dd2b..2856de4 100644
--- a/midi/events/midi/note_off.go
+++ b/midi/events/midi/note_off.go
@@ -161,7 +161,7 @@ func (n *NoteOff) UnmarshalText(bytes []byte) error {
 	n.tag = lib.TagNoteOff
 	n.Status = 0x80
 
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOff\s+channel:([0-9]+)\s+note:([A-G][♯♭]?[0-9]),\s*velocity:([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOff\s+channel:([0-9]+)\s+note:([A-G][♯♭]?[-]?[0-9]+),\s*velocity:([0-9]+)`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 5 {
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 9e22823..1c20358 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -105,7 +105,7 @@ func (e *NoteOn) UnmarshalBinary(bytes []byte) error {
 }
 
 func (e *NoteOn) UnmarshalText(bytes []byte) error {
-	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOn\s+channel:([0-9]+)\s+note:([A-G][♯♭]?[0-9]),\s*velocity:([0-9]+)`)
+	re := regexp.MustCompile(`(?i)delta:([0-9]+)(?:.*?)NoteOn\s+channel:([0-9]+)\s+note:([A-G][♯♭]?[-]?[0-9]+),\s*velocity:([0-9]+)`)
 	text := string(bytes)
 
 	if match := re.FindStringSubmatch(text); match == nil || len(match) < 5 {
@@ -229,7 +229,12 @@ func (e NoteOn) Format(ctx *context.Context) NoteOn {
 }
 
 func ParseNote(ctx *context.Context, s string) (Note, error) {
-	re := regexp.MustCompile(`([A-G][♯♭]?)([-]?[0-9])`)
+	re := regexp.MustCompile(`([A-G][♯♭]?)([-]?[0-9]+)`)
+	base := 1
+
+	if context.MiddleC == lib.C4 {
+		base = 2
+	}
 
 	if match := re.FindStringSubmatch(s); match == nil || len(match) != 3 {
 		return Note{}, fmt.Errorf("invalid note (%v)", s)
@@ -237,9 +242,11 @@ func ParseNote(ctx *context.Context, s string) (Note, error) {
 		return Note{}, err
 	} else if octave, err := strconv.ParseInt(match[2], 10, 8); err != nil {
 		return Note{}, err
+	} else if value := 12*(int(octave)+base) + note.Ord; value < 0 || value > 127 {
+		return Note{}, fmt.Errorf("note out of range (%v)", s)
 	} else {
 		return Note{
-			Value: uint8(12*int8(octave+1) + int8(note.Ord)),
+			Value: uint8(value),
 			Name:  fmt.Sprintf("%s%d", note.Name, octave),
 			Alias: fmt.Sprintf("%s%d", note.Name, octave),
 		}, nil
-- 
2.43.0


From 93e4ccfe9ab04279a9231a245019599c5e7b7cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:41 +0000
Subject: [PATCH 19/52] fix: do not start a new chunk for an MThd or MTrk in a
 comment or event text

---
 ops/assemble/text.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index 5d39a0e..f7bf46a 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -37,7 +37,7 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 			case strings.HasPrefix(line, "%%"):
 				// comment - ignore
 
-			case strings.Contains(line, "MThd"):
+			case isHeader(line, "MThd"):
 				if mthd, err := a.parseMThd(chunk); err != nil {
 					return nil, err
 				} else {
@@ -46,7 +46,7 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 
 				break
 
-			case strings.Contains(line, "MTrk"):
+			case isHeader(line, "MTrk"):
 				if mtrk, err := a.parseMTrk(chunk); err != nil {
 					return nil, err
 				} else {
@@ -101,8 +101,6 @@ func (a TextAssembler) scan(scanner *bufio.Scanner, lines chan string) {
 }
 
 func (a TextAssembler) chunkify(lines chan string, chunks chan []string) {
-	tags := regexp.MustCompile("(MThd)|(MTrk)")
-
 	clone := func(slice []string) []string {
 		chunk := make([]string, len(slice))
 		copy(chunk, slice)
@@ -111,14 +109,14 @@ func (a TextAssembler) chunkify(lines chan string, chunks chan []string) {
 
 	var chunk []string
 	for line := range lines {
-		if strings.Contains(line, "MThd") {
+		if isHeader(line, "MThd") {
 			chunk = []string{line}
 			break
 		}
 	}
 
 	for line := range lines {
-		if match := tags.FindStringSubmatch(line); match != nil {
+		if isHeader(line, "MThd") || isHeader(line, "MTrk") {
 			chunks <- clone(chunk)
 			chunk = []string{line}
 		} else {
@@ -226,3 +224,9 @@ func (a TextAssembler) parseMTrk(chunk []string) (*midi.MTrk, error) {
 	return fixups(mtrk)
 	// return mtrk, fmt.Errorf("missing EndOfTrack")
 }
+
+// A chunk header is a line with the chunk tag that is not a comment or an event i.e. a 'MThd' or 'MTrk' in a comment
+// or in the text of an event does not start a new chunk.
+func isHeader(line string, tag string) bool {
+	return strings.Contains(line, tag) && !strings.HasPrefix(line, "%%") && !strings.Contains(line, "delta:")
+}
-- 
2.43.0


From b1d92df365f75458ebc0344735033d7943630ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:42 +0000
Subject: [PATCH 20/52] fix: do not leak the MTrk line reader goroutine when an
 event is invalid

---
 ops/assemble/text.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index f7bf46a..5b165cd 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -178,15 +178,15 @@ func (a TextAssembler) parseMTrk(chunk []string) (*midi.MTrk, error) {
 	}()
 
 	go func() {
+		defer close(lines)
+
 		for _, line := range chunk {
 			select {
 			case lines <- line:
 			case <-closed:
-				break
+				return
 			}
 		}
-
-		close(lines)
 	}()
 
 	// ... make MTrk
-- 
2.43.0


From 3e3b94f291071919f0a45b72a47df475cb6717db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:44 +0000
Subject: [PATCH 21/52] fix: allow assembler source lines longer than 64K

---
 ops/assemble/text.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index 5b165cd..f43b531 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -74,6 +75,8 @@ func (a TextAssembler) Assemble(r io.Reader) ([]byte, error) {
 
 func (a TextAssembler) read(r io.Reader) ([][]string, error) {
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, math.MaxInt) // default limit is 64K which is too short for a large SysEx or text event
+
 	lines := make(chan string)
 	chunks := make(chan []string)
 
-- 
2.43.0


From e0e6f7661d27abeb8df15265320970446902d300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:07 +0000
Subject: [PATCH 22/52] fix: assemble empty tracks and tracks that end with a
 SysEx message

---
 ops/assemble/assemble.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ops/assemble/assemble.go b/ops/assemble/assemble.go
index 01275c3..4f46a4b 100644
--- a/ops/assemble/assemble.go
+++ b/ops/assemble/assemble.go
@@ -12,6 +12,10 @@ type Assembler interface {
 }
 
 func fixups(mtrk *midi.MTrk) (*midi.MTrk, error) {
+	if len(mtrk.Events) == 0 {
+		return mtrk, nil
+	}
+
 	for ix := range mtrk.Events[1:] {
 		previous := mtrk.Events[ix]
 		event := mtrk.Events[ix+1]
@@ -48,5 +52,18 @@ func fixups(mtrk *midi.MTrk) (*midi.MTrk, error) {
 		}
 	}
 
+	// ... last event in the track cannot be continued
+	last := mtrk.Events[len(mtrk.Events)-1]
+
+	switch message := last.Event.(type) {
+	case sysex.SysExMessage:
+		message.Single = true
+		last.Event = message
+
+	case sysex.SysExContinuationMessage:
+		message.End = true
+		last.Event = message
+	}
+
 	return mtrk, nil
 }
-- 
2.43.0


From 32973d83effb333091b21a8ec591218b4ee93142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:09 +0000
Subject: [PATCH 23/52] fix: assemble MIDI files that use SMPTE time code

---
 ops/assemble/json.go | 13 +++++++++++--
 ops/assemble/text.go | 10 +++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/ops/assemble/json.go b/ops/assemble/json.go
index 007086f..e1f059e 100644
--- a/ops/assemble/json.go
+++ b/ops/assemble/json.go
@@ -19,6 +19,9 @@ type mthd struct {
 	Tag    *string `json:"tag,omitempty"`
 	Format *uint16 `json:"format,omitempty"`
 	PPQN   *uint16 `json:"PPQN,omitempty"`
+
+	Division      *uint16 `json:"division,omitempty"`
+	SMPTETimeCode bool    `json:"SMPTETimeCode,omitempty"`
 }
 
 type mtrk struct {
@@ -88,10 +91,16 @@ func (a JSONAssembler) parseMThd(h mthd) (*midi.MThd, error) {
 		format = *h.Format
 	}
 
-	if h.PPQN == nil {
+	if h.PPQN == nil && !h.SMPTETimeCode {
 		return nil, fmt.Errorf("missing 'metrical-time' field in header")
+	} else if h.Division == nil && h.SMPTETimeCode {
+		return nil, fmt.Errorf("missing 'division' field in header")
 	} else {
-		division = *h.PPQN
+		if h.SMPTETimeCode {
+			division = *h.Division
+		} else {
+			division = *h.PPQN
+		}
 
 		if division&0x8000 == 0x8000 {
 			fps := division & 0xff00 >> 8
diff --git a/ops/assemble/text.go b/ops/assemble/text.go
index f43b531..d1ee791 100644
--- a/ops/assemble/text.go
+++ b/ops/assemble/text.go
@@ -148,7 +148,15 @@ func (a TextAssembler) parseMThd(chunk []string) (*midi.MThd, error) {
 				format = uint16(v)
 			}
 
-			if match := regexp.MustCompile(`metrical(?:[ -])?time:([0-9]+)\s*ppqn`).FindStringSubmatch(line); match == nil || len(match) < 2 {
+			if match := regexp.MustCompile(`SMPTE:(24|25|29|30)\s*fps,\s*([0-9]+)\s*sub-frames`).FindStringSubmatch(line); match != nil {
+				fps := map[string]uint16{"24": 0xe8, "25": 0xe7, "29": 0xe3, "30": 0xe2}
+
+				if v, err := strconv.ParseUint(match[2], 10, 8); err != nil {
+					return nil, err
+				} else {
+					division = fps[match[1]]<<8 | uint16(v)
+				}
+			} else if match := regexp.MustCompile(`metrical(?:[ -])?time:([0-9]+)\s*ppqn`).FindStringSubmatch(line); match == nil || len(match) < 2 {
 				return nil, fmt.Errorf("missing 'metrical-time' field in MThd")
 			} else if v, err := strconv.ParseUint(match[1], 10, 16); err != nil {
 				return nil, err
-- 
2.43.0


From b25cffc09e50378320fddcc79e9e839c559063cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:43 +0000
Subject: [PATCH 24/52] fix: do not panic validating a FORMAT 1 file without
 any tracks

---
 midi/smf.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/midi/smf.go b/midi/smf.go
index d1d7a09..f02c318 100644
--- a/midi/smf.go
+++ b/midi/smf.go
@@ -98,7 +98,11 @@ func (smf *SMF) validateFormat1() []ValidationError {
 		}
 	}
 
-	for _, track := range smf.Tracks[1:] {
+	for i, track := range smf.Tracks {
+		if i == 0 {
+			continue
+		}
+
 		for _, e := range track.Events {
 			if !events.IsTrack1Event(e) {
 				errors = append(errors, ValidationError(fmt.Errorf("Track %d: unexpected event (%s)", track.TrackNumber, events.Clean(e))))
-- 
2.43.0


From 31a9e7da964f5d807fd090ba88036d459e9de85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:46 +0000
Subject: [PATCH 25/52] fix: transpose key signatures in constant time (large
 downward transpositions hung)

---
 midi/lib/scales.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/midi/lib/scales.go b/midi/lib/scales.go
index 65aad60..aa7e49f 100644
--- a/midi/lib/scales.go
+++ b/midi/lib/scales.go
@@ -118,12 +118,7 @@ loop:
 func transpose(note Note, steps int) Note {
 	for ix, n := range SCALE {
 		if n.Ord == note.Ord {
-			ix = (ix + steps)
-			for ix < 0 {
-				ix += 12
-			}
-
-			ix %= len(SCALE)
+			ix = (ix + steps%len(SCALE) + len(SCALE)) % len(SCALE)
 
 			return SCALE[ix]
 		}
-- 
2.43.0


From 3f28e7658c07c8e8827e91d60f07c2a433df4f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:02 +0000
Subject: [PATCH 26/52] fix: return an error extracting notes from a MIDI file
 with SMPTE timing or without tracks (instead of panicking)

---
 ops/notes/notes.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index b1f0d26..1ba18f0 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -61,6 +61,14 @@ func (x *Notes) Execute(smf *midi.SMF) error {
 func extract(smf *midi.SMF, transposition int) ([]Note, error) {
 	notes := make([]Note, 0)
 
+	if smf.MThd.SMPTETimeCode || smf.MThd.PPQN == 0 {
+		return nil, fmt.Errorf("cannot extract notes from a MIDI file without a metrical time base")
+	}
+
+	if len(smf.Tracks) == 0 {
+		return notes, nil
+	}
+
 	// ... build tempo map
 	tempoMap := buildTempoMap(*smf)
 
-- 
2.43.0


From bc55f479b9f2fdd07ab6af71a21064874b2eb800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:04 +0000
Subject: [PATCH 27/52] fix: default tempo for notes is 120 BPM (500000us per
 quarter note)

---
 ops/notes/notes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 1ba18f0..1970705 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -124,7 +124,7 @@ func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]
 	})
 
 	// ... assign event timestamps
-	tempo := uint64(50000)
+	tempo := uint64(500000)
 	at := time.Duration(0)
 
 	for i, e := range list {
-- 
2.43.0


From 640e02d1d6e2db8db5d3863cd9acb1bcf55ec800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:05 +0000
Subject: [PATCH 28/52] fix: apply a tempo change from the tick at which it
 occurs when calculating note times

---
 ops/notes/notes.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 1970705..5f500c9 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -38,7 +38,6 @@ type Note struct {
 
 type event struct {
 	tick  uint64
-	delta uint64
 	at    time.Duration
 	event any
 	ctx   context.Context
@@ -106,7 +105,6 @@ func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]
 	for _, e := range track.Events {
 		list = append(list, event{
 			tick:  e.Tick(),
-			delta: uint64(e.Delta()),
 			event: e.Event,
 		})
 	}
@@ -114,7 +112,6 @@ func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]
 	for _, e := range tempoMap {
 		list = append(list, event{
 			tick:  e.Tick(),
-			delta: 0,
 			event: e.Event,
 		})
 	}
@@ -126,11 +123,13 @@ func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]
 	// ... assign event timestamps
 	tempo := uint64(500000)
 	at := time.Duration(0)
+	last := uint64(0)
 
 	for i, e := range list {
 		// beat = float64(tick) / float64(ppqn)
-		delta := time.Duration(1000 * e.delta * tempo / uint64(ppqn))
+		delta := time.Duration(1000 * (e.tick - last) * tempo / uint64(ppqn))
 		at += delta
+		last = e.tick
 
 		if dt := (uint64(delta) * tempo) % uint64(ppqn); dt > 0 {
 			warnf("%-5dµs loss of precision converting from MIDI tick to physical time at tick %d", dt, e.tick)
-- 
2.43.0


From aa2f39bba00115e7931adba3142d9d80e8a5c60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:28 +0000
Subject: [PATCH 29/52] fix: list notes that are ended by EndOfTrack in a
 deterministic order

---
 ops/notes/notes.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 5f500c9..9178cb1 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -239,7 +239,15 @@ func buildNoteList(events []event, transposition int) ([]Note, error) {
 			for i := 0; i < 16; i++ {
 				list := pending[lib.Channel(i)]
 				if len(list) > 0 {
-					for k, p := range list {
+					keys := []uint8{}
+					for k := range list {
+						keys = append(keys, k)
+					}
+
+					sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
+
+					for _, k := range keys {
+						p := list[k]
 						warnf("EndOfTrack automatically ending note (channel:%v, note:%02X, tick:%v, at:%v)", i, k, p.tick, p.at)
 						on := p.event.(midievent.NoteOn)
 
-- 
2.43.0


From 0d345d28eeecc240a7248ca87993d9421834b55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:29 +0000
Subject: [PATCH 30/52] fix: limit transposed notes to the MIDI note range
 (0..127)

---
 ops/notes/notes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 9178cb1..2c5a132 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -287,8 +287,8 @@ func transpose(note uint8, transpose int) uint8 {
 
 	if v < 0 {
 		return 0
-	} else if v > 255 {
-		return 255
+	} else if v > 127 {
+		return 127
 	} else {
 		return uint8(v)
 	}
-- 
2.43.0


From 7d70c1b08f9020e0d92466764529da3ab85ee1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:31 +0000
Subject: [PATCH 31/52] fix: report errors writing the extracted notes

---
 ops/notes/notes.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 2c5a132..a8ac631 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -48,13 +48,11 @@ func (x *Notes) Execute(smf *midi.SMF) error {
 		return err
 	} else {
 		if x.JSON {
-			export(notes, x.Writer)
+			return export(notes, x.Writer)
 		} else {
-			print(notes, x.Writer)
+			return print(notes, x.Writer)
 		}
 	}
-
-	return nil
 }
 
 func extract(smf *midi.SMF, transposition int) ([]Note, error) {
@@ -300,7 +298,9 @@ func print(notes []Note, w io.Writer) error {
 		end := n.End.Truncate(time.Millisecond)
 		duration := n.Duration.Truncate(time.Millisecond)
 
-		fmt.Fprintf(w, "%-4s channel:%-2d  note:%02X  velocity:%-3d  start:%-9s  end:%-9s  duration:%s\n", n.FormattedNote, n.Channel, n.Note, n.Velocity, start, end, duration)
+		if _, err := fmt.Fprintf(w, "%-4s channel:%-2d  note:%02X  velocity:%-3d  start:%-9s  end:%-9s  duration:%s\n", n.FormattedNote, n.Channel, n.Note, n.Velocity, start, end, duration); err != nil {
+			return err
+		}
 	}
 
 	return nil
@@ -339,8 +339,8 @@ func export(notes []Note, w io.Writer) error {
 
 	if bytes, err := json.MarshalIndent(object, "", "  "); err != nil {
 		return err
-	} else {
-		w.Write(bytes)
+	} else if _, err := w.Write(bytes); err != nil {
+		return err
 	}
 
 	return nil
-- 
2.43.0


From a3d151ee83b4ba44f92ff8dcde36545c17ca5987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:33 +0000
Subject: [PATCH 32/52] fix: export an empty list of notes as [] (not null)

---
 ops/notes/notes.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index a8ac631..4b67803 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -319,7 +319,9 @@ func export(notes []Note, w io.Writer) error {
 
 	object := struct {
 		Notes []note `json:"notes"`
-	}{}
+	}{
+		Notes: []note{},
+	}
 
 	for _, n := range notes {
 		start := n.Start.Truncate(time.Millisecond)
-- 
2.43.0


From 920136876bab6a2fa58b66bed486a98cb70b71c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:34 +0000
Subject: [PATCH 33/52] fix: extract notes from single track MIDI files

---
 ops/notes/notes.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 4b67803..11e278f 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -69,8 +69,13 @@ func extract(smf *midi.SMF, transposition int) ([]Note, error) {
 	// ... build tempo map
 	tempoMap := buildTempoMap(*smf)
 
-	// ... extract track notes
-	for _, track := range smf.Tracks[1:] {
+	// ... extract track notes (the only track in a FORMAT 0 file contains both tempo and note events)
+	tracks := smf.Tracks
+	if len(tracks) > 1 {
+		tracks = tracks[1:]
+	}
+
+	for _, track := range tracks {
 		if events, err := buildTrackEvents(*track, tempoMap, smf.MThd.PPQN); err != nil {
 			return nil, err
 		} else if list, err := buildNoteList(events, transposition); err != nil {
-- 
2.43.0


From 3091c371e6f461f0732eb7eba0bdd4b212a8f547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:24 +0000
Subject: [PATCH 34/52] fix: return an error for a click track from a MIDI file
 without tracks (instead of panicking)

---
 ops/click/click.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ops/click/click.go b/ops/click/click.go
index 4ae040a..25dc958 100644
--- a/ops/click/click.go
+++ b/ops/click/click.go
@@ -41,6 +41,10 @@ func (x *ClickTrack) Execute(smf *midi.SMF) error {
 	ppqn := uint64(smf.MThd.Division)
 	tempoMap := make([]*events.Event, 0)
 
+	if len(smf.Tracks) == 0 {
+		return fmt.Errorf("MIDI file does not contain any tracks")
+	}
+
 	for _, e := range smf.Tracks[0].Events {
 		if _, ok := e.Event.(*metaevent.Tempo); ok {
 			tempoMap = append(tempoMap, e)
-- 
2.43.0


From 4a1d788ddfccd70e056da0b224553d8966af5f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:25 +0000
Subject: [PATCH 35/52] fix: report errors writing the TSV table

---
 commands/tsv.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/commands/tsv.go b/commands/tsv.go
index e49facb..70706c2 100644
--- a/commands/tsv.go
+++ b/commands/tsv.go
@@ -186,7 +186,9 @@ func writeTable(records [][]string, w io.Writer) error {
 			row = append(row, fmt.Sprintf(formats[i], f))
 		}
 
-		fmt.Fprintf(w, "%v\n", strings.Join(row, "  "))
+		if _, err := fmt.Fprintf(w, "%v\n", strings.Join(row, "  ")); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 5431c0ac9c3d4e358bcdac10bb720ab24d987d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:27 +0000
Subject: [PATCH 36/52] fix: default the 'assemble' output file to the input
 file name with a .midi extension (as documented)

---
 commands/assemble.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/commands/assemble.go b/commands/assemble.go
index 69f00da..e75b376 100644
--- a/commands/assemble.go
+++ b/commands/assemble.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 
 	impl "github.com/transcriptaze/midiasm/ops/assemble"
 )
@@ -68,11 +69,10 @@ func (a assemble) Execute(flagset *flag.FlagSet) error {
 		return err
 	}
 
-	if a.out != "" {
-		if err := os.WriteFile(a.out, midi, 0660); err != nil {
-			return err
-		}
+	out := a.out
+	if out == "" {
+		out = strings.TrimSuffix(filename, filepath.Ext(filename)) + ".midi"
 	}
 
-	return nil
+	return os.WriteFile(out, midi, 0660)
 }
-- 
2.43.0


From 24c35cee96c32684cb9c68adce24d9599b7e59fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:28 +0000
Subject: [PATCH 37/52] fix: report a missing (required) --out file for
 'transpose' instead of discarding the output

---
 commands/transpose.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/commands/transpose.go b/commands/transpose.go
index f090549..238048f 100644
--- a/commands/transpose.go
+++ b/commands/transpose.go
@@ -65,6 +65,10 @@ func (t transpose) Execute(flagset *flag.FlagSet) error {
 }
 
 func (t transpose) execute(smf *midi.SMF) error {
+	if t.out == "" {
+		return fmt.Errorf("missing output file (--out is required)")
+	}
+
 	op := impl.Transpose{}
 
 	transposed, err := op.Execute(smf, t.semitones)
-- 
2.43.0


From 742e9bb8973149b575f2939e2eebd05637836a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:30 +0000
Subject: [PATCH 38/52] fix: name split files after the MIDI file, create an
 accessible --out directory and report split errors

---
 commands/disassemble.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/commands/disassemble.go b/commands/disassemble.go
index 8598538..e811d57 100644
--- a/commands/disassemble.go
+++ b/commands/disassemble.go
@@ -82,10 +82,8 @@ func (p disassemble) Execute(flagset *flag.FlagSet) error {
 		}
 	}
 
-	if p.split && p.out == "" {
+	if p.split {
 		return p.separate(op, smf, filename)
-	} else if p.split && p.out != "" {
-		return p.separate(op, smf, p.out)
 	} else {
 		return p.write(op, smf)
 	}
@@ -115,7 +113,7 @@ func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string)
 
 	if p.out != "" {
 		dir = p.out
-		err := os.MkdirAll(dir, os.ModeDir)
+		err := os.MkdirAll(dir, 0770)
 		if err != nil {
 			return err
 		}
@@ -129,10 +127,13 @@ func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string)
 	}
 
 	if err = op.Print(smf.MThd, "MThd", w); err != nil {
-		fmt.Printf("Error %v extracting MThd information\n", err)
+		w.Close()
+		return fmt.Errorf("error extracting MThd information (%v)", err)
 	}
 
-	w.Close()
+	if err := w.Close(); err != nil {
+		return err
+	}
 
 	// Print tracks
 	for _, mtrk := range smf.Tracks {
@@ -143,10 +144,13 @@ func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string)
 		}
 
 		if err = op.Print(mtrk, "MTrk", w); err != nil {
-			fmt.Printf("Error %v extracting MTrk%d information\n", mtrk.TrackNumber, err)
+			w.Close()
+			return fmt.Errorf("error extracting MTrk%d information (%v)", mtrk.TrackNumber, err)
 		}
 
-		w.Close()
+		if err := w.Close(); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 835d6483b1f8b096b19f9b5cd892055dfc39630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:52 +0000
Subject: [PATCH 39/52] fix: format hex bytes in linear time (a 64KB SysEx
 message took minutes to disassemble)

---
 midi/lib/hex.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi/lib/hex.go b/midi/lib/hex.go
index 09119cc..d3bbda6 100644
--- a/midi/lib/hex.go
+++ b/midi/lib/hex.go
@@ -20,12 +20,12 @@ func ParseHex(s string) (Hex, error) {
 }
 
 func (bytes Hex) String() string {
-	s := ""
+	var s strings.Builder
 	for _, b := range bytes {
-		s += fmt.Sprintf("%02X ", b)
+		fmt.Fprintf(&s, "%02X ", b)
 	}
 
-	return strings.TrimSpace(s)
+	return strings.TrimSpace(s.String())
 }
 
 func (h Hex) MarshalBinary() ([]byte, error) {
-- 
2.43.0


From 36d5a4f4fa6b3322faf6b2a11fb91d14c2f9b02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:00 +0000
Subject: [PATCH 40/52] fix: reject JSON SysEx and SequencerSpecific events
 without a valid manufacturer ID

---
 midi/events/meta/sequencer_specific.go | 2 ++
 midi/events/sysex/message.go           | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/midi/events/meta/sequencer_specific.go b/midi/events/meta/sequencer_specific.go
index 7163aa8..ebb296c 100644
--- a/midi/events/meta/sequencer_specific.go
+++ b/midi/events/meta/sequencer_specific.go
@@ -162,6 +162,8 @@ func (e *SequencerSpecificEvent) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagSequencerSpecificEvent) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if id := t.Manufacturer.ID; !(len(id) == 1 && id[0] != 0x00) && !(len(id) == 3 && id[0] == 0x00) {
+		return fmt.Errorf("invalid %v event (%v): missing or invalid manufacturer ID", lib.TagSequencerSpecificEvent, string(bytes))
 	} else {
 		e.tick = 0
 		e.delta = t.Delta
diff --git a/midi/events/sysex/message.go b/midi/events/sysex/message.go
index 60efabf..736e8a8 100644
--- a/midi/events/sysex/message.go
+++ b/midi/events/sysex/message.go
@@ -177,6 +177,8 @@ func (e *SysExMessage) UnmarshalJSON(bytes []byte) error {
 		return err
 	} else if !equal(t.Tag, lib.TagSysExMessage) {
 		return fmt.Errorf("invalid %v event (%v)", e.tag, string(bytes))
+	} else if N := len(t.Manufacturer.ID); N != 1 && N != 3 {
+		return fmt.Errorf("invalid %v event (%v): missing or invalid manufacturer ID", lib.TagSysExMessage, string(bytes))
 	} else {
 		e.tick = 0
 		e.delta = t.Delta
-- 
2.43.0


From a6c34a690053133baf74a21d6e78dbf74bb21717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:36 +0000
Subject: [PATCH 41/52] fix: do not truncate the --out file when notes cannot
 be extracted

---
 commands/notes.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/commands/notes.go b/commands/notes.go
index c53d3c1..f72b371 100644
--- a/commands/notes.go
+++ b/commands/notes.go
@@ -1,8 +1,10 @@
 package commands
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
+	"io"
 	"os"
 
 	"github.com/transcriptaze/midiasm/midi"
@@ -66,18 +68,19 @@ func (n notes) Execute(flagset *flag.FlagSet) error {
 }
 
 func (n notes) execute(smf *midi.SMF) error {
-	w := os.Stdout
-	err := error(nil)
-
-	if n.out != "" {
-		w, err = os.Create(n.out)
-		if err != nil {
-			return err
-		}
+	if n.out == "" {
+		return n.extract(smf, os.Stdout)
+	}
 
-		defer w.Close()
+	var b bytes.Buffer
+	if err := n.extract(smf, &b); err != nil {
+		return err
 	}
 
+	return os.WriteFile(n.out, b.Bytes(), 0666)
+}
+
+func (n notes) extract(smf *midi.SMF, w io.Writer) error {
 	op := impl.Notes{
 		JSON:      n.json,
 		Transpose: n.transpose,
-- 
2.43.0


From 318e7cdfa9f2e478c2e5b2c1efd58d22391caf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:38 +0000
Subject: [PATCH 42/52] fix: do not truncate the --out file for an invalid TSV
 delimiter

---
 commands/tsv.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/commands/tsv.go b/commands/tsv.go
index 70706c2..9e19213 100644
--- a/commands/tsv.go
+++ b/commands/tsv.go
@@ -70,19 +70,23 @@ func (t tsv) Execute(flagset *flag.FlagSet) error {
 	} else {
 		if t.out == "" {
 			return writeTable(records, os.Stdout)
-		} else if f, err := os.Create(t.out); err != nil {
-			return err
+		}
+
+		var b bytes.Buffer
+
+		if t.tabular {
+			err = writeTable(records, &b)
+		} else if t.delimiter == "" || t.delimiter == `\t` {
+			err = writeTSV(header, records, '\t', &b)
 		} else {
-			defer f.Close()
-
-			if t.tabular {
-				return writeTable(records, f)
-			} else if t.delimiter == "" || t.delimiter == `\t` {
-				return writeTSV(header, records, '\t', f)
-			} else {
-				return writeTSV(header, records, []rune(t.delimiter)[0], f)
-			}
+			err = writeTSV(header, records, []rune(t.delimiter)[0], &b)
 		}
+
+		if err != nil {
+			return err
+		}
+
+		return os.WriteFile(t.out, b.Bytes(), 0666)
 	}
 }
 
-- 
2.43.0


From e9c0f5bb0bd3743d102960e331ac654d61924cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:55 +0000
Subject: [PATCH 43/52] fix: do not truncate the disassembly output file(s) if
 a template cannot be executed

---
 commands/disassemble.go | 64 ++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 36 deletions(-)

diff --git a/commands/disassemble.go b/commands/disassemble.go
index e811d57..fd5673f 100644
--- a/commands/disassemble.go
+++ b/commands/disassemble.go
@@ -1,6 +1,7 @@
 package commands
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
 	"os"
@@ -90,23 +91,34 @@ func (p disassemble) Execute(flagset *flag.FlagSet) error {
 }
 
 func (p disassemble) write(op *impl.Disassemble, smf *midi.SMF) error {
-	out := os.Stdout
-
-	if p.out != "" {
-		w, err := os.Create(p.out)
-		if err != nil {
-			return err
-		}
-
-		defer w.Close()
+	if p.out == "" {
+		return op.Print(smf, "document", os.Stdout)
+	}
 
-		out = w
+	var b bytes.Buffer
+	if err := op.Print(smf, "document", &b); err != nil {
+		return err
 	}
 
-	return op.Print(smf, "document", out)
+	return os.WriteFile(p.out, b.Bytes(), 0666)
 }
 
 func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string) error {
+	// Print MThd and tracks
+	var mthd bytes.Buffer
+
+	mtrks := make([]bytes.Buffer, len(smf.Tracks))
+
+	if err := op.Print(smf.MThd, "MThd", &mthd); err != nil {
+		return fmt.Errorf("error extracting MThd information (%v)", err)
+	}
+
+	for i, mtrk := range smf.Tracks {
+		if err := op.Print(mtrk, "MTrk", &mtrks[i]); err != nil {
+			return fmt.Errorf("error extracting MTrk%d information (%v)", mtrk.TrackNumber, err)
+		}
+	}
+
 	// Get base filename and Create out directory
 	base := strings.TrimSuffix(path.Base(file), path.Ext(file))
 	dir := path.Dir(file)
@@ -119,36 +131,16 @@ func (p disassemble) separate(op *impl.Disassemble, smf *midi.SMF, file string)
 		}
 	}
 
-	// Print MThd
+	// Write MThd
 	filename := fmt.Sprintf("%s.MThd", base)
-	w, err := os.Create(path.Join(dir, filename))
-	if err != nil {
-		return err
-	}
-
-	if err = op.Print(smf.MThd, "MThd", w); err != nil {
-		w.Close()
-		return fmt.Errorf("error extracting MThd information (%v)", err)
-	}
-
-	if err := w.Close(); err != nil {
+	if err := os.WriteFile(path.Join(dir, filename), mthd.Bytes(), 0666); err != nil {
 		return err
 	}
 
-	// Print tracks
-	for _, mtrk := range smf.Tracks {
+	// Write tracks
+	for i, mtrk := range smf.Tracks {
 		filename := fmt.Sprintf("%s-%d.MTrk", base, mtrk.TrackNumber)
-		w, err := os.Create(path.Join(dir, filename))
-		if err != nil {
-			return err
-		}
-
-		if err = op.Print(mtrk, "MTrk", w); err != nil {
-			w.Close()
-			return fmt.Errorf("error extracting MTrk%d information (%v)", mtrk.TrackNumber, err)
-		}
-
-		if err := w.Close(); err != nil {
+		if err := os.WriteFile(path.Join(dir, filename), mtrks[i].Bytes(), 0666); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From cf02c838c1c7a9b7670be1ab8fe4c54790f7a0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:14 +0000
Subject: [PATCH 44/52] fix: do not truncate the --out file when the click
 track cannot be extracted

---
 commands/click.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/commands/click.go b/commands/click.go
index 62b3bf7..abb0ae8 100644
--- a/commands/click.go
+++ b/commands/click.go
@@ -1,6 +1,7 @@
 package commands
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
 	"os"
@@ -62,18 +63,18 @@ func (c click) Execute(flagset *flag.FlagSet) error {
 }
 
 func (c click) execute(smf *midi.SMF) error {
-	var w = os.Stdout
-	var err error
+	if c.out == "" {
+		track := impl.ClickTrack{os.Stdout}
 
-	if c.out != "" {
-		if w, err = os.Create(c.out); err != nil {
-			return err
-		}
-
-		defer w.Close()
+		return track.Execute(smf)
 	}
 
-	track := impl.ClickTrack{w}
+	var b bytes.Buffer
+
+	track := impl.ClickTrack{&b}
+	if err := track.Execute(smf); err != nil {
+		return err
+	}
 
-	return track.Execute(smf)
+	return os.WriteFile(c.out, b.Bytes(), 0666)
 }
-- 
2.43.0


From a0120937e81eca68bd329674d7b3ec29545b5e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:25 +0000
Subject: [PATCH 45/52] fix: return an error for an EndOfTrack event without a
 length when unmarshalling a single event

---
 midi/events/meta/end_of_track.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/midi/events/meta/end_of_track.go b/midi/events/meta/end_of_track.go
index 829b771..b17d5a1 100644
--- a/midi/events/meta/end_of_track.go
+++ b/midi/events/meta/end_of_track.go
@@ -48,6 +48,8 @@ func (e *EndOfTrack) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v status (%02X)", lib.TagEndOfTrack, remaining[0])
 	} else if !equals(remaining[1], lib.TypeEndOfTrack) {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagEndOfTrack, remaining[1])
+	} else if _, err := vlf(remaining[2:]); err != nil {
+		return err
 	} else {
 		*e = MakeEndOfTrack(0, delta, bytes...)
 	}
-- 
2.43.0


From 51deced848cb0afc5dc94661208b89c7f5c0b780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:31 +0000
Subject: [PATCH 46/52] fix: accept a SequencerSpecific event with only a
 manufacturer ID when unmarshalling a single event

---
 midi/events/meta/sequencer_specific.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/events/meta/sequencer_specific.go b/midi/events/meta/sequencer_specific.go
index ebb296c..fa43cb2 100644
--- a/midi/events/meta/sequencer_specific.go
+++ b/midi/events/meta/sequencer_specific.go
@@ -75,7 +75,7 @@ func (e *SequencerSpecificEvent) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid %v event type (%02X)", lib.TagSequencerSpecificEvent, remaining[1])
 	} else if data, err := vlf(remaining[2:]); err != nil {
 		return err
-	} else if len(data) < 2 || (data[0] == 0x00 && len(data) < 3) {
+	} else if len(data) < 1 || (data[0] == 0x00 && len(data) < 3) {
 		return fmt.Errorf("Invalid SequencerSpecificEvent channel data")
 	} else {
 		id := data[0:1]
-- 
2.43.0


From 29e66ba7ee960be56f8245688ea4872a60a2b53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:22 +0000
Subject: [PATCH 47/52] fix: reject data bytes above 127 when unmarshalling a
 single MIDI event

---
 midi/events/midi/controller.go     | 4 ++++
 midi/events/midi/note_off.go       | 2 ++
 midi/events/midi/note_on.go        | 2 ++
 midi/events/midi/pitch_bend.go     | 2 ++
 midi/events/midi/program_change.go | 2 ++
 5 files changed, 12 insertions(+)

diff --git a/midi/events/midi/controller.go b/midi/events/midi/controller.go
index a7db6ca..b00692f 100644
--- a/midi/events/midi/controller.go
+++ b/midi/events/midi/controller.go
@@ -77,6 +77,10 @@ func (e *Controller) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 2 {
 		return fmt.Errorf("Invalid Controller data")
+	} else if data[0] > 127 {
+		return fmt.Errorf("Invalid Controller controller (%v)", data[0])
+	} else if data[1] > 127 {
+		return fmt.Errorf("Invalid Controller value (%v)", data[1])
 	} else {
 		controller := lib.LookupController(data[0])
 		value := data[1]
diff --git a/midi/events/midi/note_off.go b/midi/events/midi/note_off.go
index 2856de4..d54aaeb 100644
--- a/midi/events/midi/note_off.go
+++ b/midi/events/midi/note_off.go
@@ -139,6 +139,8 @@ func (e *NoteOff) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 2 {
 		return fmt.Errorf("Invalid NoteOff data")
+	} else if data[0] > 127 {
+		return fmt.Errorf("Invalid NoteOff note (%v)", data[0])
 	} else if velocity := data[1]; velocity > 127 {
 		return fmt.Errorf("Invalid NoteOff velocity (%v)", velocity)
 	} else {
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index 1c20358..f677247 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -89,6 +89,8 @@ func (e *NoteOn) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 2 {
 		return fmt.Errorf("Invalid NoteOn data")
+	} else if data[0] > 127 {
+		return fmt.Errorf("Invalid NoteOn note (%v)", data[0])
 	} else if velocity := data[1]; velocity > 127 {
 		return fmt.Errorf("Invalid NoteOn velocity (%v)", velocity)
 	} else {
diff --git a/midi/events/midi/pitch_bend.go b/midi/events/midi/pitch_bend.go
index 50c02ab..9184e94 100644
--- a/midi/events/midi/pitch_bend.go
+++ b/midi/events/midi/pitch_bend.go
@@ -78,6 +78,8 @@ func (e *PitchBend) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("Invalid PitchBend data")
 	} else if pressure := data[0]; pressure > 127 {
 		return fmt.Errorf("InvalidPitchBend pressure (%v)", pressure)
+	} else if data[1] > 127 {
+		return fmt.Errorf("Invalid PitchBend bend (%v)", data[1])
 	} else {
 		bend := uint16(data[0])
 		bend <<= 7
diff --git a/midi/events/midi/program_change.go b/midi/events/midi/program_change.go
index 1e3666f..d38641c 100644
--- a/midi/events/midi/program_change.go
+++ b/midi/events/midi/program_change.go
@@ -71,6 +71,8 @@ func (e *ProgramChange) UnmarshalBinary(bytes []byte) error {
 		return fmt.Errorf("invalid channel (%v)", channel)
 	} else if data := remaining[1:]; len(data) < 1 {
 		return fmt.Errorf("Invalid ProgramChange data")
+	} else if data[0] > 127 {
+		return fmt.Errorf("Invalid ProgramChange program (%v)", data[0])
 	} else {
 		bank := uint16(0)
 		program := data[0]
-- 
2.43.0


From 759758bf1ead2bbb2ac60e610b9edf4c394db1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:45 +0000
Subject: [PATCH 48/52] fix: limit notes to 127 for extreme transpositions
 (note + steps overflowed and wrapped to note 0)

---
 midi/events/midi/note_off.go | 4 ++--
 midi/events/midi/note_on.go  | 4 ++--
 ops/notes/notes.go           | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/midi/events/midi/note_off.go b/midi/events/midi/note_off.go
index d54aaeb..7ef64ab 100644
--- a/midi/events/midi/note_off.go
+++ b/midi/events/midi/note_off.go
@@ -72,10 +72,10 @@ func (e NoteOff) Transpose(ctx *context.Context, steps int) NoteOff {
 	note := e.Note.Value
 
 	switch {
-	case v < 0:
+	case steps < 0 && v < 0:
 		note = 0
 
-	case v > 127:
+	case steps > 127 || v > 127:
 		note = 127
 
 	default:
diff --git a/midi/events/midi/note_on.go b/midi/events/midi/note_on.go
index f677247..9f924a4 100644
--- a/midi/events/midi/note_on.go
+++ b/midi/events/midi/note_on.go
@@ -184,10 +184,10 @@ func (e NoteOn) Transpose(ctx *context.Context, steps int) NoteOn {
 	note := e.Note.Value
 
 	switch {
-	case v < 0:
+	case steps < 0 && v < 0:
 		note = 0
 
-	case v > 127:
+	case steps > 127 || v > 127:
 		note = 127
 
 	default:
diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index 11e278f..fc3a5a1 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -288,9 +288,9 @@ func buildNoteList(events []event, transposition int) ([]Note, error) {
 func transpose(note uint8, transpose int) uint8 {
 	v := int(note) + transpose
 
-	if v < 0 {
+	if transpose < 0 && v < 0 {
 		return 0
-	} else if v > 127 {
+	} else if transpose > 127 || v > 127 {
 		return 127
 	} else {
 		return uint8(v)
-- 
2.43.0


From 86c6d3bfeb47876201af15342dfe348f8d8ead45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:46 +0000
Subject: [PATCH 49/52] fix: carry the remainder of each note timestamp
 (fractions of a nanosecond added up to milliseconds in long tracks)

---
 ops/notes/notes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ops/notes/notes.go b/ops/notes/notes.go
index fc3a5a1..549fd70 100644
--- a/ops/notes/notes.go
+++ b/ops/notes/notes.go
@@ -127,10 +127,13 @@ func buildTrackEvents(track midi.MTrk, tempoMap []events.Event, ppqn uint16) ([]
 	tempo := uint64(500000)
 	at := time.Duration(0)
 	last := uint64(0)
+	remainder := uint64(0)
 
 	for i, e := range list {
 		// beat = float64(tick) / float64(ppqn)
-		delta := time.Duration(1000 * (e.tick - last) * tempo / uint64(ppqn))
+		dividend := 1000*(e.tick-last)*tempo + remainder
+		delta := time.Duration(dividend / uint64(ppqn))
+		remainder = dividend % uint64(ppqn)
 		at += delta
 		last = e.tick
 
-- 
2.43.0


From 36f73ac572bc0bb7934c1d11b224be3f3cf89788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:56 +0000
Subject: [PATCH 50/52] fix: use the names in manufacturer definitions (loaded
 definitions were replaced by the built in ones, or '<unknown>')

---
 midi/lib/manufacturer.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index fa6fc25..fdeb92c 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -98,10 +98,12 @@ func FindManufacturer(s string) (Manufacturer, error) {
 
 func LoadManufacturers(r io.Reader) (map[string]Manufacturer, error) {
 	conf := struct {
-		Manufacturers []Manufacturer `json:"manufacturers"`
-	}{
-		Manufacturers: []Manufacturer{},
-	}
+		Manufacturers []struct {
+			ID     []uint `json:"id"`
+			Region string `json:"region"`
+			Name   string `json:"name"`
+		} `json:"manufacturers"`
+	}{}
 
 	bytes, err := ioutil.ReadAll(r)
 	if err != nil {
@@ -115,7 +117,16 @@ func LoadManufacturers(r io.Reader) (map[string]Manufacturer, error) {
 
 	list := map[string]Manufacturer{}
 	for _, m := range conf.Manufacturers {
-		k, v, err := makeManufacturer(m.ID, m.Region, m.Name)
+		id := []byte{}
+		for _, b := range m.ID {
+			if b > 255 {
+				return nil, fmt.Errorf("Invalid manufacturer ID: %v", m.ID)
+			}
+
+			id = append(id, byte(b))
+		}
+
+		k, v, err := makeManufacturer(id, m.Region, m.Name)
 		if err != nil {
 			return nil, err
 		}
@@ -133,6 +144,10 @@ func makeManufacturer(ID []byte, region string, name string) (string, *Manufactu
 		return "", nil, fmt.Errorf("Invalid manufacturer ID: %v", ID)
 	}
 
+	if (ID[0] == 0x00) != (len(ID) == 3) {
+		return "", nil, fmt.Errorf("Invalid manufacturer ID: %v", ID)
+	}
+
 	if strings.Trim(name, " ") == "" {
 		return "", nil, fmt.Errorf("Invalid manufacturer name: %s", name)
 	}
-- 
2.43.0


From b8db3b829d3d72e941a3b080a2ce5793a715b3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:42 +0000
Subject: [PATCH 51/52] fix: pad the columns of the TSV table for fields longer
 than the maximum width of fmt

---
 commands/tsv.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/commands/tsv.go b/commands/tsv.go
index 9e19213..73483c5 100644
--- a/commands/tsv.go
+++ b/commands/tsv.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"os"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/transcriptaze/midiasm/encoding/midi"
 	"github.com/transcriptaze/midiasm/midi"
@@ -179,15 +180,13 @@ func writeTable(records [][]string, w io.Writer) error {
 		}
 	}
 
-	formats := make([]string, len(widths))
-	for i, w := range widths {
-		formats[i] = fmt.Sprintf("%%-%vv", w)
-	}
-
 	for _, record := range records {
 		row := []string{}
 		for i, f := range record {
-			row = append(row, fmt.Sprintf(formats[i], f))
+			// ... fmt limits the width of a field
+			padding := strings.Repeat(" ", widths[i]-utf8.RuneCountInString(f))
+
+			row = append(row, f+padding)
 		}
 
 		if _, err := fmt.Fprintf(w, "%v\n", strings.Join(row, "  ")); err != nil {
-- 
2.43.0


From a336a4bb1499b3beee5a3ace51c5b8a53e60ea05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:00 +0000
Subject: [PATCH 52/52] fix: a three byte manufacturer ID that does not start
 with 00 is not the known manufacturer with the same last two bytes

---
 midi/lib/manufacturer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi/lib/manufacturer.go b/midi/lib/manufacturer.go
index fdeb92c..880dd56 100644
--- a/midi/lib/manufacturer.go
+++ b/midi/lib/manufacturer.go
@@ -78,7 +78,7 @@ func LookupManufacturer(id []byte) Manufacturer {
 
 	case 3:
 		key := fmt.Sprintf("%02X%02X", id[1], id[2])
-		if m, ok := manufacturers[key]; ok {
+		if m, ok := manufacturers[key]; ok && id[0] == 0x00 {
 			return m
 		}
 	}
-- 
2.43.0

