From 06d4c455a33ca09f6975a2a2dc57d6a5181d39fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 01/39] fix: write audio_count in its 4 bits when encoding
 audio_descriptor

The count was written as 8 bits, leaving the writer misaligned for every
following field and the descriptor corrupt.
---
 pkg/scte35/audio_descriptor.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/scte35/audio_descriptor.go b/pkg/scte35/audio_descriptor.go
index 4ad6c18..78df1e3 100644
--- a/pkg/scte35/audio_descriptor.go
+++ b/pkg/scte35/audio_descriptor.go
@@ -81,7 +81,7 @@ func (sd *AudioDescriptor) encode() ([]byte, error) {
 	iow.PutUint32(8, AudioDescriptorTag)
 	iow.PutUint32(8, uint32(length))
 	iow.PutUint32(32, CUEIdentifier)
-	iow.PutUint32(8, uint32(len(sd.AudioChannels)))
+	iow.PutUint32(4, uint32(len(sd.AudioChannels)))
 	iow.PutUint32(4, Reserved)
 	for _, ad := range sd.AudioChannels {
 		iow.PutUint32(8, ad.ComponentTag)
@@ -90,7 +90,9 @@ func (sd *AudioDescriptor) encode() ([]byte, error) {
 		iow.PutUint32(4, ad.NumChannels)
 		iow.PutBit(ad.FullSrvcAudio)
 	}
-	return buf, nil
+
+	err := iow.Flush()
+	return buf, err
 }
 
 // descriptorLength returns the descriptor_length
-- 
2.43.0


From 36f08adf568de9ce438e27ef0ee3f2c199b0d4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 02/39] fix: decode cancelled splice_insert

unique_program_id, avail_num and avails_expected are only present when
splice_event_cancel_indicator is 0 (as encode already assumes).
---
 pkg/scte35/splice_insert.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/scte35/splice_insert.go b/pkg/scte35/splice_insert.go
index 30af225..b101c2d 100644
--- a/pkg/scte35/splice_insert.go
+++ b/pkg/scte35/splice_insert.go
@@ -162,10 +162,10 @@ func (cmd *SpliceInsert) decode(b []byte) error {
 			r.Skip(6) // reserved
 			cmd.BreakDuration.Duration = r.Uint64(33)
 		}
+		cmd.UniqueProgramID = r.Uint32(16)
+		cmd.AvailNum = r.Uint32(8)
+		cmd.AvailsExpected = r.Uint32(8)
 	}
-	cmd.UniqueProgramID = r.Uint32(16)
-	cmd.AvailNum = r.Uint32(8)
-	cmd.AvailsExpected = r.Uint32(8)
 
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("splice_insert: %w", err)
-- 
2.43.0


From 16f1527b1eddce29287320a9d0a9ec64e6bc5c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 03/39] fix: encode and decode cancelled splice_schedule events

unique_program_id, avail_num and avails_expected are only present when
splice_event_cancel_indicator is 0 (as length already assumes).
---
 pkg/scte35/splice_schedule.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/scte35/splice_schedule.go b/pkg/scte35/splice_schedule.go
index ef47b7a..487a34a 100644
--- a/pkg/scte35/splice_schedule.go
+++ b/pkg/scte35/splice_schedule.go
@@ -81,10 +81,10 @@ func (cmd *SpliceSchedule) decode(b []byte) error {
 				r.Skip(6) // reserved
 				e.BreakDuration.Duration = r.Uint64(33)
 			}
+			e.UniqueProgramID = r.Uint32(16)
+			e.AvailNum = r.Uint32(8)
+			e.AvailsExpected = r.Uint32(8)
 		}
-		e.UniqueProgramID = r.Uint32(16)
-		e.AvailNum = r.Uint32(8)
-		e.AvailsExpected = r.Uint32(8)
 		cmd.Events[i] = e
 	}
 
@@ -124,10 +124,10 @@ func (cmd *SpliceSchedule) encode() ([]byte, error) {
 				iow.PutUint32(6, Reserved)
 				iow.PutUint64(33, e.BreakDuration.Duration)
 			}
+			iow.PutUint32(16, e.UniqueProgramID)
+			iow.PutUint32(8, e.AvailNum)
+			iow.PutUint32(8, e.AvailsExpected)
 		}
-		iow.PutUint32(16, e.UniqueProgramID)
-		iow.PutUint32(8, e.AvailNum)
-		iow.PutUint32(8, e.AvailsExpected)
 	}
 
 	err := iow.Flush()
-- 
2.43.0


From 4dcf410840969cab330b054b1c070d4adf1f3b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 04/39] fix: keep private_command when unmarshalling XML

---
 pkg/scte35/splice_info_section.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index a392c95..135244d 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -436,6 +436,9 @@ func (i *iSIS) SpliceCommand() SpliceCommand {
 	if i.BandwidthReservation != nil {
 		return i.BandwidthReservation
 	}
+	if i.PrivateCommand != nil {
+		return i.PrivateCommand
+	}
 
 	// no valid splice_command?
 	if i.SpliceCommandRaw == nil {
-- 
2.43.0


From 18c195ee6d581e7e73885d0ef75df574187b2d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 05/39] fix: include E_CRC_32 in the CRC_32 of encrypted
 sections

E_CRC_32 was still in the writer's cache when CRC_32 was calculated over the
output buffer, so every encrypted section was emitted with an invalid CRC_32.
---
 pkg/scte35/splice_info_section.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 135244d..d181c50 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -212,6 +212,9 @@ func (sis *SpliceInfoSection) Encode() ([]byte, error) {
 	// Encoding encrypted signals is untested.
 	if sis.EncryptedPacket.EncryptionAlgorithm != EncryptionAlgorithmNone {
 		iow.PutUint32(32, calculateCRC32(buf[:iow.Index()/8])) // E_CRC_32
+		if err := iow.Flush(); err != nil {
+			return buf, err
+		}
 	}
 
 	// Re-calculate CRC_32 to ensure correctness
-- 
2.43.0


From 2e626398d6356beb73c1851e59821c76460be4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 06/39] fix: report bytes left in splice_null and
 bandwidth_reservation as underflow

ErrBufferUnderflow is the documented error for input which is not fully
consumed, and the one expected for legacy signals whose
splice_command_length is 0xFFF, which could not be decoded at all.
---
 pkg/scte35/bandwidth_reservation.go | 2 +-
 pkg/scte35/splice_null.go           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/scte35/bandwidth_reservation.go b/pkg/scte35/bandwidth_reservation.go
index c6607f7..c14c258 100644
--- a/pkg/scte35/bandwidth_reservation.go
+++ b/pkg/scte35/bandwidth_reservation.go
@@ -52,7 +52,7 @@ func (cmd *BandwidthReservation) Type() uint32 {
 // decode a binary bandwidth_reservation.
 func (cmd *BandwidthReservation) decode(b []byte) error {
 	if len(b) > 0 {
-		return fmt.Errorf("bandwidth_reservation: %w", ErrBufferOverflow)
+		return fmt.Errorf("bandwidth_reservation: %w", ErrBufferUnderflow)
 	}
 	return nil
 }
diff --git a/pkg/scte35/splice_null.go b/pkg/scte35/splice_null.go
index 6ac71cf..7edf6af 100644
--- a/pkg/scte35/splice_null.go
+++ b/pkg/scte35/splice_null.go
@@ -46,7 +46,7 @@ func (cmd *SpliceNull) Type() uint32 {
 // decode a binary splice_null.
 func (cmd *SpliceNull) decode(b []byte) error {
 	if len(b) > 0 {
-		return fmt.Errorf("splice_null: %w", ErrBufferOverflow)
+		return fmt.Errorf("splice_null: %w", ErrBufferUnderflow)
 	}
 	return nil
 }
-- 
2.43.0


From 8590289724e4d35d209aa9c4a09f8d0d7eb276c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 07/39] fix: convert between ticks and durations exactly

float64 rounding made TicksToDuration return one nanosecond less for many
values (eg, 185616 ticks), and DurationToTicks one tick more for others.
---
 pkg/scte35/scte35.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index c8fab99..f16e42b 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -23,7 +23,6 @@ import (
 	"encoding/hex"
 	"errors"
 	"log"
-	"math"
 	"strings"
 	"time"
 
@@ -85,13 +84,16 @@ func DecodeHex(s string) (*SpliceInfoSection, error) {
 
 // DurationToTicks converts a duration to 90MhZ ticks.
 func DurationToTicks(d time.Duration) uint64 {
-	return uint64(math.Ceil(float64(d) * TicksPerSecond / float64(time.Second)))
+	// integer arithmetic: float64 cannot represent every value exactly. There
+	// are 9 ticks every 100000ns.
+	return uint64(d/100000*9) + uint64((d%100000*9+99999)/100000)
 }
 
 // TicksToDuration converts 90MhZ ticks to a duration.
 func TicksToDuration(ticks uint64) time.Duration {
-	s := float64(ticks) / float64(TicksPerSecond)
-	return time.Duration(int64(s * float64(time.Second)))
+	// integer arithmetic: float64 cannot represent every value exactly. There
+	// are 9 ticks every 100000ns.
+	return time.Duration(ticks/9*100000 + ticks%9*100000/9)
 }
 
 // BreakDuration specifies the duration of the commercial break(s). It may be
-- 
2.43.0


From 42e6a841afe60de90f2884380b02a45793f68078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 08/39] fix: decode utc_splice_time beyond 2106-02-07

Adding the epochs as uint32 wrapped around to 1970.
---
 pkg/scte35/scte35.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index f16e42b..b033c69 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -127,7 +127,7 @@ func (bb *Bytes) UnmarshalText(b []byte) error {
 // from GPS Epoch (01 Jan 1980, 00:00:00 UTC)
 func NewUTCSpliceTime(sec uint32) UTCSpliceTime {
 	return UTCSpliceTime{
-		time.Unix(int64(sec+unixEpochToGPSEpoch), 0),
+		time.Unix(int64(sec)+int64(unixEpochToGPSEpoch), 0),
 	}
 }
 
-- 
2.43.0


From b3ad4dee53d6890fbded5ec1b6009cc27694ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 09/39] fix: do not retain the caller's buffer when decoding

private_bytes, alignment_stuffing and the CRCs were slices of the input, so
reusing the input buffer changed sections decoded earlier, and appending to
one of them overwrote another.
---
 pkg/scte35/private_command.go     | 2 +-
 pkg/scte35/private_descriptor.go  | 2 +-
 pkg/scte35/splice_info_section.go | 8 ++++----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/scte35/private_command.go b/pkg/scte35/private_command.go
index bb62457..98494ed 100644
--- a/pkg/scte35/private_command.go
+++ b/pkg/scte35/private_command.go
@@ -60,7 +60,7 @@ func (cmd *PrivateCommand) decode(b []byte) error {
 	r := iobit.NewReader(b)
 
 	cmd.Identifier = r.Uint32(32)
-	cmd.PrivateBytes = r.LeftBytes()
+	cmd.PrivateBytes = append(Bytes{}, r.LeftBytes()...) // do not retain the caller's buffer
 	// LeftBytes doesnt advance position
 	r.Skip(uint(len(cmd.PrivateBytes) * 8))
 
diff --git a/pkg/scte35/private_descriptor.go b/pkg/scte35/private_descriptor.go
index 7a3985c..1ac6a06 100644
--- a/pkg/scte35/private_descriptor.go
+++ b/pkg/scte35/private_descriptor.go
@@ -54,7 +54,7 @@ func (sd *PrivateDescriptor) decode(b []byte) error {
 	sd.PrivateTag = r.Uint32(8)
 	r.Skip(8) // descriptor_length
 	sd.Identifier = r.Uint32(32)
-	sd.PrivateBytes = r.LeftBytes()
+	sd.PrivateBytes = append(Bytes{}, r.LeftBytes()...) // do not retain the caller's buffer
 	// LeftBytes doesnt advance position
 	r.Skip(uint(len(sd.PrivateBytes) * 8))
 
diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index d181c50..fca7ed7 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -122,16 +122,16 @@ func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
 	if encryptedPacket {
 		stuffedBytes := (int(r.LeftBits()) - 64) / 8
 		if stuffedBytes > 0 {
-			sis.alignmentStuffing = r.Bytes(stuffedBytes)
+			sis.alignmentStuffing = append([]byte{}, r.Bytes(stuffedBytes)...)
 		}
-		sis.ecrc32 = r.Bytes(4)
+		sis.ecrc32 = append([]byte{}, r.Bytes(4)...)
 	} else {
 		stuffedBytes := (int(r.LeftBits()) - 32) / 8
 		if stuffedBytes > 0 {
-			sis.alignmentStuffing = r.Bytes(stuffedBytes)
+			sis.alignmentStuffing = append([]byte{}, r.Bytes(stuffedBytes)...)
 		}
 	}
-	sis.crc32 = r.Bytes(4)
+	sis.crc32 = append([]byte{}, r.Bytes(4)...)
 
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("splice_info_section: %w", err)
-- 
2.43.0


From d6a62792bdb6679b45b4d4cac4c155a71d77c8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 10/39] fix: discard previous contents when decoding into a
 used section

alignment_stuffing, pre-roll and, after a failed decode, descriptors of the
previous signal were left in place and encoded with the new one.
---
 pkg/scte35/splice_info_section.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index fca7ed7..ebee60d 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -80,6 +80,8 @@ func (sis *SpliceInfoSection) Base64() string {
 
 // Decode the contents of a byte array into this SpliceInfoSection.
 func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
+	*sis = SpliceInfoSection{} // discard any previous contents
+
 	r := iobit.NewReader(b)
 	r.Skip(8) // table_id (shall be 0xFC)
 	r.Skip(1) // section_syntax_indicator (shall be 0)
@@ -319,6 +321,7 @@ func (sis *SpliceInfoSection) UnmarshalJSON(b []byte) error {
 		return err
 	}
 
+	*sis = SpliceInfoSection{} // discard any previous contents
 	sis.EncryptedPacket = tmp.EncryptedPacket
 	sis.SpliceCommand = tmp.SpliceCommand()
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
@@ -339,6 +342,8 @@ func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 	if err := d.DecodeElement(&tmp, &start); err != nil {
 		return err
 	}
+
+	*sis = SpliceInfoSection{} // discard any previous contents
 	sis.EncryptedPacket = tmp.EncryptedPacket
 	sis.SpliceCommand = tmp.SpliceCommand()
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
-- 
2.43.0


From a693fd47090af05174d6515d7bab248d826251ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 11/39] fix: keep preRollMilliSeconds in XML and JSON

It was written to XML but not read back, and missing from JSON.
---
 pkg/scte35/splice_info_section.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index ebee60d..fa08b79 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -305,6 +305,9 @@ func (sis *SpliceInfoSection) MarshalJSON() ([]byte, error) {
 	if sis.ProtocolVersion > 0 {
 		m["protocolVersion"] = sis.ProtocolVersion
 	}
+	if sis.PreRollMilliSeconds > 0 {
+		m["preRollMilliSeconds"] = sis.PreRollMilliSeconds
+	}
 	if sis.PTSAdjustment > 0 {
 		m["ptsAdjustment"] = sis.PTSAdjustment
 	}
@@ -330,6 +333,7 @@ func (sis *SpliceInfoSection) UnmarshalJSON(b []byte) error {
 	} else {
 		sis.SAPType = SAPTypeNotSpecified
 	}
+	sis.PreRollMilliSeconds = tmp.PreRollMilliSeconds
 	sis.PTSAdjustment = tmp.PTSAdjustment
 	sis.ProtocolVersion = tmp.ProtocolVersion
 	sis.Tier = tmp.Tier
@@ -352,6 +356,7 @@ func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 	} else {
 		sis.SAPType = SAPTypeNotSpecified
 	}
+	sis.PreRollMilliSeconds = tmp.PreRollMilliSeconds
 	sis.PTSAdjustment = tmp.PTSAdjustment
 	sis.ProtocolVersion = tmp.ProtocolVersion
 	sis.Tier = tmp.Tier
@@ -421,6 +426,7 @@ type iSIS struct {
 	PrivateCommand       *PrivateCommand       `xml:"http://www.scte.org/schemas/35 PrivateCommand" json:"-"`
 	SpliceDescriptors    SpliceDescriptors     `xml:",any" json:"spliceDescriptors"`
 	SAPType              *uint32               `xml:"sapType,attr" json:"sapType,omitempty"`
+	PreRollMilliSeconds  uint32                `xml:"preRollMilliSeconds,attr" json:"preRollMilliSeconds"`
 	PTSAdjustment        uint64                `xml:"ptsAdjustment,attr" json:"ptsAdjustment"`
 	ProtocolVersion      uint32                `xml:"protocolVersion,attr" json:"protocolVersion"`
 	Tier                 uint32                `xml:"tier,attr" json:"tier"`
-- 
2.43.0


From 767bafc85d8393d0687bca98803688693be307f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 12/39] fix: marshal sections without a splice_command to JSON

MarshalJSON panicked on sections without a command, such as the result of
DecodeBase64 for invalid base64 (eg, scte35 decode --out json '!!!').
---
 pkg/scte35/splice_info_section.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index fa08b79..72ca287 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -291,17 +291,21 @@ func (sis *SpliceInfoSection) Table(prefix, indent string) string {
 func (sis *SpliceInfoSection) MarshalJSON() ([]byte, error) {
 	// ensure JSONTypes are all set before marshalling. These are included in
 	// each SpliceCommand.Type() and SpliceDescriptor.Tag() implementation.
-	sis.SpliceCommand.Type()
+	if sis.SpliceCommand != nil {
+		sis.SpliceCommand.Type()
+	}
 	for i := range sis.SpliceDescriptors {
 		sis.SpliceDescriptors[i].Tag()
 	}
 
 	m := map[string]interface{}{
 		"encryptedPacket": sis.EncryptedPacket,
-		"spliceCommand":   sis.SpliceCommand,
 		"sapType":         sis.SAPType,
 		"tier":            sis.Tier,
 	}
+	if sis.SpliceCommand != nil {
+		m["spliceCommand"] = sis.SpliceCommand
+	}
 	if sis.ProtocolVersion > 0 {
 		m["protocolVersion"] = sis.ProtocolVersion
 	}
-- 
2.43.0


From ccd4d6ebfc24a0ec82a481c826f46211ce88dfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 13/39] fix: do not modify commands and descriptors when
 reading them

Type() and Tag() set JSONType, so Encode, Table and MarshalJSON wrote to the
section and concurrent readers of one section raced. Set the type while
marshalling to JSON instead.
---
 pkg/scte35/audio_descriptor.go        | 11 +++++++++--
 pkg/scte35/avail_descriptor.go        | 11 +++++++++--
 pkg/scte35/bandwidth_reservation.go   | 11 +++++++++--
 pkg/scte35/dtmf_descriptor.go         | 11 +++++++++--
 pkg/scte35/private_command.go         | 11 +++++++++--
 pkg/scte35/private_descriptor.go      | 11 +++++++++--
 pkg/scte35/segmentation_descriptor.go | 11 +++++++++--
 pkg/scte35/splice_info_section.go     |  9 ---------
 pkg/scte35/splice_insert.go           | 10 +++++++++-
 pkg/scte35/splice_null.go             | 11 +++++++++--
 pkg/scte35/splice_schedule.go         | 11 +++++++++--
 pkg/scte35/time_descriptor.go         | 11 +++++++++--
 pkg/scte35/time_signal.go             | 11 +++++++++--
 13 files changed, 108 insertions(+), 32 deletions(-)

diff --git a/pkg/scte35/audio_descriptor.go b/pkg/scte35/audio_descriptor.go
index 78df1e3..8ce529b 100644
--- a/pkg/scte35/audio_descriptor.go
+++ b/pkg/scte35/audio_descriptor.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"encoding/json"
 	"encoding/xml"
 	"fmt"
 	"strconv"
@@ -41,11 +42,17 @@ type AudioDescriptor struct {
 
 // Tag returns the splice_descriptor_tag.
 func (sd *AudioDescriptor) Tag() uint32 {
-	// ensure JSONType is set
-	sd.JSONType = AudioDescriptorTag
 	return AudioDescriptorTag
 }
 
+// MarshalJSON encodes this AudioDescriptor to JSON, including its type.
+func (sd *AudioDescriptor) MarshalJSON() ([]byte, error) {
+	type alias AudioDescriptor // without MarshalJSON
+	tmp := alias(*sd)
+	tmp.JSONType = AudioDescriptorTag
+	return json.Marshal(tmp)
+}
+
 // decode updates this SpliceDescriptor from binary.
 func (sd *AudioDescriptor) decode(b []byte) error {
 	r := iobit.NewReader(b)
diff --git a/pkg/scte35/avail_descriptor.go b/pkg/scte35/avail_descriptor.go
index 3d0ea7a..bdc54c9 100644
--- a/pkg/scte35/avail_descriptor.go
+++ b/pkg/scte35/avail_descriptor.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"encoding/json"
 	"encoding/xml"
 	"fmt"
 
@@ -43,11 +44,17 @@ type AvailDescriptor struct {
 
 // Tag returns the splice_descriptor_tag.
 func (sd *AvailDescriptor) Tag() uint32 {
-	// ensure JSONType is set
-	sd.JSONType = AvailDescriptorTag
 	return AvailDescriptorTag
 }
 
+// MarshalJSON encodes this AvailDescriptor to JSON, including its type.
+func (sd *AvailDescriptor) MarshalJSON() ([]byte, error) {
+	type alias AvailDescriptor // without MarshalJSON
+	tmp := alias(*sd)
+	tmp.JSONType = AvailDescriptorTag
+	return json.Marshal(tmp)
+}
+
 // writeTo the given table.
 func (sd *AvailDescriptor) writeTo(t *table) {
 	t.row(0, "avail_descriptor() {", nil)
diff --git a/pkg/scte35/bandwidth_reservation.go b/pkg/scte35/bandwidth_reservation.go
index c14c258..c00e580 100644
--- a/pkg/scte35/bandwidth_reservation.go
+++ b/pkg/scte35/bandwidth_reservation.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"encoding/json"
 	"encoding/xml"
 	"fmt"
 )
@@ -44,11 +45,17 @@ type BandwidthReservation struct {
 
 // Type returns the splice_command_type.
 func (cmd *BandwidthReservation) Type() uint32 {
-	// ensure JSONType is set
-	cmd.JSONType = BandwidthReservationType
 	return BandwidthReservationType
 }
 
+// MarshalJSON encodes this BandwidthReservation to JSON, including its type.
+func (cmd *BandwidthReservation) MarshalJSON() ([]byte, error) {
+	type alias BandwidthReservation // without MarshalJSON
+	tmp := alias(*cmd)
+	tmp.JSONType = BandwidthReservationType
+	return json.Marshal(tmp)
+}
+
 // decode a binary bandwidth_reservation.
 func (cmd *BandwidthReservation) decode(b []byte) error {
 	if len(b) > 0 {
diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index 2183bd8..0a54aae 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"encoding/json"
 	"encoding/xml"
 	"fmt"
 
@@ -53,11 +54,17 @@ func (sd *DTMFDescriptor) writeTo(t *table) {
 
 // Tag returns the splice_descriptor_tag.
 func (sd *DTMFDescriptor) Tag() uint32 {
-	// ensure JSONType is set
-	sd.JSONType = DTMFDescriptorTag
 	return DTMFDescriptorTag
 }
 
+// MarshalJSON encodes this DTMFDescriptor to JSON, including its type.
+func (sd *DTMFDescriptor) MarshalJSON() ([]byte, error) {
+	type alias DTMFDescriptor // without MarshalJSON
+	tmp := alias(*sd)
+	tmp.JSONType = DTMFDescriptorTag
+	return json.Marshal(tmp)
+}
+
 // decode updates this splice_descriptor from binary.
 func (sd *DTMFDescriptor) decode(b []byte) error {
 	r := iobit.NewReader(b)
diff --git a/pkg/scte35/private_command.go b/pkg/scte35/private_command.go
index 98494ed..f9517a4 100644
--- a/pkg/scte35/private_command.go
+++ b/pkg/scte35/private_command.go
@@ -18,6 +18,7 @@ package scte35
 
 import (
 	"encoding/binary"
+	"encoding/json"
 	"encoding/xml"
 	"fmt"
 
@@ -50,11 +51,17 @@ func (cmd *PrivateCommand) IdentifierString() string {
 
 // Type returns the splice_command_type.
 func (cmd *PrivateCommand) Type() uint32 {
-	// ensure JSONType is set
-	cmd.JSONType = PrivateCommandType
 	return PrivateCommandType
 }
 
+// MarshalJSON encodes this PrivateCommand to JSON, including its type.
+func (cmd *PrivateCommand) MarshalJSON() ([]byte, error) {
+	type alias PrivateCommand // without MarshalJSON
+	tmp := alias(*cmd)
+	tmp.JSONType = PrivateCommandType
+	return json.Marshal(tmp)
+}
+
 // decode a binary private_command.
 func (cmd *PrivateCommand) decode(b []byte) error {
 	r := iobit.NewReader(b)
diff --git a/pkg/scte35/private_descriptor.go b/pkg/scte35/private_descriptor.go
index 1ac6a06..75952bd 100644
--- a/pkg/scte35/private_descriptor.go
+++ b/pkg/scte35/private_descriptor.go
@@ -18,6 +18,7 @@ package scte35
 
 import (
 	"encoding/binary"
+	"encoding/json"
 	"encoding/xml"
 	"fmt"
 
@@ -42,11 +43,17 @@ func (sd *PrivateDescriptor) IdentifierString() string {
 
 // Tag returns the splice_descriptor_tag.
 func (sd *PrivateDescriptor) Tag() uint32 {
-	// ensure JSONType is set
-	sd.JSONType = sd.PrivateTag
 	return sd.PrivateTag
 }
 
+// MarshalJSON encodes this PrivateDescriptor to JSON, including its type.
+func (sd *PrivateDescriptor) MarshalJSON() ([]byte, error) {
+	type alias PrivateDescriptor // without MarshalJSON
+	tmp := alias(*sd)
+	tmp.JSONType = sd.PrivateTag
+	return json.Marshal(tmp)
+}
+
 // decode updates this splice_descriptor from binary.
 func (sd *PrivateDescriptor) decode(b []byte) error {
 	r := iobit.NewReader(b)
diff --git a/pkg/scte35/segmentation_descriptor.go b/pkg/scte35/segmentation_descriptor.go
index d4611c0..4ab250e 100644
--- a/pkg/scte35/segmentation_descriptor.go
+++ b/pkg/scte35/segmentation_descriptor.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"encoding/json"
 	"encoding/xml"
 	"fmt"
 	"strconv"
@@ -294,11 +295,17 @@ func (sd *SegmentationDescriptor) Name() string {
 
 // Tag returns the splice_descriptor_tag.
 func (sd *SegmentationDescriptor) Tag() uint32 {
-	// ensure JSONType is set
-	sd.JSONType = SegmentationDescriptorTag
 	return SegmentationDescriptorTag
 }
 
+// MarshalJSON encodes this SegmentationDescriptor to JSON, including its type.
+func (sd *SegmentationDescriptor) MarshalJSON() ([]byte, error) {
+	type alias SegmentationDescriptor // without MarshalJSON
+	tmp := alias(*sd)
+	tmp.JSONType = SegmentationDescriptorTag
+	return json.Marshal(tmp)
+}
+
 // DeliveryNotRestrictedFlag returns the delivery_not_restricted_flag.
 func (sd *SegmentationDescriptor) DeliveryNotRestrictedFlag() bool {
 	return sd.DeliveryRestrictions == nil
diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 72ca287..8dbf59d 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -289,15 +289,6 @@ func (sis *SpliceInfoSection) Table(prefix, indent string) string {
 
 // MarshalJSON encodes a SpliceInfoSection to JSON.
 func (sis *SpliceInfoSection) MarshalJSON() ([]byte, error) {
-	// ensure JSONTypes are all set before marshalling. These are included in
-	// each SpliceCommand.Type() and SpliceDescriptor.Tag() implementation.
-	if sis.SpliceCommand != nil {
-		sis.SpliceCommand.Type()
-	}
-	for i := range sis.SpliceDescriptors {
-		sis.SpliceDescriptors[i].Tag()
-	}
-
 	m := map[string]interface{}{
 		"encryptedPacket": sis.EncryptedPacket,
 		"sapType":         sis.SAPType,
diff --git a/pkg/scte35/splice_insert.go b/pkg/scte35/splice_insert.go
index b101c2d..a41ca57 100644
--- a/pkg/scte35/splice_insert.go
+++ b/pkg/scte35/splice_insert.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"encoding/json"
 	"encoding/xml"
 	"fmt"
 	"strconv"
@@ -64,10 +65,17 @@ func (cmd *SpliceInsert) TimeSpecifiedFlag() bool {
 
 // Type returns the splice_command_type.
 func (cmd *SpliceInsert) Type() uint32 {
-	cmd.JSONType = SpliceInsertType
 	return SpliceInsertType
 }
 
+// MarshalJSON encodes this SpliceInsert to JSON, including its type.
+func (cmd *SpliceInsert) MarshalJSON() ([]byte, error) {
+	type alias SpliceInsert // without MarshalJSON
+	tmp := alias(*cmd)
+	tmp.JSONType = SpliceInsertType
+	return json.Marshal(tmp)
+}
+
 // writeTo the given table.
 func (cmd *SpliceInsert) writeTo(t *table) {
 	t.row(0, "splice_insert() {", nil)
diff --git a/pkg/scte35/splice_null.go b/pkg/scte35/splice_null.go
index 7edf6af..676e4ec 100644
--- a/pkg/scte35/splice_null.go
+++ b/pkg/scte35/splice_null.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"encoding/json"
 	"encoding/xml"
 	"fmt"
 )
@@ -38,11 +39,17 @@ type SpliceNull struct {
 
 // Type returns the splice_command_type.
 func (cmd *SpliceNull) Type() uint32 {
-	// ensure JSONType is set
-	cmd.JSONType = SpliceNullType
 	return SpliceNullType
 }
 
+// MarshalJSON encodes this SpliceNull to JSON, including its type.
+func (cmd *SpliceNull) MarshalJSON() ([]byte, error) {
+	type alias SpliceNull // without MarshalJSON
+	tmp := alias(*cmd)
+	tmp.JSONType = SpliceNullType
+	return json.Marshal(tmp)
+}
+
 // decode a binary splice_null.
 func (cmd *SpliceNull) decode(b []byte) error {
 	if len(b) > 0 {
diff --git a/pkg/scte35/splice_schedule.go b/pkg/scte35/splice_schedule.go
index 487a34a..fbbdbbe 100644
--- a/pkg/scte35/splice_schedule.go
+++ b/pkg/scte35/splice_schedule.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"encoding/json"
 	"encoding/xml"
 	"fmt"
 	"strconv"
@@ -40,11 +41,17 @@ type SpliceSchedule struct {
 
 // Type returns the splice_command_type
 func (cmd *SpliceSchedule) Type() uint32 {
-	// ensure the JSONType is set correctly.
-	cmd.JSONType = SpliceScheduleType
 	return SpliceScheduleType
 }
 
+// MarshalJSON encodes this SpliceSchedule to JSON, including its type.
+func (cmd *SpliceSchedule) MarshalJSON() ([]byte, error) {
+	type alias SpliceSchedule // without MarshalJSON
+	tmp := alias(*cmd)
+	tmp.JSONType = SpliceScheduleType
+	return json.Marshal(tmp)
+}
+
 // decode a binary splice_schedule.
 func (cmd *SpliceSchedule) decode(b []byte) error {
 	r := iobit.NewReader(b)
diff --git a/pkg/scte35/time_descriptor.go b/pkg/scte35/time_descriptor.go
index 3d61885..66f6d24 100644
--- a/pkg/scte35/time_descriptor.go
+++ b/pkg/scte35/time_descriptor.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"encoding/json"
 	"encoding/xml"
 	"fmt"
 
@@ -44,11 +45,17 @@ type TimeDescriptor struct {
 
 // Tag returns the splice_descriptor_tag.
 func (sd *TimeDescriptor) Tag() uint32 {
-	// ensure JSONType is set
-	sd.JSONType = TimeDescriptorTag
 	return TimeDescriptorTag
 }
 
+// MarshalJSON encodes this TimeDescriptor to JSON, including its type.
+func (sd *TimeDescriptor) MarshalJSON() ([]byte, error) {
+	type alias TimeDescriptor // without MarshalJSON
+	tmp := alias(*sd)
+	tmp.JSONType = TimeDescriptorTag
+	return json.Marshal(tmp)
+}
+
 // table returns the tabular description of this TimeDescriptor.
 func (sd *TimeDescriptor) writeTo(t *table) {
 	t.row(0, "time_descriptor() {", nil)
diff --git a/pkg/scte35/time_signal.go b/pkg/scte35/time_signal.go
index 3f60d18..9848e18 100644
--- a/pkg/scte35/time_signal.go
+++ b/pkg/scte35/time_signal.go
@@ -17,6 +17,7 @@
 package scte35
 
 import (
+	"encoding/json"
 	"encoding/xml"
 	"fmt"
 
@@ -53,11 +54,17 @@ type TimeSignal struct {
 
 // Type returns the splice_command_type.
 func (cmd *TimeSignal) Type() uint32 {
-	// ensure JSONType is set
-	cmd.JSONType = TimeSignalType
 	return TimeSignalType
 }
 
+// MarshalJSON encodes this TimeSignal to JSON, including its type.
+func (cmd *TimeSignal) MarshalJSON() ([]byte, error) {
+	type alias TimeSignal // without MarshalJSON
+	tmp := alias(*cmd)
+	tmp.JSONType = TimeSignalType
+	return json.Marshal(tmp)
+}
+
 // decode a binary time_signal
 func (cmd *TimeSignal) decode(b []byte) error {
 	r := iobit.NewReader(b)
-- 
2.43.0


From 80ce796ed25c956b0544a7b8e0cd4be308523952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 14/39] fix: reject null in spliceDescriptors when
 unmarshalling JSON

It was kept as a nil descriptor which every later operation panicked on.
---
 pkg/scte35/splice_descriptor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/scte35/splice_descriptor.go b/pkg/scte35/splice_descriptor.go
index 655d728..09c775c 100644
--- a/pkg/scte35/splice_descriptor.go
+++ b/pkg/scte35/splice_descriptor.go
@@ -94,6 +94,10 @@ func (sds *SpliceDescriptors) UnmarshalJSON(data []byte) error {
 
 	// decode each item
 	for i := range items {
+		if string(items[i]) == "null" {
+			return fmt.Errorf("splice_descriptor[%d] is null", i)
+		}
+
 		sdt := sdtype{Identifier: CUEIdentifier}
 		if err := json.Unmarshal(items[i], &sdt); err != nil {
 			return err
-- 
2.43.0


From 76102d64f126f26691f72ff5d6bd6a45cc27ae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 15/39] fix: do not panic on MPU() UPIDs without format
 identifier

JSON and XML documents may leave it out.
---
 pkg/scte35/segmentation_upid.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 5e26ccc..b4d7a89 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -248,11 +248,19 @@ func (upid *SegmentationUPID) eidrTypeName() string {
 	return ""
 }
 
+// formatIdentifierBytes returns the format identifier as 4 bytes, which are all
+// zero if there is none.
+func (upid *SegmentationUPID) formatIdentifierBytes() []byte {
+	b := make([]byte, 4)
+	if upid.FormatIdentifier != nil {
+		binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
+	}
+	return b
+}
+
 // formatIdentifierString returns the format identifier as a string
 func (upid *SegmentationUPID) formatIdentifierString() string {
-	b := make([]byte, 4)
-	binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
-	return string(b)
+	return string(upid.formatIdentifierBytes())
 }
 
 // valueBytes returns the value as a byte array.
@@ -274,8 +282,7 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 		return b
 	// MPU - custom
 	case SegmentationUPIDTypeMPU:
-		b := make([]byte, 4)
-		binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
+		b := upid.formatIdentifierBytes()
 		v, err := base64.StdEncoding.DecodeString(upid.Value)
 		if err != nil {
 			Logger.Printf("Error parsing UPID value: %s", err)
-- 
2.43.0


From b1b0a654e3dcc2c8e01a313c2e0518f1f192341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 16/39] fix: keep the space around UPID text when encoding

valueBytes trimmed the value (modifying the UPID), so UPIDs starting or ending
with white space bytes were not encoded as they were decoded. Only space in
XML documents, which may be due to indentation, is dropped now.
---
 pkg/scte35/segmentation_upid.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index b4d7a89..4293be5 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -21,6 +21,7 @@ import (
 	"encoding/base64"
 	"encoding/binary"
 	"encoding/hex"
+	"encoding/xml"
 	"fmt"
 	"strconv"
 	"strings"
@@ -139,6 +140,17 @@ type SegmentationUPID struct {
 	Value            string  `xml:",chardata" json:"value"`
 }
 
+// UnmarshalXML decodes a SegmentationUPID from XML, dropping the space around
+// its value.
+func (upid *SegmentationUPID) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	type alias SegmentationUPID // without UnmarshalXML
+	if err := d.DecodeElement((*alias)(upid), &start); err != nil {
+		return err
+	}
+	upid.Value = strings.TrimSpace(upid.Value)
+	return nil
+}
+
 // Name returns the name for the segmentation_upid_type.
 func (upid *SegmentationUPID) Name() string {
 	switch upid.Type {
@@ -265,16 +277,16 @@ func (upid *SegmentationUPID) formatIdentifierString() string {
 
 // valueBytes returns the value as a byte array.
 func (upid *SegmentationUPID) valueBytes() []byte {
-	upid.Value = strings.TrimSpace(upid.Value)
+	value := strings.TrimSpace(upid.Value)
 
 	// this switch should align with the constructor above
 	switch upid.Type {
 	// EIDR - custom
 	case SegmentationUPIDTypeEIDR:
-		return upid.compressEIDR(upid.Value)
+		return upid.compressEIDR(value)
 	// ISAN - base64
 	case SegmentationUPIDTypeISAN, SegmentationUPIDTypeISANDeprecated:
-		b, err := base64.StdEncoding.DecodeString(upid.Value)
+		b, err := base64.StdEncoding.DecodeString(value)
 		if err != nil {
 			Logger.Printf("Error parsing UPID value: %s", err)
 			return b
@@ -283,7 +295,7 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 	// MPU - custom
 	case SegmentationUPIDTypeMPU:
 		b := upid.formatIdentifierBytes()
-		v, err := base64.StdEncoding.DecodeString(upid.Value)
+		v, err := base64.StdEncoding.DecodeString(value)
 		if err != nil {
 			Logger.Printf("Error parsing UPID value: %s", err)
 			return b
@@ -293,7 +305,7 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 	// TI - unsigned int
 	case SegmentationUPIDTypeTI:
 		b := make([]byte, 8)
-		i, err := strconv.ParseUint(strings.TrimSpace(upid.Value), 10, 64)
+		i, err := strconv.ParseUint(value, 10, 64)
 		if err != nil {
 			Logger.Printf("Error parsing UPID value: %s", err)
 			return b
@@ -302,7 +314,8 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 		return b
 	// everything else - plain text
 	default:
-		// encode UTF8 values as Latin1 (reversing the Decode above)
+		// encode UTF8 values as Latin1 (reversing the Decode above). Any
+		// surrounding space is part of the value.
 		b, _ := charmap.ISO8859_1.NewEncoder().Bytes([]byte(upid.Value))
 		return b
 	}
-- 
2.43.0


From 46714e8851f5dcd72fbd1aca459923463cc84c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 17/39] fix: decode binary EIDRs containing the byte 0x2F

A 12 byte EIDR is always binary; one with a '/' byte in it was taken for text.
---
 pkg/scte35/segmentation_upid.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 4293be5..9d048f5 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -323,13 +323,13 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 
 // canonicalEIDR returns a canonical EIDR.
 func canonicalEIDR(b []byte) string {
-	// already canonical
-	if bytes.Contains(b, []byte("/")) {
-		return string(b)
-	}
-
-	// dunno what this is
 	if len(b) != 12 {
+		// already canonical
+		if bytes.Contains(b, []byte("/")) {
+			return string(b)
+		}
+
+		// dunno what this is
 		Logger.Printf("Unexpected eidr value received: %s", b)
 		return ""
 	}
-- 
2.43.0


From 329c647db75ec85c6d4565c2487b81085c5a0b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 18/39] fix: refuse to encode sections without a splice_command

The result was misaligned from splice_command_length on, without an error.
---
 pkg/scte35/splice_info_section.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 8dbf59d..cc96081 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -169,6 +169,10 @@ func (sis *SpliceInfoSection) Duration() time.Duration {
 // Encode returns the binary representation of this SpliceInfoSection as a
 // byte array.
 func (sis *SpliceInfoSection) Encode() ([]byte, error) {
+	if sis.SpliceCommand == nil {
+		return nil, errors.New("splice_info_section: no splice_command")
+	}
+
 	buf := make([]byte, sis.length())
 
 	iow := iobit.NewWriter(buf)
-- 
2.43.0


From 82fa8c41d6c86381c9f47ce1fccf26dd9057ae3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 19/39] fix: refuse to encode what the binary format cannot
 hold

Counts and lengths exceeding their field were silently truncated, as were
iso_codes which are not 3 bytes, and sub-segments were written where they are
not decoded. Return an error rather than a corrupt signal.
---
 pkg/scte35/audio_descriptor.go        |  9 +++++++++
 pkg/scte35/dtmf_descriptor.go         |  4 ++++
 pkg/scte35/segmentation_descriptor.go | 27 +++++++++++++++++++++++++++
 pkg/scte35/splice_info_section.go     | 13 +++++++++++++
 pkg/scte35/splice_insert.go           |  4 ++++
 pkg/scte35/splice_schedule.go         |  9 +++++++++
 6 files changed, 66 insertions(+)

diff --git a/pkg/scte35/audio_descriptor.go b/pkg/scte35/audio_descriptor.go
index 8ce529b..c03301d 100644
--- a/pkg/scte35/audio_descriptor.go
+++ b/pkg/scte35/audio_descriptor.go
@@ -80,6 +80,15 @@ func (sd *AudioDescriptor) decode(b []byte) error {
 
 // encode this SpliceDescriptor to binary.
 func (sd *AudioDescriptor) encode() ([]byte, error) {
+	if n := len(sd.AudioChannels); n > 15 {
+		return nil, fmt.Errorf("audio_descriptor: audio_count %d exceeds 15", n)
+	}
+	for i := range sd.AudioChannels {
+		if n := len(sd.AudioChannels[i].ISOCode); n != 3 {
+			return nil, fmt.Errorf("audio_descriptor: iso_code is %d bytes, not 3", n)
+		}
+	}
+
 	length := sd.length()
 
 	// add 2 bytes to contain splice_descriptor_tag & descriptor_length
diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index 0a54aae..bf5fa7b 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -84,6 +84,10 @@ func (sd *DTMFDescriptor) decode(b []byte) error {
 
 // encode this splice_descriptor to binary.
 func (sd *DTMFDescriptor) encode() ([]byte, error) {
+	if n := len(sd.DTMFChars); n > 7 {
+		return nil, fmt.Errorf("dtmf_descriptor: dtmf_count %d exceeds 7", n)
+	}
+
 	length := sd.length()
 
 	// add 2 bytes to contain splice_descriptor_tag & descriptor_length
diff --git a/pkg/scte35/segmentation_descriptor.go b/pkg/scte35/segmentation_descriptor.go
index 4ab250e..aad130b 100644
--- a/pkg/scte35/segmentation_descriptor.go
+++ b/pkg/scte35/segmentation_descriptor.go
@@ -438,6 +438,15 @@ func (sd *SegmentationDescriptor) decode(b []byte) error {
 
 // encode this splice_descriptor to binary.
 func (sd *SegmentationDescriptor) encode() ([]byte, error) {
+	if !sd.SegmentationEventCancelIndicator {
+		if (sd.SubSegmentNum == nil) != (sd.SubSegmentsExpected == nil) {
+			return nil, fmt.Errorf("segmentation_descriptor: only one of sub_segment_num and sub_segments_expected")
+		}
+		if sd.SubSegmentNum != nil && !sd.subSegmentsPermitted() {
+			return nil, fmt.Errorf("segmentation_descriptor: sub-segments with segmentation_type_id %#02x", sd.SegmentationTypeID)
+		}
+	}
+
 	length := sd.length()
 
 	// add 2 bytes to contain splice_descriptor_tag & descriptor_length
@@ -514,6 +523,24 @@ func (sd *SegmentationDescriptor) encode() ([]byte, error) {
 	return buf, err
 }
 
+// subSegmentsPermitted returns whether sub_segment_num and
+// sub_segments_expected may be present for the segmentation_type_id.
+func (sd *SegmentationDescriptor) subSegmentsPermitted() bool {
+	switch sd.SegmentationTypeID {
+	case SegmentationTypeProviderAdStart,
+		SegmentationTypeDistributorAdStart,
+		SegmentationTypeProviderPOStart,
+		SegmentationTypeDistributorPOStart,
+		SegmentationTypeProviderOverlayPOStart,
+		SegmentationTypeDistributorOverlayPOStart,
+		SegmentationTypeProviderAdBlockStart,
+		SegmentationTypeDistributorAdBlockStart:
+		return true
+	default:
+		return false
+	}
+}
+
 // descriptorLength returns the descriptor_length
 func (sd *SegmentationDescriptor) length() int {
 	length := 32 // identifier
diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index cc96081..25902b2 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -36,6 +36,11 @@ const (
 	// PrivateIndicator is a 1-bit flag that shall be set to 0.
 	PrivateIndicator = false
 
+	// maxSectionLength is the largest section_length.
+	maxSectionLength = 4093
+	// maxDescriptorLength is the largest descriptor_length.
+	maxDescriptorLength = 255
+
 	// SAPType1 indicates closed GOP with no leading pictures.
 	SAPType1 = uint32(0x0)
 	// SAPType2 indicates closed GOP with leading pictures.
@@ -172,6 +177,14 @@ func (sis *SpliceInfoSection) Encode() ([]byte, error) {
 	if sis.SpliceCommand == nil {
 		return nil, errors.New("splice_info_section: no splice_command")
 	}
+	if l := sis.sectionLength(); l > maxSectionLength {
+		return nil, fmt.Errorf("splice_info_section: section_length %d exceeds %d", l, maxSectionLength)
+	}
+	for _, sd := range sis.SpliceDescriptors {
+		if l := sd.length(); l > maxDescriptorLength {
+			return nil, fmt.Errorf("splice_descriptor: descriptor_length %d exceeds %d", l, maxDescriptorLength)
+		}
+	}
 
 	buf := make([]byte, sis.length())
 
diff --git a/pkg/scte35/splice_insert.go b/pkg/scte35/splice_insert.go
index a41ca57..008983e 100644
--- a/pkg/scte35/splice_insert.go
+++ b/pkg/scte35/splice_insert.go
@@ -183,6 +183,10 @@ func (cmd *SpliceInsert) decode(b []byte) error {
 
 // encode this splice_insert to binary.
 func (cmd *SpliceInsert) encode() ([]byte, error) {
+	if n := len(cmd.Components); n > 255 {
+		return nil, fmt.Errorf("splice_insert: component_count %d exceeds 255", n)
+	}
+
 	buf := make([]byte, cmd.length())
 
 	iow := iobit.NewWriter(buf)
diff --git a/pkg/scte35/splice_schedule.go b/pkg/scte35/splice_schedule.go
index fbbdbbe..2f50282 100644
--- a/pkg/scte35/splice_schedule.go
+++ b/pkg/scte35/splice_schedule.go
@@ -103,6 +103,15 @@ func (cmd *SpliceSchedule) decode(b []byte) error {
 
 // encode this splice_schedule to binary.
 func (cmd *SpliceSchedule) encode() ([]byte, error) {
+	if n := len(cmd.Events); n > 255 {
+		return nil, fmt.Errorf("splice_schedule: splice_count %d exceeds 255", n)
+	}
+	for i := range cmd.Events {
+		if n := len(cmd.Events[i].Components); n > 255 {
+			return nil, fmt.Errorf("splice_schedule: component_count %d exceeds 255", n)
+		}
+	}
+
 	buf := make([]byte, cmd.length())
 	iow := iobit.NewWriter(buf)
 
-- 
2.43.0


From 965ad78323a6e835e4c19d51a4040ad2eb080f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 20/39] fix: open the braces of components and events in tables

and indent the rows of an event alike.
---
 pkg/scte35/splice_insert.go   |  2 +-
 pkg/scte35/splice_schedule.go | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/scte35/splice_insert.go b/pkg/scte35/splice_insert.go
index 008983e..127d95f 100644
--- a/pkg/scte35/splice_insert.go
+++ b/pkg/scte35/splice_insert.go
@@ -95,7 +95,7 @@ func (cmd *SpliceInsert) writeTo(t *table) {
 		if !cmd.ProgramSpliceFlag() {
 			t.row(1, "component_count", len(cmd.Components))
 			for i, c := range cmd.Components {
-				t.row(1, "component["+strconv.Itoa(i)+"]", nil)
+				t.row(1, "component["+strconv.Itoa(i)+"] {", nil)
 				t.row(2, "component_tag", c.Tag)
 				if !cmd.SpliceImmediateFlag {
 					t.row(2, "time_specified_flag", c.TimeSpecifiedFlag())
diff --git a/pkg/scte35/splice_schedule.go b/pkg/scte35/splice_schedule.go
index 2f50282..b3eae2e 100644
--- a/pkg/scte35/splice_schedule.go
+++ b/pkg/scte35/splice_schedule.go
@@ -202,7 +202,7 @@ func (cmd *SpliceSchedule) writeTo(t *table) {
 	t.row(0, "splice_schedule() {", nil)
 	t.row(1, "splice_count", strconv.Itoa(len(cmd.Events)))
 	for i, e := range cmd.Events {
-		t.row(1, "event["+strconv.Itoa(i)+"]", nil)
+		t.row(1, "event["+strconv.Itoa(i)+"] {", nil)
 		t.row(2, "splice_event_id", e.SpliceEventID)
 		t.row(2, "splice_event_cancel_indicator", e.SpliceEventCancelIndicator)
 		t.row(2, "event_id_compliance_flag", e.EventIDComplianceFlag)
@@ -215,19 +215,19 @@ func (cmd *SpliceSchedule) writeTo(t *table) {
 			} else {
 				t.row(2, "component_count", len(e.Components))
 				for j, c := range e.Components {
-					t.row(2, "component["+strconv.Itoa(j)+"]", nil)
+					t.row(2, "component["+strconv.Itoa(j)+"] {", nil)
 					t.row(3, "component_tag", c.Tag)
 					t.row(3, "utc_splice_time", c.UTCSpliceTime)
 					t.row(2, "}", nil)
 				}
 			}
 			if e.DurationFlag() {
-				t.row(1, "auto_return", e.BreakDuration.AutoReturn)
-				t.row(1, "duration", e.BreakDuration.Duration)
+				t.row(2, "auto_return", e.BreakDuration.AutoReturn)
+				t.row(2, "duration", e.BreakDuration.Duration)
 			}
-			t.row(1, "unique_program_id", e.UniqueProgramID)
-			t.row(1, "avail_num", e.AvailNum)
-			t.row(1, "avails_expected", e.AvailsExpected)
+			t.row(2, "unique_program_id", e.UniqueProgramID)
+			t.row(2, "avail_num", e.AvailNum)
+			t.row(2, "avails_expected", e.AvailsExpected)
 		}
 		t.row(1, "}", nil)
 	}
-- 
2.43.0


From 5a95422f7faf73f6df18638c7aa231bfb9d1fb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 21/39] fix: show tenths of seconds of the dtmf_descriptor
 preroll in tables

---
 pkg/scte35/dtmf_descriptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index bf5fa7b..c6b322f 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -46,7 +46,7 @@ func (sd *DTMFDescriptor) writeTo(t *table) {
 	t.row(1, "splice_descriptor_tag", fmt.Sprintf("%#02x", DTMFDescriptorTag))
 	t.row(1, "descriptor_length", sd.length())
 	t.row(1, "identifier", fmt.Sprintf("%#08x (%s)", CUEIdentifier, CUEIASCII))
-	t.row(1, "preroll", float32(sd.Preroll/10))
+	t.row(1, "preroll", float32(sd.Preroll)/10)
 	t.row(1, "dtmf_count", len(sd.DTMFChars))
 	t.row(1, "dtmf_chars", sd.DTMFChars)
 	t.row(0, "}", nil)
-- 
2.43.0


From 801d7b6f36bc62770a1dea30ec6b53b7ccb61fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 22/39] fix: show the fields present in a
 segmentation_descriptor in tables

sub_segment_num and sub_segments_expected were shown as format errors
(%!s(*uint32=...)) and left out for four of the segmentation types which have
them, and cancelled segmentations were shown with fields they do not have.
---
 pkg/scte35/segmentation_descriptor.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/pkg/scte35/segmentation_descriptor.go b/pkg/scte35/segmentation_descriptor.go
index aad130b..fd86642 100644
--- a/pkg/scte35/segmentation_descriptor.go
+++ b/pkg/scte35/segmentation_descriptor.go
@@ -630,21 +630,17 @@ func (sd *SegmentationDescriptor) writeTo(t *table) {
 			t.row(2, "segmentation_upid", u.Value)
 			t.row(1, "}", nil)
 		}
-	}
 
-	t.row(1, "segmentation_type_id", fmt.Sprintf("%#02x (%s)", sd.SegmentationTypeID, sd.Name()))
-	t.row(1, "segment_num", sd.SegmentNum)
-	t.row(1, "segments_expected", sd.SegmentsExpected)
-	switch sd.SegmentationTypeID {
-	case SegmentationTypeProviderPOStart,
-		SegmentationTypeDistributorPOStart,
-		SegmentationTypeProviderOverlayPOStart,
-		SegmentationTypeDistributorOverlayPOStart:
-		if sd.SubSegmentNum != nil {
-			t.row(1, "sub_segment_num", sd.SubSegmentNum)
-		}
-		if sd.SubSegmentsExpected != nil {
-			t.row(1, "sub_segments_expected", sd.SubSegmentsExpected)
+		t.row(1, "segmentation_type_id", fmt.Sprintf("%#02x (%s)", sd.SegmentationTypeID, sd.Name()))
+		t.row(1, "segment_num", sd.SegmentNum)
+		t.row(1, "segments_expected", sd.SegmentsExpected)
+		if sd.subSegmentsPermitted() {
+			if sd.SubSegmentNum != nil {
+				t.row(1, "sub_segment_num", *sd.SubSegmentNum)
+			}
+			if sd.SubSegmentsExpected != nil {
+				t.row(1, "sub_segments_expected", *sd.SubSegmentsExpected)
+			}
 		}
 	}
 	t.row(0, "}", nil)
-- 
2.43.0


From d1f5c80f2bbecd0b20ecfdbf11c3ac246af2a1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 23/39] fix: encode documents with long lines from standard
 input

Lines were limited to 64KB and joined without the line breaks, which separate
XML attributes on different lines.
---
 cmd/encode.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/cmd/encode.go b/cmd/encode.go
index cd3850d..377ec78 100644
--- a/cmd/encode.go
+++ b/cmd/encode.go
@@ -17,10 +17,10 @@
 package cmd
 
 import (
-	"bufio"
 	"encoding/json"
 	"encoding/xml"
 	"fmt"
+	"io"
 	"os"
 	"strings"
 
@@ -47,15 +47,12 @@ func encodeCommand() *cobra.Command {
 			if len(args) == 1 {
 				input = args[0]
 			} else {
-				scanner := bufio.NewScanner(os.Stdin)
-				for scanner.Scan() {
-					input += scanner.Text()
-				}
-				err = scanner.Err()
-				if err != nil {
-					_, _ = fmt.Fprintf(os.Stderr, "Error: %s\n", err)
+				b, rerr := io.ReadAll(os.Stdin)
+				if rerr != nil {
+					_, _ = fmt.Fprintf(os.Stderr, "Error: %s\n", rerr)
 					return
 				}
+				input = string(b)
 			}
 
 			switch {
-- 
2.43.0


From 0429fd84074d61e1757e72dac8f0c7adb8106360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 24/39] fix: report a truncated dtmf_descriptor

It was accepted with fewer dtmf_chars than dtmf_count says, as reading bytes
past the end is not an error for the bit reader.
---
 pkg/scte35/dtmf_descriptor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index c6b322f..85772ae 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -75,6 +75,9 @@ func (sd *DTMFDescriptor) decode(b []byte) error {
 	dtmfCount := int(r.Uint32(3))
 	r.Skip(5) // reserved
 	sd.DTMFChars = r.String(dtmfCount)
+	if len(sd.DTMFChars) < dtmfCount {
+		return fmt.Errorf("dtmf_descriptor: %w", ErrBufferOverflow)
+	}
 
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("dtmf_descriptor: %w", err)
-- 
2.43.0


From 299e0873bb839000613b480fbc5fb2450f51ca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 25/39] fix: report splice_descriptors which exceed the
 descriptor loop

They were accepted with the bytes there are, as reading bytes past the end is
not an error for the bit reader.
---
 pkg/scte35/splice_descriptor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/scte35/splice_descriptor.go b/pkg/scte35/splice_descriptor.go
index 09c775c..51ea8c2 100644
--- a/pkg/scte35/splice_descriptor.go
+++ b/pkg/scte35/splice_descriptor.go
@@ -172,9 +172,12 @@ func decodeSpliceDescriptors(b []byte) ([]SpliceDescriptor, error) {
 		// Decode the full splice_descriptor (including splice_descriptor_tag
 		// and descriptor_length).
 		sd := NewSpliceDescriptor(identifier, spliceDescriptorTag)
-		if derr := sd.decode(r.Bytes(descriptorLength + 2)); derr != nil {
+		sdb := r.Bytes(descriptorLength + 2)
+		if derr := sd.decode(sdb); derr != nil {
 			// Store the error but continue decoding the rest of the signal.
 			err = derr
+		} else if len(sdb) < descriptorLength+2 {
+			err = fmt.Errorf("splice_descriptor: %w", ErrBufferOverflow)
 		}
 		sds = append(sds, sd)
 	}
-- 
2.43.0


From 188508aea9143380decf43568b47c0633c00ea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 26/39] fix: report a splice_descriptor loop which covers the
 CRC_32

Such sections were accepted without a crc_32 of their own, as reading bytes
past the end is not an error for the bit reader.
---
 pkg/scte35/splice_info_section.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 25902b2..d75d3d7 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -143,6 +143,9 @@ func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("splice_info_section: %w", err)
 	}
+	if len(sis.crc32) < 4 {
+		return fmt.Errorf("splice_info_section: %w", ErrBufferOverflow)
+	}
 
 	if err = verifyCRC32(b); err != nil {
 		return fmt.Errorf("splice_info_section: %w", err)
-- 
2.43.0


From 853cc7fa3ed52a51db957f61c851b79d4ef9e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:28 +0000
Subject: [PATCH 27/39] fix: name an EIDR by its whole prefix

10.52370 through 10.52409 are not the registrants 10.5237 to 10.5240.
---
 pkg/scte35/segmentation_upid.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 9d048f5..b88ce36 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -245,16 +245,16 @@ func (upid *SegmentationUPID) compressEIDR(s string) []byte {
 
 // eidrTypeName returns the EIDR type name.
 func (upid *SegmentationUPID) eidrTypeName() string {
-	if strings.HasPrefix(upid.Value, "10.5237") {
+	if strings.HasPrefix(upid.Value, "10.5237/") {
 		return "Party ID"
 	}
-	if strings.HasPrefix(upid.Value, "10.5238") {
+	if strings.HasPrefix(upid.Value, "10.5238/") {
 		return "User ID"
 	}
-	if strings.HasPrefix(upid.Value, "10.5239") {
+	if strings.HasPrefix(upid.Value, "10.5239/") {
 		return "Service ID"
 	}
-	if strings.HasPrefix(upid.Value, "10.5240") {
+	if strings.HasPrefix(upid.Value, "10.5240/") {
 		return "Content ID"
 	}
 	return ""
-- 
2.43.0


From 84658b143ccf3283500b94800fff1fa65b93beba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:33 +0000
Subject: [PATCH 28/39] fix: report a document which cannot be encoded

encode printed an empty Base64 and Hex.
---
 cmd/encode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/encode.go b/cmd/encode.go
index 377ec78..69541a0 100644
--- a/cmd/encode.go
+++ b/cmd/encode.go
@@ -63,6 +63,10 @@ func encodeCommand() *cobra.Command {
 			default:
 				err = fmt.Errorf("unrecognized or empty input")
 			}
+			if err == nil {
+				// without an encoding there is nothing to print
+				_, err = sis.Encode()
+			}
 			if err != nil {
 				_, _ = fmt.Fprintf(os.Stderr, "Error: %s\n", err)
 				return
-- 
2.43.0


From bc084c2fe806cb6383fe606ec9118da351776792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:42 +0000
Subject: [PATCH 29/39] fix: refuse to encode a UPID whose text has no binary
 form

Base64, decimal, Latin-1 and EIDR text which does not parse was logged and
then encoded as something else.
---
 pkg/scte35/segmentation_descriptor.go | 10 +++-
 pkg/scte35/segmentation_upid.go       | 68 ++++++++++++---------------
 2 files changed, 37 insertions(+), 41 deletions(-)

diff --git a/pkg/scte35/segmentation_descriptor.go b/pkg/scte35/segmentation_descriptor.go
index fd86642..8795495 100644
--- a/pkg/scte35/segmentation_descriptor.go
+++ b/pkg/scte35/segmentation_descriptor.go
@@ -492,7 +492,10 @@ func (sd *SegmentationDescriptor) encode() ([]byte, error) {
 			iow.PutUint32(8, 0x00) // segmentation_upid_type
 			iow.PutUint32(8, 0x00) // segmentation_upid_length
 		case 1:
-			vb := sd.SegmentationUPIDs[0].valueBytes()
+			vb, err := sd.SegmentationUPIDs[0].encodeValue()
+			if err != nil {
+				return nil, fmt.Errorf("segmentation_upid: %w", err)
+			}
 			iow.PutUint32(8, sd.SegmentationUPIDs[0].Type)
 			iow.PutUint32(8, uint32(len(vb)))
 			_, _ = iow.Write(vb)
@@ -500,7 +503,10 @@ func (sd *SegmentationDescriptor) encode() ([]byte, error) {
 			iow.PutUint32(8, SegmentationUPIDTypeMID)
 			iow.PutUint32(8, uint32(sd.SegmentationUpidLength()))
 			for _, upid := range sd.SegmentationUPIDs {
-				vb := upid.valueBytes()
+				vb, err := upid.encodeValue()
+				if err != nil {
+					return nil, fmt.Errorf("segmentation_upid: %w", err)
+				}
 				iow.PutUint32(8, upid.Type)
 				iow.PutUint32(8, uint32(len(vb)))
 				_, _ = iow.Write(vb)
diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index b88ce36..a691948 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -210,37 +210,26 @@ func (upid *SegmentationUPID) ASCIIValue() string {
 	return string(rs)
 }
 
-// compressEIRD returns a compressed EIDR.
-func (upid *SegmentationUPID) compressEIDR(s string) []byte {
+// compressEIDR returns a compressed EIDR. Text which is not a canonical EIDR is
+// returned as is, with an error if canonicalEIDR would not restore it.
+func (upid *SegmentationUPID) compressEIDR(s string) ([]byte, error) {
 	parts := strings.FieldsFunc(s, func(r rune) bool {
 		return r == '.' || r == '/'
 	})
 
-	if len(parts) != 3 {
-		Logger.Printf("EIDR string contains too many parts: %s", s)
-		return []byte(s)
-	}
-
-	i, err := strconv.Atoi(parts[1])
-	if err != nil {
-		Logger.Printf("Non-canonical EIDR prefix: '%s'", s)
-		return []byte(s)
+	if len(parts) == 3 && parts[0] == "10" {
+		i, ierr := strconv.ParseUint(parts[1], 10, 16)
+		h, herr := hex.DecodeString(strings.ReplaceAll(parts[2], "-", ""))
+		if ierr == nil && herr == nil && len(h) == 10 {
+			return append(binary.BigEndian.AppendUint16(nil, uint16(i)), h...), nil
+		}
 	}
 
-	b := make([]byte, 12)
-	iow := iobit.NewWriter(b)
-	iow.PutUint32(16, uint32(i))
-
-	h, err := hex.DecodeString(strings.ReplaceAll(parts[2], "-", ""))
-	if err != nil {
-		Logger.Printf("Non-canonical EIDR suffix: '%s'", s)
-		return []byte(s)
+	Logger.Printf("Non-canonical EIDR: '%s'", s)
+	if len(s) == 12 || !strings.Contains(s, "/") {
+		return []byte(s), fmt.Errorf("EIDR '%s' has no binary representation", s)
 	}
-
-	_, _ = iow.Write(h)
-	_ = iow.Flush()
-
-	return b
+	return []byte(s), nil
 }
 
 // eidrTypeName returns the EIDR type name.
@@ -277,6 +266,16 @@ func (upid *SegmentationUPID) formatIdentifierString() string {
 
 // valueBytes returns the value as a byte array.
 func (upid *SegmentationUPID) valueBytes() []byte {
+	b, err := upid.encodeValue()
+	if err != nil {
+		Logger.Printf("Error parsing UPID value: %s", err)
+	}
+	return b
+}
+
+// encodeValue returns the value as a byte array, with an error if the value is
+// not valid for its type.
+func (upid *SegmentationUPID) encodeValue() ([]byte, error) {
 	value := strings.TrimSpace(upid.Value)
 
 	// this switch should align with the constructor above
@@ -286,38 +285,29 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 		return upid.compressEIDR(value)
 	// ISAN - base64
 	case SegmentationUPIDTypeISAN, SegmentationUPIDTypeISANDeprecated:
-		b, err := base64.StdEncoding.DecodeString(value)
-		if err != nil {
-			Logger.Printf("Error parsing UPID value: %s", err)
-			return b
-		}
-		return b
+		return base64.StdEncoding.DecodeString(value)
 	// MPU - custom
 	case SegmentationUPIDTypeMPU:
 		b := upid.formatIdentifierBytes()
 		v, err := base64.StdEncoding.DecodeString(value)
 		if err != nil {
-			Logger.Printf("Error parsing UPID value: %s", err)
-			return b
+			return b, err
 		}
-		b = append(b, v...)
-		return b
+		return append(b, v...), nil
 	// TI - unsigned int
 	case SegmentationUPIDTypeTI:
 		b := make([]byte, 8)
 		i, err := strconv.ParseUint(value, 10, 64)
 		if err != nil {
-			Logger.Printf("Error parsing UPID value: %s", err)
-			return b
+			return b, err
 		}
 		binary.BigEndian.PutUint64(b, i)
-		return b
+		return b, nil
 	// everything else - plain text
 	default:
 		// encode UTF8 values as Latin1 (reversing the Decode above). Any
 		// surrounding space is part of the value.
-		b, _ := charmap.ISO8859_1.NewEncoder().Bytes([]byte(upid.Value))
-		return b
+		return charmap.ISO8859_1.NewEncoder().Bytes([]byte(upid.Value))
 	}
 }
 
-- 
2.43.0


From 09618c2d836f0fd76b918ca7566c225cca144336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 30/39] fix: report a splice_command which cannot be
 unmarshalled

A spliceCommand of the wrong shape in a JSON document was logged and
dropped, and the document accepted as a section without a command.
---
 pkg/scte35/splice_info_section.go | 36 ++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index d75d3d7..492eaf9 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -338,10 +338,14 @@ func (sis *SpliceInfoSection) UnmarshalJSON(b []byte) error {
 	if err := json.Unmarshal(b, &tmp); err != nil {
 		return err
 	}
+	sc, err := tmp.SpliceCommand()
+	if err != nil {
+		return err
+	}
 
 	*sis = SpliceInfoSection{} // discard any previous contents
 	sis.EncryptedPacket = tmp.EncryptedPacket
-	sis.SpliceCommand = tmp.SpliceCommand()
+	sis.SpliceCommand = sc
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
 	if tmp.SAPType != nil {
 		sis.SAPType = *tmp.SAPType
@@ -361,10 +365,14 @@ func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 	if err := d.DecodeElement(&tmp, &start); err != nil {
 		return err
 	}
+	sc, err := tmp.SpliceCommand()
+	if err != nil {
+		return err
+	}
 
 	*sis = SpliceInfoSection{} // discard any previous contents
 	sis.EncryptedPacket = tmp.EncryptedPacket
-	sis.SpliceCommand = tmp.SpliceCommand()
+	sis.SpliceCommand = sc
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
 	if tmp.SAPType != nil {
 		sis.SAPType = *tmp.SAPType
@@ -448,30 +456,30 @@ type iSIS struct {
 }
 
 // SpliceCommand returns the polymorphic splice_command.
-func (i *iSIS) SpliceCommand() SpliceCommand {
+func (i *iSIS) SpliceCommand() (SpliceCommand, error) {
 	// xml unmarshalls to the corresponding struct
 	if i.SpliceNull != nil {
-		return i.SpliceNull
+		return i.SpliceNull, nil
 	}
 	if i.SpliceSchedule != nil {
-		return i.SpliceSchedule
+		return i.SpliceSchedule, nil
 	}
 	if i.SpliceInsert != nil {
-		return i.SpliceInsert
+		return i.SpliceInsert, nil
 	}
 	if i.TimeSignal != nil {
-		return i.TimeSignal
+		return i.TimeSignal, nil
 	}
 	if i.BandwidthReservation != nil {
-		return i.BandwidthReservation
+		return i.BandwidthReservation, nil
 	}
 	if i.PrivateCommand != nil {
-		return i.PrivateCommand
+		return i.PrivateCommand, nil
 	}
 
 	// no valid splice_command?
 	if i.SpliceCommandRaw == nil {
-		return nil
+		return nil, nil
 	}
 
 	// struct to determine the splice command's type
@@ -482,16 +490,14 @@ func (i *iSIS) SpliceCommand() SpliceCommand {
 	// get the type
 	var st sctype
 	if err := json.Unmarshal(i.SpliceCommandRaw, &st); err != nil {
-		Logger.Printf("error unmarshalling splice command type: %s", err)
-		return nil
+		return nil, fmt.Errorf("splice_command type: %w", err)
 	}
 
 	// and decode it
 	sc := NewSpliceCommand(st.Type)
 	if err := json.Unmarshal(i.SpliceCommandRaw, sc); err != nil {
-		Logger.Printf("error unmarshalling splice command: %s", err)
-		return nil
+		return nil, fmt.Errorf("splice_command: %w", err)
 	}
 
-	return sc
+	return sc, nil
 }
-- 
2.43.0


From 202ec6f6a2321893e80a143b7dfe7d8b5852d88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 31/39] fix: put TimeDescriptor in the SCTE 35 namespace

Marshalled by itself it was in no namespace, unlike every other command
and descriptor.
---
 pkg/scte35/time_descriptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scte35/time_descriptor.go b/pkg/scte35/time_descriptor.go
index 66f6d24..ede258b 100644
--- a/pkg/scte35/time_descriptor.go
+++ b/pkg/scte35/time_descriptor.go
@@ -36,7 +36,7 @@ const (
 // time_signal() or splice_insert( ) command. This command may be inserted using
 // SCTE 104 or by out of band provisioning on the device inserting this message.
 type TimeDescriptor struct {
-	XMLName    xml.Name `xml:"TimeDescriptor" json:"-"`
+	XMLName    xml.Name `xml:"http://www.scte.org/schemas/35 TimeDescriptor" json:"-"`
 	JSONType   uint32   `xml:"-" json:"type"`
 	TAISeconds uint64   `xml:"taiSeconds,attr" json:"taiSeconds"`
 	TAINS      uint32   `xml:"taiNs,attr" json:"taiNs"`
-- 
2.43.0


From 5fa67329d955793cbd5c1149e28091467e9fcf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 32/39] fix: give utc_splice_time in UTC whatever the local
 time zone

---
 pkg/scte35/scte35.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index b033c69..75ff764 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -127,7 +127,7 @@ func (bb *Bytes) UnmarshalText(b []byte) error {
 // from GPS Epoch (01 Jan 1980, 00:00:00 UTC)
 func NewUTCSpliceTime(sec uint32) UTCSpliceTime {
 	return UTCSpliceTime{
-		time.Unix(int64(sec)+int64(unixEpochToGPSEpoch), 0),
+		time.Unix(int64(sec)+int64(unixEpochToGPSEpoch), 0).UTC(),
 	}
 }
 
@@ -136,6 +136,11 @@ type UTCSpliceTime struct {
 	time.Time
 }
 
+// String returns the time in UTC.
+func (t UTCSpliceTime) String() string {
+	return t.UTC().String()
+}
+
 // GPSSeconds returns the seconds since GPS Epoch
 func (t UTCSpliceTime) GPSSeconds() uint32 {
 	return uint32(t.Time.Unix()) - unixEpochToGPSEpoch
-- 
2.43.0


From 942e62dcee07c809168395dac198693bfa95684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:42 +0000
Subject: [PATCH 33/39] fix: an XML document with an Ext element was refused

The schema allows every element an Ext as its first child. In the
SpliceInfoSection it was taken for a descriptor of unknown type.
---
 pkg/scte35/splice_info_section.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 492eaf9..792300a 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -439,6 +439,7 @@ func (sis *SpliceInfoSection) descriptorLoopLength() int {
 // iSIS is an internal SpliceInfoSection used to support (un)marshalling
 // polymorphic fields.
 type iSIS struct {
+	Ext                  *struct{}             `xml:"http://www.scte.org/schemas/35 Ext" json:"-"` // extensions are skipped
 	EncryptedPacket      EncryptedPacket       `xml:"http://www.scte.org/schemas/35 EncryptedPacket,omitempty" json:"encryptedPacket,omitempty"`
 	SpliceCommandRaw     json.RawMessage       `xml:"-" json:"spliceCommand"`
 	SpliceNull           *SpliceNull           `xml:"http://www.scte.org/schemas/35 SpliceNull" json:"-"`
-- 
2.43.0


From a53ec97a3f47ebcf0efd8cfe132243a38bf9a8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:00 +0000
Subject: [PATCH 34/39] fix: MarshalJSON was not used for values without an
 address

---
 pkg/scte35/audio_descriptor.go        | 4 ++--
 pkg/scte35/avail_descriptor.go        | 4 ++--
 pkg/scte35/bandwidth_reservation.go   | 4 ++--
 pkg/scte35/dtmf_descriptor.go         | 4 ++--
 pkg/scte35/private_command.go         | 4 ++--
 pkg/scte35/private_descriptor.go      | 4 ++--
 pkg/scte35/segmentation_descriptor.go | 4 ++--
 pkg/scte35/splice_info_section.go     | 2 +-
 pkg/scte35/splice_insert.go           | 4 ++--
 pkg/scte35/splice_null.go             | 4 ++--
 pkg/scte35/splice_schedule.go         | 4 ++--
 pkg/scte35/time_descriptor.go         | 4 ++--
 pkg/scte35/time_signal.go             | 4 ++--
 13 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/pkg/scte35/audio_descriptor.go b/pkg/scte35/audio_descriptor.go
index c03301d..9952722 100644
--- a/pkg/scte35/audio_descriptor.go
+++ b/pkg/scte35/audio_descriptor.go
@@ -46,9 +46,9 @@ func (sd *AudioDescriptor) Tag() uint32 {
 }
 
 // MarshalJSON encodes this AudioDescriptor to JSON, including its type.
-func (sd *AudioDescriptor) MarshalJSON() ([]byte, error) {
+func (sd AudioDescriptor) MarshalJSON() ([]byte, error) {
 	type alias AudioDescriptor // without MarshalJSON
-	tmp := alias(*sd)
+	tmp := alias(sd)
 	tmp.JSONType = AudioDescriptorTag
 	return json.Marshal(tmp)
 }
diff --git a/pkg/scte35/avail_descriptor.go b/pkg/scte35/avail_descriptor.go
index bdc54c9..7c446a7 100644
--- a/pkg/scte35/avail_descriptor.go
+++ b/pkg/scte35/avail_descriptor.go
@@ -48,9 +48,9 @@ func (sd *AvailDescriptor) Tag() uint32 {
 }
 
 // MarshalJSON encodes this AvailDescriptor to JSON, including its type.
-func (sd *AvailDescriptor) MarshalJSON() ([]byte, error) {
+func (sd AvailDescriptor) MarshalJSON() ([]byte, error) {
 	type alias AvailDescriptor // without MarshalJSON
-	tmp := alias(*sd)
+	tmp := alias(sd)
 	tmp.JSONType = AvailDescriptorTag
 	return json.Marshal(tmp)
 }
diff --git a/pkg/scte35/bandwidth_reservation.go b/pkg/scte35/bandwidth_reservation.go
index c00e580..8547d6c 100644
--- a/pkg/scte35/bandwidth_reservation.go
+++ b/pkg/scte35/bandwidth_reservation.go
@@ -49,9 +49,9 @@ func (cmd *BandwidthReservation) Type() uint32 {
 }
 
 // MarshalJSON encodes this BandwidthReservation to JSON, including its type.
-func (cmd *BandwidthReservation) MarshalJSON() ([]byte, error) {
+func (cmd BandwidthReservation) MarshalJSON() ([]byte, error) {
 	type alias BandwidthReservation // without MarshalJSON
-	tmp := alias(*cmd)
+	tmp := alias(cmd)
 	tmp.JSONType = BandwidthReservationType
 	return json.Marshal(tmp)
 }
diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index 85772ae..afcf267 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -58,9 +58,9 @@ func (sd *DTMFDescriptor) Tag() uint32 {
 }
 
 // MarshalJSON encodes this DTMFDescriptor to JSON, including its type.
-func (sd *DTMFDescriptor) MarshalJSON() ([]byte, error) {
+func (sd DTMFDescriptor) MarshalJSON() ([]byte, error) {
 	type alias DTMFDescriptor // without MarshalJSON
-	tmp := alias(*sd)
+	tmp := alias(sd)
 	tmp.JSONType = DTMFDescriptorTag
 	return json.Marshal(tmp)
 }
diff --git a/pkg/scte35/private_command.go b/pkg/scte35/private_command.go
index f9517a4..bfee647 100644
--- a/pkg/scte35/private_command.go
+++ b/pkg/scte35/private_command.go
@@ -55,9 +55,9 @@ func (cmd *PrivateCommand) Type() uint32 {
 }
 
 // MarshalJSON encodes this PrivateCommand to JSON, including its type.
-func (cmd *PrivateCommand) MarshalJSON() ([]byte, error) {
+func (cmd PrivateCommand) MarshalJSON() ([]byte, error) {
 	type alias PrivateCommand // without MarshalJSON
-	tmp := alias(*cmd)
+	tmp := alias(cmd)
 	tmp.JSONType = PrivateCommandType
 	return json.Marshal(tmp)
 }
diff --git a/pkg/scte35/private_descriptor.go b/pkg/scte35/private_descriptor.go
index 75952bd..0bafad5 100644
--- a/pkg/scte35/private_descriptor.go
+++ b/pkg/scte35/private_descriptor.go
@@ -47,9 +47,9 @@ func (sd *PrivateDescriptor) Tag() uint32 {
 }
 
 // MarshalJSON encodes this PrivateDescriptor to JSON, including its type.
-func (sd *PrivateDescriptor) MarshalJSON() ([]byte, error) {
+func (sd PrivateDescriptor) MarshalJSON() ([]byte, error) {
 	type alias PrivateDescriptor // without MarshalJSON
-	tmp := alias(*sd)
+	tmp := alias(sd)
 	tmp.JSONType = sd.PrivateTag
 	return json.Marshal(tmp)
 }
diff --git a/pkg/scte35/segmentation_descriptor.go b/pkg/scte35/segmentation_descriptor.go
index 8795495..af0682b 100644
--- a/pkg/scte35/segmentation_descriptor.go
+++ b/pkg/scte35/segmentation_descriptor.go
@@ -299,9 +299,9 @@ func (sd *SegmentationDescriptor) Tag() uint32 {
 }
 
 // MarshalJSON encodes this SegmentationDescriptor to JSON, including its type.
-func (sd *SegmentationDescriptor) MarshalJSON() ([]byte, error) {
+func (sd SegmentationDescriptor) MarshalJSON() ([]byte, error) {
 	type alias SegmentationDescriptor // without MarshalJSON
-	tmp := alias(*sd)
+	tmp := alias(sd)
 	tmp.JSONType = SegmentationDescriptorTag
 	return json.Marshal(tmp)
 }
diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 792300a..b3aa895 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -308,7 +308,7 @@ func (sis *SpliceInfoSection) Table(prefix, indent string) string {
 }
 
 // MarshalJSON encodes a SpliceInfoSection to JSON.
-func (sis *SpliceInfoSection) MarshalJSON() ([]byte, error) {
+func (sis SpliceInfoSection) MarshalJSON() ([]byte, error) {
 	m := map[string]interface{}{
 		"encryptedPacket": sis.EncryptedPacket,
 		"sapType":         sis.SAPType,
diff --git a/pkg/scte35/splice_insert.go b/pkg/scte35/splice_insert.go
index 127d95f..45f3559 100644
--- a/pkg/scte35/splice_insert.go
+++ b/pkg/scte35/splice_insert.go
@@ -69,9 +69,9 @@ func (cmd *SpliceInsert) Type() uint32 {
 }
 
 // MarshalJSON encodes this SpliceInsert to JSON, including its type.
-func (cmd *SpliceInsert) MarshalJSON() ([]byte, error) {
+func (cmd SpliceInsert) MarshalJSON() ([]byte, error) {
 	type alias SpliceInsert // without MarshalJSON
-	tmp := alias(*cmd)
+	tmp := alias(cmd)
 	tmp.JSONType = SpliceInsertType
 	return json.Marshal(tmp)
 }
diff --git a/pkg/scte35/splice_null.go b/pkg/scte35/splice_null.go
index 676e4ec..9a6f7c4 100644
--- a/pkg/scte35/splice_null.go
+++ b/pkg/scte35/splice_null.go
@@ -43,9 +43,9 @@ func (cmd *SpliceNull) Type() uint32 {
 }
 
 // MarshalJSON encodes this SpliceNull to JSON, including its type.
-func (cmd *SpliceNull) MarshalJSON() ([]byte, error) {
+func (cmd SpliceNull) MarshalJSON() ([]byte, error) {
 	type alias SpliceNull // without MarshalJSON
-	tmp := alias(*cmd)
+	tmp := alias(cmd)
 	tmp.JSONType = SpliceNullType
 	return json.Marshal(tmp)
 }
diff --git a/pkg/scte35/splice_schedule.go b/pkg/scte35/splice_schedule.go
index b3eae2e..fe34a27 100644
--- a/pkg/scte35/splice_schedule.go
+++ b/pkg/scte35/splice_schedule.go
@@ -45,9 +45,9 @@ func (cmd *SpliceSchedule) Type() uint32 {
 }
 
 // MarshalJSON encodes this SpliceSchedule to JSON, including its type.
-func (cmd *SpliceSchedule) MarshalJSON() ([]byte, error) {
+func (cmd SpliceSchedule) MarshalJSON() ([]byte, error) {
 	type alias SpliceSchedule // without MarshalJSON
-	tmp := alias(*cmd)
+	tmp := alias(cmd)
 	tmp.JSONType = SpliceScheduleType
 	return json.Marshal(tmp)
 }
diff --git a/pkg/scte35/time_descriptor.go b/pkg/scte35/time_descriptor.go
index ede258b..7989460 100644
--- a/pkg/scte35/time_descriptor.go
+++ b/pkg/scte35/time_descriptor.go
@@ -49,9 +49,9 @@ func (sd *TimeDescriptor) Tag() uint32 {
 }
 
 // MarshalJSON encodes this TimeDescriptor to JSON, including its type.
-func (sd *TimeDescriptor) MarshalJSON() ([]byte, error) {
+func (sd TimeDescriptor) MarshalJSON() ([]byte, error) {
 	type alias TimeDescriptor // without MarshalJSON
-	tmp := alias(*sd)
+	tmp := alias(sd)
 	tmp.JSONType = TimeDescriptorTag
 	return json.Marshal(tmp)
 }
diff --git a/pkg/scte35/time_signal.go b/pkg/scte35/time_signal.go
index 9848e18..aba5c7a 100644
--- a/pkg/scte35/time_signal.go
+++ b/pkg/scte35/time_signal.go
@@ -58,9 +58,9 @@ func (cmd *TimeSignal) Type() uint32 {
 }
 
 // MarshalJSON encodes this TimeSignal to JSON, including its type.
-func (cmd *TimeSignal) MarshalJSON() ([]byte, error) {
+func (cmd TimeSignal) MarshalJSON() ([]byte, error) {
 	type alias TimeSignal // without MarshalJSON
-	tmp := alias(*cmd)
+	tmp := alias(cmd)
 	tmp.JSONType = TimeSignalType
 	return json.Marshal(tmp)
 }
-- 
2.43.0


From 0dd797aca5b726870b0a0e3ed3d1112d19016812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:14 +0000
Subject: [PATCH 35/39] fix: a null spliceCommand in JSON was read as a
 splice_null

---
 pkg/scte35/splice_info_section.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index b3aa895..92ad4f5 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -479,7 +479,7 @@ func (i *iSIS) SpliceCommand() (SpliceCommand, error) {
 	}
 
 	// no valid splice_command?
-	if i.SpliceCommandRaw == nil {
+	if i.SpliceCommandRaw == nil || string(i.SpliceCommandRaw) == "null" {
 		return nil, nil
 	}
 
-- 
2.43.0


From 9b00dfffbe16d8988a576c780b0a8f517d5d89da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:14 +0000
Subject: [PATCH 36/39] fix: encode refused XML which starts with a byte order
 mark

---
 cmd/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/encode.go b/cmd/encode.go
index 69541a0..fd7f943 100644
--- a/cmd/encode.go
+++ b/cmd/encode.go
@@ -56,7 +56,7 @@ func encodeCommand() *cobra.Command {
 			}
 
 			switch {
-			case strings.HasPrefix(strings.TrimSpace(input), "<"):
+			case strings.HasPrefix(strings.TrimSpace(strings.TrimPrefix(input, "\ufeff")), "<"):
 				err = xml.Unmarshal([]byte(input), &sis)
 			case strings.HasPrefix(strings.TrimSpace(input), "{"):
 				err = json.Unmarshal([]byte(input), &sis)
-- 
2.43.0


From 3b7ddf92d5dc665e1619eaeb9fb576deaf08150b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:08 +0000
Subject: [PATCH 37/39] fix: a stated UPID format was ignored when encoding

---
 pkg/scte35/segmentation_upid.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index a691948..00b4c01 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -249,6 +249,21 @@ func (upid *SegmentationUPID) eidrTypeName() string {
 	return ""
 }
 
+// foreignFormat returns whether the value is hex or base-64 though that is not
+// the format of its type.
+func (upid *SegmentationUPID) foreignFormat() bool {
+	switch upid.Format {
+	case SegmentationUPIDFormatHex:
+		return true
+	case SegmentationUPIDFormatBase64:
+		return upid.Type != SegmentationUPIDTypeISAN &&
+			upid.Type != SegmentationUPIDTypeISANDeprecated &&
+			upid.Type != SegmentationUPIDTypeMPU
+	default:
+		return false
+	}
+}
+
 // formatIdentifierBytes returns the format identifier as 4 bytes, which are all
 // zero if there is none.
 func (upid *SegmentationUPID) formatIdentifierBytes() []byte {
@@ -278,6 +293,19 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 func (upid *SegmentationUPID) encodeValue() ([]byte, error) {
 	value := strings.TrimSpace(upid.Value)
 
+	// the value may be stated in another format than the one of its type
+	if upid.foreignFormat() {
+		decode := hex.DecodeString
+		if upid.Format == SegmentationUPIDFormatBase64 {
+			decode = base64.StdEncoding.DecodeString
+		}
+		b, err := decode(value)
+		if upid.Type == SegmentationUPIDTypeMPU {
+			b = append(upid.formatIdentifierBytes(), b...)
+		}
+		return b, err
+	}
+
 	// this switch should align with the constructor above
 	switch upid.Type {
 	// EIDR - custom
-- 
2.43.0


From 421361e6516f69891ba2449eac147fc855d0425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:09 +0000
Subject: [PATCH 38/39] fix: UPID text which XML has no characters for was lost
 in XML

---
 pkg/scte35/segmentation_upid.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 00b4c01..9cd2e51 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -148,9 +148,42 @@ func (upid *SegmentationUPID) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 		return err
 	}
 	upid.Value = strings.TrimSpace(upid.Value)
+
+	// reverse MarshalXML
+	if upid.Format == SegmentationUPIDFormatHex {
+		if b, err := upid.encodeValue(); err == nil {
+			if own := NewSegmentationUPID(upid.Type, b); strings.ContainsFunc(own.Value, notXML) {
+				*upid = own
+			}
+		}
+	}
 	return nil
 }
 
+// MarshalXML encodes a SegmentationUPID to XML. A value with characters which
+// XML does not have is written as hex.
+func (upid SegmentationUPID) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
+	type alias SegmentationUPID // without MarshalXML
+	tmp := alias(upid)
+	if strings.ContainsFunc(upid.Value, notXML) {
+		if b, err := upid.encodeValue(); err == nil {
+			tmp.Format = SegmentationUPIDFormatHex
+			tmp.Value = hex.EncodeToString(b)
+		}
+	}
+	return e.EncodeElement(tmp, start)
+}
+
+// notXML returns whether XML does not have the character.
+func notXML(r rune) bool {
+	switch {
+	case r == '\t', r == '\n', r == '\r':
+		return false
+	default:
+		return r < 0x20 || r == 0xFFFE || r == 0xFFFF
+	}
+}
+
 // Name returns the name for the segmentation_upid_type.
 func (upid *SegmentationUPID) Name() string {
 	switch upid.Type {
-- 
2.43.0


From ba28e8927a307ca9a1c09a54443e3d4d028f54ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:35 +0000
Subject: [PATCH 39/39] fix: the kind of an EIDR stated in hex or base-64 was
 not named

---
 pkg/scte35/segmentation_upid.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 9cd2e51..a2d88f3 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -267,6 +267,10 @@ func (upid *SegmentationUPID) compressEIDR(s string) ([]byte, error) {
 
 // eidrTypeName returns the EIDR type name.
 func (upid *SegmentationUPID) eidrTypeName() string {
+	if upid.foreignFormat() {
+		own := NewSegmentationUPID(upid.Type, upid.valueBytes())
+		return own.eidrTypeName()
+	}
 	if strings.HasPrefix(upid.Value, "10.5237/") {
 		return "Party ID"
 	}
-- 
2.43.0

