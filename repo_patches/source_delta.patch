From 1ead2c1a481970f2b1bb347d1402396c6c6bfaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:14 +0000
Subject: [PATCH 01/63] fix: bits: do not access the buffer when reading or
 writing zero bits

---
 pkg/bits/read.go  | 4 ++++
 pkg/bits/write.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/bits/read.go b/pkg/bits/read.go
index e6bf762..c55df16 100644
--- a/pkg/bits/read.go
+++ b/pkg/bits/read.go
@@ -25,6 +25,10 @@ func ReadBits(buf []byte, pos *int, n int) (uint64, error) {
 
 // ReadBitsUnsafe reads N bits.
 func ReadBitsUnsafe(buf []byte, pos *int, n int) uint64 {
+	if n == 0 {
+		return 0
+	}
+
 	res := 8 - (*pos & 0x07)
 	if n < res {
 		v := uint64((buf[*pos>>0x03] >> (res - n)) & (1<<n - 1))
diff --git a/pkg/bits/write.go b/pkg/bits/write.go
index a9d870b..c8f3836 100644
--- a/pkg/bits/write.go
+++ b/pkg/bits/write.go
@@ -2,6 +2,10 @@ package bits //nolint:revive
 
 // WriteBitsUnsafe writes N bits.
 func WriteBitsUnsafe(buf []byte, pos *int, v uint64, n int) {
+	if n == 0 {
+		return
+	}
+
 	res := 8 - (*pos & 0x07)
 	if n < res {
 		buf[*pos>>0x03] |= byte(v << (res - n))
-- 
2.43.0


From b92fba5f06b234b19c790ec4a9a4fc4f2582a70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:14 +0000
Subject: [PATCH 02/63] fix: bits: decode large Exp-Golomb codes correctly,
 reject those that do not fit into 32 bits

---
 pkg/bits/read.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/bits/read.go b/pkg/bits/read.go
index c55df16..1e63b91 100644
--- a/pkg/bits/read.go
+++ b/pkg/bits/read.go
@@ -3,6 +3,7 @@ package bits //nolint:revive
 
 import (
 	"fmt"
+	"math"
 )
 
 // HasSpace checks whether buffer has space for N bits.
@@ -88,6 +89,11 @@ func ReadGolombUnsigned(buf []byte, pos *int) (uint32, error) {
 		codeNum |= uint32(b) << (n - 1)
 	}
 
+	// with 32 leading zeros, the only value that fits into 32 bits has an empty suffix
+	if leadingZeros == 32 && codeNum != 0 {
+		return 0, fmt.Errorf("invalid value")
+	}
+
 	codeNum = (1 << leadingZeros) - 1 + codeNum
 
 	return codeNum, nil
@@ -100,11 +106,15 @@ func ReadGolombSigned(buf []byte, pos *int) (int32, error) {
 		return 0, err
 	}
 
-	vi := int32(v)
+	vi := int64(v)
 	if (vi & 0x01) != 0 {
-		return (vi + 1) / 2, nil
+		vi = (vi + 1) / 2
+		if vi > math.MaxInt32 {
+			return 0, fmt.Errorf("invalid value")
+		}
+		return int32(vi), nil
 	}
-	return -vi / 2, nil
+	return int32(-vi / 2), nil
 }
 
 // ReadFlag reads a boolean flag.
-- 
2.43.0


From d8263445bfa21e8fc8b7d78ec3a268ce790aebfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 03/63] fix: h264: apply horizontal cropping to SPSs without
 chroma too (CropUnitX is 1 when ChromaArrayType is 0)

---
 pkg/codecs/h264/sps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/codecs/h264/sps.go b/pkg/codecs/h264/sps.go
index 616c25e..4384947 100644
--- a/pkg/codecs/h264/sps.go
+++ b/pkg/codecs/h264/sps.go
@@ -740,7 +740,7 @@ func (s SPS) Width() int {
 
 	var cropUnitX uint32
 	if chromaArrayType == 0 {
-		cropUnitX = 0
+		cropUnitX = 1
 	} else {
 		cropUnitX = subWidthC
 	}
-- 
2.43.0


From b42290db8559e6a838a53249bb00c80916b2565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 04/63] fix: h264, h265: do not keep fields of the previous SPS
 when decoding into a used value

---
 pkg/codecs/h264/sps.go | 2 ++
 pkg/codecs/h265/sps.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pkg/codecs/h264/sps.go b/pkg/codecs/h264/sps.go
index 4384947..2f28ae9 100644
--- a/pkg/codecs/h264/sps.go
+++ b/pkg/codecs/h264/sps.go
@@ -467,6 +467,8 @@ func (s *SPS) Unmarshal(buf []byte) error {
 		return fmt.Errorf("not enough bits")
 	}
 
+	*s = SPS{}
+
 	s.ProfileIdc = buf[0]
 	s.ConstraintSet0Flag = (buf[1] >> 7) == 1
 	s.ConstraintSet1Flag = (buf[1] >> 6 & 0x01) == 1
diff --git a/pkg/codecs/h265/sps.go b/pkg/codecs/h265/sps.go
index 44fda20..77b2227 100644
--- a/pkg/codecs/h265/sps.go
+++ b/pkg/codecs/h265/sps.go
@@ -683,6 +683,8 @@ func (s *SPS) Unmarshal(buf []byte) error {
 		return err
 	}
 
+	*s = SPS{}
+
 	s.VPSID = uint8(bits.ReadBitsUnsafe(buf, &pos, 4))
 	s.MaxSubLayersMinus1 = uint8(bits.ReadBitsUnsafe(buf, &pos, 3))
 	s.TemporalIDNestingFlag = bits.ReadFlagUnsafe(buf, &pos)
-- 
2.43.0


From 7736db8b442e573f6ca329a8341d07261cf9f350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 05/63] fix: h264: skip colour_plane_id when reading the
 picture order count in the DTS extractor

---
 pkg/codecs/h264/dts_extractor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/codecs/h264/dts_extractor.go b/pkg/codecs/h264/dts_extractor.go
index 2d0f288..735209e 100644
--- a/pkg/codecs/h264/dts_extractor.go
+++ b/pkg/codecs/h264/dts_extractor.go
@@ -40,6 +40,13 @@ func getPictureOrderCount(buf []byte, sps *SPS, idr bool) (uint32, error) {
 		return 0, err
 	}
 
+	if sps.SeparateColourPlaneFlag {
+		_, err = bits.ReadBits(buf, &pos, 2) // colour_plane_id
+		if err != nil {
+			return 0, err
+		}
+	}
+
 	_, err = bits.ReadBits(buf, &pos, int(sps.Log2MaxFrameNumMinus4+4)) // frame_num
 	if err != nil {
 		return 0, err
-- 
2.43.0


From 86398fc384f676fa30ef12ab71daa17f1f9a3350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:57 +0000
Subject: [PATCH 06/63] fix: h265: use the reordering depth of the highest
 sub-layer in the DTS extractor

---
 pkg/codecs/h265/dts_extractor.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pkg/codecs/h265/dts_extractor.go b/pkg/codecs/h265/dts_extractor.go
index ca52e6c..6cac5ee 100644
--- a/pkg/codecs/h265/dts_extractor.go
+++ b/pkg/codecs/h265/dts_extractor.go
@@ -174,11 +174,8 @@ outer:
 
 				// reset state
 				d.randomReceived = false
-				if len(d.spsp.MaxNumReorderPics) == 1 {
-					d.reorderedFrames = int(d.spsp.MaxNumReorderPics[0])
-				} else {
-					d.reorderedFrames = 0
-				}
+				// all sub-layers are decoded, use the value of the highest one
+				d.reorderedFrames = int(d.spsp.MaxNumReorderPics[len(d.spsp.MaxNumReorderPics)-1])
 				d.pause = d.reorderedFrames
 			}
 
-- 
2.43.0


From 982e6c9a9a13eca5e4b2cf8fcc4ba850f3c0cc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:21 +0000
Subject: [PATCH 07/63] fix: h265: allow large reference picture sets in slice
 headers in the DTS extractor

---
 pkg/codecs/h265/dts_extractor.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/codecs/h265/dts_extractor.go b/pkg/codecs/h265/dts_extractor.go
index 6cac5ee..3dd4cb9 100644
--- a/pkg/codecs/h265/dts_extractor.go
+++ b/pkg/codecs/h265/dts_extractor.go
@@ -10,7 +10,13 @@ import (
 )
 
 const (
-	maxBytesToGetPOC = 12
+	/*
+		(max_size(second byte of the header and fields up to pic_order_cnt_lsb) +
+		max_size(st_ref_pic_set)) * 4 / 3 =
+		(9 + 32 * (max_size(delta_poc_minus1) + max_size(used_by_curr_pic_flag))) * 4 / 3 =
+		(9 + 32 * 4) * 4 / 3 = 183
+	*/
+	maxBytesToGetPOC = 183
 )
 
 func getPTSDTSDiff(buf []byte, sps *SPS, pps *PPS) (int, error) {
-- 
2.43.0


From 44c2056c17fb3adbd322a3059eda23ccf9b63765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:35 +0000
Subject: [PATCH 08/63] fix: h265: use the reference picture set of the SPS
 when there is a single one in the DTS extractor

---
 pkg/codecs/h265/dts_extractor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/codecs/h265/dts_extractor.go b/pkg/codecs/h265/dts_extractor.go
index 3dd4cb9..f4961b0 100644
--- a/pkg/codecs/h265/dts_extractor.go
+++ b/pkg/codecs/h265/dts_extractor.go
@@ -92,10 +92,11 @@ func getPTSDTSDiff(buf []byte, sps *SPS, pps *PPS) (int, error) {
 			return 0, err
 		}
 	} else {
-		if len(sps.ShortTermRefPicSets) <= 1 {
+		if len(sps.ShortTermRefPicSets) == 0 {
 			return 0, nil
 		}
 
+		// short_term_ref_pic_set_idx is not present (and is zero) when there is a single set.
 		b := int(math.Ceil(math.Log2(float64(len(sps.ShortTermRefPicSets)))))
 		var tmp uint64
 		tmp, err = bits.ReadBits(buf, &pos, b)
-- 
2.43.0


From 7910b48293efc82d3b01e953e65b17a42daa8398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 09/63] fix: vp9: do not report frames that show an existing
 frame as randomly accessible

---
 pkg/codecs/vp9/is_random_access.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/codecs/vp9/is_random_access.go b/pkg/codecs/vp9/is_random_access.go
index f8dfd3c..7208c0a 100644
--- a/pkg/codecs/vp9/is_random_access.go
+++ b/pkg/codecs/vp9/is_random_access.go
@@ -7,5 +7,5 @@ func IsRandomAccess(frame []byte) bool {
 	if err != nil {
 		return false
 	}
-	return !h.NonKeyFrame
+	return !h.ShowExistingFrame && !h.NonKeyFrame
 }
-- 
2.43.0


From 454050fe2ed051cb224456565b86e5e8385ad25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 10/63] fix: av1, vp9, jpeg: do not keep data of the previous
 value when decoding into a used value

---
 pkg/codecs/av1/bitstream.go                  | 2 ++
 pkg/codecs/av1/sequence_header.go            | 2 ++
 pkg/codecs/jpeg/define_quantization_table.go | 2 ++
 pkg/codecs/vp9/header.go                     | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/pkg/codecs/av1/bitstream.go b/pkg/codecs/av1/bitstream.go
index dab3800..652ae83 100644
--- a/pkg/codecs/av1/bitstream.go
+++ b/pkg/codecs/av1/bitstream.go
@@ -10,6 +10,8 @@ type Bitstream [][]byte
 
 // Unmarshal decodes a Bitstream.
 func (bs *Bitstream) Unmarshal(buf []byte) error {
+	*bs = nil
+
 	for {
 		var h OBUHeader
 		err := h.Unmarshal(buf)
diff --git a/pkg/codecs/av1/sequence_header.go b/pkg/codecs/av1/sequence_header.go
index 54129f2..b9bb625 100644
--- a/pkg/codecs/av1/sequence_header.go
+++ b/pkg/codecs/av1/sequence_header.go
@@ -269,6 +269,8 @@ func (h *SequenceHeader) Unmarshal(buf []byte) error {
 	}
 	buf = buf[1:]
 
+	*h = SequenceHeader{}
+
 	if oh.HasSize {
 		var size LEB128
 		var n int
diff --git a/pkg/codecs/jpeg/define_quantization_table.go b/pkg/codecs/jpeg/define_quantization_table.go
index 6234c8c..ea32423 100644
--- a/pkg/codecs/jpeg/define_quantization_table.go
+++ b/pkg/codecs/jpeg/define_quantization_table.go
@@ -18,6 +18,8 @@ type DefineQuantizationTable struct {
 
 // Unmarshal decodes the marker.
 func (m *DefineQuantizationTable) Unmarshal(buf []byte) error {
+	m.Tables = nil
+
 	for len(buf) != 0 {
 		id := buf[0] & 0x0F
 		precision := buf[0] >> 4
diff --git a/pkg/codecs/vp9/header.go b/pkg/codecs/vp9/header.go
index c483792..6bea90d 100644
--- a/pkg/codecs/vp9/header.go
+++ b/pkg/codecs/vp9/header.go
@@ -108,6 +108,8 @@ type Header struct {
 
 // Unmarshal decodes a Header.
 func (h *Header) Unmarshal(buf []byte) error {
+	*h = Header{}
+
 	pos := 0
 
 	err := bits.HasSpace(buf, pos, 4)
-- 
2.43.0


From 1022296b4933f4e4b0f1fa852941e4f928cbcfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 11/63] fix: av1: reject LEB128 values that are not terminated
 or do not fit into 32 bits

---
 pkg/codecs/av1/leb128.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/codecs/av1/leb128.go b/pkg/codecs/av1/leb128.go
index fbb2783..425c311 100644
--- a/pkg/codecs/av1/leb128.go
+++ b/pkg/codecs/av1/leb128.go
@@ -2,6 +2,7 @@ package av1
 
 import (
 	"fmt"
+	"math"
 )
 
 // LEB128 is a unsigned integer that can be decoded/encoded from/to the LEB128 format.
@@ -22,15 +23,20 @@ func (l *LEB128) Unmarshal(buf []byte) (int, error) {
 		var b byte
 		b, buf = buf[0], buf[1:]
 
-		*l |= (LEB128(b&0b01111111) << (i * 7))
+		v := uint64(b&0b01111111) << (i * 7)
+		if v > math.MaxUint32 {
+			return 0, fmt.Errorf("value does not fit into 32 bits")
+		}
+
+		*l |= LEB128(v)
 		n++
 
 		if (b & 0b10000000) == 0 {
-			break
+			return n, nil
 		}
 	}
 
-	return n, nil
+	return 0, fmt.Errorf("value is not terminated")
 }
 
 // MarshalSize returns the marshal size in bytes of the unsigned integer in LEB128 format.
-- 
2.43.0


From 18467c3566f0fa54ae029a679e9eb8533310bd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 12/63] fix: mpeg4video: do not panic when a configuration ends
 with an incomplete start code

---
 pkg/codecs/mpeg4video/is_valid_config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/codecs/mpeg4video/is_valid_config.go b/pkg/codecs/mpeg4video/is_valid_config.go
index 556e245..749b392 100644
--- a/pkg/codecs/mpeg4video/is_valid_config.go
+++ b/pkg/codecs/mpeg4video/is_valid_config.go
@@ -24,6 +24,10 @@ func IsValidConfig(config []byte) error {
 		}
 
 		pos += i
+		if pos >= len(config)-3 {
+			break
+		}
+
 		startCode := StartCode(config[pos+3])
 
 		switch {
-- 
2.43.0


From 5b9fd4c420c849e8c59dd152583a6169f224b85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 13/63] fix: av1: skip separate_uv_delta_q when decoding a
 sequence header

---
 pkg/codecs/av1/sequence_header.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/codecs/av1/sequence_header.go b/pkg/codecs/av1/sequence_header.go
index b9bb625..ce5a26d 100644
--- a/pkg/codecs/av1/sequence_header.go
+++ b/pkg/codecs/av1/sequence_header.go
@@ -184,6 +184,13 @@ func (c *SequenceHeader_ColorConfig) unmarshal(seqProfile uint8, buf []byte, pos
 		}
 	}
 
+	if !c.MonoChrome {
+		_, err = bits.ReadFlag(buf, pos) // separate_uv_delta_q
+		if err != nil {
+			return err
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 47ad20681fbec9a92293bff4b92f8f3b19104257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 14/63] fix: av1: reject OBUs that are not sequence headers
 when decoding a sequence header

---
 pkg/codecs/av1/sequence_header.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/codecs/av1/sequence_header.go b/pkg/codecs/av1/sequence_header.go
index ce5a26d..87bf228 100644
--- a/pkg/codecs/av1/sequence_header.go
+++ b/pkg/codecs/av1/sequence_header.go
@@ -276,6 +276,10 @@ func (h *SequenceHeader) Unmarshal(buf []byte) error {
 	}
 	buf = buf[1:]
 
+	if oh.Type != OBUTypeSequenceHeader {
+		return fmt.Errorf("not a sequence header")
+	}
+
 	*h = SequenceHeader{}
 
 	if oh.HasSize {
-- 
2.43.0


From 11723cbb50f9305134bc68311cfea7fda0588799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 15/63] fix: mpeg4audio: do not keep data of the previous value
 when decoding into a used one

---
 pkg/codecs/mpeg4audio/adts.go                  | 2 ++
 pkg/codecs/mpeg4audio/audio_specific_config.go | 2 ++
 pkg/codecs/mpeg4audio/audio_sync_stream.go     | 2 ++
 pkg/codecs/mpeg4audio/stream_mux_config.go     | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/pkg/codecs/mpeg4audio/adts.go b/pkg/codecs/mpeg4audio/adts.go
index 4d661a9..05bf7be 100644
--- a/pkg/codecs/mpeg4audio/adts.go
+++ b/pkg/codecs/mpeg4audio/adts.go
@@ -27,6 +27,8 @@ type ADTSPackets []*ADTSPacket
 
 // Unmarshal decodes an ADTS stream into ADTS packets.
 func (ps *ADTSPackets) Unmarshal(buf []byte) error {
+	*ps = nil
+
 	bl := len(buf)
 	pos := 0
 
diff --git a/pkg/codecs/mpeg4audio/audio_specific_config.go b/pkg/codecs/mpeg4audio/audio_specific_config.go
index adb3528..11d6912 100644
--- a/pkg/codecs/mpeg4audio/audio_specific_config.go
+++ b/pkg/codecs/mpeg4audio/audio_specific_config.go
@@ -56,6 +56,8 @@ func (c *AudioSpecificConfig) UnmarshalFromPos(buf []byte, pos *int) error {
 
 // unmarshalBits decodes a AudioSpecificConfig.
 func (c *AudioSpecificConfig) unmarshalBits(buf []byte, pos *int) error {
+	*c = AudioSpecificConfig{}
+
 	tmp, err := bits.ReadBits(buf, pos, 5)
 	if err != nil {
 		return err
diff --git a/pkg/codecs/mpeg4audio/audio_sync_stream.go b/pkg/codecs/mpeg4audio/audio_sync_stream.go
index 2adb6f4..2080f1f 100644
--- a/pkg/codecs/mpeg4audio/audio_sync_stream.go
+++ b/pkg/codecs/mpeg4audio/audio_sync_stream.go
@@ -10,6 +10,8 @@ type AudioSyncStream struct {
 
 // Unmarshal decodes an AudioSyncStream.
 func (s *AudioSyncStream) Unmarshal(buf []byte) error {
+	s.AudioMuxElements = nil
+
 	for {
 		if len(buf) < 3 {
 			return fmt.Errorf("buffer is too short")
diff --git a/pkg/codecs/mpeg4audio/stream_mux_config.go b/pkg/codecs/mpeg4audio/stream_mux_config.go
index 6362170..3d5669d 100644
--- a/pkg/codecs/mpeg4audio/stream_mux_config.go
+++ b/pkg/codecs/mpeg4audio/stream_mux_config.go
@@ -54,6 +54,8 @@ func (c *StreamMuxConfig) Unmarshal(buf []byte) error {
 
 // unmarshalBits decodes a StreamMuxConfig.
 func (c *StreamMuxConfig) unmarshalBits(buf []byte, pos *int) error {
+	*c = StreamMuxConfig{}
+
 	err := bits.HasSpace(buf, *pos, 12)
 	if err != nil {
 		return err
-- 
2.43.0


From b62f9bf51e09e0f901c1a3022a8d4f875e57ddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 16/63] fix: mpeg4audio: reject other data lengths that do not
 fit into 32 bits

---
 pkg/codecs/mpeg4audio/stream_mux_config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/codecs/mpeg4audio/stream_mux_config.go b/pkg/codecs/mpeg4audio/stream_mux_config.go
index 3d5669d..df0f2c1 100644
--- a/pkg/codecs/mpeg4audio/stream_mux_config.go
+++ b/pkg/codecs/mpeg4audio/stream_mux_config.go
@@ -2,6 +2,7 @@ package mpeg4audio
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/bluenviron/mediacommon/v2/pkg/bits"
 )
@@ -160,6 +161,10 @@ func (c *StreamMuxConfig) unmarshalBits(buf []byte, pos *int) error {
 
 	if c.OtherDataPresent {
 		for {
+			if c.OtherDataLenBits > (math.MaxUint32 >> 8) {
+				return fmt.Errorf("invalid otherDataLenBits")
+			}
+
 			c.OtherDataLenBits *= 256
 
 			err = bits.HasSpace(buf, *pos, 9)
-- 
2.43.0


From 3ba813642b012d0e8216998b8e04349c64d32481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 17/63] fix: mpeg4audio: return an error when an ADTS access
 unit or channel configuration does not fit, do not edit packets

---
 pkg/codecs/mpeg4audio/adts.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pkg/codecs/mpeg4audio/adts.go b/pkg/codecs/mpeg4audio/adts.go
index 05bf7be..5bacdaa 100644
--- a/pkg/codecs/mpeg4audio/adts.go
+++ b/pkg/codecs/mpeg4audio/adts.go
@@ -145,30 +145,41 @@ func (ps ADTSPackets) Marshal() ([]byte, error) {
 			return nil, fmt.Errorf("invalid sample rate: %d", pkt.SampleRate)
 		}
 
-		if pkt.ChannelConfig == 0 {
+		channelConfig := pkt.ChannelConfig
+
+		if channelConfig == 0 {
 			switch {
 			case pkt.ChannelCount == 0:
-				pkt.ChannelConfig = 0
+				channelConfig = 0
 
 			case pkt.ChannelCount >= 1 && pkt.ChannelCount <= 6:
-				pkt.ChannelConfig = uint8(pkt.ChannelCount)
+				channelConfig = uint8(pkt.ChannelCount)
 
 			case pkt.ChannelCount == 8:
-				pkt.ChannelConfig = 7
+				channelConfig = 7
 
 			default:
 				return nil, fmt.Errorf("invalid channel count (%d)", pkt.ChannelCount)
 			}
 		}
 
+		if channelConfig > 7 {
+			return nil, fmt.Errorf("invalid channel configuration (%d)", channelConfig)
+		}
+
 		frameLen := len(pkt.AU) + 7
 
+		// frame length is a 13-bit field
+		if frameLen > 8191 {
+			return nil, fmt.Errorf("access unit size (%d) is too big, maximum is %d", len(pkt.AU), 8191-7)
+		}
+
 		const fullness = 0x07FF // like ffmpeg does
 
 		buf[pos+0] = 0xFF
 		buf[pos+1] = 0xF1
-		buf[pos+2] = byte(pkt.Type-1)<<6 | byte(sampleRateIndex)<<2 | (pkt.ChannelConfig >> 2)
-		buf[pos+3] = (pkt.ChannelConfig&0x03)<<6 | byte(frameLen>>11)
+		buf[pos+2] = byte(pkt.Type-1)<<6 | byte(sampleRateIndex)<<2 | (channelConfig >> 2)
+		buf[pos+3] = (channelConfig&0x03)<<6 | byte(frameLen>>11)
 		buf[pos+4] = byte(frameLen >> 3)
 		buf[pos+5] = byte(frameLen&0x07)<<5 | byte(fullness>>6)
 		buf[pos+6] = byte(fullness&0x3F) << 2
-- 
2.43.0


From e59c9ed50146b6e964003f72637d46385adec487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 18/63] fix: mpeg4audio: return an error when an element does
 not fit into an AudioSyncStream

---
 pkg/codecs/mpeg4audio/audio_sync_stream.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/codecs/mpeg4audio/audio_sync_stream.go b/pkg/codecs/mpeg4audio/audio_sync_stream.go
index 2080f1f..5c4c52b 100644
--- a/pkg/codecs/mpeg4audio/audio_sync_stream.go
+++ b/pkg/codecs/mpeg4audio/audio_sync_stream.go
@@ -55,6 +55,12 @@ func (s AudioSyncStream) Marshal() ([]byte, error) {
 	for _, el := range s.AudioMuxElements {
 		shiftedSyncWord := 0x2B7 << 5
 		le := len(el)
+
+		// length is a 13-bit field
+		if le > 8191 {
+			return nil, fmt.Errorf("AudioMuxElement size (%d) is too big, maximum is %d", le, 8191)
+		}
+
 		buf[n] = byte(shiftedSyncWord >> 8)
 		buf[n+1] = byte(shiftedSyncWord) | byte(le>>8)
 		buf[n+2] = byte(le)
-- 
2.43.0


From da68fcabace7474780bb064db03a9d826eeed134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 19/63] fix: mpeg4audio: encoding an AudioMuxElement with an
 unsupported frame length type panicked

---
 pkg/codecs/mpeg4audio/audio_mux_element.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pkg/codecs/mpeg4audio/audio_mux_element.go b/pkg/codecs/mpeg4audio/audio_mux_element.go
index 09ab571..74e455c 100644
--- a/pkg/codecs/mpeg4audio/audio_mux_element.go
+++ b/pkg/codecs/mpeg4audio/audio_mux_element.go
@@ -84,7 +84,7 @@ func (e *AudioMuxElement) Unmarshal(buf []byte) error {
 	return nil
 }
 
-func (e AudioMuxElement) marshalSize() int {
+func (e AudioMuxElement) marshalSize() (int, error) {
 	n := 0
 
 	if e.MuxConfigPresent {
@@ -106,7 +106,7 @@ func (e AudioMuxElement) marshalSize() int {
 			for lay := range p.Layers {
 				err := li.setPayloadLength(prog, lay, uint64(len(e.Payloads[i][prog][lay])))
 				if err != nil {
-					return 0
+					return 0, err
 				}
 			}
 		}
@@ -122,19 +122,24 @@ func (e AudioMuxElement) marshalSize() int {
 		n2++
 	}
 
-	return n2
+	return n2, nil
 }
 
 // Marshal encodes an AudioMuxElement.
 func (e AudioMuxElement) Marshal() ([]byte, error) {
-	buf := make([]byte, e.marshalSize())
+	size, err := e.marshalSize()
+	if err != nil {
+		return nil, err
+	}
+
+	buf := make([]byte, size)
 	pos := 0
 
 	if e.MuxConfigPresent {
 		bits.WriteFlagUnsafe(buf, &pos, e.UseSameStreamMux)
 
 		if !e.UseSameStreamMux {
-			err := e.StreamMuxConfig.marshalToBits(buf, &pos)
+			err = e.StreamMuxConfig.marshalToBits(buf, &pos)
 			if err != nil {
 				return nil, err
 			}
@@ -151,14 +156,14 @@ func (e AudioMuxElement) Marshal() ([]byte, error) {
 			li.Programs[prog].Layers = make([]payloadLengthInfoLayer, len(p.Layers))
 
 			for lay := range p.Layers {
-				err := li.setPayloadLength(prog, lay, uint64(len(e.Payloads[i][prog][lay])))
+				err = li.setPayloadLength(prog, lay, uint64(len(e.Payloads[i][prog][lay])))
 				if err != nil {
 					return nil, err
 				}
 			}
 		}
 
-		err := li.marshalToBits(buf, &pos)
+		err = li.marshalToBits(buf, &pos)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 45584374d3fb9ecc88525e49bbcafad824a2189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 20/63] fix: mpeg4audio: CountChannelsFromRawDataBlock parsed
 the rest of a truncated element as another element

---
 pkg/codecs/mpeg4audio/count_channels.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pkg/codecs/mpeg4audio/count_channels.go b/pkg/codecs/mpeg4audio/count_channels.go
index 267b442..f301ea5 100644
--- a/pkg/codecs/mpeg4audio/count_channels.go
+++ b/pkg/codecs/mpeg4audio/count_channels.go
@@ -37,6 +37,7 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 	channels := 0
 
 	// Parse elements until we hit END or run out of data
+outer:
 	for pos < len(au)*8 {
 		// Read id_syn_ele (3 bits)
 		idSynEle, err := bits.ReadBits(au, &pos, 3)
@@ -51,7 +52,7 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 			// Skip element_instance_tag (4 bits)
 			_, err = bits.ReadBits(au, &pos, 4)
 			if err != nil {
-				break
+				break outer
 			}
 			channels++
 			// We can't easily skip the rest of the SCE without fully parsing it,
@@ -63,7 +64,7 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 			// Skip element_instance_tag (4 bits)
 			_, err = bits.ReadBits(au, &pos, 4)
 			if err != nil {
-				break
+				break outer
 			}
 			channels += 2
 			return channels, nil
@@ -73,7 +74,7 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 			// Skip element_instance_tag (4 bits)
 			_, err = bits.ReadBits(au, &pos, 4)
 			if err != nil {
-				break
+				break outer
 			}
 			channels++
 			return channels, nil
@@ -94,19 +95,19 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 			// Skip element_instance_tag (4 bits)
 			_, err = bits.ReadBits(au, &pos, 4)
 			if err != nil {
-				break
+				break outer
 			}
 			// data_byte_align_flag (1 bit)
 			var alignFlag bool
 			alignFlag, err = bits.ReadFlag(au, &pos)
 			if err != nil {
-				break
+				break outer
 			}
 			// count (8 bits)
 			var count uint64
 			count, err = bits.ReadBits(au, &pos, 8)
 			if err != nil {
-				break
+				break outer
 			}
 			totalCount := int(count)
 			// If count == 255, read esc_count
@@ -114,7 +115,7 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 				var escCount uint64
 				escCount, err = bits.ReadBits(au, &pos, 8)
 				if err != nil {
-					break
+					break outer
 				}
 				totalCount += int(escCount)
 			}
@@ -133,14 +134,14 @@ func CountChannelsFromRawDataBlock(au []byte) (int, error) {
 			var count uint64
 			count, err = bits.ReadBits(au, &pos, 4)
 			if err != nil {
-				break
+				break outer
 			}
 			totalCount := int(count)
 			if count == 15 {
 				var escCount uint64
 				escCount, err = bits.ReadBits(au, &pos, 8)
 				if err != nil {
-					break
+					break outer
 				}
 				totalCount += int(escCount) - 1
 			}
-- 
2.43.0


From 6de3880c4aec91d279199a21f43b8ace79dd2a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:55 +0000
Subject: [PATCH 21/63] fix: mpeg1audio: compute the length of MPEG-2 layer III
 frames from their 576 samples

---
 pkg/codecs/mpeg1audio/frame_header.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/codecs/mpeg1audio/frame_header.go b/pkg/codecs/mpeg1audio/frame_header.go
index 5e4c7a1..ad70f56 100644
--- a/pkg/codecs/mpeg1audio/frame_header.go
+++ b/pkg/codecs/mpeg1audio/frame_header.go
@@ -183,10 +183,12 @@ func (h *FrameHeader) Unmarshal(buf []byte) error {
 
 // FrameLen returns the length of the frame associated with the header.
 func (h FrameHeader) FrameLen() int {
+	// 8 is the number of bits of a byte.
+	le := h.SampleCount() / 8 * h.Bitrate / h.SampleRate
 	if h.Padding {
-		return (144 * h.Bitrate / h.SampleRate) + 1
+		le++
 	}
-	return (144 * h.Bitrate / h.SampleRate)
+	return le
 }
 
 // SampleCount returns the number of samples contained into the frame.
-- 
2.43.0


From 5544b62732d5700ebcac13f4a61e68e3b2a001c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:55 +0000
Subject: [PATCH 22/63] fix: eac3: do not keep data of the previous value when
 decoding into a used one

---
 pkg/codecs/eac3/sync_info.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/codecs/eac3/sync_info.go b/pkg/codecs/eac3/sync_info.go
index 2a0cd5e..02a0891 100644
--- a/pkg/codecs/eac3/sync_info.go
+++ b/pkg/codecs/eac3/sync_info.go
@@ -55,6 +55,8 @@ func (s *SyncInfo) Unmarshal(frame []byte) error {
 		return fmt.Errorf("not enough bytes")
 	}
 
+	*s = SyncInfo{}
+
 	// Check sync word
 	if frame[0] != 0x0B || frame[1] != 0x77 {
 		return fmt.Errorf("invalid sync word")
-- 
2.43.0


From 7d7c3e4a5dc398c11983763b6b930f1923995adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 23/63] fix: mpegts: reading never ended when the source failed
 with an error wrapping io.EOF

---
 pkg/formats/mpegts/robust_demuxer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/formats/mpegts/robust_demuxer.go b/pkg/formats/mpegts/robust_demuxer.go
index c3fd978..be0a099 100644
--- a/pkg/formats/mpegts/robust_demuxer.go
+++ b/pkg/formats/mpegts/robust_demuxer.go
@@ -52,7 +52,8 @@ func (r *errorWrapper) Read(p []byte) (int, error) {
 		// since they are needed by astits to handle the last packet of a stream.
 		// they are transformed into astits.ErrNoMorePackets.
 		// https://github.com/asticode/go-astits/blob/7c2bf6b71173d24632371faa01f28a9122db6382/packet_buffer.go#L131
-		if !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
+		// errors that wrap them must be routed too, since io.ReadFull and astits do not recognize them.
+		if err != io.EOF && err != io.ErrUnexpectedEOF { //nolint:errorlint
 			err = &wrappedError{w: err}
 		}
 	}
-- 
2.43.0


From 26321776e52b9b0091e946ffe02b4bab050449e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 24/63] fix: mpegts: errors returned by the source together
 with data were lost

---
 pkg/formats/mpegts/pre_demuxer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/formats/mpegts/pre_demuxer.go b/pkg/formats/mpegts/pre_demuxer.go
index 4e1ed83..b9695a7 100644
--- a/pkg/formats/mpegts/pre_demuxer.go
+++ b/pkg/formats/mpegts/pre_demuxer.go
@@ -14,6 +14,7 @@ type preDemuxer struct {
 
 	buf1    []byte
 	buf1Pos int
+	buf1Err error
 	buf2    []byte
 	buf2Pos int
 }
@@ -38,10 +39,18 @@ func (r *preDemuxer) Read(p []byte) (int, error) {
 			// This is mandatory in case of packet-based connections (UDP)
 			// and improves performance in case of stream-based connections.
 			if len(r.buf1[r.buf1Pos:]) == 0 {
+				// return errors that arrived together with data.
+				if r.buf1Err != nil {
+					err := r.buf1Err
+					r.buf1Err = nil
+					return 0, err
+				}
+
 				n3, err := r.R.Read(r.buf1[:cap(r.buf1)])
 				if n3 == 0 && err != nil {
 					return 0, err
 				}
+				r.buf1Err = err
 				r.buf1Pos = 0
 				r.buf1 = r.buf1[:n3]
 			}
-- 
2.43.0


From f30907fd36bfb8bf7e1d9abb627c7f1038487058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 25/63] fix: mpegts: parameters of a track were not found when
 its data preceded that of previous tracks

---
 pkg/formats/mpegts/robust_demuxer.go |  33 +++++++++
 pkg/formats/mpegts/track.go          | 100 +++++++++++----------------
 2 files changed, 74 insertions(+), 59 deletions(-)

diff --git a/pkg/formats/mpegts/robust_demuxer.go b/pkg/formats/mpegts/robust_demuxer.go
index be0a099..b73605f 100644
--- a/pkg/formats/mpegts/robust_demuxer.go
+++ b/pkg/formats/mpegts/robust_demuxer.go
@@ -126,6 +126,7 @@ type robustDemuxer struct {
 
 	dem            *astits.Demuxer
 	ptsInterceptor *ptsInterceptor
+	firstPESs      map[uint16]*astits.PESData
 }
 
 func (d *robustDemuxer) initialize() {
@@ -177,3 +178,35 @@ func (d *robustDemuxer) nextData() (*robustDemuxerData, error) {
 		}, nil
 	}
 }
+
+// firstPES returns the first PES of given PID, reading the stream until it is found.
+// The first PES of any PID that is met on the way is kept,
+// since its position with respect to the others is not known in advance.
+func (d *robustDemuxer) firstPES(pid uint16) (*astits.PESData, error) {
+	if pes, ok := d.firstPESs[pid]; ok {
+		return pes, nil
+	}
+
+	if d.firstPESs == nil {
+		d.firstPESs = make(map[uint16]*astits.PESData)
+	}
+
+	for {
+		data, err := d.nextData()
+		if err != nil {
+			return nil, err
+		}
+
+		if data.PES == nil {
+			continue
+		}
+
+		if _, ok := d.firstPESs[data.PID]; !ok {
+			d.firstPESs[data.PID] = data.PES
+		}
+
+		if data.PID == pid {
+			return data.PES, nil
+		}
+	}
+}
diff --git a/pkg/formats/mpegts/track.go b/pkg/formats/mpegts/track.go
index 6ea285e..b646ce8 100644
--- a/pkg/formats/mpegts/track.go
+++ b/pkg/formats/mpegts/track.go
@@ -26,78 +26,60 @@ const (
 )
 
 func findMPEG4AudioConfig(dem *robustDemuxer, pid uint16) (*mpeg4audio.AudioSpecificConfig, error) {
-	for {
-		data, err := dem.nextData()
-		if err != nil {
-			return nil, err
-		}
-
-		if data.PES == nil || data.PID != pid {
-			continue
-		}
-
-		var adtsPkts mpeg4audio.ADTSPackets
-		err = adtsPkts.Unmarshal(data.PES.Data)
-		if err != nil {
-			return nil, fmt.Errorf("unable to decode ADTS: %w", err)
-		}
+	pes, err := dem.firstPES(pid)
+	if err != nil {
+		return nil, err
+	}
 
-		pkt := adtsPkts[0]
-		return &mpeg4audio.AudioSpecificConfig{
-			Type:          pkt.Type,
-			SampleRate:    pkt.SampleRate,
-			ChannelConfig: pkt.ChannelConfig,
-			ChannelCount:  pkt.ChannelCount, //nolint:staticcheck
-		}, nil
+	var adtsPkts mpeg4audio.ADTSPackets
+	err = adtsPkts.Unmarshal(pes.Data)
+	if err != nil {
+		return nil, fmt.Errorf("unable to decode ADTS: %w", err)
 	}
+
+	pkt := adtsPkts[0]
+	return &mpeg4audio.AudioSpecificConfig{
+		Type:          pkt.Type,
+		SampleRate:    pkt.SampleRate,
+		ChannelConfig: pkt.ChannelConfig,
+		ChannelCount:  pkt.ChannelCount, //nolint:staticcheck
+	}, nil
 }
 
 func findAC3Parameters(dem *robustDemuxer, pid uint16) (int, int, error) {
-	for {
-		data, err := dem.nextData()
-		if err != nil {
-			return 0, 0, err
-		}
-
-		if data.PES == nil || data.PID != pid {
-			continue
-		}
-
-		var syncInfo ac3.SyncInfo
-		err = syncInfo.Unmarshal(data.PES.Data)
-		if err != nil {
-			return 0, 0, fmt.Errorf("invalid AC-3 frame: %w", err)
-		}
+	pes, err := dem.firstPES(pid)
+	if err != nil {
+		return 0, 0, err
+	}
 
-		var bsi ac3.BSI
-		err = bsi.Unmarshal(data.PES.Data[5:])
-		if err != nil {
-			return 0, 0, fmt.Errorf("invalid AC-3 frame: %w", err)
-		}
+	var syncInfo ac3.SyncInfo
+	err = syncInfo.Unmarshal(pes.Data)
+	if err != nil {
+		return 0, 0, fmt.Errorf("invalid AC-3 frame: %w", err)
+	}
 
-		return syncInfo.SampleRate(), bsi.ChannelCount(), nil
+	var bsi ac3.BSI
+	err = bsi.Unmarshal(pes.Data[5:])
+	if err != nil {
+		return 0, 0, fmt.Errorf("invalid AC-3 frame: %w", err)
 	}
+
+	return syncInfo.SampleRate(), bsi.ChannelCount(), nil
 }
 
 func findEAC3Parameters(dem *robustDemuxer, pid uint16) (int, int, error) {
-	for {
-		data, err := dem.nextData()
-		if err != nil {
-			return 0, 0, err
-		}
-
-		if data.PES == nil || data.PID != pid {
-			continue
-		}
-
-		var syncInfo eac3.SyncInfo
-		err = syncInfo.Unmarshal(data.PES.Data)
-		if err != nil {
-			return 0, 0, fmt.Errorf("invalid E-AC-3 frame: %w", err)
-		}
+	pes, err := dem.firstPES(pid)
+	if err != nil {
+		return 0, 0, err
+	}
 
-		return syncInfo.SampleRate(), syncInfo.ChannelCount(), nil
+	var syncInfo eac3.SyncInfo
+	err = syncInfo.Unmarshal(pes.Data)
+	if err != nil {
+		return 0, 0, fmt.Errorf("invalid E-AC-3 frame: %w", err)
 	}
+
+	return syncInfo.SampleRate(), syncInfo.ChannelCount(), nil
 }
 
 func findRegistrationIdentifier(descriptors []*astits.Descriptor) (uint32, bool) {
-- 
2.43.0


From 0c975f7425d042f0dd1a0e9d5ed8e5d13dcb8fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 26/63] fix: mpegts: a write error was lost when it hit a
 stuffing byte

---
 pkg/formats/mpegts/writer.go | 40 +++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/pkg/formats/mpegts/writer.go b/pkg/formats/mpegts/writer.go
index 56d0ee1..b6de9d6 100644
--- a/pkg/formats/mpegts/writer.go
+++ b/pkg/formats/mpegts/writer.go
@@ -50,12 +50,29 @@ func mpeg1AudioMarshalSize(frames [][]byte) int {
 	return n
 }
 
+// outputWriter keeps the first write error of each operation, since astits.Muxer ignores some of them.
+type outputWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (o *outputWriter) Write(p []byte) (int, error) {
+	if o.err != nil {
+		return 0, o.err
+	}
+
+	n, err := o.w.Write(p)
+	o.err = err
+	return n, err
+}
+
 // Writer is a MPEG-TS writer.
 type Writer struct {
 	W      io.Writer
 	Tracks []*Track
 
 	nextPID            uint16
+	output             *outputWriter
 	mux                *astits.Muxer
 	pcrCounter         int
 	leadingTrackChosen bool
@@ -65,9 +82,11 @@ type Writer struct {
 func (w *Writer) Initialize() error {
 	w.nextPID = 256
 
+	w.output = &outputWriter{w: w.W}
+
 	w.mux = astits.NewMuxer(
 		context.Background(),
-		w.W)
+		w.output)
 
 	for _, track := range w.Tracks {
 		if track.PID == 0 {
@@ -102,9 +121,19 @@ func (w *Writer) WriteTables() (int, error) {
 	if !w.leadingTrackChosen && len(w.Tracks) > 0 {
 		w.mux.SetPCRPID(w.Tracks[0].PID)
 	}
+	w.output.err = nil
 	return w.mux.WriteTables()
 }
 
+func (w *Writer) writeToMux(data *astits.MuxerData) error {
+	w.output.err = nil
+	_, err := w.mux.WriteData(data)
+	if err != nil {
+		return err
+	}
+	return w.output.err
+}
+
 // NewWriter allocates a Writer.
 //
 // Deprecated: replaced by Writer.Initialize().
@@ -383,7 +412,7 @@ func (w *Writer) writeVideo(
 		oh.PTS = &astits.ClockReference{Base: pts}
 	}
 
-	_, err := w.mux.WriteData(&astits.MuxerData{
+	return w.writeToMux(&astits.MuxerData{
 		PID:             track.PID,
 		AdaptationField: af,
 		PES: &astits.PESData{
@@ -394,7 +423,6 @@ func (w *Writer) writeVideo(
 			Data: data,
 		},
 	})
-	return err
 }
 
 func (w *Writer) writeAudio(track *Track, pts int64, data []byte) error {
@@ -417,7 +445,7 @@ func (w *Writer) writeAudio(track *Track, pts int64, data []byte) error {
 		w.pcrCounter--
 	}
 
-	_, err := w.mux.WriteData(&astits.MuxerData{
+	return w.writeToMux(&astits.MuxerData{
 		PID:             track.PID,
 		AdaptationField: af,
 		PES: &astits.PESData{
@@ -432,7 +460,6 @@ func (w *Writer) writeAudio(track *Track, pts int64, data []byte) error {
 			Data: data,
 		},
 	})
-	return err
 }
 
 func (w *Writer) writeData(track *Track, hasPTS bool, pts int64, streamID uint8, data []byte) error {
@@ -469,7 +496,7 @@ func (w *Writer) writeData(track *Track, hasPTS bool, pts int64, streamID uint8,
 		OptionalHeader: oh,
 	}
 
-	_, err := w.mux.WriteData(&astits.MuxerData{
+	return w.writeToMux(&astits.MuxerData{
 		PID:             track.PID,
 		AdaptationField: af,
 		PES: &astits.PESData{
@@ -477,5 +504,4 @@ func (w *Writer) writeData(track *Track, hasPTS bool, pts int64, streamID uint8,
 			Data:   data,
 		},
 	})
-	return err
 }
-- 
2.43.0


From 572922d185b943c1fc53883c9d2cf0b7334af8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 27/63] fix: mpegts: MPEG-1 Audio was reported as a video codec

---
 pkg/formats/mpegts/codecs/mpeg1_audio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/formats/mpegts/codecs/mpeg1_audio.go b/pkg/formats/mpegts/codecs/mpeg1_audio.go
index 149aa6b..f74c409 100644
--- a/pkg/formats/mpegts/codecs/mpeg1_audio.go
+++ b/pkg/formats/mpegts/codecs/mpeg1_audio.go
@@ -11,7 +11,7 @@ type MPEG1Audio struct {
 
 // IsVideo implements Codec.
 func (*MPEG1Audio) IsVideo() bool {
-	return true
+	return false
 }
 
 func (*MPEG1Audio) isCodec() {}
-- 
2.43.0


From 7a6e4a763585942499f1b2082d90a9e81c03706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:42 +0000
Subject: [PATCH 28/63] fix: mpegts: Opus audio descriptors with one channel
 lost their mapping, invalid ones panicked

---
 .../substructs/opus_audio_descriptor.go       | 63 ++++++++++++++++---
 pkg/formats/mpegts/track.go                   |  5 +-
 pkg/formats/mpegts/writer.go                  |  7 ++-
 3 files changed, 63 insertions(+), 12 deletions(-)

diff --git a/pkg/formats/mpegts/substructs/opus_audio_descriptor.go b/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
index 94b0222..49c98db 100644
--- a/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
+++ b/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
@@ -108,6 +108,10 @@ func (d *OpusAudioDescriptor) Unmarshal(buf []byte) error {
 		}
 		d.CoupledStreamCount = int(tmp)
 
+		if (d.StreamCount + d.CoupledStreamCount) > 255 {
+			return fmt.Errorf("too many streams: %d", d.StreamCount+d.CoupledStreamCount)
+		}
+
 		d.ChannelMapping = make([]byte, d.ExplicitChannelCount)
 		for i := range d.ChannelMapping {
 			var v uint64
@@ -135,10 +139,6 @@ func (d OpusAudioDescriptor) marshalSize() int {
 			return 3
 		}
 
-		if d.ExplicitChannelCount == 1 {
-			return 4
-		}
-
 		bitsForStreamCountMinus1 := ceilLog2(d.ExplicitChannelCount)
 		bitsForCoupled := ceilLog2(d.StreamCount + 1)
 		bitsPerMapping := ceilLog2(d.StreamCount + d.CoupledStreamCount + 1)
@@ -151,8 +151,58 @@ func (d OpusAudioDescriptor) marshalSize() int {
 	}
 }
 
+func (d OpusAudioDescriptor) validate() error {
+	if d.ChannelConfigCode != 0x81 {
+		if _, ok := channelConfigTable[d.ChannelConfigCode]; !ok {
+			return fmt.Errorf("unsupported channel_config_code: 0x%02X", d.ChannelConfigCode)
+		}
+		return nil
+	}
+
+	if d.ExplicitChannelCount <= 0 || d.ExplicitChannelCount > 255 {
+		return fmt.Errorf("invalid channel_count: %d", d.ExplicitChannelCount)
+	}
+
+	if d.MappingFamily < 0 || d.MappingFamily > 255 {
+		return fmt.Errorf("invalid mapping_family: %d", d.MappingFamily)
+	}
+
+	if d.MappingFamily == 0 {
+		if d.ExplicitChannelCount > 2 {
+			return fmt.Errorf("unsupported channel_count for mapping_family 0: %d", d.ExplicitChannelCount)
+		}
+		return nil
+	}
+
+	if d.StreamCount <= 0 || (d.StreamCount-1) >= (1<<ceilLog2(d.ExplicitChannelCount)) {
+		return fmt.Errorf("invalid stream_count: %d", d.StreamCount)
+	}
+
+	if d.CoupledStreamCount < 0 || d.CoupledStreamCount >= (1<<ceilLog2(d.StreamCount+1)) ||
+		(d.StreamCount+d.CoupledStreamCount) > 255 {
+		return fmt.Errorf("invalid coupled_stream_count: %d", d.CoupledStreamCount)
+	}
+
+	if len(d.ChannelMapping) != d.ExplicitChannelCount {
+		return fmt.Errorf("invalid channel_mapping length: %d", len(d.ChannelMapping))
+	}
+
+	for _, v := range d.ChannelMapping {
+		if int(v) >= (1 << ceilLog2(d.StreamCount+d.CoupledStreamCount+1)) {
+			return fmt.Errorf("invalid channel_mapping entry: %d", v)
+		}
+	}
+
+	return nil
+}
+
 // Marshal encodes an AudioDescriptor.
 func (d OpusAudioDescriptor) Marshal() ([]byte, error) {
+	err := d.validate()
+	if err != nil {
+		return nil, err
+	}
+
 	out := make([]byte, d.marshalSize())
 
 	switch d.ChannelConfigCode {
@@ -165,11 +215,6 @@ func (d OpusAudioDescriptor) Marshal() ([]byte, error) {
 			return out, nil
 		}
 
-		if d.ExplicitChannelCount == 1 {
-			out[3] = 0
-			return out, nil
-		}
-
 		bitsForStreamCountMinus1 := ceilLog2(d.ExplicitChannelCount)
 		bitsForCoupled := ceilLog2(d.StreamCount + 1)
 		bitsPerMapping := ceilLog2(d.StreamCount + d.CoupledStreamCount + 1)
diff --git a/pkg/formats/mpegts/track.go b/pkg/formats/mpegts/track.go
index b646ce8..fea7809 100644
--- a/pkg/formats/mpegts/track.go
+++ b/pkg/formats/mpegts/track.go
@@ -379,7 +379,10 @@ func (t Track) marshal() (*astits.PMTElementaryStream, error) {
 			}
 		}
 
-		enc, _ := desc.Marshal()
+		enc, err := desc.Marshal()
+		if err != nil {
+			return nil, err
+		}
 
 		es = &astits.PMTElementaryStream{
 			ElementaryPID: t.PID,
diff --git a/pkg/formats/mpegts/writer.go b/pkg/formats/mpegts/writer.go
index b6de9d6..e7cd036 100644
--- a/pkg/formats/mpegts/writer.go
+++ b/pkg/formats/mpegts/writer.go
@@ -93,9 +93,12 @@ func (w *Writer) Initialize() error {
 			track.PID = w.nextPID
 			w.nextPID++
 		}
-		es, _ := track.marshal()
+		es, err := track.marshal()
+		if err != nil {
+			return err
+		}
 
-		err := w.mux.AddElementaryStream(*es)
+		err = w.mux.AddElementaryStream(*es)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 8c458de9c962a4bb148ac60c7c89affbf8f5486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 29/63] fix: mpegts: descriptors and headers kept data of the
 previous value when decoding into a used one

---
 pkg/formats/mpegts/substructs/metadata_descriptor.go   | 2 ++
 pkg/formats/mpegts/substructs/opus_audio_descriptor.go | 4 +++-
 pkg/formats/mpegts/substructs/opus_control_header.go   | 2 ++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/formats/mpegts/substructs/metadata_descriptor.go b/pkg/formats/mpegts/substructs/metadata_descriptor.go
index 3deee9f..ea7b40c 100644
--- a/pkg/formats/mpegts/substructs/metadata_descriptor.go
+++ b/pkg/formats/mpegts/substructs/metadata_descriptor.go
@@ -48,6 +48,8 @@ type MetadataDescriptor struct {
 
 // Unmarshal decodes a MetadataDescriptor.
 func (d *MetadataDescriptor) Unmarshal(buf []byte) error {
+	*d = MetadataDescriptor{}
+
 	n := 0
 
 	if len(buf[n:]) < 2 {
diff --git a/pkg/formats/mpegts/substructs/opus_audio_descriptor.go b/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
index 49c98db..41fa2cd 100644
--- a/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
+++ b/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
@@ -65,7 +65,9 @@ func (d *OpusAudioDescriptor) Unmarshal(buf []byte) error {
 		return fmt.Errorf("buffer is too short")
 	}
 
-	d.ChannelConfigCode = buf[0]
+	*d = OpusAudioDescriptor{
+		ChannelConfigCode: buf[0],
+	}
 
 	switch d.ChannelConfigCode {
 	case 0x81:
diff --git a/pkg/formats/mpegts/substructs/opus_control_header.go b/pkg/formats/mpegts/substructs/opus_control_header.go
index 76d40ba..5626442 100644
--- a/pkg/formats/mpegts/substructs/opus_control_header.go
+++ b/pkg/formats/mpegts/substructs/opus_control_header.go
@@ -61,6 +61,8 @@ func (h *OpusControlHeader) unmarshal(buf []byte) (int, error) {
 		return 0, fmt.Errorf("invalid prefix")
 	}
 
+	*h = OpusControlHeader{}
+
 	h.StartTrimFlag = bits.ReadFlagUnsafe(buf, &pos)
 	h.EndTrimFlag = bits.ReadFlagUnsafe(buf, &pos)
 	h.ControlExtensionFlag = bits.ReadFlagUnsafe(buf, &pos)
-- 
2.43.0


From 3bad1c609fceb194840b2054c733e52e2e99eac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:45 +0000
Subject: [PATCH 30/63] fix: mpegts: return an error when descriptor and header
 values do not fit into their fields

---
 pkg/formats/mpegts/substructs/metadata_au_cell.go    |  8 ++++++++
 pkg/formats/mpegts/substructs/metadata_descriptor.go | 12 ++++++++++++
 .../mpegts/substructs/metadata_std_descriptor.go     | 11 +++++++++++
 pkg/formats/mpegts/substructs/opus_control_header.go |  9 +++++++++
 4 files changed, 40 insertions(+)

diff --git a/pkg/formats/mpegts/substructs/metadata_au_cell.go b/pkg/formats/mpegts/substructs/metadata_au_cell.go
index 6334fa4..979e76d 100644
--- a/pkg/formats/mpegts/substructs/metadata_au_cell.go
+++ b/pkg/formats/mpegts/substructs/metadata_au_cell.go
@@ -56,6 +56,14 @@ func (c MetadataAUCell) marshal() ([]byte, error) {
 
 // MarshalTo marshals a MetadataAUCell to a buffer.
 func (c MetadataAUCell) MarshalTo(buf []byte) (int, error) {
+	if c.CellFragmentIndication > 0b11 {
+		return 0, fmt.Errorf("invalid cell_fragment_indication: %v", c.CellFragmentIndication)
+	}
+
+	if len(c.AUCellData) > 0xFFFF {
+		return 0, fmt.Errorf("AU cell data is too big")
+	}
+
 	n := 0
 
 	buf[n] = c.MetadataServiceID
diff --git a/pkg/formats/mpegts/substructs/metadata_descriptor.go b/pkg/formats/mpegts/substructs/metadata_descriptor.go
index ea7b40c..c7747d3 100644
--- a/pkg/formats/mpegts/substructs/metadata_descriptor.go
+++ b/pkg/formats/mpegts/substructs/metadata_descriptor.go
@@ -196,6 +196,18 @@ func (d MetadataDescriptor) marshalSize() int {
 
 // Marshal marshals a MetadataDescriptor to a byte slice.
 func (d MetadataDescriptor) Marshal() ([]byte, error) {
+	switch d.DecoderConfigFlags {
+	case 0b000, 0b001, 0b010, 0b011, 0b100, 0b111:
+	default:
+		return nil, fmt.Errorf("DecoderConfigFlags %v is unsupported", d.DecoderConfigFlags)
+	}
+
+	if (d.DSMCCFlag && len(d.ServiceIdentification) > 255) ||
+		(d.DecoderConfigFlags == 0b001 && len(d.DecoderConfig) > 255) ||
+		(d.DecoderConfigFlags == 0b011 && len(d.DecConfigIdentification) > 255) {
+		return nil, fmt.Errorf("field is too big")
+	}
+
 	buf := make([]byte, d.marshalSize())
 	n := 0
 
diff --git a/pkg/formats/mpegts/substructs/metadata_std_descriptor.go b/pkg/formats/mpegts/substructs/metadata_std_descriptor.go
index b164f4e..74dea51 100644
--- a/pkg/formats/mpegts/substructs/metadata_std_descriptor.go
+++ b/pkg/formats/mpegts/substructs/metadata_std_descriptor.go
@@ -7,6 +7,11 @@ const (
 	DescriptorTagMetadataSTD = 0x27
 )
 
+// values are stored in 22 bits.
+const (
+	maxMetadataSTDValue = (1 << 22) - 1
+)
+
 // MetadataSTDDescriptor is a metadata_std_descriptor.
 // Specification: ISO 13818-1, table 2-88
 type MetadataSTDDescriptor struct {
@@ -45,6 +50,12 @@ func (d MetadataSTDDescriptor) marshalSize() int {
 
 // Marshal encodes a MetadataSTDDescriptor.
 func (d MetadataSTDDescriptor) Marshal() ([]byte, error) {
+	if d.MetadataInputLeakRate > maxMetadataSTDValue ||
+		d.MetadataBufferSize > maxMetadataSTDValue ||
+		d.MetadataOutputLeakRate > maxMetadataSTDValue {
+		return nil, fmt.Errorf("value is too big")
+	}
+
 	buf := make([]byte, d.marshalSize())
 	n := 0
 
diff --git a/pkg/formats/mpegts/substructs/opus_control_header.go b/pkg/formats/mpegts/substructs/opus_control_header.go
index 5626442..46b6426 100644
--- a/pkg/formats/mpegts/substructs/opus_control_header.go
+++ b/pkg/formats/mpegts/substructs/opus_control_header.go
@@ -6,6 +6,11 @@ import (
 	"github.com/bluenviron/mediacommon/v2/pkg/bits"
 )
 
+// trims are stored in 13 bits.
+const (
+	maxOpusTrim = (1 << 13) - 1
+)
+
 func unmarshalPayloadSize(buf []byte, pos *int) (int, error) {
 	res := 0
 
@@ -130,6 +135,10 @@ func (h *OpusControlHeader) marshalSize() int {
 }
 
 func (h *OpusControlHeader) marshalTo(buf []byte) (int, error) {
+	if (h.StartTrimFlag && h.StartTrim > maxOpusTrim) || (h.EndTrimFlag && h.EndTrim > maxOpusTrim) {
+		return 0, fmt.Errorf("trim is too big")
+	}
+
 	buf[0] = 0b01111111
 
 	buf[1] = 0b111 << 5
-- 
2.43.0


From 12ba61dacd1ed67eaa917fe859ac0e9799eab69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:13 +0000
Subject: [PATCH 31/63] fix: mpegts: fragments of a PES without its beginning
 were returned as data

---
 pkg/formats/mpegts/robust_demuxer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/formats/mpegts/robust_demuxer.go b/pkg/formats/mpegts/robust_demuxer.go
index b73605f..ed312fe 100644
--- a/pkg/formats/mpegts/robust_demuxer.go
+++ b/pkg/formats/mpegts/robust_demuxer.go
@@ -164,6 +164,13 @@ func (d *robustDemuxer) nextData() (*robustDemuxerData, error) {
 			continue
 		}
 
+		// when the packet that contains the beginning of a PES is lost,
+		// the remaining ones can still look like a PES, depending on their content.
+		if data.PES != nil && data.FirstPacket != nil && !data.FirstPacket.Header.PayloadUnitStartIndicator {
+			d.OnDecodeError(fmt.Errorf("received a PES without its beginning"))
+			continue
+		}
+
 		return &robustDemuxerData{
 			lastPTS: func() *int64 {
 				if d.ptsInterceptor.hasLastPTS {
-- 
2.43.0


From 42837ee4f2f43693566f85e7368cfe349c02c904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:14 +0000
Subject: [PATCH 32/63] fix: mpegts: duplicated packets caused data to be lost
 or returned twice

---
 pkg/formats/mpegts/robust_demuxer.go | 44 ++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/pkg/formats/mpegts/robust_demuxer.go b/pkg/formats/mpegts/robust_demuxer.go
index ed312fe..d5f9395 100644
--- a/pkg/formats/mpegts/robust_demuxer.go
+++ b/pkg/formats/mpegts/robust_demuxer.go
@@ -1,6 +1,7 @@
 package mpegts
 
 import (
+	"bytes"
 	"context"
 	"errors"
 	"fmt"
@@ -63,8 +64,35 @@ func (r *errorWrapper) Read(p []byte) (int, error) {
 type ptsInterceptor struct {
 	R io.Reader
 
-	hasLastPTS bool
-	lastPTS    int64
+	hasLastPTS  bool
+	lastPTS     int64
+	lastPackets map[uint16]*[packetSize]byte
+}
+
+// a packet can be sent twice, and the second copy has to be discarded (ISO 13818-1, 2.4.3.3).
+// this is not handled correctly by astits.
+func (r *ptsInterceptor) isDuplicate(p []byte) bool {
+	hasPayload := (p[3]&0x10 > 0)
+
+	if p[0] != syncByte || !hasPayload {
+		return false
+	}
+
+	pid := (uint16(p[1])<<8 | uint16(p[2])) & 0x1FFF
+
+	last, ok := r.lastPackets[pid]
+	if !ok {
+		if r.lastPackets == nil {
+			r.lastPackets = make(map[uint16]*[packetSize]byte)
+		}
+		last = &[packetSize]byte{}
+		r.lastPackets[pid] = last
+	} else if bytes.Equal(last[:], p) {
+		return true
+	}
+
+	copy(last[:], p)
+	return false
 }
 
 func (r *ptsInterceptor) Read(p []byte) (int, error) {
@@ -72,9 +100,15 @@ func (r *ptsInterceptor) Read(p []byte) (int, error) {
 		return 0, fmt.Errorf("unsupported")
 	}
 
-	_, err := io.ReadFull(r.R, p)
-	if err != nil {
-		return 0, err
+	for {
+		_, err := io.ReadFull(r.R, p)
+		if err != nil {
+			return 0, err
+		}
+
+		if !r.isDuplicate(p) {
+			break
+		}
 	}
 
 	if p[0] == syncByte {
-- 
2.43.0


From 17bc4daa863f4f2fb146098ba4052244d562ac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:42 +0000
Subject: [PATCH 33/63] fix: flac: return an error when values of a StreamInfo
 do not fit into their fields

---
 pkg/codecs/flac/stream_info.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/pkg/codecs/flac/stream_info.go b/pkg/codecs/flac/stream_info.go
index b56c066..b2a19b2 100644
--- a/pkg/codecs/flac/stream_info.go
+++ b/pkg/codecs/flac/stream_info.go
@@ -67,10 +67,34 @@ func (s StreamInfo) marshalTo(buf []byte) (int, error) {
 	return 34, nil
 }
 
+func (s StreamInfo) validate() error {
+	if s.MinFrameSize >= (1<<24) || s.MaxFrameSize >= (1<<24) {
+		return fmt.Errorf("unsupported frame size")
+	}
+	if s.SampleRate >= (1 << 20) {
+		return fmt.Errorf("unsupported sample rate: %d", s.SampleRate)
+	}
+	if s.ChannelCount < 1 || s.ChannelCount > 8 {
+		return fmt.Errorf("unsupported channel count: %d", s.ChannelCount)
+	}
+	if s.BitDepth < 1 || s.BitDepth > 32 {
+		return fmt.Errorf("unsupported bit depth: %d", s.BitDepth)
+	}
+	if s.TotalSamples >= (1 << 36) {
+		return fmt.Errorf("unsupported total samples: %d", s.TotalSamples)
+	}
+	return nil
+}
+
 // Marshal encodes a StreamInfo.
 func (s StreamInfo) Marshal() ([]byte, error) {
+	err := s.validate()
+	if err != nil {
+		return nil, err
+	}
+
 	buf := make([]byte, s.marshalSize())
-	_, err := s.marshalTo(buf)
+	_, err = s.marshalTo(buf)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From f045542c460188d1c6bf677d7526f501370d8d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:42 +0000
Subject: [PATCH 34/63] fix: fmp4: user data that is specific to the udta box
 could be read but not written

---
 internal/mp4/writer.go   | 5 ++++-
 pkg/formats/fmp4/init.go | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/mp4/writer.go b/internal/mp4/writer.go
index e6b4875..897df7e 100644
--- a/internal/mp4/writer.go
+++ b/internal/mp4/writer.go
@@ -11,6 +11,9 @@ import (
 type Writer struct {
 	W io.WriteSeeker
 
+	// context in which boxes are written.
+	Ctx amp4.Context
+
 	mw *amp4.Writer
 }
 
@@ -30,7 +33,7 @@ func (w *Writer) WriteBoxStart(box amp4.IImmutableBox) (int, error) {
 		return 0, err
 	}
 
-	_, err = amp4.Marshal(w.mw, box, amp4.Context{})
+	_, err = amp4.Marshal(w.mw, box, w.Ctx)
 	if err != nil {
 		return 0, err
 	}
diff --git a/pkg/formats/fmp4/init.go b/pkg/formats/fmp4/init.go
index f4b46d7..81c9c89 100644
--- a/pkg/formats/fmp4/init.go
+++ b/pkg/formats/fmp4/init.go
@@ -267,6 +267,8 @@ func (i Init) Marshal(w io.WriteSeeker) error {
 			return err
 		}
 
+		mw.Ctx.UnderUdta = true
+
 		for _, box := range i.UserData {
 			_, err = mw.WriteBox(box)
 			if err != nil {
@@ -274,6 +276,8 @@ func (i Init) Marshal(w io.WriteSeeker) error {
 			}
 		}
 
+		mw.Ctx.UnderUdta = false
+
 		err = mw.WriteBoxEnd() // </udta>
 		if err != nil {
 			return err
-- 
2.43.0


From ac72e8a3bf4eebe9f3662b0cff53330f7d1960fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:00 +0000
Subject: [PATCH 35/63] fix: mp4: return an error when codec parameters are
 missing or do not fit into their fields

---
 internal/mp4/codec_boxes.go |  5 +++-
 internal/mp4/codec_info.go  | 51 ++++++++++++++++++++++++++++++++++---
 2 files changed, 52 insertions(+), 4 deletions(-)

diff --git a/internal/mp4/codec_boxes.go b/internal/mp4/codec_boxes.go
index eb04178..1763ab2 100644
--- a/internal/mp4/codec_boxes.go
+++ b/internal/mp4/codec_boxes.go
@@ -1115,7 +1115,10 @@ func WriteCodecBoxes(w *Writer, codec codecs.Codec, trackID int, info *CodecInfo
 			return err
 		}
 
-		enc, _ := codec.Config.Marshal()
+		enc, err := codec.Config.Marshal()
+		if err != nil {
+			return err
+		}
 
 		_, err = w.WriteBox(&amp4.Esds{ // <esds/>
 			Descriptors: []amp4.Descriptor{
diff --git a/internal/mp4/codec_info.go b/internal/mp4/codec_info.go
index b92d13b..06952c3 100644
--- a/internal/mp4/codec_info.go
+++ b/internal/mp4/codec_info.go
@@ -2,6 +2,7 @@ package mp4
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
 	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
@@ -9,6 +10,13 @@ import (
 	"github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
 )
 
+func checkRange(name string, v int, maxValue int) error {
+	if v < 0 || v > maxValue {
+		return fmt.Errorf("unsupported %s: %d", name, v)
+	}
+	return nil
+}
+
 // CodecInfo contains codec-dependent infos.
 type CodecInfo struct {
 	Width             int
@@ -34,9 +42,12 @@ func (ci *CodecInfo) Fill(codec codecs.Codec) error {
 		return nil
 
 	case *codecs.VP9:
-		if codec.Width == 0 {
+		if codec.Width == 0 || codec.Height == 0 {
 			return fmt.Errorf("VP9 parameters not provided")
 		}
+		if codec.Width > math.MaxUint16 || codec.Height > math.MaxUint16 {
+			return fmt.Errorf("unsupported VP9 size: %dx%d", codec.Width, codec.Height)
+		}
 
 		ci.Width = codec.Width
 		ci.Height = codec.Height
@@ -46,6 +57,9 @@ func (ci *CodecInfo) Fill(codec codecs.Codec) error {
 		if len(codec.VPS) == 0 || len(codec.SPS) == 0 || len(codec.PPS) == 0 {
 			return fmt.Errorf("H265 parameters not provided")
 		}
+		if len(codec.VPS) > math.MaxUint16 || len(codec.SPS) > math.MaxUint16 || len(codec.PPS) > math.MaxUint16 {
+			return fmt.Errorf("H265 parameters are too big")
+		}
 
 		h265SPS := &h265.SPS{}
 		err := h265SPS.Unmarshal(codec.SPS)
@@ -62,6 +76,9 @@ func (ci *CodecInfo) Fill(codec codecs.Codec) error {
 		if len(codec.SPS) == 0 || len(codec.PPS) == 0 {
 			return fmt.Errorf("H264 parameters not provided")
 		}
+		if len(codec.SPS) > math.MaxUint16 || len(codec.PPS) > math.MaxUint16 {
+			return fmt.Errorf("H264 parameters are too big")
+		}
 
 		h264SPS := &h264.SPS{}
 		err := h264SPS.Unmarshal(codec.SPS)
@@ -95,15 +112,43 @@ func (ci *CodecInfo) Fill(codec codecs.Codec) error {
 		return nil
 
 	case *codecs.MJPEG:
-		if codec.Width == 0 {
+		if codec.Width == 0 || codec.Height == 0 {
 			return fmt.Errorf("M-JPEG parameters not provided")
 		}
+		if codec.Width > math.MaxUint16 || codec.Height > math.MaxUint16 {
+			return fmt.Errorf("unsupported M-JPEG size: %dx%d", codec.Width, codec.Height)
+		}
 
 		ci.Width = codec.Width
 		ci.Height = codec.Height
 		return nil
 
-	case *codecs.Opus, *codecs.MPEG4Audio, *codecs.MPEG1Audio, *codecs.AC3, *codecs.EAC3, *codecs.LPCM, *codecs.FLAC:
+	case *codecs.Opus:
+		return checkRange("Opus channel count", codec.ChannelCount, math.MaxUint8)
+
+	case *codecs.MPEG1Audio:
+		return checkRange("MPEG-1 audio channel count", codec.ChannelCount, math.MaxUint16)
+
+	case *codecs.AC3:
+		return checkRange("AC-3 channel count", codec.ChannelCount, math.MaxUint16)
+
+	case *codecs.EAC3:
+		return checkRange("E-AC-3 channel count", codec.ChannelCount, math.MaxUint16)
+
+	case *codecs.LPCM:
+		err := checkRange("LPCM bit depth", codec.BitDepth, math.MaxUint8)
+		if err != nil {
+			return err
+		}
+		return checkRange("LPCM channel count", codec.ChannelCount, math.MaxUint16)
+
+	case *codecs.FLAC:
+		if codec.StreamInfo == nil {
+			return fmt.Errorf("FLAC parameters not provided")
+		}
+		return nil
+
+	case *codecs.MPEG4Audio:
 		return nil
 
 	default:
-- 
2.43.0


From 356b4fa9bb4881fc322bb45dd4d6ad77e3300c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:00 +0000
Subject: [PATCH 36/63] fix: mp4: tier and profile space of H265 tracks were
 not written

---
 internal/mp4/codec_boxes.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/mp4/codec_boxes.go b/internal/mp4/codec_boxes.go
index 1763ab2..5e0d5c0 100644
--- a/internal/mp4/codec_boxes.go
+++ b/internal/mp4/codec_boxes.go
@@ -753,6 +753,8 @@ func WriteCodecBoxes(w *Writer, codec codecs.Codec, trackID int, info *CodecInfo
 
 		_, err = w.WriteBox(&amp4.HvcC{ // <hvcC/>
 			ConfigurationVersion:        1,
+			GeneralProfileSpace:         info.H265SPS.ProfileTierLevel.GeneralProfileSpace,
+			GeneralTierFlag:             info.H265SPS.ProfileTierLevel.GeneralTierFlag != 0,
 			GeneralProfileIdc:           info.H265SPS.ProfileTierLevel.GeneralProfileIdc,
 			GeneralProfileCompatibility: info.H265SPS.ProfileTierLevel.GeneralProfileCompatibilityFlag,
 			GeneralConstraintIndicator: [6]uint8{
-- 
2.43.0


From f05e39c2a20fa20cf977394808c4cd2e24b8745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:05 +0000
Subject: [PATCH 37/63] fix: pmp4: samples present more than once in a
 presentation were read at the wrong offset

---
 pkg/formats/pmp4/presentation.go | 16 +++++++++-------
 pkg/formats/pmp4/sample.go       |  2 --
 pkg/formats/pmp4/track.go        | 32 +++++++++++++++-----------------
 3 files changed, 24 insertions(+), 26 deletions(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index bb7466f..ff0b271 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -406,9 +406,9 @@ func (p Presentation) Marshal(w io.Writer) error {
 		|mdat|
 	*/
 
-	dataSize, sortedSamples := p.sortSamples()
+	dataSize, sortedSamples, sampleOffsets := p.sortSamples()
 
-	err := p.marshalFtypAndMoov(w)
+	err := p.marshalFtypAndMoov(w, sampleOffsets)
 	if err != nil {
 		return err
 	}
@@ -416,7 +416,7 @@ func (p Presentation) Marshal(w io.Writer) error {
 	return p.marshalMdat(w, dataSize, sortedSamples)
 }
 
-func (p *Presentation) sortSamples() (uint32, []*Sample) {
+func (p *Presentation) sortSamples() (uint32, []*Sample, [][]uint32) {
 	sampleCount := 0
 	for _, track := range p.Tracks {
 		sampleCount += len(track.Samples)
@@ -426,9 +426,11 @@ func (p *Presentation) sortSamples() (uint32, []*Sample) {
 	elapsed := make([]int64, len(p.Tracks))
 	offset := uint32(0)
 	sortedSamples := make([]*Sample, sampleCount)
+	sampleOffsets := make([][]uint32, len(p.Tracks))
 	pos := 0
 
 	for i, track := range p.Tracks {
+		sampleOffsets[i] = make([]uint32, len(track.Samples))
 		elapsed[i] = int64(track.TimeOffset)
 	}
 
@@ -452,7 +454,7 @@ func (p *Presentation) sortSamples() (uint32, []*Sample) {
 		}
 
 		sample := p.Tracks[bestTrack].Samples[processedSamples[bestTrack]]
-		sample.offset = offset
+		sampleOffsets[bestTrack][processedSamples[bestTrack]] = offset
 
 		processedSamples[bestTrack]++
 		elapsed[bestTrack] += int64(sample.Duration)
@@ -461,10 +463,10 @@ func (p *Presentation) sortSamples() (uint32, []*Sample) {
 		pos++
 	}
 
-	return offset, sortedSamples
+	return offset, sortedSamples, sampleOffsets
 }
 
-func (p *Presentation) marshalFtypAndMoov(w io.Writer) error {
+func (p *Presentation) marshalFtypAndMoov(w io.Writer, sampleOffsets [][]uint32) error {
 	var outBuf seekablebuffer.Buffer
 	mw := &imp4.Writer{W: &outBuf}
 	mw.Initialize()
@@ -505,7 +507,7 @@ func (p *Presentation) marshalFtypAndMoov(w io.Writer) error {
 
 	for i, track := range p.Tracks {
 		var res *headerTrackMarshalResult
-		res, err = track.marshal(mw)
+		res, err = track.marshal(mw, sampleOffsets[i])
 		if err != nil {
 			return err
 		}
diff --git a/pkg/formats/pmp4/sample.go b/pkg/formats/pmp4/sample.go
index e7f72f6..058f96f 100644
--- a/pkg/formats/pmp4/sample.go
+++ b/pkg/formats/pmp4/sample.go
@@ -7,6 +7,4 @@ type Sample struct {
 	IsNonSyncSample bool
 	PayloadSize     uint32
 	GetPayload      func() ([]byte, error)
-
-	offset uint32 // filled by sortSamples
 }
diff --git a/pkg/formats/pmp4/track.go b/pkg/formats/pmp4/track.go
index 23d37fb..2bbb36e 100644
--- a/pkg/formats/pmp4/track.go
+++ b/pkg/formats/pmp4/track.go
@@ -36,7 +36,7 @@ type Track struct {
 	Samples    []*Sample
 }
 
-func (t Track) marshal(w *imp4.Writer) (*headerTrackMarshalResult, error) {
+func (t Track) marshal(w *imp4.Writer, sampleOffsets []uint32) (*headerTrackMarshalResult, error) {
 	/*
 		|trak|
 		|    |tkhd|
@@ -266,7 +266,7 @@ func (t Track) marshal(w *imp4.Writer) (*headerTrackMarshalResult, error) {
 		return nil, err
 	}
 
-	err = t.marshalSTSC(w) // <stsc/>
+	err = t.marshalSTSC(w, sampleOffsets) // <stsc/>
 	if err != nil {
 		return nil, err
 	}
@@ -276,7 +276,7 @@ func (t Track) marshal(w *imp4.Writer) (*headerTrackMarshalResult, error) {
 		return nil, err
 	}
 
-	stco, stcoOffset, err := t.marshalSTCO(w) // <stco/>
+	stco, stcoOffset, err := t.marshalSTCO(w, sampleOffsets) // <stco/>
 	if err != nil {
 		return nil, err
 	}
@@ -424,7 +424,7 @@ func (t *Track) marshalCTTS(w *imp4.Writer) error {
 	return err
 }
 
-func (t *Track) marshalSTSC(w *imp4.Writer) error {
+func (t *Track) marshalSTSC(w *imp4.Writer, sampleOffsets []uint32) error {
 	entries := []amp4.StscEntry{}
 
 	if len(t.Samples) != 0 {
@@ -434,11 +434,10 @@ func (t *Track) marshalSTSC(w *imp4.Writer) error {
 			SampleDescriptionIndex: 1,
 		}}
 
-		firstSample := t.Samples[0]
-		off := firstSample.offset + firstSample.PayloadSize
+		off := sampleOffsets[0] + t.Samples[0].PayloadSize
 
-		for _, sa := range t.Samples[1:] {
-			if sa.offset == off {
+		for i, sa := range t.Samples[1:] {
+			if sampleOffsets[i+1] == off {
 				entries[len(entries)-1].SamplesPerChunk++
 			} else {
 				entries = append(entries, amp4.StscEntry{
@@ -448,7 +447,7 @@ func (t *Track) marshalSTSC(w *imp4.Writer) error {
 				})
 			}
 
-			off = sa.offset + sa.PayloadSize
+			off = sampleOffsets[i+1] + sa.PayloadSize
 		}
 
 		// compress further
@@ -484,20 +483,19 @@ func (t *Track) marshalSTSZ(w *imp4.Writer) error {
 	return err
 }
 
-func (t *Track) marshalSTCO(w *imp4.Writer) (*amp4.Stco, int, error) {
+func (t *Track) marshalSTCO(w *imp4.Writer, sampleOffsets []uint32) (*amp4.Stco, int, error) {
 	entries := []uint32{}
 
 	if len(t.Samples) != 0 {
-		firstSample := t.Samples[0]
-		off := firstSample.offset + firstSample.PayloadSize
+		off := sampleOffsets[0] + t.Samples[0].PayloadSize
 
-		entries = []uint32{firstSample.offset}
+		entries = []uint32{sampleOffsets[0]}
 
-		for _, sa := range t.Samples[1:] {
-			if sa.offset != off {
-				entries = append(entries, sa.offset)
+		for i, sa := range t.Samples[1:] {
+			if sampleOffsets[i+1] != off {
+				entries = append(entries, sampleOffsets[i+1])
 			}
-			off = sa.offset + sa.PayloadSize
+			off = sampleOffsets[i+1] + sa.PayloadSize
 		}
 	}
 
-- 
2.43.0


From e740df2fce9550eece07bef47df97656e0e5bbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 38/63] fix: pmp4: durations that do not fit in 32 bits were
 truncated

---
 pkg/formats/pmp4/presentation.go | 10 ++++----
 pkg/formats/pmp4/track.go        | 44 ++++++++++++++++++++++++--------
 2 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index ff0b271..7343236 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -50,7 +50,7 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 	)
 
 	var state readState
-	var trackDuration uint32
+	var trackDuration uint64
 	var curTrack *Track
 	var codecBoxesReader *imp4.CodecBoxesReader
 
@@ -168,7 +168,7 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 			}
 
 			curTrack.TimeScale = mdhd.Timescale
-			trackDuration = mdhd.DurationV0
+			trackDuration = mdhd.GetDuration()
 			state = waitingStsd
 
 		case "minf", "stbl":
@@ -210,12 +210,12 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 				}
 			}
 
-			sampleDuration := uint32(0)
+			sampleDuration := uint64(0)
 			for _, sa := range curTrack.Samples {
-				sampleDuration += sa.Duration
+				sampleDuration += uint64(sa.Duration)
 			}
 
-			curTrack.TimeOffset = int32(trackDuration) - int32(sampleDuration)
+			curTrack.TimeOffset = int32(uint32(trackDuration - sampleDuration))
 
 			state = waitingSampleProps
 
diff --git a/pkg/formats/pmp4/track.go b/pkg/formats/pmp4/track.go
index 2bbb36e..c994183 100644
--- a/pkg/formats/pmp4/track.go
+++ b/pkg/formats/pmp4/track.go
@@ -1,6 +1,9 @@
 package pmp4
 
 import (
+	"fmt"
+	"math"
+
 	amp4 "github.com/abema/go-mp4"
 
 	imp4 "github.com/bluenviron/mediacommon/v2/internal/mp4"
@@ -74,12 +77,25 @@ func (t Track) marshal(w *imp4.Writer, sampleOffsets []uint32) (*headerTrackMars
 		return nil, err
 	}
 
-	sampleDuration := uint32(0)
+	if t.TimeOffset == math.MinInt32 {
+		return nil, fmt.Errorf("time offset is too low")
+	}
+
+	sampleDuration := uint64(0)
 	for _, sa := range t.Samples {
-		sampleDuration += sa.Duration
+		sampleDuration += uint64(sa.Duration)
+	}
+
+	mediaDuration := int64(sampleDuration) + int64(t.TimeOffset)
+
+	// durations expressed in the global timescale are 32-bit,
+	// the longest one is the sum of all durations and of the absolute value of the time offset.
+	maxDuration := sampleDuration + uint64(max(t.TimeOffset, -t.TimeOffset))
+	if maxDuration > ((1<<32)*uint64(t.TimeScale)-1)/globalTimescale {
+		return nil, fmt.Errorf("track is too long")
 	}
 
-	presentationDuration := uint32(((int64(sampleDuration) + int64(t.TimeOffset)) * globalTimescale) / int64(t.TimeScale))
+	presentationDuration := uint32(max(mediaDuration, 0) * globalTimescale / int64(t.TimeScale))
 
 	if t.Codec.IsVideo() {
 		_, err = w.WriteBox(&amp4.Tkhd{ // <tkhd/>
@@ -131,11 +147,17 @@ func (t Track) marshal(w *imp4.Writer, sampleOffsets []uint32) (*headerTrackMars
 		return nil, err
 	}
 
-	_, err = w.WriteBox(&amp4.Mdhd{ // <mdhd/>
-		Timescale:  t.TimeScale,
-		DurationV0: uint32(int64(sampleDuration) + int64(t.TimeOffset)),
-		Language:   [3]byte{'u', 'n', 'd'},
-	})
+	mdhd := &amp4.Mdhd{ // <mdhd/>
+		Timescale: t.TimeScale,
+		Language:  [3]byte{'u', 'n', 'd'},
+	}
+	if mediaDuration > math.MaxUint32 {
+		mdhd.SetVersion(1)
+		mdhd.DurationV1 = uint64(mediaDuration)
+	} else {
+		mdhd.DurationV0 = uint32(mediaDuration)
+	}
+	_, err = w.WriteBox(mdhd)
 	if err != nil {
 		return nil, err
 	}
@@ -308,7 +330,7 @@ func (t Track) marshal(w *imp4.Writer, sampleOffsets []uint32) (*headerTrackMars
 	}, nil
 }
 
-func (t *Track) marshalELST(w *imp4.Writer, sampleDuration uint32) error {
+func (t *Track) marshalELST(w *imp4.Writer, sampleDuration uint64) error {
 	if t.TimeOffset > 0 {
 		_, err := w.WriteBox(&amp4.Elst{
 			EntryCount: 2,
@@ -320,7 +342,7 @@ func (t *Track) marshalELST(w *imp4.Writer, sampleDuration uint32) error {
 					MediaRateFraction: 0,
 				},
 				{ // presentation
-					SegmentDurationV0: uint32((uint64(sampleDuration) * globalTimescale) / uint64(t.TimeScale)),
+					SegmentDurationV0: uint32((sampleDuration * globalTimescale) / uint64(t.TimeScale)),
 					MediaTimeV0:       0,
 					MediaRateInteger:  1,
 					MediaRateFraction: 0,
@@ -333,7 +355,7 @@ func (t *Track) marshalELST(w *imp4.Writer, sampleDuration uint32) error {
 	_, err := w.WriteBox(&amp4.Elst{
 		EntryCount: 1,
 		Entries: []amp4.ElstEntry{{
-			SegmentDurationV0: uint32(((uint64(sampleDuration) +
+			SegmentDurationV0: uint32(((sampleDuration +
 				uint64(-t.TimeOffset)) * globalTimescale) / uint64(t.TimeScale)),
 			MediaTimeV0:       -t.TimeOffset,
 			MediaRateInteger:  1,
-- 
2.43.0


From 9fef34f739c0ce7ccc5fc4dfc9bcd56c2c41861d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 39/63] fix: pmp4: return an error when sample sizes do not fit
 or the time scale is missing

---
 pkg/formats/pmp4/presentation.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 7343236..e189ee3 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"time"
 
 	amp4 "github.com/abema/go-mp4"
@@ -406,9 +407,18 @@ func (p Presentation) Marshal(w io.Writer) error {
 		|mdat|
 	*/
 
-	dataSize, sortedSamples, sampleOffsets := p.sortSamples()
+	for _, track := range p.Tracks {
+		if track.TimeScale == 0 {
+			return fmt.Errorf("invalid timescale")
+		}
+	}
+
+	dataSize, sortedSamples, sampleOffsets, err := p.sortSamples()
+	if err != nil {
+		return err
+	}
 
-	err := p.marshalFtypAndMoov(w, sampleOffsets)
+	err = p.marshalFtypAndMoov(w, dataSize, sampleOffsets)
 	if err != nil {
 		return err
 	}
@@ -416,7 +426,7 @@ func (p Presentation) Marshal(w io.Writer) error {
 	return p.marshalMdat(w, dataSize, sortedSamples)
 }
 
-func (p *Presentation) sortSamples() (uint32, []*Sample, [][]uint32) {
+func (p *Presentation) sortSamples() (uint32, []*Sample, [][]uint32, error) {
 	sampleCount := 0
 	for _, track := range p.Tracks {
 		sampleCount += len(track.Samples)
@@ -458,15 +468,18 @@ func (p *Presentation) sortSamples() (uint32, []*Sample, [][]uint32) {
 
 		processedSamples[bestTrack]++
 		elapsed[bestTrack] += int64(sample.Duration)
+		if sample.PayloadSize > (math.MaxUint32 - offset) {
+			return 0, nil, nil, fmt.Errorf("samples are too big")
+		}
 		offset += sample.PayloadSize
 		sortedSamples[pos] = sample
 		pos++
 	}
 
-	return offset, sortedSamples, sampleOffsets
+	return offset, sortedSamples, sampleOffsets, nil
 }
 
-func (p *Presentation) marshalFtypAndMoov(w io.Writer, sampleOffsets [][]uint32) error {
+func (p *Presentation) marshalFtypAndMoov(w io.Writer, dataSize uint32, sampleOffsets [][]uint32) error {
 	var outBuf seekablebuffer.Buffer
 	mw := &imp4.Writer{W: &outBuf}
 	mw.Initialize()
@@ -537,6 +550,10 @@ func (p *Presentation) marshalFtypAndMoov(w io.Writer, sampleOffsets [][]uint32)
 
 	dataOffset := moovEndOffset + 8
 
+	if (dataOffset + int64(dataSize)) > math.MaxUint32 {
+		return fmt.Errorf("samples are too big")
+	}
+
 	for i := range p.Tracks {
 		for j := range stcos[i].ChunkOffset {
 			stcos[i].ChunkOffset[j] += uint32(dataOffset)
-- 
2.43.0


From 8be6b213b66aea16fbce85f8d0711185a4113e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:44 +0000
Subject: [PATCH 40/63] fix: pmp4: return an error when the size of a payload
 is not the declared one

---
 pkg/formats/pmp4/presentation.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index e189ee3..0ba780b 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -589,6 +589,10 @@ func (p *Presentation) marshalMdat(w io.Writer, dataSize uint32, sortedSamples [
 			return err
 		}
 
+		if len(pl) != int(sa.PayloadSize) {
+			return fmt.Errorf("payload size is %d, expected %d", len(pl), sa.PayloadSize)
+		}
+
 		_, err = w.Write(pl)
 		if err != nil {
 			return err
-- 
2.43.0


From fcbd3fff55842c39f153be34233c36602e579e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:29 +0000
Subject: [PATCH 41/63] fix: seekablebuffer: WriteString, WriteByte, WriteRune
 and ReadFrom ignored the position

---
 .../fmp4/seekablebuffer/seekablebuffer.go     | 34 +++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/pkg/formats/fmp4/seekablebuffer/seekablebuffer.go b/pkg/formats/fmp4/seekablebuffer/seekablebuffer.go
index e38cc90..12fea57 100644
--- a/pkg/formats/fmp4/seekablebuffer/seekablebuffer.go
+++ b/pkg/formats/fmp4/seekablebuffer/seekablebuffer.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"unicode/utf8"
 )
 
 // Buffer is a bytes.Buffer with an additional Seek() method.
@@ -15,6 +16,7 @@ type Buffer struct {
 
 // Write implements io.Writer.
 func (b *Buffer) Write(p []byte) (int, error) {
+	b.clampPos()
 	n := 0
 
 	if b.pos < int64(b.Len()) {
@@ -32,6 +34,28 @@ func (b *Buffer) Write(p []byte) (int, error) {
 	return n, nil
 }
 
+// WriteString implements io.StringWriter.
+func (b *Buffer) WriteString(s string) (int, error) {
+	return b.Write([]byte(s))
+}
+
+// WriteByte implements io.ByteWriter.
+func (b *Buffer) WriteByte(c byte) error {
+	_, err := b.Write([]byte{c})
+	return err
+}
+
+// WriteRune writes the UTF-8 encoding of a rune.
+func (b *Buffer) WriteRune(r rune) (int, error) {
+	return b.Write(utf8.AppendRune(nil, r))
+}
+
+// ReadFrom implements io.ReaderFrom.
+func (b *Buffer) ReadFrom(r io.Reader) (int64, error) {
+	// hide ReadFrom() in order to make io.Copy use Write().
+	return io.Copy(struct{ io.Writer }{b}, r)
+}
+
 // Read implements io.Reader.
 func (b *Buffer) Read(_ []byte) (int, error) {
 	return 0, fmt.Errorf("unimplemented")
@@ -39,6 +63,7 @@ func (b *Buffer) Read(_ []byte) (int, error) {
 
 // Seek implements io.Seeker.
 func (b *Buffer) Seek(offset int64, whence int) (int64, error) {
+	b.clampPos()
 	pos2 := int64(0)
 
 	switch whence {
@@ -50,6 +75,9 @@ func (b *Buffer) Seek(offset int64, whence int) (int64, error) {
 
 	case io.SeekEnd:
 		pos2 = int64(b.Len()) + offset
+
+	default:
+		return 0, fmt.Errorf("invalid whence: %d", whence)
 	}
 
 	if pos2 < 0 {
@@ -67,6 +95,12 @@ func (b *Buffer) Seek(offset int64, whence int) (int64, error) {
 	return pos2, nil
 }
 
+// clampPos moves the position to the end of the content
+// in case the latter has been truncated or consumed.
+func (b *Buffer) clampPos() {
+	b.pos = min(b.pos, int64(b.Len()))
+}
+
 // Reset resets the buffer state.
 func (b *Buffer) Reset() {
 	b.Buffer.Reset()
-- 
2.43.0


From b715c9b8869aefc01d88ee93df10c764d18ea7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:35 +0000
Subject: [PATCH 42/63] fix: pmp4: seek errors were ignored while reading
 payloads

---
 pkg/formats/pmp4/presentation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 0ba780b..a9317c7 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -363,7 +363,7 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 
 					curTrack.Samples[i].GetPayload = func() ([]byte, error) {
 						_, err2 := r.Seek(int64(sampleOffset), io.SeekStart)
-						if err != nil {
+						if err2 != nil {
 							return nil, err2
 						}
 
-- 
2.43.0


From 4c712e430cb78bdb07f77d6bb4bd33d7e4e25bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:35 +0000
Subject: [PATCH 43/63] fix: mp4: some write errors were ignored

---
 internal/mp4/writer.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/internal/mp4/writer.go b/internal/mp4/writer.go
index 897df7e..bf288f4 100644
--- a/internal/mp4/writer.go
+++ b/internal/mp4/writer.go
@@ -7,6 +7,31 @@ import (
 	amp4 "github.com/abema/go-mp4"
 )
 
+// latchedWriteSeeker is an io.WriteSeeker that, after an error, returns the error on any call.
+// This is needed since abema/go-mp4 ignores some errors.
+type latchedWriteSeeker struct {
+	w   io.WriteSeeker
+	err error
+}
+
+func (l *latchedWriteSeeker) Write(p []byte) (int, error) {
+	if l.err != nil {
+		return 0, l.err
+	}
+	var n int
+	n, l.err = l.w.Write(p)
+	return n, l.err
+}
+
+func (l *latchedWriteSeeker) Seek(offset int64, whence int) (int64, error) {
+	if l.err != nil {
+		return 0, l.err
+	}
+	var n int64
+	n, l.err = l.w.Seek(offset, whence)
+	return n, l.err
+}
+
 // Writer is a wrapper around abema/go-mp4.Writer.
 type Writer struct {
 	W io.WriteSeeker
@@ -19,7 +44,7 @@ type Writer struct {
 
 // Initialize initializes a Writer.
 func (w *Writer) Initialize() {
-	w.mw = amp4.NewWriter(w.W)
+	w.mw = amp4.NewWriter(&latchedWriteSeeker{w: w.W})
 }
 
 // WriteBoxStart writes a box start.
-- 
2.43.0


From 79e42bd1abb924c7f293c1f16fa8d679476eebe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:33 +0000
Subject: [PATCH 44/63] fix: bits: return an error when reading a golomb value
 past the end of the buffer

---
 pkg/bits/read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bits/read.go b/pkg/bits/read.go
index 1e63b91..e071708 100644
--- a/pkg/bits/read.go
+++ b/pkg/bits/read.go
@@ -61,7 +61,7 @@ func ReadGolombUnsigned(buf []byte, pos *int) (uint32, error) {
 	leadingZeros := uint32(0)
 
 	for {
-		if (buflen*8 - *pos) == 0 {
+		if (buflen*8 - *pos) <= 0 {
 			return 0, fmt.Errorf("not enough bits")
 		}
 
-- 
2.43.0


From fd0502bd1c35a8598dd78c292f258500a8483622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:34 +0000
Subject: [PATCH 45/63] fix: h264, h265, av1: do not panic on empty NALUs and
 OBUs

---
 pkg/codecs/av1/is_random_access.go  | 4 ++++
 pkg/codecs/h264/dts_extractor.go    | 4 ++++
 pkg/codecs/h264/is_random_access.go | 4 ++++
 pkg/codecs/h265/dts_extractor.go    | 4 ++++
 pkg/codecs/h265/is_random_access.go | 4 ++++
 5 files changed, 20 insertions(+)

diff --git a/pkg/codecs/av1/is_random_access.go b/pkg/codecs/av1/is_random_access.go
index 56935c4..b1a8c33 100644
--- a/pkg/codecs/av1/is_random_access.go
+++ b/pkg/codecs/av1/is_random_access.go
@@ -27,6 +27,10 @@ func IsRandomAccess(tu [][]byte) (bool, error) {
 		return false, fmt.Errorf("temporal unit is empty")
 	}
 
+	if len(tu[0]) == 0 {
+		return false, fmt.Errorf("OBU is empty")
+	}
+
 	typ := OBUType((tu[0][0] >> 3) & 0b1111)
 
 	return (typ == OBUTypeSequenceHeader), nil
diff --git a/pkg/codecs/h264/dts_extractor.go b/pkg/codecs/h264/dts_extractor.go
index 735209e..659abcf 100644
--- a/pkg/codecs/h264/dts_extractor.go
+++ b/pkg/codecs/h264/dts_extractor.go
@@ -119,6 +119,10 @@ func (d *DTSExtractor) extractInner(au [][]byte, pts int64) (int64, bool, error)
 
 outer:
 	for _, nalu := range au {
+		if len(nalu) == 0 {
+			return 0, false, fmt.Errorf("access unit contains an empty NALU")
+		}
+
 		typ := NALUType(nalu[0] & 0x1F)
 		nonZeroNalRefIDFound = nonZeroNalRefIDFound || ((nalu[0] & 0x60) > 0)
 
diff --git a/pkg/codecs/h264/is_random_access.go b/pkg/codecs/h264/is_random_access.go
index c1f1744..4ece4e1 100644
--- a/pkg/codecs/h264/is_random_access.go
+++ b/pkg/codecs/h264/is_random_access.go
@@ -3,6 +3,10 @@ package h264
 // IsRandomAccess checks whether the access unit can be randomly accessed.
 func IsRandomAccess(au [][]byte) bool {
 	for _, nalu := range au {
+		if len(nalu) == 0 {
+			continue
+		}
+
 		typ := NALUType(nalu[0] & 0x1F)
 		if typ == NALUTypeIDR {
 			return true
diff --git a/pkg/codecs/h265/dts_extractor.go b/pkg/codecs/h265/dts_extractor.go
index f4961b0..1a6884f 100644
--- a/pkg/codecs/h265/dts_extractor.go
+++ b/pkg/codecs/h265/dts_extractor.go
@@ -165,6 +165,10 @@ func (d *DTSExtractor) extractInner(au [][]byte, pts int64) (int64, error) {
 
 outer:
 	for _, nalu := range au {
+		if len(nalu) == 0 {
+			return 0, fmt.Errorf("access unit contains an empty NALU")
+		}
+
 		typ := NALUType((nalu[0] >> 1) & 0b111111)
 
 		switch typ {
diff --git a/pkg/codecs/h265/is_random_access.go b/pkg/codecs/h265/is_random_access.go
index 837a0aa..6df36a0 100644
--- a/pkg/codecs/h265/is_random_access.go
+++ b/pkg/codecs/h265/is_random_access.go
@@ -3,6 +3,10 @@ package h265
 // IsRandomAccess checks whether the access unit can be randomly accessed.
 func IsRandomAccess(au [][]byte) bool {
 	for _, nalu := range au {
+		if len(nalu) == 0 {
+			continue
+		}
+
 		typ := NALUType((nalu[0] >> 1) & 0b111111)
 		switch typ {
 		case NALUType_IDR_W_RADL, NALUType_IDR_N_LP, NALUType_CRA_NUT:
-- 
2.43.0


From ba011b3957f9b9ea1219c28ecd7d807a307d27e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 46/63] fix: pmp4: prevent a division by zero when samples per
 chunk is zero

---
 pkg/formats/pmp4/presentation.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index a9317c7..10b538f 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -281,6 +281,10 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 				sampleCount := 0
 
 				for i, entry := range stsc.Entries {
+					if entry.SamplesPerChunk == 0 {
+						return nil, fmt.Errorf("invalid stsc")
+					}
+
 					var chunkCount uint32
 					if i != (len(stsc.Entries) - 1) {
 						chunkCount = stsc.Entries[i+1].FirstChunk - entry.FirstChunk
@@ -296,10 +300,6 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 						return nil, fmt.Errorf("invalid stsc")
 					}
 
-					if entry.SamplesPerChunk == 0 {
-						return nil, fmt.Errorf("invalid stsc")
-					}
-
 					for range chunkCount {
 						if (sampleCount + int(entry.SamplesPerChunk)) > len(curTrack.Samples) {
 							return nil, fmt.Errorf("invalid stsc")
-- 
2.43.0


From 014d703a06785998c491c0939a250e821bb27768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 47/63] fix: pmp4: prevent RAM exhaustion caused by sample
 counts and sizes that exceed the file

---
 pkg/formats/pmp4/presentation.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 10b538f..0e57064 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -63,7 +63,15 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 	var curChunks []*chunk
 	var curSampleSizes []uint32
 
-	_, err := amp4.ReadBoxStructure(r, func(h *amp4.ReadHandle) (any, error) {
+	fileSize, err := r.Seek(0, io.SeekEnd)
+	if err != nil {
+		return err
+	}
+
+	// prevent RAM exhaustion: the size of each sample is stored in the file and takes 4 bytes
+	remainingSamples := fileSize / 4
+
+	_, err = amp4.ReadBoxStructure(r, func(h *amp4.ReadHandle) (any, error) {
 		if state == readingCodec {
 			ret, err := codecBoxesReader.Read(h)
 			if err != nil {
@@ -200,9 +208,11 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 			stts := box.(*amp4.Stts)
 
 			for _, entry := range stts.Entries {
-				if (len(curTrack.Samples) + int(entry.SampleCount)) > maxSamples {
+				if (len(curTrack.Samples)+int(entry.SampleCount)) > maxSamples ||
+					int64(entry.SampleCount) > remainingSamples {
 					return nil, fmt.Errorf("max samples reached")
 				}
+				remainingSamples -= int64(entry.SampleCount)
 
 				for range entry.SampleCount {
 					curTrack.Samples = append(curTrack.Samples, &Sample{
@@ -353,7 +363,7 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 			i := 0
 
 			for _, chunk := range curChunks {
-				off := chunk.offset
+				off := uint64(chunk.offset)
 
 				for range chunk.sampleCount {
 					sampleSize := curSampleSizes[i]
@@ -362,7 +372,16 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 					curTrack.Samples[i].PayloadSize = sampleSize
 
 					curTrack.Samples[i].GetPayload = func() ([]byte, error) {
-						_, err2 := r.Seek(int64(sampleOffset), io.SeekStart)
+						// prevent RAM exhaustion due to an invalid sample size
+						end, err2 := r.Seek(0, io.SeekEnd)
+						if err2 != nil {
+							return nil, err2
+						}
+						if sampleOffset+uint64(sampleSize) > uint64(end) {
+							return nil, io.ErrUnexpectedEOF
+						}
+
+						_, err2 = r.Seek(int64(sampleOffset), io.SeekStart)
 						if err2 != nil {
 							return nil, err2
 						}
@@ -372,7 +391,7 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 						return buf, err2
 					}
 
-					off += sampleSize
+					off += uint64(sampleSize)
 					i++
 				}
 			}
-- 
2.43.0


From a5ef31201e828e7c5eb246fc7370aefa1c8e3595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 48/63] fix: pmp4: reject repeated sample tables, that took
 quadratic time

---
 pkg/formats/pmp4/presentation.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 0e57064..afc0f62 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -62,6 +62,7 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 
 	var curChunks []*chunk
 	var curSampleSizes []uint32
+	var curSampleTables map[string]struct{}
 
 	fileSize, err := r.Seek(0, io.SeekEnd)
 	if err != nil {
@@ -90,6 +91,16 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 			}
 		}
 
+		switch typ := h.BoxInfo.Type.String(); typ {
+		case "stss", "ctts", "stsc", "stsz", "stco":
+			if _, ok := curSampleTables[typ]; ok {
+				return nil, fmt.Errorf("unexpected box '%v'", h.BoxInfo.Type)
+			}
+			if curSampleTables != nil {
+				curSampleTables[typ] = struct{}{}
+			}
+		}
+
 		switch h.BoxInfo.Type.String() {
 		case "ftyp":
 			if state != waitingFtyp {
@@ -122,6 +133,7 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 			curTrack = &Track{}
 			curChunks = nil
 			curSampleSizes = nil
+			curSampleTables = make(map[string]struct{})
 			p.Tracks = append(p.Tracks, curTrack)
 			state = waitingTkhd
 			return h.Expand()
-- 
2.43.0


From 1bcbd85c43f1613c5734cbc55c264f30769ce0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 49/63] fix: fmp4: limit the sample count of parts also when
 box headers are large or truns are many

---
 pkg/formats/fmp4/parts.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pkg/formats/fmp4/parts.go b/pkg/formats/fmp4/parts.go
index e055ac8..73bee3e 100644
--- a/pkg/formats/fmp4/parts.go
+++ b/pkg/formats/fmp4/parts.go
@@ -32,6 +32,7 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 	var curTrack *PartTrack
 	var tfdt *amp4.Tfdt
 	var tfhd *amp4.Tfhd
+	var totalSamples uint64
 
 	_, err := amp4.ReadBoxStructure(bytes.NewReader(byts), func(h *amp4.ReadHandle) (any, error) {
 		if h.BoxInfo.IsSupportedType() {
@@ -111,12 +112,17 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 				}
 
 				// prevent RAM exhaustion due to unlimited Trun unmarshaling
-				rawBox := byts[h.BoxInfo.Offset:]
-				if len(rawBox) >= 16 {
-					sampleCount := uint32(rawBox[12])<<24 | uint32(rawBox[13])<<16 | uint32(rawBox[14])<<8 | uint32(rawBox[15])
+				rawBox := byts[h.BoxInfo.Offset+h.BoxInfo.HeaderSize:]
+				if len(rawBox) >= 8 {
+					sampleCount := uint32(rawBox[4])<<24 | uint32(rawBox[5])<<16 | uint32(rawBox[6])<<8 | uint32(rawBox[7])
 					if sampleCount > maxSamplesPerTrun {
 						return nil, fmt.Errorf("sample count (%d) exceeds maximum (%d)", sampleCount, maxSamplesPerTrun)
 					}
+
+					totalSamples += uint64(sampleCount)
+					if totalSamples > uint64(len(byts)) {
+						return nil, fmt.Errorf("sample count (%d) exceeds size (%d)", totalSamples, len(byts))
+					}
 				}
 
 				box, _, err := h.ReadPayload()
@@ -131,11 +137,6 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 						return nil, fmt.Errorf("unsupported flags")
 					}
 
-					existing := len(curTrack.Samples)
-					tmp := make([]*Sample, existing+len(trun.Entries))
-					copy(tmp, curTrack.Samples)
-					curTrack.Samples = tmp
-
 					pos := uint64(trun.DataOffset) + moofOffset
 					if uint64(len(byts)) < pos {
 						return nil, fmt.Errorf("invalid data_offset / moof_offset")
@@ -143,7 +144,7 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 
 					ptr := byts[pos:]
 
-					for i, e := range trun.Entries {
+					for _, e := range trun.Entries {
 						s := &Sample{}
 
 						if (trunFlags & trunFlagSampleDurationPresent) != 0 {
@@ -180,7 +181,7 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 						s.Payload = ptr[:size]
 						ptr = ptr[size:]
 
-						curTrack.Samples[existing+i] = s
+						curTrack.Samples = append(curTrack.Samples, s)
 					}
 				}
 
-- 
2.43.0


From 75dddbdc02a513b144a7438e0ceac76a0fd26003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 50/63] fix: pmp4: return an error when the position of samples
 is missing

---
 pkg/formats/pmp4/presentation.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index afc0f62..15cec95 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -423,6 +423,14 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 		return fmt.Errorf("no tracks found")
 	}
 
+	for _, track := range p.Tracks {
+		for _, sample := range track.Samples {
+			if sample.GetPayload == nil {
+				return fmt.Errorf("position of samples not found")
+			}
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 0bd6e72370d4acbae0db8163ab6961ffd2600fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 51/63] fix: mp4: prevent infinite loops caused by box sizes
 that overflow

---
 internal/mp4/check_box_size.go   | 17 +++++++++++++++++
 pkg/formats/fmp4/init.go         |  5 +++++
 pkg/formats/fmp4/parts.go        |  7 +++++++
 pkg/formats/pmp4/presentation.go |  5 +++++
 4 files changed, 34 insertions(+)
 create mode 100644 internal/mp4/check_box_size.go

diff --git a/internal/mp4/check_box_size.go b/internal/mp4/check_box_size.go
new file mode 100644
index 0000000..a6bebdb
--- /dev/null
+++ b/internal/mp4/check_box_size.go
@@ -0,0 +1,17 @@
+package mp4
+
+import (
+	"fmt"
+	"math"
+
+	amp4 "github.com/abema/go-mp4"
+)
+
+// CheckBoxSize checks whether the size of a box is able to contain the header
+// and doesn't cause the reader to move backwards.
+func CheckBoxSize(bi *amp4.BoxInfo) error {
+	if bi.Size < bi.HeaderSize || bi.Size > (math.MaxInt64-bi.Offset) {
+		return fmt.Errorf("invalid size of box '%v'", bi.Type)
+	}
+	return nil
+}
diff --git a/pkg/formats/fmp4/init.go b/pkg/formats/fmp4/init.go
index 81c9c89..0601f0e 100644
--- a/pkg/formats/fmp4/init.go
+++ b/pkg/formats/fmp4/init.go
@@ -37,6 +37,11 @@ func (i *Init) Unmarshal(r io.ReadSeeker) error {
 	var codecBoxesReader *imp4.CodecBoxesReader
 
 	_, err := amp4.ReadBoxStructure(r, func(h *amp4.ReadHandle) (any, error) {
+		err := imp4.CheckBoxSize(&h.BoxInfo)
+		if err != nil {
+			return nil, err
+		}
+
 		switch state {
 		case readingUserData:
 			if len(h.Path) < 3 {
diff --git a/pkg/formats/fmp4/parts.go b/pkg/formats/fmp4/parts.go
index 73bee3e..ab35d56 100644
--- a/pkg/formats/fmp4/parts.go
+++ b/pkg/formats/fmp4/parts.go
@@ -6,6 +6,8 @@ import (
 	"io"
 
 	amp4 "github.com/abema/go-mp4"
+
+	imp4 "github.com/bluenviron/mediacommon/v2/internal/mp4"
 )
 
 const (
@@ -35,6 +37,11 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 	var totalSamples uint64
 
 	_, err := amp4.ReadBoxStructure(bytes.NewReader(byts), func(h *amp4.ReadHandle) (any, error) {
+		err := imp4.CheckBoxSize(&h.BoxInfo)
+		if err != nil {
+			return nil, err
+		}
+
 		if h.BoxInfo.IsSupportedType() {
 			switch h.BoxInfo.Type.String() {
 			case "moof":
diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 15cec95..bc825a1 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -73,6 +73,11 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 	remainingSamples := fileSize / 4
 
 	_, err = amp4.ReadBoxStructure(r, func(h *amp4.ReadHandle) (any, error) {
+		err := imp4.CheckBoxSize(&h.BoxInfo)
+		if err != nil {
+			return nil, err
+		}
+
 		if state == readingCodec {
 			ret, err := codecBoxesReader.Read(h)
 			if err != nil {
-- 
2.43.0


From 43d471cb3815c736fcedd6a721e67ec4cac8c52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 52/63] fix: mp4: take the sample rate of AC-3 from the codec
 configuration instead of from the sample entry

---
 internal/mp4/codec_boxes.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/mp4/codec_boxes.go b/internal/mp4/codec_boxes.go
index 5e0d5c0..577a13b 100644
--- a/internal/mp4/codec_boxes.go
+++ b/internal/mp4/codec_boxes.go
@@ -140,6 +140,9 @@ func esdsFindDecoderSpecificInfo(descriptors []amp4.Descriptor) []byte {
 	return nil
 }
 
+// sample rates of AC-3 and E-AC-3, indexed by fscod.
+var fscodSampleRates = []int{48000, 44100, 32000}
+
 type readState int
 
 const (
@@ -530,8 +533,12 @@ func (r *CodecBoxesReader) Read(h *amp4.ReadHandle) (any, error) {
 		}
 		dac3 := box.(*amp4.Dac3)
 
+		if int(dac3.Fscod) >= len(fscodSampleRates) {
+			return nil, fmt.Errorf("invalid fscod: %d", dac3.Fscod)
+		}
+
 		r.Codec = &codecs.AC3{
-			SampleRate:   r.sampleRate,
+			SampleRate:   fscodSampleRates[dac3.Fscod],
 			ChannelCount: r.channelCount,
 			Fscod:        dac3.Fscod,
 			Bsid:         dac3.Bsid,
@@ -573,6 +580,10 @@ func (r *CodecBoxesReader) Read(h *amp4.ReadHandle) (any, error) {
 			return nil, fmt.Errorf("multi-substream E-AC-3 content is not supported")
 		}
 
+		if int(dec3.IndSubs[0].Fscod) < len(fscodSampleRates) {
+			r.sampleRate = fscodSampleRates[dec3.IndSubs[0].Fscod]
+		}
+
 		r.Codec = &codecs.EAC3{
 			SampleRate:   r.sampleRate,
 			ChannelCount: r.channelCount,
-- 
2.43.0


From 498267ad1778addbcf85284a0abc15b421b5f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 53/63] fix: mpeg4audio: do not keep invalid configurations
 when decoding audio mux elements

---
 pkg/codecs/mpeg4audio/audio_mux_element.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/codecs/mpeg4audio/audio_mux_element.go b/pkg/codecs/mpeg4audio/audio_mux_element.go
index 74e455c..b90976f 100644
--- a/pkg/codecs/mpeg4audio/audio_mux_element.go
+++ b/pkg/codecs/mpeg4audio/audio_mux_element.go
@@ -36,11 +36,17 @@ func (e *AudioMuxElement) Unmarshal(buf []byte) error {
 		}
 
 		if !e.UseSameStreamMux {
-			e.StreamMuxConfig = &StreamMuxConfig{}
-			err = e.StreamMuxConfig.unmarshalBits(buf, &pos)
+			// do not leave a partially-filled configuration in case of errors,
+			// since it can be used by the next elements.
+			e.StreamMuxConfig = nil
+
+			conf := &StreamMuxConfig{}
+			err = conf.unmarshalBits(buf, &pos)
 			if err != nil {
 				return err
 			}
+
+			e.StreamMuxConfig = conf
 		}
 	}
 
-- 
2.43.0


From 2be5a9754ee8f7d26229255bfbd9346be9888193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 54/63] fix: mp4: discard previous content when decoding into a
 value that has already been used

---
 pkg/formats/fmp4/init.go         | 2 ++
 pkg/formats/fmp4/parts.go        | 2 ++
 pkg/formats/pmp4/presentation.go | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/pkg/formats/fmp4/init.go b/pkg/formats/fmp4/init.go
index 0601f0e..8b753ac 100644
--- a/pkg/formats/fmp4/init.go
+++ b/pkg/formats/fmp4/init.go
@@ -32,6 +32,8 @@ func (i *Init) Unmarshal(r io.ReadSeeker) error {
 		readingCodec
 	)
 
+	*i = Init{}
+
 	var state readState
 	var curTrack *InitTrack
 	var codecBoxesReader *imp4.CodecBoxesReader
diff --git a/pkg/formats/fmp4/parts.go b/pkg/formats/fmp4/parts.go
index ab35d56..823fa94 100644
--- a/pkg/formats/fmp4/parts.go
+++ b/pkg/formats/fmp4/parts.go
@@ -28,6 +28,8 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 		waitingTfdtTfhdTrun
 	)
 
+	*ps = nil
+
 	state := waitingMoof
 	var curPart *Part
 	var moofOffset uint64
diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index bc825a1..09d50bc 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -50,6 +50,8 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 		waitingSampleProps
 	)
 
+	*p = Presentation{}
+
 	var state readState
 	var trackDuration uint64
 	var curTrack *Track
-- 
2.43.0


From b80fcbd0ca2709248de0bf32404b7884f6825e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:37 +0000
Subject: [PATCH 55/63] fix: mpegts: accept metadata cells of KLV tracks
 regardless of their first sequence number

---
 pkg/formats/mpegts/reader.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pkg/formats/mpegts/reader.go b/pkg/formats/mpegts/reader.go
index ee8b6fd..52ff769 100644
--- a/pkg/formats/mpegts/reader.go
+++ b/pkg/formats/mpegts/reader.go
@@ -67,18 +67,15 @@ func findPMT(dem *robustDemuxer) (*astits.PMTData, error) {
 }
 
 func readMetadataAUWrapper(in []byte) ([]byte, error) {
-	expectedSeqNum := 0
-
 	var au substructs.MetadataAUCell
 	n, err := au.Unmarshal(in)
 	if err != nil {
 		return nil, err
 	}
 
-	if int(au.SequenceNumber) != expectedSeqNum {
-		return nil, fmt.Errorf("unexpected sequence number: %d, expected %d", au.SequenceNumber, expectedSeqNum)
-	}
-	expectedSeqNum++
+	// the sequence number is incremented, modulo 256, by each cell of the stream,
+	// therefore the first one can be anything (ISO 13818-1, 2.12.4.2).
+	expectedSeqNum := au.SequenceNumber + 1
 
 	switch au.CellFragmentIndication {
 	case 0b11:
@@ -103,7 +100,7 @@ func readMetadataAUWrapper(in []byte) ([]byte, error) {
 		}
 		n += n2
 
-		if int(au.SequenceNumber) != expectedSeqNum {
+		if au.SequenceNumber != expectedSeqNum {
 			return nil, fmt.Errorf("unexpected sequence number: %d, expected %d", au.SequenceNumber, expectedSeqNum)
 		}
 		expectedSeqNum++
-- 
2.43.0


From 88d38c66466b02ece1e18bf92c08913b245dced9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:57 +0000
Subject: [PATCH 56/63] fix: fmp4: take the flags of the first sample from
 first_sample_flags when present

---
 pkg/formats/fmp4/part.go  | 1 +
 pkg/formats/fmp4/parts.go | 9 ++++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/formats/fmp4/part.go b/pkg/formats/fmp4/part.go
index 349f262..8372c23 100644
--- a/pkg/formats/fmp4/part.go
+++ b/pkg/formats/fmp4/part.go
@@ -10,6 +10,7 @@ import (
 
 const (
 	trunFlagDataOffsetPreset                       = 0x01
+	trunFlagFirstSampleFlagsPresent                = 0x04
 	trunFlagSampleDurationPresent                  = 0x100
 	trunFlagSampleSizePresent                      = 0x200
 	trunFlagSampleFlagsPresent                     = 0x400
diff --git a/pkg/formats/fmp4/parts.go b/pkg/formats/fmp4/parts.go
index 823fa94..250c1fd 100644
--- a/pkg/formats/fmp4/parts.go
+++ b/pkg/formats/fmp4/parts.go
@@ -153,7 +153,7 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 
 					ptr := byts[pos:]
 
-					for _, e := range trun.Entries {
+					for i, e := range trun.Entries {
 						s := &Sample{}
 
 						if (trunFlags & trunFlagSampleDurationPresent) != 0 {
@@ -169,9 +169,12 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 						}
 
 						var sampleFlags uint32
-						if (trunFlags & trunFlagSampleFlagsPresent) != 0 {
+						switch {
+						case (trunFlags & trunFlagSampleFlagsPresent) != 0:
 							sampleFlags = e.SampleFlags
-						} else {
+						case i == 0 && (trunFlags&trunFlagFirstSampleFlagsPresent) != 0:
+							sampleFlags = trun.FirstSampleFlags
+						default:
 							sampleFlags = tfhd.DefaultSampleFlags
 						}
 						s.IsNonSyncSample = ((sampleFlags & sampleFlagIsNonSyncSample) != 0)
-- 
2.43.0


From e3c2fc59065d5f0e34975e994e760805988d6395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:57 +0000
Subject: [PATCH 57/63] fix: fmp4: do not refuse user data of tracks, nor
 mistake it for that of the movie

---
 pkg/formats/fmp4/init.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/formats/fmp4/init.go b/pkg/formats/fmp4/init.go
index 8b753ac..3a79da0 100644
--- a/pkg/formats/fmp4/init.go
+++ b/pkg/formats/fmp4/init.go
@@ -93,6 +93,11 @@ func (i *Init) Unmarshal(r io.ReadSeeker) error {
 			return h.Expand()
 
 		case "udta":
+			// user data of a track or of another box
+			if len(h.Path) != 2 {
+				return nil, nil
+			}
+
 			if state != waitingTrak {
 				return nil, fmt.Errorf("unexpected box '%v'", h.BoxInfo.Type)
 			}
-- 
2.43.0


From ffd109a4f4247e22442d77ded3046fc90e813919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:04 +0000
Subject: [PATCH 58/63] fix: fmp4: skip user data boxes of unknown type

---
 pkg/formats/fmp4/init.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/formats/fmp4/init.go b/pkg/formats/fmp4/init.go
index 3a79da0..5e578e4 100644
--- a/pkg/formats/fmp4/init.go
+++ b/pkg/formats/fmp4/init.go
@@ -49,6 +49,10 @@ func (i *Init) Unmarshal(r io.ReadSeeker) error {
 			if len(h.Path) < 3 {
 				state = waitingTrak
 			} else {
+				if !h.BoxInfo.IsSupportedType() {
+					return nil, nil
+				}
+
 				box, _, err := h.ReadPayload()
 				if err != nil {
 					return nil, err
-- 
2.43.0


From 69d005ee1dd9694f78cadf3be0a4feadb7aba6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 59/63] fix: h264, h265: do not keep references to buffers of
 the caller in DTSExtractor

---
 pkg/codecs/h264/dts_extractor.go | 2 +-
 pkg/codecs/h265/dts_extractor.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/codecs/h264/dts_extractor.go b/pkg/codecs/h264/dts_extractor.go
index 659abcf..a068fc3 100644
--- a/pkg/codecs/h264/dts_extractor.go
+++ b/pkg/codecs/h264/dts_extractor.go
@@ -134,7 +134,7 @@ outer:
 				if err != nil {
 					return 0, false, fmt.Errorf("invalid SPS: %w", err)
 				}
-				d.sps = nalu
+				d.sps = bytes.Clone(nalu)
 				d.spsp = &spsp
 
 				// reset state
diff --git a/pkg/codecs/h265/dts_extractor.go b/pkg/codecs/h265/dts_extractor.go
index 1a6884f..e1aec41 100644
--- a/pkg/codecs/h265/dts_extractor.go
+++ b/pkg/codecs/h265/dts_extractor.go
@@ -181,7 +181,7 @@ outer:
 				}
 
 				d.spsp = &spsp
-				d.sps = nalu
+				d.sps = bytes.Clone(nalu)
 
 				// reset state
 				d.randomReceived = false
@@ -199,7 +199,7 @@ outer:
 				}
 
 				d.ppsp = &ppsp
-				d.pps = nalu
+				d.pps = bytes.Clone(nalu)
 			}
 
 		case NALUType_IDR_W_RADL, NALUType_IDR_N_LP:
-- 
2.43.0


From 38e9ddcdb5c4c35acdfb7c12ffafc65cd82ca308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:09 +0000
Subject: [PATCH 60/63] fix: mp4: take the channel count of AC-3 and E-AC-3
 from their specific box

---
 internal/mp4/codec_boxes.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/mp4/codec_boxes.go b/internal/mp4/codec_boxes.go
index 577a13b..84b6c71 100644
--- a/internal/mp4/codec_boxes.go
+++ b/internal/mp4/codec_boxes.go
@@ -5,6 +5,7 @@ import (
 
 	amp4 "github.com/abema/go-mp4"
 
+	"github.com/bluenviron/mediacommon/v2/pkg/codecs/ac3"
 	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
 	"github.com/bluenviron/mediacommon/v2/pkg/codecs/flac"
 	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
@@ -143,6 +144,12 @@ func esdsFindDecoderSpecificInfo(descriptors []amp4.Descriptor) []byte {
 // sample rates of AC-3 and E-AC-3, indexed by fscod.
 var fscodSampleRates = []int{48000, 44100, 32000}
 
+// the channel count of AC-3 and E-AC-3 sample entries has to be ignored
+// (ETSI TS 102 366, annex F), it is always 2.
+func ac3ChannelCount(acmod uint8, lfeOn bool) int {
+	return ac3.BSI{Acmod: acmod, LfeOn: lfeOn}.ChannelCount()
+}
+
 type readState int
 
 const (
@@ -539,7 +546,7 @@ func (r *CodecBoxesReader) Read(h *amp4.ReadHandle) (any, error) {
 
 		r.Codec = &codecs.AC3{
 			SampleRate:   fscodSampleRates[dac3.Fscod],
-			ChannelCount: r.channelCount,
+			ChannelCount: ac3ChannelCount(dac3.Acmod, dac3.LfeOn != 0),
 			Fscod:        dac3.Fscod,
 			Bsid:         dac3.Bsid,
 			Bsmod:        dac3.Bsmod,
@@ -584,6 +591,11 @@ func (r *CodecBoxesReader) Read(h *amp4.ReadHandle) (any, error) {
 			r.sampleRate = fscodSampleRates[dec3.IndSubs[0].Fscod]
 		}
 
+		// dependent substreams can add channels.
+		if dec3.IndSubs[0].NumDepSub == 0 {
+			r.channelCount = ac3ChannelCount(dec3.IndSubs[0].Acmod, dec3.IndSubs[0].LfeOn != 0)
+		}
+
 		r.Codec = &codecs.EAC3{
 			SampleRate:   r.sampleRate,
 			ChannelCount: r.channelCount,
-- 
2.43.0


From 7f179b6a44269e3617dfb0563b29c17adfc6e993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 61/63] fix: mpegts: data that came together with an error was
 lost by BufferedReader

---
 pkg/formats/mpegts/buffered_reader.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/formats/mpegts/buffered_reader.go b/pkg/formats/mpegts/buffered_reader.go
index 87f9613..fe5f323 100644
--- a/pkg/formats/mpegts/buffered_reader.go
+++ b/pkg/formats/mpegts/buffered_reader.go
@@ -12,6 +12,7 @@ type BufferedReader struct {
 	r         io.Reader
 	midbuf    []byte
 	midbufpos int
+	miderr    error
 }
 
 // NewBufferedReader allocates a BufferedReader.
@@ -32,8 +33,15 @@ func (r *BufferedReader) Read(p []byte) (int, error) {
 		return n, nil
 	}
 
+	// return errors that arrived together with data.
+	if r.miderr != nil {
+		err := r.miderr
+		r.miderr = nil
+		return 0, err
+	}
+
 	mn, err := r.r.Read(r.midbuf[:cap(r.midbuf)])
-	if err != nil {
+	if mn == 0 && err != nil {
 		return 0, err
 	}
 
@@ -41,6 +49,7 @@ func (r *BufferedReader) Read(p []byte) (int, error) {
 		return 0, fmt.Errorf("received packet with size %d not multiple of %d", mn, packetSize)
 	}
 
+	r.miderr = err
 	r.midbuf = r.midbuf[:mn]
 	n := copy(p, r.midbuf)
 	r.midbufpos = n
-- 
2.43.0


From c314618a5bda3f89c58fcc13a45e26c1de54c4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:04 +0000
Subject: [PATCH 62/63] fix: keep the leading track of a MPEG-TS writer in the
 writer

Tracks were marked as leading, therefore a second writer that was given the
same tracks wrote clock references on tracks other than its own leading one.
---
 pkg/formats/mpegts/track.go  |  1 -
 pkg/formats/mpegts/writer.go | 13 +++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/formats/mpegts/track.go b/pkg/formats/mpegts/track.go
index fea7809..edc93a5 100644
--- a/pkg/formats/mpegts/track.go
+++ b/pkg/formats/mpegts/track.go
@@ -313,7 +313,6 @@ type Track struct {
 	// Codec.
 	Codec codecs.Codec
 
-	isLeading  bool // Writer-only
 	mp3Checked bool // Writer-only
 }
 
diff --git a/pkg/formats/mpegts/writer.go b/pkg/formats/mpegts/writer.go
index e7cd036..d3006bb 100644
--- a/pkg/formats/mpegts/writer.go
+++ b/pkg/formats/mpegts/writer.go
@@ -76,6 +76,7 @@ type Writer struct {
 	mux                *astits.Muxer
 	pcrCounter         int
 	leadingTrackChosen bool
+	leadingTrack       *Track
 }
 
 // Initialize initializes a Writer.
@@ -379,7 +380,7 @@ func (w *Writer) writeVideo(
 ) error {
 	if !w.leadingTrackChosen {
 		w.leadingTrackChosen = true
-		track.isLeading = true
+		w.leadingTrack = track
 		w.mux.SetPCRPID(track.PID)
 	}
 
@@ -390,7 +391,7 @@ func (w *Writer) writeVideo(
 		af.RandomAccessIndicator = true
 	}
 
-	if track.isLeading {
+	if track == w.leadingTrack {
 		if randomAccess || w.pcrCounter == 0 {
 			if af == nil {
 				af = &astits.PacketAdaptationField{}
@@ -431,7 +432,7 @@ func (w *Writer) writeVideo(
 func (w *Writer) writeAudio(track *Track, pts int64, data []byte) error {
 	if !w.leadingTrackChosen {
 		w.leadingTrackChosen = true
-		track.isLeading = true
+		w.leadingTrack = track
 		w.mux.SetPCRPID(track.PID)
 	}
 
@@ -439,7 +440,7 @@ func (w *Writer) writeAudio(track *Track, pts int64, data []byte) error {
 		RandomAccessIndicator: true,
 	}
 
-	if track.isLeading {
+	if track == w.leadingTrack {
 		if w.pcrCounter == 0 {
 			af.HasPCR = true
 			af.PCR = &astits.ClockReference{Base: pts - dtsPCRDiff}
@@ -468,7 +469,7 @@ func (w *Writer) writeAudio(track *Track, pts int64, data []byte) error {
 func (w *Writer) writeData(track *Track, hasPTS bool, pts int64, streamID uint8, data []byte) error {
 	if !w.leadingTrackChosen {
 		w.leadingTrackChosen = true
-		track.isLeading = true
+		w.leadingTrack = track
 		w.mux.SetPCRPID(track.PID)
 	}
 
@@ -476,7 +477,7 @@ func (w *Writer) writeData(track *Track, hasPTS bool, pts int64, streamID uint8,
 		RandomAccessIndicator: true,
 	}
 
-	if track.isLeading {
+	if track == w.leadingTrack {
 		if w.pcrCounter == 0 {
 			af.HasPCR = true
 			af.PCR = &astits.ClockReference{Base: pts - dtsPCRDiff}
-- 
2.43.0


From 7afdd29425179a5d4d0781200fc41a63b5f6d098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:33 +0000
Subject: [PATCH 63/63] fix: return an error when the data of a part does not
 fit into data offsets

---
 pkg/formats/fmp4/part.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/formats/fmp4/part.go b/pkg/formats/fmp4/part.go
index 8372c23..3a54beb 100644
--- a/pkg/formats/fmp4/part.go
+++ b/pkg/formats/fmp4/part.go
@@ -1,7 +1,9 @@
 package fmp4
 
 import (
+	"fmt"
 	"io"
+	"math"
 
 	amp4 "github.com/abema/go-mp4"
 
@@ -96,7 +98,12 @@ func (p Part) Marshal(w io.WriteSeeker) error {
 	}
 
 	for i := range p.Tracks {
-		truns[i].DataOffset = int32(dataOffsets[i] + mdatOffset - moofOffset + 8)
+		dataOffset := dataOffsets[i] + mdatOffset - moofOffset + 8
+		if dataOffset > math.MaxInt32 {
+			return fmt.Errorf("samples are too big")
+		}
+
+		truns[i].DataOffset = int32(dataOffset)
 		err = mw.RewriteBox(trunOffsets[i], truns[i])
 		if err != nil {
 			return err
-- 
2.43.0

