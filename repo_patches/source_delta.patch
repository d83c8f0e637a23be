From 750f99e3984e7abbcb7841f08bd2ae6fc6f67452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:28 +0000
Subject: [PATCH 01/36] fix: report failed reads of content encoding settings,
 keys and signatures

The error branch returned the (successful) header status, so the parser
reported success for settings it never read.
---
 mkvparser/mkvparser.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 9bb6c96..f5c3ce2 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -4344,7 +4344,7 @@ long ContentEncoding::ParseCompressionEntry(long long start, long long size,
           pReader->Read(pos, static_cast<long>(buflen), buf);
       if (read_status) {
         delete[] buf;
-        return status;
+        return read_status;
       }
 
       // There should be only one settings element per content compression.
@@ -4405,7 +4405,7 @@ long ContentEncoding::ParseEncryptionEntry(long long start, long long size,
           pReader->Read(pos, static_cast<long>(buflen), buf);
       if (read_status) {
         delete[] buf;
-        return status;
+        return read_status;
       }
 
       encryption->key_id = buf;
@@ -4427,7 +4427,7 @@ long ContentEncoding::ParseEncryptionEntry(long long start, long long size,
           pReader->Read(pos, static_cast<long>(buflen), buf);
       if (read_status) {
         delete[] buf;
-        return status;
+        return read_status;
       }
 
       encryption->signature = buf;
@@ -4449,7 +4449,7 @@ long ContentEncoding::ParseEncryptionEntry(long long start, long long size,
           pReader->Read(pos, static_cast<long>(buflen), buf);
       if (read_status) {
         delete[] buf;
-        return status;
+        return read_status;
       }
 
       encryption->sig_key_id = buf;
-- 
2.43.0


From f0d694d1406c1efc054078516d71512ad3d74f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:28 +0000
Subject: [PATCH 02/36] fix: treat a positive read status as underflow in the
 Unserialize helpers

A reader reports underflow with a positive status; the helpers only checked
for negative values and decoded uninitialized bytes.
---
 mkvparser/mkvparser.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index f5c3ce2..66a7cb0 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -220,6 +220,9 @@ long long UnserializeUInt(IMkvReader* pReader, long long pos, long long size) {
     if (status < 0)
       return status;
 
+    if (status > 0)  // underflow
+      return E_BUFFER_NOT_FULL;
+
     result <<= 8;
     result |= b;
 
@@ -243,6 +246,9 @@ long UnserializeFloat(IMkvReader* pReader, long long pos, long long size_,
   if (status < 0)  // error
     return status;
 
+  if (status > 0)  // underflow
+    return E_BUFFER_NOT_FULL;
+
   if (size == 4) {
     union {
       float f;
@@ -300,6 +306,9 @@ long UnserializeInt(IMkvReader* pReader, long long pos, long long size,
   if (status < 0)
     return status;
 
+  if (status > 0)  // underflow
+    return E_BUFFER_NOT_FULL;
+
   unsigned long long result = static_cast<unsigned long long>(first_byte);
   ++pos;
 
@@ -311,6 +320,9 @@ long UnserializeInt(IMkvReader* pReader, long long pos, long long size,
     if (status < 0)
       return status;
 
+    if (status > 0)  // underflow
+      return E_BUFFER_NOT_FULL;
+
     result <<= 8;
     result |= b;
 
-- 
2.43.0


From 2d399b3928b25885ea4c958e11366c605b19608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 03/36] fix: do not parse block flags that the reader failed to
 deliver

---
 mkvparser/mkvparser.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 66a7cb0..9536e70 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -6551,9 +6551,9 @@ long Cluster::ParseSimpleBlock(long long block_size, long long& pos,
 
   status = pReader->Read(pos, 1, &flags);
 
-  if (status < 0) {  // error or underflow
+  if (status != 0) {  // error or underflow
     len = 1;
-    return status;
+    return (status < 0) ? status : E_BUFFER_NOT_FULL;
   }
 
   ++pos;  // consume flags byte
@@ -6753,9 +6753,9 @@ long Cluster::ParseBlockGroup(long long payload_size, long long& pos,
 
     status = pReader->Read(pos, 1, &flags);
 
-    if (status < 0) {  // error or underflow
+    if (status != 0) {  // error or underflow
       len = 1;
-      return status;
+      return (status < 0) ? status : E_BUFFER_NOT_FULL;
     }
 
     ++pos;  // consume flags byte
-- 
2.43.0


From aace16a378a4c5c4b28b90c2d7250c39cc3c5f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 04/36] fix: check the result of reading track and content
 encoding integers

A failed read left a negative error code in the (unsigned) members and
parsing carried on as if the element had been read.
---
 mkvparser/mkvparser.cc | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 9536e70..a574412 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -4275,13 +4275,20 @@ long ContentEncoding::ParseContentEncodingEntry(long long start, long long size,
       return status;
 
     if (id == libwebm::kMkvContentEncodingOrder) {
-      encoding_order_ = UnserializeUInt(pReader, pos, size);
+      const long long encoding_order = UnserializeUInt(pReader, pos, size);
+      if (encoding_order < 0)
+        return E_FILE_FORMAT_INVALID;
+      encoding_order_ = encoding_order;
     } else if (id == libwebm::kMkvContentEncodingScope) {
-      encoding_scope_ = UnserializeUInt(pReader, pos, size);
-      if (encoding_scope_ < 1)
+      const long long encoding_scope = UnserializeUInt(pReader, pos, size);
+      if (encoding_scope < 1)
         return -1;
+      encoding_scope_ = encoding_scope;
     } else if (id == libwebm::kMkvContentEncodingType) {
-      encoding_type_ = UnserializeUInt(pReader, pos, size);
+      const long long encoding_type = UnserializeUInt(pReader, pos, size);
+      if (encoding_type < 0)
+        return E_FILE_FORMAT_INVALID;
+      encoding_type_ = encoding_type;
     } else if (id == libwebm::kMkvContentCompression) {
       ContentCompression* const compression =
           new (std::nothrow) ContentCompression();
@@ -4467,9 +4474,15 @@ long ContentEncoding::ParseEncryptionEntry(long long start, long long size,
       encryption->sig_key_id = buf;
       encryption->sig_key_id_len = buflen;
     } else if (id == libwebm::kMkvContentSigAlgo) {
-      encryption->sig_algo = UnserializeUInt(pReader, pos, size);
+      const long long sig_algo = UnserializeUInt(pReader, pos, size);
+      if (sig_algo < 0)
+        return E_FILE_FORMAT_INVALID;
+      encryption->sig_algo = sig_algo;
     } else if (id == libwebm::kMkvContentSigHashAlgo) {
-      encryption->sig_hash_algo = UnserializeUInt(pReader, pos, size);
+      const long long sig_hash_algo = UnserializeUInt(pReader, pos, size);
+      if (sig_hash_algo < 0)
+        return E_FILE_FORMAT_INVALID;
+      encryption->sig_hash_algo = sig_hash_algo;
     } else if (id == libwebm::kMkvContentEncAESSettings) {
       const long status = ParseContentEncAESSettingsEntry(
           pos, size, pReader, &encryption->aes_settings);
@@ -5928,9 +5941,19 @@ long Tracks::ParseTrackEntry(long long track_start, long long track_size,
       if (status)
         return status;
     } else if (id == libwebm::kMkvCodecDelay) {
-      info.codecDelay = UnserializeUInt(pReader, pos, size);
+      const long long codec_delay = UnserializeUInt(pReader, pos, size);
+
+      if (codec_delay < 0)
+        return static_cast<long>(codec_delay);
+
+      info.codecDelay = codec_delay;
     } else if (id == libwebm::kMkvSeekPreRoll) {
-      info.seekPreRoll = UnserializeUInt(pReader, pos, size);
+      const long long seek_preroll = UnserializeUInt(pReader, pos, size);
+
+      if (seek_preroll < 0)
+        return static_cast<long>(seek_preroll);
+
+      info.seekPreRoll = seek_preroll;
     }
 
     pos += size;  // consume payload
-- 
2.43.0


From b99457d7ed10aa3e1d73149fc306cca54c69b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 05/36] fix: report failures to parse a track's content
 encodings

---
 mkvparser/mkvparser.cc | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index a574412..d436a00 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -5995,8 +5995,16 @@ long Tracks::ParseTrackEntry(long long track_start, long long track_size,
     pResult = pTrack;
     assert(pResult);
 
-    if (e.start >= 0)
-      pResult->ParseContentEncodingsEntry(e.start, e.size);
+    if (e.start >= 0) {
+      const long encodings_status =
+          pResult->ParseContentEncodingsEntry(e.start, e.size);
+
+      if (encodings_status) {
+        delete pResult;
+        pResult = NULL;
+        return encodings_status;
+      }
+    }
   } else if (info.type == Track::kAudio) {
     if (a.start < 0)
       return E_FILE_FORMAT_INVALID;
@@ -6017,8 +6025,16 @@ long Tracks::ParseTrackEntry(long long track_start, long long track_size,
     pResult = pTrack;
     assert(pResult);
 
-    if (e.start >= 0)
-      pResult->ParseContentEncodingsEntry(e.start, e.size);
+    if (e.start >= 0) {
+      const long encodings_status =
+          pResult->ParseContentEncodingsEntry(e.start, e.size);
+
+      if (encodings_status) {
+        delete pResult;
+        pResult = NULL;
+        return encodings_status;
+      }
+    }
   } else {
     // neither video nor audio - probably metadata or subtitles
 
-- 
2.43.0


From 935eb5b7d4b376ac52eb911ac08eaa94bb3ff2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 06/36] fix: CuePoint::Load must fail when an element cannot be
 read

Read errors were only asserted, a failed CueTime could be masked by a later
one, and the 'too many positions' error code converted to true.
---
 mkvparser/mkvparser.cc | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index d436a00..b9288e8 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2306,7 +2306,8 @@ bool CuePoint::Load(IMkvReader* pReader) {
     pos_ += len;  // consume ID
 
     const long long size = ReadUInt(pReader, pos_, len);
-    assert(size >= 0);
+    if (size < 0)
+      return false;
 
     pos_ += len;  // consume Size field
     // pos_ now points to start of payload
@@ -2340,13 +2341,16 @@ bool CuePoint::Load(IMkvReader* pReader) {
       return false;
     }
 
-    if (id == libwebm::kMkvCueTime)
-      m_timecode = UnserializeUInt(pReader, pos, size);
+    if (id == libwebm::kMkvCueTime) {
+      const long long timecode = UnserializeUInt(pReader, pos, size);
+      if (timecode < 0)
+        return false;
 
-    else if (id == libwebm::kMkvCueTrackPositions) {
+      m_timecode = timecode;
+    } else if (id == libwebm::kMkvCueTrackPositions) {
       ++track_positions_count;
       if (track_positions_count > UINT_MAX)
-        return E_PARSE_FAILED;
+        return false;
     }
 
     pos += size;  // consume payload
@@ -2381,11 +2385,12 @@ bool CuePoint::Load(IMkvReader* pReader) {
     pos += len;  // consume ID
 
     const long long size = ReadUInt(pReader, pos, len);
-    assert(size >= 0);
-    assert((pos + len) <= stop);
+    if (size < 0 || (pos + len) > stop)
+      return false;
 
     pos += len;  // consume Size field
-    assert((pos + size) <= stop);
+    if ((pos + size) > stop)
+      return false;
 
     if (id == libwebm::kMkvCueTrackPositions) {
       TrackPosition& tp = *p++;
-- 
2.43.0


From 189b5fa7dc01695c8368ca4f5139b933c9440e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 07/36] fix: a cue track position whose members cannot be read
 is not valid

---
 mkvparser/mkvparser.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index b9288e8..e8b204e 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2441,12 +2441,19 @@ bool CuePoint::TrackPosition::Parse(IMkvReader* pReader, long long start_,
       return false;
     }
 
-    if (id == libwebm::kMkvCueTrack)
+    if (id == libwebm::kMkvCueTrack) {
       m_track = UnserializeUInt(pReader, pos, size);
-    else if (id == libwebm::kMkvCueClusterPosition)
+      if (m_track <= 0)
+        return false;
+    } else if (id == libwebm::kMkvCueClusterPosition) {
       m_pos = UnserializeUInt(pReader, pos, size);
-    else if (id == libwebm::kMkvCueBlockNumber)
+      if (m_pos < 0)
+        return false;
+    } else if (id == libwebm::kMkvCueBlockNumber) {
       m_block = UnserializeUInt(pReader, pos, size);
+      if (m_block < 0)
+        return false;
+    }
 
     pos += size;  // consume payload
   }
-- 
2.43.0


From 9976733d9287f3420a1186f6bf87c779c4fba319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 08/36] fix: Cluster::CreateBlockGroup must check child sizes
 instead of asserting

---
 mkvparser/mkvparser.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index e8b204e..ab6d374 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -7299,10 +7299,12 @@ long Cluster::CreateBlockGroup(long long start_offset, long long size,
     pos += len;  // consume ID
 
     const long long size = ReadUInt(pReader, pos, len);
-    assert(size >= 0);  // TODO
-    assert((pos + len) <= stop);
+    if (size < 0 || (pos + len) > stop)
+      return E_FILE_FORMAT_INVALID;
 
     pos += len;  // consume size
+    if ((pos + size) > stop)
+      return E_FILE_FORMAT_INVALID;
 
     if (id == libwebm::kMkvBlock) {
       if (bpos < 0) {  // Block ID
@@ -7325,7 +7327,6 @@ long Cluster::CreateBlockGroup(long long start_offset, long long size,
       long long time;
 
       long status = UnserializeInt(pReader, pos, size_, time);
-      assert(status == 0);
       if (status != 0)
         return -1;
 
-- 
2.43.0


From aa06d417794ee7b07be8dfa8b76b1f358438e10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 09/36] fix: Segment::GetNext must not continue past elements
 it failed to read

The failures were only asserted; with assertions disabled the position was
advanced by an error code.
---
 mkvparser/mkvparser.cc | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index ab6d374..511cb08 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2582,9 +2582,7 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
     long len;
 
     long long result = GetUIntLength(m_pReader, pos, len);
-    assert(result == 0);
-    assert((pos + len) <= stop);  // TODO
-    if (result != 0)
+    if (result != 0 || (pos + len) > stop)
       return NULL;
 
     const long long id = ReadID(m_pReader, pos, len);
@@ -2595,15 +2593,18 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
 
     // Read Size
     result = GetUIntLength(m_pReader, pos, len);
-    assert(result == 0);  // TODO
-    assert((pos + len) <= stop);  // TODO
+    if (result != 0 || (pos + len) > stop)
+      return NULL;
 
     const long long size = ReadUInt(m_pReader, pos, len);
-    assert(size > 0);  // TODO
+    if (size <= 0)
+      return NULL;
+
     // assert((pCurr->m_size <= 0) || (pCurr->m_size == size));
 
     pos += len;  // consume length of size of element
-    assert((pos + size) <= stop);  // TODO
+    if ((pos + size) > stop)
+      return NULL;
 
     // Pos now points to start of payload
 
@@ -2616,9 +2617,7 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
     long len;
 
     long long result = GetUIntLength(m_pReader, pos, len);
-    assert(result == 0);
-    assert((pos + len) <= stop);  // TODO
-    if (result != 0)
+    if (result != 0 || (pos + len) > stop)
       return NULL;
 
     const long long idpos = pos;  // pos of next (potential) cluster
@@ -2631,14 +2630,16 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
 
     // Read Size
     result = GetUIntLength(m_pReader, pos, len);
-    assert(result == 0);  // TODO
-    assert((pos + len) <= stop);  // TODO
+    if (result != 0 || (pos + len) > stop)
+      return NULL;
 
     const long long size = ReadUInt(m_pReader, pos, len);
-    assert(size >= 0);  // TODO
+    if (size < 0)
+      return NULL;
 
     pos += len;  // consume length of size of element
-    assert((pos + size) <= stop);  // TODO
+    if ((pos + size) > stop)
+      return NULL;
 
     // Pos now points to start of payload
 
@@ -2653,7 +2654,8 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
 
       const long status = Cluster::HasBlockEntries(this, off_next_, pos_, len_);
 
-      assert(status >= 0);
+      if (status < 0)
+        return NULL;
 
       if (status > 0) {
         off_next = off_next_;
-- 
2.43.0


From 8ca21c4f9ae1ce9d54a336475cdc9671e4cec562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:13 +0000
Subject: [PATCH 10/36] fix: a failed CuePoint::Load must not leave the cue
 point marked as loaded

The timecode doubles as the 'loaded' flag and was stored before the track
positions were read, so retrying a failed load reported success with no
positions.
---
 mkvparser/mkvparser.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 511cb08..14750c2 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2288,8 +2288,10 @@ bool CuePoint::Load(IMkvReader* pReader) {
   if (m_timecode >= 0)  // already loaded
     return true;
 
-  assert(m_track_positions == NULL);
-  assert(m_track_positions_count == 0);
+  // Discard whatever an earlier, failed attempt left behind.
+  delete[] m_track_positions;
+  m_track_positions = NULL;
+  m_track_positions_count = 0;
 
   long long pos_ = -m_timecode;
   const long long element_start = pos_;
@@ -2319,6 +2321,8 @@ bool CuePoint::Load(IMkvReader* pReader) {
 
   long long pos = pos_;
 
+  long long cue_time = -1;
+
   // First count number of track positions
   unsigned long long track_positions_count = 0;
   while (pos < stop) {
@@ -2342,11 +2346,9 @@ bool CuePoint::Load(IMkvReader* pReader) {
     }
 
     if (id == libwebm::kMkvCueTime) {
-      const long long timecode = UnserializeUInt(pReader, pos, size);
-      if (timecode < 0)
+      cue_time = UnserializeUInt(pReader, pos, size);
+      if (cue_time < 0)
         return false;
-
-      m_timecode = timecode;
     } else if (id == libwebm::kMkvCueTrackPositions) {
       ++track_positions_count;
       if (track_positions_count > UINT_MAX)
@@ -2358,7 +2360,7 @@ bool CuePoint::Load(IMkvReader* pReader) {
 
   m_track_positions_count = static_cast<size_t>(track_positions_count);
 
-  if (m_timecode < 0 || m_track_positions_count <= 0) {
+  if (cue_time < 0 || m_track_positions_count <= 0) {
     return false;
   }
 
@@ -2406,6 +2408,7 @@ bool CuePoint::Load(IMkvReader* pReader) {
 
   assert(size_t(p - m_track_positions) == m_track_positions_count);
 
+  m_timecode = cue_time;
   m_element_start = element_start;
   m_element_size = element_size;
 
-- 
2.43.0


From d5d3bfb9b6a631768d9b0313c95ad95ab569f4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:30 +0000
Subject: [PATCH 11/36] fix: report an underflow while reading a string as an
 error

Callers test for negative results only, so a positive status passed
through made them continue without the string.
---
 mkvparser/mkvparser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 14750c2..b1867c4 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -356,7 +356,7 @@ long UnserializeString(IMkvReader* pReader, long long pos, long long size,
     delete[] str;
     str = NULL;
 
-    return status;
+    return (status < 0) ? status : E_BUFFER_NOT_FULL;
   }
 
   str[required_size - 1] = '\0';
-- 
2.43.0


From ac3af95f2f185ded26295b60495a2b021594ad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:31 +0000
Subject: [PATCH 12/36] fix: ChunkedCopy must report a failed write

---
 mkvmuxer/mkvmuxer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index f9eb9c6..584799e 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -163,7 +163,10 @@ bool ChunkedCopy(mkvparser::IMkvReader* source, mkvmuxer::IMkvWriter* dst,
       delete[] buf;
       return false;
     }
-    dst->Write(buf, static_cast<uint32_t>(read_len));
+    if (dst->Write(buf, static_cast<uint32_t>(read_len))) {
+      delete[] buf;
+      return false;
+    }
     offset += read_len;
     size -= read_len;
   }
-- 
2.43.0


From 7d430cf3dda24cf33276c3a30bfa7ca58148b01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:31 +0000
Subject: [PATCH 13/36] fix: report every failed write and unencodable size
 from the serializers

IMkvWriter::Write signals failure with any non-zero value, and 'return false'
is the success value of an int32 status.
---
 mkvmuxer/mkvmuxerutil.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mkvmuxer/mkvmuxerutil.cc b/mkvmuxer/mkvmuxerutil.cc
index d1e835c..0ea6dab 100644
--- a/mkvmuxer/mkvmuxerutil.cc
+++ b/mkvmuxer/mkvmuxerutil.cc
@@ -335,7 +335,7 @@ int32 SerializeInt(IMkvWriter* writer, int64 value, int32 size) {
 
     const int32 status = writer->Write(&b, 1);
 
-    if (status < 0)
+    if (status != 0)
       return status;
   }
 
@@ -363,7 +363,7 @@ int32 SerializeFloat(IMkvWriter* writer, float f) {
 
     const int32 status = writer->Write(&byte, 1);
 
-    if (status < 0)
+    if (status != 0)
       return status;
   }
 
@@ -405,7 +405,7 @@ int32 WriteUIntSize(IMkvWriter* writer, uint64 value, int32 size) {
     }
 
     if (size > 8)
-      return false;
+      return -1;
 
     value |= bit;
   }
-- 
2.43.0


From 0f5e4ad0d59d4f31ccb85ff072e8a9c03d5c9d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:31 +0000
Subject: [PATCH 14/36] fix: SegmentInfo::Write must check that the date was
 written

---
 mkvmuxer/mkvmuxer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 584799e..b20baab 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2997,8 +2997,10 @@ bool SegmentInfo::Write(IMkvWriter* writer) {
       return false;
   }
 
-  if (date_utc_ != INT64_MIN)
-    WriteEbmlDateElement(writer, libwebm::kMkvDateUTC, date_utc_);
+  if (date_utc_ != INT64_MIN) {
+    if (!WriteEbmlDateElement(writer, libwebm::kMkvDateUTC, date_utc_))
+      return false;
+  }
 
   if (!WriteEbmlElement(writer, libwebm::kMkvMuxingApp, muxing_app_))
     return false;
-- 
2.43.0


From f65ccb97211f744b37ab0b50dd4e35c0668408de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:31 +0000
Subject: [PATCH 15/36] fix: Cluster::QueueOrWriteFrame must not keep freed or
 empty frames queued

A failed write left the deleted frames in the queue (freed again by the
destructor), and a frame whose payload could not be copied was queued.
---
 mkvmuxer/mkvmuxer.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index b20baab..339afb9 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2685,12 +2685,16 @@ bool Cluster::QueueOrWriteFrame(const Frame* const frame) {
   if (!frame_to_store) {
     return false;
   }
-  frame_to_store->CopyFrom(*frame);
+  if (!frame_to_store->CopyFrom(*frame)) {
+    delete frame_to_store;
+    return false;
+  }
   stored_frames_[track_number].push_back(frame_to_store);
 
   // Iterate through all queued frames in the current track except the last one
   // and write it if it is okay to do so (i.e.) no other track has an held back
   // frame with timestamp <= the timestamp of the frame in question.
+  bool wrote_frames = true;
   std::vector<std::list<Frame*>::iterator> frames_to_erase;
   for (std::list<Frame*>::iterator
            current_track_iterator = stored_frames_[track_number].begin(),
@@ -2712,9 +2716,11 @@ bool Cluster::QueueOrWriteFrame(const Frame* const frame) {
     if (okay_to_write) {
       const bool wrote_frame = DoWriteFrame(frame_to_write);
       delete frame_to_write;
-      if (!wrote_frame)
-        return false;
       frames_to_erase.push_back(current_track_iterator);
+      if (!wrote_frame) {
+        wrote_frames = false;
+        break;
+      }
     } else {
       break;
     }
@@ -2724,7 +2730,7 @@ bool Cluster::QueueOrWriteFrame(const Frame* const frame) {
        iterator != frames_to_erase.end(); ++iterator) {
     stored_frames_[track_number].erase(*iterator);
   }
-  return true;
+  return wrote_frames;
 }
 
 bool Cluster::WriteClusterHeader() {
-- 
2.43.0


From 000a2f257d35d390a2e16f965c71432fda5678f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:31 +0000
Subject: [PATCH 16/36] fix: report queued frames that could not be written,
 and drop them once

WriteFramesAll() and WriteFramesLessThan() ignored failed writes;
WriteFramesLessThan() also kept the freed frames in the queue.
---
 mkvmuxer/mkvmuxer.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 339afb9..15e20a1 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -4094,6 +4094,8 @@ int Segment::WriteFramesAll() {
   if (!cluster)
     return -1;
 
+  bool wrote_frames = true;
+
   for (int32_t i = 0; i < frames_size_; ++i) {
     Frame*& frame = frames_[i];
     // TODO(jzern/vigneshv): using Segment::AddGenericFrame here would limit the
@@ -4101,13 +4103,17 @@ int Segment::WriteFramesAll() {
     if (frame->discard_padding() != 0)
       doc_type_version_ = 4;
     if (!cluster->AddFrame(frame)) {
+      wrote_frames = false;
       delete frame;
+      frame = NULL;
       continue;
     }
 
     if (new_cuepoint_ && cues_track_ == frame->track_number()) {
       if (!AddCuePoint(frame->timestamp(), cues_track_)) {
+        wrote_frames = false;
         delete frame;
+        frame = NULL;
         continue;
       }
     }
@@ -4124,7 +4130,7 @@ int Segment::WriteFramesAll() {
   const int result = frames_size_;
   frames_size_ = 0;
 
-  return result;
+  return wrote_frames ? result : -1;
 }
 
 bool Segment::WriteFramesLessThan(uint64_t timestamp) {
@@ -4139,6 +4145,7 @@ bool Segment::WriteFramesLessThan(uint64_t timestamp) {
     if (!cluster)
       return false;
 
+    bool wrote_frames = true;
     int32_t shift_left = 0;
 
     // TODO(fgalligan): Change this to use the durations of frames instead of
@@ -4152,19 +4159,21 @@ bool Segment::WriteFramesLessThan(uint64_t timestamp) {
       const Frame* const frame_prev = frames_[i - 1];
       if (frame_prev->discard_padding() != 0)
         doc_type_version_ = 4;
+      ++shift_left;
       if (!cluster->AddFrame(frame_prev)) {
+        wrote_frames = false;
         delete frame_prev;
         continue;
       }
 
       if (new_cuepoint_ && cues_track_ == frame_prev->track_number()) {
         if (!AddCuePoint(frame_prev->timestamp(), cues_track_)) {
+          wrote_frames = false;
           delete frame_prev;
           continue;
         }
       }
 
-      ++shift_left;
       if (frame_prev->timestamp() > last_timestamp_) {
         last_timestamp_ = frame_prev->timestamp();
         last_track_timestamp_[frame_prev->track_number() - 1] =
@@ -4185,6 +4194,8 @@ bool Segment::WriteFramesLessThan(uint64_t timestamp) {
 
       frames_size_ = new_frames_size;
     }
+
+    return wrote_frames;
   }
 
   return true;
-- 
2.43.0


From a448a6dd8abdccd6263a83f2e41b0bb6368e5a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:01 +0000
Subject: [PATCH 17/36] fix: copying a chromaticity must report a failed
 allocation

---
 common/hdr_util.cc   | 2 +-
 mkvmuxer/mkvmuxer.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/hdr_util.cc b/common/hdr_util.cc
index 7381958..f1320a5 100644
--- a/common/hdr_util.cc
+++ b/common/hdr_util.cc
@@ -20,7 +20,7 @@ bool CopyPrimaryChromaticity(const mkvparser::PrimaryChromaticity& parser_pc,
                              PrimaryChromaticityPtr* muxer_pc) {
   muxer_pc->reset(new (std::nothrow)
                       mkvmuxer::PrimaryChromaticity(parser_pc.x, parser_pc.y));
-  if (!muxer_pc)
+  if (!muxer_pc->get())
     return false;
   return true;
 }
diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 15e20a1..4baf906 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -77,7 +77,7 @@ bool CopyChromaticity(const PrimaryChromaticity* src,
     return false;
 
   dst->reset(new (std::nothrow) PrimaryChromaticity(src->x(), src->y()));
-  if (!dst)
+  if (!dst->get())
     return false;
 
   return true;
-- 
2.43.0


From 4c91c87a3e4b64d759cf699ec5c21a96f6867870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:01 +0000
Subject: [PATCH 18/36] fix: Segment::DoParseNext must report a failed
 allocation as an error

---
 mkvparser/mkvparser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index b1867c4..960274a 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2981,7 +2981,7 @@ long Segment::DoParseNext(const Cluster*& pResult, long long& pos, long& len) {
         m_pCues = new (std::nothrow)
             Cues(this, pos, size, element_start, element_size);
         if (m_pCues == NULL)
-          return false;
+          return -1;
       }
 
       pos += size;  // consume payload
-- 
2.43.0


From 31d75ae687333bdfac32450edbad5a25922f2666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:58 +0000
Subject: [PATCH 19/36] fix: webm_parser must know where colour and projection
 elements belong after a seek

---
 webm_parser/src/ancestory.cc | 47 ++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/webm_parser/src/ancestory.cc b/webm_parser/src/ancestory.cc
index 9860a28..0f51cfc 100644
--- a/webm_parser/src/ancestory.cc
+++ b/webm_parser/src/ancestory.cc
@@ -69,6 +69,13 @@ bool Ancestory::ById(Id id, Ancestory* ancestory) {
   static constexpr Id kTimeSliceAncestory[] = {
       Id::kSegment, Id::kCluster, Id::kBlockGroup, Id::kSlices, Id::kTimeSlice,
   };
+  static constexpr Id kMasteringMetadataAncestory[] = {
+      Id::kSegment, Id::kTracks, Id::kTrackEntry,
+      Id::kVideo,   Id::kColour, Id::kMasteringMetadata,
+  };
+  static constexpr Id kProjectionAncestory[] = {
+      Id::kSegment, Id::kTracks, Id::kTrackEntry, Id::kVideo, Id::kProjection,
+  };
   static constexpr Id kVideoAncestory[] = {
       Id::kSegment,
       Id::kTracks,
@@ -225,9 +232,49 @@ bool Ancestory::ById(Id id, Ancestory* ancestory) {
     case Id::kDisplayUnit:
     case Id::kAspectRatioType:
     case Id::kFrameRate:
+    case Id::kColour:
+    case Id::kProjection:
       *ancestory = Ancestory(kVideoAncestory, 4);
       return true;
 
+    case Id::kMatrixCoefficients:
+    case Id::kBitsPerChannel:
+    case Id::kChromaSubsamplingHorz:
+    case Id::kChromaSubsamplingVert:
+    case Id::kCbSubsamplingHorz:
+    case Id::kCbSubsamplingVert:
+    case Id::kChromaSitingHorz:
+    case Id::kChromaSitingVert:
+    case Id::kRange:
+    case Id::kTransferCharacteristics:
+    case Id::kPrimaries:
+    case Id::kMaxCll:
+    case Id::kMaxFall:
+    case Id::kMasteringMetadata:
+      *ancestory = Ancestory(kMasteringMetadataAncestory, 5);
+      return true;
+
+    case Id::kPrimaryRChromaticityX:
+    case Id::kPrimaryRChromaticityY:
+    case Id::kPrimaryGChromaticityX:
+    case Id::kPrimaryGChromaticityY:
+    case Id::kPrimaryBChromaticityX:
+    case Id::kPrimaryBChromaticityY:
+    case Id::kWhitePointChromaticityX:
+    case Id::kWhitePointChromaticityY:
+    case Id::kLuminanceMax:
+    case Id::kLuminanceMin:
+      *ancestory = Ancestory(kMasteringMetadataAncestory, 6);
+      return true;
+
+    case Id::kProjectionType:
+    case Id::kProjectionPrivate:
+    case Id::kProjectionPoseYaw:
+    case Id::kProjectionPosePitch:
+    case Id::kProjectionPoseRoll:
+      *ancestory = Ancestory(kProjectionAncestory, 5);
+      return true;
+
     case Id::kSamplingFrequency:
     case Id::kOutputSamplingFrequency:
     case Id::kChannels:
-- 
2.43.0


From 68cba80b42b0ca123235df666d7abb2b6e449788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:15 +0000
Subject: [PATCH 20/36] fix: AddGenericFrame must not leak the frame it made
 when adding it fails

---
 mkvmuxer/mkvmuxer.cc | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 4baf906..51e27d2 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3574,18 +3574,16 @@ bool Segment::AddGenericFrame(const Frame* frame) {
 
   // If the Frame is not a SimpleBlock, then set the reference_block_timestamp
   // if it is not set already.
-  bool frame_created = false;
+  std::unique_ptr<Frame> new_frame;
   if (!frame->CanBeSimpleBlock() && !frame->is_key() &&
       !frame->reference_block_timestamp_set()) {
-    Frame* const new_frame = new (std::nothrow) Frame();
+    new_frame.reset(new (std::nothrow) Frame());
     if (!new_frame || !new_frame->CopyFrom(*frame)) {
-      delete new_frame;
       return false;
     }
     new_frame->set_reference_block_timestamp(
         last_track_timestamp_[frame->track_number() - 1]);
-    frame = new_frame;
-    frame_created = true;
+    frame = new_frame.get();
   }
 
   if (!cluster->AddFrame(frame))
@@ -3601,8 +3599,6 @@ bool Segment::AddGenericFrame(const Frame* frame) {
   last_block_duration_ = frame->duration();
   track_frames_written_[frame->track_number() - 1]++;
 
-  if (frame_created)
-    delete frame;
   return true;
 }
 
-- 
2.43.0


From 184526b1e7c33182996c4e563f7f5cb052aa6d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:30 +0000
Subject: [PATCH 21/36] fix: MasteringMetadata::SetChromaticity must release
 the values it replaces

---
 mkvmuxer/mkvmuxer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 51e27d2..3090ab9 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -1080,6 +1080,10 @@ bool MasteringMetadata::SetChromaticity(
       return false;
   }
 
+  delete r_;
+  delete g_;
+  delete b_;
+  delete white_point_;
   r_ = r_ptr.release();
   g_ = g_ptr.release();
   b_ = b_ptr.release();
-- 
2.43.0


From 763eb58c713d1c6393089877dd99b281de279540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:30 +0000
Subject: [PATCH 22/36] fix: ~VideoTrack must release the colour space

---
 mkvmuxer/mkvmuxer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 3090ab9..ab1c297 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -1436,6 +1436,7 @@ VideoTrack::VideoTrack(unsigned int* seed)
       projection_(NULL) {}
 
 VideoTrack::~VideoTrack() {
+  delete[] colour_space_;
   delete colour_;
   delete projection_;
 }
-- 
2.43.0


From 9c3954988af2691c20dbbdb5dcc40f393c76737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:30 +0000
Subject: [PATCH 23/36] fix: Cues::GetCueByIndex rejects a negative index

---
 mkvmuxer/mkvmuxer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index ab1c297..db1f770 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -433,7 +433,7 @@ CuePoint* Cues::GetCueByIndex(int32_t index) const {
   if (cue_entries_ == NULL)
     return NULL;
 
-  if (index >= cue_entries_size_)
+  if (index < 0 || index >= cue_entries_size_)
     return NULL;
 
   return cue_entries_[index];
-- 
2.43.0


From 2a71a268c9401bac305db5dd5ba870249b929b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:47 +0000
Subject: [PATCH 24/36] fix: frames of fixed-size lacing start after the block
 element's header

---
 webm_parser/src/block_parser.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/webm_parser/src/block_parser.cc b/webm_parser/src/block_parser.cc
index b851f51..1df0a07 100644
--- a/webm_parser/src/block_parser.cc
+++ b/webm_parser/src/block_parser.cc
@@ -215,8 +215,9 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
           return Status(Status::kInvalidElementValue);
         }
         lace_sizes_.resize(value_.num_frames, frame_size);
-        frame_metadata_.position =
-            frame_metadata_.parent_element.position + header_bytes_read_;
+        frame_metadata_.position = frame_metadata_.parent_element.position +
+                                   frame_metadata_.parent_element.header_size +
+                                   header_bytes_read_;
         frame_metadata_.size = frame_size;
         state_ = State::kReadingFrames;
         continue;
-- 
2.43.0


From 81530fd10b546f5ff7a65fb3d98385c5dc9563d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:47 +0000
Subject: [PATCH 25/36] fix: FloatParser::Feed must report zero bytes when
 nothing remains

---
 webm_parser/src/float_parser.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/webm_parser/src/float_parser.cc b/webm_parser/src/float_parser.cc
index fc46860..302643f 100644
--- a/webm_parser/src/float_parser.cc
+++ b/webm_parser/src/float_parser.cc
@@ -46,6 +46,8 @@ Status FloatParser::Feed(Callback* callback, Reader* reader,
   assert(reader != nullptr);
   assert(num_bytes_read != nullptr);
 
+  *num_bytes_read = 0;
+
   if (num_bytes_remaining_ == 0) {
     return Status(Status::kOkCompleted);
   }
-- 
2.43.0


From 727dacf994720b29d613f6ba6a9f7765f4034482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:19 +0000
Subject: [PATCH 26/36] fix: RecursiveParser forwards GetCachedMetadata and
 WasSkipped

---
 webm_parser/src/recursive_parser.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/webm_parser/src/recursive_parser.h b/webm_parser/src/recursive_parser.h
index 1646f2f..333decb 100644
--- a/webm_parser/src/recursive_parser.h
+++ b/webm_parser/src/recursive_parser.h
@@ -71,6 +71,18 @@ class RecursiveParser : public ElementParser {
     return impl_->Feed(callback, reader, num_bytes_read);
   }
 
+  bool GetCachedMetadata(ElementMetadata* metadata) override {
+    assert(impl_ != nullptr);
+
+    return impl_->GetCachedMetadata(metadata);
+  }
+
+  bool WasSkipped() const override {
+    assert(impl_ != nullptr);
+
+    return impl_->WasSkipped();
+  }
+
   decltype(std::declval<T>().value()) value() const {
     assert(impl_ != nullptr);
 
-- 
2.43.0


From 25a60d621ff6f119fdfc3174b398bdd2ce7e4212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:19 +0000
Subject: [PATCH 27/36] fix: SegmentParser::Init resets its action

---
 webm_parser/src/segment_parser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/webm_parser/src/segment_parser.cc b/webm_parser/src/segment_parser.cc
index 9b2e7d5..aeabaf0 100644
--- a/webm_parser/src/segment_parser.cc
+++ b/webm_parser/src/segment_parser.cc
@@ -34,6 +34,7 @@ Status SegmentParser::Init(const ElementMetadata& metadata,
 
   begin_done_ = false;
   parse_completed_ = false;
+  action_ = Action::kRead;
   return MasterParser::Init(metadata, max_size);
 }
 
-- 
2.43.0


From 6d49da58aabc07a5cdd0eb3fc99e10bbf819de99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:02 +0000
Subject: [PATCH 28/36] fix: VpxPesParser must not read past the end of
 truncated or malformed input

---
 m2ts/vpxpes_parser.cc | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index 4f6fe5c..ad0a503 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -60,7 +60,7 @@ bool VpxPesParser::Open(const std::string& pes_file) {
 }
 
 bool VpxPesParser::VerifyPacketStartCode() const {
-  if (read_pos_ + 2 > pes_file_data_.size())
+  if (read_pos_ + 2 >= pes_file_data_.size())
     return false;
 
   // PES packets all start with the byte sequence 0x0 0x0 0x1.
@@ -122,7 +122,7 @@ bool VpxPesParser::ParsePesHeader(PesHeader* header) {
 // TODO(tomfinegan): Make these masks constants.
 bool VpxPesParser::ParsePesOptionalHeader(PesOptionalHeader* header) {
   if (!header || parse_state_ != kParsePesOptionalHeader ||
-      read_pos_ >= pes_file_size_) {
+      read_pos_ >= pes_file_data_.size()) {
     return false;
   }
 
@@ -197,8 +197,10 @@ bool VpxPesParser::ParsePesOptionalHeader(PesOptionalHeader* header) {
 
 // Parses and validates a BCMV header.
 bool VpxPesParser::ParseBcmvHeader(BcmvHeader* header) {
-  if (!header || parse_state_ != kParseBcmvHeader)
+  if (!header || parse_state_ != kParseBcmvHeader ||
+      read_pos_ >= pes_file_data_.size()) {
     return false;
+  }
 
   PacketData bcmv_buffer;
   std::size_t consumed = 0;
@@ -235,10 +237,10 @@ bool VpxPesParser::ParseBcmvHeader(BcmvHeader* header) {
 
 bool VpxPesParser::FindStartCode(std::size_t origin,
                                  std::size_t* offset) const {
-  if (read_pos_ + 2 >= pes_file_size_)
+  if (origin >= pes_file_data_.size())
     return false;
 
-  const std::size_t length = pes_file_size_ - origin;
+  const std::size_t length = pes_file_data_.size() - origin;
   if (length < 3)
     return false;
 
@@ -261,8 +263,14 @@ bool VpxPesParser::IsPayloadFragmented(const PesHeader& header) const {
 
 bool VpxPesParser::AccumulateFragmentedPayload(std::size_t pes_packet_length,
                                                std::size_t payload_length) {
+  if (pes_packet_length < kPesOptionalHeaderSize + kBcmvHeaderSize)
+    return false;
   const std::size_t first_fragment_length =
       pes_packet_length - kPesOptionalHeaderSize - kBcmvHeaderSize;
+  if (read_pos_ > pes_file_data_.size() ||
+      first_fragment_length > pes_file_data_.size() - read_pos_) {
+    return false;
+  }
   for (std::size_t i = 0; i < first_fragment_length; ++i) {
     payload_.push_back(pes_file_data_[read_pos_ + i]);
   }
@@ -285,6 +293,10 @@ bool VpxPesParser::AccumulateFragmentedPayload(std::size_t pes_packet_length,
       return false;
     }
 
+    if (header.packet_length < kPesOptionalHeaderSize ||
+        read_pos_ >= pes_file_data_.size()) {
+      return false;
+    }
     const std::size_t fragment_length =
         header.packet_length - kPesOptionalHeaderSize;
     std::size_t consumed = 0;
@@ -310,7 +322,7 @@ bool VpxPesParser::RemoveStartCodeEmulationPreventionBytes(
       &pes_file_data_[0] + pes_file_data_.size();
   std::size_t i;
   for (i = 0; bytes_copied < bytes_required; ++i) {
-    if (raw_data + i > end_of_input)
+    if (raw_data + i >= end_of_input)
       return false;
 
     bool skip = false;
@@ -361,12 +373,16 @@ bool VpxPesParser::ParseNextPacket(PesHeader* header, VideoFrame* frame) {
     return false;
   }
 
+  if (header->bcmv_header.length <= BcmvHeader::size())
+    return false;
+
   // BCMV header length includes the length of the BCMVHeader itself. Adjust:
   const std::size_t payload_length =
       header->bcmv_header.length - BcmvHeader::size();
 
   // Make sure there's enough input data to read the entire frame.
-  if (read_pos_ + payload_length > pes_file_data_.size()) {
+  if (read_pos_ > pes_file_data_.size() ||
+      payload_length > pes_file_data_.size() - read_pos_) {
     // Need more data.
     printf("VpxPesParser: Not enough data. Required: %u Available: %u\n",
            static_cast<unsigned int>(payload_length),
-- 
2.43.0


From 59a26b7f536fa43e0aa81a094f6a45dc91fc2431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:02 +0000
Subject: [PATCH 29/36] fix: VpxPesParser::Open must report a file it cannot
 open

---
 m2ts/vpxpes_parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index ad0a503..0ca2262 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -44,6 +44,9 @@ bool VpxPesParser::Open(const std::string& pes_file) {
   pes_file_data_.reserve(static_cast<size_t>(pes_file_size_));
   libwebm::FilePtr file = libwebm::FilePtr(std::fopen(pes_file.c_str(), "rb"),
                                            libwebm::FILEDeleter());
+  if (file == nullptr)
+    return false;
+
   int byte;
   while ((byte = fgetc(file.get())) != EOF) {
     pes_file_data_.push_back(static_cast<std::uint8_t>(byte));
-- 
2.43.0


From 5ff3c27a0ccaf3d1dd49cbccf880fa87bc6a43dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:02 +0000
Subject: [PATCH 30/36] fix: VpxPes2Ts must size the buffer it writes packets
 into

---
 m2ts/vpxpes2ts.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/vpxpes2ts.cc b/m2ts/vpxpes2ts.cc
index 21d4038..e428bbd 100644
--- a/m2ts/vpxpes2ts.cc
+++ b/m2ts/vpxpes2ts.cc
@@ -150,7 +150,7 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
   std::uint8_t continuity_counter = 0;
   std::size_t read_pos = 0;
 
-  ts_buffer_.reserve(kTsPacketSize);
+  ts_buffer_.resize(kTsPacketSize);
 
   while (bytes_to_packetize > 0) {
     if (continuity_counter > 0xf)
-- 
2.43.0


From 5c694c4533ffc17a513fb8c359a400e0fbcd8593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:24 +0000
Subject: [PATCH 31/36] fix: track numbers above 126 must not index the
 per-track arrays

Tracks::AddTrack could assign a number past the supported range and
Segment::AddGenericFrame indexed its per-track arrays with any number a
track carries.
---
 mkvmuxer/mkvmuxer.cc | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index db1f770..5b614c2 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -1776,17 +1776,10 @@ bool Tracks::AddTrack(Track* track, int32_t number) {
     }
   }
 
-  const uint32_t count = track_entries_size_ + 1;
-
-  Track** const track_entries = new (std::nothrow) Track*[count];  // NOLINT
-  if (!track_entries)
+  if (track_entries_size_ >= kMaxTrackNumber)
     return false;
 
-  for (uint32_t i = 0; i < track_entries_size_; ++i) {
-    track_entries[i] = track_entries_[i];
-  }
-
-  delete[] track_entries_;
+  const uint32_t count = track_entries_size_ + 1;
 
   // Find the lowest availible track number > 0.
   if (track_num == 0) {
@@ -1797,14 +1790,28 @@ bool Tracks::AddTrack(Track* track, int32_t number) {
     do {
       exit = true;
       for (uint32_t i = 0; i < track_entries_size_; ++i) {
-        if (track_entries[i]->number() == track_num) {
+        if (track_entries_[i]->number() == track_num) {
           track_num++;
           exit = false;
           break;
         }
       }
     } while (!exit);
+
+    if (track_num > kMaxTrackNumber)
+      return false;
   }
+
+  Track** const track_entries = new (std::nothrow) Track*[count];  // NOLINT
+  if (!track_entries)
+    return false;
+
+  for (uint32_t i = 0; i < track_entries_size_; ++i) {
+    track_entries[i] = track_entries_[i];
+  }
+
+  delete[] track_entries_;
+
   track->set_number(track_num);
 
   track_entries_ = track_entries;
@@ -3528,6 +3535,9 @@ bool Segment::AddGenericFrame(const Frame* frame) {
     return false;
 
   // Check if the track number is valid.
+  if (frame->track_number() < 1 || frame->track_number() > kMaxTrackNumber)
+    return false;
+
   if (!tracks_.GetTrackByNumber(frame->track_number()))
     return false;
 
-- 
2.43.0


From 20a567bc79d09bdbc15f1b21d465f4cf57db718d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:14 +0000
Subject: [PATCH 32/36] fix: a failed allocation must not leave a length
 without its data

---
 mkvmuxer/mkvmuxer.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 5b614c2..a46bfe4 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -547,14 +547,14 @@ bool ContentEncoding::SetEncryptionID(const uint8_t* id, uint64_t length) {
   if (!id || length < 1)
     return false;
 
-  delete[] enc_key_id_;
-
-  enc_key_id_ =
+  uint8_t* const data =
       new (std::nothrow) uint8_t[static_cast<size_t>(length)];  // NOLINT
-  if (!enc_key_id_)
+  if (!data)
     return false;
 
-  memcpy(enc_key_id_, id, static_cast<size_t>(length));
+  memcpy(data, id, static_cast<size_t>(length));
+  delete[] enc_key_id_;
+  enc_key_id_ = data;
   enc_key_id_length_ = length;
 
   return true;
@@ -908,14 +908,14 @@ bool Track::SetCodecPrivate(const uint8_t* codec_private, uint64_t length) {
   if (!codec_private || length < 1)
     return false;
 
-  delete[] codec_private_;
-
-  codec_private_ =
+  uint8_t* const data =
       new (std::nothrow) uint8_t[static_cast<size_t>(length)];  // NOLINT
-  if (!codec_private_)
+  if (!data)
     return false;
 
-  memcpy(codec_private_, codec_private, static_cast<size_t>(length));
+  memcpy(data, codec_private, static_cast<size_t>(length));
+  delete[] codec_private_;
+  codec_private_ = data;
   codec_private_length_ = length;
 
   return true;
-- 
2.43.0


From 6e423c0d25b734794ffa853b407942bf37a2fdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:47 +0000
Subject: [PATCH 33/36] fix: refuse a duration of exactly 2^63 nanoseconds

(double)LLONG_MAX is 2^63, which does not fit into a long long: a product
of Duration and TimecodeScale equal to it was accepted, and GetDuration()
then converted it to long long, which is undefined.
---
 mkvparser/mkvparser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 960274a..dfe0258 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -4073,7 +4073,7 @@ long SegmentInfo::Parse() {
   }
 
   const double rollover_check = m_duration * m_timecodeScale;
-  if (rollover_check > static_cast<double>(LLONG_MAX))
+  if (rollover_check >= static_cast<double>(LLONG_MAX))
     return E_FILE_FORMAT_INVALID;
 
   if (pos != stop)
-- 
2.43.0


From e01953c8f9c93fea2b33d645520d9d8c8af07412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:29 +0000
Subject: [PATCH 34/36] fix: refuse a frame or additional data without a buffer

---
 mkvmuxer/mkvmuxer.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index a46bfe4..f8ecff1 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -227,6 +227,9 @@ bool Frame::CopyFrom(const Frame& frame) {
 }
 
 bool Frame::Init(const uint8_t* frame, uint64_t length) {
+  if (!frame)
+    return false;
+
   uint8_t* const data =
       new (std::nothrow) uint8_t[static_cast<size_t>(length)];  // NOLINT
   if (!data)
@@ -242,6 +245,9 @@ bool Frame::Init(const uint8_t* frame, uint64_t length) {
 
 bool Frame::AddAdditionalData(const uint8_t* additional, uint64_t length,
                               uint64_t add_id) {
+  if (!additional)
+    return false;
+
   uint8_t* const data =
       new (std::nothrow) uint8_t[static_cast<size_t>(length)];  // NOLINT
   if (!data)
-- 
2.43.0


From 051470e6ae8de30889e7ab1bf1d3915b5961120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:12 +0000
Subject: [PATCH 35/36] fix: answer questions about the type of unknown tracks

---
 mkvmuxer/mkvmuxer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index f8ecff1..1b14ca2 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -1849,7 +1849,7 @@ Track* Tracks::GetTrackByNumber(uint64_t track_number) const {
 bool Tracks::TrackIsAudio(uint64_t track_number) const {
   const Track* const track = GetTrackByNumber(track_number);
 
-  if (track->type() == kAudio)
+  if (track && track->type() == kAudio)
     return true;
 
   return false;
@@ -1858,7 +1858,7 @@ bool Tracks::TrackIsAudio(uint64_t track_number) const {
 bool Tracks::TrackIsVideo(uint64_t track_number) const {
   const Track* const track = GetTrackByNumber(track_number);
 
-  if (track->type() == kVideo)
+  if (track && track->type() == kVideo)
     return true;
 
   return false;
-- 
2.43.0


From a6db0f472afb51ab0c660fb8544ce6c45d4bd041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:19 +0000
Subject: [PATCH 36/36] fix: ignore a time scale of zero

---
 mkvmuxer/mkvmuxer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.h b/mkvmuxer/mkvmuxer.h
index 2c4bb9e..f7acf2b 100644
--- a/mkvmuxer/mkvmuxer.h
+++ b/mkvmuxer/mkvmuxer.h
@@ -1464,7 +1464,11 @@ class SegmentInfo {
   double duration() const { return duration_; }
   void set_muxing_app(const char* app);
   const char* muxing_app() const { return muxing_app_; }
-  void set_timecode_scale(uint64_t scale) { timecode_scale_ = scale; }
+  // A scale of 0 is ignored: times are divided by it.
+  void set_timecode_scale(uint64_t scale) {
+    if (scale > 0)
+      timecode_scale_ = scale;
+  }
   uint64_t timecode_scale() const { return timecode_scale_; }
   void set_writing_app(const char* app);
   const char* writing_app() const { return writing_app_; }
-- 
2.43.0

