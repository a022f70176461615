From 98ea7e4b560d8c2db6a1cc2b46541a16b0d04011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 01/61] fix: FullBox::removeFlag() set flags that were not set

---
 src/box.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/box.cpp b/src/box.cpp
index 87bfa9b..00068ed 100644
--- a/src/box.cpp
+++ b/src/box.cpp
@@ -148,7 +148,7 @@ void FullBox::addFlag(std::uint32_t flag) {
 }
 
 void FullBox::removeFlag(std::uint32_t flag) {
-  setFlags(getFlags() ^ flag);
+  setFlags(getFlags() & ~flag);
 }
 
 std::uint64_t FullBox::writeVersionAndFlag(bitio::Writer* writer) const {
-- 
2.43.0


From 5278e3c37c08a4531f51e817f6e12af2efcadd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 02/61] fix: format_epoch_19040101() crashed on or misprinted
 values from 2^63

---
 src/time/time.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/time.cpp b/src/time/time.cpp
index ce8670a..28efd51 100644
--- a/src/time/time.cpp
+++ b/src/time/time.cpp
@@ -10,11 +10,11 @@
 namespace shiguredo::mp4::time {
 
 std::string format_epoch_19040101(const std::uint64_t t) {
-  std::time_t from1970 = static_cast<std::time_t>(t - SECONDS_19040101_to_19700101);
-  if (from1970 > std::numeric_limits<std::uint32_t>::max()) {
+  if (t > SECONDS_19040101_to_19700101 + std::numeric_limits<std::uint32_t>::max()) {
     // cannot handle big values.
     return "0000-00-00T00:00:00Z";
   }
+  std::time_t from1970 = static_cast<std::time_t>(t) - static_cast<std::time_t>(SECONDS_19040101_to_19700101);
   std::tm tm;
 
   return fmt::format("{:%FT%TZ}", *gmtime_r(&from1970, &tm));
-- 
2.43.0


From 940d3d1b4999389c7d0b8a1f04cab54c480d0f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 03/61] fix: failed writes of media data and box headers went
 unnoticed

std::ostreambuf_iterator does not set the state of the stream, so the
checks that followed never saw a failure.
---
 src/box_header.cpp              | 5 ++++-
 src/writer/faststart_writer.cpp | 2 +-
 src/writer/simple_writer.cpp    | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/box_header.cpp b/src/box_header.cpp
index 5cc2e9e..f3932fc 100644
--- a/src/box_header.cpp
+++ b/src/box_header.cpp
@@ -105,7 +105,10 @@ std::uint64_t BoxHeader::write(std::ostream& os) {
   data[6] = type_data[2];
   data[7] = type_data[3];
 
-  std::copy(std::begin(data), std::end(data), std::ostreambuf_iterator<char>(os));
+  os.write(reinterpret_cast<const char*>(data.data()), static_cast<std::streamsize>(std::size(data)));
+  if (!os.good()) {
+    throw std::runtime_error(fmt::format("BoxHeader::write() ostream::write() failed: rdstate={}", os.rdstate()));
+  }
   m_size += std::size(data) - m_header_size;
   m_header_size = std::size(data);
   return m_size;
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index c109a70..cd2b63f 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -150,7 +150,7 @@ void FaststartWriter::copyMdatData() {
   char buffer[COPY_MDAT_DATA_BUFFER_SIZE];
   while (!std::feof(m_mdat_fd)) {
     std::size_t size = std::fread(buffer, 1, COPY_MDAT_DATA_BUFFER_SIZE, m_mdat_fd);
-    std::copy_n(buffer, size, std::ostreambuf_iterator<char>(m_os));
+    m_os.write(buffer, static_cast<std::streamsize>(size));
     if (!m_os.good()) {
       throw std::runtime_error(
           fmt::format("FaststartWriter::copyMdatData(): copying mdat data failed: rdstate={}", m_os.rdstate()));
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index e15648d..27b7efb 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -92,7 +92,7 @@ void SimpleWriter::writeFreeBoxAndMdatHeader() {
 }
 
 void SimpleWriter::addMdatData(const std::uint8_t* data, const std::size_t data_size) {
-  std::copy_n(data, data_size, std::ostreambuf_iterator<char>(m_os));
+  m_os.write(reinterpret_cast<const char*>(data), static_cast<std::streamsize>(data_size));
   if (!m_os.good()) {
     throw std::runtime_error(
         fmt::format("SimpleWriter::addMdatData(): ostream::write() failed: rdstate={}", m_os.rdstate()));
-- 
2.43.0


From e4ddd3dc481baa2a3697efa506d7bc4dc9008842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 04/61] fix: FaststartWriter::copyMdatData() looped forever
 when reading the intermediate file failed

---
 src/writer/faststart_writer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index cd2b63f..76eaa76 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -150,6 +150,10 @@ void FaststartWriter::copyMdatData() {
   char buffer[COPY_MDAT_DATA_BUFFER_SIZE];
   while (!std::feof(m_mdat_fd)) {
     std::size_t size = std::fread(buffer, 1, COPY_MDAT_DATA_BUFFER_SIZE, m_mdat_fd);
+    if (std::ferror(m_mdat_fd)) {
+      throw std::runtime_error(fmt::format("FaststartWriter::copyMdatData(): cannot read the intermediate file: {}",
+                                           m_mdat_path.string()));
+    }
     m_os.write(buffer, static_cast<std::streamsize>(size));
     if (!m_os.good()) {
       throw std::runtime_error(
-- 
2.43.0


From 23440f1d7183cca95b1af6d516762c3f6c83143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 05/61] fix: durations lost precision above 2^24 ticks

They were computed in single precision, which also made the duration of
the last sample wrap around when the declared duration was rounded down
below its timestamp.
---
 include/shiguredo/mp4/time/time.hpp | 2 ++
 src/time/time.cpp                   | 5 +++++
 src/track/track.cpp                 | 5 +++--
 src/writer/faststart_writer.cpp     | 2 +-
 src/writer/simple_writer.cpp        | 2 +-
 5 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/shiguredo/mp4/time/time.hpp b/include/shiguredo/mp4/time/time.hpp
index 4d27a70..2f76919 100644
--- a/include/shiguredo/mp4/time/time.hpp
+++ b/include/shiguredo/mp4/time/time.hpp
@@ -10,4 +10,6 @@ const std::uint64_t SECONDS_19040101_to_19700101 = 2082844800;  // 24107 * 86400
 std::string format_epoch_19040101(const std::uint64_t t);
 std::uint64_t convert_to_epoch_19040101(const std::uint64_t t);
 
+std::uint64_t convert_to_timescale(const float seconds, const std::uint32_t timescale);
+
 }  // namespace shiguredo::mp4::time
diff --git a/src/time/time.cpp b/src/time/time.cpp
index 28efd51..e340062 100644
--- a/src/time/time.cpp
+++ b/src/time/time.cpp
@@ -4,6 +4,7 @@
 #include <fmt/chrono.h>
 #include <fmt/core.h>
 
+#include <cmath>
 #include <ctime>
 #include <limits>
 
@@ -24,4 +25,8 @@ std::uint64_t convert_to_epoch_19040101(const std::uint64_t t) {
   return t + SECONDS_19040101_to_19700101;
 }
 
+std::uint64_t convert_to_timescale(const float seconds, const std::uint32_t timescale) {
+  return static_cast<std::uint64_t>(std::llround(static_cast<double>(seconds) * static_cast<double>(timescale)));
+}
+
 }  // namespace shiguredo::mp4::time
diff --git a/src/track/track.cpp b/src/track/track.cpp
index 9348463..2e64f75 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -9,6 +9,7 @@
 
 #include "shiguredo/mp4/box/boxes.hpp"
 #include "shiguredo/mp4/box_info.hpp"
+#include "shiguredo/mp4/time/time.hpp"
 #include "shiguredo/mp4/writer/writer.hpp"
 
 namespace shiguredo::mp4::track {
@@ -156,11 +157,11 @@ void Track::setMediaTime(const std::int64_t media_time) {
 }
 
 std::uint64_t Track::getDurationInTimescale() const {
-  return static_cast<std::uint64_t>(static_cast<float>(m_timescale) * m_duration);
+  return time::convert_to_timescale(m_duration, m_timescale);
 }
 
 std::uint64_t Track::getDurationInMvhdTimescale() const {
-  return static_cast<std::uint64_t>(static_cast<float>(m_mvhd_timescale) * m_duration);
+  return time::convert_to_timescale(m_duration, m_mvhd_timescale);
 }
 
 BoxInfo* Track::makeTrakBoxInfo(BoxInfo* moov) {
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index 76eaa76..9eaa75b 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -53,7 +53,7 @@ void FaststartWriter::recreateMoovBoxInfo() {
   }
 
   m_moov_box_info = new BoxInfo({.box = new box::Moov()});
-  const std::uint64_t mvhd_duration = static_cast<std::uint64_t>(static_cast<float>(m_mvhd_timescale) * m_duration);
+  const std::uint64_t mvhd_duration = time::convert_to_timescale(m_duration, m_mvhd_timescale);
   m_mvhd_box = new box::Mvhd({.creation_time = m_time_from_epoch,
                               .modification_time = m_time_from_epoch,
                               .timescale = m_mvhd_timescale,
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index 27b7efb..0a5b905 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -28,7 +28,7 @@ SimpleWriter::SimpleWriter(std::ostream& t_os, const SimpleWriterParameters& par
   m_time_from_epoch = time::convert_to_epoch_19040101(
       static_cast<std::uint64_t>(duration_cast<std::chrono::seconds>(p.time_since_epoch()).count()));
 
-  const std::uint64_t mvhd_duration = static_cast<std::uint64_t>(static_cast<float>(m_mvhd_timescale) * m_duration);
+  const std::uint64_t mvhd_duration = time::convert_to_timescale(m_duration, m_mvhd_timescale);
 
   m_moov_box_info = new BoxInfo({.box = new box::Moov()});
   m_mvhd_box = new box::Mvhd({.creation_time = m_time_from_epoch,
-- 
2.43.0


From 4b32de2380e3124d8a00f90f121e067bfb18d3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 06/61] fix: times, durations and media times above 32 bits
 were truncated

mvhd, tkhd, mdhd and elst were always written in version 0.
---
 include/shiguredo/mp4/time/time.hpp |  4 ++++
 src/time/time.cpp                   |  9 +++++++++
 src/track/soun.cpp                  |  5 ++++-
 src/track/track.cpp                 | 10 ++++++++--
 src/track/vide.cpp                  |  2 ++
 src/writer/faststart_writer.cpp     |  3 ++-
 src/writer/simple_writer.cpp        |  3 ++-
 7 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/include/shiguredo/mp4/time/time.hpp b/include/shiguredo/mp4/time/time.hpp
index 2f76919..fd062d4 100644
--- a/include/shiguredo/mp4/time/time.hpp
+++ b/include/shiguredo/mp4/time/time.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cstdint>
+#include <initializer_list>
 #include <string>
 
 namespace shiguredo::mp4::time {
@@ -12,4 +13,7 @@ std::uint64_t convert_to_epoch_19040101(const std::uint64_t t);
 
 std::uint64_t convert_to_timescale(const float seconds, const std::uint32_t timescale);
 
+// version of a box that holds these times and durations: 0 (32 bit fields) or 1 (64 bit fields)
+std::uint8_t get_version_for_times(const std::initializer_list<std::uint64_t>);
+
 }  // namespace shiguredo::mp4::time
diff --git a/src/time/time.cpp b/src/time/time.cpp
index e340062..ca1a2a2 100644
--- a/src/time/time.cpp
+++ b/src/time/time.cpp
@@ -29,4 +29,13 @@ std::uint64_t convert_to_timescale(const float seconds, const std::uint32_t time
   return static_cast<std::uint64_t>(std::llround(static_cast<double>(seconds) * static_cast<double>(timescale)));
 }
 
+std::uint8_t get_version_for_times(const std::initializer_list<std::uint64_t> times) {
+  for (const auto t : times) {
+    if (t > std::numeric_limits<std::uint32_t>::max()) {
+      return 1;
+    }
+  }
+  return 0;
+}
+
 }  // namespace shiguredo::mp4::time
diff --git a/src/track/soun.cpp b/src/track/soun.cpp
index a7b21c6..edd54a7 100644
--- a/src/track/soun.cpp
+++ b/src/track/soun.cpp
@@ -2,6 +2,7 @@
 
 #include "shiguredo/mp4/box/boxes.hpp"
 #include "shiguredo/mp4/box_info.hpp"
+#include "shiguredo/mp4/time/time.hpp"
 
 namespace shiguredo::mp4::track {
 
@@ -10,8 +11,10 @@ SounTrack::SounTrack() {
 }
 
 void SounTrack::makeTkhdBoxInfo(BoxInfo* trak) {
+  const auto version = time::get_version_for_times({m_time_from_epoch, getDurationInMvhdTimescale()});
   new BoxInfo({.parent = trak,
-               .box = new box::Tkhd({.flags = 0x000003,
+               .box = new box::Tkhd({.version = version,
+                                     .flags = 0x000003,
                                      .creation_time = m_time_from_epoch,
                                      .modification_time = m_time_from_epoch,
                                      .track_id = m_track_id,
diff --git a/src/track/track.cpp b/src/track/track.cpp
index 2e64f75..f3135b8 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -173,8 +173,12 @@ BoxInfo* Track::makeEdtsBoxInfo(BoxInfo* trak) {
 }
 
 void Track::makeElstBoxInfo(BoxInfo* edts) {
+  const bool fits_int32 = m_media_time >= std::numeric_limits<std::int32_t>::min() &&
+                          m_media_time <= std::numeric_limits<std::int32_t>::max();
+  const std::uint8_t version = fits_int32 ? time::get_version_for_times({getDurationInMvhdTimescale()}) : 1;
   new BoxInfo({.parent = edts,
-               .box = new box::Elst({.entries = {box::ElstEntry({.track_duration = getDurationInMvhdTimescale(),
+               .box = new box::Elst({.version = version,
+                                     .entries = {box::ElstEntry({.track_duration = getDurationInMvhdTimescale(),
                                                                  .media_time = m_media_time})}})});
 }
 
@@ -183,8 +187,10 @@ BoxInfo* Track::makeMdiaBoxInfo(BoxInfo* trak) {
 }
 
 void Track::makeMdhdBoxInfo(BoxInfo* mdia) {
+  const auto version = time::get_version_for_times({m_time_from_epoch, getDurationInTimescale()});
   new BoxInfo({.parent = mdia,
-               .box = new box::Mdhd({.creation_time = m_time_from_epoch,
+               .box = new box::Mdhd({.version = version,
+                                     .creation_time = m_time_from_epoch,
                                      .modification_time = m_time_from_epoch,
                                      .timescale = m_timescale,
                                      .duration = getDurationInTimescale()})});
diff --git a/src/track/vide.cpp b/src/track/vide.cpp
index 4f46495..b6264f4 100644
--- a/src/track/vide.cpp
+++ b/src/track/vide.cpp
@@ -2,6 +2,7 @@
 
 #include "shiguredo/mp4/box/boxes.hpp"
 #include "shiguredo/mp4/box_info.hpp"
+#include "shiguredo/mp4/time/time.hpp"
 
 namespace shiguredo::mp4::track {
 
@@ -12,6 +13,7 @@ VideTrack::VideTrack() {
 void VideTrack::makeTkhdBoxInfo(BoxInfo* trak) {
   new BoxInfo({.parent = trak,
                .box = new box::Tkhd({
+                   .version = time::get_version_for_times({m_time_from_epoch, getDurationInMvhdTimescale()}),
                    .flags = 0x000003,
                    .creation_time = m_time_from_epoch,
                    .modification_time = m_time_from_epoch,
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index 9eaa75b..df941c5 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -54,7 +54,8 @@ void FaststartWriter::recreateMoovBoxInfo() {
 
   m_moov_box_info = new BoxInfo({.box = new box::Moov()});
   const std::uint64_t mvhd_duration = time::convert_to_timescale(m_duration, m_mvhd_timescale);
-  m_mvhd_box = new box::Mvhd({.creation_time = m_time_from_epoch,
+  m_mvhd_box = new box::Mvhd({.version = time::get_version_for_times({m_time_from_epoch, mvhd_duration}),
+                              .creation_time = m_time_from_epoch,
                               .modification_time = m_time_from_epoch,
                               .timescale = m_mvhd_timescale,
                               .duration = mvhd_duration,
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index 0a5b905..070ae52 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -31,7 +31,8 @@ SimpleWriter::SimpleWriter(std::ostream& t_os, const SimpleWriterParameters& par
   const std::uint64_t mvhd_duration = time::convert_to_timescale(m_duration, m_mvhd_timescale);
 
   m_moov_box_info = new BoxInfo({.box = new box::Moov()});
-  m_mvhd_box = new box::Mvhd({.creation_time = m_time_from_epoch,
+  m_mvhd_box = new box::Mvhd({.version = time::get_version_for_times({m_time_from_epoch, mvhd_duration}),
+                              .creation_time = m_time_from_epoch,
                               .modification_time = m_time_from_epoch,
                               .timescale = m_mvhd_timescale,
                               .duration = mvhd_duration,
-- 
2.43.0


From a5141623cc71559eff9562e33f09eb810bbd4596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 07/61] fix: AAC and MP3 sample entries announced a wrong
 sample rate from 65536 Hz

The rate overflowed its 16.16 field; it is 0 now when it does not fit.
---
 src/track/aac.cpp | 3 ++-
 src/track/mp3.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/track/aac.cpp b/src/track/aac.cpp
index e85f5f7..fff0e93 100644
--- a/src/track/aac.cpp
+++ b/src/track/aac.cpp
@@ -34,7 +34,8 @@ void AACTrack::makeStsdBoxInfo(BoxInfo* stbl) {
                                .entry_version = 0,
                                .channel_count = 2,
                                .sample_size = 16,
-                               .sample_rate = m_timescale << 16,
+                               // 16.16 固定小数点数で表現できない場合は 0
+                               .sample_rate = m_timescale <= 0xffff ? m_timescale << 16 : 0,
                            })});
   std::shared_ptr<box::DecoderConfigDescriptor> dcd(
       new box::DecoderConfigDescriptor({.object_type_indication = 0x40,  // Audio ISO/IEC 14496-3 (MPEG-4 Audio)
diff --git a/src/track/mp3.cpp b/src/track/mp3.cpp
index aab4bc1..1bf7a49 100644
--- a/src/track/mp3.cpp
+++ b/src/track/mp3.cpp
@@ -32,7 +32,8 @@ void MP3Track::makeStsdBoxInfo(BoxInfo* stbl) {
                                .entry_version = 0,
                                .channel_count = 2,
                                .sample_size = 16,
-                               .sample_rate = m_timescale << 16,
+                               // 16.16 固定小数点数で表現できない場合は 0
+                               .sample_rate = m_timescale <= 0xffff ? m_timescale << 16 : 0,
                            })});
   std::shared_ptr<box::DecoderConfigDescriptor> dcd(
       new box::DecoderConfigDescriptor({.object_type_indication = 0x6b,  // Audio ISO/IEC 11172-3 (MPEG-1 Audio)
-- 
2.43.0


From 7eebb62995846e62b5e1ae4fb4890588a7735c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 08/61] fix: AAC decoder configuration announced 48 kHz
 whatever the sample rate

---
 src/track/aac.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/track/aac.cpp b/src/track/aac.cpp
index fff0e93..7a69ed8 100644
--- a/src/track/aac.cpp
+++ b/src/track/aac.cpp
@@ -1,5 +1,8 @@
 #include "shiguredo/mp4/track/aac.hpp"
 
+#include <algorithm>
+#include <array>
+#include <cstdint>
 #include <iterator>
 #include <memory>
 #include <stdexcept>
@@ -25,6 +28,17 @@ AACTrack::AACTrack(const AACTrackParameters& params)
   m_writer = params.writer;
 }
 
+// ISO/IEC 14496-3 samplingFrequencyIndex. タイムスケールが一覧にない場合は 48 kHz とする
+static std::uint8_t get_sampling_frequency_index(const std::uint32_t timescale) {
+  constexpr std::array<std::uint32_t, 13> frequencies = {96000, 88200, 64000, 48000, 44100, 32000, 24000,
+                                                         22050, 16000, 12000, 11025, 8000,  7350};
+  const auto it = std::find(std::begin(frequencies), std::end(frequencies), timescale);
+  if (it == std::end(frequencies)) {
+    return 3;
+  }
+  return static_cast<std::uint8_t>(std::distance(std::begin(frequencies), it));
+}
+
 void AACTrack::makeStsdBoxInfo(BoxInfo* stbl) {
   auto stsd = new BoxInfo({.parent = stbl, .box = new box::Stsd({.entry_count = 1})});
   auto mp4a = new BoxInfo({.parent = stsd,
@@ -46,8 +60,11 @@ void AACTrack::makeStsdBoxInfo(BoxInfo* stbl) {
 
   // AAC Sequence header
   // https://titanwolf.org/Network/Articles/Article?AID=973232a4-5330-4b50-bfa8-8bde11c31399
+  const auto frequency_index = get_sampling_frequency_index(m_timescale);
   std::shared_ptr<box::DecSpecificInfo> dsi(
-      new box::DecSpecificInfo({.data = {0x11, 0x90}}));  // AACLC, @48khz, channel cfg 2
+      new box::DecSpecificInfo({.data = {static_cast<std::uint8_t>((2 << 3) | (frequency_index >> 1)),
+                                         static_cast<std::uint8_t>(((frequency_index & 1) << 7) | (2 << 3))}}));
+  // AACLC, channel cfg 2
   std::shared_ptr<box::SLConfigDescr> scd(
       new box::SLConfigDescr({.data = {0x02}}));  // predefined, Reserved for use in MP4 files
   std::shared_ptr<box::ESDescriptor> esd(
-- 
2.43.0


From 4625e4297e34edf74aca47a4575c2ff536e533fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 09/61] fix: H.264 units at the end of the data were not found
 or not delimited

Start codes in the last bytes were taken for content of the preceding
unit, units shorter than three bytes were refused at the end of the
data, and a header byte of zero was taken for a missing start code.
---
 src/track/h264.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index 0a3efac..67d630e 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -161,11 +161,15 @@ std::ostream& operator<<(std::ostream& os, const NalUnit& nu) {
 NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size, const std::size_t start) {
   // start から NalUnit が始まっていることを期待する
   auto index = start;
-  std::size_t start_code_size;
+  std::size_t start_code_size = 0;
   std::uint8_t header = 0;
-  while (index + 5 < data_size) {
-    if (data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 0 & data[index + 3] == 1) {
-      if (header == 0) {
+  while (index + 3 <= data_size) {
+    if (index + 4 <= data_size && data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 0 &&
+        data[index + 3] == 1) {
+      if (start_code_size == 0) {
+        if (index + 4 == data_size) {
+          throw std::runtime_error("nalunit not found");
+        }
         start_code_size = 4;
         header = data[index + 4];
       } else {
@@ -175,7 +179,10 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
       continue;
     }
     if (data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 1) {
-      if (header == 0) {
+      if (start_code_size == 0) {
+        if (index + 3 == data_size) {
+          throw std::runtime_error("nalunit not found");
+        }
         start_code_size = 3;
         header = data[index + 3];
       } else {
@@ -184,12 +191,12 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
       index += 3;
       continue;
     }
-    if (index == start && header == 0) {
+    if (start_code_size == 0) {
       throw std::runtime_error(fmt::format("not start with nalunit: start={}", start));
     }
     ++index;
   }
-  if (header == 0) {
+  if (start_code_size == 0) {
     throw std::runtime_error("nalunit not found");
   }
   return NalUnit{start_code_size, start, data_size, header};
-- 
2.43.0


From fb04b937b3675e36a1e5d85e7d16f1bea16ea305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 10/61] fix: H264Track repeated every parameter set in the
 decoder configuration

Streams repeat their parameter sets at each key frame; after 31 of them
the 5 bit count of the avcC box wrapped and the box became unreadable.
---
 include/shiguredo/mp4/box/avc.hpp |  2 ++
 src/track/h264.cpp                | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/shiguredo/mp4/box/avc.hpp b/include/shiguredo/mp4/box/avc.hpp
index adeead5..c34c0ea 100644
--- a/include/shiguredo/mp4/box/avc.hpp
+++ b/include/shiguredo/mp4/box/avc.hpp
@@ -48,6 +48,8 @@ class AVCParameterSet {
   AVCParameterSet() = default;
   explicit AVCParameterSet(const AVCParameterSetParameters&);
 
+  bool operator==(const AVCParameterSet&) const = default;
+
   std::string toString() const;
   std::uint64_t writeData(bitio::Writer*) const;
   std::uint64_t getSize() const;
diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index 67d630e..5b38440 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -202,12 +202,22 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
   return NalUnit{start_code_size, start, data_size, header};
 }
 
+// 同じパラメーターセットはストリーム中で何度も繰り返されうる
+static bool contains(const std::vector<shiguredo::mp4::box::AVCParameterSet>& sets,
+                     const shiguredo::mp4::box::AVCParameterSet& params) {
+  return std::find(std::begin(sets), std::end(sets), params) != std::end(sets);
+}
+
 void H264Track::appendSequenceParameterSets(const shiguredo::mp4::box::AVCParameterSet& params) {
-  m_sequence_parameter_sets.emplace_back(params);
+  if (!contains(m_sequence_parameter_sets, params)) {
+    m_sequence_parameter_sets.emplace_back(params);
+  }
 }
 
 void H264Track::appendPictureParameterSets(const shiguredo::mp4::box::AVCParameterSet& params) {
-  m_picture_parameter_sets.emplace_back(params);
+  if (!contains(m_picture_parameter_sets, params)) {
+    m_picture_parameter_sets.emplace_back(params);
+  }
 }
 
 }  // namespace shiguredo::mp4::track
-- 
2.43.0


From e665d57384d9dde98b83801cc4240c2e7b0b4996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 11/61] fix: sizes of samples from 4 GiB were truncated

Such a sample cannot be described by the sample size table, it is refused now.
---
 src/track/track.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/track/track.cpp b/src/track/track.cpp
index f3135b8..f2b8523 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -6,6 +6,7 @@
 #include <cstdint>
 #include <iterator>
 #include <limits>
+#include <stdexcept>
 
 #include "shiguredo/mp4/box/boxes.hpp"
 #include "shiguredo/mp4/box_info.hpp"
@@ -29,6 +30,9 @@ void Track::addMdatData(const std::uint64_t timestamp,
                         const std::uint8_t* data,
                         const std::size_t data_size,
                         bool is_key) {
+  if (data_size > std::numeric_limits<std::uint32_t>::max()) {
+    throw std::runtime_error(fmt::format("Track::addMdatData(): sample is too large: data_size={}", data_size));
+  }
   if (!m_current_chunk_info.initialized) {
     m_current_chunk_info.initialized = true;
     m_current_chunk_info.offset = m_writer->tellCurrentMdatOffset();
-- 
2.43.0


From e57b21e3864b2e826fa79df74f9a6007d6ab1ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 12/61] fix: SimpleWriter recorded a chunk offset of -1 when
 the position query failed

ostream::tellp() returns -1 without setting the state of the stream when
its buffer cannot tell the position.
---
 src/writer/simple_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index 070ae52..fd16939 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -108,7 +108,7 @@ void SimpleWriter::setOffsetAndSize() {
 
 std::uint64_t SimpleWriter::tellCurrentMdatOffset() {
   const auto offset = m_os.tellp();
-  if (!m_os.good()) {
+  if (!m_os.good() || offset == std::ostream::pos_type(-1)) {
     throw std::runtime_error(
         fmt::format("SimpleWriter::tellCurrentMdatOffset(): ostream::tellp() failed: rdstate={}", m_os.rdstate()));
   }
-- 
2.43.0


From b83db5ec066270d909ef85920d8aa31549dec52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 13/61] fix: copyMdatData() accepted an intermediate file that
 had lost its end

---
 src/writer/faststart_writer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index df941c5..ca3516b 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -148,6 +148,7 @@ void FaststartWriter::copyMdatData() {
     throw std::runtime_error("fseek failed");
   }
 
+  std::uint64_t copied_size = 0;
   char buffer[COPY_MDAT_DATA_BUFFER_SIZE];
   while (!std::feof(m_mdat_fd)) {
     std::size_t size = std::fread(buffer, 1, COPY_MDAT_DATA_BUFFER_SIZE, m_mdat_fd);
@@ -160,6 +161,12 @@ void FaststartWriter::copyMdatData() {
       throw std::runtime_error(
           fmt::format("FaststartWriter::copyMdatData(): copying mdat data failed: rdstate={}", m_os.rdstate()));
     }
+    copied_size += static_cast<std::uint64_t>(size);
+  }
+  if (copied_size != m_mdat_data_size) {
+    throw std::runtime_error(
+        fmt::format("FaststartWriter::copyMdatData(): the intermediate file has a wrong size: expected={} actual={}",
+                    m_mdat_data_size, copied_size));
   }
 
   if (auto ret = std::fclose(m_mdat_fd); ret == EOF) {
-- 
2.43.0


From c1ae7a4a884f3b301f8b448991f8f2cb6490b55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 14/61] fix: hdlr with padding after the name could not be read

readData() passed the number of remaining bits where the number of bytes is wanted.
---
 src/box/hdlr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/box/hdlr.cpp b/src/box/hdlr.cpp
index 343d481..ffc0cde 100644
--- a/src/box/hdlr.cpp
+++ b/src/box/hdlr.cpp
@@ -77,7 +77,7 @@ std::uint64_t Hdlr::readData(std::istream& is) {
         fmt::format("Hdlr::readData(): invalid name_rbits: offset_to_end={} name_rbits={}", offset_to_end, name_rbits));
   }
   rbits += name_rbits;
-  return rbits + bitio::read_vector_uint<std::uint8_t>(&reader, (offset_to_end * 8) - name_rbits, &m_padding);
+  return rbits + bitio::read_vector_uint<std::uint8_t>(&reader, offset_to_end - name_rbits / 8, &m_padding);
 }
 
 }  // namespace shiguredo::mp4::box
-- 
2.43.0


From 3646e430fa5a54dfc41881771dece4a1f2952144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 15/61] fix: hdlr with a length-prefixed name was written back
 with a terminated one

---
 include/shiguredo/mp4/box/hdlr.hpp | 1 +
 src/box/hdlr.cpp                   | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/shiguredo/mp4/box/hdlr.hpp b/include/shiguredo/mp4/box/hdlr.hpp
index 8143fc1..49b9ea3 100644
--- a/include/shiguredo/mp4/box/hdlr.hpp
+++ b/include/shiguredo/mp4/box/hdlr.hpp
@@ -40,6 +40,7 @@ class Hdlr : public FullBox {
   std::array<std::uint8_t, 4> m_flags = {0, 0, 0, 0};         // Reserved. Set to 0.
   std::array<std::uint8_t, 4> m_flags_mask = {0, 0, 0, 0};    // Reserved. Set to 0
   std::string m_name;
+  bool m_pascal_name = false;  // QuickTime: the name is prefixed by its length instead of terminated by zero
   std::vector<std::uint8_t> m_padding = {};
 };
 
diff --git a/src/box/hdlr.cpp b/src/box/hdlr.cpp
index ffc0cde..db5551a 100644
--- a/src/box/hdlr.cpp
+++ b/src/box/hdlr.cpp
@@ -48,7 +48,11 @@ std::uint64_t Hdlr::writeData(std::ostream& os) const {
   wbits += bitio::write_array_uint8_4(&writer, m_manufacturer);
   wbits += bitio::write_array_uint8_4(&writer, m_flags);
   wbits += bitio::write_array_uint8_4(&writer, m_flags_mask);
-  wbits += bitio::write_string(&writer, m_name);
+  if (m_pascal_name) {
+    wbits += bitio::write_pascal_string(&writer, m_name);
+  } else {
+    wbits += bitio::write_string(&writer, m_name);
+  }
   return wbits + bitio::write_vector_uint<std::uint8_t>(&writer, m_padding);
 }
 
@@ -67,7 +71,10 @@ std::uint64_t Hdlr::readData(std::istream& is) {
 
   const auto offset_to_end = static_cast<std::uint64_t>(shiguredo::mp4::stream::get_istream_offset_to_end(is));
   std::uint64_t name_rbits;
+  m_pascal_name = false;
   if (m_pre_defined != 0) {
+    // the same condition under which read_pascal_string() takes the first byte for the length of the name
+    m_pascal_name = offset_to_end >= 2 && static_cast<std::uint64_t>(is.peek()) == offset_to_end - 1;
     name_rbits = bitio::read_pascal_string(&reader, &m_name, offset_to_end * 8);
   } else {
     name_rbits = bitio::read_string(&reader, &m_name, offset_to_end * 8);
-- 
2.43.0


From a7bdd423e992bc53e8417fea7193aac5738b73f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 16/61] fix: stsz with a common sample size lost its sample
 count

---
 include/shiguredo/mp4/box/stsz.hpp |  2 ++
 src/box/stsz.cpp                   | 16 ++++++++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/shiguredo/mp4/box/stsz.hpp b/include/shiguredo/mp4/box/stsz.hpp
index f59290d..397feba 100644
--- a/include/shiguredo/mp4/box/stsz.hpp
+++ b/include/shiguredo/mp4/box/stsz.hpp
@@ -14,6 +14,7 @@ struct StszParameters {
   const std::uint8_t version = 0;
   const std::uint32_t flags = 0x000000;
   const std::uint32_t sample_size = 0;
+  const std::uint32_t sample_count = 0;  // used if sample_size is not 0
   const std::vector<std::uint32_t> entry_sizes;
 };
 
@@ -32,6 +33,7 @@ class Stsz : public FullBox {
 
  private:
   std::uint32_t m_sample_size;
+  std::uint32_t m_sample_count = 0;
   std::vector<std::uint32_t> m_entry_sizes;
 };
 
diff --git a/src/box/stsz.cpp b/src/box/stsz.cpp
index c9281c7..8d86eb3 100644
--- a/src/box/stsz.cpp
+++ b/src/box/stsz.cpp
@@ -24,7 +24,12 @@ Stsz::Stsz() {
   m_type = box_type_stsz();
 }
 
-Stsz::Stsz(const StszParameters& params) : m_sample_size(params.sample_size), m_entry_sizes(params.entry_sizes) {
+Stsz::Stsz(const StszParameters& params)
+    : m_sample_size(params.sample_size),
+      m_sample_count(params.sample_size == 0 || params.sample_count == 0
+                         ? static_cast<std::uint32_t>(std::size(params.entry_sizes))
+                         : params.sample_count),
+      m_entry_sizes(params.entry_sizes) {
   setVersion(params.version);
   setFlags(params.flags);
   m_type = box_type_stsz();
@@ -32,14 +37,14 @@ Stsz::Stsz(const StszParameters& params) : m_sample_size(params.sample_size), m_
 
 std::string Stsz::toStringOnlyData() const {
   return fmt::format("{} SampleSize={} SampleCount={} EntrySizes=[{}]", getVersionAndFlagsString(), m_sample_size,
-                     std::size(m_entry_sizes), fmt::join(m_entry_sizes, ", "));
+                     m_sample_count, fmt::join(m_entry_sizes, ", "));
 }
 
 std::uint64_t Stsz::writeData(std::ostream& os) const {
   bitio::Writer writer(os);
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   wbits += bitio::write_uint<std::uint32_t>(&writer, m_sample_size);
-  wbits += bitio::write_uint<std::uint32_t>(&writer, static_cast<std::uint32_t>(std::size(m_entry_sizes)));
+  wbits += bitio::write_uint<std::uint32_t>(&writer, m_sample_count);
   if (m_sample_size == 0) {
     wbits += bitio::write_vector_uint<std::uint32_t>(&writer, m_entry_sizes);
   }
@@ -54,10 +59,9 @@ std::uint64_t Stsz::readData(std::istream& is) {
   bitio::Reader reader(is);
   std::uint64_t rbits = readVersionAndFlag(&reader);
   rbits += bitio::read_uint<std::uint32_t>(&reader, &m_sample_size);
-  std::uint32_t sample_count;
-  rbits += bitio::read_uint<std::uint32_t>(&reader, &sample_count);
+  rbits += bitio::read_uint<std::uint32_t>(&reader, &m_sample_count);
   if (m_sample_size == 0) {
-    rbits += bitio::read_vector_uint<std::uint32_t>(&reader, sample_count, &m_entry_sizes);
+    rbits += bitio::read_vector_uint<std::uint32_t>(&reader, m_sample_count, &m_entry_sizes);
   } else {
     m_entry_sizes.clear();
   }
-- 
2.43.0


From 612b0a4a1a987c5193621444c76b7389e5778be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 17/61] fix: iods trusted its descriptor length and dropped
 what follows the fixed fields

A length below 7 wrapped around to a consumed size of gigabytes, a length
beyond the box was accepted, and the sub-descriptors were lost on write-back.
---
 include/shiguredo/mp4/box/iods.hpp |  2 ++
 src/box/iods.cpp                   | 13 ++++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/shiguredo/mp4/box/iods.hpp b/include/shiguredo/mp4/box/iods.hpp
index 1e28056..2eb4b21 100644
--- a/include/shiguredo/mp4/box/iods.hpp
+++ b/include/shiguredo/mp4/box/iods.hpp
@@ -3,6 +3,7 @@
 #include <cstdint>
 #include <istream>
 #include <string>
+#include <vector>
 
 #include "shiguredo/mp4/box.hpp"
 #include "shiguredo/mp4/box_type.hpp"
@@ -44,6 +45,7 @@ class Iods : public FullBox {
   std::uint8_t m_audio_profile_level;
   std::uint8_t m_video_profile_level;
   std::uint8_t m_graphics_profile_level;
+  std::vector<std::uint8_t> m_sub_descriptors = {};  // what follows the fields above within m_descriptor_length
 };
 
 }  // namespace shiguredo::mp4::box
diff --git a/src/box/iods.cpp b/src/box/iods.cpp
index 766ddd5..a13c484 100644
--- a/src/box/iods.cpp
+++ b/src/box/iods.cpp
@@ -4,6 +4,8 @@
 
 #include <cstdint>
 #include <istream>
+#include <iterator>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -11,6 +13,7 @@
 #include "shiguredo/mp4/bitio/reader.hpp"
 #include "shiguredo/mp4/bitio/writer.hpp"
 #include "shiguredo/mp4/box_type.hpp"
+#include "shiguredo/mp4/stream/stream.hpp"
 
 namespace shiguredo::mp4::box {
 
@@ -56,11 +59,11 @@ std::uint64_t Iods::writeData(std::ostream& os) const {
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_audio_profile_level);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_video_profile_level);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_graphics_profile_level);
-  return wbits;
+  return wbits + bitio::write_vector_uint<std::uint8_t>(&writer, m_sub_descriptors);
 }
 
 std::uint64_t Iods::getDataSize() const {
-  return 12 + bitio::uvarint_size(m_descriptor_length);
+  return 12 + bitio::uvarint_size(m_descriptor_length) + std::size(m_sub_descriptors);
 }
 
 std::uint64_t Iods::readData(std::istream& is) {
@@ -74,7 +77,11 @@ std::uint64_t Iods::readData(std::istream& is) {
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_audio_profile_level);
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_video_profile_level);
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_graphics_profile_level);
-  return rbits + (m_descriptor_length - 7) * 8;
+  const auto offset_to_end = static_cast<std::uint64_t>(shiguredo::mp4::stream::get_istream_offset_to_end(is));
+  if (m_descriptor_length < 7 || m_descriptor_length - 7 > offset_to_end) {
+    throw std::runtime_error(fmt::format("Iods::readData(): invalid descriptor_length: {}", m_descriptor_length));
+  }
+  return rbits + bitio::read_vector_uint<std::uint8_t>(&reader, m_descriptor_length - 7, &m_sub_descriptors);
 }
 
 }  // namespace shiguredo::mp4::box
-- 
2.43.0


From d1caa184df6f26dc48830f8f70857ed60d4ba356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 18/61] fix: decoding took memory for as many entries as a
 count in the data announced

Entries were allocated before the first of them was read: four bytes of a
damaged or hostile file made the reader ask for gigabytes. They are now added
one by one as they are read.
---
 include/shiguredo/mp4/bitio/bitio.hpp |  6 ++++--
 src/box/ctts.cpp                      |  5 +++--
 src/box/elst.cpp                      |  7 +++----
 src/box/pssh.cpp                      |  7 +++----
 src/box/sbgp.cpp                      |  5 +++--
 src/box/sgpd.cpp                      | 25 +++++++++++++++----------
 src/box/stsc.cpp                      |  5 +++--
 src/box/stts.cpp                      |  5 +++--
 src/box/tfra.cpp                      |  7 ++++---
 src/box/trun.cpp                      |  5 +++--
 10 files changed, 44 insertions(+), 33 deletions(-)

diff --git a/include/shiguredo/mp4/bitio/bitio.hpp b/include/shiguredo/mp4/bitio/bitio.hpp
index ff7e1ec..e697c82 100644
--- a/include/shiguredo/mp4/bitio/bitio.hpp
+++ b/include/shiguredo/mp4/bitio/bitio.hpp
@@ -129,9 +129,11 @@ std::uint64_t write_vector_uint(Writer* writer, const std::vector<T>& v) {
 template <typename T>
 std::uint64_t read_vector_uint(Reader* reader, const std::size_t size, std::vector<T>* v) {
   std::uint64_t rbits = 0;
-  v->resize(size);
+  v->clear();  // not resized in advance: size may come from the data and be larger than what follows
   for (std::size_t i = 0; i < size; ++i) {
-    rbits += read_uint<T>(reader, &((*v)[i]));
+    T u;
+    rbits += read_uint<T>(reader, &u);
+    v->push_back(u);
   }
   return rbits;
 }
diff --git a/src/box/ctts.cpp b/src/box/ctts.cpp
index ec1dae0..db786a4 100644
--- a/src/box/ctts.cpp
+++ b/src/box/ctts.cpp
@@ -76,9 +76,10 @@ std::uint64_t Ctts::readData(std::istream& is) {
   std::uint64_t rbits = readVersionAndFlag(&reader);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::size_t i = 0; i < entry_count; ++i) {
-    rbits += m_entries[i].readData(&reader);
+    m_entries.emplace_back();
+    rbits += m_entries.back().readData(&reader);
   }
   return rbits;
 }
diff --git a/src/box/elst.cpp b/src/box/elst.cpp
index d0aa4fc..9930374 100644
--- a/src/box/elst.cpp
+++ b/src/box/elst.cpp
@@ -88,11 +88,10 @@ std::uint64_t Elst::readData(std::istream& is) {
   std::uint64_t rbits = readVersionAndFlag(&reader);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::size_t i = 0; i < entry_count; ++i) {
-    ElstEntry entry;
-    rbits += entry.readData(&reader, m_version);
-    m_entries[i] = entry;
+    m_entries.emplace_back();
+    rbits += m_entries.back().readData(&reader, m_version);
   }
   return rbits;
 }
diff --git a/src/box/pssh.cpp b/src/box/pssh.cpp
index 28cc2c6..834a8ea 100644
--- a/src/box/pssh.cpp
+++ b/src/box/pssh.cpp
@@ -93,11 +93,10 @@ std::uint64_t Pssh::readData(std::istream& is) {
   if (m_version != 0) {
     std::uint32_t kid_count;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &kid_count);
-    m_kids.resize(static_cast<std::size_t>(kid_count));
+    m_kids.clear();
     for (std::uint32_t i = 0; i < kid_count; ++i) {
-      PsshKID kid;
-      rbits += kid.readData(&reader);
-      m_kids[i] = kid;
+      m_kids.emplace_back();
+      rbits += m_kids.back().readData(&reader);
     }
   }
 
diff --git a/src/box/sbgp.cpp b/src/box/sbgp.cpp
index c25300b..dbd9d2a 100644
--- a/src/box/sbgp.cpp
+++ b/src/box/sbgp.cpp
@@ -87,9 +87,10 @@ std::uint64_t Sbgp::readData(std::istream& is) {
 
   std::uint32_t size;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-  m_entries.resize(size);
+  m_entries.clear();
   for (std::size_t i = 0; i < size; ++i) {
-    rbits += m_entries[i].readData(&reader);
+    m_entries.emplace_back();
+    rbits += m_entries.back().readData(&reader);
   }
 
   return rbits;
diff --git a/src/box/sgpd.cpp b/src/box/sgpd.cpp
index 28bbadb..1c46c8f 100644
--- a/src/box/sgpd.cpp
+++ b/src/box/sgpd.cpp
@@ -174,36 +174,40 @@ std::uint64_t Sgpd::readData(std::istream& is) {
   if (m_grouping_type == GroupingTypeRoll || m_grouping_type == GroupingTypeProl) {
     std::uint32_t size;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-    m_roll_distances.resize(size);
+    m_roll_distances.clear();
     for (std::size_t i = 0; i < size; ++i) {
-      rbits += m_roll_distances[i].readData(&reader, no_default_length);
+      m_roll_distances.emplace_back();
+      rbits += m_roll_distances.back().readData(&reader, no_default_length);
     }
     return rbits;
   }
   if (m_grouping_type == GroupingTypeAlst) {
     std::uint32_t size;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-    m_alternative_startup_entries.resize(size);
+    m_alternative_startup_entries.clear();
     for (std::size_t i = 0; i < size; ++i) {
-      rbits += m_alternative_startup_entries[i].readData(&reader, m_default_length, no_default_length);
+      m_alternative_startup_entries.emplace_back();
+      rbits += m_alternative_startup_entries.back().readData(&reader, m_default_length, no_default_length);
     }
     return rbits;
   }
   if (m_grouping_type == GroupingTypeRap) {
     std::uint32_t size;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-    m_visual_random_access_entries.resize(size);
+    m_visual_random_access_entries.clear();
     for (std::size_t i = 0; i < size; ++i) {
-      rbits += m_visual_random_access_entries[i].readData(&reader, no_default_length);
+      m_visual_random_access_entries.emplace_back();
+      rbits += m_visual_random_access_entries.back().readData(&reader, no_default_length);
     }
     return rbits;
   }
   if (m_grouping_type == GroupingTypeTele) {
     std::uint32_t size;
     rbits += bitio::read_uint<std::uint32_t>(&reader, &size);
-    m_temporal_level_entries.resize(size);
+    m_temporal_level_entries.clear();
     for (std::size_t i = 0; i < size; ++i) {
-      rbits += m_temporal_level_entries[i].readData(&reader, no_default_length);
+      m_temporal_level_entries.emplace_back();
+      rbits += m_temporal_level_entries.back().readData(&reader, no_default_length);
     }
     return rbits;
   }
@@ -329,9 +333,10 @@ std::uint64_t AlternativeStartupEntry::readData(bitio::Reader* reader,
         fmt::format("AlternativeStartupEntry::readData(): invalid offset of AlternativeStartupEntry: {}", offset));
   }
   size = static_cast<std::size_t>(offset / 32);
-  m_opts.resize(size);
+  m_opts.clear();
   for (std::size_t i = 0; i < size; ++i) {
-    rbits += m_opts[i].readData(reader);
+    m_opts.emplace_back();
+    rbits += m_opts.back().readData(reader);
   }
   return rbits;
 }
diff --git a/src/box/stsc.cpp b/src/box/stsc.cpp
index 694a978..381630d 100644
--- a/src/box/stsc.cpp
+++ b/src/box/stsc.cpp
@@ -60,9 +60,10 @@ std::uint64_t Stsc::readData(std::istream& is) {
   std::uint64_t rbits = readVersionAndFlag(&reader);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::uint32_t i = 0; i < entry_count; ++i) {
-    rbits += m_entries[i].readData(&reader);
+    m_entries.emplace_back();
+    rbits += m_entries.back().readData(&reader);
   }
   return rbits;
 }
diff --git a/src/box/stts.cpp b/src/box/stts.cpp
index a5c3dea..95fef7d 100644
--- a/src/box/stts.cpp
+++ b/src/box/stts.cpp
@@ -60,9 +60,10 @@ std::uint64_t Stts::readData(std::istream& is) {
   std::uint64_t rbits = readVersionAndFlag(&reader);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::uint32_t i = 0; i < entry_count; ++i) {
-    rbits += m_entries[i].readData(&reader);
+    m_entries.emplace_back();
+    rbits += m_entries.back().readData(&reader);
   }
   return rbits;
 }
diff --git a/src/box/tfra.cpp b/src/box/tfra.cpp
index f890935..6f029dc 100644
--- a/src/box/tfra.cpp
+++ b/src/box/tfra.cpp
@@ -83,10 +83,11 @@ std::uint64_t Tfra::readData(std::istream& is) {
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_length_size_of_sample_num, 2);
   std::uint32_t entry_count;
   rbits += bitio::read_uint<std::uint32_t>(&reader, &entry_count);
-  m_entries.resize(entry_count);
+  m_entries.clear();
   for (std::uint32_t i = 0; i < entry_count; ++i) {
-    rbits += m_entries[i].readData(&reader, m_version, m_length_size_of_traf_num, m_length_size_of_trun_num,
-                                   m_length_size_of_sample_num);
+    m_entries.emplace_back();
+    rbits += m_entries.back().readData(&reader, m_version, m_length_size_of_traf_num, m_length_size_of_trun_num,
+                                       m_length_size_of_sample_num);
   }
   return rbits;
 }
diff --git a/src/box/trun.cpp b/src/box/trun.cpp
index dcd0896..effd45b 100644
--- a/src/box/trun.cpp
+++ b/src/box/trun.cpp
@@ -92,9 +92,10 @@ std::uint64_t Trun::readData(std::istream& is) {
   if (flags & 0x4) {
     rbits += bitio::read_uint<std::uint32_t>(&reader, &m_first_sample_flags);
   }
-  m_entries.resize(sample_count);
+  m_entries.clear();
   for (std::size_t i = 0; i < sample_count; ++i) {
-    rbits += m_entries[i].readData(&reader, flags);
+    m_entries.emplace_back();
+    rbits += m_entries.back().readData(&reader, flags);
   }
   return rbits;
 }
-- 
2.43.0


From 300bd1df14132bdbe65a40aed10b04de2623bc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 19/61] fix: lengths of alternative startup entries from 512
 MiB wrapped around

---
 src/box/sgpd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/box/sgpd.cpp b/src/box/sgpd.cpp
index 1c46c8f..cd94b3e 100644
--- a/src/box/sgpd.cpp
+++ b/src/box/sgpd.cpp
@@ -324,9 +324,9 @@ std::uint64_t AlternativeStartupEntry::readData(bitio::Reader* reader,
   std::size_t size;
   std::int64_t offset;
   if (m_with_length) {
-    offset = static_cast<std::int64_t>(m_description_length * 8) - static_cast<std::int64_t>(rbits - 32);
+    offset = static_cast<std::int64_t>(m_description_length) * 8 - static_cast<std::int64_t>(rbits - 32);
   } else {
-    offset = static_cast<std::int64_t>(length * 8) - static_cast<std::int64_t>(rbits);
+    offset = static_cast<std::int64_t>(length) * 8 - static_cast<std::int64_t>(rbits);
   }
   if ((offset < 0) || (offset % 32 != 0)) {
     throw std::runtime_error(
-- 
2.43.0


From 7cf943b4b005cf51f12b352f19bba19ce4b40cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 20/61] fix: trun without sample fields took memory for every
 sample it counts

---
 include/shiguredo/mp4/box/trun.hpp |  4 ++++
 src/box/trun.cpp                   | 25 ++++++++++++++++---------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/include/shiguredo/mp4/box/trun.hpp b/include/shiguredo/mp4/box/trun.hpp
index 5f91c77..d9c7465 100644
--- a/include/shiguredo/mp4/box/trun.hpp
+++ b/include/shiguredo/mp4/box/trun.hpp
@@ -51,6 +51,9 @@ struct TrunParameters {
 
 BoxType box_type_trun();
 
+// flags that announce a field for each sample
+const std::uint32_t TrunSampleFieldsMask = 0x000f00;
+
 class Trun : public FullBox {
  public:
   Trun();
@@ -63,6 +66,7 @@ class Trun : public FullBox {
   std::uint64_t readData(std::istream&) override;
 
  private:
+  std::uint32_t m_sample_count = 0;
   std::int32_t m_data_offset;
   std::uint32_t m_first_sample_flags;
   std::vector<TrunEntry> m_entries;
diff --git a/src/box/trun.cpp b/src/box/trun.cpp
index effd45b..84d3362 100644
--- a/src/box/trun.cpp
+++ b/src/box/trun.cpp
@@ -27,14 +27,17 @@ Trun::Trun() {
 }
 
 Trun::Trun(const TrunParameters& params)
-    : m_data_offset(params.data_offset), m_first_sample_flags(params.first_sample_flags), m_entries(params.entries) {
+    : m_sample_count(static_cast<std::uint32_t>(std::size(params.entries))),
+      m_data_offset(params.data_offset),
+      m_first_sample_flags(params.first_sample_flags),
+      m_entries(params.entries) {
   setVersion(params.version);
   setFlags(params.flags);
   m_type = box_type_trun();
 }
 
 std::string Trun::toStringOnlyData() const {
-  std::string s = fmt::format("{} SampleCount={}", getVersionAndFlagsString(), std::size(m_entries));
+  std::string s = fmt::format("{} SampleCount={}", getVersionAndFlagsString(), m_sample_count);
   const std::uint32_t flags = getFlags();
   if (flags & 0x1) {
     s += fmt::format(" DataOffset={}", m_data_offset);
@@ -43,16 +46,17 @@ std::string Trun::toStringOnlyData() const {
     s += fmt::format(" FirstSampleFlags={:#x}", m_first_sample_flags);
   }
   std::vector<std::string> entries;
-  std::transform(std::begin(m_entries), std::end(m_entries), std::back_inserter(entries),
-                 [flags](const auto& e) { return e.toString(flags); });
+  if (flags & TrunSampleFieldsMask) {
+    std::transform(std::begin(m_entries), std::end(m_entries), std::back_inserter(entries),
+                   [flags](const auto& e) { return e.toString(flags); });
+  }
   return s + fmt::format(" Entries=[{}]", fmt::join(entries, ", "));
 }
 
 std::uint64_t Trun::writeData(std::ostream& os) const {
   bitio::Writer writer(os);
   std::uint64_t wbits = writeVersionAndFlag(&writer);
-  std::uint32_t sample_count = static_cast<std::uint32_t>(std::size(m_entries));
-  wbits += bitio::write_uint<std::uint32_t>(&writer, sample_count);
+  wbits += bitio::write_uint<std::uint32_t>(&writer, m_sample_count);
   const std::uint32_t flags = getFlags();
   if (flags & 0x1) {
     wbits += bitio::write_int<std::int32_t>(&writer, m_data_offset);
@@ -83,8 +87,7 @@ std::uint64_t Trun::getDataSize() const {
 std::uint64_t Trun::readData(std::istream& is) {
   bitio::Reader reader(is);
   std::uint64_t rbits = readVersionAndFlag(&reader);
-  std::uint32_t sample_count;
-  rbits += bitio::read_uint<std::uint32_t>(&reader, &sample_count);
+  rbits += bitio::read_uint<std::uint32_t>(&reader, &m_sample_count);
   const std::uint32_t flags = getFlags();
   if (flags & 0x1) {
     rbits += bitio::read_int<std::int32_t>(&reader, &m_data_offset);
@@ -93,7 +96,11 @@ std::uint64_t Trun::readData(std::istream& is) {
     rbits += bitio::read_uint<std::uint32_t>(&reader, &m_first_sample_flags);
   }
   m_entries.clear();
-  for (std::size_t i = 0; i < sample_count; ++i) {
+  if ((flags & TrunSampleFieldsMask) == 0) {
+    // nothing is stored per sample: the count is not bounded by the data
+    return rbits;
+  }
+  for (std::size_t i = 0; i < m_sample_count; ++i) {
     m_entries.emplace_back();
     rbits += m_entries.back().readData(&reader, flags);
   }
-- 
2.43.0


From 6a39c6832f8e3e59214c413f5a96aeddf169a016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 21/61] fix: descriptor lengths shorter than the descriptor
 wrapped around

---
 include/shiguredo/mp4/box/esds.hpp | 16 ++++++++--------
 src/box/esds.cpp                   |  8 ++++++++
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/shiguredo/mp4/box/esds.hpp b/include/shiguredo/mp4/box/esds.hpp
index ba2512c..72c667d 100644
--- a/include/shiguredo/mp4/box/esds.hpp
+++ b/include/shiguredo/mp4/box/esds.hpp
@@ -64,15 +64,15 @@ class ESDescriptor : public Descriptor {
   void addSubDescriptor(std::shared_ptr<Descriptor>);
 
  private:
-  std::uint32_t m_sub_descriptors_size;
-  std::uint16_t m_ESID;
-  bool m_stream_dependence_flag;
-  bool m_url_flag;
-  bool m_ocr_stream_flag;
-  std::int8_t m_stream_priority;
-  std::uint16_t m_depends_on_esid;
+  std::uint32_t m_sub_descriptors_size = 0;
+  std::uint16_t m_ESID = 0;
+  bool m_stream_dependence_flag = false;
+  bool m_url_flag = false;
+  bool m_ocr_stream_flag = false;
+  std::int8_t m_stream_priority = 0;
+  std::uint16_t m_depends_on_esid = 0;
   std::vector<std::uint8_t> m_url_string;
-  std::uint16_t m_OCRESID;
+  std::uint16_t m_OCRESID = 0;
   std::vector<std::shared_ptr<Descriptor>> m_sub_descriptors = {};
 };
 
diff --git a/src/box/esds.cpp b/src/box/esds.cpp
index ed8d5e9..7a47f68 100644
--- a/src/box/esds.cpp
+++ b/src/box/esds.cpp
@@ -113,6 +113,10 @@ std::uint64_t ESDescriptor::readData(bitio::Reader* reader) {
   if (m_ocr_stream_flag) {
     rbits += bitio::read_uint<std::uint16_t>(reader, &m_OCRESID);
   }
+  if (data_size_with_sub_descriptors < getDataSize()) {
+    throw std::runtime_error(
+        fmt::format("ESDescriptor::readData(): length is too short: {}", data_size_with_sub_descriptors));
+  }
   m_sub_descriptors_size = data_size_with_sub_descriptors - getDataSize();
 
   return rbits;
@@ -195,6 +199,10 @@ std::uint64_t DecoderConfigDescriptor::readData(bitio::Reader* reader) {
   rbits += bitio::read_uint<std::uint32_t>(reader, &m_buffer_size_db, 24);
   rbits += bitio::read_uint<std::uint32_t>(reader, &m_max_bitrate);
   rbits += bitio::read_uint<std::uint32_t>(reader, &m_avg_bitrate);
+  if (data_size_with_sub_descriptors < getDataSize()) {
+    throw std::runtime_error(
+        fmt::format("DecoderConfigDescriptor::readData(): length is too short: {}", data_size_with_sub_descriptors));
+  }
   m_sub_descriptors_size = data_size_with_sub_descriptors - getDataSize();
   return rbits;
 }
-- 
2.43.0


From c3d1d9d56166ffd7b57342cdfd62623d7322120a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 22/61] fix: stream priorities from 16 and stream types from 32
 lost their top bit

---
 src/box/esds.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/box/esds.cpp b/src/box/esds.cpp
index 7a47f68..3f7a085 100644
--- a/src/box/esds.cpp
+++ b/src/box/esds.cpp
@@ -46,7 +46,7 @@ std::uint64_t ESDescriptor::writeData(bitio::Writer* writer) const {
   wbits += write_bool(writer, m_stream_dependence_flag);
   wbits += write_bool(writer, m_url_flag);
   wbits += write_bool(writer, m_ocr_stream_flag);
-  wbits += bitio::write_int<std::int8_t>(writer, m_stream_priority, 5);
+  wbits += bitio::write_uint<std::int8_t>(writer, m_stream_priority, 5);
   if (m_stream_dependence_flag) {
     wbits += bitio::write_uint<std::uint16_t>(writer, m_depends_on_esid);
   }
@@ -101,7 +101,7 @@ std::uint64_t ESDescriptor::readData(bitio::Reader* reader) {
   rbits += read_bool(reader, &m_stream_dependence_flag);
   rbits += read_bool(reader, &m_url_flag);
   rbits += read_bool(reader, &m_ocr_stream_flag);
-  rbits += bitio::read_int<std::int8_t>(reader, &m_stream_priority, 5);
+  rbits += bitio::read_uint<std::int8_t>(reader, &m_stream_priority, 5);
   if (m_stream_dependence_flag) {
     rbits += bitio::read_uint<std::uint16_t>(reader, &m_depends_on_esid);
   }
@@ -163,7 +163,7 @@ std::uint64_t DecoderConfigDescriptor::writeData(bitio::Writer* writer) const {
   auto wbits = bitio::write_int<std::int8_t>(writer, m_tag);
   wbits += bitio::write_uvarint<std::uint32_t>(writer, getDataSizeWithSubDescriptors());
   wbits += bitio::write_uint<std::uint8_t>(writer, m_object_type_indication);
-  wbits += bitio::write_int<std::int8_t>(writer, m_stream_type, 6);
+  wbits += bitio::write_uint<std::int8_t>(writer, m_stream_type, 6);
   wbits += write_bool(writer, m_upstream);
   wbits += write_bool(writer, m_reserved);
   wbits += bitio::write_uint<std::uint32_t>(writer, m_buffer_size_db, 24);
@@ -193,7 +193,7 @@ std::uint64_t DecoderConfigDescriptor::readData(bitio::Reader* reader) {
   std::uint32_t data_size_with_sub_descriptors;
   auto rbits = bitio::read_uvarint<std::uint32_t>(reader, &data_size_with_sub_descriptors);
   rbits += bitio::read_uint<std::uint8_t>(reader, &m_object_type_indication);
-  rbits += bitio::read_int<std::int8_t>(reader, &m_stream_type, 6);
+  rbits += bitio::read_uint<std::int8_t>(reader, &m_stream_type, 6);
   rbits += read_bool(reader, &m_upstream);
   rbits += read_bool(reader, &m_reserved);
   rbits += bitio::read_uint<std::uint32_t>(reader, &m_buffer_size_db, 24);
-- 
2.43.0


From c3d1c0b41137e3549c2f38da2deccfc7fdacdfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 23/61] fix: esds dropped the descriptors from the first
 unknown one on

---
 include/shiguredo/mp4/box/esds.hpp |  1 +
 src/box/esds.cpp                   | 10 +++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/shiguredo/mp4/box/esds.hpp b/include/shiguredo/mp4/box/esds.hpp
index 72c667d..145d7f1 100644
--- a/include/shiguredo/mp4/box/esds.hpp
+++ b/include/shiguredo/mp4/box/esds.hpp
@@ -171,6 +171,7 @@ class Esds : public FullBox {
 
  private:
   std::vector<std::shared_ptr<Descriptor>> m_descriptors;
+  std::vector<std::uint8_t> m_unknown = {};  // descriptors from the first one with an unknown tag on
 };
 
 }  // namespace shiguredo::mp4::box
diff --git a/src/box/esds.cpp b/src/box/esds.cpp
index 3f7a085..009eb29 100644
--- a/src/box/esds.cpp
+++ b/src/box/esds.cpp
@@ -312,11 +312,11 @@ std::uint64_t Esds::writeData(std::ostream& os) const {
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   wbits += std::accumulate(std::begin(m_descriptors), std ::end(m_descriptors), 0UL,
                            [&writer](const auto a, const auto d) { return a + d->writeData(&writer); });
-  return wbits;
+  return wbits + bitio::write_vector_uint<std::uint8_t>(&writer, m_unknown);
 }
 
 std::uint64_t Esds::getDataSize() const {
-  return std::accumulate(std::begin(m_descriptors), std::end(m_descriptors), 4UL,
+  return std::accumulate(std::begin(m_descriptors), std::end(m_descriptors), 4UL + std::size(m_unknown),
                          [](const std::uint64_t a, const auto d) { return a + d->getSize(); });
 }
 
@@ -324,11 +324,13 @@ std::uint64_t Esds::readData(std::istream& is) {
   bitio::Reader reader(is);
   std::uint64_t rbits = readVersionAndFlag(&reader);
   m_descriptors.clear();
+  m_unknown.clear();
   while (true) {
     const auto offset_to_end = shiguredo::mp4::stream::get_istream_offset_to_end(is);
     if (offset_to_end == 0) {
       return rbits;
     }
+    const auto offset = is.tellg();
     std::int8_t tag;
     rbits += bitio::read_int<std::int8_t>(&reader, &tag);
     std::shared_ptr<Descriptor> p;
@@ -347,7 +349,9 @@ std::uint64_t Esds::readData(std::istream& is) {
         break;
       default:
         spdlog::info("Esds::readData(): unknown tag: {}", tag);
-        return rbits + static_cast<std::uint64_t>(offset_to_end) * 8;
+        is.seekg(offset);
+        return rbits - 8 +
+               bitio::read_vector_uint<std::uint8_t>(&reader, static_cast<std::size_t>(offset_to_end), &m_unknown);
     }
     rbits += p->readData(&reader);
     m_descriptors.push_back(p);
-- 
2.43.0


From 6838237df9b3a68e9794b5b7927bcf6f79d28b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:55 +0000
Subject: [PATCH 24/61] fix: descriptors with a short length field were written
 back with lengths that no longer fit

---
 include/shiguredo/mp4/bitio/bitio.hpp |  6 ++---
 include/shiguredo/mp4/box/esds.hpp    |  3 +++
 include/shiguredo/mp4/box/iods.hpp    |  1 +
 src/box/esds.cpp                      | 33 +++++++++++++++++----------
 src/box/iods.cpp                      | 12 +++++++---
 5 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/include/shiguredo/mp4/bitio/bitio.hpp b/include/shiguredo/mp4/bitio/bitio.hpp
index e697c82..4a26366 100644
--- a/include/shiguredo/mp4/bitio/bitio.hpp
+++ b/include/shiguredo/mp4/bitio/bitio.hpp
@@ -144,9 +144,9 @@ std::uint64_t uvarint_size(const T u) {
 }
 
 template <typename T>
-std::uint64_t write_uvarint(Writer* writer, const T u) {
+std::uint64_t write_uvarint(Writer* writer, const T u, const std::uint8_t size = sizeof(T)) {
   std::uint64_t val = static_cast<std::uint64_t>(u);
-  for (std::int8_t i = 7 * (sizeof(u) - 1); i >= 0; i -= 7) {
+  for (std::int8_t i = 7 * (size - 1); i >= 0; i -= 7) {
     std::uint8_t data = static_cast<std::uint8_t>((val >> i) & 0x7f);
     if (i > 0) {
       data |= 0x80;
@@ -155,7 +155,7 @@ std::uint64_t write_uvarint(Writer* writer, const T u) {
     writer->writeBits(v, 8);
   }
 
-  return sizeof(u) * 8;
+  return size * 8;
 }
 
 template <typename T>
diff --git a/include/shiguredo/mp4/box/esds.hpp b/include/shiguredo/mp4/box/esds.hpp
index 145d7f1..320a378 100644
--- a/include/shiguredo/mp4/box/esds.hpp
+++ b/include/shiguredo/mp4/box/esds.hpp
@@ -31,6 +31,9 @@ class Descriptor {
 
  protected:
   std::int8_t m_tag;
+  std::uint8_t m_length_size = 4;  // number of bytes of the length field
+
+  std::uint64_t readLength(bitio::Reader*, std::uint32_t*);
 };
 
 const std::int8_t ESDescrTag = 0x03;
diff --git a/include/shiguredo/mp4/box/iods.hpp b/include/shiguredo/mp4/box/iods.hpp
index 2eb4b21..59b5fc3 100644
--- a/include/shiguredo/mp4/box/iods.hpp
+++ b/include/shiguredo/mp4/box/iods.hpp
@@ -39,6 +39,7 @@ class Iods : public FullBox {
  private:
   std::uint8_t m_type_tag;
   std::uint32_t m_descriptor_length;
+  std::uint8_t m_descriptor_length_size = 4;  // number of bytes of the length field
   std::uint16_t m_OD_ID;
   std::uint8_t m_OD_profile_level;
   std::uint8_t m_scene_profile_level;
diff --git a/src/box/esds.cpp b/src/box/esds.cpp
index 009eb29..d268ec9 100644
--- a/src/box/esds.cpp
+++ b/src/box/esds.cpp
@@ -22,6 +22,15 @@
 
 namespace shiguredo::mp4::box {
 
+std::uint64_t Descriptor::readLength(bitio::Reader* reader, std::uint32_t* length) {
+  const auto rbits = bitio::read_uvarint<std::uint32_t>(reader, length);
+  if (rbits > 4 * 8) {
+    throw std::runtime_error(fmt::format("Descriptor::readLength(): length field is too long: {} bits", rbits));
+  }
+  m_length_size = static_cast<std::uint8_t>(rbits / 8);
+  return rbits;
+}
+
 ESDescriptor::ESDescriptor(const ESDescriptorParameters& params)
     : m_sub_descriptors_size(params.sub_descriptors_size),
       m_ESID(params.ESID),
@@ -41,7 +50,7 @@ ESDescriptor::ESDescriptor() {
 
 std::uint64_t ESDescriptor::writeData(bitio::Writer* writer) const {
   auto wbits = bitio::write_int<std::int8_t>(writer, m_tag);
-  wbits += bitio::write_uvarint<std::uint32_t>(writer, getDataSizeWithSubDescriptors());
+  wbits += bitio::write_uvarint<std::uint32_t>(writer, getDataSizeWithSubDescriptors(), m_length_size);
   wbits += bitio::write_uint<std::uint16_t>(writer, m_ESID);
   wbits += write_bool(writer, m_stream_dependence_flag);
   wbits += write_bool(writer, m_url_flag);
@@ -66,7 +75,7 @@ std::uint64_t ESDescriptor::writeData(bitio::Writer* writer) const {
 }
 
 std::uint64_t ESDescriptor::getSize() const {
-  return 1 + bitio::uvarint_size<std::uint32_t>(getDataSize()) + getDataSize();
+  return 1 + m_length_size + getDataSize();
 }
 
 std::uint32_t ESDescriptor::getDataSizeWithSubDescriptors() const {
@@ -96,7 +105,7 @@ std::uint32_t ESDescriptor::getDataSize() const {
 
 std::uint64_t ESDescriptor::readData(bitio::Reader* reader) {
   std::uint32_t data_size_with_sub_descriptors;
-  auto rbits = bitio::read_uvarint<std::uint32_t>(reader, &data_size_with_sub_descriptors);
+  auto rbits = readLength(reader, &data_size_with_sub_descriptors);
   rbits += bitio::read_uint<std::uint16_t>(reader, &m_ESID);
   rbits += read_bool(reader, &m_stream_dependence_flag);
   rbits += read_bool(reader, &m_url_flag);
@@ -161,7 +170,7 @@ DecoderConfigDescriptor::DecoderConfigDescriptor(const DecoderConfigDescriptorPa
 
 std::uint64_t DecoderConfigDescriptor::writeData(bitio::Writer* writer) const {
   auto wbits = bitio::write_int<std::int8_t>(writer, m_tag);
-  wbits += bitio::write_uvarint<std::uint32_t>(writer, getDataSizeWithSubDescriptors());
+  wbits += bitio::write_uvarint<std::uint32_t>(writer, getDataSizeWithSubDescriptors(), m_length_size);
   wbits += bitio::write_uint<std::uint8_t>(writer, m_object_type_indication);
   wbits += bitio::write_uint<std::int8_t>(writer, m_stream_type, 6);
   wbits += write_bool(writer, m_upstream);
@@ -173,7 +182,7 @@ std::uint64_t DecoderConfigDescriptor::writeData(bitio::Writer* writer) const {
 }
 
 std::uint64_t DecoderConfigDescriptor::getSize() const {
-  return 1 + getDataSize() + bitio::uvarint_size<std::uint32_t>(getDataSize());
+  return 1 + getDataSize() + m_length_size;
 }
 
 std::uint32_t DecoderConfigDescriptor::getDataSizeWithSubDescriptors() const {
@@ -191,7 +200,7 @@ std::uint32_t DecoderConfigDescriptor::getDataSize() const {
 
 std::uint64_t DecoderConfigDescriptor::readData(bitio::Reader* reader) {
   std::uint32_t data_size_with_sub_descriptors;
-  auto rbits = bitio::read_uvarint<std::uint32_t>(reader, &data_size_with_sub_descriptors);
+  auto rbits = readLength(reader, &data_size_with_sub_descriptors);
   rbits += bitio::read_uint<std::uint8_t>(reader, &m_object_type_indication);
   rbits += bitio::read_uint<std::int8_t>(reader, &m_stream_type, 6);
   rbits += read_bool(reader, &m_upstream);
@@ -225,12 +234,12 @@ DecSpecificInfo::DecSpecificInfo(const DecSpecificInfoParameters& params) : m_da
 
 std::uint64_t DecSpecificInfo::writeData(bitio::Writer* writer) const {
   auto wbits = bitio::write_int<std::int8_t>(writer, m_tag);
-  wbits += bitio::write_uvarint<std::uint32_t>(writer, static_cast<std::uint32_t>(std::size(m_data)));
+  wbits += bitio::write_uvarint<std::uint32_t>(writer, static_cast<std::uint32_t>(std::size(m_data)), m_length_size);
   return wbits + bitio::write_vector_uint<std::uint8_t>(writer, m_data);
 }
 
 std::uint64_t DecSpecificInfo::getSize() const {
-  return 1 + bitio::uvarint_size<std::uint32_t>(getDataSize()) + std::size(m_data);
+  return 1 + m_length_size + std::size(m_data);
 }
 
 std::uint32_t DecSpecificInfo::getDataSize() const {
@@ -243,7 +252,7 @@ std::uint32_t DecSpecificInfo::getDataSizeWithSubDescriptors() const {
 
 std::uint64_t DecSpecificInfo::readData(bitio::Reader* reader) {
   std::uint32_t size;
-  auto rbits = bitio::read_uvarint<std::uint32_t>(reader, &size);
+  auto rbits = readLength(reader, &size);
   return rbits + bitio::read_vector_uint<std::uint8_t>(reader, size, &m_data);
 }
 
@@ -261,12 +270,12 @@ SLConfigDescr::SLConfigDescr(const SLConfigDescrParameters& params) : m_data(par
 
 std::uint64_t SLConfigDescr::writeData(bitio::Writer* writer) const {
   auto wbits = bitio::write_int<std::int8_t>(writer, m_tag);
-  wbits += bitio::write_uvarint<std::uint32_t>(writer, static_cast<std::uint32_t>(std::size(m_data)));
+  wbits += bitio::write_uvarint<std::uint32_t>(writer, static_cast<std::uint32_t>(std::size(m_data)), m_length_size);
   return wbits + bitio::write_vector_uint<std::uint8_t>(writer, m_data);
 }
 
 std::uint64_t SLConfigDescr::getSize() const {
-  return 1 + bitio::uvarint_size<std::uint32_t>(getDataSize()) + std::size(m_data);
+  return 1 + m_length_size + std::size(m_data);
 }
 
 std::uint32_t SLConfigDescr::getDataSize() const {
@@ -279,7 +288,7 @@ std::uint32_t SLConfigDescr::getDataSizeWithSubDescriptors() const {
 
 std::uint64_t SLConfigDescr::readData(bitio::Reader* reader) {
   std::uint32_t size;
-  auto rbits = bitio::read_uvarint<std::uint32_t>(reader, &size);
+  auto rbits = readLength(reader, &size);
   return rbits + bitio::read_vector_uint<std::uint8_t>(reader, size, &m_data);
 }
 
diff --git a/src/box/iods.cpp b/src/box/iods.cpp
index a13c484..589046d 100644
--- a/src/box/iods.cpp
+++ b/src/box/iods.cpp
@@ -52,7 +52,7 @@ std::uint64_t Iods::writeData(std::ostream& os) const {
   bitio::Writer writer(os);
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_type_tag);
-  wbits += bitio::write_uvarint<std::uint32_t>(&writer, m_descriptor_length);
+  wbits += bitio::write_uvarint<std::uint32_t>(&writer, m_descriptor_length, m_descriptor_length_size);
   wbits += bitio::write_uint<std::uint16_t>(&writer, m_OD_ID);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_OD_profile_level);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_scene_profile_level);
@@ -63,14 +63,20 @@ std::uint64_t Iods::writeData(std::ostream& os) const {
 }
 
 std::uint64_t Iods::getDataSize() const {
-  return 12 + bitio::uvarint_size(m_descriptor_length) + std::size(m_sub_descriptors);
+  return 12 + m_descriptor_length_size + std::size(m_sub_descriptors);
 }
 
 std::uint64_t Iods::readData(std::istream& is) {
   bitio::Reader reader(is);
   std::uint64_t rbits = readVersionAndFlag(&reader);
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_type_tag);
-  rbits += bitio::read_uvarint<std::uint32_t>(&reader, &m_descriptor_length);
+  const auto length_rbits = bitio::read_uvarint<std::uint32_t>(&reader, &m_descriptor_length);
+  if (length_rbits > 4 * 8) {
+    throw std::runtime_error(
+        fmt::format("Iods::readData(): descriptor_length field is too long: {} bits", length_rbits));
+  }
+  m_descriptor_length_size = static_cast<std::uint8_t>(length_rbits / 8);
+  rbits += length_rbits;
   rbits += bitio::read_uint<std::uint16_t>(&reader, &m_OD_ID);
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_OD_profile_level);
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_scene_profile_level);
-- 
2.43.0


From 30a85cd7275126e289b3c9c84cd3b7da7c8f49e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 25/61] fix: sgpd dropped the entries of other grouping types
 and had them read as boxes

---
 include/shiguredo/mp4/box/sgpd.hpp | 5 +++--
 src/box/sgpd.cpp                   | 8 +++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/shiguredo/mp4/box/sgpd.hpp b/include/shiguredo/mp4/box/sgpd.hpp
index fff5755..fc1c646 100644
--- a/include/shiguredo/mp4/box/sgpd.hpp
+++ b/include/shiguredo/mp4/box/sgpd.hpp
@@ -162,12 +162,13 @@ class Sgpd : public FullBox {
 
  private:
   GroupingType m_grouping_type;
-  std::uint32_t m_default_length;
-  std::uint32_t m_default_sample_description_index;
+  std::uint32_t m_default_length = 0;
+  std::uint32_t m_default_sample_description_index = 0;
   std::vector<RollDistance> m_roll_distances;
   std::vector<AlternativeStartupEntry> m_alternative_startup_entries;
   std::vector<VisualRandomAccessEntry> m_visual_random_access_entries;
   std::vector<TemporalLevelEntry> m_temporal_level_entries;
+  std::vector<std::uint8_t> m_unknown = {};  // entry count and entries of other grouping types
 
   bool noDefaultLength() const;
 };
diff --git a/src/box/sgpd.cpp b/src/box/sgpd.cpp
index cd94b3e..2120ecf 100644
--- a/src/box/sgpd.cpp
+++ b/src/box/sgpd.cpp
@@ -19,6 +19,7 @@
 #include "shiguredo/mp4/bitio/writer.hpp"
 #include "shiguredo/mp4/box_type.hpp"
 #include "shiguredo/mp4/grouping_type.hpp"
+#include "shiguredo/mp4/stream/stream.hpp"
 
 namespace shiguredo::mp4::box {
 
@@ -138,7 +139,7 @@ std::uint64_t Sgpd::writeData(std::ostream& os) const {
                              [&writer](const auto a, auto e) { return a + e.writeData(&writer); });
     return wbits;
   }
-  return wbits;
+  return wbits + bitio::write_vector_uint<std::uint8_t>(&writer, m_unknown);
 }
 
 std::uint64_t Sgpd::getDataSize() const {
@@ -158,7 +159,7 @@ std::uint64_t Sgpd::getDataSize() const {
     return 16 + std::accumulate(std::begin(m_temporal_level_entries), std::end(m_temporal_level_entries), 0UL,
                                 [](const auto a, const auto& e) { return a + e.getSize(); });
   }
-  return 12;
+  return 12 + std::size(m_unknown);
 }
 
 std::uint64_t Sgpd::readData(std::istream& is) {
@@ -211,7 +212,8 @@ std::uint64_t Sgpd::readData(std::istream& is) {
     }
     return rbits;
   }
-  return rbits;
+  const auto offset_to_end = static_cast<std::size_t>(shiguredo::mp4::stream::get_istream_offset_to_end(is));
+  return rbits + bitio::read_vector_uint<std::uint8_t>(&reader, offset_to_end, &m_unknown);
 }
 
 bool Sgpd::noDefaultLength() const {
-- 
2.43.0


From ec4a66a6c83465efd970dbc7965b5aaea3377bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 26/61] fix: sample entries inside wave were written back with
 fields they do not have

---
 include/shiguredo/mp4/box/sample_entry.hpp | 4 ++--
 src/box/sample_entry.cpp                   | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/shiguredo/mp4/box/sample_entry.hpp b/include/shiguredo/mp4/box/sample_entry.hpp
index 2a7a91a..b4dcb98 100644
--- a/include/shiguredo/mp4/box/sample_entry.hpp
+++ b/include/shiguredo/mp4/box/sample_entry.hpp
@@ -106,9 +106,9 @@ class AudioSampleEntry : public SampleEntry {
   std::uint16_t m_pre_defined;
   std::uint16_t m_reserved3 = 0;
   std::uint32_t m_sample_rate;
-  bool m_is_quick_time_compatible;
+  bool m_is_quick_time_compatible = false;
   std::vector<std::uint8_t> m_quick_time_data;
-  bool m_under_wave;
+  bool m_under_wave = false;
 
   void checkLengthOfQuickTimeData(std::uint64_t size) const;
   std::uint64_t getLengthOfQuickTimeData(std::uint64_t size) const;
diff --git a/src/box/sample_entry.cpp b/src/box/sample_entry.cpp
index 8e67cfc..983d5db 100644
--- a/src/box/sample_entry.cpp
+++ b/src/box/sample_entry.cpp
@@ -149,6 +149,9 @@ std::string AudioSampleEntry::toStringOnlyData() const {
 
 std::uint64_t AudioSampleEntry::writeData(std::ostream& os) const {
   bitio::Writer writer(os);
+  if (m_under_wave) {
+    return bitio::write_vector_uint<std::uint8_t>(&writer, m_quick_time_data);
+  }
   std::uint64_t wbits = writeReservedAndDataReferenceIndex(&writer);
   wbits += bitio::write_uint<std::uint16_t>(&writer, m_entry_version);
   for (const auto r : m_reserved2) {
@@ -166,6 +169,9 @@ std::uint64_t AudioSampleEntry::writeData(std::ostream& os) const {
 }
 
 std::uint64_t AudioSampleEntry::getDataSize() const {
+  if (m_under_wave) {
+    return std::size(m_quick_time_data);
+  }
   std::uint64_t size = 8 + 8 + 8 + 4;
   if (!m_is_quick_time_compatible) {
     return size;
-- 
2.43.0


From c542b9dcb2d2b33253c06a278b16cfc3909ce685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:39 +0000
Subject: [PATCH 27/61] fix: meta without version and flags lost the first four
 bytes of its boxes

---
 include/shiguredo/mp4/box/meta.hpp |  4 ++++
 src/box/meta.cpp                   | 13 +++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/include/shiguredo/mp4/box/meta.hpp b/include/shiguredo/mp4/box/meta.hpp
index 8983525..9f0ad79 100644
--- a/include/shiguredo/mp4/box/meta.hpp
+++ b/include/shiguredo/mp4/box/meta.hpp
@@ -18,7 +18,11 @@ class Meta : public FullBox {
   std::string toStringOnlyData() const override;
 
   std::uint64_t writeData(std::ostream&) const override;
+  std::uint64_t getDataSize() const override;
   std::uint64_t readData(std::istream&) override;
+
+ private:
+  bool m_no_version_and_flags = false;  // meta of QuickTime, which holds boxes only
 };
 
 }  // namespace shiguredo::mp4::box
diff --git a/src/box/meta.cpp b/src/box/meta.cpp
index 5c91881..c88142e 100644
--- a/src/box/meta.cpp
+++ b/src/box/meta.cpp
@@ -20,21 +20,34 @@ Meta::Meta() {
 }
 
 std::string Meta::toStringOnlyData() const {
+  if (m_no_version_and_flags) {
+    return "";
+  }
   return getVersionAndFlagsString();
 }
 
 std::uint64_t Meta::writeData(std::ostream& os) const {
+  if (m_no_version_and_flags) {
+    return 0;
+  }
   bitio::Writer writer(os);
   return writeVersionAndFlag(&writer);
 }
 
+std::uint64_t Meta::getDataSize() const {
+  return m_no_version_and_flags ? 0 : FullBox::getDataSize();
+}
+
 std::uint64_t Meta::readData(std::istream& is) {
   bitio::Reader reader(is);
   std::uint64_t rbits = readVersionAndFlag(&reader);
   if ((m_version | m_flags[0] | m_flags[1] | m_flags[2]) != 0) {
     m_version = 0;
     m_flags = {0, 0, 0};
+    m_no_version_and_flags = true;
+    return 0;
   }
+  m_no_version_and_flags = false;
 
   return rbits;
 }
-- 
2.43.0


From 7cb59841daece0481b9771bb115ad066fdb75953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 28/61] fix: boxes running past the end of their parent were
 accepted

---
 include/shiguredo/mp4/reader/reader.hpp |  2 +-
 src/reader/reader.cpp                   | 21 ++++++++++++++-------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/shiguredo/mp4/reader/reader.hpp b/include/shiguredo/mp4/reader/reader.hpp
index 68aaf3c..78cb35d 100644
--- a/include/shiguredo/mp4/reader/reader.hpp
+++ b/include/shiguredo/mp4/reader/reader.hpp
@@ -26,7 +26,7 @@ class SimpleReader {
   std::vector<BoxInfo*> m_boxes;
   std::uint64_t m_total_size;
 
-  std::uint64_t readBox(BoxInfo*);
+  std::uint64_t readBox(BoxInfo*, const std::uint64_t);
 };
 
 }  // namespace shiguredo::mp4::reader
diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index 55d4433..f6d4eb7 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -37,22 +37,25 @@ SimpleReader::~SimpleReader() {
 void SimpleReader::read() {
   std::uint64_t size = 0;
   while (size < m_total_size) {
-    size += readBox(nullptr);
+    size += readBox(nullptr, m_total_size);
   }
   for (BoxInfo* i : m_boxes) {
     std::cout << i->toString() << std::endl;
   }
 }
 
-std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
+std::uint64_t SimpleReader::readBox(BoxInfo* parent, const std::uint64_t end) {
   BoxHeader* header = read_box_header(m_is);
   header->seekToData(m_is);
   std::stringstream ss;
-  const auto remaining_size = m_total_size - header->getOffset() - header->getHeaderSize();
-  if (header->getDataSize() > remaining_size) {
+  if (header->getSize() < header->getHeaderSize()) {
+    throw std::runtime_error(fmt::format("corrupt file? box size({}) is less than header size({})", header->getSize(),
+                                         header->getHeaderSize()));
+  }
+  if (header->getOffset() > end || header->getSize() > end - header->getOffset()) {
     spdlog::trace("SimpleReader::readBox(): corrupt file? Header={}", header->toString());
-    throw std::runtime_error(fmt::format("corrupt file? box data size({}) is greater than remaining_size({})",
-                                         header->getDataSize(), remaining_size));
+    throw std::runtime_error(fmt::format("corrupt file? box of size({}) at offset({}) runs past the end({})",
+                                         header->getSize(), header->getOffset(), end));
   }
   std::copy_n(std::istreambuf_iterator<char>(m_is), header->getDataSize(), std::ostreambuf_iterator<char>(ss));
 
@@ -69,6 +72,10 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
 
   const auto rbits = box->readData(ss);
   std::uint64_t rbytes = rbits / 8;
+  if (rbytes > header->getDataSize()) {
+    throw std::runtime_error(
+        fmt::format("SimpleReader::readBox(): read({}) beyond the data size({})", rbytes, header->getDataSize()));
+  }
   m_is.seekg(static_cast<std::streamoff>(header->getOffset() + header->getHeaderSize() + rbytes));
   if (!m_is.good()) {
     throw std::runtime_error(
@@ -76,7 +83,7 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
   }
 
   while (header->getDataSize() > rbytes) {
-    rbytes += readBox(info);
+    rbytes += readBox(info, header->getOffset() + header->getSize());
   }
   return header->getSize();
 }
-- 
2.43.0


From 2dc2f87bc4deda6931c8c4161707e53b2b9e422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 29/61] fix: deeply nested boxes exhausted the stack and memory

---
 src/reader/reader.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index f6d4eb7..78c2d69 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -4,6 +4,7 @@
 #include <spdlog/spdlog.h>
 
 #include <algorithm>
+#include <cstddef>
 #include <cstdint>
 #include <iostream>
 #include <istream>
@@ -20,6 +21,9 @@
 
 namespace shiguredo::mp4::reader {
 
+// boxes of real files are nested about ten levels deep; the limit keeps the recursion off the end of the stack
+constexpr std::size_t MAX_NESTING_LEVEL = 256;
+
 SimpleReader::SimpleReader(std::istream& t_is) : m_is(t_is) {
   register_box_map(&m_box_map);
   m_is.seekg(0, std::ios_base::end);
@@ -45,6 +49,9 @@ void SimpleReader::read() {
 }
 
 std::uint64_t SimpleReader::readBox(BoxInfo* parent, const std::uint64_t end) {
+  if (parent && std::size(parent->getPath()) >= MAX_NESTING_LEVEL) {
+    throw std::runtime_error(fmt::format("corrupt file? boxes are nested deeper than {} levels", MAX_NESTING_LEVEL));
+  }
   BoxHeader* header = read_box_header(m_is);
   header->seekToData(m_is);
   std::stringstream ss;
@@ -76,6 +83,7 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent, const std::uint64_t end) {
     throw std::runtime_error(
         fmt::format("SimpleReader::readBox(): read({}) beyond the data size({})", rbytes, header->getDataSize()));
   }
+  ss = std::stringstream();  // not kept while the boxes inside are read
   m_is.seekg(static_cast<std::streamoff>(header->getOffset() + header->getHeaderSize() + rbytes));
   if (!m_is.good()) {
     throw std::runtime_error(
-- 
2.43.0


From 963083a4bd516da4e28f624cce76359d26c206e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 30/61] fix: read_box_header() made up a header when called
 past the end of the stream

---
 src/box_header.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/box_header.cpp b/src/box_header.cpp
index f3932fc..49aaed0 100644
--- a/src/box_header.cpp
+++ b/src/box_header.cpp
@@ -28,7 +28,7 @@ BoxHeader* read_box_header(std::istream& is) {
   if (!is.good()) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
-  if ((offset_eof - offset) < Constants::SMALL_HEADER_SIZE) {
+  if (offset > offset_eof || (offset_eof - offset) < Constants::SMALL_HEADER_SIZE) {
     throw std::invalid_argument(
         fmt::format("read_box_header(): stream has not enough data (1): {} {}", offset_eof, offset));
   }
-- 
2.43.0


From e7a00b6354b37bf1ae24e43f91476fb85cad703a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 31/61] fix: composition offsets of version 0 from 2^31 lost
 their top bit and came back negative

---
 include/shiguredo/mp4/box/ctts.hpp |  2 +-
 include/shiguredo/mp4/box/trun.hpp |  2 +-
 src/box/ctts.cpp                   | 12 ++++++++----
 src/box/trun.cpp                   | 13 +++++++++----
 4 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/include/shiguredo/mp4/box/ctts.hpp b/include/shiguredo/mp4/box/ctts.hpp
index 716bb7f..187e733 100644
--- a/include/shiguredo/mp4/box/ctts.hpp
+++ b/include/shiguredo/mp4/box/ctts.hpp
@@ -26,7 +26,7 @@ class CttsEntry {
 
   std::string toString() const;
   std::uint64_t writeData(bitio::Writer*) const;
-  std::uint64_t readData(bitio::Reader*);
+  std::uint64_t readData(bitio::Reader*, const std::uint8_t version);
 
  private:
   std::uint32_t m_sample_count;
diff --git a/include/shiguredo/mp4/box/trun.hpp b/include/shiguredo/mp4/box/trun.hpp
index d9c7465..a1102c7 100644
--- a/include/shiguredo/mp4/box/trun.hpp
+++ b/include/shiguredo/mp4/box/trun.hpp
@@ -32,7 +32,7 @@ class TrunEntry {
   std::string toString(const std::uint32_t) const;
   std::uint64_t writeData(bitio::Writer*, const std::uint32_t) const;
   std::uint64_t getSize(const std::uint32_t) const;
-  std::uint64_t readData(bitio::Reader*, const std::uint32_t);
+  std::uint64_t readData(bitio::Reader*, const std::uint8_t version, const std::uint32_t);
 
  private:
   std::uint32_t m_sample_duration;
diff --git a/src/box/ctts.cpp b/src/box/ctts.cpp
index db786a4..f8958d7 100644
--- a/src/box/ctts.cpp
+++ b/src/box/ctts.cpp
@@ -29,13 +29,17 @@ std::string CttsEntry::toString() const {
 
 std::uint64_t CttsEntry::writeData(bitio::Writer* writer) const {
   std::uint64_t wbits = bitio::write_uint<std::uint32_t>(writer, m_sample_count);
-  wbits += bitio::write_int<std::int64_t>(writer, m_sample_offset, 32);
+  wbits += bitio::write_uint<std::uint32_t>(writer, static_cast<std::uint32_t>(m_sample_offset));
   return wbits;
 }
 
-std::uint64_t CttsEntry::readData(bitio::Reader* reader) {
+std::uint64_t CttsEntry::readData(bitio::Reader* reader, const std::uint8_t version) {
   std::uint64_t rbits = bitio::read_uint<std::uint32_t>(reader, &m_sample_count);
-  rbits += bitio::read_int<std::int64_t>(reader, &m_sample_offset, 32);
+  std::uint32_t sample_offset;
+  rbits += bitio::read_uint<std::uint32_t>(reader, &sample_offset);
+  // unsigned in version 0
+  m_sample_offset = version == 0 ? static_cast<std::int64_t>(sample_offset)
+                                 : static_cast<std::int64_t>(static_cast<std::int32_t>(sample_offset));
   return rbits;
 }
 
@@ -79,7 +83,7 @@ std::uint64_t Ctts::readData(std::istream& is) {
   m_entries.clear();
   for (std::size_t i = 0; i < entry_count; ++i) {
     m_entries.emplace_back();
-    rbits += m_entries.back().readData(&reader);
+    rbits += m_entries.back().readData(&reader, m_version);
   }
   return rbits;
 }
diff --git a/src/box/trun.cpp b/src/box/trun.cpp
index 84d3362..32b4bcb 100644
--- a/src/box/trun.cpp
+++ b/src/box/trun.cpp
@@ -102,7 +102,7 @@ std::uint64_t Trun::readData(std::istream& is) {
   }
   for (std::size_t i = 0; i < m_sample_count; ++i) {
     m_entries.emplace_back();
-    rbits += m_entries.back().readData(&reader, flags);
+    rbits += m_entries.back().readData(&reader, m_version, flags);
   }
   return rbits;
 }
@@ -144,7 +144,7 @@ std::uint64_t TrunEntry::writeData(bitio::Writer* writer, const std::uint32_t fl
     wbits += bitio::write_uint<std::uint32_t>(writer, m_sample_flags);
   }
   if (flags & 0x800) {
-    wbits += bitio::write_int<std::int64_t>(writer, m_sample_composition_time_offset, 32);
+    wbits += bitio::write_uint<std::uint32_t>(writer, static_cast<std::uint32_t>(m_sample_composition_time_offset));
   }
   return wbits;
 }
@@ -166,7 +166,7 @@ std::uint64_t TrunEntry::getSize(const std::uint32_t flags) const {
   return size;
 }
 
-std::uint64_t TrunEntry::readData(bitio::Reader* reader, const std::uint32_t flags) {
+std::uint64_t TrunEntry::readData(bitio::Reader* reader, const std::uint8_t version, const std::uint32_t flags) {
   std::uint64_t rbits = 0;
   if (flags & 0x100) {
     rbits += bitio::read_uint<std::uint32_t>(reader, &m_sample_duration);
@@ -178,7 +178,12 @@ std::uint64_t TrunEntry::readData(bitio::Reader* reader, const std::uint32_t fla
     rbits += bitio::read_uint<std::uint32_t>(reader, &m_sample_flags);
   }
   if (flags & 0x800) {
-    rbits += bitio::read_int<std::int64_t>(reader, &m_sample_composition_time_offset, 32);
+    std::uint32_t sample_composition_time_offset;
+    rbits += bitio::read_uint<std::uint32_t>(reader, &sample_composition_time_offset);
+    // unsigned in version 0
+    m_sample_composition_time_offset =
+        version == 0 ? static_cast<std::int64_t>(sample_composition_time_offset)
+                     : static_cast<std::int64_t>(static_cast<std::int32_t>(sample_composition_time_offset));
   }
   return rbits;
 }
-- 
2.43.0


From 1b157efeec474483a5836b11462ab827b17eeb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:58 +0000
Subject: [PATCH 32/61] fix: vpcC read into a used instance kept the codec
 initialization data of an earlier read

---
 src/box/vpc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/box/vpc.cpp b/src/box/vpc.cpp
index dae7534..94c96e6 100644
--- a/src/box/vpc.cpp
+++ b/src/box/vpc.cpp
@@ -69,6 +69,7 @@ std::uint64_t VPCodecConfiguration::readData(std::istream& is) {
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_colour_primaries);
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_transfer_characteristics);
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_matrix_coefficients);
+  m_codec_initialization_data.clear();
   if (m_version == 0) {
     return rbits;
   }
-- 
2.43.0


From eb86314671912ba1cfb7e570917859af5a32d1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 33/61] fix: sidx took memory for as many references as the
 data announced

---
 src/box/sidx.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/box/sidx.cpp b/src/box/sidx.cpp
index d9f9f39..01726d5 100644
--- a/src/box/sidx.cpp
+++ b/src/box/sidx.cpp
@@ -79,9 +79,10 @@ std::uint64_t Sidx::readData(std::istream& is) {
   rbits += bitio::read_uint<std::uint16_t>(&reader, &m_reserved);
   std::uint16_t size;
   rbits += bitio::read_uint<std::uint16_t>(&reader, &size);
-  m_references.resize(size);
+  m_references.clear();
   for (std::size_t i = 0; i < size; ++i) {
-    rbits += m_references[i].readData(&reader);
+    m_references.emplace_back();
+    rbits += m_references.back().readData(&reader);
   }
 
   return rbits;
-- 
2.43.0


From e2268225656c104bbba239ba7c1f7a5dbead888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 34/61] fix: read_string() read past limits that are not whole
 bytes

---
 src/bitio/bitio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bitio/bitio.cpp b/src/bitio/bitio.cpp
index 697c417..957edcc 100644
--- a/src/bitio/bitio.cpp
+++ b/src/bitio/bitio.cpp
@@ -32,7 +32,7 @@ std::uint64_t write_string(Writer* writer, const std::string& str) {
 std::uint64_t read_string(Reader* reader, std::string* str, const std::uint64_t max_rbits) {
   std::uint64_t rbits = 0;
   str->clear();
-  while (rbits < max_rbits) {
+  while (rbits + 8 <= max_rbits) {
     std::vector<std::uint8_t> v;
     reader->readBits(&v, 8);
     rbits += 8;
-- 
2.43.0


From f48420fe9901c8797021ceb9ae320ddb41afcb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 35/61] fix: read_pascal_string() falling back to read_string()
 lost the bits read before

---
 src/bitio/bitio.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bitio/bitio.cpp b/src/bitio/bitio.cpp
index 957edcc..2221644 100644
--- a/src/bitio/bitio.cpp
+++ b/src/bitio/bitio.cpp
@@ -73,6 +73,7 @@ std::uint64_t read_pascal_string(Reader* reader, std::string* str, const std::ui
     throw std::runtime_error(
         fmt::format("bitio::read_pascal_string(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
+  const auto octet = reader->getOctet();
 
   std::vector<std::uint8_t> v;
   reader->readBits(&v, 8);
@@ -82,6 +83,7 @@ std::uint64_t read_pascal_string(Reader* reader, std::string* str, const std::ui
       throw std::runtime_error(
           fmt::format("bitio::read_pascal_string(): istream::seekg() failed: rdstate={}", is.rdstate()));
     }
+    reader->setOctet(octet);
     return read_string(reader, str, max_rbits);
   }
 
-- 
2.43.0


From a6a47ca3dd70c743239810c27781b2af44273dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 36/61] fix: the reader still kept a copy of the data of every
 nesting level

---
 src/reader/reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index 78c2d69..d6e35df 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -83,7 +83,7 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent, const std::uint64_t end) {
     throw std::runtime_error(
         fmt::format("SimpleReader::readBox(): read({}) beyond the data size({})", rbytes, header->getDataSize()));
   }
-  ss = std::stringstream();  // not kept while the boxes inside are read
+  std::stringstream().swap(ss);  // releases the data (an assignment would keep it) while the boxes inside are read
   m_is.seekg(static_cast<std::streamoff>(header->getOffset() + header->getHeaderSize() + rbytes));
   if (!m_is.good()) {
     throw std::runtime_error(
-- 
2.43.0


From 4e63887a78321380eedcbdef69072a4c4f52ee86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 37/61] fix: line breaks in texts broke the dump's one line per
 box

---
 src/box_info.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/box_info.cpp b/src/box_info.cpp
index e0b10ca..a5bca42 100644
--- a/src/box_info.cpp
+++ b/src/box_info.cpp
@@ -53,15 +53,30 @@ void BoxInfo::addLeaf(BoxInfo* info) {
   m_leafs.push_back(info);
 }
 
+// names and other texts may hold line breaks, which would break the output of one line per box
+static std::string escape_line_breaks(const std::string& str) {
+  std::string escaped;
+  for (const char c : str) {
+    if (c == '\n') {
+      escaped += "\\n";
+    } else if (c == '\r') {
+      escaped += "\\r";
+    } else {
+      escaped += c;
+    }
+  }
+  return escaped;
+}
+
 std::string BoxInfo::toString() const {
   std::vector<std::string> leafs;
   std::transform(std::begin(m_leafs), std::end(m_leafs), std::back_inserter(leafs),
                  [](const BoxInfo* info) { return fmt::format("{}", info->toString()); });
   const std::string pad((std::size(m_path) - 1) * 2, ' ');
   if (std::empty(leafs)) {
-    return fmt::format("{}{}", pad, m_box->toString());
+    return fmt::format("{}{}", pad, escape_line_breaks(m_box->toString()));
   }
-  return fmt::format("{}{}\n{}", pad, m_box->toString(), fmt::join(leafs, "\n"));
+  return fmt::format("{}{}\n{}", pad, escape_line_breaks(m_box->toString()), fmt::join(leafs, "\n"));
 }
 
 std::uint64_t BoxInfo::adjustOffsetAndSize(const std::uint64_t offset) {
-- 
2.43.0


From 535af6ab3242e4eb91e5c40d0e82a34ac77051f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:50 +0000
Subject: [PATCH 38/61] fix: SimpleReader loses the header of a box it refuses

---
 src/reader/reader.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index d6e35df..a848ecc 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -9,6 +9,7 @@
 #include <iostream>
 #include <istream>
 #include <iterator>
+#include <memory>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -52,7 +53,8 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent, const std::uint64_t end) {
   if (parent && std::size(parent->getPath()) >= MAX_NESTING_LEVEL) {
     throw std::runtime_error(fmt::format("corrupt file? boxes are nested deeper than {} levels", MAX_NESTING_LEVEL));
   }
-  BoxHeader* header = read_box_header(m_is);
+  std::unique_ptr<BoxHeader> owned_header(read_box_header(m_is));
+  BoxHeader* const header = owned_header.get();
   header->seekToData(m_is);
   std::stringstream ss;
   if (header->getSize() < header->getHeaderSize()) {
@@ -72,6 +74,7 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent, const std::uint64_t end) {
   if (box == nullptr) {
     throw std::runtime_error("SimpleReader::readBox(): BoxMap::getBoxInstance() returns nullptr");
   }
+  owned_header.release();  // the box owns it now
   BoxInfo* info = new BoxInfo({.parent = parent, .box = box});
   if (!parent) {
     m_boxes.push_back(info);
-- 
2.43.0


From 26397ecfda24c9ad9a0da4a98a871e37e3411997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:50 +0000
Subject: [PATCH 39/61] fix: the writers lose the ftyp and free boxes when
 writing them fails

---
 src/writer/faststart_writer.cpp | 13 ++++++-------
 src/writer/simple_writer.cpp    | 18 ++++++++----------
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index ca3516b..fdfc10a 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -65,12 +65,11 @@ void FaststartWriter::recreateMoovBoxInfo() {
 }
 
 void FaststartWriter::writeFtypBox() {
-  BoxInfo* ftyp = new BoxInfo({.box = new box::Ftyp(m_ftyp_params)});
+  BoxInfo ftyp({.box = new box::Ftyp(m_ftyp_params)});
 
-  ftyp->adjustOffsetAndSize(0);
-  ftyp->write(m_os);
-  m_ftyp_size = ftyp->getSize();
-  delete ftyp;
+  ftyp.adjustOffsetAndSize(0);
+  ftyp.write(m_os);
+  m_ftyp_size = ftyp.getSize();
 }
 
 void FaststartWriter::writeMdatHeader() {
@@ -153,8 +152,8 @@ void FaststartWriter::copyMdatData() {
   while (!std::feof(m_mdat_fd)) {
     std::size_t size = std::fread(buffer, 1, COPY_MDAT_DATA_BUFFER_SIZE, m_mdat_fd);
     if (std::ferror(m_mdat_fd)) {
-      throw std::runtime_error(fmt::format("FaststartWriter::copyMdatData(): cannot read the intermediate file: {}",
-                                           m_mdat_path.string()));
+      throw std::runtime_error(
+          fmt::format("FaststartWriter::copyMdatData(): cannot read the intermediate file: {}", m_mdat_path.string()));
     }
     m_os.write(buffer, static_cast<std::streamsize>(size));
     if (!m_os.good()) {
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index fd16939..195104b 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -41,12 +41,11 @@ SimpleWriter::SimpleWriter(std::ostream& t_os, const SimpleWriterParameters& par
 }
 
 void SimpleWriter::writeFtypBox() {
-  BoxInfo* ftyp = new BoxInfo({.box = new box::Ftyp(m_ftyp_params)});
+  BoxInfo ftyp({.box = new box::Ftyp(m_ftyp_params)});
 
-  ftyp->adjustOffsetAndSize(0);
-  ftyp->write(m_os);
-  m_ftyp_size = ftyp->getSize();
-  delete ftyp;
+  ftyp.adjustOffsetAndSize(0);
+  ftyp.write(m_os);
+  m_ftyp_size = ftyp.getSize();
 
   m_os.seekp(static_cast<std::streamoff>(m_ftyp_size + Constants::LARGE_HEADER_SIZE), std::ios_base::beg);
   if (!m_os.good()) {
@@ -72,18 +71,17 @@ void SimpleWriter::writeFreeBoxAndMdatHeader() {
           "SimpleWriter::writeFreeBoxAndMdatHeader(): ostream::write() failed: rdstate={}", m_os.rdstate()));
     }
   } else {
-    BoxInfo* free = new BoxInfo({.box = new box::Free()});
-    free->adjustOffsetAndSize(m_ftyp_size);
-    free->write(m_os);
+    BoxInfo free({.box = new box::Free()});
+    free.adjustOffsetAndSize(m_ftyp_size);
+    free.write(m_os);
     if (!m_os.good()) {
       throw std::runtime_error(fmt::format(
           "SimpleWriter::writeFreeBoxAndMdatHeader(): ostream::write() failed: rdstate={}", m_os.rdstate()));
     }
-    BoxHeader mdat({.offset = m_ftyp_size + free->getSize(),
+    BoxHeader mdat({.offset = m_ftyp_size + free.getSize(),
                     .size = m_mdat_data_size + Constants::SMALL_HEADER_SIZE,
                     .header_size = Constants::SMALL_HEADER_SIZE,
                     .type = BoxType("mdat")});
-    delete free;
     mdat.write(m_os);
     if (!m_os.good()) {
       throw std::runtime_error(fmt::format(
-- 
2.43.0


From a055b76aad47b94c73a0e5ce83ee843ee38304b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:50 +0000
Subject: [PATCH 40/61] fix: H264Track loses the data of a sample that cannot
 be written

---
 src/track/h264.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index 5b38440..6d7ea55 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -93,7 +93,7 @@ void H264Track::addData(const std::uint64_t timestamp,
     std::vector<uint8_t> sps_data = {};
     std::vector<uint8_t> pps_data = {};
     std::size_t video_data_size;
-    std::uint8_t* mdat_data;
+    std::vector<std::uint8_t> mdat_data = {};
     switch (nu.header & 0x1f) {
       case 1:
       case 2:
@@ -102,16 +102,15 @@ void H264Track::addData(const std::uint64_t timestamp,
       case 5:
         // VCL
         video_data_size = nu.end - nu.start - nu.start_code_size;
-        mdat_data = new std::uint8_t[video_data_size + 4];
+        mdat_data.resize(video_data_size + 4);
         mdat_data[0] = static_cast<std::uint8_t>(video_data_size >> 24);
         mdat_data[1] = static_cast<std::uint8_t>(video_data_size >> 16);
         mdat_data[2] = static_cast<std::uint8_t>(video_data_size >> 8);
         mdat_data[3] = static_cast<std::uint8_t>(video_data_size & 0xff);
 
-        std::copy_n(data + nu.start + nu.start_code_size, video_data_size, mdat_data + 4);
+        std::copy_n(data + nu.start + nu.start_code_size, video_data_size, std::begin(mdat_data) + 4);
 
-        addMdatData(timestamp, mdat_data, video_data_size + 4, is_key);
-        delete[] mdat_data;
+        addMdatData(timestamp, mdat_data, is_key);
         break;
       case 6:
         // SEI
-- 
2.43.0


From a9f13cb5aad29831722f128189554674939c0768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:06 +0000
Subject: [PATCH 41/61] fix: FaststartWriter leaves the name and the
 intermediate file behind when it cannot open it

---
 src/writer/faststart_writer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index fdfc10a..0b1998e 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -2,6 +2,7 @@
 
 #include <fmt/core.h>
 #include <spdlog/spdlog.h>
+#include <unistd.h>
 
 #include <algorithm>
 #include <chrono>
@@ -30,17 +31,18 @@ FaststartWriter::FaststartWriter(std::ostream& t_os, const FaststartWriterParame
   m_time_from_epoch = time::convert_to_epoch_19040101(
       static_cast<std::uint64_t>(duration_cast<std::chrono::seconds>(p.time_since_epoch()).count()));
 
-  char* mdat_filename = ::strdup(params.mdat_path_templete.c_str());
-  int fd = ::mkstemp(mdat_filename);
+  std::string mdat_filename = params.mdat_path_templete;
+  int fd = ::mkstemp(mdat_filename.data());
   if (fd == -1) {
     throw std::runtime_error("FaststartWriter::FaststartWriter(): cannot open an intermediate file: mkstemp()");
   }
 
   m_mdat_path = mdat_filename;
-  std::free(mdat_filename);
   spdlog::debug("FaststartWriter::FaststartWriter(): m_mdat_path: {}", m_mdat_path.string());
   m_mdat_fd = ::fdopen(fd, "w+");
   if (m_mdat_fd == nullptr) {
+    ::close(fd);
+    ::unlink(mdat_filename.c_str());
     throw std::runtime_error(
         fmt::format("FaststartWriter::FaststartWriter(): cannot open an intermediate file: fdopen(), m_mdat_path={}",
                     m_mdat_path.string()));
-- 
2.43.0


From 4be5a4c4795ef9d6ff053f1ee04ba6516ca36dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:06 +0000
Subject: [PATCH 42/61] fix: FaststartWriter leaves the intermediate file open
 when it is given up before copyMdatData

---
 include/shiguredo/mp4/writer/faststart_writer.hpp |  3 ++-
 src/writer/faststart_writer.cpp                   | 10 +++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/shiguredo/mp4/writer/faststart_writer.hpp b/include/shiguredo/mp4/writer/faststart_writer.hpp
index 4d53a08..ba39108 100644
--- a/include/shiguredo/mp4/writer/faststart_writer.hpp
+++ b/include/shiguredo/mp4/writer/faststart_writer.hpp
@@ -32,6 +32,7 @@ struct FaststartWriterParameters {
 class FaststartWriter : public Writer {
  public:
   FaststartWriter(std::ostream&, const FaststartWriterParameters&);
+  ~FaststartWriter() override;
 
   void writeFtypBox() override;
   void writeMoovBox() override;
@@ -49,7 +50,7 @@ class FaststartWriter : public Writer {
   std::ostream& m_os;
   const box::FtypParameters m_ftyp_params;
   std::filesystem::path m_mdat_path;
-  std::FILE* m_mdat_fd;
+  std::FILE* m_mdat_fd = nullptr;
 
   void setOffsetAndSize() override;
 
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index 0b1998e..be76d52 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -49,6 +49,12 @@ FaststartWriter::FaststartWriter(std::ostream& t_os, const FaststartWriterParame
   }
 }
 
+FaststartWriter::~FaststartWriter() {
+  if (m_mdat_fd != nullptr) {
+    std::fclose(m_mdat_fd);
+  }
+}
+
 void FaststartWriter::recreateMoovBoxInfo() {
   if (m_moov_box_info) {
     delete m_moov_box_info;
@@ -170,7 +176,9 @@ void FaststartWriter::copyMdatData() {
                     m_mdat_data_size, copied_size));
   }
 
-  if (auto ret = std::fclose(m_mdat_fd); ret == EOF) {
+  std::FILE* mdat_fd = m_mdat_fd;
+  m_mdat_fd = nullptr;
+  if (auto ret = std::fclose(mdat_fd); ret == EOF) {
     throw std::runtime_error(
         fmt::format("FaststartWriter::copyMdatData(): cannot close the intermediate file: {}", m_mdat_path.string()));
   }
-- 
2.43.0


From 67e99e92034f3a748884b96eb1066f25fda39cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:06 +0000
Subject: [PATCH 43/61] fix: Box::setHeader loses the header it replaces

---
 src/box.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/box.cpp b/src/box.cpp
index 00068ed..c09bd44 100644
--- a/src/box.cpp
+++ b/src/box.cpp
@@ -58,6 +58,9 @@ std::uint64_t Box::getDataSize() const {
 }
 
 void Box::setHeader(BoxHeader* header) {
+  if (m_header != header) {
+    delete m_header;
+  }
   m_header = header;
 }
 
-- 
2.43.0


From c70ff22fc1951e70e17bf6f1e42e1ec39bb31309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:21 +0000
Subject: [PATCH 44/61] fix: report a failed read of a box header instead of
 going on without its bytes

---
 src/box_header.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/box_header.cpp b/src/box_header.cpp
index 49aaed0..4a2cf87 100644
--- a/src/box_header.cpp
+++ b/src/box_header.cpp
@@ -16,18 +16,20 @@
 namespace shiguredo::mp4 {
 
 BoxHeader* read_box_header(std::istream& is) {
-  const std::uint64_t offset = static_cast<std::uint64_t>(is.tellg());
-  if (!is.good()) {
+  const auto pos = is.tellg();
+  if (!is.good() || pos < 0) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
   is.seekg(0, std::ios_base::end);
   if (!is.good()) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::seekg() failed: rdstate={}", is.rdstate()));
   }
-  const auto offset_eof = static_cast<std::uint64_t>(is.tellg());
-  if (!is.good()) {
+  const auto pos_eof = is.tellg();
+  if (!is.good() || pos_eof < 0) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
+  const auto offset = static_cast<std::uint64_t>(pos);
+  const auto offset_eof = static_cast<std::uint64_t>(pos_eof);
   if (offset > offset_eof || (offset_eof - offset) < Constants::SMALL_HEADER_SIZE) {
     throw std::invalid_argument(
         fmt::format("read_box_header(): stream has not enough data (1): {} {}", offset_eof, offset));
@@ -38,7 +40,10 @@ BoxHeader* read_box_header(std::istream& is) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::seekg() failed: rdstate={}", is.rdstate()));
   }
   std::array<std::uint8_t, 8> buf;
-  std::copy_n(std::istreambuf_iterator<char>(is), 8, std::begin(buf));
+  is.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(std::size(buf)));
+  if (!is.good()) {
+    throw std::runtime_error(fmt::format("read_box_header(): istream::read() failed: rdstate={}", is.rdstate()));
+  }
   std::uint64_t header_size = Constants::SMALL_HEADER_SIZE;
   std::uint64_t size = endian::be_to_uint32(buf[0], buf[1], buf[2], buf[3]);
   BoxType type;
@@ -57,8 +62,10 @@ BoxHeader* read_box_header(std::istream& is) {
     if (!is.good()) {
       throw std::runtime_error(fmt::format("read_box_header(): istream::seekg() failed: rdstate={}", is.rdstate()));
     }
-    std::copy_n(std::istreambuf_iterator<char>(is), Constants::LARGE_HEADER_SIZE - Constants::SMALL_HEADER_SIZE,
-                std::begin(buf));
+    is.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(std::size(buf)));
+    if (!is.good()) {
+      throw std::runtime_error(fmt::format("read_box_header(): istream::read() failed: rdstate={}", is.rdstate()));
+    }
     header_size = Constants::LARGE_HEADER_SIZE;
     size = endian::be_to_uint64(buf[0], buf[1], buf[2], buf[3], buf[4], buf[5], buf[6], buf[7]);
   }
-- 
2.43.0


From 25e7df27f4c02f69692748bda20d7eaf9a535969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:22 +0000
Subject: [PATCH 45/61] fix: do not take a position the stream cannot tell for
 one

---
 src/bitio/reader.cpp  | 6 +++++-
 src/stream/stream.cpp | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/bitio/reader.cpp b/src/bitio/reader.cpp
index 55612e2..d662b38 100644
--- a/src/bitio/reader.cpp
+++ b/src/bitio/reader.cpp
@@ -66,7 +66,11 @@ std::uint64_t Reader::seek(const std::uint64_t offset, const std::ios_base::seek
     throw std::runtime_error(fmt::format("bitio::Reader::seek(): istream::seekg() failed: rdstate={}", m_is.rdstate()));
   }
   m_width = 0;
-  return static_cast<std::uint64_t>(m_is.tellg());
+  const auto pos = m_is.tellg();
+  if (pos < 0) {
+    throw std::runtime_error(fmt::format("bitio::Reader::seek(): istream::tellg() failed: rdstate={}", m_is.rdstate()));
+  }
+  return static_cast<std::uint64_t>(pos);
 }
 
 void Reader::setOctet(const std::uint8_t octet) {
diff --git a/src/stream/stream.cpp b/src/stream/stream.cpp
index e99ca18..cba07d4 100644
--- a/src/stream/stream.cpp
+++ b/src/stream/stream.cpp
@@ -8,7 +8,7 @@ namespace shiguredo::mp4::stream {
 
 std::streamoff get_istream_offset_to_end(std::istream& is) {
   const auto offset = is.tellg();
-  if (!is.good()) {
+  if (!is.good() || offset < 0) {
     throw std::runtime_error(
         fmt::format("stream::get_istream_offset_to_end(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
@@ -18,7 +18,7 @@ std::streamoff get_istream_offset_to_end(std::istream& is) {
         fmt::format("stream::get_istream_offset_to_end(): istream::seekg() failed: rdstate={}", is.rdstate()));
   }
   const auto end_offset = is.tellg();
-  if (!is.good()) {
+  if (!is.good() || end_offset < 0) {
     throw std::runtime_error(
         fmt::format("stream::get_istream_offset_to_end(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
-- 
2.43.0


From 7cb3b3f153cbda301489f1528709cf1240288ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:31 +0000
Subject: [PATCH 46/61] fix: report a failed read of box data instead of
 filling up with invented bytes

---
 src/reader/reader.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index a848ecc..d50b902 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -4,11 +4,11 @@
 #include <spdlog/spdlog.h>
 
 #include <algorithm>
+#include <array>
 #include <cstddef>
 #include <cstdint>
 #include <iostream>
 #include <istream>
-#include <iterator>
 #include <memory>
 #include <sstream>
 #include <stdexcept>
@@ -25,6 +25,20 @@ namespace shiguredo::mp4::reader {
 // boxes of real files are nested about ten levels deep; the limit keeps the recursion off the end of the stack
 constexpr std::size_t MAX_NESTING_LEVEL = 256;
 
+static void copy_data(std::istream& is, std::ostream& os, const std::uint64_t size) {
+  std::array<char, 4096> buf;
+  for (std::uint64_t left = size; left > 0;) {
+    const auto n = static_cast<std::streamsize>(std::min<std::uint64_t>(left, std::size(buf)));
+    is.read(buf.data(), n);
+    if (!is.good()) {
+      throw std::runtime_error(
+          fmt::format("SimpleReader::readBox(): istream::read() failed: rdstate={}", is.rdstate()));
+    }
+    os.write(buf.data(), n);
+    left -= static_cast<std::uint64_t>(n);
+  }
+}
+
 SimpleReader::SimpleReader(std::istream& t_is) : m_is(t_is) {
   register_box_map(&m_box_map);
   m_is.seekg(0, std::ios_base::end);
@@ -66,7 +80,7 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent, const std::uint64_t end) {
     throw std::runtime_error(fmt::format("corrupt file? box of size({}) at offset({}) runs past the end({})",
                                          header->getSize(), header->getOffset(), end));
   }
-  std::copy_n(std::istreambuf_iterator<char>(m_is), header->getDataSize(), std::ostreambuf_iterator<char>(ss));
+  copy_data(m_is, ss, header->getDataSize());
 
   spdlog::trace("SimpleReader::readBox(): Header={}", header->toString());
 
-- 
2.43.0


From f6c6751d01511609a7fe78be73ca8eec9abf0c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:31 +0000
Subject: [PATCH 47/61] fix: report a dump that could not be written

---
 src/reader/reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index d50b902..994251f 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -60,6 +60,10 @@ void SimpleReader::read() {
   }
   for (BoxInfo* i : m_boxes) {
     std::cout << i->toString() << std::endl;
+    if (!std::cout.good()) {
+      throw std::runtime_error(
+          fmt::format("SimpleReader::read(): writing to std::cout failed: rdstate={}", std::cout.rdstate()));
+    }
   }
 }
 
-- 
2.43.0


From ba607517ae943a6562de7cfb099a8858059d68f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:21 +0000
Subject: [PATCH 48/61] fix: parameter sets that avcC cannot count or measure
 were written as a corrupt box

---
 src/box/avc.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/box/avc.cpp b/src/box/avc.cpp
index 5f2e4ca..b15f21f 100644
--- a/src/box/avc.cpp
+++ b/src/box/avc.cpp
@@ -8,6 +8,7 @@
 #include <algorithm>
 #include <cstdint>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <numeric>
 #include <stdexcept>
@@ -52,6 +53,10 @@ std::string AVCParameterSet::toString() const {
 }
 
 std::uint64_t AVCParameterSet::writeData(bitio::Writer* writer) const {
+  if (std::size(m_nal_unit) > std::numeric_limits<std::uint16_t>::max()) {
+    throw std::runtime_error(
+        fmt::format("AVCParameterSet::writeData(): nal_unit is too long: {}", std::size(m_nal_unit)));
+  }
   auto wbits = bitio::write_uint<std::uint16_t>(writer, static_cast<std::uint16_t>(std::size(m_nal_unit)));
   wbits += bitio::write_vector_uint<std::uint8_t>(writer, m_nal_unit);
   return wbits;
@@ -126,6 +131,13 @@ std::string AVCDecoderConfiguration::toStringOnlyData() const {
 }
 
 std::uint64_t AVCDecoderConfiguration::writeData(std::ostream& os) const {
+  if (std::size(m_sequence_parameter_sets) > 0x1f || std::size(m_picture_parameter_sets) > 0xff ||
+      (m_high_profile_fields_enabled && std::size(m_sequence_parameter_sets_ext) > 0xff)) {
+    throw std::runtime_error(fmt::format(
+        "AVCDecoderConfiguration::writeData(): too many parameter sets: sequence={} picture={} sequence_ext={}",
+        std::size(m_sequence_parameter_sets), std::size(m_picture_parameter_sets),
+        std::size(m_sequence_parameter_sets_ext)));
+  }
   bitio::Writer writer(os);
   auto wbits = bitio::write_uint<std::uint8_t>(&writer, m_configuration_version);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_profile);
-- 
2.43.0


From 42f9ae87e59f2925b03512700adef1d575db9653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:21 +0000
Subject: [PATCH 49/61] fix: codec initialization data too long for vpcC was
 written as a corrupt box

---
 src/box/vpc.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/box/vpc.cpp b/src/box/vpc.cpp
index 94c96e6..007732e 100644
--- a/src/box/vpc.cpp
+++ b/src/box/vpc.cpp
@@ -5,7 +5,10 @@
 
 #include <cstdint>
 #include <istream>
+#include <iterator>
+#include <limits>
 #include <ostream>
+#include <stdexcept>
 #include <string>
 
 #include "shiguredo/mp4/bitio/bitio.hpp"
@@ -33,6 +36,10 @@ std::string VPCodecConfiguration::toStringOnlyData() const {
 }
 
 std::uint64_t VPCodecConfiguration::writeData(std::ostream& os) const {
+  if (m_version != 0 && std::size(m_codec_initialization_data) > std::numeric_limits<std::uint16_t>::max()) {
+    throw std::runtime_error(fmt::format("VPCodecConfiguration::writeData(): codec_initialization_data is too long: {}",
+                                         std::size(m_codec_initialization_data)));
+  }
   bitio::Writer writer(os);
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_profile);
-- 
2.43.0


From 35001f81d78aedc172667f09697214a3e090ddcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:21 +0000
Subject: [PATCH 50/61] fix: more references than sidx can count were written
 as a corrupt box

---
 src/box/sidx.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/box/sidx.cpp b/src/box/sidx.cpp
index 01726d5..5de1357 100644
--- a/src/box/sidx.cpp
+++ b/src/box/sidx.cpp
@@ -7,8 +7,10 @@
 #include <cstdint>
 #include <istream>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <numeric>
+#include <stdexcept>
 #include <string>
 
 #include "shiguredo/mp4/bitio/bitio.hpp"
@@ -50,6 +52,10 @@ std::string Sidx::toStringOnlyData() const {
 }
 
 std::uint64_t Sidx::writeData(std::ostream& os) const {
+  if (std::size(m_references) > std::numeric_limits<std::uint16_t>::max()) {
+    throw std::runtime_error(
+        fmt::format("Sidx::writeData(): there are too many references: {}", std::size(m_references)));
+  }
   bitio::Writer writer(os);
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   wbits += bitio::write_uint<std::uint32_t>(&writer, m_reference_id);
-- 
2.43.0


From 23c5a33310507f96bd9a01720492d17da71ad758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:08 +0000
Subject: [PATCH 51/61] fix: numbers too large for the length field of a
 descriptor were written truncated

---
 include/shiguredo/mp4/bitio/bitio.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/shiguredo/mp4/bitio/bitio.hpp b/include/shiguredo/mp4/bitio/bitio.hpp
index 4a26366..4c89547 100644
--- a/include/shiguredo/mp4/bitio/bitio.hpp
+++ b/include/shiguredo/mp4/bitio/bitio.hpp
@@ -146,6 +146,9 @@ std::uint64_t uvarint_size(const T u) {
 template <typename T>
 std::uint64_t write_uvarint(Writer* writer, const T u, const std::uint8_t size = sizeof(T)) {
   std::uint64_t val = static_cast<std::uint64_t>(u);
+  if (size < 10 && (val >> (7 * size)) != 0) {
+    throw std::runtime_error(fmt::format("bitio::write_uvarint(): {} does not fit into {} bytes", val, size));
+  }
   for (std::int8_t i = 7 * (size - 1); i >= 0; i -= 7) {
     std::uint8_t data = static_cast<std::uint8_t>((val >> i) & 0x7f);
     if (i > 0) {
-- 
2.43.0


From 51d03cfe6935d11f5ad0548c8c42443bf9a79e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:32 +0000
Subject: [PATCH 52/61] fix: the type of a data box was not shown when it has
 no name

---
 src/box/data.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/box/data.cpp b/src/box/data.cpp
index 0bf4f70..bb92d94 100644
--- a/src/box/data.cpp
+++ b/src/box/data.cpp
@@ -32,7 +32,10 @@ Data::Data(const DataParameters& params)
 }
 
 std::string Data::toStringOnlyData() const {
-  std::string s = fmt::format("DataType={} DataLang={} ", data_type_to_string(m_data_type), m_data_lang);
+  const auto known_type = data_type_to_string(m_data_type);
+  const std::string type =
+      std::empty(known_type) ? fmt::format("{}", static_cast<std::uint32_t>(m_data_type)) : std::string(known_type);
+  std::string s = fmt::format("DataType={} DataLang={} ", type, m_data_lang);
   if (m_data_type == StringUTF8) {
     std::vector<std::uint8_t> escaped;
     std::transform(std::begin(m_data), std::end(m_data), std::back_inserter(escaped), [](const std::uint8_t c) {
-- 
2.43.0


From acd6d21b4e84c4a64d9007e93afd37660ab0e077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:35 +0000
Subject: [PATCH 53/61] fix: numbers larger than their field were written
 truncated

---
 include/shiguredo/mp4/bitio/bitio.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/shiguredo/mp4/bitio/bitio.hpp b/include/shiguredo/mp4/bitio/bitio.hpp
index 4c89547..a2dc454 100644
--- a/include/shiguredo/mp4/bitio/bitio.hpp
+++ b/include/shiguredo/mp4/bitio/bitio.hpp
@@ -16,6 +16,12 @@ namespace shiguredo::mp4::bitio {
 
 template <typename T>
 std::uint64_t write_int(Writer* writer, const T val, const std::uint64_t size = sizeof(T) * 8) {
+  if (size > 0 && size < sizeof(T) * 8) {
+    const auto sign = static_cast<std::int64_t>(val) >> (size - 1);
+    if (sign != 0 && sign != -1) {
+      throw std::invalid_argument(fmt::format("bitio::write_int(): {} does not fit into {} bits", val, size));
+    }
+  }
   const bool signed_bit = val < 0;
   std::uint64_t wbits = 0;
   for (std::uint64_t i = 0; i < size; i += 8) {
@@ -72,6 +78,9 @@ std::uint64_t read_int(Reader* reader, T* var, const std::uint64_t size = sizeof
 
 template <typename T>
 std::uint64_t write_uint(Writer* writer, const T val, const std::uint64_t size = sizeof(T) * 8) {
+  if (size < sizeof(T) * 8 && (static_cast<std::uint64_t>(val) >> size) != 0) {
+    throw std::invalid_argument(fmt::format("bitio::write_uint(): {} does not fit into {} bits", val, size));
+  }
   std::uint64_t wbits = 0;
   for (std::uint64_t i = 0; i < size; i += 8) {
     T v = val;
-- 
2.43.0


From c3b9f091ee3196e7a9af4f8dc2f6d476227c3446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:35 +0000
Subject: [PATCH 54/61] fix: composition offsets beyond 32 bits were written
 truncated in ctts and trun

---
 include/shiguredo/mp4/box/ctts.hpp | 2 +-
 include/shiguredo/mp4/box/trun.hpp | 2 +-
 src/box/ctts.cpp                   | 8 +++++---
 src/box/trun.cpp                   | 9 ++++++---
 4 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/shiguredo/mp4/box/ctts.hpp b/include/shiguredo/mp4/box/ctts.hpp
index 187e733..5da2a03 100644
--- a/include/shiguredo/mp4/box/ctts.hpp
+++ b/include/shiguredo/mp4/box/ctts.hpp
@@ -25,7 +25,7 @@ class CttsEntry {
   CttsEntry(const std::uint32_t, const std::int64_t);
 
   std::string toString() const;
-  std::uint64_t writeData(bitio::Writer*) const;
+  std::uint64_t writeData(bitio::Writer*, const std::uint8_t version) const;
   std::uint64_t readData(bitio::Reader*, const std::uint8_t version);
 
  private:
diff --git a/include/shiguredo/mp4/box/trun.hpp b/include/shiguredo/mp4/box/trun.hpp
index a1102c7..abaab7c 100644
--- a/include/shiguredo/mp4/box/trun.hpp
+++ b/include/shiguredo/mp4/box/trun.hpp
@@ -30,7 +30,7 @@ class TrunEntry {
   explicit TrunEntry(const TrunEntryParameters&);
 
   std::string toString(const std::uint32_t) const;
-  std::uint64_t writeData(bitio::Writer*, const std::uint32_t) const;
+  std::uint64_t writeData(bitio::Writer*, const std::uint8_t version, const std::uint32_t) const;
   std::uint64_t getSize(const std::uint32_t) const;
   std::uint64_t readData(bitio::Reader*, const std::uint8_t version, const std::uint32_t);
 
diff --git a/src/box/ctts.cpp b/src/box/ctts.cpp
index f8958d7..d20921d 100644
--- a/src/box/ctts.cpp
+++ b/src/box/ctts.cpp
@@ -27,9 +27,11 @@ std::string CttsEntry::toString() const {
   return fmt::format("{{SampleCount={} SampleOffset={}}}", m_sample_count, m_sample_offset);
 }
 
-std::uint64_t CttsEntry::writeData(bitio::Writer* writer) const {
+std::uint64_t CttsEntry::writeData(bitio::Writer* writer, const std::uint8_t version) const {
   std::uint64_t wbits = bitio::write_uint<std::uint32_t>(writer, m_sample_count);
-  wbits += bitio::write_uint<std::uint32_t>(writer, static_cast<std::uint32_t>(m_sample_offset));
+  // unsigned in version 0
+  wbits += version == 0 ? bitio::write_uint<std::uint64_t>(writer, static_cast<std::uint64_t>(m_sample_offset), 32)
+                        : bitio::write_int<std::int64_t>(writer, m_sample_offset, 32);
   return wbits;
 }
 
@@ -71,7 +73,7 @@ std::uint64_t Ctts::writeData(std::ostream& os) const {
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   wbits += bitio::write_uint<std::uint32_t>(&writer, static_cast<std::uint32_t>(std::size(m_entries)));
   wbits += std::accumulate(std::begin(m_entries), std::end(m_entries), 0UL,
-                           [&writer](const auto a, const auto& e) { return a + e.writeData(&writer); });
+                           [&](const auto a, const auto& e) { return a + e.writeData(&writer, m_version); });
   return wbits;
 }
 
diff --git a/src/box/trun.cpp b/src/box/trun.cpp
index 32b4bcb..ec0c54b 100644
--- a/src/box/trun.cpp
+++ b/src/box/trun.cpp
@@ -65,7 +65,7 @@ std::uint64_t Trun::writeData(std::ostream& os) const {
     wbits += bitio::write_uint<std::uint32_t>(&writer, m_first_sample_flags);
   }
   wbits += std::accumulate(std::begin(m_entries), std::end(m_entries), 0UL,
-                           [&writer, &flags](const auto a, const auto& e) { return a + e.writeData(&writer, flags); });
+                           [&](const auto a, const auto& e) { return a + e.writeData(&writer, m_version, flags); });
   return wbits;
 }
 
@@ -132,7 +132,7 @@ std::string TrunEntry::toString(const std::uint32_t flags) const {
   return fmt::format("{{{}}}", fmt::join(ss, " "));
 }
 
-std::uint64_t TrunEntry::writeData(bitio::Writer* writer, const std::uint32_t flags) const {
+std::uint64_t TrunEntry::writeData(bitio::Writer* writer, const std::uint8_t version, const std::uint32_t flags) const {
   std::uint64_t wbits = 0;
   if (flags & 0x100) {
     wbits += bitio::write_uint<std::uint32_t>(writer, m_sample_duration);
@@ -144,7 +144,10 @@ std::uint64_t TrunEntry::writeData(bitio::Writer* writer, const std::uint32_t fl
     wbits += bitio::write_uint<std::uint32_t>(writer, m_sample_flags);
   }
   if (flags & 0x800) {
-    wbits += bitio::write_uint<std::uint32_t>(writer, static_cast<std::uint32_t>(m_sample_composition_time_offset));
+    // unsigned in version 0
+    wbits += version == 0 ? bitio::write_uint<std::uint64_t>(
+                                writer, static_cast<std::uint64_t>(m_sample_composition_time_offset), 32)
+                          : bitio::write_int<std::int64_t>(writer, m_sample_composition_time_offset, 32);
   }
   return wbits;
 }
-- 
2.43.0


From 70e784d88a582694900f8b3674cb070d5b0f66a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:35 +0000
Subject: [PATCH 55/61] fix: a language mdhd cannot encode was written as a
 different one

---
 src/box/mdhd.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/box/mdhd.cpp b/src/box/mdhd.cpp
index 6db7572..7c1bac8 100644
--- a/src/box/mdhd.cpp
+++ b/src/box/mdhd.cpp
@@ -3,9 +3,12 @@
 #include <fmt/core.h>
 #include <fmt/ranges.h>
 
+#include <algorithm>
 #include <array>
 #include <cstdint>
 #include <istream>
+#include <iterator>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -80,6 +83,9 @@ std::uint64_t Mdhd::readData(std::istream& is) {
 }
 
 std::uint16_t encode_language(const std::array<std::uint8_t, 3>& lng) {
+  if (std::any_of(std::begin(lng), std::end(lng), [](const auto c) { return c < 0x60 || c > 0x7f; })) {
+    throw std::invalid_argument(fmt::format("encode_language(): invalid language: [{:#x}]", fmt::join(lng, ", ")));
+  }
   return static_cast<std::uint16_t>(((lng[0] - 0x60) << 10) + ((lng[1] - 0x60) << 5) + ((lng[2] - 0x60)));
 }
 
-- 
2.43.0


From 4fc77a78dd33c7a79cbd7a77cfd99eda864d1750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:33 +0000
Subject: [PATCH 56/61] fix: sizes, pre-skips and buffer sizes that the headers
 cannot hold were written truncated

---
 include/shiguredo/mp4/track/vide.hpp |  1 +
 src/track/aac.cpp                    |  4 ++++
 src/track/av1.cpp                    |  3 +--
 src/track/h264.cpp                   |  3 +--
 src/track/mp3.cpp                    |  4 ++++
 src/track/opus.cpp                   |  4 ++++
 src/track/vide.cpp                   | 14 ++++++++++++++
 src/track/vpx.cpp                    |  3 +--
 8 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/include/shiguredo/mp4/track/vide.hpp b/include/shiguredo/mp4/track/vide.hpp
index 2d1568f..2031ce3 100644
--- a/include/shiguredo/mp4/track/vide.hpp
+++ b/include/shiguredo/mp4/track/vide.hpp
@@ -15,6 +15,7 @@ namespace shiguredo::mp4::track {
 class VideTrack : public Track {
  protected:
   VideTrack();
+  void setSize(const std::uint32_t width, const std::uint32_t height);
   void makeTkhdBoxInfo(BoxInfo*) override;
   void makeVmhdBoxInfo(BoxInfo*);
   std::uint32_t m_width;
diff --git a/src/track/aac.cpp b/src/track/aac.cpp
index 7a69ed8..2056e2e 100644
--- a/src/track/aac.cpp
+++ b/src/track/aac.cpp
@@ -25,6 +25,10 @@ AACTrack::AACTrack(const AACTrackParameters& params)
   if (m_track_id == 0) {
     throw std::runtime_error("AACTrack::AACTrack(): invalid track_id=0");
   }
+  // stored in 24 bits
+  if (m_buffer_size_db > 0xffffff) {
+    throw std::invalid_argument("AACTrack::AACTrack(): too large buffer_size_db");
+  }
   m_writer = params.writer;
 }
 
diff --git a/src/track/av1.cpp b/src/track/av1.cpp
index 6fbc000..f6f1526 100644
--- a/src/track/av1.cpp
+++ b/src/track/av1.cpp
@@ -19,8 +19,7 @@ AV1Track::AV1Track(const AV1TrackParameters& params) {
   if (m_track_id == 0) {
     throw std::runtime_error("AV1Track::AV1Track(): invalid track_id=0");
   }
-  m_width = params.width;
-  m_height = params.height;
+  setSize(params.width, params.height);
   m_seq_profile = params.seq_profile;
   m_seq_level_idx_0 = params.seq_level_idx_0;
   m_seq_tier_0 = params.seq_tier_0;
diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index 6d7ea55..1bff1da 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -23,8 +23,7 @@ H264Track::H264Track(const H264TrackParameters& params) {
   if (m_track_id == 0) {
     throw std::runtime_error("H264Track::H264Track(): invalid track_id=0");
   }
-  m_width = params.width;
-  m_height = params.height;
+  setSize(params.width, params.height);
   m_writer = params.writer;
   m_configuration_version = params.configuration_version;
   m_profile = params.profile;
diff --git a/src/track/mp3.cpp b/src/track/mp3.cpp
index 1bf7a49..bfac5c4 100644
--- a/src/track/mp3.cpp
+++ b/src/track/mp3.cpp
@@ -20,6 +20,10 @@ MP3Track::MP3Track(const MP3TrackParameters& params)
   if (m_track_id == 0) {
     throw std::runtime_error("MP3Track::MP3Track(): invalid track_id=0");
   }
+  // stored in 24 bits
+  if (m_buffer_size_db > 0xffffff) {
+    throw std::invalid_argument("MP3Track::MP3Track(): too large buffer_size_db");
+  }
   m_writer = params.writer;
 }
 
diff --git a/src/track/opus.cpp b/src/track/opus.cpp
index 2220df0..54b8ee7 100644
--- a/src/track/opus.cpp
+++ b/src/track/opus.cpp
@@ -21,6 +21,10 @@ OpusTrack::OpusTrack(const OpusTrackParameters& params)
   if (m_track_id == 0) {
     throw std::runtime_error("OpusTrack::OpusTrack(): invalid track_id=0");
   }
+  // stored in 16 bits
+  if (m_pre_skip > 0xffff) {
+    throw std::invalid_argument("OpusTrack::OpusTrack(): too large pre_skip");
+  }
   m_writer = params.writer;
 }
 
diff --git a/src/track/vide.cpp b/src/track/vide.cpp
index b6264f4..c4efec3 100644
--- a/src/track/vide.cpp
+++ b/src/track/vide.cpp
@@ -1,5 +1,10 @@
 #include "shiguredo/mp4/track/vide.hpp"
 
+#include <fmt/core.h>
+
+#include <cstdint>
+#include <stdexcept>
+
 #include "shiguredo/mp4/box/boxes.hpp"
 #include "shiguredo/mp4/box_info.hpp"
 #include "shiguredo/mp4/time/time.hpp"
@@ -10,6 +15,15 @@ VideTrack::VideTrack() {
   m_handler_type = HandlerType::vide;
 }
 
+void VideTrack::setSize(const std::uint32_t width, const std::uint32_t height) {
+  // stored in 16 bits
+  if (width > 0xffff || height > 0xffff) {
+    throw std::invalid_argument(fmt::format("VideTrack::setSize(): invalid size={}x{}", width, height));
+  }
+  m_width = width;
+  m_height = height;
+}
+
 void VideTrack::makeTkhdBoxInfo(BoxInfo* trak) {
   new BoxInfo({.parent = trak,
                .box = new box::Tkhd({
diff --git a/src/track/vpx.cpp b/src/track/vpx.cpp
index ff1dd16..0e9c193 100644
--- a/src/track/vpx.cpp
+++ b/src/track/vpx.cpp
@@ -19,8 +19,7 @@ VPXTrack::VPXTrack(const VPXTrackParameters& params) : m_codec(params.codec) {
   if (m_track_id == 0) {
     throw std::runtime_error("VPXTrack::VPXTrack(): invalid track_id=0");
   }
-  m_width = params.width;
-  m_height = params.height;
+  setSize(params.width, params.height);
   m_writer = params.writer;
   m_max_bitrate = params.max_bitrate;
   m_avg_bitrate = params.avg_bitrate;
-- 
2.43.0


From 2ab05236ef54f8860ef64f533f406e38e31845ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:00 +0000
Subject: [PATCH 57/61] fix: samples the format cannot time were written with
 wrapped durations, and late ones were lost

---
 src/track/track.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/track/track.cpp b/src/track/track.cpp
index f2b8523..df0b014 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -33,6 +33,15 @@ void Track::addMdatData(const std::uint64_t timestamp,
   if (data_size > std::numeric_limits<std::uint32_t>::max()) {
     throw std::runtime_error(fmt::format("Track::addMdatData(): sample is too large: data_size={}", data_size));
   }
+  if (m_finalized) {
+    throw std::logic_error("Track::addMdatData(): the track is finished");
+  }
+  // the format stores differences of 32 bits
+  if (!std::empty(m_mdat_sample_sizes) &&
+      (timestamp < m_prev_timestamp || timestamp - m_prev_timestamp > std::numeric_limits<std::uint32_t>::max())) {
+    throw std::runtime_error(fmt::format("Track::addMdatData(): invalid timestamp: timestamp={} previous timestamp={}",
+                                         timestamp, m_prev_timestamp));
+  }
   if (!m_current_chunk_info.initialized) {
     m_current_chunk_info.initialized = true;
     m_current_chunk_info.offset = m_writer->tellCurrentMdatOffset();
@@ -56,14 +65,19 @@ void Track::finalize() {
   if (m_finalized) {
     return;
   }
+  if (!std::empty(m_mdat_sample_sizes)) {
+    // nothing is left for a last sample beyond the declared duration
+    const auto duration = std::max(getDurationInTimescale(), m_prev_timestamp);
+    if (duration - m_prev_timestamp > std::numeric_limits<std::uint32_t>::max()) {
+      throw std::runtime_error(fmt::format("Track::finalize(): invalid duration: duration={} last timestamp={}",
+                                           duration, m_prev_timestamp));
+    }
+    m_sample_durations.push_back(static_cast<std::uint32_t>(duration - m_prev_timestamp));
+  }
   m_finalized = true;
   if (m_current_chunk_info.number_of_samples > 0) {
     m_chunk_infos.push_back(m_current_chunk_info);
   }
-
-  if (!std::empty(m_mdat_sample_sizes)) {
-    m_sample_durations.push_back(static_cast<std::uint32_t>(getDurationInTimescale() - m_prev_timestamp));
-  }
 }
 
 void Track::makeDinfBoxInfo(BoxInfo* minf) {
-- 
2.43.0


From d0125005f8501f93160bfe29c85a602802e6a974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:00 +0000
Subject: [PATCH 58/61] fix: tracks sharing an identifier were written, and
 next_track_ID was no larger than identifiers in use

---
 include/shiguredo/mp4/track/track.hpp   |  1 +
 include/shiguredo/mp4/writer/writer.hpp |  1 +
 src/track/track.cpp                     |  4 ++++
 src/writer/faststart_writer.cpp         |  1 +
 src/writer/simple_writer.cpp            |  1 +
 src/writer/writer.cpp                   | 22 ++++++++++++++++++++++
 6 files changed, 30 insertions(+)

diff --git a/include/shiguredo/mp4/track/track.hpp b/include/shiguredo/mp4/track/track.hpp
index 3540456..f9235a9 100644
--- a/include/shiguredo/mp4/track/track.hpp
+++ b/include/shiguredo/mp4/track/track.hpp
@@ -47,6 +47,7 @@ class Track {
   virtual void addData(const std::uint64_t, const std::uint8_t*, const std::size_t, bool) = 0;
   void setMediaTime(const std::int64_t);
   std::uint64_t getTimescale() const;
+  std::uint32_t getTrackID() const;
   void resetChunkOffsets(std::uint64_t);
   void terminateCurrentChunk();
 
diff --git a/include/shiguredo/mp4/writer/writer.hpp b/include/shiguredo/mp4/writer/writer.hpp
index d640774..c1a022c 100644
--- a/include/shiguredo/mp4/writer/writer.hpp
+++ b/include/shiguredo/mp4/writer/writer.hpp
@@ -61,6 +61,7 @@ class Writer {
   box::Mvhd* m_mvhd_box;
 
   virtual void setOffsetAndSize() = 0;
+  void registerTrackIDs(const std::vector<shiguredo::mp4::track::Track*>&);
 };
 
 }  // namespace shiguredo::mp4::writer
diff --git a/src/track/track.cpp b/src/track/track.cpp
index df0b014..f8d2659 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -234,6 +234,10 @@ void Track::makeStssBoxInfo(BoxInfo* stbl) {
   new BoxInfo({.parent = stbl, .box = new box::Stss({.sample_numbers = m_key_sample_numbers})});
 }
 
+std::uint32_t Track::getTrackID() const {
+  return m_track_id;
+}
+
 std::uint64_t Track::getTimescale() const {
   return m_timescale;
 }
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index be76d52..e59df92 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -187,6 +187,7 @@ void FaststartWriter::copyMdatData() {
 }
 
 void FaststartWriter::appendTrakAndUdtaBoxInfo(const std::vector<shiguredo::mp4::track::Track*>& tracks) {
+  registerTrackIDs(tracks);
   std::uint64_t prev_size = 0;
   std::uint64_t size = getFtypSize() + getMoovSize() + getMdatHeaderSize();
   spdlog::trace("FaststartWriter::appendTrakAndUdtaBoxInfo()");
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index 195104b..42101c0 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -121,6 +121,7 @@ void SimpleWriter::writeMoovBox() {
 }
 
 void SimpleWriter::appendTrakAndUdtaBoxInfo(const std::vector<shiguredo::mp4::track::Track*>& tracks) {
+  registerTrackIDs(tracks);
   for (auto t : tracks) {
     t->appendTrakBoxInfo(getMoovBoxInfo());
   }
diff --git a/src/writer/writer.cpp b/src/writer/writer.cpp
index 715deb9..c3e6ccc 100644
--- a/src/writer/writer.cpp
+++ b/src/writer/writer.cpp
@@ -1,13 +1,20 @@
 #include "shiguredo/mp4/writer/writer.hpp"
 
+#include <fmt/core.h>
+
 #include <array>
 #include <cstdint>
 #include <iterator>
+#include <limits>
+#include <set>
+#include <stdexcept>
 #include <string>
+#include <vector>
 
 #include "shiguredo/mp4/box/boxes.hpp"
 #include "shiguredo/mp4/box_info.hpp"
 #include "shiguredo/mp4/box_type.hpp"
+#include "shiguredo/mp4/track/track.hpp"
 
 namespace shiguredo::mp4::writer {
 
@@ -39,6 +46,21 @@ std::uint32_t Writer::getAndUpdateNextTrackID() {
   return track_id;
 }
 
+void Writer::registerTrackIDs(const std::vector<shiguredo::mp4::track::Track*>& tracks) {
+  std::set<std::uint32_t> track_ids;
+  for (const auto t : tracks) {
+    if (!track_ids.insert(t->getTrackID()).second) {
+      throw std::invalid_argument(
+          fmt::format("Writer::registerTrackIDs(): track_id={} is used more than once", t->getTrackID()));
+    }
+  }
+  // larger than any track_id in use, as far as there is one
+  if (!std::empty(track_ids) && *std::rbegin(track_ids) >= m_next_track_id) {
+    const auto max_track_id = std::numeric_limits<std::uint32_t>::max();
+    m_next_track_id = *std::rbegin(track_ids) < max_track_id ? *std::rbegin(track_ids) + 1 : max_track_id;
+  }
+}
+
 void Writer::appendUdtaBoxInfo(const box::DataParameters& data_params) {
   auto udta = new BoxInfo({.parent = m_moov_box_info, .box = new box::Udta()});
   auto meta = new BoxInfo({.parent = udta, .box = new box::Meta()});
-- 
2.43.0


From 958e3e97c72f32fc8e444632e97623864ee982a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:00 +0000
Subject: [PATCH 59/61] fix: using the faststart writer after its intermediate
 file was closed crashed

---
 include/shiguredo/mp4/writer/faststart_writer.hpp | 1 +
 src/writer/faststart_writer.cpp                   | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/include/shiguredo/mp4/writer/faststart_writer.hpp b/include/shiguredo/mp4/writer/faststart_writer.hpp
index ba39108..031bf84 100644
--- a/include/shiguredo/mp4/writer/faststart_writer.hpp
+++ b/include/shiguredo/mp4/writer/faststart_writer.hpp
@@ -54,6 +54,7 @@ class FaststartWriter : public Writer {
 
   void setOffsetAndSize() override;
 
+  void checkIntermediateFile() const;
   void recreateMoovBoxInfo();
   std::uint64_t getFtypSize() const;
   std::uint64_t getMoovSize() const;
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index e59df92..8c31c00 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -100,6 +100,7 @@ void FaststartWriter::writeMdatHeader() {
 }
 
 void FaststartWriter::addMdatData(const std::uint8_t* data, const std::size_t data_size) {
+  checkIntermediateFile();
   if (const auto ret = fwrite(data, 1, data_size, m_mdat_fd); ret != data_size) {
     throw std::runtime_error(
         fmt::format("FaststartWriter::addMdatData(): fwrite() failed: data_size={} ret={}", data_size, ret));
@@ -107,11 +108,18 @@ void FaststartWriter::addMdatData(const std::uint8_t* data, const std::size_t da
   m_mdat_data_size += static_cast<std::uint64_t>(data_size);
 }
 
+void FaststartWriter::checkIntermediateFile() const {
+  if (m_mdat_fd == nullptr) {
+    throw std::logic_error("FaststartWriter::checkIntermediateFile(): the intermediate file has been closed");
+  }
+}
+
 void FaststartWriter::setOffsetAndSize() {
   m_moov_box_info->adjustOffsetAndSize(m_ftyp_size);
 }
 
 std::uint64_t FaststartWriter::tellCurrentMdatOffset() {
+  checkIntermediateFile();
   const auto offset = ::ftell(m_mdat_fd);
   if (offset == -1) {
     throw std::runtime_error("FaststartWriter::tellCurrentMdatOffset(): ftell() failed");
@@ -151,6 +159,7 @@ std::uint64_t FaststartWriter::getMdatHeaderSize() const {
 }
 
 void FaststartWriter::copyMdatData() {
+  checkIntermediateFile();
   if (const auto ret = std::fseek(m_mdat_fd, 0, SEEK_SET); ret == -1) {
     throw std::runtime_error("fseek failed");
   }
-- 
2.43.0


From 2def60564db862cef8ab52840f6d25dd4e58b6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:28 +0000
Subject: [PATCH 60/61] fix: muxing calls out of order wrote broken files or
 crashed

---
 include/shiguredo/mp4/writer/writer.hpp | 10 +++++++-
 src/track/track.cpp                     |  4 +--
 src/writer/faststart_writer.cpp         | 15 ++++++++++-
 src/writer/simple_writer.cpp            | 15 ++++++++++-
 src/writer/writer.cpp                   | 33 +++++++++++++++++++++++++
 5 files changed, 72 insertions(+), 5 deletions(-)

diff --git a/include/shiguredo/mp4/writer/writer.hpp b/include/shiguredo/mp4/writer/writer.hpp
index c1a022c..1a9b4c6 100644
--- a/include/shiguredo/mp4/writer/writer.hpp
+++ b/include/shiguredo/mp4/writer/writer.hpp
@@ -53,14 +53,22 @@ class Writer {
   std::uint32_t m_mvhd_timescale;
   float m_duration;
   std::uint64_t m_time_from_epoch;
-  std::uint64_t m_ftyp_size;
+  std::uint64_t m_ftyp_size = 0;
   std::uint64_t m_mdat_data_size = 0;
   std::uint32_t m_next_track_id = 1;
+  bool m_mdat_closed = false;
+  bool m_tracks_begun = false;
+  bool m_tracks_appended = false;
 
   BoxInfo* m_moov_box_info = nullptr;
   box::Mvhd* m_mvhd_box;
 
   virtual void setOffsetAndSize() = 0;
+  void checkFtypBox(bool) const;
+  void checkMdatIsOpen() const;
+  void beginTracks(const std::vector<shiguredo::mp4::track::Track*>&);
+  void endTracks();
+  void checkTracks() const;
   void registerTrackIDs(const std::vector<shiguredo::mp4::track::Track*>&);
 };
 
diff --git a/src/track/track.cpp b/src/track/track.cpp
index f8d2659..8d5cfd8 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -43,9 +43,10 @@ void Track::addMdatData(const std::uint64_t timestamp,
                                          timestamp, m_prev_timestamp));
   }
   if (!m_current_chunk_info.initialized) {
-    m_current_chunk_info.initialized = true;
     m_current_chunk_info.offset = m_writer->tellCurrentMdatOffset();
+    m_current_chunk_info.initialized = true;
   }
+  m_writer->addMdatData(data, data_size);
   ++m_current_chunk_info.number_of_samples;
 
   if (!std::empty(m_mdat_sample_sizes)) {
@@ -54,7 +55,6 @@ void Track::addMdatData(const std::uint64_t timestamp,
   }
   m_prev_timestamp = timestamp;
 
-  m_writer->addMdatData(data, data_size);
   m_mdat_sample_sizes.push_back(static_cast<std::uint32_t>(data_size));
   if (m_handler_type == HandlerType::vide && is_key) {
     m_key_sample_numbers.push_back(static_cast<std::uint32_t>(std::size(m_mdat_sample_sizes)));
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index 8c31c00..466ebb8 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -73,6 +73,7 @@ void FaststartWriter::recreateMoovBoxInfo() {
 }
 
 void FaststartWriter::writeFtypBox() {
+  checkFtypBox(false);
   BoxInfo ftyp({.box = new box::Ftyp(m_ftyp_params)});
 
   ftyp.adjustOffsetAndSize(0);
@@ -81,6 +82,7 @@ void FaststartWriter::writeFtypBox() {
 }
 
 void FaststartWriter::writeMdatHeader() {
+  checkTracks();
   const std::uint64_t offset = getFtypSize() + getMoovSize();
   m_os.seekp(static_cast<std::streamoff>(offset), std::ios_base::beg);
   if (!m_os.good()) {
@@ -101,6 +103,7 @@ void FaststartWriter::writeMdatHeader() {
 
 void FaststartWriter::addMdatData(const std::uint8_t* data, const std::size_t data_size) {
   checkIntermediateFile();
+  checkMdatIsOpen();
   if (const auto ret = fwrite(data, 1, data_size, m_mdat_fd); ret != data_size) {
     throw std::runtime_error(
         fmt::format("FaststartWriter::addMdatData(): fwrite() failed: data_size={} ret={}", data_size, ret));
@@ -120,6 +123,7 @@ void FaststartWriter::setOffsetAndSize() {
 
 std::uint64_t FaststartWriter::tellCurrentMdatOffset() {
   checkIntermediateFile();
+  checkMdatIsOpen();
   const auto offset = ::ftell(m_mdat_fd);
   if (offset == -1) {
     throw std::runtime_error("FaststartWriter::tellCurrentMdatOffset(): ftell() failed");
@@ -129,6 +133,7 @@ std::uint64_t FaststartWriter::tellCurrentMdatOffset() {
 }
 
 void FaststartWriter::writeMoovBox() {
+  checkTracks();
   m_os.seekp(static_cast<std::streamoff>(m_ftyp_size), std::ios_base::beg);
   if (!m_os.good()) {
     throw std::runtime_error(
@@ -160,6 +165,12 @@ std::uint64_t FaststartWriter::getMdatHeaderSize() const {
 
 void FaststartWriter::copyMdatData() {
   checkIntermediateFile();
+  checkTracks();
+  m_os.seekp(static_cast<std::streamoff>(getFtypSize() + getMoovSize() + getMdatHeaderSize()), std::ios_base::beg);
+  if (!m_os.good()) {
+    throw std::runtime_error(
+        fmt::format("FaststartWriter::copyMdatData(): ostream::seekp() failed: rdstate={}", m_os.rdstate()));
+  }
   if (const auto ret = std::fseek(m_mdat_fd, 0, SEEK_SET); ret == -1) {
     throw std::runtime_error("fseek failed");
   }
@@ -196,7 +207,8 @@ void FaststartWriter::copyMdatData() {
 }
 
 void FaststartWriter::appendTrakAndUdtaBoxInfo(const std::vector<shiguredo::mp4::track::Track*>& tracks) {
-  registerTrackIDs(tracks);
+  checkFtypBox(true);
+  beginTracks(tracks);
   std::uint64_t prev_size = 0;
   std::uint64_t size = getFtypSize() + getMoovSize() + getMdatHeaderSize();
   spdlog::trace("FaststartWriter::appendTrakAndUdtaBoxInfo()");
@@ -221,6 +233,7 @@ void FaststartWriter::appendTrakAndUdtaBoxInfo(const std::vector<shiguredo::mp4:
           "FaststartWriter::appendTrakAndUdtaBoxInfo(): shrink moov size: prev_size={} size={}", prev_size, size));
     }
   } while (prev_size != size);
+  endTracks();
 }
 
 void FaststartWriter::deleteIntermediateFile() {
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index 42101c0..f29dccd 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -41,6 +41,7 @@ SimpleWriter::SimpleWriter(std::ostream& t_os, const SimpleWriterParameters& par
 }
 
 void SimpleWriter::writeFtypBox() {
+  checkFtypBox(false);
   BoxInfo ftyp({.box = new box::Ftyp(m_ftyp_params)});
 
   ftyp.adjustOffsetAndSize(0);
@@ -55,6 +56,8 @@ void SimpleWriter::writeFtypBox() {
 }
 
 void SimpleWriter::writeFreeBoxAndMdatHeader() {
+  checkFtypBox(true);
+  m_mdat_closed = true;
   m_os.seekp(static_cast<std::streamoff>(m_ftyp_size), std::ios_base::beg);
   if (!m_os.good()) {
     throw std::runtime_error(
@@ -91,6 +94,8 @@ void SimpleWriter::writeFreeBoxAndMdatHeader() {
 }
 
 void SimpleWriter::addMdatData(const std::uint8_t* data, const std::size_t data_size) {
+  checkFtypBox(true);
+  checkMdatIsOpen();
   m_os.write(reinterpret_cast<const char*>(data), static_cast<std::streamsize>(data_size));
   if (!m_os.good()) {
     throw std::runtime_error(
@@ -105,6 +110,8 @@ void SimpleWriter::setOffsetAndSize() {
 }
 
 std::uint64_t SimpleWriter::tellCurrentMdatOffset() {
+  checkFtypBox(true);
+  checkMdatIsOpen();
   const auto offset = m_os.tellp();
   if (!m_os.good() || offset == std::ostream::pos_type(-1)) {
     throw std::runtime_error(
@@ -114,6 +121,11 @@ std::uint64_t SimpleWriter::tellCurrentMdatOffset() {
 }
 
 void SimpleWriter::writeMoovBox() {
+  checkFtypBox(true);
+  if (m_tracks_begun) {
+    checkTracks();
+  }
+  m_mdat_closed = true;
   setOffsetAndSize();
   m_mvhd_box->setNextTrackID(m_next_track_id);
 
@@ -121,11 +133,12 @@ void SimpleWriter::writeMoovBox() {
 }
 
 void SimpleWriter::appendTrakAndUdtaBoxInfo(const std::vector<shiguredo::mp4::track::Track*>& tracks) {
-  registerTrackIDs(tracks);
+  beginTracks(tracks);
   for (auto t : tracks) {
     t->appendTrakBoxInfo(getMoovBoxInfo());
   }
   appendUdtaBoxInfo();
+  endTracks();
 }
 
 }  // namespace shiguredo::mp4::writer
diff --git a/src/writer/writer.cpp b/src/writer/writer.cpp
index c3e6ccc..dc44b11 100644
--- a/src/writer/writer.cpp
+++ b/src/writer/writer.cpp
@@ -46,6 +46,39 @@ std::uint32_t Writer::getAndUpdateNextTrackID() {
   return track_id;
 }
 
+// 呼び出し順の誤りは壊れたファイルになるため、エラーにする
+void Writer::checkFtypBox(bool written) const {
+  if ((m_ftyp_size != 0) != written) {
+    throw std::logic_error(written ? "Writer::checkFtypBox(): the ftyp box has not been written yet"
+                                   : "Writer::checkFtypBox(): the ftyp box has already been written");
+  }
+}
+
+void Writer::checkMdatIsOpen() const {
+  if (m_mdat_closed) {
+    throw std::logic_error("Writer::checkMdatIsOpen(): the media data is complete");
+  }
+}
+
+void Writer::beginTracks(const std::vector<shiguredo::mp4::track::Track*>& tracks) {
+  if (m_tracks_begun) {
+    throw std::logic_error("Writer::beginTracks(): tracks have already been appended");
+  }
+  registerTrackIDs(tracks);
+  m_tracks_begun = true;
+  m_mdat_closed = true;
+}
+
+void Writer::endTracks() {
+  m_tracks_appended = true;
+}
+
+void Writer::checkTracks() const {
+  if (!m_tracks_appended) {
+    throw std::logic_error("Writer::checkTracks(): the tracks have not been appended");
+  }
+}
+
 void Writer::registerTrackIDs(const std::vector<shiguredo::mp4::track::Track*>& tracks) {
   std::set<std::uint32_t> track_ids;
   for (const auto t : tracks) {
-- 
2.43.0


From de4adefbb19999be1c0ebc110eddd45888c142ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:28 +0000
Subject: [PATCH 61/61] fix: writing or seeking to a box that has not been laid
 out crashed

---
 include/shiguredo/mp4/box.hpp | 1 +
 src/box.cpp                   | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/include/shiguredo/mp4/box.hpp b/include/shiguredo/mp4/box.hpp
index 49882c4..ee20e4e 100644
--- a/include/shiguredo/mp4/box.hpp
+++ b/include/shiguredo/mp4/box.hpp
@@ -51,6 +51,7 @@ class Box {
   BoxHeader* m_header = nullptr;
 
  private:
+  void checkHeader() const;
   void makeHeader();
 };
 
diff --git a/src/box.cpp b/src/box.cpp
index c09bd44..40f2c11 100644
--- a/src/box.cpp
+++ b/src/box.cpp
@@ -81,6 +81,7 @@ std::uint64_t Box::getHeaderSize() {
 }
 
 void Box::seekToData(std::istream& is) {
+  checkHeader();
   is.seekg(static_cast<std::streamoff>(m_header->getOffset() + m_header->getHeaderSize()), std::ios_base::beg);
   if (!is.good()) {
     throw std::runtime_error(fmt::format("Box::seekToData(): istream::seekg() failed: rdstate={}", is.rdstate()));
@@ -88,6 +89,7 @@ void Box::seekToData(std::istream& is) {
 }
 
 void Box::seekToEnd(std::istream& is) {
+  checkHeader();
   is.seekg(static_cast<std::streamoff>(m_header->getOffset() + m_header->getSize()), std::ios_base::beg);
   if (!is.good()) {
     throw std::runtime_error(fmt::format("Box::seekToEnd(): istream::seekg() failed: rdstate={}", is.rdstate()));
@@ -107,9 +109,16 @@ void Box::setOffsetAndDataSize(const std::uint64_t offset, const std::uint64_t d
 }
 
 std::uint64_t Box::write(std::ostream& os) {
+  checkHeader();
   return m_header->write(os) + writeData(os);
 }
 
+void Box::checkHeader() const {
+  if (!m_header) {
+    throw std::logic_error("Box::checkHeader(): header is not set");
+  }
+}
+
 void Box::makeHeader() {
   if (m_header) {
     return;
-- 
2.43.0

