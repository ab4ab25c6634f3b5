From 14d8756e206d221d76b1eedcb2cd8b557c72c119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:23 +0000
Subject: [PATCH 01/14] fix: TMC: Decode freeform data of 3- and 4-group
 messages past the second group

The loop stopped at the first unreceived part even when that part is not used
in a message of this length.
---
 src/tmc/tmc.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/tmc/tmc.cc b/src/tmc/tmc.cc
index f9ac1b7..173596e 100644
--- a/src/tmc/tmc.cc
+++ b/src/tmc/tmc.cc
@@ -83,17 +83,17 @@ std::vector<FreeformField> getFreeformFields(const std::array<MessagePart, 5>& p
   // GSI of second group)
   std::deque<bool> freeform_data_bits;
   for (std::size_t i = 1; i < parts.size(); i++) {
+    // Not used in a message of this length
+    if (i > 1 && i < parts.size() - second_gsi)
+      continue;
+
     if (!parts[i].is_received)
       break;
 
-    if (i == 1 || i >= parts.size() - second_gsi) {
-      for (int b = 0; b < 12; b++)
-        freeform_data_bits.push_back(static_cast<std::uint16_t>(parts[i].data[0] >> (11U - b)) &
-                                     1U);
-      for (int b = 0; b < 16; b++)
-        freeform_data_bits.push_back(static_cast<std::uint16_t>(parts[i].data[1] >> (15U - b)) &
-                                     1U);
-    }
+    for (int b = 0; b < 12; b++)
+      freeform_data_bits.push_back(static_cast<std::uint16_t>(parts[i].data[0] >> (11U - b)) & 1U);
+    for (int b = 0; b < 16; b++)
+      freeform_data_bits.push_back(static_cast<std::uint16_t>(parts[i].data[1] >> (15U - b)) & 1U);
   }
 
   // Separate freeform data into fields
-- 
2.43.0


From 6635378da1f4d0d2d34df077ce0985b68a1b5131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:23 +0000
Subject: [PATCH 02/14] fix: RT+: Count a UTF-8 character as its lead byte and
 continuation bytes

Tags following or containing non-ASCII characters were cut in the middle of a
character, which is invalid UTF-8 and lost the whole JSON line.
---
 src/text/rdsstring.hh | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/text/rdsstring.hh b/src/text/rdsstring.hh
index f10227d..f886721 100644
--- a/src/text/rdsstring.hh
+++ b/src/text/rdsstring.hh
@@ -27,19 +27,17 @@ namespace redsea {
 // Length of a UTF-8 character starting at byte_start.
 // 0 on error.
 inline std::size_t charlen(const std::string& str, std::size_t byte_start) {
-  std::size_t nbyte{byte_start};
-
-  if (nbyte >= str.length())
+  if (byte_start >= str.length())
     return 0;
 
-  while ((static_cast<std::uint8_t>(str[nbyte]) & 0b1100'0000U) == 0b1000'0000U) {
+  // Lead byte, followed by any continuation bytes
+  std::size_t nbyte{byte_start + 1};
+  while (nbyte < str.length() &&
+         (static_cast<std::uint8_t>(str[nbyte]) & 0b1100'0000U) == 0b1000'0000U) {
     nbyte++;
-
-    if (nbyte >= str.length())
-      return 0;
   }
 
-  return nbyte - byte_start + 1;
+  return nbyte - byte_start;
 }
 
 // An RDSString can be RadioText, Program Service name, or Enhanced RadioText.
-- 
2.43.0


From 45db5a896665a643a643d5a88225174157c9a942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:23 +0000
Subject: [PATCH 03/14] fix: RT+: Do not drop a tag that extends to the end of
 the RadioText

---
 src/text/rdsstring.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/text/rdsstring.cc b/src/text/rdsstring.cc
index 2901767..782db51 100644
--- a/src/text/rdsstring.cc
+++ b/src/text/rdsstring.cc
@@ -194,9 +194,7 @@ std::string RDSString::getLastCompleteString(std::size_t start, std::size_t len)
     byte_end += clen;
   }
 
-  return byte_end < last_complete_string_.length()
-             ? last_complete_string_.substr(byte_start, byte_end - byte_start)
-             : "";
+  return last_complete_string_.substr(byte_start, byte_end - byte_start);
 }
 
 bool RDSString::isComplete() const {
-- 
2.43.0


From 24cb5e642e1f86f1aedab30b8df7094f4b6584e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:23 +0000
Subject: [PATCH 04/14] fix: Keep group timestamps monotonic over repeated
 backward clock steps

---
 src/channel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/channel.cc b/src/channel.cc
index 13f75b3..9194724 100644
--- a/src/channel.cc
+++ b/src/channel.cc
@@ -108,7 +108,7 @@ void Channel::processGroup(Group group, std::size_t which_stream) {
     if (now < last_group_rx_time_) {
       group.setTime(last_group_rx_time_);
     }
-    last_group_rx_time_ = now;
+    last_group_rx_time_ = group.getRxTime();
   }
 
   if (options_.bler) {
-- 
2.43.0


From 2177e88b047bdddeea614bf5c9d0688c1d5b1452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:23 +0000
Subject: [PATCH 05/14] fix: Deinterleave the last, partial chunk of
 multi-channel input

---
 src/io/input.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index dd2717e..fb1e771 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -133,9 +133,6 @@ MPXBuffer& MPXReader::readChunk(std::uint32_t channel) {
                            std::to_string(num_channels_) + "-channel signal");
   }
 
-  if (is_eof_)
-    return buffer_;
-
   if (num_channels_ == 1) {
     return buffer_;
   } else {
-- 
2.43.0


From 2428060bc0cc388304a076eb2c918ec422832dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:23 +0000
Subject: [PATCH 06/14] fix: Hex input: Do not mark a truncated block as
 received

---
 src/io/input.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index fb1e771..bbaf6e9 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -212,7 +212,8 @@ Group readHexGroup(const Options& options) {
       int which_nibble = 0;
       while (which_nibble < 4) {
         if (line.length() < 1) {
-          group_complete = true;
+          group_complete    = true;
+          block_still_valid = false;
           break;
         }
 
-- 
2.43.0


From 13a6302f77916733859ec347fa004eb9717a6a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:23 +0000
Subject: [PATCH 07/14] fix: Reject a number of channels that does not fit in
 32 bits

---
 src/options.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/options.cc b/src/options.cc
index ca9a730..9870406 100644
--- a/src/options.cc
+++ b/src/options.cc
@@ -74,12 +74,13 @@ Options getOptions(int argc, char** argv) {
         options.input_type = InputType::ASCIIbits;
         break;
       case 'c': {
-        options.num_channels = static_cast<std::uint32_t>(std::strtoul(optarg, nullptr, 10));
+        const unsigned long num_channels = std::strtoul(optarg, nullptr, 10);
         // Channels take up memory, and we don't want to fill it up by accident.
-        constexpr int kMaxNumChannels{32};
-        if (errno == ERANGE || options.num_channels < 1 || options.num_channels > kMaxNumChannels) {
+        constexpr unsigned long kMaxNumChannels{32};
+        if (errno == ERANGE || num_channels < 1 || num_channels > kMaxNumChannels) {
           throw std::runtime_error("check the number of channels");
         }
+        options.num_channels            = static_cast<std::uint32_t>(num_channels);
         options.is_num_channels_defined = true;
         break;
       }
-- 
2.43.0


From 81d213f445129c9ba0c854f974ecf761b10421c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:23 +0000
Subject: [PATCH 08/14] fix: Reject NaN as a sample rate

---
 src/options.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/options.cc b/src/options.cc
index 9870406..797d620 100644
--- a/src/options.cc
+++ b/src/options.cc
@@ -136,8 +136,8 @@ Options getOptions(int argc, char** argv) {
         if (errno == ERANGE) {
           throw std::runtime_error("check the sample rate");
         }
-        if (options.samplerate < kMinimumSampleRate_Hz ||
-            options.samplerate > kMaximumSampleRate_Hz) {
+        if (!(options.samplerate >= kMinimumSampleRate_Hz &&
+              options.samplerate <= kMaximumSampleRate_Hz)) {
           throw std::runtime_error("sample rate was set to " + std::to_string(options.samplerate) +
                                    ", but it must be between " +
                                    std::to_string(kMinimumSampleRate_Hz) + " and " +
-- 
2.43.0


From fa6eaac8f93aa00c1ae60b39eca811335348e85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:23 +0000
Subject: [PATCH 09/14] fix: Transparent data: Do not print blocks that were
 not received

---
 src/groups.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/groups.cc b/src/groups.cc
index f4f93be..aafa3b4 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -807,6 +807,10 @@ void Station::decodeType5(const Group& group) {
   const auto address                   = getBits<5>(group.get(BLOCK2), 0);
   json_["transparent_data"]["address"] = address;
 
+  if (!group.has(BLOCK4) ||
+      (group.getType().version == GroupType::Version::A && !group.has(BLOCK3)))
+    return;
+
   if (group.getType().version == GroupType::Version::A) {
     const std::array<std::uint8_t, 4> data{
         getUint8(group.get(BLOCK3), 8), getUint8(group.get(BLOCK3), 0),
-- 
2.43.0


From 24dbc18413ed649bde88d10e4e110fc5db182165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:23 +0000
Subject: [PATCH 10/14] fix: eRT: Do not use a block that was not received

---
 src/groups.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/groups.cc b/src/groups.cc
index aafa3b4..c3b6fbf 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -1254,7 +1254,9 @@ void parseRadioTextPlus(const Group& group, RadioText& rt, nlohmann::ordered_jso
 void Station::parseEnhancedRT(const Group& group) {
   const std::size_t position = getBits<5>(group.get(BLOCK2), 0) * 4U;
 
-  ert_.update(position, getUint8(group.get(BLOCK3), 8), getUint8(group.get(BLOCK3), 0));
+  if (group.has(BLOCK3)) {
+    ert_.update(position, getUint8(group.get(BLOCK3), 8), getUint8(group.get(BLOCK3), 0));
+  }
 
   if (group.has(BLOCK4)) {
     ert_.update(position + 2U, getUint8(group.get(BLOCK4), 8), getUint8(group.get(BLOCK4), 0));
-- 
2.43.0


From 0b6783a07fe5593d8c0d0abd61eb0ddc0e1b3301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:44 +0000
Subject: [PATCH 11/14] fix: DAB cross-reference: Do not print a frequency or
 ensemble from blocks that were not received

---
 src/groups.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/groups.cc b/src/groups.cc
index c3b6fbf..4bf2f67 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -1282,6 +1282,9 @@ void Station::parseDAB(const Group& group) {
     const std::array<std::string, 4> modes{"unspecified", "I", "II or III", "IV"};
     json_["dab"]["mode"] = modes[mode];
 
+    if (!(group.has(BLOCK3) && group.has(BLOCK4)))
+      return;
+
     const std::uint32_t freq = 16 * getBits<18>(group.get(BLOCK2), group.get(BLOCK3), 0);
 
     json_["dab"]["kilohertz"] = freq;
-- 
2.43.0


From b95c14bf41a3564fdc1a7151103cf45c4338ca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:37 +0000
Subject: [PATCH 12/14] fix: Clock-time: Do not depend on the time zone of the
 computer

std::mktime() moved times that fall in the DST gap of the local time zone by an
hour, although the offset to UTC was printed as transmitted.
---
 src/groups.cc | 45 ++++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/src/groups.cc b/src/groups.cc
index 4bf2f67..4a18a2a 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -22,7 +22,6 @@
 #include <cmath>
 #include <cstdint>
 #include <cstdio>
-#include <ctime>
 #include <exception>
 #include <initializer_list>
 #include <iomanip>
@@ -737,8 +736,22 @@ void Station::decodeType4A(const Group& group) {
   if (!(group.has(BLOCK3) && group.has(BLOCK4)))
     return;
 
+  const auto hour_utc   = getBits<5>(group.get(BLOCK3), group.get(BLOCK4), 12);
+  const auto minute_utc = getBits<6>(group.get(BLOCK4), 6);
+
+  const double local_offset =
+      (getBool(group.get(BLOCK4), 5) ? -1.0 : 1.0) * getBits<5>(group.get(BLOCK4), 0) / 2.0;
+
+  // The local offset is applied by hand, because std::mktime() would make the result depend on the
+  // time zone (and DST changes) of this computer
+  constexpr int kMinutesPerDay{24 * 60};
+  const int utc_minutes   = static_cast<int>(hour_utc * 60U + minute_utc);
+  const int total_minutes = utc_minutes + static_cast<int>(local_offset * 60.0);
+  const int day_change    = total_minutes < 0 ? -1 : (total_minutes >= kMinutesPerDay ? 1 : 0);
+  const int local_minutes = total_minutes - day_change * kMinutesPerDay;
+
   const double modified_julian_date{
-      static_cast<double>(getBits<17>(group.get(BLOCK2), group.get(BLOCK3), 1))};
+      static_cast<double>(getBits<17>(group.get(BLOCK2), group.get(BLOCK3), 1)) + day_change};
 
   // Would result in negative years/months
   if (modified_julian_date < 15079.0) {
@@ -759,24 +772,6 @@ void Station::decodeType4A(const Group& group) {
   year_utc += 1900;
   month_utc -= 1;
 
-  const auto hour_utc   = getBits<5>(group.get(BLOCK3), group.get(BLOCK4), 12);
-  const auto minute_utc = getBits<6>(group.get(BLOCK4), 6);
-
-  const double local_offset =
-      (getBool(group.get(BLOCK4), 5) ? -1.0 : 1.0) * getBits<5>(group.get(BLOCK4), 0) / 2.0;
-
-  std::tm utc_plus_offset_tm{};
-  utc_plus_offset_tm.tm_year  = year_utc - 1900;
-  utc_plus_offset_tm.tm_mon   = month_utc - 1;
-  utc_plus_offset_tm.tm_mday  = day_utc;
-  utc_plus_offset_tm.tm_isdst = -1;
-  utc_plus_offset_tm.tm_hour  = static_cast<int>(hour_utc);
-  utc_plus_offset_tm.tm_min   = static_cast<int>(minute_utc);
-  utc_plus_offset_tm.tm_sec   = static_cast<int>(local_offset * 3600.0);
-
-  const std::time_t local_t     = std::mktime(&utc_plus_offset_tm);
-  const std::tm* const local_tm = std::localtime(&local_t);
-
   const bool is_date_valid =
       hour_utc <= 23 && minute_utc <= 59 && std::fabs(std::trunc(local_offset)) <= 14.0;
   if (is_date_valid) {
@@ -786,14 +781,14 @@ void Station::decodeType4A(const Group& group) {
 
     if (local_offset_hour == 0 && local_offset_min == 0) {
       static_cast<void>(std::snprintf(buffer.data(), buffer.size(), "%04d-%02d-%02dT%02d:%02d:00Z",
-                                      local_tm->tm_year + 1900, local_tm->tm_mon + 1,
-                                      local_tm->tm_mday, local_tm->tm_hour, local_tm->tm_min));
+                                      year_utc, month_utc, day_utc, local_minutes / 60,
+                                      local_minutes % 60));
     } else {
       static_cast<void>(
           std::snprintf(buffer.data(), buffer.size(), "%04d-%02d-%02dT%02d:%02d:00%s%02d:%02d",
-                        local_tm->tm_year + 1900, local_tm->tm_mon + 1, local_tm->tm_mday,
-                        local_tm->tm_hour, local_tm->tm_min, local_offset > 0 ? "+" : "-",
-                        local_offset_hour, std::abs(local_offset_min)));
+                        year_utc, month_utc, day_utc, local_minutes / 60, local_minutes % 60,
+                        local_offset > 0 ? "+" : "-", local_offset_hour,
+                        std::abs(local_offset_min)));
     }
     clock_time_         = std::string(buffer.data());
     json_["clock_time"] = clock_time_;
-- 
2.43.0


From aa9abc8f259194f3abe6b9f820605de1b19980de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:01 +0000
Subject: [PATCH 13/14] fix: TEF6686: Do not take the group type from a block
 that was not received

---
 src/io/input.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index bbaf6e9..f9baa6a 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -287,9 +287,13 @@ Group readTEFGroup(const Options& options) {
         blocks[1].is_received = (static_cast<std::uint32_t>(rds_err >> 2U) & 0xFFU) == 0;
         blocks[2].is_received = (static_cast<std::uint32_t>(rds_err >> 0U) & 0xFFU) == 0;
 
-        group.setBlock(BLOCK2, blocks[0]);
-        group.setBlock(BLOCK3, blocks[1]);
-        group.setBlock(BLOCK4, blocks[2]);
+        // A group must not take its type from a block that was not received
+        if (blocks[0].is_received)
+          group.setBlock(BLOCK2, blocks[0]);
+        if (blocks[1].is_received)
+          group.setBlock(BLOCK3, blocks[1]);
+        if (blocks[2].is_received)
+          group.setBlock(BLOCK4, blocks[2]);
       } catch (const std::exception&) {
         break;
       }
-- 
2.43.0


From 891951a46caec036d27bf2bbbbb13e92601448d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:39 +0000
Subject: [PATCH 14/14] fix: Keep the reception time of multi-channel input

Every channel of a multi-channel signal got a reception time around 1970, as
the time was only stored in the buffer of all channels.
---
 src/io/input.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index f9baa6a..3dd972b 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -136,7 +136,8 @@ MPXBuffer& MPXReader::readChunk(std::uint32_t channel) {
   if (num_channels_ == 1) {
     return buffer_;
   } else {
-    buffer_singlechan_.used_size = buffer_.used_size / num_channels_;
+    buffer_singlechan_.used_size     = buffer_.used_size / num_channels_;
+    buffer_singlechan_.time_received = buffer_.time_received;
     for (size_t i = 0; i < buffer_singlechan_.used_size; i++)
       buffer_singlechan_.data[i] = buffer_.data[i * num_channels_ + channel];
 
-- 
2.43.0

