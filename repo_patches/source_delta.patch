From 4c42f6e49b77ef97af3091cef8296cb16eda883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 001/118] fix: read NovAtel fields without misaligned loads

---
 c/nov2sbp/parser/read_little_endian.h | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/c/nov2sbp/parser/read_little_endian.h b/c/nov2sbp/parser/read_little_endian.h
index 7f15e69..942a763 100644
--- a/c/nov2sbp/parser/read_little_endian.h
+++ b/c/nov2sbp/parser/read_little_endian.h
@@ -30,6 +30,7 @@
 #include <cassert>
 #include <cstddef>
 #include <cstdint>
+#include <cstring>
 
 namespace Novatel {
 
@@ -45,18 +46,21 @@ static inline uint32_t _le32toh(uint32_t le);
 static inline uint64_t _le64toh(uint64_t le);
 
 static inline uint16_t read_le_uint16(const uint8_t *bytes) {
-  // NOLINTNEXTLINE
-  return _le16toh(*reinterpret_cast<const uint16_t *>(bytes));
+  uint16_t le;
+  memcpy(&le, bytes, sizeof(le));
+  return _le16toh(le);
 }
 
 static inline uint32_t read_le_uint32(const uint8_t *bytes) {
-  // NOLINTNEXTLINE
-  return _le32toh(*reinterpret_cast<const uint32_t *>(bytes));
+  uint32_t le;
+  memcpy(&le, bytes, sizeof(le));
+  return _le32toh(le);
 }
 
 static inline int32_t read_le_int32(const uint8_t *bytes) {
-  // NOLINTNEXTLINE
-  uint32_t swapped = _le32toh(*reinterpret_cast<const uint32_t *>(bytes));
+  uint32_t le;
+  memcpy(&le, bytes, sizeof(le));
+  uint32_t swapped = _le32toh(le);
   // NOLINTNEXTLINE
   return *reinterpret_cast<int32_t *>(&swapped);
 }
@@ -64,8 +68,9 @@ static inline int32_t read_le_int32(const uint8_t *bytes) {
 static inline double read_le_double(const uint8_t *bytes) {
   static_assert(sizeof(double) == sizeof(uint64_t),
                 "Bad assumption on double size.");
-  // NOLINTNEXTLINE
-  uint64_t swapped = _le64toh(*reinterpret_cast<const uint64_t *>(bytes));
+  uint64_t le;
+  memcpy(&le, bytes, sizeof(le));
+  uint64_t swapped = _le64toh(le);
   // NOLINTNEXTLINE
   return *reinterpret_cast<double *>(&swapped);
 }
@@ -73,8 +78,9 @@ static inline double read_le_double(const uint8_t *bytes) {
 static inline float read_le_float(const uint8_t *bytes) {
   static_assert(sizeof(float) == sizeof(uint32_t),
                 "Bad assumption on float size.");
-  // NOLINTNEXTLINE
-  uint32_t swapped = _le32toh(*reinterpret_cast<const uint32_t *>(bytes));
+  uint32_t le;
+  memcpy(&le, bytes, sizeof(le));
+  uint32_t swapped = _le32toh(le);
   // NOLINTNEXTLINE
   return *reinterpret_cast<float *>(&swapped);
 }
-- 
2.43.0


From 82df62b20eaddfe66132bd857711afd366b717e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 002/118] fix: RAWIMUSX: do not overflow when negating
 INT32_MIN

---
 c/nov2sbp/parser/message_rawimusx.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/c/nov2sbp/parser/message_rawimusx.cc b/c/nov2sbp/parser/message_rawimusx.cc
index 3168fbe..5ddb844 100644
--- a/c/nov2sbp/parser/message_rawimusx.cc
+++ b/c/nov2sbp/parser/message_rawimusx.cc
@@ -17,6 +17,11 @@
 
 namespace Novatel {
 
+// Negate without overflowing on the most negative value
+static int32_t negate(int32_t value) {
+  return value == INT32_MIN ? INT32_MAX : -value;
+}
+
 void Message::RAWIMUSX_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
   (void)n_bytes;
   size_t i = 0;
@@ -30,13 +35,13 @@ void Message::RAWIMUSX_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
   i += sizeof(uint32_t);
   z_accel = Util::read_le_int32(bytes + i);
   i += sizeof(int32_t);
-  y_accel = -Util::read_le_int32(bytes + i);
+  y_accel = negate(Util::read_le_int32(bytes + i));
   i += sizeof(int32_t);
   x_accel = Util::read_le_int32(bytes + i);
   i += sizeof(int32_t);
   z_gyro = Util::read_le_int32(bytes + i);
   i += sizeof(int32_t);
-  y_gyro = -Util::read_le_int32(bytes + i);
+  y_gyro = negate(Util::read_le_int32(bytes + i));
   i += sizeof(int32_t);
   x_gyro = Util::read_le_int32(bytes + i);
   i += sizeof(int32_t);
-- 
2.43.0


From bb907519f763d9051da2f31a74adbc804d924e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 003/118] fix: NovAtel parser: drop messages whose body has the
 wrong length

---
 c/nov2sbp/parser/parser.cc | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/c/nov2sbp/parser/parser.cc b/c/nov2sbp/parser/parser.cc
index 77dbd1e..0f67037 100644
--- a/c/nov2sbp/parser/parser.cc
+++ b/c/nov2sbp/parser/parser.cc
@@ -154,11 +154,48 @@ uint32_t Parser::parse_short_message() const {
   return 1;
 }
 
+/**
+ * Check that the length of a message body matches what the body parser for its
+ * message ID expects.
+ */
+static bool body_length_valid(const BinaryHeader &header, const uint8_t *data) {
+  switch (header.message_id) {
+    case Message::Id::GPSEPHEM:
+      return header.message_len == 224;
+    case Message::Id::BESTPOS:
+      return header.message_len == 72;
+    case Message::Id::BESTVEL:
+      return header.message_len == 44;
+    case Message::Id::RANGECMP:
+      // variable length: number of records, followed by the records
+      return header.message_len >= sizeof(uint32_t) &&
+             header.message_len ==
+                 sizeof(uint32_t) +
+                     static_cast<uint64_t>(Util::read_le_uint32(data)) *
+                         Message::RANGECMP_record_t::kRecordBinarySize;
+    case Message::Id::INSATT:
+      return header.message_len == 40;
+    case Message::Id::GLOEPHEMERIS:
+      return header.message_len == 144;
+    case Message::Id::RAWIMUSX:
+      return header.message_len == 40;
+    default:
+      return true;
+  }
+}
+
 /**
  * This function dispatches to the appropriate body parser depending on the
  * message ID.
  */
 void Parser::parse_body(const BinaryHeader &header, const uint8_t *data) const {
+  if (!body_length_valid(header, data)) {
+    warn("Unexpected length %i of message %i",
+         header.message_len,
+         header.message_id);
+    return;
+  }
+
   switch (header.message_id) {
     case Message::Id::GPSEPHEM: {
       Message::GPSEPHEM_t msg;
-- 
2.43.0


From 6b4c896404b45e2aa5aed6b74365795080942db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 004/118] fix: NovAtel parser: do not lose messages when the
 reader returns short counts

---
 c/nov2sbp/parser/parser.cc | 55 ++++++++++++++++++++++++++++++++------
 c/nov2sbp/parser/parser.h  |  4 ++-
 2 files changed, 50 insertions(+), 9 deletions(-)

diff --git a/c/nov2sbp/parser/parser.cc b/c/nov2sbp/parser/parser.cc
index 0f67037..64766d5 100644
--- a/c/nov2sbp/parser/parser.cc
+++ b/c/nov2sbp/parser/parser.cc
@@ -54,18 +54,31 @@ Parser::Parser(ReadFunction readfn,
       context_(context) {}
 
 void Parser::process() {
+  bool end_of_input = false;
   do {
     // fill buffer_
-    int num_bytes_read = readfn_(buffer_ + num_bytes_in_buffer_,
-                                 sizeof(buffer_) - num_bytes_in_buffer_,
-                                 context_);
+    if (num_bytes_in_buffer_ < sizeof(buffer_)) {
+      int num_bytes_read = readfn_(buffer_ + num_bytes_in_buffer_,
+                                   sizeof(buffer_) - num_bytes_in_buffer_,
+                                   context_);
 
-    if (num_bytes_read < 0) {
-      warn("Read error");
-      return;
+      if (num_bytes_read < 0) {
+        warn("Read error");
+        return;
+      }
+
+      end_of_input = (num_bytes_read == 0);
+      num_bytes_in_buffer_ += num_bytes_read;
+    }
+
+    // wait for the rest of an incomplete message while there is more input
+    if (!end_of_input && !message_complete()) {
+      continue;
+    }
+    if (num_bytes_in_buffer_ == 0) {
+      break;
     }
 
-    num_bytes_in_buffer_ += num_bytes_read;
     uint32_t num_bytes_consumed = 1;
 
     if (num_bytes_in_buffer_ >= sizeof(MSG_REGULAR_PREAMBLE)) {
@@ -85,7 +98,33 @@ void Parser::process() {
     assert(num_bytes_consumed <= num_bytes_in_buffer_);
     num_bytes_in_buffer_ -= num_bytes_consumed;
     memmove(buffer_, buffer_ + num_bytes_consumed, num_bytes_in_buffer_);
-  } while (num_bytes_in_buffer_ > 0);
+  } while (num_bytes_in_buffer_ > 0 || !end_of_input);
+}
+
+/*
+ * Return false if buffer_ starts with a message of which more bytes are needed
+ */
+bool Parser::message_complete() const {
+  size_t num_bytes_needed = MSG_REGULAR_HEADER_LEN + MSG_CRC_LEN;
+
+  if (num_bytes_in_buffer_ >= num_bytes_needed) {
+    if (0 ==
+        memcmp(buffer_, MSG_REGULAR_PREAMBLE, sizeof(MSG_REGULAR_PREAMBLE))) {
+      BinaryHeaderRegular header;
+      header.read(buffer_ + sizeof(MSG_REGULAR_PREAMBLE) + 1);
+      num_bytes_needed += header.message_len;
+    } else if (0 ==
+               memcmp(buffer_, MSG_SHORT_PREAMBLE, sizeof(MSG_SHORT_PREAMBLE))) {
+      BinaryHeaderShort header;
+      header.read(buffer_ + sizeof(MSG_SHORT_PREAMBLE));
+      num_bytes_needed =
+          MSG_SHORT_HEADER_LEN + MSG_CRC_LEN + header.message_len;
+    }
+  }
+
+  // messages which can never fit are left to be rejected by the parser
+  return num_bytes_in_buffer_ >= num_bytes_needed ||
+         num_bytes_needed > sizeof(buffer_);
 }
 
 /*
diff --git a/c/nov2sbp/parser/parser.h b/c/nov2sbp/parser/parser.h
index 06139c8..f813ab1 100644
--- a/c/nov2sbp/parser/parser.h
+++ b/c/nov2sbp/parser/parser.h
@@ -25,7 +25,8 @@ class Parser {
   /**
    * This function should attempt to populate the uint8_t buffer
    * with size_t bytes. The number of bytes successfully read should be
-   * returned. To indicate error the function should return -1.
+   * returned, which is zero only at the end of the input. To indicate error
+   * the function should return -1.
    */
   typedef int (*ReadFunction)(uint8_t *, uint32_t, void *);
 
@@ -67,6 +68,7 @@ class Parser {
 
   void *context_;
 
+  bool message_complete() const;
   uint32_t parse_regular_message() const;
   uint32_t parse_short_message() const;
   void parse_body(const BinaryHeader &header, const uint8_t *data) const;
-- 
2.43.0


From 1022aaf8e49ec6da99380934b850af049b5516e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 005/118] fix: nov2sbp: convert the messages buffered when
 stdin reaches its end

---
 c/nov2sbp/src/nov2sbp_main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/nov2sbp_main.cc b/c/nov2sbp/src/nov2sbp_main.cc
index 5542175..3df2b86 100644
--- a/c/nov2sbp/src/nov2sbp_main.cc
+++ b/c/nov2sbp/src/nov2sbp_main.cc
@@ -28,7 +28,7 @@ extern "C" void nov2sbp_proj_context_set_search_paths(const char *path);
 
 static int readfn(uint8_t *bytes, uint32_t n_bytes, void *context) {
   (void)context;
-  if (feof(stdin) != 0) {
+  if (ferror(stdin) != 0) {
     return -1;
   }
   return static_cast<int>(fread(bytes, sizeof(*bytes), n_bytes, stdin));
-- 
2.43.0


From cbd2a5be1e855b8a35fe10a98f384612efb2b860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 006/118] fix: nov2sbp: skip faulty or encrypted IMU samples
 instead of aborting

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 7881993..af425ff 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -885,8 +885,10 @@ bool convert_rawimu_to_angular_rate(const BinaryHeader *header,
 
   angular_rate->tow = static_cast<uint32_t>(header->ms);
 
-  assert(!(rawimu->imu_info & IMU_INFO_ERROR));      // no IMU error
-  assert(!(rawimu->imu_info & IMU_INFO_ENCRYPTED));  // IMU is not encrypted
+  if ((rawimu->imu_info & (IMU_INFO_ERROR | IMU_INFO_ENCRYPTED)) != 0) {
+    // the IMU reported an error or its data is encrypted
+    return false;
+  }
 
   if (!compute_imu_rate(last_imu_time, header, rate) &&
       !get_imu_rate_from_type(static_cast<imu_type_t>(rawimu->imu_type),
@@ -925,8 +927,10 @@ bool convert_rawimu_to_imu_raw(const BinaryHeader *header,
   imu_raw->tow = static_cast<uint32_t>(header->ms);
   imu_raw->tow_f = 0;
 
-  assert(!(rawimu->imu_info & IMU_INFO_ERROR));      // no IMU error
-  assert(!(rawimu->imu_info & IMU_INFO_ENCRYPTED));  // IMU is not encrypted
+  if ((rawimu->imu_info & (IMU_INFO_ERROR | IMU_INFO_ENCRYPTED)) != 0) {
+    // the IMU reported an error or its data is encrypted
+    return false;
+  }
 
   if (!compute_imu_rate(last_imu_time, header, rate) &&
       !get_imu_rate_from_type(static_cast<imu_type_t>(rawimu->imu_type),
-- 
2.43.0


From 3c6ff0abfbd3cd1e9d0c525dbe720aa9f3bab522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 007/118] fix: nov2sbp: compute the IMU rate across a week
 rollover

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index af425ff..4387be5 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -349,7 +349,7 @@ static bool compute_imu_rate(const msg_gps_time_t *last_imu_time,
                              double &rate) {
   uint16_t week_prev = last_imu_time->wn;
   uint32_t tow_prev = last_imu_time->tow;
-  uint16_t week_cur = last_imu_time->wn;
+  uint16_t week_cur = header->week;
   uint32_t tow_cur = static_cast<uint32_t>(header->ms);
 
   if (week_prev != 0 && week_cur != 0 && tow_prev != 0 && tow_cur != 0) {
-- 
2.43.0


From 51961dd07045d1d4fed2f8f1b1e1e13f14ddeae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 008/118] fix: nov2sbp: saturate position accuracies

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 4387be5..3c76ae2 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -23,7 +23,14 @@ static const uint32_t kMsPerWeek = 7 * 24 * 60 * 60 * 1000;
  * Helpers for rounding and truncating values.
  */
 static inline uint16_t float_to_u16(float value) {
-  return MIN(static_cast<uint16_t>(round(value)), UINT16_MAX);
+  value = std::round(value);
+  if (value <= 0) {
+    return 0;
+  }
+  if (value < UINT16_MAX) {
+    return static_cast<uint16_t>(value);
+  }
+  return UINT16_MAX;
 }
 
 static inline int16_t double_to_s16(double value) {
-- 
2.43.0


From b5fc090c975e34eedaebaff6ae09749f39f9bf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 009/118] fix: nov2sbp: no undefined conversions of NaN and
 extreme values

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 3c76ae2..e0f9727 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -37,7 +37,9 @@ static inline int16_t double_to_s16(double value) {
   int16_t ret;
 
   value = round(value);
-  if (value <= INT16_MIN) {
+  if (std::isnan(value)) {
+    ret = 0;
+  } else if (value <= INT16_MIN) {
     ret = INT16_MIN;
   } else if (value >= INT16_MAX) {
     ret = INT16_MAX;
@@ -51,7 +53,9 @@ static inline int32_t double_to_s32(double value) {
   int32_t ret;
 
   value = round(value);
-  if (value <= INT32_MIN) {
+  if (std::isnan(value)) {
+    ret = 0;
+  } else if (value <= INT32_MIN) {
     ret = INT32_MIN;
   } else if (value >= INT32_MAX) {
     ret = INT32_MAX;
@@ -607,7 +611,7 @@ void convert_bestvel_to_vel_ned(const BinaryHeader *header,
                              cos(degrees_to_radians(bestvel->trk_gnd)));
   vel_ned->e = double_to_s32(1000. * bestvel->hor_speed *
                              sin(degrees_to_radians(bestvel->trk_gnd)));
-  vel_ned->d = -double_to_s32(1000. * bestvel->vert_speed);
+  vel_ned->d = double_to_s32(-1000. * bestvel->vert_speed);
   vel_ned->h_accuracy = 0;
   vel_ned->v_accuracy = 0;
   vel_ned->n_sats = 0;
-- 
2.43.0


From 1ecc6eb5c1bf7f6e233daca93e99d23e09842ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 010/118] fix: nov2sbp: milli-g is a thousandth of g

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index e0f9727..80108b6 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -86,7 +86,7 @@ static inline double arcseconds_to_radians(double val) {
 }
 
 static inline double milligee_to_metres(double val) {
-  return val * 1000. * kStandardGravity;
+  return val / 1000. * kStandardGravity;
 }
 
 static inline double feet_to_metres(double val) { return val * 0.3048; }
-- 
2.43.0


From 5f71653d519e0cfdb0cf3fb261413d8003ab90a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 011/118] fix: nov2sbp: give imu_type_t a fixed underlying type

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 80108b6..195734e 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -191,7 +191,7 @@ typedef enum position_type_t {
 } position_type_t;
 
 // Table 218: IMU Type
-typedef enum imu_type_t {
+typedef enum imu_type_t : int {
   // Unknown IMU type (default)
   UNKNOWN = 0,
   // Honeywell HG1700 AG11
-- 
2.43.0


From 27dae825346a5b6a2d85cf43de83b2eaf413736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 012/118] fix: nov2sbp: keep sending IMU AUX after a week
 rollover

---
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index 195734e..f3f2898 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -991,10 +991,13 @@ bool convert_rawimu_to_imu_aux(const BinaryHeader *header,
                                const msg_gps_time_t *last_aux_time,
                                msg_imu_aux_t *imu_aux) {
   uint32_t cur_time = static_cast<uint32_t>(header->ms);
+  int64_t elapsed = static_cast<int64_t>(cur_time) - last_aux_time->tow +
+                    static_cast<int64_t>(kMsPerWeek) *
+                        (header->week - last_aux_time->wn);
 
   // don't send if it has been less than 1 second since the last message
   if (last_aux_time->wn != 0 && header->week != 0 && last_aux_time->tow != 0 &&
-      cur_time != 0 && cur_time < last_aux_time->tow + 1000) {
+      cur_time != 0 && elapsed < 1000) {
     return false;
   }
 
-- 
2.43.0


From 61a8ec07667d88e9e45ff74b84b419ed0a000038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 013/118] fix: nov2sbp: skip unrepresentable GPS ephemerides
 instead of aborting

---
 c/nov2sbp/src/nov2sbp.cc                     |  5 ++++-
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 12 +++++++-----
 c/nov2sbp/src/swiftnav_conversion_helpers.h  |  5 +++--
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/c/nov2sbp/src/nov2sbp.cc b/c/nov2sbp/src/nov2sbp.cc
index 2bb0a1f..9236a40 100644
--- a/c/nov2sbp/src/nov2sbp.cc
+++ b/c/nov2sbp/src/nov2sbp.cc
@@ -130,7 +130,10 @@ static void write_sbp_gps_ephem(const BinaryHeader *header, const void *data) {
   const auto *gpsephem =
       reinterpret_cast<const Message::GPSEPHEM_t *>(data);  // NOLINT
   msg_ephemeris_gps_t ephem_msg;
-  convert_gpsephem_to_ephemeris_gps(gpsephem, &ephem_msg);
+  if (!convert_gpsephem_to_ephemeris_gps(gpsephem, &ephem_msg)) {
+    log_warn("Invalid GPSEPHEM message");
+    return;
+  }
   auto ret =
       sbp_send_message(&sbp,
                        SBP_MSG_EPHEMERIS_GPS,
diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index f3f2898..ec8b8c0 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -653,12 +653,13 @@ bool gps_time_compare(const msg_gps_time_t *a, const msg_gps_time_t *b) {
  *
  * Everything else is pretty straight forward.
  */
-void convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
+bool convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
                                        msg_ephemeris_gps_t *ephem) {
-  assert(gpsephem->prn <= UINT8_MAX);
-  assert(gpsephem->toe <= UINT32_MAX);
-  assert(gpsephem->toc <= UINT32_MAX);
-  assert(gpsephem->week <= UINT16_MAX);
+  if (gpsephem->prn > UINT8_MAX || gpsephem->week > UINT16_MAX ||
+      !(gpsephem->toe >= 0 && gpsephem->toe <= UINT32_MAX) ||
+      !(gpsephem->toc >= 0 && gpsephem->toc <= UINT32_MAX)) {
+    return false;
+  }
   ephem->common.sid.sat = static_cast<uint8_t>(gpsephem->prn);
   ephem->common.sid.code = 0x0;  // 0x0 = GPS_L1CA
   ephem->common.toe.tow = static_cast<uint32_t>(gpsephem->toe);
@@ -690,6 +691,7 @@ void convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
   ephem->toc.wn = static_cast<uint16_t>(gpsephem->week);
   ephem->iode = static_cast<uint8_t>(gpsephem->iode1);
   ephem->iodc = static_cast<uint16_t>(gpsephem->iodc);
+  return true;
 }
 
 /**
diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.h b/c/nov2sbp/src/swiftnav_conversion_helpers.h
index 2714776..37ed03a 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.h
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.h
@@ -73,9 +73,10 @@ bool gps_time_compare(const msg_gps_time_t *a, const msg_gps_time_t *b);
  *
  * We assign all PRNs to GPS_L1CA.
  *
- * Everything else is pretty straight forward.
+ * Everything else is pretty straight forward. Returns false if the message
+ * cannot be represented.
  */
-void convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
+bool convert_gpsephem_to_ephemeris_gps(const Message::GPSEPHEM_t *gpsephem,
                                        msg_ephemeris_gps_t *ephem);
 
 /**
-- 
2.43.0


From 81aeba09eda3e5ed04a323c357999674b26eeddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 014/118] fix: nov2sbp: no undefined conversion of an unknown
 observation time

---
 c/nov2sbp/src/send_sbp_obs_messages.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/nov2sbp/src/send_sbp_obs_messages.cc b/c/nov2sbp/src/send_sbp_obs_messages.cc
index 682cb2b..15cdcd2 100644
--- a/c/nov2sbp/src/send_sbp_obs_messages.cc
+++ b/c/nov2sbp/src/send_sbp_obs_messages.cc
@@ -52,6 +52,12 @@ extern "C" {
 
 static void round_time_nano(const gps_time_t *t_in, sbp_gps_time_t *t_out) {
   t_out->wn = static_cast<uint16_t>(t_in->wn);
+  if (t_in->tow < 0) {
+    /* unknown time */
+    t_out->tow = 0;
+    t_out->ns_residual = 0;
+    return;
+  }
   t_out->tow = static_cast<uint32_t>(round(t_in->tow * 1e3));
   t_out->ns_residual =
       static_cast<int32_t>(round((t_in->tow - t_out->tow / 1e3) * 1e9));
-- 
2.43.0


From d17098a24f334cf6340f8d2d9ac25a6cc424fda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 015/118] fix: librtcm: no undefined arithmetic in full-width
 bit fields

---
 c/librtcm/src/bits.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/c/librtcm/src/bits.c b/c/librtcm/src/bits.c
index 5acc223..fe82c78 100644
--- a/c/librtcm/src/bits.c
+++ b/c/librtcm/src/bits.c
@@ -65,13 +65,13 @@ uint64_t rtcm_getbitul(const uint8_t *buff, uint32_t pos, uint8_t len) {
  * \return Bit field as a signed value.
  */
 int32_t rtcm_getbits(const uint8_t *buff, uint32_t pos, uint8_t len) {
-  int32_t bits = (int32_t)rtcm_getbitu(buff, pos, len);
+  uint32_t bits = rtcm_getbitu(buff, pos, len);
 
   /* Sign extend, taken from:
    * http://graphics.stanford.edu/~seander/bithacks.html#VariableSignExtend
    */
-  int32_t m = 1u << (len - 1);
-  return (bits ^ m) - m;
+  uint32_t m = 1u << (len - 1);
+  return (int32_t)((bits ^ m) - m);
 }
 
 /** Get bit field from buffer as a signed integer.
@@ -86,13 +86,13 @@ int32_t rtcm_getbits(const uint8_t *buff, uint32_t pos, uint8_t len) {
  * \return Bit field as a signed value.
  */
 int64_t rtcm_getbitsl(const uint8_t *buff, uint32_t pos, uint8_t len) {
-  int64_t bits = (int64_t)rtcm_getbitul(buff, pos, len);
+  uint64_t bits = rtcm_getbitul(buff, pos, len);
 
   /* Sign extend, taken from:
    * http://graphics.stanford.edu/~seander/bithacks.html#VariableSignExtend
    */
-  int64_t m = ((uint64_t)1) << (len - 1);
-  return (bits ^ m) - m;
+  uint64_t m = ((uint64_t)1) << (len - 1);
+  return (int64_t)((bits ^ m) - m);
 }
 
 /** Set bit field in buffer from an unsigned integer.
@@ -105,12 +105,12 @@ int64_t rtcm_getbitsl(const uint8_t *buff, uint32_t pos, uint8_t len) {
  * \param data Unsigned integer to be packed into bit field.
  */
 void rtcm_setbitu(uint8_t *buff, uint32_t pos, uint32_t len, uint32_t data) {
-  uint32_t mask = 1u << (len - 1);
-
   if (len <= 0 || 32 < len) {
     return;
   }
 
+  uint32_t mask = 1u << (len - 1);
+
   for (uint32_t i = pos; i < pos + len; i++, mask >>= 1) {
     if (data & mask) {
       buff[i / 8] |= 1u << (7 - i % 8);
@@ -130,12 +130,12 @@ void rtcm_setbitu(uint8_t *buff, uint32_t pos, uint32_t len, uint32_t data) {
  * \param data Unsigned integer to be packed into bit field.
  */
 void rtcm_setbitul(uint8_t *buff, uint32_t pos, uint32_t len, uint64_t data) {
-  uint64_t mask = ((uint64_t)1) << (len - 1);
-
   if (len <= 0 || 64 < len) {
     return;
   }
 
+  uint64_t mask = ((uint64_t)1) << (len - 1);
+
   for (uint32_t i = pos; i < pos + len; i++, mask >>= 1) {
     if (data & mask) {
       buff[i / 8] |= ((uint64_t)1) << (7 - i % 8);
-- 
2.43.0


From 99e2a5985c16f7fbe10ef9a737530ce816b091f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 016/118] fix: librtcm: roll over phase ranges which round to
 the range limit

---
 c/librtcm/src/encode.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 1acf326..33a7829 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -109,7 +109,7 @@ uint8_t rtcm3_encode_lock_time(double time) {
 /* Encode PhaseRange – L1 Pseudorange (DF012, DF018 ,DF042, DF048) */
 static int32_t encode_diff_phaserange(double cp_pr, double freq) {
   double phase_unit = (GPS_C / freq) / 0.0005;
-  int32_t ppr = lround(cp_pr * phase_unit);
+  long ppr = lround(cp_pr * phase_unit);
 
   /* From specification: "Certain ionospheric conditions might cause the GPS
    * L1 Phaserange – L1 Pseudorange to diverge over time across the range
@@ -121,12 +121,20 @@ static int32_t encode_diff_phaserange(double cp_pr, double freq) {
     /* add multiples of 1500 cycles */
     cp_pr += 1500 * ceil((-C_2P19 / phase_unit - cp_pr) / 1500);
     ppr = lround(cp_pr * phase_unit);
+    if (ppr <= -C_2P19) {
+      /* rounded to the limit, which is not a valid value either */
+      ppr = lround((cp_pr + 1500) * phase_unit);
+    }
   } else if (ppr >= C_2P19) {
     /* substract multiples of 1500 cycles */
     cp_pr -= 1500 * ceil((cp_pr - C_2P19 / phase_unit) / 1500);
     ppr = lround(cp_pr * phase_unit);
+    if (ppr >= C_2P19) {
+      /* rounded to the limit, which does not fit */
+      ppr = lround((cp_pr - 1500) * phase_unit);
+    }
   }
-  return ppr;
+  return (int32_t)ppr;
 }
 
 static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
-- 
2.43.0


From 025fc3f0aa543269b90cf905027abfc62dcaac86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 017/118] fix: librtcm: encode L2-L1 pseudorange differences
 out of range as invalid

---
 c/librtcm/src/encode.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 33a7829..7f1ab7e 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -137,6 +137,11 @@ static int32_t encode_diff_phaserange(double cp_pr, double freq) {
   return (int32_t)ppr;
 }
 
+/* Encode L2 - L1 Pseudorange (DF017, DF047), invalid if it does not fit */
+static int32_t encode_diff_pseudorange(double diff) {
+  return fabs(diff) < 8192 ? (int32_t)diff : (int32_t)PR_L2_INVALID;
+}
+
 static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
                                    const freq_t freq_enum,
                                    const double *l1_pr,
@@ -149,8 +154,7 @@ static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
   uint32_t calc_l1_pr = (uint32_t)round((*l1_pr - amb * PRUNIT_GPS) / 0.02);
 
   /* Calculate GPS Pseudorange (DF011/DF016). */
-  uint32_t pr =
-      (uint32_t)round((freq_data->pseudorange - amb * PRUNIT_GPS) / 0.02);
+  double pr = round((freq_data->pseudorange - amb * PRUNIT_GPS) / 0.02);
 
   double l1_prc = calc_l1_pr * 0.02 + amb * PRUNIT_GPS;
 
@@ -159,8 +163,10 @@ static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
     freq = GPS_L1_HZ;
     rtcm_setbitu(buff, *bit, 1, 0);
     *bit += 1;
-    rtcm_setbitu(
-        buff, *bit, 24, freq_data->flags.fields.valid_pr ? pr : PR_L1_INVALID);
+    rtcm_setbitu(buff,
+                 *bit,
+                 24,
+                 freq_data->flags.fields.valid_pr ? calc_l1_pr : PR_L1_INVALID);
     *bit += 24;
   } else {
     freq = GPS_L2_HZ;
@@ -170,7 +176,7 @@ static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
                  *bit,
                  14,
                  freq_data->flags.fields.valid_pr
-                     ? (int32_t)pr - (int32_t)calc_l1_pr
+                     ? encode_diff_pseudorange(pr - calc_l1_pr)
                      : (int32_t)PR_L2_INVALID);
     *bit += 14;
   }
@@ -207,8 +213,7 @@ static void encode_basic_glo_freq_data(const rtcm_freq_data *freq_data,
   uint32_t calc_l1_pr = (uint32_t)round((*l1_pr - amb * PRUNIT_GLO) / 0.02);
 
   /* Calculate GLO Pseudorange (DF041/DF046). */
-  uint32_t pr =
-      (uint32_t)round((freq_data->pseudorange - amb * PRUNIT_GLO) / 0.02);
+  double pr = round((freq_data->pseudorange - amb * PRUNIT_GLO) / 0.02);
 
   double l1_prc = calc_l1_pr * 0.02 + amb * PRUNIT_GLO;
 
@@ -220,8 +225,10 @@ static void encode_basic_glo_freq_data(const rtcm_freq_data *freq_data,
     *bit += 1;
     rtcm_setbitu(buff, *bit, 5, fcn);
     *bit += 5;
-    rtcm_setbitu(
-        buff, *bit, 25, freq_data->flags.fields.valid_pr ? pr : PR_L1_INVALID);
+    rtcm_setbitu(buff,
+                 *bit,
+                 25,
+                 freq_data->flags.fields.valid_pr ? calc_l1_pr : PR_L1_INVALID);
     *bit += 25;
   } else {
     glo_freq = GLO_L2_HZ + (fcn - MT1012_GLO_FCN_OFFSET) * GLO_L2_DELTA_HZ;
@@ -232,7 +239,7 @@ static void encode_basic_glo_freq_data(const rtcm_freq_data *freq_data,
                  *bit,
                  14,
                  freq_data->flags.fields.valid_pr
-                     ? (int32_t)pr - (int32_t)calc_l1_pr
+                     ? encode_diff_pseudorange(pr - calc_l1_pr)
                      : (int32_t)PR_L2_INVALID);
     *bit += 14;
   }
-- 
2.43.0


From 13ab13bcd7b086c0d7aa297c600fd4c78a7c3539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 018/118] fix: librtcm: encode missing CNR as not available

---
 c/librtcm/src/encode.c | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 7f1ab7e..6c70d3b 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -137,6 +137,14 @@ static int32_t encode_diff_phaserange(double cp_pr, double freq) {
   return (int32_t)ppr;
 }
 
+/* Encode CNR (DF015, DF020, DF045, DF050), zero means not available */
+static uint8_t encode_cnr(const rtcm_freq_data *freq_data) {
+  if (!freq_data->flags.fields.valid_cnr || freq_data->cnr < 0) {
+    return 0;
+  }
+  return (uint8_t)fmin(round(freq_data->cnr * 4.0), UINT8_MAX);
+}
+
 /* Encode L2 - L1 Pseudorange (DF017, DF047), invalid if it does not fit */
 static int32_t encode_diff_pseudorange(double diff) {
   return fabs(diff) < 8192 ? (int32_t)diff : (int32_t)PR_L2_INVALID;
@@ -448,10 +456,7 @@ uint16_t rtcm3_encode_1002(const rtcm_obs_message *msg_1002, uint8_t buff[]) {
 
       rtcm_setbitu(buff, bit, 8, amb);
       bit += 8;
-      rtcm_setbitu(buff,
-                   bit,
-                   8,
-                   (uint8_t)round(msg_1002->sats[i].obs[L1_FREQ].cnr * 4.0));
+      rtcm_setbitu(buff, bit, 8, encode_cnr(&msg_1002->sats[i].obs[L1_FREQ]));
       bit += 8;
       ++num_sats;
       if (num_sats >= RTCM_MAX_SATS) {
@@ -525,10 +530,7 @@ uint16_t rtcm3_encode_1004(const rtcm_obs_message *msg_1004, uint8_t buff[]) {
 
       rtcm_setbitu(buff, bit, 8, amb);
       bit += 8;
-      rtcm_setbitu(buff,
-                   bit,
-                   8,
-                   (uint8_t)round(msg_1004->sats[i].obs[L1_FREQ].cnr * 4.0));
+      rtcm_setbitu(buff, bit, 8, encode_cnr(&msg_1004->sats[i].obs[L1_FREQ]));
       bit += 8;
 
       encode_basic_freq_data(&msg_1004->sats[i].obs[L2_FREQ],
@@ -536,10 +538,7 @@ uint16_t rtcm3_encode_1004(const rtcm_obs_message *msg_1004, uint8_t buff[]) {
                              &msg_1004->sats[i].obs[L1_FREQ].pseudorange,
                              buff,
                              &bit);
-      rtcm_setbitu(buff,
-                   bit,
-                   8,
-                   (uint8_t)round(msg_1004->sats[i].obs[L2_FREQ].cnr * 4.0));
+      rtcm_setbitu(buff, bit, 8, encode_cnr(&msg_1004->sats[i].obs[L2_FREQ]));
       bit += 8;
       ++num_sats;
       if (num_sats >= RTCM_MAX_SATS) {
@@ -680,8 +679,7 @@ uint16_t rtcm3_encode_1010(const rtcm_obs_message *msg_1010, uint8_t buff[]) {
 
       rtcm_setbitu(buff, bit, 7, amb);
       bit += 7;
-      rtcm_setbitu(
-          buff, bit, 8, (uint8_t)round(sat_obs->obs[L1_FREQ].cnr * 4.0));
+      rtcm_setbitu(buff, bit, 8, encode_cnr(&sat_obs->obs[L1_FREQ]));
       bit += 8;
       ++num_sats;
       if (num_sats >= RTCM_MAX_SATS) {
@@ -720,8 +718,7 @@ uint16_t rtcm3_encode_1012(const rtcm_obs_message *msg_1012, uint8_t buff[]) {
 
       rtcm_setbitu(buff, bit, 7, amb);
       bit += 7;
-      rtcm_setbitu(
-          buff, bit, 8, (uint8_t)round(sat_obs->obs[L1_FREQ].cnr * 4.0));
+      rtcm_setbitu(buff, bit, 8, encode_cnr(&sat_obs->obs[L1_FREQ]));
       bit += 8;
 
       encode_basic_glo_freq_data(&sat_obs->obs[L2_FREQ],
@@ -730,8 +727,7 @@ uint16_t rtcm3_encode_1012(const rtcm_obs_message *msg_1012, uint8_t buff[]) {
                                  sat_obs->fcn,
                                  buff,
                                  &bit);
-      rtcm_setbitu(
-          buff, bit, 8, (uint8_t)round(sat_obs->obs[L2_FREQ].cnr * 4.0));
+      rtcm_setbitu(buff, bit, 8, encode_cnr(&sat_obs->obs[L2_FREQ]));
       bit += 8;
       ++num_sats;
       if (num_sats >= RTCM_MAX_SATS) {
-- 
2.43.0


From 693be2c70a28eea30a71fde6ba5e37427d3f7c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 019/118] fix: librtcm: encode at most 31 satellites in 1001 to
 1012

---
 c/librtcm/include/rtcm3/constants.h |  1 +
 c/librtcm/src/encode.c              | 24 ++++++++++++------------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/c/librtcm/include/rtcm3/constants.h b/c/librtcm/include/rtcm3/constants.h
index 8f9b33f..c17ce91 100644
--- a/c/librtcm/include/rtcm3/constants.h
+++ b/c/librtcm/include/rtcm3/constants.h
@@ -16,6 +16,7 @@
 #define PRUNIT_GPS 299792.458 /**< RTCM v3 Unit of GPS Pseudorange (m) */
 #define PRUNIT_GLO 599584.916 /**< RTCM v3 Unit of GLO Pseudorange (m) */
 #define RTCM_MAX_SATS 32
+#define RTCM_MAX_OBS_SATS 31 /* Maximum number of satellites in 1001..1012 */
 #define CP_INVALID 0xFFF80000      /* Unsigned bit pattern 0x80000 */
 #define PR_L1_INVALID 0xFFF80000   /* Unsigned bit pattern 0x80000 */
 #define PR_L2_INVALID 0xFFFFE000   /* Unsigned bit pattern 0x20000 */
diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 6c70d3b..1993308 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -408,8 +408,8 @@ uint16_t rtcm3_encode_1001(const rtcm_obs_message *msg_1001, uint8_t buff[]) {
                              buff,
                              &bit);
       ++num_sats;
-      if (num_sats >= RTCM_MAX_SATS) {
-        /* sanity */
+      if (num_sats >= RTCM_MAX_OBS_SATS) {
+        /* the number of satellites is a 5-bit field */
         break;
       }
     }
@@ -459,8 +459,8 @@ uint16_t rtcm3_encode_1002(const rtcm_obs_message *msg_1002, uint8_t buff[]) {
       rtcm_setbitu(buff, bit, 8, encode_cnr(&msg_1002->sats[i].obs[L1_FREQ]));
       bit += 8;
       ++num_sats;
-      if (num_sats >= RTCM_MAX_SATS) {
-        /* sanity */
+      if (num_sats >= RTCM_MAX_OBS_SATS) {
+        /* the number of satellites is a 5-bit field */
         break;
       }
     }
@@ -495,8 +495,8 @@ uint16_t rtcm3_encode_1003(const rtcm_obs_message *msg_1003, uint8_t buff[]) {
                              buff,
                              &bit);
       ++num_sats;
-      if (num_sats >= RTCM_MAX_SATS) {
-        /* sanity */
+      if (num_sats >= RTCM_MAX_OBS_SATS) {
+        /* the number of satellites is a 5-bit field */
         break;
       }
     }
@@ -541,8 +541,8 @@ uint16_t rtcm3_encode_1004(const rtcm_obs_message *msg_1004, uint8_t buff[]) {
       rtcm_setbitu(buff, bit, 8, encode_cnr(&msg_1004->sats[i].obs[L2_FREQ]));
       bit += 8;
       ++num_sats;
-      if (num_sats >= RTCM_MAX_SATS) {
-        /* sanity */
+      if (num_sats >= RTCM_MAX_OBS_SATS) {
+        /* the number of satellites is a 5-bit field */
         break;
       }
     }
@@ -682,8 +682,8 @@ uint16_t rtcm3_encode_1010(const rtcm_obs_message *msg_1010, uint8_t buff[]) {
       rtcm_setbitu(buff, bit, 8, encode_cnr(&sat_obs->obs[L1_FREQ]));
       bit += 8;
       ++num_sats;
-      if (num_sats >= RTCM_MAX_SATS) {
-        /* sanity */
+      if (num_sats >= RTCM_MAX_OBS_SATS) {
+        /* the number of satellites is a 5-bit field */
         break;
       }
     }
@@ -730,8 +730,8 @@ uint16_t rtcm3_encode_1012(const rtcm_obs_message *msg_1012, uint8_t buff[]) {
       rtcm_setbitu(buff, bit, 8, encode_cnr(&sat_obs->obs[L2_FREQ]));
       bit += 8;
       ++num_sats;
-      if (num_sats >= RTCM_MAX_SATS) {
-        /* sanity */
+      if (num_sats >= RTCM_MAX_OBS_SATS) {
+        /* the number of satellites is a 5-bit field */
         break;
       }
     }
-- 
2.43.0


From f199ca3e06a41186f4a5280a54fc4dc45721ae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 020/118] fix: librtcm: 1012 L2 carrier phase needs a known
 frequency channel

---
 c/librtcm/src/decode.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index 25e6ce3..a1b5705 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -821,6 +821,7 @@ rtcm3_rc rtcm3_decode_1012_bitstream(swiftnav_bitstream_t *buff,
     l2_freq_data->flags.fields.valid_pr =
         construct_L2_code(l2_freq_data, l1_freq_data, l2_pr);
     l2_freq_data->flags.fields.valid_cp =
+        (msg_1012->sats[i].fcn <= MT1012_GLO_MAX_FCN) &&
         construct_L2_phase(l2_freq_data,
                            l1_freq_data,
                            phr_pr_diff,
-- 
2.43.0


From 7b317584bd6a2577a977163c5b06bfacd0f28126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 021/118] fix: librtcm: skip satellites whose pseudorange does
 not fit in 1001 to 1012

---
 c/librtcm/src/encode.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 1993308..c3691d7 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -137,6 +137,21 @@ static int32_t encode_diff_phaserange(double cp_pr, double freq) {
   return (int32_t)ppr;
 }
 
+/* Check that the L1 observation is complete and its pseudorange fits in the
+ * 8-bit (GPS, DF014) or 7-bit (GLO, DF044) modulus ambiguity field */
+static bool is_l1_encodable(const rtcm_freq_data *l1, double max_pr) {
+  return l1->flags.fields.valid_pr && l1->flags.fields.valid_cp &&
+         l1->pseudorange >= 0 && l1->pseudorange < max_pr;
+}
+
+static bool is_l1_encodable_gps(const rtcm_freq_data *l1) {
+  return is_l1_encodable(l1, PRUNIT_GPS * 256);
+}
+
+static bool is_l1_encodable_glo(const rtcm_freq_data *l1) {
+  return is_l1_encodable(l1, PRUNIT_GLO * 128);
+}
+
 /* Encode CNR (DF015, DF020, DF045, DF050), zero means not available */
 static uint8_t encode_cnr(const rtcm_freq_data *freq_data) {
   if (!freq_data->flags.fields.valid_cnr || freq_data->cnr < 0) {
@@ -398,8 +413,7 @@ uint16_t rtcm3_encode_1001(const rtcm_obs_message *msg_1001, uint8_t buff[]) {
 
   uint8_t num_sats = 0;
   for (uint8_t i = 0; i < msg_1001->header.n_sat; i++) {
-    if (msg_1001->sats[i].obs[L1_FREQ].flags.fields.valid_pr &&
-        msg_1001->sats[i].obs[L1_FREQ].flags.fields.valid_cp) {
+    if (is_l1_encodable_gps(&msg_1001->sats[i].obs[L1_FREQ])) {
       rtcm_setbitu(buff, bit, 6, msg_1001->sats[i].svId);
       bit += 6;
       encode_basic_freq_data(&msg_1001->sats[i].obs[L1_FREQ],
@@ -440,8 +454,7 @@ uint16_t rtcm3_encode_1002(const rtcm_obs_message *msg_1002, uint8_t buff[]) {
 
   uint8_t num_sats = 0;
   for (uint8_t i = 0; i < msg_1002->header.n_sat; i++) {
-    if (msg_1002->sats[i].obs[L1_FREQ].flags.fields.valid_pr &&
-        msg_1002->sats[i].obs[L1_FREQ].flags.fields.valid_cp) {
+    if (is_l1_encodable_gps(&msg_1002->sats[i].obs[L1_FREQ])) {
       rtcm_setbitu(buff, bit, 6, msg_1002->sats[i].svId);
       bit += 6;
       encode_basic_freq_data(&msg_1002->sats[i].obs[L1_FREQ],
@@ -478,9 +491,8 @@ uint16_t rtcm3_encode_1003(const rtcm_obs_message *msg_1003, uint8_t buff[]) {
 
   uint8_t num_sats = 0;
   for (uint8_t i = 0; i < msg_1003->header.n_sat; i++) {
-    flag_bf l1_flags = msg_1003->sats[i].obs[L1_FREQ].flags;
     flag_bf l2_flags = msg_1003->sats[i].obs[L2_FREQ].flags;
-    if (l1_flags.fields.valid_pr && l1_flags.fields.valid_cp &&
+    if (is_l1_encodable_gps(&msg_1003->sats[i].obs[L1_FREQ]) &&
         l2_flags.fields.valid_pr && l2_flags.fields.valid_cp) {
       rtcm_setbitu(buff, bit, 6, msg_1003->sats[i].svId);
       bit += 6;
@@ -514,8 +526,7 @@ uint16_t rtcm3_encode_1004(const rtcm_obs_message *msg_1004, uint8_t buff[]) {
 
   uint8_t num_sats = 0;
   for (uint8_t i = 0; i < msg_1004->header.n_sat; i++) {
-    flag_bf l1_flags = msg_1004->sats[i].obs[L1_FREQ].flags;
-    if (l1_flags.fields.valid_pr && l1_flags.fields.valid_cp) {
+    if (is_l1_encodable_gps(&msg_1004->sats[i].obs[L1_FREQ])) {
       rtcm_setbitu(buff, bit, 6, msg_1004->sats[i].svId);
       bit += 6;
       encode_basic_freq_data(&msg_1004->sats[i].obs[L1_FREQ],
@@ -662,8 +673,7 @@ uint16_t rtcm3_encode_1010(const rtcm_obs_message *msg_1010, uint8_t buff[]) {
 
   uint8_t num_sats = 0;
   for (uint8_t i = 0; i < msg_1010->header.n_sat; i++) {
-    if (msg_1010->sats[i].obs[L1_FREQ].flags.fields.valid_pr &&
-        msg_1010->sats[i].obs[L1_FREQ].flags.fields.valid_cp) {
+    if (is_l1_encodable_glo(&msg_1010->sats[i].obs[L1_FREQ])) {
       const rtcm_sat_data *sat_obs = &msg_1010->sats[i];
       rtcm_setbitu(buff, bit, 6, sat_obs->svId);
       bit += 6;
@@ -701,8 +711,7 @@ uint16_t rtcm3_encode_1012(const rtcm_obs_message *msg_1012, uint8_t buff[]) {
 
   uint8_t num_sats = 0;
   for (uint8_t i = 0; i < msg_1012->header.n_sat; i++) {
-    flag_bf l1_flags = msg_1012->sats[i].obs[L1_FREQ].flags;
-    if (l1_flags.fields.valid_pr && l1_flags.fields.valid_cp) {
+    if (is_l1_encodable_glo(&msg_1012->sats[i].obs[L1_FREQ])) {
       const rtcm_sat_data *sat_obs = &msg_1012->sats[i];
       rtcm_setbitu(buff, bit, 6, sat_obs->svId);
       bit += 6;
-- 
2.43.0


From 9d81d13e034c87f3cad86790a96e0b124b0227a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 022/118] fix: librtcm: keep MSM messages with many satellites
 or cells inside their arrays

---
 c/librtcm/include/rtcm3/messages.h | 2 +-
 c/librtcm/src/decode.c             | 4 ++++
 c/librtcm/src/encode.c             | 5 ++---
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/c/librtcm/include/rtcm3/messages.h b/c/librtcm/include/rtcm3/messages.h
index 9178463..59aa698 100644
--- a/c/librtcm/include/rtcm3/messages.h
+++ b/c/librtcm/include/rtcm3/messages.h
@@ -132,7 +132,7 @@ typedef struct {
 
 typedef struct {
   rtcm_msm_header header;
-  rtcm_msm_sat_data sats[RTCM_MAX_SATS];
+  rtcm_msm_sat_data sats[MSM_SATELLITE_MASK_SIZE];
   rtcm_msm_signal_data signals[MSM_MAX_CELLS];
 } rtcm_msm_message;
 
diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index a1b5705..be0812a 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -247,6 +247,10 @@ static rtcm3_rc rtcm3_read_msm_header(swiftnav_bitstream_t *buff,
       count_mask_values(MSM_SATELLITE_MASK_SIZE, header->satellite_mask);
   uint8_t num_sigs =
       count_mask_values(MSM_SIGNAL_MASK_SIZE, header->signal_mask);
+  if (num_sats * num_sigs > MSM_MAX_CELLS) {
+    /* Too large cell mask */
+    return RC_INVALID_MESSAGE;
+  }
   uint8_t cell_mask_size = num_sats * num_sigs;
 
   for (uint8_t i = 0; i < cell_mask_size; i++) {
diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index c3691d7..d10c52f 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -1095,13 +1095,12 @@ static uint16_t rtcm3_encode_msm_internal(const rtcm_msm_message *msg,
       count_mask_values(MSM_SATELLITE_MASK_SIZE, header->satellite_mask);
   uint8_t num_sigs =
       count_mask_values(MSM_SIGNAL_MASK_SIZE, header->signal_mask);
-  uint8_t cell_mask_size = num_sats * num_sigs;
-  uint8_t num_cells = count_mask_values(cell_mask_size, header->cell_mask);
-
   if (num_sats * num_sigs > MSM_MAX_CELLS) {
     /* Too large cell mask, should already have been handled by caller */
     return 0;
   }
+  uint8_t cell_mask_size = num_sats * num_sigs;
+  uint8_t num_cells = count_mask_values(cell_mask_size, header->cell_mask);
 
   /* Header */
   uint16_t bit = rtcm3_encode_msm_header(header, cons, buff);
-- 
2.43.0


From 4f1a6993d5bcf8ed2faef4b482eef210d2a1b583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 023/118] fix: librtcm: no empty variable length arrays for MSM
 messages without cells

---
 c/librtcm/src/decode.c | 26 +++++++++++++-------------
 c/librtcm/src/encode.c | 24 ++++++++++++------------
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index be0812a..4d0e736 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -1229,12 +1229,12 @@ static rtcm3_rc rtcm3_decode_msm_internal(swiftnav_bitstream_t *buff,
 
   /* Satellite Data */
 
-  double rough_range_ms[num_sats];
-  double rough_rate_m_s[num_sats];
-  uint8_t sat_info[num_sats];
-  bool rough_range_valid[num_sats];
-  bool rough_rate_valid[num_sats];
-  bool sat_info_valid[num_sats];
+  double rough_range_ms[MSM_SATELLITE_MASK_SIZE];
+  double rough_rate_m_s[MSM_SATELLITE_MASK_SIZE];
+  uint8_t sat_info[MSM_SATELLITE_MASK_SIZE];
+  bool rough_range_valid[MSM_SATELLITE_MASK_SIZE];
+  bool rough_rate_valid[MSM_SATELLITE_MASK_SIZE];
+  bool sat_info_valid[MSM_SATELLITE_MASK_SIZE];
 
   ret = decode_msm_sat_data(buff,
                             num_sats,
@@ -1251,13 +1251,13 @@ static rtcm3_rc rtcm3_decode_msm_internal(swiftnav_bitstream_t *buff,
 
   /* Signal Data */
 
-  double fine_pr_ms[num_cells];
-  double fine_cp_ms[num_cells];
-  double lock_time[num_cells];
-  bool hca_indicator[num_cells];
-  double cnr[num_cells];
-  double fine_range_rate_m_s[num_cells];
-  flag_bf flags[num_cells];
+  double fine_pr_ms[MSM_MAX_CELLS];
+  double fine_cp_ms[MSM_MAX_CELLS];
+  double lock_time[MSM_MAX_CELLS];
+  bool hca_indicator[MSM_MAX_CELLS];
+  double cnr[MSM_MAX_CELLS];
+  double fine_range_rate_m_s[MSM_MAX_CELLS];
+  flag_bf flags[MSM_MAX_CELLS];
 
   memset(fine_pr_ms, 0, sizeof(fine_pr_ms));
   memset(fine_cp_ms, 0, sizeof(fine_cp_ms));
diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index d10c52f..f51f265 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -933,12 +933,12 @@ static uint16_t rtcm3_encode_msm_header(const rtcm_msm_header *header,
 static void encode_msm_sat_data(const rtcm_msm_message *msg,
                                 const uint8_t num_sats,
                                 const msm_enum msm_type,
-                                double rough_range_ms[num_sats],
-                                double rough_rate_m_s[num_sats],
+                                double rough_range_ms[],
+                                double rough_rate_m_s[],
                                 uint8_t buff[],
                                 uint16_t *bit) {
   /* number of integer milliseconds, DF397 */
-  uint8_t integer_ms[num_sats];
+  uint8_t integer_ms[MSM_SATELLITE_MASK_SIZE];
   for (uint8_t i = 0; i < num_sats; i++) {
     integer_ms[i] = (uint8_t)floor(msg->sats[i].rough_range_ms);
     rtcm_setbitu(buff, *bit, 8, integer_ms[i]);
@@ -1107,8 +1107,8 @@ static uint16_t rtcm3_encode_msm_internal(const rtcm_msm_message *msg,
 
   /* Satellite Data */
 
-  double rough_range_ms[num_sats];
-  double rough_rate_m_s[num_sats];
+  double rough_range_ms[MSM_SATELLITE_MASK_SIZE];
+  double rough_rate_m_s[MSM_SATELLITE_MASK_SIZE];
 
   /* Satellite data */
   encode_msm_sat_data(
@@ -1116,13 +1116,13 @@ static uint16_t rtcm3_encode_msm_internal(const rtcm_msm_message *msg,
 
   /* Signal Data */
 
-  double fine_pr_ms[num_cells];
-  double fine_cp_ms[num_cells];
-  double lock_time[num_cells];
-  bool hca_indicator[num_cells];
-  double cnr[num_cells];
-  double fine_range_rate_m_s[num_cells];
-  flag_bf flags[num_cells];
+  double fine_pr_ms[MSM_MAX_CELLS];
+  double fine_cp_ms[MSM_MAX_CELLS];
+  double lock_time[MSM_MAX_CELLS];
+  bool hca_indicator[MSM_MAX_CELLS];
+  double cnr[MSM_MAX_CELLS];
+  double fine_range_rate_m_s[MSM_MAX_CELLS];
+  flag_bf flags[MSM_MAX_CELLS];
 
   memset(fine_pr_ms, 0, sizeof(fine_pr_ms));
   memset(fine_cp_ms, 0, sizeof(fine_cp_ms));
-- 
2.43.0


From 7a00055f41310a5887454fb9d75f2a86490de15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 024/118] fix: librtcm: carry rounded MSM rough ranges into the
 next millisecond

---
 c/librtcm/src/encode.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index f51f265..c84ddaf 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -939,8 +939,18 @@ static void encode_msm_sat_data(const rtcm_msm_message *msg,
                                 uint16_t *bit) {
   /* number of integer milliseconds, DF397 */
   uint8_t integer_ms[MSM_SATELLITE_MASK_SIZE];
+  uint16_t range_modulo_encoded[MSM_SATELLITE_MASK_SIZE];
   for (uint8_t i = 0; i < num_sats; i++) {
-    integer_ms[i] = (uint8_t)floor(msg->sats[i].rough_range_ms);
+    /* round to the resolution of DF398 first, so that a carry gets into the
+     * integer part */
+    double range = round(1024 * msg->sats[i].rough_range_ms);
+    if (range >= 0 && range < 1024 * MSM_ROUGH_RANGE_INVALID) {
+      integer_ms[i] = (uint8_t)(range / 1024);
+      range_modulo_encoded[i] = (uint16_t)(range - 1024 * integer_ms[i]);
+    } else {
+      integer_ms[i] = MSM_ROUGH_RANGE_INVALID;
+      range_modulo_encoded[i] = 0;
+    }
     rtcm_setbitu(buff, *bit, 8, integer_ms[i]);
     *bit += 8;
   }
@@ -953,13 +963,9 @@ static void encode_msm_sat_data(const rtcm_msm_message *msg,
 
   /* rough range modulo 1 ms, DF398 */
   for (uint8_t i = 0; i < num_sats; i++) {
-    double pr = msg->sats[i].rough_range_ms;
-    /* remove integer ms part */
-    double range_modulo_ms = pr - integer_ms[i];
-    uint16_t range_modulo_encoded = (uint16_t)round(1024 * range_modulo_ms);
-    rtcm_setbitu(buff, *bit, 10, range_modulo_encoded);
+    rtcm_setbitu(buff, *bit, 10, range_modulo_encoded[i]);
     *bit += 10;
-    rough_range_ms[i] = integer_ms[i] + (double)range_modulo_encoded / 1024;
+    rough_range_ms[i] = integer_ms[i] + (double)range_modulo_encoded[i] / 1024;
   }
 
   /* range rate, m/s, DF399*/
-- 
2.43.0


From d7767651810650eafaadca0625af68660d3ac5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 025/118] fix: librtcm: keep MSM rough range rates and CNR
 within their fields

---
 c/librtcm/src/encode.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index c84ddaf..e96c3b6 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -971,7 +971,10 @@ static void encode_msm_sat_data(const rtcm_msm_message *msg,
   /* range rate, m/s, DF399*/
   if (MSM5 == msm_type) {
     for (uint8_t i = 0; i < num_sats; i++) {
-      int16_t range_rate = (int16_t)msg->sats[i].rough_range_rate_m_s;
+      int16_t range_rate = MSM_ROUGH_RATE_INVALID;
+      if (fabs(msg->sats[i].rough_range_rate_m_s) < -MSM_ROUGH_RATE_INVALID) {
+        range_rate = (int16_t)msg->sats[i].rough_range_rate_m_s;
+      }
       rtcm_setbits(buff, *bit, 14, range_rate);
       *bit += 14;
       rough_rate_m_s[i] = range_rate;
@@ -1046,7 +1049,7 @@ static void encode_msm_cnrs(const uint8_t num_cells,
   /* DF403 */
   for (uint16_t i = 0; i < num_cells; i++) {
     if (flags[i].fields.valid_cnr) {
-      rtcm_setbitu(buff, *bit, 6, (uint8_t)round(cnr[i]));
+      rtcm_setbitu(buff, *bit, 6, (uint8_t)fmin(fmax(round(cnr[i]), 0), 63));
     } else {
       rtcm_setbitu(buff, *bit, 6, 0);
     }
-- 
2.43.0


From 9f60371cce2ded41aa8232f0eca5f529a940e8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 026/118] fix: librtcm: refuse messages which end inside
 skipped or nested fields

---
 c/librtcm/src/decode.c         | 11 +++++++----
 c/librtcm/src/decode_helpers.h |  8 ++++++++
 c/librtcm/src/eph_decode.c     | 36 +++++++++++++++++-----------------
 c/librtcm/src/ssr_decode.c     |  8 ++++++--
 4 files changed, 39 insertions(+), 24 deletions(-)

diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index 4d0e736..ac46f0d 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -216,7 +216,7 @@ static rtcm3_rc rtcm3_read_msm_header(swiftnav_bitstream_t *buff,
   BITSTREAM_DECODE_U16(buff, header->stn_id, 12);
   if (RTCM_CONSTELLATION_GLO == cons) {
     /* skip the day of week, it is handled in gnss_converters */
-    swiftnav_bitstream_remove(buff, 3);
+    BITSTREAM_SKIP(buff, 3);
     /* for GLONASS, the epoch time is the time of day in ms */
     BITSTREAM_DECODE_U32(buff, header->tow_ms, 27);
   } else if (RTCM_CONSTELLATION_BDS == cons) {
@@ -567,7 +567,7 @@ static rtcm3_rc rtcm3_decode_1005_base(swiftnav_bitstream_t *buff,
   BITSTREAM_DECODE_S64(buff, tmp, 38);
   msg_1005->arp_x = (double)(tmp) / 10000.0;
   BITSTREAM_DECODE_U8(buff, msg_1005->osc_ind, 1);
-  swiftnav_bitstream_remove(buff, 1);
+  BITSTREAM_SKIP(buff, 1);
   BITSTREAM_DECODE_S64(buff, tmp, 38);
   msg_1005->arp_y = (double)(tmp) / 10000.0;
   BITSTREAM_DECODE_U8(buff, msg_1005->quart_cycle_ind, 2);
@@ -615,7 +615,10 @@ rtcm3_rc rtcm3_decode_1006_bitstream(swiftnav_bitstream_t *buff,
     return RC_MESSAGE_TYPE_MISMATCH;
   }
 
-  rtcm3_decode_1005_base(buff, &msg_1006->msg_1005);
+  rtcm3_rc ret = rtcm3_decode_1005_base(buff, &msg_1006->msg_1005);
+  if (RC_OK != ret) {
+    return ret;
+  }
   uint32_t tmp;
   BITSTREAM_DECODE_U32(buff, tmp, 16);
   msg_1006->ant_height = (double)(tmp) / 10000.0;
@@ -947,7 +950,7 @@ rtcm3_rc rtcm3_decode_1230_bitstream(swiftnav_bitstream_t *buff,
   BITSTREAM_DECODE_U16(buff, msg_1230->stn_id, 12);
   BITSTREAM_DECODE_U8(buff, msg_1230->bias_indicator, 1);
   /* 3 Reserved bits */
-  swiftnav_bitstream_remove(buff, 3);
+  BITSTREAM_SKIP(buff, 3);
   BITSTREAM_DECODE_U8(buff, msg_1230->fdma_signal_mask, 4);
   if (msg_1230->fdma_signal_mask & 0x08) {
     s32 tmp;
diff --git a/c/librtcm/src/decode_helpers.h b/c/librtcm/src/decode_helpers.h
index 9436cf0..f40e986 100644
--- a/c/librtcm/src/decode_helpers.h
+++ b/c/librtcm/src/decode_helpers.h
@@ -130,6 +130,14 @@
     (field) = decode_s8_temp;                                                  \
   } while (false)
 
+/* skip bits, which must be there */
+#define BITSTREAM_SKIP(bitstream, n_bits)                \
+  do {                                                   \
+    if (!swiftnav_bitstream_remove(bitstream, n_bits)) { \
+      return RC_INVALID_MESSAGE;                         \
+    }                                                    \
+  } while (false)
+
 /* macros for reading rcv/ant descriptor strings */
 #define GET_STR_LEN(TheBuff, TheIdx, TheOutput)         \
   do {                                                  \
diff --git a/c/librtcm/src/eph_decode.c b/c/librtcm/src/eph_decode.c
index 781a114..c896819 100644
--- a/c/librtcm/src/eph_decode.c
+++ b/c/librtcm/src/eph_decode.c
@@ -110,7 +110,7 @@ rtcm3_rc rtcm3_decode_qzss_eph_bitstream(swiftnav_bitstream_t *buff,
   BITSTREAM_DECODE_S32(buff, msg_eph->data.kepler.omegadot, 24);
   BITSTREAM_DECODE_S16(buff, msg_eph->data.kepler.inc_dot, 14);
   /* L2 data bit */
-  swiftnav_bitstream_remove(buff, 2);
+  BITSTREAM_SKIP(buff, 2);
   BITSTREAM_DECODE_U16(buff, msg_eph->wn, 10);
   BITSTREAM_DECODE_U16(buff, msg_eph->ura, 4);
   BITSTREAM_DECODE_U8(buff, msg_eph->health_bits, 6);
@@ -140,17 +140,17 @@ rtcm3_rc rtcm3_decode_glo_eph_bitstream(swiftnav_bitstream_t *buff,
   BITSTREAM_DECODE_U8(buff, msg_eph->sat_id, 6);
   BITSTREAM_DECODE_U8(buff, msg_eph->data.glo.fcn, 5);
   /*alm health ind = */
-  swiftnav_bitstream_remove(buff, 1);
+  BITSTREAM_SKIP(buff, 1);
   /*alm health ind valid = */
-  swiftnav_bitstream_remove(buff, 1);
+  BITSTREAM_SKIP(buff, 1);
   BITSTREAM_DECODE_U32(buff, msg_eph->fit_interval, 2);
   /* tk */
-  swiftnav_bitstream_remove(buff, 12);
+  BITSTREAM_SKIP(buff, 12);
   /* most significant bit of Bn */
   uint8_t bn_msb;
   BITSTREAM_DECODE_U8(buff, bn_msb, 1);
   /* P2 */
-  swiftnav_bitstream_remove(buff, 1);
+  BITSTREAM_SKIP(buff, 1);
   BITSTREAM_DECODE_U8(buff, msg_eph->data.glo.t_b, 7);
   rtcm3_rc ret =
       rtcm_get_sign_magnitude_bitstream(buff, 24, &msg_eph->data.glo.vel[0]);
@@ -190,7 +190,7 @@ rtcm3_rc rtcm3_decode_glo_eph_bitstream(swiftnav_bitstream_t *buff,
     return ret;
   }
   /* P3 */
-  swiftnav_bitstream_remove(buff, 1);
+  BITSTREAM_SKIP(buff, 1);
   s32 gamma;
   ret = rtcm_get_sign_magnitude_bitstream(buff, 11, &gamma);
   if (ret != RC_OK) {
@@ -198,7 +198,7 @@ rtcm3_rc rtcm3_decode_glo_eph_bitstream(swiftnav_bitstream_t *buff,
   }
   msg_eph->data.glo.gamma = (s16)gamma;
   /* P */
-  swiftnav_bitstream_remove(buff, 2);
+  BITSTREAM_SKIP(buff, 2);
   /* health flag in string 3 */
   uint8_t mln3;
   BITSTREAM_DECODE_U8(buff, mln3, 1);
@@ -213,30 +213,30 @@ rtcm3_rc rtcm3_decode_glo_eph_bitstream(swiftnav_bitstream_t *buff,
   }
   msg_eph->data.glo.d_tau = (uint8_t)d_tau;
   /* EN */
-  swiftnav_bitstream_remove(buff, 5);
+  BITSTREAM_SKIP(buff, 5);
   /* P4 */
-  swiftnav_bitstream_remove(buff, 1);
+  BITSTREAM_SKIP(buff, 1);
   BITSTREAM_DECODE_U16(buff, msg_eph->ura, 4);
   /* NT */
-  swiftnav_bitstream_remove(buff, 11);
+  BITSTREAM_SKIP(buff, 11);
   /* M */
-  swiftnav_bitstream_remove(buff, 2);
+  BITSTREAM_SKIP(buff, 2);
   uint32_t additional_data;
   BITSTREAM_DECODE_U32(buff, additional_data, 1);
   uint8_t mln5 = 0;
   if (additional_data) {
     /* NA  */
-    swiftnav_bitstream_remove(buff, 11);
+    BITSTREAM_SKIP(buff, 11);
     /* Tc */
-    swiftnav_bitstream_remove(buff, 32);
+    BITSTREAM_SKIP(buff, 32);
     /* N4 */
-    swiftnav_bitstream_remove(buff, 5);
+    BITSTREAM_SKIP(buff, 5);
     /* Tgps */
-    swiftnav_bitstream_remove(buff, 22);
+    BITSTREAM_SKIP(buff, 22);
     /* health flag in string 5 */
     BITSTREAM_DECODE_U8(buff, mln5, 1);
     /* reserved */
-    swiftnav_bitstream_remove(buff, 7);
+    BITSTREAM_SKIP(buff, 7);
   }
   msg_eph->health_bits = bn_msb | mln3 | mln5;
   return RC_OK;
@@ -359,7 +359,7 @@ rtcm3_rc rtcm3_decode_gal_eph_inav_bitstream(swiftnav_bitstream_t *buff,
   BITSTREAM_DECODE_S32(buff, msg_eph->data.kepler.tgd.gal_s[1], 10);
   BITSTREAM_DECODE_S8(buff, msg_eph->health_bits, 6);
   /* reserved */
-  swiftnav_bitstream_remove(buff, 2);
+  BITSTREAM_SKIP(buff, 2);
 
   return RC_OK;
 }
@@ -392,7 +392,7 @@ rtcm3_rc rtcm3_decode_gal_eph_fnav_bitstream(swiftnav_bitstream_t *buff,
   msg_eph->data.kepler.tgd.gal_s[1] = 0;
   BITSTREAM_DECODE_S8(buff, msg_eph->health_bits, 3);
   /* reserved */
-  swiftnav_bitstream_remove(buff, 7);
+  BITSTREAM_SKIP(buff, 7);
 
   return RC_OK;
 }
diff --git a/c/librtcm/src/ssr_decode.c b/c/librtcm/src/ssr_decode.c
index e0e2566..802a9a7 100644
--- a/c/librtcm/src/ssr_decode.c
+++ b/c/librtcm/src/ssr_decode.c
@@ -281,7 +281,9 @@ rtcm3_rc rtcm3_decode_clock_bitstream(swiftnav_bitstream_t *buff,
     }
 
     clock->sat_id = sat_id;
-    decode_ssr_clock(buff, clock);
+    if (!(RC_OK == decode_ssr_clock(buff, clock))) {
+      return RC_INVALID_MESSAGE;
+    }
   }
   return RC_OK;
 }
@@ -323,7 +325,9 @@ rtcm3_rc rtcm3_decode_orbit_clock_bitstream(
                        buff, msg_orbit_clock->header.constellation, orbit))) {
       return RC_INVALID_MESSAGE;
     }
-    decode_ssr_clock(buff, clock);
+    if (!(RC_OK == decode_ssr_clock(buff, clock))) {
+      return RC_INVALID_MESSAGE;
+    }
   }
   return RC_OK;
 }
-- 
2.43.0


From 64b62a58f163be496754afb889110ebc7adc58b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 027/118] fix: librtcm: encode toc and toe of 1019 in their own
 fields

---
 c/librtcm/src/eph_encode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/eph_encode.c b/c/librtcm/src/eph_encode.c
index 2e159a1..891a603 100644
--- a/c/librtcm/src/eph_encode.c
+++ b/c/librtcm/src/eph_encode.c
@@ -32,7 +32,7 @@ uint16_t rtcm3_encode_gps_eph(const rtcm_msg_eph *msg_1019, uint8_t buff[]) {
   bit += 14;
   rtcm_setbitu(buff, bit, 8, msg_1019->data.kepler.iode);
   bit += 8;
-  rtcm_setbitu(buff, bit, 16, msg_1019->toe);
+  rtcm_setbitu(buff, bit, 16, msg_1019->data.kepler.toc);
   bit += 16;
   rtcm_setbits(buff, bit, 8, msg_1019->data.kepler.af2);
   bit += 8;
@@ -56,7 +56,7 @@ uint16_t rtcm3_encode_gps_eph(const rtcm_msg_eph *msg_1019, uint8_t buff[]) {
   bit += 16;
   rtcm_setbitu(buff, bit, 32, msg_1019->data.kepler.sqrta);
   bit += 32;
-  rtcm_setbitu(buff, bit, 16, msg_1019->data.kepler.toc);
+  rtcm_setbitu(buff, bit, 16, msg_1019->toe);
   bit += 16;
   rtcm_setbits(buff, bit, 16, msg_1019->data.kepler.cic);
   bit += 16;
-- 
2.43.0


From 9f8a4660117e049af2b0b989b6e2be792e2487f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 028/118] fix: librtcm: return the error code of truncated
 Galileo ephemerides

---
 c/librtcm/src/eph_decode.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/eph_decode.c b/c/librtcm/src/eph_decode.c
index c896819..dddd471 100644
--- a/c/librtcm/src/eph_decode.c
+++ b/c/librtcm/src/eph_decode.c
@@ -299,9 +299,10 @@ rtcm3_rc rtcm3_decode_bds_eph_bitstream(swiftnav_bitstream_t *buff,
  *
  * \param buff The input data buffer
  * \param msg_eph RTCM message struct
- * \return bit position in the RTCM frame
+ * \return  - RC_OK : Success
+ *          - RC_INVALID_MESSAGE : Message too short
  */
-static uint16_t rtcm3_decode_gal_eph_common(swiftnav_bitstream_t *buff,
+static rtcm3_rc rtcm3_decode_gal_eph_common(swiftnav_bitstream_t *buff,
                                             rtcm_msg_eph *msg_eph) {
   assert(msg_eph);
   BITSTREAM_DECODE_U8(buff, msg_eph->sat_id, 6);
-- 
2.43.0


From b9408d9e40f01396f9536c726a0b2abca301fc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 029/118] fix: librtcm: do not sign extend Galileo health bits

---
 c/librtcm/src/eph_decode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/eph_decode.c b/c/librtcm/src/eph_decode.c
index dddd471..10b50b9 100644
--- a/c/librtcm/src/eph_decode.c
+++ b/c/librtcm/src/eph_decode.c
@@ -358,7 +358,7 @@ rtcm3_rc rtcm3_decode_gal_eph_inav_bitstream(swiftnav_bitstream_t *buff,
 
   BITSTREAM_DECODE_S32(buff, msg_eph->data.kepler.tgd.gal_s[0], 10);
   BITSTREAM_DECODE_S32(buff, msg_eph->data.kepler.tgd.gal_s[1], 10);
-  BITSTREAM_DECODE_S8(buff, msg_eph->health_bits, 6);
+  BITSTREAM_DECODE_U8(buff, msg_eph->health_bits, 6);
   /* reserved */
   BITSTREAM_SKIP(buff, 2);
 
@@ -391,7 +391,7 @@ rtcm3_rc rtcm3_decode_gal_eph_fnav_bitstream(swiftnav_bitstream_t *buff,
 
   BITSTREAM_DECODE_S32(buff, msg_eph->data.kepler.tgd.gal_s[0], 10);
   msg_eph->data.kepler.tgd.gal_s[1] = 0;
-  BITSTREAM_DECODE_S8(buff, msg_eph->health_bits, 3);
+  BITSTREAM_DECODE_U8(buff, msg_eph->health_bits, 3);
   /* reserved */
   BITSTREAM_SKIP(buff, 7);
 
-- 
2.43.0


From d185fc92f5920b692f1528c44a49471d3175dc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 030/118] fix: librtcm: the 1230 bias indicator is one bit wide

---
 c/librtcm/src/encode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index e96c3b6..e4adc80 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -839,7 +839,7 @@ uint16_t rtcm3_encode_1230(const rtcm_msg_1230 *msg_1230, uint8_t buff[]) {
   bit += 12;
   rtcm_setbitu(buff, bit, 12, msg_1230->stn_id);
   bit += 12;
-  rtcm_setbitu(buff, bit, 8, msg_1230->bias_indicator);
+  rtcm_setbitu(buff, bit, 1, msg_1230->bias_indicator);
   bit += 1;
   /* 3 reserved bits */
   rtcm_setbitu(buff, bit, 3, 0);
-- 
2.43.0


From f3e196f62334a7c18fb580cd2a5b1d8da11cea9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 031/118] fix: librtcm: do not decode SSR orbit messages as
 orbit and clock

---
 c/librtcm/src/ssr_decode.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/librtcm/src/ssr_decode.c b/c/librtcm/src/ssr_decode.c
index 802a9a7..b5c6204 100644
--- a/c/librtcm/src/ssr_decode.c
+++ b/c/librtcm/src/ssr_decode.c
@@ -303,7 +303,8 @@ rtcm3_rc rtcm3_decode_orbit_clock_bitstream(
     return RC_INVALID_MESSAGE;
   }
 
-  if (!is_ssr_orbit_clock_message(msg_orbit_clock->header.message_num)) {
+  if (!is_ssr_orbit_clock_message(msg_orbit_clock->header.message_num) ||
+      is_ssr_orbit_message(msg_orbit_clock->header.message_num)) {
     return RC_MESSAGE_TYPE_MISMATCH;
   }
 
-- 
2.43.0


From e22a8ff7e0f802b620b2938ac8cff6c3845affd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 032/118] fix: librtcm: terminate firmware versions inside the
 buffer

---
 c/librtcm/src/sta_decode.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/sta_decode.c b/c/librtcm/src/sta_decode.c
index fe15f9e..7b6195c 100644
--- a/c/librtcm/src/sta_decode.c
+++ b/c/librtcm/src/sta_decode.c
@@ -54,6 +54,7 @@ rtcm3_rc sta_decode_rcc_config(const uint8_t buff[],
 
 rtcm3_rc sta_decode_fwver(const uint8_t buff[], char *fw_ver, uint8_t len) {
   assert(fw_ver);
+  assert(len > 0);
   uint8_t fw_ver_strlen = 0;
   uint16_t bit = 0;
   uint16_t msg_num = rtcm_getbitu(buff, bit, 12);
@@ -68,8 +69,8 @@ rtcm3_rc sta_decode_fwver(const uint8_t buff[], char *fw_ver, uint8_t len) {
   bit += 8;
   /* if fw_ver_strlen is bigger then our len, use the smaller
    * of the two*/
-  if (fw_ver_strlen > len) {
-    fw_ver_strlen = len;
+  if (fw_ver_strlen >= len) {
+    fw_ver_strlen = len - 1;
   }
   GET_STR(buff, bit, fw_ver_strlen, fw_ver);
   fw_ver[fw_ver_strlen] = '\0';
-- 
2.43.0


From 388524ebfdef32a03e54d0d21cdd87ae67bd96c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 033/118] fix: rtcm3_sbp: initialise the orbit/clock cache and
 ephemeris data

---
 c/gnss_converters/src/rtcm3_sbp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 067487d..7bd9064 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -122,6 +122,9 @@ void rtcm2sbp_init(struct rtcm3_sbp_state *state,
   memset(&state->obs_time, 0, sizeof(state->obs_time));
   state->obs_to_send = 0;
 
+  memset(state->orbit_clock_cache, 0, sizeof(state->orbit_clock_cache));
+  memset(&state->eph_data, 0, sizeof(state->eph_data));
+
   rtcm_init_logging(&rtcm_log_callback_fn, state);
 
   sbp_state_init(&state->sbp_state);
-- 
2.43.0


From f1a9042d90faa06991d0a3e07fe5bb27ab74203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 034/118] fix: rtcm3_sbp: take the station id of the MSM
 warning from its own bits

---
 c/gnss_converters/src/rtcm3_sbp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 7bd9064..c1ff69c 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1359,7 +1359,7 @@ void send_MSM_warning(const swiftnav_bitstream_t *bitstream,
     state->sent_msm_warning = true;
     /* Get the stn ID as well */
     uint32_t stn_id = 0;
-    if (swiftnav_bitstream_getbitu(bitstream, &stn_id, 12, 24)) {
+    if (swiftnav_bitstream_getbitu(bitstream, &stn_id, 12, 12)) {
       uint8_t msg[39] = "MSM1-3 Messages currently not supported";
       send_sbp_log_message(
           RTCM_MSM_LOGGING_LEVEL, msg, sizeof(msg), stn_id, state);
-- 
2.43.0


From eed20de0e397d386ffb95b5b0f2f6807f39c2f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 035/118] fix: rtcm3_sbp: do not read the multiple message bit
 past the payload

---
 c/gnss_converters/src/rtcm3_sbp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index c1ff69c..f243a4c 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -629,7 +629,7 @@ void rtcm2sbp_decode_payload(const uint8_t *payload,
    * out the SBP buffer */
   if (message_type >= MSM_MSG_TYPE_MIN && message_type <= MSM_MSG_TYPE_MAX) {
     /* The Multiple message bit DF393 is the same regardless of MSM msg type */
-    if (bitstream.len < MSM_MULTIPLE_BIT_OFFSET) {
+    if (bitstream.len <= MSM_MULTIPLE_BIT_OFFSET) {
       return;
     }
     if (rtcm_getbitu(bitstream.data, MSM_MULTIPLE_BIT_OFFSET, 1) == 0) {
-- 
2.43.0


From b87b2254684dac0be775122ecfc56724dad5a0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 036/118] fix: rtcm3_sbp: do not send the string terminator in
 log messages

---
 c/gnss_converters/src/rtcm3_sbp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index f243a4c..d1eb4fd 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1371,14 +1371,14 @@ void send_buffer_full_error(const struct rtcm3_sbp_state *state) {
   /* TODO: Get the stn ID as well */
   uint8_t log_msg[] = "Too many RTCM observations received!";
   send_sbp_log_message(
-      RTCM_BUFFER_FULL_LOGGING_LEVEL, log_msg, sizeof(log_msg), 0, state);
+      RTCM_BUFFER_FULL_LOGGING_LEVEL, log_msg, sizeof(log_msg) - 1, 0, state);
 }
 
 void send_buffer_not_empty_warning(const struct rtcm3_sbp_state *state) {
   uint8_t log_msg[] =
       "RTCM MSM sequence not properly finished, sending incomplete message";
   send_sbp_log_message(
-      RTCM_MSM_LOGGING_LEVEL, log_msg, sizeof(log_msg), 0, state);
+      RTCM_MSM_LOGGING_LEVEL, log_msg, sizeof(log_msg) - 1, 0, state);
 }
 
 const char *unsupported_code_desc[UNSUPPORTED_CODE_MAX] = {
-- 
2.43.0


From 0f5d49505debe818393ef756288b6a4f2dd8e2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 037/118] fix: rtcm3_sbp: never split a UTF-8 code point when
 truncating a 1029 text

---
 c/gnss_converters/src/rtcm3_sbp.c | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index d1eb4fd..cfc7793 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1306,23 +1306,16 @@ void send_1029(rtcm_msg_1029 *msg_1029, struct rtcm3_sbp_state *state) {
          msg_1029->utf8_code_units,
          message_size - preamble_size);
 
-  /* Check if we've had to truncate the string - we can check for the bit
-   * pattern that denotes a 4 byte code unit as it is the super set of all bit
-   * patterns (2,3 and 4 byte code units) */
-  if (message_size == SBP_MSG_LOG_TEXT_MAX) {
-    if ((message[message_size - 1] & 0xF8) == 0xF0 ||
-        (message[message_size - 1] & 0xE0) == 0xE0 ||
-        (message[message_size - 1] & 0xE0) == 0xC0) {
-      /* We've truncated a 2, 3 or 4 byte code unit */
-      message_size--;
-    } else if ((message[message_size - 1] & 0xF8) == 0xF0 ||
-               (message[message_size - 1] & 0xE0) == 0xE0) {
-      /* We've truncated a 3 or 4 byte code unit */
-      message_size -= 2;
-    } else if ((message[message_size - 1] & 0xF8) == 0xF0) {
-      /* We've truncated a 4 byte code unit */
-      message_size -= 3;
+  /* If the string had to be truncated drop the whole of a code point which
+   * does not fit completely. All bytes of a code point but the first one have
+   * the bit pattern 10xxxxxx */
+  uint8_t text_size = message_size - preamble_size;
+  if (text_size < msg_1029->utf8_code_units_n) {
+    while (text_size > 0 &&
+           (msg_1029->utf8_code_units[text_size] & 0xC0) == 0x80) {
+      text_size--;
     }
+    message_size = preamble_size + text_size;
   }
 
   send_sbp_log_message(
-- 
2.43.0


From 03786d9d696dcaffba53234b1339952886e9ef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:53 +0000
Subject: [PATCH 038/118] fix: rtcm3_sbp: do not read the frame header past a
 short frame

---
 c/gnss_converters/src/rtcm3_sbp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index cfc7793..b3c6a33 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -641,7 +641,7 @@ void rtcm2sbp_decode_payload(const uint8_t *payload,
 void rtcm2sbp_decode_frame(const uint8_t *frame,
                            uint32_t frame_length,
                            struct rtcm3_sbp_state *state) {
-  if (frame_length < 1) {
+  if (frame_length < 3) {
     return;
   }
 
-- 
2.43.0


From 1662a6f31a1a334ecfaf33c5d4ac79869c3e23dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 039/118] fix: rtcm3_sbp: drop observations whose pseudorange
 does not fit SBP

---
 c/gnss_converters/src/rtcm3_sbp.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index b3c6a33..8b9aac0 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -786,6 +786,12 @@ code_t get_glo_sbp_code(u8 freq, u8 rtcm_code, struct rtcm3_sbp_state *state) {
   return code;
 }
 
+/* true if the pseudorange is representable in an SBP observation */
+static bool pseudorange_representable(double pseudorange_m) {
+  const double value = rint(pseudorange_m * MSG_OBS_P_MULTIPLIER);
+  return value >= 0 && value <= UINT32_MAX;
+}
+
 /* Transforms the newly received obs to sbp */
 void add_obs_to_buffer(const rtcm_obs_message *new_rtcm_obs,
                        gps_time_t *obs_time,
@@ -864,6 +870,9 @@ void add_obs_to_buffer(const rtcm_obs_message *new_rtcm_obs,
         if (rtcm_freq->flags.fields.valid_pr == 1) {
           double pseudorange = rtcm_freq->pseudorange;
           pseudorange += sbp_signal_biases[sbp_freq->sid.code];
+          if (!pseudorange_representable(pseudorange)) {
+            continue;
+          }
           sbp_freq->P = (u32)rint(pseudorange * MSG_OBS_P_MULTIPLIER);
           sbp_freq->flags |= MSG_OBS_FLAGS_CODE_VALID;
         }
@@ -1591,6 +1600,10 @@ void add_msm_obs_to_buffer(const rtcm_msm_message *new_rtcm_obs,
             double pseudorange_m = data->pseudorange_ms * GPS_C / 1000;
             pseudorange_m += sbp_signal_biases[sbp_freq->sid.code];
             pseudorange_m += code_bias_m;
+            if (!pseudorange_representable(pseudorange_m)) {
+              cell_index++;
+              continue;
+            }
             sbp_freq->P = (u32)rint(pseudorange_m * MSG_OBS_P_MULTIPLIER);
             sbp_freq->flags |= MSG_OBS_FLAGS_CODE_VALID;
           }
-- 
2.43.0


From c56423bcc26d15a8454bf4b81c448202806401a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 040/118] fix: rtcm3_sbp: saturate the C/N0 of MSM observations

---
 c/gnss_converters/src/rtcm3_sbp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 8b9aac0..a603f4e 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1626,7 +1626,8 @@ void add_msm_obs_to_buffer(const rtcm_msm_message *new_rtcm_obs,
           }
 
           if (data->flags.fields.valid_cnr) {
-            sbp_freq->cn0 = (u8)rint(data->cnr * MSG_OBS_CN0_MULTIPLIER);
+            sbp_freq->cn0 =
+                (u8)MIN(rint(data->cnr * MSG_OBS_CN0_MULTIPLIER), UINT8_MAX);
           } else {
             sbp_freq->cn0 = 0;
           }
-- 
2.43.0


From 027c861cba4ac0addd8ab527ca27e2dd7e5031d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 041/118] fix: rtcm3_sbp: drop Doppler values which do not fit
 SBP

---
 c/gnss_converters/src/rtcm3_sbp.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index a603f4e..8d8af43 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1636,9 +1636,11 @@ void add_msm_obs_to_buffer(const rtcm_msm_message *new_rtcm_obs,
             sbp_freq->lock = rtcm3_encode_lock_time(data->lock_time_s);
           }
 
-          if (data->flags.fields.valid_dop && freq_valid) {
-            /* flip Doppler sign to Piksi sign convention */
-            double doppler_Hz = -data->range_rate_m_s * freq / GPS_C;
+          /* flip Doppler sign to Piksi sign convention */
+          const double doppler_Hz =
+              freq_valid ? -data->range_rate_m_s * freq / GPS_C : 0.0;
+          if (data->flags.fields.valid_dop && freq_valid &&
+              fabs(doppler_Hz) < INT16_MAX) {
             sbp_freq->D.i = (s16)floor(doppler_Hz);
             u16 frac_part = (u16)rint((doppler_Hz - (double)sbp_freq->D.i) *
                                       MSG_OBS_DF_MULTIPLIER);
-- 
2.43.0


From d0643d6604efe3184fa99fee5e8253430f0da247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 042/118] fix: rtcm3_sbp: do not use reserved GLONASS frequency
 channel numbers

---
 c/gnss_converters/src/rtcm3_sbp.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 8d8af43..e3561e9 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1568,11 +1568,13 @@ void add_msm_obs_to_buffer(const rtcm_msm_message *new_rtcm_obs,
 
           /* get GLO FCN */
           uint8_t glo_fcn = MSM_GLO_FCN_UNKNOWN;
-          msm_get_glo_fcn(&new_rtcm_obs->header,
-                          sat,
-                          new_rtcm_obs->sats[sat].glo_fcn,
-                          state->glo_sv_id_fcn_map,
-                          &glo_fcn);
+          if (!msm_get_glo_fcn(&new_rtcm_obs->header,
+                               sat,
+                               new_rtcm_obs->sats[sat].glo_fcn,
+                               state->glo_sv_id_fcn_map,
+                               &glo_fcn)) {
+            glo_fcn = MSM_GLO_FCN_UNKNOWN;
+          }
 
           double freq;
           bool freq_valid =
-- 
2.43.0


From 05ac5923ee9a693220c40ac3298d1de9b4d00acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 043/118] fix: rtcm3_sbp: do not convert SSR messages with an
 invalid epoch time

---
 c/gnss_converters/src/rtcm3_sbp_ssr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp_ssr.c b/c/gnss_converters/src/rtcm3_sbp_ssr.c
index 6709874..f3a7109 100644
--- a/c/gnss_converters/src/rtcm3_sbp_ssr.c
+++ b/c/gnss_converters/src/rtcm3_sbp_ssr.c
@@ -24,8 +24,8 @@ sbp_gps_time_sec_t compute_ssr_message_time(
     u32 epoch_time_ms,
     const gps_time_t *rover_time,
     struct rtcm3_sbp_state *state) {
-  sbp_gps_time_sec_t obs_time_sec;
-  gps_time_t obs_time;
+  sbp_gps_time_sec_t obs_time_sec = {.wn = INVALID_TIME, .tow = 0};
+  gps_time_t obs_time = GPS_TIME_UNKNOWN;
   if (constellation == CONSTELLATION_GLO) {
     compute_glo_time(epoch_time_ms, &obs_time, rover_time, state);
   } else if (constellation == CONSTELLATION_BDS) {
@@ -35,6 +35,9 @@ sbp_gps_time_sec_t compute_ssr_message_time(
     /* GAL / QZSS / SBAS are aligned to GPS time */
     compute_gps_message_time(epoch_time_ms, &obs_time, rover_time);
   }
+  if (!gps_time_valid(&obs_time)) {
+    return obs_time_sec;
+  }
   obs_time_sec.wn = obs_time.wn;
   obs_time_sec.tow = (u32)rint(obs_time.tow);
   return obs_time_sec;
-- 
2.43.0


From f8ba9560674d0dd7881bfdf2c4c8ddc28d650af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 044/118] fix: rtcm3_sbp: combine every SSR clock which has an
 orbit

---
 c/gnss_converters/src/rtcm3_sbp_ssr.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp_ssr.c b/c/gnss_converters/src/rtcm3_sbp_ssr.c
index f3a7109..446a2a8 100644
--- a/c/gnss_converters/src/rtcm3_sbp_ssr.c
+++ b/c/gnss_converters/src/rtcm3_sbp_ssr.c
@@ -96,9 +96,7 @@ void rtcm3_ssr_separate_orbit_clock_to_sbp(rtcm_msg_clock *msg_clock,
   sbp_msg_t msg;
   sbp_msg_ssr_orbit_clock_t *sbp_orbit_clock = &msg.ssr_orbit_clock;
 
-  for (int sat_count = 0; (sat_count < msg_clock->header.num_sats) &&
-                          (sat_count < msg_orbit->header.num_sats);
-       ++sat_count) {
+  for (int sat_count = 0; sat_count < msg_clock->header.num_sats; ++sat_count) {
     memset(sbp_orbit_clock, 0, sizeof(*sbp_orbit_clock));
 
     // We aren't guaranteed that the satellite info in the orbit and clock
@@ -106,9 +104,9 @@ void rtcm3_ssr_separate_orbit_clock_to_sbp(rtcm_msg_clock *msg_clock,
     // for a given satellite
     int clock_index = sat_count;
     int orbit_index = 0;
-    while (msg_orbit->orbit[orbit_index].sat_id !=
-               msg_clock->clock[clock_index].sat_id &&
-           orbit_index < msg_orbit->header.num_sats) {
+    while (orbit_index < msg_orbit->header.num_sats &&
+           msg_orbit->orbit[orbit_index].sat_id !=
+               msg_clock->clock[clock_index].sat_id) {
       orbit_index++;
     }
     if (orbit_index >= msg_orbit->header.num_sats) {
-- 
2.43.0


From 0ca77c3454dbf11563a128cd6df84b77370d9b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 045/118] fix: rtcm3_sbp: compare the 8 LSBs of IODC with IODE
 for QZSS

---
 c/gnss_converters/src/rtcm3_sbp_ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp_ephemeris.c b/c/gnss_converters/src/rtcm3_sbp_ephemeris.c
index f88a299..7e1324e 100644
--- a/c/gnss_converters/src/rtcm3_sbp_ephemeris.c
+++ b/c/gnss_converters/src/rtcm3_sbp_ephemeris.c
@@ -185,7 +185,7 @@ void rtcm3_qzss_eph_to_sbp(rtcm_msg_eph *msg_eph,
   sbp_qzss_eph->common.fit_interval = rtcm3_decode_fit_interval_gps(
       msg_eph->fit_interval, msg_eph->data.kepler.iodc);
   sbp_qzss_eph->common.valid =
-      msg_eph->data.kepler.iodc == msg_eph->data.kepler.iode;
+      (msg_eph->data.kepler.iodc & 0xFF) == msg_eph->data.kepler.iode;
   sbp_qzss_eph->common.health_bits = msg_eph->health_bits;
 
   sbp_qzss_eph->tgd = (float)(msg_eph->data.kepler.tgd.gps_s * C_1_2P31);
-- 
2.43.0


From 1a98ee0886ac626fe0dd082a280efce1d000654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 046/118] fix: rtcm3_utils: refuse codes which have no signal
 in the MSM constellation

---
 c/gnss_converters/src/rtcm3_utils.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_utils.c b/c/gnss_converters/src/rtcm3_utils.c
index ec2a750..b934a31 100644
--- a/c/gnss_converters/src/rtcm3_utils.c
+++ b/c/gnss_converters/src/rtcm3_utils.c
@@ -634,6 +634,10 @@ bool msm_add_to_header(rtcm_msm_header *header, code_t code, u8 prn) {
 
   u8 sat_id = prn_to_msm_sat_id(prn, cons);
   u8 signal_id = code_to_msm_signal_id(code, cons);
+  if (signal_id >= MSM_SIGNAL_MASK_SIZE) {
+    msm_add_to_header_err(code, prn, "no MSM signal for the code");
+    return false;
+  }
 
   u8 num_sats = msm_get_num_satellites(header);
   u8 num_signals = msm_get_num_signals(header);
@@ -687,7 +691,7 @@ bool msm_add_to_cell_mask(rtcm_msm_header *header, code_t code, u8 prn) {
   }
 
   u8 signal_id = code_to_msm_signal_id(code, cons);
-  if (!header->signal_mask[signal_id]) {
+  if (signal_id >= MSM_SIGNAL_MASK_SIZE || !header->signal_mask[signal_id]) {
     msm_add_to_header_err(code, prn, "not in signal mask");
     return false;
   }
-- 
2.43.0


From cb242bbb59325e671b98db8a65569612a2b1cc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 047/118] fix: librtcm: bound the navigation data frame decoder
 by its payload

---
 c/gnss_converters/src/rtcm3_sbp.c |  2 +-
 c/librtcm/include/rtcm3/decode.h  | 10 +++++-
 c/librtcm/src/decode.c            | 53 +++++++++++--------------------
 3 files changed, 29 insertions(+), 36 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index e3561e9..242fc9d 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -616,7 +616,7 @@ void rtcm2sbp_decode_payload(const uint8_t *payload,
     }
     case 4075: {
       rtcm_msg_ndf ndf_msg;
-      if (RC_OK == rtcm3_decode_4075(payload, &ndf_msg)) {
+      if (RC_OK == rtcm3_decode_4075_bitstream(&bitstream, &ndf_msg)) {
         handle_ndf_frame(&ndf_msg, state);
       }
       break;
diff --git a/c/librtcm/include/rtcm3/decode.h b/c/librtcm/include/rtcm3/decode.h
index f02340a..9f23f1d 100644
--- a/c/librtcm/include/rtcm3/decode.h
+++ b/c/librtcm/include/rtcm3/decode.h
@@ -58,7 +58,8 @@ rtcm3_rc rtcm3_decode_msm7_bitstream(swiftnav_bitstream_t *buff,
                                      rtcm_msm_message *msg);
 rtcm3_rc rtcm3_decode_4062_bitstream(swiftnav_bitstream_t *buff,
                                      rtcm_msg_swift_proprietary *msg);
-rtcm3_rc rtcm3_decode_4075(const uint8_t buff[], rtcm_msg_ndf *msg);
+rtcm3_rc rtcm3_decode_4075_bitstream(swiftnav_bitstream_t *buff,
+                                     rtcm_msg_ndf *msg);
 
 double rtcm3_decode_lock_time(uint8_t lock);
 
@@ -191,6 +192,13 @@ static inline rtcm3_rc rtcm3_decode_4062(const uint8_t buff[],
   return rtcm3_decode_4062_bitstream(&bitstream, msg);
 }
 
+static inline rtcm3_rc rtcm3_decode_4075(const uint8_t buff[],
+                                         rtcm_msg_ndf *msg) {
+  swiftnav_bitstream_t bitstream;
+  swiftnav_bitstream_init(&bitstream, buff, UINT32_MAX);
+  return rtcm3_decode_4075_bitstream(&bitstream, msg);
+}
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index ac46f0d..f131d51 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -1490,21 +1490,19 @@ rtcm3_rc rtcm3_decode_4062_bitstream(swiftnav_bitstream_t *buff,
  *          - RC_MESSAGE_TYPE_MISMATCH : Message type mismatch
  *          - RC_INVALID_MESSAGE : Nonzero reserved bits (invalid format)
  */
-rtcm3_rc rtcm3_decode_4075(const uint8_t buff[], rtcm_msg_ndf *msg) {
+rtcm3_rc rtcm3_decode_4075_bitstream(swiftnav_bitstream_t *buff,
+                                     rtcm_msg_ndf *msg) {
   assert(msg);
-  uint16_t bit = 0;
-  msg->msg_type = rtcm_getbitu(buff, bit, 12);
-  bit += 12;
+  BITSTREAM_DECODE_U16(buff, msg->msg_type, 12);
 
   if (msg->msg_type != 4075) { /* Unexpected message type. */
     return RC_MESSAGE_TYPE_MISMATCH;
   }
 
-  msg->stn_id = rtcm_getbitu(buff, bit, 12);
-  bit += 12;
+  BITSTREAM_DECODE_U16(buff, msg->stn_id, 12);
 
-  uint8_t reserved_bits = rtcm_getbitu(buff, bit, 2);
-  bit += 2;
+  uint32_t reserved_bits;
+  BITSTREAM_DECODE_U32(buff, reserved_bits, 2);
 
   /* These bits are reserved for future use, if they aren't 0 it must be a
      new format we don't know how to handle. */
@@ -1512,36 +1510,23 @@ rtcm3_rc rtcm3_decode_4075(const uint8_t buff[], rtcm_msg_ndf *msg) {
     return RC_INVALID_MESSAGE;
   }
 
-  msg->frame_count = rtcm_getbitu(buff, bit, 6);
-  bit += 6;
+  BITSTREAM_DECODE_U8(buff, msg->frame_count, 6);
 
   if (msg->frame_count > MAX_NDF_FRAMES) {
     return RC_INVALID_MESSAGE;
   }
 
   for (uint8_t i = 0; i < msg->frame_count; i++) {
-    msg->frames[i].sat_sys = rtcm_getbitu(buff, bit, 4);
-    bit += 4;
-
-    msg->frames[i].sat_num = rtcm_getbitu(buff, bit, 6);
-    bit += 6;
-
-    msg->frames[i].ext_sat_info = rtcm_getbitu(buff, bit, 4);
-    bit += 4;
-
-    msg->frames[i].sig_type = rtcm_getbitu(buff, bit, 5);
-    bit += 5;
-
-    msg->frames[i].epoch_time = rtcm_getbitu(buff, bit, 30);
-    bit += 30;
-
-    msg->frames[i].continuous_tracking = rtcm_getbitu(buff, bit, 1);
-    bit += 1;
-
-    msg->frames[i].frame_data_size_bits = rtcm_getbitu(buff, bit, 12);
-    bit += 12;
-
-    uint16_t remaining_bits = msg->frames[i].frame_data_size_bits;
+    rtcm_ndf_frame *frame = &msg->frames[i];
+    BITSTREAM_DECODE_U8(buff, frame->sat_sys, 4);
+    BITSTREAM_DECODE_U8(buff, frame->sat_num, 6);
+    BITSTREAM_DECODE_U8(buff, frame->ext_sat_info, 4);
+    BITSTREAM_DECODE_U8(buff, frame->sig_type, 5);
+    BITSTREAM_DECODE_U32(buff, frame->epoch_time, 30);
+    BITSTREAM_DECODE_BOOL(buff, frame->continuous_tracking, 1);
+    BITSTREAM_DECODE_U16(buff, frame->frame_data_size_bits, 12);
+
+    uint16_t remaining_bits = frame->frame_data_size_bits;
     if (remaining_bits > MAX_NDF_FRAME_SIZE_BITS) {
       return RC_INVALID_MESSAGE;
     }
@@ -1549,8 +1534,8 @@ rtcm3_rc rtcm3_decode_4075(const uint8_t buff[], rtcm_msg_ndf *msg) {
     uint16_t j = 0;
     while (remaining_bits > 0) {
       uint32_t next_bits = remaining_bits < 32 ? remaining_bits : 32;
-      msg->frames[i].frame_data[j++] = rtcm_getbitu(buff, bit, next_bits);
-      bit += next_bits;
+      BITSTREAM_DECODE_U32(buff, frame->frame_data[j], next_bits);
+      j++;
       remaining_bits -= next_bits;
     }
   }
-- 
2.43.0


From 5ee879ab61ba99c7dbbc2d4f71b408c78aed5d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:37 +0000
Subject: [PATCH 048/118] fix: time_truth: keep the stored time of week inside
 the week

---
 c/gnss_converters/src/time_truth.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/time_truth.c b/c/gnss_converters/src/time_truth.c
index 4f5b1ea..e420546 100644
--- a/c/gnss_converters/src/time_truth.c
+++ b/c/gnss_converters/src/time_truth.c
@@ -13,6 +13,7 @@
 #include <gnss-converters/time_truth.h>
 #include <libsbp/v4/gnss.h>
 #include <libsbp/v4/observation.h>
+#include <math.h>
 #include <stdalign.h>
 #include <stdatomic.h>
 #include <string.h>
@@ -37,6 +38,13 @@ static_assert(
     alignof(time_truth_t) % alignof(atomic_time_truth_t) == 0,
     "opaque type must be alignable to its actual type's alignment requirement");
 
+/* Single precision cannot represent the last moments of a week, do not let
+ * them be rounded to a time of week outside of the week */
+static float compact_tow(double tow) {
+  float compact = (float)tow;
+  return compact < (float)WEEK_SECS ? compact : nextafterf(WEEK_SECS, 0);
+}
+
 void time_truth_init(time_truth_t *instance) {
   struct time_truth value;
   memset(&value, 0, sizeof(value));
@@ -80,7 +88,7 @@ bool time_truth_update(time_truth_t *instance,
           case TIME_TRUTH_EPH_GAL:
           case TIME_TRUTH_EPH_BDS:
             new_time_truth.wn = time.wn;
-            new_time_truth.tow = (float)time.tow;
+            new_time_truth.tow = compact_tow(time.tow);
             new_time_truth.state = TIME_TRUTH_SOLVED;
             break;
           default:
@@ -97,7 +105,7 @@ bool time_truth_update(time_truth_t *instance,
               return false;
             }
             new_time_truth.wn = time.wn;
-            new_time_truth.tow = (float)time.tow;
+            new_time_truth.tow = compact_tow(time.tow);
             new_time_truth.state = TIME_TRUTH_SOLVED;
             break;
           default:
-- 
2.43.0


From 9c7bb1ecbbc06a2c3e2780a52e0271588ee4d166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:22 +0000
Subject: [PATCH 049/118] fix: ubx_sbp: mark measurements outside the SBP range
 invalid

A pseudorange, carrier phase or Doppler which does not fit the SBP field
(or is NaN) went through an undefined conversion or was left uninitialised
in the message while its valid flag was set.
---
 c/gnss_converters/src/ubx_sbp.c | 37 ++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 64785fa..3bd2891 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -86,6 +86,8 @@
 
 #define UBX_SBP_PSEUDORANGE_SCALING (50)
 
+#define SBP_OBS_CODE_MASK (1 << 0)
+#define SBP_OBS_PHASE_MASK ((1 << 1) | (1 << 2)) /* incl. half cycle */
 #define SBP_OBS_DOPPLER_MASK (1 << 3)
 #define SBP_OBS_TRACK_STATE_MASK (0x07)
 
@@ -295,7 +297,8 @@ static code_t convert_ubx_gnssid_sigid(u8 gnss_id, u8 sig_id) {
 
 static bool pack_carrier_phase(double L_in, sbp_carrier_phase_t *L_out) {
   double Li = floor(L_in);
-  if (Li < INT32_MIN || Li > INT32_MAX) {
+  /* rounding the fraction may carry into the integer part */
+  if (!(Li >= INT32_MIN && Li < INT32_MAX)) {
     return false;
   }
 
@@ -315,7 +318,8 @@ static bool pack_carrier_phase(double L_in, sbp_carrier_phase_t *L_out) {
 /* TODO(STAR-920) Move pack_* functions into libsbp or libswitfnav */
 static bool pack_doppler(double D_in, sbp_doppler_t *D_out) {
   double Di = floor(D_in);
-  if (Di < INT16_MIN || Di > INT16_MAX) {
+  /* rounding the fraction may carry into the integer part */
+  if (!(Di >= INT16_MIN && Di < INT16_MAX)) {
     return false;
   }
 
@@ -377,9 +381,20 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
 
   for (int i = 0; i < *n_obs; i++) {
     /* convert units: meter -> 2 cm */
-    obs[i].P = (u32)(UBX_SBP_PSEUDORANGE_SCALING * rxm_rawx->pseudorange_m[i]);
-    pack_carrier_phase(rxm_rawx->carrier_phase_cycles[i], &obs[i].L);
-    pack_doppler(rxm_rawx->doppler_hz[i], &obs[i].D);
+    double pseudorange =
+        UBX_SBP_PSEUDORANGE_SCALING * rxm_rawx->pseudorange_m[i];
+    bool pseudorange_ok =
+        pseudorange >= 0.0 && pseudorange < (double)UINT32_MAX + 1.0;
+    obs[i].P = pseudorange_ok ? (u32)pseudorange : 0;
+    bool phase_ok =
+        pack_carrier_phase(rxm_rawx->carrier_phase_cycles[i], &obs[i].L);
+    if (!phase_ok) {
+      memset(&obs[i].L, 0, sizeof(obs[i].L));
+    }
+    bool doppler_ok = pack_doppler(rxm_rawx->doppler_hz[i], &obs[i].D);
+    if (!doppler_ok) {
+      memset(&obs[i].D, 0, sizeof(obs[i].D));
+    }
     /* check for overflow */
     if (rxm_rawx->cno_dbhz[i] > 0x3F) {
       obs[i].cn0 = 0xFF;
@@ -391,9 +406,17 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
      */
     obs[i].lock = encode_lock_time((double)rxm_rawx->lock_time[i] / SECS_MS);
     obs[i].flags = 0;
-    /* currently assumes all doppler are valid */
-    obs[i].flags |= SBP_OBS_DOPPLER_MASK;
+    /* currently assumes all representable doppler are valid */
+    if (doppler_ok) {
+      obs[i].flags |= SBP_OBS_DOPPLER_MASK;
+    }
     obs[i].flags |= rxm_rawx->track_state[i] & SBP_OBS_TRACK_STATE_MASK;
+    if (!pseudorange_ok) {
+      obs[i].flags &= ~SBP_OBS_CODE_MASK;
+    }
+    if (!phase_ok) {
+      obs[i].flags &= ~SBP_OBS_PHASE_MASK;
+    }
     obs[i].sid.sat = rxm_rawx->sat_id[i];
     obs[i].sid.code =
         convert_ubx_gnssid_sigid(rxm_rawx->gnss_id[i], rxm_rawx->sig_id[i]);
-- 
2.43.0


From 08b9abd726676b1b016f710ba82d351e55967888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:22 +0000
Subject: [PATCH 050/118] fix: ubx_sbp: refuse invalid receiver times in
 RXM-RAWX

A negative, NaN or too large time of week went through an undefined
conversion; a time which rounds up to the end of the week was sent as
604800000 ms of the old week.
---
 c/gnss_converters/src/ubx_sbp.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 3bd2891..439ec2f 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -360,6 +360,10 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
                         uint8_t *n_obs,
                         sbp_packed_obs_content_t *obs) {
   /* convert from sec to ms */
+  if (!(rxm_rawx->rcv_tow >= 0.0 && rxm_rawx->rcv_tow < WEEK_SECS)) {
+    log_warn("Invalid RXM_RAWX.rcvTow");
+    return -1;
+  }
   double ms = UBX_SBP_TOW_MS_SCALING * rxm_rawx->rcv_tow;
   double ns = UBX_SBP_TOW_NS_SCALING * modf(ms, &ms);
   obs_time->tow = (u32)ms;
@@ -374,6 +378,13 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
   } else {
     obs_time->wn = rxm_rawx->rcv_wn;
   }
+  if (obs_time->tow >= WEEK_MS) {
+    /* rounded up into the next week */
+    obs_time->tow -= WEEK_MS;
+    if (rxm_rawx->rcv_wn != 0) {
+      obs_time->wn += 1;
+    }
+  }
   /* Not proper SBP n_obs. Needed to pass total number of measurements
    * to handle_rxm_rawx
    */
@@ -1219,6 +1230,7 @@ static void handle_rxm_rawx(struct ubx_sbp_state *state,
   }
 
   if (rxm_rawx.num_meas != 0 && rxm_rawx.rcv_wn != 0 &&
+      rxm_rawx.rcv_tow >= 0.0 && rxm_rawx.rcv_tow < WEEK_SECS &&
       state->esf_state.weeknumber_set) {
     state->esf_state.last_obs_time_gnss.tow = rxm_rawx.rcv_tow;
     state->esf_state.last_obs_time_gnss.wn = rxm_rawx.rcv_wn;
-- 
2.43.0


From a0336e6073f252985276f5cf55837220fab283a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:22 +0000
Subject: [PATCH 051/118] fix: ubx_sbp: do not overflow the SBP observation
 sequence counter

More than 210 measurements in one RXM-RAWX need more messages than the four
bit sequence length can count, so it wrapped around to a wrong total.
---
 c/gnss_converters/src/ubx_sbp.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 439ec2f..2415b8b 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -102,6 +102,8 @@ static const double ubx_sensortime_scale = 39.0625e-6;
  * floor((0xFF - sizeof(observation_header_t)) / sizeof(packed_obs_content_t))
  */
 #define SBP_MAX_NUM_OBS 14
+/* The sequence length has 4 bits in the observation header */
+#define SBP_MAX_NUM_OBS_MSGS 15
 
 /* Syncs data between HNR_PVT and NAV_PVT */
 struct ubx_pvt_state {
@@ -1241,6 +1243,10 @@ static void handle_rxm_rawx(struct ubx_sbp_state *state,
   uint8_t n_obs;
   sbp_packed_obs_content_t sbp_obs[UBX_MAX_NUM_OBS];
   if (fill_msg_obs(&rxm_rawx, &obs_time, &n_obs, sbp_obs) == 0) {
+    if (n_obs > SBP_MAX_NUM_OBS_MSGS * SBP_MAX_NUM_OBS) {
+      log_warn("Too many observations in RXM_RAWX: %d", n_obs);
+      n_obs = SBP_MAX_NUM_OBS_MSGS * SBP_MAX_NUM_OBS;
+    }
     u8 total_messages;
     if (n_obs > 0) {
       total_messages = 1 + ((n_obs - 1) / SBP_MAX_NUM_OBS);
-- 
2.43.0


From e0aa2e35be1bad6850dd7b94916ca5a14a157e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:22 +0000
Subject: [PATCH 052/118] fix: ubx_sbp: saturate attitude and velocity instead
 of overflowing

Multiplying the received value by ten overflowed a signed integer.
---
 c/gnss_converters/src/ubx_sbp.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 2415b8b..aaa7ec8 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -438,6 +438,18 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
   return 0;
 }
 
+/* scales to the finer SBP unit, saturating instead of overflowing */
+static s32 scale_s32(s32 value, s32 scale) {
+  s64 scaled = (s64)value * scale;
+  if (scaled > INT32_MAX) {
+    return INT32_MAX;
+  }
+  if (scaled < INT32_MIN) {
+    return INT32_MIN;
+  }
+  return (s32)scaled;
+}
+
 static int fill_msg_orient_euler(swiftnav_bytestream_t *buf,
                                  sbp_msg_orient_euler_t *msg) {
   ubx_nav_att nav_att;
@@ -447,9 +459,9 @@ static int fill_msg_orient_euler(swiftnav_bytestream_t *buf,
 
   msg->tow = nav_att.i_tow;
 
-  msg->roll = nav_att.roll * UBX_NAV_ATT_SCALING;
-  msg->pitch = nav_att.pitch * UBX_NAV_ATT_SCALING;
-  msg->yaw = nav_att.heading * UBX_NAV_ATT_SCALING;
+  msg->roll = scale_s32(nav_att.roll, UBX_NAV_ATT_SCALING);
+  msg->pitch = scale_s32(nav_att.pitch, UBX_NAV_ATT_SCALING);
+  msg->yaw = scale_s32(nav_att.heading, UBX_NAV_ATT_SCALING);
   msg->roll_accuracy = (float)(nav_att.acc_roll * UBX_NAV_ATT_ACC_SCALING);
   msg->pitch_accuracy = (float)(nav_att.acc_pitch * UBX_NAV_ATT_ACC_SCALING);
   msg->yaw_accuracy = (float)(nav_att.acc_heading * UBX_NAV_ATT_ACC_SCALING);
@@ -536,9 +548,9 @@ static int fill_msg_vel_ecef(swiftnav_bytestream_t *buf,
   }
 
   msg->tow = nav_velecef.i_tow;
-  msg->x = nav_velecef.ecefVX * UBX_NAV_VELECEF_SCALING;
-  msg->y = nav_velecef.ecefVY * UBX_NAV_VELECEF_SCALING;
-  msg->z = nav_velecef.ecefVZ * UBX_NAV_VELECEF_SCALING;
+  msg->x = scale_s32(nav_velecef.ecefVX, UBX_NAV_VELECEF_SCALING);
+  msg->y = scale_s32(nav_velecef.ecefVY, UBX_NAV_VELECEF_SCALING);
+  msg->z = scale_s32(nav_velecef.ecefVZ, UBX_NAV_VELECEF_SCALING);
   msg->accuracy = nav_velecef.speed_acc;
   msg->n_sats = pvt_state.num_sats;
   msg->flags = 0;
@@ -1019,7 +1031,8 @@ static void handle_hnr_pvt(struct ubx_sbp_state *state,
   state->last_tow_ms = sbp_pos_llh->tow;
 
   sbp_orient_euler->tow = hnr_pvt.i_tow;
-  sbp_orient_euler->yaw = hnr_pvt.heading_vehicle * UBX_NAV_ATT_SCALING;
+  sbp_orient_euler->yaw =
+      scale_s32(hnr_pvt.heading_vehicle, UBX_NAV_ATT_SCALING);
   sbp_orient_euler->yaw_accuracy =
       (float)(hnr_pvt.heading_acc * UBX_NAV_ATT_ACC_SCALING);
 
-- 
2.43.0


From 3191ebc8fe961204b3ce06289f0c621067d28cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:08 +0000
Subject: [PATCH 053/118] fix: ubx_sbp: keep the solution status per converter

The fix type, flags and number of satellites of the last NAV-PVT were kept
in a static variable, so converters running in one process labelled their
attitude, velocity and high rate positions with each other's status, and a
new converter started with the status of the previous one.
---
 .../include/gnss-converters/ubx_sbp.h         |  8 ++++
 c/gnss_converters/src/ubx_sbp.c               | 47 +++++++++----------
 2 files changed, 29 insertions(+), 26 deletions(-)

diff --git a/c/gnss_converters/include/gnss-converters/ubx_sbp.h b/c/gnss_converters/include/gnss-converters/ubx_sbp.h
index e24ffcb..68bee84 100644
--- a/c/gnss_converters/include/gnss-converters/ubx_sbp.h
+++ b/c/gnss_converters/include/gnss-converters/ubx_sbp.h
@@ -62,6 +62,13 @@ struct ubx_esf_state {
   bool weeknumber_set;
 };
 
+/* Syncs data between HNR_PVT and NAV_PVT */
+struct ubx_pvt_state {
+  u8 num_sats;
+  u8 flags;
+  u8 fix_type;
+};
+
 struct ubx_sbp_state {
   u8 read_buffer[UBX_BUFFER_SIZE];
   size_t index;
@@ -75,6 +82,7 @@ struct ubx_sbp_state {
   void *context;
   bool use_hnr;
   struct ubx_esf_state esf_state;
+  struct ubx_pvt_state pvt_state;
 
   struct eph_sat_data eph_data;
   u32 last_tow_ms;
diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index aaa7ec8..0b99240 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -105,15 +105,6 @@ static const double ubx_sensortime_scale = 39.0625e-6;
 /* The sequence length has 4 bits in the observation header */
 #define SBP_MAX_NUM_OBS_MSGS 15
 
-/* Syncs data between HNR_PVT and NAV_PVT */
-struct ubx_pvt_state {
-  u8 num_sats;
-  u8 flags;
-  u8 fix_type;
-};
-
-static struct ubx_pvt_state pvt_state;
-
 static int reload_ubx_buffer(struct ubx_sbp_state *state) {
   state->index = 0;
   int bytes_read = state->read_stream_func(
@@ -450,7 +441,8 @@ static s32 scale_s32(s32 value, s32 scale) {
   return (s32)scaled;
 }
 
-static int fill_msg_orient_euler(swiftnav_bytestream_t *buf,
+static int fill_msg_orient_euler(const struct ubx_pvt_state *pvt_state,
+                                 swiftnav_bytestream_t *buf,
                                  sbp_msg_orient_euler_t *msg) {
   ubx_nav_att nav_att;
   if (ubx_decode_nav_att_bytestream(buf, &nav_att) != RC_OK) {
@@ -467,15 +459,16 @@ static int fill_msg_orient_euler(swiftnav_bytestream_t *buf,
   msg->yaw_accuracy = (float)(nav_att.acc_heading * UBX_NAV_ATT_ACC_SCALING);
 
   msg->flags = 0;
-  if ((pvt_state.fix_type == UBX_NAV_PVT_FIX_TYPE_DEAD_RECKONING) ||
-      (pvt_state.fix_type == UBX_NAV_PVT_FIX_TYPE_COMBINED)) {
+  if ((pvt_state->fix_type == UBX_NAV_PVT_FIX_TYPE_DEAD_RECKONING) ||
+      (pvt_state->fix_type == UBX_NAV_PVT_FIX_TYPE_COMBINED)) {
     msg->flags |= SBP_ORIENT_EULER_INS_MASK;
   }
 
   return 0;
 }
 
-static int fill_msg_pos_llh(swiftnav_bytestream_t *buf,
+static int fill_msg_pos_llh(struct ubx_pvt_state *pvt_state,
+                            swiftnav_bytestream_t *buf,
                             sbp_msg_pos_llh_t *msg) {
   ubx_nav_pvt nav_pvt;
   if (ubx_decode_nav_pvt_bytestream(buf, &nav_pvt) != RC_OK) {
@@ -496,7 +489,7 @@ static int fill_msg_pos_llh(swiftnav_bytestream_t *buf,
                               ? max_accuracy
                               : nav_pvt.vertical_accuracy);
   msg->n_sats = nav_pvt.num_sats;
-  pvt_state.num_sats = nav_pvt.num_sats;
+  pvt_state->num_sats = nav_pvt.num_sats;
 
   msg->flags = 0;
   if ((nav_pvt.fix_type == UBX_NAV_PVT_FIX_TYPE_NONE) ||
@@ -534,13 +527,14 @@ static int fill_msg_pos_llh(swiftnav_bytestream_t *buf,
     msg->flags |= SBP_LLH_INS_MASK;
   }
 
-  pvt_state.flags = msg->flags;
-  pvt_state.fix_type = nav_pvt.fix_type;
+  pvt_state->flags = msg->flags;
+  pvt_state->fix_type = nav_pvt.fix_type;
 
   return 0;
 }
 
-static int fill_msg_vel_ecef(swiftnav_bytestream_t *buf,
+static int fill_msg_vel_ecef(const struct ubx_pvt_state *pvt_state,
+                             swiftnav_bytestream_t *buf,
                              sbp_msg_vel_ecef_t *msg) {
   ubx_nav_velecef nav_velecef;
   if (ubx_decode_nav_velecef_bytestream(buf, &nav_velecef) != RC_OK) {
@@ -552,10 +546,10 @@ static int fill_msg_vel_ecef(swiftnav_bytestream_t *buf,
   msg->y = scale_s32(nav_velecef.ecefVY, UBX_NAV_VELECEF_SCALING);
   msg->z = scale_s32(nav_velecef.ecefVZ, UBX_NAV_VELECEF_SCALING);
   msg->accuracy = nav_velecef.speed_acc;
-  msg->n_sats = pvt_state.num_sats;
+  msg->n_sats = pvt_state->num_sats;
   msg->flags = 0;
   /* Assume either invalid or dead reckoning. Temp. hack */
-  if (pvt_state.fix_type > 0) {
+  if (pvt_state->fix_type > 0) {
     msg->flags |= SBP_LLH_DEAD_RECKONING_MASK;
   } else {
     msg->flags = 0;
@@ -566,7 +560,8 @@ static int fill_msg_vel_ecef(swiftnav_bytestream_t *buf,
   return 0;
 }
 
-static void fill_msg_pos_llh_hnr(const ubx_hnr_pvt *hnr_pvt,
+static void fill_msg_pos_llh_hnr(const struct ubx_pvt_state *pvt_state,
+                                 const ubx_hnr_pvt *hnr_pvt,
                                  sbp_msg_pos_llh_t *msg) {
   msg->tow = hnr_pvt->i_tow;
   msg->lat = UBX_SBP_LAT_LON_SCALING * hnr_pvt->lat;
@@ -582,8 +577,8 @@ static void fill_msg_pos_llh_hnr(const ubx_hnr_pvt *hnr_pvt,
                               ? max_accuracy
                               : hnr_pvt->vertical_accuracy);
 
-  msg->n_sats = pvt_state.num_sats;
-  msg->flags = pvt_state.flags;
+  msg->n_sats = pvt_state->num_sats;
+  msg->flags = pvt_state->flags;
 }
 
 static int fill_msg_fwd(swiftnav_bytestream_t *buf, sbp_msg_fwd_t *msg) {
@@ -1027,7 +1022,7 @@ static void handle_hnr_pvt(struct ubx_sbp_state *state,
     return;
   }
 
-  fill_msg_pos_llh_hnr(&hnr_pvt, sbp_pos_llh);
+  fill_msg_pos_llh_hnr(&state->pvt_state, &hnr_pvt, sbp_pos_llh);
   state->last_tow_ms = sbp_pos_llh->tow;
 
   sbp_orient_euler->tow = hnr_pvt.i_tow;
@@ -1047,7 +1042,7 @@ static void handle_nav_att(struct ubx_sbp_state *state,
                            swiftnav_bytestream_t *inbuf) {
   sbp_msg_t msg;
   sbp_msg_orient_euler_t *sbp_orient_euler = &msg.orient_euler;
-  if (fill_msg_orient_euler(inbuf, sbp_orient_euler) == 0) {
+  if (fill_msg_orient_euler(&state->pvt_state, inbuf, sbp_orient_euler) == 0) {
     memcpy(&state->last_orient_euler,
            sbp_orient_euler,
            sizeof(sbp_msg_orient_euler_t));
@@ -1062,7 +1057,7 @@ static void handle_nav_pvt(struct ubx_sbp_state *state,
                            swiftnav_bytestream_t *inbuf) {
   sbp_msg_t msg;
   sbp_msg_pos_llh_t *sbp_pos_llh = &msg.pos_llh;
-  if (fill_msg_pos_llh(inbuf, sbp_pos_llh) == 0) {
+  if (fill_msg_pos_llh(&state->pvt_state, inbuf, sbp_pos_llh) == 0) {
     state->last_tow_ms = sbp_pos_llh->tow;
     if (!state->use_hnr) {
       state->cb_ubx_to_sbp(
@@ -1075,7 +1070,7 @@ static void handle_nav_velecef(struct ubx_sbp_state *state,
                                swiftnav_bytestream_t *inbuf) {
   sbp_msg_t msg;
   sbp_msg_vel_ecef_t *sbp_vel_ecef = &msg.vel_ecef;
-  if (fill_msg_vel_ecef(inbuf, sbp_vel_ecef) == 0) {
+  if (fill_msg_vel_ecef(&state->pvt_state, inbuf, sbp_vel_ecef) == 0) {
     state->cb_ubx_to_sbp(state->sender_id, SbpMsgVelEcef, &msg, state->context);
   }
 }
-- 
2.43.0


From 6f8d7b088927c86cd59c6519109c49dea167589e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:08 +0000
Subject: [PATCH 054/118] fix: ubx_sbp: keep NAV-SAT azimuth and C/N0 inside
 their SBP range

An azimuth of 359 degrees was sent as 180 (the field ends at 179), and a
C/N0 of 64 dB-Hz or more wrapped around to a low value.
---
 c/gnss_converters/src/ubx_sbp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 0b99240..add524b 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -1108,14 +1108,15 @@ static void handle_nav_sat(struct ubx_sbp_state *state,
 
     msg_az_el->azel[msg_az_el->n_azel].sid.sat = sat_id;
     msg_az_el->azel[msg_az_el->n_azel].sid.code = code;
-    msg_az_el->azel[msg_az_el->n_azel].az = lround((double)data->azim / 2.0);
+    msg_az_el->azel[msg_az_el->n_azel].az =
+        lround((double)data->azim / 2.0) % 180;
     msg_az_el->azel[msg_az_el->n_azel].el = data->elev;
     msg_az_el->n_azel++;
 
     msg_meas_state->states[msg_meas_state->n_states].mesid.sat = sat_id;
     msg_meas_state->states[msg_meas_state->n_states].mesid.code = code;
     msg_meas_state->states[msg_meas_state->n_states].cn0 =
-        lround((double)data->cno * 4.0);
+        data->cno > 0x3F ? 0xFF : 4 * data->cno;
     msg_meas_state->n_states++;
 
     /* send SBP_MSG_SV_AZ_EL if full */
-- 
2.43.0


From 43cb3b78dfef55108de7b8288904cd959e62fee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:08 +0000
Subject: [PATCH 055/118] fix: ubx_sbp: number QZSS satellites by their PRN

u-blox numbers the QZSS satellites 1..10, SBP 193..202.
---
 c/gnss_converters/src/ubx_sbp.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index add524b..0c6dcec 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -288,6 +288,14 @@ static code_t convert_ubx_gnssid_sigid(u8 gnss_id, u8 sig_id) {
   return CODE_INVALID;
 }
 
+/* u-blox numbers the QZSS satellites from 1 */
+static u8 convert_ubx_sat_id(u8 gnss_id, u8 sat_id) {
+  if (gnss_id == UBX_GNSS_ID_QZSS && sat_id >= 1 && sat_id <= NUM_SATS_QZS) {
+    return QZS_FIRST_PRN + sat_id - 1;
+  }
+  return sat_id;
+}
+
 static bool pack_carrier_phase(double L_in, sbp_carrier_phase_t *L_out) {
   double Li = floor(L_in);
   /* rounding the fraction may carry into the integer part */
@@ -421,7 +429,8 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
     if (!phase_ok) {
       obs[i].flags &= ~SBP_OBS_PHASE_MASK;
     }
-    obs[i].sid.sat = rxm_rawx->sat_id[i];
+    obs[i].sid.sat =
+        convert_ubx_sat_id(rxm_rawx->gnss_id[i], rxm_rawx->sat_id[i]);
     obs[i].sid.code =
         convert_ubx_gnssid_sigid(rxm_rawx->gnss_id[i], rxm_rawx->sig_id[i]);
   }
@@ -1102,7 +1111,7 @@ static void handle_nav_sat(struct ubx_sbp_state *state,
 
     ubx_nav_sat_data *data = &nav_sat.data[i];
 
-    u8 sat_id = data->sv_id;
+    u8 sat_id = convert_ubx_sat_id(data->gnss_id, data->sv_id);
     u8 code = convert_ubx_gnssid_sigid(data->gnss_id,
                                        0); /* always zero for UBX-NAV-SAT */
 
-- 
2.43.0


From 54697b53be73b15e6332528e4e31ced15f55c428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:08 +0000
Subject: [PATCH 056/118] fix: ubx_sbp: wrap the SBAS message time at the start
 of the week

The unsigned time of week was compared with zero after the subtraction, so
in the first 1.12 s of a week the SBAS time underflowed to 4294966 s.
---
 c/gnss_converters/src/ubx_sbp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 0c6dcec..94a72c9 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -1317,7 +1317,7 @@ static void handle_rxm_sfrbx(struct ubx_sbp_state *state,
         state, prn, sfrbx.freq_id, sfrbx.data_words, sfrbx.num_words);
   } else if (UBX_GNSS_ID_SBAS == sfrbx.gnss_id) {
     u32 tow_ms = state->last_tow_ms;
-    if (tow_ms > WEEK_MS) {
+    if (tow_ms >= WEEK_MS) {
       /* TOW not yet set */
       return;
     }
@@ -1325,10 +1325,10 @@ static void handle_rxm_sfrbx(struct ubx_sbp_state *state,
     /* Fill in the approximate time of transmission of the start of the SBAS
      * message. The best guess for it we have is the current solution time
      * minus 1 s (length of the message) minus 120 ms (~= 36000km / 3e8m/s). */
-    tow_ms -= 1120;
-    if (tow_ms < 0.0) {
+    if (tow_ms < 1120) {
       tow_ms += WEEK_MS;
     }
+    tow_ms -= 1120;
 
     sbas_decode_subframe(&state->eph_data,
                          tow_ms,
-- 
2.43.0


From 04fe068a73ed7cbbd30718a458431ad05811e7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:08 +0000
Subject: [PATCH 057/118] fix: ubx_sbp: ignore GLONASS strings with number 0

The string number is used to index the stored strings, 0 wrote in front of
the array.
---
 c/gnss_converters/src/ubx_ephemeris/glo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ubx_ephemeris/glo.c b/c/gnss_converters/src/ubx_ephemeris/glo.c
index ed80926..ae9a554 100644
--- a/c/gnss_converters/src/ubx_ephemeris/glo.c
+++ b/c/gnss_converters/src/ubx_ephemeris/glo.c
@@ -92,7 +92,7 @@ void glo_decode_string(
   }
 
   u8 string_num = (words[0] >> 27U) & 0xFU;
-  if (string_num > GLO_MAX_STRING_NUM) {
+  if (string_num < 1 || string_num > GLO_MAX_STRING_NUM) {
     /* only strings 1-5 needed for ephemeris */
     return;
   }
-- 
2.43.0


From 8193f80c96047a364e3a9ba0e619e14cf1799a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:08 +0000
Subject: [PATCH 058/118] fix: ubx_sbp: do not send GLONASS ephemerides which
 failed to decode

---
 c/gnss_converters/src/ubx_ephemeris/glo.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ubx_ephemeris/glo.c b/c/gnss_converters/src/ubx_ephemeris/glo.c
index ae9a554..51f56fc 100644
--- a/c/gnss_converters/src/ubx_ephemeris/glo.c
+++ b/c/gnss_converters/src/ubx_ephemeris/glo.c
@@ -155,7 +155,10 @@ void glo_decode_string(
 
   ephemeris_t e;
   memset(&e, 0, sizeof(e));
-  decode_glo_ephemeris(page, sid, &data->utc_params, &e);
+  if (!decode_glo_ephemeris(page, sid, &data->utc_params, &e)) {
+    invalidate_strings(sat, /*mask=*/ALL_STRINGS_MASK);
+    return;
+  }
 
   /* SBP codes FCN as [1..14] */
   e.data.glo.fcn = fcn + 1;
-- 
2.43.0


From ca3f087ca02069c013efe978dddff67cdbc893ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:08 +0000
Subject: [PATCH 059/118] fix: libubx: do not write behind the encoded
 RXM-SFRBX message

The encoder cleared room for ten data words whatever the number of words, so
it wrote up to 40 bytes more than it reported. Also check the width in
ubx_setbitul before shifting by it.
---
 c/libubx/src/encode.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/c/libubx/src/encode.c b/c/libubx/src/encode.c
index 73f8677..e6e8d32 100644
--- a/c/libubx/src/encode.c
+++ b/c/libubx/src/encode.c
@@ -33,12 +33,12 @@
  * \param data Unsigned integer to be packed into bit field.
  */
 void ubx_setbitul(uint8_t *buff, uint32_t pos, uint32_t len, uint64_t data) {
-  uint64_t mask = ((uint64_t)1) << (len - 1);
-
   if (len <= 0 || 64 < len) {
     return;
   }
 
+  uint64_t mask = ((uint64_t)1) << (len - 1);
+
   for (uint32_t i = pos; i < pos + len; i++, mask >>= 1) {
     if (data & mask) {
       buff[i / 8] |= ((uint64_t)1) << (7 - i % 8);
@@ -612,7 +612,6 @@ uint16_t ubx_encode_rxm_sfrbx(const ubx_rxm_sfrbx *msg_rxm_sfrbx,
   /* reserved */
   memcpy(&buff[index], &msg_rxm_sfrbx->reserved2, 1);
   index += 1;
-  memset(&buff[index], 0, sizeof(msg_rxm_sfrbx->data_words));
   for (int i = 0; i < msg_rxm_sfrbx->num_words; i++) {
     memcpy(&buff[index], &msg_rxm_sfrbx->data_words[i], 4);
     index += 4;
-- 
2.43.0


From 16e768c7e59d5a672189b3c19e976e98bcb2359d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 060/118] fix: ixcom_sbp: refuse impossible message lengths

A length smaller than the header underflowed the number of bytes to read and
overflowed the read buffer, a length equal to the header size was taken for
the end of the stream and a length of 4096 or more aborted.
---
 c/gnss_converters/src/ixcom_sbp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c/gnss_converters/src/ixcom_sbp.c b/c/gnss_converters/src/ixcom_sbp.c
index d55b09a..e84b98d 100644
--- a/c/gnss_converters/src/ixcom_sbp.c
+++ b/c/gnss_converters/src/ixcom_sbp.c
@@ -78,6 +78,13 @@ static int read_ixcom_frame(struct ixcom_sbp_state *state) {
       size_t message_length =
           state->read_buffer[4] + (state->read_buffer[5] << 8);
 
+      /* Assume an impossible length is due to a corrupted header */
+      if (message_length < sizeof(XCOMHeader) + sizeof(XCOMFooter) ||
+          message_length >= IXCOM_BUFFER_SIZE) {
+        state->index = 0;
+        continue;
+      }
+
       ret = read_ixcom_bytes(state, message_length - state->index);
       if (ret <= 0) {
         break;
-- 
2.43.0


From 6dfad2005888c992dcc61313d75ca73d062ad6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 061/118] fix: libixcom: check the length of IMURAW and
 WHEELDATA messages

The checksum was computed over the length in the header whatever it was, so a
length below 2 underflowed and a long one read behind the message; a short
one with a matching checksum passed stale bytes off as data.
---
 c/libixcom/src/decode.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/c/libixcom/src/decode.c b/c/libixcom/src/decode.c
index e5f780e..86886da 100644
--- a/c/libixcom/src/decode.c
+++ b/c/libixcom/src/decode.c
@@ -143,6 +143,11 @@ ixcom_rc ixcom_decode_imuraw(const uint8_t buff[], XCOMmsg_IMURAW *msg_imuraw) {
     return IXCOM_RC_INVALID_MESSAGE;
   }
 
+  /* the length is fixed, and bounds the bytes covered by the checksum */
+  if (msg_imuraw->header.msg_len != sizeof(XCOMmsg_IMURAW)) {
+    return IXCOM_RC_INVALID_MESSAGE;
+  }
+
   for (int i = 0; i < 3; i++) {
     // clang-format off
     byte_offset += ixcom_set_bytes(
@@ -185,6 +190,11 @@ ixcom_rc ixcom_decode_wheeldata(const uint8_t buff[],
     return IXCOM_RC_INVALID_MESSAGE;
   }
 
+  /* the length is fixed, and bounds the bytes covered by the checksum */
+  if (msg_wheeldata->header.msg_len != sizeof(XCOMmsg_WHEELDATA)) {
+    return IXCOM_RC_INVALID_MESSAGE;
+  }
+
   // clang-format off
   byte_offset += ixcom_set_bytes(
       buff + byte_offset, (uint8_t *)(&msg_wheeldata->speed), 4);
-- 
2.43.0


From bb852147f1d9ffc4bb46605e98a3cff845291e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 062/118] fix: ixcom_sbp: saturate speeds which do not fit and
 ignore NaN

The conversion of a speed beyond the SBP range, or of a sensor value which is
not a number, was undefined.
---
 c/gnss_converters/src/ixcom_sbp.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ixcom_sbp.c b/c/gnss_converters/src/ixcom_sbp.c
index e84b98d..b1dffec 100644
--- a/c/gnss_converters/src/ixcom_sbp.c
+++ b/c/gnss_converters/src/ixcom_sbp.c
@@ -132,12 +132,28 @@ int16_t float_to_s16_clamped(float val) {
     ret = INT16_MIN;
   } else if (val > INT16_MAX) {
     ret = INT16_MAX;
+  } else if (isnan(val)) {
+    ret = 0;
   } else {
     ret = lroundf(val);
   }
   return ret;
 }
 
+static s32 speed_to_s32_clamped(float speed) {
+  float mm_per_s = speed * 1000;
+  if (isnan(mm_per_s)) {
+    return 0;
+  }
+  if (mm_per_s <= (float)INT32_MIN) {
+    return INT32_MIN;
+  }
+  if (mm_per_s >= (float)INT32_MAX) {
+    return INT32_MAX;
+  }
+  return (s32)mm_per_s;
+}
+
 void handle_imuraw(struct ixcom_sbp_state *state) {
   assert(state);
 
@@ -190,7 +206,7 @@ void handle_wheeldata(struct ixcom_sbp_state *state) {
 
     sbp_wheeldata.odometry.tow = wheeldata.header.gps_time_sec * 1000 +
                                  wheeldata.header.gps_time_usec / 1000;
-    sbp_wheeldata.odometry.velocity = (s32)(wheeldata.speed * 1000);
+    sbp_wheeldata.odometry.velocity = speed_to_s32_clamped(wheeldata.speed);
     sbp_wheeldata.odometry.flags = ODO_TIMESOURCE_GPS;
 
     state->cb_ixcom_to_sbp(
-- 
2.43.0


From 91a51edb1d43dfbd44b6db2ad26eca89b333285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:42 +0000
Subject: [PATCH 063/118] fix: ubx_sbp: saturate the velocity accuracy

The speed accuracy of NAV-VELECEF wrapped around above 65535, turning a
useless velocity into an excellent one.
---
 c/gnss_converters/src/ubx_sbp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 94a72c9..a555645 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -554,7 +554,10 @@ static int fill_msg_vel_ecef(const struct ubx_pvt_state *pvt_state,
   msg->x = scale_s32(nav_velecef.ecefVX, UBX_NAV_VELECEF_SCALING);
   msg->y = scale_s32(nav_velecef.ecefVY, UBX_NAV_VELECEF_SCALING);
   msg->z = scale_s32(nav_velecef.ecefVZ, UBX_NAV_VELECEF_SCALING);
-  msg->accuracy = nav_velecef.speed_acc;
+  /* bounding u32 -> u16 conversion */
+  msg->accuracy = (u16)(nav_velecef.speed_acc > UINT16_MAX
+                            ? UINT16_MAX
+                            : nav_velecef.speed_acc);
   msg->n_sats = pvt_state->num_sats;
   msg->flags = 0;
   /* Assume either invalid or dead reckoning. Temp. hack */
-- 
2.43.0


From 3863eb50f705c987915e0c0975b2fada8c75d126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:48 +0000
Subject: [PATCH 064/118] fix: ubx_sbp: accept Galileo pages of eight words

The page is eight words long, as the documentation of the decoder says, but
only longer messages were accepted.
---
 c/gnss_converters/src/ubx_ephemeris/gal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ubx_ephemeris/gal.c b/c/gnss_converters/src/ubx_ephemeris/gal.c
index 9ee17aa..f3c6abe 100644
--- a/c/gnss_converters/src/ubx_ephemeris/gal.c
+++ b/c/gnss_converters/src/ubx_ephemeris/gal.c
@@ -88,7 +88,7 @@ void gal_decode_page(struct ubx_sbp_state *data,
                      int sz) {
   assert(data);
   assert(words);
-  if (prn < GAL_FIRST_PRN || prn >= (GAL_FIRST_PRN + NUM_SATS_GAL) || 8 >= sz) {
+  if (prn < GAL_FIRST_PRN || prn >= (GAL_FIRST_PRN + NUM_SATS_GAL) || 8 > sz) {
     return;
   }
 
-- 
2.43.0


From 6a412e074020a905fd908d0a3069a9ab56667cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:48 +0000
Subject: [PATCH 065/118] fix: ubx_sbp: use all 23 bits of the wheel tick count

Bits 0 to 22 of ESF-MEAS tick data are the count and bit 23 the direction; the
highest bit of the count was dropped, so the ticks jumped back by 4194304.
---
 c/gnss_converters/src/ubx_sbp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index a555645..8617156 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -728,7 +728,7 @@ static void handle_esf_meas(struct ubx_sbp_state *state,
         state->cb_ubx_to_sbp(
             state->sender_id, SbpMsgOdometry, &msg, state->context);
       } else {
-        u32 tick_count = data_value & 0x3FFFFF;
+        u32 tick_count = data_value & 0x7FFFFF;
         bool reverse = (data_value & (1 << 23)) >> 23;
         if (state->esf_state.last_input_tick_count == UINT32_MAX) {
           state->esf_state.last_input_tick_count = tick_count;
-- 
2.43.0


From 1910f46d851bda88c74f4e7a4e439afc13dbb81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:48 +0000
Subject: [PATCH 066/118] fix: ubx_sbp: accumulate the ticks of every wheel
 separately

All wheels shared one counter, so as soon as one of them reported driving
backwards its ticks were computed from the difference between two wheels.
---
 .../include/gnss-converters/ubx_sbp.h         |  7 +++--
 c/gnss_converters/src/ubx_sbp.c               | 26 ++++++++++++-------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/c/gnss_converters/include/gnss-converters/ubx_sbp.h b/c/gnss_converters/include/gnss-converters/ubx_sbp.h
index 68bee84..50f5f94 100644
--- a/c/gnss_converters/include/gnss-converters/ubx_sbp.h
+++ b/c/gnss_converters/include/gnss-converters/ubx_sbp.h
@@ -46,6 +46,9 @@ extern "C" {
 
 #define UBX_UNKNOWN_PRN 255
 
+/* Number of SBP wheel tick sources */
+#define UBX_NUM_TICK_SOURCES 4
+
 /* Stores state for ESF-* messages */
 struct ubx_esf_state {
   gps_time_t last_obs_time_gnss;
@@ -55,8 +58,8 @@ struct ubx_esf_state {
   u32 last_imu_msss;
   u32 last_odo_msss;
   u32 imu_raw_msgs_sent;
-  u32 last_input_tick_count;
-  s32 output_tick_count;
+  u32 last_input_tick_count[UBX_NUM_TICK_SOURCES];
+  s32 output_tick_count[UBX_NUM_TICK_SOURCES];
   double last_imu_temp;
   bool temperature_set;
   bool weeknumber_set;
diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 8617156..0758f99 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -730,22 +730,26 @@ static void handle_esf_meas(struct ubx_sbp_state *state,
       } else {
         u32 tick_count = data_value & 0x7FFFFF;
         bool reverse = (data_value & (1 << 23)) >> 23;
-        if (state->esf_state.last_input_tick_count == UINT32_MAX) {
-          state->esf_state.last_input_tick_count = tick_count;
-          state->esf_state.output_tick_count = tick_count;
+        u8 source = get_wheeltick_velocity_source(data_type);
+        u32 *last_input_tick_count =
+            &state->esf_state.last_input_tick_count[source];
+        s32 *output_tick_count = &state->esf_state.output_tick_count[source];
+        if (*last_input_tick_count == UINT32_MAX) {
+          *last_input_tick_count = tick_count;
+          *output_tick_count = tick_count;
         } else {
-          u32 increment = tick_count - state->esf_state.last_input_tick_count;
-          state->esf_state.last_input_tick_count = tick_count;
+          u32 increment = tick_count - *last_input_tick_count;
+          *last_input_tick_count = tick_count;
           if (reverse) {
-            state->esf_state.output_tick_count -= increment;
+            *output_tick_count -= increment;
           } else {
-            state->esf_state.output_tick_count += increment;
+            *output_tick_count += increment;
           }
         }
         sbp_msg_wheeltick_t *msg_wheeltick = &msg.wheeltick;
         set_wheeltick_time(state->esf_state.running_odo_msss, msg_wheeltick);
-        msg_wheeltick->source = get_wheeltick_velocity_source(data_type);
-        msg_wheeltick->ticks = state->esf_state.output_tick_count;
+        msg_wheeltick->source = source;
+        msg_wheeltick->ticks = *output_tick_count;
         state->cb_ubx_to_sbp(
             state->sender_id, SbpMsgWheeltick, &msg, state->context);
       }
@@ -1445,7 +1449,9 @@ void ubx_sbp_init(struct ubx_sbp_state *state,
   state->esf_state.running_imu_msss = -1;
   state->esf_state.running_odo_msss = -1;
 
-  state->esf_state.last_input_tick_count = UINT32_MAX;
+  for (u8 i = 0; i < UBX_NUM_TICK_SOURCES; i++) {
+    state->esf_state.last_input_tick_count[i] = UINT32_MAX;
+  }
 
   state->leap_second_known = false;
 }
-- 
2.43.0


From da2dd1a30daaddd7afd834acb76146b6cb2196fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:27 +0000
Subject: [PATCH 067/118] fix: ubx_sbp: unwrap the sensor clock in the GNSS
 time offset

---
 c/gnss_converters/src/ubx_sbp.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 0758f99..eafe4ca 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -1204,7 +1204,13 @@ static void handle_nav_status(struct ubx_sbp_state *state,
 
     if (gps_time_valid(&state->esf_state.last_imu_time_msss)) {
       gps_time_t nav_status_time_local;
-      nav_status_time_local.tow = 0.001 * nav_status.msss;
+      s64 msss = nav_status.msss;
+      if (state->esf_state.running_imu_msss != -1) {
+        /* the IMU times continue when the 32-bit counter rolls over */
+        msss = state->esf_state.running_imu_msss +
+               (s32)(nav_status.msss - state->esf_state.last_imu_msss);
+      }
+      nav_status_time_local.tow = 0.001 * msss;
       nav_status_time_local.wn = 0;
       if (!normalize_gps_time_safe(&nav_status_time_local)) {
         return;
-- 
2.43.0


From 5160de204389d7ae5ce3d1d385fc81989cd3e9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:43 +0000
Subject: [PATCH 068/118] fix: nmea: do not truncate the solution period to
 milliseconds

Solution rates such as 3 Hz or 0.1 Hz lost or multiplied sentences, and an
unset or invalid solution frequency divided by zero.
---
 c/gnss_converters/src/nmea.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index 7ed5a44..da9b639 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -1359,12 +1359,14 @@ bool check_nmea_rate(u32 rate, u32 gps_tow_ms, float soln_freq) {
    * output period is less than 1/2 the solution period we should send the NMEA
    * message.
    * This way, we still send no_fix messages when receiver clock is drifting. */
-  u32 soln_period_ms = (u32)(1.0 / soln_freq * 1e3);
-  u32 output_period_ms = soln_period_ms * rate;
-  if (((gps_tow_ms) % output_period_ms) < (soln_period_ms / 2)) {
-    return true;
+  if (!(soln_freq > 0)) {
+    return false;
   }
-  return false;
+  /* The periods are not necessarily a whole number of milliseconds. The half
+   * millisecond covers the rounding of the time of week. */
+  double soln_period_ms = 1e3 / (double)soln_freq;
+  double output_period_ms = soln_period_ms * rate;
+  return fmod(gps_tow_ms + 0.5, output_period_ms) < soln_period_ms / 2;
 }
 
 /** Convert the SBP status flag into NMEA Status field.
-- 
2.43.0


From 34532ff93b6d2f3da35f785fd23e0f348c94004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:43 +0000
Subject: [PATCH 069/118] fix: nmea: no zero length array for GSV without
 satellites

---
 c/gnss_converters/src/nmea.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index da9b639..236380a 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -1147,7 +1147,8 @@ void send_gsv(sbp2nmea_t *state) {
   const u8 sbp_n_state = sbp_meas_state->n_states;
 
   /* Group by constellation */
-  nmea_gsv_element_t sv_grouped[TALKER_ID_COUNT][n_used];
+  nmea_gsv_element_t sv_grouped[TALKER_ID_COUNT]
+                               [ARRAY_SIZE(sbp_azel->azel)];
   memset(&sv_grouped, 0, sizeof(sv_grouped));
   u8 num_sv[TALKER_ID_COUNT] = {0};
   memset(&sv_grouped, 0, sizeof(sv_grouped));
-- 
2.43.0


From edabd0ebd87580c235c03c719cc0d3c77bbab718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:43 +0000
Subject: [PATCH 070/118] fix: nmea: report QZSS satellites as 193 and up

---
 c/gnss_converters/src/nmea.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index 236380a..a78b60e 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -46,8 +46,8 @@
 /* BDS NMEA SV IDs are from 401 to 437 */
 #define NMEA_SV_ID_OFFSET_BDS2 (400)
 
-/* QZSS NMEA SV IDs are from 193 to 197 */
-#define NMEA_SV_ID_OFFSET_QZSS (192)
+/* QZSS NMEA SV IDs are from 193 to 197, same as the PRNs in SBP */
+#define NMEA_SV_ID_OFFSET_QZSS (0)
 
 /* Max SVs reported per GSA message */
 #define GSA_MAX_SV 12
-- 
2.43.0


From 64fee1f88d11e7ecef54adf8fe122424b25672f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:43 +0000
Subject: [PATCH 071/118] fix: nmea: HDT heading never prints as 360.00

---
 c/gnss_converters/src/nmea.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index a78b60e..b9330c3 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -834,10 +834,14 @@ void send_gphdt(sbp2nmea_t *state) {
   NMEA_SENTENCE_PRINTF("$GPHDT,"); /* Command */
   if ((POSITION_MODE_MASK & sbp_baseline_heading->flags) ==
       POSITION_MODE_FIXED) {
-    NMEA_SENTENCE_PRINTF(
-        "%.2f,T",
-        (float)sbp_baseline_heading->heading /
-            MSG_HEADING_SCALE_FACTOR); /* Heading only valid when fixed */
+    double heading = sbp_baseline_heading->heading / MSG_HEADING_SCALE_FACTOR;
+    heading = fmod(heading, FULL_CIRCLE_DEG);
+    /* 360.00 is not a valid heading, it has to be printed as 0 */
+    if (heading >= 359.995) {
+      heading = 0;
+    }
+    NMEA_SENTENCE_PRINTF("%.2f,T",
+                         heading); /* Heading only valid when fixed */
   } else {
     NMEA_SENTENCE_PRINTF(",T"); /* Heading only valid when fixed */
   }
-- 
2.43.0


From ed439d9bf206b5300a7f96d7f7bc40a51d862a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:43 +0000
Subject: [PATCH 072/118] fix: nmea: GST error ellipse of a nearly singular
 covariance

Rounding made the smaller eigenvalue negative, printed as -nan, and turned the
ellipse by 90 degrees when the east axis dominates.
---
 c/gnss_converters/src/nmea.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index b9330c3..b59c776 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -1051,21 +1051,19 @@ void send_gpgst(sbp2nmea_t *state) {
   double det = sbp_pos_llh_cov->cov_n_n * sbp_pos_llh_cov->cov_e_e -
                sbp_pos_llh_cov->cov_n_e * sbp_pos_llh_cov->cov_n_e;
 
-  /* Semi-major and semi-minor axis of the error ellipse and orientation */
+  /* Semi-major and semi-minor axis of the error ellipse and orientation. The
+   * smaller eigenvalue can come out negative because of rounding. */
   double eigenval_1 = (trace / 2 + sqrt(fmax(0, ((trace * trace) / 4) - det)));
   double eigenval_2 = (trace / 2 - sqrt(fmax(0, ((trace * trace) / 4) - det)));
 
   double semi_major = sqrt(eigenval_1);
-  double semi_minor = sqrt(eigenval_2);
-
-  double orientation = 0.0;
-  if (eigenval_1 > 0 && sbp_pos_llh_cov->cov_e_e < eigenval_1) {
-    orientation = atan(sbp_pos_llh_cov->cov_n_e /
-                       (eigenval_1 - sbp_pos_llh_cov->cov_e_e)) *
-                  R2D;
-  } else if (eigenval_1 > 0) {
-    orientation = 90.0;
-  }
+  double semi_minor = sqrt(fmax(0, eigenval_2));
+
+  double orientation =
+      0.5 *
+      atan2(2.0 * sbp_pos_llh_cov->cov_n_e,
+            (double)sbp_pos_llh_cov->cov_n_n - sbp_pos_llh_cov->cov_e_e) *
+      R2D;
 
   NMEA_SENTENCE_PRINTF("%f,%f,%.1f,%f,%f,%f",
                        semi_major,
-- 
2.43.0


From efaa7f183a3fe35105434e8d6f6fc19572bc738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:43 +0000
Subject: [PATCH 073/118] fix: nmea: PUBX sentence does not fit its buffer

---
 c/gnss_converters/src/nmea.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index b59c776..ae5f0ed 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -1256,7 +1256,7 @@ void send_pubx(sbp2nmea_t *state) {
     fix_type = get_nmea_quality_indicator(sbp_pos_llh_cov->flags);
   }
 
-  NMEA_SENTENCE_START(120);
+  NMEA_SENTENCE_START(200);
   NMEA_SENTENCE_PRINTF("$PUBX,00,");
 
   // UTC
-- 
2.43.0


From 6ce36cfd674c26421f653c106969000604372cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:43 +0000
Subject: [PATCH 074/118] fix: nmea: time stamp string holds any UTC time

---
 c/gnss_converters/src/nmea.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index ae5f0ed..24e7fbf 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -56,9 +56,9 @@
 #define NMEA_UTC_S_DECIMALS 2
 #define NMEA_UTC_S_FRAC_DIVISOR pow(10, NMEA_UTC_S_DECIMALS)
 
-/* Adequate until end of year 999999.
-   Worst case: "%02d%02d%05.2f,%02d,%02d,%lu" */
-#define NMEA_TS_MAX_LEN (21 + NMEA_UTC_S_DECIMALS)
+/* Adequate for any value of the SBP fields.
+   Worst case: "255255255.99,255,255,65535," */
+#define NMEA_TS_MAX_LEN (26 + NMEA_UTC_S_DECIMALS)
 
 /* Accuracy of Course Over Ground */
 #define NMEA_COG_DECIMALS 1
-- 
2.43.0


From bbea8bc98066208056f0b8f1b14a297c778e08f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:43 +0000
Subject: [PATCH 075/118] fix: sbp_nmea: fused mode uses the fused solution

---
 c/gnss_converters/src/sbp_nmea.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/sbp_nmea.c b/c/gnss_converters/src/sbp_nmea.c
index 0d78f9d..972dda4 100644
--- a/c/gnss_converters/src/sbp_nmea.c
+++ b/c/gnss_converters/src/sbp_nmea.c
@@ -423,7 +423,8 @@ void sbp2nmea_init(sbp2nmea_t *state,
   state->cb_sbp_to_nmea = cb_sbp_to_nmea;
   state->ctx = ctx;
   state->requested_mode = mode;
-  state->actual_mode = SBP2NMEA_MODE_GNSS;
+  state->actual_mode = (mode == SBP2NMEA_MODE_FUSED) ? SBP2NMEA_MODE_FUSED
+                                                     : SBP2NMEA_MODE_GNSS;
   state->last_non_stationary_cog = 0;
   state->cog_update_threshold_mps = NMEA_COG_STATIC_LIMIT_MPS;
 }
-- 
2.43.0


From 0ef7ae92a5223c4c1bdc7529f61e1bd3d14562a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:43 +0000
Subject: [PATCH 076/118] fix: sbp_nmea: a rejected observation message does
 not complete a sequence

---
 c/gnss_converters/src/sbp_nmea.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/sbp_nmea.c b/c/gnss_converters/src/sbp_nmea.c
index 972dda4..e61968e 100644
--- a/c/gnss_converters/src/sbp_nmea.c
+++ b/c/gnss_converters/src/sbp_nmea.c
@@ -351,9 +351,10 @@ static void unpack_obs_header(const sbp_observation_header_t *header,
 }
 
 void sbp2nmea_obs(sbp2nmea_t *state, const sbp_msg_obs_t *sbp_obs) {
+  uint8_t total;
   uint8_t count;
   sbp_v4_gps_time_t obs_time;
-  unpack_obs_header(&sbp_obs->header, &obs_time, &state->obs_seq_total, &count);
+  unpack_obs_header(&sbp_obs->header, &obs_time, &total, &count);
 
   /* Count zero means it's the first message in a sequence */
   if (count == 0) {
@@ -365,6 +366,7 @@ void sbp2nmea_obs(sbp2nmea_t *state, const sbp_msg_obs_t *sbp_obs) {
     /* Obs message missed, reset sequence */
     return;
   }
+  state->obs_seq_total = total;
   state->obs_seq_count = count;
   state->obs_time = obs_time;
 
-- 
2.43.0


From e68c284641f9ec508046798f10d44522df18843e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:43 +0000
Subject: [PATCH 077/118] fix: sbp_nmea: positions out of range are no position

They ran into assertions, conversions out of range and truncated sentences.
---
 c/gnss_converters/src/sbp_nmea.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/c/gnss_converters/src/sbp_nmea.c b/c/gnss_converters/src/sbp_nmea.c
index e61968e..4afecdf 100644
--- a/c/gnss_converters/src/sbp_nmea.c
+++ b/c/gnss_converters/src/sbp_nmea.c
@@ -29,6 +29,8 @@
  * below this limit. */
 #define NMEA_COG_STATIC_LIMIT_MPS 0.1f
 
+#define NMEA_MAX_HEIGHT_M 1e9
+
 struct nmea_meta_entry {
   uint16_t gnss_tow_mask;
   bool available_in_fused;
@@ -165,6 +167,19 @@ static uint32_t get_tow(const sbp2nmea_t *state,
   }
 }
 
+/* A position that cannot be printed is reported as no position at all */
+static void check_position(sbp_msg_pos_llh_cov_t *pos) {
+  bool valid = (pos->flags & POSITION_MODE_MASK) <= POSITION_MODE_SBAS &&
+               fabs(pos->lat) <= 90.0 && fabs(pos->lon) <= 180.0 &&
+               fabs(pos->height) <= NMEA_MAX_HEIGHT_M;
+  if (!valid) {
+    pos->flags &= ~POSITION_MODE_MASK;
+    pos->lat = 0;
+    pos->lon = 0;
+    pos->height = 0;
+  }
+}
+
 static double sbp_gpsdifftime(const sbp_v4_gps_time_t *sbp_end,
                               const sbp_v4_gps_time_t *sbp_begin) {
   gps_time_t end;
@@ -397,6 +412,9 @@ void sbp2nmea_msg_set(sbp2nmea_t *state,
            sizeof(state->sbp_state[id]),
            sbp_msg,
            sizeof(*sbp_msg));
+  if (id == SBP2NMEA_SBP_POS_LLH_COV || id == SBP2NMEA_SBP_POS_LLH_COV_GNSS) {
+    check_position(&state->sbp_state[id].pos_llh_cov);
+  }
 }
 
 void sbp2nmea_rate_set(sbp2nmea_t *state, int rate, sbp2nmea_nmea_id_t id) {
-- 
2.43.0


From 49277b9864f5d2a3d4d0d1f1d2ba3bd74024fe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:43 +0000
Subject: [PATCH 078/118] fix: nmea: invalid covariances print as empty fields

---
 c/gnss_converters/src/nmea.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index 24e7fbf..c358f8f 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -416,6 +416,10 @@ void send_gpgga(sbp2nmea_t *state) {
   NMEA_SENTENCE_DONE(state);
 }
 
+static bool variance_valid(float variance) {
+  return isfinite(variance) && variance >= 0;
+}
+
 gnss_signal_t sbp_to_gnss(sbp_v4_gnss_signal_t sid) {
   gnss_signal_t other;
   other.sat = sid.sat;
@@ -988,7 +992,7 @@ void send_gpgst(sbp2nmea_t *state) {
       &sbp2nmea_msg_get(state, SBP2NMEA_SBP_UTC_TIME, true)->utc_time;
   const u8 n_obs = sbp2nmea_num_obs_get(state);
   const sbp_v4_gnss_signal_t *nav_sids = sbp2nmea_nav_sids_get(state);
-  NMEA_SENTENCE_START(120);
+  NMEA_SENTENCE_START(200);
 
   u8 fix_type = NMEA_GGA_QI_INVALID;
   if ((sbp_pos_llh_cov->flags & POSITION_MODE_MASK) != POSITION_MODE_NONE) {
@@ -1019,8 +1023,13 @@ void send_gpgst(sbp2nmea_t *state) {
     constellations += (0 != talkers[i]) ? 1 : 0;
   }
 
+  bool cov_valid = isfinite(sbp_pos_llh_cov->cov_n_e) &&
+                   variance_valid(sbp_pos_llh_cov->cov_n_n) &&
+                   variance_valid(sbp_pos_llh_cov->cov_e_e) &&
+                   variance_valid(sbp_pos_llh_cov->cov_d_d);
+
   /* Check if no SVs identified */
-  if (0 == constellations || fix_type == NMEA_GGA_QI_INVALID) {
+  if (0 == constellations || fix_type == NMEA_GGA_QI_INVALID || !cov_valid) {
     /* At bare minimum, print empty GPGST and be done with it */
     NMEA_SENTENCE_PRINTF("$GPGST,%s,,,,,,", utc);
     NMEA_SENTENCE_DONE(state);
@@ -1283,9 +1292,13 @@ void send_pubx(sbp2nmea_t *state) {
   NMEA_SENTENCE_PRINTF("%s,", nav_stat);
 
   // Hacc, Vacc
-  if (fix_type != NMEA_GGA_QI_INVALID) {
-    float hacc = sqrtf(sbp_pos_llh_cov->cov_n_n + sbp_pos_llh_cov->cov_e_e);
-    float vacc = sqrtf(sbp_pos_llh_cov->cov_d_d);
+  if (fix_type != NMEA_GGA_QI_INVALID &&
+      variance_valid(sbp_pos_llh_cov->cov_n_n) &&
+      variance_valid(sbp_pos_llh_cov->cov_e_e) &&
+      variance_valid(sbp_pos_llh_cov->cov_d_d)) {
+    double hacc = sqrt((double)sbp_pos_llh_cov->cov_n_n +
+                       (double)sbp_pos_llh_cov->cov_e_e);
+    double vacc = sqrt(sbp_pos_llh_cov->cov_d_d);
     NMEA_SENTENCE_PRINTF("%.1f,%.1f,", hacc, vacc);
   } else {
     NMEA_SENTENCE_PRINTF(",,");
-- 
2.43.0


From 471a001165cd8b6e779fcc88983f35f24f6320d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:57 +0000
Subject: [PATCH 079/118] fix: librtcm: encode the code indicator of legacy
 observations

P code observations were sent as C/A code.
---
 c/librtcm/src/encode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index e4adc80..a0d922e 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -184,7 +184,7 @@ static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
   double freq = 0;
   if (L1_FREQ == freq_enum) {
     freq = GPS_L1_HZ;
-    rtcm_setbitu(buff, *bit, 1, 0);
+    rtcm_setbitu(buff, *bit, 1, freq_data->code);
     *bit += 1;
     rtcm_setbitu(buff,
                  *bit,
@@ -193,7 +193,7 @@ static void encode_basic_freq_data(const rtcm_freq_data *freq_data,
     *bit += 24;
   } else {
     freq = GPS_L2_HZ;
-    rtcm_setbitu(buff, *bit, 2, 0);
+    rtcm_setbitu(buff, *bit, 2, freq_data->code);
     *bit += 2;
     rtcm_setbits(buff,
                  *bit,
-- 
2.43.0


From 62193021e6bb3c9f81d178b3a8ad05ac117ce142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:57 +0000
Subject: [PATCH 080/118] fix: sbp_rtcm3: initialise the observation header and
 sender

The first observation message flushed an empty buffer using the time of an
uninitialised header, which could fail an assertion.
---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index a4c7526..d5ccbeb 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -53,7 +53,9 @@ void sbp2rtcm_init(struct rtcm3_out_state *state,
   state->cb_sbp_to_rtcm = cb_sbp_to_rtcm;
   state->context = context;
 
+  state->sender_id = 0;
   state->n_sbp_obs = 0;
+  memset(&state->sbp_header, 0, sizeof(state->sbp_header));
 
   for (u8 i = 0; i < sizeof(state->glo_sv_id_fcn_map); i++) {
     state->glo_sv_id_fcn_map[i] = MSM_GLO_FCN_UNKNOWN;
-- 
2.43.0


From 14ccdfc33a3d758b3e0e52971e163b377c4de4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:57 +0000
Subject: [PATCH 081/118] fix: sbp_rtcm3: discard short or untimely observation
 messages

Messages shorter than their header were read out of bounds and a time of week
outside of the week failed an assertion.
---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index d5ccbeb..f49fab6 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -833,6 +833,16 @@ void sbp2rtcm_sbp_obs_cb(const u16 sender_id,
                          struct rtcm3_out_state *state) {
   const msg_obs_t *sbp_obs = (const msg_obs_t *)msg;
 
+  if (len < sizeof(observation_header_t)) {
+    log_info("Discarding SBP obs message of only %u bytes", len);
+    return;
+  }
+  if (sbp_obs->header.t.tow >= WEEK_MS) {
+    log_info("Discarding SBP obs with invalid time of week %u",
+             (unsigned)sbp_obs->header.t.tow);
+    return;
+  }
+
   if (state->sender_id != sender_id) {
     /* sender changed, send existing buffer and reset */
     sbp_buffer_to_rtcm3(state);
-- 
2.43.0


From 9b6735b6be5b6cfd8e55e38c4ffc3e60cc0736f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:57 +0000
Subject: [PATCH 082/118] fix: sbp_rtcm3: observation buffer overflow

A message arriving when the buffer was exactly full was written past its end.
---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index f49fab6..c413aad 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -908,17 +908,17 @@ void sbp2rtcm_sbp_obs_cb(const u16 sender_id,
        * flagged by RAIM */
       continue;
     }
-    /* add incoming sbp observation into sbp buffer */
-    state->sbp_obs_buffer[state->n_sbp_obs] = sbp_obs->obs[i];
-    state->n_sbp_obs++;
-    if (state->n_sbp_obs == MAX_OBS_PER_EPOCH) {
+    if (state->n_sbp_obs >= MAX_OBS_PER_EPOCH) {
       log_info(
           "Reached max observations per epoch %u, ignoring the remaining %u "
           "obs",
           (u16)MAX_OBS_PER_EPOCH,
-          n_meas - i - 1);
+          n_meas - i);
       break;
     }
+    /* add incoming sbp observation into sbp buffer */
+    state->sbp_obs_buffer[state->n_sbp_obs] = sbp_obs->obs[i];
+    state->n_sbp_obs++;
   }
   state->sbp_header = sbp_obs->header;
 
-- 
2.43.0


From 2031a3cdd8d6823a709673da03776e8798bc8eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:57 +0000
Subject: [PATCH 083/118] fix: sbp_rtcm3: other messages do not split an
 observation epoch

A base position, GLONASS bias or log message from another sender changed the
sender that the observation sequence is compared with, so an epoch being
received was sent out in two parts, the first under the wrong station ID.
---
 .../include/gnss-converters-extra/sbp_rtcm3.h            | 1 +
 c/gnss_converters_extra/src/sbp_rtcm3.c                  | 9 +++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/c/gnss_converters_extra/include/gnss-converters-extra/sbp_rtcm3.h b/c/gnss_converters_extra/include/gnss-converters-extra/sbp_rtcm3.h
index cde0d12..5f1801e 100644
--- a/c/gnss_converters_extra/include/gnss-converters-extra/sbp_rtcm3.h
+++ b/c/gnss_converters_extra/include/gnss-converters-extra/sbp_rtcm3.h
@@ -31,6 +31,7 @@ struct rtcm3_out_state {
   bool ant_known;
   s32 (*cb_sbp_to_rtcm)(u8 *buffer, u16 length, void *context);
   u16 sender_id;
+  u16 obs_sender_id; /* sender of the observations in the buffer */
   observation_header_t sbp_header;
   packed_obs_content_t sbp_obs_buffer[MAX_OBS_PER_EPOCH];
   u16 n_sbp_obs;
diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index c413aad..5fd8610 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -54,6 +54,7 @@ void sbp2rtcm_init(struct rtcm3_out_state *state,
   state->context = context;
 
   state->sender_id = 0;
+  state->obs_sender_id = 0;
   state->n_sbp_obs = 0;
   memset(&state->sbp_header, 0, sizeof(state->sbp_header));
 
@@ -521,7 +522,7 @@ static void msm_init_obs_message(rtcm_msm_message *msg,
   }
 
   /* Station Id DF003 uint16 12*/
-  msg->header.stn_id = sbp_sender_to_rtcm_stn_id(state->sender_id);
+  msg->header.stn_id = sbp_sender_to_rtcm_stn_id(state->obs_sender_id);
 
   /* Issue of Data Station DF409 uint8 3 */
   /* A value of "0" indicates that this field is not utilized. */
@@ -646,7 +647,7 @@ static void rtcm_init_obs_message(rtcm_obs_message *msg,
     msg->header.tow_ms = compute_glo_tod_ms(state->sbp_header.t.tow, state);
   }
   /* Station Id DF003 uint16 12*/
-  msg->header.stn_id = sbp_sender_to_rtcm_stn_id(state->sender_id);
+  msg->header.stn_id = sbp_sender_to_rtcm_stn_id(state->obs_sender_id);
   /* Divergence free flag DF007 bit(1) 1 */
   msg->header.div_free = PIKSI_DIVERGENCE_FREE_INDICATOR;
   /* GPS Smoothing Interval DF008 bit(3) 3 */
@@ -843,10 +844,10 @@ void sbp2rtcm_sbp_obs_cb(const u16 sender_id,
     return;
   }
 
-  if (state->sender_id != sender_id) {
+  if (state->obs_sender_id != sender_id) {
     /* sender changed, send existing buffer and reset */
     sbp_buffer_to_rtcm3(state);
-    state->sender_id = sender_id;
+    state->obs_sender_id = sender_id;
   }
 
   u8 seq_counter = (sbp_obs->header.n_obs & 0x0F) + 1;
-- 
2.43.0


From 746440b3fdfb5ef04b11bf1c6e435ad6aeb0c991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:57 +0000
Subject: [PATCH 084/118] fix: sbp_rtcm3: discard messages shorter than their
 type

They were read out of bounds.
---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 30 ++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 5fd8610..67a467a 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -409,7 +409,10 @@ void sbp2rtcm_base_pos_ecef_cb(const u16 sender_id,
                                const u8 len,
                                const u8 msg[],
                                struct rtcm3_out_state *state) {
-  (void)len;
+  if (len < sizeof(msg_base_pos_ecef_t)) {
+    log_info("Discarding SBP message of only %u bytes", len);
+    return;
+  }
   rtcm_msg_1006 msg_1006;
   rtcm_msg_1008 msg_1008;
   rtcm_msg_1033 msg_1033;
@@ -439,7 +442,10 @@ void sbp2rtcm_glo_biases_cb(const u16 sender_id,
                             const u8 len,
                             const u8 msg[],
                             struct rtcm3_out_state *state) {
-  (void)len;
+  if (len < sizeof(msg_glo_biases_t)) {
+    log_info("Discarding SBP message of only %u bytes", len);
+    return;
+  }
   state->sender_id = sender_id;
 
   rtcm_msg_1230 msg_1230;
@@ -1038,7 +1044,10 @@ void sbp2rtcm_sbp_gps_eph_cb(const u16 sender_id,
                              const u8 len,
                              const u8 msg[],
                              struct rtcm3_out_state *state) {
-  (void)len;
+  if (len < sizeof(msg_ephemeris_gps_t)) {
+    log_info("Discarding SBP message of only %u bytes", len);
+    return;
+  }
   (void)sender_id;
   const msg_ephemeris_gps_t *sbp_gps_eph = (const msg_ephemeris_gps_t *)msg;
 
@@ -1055,7 +1064,10 @@ void sbp2rtcm_sbp_glo_eph_cb(const u16 sender_id,
                              const u8 len,
                              const u8 msg[],
                              struct rtcm3_out_state *state) {
-  (void)len;
+  if (len < sizeof(msg_ephemeris_glo_t)) {
+    log_info("Discarding SBP message of only %u bytes", len);
+    return;
+  }
   (void)sender_id;
   const msg_ephemeris_glo_t *sbp_glo_eph = (const msg_ephemeris_glo_t *)msg;
 
@@ -1072,7 +1084,10 @@ void sbp2rtcm_sbp_bds_eph_cb(const u16 sender_id,
                              const u8 len,
                              const u8 msg[],
                              struct rtcm3_out_state *state) {
-  (void)len;
+  if (len < sizeof(msg_ephemeris_bds_t)) {
+    log_info("Discarding SBP message of only %u bytes", len);
+    return;
+  }
   (void)sender_id;
   const msg_ephemeris_bds_t *sbp_bds_eph = (const msg_ephemeris_bds_t *)msg;
 
@@ -1091,7 +1106,10 @@ void sbp2rtcm_sbp_gal_eph_cb(const u16 sender_id,
                              const u8 len,
                              const u8 msg[],
                              struct rtcm3_out_state *state) {
-  (void)len;
+  if (len < sizeof(msg_ephemeris_gal_t)) {
+    log_info("Discarding SBP message of only %u bytes", len);
+    return;
+  }
   (void)sender_id;
   const msg_ephemeris_gal_t *sbp_gal_eph = (const msg_ephemeris_gal_t *)msg;
 
-- 
2.43.0


From be9d694ee33af98896cfe041f30d17fc72d549f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:57 +0000
Subject: [PATCH 085/118] fix: sbp_rtcm3: observations that do not fit an MSM
 message

Observations with an unknown signal code indexed out of bounds, and those with
an invalid satellite or occurring twice in an epoch failed assertions.
---
 c/gnss_converters/src/rtcm3_utils.c     |  6 +++--
 c/gnss_converters_extra/src/sbp_rtcm3.c | 33 +++++++++++++++++++------
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_utils.c b/c/gnss_converters/src/rtcm3_utils.c
index b934a31..a8f4efa 100644
--- a/c/gnss_converters/src/rtcm3_utils.c
+++ b/c/gnss_converters/src/rtcm3_utils.c
@@ -671,7 +671,6 @@ bool msm_add_to_header(rtcm_msm_header *header, code_t code, u8 prn) {
  * given signal and satellite */
 bool msm_add_to_cell_mask(rtcm_msm_header *header, code_t code, u8 prn) {
   uint8_t num_sigs = msm_get_num_signals(header);
-  assert(num_sigs > 0);
 
   rtcm_constellation_t cons = to_constellation(header->msg_num);
 
@@ -702,7 +701,10 @@ bool msm_add_to_cell_mask(rtcm_msm_header *header, code_t code, u8 prn) {
   /* Mark the cell defined by this satellite/signal pair in the cell mask */
   u8 cell_id = sat_index * num_sigs + signal_index;
   assert(cell_id < MSM_MAX_CELLS);
-  assert(!header->cell_mask[cell_id]);
+  if (header->cell_mask[cell_id]) {
+    msm_add_to_header_err(code, prn, "already in cell mask");
+    return false;
+  }
   header->cell_mask[cell_id] = true;
 
   return true;
diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 67a467a..c300172 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -671,6 +671,17 @@ static u8 sat_index_from_obs(rtcm_sat_data sats[], u8 n_sats, u8 svId) {
   return n_sats;
 }
 
+/* constellation of the observation, or RTCM_CONSTELLATION_INVALID for unknown
+ * codes */
+static rtcm_constellation_t sbp_obs_to_msm_constellation(
+    const packed_obs_content_t *sbp_obs) {
+  code_t code = (code_t)sbp_obs->sid.code;
+  if (!code_valid(code)) {
+    return RTCM_CONSTELLATION_INVALID;
+  }
+  return (rtcm_constellation_t)code_to_constellation(code);
+}
+
 void sbp_buffer_to_msm(const struct rtcm3_out_state *state) {
   /* message for each constellation */
   rtcm_msm_message obs[RTCM_CONSTELLATION_COUNT];
@@ -681,26 +692,32 @@ void sbp_buffer_to_msm(const struct rtcm3_out_state *state) {
   /* loop through observations once to generate satellite and signal masks */
   for (u8 i = 0; i < state->n_sbp_obs; i++) {
     const packed_obs_content_t *sbp_obs = &(state->sbp_obs_buffer[i]);
-    rtcm_constellation_t cons =
-        (rtcm_constellation_t)code_to_constellation(sbp_obs->sid.code);
+    rtcm_constellation_t cons = sbp_obs_to_msm_constellation(sbp_obs);
+    if (RTCM_CONSTELLATION_INVALID == cons) {
+      continue;
+    }
     msm_add_to_header(&obs[cons].header, sbp_obs->sid.code, sbp_obs->sid.sat);
   }
 
   /* using the complete satellite and signal masks, loop through observations
    * again to generate the cell mask */
+  bool included[MAX_OBS_PER_EPOCH];
   for (u8 i = 0; i < state->n_sbp_obs; i++) {
     const packed_obs_content_t *sbp_obs = &(state->sbp_obs_buffer[i]);
-    rtcm_constellation_t cons =
-        (rtcm_constellation_t)code_to_constellation(sbp_obs->sid.code);
-    msm_add_to_cell_mask(
-        &obs[cons].header, sbp_obs->sid.code, sbp_obs->sid.sat);
+    rtcm_constellation_t cons = sbp_obs_to_msm_constellation(sbp_obs);
+    included[i] =
+        RTCM_CONSTELLATION_INVALID != cons &&
+        msm_add_to_cell_mask(
+            &obs[cons].header, sbp_obs->sid.code, sbp_obs->sid.sat);
   }
 
   /* loop through observations once more to generate the actual signal data */
   for (u8 i = 0; i < state->n_sbp_obs; i++) {
+    if (!included[i]) {
+      continue;
+    }
     const packed_obs_content_t *sbp_obs = &(state->sbp_obs_buffer[i]);
-    rtcm_constellation_t cons =
-        (rtcm_constellation_t)code_to_constellation(sbp_obs->sid.code);
+    rtcm_constellation_t cons = sbp_obs_to_msm_constellation(sbp_obs);
     sbp_obs_to_msm_signal_data(sbp_obs, &obs[cons], state);
   }
 
-- 
2.43.0


From d84b9162ade4bd1492766cace6a89fa5c0ef6e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:57 +0000
Subject: [PATCH 086/118] fix: sbp_rtcm3: encode SBAS observations

An epoch with SBAS observations failed an assertion.
---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index c300172..4c08c22 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -148,6 +148,7 @@ static u16 encode_rtcm3_payload(const void *rtcm_msg,
     case 1074:
     case 1084:
     case 1094:
+    case 1104:
     case 1114:
     case 1124: {
       const rtcm_msm_message *msg_msm = (const rtcm_msm_message *)rtcm_msg;
@@ -156,6 +157,7 @@ static u16 encode_rtcm3_payload(const void *rtcm_msg,
     case 1075:
     case 1085:
     case 1095:
+    case 1105:
     case 1115:
     case 1125: {
       const rtcm_msm_message *msg_msm = (const rtcm_msm_message *)rtcm_msg;
-- 
2.43.0


From a5f09f620fe0a5bbf532b725dac887c03f4ddf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:57 +0000
Subject: [PATCH 087/118] fix: sbp_rtcm3: no GLONASS observations at an unknown
 time

Without the leap second the epoch time was encoded as -1.
---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 4c08c22..af0d60b 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -673,14 +673,19 @@ static u8 sat_index_from_obs(rtcm_sat_data sats[], u8 n_sats, u8 svId) {
   return n_sats;
 }
 
-/* constellation of the observation, or RTCM_CONSTELLATION_INVALID for unknown
- * codes */
+/* constellation of the observation, or RTCM_CONSTELLATION_INVALID if it cannot
+ * be sent */
 static rtcm_constellation_t sbp_obs_to_msm_constellation(
-    const packed_obs_content_t *sbp_obs) {
+    const packed_obs_content_t *sbp_obs, const struct rtcm3_out_state *state) {
   code_t code = (code_t)sbp_obs->sid.code;
   if (!code_valid(code)) {
     return RTCM_CONSTELLATION_INVALID;
   }
+  if (CONSTELLATION_GLO == code_to_constellation(code) &&
+      !state->leap_second_known) {
+    /* the GLONASS epoch time is not known */
+    return RTCM_CONSTELLATION_INVALID;
+  }
   return (rtcm_constellation_t)code_to_constellation(code);
 }
 
@@ -694,7 +699,7 @@ void sbp_buffer_to_msm(const struct rtcm3_out_state *state) {
   /* loop through observations once to generate satellite and signal masks */
   for (u8 i = 0; i < state->n_sbp_obs; i++) {
     const packed_obs_content_t *sbp_obs = &(state->sbp_obs_buffer[i]);
-    rtcm_constellation_t cons = sbp_obs_to_msm_constellation(sbp_obs);
+    rtcm_constellation_t cons = sbp_obs_to_msm_constellation(sbp_obs, state);
     if (RTCM_CONSTELLATION_INVALID == cons) {
       continue;
     }
@@ -706,7 +711,7 @@ void sbp_buffer_to_msm(const struct rtcm3_out_state *state) {
   bool included[MAX_OBS_PER_EPOCH];
   for (u8 i = 0; i < state->n_sbp_obs; i++) {
     const packed_obs_content_t *sbp_obs = &(state->sbp_obs_buffer[i]);
-    rtcm_constellation_t cons = sbp_obs_to_msm_constellation(sbp_obs);
+    rtcm_constellation_t cons = sbp_obs_to_msm_constellation(sbp_obs, state);
     included[i] =
         RTCM_CONSTELLATION_INVALID != cons &&
         msm_add_to_cell_mask(
@@ -719,7 +724,7 @@ void sbp_buffer_to_msm(const struct rtcm3_out_state *state) {
       continue;
     }
     const packed_obs_content_t *sbp_obs = &(state->sbp_obs_buffer[i]);
-    rtcm_constellation_t cons = sbp_obs_to_msm_constellation(sbp_obs);
+    rtcm_constellation_t cons = sbp_obs_to_msm_constellation(sbp_obs, state);
     sbp_obs_to_msm_signal_data(sbp_obs, &obs[cons], state);
   }
 
@@ -793,7 +798,7 @@ static void sbp_buffer_to_legacy_rtcm3(struct rtcm3_out_state *state) {
       case CODE_GLO_L1OF:
       case CODE_GLO_L1P: {
         u8 fcn = state->glo_sv_id_fcn_map[sbp_obs->sid.sat];
-        if (MSM_GLO_FCN_UNKNOWN != fcn) {
+        if (MSM_GLO_FCN_UNKNOWN != fcn && state->leap_second_known) {
           /* add a new sat */
           glo_obs.sats[n_glo].fcn = fcn;
           glo_obs.sats[n_glo].svId = sbp_obs->sid.sat;
-- 
2.43.0


From 325dd1fafe27136142a6dd4aa2598e7ac2e8f36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:57 +0000
Subject: [PATCH 088/118] fix: sbp_rtcm3: legacy observations out of bounds

More satellites than the message structure holds and GLONASS satellite numbers
beyond the frequency map were not checked.
---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index af0d60b..872dbdb 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -775,6 +775,9 @@ static void sbp_buffer_to_legacy_rtcm3(struct rtcm3_out_state *state) {
     switch (sbp_obs->sid.code) {
       case CODE_GPS_L1CA:
       case CODE_GPS_L1P: {
+        if (n_gps >= RTCM_MAX_SATS) {
+          break;
+        }
         /* add a new sat */
         gps_obs.sats[n_gps].fcn = 0;
         gps_obs.sats[n_gps].svId = sbp_obs->sid.sat;
@@ -797,6 +800,10 @@ static void sbp_buffer_to_legacy_rtcm3(struct rtcm3_out_state *state) {
       }
       case CODE_GLO_L1OF:
       case CODE_GLO_L1P: {
+        if (n_glo >= RTCM_MAX_SATS || sbp_obs->sid.sat < GLO_FIRST_PRN ||
+            sbp_obs->sid.sat >= GLO_FIRST_PRN + NUM_SATS_GLO) {
+          break;
+        }
         u8 fcn = state->glo_sv_id_fcn_map[sbp_obs->sid.sat];
         if (MSM_GLO_FCN_UNKNOWN != fcn && state->leap_second_known) {
           /* add a new sat */
-- 
2.43.0


From bf4b7fd5124f01a9473ac08ec50b01c82990269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:57 +0000
Subject: [PATCH 089/118] fix: sbp_rtcm3: ignore base positions that do not fit
 the RTCM fields

They were cast to integers (undefined if too large or NaN) and truncated.
---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 872dbdb..209f98d 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -407,6 +407,11 @@ void gps_tow_to_beidou_tow(u32 *tow_ms) {
   *tow_ms -= BDS_SECOND_TO_GPS_SECOND * SECS_MS;
 }
 
+/* True if the coordinate fits in DF025, DF026 and DF027 (int38, 0.1 mm) */
+static bool base_pos_fits(const double coordinate) {
+  return fabs(round(coordinate * 10000.0)) < (double)(1LL << 37);
+}
+
 void sbp2rtcm_base_pos_ecef_cb(const u16 sender_id,
                                const u8 len,
                                const u8 msg[],
@@ -420,10 +425,17 @@ void sbp2rtcm_base_pos_ecef_cb(const u16 sender_id,
   rtcm_msg_1033 msg_1033;
   u8 frame[RTCM3_MAX_MSG_LEN];
 
+  const msg_base_pos_ecef_t *sbp_base_pos = (const msg_base_pos_ecef_t *)msg;
+  if (!base_pos_fits(sbp_base_pos->x) || !base_pos_fits(sbp_base_pos->y) ||
+      !base_pos_fits(sbp_base_pos->z)) {
+    log_info("Ignoring invalid base position");
+    return;
+  }
+
   state->sender_id = sender_id;
 
   /* generate and send the base position message */
-  sbp_to_rtcm3_1006((const msg_base_pos_ecef_t *)msg, &msg_1006, state);
+  sbp_to_rtcm3_1006(sbp_base_pos, &msg_1006, state);
   u16 frame_size = encode_rtcm3_frame(&msg_1006, 1006, frame);
   state->cb_sbp_to_rtcm(frame, frame_size, state->context);
 
-- 
2.43.0


From c306f594b10152eaeeebb291002a99723334eddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:57 +0000
Subject: [PATCH 090/118] fix: sbp_rtcm3: refuse a NaN antenna height

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 209f98d..2cce209 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -383,7 +383,7 @@ void sbp2rtcm_set_glo_fcn(sbp_gnss_signal_t sid,
 
 bool sbp2rtcm_set_ant_height(const double ant_height,
                              struct rtcm3_out_state *state) {
-  if (ant_height < 0.0 || ant_height > RTCM_1006_MAX_ANTENNA_HEIGHT_M) {
+  if (!(ant_height >= 0.0 && ant_height <= RTCM_1006_MAX_ANTENNA_HEIGHT_M)) {
     return false;
   }
   state->ant_height = ant_height;
-- 
2.43.0


From 2e72980d0e0d5d0e733d4ae346e0e7dd652899ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:57 +0000
Subject: [PATCH 091/118] fix: rtcm3_utils: accuracies outside of the tables

Negative, NaN, very small and very large values were cast to an index, which is
undefined, or gave an index that does not fit its field.
---
 c/gnss_converters/src/rtcm3_utils.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/c/gnss_converters/src/rtcm3_utils.c b/c/gnss_converters/src/rtcm3_utils.c
index a8f4efa..f3020c4 100644
--- a/c/gnss_converters/src/rtcm3_utils.c
+++ b/c/gnss_converters/src/rtcm3_utils.c
@@ -24,6 +24,7 @@
 #include "rtcm3_utils.h"
 
 #include <assert.h>
+#include <math.h>
 #include <stdbool.h>
 #include <stdint.h>
 
@@ -33,6 +34,9 @@
 #include <swiftnav/logging.h>
 #include <swiftnav/signal.h>
 
+/* The last URA (GPS, BDS) and FT (GLO) index, "no accuracy prediction" */
+#define MAX_URA_INDEX 15
+
 /** Define the PRN ranges for each constellation. */
 typedef struct {
   u16 first_prn;
@@ -737,6 +741,15 @@ float convert_ura_to_uri(uint8_t ura) {
   return -1;
 }
 
+/* Index of the values that are not in the tables below, these are powers of two.
+ * Invalid values get the index for "no accuracy prediction available". */
+static uint8_t uri_to_ura_index(float uri) {
+  if (!(uri >= 0.0f)) {
+    return MAX_URA_INDEX;
+  }
+  return (uint8_t)fmin(fmax(log2f(uri) + 2.0, 0), MAX_URA_INDEX);
+}
+
 uint8_t convert_gps_uri_to_ura(float uri) {
   /* Convert between RTCM/GPS URA ("User Range Accuracy") number in
    * meters to the encoded index.
@@ -761,7 +774,7 @@ uint8_t convert_gps_uri_to_ura(float uri) {
   } else if (fabsf(uri - 6144.0f) < FLOAT_EQUALITY_EPS) {
     ura = 15;
   } else {
-    ura = (uint8_t)(log2f(uri) + 2.0);
+    ura = uri_to_ura_index(uri);
   }
   return ura;
 }
@@ -806,7 +819,7 @@ uint8_t convert_glo_uri_to_ura(float uri) {
   } else if (fabsf(uri - 6144.0f) < FLOAT_EQUALITY_EPS) {
     ura = 15;
   } else {
-    ura = (uint8_t)(log2f(uri) + 2.0);
+    ura = uri_to_ura_index(uri);
   }
   return ura;
 }
@@ -851,7 +864,7 @@ uint8_t convert_bds_uri_to_ura(float uri) {
   } else if (fabsf(uri - 8196.0f) < FLOAT_EQUALITY_EPS) {
     ura = 15;
   } else {
-    ura = (uint8_t)(log2f(uri) + 2.0);
+    ura = uri_to_ura_index(uri);
   }
   return ura;
 }
-- 
2.43.0


From a628e311140a0d7a8a608328ff27e58e9638491a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 092/118] fix: sbp_rtcm3: ignore ephemerides that do not fit
 the RTCM message

Values out of the range of their field were cast to integers (undefined if too
large or NaN) and truncated, unexpected codes, sources and times failed
assertions.
---
 c/gnss_converters_extra/src/sbp_rtcm3.c       |  41 ++-
 .../src/sbp_rtcm3_ephemeris.c                 | 301 ++++++++++++------
 .../src/sbp_rtcm3_internal.h                  |   8 +-
 3 files changed, 240 insertions(+), 110 deletions(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 2cce209..4367485 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -10,13 +10,12 @@
  * WARRANTIES OF MERCHANTABILITY AND/OR FITNESS FOR A PARTICULAR PURPOSE.
  */
 
-#include <assert.h>
-#include <math.h>
-#include <stdlib.h>
-#include <string.h>
+#include "gnss-converters-extra/sbp_rtcm3.h"
 
+#include <assert.h>
 #include <libsbp/legacy/gnss.h>
 #include <libsbp/legacy/logging.h>
+#include <math.h>
 #include <rtcm3/bits.h>
 #include <rtcm3/decode.h>
 #include <rtcm3/encode.h>
@@ -24,6 +23,8 @@
 #include <rtcm3/eph_encode.h>
 #include <rtcm3/logging.h>
 #include <rtcm3/ssr_decode.h>
+#include <stdlib.h>
+#include <string.h>
 #include <swiftnav/edc.h>
 #include <swiftnav/ephemeris.h>
 #include <swiftnav/fifo_byte.h>
@@ -34,7 +35,6 @@
 #include <swiftnav/signal.h>
 #include <swiftnav/swift_strnlen.h>
 
-#include "gnss-converters-extra/sbp_rtcm3.h"
 #include "gnss-converters/utils.h"
 #include "rtcm3_utils.h"
 #include "sbp_rtcm3_internal.h"
@@ -724,10 +724,9 @@ void sbp_buffer_to_msm(const struct rtcm3_out_state *state) {
   for (u8 i = 0; i < state->n_sbp_obs; i++) {
     const packed_obs_content_t *sbp_obs = &(state->sbp_obs_buffer[i]);
     rtcm_constellation_t cons = sbp_obs_to_msm_constellation(sbp_obs, state);
-    included[i] =
-        RTCM_CONSTELLATION_INVALID != cons &&
-        msm_add_to_cell_mask(
-            &obs[cons].header, sbp_obs->sid.code, sbp_obs->sid.sat);
+    included[i] = RTCM_CONSTELLATION_INVALID != cons &&
+                  msm_add_to_cell_mask(
+                      &obs[cons].header, sbp_obs->sid.code, sbp_obs->sid.sat);
   }
 
   /* loop through observations once more to generate the actual signal data */
@@ -1098,7 +1097,10 @@ void sbp2rtcm_sbp_gps_eph_cb(const u16 sender_id,
   u8 frame[RTCM3_MAX_MSG_LEN];  // Max RTCM message length is 1023 Bytes
 
   /* generate and send the gps ephemeris message */
-  sbp_to_rtcm3_gps_eph(sbp_gps_eph, &msg_gps_eph, state);
+  if (!sbp_to_rtcm3_gps_eph(sbp_gps_eph, &msg_gps_eph, state)) {
+    log_info("Ignoring GPS ephemeris that does not fit the RTCM message");
+    return;
+  }
   u16 frame_size = encode_rtcm3_frame(&msg_gps_eph, 1019, frame);
   state->cb_sbp_to_rtcm(frame, frame_size, state->context);
 }
@@ -1118,7 +1120,10 @@ void sbp2rtcm_sbp_glo_eph_cb(const u16 sender_id,
   u8 frame[RTCM3_MAX_MSG_LEN];  // Max RTCM message length is 1023 Bytes
 
   /* generate and send the glo ephemeris message */
-  sbp_to_rtcm3_glo_eph(sbp_glo_eph, &msg_glo_eph, state);
+  if (!sbp_to_rtcm3_glo_eph(sbp_glo_eph, &msg_glo_eph, state)) {
+    log_info("Ignoring GLO ephemeris that does not fit the RTCM message");
+    return;
+  }
   u16 frame_size = encode_rtcm3_frame(&msg_glo_eph, 1020, frame);
   state->cb_sbp_to_rtcm(frame, frame_size, state->context);
 }
@@ -1139,7 +1144,10 @@ void sbp2rtcm_sbp_bds_eph_cb(const u16 sender_id,
 
   /* generate and send the bds ephemeris message - message type depends on
    * source */
-  sbp_to_rtcm3_bds_eph(sbp_bds_eph, &msg_bds_eph, state);
+  if (!sbp_to_rtcm3_bds_eph(sbp_bds_eph, &msg_bds_eph, state)) {
+    log_info("Ignoring BDS ephemeris that does not fit the RTCM message");
+    return;
+  }
 
   u16 frame_size = encode_rtcm3_frame(&msg_bds_eph, 1042, frame);
   state->cb_sbp_to_rtcm(frame, frame_size, state->context);
@@ -1161,10 +1169,13 @@ void sbp2rtcm_sbp_gal_eph_cb(const u16 sender_id,
 
   /* generate and send the gal ephemeris message - message type depends on
    * source */
-  sbp_to_rtcm3_gal_eph(sbp_gal_eph, &msg_gal_eph, state);
+  if ((sbp_gal_eph->source != EPH_SOURCE_GAL_INAV &&
+       sbp_gal_eph->source != EPH_SOURCE_GAL_FNAV) ||
+      !sbp_to_rtcm3_gal_eph(sbp_gal_eph, &msg_gal_eph, state)) {
+    log_info("Ignoring GAL ephemeris that does not fit the RTCM message");
+    return;
+  }
 
-  assert((sbp_gal_eph->source == EPH_SOURCE_GAL_INAV) ||
-         (sbp_gal_eph->source == EPH_SOURCE_GAL_FNAV));
   u16 message_type = sbp_gal_eph->source == EPH_SOURCE_GAL_INAV ? 1046 : 1045;
   u16 frame_size = encode_rtcm3_frame(&msg_gal_eph, message_type, frame);
   state->cb_sbp_to_rtcm(frame, frame_size, state->context);
diff --git a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
index 15323b2..5693ac6 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
@@ -25,13 +25,78 @@ static gps_time_t sbp_gps_time_2_gps_time(const gps_time_sec_t *s) {
   return t;
 }
 
-void sbp_to_rtcm3_gps_eph(const msg_ephemeris_gps_t *sbp_gps_eph,
+/* Convert to a signed field of the given resolution and number of bits, clears
+ * the flag if the value does not fit */
+static int32_t scale_signed(const double value,
+                            const double resolution,
+                            const u8 bits,
+                            bool *fits) {
+  const double scaled = round(value / resolution);
+  const double limit = ldexp(1.0, bits - 1);
+  if (!(scaled >= -limit && scaled < limit)) {
+    *fits = false;
+    return 0;
+  }
+  return (int32_t)scaled;
+}
+
+/* The same for a sign-magnitude field */
+static int32_t scale_magnitude(const double value,
+                               const double resolution,
+                               const u8 bits,
+                               bool *fits) {
+  const double scaled = round(value / resolution);
+  if (!(fabs(scaled) < ldexp(1.0, bits - 1))) {
+    *fits = false;
+    return 0;
+  }
+  return (int32_t)scaled;
+}
+
+/* The same for an unsigned field */
+static uint32_t scale_unsigned(const double value,
+                               const double resolution,
+                               const u8 bits,
+                               bool *fits) {
+  const double scaled = round(value / resolution);
+  if (!(scaled >= 0 && scaled < ldexp(1.0, bits))) {
+    *fits = false;
+    return 0;
+  }
+  return (uint32_t)scaled;
+}
+
+/* Convert an angle in radians to 32 bits in units of 2^-31 semi-circles, where
+ * a half turn is only representable as negative */
+static int32_t scale_angle(const double value, bool *fits) {
+  const double scaled = round(value / (C_1_2P31 * M_PI));
+  if (scaled == ldexp(1.0, 31)) {
+    return INT32_MIN;
+  }
+  return scale_signed(value, C_1_2P31 * M_PI, 32, fits);
+}
+
+static bool eph_common_valid(const ephemeris_common_content_t *common,
+                             const u8 first_prn,
+                             const u8 num_sats) {
+  return common->sid.sat >= first_prn &&
+         common->sid.sat < first_prn + num_sats && common->toe.tow < WEEK_SECS;
+}
+
+bool sbp_to_rtcm3_gps_eph(const msg_ephemeris_gps_t *sbp_gps_eph,
                           rtcm_msg_eph *msg_eph,
                           const struct rtcm3_out_state *state) {
   (void)state;
   assert(sbp_gps_eph);
   assert(msg_eph);
-  assert(is_gps(sbp_gps_eph->common.sid.code));
+
+  if (!code_valid(sbp_gps_eph->common.sid.code) ||
+      !is_gps(sbp_gps_eph->common.sid.code) ||
+      !eph_common_valid(&sbp_gps_eph->common, GPS_FIRST_PRN, NUM_SATS_GPS) ||
+      sbp_gps_eph->toc.tow >= WEEK_SECS) {
+    return false;
+  }
+  bool fits = true;
 
   msg_eph->wn = sbp_gps_eph->common.toe.wn % 1024;
   msg_eph->toe = sbp_gps_eph->common.toe.tow / GPS_TOE_RESOLUTION;
@@ -47,40 +112,49 @@ void sbp_to_rtcm3_gps_eph(const msg_ephemeris_gps_t *sbp_gps_eph,
 
   msg_eph->health_bits = sbp_gps_eph->common.health_bits;
   msg_eph->data.kepler.tgd.gps_s =
-      (int32_t)(round(sbp_gps_eph->tgd / C_1_2P31));
-
-  msg_eph->data.kepler.crs = (int32_t)(round(sbp_gps_eph->c_rs / C_1_2P5));
-  msg_eph->data.kepler.crc = (int32_t)(round(sbp_gps_eph->c_rc / C_1_2P5));
-  msg_eph->data.kepler.cuc = (int32_t)(round(sbp_gps_eph->c_uc / C_1_2P29));
-  msg_eph->data.kepler.cus = (int32_t)(round(sbp_gps_eph->c_us / C_1_2P29));
-  msg_eph->data.kepler.cic = (int32_t)(round(sbp_gps_eph->c_ic / C_1_2P29));
-  msg_eph->data.kepler.cis = (int32_t)(round(sbp_gps_eph->c_is / C_1_2P29));
+      scale_signed(sbp_gps_eph->tgd, C_1_2P31, 8, &fits);
+
+  msg_eph->data.kepler.crs =
+      scale_signed(sbp_gps_eph->c_rs, C_1_2P5, 16, &fits);
+  msg_eph->data.kepler.crc =
+      scale_signed(sbp_gps_eph->c_rc, C_1_2P5, 16, &fits);
+  msg_eph->data.kepler.cuc =
+      scale_signed(sbp_gps_eph->c_uc, C_1_2P29, 16, &fits);
+  msg_eph->data.kepler.cus =
+      scale_signed(sbp_gps_eph->c_us, C_1_2P29, 16, &fits);
+  msg_eph->data.kepler.cic =
+      scale_signed(sbp_gps_eph->c_ic, C_1_2P29, 16, &fits);
+  msg_eph->data.kepler.cis =
+      scale_signed(sbp_gps_eph->c_is, C_1_2P29, 16, &fits);
 
   msg_eph->data.kepler.dn =
-      (int16_t)(round(sbp_gps_eph->dn / (C_1_2P43 * M_PI)));
-  msg_eph->data.kepler.m0 =
-      (int32_t)(round(sbp_gps_eph->m0 / (C_1_2P31 * M_PI)));
-  msg_eph->data.kepler.ecc = (uint32_t)(round(sbp_gps_eph->ecc / C_1_2P33));
-  msg_eph->data.kepler.sqrta = (uint32_t)(round(sbp_gps_eph->sqrta / C_1_2P19));
-  msg_eph->data.kepler.omega0 =
-      (int32_t)(round(sbp_gps_eph->omega0 / (C_1_2P31 * M_PI)));
+      scale_signed(sbp_gps_eph->dn, C_1_2P43 * M_PI, 16, &fits);
+  msg_eph->data.kepler.m0 = scale_angle(sbp_gps_eph->m0, &fits);
+  msg_eph->data.kepler.ecc =
+      scale_unsigned(sbp_gps_eph->ecc, C_1_2P33, 32, &fits);
+  msg_eph->data.kepler.sqrta =
+      scale_unsigned(sbp_gps_eph->sqrta, C_1_2P19, 32, &fits);
+  msg_eph->data.kepler.omega0 = scale_angle(sbp_gps_eph->omega0, &fits);
   msg_eph->data.kepler.omegadot =
-      (int32_t)(round(sbp_gps_eph->omegadot / (C_1_2P43 * M_PI)));
-  msg_eph->data.kepler.w = (int32_t)(round(sbp_gps_eph->w / (C_1_2P31 * M_PI)));
-  msg_eph->data.kepler.inc =
-      (int32_t)(round(sbp_gps_eph->inc / (C_1_2P31 * M_PI)));
+      scale_signed(sbp_gps_eph->omegadot, C_1_2P43 * M_PI, 24, &fits);
+  msg_eph->data.kepler.w = scale_angle(sbp_gps_eph->w, &fits);
+  msg_eph->data.kepler.inc = scale_angle(sbp_gps_eph->inc, &fits);
   msg_eph->data.kepler.inc_dot =
-      (int16_t)(round(sbp_gps_eph->inc_dot / (C_1_2P43 * M_PI)));
+      scale_signed(sbp_gps_eph->inc_dot, C_1_2P43 * M_PI, 14, &fits);
 
-  msg_eph->data.kepler.af0 = (int32_t)(round(sbp_gps_eph->af0 / C_1_2P31));
-  msg_eph->data.kepler.af1 = (int32_t)(round(sbp_gps_eph->af1 / C_1_2P43));
-  msg_eph->data.kepler.af2 = (int32_t)(round(sbp_gps_eph->af2 / C_1_2P55));
+  msg_eph->data.kepler.af0 =
+      scale_signed(sbp_gps_eph->af0, C_1_2P31, 22, &fits);
+  msg_eph->data.kepler.af1 =
+      scale_signed(sbp_gps_eph->af1, C_1_2P43, 16, &fits);
+  msg_eph->data.kepler.af2 = scale_signed(sbp_gps_eph->af2, C_1_2P55, 8, &fits);
 
   msg_eph->data.kepler.iode = sbp_gps_eph->iode;
   msg_eph->data.kepler.iodc = sbp_gps_eph->iodc;
 
   msg_eph->wn = sbp_gps_eph->toc.wn % 1024;
   msg_eph->data.kepler.toc = sbp_gps_eph->toc.tow / GPS_TOC_RESOLUTION;
+
+  return fits;
 }
 
 static bool compute_glo_time_of_day(const gps_time_t *obs_time,
@@ -101,13 +175,19 @@ static bool compute_glo_time_of_day(const gps_time_t *obs_time,
   return true;
 }
 
-void sbp_to_rtcm3_glo_eph(const msg_ephemeris_glo_t *sbp_glo_eph,
+bool sbp_to_rtcm3_glo_eph(const msg_ephemeris_glo_t *sbp_glo_eph,
                           rtcm_msg_eph *msg_eph,
                           const struct rtcm3_out_state *state) {
   (void)state;
   assert(sbp_glo_eph);
   assert(msg_eph);
-  assert(is_glo(sbp_glo_eph->common.sid.code));
+
+  if (!code_valid(sbp_glo_eph->common.sid.code) ||
+      !is_glo(sbp_glo_eph->common.sid.code) ||
+      !eph_common_valid(&sbp_glo_eph->common, GLO_FIRST_PRN, NUM_SATS_GLO)) {
+    return false;
+  }
+  bool fits = true;
 
   msg_eph->sat_id = sbp_glo_eph->common.sid.sat;
   msg_eph->constellation = RTCM_CONSTELLATION_GLO;
@@ -120,36 +200,42 @@ void sbp_to_rtcm3_glo_eph(const msg_ephemeris_glo_t *sbp_glo_eph,
   msg_eph->health_bits = sbp_glo_eph->common.health_bits;
   gps_time_t time = sbp_gps_time_2_gps_time(&sbp_glo_eph->common.toe);
   if (!compute_glo_time_of_day(&time, state, &msg_eph->data.glo.t_b)) {
+    msg_eph->data.glo.t_b = 0;
     msg_eph->health_bits = 1;
   }
 
-  msg_eph->data.glo.gamma = (int16_t)(round(sbp_glo_eph->gamma / C_1_2P40));
-  msg_eph->data.glo.tau = (int32_t)(round(sbp_glo_eph->tau / C_1_2P30));
-  msg_eph->data.glo.d_tau = (int8_t)(round(sbp_glo_eph->d_tau / C_1_2P30));
+  msg_eph->data.glo.gamma =
+      scale_magnitude(sbp_glo_eph->gamma, C_1_2P40, 11, &fits);
+  msg_eph->data.glo.tau =
+      scale_magnitude(sbp_glo_eph->tau, C_1_2P30, 22, &fits);
+  msg_eph->data.glo.d_tau =
+      scale_magnitude(sbp_glo_eph->d_tau, C_1_2P30, 5, &fits);
 
   msg_eph->data.glo.pos[0] =
-      (int32_t)(round(sbp_glo_eph->pos[0] / C_1_2P11 / 1000));
+      scale_magnitude(sbp_glo_eph->pos[0], 1000 * C_1_2P11, 27, &fits);
   msg_eph->data.glo.pos[1] =
-      (int32_t)(round(sbp_glo_eph->pos[1] / C_1_2P11 / 1000));
+      scale_magnitude(sbp_glo_eph->pos[1], 1000 * C_1_2P11, 27, &fits);
   msg_eph->data.glo.pos[2] =
-      (int32_t)(round(sbp_glo_eph->pos[2] / C_1_2P11 / 1000));
+      scale_magnitude(sbp_glo_eph->pos[2], 1000 * C_1_2P11, 27, &fits);
 
   msg_eph->data.glo.vel[0] =
-      (int32_t)(round(sbp_glo_eph->vel[0] / C_1_2P20 / 1000));
+      scale_magnitude(sbp_glo_eph->vel[0], 1000 * C_1_2P20, 24, &fits);
   msg_eph->data.glo.vel[1] =
-      (int32_t)(round(sbp_glo_eph->vel[1] / C_1_2P20 / 1000));
+      scale_magnitude(sbp_glo_eph->vel[1], 1000 * C_1_2P20, 24, &fits);
   msg_eph->data.glo.vel[2] =
-      (int32_t)(round(sbp_glo_eph->vel[2] / C_1_2P20 / 1000));
+      scale_magnitude(sbp_glo_eph->vel[2], 1000 * C_1_2P20, 24, &fits);
 
   msg_eph->data.glo.acc[0] =
-      (int32_t)(round(sbp_glo_eph->acc[0] / C_1_2P30 / 1000));
+      scale_magnitude(sbp_glo_eph->acc[0], 1000 * C_1_2P30, 5, &fits);
   msg_eph->data.glo.acc[1] =
-      (int32_t)(round(sbp_glo_eph->acc[1] / C_1_2P30 / 1000));
+      scale_magnitude(sbp_glo_eph->acc[1], 1000 * C_1_2P30, 5, &fits);
   msg_eph->data.glo.acc[2] =
-      (int32_t)(round(sbp_glo_eph->acc[2] / C_1_2P30 / 1000));
+      scale_magnitude(sbp_glo_eph->acc[2], 1000 * C_1_2P30, 5, &fits);
 
   msg_eph->data.glo.fcn = sbp_glo_eph->fcn - 1;
   msg_eph->data.glo.iod = sbp_glo_eph->iod;
+
+  return fits;
 }
 
 static void get_bds_wn_tow(const gps_time_t *input,
@@ -169,13 +255,20 @@ static void get_bds_wn_tow(const gps_time_t *input,
   *wn = *wn % 8192;
 }
 
-void sbp_to_rtcm3_bds_eph(const msg_ephemeris_bds_t *sbp_bds_eph,
+bool sbp_to_rtcm3_bds_eph(const msg_ephemeris_bds_t *sbp_bds_eph,
                           rtcm_msg_eph *msg_eph,
                           const struct rtcm3_out_state *state) {
   (void)state;
   assert(msg_eph);
   assert(sbp_bds_eph);
-  assert(is_bds2(sbp_bds_eph->common.sid.code));
+
+  if (!code_valid(sbp_bds_eph->common.sid.code) ||
+      !is_bds2(sbp_bds_eph->common.sid.code) ||
+      !eph_common_valid(&sbp_bds_eph->common, BDS_FIRST_PRN, NUM_SATS_BDS) ||
+      sbp_bds_eph->toc.tow >= WEEK_SECS) {
+    return false;
+  }
+  bool fits = true;
 
   msg_eph->sat_id = sbp_bds_eph->common.sid.sat;
   msg_eph->constellation = RTCM_CONSTELLATION_BDS;
@@ -193,36 +286,44 @@ void sbp_to_rtcm3_bds_eph(const msg_ephemeris_bds_t *sbp_bds_eph,
   msg_eph->health_bits = sbp_bds_eph->common.health_bits;
 
   msg_eph->data.kepler.tgd.bds_s[0] =
-      (int32_t)(round(sbp_bds_eph->tgd1 / 1e-10));
+      scale_signed(sbp_bds_eph->tgd1, 1e-10, 10, &fits);
   msg_eph->data.kepler.tgd.bds_s[1] =
-      (int32_t)(round(sbp_bds_eph->tgd2 / 1e-10));
-
-  msg_eph->data.kepler.crs = (int32_t)(round(sbp_bds_eph->c_rs / C_1_2P6));
-  msg_eph->data.kepler.crc = (int32_t)(round(sbp_bds_eph->c_rc / C_1_2P6));
-  msg_eph->data.kepler.cuc = (int32_t)(round(sbp_bds_eph->c_uc / C_1_2P31));
-  msg_eph->data.kepler.cus = (int32_t)(round(sbp_bds_eph->c_us / C_1_2P31));
-  msg_eph->data.kepler.cic = (int32_t)(round(sbp_bds_eph->c_ic / C_1_2P31));
-  msg_eph->data.kepler.cis = (int32_t)(round(sbp_bds_eph->c_is / C_1_2P31));
+      scale_signed(sbp_bds_eph->tgd2, 1e-10, 10, &fits);
+
+  msg_eph->data.kepler.crs =
+      scale_signed(sbp_bds_eph->c_rs, C_1_2P6, 18, &fits);
+  msg_eph->data.kepler.crc =
+      scale_signed(sbp_bds_eph->c_rc, C_1_2P6, 18, &fits);
+  msg_eph->data.kepler.cuc =
+      scale_signed(sbp_bds_eph->c_uc, C_1_2P31, 18, &fits);
+  msg_eph->data.kepler.cus =
+      scale_signed(sbp_bds_eph->c_us, C_1_2P31, 18, &fits);
+  msg_eph->data.kepler.cic =
+      scale_signed(sbp_bds_eph->c_ic, C_1_2P31, 18, &fits);
+  msg_eph->data.kepler.cis =
+      scale_signed(sbp_bds_eph->c_is, C_1_2P31, 18, &fits);
 
   msg_eph->data.kepler.dn =
-      (int16_t)(round(sbp_bds_eph->dn / (C_1_2P43 * M_PI)));
-  msg_eph->data.kepler.m0 =
-      (int32_t)(round(sbp_bds_eph->m0 / (C_1_2P31 * M_PI)));
-  msg_eph->data.kepler.ecc = (uint32_t)(round(sbp_bds_eph->ecc / C_1_2P33));
-  msg_eph->data.kepler.sqrta = (uint32_t)(round(sbp_bds_eph->sqrta / C_1_2P19));
-  msg_eph->data.kepler.omega0 =
-      (int32_t)(round(sbp_bds_eph->omega0 / (C_1_2P31 * M_PI)));
+      scale_signed(sbp_bds_eph->dn, C_1_2P43 * M_PI, 16, &fits);
+  msg_eph->data.kepler.m0 = scale_angle(sbp_bds_eph->m0, &fits);
+  msg_eph->data.kepler.ecc =
+      scale_unsigned(sbp_bds_eph->ecc, C_1_2P33, 32, &fits);
+  msg_eph->data.kepler.sqrta =
+      scale_unsigned(sbp_bds_eph->sqrta, C_1_2P19, 32, &fits);
+  msg_eph->data.kepler.omega0 = scale_angle(sbp_bds_eph->omega0, &fits);
   msg_eph->data.kepler.omegadot =
-      (int32_t)(round(sbp_bds_eph->omegadot / (C_1_2P43 * M_PI)));
-  msg_eph->data.kepler.w = (int32_t)(round(sbp_bds_eph->w / (C_1_2P31 * M_PI)));
-  msg_eph->data.kepler.inc =
-      (int32_t)(round(sbp_bds_eph->inc / (C_1_2P31 * M_PI)));
+      scale_signed(sbp_bds_eph->omegadot, C_1_2P43 * M_PI, 24, &fits);
+  msg_eph->data.kepler.w = scale_angle(sbp_bds_eph->w, &fits);
+  msg_eph->data.kepler.inc = scale_angle(sbp_bds_eph->inc, &fits);
   msg_eph->data.kepler.inc_dot =
-      (int16_t)(round(sbp_bds_eph->inc_dot / (C_1_2P43 * M_PI)));
+      scale_signed(sbp_bds_eph->inc_dot, C_1_2P43 * M_PI, 14, &fits);
 
-  msg_eph->data.kepler.af0 = (int32_t)(round(sbp_bds_eph->af0 / C_1_2P33));
-  msg_eph->data.kepler.af1 = (int32_t)(round(sbp_bds_eph->af1 / C_1_2P50));
-  msg_eph->data.kepler.af2 = (int16_t)(round(sbp_bds_eph->af2 / C_1_2P66));
+  msg_eph->data.kepler.af0 =
+      scale_signed(sbp_bds_eph->af0, C_1_2P33, 24, &fits);
+  msg_eph->data.kepler.af1 =
+      scale_signed(sbp_bds_eph->af1, C_1_2P50, 22, &fits);
+  msg_eph->data.kepler.af2 =
+      scale_signed(sbp_bds_eph->af2, C_1_2P66, 11, &fits);
 
   msg_eph->data.kepler.iode = sbp_bds_eph->iode;
   msg_eph->data.kepler.iodc = sbp_bds_eph->iodc;
@@ -234,15 +335,24 @@ void sbp_to_rtcm3_bds_eph(const msg_ephemeris_bds_t *sbp_bds_eph,
                  BEIDOU_TOC_RESOLUTION,
                  &msg_eph->wn,
                  &msg_eph->data.kepler.toc);
+
+  return fits;
 }
 
-void sbp_to_rtcm3_gal_eph(const msg_ephemeris_gal_t *sbp_gal_eph,
+bool sbp_to_rtcm3_gal_eph(const msg_ephemeris_gal_t *sbp_gal_eph,
                           rtcm_msg_eph *msg_eph,
                           const struct rtcm3_out_state *state) {
   (void)state;
   assert(msg_eph);
   assert(sbp_gal_eph);
-  assert(is_gal(sbp_gal_eph->common.sid.code));
+
+  if (!code_valid(sbp_gal_eph->common.sid.code) ||
+      !is_gal(sbp_gal_eph->common.sid.code) ||
+      !eph_common_valid(&sbp_gal_eph->common, GAL_FIRST_PRN, NUM_SATS_GAL) ||
+      sbp_gal_eph->toc.tow >= WEEK_SECS) {
+    return false;
+  }
+  bool fits = true;
 
   /* Galileo week is 12 bit (DF289) and starts from GPS WN 1024 */
   msg_eph->wn = (sbp_gal_eph->common.toe.wn - GAL_WEEK_TO_GPS_WEEK);
@@ -255,39 +365,48 @@ void sbp_to_rtcm3_gal_eph(const msg_ephemeris_gal_t *sbp_gal_eph,
   msg_eph->health_bits = sbp_gal_eph->common.health_bits;
 
   msg_eph->data.kepler.tgd.gal_s[0] =
-      (int32_t)(round(sbp_gal_eph->bgd_e1e5a / C_1_2P32));
+      scale_signed(sbp_gal_eph->bgd_e1e5a, C_1_2P32, 10, &fits);
   msg_eph->data.kepler.tgd.gal_s[1] =
-      (int32_t)(round(sbp_gal_eph->bgd_e1e5b / C_1_2P32));
-
-  msg_eph->data.kepler.crs = (int32_t)(round(sbp_gal_eph->c_rs / C_1_2P5));
-  msg_eph->data.kepler.crc = (int32_t)(round(sbp_gal_eph->c_rc / C_1_2P5));
-  msg_eph->data.kepler.cuc = (int32_t)(round(sbp_gal_eph->c_uc / C_1_2P29));
-  msg_eph->data.kepler.cus = (int32_t)(round(sbp_gal_eph->c_us / C_1_2P29));
-  msg_eph->data.kepler.cic = (int32_t)(round(sbp_gal_eph->c_ic / C_1_2P29));
-  msg_eph->data.kepler.cis = (int32_t)(round(sbp_gal_eph->c_is / C_1_2P29));
+      scale_signed(sbp_gal_eph->bgd_e1e5b, C_1_2P32, 10, &fits);
+
+  msg_eph->data.kepler.crs =
+      scale_signed(sbp_gal_eph->c_rs, C_1_2P5, 16, &fits);
+  msg_eph->data.kepler.crc =
+      scale_signed(sbp_gal_eph->c_rc, C_1_2P5, 16, &fits);
+  msg_eph->data.kepler.cuc =
+      scale_signed(sbp_gal_eph->c_uc, C_1_2P29, 16, &fits);
+  msg_eph->data.kepler.cus =
+      scale_signed(sbp_gal_eph->c_us, C_1_2P29, 16, &fits);
+  msg_eph->data.kepler.cic =
+      scale_signed(sbp_gal_eph->c_ic, C_1_2P29, 16, &fits);
+  msg_eph->data.kepler.cis =
+      scale_signed(sbp_gal_eph->c_is, C_1_2P29, 16, &fits);
 
   msg_eph->data.kepler.dn =
-      (int16_t)(round(sbp_gal_eph->dn / (C_1_2P43 * M_PI)));
-  msg_eph->data.kepler.m0 =
-      (int32_t)(round(sbp_gal_eph->m0 / (C_1_2P31 * M_PI)));
-  msg_eph->data.kepler.ecc = (uint32_t)(round(sbp_gal_eph->ecc / C_1_2P33));
-  msg_eph->data.kepler.sqrta = (uint32_t)(round(sbp_gal_eph->sqrta / C_1_2P19));
-  msg_eph->data.kepler.omega0 =
-      (int32_t)(round(sbp_gal_eph->omega0 / (C_1_2P31 * M_PI)));
+      scale_signed(sbp_gal_eph->dn, C_1_2P43 * M_PI, 16, &fits);
+  msg_eph->data.kepler.m0 = scale_angle(sbp_gal_eph->m0, &fits);
+  msg_eph->data.kepler.ecc =
+      scale_unsigned(sbp_gal_eph->ecc, C_1_2P33, 32, &fits);
+  msg_eph->data.kepler.sqrta =
+      scale_unsigned(sbp_gal_eph->sqrta, C_1_2P19, 32, &fits);
+  msg_eph->data.kepler.omega0 = scale_angle(sbp_gal_eph->omega0, &fits);
   msg_eph->data.kepler.omegadot =
-      (int32_t)(round(sbp_gal_eph->omegadot / (C_1_2P43 * M_PI)));
-  msg_eph->data.kepler.w = (int32_t)(round(sbp_gal_eph->w / (C_1_2P31 * M_PI)));
-  msg_eph->data.kepler.inc =
-      (int32_t)(round(sbp_gal_eph->inc / (C_1_2P31 * M_PI)));
+      scale_signed(sbp_gal_eph->omegadot, C_1_2P43 * M_PI, 24, &fits);
+  msg_eph->data.kepler.w = scale_angle(sbp_gal_eph->w, &fits);
+  msg_eph->data.kepler.inc = scale_angle(sbp_gal_eph->inc, &fits);
   msg_eph->data.kepler.inc_dot =
-      (int16_t)(round(sbp_gal_eph->inc_dot / (C_1_2P43 * M_PI)));
+      scale_signed(sbp_gal_eph->inc_dot, C_1_2P43 * M_PI, 14, &fits);
 
-  msg_eph->data.kepler.af0 = (int32_t)(round(sbp_gal_eph->af0 / C_1_2P34));
-  msg_eph->data.kepler.af1 = (int32_t)(round(sbp_gal_eph->af1 / C_1_2P46));
-  msg_eph->data.kepler.af2 = (int16_t)(round(sbp_gal_eph->af2 / C_1_2P59));
+  msg_eph->data.kepler.af0 =
+      scale_signed(sbp_gal_eph->af0, C_1_2P34, 31, &fits);
+  msg_eph->data.kepler.af1 =
+      scale_signed(sbp_gal_eph->af1, C_1_2P46, 21, &fits);
+  msg_eph->data.kepler.af2 = scale_signed(sbp_gal_eph->af2, C_1_2P59, 6, &fits);
 
   msg_eph->data.kepler.iode = sbp_gal_eph->iode;
   msg_eph->data.kepler.iode = sbp_gal_eph->iodc;
 
   msg_eph->data.kepler.toc = sbp_gal_eph->toc.tow / GALILEO_TOC_RESOLUTION;
+
+  return fits;
 }
diff --git a/c/gnss_converters_extra/src/sbp_rtcm3_internal.h b/c/gnss_converters_extra/src/sbp_rtcm3_internal.h
index cca49f0..7adcdcc 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3_internal.h
+++ b/c/gnss_converters_extra/src/sbp_rtcm3_internal.h
@@ -122,19 +122,19 @@ void sbp_to_rtcm3_1230(const msg_glo_biases_t *sbp_glo_bias,
                        rtcm_msg_1230 *rtcm_1230,
                        const struct rtcm3_out_state *state);
 
-void sbp_to_rtcm3_gps_eph(const msg_ephemeris_gps_t *sbp_gps_eph,
+bool sbp_to_rtcm3_gps_eph(const msg_ephemeris_gps_t *sbp_gps_eph,
                           rtcm_msg_eph *msg_eph,
                           const struct rtcm3_out_state *state);
 
-void sbp_to_rtcm3_glo_eph(const msg_ephemeris_glo_t *sbp_glo_eph,
+bool sbp_to_rtcm3_glo_eph(const msg_ephemeris_glo_t *sbp_glo_eph,
                           rtcm_msg_eph *msg_eph,
                           const struct rtcm3_out_state *state);
 
-void sbp_to_rtcm3_bds_eph(const msg_ephemeris_bds_t *sbp_bds_eph,
+bool sbp_to_rtcm3_bds_eph(const msg_ephemeris_bds_t *sbp_bds_eph,
                           rtcm_msg_eph *msg_eph,
                           const struct rtcm3_out_state *state);
 
-void sbp_to_rtcm3_gal_eph(const msg_ephemeris_gal_t *sbp_gal_eph,
+bool sbp_to_rtcm3_gal_eph(const msg_ephemeris_gal_t *sbp_gal_eph,
                           rtcm_msg_eph *msg_eph,
                           const struct rtcm3_out_state *state);
 
-- 
2.43.0


From b47f2120801c5d3f7aa210c55e750ae57f70d053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 093/118] fix: sbp_rtcm3: GLONASS reference time of midnight

t_b was 96 instead of 0.
---
 c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
index 5693ac6..f54cb31 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
@@ -167,7 +167,7 @@ static bool compute_glo_time_of_day(const gps_time_t *obs_time,
   s32 tod_glo_s = (s32)(obs_time->tow - state->leap_seconds) % DAY_SECS;
   tod_glo_s += UTC_SU_OFFSET * HOUR_SECS;
 
-  if (tod_glo_s > DAY_SECS) {
+  if (tod_glo_s >= DAY_SECS) {
     tod_glo_s -= DAY_SECS;
   }
 
-- 
2.43.0


From 2580178393739681670ebdbc0ba7d72ceb977fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:55 +0000
Subject: [PATCH 094/118] fix: rtcm3_sbp: BeiDou week numbers roll over after
 8192 weeks

---
 c/gnss_converters/src/rtcm3_sbp_ephemeris.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp_ephemeris.c b/c/gnss_converters/src/rtcm3_sbp_ephemeris.c
index 7e1324e..c04ecb1 100644
--- a/c/gnss_converters/src/rtcm3_sbp_ephemeris.c
+++ b/c/gnss_converters/src/rtcm3_sbp_ephemeris.c
@@ -338,7 +338,8 @@ static sbp_gps_time_sec_t get_time_from_bds_wn_tow(const u32 time_resolution,
   time.tow = (bds_tow * time_resolution) + BDS_SECOND_TO_GPS_SECOND;
   normalize_gps_time(&time);
   sbp_gps_time_sec_t ret;
-  ret.wn = gps_adjust_week_cycle(time.wn, GPS_WEEK_REFERENCE);
+  /* The week number has 13 bits */
+  ret.wn = time.wn < GPS_WEEK_REFERENCE ? time.wn + 8192 : time.wn;
   ret.tow = (u32)rint(time.tow);
   return ret;
 }
-- 
2.43.0


From 4e2d4f34b64085d2cfd2690511688d3158954e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:38 +0000
Subject: [PATCH 095/118] fix: sbp_rtcm3: BeiDou reference times at the start
 of the week

Times that are, or round to, the start of a BeiDou week were sent as the invalid
time of week 604800 of the week before.
---
 .../src/sbp_rtcm3_ephemeris.c                 | 39 +++++++++++--------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
index f54cb31..cf54df8 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
@@ -238,21 +238,24 @@ bool sbp_to_rtcm3_glo_eph(const msg_ephemeris_glo_t *sbp_glo_eph,
   return fits;
 }
 
-static void get_bds_wn_tow(const gps_time_t *input,
+static bool get_bds_wn_tow(const gps_time_t *input,
                            const u32 time_resolution,
                            uint16_t *wn,
                            uint32_t *tow) {
-  if (input->tow > BDS_SECOND_TO_GPS_SECOND) {
-    *wn = (input->wn - BDS_WEEK_TO_GPS_WEEK);
-    *tow = (uint32_t)round((input->tow - BDS_SECOND_TO_GPS_SECOND) /
-                           time_resolution);
-  } else {
-    *wn = (input->wn - BDS_WEEK_TO_GPS_WEEK - 1);
-    *tow = (uint32_t)round((input->tow - BDS_SECOND_TO_GPS_SECOND + WEEK_SECS) /
-                           time_resolution);
+  /* time since the start of BDS time, in units of the resolution */
+  const double bds_time =
+      round(((double)(input->wn - BDS_WEEK_TO_GPS_WEEK) * WEEK_SECS +
+             input->tow - BDS_SECOND_TO_GPS_SECOND) /
+            time_resolution);
+  if (bds_time < 0) {
+    return false;
   }
+  const u32 units_per_week = WEEK_SECS / time_resolution;
+  const u32 week = (u32)(bds_time / units_per_week);
   // Deal with rollover every 8192 weeks
-  *wn = *wn % 8192;
+  *wn = (uint16_t)(week % 8192);
+  *tow = (uint32_t)(bds_time - (double)week * units_per_week);
+  return true;
 }
 
 bool sbp_to_rtcm3_bds_eph(const msg_ephemeris_bds_t *sbp_bds_eph,
@@ -275,8 +278,10 @@ bool sbp_to_rtcm3_bds_eph(const msg_ephemeris_bds_t *sbp_bds_eph,
   gps_time_t input_time;
   input_time.wn = sbp_bds_eph->common.toe.wn;
   input_time.tow = sbp_bds_eph->common.toe.tow;
-  get_bds_wn_tow(
-      &input_time, BEIDOU_TOE_RESOLUTION, &msg_eph->wn, &msg_eph->toe);
+  if (!get_bds_wn_tow(
+          &input_time, BEIDOU_TOE_RESOLUTION, &msg_eph->wn, &msg_eph->toe)) {
+    return false;
+  }
 
   msg_eph->ura = convert_bds_uri_to_ura(sbp_bds_eph->common.ura);
 
@@ -331,10 +336,12 @@ bool sbp_to_rtcm3_bds_eph(const msg_ephemeris_bds_t *sbp_bds_eph,
   // What happens if toc and toe straddle the week boundary?
   input_time.wn = sbp_bds_eph->toc.wn;
   input_time.tow = sbp_bds_eph->toc.tow;
-  get_bds_wn_tow(&input_time,
-                 BEIDOU_TOC_RESOLUTION,
-                 &msg_eph->wn,
-                 &msg_eph->data.kepler.toc);
+  if (!get_bds_wn_tow(&input_time,
+                      BEIDOU_TOC_RESOLUTION,
+                      &msg_eph->wn,
+                      &msg_eph->data.kepler.toc)) {
+    return false;
+  }
 
   return fits;
 }
-- 
2.43.0


From 24c8f2e36d6543b7a6318e08c5069a604dfef1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:38 +0000
Subject: [PATCH 096/118] fix: sbp_rtcm3: ephemeris satellites and weeks that
 do not fit

---
 c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
index cf54df8..8c35c30 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
@@ -18,6 +18,9 @@
 #include "rtcm3_utils.h"
 #include "sbp_rtcm3_internal.h"
 
+/* Satellites that fit in the 6-bit satellite ID DF488 */
+#define RTCM_MAX_BDS_EPH_SATS 63
+
 static gps_time_t sbp_gps_time_2_gps_time(const gps_time_sec_t *s) {
   gps_time_t t;
   t.wn = s->wn;
@@ -267,7 +270,8 @@ bool sbp_to_rtcm3_bds_eph(const msg_ephemeris_bds_t *sbp_bds_eph,
 
   if (!code_valid(sbp_bds_eph->common.sid.code) ||
       !is_bds2(sbp_bds_eph->common.sid.code) ||
-      !eph_common_valid(&sbp_bds_eph->common, BDS_FIRST_PRN, NUM_SATS_BDS) ||
+      !eph_common_valid(
+          &sbp_bds_eph->common, BDS_FIRST_PRN, RTCM_MAX_BDS_EPH_SATS) ||
       sbp_bds_eph->toc.tow >= WEEK_SECS) {
     return false;
   }
@@ -361,6 +365,9 @@ bool sbp_to_rtcm3_gal_eph(const msg_ephemeris_gal_t *sbp_gal_eph,
   }
   bool fits = true;
 
+  if (sbp_gal_eph->common.toe.wn < GAL_WEEK_TO_GPS_WEEK) {
+    return false;
+  }
   /* Galileo week is 12 bit (DF289) and starts from GPS WN 1024 */
   msg_eph->wn = (sbp_gal_eph->common.toe.wn - GAL_WEEK_TO_GPS_WEEK);
   msg_eph->toe = sbp_gal_eph->common.toe.tow / GALILEO_TOE_RESOLUTION;
-- 
2.43.0


From 8cba0acfad51701d16f9b3c156b2ca4c01bfb53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:38 +0000
Subject: [PATCH 097/118] fix: sbp_conv: do not truncate the output of an
 observation epoch

The buffer did not hold the messages of an epoch with many satellites, and kept
a part of the frame that did not fit.
---
 c/gnss_converters_extra/src/sbp_conv.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_conv.c b/c/gnss_converters_extra/src/sbp_conv.c
index 909cb73..355c462 100644
--- a/c/gnss_converters_extra/src/sbp_conv.c
+++ b/c/gnss_converters_extra/src/sbp_conv.c
@@ -21,15 +21,23 @@
 
 #include <gnss-converters-extra/sbp_rtcm3.h>
 
+/* Unread output is kept here, an observation epoch alone makes up to a message
+ * for each constellation. Must be a power of 2. */
+#define SBP_CONV_BUF_SIZE 8192
+
 struct sbp_conv_s {
   struct rtcm3_out_state state;
   fifo_t fifo;
-  uint8_t buf[2048];
+  uint8_t buf[SBP_CONV_BUF_SIZE];
 };
 
 static s32 sbp_conv_cb(uint8_t *buf, uint16_t len, void *context) {
   fifo_t *fifo = context;
   assert(fifo != NULL);
+  if (fifo_space(fifo) < len) {
+    /* never write a part of a frame */
+    return 0;
+  }
   return (s32)fifo_write(fifo, buf, len);
 }
 
-- 
2.43.0


From e8a4d8257de5e970518c7267338ac92d467a38a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:38 +0000
Subject: [PATCH 098/118] fix: sbp2rtcm: call sbp2rtcm_main with all of its
 arguments

The context pointer was indeterminate.
---
 c/sbp2rtcm/src/sbp2rtcm_main.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/sbp2rtcm/src/sbp2rtcm_main.c b/c/sbp2rtcm/src/sbp2rtcm_main.c
index a6f997b..d8ce221 100644
--- a/c/sbp2rtcm/src/sbp2rtcm_main.c
+++ b/c/sbp2rtcm/src/sbp2rtcm_main.c
@@ -43,8 +43,9 @@ static int32_t writefn(uint8_t *buffer, uint16_t n, void *context) {
 typedef int32_t (*readfn_ptr)(uint8_t *, uint32_t, void *);
 typedef int32_t (*writefn_ptr)(uint8_t *, uint16_t, void *);
 
-int sbp2rtcm_main(int, char **, const char *, readfn_ptr, writefn_ptr);
+int sbp2rtcm_main(
+    int, char **, const char *, readfn_ptr, writefn_ptr, void *);
 
 int main(int argc, char **argv) {
-  return sbp2rtcm_main(argc, argv, "", readfn, writefn);
+  return sbp2rtcm_main(argc, argv, "", readfn, writefn, NULL);
 }
-- 
2.43.0


From 7df7b0ebf800f0e352e923eba826a66b562bcbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:02 +0000
Subject: [PATCH 099/118] fix: sbp_rtcm3: overflow of the difference of distant
 weeks

---
 c/gnss_converters_extra/src/sbp_rtcm3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3.c b/c/gnss_converters_extra/src/sbp_rtcm3.c
index 4367485..94710f0 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3.c
@@ -77,7 +77,7 @@ double sbp_diff_time(const sbp_gps_time_t *end,
                      const sbp_gps_time_t *beginning) {
   s32 week_diff = end->wn - beginning->wn;
   double dt = (double)end->tow / SECS_MS - (double)beginning->tow / SECS_MS;
-  dt += week_diff * WEEK_SECS;
+  dt += (double)week_diff * WEEK_SECS;
   return dt;
 }
 
-- 
2.43.0


From f4b1c4003ebd17c9077669a3b6f264f90f0cbe41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:02 +0000
Subject: [PATCH 100/118] fix: sbp_rtcm3: GLONASS ephemerides with an invalid
 week

---
 c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
index 8c35c30..1b68c05 100644
--- a/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
+++ b/c/gnss_converters_extra/src/sbp_rtcm3_ephemeris.c
@@ -163,10 +163,9 @@ bool sbp_to_rtcm3_gps_eph(const msg_ephemeris_gps_t *sbp_gps_eph,
 static bool compute_glo_time_of_day(const gps_time_t *obs_time,
                                     const struct rtcm3_out_state *state,
                                     u8 *t_b) {
-  if (!state->leap_second_known) {
+  if (!state->leap_second_known || !gps_time_valid(obs_time)) {
     return false;
   }
-  assert(gps_time_valid(obs_time));
   s32 tod_glo_s = (s32)(obs_time->tow - state->leap_seconds) % DAY_SECS;
   tod_glo_s += UTC_SU_OFFSET * HOUR_SECS;
 
-- 
2.43.0


From 49a08fcf265d1602afabec9d6f9f142a6ac91dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:23 +0000
Subject: [PATCH 101/118] fix: nmea: GST error ellipse of covariances whose
 product overflows

---
 c/gnss_converters/src/nmea.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/c/gnss_converters/src/nmea.c b/c/gnss_converters/src/nmea.c
index c358f8f..c412c3a 100644
--- a/c/gnss_converters/src/nmea.c
+++ b/c/gnss_converters/src/nmea.c
@@ -1028,6 +1028,11 @@ void send_gpgst(sbp2nmea_t *state) {
                    variance_valid(sbp_pos_llh_cov->cov_e_e) &&
                    variance_valid(sbp_pos_llh_cov->cov_d_d);
 
+  double trace = sbp_pos_llh_cov->cov_n_n + sbp_pos_llh_cov->cov_e_e;
+  double det = sbp_pos_llh_cov->cov_n_n * sbp_pos_llh_cov->cov_e_e -
+               sbp_pos_llh_cov->cov_n_e * sbp_pos_llh_cov->cov_n_e;
+  cov_valid = cov_valid && isfinite(trace) && isfinite(det);
+
   /* Check if no SVs identified */
   if (0 == constellations || fix_type == NMEA_GGA_QI_INVALID || !cov_valid) {
     /* At bare minimum, print empty GPGST and be done with it */
@@ -1056,10 +1061,6 @@ void send_gpgst(sbp2nmea_t *state) {
   double std_e = sqrtf(sbp_pos_llh_cov->cov_e_e);
   double std_d = sqrtf(sbp_pos_llh_cov->cov_d_d);
 
-  double trace = sbp_pos_llh_cov->cov_n_n + sbp_pos_llh_cov->cov_e_e;
-  double det = sbp_pos_llh_cov->cov_n_n * sbp_pos_llh_cov->cov_e_e -
-               sbp_pos_llh_cov->cov_n_e * sbp_pos_llh_cov->cov_n_e;
-
   /* Semi-major and semi-minor axis of the error ellipse and orientation. The
    * smaller eigenvalue can come out negative because of rounding. */
   double eigenval_1 = (trace / 2 + sqrt(fmax(0, ((trace * trace) / 4) - det)));
-- 
2.43.0


From ecc90a9d294a36a4e96255ae985d4f2e3df4a880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:06 +0000
Subject: [PATCH 102/118] fix: nov2sbp: a conversion starts without the state
 of an earlier one

---
 c/nov2sbp/src/nov2sbp.cc                     | 2 ++
 c/nov2sbp/src/swiftnav_conversion_helpers.cc | 2 ++
 c/nov2sbp/src/swiftnav_conversion_helpers.h  | 5 +++++
 3 files changed, 9 insertions(+)

diff --git a/c/nov2sbp/src/nov2sbp.cc b/c/nov2sbp/src/nov2sbp.cc
index 9236a40..4312d12 100644
--- a/c/nov2sbp/src/nov2sbp.cc
+++ b/c/nov2sbp/src/nov2sbp.cc
@@ -292,6 +292,8 @@ extern "C" int nov2sbp_main(int argc,
   }
 
   // Initialize static variables.
+  Novatel::time_tracker = Novatel::timestamps_t{};
+  Novatel::reset_conversion_state();
   sbp_state_init(&sbp);
   sbp_state_set_io_context(&sbp, context);
 
diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.cc b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
index ec8b8c0..1189e27 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.cc
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.cc
@@ -576,6 +576,8 @@ static double convert_to_wgs84_height(double lat, double lon, double hgt) {
   return hgt + sep;
 }
 
+void reset_conversion_state() { last_position_flags = PositionFlagsTracker(); }
+
 /**
  * Novatel LLH accuracy is in meters, SBP is in millimeters.
  * For the horizontal accuracy, we just take the max of the lat/lon accuracies
diff --git a/c/nov2sbp/src/swiftnav_conversion_helpers.h b/c/nov2sbp/src/swiftnav_conversion_helpers.h
index 37ed03a..fbcdc28 100644
--- a/c/nov2sbp/src/swiftnav_conversion_helpers.h
+++ b/c/nov2sbp/src/swiftnav_conversion_helpers.h
@@ -36,6 +36,11 @@
 
 namespace Novatel {
 
+/**
+ * Forget what earlier messages said, for the start of a new conversion.
+ */
+void reset_conversion_state();
+
 /**
  * Novatel LLH accuracy is in meters, SBP is in millimeters.
  * For the horizontal accuracy, we just take the max of the lat/lon accuracies
-- 
2.43.0


From 8f4d9824717e87b30b6132ccb800eecea74aeae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:22 +0000
Subject: [PATCH 103/118] fix: rtcm3tosbp: -S takes no argument, and there is
 no -I

The option string let -S swallow the next argument, so that "-S" as the
last option disabled nothing and "-S -w ..." lost the time.
---
 c/rtcm3tosbp/src/rtcm3tosbp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/rtcm3tosbp/src/rtcm3tosbp.c b/c/rtcm3tosbp/src/rtcm3tosbp.c
index d21762b..a8ffdaf 100644
--- a/c/rtcm3tosbp/src/rtcm3tosbp.c
+++ b/c/rtcm3tosbp/src/rtcm3tosbp.c
@@ -114,7 +114,7 @@ static void help(char *arg, const char *additional_opts_help) {
   fprintf(stderr,
           "  -o Use observations instead of ephemerides time source, requires "
           "a time to be provided with -d, -w, or -s\n");
-  fprintf(stderr, "  -[GREICJS] disables a constellation\n");
+  fprintf(stderr, "  -[GRECJS] disables a constellation\n");
   fprintf(stderr, "  -v for stderr verbosity\n");
 }
 
@@ -147,7 +147,7 @@ int rtcm3tosbp_main(int argc,
   rtcm3tosbp_writefn = writefn;
 
   int opt;
-  while ((opt = getopt(argc, argv, "hb:c:l:tw:d:soGRECJS:v")) != -1) {
+  while ((opt = getopt(argc, argv, "hb:c:l:tw:d:soGRECJSv")) != -1) {
     if (optarg && *optarg == '=') {
       optarg++;
     }
-- 
2.43.0


From 9191a7a90dde72d5255b21b4528e25102a5564c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:22 +0000
Subject: [PATCH 104/118] fix: rtcm3tosbp: refuse biases for codes that do not
 exist

A negative code wrote in front of the table of biases, and anything else
that could not be understood was ignored together with the rest of the list.
---
 c/rtcm3tosbp/src/rtcm3tosbp.c | 49 ++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/c/rtcm3tosbp/src/rtcm3tosbp.c b/c/rtcm3tosbp/src/rtcm3tosbp.c
index a8ffdaf..af82956 100644
--- a/c/rtcm3tosbp/src/rtcm3tosbp.c
+++ b/c/rtcm3tosbp/src/rtcm3tosbp.c
@@ -42,9 +42,9 @@ typedef int (*readfn_ptr)(uint8_t *, size_t, void *);
 static sbp_write_fn_t rtcm3tosbp_writefn;
 
 static struct rtcm3_sbp_state state;
-static void parse_biases(char *arg);
-static void parse_glonass_code_biases(char *arg);
-static void parse_glonass_phase_biases(char *arg);
+static bool parse_biases(char *arg);
+static bool parse_glonass_code_biases(char *arg);
+static bool parse_glonass_phase_biases(char *arg);
 
 static void update_obs_time(const sbp_msg_obs_t *msg) {
   gps_time_t obs_time;
@@ -156,13 +156,25 @@ int rtcm3tosbp_main(int argc,
         help(argv[0], additional_opts_help);
         return 0;
       case 'b':
-        parse_biases(optarg);
+        if (!parse_biases(optarg)) {
+          fprintf(stderr, "provided CODE:BIAS is not valid\n");
+          help(argv[0], additional_opts_help);
+          return -1;
+        }
         break;
       case 'c':
-        parse_glonass_code_biases(optarg);
+        if (!parse_glonass_code_biases(optarg)) {
+          fprintf(stderr, "provided CODE:BIAS is not valid\n");
+          help(argv[0], additional_opts_help);
+          return -1;
+        }
         break;
       case 'l':
-        parse_glonass_phase_biases(optarg);
+        if (!parse_glonass_phase_biases(optarg)) {
+          fprintf(stderr, "provided CODE:BIAS is not valid\n");
+          help(argv[0], additional_opts_help);
+          return -1;
+        }
         break;
       case 't':
         print_current_gps_time();
@@ -270,14 +282,14 @@ int rtcm3tosbp_main(int argc,
   return 0;
 }
 
-static void parse_biases(char *arg) {
+static bool parse_biases(char *arg) {
   int n, code;
   float bias;
   char *tok = strtok(arg, ",");
   while (NULL != tok) {
     n = sscanf(tok, "%d:%f", &code, &bias);
-    if ((n != 2) || (code >= CODE_COUNT)) {
-      break;
+    if ((n != 2) || (code < 0) || (code >= CODE_COUNT) || !isfinite(bias)) {
+      return false;
     }
     sbp_signal_biases[code] = bias;
     if (verbosity_level > VERB_NORMAL) {
@@ -285,16 +297,17 @@ static void parse_biases(char *arg) {
     }
     tok = strtok(NULL, ",");
   }
+  return true;
 }
 
-static void parse_glonass_code_biases(char *arg) {
+static bool parse_glonass_code_biases(char *arg) {
   int n, code;
   float bias_fcn_ratio;
   char *tok = strtok(arg, ",");
   while (NULL != tok) {
     n = sscanf(tok, "%d:%f", &code, &bias_fcn_ratio);
-    if (n != 2) {
-      break;
+    if ((n != 2) || !isfinite(bias_fcn_ratio)) {
+      return false;
     }
     if (code == CODE_GLO_L1OF) {
       sbp_glo_code_bias[0] = bias_fcn_ratio;
@@ -306,19 +319,22 @@ static void parse_glonass_code_biases(char *arg) {
       if (verbosity_level > VERB_NORMAL) {
         fprintf(stderr, "Applying %.1f m/fcn to L2OF\n", bias_fcn_ratio);
       }
+    } else {
+      return false;
     }
     tok = strtok(NULL, ",");
   }
+  return true;
 }
 
-static void parse_glonass_phase_biases(char *arg) {
+static bool parse_glonass_phase_biases(char *arg) {
   int n, code;
   float bias_fcn_ratio;
   char *tok = strtok(arg, ",");
   while (NULL != tok) {
     n = sscanf(tok, "%d:%f", &code, &bias_fcn_ratio);
-    if (n != 2) {
-      break;
+    if ((n != 2) || !isfinite(bias_fcn_ratio)) {
+      return false;
     }
     if (code == CODE_GLO_L1OF) {
       sbp_glo_phase_bias[0] = bias_fcn_ratio;
@@ -330,7 +346,10 @@ static void parse_glonass_phase_biases(char *arg) {
       if (verbosity_level > VERB_NORMAL) {
         fprintf(stderr, "Applying %.1f circles/fcn to L2OF\n", bias_fcn_ratio);
       }
+    } else {
+      return false;
     }
     tok = strtok(NULL, ",");
   }
+  return true;
 }
-- 
2.43.0


From 2af814c362e35d66e9ebddfb8b3f10597640a896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:22 +0000
Subject: [PATCH 105/118] fix: rtcm3tosbp: refuse week numbers that are out of
 range

sscanf wrapped them to 16 bits, so that -w 67736:0 stood for week 2200.
---
 c/rtcm3tosbp/src/rtcm3tosbp.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/c/rtcm3tosbp/src/rtcm3tosbp.c b/c/rtcm3tosbp/src/rtcm3tosbp.c
index af82956..83157df 100644
--- a/c/rtcm3tosbp/src/rtcm3tosbp.c
+++ b/c/rtcm3tosbp/src/rtcm3tosbp.c
@@ -180,16 +180,17 @@ int rtcm3tosbp_main(int argc,
         print_current_gps_time();
         return 0;
       case 'w': {
-        s16 week_num;
+        int week_num;
         double time_of_week;
-        int num_args = sscanf(optarg, "%hd:%lf", &week_num, &time_of_week);
+        int num_args = sscanf(optarg, "%d:%lf", &week_num, &time_of_week);
         if (num_args != 2) {
           fprintf(stderr, "expecting GPS week number and time of week\n");
           help(argv[0], additional_opts_help);
           return -1;
         }
-        if (gps_time_valid(&(gps_time_t){time_of_week, week_num})) {
-          ct_utc_unix = gps2time(&(gps_time_t){time_of_week, week_num});
+        gps_time_t gps_time = {.tow = time_of_week, .wn = (s16)week_num};
+        if (gps_time.wn == week_num && gps_time_valid(&gps_time)) {
+          ct_utc_unix = gps2time(&gps_time);
         } else {
           fprintf(stderr,
                   "provided GPS week number and time of week is not valid\n");
-- 
2.43.0


From 0efb8c9243378bc9a0fe3b04ff335d5c198ae1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:22 +0000
Subject: [PATCH 106/118] fix: rtcm3tosbp: refuse dates that do not exist

-d 2020:13:45:99 was taken for some other day, and a date before GPS time
was ignored.
---
 c/rtcm3tosbp/src/rtcm3tosbp.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/c/rtcm3tosbp/src/rtcm3tosbp.c b/c/rtcm3tosbp/src/rtcm3tosbp.c
index 83157df..d7b916d 100644
--- a/c/rtcm3tosbp/src/rtcm3tosbp.c
+++ b/c/rtcm3tosbp/src/rtcm3tosbp.c
@@ -118,6 +118,19 @@ static void help(char *arg, const char *additional_opts_help) {
   fprintf(stderr, "  -v for stderr verbosity\n");
 }
 
+static bool date_valid(int year, int month, int day, int hour) {
+  const int first_year = 1980;
+  const int last_year = 2600; /* week numbers are kept in 16 bits */
+  const int month_days[] = {31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
+  if (year < first_year || year > last_year || month < 1 || month > 12 ||
+      day < 1 || day > month_days[month - 1] || hour < 0 || hour > 23) {
+    return false;
+  }
+  const bool leap_year =
+      (year % 4 == 0 && year % 100 != 0) || year % 400 == 0;
+  return leap_year || month != 2 || day <= 28;
+}
+
 gps_time_t time2gps_apply_offset(const time_t t_unix) {
   /* set time, account for UTC<->GPS leap second difference */
   gps_time_t gps_no_offset = time2gps_t(t_unix);
@@ -207,9 +220,16 @@ int rtcm3tosbp_main(int argc,
           help(argv[0], additional_opts_help);
           return -1;
         }
-        gps_time_t gps_time = date2gps(year, month, day, hour, 0, 0);
+        gps_time_t gps_time = GPS_TIME_UNKNOWN;
+        if (date_valid(year, month, day, hour)) {
+          gps_time = date2gps(year, month, day, hour, 0, 0);
+        }
         if (gps_time_valid(&gps_time)) {
           ct_utc_unix = gps2time(&gps_time);
+        } else {
+          fprintf(stderr, "provided date is not valid\n");
+          help(argv[0], additional_opts_help);
+          return -1;
         }
 
         break;
-- 
2.43.0


From c1d1639af9d18cdc7de27de31617d7b45d0d8791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:23 +0000
Subject: [PATCH 107/118] fix: ubx2sbp: refuse sender ids that are out of range

Only the low 16 bits were used, and 0 for anything that is not a number.
---
 c/ubx2sbp/src/ubx2sbp.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/c/ubx2sbp/src/ubx2sbp.c b/c/ubx2sbp/src/ubx2sbp.c
index cbf5b80..5a65039 100644
--- a/c/ubx2sbp/src/ubx2sbp.c
+++ b/c/ubx2sbp/src/ubx2sbp.c
@@ -45,6 +45,16 @@ static void help(char *arg, const char *additional_opts_help) {
           "messages are still necessary.\n");
 }
 
+static bool parse_sender_id(const char *arg, u16 *sender_id) {
+  char *end;
+  const long value = strtol(arg, &end, 0);
+  if (end == arg || *end != '\0' || value < 0 || value > UINT16_MAX) {
+    return false;
+  }
+  *sender_id = (u16)value;
+  return true;
+}
+
 int ubx2sbp_main(int argc,
                  char **argv,
                  const char *additional_opts_help,
@@ -61,6 +71,7 @@ int ubx2sbp_main(int argc,
   struct ubx_sbp_state state;
   ubx_sbp_init(&state, &sbp_write, context);
 
+  u16 sender_id;
   int opt;
   int option_index = 0;
   static struct option long_options[] = {
@@ -78,7 +89,12 @@ int ubx2sbp_main(int argc,
         break;
 
       case 's':
-        ubx_set_sender_id(&state, (u16)strtol(optarg, NULL, 0));
+        if (!parse_sender_id(optarg, &sender_id)) {
+          fprintf(stderr, "provided sender id is not valid\n");
+          help(argv[0], additional_opts_help);
+          return -1;
+        }
+        ubx_set_sender_id(&state, sender_id);
         break;
 
       case 'h':
-- 
2.43.0


From 92479187a85e71a95591543aa360f97b582248aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:23 +0000
Subject: [PATCH 108/118] fix: ixcom2sbp: refuse sender ids that are out of
 range

Only the low 16 bits were used, and 0 for anything that is not a number.
---
 c/ixcom2sbp/src/ixcom2sbp.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/c/ixcom2sbp/src/ixcom2sbp.c b/c/ixcom2sbp/src/ixcom2sbp.c
index df24f2f..94e5d08 100644
--- a/c/ixcom2sbp/src/ixcom2sbp.c
+++ b/c/ixcom2sbp/src/ixcom2sbp.c
@@ -43,6 +43,16 @@ static void help(char *arg, const char *additional_opts_help) {
       DEFAULT_IXCOM_SENDER_ID);
 }
 
+static bool parse_sender_id(const char *arg, u16 *sender_id) {
+  char *end;
+  const long value = strtol(arg, &end, 0);
+  if (end == arg || *end != '\0' || value < 0 || value > UINT16_MAX) {
+    return false;
+  }
+  *sender_id = (u16)value;
+  return true;
+}
+
 int ixcom2sbp_main(int argc,
                    char **argv,
                    const char *additional_opts_help,
@@ -57,6 +67,7 @@ int ixcom2sbp_main(int argc,
   struct ixcom_sbp_state state;
   ixcom_sbp_init(&state, &sbp_write, context);
 
+  u16 sender_id;
   int opt;
   int option_index = 0;
   static struct option long_options[] = {
@@ -68,7 +79,12 @@ int ixcom2sbp_main(int argc,
          -1) {
     switch (opt) {
       case 's':
-        ixcom_set_sender_id(&state, (u16)strtol(optarg, NULL, 0));
+        if (!parse_sender_id(optarg, &sender_id)) {
+          fprintf(stderr, "provided sender id is not valid\n");
+          help(argv[0], additional_opts_help);
+          return -1;
+        }
+        ixcom_set_sender_id(&state, sender_id);
         break;
 
       case 'h':
-- 
2.43.0


From 949d660aa5951750694cb6f08bcdfc32c79a2c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:23 +0000
Subject: [PATCH 109/118] fix: ubx2sbp: -h does not print a null string

---
 c/ubx2sbp/src/ubx2sbp_main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/ubx2sbp/src/ubx2sbp_main.c b/c/ubx2sbp/src/ubx2sbp_main.c
index 046b7f8..e323e57 100644
--- a/c/ubx2sbp/src/ubx2sbp_main.c
+++ b/c/ubx2sbp/src/ubx2sbp_main.c
@@ -29,5 +29,5 @@ static int writefn(uint8_t *buff, uint32_t n, void *context) {
 }
 
 int main(int argc, char **argv) {
-  return ubx2sbp_main(argc, argv, NULL, readfn, writefn, 0);
+  return ubx2sbp_main(argc, argv, "", readfn, writefn, 0);
 }
-- 
2.43.0


From c728c788e7b61c963367173b5550ae9d2774558d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:23 +0000
Subject: [PATCH 110/118] fix: rtcm3_sbp: disabled constellations are left out
 of legacy observations too

---
 c/gnss_converters/src/rtcm3_sbp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 242fc9d..3e96cca 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -867,6 +867,10 @@ void add_obs_to_buffer(const rtcm_obs_message *new_rtcm_obs,
           }
         }
 
+        if (constellation_mask[code_to_constellation(sbp_freq->sid.code)]) {
+          continue;
+        }
+
         if (rtcm_freq->flags.fields.valid_pr == 1) {
           double pseudorange = rtcm_freq->pseudorange;
           pseudorange += sbp_signal_biases[sbp_freq->sid.code];
-- 
2.43.0


From c87ba6f2d3d7dcebd79c312fddfcaac1529d9ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:46 +0000
Subject: [PATCH 111/118] fix: rtcm3_sbp: GLONASS biases also apply to legacy
 observations

---
 .../include/gnss-converters/options.h         |  2 +
 c/gnss_converters/src/options.c               | 40 +++++++++++++------
 c/gnss_converters/src/rtcm3_sbp.c             | 16 ++++++--
 3 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/c/gnss_converters/include/gnss-converters/options.h b/c/gnss_converters/include/gnss-converters/options.h
index c3728b4..7d1ef8f 100644
--- a/c/gnss_converters/include/gnss-converters/options.h
+++ b/c/gnss_converters/include/gnss-converters/options.h
@@ -27,6 +27,8 @@ extern float sbp_glo_phase_bias[2];
 extern bool constellation_mask[CONSTELLATION_COUNT];
 extern verbosity_level_t verbosity_level;
 
+void glo_fcn_bias(code_t code, u8 glo_fcn, double *p_code, double *p_phase);
+
 void msm_glo_fcn_bias(const rtcm_msm_header *header,
                       u8 signal_index,
                       u8 glo_fcn,
diff --git a/c/gnss_converters/src/options.c b/c/gnss_converters/src/options.c
index 78d6cf9..2bee9f8 100644
--- a/c/gnss_converters/src/options.c
+++ b/c/gnss_converters/src/options.c
@@ -25,28 +25,22 @@ float sbp_glo_phase_bias[2] = {0.0f};
 bool constellation_mask[CONSTELLATION_COUNT] = {false};
 verbosity_level_t verbosity_level = {VERB_NORMAL};
 
-/** Find the frequency of an MSM signal
+/** Find the biases of a GLONASS signal
  *
- * \param header Pointer to message header
- * \param signal_index 0-based index into the signal mask
- * \param glo_fcn The FCN value for GLO satellites
- * \param glo_fcn_valid Validity flag for glo_fcn
+ * \param code Code of the signal
+ * \param glo_fcn The FCN value of the satellite
  * \param p_code Pointer to write the code offset to
  * \param p_phase Pointer to write the carrier phase offset to
- * \return true if a valid frequency was returned
  */
-void msm_glo_fcn_bias(const rtcm_msm_header *header,
-                      const u8 signal_index,
-                      const u8 glo_fcn,
-                      double *p_code,
-                      double *p_phase) {
-  assert(signal_index <= MSM_SIGNAL_MASK_SIZE);
+void glo_fcn_bias(const code_t code,
+                  const u8 glo_fcn,
+                  double *p_code,
+                  double *p_phase) {
   assert(p_code);
   assert(p_phase);
 
   (*p_code) = 0.0;
   (*p_phase) = 0.0;
-  code_t code = msm_signal_to_code(header, signal_index);
 
   switch ((int8_t)code) {
     case CODE_GLO_L1OF:
@@ -67,3 +61,23 @@ void msm_glo_fcn_bias(const rtcm_msm_header *header,
       break;
   }
 }
+
+/** Find the biases of an MSM signal
+ *
+ * \param header Pointer to message header
+ * \param signal_index 0-based index into the signal mask
+ * \param glo_fcn The FCN value for GLO satellites
+ * \param glo_fcn_valid Validity flag for glo_fcn
+ * \param p_code Pointer to write the code offset to
+ * \param p_phase Pointer to write the carrier phase offset to
+ * \return true if a valid frequency was returned
+ */
+void msm_glo_fcn_bias(const rtcm_msm_header *header,
+                      const u8 signal_index,
+                      const u8 glo_fcn,
+                      double *p_code,
+                      double *p_phase) {
+  assert(signal_index <= MSM_SIGNAL_MASK_SIZE);
+  code_t code = msm_signal_to_code(header, signal_index);
+  glo_fcn_bias(code, glo_fcn, p_code, p_phase);
+}
diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 3e96cca..f4166ac 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -871,9 +871,16 @@ void add_obs_to_buffer(const rtcm_obs_message *new_rtcm_obs,
           continue;
         }
 
+        double code_bias_m, phase_bias_c;
+        glo_fcn_bias(sbp_freq->sid.code,
+                     new_rtcm_obs->sats[sat].fcn,
+                     &code_bias_m,
+                     &phase_bias_c);
+
         if (rtcm_freq->flags.fields.valid_pr == 1) {
           double pseudorange = rtcm_freq->pseudorange;
           pseudorange += sbp_signal_biases[sbp_freq->sid.code];
+          pseudorange += code_bias_m;
           if (!pseudorange_representable(pseudorange)) {
             continue;
           }
@@ -881,10 +888,11 @@ void add_obs_to_buffer(const rtcm_obs_message *new_rtcm_obs,
           sbp_freq->flags |= MSG_OBS_FLAGS_CODE_VALID;
         }
         if (rtcm_freq->flags.fields.valid_cp == 1) {
-          sbp_freq->L.i = (s32)floor(rtcm_freq->carrier_phase);
-          u16 frac_part =
-              (u16)rint((rtcm_freq->carrier_phase - (double)sbp_freq->L.i) *
-                        MSG_OBS_LF_MULTIPLIER);
+          double carrier_phase = rtcm_freq->carrier_phase;
+          carrier_phase += phase_bias_c;
+          sbp_freq->L.i = (s32)floor(carrier_phase);
+          u16 frac_part = (u16)rint((carrier_phase - (double)sbp_freq->L.i) *
+                                    MSG_OBS_LF_MULTIPLIER);
           if (frac_part == 256) {
             frac_part = 0;
             sbp_freq->L.i += 1;
-- 
2.43.0


From b0a4474e3f26348ec1db622063e1266c8156b7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:22 +0000
Subject: [PATCH 112/118] fix: do not drop an unfinished MSM epoch after a
 pause of 5 s

The first MSM message after a pause longer than MSM_TIMEOUT_SEC cleared the
observation buffer, assuming that it held legacy observations. When it held
an MSM epoch whose last message was lost, the epoch was dropped silently
instead of being sent with a warning.
---
 c/gnss_converters/src/rtcm3_sbp.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index f4166ac..8edd447 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -1522,7 +1522,13 @@ void add_msm_obs_to_buffer(const rtcm_msm_message *new_rtcm_obs,
     return;
   }
 
-  if (!is_msm_active(&obs_time, state) && state->obs_to_send > 0) {
+  const bool buffer_holds_msm =
+      gps_time_valid(&state->last_msm_received) &&
+      state->obs_time.wn == state->last_msm_received.wn &&
+      state->obs_time.tow == (u32)rint(state->last_msm_received.tow * SECS_MS);
+
+  if (!is_msm_active(&obs_time, state) && !buffer_holds_msm &&
+      state->obs_to_send > 0) {
     /* This is the first MSM observation, so clear the already decoded legacy
      * messages from the observation buffer to avoid duplicates */
     memset(state->obs_buffer, 0, sizeof(state->obs_buffer));
-- 
2.43.0


From c6ed8ca063f6953a46b28c9a41ea265cac3ba162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:23 +0000
Subject: [PATCH 113/118] fix: do not merge unfinished epochs of different
 weeks

Only the time of week was compared, so that observations of an unfinished
epoch were sent together with those of the same time of another week.
---
 c/gnss_converters/src/rtcm3_sbp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/gnss_converters/src/rtcm3_sbp.c b/c/gnss_converters/src/rtcm3_sbp.c
index 8edd447..d61f29d 100644
--- a/c/gnss_converters/src/rtcm3_sbp.c
+++ b/c/gnss_converters/src/rtcm3_sbp.c
@@ -804,6 +804,7 @@ void add_obs_to_buffer(const rtcm_obs_message *new_rtcm_obs,
   /* Check if the buffer already has obs of the same time */
   if (state->obs_to_send != 0 &&
       (state->obs_time.tow != new_obs_time.tow ||
+       state->obs_time.wn != new_obs_time.wn ||
        state->sender_id !=
            rtcm_stn_to_sbp_sender_id(new_rtcm_obs->header.stn_id))) {
     /* We either have missed a message, or we have a new station. Either way,
@@ -1551,6 +1552,7 @@ void add_msm_obs_to_buffer(const rtcm_msm_message *new_rtcm_obs,
   /* Check if the buffer already has obs of the same time */
   if (state->obs_to_send != 0 &&
       (state->obs_time.tow != new_obs_time.tow ||
+       state->obs_time.wn != new_obs_time.wn ||
        state->sender_id !=
            rtcm_stn_to_sbp_sender_id(new_rtcm_obs->header.stn_id))) {
     /* We either have missed a message, or we have a new station. Either way,
-- 
2.43.0


From ef95dbd3383284cc4438ce79510d4c358ed23a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:21 +0000
Subject: [PATCH 114/118] fix: SBAS frames of 250 bits in a 4075 message were
 rejected

The bits of a partly filled last word were stored at its low end, while the
consumers of the frame read every word from its high end.
---
 c/librtcm/src/decode.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index f131d51..8b23206 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -1535,6 +1535,8 @@ rtcm3_rc rtcm3_decode_4075_bitstream(swiftnav_bitstream_t *buff,
     while (remaining_bits > 0) {
       uint32_t next_bits = remaining_bits < 32 ? remaining_bits : 32;
       BITSTREAM_DECODE_U32(buff, frame->frame_data[j], next_bits);
+      /* the bits of a last word which is not full start at its top as well */
+      frame->frame_data[j] <<= 32 - next_bits;
       j++;
       remaining_bits -= next_bits;
     }
-- 
2.43.0


From b1b52dbe73d2d8c2096cc1fcbe8ca2121b7943b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:51 +0000
Subject: [PATCH 115/118] fix: sbp2rtcm never ended when run from the Rust
 program

The end of the input was only noticed by the exit() in the C program's own read
function; stdin is never read through stdio, so feof() does not report it.
---
 c/sbp2rtcm/src/sbp2rtcm.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/c/sbp2rtcm/src/sbp2rtcm.c b/c/sbp2rtcm/src/sbp2rtcm.c
index da18a80..d7ba8bf 100644
--- a/c/sbp2rtcm/src/sbp2rtcm.c
+++ b/c/sbp2rtcm/src/sbp2rtcm.c
@@ -31,6 +31,18 @@ typedef int (*writefn_ptr)(uint8_t *, uint16_t, void *);
 
 static writefn_ptr sbp2rtcm_writefn;
 
+static readfn_ptr sbp2rtcm_readfn;
+static int32_t last_read = 1;
+
+/* Remember the end of the input, sbp_process() does not report it */
+static int32_t read_input(uint8_t *buff, uint32_t n, void *context) {
+  int32_t ret = sbp2rtcm_readfn(buff, n, context);
+  if (n > 0) {
+    last_read = ret;
+  }
+  return ret;
+}
+
 typedef struct {
   sbp_msg_callbacks_node_t base_pos;
   sbp_msg_callbacks_node_t glo_biases;
@@ -72,6 +84,7 @@ int sbp2rtcm_main(int argc,
     }
   }
 
+  sbp2rtcm_readfn = readfn;
   sbp2rtcm_writefn = writefn;
 
   /* set time from systime, account for UTC<->GPS leap second difference */
@@ -164,8 +177,8 @@ int sbp2rtcm_main(int argc,
                         &state,
                         &sbp_nodes.log);
 
-  while (!feof(stdin)) {
-    sbp_process(&sbp_state, readfn);
-  }
-  return 0;
+  do {
+    sbp_process(&sbp_state, read_input);
+  } while (last_read > 0);
+  return last_read < 0 ? EXIT_FAILURE : EXIT_SUCCESS;
 }
-- 
2.43.0


From c99577c8bbdb7ce8a96c3841ca01214805db7b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:51 +0000
Subject: [PATCH 116/118] fix: an input file given as the only argument of a
 Rust program was ignored

The usage text says [<INPUT> [<OUTPUT>]], but with INPUT alone it read the
standard input.
---
 rust/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rust/lib.rs b/rust/lib.rs
index 9ecf542..67bf783 100644
--- a/rust/lib.rs
+++ b/rust/lib.rs
@@ -166,6 +166,15 @@ pub fn fetch_io(_prog_name: &str) -> (Box<dyn Read>, Box<dyn Write>) {
         }
     }
 
+    // Case for: <prog> <input_file>
+    if_chain! {
+        if args.len() == 1;
+        if Path::new(&args[0]).is_file();
+        then {
+            return file_in_stdout(args[0]);
+        }
+    }
+
     // Otherwise return stdin and stdout
     stdin_stdout()
 }
-- 
2.43.0


From c4500f349c63eeee2595fbbdd16a86e34448ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:51 +0000
Subject: [PATCH 117/118] fix: the Rust programs reported success when their
 output could not be written

Dropping a BufWriter ignores the error of writing what it still holds.
---
 rust/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rust/lib.rs b/rust/lib.rs
index 67bf783..58b0535 100644
--- a/rust/lib.rs
+++ b/rust/lib.rs
@@ -38,6 +38,13 @@ pub struct Context {
     pub writer: Box<dyn Write>,
 }
 
+impl Drop for Context {
+    fn drop(&mut self) {
+        // A buffered writer which is just dropped hides that it could not write
+        self.writer.flush().expect("failed to write data");
+    }
+}
+
 /// # Safety
 pub unsafe extern "C" fn readfn_u32(bytes: *mut u8, n_bytes: u32, ctx: *mut c_void) -> i32 {
     readfn(bytes, n_bytes as usize, ctx)
-- 
2.43.0


From 4c97bc32eaacd8afd215b710ce3cbf5208943038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:18 +0000
Subject: [PATCH 118/118] fix: rtcm3tosbp -o aborts when the time given is
 older than the program

---
 c/rtcm3tosbp/src/rtcm3tosbp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/rtcm3tosbp/src/rtcm3tosbp.c b/c/rtcm3tosbp/src/rtcm3tosbp.c
index d7b916d..8eb5988 100644
--- a/c/rtcm3tosbp/src/rtcm3tosbp.c
+++ b/c/rtcm3tosbp/src/rtcm3tosbp.c
@@ -274,8 +274,9 @@ int rtcm3tosbp_main(int argc,
 
   time_truth_init(&time_truth);
 
+  gps_time_t current_time = GPS_TIME_UNKNOWN;
   if (ct_utc_unix > 0) {
-    gps_time_t current_time = time2gps_apply_offset(ct_utc_unix);
+    current_time = time2gps_apply_offset(ct_utc_unix);
     time_truth_update(&time_truth, TIME_TRUTH_EPH_GAL, current_time);
   }
 
@@ -291,7 +292,7 @@ int rtcm3tosbp_main(int argc,
       return -1;
     }
     state.use_time_from_input_obs = true;
-    time_truth_get(&time_truth, NULL, &state.time_from_input_data);
+    state.time_from_input_data = current_time;
   }
 
   /* todo: Do we want to return a non-zero value on an error? */
-- 
2.43.0

