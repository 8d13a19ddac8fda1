From 378c2256356a095b4e8ea00c4f01e8f775fd01e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 01/19] fix: varint: check bounds before reading and reject out
 of range values

The decoder read src[src_len] (or src[val_len_max]) before checking the
length, refused valid encodings depending on the byte that follows them, and
accepted last groups holding bits beyond the width of the type.
---
 src/varint.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/varint.c b/src/varint.c
index fc23071..554d9d5 100644
--- a/src/varint.c
+++ b/src/varint.c
@@ -44,15 +44,17 @@
  * @param src_len : Source length.
  * @param val[out] : Value read.
  * @param val_len[out] : Length in byte read from the source.
- * @param val_len_max : Maximum value length in byte read.
+ * @param val_size : Size in bytes of the type to read.
  *
  * @return 0 in case of success, negative errno value in case of error.
  */
 static int futils_varint_read(const uint8_t *src, size_t src_len,
-		uint64_t *val, size_t *val_len, size_t val_len_max)
+		uint64_t *val, size_t *val_len, size_t val_size)
 {
+	const uint32_t bits = val_size * 8;
 	uint32_t shift = 0;
 	size_t offset = 0;
+	uint8_t group = 0;
 	int more = 0;
 
 	if (src == NULL || src_len == 0 || val == NULL || val_len == NULL)
@@ -61,15 +63,20 @@ static int futils_varint_read(const uint8_t *src, size_t src_len,
 	*val = 0;
 	/* Decode value */
 	do {
-		*val |= (((uint64_t)(src[offset] & 0x7f)) << shift);
+		/* Truncated or too long encoding */
+		if (offset >= src_len || shift >= bits)
+			return -EPROTO;
+
+		group = src[offset] & 0x7f;
 		more = src[offset] & 0x80;
 
+		/* Bits out of the range of the type */
+		if (shift + 7 > bits && (group >> (bits - shift)) != 0)
+			return -EPROTO;
+
+		*val |= (uint64_t)group << shift;
 		offset++;
 		shift += 7;
-		if ((offset > src_len) ||
-		    (offset > val_len_max) ||
-		    (offset == val_len_max && src[offset] & 0x0f))
-			return -EPROTO;
 	} while (more);
 
 	*val_len = offset;
@@ -122,7 +129,7 @@ int futils_varint_read_u16(const uint8_t *src, size_t src_len,
 		return -EINVAL;
 
 	res = futils_varint_read(src, src_len,
-			&val64, val_len, sizeof(*val) + 1);
+			&val64, val_len, sizeof(*val));
 
 	*val = (uint16_t)val64;
 	return res;
@@ -144,7 +151,7 @@ int futils_varint_read_i16(const uint8_t *src, size_t src_len,
 		return -EINVAL;
 
 	res = futils_varint_read(src, src_len,
-			&val64, val_len, sizeof(*val) + 1);
+			&val64, val_len, sizeof(*val));
 
 	/* Zigzag decoding, use logical right shift, without sign propagation */
 	*val = ((int16_t)(val64 >> 1)) ^ -((int16_t)(val64 & 0x1));
@@ -170,7 +177,7 @@ int futils_varint_read_u32(const uint8_t *src, size_t src_len,
 		return -EINVAL;
 
 	res = futils_varint_read(src, src_len,
-			&val64, val_len, sizeof(*val) + 1);
+			&val64, val_len, sizeof(*val));
 
 	*val = (uint32_t)val64;
 	return res;
@@ -192,7 +199,7 @@ int futils_varint_read_i32(const uint8_t *src, size_t src_len,
 		return -EINVAL;
 
 	res = futils_varint_read(src, src_len,
-			&val64, val_len, sizeof(*val) + 1);
+			&val64, val_len, sizeof(*val));
 
 	/* Zigzag decoding, use logical right shift, without sign propagation */
 	*val = ((int32_t)(val64 >> 1)) ^ -((int32_t)(val64 & 0x1));
@@ -212,7 +219,7 @@ int futils_varint_read_u64(const uint8_t *src, size_t src_len,
 		uint64_t *val, size_t *val_len)
 {
 	return futils_varint_read(src, src_len,
-			val, val_len, sizeof(*val) + 2);
+			val, val_len, sizeof(*val));
 }
 
 int futils_varint_write_u64(uint8_t *dst, size_t dst_len,
@@ -231,7 +238,7 @@ int futils_varint_read_i64(const uint8_t *src, size_t src_len,
 		return -EINVAL;
 
 	res = futils_varint_read(src, src_len,
-			&val64, val_len, sizeof(*val) + 2);
+			&val64, val_len, sizeof(*val));
 
 	/* Zigzag decoding, use logical right shift, without sign propagation */
 	*val = ((int64_t)(val64 >> 1)) ^ -((int64_t)(val64 & 0x1));
-- 
2.43.0


From 395e0022eb22346c7c3e5bf2cbe050e06913096f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 02/19] fix: timetools: normalise the difference when
 nanoseconds are equal

time_timespec_diff returned tv_nsec == 1000000000 and one second less when
both timestamps have the same tv_nsec.
---
 src/timetools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/timetools.c b/src/timetools.c
index c902b69..3b16731 100644
--- a/src/timetools.c
+++ b/src/timetools.c
@@ -244,7 +244,7 @@ int time_timespec_diff(const struct timespec *start,
 		return -EINVAL;
 
 	/* diff = end - start */
-	if (end->tv_nsec > start->tv_nsec) {
+	if (end->tv_nsec >= start->tv_nsec) {
 		diff->tv_sec = end->tv_sec - start->tv_sec;
 		diff->tv_nsec = end->tv_nsec - start->tv_nsec;
 	} else {
-- 
2.43.0


From 0c32b53bf2ce0099d1912d354430a8101e68165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 03/19] fix: timetools: report the difference of equal
 timestamps

time_timespec_diff_in_range returned 1 without setting its output when both
timestamps are equal.
---
 src/timetools.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/timetools.c b/src/timetools.c
index 3b16731..757e73b 100644
--- a/src/timetools.c
+++ b/src/timetools.c
@@ -307,8 +307,11 @@ int time_timespec_diff_in_range(const struct timespec *t1,
 	memset(&diff, 0, sizeof(diff));
 
 	ret = time_timespec_cmp(t1, t2);
-	if (ret == 0)
+	if (ret == 0) {
+		if (out_diff_us)
+			*out_diff_us = 0;
 		return 1;
+	}
 
 	if (ret == 1) {
 		ret = time_timespec_diff(t2, t1, &diff);
-- 
2.43.0


From bcb5c4af2dda4f1d45bc3c7e283a25f13dc70676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 04/19] fix: timetools: no overflow when adding a large
 microsecond delta

delta * 1000 overflowed for deltas beyond about 292 years.
---
 src/timetools.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/timetools.c b/src/timetools.c
index 757e73b..5cf4be5 100644
--- a/src/timetools.c
+++ b/src/timetools.c
@@ -457,7 +457,15 @@ int time_timespec_add_ns(const struct timespec *ts, int64_t delta,
 int time_timespec_add_us(const struct timespec *ts, int64_t delta,
 			 struct timespec *res)
 {
-	return time_timespec_add_ns(ts, delta * 1000, res);
+	int ret;
+
+	/* Add whole seconds apart: delta in ns may not fit in 64 bits */
+	ret = time_timespec_add_ns(ts, (delta % 1000000) * 1000, res);
+	if (ret < 0)
+		return ret;
+
+	res->tv_sec += delta / 1000000;
+	return 0;
 }
 
 int time_timeval_to_timespec(const struct timeval *tv, struct timespec *ts)
-- 
2.43.0


From 38485b7ab1be4e25c5157a89d786f66197bb7c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 05/19] fix: synctools: report a failed file sync and reject a
 missing path

---
 src/synctools.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/synctools.c b/src/synctools.c
index 64b0aca..676feda 100644
--- a/src/synctools.c
+++ b/src/synctools.c
@@ -87,10 +87,13 @@ int sync_folder(const char *folderpath)
 
 int sync_file_and_folder(const char *filepath)
 {
-	int ret;
+	int ret, folder_ret;
 	char *slash;
 	char *folderpath;
 
+	if (!filepath)
+		return -EINVAL;
+
 	/* sync file */
 	ret = sync_file(filepath);
 	if (ret < 0)
@@ -113,10 +116,13 @@ int sync_file_and_folder(const char *filepath)
 	slash[1] = '\0';
 
 	/* sync parent folder */
-	ret = sync_folder(folderpath);
-	if (ret < 0)
-		ULOGW("sync_folder(%s) failed : %d(%s)", folderpath, ret,
-				strerror(-ret));
+	folder_ret = sync_folder(folderpath);
+	if (folder_ret < 0) {
+		ULOGW("sync_folder(%s) failed : %d(%s)", folderpath, folder_ret,
+				strerror(-folder_ret));
+		if (ret == 0)
+			ret = folder_ret;
+	}
 
 out:
 	free(folderpath);
-- 
2.43.0


From d38b1416f838cb48d11b897560ba756c0a84a2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 06/19] fix: reject dates whose month is outside 1 to 12

The month was used unchecked as an index in the table of cumulative days,
so a text like "2018-99-01T00:00:00Z" read outside of it.
---
 src/systimetools.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/systimetools.c b/src/systimetools.c
index 7ed23d2..efa09ff 100644
--- a/src/systimetools.c
+++ b/src/systimetools.c
@@ -165,6 +165,8 @@ static int parse_date(const char *s, size_t n, int *year, int *mon, int *mday)
 	ret = parse_num(mday_s, mday);
 	if (ret < 0)
 		return ret;
+	if (*mon < 1 || *mon > 12)
+		return -EINVAL;
 
 	return ret;
 }
-- 
2.43.0


From 1301ca8e23ad11be57c91e49f053d9c042bc9daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 07/19] fix: reject negative fields in date and time texts

"2018-03-01T-1:00:00Z" was accepted; the negative hour then became a huge
unsigned value in the epoch computation.
---
 src/systimetools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systimetools.c b/src/systimetools.c
index efa09ff..6068e06 100644
--- a/src/systimetools.c
+++ b/src/systimetools.c
@@ -88,7 +88,7 @@ static int parse_num(const char *s, int *num)
 	char *end = NULL;
 	errno = 0;
 	*num = strtol(s, &end, 10);
-	return (end == NULL || *end != '\0') ? -EINVAL : -errno;
+	return (end == NULL || *end != '\0' || *num < 0) ? -EINVAL : -errno;
 }
 
 static int parse_wday(const char *s, int *num)
-- 
2.43.0


From 0dc269037749649e08c6d03fb13538d4f0e07b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 08/19] fix: compute epochs with 64-bit years

The 32-bit arithmetic wrapped for january and february of year 0 and for
years over 11.7 millions, so the epoch returned was not the one of the date.
---
 src/systimetools.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/systimetools.c b/src/systimetools.c
index 6068e06..8813259 100644
--- a/src/systimetools.c
+++ b/src/systimetools.c
@@ -534,7 +534,8 @@ int time_ctx_set_time(struct time_ctx *ctx, const char *str_time)
 static uint64_t tm_mkepoch_local(const struct tm *tm, int gmtoff)
 {
 	uint64_t time;
-	const uint64_t nb_day_1970 = 719499;
+	/* Number of days from year -400 to 1970 */
+	const uint64_t nb_day_1970 = 719499 + 146097;
 	const uint64_t cumulative_nb_day_per_month[] = {
 		0, 30, 61, 91, 122, 152, 183, 214, 244, 275, 305, 336, 367
 	};
@@ -542,7 +543,9 @@ static uint64_t tm_mkepoch_local(const struct tm *tm, int gmtoff)
 	if (!tm)
 		return 0;
 
-	uint32_t year = tm->tm_year + 1900;
+	/* Years are counted from -400 (one full leap year cycle before 0) so that
+	 * the shifted year below never becomes negative */
+	uint64_t year = (int64_t)tm->tm_year + 1900 + 400;
 	uint32_t month = tm->tm_mon + 1; /* 1 -> 12 */
 	uint32_t day = tm->tm_mday;      /* 1 -> 31 */
 	uint32_t hour = tm->tm_hour;     /* 0 -> 23 */
@@ -560,7 +563,7 @@ static uint64_t tm_mkepoch_local(const struct tm *tm, int gmtoff)
 		year -= 1;
 	}
 
-	/* Add the number of leap days between year 0 and the given year,
+	/* Add the number of leap days between the origin and the given year,
 	 * the formula comes from the gregorian calendar leap years rule */
 	time = year/4 - year/100 + year/400;
 
@@ -569,7 +572,7 @@ static uint64_t tm_mkepoch_local(const struct tm *tm, int gmtoff)
 	time += cumulative_nb_day_per_month[month];
 	time += day;
 
-	/* Shift origin from 0 to 1970 */
+	/* Shift origin to 1970 */
 	time -= nb_day_1970;
 
 	/* Handle hours / minutes / seconds */
-- 
2.43.0


From 9deb6b7832ffa144df5a05a6cb6dd797344176d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 09/19] fix: random: use independent bits for each symbol of
 the last base64 group

---
 src/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random.c b/src/random.c
index a552044..8837f39 100644
--- a/src/random.c
+++ b/src/random.c
@@ -1353,7 +1353,7 @@ int futils_random_base64(char *buffer, size_t len, size_t count)
 
 		for (i = 0; i < (c * 8) / 6; i++) {
 			b[i] = alphabet[v & 63];
-			v >>= 3;
+			v >>= 6;
 		}
 
 		/* last character has only a limited number of bits */
-- 
2.43.0


From f350b9948368470d749dbfb226ca0002b8351847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 10/19] fix: dynmbox: no 32-bit overflow of long push timeouts

---
 src/dynmbox.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index dc2b308..dbe3ba7 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -557,7 +557,8 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 			return res;
 		}
 		time_timeval_to_timespec(&tv_now, &ts_now);
-		time_timespec_add_us(&ts_now, timeout_ms * 1000, &ts_abs);
+		time_timespec_add_us(&ts_now, (int64_t)timeout_ms * 1000,
+				     &ts_abs);
 	}
 
 	pthread_mutex_lock(&box->lock);
-- 
2.43.0


From 4396ad5cd69a40935fd70e224ba9d033981215ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 11/19] fix: dynmbox: notify a pushed message before releasing
 the lock

---
 src/dynmbox.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index dbe3ba7..dd1b844 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -510,11 +510,12 @@ int dynmbox_push(struct dynmbox *box,
 	if (res)
 		goto fail;
 
-	pthread_mutex_unlock(&box->lock);
-
-	/* Write one byte into pipe/socket to signal mbox is readable */
+	/* Write one byte into pipe/socket to signal mbox is readable; with the
+	 * lock held, so that the message is never seen without its byte */
 	push_notify(box);
 
+	pthread_mutex_unlock(&box->lock);
+
 	return 0;
 fail:
 	pthread_mutex_unlock(&box->lock);
@@ -579,11 +580,11 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 	if (res)
 		goto fail; /* Return error (NDEBUG case) */
 
-	pthread_mutex_unlock(&box->lock);
-
-	/* Signal consumers */
+	/* Signal consumers, with the lock held */
 	push_notify(box);
 
+	pthread_mutex_unlock(&box->lock);
+
 	return 0;
 fail:
 	pthread_mutex_unlock(&box->lock);
-- 
2.43.0


From 13122c044157e4f7a717776e56d1daa3acef1723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 12/19] fix: dynmbox: set close-on-exec on the write end too

---
 src/dynmbox.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index dd1b844..ba06879 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -256,10 +256,11 @@ static int init_notify_channel(struct dynmbox *box)
 	if (ret < 0)
 		return -errno;
 
-	/* set pipes CLOEXEC flag, and NONBLOCK for read end */
-	for (i = 0; i < 2; i++)
+	/* set pipes CLOEXEC flag and NONBLOCK */
+	for (i = 0; i < 2; i++) {
 		fd_add_flags(box->fds[i], O_NONBLOCK);
-	fd_set_close_on_exec(box->fds[0]);
+		fd_set_close_on_exec(box->fds[i]);
+	}
 	return 0;
 }
 
-- 
2.43.0


From d3ad0e9706b3f371ac4420fec51531a7bc75bb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:01 +0000
Subject: [PATCH 13/19] fix: safew: rename the payload before its crc during
 recovery

---
 src/safew.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index a293367..afcba55 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -513,11 +513,12 @@ int futils_safew_file_check(const char *pathname)
 			break;
 		}
 
-		/* rename tmp crc and tmp payload */
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		/* rename tmp payload and then tmp crc, as a commit does: the
+		 * state in between can be recovered */
+		ret = rename(fp.tmp_path, pathname);
 		if (ret < 0)
 			break;
-		ret = rename(fp.tmp_path, pathname);
+		ret = rename(crc_fp.tmp_path, crc_fp.path);
 		break;
 
 	case PAYLOAD + TMP_PAYLOAD + CRC + TMP_CRC:
@@ -531,11 +532,11 @@ int futils_safew_file_check(const char *pathname)
 		crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
 
 		if (tmp_crc == tmp_payload_crc) {
-			/* rename tmp crc and tmp payload */
-			ret = rename(crc_fp.tmp_path, crc_fp.path);
+			/* rename tmp payload and then tmp crc */
+			ret = rename(fp.tmp_path, pathname);
 			if (ret < 0)
 				break;
-			ret = rename(fp.tmp_path, pathname);
+			ret = rename(crc_fp.tmp_path, crc_fp.path);
 			break;
 		}
 
-- 
2.43.0


From 911d6889cdd67fefdf0050e9b1f88a6baf20e569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:01 +0000
Subject: [PATCH 14/19] fix: safew: an incomplete crc file does not hide the
 valid pair

---
 src/safew.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index afcba55..27f1c80 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -467,15 +467,13 @@ int futils_safew_file_check(const char *pathname)
 
 	case PAYLOAD + CRC + TMP_CRC:
 		/* this could be stage 7 with tmp_payload_v2 disappeared:
-		 * in that case payload could match crc */
-		ret = read_crc(crc_fhd, &crc);
-		if (ret < 0)
-			break;
-
+		 * in that case payload could match crc; an unreadable crc
+		 * matches nothing */
 		crc_from_fhd(payload_fhd, &payload_crc);
 
 		/* if pair matches let's stop here */
-		if (crc == payload_crc)
+		ret = read_crc(crc_fhd, &crc);
+		if (ret == 0 && crc == payload_crc)
 			break;
 
 		/* this could be stage 8, in that case payload should match
@@ -524,14 +522,13 @@ int futils_safew_file_check(const char *pathname)
 	case PAYLOAD + TMP_PAYLOAD + CRC + TMP_CRC:
 		/* stage 7: payload/crc and tmp_payload/tmp_crc pairs should be
 		 * both valid.
-		 * Check tmp pair first, if it fails test the other one
+		 * Check tmp pair first, if it fails (which includes a tmp crc
+		 * not completely written) test the other one
 		 */
-		ret = read_crc(tmp_crc_fhd, &tmp_crc);
-		if (ret < 0)
-			break;
 		crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
+		ret = read_crc(tmp_crc_fhd, &tmp_crc);
 
-		if (tmp_crc == tmp_payload_crc) {
+		if (ret == 0 && tmp_crc == tmp_payload_crc) {
 			/* rename tmp payload and then tmp crc */
 			ret = rename(fp.tmp_path, pathname);
 			if (ret < 0)
-- 
2.43.0


From e4a0d18404ad93acfb06357e1c9c2c4fd561939b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:01 +0000
Subject: [PATCH 15/19] fix: safew: a failed commit keeps a recoverable payload
 and crc

---
 src/safew.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index 27f1c80..49d4a1d 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -230,6 +230,7 @@ static int safew_fclose_commit(struct futils_safew_file *safew_fp,
 			       bool with_crc)
 {
 	int ret = 0;
+	bool replaced = false;
 	struct futils_safew_crc crc_fp = { {}, {} };
 
 	if (safew_fp == NULL)
@@ -270,9 +271,11 @@ static int safew_fclose_commit(struct futils_safew_file *safew_fp,
 	/* Ensure the update is atomic, in order to prevent partial
 	 * write. With this rename, the file is either previous one,
 	 * either new one once completely written. */
-	if (ret == 0)
+	if (ret == 0) {
 		/* move tmp payload to payload */
 		ret = rename(safew_fp->tmp_path, safew_fp->path);
+		replaced = ret == 0;
+	}
 
 	if (ret == 0 && with_crc)
 		/* move tmp payload to payload */
@@ -280,11 +283,12 @@ static int safew_fclose_commit(struct futils_safew_file *safew_fp,
 
 	if (ret < 0) {
 		ULOGE("safe write fclose commit %s: error", safew_fp->path);
-		unlink(safew_fp->tmp_path);
-
-		if (with_crc) {
-			unlink(crc_fp.path);
-			unlink(crc_fp.tmp_path);
+		/* the previous payload keeps its crc; once the payload has
+		 * been replaced, its tmp crc is needed for the recovery */
+		if (!replaced) {
+			unlink(safew_fp->tmp_path);
+			if (with_crc)
+				unlink(crc_fp.tmp_path);
 		}
 	}
 
-- 
2.43.0


From 47fffdd3052e845a833789e7767f9908429da4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:01 +0000
Subject: [PATCH 16/19] fix: safew: a read error while computing the crc fails
 the commit

---
 src/safew.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/safew.c b/src/safew.c
index 49d4a1d..7c6d7fe 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -74,6 +74,11 @@ static int crc_from_file(const char *pathname, uint32_t *crc)
 	}
 
 	crc_from_fhd(fhd, crc);
+	if (ferror(fhd)) {
+		ULOGE("can't read file %s", pathname);
+		fclose(fhd);
+		return -1;
+	}
 	ULOGD("calculated crc:0x%08" PRIX32 " of file %s", *crc, pathname);
 
 	ret = fclose(fhd);
-- 
2.43.0


From 1a0d10403e331f5ac1ccf8609c9a8d9863c8f749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 17/19] fix: fs: report a directory read error instead of a
 partial size

---
 src/fs.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/fs.c b/src/fs.c
index d1a11ca..edc5605 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -67,7 +67,19 @@ int64_t futils_fs_dir_size(const char *path, bool recursive)
 	}
 
 	/* iterate from dir */
-	while ((entry = readdir(dir)) != NULL) {
+	while (1) {
+		/* a read error is told from the end of dir by errno only */
+		errno = 0;
+		entry = readdir(dir);
+		if (!entry) {
+			if (errno != 0) {
+				ret = -errno;
+				ULOG_ERRNO("can't readdir '%s'", errno, path);
+				goto clean;
+			}
+			break;
+		}
+
 		/* skip "." and ".." */
 		if (!strcmp(entry->d_name, ".") || !strcmp(entry->d_name, ".."))
 			continue;
-- 
2.43.0


From a07f0c88b25bf22aa35e3ac4e92f7cd55120312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 18/19] fix: fs: refuse an entry path that does not fit instead
 of measuring another file

---
 src/fs.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fs.c b/src/fs.c
index edc5605..dd437a5 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -85,7 +85,15 @@ int64_t futils_fs_dir_size(const char *path, bool recursive)
 			continue;
 
 		/* get entry status */
-		snprintf(filepath, FILENAME_MAX, "%s/%s", path, entry->d_name);
+		if (snprintf(filepath,
+			     FILENAME_MAX,
+			     "%s/%s",
+			     path,
+			     entry->d_name) >= FILENAME_MAX) {
+			ret = -ENAMETOOLONG;
+			ULOG_ERRNO("'%s/%s'", ENAMETOOLONG, path, entry->d_name);
+			goto clean;
+		}
 		if (lstat(filepath, &stats) < 0) {
 			ret = -errno;
 			ULOG_ERRNO("can't lstat '%s'", errno, filepath);
-- 
2.43.0


From ac477a3e5dd97040e45ea10ec28a12c9c9e2db60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:27 +0000
Subject: [PATCH 19/19] fix: retry mbox_push_block when another producer took
 the room

poll() only tells that there is room at that moment: with several
producers the write may still fail with EAGAIN, and the message was then
dropped although the timeout had not expired (or was infinite).
---
 src/mbox.c | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/mbox.c b/src/mbox.c
index 4f709cc..4742825 100644
--- a/src/mbox.c
+++ b/src/mbox.c
@@ -128,27 +128,32 @@ int mbox_push_block(struct mbox *box, const void *msg, unsigned int timeout_ms)
 		return -EINVAL;
 	timeout = (timeout_ms == 0) ? -1 : (int)timeout_ms;
 
-	/* Block until we have at least PIPE_BUF bytes in the pipe */
 	do {
-		struct pollfd pfd = {
-			.fd = box->fds[1],
-			.events = POLLOUT,
-			.revents = 0,
-		};
+		/* Block until we have at least PIPE_BUF bytes in the pipe */
+		do {
+			struct pollfd pfd = {
+				.fd = box->fds[1],
+				.events = POLLOUT,
+				.revents = 0,
+			};
+
+			res = poll(&pfd, 1, timeout);
+		} while (res == -1 && errno == EINTR);
+
+		if (res == 0)
+			return -ETIMEDOUT;
+		if (res == -1)
+			return -errno;
+		/* When poll indicates that the write will not block, it means
+		 * that at least PIPE_BUF bytes can be written without
+		 * blocking, or that an error occured on the file descriptor,
+		 * in which case the write is expected to fail. If another
+		 * producer took the room in the meantime, wait again.
+		 */
+		res = mbox_push(box, msg);
+	} while (res == -EAGAIN);
 
-		res = poll(&pfd, 1, timeout);
-	} while (res == -1 && errno == EINTR);
-
-	if (res == 0)
-		return -ETIMEDOUT;
-	if (res == -1)
-		return -errno;
-	/* When poll indicates that the write will not block, it means that at
-	 * least PIPE_BUF bytes can be written without blocking, or that an
-	 * error occured on the file descriptor, in which case the write is
-	 * expected to fail.
-	 */
-	return mbox_push(box, msg);
+	return res;
 }
 
 int mbox_peek(struct mbox *box, void *msg)
-- 
2.43.0

