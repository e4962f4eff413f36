From 959111ecbc092a96e1223035c4848552556ea623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:11 +0000
Subject: [PATCH 01/45] fix: decode GEOSCOPE 24-bit samples in either byte
 order on little-endian hosts

---
 libmseed/unpackdata.c | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/libmseed/unpackdata.c b/libmseed/unpackdata.c
index 0414b67..231f79e 100644
--- a/libmseed/unpackdata.c
+++ b/libmseed/unpackdata.c
@@ -624,16 +624,10 @@ msr_decode_geoscope (char *input, uint64_t samplecount, float *output,
   int32_t mantissa;  /* mantissa from SEED data */
   int32_t gainrange; /* gain range factor */
   int32_t exponent;  /* total exponent */
-  int32_t k;
   uint64_t exp2val;
   int16_t sint;
   double dsample = 0.0;
 
-  union {
-    uint8_t b[4];
-    uint32_t i;
-  } sample32;
-
   if (samplecount == 0)
     return 0;
 
@@ -655,15 +649,11 @@ msr_decode_geoscope (char *input, uint64_t samplecount, float *output,
     switch (encoding)
     {
     case DE_GEOSCOPE24:
-      sample32.i = 0;
-      if (swapflag)
-        for (k = 0; k < 3; k++)
-          sample32.b[2 - k] = input[k];
+      /* Most significant byte is first unless the data are little-endian */
+      if ((swapflag) ? !ms_bigendianhost () : ms_bigendianhost ())
+        mantissa = ((uint8_t)input[0] << 16) | ((uint8_t)input[1] << 8) | (uint8_t)input[2];
       else
-        for (k = 0; k < 3; k++)
-          sample32.b[1 + k] = input[k];
-
-      mantissa = sample32.i;
+        mantissa = ((uint8_t)input[2] << 16) | ((uint8_t)input[1] << 8) | (uint8_t)input[0];
 
       /* Take 2's complement for mantissa for overflow */
       if ((unsigned long)mantissa > MAX24)
-- 
2.43.0


From 006edae5db52c6b1fbc7c824a933f9e5bd63b844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:11 +0000
Subject: [PATCH 02/45] fix: check encoded data size and sample count before
 decoding

---
 libmseed/unpack.c | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 06a59aa..c89554a 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1279,6 +1279,7 @@ ms_decode_data (const void *input, uint64_t inputsize, uint8_t encoding,
   uint64_t decodedsize; /* byte size of decodeded samples */
   int64_t nsamples; /* number of samples unpacked */
   uint8_t samplesize = 0; /* size of the data samples in bytes */
+  uint8_t encodedsize = 0; /* size of an encoded sample in bytes, 0 for variable */
 
   if (!input || !output || !sampletype)
   {
@@ -1296,10 +1297,43 @@ ms_decode_data (const void *input, uint64_t inputsize, uint8_t encoding,
   /* Calculate buffer size needed for unpacked samples */
   decodedsize = samplecount * samplesize;
 
-  if (decodedsize > outputsize)
+  if (samplesize && samplecount > outputsize / samplesize)
   {
-    ms_log (2, "%s: Output buffer (%"PRIu64" bytes) is not large enought for decoded data (%"PRIu64" bytes)\n",
-            (sid) ? sid : "", decodedsize, outputsize);
+    ms_log (2, "%s: Output buffer (%"PRIu64" bytes) is not large enought for decoded data (%"PRIu64" samples)\n",
+            (sid) ? sid : "", outputsize, samplecount);
+    return MS_GENERROR;
+  }
+
+  /* Determine encoded sample size for fixed-size encodings */
+  switch (encoding)
+  {
+  case DE_TEXT:
+    encodedsize = 1;
+    break;
+  case DE_INT16:
+  case DE_GEOSCOPE163:
+  case DE_GEOSCOPE164:
+  case DE_CDSN:
+  case DE_SRO:
+  case DE_DWWSSN:
+    encodedsize = 2;
+    break;
+  case DE_GEOSCOPE24:
+    encodedsize = 3;
+    break;
+  case DE_INT32:
+  case DE_FLOAT32:
+    encodedsize = 4;
+    break;
+  case DE_FLOAT64:
+    encodedsize = 8;
+    break;
+  }
+
+  if (encodedsize && samplecount > inputsize / encodedsize)
+  {
+    ms_log (2, "%s: Encoded data (%"PRIu64" bytes) is not large enough for %"PRIu64" samples\n",
+            (sid) ? sid : "", inputsize, samplecount);
     return MS_GENERROR;
   }
 
-- 
2.43.0


From 96372d9dd7202d1c869758127fe120917baf5408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:00 +0000
Subject: [PATCH 03/45] fix: keep record payload bounds exact and inside the
 record

---
 libmseed/unpack.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index c89554a..eaad19b 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1034,13 +1034,14 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
   /* Determine offset to data */
   if (msr->formatversion == 3)
   {
-    *dataoffset = MS3FSDH_LENGTH + (uint32_t)strlen (msr->sid) + msr->extralength;
+    *dataoffset = MS3FSDH_LENGTH + *pMS3FSDH_SIDLENGTH (msr->record) + msr->extralength;
     *datasize = msr->datalength;
   }
   else if (msr->formatversion == 2)
   {
     *dataoffset = HO2u (*pMS2FSDH_DATAOFFSET (msr->record), msr->swapflag & MSSWAP_HEADER);
-    *datasize = msr->reclen - *dataoffset;
+    /* An offset of zero indicates no data payload */
+    *datasize = (*dataoffset) ? msr->reclen - *dataoffset : 0;
   }
   else
   {
@@ -1048,6 +1049,15 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
     return MS_GENERROR;
   }
 
+  /* Sanity check that payload is within the record */
+  if (msr->reclen < 0 || *dataoffset > (uint32_t)msr->reclen ||
+      *datasize > (uint32_t)msr->reclen - *dataoffset)
+  {
+    ms_log (2, "%s: Data payload is not within the record, offset: %u, size: %u, record length: %d\n",
+            msr->sid, *dataoffset, *datasize, msr->reclen);
+    return MS_GENERROR;
+  }
+
   /* If a fixed sample length encoding, calculate size and use if less
    * than otherwise determined. */
   if (msr->encoding == DE_TEXT ||
@@ -1074,7 +1084,7 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
     rawsize = msr->samplecnt * samplebytes;
 
     if (rawsize < *datasize)
-      *datasize = (uint16_t)rawsize;
+      *datasize = (uint32_t)rawsize;
   }
 
   /* If datasize is a multiple of 64-bytes and a Steim encoding, test for
@@ -1083,7 +1093,7 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
       (msr->encoding == DE_STEIM1 || msr->encoding == DE_STEIM2))
   {
     while (*datasize > 0 &&
-           memcmp (msr->record + (*datasize - 64), nullframe, 64) == 0)
+           memcmp (msr->record + *dataoffset + (*datasize - 64), nullframe, 64) == 0)
     {
       *datasize -= 64;
     }
-- 
2.43.0


From 55682e11c91d4bff93d4de3eaa5b71e451ab788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:58 +0000
Subject: [PATCH 04/45] fix: CRC-32C of unaligned input shorter than the
 leading bytes

---
 libmseed/crc32c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/crc32c.c b/libmseed/crc32c.c
index d553409..1a0673d 100644
--- a/libmseed/crc32c.c
+++ b/libmseed/crc32c.c
@@ -328,7 +328,7 @@ static inline uint32_t s_crc_generic_align(
     size_t leading = (4 - input_alignment) & 0x3;
 
     /* Determine what's left without the leading input bytes (might be negative)*/
-    size_t remaining = *length - leading;
+    int remaining = *length - (int)leading;
 
     /* Process unaligned leading input bytes one at a time*/
     if (leading && remaining > 0) {
-- 
2.43.0


From 6c306cdafaabe5f5eff6c5389b319a7afcaada0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:41 +0000
Subject: [PATCH 05/45] fix: refuse day-of-month 0

---
 libmseed/genutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 8a2b650..e1afdf4 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -124,7 +124,7 @@ static const int monthdays_leap[] = {31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30,
 #define VALIDMONTH(month) (month >= 1 && month <= 12)
 
 /* Check that a day-of-month is in a valid range */
-#define VALIDMONTHDAY(year, month, mday) (mday >= 0 && mday <= (LEAPYEAR (year) ? monthdays_leap[month - 1] : monthdays[month - 1]))
+#define VALIDMONTHDAY(year, month, mday) (mday >= 1 && mday <= (LEAPYEAR (year) ? monthdays_leap[month - 1] : monthdays[month - 1]))
 
 /* Check that a day-of-year is in a valid range */
 #define VALIDYEARDAY(year, yday) (yday >= 1 && yday <= (365 + (LEAPYEAR (year) ? 1 : 0)))
-- 
2.43.0


From 081b6ff3673fbb46306d98c2900ba6dd38bbe33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:47 +0000
Subject: [PATCH 06/45] fix: record detection stays inside the buffer and does
 not overflow lengths

---
 libmseed/parseutils.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index 0ce29ec..e7e1cb0 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -204,7 +204,7 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
   {
     *formatversion = 3;
 
-    reclen = MS3FSDH_LENGTH                   /* Length of fixed portion of header */
+    reclen = (int64_t)MS3FSDH_LENGTH          /* Length of fixed portion of header */
              + *pMS3FSDH_SIDLENGTH (record)   /* Length of source identifier */
              + *pMS3FSDH_EXTRALENGTH (record) /* Length of extra headers */
              + *pMS3FSDH_DATALENGTH (record); /* Length of data payload */
@@ -215,6 +215,10 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
   {
     *formatversion = 2;
 
+    /* Cannot determine length without the complete fixed section header */
+    if (recbuflen < 48)
+      return 0;
+
     /* Check to see if byte swapping is needed by checking for sane year and day */
     if (!MS_ISVALIDYEARDAY (*pMS2FSDH_YEAR(record), *pMS2FSDH_DAY(record)))
       swapflag = 1;
@@ -224,7 +228,7 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
     /* Loop through blockettes as long as number is non-zero and viable */
     while (blkt_offset != 0 &&
            blkt_offset > 47 &&
-           blkt_offset <= recbuflen)
+           (uint64_t)(blkt_offset + 4) <= recbuflen)
     {
       memcpy (&blkt_type, record + blkt_offset, 2);
       memcpy (&next_blkt, record + blkt_offset + 2, 2);
@@ -239,6 +243,14 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
       if (blkt_type == 1000 &&
           (uint64_t)(blkt_offset + 8) <= recbuflen)
       {
+        /* Length exponent must be representable */
+        if (*pMS2B1000_RECLEN (record + blkt_offset) > 62)
+        {
+          ms_log (2, "Invalid record length exponent: %u\n",
+                  *pMS2B1000_RECLEN (record + blkt_offset));
+          return -1;
+        }
+
         foundlen = 1;
 
         /* Field 3 of B1000 is a uint8_t value describing the record
-- 
2.43.0


From 179cebf8fe91d8a9f2062e8de47a4965d1a1a3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:11 +0000
Subject: [PATCH 07/45] fix: keep the sign of Unix epoch time strings between
 -1 and 0 seconds

---
 libmseed/genutils.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index e1afdf4..9b9f797 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -936,6 +936,7 @@ ms_nstime2timestr (nstime_t nstime, char *timestr,
   int submicro;
   int printed  = 0;
   int expected = 0;
+  const char *sign = "";
 
   if (!timestr)
   {
@@ -955,6 +956,16 @@ ms_nstime2timestr (nstime_t nstime, char *timestr,
     rawnanosec *= -1;
   }
 
+  /* Unix epoch values are printed as sign and magnitude: use magnitude of fractional seconds,
+   * and retain the sign when there are no whole seconds to carry it */
+  if (timeformat == UNIXEPOCH)
+  {
+    nanosec = rawnanosec;
+
+    if (nstime < 0 && rawisec == 0)
+      sign = "-";
+  }
+
   /* Determine microsecond and sub-microsecond values */
   microsec = nanosec / 1000;
   submicro = nanosec - (microsec * 1000);
@@ -1052,7 +1063,7 @@ ms_nstime2timestr (nstime_t nstime, char *timestr,
       break;
     case UNIXEPOCH:
       expected = -1;
-      printed  = snprintf (timestr, 22, "%" PRId64 ".%06d", rawisec, rawnanosec / 1000);
+      printed  = snprintf (timestr, 22, "%s%" PRId64 ".%06d", sign, rawisec, rawnanosec / 1000);
       break;
     case NANOSECONDEPOCH:
       expected = -1;
@@ -1096,7 +1107,7 @@ ms_nstime2timestr (nstime_t nstime, char *timestr,
       break;
     case UNIXEPOCH:
       expected = -1;
-      printed  = snprintf (timestr, 22, "%" PRId64 ".%09d", rawisec, rawnanosec);
+      printed  = snprintf (timestr, 22, "%s%" PRId64 ".%09d", sign, rawisec, rawnanosec);
       break;
     case NANOSECONDEPOCH:
       expected = -1;
@@ -1365,7 +1376,7 @@ ms_timestr2nstime (const char *timestr)
 
     if (fsec != 0.0)
     {
-      if (nstime >= 0)
+      if (timestr[0] != '-')
         nstime += (int)(fsec * 1000000000.0 + 0.5);
       else
         nstime -= (int)(fsec * 1000000000.0 + 0.5);
-- 
2.43.0


From 6ad78f9636949465dd3f9804bdb4581d94945e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:40 +0000
Subject: [PATCH 08/45] fix: refuse times beyond the representable range
 instead of wrapping

---
 libmseed/genutils.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 9b9f797..f25f871 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -1177,7 +1177,7 @@ ms_nstime2timestrz (nstime_t nstime, char *timestr,
 static nstime_t
 ms_time2nstime_int (int year, int yday, int hour, int min, int sec, uint32_t nsec)
 {
-  nstime_t nstime;
+  int64_t isec;
   int shortyear;
   int a4, a100, a400;
   int intervening_leap_days;
@@ -1192,9 +1192,17 @@ ms_time2nstime_int (int year, int yday, int hour, int min, int sec, uint32_t nse
 
   days = (365 * (shortyear - 70) + intervening_leap_days + (yday - 1));
 
-  nstime = (nstime_t) (60 * (60 * ((nstime_t)24 * days + hour) + min) + sec) * NSTMODULUS + nsec;
+  isec = 60 * (60 * ((nstime_t)24 * days + hour) + min) + sec;
+
+  /* The largest representable time is within year 2262 */
+  if (isec > INT64_MAX / NSTMODULUS ||
+      (isec == INT64_MAX / NSTMODULUS && nsec > INT64_MAX % NSTMODULUS))
+  {
+    ms_log (2, "time is out of range: %d,%d,%02d:%02d:%02d.%09u\n", year, yday, hour, min, sec, nsec);
+    return NSTERROR;
+  }
 
-  return nstime;
+  return (nstime_t)isec * NSTMODULUS + nsec;
 } /* End of ms_time2nstime_int() */
 
 
@@ -1299,6 +1307,7 @@ ms_timestr2nstime (const char *timestr)
   int fields;
   int64_t sec = 0;
   double fsec = 0.0;
+  int nsec = 0;
   nstime_t nstime;
 
   if (!timestr)
@@ -1371,17 +1380,21 @@ ms_timestr2nstime (const char *timestr)
       return NSTERROR;
     }
 
-    /* Convert seconds and fractional seconds to nanoseconds, return combination */
-    nstime = MS_EPOCH2NSTIME (sec);
-
     if (fsec != 0.0)
+      nsec = (int)(fsec * 1000000000.0 + 0.5);
+
+    if (sec > INT64_MAX / NSTMODULUS || sec < -(INT64_MAX / NSTMODULUS) ||
+        ((sec == INT64_MAX / NSTMODULUS || sec == -(INT64_MAX / NSTMODULUS)) &&
+         nsec > INT64_MAX % NSTMODULUS))
     {
-      if (timestr[0] != '-')
-        nstime += (int)(fsec * 1000000000.0 + 0.5);
-      else
-        nstime -= (int)(fsec * 1000000000.0 + 0.5);
+      ms_log (2, "Epoch value is out of range: '%s'\n", timestr);
+      return NSTERROR;
     }
 
+    /* Convert seconds and fractional seconds to nanoseconds, return combination */
+    nstime = MS_EPOCH2NSTIME (sec);
+    nstime += (timestr[0] != '-') ? nsec : -nsec;
+
     return nstime;
   }
   /* Otherwise, a non-epoch value time string */
-- 
2.43.0


From 50b61b7d3a1f1dc211496bf549b9525cc656e676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:35 +0000
Subject: [PATCH 09/45] fix: match escaped characters literally and stop at a
 pattern's end in glob matching

---
 libmseed/selection.c | 6 ++++++
 src/msi.c            | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index cd7cb31..a0cbbe2 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -903,6 +903,10 @@ ms_globmatch (const char *string, const char *pattern)
         }
       }
 
+      /* The pattern ended within the set */
+      if (!c)
+        return GLOBMATCH_FALSE;
+
       if (negate == match)
         return GLOBMATCH_FALSE;
 
@@ -916,6 +920,8 @@ ms_globmatch (const char *string, const char *pattern)
     case '\\':
       if (*pattern)
         c = *pattern++;
+      if (c != *string)
+        return GLOBMATCH_FALSE;
       break;
 
     default:
diff --git a/src/msi.c b/src/msi.c
index 4497db3..34ce77d 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -953,6 +953,10 @@ my_globmatch (const char *string, const char *pattern)
         }
       }
 
+      /* The pattern ended within the set */
+      if (!c)
+        return GLOBMATCH_FALSE;
+
       if (negate == match)
         return GLOBMATCH_FALSE;
 
-- 
2.43.0


From 5fa469f17988301e759b14a3749b6d0488f6eb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:48 +0000
Subject: [PATCH 10/45] fix: do not read one byte past a full-width string
 field

utf8length_int() tested str[maxlength] before testing the bound.
---
 libmseed/genutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index f25f871..1a08680 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -549,7 +549,7 @@ utf8length_int (const char *str, int maxlength)
   int length = 0;
   int offset;
 
-  for (offset = 0; str[offset] && offset < maxlength; offset++)
+  for (offset = 0; offset < maxlength && str[offset]; offset++)
   {
     type = utf8d[(uint8_t)str[offset]];
     state = utf8d[256 + state * 16 + type];
-- 
2.43.0


From 9743e4c3ba80632f55514f2bc673e04809dcb48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:38 +0000
Subject: [PATCH 11/45] fix: do not index past a truncated log message when
 stripping its newline

With the message registry enabled, rlog_int() indexed the message with the
untruncated printed length: out of bounds for messages longer than
MAX_LOG_MSG_LENGTH, and before the array for empty messages.
---
 libmseed/logging.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libmseed/logging.c b/libmseed/logging.c
index 32b3859..2554b7c 100644
--- a/libmseed/logging.c
+++ b/libmseed/logging.c
@@ -409,10 +409,12 @@ rlog_int (MSLogParam *logp, const char *function, int level,
   /* Add warning/error message to registry if enabled */
   if (level >= 1 && logp->registry.maxmessages > 0)
   {
-    /* Remove trailing newline if present */
-    if (message[printed - 1] == '\n')
+    size_t length = strlen (message);
+
+    /* Remove trailing newline if present, the message may have been truncated */
+    if (length > 0 && message[length - 1] == '\n')
     {
-      message[printed - 1] = '\0';
+      message[length - 1] = '\0';
       printed -= 1;
     }
 
-- 
2.43.0


From a61fc094417f3cd4959cab84f3baf5b6584f87f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:45 +0000
Subject: [PATCH 12/45] fix: return the number of messages emitted from
 ms_rlog_emit()

The documented return value was never counted, 0 was always returned.
---
 libmseed/logging.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmseed/logging.c b/libmseed/logging.c
index 2554b7c..22f6294 100644
--- a/libmseed/logging.c
+++ b/libmseed/logging.c
@@ -579,6 +579,7 @@ ms_rlog_emit (MSLogParam *logp, int count, int context)
   char local_message[MAX_LOG_MSG_LENGTH];
   char *message = NULL;
   int emit = (count > 0) ? count : -1;
+  int emitted = 0;
 
   if (!logp)
     logp = &gMSLogParam;
@@ -617,13 +618,14 @@ ms_rlog_emit (MSLogParam *logp, int count, int context)
     }
 
     print_message_int (logp, logprint->level, message, "\n");
+    emitted++;
 
     logentry = logprint->next;
     free (logprint);
     logprint = logentry;
   }
 
-  return 0;
+  return emitted;
 } /* End of ms_rlog_emit() */
 
 
-- 
2.43.0


From f234dce08d98dc2afadce23f16ecd754333f9c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:27 +0000
Subject: [PATCH 13/45] fix: use the SEED lengths of blockettes 200, 201, 300,
 310, 320 and 500

ms2_blktlen() returned smaller values, so fields of these blockettes were
read beyond the end of a truncated record.
---
 libmseed/unpack.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index eaad19b..dafdd10 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1618,19 +1618,19 @@ ms2_blktlen (uint16_t blkttype, const char *blkt, int8_t swapflag)
     blktlen = 12;
     break;
   case 200: /* Generic Event Detection */
-    blktlen = 28;
+    blktlen = 52;
     break;
   case 201: /* Murdock Event Detection */
-    blktlen = 36;
+    blktlen = 60;
     break;
   case 300: /* Step Calibration */
-    blktlen = 32;
+    blktlen = 60;
     break;
   case 310: /* Sine Calibration */
-    blktlen = 32;
+    blktlen = 60;
     break;
   case 320: /* Pseudo-random Calibration */
-    blktlen = 28;
+    blktlen = 64;
     break;
   case 390: /* Generic Calibration */
     blktlen = 28;
@@ -1642,7 +1642,7 @@ ms2_blktlen (uint16_t blkttype, const char *blkt, int8_t swapflag)
     blktlen = 16;
     break;
   case 500: /* Timing */
-    blktlen = 8;
+    blktlen = 200;
     break;
   case 1000: /* Data Only SEED */
     blktlen = 8;
-- 
2.43.0


From 0c5e1e50de6b8aa6cc7ce2ffb380c2336fdf2282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:27 +0000
Subject: [PATCH 14/45] fix: do not read a blockette header beyond the end of a
 miniSEED 2 record

The last 1 to 3 bytes of a record were accepted as the start of a blockette,
and the length field of a blockette 2000 was read without checking for it.
---
 libmseed/unpack.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index dafdd10..c595c9b 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -412,7 +412,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   blkt_offset = HO2u (*pMS2FSDH_BLOCKETTEOFFSET (record), msr->swapflag);
 
   while ((blkt_offset != 0) &&
-         (blkt_offset < reclen) &&
+         (blkt_offset + 4 <= reclen) &&
          (blkt_offset < MAXRECLEN))
   {
     /* Every blockette has a similar 4 byte header: type and next */
@@ -425,6 +425,13 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       ms_gswap2 (&next_blkt);
     }
 
+    /* The length of a blockette 2000 is in the 2 bytes following the header */
+    if (blkt_type == 2000 && (blkt_offset + 6) > reclen)
+    {
+      ms_log (2, "%s: Blockette %d extends beyond record size, truncated?\n", msr->sid, blkt_type);
+      break;
+    }
+
     /* Get blockette length */
     blkt_length = ms2_blktlen (blkt_type, record + blkt_offset, msr->swapflag);
 
-- 
2.43.0


From 2402ceea48b7b862c9a6ca5e323b9b75d0bc94c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:27 +0000
Subject: [PATCH 15/45] fix: refuse a Blockette 1000 record length larger than
 the record

A second Blockette 1000, or one found only when unpacking, could set a record
length beyond the supplied buffer and lead to reads outside of it.
---
 libmseed/unpack.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index c595c9b..8e7ede5 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -828,8 +828,18 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
     {
       B1000offset = blkt_offset;
 
-      /* Calculate record length in bytes as 2^(B1000->reclen) */
-      msr->reclen = (uint32_t)1 << *pMS2B1000_RECLEN (record + blkt_offset);
+      /* Calculate record length in bytes as 2^(B1000->reclen), must be within specified length */
+      if (*pMS2B1000_RECLEN (record + blkt_offset) > 30 ||
+          ((int32_t)1 << *pMS2B1000_RECLEN (record + blkt_offset)) > reclen)
+      {
+        ms_log (2, "%s: Record length in Blockette 1000 (2^%d) is larger than the record (%d)\n",
+                msr->sid, *pMS2B1000_RECLEN (record + blkt_offset), reclen);
+        if (parsestate)
+          mseh_free_parsestate (&parsestate);
+        return MS_GENERROR;
+      }
+
+      msr->reclen = (int32_t)1 << *pMS2B1000_RECLEN (record + blkt_offset);
 
       /* Compare against the specified length */
       if (msr->reclen != reclen && verbose)
-- 
2.43.0


From af2eb6e2f054619501dfe914602fc8cc41477866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:27 +0000
Subject: [PATCH 16/45] fix: refuse a miniSEED 2 data offset beyond the record
 length

The payload length was calculated as a negative value wrapped to unsigned.
---
 libmseed/unpack.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 8e7ede5..a6cc37f 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -964,6 +964,12 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   }
 
   msr->datalength = HO2u (*pMS2FSDH_DATAOFFSET (record), msr->swapflag);
+  if (msr->datalength > (uint32_t)msr->reclen)
+  {
+    ms_log (2, "%s: Data offset in fixed header (%u) is beyond the record length (%d)\n",
+            msr->sid, msr->datalength, msr->reclen);
+    return MS_GENERROR;
+  }
   if (msr->datalength > 0)
     msr->datalength = msr->reclen - msr->datalength;
 
-- 
2.43.0


From 710cc05add48beaf2e9c1c5630c99ad221b55bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:27 +0000
Subject: [PATCH 17/45] fix: leave space to terminate full-width Blockette 500
 strings

The 16 byte exception type and 128 byte clock status are copied with a
terminator, which wrote one byte beyond their destinations.
---
 libmseed/libmseed.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/libmseed.h b/libmseed/libmseed.h
index c0e1f92..7e347e6 100644
--- a/libmseed/libmseed.h
+++ b/libmseed/libmseed.h
@@ -883,8 +883,8 @@ typedef struct MSEHTimingException
   int usec; /**< [DEPRECATED] microsecond time offset, 0 = not included */
   int receptionquality; /**< Reception quality, 0 to 100% clock accurracy, <0 = not included */
   uint32_t count; /**< The count thereof, 0 = not included */
-  char type[16]; /**< E.g. "MISSING" or "UNEXPECTED", zero length = not included */
-  char clockstatus[128]; /**< Description of clock-specific parameters, zero length = not included */
+  char type[17]; /**< E.g. "MISSING" or "UNEXPECTED", zero length = not included */
+  char clockstatus[129]; /**< Description of clock-specific parameters, zero length = not included */
 } MSEHTimingException;
 
 /**
-- 
2.43.0


From 719c8f684524901c8856f839df27d39ad68f39d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:07 +0000
Subject: [PATCH 18/45] fix: refuse values outside the 16-bit range when
 packing 16-bit integers

---
 libmseed/packdata.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libmseed/packdata.c b/libmseed/packdata.c
index 8187f94..6a1fa30 100644
--- a/libmseed/packdata.c
+++ b/libmseed/packdata.c
@@ -75,6 +75,12 @@ msr_encode_int16 (int32_t *input, uint64_t samplecount, int16_t *output,
 
   for (idx = 0; idx < samplecount && outputlength >= sizeof (int16_t); idx++)
   {
+    if (input[idx] < INT16_MIN || input[idx] > INT16_MAX)
+    {
+      ms_log (2, "Sample value %d cannot be represented in 16-bit integer encoding\n", input[idx]);
+      return -1;
+    }
+
     output[idx] = (int16_t)input[idx];
 
     if (swapflag)
-- 
2.43.0


From 46a141ba87f82d4a96cd2d31d532ab7621f25dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:45 +0000
Subject: [PATCH 19/45] fix: give every miniSEED 2 record of a split its own
 microsecond start time

---
 libmseed/pack.c | 76 ++++++++++++++++++++++++++++---------------------
 1 file changed, 43 insertions(+), 33 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index d9a97dc..a55239a 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -578,6 +578,34 @@ msr3_pack_header3 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
   return (MS3FSDH_LENGTH + (int)sidlength + msr->extralength);
 } /* End of msr3_pack_header3() */
 
+/***************************************************************************
+ * Determine the offset to encoded data for a miniSEED 2 record with a
+ * header of the specified length, clear any space between the header and
+ * the data and set the offset in the header.
+ *
+ * Returns the data offset.
+ ***************************************************************************/
+static int
+ms2_set_dataoffset (char *record, int headerlen, uint8_t encoding, int8_t swapflag)
+{
+  int dataoffset = headerlen;
+
+  /* Steim frames are aligned to 64 bytes */
+  if (encoding == DE_STEIM1 || encoding == DE_STEIM2)
+  {
+    dataoffset = 64;
+    while (dataoffset < headerlen)
+      dataoffset += 64;
+
+    /* Zero memory between blockettes and data if any */
+    memset (record + headerlen, 0, dataoffset - headerlen);
+  }
+
+  *pMS2FSDH_DATAOFFSET(record) = HO2u (dataoffset, swapflag);
+
+  return dataoffset;
+} /* End of ms2_set_dataoffset() */
+
 /***************************************************************************
  * msr3_pack_mseed2:
  *
@@ -611,12 +639,7 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
 
   uint32_t datalength;
   nstime_t nextstarttime;
-  uint16_t year;
-  uint16_t day;
-  uint8_t hour;
-  uint8_t min;
-  uint8_t sec;
-  uint32_t nsec;
+  MS3Record nextmsr;
 
   if (!msr)
   {
@@ -701,23 +724,8 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
     return -1;
   }
 
-  /* Determine offset to encoded data */
-  if (encoding == DE_STEIM1 || encoding == DE_STEIM2)
-  {
-    dataoffset = 64;
-    while (dataoffset < headerlen)
-      dataoffset += 64;
-
-    /* Zero memory between blockettes and data if any */
-    memset (rawrec + headerlen, 0, dataoffset - headerlen);
-  }
-  else
-  {
-    dataoffset = headerlen;
-  }
-
-  /* Set data offset in header */
-  *pMS2FSDH_DATAOFFSET(rawrec) = HO2u (dataoffset, swapflag);
+  /* Determine offset to encoded data and set in header */
+  dataoffset = ms2_set_dataoffset (rawrec, headerlen, encoding, swapflag);
 
   /* Determine the max data bytes and sample count */
   maxdatabytes = reclen - dataoffset;
@@ -738,7 +746,7 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   /* Allocate space for encoded data separately for alignment */
   if (msr->numsamples > 0)
   {
-    encoded = (char *)libmseed_memory.malloc (maxdatabytes);
+    encoded = (char *)libmseed_memory.malloc (reclen);
 
     if (encoded == NULL)
     {
@@ -810,21 +818,23 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
     /* Update record start time for next record */
     nextstarttime = ms_sampletime (msr->starttime, totalpackedsamples, msr->samprate);
 
-    if (ms_nstime2time (nextstarttime, &year, &day, &hour, &min, &sec, &nsec))
+    /* Rebuild the header for the next record: whether a Blockette 1001 is needed,
+       and the microseconds it contains, depend on the start time of each record */
+    nextmsr = *msr;
+    nextmsr.starttime = nextstarttime;
+
+    memset (rawrec, 0, MS2FSDH_LENGTH);
+    headerlen = msr3_pack_header2 (&nextmsr, rawrec, reclen, verbose);
+
+    if (headerlen < 0)
     {
-      ms_log (2, "%s: Cannot convert next record starttime: %" PRId64 "\n",
-              msr->sid, nextstarttime);
       libmseed_memory.free (encoded);
       libmseed_memory.free (rawrec);
       return -1;
     }
 
-    *pMS2FSDH_YEAR (rawrec) = HO2u (year, swapflag);
-    *pMS2FSDH_DAY (rawrec)  = HO2u (day, swapflag);
-    *pMS2FSDH_HOUR (rawrec) = hour;
-    *pMS2FSDH_MIN (rawrec)  = min;
-    *pMS2FSDH_SEC (rawrec)  = sec;
-    *pMS2FSDH_FSEC (rawrec) = HO2u ((nsec / 100000), swapflag);
+    dataoffset = ms2_set_dataoffset (rawrec, headerlen, encoding, swapflag);
+    maxdatabytes = reclen - dataoffset;
   }
 
   if (verbose >= 2)
-- 
2.43.0


From 9b3a81060e7a0bbed175a8a49c4bc9c6733a765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:16 +0000
Subject: [PATCH 20/45] fix: check the whole repacked record against the
 destination buffer

---
 libmseed/pack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index a55239a..8029c22 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -438,10 +438,10 @@ msr3_repack_mseed3 (const MS3Record *msr, char *record, uint32_t recbuflen,
     return -1;
   }
 
-  if (recbuflen < (uint32_t)(MS3FSDH_LENGTH + msr->extralength + origdatasize))
+  if (recbuflen < (uint32_t)(dataoffset + origdatasize))
   {
     ms_log (2, "%s: Destination record buffer length (%u) is not large enough for record (%d)\n",
-            msr->sid, recbuflen, (MS3FSDH_LENGTH + msr->extralength + origdatasize));
+            msr->sid, recbuflen, (dataoffset + origdatasize));
     return -1;
   }
 
-- 
2.43.0


From b34033eb1ecc4035435541f7b8bbf04e303386eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:16 +0000
Subject: [PATCH 21/45] fix: write repacked payloads in the byte order of
 miniSEED 3

---
 libmseed/pack.c | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 8029c22..5b6bce9 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -399,6 +399,9 @@ msr3_repack_mseed3 (const MS3Record *msr, char *record, uint32_t recbuflen,
   uint32_t origdatasize;
   uint32_t crc;
   uint32_t reclen;
+  uint32_t samplewidth;
+  uint32_t idx;
+  uint32_t byte;
   int8_t swapflag;
 
   if (!msr || !msr->record || ! record)
@@ -450,6 +453,42 @@ msr3_repack_mseed3 (const MS3Record *msr, char *record, uint32_t recbuflen,
   /* Copy encoded data into record */
   memcpy (record + dataoffset, msr->record + origdataoffset, origdatasize);
 
+  /* Payloads of miniSEED 3 are little endian, except Steim encodings that are big endian.
+     Reverse the byte order of the samples if the original payload is big endian. */
+  if (((msr->swapflag & MSSWAP_PAYLOAD) ? 1 : 0) != ms_bigendianhost ())
+  {
+    switch (msr->encoding)
+    {
+    case DE_INT16:
+    case DE_GEOSCOPE163:
+    case DE_GEOSCOPE164:
+    case DE_CDSN:
+    case DE_SRO:
+    case DE_DWWSSN:
+      samplewidth = 2;
+      break;
+    case DE_GEOSCOPE24:
+      samplewidth = 3;
+      break;
+    case DE_INT32:
+    case DE_FLOAT32:
+      samplewidth = 4;
+      break;
+    case DE_FLOAT64:
+      samplewidth = 8;
+      break;
+    default:
+      samplewidth = 0;
+    }
+
+    if (samplewidth)
+    {
+      for (idx = 0; idx + samplewidth <= origdatasize; idx += samplewidth)
+        for (byte = 0; byte < samplewidth; byte++)
+          record[dataoffset + idx + byte] = msr->record[origdataoffset + idx + samplewidth - 1 - byte];
+    }
+  }
+
   /* Check to see if byte swapping is needed, miniSEED 3 is little endian */
   swapflag = (ms_bigendianhost ()) ? 1 : 0;
 
-- 
2.43.0


From 4fcbf95bab79566d7c54cb31a620de23b667ba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:16 +0000
Subject: [PATCH 22/45] fix: do not write a miniSEED 2 header beyond its buffer

---
 libmseed/pack.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 5b6bce9..d0615f5 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -963,6 +963,13 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
     return -1;
   }
 
+  if (recbuflen < MS2FSDH_LENGTH + 8)
+  {
+    ms_log (2, "%s: Buffer length (%u) is not large enough for fixed header and Blockette 1000\n",
+            msr->sid, recbuflen);
+    return -1;
+  }
+
   /* Check that record length is a power of 2.
    * Power of two if (X & (X - 1)) == 0 */
   if ((reclen & (reclen - 1)) != 0)
@@ -1171,6 +1178,13 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
   /* Add Blockette 1001 if microsecond offset or timing quality is present */
   if (yyjson_ptr_get_uint (ehroot, "/FDSN/Time/Quality", &header_uint) || msec_offset)
   {
+    if ((recbuflen - written) < 8)
+    {
+      ms_log (2, "%s: Record length not large enough for B1001\n", msr->sid);
+      yyjson_doc_free (ehdoc);
+      return -1;
+    }
+
     *next_blockette = HO2u ((uint16_t)written, swapflag);
     next_blockette = pMS2B1001_NEXT (record + written);
     *pMS2FSDH_NUMBLOCKETTES (record) += 1;
@@ -1193,6 +1207,13 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
   /* Add Blockette 100 if sample rate is not well represented by factor/multiplier */
   if (fabs(msr3_sampratehz(msr) - ms_nomsamprate(factor, multiplier)) > 0.0001)
   {
+    if ((recbuflen - written) < 12)
+    {
+      ms_log (2, "%s: Record length not large enough for B100\n", msr->sid);
+      yyjson_doc_free (ehdoc);
+      return -1;
+    }
+
     *next_blockette = HO2u ((uint16_t)written, swapflag);
     next_blockette = pMS2B100_NEXT (record + written);
     *pMS2FSDH_NUMBLOCKETTES (record) += 1;
-- 
2.43.0


From 26e9ab53bd53768e4433a80c13c9d2906fd9400e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:16 +0000
Subject: [PATCH 23/45] fix: round negative time corrections to the nearest
 value when packing

---
 libmseed/pack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index d0615f5..7c8a686 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1145,7 +1145,7 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
 
   if (yyjson_ptr_get_num (ehroot, "/FDSN/Time/Correction", &header_number))
   {
-    *pMS2FSDH_TIMECORRECT (record) = HO4d ((int32_t)(header_number * 10000 + 0.5), swapflag);
+    *pMS2FSDH_TIMECORRECT (record) = HO4d ((int32_t)(header_number * 10000 + ((header_number < 0) ? -0.5 : 0.5)), swapflag);
 
     /* Set time correction applied bit in activity flags.
        Rationale: V3 records do not allow unapplied time corrections and unapplied
-- 
2.43.0


From 9ad67aec85b7040ec8ba4c6262e9acb5395fa045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:16 +0000
Subject: [PATCH 24/45] fix: write at most 6 Murdock event detection SNR values

---
 libmseed/pack.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 7c8a686..0627567 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1396,6 +1396,10 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
             if (!yyjson_is_num (ehsubiterval))
               continue;
 
+            /* Blockette 201 contains 6 values */
+            if (idx >= 6)
+              break;
+
             pMS2B201_MEDSNR (record + written)[idx++] = (uint8_t)yyjson_get_num (ehsubiterval);
           }
         }
-- 
2.43.0


From 93694aba72dd0453ecc6db55acc5583464ebbc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:43 +0000
Subject: [PATCH 25/45] fix: read the undetermined-wave flag of Blockette 200
 as SEED defines it

---
 libmseed/unpack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index a6cc37f..14182de 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -466,8 +466,8 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       eventdetection.signalperiod = HO4f (*pMS2B200_PERIOD (record + blkt_offset), msr->swapflag);
       eventdetection.backgroundestimate = HO4f (*pMS2B200_BACKGROUNDEST (record + blkt_offset), msr->swapflag);
 
-      /* If bit 2 is set, set compression wave according to bit 0 */
-      if (*pMS2B200_FLAGS (record + blkt_offset) & 0x04)
+      /* If bit 2 is set the wave is undetermined, otherwise set wave according to bit 0 */
+      if (!(*pMS2B200_FLAGS (record + blkt_offset) & 0x04))
       {
         if (*pMS2B200_FLAGS (record + blkt_offset) & 0x01)
           strncpy (eventdetection.wave, "DILATATION", sizeof (eventdetection.wave));
-- 
2.43.0


From 003b910d15b7a06ad8eda19dc504a25f2eb1f4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:46 +0000
Subject: [PATCH 26/45] fix: honour an explicit request to swap in
 ms_parse_raw2

---
 libmseed/parseutils.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index e7e1cb0..4e1653e 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -564,10 +564,8 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
   ms2_recordsid (record, sid, sizeof (sid));
 
   /* Check to see if byte swapping is needed by testing the year and day */
-  if (swapflag == -1 && !MS_ISVALIDYEARDAY (*pMS2FSDH_YEAR (record), *pMS2FSDH_DAY (record)))
-    swapflag = 1;
-  else
-    swapflag = 0;
+  if (swapflag == -1)
+    swapflag = !MS_ISVALIDYEARDAY (*pMS2FSDH_YEAR (record), *pMS2FSDH_DAY (record));
 
   if (details > 1)
   {
-- 
2.43.0


From 9321422291e3cd84dc797d76a3b10e4fa37562ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:46 +0000
Subject: [PATCH 27/45] fix: keep ms_parse_raw2 inside the record when walking
 blockettes

---
 libmseed/parseutils.c | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index 4e1653e..e3b12cf 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -817,7 +817,7 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
     const char *blkt_desc;
 
     /* Traverse blockette chain */
-    while (blkt_offset != 0 && blkt_offset < maxreclen)
+    while (blkt_offset != 0 && (blkt_offset + 4) <= maxreclen)
     {
       /* Every blockette has a similar 4 byte header: type and next */
       memcpy (&blkt_type, record + blkt_offset, 2);
@@ -837,18 +837,34 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
         ms_log (0, "              next blockette: %u\n", next_blkt);
       }
 
+      /* The length of a blockette 2000 is in the 2 bytes following the header */
+      if (blkt_type == 2000 && (blkt_offset + 6) > maxreclen)
+      {
+        ms_log (2, "%s: Blockette type %d at offset %d does not fit in record (%d)\n",
+                sid, blkt_type, blkt_offset, maxreclen);
+        retval++;
+        break;
+      }
+
       blkt_length = ms2_blktlen (blkt_type, record + blkt_offset, swapflag);
       if (blkt_length == 0)
       {
         ms_log (2, "%s: Unknown blockette length for type %d\n", sid, blkt_type);
         retval++;
+        break;
+      }
+      if (blkt_type == 2000 && blkt_length < 15)
+      {
+        ms_log (2, "%s: Blockette type %d length is too short: %d\n", sid, blkt_type, blkt_length);
+        retval++;
+        break;
       }
 
       /* Track end of blockette chain */
       endofblockettes = blkt_offset + blkt_length - 1;
 
       /* Sanity check that the blockette is contained in the record */
-      if (endofblockettes > maxreclen)
+      if (endofblockettes >= maxreclen)
       {
         ms_log (2, "%s: Blockette type %d at offset %d with length %d does not fit in record (%d)\n",
                 sid, blkt_type, blkt_offset, blkt_length, maxreclen);
@@ -1286,9 +1302,16 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
 
           /* Crude display of the opaque data headers, hopefully printable */
           if (details > 1)
+          {
+            int headerlength = HO2u(*pMS2B2000_DATAOFFSET (record + blkt_offset), swapflag);
+
+            if (headerlength > blkt_length)
+              headerlength = blkt_length;
+
             ms_log (0, "                     headers: %.*s\n",
-                    (HO2u(*pMS2B2000_DATAOFFSET (record + blkt_offset), swapflag) - 15),
+                    (headerlength > 15) ? headerlength - 15 : 0,
                     pMS2B2000_PAYLOAD (record + blkt_offset));
+          }
         }
       }
 
@@ -1314,7 +1337,7 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
     } /* End of looping through blockettes */
 
     /* Check that the blockette offset is within the maximum record size */
-    if (blkt_offset > maxreclen)
+    if ((blkt_offset + 4) > maxreclen)
     {
       ms_log (2, "%s: Blockette offset (%d) beyond maximum record length (%d)\n",
               sid, blkt_offset, maxreclen);
-- 
2.43.0


From 0f15106d9f8b13d082d133c218802d0b84b9c510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:52 +0000
Subject: [PATCH 28/45] fix: apply a positive sample rate tolerance the right
 way round

---
 libmseed/tracelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 920dede..a7f1cba 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -35,7 +35,7 @@ static uint32_t lm_lcg_r (uint64_t *state);
 static uint8_t lm_random_height (uint8_t maximum, uint64_t *state);
 
 /* Test if two sample rates are similar using either specified tolerance (if positive) or default tolerance */
-#define IS_SAMPRATE_SIMILAR(SR1, SR2, SRT) ((SRT > 0.0) ? fabs (SR1 - SR2) > SRT : MS_ISRATETOLERABLE (SR1, SR2))
+#define IS_SAMPRATE_SIMILAR(SR1, SR2, SRT) ((SRT > 0.0) ? fabs (SR1 - SR2) <= SRT : MS_ISRATETOLERABLE (SR1, SR2))
 
 /**********************************************************************/ /**
  * @brief Initialize a ::MS3TraceList container
-- 
2.43.0


From 25acae54d8fd9b6a699fd43bc24dd2fd1fcab4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:17 +0000
Subject: [PATCH 29/45] fix: detect loss of precision of negative samples and
 before converting any

---
 libmseed/tracelist.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index a7f1cba..702a187 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1402,33 +1402,35 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
   {
     if (seg->sampletype == 'f') /* Convert floats to integers with simple rounding */
     {
-      for (idx = 0; idx < seg->numsamples; idx++)
+      /* Check all samples for loss of sub-integer before converting any, NaN is a loss */
+      for (idx = 0; !truncate && idx < seg->numsamples; idx++)
       {
-        /* Check for loss of sub-integer */
-        if (!truncate && (fdata[idx] - (int32_t)fdata[idx]) > 0.000001)
+        if (!(fabs (fdata[idx] - (int32_t)fdata[idx]) <= 0.000001))
         {
           ms_log (2, "Loss of precision when converting floats to integers, loss: %g\n",
                   (fdata[idx] - (int32_t)fdata[idx]));
           return -1;
         }
+      }
 
+      for (idx = 0; idx < seg->numsamples; idx++)
         idata[idx] = (int32_t) (fdata[idx] + 0.5);
-      }
     }
     else if (seg->sampletype == 'd') /* Convert doubles to integers with simple rounding */
     {
-      for (idx = 0; idx < seg->numsamples; idx++)
+      /* Check all samples for loss of sub-integer before converting any, NaN is a loss */
+      for (idx = 0; !truncate && idx < seg->numsamples; idx++)
       {
-        /* Check for loss of sub-integer */
-        if (!truncate && (ddata[idx] - (int32_t)ddata[idx]) > 0.000001)
+        if (!(fabs (ddata[idx] - (int32_t)ddata[idx]) <= 0.000001))
         {
           ms_log (2, "Loss of precision when converting doubles to integers, loss: %g\n",
                   (ddata[idx] - (int32_t)ddata[idx]));
           return -1;
         }
+      }
 
+      for (idx = 0; idx < seg->numsamples; idx++)
         idata[idx] = (int32_t) (ddata[idx] + 0.5);
-      }
 
       /* Reallocate buffer for reduced size needed, only if not pre-allocating */
       if (libmseed_prealloc_block_size == 0)
-- 
2.43.0


From 00dac073dcb48e99d2b91931ba40bb5d6e21149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:17 +0000
Subject: [PATCH 30/45] fix: round negative samples to the nearest integer when
 converting

---
 libmseed/tracelist.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 702a187..f91e0cf 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1344,8 +1344,9 @@ mstl3_add_recordptr (MS3TraceSeg *seg, const MS3Record *msr, nstime_t endtime, i
  * error will be returned.
  *
  * When converting float & double sample types to integer type a
- * simple rounding is applied by adding 0.5 to the sample value before
- * converting (truncating) to integer.  This compensates for common
+ * simple rounding is applied by adding 0.5 to the sample value (or
+ * subtracting it from negative values) before converting (truncating)
+ * to integer.  This compensates for common
  * machine representations of floating point values, e.g. "40.0"
  * represented by "39.99999999".
  *
@@ -1414,7 +1415,7 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
       }
 
       for (idx = 0; idx < seg->numsamples; idx++)
-        idata[idx] = (int32_t) (fdata[idx] + 0.5);
+        idata[idx] = (int32_t) (fdata[idx] + ((fdata[idx] < 0.0) ? -0.5 : 0.5));
     }
     else if (seg->sampletype == 'd') /* Convert doubles to integers with simple rounding */
     {
@@ -1430,7 +1431,7 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
       }
 
       for (idx = 0; idx < seg->numsamples; idx++)
-        idata[idx] = (int32_t) (ddata[idx] + 0.5);
+        idata[idx] = (int32_t) (ddata[idx] + ((ddata[idx] < 0.0) ? -0.5 : 0.5));
 
       /* Reallocate buffer for reduced size needed, only if not pre-allocating */
       if (libmseed_prealloc_block_size == 0)
-- 
2.43.0


From 293049030bfd301a9753ba7c20f149fd0a1925dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:06 +0000
Subject: [PATCH 31/45] fix: return an error from mstl3_pack when a segment
 cannot be packed

---
 libmseed/tracelist.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index f91e0cf..a6a42f9 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -2030,6 +2030,14 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
       segpackedsamples = 0;
       segpackedrecords = msr3_pack (msr, record_handler, handlerdata, &segpackedsamples, flags, verbose);
 
+      if (segpackedrecords < 0)
+      {
+        msr->datasamples = NULL;
+        msr->extra = NULL;
+        msr3_free (&msr);
+        return -1;
+      }
+
       if (verbose > 1)
       {
         ms_log (0, "Packed %d records for %s segment\n", segpackedrecords, msr->sid);
-- 
2.43.0


From c2e667ceb339e173f3d732a05e4c5bfd6292cc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:06 +0000
Subject: [PATCH 32/45] fix: start a fully packed segment one sample after its
 end

---
 libmseed/tracelist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index a6a42f9..e64e360 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -2046,9 +2046,9 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
       /* If MSF_MAINTAINMSTL not set, adjust segment start time and reduce data array and sample counts */
       if (!(flags & MSF_MAINTAINMSTL) && segpackedsamples > 0)
       {
-        /* Calculate new start time, shortcut when all samples have been packed */
+        /* Calculate new start time, one sample after the end when all samples have been packed */
         if (segpackedsamples == seg->numsamples)
-          seg->starttime = seg->endtime;
+          seg->starttime = ms_sampletime (seg->endtime, 1, seg->samprate);
         else
           seg->starttime = ms_sampletime (seg->starttime, segpackedsamples, seg->samprate);
 
-- 
2.43.0


From 7765e00f993d513fac0f0990c25487e0ea03780b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:06 +0000
Subject: [PATCH 33/45] fix: do not free the extra headers supplied to
 mstl3_pack

---
 libmseed/tracelist.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index e64e360..b3f729d 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -2101,8 +2101,9 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
     id = id->next[0];
   }
 
-  /* The record structure never owns the actual data so it should not free it */
+  /* The record structure never owns the actual data or extra headers so it should not free them */
   msr->datasamples = NULL;
+  msr->extra = NULL;
   msr3_free (&msr);
 
   if (packedsamples)
-- 
2.43.0


From 216595ac9489d18daec984ddfbb2530d0970c354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:23 +0000
Subject: [PATCH 34/45] fix: swap only what the payload needs when unpacking
 record lists

---
 libmseed/tracelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index b3f729d..864a003 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1827,7 +1827,7 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
     unpackedsamples = ms_decode_data (input, recordptr->msr->reclen - recordptr->dataoffset,
                                       (uint8_t)recordptr->msr->encoding, recordptr->msr->samplecnt,
                                       (unsigned char *)output + outputoffset, decodedsize - outputoffset,
-                                      &sampletype, recordptr->msr->swapflag, id->sid, verbose);
+                                      &sampletype, (recordptr->msr->swapflag & MSSWAP_PAYLOAD), id->sid, verbose);
 
     if (unpackedsamples < 0)
     {
-- 
2.43.0


From 39dd2ae9e70a50c37909d5edceefaf37771a39ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:07 +0000
Subject: [PATCH 35/45] fix: refuse selection file times that cannot be
 converted

---
 libmseed/selection.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index a0cbbe2..52b4914 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -553,7 +553,7 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     if (cp)
     {
       starttime = ms_timestr2nstime (cp);
-      if (starttime == NSTUNSET)
+      if (starttime == NSTERROR)
       {
         ms_log (2, "Cannot convert data selection start time (line %d): %s\n", linecount, cp);
         return -1;
@@ -570,7 +570,7 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     if (cp)
     {
       endtime = ms_timestr2nstime (cp);
-      if (endtime == NSTUNSET)
+      if (endtime == NSTERROR)
       {
         ms_log (2, "Cannot convert data selection end time (line %d): %s\n", linecount, cp);
         return -1;
-- 
2.43.0


From 0584f291a1bac6ce23a72bc009ca302e055d8326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:16 +0000
Subject: [PATCH 36/45] fix: do not count unrecognized selection lines

---
 libmseed/selection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index 52b4914..3ce5aeb 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -643,6 +643,7 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     else
     {
       ms_log (1, "%s: Skipping unrecognized data selection on line %d\n", filename, linecount);
+      continue;
     }
 
     selectcount++;
-- 
2.43.0


From 3016e768520f4f4c233660c10c40646c9cda4b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:25 +0000
Subject: [PATCH 37/45] fix: treat the rest of a too-long selection line as
 part of it

---
 libmseed/selection.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index 3ce5aeb..b67fe5c 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -436,6 +436,8 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
   char *fields[MAX_SELECTION_FIELDS];
   char *cp;
   char next;
+  int nextchar;
+  int toolong;
   int selectcount = 0;
   int linecount = 0;
   int fieldidx;
@@ -476,6 +478,17 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     /* Guarantee termination */
     selectline[sizeof (selectline) - 1] = '\0';
 
+    /* Consume the remainder of lines longer than the buffer */
+    toolong = 0;
+    if (strchr (selectline, '\n') == NULL)
+    {
+      while ((nextchar = fgetc (fp)) != EOF && nextchar != '\n')
+      {
+        if (!isspace (nextchar))
+          toolong = 1;
+      }
+    }
+
     line = selectline;
 
     /* Trim trailing whitespace (including newlines, carriage returns, etc.) if any */
@@ -506,6 +519,12 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     if (*line == '#')
       continue;
 
+    if (toolong)
+    {
+      ms_log (2, "%s: Data selection on line %d is too long\n", filename, linecount);
+      return -1;
+    }
+
     /* Set fields array to whitespace delimited fields */
     cp = line;
     next = 0;  /* For this loop: 0 = whitespace, 1 = non-whitespace */
-- 
2.43.0


From 733b47fa7c967a24c5308ceaac48f344e5a01df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:33 +0000
Subject: [PATCH 38/45] fix: refuse path names that do not fit in the file
 parameters

---
 libmseed/fileutils.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 43cd33e..f258f36 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -336,6 +336,14 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
       pathname_range = parse_pathname_range (mspath, &msfp->startoffset, &msfp->endoffset);
     }
 
+    /* Check that the path, without byte range suffix, can be stored */
+    if (((pathname_range) ? (size_t)(pathname_range - mspath) : strlen (mspath)) >= sizeof (msfp->path))
+    {
+      ms_log (2, "Path name is too long: %s\n", mspath);
+      msr3_free (ppmsr);
+      return MS_GENERROR;
+    }
+
     /* Store the path */
     strncpy (msfp->path, mspath, sizeof (msfp->path) - 1);
 
-- 
2.43.0


From 24a0ccfcc832b875446c6e243cd73ebf6b1153f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:42 +0000
Subject: [PATCH 39/45] fix: byte range values beyond 63 bits are not a range

---
 libmseed/fileutils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index f258f36..81cc294 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -1060,6 +1060,10 @@ parse_pathname_range (const char *string, int64_t *start, int64_t *end)
         return NULL;
     }
 
+    /* If values are out of range for offsets, not a valid range */
+    if (strtoull (startstr, NULL, 10) > INT64_MAX || strtoull (endstr, NULL, 10) > INT64_MAX)
+      return NULL;
+
     /* Convert start and end values to numbers if non-zero length */
     if (start && startdigits)
       *start = (int64_t) strtoull (startstr, NULL, 10);
-- 
2.43.0


From 641e3a4507d042ed30fffe346501a6e5099eff95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:52 +0000
Subject: [PATCH 40/45] fix: return 64-bit integers from extra headers

---
 libmseed/extraheaders.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index ae9f896..f2914bf 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -233,7 +233,7 @@ mseh_get_ptr_r (const MS3Record *msr, const char *ptr,
   else if (type == 'i' && yyjson_is_int (extravalue))
   {
     if (value)
-      *((int64_t *)value) = unsafe_yyjson_get_int (extravalue);
+      *((int64_t *)value) = unsafe_yyjson_get_sint (extravalue);
   }
   else if (type == 's' && yyjson_is_str (extravalue))
   {
-- 
2.43.0


From 14862b66f991a2088f8cfd1bb58abbac937f2ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:01 +0000
Subject: [PATCH 41/45] fix: report extra header updates that cannot be
 serialized

---
 libmseed/extraheaders.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index f2914bf..e15cf64 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -462,7 +462,10 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
   /* Serialized extra headers and free parse state if not being retained */
   if (parsestate == NULL)
   {
-    mseh_serialize (msr, &parsed);
+    if (rv == true && mseh_serialize (msr, &parsed) < 0)
+    {
+      rv = false;
+    }
     mseh_free_parsestate (&parsed);
   }
   /* If changes were applied, the immutable form of the document is now invalid */
-- 
2.43.0


From 75847d48e62fc06fc355c6ec6f07a685410ec463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:13 +0000
Subject: [PATCH 42/45] fix: find extra headers set in a parse state of a
 record without any

---
 libmseed/extraheaders.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index e15cf64..b186c1c 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -165,13 +165,13 @@ mseh_get_ptr_r (const MS3Record *msr, const char *ptr,
     return MS_GENERROR;
   }
 
-  /* Nothing can be found in no headers */
-  if (!msr->extralength)
+  /* Nothing can be found in no headers, unless set in the parse state */
+  if (!msr->extralength && !(parsed && parsed->mut_doc))
   {
     return 1;
   }
 
-  if (!msr->extra)
+  if (msr->extralength && !msr->extra)
   {
     ms_log (2, "%s() Expected extra headers (msr->extra) are not present\n", __func__);
     return MS_GENERROR;
-- 
2.43.0


From a9b79d1aa73f0dbb4e6a1945abd0c7b2ddc8033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:34 +0000
Subject: [PATCH 43/45] fix: version 2 records with more than 65535 samples are
 split instead of refused

---
 libmseed/pack.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 0627567..b8bffd7 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -782,6 +782,10 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
     maxsamples = maxdatabytes / samplesize;
   }
 
+  /* The number of samples in a record is limited to the 16-bit header field */
+  if (maxsamples > UINT16_MAX)
+    maxsamples = UINT16_MAX;
+
   /* Allocate space for encoded data separately for alignment */
   if (msr->numsamples > 0)
   {
@@ -805,7 +809,10 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   {
     packsamples = msr_pack_data (encoded,
                                  (char *)msr->datasamples + packoffset,
-                                 (int)(msr->numsamples - totalpackedsamples), maxdatabytes,
+                                 (msr->numsamples - totalpackedsamples > UINT16_MAX)
+                                     ? UINT16_MAX
+                                     : (int)(msr->numsamples - totalpackedsamples),
+                                 maxdatabytes,
                                  msr->sampletype, encoding, swapflag,
                                  &datalength, msr->sid, verbose);
 
-- 
2.43.0


From ec4c2a0a52bba799ffe0a31b4ef8689c15844f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:08 +0000
Subject: [PATCH 44/45] fix: allow the limit value in rational approximations
 of sample rates

ms_ratapprox() is documented to find a numerator and denominator not
larger than maxval, but never accepted maxval itself: a rate of 327.67
samples per second was written as 983/3 instead of 32767/100.
---
 libmseed/pack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index b8bffd7..a817b75 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1947,7 +1947,7 @@ ms_ratapprox (double real, int *num, int *den, int maxval, double precision)
     iterations++;
   }
 
-  if (pnum < maxval && pden < maxval)
+  if (pnum <= maxval && pden <= maxval)
   {
     *num = pnum;
     *den = pden;
-- 
2.43.0


From 382cc66a774d39e41827dadd13a27bd84b732757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:29 +0000
Subject: [PATCH 45/45] fix: use sample periods directly when generating a SEED
 rate factor pair

Converting a period to a rate and back lost the last digits, so that whole
periods near the limit, e.g. 1073053734 seconds, were no longer recognized
as whole numbers and were refused.
---
 libmseed/pack.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index a817b75..31fcbee 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1027,7 +1027,7 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
   msec_offset = ((nsec / 1000) - (fsec * 100));
 
   /* Generate factor & multipler representation of sample rate */
-  if (ms_genfactmult (msr3_sampratehz(msr), &factor, &multiplier))
+  if (ms_genfactmult (msr->samprate, &factor, &multiplier))
   {
     ms_log (2, "%s: Cannot convert sample rate (%g) to factor and multiplier\n", msr->sid, msr->samprate);
     return -1;
@@ -2109,15 +2109,23 @@ ms_reduce_rate (double samprate, int16_t *factor1, int16_t *factor2)
 static int
 ms_genfactmult (double samprate, int16_t *factor, int16_t *multiplier)
 {
+  double period = 0.0;
   int16_t factor1;
   int16_t factor2;
 
   if (!factor || !multiplier)
     return -1;
 
-  /* Convert sample period to sample rate */
+  /* Convert sample period to sample rate, retaining the period */
   if (samprate < 0.0)
-    samprate = -1.0 / samprate;
+  {
+    period   = -samprate;
+    samprate = 1.0 / period;
+  }
+  else if (samprate > 0.0)
+  {
+    period = 1.0 / samprate;
+  }
 
   /* Handle special case of zero */
   if (samprate == 0.0)
@@ -2140,7 +2148,7 @@ ms_genfactmult (double samprate, int16_t *factor, int16_t *multiplier)
   else
   {
     /* Reduce rate as a sample period and invert factor/multiplier */
-    if (ms_reduce_rate (1.0 / samprate, &factor1, &factor2) == 0)
+    if (ms_reduce_rate (period, &factor1, &factor2) == 0)
     {
       *factor     = -factor1;
       *multiplier = -factor2;
-- 
2.43.0

