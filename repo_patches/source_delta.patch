From c5b6b50c3cb347de261f5beabb1097ab2c26f71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 01/36] fix: reject frequency corrections that do not fit in an
 int

abs() truncates its argument to int, so values such as '4294967301' passed
the range check and were silently accepted as 5. Compare the long directly.
---
 src/fpfind/freqcd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 146f0c4..aebcb40 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -129,7 +129,7 @@ int readint(char *buff) {
     long value;
     value = strtol(buff, &end, 10);
     // string is a decimal, zero-terminated, and fits in an int
-    if ((end != buff) && (*end == 0) && (abs(value) < INT_MAX))
+    if ((end != buff) && (*end == 0) && (value > -INT_MAX) && (value < INT_MAX))
         return (int)value;
     return INT_MAX;
 }
-- 
2.43.0


From 633a3e26c5f8572e08207dfebf79a16278b7a62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 02/36] fix: validate '-f' value before it is truncated to an
 int

'-f' was parsed with sscanf("%d"), which silently wraps or truncates
out-of-range values, INT_MIN passed the abs() check, and the '-d' conversion
was cast to int before being range checked.
---
 src/fpfind/freqcd.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index aebcb40..f5c7231 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -193,7 +193,8 @@ int main(int argc, char *argv[]) {
             freqfilename[FNAMELENGTH-1] = 0;  // security termination
             break;
         case 'f':
-            if (sscanf(optarg, "%d", &fcorr) != 1) return -emsg(4);
+            fcorr = readint(optarg);
+            if (fcorr == INT_MAX) return -emsg(4);
             break;
         case 'x':
             islegacy = 1;
@@ -209,8 +210,9 @@ int main(int argc, char *argv[]) {
 
     /* check specified frequency correction is within-bounds */
     // needs to be done after argument reading for position-agnostic '-f'
-    if (isdecimal) fcorr = (int) fcorr * FCORR_DTOB;
-    if (abs(fcorr) >= FCORR_MAX) return -emsg(5);
+    const double fcorr_requested = isdecimal ? fcorr * FCORR_DTOB : fcorr;
+    if (fabs(fcorr_requested) >= FCORR_MAX) return -emsg(5);
+    fcorr = (int) fcorr_requested;
 
     /* set input and output handler */
     int inhandle = 0;  // stdin by default
-- 
2.43.0


From 6d430621d3b03666cf528982d97bf0f3f5bbeea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 03/36] fix: leave correction untouched when a read completes
 no event

A read returning less than one full event left 'tsmeas' and 'tscorr' stale
(or uninitialized), which were nevertheless added to the running correction.
---
 src/fpfind/freqcd.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index f5c7231..e4f03af 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -382,8 +382,10 @@ int main(int argc, char *argv[]) {
             }
 
             /* update reference timestamp to keep within 20 hour overflow condition */
-            tsref = tsmeas;
-            tsoverflowcorr += tscorr;
+            if (eventnum > 0) {
+                tsref = tsmeas;
+                tsoverflowcorr += tscorr;
+            }
         }
 
         // Read frequency correction values
-- 
2.43.0


From efedabdf7e7e6c6312fbb928c6aea9467e4ddbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 04/36] fix: keep correction continuous across timestamp
 rollover

Timestamps are 54 bits wide, so the elapsed time since the reference has to
be taken modulo 2^54. Without it, the first batch of events after a rollover
picks up a huge (and overflowing) correction, which then persists.
---
 src/fpfind/freqcd.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index e4f03af..ba10163 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -88,6 +88,7 @@
 #define RETRYREADWAIT 500000       /* sleep time in usec after an empty read */
 #define FCORR_ARESBITS -34         /* absolute resolution of correction, in power of 2 */
 #define FCORR_AMAXBITS -13         /* absolute maximum allowed correction, in power of 2 */
+#define TS_BITS 54                 /* width of 4ps timestamp, rolls over every 20 hours */
 #define FCORR_DEFAULT 0            /* frequency correction in units of 2^FCORR_ARESBITS */
 #define FCORR_ARESDECIMAL -10      /* absolute resolution of correction, in power of 10, specifically for '-d' mode */
 //#define __DEBUG__                /* global debug flag, uncomment to disable */
@@ -164,6 +165,7 @@ int main(int argc, char *argv[]) {
     const int FCORR_MAX = 1 << (FCORR_AMAXBITS - FCORR_ARESBITS);
     const int FCORR_TBITS1 = -FCORR_AMAXBITS - 1;  // bit truncations when correcting timestamp
     const int FCORR_TBITS2 = (FCORR_AMAXBITS - FCORR_ARESBITS) + 1;
+    const unsigned long long TS_MASK = ((unsigned long long)1 << TS_BITS) - 1;
 
     // Conversion factor for decimal mode, i.e. 1e-10/2^-34 = ~1.7179869
     // Ratio inverted due to negative signs in exponents.
@@ -360,7 +362,7 @@ int main(int argc, char *argv[]) {
                 tsmeas = ((ull)high << 22) | (low >> 10);
 
                 /* calculate timestamp correction */
-                tscorr = ((ll)((tsmeas - tsref) >> FCORR_TBITS1) * fcorr) >> FCORR_TBITS2;
+                tscorr = ((ll)(((tsmeas - tsref) & TS_MASK) >> FCORR_TBITS1) * fcorr) >> FCORR_TBITS2;
                 ts = tsmeas + tscorr + tsoverflowcorr;
 
                 /* write corrected timestamp to output buffer */
-- 
2.43.0


From f8fb42fe340e665c99335eb4858655e98139a045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 05/36] fix: do not accumulate a rounding error with every read

The correction was floored, and the elapsed time truncated, once per read, so
the output depended on how the stream was split into reads: with one event
per read a small correction was lost entirely, and even full buffers drifted
by several resolution steps of the correction. Advance the reference only by
intervals whose correction is exact, or when the correction value changes.
---
 src/fpfind/freqcd.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index ba10163..f9a0e47 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -384,9 +384,12 @@ int main(int argc, char *argv[]) {
             }
 
             /* update reference timestamp to keep within 20 hour overflow condition */
+            // Advance only by multiples of 2^34, over which the correction is an
+            // exact integer, so that rounding errors do not build up per read.
             if (eventnum > 0) {
-                tsref = tsmeas;
-                tsoverflowcorr += tscorr;
+                ull tssteps = ((tsmeas - tsref) & TS_MASK) >> -FCORR_ARESBITS;
+                tsref += tssteps << -FCORR_ARESBITS;
+                tsoverflowcorr += (ll)tssteps * fcorr;
             }
         }
 
@@ -421,7 +424,15 @@ int main(int argc, char *argv[]) {
                 if (freqbuffer[i] == '\n') {
                     freqbuffer[i] = 0;  // zero-terminate for readint
                     fcorr_tmp = readint(&freqbuffer[next_num_idx]);
-                    if (abs(fcorr_tmp) < FCORR_MAX) fcorr = fcorr_tmp;
+                    if (abs(fcorr_tmp) < FCORR_MAX && fcorr_tmp != fcorr) {
+                        // new value applies only from the last event onwards
+                        if (isset_tsref) {
+                            tscorr = ((ll)(((tsmeas - tsref) & TS_MASK) >> FCORR_TBITS1) * fcorr) >> FCORR_TBITS2;
+                            tsref = tsmeas;
+                            tsoverflowcorr += tscorr;
+                        }
+                        fcorr = fcorr_tmp;
+                    }
 #ifdef __DEBUG__
                     fprintf(stderr, "[debug] 'fcorr' updated to '%d'.\n", fcorr);
 #endif
-- 
2.43.0


From c96bac01dfb03b495b1743a5263f70e4159d8f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 06/36] fix: keep frequency values that arrive in more than one
 read

A read that contained no newline was discarded, so a value split across reads
was replaced by its tail (e.g. '340' + '000\n' was read as 0). Always retain
the partial value, and skip lines too long to hold a valid value.
---
 src/fpfind/freqcd.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index f9a0e47..71a3d89 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -441,13 +441,17 @@ int main(int argc, char *argv[]) {
             }
 
             /* clear parsed numbers from freqbuffer */
-            if (next_num_idx > 0) {
-                freqbytespartial = freqbytesread - next_num_idx;
-                for (i = freqbytesread - freqbytespartial, j = 0; j < freqbytespartial; i++, j++) {
-                    freqbuffer[j] = freqbuffer[i];
-                }
-                freqbuffer_next = &freqbuffer[freqbytespartial];
+            freqbytespartial = freqbytesread - next_num_idx;
+            if (freqbytespartial == FREQBUFSIZE - 1) {
+                // line too long to be a valid value: make room to find its end,
+                // retaining a non-digit so that the line remains invalid
+                freqbytespartial = 1;
+                freqbuffer[next_num_idx] = 'x';
+            }
+            for (i = next_num_idx, j = 0; j < freqbytespartial; i++, j++) {
+                freqbuffer[j] = freqbuffer[i];
             }
+            freqbuffer_next = &freqbuffer[freqbytespartial];
         }
 
         // TODO: Shift this back to select call to write only when pipe available,
-- 
2.43.0


From 024d82d5e9dce84139845630a316d9ebc30a6cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 07/36] fix: do not truncate file names to another file

File names longer than the buffer were cut (and overran it by one byte), and
file names with whitespace were cut at the first blank, after which the wrong
file was read, or created and overwritten. Use names whole, or report them.
---
 src/fpfind/freqcd.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 71a3d89..3a97662 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -71,6 +71,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <fcntl.h>   // open, O_RDONLY, O_NONBLOCK
 #include <sys/select.h> // fd_set, usually implicitly declared
 #include <unistd.h>  // getopt, select
@@ -80,7 +81,6 @@
 
 /* default definitions */
 #define FNAMELENGTH 200            /* length of file name buffers */
-#define FNAMEFORMAT "%200s"        /* for sscanf of filenames */
 #define FILE_PERMISSONS 0644       /* for all output files */
 #define INBUFENTRIES 1024          /* max. elements in input buffer */
 #define OUTBUFENTRIES 1024         /* max. elements in output buffer */
@@ -135,6 +135,13 @@ int readint(char *buff) {
     return INT_MAX;
 }
 
+/* for copying filenames, which must be non-empty and fit in FNAMELENGTH */
+int readfname(char *fname, char *buff) {
+    if ((buff[0] == 0) || (strlen(buff) >= FNAMELENGTH)) return -1;
+    strcpy(fname, buff);
+    return 0;
+}
+
 void usage() {
     fprintf(stderr, "\
 Usage: freqcd [-i infilename] [-o outfilename] [-x]\n\
@@ -183,16 +190,13 @@ int main(int argc, char *argv[]) {
     while ((opt = getopt(argc, argv, "i:o:F:f:xdh")) != EOF) {
         switch (opt) {
         case 'i':
-            if (sscanf(optarg, FNAMEFORMAT, infilename) != 1) return -emsg(2);
-            infilename[FNAMELENGTH-1] = 0;  // security termination
+            if (readfname(infilename, optarg)) return -emsg(2);
             break;
         case 'o':
-            if (sscanf(optarg, FNAMEFORMAT, outfilename) != 1) return -emsg(8);
-            outfilename[FNAMELENGTH-1] = 0;  // security termination
+            if (readfname(outfilename, optarg)) return -emsg(8);
             break;
         case 'F':
-            if (sscanf(optarg, FNAMEFORMAT, freqfilename) != 1) return -emsg(10);
-            freqfilename[FNAMELENGTH-1] = 0;  // security termination
+            if (readfname(freqfilename, optarg)) return -emsg(10);
             break;
         case 'f':
             fcorr = readint(optarg);
-- 
2.43.0


From 1988b4815c8c0807dc02ede9538af4c98a4cb0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 08/36] fix: keep full timestamp precision when reading a0 and
 a2 events

Without an explicit type the hex values were held as signed integers: adding
them to unsigned words promoted a0 timestamps to 64-bit floats, dropping the
last bit from 2^53 onwards, and a2 events from 2^63 onwards failed to load.
---
 src/fpfind/lib/parse_timestamps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 24200ab..637aa81 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -105,7 +105,7 @@ def read_a0(
         the function signature to maintain parity with 'read_a1'.
     """
     data = np.genfromtxt(filename, delimiter="\n", dtype="U8")
-    data = np.array([int(v,16) for v in data]).reshape(-1, 2)
+    data = np.array([int(v,16) for v in data], dtype=np.uint64).reshape(-1, 2)
     t = ((np.uint64(data[:, 1]) << 22) + (data[:, 0] >> 10))
     t = _format_timestamps(t, resolution, fractional)
     p = data[:, 0] & 0xF
@@ -135,7 +135,7 @@ def read_a2(
     ):
     """See documentation for 'read_a0'."""
     data = np.genfromtxt(filename, delimiter="\n", dtype="U16")
-    data = np.array([int(v,16) for v in data])
+    data = np.array([int(v,16) for v in data], dtype=np.uint64)
     t = np.uint64(data >> 10)
     t = _format_timestamps(t, resolution, fractional)
     p = data & 0xF
@@ -217,7 +217,7 @@ def sread_a0(
                     break
 
                 data = buffer.strip().split("\n")
-                data = np.array([int(v,16) for v in data]).reshape(-1, 2)
+                data = np.array([int(v,16) for v in data], dtype=np.uint64).reshape(-1, 2)
                 t = ((np.uint64(data[:, 1]) << 22) + (data[:, 0] >> 10))
                 t = _format_timestamps(t, resolution, fractional)
                 p = data[:, 0] & 0xF
@@ -243,7 +243,7 @@ def sread_a2(
                     break
 
                 data = buffer.strip().split("\n")
-                data = np.array([int(v,16) for v in data])
+                data = np.array([int(v,16) for v in data], dtype=np.uint64)
                 t = np.uint64(data >> 10)
                 t = _format_timestamps(t, resolution, fractional)
                 p = data & 0xF
-- 
2.43.0


From c4e8f7da6cd23e525119e7a071bb78dbe1beee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 09/36] fix: read a0 and a2 files containing no or a single
 line

numpy.genfromtxt returns a scalar for a single line, which cannot be iterated.
---
 src/fpfind/lib/parse_timestamps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 637aa81..465ad70 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -104,7 +104,7 @@ def read_a0(
         There is no legacy formatting for event types a0 and a2. Preserved in
         the function signature to maintain parity with 'read_a1'.
     """
-    data = np.genfromtxt(filename, delimiter="\n", dtype="U8")
+    data = np.atleast_1d(np.genfromtxt(filename, delimiter="\n", dtype="U8"))
     data = np.array([int(v,16) for v in data], dtype=np.uint64).reshape(-1, 2)
     t = ((np.uint64(data[:, 1]) << 22) + (data[:, 0] >> 10))
     t = _format_timestamps(t, resolution, fractional)
@@ -134,7 +134,7 @@ def read_a2(
         fractional: bool = True,
     ):
     """See documentation for 'read_a0'."""
-    data = np.genfromtxt(filename, delimiter="\n", dtype="U16")
+    data = np.atleast_1d(np.genfromtxt(filename, delimiter="\n", dtype="U16"))
     data = np.array([int(v,16) for v in data], dtype=np.uint64)
     t = np.uint64(data >> 10)
     t = _format_timestamps(t, resolution, fractional)
-- 
2.43.0


From a8d4e514290ad7c0a1cf21151879fba11d083b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 10/36] fix: report statistics for a single event or no events

The event rate of a zero duration, and the first timestamp of an empty array,
raised an exception instead of completing the report.
---
 src/fpfind/lib/parse_timestamps.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 465ad70..29659df 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -423,8 +423,8 @@ def print_statistics(filename: str, t: list, p: list):
         ch4_counts=count(p & 0b1000 != 0),
         multi_counts=count(np.isin(p, (0, 1, 2, 4, 8), invert=True)),
         non_counts=count(p == 0),
-        start_timestamp=t[0],
-        end_timestamp=t[-1],
+        start_timestamp=t[0] if len(t) != 0 else None,
+        end_timestamp=t[-1] if len(t) != 0 else None,
         patterns=sorted(np.unique(p)),
     )
 
@@ -514,7 +514,8 @@ def print_statistics_report(
         print(f"Duration (s) : {duration:15.9f}")
         print(f"  ~ start    : {start_timestamp*1e-9:>15.9f}")
         print(f"  ~ end      : {end_timestamp*1e-9:>15.9f}")
-        print(f"Event rate (/s) : {int(num_events//duration)}")
+        rate = int(num_events//duration) if duration > 0 else "undefined"
+        print(f"Event rate (/s) : {rate}")
         print(f"Detection patterns: {patterns}")
 
 
-- 
2.43.0


From f86b8f4be9e7a0312ed02f6da5e325ff9b0bba1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 11/36] fix: detect T1 epochs truncated within an event

The missing bytes were taken as zero, so that the last event was returned
with a corrupted timestamp and detector pattern, without an error.
---
 src/fpfind/lib/parse_epochs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 6f472a9..5342d76 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -186,6 +186,8 @@ def read_T1(
         while True:
             event_high = f.read(4)
             event_low = f.read(4)
+            if 0 < len(event_high) + len(event_low) < 8:
+                raise ValueError("File ends in the middle of an event")
 
             value = \
                 (int.from_bytes(event_high, byteorder="little") << 32) \
-- 
2.43.0


From 63d2dbf3e0943cb5f678e0c50562732f8d68d047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 12/36] fix: detect T2 and T4 epochs without termination bits

Reading past the end of a truncated file supplied an endless stream of zeros,
so that the readers looped forever while accumulating bogus events.
---
 src/fpfind/lib/parse_epochs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 5342d76..fb9b1e0 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -266,8 +266,11 @@ def extract_bits(msb_size: int, buffer: int, size: int, fileobject=None):
     """
     # Append word from fileobject if insufficient bits
     if size < msb_size and fileobject:
+        word = fileobject.read(4)
+        if len(word) < 4:
+            raise ValueError("File ended before termination bits were found")
         buffer <<= 32
-        buffer += int.from_bytes(fileobject.read(4), byteorder="little")
+        buffer += int.from_bytes(word, byteorder="little")
         size += 32
 
     # Extract MSB from buffer
-- 
2.43.0


From f8f3d3388e4c613f918958d6a66b11ba6e27826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 13/36] fix: read T2 epochs as integers with 4ps resolution

Adding a Python integer to a numpy uint64 yields a float, which cannot be
shifted to the higher resolution.
---
 src/fpfind/lib/parse_epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index fb9b1e0..f3b2b56 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -314,7 +314,7 @@ def read_T2(
     # Add 17-bit epoch LSB as per regular timestamp spec,
     # i.e. (17-bit epoch LSB)(32-bit timestamp) => 49-bits
     epoch_lsb = header.epoch & ((1 << 17) - 1)
-    timestamp = np.uint64(epoch_lsb << 32)  # current timestamp, deltas stored in T2
+    timestamp = int(epoch_lsb << 32)  # current timestamp, deltas stored in T2
     buffer = 0
     size = 0  # number of bits in buffer
     with open(filename, "rb") as f:
-- 
2.43.0


From 923c4e15154d087d42c1bab460e405ca8d62f73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 14/36] fix: write T1 epochs from numpy timestamps

Fixed width numpy integers either overflow or are promoted to floats when
combined with the epoch.
---
 src/fpfind/lib/parse_epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index f3b2b56..9e27029 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -411,7 +411,7 @@ def write_T1(directory, full_epoch, timestamps, detectors):
         # 17-bit LSB epoch fits into a timestamp event
         timestamp_epoch = ((full_epoch & ((1<<17)-1)) << (32 + 5))
         for timestamp, detector in zip(timestamps, detectors):
-            full_timestamp = timestamp_epoch + timestamp
+            full_timestamp = timestamp_epoch + int(timestamp)
             event = (full_timestamp << 10) + int(detector)
 
             # Write high word, then low word
-- 
2.43.0


From cf7cc3baebfc36effc2ad77a92ddeb568ce63e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 15/36] fix: resolve datetimes within a second in date2epoch

Epochs are 0.537 seconds long, but datetimes were truncated to whole seconds,
so the previous epoch was returned for about half of all datetimes, and the
result of epoch2date did not convert back. Also avoid a rounding down to the
last microsecond of the previous epoch.
---
 src/fpfind/lib/parse_epochs.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 9e27029..4638cce 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -113,8 +113,9 @@ def date2epoch(datetime=None):
     if datetime is None:
         datetime = dt.datetime.now()
 
-    total_seconds = int(datetime.timestamp())
-    epoch_val = int(total_seconds/125e-12) >> 32
+    # Use integer microseconds, since epochs are shorter than a second
+    total_microseconds = round(datetime.timestamp() * 1e6)
+    epoch_val = (total_microseconds * 8000) >> 32  # 8000 * 125ps == 1us
     return f"{epoch_val:08x}"
 
 
@@ -126,8 +127,9 @@ def epoch2date(epoch):
     Args:
         epoch: Epoch in hex format, e.g. "ba1f36c0".
     """
-    total_seconds = (int(epoch, base=16) << 32) * 125e-12
-    return dt.datetime.fromtimestamp(total_seconds)
+    # Round up to first microsecond within epoch, see 'date2epoch'
+    total_microseconds = -((-int(epoch, base=16) << 32) // 8000)
+    return dt.datetime.fromtimestamp(total_microseconds * 1e-6)
 
 def epoch2int(epoch):
     return int(epoch, base=16)
-- 
2.43.0


From c48666be4bfa60804e33f0c8d2e9bbc29e55e1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 16/36] fix: peak statistics around a given center

The bin of a user supplied center was a float, which cannot be used as slice,
and 'significance_raw' passed its arrays to hstack individually.
---
 src/fpfind/lib/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index d11d69d..1fb0e64 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -92,7 +92,7 @@ class PeakStatistics:
     def significance_raw(self):
         if self.stdev == 0:
             return None
-        full = np.hstack(self.signal, self.background)
+        full = np.hstack((self.signal, self.background))
         return (np.max(full) - np.mean(full)) / np.std(full)
 
     @property
@@ -142,7 +142,7 @@ def get_statistics(
     if center is None:
         bin_center = np.argmax(hist)
     else:
-        bin_center = np.abs(center) // resolution
+        bin_center = int(np.abs(center) // resolution)
         if center < 0:
             bin_center = len(hist) - bin_center
 
-- 
2.43.0


From c14a79dbb6d3bb01f08e2b5e44f89e6b9c488332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 17/36] fix: allow slices of timestamps that turn out to be
 empty

The length check indexed into the empty array, so that instead of a failed
peak search (which may continue with the next precompensation), an IndexError
propagated out of fpfind.
---
 src/fpfind/lib/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index 1fb0e64..1a0af08 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -271,7 +271,7 @@ def slice_timestamps(
     else:
         ts = ts - ts[0]
     if duration is not None:
-        if duration >= ts[-1]:
+        if len(ts) != 0 and duration >= ts[-1]:
             warnings.warn(
                 f"Desired duration ({duration*1e-9:.3f} s) is longer "
                 f"than available data ({ts[-1]*1e-9:.3f} s)")
-- 
2.43.0


From 2c55851de4f9a6e4036a78a9ddec5d937386966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 18/36] fix: keep timestamps continuous across rollover between
 epochs

Only the 17-bit LSB of the epoch is stored within timestamps, so consecutive
epochs xxx1ffff and xxx20000 were concatenated with a jump of 2^46 ns into
the past.
---
 src/fpfind/lib/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index 1a0af08..a4da93a 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -404,10 +404,15 @@ def get_first_overlapping_epoch(
 def get_timestamp(dirname, file_type, first_epoch, skip_epoch, num_of_epochs):
     epochdir = pathlib.Path(dirname)
     timestamp = np.array([], dtype=np.float128)
+    start_epoch = epoch2int(first_epoch) + skip_epoch
     for i in range(num_of_epochs):
-        epoch_name = epochdir / int2epoch(epoch2int(first_epoch) + skip_epoch + i)
+        epoch_name = epochdir / int2epoch(start_epoch + i)
         reader = read_T1 if file_type == "T1" else read_T2
-        timestamp = np.append(timestamp, reader(epoch_name)[0])
+        ts = reader(epoch_name)[0]
+
+        # Timestamps carry only the 17-bit epoch LSB, i.e. roll over every 2^46 ns
+        rollovers = ((start_epoch + i) >> 17) - (start_epoch >> 17)
+        timestamp = np.append(timestamp, ts + rollovers * 2.0**46)
     return timestamp
 
 def normalize_timestamps(*T, skip: float = 0.0, preserve_relative: bool = True):
-- 
2.43.0


From 2a288486c1c9a979002538f80574a5302174b638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 19/36] fix: return a result with '--precomp-fullscan'

The scan always ran to completion of the loop, upon which 'No peak found!' was
raised even though peaks were found. Return the first, as without the flag.
---
 src/fpfind/fpfind.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index e06acf2..53fe434 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -347,6 +347,7 @@ def fpfind(
         precompensation_fullscan: Specify whether to continue even after peak found.
     """
     df0s = precompensations
+    result = None
 
     # Go through all precompensations
     for df0 in df0s:
@@ -375,16 +376,17 @@ def fpfind(
         logger.info(f"Peak found,          {df0*1e6:7.3f} ppm: {str(e)}")
         # TODO: Justify the good enough frequency value
         # TODO(2024-01-31): Add looping code to customize refinement steps.
+        if result is None:
+            result = (dt, f - 1)
         if precompensation_fullscan:
             continue
         break
 
     # No appropriate frequency compensation found
-    else:
+    if result is None:
         raise ValueError("No peak found!")  # TODO
 
-    df = f - 1
-    return dt, df
+    return result
 
 
 def generate_precompensations(start, stop, step, ordered=False) -> list:
-- 
2.43.0


From d847e78d758b691b9bb2e8447a15211d479e3528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 20/36] fix: invert the time compensation with the inverse
 frequency

With bob = alice * (1 + f) + t, swapping target and reference yields
alice = bob / (1 + f) - t / (1 + f). The factor was applied the wrong way,
which is off by up to 24us at the maximum offsets.
---
 src/fpfind/fpfind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index 53fe434..5d1f9e8 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -665,7 +665,7 @@ def main():
     # Use if the low-count side is undergoing frequency correction
     flag = args.output
     if flag & 0b0001:
-        dt = -dt * (1 + df)    # t_alice * (1 + f_alice) + t_bob = 0
+        dt = -dt / (1 + df)    # t_bob * (1 + f_alice) + t_alice = 0
         df = 1 / (1 + df) - 1  # (1 + f_alice) * (1 + f_bob) = 1
     if flag & 0b0010:
         df = f"{round(df * (1 << 34)):d}"
-- 
2.43.0


From 7c1481c6c609ec9e3d131b564352c8b5b2ba574c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 21/36] fix: include the last precompensation of the scan range

Due to floating-point rounding the end of the range was skipped depending on
its value, e.g. 0.3ppm // 0.1ppm == 2.
---
 src/fpfind/fpfind.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index 5d1f9e8..d342ed3 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -389,6 +389,11 @@ def fpfind(
     return result
 
 
+def _floor_steps(span, step):
+    """Returns number of steps within span, tolerating floating-point errors."""
+    return int(np.floor(np.round(span / step, 6)))
+
+
 def generate_precompensations(start, stop, step, ordered=False) -> list:
     """Returns set of precompensations to apply before fpfind.
 
@@ -412,9 +417,11 @@ def generate_precompensations(start, stop, step, ordered=False) -> list:
 
     # Prepare pre-compensations
     if ordered:
-        df0s = np.arange(0, int((stop-start) // step + 1))  # conventional
+        num_steps = _floor_steps(stop-start, step)
+        df0s = np.arange(0, num_steps + 1)  # conventional
     else:
-        df0s = np.arange(1, int(stop // step + 1) * 2) // 2  # flip-flop
+        num_steps = _floor_steps(stop, step)
+        df0s = np.arange(1, (num_steps + 1) * 2) // 2  # flip-flop
         df0s[::2] *= -1
 
     df0s = df0s.astype(np.float64) * step
-- 
2.43.0


From 2fee68918cb1a8fb18d7615a448feed66281b925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 22/36] fix: generate freqcd testcases in legacy format with
 '-x'

The flag was only assigned to a local variable, and thus had no effect.
---
 src/fpfind/lib/generate_freqcd_testcase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fpfind/lib/generate_freqcd_testcase.py b/src/fpfind/lib/generate_freqcd_testcase.py
index 2be66eb..e21f73a 100644
--- a/src/fpfind/lib/generate_freqcd_testcase.py
+++ b/src/fpfind/lib/generate_freqcd_testcase.py
@@ -71,6 +71,7 @@ def owrite(event):
     sys.stdout.flush()
 
 def main():
+    global LEGACY
     parser = argparse.ArgumentParser(description="Generates binary timestamp events for testing freqcd.")
     parser.add_argument("-o", help="output file, defaults to stdout stream")
     parser.add_argument("-t", type=int, nargs="+", help="list of timestamps in decimal")
-- 
2.43.0


From 65d2e5e1ccd6dc58aa580525b69a51f7402bf04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 23/36] fix: do not overwrite the input file with stdin

Only events read from stdin ('-') need to be stored in a temporary file.
---
 src/fpfind/lib/generate_freqcd_testcase.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/generate_freqcd_testcase.py b/src/fpfind/lib/generate_freqcd_testcase.py
index e21f73a..cb21608 100644
--- a/src/fpfind/lib/generate_freqcd_testcase.py
+++ b/src/fpfind/lib/generate_freqcd_testcase.py
@@ -115,8 +115,9 @@ def main():
 
         # Read binary timestamps from file
         try:
-            with open(inputfile, "wb") as f:
-                f.write(sys.stdin.buffer.read())
+            if HAS_TEMP_FILE:
+                with open(inputfile, "wb") as f:
+                    f.write(sys.stdin.buffer.read())
 
             # Parsing binary timestamps
             ts, _ = ts_parser.read_a1(inputfile, args.x)
-- 
2.43.0


From a8467af1ef96d522b78021735ea49598b9415335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 24/36] fix: run freqcd in the current directory on first
 invocation

The stand-in script changed to the installation directory for compilation, so
that relative program, input and output paths of the first invocation referred
to files in there instead.
---
 src/fpfind/freqcd | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd b/src/fpfind/freqcd
index ae28943..06ec240 100755
--- a/src/fpfind/freqcd
+++ b/src/fpfind/freqcd
@@ -22,7 +22,9 @@ rm -f ${INSTALL_ROOT}/freqcd_path \
     && echo "${PROGRAM}" > ${INSTALL_ROOT}/freqcd_path
 
 # Trigger post-install compilation and write directly to target
-cd ${INSTALL_ROOT} && ./_postinstall ${PROGRAM} \
+# Note: subshell ensures arguments remain relative to current directory
+TARGET=$(readlink -f "${PROGRAM}")
+(cd ${INSTALL_ROOT} && ./_postinstall ${TARGET}) \
     || { echo "'freqcd.c' failed to compile... not running."; exit 1; }
 
 # Pass arguments and directly execute
-- 
2.43.0


From 9be060a30231456ab28268b8fe5b70c5716c18be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 25/36] fix: keep correction continuous when a single read
 spans over 20 hours

The reference was only moved once per read, but a full buffer of events at low
rates can span more than the 54-bit timestamp range.
---
 src/fpfind/freqcd.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 3a97662..8ca2648 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -281,6 +281,7 @@ int main(int argc, char *argv[]) {
     int isset_tsref = 0;    // initialization marker for tsref
     ull ts, tsmeas;         // timestamp
     ll tscorr;              // timestamp correction
+    ull tssteps;            // number of whole 2^34 units since tsref
     ll tsoverflowcorr = 0;  // timestamp overflow corrections
     unsigned int high;      // high word in timestamp
     unsigned int low;       // low word in timestamp
@@ -385,13 +386,11 @@ int main(int argc, char *argv[]) {
                 }
                 outbuffer[outevents++] = *eventptr;
                 eventptr++;
-            }
 
-            /* update reference timestamp to keep within 20 hour overflow condition */
-            // Advance only by multiples of 2^34, over which the correction is an
-            // exact integer, so that rounding errors do not build up per read.
-            if (eventnum > 0) {
-                ull tssteps = ((tsmeas - tsref) & TS_MASK) >> -FCORR_ARESBITS;
+                /* update reference timestamp to keep within 20 hour overflow condition */
+                // Advance only by multiples of 2^34, over which the correction is an
+                // exact integer, so that rounding errors do not build up.
+                tssteps = ((tsmeas - tsref) & TS_MASK) >> -FCORR_ARESBITS;
                 tsref += tssteps << -FCORR_ARESBITS;
                 tsoverflowcorr += (ll)tssteps * fcorr;
             }
-- 
2.43.0


From d395142e0964947701ac834a3f8f1f746df0a822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 26/36] fix: compare time filter bounds at full timestamp
 precision

---
 src/fpfind/lib/parse_timestamps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 29659df..37d6cae 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -660,7 +660,7 @@ def get_timing_mask(
         start = t[0]
         i = 0
     else:
-        start *= (1e9 * resolution.value)  # convert s -> ns -> resolution
+        start = np_float(start * (1e9 * resolution.value))  # convert s -> ns -> resolution
         i = bisect.bisect_left(t, start)  # binary search
     if start > t[-1]:
         return mask
@@ -670,7 +670,7 @@ def get_timing_mask(
         end = t[-1]
         j = len(t)
     else:
-        end *= (1e9 * resolution.value)  # convert s -> ns -> resolution
+        end = np_float(end * (1e9 * resolution.value))  # convert s -> ns -> resolution
         j = bisect.bisect_right(t, end)  # binary search
     if end < t[0]:
         return mask
-- 
2.43.0


From 9e300189b771a2145bde921f32b11a78fd474ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 27/36] fix: report empty timestamps as a failed search

---
 src/fpfind/fpfind.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index d342ed3..a2a4727 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -123,6 +123,8 @@ def time_freq(
         threshold: Height of peak to discriminate as signal, in units of dev.
         separation_duration: Separation of cross-correlations, in units of ns.
     """
+    if len(ats) == 0 or len(bts) == 0:
+        raise ValueError("Array is empty!")
     end_time = min(ats[-1], bts[-1])
     duration = num_wraps * resolution * num_bins
     logger.debug("  Performing peak searching...")
-- 
2.43.0


From 6140e511dc333cc0c739a2f3b01e0b24dec5c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 28/36] fix: accept T3 files without entries

---
 src/fpfind/lib/parse_epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 4638cce..827cc63 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -474,7 +474,7 @@ def read_T3(file_name: str) -> ServiceT3:
 
     # Digest file
     HEADER_INFO_SIZE = 16
-    data_b = b"\x00\x00\x00\x00"
+    data_b = b""
     with open(file_name,"rb") as f:
         f.seek(HEADER_INFO_SIZE)
         while True:
-- 
2.43.0


From 32a127e636a92fc6b8f4862a2b11d543420d6258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 29/36] fix: report read errors of binary timestamp files

np.fromfile takes the file size beforehand and leaves the rest of the array
uninitialized if reading fails, which was then decoded as events.
---
 src/fpfind/lib/parse_timestamps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 37d6cae..d1afa28 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -121,7 +121,8 @@ def read_a1(
     high_pos = 1; low_pos = 0
     if legacy: high_pos, low_pos = low_pos, high_pos
     with open(filename, "rb") as f:
-        data = np.fromfile(file=f, dtype="=I").reshape(-1, 2)
+        # 'np.fromfile' leaves the array uninitialized if reading fails
+        data = np.frombuffer(f.read(), dtype="=I").reshape(-1, 2)
     t = ((np.uint64(data[:, high_pos]) << 22) + (data[:, low_pos] >> 10))
     t = _format_timestamps(t, resolution, fractional)
     p = data[:, low_pos] & 0xF
-- 
2.43.0


From 8970780ef81b9752c6bbe4560de981feb0d2b3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 30/36] fix: refuse timestamp text files that end in the middle
 of an event

The digits left of a truncated line were decoded as a different event.
---
 src/fpfind/lib/parse_timestamps.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index d1afa28..eae0fb1 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -105,7 +105,7 @@ def read_a0(
         the function signature to maintain parity with 'read_a1'.
     """
     data = np.atleast_1d(np.genfromtxt(filename, delimiter="\n", dtype="U8"))
-    data = np.array([int(v,16) for v in data], dtype=np.uint64).reshape(-1, 2)
+    data = _parse_hex(data, 8).reshape(-1, 2)
     t = ((np.uint64(data[:, 1]) << 22) + (data[:, 0] >> 10))
     t = _format_timestamps(t, resolution, fractional)
     p = data[:, 0] & 0xF
@@ -136,7 +136,7 @@ def read_a2(
     ):
     """See documentation for 'read_a0'."""
     data = np.atleast_1d(np.genfromtxt(filename, delimiter="\n", dtype="U16"))
-    data = np.array([int(v,16) for v in data], dtype=np.uint64)
+    data = _parse_hex(data, 16)
     t = np.uint64(data >> 10)
     t = _format_timestamps(t, resolution, fractional)
     p = data & 0xF
@@ -218,7 +218,7 @@ def sread_a0(
                     break
 
                 data = buffer.strip().split("\n")
-                data = np.array([int(v,16) for v in data], dtype=np.uint64).reshape(-1, 2)
+                data = _parse_hex(data, 8).reshape(-1, 2)
                 t = ((np.uint64(data[:, 1]) << 22) + (data[:, 0] >> 10))
                 t = _format_timestamps(t, resolution, fractional)
                 p = data[:, 0] & 0xF
@@ -244,7 +244,7 @@ def sread_a2(
                     break
 
                 data = buffer.strip().split("\n")
-                data = np.array([int(v,16) for v in data], dtype=np.uint64)
+                data = _parse_hex(data, 16)
                 t = np.uint64(data >> 10)
                 t = _format_timestamps(t, resolution, fractional)
                 p = data & 0xF
@@ -254,6 +254,16 @@ def sread_a2(
     num_batches = int(((size-1) // (buffer_size*17)) + 1)
     return _sread_a2(), num_batches
 
+def _parse_hex(lines: list, width: int):
+    """Returns lines of 'width' hexadecimal digits as integers.
+
+    Raises:
+        ValueError: Line has missing digits, e.g. at the end of a truncated file.
+    """
+    if any(len(line) < width for line in lines):
+        raise ValueError(f"Line does not have {width} hexadecimal digits")
+    return np.array([int(line, 16) for line in lines], dtype=np.uint64)
+
 def _format_timestamps(t: list, resolution: TSRES, fractional: bool):
     """Returns conversion of timestamps into desired format and resolution.
 
-- 
2.43.0


From 737a1d95b26f7075cd1dbf9b091a8329b0aa57f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:57 +0000
Subject: [PATCH 31/36] fix: keep the freqcd stand-in if compilation fails or
 is interrupted

---
 src/fpfind/_postinstall | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/_postinstall b/src/fpfind/_postinstall
index 7b4b278..7c0ab84 100755
--- a/src/fpfind/_postinstall
+++ b/src/fpfind/_postinstall
@@ -2,4 +2,9 @@
 # Performs post-installation compilation of freqcd. Do not modify.
 TARGET=freqcd
 if [ ! -z "$1" ]; then TARGET="$1"; fi
-gcc -o ${TARGET} freqcd.c lib/getopt.c
+
+# Replace the target in one step, and only by a complete binary: it may be the
+# stand-in script itself, which a failed or interrupted link would delete
+OUTPUT=${TARGET}.$$
+gcc -o ${OUTPUT} freqcd.c lib/getopt.c && mv -f ${OUTPUT} ${TARGET} \
+    || { rm -f ${OUTPUT}; exit 1; }
-- 
2.43.0


From 6f2799327df63a315853eed9a427bac5ac53a3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:57 +0000
Subject: [PATCH 32/36] fix: report failed freqcd compilation on standard error

---
 src/fpfind/freqcd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd b/src/fpfind/freqcd
index 06ec240..d4399ab 100755
--- a/src/fpfind/freqcd
+++ b/src/fpfind/freqcd
@@ -25,7 +25,7 @@ rm -f ${INSTALL_ROOT}/freqcd_path \
 # Note: subshell ensures arguments remain relative to current directory
 TARGET=$(readlink -f "${PROGRAM}")
 (cd ${INSTALL_ROOT} && ./_postinstall ${TARGET}) \
-    || { echo "'freqcd.c' failed to compile... not running."; exit 1; }
+    || { echo "'freqcd.c' failed to compile... not running." >&2; exit 1; }
 
 # Pass arguments and directly execute
 exec "${PROGRAM}" "$@"
-- 
2.43.0


From 1754ea563542a71fe4b4d7a60dea4b6660c47d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:23 +0000
Subject: [PATCH 33/36] fix: freqcd ignores frequency lines that contain a zero
 byte

---
 src/fpfind/freqcd.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 8ca2648..47c9465 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -427,6 +427,8 @@ int main(int argc, char *argv[]) {
                 if (freqbuffer[i] == '\n') {
                     freqbuffer[i] = 0;  // zero-terminate for readint
                     fcorr_tmp = readint(&freqbuffer[next_num_idx]);
+                    if (memchr(&freqbuffer[next_num_idx], 0, i - next_num_idx))
+                        fcorr_tmp = INT_MAX;  // line itself contains a zero
                     if (abs(fcorr_tmp) < FCORR_MAX && fcorr_tmp != fcorr) {
                         // new value applies only from the last event onwards
                         if (isset_tsref) {
-- 
2.43.0


From 13f6ba3dc0dce9311f49725cd94c347c58a49cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:46 +0000
Subject: [PATCH 34/36] fix: parse_timestamps refuses to stream a file onto
 itself instead of emptying it

---
 src/fpfind/lib/parse_timestamps.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index eae0fb1..b7082b3 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -738,6 +738,11 @@ def main():
     if not filepath.is_file():
         raise ValueError(f"'{args.infile}' is not a file.")
 
+    # Source is still being read while streaming to the destination
+    if not args.print and not args.inmemory \
+            and pathlib.Path(args.outfile).exists() and filepath.samefile(args.outfile):
+        raise ValueError("destination must differ from source, unless in memory.")
+
     # Define filter function for event and event stream
     has_filtering = \
         (args.pfilter_pattern is not None) \
-- 
2.43.0


From b380c7331e5baa83cf6b8cdc415b5251c96db839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:16 +0000
Subject: [PATCH 35/36] fix: peak statistics for a centre less than one bin
 below zero use bin zero, not one beyond the end

---
 src/fpfind/lib/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index a4da93a..95d28ec 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -143,7 +143,7 @@ def get_statistics(
         bin_center = np.argmax(hist)
     else:
         bin_center = int(np.abs(center) // resolution)
-        if center < 0:
+        if center < 0 and bin_center > 0:
             bin_center = len(hist) - bin_center
 
     # Retrieve size of symmetrical window
-- 
2.43.0


From e056745081247f46dfa63a98b6fd129645883254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:15 +0000
Subject: [PATCH 36/36] fix: the g2 correlation and the detuned data generator
 can be imported as part of the package

---
 src/fpfind/lib/g2_two_timestamps.py     | 2 +-
 src/fpfind/lib/generate_freqdetuneg2.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/g2_two_timestamps.py b/src/fpfind/lib/g2_two_timestamps.py
index 7952d0b..ac47dc9 100644
--- a/src/fpfind/lib/g2_two_timestamps.py
+++ b/src/fpfind/lib/g2_two_timestamps.py
@@ -1,6 +1,6 @@
 import numpy as np
 import matplotlib.pyplot as plt
-import parse_timestamps as parser
+import fpfind.lib.parse_timestamps as parser
 
 Ta = 2**27
 N = 2**18
diff --git a/src/fpfind/lib/generate_freqdetuneg2.py b/src/fpfind/lib/generate_freqdetuneg2.py
index 42d5d24..0bd7255 100644
--- a/src/fpfind/lib/generate_freqdetuneg2.py
+++ b/src/fpfind/lib/generate_freqdetuneg2.py
@@ -15,7 +15,7 @@
 #   Given a detuning ratio R, the frequency fed to the device is now
 #   f + R*f, so the effective timestamp has an additional (1+R) product.
 
-import parse_timestamps as parser
+import fpfind.lib.parse_timestamps as parser
 import numpy as np
 
 DATA_DIR = "./Clock-sync/20221007_freqdetuneg2"
-- 
2.43.0

