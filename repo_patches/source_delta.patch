From fdeb407af26e144aa69833c65ee6bfeff19ffc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:47 +0000
Subject: [PATCH 01/50] fix: don't lose bytes when content turns out not to be
 compressed only after more than one read

---
 warcio/bufferedreaders.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 80a4612..e528c08 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -83,6 +83,8 @@ class BufferedReader(object):
 
     def _init_decomp(self, decomp_type):
         self.num_block_read = 0
+        # raw data taken by the decompressor before it has returned anything
+        self.undecoded = b''
         if decomp_type:
             try:
                 self.decomp_type = decomp_type
@@ -133,11 +135,14 @@ class BufferedReader(object):
 
     def _decompress(self, data):
         if self.decompressor and data:
+            raw = data
             try:
-                data = self.decompressor.decompress(data)
+                data = self.decompressor.decompress(raw)
             except Exception as e:
-                # if first read attempt, assume non-gzipped stream
+                # if nothing decompressed yet, assume non-gzipped stream,
+                # starting from the first byte given to the decompressor
                 if self.num_block_read == 0:
+                    data = self.undecoded + raw
                     if self.decomp_type == 'deflate':
                         self._init_decomp('deflate_alt')
                         data = self._decompress(data)
@@ -147,6 +152,11 @@ class BufferedReader(object):
                 else:
                     sys.stderr.write(str(e) + '\n')
                     return b''
+            else:
+                if data or self.num_block_read > 0:
+                    self.undecoded = b''
+                else:
+                    self.undecoded += raw
         return data
 
     def read(self, length=None):
-- 
2.43.0


From 04244d26fbfc3d0e2574de9615bcb54a1b63c14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 02/50] fix: read response, request and revisit records that
 have no WARC-Target-URI

---
 warcio/recordloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 475507b..23f560b 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -181,7 +181,7 @@ class ArcWarcRecordLoader(object):
             return None
 
         # only http:/https: uris can have http headers
-        if not uri.startswith(self.HTTP_SCHEMES):
+        if not uri or not uri.startswith(self.HTTP_SCHEMES):
             return None
 
         # request record: parse request
-- 
2.43.0


From 33ca09191c95a8245bf4ce53d33ea2e350f273e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 03/50] fix: accept md5 digests in hexadecimal

---
 warcio/digestverifyingreader.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index 985a4ed..38f4c16 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -124,6 +124,11 @@ def _compare_digest_rfc_3548(digester, digest):
     our_algo, our_value = _parse_digest(digester_b32)
     warc_algo, warc_value = _parse_digest(digest)
 
+    # hex md5 is just as long as base32 md5, but only base32 is padded
+    if (len(warc_value) == 2 * digester.digester.digest_size and
+        our_value.endswith('=') and not warc_value.endswith('=')):
+        warc_value = _hex_to_b32(warc_value)
+
     warc_b32 = _to_b32(len(our_value), warc_value)
 
     if our_value == warc_b32:
@@ -141,11 +146,13 @@ def _to_b32(length, value):
         return value  # casefold needed here? -- rfc recommends not allowing
 
     if len(value) > length:
-        binary = base64.b16decode(value, casefold=True)
-    else:
-        binary = _b64_wrapper(value)
+        return _hex_to_b32(value)
+
+    return to_native_str(base64.b32encode(_b64_wrapper(value)), encoding='ascii')
+
 
-    return to_native_str(base64.b32encode(binary), encoding='ascii')
+def _hex_to_b32(value):
+    return to_native_str(base64.b32encode(base64.b16decode(value, casefold=True)), encoding='ascii')
 
 
 base64_url_filename_safe_alt = b'-_'
-- 
2.43.0


From c4114bb637d09d00c6b0bb3383d5d8f242e34ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 04/50] fix: a malformed digest value is a wrong digest, not an
 error

---
 warcio/digestverifyingreader.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index 38f4c16..10caf0b 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -124,12 +124,16 @@ def _compare_digest_rfc_3548(digester, digest):
     our_algo, our_value = _parse_digest(digester_b32)
     warc_algo, warc_value = _parse_digest(digest)
 
-    # hex md5 is just as long as base32 md5, but only base32 is padded
-    if (len(warc_value) == 2 * digester.digester.digest_size and
-        our_value.endswith('=') and not warc_value.endswith('=')):
-        warc_value = _hex_to_b32(warc_value)
-
-    warc_b32 = _to_b32(len(our_value), warc_value)
+    try:
+        # hex md5 is just as long as base32 md5, but only base32 is padded
+        if (len(warc_value) == 2 * digester.digester.digest_size and
+            our_value.endswith('=') and not warc_value.endswith('=')):
+            warc_value = _hex_to_b32(warc_value)
+
+        warc_b32 = _to_b32(len(our_value), warc_value)
+    except ValueError:
+        # not a valid encoding of any digest
+        return False
 
     if our_value == warc_b32:
         return True
-- 
2.43.0


From 95b85720d53fcfdcfb1ca59fe2b3ee99fe943062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 05/50] fix: report digests of variable-size hashes as unknown
 instead of failing

---
 warcio/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/warcio/utils.py b/warcio/utils.py
index 35ac899..49240e9 100644
--- a/warcio/utils.py
+++ b/warcio/utils.py
@@ -98,6 +98,8 @@ class Digester(object):
     def __init__(self, type_='sha1'):
         self.type_ = type_
         self.digester = hashlib.new(type_)
+        if not self.digester.digest_size:
+            raise ValueError('hash has no fixed size: ' + type_)
 
     def update(self, buff):
         self.digester.update(buff)
-- 
2.43.0


From acec813d30e6e75980e70ef52ae9d94fbbaf939d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 06/50] fix: verify the block digest of empty records

---
 warcio/digestverifyingreader.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index 10caf0b..4312596 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -77,6 +77,9 @@ class DigestVerifyingReader(LimitReader):
 
     def begin_payload(self):
         self.payload_digester = self.payload_digester_obj
+        # nothing will be read from an empty block, so check it here
+        if self._orig_limit == 0:
+            self._check_block_digest()
         if self.limit == 0:
             check = _compare_digest_rfc_3548(self.payload_digester, self.payload_digest)
             if check is False:
@@ -85,6 +88,13 @@ class DigestVerifyingReader(LimitReader):
             elif check is True and self.digest_checker.passed is not False:
                 self.digest_checker.passed = True
 
+    def _check_block_digest(self):
+        check = _compare_digest_rfc_3548(self.block_digester, self.block_digest)
+        if check is False:
+            self.digest_checker.problem('block digest failed: {}'.format(self.block_digest))
+        elif check is True and self.digest_checker.passed is not False:
+            self.digest_checker.passed = True
+
     def _update(self, buff):
         super(DigestVerifyingReader, self)._update(buff)
 
@@ -94,11 +104,7 @@ class DigestVerifyingReader(LimitReader):
             self.block_digester.update(buff)
 
         if self.limit == 0:
-            check = _compare_digest_rfc_3548(self.block_digester, self.block_digest)
-            if check is False:
-                self.digest_checker.problem('block digest failed: {}'.format(self.block_digest))
-            elif check is True and self.digest_checker.passed is not False:
-                self.digest_checker.passed = True
+            self._check_block_digest()
             check = _compare_digest_rfc_3548(self.payload_digester, self.payload_digest)
             if check is False:
                 self.digest_checker.problem('payload digest failed {}'.format(self.payload_digest))
-- 
2.43.0


From d35a8f3298238b3d41cbff93e4a2a8dbc4f66dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 07/50] fix: LimitReader: a negative size means up to the
 limit, not beyond it

---
 warcio/limitreader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/warcio/limitreader.py b/warcio/limitreader.py
index bfa6d9e..ef81bd7 100644
--- a/warcio/limitreader.py
+++ b/warcio/limitreader.py
@@ -15,7 +15,7 @@ class LimitReader(object):
         return buff
 
     def read(self, length=None):
-        if length is not None:
+        if length is not None and length >= 0:
             length = min(length, self.limit)
         else:
             length = self.limit
@@ -27,7 +27,7 @@ class LimitReader(object):
         return self._update(buff)
 
     def readline(self, length=None):
-        if length is not None:
+        if length is not None and length >= 0:
             length = min(length, self.limit)
         else:
             length = self.limit
-- 
2.43.0


From c623a1c950a1748de223d1bd6c2fa01e794919c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 08/50] fix: BufferedReader: a negative size means no limit, as
 for other files

---
 warcio/bufferedreaders.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index e528c08..5e58f9f 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -167,6 +167,9 @@ class BufferedReader(object):
         if at buffer boundary, will attempt to read again until
         specified length is read
         """
+        if length is not None and length < 0:
+            length = None
+
         all_buffs = []
         while length is None or length > 0:
             self._fillbuff()
@@ -192,6 +195,9 @@ class BufferedReader(object):
         if length == 0:
             return b''
 
+        if length is not None and length < 0:
+            length = None
+
         self._fillbuff()
 
         if self.empty():
-- 
2.43.0


From 4621ac113417f4a7ad172b5f068080ad0f6b66bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 09/50] fix: read records whose Content-Length does not fit a
 machine word

---
 warcio/bufferedreaders.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 5e58f9f..af3d18d 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -176,7 +176,7 @@ class BufferedReader(object):
             if self.empty():
                 break
 
-            buff = self.buff.read(length)
+            buff = self.buff.read(length if length is None else min(length, self.buff_size))
             all_buffs.append(buff)
             if length:
                 length -= len(buff)
@@ -203,7 +203,7 @@ class BufferedReader(object):
         if self.empty():
             return b''
 
-        linebuff = self.buff.readline(length)
+        linebuff = self.buff.readline(length if length is None else min(length, self.buff_size))
 
         # we may be at a boundary
         while not linebuff.endswith(b'\n'):
@@ -217,7 +217,7 @@ class BufferedReader(object):
             if self.empty():
                 break
 
-            linebuff += self.buff.readline(length)
+            linebuff += self.buff.readline(length if length is None else min(length, self.buff_size))
 
         return linebuff
 
-- 
2.43.0


From 59438fb76386d0c54cad402f4f29b051da59323f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 10/50] fix: write any non-ascii text in HTTP headers
 percent-encoded instead of failing

---
 warcio/statusandheaders.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index ce42d66..1a35c45 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -13,6 +13,8 @@ import re
 
 #=================================================================
 class StatusAndHeaders(object):
+    ASCII_CHARS = ''.join(map(chr, range(128)))
+
     ENCODE_HEADER_RX = re.compile(r'[=]["\']?([^;"]+)["\']?(?=[;]?)')
     """
     Representation of parsed http-style status line and headers
@@ -176,6 +178,8 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
         except (UnicodeEncodeError, UnicodeDecodeError):
             self.percent_encode_non_ascii_headers()
             string = self.to_str(filter_func)
+            # %-encode non-ascii text that is not in a header value or its params
+            string = quote(string, safe=self.ASCII_CHARS)
             string = string.encode('ascii')
 
         return string + b'\r\n'
-- 
2.43.0


From 261f87ab51274c76df3dda160188689ed69d02a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 11/50] fix: write the block of a revisit record whose HTTP
 headers are not parsed

---
 warcio/warcwriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index 6fb71be..85197f0 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -67,7 +67,7 @@ class BaseWARCWriter(RecordBuilder):
             # ensure proper content type
             record.rec_headers.replace_header('Content-Type', record.content_type)
 
-        if record.rec_type == 'revisit':
+        if record.rec_type == 'revisit' and record.http_headers:
             http_headers_only = True
         else:
             http_headers_only = False
-- 
2.43.0


From 8d1052a53b963ecce6ef5e894d4eff77db4c6288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 12/50] fix: record only the bytes that were read into a buffer

---
 warcio/capture_http.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index d83cb27..51fc870 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -53,7 +53,9 @@ class RecordingStream(object):
     # Used in PY3 Only
     def readinto(self, buff):  #pragma: no cover
         res = self.fp.readinto(buff)
-        self.recorder.write_response(buff)
+        # only part of the buffer may have been filled
+        if res:
+            self.recorder.write_response(buff[:res])
         return res
 
     def readline(self, maxlen=-1):
-- 
2.43.0


From e03d3902c54c7b891dbf40e36220e8414d31d54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 13/50] fix: support read1() and peek() of captured responses

---
 warcio/capture_http.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 51fc870..9acc428 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -58,6 +58,15 @@ class RecordingStream(object):
             self.recorder.write_response(buff[:res])
         return res
 
+    def read1(self, amt=-1):
+        buff = self.fp.read1(amt)
+        self.recorder.write_response(buff)
+        return buff
+
+    def peek(self, amt=0):
+        # not consumed, so not recorded yet
+        return self.fp.peek(amt)
+
     def readline(self, maxlen=-1):
         line = self.fp.readline(maxlen)
         self.recorder.write_response(line)
-- 
2.43.0


From b8960c1ef22ab557de1cdb7609cd1a8bb100afd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 14/50] fix: compute the right length when HTTP headers are
 parsed from a payload not at its start

---
 warcio/recordbuilder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 081b5b1..59572b0 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -91,9 +91,13 @@ class RecordBuilder(object):
 
         if payload and not http_headers:
             loader = ArcWarcRecordLoader()
+            try:
+                start = payload.tell()
+            except Exception:
+                start = 0
             http_headers = loader.load_http_headers(record_type, uri, payload, length)
             if http_headers and length is not None:
-                length -= payload.tell()
+                length -= payload.tell() - start
 
         if not payload:
             payload = BytesIO()
-- 
2.43.0


From 6d13d99913dd36121cdeca29e04d196650538085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 15/50] fix: compare the chunked transfer encoding
 case-insensitively

---
 warcio/recordloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 23f560b..fdeef2f 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -36,7 +36,7 @@ class ArcWarcRecord(object):
             if encoding not in BufferedReader.get_supported_decompressors():
                 encoding = None
 
-        if self.http_headers.get_header('transfer-encoding') == 'chunked':
+        if self.http_headers.get_header('transfer-encoding', '').lower() == 'chunked':
             return ChunkedDataReader(self.raw_stream, decomp_type=encoding)
         elif encoding:
             return BufferedReader(self.raw_stream, decomp_type=encoding)
-- 
2.43.0


From 97a9318f5603a0fa5a79ec56ddd6d12cff1632d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 16/50] fix: BufferedReader.readline(n) returns up to n bytes
 even when the line spans several blocks

---
 warcio/bufferedreaders.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index af3d18d..47f962d 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -207,9 +207,10 @@ class BufferedReader(object):
 
         # we may be at a boundary
         while not linebuff.endswith(b'\n'):
+            rem = None
             if length:
-                length -= len(linebuff)
-                if length <= 0:
+                rem = length - len(linebuff)
+                if rem <= 0:
                     break
 
             self._fillbuff()
@@ -217,7 +218,7 @@ class BufferedReader(object):
             if self.empty():
                 break
 
-            linebuff += self.buff.readline(length if length is None else min(length, self.buff_size))
+            linebuff += self.buff.readline(rem if rem is None else min(rem, self.buff_size))
 
         return linebuff
 
-- 
2.43.0


From ec9c094c67374bbcccdc195e199d0fb7ffa7df43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 17/50] fix: report a gzip member with several records even if
 other members follow it

---
 warcio/archiveiterator.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/warcio/archiveiterator.py b/warcio/archiveiterator.py
index 31a6942..92f29cc 100644
--- a/warcio/archiveiterator.py
+++ b/warcio/archiveiterator.py
@@ -103,9 +103,9 @@ class ArchiveIterator(six.Iterator):
         """ iterate over each record
         """
         raise_invalid_gzip = False
-        empty_record = False
 
         while True:
+            empty_record = False
             try:
                 self.record = self._next_record(self.next_line)
                 if raise_invalid_gzip:
@@ -119,8 +119,13 @@ class ArchiveIterator(six.Iterator):
             self.read_to_end()
 
             if self.reader.decompressor:
+                # if this gzip member continues beyond the record,
+                # raise this as an error, even if there are more members
+                if self.next_line and not empty_record:
+                    raise_invalid_gzip = True
+
                 # if another gzip member, continue
-                if self.reader.read_next_member():
+                elif self.reader.read_next_member():
                     continue
 
                 # if empty record, then we're done
-- 
2.43.0


From b785a6f39a2852c94250a309165870584acd77b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 18/50] fix: a negative number is not a chunk size

---
 warcio/bufferedreaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 47f962d..fb55cb7 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -344,7 +344,7 @@ class ChunkedDataReader(BufferedReader):
             chunk_size = length_header[:-2].split(b';')[0]
             chunk_size = int(chunk_size, 16)
             # sanity check chunk size
-            assert(chunk_size <= 2**31)
+            assert(0 <= chunk_size <= 2**31)
         except (ValueError, AssertionError):
             raise ChunkedDataException(b"Couldn't decode length header " +
                                        length_header)
-- 
2.43.0


From 51062a00ee61b2d5a16183517f99af483f80ed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 19/50] fix: don't return chunk framing as content when chunked
 data is cut off in or next to it

---
 warcio/bufferedreaders.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index fb55cb7..8f8c20a 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -304,6 +304,7 @@ class ChunkedDataReader(BufferedReader):
         super(ChunkedDataReader, self).__init__(stream, **kwargs)
         self.all_chunks_read = False
         self.not_chunked = False
+        self.any_chunks_read = False
 
         # if False, we'll use best-guess fallback for parse errors
         self.raise_chunked_data_exceptions = raise_exceptions
@@ -337,6 +338,15 @@ class ChunkedDataReader(BufferedReader):
                 return super(ChunkedDataReader, self)._fillbuff(block_size)
 
     def _try_decode(self, length_header):
+        # if cut off before or inside of the length header of a later chunk,
+        # just stop reading, unless raising exceptions
+        if (self.any_chunks_read and not self.raise_chunked_data_exceptions and
+            len(length_header) < 64 and not length_header.endswith(b'\n') and
+            not length_header.split(b';')[0].strip(b'0123456789abcdefABCDEF \r')):
+            self.all_chunks_read = True
+            self._process_read(b'')
+            return
+
         # decode length header
         try:
             # ensure line ends with \r\n
@@ -353,7 +363,7 @@ class ChunkedDataReader(BufferedReader):
             # chunk_size 0 indicates end of file. read final bytes to compute digest.
             final_data = self.stream.read(2)
             try:
-                assert(final_data == b'\r\n')
+                assert(final_data == b'\r\n' or self._is_cut_off(final_data))
             except AssertionError:
                 raise ChunkedDataException(b"Incorrect \r\n after length header of 0")
             self.all_chunks_read = True
@@ -385,13 +395,22 @@ class ChunkedDataReader(BufferedReader):
         # it should end in \r\n
         if not self.all_chunks_read:
             clrf = self.stream.read(2)
-            if clrf != b'\r\n':
+            if self._is_cut_off(clrf):
+                self.all_chunks_read = True
+            elif clrf != b'\r\n':
                 raise ChunkedDataException(b"Chunk terminator not found.",
                                            data)
 
+        self.any_chunks_read = True
+
         # hand to base class for further processing
         self._process_read(data)
 
+    def _is_cut_off(self, line_end):
+        # stream ended before or inside of the \r\n
+        return (not self.raise_chunked_data_exceptions and
+                line_end in (b'', b'\r'))
+
 
 #=================================================================
 try_brotli_init()
-- 
2.43.0


From b9b9b33b195e83f2b8268bf4dd730c5c64862d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 20/50] fix: don't fail the payload digest of a record whose
 HTTP headers are not parsed

---
 warcio/recordloader.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index fdeef2f..bf73b17 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -132,7 +132,9 @@ class ArcWarcRecordLoader(object):
             if check_digests:
                 stream, is_verifying = self.wrap_digest_verifying_stream(stream, rec_type,
                                                                          rec_headers, digest_checker,
-                                                                         length=length)
+                                                                         length=length,
+                                                                         check_payload=not no_record_parse or
+                                                                         not self.can_have_http_headers(rec_type, uri))
 
         http_headers = None
         payload_length = -1
@@ -155,8 +157,10 @@ class ArcWarcRecordLoader(object):
                              rec_headers, stream, http_headers,
                              content_type, length, payload_length=payload_length, digest_checker=digest_checker)
 
-    def wrap_digest_verifying_stream(self, stream, rec_type, rec_headers, digest_checker, length=None):
-        payload_digest = rec_headers.get_header('WARC-Payload-Digest')
+    def wrap_digest_verifying_stream(self, stream, rec_type, rec_headers, digest_checker, length=None,
+                                     check_payload=True):
+        # payload not known if it may follow http headers that are not parsed
+        payload_digest = rec_headers.get_header('WARC-Payload-Digest') if check_payload else None
         block_digest = rec_headers.get_header('WARC-Block-Digest')
         segment_number = rec_headers.get_header('WARC-Segment-Number')
 
@@ -170,18 +174,21 @@ class ArcWarcRecordLoader(object):
                                        segment_number=segment_number)
         return stream, True
 
+    def can_have_http_headers(self, rec_type, uri):
+        # only certain record types can have http headers
+        if rec_type not in self.HTTP_RECORDS:
+            return False
+
+        # only http:/https: uris can have http headers
+        return bool(uri) and uri.startswith(self.HTTP_SCHEMES)
+
     def load_http_headers(self, rec_type, uri, stream, length):
         # only if length == 0 don't parse
         # try parsing is length is unknown (length is None) or length > 0
         if length == 0:
             return None
 
-        # only certain record types can have http headers
-        if rec_type not in self.HTTP_RECORDS:
-            return None
-
-        # only http:/https: uris can have http headers
-        if not uri or not uri.startswith(self.HTTP_SCHEMES):
+        if not self.can_have_http_headers(rec_type, uri):
             return None
 
         # request record: parse request
-- 
2.43.0


From 432b200f7f50bd7712df7c9a5220c6b6cc402fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 21/50] fix: LimitReader position stays right when a smaller
 limit is nested

---
 warcio/limitreader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/warcio/limitreader.py b/warcio/limitreader.py
index ef81bd7..a64dc8e 100644
--- a/warcio/limitreader.py
+++ b/warcio/limitreader.py
@@ -57,7 +57,10 @@ class LimitReader(object):
                 # optimize: if already a LimitStream, set limit to
                 # the smaller of the two limits
                 if isinstance(stream, LimitReader):
-                    stream.limit = min(stream.limit, content_length)
+                    excess = max(0, stream.limit - content_length)
+                    stream.limit -= excess
+                    # position doesn't change
+                    stream._orig_limit -= excess
                 else:
                     stream = LimitReader(stream, content_length)
 
-- 
2.43.0


From d27252e2e59611c4a25ee6a4138dc1aa509a6581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 22/50] fix: don't stop at an empty gzip member when reading
 all members

---
 warcio/bufferedreaders.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 8f8c20a..5157739 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -106,6 +106,13 @@ class BufferedReader(object):
 
         block_size = block_size or self.block_size
 
+        self._read_block(block_size)
+
+        # if reading all members, go on past the members that are empty
+        while self.read_all_members and self.empty() and self.starting_data:
+            self._read_block(block_size)
+
+    def _read_block(self, block_size):
         if self.starting_data:
             data = self.starting_data
             self.starting_data = None
-- 
2.43.0


From 1024c8a4710c0298c198b24ba89a9a58f39118d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:02 +0000
Subject: [PATCH 23/50] fix: recompute the block digest when HTTP headers are
 written differently than they were stored

---
 warcio/recordbuilder.py    | 18 ++++++++++++++++--
 warcio/recordloader.py     | 28 +++++++++++++++++++++++++---
 warcio/statusandheaders.py |  3 +++
 3 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 59572b0..84166e3 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -161,7 +161,8 @@ class RecordBuilder(object):
 
     def ensure_digest(self, record, block=True, payload=True):
         if block:
-            if record.rec_headers.get_header('WARC-Block-Digest'):
+            if (record.rec_headers.get_header('WARC-Block-Digest') and
+                not self._http_headers_differ(record)):
                 block = False
 
         if payload:
@@ -214,7 +215,20 @@ class RecordBuilder(object):
             record.rec_headers.add_header('WARC-Payload-Digest', str(payload_digester))
 
         if block_digester:
-            record.rec_headers.add_header('WARC-Block-Digest', str(block_digester))
+            record.rec_headers.replace_header('WARC-Block-Digest', str(block_digester))
+
+    def _http_headers_differ(self, record):
+        """ True if the http headers are not written as they were stored in the
+        record that was read, so that its block digest doesn't apply anymore
+        """
+        http_headers = record.http_headers
+        if not http_headers or http_headers.stored_buff is None:
+            return False
+
+        if not http_headers.headers_buff:
+            http_headers.compute_headers_buffer(self.header_filter)
+
+        return http_headers.headers_buff != http_headers.stored_buff
 
     @staticmethod
     def _iter_stream(stream):
diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index bf73b17..8f34fd9 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -191,20 +191,25 @@ class ArcWarcRecordLoader(object):
         if not self.can_have_http_headers(rec_type, uri):
             return None
 
+        lines = RecordedLines(stream)
+
         # request record: parse request
         if rec_type == 'request':
-            return self.http_req_parser.parse(stream)
+            http_headers = self.http_req_parser.parse(lines)
 
         elif rec_type == 'revisit':
             try:
-                return self.http_parser.parse(stream)
+                http_headers = self.http_parser.parse(lines)
             except EOFError:
                 # empty revisit with no http headers, is ok!
                 return None
 
         # response record or non-empty revisit: parse HTTP status and headers!
         else:
-            return self.http_parser.parse(stream)
+            http_headers = self.http_parser.parse(lines)
+
+        http_headers.stored_buff = lines.getvalue()
+        return http_headers
 
     def default_http_headers(self, length, content_type=None):
         headers = []
@@ -275,6 +280,23 @@ class ArcWarcRecordLoader(object):
         return uri
 
 
+#=================================================================
+class RecordedLines(object):
+    """ Keeps the lines that are read from a stream
+    """
+    def __init__(self, stream):
+        self.stream = stream
+        self.lines = []
+
+    def readline(self):
+        line = self.stream.readline()
+        self.lines.append(line)
+        return line
+
+    def getvalue(self):
+        return b''.join(self.lines)
+
+
 #=================================================================
 class ARCHeadersParser(object):
     # ARC 1.0 headers
diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index 1a35c45..901d49e 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -33,6 +33,9 @@ class StatusAndHeaders(object):
         self.total_len = total_len
         self.headers_buff = None
 
+        # headers as found in a record, if read from one
+        self.stored_buff = None
+
     def get_header(self, name, default_value=None):
         """
         return header (name, value)
-- 
2.43.0


From 10ec9e010a7a6980e425fa42fb9eab056b7cd60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 24/50] fix: headers that have an empty value are in the
 headers

---
 warcio/statusandheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index 901d49e..5e8e39a 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -222,7 +222,7 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
     __setitem__ = replace_header
     __delitem__ = remove_header
     def __contains__(self, key):
-        return bool(self[key])
+        return self[key] is not None
 
 #=================================================================
 def _strip_count(string, total_read):
-- 
2.43.0


From ca3160d3e1f4a870095f833b5134600c98d493a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:51 +0000
Subject: [PATCH 25/50] fix: compare header collections that have no status
 line and headers

---
 warcio/statusandheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index 5e8e39a..8b8f865 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -130,7 +130,7 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
         return not (self == other)
 
     def __eq__(self, other):
-        if not other:
+        if not isinstance(other, StatusAndHeaders):
             return False
 
         return (self.statusline == other.statusline and
-- 
2.43.0


From 64463d738b3d9fd57aa8962ca8d9ba8828bf29b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 26/50] fix: no leading space in header values that start on a
 continuation line

---
 warcio/statusandheaders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index 8b8f865..f4b15da 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -294,7 +294,8 @@ class StatusAndHeadersParser(object):
             # append continuation lines, if any
             while next_line and next_line.startswith((' ', '\t')):
                 if value is not None:
-                    value += next_line
+                    # no leading space if the value starts on this line
+                    value += next_line if value else next_line.lstrip()
                 next_line, total_read = _strip_count(self.decode_header(stream.readline()),
                                                      total_read)
 
-- 
2.43.0


From 510cb0a41b9eb2b13c59dc6e482d4c1e9b9e6f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 27/50] fix: compute the length of an ARC header record that
 has non-ascii header lines

---
 warcio/recordloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 8f34fd9..ba08e52 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -328,8 +328,8 @@ class ARCHeadersParser(object):
 
         # if arc header, consume next two lines
         if headerline.startswith('filedesc://'):
-            version = StatusAndHeadersParser.decode_header(stream.readline())  # skip version
-            spec = StatusAndHeadersParser.decode_header(stream.readline())  # skip header spec, use preset one
+            version = stream.readline()  # skip version
+            spec = stream.readline()  # skip header spec, use preset one
             total_read += len(version)
             total_read += len(spec)
 
-- 
2.43.0


From 05eaf94ea34f775442bdf0ccd1e97c1b9fd55349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 28/50] fix: blank lines at the start of a file or gzip member
 are not a record

---
 warcio/archiveiterator.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/warcio/archiveiterator.py b/warcio/archiveiterator.py
index 92f29cc..995946e 100644
--- a/warcio/archiveiterator.py
+++ b/warcio/archiveiterator.py
@@ -255,10 +255,26 @@ class ArchiveIterator(six.Iterator):
 
         return self.member_info[1]
 
+    def _skip_blanklines(self):
+        """ Return first line that is not blank, at the beginning of the
+        file or of a gzip member: blank lines are not a record
+        """
+        while True:
+            line = self.reader.readline()
+            if not line or line.rstrip():
+                return line
+
+            # as after a record, not part of a record unless compressed
+            if not self.reader.decompressor:
+                self.offset += len(line)
+
     def _next_record(self, next_line):
         """ Use loader to parse the record from the reader stream
         Supporting warc and arc records
         """
+        if next_line is None:
+            next_line = self._skip_blanklines()
+
         record = self.loader.parse_record_stream(self.reader,
                                                  next_line,
                                                  self.known_format,
-- 
2.43.0


From 378a76126e092c231de227f2a80005a2483790e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 29/50] fix: recompress: notice gzip members that end inside a
 record

---
 warcio/recompressor.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/warcio/recompressor.py b/warcio/recompressor.py
index c164827..f3ce122 100644
--- a/warcio/recompressor.py
+++ b/warcio/recompressor.py
@@ -25,7 +25,7 @@ class Recompressor(object):
             msg = ''
             with fsspec_open(self.filename, 'rb') as stream:
                 try:
-                    count = self.load_and_write(stream, self.output)
+                    count = self.load_and_write(stream, self.output, check_members=True)
                     msg = 'No Errors Found!'
                 except Exception as e:
                     if self.verbose:
@@ -53,19 +53,27 @@ class Recompressor(object):
             print('Recompress Failed: {0} could not be read as a WARC or ARC'.format(self.filename))
             sys.exit(1)
 
-    def load_and_write(self, stream, output):
+    def load_and_write(self, stream, output, check_members=False):
         count = 0
         with fsspec_open(output, 'wb') as out:
             writer = WARCWriter(filebuf=out, gzip=True)
 
-            for record in ArchiveIterator(stream,
-                                          no_record_parse=False,
-                                          arc2warc=True,
-                                          verify_http=False):
+            it = ArchiveIterator(stream,
+                                 no_record_parse=False,
+                                 arc2warc=True,
+                                 verify_http=False)
 
+            for record in it:
+                length, raw_stream = record.length, record.raw_stream
                 writer.write_record(record)
                 count += 1
 
+                # a gzip member must hold all of the record
+                if check_members and it.reader.decompressor:
+                    it.read_to_end()
+                    if length is None or raw_stream.tell() < length:
+                        raise ArchiveLoadFailed('gzip member ends inside a record')
+
             return count
 
     def decompress_and_recompress(self, stream, output):
-- 
2.43.0


From 23dae2b54511c6c5f384aca08507c6b5c3bb6baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:48 +0000
Subject: [PATCH 30/50] fix: bracket IPv6 addresses in captured urls

---
 warcio/capture_http.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 9acc428..988f811 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -224,10 +224,10 @@ class RequestRecorder(object):
         path = parts[1]
 
         if verb == "CONNECT":
-            parts = path.split(":", 1)
+            parts = path.rsplit(":", 1)
             self.connect_host = parts[0]
             self.connect_port = int(parts[1]) if len(parts) > 1 else default_port
-            self.warc_headers['WARC-Proxy-Host'] = "https://{0}:{1}".format(host, port)
+            self.warc_headers['WARC-Proxy-Host'] = "https://{0}:{1}".format(self._url_host(host), port)
             return
 
         if self.connect_host:
@@ -237,17 +237,22 @@ class RequestRecorder(object):
             port = self.connect_port
 
         if path.startswith(('http:', 'https:')):
-            self.warc_headers['WARC-Proxy-Host'] = "http://{0}:{1}".format(host, port)
+            self.warc_headers['WARC-Proxy-Host'] = "http://{0}:{1}".format(self._url_host(host), port)
             self.url = path
             return
 
         scheme = 'https' if default_port == 443 else 'http'
-        self.url = scheme + '://' + host
+        self.url = scheme + '://' + self._url_host(host)
         if port != default_port:
             self.url += ':' + str(port)
 
         self.url += path
 
+    @staticmethod
+    def _url_host(host):
+        # ipv6 addresses are in brackets in urls
+        return '[' + host + ']' if ':' in host and not host.startswith('[') else host
+
 
 # ============================================================================
 httplib.HTTPConnection = RecordingHTTPConnection
-- 
2.43.0


From cb3cfca3197b5d5963c9233213b74ac3b0b4d260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 31/50] fix: capture exchanges with any request method or HTTP
 version

---
 warcio/capture_http.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 988f811..3d62844 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -9,6 +9,7 @@ from contextlib import contextmanager
 from array import array
 
 from warcio.utils import to_native_str, BUFF_SIZE, open
+from warcio.statusandheaders import StatusAndHeadersParser
 from warcio.warcwriter import WARCWriter, BufferWARCWriter
 
 from tempfile import SpooledTemporaryFile
@@ -142,6 +143,8 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
 
 # ============================================================================
 class RequestRecorder(object):
+    parser = StatusAndHeadersParser([], verify=False)
+
     def __init__(self, writer, filter_func=None, record_ip=True):
         self.writer = writer
         self.filter_func = filter_func
@@ -185,12 +188,19 @@ class RequestRecorder(object):
     def _create_record(self, out, record_type):
         length = out.tell()
         out.seek(0)
+        http_headers = None
+        if length:
+            # whatever the client and the server agreed on, eg. any request method
+            http_headers = self.parser.parse(out)
+            length -= out.tell()
+
         return self.writer.create_warc_record(
                 warc_headers_dict=self.warc_headers,
                 uri=self.url,
                 record_type=record_type,
                 payload=out,
-                length=length)
+                length=length,
+                http_headers=http_headers)
 
     def done(self):
         if not self.started_req:
-- 
2.43.0


From 8f0d8f0d5322e88cb707922f2f7fb6c02ceb5506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 32/50] fix: capture: tunnel, proxy and IP address are those of
 the connection, not of an earlier one

---
 warcio/capture_http.py | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 3d62844..cefe289 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -100,6 +100,8 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
         else:
             self.recorder = None
 
+        self.recorder_tunnel = None
+
         def make_recording_response(*args, **kwargs):
             return RecordingHTTPResponse(self.recorder, *args, **kwargs)
 
@@ -111,6 +113,10 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
             orig_connection.send(self, data)
             return
 
+        # connect before the request is recorded, as it may set up a tunnel
+        if self.sock is None and self.auto_open:
+            self.connect()
+
         def send_request(buff):
             self.recorder.extract_url(buff, self.host, self.port, self.default_port)
 
@@ -130,14 +136,25 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
             send_request(data)
 
     def _tunnel(self, *args, **kwargs):
-        if self.recorder:
-            self.recorder.start_tunnel()
+        if not self.recorder:
+            return orig_connection._tunnel(self, *args, **kwargs)
+
+        started_req = self.recorder.started_req
+        self.recorder.start_tunnel()
+
+        res = orig_connection._tunnel(self, *args, **kwargs)
+
+        self.recorder_tunnel = self.recorder.get_tunnel()
 
-        return orig_connection._tunnel(self, *args, **kwargs)
+        # the request for which the tunnel was set up
+        if started_req:
+            self.recorder.start(self.recorder_tunnel)
+
+        return res
 
     def putrequest(self, *args, **kwargs):
         if self.recorder:
-            self.recorder.start()
+            self.recorder.start(self.recorder_tunnel)
         return orig_connection.putrequest(self, *args, **kwargs)
 
 
@@ -163,7 +180,16 @@ class RequestRecorder(object):
         self.started_req = False
         self.first_line_read = False
 
-    def start(self):
+    def get_tunnel(self):
+        return self.connect_host, self.connect_port, self.warc_headers.get('WARC-Proxy-Host')
+
+    def start(self, tunnel=None):
+        # proxy, tunnel and ip are those of this request, not of an earlier one
+        self.warc_headers = {}
+        self.connect_host = self.connect_port = None
+        if tunnel:
+            self.connect_host, self.connect_port, self.warc_headers['WARC-Proxy-Host'] = tunnel
+
         self.request_out = self._create_buffer()
         self.response_out = self._create_buffer()
         self.url = None
-- 
2.43.0


From f69ddf66250238bb1a11185e7e2c3704d39093da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 33/50] fix: capture: send text files and iterables as
 http.client does

---
 warcio/capture_http.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index cefe289..632e597 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -131,9 +131,24 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
                 if not buff:
                     break
 
+                # text file, sent as http.client does
+                if not isinstance(buff, bytes):
+                    buff = buff.encode('iso-8859-1')
+
                 send_request(buff)
-        else:
+        elif self._is_bytes_like(data):
             send_request(data)
+        else:
+            for buff in data:
+                send_request(buff)
+
+    @staticmethod
+    def _is_bytes_like(data):
+        try:
+            memoryview(data)
+            return True
+        except TypeError:
+            return False
 
     def _tunnel(self, *args, **kwargs):
         if not self.recorder:
-- 
2.43.0


From e148071193dbad40c0e7c29068026a433a833e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 34/50] fix: captured responses have a file number

---
 warcio/capture_http.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 632e597..1128255 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -81,6 +81,9 @@ class RecordingStream(object):
     def flush(self):
         return self.fp.flush()
 
+    def fileno(self):
+        return self.fp.fileno()
+
 
 # ============================================================================
 class RecordingHTTPResponse(httplib.HTTPResponse):
-- 
2.43.0


From 1494239c90dba4a68fbe8d084a9bd92831d1fc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 35/50] fix: capture: don't write to the closed file when a
 connection is used after the capture

---
 warcio/capture_http.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 1128255..45b40c3 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -192,6 +192,11 @@ class RequestRecorder(object):
         self.lock = threading.Lock()
         self.warc_headers = {}
         self.record_ip = record_ip
+        self.stopped = False
+
+    def stop(self):
+        with self.lock:
+            self.stopped = True
 
     def start_tunnel(self):
         self.connect_host = self.connect_port = None
@@ -260,6 +265,10 @@ class RequestRecorder(object):
                     return
 
             with self.lock:
+                # the file written to is closed
+                if self.stopped:
+                    return
+
                 self.writer.write_request_response_pair(request, response)
         finally:
             self.request_out.close()
@@ -334,6 +343,8 @@ def capture_http(warc_writer=None, filter_func=None, append=True,
     finally:
         RecordingHTTPConnection.local.recorder = None
         if out:
+            # connections that are still open keep their recorder
+            recorder.stop()
             out.close()
 
 
-- 
2.43.0


From 2b991ba848e835b185cc871e463e7d475a427ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:40 +0000
Subject: [PATCH 36/50] fix: capture: resume the outer capture when a nested
 one ends

---
 warcio/capture_http.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 45b40c3..6a7c7f8 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -335,13 +335,16 @@ def capture_http(warc_writer=None, filter_func=None, append=True,
         out = open(warc_writer, 'ab' if append else 'xb')
         warc_writer = WARCWriter(out, **kwargs)
 
+    # capture that this one is nested in, if any
+    outer = getattr(RecordingHTTPConnection.local, 'recorder', None)
+
     try:
         recorder = RequestRecorder(warc_writer, filter_func, record_ip=record_ip)
         RecordingHTTPConnection.local.recorder = recorder
         yield warc_writer
 
     finally:
-        RecordingHTTPConnection.local.recorder = None
+        RecordingHTTPConnection.local.recorder = outer
         if out:
             # connections that are still open keep their recorder
             recorder.stop()
-- 
2.43.0


From ee9108a641aa3bb8525657373770aeb9b429f9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:40 +0000
Subject: [PATCH 37/50] fix: capture: exchanges that overlap or are abandoned
 don't mix with others

---
 warcio/capture_http.py | 62 ++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 6a7c7f8..ae466c1 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -8,6 +8,8 @@ from contextlib import contextmanager
 
 from array import array
 
+from copy import copy
+
 from warcio.utils import to_native_str, BUFF_SIZE, open
 from warcio.statusandheaders import StatusAndHeadersParser
 from warcio.warcwriter import WARCWriter, BufferWARCWriter
@@ -157,23 +159,26 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
         if not self.recorder:
             return orig_connection._tunnel(self, *args, **kwargs)
 
-        started_req = self.recorder.started_req
-        self.recorder.start_tunnel()
-
-        res = orig_connection._tunnel(self, *args, **kwargs)
+        recorder = self.recorder
+        self.recorder = recorder.start_tunnel()
 
-        self.recorder_tunnel = self.recorder.get_tunnel()
+        try:
+            res = orig_connection._tunnel(self, *args, **kwargs)
+            self.recorder_tunnel = self.recorder.get_tunnel()
+        finally:
+            self.recorder = recorder
 
         # the request for which the tunnel was set up
-        if started_req:
-            self.recorder.start(self.recorder_tunnel)
+        if recorder.started_req:
+            self.recorder = recorder.start(self.recorder_tunnel)
 
         return res
 
     def putrequest(self, *args, **kwargs):
+        res = orig_connection.putrequest(self, *args, **kwargs)
         if self.recorder:
-            self.recorder.start(self.recorder_tunnel)
-        return orig_connection.putrequest(self, *args, **kwargs)
+            self.recorder = self.recorder.start(self.recorder_tunnel)
+        return res
 
 
 # ============================================================================
@@ -192,32 +197,39 @@ class RequestRecorder(object):
         self.lock = threading.Lock()
         self.warc_headers = {}
         self.record_ip = record_ip
-        self.stopped = False
+        self.stopped = threading.Event()
 
     def stop(self):
         with self.lock:
-            self.stopped = True
+            self.stopped.set()
 
     def start_tunnel(self):
-        self.connect_host = self.connect_port = None
-        self.started_req = False
-        self.first_line_read = False
+        """ recorder for the setting up of a tunnel, which is not recorded
+        """
+        recorder = copy(self)
+        recorder.warc_headers = {}
+        recorder.connect_host = recorder.connect_port = None
+        recorder.started_req = False
+        recorder.first_line_read = False
+        return recorder
 
     def get_tunnel(self):
         return self.connect_host, self.connect_port, self.warc_headers.get('WARC-Proxy-Host')
 
     def start(self, tunnel=None):
-        # proxy, tunnel and ip are those of this request, not of an earlier one
-        self.warc_headers = {}
-        self.connect_host = self.connect_port = None
+        """ recorder for one exchange, independent of any other
+        one that has not ended
+        """
+        recorder = self.start_tunnel()
         if tunnel:
-            self.connect_host, self.connect_port, self.warc_headers['WARC-Proxy-Host'] = tunnel
+            (recorder.connect_host, recorder.connect_port,
+             recorder.warc_headers['WARC-Proxy-Host']) = tunnel
 
-        self.request_out = self._create_buffer()
-        self.response_out = self._create_buffer()
-        self.url = None
-        self.started_req = True
-        self.first_line_read = False
+        recorder.request_out = self._create_buffer()
+        recorder.response_out = self._create_buffer()
+        recorder.url = None
+        recorder.started_req = True
+        return recorder
 
     def _create_buffer(self):
         return SpooledTemporaryFile(BUFF_SIZE)
@@ -255,6 +267,8 @@ class RequestRecorder(object):
         if not self.started_req:
             return
 
+        self.started_req = False
+
         try:
             request = self._create_record(self.request_out, 'request')
             response = self._create_record(self.response_out, 'response')
@@ -266,7 +280,7 @@ class RequestRecorder(object):
 
             with self.lock:
                 # the file written to is closed
-                if self.stopped:
+                if self.stopped.is_set():
                     return
 
                 self.writer.write_request_response_pair(request, response)
-- 
2.43.0


From f1782f07dbe1d7e56a45bbc4816510eb5e8a8dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 38/50] fix: convert datetimes that have a time zone to UTC
 dates

---
 warcio/timeutils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/warcio/timeutils.py b/warcio/timeutils.py
index 8847dd9..649a326 100644
--- a/warcio/timeutils.py
+++ b/warcio/timeutils.py
@@ -102,6 +102,14 @@ def datetime_to_http_date(the_datetime):
                       usegmt=True)
 
 
+def _naive_utc(the_datetime):
+    # datetimes without a time zone are in UTC
+    if the_datetime.tzinfo is None:
+        return the_datetime
+
+    return the_datetime.astimezone(timezone.utc).replace(tzinfo=None)
+
+
 def datetime_to_iso_date(the_datetime, use_micros=False):
     """
     >>> datetime_to_iso_date(datetime(2013, 12, 26, 10, 11, 12))
@@ -121,6 +129,8 @@ def datetime_to_iso_date(the_datetime, use_micros=False):
 
     """
 
+    the_datetime = _naive_utc(the_datetime)
+
     if not use_micros:
         return the_datetime.strftime(ISO_DT)
     else:
@@ -133,7 +143,7 @@ def datetime_to_timestamp(the_datetime):
     '20131226101112'
     """
 
-    return the_datetime.strftime(TIMESTAMP_14)
+    return _naive_utc(the_datetime).strftime(TIMESTAMP_14)
 
 
 def timestamp_now():
-- 
2.43.0


From acc5b475009fb9003b62d0cf9545046f5d1602a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 39/50] fix: records written after
 BufferWARCWriter.get_stream() don't overwrite earlier ones

---
 warcio/warcwriter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index 85197f0..1ffbdf0 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -147,6 +147,11 @@ class BufferWARCWriter(WARCWriter):
         out = self._create_temp_file()
         super(BufferWARCWriter, self).__init__(out, *args, **kwargs)
 
+    def _write_warc_record(self, out, record):
+        # get_stream() may have moved the position
+        out.seek(0, 2)
+        super(BufferWARCWriter, self)._write_warc_record(out, record)
+
     def get_contents(self):
         pos = self.out.tell()
         self.out.seek(0)
-- 
2.43.0


From 39aa64d12ff774112a3c1e3eee1da61ccc6af508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:43 +0000
Subject: [PATCH 40/50] fix: don't add a payload digest of the whole block when
 HTTP headers were not parsed

---
 warcio/recordbuilder.py | 14 +++++++++++++-
 warcio/recordloader.py  |  7 ++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 84166e3..ebf0571 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -167,7 +167,8 @@ class RecordBuilder(object):
 
         if payload:
             if (record.rec_headers.get_header('WARC-Payload-Digest') or
-                (record.rec_type in self.NO_PAYLOAD_DIGEST_TYPES)):
+                (record.rec_type in self.NO_PAYLOAD_DIGEST_TYPES) or
+                self._has_unparsed_http_headers(record)):
                 payload = False
 
         block_digester = self._create_digester() if block else None
@@ -230,6 +231,17 @@ class RecordBuilder(object):
 
         return http_headers.headers_buff != http_headers.stored_buff
 
+    @staticmethod
+    def _has_unparsed_http_headers(record):
+        """ True if the record was read without parsing its http headers,
+        so that it is not known where the payload starts
+        """
+        if record.http_headers is not None or record.length == 0:
+            return False
+
+        return ArcWarcRecordLoader.can_have_http_headers(
+            record.rec_type, record.rec_headers.get_header('WARC-Target-URI'))
+
     @staticmethod
     def _iter_stream(stream):
         while True:
diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index ba08e52..0d89de6 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -174,13 +174,14 @@ class ArcWarcRecordLoader(object):
                                        segment_number=segment_number)
         return stream, True
 
-    def can_have_http_headers(self, rec_type, uri):
+    @classmethod
+    def can_have_http_headers(cls, rec_type, uri):
         # only certain record types can have http headers
-        if rec_type not in self.HTTP_RECORDS:
+        if rec_type not in cls.HTTP_RECORDS:
             return False
 
         # only http:/https: uris can have http headers
-        return bool(uri) and uri.startswith(self.HTTP_SCHEMES)
+        return bool(uri) and uri.startswith(cls.HTTP_SCHEMES)
 
     def load_http_headers(self, rec_type, uri, stream, length):
         # only if length == 0 don't parse
-- 
2.43.0


From c70ddbb8a41b899fafc1b899251c5920c41ce6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:35 +0000
Subject: [PATCH 41/50] fix: keep a block that starts with an empty line when
 its HTTP headers are parsed

---
 warcio/statusandheaders.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index f4b15da..296d8d7 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -141,7 +141,9 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
         return self.to_str(exclude_list)
 
     def __bool__(self):
-        return bool(self.statusline or self.headers)
+        # headers read from a record are there even if all empty,
+        # so that they are written again
+        return bool(self.statusline or self.headers or self.stored_buff)
 
     __nonzero__ = __bool__
 
-- 
2.43.0


From fcf5db877ef247384728fdb4fdcc760662441c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:09 +0000
Subject: [PATCH 42/50] fix: encode non-ASCII text around an encoded header
 parameter only once

---
 warcio/statusandheaders.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index 296d8d7..24d20bf 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -213,6 +213,9 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
                     new_value = self.ENCODE_HEADER_RX.sub(do_encode, curr_value)
                     if new_value == curr_value:
                         new_value = quote(curr_value)
+                    else:
+                        # non-ascii text outside of a param value
+                        new_value = quote(new_value, safe=self.ASCII_CHARS)
 
                 self.headers[index] = (curr_name, new_value)
 
-- 
2.43.0


From 4af7789f738b1f163cb3d60ca468209b09b32d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 43/50] fix: block digest of a revisit record must not include
 the body that is not written

---
 warcio/recordbuilder.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index ebf0571..884de0a 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -195,7 +195,7 @@ class RecordBuilder(object):
             block_digester.update(record.http_headers.headers_buff)
 
         for buf in self._iter_stream(record.raw_stream):
-            if block_digester:
+            if block_digester and not self._http_headers_only(record):
                 block_digester.update(buf)
 
             if payload_digester:
@@ -218,14 +218,24 @@ class RecordBuilder(object):
         if block_digester:
             record.rec_headers.replace_header('WARC-Block-Digest', str(block_digester))
 
+    @staticmethod
+    def _http_headers_only(record):
+        """ True if only the http headers of the record are written
+        """
+        return record.rec_type == 'revisit' and bool(record.http_headers)
+
     def _http_headers_differ(self, record):
         """ True if the http headers are not written as they were stored in the
-        record that was read, so that its block digest doesn't apply anymore
+        record that was read (or without the rest of its block), so that its
+        block digest doesn't apply anymore
         """
         http_headers = record.http_headers
         if not http_headers or http_headers.stored_buff is None:
             return False
 
+        if self._http_headers_only(record) and record.payload_length > 0:
+            return True
+
         if not http_headers.headers_buff:
             http_headers.compute_headers_buffer(self.header_filter)
 
-- 
2.43.0


From 8a62217b436a9078e30f1de2562272610b7c1f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:06 +0000
Subject: [PATCH 44/50] fix: recompute a block digest when the http headers are
 then written differently

A block digest computed by ensure_digest(), or when the record was written
before, was kept when the record was written with other http headers, eg. by
a writer with a header_filter
---
 warcio/recordbuilder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 884de0a..fdaa4d9 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -217,6 +217,9 @@ class RecordBuilder(object):
 
         if block_digester:
             record.rec_headers.replace_header('WARC-Block-Digest', str(block_digester))
+            if record.http_headers:
+                # the digest doesn't apply if written with other http headers
+                record.http_headers.stored_buff = record.http_headers.headers_buff
 
     @staticmethod
     def _http_headers_only(record):
-- 
2.43.0


From 24075876cb60dfcee45721d0bb1e7011e81e0651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 45/50] fix: chunk terminators delivered in two parts

---
 warcio/bufferedreaders.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 5157739..9c1e4cd 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -368,7 +368,7 @@ class ChunkedDataReader(BufferedReader):
 
         if not chunk_size:
             # chunk_size 0 indicates end of file. read final bytes to compute digest.
-            final_data = self.stream.read(2)
+            final_data = self._read_line_end()
             try:
                 assert(final_data == b'\r\n' or self._is_cut_off(final_data))
             except AssertionError:
@@ -401,7 +401,7 @@ class ChunkedDataReader(BufferedReader):
         # if we successfully read a block without running out,
         # it should end in \r\n
         if not self.all_chunks_read:
-            clrf = self.stream.read(2)
+            clrf = self._read_line_end()
             if self._is_cut_off(clrf):
                 self.all_chunks_read = True
             elif clrf != b'\r\n':
@@ -413,6 +413,14 @@ class ChunkedDataReader(BufferedReader):
         # hand to base class for further processing
         self._process_read(data)
 
+    def _read_line_end(self):
+        line_end = self.stream.read(2)
+        # may be delivered in two parts
+        if len(line_end) == 1:
+            line_end += self.stream.read(1)
+
+        return line_end
+
     def _is_cut_off(self, line_end):
         # stream ended before or inside of the \r\n
         return (not self.raise_chunked_data_exceptions and
-- 
2.43.0


From 27622bf66dde97fab78952b0e6efb48f3406f4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:37 +0000
Subject: [PATCH 46/50] fix: a NUL in the name of a digest algorithm makes it
 unknown, not an error

---
 warcio/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/warcio/utils.py b/warcio/utils.py
index 49240e9..d2379e1 100644
--- a/warcio/utils.py
+++ b/warcio/utils.py
@@ -97,7 +97,11 @@ def headers_to_str_headers(headers):
 class Digester(object):
     def __init__(self, type_='sha1'):
         self.type_ = type_
-        self.digester = hashlib.new(type_)
+        try:
+            self.digester = hashlib.new(type_)
+        except TypeError:
+            # how hashlib refuses a name with a NUL in it
+            raise ValueError('unsupported hash type ' + repr(type_))
         if not self.digester.digest_size:
             raise ValueError('hash has no fixed size: ' + type_)
 
-- 
2.43.0


From 9d4fe74f15ae5fb22f12db95808edbc230e30000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:08 +0000
Subject: [PATCH 47/50] fix: chunk framing is checked also with python -O

---
 warcio/bufferedreaders.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 9c1e4cd..e2611bf 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -357,21 +357,21 @@ class ChunkedDataReader(BufferedReader):
         # decode length header
         try:
             # ensure line ends with \r\n
-            assert(length_header[-2:] == b'\r\n')
+            if length_header[-2:] != b'\r\n':
+                raise ValueError('no line end')
             chunk_size = length_header[:-2].split(b';')[0]
             chunk_size = int(chunk_size, 16)
             # sanity check chunk size
-            assert(0 <= chunk_size <= 2**31)
-        except (ValueError, AssertionError):
+            if not 0 <= chunk_size <= 2**31:
+                raise ValueError('chunk size out of range')
+        except ValueError:
             raise ChunkedDataException(b"Couldn't decode length header " +
                                        length_header)
 
         if not chunk_size:
             # chunk_size 0 indicates end of file. read final bytes to compute digest.
             final_data = self._read_line_end()
-            try:
-                assert(final_data == b'\r\n' or self._is_cut_off(final_data))
-            except AssertionError:
+            if final_data != b'\r\n' and not self._is_cut_off(final_data):
                 raise ChunkedDataException(b"Incorrect \r\n after length header of 0")
             self.all_chunks_read = True
             self._process_read(b'')
-- 
2.43.0


From 9a1a5740e18246b9382a3c09aae28957bf86677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:08 +0000
Subject: [PATCH 48/50] fix: status codes are checked also with python -O

---
 warcio/statusandheaders.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index 24d20bf..70e9085 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -95,9 +95,10 @@ class StatusAndHeaders(object):
         code = self.get_statuscode()
         try:
             code = int(code)
-            assert(code > 0)
+            if code <= 0:
+                raise ValueError('not a status code')
             return True
-        except(ValueError, AssertionError):
+        except ValueError:
             self.statusline = valid_statusline
             return False
 
-- 
2.43.0


From b0a12c56fb73f1a05377b231df1eaced2a53351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:08 +0000
Subject: [PATCH 49/50] fix: records of unknown length are written right also
 with python -O

---
 warcio/recordbuilder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index fdaa4d9..456f5e9 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -182,7 +182,8 @@ class RecordBuilder(object):
         temp_file = None
         try:
             # force buffering if no length is set
-            assert(has_length)
+            if not has_length:
+                raise ValueError('length not known')
             pos = record.raw_stream.tell()
             record.raw_stream.seek(pos)
         except:
-- 
2.43.0


From cb8f2a4b51d408ada5abd1d2b784406621d0fffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:08 +0000
Subject: [PATCH 50/50] fix: revisits without a digest are refused also with
 python -O

---
 warcio/recordbuilder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 456f5e9..d13c13a 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -62,7 +62,8 @@ class RecordBuilder(object):
     def create_revisit_record(self, uri, digest, refers_to_uri, refers_to_date,
                               http_headers=None, warc_headers_dict=None):
 
-        assert digest, 'Digest can not be empty'
+        if not digest:
+            raise AssertionError('Digest can not be empty')
         if warc_headers_dict is None:
             warc_headers_dict = dict()
 
-- 
2.43.0

