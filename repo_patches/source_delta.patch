From d157b9f5d9eddbc0234da1f3b2cc06d0c437e4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 01/66] fix: base58 decoding fails on every foreign character
 and leaks nothing

A foreign character at index i was reported as -i, so one at the very start
looked like success with no data, and a failed allocation looked like
success too. Report the 1-based position, free the work buffer on overflow.
---
 coda/base58.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/coda/base58.c b/coda/base58.c
index 56d863d..fb7b1c3 100644
--- a/coda/base58.c
+++ b/coda/base58.c
@@ -237,7 +237,7 @@ ssize_t coda_base58_decode (const char* in, size_t inlen, char* out)
     char *b256_curr = NULL;
     b256_begin = b256_curr = (char*)calloc (b256len, sizeof(char));
     if (!b256_begin)
-        return -_inlen + inlen;
+        return -1;
 
     while (inlen)
     {
@@ -253,14 +253,17 @@ ssize_t coda_base58_decode (const char* in, size_t inlen, char* out)
             carry /= 256;
         }
         if (carry)
-            return -_inlen + inlen;
+        {
+            free(b256_begin);
+            return -_inlen + inlen - 1;
+        }
         inlen--;
     }
 
     if (inlen != 0)
     {
         free(b256_begin);
-        return -_inlen + inlen;
+        return -_inlen + inlen - 1;
     }
 
     while (b256len && !*b256_curr)
@@ -295,7 +298,7 @@ ssize_t coda_base58_decode_alloc (const char *in, size_t inlen, char **out)
     size_t needlen = zeroes + b256len * 733 / 1000 + 1;
     *out = malloc (needlen);
     if (!*out)
-        return true;
+        return -1;
 
     ssize_t ret = coda_base58_decode (in, inlen, *out);
     if (ret < 0)
-- 
2.43.0


From f1d509c7a0a0557c6fb5b8baeeefc5a764541781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 02/66] fix: coda_base58_encode_alloc returns the length of the
 text

It returned the estimated capacity, which is often more than the length.
---
 coda/base58.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coda/base58.c b/coda/base58.c
index fb7b1c3..af97284 100644
--- a/coda/base58.c
+++ b/coda/base58.c
@@ -1,5 +1,6 @@
 #include "base58.h"
 #include <stdlib.h>
+#include <string.h>
 #include <limits.h>
 #include <stdio.h>
 
@@ -75,7 +76,7 @@ size_t coda_base58_encode_alloc (const char *in, size_t inlen, char **out)
         return outlen;
 
     coda_base58_encode (in, inlen, *out, outlen);
-    return outlen - 1;
+    return strlen (*out);
 }
 
 #define B58(_)                 \
-- 
2.43.0


From f4dfdd15af4e8d0183aa278773dd09c39bbe9899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:49 +0000
Subject: [PATCH 03/66] fix: coda_base64_decode_alloc reports the needed size
 when out of memory

As its comment documents; *outlen was left untouched.
---
 coda/base64.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/coda/base64.c b/coda/base64.c
index a285b21..dd3c740 100644
--- a/coda/base64.c
+++ b/coda/base64.c
@@ -407,7 +407,11 @@ coda_base64_decode_alloc (const char *in, size_t inlen, char **out,
 
   *out = malloc (needlen);
   if (!*out)
-    return true;
+    {
+      if (outlen)
+	*outlen = needlen;
+      return true;
+    }
 
   if (!coda_base64_decode (in, inlen, *out, &needlen))
     {
-- 
2.43.0


From 8dbf630d80af3510379d1db28ade9c923aee48e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:04 +0000
Subject: [PATCH 04/66] fix: coda_strnstr and coda_strxstr only look at the
 given bytes

They read the first byte even when the length is zero, and found nothing
in a buffer that starts with a NUL byte (so a header line starting with one
swallowed the rest of the headers).
---
 coda/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coda/string.c b/coda/string.c
index c8d8502..a038180 100644
--- a/coda/string.c
+++ b/coda/string.c
@@ -91,7 +91,7 @@ char *coda_strnstr(const char *s, const char *n, size_t len)
 	const char *w;
 	const char *x;
 
-	if (!s || !*s) return NULL;
+	if (!s || !len) return NULL;
 	if (!n || !*n) return (char *) s;
 
 	if (len < (nsz = strlen(n))) return NULL;
@@ -123,7 +123,7 @@ char *coda_strxstr(const char *s, const char *n, size_t len)
 	const char *en;
 	size_t nsz;
 
-	if (!s || !*s) return NULL;
+	if (!s || !len) return NULL;
 	if (!n || !*n) return (char *) s;
 	if (len < (nsz = strlen(n))) return NULL;
 
-- 
2.43.0


From 02a4e16dcc32256cfa5eb867408a3a1428a75f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:04 +0000
Subject: [PATCH 05/66] fix: coda_revnspn and coda_revxspn count only matching
 bytes

They counted one more whenever a foreign byte ended the run. The URL parser,
their only caller, made up for it.
---
 coda/string.c       | 12 ++++++++----
 coda/url_parser.cpp |  6 +++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/coda/string.c b/coda/string.c
index a038180..4623ce3 100644
--- a/coda/string.c
+++ b/coda/string.c
@@ -208,14 +208,16 @@ size_t coda_revnspn(const char *s, const char *n, size_t len)
 {
 	const char *b = s - 1;
 	const char *p = s - 1 + len;
-	const char *x = n;
+	const char *x;
 
-	for (; p > b && *x; --p)
+	for (; p > b; --p)
 	{
 		for (x = n; *x; ++x)
 		{
 			if (*p == *x) break;
 		}
+
+		if (!*x) break;
 	}
 
 	return s - 1 + len - p;
@@ -225,14 +227,16 @@ size_t coda_revxspn(const char *s, const char *n, size_t len)
 {
 	const char *b = s - 1;
 	const char *p = s - 1 + len;
-	const char *x = n;
+	const char *x;
 
-	for (; p > b && *x; --p)
+	for (; p > b; --p)
 	{
 		for (x = n; *x; ++x)
 		{
 			if (tolower(*p) == tolower(*x)) break;
 		}
+
+		if (!*x) break;
 	}
 
 	return s - 1 + len - p;
diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 7a0ab27..2113e1c 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -202,9 +202,9 @@ int coda_url::assign_anchor(char *beg, uint32_t flags)
 
 	if (end != (p = end - coda_revnspn(beg, ".", end - beg)))
 	{
-		memmove(p + 1, end, val_str + val_len - end);
-		val_len -= end - (p + 1);
-			end -= end - (p + 1);
+		memmove(p, end, val_str + val_len - end);
+		val_len -= end - p;
+			end -= end - p;
 	}
 
 	p = end;
-- 
2.43.0


From 5048c732808513736da7b54eb9963ac930ebf902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:04 +0000
Subject: [PATCH 06/66] fix: case-ignoring character searches find non-ASCII
 bytes

tolower() of a negative char is positive, and never equal to that value
stored back into a char.
---
 coda/string.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/coda/string.c b/coda/string.c
index 4623ce3..e9a1996 100644
--- a/coda/string.c
+++ b/coda/string.c
@@ -13,9 +13,10 @@ char* coda_strnchr(const char* s, char c, size_t len)
 char *coda_strxchr(const char *s, char c, size_t len)
 {
 	const char *e = s + len;
-	for (c = tolower(c); s < e; ++s)
+	const int lower = tolower((unsigned char) c);
+	for (; s < e; ++s)
 	{
-		if (c == tolower(*s)) return (char *) s;
+		if (lower == tolower((unsigned char) *s)) return (char *) s;
 	}
 	return NULL;
 }
@@ -33,9 +34,10 @@ char *coda_revnchr(const char *s, char c, size_t len)
 char *coda_revxchr(const char *s, char c, size_t len)
 {
 	const char *b = s - 1;
-	for (s = b + len, c = tolower(c); s > b; --s)
+	const int lower = tolower((unsigned char) c);
+	for (s = b + len; s > b; --s)
 	{
-		if (c == tolower(*s)) return (char *) s;
+		if (lower == tolower((unsigned char) *s)) return (char *) s;
 	}
 	return NULL;
 }
@@ -53,9 +55,10 @@ size_t coda_strnchp(const char *s, char c, size_t len)
 size_t coda_strxchp(const char *s, char c, size_t len)
 {
 	size_t p = 0;
-	for (c = tolower(c); p < len; ++p)
+	const int lower = tolower((unsigned char) c);
+	for (; p < len; ++p)
 	{
-		if (c == tolower(s[p])) return p;
+		if (lower == tolower((unsigned char) s[p])) return p;
 	}
 	return len;
 }
-- 
2.43.0


From c1ac924838703440db928f3544a8497d6a493d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:04 +0000
Subject: [PATCH 07/66] fix: coda_get_uint64set adds nothing for an element
 that is not a number

It added the uninitialised (or previous) value.
---
 coda/string.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index 890671c..5ae73a1 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -157,8 +157,10 @@ void coda_get_uint64set(const char* str, std::set<uint64_t>& result)
 	while (i)
 	{
 		uint64_t temp;
-		sscanf(i, "%" PRIu64, &temp);
-		result.insert(temp);
+		if (1 == sscanf(i, "%" PRIu64, &temp))
+		{
+			result.insert(temp);
+		}
 		i = strchr(i, ',');
 		if (i)
 		{
-- 
2.43.0


From 28fdde4a011edbe2a04b9f689077bd6af6d79f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:04 +0000
Subject: [PATCH 08/66] fix: a NUL byte is not a delimiter when splitting a
 sized buffer

strchr() finds the terminator of the delimiter string.
---
 coda/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index 5ae73a1..74936fa 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -205,7 +205,7 @@ std::vector<std::string> coda_split_string(const char *src, size_t size, const c
 
 	for (; p < e; ++p)
 	{
-		if (NULL != strchr(delimiters, *p))
+		if (*p && NULL != strchr(delimiters, *p))
 		{
 			if (prev_ptr < p || !ignore_empty)
 			{
-- 
2.43.0


From 04cb893a36366921f6e14d1c3c4221833d31f5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:24 +0000
Subject: [PATCH 09/66] fix: long formatted strings do not overflow the stack

Text longer than the first buffer was formatted into alloca()ted memory, so a
few megabytes crashed. coda_strprintf also keeps NUL bytes, like the others.
---
 coda/string.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index 74936fa..37b01d0 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -17,13 +17,15 @@ std::string coda_strprintf(const char *fmt, ...)
 
 	if (BUFSZ <= bytes)
 	{
-		BUF = (char *) alloca(bytes + 1);
+		std::string out(bytes + 1, '\0');
 		va_start(ap, fmt);
-		vsnprintf(BUF, bytes + 1, fmt, ap);
+		vsnprintf(&out[0], bytes + 1, fmt, ap);
 		va_end(ap);
+		out.resize(bytes);
+		return out;
 	}
 
-	return BUF;
+	return std::string(BUF, 0 < bytes ? bytes : 0);
 }
 
 int coda_strappend(std::string& out, const char* fmt, ...)
@@ -37,10 +39,12 @@ int coda_strappend(std::string& out, const char* fmt, ...)
 
 	if (BUFSZ <= bytes)
 	{
-		BUF = (char *) alloca(bytes + 1);
+		std::string tmp(bytes + 1, '\0');
 		va_start(ap, fmt);
-		vsnprintf(BUF, bytes + 1, fmt, ap);
+		vsnprintf(&tmp[0], bytes + 1, fmt, ap);
 		va_end(ap);
+		out.append(tmp, 0, bytes);
+		return bytes;
 	}
 
 	out.append(BUF, bytes);
-- 
2.43.0


From 870af4fad672471d572e8ea3096bd96a30d1dded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:24 +0000
Subject: [PATCH 10/66] fix: coda_strnappend and coda_strnprintf take any limit

A limit of 2^31 or more was compared as a negative int, and memory was
allocated for the limit instead of for the text.
---
 coda/string.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index 37b01d0..1995406 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -72,13 +72,19 @@ int coda_strnappend(std::string& out, size_t num, const char* fmt, ...)
 	}
 	else
 	{
-		char* BUF = new char [num + 1];
+		va_list aq;
+		va_copy(aq, ap);
 
-		if ((int) num < (bytes = vsnprintf(BUF, num + 1, fmt, ap)))
+		if ((bytes = vsnprintf(NULL, 0, fmt, aq)) > 0 && num < (size_t) bytes)
 		{
 			bytes = num;
 		}
 
+		va_end(aq);
+
+		char* BUF = new char [bytes + 1];
+
+		vsnprintf(BUF, bytes + 1, fmt, ap);
 		out.append(BUF, bytes);
 
 		delete [] BUF;
@@ -111,13 +117,19 @@ int coda_strnprintf(std::string& out, size_t pos, size_t num, const char* fmt, .
 	}
 	else
 	{
-		char* BUF = new char [num + 1];
+		va_list aq;
+		va_copy(aq, ap);
 
-		if ((int) num < (bytes = vsnprintf(BUF, num + 1, fmt, ap)))
+		if ((bytes = vsnprintf(NULL, 0, fmt, aq)) > 0 && num < (size_t) bytes)
 		{
 			bytes = num;
 		}
 
+		va_end(aq);
+
+		char* BUF = new char [bytes + 1];
+
+		vsnprintf(BUF, bytes + 1, fmt, ap);
 		out.insert(pos, BUF, bytes);
 
 		delete [] BUF;
-- 
2.43.0


From 72af267fe4665a44f344a65ceade8ce09de33d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 11/66] fix: coda_urldec copies a '%' that is not followed by
 two hex digits

Such a '%' and the two characters after it became one byte, often a NUL.
---
 coda/url.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coda/url.cpp b/coda/url.cpp
index 1b5078b..2b0d146 100644
--- a/coda/url.cpp
+++ b/coda/url.cpp
@@ -1,3 +1,4 @@
+#include <ctype.h>
 #include <limits.h>
 #include <stdint.h>
 #include <stdio.h>
@@ -143,7 +144,7 @@ size_t coda_urldec(char* dst, const char* src, size_t sz_src)
 
 	while (psrc < esrc)
 	{
-		if (*psrc == '%' && psrc < esrc - 2)
+		if (*psrc == '%' && psrc < esrc - 2 && isxdigit(psrc[1]) && isxdigit(psrc[2]))
 		{
 			*pdst++ = table_urldec[*(psrc+1)] * 0x10 + table_urldec[*(psrc+2)] * 0x01;
 			psrc += 3;
@@ -228,7 +229,7 @@ std::string coda_urldec(const char* src, size_t sz_src)
 
 	while (psrc < esrc)
 	{
-		if (*psrc == '%' && psrc < esrc - 2)
+		if (*psrc == '%' && psrc < esrc - 2 && isxdigit(psrc[1]) && isxdigit(psrc[2]))
 		{
 			dst.push_back(table_urldec[*(psrc+1)] * 0x10 + table_urldec[*(psrc+2)] * 0x01);
 			psrc += 3;
-- 
2.43.0


From bbf07be447654d4ccfb1facd5093cefad02cbcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 12/66] fix: coda_url_escape handles non-ASCII bytes and every
 buffer size

A byte from 0x80 on indexed its table with a negative number and came out as
%FFFFFFxx, a buffer of less than three bytes was overrun, and the last three
bytes of a larger one were not used.
---
 coda/url.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/coda/url.cpp b/coda/url.cpp
index 2b0d146..1f513b6 100644
--- a/coda/url.cpp
+++ b/coda/url.cpp
@@ -267,24 +267,27 @@ void coda_url_escape(const char *s, char *dest, size_t sz)
 {
 	memset(dest, 0, sz);
 	size_t ptr = 0;
-	sz -= 3;
-	while (*s && (ptr < sz))
+	for (; *s; s++)
 	{
-		//if (*s & 0x80 != 0)
-		if (table_urlenc[*s >> 5] & (1 << (*s & 0x1f)))
+		const u_char c = *s;
+		const bool enc = table_urlenc[c >> 5] & (1 << (c & 0x1f));
+
+		if (sz - ptr <= (enc ? 3 : 1)) break;
+
+		if (enc)
 		{
-			ptr += snprintf(dest + ptr, sz - ptr, "%%%02X", *s);
+			dest[ptr++] = '%';
+			dest[ptr++] = table_hexval[c >> 4];
+			dest[ptr++] = table_hexval[c & 0xf];
 		}
-		else if (*s == ' ')
+		else if (c == ' ')
 		{
 			dest[ptr++] = '+';
 		}
 		else
 		{
-			dest[ptr++] = *s;
+			dest[ptr++] = c;
 		}
-
-		s++;
 	}
 }
 
-- 
2.43.0


From b40cafd4d5cb9a28a338859ab1e7fa19fa21eac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 13/66] fix: coda_url_unescape handles every buffer size and
 four-digit %u

A buffer of less than two bytes was overrun, the last two bytes of a larger
one were not used, %uXXXX swallowed the hex digits that follow it, and U+007F
was dropped.
---
 coda/url.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/coda/url.cpp b/coda/url.cpp
index 1f513b6..cd1c13c 100644
--- a/coda/url.cpp
+++ b/coda/url.cpp
@@ -295,7 +295,7 @@ void coda_url_unescape(const char *s, char *dest, size_t sz)
 {
 	memset(dest, 0, sz);
 	size_t ptr = 0;
-	while (*s && (ptr < sz - 2))
+	while (*s && (ptr + 1 < sz))
 	{
 		if (*s == '+')
 		{
@@ -315,16 +315,22 @@ void coda_url_unescape(const char *s, char *dest, size_t sz)
 		}
 		else if ((*s == '%') && (s[1] == 'u') && isxdigit(s[2]))
 		{
-			char *ns;
-			uint32_t c = strtol(s + 2, &ns, 16);
-			s = ns;
+			char xnum[5];
+			size_t n = 0;
+			for (s += 2; n < 4 && isxdigit(*s); s++)
+			{
+				xnum[n++] = *s;
+			}
+			xnum[n] = 0;
+			uint32_t c = strtol(xnum, 0, 16);
 			/* doing only russian letters */
 			if ((c < 0x0800) && (c > 0x7F))
 			{
+				if (sz - ptr <= 2) break;
 				dest[ptr++] = ((c >> 6) | 0xc0);
 				dest[ptr++] = ((c & 0x3f) | 0x80);
 			}
-			else if (c < 0x7F)
+			else if (c <= 0x7F)
 			{
 				dest[ptr++] = c;
 			}
@@ -347,7 +353,7 @@ void coda_url_unescape(const char *s, char *dest, size_t sz)
 			s++;
 		}
 	}
-	dest[ptr] = 0;
+	if (sz) dest[ptr] = 0;
 }
 
 void coda_url_preunescape(const char* s, char* dest, size_t sz)
-- 
2.43.0


From 209c4b17a92278092b7db58aa1fadf6168715f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 14/66] fix: coda_url_preunescape stays in its buffer and keeps
 ASCII escapes

It wrote up to six bytes after the end of the buffer, and an \\xXX escape of
an ASCII byte was overwritten by what follows it.
---
 coda/url.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/coda/url.cpp b/coda/url.cpp
index cd1c13c..d166923 100644
--- a/coda/url.cpp
+++ b/coda/url.cpp
@@ -359,7 +359,7 @@ void coda_url_unescape(const char *s, char *dest, size_t sz)
 void coda_url_preunescape(const char* s, char* dest, size_t sz)
 {
 	size_t ptr = 0;
-	while (*s && (ptr < sz + 5))
+	while (*s && (ptr + 1 < sz))
 	{
 		if ((*s == '%') && isxdigit(s[1]) && isxdigit(s[2]))
 		{
@@ -375,7 +375,8 @@ void coda_url_preunescape(const char* s, char* dest, size_t sz)
 			}
 			else
 			{
-				if (ptr + 4 < sz) memcpy(dest + ptr, s, 3);
+				if (sz - ptr <= 3) break;
+				memcpy(dest + ptr, s, 3);
 				ptr += 3;
 			}
 			s += 3;
@@ -394,7 +395,9 @@ void coda_url_preunescape(const char* s, char* dest, size_t sz)
 			}
 			else
 			{
-				if (ptr + 3 < sz) memcpy(dest + ptr, s, 4);
+				if (sz - ptr <= 4) break;
+				memcpy(dest + ptr, s, 4);
+				ptr += 4;
 			}
 			s += 4;
 		}
@@ -405,6 +408,6 @@ void coda_url_preunescape(const char* s, char* dest, size_t sz)
 			s++;
 		}
 	}
-	dest[ptr] = 0;
+	if (sz) dest[ptr] = 0;
 }
 
-- 
2.43.0


From b371952c56843012a7cc991721f223eb09982baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:56 +0000
Subject: [PATCH 15/66] fix: URL creation does not look for a prefix beyond the
 given bytes

create_absolute("http://...", 4) took the scheme from the bytes after the
given ones and worked on memory it had not filled.
---
 coda/url_parser.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 2113e1c..5e8653f 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -84,6 +84,11 @@ int coda_url::reset()
 	return 0;
 }
 
+static bool starts_with(const char *u, size_t sz, const char *prefix, size_t len)
+{
+	return len <= sz && NULL != coda_strxstr(u, prefix, len);
+}
+
 int coda_url::create_absolute(const char *u, size_t sz, uint32_t flags)
 {
 	if (!empty() || 0 == sz || NULL == u)
@@ -109,7 +114,7 @@ int coda_url::create_relative(const char *u, size_t sz, uint32_t flags, const co
 
 	val_str = (char *) malloc(2 + 2 * sz + parent.val_len + parent.dom_len); // if relative, parent may be bigger than u
 
-	if (coda_strxstr(u, "http://", 7) || coda_strxstr(u, "https://", 8))
+	if (starts_with(u, sz, "http://", 7) || starts_with(u, sz, "https://", 8))
 	{
 		create_scheme(u, sz, flags);
 
@@ -133,13 +138,13 @@ int coda_url::create_relative(const char *u, size_t sz, uint32_t flags, const co
 
 int coda_url::create_scheme(const char *u, size_t sz, uint32_t flags)
 {
-	if (coda_strxstr(u, "https://", 8))
+	if (starts_with(u, sz, "https://", 8))
 	{
 		val_len += coda_cpymsz(val_str, u, sz);
 		return assign_anchor(val_str + 8, flags);
 	}
 
-	if (coda_strxstr(u, "http://", 7))
+	if (starts_with(u, sz, "http://", 7))
 	{
 		val_len += coda_cpymsz(val_str, u, sz);
 		return assign_anchor(val_str + 7, flags);
@@ -341,8 +346,8 @@ int coda_url::assign_refers(char *beg, uint32_t flags)
 
 int coda_url::create_suburl(const char *u, size_t sz, uint32_t flags, const coda_url &parent)
 {
-	if (NULL != coda_strxstr(u, "mailto:", 7)) return -1;
-	if (NULL != coda_strxstr(u, "javascript:", 11)) return -1;
+	if (starts_with(u, sz, "mailto:", 7)) return -1;
+	if (starts_with(u, sz, "javascript:", 11)) return -1;
 	if ( '#' == *u) return -1;
 
 	size_t sz_dom = (parent.val_str[4] != 's' ? 7 : 8);
-- 
2.43.0


From 978d50d4f6aa156e36e10b67abe6e13a6b17e533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:56 +0000
Subject: [PATCH 16/66] fix: self-assignment of a coda_url keeps its value

It copied from the buffer it had just freed.
---
 coda/url_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 5e8653f..bad9aef 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -36,6 +36,11 @@ coda_url::coda_url(const coda_url &u)
 
 coda_url &coda_url::operator= (const coda_url &u)
 {
+	if (this == &u)
+	{
+		return *this;
+	}
+
 	if (allocated())
 	{
 		free(val_str);
-- 
2.43.0


From e4c30b1dfe5cfa1fa76f72bc298b3be8c37c8f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:56 +0000
Subject: [PATCH 17/66] fix: references resolve against a parent with an
 upper-case HTTPS scheme

Its second slash was taken for the end of the host.
---
 coda/url_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index bad9aef..6bd8ab1 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -355,7 +355,7 @@ int coda_url::create_suburl(const char *u, size_t sz, uint32_t flags, const coda
 	if (starts_with(u, sz, "javascript:", 11)) return -1;
 	if ( '#' == *u) return -1;
 
-	size_t sz_dom = (parent.val_str[4] != 's' ? 7 : 8);
+	size_t sz_dom = (tolower(parent.val_str[4]) != 's' ? 7 : 8);
 	size_t sz_pub = sz_dom = coda_strnchr(parent.val_str + sz_dom,
 		'/', parent.val_len - sz_dom) - parent.val_str;
 
-- 
2.43.0


From 06dad72285439086c29cf60d23358687897b7403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 18/66] fix: overwriting a cache entry keeps the cache within
 its size limit

---
 coda/cache.tcc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coda/cache.tcc b/coda/cache.tcc
index e2dac3b..30f87e2 100644
--- a/coda/cache.tcc
+++ b/coda/cache.tcc
@@ -66,6 +66,8 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 				res.first->second.time = time(NULL);
 			}
 
+			drop_last_unused();
+
 			return;
 		}
 
@@ -96,6 +98,8 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 			res.first->second.time = time(NULL);
 		}
 
+		drop_last_unused();
+
 		return;
 	}
 
-- 
2.43.0


From 7ea53261566c2e92db6daf8fb1b0308e18c74fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 19/66] fix: cache entries with a huge maximum lifetime do not
 expire at once

---
 coda/cache.hpp |  1 +
 coda/cache.tcc | 13 +++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/coda/cache.hpp b/coda/cache.hpp
index 811034e..eea0b56 100644
--- a/coda/cache.hpp
+++ b/coda/cache.hpp
@@ -45,6 +45,7 @@ class coda_cache
 	size_t size_max;
 	size_t time_max;
 
+	bool is_outdated(const elem_t &elem) const;
 	void drop_last_unused();
 
 public:
diff --git a/coda/cache.tcc b/coda/cache.tcc
index 30f87e2..60b33b5 100644
--- a/coda/cache.tcc
+++ b/coda/cache.tcc
@@ -7,7 +7,7 @@ const Val *coda_cache<Key, Val>::get(const Key &key)
 
 	if (it != data.end())
 	{
-		if (time_max && it->second.time + time_max < (size_t) time(NULL))
+		if (time_max && is_outdated(it->second))
 		{
 			erase(it);
 			return NULL;
@@ -28,7 +28,7 @@ void coda_cache<Key, Val>::get(const Key &key, Val &val)
 
 	if (it != data.end())
 	{
-		if (time_max && it->second.time + time_max < (size_t) time(NULL))
+		if (time_max && is_outdated(it->second))
 		{
 			erase(it);
 		}
@@ -162,6 +162,15 @@ bool coda_cache<Key, Val>::erase(const Key &key)
 	return erase(data.find(key));
 }
 
+template <typename Key, typename Val>
+bool coda_cache<Key, Val>::is_outdated(const elem_t &elem) const
+{
+	size_t time_cur = time(NULL);
+
+	/* NOTE, that (elem.time + time_max) could overflow */
+	return elem.time < time_cur && time_max < time_cur - elem.time;
+}
+
 template <typename Key, typename Val>
 void coda_cache<Key, Val>::drop_last_unused()
 {
-- 
2.43.0


From f6cd168a635162744b0f7054b44e1b1ad672ef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:03 +0000
Subject: [PATCH 20/66] fix: string storage refuses every string that does not
 fit into a block

---
 coda/stringstorage.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coda/stringstorage.c b/coda/stringstorage.c
index c832f39..24deeeb 100644
--- a/coda/stringstorage.c
+++ b/coda/stringstorage.c
@@ -142,7 +142,8 @@ void *string_storage_add(string_storage *ss, const char *s)
 {
 	size_t len = strlen(s) + 1;
 
-	if (len + ss->sb.user_data_size > STORAGE_BLOCK_SIZE) return 0;
+	/* NOTE, that one more byte is used for the prefix length */
+	if (ss->sb.user_data_size >= STORAGE_BLOCK_SIZE || 1 + len + ss->sb.user_data_size > STORAGE_BLOCK_SIZE) return 0;
 
 	return internal_find_add(&ss->sb, &ss->root, 0, s, 1);
 }
-- 
2.43.0


From 8e8f9dbdf6a09b7a6dab618744bc53da8e590e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:03 +0000
Subject: [PATCH 21/66] fix: string storage takes common prefixes only from the
 same group

---
 coda/stringstorage.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coda/stringstorage.c b/coda/stringstorage.c
index 24deeeb..8df6caa 100644
--- a/coda/stringstorage.c
+++ b/coda/stringstorage.c
@@ -97,7 +97,8 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 	}
 
 	/* 2. check how many bytes common with previous string */
-	if (begin != 0) common_bytes = get_common_prefix_size(s, r->children[begin - 1].value + sb->user_data_size + 1);
+	/* (only when previous string is relative to the same prefix) */
+	if (begin != 0 && *(uint8_t*)(r->children[begin - 1].value) == prev_bytes) common_bytes = get_common_prefix_size(s, r->children[begin - 1].value + sb->user_data_size + 1);
 
 	if (common_bytes > 8)
 	{
-- 
2.43.0


From a186fd972d831fccbb61f9627e36c736d043b850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:03 +0000
Subject: [PATCH 22/66] fix: string storage keeps prefix lengths within one
 byte

---
 coda/stringstorage.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coda/stringstorage.c b/coda/stringstorage.c
index 8df6caa..6810610 100644
--- a/coda/stringstorage.c
+++ b/coda/stringstorage.c
@@ -73,7 +73,7 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 {
 	size_t begin = 0;
 	size_t end = r->child_count;
-	uint8_t common_bytes = 0;
+	size_t common_bytes = 0;
 	size_t len;
 	char *newvalue;
 
@@ -100,6 +100,9 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 	/* (only when previous string is relative to the same prefix) */
 	if (begin != 0 && *(uint8_t*)(r->children[begin - 1].value) == prev_bytes) common_bytes = get_common_prefix_size(s, r->children[begin - 1].value + sb->user_data_size + 1);
 
+	/* prefix length is stored in one byte */
+	if (common_bytes > (size_t)(UINT8_MAX - prev_bytes)) common_bytes = UINT8_MAX - prev_bytes;
+
 	if (common_bytes > 8)
 	{
 		return internal_find_add(sb, &r->children[begin - 1], prev_bytes + common_bytes, s + common_bytes, doadd);
-- 
2.43.0


From 8d3387c93946aed23a0c6e896afe221dab11a42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:23 +0000
Subject: [PATCH 23/66] fix: coda_random_init closes the random device when
 reading fails

---
 coda/random.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coda/random.c b/coda/random.c
index d74da55..76e26ed 100644
--- a/coda/random.c
+++ b/coda/random.c
@@ -20,10 +20,10 @@ int coda_random_init()
 	uint32_t rnd_from_device;
 
 	int rc = read(fd, &rnd_from_device, sizeof(rnd_from_device));
-	if (0 > rc) return -1;
-
 	close(fd);
 
+	if (rc != sizeof(rnd_from_device)) return -1;
+
 	srandom(rnd_from_device);
 	coda_random_inited = 1;
 
-- 
2.43.0


From f58b571e36d8e018df6fcedec3aa7fea854bb665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:23 +0000
Subject: [PATCH 24/66] fix: log_array elements of every numeric type start
 with zero

---
 coda/log_array.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coda/log_array.hpp b/coda/log_array.hpp
index 7252675..3ae68d9 100644
--- a/coda/log_array.hpp
+++ b/coda/log_array.hpp
@@ -15,6 +15,7 @@ struct log_array_value_holder
 
 template<typename _T>
 inline log_array_value_holder<_T>::log_array_value_holder()
+	: value()
 {
 }
 
-- 
2.43.0


From 8f27297dce0e7391ea28e5cf380e19bf048b6407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:33 +0000
Subject: [PATCH 25/66] fix: coda_inet_addr refuses empty and overflowing
 octets

---
 coda/socket.h | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/coda/socket.h b/coda/socket.h
index eecfcaa..082777b 100644
--- a/coda/socket.h
+++ b/coda/socket.h
@@ -68,10 +68,11 @@ in_addr_t coda_inet_addr(const char *data, size_t size)
 {
 	const char *p;
 	in_addr_t addr;
-	uintptr_t octet, n;
+	uintptr_t octet, digits, n;
 
 	addr = 0;
 	octet = 0;
+	digits = 0;
 	n = 0;
 
 	for (p = data; p < data + size; ++p)
@@ -81,13 +82,16 @@ in_addr_t coda_inet_addr(const char *data, size_t size)
 		if (c >= '0' && c <= '9')
 		{
 			octet = octet * 10 + (c - '0');
+			if (octet > 255) return INADDR_NONE;
+			digits++;
 			continue;
 		}
 
-		if (c == '.' && octet < 256)
+		if (c == '.' && digits > 0)
 		{
 			addr = (addr << 8) + octet;
 			octet = 0;
+			digits = 0;
 			n++;
 			continue;
 		}
@@ -95,18 +99,13 @@ in_addr_t coda_inet_addr(const char *data, size_t size)
 		return INADDR_NONE;
 	}
 
-	if (n != 3)
+	if (n != 3 || digits == 0)
 	{
 		return INADDR_NONE;
 	}
 
-	if (octet < 256)
-	{
-		addr = (addr << 8) + octet;
-		return htonl(addr);
-	}
-
-	return INADDR_NONE;
+	addr = (addr << 8) + octet;
+	return htonl(addr);
 }
 
 static inline
-- 
2.43.0


From cf2d025fdb96f3cbd81062e6e517dc89a48eaff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:57 +0000
Subject: [PATCH 26/66] fix: coda_listen refuses a host that is not an address

---
 coda/socket.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/coda/socket.h b/coda/socket.h
index 082777b..f27862e 100644
--- a/coda/socket.h
+++ b/coda/socket.h
@@ -133,6 +133,13 @@ int coda_listen(const char *host, const char *port, int backlog, int nonblock)
 	addr.sin_addr.s_addr = inet_addr(host);
 	addr.sin_port = htons(strtoul(port, NULL, 10));
 
+	if (INADDR_NONE == addr.sin_addr.s_addr)
+	{
+		close(sd);
+		errno = EINVAL;
+		return -1;
+	}
+
 	if (0 > (rc = bind(sd, (struct sockaddr *) &addr, sizeof(addr))))
 	{
 		close(sd);
-- 
2.43.0


From 2e812804b46d595f5091a4d63008cff20088a246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:18 +0000
Subject: [PATCH 27/66] fix: coda_set_socket_timeout takes timeouts of one
 second and more

---
 coda/socket.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coda/socket.h b/coda/socket.h
index f27862e..752d395 100644
--- a/coda/socket.h
+++ b/coda/socket.h
@@ -32,8 +32,8 @@ int coda_set_socket_timeout(int s, long timeout)
 {
 	struct timeval tv;
 
-	tv.tv_sec = 0;
-	tv.tv_usec = timeout;
+	tv.tv_sec = timeout / 1000000;
+	tv.tv_usec = timeout % 1000000;
 
 	return setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, (struct timeval *) &tv, sizeof(tv));
 }
-- 
2.43.0


From 3aac7da2f55224c6f6890dbcdef05db410dc2615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:18 +0000
Subject: [PATCH 28/66] fix: log_create does not write into its constant path

---
 coda/logger.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/coda/logger.c b/coda/logger.c
index a51975a..0f77477 100644
--- a/coda/logger.c
+++ b/coda/logger.c
@@ -1,7 +1,9 @@
 #define _GNU_SOURCE
 #include <errno.h>
 #include <fcntl.h>
+#include <limits.h>
 #include <stdarg.h>
+#include <string.h>
 #include <unistd.h>
 #include <pthread.h>
 #include "logger.h"
@@ -38,7 +40,15 @@ int log_levels(const char* level)
 
 int log_create(const char* path, int level)
 {
-	if (0 > coda_mkpath((char *) path)) return -1;
+	char dirs [PATH_MAX];
+
+	if (sizeof(dirs) <= strlen(path))
+	{
+		errno = ENAMETOOLONG;
+		return -1;
+	}
+
+	if (0 > coda_mkpath(strcpy(dirs, path))) return -1;
 	if (0 > coda_fdopen(STDERR_FILENO, path, O_CREAT|O_APPEND|O_WRONLY)) return -1;
 
 	log_level = level;
-- 
2.43.0


From 9c30bd493824cc845472d9417f7a43282d008d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:18 +0000
Subject: [PATCH 29/66] fix: log_err, log_ret and log_die end the line once

---
 coda/logger.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coda/logger.h b/coda/logger.h
index 08dc849..9997814 100644
--- a/coda/logger.h
+++ b/coda/logger.h
@@ -26,9 +26,9 @@ extern "C" {
 #define LOG_debug   8  /* DBG: debug message                     */
 
 #define log_msg(lev,fmt,...) log_fmt(stderr,LOG_##lev,#lev,fmt,##__VA_ARGS__)
-#define log_err(err,fmt,...) log_msg(error,fmt " (%d: %s)\n", ##__VA_ARGS__, err, coda_strerror(err))
-#define log_ret(err,fmt,...) log_msg(error,fmt " (%d: %s)\n", ##__VA_ARGS__, err, coda_strerror(err)), err
-#define log_die(err,fmt,...) log_msg(emerg,fmt " (%d: %s)\n", ##__VA_ARGS__, err, coda_strerror(err)); exit(EXIT_FAILURE)
+#define log_err(err,fmt,...) log_msg(error,fmt " (%d: %s)", ##__VA_ARGS__, err, coda_strerror(err))
+#define log_ret(err,fmt,...) log_msg(error,fmt " (%d: %s)", ##__VA_ARGS__, err, coda_strerror(err)), err
+#define log_die(err,fmt,...) log_msg(emerg,fmt " (%d: %s)", ##__VA_ARGS__, err, coda_strerror(err)); exit(EXIT_FAILURE)
 
 #define log_access( fmt,...) log_msg(access,fmt,##__VA_ARGS__)
 #define log_emerg(  fmt,...) log_msg(emerg, fmt,##__VA_ARGS__)
-- 
2.43.0


From dc54db3bdfce4eb147ef83858c0e66fea0adbf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:18 +0000
Subject: [PATCH 30/66] fix: coda_mkpath does not read beyond an empty path

---
 coda/system.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coda/system.c b/coda/system.c
index a60cf60..fbabd9a 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -35,9 +35,11 @@ int coda_fdopen(int fd, const char* path, int flags)
 int coda_mkpath(char* path)
 {
 	int rc;
-	char* p = path + 1;
+	char* p;
 
-	for (; *p; ++p)
+	if (0 == *path) return 0;
+
+	for (p = path + 1; *p; ++p)
 	{
 		if (*p != '/') continue;
 
-- 
2.43.0


From 8b7301e2e734c68f1bd994a56d473477e12a5cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:18 +0000
Subject: [PATCH 31/66] fix: coda_fdopen closes the new file when it cannot be
 moved

---
 coda/system.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/coda/system.c b/coda/system.c
index fbabd9a..619faee 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -24,12 +24,15 @@ int coda_fdmove(int fd, int nd) /* if nd is ebadf or eq-to-fd => fd is returned
 
 int coda_fdopen(int fd, const char* path, int flags)
 {
-	int td;
+	int td, nd;
 
 	td = open(path, flags, 0644);
 	if (0 > td) return -1;
 
-	return coda_fdmove(td, fd);
+	nd = coda_fdmove(td, fd);
+	if (0 > nd) close(td);
+
+	return nd;
 }
 
 int coda_mkpath(char* path)
-- 
2.43.0


From 6739b9fd328c65694870ec684d6911dfb38255d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:18 +0000
Subject: [PATCH 32/66] fix: coda_mkpidf fails when the id cannot be written
 completely

---
 coda/system.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coda/system.c b/coda/system.c
index 619faee..a3bff13 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -99,8 +99,9 @@ int coda_mkpidf(const char* path)
 		return -1;
 	}
 
-	if (0 > write(fd, buf, nb))
+	if (nb != write(fd, buf, nb))
 	{
+		if (0 > ftruncate(fd, 0)) log_emerg("can't clear pid-file %s", path);
 		flock(fd, LOCK_UN);
 		close(fd);
 		return -1;
-- 
2.43.0


From cd1e3463982cc997b051f497e27ca1fab428c4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:18 +0000
Subject: [PATCH 33/66] fix: the signal handler keeps errno

---
 coda/daemon.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/coda/daemon.c b/coda/daemon.c
index c2f5477..5610176 100644
--- a/coda/daemon.c
+++ b/coda/daemon.c
@@ -1,4 +1,5 @@
 #define _GNU_SOURCE
+#include <errno.h>
 #include <fcntl.h>
 #include <getopt.h>
 #include <stdlib.h>
@@ -200,11 +201,15 @@ volatile int coda_changebin = 0;
 static
 void coda_signal_handle(int sig)
 {
+    int err = errno;
+
     switch (sig)
     {
     CODA_SIG_LIST(CODA_SIG_CASE)
 	CODA_SIG_CASE_DEFAULT(sig)
     }
+
+    errno = err;
 }
 
 int coda_signal_init()
-- 
2.43.0


From de56a77220e823ca7514d8db2d2bd3b9eb6ec74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:18 +0000
Subject: [PATCH 34/66] fix: coda_signal_init_norestart does not inherit flags
 of earlier handlers

---
 coda/daemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/daemon.c b/coda/daemon.c
index 5610176..e616629 100644
--- a/coda/daemon.c
+++ b/coda/daemon.c
@@ -181,7 +181,7 @@ int coda_daemon_stop(coda_getopt_t* opt)
 #define CODA_SIG_INIT_NORESTART(name,hand,glob_hand) do { \
     struct sigaction sa;                                  \
     if (0 > sigaction((SIG##name), NULL, &sa)) return -1; \
-    sa.sa_flags &= ~SA_RESTART;                           \
+    sa.sa_flags = 0;                                      \
     sa.sa_handler = (glob_hand);                          \
     if (0 > sigaction((SIG##name), &sa, NULL)) return -1; \
 } while (0);
-- 
2.43.0


From 9266564697f5f3a437872a0e7940589dd55860f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:30 +0000
Subject: [PATCH 35/66] fix: log lines are written at once, not in pieces

---
 coda/logger.c | 34 ++++++++++++++++++++++++++++++++++
 coda/logger.h |  6 ++++--
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/coda/logger.c b/coda/logger.c
index 0f77477..9321e16 100644
--- a/coda/logger.c
+++ b/coda/logger.c
@@ -3,6 +3,7 @@
 #include <fcntl.h>
 #include <limits.h>
 #include <stdarg.h>
+#include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
 #include <pthread.h>
@@ -55,6 +56,39 @@ int log_create(const char* path, int level)
 	return STDERR_FILENO;
 }
 
+/* the line goes out in one write: fprintf to an unbuffered stream writes it in pieces */
+
+int log_fprintf(FILE* fp, const char* fmt, ...)
+{
+	char buf [4096];
+	char* data = buf;
+	va_list ap;
+	int n;
+
+	va_start(ap, fmt);
+	n = vsnprintf(buf, sizeof(buf), fmt, ap);
+	va_end(ap);
+
+	if (0 > n) return -1;
+
+	if (sizeof(buf) <= (size_t) n)
+	{
+		data = malloc(n + 1);
+
+		va_start(ap, fmt);
+		if (NULL != data) vsnprintf(data, n + 1, fmt, ap);
+		else n = vfprintf(fp, fmt, ap);
+		va_end(ap);
+
+		if (NULL == data) return n;
+	}
+
+	if ((size_t) n != fwrite(data, 1, n, fp)) n = -1;
+	if (data != buf) free(data);
+
+	return n;
+}
+
 /* thread */
 
 pthread_key_t  log_thread_name;
diff --git a/coda/logger.h b/coda/logger.h
index 9997814..9dd090a 100644
--- a/coda/logger.h
+++ b/coda/logger.h
@@ -8,6 +8,7 @@
 #include <stdio.h>
 #include <sys/time.h>
 #include <pthread.h>
+#include "coda.h"
 #include "gmtime.h"
 #include "system.h"
 
@@ -60,12 +61,12 @@ extern "C" {
                                                                             \
         if (NULL != (tname = log_thread_name_get()))                        \
         {                                                                   \
-            fprintf(fp, LOG_FORMAT(lvstr,"%s",fmt),                         \
+            log_fprintf(fp, LOG_FORMAT(lvstr,"%s",fmt),                         \
                 LOG_VALUES(tmloc,tv,tname,##__VA_ARGS__));                  \
         }                                                                   \
         else                                                                \
         {                                                                   \
-            fprintf(fp, LOG_FORMAT(lvstr,"%lu",fmt),                        \
+            log_fprintf(fp, LOG_FORMAT(lvstr,"%lu",fmt),                        \
                 LOG_VALUES(tmloc,tv,(unsigned long)pthread_self(),##__VA_ARGS__)); \
         }                                                                   \
     }                                                                       \
@@ -75,6 +76,7 @@ extern "C" {
 extern volatile int log_level;
 int log_levels(const char* level);
 int log_create(const char* path, int level);
+int log_fprintf(FILE* fp, const char* fmt, ...) CODA_FORMAT(printf, 2, 3);
 int log_thread_name_set(const char* name);
 const char* log_thread_name_get();
 
-- 
2.43.0


From 0912fff7ea05642c481e8129ca9e22a218e5194d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:20 +0000
Subject: [PATCH 36/66] fix: coda_signal_mask tests the bit of signal 31
 without overflow

---
 coda/daemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/daemon.c b/coda/daemon.c
index e616629..bec3c33 100644
--- a/coda/daemon.c
+++ b/coda/daemon.c
@@ -186,7 +186,7 @@ int coda_daemon_stop(coda_getopt_t* opt)
     if (0 > sigaction((SIG##name), &sa, NULL)) return -1; \
 } while (0);
 
-#define CODA_SIG_MASK(name,hand,sset,mask) if (((mask) & (1 << (SIG##name))) && 0 > sigaddset(&(sset),(SIG##name))) return -1;
+#define CODA_SIG_MASK(name,hand,sset,mask) if (((mask) & (1u << (SIG##name))) && 0 > sigaddset(&(sset),(SIG##name))) return -1;
 #define CODA_SIG_CASE_terminate coda_terminate = 1
 #define CODA_SIG_CASE_changecfg coda_changecfg = 1
 #define CODA_SIG_CASE_rotatelog coda_rotatelog = 1
-- 
2.43.0


From 56951d6429a88f142f1c07a9d8b32be687b6c40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:49 +0000
Subject: [PATCH 37/66] fix: the signal handler logs without taking locks the
 interrupted code may hold

---
 coda/daemon.c | 50 ++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/coda/daemon.c b/coda/daemon.c
index bec3c33..daa2b71 100644
--- a/coda/daemon.c
+++ b/coda/daemon.c
@@ -174,8 +174,8 @@ int coda_daemon_stop(coda_getopt_t* opt)
 /*  _(UNUSED , ignoremsg, ##__VA_ARGS__) */ \
 /*  _(EMT    , ignoremsg, ##__VA_ARGS__) */
 
-#define CODA_SIG_CASE(name,hand) case SIG##name: log_notice(QUOTES_NAME(SIG##name)"("QUOTES_DATA(SIG##name)"): "#hand); CODA_SIG_CASE_##hand; break;
-#define CODA_SIG_CASE_DEFAULT(n) default: log_notice("DEFAULT CASE in coda_signal_handle(%d) - sigaction is not defined", n); break;
+#define CODA_SIG_CASE(name,hand) case SIG##name: coda_signal_log(QUOTES_NAME(SIG##name)"("QUOTES_DATA(SIG##name)"): "#hand); CODA_SIG_CASE_##hand; break;
+#define CODA_SIG_CASE_DEFAULT(n) default: coda_signal_log("DEFAULT CASE in coda_signal_handle - sigaction is not defined"); break;
 #define CODA_SIG_INIT(name,hand,glob_hand) if (SIG_ERR == signal((SIG##name), (glob_hand))) return -1;
 
 #define CODA_SIG_INIT_NORESTART(name,hand,glob_hand) do { \
@@ -198,6 +198,50 @@ volatile int coda_changecfg = 0;
 volatile int coda_rotatelog = 0;
 volatile int coda_changebin = 0;
 
+static long coda_signal_gmtoff;
+
+/* what log_notice needs and a handler must not do: takes the locks of localtime_r and pthread_once */
+
+static
+void coda_signal_log_init()
+{
+    struct tm tmloc;
+    time_t now = time(NULL);
+
+    if (NULL != localtime_r(&now, &tmloc)) coda_signal_gmtoff = tmloc.tm_gmtoff;
+    log_thread_name_get();
+}
+
+/* log_notice for the handler, which may interrupt (or be interrupted by) anything, including logging */
+
+static
+void coda_signal_log(const char* msg)
+{
+    char data [512];
+    char tid [32];
+    const char* tname;
+    struct timespec ts;
+    struct tm tmloc;
+    int n;
+
+    if (LOG_notice > log_level) return;
+
+    clock_gettime(CLOCK_REALTIME, &ts);
+    coda_gmtime(ts.tv_sec + coda_signal_gmtoff, &tmloc);
+
+    if (NULL == (tname = log_thread_name_get()))
+    {
+        snprintf(tid, sizeof(tid), "%lu", (unsigned long) pthread_self());
+        tname = tid;
+    }
+
+    n = snprintf(data, sizeof(data), "%04d-%02d-%02d %02d:%02d:%02d.%03d notice %.300s %s\n",
+        tmloc.tm_year, tmloc.tm_mon, tmloc.tm_mday, tmloc.tm_hour, tmloc.tm_min, tmloc.tm_sec,
+        (int) (ts.tv_nsec / 1000000), tname, msg);
+
+    if (0 < n && 0 > write(STDERR_FILENO, data, n)) return;
+}
+
 static
 void coda_signal_handle(int sig)
 {
@@ -214,12 +258,14 @@ void coda_signal_handle(int sig)
 
 int coda_signal_init()
 {
+    coda_signal_log_init();
     CODA_SIG_LIST(CODA_SIG_INIT, coda_signal_handle)
     return 0;
 }
 
 int coda_signal_init_norestart()
 {
+	coda_signal_log_init();
 	CODA_SIG_LIST(CODA_SIG_INIT_NORESTART, coda_signal_handle);
 	return 0;
 }
-- 
2.43.0


From 550321733c1189647c362ab1dbac940ad9556bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:13 +0000
Subject: [PATCH 38/66] fix: coda_mkpidf does not log into the pid file when
 standard error is closed

---
 coda/system.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/coda/system.c b/coda/system.c
index a3bff13..4fb6b20 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -69,8 +69,8 @@ int coda_mkpidf(const char* path)
 
 	if (0 > flock(fd, LOCK_EX|LOCK_NB))
 	{
-		log_emerg("can't lock pid-file %s", path);
 		close(fd);
+		log_emerg("can't lock pid-file %s", path);
 		return -1;
 	}
 
@@ -78,17 +78,17 @@ int coda_mkpidf(const char* path)
 
 	if (0 > fstat(fd, &st))
 	{
-		log_emerg("can't stat locked pid-file %s", path);
 		flock(fd, LOCK_UN);
 		close(fd);
+		log_emerg("can't stat locked pid-file %s", path);
 		return -1;
 	}
 
 	if (st.st_size > 0)
 	{
-		log_emerg("pid-file %s exists", path);
 		flock(fd, LOCK_UN);
 		close(fd);
+		log_emerg("pid-file %s exists", path);
 		return -1;
 	}
 
@@ -101,9 +101,10 @@ int coda_mkpidf(const char* path)
 
 	if (nb != write(fd, buf, nb))
 	{
-		if (0 > ftruncate(fd, 0)) log_emerg("can't clear pid-file %s", path);
+		nb = ftruncate(fd, 0);
 		flock(fd, LOCK_UN);
 		close(fd);
+		if (0 > nb) log_emerg("can't clear pid-file %s", path);
 		return -1;
 	}
 
-- 
2.43.0


From bcada22cd9fbaf2accb1e308a2d1a980329de3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:40 +0000
Subject: [PATCH 39/66] fix: shm::hash_map::disconnect releases the mapping
 (shmdt was given the pointer already set to zero)

---
 coda/shm_hash_map.tcc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 07d85d0..d15965a 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -447,13 +447,14 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::disconnect()
 		return;
 	}
 
+	uint8_t *mem_p = shmem_p;
+
 	detach();
 
 	sem_id = -1;
 	shm_id = -1;
 
-	shmdt(shmem_p);
-	shmem_p = 0;
+	shmdt(mem_p);
 }
 
 template <typename _Type, int _OBJECTS_NUM, int _HASH_SIZE>
-- 
2.43.0


From e3f876e8e88e9ebf24b3a10265ba45003e7a7267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:40 +0000
Subject: [PATCH 40/66] fix: an shm::hash_map whose connect failed can be
 connected again, and does not release a lock it did not get

---
 coda/shm_hash_map.tcc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index d15965a..8f963c7 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -428,6 +428,15 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect(const char *key_fna
 	try
 	{
 		lock_write_rw();
+	}
+	catch (const std::exception& e)
+	{
+		disconnect();
+		throw;
+	}
+
+	try
+	{
 		attach(shmem_p);
 		unlock_write_rw();
 	}
@@ -442,6 +451,9 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect(const char *key_fna
 template <typename _Type, int _OBJECTS_NUM, int _HASH_SIZE>
 void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::disconnect()
 {
+	sem_id = -1;
+	shm_id = -1;
+
 	if (!is_connected())
 	{
 		return;
@@ -451,9 +463,6 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::disconnect()
 
 	detach();
 
-	sem_id = -1;
-	shm_id = -1;
-
 	shmdt(mem_p);
 }
 
-- 
2.43.0


From 5873bd86bb52cab0a7de9a5f41a7fa32889e1fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:40 +0000
Subject: [PATCH 41/66] fix: creating an shm::hash_map does not reset locks
 other processes already hold

---
 coda/shm_hash_map.tcc | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 8f963c7..3c0297b 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -391,23 +391,11 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect_sem(const char *key
 		throw coda_error("error creating key from file %s: %s", key_fname, coda_strerror(errno));
 	}
 
-	if (-1 == (sem_id = semget(key, 2, 0)))
+	// both semaphores of a new set are zero (nobody holds a lock), and another process
+	// may already be using it, so their values are left alone
+	if (-1 == (sem_id = semget(key, 2, IPC_CREAT | 0666)))
 	{
-		if (-1 == (sem_id = semget(key, 2, IPC_CREAT | 0666)))
-		{
-			throw coda_error("error getting sem: %s", coda_strerror(errno));
-		}
-
-		// now set initial values for _GUARD semaphores
-		if (-1 == semctl(sem_id, mySEM_R, SETVAL, (0)))
-		{
-			throw coda_error("error setting sem: %s", coda_strerror(errno));
-		}
-
-		if (-1 == semctl(sem_id, mySEM_W, SETVAL, (0)))
-		{
-			throw coda_error("error setting sem: %s", coda_strerror(errno));
-		}
+		throw coda_error("error getting sem: %s", coda_strerror(errno));
 	}
 }
 
-- 
2.43.0


From f8c9ca3472b74d3cc104eb6de221197b16e91e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:18 +0000
Subject: [PATCH 42/66] fix: connecting an shm::hash_map never clears the
 header of an existing map

---
 coda/shm_hash_map.tcc | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 3c0297b..7d78869 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -343,17 +343,11 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect_shm(const char *key
 		throw coda_error("error creating key from file %s: %s", key_fname, coda_strerror(errno));
 	}
 
-	bool created = false;
-
-	if (-1 == (shm_id = shmget(key, required_space(), 0666)))
+	// a new segment is all zeros, which attach() takes for a map yet to be initialised
+	if (-1 == (shm_id = shmget(key, required_space(), IPC_CREAT | 0666)))
 	{
-		// not created? creating...
-		if (-1 == (shm_id = shmget(key, required_space(), IPC_CREAT | 0666)))
-		{
-			unlock_write_rw();
-			throw coda_error("error creating queue shm: %s", coda_strerror(errno));
-		}
-		created = true;
+		unlock_write_rw();
+		throw coda_error("error creating queue shm: %s", coda_strerror(errno));
 	}
 
 	//printf("ShmID: %d\n", shm_id);
@@ -366,11 +360,6 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect_shm(const char *key
 		throw coda_error("error attaching queue shmem: %s", coda_strerror(errno));
 	}
 
-	if (true == created)
-	{
-		memset(ptr, 0, 1024); //we clear only header memory space
-	}
-
 	shmem_p = ptr;
 
 	unlock_write_rw();
-- 
2.43.0


From 142d5751fcbbc187892a67731654902c4c0afb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:18 +0000
Subject: [PATCH 43/66] fix: a process killed while freeing a slot of a shared
 map does not leave a stale slot number on the free stack

---
 coda/shm_stack.hpp | 7 +++++++
 coda/shm_stack.tcc | 4 +++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/coda/shm_stack.hpp b/coda/shm_stack.hpp
index cb4803b..a169062 100644
--- a/coda/shm_stack.hpp
+++ b/coda/shm_stack.hpp
@@ -6,6 +6,13 @@
 
 namespace shm {
 
+// keeps the writes before it before those after it, so that whatever instruction a process is killed at,
+// it leaves the shared memory in one of the states the source goes through
+inline void write_order()
+{
+	__asm__ __volatile__("" ::: "memory");
+}
+
 template <typename _Type, int _OBJECTS_NUM>
 class stack
 {
diff --git a/coda/shm_stack.tcc b/coda/shm_stack.tcc
index 67b1b7c..27c726c 100644
--- a/coda/shm_stack.tcc
+++ b/coda/shm_stack.tcc
@@ -79,7 +79,9 @@ inline bool shm::stack<_Type, _OBJECTS_NUM>::push(const _Type& el)
 	}
 	else
 	{
-		data[++(*current)] = el;
+		data[used()] = el;
+		write_order();
+		++(*current);
 
 		return true;
 	}
-- 
2.43.0


From ee988d2fa09ed63d81f801bebc9f3f9f44ae3412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:18 +0000
Subject: [PATCH 44/66] fix: a process killed while clearing a shared map
 leaves no slot both in use and free

---
 coda/shm_hash_map.tcc | 5 +++--
 coda/shm_pool.tcc     | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 7d78869..e8a8ab1 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -202,13 +202,14 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::clear()
 {
 	lock_write_rw();
 
-	nodes_pool.clear();
-
 	for (uint32_t i = 0; i < _HASH_SIZE; i++)
 	{
 		hash[i] = (uint32_t) -1;
 	}
 
+	write_order();
+	nodes_pool.clear();
+
 	unlock_write_rw();
 }
 
diff --git a/coda/shm_pool.tcc b/coda/shm_pool.tcc
index e624030..d05ba7e 100644
--- a/coda/shm_pool.tcc
+++ b/coda/shm_pool.tcc
@@ -96,7 +96,8 @@ size_t shm::pool<_Type, _OBJECTS_NUM>::allocated_objects()
 template <typename _Type, int _OBJECTS_NUM>
 void shm::pool<_Type, _OBJECTS_NUM>::clear()
 {
-	*current = 0;
 	free_nodes.clear();
+	write_order();
+	*current = 0;
 }
 
-- 
2.43.0


From b50899d6592854e8432ba12131229c16440d6cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:18 +0000
Subject: [PATCH 45/66] fix: the compiler may not reorder the writes that link
 and unlink entries of a shared map

---
 coda/shm_hash_map.tcc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index e8a8ab1..1d9f131 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -251,6 +251,7 @@ bool shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::unprotected_insert(uint64_t
 				objects[new_node].p.key = key;
 				objects[new_node].p.value = val;
 				objects[new_node].next = (uint32_t)(-1);
+				write_order();
 
 				objects[el].next = new_node;
 
@@ -270,6 +271,7 @@ bool shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::unprotected_insert(uint64_t
 		objects[new_node].p.key = key;
 		objects[new_node].p.value = val;
 		objects[new_node].next = (uint32_t)(-1);
+		write_order();
 
 		hash[hash_index] = new_node;
 
@@ -288,7 +290,9 @@ bool shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::unprotected_erase(uint64_t
 		if (key == objects[elem].p.key)
 		{
 			hash[hash_index] = objects[elem].next;
+			write_order();
 			objects[elem].next = (uint32_t) -1;
+			write_order();
 
 			nodes_pool.free(elem);
 
@@ -305,7 +309,9 @@ bool shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::unprotected_erase(uint64_t
 				if (key == objects[elem].p.key)
 				{
 					objects[prev].next = objects[elem].next;
+					write_order();
 					objects[elem].next = (uint32_t) -1;
+					write_order();
 
 					nodes_pool.free(elem);
 
-- 
2.43.0


From 56720c97438c43468c5404a3f3cea4a9c32f0f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:18 +0000
Subject: [PATCH 46/66] fix: a process killed while initialising a shared map
 leaves it to be initialised by the next one

---
 coda/shm_hash_map.tcc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 1d9f131..0ae2ea8 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -50,25 +50,34 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::attach(void * mem_begin) th
 	int map_data_size = floor1024(nodes_pool.data_size());
 	uint8_t *hash_p = mem_p + map_header_size + map_stacks_size + map_data_size;
 
-	if (0 == *objects_num && 0 == *item_size && 0 == *hash_size)
+	if (0 == *hash_size)
 	{
 		// kto perviy vstal togo i tapki!
-		*objects_num = _OBJECTS_NUM;
-		*item_size = sizeof(_Type);
-		*hash_size = _HASH_SIZE;
+		// (hash_size is written last: if it is zero, nobody has finished this)
+		memset(mem_p, 0, map_header_size);
 
 		for (uint32_t i = 0; i < _HASH_SIZE; i++)
 		{
 			((uint32_t *) hash_p)[i] = (uint32_t)(-1);
 		}
+
+		nodes_pool.attach(nodes_header_p, nodes_stack_p, nodes_pool_p);
+
+		*objects_num = _OBJECTS_NUM;
+		*item_size = sizeof(_Type);
+		write_order();
+		*hash_size = _HASH_SIZE;
 	}
 	else if (_OBJECTS_NUM != *objects_num || sizeof(_Type) != *item_size || _HASH_SIZE != *hash_size)
 	{
 		throw coda_error("hash_map attaching error: expected hash_map<sizeof(_Type)=%d, %d, %d>, but target is hash_map<sizeof(_Type)=%d, %d, %d>",
 			(int)sizeof(_Type), (int)_OBJECTS_NUM, (int)_HASH_SIZE, (int)*item_size, (int)*objects_num, (int)*hash_size);
 	}
+	else
+	{
+		nodes_pool.attach(nodes_header_p, nodes_stack_p, nodes_pool_p);
+	}
 
-	nodes_pool.attach(nodes_header_p, nodes_stack_p, nodes_pool_p);
 	hash = (uint32_t *) hash_p;
 
 	shmem_p = mem_p;
-- 
2.43.0


From d9b202c69a86725e7157b635b0d69e8e33f2d4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:41 +0000
Subject: [PATCH 47/66] fix: a failed shm_queue connect releases the lock, does
 not read through a null pointer, and can be tried again

---
 coda/shm_queue.tcc | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 9e2942f..6416bbe 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -163,14 +163,12 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 
 	if ((BOX_SIZE != info->box_size) || (MAX_BOXES_IN_QUEUE != info->size))
 	{
-		shmdt(info);
-		info = 0;
-
-		throw coda_error("box_size(%d) in queue is not equal to %d", info->box_size, BOX_SIZE);
+		throw coda_error("shm_queue::queue<>: %u boxes of %u bytes in queue, not %u of %u",
+			info->size, info->box_size, MAX_BOXES_IN_QUEUE, BOX_SIZE);
 	}
 
-	boxes = ptr;
 	current_box.allocate(BOX_SIZE);
+	boxes = ptr;
 }
 
 template <typename _T>
@@ -221,24 +219,46 @@ void shm_queue::queue<_T>::connect_sem(const char *key_fname)
 template <typename _T>
 void shm_queue::queue<_T>::connect(const char *key_fname, uint32_t bs, uint32_t mbiq)
 {
+	if (-1 != sem_id)
+	{
+		throw coda_error("shm_queue::queue<>: queue already connected");
+	}
+
 	BOX_SIZE = bs;
 	MAX_BOXES_IN_QUEUE = mbiq;
 
-	connect_sem(key_fname);
-	lock_queue();
-	connect_shm(key_fname);
-	unlock_queue();
+	try
+	{
+		connect_sem(key_fname);
+		lock_queue();
+
+		try
+		{
+			connect_shm(key_fname);
+		}
+		catch (...)
+		{
+			unlock_queue();
+			throw;
+		}
+
+		unlock_queue();
+	}
+	catch (...)
+	{
+		disconnect();
+		throw;
+	}
 }
 
 template <typename _T>
 void shm_queue::queue<_T>::disconnect()
 {
-	if (NULL == info)
+	if (NULL != info)
 	{
-		return;
+		shmdt(info);
 	}
 
-	shmdt(info);
 	info = NULL;
 	boxes = NULL;
 	current_box.deallocate();
-- 
2.43.0


From 35254c91ef1107ead81e7965288768285b2c7c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:41 +0000
Subject: [PATCH 48/66] fix: a signal arriving while an shm_queue waits for its
 lock does not let it go on without it

---
 coda/shm_queue.tcc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 6416bbe..9cddaed 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -409,7 +409,14 @@ void shm_queue::queue<_T>::lock_queue()
 	sem.sem_num = SEM_ID_0;
 	sem.sem_op = -1;
 	sem.sem_flg = SEM_UNDO;
-	semop(sem_id, &sem, 1);
+
+	while (-1 == semop(sem_id, &sem, 1))
+	{
+		if (EINTR != errno)
+		{
+			throw coda_error("shm_queue::queue<>: error locking queue: %s", coda_strerror(errno));
+		}
+	}
 }
 
 template <typename _T>
-- 
2.43.0


From 433503c7c03b9c2fefa0fbc1f8f2fd3b0e455d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:41 +0000
Subject: [PATCH 49/66] fix: processes creating an shm_queue at the same time
 do not reset each other's lock, box count or boxes

---
 coda/shm_queue.hpp |  7 +++++++
 coda/shm_queue.tcc | 52 +++++++++++++++++-----------------------------
 2 files changed, 26 insertions(+), 33 deletions(-)

diff --git a/coda/shm_queue.hpp b/coda/shm_queue.hpp
index d557034..edb2a0e 100644
--- a/coda/shm_queue.hpp
+++ b/coda/shm_queue.hpp
@@ -16,6 +16,13 @@
 
 namespace shm_queue {
 
+// keeps the writes before it before those after it, so that whatever instruction a process is killed at,
+// it leaves the shared memory in one of the states the source goes through
+inline void write_order()
+{
+	__asm__ __volatile__("" ::: "memory");
+}
+
 struct serializable
 {
 	serializable() {}
diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 9cddaed..fcbc1c3 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -131,16 +131,9 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 		throw coda_error("shm_queue::queue<>: error creating key from file '%s': %s", key_fname, coda_strerror(errno));
 	}
 
-	int created = 0;
-
-	if (-1 == (shm_id = shmget(key, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), 0666)))
+	if (-1 == (shm_id = shmget(key, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), IPC_CREAT | 0666)))
 	{
-		if (-1 == (shm_id = shmget(key, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), IPC_CREAT | 0666))) // not created? creating...
-		{
-			throw coda_error("shm_queue::queue<>: error creating queue shm: %s", coda_strerror(errno));
-		}
-
-		created = 1;
+		throw coda_error("shm_queue::queue<>: error creating queue shm: %s", coda_strerror(errno));
 	}
 
 	uint8_t *ptr = (uint8_t *) shmat(shm_id, 0, 0);
@@ -152,10 +145,11 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 
 	info = (shm_queue::queue_info *) ptr;
 
-	if (created)
+	if (0 == info->size)
 	{
-		memset(ptr, 0, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info));
+		// a new segment is all zeros, and size is written last
 		info->box_size = BOX_SIZE;
+		write_order();
 		info->size = MAX_BOXES_IN_QUEUE;
 	}
 
@@ -197,22 +191,11 @@ void shm_queue::queue<_T>::connect_sem(const char *key_fname)
 		throw coda_error("shm_queue::queue<>: error creating key from file '%s': %s", key_fname, coda_strerror(errno));
 	}
 
-	if (-1 == (sem_id = semget(key, 2, 0)))
+	// both semaphores of a new set are zero: the queue is not locked and has no boxes.
+	// another process may already be using it, so their values are left alone
+	if (-1 == (sem_id = semget(key, 2, IPC_CREAT | 0666)))
 	{
-		if (-1 == (sem_id = semget(key, 2, IPC_CREAT | 0666)))
-		{
-			throw coda_error("shm_queue::queue<>:error getting sem: %s", coda_strerror(errno));
-		}
-
-		if (-1 == semctl(sem_id, SEM_ID_0, SETVAL, (1)))
-		{
-			throw coda_error("shm_queue::queue<>:error setting sem: %s", coda_strerror(errno));
-		}
-
-		if (-1 == semctl(sem_id, SEM_ID_QUEUE_COUNT, SETVAL, (0)))
-		{
-			throw coda_error("shm_queue::queue<>:error setting sem: %s", coda_strerror(errno));
-		}
+		throw coda_error("shm_queue::queue<>:error getting sem: %s", coda_strerror(errno));
 	}
 }
 
@@ -405,12 +388,15 @@ uint32_t shm_queue::queue<_T>::pages_used()const
 template <typename _T>
 void shm_queue::queue<_T>::lock_queue()
 {
-	struct sembuf sem;
-	sem.sem_num = SEM_ID_0;
-	sem.sem_op = -1;
-	sem.sem_flg = SEM_UNDO;
-
-	while (-1 == semop(sem_id, &sem, 1))
+	struct sembuf sem[2];
+	sem[0].sem_num = SEM_ID_0;
+	sem[0].sem_op = 0;
+	sem[0].sem_flg = 0;
+	sem[1].sem_num = SEM_ID_0;
+	sem[1].sem_op = 1;
+	sem[1].sem_flg = SEM_UNDO;
+
+	while (-1 == semop(sem_id, sem, 2))
 	{
 		if (EINTR != errno)
 		{
@@ -424,7 +410,7 @@ void shm_queue::queue<_T>::unlock_queue()
 {
 	struct sembuf sem;
 	sem.sem_num = SEM_ID_0;
-	sem.sem_op = 1;
+	sem.sem_op = -1;
 	sem.sem_flg = SEM_UNDO;
 	semop(sem_id, &sem, 1);
 }
-- 
2.43.0


From 154a9e595f999283e321ebb575dc457578ee2931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:41 +0000
Subject: [PATCH 50/66] fix: an shm_queue of 4 GiB or more is not cut to its
 size modulo 4 GiB

---
 coda/shm_queue.tcc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index fcbc1c3..6f43076 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -131,7 +131,7 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 		throw coda_error("shm_queue::queue<>: error creating key from file '%s': %s", key_fname, coda_strerror(errno));
 	}
 
-	if (-1 == (shm_id = shmget(key, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), IPC_CREAT | 0666)))
+	if (-1 == (shm_id = shmget(key, (size_t) MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), IPC_CREAT | 0666)))
 	{
 		throw coda_error("shm_queue::queue<>: error creating queue shm: %s", coda_strerror(errno));
 	}
@@ -170,7 +170,7 @@ void shm_queue::queue<_T>::reset_queue()
 {
 	if (info)
 	{
-		memset(info, 0, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info));
+		memset(info, 0, (size_t) MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info));
 		info->box_size = BOX_SIZE;
 		info->size = MAX_BOXES_IN_QUEUE;
 	}
@@ -286,7 +286,7 @@ bool shm_queue::queue<_T>::unflush(short sem_flg, long sem_usec)
 
 		lock_queue();
 
-		uint8_t *ptr = boxes + info->start * info->box_size;
+		uint8_t *ptr = boxes + (size_t) info->start * info->box_size;
 		current_box.copy_from(ptr);
 		memset(ptr, 0, info->box_size);
 
@@ -321,7 +321,7 @@ void shm_queue::queue<_T>::flush()
 		lock_queue();
 		if ((info->end + 1) % info->size != info->start)
 		{
-			uint8_t *ptr = boxes + info->end * info->box_size;
+			uint8_t *ptr = boxes + (size_t) info->end * info->box_size;
 			current_box.copy_to(ptr);
 			info->end++;
 			info->end %= info->size;
-- 
2.43.0


From 48af9b886b8d76b3bb4ef5b10e43c65f5fc54602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:41 +0000
Subject: [PATCH 51/66] fix: a process killed while moving an shm_queue box
 does not hold back, damage or misplace other boxes

---
 coda/shm_queue.tcc | 56 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 6f43076..c71145a 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -269,33 +269,51 @@ bool shm_queue::queue<_T>::unflush(short sem_flg, long sem_usec)
 {
 	if (boxes)
 	{
-		struct sembuf sem;
-		sem.sem_num = SEM_ID_QUEUE_COUNT;
-		sem.sem_op = -1;
-		sem.sem_flg = sem_flg;
+		// takes a box and the lock at once, both given back by the kernel if this process dies
+		struct sembuf sem[3];
+		sem[0].sem_num = SEM_ID_QUEUE_COUNT;
+		sem[0].sem_op = -1;
+		sem[0].sem_flg = sem_flg | SEM_UNDO;
+		sem[1].sem_num = SEM_ID_0;
+		sem[1].sem_op = 0;
+		sem[1].sem_flg = 0;
+		sem[2].sem_num = SEM_ID_0;
+		sem[2].sem_op = 1;
+		sem[2].sem_flg = SEM_UNDO;
 
 		struct timespec ts;
 
 		ts.tv_sec  = (sem_usec / 1000000);
 		ts.tv_nsec = (sem_usec % 1000000) * 1000;
 
-		if (-1 == semtimedop(sem_id, &sem, 1, &ts))
+		if (-1 == semtimedop(sem_id, sem, 3, &ts))
 		{
 			return false;
 		}
 
-		lock_queue();
+		// a process that died may have left the count one too high
+		bool taken = (info->start != info->end);
 
-		uint8_t *ptr = boxes + (size_t) info->start * info->box_size;
-		current_box.copy_from(ptr);
-		memset(ptr, 0, info->box_size);
+		if (taken)
+		{
+			uint8_t *ptr = boxes + (size_t) info->start * info->box_size;
+			current_box.copy_from(ptr);
+			write_order();
+			info->start = (info->start + 1) % info->size;
+			write_order();
+			memset(ptr, 0, info->box_size);
+		}
 
-		info->start++;
-		info->start %= info->size;
+		// unlocks, and the box is no longer to be given back
+		sem[0].sem_op = 1;
+		sem[0].sem_flg = SEM_UNDO;
+		sem[1].sem_num = SEM_ID_QUEUE_COUNT;
+		sem[1].sem_op = -1;
+		sem[1].sem_flg = 0;
+		sem[2].sem_op = -1;
+		semop(sem_id, sem, 3);
 
-		unlock_queue();
-
-		return true;
+		return taken;
 	}
 
 	return false;
@@ -323,14 +341,18 @@ void shm_queue::queue<_T>::flush()
 		{
 			uint8_t *ptr = boxes + (size_t) info->end * info->box_size;
 			current_box.copy_to(ptr);
-			info->end++;
-			info->end %= info->size;
 
+			// counted first: if this process dies in between, the count is one too high,
+			// which unflush() copes with
 			struct sembuf sem;
 			sem.sem_num = SEM_ID_QUEUE_COUNT;
 			sem.sem_op = 1;
 			sem.sem_flg = 0;
-			semop(sem_id, &sem, 1);
+
+			if (-1 != semop(sem_id, &sem, 1))
+			{
+				info->end = (info->end + 1) % info->size;
+			}
 		}
 		else
 		{
-- 
2.43.0


From df96acb9577cba795c5edef8f10413260e37327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:56 +0000
Subject: [PATCH 52/66] fix: connecting an shm_queue of no boxes is refused,
 not a division by zero in the first flush

---
 coda/shm_queue.tcc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index c71145a..13ba48d 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -207,6 +207,11 @@ void shm_queue::queue<_T>::connect(const char *key_fname, uint32_t bs, uint32_t
 		throw coda_error("shm_queue::queue<>: queue already connected");
 	}
 
+	if (0 == mbiq)
+	{
+		throw coda_error("shm_queue::queue<>: a queue of no boxes");
+	}
+
 	BOX_SIZE = bs;
 	MAX_BOXES_IN_QUEUE = mbiq;
 
-- 
2.43.0


From 610d5f4db4b4b9563adb089613d795a33f0dbf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:30 +0000
Subject: [PATCH 53/66] fix: the cache counts the capacity of the values it
 keeps, not of the arguments they were copied from

---
 coda/cache.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coda/cache.tcc b/coda/cache.tcc
index 60b33b5..a723e0d 100644
--- a/coda/cache.tcc
+++ b/coda/cache.tcc
@@ -58,7 +58,7 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 		{
 			size_cur -= res.first->second.size;
 			res.first->second.elem = val;
-			res.first->second.size = estimate_capacity(val);
+			res.first->second.size = estimate_capacity(res.first->second.elem);
 			size_cur += res.first->second.size;
 
 			if (do_update_time)
@@ -90,7 +90,7 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 
 		size_cur -= res.first->second.size;
 		res.first->second.elem = val;
-		res.first->second.size = estimate_capacity(val);
+		res.first->second.size = estimate_capacity(res.first->second.elem);
 		size_cur += res.first->second.size;
 
 		if (do_update_time)
@@ -118,7 +118,7 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 	}
 
 	res.first->second.elem = val;
-	res.first->second.size = estimate_capacity(val);
+	res.first->second.size = estimate_capacity(res.first->second.elem);
 	size_cur += res.first->second.size;
 
 	drop_last_unused();
-- 
2.43.0


From 5e6001126cb778dcc9c464e946b270f00f80a554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:25 +0000
Subject: [PATCH 54/66] fix: a queue of more boxes than a semaphore counts
 discarded boxes though it was not full

---
 coda/shm_queue.hpp |  5 +++--
 coda/shm_queue.tcc | 37 ++++++++++++++++++++++++++++---------
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/coda/shm_queue.hpp b/coda/shm_queue.hpp
index edb2a0e..78b1357 100644
--- a/coda/shm_queue.hpp
+++ b/coda/shm_queue.hpp
@@ -76,8 +76,9 @@ class queue
 	uint32_t BOX_SIZE;
 	uint32_t MAX_BOXES_IN_QUEUE;
 
-	void lock_queue();
-	void unlock_queue();
+	void lock_queue() const;
+	void unlock_queue() const;
+	uint32_t boxes_unread() const;
 	void reset_queue();
 
 	void connect_shm(const char *key_fname);
diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 13ba48d..53e6aeb 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -1,5 +1,6 @@
 #define SEM_ID_0 0
 #define SEM_ID_QUEUE_COUNT 1
+#define SEM_QUEUE_COUNT_MAX 32767 // the most a semaphore counts
 
 template <typename _T>
 shm_queue::queue<_T>::box::box()
@@ -309,14 +310,16 @@ bool shm_queue::queue<_T>::unflush(short sem_flg, long sem_usec)
 			memset(ptr, 0, info->box_size);
 		}
 
-		// unlocks, and the box is no longer to be given back
+		// unlocks, and the box is no longer to be given back,
+		// unless boxes are left that the semaphore could not count
 		sem[0].sem_op = 1;
 		sem[0].sem_flg = SEM_UNDO;
-		sem[1].sem_num = SEM_ID_QUEUE_COUNT;
 		sem[1].sem_op = -1;
-		sem[1].sem_flg = 0;
+		sem[1].sem_flg = SEM_UNDO;
+		sem[2].sem_num = SEM_ID_QUEUE_COUNT;
 		sem[2].sem_op = -1;
-		semop(sem_id, sem, 3);
+		sem[2].sem_flg = 0;
+		semop(sem_id, sem, (taken && boxes_unread() >= SEM_QUEUE_COUNT_MAX) ? 2 : 3);
 
 		return taken;
 	}
@@ -354,7 +357,8 @@ void shm_queue::queue<_T>::flush()
 			sem.sem_op = 1;
 			sem.sem_flg = 0;
 
-			if (-1 != semop(sem_id, &sem, 1))
+			// more boxes than the semaphore counts: unflush() leaves it as it is until it can tell them again
+			if (-1 != semop(sem_id, &sem, 1) || ERANGE == errno)
 			{
 				info->end = (info->end + 1) % info->size;
 			}
@@ -371,7 +375,22 @@ void shm_queue::queue<_T>::flush()
 template <typename _T>
 int shm_queue::queue<_T>::boxes_in_queue()const
 {
-	return semctl(sem_id, SEM_ID_QUEUE_COUNT, GETVAL);
+	int count = semctl(sem_id, SEM_ID_QUEUE_COUNT, GETVAL);
+
+	if (count == SEM_QUEUE_COUNT_MAX)
+	{
+		lock_queue();
+		count = boxes_unread();
+		unlock_queue();
+	}
+
+	return count;
+}
+
+template <typename _T>
+uint32_t shm_queue::queue<_T>::boxes_unread()const
+{
+	return info->end >= info->start ? info->end - info->start : info->size - info->start + info->end;
 }
 
 template <typename _T>
@@ -409,11 +428,11 @@ uint8_t shm_queue::queue<_T>::registers_number()const
 template <typename _T>
 uint32_t shm_queue::queue<_T>::pages_used()const
 {
-	return semctl(sem_id, SEM_ID_QUEUE_COUNT, GETVAL, (0));
+	return boxes_in_queue();
 }
 
 template <typename _T>
-void shm_queue::queue<_T>::lock_queue()
+void shm_queue::queue<_T>::lock_queue() const
 {
 	struct sembuf sem[2];
 	sem[0].sem_num = SEM_ID_0;
@@ -433,7 +452,7 @@ void shm_queue::queue<_T>::lock_queue()
 }
 
 template <typename _T>
-void shm_queue::queue<_T>::unlock_queue()
+void shm_queue::queue<_T>::unlock_queue() const
 {
 	struct sembuf sem;
 	sem.sem_num = SEM_ID_0;
-- 
2.43.0


From cdf924daebc440801865d598d51330e2d8990b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:29 +0000
Subject: [PATCH 55/66] fix: log_err, log_ret and log_die take the code before
 anything changes errno; log_die is one statement, log_ret an expression

---
 coda/logger.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/coda/logger.h b/coda/logger.h
index 9dd090a..4099ebd 100644
--- a/coda/logger.h
+++ b/coda/logger.h
@@ -27,9 +27,11 @@ extern "C" {
 #define LOG_debug   8  /* DBG: debug message                     */
 
 #define log_msg(lev,fmt,...) log_fmt(stderr,LOG_##lev,#lev,fmt,##__VA_ARGS__)
-#define log_err(err,fmt,...) log_msg(error,fmt " (%d: %s)", ##__VA_ARGS__, err, coda_strerror(err))
-#define log_ret(err,fmt,...) log_msg(error,fmt " (%d: %s)", ##__VA_ARGS__, err, coda_strerror(err)), err
-#define log_die(err,fmt,...) log_msg(emerg,fmt " (%d: %s)", ##__VA_ARGS__, err, coda_strerror(err)); exit(EXIT_FAILURE)
+/* err is taken first: writing the line may change errno */
+#define log_msg_err(lev,err,fmt,...) log_msg(lev,fmt " (%d: %s)", ##__VA_ARGS__, err, coda_strerror(err))
+#define log_err(err,fmt,...) do { int log_errnum = (err); log_msg_err(error,log_errnum,fmt,##__VA_ARGS__); } while (0)
+#define log_ret(err,fmt,...) ({ int log_errnum = (err); log_msg_err(error,log_errnum,fmt,##__VA_ARGS__); log_errnum; })
+#define log_die(err,fmt,...) do { int log_errnum = (err); log_msg_err(emerg,log_errnum,fmt,##__VA_ARGS__); exit(EXIT_FAILURE); } while (0)
 
 #define log_access( fmt,...) log_msg(access,fmt,##__VA_ARGS__)
 #define log_emerg(  fmt,...) log_msg(emerg, fmt,##__VA_ARGS__)
-- 
2.43.0


From 4a15cb1443638a3a6f632e518cd6f20c0cb845dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:21 +0000
Subject: [PATCH 56/66] fix: a url whose memory cannot be had crashed; creating
 fails, copying throws and assigning keeps the old one

---
 coda/url_parser.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 6bd8ab1..ba7a3e4 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -3,6 +3,7 @@
 #include <string.h>
 #include <stdlib.h>
 #include <sys/types.h>
+#include <new>
 #include "string.h"
 #include "url_parser.hpp"
 
@@ -28,6 +29,7 @@ coda_url::coda_url(const coda_url &u)
 		dom_len = u.dom_len;
 
 		val_str = (char *) malloc(val_len + dom_len + 2);
+		if (NULL == val_str) throw std::bad_alloc();
 		memcpy(val_str, u.val_str, val_len + dom_len + 2);
 
 		dom_str = val_str + val_len + 1;
@@ -41,6 +43,13 @@ coda_url &coda_url::operator= (const coda_url &u)
 		return *this;
 	}
 
+	char *str = NULL;
+
+	if (!u.empty() && NULL == (str = (char *) malloc(u.val_len + u.dom_len + 2)))
+	{
+		throw std::bad_alloc();
+	}
+
 	if (allocated())
 	{
 		free(val_str);
@@ -59,7 +68,7 @@ coda_url &coda_url::operator= (const coda_url &u)
 		val_len = u.val_len;
 		dom_len = u.dom_len;
 
-		val_str = (char *) malloc(val_len + dom_len + 2);
+		val_str = str;
 		memcpy(val_str, u.val_str, val_len + dom_len + 2);
 
 		dom_str = val_str + val_len + 1;
@@ -104,6 +113,11 @@ int coda_url::create_absolute(const char *u, size_t sz, uint32_t flags)
 
 	val_str = (char *) malloc(2 + 2 * sz + 9); // val + 0 + dom + 0 + "http[s]://" + "/"
 
+	if (NULL == val_str)
+	{
+		return -1;
+	}
+
 	create_scheme(u, sz, flags);
 
 	return 0;
@@ -119,6 +133,11 @@ int coda_url::create_relative(const char *u, size_t sz, uint32_t flags, const co
 
 	val_str = (char *) malloc(2 + 2 * sz + parent.val_len + parent.dom_len); // if relative, parent may be bigger than u
 
+	if (NULL == val_str)
+	{
+		return -1;
+	}
+
 	if (starts_with(u, sz, "http://", 7) || starts_with(u, sz, "https://", 8))
 	{
 		create_scheme(u, sz, flags);
-- 
2.43.0


From eabcd508ff65fa6bfdb5000c59f87a105f49943c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:21 +0000
Subject: [PATCH 57/66] fix: an addition to a string storage that ran out of
 memory lost stored strings or crashed

---
 coda/stringstorage.c | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/coda/stringstorage.c b/coda/stringstorage.c
index 6810610..fc4d362 100644
--- a/coda/stringstorage.c
+++ b/coda/stringstorage.c
@@ -49,7 +49,7 @@ void *allocate_reallocate_array(void *a, size_t cnt, size_t bsz)
 {
 	if (cnt == 0)
 	{
-		a = (void*)calloc(0x02, bsz);
+		a = (void*)realloc(a, 0x02 * bsz);
 	}
 	else if (cnt == 0x02)
 	{
@@ -76,6 +76,7 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 	size_t common_bytes = 0;
 	size_t len;
 	char *newvalue;
+	void *grown;
 
 	while (begin < end)
 	{
@@ -111,26 +112,33 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 	if (doadd == 0) return 0;
 
 	/* 3. insert string after begin */
-	r->children = allocate_reallocate_array(r->children, r->child_count, sizeof(struct string_struct));
-	if (r->children == 0) return 0;
-	if (begin != r->child_count)
-	{
-		memmove(&r->children[begin + 1], &r->children[begin],
-		  (r->child_count - begin) * sizeof(struct string_struct));
-	}
+	grown = allocate_reallocate_array(r->children, r->child_count, sizeof(struct string_struct));
+	if (grown == 0) return 0;
+	r->children = grown;
 
 	len = strlen(s) + 1;
 	if ((sb->current == 0) || (sb->used_bytes + 1 + len + sb->user_data_size > STORAGE_BLOCK_SIZE))
 	{
-		char *newcurrent = (char*)calloc(1, STORAGE_BLOCK_SIZE);
-		sb->blocks = allocate_reallocate_array(sb->blocks, sb->block_count, sizeof(char*));
-		if (sb->blocks == 0) return 0;
+		char *newcurrent;
+
+		grown = allocate_reallocate_array(sb->blocks, sb->block_count, sizeof(char*));
+		if (grown == 0) return 0;
+		sb->blocks = grown;
+
+		newcurrent = (char*)calloc(1, STORAGE_BLOCK_SIZE);
+		if (newcurrent == 0) return 0;
 
 		sb->blocks[sb->block_count++] = newcurrent;
 		sb->current = newcurrent;
 		sb->used_bytes = 0;
 	}
 
+	if (begin != r->child_count)
+	{
+		memmove(&r->children[begin + 1], &r->children[begin],
+		  (r->child_count - begin) * sizeof(struct string_struct));
+	}
+
 	newvalue = sb->current + sb->used_bytes;
 	r->children[begin].value = newvalue;
 	r->children[begin].child_count = 0;
-- 
2.43.0


From af4b8ab4f6605ccb95c11b0ff992e808de5a9869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:21 +0000
Subject: [PATCH 58/66] fix: a value whose copy throws left the cache with a
 wrong size or a value never set

---
 coda/cache.tcc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/coda/cache.tcc b/coda/cache.tcc
index a723e0d..d691bab 100644
--- a/coda/cache.tcc
+++ b/coda/cache.tcc
@@ -46,6 +46,18 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 
 	res = data.insert(typename data_t::value_type(key, elem_t()));
 
+	/* NOTE, that copying could throw, so nothing else is changed before it */
+
+	try
+	{
+		res.first->second.elem = val;
+	}
+	catch (...)
+	{
+		if (res.second) data.erase(res.first);
+		throw;
+	}
+
 	if (res.second == false)
 	{
 		/* pop */
@@ -57,7 +69,6 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 		else
 		{
 			size_cur -= res.first->second.size;
-			res.first->second.elem = val;
 			res.first->second.size = estimate_capacity(res.first->second.elem);
 			size_cur += res.first->second.size;
 
@@ -89,7 +100,6 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 		endp = &*res.first;
 
 		size_cur -= res.first->second.size;
-		res.first->second.elem = val;
 		res.first->second.size = estimate_capacity(res.first->second.elem);
 		size_cur += res.first->second.size;
 
@@ -117,7 +127,6 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 		begp = endp;
 	}
 
-	res.first->second.elem = val;
 	res.first->second.size = estimate_capacity(res.first->second.elem);
 	size_cur += res.first->second.size;
 
-- 
2.43.0


From 829ac4f2e4ba87e4277672694a5cd3561d191c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:21 +0000
Subject: [PATCH 59/66] fix: an element whose copy throws left the queue locked

---
 coda/synque.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/coda/synque.hpp b/coda/synque.hpp
index e246177..0e08a72 100644
--- a/coda/synque.hpp
+++ b/coda/synque.hpp
@@ -14,6 +14,15 @@ class synque
 	pthread_mutex_t m;
 	std::deque<_T>  d;
 
+	/* NOTE, that copying an element could throw */
+
+	struct locker
+	{
+		pthread_mutex_t &m;
+		explicit locker(pthread_mutex_t &i_m) : m(i_m) { pthread_mutex_lock(&m); }
+		~locker() { pthread_mutex_unlock(&m); }
+	};
+
 public:
 	synque()
 	{
@@ -29,10 +38,9 @@ public:
 
 	void add(const _T& e)
 	{
-		pthread_mutex_lock(&m);
+		locker l(m);
 		d.push_front(e);
 		pthread_cond_signal(&c);
-		pthread_mutex_unlock(&m);
 	}
 
 	void signal()
@@ -44,13 +52,12 @@ public:
 
 	int get(_T& e, int canwait)
 	{
-		pthread_mutex_lock(&m);
+		locker l(m);
 
 		if (d.empty())
 		{
 			if (0 == canwait)
 			{
-				pthread_mutex_unlock(&m);
 				return -1;
 			}
 
@@ -58,7 +65,6 @@ public:
 
 			if (d.empty())
 			{
-				pthread_mutex_unlock(&m);
 				return -1;
 			}
 		}
@@ -66,26 +72,22 @@ public:
 		e = d.back();
 		d.pop_back();
 
-		pthread_mutex_unlock(&m);
-
 		return 0;
 	}
 
 	int get(std::deque<_T>& out, ssize_t max_count, int canwait)
 	{
-		pthread_mutex_lock(&m);
+		locker l(m);
 
 		if (d.empty())
 		{
 			if (0 == canwait)
 			{
-				pthread_mutex_unlock(&m);
 				return -1;
 			}
 			pthread_cond_wait(&c, &m);
 			if (d.empty())
 			{
-				pthread_mutex_unlock(&m);
 				return -1;
 			}
 		}
@@ -100,8 +102,6 @@ public:
 			d.pop_back();
 		}
 
-		pthread_mutex_unlock(&m);
-
 		return 0;
 	}
 
-- 
2.43.0


From 6607fe834fcd64d6f98e0a51efebe0d41fc1eab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:21 +0000
Subject: [PATCH 60/66] fix: appending a long text without memory for the
 result leaked the text

---
 coda/string.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index 1995406..d2d76a6 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -82,12 +82,10 @@ int coda_strnappend(std::string& out, size_t num, const char* fmt, ...)
 
 		va_end(aq);
 
-		char* BUF = new char [bytes + 1];
+		std::string tmp(0 < bytes ? bytes + 1 : 1, '\0');
 
-		vsnprintf(BUF, bytes + 1, fmt, ap);
-		out.append(BUF, bytes);
-
-		delete [] BUF;
+		vsnprintf(&tmp[0], tmp.size(), fmt, ap);
+		out.append(tmp, 0, 0 < bytes ? bytes : 0);
 	}
 
 	va_end(ap);
@@ -127,12 +125,10 @@ int coda_strnprintf(std::string& out, size_t pos, size_t num, const char* fmt, .
 
 		va_end(aq);
 
-		char* BUF = new char [bytes + 1];
-
-		vsnprintf(BUF, bytes + 1, fmt, ap);
-		out.insert(pos, BUF, bytes);
+		std::string tmp(0 < bytes ? bytes + 1 : 1, '\0');
 
-		delete [] BUF;
+		vsnprintf(&tmp[0], tmp.size(), fmt, ap);
+		out.insert(pos, tmp, 0, 0 < bytes ? bytes : 0);
 	}
 
 	va_end(ap);
-- 
2.43.0


From 45ac4222db310a96daa7e74dcd8d5d035ef52ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:21 +0000
Subject: [PATCH 61/66] fix: loading xml without memory for a parser crashed

---
 coda/txml.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coda/txml.cpp b/coda/txml.cpp
index 1434912..da9c3d5 100644
--- a/coda/txml.cpp
+++ b/coda/txml.cpp
@@ -3,6 +3,7 @@
 #include <stdio.h>
 #include <string.h>
 #include <sys/types.h>
+#include <new>
 #include "error.hpp"
 #include "txml.hpp"
 
@@ -81,6 +82,7 @@ coda::txml_parser::txml_parser(coda::txml_determination_object* d)
 	: data(d)
 {
 	p = XML_ParserCreate("UTF-8");
+	if (NULL == p) throw std::bad_alloc();
 	XML_SetUserData(p, this);
 	XML_SetUnknownEncodingHandler(p, cb_encunknown, NULL);
 	XML_SetElementHandler(p, cb_begelement, cb_endelement);
-- 
2.43.0


From bd61d5d43c96601fe390b05cecd055b5e6283cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:21 +0000
Subject: [PATCH 62/66] fix: a text that cannot be formatted is reported by the
 appending functions, not an append of 2^64 - 1 bytes

---
 coda/string.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index d2d76a6..76376a8 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -47,7 +47,7 @@ int coda_strappend(std::string& out, const char* fmt, ...)
 		return bytes;
 	}
 
-	out.append(BUF, bytes);
+	out.append(BUF, 0 < bytes ? bytes : 0);
 
 	return bytes;
 }
@@ -68,7 +68,7 @@ int coda_strnappend(std::string& out, size_t num, const char* fmt, ...)
 			bytes = num;
 		}
 
-		out.append(BUF, bytes);
+		out.append(BUF, 0 < bytes ? bytes : 0);
 	}
 	else
 	{
@@ -111,7 +111,7 @@ int coda_strnprintf(std::string& out, size_t pos, size_t num, const char* fmt, .
 			bytes = num;
 		}
 
-		out.insert(pos, BUF, bytes);
+		out.insert(pos, BUF, 0 < bytes ? bytes : 0);
 	}
 	else
 	{
-- 
2.43.0


From da5bda8a4167b144ee7690d16d6bb398dbfb283c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:21 +0000
Subject: [PATCH 63/66] fix: an exception left through expat, which then never
 freed the parser

---
 coda/txml.cpp | 30 ++++++++++++++++++++++++++----
 coda/txml.hpp |  3 +++
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/coda/txml.cpp b/coda/txml.cpp
index da9c3d5..6fc473e 100644
--- a/coda/txml.cpp
+++ b/coda/txml.cpp
@@ -60,17 +60,23 @@ void coda::txml_determination_object::load_from_string(const char* str, size_t l
 
 static void cb_characters(void* vThis, const char* szData, int iLength)
 {
-	((coda::txml_parser*) vThis)->characters(szData, iLength);
+	coda::txml_parser *p = (coda::txml_parser*) vThis;
+	if (p->error) return;
+	try { p->characters(szData, iLength); } catch (...) { p->stop(); }
 }
 
 static void cb_begelement(void* vThis, const char* const szName, const char** pszAttributes)
 {
-	((coda::txml_parser*) vThis)->begelement(szName, pszAttributes);
+	coda::txml_parser *p = (coda::txml_parser*) vThis;
+	if (p->error) return;
+	try { p->begelement(szName, pszAttributes); } catch (...) { p->stop(); }
 }
 
 static void cb_endelement(void* vThis, const char* const szName)
 {
-	((coda::txml_parser*) vThis)->endelement(szName);
+	coda::txml_parser *p = (coda::txml_parser*) vThis;
+	if (p->error) return;
+	try { p->endelement(szName); } catch (...) { p->stop(); }
 }
 
 static int  cb_encunknown(void*, const XML_Char*, XML_Encoding*)
@@ -97,13 +103,29 @@ coda::txml_parser::~txml_parser()
 void coda::txml_parser::parse(const char* szDataSource, unsigned int iDataLength, bool bIsFinal)
 {
 	int iFinal = bIsFinal;
+	enum XML_Status status = XML_Parse(p, szDataSource, iDataLength, iFinal);
 
-	if (XML_STATUS_ERROR == XML_Parse(p, szDataSource, iDataLength, iFinal))
+	if (error)
+	{
+		std::exception_ptr e = error;
+		error = std::exception_ptr();
+		std::rethrow_exception(e);
+	}
+
+	if (XML_STATUS_ERROR == status)
 	{
 		raise(XML_ErrorString(XML_GetErrorCode(p)));
 	}
 }
 
+/* NOTE, that exceptions should not leave through expat, parse() throws them when it has returned */
+
+void coda::txml_parser::stop()
+{
+	error = std::current_exception();
+	XML_StopParser(p, XML_FALSE);
+}
+
 void coda::txml_parser::raise(const char* err)
 {
 	throw coda_error("XML error (%s): %s, line %d, column %d",
diff --git a/coda/txml.hpp b/coda/txml.hpp
index c0d47a8..acec0ec 100644
--- a/coda/txml.hpp
+++ b/coda/txml.hpp
@@ -3,6 +3,7 @@
 
 #include <stdint.h>
 #include <expat.h>
+#include <exception>
 #include <string>
 #include <vector>
 #include <list>
@@ -42,9 +43,11 @@ struct txml_parser
 	std::string current_value;
 	std::vector<level_desc> levels;
 	std::vector<level_desc>::iterator det_iter;
+	std::exception_ptr error;
 
 	void parse(const char* szDataSource, unsigned int iDataLength, bool bIsFinal = true);
 	void raise(const char* err);
+	void stop();
 
 	void determine();
 	void setValue(std::string& var);
-- 
2.43.0


From df7bf3ddbf500c7af879144b9313a1a7660746c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:56 +0000
Subject: [PATCH 64/66] fix: of an xml text of more than 4 GiB only the rest
 modulo 4 GiB was parsed, one of more than 2 GiB was refused

---
 coda/txml.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/coda/txml.cpp b/coda/txml.cpp
index 6fc473e..8032f39 100644
--- a/coda/txml.cpp
+++ b/coda/txml.cpp
@@ -8,6 +8,7 @@
 #include "txml.hpp"
 
 #define BUFSZ 4096
+#define MAX_PARSE (1 << 24)
 
 void coda::txml_determination_object::load_from_file(const char* filename)
 {
@@ -48,13 +49,20 @@ void coda::txml_determination_object::load_from_file(const char* filename)
 
 void coda::txml_determination_object::load_from_string(const char* str)
 {
-	coda::txml_parser p (this);
-	p.parse(str, strlen(str), true);
+	load_from_string(str, strlen(str));
 }
 
 void coda::txml_determination_object::load_from_string(const char* str, size_t len)
 {
 	coda::txml_parser p (this);
+
+	/* NOTE, that expat takes the length as int */
+
+	for (; MAX_PARSE < len; str += MAX_PARSE, len -= MAX_PARSE)
+	{
+		p.parse(str, MAX_PARSE, false);
+	}
+
 	p.parse(str, len, true);
 }
 
-- 
2.43.0


From b6e0cd8d62c7207952ae2c487099e5e73e0bc166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:28 +0000
Subject: [PATCH 65/66] fix: the length of a url of more than 4 GiB was cut to
 32 bits, and copying one of more than 2 GiB overran its buffer

---
 coda/url_parser.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/coda/url_parser.hpp b/coda/url_parser.hpp
index d9b58eb..f777202 100644
--- a/coda/url_parser.hpp
+++ b/coda/url_parser.hpp
@@ -1,6 +1,7 @@
 #ifndef __CODA_URL_PARSER_HPP__
 #define __CODA_URL_PARSER_HPP__
 
+#include <stddef.h>
 #include <inttypes.h>
 
 #define CODA_URL_FETCHABLE (1 << 0)
@@ -9,9 +10,9 @@
 class coda_url
 {
 	char *val_str;
-	uint32_t val_len;
+	size_t val_len;
 	char *dom_str;
-	uint32_t dom_len;
+	size_t dom_len;
 
 	int create_suburl(const char *u, size_t sz, uint32_t flags, const coda_url &parent);
 	int create_scheme(const char *u, size_t sz, uint32_t flags);
@@ -34,8 +35,8 @@ public:
 	const char *get_url() const { return (!empty()) ? val_str : ""; }
 	const char *get_domain() const { return (!empty()) ? dom_str : ""; }
 
-	uint32_t get_url_len() const { return val_len; }
-	uint32_t get_domain_len() const { return dom_len; }
+	size_t get_url_len() const { return val_len; }
+	size_t get_domain_len() const { return dom_len; }
 
 	bool empty() const { return 0 == val_len; }
 	bool allocated() const { return NULL != val_str; }
-- 
2.43.0


From cb67c200efdbdc5e3734e8bfbe75f6fe2c29d63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:52 +0000
Subject: [PATCH 66/66] fix: an element whose copy threw in one getter stayed
 in the queue while another getter remained blocked

---
 coda/synque.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/coda/synque.hpp b/coda/synque.hpp
index 0e08a72..6b832d8 100644
--- a/coda/synque.hpp
+++ b/coda/synque.hpp
@@ -69,7 +69,17 @@ public:
 			}
 		}
 
-		e = d.back();
+		try
+		{
+			e = d.back();
+		}
+		catch (...)
+		{
+			/* the element stays, and another getter may be waiting for it */
+			pthread_cond_signal(&c);
+			throw;
+		}
+
 		d.pop_back();
 
 		return 0;
@@ -98,7 +108,16 @@ public:
 
 		for (size_t i = 0; i < quantity; ++i)
 		{
-			out.push_back(d.back());
+			try
+			{
+				out.push_back(d.back());
+			}
+			catch (...)
+			{
+				pthread_cond_signal(&c);
+				throw;
+			}
+
 			d.pop_back();
 		}
 
-- 
2.43.0

