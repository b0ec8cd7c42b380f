From 4126931558c6148ead429c368687eb97288f73d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 01/51] fix: UTF8PutPaddedZero wrote the lead byte of the next
 longer sequence

---
 include/char_encoding.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index bc3f613..72e7b64 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -262,7 +262,7 @@ UTF8PutPaddedZero(UTF8*& cp, int length)
 	assert(length >= 0 && length <= 6);
 	if (length > 1)
 	{
-		*cp++ = "\x0\xC0\xE0\xF0\xF8\xFC"[length];	// Put lead byte with zero payload
+		*cp++ = "\x0\x0\xC0\xE0\xF0\xF8\xFC"[length];	// Put lead byte with zero payload
 		while (--length > 0)
 			*cp++ = 0x80;				// Put trailing bytes with zero payload
 	}
-- 
2.43.0


From cdf7e4b7a88671ec6dec65d30dd0b156d4f43ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 02/51] fix: UTF8Len read past the NUL after a truncated
 sequence

---
 include/char_encoding.h | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index 72e7b64..d64400c 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -156,16 +156,10 @@ inline int
 UTF8Len(const UTF8* cp)	// REVISIT: Add an error callback pointer here?
 {
 	switch (int len = UTF8CorrectLen(*cp))
-	{	// This reminds me of Duff's Device :)
-	case 6: if (UTF8Is1st(cp[5])) goto illegal;
-		// Fall through
-	case 5: if (UTF8Is1st(cp[4])) goto illegal;
-		// Fall through
-	case 4: if (UTF8Is1st(cp[3])) goto illegal;
-		// Fall through
-	case 3: if (UTF8Is1st(cp[2])) goto illegal;
-		// Fall through
-	case 2: if (UTF8Is1st(cp[1])) goto illegal;
+	{
+	case 6: case 5: case 4: case 3: case 2:
+		for (int i = 1; i < len; i++)	// Look forwards, to stop at a NUL in a truncated sequence
+			if (UTF8Is1st(cp[i])) goto illegal;
 		// Fall through
 	case 1:
 		return len;
-- 
2.43.0


From baf3494a124834e59801304aa9e59ed5c6cf25a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 03/51] fix: UTF8Backup skipped back over a truncated sequence
 that UTF8Get steps through bytewise

---
 include/char_encoding.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index d64400c..cf88088 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -243,8 +243,8 @@ UTF8Backup(const UTF8* cp, const UTF8* limit = 0)
 	for (const UTF8* sp = cp-1; sp >= limit; --sp)	// Backup to the limit
 		if (UTF8Is1st(*sp))			// Found the start char
 		{
-			if (UTF8CorrectLen(*sp) >= cp-sp)
-				return sp;		// Legal prefix (at least) of a UTF8 sequence
+			if (UTF8Len(sp) >= cp-sp)
+				return sp;		// A legal UTF8 sequence that reaches cp
 			break;	// Illegal, backup 1 byte if this backup won't consume all bytes scanned
 		}
 	return cp-1;	// No start char (valid 1st byte) found
-- 
2.43.0


From f7e2f6a524d46936bab6822564d51dbd9917aca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 04/51] fix: UCS4Digit never recognised the ideographic zero
 and Hangzhou numerals

---
 src/char_encoding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/char_encoding.cpp b/src/char_encoding.cpp
index 5070720..29fb87d 100644
--- a/src/char_encoding.cpp
+++ b/src/char_encoding.cpp
@@ -115,7 +115,7 @@ UCS4Digit(UCS4 ch)
 	)
 	{
 		if (ch < rp->low)
-			return -1;		/* Short circuit */
+			break;			/* Short circuit */
 		if (ch <= rp->high)
 		{
 			last_memo = rp-UCS4_DigitRanges;
-- 
2.43.0


From 0e2d5bf938db04ff0f2cc6fe08b91a995ec665e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 05/51] fix: ErrNum flag bits overlapped the message set number
 and missed the sign bit

---
 include/error.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/error.h b/include/error.h
index dc39a73..6c75e9d 100644
--- a/include/error.h
+++ b/include/error.h
@@ -38,8 +38,8 @@
 class ErrNum
 {
 public:
-	static const int32_t	ERR_FLAG = 0x8000000;	// Sign bit is used to indicate an error, allowing quick checks
-	static const int32_t	ERR_CUST = 0x4000000;	// Including this bit guarantees no collision with Microsoft subsystem codes
+	static const int32_t	ERR_FLAG = 0x80000000;	// Sign bit is used to indicate an error, allowing quick checks
+	static const int32_t	ERR_CUST = 0x40000000;	// Including this bit guarantees no collision with Microsoft subsystem codes
 
 	constexpr ErrNum()
 			: errnum(0) {}
-- 
2.43.0


From 1e698bf61d5e1b37a548cca82c123e9f67f154a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 06/51] fix: NulGuardedCharPtr += a negative number moved
 forwards, past the NUL

---
 include/char_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/char_ptr.h b/include/char_ptr.h
index 182c29c..db91256 100644
--- a/include/char_ptr.h
+++ b/include/char_ptr.h
@@ -71,7 +71,7 @@ public:
 	NulGuardedCharPtr&	operator+=(int i)
 			{	const char* s = data;
 				while (i > 0 && *s != '\0') { s++; i--;}// Advance slowly
-				if (i < 0) s -= i;		// Or backup suddenly
+				if (i < 0) s += i;		// Or backup suddenly
 				data = s; return *this;
 			}
 	NulGuardedCharPtr	operator+(int i){ NulGuardedCharPtr t(*this); t += i; return t; }
-- 
2.43.0


From 926e002c4f0d3ace9fc4de40997e2637c91efaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 07/51] fix: GuardedCharPtr could be moved past the NUL and
 before the origin

---
 include/char_ptr.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/char_ptr.h b/include/char_ptr.h
index db91256..8e2f478 100644
--- a/include/char_ptr.h
+++ b/include/char_ptr.h
@@ -109,12 +109,26 @@ public:
 	GuardedCharPtr&	operator+=(int i)
 			{	const char* s = data;
 				while (i > 0 && *s != '\0') { s++; i--;}// Advance
-				if (-i > s-origin)	// Or backup
-					s = origin;	// Either return as far as the origin
-				else
-					s += i;		// or backup as far as requested
+				if (i < 0)		// Or backup
+				{
+					if (-(long)i > s-origin)
+						s = origin;	// Either return as far as the origin
+					else
+						s += i;		// or backup as far as requested
+				}
 				data = s; return *this;
 			}
+	GuardedCharPtr	operator+(int i){ GuardedCharPtr t(*this); t += i; return t; }
+	GuardedCharPtr	operator-=(int i){ return *this += -i; }
+	GuardedCharPtr	operator-(int i){ GuardedCharPtr t(*this); t += -i; return t; }
+	long		operator-(NulGuardedCharPtr s)	{ return NulGuardedCharPtr::operator-(s); }
+	long		operator-(const char* s)	{ return NulGuardedCharPtr::operator-(s); }
+
+	// decr functions (the inherited ones don't stop at the origin):
+	GuardedCharPtr&	predecr()	{ if (!at_bot()) --data; return *this; }
+	GuardedCharPtr	postdecr()	{ GuardedCharPtr save(*this); predecr(); return save; }
+	GuardedCharPtr	operator--(int)	{ return postdecr(); }
+	GuardedCharPtr&	operator--()	{ return predecr(); }
 };
 
 #endif
-- 
2.43.0


From 3568ff7fad72e217db9bfdc2c1ad32429c77b009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 08/51] fix: GuardedUTF8Ptr could be moved before its origin

---
 include/utf8_ptr.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/utf8_ptr.h b/include/utf8_ptr.h
index 9aa9968..4c4d898 100644
--- a/include/utf8_ptr.h
+++ b/include/utf8_ptr.h
@@ -80,10 +80,20 @@ public:
 	GuardedUTF8Ptr&	operator+=(int i)
 			{	const UTF8* s = data;
 				while (i > 0 && *s != '\0') { UTF8Get(s); i--;}		// Advance
-				while (i < 0 && s > origin) { s = UTF8Backup(s); i++;}	// Or backup
+				while (i < 0 && s > origin) { s = UTF8Backup(s, origin); i++;}	// Or backup
 				data = (const UTF8*)s; return *this;
 			}
-	GuardedUTF8Ptr&	predecr()	{ !at_bot() && (data = (const UTF8*)UTF8Backup(data)); return *this; }
+	GuardedUTF8Ptr	operator+(int i){ GuardedUTF8Ptr t(*this); t += i; return t; }
+	GuardedUTF8Ptr	operator-=(int i){ return *this += -i; }
+	GuardedUTF8Ptr	operator-(int i){ GuardedUTF8Ptr t(*this); t += -i; return t; }
+	long		operator-(NulGuardedUTF8Ptr s)	{ return NulGuardedUTF8Ptr::operator-(s); }
+	long		operator-(const char* cp)	{ return NulGuardedUTF8Ptr::operator-(cp); }
+
+	// decr functions (the inherited ones don't stop at the origin):
+	GuardedUTF8Ptr&	predecr()	{ !at_bot() && (data = (const UTF8*)UTF8Backup(data, origin)); return *this; }
+	GuardedUTF8Ptr	postdecr()	{ GuardedUTF8Ptr save(*this); predecr(); return save; }
+	GuardedUTF8Ptr	operator--(int)	{ return postdecr(); }
+	GuardedUTF8Ptr&	operator--()	{ return predecr(); }
 	bool		at_bot()
 			{ return data == origin; }
 };
-- 
2.43.0


From 8585a1de03e8f14540a93f1865b760ce7f71799e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 09/51] fix: UCS4ToTitle changed title-case digraphs to upper
 case

---
 src/case_conversions.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/case_conversions.c b/src/case_conversions.c
index 6a434bc..a3e9101 100644
--- a/src/case_conversions.c
+++ b/src/case_conversions.c
@@ -834,12 +834,16 @@ static struct
 } UnicodeToTitle[] =
 {
       {	0x01C4,	1 },
+      {	0x01C5,	0 },
       {	0x01C6,	-1 },
       {	0x01C7,	1 },
+      {	0x01C8,	0 },
       {	0x01C9,	-1 },
       {	0x01CA,	1 },
+      {	0x01CB,	0 },
       {	0x01CC,	-1 },
       {	0x01F1,	1 },
+      {	0x01F2,	0 },
       {	0x01F3,	-1 }
 };
 #define	UCS4NumTitleChars (sizeof(UnicodeToTitle)/sizeof(UnicodeToTitle[0]))
-- 
2.43.0


From 8976f0f63c1265da7ab98c8e89c241d47785f2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 10/51] fix: NulGuardedUTF8Ptr took a padded zero for the end
 of the text

---
 include/utf8_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utf8_ptr.h b/include/utf8_ptr.h
index 4c4d898..fb30702 100644
--- a/include/utf8_ptr.h
+++ b/include/utf8_ptr.h
@@ -23,7 +23,7 @@ public:
 			{ data = s.data; return *this; }
 
 	bool		at_eof()
-			{ return this->operator*() == '\0'; }
+			{ return *data == '\0'; }		// A padded (multi-byte) zero is not the end
 
 	UCS4		operator*()		// Dereference to char under the pointer
 			{ const UTF8* s = data; return UTF8Get(s); }
-- 
2.43.0


From 34fe5f4b772128d43e2d2c838662e4465ace1ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 11/51] fix: slicing an Array up to its end, or adding empty
 arrays, failed an assertion

---
 include/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index f7ea4a9..563720a 100644
--- a/include/array.h
+++ b/include/array.h
@@ -444,8 +444,8 @@ public:
 	ArrayR(Body* body, Index offs, Index len)
 			: body(body), offset(offs), num_elements(len)
 			{
-				assert(offs < body->length());
-				assert(offs+len < body->length());
+				assert(offs <= (body ? body->length() : 0));
+				assert(len <= (body ? body->length() : 0)-offs);
 			}
 protected:
 	bool		isStatic() const;
-- 
2.43.0


From 9d33f8b057e51990e9dc4dad721e2a14c7375d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 12/51] fix: Array::compare called a longer array equal to its
 own prefix

---
 include/array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/array.h b/include/array.h
index 563720a..abf16de 100644
--- a/include/array.h
+++ b/include/array.h
@@ -99,6 +99,8 @@ public:
 				}
 				if (i < comparand.length())
 					return -1;
+				if (i < num_elements)
+					return 1;
 				return 0;
 			}
 	inline bool	operator==(const ArrayR& comparand) const {
-- 
2.43.0


From 67038c0c1f6eaddedd88ed9c1b54ae6b7c44575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 13/51] fix: Array::rfind never looked at the first element

---
 include/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index abf16de..8244006 100644
--- a/include/array.h
+++ b/include/array.h
@@ -152,7 +152,7 @@ public:
 			{
 				const Element*	dp = body->data()+offset;	// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
-				for (const Element* bp = dp + (before < 0 ? num_elements : before)-1; bp > dp; bp--)
+				for (const Element* bp = (before < 0 ? ep : dp+before); bp-- > dp; )
 					if (*bp == e)
 						return bp-dp;
 				return -1;				// Not found
@@ -376,7 +376,7 @@ public:
 			{
 				const Element*	dp = body->data()+offset;	// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
-				for (const Element* bp = dp + (before < 0 ? num_elements : before)-1; bp > dp; bp--)
+				for (const Element* bp = (before < 0 ? ep : dp+before); bp-- > dp; )
 					if (match(*bp))
 						return bp-dp;
 				return -1;				// Not found
-- 
2.43.0


From 3ce8fe1f15cb2f0674f15108444426f44b746c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 14/51] fix: Array::reverse did not compile

---
 include/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index 8244006..c4c66ca 100644
--- a/include/array.h
+++ b/include/array.h
@@ -284,8 +284,8 @@ public:
 				if (num_elements == 0)
 					return *this;				// body may be null
 				Unshare();
-				const Element*	dp = body->data()+offset;	// Start of our slice
-				const Element*	ep = dp+num_elements;		// End of our slice
+				Element*	dp = body->data()+offset;	// Start of our slice
+				Element*	ep = dp+num_elements;		// End of our slice
 				while (ep-dp > 1)				// We haven't reached the middle yet
 				{
 					Element	e = *--ep;
-- 
2.43.0


From 1b2b242c4a2c5078b7e04662241b22971d699571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 15/51] fix: Array::delete_if did not move the elements it
 keeps

---
 include/array.h | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/include/array.h b/include/array.h
index c4c66ca..71830b1 100644
--- a/include/array.h
+++ b/include/array.h
@@ -298,24 +298,19 @@ public:
 			{
 				if (num_elements == 0)
 					return *this;				// body may be null
-				const Element*	dp = body->data()+offset;	// Start of our slice
-				const Element*	bp = dp;			// Output pointer
-				const Element*	ep = dp+num_elements;		// End of our slice
-				for (const Element* sp = dp; sp < ep; sp++, bp++)
-					if (condition(*sp))
+				Index	kept = 0;				// Output index
+				for (Index i = 0; i < num_elements; i++)
+				{
+					if (condition(body->data()[offset+i]))
+						continue;			// Skip this element in the output
+					if (kept < i)
 					{
-						if (isShared())
-						{
-							Unshare();	// This invalidates the pointers; reset them
-							dp = body->data() + (dp-sp);
-							bp = body->data() + (bp-sp);
-							ep = body->data() + (ep-sp);
-							// sp = body->data();	// Unnecessary, we won't Unshare twice
-						}
-						bp--;	// Skip this element in the output
+						Unshare();			// This preserves the indexes
+						body->data()[offset+kept] = body->data()[offset+i];
 					}
-				if (bp < dp)
-					num_elements -= (dp-bp);
+					kept++;
+				}
+				num_elements = kept;
 				return *this;
 			}
 
-- 
2.43.0


From 993e2e7afb2e64880b5daccc77a07b8c3f86e4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 16/51] fix: searching or visiting a null Array dereferenced
 its null body

---
 include/array.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/array.h b/include/array.h
index 71830b1..68ed832 100644
--- a/include/array.h
+++ b/include/array.h
@@ -141,7 +141,7 @@ public:
 	// Linear search for an element
 	int		find(const Element& e, int after = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (after < 0 ? 0 : after+1); bp < ep; bp++)
 					if (*bp == e)
@@ -150,7 +150,7 @@ public:
 			}
 	int		rfind(const Element& e, int before = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = (before < 0 ? ep : dp+before); bp-- > dp; )
 					if (*bp == e)
@@ -317,7 +317,7 @@ public:
 	// Functional methods (these don't mutate or Unshare the subject):
 	const Self&	each(std::function<void(const Element& e)> operation) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					operation(*bp);
@@ -326,7 +326,7 @@ public:
 			}
 	bool		all(std::function<bool(const Element& e)> condition) const	// Do all elements satisfy the condition?
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (!condition(*bp))
@@ -335,7 +335,7 @@ public:
 			}
 	bool		any(std::function<bool(const Element& e)> condition) const	// Does any element satisfy the condition?
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (condition(*bp))
@@ -344,7 +344,7 @@ public:
 			}
 	bool		one(std::function<bool(const Element& e)> condition) const	// Exactly one element satisfies the condition
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				bool		found = false;
 				for (const Element* bp = dp; bp < ep; bp++)
@@ -360,7 +360,7 @@ public:
 	// Linear search for an element using a match function
 	int		find(std::function<bool(const Element& e)> match, int after = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (after < 0 ? 0 : after+1); bp < ep; bp++)
 					if (match(*bp))
@@ -369,7 +369,7 @@ public:
 			}
 	int		rfind(std::function<bool(const Element& e)> match, int before = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = (before < 0 ? ep : dp+before); bp-- > dp; )
 					if (match(*bp))
@@ -381,7 +381,7 @@ public:
 	Self		select(std::function<bool(const Element& e)> condition) const
 			{
 				Self	selected;
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (condition(*bp))
@@ -392,7 +392,7 @@ public:
 			{
 				Result		output((E2*)0, 0, num_elements);// Preallocate correct size
 
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					output.append(map1(*bp));
@@ -401,7 +401,7 @@ public:
 	template<typename J> J	inject(const J& start, std::function<J(J&, const Element& e)> injection) const
 			{
 				J	accumulator = start;
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					accumulator = injection(accumulator, *bp);
@@ -409,7 +409,7 @@ public:
 			}
 	int		bsearch(std::function<int(const Element& e)> comparator) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				Index		l = 0;
 				Index		r = num_elements;
 				while (r > l)
-- 
2.43.0


From f45af9c8833b67591b29eb9477e8c933b1468efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 17/51] fix: Array::bsearch skipped elements and read beyond
 the last one

---
 include/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index 68ed832..16026e7 100644
--- a/include/array.h
+++ b/include/array.h
@@ -414,12 +414,12 @@ public:
 				Index		r = num_elements;
 				while (r > l)
 				{
-					Index	m = l+(r-l+1)/2;	// Care with unsigned overflow
+					Index	m = l+(r-l)/2;		// Care with unsigned overflow
 					int	c = comparator(dp[m]);
 					if (c == 0)
 						return m;
 					if (c > 0)
-						r = m-1;		// The middle element was too great
+						r = m;			// The middle element was too great
 					else
 						l = m+1;		// The middle element was too small
 				}
-- 
2.43.0


From 94212eec73f553e1f7ef441539ac4a00425fba45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 18/51] fix: changing a slice that is the last user of its
 Array body changed the wrong elements

---
 include/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array.h b/include/array.h
index 16026e7..ef55aa9 100644
--- a/include/array.h
+++ b/include/array.h
@@ -454,7 +454,7 @@ private:
 
 	void		Unshare(Index extra = 0)	// Get our own copy of Body that we can safely mutate
 			{
-				if (body && body->GetRefCount() <= 1)
+				if (body && body->GetRefCount() <= 1 && offset == 0)
 					return;
 
 				// Copy only this slice of the body's data, and reset our offset to zero
-- 
2.43.0


From dc6f3c2b778b8d3239a94682ec4d33a6f37ae2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 19/51] fix: inserting an Array into itself read freed memory

---
 include/array.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/array.h b/include/array.h
index ef55aa9..1b1ec3c 100644
--- a/include/array.h
+++ b/include/array.h
@@ -270,9 +270,10 @@ public:
 					}
 				}
 
-				Unshare(addend.length());
-				body->insert(pos, addend.asElements(), addend.length());
-				num_elements += addend.length();
+				const ArrayR	added(addend);		// addend may be this array; keep its elements as they are
+				Unshare(added.length());
+				body->insert(pos, added.asElements(), added.length());
+				num_elements += added.length();
 				return *this;
 			}
 	ArrayR&		append(const ArrayR& addend)	// Append an ArrayR to the end
-- 
2.43.0


From 14f34538d1d5bba407c02dcfd03d14cbd8714d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 20/51] fix: appending an Array, unshift and elem_ref did not
 compile

---
 include/array.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/array.h b/include/array.h
index 1b1ec3c..2d5e1ca 100644
--- a/include/array.h
+++ b/include/array.h
@@ -77,7 +77,8 @@ public:
 			  Unshare();
 			  return body->data()[offset+elem_num]; }
 	const Element&	elem_ref(int elem_num) const
-			{ return elem_mut(elem_num); }
+			{ assert(elem_num >= 0 && elem_num < num_elements && body);
+			  return body->data()[offset+elem_num]; }
 	const Element*	asElements() const
 			{ return body ? body->data()+offset : 0; }
 
@@ -246,7 +247,7 @@ public:
 	Element		shift()				// remove an element from the start
 			{ assert(num_elements > 0); return delete_at(0); }
 	ArrayR&		unshift(const Element& e)	// Insert an element at the start
-			{ Unshare(); body->insert(0, e); num_elements++; return *this; }
+			{ Unshare(1); body->insert(0, &e, 1); num_elements++; return *this; }
 	ArrayR&		insert(Index pos, const ArrayR& addend)
 			{
 				if ((Body*)body == (Body*)addend.body)	// From the same body
@@ -277,7 +278,7 @@ public:
 				return *this;
 			}
 	ArrayR&		append(const ArrayR& addend)	// Append an ArrayR to the end
-			{ return insert(num_elements, addend.asElements(), addend.length()); }
+			{ return insert(num_elements, addend); }
 	ArrayR&		append(const Element& addend)	// Append an element to the end
 			{ return push(addend); }
 	ArrayR&		reverse()
@@ -446,7 +447,8 @@ public:
 				assert(len <= (body ? body->length() : 0)-offs);
 			}
 protected:
-	bool		isStatic() const;
+	bool		isStatic() const
+			{ return body && body->isStatic(); }
 
 private:
 	Ref<Body>	body;		// The storage structure for the elements
-- 
2.43.0


From 4a5fb1040ea5cb9a4cca964d061ee38fa95d161b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 21/51] fix: growing an ArrayBody over borrowed data deleted
 that data

---
 include/array.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/array.h b/include/array.h
index 2d5e1ca..2d88ed9 100644
--- a/include/array.h
+++ b/include/array.h
@@ -600,6 +600,7 @@ protected:
 					return;		// Never release memory on a downsize
 
 				minimum = ((minimum-1)|0x7)+1;	// round up to multiple of 8
+				bool	borrowed = num_alloc == 0;
 				if (num_alloc)	// Minimum growth 50% rounded up to nearest 16
 					num_alloc = ((num_alloc*3/2) | 0xF) + 1;
 				if (num_alloc < minimum)
@@ -609,7 +610,8 @@ protected:
 				{
 					for (Index i = 0; i < num_elements; i++)
 						newdata[i] = start[i];
-					delete[] start;
+					if (!borrowed)
+						delete[] start;
 				}
 				start = newdata;
 			}
-- 
2.43.0


From eb91d7ba473307183da72bb01cb20aad43d550af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 22/51] fix: changing a substring that is the last user of its
 body changed the wrong text

---
 include/strval.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index fadc15e..97c6195 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -806,10 +806,9 @@ private:
 
 	void		Unshare()
 			{
-				// A substring on Unallocated memory which is the last remaining ref
-				// cannot be terminated correctly, so must be copied even if unshared
-				bool	must_copy_static = body->isStatic() && offset+length() < body->numChars();
-				if (must_copy_static || body->isShared())
+				// A substring must be copied even if unshared, because mutation works on a whole body
+				bool	is_substring = offset > 0 || offset+length() < body->numChars();
+				if (is_substring || body->isShared())
 					copyBody();
 			}
 
-- 
2.43.0


From c647fdbe66f11442fc315a88138f3b708ef65ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 23/51] fix: a bookmark survived the insertion or case
 conversion that moved its character

---
 include/strval.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index 97c6195..d9281ad 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -700,7 +700,7 @@ public:
 				Index		addend_length;		// Get length in bytes
 				const char*	ap = addend.asUTF8(addend_length);
 				body->insertBytes(nthChar(pos)-nthChar(0), ap, addend_length);
-				// REVISIT: update or nullify the bookmark if after insertion point
+				mark = Bookmark();	// It may be after the insertion point
 				num_chars += addend.length();
 				return *this;
 			}
@@ -716,6 +716,7 @@ public:
 				Unshare();	// REVISIT: Unshare only when first change must be made
 				body->toLower();
 				num_chars = body->numChars();
+				mark = Bookmark();
 				return *this;
 			}
 	StrValI&	toUpper()
@@ -723,6 +724,7 @@ public:
 				Unshare();	// REVISIT: Unshare only when first change must be made
 				body->toUpper();
 				num_chars = body->numChars();
+				mark = Bookmark();
 				return *this;
 			}
 	StrValI&	transform(const std::function<StrValI(const char*& cp, const char* ep)> xform, int after = -1);
@@ -732,6 +734,7 @@ public:
 				Unshare();
 				body->toJSON();
 				num_chars = body->numChars();
+				mark = Bookmark();
 				return *this;
 			}
 
-- 
2.43.0


From 88765216539221da17af577a2b6af4fa6a8ea9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 24/51] fix: copying a substring could leave a bookmark before
 its start

---
 include/strval.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index d9281ad..e584167 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -802,8 +802,9 @@ private:
 				Index		prefix_bytes = cp - body->nthChar(0, mark); // How many leading bytes of the body we are eliding
 
 				body = new Body(cp, body->isRawBinary() ? StrRawBinary : StrUTF8, ep-cp);
-				mark.char_num = savemark.char_num - offset;	// Restore the bookmark
-				mark.byte_num = savemark.byte_num - prefix_bytes;
+				mark = savemark.char_num >= offset	// Restore the bookmark
+					? Bookmark(savemark.char_num - offset, savemark.byte_num - prefix_bytes)
+					: Bookmark();
 				offset = 0;
 			}
 
-- 
2.43.0


From 5fdf17e314c523b5d85c325b2fec46146939b544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 25/51] fix: inserting a StrVal into itself read freed memory

---
 include/strval.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/strval.h b/include/strval.h
index e584167..bd1c047 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -694,6 +694,9 @@ public:
 					return *this;
 				}
 
+				if (&addend == this)
+					return insert(pos, StrValI(addend));	// Keep the addend as it is
+
 				Unshare();
 
 				// REVISIT: Handle StrRawBinary data
-- 
2.43.0


From 531d7442d51a0fd5fe90483eef9fc366db3c9a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 26/51] fix: searching a StrVal looked at the character after
 its end

---
 include/strval.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index bd1c047..34e0328 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -496,7 +496,7 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while ((up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n)) != 0)
 				{
 					if (ch == getChar(up))
 						return n;		// Found at n
@@ -558,7 +558,7 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while ((up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n)) != 0)
 				{
 					UCS4	ch = getChar(up);
 					for (Index i = 0; i < s1.length(); i++)
@@ -589,7 +589,7 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while ((up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n)) != 0)
 				{
 					UCS4	ch = getChar(up);
 					for (Index i = 0; i < s1.length(); i++)
-- 
2.43.0


From 60051d1e40bc887bd4f24b9928a84d6f781f017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 27/51] fix: searching for a substring compared bytes beyond
 the end of the text

---
 include/strval.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 34e0328..a9a5d8c 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -523,13 +523,14 @@ public:
 	int		find(const StrValI& s1, int after = -1) const
 			{
 				Index		n = after+1;		// First Index we'll look at
-				Index		last_start = length()-s1.length();	// Last possible start position
 				const char*	s1start = s1.nthChar(0);
+				Index		s1bytes = s1.numBytes();
+				const char*	ep = nthChar(length());
 				const char*	up;
-				while (n <= last_start && (up = nthChar(n)) != 0)
+				while ((up = nthChar(n)) != 0 && up+s1bytes <= ep)
 				{
 					// REVISIT: Only works if the StrDataType matches
-					if (memcmp(up, s1start, s1.numBytes()) == 0)
+					if (memcmp(up, s1start, s1bytes) == 0)
 						return n;
 					n++;
 				}
@@ -537,16 +538,20 @@ public:
 			}
 	int		rfind(const StrValI& s1, int before = -1) const
 			{
+				if (s1.length() > length())
+					return -1;
 				Index		n = before == -1 ? length()-s1.length() : before-1;	// First Index we'll look at
-				if (n > length()-s1.length())
+				if (before != 0 && n > length()-s1.length())
 					n = length()-s1.length();
 
 				const char*	s1start = s1.nthChar(0);
+				Index		s1bytes = s1.numBytes();
+				const char*	ep = nthChar(length());
 				const char*	bp;
 				while ((bp = nthChar(n)) != 0)
 				{
 					// REVISIT: Only works if the StrDataType matches
-					if (memcmp(bp, s1start, s1.numBytes()) == 0)
+					if (bp+s1bytes <= ep && memcmp(bp, s1start, s1bytes) == 0)
 						return n;
 					n--;
 				}
-- 
2.43.0


From eda2fe6991ec9b05c49d9e8a1fbd1cb7c67cd142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 28/51] fix: comparing with a shorter substring compared bytes
 beyond its end

---
 include/strval.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index a9a5d8c..04940aa 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -869,12 +869,15 @@ template<typename Index>
 int StrValI<Index>::compare(const StrValI& comparand, CompareStyle style) const
 {
 	int	cmp;
+	Index	bytes, comparand_bytes;
 	switch (style)
 	{
 	case CompareRaw:
-		cmp = memcmp(nthChar(0), comparand.nthChar(0), numBytes());
+		bytes = numBytes();
+		comparand_bytes = comparand.numBytes();
+		cmp = memcmp(nthChar(0), comparand.nthChar(0), bytes < comparand_bytes ? bytes : comparand_bytes);
 		if (cmp == 0)
-			cmp = numBytes() - comparand.numBytes();
+			cmp = bytes - comparand_bytes;
 		return cmp;
 
 	case CompareCI:
-- 
2.43.0


From 8f3dc0dfbac5ce0cd8489230e3f4e1c0d15f549b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 29/51] fix: a StrVal of length-terminated data read the byte
 after the data

---
 include/strval.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 04940aa..cf00704 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -78,13 +78,18 @@ public:
 	~StrBodyI()	{}
 	StrBodyI()	: num_chars(0) {}
 	StrBodyI(const char* data, StrDataType dt, Index length = 0, Index allocate = 0)
-			: Body(data, dt != StrStatic, (length == 0 ? strlen(data) : length)+1, allocate)
+			: Body(
+				data, dt != StrStatic,
+				// Length-terminated data has no NUL to be copied
+				dt != StrStatic && length != 0 ? length : (length == 0 ? strlen(data) : length)+1,
+				allocate > length || length == 0 ? allocate : length+1
+			)
 			, num_chars(0)
 			{
 				// REVISIT: Need a Panic() function when a string passes the allowed maximum size
 				// assert(num_elements < StrValIndexRawBinaryMarker);
 				if (dt != StrStatic && length != 0)
-					start[num_elements-1] = '\0';	// Perhaps we didn't copy a NUL, so add one
+					Body::insert(length, "", 1);	// We didn't copy a NUL, so add one
 				if (dt == StrRawBinary)
 					num_chars = StrValIndexRawBinaryMarker;	// one byte = one char, don't count them
 			}
-- 
2.43.0


From 34ecf48bff1629e828cb09e46d6403e0fc72d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 30/51] fix: counting the characters of a shared body showed
 unfinished counts to other threads

---
 include/strval.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index cf00704..9d751d4 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -258,6 +258,7 @@ protected:
 
 				const char*	cp = start;		// Progress pointer when reading data
 				char*		ep = start+num_elements-1;	// Marker for end of data
+				Index		counted = 0;
 				while (cp < ep)
 				{
 					UCS4		ch = UTF8Get(cp);
@@ -265,8 +266,9 @@ protected:
 					 || cp > ep)			// Overlaps the end of data
 						break;			// An error occurred before the end of the data; truncate it.
 					// Count illegal UTF-8 characters here
-					num_chars++;
+					counted++;
 				}
+				num_chars = counted;
 			}
 
 	UCS4		getChar(const char*& cp) const	// Return next character, next advancing cp
-- 
2.43.0


From b8f74655eb2e4c25e17a3cd6c0bcc188b3b5180e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 31/51] fix: asInt32 did not detect 32-bit overflow, nor accept
 the prefix of an explicit radix

---
 include/strval.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 9d751d4..ab68c3d 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1024,7 +1024,7 @@ int32_t StrValI<Index>::asInt32(
 			goto no_digits;
 	}
 
-	if (radix == 0)		// Auto-detect radix (octal, decimal, binary)
+	if (radix == 0 || radix == 2 || radix == 16)	// Auto-detect radix (octal, decimal, binary), or skip its prefix
 	{
 		if (UCS4Digit(ch) == 0 && i+1 < len)
 		{
@@ -1055,7 +1055,7 @@ int32_t StrValI<Index>::asInt32(
 				break;
 			}
 		}
-		else
+		else if (radix == 0)
 			radix = 10;
 	}
 
@@ -1093,7 +1093,7 @@ int32_t StrValI<Index>::asInt32(
 	if (scanned)
 		*scanned = i;
 
-	if (l > (unsigned long)LONG_MAX+(negative ? 1 : 0))
+	if (l > (unsigned long)INT32_MAX+(negative ? 1 : 0))
 	{
 		if (err_return)
 			*err_return = ErrNum(STRERR_SET, STRERR_NUMBER_OVERFLOW);
-- 
2.43.0


From b04e606850e847b1058d79da1dd8dfb6f79c867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 32/51] fix: JSON text had wrong surrogate pairs and an illegal
 escape for NUL

---
 include/strval.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index ab68c3d..4eb9a94 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1140,8 +1140,6 @@ StrBodyI<Index>::toJSON()
 			char*	op = one_char;		// Pack it into our local buffer
 			switch (ch)
 			{
-			case '\0':	// Null Byte
-				*op++ = '\\'; *op++ = '0'; break;
 			case '\"':	// Double quote
 				*op++ = '\\'; *op++ = '\"'; break;
 			case '\\':	// Backslash character
@@ -1191,8 +1189,9 @@ StrBodyI<Index>::toJSON()
 				}
 
 				// We need two surrogates for Emoji's etc.
+				ch -= 0x10000;
 				assert(ch <= 0xFFFFF);
-				// Surrogate pair: D800 to DBFF, Low surrogate: D800 to DBFF
+				// High surrogate: D800 to DBFF, Low surrogate: DC00 to DFFF
 				u4(0xD800+((ch>>10)&0x3FF), op);
 				u4(0xDC00+(ch&0x3FF), op);
 				break;
-- 
2.43.0


From 2f67b8e914e0aa57c9c075bc8ad7567809efd2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:45 +0000
Subject: [PATCH 33/51] fix: CowMap::put erased the old value from the other
 users of a shared map

---
 include/cowmap.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/cowmap.h b/include/cowmap.h
index 7e46a13..dc3b54d 100644
--- a/include/cowmap.h
+++ b/include/cowmap.h
@@ -75,10 +75,8 @@ public:
 			{ Unshare(); body->erase(k); }
 	Key	put(const Key& k, Value v)
 			{
-				auto search = find(k);
-				if (search != end())
-					body->erase(k);
-				insert(k, v);
+				Unshare();
+				(*body)[k] = v;
 				return k;
 			}
 
-- 
2.43.0


From f6c4e7482543bd1c78edf790f16cbeaeef7069e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:54 +0000
Subject: [PATCH 34/51] fix: the visiting and mapping functions of CowMap did
 not compile

---
 include/cowmap.h | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/include/cowmap.h b/include/cowmap.h
index dc3b54d..5c128da 100644
--- a/include/cowmap.h
+++ b/include/cowmap.h
@@ -15,6 +15,7 @@
 
 #include	<refcount.h>
 #include	<strval.h>
+#include	<array.h>
 
 template<typename V, typename K> class CowMapBody;
 template<typename V, typename K = StrVal, typename Body = CowMapBody<V, K>> class CowMap;
@@ -83,35 +84,35 @@ public:
 	// Functional methods (these don't mutate or Unshare the subject):
 	Array<Key>	keys() const
 			{
-				Array<K>	all_keys((Value*)0, 0, size());
+				Array<Key>	all_keys((Key*)0, 0, size());
 				for (Iter it = begin(); it != end(); it++)
-					all_keys.append(it.first);
+					all_keys.append(it->first);
 				return all_keys;
 			}
 	Array<Value>	values() const
 			{
 				Array<Value>	all_values((Value*)0, 0, size());
 				for (Iter it = begin(); it != end(); it++)
-					all_values.append(it.second);
+					all_values.append(it->second);
 				return all_values;
 			}
 
 	void		each(std::function<void(const Key& k, const Value& v)> operation) const
 			{
 				for (Iter it = begin(); it != end(); it++)
-					operation(it.first, it.second);
+					operation(it->first, it->second);
 			}
 	bool		all(std::function<bool(const Key& k, const Value& v)> condition) const	// Do all elements satisfy the condition?
 			{
 				for (Iter it = begin(); it != end(); it++)
-					if (!condition(it.first, it.second))
+					if (!condition(it->first, it->second))
 						return false;
 				return true;
 			}
 	bool		any(std::function<bool(const Key& k, const Value& v)> condition) const	// Does any element satisfy the condition?
 			{
 				for (Iter it = begin(); it != end(); it++)
-					if (condition(it.first, it.second))
+					if (condition(it->first, it->second))
 						return true;
 				return false;
 			}
@@ -119,7 +120,7 @@ public:
 			{
 				bool		found = false;
 				for (Iter it = begin(); it != end(); it++)
-					if (condition(it.first, it.second))
+					if (condition(it->first, it->second))
 					{
 						if (found)
 							return false;
@@ -133,8 +134,8 @@ public:
 				CowMap	selected;
 
 				for (Iter it = begin(); it != end(); it++)
-					if (condition(it.first, it.second))
-						selected.put(it.first, it.second);
+					if (condition(it->first, it->second))
+						selected.put(it->first, it->second);
 				return selected;
 			}
 	template<typename V2 = V, typename K2 = K>
@@ -142,7 +143,10 @@ public:
 			{
 				CowMap<V2, K2>	output;
 				for (Iter it = begin(); it != end(); it++)
-					output.append(map1(it.first, it.second));
+				{
+					std::pair<K2, V2>	entry = map1(it->first, it->second);
+					output.put(entry.first, entry.second);
+				}
 				return output;
 			}
 	template<typename J>
@@ -150,7 +154,7 @@ public:
 			{
 				J	accumulator = start;
 				for (Iter it = begin(); it != end(); it++)
-					accumulator = injection(accumulator, it.first, it.second);
+					accumulator = injection(accumulator, it->first, it->second);
 				return accumulator;
 			}
 
-- 
2.43.0


From 70071ab192620cd91f7de5ab37fa2de9205655dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:30 +0000
Subject: [PATCH 35/51] fix: converting a Variant to a number left the old type
 tag, leaked the string, and took success for failure

---
 include/variant.h | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/include/variant.h b/include/variant.h
index 7f1065f..1baed91 100644
--- a/include/variant.h
+++ b/include/variant.h
@@ -288,14 +288,13 @@ protected:
 			{
 			case Integer:	return; // Already handled
 			case Long:	if (u.l != (int)u.l) break;	// Fail if it would truncate
-					u.i = (int)u.l; return;
+					*this = (int)u.l; return;
 			case LongLong:	if (u.ll != (int)u.ll) break;	// Fail if it would truncate
-					u.i = (int)u.ll; return;
+					*this = (int)u.ll; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);
-					if (!e)				// Some error in conversion
+					if (e)				// Some error in conversion
 						break;
-					u.i = i32;
-					_type = new_type;
+					*this = (int)i32;
 					return;
 			case None:		// FALL THROUGH
 			case StrArray:		// FALL THROUGH
@@ -308,15 +307,14 @@ protected:
 		case Long:
 			switch (old_type)
 			{
-			case Integer:	u.l = u.i; return;
+			case Integer:	*this = (long)u.i; return;
 			case Long:	return; // Already handled
 			case LongLong:	if (u.ll != (long)u.ll) break;	// Fail if it would truncate
-					u.l = (long)u.ll; return;
+					*this = (long)u.ll; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
-					if (!e)				// Some error in conversion
+					if (e)				// Some error in conversion
 						break;
-					u.l = i32;
-					_type = new_type;
+					*this = (long)i32;
 					return;
 			case None:		// FALL THROUGH
 			case StrArray:		// FALL THROUGH
@@ -329,14 +327,13 @@ protected:
 		case LongLong:
 			switch (old_type)
 			{
-			case Integer:	u.l = u.i; return;
-			case Long:	u.ll = u.l; return;
+			case Integer:	*this = (long long)u.i; return;
+			case Long:	*this = (long long)u.l; return;
 			case LongLong:	return; // Already handled
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
 					if (e)				// Some error in conversion
 						break;
-					u.ll = i32;
-					_type = new_type;
+					*this = (long long)i32;
 					return;
 			case None:		// FALL THROUGH
 			case StrArray:		// FALL THROUGH
-- 
2.43.0


From cf0016edcc68dc7779194b8c0cefbd25f9f65e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:48 +0000
Subject: [PATCH 36/51] fix: casting a Ref to another type did not compile

---
 include/refcount.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/refcount.h b/include/refcount.h
index 2172271..b8d0e62 100644
--- a/include/refcount.h
+++ b/include/refcount.h
@@ -62,7 +62,7 @@ public:
 	// Casting to other Ref types
 	template <class S> Ref<S>
 			Cast()
-			{ return Ref<S>(static_cast<S*>(*this)); }
+			{ return Ref<S>(static_cast<S*>(ptr)); }
 
 	bool		operator==(const Ref& other) const { return *this == *other; }
 	bool		operator!=(const Ref& other) const { return *this != *other; }
-- 
2.43.0


From 5be4d7cf5545b043d49827504f89adce63029d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:48 +0000
Subject: [PATCH 37/51] fix: comparing the objects of two Refs did not compile

---
 include/refcount.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/refcount.h b/include/refcount.h
index b8d0e62..7515db2 100644
--- a/include/refcount.h
+++ b/include/refcount.h
@@ -64,10 +64,10 @@ public:
 			Cast()
 			{ return Ref<S>(static_cast<S*>(ptr)); }
 
-	bool		operator==(const Ref& other) const { return *this == *other; }
-	bool		operator!=(const Ref& other) const { return *this != *other; }
-	bool		operator<(const Ref& other) const { return *this < *other; }
-	bool		operator>(const Ref& other) const { return *this > *other; }
+	bool		operator==(const Ref& other) const { return **this == *other; }
+	bool		operator!=(const Ref& other) const { return **this != *other; }
+	bool		operator<(const Ref& other) const { return **this < *other; }
+	bool		operator>(const Ref& other) const { return **this > *other; }
 			operator bool() const { return ptr != 0; }
 
 	// The following methods require T::GetRefCount():
-- 
2.43.0


From 727a47b0f6859a2a1861a02bce652511a198dd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:35 +0000
Subject: [PATCH 38/51] fix: a Pegexp ending in an operator or an escape read
 past the end of the pattern

---
 include/pegexp.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 16176e6..1a92bc4 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -401,6 +401,8 @@ protected:
 		}
 		if (rc != '\\')
 			return rc;
+		if (*pattern == '\0')
+			return 0;			// Error: nothing follows the backslash
 		rc = *pattern++;
 		if (rc >= '0' && rc <= '7')		// Octal
 		{
@@ -416,14 +418,16 @@ protected:
 				return 0;
 			if ((braces = (*pattern == '{')))
 				pattern++;
-			rc = unhex(*pattern++);
-			if (rc < 0)
+			int first = unhex(*pattern);
+			if (first < 0)
 				return 0;		// Error: invalid first hex digit
-			int second = unhex(*pattern++);
+			rc = first;
+			int second = unhex(*++pattern);
 			if (second >= 0)
+			{
 				rc = (rc << 4) | second;
-			else
-				pattern--;		// Invalid second hex digit
+				pattern++;
+			}
 			if (braces && *pattern == '}')
 				pattern++;
 		}
@@ -761,6 +765,10 @@ protected:
 	{
 		switch (char rc = *pattern++)
 		{
+		case '\0':	// There is no atom here
+			pattern--;
+			break;
+
 		case '\\':	// Escaped literal char
 			pattern--;
 			(void)literal_char(pattern);
-- 
2.43.0


From 1985ba8fdd422af2baf0729d3aa65e31e18be1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:04 +0000
Subject: [PATCH 39/51] fix: skipping a repeated or asserted Pegexp atom did
 not agree with matching it

---
 include/pegexp.h | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 1a92bc4..028dd14 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -475,6 +475,12 @@ protected:
 		}
 	}
 
+	// Does the pattern have an escape that stands for a set of characters here?
+	static bool	is_property(PatternP pattern)
+	{
+		return pattern[0] == '\\' && pattern[1] != '\0' && strchr("adhLUsw", pattern[1]) != 0;
+	}
+
 	bool		char_class(State& state)
 	{
 		if (state.source.at_eof())		// End of input never matches a char_class
@@ -494,8 +500,7 @@ protected:
 			Char	c1;
 
 			// Handle actual properties, not other escapes
-			char	esc = state.pattern[1];
-			if (*state.pattern == '\\' && isalpha(esc) && esc != 'x' && esc != 'u')
+			if (is_property(state.pattern))
 			{
 				state.pattern++;
 				if (char_property(state.pattern, ch))
@@ -619,7 +624,7 @@ protected:
 					context->rollback_capture(iteration_captures);
 
 					// printf("iterated %d (>=min %d <=max %d)\n", repetitions, min, max);
-					skip_atom(state.pattern);	// We're done with these repetitions, move on
+					skip_operand(state.pattern);	// We're done with these repetitions, move on
 					break;
 				}
 				if (state.source.same(iteration_start.source))
@@ -649,7 +654,6 @@ protected:
 			{
 				state = start_state;
 				state.pattern = next_alternate+1;
-				start_state.pattern = next_alternate+1;
 
 				// Work through all atoms of the current alternate:
 				do {
@@ -681,7 +685,7 @@ protected:
 
 			state = start_state;	// Continue with the same source
 			if (matched)	// Assertion succeeded, skip it
-				state.pattern = skip_atom(state.pattern);
+				skip_operand(++state.pattern);
 			break;
 		}
 
@@ -761,6 +765,16 @@ protected:
 		pattern++;
 	}
 
+	// Skip the atom that a prefix operator applies to, which might be a series of alternates
+	void		skip_operand(PatternP& pattern)
+	{
+		if (*pattern != '|')
+			skip_atom(pattern);
+		else
+			while (*pattern == '|')
+				skip_atom(pattern);
+	}
+
 	const PatternP	skip_atom(PatternP& pattern)
 	{
 		switch (char rc = *pattern++)
@@ -779,6 +793,11 @@ protected:
 				pattern++;
 			while (*pattern != '\0' && *pattern != ']')
 			{
+				if (is_property(pattern))
+				{		// A property cannot start a range
+					pattern += 2;
+					continue;
+				}
 				(void)literal_char(pattern);
 				if (*pattern == '-')
 				{
@@ -802,9 +821,12 @@ protected:
 				skip_atom(pattern);
 			break;
 
+		case '?':	// Zero or one
+		case '*':	// Zero or more
+		case '+':	// One or more
 		case '&':	// Positive lookahead assertion
 		case '!':	// Negative lookahead assertion
-			skip_atom(pattern);
+			skip_operand(pattern);
 			break;
 
 		// Extended commands:
-- 
2.43.0


From f2a5cbf2d5660cb6e3a597e097de7e6bdc35ff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:29 +0000
Subject: [PATCH 40/51] fix: an empty Pegexp alternate consumed the closing
 parenthesis of its group

---
 include/pegexp.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 028dd14..ed7d26e 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -656,10 +656,9 @@ protected:
 				state.pattern = next_alternate+1;
 
 				// Work through all atoms of the current alternate:
-				do {
+				while (!(matched = state.at_expr_end() || *state.pattern == '|'))
 					if (!match_atom(state, context))
 						break;
-				} while (!(matched = state.at_expr_end() || *state.pattern == '|'));
 
 				if (matched)
 				{		// This alternate matched, skip to the end of the alternates
-- 
2.43.0


From 536388a811a98c55556289160b39f2bbc1853bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:29 +0000
Subject: [PATCH 41/51] fix: Pegexp character properties indexed outside the
 ctype tables for characters above 255

---
 include/pegexp.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index ed7d26e..4181965 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -460,15 +460,18 @@ protected:
 
 	bool		char_property(PatternP& pattern, Char ch)
 	{
+		// The <cctype> functions are only defined for values that fit in an unsigned char. A NUL has none of the properties
+		int	cc = sizeof(Char) == 1 ? (unsigned char)ch : (ch >= 0 && ch <= 0xFF ? (int)ch : 0);
+
 		switch (char32_t esc = *pattern++)
 		{
-		case 'a':	return isalpha(ch);	// Alphabetic
-		case 'd':	return isdigit(ch);	// Digit
-		case 'h':	return isdigit(ch) || (ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F');	// Hexadecimal
-		case 'L':	return islower(ch);
-		case 'U':	return isupper(ch);
-		case 's':	return isspace(ch);
-		case 'w':	return isalnum(ch);	// Alphabetic or digit
+		case 'a':	return isalpha(cc);	// Alphabetic
+		case 'd':	return isdigit(cc);	// Digit
+		case 'h':	return isdigit(cc) || (ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F');	// Hexadecimal
+		case 'L':	return islower(cc);
+		case 'U':	return isupper(cc);
+		case 's':	return isspace(cc);
+		case 'w':	return isalnum(cc);	// Alphabetic or digit
 		default:	pattern -= 2;		// oops, not a property
 				esc = literal_char(pattern);
 				return esc == ch;	// Other escaped character, exact match
-- 
2.43.0


From 21140a8636d9441f406ed8cfe4474ab7d202c04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:29 +0000
Subject: [PATCH 42/51] fix: a StringArray made from an array of StrVal read it
 as an array of the smaller StrRef

---
 include/strval.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index 4eb9a94..0826c79 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1213,8 +1213,11 @@ public:
 	StringArray() {}
 	StringArray(const Base& a1) : Base(a1) {}
 	StringArray(const StrVal* data, Index size, Index allocate = 0)
-	: Array(data, size, allocate)
+	: Array((const StrRef*)0, 0, allocate > size ? allocate : size)
 	{
+		// A StrVal is larger than a StrRef, so we can't just copy this as an array of StrRef
+		for (Index i = 0; i < size; i++)
+			append(data[i]);
 	}
 
 	// Construct from an Array of const char*
-- 
2.43.0


From 4405c453525c9c915b5c52009969677326b487dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:29 +0000
Subject: [PATCH 43/51] fix: Variant(StrVariantMap) assigned to a member that
 was never constructed

---
 include/variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/variant.h b/include/variant.h
index 1baed91..2127cad 100644
--- a/include/variant.h
+++ b/include/variant.h
@@ -84,7 +84,7 @@ public:
 			u.var_map.insert(keys[i], values[i]);
 	}
 	Variant(StrVariantMap map)					// StrVarMap
-	{ _type = StrVarMap; u.var_map = map; }
+	{ _type = StrVarMap; new(&u.var_map) StrVariantMap(map); }
 
 	// Default-initialise any _type
 	Variant(VariantType t)
-- 
2.43.0


From 4aee863da6926120fdc229157b858e9da4637e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:29 +0000
Subject: [PATCH 44/51] fix: a Thread that was not started had an indeterminate
 state and id, and could be taken for an ended one

---
 include/thread.h | 2 ++
 src/thread.cpp   | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/thread.h b/include/thread.h
index 2531cfe..92fac66 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -115,6 +115,8 @@ public:
 };
 
 Thread::Thread()
+: thread_id(0)
+, state(New)
 {
 #if	defined(HAVE_PTHREADS)
 	// pthread_create starts the thread immediately, before subclass construction has finished,
diff --git a/src/thread.cpp b/src/thread.cpp
index 417f4a1..4bd1c59 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -27,12 +27,12 @@ Thread::ThreadProc(void* _this)
 	// This code can be run *before* pthread_create has assigned the thread_id. Wait for it.
 	thread_latch.enter();
 	assert(t->id());
+	t->state = Started;
 	thread_latch.leave();
 #elif	defined(MSW)
 	assert(t->handle());
-#endif
-
 	t->state = Started;
+#endif
 
 #if	defined(HAVE_PTHREADS)
 	void*	ret = (void*)(long)t->run();
-- 
2.43.0


From eff33c17c1e307b97e1815fb09c25130ad1ef56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:29 +0000
Subject: [PATCH 45/51] fix: joinAny returned no thread while one other than
 main was still to be joined

---
 include/thread.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/thread.h b/include/thread.h
index 92fac66..4fa18ea 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -95,6 +95,9 @@ public:
 		thread_id = Thread::currentId();
 		state = Started;
 		main_thread = this;	// Override prior initialisation in superclass constructor
+		thread_latch.enter();
+		threads.insert({thread_id, this});
+		thread_latch.leave();
 #if	defined(MSW)
 		if (!DuplicateHandle(
 			GetCurrentProcess(),
-- 
2.43.0


From fc79aeda4c5d332c8ee63f0d04cce730c468fd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:29 +0000
Subject: [PATCH 46/51] fix: Thread::exit could not be linked, and did not end
 the thread

---
 include/thread.h | 2 +-
 src/thread.cpp   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/thread.h b/include/thread.h
index 4fa18ea..b86652c 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -49,7 +49,7 @@ public:
 	static	inline ThreadId		currentId();	// current thread id, fast
 	static	inline ProcessId	currentProcessId();
 	static	inline Thread*		current();	// current thread, slower
-	inline void			exit(int);	// exit the current thread
+	void				exit(int);	// exit the current thread
 	static	inline Thread*		main();		// main thread. REVISIT: needed?
 
 	// REVISIT: Iterate over all live threads
diff --git a/src/thread.cpp b/src/thread.cpp
index 4bd1c59..9baecf9 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -71,6 +71,7 @@ void Thread::exit(int code)
 	thread_latch.leave();
 
 #if	defined(HAVE_PTHREADS)
+	pthread_exit((void*)(long)code);
 #elif	defined(MSW)
 	ExitThread(code);
 #endif
-- 
2.43.0


From e4ac913493acd7dfc1e4cf24ebfa18217b6ffb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:29 +0000
Subject: [PATCH 47/51] fix: joining or deleting a thread could unregister
 another one that reused its id

---
 include/thread.h |  2 +-
 src/thread.cpp   | 16 +++++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/thread.h b/include/thread.h
index b86652c..f1d538f 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -201,7 +201,7 @@ void
 Thread::remove_ended()
 {
 	thread_latch.enter();
-	if (Thread::find(thread_id))
+	if (Thread::find(thread_id) == this)	// A newer thread may have this id by now
 	{
 		if (state == Ended)
 			ended_count--;
diff --git a/src/thread.cpp b/src/thread.cpp
index 9baecf9..a3a37a5 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -123,14 +123,11 @@ Thread::join()		// Wait for this thread to end
 	assert(thread_id != 0);		// Can't join a thread that hasn't started
 
 #if	defined(HAVE_PTHREADS)
-	void*	retval; // Value returned from pthread_exit, or PTHREAD_CANCELLED
-	int	error = pthread_join(thread_id, &retval);
-	if (error)
-		; // posixError("join", error, thread_id);	// Translate and report the error
-
+	// Once pthread_join returns, a new thread may get this thread_id, so remove it from the map first
 	thread_latch.enter();
-	Thread* thread = Thread::find(thread_id);
-	if (thread)
+	while (Thread::find(thread_id) == this && state != Ended)
+		ended_threads_condition.wait(&thread_latch);
+	if (Thread::find(thread_id) == this)
 	{
 		int erased = threads.erase(thread_id);
 		assert(erased == 1);
@@ -138,6 +135,11 @@ Thread::join()		// Wait for this thread to end
 	}
 	thread_latch.leave();
 
+	void*	retval; // Value returned from pthread_exit, or PTHREAD_CANCELLED
+	int	error = pthread_join(thread_id, &retval);
+	if (error)
+		; // posixError("join", error, thread_id);	// Translate and report the error
+
 #elif	defined(MSW)
 	if (state < THREAD_STATE_ENDED) // Thread hasn't finished yet, so wait
 	{
-- 
2.43.0


From 006c77170f879ab19636bbc1815a7952390ad158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:29 +0000
Subject: [PATCH 48/51] fix: joinAny waited for ever when another joiner took
 the last thread

---
 src/thread.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/thread.cpp b/src/thread.cpp
index a3a37a5..506eef5 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -81,16 +81,17 @@ Thread*
 Thread::joinAny()
 {
 	thread_latch.enter();
-	if (threads.size() <= 1)
-	{
-		thread_latch.leave();
-		return 0;	// No threads except main
-	}
 
 	// Search for a thread whose state is Ended
 	// Remove it from the map and decrement the ended_threads count
 	for (;;)
 	{
+		if (threads.size() <= 1)
+		{
+			thread_latch.leave();
+			return 0;	// No threads except main
+		}
+
 		if (ended_count == 0)	// None have exited but not been joined
 		{
 			ended_threads_condition.wait(&thread_latch);
-- 
2.43.0


From 8e56391bc9ce544b77cb3d36bf60e3fb19b9ab8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:29 +0000
Subject: [PATCH 49/51] fix: a timed Condition wait took its delay for an
 absolute time

---
 src/condition.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/condition.cpp b/src/condition.cpp
index 13adb95..c46e7fe 100644
--- a/src/condition.cpp
+++ b/src/condition.cpp
@@ -6,6 +6,7 @@
  * continued, any thread that tries to signal it again will block.
  */
 #include	<unistd.h>
+#include	<time.h>
 
 #include	<thread.h>
 #include	<condition.h>
@@ -146,8 +147,14 @@ Condition::wait(		// Wait for a ticket
 #if	defined(HAVE_PTHREADS)
 	int		retcode;
 	struct timespec	ts;
-	ts.tv_sec = (unsigned long)timeout / 1000;
-	ts.tv_nsec = (unsigned long)timeout % 1000 * 1000000L;
+	clock_gettime(CLOCK_REALTIME, &ts);	// The time limit is absolute
+	ts.tv_sec += (unsigned long)timeout / 1000;
+	ts.tv_nsec += (unsigned long)timeout % 1000 * 1000000L;
+	if (ts.tv_nsec >= 1000000000L)
+	{
+		ts.tv_sec++;
+		ts.tv_nsec -= 1000000000L;
+	}
 	retcode = pthread_cond_timedwait(&cond, &user_latch->mutex, &ts);
 	if (retcode == ETIMEDOUT)
 	{
-- 
2.43.0


From cccfb1c7babec150a1ae650a9de0978f4ff99d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:29 +0000
Subject: [PATCH 50/51] fix: the first Latches of several threads shared
 half-initialised attributes

---
 include/lockfree.h | 13 ++++---------
 src/lockfree.cpp   |  5 +----
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/include/lockfree.h b/include/lockfree.h
index 0c92b7f..8a1e79a 100644
--- a/include/lockfree.h
+++ b/include/lockfree.h
@@ -39,9 +39,6 @@ public:
 	// The PTHREADs implementation allows us to use these with pthread condition variables
 	pthread_mutex_t	mutex;
 
-	static	std::atomic<bool>	initialised;
-	static	pthread_mutexattr_t	attr;
-
 #else
 	// On Windows, condition variables are based on system events so we can do this using atomic
 	std::atomic<ThreadId>	mutex;
@@ -60,14 +57,12 @@ public:
 #if	defined(HAVE_PTHREADS)
 Latch::Latch()
 {
-	if (!initialised)
-	{
-		initialised = true;
-		pthread_mutexattr_init(&Latch::attr);
-		pthread_mutexattr_settype(&Latch::attr, PTHREAD_MUTEX_ERRORCHECK);
-	}
+	pthread_mutexattr_t	attr;	// Not shared: another thread might use it half initialised
 
+	pthread_mutexattr_init(&attr);
+	pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_ERRORCHECK);
 	pthread_mutex_init(&mutex, &attr);
+	pthread_mutexattr_destroy(&attr);
 }
 
 Latch::~Latch()
diff --git a/src/lockfree.cpp b/src/lockfree.cpp
index 3badcf0..586f2d6 100644
--- a/src/lockfree.cpp
+++ b/src/lockfree.cpp
@@ -6,10 +6,7 @@
 #include	<assert.h>
 #include	<lockfree.h>
 
-#if	defined(HAVE_PTHREADS)
-pthread_mutexattr_t	Latch::attr;
-std::atomic<bool>	Latch::initialised;
-#else
+#if	!defined(HAVE_PTHREADS)
 
 int			Latch::num_cores;
 
-- 
2.43.0


From 4ae1c2d985c23f6fa48ab621e680f739479e4954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:29 +0000
Subject: [PATCH 51/51] fix: the resources of threads that were not joined by
 join() were never released

---
 include/thread.h | 3 +++
 src/thread.cpp   | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/thread.h b/include/thread.h
index f1d538f..9924641 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -206,6 +206,9 @@ Thread::remove_ended()
 		if (state == Ended)
 			ended_count--;
 		threads.erase(thread_id);	// Remove from map
+#if	defined(HAVE_PTHREADS)
+		pthread_detach(thread_id);	// Nobody will join it
+#endif
 	}
 	thread_latch.leave();
 	thread_id = 0;
diff --git a/src/thread.cpp b/src/thread.cpp
index 506eef5..1b532d1 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -110,6 +110,9 @@ Thread::joinAny()
 			assert(!Thread::find(tid));
 			ended_count--;
 			thread_latch.leave();
+#if	defined(HAVE_PTHREADS)
+			pthread_join(tid, 0);
+#endif
 			return thread;
 		}
 	}
@@ -128,13 +131,16 @@ Thread::join()		// Wait for this thread to end
 	thread_latch.enter();
 	while (Thread::find(thread_id) == this && state != Ended)
 		ended_threads_condition.wait(&thread_latch);
-	if (Thread::find(thread_id) == this)
+	bool	registered = Thread::find(thread_id) == this;
+	if (registered)
 	{
 		int erased = threads.erase(thread_id);
 		assert(erased == 1);
 		ended_count--;
 	}
 	thread_latch.leave();
+	if (!registered)
+		return;		// joinAny has joined this thread already
 
 	void*	retval; // Value returned from pthread_exit, or PTHREAD_CANCELLED
 	int	error = pthread_join(thread_id, &retval);
-- 
2.43.0

