From d424ec173a9afcdabc68ee506063231a14e64cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 01/67] fix: memblock::reserve on a linked block allocates room
 for its whole contents

reserve documents that size() is not altered, but a request smaller than a
linked block's size left size() larger than the allocation.  The copy also read
one byte past the linked data, which for a string linked to a substring ended
up in place of the terminator.
---
 memblock.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/memblock.cc b/memblock.cc
index a90cc68..c58389a 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -79,6 +79,7 @@ void memblock::assign (const void* p, size_type n)
 ///
 void memblock::reserve (size_type newSize, bool bExact)
 {
+    newSize = max (newSize, size());	// size() is not altered, so a linked block must fit too
     if ((newSize += minimumFreeCapacity()) <= _capacity)
 	return;
     pointer oldBlock (is_linked() ? nullptr : data());
@@ -88,8 +89,10 @@ void memblock::reserve (size_type newSize, bool bExact)
     pointer newBlock = static_cast<pointer> (realloc (oldBlock, newSize));
     if (!newBlock)
 	throw bad_alloc (newSize);
-    if (!oldBlock & (cdata() != nullptr))
-	copy_n (cdata(), min (size() + 1, newSize), newBlock);
+    if (!oldBlock) {
+	copy_n (cdata(), size(), newBlock);
+	fill_n (newBlock + size(), minimumFreeCapacity(), '\0');
+    }
     link (newBlock, size());
     _capacity = newSize;
 }
-- 
2.43.0


From 0fd2c4657e46268f382af3a00115f04741f77dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 02/67] fix: memblock::reserve does not allocate less than
 requested above 2GB

NextPow2 is limited to 32 bits; its result was used even when smaller than the
requested size.
---
 memblock.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/memblock.cc b/memblock.cc
index c58389a..f4ef119 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -83,9 +83,8 @@ void memblock::reserve (size_type newSize, bool bExact)
     if ((newSize += minimumFreeCapacity()) <= _capacity)
 	return;
     pointer oldBlock (is_linked() ? nullptr : data());
-    const size_t alignedSize (NextPow2 (newSize));
     if (!bExact)
-	newSize = alignedSize;
+	newSize = max (newSize, size_type (NextPow2 (newSize)));	// NextPow2 is 32-bit
     pointer newBlock = static_cast<pointer> (realloc (oldBlock, newSize));
     if (!newBlock)
 	throw bad_alloc (newSize);
-- 
2.43.0


From 5ddf27cc40fc5c105039318e06855f4461b3036a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 03/67] fix: string::insert (pos, string) inserts the string
 once

It resolved to the overload that inserts n copies of a zero-terminated string,
so the text was inserted size() times, and linked substrings were overread.
---
 ustring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustring.h b/ustring.h
index c13eac2..0123fc9 100644
--- a/ustring.h
+++ b/ustring.h
@@ -157,7 +157,7 @@ public:
     inline string&		insert (pos_type ip, size_type n, value_type c)				{ insert (iat(ip), n, c); return *this; }
     inline string&		insert (pos_type ip, const_pointer s)					{ insert (iat(ip), s, s + strlen(s)); return *this; }
     inline string&		insert (pos_type ip, const_pointer s, size_type nlen)			{ insert (iat(ip), s, s + nlen); return *this; }
-    inline string&		insert (pos_type ip, const string& s)					{ insert (iat(ip), s.c_str(), s.size()); return *this; }
+    inline string&		insert (pos_type ip, const string& s)					{ insert (iat(ip), s.begin(), s.end()); return *this; }
     inline string&		insert (pos_type ip, const string& s, size_type sp, size_type slen)	{ insert (iat(ip), s.iat(sp), s.iat(sp + slen)); return *this; }
     string&			insert (pos_type ip, size_type n, wvalue_type c);
     string&			insert (pos_type ip, const_wpointer first, const_wpointer last, size_type n = 1);
-- 
2.43.0


From 59b9722f056c11995464980f0825c10d029157ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 04/67] fix: string::rfind and find_last_of family do not read
 past an empty string

size()-1 wraps when the string is empty, leaving pos as the first index read.
---
 ustring.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ustring.cc b/ustring.cc
index 261e47d..f5ed038 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -262,7 +262,7 @@ string::pos_type string::find (const string& s, pos_type pos) const noexcept
 /// Returns the offset of the last occurence of character \p c before \p pos.
 string::pos_type string::rfind (value_type c, pos_type pos) const noexcept
 {
-    for (int i = min(pos,pos_type(size()-1)); i >= 0; --i)
+    for (pos_type i = pos < size() ? pos+1 : size(); i--;)
 	if (at(i) == c)
 	    return i;
     return npos;
@@ -302,7 +302,7 @@ string::pos_type string::find_first_not_of (const string& s, pos_type pos) const
 /// Returns the offset of the last occurence of one of characters in \p s of size \p n before \p pos.
 string::pos_type string::find_last_of (const string& s, pos_type pos) const noexcept
 {
-    for (int i = min(size_type(pos),size()-1); i >= 0; -- i)
+    for (pos_type i = pos < size() ? pos+1 : size(); i--;)
 	if (s.find (at(i)) != npos)
 	    return i;
     return npos;
@@ -311,7 +311,7 @@ string::pos_type string::find_last_of (const string& s, pos_type pos) const noex
 /// Returns the offset of the last occurence of one of characters not in \p s of size \p n before \p pos.
 string::pos_type string::find_last_not_of (const string& s, pos_type pos) const noexcept
 {
-    for (int i = min(pos,pos_type(size()-1)); i >= 0; -- i)
+    for (pos_type i = pos < size() ? pos+1 : size(); i--;)
 	if (s.find (at(i)) == npos)
 	    return i;
     return npos;
-- 
2.43.0


From 2d9bf70a9548e70ceb1acf998fbb01a9bf87ccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 05/67] fix: string::replace with text of equal length does not
 write into linked memory

---
 ustring.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ustring.cc b/ustring.cc
index f5ed038..ea55c43 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -228,8 +228,8 @@ string& string::replace (const_iterator first, const_iterator last, const_pointe
     memblock::const_iterator rp = static_cast<memblock::const_iterator>(first);
     if (bti < bte)
 	rp = memblock::erase (rp, bte - bti);
-    else if (bte < bti)
-	rp = memblock::insert (rp, bti - bte);
+    else
+	rp = memblock::insert (rp, bti - bte);	// also does copy-on-write
     fill (rp, i1, distance(i1, i2), n);
     *end() = 0;
     return *this;
-- 
2.43.0


From 84410e81eafcb1381c62b2d6b4d5fa7eee684c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 06/67] fix: memblock::shrink_to_fit keeps room for the string
 terminator

---
 memblock.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/memblock.cc b/memblock.cc
index f4ef119..7b67c84 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -101,10 +101,11 @@ void memblock::shrink_to_fit (void)
 {
     if (is_linked())
 	return;
-    pointer newBlock = static_cast<pointer> (realloc (begin(), size()));
-    if (!newBlock && size())
-	throw bad_alloc (size());
-    _capacity = size();
+    const size_type newSize = size() + minimumFreeCapacity();
+    pointer newBlock = static_cast<pointer> (realloc (begin(), newSize));
+    if (!newBlock && newSize)
+	throw bad_alloc (newSize);
+    _capacity = newSize;
     memlink::relink (newBlock, size());
 }
 
-- 
2.43.0


From 93d304eff4f9e66ef3bc6bfc1289e099b29ac677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 07/67] fix: istream::read_strz does not move past the end
 without a terminator

The position ended up one past size(), making remaining() wrap and disabling
all later bounds checks.
---
 mistream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mistream.cc b/mistream.cc
index ea99d97..f3e914b 100644
--- a/mistream.cc
+++ b/mistream.cc
@@ -49,7 +49,7 @@ void istream::read_strz (string& str)
 {
     const_iterator zp = find (ipos(), end(), '\0');
     if (zp == end())
-	zp = ipos();
+	return overrun ("read", "zero-terminated string", remaining()+1, pos(), remaining());
     const size_type strl = distance (ipos(), zp);
     str.assign (ipos(), strl);
     _pos += strl + 1;
-- 
2.43.0


From 8b0aad4d249f976c5313f2e38ef114633e175078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 08/67] fix: string::read does not use an uninitialized size
 after a failed read

---
 ustring.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ustring.cc b/ustring.cc
index ea55c43..4ec2416 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -356,6 +356,7 @@ size_t string::stream_size (void) const noexcept
 void string::read (istream& is)
 {
     char szbuf [8];
+    if (!is.verify_remaining ("read", "ustl::string", sizeof(szbuf[0]))) return;
     is >> szbuf[0];
     size_t szsz (Utf8SequenceBytes (szbuf[0]) - 1), n = 0;
     if (!is.verify_remaining ("read", "ustl::string", szsz)) return;
-- 
2.43.0


From 4c88860a6e211601ec035a142efc2a39911c54cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 09/67] fix: ostream::align pads relative to the stream start,
 as istream::align and stream sizes do

---
 mistream.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mistream.cc b/mistream.cc
index f3e914b..109a95e 100644
--- a/mistream.cc
+++ b/mistream.cc
@@ -77,16 +77,14 @@ streamsize istream::underflow (streamsize n)
 void ostream::align (size_type grain)
 {
     assert (!((grain-1)&grain) && "grain must be a power of 2");
-    iterator ip = ipos();
-    iterator ipa = iterator((uintptr_t(ip) + (grain-1)) & ~(grain-1));
-    size_t nb = distance (ip, ipa);
+    const size_type nb = align_size (grain);
 #if WANT_STREAM_BOUNDS_CHECKING
     if (!verify_remaining ("align", "padding", nb))
 	return;
 #else
     assert (remaining() >= nb && "Buffer overrun. Check your stream size calculations.");
 #endif
-    memset (ip, '\x0', nb);
+    memset (ipos(), '\x0', nb);
     _pos += nb;
 }
 
-- 
2.43.0


From bb7f60b9717bc4c5a4cc4dbc858a9560ca50a8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 10/67] fix: ostream::insert does not move the write position
 past the end of the stream

---
 mistream.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mistream.cc b/mistream.cc
index 109a95e..34e33d9 100644
--- a/mistream.cc
+++ b/mistream.cc
@@ -110,6 +110,12 @@ void ostream::text_write (ostringstream& os) const
 /// Inserts an empty area of \p size, at \p start.
 void ostream::insert (iterator start, size_type s)
 {
+#if WANT_STREAM_BOUNDS_CHECKING
+    if (!verify_remaining ("insert", "byte", s))
+	return;
+#else
+    assert (remaining() >= s && "Buffer overrun. Check your stream size calculations.");
+#endif
     _pos += s;
     memlink::insert (start, s);
 }
-- 
2.43.0


From d85e23608e61327408de33f75af1adf8338627c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:46 +0000
Subject: [PATCH 11/67] fix: copy_backward_fast copies every byte of short and
 dword-sized ranges and nothing outside them

---
 ualgobase.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ualgobase.cc b/ualgobase.cc
index 9561e6f..059e265 100644
--- a/ualgobase.cc
+++ b/ualgobase.cc
@@ -141,7 +141,7 @@ void copy_backward_fast (const void* first, const void* last, void* result) noex
     prefetch (result, 1, 0);
     size_t nBytes (distance (first, last));
     movsb_dir_down();
-    size_t nHeadBytes = uintptr_t(last) % 4;
+    const size_t nHeadBytes = min (size_t(uintptr_t(last) % 4), nBytes);
     advance (last, -1);
     advance (result, -1);
     movsb (last, nHeadBytes, result);
@@ -151,6 +151,8 @@ void copy_backward_fast (const void* first, const void* last, void* result) noex
 	advance (last, -3);
 	advance (result, -3);
 	movsd (last, nMiddleBlocks, result);
+	advance (last, 3);
+	advance (result, 3);
 	nBytes %= 4;
     }
     movsb (last, nBytes, result);
-- 
2.43.0


From fc07504be362ba6cbf74fb29cf1fd695cda794c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:48 +0000
Subject: [PATCH 12/67] fix: fill_n_fast counts its head and tail in elements

---
 ualgobase.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ualgobase.cc b/ualgobase.cc
index 059e265..b8f9db3 100644
--- a/ualgobase.cc
+++ b/ualgobase.cc
@@ -197,14 +197,14 @@ static inline void simd_block_fill_loop (uint8_t*& dest, size_t count)
 template <typename T>
 static inline void fill_n_fast (T* dest, size_t count, T v)
 {
-    size_t nHead = Align(uintptr_t(dest), MMX_ALIGN) - uintptr_t(dest) / sizeof(T);
+    size_t nHead = (Align(uintptr_t(dest), MMX_ALIGN) - uintptr_t(dest)) / sizeof(T);
     nHead = min (nHead, count);
     stosv (dest, nHead, v);
     count -= nHead;
     build_block (v);
     uint8_t* bdest = reinterpret_cast<uint8_t*>(dest);
     simd_block_fill_loop (bdest, count * sizeof(T) / MMX_BS);
-    count %= MMX_BS;
+    count %= MMX_BS / sizeof(T);
     dest = reinterpret_cast<T*>(bdest);
     stosv (dest, count, v);
 }
-- 
2.43.0


From 972b87a6754cbd1731ff3b3889b541350046b09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:11 +0000
Subject: [PATCH 13/67] fix: atomic postfix increment and decrement return the
 previous value

---
 uatomic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uatomic.h b/uatomic.h
index e030139..adf91b7 100644
--- a/uatomic.h
+++ b/uatomic.h
@@ -67,8 +67,8 @@ public:
 			    { return __atomic_xor_fetch (&_v, v, order); }
     inline		operator T (void) const	{ return load(); }
     inline atomic&	operator= (T v)		{ store(v); return *this; }
-    inline atomic	operator++ (int)	{ return fetch_add (1); }
-    inline atomic	operator-- (int)	{ return fetch_sub (1); }
+    inline T		operator++ (int)	{ return fetch_add (1); }
+    inline T		operator-- (int)	{ return fetch_sub (1); }
     inline atomic&	operator++ (void)	{ add_fetch (1); return *this; }
     inline atomic&	operator-- (void)	{ sub_fetch (1); return *this; }
     inline atomic&	operator+= (T v)	{ add_fetch (v); return *this; }
-- 
2.43.0


From aa050a2bb9063118bf6d241e6ac6e38d5249b9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:11 +0000
Subject: [PATCH 14/67] fix: shared_ptr copy assignment and use_count compile;
 the last release is decided by the decrement itself

---
 umemory.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/umemory.h b/umemory.h
index 13ec13a..57ecb36 100644
--- a/umemory.h
+++ b/umemory.h
@@ -178,21 +178,21 @@ public:
     inline			shared_ptr (shared_ptr&& p)	: _p (p._p) { p._p = nullptr; }
     inline			shared_ptr (const shared_ptr& p): _p (p._p) { if (_p) ++_p->refs; }
     inline			~shared_ptr (void)		{ reset(); }
-    inline constexpr size_t	use_count (void) const		{ return _p ? _p->refs : 0; }
+    inline constexpr size_t	use_count (void) const		{ return _p ? _p->refs.load() : 0; }
     inline constexpr bool	unique (void) const		{ return use_count() == 1; }
     inline constexpr pointer	get (void) const		{ return _p ? _p->p : nullptr; }
     void			reset (pointer p = nullptr) {
 				    assert (p != get() || !p);
 				    auto ov = _p;
 				    _p = p ? new container(p) : nullptr;
-				    if (ov && !--ov->refs)
+				    if (ov && !ov->refs.sub_fetch (1))
 					delete ov;
 				}
     inline void			swap (shared_ptr& v)		{ ::ustl::swap (_p, v._p); }
     inline constexpr explicit	operator bool (void) const	{ return get(); }
     inline shared_ptr&		operator= (pointer p)		{ reset (p); return *this; }
     inline shared_ptr&		operator= (shared_ptr&& p)	{ swap (p); return *this; }
-    inline shared_ptr&		operator= (const shared_ptr& p)	{ reset(); _p = p; if (_p) ++_p->refs; return *this; }
+    inline shared_ptr&		operator= (const shared_ptr& p)	{ shared_ptr t (p); swap (t); return *this; }
     inline constexpr reference	operator* (void) const		{ return *get(); }
     inline constexpr pointer	operator-> (void) const		{ return get(); }
     inline constexpr reference	operator[] (size_t i) const	{ return get()[i]; }
-- 
2.43.0


From 578076a1bd97e3a9d54c25ba71b73b9b012e2aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:42 +0000
Subject: [PATCH 15/67] fix: auto_ptr::operator< compares in the order of its
 operands

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 57ecb36..3c47fea 100644
--- a/umemory.h
+++ b/umemory.h
@@ -51,7 +51,7 @@ public:
     inline pointer	operator-> (void) const		{ return _p; }
     inline bool		operator== (const pointer p) const	{ return _p == p; }
     inline bool		operator== (const auto_ptr<T>& p) const	{ return _p == p._p; }
-    inline bool		operator< (const auto_ptr<T>& p) const	{ return p._p < _p; }
+    inline bool		operator< (const auto_ptr<T>& p) const	{ return _p < p._p; }
 private:
     pointer		_p;
 };
-- 
2.43.0


From 197651e0a288ffee17db0dc6f57ca304871a05dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:51 +0000
Subject: [PATCH 16/67] fix: find_end must also try the very start of the range

A subsequence occurring only at first1 was reported as absent.
---
 upredalgo.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/upredalgo.h b/upredalgo.h
index 1ba9e29..2b4d70b 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -296,9 +296,10 @@ constexpr ForwardIterator1 search (ForwardIterator1 first1, ForwardIterator1 las
 template <typename ForwardIterator1, typename ForwardIterator2, typename BinaryPredicate>
 constexpr ForwardIterator1 find_end (ForwardIterator1 first1, ForwardIterator1 last1, ForwardIterator2 first2, ForwardIterator2 last2, BinaryPredicate comp)
 {
-    ForwardIterator1 s = last1 - distance(first2, last2);
-    for (; first1 < s; --s) {
-	ForwardIterator2 i = first2, j = s;
+    ForwardIterator1 s = last1 - distance(first2, last2) + 1;
+    while (first1 < s) {
+	ForwardIterator2 i = first2;
+	ForwardIterator1 j = --s;
 	for (; i != last2 && comp(*j, *i); ++i, ++j) {}
 	if (i == last2)
 	    return s;
-- 
2.43.0


From d98562ca70ad40471dbc26ccbd5bf986d56c952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:51 +0000
Subject: [PATCH 17/67] fix: binary_search with a comparator tested the wrong
 order

lower_bound already ensures !comp(*found, value), so every value that has a
successor in the range was reported as present.
---
 upredalgo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upredalgo.h b/upredalgo.h
index 2b4d70b..fb76a1a 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -224,7 +224,7 @@ template <typename ForwardIterator, typename T, typename StrictWeakOrdering>
 constexpr bool binary_search (ForwardIterator first, ForwardIterator last, const T& value, StrictWeakOrdering comp)
 {
     ForwardIterator found = lower_bound (first, last, value, comp);
-    return found != last && !comp(*found, value);
+    return found != last && !comp(value, *found);
 }
 
 /// Returns the furthermost iterator i in [first,last) such that for
-- 
2.43.0


From 8d67efb8e756d457602440593fc748feb4266efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:51 +0000
Subject: [PATCH 18/67] fix: replace_copy and replace_copy_if did not return
 the end of the output

---
 ualgo.h     | 1 +
 upredalgo.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ualgo.h b/ualgo.h
index c95b699..c93d539 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -147,6 +147,7 @@ inline constexpr OutputIterator replace_copy (InputIterator first, InputIterator
 {
     for (; first != last; ++result, ++first)
         *result = (*first == old_value) ? new_value : *first;
+    return result;
 }
 
 /// Generate assigns the result of invoking gen, a function object that
diff --git a/upredalgo.h b/upredalgo.h
index fb76a1a..35c6985 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -120,6 +120,7 @@ constexpr OutputIterator replace_copy_if (InputIterator first, InputIterator las
 {
     for (; first != last; ++result, ++first)
         *result = pred(*first) ? new_value : *first;
+    return result;
 }
 
 /// Remove_copy_if copies elements from the range [first, last) to a range
-- 
2.43.0


From 648270d479486a048314cc57d8294802bf042d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:51 +0000
Subject: [PATCH 19/67] fix: adjacent_difference never advanced through the
 input

With more than one element it looped forever, writing past the output.
---
 unumeric.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unumeric.h b/unumeric.h
index fa9601b..9750ab3 100644
--- a/unumeric.h
+++ b/unumeric.h
@@ -98,7 +98,7 @@ constexpr OutputIterator adjacent_difference (InputIterator first, InputIterator
 {
     if (first < last)
 	*result++ = *first++;
-    while (first < last)
+    for (; first < last; ++first)
 	*result++ = *first - *(first - 1);
     return result;
 }
@@ -111,7 +111,7 @@ constexpr OutputIterator adjacent_difference (InputIterator first, InputIterator
 {
     if (first < last)
 	*result++ = *first++;
-    while (first < last)
+    for (; first < last; ++first)
 	*result++ = differenceOp (*first, *(first - 1));
     return result;
 }
-- 
2.43.0


From 6f16e184fe8004a225dda3e705d6801145583794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:51 +0000
Subject: [PATCH 20/67] fix: search_n for no elements matches at the start of
 the range

---
 upredalgo.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/upredalgo.h b/upredalgo.h
index 35c6985..ef80798 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -314,6 +314,8 @@ constexpr ForwardIterator1 find_end (ForwardIterator1 first1, ForwardIterator1 l
 template <typename Iterator, typename T, typename BinaryPredicate>
 constexpr Iterator search_n (Iterator first, Iterator last, size_t count, const T& value, BinaryPredicate comp)
 {
+    if (!count)
+	return first;
     size_t n = 0;
     for (; first != last; ++first) {
 	if (!comp (*first, value))
-- 
2.43.0


From be3f0c5e2babe1bbf7e552b89f59e58d65268022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:51 +0000
Subject: [PATCH 21/67] fix: partial_sum returns the end of the output, and
 does not depend on evaluation order

---
 unumeric.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/unumeric.h b/unumeric.h
index 9750ab3..2ac268a 100644
--- a/unumeric.h
+++ b/unumeric.h
@@ -70,10 +70,12 @@ constexpr T inner_product
 template <typename InputIterator, typename OutputIterator>
 constexpr OutputIterator partial_sum (InputIterator first, InputIterator last, OutputIterator result)
 {
-    if (first < last)
-	*result = *first++;
-    while (first < last)
-	*++result = *first++ + *result;
+    if (first < last) {
+	auto sum = *first++;
+	*result++ = sum;
+	for (; first < last; ++first)
+	    *result++ = sum = sum + *first;
+    }
     return result;
 }
 
@@ -83,10 +85,12 @@ constexpr OutputIterator partial_sum (InputIterator first, InputIterator last, O
 template <typename InputIterator, typename OutputIterator, typename BinaryOperation>
 constexpr OutputIterator partial_sum (InputIterator first, InputIterator last, OutputIterator result, BinaryOperation sumOp)
 {
-    if (first < last)
-	*result = *first++;
-    while (first < last)
-	*++result = sumOp (*first++, *result);
+    if (first < last) {
+	auto sum = *first++;
+	*result++ = sum;
+	for (; first < last; ++first)
+	    *result++ = sum = sumOp (sum, *first);
+    }
     return result;
 }
 
-- 
2.43.0


From ebd73fb554cba95d1e20f6386fa9b50acd8e8058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:12 +0000
Subject: [PATCH 22/67] fix: merge and inplace_merge keep equal elements in
 order

---
 ualgo.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ualgo.h b/ualgo.h
index c93d539..5b341bb 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -241,10 +241,10 @@ OutputIterator merge (InputIterator1 first1, InputIterator1 last1,
 		      InputIterator2 first2, InputIterator2 last2, OutputIterator result)
 {
     for (; first1 != last1 && first2 != last2; ++result) {
-	if (*first1 < *first2)
-	    *result = *first1++;
-	else
+	if (*first2 < *first1)
 	    *result = *first2++;
+	else
+	    *result = *first1++;
     }
     if (first1 < last1)
 	return copy (first1, last1, result);
@@ -259,7 +259,7 @@ template <typename InputIterator>
 constexpr void inplace_merge (InputIterator first, InputIterator middle, InputIterator last)
 {
     for (; middle != last; ++first) {
-	while (*first < *middle)
+	while (first != middle && !(*middle < *first))
 	    ++ first;
 	reverse (first, middle);
 	reverse (first, ++middle);
-- 
2.43.0


From f564246a2976f48b4a7e3ce35c6aedf4248d9273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:14 +0000
Subject: [PATCH 23/67] fix: minmax with a comparator can be called

A deleted overload had the same signature, making every call ambiguous.
---
 ualgo.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ualgo.h b/ualgo.h
index 5b341bb..52a3cdc 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -647,7 +647,6 @@ template <typename T, typename Compare>
 inline constexpr auto minmax (const T& a, const T& b, Compare comp)
     { return comp(a,b) ? make_pair<const T&,const T&>(a,b) : make_pair<const T&,const T&>(b,a); }
 template <typename T> constexpr void minmax (T&& a, T&& b) = delete;
-template <typename T, typename Compare> constexpr void minmax (const T& a, const T& b, Compare comp) = delete;
 
 template <typename T>
 constexpr auto minmax (std::initializer_list<T> l)
-- 
2.43.0


From 2191676dfd359fb6dae57e1d5e884633f376997f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:05 +0000
Subject: [PATCH 24/67] fix: set::insert with a hint did not compile for
 rvalues

---
 uset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uset.h b/uset.h
index 51220d4..41b3c4b 100644
--- a/uset.h
+++ b/uset.h
@@ -73,7 +73,7 @@ public:
     inline			set (initlist_t v)			: base_class() { insert (v.begin(), v.end()); }
     inline set&			operator= (set&& v)			{ base_class::operator= (move(v)); return *this; }
     insertrv_t			insert (T&& v);
-    inline iterator		insert (const_iterator, T&& v)		{ return insert (move(v)); }
+    inline iterator		insert (const_iterator, T&& v)		{ return insert (move(v)).first; }
     inline void			insert (initlist_t v)			{ insert (v.begin(), v.end()); }
     template <typename... Args>
     inline insertrv_t		emplace (Args&&... args)		{ return insert (T(forward<Args>(args)...)); }
-- 
2.43.0


From 76322c01a9156af09d1b3b13495f6c76e9991ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:05 +0000
Subject: [PATCH 25/67] fix: stack, queue and priority_queue can be swapped and
 copied

swap passed the adaptor to the container's swap, and the move assignment
suppressed copy assignment.
---
 uheap.h  | 6 ++++--
 uqueue.h | 3 ++-
 ustack.h | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/uheap.h b/uheap.h
index 2fbbf81..6eda1f4 100644
--- a/uheap.h
+++ b/uheap.h
@@ -143,12 +143,14 @@ public:
     constexpr const_reference	top (void) const	{ return _v.front(); }
     inline void			push (const_reference v){ _v.push_back (v); push_heap (_v.begin(), _v.end(), _c); }
     inline void			pop (void)		{ pop_heap (_v.begin(), _v.end()); _v.pop_back(); }
-    constexpr void		swap (priority_queue& v){ _v.swap (v._v); swap (_c, v._c); }
+    constexpr void		swap (priority_queue& v){ _v.swap (v._v); ::ustl::swap (_c, v._c); }
 #if HAVE_CPP11
-    constexpr explicit		priority_queue (priority_queue&& v)	: _v(move(v._v)),_c(v._c) {}
+    constexpr			priority_queue (const priority_queue& v)	: _v(v._v),_c(v._c) {}
+    constexpr			priority_queue (priority_queue&& v)	: _v(move(v._v)),_c(v._c) {}
     constexpr			priority_queue (const Comp& c, container_type&& v)	: _v(move(v)),_c(c) {}
 				priority_queue (const_iterator f, const_iterator l, const Comp& c, container_type&& v)
 				    : _v(move(v)), _c(c) { _v.insert (_v.end(), f, l); make_heap (_v.begin(), _v.end(), _c); }
+    inline priority_queue&	operator= (const priority_queue& v)	{ _v = v._v; _c = v._c; return *this; }
     constexpr priority_queue&	operator= (priority_queue&& v)	{ swap (v); return *this; }
     template <typename... Args>
     inline void			emplace (Args&&... args)	{ _v.emplace_back (forward<Args>(args)...); push_heap (_v.begin(), _v.end(), _c); }
diff --git a/uqueue.h b/uqueue.h
index 5701e2c..349e213 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -38,12 +38,13 @@ public:
 					_front = 0;
 				    }
 				}
-    inline void			swap (queue& v)			{ _storage.swap (v); swap (_front, v._front); }
+    inline void			swap (queue& v)			{ _storage.swap (v._storage); ::ustl::swap (_front, v._front); }
     inline bool			operator== (const queue& s) const	{ return _storage == s._storage && _front == s._front; }
     inline bool			operator< (const queue& s) const	{ return size() < s.size(); }
 #if HAVE_CPP11
     inline			queue (queue&& v)		: _storage(move(v._storage)),_front(v._front) { v._front = 0; }
     inline			queue (container_type&& s)	: _storage(move(s)),_front(0) {}
+    inline queue&		operator= (const queue& v)	{ _storage = v._storage; _front = v._front; return *this; }
     inline queue&		operator= (queue&& v)		{ swap (v); return *this; }
     template <typename... Args>
     inline void			emplace (Args&&... args)	{ _storage.emplace_back (forward<Args>(args)...); }
diff --git a/ustack.h b/ustack.h
index 0599842..9fcc059 100644
--- a/ustack.h
+++ b/ustack.h
@@ -31,12 +31,13 @@ public:
     inline const_reference	top (void) const		{ return _storage.back(); }
     inline void			push (const_reference v)	{ _storage.push_back (v); }
     inline void			pop (void)			{ _storage.pop_back(); }
-    inline void			swap (stack& v)			{ _storage.swap (v); }
+    inline void			swap (stack& v)			{ _storage.swap (v._storage); }
     inline bool			operator== (const stack& s) const	{ return _storage == s._storage; }
     inline bool			operator< (const stack& s) const	{ return _storage.size() < s._storage.size(); }
 #if HAVE_CPP11
     inline			stack (stack&& v)		: _storage(move(v._storage)) {}
     inline			stack (container_type&& s)	: _storage(move(s)) {}
+    inline stack&		operator= (const stack& v)	{ _storage = v._storage; return *this; }
     inline stack&		operator= (stack&& v)		{ swap (v); return *this; }
     template <typename... Args>
     inline void			emplace (Args&&... args)	{ _storage.emplace_back (forward<Args>(args)...); }
-- 
2.43.0


From d9911803f98d99af515cd62f44121be7ac2353e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:05 +0000
Subject: [PATCH 26/67] fix: copying a queue brought popped elements back

---
 uqueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uqueue.h b/uqueue.h
index 349e213..bc67844 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -24,7 +24,7 @@ public:
 public:
     inline			queue (void)			: _storage(), _front (0) { }
     explicit inline		queue (const container_type& s)	: _storage (s), _front (0) { }
-    explicit inline		queue (const queue& s)		: _storage (s._storage), _front (0) { }
+    explicit inline		queue (const queue& s)		: _storage (s._storage), _front (s._front) { }
     inline size_type		size (void) const		{ return _storage.size() - _front; }
     inline bool			empty (void) const		{ return !size(); }
     inline reference		front (void)			{ return _storage [_front]; }
-- 
2.43.0


From 570bc3a2af4fbaab2088241076daadd9dcaf7b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:05 +0000
Subject: [PATCH 27/67] fix: priority_queue::pop must use the queue's own
 comparator

---
 uheap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uheap.h b/uheap.h
index 6eda1f4..61cdbca 100644
--- a/uheap.h
+++ b/uheap.h
@@ -142,7 +142,7 @@ public:
     constexpr bool			empty (void) const	{ return _v.empty(); }
     constexpr const_reference	top (void) const	{ return _v.front(); }
     inline void			push (const_reference v){ _v.push_back (v); push_heap (_v.begin(), _v.end(), _c); }
-    inline void			pop (void)		{ pop_heap (_v.begin(), _v.end()); _v.pop_back(); }
+    inline void			pop (void)		{ pop_heap (_v.begin(), _v.end(), _c); _v.pop_back(); }
     constexpr void		swap (priority_queue& v){ _v.swap (v._v); ::ustl::swap (_c, v._c); }
 #if HAVE_CPP11
     constexpr			priority_queue (const priority_queue& v)	: _v(v._v),_c(v._c) {}
-- 
2.43.0


From b423c056830fea78e3b07ce9dc9948b4173783f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:05 +0000
Subject: [PATCH 28/67] fix: priority_queue constructed from a container must
 be made a heap

---
 uheap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uheap.h b/uheap.h
index 61cdbca..ae39439 100644
--- a/uheap.h
+++ b/uheap.h
@@ -135,7 +135,7 @@ public:
     typedef typename container_type::const_iterator	const_iterator;
 public:
     constexpr explicit		priority_queue (const Comp& c = Comp()) : _v(), _c(c) {}
-    constexpr			priority_queue (const Comp& c, const container_type& v) : _v(v), _c(c) {}
+    constexpr			priority_queue (const Comp& c, const container_type& v) : _v(v), _c(c) { make_heap (_v.begin(), _v.end(), _c); }
     constexpr			priority_queue (const_iterator f, const_iterator l, const Comp& c = Comp())
 				    : _v(f, l), _c(c) { make_heap (_v.begin(), _v.end(), _c); }
     constexpr size_type		size (void) const	{ return _v.size(); }
@@ -147,7 +147,7 @@ public:
 #if HAVE_CPP11
     constexpr			priority_queue (const priority_queue& v)	: _v(v._v),_c(v._c) {}
     constexpr			priority_queue (priority_queue&& v)	: _v(move(v._v)),_c(v._c) {}
-    constexpr			priority_queue (const Comp& c, container_type&& v)	: _v(move(v)),_c(c) {}
+    constexpr			priority_queue (const Comp& c, container_type&& v)	: _v(move(v)),_c(c) { make_heap (_v.begin(), _v.end(), _c); }
 				priority_queue (const_iterator f, const_iterator l, const Comp& c, container_type&& v)
 				    : _v(move(v)), _c(c) { _v.insert (_v.end(), f, l); make_heap (_v.begin(), _v.end(), _c); }
     inline priority_queue&	operator= (const priority_queue& v)	{ _v = v._v; _c = v._c; return *this; }
-- 
2.43.0


From 445e97f27c4214f71f48443b25201b2dd88a545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:05 +0000
Subject: [PATCH 29/67] fix: list can be copy assigned

The move assignment suppressed the implicit copy assignment.
---
 ulist.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ulist.h b/ulist.h
index a911529..23271f2 100644
--- a/ulist.h
+++ b/ulist.h
@@ -48,6 +48,7 @@ public:
 #if HAVE_CPP11
     inline			list (list&& v)			: vector<T> (move(v)) {}
     inline			list (std::initializer_list<T> v) : vector<T>(v) {}
+    inline list&		operator= (const list<T>& v)	{ vector<T>::operator= (v); return *this; }
     inline list&		operator= (list&& v)		{ vector<T>::operator= (move(v)); return *this; }
     template <typename... Args>
     inline void			emplace_front (Args&&... args)	{ vector<T>::emplace (begin(), forward<Args>(args)...); }
-- 
2.43.0


From 6eba0b897000a94d5fa1bd428f45e10e91f79d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:05 +0000
Subject: [PATCH 30/67] fix: move_iterator can be dereferenced

move is not declared before uiterator.h.
---
 uiterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index 1d82ce5..335af7b 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -299,7 +299,7 @@ public:
     constexpr bool		operator== (const move_iterator& iter) const	{ return _i == iter._i; }
     constexpr bool		operator< (const move_iterator& iter) const	{ return _i < iter._i; }
     constexpr Iterator		base (void) const		{ return _i; }
-    constexpr reference		operator* (void) const		{ return move(*_i); }
+    constexpr reference		operator* (void) const		{ return static_cast<reference>(*_i); }
     constexpr pointer		operator-> (void) const		{ return &*_i; }
     constexpr move_iterator&	operator++ (void)		{ ++_i; return *this; }
     constexpr move_iterator&	operator-- (void)		{ --_i; return *this; }
@@ -309,7 +309,7 @@ public:
     constexpr move_iterator&	operator-= (size_t n)		{ _i -= n; return *this; }
     constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i - n); }
     constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i + n); }
-    constexpr reference		operator[] (uoff_t n) const	{ return move(*(*this + n)); }
+    constexpr reference		operator[] (uoff_t n) const	{ return *(*this + n); }
     constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (_i, i._i); }
 protected:
     Iterator			_i;
-- 
2.43.0


From 38a0661e05fff0bc5f92feac6c90e7ed11d982a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:05 +0000
Subject: [PATCH 31/67] fix: move_iterator moved in reverse when added to or
 subtracted from

---
 uiterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index 335af7b..dd37ebe 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -307,10 +307,10 @@ public:
     constexpr move_iterator	operator-- (int)		{ move_iterator r (*this); -- _i; return r; }
     constexpr move_iterator&	operator+= (size_t n)		{ _i += n; return *this; }
     constexpr move_iterator&	operator-= (size_t n)		{ _i -= n; return *this; }
-    constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i - n); }
-    constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i + n); }
+    constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i + n); }
+    constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i - n); }
     constexpr reference		operator[] (uoff_t n) const	{ return *(*this + n); }
-    constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (_i, i._i); }
+    constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (i._i, _i); }
 protected:
     Iterator			_i;
 };
-- 
2.43.0


From a800ea8baafd4912ad321662e568813c44383273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:05 +0000
Subject: [PATCH 32/67] fix: the difference of index_iterates was reversed

---
 uiterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uiterator.h b/uiterator.h
index dd37ebe..3a01142 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -454,7 +454,7 @@ public:
     constexpr index_iterate	operator+ (size_t n) const { return index_iterate (_base, _i + n); }
     constexpr index_iterate	operator- (size_t n) const { return index_iterate (_base, _i - n); }
     constexpr reference		operator[] (uoff_t n) const { return *(*this + n); }
-    constexpr difference_type	operator- (const index_iterate& i) const { return distance (_i, i._i); }
+    constexpr difference_type	operator- (const index_iterate& i) const { return distance (i._i, _i); }
 private:
     RandomAccessIterator	_base;
     IndexIterator		_i;
-- 
2.43.0


From ac7b956356d63a03ed71cf5942ff14997a7b74c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:16 +0000
Subject: [PATCH 33/67] fix: the difference of reverse_iterators had the wrong
 sign

---
 uiterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uiterator.h b/uiterator.h
index 3a01142..c5cfa62 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -267,7 +267,7 @@ public:
     constexpr reverse_iterator	operator+ (size_t n) const { return reverse_iterator (_i - n); }
     constexpr reverse_iterator	operator- (size_t n) const { return reverse_iterator (_i + n); }
     constexpr reference		operator[] (uoff_t n) const { return *(*this + n); }
-    constexpr difference_type	operator- (const reverse_iterator& i) const { return distance (i._i, _i); }
+    constexpr difference_type	operator- (const reverse_iterator& i) const { return distance (_i, i._i); }
 protected:
     Iterator			_i;
 };
-- 
2.43.0


From 6908d51cbc62593cce837ce5e169eff4557e2505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:23 +0000
Subject: [PATCH 34/67] fix: is_signed and is_unsigned

signed char is signed, and types that are not arithmetic are not unsigned.
---
 uttraits.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uttraits.h b/uttraits.h
index 0a4951d..189726c 100644
--- a/uttraits.h
+++ b/uttraits.h
@@ -166,6 +166,9 @@ UNARY_TRAIT_DEFB (is_integral, __is_integral<remove_cv_t<T>>::value);
 
 UNARY_TRAIT_DEFN (__is_signed);
 UNARY_TRAIT_TRUE (__is_signed, char);
+#if HAVE_THREE_CHAR_TYPES
+UNARY_TRAIT_TRUE (__is_signed, signed char);
+#endif
 UNARY_TRAIT_TRUE (__is_signed, wchar_t);
 UNARY_TRAIT_TRUE (__is_signed, short);
 UNARY_TRAIT_TRUE (__is_signed, int);
@@ -198,7 +201,7 @@ UNARY_TRAIT_DEFB (is_member_function_pointer, __is_member_function_pointer<remov
 
 #endif	// __clang__
 
-UNARY_TRAIT_DEFB (is_unsigned, !is_signed<T>::value);
+UNARY_TRAIT_DEFB (is_unsigned, (is_integral<T>::value || is_floating_point<T>::value) && !is_signed<T>::value);
 UNARY_TRAIT_DEFB (is_member_object_pointer, is_member_pointer<T>::value && !is_member_function_pointer<T>::value);
 
 UNARY_TRAIT_DEFN (is_array);
-- 
2.43.0


From fe37f37115cf1296e6944670bbdaa2d63743ac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:23 +0000
Subject: [PATCH 35/67] fix: is_member_function_pointer did not recognize const
 and volatile functions

---
 uttraits.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/uttraits.h b/uttraits.h
index 189726c..5c3f46b 100644
--- a/uttraits.h
+++ b/uttraits.h
@@ -190,13 +190,9 @@ UNARY_TRAIT_DEFN (__is_member_pointer);
 template <typename T, typename U> struct __is_member_pointer<U T::*> : public true_type {};
 UNARY_TRAIT_DEFB (is_member_pointer, __is_member_pointer<remove_cv_t<T>>::value);
 
+template <typename T> struct is_function;
 UNARY_TRAIT_DEFN (__is_member_function_pointer);
-template <typename T, typename R> struct __is_member_function_pointer<R (T::*)(void)> : public true_type {};
-template <typename T, typename R> struct __is_member_function_pointer<R (T::*)(...)> : public true_type {};
-template <typename T, typename R, typename... Args>
-struct __is_member_function_pointer<R (T::*)(Args...)> : public true_type {};
-template <typename T, typename R, typename... Args>
-struct __is_member_function_pointer<R (T::*)(Args..., ...)> : public true_type {};
+template <typename T, typename U> struct __is_member_function_pointer<U T::*> : public is_function<U> {};
 UNARY_TRAIT_DEFB (is_member_function_pointer, __is_member_function_pointer<remove_cv_t<T>>::value);
 
 #endif	// __clang__
-- 
2.43.0


From 01348cec571410c7e64579b872cd9d5048515a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:23 +0000
Subject: [PATCH 36/67] fix: is_trivially_copy_assignable and
 is_trivially_move_assignable asked about rvalues

---
 uttraits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uttraits.h b/uttraits.h
index 5c3f46b..29b0fcb 100644
--- a/uttraits.h
+++ b/uttraits.h
@@ -408,8 +408,8 @@ template<typename T, typename U>
 struct is_trivially_assignable : public integral_constant<bool, __is_trivially_assignable(T, U)> {};
 
 UNARY_TRAIT_DEFB (is_trivially_default_constructible,	__is_trivially_constructible(T));
-UNARY_TRAIT_DEFB (is_trivially_copy_assignable,	__is_trivially_assignable(T,const T&));
-UNARY_TRAIT_DEFB (is_trivially_move_assignable,	__is_trivially_assignable(T,T&&));
+UNARY_TRAIT_DEFB (is_trivially_copy_assignable,	__is_trivially_assignable(add_lvalue_reference_t<T>,add_lvalue_reference_t<const T>));
+UNARY_TRAIT_DEFB (is_trivially_move_assignable,	__is_trivially_assignable(add_lvalue_reference_t<T>,add_rvalue_reference_t<T>));
 #else
 UNARY_TRAIT_DEFB (is_trivially_copyable,		__has_trivial_copy(T));
 UNARY_TRAIT_DEFB (is_trivially_default_constructible,	__has_trivial_constructor(T));
-- 
2.43.0


From 982e6271d0f7d1bea45c58be702569e86db96295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:23 +0000
Subject: [PATCH 37/67] fix: remove_pointer ignored const and volatile pointers

---
 uttraits.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uttraits.h b/uttraits.h
index 29b0fcb..02f88b4 100644
--- a/uttraits.h
+++ b/uttraits.h
@@ -80,6 +80,9 @@ template <typename T> using remove_reference_t = typename remove_reference<T>::t
 
 template <typename T> struct remove_pointer		{ using type = T; };
 template <typename T> struct remove_pointer<T*>		{ using type = T; };
+template <typename T> struct remove_pointer<T* const>	{ using type = T; };
+template <typename T> struct remove_pointer<T* volatile>{ using type = T; };
+template <typename T> struct remove_pointer<T* const volatile>	{ using type = T; };
 template <typename T> using remove_pointer_t = typename remove_pointer<T>::type;
 
 template <typename T> struct add_pointer		{ using type = T*; };
-- 
2.43.0


From 21901088c681d19df07c5cbe4f798004f9dec962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:23 +0000
Subject: [PATCH 38/67] fix: add_pointer returned pointer types unchanged

---
 uttraits.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/uttraits.h b/uttraits.h
index 02f88b4..6dbc194 100644
--- a/uttraits.h
+++ b/uttraits.h
@@ -86,7 +86,6 @@ template <typename T> struct remove_pointer<T* const volatile>	{ using type = T;
 template <typename T> using remove_pointer_t = typename remove_pointer<T>::type;
 
 template <typename T> struct add_pointer		{ using type = T*; };
-template <typename T> struct add_pointer<T*>		{ using type = T*; };
 template <typename T> using add_pointer_t = typename add_pointer<T>::type;
 
 template <typename T> struct remove_extent			{ using type = T; };
-- 
2.43.0


From b3c50279c7854b2a77a8ca045bb79a482ef1675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:59 +0000
Subject: [PATCH 39/67] fix: numeric_limits<wchar_t> where wchar_t is signed

---
 ulimits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ulimits.h b/ulimits.h
index 626066d..556e9de 100644
--- a/ulimits.h
+++ b/ulimits.h
@@ -272,7 +272,7 @@ _NUMERIC_LIMITS (unsigned char,	0,		UCHAR_MAX,	false,	true,	true);
 _NUMERIC_LIMITS (unsigned int,	0,		UINT_MAX,	false,	true,	true);
 _NUMERIC_LIMITS (unsigned short,0,		USHRT_MAX,	false,	true,	true);
 _NUMERIC_LIMITS (unsigned long,	0,		ULONG_MAX,	false,	true,	true);
-_NUMERIC_LIMITS (wchar_t,	0,		WCHAR_MAX,	false,	true,	true);
+_NUMERIC_LIMITS (wchar_t,	WCHAR_MIN,	WCHAR_MAX,	(WCHAR_MIN < 0),	true,	true);
 #if HAVE_LONG_LONG
 _NUMERIC_LIMITS (long long,	LLONG_MIN,	LLONG_MAX,	true,	true,	true);
 _NUMERIC_LIMITS (unsigned long long,	0,	ULLONG_MAX,	false,	true,	true);
-- 
2.43.0


From 20aee31cf8724bcc40dcbd71c3d2ed688eb0b2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:59 +0000
Subject: [PATCH 40/67] fix: numeric_limits::max_digits10 gave the number of
 binary digits

---
 ulimits.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ulimits.h b/ulimits.h
index 556e9de..720969b 100644
--- a/ulimits.h
+++ b/ulimits.h
@@ -145,7 +145,7 @@ template <> struct numeric_limits<float> {
     static constexpr const float_round_style round_style = round_to_nearest;
     static constexpr const unsigned digits = FLT_MANT_DIG;
     static constexpr const unsigned digits10 = FLT_DIG;
-    static constexpr const unsigned max_digits10 = FLT_MANT_DIG;
+    static constexpr const unsigned max_digits10 = __FLT_DECIMAL_DIG__;
 };
 
 template <> struct numeric_limits<double> {
@@ -181,7 +181,7 @@ template <> struct numeric_limits<double> {
     static constexpr const float_round_style round_style = round_to_nearest;
     static constexpr const unsigned digits = DBL_MANT_DIG;
     static constexpr const unsigned digits10 = DBL_DIG;
-    static constexpr const unsigned max_digits10 = DBL_MANT_DIG;
+    static constexpr const unsigned max_digits10 = __DBL_DECIMAL_DIG__;
 };
 
 template <> struct numeric_limits<long double> {
@@ -217,7 +217,7 @@ template <> struct numeric_limits<long double> {
     static constexpr const float_round_style round_style = round_to_nearest;
     static constexpr const unsigned digits = LDBL_MANT_DIG;
     static constexpr const unsigned digits10 = LDBL_DIG;
-    static constexpr const unsigned max_digits10 = LDBL_MANT_DIG;
+    static constexpr const unsigned max_digits10 = __LDBL_DECIMAL_DIG__;
 };
 
 #define _NUMERIC_LIMITS(type, minVal, maxVal, bSigned, bInteger, bIntegral)	\
-- 
2.43.0


From 8fdf34e0bda51264a3bb2411e53b682bf2d1c0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:32 +0000
Subject: [PATCH 41/67] fix: swap_ranges of two kinds of iterators

---
 ualgo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ualgo.h b/ualgo.h
index 52a3cdc..74e5afe 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -14,10 +14,10 @@ namespace ustl {
 /// \ingroup SwapAlgorithms
 ///
 template <typename ForwardIterator1, typename ForwardIterator2>
-inline constexpr ForwardIterator2 swap_ranges (ForwardIterator1 first, ForwardIterator2 last, ForwardIterator2 result)
+inline constexpr ForwardIterator2 swap_ranges (ForwardIterator1 first, ForwardIterator1 last, ForwardIterator2 result)
 {
     for (; first != last; ++first, ++result)
-	iter_swap (first, result);
+	swap (*first, *result);
     return result;
 }
 
-- 
2.43.0


From 4fdc8dabeb490489b6df7230c8df908dbd43252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:42 +0000
Subject: [PATCH 42/67] fix: set::find and multiset::find compared with ==
 instead of the container's ordering

An element that insert considers present was not found by them.
---
 umultiset.h | 2 +-
 uset.h      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/umultiset.h b/umultiset.h
index b8e0272..1923d2f 100644
--- a/umultiset.h
+++ b/umultiset.h
@@ -48,7 +48,7 @@ public:
     inline Comp			value_comp (void) const			{ return Comp(); }
     inline Comp			key_comp (void) const			{ return value_comp(); }
     inline void			assign (const_iterator i1, const_iterator i2)	{ clear(); insert (i1, i2); }
-    inline const_iterator	find (const_reference v) const		{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && *i == v) ? i : end(); }
+    inline const_iterator	find (const_reference v) const		{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && !Comp()(v,*i)) ? i : end(); }
     inline iterator		find (const_reference v)		{ return const_cast<iterator>(const_cast<rcself_t>(*this).find (v)); }
     inline const_iterator	lower_bound (const_reference v) const	{ return ::ustl::lower_bound (begin(), end(), v, Comp()); }
     inline iterator		lower_bound (const_reference v)		{ return const_cast<iterator>(const_cast<rcself_t>(*this).lower_bound (v)); }
diff --git a/uset.h b/uset.h
index 41b3c4b..666e7cb 100644
--- a/uset.h
+++ b/uset.h
@@ -46,7 +46,7 @@ public:
     inline iterator		end (void)		{ return base_class::end(); }
     inline const_iterator	end (void) const	{ return base_class::end(); }
     inline const_iterator	cend (void) const	{ return base_class::cend(); }
-    inline const_iterator	find (const_reference v) const	{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && *i == v) ? i : end(); }
+    inline const_iterator	find (const_reference v) const	{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && !Comp()(v,*i)) ? i : end(); }
     inline iterator		find (const_reference v)	{ return const_cast<iterator>(const_cast<rcself_t>(*this).find (v)); }
     inline const_iterator	lower_bound (const_reference v) const	{ return ::ustl::lower_bound (begin(), end(), v, Comp()); }
     inline iterator		lower_bound (const_reference v)		{ return const_cast<iterator>(const_cast<rcself_t>(*this).lower_bound (v)); }
-- 
2.43.0


From 7243327636732008966842db6e6d3913c4083408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:13 +0000
Subject: [PATCH 43/67] fix: an fstream is not copied, two objects closed the
 same descriptor

---
 fstream.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fstream.h b/fstream.h
index 1f973b8..2f33eb2 100644
--- a/fstream.h
+++ b/fstream.h
@@ -25,6 +25,8 @@ public:
 			fstream (void) noexcept;
     explicit		fstream (const char* filename, openmode mode = in|out);
     explicit		fstream (int nfd, const char* filename = "");
+			fstream (const fstream&) = delete;
+    fstream&		operator= (const fstream&) = delete;
 		       ~fstream (void) noexcept;
     void		open (const char* filename, openmode mode, mode_t perms = 0644);
     void		attach (int nfd, const char* filename = "");
-- 
2.43.0


From bbe51ecbfd6ac1fe7909e220faf2f2081588df87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:13 +0000
Subject: [PATCH 44/67] fix: incrementing hrtime_t carries into the seconds

---
 uchrono.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uchrono.h b/uchrono.h
index 5e986c4..0e91b72 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -189,7 +189,7 @@ struct hrtime_t : public timespec {
     inline constexpr hrtime_t	operator+ (void) const		{ return *this; }
     inline constexpr hrtime_t	operator- (void) const		{ return hrtime_t(-tv_sec,-tv_nsec); }
     constexpr hrtime_t&		operator++ (void) {
-				    if (++tv_nsec > nano::den) {
+				    if (++tv_nsec >= nano::den) {
 					tv_nsec -= nano::den;
 					++tv_sec;
 				    }
-- 
2.43.0


From a4a79b197ec68425ce16e8a43f88116fa42a4dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:13 +0000
Subject: [PATCH 45/67] fix: dividing hrtime_t divides the remainder of the
 seconds

---
 uchrono.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/uchrono.h b/uchrono.h
index 0e91b72..eeaa8a5 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -230,8 +230,7 @@ struct hrtime_t : public timespec {
 				    return *this;
 				}
     constexpr hrtime_t&		operator/= (intmax_t v)	{
-				    tv_nsec /= v;
-				    tv_nsec += (tv_sec % v) * nano::den;
+				    tv_nsec = ((tv_sec % v) * nano::den + tv_nsec) / v;
 				    tv_sec /= v;
 				    return *this;
 				}
-- 
2.43.0


From 41e0a686cdb8189c3725e2a78d6a22d164882a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:04 +0000
Subject: [PATCH 46/67] fix: add_pointer of a reference

---
 uttraits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uttraits.h b/uttraits.h
index 6dbc194..b9c786e 100644
--- a/uttraits.h
+++ b/uttraits.h
@@ -85,7 +85,7 @@ template <typename T> struct remove_pointer<T* volatile>{ using type = T; };
 template <typename T> struct remove_pointer<T* const volatile>	{ using type = T; };
 template <typename T> using remove_pointer_t = typename remove_pointer<T>::type;
 
-template <typename T> struct add_pointer		{ using type = T*; };
+template <typename T> struct add_pointer		{ using type = remove_reference_t<T>*; };
 template <typename T> using add_pointer_t = typename add_pointer<T>::type;
 
 template <typename T> struct remove_extent			{ using type = T; };
-- 
2.43.0


From c223fa6808d5bf0fdb270c2f6a983befe9a1ad98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:03 +0000
Subject: [PATCH 47/67] fix: comparisons of durations of different kinds

---
 uchrono.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/uchrono.h b/uchrono.h
index eeaa8a5..c5417a1 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -96,25 +96,25 @@ struct duration {
     inline constexpr typename enable_if<
 		ratio_greater<ratio_divide<period,Period2>,ratio<1>>::value
 		    && is_convertible<duration,duration<Rep2,Period2>>::value,
-    bool>::type			operator== (const duration<rep,Period2>& v) const
+    bool>::type			operator== (const duration<Rep2,Period2>& v) const
 				    { return duration<Rep2,Period2>(*this) == v; }
     template <typename Rep2, typename Period2>
     inline constexpr typename enable_if<
 		ratio_less_equal<ratio_divide<period,Period2>,ratio<1>>::value
-		    && is_convertible<duration,duration<Rep2,Period2>>::value,
-    bool>::type			operator== (const duration<rep,Period2>& v) const
+		    && is_convertible<duration<Rep2,Period2>,duration>::value,
+    bool>::type			operator== (const duration<Rep2,Period2>& v) const
 				    { return operator== (duration(v)); }
     template <typename Rep2, typename Period2>
     inline constexpr typename enable_if<
 		ratio_greater<ratio_divide<period,Period2>,ratio<1>>::value
 		    && is_convertible<duration,duration<Rep2,Period2>>::value,
-    bool>::type			operator< (const duration<rep,Period2>& v) const
+    bool>::type			operator< (const duration<Rep2,Period2>& v) const
 				    { return duration<Rep2,Period2>(*this) < v; }
     template <typename Rep2, typename Period2>
     inline constexpr typename enable_if<
 		ratio_less_equal<ratio_divide<period,Period2>,ratio<1>>::value
-		    && is_convertible<duration,duration<Rep2,Period2>>::value,
-    bool>::type			operator< (const duration<rep,Period2>& v) const
+		    && is_convertible<duration<Rep2,Period2>,duration>::value,
+    bool>::type			operator< (const duration<Rep2,Period2>& v) const
 				    { return operator< (duration(v)); }
 
     inline void			read (istream& is)		{ is >> _r; }
-- 
2.43.0


From 8f2ed521b5a98fad98a75cb44436bd1d724f3b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:03 +0000
Subject: [PATCH 48/67] fix: construct_at moves from its argument

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 3c47fea..290b288 100644
--- a/umemory.h
+++ b/umemory.h
@@ -321,7 +321,7 @@ inline void construct_at (T* p, const T& value)
 ///
 template <typename T>
 inline void construct_at (T* p, T&& value)
-    { new (p) T (move<T>(value)); }
+    { new (p) T (move (value)); }
 #endif
 
 template <typename T>
-- 
2.43.0


From 90724e0b0e349629f1002fa8339c3c5aeb006d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:07 +0000
Subject: [PATCH 49/67] fix: queues compare what they hold, not what they have
 dropped

---
 uqueue.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/uqueue.h b/uqueue.h
index bc67844..63b4601 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -39,7 +39,14 @@ public:
 				    }
 				}
     inline void			swap (queue& v)			{ _storage.swap (v._storage); ::ustl::swap (_front, v._front); }
-    inline bool			operator== (const queue& s) const	{ return _storage == s._storage && _front == s._front; }
+    bool			operator== (const queue& s) const {
+				    if (size() != s.size())
+					return false;
+				    for (size_type i = 0; i < size(); ++i)
+					if (!(_storage[_front+i] == s._storage[s._front+i]))
+					    return false;
+				    return true;
+				}
     inline bool			operator< (const queue& s) const	{ return size() < s.size(); }
 #if HAVE_CPP11
     inline			queue (queue&& v)		: _storage(move(v._storage)),_front(v._front) { v._front = 0; }
-- 
2.43.0


From 53695d144bc57e914af334870055e1703edd2820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:38 +0000
Subject: [PATCH 50/67] fix: vectors compare their elements, not their bytes

---
 uvector.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/uvector.h b/uvector.h
index 4e33096..f486f26 100644
--- a/uvector.h
+++ b/uvector.h
@@ -43,7 +43,7 @@ public:
 				vector (const_iterator i1, const_iterator i2);
     inline			~vector (void) noexcept;
     inline const vector&	operator= (const vector& v);
-    inline bool			operator== (const vector& v) const	{ return _data == v._data; }
+    bool			operator== (const vector& v) const;
     inline			operator cmemlink (void) const	{ return cmemlink (_data); }
     inline			operator cmemlink (void)	{ return cmemlink (_data); }
     inline			operator memlink (void)		{ return memlink (_data); }
@@ -228,6 +228,18 @@ inline vector<T>::~vector (void) noexcept
     destroy_all();
 }
 
+/// Returns true if the elements of \p v are equal to those of this vector.
+template <typename T>
+bool vector<T>::operator== (const vector<T>& v) const
+{
+    if (size() != v.size())
+	return false;
+    for (const_iterator i = begin(), j = v.begin(); i != end(); ++i, ++j)
+	if (!(*i == *j))
+	    return false;
+    return true;
+}
+
 /// Copies the range [\p i1, \p i2]
 template <typename T>
 inline void vector<T>::assign (const_iterator i1, const_iterator i2)
-- 
2.43.0


From 152122e86abd0e3c9539253d760639542ad45299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:55 +0000
Subject: [PATCH 51/67] fix: inserters advance past what they inserted

---
 uiterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index c5cfa62..d69d810 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -340,10 +340,10 @@ public:
 public:
     constexpr explicit		insert_iterator (Container& ctr, iterator ip) : _rctr (ctr), _ip (ip) {}
     inline insert_iterator&	operator= (typename Container::const_reference v)
-				    { _ip = _rctr.insert (_ip, v); return *this; }
+				    { _ip = _rctr.insert (_ip, v); ++_ip; return *this; }
     constexpr insert_iterator&	operator* (void)  { return *this; }
-    constexpr insert_iterator&	operator++ (void) { ++ _ip; return *this; }
-    constexpr insert_iterator	operator++ (int)  { insert_iterator prev (*this); ++_ip; return prev; }
+    constexpr insert_iterator&	operator++ (void) { return *this; }
+    constexpr insert_iterator&	operator++ (int)  { return *this; }
 protected:
     Container&			_rctr;
     iterator			_ip;
-- 
2.43.0


From 5f7ea4f4c105dd9294f9fb3595433d71e4ced49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:15 +0000
Subject: [PATCH 52/67] fix: make_pair holds values, not references

---
 ualgo.h | 6 +++---
 upair.h | 9 ++++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/ualgo.h b/ualgo.h
index 74e5afe..6f8bb8a 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -639,13 +639,13 @@ inline constexpr ForwardIterator min_element (ForwardIterator first, ForwardIter
 /// Returns min,max pair of the argument
 template <typename T>
 inline constexpr auto minmax (const T& a, const T& b)
-    { return a < b ? make_pair<const T&,const T&>(a,b) : make_pair<const T&,const T&>(b,a); }
+    { return a < b ? pair<const T&,const T&>(a,b) : pair<const T&,const T&>(b,a); }
 template <typename T>
 inline constexpr auto minmax (T& a, T& b)
-    { return a < b ? make_pair<T&,T&>(a,b) : make_pair<T&,T&>(b,a); }
+    { return a < b ? pair<T&,T&>(a,b) : pair<T&,T&>(b,a); }
 template <typename T, typename Compare>
 inline constexpr auto minmax (const T& a, const T& b, Compare comp)
-    { return comp(a,b) ? make_pair<const T&,const T&>(a,b) : make_pair<const T&,const T&>(b,a); }
+    { return comp(a,b) ? pair<const T&,const T&>(a,b) : pair<const T&,const T&>(b,a); }
 template <typename T> constexpr void minmax (T&& a, T&& b) = delete;
 
 template <typename T>
diff --git a/upair.h b/upair.h
index f6a9817..7d2d2da 100644
--- a/upair.h
+++ b/upair.h
@@ -5,6 +5,7 @@
 
 #pragma once
 #include "ualgobase.h"
+#include "uttraits.h"
 
 namespace ustl {
 
@@ -60,14 +61,16 @@ public:
 
 /// Returns a pair object with (a,b)
 template <typename T1, typename T2>
-inline constexpr pair<T1,T2> make_pair (T1&& a, T2&& b)
-    { return pair<T1,T2> (forward<T1>(a), forward<T2>(b)); }
+inline constexpr pair<decay_t<T1>,decay_t<T2>> make_pair (T1&& a, T2&& b)
+    { return pair<decay_t<T1>,decay_t<T2>> (forward<T1>(a), forward<T2>(b)); }
 
-#endif
+#else
 
 /// Returns a pair object with (a,b)
 template <typename T1, typename T2>
 inline constexpr pair<T1,T2> make_pair (const T1& a, const T2& b)
     { return pair<T1,T2> (a, b); }
 
+#endif
+
 } // namespace ustl
-- 
2.43.0


From a2136e5907cf4ab45ac4cbcfe2bf3bd92e919005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:27 +0000
Subject: [PATCH 53/67] fix: duration_cast calculates in the wider of the two
 representations

---
 uchrono.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uchrono.h b/uchrono.h
index c5417a1..d8db154 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -18,9 +18,10 @@ template <typename Rep, typename Period> struct duration;
 template <typename ToDuration, typename Rep, typename Period>
 struct __duration_cast_impl {
     using to_rep	= typename ToDuration::rep;
+    using calc_rep	= common_type_t<to_rep, Rep, intmax_t>;
     using conv_ratio	= typename ratio_divide<Period, typename ToDuration::period>::type;
     static inline constexpr ToDuration cast (const duration<Rep, Period>& d)
-	{ return ToDuration (static_cast<to_rep>(d.count()) * conv_ratio::num / conv_ratio::den); }
+	{ return ToDuration (static_cast<to_rep>(static_cast<calc_rep>(d.count()) * conv_ratio::num / conv_ratio::den)); }
 };
 
 /// Converts durations of different periods or representations
-- 
2.43.0


From 2e7ff6b78c378591af860950225530f80768a036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:00 +0000
Subject: [PATCH 54/67] fix: times before the epoch are normalised like others

---
 uchrono.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/uchrono.h b/uchrono.h
index d8db154..8d97b95 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -181,14 +181,14 @@ struct hrtime_t : public timespec {
     constexpr hrtime_t&		operator= (const hrtime_t&) = default;
     inline explicit constexpr	hrtime_t (const timespec& v)	: timespec(v){}
     inline constexpr		hrtime_t (time_t s, long ns)	: timespec{s,ns}{}
-    inline explicit constexpr	hrtime_t (intmax_t v)		: timespec{time_t(v/nano::den),time_t(v%nano::den)}{}
+    inline explicit constexpr	hrtime_t (intmax_t v)		: timespec{time_t(v/nano::den-(v%nano::den < 0)),long(v%nano::den+(v%nano::den < 0 ? nano::den : 0))}{}
     inline explicit constexpr	hrtime_t (float v)		: timespec{time_t(v),time_t((v-time_t(v))*nano::den)}{}
     inline explicit constexpr	hrtime_t (double v)		: timespec{time_t(v),time_t((v-time_t(v))*nano::den)}{}
     inline constexpr		operator intmax_t (void) const	{ return intmax_t(tv_sec)*nano::den + tv_nsec; }
     inline constexpr		operator float (void) const	{ return float(tv_nsec)/nano::den + tv_sec; }
     inline constexpr		operator double (void) const	{ return double(tv_nsec)/nano::den + tv_sec; }
     inline constexpr hrtime_t	operator+ (void) const		{ return *this; }
-    inline constexpr hrtime_t	operator- (void) const		{ return hrtime_t(-tv_sec,-tv_nsec); }
+    inline constexpr hrtime_t	operator- (void) const		{ return hrtime_t(-tv_sec-(tv_nsec > 0), tv_nsec > 0 ? nano::den-tv_nsec : 0); }
     constexpr hrtime_t&		operator++ (void) {
 				    if (++tv_nsec >= nano::den) {
 					tv_nsec -= nano::den;
@@ -224,15 +224,21 @@ struct hrtime_t : public timespec {
 				}
     constexpr hrtime_t&		operator*= (intmax_t v) {
 				    tv_sec *= v;
-				    if (nano::den <= (tv_nsec *= v)) {
-					tv_sec += tv_nsec / nano::den;
-					tv_nsec %= nano::den;
+				    tv_nsec *= v;
+				    tv_sec += tv_nsec / nano::den;
+				    if (0 > (tv_nsec %= nano::den)) {
+					tv_nsec += nano::den;
+					--tv_sec;
 				    }
 				    return *this;
 				}
     constexpr hrtime_t&		operator/= (intmax_t v)	{
 				    tv_nsec = ((tv_sec % v) * nano::den + tv_nsec) / v;
 				    tv_sec /= v;
+				    if (0 > tv_nsec) {
+					tv_nsec += nano::den;
+					--tv_sec;
+				    }
 				    return *this;
 				}
     inline constexpr hrtime_t	operator+ (const hrtime_t& v) const	{ hrtime_t r(*this); return r += v; }
-- 
2.43.0


From 4e3a96fe21d2bfef8d980a36004f0927dc1d867b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:09 +0000
Subject: [PATCH 55/67] fix: packed operations with a separate result, and
 padds, did not compile

---
 simd.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/simd.h b/simd.h
index 74d97a1..e5076ea 100644
--- a/simd.h
+++ b/simd.h
@@ -46,15 +46,6 @@ inline void packop (const Ctr& op1, Ctr& op2, BinaryOperation op)
 	*i2 = op (*i2, *i1);
 }
 
-/// Applies \p op to corresponding elements in \p op1 and \p op2 and stores in \p result.
-template <typename Ctr, typename BinaryOperation>
-inline void packop (const Ctr& op1, const Ctr& op2, Ctr& result, BinaryOperation op)
-{
-    assert (op1.size() <= op2.size() && op1.size() <= result.size());
-    passign (op1, result);
-    op (op2, result);
-}
-
 /// Copies \p op1 into \p result.
 template <typename Ctr>
 inline void passign (const Ctr& op1, Ctr& result)
@@ -65,6 +56,15 @@ inline void passign (const Ctr& op1, Ctr& result)
 	*d++ = *s;
 }
 
+/// Applies \p op to corresponding elements in \p op1 and \p op2 and stores in \p result.
+template <typename Ctr, typename BinaryOperation>
+inline void packop (const Ctr& op1, const Ctr& op2, Ctr& result, BinaryOperation op)
+{
+    assert (op1.size() <= op2.size() && op1.size() <= result.size());
+    passign (op1, result);
+    packop (op2, result, op);
+}
+
 /// Copies \p result.size() elements from \p op1 to \p result.
 template <typename Ctr>
 inline void ipassign (typename Ctr::const_iterator op1, Ctr& result)
@@ -155,6 +155,7 @@ SIMD_PACKEDOP2 (por, bitwise_or)
 SIMD_PACKEDOP2 (pxor, bitwise_xor)
 SIMD_PACKEDOP2 (pshl, fpshl)
 SIMD_PACKEDOP2 (pshr, fpshr)
+SIMD_PACKEDOP2 (padds, fpadds)
 SIMD_PACKEDOP2 (psubs, fpsubs)
 SIMD_PACKEDOP2 (pmin, fpmin)
 SIMD_PACKEDOP2 (pmax, fpmax)
-- 
2.43.0


From fa991aebc37b8e939a0a490e028efc49ed4eb5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:09 +0000
Subject: [PATCH 56/67] fix: saturated addition and subtraction wrapped around
 at the other end

---
 simd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simd.h b/simd.h
index e5076ea..9526c97 100644
--- a/simd.h
+++ b/simd.h
@@ -84,8 +84,8 @@ inline void pconvert (const Ctr1& op1, Ctr2& op2, ConvertFunction f)
 }
 
 // Functionoids for SIMD operations, like saturation arithmetic, shifts, etc.
-STD_BINARY_FUNCTOR (fpadds, T, ((b > numeric_limits<T>::max() - a) ? numeric_limits<T>::max() : a + b))
-STD_BINARY_FUNCTOR (fpsubs, T, ((a < numeric_limits<T>::min() + b) ? numeric_limits<T>::min() : a - b))
+STD_BINARY_FUNCTOR (fpadds, T, (b > 0 ? (a > numeric_limits<T>::max() - b ? numeric_limits<T>::max() : T(a + b)) : (a < numeric_limits<T>::lowest() - b ? numeric_limits<T>::lowest() : T(a + b))))
+STD_BINARY_FUNCTOR (fpsubs, T, (b > 0 ? (a < numeric_limits<T>::lowest() + b ? numeric_limits<T>::lowest() : T(a - b)) : (a > numeric_limits<T>::max() + b ? numeric_limits<T>::max() : T(a - b))))
 STD_BINARY_FUNCTOR (fpshl,  T, (a << b))
 STD_BINARY_FUNCTOR (fpshr,  T, (a >> b))
 STD_BINARY_FUNCTOR (fpmin,  T, (min (a, b)))
-- 
2.43.0


From 12d684a04484227dc962c5cab909f97f8e6f4b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:09 +0000
Subject: [PATCH 57/67] fix: packed average of signed elements took them for
 unsigned

---
 simd.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/simd.h b/simd.h
index 9526c97..7a0c520 100644
--- a/simd.h
+++ b/simd.h
@@ -344,9 +344,7 @@ MMX_DBL_PKOP2_SPEC(4,int32_t,bitwise_xor,pxor)
 
 #if __SSE2__ || __3DNOW__
 MMX_PKOP2_SPEC(8,uint8_t,fpavg,pavgb)
-MMX_PKOP2_SPEC(8,int8_t,fpavg,pavgb)
 MMX_PKOP2_SPEC(4,uint16_t,fpavg,pavgw)
-MMX_PKOP2_SPEC(4,int16_t,fpavg,pavgw)
 MMX_PKOP2_SPEC(8,uint8_t,fpmin,pminub)
 MMX_PKOP2_SPEC(8,uint8_t,fpmax,pmaxub)
 MMX_PKOP2_SPEC(4,int16_t,fpmax,pmaxsw)
-- 
2.43.0


From d0f3c101ce7e3a18b17637ac1fee775e94800259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:14 +0000
Subject: [PATCH 58/67] fix: packed SSE operations change xmm1

---
 simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simd.h b/simd.h
index 7a0c520..002b83e 100644
--- a/simd.h
+++ b/simd.h
@@ -388,7 +388,7 @@ MMX_DBL_IPASSIGN_SPEC(4,int32_t)
 #endif // __MMX__
 
 #if __SSE__
-#define STD_SSE_ARGS	: "m"(oout[0]), "m"(oin[0]) : "xmm0", "memory"
+#define STD_SSE_ARGS	: "m"(oout[0]), "m"(oin[0]) : "xmm0", "xmm1", "memory"
 #define SSE_PKOP2_SPEC(n,type,optype,instruction)	\
 SIMD_PKOP2_SPEC(n,type,optype)		\
 { asm ("movups %0, %%xmm0\n\tmovups %1, %%xmm1\n\t" #instruction " %%xmm1, %%xmm0\n\tmovups %%xmm0, %0" : STD_SSE_ARGS);}
-- 
2.43.0


From 43b6beb1ba9bba48d684091b79c9b93652f0505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:14 +0000
Subject: [PATCH 59/67] fix: product with a 4x4 float matrix took the third
 element for the second

---
 ulaalgo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ulaalgo.h b/ulaalgo.h
index 4c69c0e..b727e5a 100644
--- a/ulaalgo.h
+++ b/ulaalgo.h
@@ -104,7 +104,7 @@ inline void _sse_transform_to_vector (float* result)
 	"movaps %%xmm0, %%xmm2		\n\t" // xmm1 = t[0 1 2 3]
 	"movaps %%xmm0, %%xmm3		\n\t" // xmm1 = t[0 1 2 3]
 	"shufps $0x00, %%xmm0, %%xmm0	\n\t" // xmm0 = t[0 0 0 0]
-	"shufps $0x66, %%xmm1, %%xmm1	\n\t" // xmm1 = t[1 1 1 1]
+	"shufps $0x55, %%xmm1, %%xmm1	\n\t" // xmm1 = t[1 1 1 1]
 	"shufps $0xAA, %%xmm2, %%xmm2	\n\t" // xmm2 = t[2 2 2 2]
 	"shufps $0xFF, %%xmm3, %%xmm3	\n\t" // xmm3 = t[3 3 3 3]
 	"mulps  %%xmm4, %%xmm0		\n\t" // xmm0 = t[0 0 0 0] * m[0 1 2 3]
-- 
2.43.0


From ddc607b93a0082606b75d08ae20b111bb61178ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:14 +0000
Subject: [PATCH 60/67] fix: load_identity of a 4x4 float matrix changed an
 input operand

---
 ulaalgo.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ulaalgo.h b/ulaalgo.h
index b727e5a..adb78f3 100644
--- a/ulaalgo.h
+++ b/ulaalgo.h
@@ -68,6 +68,7 @@ void transpose (matrix<N,N,T>& m)
 template <>
 inline void load_identity (matrix<4,4,float>& m)
 {
+    float one = 1.0f;
     asm (
 	"movaps %4, %%xmm1		\n\t"	// 1 0 0 0
 	"movups %4, %0			\n\t"	// 1 0 0 0
@@ -77,8 +78,8 @@ inline void load_identity (matrix<4,4,float>& m)
 	"shufps $0x1B,%4,%4		\n\t"	// 0 0 0 1
 	"movups %%xmm1, %2		\n\t"	// 0 0 1 0
 	"movups %4, %3"				// 0 0 0 1
-	: "=m"(m[0][0]), "=m"(m[1][0]), "=m"(m[2][0]), "=m"(m[3][0])
-	: "x"(1.0f)
+	: "=m"(m[0][0]), "=m"(m[1][0]), "=m"(m[2][0]), "=m"(m[3][0]), "+x"(one)
+	:
 	: "xmm1", "memory"
     );
     asm ("":::"memory");
-- 
2.43.0


From 8edfe8bb74f6a2b3eca76b9b8b4e1c06c60aee1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:14 +0000
Subject: [PATCH 61/67] fix: load_identity set elements off the diagonal of
 matrices with more rows than columns

---
 ulaalgo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ulaalgo.h b/ulaalgo.h
index adb78f3..6352a9c 100644
--- a/ulaalgo.h
+++ b/ulaalgo.h
@@ -15,8 +15,8 @@ template <size_t NX, size_t NY, typename T>
 void load_identity (matrix<NX,NY,T>& m)
 {
     fill_n (m.begin(), NX * NY, 0);
-    for (typename matrix<NX,NY,T>::iterator i = m.begin(); i < m.end(); i += NX + 1)
-	*i = 1;
+    for (uoff_t i = 0; i < NX && i < NY; ++ i)
+	m[i][i] = 1;
 }
 
 /// \brief Multiplies two matrices
-- 
2.43.0


From 583fa26d98857ec62e9a829afd7f9536b5836fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:14 +0000
Subject: [PATCH 62/67] fix: a matrix could not be constructed from one of
 another element type

---
 umatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umatrix.h b/umatrix.h
index ddf7e8c..c610a13 100644
--- a/umatrix.h
+++ b/umatrix.h
@@ -34,7 +34,7 @@ public:
 public:
     inline			matrix (void)			: tuple<NX*NY,T>() { }
     template <typename T2>
-    inline			matrix (const matrix<NX,NY,T2>& src) : tuple<NX*NY,T2>(src) {}
+    inline			matrix (const matrix<NX,NY,T2>& src) : tuple<NX*NY,T>(src) {}
     inline			matrix (const matrix<NX,NY,T>& src) : tuple<NX*NY,T>(src) {}
     inline size_type		columns (void) const		{ return NX; }
     inline size_type		rows (void) const		{ return NY; }
-- 
2.43.0


From 5461d93381839f13e7189cf5ea6b9e878ba453dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:14 +0000
Subject: [PATCH 63/67] fix: array operators read past the end of a shorter
 initializer list

---
 uarray.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/uarray.h b/uarray.h
index aa89cbc..0aa82a9 100644
--- a/uarray.h
+++ b/uarray.h
@@ -30,14 +30,14 @@ public:
 public:
 #if HAVE_CPP11
     using initlist_t = std::initializer_list<value_type>;
-    constexpr auto&		operator+= (initlist_t v)		{ for (size_type i = 0; i < N; ++i) _v[i] += v.begin()[i]; return *this; }
-    constexpr auto&		operator-= (initlist_t v)		{ for (size_type i = 0; i < N; ++i) _v[i] -= v.begin()[i]; return *this; }
-    constexpr auto&		operator*= (initlist_t v)		{ for (size_type i = 0; i < N; ++i) _v[i] *= v.begin()[i]; return *this; }
-    constexpr auto&		operator/= (initlist_t v)		{ for (size_type i = 0; i < N; ++i) _v[i] /= v.begin()[i]; return *this; }
-    constexpr auto		operator+ (initlist_t v) const		{ array result; for (size_type i = 0; i < N; ++i) result[i] = _v[i] + v.begin()[i]; return result; }
-    constexpr auto		operator- (initlist_t v) const		{ array result; for (size_type i = 0; i < N; ++i) result[i] = _v[i] - v.begin()[i]; return result; }
-    constexpr auto		operator* (initlist_t v) const		{ array result; for (size_type i = 0; i < N; ++i) result[i] = _v[i] * v.begin()[i]; return result; }
-    constexpr auto		operator/ (initlist_t v) const		{ array result; for (size_type i = 0; i < N; ++i) result[i] = _v[i] / v.begin()[i]; return result; }
+    constexpr auto&		operator+= (initlist_t v)		{ for (size_type i = 0; i < N && i < v.size(); ++i) _v[i] += v.begin()[i]; return *this; }
+    constexpr auto&		operator-= (initlist_t v)		{ for (size_type i = 0; i < N && i < v.size(); ++i) _v[i] -= v.begin()[i]; return *this; }
+    constexpr auto&		operator*= (initlist_t v)		{ for (size_type i = 0; i < N && i < v.size(); ++i) _v[i] *= v.begin()[i]; return *this; }
+    constexpr auto&		operator/= (initlist_t v)		{ for (size_type i = 0; i < N && i < v.size(); ++i) _v[i] /= v.begin()[i]; return *this; }
+    constexpr auto		operator+ (initlist_t v) const		{ array result (*this); result += v; return result; }
+    constexpr auto		operator- (initlist_t v) const		{ array result (*this); result -= v; return result; }
+    constexpr auto		operator* (initlist_t v) const		{ array result (*this); result *= v; return result; }
+    constexpr auto		operator/ (initlist_t v) const		{ array result (*this); result /= v; return result; }
 #else
     inline			array (void)				{ fill_n (_v, N, T()); }
     template <typename T2>
-- 
2.43.0


From fc05136b2e89bf9b4122304693384bd34bcbeb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:14 +0000
Subject: [PATCH 64/67] fix: bitset::set of a range of bits could not clear any

---
 ubitset.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ubitset.h b/ubitset.h
index bdf0d8b..634095f 100644
--- a/ubitset.h
+++ b/ubitset.h
@@ -80,12 +80,16 @@ public:
 			    br = val ? bOn : bOff;
 			}
 			// Sets the value of the bitrange \p first through \p last to the equivalent number of bits from \p v.
-    constexpr void	set (uoff_t first, uoff_t DebugArg(last), value_type v)
+    constexpr void	set (uoff_t first, uoff_t last, value_type v)
 			{
 			    assert (size_t (distance (first, last)) <= s_WordBits && "Bit ranges must be 32 bits or smaller");
 			    assert (first / s_WordBits == last / s_WordBits && "Bit ranges can not cross dword (4 byte) boundary");
 			    assert ((v & BitMask(value_type,distance(first,last))) == v && "The value is too large to fit in the given bit range");
-			    BitRef(first) |= v << (first % s_WordBits);
+			    if (first >= last)
+				return;
+			    value_type& br (BitRef (first));
+			    const value_type mask (BitMask(value_type,distance(first,last)) << (first % s_WordBits));
+			    br = (br & ~mask) | (v << (first % s_WordBits));
 			}
     			/// Clears the bit \p n.
     constexpr void	reset (uoff_t n)		{ set (n, false); }
-- 
2.43.0


From 9c3dee9ed6058c4f2b3b1ac8ceb26441aec2dd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:53 +0000
Subject: [PATCH 65/67] fix: packed average of negative elements was too high

---
 simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simd.h b/simd.h
index 002b83e..f42fc8c 100644
--- a/simd.h
+++ b/simd.h
@@ -90,7 +90,7 @@ STD_BINARY_FUNCTOR (fpshl,  T, (a << b))
 STD_BINARY_FUNCTOR (fpshr,  T, (a >> b))
 STD_BINARY_FUNCTOR (fpmin,  T, (min (a, b)))
 STD_BINARY_FUNCTOR (fpmax,  T, (max (a, b)))
-STD_BINARY_FUNCTOR (fpavg,  T, ((a + b + 1) / 2))
+STD_BINARY_FUNCTOR (fpavg,  T, ((a + b + 1) >> 1))
 STD_CONVERSION_FUNCTOR (fcast, (D(a)))
 #if HAVE_MATH_H
 STD_UNARY_FUNCTOR (fpreciprocal,T, (1 / a))
-- 
2.43.0


From ae86e487fceb7b7108921ec5485dad858740c0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:55 +0000
Subject: [PATCH 66/67] fix: string::rfind of a string missed occurrences and
 the last character

---
 ustring.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ustring.cc b/ustring.cc
index 4ec2416..cf249aa 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -271,14 +271,12 @@ string::pos_type string::rfind (value_type c, pos_type pos) const noexcept
 /// Returns the offset of the last occurence of substring \p s of size \p n before \p pos.
 string::pos_type string::rfind (const string& s, pos_type pos) const noexcept
 {
-    const_iterator d = iat(pos) - 1;
-    const_iterator sp = begin() + s.size() - 1;
-    const_iterator m = s.end() - 1;
-    for (long int i = 0; d > sp && size_type(i) < s.size(); -- d)
-	for (i = 0; size_type(i) < s.size(); ++ i)
-	    if (m[-i] != d[-i])
-		break;
-    return d > sp ? pos_type (distance (begin(), d + 2 - s.size())) : npos;
+    if (s.empty() || s.size() > size())
+	return npos;
+    for (pos_type i = min (pos, size() - s.size()) + 1; i--;)
+	if (memcmp (begin() + i, s.begin(), s.size()) == 0)
+	    return i;
+    return npos;
 }
 
 /// Returns the offset of the first occurence of one of characters in \p s of size \p n after \p pos.
-- 
2.43.0


From ee7361681c158f7456fc0db72d51c456761dd733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:11 +0000
Subject: [PATCH 67/67] fix: fstream::set_nonblock promised not to throw, but
 throws when fcntl fails

---
 fstream.cc | 2 +-
 fstream.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fstream.cc b/fstream.cc
index 37e9cc5..76671d0 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -228,7 +228,7 @@ int fstream::fcntl (const char* rname, int request, long argument)
     return rv;
 }
 
-void fstream::set_nonblock (bool v) noexcept
+void fstream::set_nonblock (bool v)
 {
     int curf = max (0, fcntl (FCNTLID (F_GETFL)));
     if (v) curf |=  O_NONBLOCK;
diff --git a/fstream.h b/fstream.h
index 2f33eb2..9474ccb 100644
--- a/fstream.h
+++ b/fstream.h
@@ -46,7 +46,7 @@ public:
     int			fcntl (const char* rname, int request, long argument = 0);
     inline int		fcntl (const char* rname, int request, int argument)	{ return fstream::fcntl (rname, request, long(argument)); }
     inline int		fcntl (const char* rname, int request, void* argument)	{ return fstream::fcntl (rname, request, intptr_t(argument)); }
-    void		set_nonblock (bool v = true) noexcept;
+    void		set_nonblock (bool v = true);
 #if HAVE_SYS_MMAN_H
     memlink		mmap (off_t n, off_t offset = 0);
     void		munmap (memlink& l);
-- 
2.43.0

