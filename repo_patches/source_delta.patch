From 32ab27038af3ac7bea5b54629c03c4f44ba344a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 01/73] fix: RingBuf::resize must provide at least the
 requested capacity

One byte of the buffer is reserved to detect the full condition, so a
request for a power of two ended one byte short.
---
 source/cyCore/core/cyc_ring_buf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index 09df78a..faf2baa 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -34,7 +34,7 @@ void RingBuf::resize(size_t need_size)
 
 	//auto inc size
 	size_t new_size = 2;
-	while (new_size < need_size) new_size *= 2;
+	while (new_size <= need_size) new_size *= 2; //one byte is reserved
 
 	//copy old data
 	size_t old_size = size();
@@ -55,7 +55,7 @@ void RingBuf::resize(size_t need_size)
 void RingBuf::memcpy_into(const void *src, size_t count)
 {
 	if (get_free_size() < count) {
-		resize(size() + count + 1);
+		resize(size() + count);
 	}
 
 	char* csrc = (char*)src;
-- 
2.43.0


From 9e41cc7ab8018eefa88c01fbc67d536ae2d4a964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 02/73] fix: RingBuf::search returned the buffer size for a
 match at the first byte

---
 source/cyCore/core/cyc_ring_buf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index faf2baa..7e00895 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -135,7 +135,7 @@ ssize_t RingBuf::search(size_t off, uint8_t data) const
 		const uint8_t* p = (uint8_t*)memchr(m_buf + read_off, (int)data, n);
 		if (p != nullptr) {
 			size_t pos = (size_t)(std::ptrdiff_t)(p - m_buf);
-			return (pos > m_read) ? (ssize_t)(pos - m_read) : (ssize_t)(pos + m_end - m_read);
+			return (pos >= m_read) ? (ssize_t)(pos - m_read) : (ssize_t)(pos + m_end - m_read);
 		}
 
 		read_off += n;
-- 
2.43.0


From 4b393af65d775d7218bc011f631eda4ba09f131e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 03/73] fix: RingBuf::peek and checksum ran past the data when
 off+count overflows

---
 source/cyCore/core/cyc_ring_buf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index 7e00895..f8a3fe7 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -153,7 +153,7 @@ size_t RingBuf::peek(size_t off, void* dst, size_t count) const
 {
 	size_t bytes_used = size();
 	if (off > bytes_used) return 0;
-	if (off + count > bytes_used) count = bytes_used - off;
+	if (count > bytes_used - off) count = bytes_used - off;
 	if (count == 0 || dst == 0) return 0;
 
 	char* cdst = (char*)dst;
@@ -368,7 +368,7 @@ uint32_t RingBuf::checksum(size_t off, size_t count) const
 
 	size_t bytes_used = size();
 	if (off > bytes_used) return adler;
-	if (off + count > bytes_used) return adler;
+	if (count > bytes_used - off) return adler;
 	if (count == 0) return adler;
 
 	size_t read_off = (m_read + off) % m_end;
-- 
2.43.0


From 351fd08552476f9ad8fb4582c771c9db1d97ceb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:59 +0000
Subject: [PATCH 04/73] fix: LockFreeQueue::push overwrote elements of a full
 queue

'continue' in a do-while still evaluates the condition, so a queue that
looked full while m_count was not above Q_SIZE/2 (always for Q_SIZE 2,
and whenever other threads were between reserving a slot and counting
it) took the element anyway and overwrote the oldest ones.
---
 source/cyCore/core/cyc_lf_queue.h | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/source/cyCore/core/cyc_lf_queue.h b/source/cyCore/core/cyc_lf_queue.h
index be28def..2c1f12c 100644
--- a/source/cyCore/core/cyc_lf_queue.h
+++ b/source/cyCore/core/cyc_lf_queue.h
@@ -63,16 +63,10 @@ bool LockFreeQueue<ELEM_T, Q_SIZE>::push(const ELEM_T &data)
 	{
 		currentWriteIndex = m_writeIndex;
 		currentReadIndex = m_readIndex;
-		if (_countToIndex(currentWriteIndex + 1) ==
-			_countToIndex(currentReadIndex))
-		{
-			if (m_count > (Q_SIZE >> 1))
-				// the queue is full
-				return false;
-			else
-				//maybe this thread was blocked between m_write_index.get() and m_read_index.get(), cause other threads write and read
-				continue;
-		}
+		// the read index is loaded after the write index, so this difference is never larger
+		// than the number of slots in use: Q_SIZE - 1 means that the queue really is full
+		if ((uint32_t)(currentWriteIndex - currentReadIndex) == Q_SIZE - 1)
+			return false;
 	} while (!atomic_compare_exchange(m_writeIndex, currentWriteIndex, (currentWriteIndex + 1)));
 
 	// We know now that this index is reserved for us. Use it to save the data
-- 
2.43.0


From 3aa985b232465089dd0d4a9671bc18e08e619ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 05/73] fix: LockFreeQueue::pop reported an empty queue when
 other threads moved exactly Q_SIZE elements

The masked read and commit indices also compare equal when they are
Q_SIZE apart, which happens to a thread that is descheduled between the
two loads.
---
 source/cyCore/core/cyc_lf_queue.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/cyCore/core/cyc_lf_queue.h b/source/cyCore/core/cyc_lf_queue.h
index 2c1f12c..e65d7aa 100644
--- a/source/cyCore/core/cyc_lf_queue.h
+++ b/source/cyCore/core/cyc_lf_queue.h
@@ -103,8 +103,7 @@ bool LockFreeQueue<ELEM_T, Q_SIZE>::pop(ELEM_T &a_data)
 		currentReadIndex = m_readIndex;
 		currentMaximumReadIndex = m_maximumReadIndex;
 
-		if (_countToIndex(currentReadIndex) ==
-			_countToIndex(currentMaximumReadIndex))
+		if (currentReadIndex == currentMaximumReadIndex)
 		{
 			// the queue is empty or
 			// a producer thread has allocate space in the queue but is 
-- 
2.43.0


From 2b96454d80857d2039f2dfac25868f92c6543a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:10 +0000
Subject: [PATCH 06/73] fix: Address::hash_value only hashed the first byte of
 the ip and of the port

---
 source/cyNetwork/network/cyn_address.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyNetwork/network/cyn_address.cpp b/source/cyNetwork/network/cyn_address.cpp
index 8b7c56b..a4a58c8 100644
--- a/source/cyNetwork/network/cyn_address.cpp
+++ b/source/cyNetwork/network/cyn_address.cpp
@@ -92,13 +92,13 @@ uint32_t Address::hash_value(const sockaddr_in& addr)
 	//hash address
 	const uint8_t* v = (const uint8_t*)&(addr.sin_addr);
 	for (size_t i = 0; i < 4; i++) {
-		hash = hash ^ v[0];
+		hash = hash ^ v[i];
 		hash = hash * FNV_prime;
 	}
 	//hash port
 	v = (const uint8_t*)&(addr.sin_port);
 	for (size_t i = 0; i < 2; i++) {
-		hash = hash ^ v[0];
+		hash = hash ^ v[i];
 		hash = hash * FNV_prime;
 	}
 	return hash;
-- 
2.43.0


From 6722d456e2657925926e03aae635f5ee846415e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:10 +0000
Subject: [PATCH 07/73] fix: Address of a socket without local or peer address
 was uninitialized memory

---
 source/cyNetwork/network/cyn_address.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cyNetwork/network/cyn_address.cpp b/source/cyNetwork/network/cyn_address.cpp
index a4a58c8..5167ee0 100644
--- a/source/cyNetwork/network/cyn_address.cpp
+++ b/source/cyNetwork/network/cyn_address.cpp
@@ -55,6 +55,7 @@ Address& Address::operator=(const Address& other)
 //-------------------------------------------------------------------------------------
 Address::Address(bool peer, socket_t sfd)
 {
+	memset(&m_address, 0, sizeof m_address);
 	if (peer)
 		socket_api::getpeername(sfd, m_address);
 	else
-- 
2.43.0


From 7fb41d27027eb2ca05a6ddd535e9f828c932da13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:10 +0000
Subject: [PATCH 08/73] fix: adler32 forgot the running checksum when updated
 with an empty buffer

---
 source/cyCrypt/crypt/cyr_adler32.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cyCrypt/crypt/cyr_adler32.cpp b/source/cyCrypt/crypt/cyr_adler32.cpp
index e50c4d2..a2b2eaf 100644
--- a/source/cyCrypt/crypt/cyr_adler32.cpp
+++ b/source/cyCrypt/crypt/cyr_adler32.cpp
@@ -69,8 +69,12 @@ uint32_t adler32(uint32_t adler, const uint8_t* buf, size_t len)
     unsigned n;
 	
 	/* initial Adler-32 value */
-	if (buf == 0 || len == 0)
+	if (buf == 0)
 		return INITIAL_ADLER;
+
+	/* nothing to add, keep the running checksum */
+	if (len == 0)
+		return adler;
 	
 	/* split Adler-32 into component sums */
     sum2 = (adler >> 16) & 0xffff;
-- 
2.43.0


From 6106e744adec22045beeb2a05077cc8df4fb6444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:10 +0000
Subject: [PATCH 09/73] fix: Diffie-Hellman with a zero private key recursed
 without end

---
 source/cyCrypt/crypt/cyr_dhexchange.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/cyCrypt/crypt/cyr_dhexchange.cpp b/source/cyCrypt/crypt/cyr_dhexchange.cpp
index f4491fd..e33939f 100644
--- a/source/cyCrypt/crypt/cyr_dhexchange.cpp
+++ b/source/cyCrypt/crypt/cyr_dhexchange.cpp
@@ -138,6 +138,12 @@ _powmodp_r(dhkey_t* r, const dhkey_t& a, const dhkey_t& b)
 	dhkey_t t;
 	dhkey_t half_b = b;
 
+	if (_u128_is_zero(b)) {
+		r->dq.low = 1;
+		r->dq.high = 0;
+		return;
+	}
+
 	if (b.dq.high == 0 && b.dq.low == 1) {
 		*r = a;
 		return;
-- 
2.43.0


From 3f29b564f35e0fc38f23abcb0971faaab7b812b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:10 +0000
Subject: [PATCH 10/73] fix: Diffie-Hellman did not reduce a public key equal
 to the prime

---
 source/cyCrypt/crypt/cyr_dhexchange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyCrypt/crypt/cyr_dhexchange.cpp b/source/cyCrypt/crypt/cyr_dhexchange.cpp
index e33939f..a94be4e 100644
--- a/source/cyCrypt/crypt/cyr_dhexchange.cpp
+++ b/source/cyCrypt/crypt/cyr_dhexchange.cpp
@@ -165,7 +165,7 @@ _powmodp_r(dhkey_t* r, const dhkey_t& a, const dhkey_t& b)
 static void 
 _powmodp(dhkey_t* r, dhkey_t a, dhkey_t b)
 {
-	if (_u128_compare(a, P)>0)
+	if (_u128_compare(a, P)>=0)
 		_u128_sub(&a, a, P);
 
 	_powmodp_r(r, a, b);
-- 
2.43.0


From ced19c5ad4eab6ff95460b0c625b6e0edbc6cf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:36 +0000
Subject: [PATCH 11/73] fix: RingQueue::push read freed memory when a full
 queue was given its own element

---
 source/cyUtility/utility/cyu_ring_queue.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cyUtility/utility/cyu_ring_queue.h b/source/cyUtility/utility/cyu_ring_queue.h
index d0baa1b..a39bcfe 100644
--- a/source/cyUtility/utility/cyu_ring_queue.h
+++ b/source/cyUtility/utility/cyu_ring_queue.h
@@ -37,9 +37,13 @@ public:
 
 	void push(const T& value) {
 		if (get_free_size() == 0) {
+			T copy(value); //value may be an element of this queue
 			_auto_size((size_t)1);
+			m_vector[m_write] = std::move(copy);
+		}
+		else {
+			m_vector[m_write] = value;
 		}
-		m_vector[m_write] = value;
 		m_write = _next(m_write);
 	}
 
-- 
2.43.0


From add5b46d96372af64fcd1e6c50f9e671e2c6c307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:36 +0000
Subject: [PATCH 12/73] fix: MinMaxValue of a floating point type could not
 report a negative maximum

---
 source/cyUtility/utility/cyu_statistics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyUtility/utility/cyu_statistics.h b/source/cyUtility/utility/cyu_statistics.h
index afe3892..0543d8a 100644
--- a/source/cyUtility/utility/cyu_statistics.h
+++ b/source/cyUtility/utility/cyu_statistics.h
@@ -35,7 +35,7 @@ public:
 	MinMaxValue() 
 	{
 		m_min = std::numeric_limits<T>::max();
-		m_max = std::numeric_limits<T>::min();
+		m_max = std::numeric_limits<T>::lowest();
 	}
 
 	MinMaxValue(const T& init) 
-- 
2.43.0


From 36bd25b1dcd597f6535e1262cee88be8781920eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:36 +0000
Subject: [PATCH 13/73] fix: CSimpleOpt moved overlapping arguments with memcpy

---
 source/cyUtility/utility/cyu_simple_opt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyUtility/utility/cyu_simple_opt.h b/source/cyUtility/utility/cyu_simple_opt.h
index 2678a02..8fc73e0 100644
--- a/source/cyUtility/utility/cyu_simple_opt.h
+++ b/source/cyUtility/utility/cyu_simple_opt.h
@@ -517,7 +517,7 @@ private:
         // keep our promise of no CLIB usage
         while (nCount-- > 0) *ppDst++ = *ppSrc++;
 #else
-        memcpy(ppDst, ppSrc, (size_t)nCount * sizeof(SOCHAR*));
+        memmove(ppDst, ppSrc, (size_t)nCount * sizeof(SOCHAR*)); // may overlap
 #endif
     }
 
-- 
2.43.0


From 3f38ebc621fb122cbce0bb36cdd3963c95b0cb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:36 +0000
Subject: [PATCH 14/73] fix: CSimpleOpt case-insensitive matching compared the
 left character with itself

---
 source/cyUtility/utility/cyu_simple_opt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyUtility/utility/cyu_simple_opt.h b/source/cyUtility/utility/cyu_simple_opt.h
index 8fc73e0..6985e16 100644
--- a/source/cyUtility/utility/cyu_simple_opt.h
+++ b/source/cyUtility/utility/cyu_simple_opt.h
@@ -983,7 +983,7 @@ CSimpleOptTempl<SOCHAR>::IsEqual(
     // if this matches then we are doing case-insensitive matching
     if (m_nFlags & a_nArgType) {
 		if (a_cLeft >= 'A' && a_cLeft <= 'Z') a_cLeft = (SOCHAR)tolower(a_cLeft);
-		if (a_cRight >= 'A' && a_cRight <= 'Z') a_cRight = (SOCHAR)tolower(a_cLeft);
+		if (a_cRight >= 'A' && a_cRight <= 'Z') a_cRight = (SOCHAR)tolower(a_cRight);
     }
     return a_cLeft == a_cRight;
 }
-- 
2.43.0


From 120a28826591f9aeab5efa76c068adcb0edbaa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:36 +0000
Subject: [PATCH 15/73] fix: CSimpleOpt::Init again freed the shuffle buffer
 twice

---
 source/cyUtility/utility/cyu_simple_opt.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cyUtility/utility/cyu_simple_opt.h b/source/cyUtility/utility/cyu_simple_opt.h
index 6985e16..ef713e3 100644
--- a/source/cyUtility/utility/cyu_simple_opt.h
+++ b/source/cyUtility/utility/cyu_simple_opt.h
@@ -575,6 +575,7 @@ CSimpleOptTempl<SOCHAR>::Init(
 #else
     if (m_rgShuffleBuf) {
         free(m_rgShuffleBuf);
+        m_rgShuffleBuf = NULL;
     }
     if (m_argc > SO_STATICBUF) {
         m_rgShuffleBuf = (SOCHAR**) malloc(sizeof(SOCHAR*) * static_cast<unsigned int>(m_argc));
-- 
2.43.0


From 14e6d2d4ff7be7db551a7b40506c35159d32d7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:36 +0000
Subject: [PATCH 16/73] fix: CSimpleOpt::Next returned options of a clumped
 argument after Stop

---
 source/cyUtility/utility/cyu_simple_opt.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cyUtility/utility/cyu_simple_opt.h b/source/cyUtility/utility/cyu_simple_opt.h
index ef713e3..02c45df 100644
--- a/source/cyUtility/utility/cyu_simple_opt.h
+++ b/source/cyUtility/utility/cyu_simple_opt.h
@@ -775,6 +775,7 @@ CSimpleOptTempl<SOCHAR>::Stop()
     if (m_nNextOption < m_nLastArg) {
         ShuffleArg(m_nNextOption, m_nLastArg - m_nNextOption);
     }
+    m_pszClump = NULL; // also drop the rest of a clumped argument
 }
 
 template<class SOCHAR>
-- 
2.43.0


From 9e380a0c24209ba3dde6e33af837bcacbb4bef2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:05 +0000
Subject: [PATCH 17/73] fix: RingBuf::read_socket without readv reported
 would-block as end of stream

---
 source/cyCore/core/cyc_ring_buf.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index f8a3fe7..446bc7c 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -204,8 +204,7 @@ ssize_t RingBuf::read_socket(socket_t fd, bool extra_buf)
 	while (nwritten != (ssize_t)count)	{
 		ssize_t n = (ssize_t)std::min((ssize_t)(m_end - m_write), (ssize_t)(count - nwritten));
 		ssize_t len = socket_api::read(fd, m_buf + m_write, (ssize_t)n);
-		if (len == 0) return 0; //EOF
-		if (len < 0) return socket_api::is_lasterror_WOULDBLOCK() ? nwritten : len;
+		if (len <= 0) return nwritten > 0 ? nwritten : len; //EOF, would block or error, reported again if some data was read
 
 		m_write += len;
 		nwritten += len;
@@ -220,8 +219,7 @@ ssize_t RingBuf::read_socket(socket_t fd, bool extra_buf)
 	//need read more data
 	if (extra_buf) {
 		ssize_t len = socket_api::read(fd, stack_buf, STACK_BUF_SIZE);
-		if (len == 0) return nwritten; //EOF
-		if (len < 0) return socket_api::is_lasterror_WOULDBLOCK() ? nwritten : len;
+		if (len <= 0) return nwritten > 0 ? nwritten : len;
 		memcpy_into(stack_buf, len);
 		return nwritten + len;
 	}
-- 
2.43.0


From 28cd6d85250cd8646a71389a80215a7f758fc632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:28 +0000
Subject: [PATCH 18/73] fix: Looper used a callback's storage after the
 callback registered events

---
 source/cyEvent/event/cye_looper.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index b31aa53..5af507d 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -287,7 +287,8 @@ void Looper::loop(void)
 			channel_s* c = &(m_channelBuffer[readList[i]]);
 			if (c->on_read == 0 || (c->event & kRead) == 0) continue;
 
-			c->on_read(c->id, c->fd, kRead, c->param);
+			event_callback on_read = c->on_read; //the callback may delete this event or move the channel buffer
+			on_read(c->id, c->fd, kRead, c->param);
 
 			if (is_quit_pending()) break;
 		}
@@ -299,7 +300,8 @@ void Looper::loop(void)
 			channel_s* c = &(m_channelBuffer[writeList[i]]);
 			if (c->on_write == 0 || (c->event & kWrite) == 0) continue;
 
-			c->on_write(c->id, c->fd, kWrite, c->param);
+			event_callback on_write = c->on_write;
+			on_write(c->id, c->fd, kWrite, c->param);
 
 			if (is_quit_pending()) break;
 		}
@@ -334,7 +336,8 @@ void Looper::step(void)
 		channel_s* c = &(m_channelBuffer[readList[i]]);
 		if (c->on_read == 0 || (c->event & kRead) == 0) continue;
 
-		c->on_read(c->id, c->fd, kRead, c->param);
+		event_callback on_read = c->on_read; //the callback may delete this event or move the channel buffer
+		on_read(c->id, c->fd, kRead, c->param);
 
 		if (is_quit_pending()) return;
 	}
@@ -344,7 +347,8 @@ void Looper::step(void)
 		channel_s* c = &(m_channelBuffer[writeList[i]]);
 		if (c->on_write == 0 || (c->event & kWrite) == 0) continue;
 
-		c->on_write(c->id, c->fd, kWrite, c->param);
+		event_callback on_write = c->on_write;
+		on_write(c->id, c->fd, kWrite, c->param);
 
 		if (is_quit_pending()) return;
 	}
-- 
2.43.0


From affb1677b988e0107b8941145f43f11c76532ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:28 +0000
Subject: [PATCH 19/73] fix: a timer callback that deletes its own timer was
 destroyed while running

---
 source/cyEvent/event/cye_looper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index 5af507d..cff94ef 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -428,8 +428,9 @@ void Looper::_on_timer_event_callback(event_id_t id, socket_t fd, event_t event,
 	socket_api::read(fd, &touch, sizeof(touch));
 #endif
 
-	if (timer->on_timer) {
-		timer->on_timer(id, timer->param);
+	timer_callback on_timer = timer->on_timer; //the callback may delete this timer
+	if (on_timer) {
+		on_timer(id, timer->param);
 	}
 }
 
-- 
2.43.0


From 01f3ca4d6c4533f932d9efd2869804bdc319bc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:16 +0000
Subject: [PATCH 20/73] fix: an event registered in a callback was called for
 the readiness of a deleted event

---
 source/cyEvent/event/cye_looper.cpp | 34 +++++++++++++++++++++++++++++
 source/cyEvent/event/cye_looper.h   | 11 ++++++++++
 2 files changed, 45 insertions(+)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index cff94ef..f895f96 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -26,6 +26,7 @@ Looper::Looper()
 	, m_inner_pipe(0)
 	, m_inner_pipe_touched(0)
 	, m_quit_cmd(0)
+	, m_dispatching(false)
 {
 	m_lock = sys_api::mutex_create();
 }
@@ -168,11 +169,40 @@ void Looper::delete_event(event_id_t id)
 		delete timer;
 	}
 	
+	//wait the end of this round
+	if (m_dispatching) {
+		m_deleted_events.push_back(id);
+		return;
+	}
+
 	//remove from active list to free list
 	channel.next = m_free_head;
 	m_free_head = id;
 }
 
+//-------------------------------------------------------------------------------------
+Looper::dispatch_guard::dispatch_guard(Looper* looper)
+	: m_looper(looper)
+{
+	sys_api::auto_mutex lock(m_looper->m_lock);
+	m_looper->m_dispatching = true;
+}
+
+//-------------------------------------------------------------------------------------
+Looper::dispatch_guard::~dispatch_guard()
+{
+	sys_api::auto_mutex lock(m_looper->m_lock);
+	m_looper->m_dispatching = false;
+
+	for (size_t i = 0; i < m_looper->m_deleted_events.size(); i++) {
+		event_id_t id = m_looper->m_deleted_events[i];
+
+		m_looper->m_channelBuffer[id].next = m_looper->m_free_head;
+		m_looper->m_free_head = id;
+	}
+	m_looper->m_deleted_events.clear();
+}
+
 //-------------------------------------------------------------------------------------
 void Looper::disable_read(event_id_t id)
 {
@@ -281,6 +311,8 @@ void Looper::loop(void)
 
 		if (is_quit_pending()) break;
 
+		dispatch_guard guard(this);
+
 		//reactor
 		for (size_t i = 0; i < readList.size(); i++)
 		{
@@ -330,6 +362,8 @@ void Looper::step(void)
 
 	if (is_quit_pending()) return;
 
+	dispatch_guard guard(this);
+
 	//reactor
 	for (size_t i = 0; i < readList.size(); i++)
 	{
diff --git a/source/cyEvent/event/cye_looper.h b/source/cyEvent/event/cye_looper.h
index 16815d6..18d179e 100644
--- a/source/cyEvent/event/cye_looper.h
+++ b/source/cyEvent/event/cye_looper.h
@@ -153,6 +153,17 @@ protected:
 
 private:
 	event_id_t _get_free_slot(void);
+
+	//events deleted while the ready events of a round are dispatched, their slots can't
+	//be used by new events before the end of the round
+	struct dispatch_guard
+	{
+		explicit dispatch_guard(Looper* looper);
+		~dispatch_guard();
+		Looper* m_looper;
+	};
+	bool m_dispatching;
+	channel_list m_deleted_events;
 };
 
 }
-- 
2.43.0


From 60f3785ea2243e6c0c130f9282018fa9718f487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:16 +0000
Subject: [PATCH 21/73] fix: a stop request racing with the end of the loop
 used the destroyed inner pipe

---
 source/cyEvent/event/cye_looper.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index f895f96..44c9e03 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -289,12 +289,15 @@ void Looper::loop(void)
 {
 	assert(sys_api::thread_get_current_id() == m_current_thread);
 
-	//is quit request pushed before loop begin
-	if (is_quit_pending()) return;
-
 	//register inner pipe first
 	Pipe inner_pipe;
-	m_inner_pipe = &inner_pipe;
+	{
+		sys_api::auto_mutex lock(m_lock);
+
+		//is quit request pushed before loop begin
+		if (is_quit_pending()) return;
+		m_inner_pipe = &inner_pipe;
+	}
 	Looper::event_id_t inner_event_id = register_event(m_inner_pipe->get_read_port(), kRead, this, _on_inner_pipe_touched, 0);
 
 	channel_list readList;
@@ -343,6 +346,9 @@ void Looper::loop(void)
 
 	//it's the time to shutdown everything...
 	delete_event(inner_event_id);
+
+	//wait the stop request in other thread
+	sys_api::auto_mutex lock(m_lock);
 	m_inner_pipe = nullptr;
 }
 
@@ -391,6 +397,7 @@ void Looper::step(void)
 //-------------------------------------------------------------------------------------
 void Looper::push_stop_request(void)
 {
+	sys_api::auto_mutex lock(m_lock);
 	m_quit_cmd = 1;
 	_touch_inner_pipe();
 }
-- 
2.43.0


From 71302fff884a6b49d7eee85f8781e2040dea154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:16 +0000
Subject: [PATCH 22/73] fix: select looper called every callback when select
 was interrupted

---
 source/cyEvent/event/internal/cye_looper_select.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/source/cyEvent/event/internal/cye_looper_select.cpp b/source/cyEvent/event/internal/cye_looper_select.cpp
index 9367c00..1aa5f9e 100644
--- a/source/cyEvent/event/internal/cye_looper_select.cpp
+++ b/source/cyEvent/event/internal/cye_looper_select.cpp
@@ -78,10 +78,9 @@ void Looper_select::_poll(
 		sys_api::thread_sleep(1);
 	}
 
-	int err = (ready < -1) ? socket_api::get_lasterror() : 0;
-
-	if (err < 0)
+	if (ready < 0)
 	{
+		int err = socket_api::get_lasterror();
 		if(err==
 #ifdef CY_SYS_WINDOWS
 			WSAENOTSOCK)
-- 
2.43.0


From 19a7a03700c42189e6b105eda5d6397eef9bc98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:16 +0000
Subject: [PATCH 23/73] fix: select looper forgot the events above a re-enabled
 one after its highest was disabled

---
 source/cyEvent/event/internal/cye_looper_select.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyEvent/event/internal/cye_looper_select.cpp b/source/cyEvent/event/internal/cye_looper_select.cpp
index 1aa5f9e..37de685 100644
--- a/source/cyEvent/event/internal/cye_looper_select.cpp
+++ b/source/cyEvent/event/internal/cye_looper_select.cpp
@@ -191,7 +191,7 @@ void Looper_select::_update_channel_add_event(channel_s& channel, event_t event)
 		channel.event |= kRead;
 		_insert_to_active_list(channel);
 #ifndef CY_SYS_WINDOWS
-		if (m_max_fd == INVALID_SOCKET || m_max_fd < fd)  m_max_fd = fd;
+		if (m_max_fd != INVALID_SOCKET && m_max_fd < fd)  m_max_fd = fd; //INVALID_SOCKET: recomputed before poll
 #endif
 	}
 	
@@ -202,7 +202,7 @@ void Looper_select::_update_channel_add_event(channel_s& channel, event_t event)
 		channel.event |= kWrite;
 		_insert_to_active_list(channel);
 #ifndef CY_SYS_WINDOWS
-		if (m_max_fd == INVALID_SOCKET || m_max_fd < fd)  m_max_fd = fd;
+		if (m_max_fd != INVALID_SOCKET && m_max_fd < fd)  m_max_fd = fd; //INVALID_SOCKET: recomputed before poll
 #endif
 	}
 
-- 
2.43.0


From d2a3a53ff5f474ca6af09ca755c2a847130d65b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:16 +0000
Subject: [PATCH 24/73] fix: select looper wrote outside its fd_set for
 descriptors above FD_SETSIZE

---
 source/cyEvent/event/internal/cye_looper_select.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cyEvent/event/internal/cye_looper_select.cpp b/source/cyEvent/event/internal/cye_looper_select.cpp
index 37de685..6700c32 100644
--- a/source/cyEvent/event/internal/cye_looper_select.cpp
+++ b/source/cyEvent/event/internal/cye_looper_select.cpp
@@ -177,7 +177,11 @@ void Looper_select::_update_channel_add_event(channel_s& channel, event_t event)
 	socket_t fd = channel.fd;
 
 	if (((event & kRead) && m_max_read_counts >= FD_SETSIZE)
-		|| ((event & kWrite) && m_max_write_counts >= FD_SETSIZE))
+		|| ((event & kWrite) && m_max_write_counts >= FD_SETSIZE)
+#ifndef CY_SYS_WINDOWS
+		|| fd >= FD_SETSIZE
+#endif
+		)
 	{
 		//log error ,maximum number of descriptors supported by select() is FD_SETSIZE
 		CY_LOG(L_ERROR, "maximum number of descriptors supported by select() is FD_SETSIZE(%d)", FD_SETSIZE);
-- 
2.43.0


From 596036bc4501621bc7f8a10d9dec83d9e9fab4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:44 +0000
Subject: [PATCH 25/73] fix: a message sent while the work thread finished its
 queue stayed there until the next one

---
 source/cyEvent/event/cye_work_thread.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/cyEvent/event/cye_work_thread.cpp b/source/cyEvent/event/cye_work_thread.cpp
index 18c4040..acfed47 100644
--- a/source/cyEvent/event/cye_work_thread.cpp
+++ b/source/cyEvent/event/cye_work_thread.cpp
@@ -84,6 +84,9 @@ void WorkThread::_on_message(void)
 		int8_t dummy;
 		if (m_pipe.read((char*)&dummy, sizeof(dummy)) <= 0) break;
 
+		//set empty flag before reading the queue, a message pushed from now on wakes us up again
+		m_is_queue_empty = true;
+
 		for (;;) {
 			Packet* packet = nullptr;
 			if (!m_message_queue.pop(packet)) break;
@@ -96,9 +99,6 @@ void WorkThread::_on_message(void)
 			Packet::free_packet(packet);
 		}
 	}
-
-	//set empty flag
-	m_is_queue_empty = true;
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 3f2ee73106162539641d691666b646981e07b183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:30 +0000
Subject: [PATCH 26/73] fix: signal_timewait without time-out missed a lit
 signal while another thread held its lock

---
 source/cyCore/core/cyc_system_api.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/source/cyCore/core/cyc_system_api.cpp b/source/cyCore/core/cyc_system_api.cpp
index e440d37..9366664 100644
--- a/source/cyCore/core/cyc_system_api.cpp
+++ b/source/cyCore/core/cyc_system_api.cpp
@@ -394,13 +394,7 @@ bool signal_timewait(signal_t s, int32_t ms)
 	return (WAIT_OBJECT_0 == ::WaitForSingleObject(s, (DWORD)ms));
 #else
 	signal_s* sig = (signal_s*)s;
-	if (ms == 0) {
-		if (EBUSY == pthread_mutex_trylock(&(sig->mutex)))
-			return false;
-	}
-	else {
-		pthread_mutex_lock(&(sig->mutex));
-	}
+	pthread_mutex_lock(&(sig->mutex));
 
 	bool ret = _signal_unlock_wait(sig, ms);
 
-- 
2.43.0


From 36009ce318c93643895edbfe985c7f24ff27374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:58 +0000
Subject: [PATCH 27/73] fix: a read event without data closed the connection

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index a310074..1986345 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -225,7 +225,7 @@ void TcpConnection::_on_socket_read(void)
 		//the connection was closed by peer, close now!
 		_on_socket_close();
 	}
-	else
+	else if (!socket_api::is_lasterror_WOULDBLOCK())
 	{
 		//error!
 		_on_socket_error();
-- 
2.43.0


From 2fc6757c049905a4662a6dd176bcdf2e155d5a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:20 +0000
Subject: [PATCH 28/73] fix: a stop refused in a work thread made every later
 stop do nothing

---
 source/cyNetwork/network/cyn_tcp_server.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index b297889..ff53af7 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -105,8 +105,6 @@ void TcpServer::stop(void)
 {
 	//not running?
 	if (m_running == 0) return;
-	//is shutdown in processing?
-	if (m_shutdown_ing.exchange(1) > 0)return;
 
 	//this function can't run in work thread
 	for (auto work : m_work_thread_pool){
@@ -116,6 +114,9 @@ void TcpServer::stop(void)
 		}
 	}
 
+	//is shutdown in processing?
+	if (m_shutdown_ing.exchange(1) > 0)return;
+
 	//shutdown the the master thread
 	TcpServerMasterThread::ShutdownCmd shutdownCmd;
 	m_master_thread->send_thread_message(TcpServerMasterThread::ShutdownCmd::ID, sizeof(shutdownCmd), (const char*)&shutdownCmd);
-- 
2.43.0


From 64ee06a6b8922d7e3ddf53705aa77f93727abbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:21 +0000
Subject: [PATCH 29/73] fix: a connection closing while the server stopped kept
 its work thread running forever

---
 source/cyNetwork/network/cyn_tcp_server.cpp                  | 1 -
 .../network/internal/cyn_tcp_server_work_thread.cpp          | 5 ++++-
 .../cyNetwork/network/internal/cyn_tcp_server_work_thread.h  | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index ff53af7..d9f6c7b 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -168,7 +168,6 @@ void TcpServer::shutdown_connection(TcpConnectionPtr conn)
 
 	TcpServerWorkThread::CloseConnectionCmd closeConnectionCmd;
 	closeConnectionCmd.conn_id = conn->get_id();
-	closeConnectionCmd.shutdown_ing = m_shutdown_ing;
 	work->send_thread_message(TcpServerWorkThread::CloseConnectionCmd::ID, sizeof(closeConnectionCmd), (const char*)&closeConnectionCmd);
 }
 
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
index 6165ca7..86cef06 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
@@ -12,6 +12,7 @@ namespace cyclone
 TcpServerWorkThread::TcpServerWorkThread(TcpServer* server, int32_t index)
 	: m_server(server)
 	, m_index(index)
+	, m_shutdown_ing(false)
 {
 	//run work thread
 	m_work_thread = new WorkThread();
@@ -141,7 +142,7 @@ void TcpServerWorkThread::_on_workthread_message(Packet* message)
 		}
 
 		//if all connection is shutdown, and server is in shutdown process, quit the loop
-		if (m_connections.empty() && closeConnectionCmd.shutdown_ing > 0) {
+		if (m_connections.empty() && m_shutdown_ing) {
 			//push loop quit command
 			m_work_thread->get_looper()->push_stop_request();
 			return;
@@ -150,6 +151,8 @@ void TcpServerWorkThread::_on_workthread_message(Packet* message)
 	else if (msg_id == ShutdownCmd::ID)
 	{
 		CY_LOG(L_DEBUG, "receive shutdown cmd");
+		m_shutdown_ing = true;
+
 		//all connection is disconnect, just quit the loop
 		if (m_connections.empty()) {
 			//push loop request command
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
index 39b0937..b6c9090 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
@@ -22,7 +22,6 @@ public:
 	{
 		enum { ID = kCloseConnectionCmdID };
 		int32_t conn_id;
-		int32_t shutdown_ing;
 	};
 
 	struct ShutdownCmd
@@ -50,6 +49,7 @@ public: //call by TcpServer Only
 private:
 	TcpServer*		m_server;
 	const int32_t	m_index;
+	bool			m_shutdown_ing;	//shutdown cmd was received
 	WorkThread*		m_work_thread;
 
 	typedef std::unordered_map< int32_t, TcpConnectionPtr > ConnectionMap;
-- 
2.43.0


From 9aff683113e30540ffe3707bbca0a81d2ffd6e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:31 +0000
Subject: [PATCH 30/73] fix: a connection accepted while the server stopped was
 never closed

---
 source/cyNetwork/network/cyn_tcp_server.cpp                 | 6 +++++-
 source/cyNetwork/network/cyn_tcp_server.h                   | 1 +
 .../network/internal/cyn_tcp_server_master_thread.cpp       | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index d9f6c7b..8ece0da 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -120,8 +120,12 @@ void TcpServer::stop(void)
 	//shutdown the the master thread
 	TcpServerMasterThread::ShutdownCmd shutdownCmd;
 	m_master_thread->send_thread_message(TcpServerMasterThread::ShutdownCmd::ID, sizeof(shutdownCmd), (const char*)&shutdownCmd);
+}
 
-	//shutdown all connection
+//-------------------------------------------------------------------------------------
+void TcpServer::_on_accept_stopped(void)
+{
+	//no more new connection, shutdown all connection
 	for (auto work : m_work_thread_pool){
 		work->send_thread_message(TcpServerWorkThread::ShutdownCmd::ID, 0, 0);
 	}
diff --git a/source/cyNetwork/network/cyn_tcp_server.h b/source/cyNetwork/network/cyn_tcp_server.h
index 0dc4c1c..1bb30eb 100644
--- a/source/cyNetwork/network/cyn_tcp_server.h
+++ b/source/cyNetwork/network/cyn_tcp_server.h
@@ -102,6 +102,7 @@ private:
 private:
 	//called by master thread
 	void _on_accept_socket(socket_t fd);
+	void _on_accept_stopped(void);
 
 	friend class TcpServerMasterThread;
 private:
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index 84ab628..d0c2ab1 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -171,6 +171,9 @@ void TcpServerMasterThread::_on_thread_message(Packet* message)
 		}
 		m_acceptor_sockets.clear();
 
+		//now the work threads can be shutdown
+		m_server->_on_accept_stopped();
+
 		//stop looper
 		looper->push_stop_request();
 	}
-- 
2.43.0


From 6b9db77c0b9222d12931982558f803c2450a2fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:15 +0000
Subject: [PATCH 31/73] fix: a block sent in part by the connection's own
 thread could be torn by another thread

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 1986345..45f9481 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -136,8 +136,11 @@ void TcpConnection::_send(const char* buf, size_t len)
 		return;
 	}
 
+	//a block written here in part must be completed before other threads can append theirs
+	sys_api::mutex_lock(m_write_buf_lock);
+
 	//nothing in write buf, send it directly
-	if (!(m_looper->is_write(m_event_id)) && _is_writeBuf_empty())
+	if (!(m_looper->is_write(m_event_id)) && m_write_buf.empty())
 	{
 		nwrote = socket_api::write(m_socket, buf, len);
 		if (nwrote >= 0)
@@ -168,6 +171,12 @@ void TcpConnection::_send(const char* buf, size_t len)
 		}
 	}
 
+	if (!faultError && remaining > 0) {
+		//write to write buffer
+		m_write_buf.memcpy_into(buf + nwrote, remaining);
+	}
+	sys_api::mutex_unlock(m_write_buf_lock);
+
 	//shutdown if socket work with fault
 	if (faultError) {
 		m_looper->disable_all(m_event_id);
@@ -176,12 +185,6 @@ void TcpConnection::_send(const char* buf, size_t len)
 		return;
 	}
 
-	if (remaining > 0) {
-		sys_api::auto_mutex lock(m_write_buf_lock);
-		//write to write buffer
-		m_write_buf.memcpy_into(buf + nwrote, remaining);
-	}
-
 	//enable write event, wait socket ready
 	m_looper->enable_write(m_event_id);
 }
-- 
2.43.0


From c6f54283e3b7a28a8d6e519e18912302fec88782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:05 +0000
Subject: [PATCH 32/73] fix: Looper called copies of the callbacks, which lost
 the state a callback keeps

---
 source/cyEvent/event/cye_looper.cpp | 43 +++++++++++++++++------------
 source/cyEvent/event/cye_looper.h   |  9 ++++--
 2 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index 44c9e03..07a27c1 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -57,8 +57,8 @@ Looper::event_id_t Looper::register_event(socket_t sockfd,
 	channel.param = param;
 	channel.active = false;
 	channel.timer = false;
-	channel.on_read = _on_read;
-	channel.on_write = _on_write;
+	channel.on_read = _shared_callback(_on_read);
+	channel.on_write = _shared_callback(_on_write);
 
 	//update to poll
 	if ((event & kRead) != 0) {
@@ -94,8 +94,8 @@ Looper::event_id_t Looper::register_timer_event(uint32_t milliSeconds,
 	channel.param = timer;
 	channel.active = false;
 	channel.timer = true;
-	channel.on_read = _on_timer_event_callback;
-	channel.on_write = 0;
+	channel.on_read = _shared_callback(_on_timer_event_callback);
+	channel.on_write = nullptr;
 
 #ifdef CY_SYS_WINDOWS
 	channel.fd = timer->pipe.get_read_port();
@@ -166,7 +166,8 @@ void Looper::delete_event(event_id_t id)
 #elif defined(CY_HAVE_TIMERFD)
 		socket_api::close_socket(channel.fd);
 #endif
-		delete timer;
+		//its callback may be running now
+		if (!m_dispatching) delete timer;
 	}
 	
 	//wait the end of this round
@@ -197,7 +198,10 @@ Looper::dispatch_guard::~dispatch_guard()
 	for (size_t i = 0; i < m_looper->m_deleted_events.size(); i++) {
 		event_id_t id = m_looper->m_deleted_events[i];
 
-		m_looper->m_channelBuffer[id].next = m_looper->m_free_head;
+		channel_s& channel = m_looper->m_channelBuffer[id];
+		if (channel.timer) delete (timer_s*)channel.param;
+
+		channel.next = m_looper->m_free_head;
 		m_looper->m_free_head = id;
 	}
 	m_looper->m_deleted_events.clear();
@@ -322,8 +326,8 @@ void Looper::loop(void)
 			channel_s* c = &(m_channelBuffer[readList[i]]);
 			if (c->on_read == 0 || (c->event & kRead) == 0) continue;
 
-			event_callback on_read = c->on_read; //the callback may delete this event or move the channel buffer
-			on_read(c->id, c->fd, kRead, c->param);
+			callback_ptr on_read = c->on_read; //the callback may delete this event or move the channel buffer
+			(*on_read)(c->id, c->fd, kRead, c->param);
 
 			if (is_quit_pending()) break;
 		}
@@ -335,8 +339,8 @@ void Looper::loop(void)
 			channel_s* c = &(m_channelBuffer[writeList[i]]);
 			if (c->on_write == 0 || (c->event & kWrite) == 0) continue;
 
-			event_callback on_write = c->on_write;
-			on_write(c->id, c->fd, kWrite, c->param);
+			callback_ptr on_write = c->on_write;
+			(*on_write)(c->id, c->fd, kWrite, c->param);
 
 			if (is_quit_pending()) break;
 		}
@@ -376,8 +380,8 @@ void Looper::step(void)
 		channel_s* c = &(m_channelBuffer[readList[i]]);
 		if (c->on_read == 0 || (c->event & kRead) == 0) continue;
 
-		event_callback on_read = c->on_read; //the callback may delete this event or move the channel buffer
-		on_read(c->id, c->fd, kRead, c->param);
+		callback_ptr on_read = c->on_read; //the callback may delete this event or move the channel buffer
+		(*on_read)(c->id, c->fd, kRead, c->param);
 
 		if (is_quit_pending()) return;
 	}
@@ -387,8 +391,8 @@ void Looper::step(void)
 		channel_s* c = &(m_channelBuffer[writeList[i]]);
 		if (c->on_write == 0 || (c->event & kWrite) == 0) continue;
 
-		event_callback on_write = c->on_write;
-		on_write(c->id, c->fd, kWrite, c->param);
+		callback_ptr on_write = c->on_write;
+		(*on_write)(c->id, c->fd, kWrite, c->param);
 
 		if (is_quit_pending()) return;
 	}
@@ -402,6 +406,12 @@ void Looper::push_stop_request(void)
 	_touch_inner_pipe();
 }
 
+//-------------------------------------------------------------------------------------
+Looper::callback_ptr Looper::_shared_callback(const event_callback& callback)
+{
+	return callback ? std::make_shared<event_callback>(callback) : callback_ptr();
+}
+
 //-------------------------------------------------------------------------------------
 Looper::event_id_t Looper::_get_free_slot(void)
 {
@@ -469,9 +479,8 @@ void Looper::_on_timer_event_callback(event_id_t id, socket_t fd, event_t event,
 	socket_api::read(fd, &touch, sizeof(touch));
 #endif
 
-	timer_callback on_timer = timer->on_timer; //the callback may delete this timer
-	if (on_timer) {
-		on_timer(id, timer->param);
+	if (timer->on_timer) {
+		timer->on_timer(id, timer->param);
 	}
 }
 
diff --git a/source/cyEvent/event/cye_looper.h b/source/cyEvent/event/cye_looper.h
index 18d179e..de50709 100644
--- a/source/cyEvent/event/cye_looper.h
+++ b/source/cyEvent/event/cye_looper.h
@@ -6,6 +6,7 @@ Copyright(C) thecodeway.com
 #include <cyclone_config.h>
 #include <cy_core.h>
 #include <event/cye_pipe.h>
+#include <memory>
 
 namespace cyclone
 {
@@ -87,6 +88,10 @@ public:
 protected:
 	enum { DEFAULT_CHANNEL_BUF_COUNTS = 16 };
 
+	//a running callback is never moved, copied or destroyed
+	typedef std::shared_ptr< event_callback > callback_ptr;
+	static callback_ptr _shared_callback(const event_callback& callback);
+
 	struct channel_s
 	{
 		event_id_t id;
@@ -96,8 +101,8 @@ protected:
 		bool active;
 		bool timer;
 
-		event_callback on_read;
-		event_callback on_write;
+		callback_ptr on_read;
+		callback_ptr on_write;
 
 		event_id_t next;
 		event_id_t prev;	//only used in select looper
-- 
2.43.0


From c6688cdae6669d0c817140e2f85ca7ca654c7ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:02 +0000
Subject: [PATCH 33/73] fix: sending to a connection reset by its peer killed
 the process with SIGPIPE

---
 .../cyNetwork/network/cyn_tcp_connection.cpp  | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 45f9481..3bd1002 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -6,9 +6,27 @@ Copyright(C) thecodeway.com
 #include <cy_network.h>
 #include "cyn_tcp_connection.h"
 
+#ifndef CY_SYS_WINDOWS
+#include <signal.h>
+#endif
+
 namespace cyclone
 {
 
+#ifndef CY_SYS_WINDOWS
+//-------------------------------------------------------------------------------------
+// writing to a connection which the peer has reset is an error of this connection, the 
+// default action of SIGPIPE would end the process
+static bool _ignore_sigpipe(void)
+{
+	struct sigaction action;
+	if (sigaction(SIGPIPE, nullptr, &action) == 0 && (action.sa_flags & SA_SIGINFO) == 0 && action.sa_handler == SIG_DFL) {
+		signal(SIGPIPE, SIG_IGN);
+	}
+	return true;
+}
+#endif
+
 //-------------------------------------------------------------------------------------
 TcpConnection::TcpConnection(int32_t id, socket_t sfd, Looper* looper, Owner* owner)
 	: m_id(id)
@@ -29,6 +47,11 @@ TcpConnection::TcpConnection(int32_t id, socket_t sfd, Looper* looper, Owner* ow
 	, m_read_statistics(nullptr)
 	, m_write_statistics(nullptr)
 {
+#ifndef CY_SYS_WINDOWS
+	static const bool sigpipe_ignored = _ignore_sigpipe();
+	(void)sigpipe_ignored;
+#endif
+
 	//set socket to non-block and close-onexec
 	socket_api::set_nonblock(sfd, true);
 	socket_api::set_close_onexec(sfd, true);
-- 
2.43.0


From f069408e8ee5253344edec8698a973efe16ee3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:07 +0000
Subject: [PATCH 34/73] fix: sending from another thread used the lock of a
 connection closed meanwhile

---
 .../cyNetwork/network/cyn_tcp_connection.cpp  | 40 ++++++++++++-------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 3bd1002..dabc3e9 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -97,7 +97,10 @@ TcpConnection::~TcpConnection()
 	assert(get_state()==kDisconnected);
 	assert(m_socket == INVALID_SOCKET);
 	assert(m_event_id == Looper::INVALID_EVENT_ID);
-	assert(m_write_buf_lock == nullptr);
+
+	//destroy write buf lock
+	sys_api::mutex_destroy(m_write_buf_lock);
+	m_write_buf_lock = nullptr;
 }
 
 //-------------------------------------------------------------------------------------
@@ -111,12 +114,23 @@ void TcpConnection::send(const char* buf, size_t len)
 {
 	if (buf == nullptr || len == 0) return;
 
+	//the looper of a closed connection may be destroyed already
+	if (get_state() == kDisconnected)
+	{
+		//log error, give up send message
+		CY_LOG(L_ERROR, "send message state error, state=%d", get_state());
+		return;
+	}
+
 	if (sys_api::thread_get_current_id() == m_looper->get_thread_id())
 	{
 		_send(buf, len);
 	}
 	else
 	{
+		//write to output buf
+		sys_api::auto_mutex lock(m_write_buf_lock);
+
 		if (get_state() != kConnected)
 		{
 			//log error, give up send message
@@ -124,9 +138,6 @@ void TcpConnection::send(const char* buf, size_t len)
 			return;
 		}
 
-		//write to output buf
-		sys_api::auto_mutex lock(m_write_buf_lock);
-
 		//write to write buffer
 		m_write_buf.memcpy_into(buf, len);
 
@@ -308,13 +319,18 @@ void TcpConnection::_on_socket_close(void)
 
 	TcpConnectionPtr thisPtr = shared_from_this();
 
-	//disable all event
-	m_state = kDisconnected;
+	{
+		//another thread may be sending now
+		sys_api::auto_mutex lock(m_write_buf_lock);
+
+		//disable all event
+		m_state = kDisconnected;
+
+		//delete looper event
+		m_looper->delete_event(m_event_id);
+		m_event_id = Looper::INVALID_EVENT_ID;
+	}
 
-	//delete looper event
-	m_looper->delete_event(m_event_id);
-	m_event_id = Looper::INVALID_EVENT_ID;
-	
 	//logic callback
 	if (m_on_close) {
 		m_on_close(thisPtr);
@@ -327,10 +343,6 @@ void TcpConnection::_on_socket_close(void)
 	//close socket
 	socket_api::close_socket(m_socket);
 	m_socket = INVALID_SOCKET;
-
-	//destroy write buf lock
-	sys_api::mutex_destroy(m_write_buf_lock);
-	m_write_buf_lock = nullptr;
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 4576c47dad7adf98e02b5ac29822cbe0df658513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:07 +0000
Subject: [PATCH 35/73] fix: a failed connection was never closed when another
 thread sent data at the same time

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index dabc3e9..551e3f3 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -211,10 +211,9 @@ void TcpConnection::_send(const char* buf, size_t len)
 	}
 	sys_api::mutex_unlock(m_write_buf_lock);
 
-	//shutdown if socket work with fault
+	//close it if socket work with fault, don't wait data other threads are sending
 	if (faultError) {
-		m_looper->disable_all(m_event_id);
-		shutdown();
+		_on_socket_error();
 
 		return;
 	}
-- 
2.43.0


From 06c65f535491aaa767909ec1b7fa82ffeda1edb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:18 +0000
Subject: [PATCH 36/73] fix: stop called when a work thread had ended already
 used its destroyed looper

---
 .../cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp | 4 +++-
 .../cyNetwork/network/internal/cyn_tcp_server_work_thread.h   | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
index 86cef06..4acaeea 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
@@ -13,6 +13,7 @@ TcpServerWorkThread::TcpServerWorkThread(TcpServer* server, int32_t index)
 	: m_server(server)
 	, m_index(index)
 	, m_shutdown_ing(false)
+	, m_thread_id(thread_id_t())
 {
 	//run work thread
 	m_work_thread = new WorkThread();
@@ -55,7 +56,7 @@ void TcpServerWorkThread::send_thread_message(const Packet** message, int32_t co
 //-------------------------------------------------------------------------------------
 bool TcpServerWorkThread::is_in_workthread(void) const
 {
-	return sys_api::thread_get_current_id() == m_work_thread->get_looper()->get_thread_id();
+	return sys_api::thread_get_current_id() == m_thread_id.load();
 }
 
 //-------------------------------------------------------------------------------------
@@ -72,6 +73,7 @@ TcpConnectionPtr TcpServerWorkThread::get_connection(int32_t connection_id)
 bool TcpServerWorkThread::_on_workthread_start(void)
 {
 	CY_LOG(L_INFO, "Tcp work thread %d start...", m_index);
+	m_thread_id = sys_api::thread_get_current_id();
 
 	if (m_server->m_listener.on_work_thread_start) {
 		m_server->m_listener.on_work_thread_start(m_server, get_index(), m_work_thread->get_looper());
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
index b6c9090..576c568 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
@@ -50,6 +50,7 @@ private:
 	TcpServer*		m_server;
 	const int32_t	m_index;
 	bool			m_shutdown_ing;	//shutdown cmd was received
+	std::atomic<thread_id_t>	m_thread_id;	//valid after the thread (and its looper) ended
 	WorkThread*		m_work_thread;
 
 	typedef std::unordered_map< int32_t, TcpConnectionPtr > ConnectionMap;
-- 
2.43.0


From 5a66e83ef2f155bd66d184eff8a7c39a789bafbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:55 +0000
Subject: [PATCH 37/73] fix: join deleted a work thread object while other work
 threads could use it

---
 source/cyNetwork/network/cyn_tcp_server.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index 8ece0da..dba809d 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -157,6 +157,10 @@ void TcpServer::join(void)
 	//wait all thread quit
 	for (auto work : m_work_thread_pool) {
 		work->join();
+	}
+
+	//the last work thread may use the others
+	for (auto work : m_work_thread_pool) {
 		delete work;
 	}
 	m_work_thread_pool.clear();
-- 
2.43.0


From d5d4456d72bbd48380cc80910eb5ac4b31a2eba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:54 +0000
Subject: [PATCH 38/73] fix: a TcpClient destroyed while it was connecting
 leaked its socket

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 3eccaf8..b0f9fcb 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -48,6 +48,11 @@ TcpClient::~TcpClient()
 	if (m_connection) {
 		assert(m_connection->get_state() == TcpConnection::kDisconnected);
 	}
+	else if (m_socket != INVALID_SOCKET) {
+		//still connecting
+		socket_api::close_socket(m_socket);
+		m_socket = INVALID_SOCKET;
+	}
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 5ec5fbd5bc38bd9e3ff843a893eac229f82c40f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:17 +0000
Subject: [PATCH 39/73] fix: an attempt that failed at once left its socket
 open and was reported as a success later

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index b0f9fcb..0783803 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -84,6 +84,10 @@ bool TcpClient::connect(const Address& addr)
 	if (!socket_api::connect(m_socket, addr.get_sockaddr_in()))
 	{
 		CY_LOG(L_ERROR, "connect to server error, errno=%d", socket_api::get_lasterror());
+
+		RELEASE_EVENT(m_looper, m_socket_event_id);
+		socket_api::close_socket(m_socket);
+		m_socket = INVALID_SOCKET;
 		return false;
 	}
 
-- 
2.43.0


From 2d7e5dedab316d3aee4c2aeb92352fa94de5d55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:46 +0000
Subject: [PATCH 40/73] fix: disconnecting, reconnecting or releasing a
 TcpClient inside its failure callback crashed

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 19 ++++++++++++++++---
 source/cyNetwork/network/cyn_tcp_client.h   |  1 +
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 0783803..d28340e 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -20,6 +20,7 @@ TcpClient::TcpClient(Looper* looper, void* param, int id)
 	, m_socket(INVALID_SOCKET)
 	, m_socket_event_id(Looper::INVALID_EVENT_ID)
 	, m_retry_timer_id(Looper::INVALID_EVENT_ID)
+	, m_attempt(0)
 	, m_looper(looper)
 	, m_param(param)
 	, m_connection(nullptr)
@@ -61,6 +62,8 @@ bool TcpClient::connect(const Address& addr)
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
 	assert(m_socket == INVALID_SOCKET);
 
+	m_attempt++;
+
 	sys_api::auto_mutex lock(m_connection_lock);
 
 	//create socket
@@ -110,13 +113,19 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 	assert(m_connection == nullptr);
 
 	if (timeout || socket_api::get_socket_error(m_socket) != 0) {
+		//the callback may release or disconnect this client
+		TcpClientPtr thisPtr = shared_from_this();
+		uint32_t attempt = m_attempt;
+
 		//logic callback
 		uint32_t retry_sleep_ms = 0;
 		if (m_listener.on_connected) {
 			retry_sleep_ms = m_listener.on_connected(shared_from_this(), nullptr, false);
 		}
 		CY_LOG(L_DEBUG, "connect to %s:%d failed! ", m_serverAddr.get_ip(), m_serverAddr.get_port());
-		_abort_connect(retry_sleep_ms);
+		if (attempt == m_attempt) {
+			_abort_connect(retry_sleep_ms);
+		}
 	}
 	else {
 		//connect success!
@@ -180,6 +189,7 @@ void TcpClient::disconnect(void)
 {
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
 	m_sendCache.reset();
+	m_attempt++;
 	switch (get_connection_state())
 	{
 	case TcpConnection::kDisconnected:
@@ -209,10 +219,13 @@ void TcpClient::_on_retry_connect_timer(Looper::event_id_t id)
 	if (!connect(m_serverAddr)) {
 		//failed at once!, logic callback
 		if (m_listener.on_connected) {
-			uint32_t retry_sleep_ms = m_listener.on_connected(shared_from_this(), nullptr, false);
+			//the callback may release or disconnect this client
+			TcpClientPtr thisPtr = shared_from_this();
+			uint32_t attempt = m_attempt;
+			uint32_t retry_sleep_ms = m_listener.on_connected(thisPtr, nullptr, false);
 
 			//retry connection?
-			if (retry_sleep_ms>0) {
+			if (attempt == m_attempt && retry_sleep_ms>0) {
 				m_retry_timer_id = m_looper->register_timer_event(retry_sleep_ms, this,
 					std::bind(&TcpClient::_on_retry_connect_timer, this, std::placeholders::_1));
 			}
diff --git a/source/cyNetwork/network/cyn_tcp_client.h b/source/cyNetwork/network/cyn_tcp_client.h
index f84ed62..ad81838 100644
--- a/source/cyNetwork/network/cyn_tcp_client.h
+++ b/source/cyNetwork/network/cyn_tcp_client.h
@@ -48,6 +48,7 @@ private:
 	socket_t m_socket;
 	Looper::event_id_t m_socket_event_id;
 	Looper::event_id_t m_retry_timer_id;
+	uint32_t m_attempt;		//changed by connect() and disconnect()
 
 	Address	 m_serverAddr;
 	Looper*	m_looper;
-- 
2.43.0


From 3375004e27c23c06f46944b0830d029b48f71b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:07 +0000
Subject: [PATCH 41/73] fix: disconnect did not cancel the pending retry of a
 TcpClient

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index d28340e..b3d318d 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -190,6 +190,7 @@ void TcpClient::disconnect(void)
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
 	m_sendCache.reset();
 	m_attempt++;
+	RELEASE_EVENT(m_looper, m_retry_timer_id);
 	switch (get_connection_state())
 	{
 	case TcpConnection::kDisconnected:
-- 
2.43.0


From b8eae972baec7881aeff83c768f89055ab9a4dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:49 +0000
Subject: [PATCH 42/73] fix: a TcpClient whose cached data could not be sent
 called on_close before on_connected

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 59 +++++++++++++--------
 source/cyNetwork/network/cyn_tcp_client.h   |  1 +
 2 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index b3d318d..760686f 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -113,19 +113,7 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 	assert(m_connection == nullptr);
 
 	if (timeout || socket_api::get_socket_error(m_socket) != 0) {
-		//the callback may release or disconnect this client
-		TcpClientPtr thisPtr = shared_from_this();
-		uint32_t attempt = m_attempt;
-
-		//logic callback
-		uint32_t retry_sleep_ms = 0;
-		if (m_listener.on_connected) {
-			retry_sleep_ms = m_listener.on_connected(shared_from_this(), nullptr, false);
-		}
-		CY_LOG(L_DEBUG, "connect to %s:%d failed! ", m_serverAddr.get_ip(), m_serverAddr.get_port());
-		if (attempt == m_attempt) {
-			_abort_connect(retry_sleep_ms);
-		}
+		_on_connect_failed();
 	}
 	else {
 		//connect success!
@@ -144,6 +132,20 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 			});
 		}
 
+		//send cached message
+		if (!m_sendCache.empty()) {
+			m_connection->send((const char*)m_sendCache.normalize(), m_sendCache.size());
+
+			//broken already, the server never got the message
+			if (m_connection->get_state() == TcpConnection::kDisconnected) {
+				m_connection = nullptr;
+				m_socket = INVALID_SOCKET;
+				_on_connect_failed();
+				return;
+			}
+			m_sendCache.reset();
+		}
+
 		if(m_listener.on_close) {
 			m_connection->set_on_close([this](TcpConnectionPtr conn) {
 				CY_LOG(L_DEBUG, "disconnect from %s:%d", m_serverAddr.get_ip(), m_serverAddr.get_port());
@@ -151,11 +153,6 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 			});
 		}
 
-		//send cached message
-		if (!m_sendCache.empty()) {
-			m_connection->send((const char*)m_sendCache.normalize(), m_sendCache.size());
-			m_sendCache.reset();
-		}
 		//logic callback
 		if (m_listener.on_connected) {
 			m_listener.on_connected(shared_from_this(), m_connection, true);
@@ -163,18 +160,38 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 	}
 }
 
+//-------------------------------------------------------------------------------------
+void TcpClient::_on_connect_failed(void)
+{
+	//the callback may release or disconnect this client
+	TcpClientPtr thisPtr = shared_from_this();
+	uint32_t attempt = m_attempt;
+
+	//logic callback
+	uint32_t retry_sleep_ms = 0;
+	if (m_listener.on_connected) {
+		retry_sleep_ms = m_listener.on_connected(thisPtr, nullptr, false);
+	}
+	CY_LOG(L_DEBUG, "connect to %s:%d failed! ", m_serverAddr.get_ip(), m_serverAddr.get_port());
+	if (attempt == m_attempt) {
+		_abort_connect(retry_sleep_ms);
+	}
+}
+
 //-------------------------------------------------------------------------------------
 void TcpClient::_abort_connect(uint32_t retry_sleep_ms)
 {
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
-	assert(get_connection_state() == TcpConnection::kConnecting);
+	assert(m_connection == nullptr);
 
 	RELEASE_EVENT(m_looper, m_socket_event_id);
 	RELEASE_EVENT(m_looper, m_retry_timer_id);
 
 	//close current socket
-	socket_api::close_socket(m_socket);
-	m_socket = INVALID_SOCKET;
+	if (m_socket != INVALID_SOCKET) {
+		socket_api::close_socket(m_socket);
+		m_socket = INVALID_SOCKET;
+	}
 
 	if (retry_sleep_ms>0) {
 		//retry connection? create retry the timer
diff --git a/source/cyNetwork/network/cyn_tcp_client.h b/source/cyNetwork/network/cyn_tcp_client.h
index ad81838..ea11422 100644
--- a/source/cyNetwork/network/cyn_tcp_client.h
+++ b/source/cyNetwork/network/cyn_tcp_client.h
@@ -64,6 +64,7 @@ private:
 
 private:
 	void _on_connect_status_changed(bool timeout);
+	void _on_connect_failed(void);
 	void _abort_connect(uint32_t retry_sleep_ms);
 
 public:
-- 
2.43.0


From a3c24c29610fe1af1a7c2cac9987e5925aff8ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:35 +0000
Subject: [PATCH 43/73] fix: connecting a TcpClient again after its connection
 closed, or while a retry was pending, crashed

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 35 +++++++++++++++++----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 760686f..7704d62 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -60,12 +60,19 @@ TcpClient::~TcpClient()
 bool TcpClient::connect(const Address& addr)
 {
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
-	assert(m_socket == INVALID_SOCKET);
 
 	m_attempt++;
+	RELEASE_EVENT(m_looper, m_retry_timer_id);
 
 	sys_api::auto_mutex lock(m_connection_lock);
 
+	//the former connection is closed already
+	if (m_connection && m_connection->get_state() == TcpConnection::kDisconnected) {
+		m_connection = nullptr;
+		m_socket = INVALID_SOCKET;
+	}
+	assert(m_socket == INVALID_SOCKET);
+
 	//create socket
 	m_socket = socket_api::create_socket();
 	//set socket to non-block and close-onexec
@@ -122,7 +129,10 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 		RELEASE_EVENT(m_looper, m_socket_event_id);
 
 		//established the connection
-		m_connection = std::make_shared<TcpConnection>(m_id, m_socket, m_looper, this);
+		{
+			sys_api::auto_mutex lock(m_connection_lock);
+			m_connection = std::make_shared<TcpConnection>(m_id, m_socket, m_looper, this);
+		}
 		CY_LOG(L_DEBUG, "connect to %s:%d success", m_serverAddr.get_ip(), m_serverAddr.get_port());
 
 		//bind callback functions
@@ -138,8 +148,11 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 
 			//broken already, the server never got the message
 			if (m_connection->get_state() == TcpConnection::kDisconnected) {
-				m_connection = nullptr;
-				m_socket = INVALID_SOCKET;
+				{
+					sys_api::auto_mutex lock(m_connection_lock);
+					m_connection = nullptr;
+					m_socket = INVALID_SOCKET;
+				}
 				_on_connect_failed();
 				return;
 			}
@@ -262,7 +275,17 @@ void TcpClient::_on_socket_read_write(void)
 //-------------------------------------------------------------------------------------
 void TcpClient::send(const char* buf, size_t len)
 {
-	switch (get_connection_state())
+	TcpConnectionPtr connection;
+	TcpConnection::State state;
+	{
+		//the connection may be replaced by connect()
+		sys_api::auto_mutex lock(m_connection_lock);
+		connection = m_connection;
+		state = m_connection ? m_connection->get_state() :
+			((m_socket == INVALID_SOCKET) ? TcpConnection::kDisconnected : TcpConnection::kConnecting);
+	}
+
+	switch (state)
 	{
 	case TcpConnection::kConnecting:
 	{
@@ -272,7 +295,7 @@ void TcpClient::send(const char* buf, size_t len)
 		break;
 	case TcpConnection::kConnected:
 	{
-		m_connection->send(buf, len);
+		connection->send(buf, len);
 	}
 		break;
 	default:
-- 
2.43.0


From 8cf605c63ac5d77969f980d5de8062d5c0848949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:04 +0000
Subject: [PATCH 44/73] fix: a connection closed and released inside its
 send-complete callback was used afterwards

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 551e3f3..90a5e71 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -299,9 +299,10 @@ void TcpConnection::_on_socket_write(void)
 		m_looper->disable_write(m_event_id);
 	}
 
-	//write complete
+	//write complete, the callback may release this connection
+	TcpConnectionPtr thisPtr = shared_from_this();
 	if (m_on_send_complete) {
-		m_on_send_complete(this->shared_from_this());
+		m_on_send_complete(thisPtr);
 	}
 
 	//disconnecting? this is the last message send to client, we can shut it down again
-- 
2.43.0


From c1d8d11e1b21e5c621a30180717d4ffe2ef71f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:29 +0000
Subject: [PATCH 45/73] fix: socks5 closed a client whose handshake or request
 arrived in more than one piece

---
 samples/socks5/s5_main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/samples/socks5/s5_main.cpp b/samples/socks5/s5_main.cpp
index 325e8cf..a7972ee 100644
--- a/samples/socks5/s5_main.cpp
+++ b/samples/socks5/s5_main.cpp
@@ -221,6 +221,7 @@ private:
 		{
 			//handshake
 			int32_t s5_ret = s5_get_handshake(inputBuf);
+			if (s5_ret == S5ERR_NEED_MORE_DATA) return; //wait the rest
 			if (s5_ret != S5ERR_SUCCESS) {
 				CY_LOG(L_WARN, "tunnel[%d]: handshake error, code=%d", conn->get_id(), s5_ret);
 				server->shutdown_connection(conn);
@@ -242,6 +243,7 @@ private:
 			Address address;
 			std::string domain;
 			int32_t s5_ret = s5_get_connect_request(inputBuf, address, domain);
+			if (s5_ret == S5ERR_NEED_MORE_DATA) return; //wait the rest
 			if (s5_ret != S5ERR_SUCCESS) {
 				CY_LOG(L_WARN, "get connect request error, code=%d", s5_ret);
 				server->shutdown_connection(conn);
-- 
2.43.0


From 4d5aeddc12a06be397f9e3dd96a02b0afed0d7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:52 +0000
Subject: [PATCH 46/73] fix: socks5 destroyed a tunnel whose remote connection
 was still flushing or calling it

---
 samples/socks5/s5_main.cpp | 73 +++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 28 deletions(-)

diff --git a/samples/socks5/s5_main.cpp b/samples/socks5/s5_main.cpp
index a7972ee..571ee44 100644
--- a/samples/socks5/s5_main.cpp
+++ b/samples/socks5/s5_main.cpp
@@ -34,7 +34,7 @@ enum S5State {
 };
 
 ////////////////////////////////////////////////////////////////////////////////////////////
-class S5Tunnel
+class S5Tunnel : public std::enable_shared_from_this<S5Tunnel>
 {
 public:
 	void set_state(S5State state) { m_state = state; }
@@ -43,58 +43,80 @@ public:
 	void connect(const Address& address){
 		m_address = address;
         m_remoteConnection = std::make_shared<TcpClient>(m_looper, this);
-		m_remoteConnection->m_listener.on_connected = std::bind(&S5Tunnel::onServerConnected, this, _2, _3);
-		m_remoteConnection->m_listener.on_message = std::bind(&S5Tunnel::onServerMessage, this, _2);
-		m_remoteConnection->m_listener.on_close = std::bind(&S5Tunnel::onServerClose, this);
+		//the tunnel must live until the remote connection closed
+		std::shared_ptr<S5Tunnel> thisPtr = shared_from_this();
+		m_remoteConnection->m_listener.on_connected = std::bind(&S5Tunnel::onServerConnected, thisPtr, _2, _3);
+		m_remoteConnection->m_listener.on_message = std::bind(&S5Tunnel::onServerMessage, thisPtr, _2);
+		m_remoteConnection->m_listener.on_close = std::bind(&S5Tunnel::onServerClose, thisPtr);
 
 		m_remoteConnection->connect(address);
 	}
 
 	void forword_up(RingBuf& inputBuf) {
-		m_remoteConnection->send((const char*)inputBuf.normalize(), inputBuf.size());
+		if (m_remoteConnection)
+			m_remoteConnection->send((const char*)inputBuf.normalize(), inputBuf.size());
 		inputBuf.reset();
 	}
 
+	//local connection closed
 	void disconnect(void) {
-		if (m_remoteConnection)
-			m_remoteConnection->disconnect();
+		m_state = S5_DISCONNECTED;
+		m_localConnection = nullptr;
+
+		TcpClientPtr remoteConnection = m_remoteConnection;
+		if (remoteConnection) {
+			remoteConnection->disconnect();
+			if (remoteConnection->get_connection_state() == TcpConnection::kDisconnected)
+				m_remoteConnection = nullptr;
+		}
 	}
 private:
 	uint32_t onServerConnected(TcpConnectionPtr conn, bool success) 
 	{
 		assert(get_state()== S5_CONNECTING);
+		int32_t conn_id = m_localConnection->get_id();
 		RingBuf outputBuf;
 
-		//send act to client
-		s5_build_connect_act(outputBuf, success ? 0 : 0X04, m_address);
-		m_localConnection->send((const char*)outputBuf.normalize(), outputBuf.size());
-
 		//set next state
 		if (success) {
 			m_state = S5_CONNECTED;
 			CY_LOG(L_INFO, "tunnel[%d]: connect to \"%s:%d\" OK",
-				m_localConnection->get_id(), m_address.get_ip(), m_address.get_port());
+				conn_id, m_address.get_ip(), m_address.get_port());
 		}
 		else {
 			m_state = S5_DISCONNECTED;
-			m_localServer->shutdown_connection(m_localConnection);
+			m_remoteConnection = nullptr;
 			CY_LOG(L_WARN, "tunnel[%d]: connect to \"%s:%d\" FAILED",
-				m_localConnection->get_id(), m_address.get_ip(), m_address.get_port());
+				conn_id, m_address.get_ip(), m_address.get_port());
 		}
+
+		//send act to client(the local connection may be closed by this)
+		s5_build_connect_act(outputBuf, success ? 0 : 0X04, m_address);
+		m_localConnection->send((const char*)outputBuf.normalize(), outputBuf.size());
+
+		if (!success) shutdown_local();
 		return 0;
 	}
 
 	void onServerMessage(TcpConnectionPtr conn) 
 	{
 		RingBuf& buf = conn->get_input_buf();
-		m_localConnection->send((const char*)buf.normalize(), buf.size());
+		if (m_localConnection)
+			m_localConnection->send((const char*)buf.normalize(), buf.size());
 		buf.reset();
 	}
 
 	void onServerClose(void) 
 	{
 		m_state = S5_DISCONNECTED;
-		m_localServer->shutdown_connection(m_localConnection);
+		m_remoteConnection = nullptr;
+		shutdown_local();
+	}
+
+	void shutdown_local(void)
+	{
+		if (m_localConnection)
+			m_localServer->shutdown_connection(m_localConnection);
 	}
 
 private:
@@ -114,12 +136,6 @@ public:
 		, m_localConnection(localConnection)
 	{
 	}
-	~S5Tunnel() {
-		if (m_remoteConnection) {
-            assert(m_remoteConnection.use_count()==1);
-			m_remoteConnection = nullptr;
-		}
-	}
 };
 
 ////////////////////////////////////////////////////////////////////////////////////////////
@@ -131,24 +147,25 @@ public:
 		m_localServer = localServer;
 	}
 	void add_new_tunnel(TcpConnectionPtr conn) {
-		m_tunnelMap.insert({ conn->get_id(), S5Tunnel(m_localServer, m_looper, conn)});
+		m_tunnelMap.insert({ conn->get_id(), std::make_shared<S5Tunnel>(m_localServer, m_looper, conn)});
 	}
-	S5Tunnel* get_tunnel(int32_t conn_id) {
+	std::shared_ptr<S5Tunnel> get_tunnel(int32_t conn_id) {
 		auto it = m_tunnelMap.find(conn_id);
 		if (it == m_tunnelMap.end()) return nullptr;
 
-		return &(it->second);
+		return it->second;
 	}
 	void close_tunnel(int32_t conn_id) {
 		auto it = m_tunnelMap.find(conn_id);
 		if (it == m_tunnelMap.end()) return;
 
-		it->second.disconnect();
+		std::shared_ptr<S5Tunnel> tunnel = it->second;
 		m_tunnelMap.erase(it);
+		tunnel->disconnect();
 	}
 
 private:
-	typedef std::map<int32_t, S5Tunnel> TcpTunnelMap;
+	typedef std::map<int32_t, std::shared_ptr<S5Tunnel>> TcpTunnelMap;
 
 	TcpTunnelMap m_tunnelMap;
 	Looper* m_looper;
@@ -208,7 +225,7 @@ private:
 		RingBuf& inputBuf = conn->get_input_buf();
 
 		//find tunnel
-		S5Tunnel* tunnel = threadContext.get_tunnel(conn->get_id());
+		std::shared_ptr<S5Tunnel> tunnel = threadContext.get_tunnel(conn->get_id());
 		assert(tunnel != nullptr);
 		if (tunnel == nullptr) {
 			server->shutdown_connection(conn);
-- 
2.43.0


From c1a9a60df4c0af29c9727d11b56bf967586113cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:52 +0000
Subject: [PATCH 47/73] fix: socks5 never answered when connecting to the
 target failed at once

---
 samples/socks5/s5_main.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/samples/socks5/s5_main.cpp b/samples/socks5/s5_main.cpp
index 571ee44..e0685c8 100644
--- a/samples/socks5/s5_main.cpp
+++ b/samples/socks5/s5_main.cpp
@@ -49,7 +49,10 @@ public:
 		m_remoteConnection->m_listener.on_message = std::bind(&S5Tunnel::onServerMessage, thisPtr, _2);
 		m_remoteConnection->m_listener.on_close = std::bind(&S5Tunnel::onServerClose, thisPtr);
 
-		m_remoteConnection->connect(address);
+		if (!m_remoteConnection->connect(address)) {
+			//failed at once
+			onServerConnected(nullptr, false);
+		}
 	}
 
 	void forword_up(RingBuf& inputBuf) {
-- 
2.43.0


From 6feff00cd7c5e66ffdd4dfde3a858f1a1acdc4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:18 +0000
Subject: [PATCH 48/73] fix: relay_server lost the cipher chain when data of a
 closed session arrived

---
 samples/relay/relay_server.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/samples/relay/relay_server.cpp b/samples/relay/relay_server.cpp
index d966b73..a7b4718 100644
--- a/samples/relay/relay_server.cpp
+++ b/samples/relay/relay_server.cpp
@@ -307,6 +307,13 @@ private:
 				RelayForwardMsg forwardMsg;
 				memcpy(&forwardMsg, packet.get_packet_content(), sizeof(forwardMsg));
 
+				//decrypt(even the session is closed already, the cipher chain must go on)
+				uint8_t* buf = (uint8_t*)packet.get_packet_content() + sizeof(RelayForwardMsg);
+				if (m_encryptMode)
+				{
+					pipe->m_decrypt->decrypt(buf, buf, packet.get_packet_size() - sizeof(RelayForwardMsg));
+				}
+
 				int32_t id = forwardMsg.id;
 				auto it = pipe->m_relaySessionMap.find(id);
 				if (it == pipe->m_relaySessionMap.end()) {
@@ -322,13 +329,6 @@ private:
 					break;
 				}
 
-				//decrypt and send
-				uint8_t* buf = (uint8_t*)packet.get_packet_content() + sizeof(RelayForwardMsg);
-				if (m_encryptMode)
-				{
-					pipe->m_decrypt->decrypt(buf, buf, packet.get_packet_size() - sizeof(RelayForwardMsg));
-				}
-
 				if (m_enable_statistics) {
 					m_up_total += forwardMsg.size;
 					m_up_statistics.push(forwardMsg.size);
-- 
2.43.0


From cb991d244b2a047d2d38aedde0d36b33146228cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:27 +0000
Subject: [PATCH 49/73] fix: relay_server destroyed sessions that were still
 flushing, and crashed when the target refused or sent after the client left

---
 samples/relay/relay_server.cpp | 105 ++++++++++++---------------------
 1 file changed, 39 insertions(+), 66 deletions(-)

diff --git a/samples/relay/relay_server.cpp b/samples/relay/relay_server.cpp
index a7b4718..f6a6d38 100644
--- a/samples/relay/relay_server.cpp
+++ b/samples/relay/relay_server.cpp
@@ -53,9 +53,19 @@ public:
 	~RelaySession()
 	{
 		assert(m_upState==kDisconnected);
-		if (m_upClient) {
-			assert(m_upClient->get_connection_state() == TcpConnection::kDisconnected);
-            m_upClient = nullptr;
+	}
+
+	//the session will be kept by the listener of the client until the connection closed
+	void disconnect(void)
+	{
+		TcpClientPtr upClient = m_upClient;
+		if (!upClient) return;
+
+		m_upState = kDisconnecting;
+		upClient->disconnect();
+		if (upClient->get_connection_state() == TcpConnection::kDisconnected) {
+			m_upState = kDisconnected;
+			m_upClient = nullptr;
 		}
 	}
 };
@@ -265,11 +275,12 @@ private:
 				//connect to up server
 				CY_LOG(L_TRACE, "Connect to up server %s:%d", m_upAddress.get_ip(), m_upAddress.get_port());
 				session->m_upClient = std::make_shared<TcpClient>(pipe->m_looper, pipe, newSessionMsg.id);
-				session->m_upClient->m_listener.on_connected = std::bind(&RelayServer::onServerConnected, this, _1, _2, _3);
-				session->m_upClient->m_listener.on_message = std::bind(&RelayServer::onServerMessage, this, _1, _2);
-				session->m_upClient->m_listener.on_close = std::bind(&RelayServer::onServerClose, this, _1, _2);
+				session->m_upClient->m_listener.on_connected = std::bind(&RelayServer::onServerConnected, this, pipe, session, _2, _3);
+				session->m_upClient->m_listener.on_message = std::bind(&RelayServer::onServerMessage, this, pipe, session, _2);
+				session->m_upClient->m_listener.on_close = std::bind(&RelayServer::onServerClose, this, pipe, session);
 
 				if (!(session->m_upClient->connect(m_upAddress))) {
+					session->m_upClient = nullptr;
 					_kickDownSession(pipe, newSessionMsg.id, session);
 				}
 				CY_LOG(L_INFO, "[%d]Receive new session message, connect to %s:%d", newSessionMsg.id, m_upAddress.get_ip(), m_upAddress.get_port());
@@ -289,10 +300,8 @@ private:
 				if (it == pipe->m_relaySessionMap.end()) break;
 
 				RelaySessionPtr session = it->second;
-				session->m_upState = RelaySession::kDisconnecting;
-				session->m_upClient->disconnect();
-				session->m_upState = RelaySession::kDisconnected;
 				pipe->m_relaySessionMap.erase(it);
+				session->disconnect();
 
 				CY_LOG(L_INFO, "[%d]Receive close session message, close it", closeSessionMsg.id);
 			}
@@ -360,8 +369,7 @@ private:
 		for (auto it = pipe->m_relaySessionMap.begin(); it != pipe->m_relaySessionMap.end(); it++) {
 			RelaySessionPtr session = it->second;
 
-			session->m_upClient->disconnect();
-			session->m_upState = RelaySession::kDisconnected;
+			session->disconnect();
 		}
 		pipe->m_relaySessionMap.clear();
 
@@ -393,64 +401,36 @@ private:
 	}
 private:
 	//-------------------------------------------------------------------------------------
-	uint32_t onServerConnected(TcpClientPtr client, TcpConnectionPtr conn, bool success)
+	uint32_t onServerConnected(RelayPipe* pipe, RelaySessionPtr session, TcpConnectionPtr conn, bool success)
 	{
-		RelayPipe* pipe = (RelayPipe*)(client->get_param());
-		if (pipe->m_downState != kHandshaked) return 0;
+		int32_t id = session->m_id;
 
 		if (success) {
-			int32_t id = conn->get_id();
-			auto it = pipe->m_relaySessionMap.find(id);
-			assert(it != pipe->m_relaySessionMap.end());
-			if (it == pipe->m_relaySessionMap.end()) {
-				return 0;
-			}
-			RelaySessionPtr session = it->second;
 			session->m_upState = RelaySession::kConnected;
 
 			CY_LOG(L_TRACE, "[%d]Connect to UP success(%s:%d)", id, conn->get_peer_addr().get_ip(), conn->get_peer_addr().get_port());
 		}else {
 			//send close session msg to down
-			int32_t id = conn->get_id();
-			auto it = pipe->m_relaySessionMap.find(id);
-			if (it == pipe->m_relaySessionMap.end()) {
-				return 0;
-			}
-			RelaySessionPtr session = it->second;
-			assert(session->m_upState == RelaySession::kConnecting);
-
-			RelayCloseSessionMsg msg;
-			msg.id = session->m_id;
-
-			Packet packet;
-			packet.build_from_memory(RELAY_PACKET_HEADSIZE, RelayCloseSessionMsg::ID, (uint16_t)(sizeof(RelayCloseSessionMsg)), (const char*)&msg);
-
-			//send to down client
-			pipe->m_downConnection->send((const char*)packet.get_memory_buf(), packet.get_memory_size());
-			session->m_upState = RelaySession::kDisconnected;
-
-			//send to work thread to delete session and client
-			m_downServer->send_work_message(pipe->m_workthread_index, &packet);
+			session->m_upClient = nullptr;
+			_kickDownSession(pipe, id, session);
 			CY_LOG(L_TRACE, "[%d]Connect to UP failed!", id);
 		}
 		return 0;
 	}
 
 	//-------------------------------------------------------------------------------------
-	void onServerMessage(TcpClientPtr client, TcpConnectionPtr conn)
+	void onServerMessage(RelayPipe* pipe, RelaySessionPtr session, TcpConnectionPtr conn)
 	{
-		RelayPipe* pipe = (RelayPipe*)(client->get_param());
-		if (pipe->m_downState != kHandshaked) return;
-
-		int32_t id = conn->get_id();
-		auto it = pipe->m_relaySessionMap.find(id);
-		assert(it != pipe->m_relaySessionMap.end());
-		if (it == pipe->m_relaySessionMap.end()) return;
-
-		RelaySessionPtr session = it->second;
 		RingBuf& ringBuf = conn->get_input_buf();
 
-		while (!ringBuf.empty()) {
+		//the session closed by down client already
+		if (session->m_upState != RelaySession::kConnected) {
+			ringBuf.reset();
+			return;
+		}
+
+		//the down connection may be closed when send message
+		while (pipe->m_downState == kHandshaked && !ringBuf.empty()) {
 			size_t msgSize = (ringBuf.size() < 0xFF00u) ? ringBuf.size() : 0xFF00u;
 
 			RelayForwardMsg msg;
@@ -482,23 +462,17 @@ private:
 	}
 
 	//-------------------------------------------------------------------------------------
-	void onServerClose(TcpClientPtr client, TcpConnectionPtr conn)
+	void onServerClose(RelayPipe* pipe, RelaySessionPtr session)
 	{
-		RelayPipe* pipe = (RelayPipe*)(client->get_param());
-		int32_t id = conn->get_id();
-
-		auto it = pipe->m_relaySessionMap.find(id);
-		assert(it != pipe->m_relaySessionMap.end());
-		if (it == pipe->m_relaySessionMap.end()) return;
-		
-		RelaySessionPtr session = it->second;
 		assert(session->m_upState == RelaySession::kConnected || session->m_upState == RelaySession::kDisconnecting);
+		session->m_upClient = nullptr;
 
 		if (session->m_upState == RelaySession::kConnected) {
 			_kickDownSession(pipe, session->m_id, session);
 		}
+		session->m_upState = RelaySession::kDisconnected;
 
-		CY_LOG(L_TRACE, "[%d]UP shutdown the client, send kick msg to DOWN", id);
+		CY_LOG(L_TRACE, "[%d]UP shutdown the client, send kick msg to DOWN", session->m_id);
 	}
 
 private:
@@ -509,6 +483,8 @@ private:
 	
 	//-------------------------------------------------------------------------------------
 	void _kickDownSession(RelayPipe* pipe, int32_t session_id, RelaySessionPtr session) {
+		if (session)
+			session->m_upState = RelaySession::kDisconnected;
 		if (pipe->m_downState != kHandshaked) return;
 
 		RelayCloseSessionMsg msg;
@@ -517,12 +493,9 @@ private:
 		Packet packet;
 		packet.build_from_memory(RELAY_PACKET_HEADSIZE, RelayCloseSessionMsg::ID, (uint16_t)(sizeof(RelayCloseSessionMsg)), (const char*)&msg);
 
+		pipe->m_relaySessionMap.erase(session_id);
 		//send to down client
 		pipe->m_downConnection->send((const char*)packet.get_memory_buf(), packet.get_memory_size());
-		if(session)
-			session->m_upState = RelaySession::kDisconnected;
-
-		pipe->m_relaySessionMap.erase(session_id);
 	}
 
 public:
-- 
2.43.0


From 8352f4b52bed7b7705890e014d3558c5816cc52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:30 +0000
Subject: [PATCH 50/73] fix: relay_server dropped the data of a client that
 closed before the target was connected

---
 samples/relay/relay_server.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/samples/relay/relay_server.cpp b/samples/relay/relay_server.cpp
index f6a6d38..6187d5e 100644
--- a/samples/relay/relay_server.cpp
+++ b/samples/relay/relay_server.cpp
@@ -301,7 +301,13 @@ private:
 
 				RelaySessionPtr session = it->second;
 				pipe->m_relaySessionMap.erase(it);
-				session->disconnect();
+				if (session->m_upState == RelaySession::kConnecting) {
+					//data received before must be sent first, disconnect after connected
+					session->m_upState = RelaySession::kDisconnecting;
+				}
+				else {
+					session->disconnect();
+				}
 
 				CY_LOG(L_INFO, "[%d]Receive close session message, close it", closeSessionMsg.id);
 			}
@@ -406,6 +412,11 @@ private:
 		int32_t id = session->m_id;
 
 		if (success) {
+			if (session->m_upState == RelaySession::kDisconnecting) {
+				//the session closed by down client already
+				session->disconnect();
+				return 0;
+			}
 			session->m_upState = RelaySession::kConnected;
 
 			CY_LOG(L_TRACE, "[%d]Connect to UP success(%s:%d)", id, conn->get_peer_addr().get_ip(), conn->get_peer_addr().get_port());
-- 
2.43.0


From 4b5795b684359755edf0b01cb53a45a6416e332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:28 +0000
Subject: [PATCH 51/73] fix: relay_server crashed or hung when a packet of its
 down client was invalid

---
 samples/relay/relay_server.cpp | 41 +++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/samples/relay/relay_server.cpp b/samples/relay/relay_server.cpp
index 6187d5e..a39f510 100644
--- a/samples/relay/relay_server.cpp
+++ b/samples/relay/relay_server.cpp
@@ -266,8 +266,17 @@ private:
 				if (!packet.build_from_ringbuf(RELAY_PACKET_HEADSIZE, conn->get_input_buf())) return;
 
 				RelayNewSessionMsg newSessionMsg;
+				if (packet.get_packet_size() != sizeof(newSessionMsg)) {
+					_onInvalidPacket(server, conn, pipe, packetID);
+					return;
+				}
 				memcpy(&newSessionMsg, packet.get_packet_content(), sizeof(newSessionMsg));
 
+				if (pipe->m_relaySessionMap.find(newSessionMsg.id) != pipe->m_relaySessionMap.end()) {
+					_onInvalidPacket(server, conn, pipe, packetID);
+					return;
+				}
+
 				//create new relay session
 				RelaySessionPtr session = std::make_shared<RelaySession>(newSessionMsg.id);
 				pipe->m_relaySessionMap.insert({ newSessionMsg.id, session });
@@ -294,6 +303,10 @@ private:
 				if (!packet.build_from_ringbuf(RELAY_PACKET_HEADSIZE, conn->get_input_buf())) return;
 
 				RelayCloseSessionMsg closeSessionMsg;
+				if (packet.get_packet_size() != sizeof(closeSessionMsg)) {
+					_onInvalidPacket(server, conn, pipe, packetID);
+					return;
+				}
 				memcpy(&closeSessionMsg, packet.get_packet_content(), sizeof(closeSessionMsg));
 
 				auto it = pipe->m_relaySessionMap.find(closeSessionMsg.id);
@@ -320,8 +333,19 @@ private:
 				if (!packet.build_from_ringbuf(RELAY_PACKET_HEADSIZE, conn->get_input_buf())) return;
 
 				RelayForwardMsg forwardMsg;
+				if (packet.get_packet_size() < sizeof(forwardMsg)) {
+					_onInvalidPacket(server, conn, pipe, packetID);
+					return;
+				}
 				memcpy(&forwardMsg, packet.get_packet_content(), sizeof(forwardMsg));
 
+				size_t bufSize = packet.get_packet_size() - sizeof(forwardMsg);
+				if (forwardMsg.size < 0 || (size_t)forwardMsg.size > bufSize
+					|| (m_encryptMode && (bufSize % Rijndael::BLOCK_SIZE) != 0)) {
+					_onInvalidPacket(server, conn, pipe, packetID);
+					return;
+				}
+
 				//decrypt(even the session is closed already, the cipher chain must go on)
 				uint8_t* buf = (uint8_t*)packet.get_packet_content() + sizeof(RelayForwardMsg);
 				if (m_encryptMode)
@@ -357,14 +381,25 @@ private:
 			break;
 
 			default:
-				CY_LOG(L_ERROR, "receive invalid packet(%d)", packetID);
-				server->shutdown_connection(conn);
-				break;
+				_onInvalidPacket(server, conn, pipe, packetID);
+				return;
 			}
 		}
+		else {
+			//the connection is closing or closed
+			conn->get_input_buf().reset();
+			return;
+		}
 		}
 	}
 	//-------------------------------------------------------------------------------------
+	void _onInvalidPacket(TcpServer* server, TcpConnectionPtr conn, RelayPipe* pipe, uint16_t packetID)
+	{
+		CY_LOG(L_ERROR, "receive invalid packet(%d)", packetID);
+		pipe->m_downState = kDisconnected;
+		server->shutdown_connection(conn);
+	}
+	//-------------------------------------------------------------------------------------
 	void onDownClose(TcpServer* /*server*/, int32_t /*index*/, TcpConnectionPtr conn)
 	{
 		RelayPipe* pipe = (RelayPipe*)(conn->get_param());
-- 
2.43.0


From 6a8ddd59d8ce1a5c4b2a54117d29afe7c34d954a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:17 +0000
Subject: [PATCH 52/73] fix: relay_local kept its clients open when the tunnel
 closed, and hung when it closed while a message was handled

---
 samples/relay/relay_local.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/samples/relay/relay_local.cpp b/samples/relay/relay_local.cpp
index d99c5f6..6c7203c 100644
--- a/samples/relay/relay_local.cpp
+++ b/samples/relay/relay_local.cpp
@@ -180,7 +180,8 @@ private:
 		}
 		RingBuf& ringBuf = conn->get_input_buf();
 
-		while (!ringBuf.empty()) {
+		//the up connection may be closed when send message
+		while (pipe->m_upState == kHandshaked && !ringBuf.empty()) {
 			size_t msgSize = (ringBuf.size() < 0xFF00u) ? ringBuf.size() : 0xFF00u;
 
 			RelayForwardMsg forwardMsg;
@@ -408,6 +409,11 @@ private:
 
 				}
 			}
+			else {
+				//the connection is closing or closed
+				conn->get_input_buf().reset();
+				return;
+			}
 		}
 	}
 
@@ -418,6 +424,13 @@ private:
 		
 		pipe->m_upClient = nullptr;
 		pipe->m_upState = kDisConnected;
+
+		//nobody serves these sessions any more
+		RelaySessionMap sessionMap;
+		sessionMap.swap(pipe->m_sessionMap);
+		for (auto& session : sessionMap) {
+			m_downServer->shutdown_connection(session.second.m_downConnection);
+		}
 	}
 
 private:
-- 
2.43.0


From f9ebda6c275641506fa2cbc2381d86113c2019b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:56 +0000
Subject: [PATCH 53/73] fix: the echo server echoed at most 255 bytes per
 callback and stopped at NUL bytes

---
 samples/echo/echo_server.cpp | 38 +++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/samples/echo/echo_server.cpp b/samples/echo/echo_server.cpp
index d0952fa..f0e5510 100644
--- a/samples/echo/echo_server.cpp
+++ b/samples/echo/echo_server.cpp
@@ -36,27 +36,33 @@ void onPeerMessage(TcpServer* server, int32_t thread_index, TcpConnectionPtr con
 {
 	RingBuf& buf = conn->get_input_buf();
 
-	char temp[MAX_ECHO_LENGTH + 1] = { 0 };
-	buf.memcpy_out(temp, MAX_ECHO_LENGTH);
+	bool first = true;
+	while (!buf.empty()) {
+		char temp[MAX_ECHO_LENGTH + 1] = { 0 };
+		size_t len = buf.memcpy_out(temp, MAX_ECHO_LENGTH);
 
-	CY_LOG(L_INFO, "[T=%d]receive:%s", thread_index, temp);
+		CY_LOG(L_INFO, "[T=%d]receive:%s", thread_index, temp);
 
-	if (strcmp(temp, "exit") == 0) {
-		server->shutdown_connection(conn);
-		return;
-	}
+		//a command is the whole of what was received
+		bool whole = first && buf.empty() && strlen(temp) == len;
+		first = false;
 
-	if (strcmp(temp, "shutdown") == 0) {
-		sys_api::thread_create_detached([server](void*) {
-			server->stop();
-		}, 0, nullptr);
-		return;
-	}
+		if (whole && strcmp(temp, "exit") == 0) {
+			server->shutdown_connection(conn);
+			return;
+		}
 
-	size_t len = strlen(temp);
-	for (size_t i = 0; i < len; i++) temp[i] = (char)toupper(temp[i]);
+		if (whole && strcmp(temp, "shutdown") == 0) {
+			sys_api::thread_create_detached([server](void*) {
+				server->stop();
+			}, 0, nullptr);
+			return;
+		}
+
+		for (size_t i = 0; i < len; i++) temp[i] = (char)toupper((unsigned char)temp[i]);
 
-	conn->send(temp, strlen(temp));
+		conn->send(temp, len);
+	}
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 3aeaa5597b0947ea7266f9aabb0a6ec4f4c741ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:43 +0000
Subject: [PATCH 54/73] fix: the chat server sent under the lock its close
 callback takes

---
 samples/chat/chat_server.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/samples/chat/chat_server.cpp b/samples/chat/chat_server.cpp
index 071bf61..778287a 100644
--- a/samples/chat/chat_server.cpp
+++ b/samples/chat/chat_server.cpp
@@ -6,6 +6,7 @@
 #include "chat_message.h"
 
 #include <map>
+#include <vector>
 
 using namespace cyclone;
 using namespace std::placeholders;
@@ -65,12 +66,15 @@ private:
 			Packet packet;
 			if (!packet.build_from_ringbuf(PACKET_HEAD_SIZE, buf)) return;
 
+			//send outside the lock, a failed send closes the connection and calls onClientClose
+			std::vector<TcpConnectionPtr> receivers;
 			{
 				sys_api::auto_mutex lock(m_clients_lock);
 
-				for (auto client : m_clients) {
-					client.second.connection->send(packet.get_memory_buf(), packet.get_memory_size());
-				}
+				for (const auto& client : m_clients) receivers.push_back(client.second.connection);
+			}
+			for (const auto& receiver : receivers) {
+				receiver->send(packet.get_memory_buf(), packet.get_memory_size());
 			}
 		}
 	}
-- 
2.43.0


From 55965a99768af37827ba73b2fecb49b0d5b65e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:02 +0000
Subject: [PATCH 55/73] fix: ft_server dropped a running transfer when it
 refused another connection

---
 samples/filetransfer/ft_server.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/samples/filetransfer/ft_server.cpp b/samples/filetransfer/ft_server.cpp
index 4915319..234a7a5 100644
--- a/samples/filetransfer/ft_server.cpp
+++ b/samples/filetransfer/ft_server.cpp
@@ -243,7 +243,7 @@ private:
 	{
 		assert(index >= 0 && index < (int32_t)m_threadContext.size());
 
-		if (m_threadContext[(size_t)index]->status != TS_Connected) {
+		if (m_threadContext[(size_t)index]->conn != conn || m_threadContext[(size_t)index]->status != TS_Connected) {
 			conn->shutdown();
 			return;
 		}
@@ -272,6 +272,9 @@ private:
 		assert(index >= 0 && index < (int32_t)m_threadContext.size());
 		ThreadContext& ctx = *(m_threadContext[(size_t)index]);
 
+		//a connection refused because the thread is busy with another one
+		if (ctx.conn != conn) return;
+
 		if (ctx.status == TS_Sending) {
 			ctx.fileHandle.close();
 		}
-- 
2.43.0


From 827850df56e985138402b465e64e5640be6cc9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:02 +0000
Subject: [PATCH 56/73] fix: ft_server took any message size, and fragments
 outside the file

---
 samples/filetransfer/ft_server.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/samples/filetransfer/ft_server.cpp b/samples/filetransfer/ft_server.cpp
index 234a7a5..4d0203c 100644
--- a/samples/filetransfer/ft_server.cpp
+++ b/samples/filetransfer/ft_server.cpp
@@ -205,11 +205,12 @@ private:
 	void _onMessage_RequireFileFragment(int32_t index, const FT_Head& , TcpConnectionPtr conn)
 	{
 		RingBuf& ringBuf = conn->get_input_buf();
-		FT_RequireFileFragment* require = (FT_RequireFileFragment*)ringBuf.normalize();
+		FT_RequireFileFragment require;
+		ringBuf.memcpy_out(&require, sizeof(require));
 		ThreadContext& ctx = *(m_threadContext[(size_t)index]);
 
-		if (require->fileOffset + (size_t)(require->fragmentSize) > m_fileSize) {
-			CY_LOG(L_INFO, "Receive invalid fragment download request, offset=%zd, size=%d", require->fileOffset, require->size);
+		if (require.fragmentSize < 0 || require.fileOffset > m_fileSize || (size_t)(require.fragmentSize) > m_fileSize - require.fileOffset) {
+			CY_LOG(L_INFO, "Receive invalid fragment download request, offset=%zd, size=%d", require.fileOffset, require.fragmentSize);
 			conn->shutdown();
 			return;
 		}
@@ -223,8 +224,8 @@ private:
 		}
 
 		ctx.status = TS_Sending;
-		ctx.offsetNow = ctx.offsetBegin = require->fileOffset;
-		ctx.offsetEnd = ctx.offsetBegin + (size_t)(require->fragmentSize);
+		ctx.offsetNow = ctx.offsetBegin = require.fileOffset;
+		ctx.offsetEnd = ctx.offsetBegin + (size_t)(require.fragmentSize);
 		ctx.fragmentCRC = INITIAL_ADLER;
 		ctx.sendSpeed = 0.f;
 
@@ -232,8 +233,8 @@ private:
 		FT_ReplyFileFragment_Begin fileBegin;
 		fileBegin.id = FT_ReplyFileFragment_Begin::ID;
 		fileBegin.size = sizeof(FT_ReplyFileFragment_Begin);
-		fileBegin.fileOffset = require->fileOffset;
-		fileBegin.fragmentSize = require->fragmentSize;
+		fileBegin.fileOffset = require.fileOffset;
+		fileBegin.fragmentSize = require.fragmentSize;
 
 		conn->set_on_send_complete(std::bind(&FileTransferServer::_onSendReady, this, index, _1));
 		conn->send((const char*)&fileBegin, sizeof(fileBegin));
@@ -254,7 +255,16 @@ private:
 
 		FT_Head head;
 		ringBuf.peek(0, &head, sizeof(head));
-		if ((int32_t)ringBuf.size() < head.size) return;
+
+		//check the message before waiting for the rest of it
+		bool valid = (head.id == FT_RequireFileInfo::ID && head.size == (int32_t)sizeof(FT_RequireFileInfo)) ||
+			(head.id == FT_RequireFileFragment::ID && head.size == (int32_t)sizeof(FT_RequireFileFragment));
+		if (!valid) {
+			CY_LOG(L_ERROR, "Receive invalid message, id=%d, size=%d", head.id, head.size);
+			conn->shutdown();
+			return;
+		}
+		if (ringBuf.size() < (size_t)head.size) return;
 
 		switch (head.id) {
 		case FT_RequireFileInfo::ID:
-- 
2.43.0


From 3521d9c6b0ce01749a26937e55df0b2d8bad54f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:40 +0000
Subject: [PATCH 57/73] fix: ft_client divided by zero for small files and
 short transfers

---
 samples/filetransfer/ft_client.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/samples/filetransfer/ft_client.cpp b/samples/filetransfer/ft_client.cpp
index 1d9d539..764cf25 100644
--- a/samples/filetransfer/ft_client.cpp
+++ b/samples/filetransfer/ft_client.cpp
@@ -254,7 +254,8 @@ public:
 				ctx->status = TS_Error;
 			}
 			else {
-				size_t speed = (size_t)(ctx->fragmentSize*1000*1000) / (size_t)(ctx->endTime - ctx->beginTime);
+				size_t usedTime = (size_t)(ctx->endTime - ctx->beginTime);
+				size_t speed = (size_t)(ctx->fragmentSize) * 1000 * 1000 / (usedTime > 0 ? usedTime : 1);
 				CY_LOG(L_INFO, "Download thread[%d] success, offset=%zd, fragment_size=%s, crc=0x%08x, speed=%s/s, readBufMaxSize=%s", 
 					ctx->index, ctx->fileOffset, string_util::size_to_string((float)ctx->fragmentSize).c_str(), ctx->fragmentCRC, string_util::size_to_string(speed).c_str(),
 					string_util::size_to_string(conn->get_readebuf_max_size()).c_str()
@@ -335,11 +336,12 @@ public:
 		if (m_fileSize < MIN_FRAMEMENT_SIZE*(size_t)m_threadTounts) {
 			//small file
 			fragmentCounts = (int32_t)(m_fileSize / MIN_FRAMEMENT_SIZE);
+			if (fragmentCounts < 1) fragmentCounts = 1;
 		}
 		else {
 			fragmentCounts = m_threadTounts;
 		}
-		fragmentSize = (int32_t)((int32_t)m_fileSize / fragmentCounts) & (~0xF);
+		fragmentSize = (int32_t)(m_fileSize / (size_t)fragmentCounts) & (~0xF);
 
 		m_beginDownloadTime = sys_api::performance_time_now();
 
@@ -379,7 +381,7 @@ public:
 			CY_LOG(L_INFO, "Download speed: %s/s, Size:%s Percent:[%.2f%%]", 
 				string_util::size_to_string(downloadSpeed.first / ((size_t)m_downloadSpeed.get_time_period()/ (size_t)1000)).c_str(),
 				string_util::size_to_string(totalDownloadSize).c_str(),
-				(float)(totalDownloadSize*100 / m_fileSize));
+				m_fileSize > 0 ? (float)(totalDownloadSize*100 / m_fileSize) : 100.f);
 
 			sys_api::thread_sleep(1000);
 		}
@@ -475,6 +477,7 @@ int main(int argc, char* argv[])
 	}
 
 	size_t downloadTime = (size_t)(client.m_endDownloadTime - client.m_beginDownloadTime)/(1000ll*1000ll);
+	if (downloadTime < 1) downloadTime = 1;
 	CY_LOG(L_INFO, "Download complete, time=%d(sec), speed=%s/s", downloadTime, string_util::size_to_string(client.m_fileSize/downloadTime).c_str());
 
 	//combine file
-- 
2.43.0


From b88e771d23ce8d28d2265d71d7afd1a27616fe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:40 +0000
Subject: [PATCH 58/73] fix: ft_client hung when a part file could not be
 written

---
 samples/filetransfer/ft_client.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/samples/filetransfer/ft_client.cpp b/samples/filetransfer/ft_client.cpp
index 764cf25..75a3699 100644
--- a/samples/filetransfer/ft_client.cpp
+++ b/samples/filetransfer/ft_client.cpp
@@ -150,7 +150,7 @@ public:
 		return m_bGotFileInfo;
 	}
 
-	uint32_t _onConnected(TcpClientPtr client, bool success)
+	uint32_t _onConnected(TcpClientPtr client, TcpConnectionPtr conn, bool success)
 	{
 		DownloadThreadContext* ctx = (DownloadThreadContext*)(client->get_param());
 		assert(ctx->status == TS_Connecting);
@@ -168,6 +168,8 @@ public:
 		ctx->fileHandle.open(ctx->strFileName, std::ios::out | std::ios::binary);
 		if (ctx->fileHandle.fail()) {
 			CY_LOG(L_ERROR, "Write file %s failed!", ctx->strFileName.c_str());
+			ctx->status = TS_Error;
+			conn->shutdown();
 			return 0;
 		}
 
@@ -308,7 +310,7 @@ public:
 		ctx->looper = Looper::create_looper();
 		ctx->client = std::make_shared<TcpClient>(ctx->looper, ctx);
 		ctx->status = TS_Connecting;
-		ctx->client->m_listener.on_connected = std::bind(&FileTransferClient::_onConnected, this, _1, _3);
+		ctx->client->m_listener.on_connected = std::bind(&FileTransferClient::_onConnected, this, _1, _2, _3);
 		ctx->client->m_listener.on_message = std::bind(&FileTransferClient::_onMessage, this, _1, _2);
 		ctx->client->m_listener.on_close = std::bind(&FileTransferClient::_onClose, this, _1);
 		
-- 
2.43.0


From 7e8b195cbccbe623ec5ea8e875afe94b6163efcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:40 +0000
Subject: [PATCH 59/73] fix: ft_client crashed on invalid messages and wrote
 outside its directory

---
 samples/filetransfer/ft_client.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/samples/filetransfer/ft_client.cpp b/samples/filetransfer/ft_client.cpp
index 75a3699..99eb69d 100644
--- a/samples/filetransfer/ft_client.cpp
+++ b/samples/filetransfer/ft_client.cpp
@@ -114,17 +114,27 @@ public:
 
 			FT_Head head;
 			ringBuf.peek(0, &head, sizeof(FT_Head));
-			if ((int32_t)ringBuf.size() < head.size) return;
 
-			if (head.id != FT_ReplyFileInfo::ID) {
+			if (head.id != FT_ReplyFileInfo::ID || head.size <= (int32_t)sizeof(FT_ReplyFileInfo)) {
 				CY_LOG(L_ERROR, "not expect message, should be 'FT_ReplyFileInfo'");
 				_conn->shutdown();
 				return;
 			}
+			if (ringBuf.size() < (size_t)head.size) return;
 
 			FT_ReplyFileInfo* fileInfo = (FT_ReplyFileInfo*)(ringBuf.normalize());
 			this->m_fileSize = fileInfo->fileSize;
-			this->m_strFileName = ((const char*)fileInfo) + sizeof(FT_ReplyFileInfo);
+			const char* fileName = ((const char*)fileInfo) + sizeof(FT_ReplyFileInfo);
+			size_t nameLength = (size_t)head.size - sizeof(FT_ReplyFileInfo);
+			if (fileInfo->threadCounts < 1 || fileName[nameLength - 1] != 0) {
+				CY_LOG(L_ERROR, "file info error");
+				_conn->shutdown();
+				return;
+			}
+
+			//only the name, the file is written to current directory
+			this->m_strFileName = fileName;
+			this->m_strFileName.erase(0, this->m_strFileName.find_last_of("/\\") + 1);
 			this->m_threadTounts = fileInfo->threadCounts;
 			this->m_bGotFileInfo = true;
 
@@ -200,7 +210,7 @@ public:
 			ctx->status = TS_Error;
 
 			conn->shutdown();
-			return false;
+			return true;
 		}
 
 		ctx->status = TS_Receiving;
@@ -266,7 +276,7 @@ public:
 			}
 		}
 		conn->shutdown();
-		return false;
+		return true;
 	}
 
 	void _onMessage(TcpClientPtr client, TcpConnectionPtr conn)
-- 
2.43.0


From 03c587d1e9308d6b0567cb440b0fd52157dee48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:19 +0000
Subject: [PATCH 60/73] fix: process_get_module_name left long names
 unterminated and read past long paths

---
 source/cyCore/core/cyc_system_api.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/cyCore/core/cyc_system_api.cpp b/source/cyCore/core/cyc_system_api.cpp
index 9366664..a232f48 100644
--- a/source/cyCore/core/cyc_system_api.cpp
+++ b/source/cyCore/core/cyc_system_api.cpp
@@ -10,6 +10,7 @@ Copyright(C) thecodeway.com
 #else
 #include <sys/syscall.h>
 #include <sys/time.h>
+#include <limits.h>
 #include <pthread.h>
 #include <sched.h>
 #endif
@@ -50,9 +51,9 @@ void process_get_module_name(char* module_name, size_t max_size)
 		char process_path_name[PROC_PIDPATHINFO_MAXSIZE] = { 0 };
 		proc_pidpath(process_get_id(), process_path_name, PROC_PIDPATHINFO_MAXSIZE);
 	#else
-		char process_path_name[256] = { 0 };
-		if (readlink("/proc/self/exe", process_path_name, 256)<0) {
-			strncpy(process_path_name, "unknown", 256);
+		char process_path_name[PATH_MAX + 1] = { 0 };
+		if (readlink("/proc/self/exe", process_path_name, PATH_MAX)<0) {
+			strncpy(process_path_name, "unknown", PATH_MAX);
 		}
 	#endif
 	
@@ -62,7 +63,7 @@ void process_get_module_name(char* module_name, size_t max_size)
 
 	strncpy(module_name, process_name, max_size);
 #endif
-
+	if (max_size > 0) module_name[max_size - 1] = 0;
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 4a1409b7f12cc6c342e533fc6f6d73994184abf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:19 +0000
Subject: [PATCH 61/73] fix: set_nodelay returned the opposite of its result

---
 source/cyCore/core/cyc_socket_api.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index 26976dd..264931d 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -300,7 +300,8 @@ bool set_keep_alive(socket_t s, bool on)
 bool set_nodelay(socket_t s, bool on)
 {
 	int optval = on ? 1 : 0;
-	return setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &optval, static_cast<socklen_t>(sizeof optval));
+	//(IPPROTO_TCP is an enumerator: an unqualified call would find the global setsockopt)
+	return socket_api::setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &optval, static_cast<socklen_t>(sizeof optval));
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From b52b0979e28264ae1ab1d2cfe05e0f291a9f072d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:20 +0000
Subject: [PATCH 62/73] fix: check_connect corrupted the stack for descriptors
 beyond FD_SETSIZE and gave up on signals

---
 source/cyCore/core/cyc_socket_api.cpp | 37 +++++++++++++++++++++------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index 264931d..9e46236 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -8,6 +8,7 @@ Copyright(C) thecodeway.com
 #include <io.h>
 #else
 #include <netdb.h>
+#include <poll.h>
 #include <netinet/tcp.h>
 #endif
 #include <fcntl.h>
@@ -473,7 +474,10 @@ bool check_connect(const struct sockaddr_in& addr, int timeout_ms)
 	if (s == INVALID_SOCKET) return false;
 
 	// set to non block mode
-	if (!set_nonblock(s, true)) return false;
+	if (!set_nonblock(s, true)) {
+		close_socket(s);
+		return false;
+	}
 
 	// begin connect...
 	if (!connect(s, addr)) {
@@ -483,6 +487,7 @@ bool check_connect(const struct sockaddr_in& addr, int timeout_ms)
 	}
 
 	// wait connect result
+#ifdef CY_SYS_WINDOWS
 	fd_set set_write, set_err;
 
 	FD_ZERO(&set_write);
@@ -493,13 +498,7 @@ bool check_connect(const struct sockaddr_in& addr, int timeout_ms)
 
 	// check if the socket is ready
 	timeval time_out = { timeout_ms/1000, (timeout_ms%1000) * 1000};
-	int ret = ::select(
-#ifdef CY_SYS_WINDOWS
-		0, 
-#else
-		s+1,
-#endif
-		nullptr, &set_write, &set_err, timeout_ms<0 ? nullptr : &time_out);
+	int ret = ::select(0, nullptr, &set_write, &set_err, timeout_ms<0 ? nullptr : &time_out);
 
 	if (ret <= 0) {
 		//time out or socket error
@@ -512,6 +511,28 @@ bool check_connect(const struct sockaddr_in& addr, int timeout_ms)
 		close_socket(s);
 		return false;
 	}
+#else
+	// (an fd_set can't hold a descriptor beyond FD_SETSIZE)
+	struct pollfd fds;
+	fds.fd = s;
+	fds.events = POLLOUT;
+	fds.revents = 0;
+
+	const int64_t time_out = sys_api::performance_time_now() + timeout_ms * 1000ll;
+	int ret, wait_ms = timeout_ms;
+	while ((ret = ::poll(&fds, 1, wait_ms)) < 0 && errno == EINTR) {
+		//interrupted by a signal, wait the remaining time
+		if (timeout_ms < 0) continue;
+		const int64_t remain = time_out - sys_api::performance_time_now();
+		wait_ms = remain > 0 ? (int)((remain + 999) / 1000) : 0;
+	}
+
+	if (ret <= 0) {
+		//time out or socket error
+		close_socket(s);
+		return false;
+	}
+#endif
 
 	int err = get_socket_error(s);
 	if (err != 0) {
-- 
2.43.0


From 80f50996c40790072e28dc6cd7feb8757a56bca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:27 +0000
Subject: [PATCH 63/73] fix: the default log file name was read past a long
 host name

---
 source/cyCore/core/cyc_logger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyCore/core/cyc_logger.cpp b/source/cyCore/core/cyc_logger.cpp
index 270a42d..fa5f889 100644
--- a/source/cyCore/core/cyc_logger.cpp
+++ b/source/cyCore/core/cyc_logger.cpp
@@ -43,8 +43,8 @@ struct DiskLogFile
 		sys_api::process_get_module_name(process_name, 32);
 		
 		//get host name
-		char host_name[32];
-		::gethostname(host_name, 32);
+		char host_name[128] = { 0 };
+		::gethostname(host_name, sizeof(host_name) - 1);
 
 		//get process id
 		pid_t process_id = sys_api::process_get_id();
-- 
2.43.0


From c84664c57d0511e0929873118271a5f9555cf8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:38 +0000
Subject: [PATCH 64/73] fix: a failed write was counted in the write statistics
 of the connection

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 90a5e71..8858dd1 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -285,7 +285,7 @@ void TcpConnection::_on_socket_write(void)
 				//log error
 				CY_LOG(L_ERROR, "write socket error, err=%d", socket_api::get_lasterror());
 			}
-			if (m_write_statistics) {
+			else if (m_write_statistics) {
 				m_write_statistics->push(len);
 			}
 		}
-- 
2.43.0


From 87a5d462b13b63b673f4c6b27e9ba9d97d269c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:55 +0000
Subject: [PATCH 65/73] fix: file transfer client reported success when the
 file could not be written

---
 samples/filetransfer/ft_client.cpp | 31 +++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/samples/filetransfer/ft_client.cpp b/samples/filetransfer/ft_client.cpp
index 99eb69d..a907718 100644
--- a/samples/filetransfer/ft_client.cpp
+++ b/samples/filetransfer/ft_client.cpp
@@ -218,7 +218,7 @@ public:
 		return false;
 	}
 
-	void _onReceiveFileData(DownloadThreadContext* ctx, TcpConnectionPtr conn)
+	bool _onReceiveFileData(DownloadThreadContext* ctx, TcpConnectionPtr conn)
 	{
 		assert(ctx->status == TS_Receiving);
 		RingBuf& ringBuff = conn->get_input_buf();
@@ -238,9 +238,16 @@ public:
 
 		if (ctx->receivedSize.load() >= ctx->fragmentSize) {
 			ctx->status = TS_Complete;
-
 			ctx->fileHandle.close();
 		}
+
+		if (ctx->fileHandle.fail()) {
+			CY_LOG(L_ERROR, "Write file %s failed!", ctx->strFileName.c_str());
+			ctx->status = TS_Error;
+			conn->shutdown();
+			return true;
+		}
+		return false;
 	}
 
 	bool _onReceiveFragmentEnd(DownloadThreadContext* ctx, TcpConnectionPtr conn)
@@ -292,7 +299,7 @@ public:
 				break;
 
 			case ThreadStatus::TS_Receiving:
-				_onReceiveFileData(ctx, conn);
+				if (_onReceiveFileData(ctx, conn)) return;
 				break;
 
 			case ThreadStatus::TS_Complete:
@@ -429,21 +436,27 @@ public:
 
 			std::ifstream inputFileHandle;
 			inputFileHandle.open(ctx->strFileName, std::ios::in | std::ios::binary);
-			if (inputFileHandle.fail()) {
-				CY_LOG(L_ERROR, "Write file %s failed!", m_strFileName.c_str());
-				return 0;
-			}
+			if (inputFileHandle.fail()) break;
 
-			while (!inputFileHandle.eof()) {
+			while (inputFileHandle.good() && outputFileHandle.good()) {
 				size_t readSize = (size_t)inputFileHandle.read(pBuffer, (std::streamsize)kBufSize).gcount();
 				outputFileHandle.write(pBuffer, (std::streamsize)readSize);
 			}
+			if (!inputFileHandle.eof() || outputFileHandle.fail()) break;
 			inputFileHandle.close();
 			//delete file
 			std::remove(ctx->strFileName.c_str());
 		}
-		outputFileHandle.close();
 		CY_FREE(pBuffer);
+
+		//all data must be written, don't leave a file cut short
+		size_t writeSize = outputFileHandle.good() ? (size_t)outputFileHandle.tellp() : 0;
+		outputFileHandle.close();
+		if (outputFileHandle.fail() || writeSize != m_fileSize) {
+			CY_LOG(L_ERROR, "Write file %s failed!", m_strFileName.c_str());
+			std::remove(m_strFileName.c_str());
+			return false;
+		}
 		return true;
 	}
 };
-- 
2.43.0


From f4bfa80182aa4a2c6f96d9c8c1c87c97b77dbd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:03 +0000
Subject: [PATCH 66/73] fix: file transfer server stalled for ever when the
 served file was cut

---
 samples/filetransfer/ft_server.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/samples/filetransfer/ft_server.cpp b/samples/filetransfer/ft_server.cpp
index 4d0203c..f6a0ea4 100644
--- a/samples/filetransfer/ft_server.cpp
+++ b/samples/filetransfer/ft_server.cpp
@@ -177,6 +177,12 @@ private:
 		if (ctx.offsetNow + readSize > ctx.offsetEnd) {
 			readSize = ctx.offsetEnd - ctx.offsetNow;
 		}
+		if (readSize == 0 && ctx.offsetNow < ctx.offsetEnd) {
+			//the file was cut or can't be read any more, don't let the client wait forever
+			CY_LOG(L_ERROR, "Read file %s failed, offset=%zd", m_strPathName.c_str(), ctx.offsetNow);
+			conn->shutdown();
+			return;
+		}
 		ctx.offsetNow += readSize;
 		ctx.fragmentCRC = cyclone::adler32(ctx.fragmentCRC, (const uint8_t*)ctx.buffer, readSize);
 
-- 
2.43.0


From 962b23d479604f7f04ae5f4c7455a7607324f9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:28 +0000
Subject: [PATCH 67/73] fix: chat and echo clients aborted at the end of their
 input

---
 samples/chat/chat_client.cpp | 22 +++++++++++++++++++++-
 samples/echo/echo_client.cpp | 22 +++++++++++++++++++++-
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/samples/chat/chat_client.cpp b/samples/chat/chat_client.cpp
index ce2969d..6c0eb99 100644
--- a/samples/chat/chat_client.cpp
+++ b/samples/chat/chat_client.cpp
@@ -30,13 +30,21 @@ public:
 		m_server_port = server_port;
 
 		//start client thread
-		sys_api::thread_create_detached(std::bind(&ChatClient::clientThread, this), 0, "client");
+		m_thread = sys_api::thread_create(std::bind(&ChatClient::clientThread, this), 0, "client");
 		CY_LOG(L_DEBUG, "connect to %s:%d...", server_ip.c_str(), server_port);
 
 		//wait connect completed
 		sys_api::signal_wait(m_connected_signal);
 	}
 
+	void stopClientThread(void)
+	{
+		//disconnect in client thread, the process ends when the connection is closed
+		char stop = 0;
+		m_stop_pipe.write(&stop, sizeof(stop));
+		sys_api::thread_join(m_thread);
+	}
+
 public:
 	//-------------------------------------------------------------------------------------
 	void clientThread(void)
@@ -49,6 +57,7 @@ public:
 		m_client->m_listener.on_close = std::bind(&ChatClient::onClose, this);
 
 		m_client->connect(Address(m_server_ip.c_str(), m_server_port));
+		looper->register_event(m_stop_pipe.get_read_port(), Looper::kRead, this, std::bind(&ChatClient::onStop, this), nullptr);
 		looper->loop();
 
 		m_client = nullptr;
@@ -98,6 +107,13 @@ public:
 	}
 	
 public:
+	void onStop(void)
+	{
+		char stop;
+		m_stop_pipe.read(&stop, sizeof(stop));
+		m_client->disconnect();
+	}
+
 	TcpClientPtr get_client(void) { return m_client; }
 
 private:
@@ -105,10 +121,13 @@ private:
 	std::string m_server_ip;
 	uint16_t m_server_port;
 	sys_api::signal_t m_connected_signal;
+	Pipe m_stop_pipe;
+	thread_t m_thread;
 
 public:
 	ChatClient()
 		: m_client(nullptr)
+		, m_thread(nullptr)
 	{
 		m_connected_signal = sys_api::signal_create();
 	}
@@ -168,6 +187,7 @@ int main(int argc, char* argv[])
 		chatClient.get_client()->send(packet.get_memory_buf(), packet.get_memory_size());
 	}
 
+	chatClient.stopClientThread();
 	return 0;
 }
 
diff --git a/samples/echo/echo_client.cpp b/samples/echo/echo_client.cpp
index 6e5141a..ce4449e 100644
--- a/samples/echo/echo_client.cpp
+++ b/samples/echo/echo_client.cpp
@@ -30,13 +30,21 @@ public:
 		m_server_port = server_port;
 
 		//start client thread
-		sys_api::thread_create_detached(std::bind(&EchoClient::clientThread, this), 0, "client");
+		m_thread = sys_api::thread_create(std::bind(&EchoClient::clientThread, this), 0, "client");
 		CY_LOG(L_DEBUG, "connect to %s:%d...", server_ip.c_str(), server_port);
 
 		//wait connect completed
 		sys_api::signal_wait(m_connected_signal);
 	}
 
+	void stopClientThread(void)
+	{
+		//disconnect in client thread, the process ends when the connection is closed
+		char stop = 0;
+		m_stop_pipe.write(&stop, sizeof(stop));
+		sys_api::thread_join(m_thread);
+	}
+
 private:
 	//-------------------------------------------------------------------------------------
 	void clientThread(void)
@@ -49,6 +57,7 @@ private:
 		m_client->m_listener.on_close = std::bind(&EchoClient::onClose, this);
 
 		m_client->connect(Address(m_server_ip.c_str(), m_server_port));
+		looper->register_event(m_stop_pipe.get_read_port(), Looper::kRead, this, std::bind(&EchoClient::onStop, this), nullptr);
 		looper->loop();
 
 		m_client = nullptr;
@@ -94,6 +103,13 @@ private:
 	}
 
 public:
+	void onStop(void)
+	{
+		char stop;
+		m_stop_pipe.read(&stop, sizeof(stop));
+		m_client->disconnect();
+	}
+
 	TcpClientPtr get_client(void) { return m_client; }
 
 private:
@@ -101,10 +117,13 @@ private:
 	std::string m_server_ip;
 	uint16_t m_server_port;
 	sys_api::signal_t m_connected_signal;
+	Pipe m_stop_pipe;
+	thread_t m_thread;
 
 public:
 	EchoClient()
 		: m_client(nullptr)
+		, m_thread(nullptr)
 	{
 		m_connected_signal = sys_api::signal_create();
 	}
@@ -160,6 +179,7 @@ int main(int argc, char* argv[])
 		echoClient.get_client()->send(line, strlen(line));
 	}
 
+	echoClient.stopClientThread();
 	return 0;
 }
 
-- 
2.43.0


From d0ea23129bbffab8d26c4fcbdc0f2d549b374179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:28 +0000
Subject: [PATCH 68/73] fix: chat and echo clients did not end when the server
 closed the connection

---
 samples/chat/chat_client.cpp | 7 ++++++-
 samples/echo/echo_client.cpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/samples/chat/chat_client.cpp b/samples/chat/chat_client.cpp
index 6c0eb99..cd7112e 100644
--- a/samples/chat/chat_client.cpp
+++ b/samples/chat/chat_client.cpp
@@ -5,6 +5,8 @@
 
 #include "chat_message.h"
 
+#include <cstdio>
+#include <cstdlib>
 #include <iostream>
 
 using namespace cyclone;
@@ -103,7 +105,10 @@ public:
 	virtual void onClose(void)
 	{
 		CY_LOG(L_INFO, "socket close");
-		exit(0);
+
+		//exit() would wait for the main thread, which is reading the input
+		fflush(stdout);
+		std::_Exit(0);
 	}
 	
 public:
diff --git a/samples/echo/echo_client.cpp b/samples/echo/echo_client.cpp
index ce4449e..1706a43 100644
--- a/samples/echo/echo_client.cpp
+++ b/samples/echo/echo_client.cpp
@@ -3,6 +3,8 @@
 #include <cy_network.h>
 #include <utility/cyu_simple_opt.h>
 
+#include <cstdio>
+#include <cstdlib>
 #include <iostream>
 
 using namespace cyclone;
@@ -99,7 +101,10 @@ private:
 	void onClose(void)
 	{
 		CY_LOG(L_INFO, "socket close");
-		exit(0);
+
+		//exit() would wait for the main thread, which is reading the input
+		fflush(stdout);
+		std::_Exit(0);
 	}
 
 public:
-- 
2.43.0


From 1c99d8b998ad1cbb01467fa4f9f982aca5ba8d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:28 +0000
Subject: [PATCH 69/73] fix: chat client showed one message per read and
 overflowed on long ones

---
 samples/chat/chat_client.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/samples/chat/chat_client.cpp b/samples/chat/chat_client.cpp
index cd7112e..5bc6f51 100644
--- a/samples/chat/chat_client.cpp
+++ b/samples/chat/chat_client.cpp
@@ -92,13 +92,14 @@ public:
 	{
 		RingBuf& buf = conn->get_input_buf();
 
-		Packet packet;
-		packet.build_from_ringbuf(PACKET_HEAD_SIZE, buf);
-
-		char temp[1024] = { 0 };
-		memcpy(temp, packet.get_packet_content(), packet.get_packet_size());
+		for (;;)
+		{
+			Packet packet;
+			if (!packet.build_from_ringbuf(PACKET_HEAD_SIZE, buf)) return;
 
-		CY_LOG(L_INFO, "%s", temp);
+			std::string text(packet.get_packet_content(), packet.get_packet_size());
+			CY_LOG(L_INFO, "%s", text.c_str());
+		}
 	}
 
 	//-------------------------------------------------------------------------------------
-- 
2.43.0


From aec3767c6aef917d8f364fa6f851e9186adfb2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:28 +0000
Subject: [PATCH 70/73] fix: echo client kept what exceeded 255 bytes until the
 next message

---
 samples/echo/echo_client.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/samples/echo/echo_client.cpp b/samples/echo/echo_client.cpp
index 1706a43..4324575 100644
--- a/samples/echo/echo_client.cpp
+++ b/samples/echo/echo_client.cpp
@@ -91,10 +91,13 @@ private:
 	{
 		RingBuf& buf = conn->get_input_buf();
 
-		char temp[MAX_ECHO_LENGTH +1] = { 0 };
-		buf.memcpy_out(temp, MAX_ECHO_LENGTH);
+		while (!buf.empty())
+		{
+			char temp[MAX_ECHO_LENGTH +1] = { 0 };
+			buf.memcpy_out(temp, MAX_ECHO_LENGTH);
 
-		CY_LOG(L_INFO, "%s", temp);
+			CY_LOG(L_INFO, "%s", temp);
+		}
 	}
 
 	//-------------------------------------------------------------------------------------
-- 
2.43.0


From 0178e7aecee8b287d20e64de96813677073158cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:35 +0000
Subject: [PATCH 71/73] fix: messages pending when a work thread stopped were
 never freed

---
 source/cyEvent/event/cye_work_thread.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/cyEvent/event/cye_work_thread.cpp b/source/cyEvent/event/cye_work_thread.cpp
index acfed47..eadd3e8 100644
--- a/source/cyEvent/event/cye_work_thread.cpp
+++ b/source/cyEvent/event/cye_work_thread.cpp
@@ -23,6 +23,10 @@ WorkThread::WorkThread()
 WorkThread::~WorkThread()
 {
 	//TODO: stop the thread
+
+	//free the messages which arrived after the thread stopped
+	Packet* packet;
+	while (m_message_queue.pop(packet)) Packet::free_packet(packet);
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 02e336982130149b05333d583d4854159af0d547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:35 +0000
Subject: [PATCH 72/73] fix: timers alive at the end of their looper were never
 freed

---
 source/cyEvent/event/cye_looper.cpp | 46 ++++++++++++++++++++++-------
 source/cyEvent/event/cye_looper.h   |  3 ++
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index 07a27c1..a849acb 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -34,6 +34,13 @@ Looper::Looper()
 //-------------------------------------------------------------------------------------
 Looper::~Looper()
 {
+	//free the timers which were never deleted
+	for (auto& channel : m_channelBuffer) {
+		if (!channel.timer) continue;
+		_close_timer(channel);
+		_free_timer(channel);
+	}
+
 	sys_api::mutex_destroy(m_lock);
 }
 
@@ -104,7 +111,9 @@ Looper::event_id_t Looper::register_timer_event(uint32_t milliSeconds,
 	if (!CreateTimerQueueTimer(&(timer->htimer), 0, _on_windows_timer, timer, milliSeconds, milliSeconds, WT_EXECUTEINTIMERTHREAD)) {
 		//error...
 		CY_LOG(L_FATAL, "CreateTimerQueueTimer Failed");
-        delete timer;
+		_free_timer(channel);
+		channel.next = m_free_head;
+		m_free_head = id;
 		return INVALID_EVENT_ID;
 	}
 #elif defined(CY_HAVE_TIMERFD)
@@ -113,7 +122,9 @@ Looper::event_id_t Looper::register_timer_event(uint32_t milliSeconds,
 	if (channel.fd < 0) {
 		//error
         CY_LOG(L_FATAL, "call timerfd_create Failed");
-        delete timer;
+		_free_timer(channel);
+		channel.next = m_free_head;
+		m_free_head = id;
         return INVALID_EVENT_ID;
 	}
 
@@ -160,14 +171,9 @@ void Looper::delete_event(event_id_t id)
 
 	//if timer event
 	if (channel.timer) {
-		timer_s* timer = (timer_s*)channel.param;
-#ifdef CY_SYS_WINDOWS
-		::DeleteTimerQueueTimer(0, timer->htimer, INVALID_HANDLE_VALUE);
-#elif defined(CY_HAVE_TIMERFD)
-		socket_api::close_socket(channel.fd);
-#endif
+		_close_timer(channel);
 		//its callback may be running now
-		if (!m_dispatching) delete timer;
+		if (!m_dispatching) _free_timer(channel);
 	}
 	
 	//wait the end of this round
@@ -181,6 +187,26 @@ void Looper::delete_event(event_id_t id)
 	m_free_head = id;
 }
 
+//-------------------------------------------------------------------------------------
+void Looper::_close_timer(channel_s& channel)
+{
+#ifdef CY_SYS_WINDOWS
+	::DeleteTimerQueueTimer(0, ((timer_s*)channel.param)->htimer, INVALID_HANDLE_VALUE);
+#elif defined(CY_HAVE_TIMERFD)
+	socket_api::close_socket(channel.fd);
+#else
+	(void)channel;
+#endif
+}
+
+//-------------------------------------------------------------------------------------
+void Looper::_free_timer(channel_s& channel)
+{
+	delete (timer_s*)channel.param;
+	channel.param = nullptr;
+	channel.timer = false;
+}
+
 //-------------------------------------------------------------------------------------
 Looper::dispatch_guard::dispatch_guard(Looper* looper)
 	: m_looper(looper)
@@ -199,7 +225,7 @@ Looper::dispatch_guard::~dispatch_guard()
 		event_id_t id = m_looper->m_deleted_events[i];
 
 		channel_s& channel = m_looper->m_channelBuffer[id];
-		if (channel.timer) delete (timer_s*)channel.param;
+		if (channel.timer) m_looper->_free_timer(channel);
 
 		channel.next = m_looper->m_free_head;
 		m_looper->m_free_head = id;
diff --git a/source/cyEvent/event/cye_looper.h b/source/cyEvent/event/cye_looper.h
index de50709..ddbd9dd 100644
--- a/source/cyEvent/event/cye_looper.h
+++ b/source/cyEvent/event/cye_looper.h
@@ -159,6 +159,9 @@ protected:
 private:
 	event_id_t _get_free_slot(void);
 
+	void _close_timer(channel_s& channel);
+	void _free_timer(channel_s& channel);
+
 	//events deleted while the ready events of a round are dispatched, their slots can't
 	//be used by new events before the end of the round
 	struct dispatch_guard
-- 
2.43.0


From 9361c88f2defb4d8fa8d12520188c87b13833e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:16 +0000
Subject: [PATCH 73/73] fix: send read the looper of a connection that another
 thread was closing

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 3 ++-
 source/cyNetwork/network/cyn_tcp_connection.h   | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 8858dd1..52b4f1c 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -33,6 +33,7 @@ TcpConnection::TcpConnection(int32_t id, socket_t sfd, Looper* looper, Owner* ow
 	, m_socket(sfd)
 	, m_state(kConnected)
 	, m_looper(looper)
+	, m_thread_id(looper->get_thread_id())
 	, m_event_id(Looper::INVALID_EVENT_ID)
 	, m_owner(owner)
 	, m_param(nullptr)
@@ -122,7 +123,7 @@ void TcpConnection::send(const char* buf, size_t len)
 		return;
 	}
 
-	if (sys_api::thread_get_current_id() == m_looper->get_thread_id())
+	if (sys_api::thread_get_current_id() == m_thread_id)
 	{
 		_send(buf, len);
 	}
diff --git a/source/cyNetwork/network/cyn_tcp_connection.h b/source/cyNetwork/network/cyn_tcp_connection.h
index 79bb791..caef12e 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.h
+++ b/source/cyNetwork/network/cyn_tcp_connection.h
@@ -82,6 +82,7 @@ private:
 	Address m_local_addr;
 	Address m_peer_addr;
 	Looper* m_looper;
+	thread_id_t m_thread_id;	//thread of the looper, which may be destroyed before this connection
 	Looper::event_id_t m_event_id;
 	Owner* m_owner;
 	void* m_param;
-- 
2.43.0

