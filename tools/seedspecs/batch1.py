CORE="source/cyCore/core/"; EV="source/cyEvent/event/"; NET="source/cyNetwork/network/"; CR="source/cyCrypt/crypt/"; UT="source/cyUtility/utility/"
SEEDS={}
def seed(id, property, needs, breaks, edits, demo, **k): SEEDS[id]=dict(property=property,needs=needs,breaks=breaks,edits=edits,demo=demo,**k)
seed("c01-resize-pow2","C01","growth to a content size that is exactly a power of two","the buffer grows to exactly the needed size without the reserved byte, so a full buffer looks empty",
 [(CORE+"cyc_ring_buf.cpp","while (new_size <= need_size) new_size *= 2; //one byte is reserved","while (new_size < need_size) new_size *= 2; //one byte is reserved")],r'''
#include <cy_core.h>
#include <vector>
using namespace cyclone;
int main() {
	for (size_t cap = 1; cap < 40; cap++) for (size_t n = 1; n < 300; n++) {
		RingBuf b(cap); std::vector<uint8_t> v(n); for (size_t i = 0; i < n; i++) v[i] = (uint8_t)(i * 7 + 1);
		b.memcpy_into(v.data(), n); if (b.size() != n) { printf("size %zu after writing %zu into capacity %zu\n", b.size(), n, cap); return 1; }
		std::vector<uint8_t> o(n); if (b.memcpy_out(o.data(), n) != n || o != v) { printf("content differs\n"); return 1; }
	}
	return 0;
}
''')
seed("c02-drain-to-end","C02","a socket write whose bytes end exactly at the physical end of the storage while the write position already wrapped to its start","the read offset stays one past the end: a drained buffer is not recognised as empty",
 [(CORE+"cyc_ring_buf.cpp","""	nsended = 0;
	while (nsended != (size_t)write_counts) {
		size_t n = std::min((size_t)(m_end - m_read), (size_t)write_counts - nsended);

		m_read += n;
		nsended += n;

		// wrap 
		if (m_read >= m_end) m_read = 0;
	}
""","""	nsended = (size_t)write_counts;
	m_read += nsended;
	if (m_read > m_end) m_read -= m_end;
""")],r'''
#include <cy_core.h>
#include <sys/socket.h>
#include <unistd.h>
#include <vector>
using namespace cyclone;
int main() {
	int s[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) return 2;
	for (size_t cap = 8; cap < 40; cap++) for (size_t skip = 1; skip <= cap; skip++) {
		RingBuf b(cap); std::vector<uint8_t> v(cap + 1, 1), o(1000);
		b.memcpy_into(v.data(), cap); b.discard(skip); b.memcpy_into(v.data(), 1);	// wraps to 0 when the storage is cap+1 long
		size_t n = b.size(); ssize_t w = b.write_socket(s[0]); if (w != (ssize_t)n) { printf("wrote %zd of %zu\n", w, n); return 1; }
		if (read(s[1], o.data(), o.size()) != w) return 1;
		if (!b.empty() || b.size() != 0) { printf("a drained buffer is not empty (capacity %zu)\n", cap); return 1; }
	}
	return 0;
}
''')
seed("c03-read-after-claim","C03","a popper preempted between claiming a slot and reading it while a pusher laps the ring","an element is read after its slot was released: one element is lost and another returned twice",
 [(CORE+"cyc_lf_queue.h","""		// retrieve the data from the queue
		a_data = m_queue[_countToIndex(currentReadIndex)];

""",""),(CORE+"cyc_lf_queue.h","""			// got here. The value was retrieved from the queue. Note that the
			// data inside the m_queue array is not deleted nor reseted
""","""			// got here. The slot is ours, retrieve the data from the queue. Note that the
			// data inside the m_queue array is not deleted nor reseted
			a_data = m_queue[_countToIndex(currentReadIndex)];
""")],r'''
#include <cy_core.h>
#include <atomic>
#include <thread>
#include <vector>
using namespace cyclone;
struct E { uint64_t v[16]; };
int main() {
	for (int round = 0; round < 30; round++) {
		static LockFreeQueue<E, 2>* q; q = new LockFreeQueue<E, 2>(); const uint64_t N = 60000; const int P = 3, C = 3;
		std::vector<std::atomic<uint8_t>> seen(N * P); for (auto& s : seen) s = 0; std::atomic<uint64_t> got(0); std::atomic<bool> bad(false); std::vector<std::thread> t;
		for (int p = 0; p < P; p++) t.emplace_back([&, p] { for (uint64_t i = 0; i < N && !bad; i++) { E e; for (auto& x : e.v) x = i * P + p; while (!q->push(e) && !bad) std::this_thread::yield(); } });
		for (int k = 0; k < C; k++) t.emplace_back([&] { while (got < N * P && !bad) { E e; if (!q->pop(e)) { std::this_thread::yield(); continue; } got++; for (auto x : e.v) if (x != e.v[0] || x >= N * P) bad = true; if (!bad && seen[e.v[0]]++) bad = true; } });
		for (auto& x : t) x.join(); delete q; if (bad) { printf("an element was torn or returned twice\n"); return 1; }
	}
	return 0;
}
''',timeout=200)
seed("c04-size-narrowed","C04","a packet whose head and payload together exceed 65535 bytes, delivered in more than one piece","an incomplete large packet is taken out of the ring buffer",
 [(EV+"cye_packet.cpp","	if (buf_len < head_size + (size_t)packet_size) return false;","	uint16_t total_size = (uint16_t)(head_size + packet_size);\n	if (buf_len < total_size) return false;")],r'''
#include <cy_core.h>
#include <cy_event.h>
#include <vector>
using namespace cyclone;
int main() {
	for (int n = 65500; n <= 65535; n++) {
		std::vector<uint8_t> w(4 + (size_t)n); w[0] = (uint8_t)(n >> 8); w[1] = (uint8_t)n; w[2] = 0; w[3] = 9; for (int i = 0; i < n; i++) w[4 + (size_t)i] = (uint8_t)(i * 31);
		RingBuf b; size_t cut = 1000; b.memcpy_into(w.data(), cut); Packet* p = Packet::alloc_packet();
		if (p->build_from_ringbuf(4, b)) { printf("incomplete packet produced, payload %d\n", n); return 1; } if (b.size() != cut) { printf("input consumed, payload %d\n", n); return 1; }
		b.memcpy_into(w.data() + cut, w.size() - cut); if (!p->build_from_ringbuf(4, b) || p->get_packet_size() != n || memcmp(p->get_packet_content(), w.data() + 4, (size_t)n)) { printf("packet %d is wrong\n", n); return 1; }
		Packet::free_packet(p);
	}
	return 0;
}
''')
seed("c05-write-end-blocks","C05","writing more than the kernel's pipe capacity without a reader","the write end is left blocking, so a full pipe blocks its writer",
 [(EV+"cye_pipe.cpp","if(::pipe2(m_pipe_fd, O_NONBLOCK|O_CLOEXEC)<0)","if(::pipe2(m_pipe_fd, O_CLOEXEC)<0 || !socket_api::set_nonblock(m_pipe_fd[0], true))")],r'''
#include <cy_core.h>
#include <cy_event.h>
#include <signal.h>
#include <unistd.h>
#include <vector>
using namespace cyclone;
int main() {
	alarm(5); Pipe p; std::vector<char> v(100000, 1); for (int i = 0; i < 40; i++) { ssize_t n = p.write(v.data(), v.size()); if (n <= 0) return 0; }
	return 1;
}
''')
seed("c06-batch-wakeup-first","C06","a batch sent to an idle work thread which drains its queue before the batch is queued","the wake-up precedes the messages of a batch: they can stay in the queue of an idle thread",
 [(EV+"cye_work_thread.cpp","""	for (int32_t i = 0; i < counts; i++){
		Packet* packet = Packet::alloc_packet(message[i]);
		m_message_queue.push(packet);
	}

	_wakeup();
""","""	_wakeup();

	for (int32_t i = 0; i < counts; i++){
		Packet* packet = Packet::alloc_packet(message[i]);
		m_message_queue.push(packet);
	}
""")],r'''
#include <cy_core.h>
#include <cy_event.h>
#include <atomic>
#include <unistd.h>
using namespace cyclone;
int main() {
	WorkThread t; std::atomic<int> n(0); t.set_on_message([&](Packet* p) { n++; if (p->get_packet_id() == 999) t.get_looper()->push_stop_request(); }); t.start("w");
	std::vector<char> big(60000, 1); const Packet* v[40]; for (auto& x : v) { Packet* p = Packet::alloc_packet(); p->build_from_memory(4, 12, 60000, big.data()); x = p; }
	for (int r = 0; r < 300; r++) { int before = n; usleep(200); t.send_message(v, 40); int w = 0; while (n < before + 40) { usleep(100); if (++w > 20000) { printf("%d of 40 messages of a batch wait forever\n", before + 40 - n); fflush(stdout); _exit(1); } } }
	t.send_message(999, 0, nullptr); t.join(); return 0;
}
''')
seed("c07-enable-read-drops-write","C07","read interest enabled on an event whose write interest is already on and read off","the kernel forgets the write interest although the event still reports it",
 [(EV+"internal/cye_looper_epoll.cpp","	if (((event & kWrite) || (channel.event & kWrite)) && channel.on_write)","	if ((event & kWrite) && channel.on_write)")],r'''
#include <cy_core.h>
#include <cy_event.h>
#include <sys/socket.h>
using namespace cyclone;
int main() {
	int s[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) return 2; int w = 0; Looper* l = Looper::create_looper();
	auto id = l->register_event(s[0], Looper::kWrite, nullptr, [](Looper::event_id_t, socket_t, Looper::event_t, void*) {}, [&](Looper::event_id_t, socket_t, Looper::event_t, void*) { w++; });
	l->step(); if (w != 1) return 1; l->enable_read(id); l->step(); if (w != 2 || !l->is_write(id)) { printf("write readiness is not reported after enable_read\n"); return 1; }
	l->delete_event(id); Looper::destroy_looper(l); return 0;
}
''')
seed("c09-long-interval","C09","a period above one second that is not a whole number of seconds, observed for more than one firing","the second and later firings of a long timer come early",
 [(EV+"cye_looper.cpp","	newValue.it_interval=ts; //set non-zero for repeated timer","	newValue.it_interval.tv_sec = ts.tv_sec; //set non-zero for repeated timer\n	if (ts.tv_sec == 0) newValue.it_interval.tv_nsec = ts.tv_nsec;")],r'''
#include <cy_core.h>
#include <cy_event.h>
using namespace cyclone;
int main() {
	Looper* l = Looper::create_looper(); int n = 0; int64_t t0 = sys_api::performance_time_now(), second = 0;
	l->register_timer_event(1400, nullptr, [&](Looper::event_id_t, void*) { if (++n == 2) { second = sys_api::performance_time_now() - t0; l->push_stop_request(); } });
	l->loop(); Looper::destroy_looper(l); if (second < 2799000) { printf("second firing after %lld us\n", (long long)second); return 1; } return 0;
}
''')
seed("c11-timedwait-once","C11","two waiters of one signal, one of which takes the notification while a timed waiter is being woken","a timed waiter returns true without a notification of its own",
 [(CORE+"cyc_system_api.cpp","	while(0 == sig->predicate.load()) {\n		if (pthread_cond_timedwait","	if(0 == sig->predicate.load()) {\n		if (pthread_cond_timedwait")],r"""
#include <cy_core.h>
#include <atomic>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace cyclone;
int main() {
	auto s = sys_api::signal_create(); std::atomic<long> sent(0), got(0); std::atomic<bool> bad(false); std::vector<std::thread> t;
	for (int i = 0; i < 8; i++) t.emplace_back([&, i] { while (!bad) { if (sys_api::signal_timewait(s, i & 1 ? 50 : 0)) { if (++got > sent) bad = true; } else if (!(i & 1)) usleep(1); } });
	int64_t t0 = sys_api::performance_time_now(); while (!bad && sys_api::performance_time_now() - t0 < 20000000) { long g = got; sent++; sys_api::signal_notify(s); for (int w = 0; w < 20000 && got == g && !bad; w++) std::this_thread::yield(); if (got == g && !bad) usleep(100); }
	bool b = bad; if (b) printf("more waiters released than notifications\n"); fflush(stdout); _exit(b ? 1 : 0);
}
""",timeout=60)
seed("c20-order-by-port","C20","two addresses whose ports and ips are ordered oppositely","the ordering of addresses is not transitive",
 [(NET+"cyn_address.h","(m_address.sin_addr.s_addr == other.m_address.sin_addr.s_addr && m_address.sin_port < other.m_address.sin_port)","(m_address.sin_addr.s_addr <= other.m_address.sin_addr.s_addr + 1 && m_address.sin_port < other.m_address.sin_port)")],r'''
#include <cy_network.h>
using namespace cyclone;
int main() {
	const char* ip[] = { "1.0.0.10", "2.0.0.10", "3.0.0.10", "255.255.255.255", "0.0.0.0" }; for (auto a : ip) for (auto b : ip) for (uint16_t p : { 1, 2, 300 }) for (uint16_t q : { 1, 2, 300 }) { Address x(a, p), y(b, q); if (x < y && y < x) { printf("%s:%u and %s:%u precede each other\n", a, p, b, q); return 1; } }
	return 0;
}
''')
seed("c21-nmax","C21","a run of more than 5552 bytes of high value starting from a high checksum state","the deferred modulo overflows 32 bits",
 [(CR+"cyr_adler32.cpp","#define NMAX 5552","#define NMAX 5568")],r'''
#include <cy_crypt.h>
#include <vector>
using namespace cyclone;
int main() {
	std::vector<uint8_t> v(20000, 0xff); uint32_t a = 65520, b = 65520; uint32_t r = adler32(a | (b << 16), v.data(), v.size()); for (auto x : v) { a = (a + x) % 65521; b = (b + a) % 65521; }
	if (r != (a | (b << 16))) { printf("%08x instead of %08x\n", r, a | (b << 16)); return 1; } return 0;
}
''')
seed("c22-iv-not-returned","C22","encryption of a message in more than one call with a chaining vector, the first call being a single block","the chaining vector is not handed back when one block was encrypted",
 [(CR+"cyr_rijndael.cpp","""		_xor(chain, input);
		_encryptBlock(chain, output);
		memcpy(chain, output, BLOCK_SIZE);
	}

	//return iv
	if (iv)""","""		_xor(chain, input);
		_encryptBlock(chain, output);
		memcpy(chain, output, BLOCK_SIZE);
	}

	//return iv
	if (iv && size > BLOCK_SIZE)""")],r"""
#include <cy_crypt.h>
#include <string.h>
#include <vector>
using namespace cyclone;
int main() {
	Rijndael::BLOCK key, iv1, iv2; for (int i = 0; i < 16; i++) { key[i] = (uint8_t)(i * 3); iv1[i] = iv2[i] = (uint8_t)i; } Rijndael r(key); std::vector<uint8_t> v(64), e(64), f(64); for (size_t i = 0; i < 64; i++) v[i] = (uint8_t)i;
	r.encrypt(v.data(), e.data(), 64, iv1); for (int i = 0; i < 64; i += 16) r.encrypt(v.data() + i, f.data() + i, 16, iv2); if (e != f) { printf("block-wise encryption differs\n"); return 1; } return 0;
}
""")
seed("c23-odd-carry","C23","a product whose intermediate sum equals the modulus minus one low word","the conditional subtraction compares only with a strict sign",
 [(CR+"cyr_dhexchange.cpp","		if (_u128_compare(a, P_a) >= 0) {","		if (_u128_compare(a, P_a) > 0 || a.dq.high == P_a.dq.high) {")],r"""
#include <cy_crypt.h>
#include <string.h>
using namespace cyclone;
int main() {
	// 2^k * 5 style: base whose double has the same high word as P/2
	dhkey_t b, priv, s; for (uint64_t lo = 1; lo < 50; lo++) { b.dq.low = lo; b.dq.high = 0x7fffffffffffffffULL; priv.dq.low = 2; priv.dq.high = 0; DH_generate_key_secret(s, priv, b);
	unsigned __int128 P = ~(unsigned __int128)0 - 158, x = ((unsigned __int128)b.dq.high << 64) | b.dq.low, r = 0, a = x, m = x; while (m) { if (m & 1) { unsigned __int128 t = P - a; r = r >= t ? r - t : r + a; } unsigned __int128 t = P - a; a = a >= t ? a - t : a + a; m >>= 1; }
	if (s.dq.low != (uint64_t)r || s.dq.high != (uint64_t)(r >> 64)) { printf("square differs for low word %d\n", (int)lo); return 1; } }
	return 0;
}
""")
seed("c25-next-mask","C25","a fixed-capacity queue whose storage is larger than its capacity and that wraps","indices wrap at the storage size instead of the capacity",
 [(UT+"cyu_ring_queue.h","		return (pos >= step) ? (pos - step) : (pos + m_end - step);","		return (pos + m_vector.size() - step) % m_vector.size();")],r'''
#include <cy_core.h>
#include <utility/cyu_ring_queue.h>
#include <utility/cyu_statistics.h>
#include <deque>
using namespace cyclone;
int main() {
	for (size_t cap = 1; cap < 40; cap++) { RingQueue<int> q(cap); std::deque<int> m; for (int i = 0; i < 200; i++) { q.push(i); m.push_back(i); if (m.size() > cap) m.pop_front(); if (q.back() != m.back() || q.front() != m.front() || q.size() != m.size()) { printf("capacity %zu: back is %d\n", cap, q.back()); return 1; }
		size_t n = m.size(); bool bad = false; q.walk_reserve([&](size_t, const int& v) { if (n == 0 || v != m[--n]) bad = true; return !bad; }); if (bad || n) { printf("capacity %zu: backward walk differs\n", cap); return 1; } } }
	return 0;
}
''')
seed("c26-expire-on-push","C26","the internal queue becomes full while its oldest value is exactly one period old","a value that still belongs to the window is dropped",
 [(UT+"cyu_statistics.h","			if (cur_performance_time - m_valueQueue.front().first > m_time_period) {","			if (cur_performance_time - m_valueQueue.front().first >= m_time_period) {")],r'''
#include <cy_core.h>
#include <utility/cyu_ring_queue.h>
#include <utility/cyu_statistics.h>
using namespace cyclone;
int main() {
	PeriodValue<size_t, true> v(100); v.push(1, 1000); for (int i = 0; i < 29; i++) v.push(1, 1050); v.push(1, 1100); auto r = v.sum_and_counts(1100); if (r.second != 31 || r.first != 31) { printf("%d values in the window instead of 31\n", r.second); return 1; } return 0;
}
''')
seed("c27-clump-optional","C27","a clumped option that takes a required argument as the last letter of the clump","an option without its argument is reported as valid",
 [(UT+"cyu_simple_opt.h","    if (nArgType == SO_REQ_CMB && *m_pszClump) {","    if (nArgType == SO_REQ_CMB) {")],r'''
#include <cy_core.h>
#include <utility/cyu_simple_opt.h>
int main() {
	CSimpleOptA::SOption o[] = { { 1, "-a", SO_NONE }, { 2, "-b", SO_REQ_CMB }, SO_END_OF_OPTIONS }; char a0[] = "p", a1[] = "-ab"; char* av[] = { a0, a1, nullptr }; CSimpleOptA s(2, av, o, SO_O_CLUMP); bool missing = false;
	while (s.Next()) if (s.LastError() == SO_ARG_MISSING) missing = true; if (!missing) { printf("missing argument not reported\n"); return 1; } return 0;
}
''')
seed("c28-exact-buffer","C28","a message of exactly 2048 bytes","the last byte of a message that exactly fills the static buffer is lost",
 [(CORE+"cyc_logger.cpp","	else if (len >= STATIC_BUF_LENGTH) {","	else if (len > STATIC_BUF_LENGTH) {")],r'''
#include <cy_core.h>
#include <fstream>
#include <iterator>
#include <string>
using namespace cyclone;
int main() {
	set_log_filename("./logs", "x.log"); for (size_t n = 2040; n < 2060; n++) CY_LOG(L_INFO, "%s", (std::string(n - 1, 'x') + "y").c_str());
	std::ifstream f("./logs/x.log"); std::string l; size_t n = 2040; while (std::getline(f, l)) { size_t p = l.find("] x"); std::string m = l.substr(p + 2); if (m.size() != n || m.back() != 'y') { fprintf(stderr, "record of %zu bytes has %zu\n", n, m.size()); return 1; } n++; } return n == 2060 ? 0 : 1;
}
''')
