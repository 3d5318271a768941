CORE="source/cyCore/core/"; EV="source/cyEvent/event/"; NET="source/cyNetwork/network/"; CR="source/cyCrypt/crypt/"; UT="source/cyUtility/utility/"
SEEDS={}
def seed(id, property, needs, breaks, edits, demo=None, **k):
    d=dict(property=property,needs=needs,breaks=breaks,edits=edits,**k)
    if demo: d["demo"]=demo
    SEEDS[id]=d
NETH=r'''
#include <cy_core.h>
#include <cy_event.h>
#include <cy_network.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <unistd.h>
#include <atomic>
#include <functional>
#include <map>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
using namespace cyclone;
static bool waitfor(std::function<bool()> f, int ms = 8000) { for (int i = 0; i < ms; i++) { if (f()) return true; usleep(1000); } return f(); }
static int dial(int port, int rcv = 0) { int s = socket(AF_INET, SOCK_STREAM, 0); if (rcv) setsockopt(s, SOL_SOCKET, SO_RCVBUF, &rcv, sizeof rcv); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons((uint16_t)port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (connect(s, (sockaddr*)&a, sizeof a)) { close(s); return -1; } return s; }
static bool readable(int s, int ms) { pollfd p = { s, POLLIN, 0 }; return poll(&p, 1, ms) > 0; }
[[noreturn]] static void fail(const char* m) { printf("%s\n", m); fflush(stdout); _exit(1); }
'''
seed("c01-discard-to-end","C01","discarding bytes so that the read position lands exactly on the physical end of the storage, with the write position wrapped to its start","the read offset stays one past the end: a drained buffer is not recognised as empty",
 [(CORE+"cyc_ring_buf.cpp","	m_read += count;\n	m_read %= m_end;\n","	m_read += count;\n	if (m_read > m_end) m_read -= m_end;\n")],r'''
#include <cy_core.h>
#include <vector>
using namespace cyclone;
int main() {
	for (size_t cap = 4; cap < 40; cap++) for (size_t skip = 1; skip <= cap; skip++) {
		RingBuf b(cap); std::vector<uint8_t> v(cap + 1, 1); b.memcpy_into(v.data(), cap); b.discard(skip); b.memcpy_into(v.data(), 1);
		size_t n = b.size(); if (b.discard(n) != n || !b.empty() || b.size() != 0) { printf("a drained buffer is not empty (capacity %zu)\n", cap); return 1; }
	}
	return 0;
}
''')
seed("c08-stale-write","C08","a descriptor that is readable and writable in the same round, whose read callback disables its write interest (or deletes the event)","the write callback of a disabled or deleted event is still called in that round",
 [(EV+"cye_looper.cpp","			channel_s* c = &(m_channelBuffer[writeList[i]]);\n			if (c->on_write == 0 || (c->event & kWrite) == 0) continue;","			channel_s* c = &(m_channelBuffer[writeList[i]]);\n			if (c->on_write == 0) continue;")],r'''
#include <cy_core.h>
#include <cy_event.h>
#include <sys/socket.h>
using namespace cyclone;
int main() {
	int bad = 0;
	for (int mode = 0; mode < 2; mode++) {
		int s[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) return 2; if (send(s[1], "x", 1, 0) != 1) return 2;
		Looper* l = Looper::create_looper(); Looper::event_id_t id = 0; bool off = false; int rounds = 0;
		id = l->register_event(s[0], Looper::kRead | Looper::kWrite, nullptr,
			[&](Looper::event_id_t, socket_t, Looper::event_t, void*) { if (off) return; off = true; if (mode) l->delete_event(id); else { l->disable_write(id); l->disable_read(id); } },
			[&](Looper::event_id_t, socket_t, Looper::event_t, void*) { if (off) bad++; });
		l->register_timer_event(30, nullptr, [&](Looper::event_id_t, void*) { if (++rounds == 3) l->push_stop_request(); });
		l->loop(); Looper::destroy_looper(l);
	}
	if (bad) { printf("%d write callbacks of a disabled or deleted event\n", bad); return 1; }
	return 0;
}
''')
seed("c10-drain-touch","C10","another thread enabling an event between the loop's clearing of its wake-up flag and the draining of its inner pipe, and a later stop request","the wake-up flag stays set with an empty pipe: a later stop request never reaches the waiting loop",
 [(EV+"cye_looper.cpp","""	uint64_t touch = 0;
	socket_api::read(fd, &touch, sizeof(touch));

	((Looper*)param)->m_inner_pipe_touched = 0;
""","""	((Looper*)param)->m_inner_pipe_touched = 0;

	//drain the pipe
	uint64_t touch[32];
	while (socket_api::read(fd, touch, sizeof(touch)) > 0) {}
""")],r'''
#include <cy_core.h>
#include <cy_event.h>
#include <sys/socket.h>
#include <unistd.h>
#include <atomic>
#include <thread>
#include <vector>
using namespace cyclone;
int main() {
	for (int round = 0; round < 400; round++) {
		int s[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) return 2; std::atomic<Looper*> lp(nullptr); std::atomic<Looper::event_id_t> id(0); std::atomic<bool> done(false);
		std::thread t([&] { Looper* l = Looper::create_looper(); id = l->register_event(s[0], Looper::kRead, nullptr, [](Looper::event_id_t, socket_t, Looper::event_t, void*) {}, [&](Looper::event_id_t i, socket_t, Looper::event_t, void*) { lp.load()->disable_write(i); }); lp = l; l->loop(); done = true; });
		while (!lp) usleep(10);
		std::vector<std::thread> w; for (int k = 0; k < 3; k++) w.emplace_back([&] { for (int i = 0; i < 2000; i++) lp.load()->enable_write(id); });
		for (auto& x : w) x.join(); usleep(2000); lp.load()->push_stop_request();
		for (int i = 0; i < 3000 && !done; i++) usleep(1000);
		if (!done) { printf("the loop did not stop (round %d)\n", round); fflush(stdout); _exit(1); }
		t.join(); Looper::destroy_looper(lp); close(s[0]); close(s[1]);
	}
	return 0;
}
''',timeout=250)
seed("c13-disable-outside-lock","C13","a send by another thread between the moment the loop found the output buffer drained and the moment it turns the write interest off","the write interest is turned off after the other thread turned it on: its data stay in the output buffer forever",
 [(NET+"cyn_tcp_connection.cpp","		//no longer need care write-able event\n		m_looper->disable_write(m_event_id);\n	}\n","	}\n\n	//no longer need care write-able event\n	m_looper->disable_write(m_event_id);\n")],NETH+r'''
int main() {
	TcpServer srv; std::mutex m; TcpConnectionPtr c;
	srv.m_listener.on_connected = [&](TcpServer*, int32_t, TcpConnectionPtr conn) { std::lock_guard<std::mutex> g(m); c = conn; };
	if (!srv.bind(Address((uint16_t)0, true), true) || !srv.start(1)) return 2;
	int s = dial(srv.get_bind_address(0).get_port()); if (s < 0 || !waitfor([&] { std::lock_guard<std::mutex> g(m); return c != nullptr; })) return 2;
	std::vector<char> b(1 << 16); std::atomic<int> go(0), fin(0); const int T = 4;
	std::vector<std::thread> t; for (int k = 0; k < T; k++) t.emplace_back([&] { for (int r = 1;; r++) { while (go < r) {} char x[8] = "abcdefg"; c->send(x, 8); fin++; } });
	for (int r = 1; r <= 60000; r++) { fin = 0; go = r; size_t want = 8 * T, got = 0; while (got < want) { if (!readable(s, 3000)) { printf("data are left in the output buffer (round %d)\n", r); fflush(stdout); _exit(1); } ssize_t n = recv(s, b.data(), b.size(), 0); if (n <= 0) _exit(2); got += (size_t)n; } while (fin < T) {} }
	_exit(0);
}
''',timeout=200)
seed("c14-id-from-count","C14","a connection accepted after another one of the same work thread has been closed while a later one is still open","connection ids are derived from the number of open connections: two open connections get the same id",
 [(NET+"internal/cyn_tcp_server_work_thread.cpp","		TcpConnectionPtr conn = std::make_shared<TcpConnection>(m_server->get_next_connection_id(), newConnectionCmd.sfd, m_work_thread->get_looper(), this);","		int32_t conn_id = (int32_t)m_connections.size() * m_server->get_work_thread_counts() + get_index() + 1;\n		TcpConnectionPtr conn = std::make_shared<TcpConnection>(conn_id, newConnectionCmd.sfd, m_work_thread->get_looper(), this);")],NETH+r'''
int main() {
	TcpServer srv; std::mutex m; std::map<int, int> open; std::atomic<int> n(0), closed(0); std::atomic<bool> dup(false);
	srv.m_listener.on_connected = [&](TcpServer*, int32_t, TcpConnectionPtr conn) { std::lock_guard<std::mutex> g(m); if (open[conn->get_id()]++) { dup = true; fail("two connections with one id"); } n++; };
	srv.m_listener.on_close = [&](TcpServer*, int32_t, TcpConnectionPtr) { closed++; };
	if (!srv.bind(Address((uint16_t)0, true), true) || !srv.start(2)) return 2;
	int port = srv.get_bind_address(0).get_port(); std::vector<int> s; for (int i = 0; i < 6; i++) s.push_back(dial(port));
	if (!waitfor([&] { return n == 6; })) fail("not connected");
	close(s[0]); close(s[1]); waitfor([&] { return closed == 2; }); usleep(200000); for (int i = 0; i < 6; i++) s.push_back(dial(port));
	if (!waitfor([&] { return n == 12; })) fail("not connected");
	_exit(dup ? 1 : 0);
}
''')
seed("c15-second-shutdown","C15","a second shutdown while output accepted before the first is still waiting for a slow peer","a repeated shutdown closes at once and drops the pending output",
 [(NET+"cyn_tcp_connection.cpp","	m_state = kDisconnecting;\n","	bool waiting = (m_state.exchange(kDisconnecting) == kDisconnecting);\n"),
  (NET+"cyn_tcp_connection.cpp","	if (m_looper->is_write(m_event_id) && !_is_writeBuf_empty()) return;","	if (!waiting && m_looper->is_write(m_event_id) && !_is_writeBuf_empty()) return;")],NETH+r'''
int main() {
	const size_t N = 6000000; std::vector<char> all(N, 'z'); TcpServer srv; Looper* l = nullptr; TcpConnectionPtr c; int ticks = 0;
	srv.m_listener.on_work_thread_start = [&](TcpServer*, int32_t, Looper* lo) { l = lo; };
	srv.m_listener.on_connected = [&](TcpServer*, int32_t, TcpConnectionPtr conn) { c = conn; conn->send(all.data(), N); conn->shutdown();
		l->register_timer_event(20, nullptr, [&](Looper::event_id_t id, void*) { if (++ticks == 3) { if (c->get_state() == TcpConnection::kDisconnecting) c->shutdown(); l->delete_event(id); } }); };
	if (!srv.bind(Address((uint16_t)0, true), true) || !srv.start(1)) return 2;
	int s = dial(srv.get_bind_address(0).get_port(), 8192); if (s < 0) return 2; usleep(200000);
	size_t got = 0; std::vector<char> b(1 << 16); while (readable(s, 8000)) { ssize_t n = recv(s, b.data(), b.size(), 0); if (n <= 0) break; got += (size_t)n; }
	if (got != N) { printf("%zu of %zu bytes arrived\n", got, N); fflush(stdout); _exit(1); }
	_exit(0);
}
''')
seed("c16-accept-after-stop","C16","a connection that waits to be accepted at the moment stop is requested, while the master thread is busy","the connection is accepted and forgotten: its peer never sees it end and the descriptor leaks",
 [(NET+"internal/cyn_tcp_server_master_thread.cpp","	if (m_server->m_shutdown_ing.load() > 0) return;\n\n	//call accept","	//call accept"),
  (NET+"internal/cyn_tcp_server_master_thread.cpp","	m_server->_on_accept_socket(connfd);","	if (m_server->m_shutdown_ing.load() > 0) return;\n\n	m_server->_on_accept_socket(connfd);")],NETH+r'''
int main() {
	for (int r = 0; r < 60; r++) {
		TcpServer* srv = new TcpServer(); std::atomic<int> in(0), go(0), n(0);
		srv->m_listener.on_connected = [&](TcpServer*, int32_t, TcpConnectionPtr) { n++; };
		srv->m_listener.on_master_thread_command = [&](TcpServer*, Packet*) { in = 1; while (!go) usleep(100); };
		if (!srv->bind(Address((uint16_t)0, true), true) || !srv->start(1)) return 2;
		int port = srv->get_bind_address(0).get_port(); srv->send_master_message(TcpServer::kCustomMasterThreadCmdID_Begin + 3, 0, nullptr);
		if (!waitfor([&] { return in == 1; })) return 2;
		std::vector<int> s; for (int i = 0; i < 100; i++) { int x = dial(port); if (x >= 0) s.push_back(x); }
		go = 1; while (n < 10) {} for (volatile int i = 0; i < r * 500; i++) {} srv->stop(); srv->join(); delete srv;
		for (int x : s) { if (!readable(x, 3000)) fail("a peer never sees the end of its connection"); close(x); }
	}
	_exit(0);
}
''')
seed("c17-blocking-accepted","C17","a peer that stops reading while the server sends it more than the kernel buffers hold","accepted connections are left in blocking mode: one stalled peer blocks the work thread and everybody on it",
 [(NET+"cyn_tcp_connection.cpp","	//set socket to non-block and close-onexec\n	socket_api::set_nonblock(sfd, true);\n","	//non-block mode was set when the socket was created, set close-onexec\n")],NETH+r'''
int main() {
	std::vector<char> all(30000000, 'z'); TcpServer srv;
	srv.m_listener.on_message = [&](TcpServer*, int32_t, TcpConnectionPtr conn) { char x = 0; conn->get_input_buf().memcpy_out(&x, 1); conn->get_input_buf().reset(); if (x == 'B') conn->send(all.data(), all.size()); else conn->send("ok", 2); };
	if (!srv.bind(Address((uint16_t)0, true), true) || !srv.start(1)) return 2;
	int port = srv.get_bind_address(0).get_port(); int a = dial(port, 4096), b = dial(port); if (a < 0 || b < 0) return 2;
	if (send(a, "B", 1, 0) != 1) return 2; usleep(300000); if (send(b, "x", 1, 0) != 1) return 2;
	if (!readable(b, 5000)) fail("a stalled peer keeps another connection from being served");
	_exit(0);
}
''')
seed("c18-close-bound-late","C18","a disconnect requested inside the connected callback","the connection made is never reported as closed",
 [(NET+"cyn_tcp_client.cpp","""		if(m_listener.on_close) {
			m_connection->set_on_close([this](TcpConnectionPtr conn) {
				CY_LOG(L_DEBUG, "disconnect from %s:%d", m_serverAddr.get_ip(), m_serverAddr.get_port());
				m_listener.on_close(shared_from_this(), conn);
			});
		}

		//logic callback
		if (m_listener.on_connected) {
			m_listener.on_connected(shared_from_this(), m_connection, true);
		}
""","""		//logic callback
		if (m_listener.on_connected) {
			m_listener.on_connected(shared_from_this(), m_connection, true);
		}

		if(m_listener.on_close) {
			m_connection->set_on_close([this](TcpConnectionPtr conn) {
				CY_LOG(L_DEBUG, "disconnect from %s:%d", m_serverAddr.get_ip(), m_serverAddr.get_port());
				m_listener.on_close(shared_from_this(), conn);
			});
		}
""")],NETH+r'''
int main() {
	TcpServer srv; if (!srv.bind(Address((uint16_t)0, true), true) || !srv.start(1)) return 2;
	Looper* l = Looper::create_looper(); int up = 0, closed = 0, ticks = 0; TcpClientPtr c = std::make_shared<TcpClient>(l, nullptr, 1);
	c->m_listener.on_connected = [&](TcpClientPtr k, TcpConnectionPtr, bool ok) -> uint32_t { if (ok) { up++; k->disconnect(); } return 0; };
	c->m_listener.on_close = [&](TcpClientPtr, TcpConnectionPtr) { closed++; };
	c->connect(Address("127.0.0.1", srv.get_bind_address(0).get_port()));
	l->register_timer_event(20, nullptr, [&](Looper::event_id_t, void*) { if (++ticks == 40) l->push_stop_request(); }); l->loop();
	if (up != 1) _exit(2);
	if (closed != 1) { printf("%d close callbacks for one connection\n", closed); fflush(stdout); _exit(1); }
	_exit(0);
}
''')
seed("c19-first-custom-id","C19","a message to the master thread whose id is the very first of the custom range","it is not delivered",
 [(NET+"internal/cyn_tcp_server_master_thread.cpp","	else if (msg_id >= kCustomCmdID_Begin) {","	else if (msg_id > kCustomCmdID_Begin) {")],NETH+r'''
int main() {
	TcpServer srv; std::atomic<int> n(0); srv.m_listener.on_master_thread_command = [&](TcpServer*, Packet*) { n++; };
	if (!srv.bind(Address((uint16_t)0, true), true) || !srv.start(1)) return 2;
	for (int i = 0; i < 5; i++) srv.send_master_message((uint16_t)(TcpServer::kCustomMasterThreadCmdID_Begin + i), 0, nullptr);
	if (!waitfor([&] { return n == 5; }, 3000)) fail("a message to the master thread was not delivered");
	srv.stop(); srv.join(); return 0;
}
''')
seed("c20-order-memcmp","C20","two equal addresses of which one comes from a socket address with non-zero padding","the order compares the padding too: equal addresses are ordered before each other",
 [(NET+"cyn_address.h","		return (m_address.sin_addr.s_addr < other.m_address.sin_addr.s_addr) || (m_address.sin_addr.s_addr == other.m_address.sin_addr.s_addr && m_address.sin_port < other.m_address.sin_port);","		return memcmp(&m_address, &other.m_address, sizeof(m_address)) < 0;")],r'''
#include <cy_core.h>
#include <cy_network.h>
#include <set>
using namespace cyclone;
int main() {
	sockaddr_in a; memset(&a, 0x5a, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(80); a.sin_addr.s_addr = htonl(0x0a000001);
	Address x(a), y("10.0.0.1", 80); std::set<Address> s; s.insert(x); s.insert(y);
	if (!(x == y)) return 2;
	if (x < y || y < x || s.size() != 1) { printf("equal addresses are ordered\n"); return 1; }
	return 0;
}
''')
seed("c22-empty-piece","C22","an empty piece among the pieces of a message being decrypted","the chaining value is taken from before the empty piece's buffer: the following piece is decrypted wrongly",
 [(CR+"cyr_rijndael.cpp","""	BLOCK temp;
	for (size_t i = 0; i < size; i += BLOCK_SIZE, input += BLOCK_SIZE, output += BLOCK_SIZE) {""","""	//the last cipher block chains to the next piece
	BLOCK next;
	memcpy(next, input + size - BLOCK_SIZE, BLOCK_SIZE);

	BLOCK temp;
	for (size_t i = 0; i < size; i += BLOCK_SIZE, input += BLOCK_SIZE, output += BLOCK_SIZE) {"""),
  (CR+"cyr_rijndael.cpp","""		memcpy(output, temp, BLOCK_SIZE);
	}

	//return iv
	if (iv)
		memcpy(iv, chain, BLOCK_SIZE);""","""		memcpy(output, temp, BLOCK_SIZE);
	}

	//return iv
	if (iv)
		memcpy(iv, next, BLOCK_SIZE);""")],r'''
#include <cy_core.h>
#include <cy_crypt.h>
using namespace cyclone;
int main() {
	Rijndael::BLOCK key, iv, iv2; for (int i = 0; i < 16; i++) { key[i] = (uint8_t)(i * 9); iv[i] = iv2[i] = (uint8_t)(200 - i); }
	Rijndael aes(key); uint8_t p[16 + 64], c[64], d[64]; memset(p, 7, sizeof p); for (int i = 0; i < 64; i++) p[16 + i] = (uint8_t)(i * 3);
	aes.encrypt(p + 16, c, 64, iv); uint8_t gap[64]; memset(gap, 1, sizeof gap);
	aes.decrypt(c, d, 32, iv2); aes.decrypt(gap + 32, gap + 32, 0, iv2); aes.decrypt(c + 32, d + 32, 32, iv2);
	if (memcmp(d, p + 16, 64)) { printf("decrypted text differs\n"); return 1; }
	return 0;
}
''')
seed("c23-low-limb-base","C23","a private key whose upper half is not zero and whose lower half is one (or becomes one while it is halved)","exponentiation stops too early",
 [(CR+"cyr_dhexchange.cpp","	if (b.dq.high == 0 && b.dq.low == 1) {","	if (b.dq.low == 1) {")],r'''
#include <cy_core.h>
#include <cy_crypt.h>
using namespace cyclone;
int main() {
	dhkey_t g = { { 5, 0 } };
	// g^(2^64+1) = (g^(2^32))^(2^32) * g: the same power computed in steps
	dhkey_t e = { { 1, 1 } }, h = { { 1ull << 32, 0 } }, a, b, c, one = { { 1, 0 } }; (void)one;
	DH_generate_key_secret(a, e, g); DH_generate_key_secret(b, h, g); DH_generate_key_secret(b, h, b);
	// b = g^(2^64); a must be b*g: compare a^(2^64+1) both ways through exchange symmetry
	dhkey_t p1 = { { 1, 0x123456789 } }, p2 = { { 77, 3 } }, u1, u2, s1, s2; DH_generate_key_secret(u1, p1, g); DH_generate_key_secret(u2, p2, g);
	DH_generate_key_secret(s1, p1, u2); DH_generate_key_secret(s2, p2, u1); (void)c;
	if (a.dq.low == 5 && a.dq.high == 0) { printf("g^(2^64+1) = g\n"); return 1; }
	if (s1.dq.low != s2.dq.low || s1.dq.high != s2.dq.high) { printf("the secrets differ\n"); return 1; }
	return 0;
}
''')
seed("c24-tail-word","C24","a buffer whose length is not a multiple of eight and that ends at the end of accessible memory (or next to data another thread uses)","the tail is processed as a whole word: up to seven bytes after the buffer are read and rewritten",
 [(CR+"cyr_xorshift128.cpp","""	for (size_t t = 0; t < tail_bytes; t++) {
		*(((uint8_t*)input) + t) ^= (uint8_t)((last_seed >> (t<<3)) & 0xFF);
	}""","""	(*input) ^= last_seed & ((((uint64_t)1) << (tail_bytes << 3)) - 1);""")],r'''
#include <cy_core.h>
#include <cy_crypt.h>
#include <sys/mman.h>
using namespace cyclone;
int main() {
	uint8_t* m = (uint8_t*)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m + 4096, 4096, PROT_NONE);
	for (size_t n = 1; n < 64; n++) { XorShift128 a, b; a.seed0 = b.seed0 = 5; a.seed1 = b.seed1 = 9; uint8_t* p = m + 4096 - n; memset(p, 3, n); xorshift128(p, n, a); xorshift128(p, n, b); for (size_t i = 0; i < n; i++) if (p[i] != 3) return 1; }
	return 0;
}
''')
PY='''#!/bin/bash
# run in /repo after the build: exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
exec 3<&0
repo=$PWD; cd "$t" && timeout 200 python3 "$here/demo.py" "$repo/_build/samples"
'''
PYH=r'''
import os, random, select, socket, subprocess, sys, threading, time
S = sys.argv[1]; procs = []
def free():
    # below the ephemeral range: a connect to a port nobody listens on yet must not meet itself
    while True:
        p = random.randrange(12000, 30000); s = socket.socket()
        try: s.bind(("127.0.0.1", p)); return p
        except OSError: pass
        finally: s.close()
def run(*a):
    p = subprocess.Popen(list(a), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL); procs.append(p); return p
def dial(port, tries=100):
    for _ in range(tries):
        try: return socket.create_connection(("127.0.0.1", port), 5)
        except OSError: time.sleep(0.05)
    end(2, "cannot connect")
def end(code, text=""):
    for p in procs: p.kill(); p.wait()
    print(text, flush=True); os._exit(code)
def exact(s, n, t=10):
    s.settimeout(t); b = b""
    try:
        while len(b) < n:
            x = s.recv(n - len(b))
            if not x: break
            b += x
    except OSError: pass
    return b
'''
seed("c29-signed-name-length","C29","a connect request with a domain name of 128 to 249 bytes","the length is read as a negative number and the request waits forever for more",
 [("samples/socks5/s5_protocol.cpp","		uint8_t domain_length;\n		if (sizeof(uint8_t) != inputBuf.peek(4, &domain_length, sizeof(uint8_t))) return S5ERR_NEED_MORE_DATA;","		char domain_length;\n		if (sizeof(uint8_t) != inputBuf.peek(4, &domain_length, sizeof(uint8_t))) return S5ERR_NEED_MORE_DATA;")],
 demo_sh=PY,files={"demo.py":PYH+r'''
port = free(); run(S + "/socks5/socks5", "-p", str(port), "-t", "2")
for n in (3, 100, 130, 200):
    s = dial(port); s.sendall(b"\5\1\0")
    if exact(s, 2) != b"\5\0": end(2, "handshake")
    s.sendall(b"\5\1\0\3" + bytes([n]) + b"x" * n + b"\0\x50"); s.settimeout(20)
    try: r = s.recv(100)
    except socket.timeout: end(1, "no answer to a request with a name of %d bytes" % n)
    except OSError: pass
    s.close()
end(0)
'''})
seed("c30-block-overflow","C30","a client that sends so fast that 65528 or more bytes are waiting when the relay reads them","the size of the tunnel packet overflows 16 bits and the session's bytes are damaged",
 [("samples/relay/relay_local.cpp","			size_t msgSize = (ringBuf.size() < 0xFF00u) ? ringBuf.size() : 0xFF00u;","			size_t msgSize = (ringBuf.size() < 0xFFFFu) ? ringBuf.size() : 0xFFFFu;")],
 demo_sh=PY,files={"demo.py":PYH+r'''
up = socket.socket(); up.bind(("127.0.0.1", 0)); up.listen(10); a, b = free(), free()
run(S + "/relay/relay_server", "-p", str(b), "-uh", "127.0.0.1", "-up", str(up.getsockname()[1]), "-t", "1"); dial(b).close()
run(S + "/relay/relay_local", "-p", str(a), "-uh", "127.0.0.1", "-up", str(b), "-t", "1"); time.sleep(1.5)
c = dial(a); up.settimeout(10)
try: u, _ = up.accept()
except OSError: end(2, "no session")
data = os.urandom(4000000); got = []
t = threading.Thread(target=lambda: got.append(exact(u, len(data), 5))); t.start()
try: c.sendall(data)
except OSError: pass
t.join()
if got[0] != data: end(1, "%d of %d bytes arrived, equal=%s" % (len(got[0]), len(data), got[0] == data[:len(got[0])]))
end(0)
'''})
seed("c32-one-packet-per-read","C32","several chat packets arriving in one piece with nothing after them","only the first is forwarded, the others wait for the next input",
 [("samples/chat/chat_server.cpp","		for (;;)\n		{\n			Packet packet;","		{\n			Packet packet;")],
 demo_sh=PY,files={"demo.py":PYH+r'''
port = free(); run(S + "/chat/chat-server", "-p", str(port)); s = dial(port); time.sleep(0.3)
m = b"".join(bytes([0, len(x), 0, 1]) + x for x in (b"one", b"two", b"three")); s.sendall(m); g = exact(s, len(m), 5)
if g != m: end(1, "%d of %d bytes were forwarded" % (len(g), len(m)))
end(0)
'''})
