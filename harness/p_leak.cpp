// C37: whatever is created and destroyed again leaves nothing behind: memory, descriptors, threads.
#include "net.h"
#include <sanitizer/allocator_interface.h>
#include <utility/cyu_simple_opt.h>
#include <utility/cyu_ring_queue.h>
#include <utility/cyu_statistics.h>
#include <functional>
// ---- live allocations of the process ----
static std::atomic<long> g_blocks(0), g_bytes(0);
static void on_malloc(const volatile void*, size_t n) { g_blocks++; g_bytes += (long)n; }
static void on_free(const volatile void* p) { if (!p) return; g_blocks--; g_bytes -= (long)__sanitizer_get_allocated_size(const_cast<const void*>(p)); }
struct Use { long blocks, bytes; unsigned fds, threads; };
static Use usage() { Use u; u.fds = count_fds(); u.threads = count_threads(); u.blocks = g_blocks; u.bytes = g_bytes; return u; }
// what is left once everything has come to rest
static Use settled()
{
	Use u = usage(); for (unsigned same = 0, i = 0; same < 4 && i < 400; i++) { usleep(500); Use x = usage(); same = x.blocks == u.blocks && x.bytes == u.bytes && x.fds == u.fds && x.threads == u.threads ? same + 1 : 0; if (x.blocks <= u.blocks && x.bytes <= u.bytes && x.fds <= u.fds && x.threads <= u.threads) u = x; }
	return u;
}
// ---- a program: the same operations with the same parameters, every time ----
enum Kind { RING, PACKET, LOCKS, THREADS, QUEUE, PIPE, LOOPER, WORK, SERVER, CLIENT, TEXT, SOCKETS, KINDS };
static const char* kind_name[] = { "ring buffer", "packet", "mutex/signal", "threads", "queues", "pipe", "looper", "work thread", "server", "client", "options/log", "sockets" };
struct Op { int kind; bool keep; unsigned a, b, k, mode; size_t n; uint64_t seed; };
struct World {	// what lives as long as the case
	Looper* L = nullptr; std::unique_ptr<WorkThread> wt; std::atomic<unsigned> wgot{ 0 }; std::unique_ptr<TcpServer> srv; uint16_t port = 0; std::atomic<unsigned> up{ 0 }, down{ 0 }; unsigned K = 1; std::atomic<unsigned> cmds{ 0 };
};
static bool until(const std::function<bool()>& f, int ms = 10000) { int64_t e = now_us() + ms * 1000ll; while (!f()) { if (now_us() > e) return false; usleep(100); } return true; }
struct Nowhere { int o1, o2; Nowhere() { fflush(stdout); fflush(stderr); o1 = fcntl(1, F_DUPFD_CLOEXEC, 3); o2 = fcntl(2, F_DUPFD_CLOEXEC, 3); int n = open("/dev/null", O_WRONLY | O_CLOEXEC); dup2(n, 1); dup2(n, 2); close(n); } ~Nowhere() { fflush(stdout); fflush(stderr); dup2(o1, 1); dup2(o2, 2); close(o1); close(o2); } };
static std::vector<uint8_t> bytes_of(const Op& o, size_t n) { Stream s; s.seed = o.seed; return piece(s, 0, n); }
static std::string dir() { const char* d = getenv("VH_TMP"); return d ? d : "/tmp"; }
static void op_ring(const Op& o)
{
	RingBuf* r = o.mode & 1 ? new RingBuf(o.n) : new RingBuf(); auto v = bytes_of(o, o.n); RingBuf other(o.b);
	for (unsigned i = 0; i < o.k; i++) { r->memcpy_into(v.data(), v.size()); r->memcpy_out(v.data(), o.a); r->moveto(other, o.b * 7); if (o.mode & 2) r->normalize(); if (o.mode & 4) r->resize(r->size() + o.n); r->checksum(0, r->size()); r->search(0, 7); if (o.mode & 8) r->reset(); }
	int s[2]; if ((o.mode & 16) && socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, s) == 0) { if (!r->empty()) r->write_socket(s[0]); other.read_socket(s[1]); close(s[0]); other.read_socket(s[1], false); close(s[1]); }
	delete r;
}
static void op_packet(const Op& o)
{
	auto v = bytes_of(o, o.n); Packet* p = Packet::alloc_packet();
	for (unsigned i = 0; i < o.k; i++) {
		size_t n = i & 1 ? o.n : o.a % 60000; if (n > v.size()) n = v.size(); p->build_from_memory(4 + o.b % 9, 7, (uint16_t)(n / 2), (const char*)v.data(), (uint16_t)(n / 3), (const char*)v.data());
		Packet* q = Packet::alloc_packet(p); if (o.mode & 1) q->clean(); if (o.mode & 2) q->build_from_memory(4, 1, 5, "12345"); Packet::free_packet(q);
		if (o.mode & 4) { RingBuf rb; for (unsigned r = 0; r <= o.a % 3; r++) rb.memcpy_into(p->get_memory_buf(), p->get_memory_size()); Packet* x = Packet::alloc_packet(); x->build_from_ringbuf(4 + o.b % 9, rb); while (x->build_from_ringbuf(4 + o.b % 9, rb)) {} Packet::free_packet(x); }
		if (o.mode & 8) { Pipe pp; for (unsigned r = 0; r <= o.a % 3 && r * p->get_memory_size() < 50000; r++) pp.write(p->get_memory_buf(), p->get_memory_size()); Packet x; x.build_from_pipe(4 + o.b % 9, pp); while (x.build_from_pipe(4 + o.b % 9, pp)) {} }
		if (o.mode & 16) p->clean();
	}
	Packet::free_packet(p);
}
static void op_locks(const Op& o)
{
	for (unsigned i = 0; i < o.k; i++) { sys_api::mutex_t m = sys_api::mutex_create(); if (o.mode & 1) { sys_api::mutex_lock(m); sys_api::mutex_unlock(m); } if (o.mode & 2) { if (sys_api::mutex_try_lock(m, 1)) sys_api::mutex_unlock(m); } sys_api::mutex_destroy(m);
		sys_api::signal_t s = sys_api::signal_create(); if (o.mode & 4) { sys_api::signal_notify(s); sys_api::signal_wait(s); } if (o.mode & 8) sys_api::signal_timewait(s, 0); sys_api::signal_destroy(s); }
}
static void op_threads(const Op& o)
{
	std::vector<thread_t> t; std::atomic<unsigned> run(0); std::shared_ptr<int> token(new int(3)); unsigned base = count_threads();
	for (unsigned i = 0; i < 1 + o.k % 4; i++) {
		bool det = (o.mode >> i) & 1; auto f = [&run, token, i, &o](void* p) { if (p) sys_api::thread_get_current_name(); if ((o.mode >> (i + 4)) & 1) usleep(200); run++; };
		if (det) sys_api::thread_create_detached(f, o.b & 1 ? (void*)&o : nullptr, o.a & 1 ? "detached" : nullptr); else t.push_back(sys_api::thread_create(f, o.b & 1 ? (void*)&o : nullptr, o.a & 1 ? "a thread with a rather long name" : nullptr));
	}
	if (o.a & 2) until([&] { return run == 1 + o.k % 4; }); for (auto x : t) { if (o.a & 4) { while (!sys_api::thread_join(x, 1)) {} } else sys_api::thread_join(x); }
	until([&] { return run == 1 + o.k % 4 && count_threads() <= base && token.use_count() == 1; });
}
static void op_queue(const Op& o)
{
	RingQueue<std::shared_ptr<int>> q(o.b % 5 ? o.a % 20 : 0); auto x = std::make_shared<int>(1); for (size_t i = 0; i < o.n % 300; i++) { q.push(x); if (o.mode & 1 && i % 3 == 0) q.pop(1 + o.k % 2); } if (o.mode & 2) q.reset();
	PeriodValue<size_t, true>* p = new PeriodValue<size_t, true>((int32_t)o.k * 10 + 1); for (size_t i = 0; i < o.n % 200; i++) p->push(i); p->sum_and_counts(); delete p; MinMaxValue<size_t> m; m.update(o.n);
	typedef LockFreeQueue<std::string*, 64> Q; Q* l = new Q(); for (unsigned i = 0; i < o.k; i++) { std::string* s = new std::string(100, 'x'); if (!l->push(s)) delete s; } std::string* s; while (l->pop(s)) delete s; delete l;
}
static void op_pipe(const Op& o)
{
	auto v = bytes_of(o, o.n); for (unsigned i = 0; i < o.k; i++) { Pipe* p = new Pipe(); p->write((const char*)v.data(), v.size()); if (o.mode & 1) p->read((char*)v.data(), v.size()); delete p; }
	if (o.mode & 2) { pipe_port_t h[2]; if (Pipe::construct_socket_pipe(h)) Pipe::destroy_socket_pipe(h); }
}
// timers and events on a looper; what the user does not delete himself goes with the looper
static void use_looper(Looper* L, const Op& o, bool delete_all)
{
	std::vector<Looper::event_id_t> ids, later; std::vector<std::unique_ptr<Pipe>> ps; auto token = std::make_shared<int>(0); unsigned fired = 0; ids.push_back(L->register_timer_event(1, nullptr, [](Looper::event_id_t, void*) {}));
	for (unsigned i = 0; i < o.k; i++) { Looper::event_id_t* slot = new Looper::event_id_t(); bool self = (o.mode >> (i % 8)) & 1;
		*slot = L->register_timer_event(1 + o.a % 3, nullptr, [L, self, token, &later, &fired, delete_all](Looper::event_id_t id, void*) { fired++; if (self && delete_all) { for (auto x : later) if (x == id) return; later.push_back(id); L->delete_event(id); } }); ids.push_back(*slot); delete slot; }
	for (unsigned i = 0; i < o.b % 5; i++) { ps.emplace_back(new Pipe()); ids.push_back(L->register_event(ps.back()->get_read_port(), Looper::kRead, nullptr, [token](Looper::event_id_t, socket_t fd, Looper::event_t, void*) { char b[100]; (void)!read(fd, b, sizeof b); }, nullptr)); ps.back()->write("hello", 5);
		if (o.mode & 32) { L->disable_read(ids.back()); L->enable_read(ids.back()); } }
	for (unsigned i = 0; i < o.k; i++) L->step();
	if (delete_all) { for (auto id : ids) { bool gone = false; for (auto x : later) gone |= x == id; if (!gone) L->delete_event(id); } return; }
	for (unsigned i = 0; i < ids.size(); i++) if (i > o.k || ((o.mode >> (i % 8)) & 1)) L->delete_event(ids[i]); else if (o.mode & 64) L->disable_all(ids[i]);
}
static void op_looper(World& w, const Op& o)
{
	if (o.keep) { if (!w.L) w.L = Looper::create_looper(); use_looper(w.L, o, true); return; }
	Looper* L = Looper::create_looper(); use_looper(L, o, (o.mode & 128) != 0);
	if (o.mode & 256) { L->register_timer_event(1, nullptr, [L](Looper::event_id_t, void*) { L->push_stop_request(); }); L->loop(); }
	Looper::destroy_looper(L);
}
static void op_work(World& w, const Op& o)
{
	auto v = bytes_of(o, o.n); auto post = [&](WorkThread& t) { for (unsigned i = 0; i < o.k; i++) { if (o.mode & 1) t.send_message(5, (uint16_t)o.n, (const char*)v.data()); else { Packet* a[2]; for (int j = 0; j < 2; j++) { a[j] = Packet::alloc_packet(); a[j]->build_from_memory(8, 6, (uint16_t)o.n, (const char*)v.data()); } if (o.mode & 2) t.send_message((const Packet**)a, 2); else { t.send_message(a[0]); t.send_message(a[1]); } for (int j = 0; j < 2; j++) Packet::free_packet(a[j]); } } };
	unsigned total = o.k * (o.mode & 1 ? 1 : 2);
	if (o.keep) { if (!w.wt) { w.wt.reset(new WorkThread()); w.wt->set_on_message([&w](Packet*) { w.wgot++; }); w.wt->start("kept"); } unsigned g = w.wgot; post(*w.wt); until([&] { return w.wgot >= g + total; }); return; }
	WorkThread* t = new WorkThread(); std::atomic<unsigned> got(0); bool timers = o.mode & 4;
	t->set_on_start([&, t]() { if (timers) { Op x = o; x.k = 1 + o.k % 4; x.mode &= 127; use_looper(t->get_looper(), x, false); t->get_looper()->register_timer_event(500, nullptr, [](Looper::event_id_t, void*) {}); } return true; }); t->set_on_message([&](Packet*) { got++; if (o.mode & 8) usleep(50); });
	t->start("worker"); post(*t); if (o.mode & 16) until([&] { return got >= total; }); t->get_looper()->push_stop_request(); t->join(); delete t;
}
// ---- server: connections come, talk and go ----
struct Hooks { std::atomic<unsigned>*up, *down, *cmds; };
static void wire(TcpServer& s, Hooks h)
{
	s.m_listener.on_connected = [h](TcpServer*, int32_t, TcpConnectionPtr c) { c->start_read_statistics(1000); if (c->get_id() & 1) c->start_write_statistics(1000); c->set_name("a name that does not fit into the string object"); (*h.up)++; };
	s.m_listener.on_message = [](TcpServer* sv, int32_t, TcpConnectionPtr c) { RingBuf& b = c->get_input_buf(); std::vector<char> v(b.size()); if (v.empty()) return; b.memcpy_out(v.data(), v.size()); if (v[0] == 'B') { v.assign(300000, 'b'); v[0] = 'B'; } bool end = v[0] == 'Q'; c->send(v.data(), v.size()); if (end) { sv->shutdown_connection(c); } };
	s.m_listener.on_close = [h](TcpServer*, int32_t, TcpConnectionPtr) { (*h.down)++; };
	s.m_listener.on_master_thread_command = [h](TcpServer*, Packet*) { (*h.cmds)++; }; s.m_listener.on_work_thread_command = [h](TcpServer*, int32_t, Packet*) { (*h.cmds)++; };
}
static bool talk(TcpServer& s, uint16_t port, const Op& o, Hooks h, std::vector<int>* open)
{
	unsigned up0 = *h.up, down0 = *h.down, cmd0 = *h.cmds, N = o.k, leave = 0, sent = 0; std::vector<int> fd(N); for (unsigned i = 0; i < N; i++) { fd[i] = raw_socket(nullptr, nullptr, (o.mode & 32) ? 4096 : 0); if (fd[i] < 0 || raw_connect(fd[i], port) != 1) { for (unsigned j = 0; j <= i; j++) if (fd[j] >= 0) close(fd[j]); return false; } }
	auto v = bytes_of(o, o.n + 1); std::vector<uint8_t> buf(65536);
	for (unsigned i = 0; i < N; i++) {
		unsigned m = (o.mode >> (3 * (i % 3))) & 7; if (m == 5) { if (!until([&] { return *h.up >= up0 + N; })) return false; close(fd[i]); leave++; continue; } v[0] = m == 1 ? 'B' : m == 2 ? 'Q' : 'E'; size_t s1 = 0, r1 = 0; int64_t e = now_us() + 10000000; size_t want = m == 1 ? 1 : v.size();
		while ((s1 < v.size() || r1 < want) && now_us() < e) { if (s1 < v.size()) { ssize_t k = psend(fd[i], v.data() + s1, v.size() - s1); if (k > 0) s1 += (size_t)k; else if (errno != EAGAIN) break; } ssize_t k = precv(fd[i], buf.data(), m == 1 ? 1 : buf.size()); if (k > 0) r1 += (size_t)k; else if (k == 0 || errno != EAGAIN) break; else usleep(50); }
		if (m == 2) { until([&] { return precv(fd[i], buf.data(), buf.size()) == 0 || errno != EAGAIN; }, 3000); close(fd[i]); leave++; } else if (m == 1 || m == 3) { raw_reset(fd[i]); leave++; } else if (m == 4 && open) open->push_back(fd[i]); else { close(fd[i]); leave++; }
	}
	for (unsigned i = 0; i < o.b % 4; i++) { if (i & 1) { s.send_master_message(20, 100, (const char*)buf.data()); } else { Packet* p = Packet::alloc_packet(); p->build_from_memory(4, 30, (uint16_t)(o.a % 3000), (const char*)buf.data()); s.send_work_message((int32_t)(i % (unsigned)s.get_work_thread_counts()), p); if (i & 2) s.send_master_message(p); else s.send_work_message(0, (const Packet**)&p, 1); sent++; Packet::free_packet(p); } sent++; }
	bool r = until([&] { return *h.up >= up0 + N && *h.down >= down0 + leave; }); if (open == nullptr || (o.a & 1)) r &= until([&] { return *h.cmds >= cmd0 + sent; }); return r;
}
static bool op_server(World& w, const Op& o)
{
	if (o.keep) { Hooks h{ &w.up, &w.down, &w.cmds }; if (!w.srv) { w.srv.reset(new TcpServer()); wire(*w.srv, h); std::vector<uint16_t> p; if (!bind_ports(*w.srv, 1, true, p)) { w.srv.reset(); return false; } w.port = p[0]; w.srv->start((int32_t)w.K); }
		return talk(*w.srv, w.port, o, h, nullptr); }
	std::atomic<unsigned> up(0), down(0), cmds(0); Hooks h{ &up, &down, &cmds }; TcpServer* s = new TcpServer(); wire(*s, h); std::vector<uint16_t> p; bool ok = bind_ports(*s, 1 + o.a % 3, true, p), bound = !p.empty();
	int used = raw_socket(nullptr); listen(used, 1); sockaddr_in ua; socklen_t ul = sizeof ua; getsockname(used, (sockaddr*)&ua, &ul); s->bind(Address(ua), false);	// an address that is taken
	std::vector<int> open; if (!bound) ok = false; s->start(1 + (int32_t)(o.b % 3)); if (ok) { ok = talk(*s, p[0], o, h, &open); if ((o.a & 8) && p.size() > 1) s->stop_listen(1); }
	s->stop(); s->join(); for (int f : open) close(f); delete s; close(used); return ok;
}
// ---- client on a looper of its own ----
static bool op_client(World& w, const Op& o)
{
	Looper* L; if (o.keep) { if (!w.L) w.L = Looper::create_looper(); L = w.L; } else L = Looper::create_looper();
	Looper::event_id_t tick = L->register_timer_event(1, nullptr, [](Looper::event_id_t, void*) {}); bool ok = true; auto rounds = [&](const std::function<bool()>& f) { int64_t e = now_us() + 10000000; while (!f()) { if (now_us() > e) return ok = false; L->step(); } return true; };
	for (unsigned i = 0; i < 1 + o.k % 3 && ok; i++) {
		unsigned m = (o.mode >> (3 * i)) & 7; uint16_t port; int lf = raw_socket(&port); if (lf < 0) { ok = false; break; } bool lis = m != 0 && m != 1; if (lis) listen(lf, 4);
		unsigned up = 0, fails = 0, closes = 0; size_t got = 0; auto v = bytes_of(o, o.n + 1); TcpClientPtr c = std::make_shared<TcpClient>(L, nullptr, 3);
		c->m_listener.on_connected = [&, m](TcpClientPtr p, TcpConnectionPtr cn, bool y) -> uint32_t { if (y) { up++; cn->start_read_statistics(100); cn->start_write_statistics(100); if (o.a & 1) p->send("hi", 2); } else { fails++; return m == 0 ? 1 : 30000; } return 0; };
		c->m_listener.on_message = [&](TcpClientPtr, TcpConnectionPtr cn) { got += cn->get_input_buf().size(); cn->get_input_buf().reset(); }; c->m_listener.on_close = [&](TcpClientPtr, TcpConnectionPtr) { closes++; };
		c->connect(Address(my_ip(), port)); if (m != 7) c->send((const char*)v.data(), v.size());
		if (m == 0) rounds([&] { return fails >= 2; });				// refused, tried again
		else if (m == 1) rounds([&] { return fails >= 1; });			// refused, waiting to try again when it goes
		else if (m == 7) {}											// goes while it connects
		else { rounds([&] { return up == 1; }); int f = -1; if (ok) rounds([&] { if (f < 0) f = accept4(lf, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC); return f >= 0; });
			if (ok) { psend(f, v.data(), 1); rounds([&] { return got >= 1; });
				if (m == 2) { close(f); f = -1; } else if (m == 3) { raw_reset(f); f = -1; } else { c->disconnect(); if (m == 4) c->disconnect(); }
				rounds([&] { if (f >= 0) { char b[4096]; while (precv(f, b, sizeof b) > 0) {} } return closes == 1; }); if (m == 6 && ok) { c->connect(Address(my_ip(), port)); rounds([&] { return up == 2; }); if (ok) { c->disconnect(); rounds([&] { return closes == 2; }); } } }
			if (f >= 0) close(f); }
		c->disconnect(); c.reset(); for (unsigned k = 0; k < 2; k++) L->step(); close(lf);
	}
	if (o.keep || (o.mode & 1)) L->delete_event(tick); if (!o.keep) Looper::destroy_looper(L); return ok;
}
static void op_text(const Op& o)
{
	std::vector<std::string> a{ "prog" }; for (unsigned i = 0; i < o.k; i++) a.push_back((o.mode >> (i % 8)) & 1 ? "-f" : (o.mode >> (i % 5)) & 1 ? "--name=x" : "file"); std::vector<char*> av; for (auto& s : a) av.push_back(&s[0]); CSimpleOptA::SOption so[] = { { 1, "-f", SO_NONE }, { 2, "--name", SO_REQ_SEP }, { 3, "-m", SO_MULTI }, SO_END_OF_OPTIONS };
	{ CSimpleOptA p((int)av.size(), av.data(), so); while (p.Next()) {} if (o.mode & 1) p.Init((int)av.size(), av.data(), so), p.Next(); }
	Nowhere n; static bool set; if (!set) { set = true; set_log_filename(dir().c_str(), "leak.log"); } set_log_threshold(L_TRACE); std::string big(o.n % 20000, 'z'); for (unsigned i = 0; i < 1 + o.k % 4; i++) CY_LOG(i & 1 ? L_INFO : L_ERROR, "%s %u", big.c_str(), i); set_log_threshold(L_MAXIMUM_LEVEL);
}
static void op_sockets(const Op& o)
{
	uint16_t port; int lf = raw_socket(&port); if (lf < 0) return; if (o.mode & 1) listen(lf, 4); sockaddr_in a = lo_addr(my_ip(), port);
	for (unsigned i = 0; i < o.k % 6; i++) socket_api::check_connect(a, (o.mode & 2) ? 200 : -1); close(lf);
	for (unsigned i = 0; i < o.k; i++) { socket_t s = socket_api::create_socket((i & 1) != 0); socket_api::set_nonblock(s, true); if (o.mode & 4) socket_api::connect(s, a); Address x(false, s); Address y(x); socket_api::close_socket(s); }
	if (o.mode & 8) { socket_api::resolve_hostname("127.0.0.1", a); socket_api::resolve_hostname("no such name !", a); Address z("localhost", (uint16_t)80); Address bad("256.1.1.1", (uint16_t)80); }
	if (o.mode & 16) { char b[300]; sys_api::process_get_module_name(b, sizeof b); sys_api::local_time_now(b, sizeof b, "%Y"); sys_api::get_cpu_counts(); }
}
VH_PROP(programs, 1500, 60000, 60000, false, 16)
{
	static bool once; if (!once) { once = true; __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
	unsigned n = (unsigned)c.size(1, 6); std::vector<Op> ops; World w; w.K = (unsigned)c.range(1, 2); bool net = false;
	for (unsigned i = 0; i < n; i++) { Op o; o.kind = (int)c.weighted({ 2, 3, 2, 3, 2, 2, 4, 5, 4, 5, 2, 2 }); o.keep = c.chance(1, 3); o.a = (unsigned)c.below(64); o.b = (unsigned)c.below(64); o.k = (unsigned)c.size(1, o.kind == SERVER ? 6 : 20); o.mode = (unsigned)c.below(512); o.n = c.size(0, 20000, { 1000, 1024, 1025, 4096 }); o.seed = c.raw(); ops.push_back(o); if (o.kind >= LOOPER && o.kind <= CLIENT) net = true; c.label(kind_name[o.kind]); if (o.keep && o.kind >= LOOPER && o.kind <= CLIENT) c.label("on something that stays"); }
	bool void_run = false; auto once_through = [&]() {
		for (auto& o : ops) switch (o.kind) { case RING: op_ring(o); break; case PACKET: op_packet(o); break; case LOCKS: op_locks(o); break; case THREADS: op_threads(o); break; case QUEUE: op_queue(o); break; case PIPE: op_pipe(o); break; case LOOPER: op_looper(w, o); break; case WORK: op_work(w, o); break; case SERVER: if (!op_server(w, o)) void_run = true; break; case CLIENT: if (!op_client(w, o)) void_run = true; break; case TEXT: op_text(o); break; default: op_sockets(o); } };
	// an amount that grows between any two of these points was never given back; what is merely kept for later stops growing
	std::vector<Use> u; unsigned runs = 0; static const unsigned at[] = { 3, 6, 12, 24, 48, 96, 192 }; int64_t start = now_us(); std::string what; std::string grown;
	for (unsigned p = 0; p < 7 && !void_run && now_us() - start < 40000000; p++) {
		while (runs < at[p] && !void_run) { once_through(); runs++; } if (void_run) break;
		u.push_back(settled()); if (p == 0) continue; const Use &x = u[p - 1], &y = u[p]; grown.clear();
		if (getenv("VH_SHOW")) fprintf(stderr, "%u runs: %ld blocks %ld bytes %u fds %u threads (before: %ld %ld %u %u)\n", runs, y.blocks, y.bytes, y.fds, y.threads, x.blocks, x.bytes, x.fds, x.threads);
		auto all = [&](const std::function<long(const Use&)>& f) { for (unsigned q = 1; q <= p; q++) if (f(u[q]) - f(u[q - 1]) < (long)(at[q] - at[q - 1]) / 2) return false; return true; };
		if (all([](const Use& z) { return (long)z.fds; })) grown += vh::sfmt(" %u descriptors", y.fds - x.fds); if (all([](const Use& z) { return (long)z.threads; })) grown += vh::sfmt(" %u threads", y.threads - x.threads);
		if (all([](const Use& z) { return z.blocks; })) grown += vh::sfmt(" %ld blocks", y.blocks - x.blocks); bool hard = !grown.empty(), fat = all([](const Use& z) { return z.bytes / 4; }); if (fat) grown += vh::sfmt(" %ld bytes", y.bytes - x.bytes);
		if (grown.empty()) break; if ((p == 4 && hard) || p == 6) { what = vh::sfmt("runs %u to %u of the same program left behind:%s", at[p - 1], at[p], grown.c_str()); break; }	// the room of a container may still grow for a while
	}
	if (w.srv) { w.srv->stop(); w.srv->join(); } if (w.wt) { w.wt->get_looper()->push_stop_request(); w.wt->join(); } if (w.L) Looper::destroy_looper(w.L);
	std::string k; for (auto& o : ops) k += std::string(o.keep ? " +" : " ") + kind_name[o.kind]; c.note("%s%s", k.c_str(), void_run ? " (not completed)" : ""); if (void_run) c.label("not completed"); else if (net && n > 1) c.nontrivial();
	if (!what.empty()) c.fail("%s", what.c_str());
}
int main(int argc, char** argv)
{
	vh::property_id = "C37"; vh::child_init = mute;
	vh::nontrivial_rule = "programs of 1..6 operations, each creating, using and destroying objects of one of 12 kinds (some on a looper, work thread or server that stays), repeated 6 to 48 times; non-trivial = several operations, one of them with a looper, work thread, server or client, all completed";
	vh::assumptions = { "loopback TCP of this kernel; a resource counts as given back when its number stops growing while the same program is repeated" };
	return vh::main(argc, argv);
}
