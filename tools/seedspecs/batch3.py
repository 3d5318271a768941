CORE="source/cyCore/core/"; EV="source/cyEvent/event/"; NET="source/cyNetwork/network/"; CR="source/cyCrypt/crypt/"; UT="source/cyUtility/utility/"
SEEDS={}
def seed(id, property, needs, breaks, edits, demo=None, **k):
    d=dict(property=property,needs=needs,breaks=breaks,edits=edits,**k)
    if demo: d["demo"]=demo
    SEEDS[id]=d
NETH=r'''
#include <cy_core.h>
#include <cy_event.h>
#include <cy_network.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <unistd.h>
#include <atomic>
#include <functional>
#include <map>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
using namespace cyclone;
static bool waitfor(std::function<bool()> f, int ms = 8000) { for (int i = 0; i < ms; i++) { if (f()) return true; usleep(1000); } return f(); }
static int dial(int port, int rcv = 0) { int s = socket(AF_INET, SOCK_STREAM, 0); if (rcv) setsockopt(s, SOL_SOCKET, SO_RCVBUF, &rcv, sizeof rcv); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons((uint16_t)port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (connect(s, (sockaddr*)&a, sizeof a)) { close(s); return -1; } return s; }
static bool readable(int s, int ms) { pollfd p = { s, POLLIN, 0 }; return poll(&p, 1, ms) > 0; }
[[noreturn]] static void fail(const char* m) { printf("%s\n", m); fflush(stdout); _exit(1); }
'''
PY='''#!/bin/bash
# run in /repo after the build: exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
exec 3<&0
repo=$PWD; cd "$t" && timeout 200 python3 "$here/demo.py" "$repo/_build/samples"
'''
PYH=r'''
import os, random, select, socket, subprocess, sys, threading, time
S = sys.argv[1]; procs = []
def free():
    # below the ephemeral range: a connect to a port nobody listens on yet must not meet itself
    while True:
        p = random.randrange(12000, 30000); s = socket.socket()
        try: s.bind(("127.0.0.1", p)); return p
        except OSError: pass
        finally: s.close()
def run(*a):
    p = subprocess.Popen(list(a), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL); procs.append(p); return p
def dial(port, tries=100):
    for _ in range(tries):
        try: return socket.create_connection(("127.0.0.1", port), 5)
        except OSError: time.sleep(0.05)
    end(2, "cannot connect")
def end(code, text=""):
    for p in procs: p.kill(); p.wait()
    print(text, flush=True); os._exit(code)
def exact(s, n, t=10):
    s.settimeout(t); b = b""
    try:
        while len(b) < n:
            x = s.recv(n - len(b))
            if not x: break
            b += x
    except OSError: pass
    return b
'''
seed("c05-write-loop","C05","a write larger than the room left in the pipe","the part that fitted was written, but the write reports an error instead of its length",
 [(EV+"cye_pipe.cpp","	return socket_api::write(m_pipe_fd[1], buf, len);\n","	//write all of it\n	size_t done = 0;\n	while (done < len) {\n		ssize_t wrote = socket_api::write(m_pipe_fd[1], buf + done, len - done);\n		if (wrote < 0) return wrote;\n		done += (size_t)wrote;\n	}\n	return (ssize_t)done;\n")],NETH+r"""
int main() {
	Pipe p; std::vector<char> b(100000, 'x'); ssize_t n = p.write(b.data(), b.size()); size_t got = 0; ssize_t k; std::vector<char> r(200000);
	while ((k = p.read(r.data(), r.size())) > 0) got += (size_t)k;
	if (n != (ssize_t)got) { printf("write said %zd, %zu bytes were in the pipe\n", n, got); return 1; }
	return 0;
}
""")
seed("c12-full-input","C12","a callback that leaves its input unread until the input buffer is exactly full","the full buffer reads nothing, which is taken for the end of the stream",
 [(NET+"cyn_tcp_connection.cpp","	ssize_t len = m_read_buf.read_socket(m_socket);\n","	//don't read more than the input buffer can hold\n	ssize_t len = m_read_buf.read_socket(m_socket, false);\n")],NETH+r"""
int main() {
	TcpServer srv; std::atomic<size_t> have(0); std::atomic<int> closed(0); const size_t N = 60000;
	srv.m_listener.on_message = [&](TcpServer*, int32_t, TcpConnectionPtr c) { have = c->get_input_buf().size(); };
	srv.m_listener.on_close = [&](TcpServer*, int32_t, TcpConnectionPtr) { closed++; };
	if (!srv.bind(Address((uint16_t)0, true), true) || !srv.start(1)) _exit(2);
	int s = dial(srv.get_bind_address(0).get_port()); if (s < 0) _exit(2); std::vector<char> b(N, 'q');
	for (size_t i = 0; i < N; i += 500) { if (send(s, b.data(), 500, MSG_NOSIGNAL) != 500) fail("the connection broke"); if (!waitfor([&] { return have == i + 500 || closed > 0; })) fail("bytes are missing"); if (closed) fail("the connection was closed"); }
	_exit(0);
}
""")
seed("c18-cache-survives","C18","something sent while connecting, a disconnect before the connection is there, and another connect","the data of the cancelled attempt are sent on the new connection",
 [(NET+"cyn_tcp_client.cpp","	m_sendCache.reset();\n	m_attempt++","	m_attempt++")],NETH+r"""
int main() {
	int l = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t n = sizeof a; if (bind(l, (sockaddr*)&a, n) || listen(l, 5) || getsockname(l, (sockaddr*)&a, &n)) return 2;
	Looper* lo = Looper::create_looper(); TcpClientPtr c = std::make_shared<TcpClient>(lo, nullptr);
	c->m_listener.on_connected = [&](TcpClientPtr k, TcpConnectionPtr, bool ok) -> uint32_t { if (ok) k->send("new", 3); return 0; };
	c->connect(Address(a)); c->send("old", 3); c->disconnect(); c->connect(Address(a)); for (int i = 0; i < 5; i++) lo->step();
	std::string all; for (int k = 0; k < 2; k++) { if (!readable(l, 500)) break; int s = accept(l, nullptr, nullptr); char b[100]; while (readable(s, 500)) { ssize_t m = recv(s, b, 100, 0); if (m <= 0) break; all.append(b, (size_t)m); } close(s); }
	if (all != "new") { printf("received \"%s\"\n", all.c_str()); fflush(stdout); _exit(1); }
	_exit(0);
}
""")
seed("c31-begin-unchecked","C31","a server that answers with another part of the file than the one asked for","the part is taken as the one asked for and the client reports success with a wrong file",
 [("samples/filetransfer/ft_client.cpp","		if (fileBegin.id != FT_ReplyFileFragment_Begin::ID || fileBegin.fileOffset != ctx->fileOffset || fileBegin.fragmentSize != ctx->fragmentSize) {","		if (fileBegin.id != FT_ReplyFileFragment_Begin::ID || fileBegin.fragmentSize != ctx->fragmentSize) {")],
 files={"demo.cpp":NETH+r"""
#include <cy_crypt.h>
#include "ft_common.h"
#include <sys/wait.h>
#include <sys/stat.h>
// a server with one thread more than it admits: answers the query, then serves offset+16
int main(int argc, char** argv) {
	int l = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t n = sizeof a; if (bind(l, (sockaddr*)&a, n) || listen(l, 5) || getsockname(l, (sockaddr*)&a, &n)) return 2;
	pid_t pid = fork(); if (!pid) { char port[16]; snprintf(port, 16, "%d", ntohs(a.sin_port)); (void)!freopen("/dev/null", "w", stdout); execl(argv[1], argv[1], "-h", "127.0.0.1", "-p", port, (char*)0); _exit(3); }
	const char* name = "file.bin"; const size_t SZ = 5000;
	for (int k = 0; k < 2; k++) {
		if (!readable(l, 8000)) fail("the client does not connect"); int s = accept(l, nullptr, nullptr); char b[4096]; size_t have = 0; FT_Head h; while (have < sizeof h) { ssize_t r = recv(s, b + have, sizeof b - have, 0); if (r <= 0) return 2; have += (size_t)r; } memcpy(&h, b, sizeof h); while (have < (size_t)h.size) { ssize_t r = recv(s, b + have, sizeof b - have, 0); if (r <= 0) return 2; have += (size_t)r; }
		if (k == 0) { std::vector<char> o(sizeof(FT_ReplyFileInfo) + strlen(name) + 1); FT_ReplyFileInfo r; memset((void*)&r, 0, sizeof r); r.id = FT_ReplyFileInfo::ID; r.size = (int32_t)o.size(); r.threadCounts = 1; r.fileSize = SZ; r.nameLength = (int32_t)strlen(name) + 1; memcpy(o.data(), &r, sizeof r); strcpy(o.data() + sizeof r, name); (void)!send(s, o.data(), o.size(), MSG_NOSIGNAL); }
		else { FT_RequireFileFragment q; memcpy(&q, b, sizeof q); std::vector<uint8_t> d(SZ, 'w'); FT_ReplyFileFragment_Begin f; memset((void*)&f, 0, sizeof f); f.id = FT_ReplyFileFragment_Begin::ID; f.size = sizeof f; f.fileOffset = q.fileOffset + 16; f.fragmentSize = q.fragmentSize; FT_ReplyFileFragment_End e; memset((void*)&e, 0, sizeof e); e.id = FT_ReplyFileFragment_End::ID; e.size = sizeof e; e.fragmentCRC = adler32(INITIAL_ADLER, d.data(), SZ);
			(void)!send(s, &f, sizeof f, MSG_NOSIGNAL); (void)!send(s, d.data(), SZ, MSG_NOSIGNAL); (void)!send(s, &e, sizeof e, MSG_NOSIGNAL); }
		readable(s, 3000); usleep(300000); close(s);
	}
	int st = 0; for (int i = 0; i < 10000 && waitpid(pid, &st, WNOHANG) == 0; i++) usleep(1000); kill(pid, SIGKILL);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) fail("the client reports success");
	return 0;
}
"""},demo_sh=r"""#!/bin/bash
# run in /repo after the build: exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O1 -g -include memory -I_build/source -Isource/cyCore -Isource/cyEvent -Isource/cyNetwork -Isource/cyCrypt -Isource/cyUtility -Isamples/filetransfer \
	-o "$t/demo" "$here/demo.cpp" _build/source/libcyclone.a -lpthread -ldl || exit 2
c=$(find "$PWD/_build" -name ft-client -type f | head -1)
cd "$t" && timeout 100 ./demo "$c"
""")
seed("c33-nonblock-flags","C33","a descriptor with another status flag set, such as O_ASYNC or O_APPEND, that is switched back to blocking mode","the other flags are lost with it",
 [(CORE+"cyc_socket_api.cpp","enable ? (flags | O_NONBLOCK) : (flags & ~O_NONBLOCK)","enable ? (flags | O_NONBLOCK) : (flags & O_ACCMODE)")],NETH+r"""
int main() { int s = socket(AF_INET, SOCK_STREAM, 0); fcntl(s, F_SETFL, fcntl(s, F_GETFL) | O_ASYNC); socket_api::set_nonblock(s, true); socket_api::set_nonblock(s, false); if (!(fcntl(s, F_GETFL) & O_ASYNC)) fail("another flag was changed"); return 0; }
""")
seed("c33-inet-aton","C33","address text in one of the old abbreviated or octal forms","it is not refused but read as some address",
 [(CORE+"cyc_socket_api.cpp","	if (::inet_pton(AF_INET, ip, &a) != 1)\n","	if (::inet_aton(ip, &a) != 1)\n")],NETH+r"""
int main() { in_addr a; for (const char* t : { "1.2.3", "010.0.0.1", "127.1", "0x7f.0.0.1", "1.2.3.4 x" }) if (socket_api::inet_pton(t, a)) { printf("%s is taken for an address\n", t); return 1; } return 0; }
""")
seed("c34-utc-32bit","C34","a system clock beyond January 2038","the seconds are cut to 32 bits",
 [(CORE+"cyc_system_api.cpp","	int64_t seconds = tv.tv_sec;\n	return seconds * kMicroSecondsPerSecond + tv.tv_usec;","	const int32_t seconds = (int32_t)tv.tv_sec;\n	return seconds * kMicroSecondsPerSecond + tv.tv_usec;")],r"""
#include <cy_core.h>
#include <sys/time.h>
#include <time.h>
static time_t now_s = 4000000000LL;
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { tv->tv_sec = now_s; tv->tv_usec = 7; return 0; }
int main() { if (cyclone::sys_api::utc_time_now() != 4000000000LL * 1000000 + 7) { printf("wrong time\n"); return 1; } return 0; }
""")
seed("c34-sleep-signal","C34","a signal handled by the sleeping thread","the sleep ends early",
 [(CORE+"cyc_system_api.cpp","	std::this_thread::sleep_for(std::chrono::milliseconds(msec));\n","	struct timespec ts = { msec / 1000, (msec % 1000) * 1000000L };\n	nanosleep(&ts, nullptr);\n")],NETH+r"""
static void on(int) {}
int main() { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = on; sigaction(SIGUSR1, &a, nullptr); pthread_t me = pthread_self(); std::thread t([&] { for (int i = 0; i < 5; i++) { usleep(20000); pthread_kill(me, SIGUSR1); } }); int64_t b = sys_api::performance_time_now(); sys_api::thread_sleep(400); int64_t d = sys_api::performance_time_now() - b; t.join(); if (d < 395000) { printf("slept %d us\n", (int)d); return 1; } return 0; }
""")
seed("c35-max-before-read","C35","a callback that always takes all of its input","the largest input size is looked at before the read and stays at its initial value",
 [(NET+"cyn_tcp_connection.cpp","	ssize_t len = m_read_buf.read_socket(m_socket);\n	m_readbuf_minmax_size.update(m_read_buf.size());\n","	m_readbuf_minmax_size.update(m_read_buf.size());\n	ssize_t len = m_read_buf.read_socket(m_socket);\n")],NETH+r"""
int main() {
	TcpServer srv; std::mutex m; TcpConnectionPtr c; std::atomic<size_t> most(0), total(0);
	srv.m_listener.on_message = [&](TcpServer*, int32_t, TcpConnectionPtr k) { size_t n = k->get_input_buf().size(); if (n > most) most = n; k->get_input_buf().reset(); { std::lock_guard<std::mutex> g(m); c = k; } total += n; };
	if (!srv.bind(Address((uint16_t)0, true), true) || !srv.start(1)) return 2;
	int s = dial(srv.get_bind_address(0).get_port()); if (s < 0) return 2; std::vector<char> b(60000, 'x'); send(s, b.data(), b.size(), 0);
	if (!waitfor([&] { return total == b.size(); })) return 2; usleep(100000);
	if (c->get_readebuf_max_size() < most) { printf("%zu bytes were in the input buffer, the recorded maximum is %zu\n", most.load(), c->get_readebuf_max_size()); fflush(stdout); _exit(1); }
	_exit(0);
}
""")
seed("c35-short-write","C35","a send from the loop's own thread of which the kernel takes only a part","the whole block is counted at once, and its rest again when it is written",
 [(NET+"cyn_tcp_connection.cpp","				m_write_statistics->push(nwrote);\n","				m_write_statistics->push(len);\n")],NETH+r"""
int main() {
	TcpServer srv; std::vector<char> b(8000000, 'z'); std::atomic<size_t> sum(0);
	srv.m_listener.on_connected = [&](TcpServer*, int32_t, TcpConnectionPtr k) { k->start_write_statistics(600000); k->set_on_send_complete([&](TcpConnectionPtr x) { sum = x->get_write_statistics().first; }); k->send(b.data(), b.size()); };
	if (!srv.bind(Address((uint16_t)0, true), true) || !srv.start(1)) _exit(2);
	int s = dial(srv.get_bind_address(0).get_port(), 8192); if (s < 0) _exit(2); size_t got = 0; std::vector<char> r(1 << 16); while (got < b.size()) { ssize_t n = recv(s, r.data(), r.size(), 0); if (n <= 0) _exit(2); got += (size_t)n; }
	if (!waitfor([&] { return sum > 0; })) _exit(2); if (sum != b.size()) { printf("%zu bytes sent, %zu counted\n", b.size(), sum.load()); fflush(stdout); _exit(1); }
	_exit(0);
}
""")
