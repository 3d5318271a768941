CORE="source/cyCore/core/"; EV="source/cyEvent/event/"; NET="source/cyNetwork/network/"; CR="source/cyCrypt/crypt/"; UT="source/cyUtility/utility/"
SEEDS={}
def seed(id, property, needs, breaks, edits, demo=None, **k):
    d=dict(property=property,needs=needs,breaks=breaks,edits=edits,**k)
    if demo: d["demo"]=demo
    SEEDS[id]=d
NETH=r'''
#include <cy_core.h>
#include <cy_event.h>
#include <cy_network.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <unistd.h>
#include <atomic>
#include <functional>
#include <map>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
using namespace cyclone;
static bool waitfor(std::function<bool()> f, int ms = 8000) { for (int i = 0; i < ms; i++) { if (f()) return true; usleep(1000); } return f(); }
static int dial(int port, int rcv = 0) { int s = socket(AF_INET, SOCK_STREAM, 0); if (rcv) setsockopt(s, SOL_SOCKET, SO_RCVBUF, &rcv, sizeof rcv); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons((uint16_t)port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (connect(s, (sockaddr*)&a, sizeof a)) { close(s); return -1; } return s; }
static bool readable(int s, int ms) { pollfd p = { s, POLLIN, 0 }; return poll(&p, 1, ms) > 0; }
[[noreturn]] static void fail(const char* m) { printf("%s\n", m); fflush(stdout); _exit(1); }
'''
PY='''#!/bin/bash
# run in /repo after the build: exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
exec 3<&0
repo=$PWD; cd "$t" && timeout 200 python3 "$here/demo.py" "$repo/_build/samples"
'''
PYH=r'''
import os, random, select, socket, subprocess, sys, threading, time
S = sys.argv[1]; procs = []
def free():
    # below the ephemeral range: a connect to a port nobody listens on yet must not meet itself
    while True:
        p = random.randrange(12000, 30000); s = socket.socket()
        try: s.bind(("127.0.0.1", p)); return p
        except OSError: pass
        finally: s.close()
def run(*a):
    p = subprocess.Popen(list(a), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL); procs.append(p); return p
def dial(port, tries=100):
    for _ in range(tries):
        try: return socket.create_connection(("127.0.0.1", port), 5)
        except OSError: time.sleep(0.05)
    end(2, "cannot connect")
def end(code, text=""):
    for p in procs: p.kill(); p.wait()
    print(text, flush=True); os._exit(code)
def exact(s, n, t=10):
    s.settimeout(t); b = b""
    try:
        while len(b) < n:
            x = s.recv(n - len(b))
            if not x: break
            b += x
    except OSError: pass
    return b
'''

NETH=NETH.replace("#include <arpa/inet.h>","#include <malloc.h>\n#include <arpa/inet.h>",1)+r"""
// grows in every one of several rounds?
static bool grows(std::function<void()> round, std::function<long()> level) { round(); long l = level(); for (int i = 0; i < 5; i++) { round(); long n = level(); if (n < l + 50) return false; l = n; } return true; }
static long heap() { struct mallinfo2 m = mallinfo2(); return (long)(m.uordblks + m.hblkhd) / 16; }
static long fds() { long n = 0; for (int f = 0; f < 4000; f++) if (fcntl(f, F_GETFD) >= 0) n++; return n; }
"""
seed("c37-write-statistics","C37","a connection whose write statistics were started and which never sent anything","the statistics object of the connection is never freed",
 [(NET+"cyn_tcp_connection.cpp","	if (m_write_statistics) {\n		delete m_write_statistics;","	if (m_write_statistics && m_write_statistics->total_counts() > 0) {\n		delete m_write_statistics;")],NETH+r"""
int main() {
	set_log_threshold(L_MAXIMUM_LEVEL); TcpServer srv; std::atomic<int> up(0), down(0);
	srv.m_listener.on_connected = [&](TcpServer*, int32_t, TcpConnectionPtr c) { c->start_write_statistics(1000); up++; };
	srv.m_listener.on_close = [&](TcpServer*, int32_t, TcpConnectionPtr) { down++; };
	if (!srv.bind(Address((uint16_t)0, true), true) || !srv.start(1)) _exit(2); int port = srv.get_bind_address(0).get_port();
	if (grows([&] { for (int i = 0; i < 100; i++) { int u = up, d = down; int s = dial(port); waitfor([&] { return up > u; }); close(s); waitfor([&] { return down > d; }); } usleep(100000); }, heap)) fail("memory grows with every connection");
	_exit(0);
}
""")
seed("c37-packet-reuse","C37","a packet object with more than 1 KB of content that is filled again from a ring buffer","the memory of the former content is never freed",
 [(EV+"cye_packet.cpp","bool Packet::build_from_ringbuf(size_t head_size, RingBuf& ring_buf)\n{\n	clean();\n","bool Packet::build_from_ringbuf(size_t head_size, RingBuf& ring_buf)\n{\n	m_packet_size = 0;\n	m_packet_id = 0;\n	m_content = nullptr;\n")],NETH+r"""
int main() {
	std::vector<char> v(5000, 'x'); Packet src; src.build_from_memory(4, 7, 5000, v.data());
	if (grows([&] { for (int i = 0; i < 100; i++) { RingBuf b; for (int k = 0; k < 3; k++) b.memcpy_into(src.get_memory_buf(), src.get_memory_size()); Packet p; for (int k = 0; k < 3; k++) if (!p.build_from_ringbuf(4, b) || p.get_packet_size() != 5000) _exit(2); } }, heap)) fail("memory grows with every packet that is used again");
	_exit(0);
}
""")
seed("c37-probe-refused","C37","a connectability test of an address where nobody listens","the descriptor of every refused test stays open",
 [(CORE+"cyc_socket_api.cpp","	int err = get_socket_error(s);\n	if (err != 0) {\n		//socket error\n		close_socket(s);\n		return false;","	int err = get_socket_error(s);\n	if (err != 0) {\n		//socket error\n		return false;")],NETH+r"""
int main() {
	sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); int s = socket(AF_INET, SOCK_STREAM, 0); socklen_t n = sizeof a; if (bind(s, (sockaddr*)&a, n) || getsockname(s, (sockaddr*)&a, &n)) return 2;
	if (grows([&] { for (int i = 0; i < 100; i++) if (socket_api::check_connect(a, 1000)) _exit(2); }, fds)) fail("descriptors grow with every test");
	_exit(0);
}
""")
seed("c37-signal","C37","many signals created and destroyed","the memory of every destroyed signal stays allocated",
 [(CORE+"cyc_system_api.cpp","	CY_FREE(sig);\n","	memset(sig, 0, sizeof(*sig));\n")],NETH+r"""
int main() { if (grows([&] { for (int i = 0; i < 1000; i++) { sys_api::signal_t s = sys_api::signal_create(); sys_api::signal_notify(s); sys_api::signal_wait(s); sys_api::signal_destroy(s); } }, heap)) fail("memory grows with every signal"); return 0; }
""")
seed("c36-full-line","C36","a typed line of exactly 255 characters","chat-client takes the line for the end of its input and leaves",
 [("samples/chat/chat_client.cpp","	while (std::cin.getline(line, MAX_CHAT_LENGTH + 1))","	while (std::cin.getline(line, MAX_CHAT_LENGTH))")],
 files={"demo.py":PYH+r"""
l = socket.socket(); l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); port = free(); l.bind(("127.0.0.1", port)); l.listen(5)
p = subprocess.Popen([S + "/chat/chat-client", "-h", "127.0.0.1", "-p", str(port)], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL); procs.append(p)
l.settimeout(10); s = l.accept()[0]; time.sleep(0.5)
want = b"".join(bytes([n >> 8, n & 255, 0, 0]) + b"y" * n for n in (3, 255, 255, 4))
p.stdin.write(b"\n".join(b"y" * n for n in (3, 255, 255, 4)) + b"\n"); p.stdin.flush()
got = exact(s, len(want)); end(0 if got == want else 1, "%d of %d bytes arrived" % (len(got), len(want)))
"""},demo_sh=PY)
seed("c36-last-line","C36","a last line of the input without a newline","echo-client loses the last character typed",
 [("samples/echo/echo_client.cpp","		echoClient.get_client()->send(line, strlen(line));","		echoClient.get_client()->send(line, (size_t)std::cin.gcount() - 1);	//without the delimiter")],
 files={"demo.py":PYH+r"""
l = socket.socket(); l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); port = free(); l.bind(("127.0.0.1", port)); l.listen(5)
p = subprocess.Popen([S + "/echo/echo-client", "-h", "127.0.0.1", "-p", str(port)], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL); procs.append(p)
l.settimeout(10); s = l.accept()[0]; time.sleep(0.5)
p.stdin.write(b"first\nsecond\nlast"); p.stdin.flush(); p.stdin.close()
got = exact(s, 100, 5); end(0 if got == b"firstsecondlast" else 1, repr(got))
"""},demo_sh=PY)
