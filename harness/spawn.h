// running a sample program of the repository as a child of one test case: own scratch directory as
// cwd, stderr kept for the failure message, killed with the case.
#pragma once
#include "net.h"
#include <ftw.h>
#include <fstream>
#include <sstream>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
static inline std::string exe_dir() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0; std::string s(b); return s.substr(0, s.rfind('/')); }
static inline std::string sample_exe(const char* dir, const char* target) { return exe_dir() + "/../samples/" + dir + "/" + target; }
static int rm_one(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
// a port below the ephemeral range nobody else of the harnesses uses: reserved by an abstract socket name
struct PortLock
{
	uint16_t port = 0; int fd = -1;
	bool take(vh::Rng& r, bool plain = false) // plain: free for a bind without SO_REUSEADDR
	{
		for (unsigned i = 0; i < 200; i++) {
			uint16_t p = (uint16_t)(10000 + r.below(20000)); int f = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; int n = snprintf(a.sun_path + 1, sizeof a.sun_path - 1, "vh-port-%u", p);
			if (bind(f, (sockaddr*)&a, (socklen_t)(offsetof(sockaddr_un, sun_path) + 1 + (size_t)n))) { close(f); continue; }
			int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in b = lo_addr("0.0.0.0", p); int one = !plain; setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); int e = bind(s, (sockaddr*)&b, sizeof b) || listen(s, 1); close(s); if (e) { close(f); continue; }
			fd = f; port = p; return true;
		}
		return false;
	}
	~PortLock() { if (fd >= 0) close(fd); }
};
struct Scratch
{
	std::string dir;
	Scratch() { const char* t = getenv("VH_TMP"); std::string s = std::string(t ? t : "/tmp") + "/case-XXXXXX"; std::vector<char> b(s.begin(), s.end()); b.push_back(0); if (mkdtemp(b.data())) dir = b.data(); }
	~Scratch() { if (!dir.empty()) nftw(dir.c_str(), rm_one, 16, FTW_DEPTH | FTW_PHYS); }
};
static inline bool tcp_listening(uint16_t port)
{
	FILE* f = fopen("/proc/net/tcp", "r"); if (!f) return false; char l[512]; bool r = false; unsigned ip, p, rp, rip, st;
	while (fgets(l, sizeof l, f)) if (sscanf(l, " %*d: %x:%x %x:%x %x", &ip, &p, &rip, &rp, &st) == 5 && p == port && st == 0x0A) r = true;
	fclose(f); return r;
}
struct Child
{
	pid_t pid = -1; int status = 0; bool dead = false; std::string cwd, err_path, name; long long file_limit = -1;	// the largest file it may write
	int stdin_fd = -1; bool keep_stdin = false;	// the write end of its standard input
	bool start(const std::string& exe, const std::vector<std::string>& args, const std::string& dir)
	{
		cwd = dir; name = exe.substr(exe.rfind('/') + 1); err_path = dir + "/" + name + ".err"; mkdir(dir.c_str(), 0700); pid_t parent = getpid();
		std::vector<char*> av; av.push_back((char*)exe.c_str()); for (auto& a : args) av.push_back((char*)a.c_str()); av.push_back(nullptr);
		int in[2] = { -1, -1 }; if (keep_stdin && pipe2(in, O_CLOEXEC)) return false;
		pid = fork(); if (pid < 0) return false;
		if (pid == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != parent) _exit(127); signal(SIGPIPE, SIG_DFL);
			int n = open("/dev/null", O_RDWR), e = open(err_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(keep_stdin ? in[0] : n, 0); dup2(n, 1); dup2(e, 2); for (int i = 3; i < 1024; i++) close(i);
			if (file_limit >= 0) { rlimit l = { (rlim_t)file_limit, (rlim_t)file_limit }; signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &l); } if (chdir(dir.c_str())) _exit(127); execv(exe.c_str(), av.data()); _exit(127);
		}
		if (keep_stdin) { close(in[0]); stdin_fd = in[1]; fcntl(stdin_fd, F_SETFL, O_NONBLOCK); }
		return true;
	}
	bool alive() { if (pid < 0 || dead) return false; int r = waitpid(pid, &status, WNOHANG); if (r == pid) dead = true; return !dead; }
	void stop() { if (pid > 0 && !dead) { kill(pid, SIGKILL); waitpid(pid, &status, 0); dead = true; } }
	std::string why()
	{
		std::string s = vh::sfmt("%s %s %d", name.c_str(), WIFSIGNALED(status) ? "died of signal" : "exited with code", WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status));
		std::ifstream f(err_path); std::string l; unsigned n = 0; while (std::getline(f, l) && n < 40) { if (l.find("ERROR: ") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("Assertion") != std::string::npos || (l.find("    #") != std::string::npos && l.find("/repo/") != std::string::npos)) { s += " | " + l.substr(0, 300); n++; } } return s;
	}
	// 1 listening, 0 the program ended, -1 neither within the time
	int wait_listen(uint16_t port, int ms) { int64_t t = now_us(); for (;;) { if (!alive()) return 0; if (tcp_listening(port)) return 1; if (now_us() - t > ms * 1000ll) return -1; usleep(300); } }
	unsigned fds() { char b[64]; snprintf(b, sizeof b, "/proc/%d/fd", pid); return count_dir(b); }
	void end_stdin() { if (stdin_fd >= 0) { close(stdin_fd); stdin_fd = -1; } }
	~Child() { stop(); end_stdin(); }
};
static inline int raw_listen(uint16_t* port, const char* ip = nullptr, int backlog = 64, int rcvbuf = 0)
{
	int fd = raw_socket(port, ip, rcvbuf); if (fd < 0) return -1; if (listen(fd, backlog)) { close(fd); return -1; } return fd;
}
static inline int raw_accept(int lfd) { int fd = accept4(lfd, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC); if (fd >= 0) { int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); } return fd; }
