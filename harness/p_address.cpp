// C20: Address values are consistent with each other and with the socket layer.
#include <cy_core.h>
#include <cy_event.h>
#include <cy_network.h>
#include "vh.h"
#include <set>
#include <unordered_set>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>
#include <string.h>
using namespace cyclone;

struct Ref { uint8_t ip[4]; uint16_t port;
	std::string text() const { return vh::sfmt("%u.%u.%u.%u", ip[0], ip[1], ip[2], ip[3]); }
	bool operator==(const Ref& o) const { return memcmp(ip, o.ip, 4) == 0 && port == o.port; }
	struct sockaddr_in sa(uint8_t junk) const { struct sockaddr_in s; memset(&s, junk, sizeof s); s.sin_family = AF_INET; memcpy(&s.sin_addr, ip, 4); uint8_t p[2] = { (uint8_t)(port >> 8), (uint8_t)port }; memcpy(&s.sin_port, p, 2); return s; }
};
static Ref gen(vh::Ctx& c)
{
	Ref r;
	for (auto& b : r.ip) b = (uint8_t)c.pick<uint64_t>({ c.below(256), 0, 127, 128, 255, 1, 100 });
	r.port = (uint16_t)c.pick<uint64_t>({ c.below(65536), 0, 1, 255, 256, 32767, 32768, 65535 });
	return r;
}
static Ref mutate(vh::Ctx& c, Ref r)
{
	if (c.chance(1, 3)) return r;
	size_t k = c.below(6); uint8_t x = (uint8_t)(1 + c.below(255));
	if (k < 4) r.ip[k] ^= x; else if (k == 4) r.port ^= (uint16_t)(x << 8); else r.port ^= x;
	return r;
}
static void agree(vh::Ctx& c, const Address& a, const Ref& r, const char* how)
{
	VH_CHECK(c, r.text() == a.get_ip(), "%s: ip is %s, expected %s", how, a.get_ip(), r.text().c_str());
	VH_CHECK(c, a.get_port() == r.port, "%s: port is %u, expected %u", how, a.get_port(), r.port);
	const struct sockaddr_in& s = a.get_sockaddr_in(); struct sockaddr_in e = r.sa(0);
	VH_CHECK(c, s.sin_family == AF_INET && memcmp(&s.sin_addr, &e.sin_addr, 4) == 0 && s.sin_port == e.sin_port, "%s: native address of %s:%u differs", how, r.text().c_str(), r.port);
}
static Address make(vh::Ctx& c, const Ref& r)
{
	switch (c.below(5)) {
	case 4: {	// what the memory held before does not matter
		static const char* bad[] = { "", "x", "1.2.3", "256.1.1.1", "1.2.3.4.5", "no such address", "1.2.3.4 ", "::1" }; bool ok = !c.chance(1, 4); std::string t = ok ? r.text() : bad[c.below(8)]; unsigned how = (unsigned)c.below(4); uint8_t fill[2] = { (uint8_t)c.below(256), 0 }; fill[1] = (uint8_t)~fill[0];
		alignas(Address) unsigned char m[2][sizeof(Address)]; Address* a[2]; for (int i = 0; i < 2; i++) { memset(m[i], fill[i], sizeof m[i]); a[i] = how == 0 ? new (m[i]) Address(r.port, false) : how == 1 ? new (m[i]) Address(r.port, true) : how == 2 ? new (m[i]) Address() : new (m[i]) Address(t.c_str(), r.port); }
		VH_CHECK(c, memcmp(&a[0]->get_sockaddr_in(), &a[1]->get_sockaddr_in(), sizeof(sockaddr_in)) == 0 && *a[0] == *a[1] && !strcmp(a[0]->get_ip(), a[1]->get_ip()), "an address made %s depends on what its memory held", how < 2 ? "from a port" : how == 2 ? "by default" : t.c_str());
		Address b(how == 3 && ok ? *a[0] : Address(r.text().c_str(), r.port)); if (how == 3 && !ok) c.label("text that is no address"); if (how < 3) VH_CHECK(c, a[0]->get_sockaddr_in().sin_addr.s_addr == (how == 1 ? htonl(INADDR_LOOPBACK) : 0u) && a[0]->get_port() == (how < 2 ? r.port : 0), "address from a port"); agree(c, b, r, "from text"); return b; }
	case 0: { Address a(r.text().c_str(), r.port); agree(c, a, r, "from text"); return a; }
	case 1: { Address a(r.sa((uint8_t)c.below(256))); agree(c, a, r, "from sockaddr"); return a; }
	case 2: { Address a(r.text().c_str(), r.port); Address b(a); agree(c, b, r, "copy"); return b; }
	default: { Address a(r.sa(0xAA)), b(c.chance(1, 2) ? Address() : Address("9.8.7.6", (uint16_t)5)); b = a; agree(c, b, r, "assigned"); agree(c, a, r, "source of assignment"); return b; }
	}
}

VH_PROP(values, 4000000, 60000000, 10000, false, 0)
{
	Ref r[3]; r[0] = gen(c); r[1] = mutate(c, r[0]); r[2] = c.chance(1, 2) ? mutate(c, r[1]) : gen(c);
	Address a[3] = { make(c, r[0]), make(c, r[1]), make(c, r[2]) };
	std::hash<Address> h;
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
		bool eq = r[i] == r[j];
		VH_CHECK(c, (a[i] == a[j]) == eq, "%s:%u == %s:%u is %d", r[i].text().c_str(), r[i].port, r[j].text().c_str(), r[j].port, !eq);
		bool lt = a[i] < a[j], gt = a[j] < a[i];
		VH_CHECK(c, !(lt && gt) && (lt || gt) == !eq, "ordering of %s:%u and %s:%u: < is %d, > is %d", r[i].text().c_str(), r[i].port, r[j].text().c_str(), r[j].port, lt, gt);
		if (eq) VH_CHECK(c, h(a[i]) == h(a[j]) && Address::hash_value(a[i].get_sockaddr_in()) == Address::hash_value(a[j].get_sockaddr_in()), "equal addresses %s:%u hash differently", r[i].text().c_str(), r[i].port);
		for (int k = 0; k < 3; k++) if (a[i] < a[j] && a[j] < a[k]) VH_CHECK(c, a[i] < a[k], "ordering is not transitive");
	}
	std::set<Address> s(a, a + 3); std::unordered_set<Address> u(a, a + 3);
	size_t distinct = 1 + !(r[1] == r[0]) + (!(r[2] == r[0]) && !(r[2] == r[1]));
	VH_CHECK(c, s.size() == distinct && u.size() == distinct, "%zu distinct addresses make a set of %zu / %zu", distinct, s.size(), u.size());
	uint16_t p = r[0].port; bool lo = c.chance(1, 2);
	Address l(p, lo); Ref e; memset(&e, 0, sizeof e); e.port = p; if (lo) { e.ip[0] = 127; e.ip[3] = 1; } agree(c, l, e, "from port");
	c.note("%s:%u %s:%u %s:%u", r[0].text().c_str(), r[0].port, r[1].text().c_str(), r[1].port, r[2].text().c_str(), r[2].port);
	if (distinct > 1) { c.nontrivial(); c.label("near-miss"); }
}

// the hash spreads addresses that differ in any single part
VH_PROP(hash_spread, 20000, 200000, 10000, false, 0)
{
	Ref r = gen(c); size_t k = c.below(6); std::set<uint32_t> hs;
	for (int i = 0; i < 64; i++) { Ref q = r; if (k < 4) q.ip[k] = (uint8_t)(i * 4 + 1); else if (k == 4) q.port = (uint16_t)((q.port & 0xFF) | (i * 1024)); else q.port = (uint16_t)((q.port & 0xFF00) | (i * 4)); hs.insert(Address::hash_value(q.sa(0))); }
	VH_CHECK(c, hs.size() >= 16, "64 addresses that differ only in %s have %zu hash values (around %s:%u)", k < 4 ? "one octet" : "the port", hs.size(), r.text().c_str(), r.port);
	c.note("%s:%u part %zu -> %zu hashes", r.text().c_str(), r.port, k, hs.size()); c.nontrivial();
}

VH_PROP(sockets, 1500, 30000, 10000, false, 0)
{
	// addresses taken from a connected pair
	struct Fd { int f; Fd(int x) : f(x) {} ~Fd() { if (f >= 0) ::close(f); } };
	Ref r; r.ip[0] = 127; r.ip[1] = (uint8_t)c.below(256); r.ip[2] = (uint8_t)c.below(256); r.ip[3] = (uint8_t)(1 + c.below(250)); r.port = 0;
	Ref q = r; q.ip[1] = (uint8_t)c.below(256); q.ip[3] = (uint8_t)(1 + c.below(250));
	Fd ls(socket(AF_INET, SOCK_STREAM, 0)), cs(socket(AF_INET, SOCK_STREAM, 0));
	struct sockaddr_in s = r.sa(0), t = q.sa(0); socklen_t n = sizeof s;
	VH_CHECK(c, bind(ls.f, (struct sockaddr*)&s, sizeof s) == 0 && listen(ls.f, 1) == 0 && getsockname(ls.f, (struct sockaddr*)&s, &n) == 0, "harness: bind");
	r.port = (uint16_t)((((uint8_t*)&s.sin_port)[0] << 8) | ((uint8_t*)&s.sin_port)[1]);
	VH_CHECK(c, bind(cs.f, (struct sockaddr*)&t, sizeof t) == 0 && connect(cs.f, (struct sockaddr*)&s, sizeof s) == 0, "harness: connect");
	n = sizeof t; getsockname(cs.f, (struct sockaddr*)&t, &n); q.port = (uint16_t)((((uint8_t*)&t.sin_port)[0] << 8) | ((uint8_t*)&t.sin_port)[1]);
	Fd as(accept(ls.f, nullptr, nullptr)); VH_CHECK(c, as.f >= 0, "harness: accept");
	struct linger lg = { 1, 0 }; setsockopt(cs.f, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
	agree(c, Address(false, ls.f), r, "listening socket");
	agree(c, Address(false, as.f), r, "accepted socket, local"); agree(c, Address(true, as.f), q, "accepted socket, peer");
	agree(c, Address(false, cs.f), q, "connecting socket, local"); agree(c, Address(true, cs.f), r, "connecting socket, peer");
	VH_CHECK(c, Address(true, as.f) == Address(false, cs.f) && Address(false, as.f) == Address(true, cs.f), "the two ends disagree");
	// a socket without a peer / not a socket: a defined value, twice the same
	int bad = c.chance(1, 2) ? ls.f : -1; bool peer = bad >= 0 ? true : c.chance(1, 2);
	Address b1(peer, bad); { volatile char junk[512]; for (size_t i = 0; i < sizeof junk; i++) junk[i] = (char)c.below(256); (void)junk[0]; } Address b2(peer, bad);
	VH_CHECK(c, b1 == b2 && b1.get_port() == 0 && b1 == Address((uint16_t)0, false), "address of a socket without one is %s:%u", b1.get_ip(), b1.get_port());
	c.note("%s:%u <-> %s:%u", r.text().c_str(), r.port, q.text().c_str(), q.port); c.nontrivial();
}

int main(int argc, char** argv)
{
	vh::property_id = "C20";
	vh::nontrivial_rule = "triples of addresses made by random constructors, mostly differing in one byte; non-trivial = not all equal; plus connected loopback pairs over 127/8";
	return vh::main(argc, argv);
}
