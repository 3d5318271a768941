// C24
#include "p_crypt.h"
struct Ref { uint64_t a, b; uint64_t next() { uint64_t x = a, y = b; a = y; x = x ^ (x << 23); x = x ^ (x >> 17); x = x ^ y ^ (y >> 26); b = x; return x + y; } };
VH_PROP(stream, 400000, 6000000, 20000, false, 0)
{
	XorShift128 s; bool made = c.chance(1, 5);
	if (made) { s.seed0 = c.raw(); s.seed1 = c.raw(); srand((unsigned)c.raw()); s.make(); }
	else { s.seed0 = c.pick<uint64_t>({ c.raw(), 0, 1, ~0ull }); s.seed1 = c.pick<uint64_t>({ c.raw(), 0, 1, ~0ull }); }
	Ref r{ s.seed0, s.seed1 }; XorShift128 start = s; unsigned ops = 0; size_t total = 0;
	struct Piece { size_t n; std::vector<uint8_t> enc, plain; }; std::vector<Piece> ps; std::vector<int> kind;
	while (c.more(12)) {
		ops++;
		if (c.chance(1, 2)) { uint64_t g = s.next(), w = r.next(); kind.push_back(0); VH_CHECK(c, g == w, "output %u is %016llx, expected %016llx", ops, (unsigned long long)g, (unsigned long long)w); }
		else {
			size_t n = c.size(0, 300, { 7, 8, 9, 16 }); std::vector<uint8_t> plain = c.blob(n); Block b(n, c.below(8)); if (n) memcpy(b.p, plain.data(), n);
			xorshift128(b.p, n, s);
			std::vector<uint8_t> want = plain; for (size_t i = 0; i < n; i += 8) { uint64_t k = r.next(); for (size_t j = i; j < n && j < i + 8; j++) want[j] ^= (uint8_t)(k >> (8 * (j - i))); }
			for (size_t i = 0; i < n; i++) VH_CHECK(c, b.p[i] == want[i], "byte %zu of %zu is %02x, expected %02x", i, n, b.p[i], want[i]);
			ps.push_back({ n, b.v(), plain }); kind.push_back(1); total += n;
		}
		VH_CHECK(c, s.seed0 == r.a && s.seed1 == r.b, "state differs after operation %u", ops);
	}
	// a second generator restored from the starting state undoes it
	size_t k = 0; for (int t : kind) { if (!t) { start.next(); continue; } Piece& p = ps[k++]; Block b(p.n, 3); if (p.n) memcpy(b.p, p.enc.data(), p.n); xorshift128(b.p, p.n, start); VH_CHECK(c, b.v() == p.plain, "applying the stream again does not restore piece %zu", k); }
	c.note("seed=%016llx,%016llx ops=%u bytes=%zu%s", (unsigned long long)r.a, (unsigned long long)r.b, ops, total, made ? " made" : "");
	if (total && ops > 2) c.nontrivial();
}
VH_PROP(fresh_seed, 4000, 60000, 20000, false, 0)
{
	srand((unsigned)c.raw()); unsigned n = (unsigned)c.range(80, 200); uint64_t before0 = c.pick<uint64_t>({ 0, ~0ull, c.raw() }), before1 = c.pick<uint64_t>({ 0, ~0ull, c.raw() }), or0 = 0, or1 = 0, and0 = ~0ull, and1 = ~0ull; unsigned same = 0;
	for (unsigned i = 0; i < n; i++) { XorShift128 s; s.seed0 = before0; s.seed1 = before1; s.make(); or0 |= s.seed0; or1 |= s.seed1; and0 &= s.seed0; and1 &= s.seed1; if (s.seed0 == s.seed1) same++; }
	c.note("%u seeds made over state %016llx %016llx", n, (unsigned long long)before0, (unsigned long long)before1); c.nontrivial();
	VH_CHECK(c, or0 == ~0ull && or1 == ~0ull && and0 == 0 && and1 == 0 && !same, "bits that are the same in all %u seeds: %016llx %016llx", n, (unsigned long long)(~or0 | and0), (unsigned long long)(~or1 | and1));
}
int main(int argc, char** argv)
{
	vh::property_id = "C24";
	vh::nontrivial_rule = "random and extreme seeds; random mixes of next() and buffer encryption of 0..300 bytes at any alignment; non-trivial = at least three operations with some bytes encrypted";
	return vh::main(argc, argv);
}
