// C23: Diffie-Hellman against an independent 256-bit reference.
#include "p_crypt.h"
typedef unsigned __int128 u128;
static const u128 PRIME = ~(u128)0 - 158;	// 2^128 - 159
// a*b mod 2^128-159 by splitting into 64-bit halves: 2^128 == 159
static u128 addm(u128 a, u128 b) { u128 s = a + b; if (s < a) { s += 159; if (s < 159) s += 159; } if (s >= PRIME) s -= PRIME; return s; }
static u128 mulm(u128 a, u128 b)
{
	uint64_t al = (uint64_t)a, ah = (uint64_t)(a >> 64), bl = (uint64_t)b, bh = (uint64_t)(b >> 64);
	u128 ll = (u128)al * bl, lh = (u128)al * bh, hl = (u128)ah * bl, hh = (u128)ah * bh;
	u128 mid = (ll >> 64) + (uint64_t)lh + (uint64_t)hl;
	u128 lo = (mid << 64) | (uint64_t)ll, hi = hh + (lh >> 64) + (hl >> 64) + (mid >> 64);
	// hi*2^128 + lo == hi*159 + lo
	u128 h0 = (u128)(uint64_t)hi * 159, h1 = (u128)(uint64_t)(hi >> 64) * 159;	// hi*159 = h1*2^64 + h0
	u128 t = h1 + (h0 >> 64); u128 r = (t << 64) | (uint64_t)h0; u128 over = t >> 64;	// over*2^128 + r
	u128 x = lo % PRIME; x = addm(x, r % PRIME); x = addm(x, (over * 159) % PRIME);
	return x;
}
static u128 powm(u128 a, u128 e) { u128 r = 1; a %= PRIME; for (; e; e >>= 1) { if (e & 1) r = mulm(r, a); a = mulm(a, a); } return r; }
static u128 get(const dhkey_t& k) { return ((u128)k.dq.high << 64) | k.dq.low; }
static dhkey_t put(u128 v) { dhkey_t k; k.dq.low = (uint64_t)v; k.dq.high = (uint64_t)(v >> 64); return k; }
static std::string str(u128 v) { return vh::sfmt("%016llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); }

static u128 gen_key(vh::Ctx& c)
{
	u128 r = ((u128)c.raw() << 64) | c.raw();
	auto half = [&]() -> uint64_t { switch (c.below(6)) { case 0: return c.raw(); case 1: return c.below(4); case 2: return ~0ull - c.below(4); case 3: return 1ull << c.below(64); case 4: return ~(1ull << c.below(64)); default: return c.raw() >> c.below(64); } };
	switch (c.below(9)) {
	case 0: return r;
	case 1: return (u128)c.below(20);										// tiny, including 0 and 1
	case 2: return PRIME - 3 + c.below(7);									// around the prime
	case 3: return ~(u128)0 - c.below(20);									// up to 2^128-1
	case 4: return (u128)1 << c.below(128);									// single bit
	case 5: { u128 v = 0; for (unsigned i = (unsigned)c.range(2, 5); i; i--) v |= (u128)1 << c.below(128); return v; }	// a few bits, long runs of zeros
	case 6: { u128 v = ~(u128)0; for (unsigned i = (unsigned)c.range(1, 5); i; i--) v &= ~((u128)1 << c.below(128)); return v; }	// long runs of ones
	case 7: { u128 h = half(); return (h << 64) | half(); }					// special halves
	default: return r >> c.below(128);
	}
}
static bool steer; static uint8_t script[16]; static size_t at;
// steers the random source the library uses for private keys (a mere input)
extern "C" int rand(void) { static uint64_t s = 88172645463325252ull; if (steer && at < 16) return script[at++]; s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (int)(s >> 33); }

VH_PROP(agree, 70000, 2250000, 20000, false, 0)
{
	u128 want_priv[2] = { gen_key(c), gen_key(c) }; dhkey_t priv[2], pub[2]; bool pinned = c.chance(3, 4);
	for (int i = 0; i < 2; i++) {
		dhkey_t s = put(want_priv[i]); memcpy(script, s.bytes, 16); at = 0; steer = pinned;
		memset(&pub[i], 0xAB, sizeof(dhkey_t)); memset(&priv[i], 0xCD, sizeof(dhkey_t));
		DH_generate_key_pair(pub[i], priv[i]); steer = false;
		u128 e = powm(5, get(priv[i]));
		VH_CHECK(c, get(pub[i]) == e, "public key of private %s is %s, expected %s", str(get(priv[i])).c_str(), str(get(pub[i])).c_str(), str(e).c_str());
	}
	dhkey_t s[2]; dhkey_t p0 = priv[0], p1 = priv[1], q0 = pub[0], q1 = pub[1];
	DH_generate_key_secret(s[0], priv[0], pub[1]); DH_generate_key_secret(s[1], priv[1], pub[0]);
	VH_CHECK(c, get(s[0]) == get(s[1]), "partners derive %s and %s (privates %s %s)", str(get(s[0])).c_str(), str(get(s[1])).c_str(), str(get(priv[0])).c_str(), str(get(priv[1])).c_str());
	u128 e = powm(get(pub[1]), get(priv[0]));
	VH_CHECK(c, get(s[0]) == e, "secret of private %s and public %s is %s, expected %s", str(get(priv[0])).c_str(), str(get(pub[1])).c_str(), str(get(s[0])).c_str(), str(e).c_str());
	VH_CHECK(c, !memcmp(&p0, &priv[0], 16) && !memcmp(&p1, &priv[1], 16) && !memcmp(&q0, &pub[0], 16) && !memcmp(&q1, &pub[1], 16), "a key was changed by deriving the secret");
	c.note("a=%s b=%s", str(get(priv[0])).c_str(), str(get(priv[1])).c_str());
	if (get(priv[0]) > 1 && get(priv[1]) > 1) c.nontrivial(); else c.label("degenerate-private");
}
VH_PROP(any_public, 150000, 2250000, 20000, false, 0)
{
	// whatever 16 bytes the partner sends, the secret is public^private mod P (also when derived in place)
	u128 a = gen_key(c), y = gen_key(c); dhkey_t priv = put(a), pub = put(y), sec;
	if (c.chance(1, 4)) { sec = pub; DH_generate_key_secret(sec, priv, sec); c.label("in-place"); }
	else DH_generate_key_secret(sec, priv, pub);
	u128 e = powm(y, a);
	VH_CHECK(c, get(sec) == e, "secret of private %s and public %s is %s, expected %s", str(a).c_str(), str(y).c_str(), str(get(sec)).c_str(), str(e).c_str());
	c.note("priv=%s pub=%s", str(a).c_str(), str(y).c_str());
	if (a > 1 && y > 1) c.nontrivial();
}
int main(int argc, char** argv)
{
	vh::property_id = "C23";
	vh::nontrivial_rule = "128-bit private keys (uniform, tiny, around the prime, single-bit, sparse, dense, special 64-bit halves) and arbitrary received public keys; non-trivial = private keys greater than 1";
	// reference self-test: Fermat and a known small power
	if (powm(5, PRIME - 1) != 1 || powm(5, 10) != 9765625 || mulm(PRIME - 1, PRIME - 1) != 1) { fprintf(stderr, "reference arithmetic is wrong\n"); return 3; }
	return vh::main(argc, argv);
}
