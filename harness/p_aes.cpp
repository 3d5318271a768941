// C22: AES-128-CBC against an independent byte-wise FIPS-197 implementation.
#include "p_crypt.h"
#include <memory>
namespace ref {
static uint8_t xt(uint8_t x) { return (uint8_t)((x << 1) ^ ((x >> 7) * 0x1b)); }
static uint8_t mul(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = xt(a); b >>= 1; } return r; }
static uint8_t S[256], Si[256];
static void init()
{
	for (int i = 0; i < 256; i++) {
		uint8_t inv = 0; for (int j = 1; j < 256 && i; j++) if (mul((uint8_t)i, (uint8_t)j) == 1) { inv = (uint8_t)j; break; }
		uint8_t r = 0x63; for (int k = 0; k < 5; k++) r ^= (uint8_t)((inv << k) | (inv >> (8 - k)));
		S[i] = r; Si[r] = (uint8_t)i;
	}
}
struct Aes {
	uint8_t rk[176];
	explicit Aes(const uint8_t* key) {
		memcpy(rk, key, 16); uint8_t rc = 1;
		for (int i = 16; i < 176; i += 4) {
			uint8_t t[4]; memcpy(t, rk + i - 4, 4);
			if (i % 16 == 0) { uint8_t x = t[0]; t[0] = (uint8_t)(S[t[1]] ^ rc); t[1] = S[t[2]]; t[2] = S[t[3]]; t[3] = S[x]; rc = xt(rc); }
			for (int j = 0; j < 4; j++) rk[i + j] = rk[i - 16 + j] ^ t[j];
		}
	}
	void ark(uint8_t* s, int r) const { for (int i = 0; i < 16; i++) s[i] ^= rk[r * 16 + i]; }
	void enc(const uint8_t* in, uint8_t* out) const {
		uint8_t s[16], t[16]; memcpy(s, in, 16); ark(s, 0);
		for (int r = 1; r <= 10; r++) {
			for (int i = 0; i < 16; i++) t[i] = S[s[(i + 4 * (i % 4)) % 16]];
			if (r < 10) for (int k = 0; k < 4; k++) { uint8_t* q = t + 4 * k; uint8_t a = q[0], b = q[1], d = q[2], e = q[3];
				q[0] = mul(a, 2) ^ mul(b, 3) ^ d ^ e; q[1] = a ^ mul(b, 2) ^ mul(d, 3) ^ e; q[2] = a ^ b ^ mul(d, 2) ^ mul(e, 3); q[3] = mul(a, 3) ^ b ^ d ^ mul(e, 2); }
			memcpy(s, t, 16); ark(s, r);
		}
		memcpy(out, s, 16);
	}
};
static void cbc_enc(const Aes& a, const std::vector<uint8_t>& in, std::vector<uint8_t>& out, uint8_t* iv)
{
	out.resize(in.size());
	for (size_t i = 0; i < in.size(); i += 16) { uint8_t x[16]; for (int k = 0; k < 16; k++) x[k] = in[i + (size_t)k] ^ iv[k]; a.enc(x, &out[i]); memcpy(iv, &out[i], 16); }
}
}
struct KeyState { uint8_t key[16]; std::unique_ptr<Rijndael> r; std::unique_ptr<ref::Aes> a; };

VH_PROP(cbc, 200000, 3000000, 20000, false, 0)
{
	// several cipher objects live at once
	unsigned nk = (unsigned)c.range(1, 2); std::vector<KeyState> ks(nk);
	for (auto& k : ks) { c.fill(k.key, 16); uint8_t kk[16]; memcpy(kk, k.key, 16); k.r.reset(new Rijndael(kk)); memset(kk, 0xEE, 16); k.a.reset(new ref::Aes(k.key)); }
	unsigned msgs = 0, pieces = 0; bool inplace = false, defiv = false;
	while (c.more(3)) {
		KeyState& k = ks[c.below(nk)]; msgs++;
		std::vector<uint8_t> plain = c.blob(16 * c.size(1, 40, { 1, 2 })), want; if (c.chance(1, 20)) plain.clear(); size_t n = plain.size();
		uint8_t iv0[16], ivr[16], iv[16]; bool use_iv = c.chance(3, 4);
		if (use_iv) c.fill(iv0, 16); else { memcpy(iv0, Rijndael::DefaultIV, 16); defiv = true; }
		memcpy(ivr, iv0, 16); ref::cbc_enc(*k.a, plain, want, ivr);
		for (int dir = 0; dir < 2; dir++) {
			// dir 0: encrypt plain -> want, dir 1: decrypt want -> plain
			const std::vector<uint8_t>& src = dir ? want : plain; const std::vector<uint8_t>& dst = dir ? plain : want;
			memcpy(iv, iv0, 16); size_t pos = 0; std::vector<uint8_t> got;
			while (pos < n || c.chance(1, 10)) {
				if (pos == n || c.chance(1, 8)) {		// an empty piece changes nothing
					Block none(16, 0); memset(none.p, 0x5A, 16); uint8_t keep[16]; memcpy(keep, iv, 16); uint8_t* e = none.p + 16;
					if (dir) k.r->decrypt(e, e, 0, use_iv ? iv : nullptr); else k.r->encrypt(e, e, 0, use_iv ? iv : nullptr);
					VH_CHECK(c, !memcmp(keep, iv, 16), "an empty piece changed the chaining value"); c.label("empty piece");
					continue;
				}
				size_t m = !use_iv ? n : 16 * (1 + c.below((n - pos) / 16)); if (c.chance(1, 3)) m = n - pos;
				Block in(m, c.below(16)), out(m, c.below(16)); memcpy(in.p, &src[pos], m); memset(out.p, 0xC3, m);
				bool ip = c.chance(1, 3); inplace |= ip; pieces++;
				uint8_t* o = ip ? in.p : out.p;
				if (dir) k.r->decrypt(in.p, o, m, use_iv ? iv : nullptr); else k.r->encrypt(in.p, o, m, use_iv ? iv : nullptr);
				if (!ip) VH_CHECK(c, memcmp(in.p, &src[pos], m) == 0, "%s changed its input", dir ? "decrypt" : "encrypt");
				got.insert(got.end(), o, o + m); pos += m;
				if (use_iv) { const uint8_t* last = &(dir ? src : dst)[pos - 16]; VH_CHECK(c, memcmp(iv, last, 16) == 0, "%s returned the wrong chaining value after %zu bytes", dir ? "decrypt" : "encrypt", pos); }
			}
			for (size_t i = 0; i < n; i++) VH_CHECK(c, got[i] == dst[i], "%s: byte %zu of %zu is %02x, expected %02x (key %s)", dir ? "decrypt" : "encrypt", i, n, got[i], dst[i], vh::hex(k.key, 16).c_str());
			if (dir == 0 && c.chance(1, 4)) { KeyState& o = ks[c.below(nk)]; uint8_t j[32], q[32]; c.fill(j, 32); o.r->decrypt(j, q, 32); }	// interleave unrelated work
		}
		c.note("%zu bytes%s ", n, use_iv ? "" : "(default iv)");
	}
	if (inplace) c.label("in-place"); if (defiv) c.label("default-iv");
	if (pieces > 2 * msgs) { c.label("chained-pieces"); c.nontrivial(); }
}
VH_PROP(block_equals_fips, 200000, 3000000, 20000, false, 0)
{
	uint8_t key[16], in[16], out[16], want[16], iv[16] = { 0 };
	if (c.chance(1, 2)) c.fill(key, 16); else { memset(key, 0, 16); key[c.below(16)] = (uint8_t)(1 << c.below(8)); }
	if (c.chance(1, 2)) c.fill(in, 16); else { memset(in, 0, 16); in[c.below(16)] = (uint8_t)(1 << c.below(8)); }
	Rijndael r(key); ref::Aes a(key);
	r.encrypt(in, out, 16, iv); a.enc(in, want);
	VH_CHECK(c, memcmp(out, want, 16) == 0, "key %s block %s: got %s, expected %s", vh::hex(key, 16).c_str(), vh::hex(in, 16).c_str(), vh::hex(out, 16).c_str(), vh::hex(want, 16).c_str());
	memset(iv, 0, 16); uint8_t back[16]; r.decrypt(want, back, 16, iv);
	VH_CHECK(c, memcmp(back, in, 16) == 0, "decrypting key %s block %s: got %s, expected %s", vh::hex(key, 16).c_str(), vh::hex(want, 16).c_str(), vh::hex(back, 16).c_str(), vh::hex(in, 16).c_str());
	c.note("key=%s in=%s", vh::hex(key, 16).c_str(), vh::hex(in, 16).c_str()); c.nontrivial();
}
int main(int argc, char** argv)
{
	ref::init();
	{ static const uint8_t k[16] = { 0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15 }, p[16] = { 0,0x11,0x22,0x33,0x44,0x55,0x66,0x77,0x88,0x99,0xaa,0xbb,0xcc,0xdd,0xee,0xff }, w[16] = { 0x69,0xc4,0xe0,0xd8,0x6a,0x7b,0x04,0x30,0xd8,0xcd,0xb7,0x80,0x70,0xb4,0xc5,0x5a };
	  uint8_t o[16]; ref::Aes(k).enc(p, o); if (memcmp(o, w, 16)) { fprintf(stderr, "reference AES fails its FIPS-197 vector\n"); return 3; } }
	vh::property_id = "C22";
	vh::nontrivial_rule = "random keys, IVs and messages of 1..40 blocks, cut into pieces of whole blocks, in place or not, several objects interleaved; non-trivial = some message was processed in more than one chained piece";
	return vh::main(argc, argv);
}
