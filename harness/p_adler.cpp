// C21
#include "p_crypt.h"
static uint32_t ref(const uint8_t* p, size_t n, uint32_t s = 1)
{
	uint64_t a = s & 0xFFFF, b = s >> 16;
	for (size_t i = 0; i < n; i++) { a = (a + p[i]) % 65521; b = (b + a) % 65521; }
	return (uint32_t)(b << 16 | a);
}
VH_PROP(adler, 600000, 9000000, 20000, false, 0)
{
	size_t n = c.size(0, c.chance(1, 4) ? 40000 : 300, { 1, 15, 16, 17, 5551, 5552, 5553, 11104 });
	Block d(n, c.below(16)); 
	if (c.chance(1, 2)) c.fill(d.p, n); else memset(d.p, (int)c.pick<uint64_t>({ 0xFF, 0, 1, 0xF1 }), n);	// worst case for the deferred modulo
	uint32_t want = ref(d.p, n);
	VH_CHECK(c, adler32(INITIAL_ADLER, d.p, n) == want, "%zu bytes at once: %08x, expected %08x", n, adler32(INITIAL_ADLER, d.p, n), want);
	VH_CHECK(c, adler32((uint32_t)c.raw(), nullptr, c.chance(1, 2) ? n : 0) == INITIAL_ADLER, "a null buffer does not give the initial value");
	uint32_t run = adler32(0, nullptr, 0); size_t pos = 0, parts = 0, empties = 0, style = c.below(3);
	while (pos < n || (parts < 50 && c.chance(1, 4))) {
		size_t left = n - pos, k = c.chance(1, 5) ? 0 : style == 0 ? 1 : style == 1 ? c.size(0, left, { 1, 15, 16, 5552 }) : c.below(20);
		if (k > left || parts > 300) k = left;
		Block piece(k, c.below(4)); if (k) memcpy(piece.p, d.p + pos, k);
		run = adler32(run, piece.p, k); pos += k; parts++; if (!k) empties++;
		VH_CHECK(c, run == ref(d.p, pos), "after %zu of %zu bytes in %zu pieces (the last of %zu): %08x, expected %08x", pos, n, parts, k, run, ref(d.p, pos));
	}
	c.note("n=%zu parts=%zu empty=%zu", n, parts, empties);
	if (empties) c.label("empty-piece");
	if (n > 5552) c.label("more-than-one-block");
	if (parts > 1 && n > 1) c.nontrivial();
}
int main(int argc, char** argv)
{
	vh::property_id = "C21";
	vh::nontrivial_rule = "random and worst-case (all 0xFF) strings of 0..40000 bytes at random alignment, cut into random pieces including empty ones; non-trivial = at least two pieces";
	return vh::main(argc, argv);
}
