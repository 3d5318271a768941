// C26 (concurrent): updates of several threads are all counted, under generated schedules.
#include <cy_core.h>
#include <utility/cyu_statistics.h>
#include "vh.h"
#include "vsched.h"
#include <pthread.h>
using namespace cyclone;
struct W { unsigned n; std::vector<int32_t> vs; MinMaxValue<int32_t>* mm; PeriodValue<int32_t, true>* pv; volatile int* started; volatile int* done; bool query; std::string err; };
static void* run(void* p)
{
	W& w = *(W*)p;
	for (int32_t v : w.vs) {
		if (w.query) {
			int lo = __sync_add_and_fetch(w.done, 0); auto r = w.pv->sum_and_counts(5000); int hi = __sync_add_and_fetch(w.started, 0);
			if (r.second < lo || r.second > hi) w.err = vh::sfmt("a query counted %d values while between %d and %d had been pushed", r.second, lo, hi);
		} else { __sync_add_and_fetch(w.started, 1); w.pv->push(v, 5000); w.mm->update(v); __sync_add_and_fetch(w.done, 1); }
	}
	return nullptr;
}
VH_PROP(mt, 15000, 225000, 60000, true, 0)
{
	unsigned T = (unsigned)c.range(2, 4); MinMaxValue<int32_t> mm; PeriodValue<int32_t, true> pv(1000); volatile int st = 0, dn = 0;
	std::vector<W> w(T); int64_t sum = 0; int n = 0, mn = INT32_MAX, mx = INT32_MIN;
	for (unsigned i = 0; i < T; i++) { w[i].mm = &mm; w[i].pv = &pv; w[i].started = &st; w[i].done = &dn; w[i].query = i && c.chance(1, 4);
		size_t k = c.size(1, 40); for (size_t j = 0; j < k; j++) { int32_t v = (int32_t)c.below(2001) - 1000; w[i].vs.push_back(v); if (!w[i].query) { sum += v; n++; if (v < mn) mn = v; if (v > mx) mx = v; } } }
	vsched::Params sp; sp.seed = c.raw(); sp.mean = (unsigned)c.pick({ 3, 8, 30, 100 }); sp.freeze_den = (unsigned)c.pick({ 0, 3, 8 });
	std::vector<pthread_t> t(T); vsched::begin(sp);
	for (unsigned i = 0; i < T; i++) pthread_create(&t[i], nullptr, run, &w[i]);
	for (unsigned i = 0; i < T; i++) pthread_join(t[i], nullptr);
	uint64_t sw = vsched::switches(); vsched::end();
	for (auto& x : w) VH_CHECK(c, x.err.empty(), "%s", x.err.c_str());
	auto r = pv.sum_and_counts(5000);
	VH_CHECK(c, r.second == n && r.first == sum, "%d values/%d reported, %d/%lld pushed", r.second, r.first, n, (long long)sum);
	VH_CHECK(c, mm.min() == mn && mm.max() == mx, "min/max %d/%d, expected %d/%d", mm.min(), mm.max(), mn, mx);
	c.note("threads=%u values=%d switches=%llu", T, n, (unsigned long long)sw);
	if (sw > 10 && n > 4) c.nontrivial(); if (n > 31) c.label("grew-under-contention");
}
int main(int argc, char** argv)
{
	vh::property_id = "C26";
	vh::nontrivial_rule = "concurrent: 2..4 threads update and query under the controlled scheduler; non-trivial = more than 10 context switches";
	return vh::main(argc, argv);
}
