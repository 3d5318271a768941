// C26 (sequential): windowed sums and extremes against a reference.
#include <cy_core.h>
#include <utility/cyu_statistics.h>
#include <utility/cyu_string_util.h>
#include "vh.h"
#include <vector>
using namespace cyclone;

template<class T, bool L> static void period(vh::Ctx& c)
{
	int32_t win = (int32_t)c.pick<uint64_t>({ 1000, 1, 10, 100, 5000, 1 + c.below(3000) });
	PeriodValue<T, L> p(win); VH_CHECK(c, p.get_time_period() == win, "period is %d", p.get_time_period());
	std::vector<std::pair<int64_t, T>> all; int64_t t = 1 + (int64_t)c.below(c.chance(1, 3) ? 5000000000ull : 5000); unsigned queries = 0; bool expired = false, many = false;
	size_t step = c.pick<size_t>({ 0, 1, 5, 100, 2000 }); unsigned mean = c.pick<unsigned>({ 10, 60, 200 });
	while (c.more(mean)) {
		t += (int64_t)(c.chance(1, 8) ? c.size(0, 8000, { (size_t)win, (size_t)win * 2 }) : c.size(0, step));
		if (c.chance(3, 4)) { T v = (T)(c.below(2001)) - (T)(std::is_signed<T>::value ? 1000 : 0); p.push(v, t); all.push_back({ t, v }); }
		else {
			T sum = 0; int32_t n = 0; for (auto& e : all) if (e.first >= t - win) { sum += e.second; n++; }
			auto r = p.sum_and_counts(t); queries++;
			VH_CHECK(c, r.second == n && r.first == sum, "at %lld (period %d): %d values with sum %lld reported, %d with %lld pushed in the window", (long long)t, win, r.second, (long long)r.first, n, (long long)sum);
			VH_CHECK(c, p.total_counts() == (size_t)n, "total_counts is %zu right after a query that counted %d", p.total_counts(), n);
			if (n < (int32_t)all.size()) expired = true; if (n > 31) many = true;
		}
	}
	c.note("period=%d values=%zu queries=%u", win, all.size(), queries);
	if (many) c.label("more-than-31-in-window");
	if (expired) c.label("expired");
	if (expired && queries > 1) c.nontrivial();
}
VH_PROP(period_window, 1000000, 15000000, 20000, false, 0)
{
	switch (c.below(4)) { case 0: period<int32_t, true>(c); break; case 1: period<int64_t, false>(c); break; case 2: period<size_t, true>(c); break; case 3: period<int32_t, false>(c); break; }
}
template<class T> static void minmax(vh::Ctx& c, const char* tn)
{
	bool init = c.chance(1, 3); std::vector<T> vs; size_t n = c.size(1, 40);
	auto gen = [&]() -> T { if (c.chance(1, 8)) return c.pick<T>({ std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), (T)0 }); T x = (T)(int64_t)c.below(200001); return std::is_signed<T>::value ? (T)(x - (T)(c.chance(1, 2) ? 200001 : 100000)) : x; };
	T mn, mx, i0 = gen(); MinMaxValue<T>* p = init ? new MinMaxValue<T>(i0) : new MinMaxValue<T>(); struct D { MinMaxValue<T>* p; ~D() { delete p; } } d{ p };
	if (init) { mn = mx = i0; VH_CHECK(c, p->min() == i0 && p->max() == i0, "initial value lost"); }
	for (size_t i = 0; i < n; i++) {
		T v = gen(); p->update(v); if (i == 0 && !init) mn = mx = v; if (v < mn) mn = v; if (v > mx) mx = v;
		VH_CHECK(c, p->min() == mn && p->max() == mx, "%s: min/max %g/%g, expected %g/%g after %zu updates", tn, (double)p->min(), (double)p->max(), (double)mn, (double)mx, i + 1);
	}
	c.note("%s n=%zu min=%g max=%g", tn, n, (double)mn, (double)mx); if (n > 1) c.nontrivial();
}
VH_PROP(extremes, 600000, 9000000, 20000, false, 0)
{
	switch (c.below(5)) { case 0: minmax<int32_t>(c, "int32"); break; case 1: minmax<uint32_t>(c, "uint32"); break; case 2: minmax<int64_t>(c, "int64"); break; case 3: minmax<float>(c, "float"); break; case 4: minmax<double>(c, "double"); break; }
}
// values stamped by the library's own clock
VH_PROP(own_clock, 1000, 15000, 20000, false, 0)
{
	PeriodValue<int64_t, true> p(600000); int64_t sum = 0; int32_t n = 0; sys_api::thread_sleep(2);
	while (c.more(60)) { int64_t v = (int64_t)c.below(100); p.push(v); sum += v; n++; auto r = p.sum_and_counts(); VH_CHECK(c, r.first == sum && r.second == n, "%d values/%lld reported, %d/%lld pushed", r.second, (long long)r.first, n, (long long)sum); }
	c.note("n=%d", n); if (n > 1) c.nontrivial();
}
int main(int argc, char** argv)
{
	vh::property_id = "C26";
	vh::nontrivial_rule = "sequential: values pushed at random non-decreasing times, queried in between; non-trivial = some values had expired at a query; extremes over integer and floating types";
	vh::assumptions = { "times handed to one PeriodValue do not decrease" };
	return vh::main(argc, argv);
}
