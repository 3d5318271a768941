// C27: CSimpleOpt against a reference parser written from its documentation.
#include <cy_core.h>
#include <utility/cyu_simple_opt.h>
#include "vh.h"
#include <deque>
#include <memory>
#include <ctype.h>
#include <string.h>

struct OptDef { int id; std::string text; ESOArgType type; };
struct Ev { int err; int id; std::string text; bool has_arg; std::string arg; std::vector<std::string> multi; bool multi_ok; int multi_err; };
static std::string show(const Ev& e) { std::string s = vh::sfmt("{err=%d id=%d text=%s arg=%s", e.err, e.id, e.text.c_str(), e.has_arg ? e.arg.c_str() : "(none)"); for (auto& m : e.multi) s += " +" + m; return s + "}"; }

// ---- reference: a list of pending arguments, a list of files
struct Ref {
	std::vector<OptDef> defs; int flags; std::deque<std::string> args; std::vector<std::string> files; std::string clump; bool stopped = false;
	bool has(int f) const { return (flags & f) == f; }
	static bool eq(const std::string& a, const std::string& b, bool ic) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) { char x = a[i], y = b[i]; if (ic) { x = (char)tolower((unsigned char)x); y = (char)tolower((unsigned char)y); } if (x != y) return false; } return true; }
	static size_t hyphens(const std::string& s) { size_t n = 0; while (n < s.size() && s[n] == '-') n++; return n; }
	int lookup(const std::string& t, int fl) const {
		int partial = -1, np = 0;
		for (size_t i = 0; i < defs.size(); i++) {
			const std::string& d = defs[i].text;
			int ict = d[0] != '-' ? SO_O_ICASE_WORD : (d.size() == 2 && d[1] != '-') || d.size() == 1 ? SO_O_ICASE_SHORT : SO_O_ICASE_LONG;
			if (hyphens(d) != hyphens(t)) continue;		// "-x" never matches "--x"
			bool ic = (fl & ict) != 0; size_t h = hyphens(d); std::string dn = d.substr(h), tn = t.substr(h);
			if (eq(dn, tn, ic)) return (int)i;
			if (!tn.empty() && tn.size() < dn.size() && eq(dn.substr(0, tn.size()), tn, ic)) { partial = (int)i; np++; }
		}
		if (np == 0 || (fl & SO_O_EXACT)) return SO_OPT_INVALID;
		return np == 1 ? partial : SO_OPT_MULTIPLE;
	}
	bool clumped(Ev& e) {
		std::string s = std::string("-") + clump[0]; clump.erase(0, 1);
		int i = lookup(s, SO_O_EXACT); e = Ev(); e.id = -1;
		if (i < 0) { e.err = i; e.text = s; return false; }
		e.text = defs[(size_t)i].text;
		if (defs[(size_t)i].type == SO_NONE) { e.id = defs[(size_t)i].id; return true; }
		if (defs[(size_t)i].type == SO_REQ_CMB && !clump.empty()) { e.id = defs[(size_t)i].id; e.has_arg = true; e.arg = clump; clump.clear(); return true; }
		e.err = SO_ARG_MISSING; return true;
	}
	// multi(n): take n separate arguments
	bool multi(size_t n, std::vector<std::string>& out, int& err) {
		if (args.size() < n) { err = SO_ARG_MISSING; return false; }
		if (!has(SO_O_NOERR)) for (size_t i = 0; i < n; i++) if (!args[i].empty() && args[i][0] == '-') { err = SO_ARG_INVALID_DATA; return false; }
		for (size_t i = 0; i < n; i++) { out.push_back(args.front()); args.pop_front(); }
		return true;
	}
	bool next(Ev& e, ESOArgType& at) {
		at = SO_NONE;
		while (!clump.empty()) { bool ok = clumped(e); if (ok || !has(SO_O_NOERR)) return true; }
		while (!args.empty()) {
			std::string a = args.front(); args.pop_front(); std::string t = a; e = Ev(); e.id = -1;
			if (!a.empty() && a[0] == '-') { size_t q = a.find('='); if (q != std::string::npos) { t = a.substr(0, q); e.has_arg = true; e.arg = a.substr(q + 1); } }
			int i = lookup(t, flags);
			if (i < 0 && !e.has_arg && t.size() > 2 && t[0] == '-' && t[1] != '-') {
				if (has(SO_O_SHORTARG)) { int k = lookup(t.substr(0, 2), flags); if (k >= 0 && (defs[(size_t)k].type == SO_REQ_CMB || defs[(size_t)k].type == SO_OPT)) { i = k; e.has_arg = true; e.arg = t.substr(2); } }
				if (i < 0 && has(SO_O_CLUMP)) { clump = t.substr(1); while (!clump.empty()) { bool ok = clumped(e); if (ok || !has(SO_O_NOERR)) return true; } continue; }
			}
			if (i < 0) {
				if (has(SO_O_NOERR) || t.empty() || t[0] != '-') { files.push_back(a); continue; }
				e.err = i; e.text = t; return true;
			}
			const OptDef& d = defs[(size_t)i]; e.id = d.id; e.text = d.text; at = d.type;
			switch (d.type) {
			case SO_NONE: if (e.has_arg) e.err = SO_ARG_INVALID; break;
			case SO_REQ_SEP: if (e.has_arg) { if (has(SO_O_PEDANTIC)) e.err = SO_ARG_INVALID_TYPE; } else { std::vector<std::string> o; if (multi(1, o, e.err)) { e.has_arg = true; e.arg = o[0]; } } break;
			case SO_REQ_CMB: if (!e.has_arg) e.err = SO_ARG_MISSING; break;
			default: break;
			}
			return true;
		}
		return false;
	}
	void stop() { clump.clear(); for (auto& a : args) files.push_back(a); args.clear(); }
};

static const char* NAMES[] = { "-a", "-b", "-c", "-f", "-o", "-A", "-?", "-", "--all", "--alpha", "--file", "--FiLe", "--output", "--o", "-long", "-lo", "open", "close", "Open", "opt", "--man", "--mandate", "-ab", "--x-y" };
static std::string gen_arg(vh::Ctx& c, const std::vector<OptDef>& defs)
{
	std::string s;
	switch (c.weighted({ 6, 3, 3, 2, 2, 1 })) {
	case 0: s = defs[c.below(defs.size())].text; break;
	case 1: { static const char* f[] = { "file", "x", "a.txt", "op", "12", "", "o=pen", "OPEN", "a b" }; s = f[c.below(9)]; break; }
	case 2: s = NAMES[c.below(24)]; break;
	case 3: { s = defs[c.below(defs.size())].text; if (s.size() > 2) s = s.substr(0, 1 + c.below(s.size())); break; }			// abbreviations
	case 4: { s = "-"; size_t n = c.size(1, 6); for (size_t i = 0; i < n; i++) s += "abcfoAxz?"[c.below(9)]; break; }				// clumps, -oARG
	default: { size_t n = c.size(0, 8); for (size_t i = 0; i < n; i++) s += "-=aAfo/xé"[c.below(8)]; break; }
	}
	if (c.chance(1, 5) && !s.empty()) for (auto& ch : s) if (c.chance(1, 2)) ch = (char)(isupper((unsigned char)ch) ? tolower((unsigned char)ch) : toupper((unsigned char)ch));
	if (c.chance(1, 5)) s += c.pick<const char*>({ "=v", "=", "=a=b", "=-x" });
	return s;
}
// argv in exactly sized heap blocks
struct Argv { std::vector<char*> own; char** v; int n;
	explicit Argv(const std::vector<std::string>& a) : n((int)a.size()) { v = (char**)malloc(sizeof(char*) * (a.size() ? a.size() : 1)); for (size_t i = 0; i < a.size(); i++) { char* p = (char*)malloc(a[i].size() + 1); memcpy(p, a[i].c_str(), a[i].size() + 1); own.push_back(p); v[i] = p; } }
	~Argv() { for (char* p : own) free(p); free(v); } };

VH_PROP(parser, 1500000, 22500000, 20000, false, 0)
{
	unsigned rounds = c.chance(1, 6) ? 2 : 1; CSimpleOptA* reused = rounds > 1 ? new CSimpleOptA() : nullptr; struct D { CSimpleOptA* p; ~D() { delete p; } } d{ reused };
	bool nt = false;
	for (unsigned rd = 0; rd < rounds; rd++) {
		Ref r; size_t nd = c.size(1, 10);
		for (size_t i = 0; i < nd; i++) r.defs.push_back({ (int)(c.chance(1, 6) ? 0 : i + 1), NAMES[c.below(24)], (ESOArgType)c.below(5) });
		static const int FL[] = { SO_O_EXACT, SO_O_NOSLASH, SO_O_SHORTARG, SO_O_CLUMP, SO_O_USEALL, SO_O_NOERR, SO_O_PEDANTIC, SO_O_ICASE_SHORT, SO_O_ICASE_LONG, SO_O_ICASE_WORD };
		r.flags = 0; for (int f : FL) if (c.chance(1, 4)) r.flags |= f;
		std::vector<std::string> in; in.push_back("prog"); size_t na = c.chance(1, 10) ? c.size(0, 120, { 49, 50, 51 }) : c.size(0, 12);
		for (size_t i = 0; i < na; i++) in.push_back(gen_arg(c, r.defs));
		if ((r.flags & SO_O_USEALL) == 0) r.args.assign(in.begin() + 1, in.end()); else r.args.assign(in.begin(), in.end());
		Argv av(in); std::vector<CSimpleOptA::SOption> tab; for (auto& x : r.defs) tab.push_back({ x.id, x.text.c_str(), x.type }); tab.push_back(SO_END_OF_OPTIONS);
		c.note("flags=%#x opts=[", r.flags); for (auto& x : r.defs) c.note("%s:%d ", x.text.c_str(), (int)x.type); c.note("] argv=["); for (size_t i = 1; i < in.size(); i++) c.note("'%s' ", in[i].c_str()); c.note("] ");
		std::unique_ptr<CSimpleOptA> fresh; CSimpleOptA* o;
		if (reused) { o = reused; VH_CHECK(c, o->Init(av.n, av.v, tab.data(), r.flags), "Init failed"); } else { fresh.reset(new CSimpleOptA(av.n, av.v, tab.data(), r.flags)); o = fresh.get(); }
		long stop_at = c.chance(1, 8) ? (long)c.below(4) : -1; unsigned n = 0, okn = 0;
		for (;; n++) {
			if (stop_at == (long)n) { o->Stop(); r.stop(); c.label("stopped"); }
			Ev w; ESOArgType at; bool wn = r.next(w, at), gn = o->Next();
			VH_CHECK(c, gn == wn, "Next() answered %d at event %u, expected %d %s", gn, n, wn, wn ? show(w).c_str() : "");
			if (!wn) break;
			Ev g = Ev(); g.err = o->LastError(); g.id = o->OptionId(); g.text = o->OptionText() ? o->OptionText() : ""; g.has_arg = o->OptionArg() != nullptr; if (g.has_arg) g.arg = o->OptionArg();
			VH_CHECK(c, g.err == w.err && g.id == w.id && g.text == w.text && g.has_arg == w.has_arg && g.arg == w.arg, "event %u is %s, expected %s", n, show(g).c_str(), show(w).c_str());
			if (w.err == SO_SUCCESS) okn++; else c.label("error-event");
			if (w.err == SO_SUCCESS && at == SO_MULTI) {
				unsigned calls = 1 + (unsigned)c.below(2);
				for (unsigned k = 0; k < calls; k++) {
					size_t cnt = c.below(4); std::vector<std::string> out; int err = SO_SUCCESS; bool ok = r.multi(cnt, out, err); char** gm = o->MultiArg((int)cnt);
					VH_CHECK(c, (gm != nullptr) == ok, "MultiArg(%zu) answered %d, expected %d", cnt, gm != nullptr, ok);
					if (ok) for (size_t i = 0; i < cnt; i++) VH_CHECK(c, out[i] == gm[i], "MultiArg(%zu)[%zu] is '%s', expected '%s'", cnt, i, gm[i], out[i].c_str());
					else VH_CHECK(c, o->LastError() == err, "MultiArg(%zu) error is %d, expected %d", cnt, o->LastError(), err);
					if (!ok) break; if (cnt) c.label("multi");
				}
			}
			VH_CHECK(c, n < 2000, "parsing does not end");
		}
		VH_CHECK(c, o->FileCount() == (int)r.files.size(), "%d files, expected %zu", o->FileCount(), r.files.size());
		for (int i = 0; i < o->FileCount(); i++) VH_CHECK(c, r.files[(size_t)i] == o->File(i) && o->Files()[i] == o->File(i), "file %d is '%s', expected '%s'", i, o->File(i), r.files[(size_t)i].c_str());
		VH_CHECK(c, !o->Next(), "Next() is true again after the end");
		if (okn > 1 && !r.files.empty()) nt = true; if (in.size() > 51) c.label("many-args");
	}
	if (nt) c.nontrivial();
}
int main(int argc, char** argv)
{
	vh::property_id = "C27";
	vh::nontrivial_rule = "random option tables (short, long, word; all argument types), flag sets and argument vectors (abbreviations, clumps, '=' forms, case changes, 0..120 arguments); non-trivial = at least two options and one file recognised";
	return vh::main(argc, argv);
}
