// C35: command lines
#include "common.hpp"
#include <memory>
#include <cmath>
extern "C" {
#include "lib/cmdlineparser/cmdline.h"
}
VP_LOG_PREFIX
using namespace vp;
struct Rule { int flags; char sh; std::string lg; };
struct Pair { int rule; bool has = false; std::vector<std::string> v; };
static const int HAS = CMD_ARG_FLAG_HAS_ARGUMENT, NOF = CMD_ARG_FLAG_NO_FLAG, MUL = CMD_ARG_FLAG_NO_FLAG_MULTI, SPL = CMD_ARG_FLAG_SPLIT_COMMA, EMP = CMD_ARG_FLAG_ALLOW_EMPTY;
static std::vector<std::string> commas(const std::string &v) { std::vector<std::string> r; size_t p = 0; while (p < v.size()) { size_t e = v.find(',', p); if (e == std::string::npos) e = v.size(); r.push_back(v.substr(p, e - p)); p = e + 1; } return r; }
static bool model(const std::vector<Rule> &R, const std::vector<std::string> &a, bool command, std::vector<Pair> &out) {
	bool end = false; size_t nof = 0;
	for (size_t i = command ? 2 : 1; i < a.size(); i++) {
		std::string x = a[i], key, val; bool eq = false; int dash = 0;
		if (!end) { if (x.compare(0, 2, "--") == 0) dash = 2; else if (x.compare(0, 1, "-") == 0) dash = 1; key = x.substr((size_t) dash); if (dash) { size_t p = key.find('='); if (p != std::string::npos) { eq = true; val = key.substr(p + 1); key = key.substr(0, p); if (key.empty()) return false; } } if (key.empty()) { if (dash == 2) { end = true; continue; } return false; } }
		int r = -1;
		if (dash == 2) { for (size_t j = 0; j < R.size() && r < 0; j++) if (!(R[j].flags & NOF) && R[j].lg == key) r = (int) j; if (r < 0) return false; }
		else if (dash == 1) { bool single = false; for (char c : key) { r = -1; for (size_t j = 0; j < R.size() && r < 0; j++) if (!(R[j].flags & NOF) && R[j].sh == c) r = (int) j; if (r < 0) return false; if (R[(size_t) r].flags & HAS) { if (key.size() != 1) return false; single = true; } else { if (eq) return false; out.push_back({r}); } } if (!single) continue; }
		else { size_t n = 0; for (size_t j = 0; j < R.size() && r < 0; j++) if (R[j].flags & NOF) { if (n == nof) r = (int) j; n++; } nof++; for (size_t j = 0; j < R.size() && r < 0; j++) if (R[j].flags & MUL) r = (int) j; if (r < 0) return false; }
		int f = R[(size_t) r].flags; Pair p; p.rule = r; if (f & (HAS | NOF | MUL)) { if (!eq) { if (!(f & (NOF | MUL))) { if (++i == a.size()) return false; } val = a[i]; } if (val.empty() && !(f & EMP)) return false; p.has = true; if (f & SPL) p.v = commas(val); else p.v = {val}; } else if (eq) return false;
		out.push_back(p);
	}
	return true;
}
static void cmdline(Src &s) {
	std::vector<Rule> R; size_t n = 1 + s.n(6); bool nof = false; for (size_t i = 0; i < n; i++) { Rule r; r.sh = "abcdefgh"[i]; r.lg = s.chance(1, 4) ? std::string(1, r.sh) + "-" + s.chars(s.len(3), "ab-") : "opt" + std::to_string(i); switch (s.weighted({4, 4, 3, 1})) { case 0: r.flags = 0; break; case 1: r.flags = HAS; break; case 2: r.flags = NOF; nof = true; break; default: r.flags = MUL; r.sh = '\1'; break; } if (r.flags) { if (s.chance(1, 4)) r.flags |= SPL; if (s.chance(1, 4)) r.flags |= EMP; } if (r.flags & NOF && s.flip()) r.sh = '\0'; R.push_back(r); } (void) nof;
	std::vector<std::string> a{"prog"}; bool command = s.chance(1, 4); auto val = [&]() -> std::string { return s.chance(1, 8) ? "" : s.chance(1, 12) ? s.chars(s.len(9), "ab,") + s.chars(200 + s.n(300), "ab") + s.chars(s.len(9), "ab,") : s.chance(1, 10) ? s.pick({"-", "--", "-a", "--opt0", "=", "a=b", "--x=y"}) : s.chars(s.len(8), "ab,,=-./ 1"); };
	for (size_t k = s.len(8); k; k--) { const Rule &r = s.pick(R); switch (s.weighted({8, 6, 3, 2, 1})) { case 0: if (r.flags & (NOF | MUL)) a.push_back("x" + s.chars(s.len(5), "ab,=")); else if (r.flags & HAS) { if (s.flip()) a.push_back("--" + r.lg + "=" + val()); else { a.push_back("--" + r.lg); a.push_back(val()); } } else a.push_back("--" + r.lg); break; case 1: if (r.flags & (NOF | MUL)) a.push_back("x" + s.chars(s.len(5), "ab,=")); else if (r.flags & HAS) { if (s.flip()) a.push_back(std::string("-") + r.sh + "=" + val()); else { a.push_back(std::string("-") + r.sh); a.push_back(val()); } } else a.push_back(std::string("-") + r.sh); break; case 2: { std::string g = "-"; for (size_t j = 1 + s.n(3); j; j--) { const Rule &q = s.pick(R); if (!(q.flags & (NOF | MUL | HAS)) || s.chance(1, 8)) g += q.sh ? q.sh : 'z'; } a.push_back(g); break; } case 3: a.push_back(val()); break; default: a.push_back(s.pick({"--", "-", "", "--opt0", "-a", "-a=x", "--opt0=", "--=x", "-=x", "---", "--nope", "-abc"})); } }
	std::vector<struct cmd_arg_rule> rules; std::vector<char> raw((R.size() + 1) * sizeof(struct cmd_arg_rule)); struct cmd_arg_rule *ru = (struct cmd_arg_rule *) raw.data(); for (size_t i = 0; i < R.size(); i++) { struct cmd_arg_rule x = {R[i].flags, R[i].sh, R[i].lg.c_str(), "legend"}; memcpy(&ru[i], &x, sizeof x); } struct cmd_arg_rule z = {0, '\0', NULL, NULL}; memcpy(&ru[R.size()], &z, sizeof z);
	std::string d; for (auto &x : R) d += " " + x.lg + ":" + std::to_string(x.flags); d += " |"; for (auto &x : a) d += " " + show(x); desc("%s", d.c_str());
	std::vector<std::unique_ptr<char[]>> own; std::vector<const char *> av; for (auto &x : a) { own.emplace_back(new char[x.size() + 1]); memcpy(own.back().get(), x.c_str(), x.size() + 1); av.push_back(own.back().get()); } struct cmd_data c; cmd_init(&c, ru, (int) av.size(), av.data()); std::vector<Pair> e; bool ok = model(R, a, command, e); int r = cmd_parse(&c, command ? CMD_CONFIG_COMMAND : CMD_CONFIG_DEFAULTS);
	CHECK((r == 0) == ok, "parsing returned %d", r); CHECK(a[0] == c.program, "program"); CHECK(!!cmd_match(&c, command && a.size() > 1 ? a[1].c_str() : "") == 1, "command"); for (size_t i = 0; i < a.size(); i++) CHECK(a[i] == av[i], "argument changed");
	if (ok) { size_t k = 0; for (auto *p = c.ptr_first; p; p = p->ptr_next, k++) { CHECK(k < e.size() && p->rule == &ru[e[k].rule], "argument %zu", k); size_t j = 0; for (auto *v = p->ptr_first; v; v = v->ptr_next, j++) CHECK(j < e[k].v.size() && e[k].v[j] == v->value, "value %zu of %s", j, p->rule->longname); CHECK(j == e[k].v.size(), "values of %s", p->rule->longname); } CHECK(k == e.size(), "%zu arguments, expected %zu", k, e.size());
		for (auto &x : R) { size_t cnt = 0; std::vector<std::string> flat; bool stop = false; for (auto &p : e) if (R[(size_t) p.rule].lg == x.lg) { CHECK(cmd_exists(&c, x.lg.c_str(), cnt), "exists"); const char *g = cmd_get_value(&c, x.lg.c_str(), cnt); CHECK(p.v.empty() ? !g : g && p.v[0] == g, "value"); for (size_t j = 0; j <= p.v.size(); j++) { g = cmd_get_subvalue(&c, x.lg.c_str(), cnt, j); CHECK(j < p.v.size() ? g && p.v[j] == g : !g, "value %zu", j); } if (p.v.empty()) stop = true; if (!stop) flat.insert(flat.end(), p.v.begin(), p.v.end()); cnt++; } CHECK(!cmd_exists(&c, x.lg.c_str(), cnt) && !cmd_get_value(&c, x.lg.c_str(), cnt), "does not exist");
			std::vector<std::string> got; CHECK(cmd_iterate_subvalues_if_exists(&c, x.lg.c_str(), [](const char *v, void *a) { ((std::vector<std::string> *) a)->push_back(v); return 0; }, &got) == 0 && got == flat, "values of %s", x.lg.c_str()); }
		if (e.size() > 1) nontrivial(); }
	else label("refused");
	struct cmd_argv_copy *cp; cmd_get_argv_copy(&cp, &c); CHECK((size_t) cp->argc == a.size() && !cp->argv[a.size()], "copy"); for (size_t i = 0; i < a.size(); i++) CHECK(a[i] == cp->argv[i], "copy"); cmd_destroy_argv_copy(cp); cmd_destroy(&c);
}
static void numbers(Src &s) {
	std::string v; bool hex = s.flip(); switch (s.weighted({4, 3, 2, 2})) { case 0: v = std::to_string(s.flip() ? s.u64() : s.u(300)); break; case 1: { char b[32]; sprintf(b, s.flip() ? "%llx" : "%02llX", (unsigned long long) (s.flip() ? s.u64() : s.u(300))); v = b; break; } case 2: v = s.chars(s.len(22), "0123456789"); break; default: v = s.chars(s.len(6), "0123456789abcdefxg-+ ."); } if (s.chance(1, 10)) v = "-" + v; if (s.chance(1, 12)) v = s.pick({" -", "\t-", "  -"}) + std::to_string(1 + s.u(5)); (void) hex; desc("%s", show(v).c_str());
	auto parse = [&](unsigned base, uint64_t max, unsigned __int128 &m) { m = 0; size_t i = 0; if (v.empty()) return false; for (; i < v.size(); i++) { char c = v[i]; unsigned d = c >= '0' && c <= '9' ? (unsigned) (c - '0') : c >= 'a' && c <= 'f' ? (unsigned) (c - 'a') + 10 : c >= 'A' && c <= 'F' ? (unsigned) (c - 'A') + 10 : 99; if (d >= base) return false; m = m * base + d; if (m > max) return false; } return true; };
	bool plain = !v.empty() && v.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos; bool nonsense = v.find_first_of("g.") != std::string::npos || v.find("-", 1) != std::string::npos; unsigned __int128 m; bool ok; uint64_t u = 5; char b = 5; long l = 5;
	ok = parse(10, UINT64_MAX, m); int r = cmd_convert_uint64_10(v.c_str(), &u); if (ok) CHECK(r == 0 && u == (uint64_t) m, "%s is %llu", v.c_str(), (unsigned long long) u); else if (plain || nonsense || v.empty() || v.find("-") != std::string::npos) CHECK(r != 0, "'%s' is accepted as %llu", v.c_str(), (unsigned long long) u); if (ok) nontrivial();
	ok = parse(16, UINT64_MAX, m); r = cmd_convert_hex_64(v.c_str(), &u); if (ok) CHECK(r == 0 && u == (uint64_t) m, "hex %s is %llx", v.c_str(), (unsigned long long) u); else if (plain || nonsense || v.empty() || v[0] == '-') CHECK(r != 0, "'%s' is accepted as hex %llx", v.c_str(), (unsigned long long) u);
	ok = parse(16, 255, m); r = cmd_convert_hex_byte(v.c_str(), &b); if (ok) CHECK(r == 0 && (uint8_t) b == (uint8_t) m, "hex byte %s", v.c_str()); else if (plain || v.empty() || v.find_first_of("g.") != std::string::npos) CHECK(r != 0, "'%s' is accepted as byte", v.c_str());
	bool neg = !v.empty() && v[0] == '-'; std::string keep = v; if (neg) v.erase(0, 1); ok = parse(10, neg ? (uint64_t) INT64_MAX + 1 : INT64_MAX, m); v = keep; r = cmd_convert_integer_10(v.c_str(), &l); if (ok) CHECK(r == 0 && l == (long) (neg ? -(__int128) m : (__int128) m), "%s is %ld", v.c_str(), l); else if ((plain || nonsense || v.empty()) && (v.empty() || !isspace((unsigned char) v[0]))) CHECK(r != 0, "'%s' is accepted as %ld", v.c_str(), l);
	int y = 9; r = cmdline_check_yesno(v.c_str(), &y); int e = v.empty() ? -1 : strchr("yY1", v[0]) ? 1 : strchr("nN0", v[0]) ? 0 : -1; CHECK((r == 0) == (e >= 0) && (e < 0 || y == e), "yes or no: %s", v.c_str());
}
VP_TARGET(cmdline, 200000, "an accepted command line with more than one argument");
VP_TARGET(numbers, 60000, "a valid decimal number");
VP_MAIN(vp_lib_init)
