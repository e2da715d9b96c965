// C25: configuration files
#include "common.hpp"
#include <map>
#include <memory>
#include <cmath>
extern "C" {
#include "lib/instance_config.h"
#include "lib/settings.h"
#include "lib/map.h"
#include "lib/parse.h"
}
VP_LOG_PREFIX
using namespace vp;
struct Set { std::string n, v; bool used = false; };
struct Blk { std::string main, sub; bool has_sub = false; std::vector<Set> s; int line = 0; };
static std::string nl(Src &s) { return s.pick({"\n", "\r\n", "\n\n", "\r", "\n \t\n"}); }
static std::string sp(Src &s, bool lines = false) { std::string o; for (size_t k = s.chance(1, 3) ? s.n(3) : 0; k; k--) o += lines && s.chance(1, 3) ? nl(s) : s.pick({" ", "\t"}); return o; }
static std::string comment(Src &s) { return s.chance(1, 5) ? "#" + s.chars(s.len(12), "ab =[]#{};<>") + nl(s) : ""; }
static std::string name(Src &s) { return s.chance(1, 12) ? s.chars(230, "abzAZ019_-") + "k" : std::string(1, s.pick({'a', 'b', 'Z', '0', '-', '_'})) + s.chars(s.len(3), "ab_Z9-"); }
static std::string value(Src &s) {
	std::string v; switch (s.weighted({4, 3, 2, 2, 2, 1, 1})) { case 0: v = s.chars(s.len(14), "ab ,=#[]->x\t\"'5\xc3\xa5") ; break; case 1: v = std::to_string(s.flip() ? s.u(100000) : s.u64()); break; case 2: v = s.chars(s.len(24), "0123456789"); break; case 3: v = s.chars(s.len(6), "0123456789") + "." + s.chars(s.len(6), "0123456789"); break; case 4: v = s.pick({"yes", "no", "Y", "N", "1", "0", "true", "maybe", "-1", "+5", "0x10", "18446744073709551615", "18446744073709551616", "1e5", "*", "65535", "65536", "0"}); break; case 5: v = s.chars(s.len(30), "ab,,->:="); break; default: v = s.bytes_cheap(s.chance(1, 4) ? 1500 : 20); }
	for (auto &c : v) if (c == '\n' || c == '\r' || c == 0) c = '.'; size_t a = 0, b = v.size(); auto w = [](char c) { return c == ' ' || c == '\t'; }; while (a < b && w(v[a])) a++; while (b > a && w(v[b - 1])) b--; v = v.substr(a, b - a); return v.empty() ? "v" : v;
}
struct Coll { struct rrr_instance_config_collection *c = NULL; int ret; Coll(const std::string &t) { std::unique_ptr<char[]> p(new char[t.size() ? t.size() : 1]); memcpy(p.get(), t.data(), t.size()); ret = rrr_instance_config_parse_string(&c, p.get(), (rrr_length) t.size()); CHECK((ret == 0) == (c != NULL), "result"); } ~Coll() { if (c) rrr_instance_config_collection_destroy(c); } };
struct Used { struct rrr_settings_used u; };
static std::vector<Set> all(struct rrr_instance_config_data *i) {
	std::vector<Set> r; rrr_settings_iterate(&i->settings_used, i->settings, [](int *u, const struct rrr_setting *x, void *a) { char *t = NULL; CHECK(rrr_settings_setting_to_string(&t, x) == 0, "string"); CHECK(x->type == RRR_SETTINGS_TYPE_STRING && x->data_size == strlen(t) + 1, "type"); ((std::vector<Set> *) a)->push_back({x->name, t, *u != 0}); rrr_free(t); return 0; }, &r); return r;
}
static std::vector<std::string> commas(const std::string &v) { std::vector<std::string> r; size_t p = 0; while (p < v.size()) { size_t e = v.find(',', p); if (e == std::string::npos) { r.push_back(v.substr(p)); break; } r.push_back(v.substr(p, e - p)); p = e + 1; } return r; }
static void queries(Src &s, struct rrr_instance_config_data *i, Blk &b) {
	auto &u = i->settings_used; auto *S = i->settings; std::vector<std::string> names; for (auto &x : b.s) names.push_back(x.n);
	for (size_t k = s.n(10); k; k--) {
		std::string n = names.empty() || s.chance(1, 8) ? "none" + s.chars(2, "ab") : s.pick(names); Set *x = NULL; for (auto &y : b.s) if (y.n == n) x = &y; const std::string v = x ? x->v : ""; const int NF = RRR_SETTING_NOT_FOUND; int r; bool use = true; char *t = NULL;
		switch (s.n(12)) {
		case 0: r = rrr_settings_read_string(&t, &u, S, n.c_str()); CHECK(r == (x ? 0 : NF) && (!x || v == t), "read string"); rrr_free(t); break;
		case 1: r = rrr_settings_get_string_noconvert_silent(&t, &u, S, n.c_str()); CHECK(r == (x ? 0 : NF) && (!x || v == t), "get string"); rrr_free(t); break;
		case 2: { rrr_setting_uint o = 7; r = rrr_settings_read_unsigned_integer(&o, &u, S, n.c_str()); if (!x) { CHECK(r == NF, "uint not found"); break; } bool ok = true; unsigned __int128 m = 0; for (char c : v) { if (c < '0' || c > '9') { ok = false; break; } m = m * 10 + (unsigned) (c - '0'); if (m >> 64) { ok = false; break; } } CHECK((r == 0) == ok && r != NF, "unsigned '%s': returned %d with value %llu", show(v).c_str(), r, (unsigned long long) o); if (ok) { CHECK(o == (uint64_t) m, "unsigned '%s' gives %llu", v.c_str(), (unsigned long long) o); label("unsigned"); } else label("bad unsigned"); break; }
		case 3: { rrr_setting_double o = 7; r = rrr_settings_read_double(&o, &u, S, n.c_str()); if (!x) { CHECK(r == NF, "double not found"); break; } size_t dots = 0, digits = 0; bool ok = true; for (char c : v) if (c == '.') dots++; else if (c >= '0' && c <= '9') digits++; else ok = false; ok = ok && dots <= 1 && digits; CHECK((r == 0) == ok && r != NF, "double '%s': returned %d", show(v).c_str(), r); if (ok && v.size() < 300) { long double e = strtold(v.c_str(), NULL); CHECK(fabsl(o - e) <= e * 1e-15L, "double '%s' gives %Lg", v.c_str(), o); label("number"); } break; }
		case 4: { int o = 9; r = rrr_settings_check_yesno(&o, &u, S, n.c_str()); if (!x) { CHECK(r == NF && o == -1, "yesno not found"); break; } int e = strchr("yY1", v[0]) ? 1 : strchr("nN0", v[0]) ? 0 : -1; CHECK((r == 0) == (e >= 0) && (e < 0 || o == e) && r != NF, "yesno '%s'", show(v).c_str()); break; }
		case 5: { std::vector<std::string> o; size_t stop = s.chance(1, 5) ? s.n(2) : 99; std::pair<std::vector<std::string> *, size_t> a(&o, stop); r = rrr_settings_traverse_split_commas_silent_fail(&u, S, n.c_str(), [](const char *p, void *a) { auto *q = (std::pair<std::vector<std::string> *, size_t> *) a; q->first->push_back(p); return q->first->size() > q->second ? 3 : 0; }, &a); auto e = commas(v); int er = 0; if (e.size() > stop) { e.resize(stop + 1); er = 3; } CHECK(o == e && r == er, "elements of %s", show(v).c_str()); if (e.size() > 1) label("list"); break; }
		case 6: { struct rrr_settings_list *l = NULL; r = rrr_settings_split_commas_to_array(&l, &u, S, n.c_str()); if (!x) { CHECK(r != 0, "list not found"); if (r == 0) break; break; } CHECK(r == 0, "list"); auto e = commas(v); if (v[0] != ',' || 1) { CHECK(l->length == e.size(), "%u elements of %s, expected %zu", l->length, show(v).c_str(), e.size()); for (size_t j = 0; j < e.size(); j++) CHECK(e[j] == l->list[j], "element"); } rrr_free(l->data); rrr_free(l->list); rrr_free(l); break; }
		case 7: { int o = 9; r = rrr_settings_cmpto(&o, &u, S, n.c_str(), s.flip() ? v.c_str() : "yes"); CHECK(r == (x ? 0 : NF), "compare"); break; }
		case 8: { struct rrr_map m; memset(&m, 0, sizeof m); std::string d = s.pick({"->", "=", ":"}); bool with = s.chance(2, 3); r = with ? rrr_instance_config_parse_comma_separated_associative_to_map(&m, i, n.c_str(), d.c_str()) : rrr_instance_config_parse_comma_separated_to_map(&m, i, n.c_str()); bool ok = true; std::vector<std::pair<std::string, std::string>> e; for (auto &y : commas(v)) { size_t p = with ? y.find(d) : std::string::npos; if (p == std::string::npos) e.push_back({y, ""}); else if (p + d.size() == y.size()) { ok = false; break; } else e.push_back({y.substr(0, p), y.substr(p + d.size())}); }
			CHECK((r == 0) == ok, "map of %s with %s", show(v).c_str(), d.c_str()); size_t j = 0; if (ok) { RRR_MAP_ITERATE_BEGIN(&m); CHECK(j < e.size() && e[j].first == node_tag && e[j].second == (node_value ? node_value : ""), "item %zu of %s: %s, %s", j, show(v).c_str(), node_tag, node_value); j++; RRR_MAP_ITERATE_END(); CHECK(j == e.size(), "map size"); if (j > 1) label("map"); } rrr_map_clear(&m); break; }
		case 9: { uint16_t o = 9; bool opt = s.flip(); r = opt ? rrr_instance_config_read_optional_port_number(&o, i, n.c_str()) : rrr_instance_config_read_port_number(&o, i, n.c_str()); bool num = x && v.size() < 19 && v.find_first_not_of("0123456789") == std::string::npos; long long z = num ? atoll(v.c_str()) : -1; bool ok = x ? num && z <= 65535 && (opt || z > 0) : opt; CHECK((r == 0) == ok, "port '%s'", show(v).c_str()); if (ok) CHECK(o == (x ? z : 0), "port '%s' is %u", v.c_str(), o); break; }
		case 10: { std::string w = value(s); bool good = n.size() < RRR_SETTINGS_MAX_NAME_SIZE; if (x) { CHECK(rrr_instance_config_replace_string(i, n.c_str(), w.c_str()) == 0, "replace"); x->v = w; label("replaced"); } else if (b.s.size() < 32 && good && s.flip()) { CHECK(rrr_instance_config_replace_string(i, n.c_str(), w.c_str()) == 0, "add"); b.s.push_back({n, w}); names.push_back(n); } use = false; break; }
		case 11: if (s.flip()) { CHECK(!!rrr_instance_config_setting_exists(i, n.c_str()) == !!x, "exists"); } else if (x) { bool y = s.flip(); if (y) rrr_instance_config_set_used(i, n.c_str()); else { rrr_instance_config_set_unused(i, n.c_str()); x->used = use = false; } } break;
		case 12: { use = false; std::vector<std::string> o; bool fits = true; for (auto &y : b.s) if (y.v.size() + 1 > RRR_SETTINGS_MAX_DATA_SIZE) fits = false; std::vector<Set> got; r = rrr_settings_iterate_packed(S, &u, [](const struct rrr_setting_packed *p, void *a) { struct rrr_setting_packed c = *p; rrr_settings_packed_prepare_for_network(&c); rrr_settings_packed_to_host(&c); CHECK(rrr_settings_packed_validate(&c) == 0 && !memcmp(&c, p, sizeof c), "packed"); CHECK(c.data_size && !c.data[c.data_size - 1], "packed string"); ((std::vector<Set> *) a)->push_back({c.name, c.data, c.was_used != 0}); return 0; }, &got); CHECK((r == 0) == fits, "pack"); if (fits) { CHECK(got.size() == b.s.size(), "packed count"); for (size_t j = 0; j < got.size(); j++) CHECK(got[j].n == b.s[j].n && got[j].v == b.s[j].v && got[j].used == b.s[j].used, "packed setting %zu", j); label("packed"); } break; }
		}
		if (x && use) for (auto &y : b.s) if (y.n == n) y.used = true;
	}
	auto g = all(i); CHECK(g.size() == b.s.size(), "%zu settings, expected %zu", g.size(), b.s.size()); bool au = true; for (size_t j = 0; j < g.size(); j++) { CHECK(g[j].n == b.s[j].n && g[j].v == b.s[j].v, "setting %s is %s, expected %s=%s", g[j].n.c_str(), show(g[j].v).c_str(), b.s[j].n.c_str(), show(b.s[j].v).c_str()); CHECK(g[j].used == b.s[j].used, "setting %s is %s", g[j].n.c_str(), g[j].used ? "used" : "unused"); au = au && g[j].used; }
	CHECK((rrr_instance_config_check_all_settings_used(i) == 0) == au, "all used");
}
static void config(Src &s) {
	std::vector<Blk> bs; size_t n = s.len(5); for (size_t i = 0; i < n; i++) { Blk b; if (!bs.empty() && s.chance(1, 3)) { b.main = s.pick(bs).main; b.has_sub = true; b.sub = name(s); } else b.main = name(s); bool dup = false; for (auto &o : bs) if (o.main == b.main && o.has_sub == b.has_sub && o.sub == b.sub) dup = true; if (dup) continue; for (size_t k = s.chance(1, 40) ? 40 : s.len(7); k; k--) { Set x{name(s), value(s)}; bool d = false; for (auto &y : b.s) if (y.n == x.n) d = true; if (!d) b.s.push_back(x); } bs.push_back(b); }
	if (s.chance(1, 8)) for (size_t i = bs.size(); i > 1; i--) std::swap(bs[i - 1], bs[s.n(i - 1)]);	// sub instances before their main instance
	int bad = s.chance(1, 6) && !bs.empty() ? 1 + (int) s.n(9) : 0; size_t at = bs.empty() ? 0 : s.n(bs.size() - 1); if ((bad == 1 && bs[at].s.empty()) || (bad == 7 && !bs[at].has_sub)) bad = 0; size_t toolong = 0; for (auto &b : bs) for (auto &x : b.s) if (x.n.size() >= RRR_SETTINGS_MAX_NAME_SIZE || b.s.size() > 32) toolong++;
	std::string t = sp(s, true); bool defdup = false;
	if (!bs.empty() && s.chance(1, 5)) { std::vector<std::string> defs; for (size_t k = 1 + s.n(3); k; k--) { std::string m = s.pick({"r", "r2", "m-1", "m"}); char o = s.pick({'<', '(', '{'}); bool d = false; for (auto &x : defs) if (x == std::string(1, o) + m) d = true; if (d && (o == '{' || !s.chance(1, 3))) continue; if (d) defdup = true; defs.push_back(std::string(1, o) + m); t += comment(s) + o + sp(s, true) + m + sp(s, true) + (o == '<' ? '>' : o == '(' ? ')' : '}') + nl(s) + sp(s, true) + (o == '{' ? "be4#v;" : "T #" + nl(s) + "D " + s.pick({"x", "y"}) + " APPLY" + nl(s) + "POP") + nl(s) + sp(s, true); label(d ? "definition twice" : "definition"); } }
	for (size_t i = 0; i < bs.size(); i++) {
		Blk &b = bs[i]; bool here = bad && i == at; while (s.chance(1, 6)) t += comment(s) + sp(s, true); t += "[" + sp(s, true) + b.main + sp(s, true); if (b.has_sub) t += "[" + sp(s, true) + b.sub + sp(s) + (here && bad == 7 ? "[x]" : "") + "]" + sp(s); t += here && bad == 4 ? "" : "]"; t += s.chance(1, 8) && !b.s.empty() ? sp(s, true) : sp(s) + nl(s);
		for (auto &x : b.s) { for (int k = s.chance(1, 8) ? 3 : 1; k; k--) t += comment(s) + (k > 1 ? sp(s, true) : ""); t += sp(s, true) + x.n + sp(s) + "=" + sp(s) + x.v + sp(s) + nl(s) + sp(s, true); }
		if (here) switch (bad) { case 1: t += b.s[s.n(b.s.size() - 1)].n + "=other\n"; break; case 2: t += "zz9=" + sp(s) + nl(s); break; case 3: t += "zz9 value\n"; break; case 5: t += s.pick({"!", "=x", "]", ";", "\"", "}", ">"}); t += "\n"; break; case 6: t += "[" + b.main + (b.has_sub ? "[" + b.sub + "]" : "") + "]\n"; break; case 8: t += "[nomain[sub]]\n"; break; case 9: t += "zz9="; bs.resize(i + 1); break; case 10: t += std::string("[") + s.pick({"x", "x ", "x[y", "x[y]", "x[y] "}); bs.resize(i + 1); break; }
		if (here && bad == 4) { t += "x=1\n"; }
	}
	t += sp(s, true); if (s.chance(1, 4)) t += "# end"; if (t.size() && !bad && s.flip() && bs.size() && !bs.back().s.empty()) { /* the last line may lack its end */ while (!t.empty() && (t.back() == '\n' || t.back() == '\r')) t.pop_back(); }
	if (bad == 9 || bad == 10) { size_t e = t.size(); (void) e; if (t.size() > 5 && t.substr(t.size() - 5) == "# end") t.resize(t.size() - 5); }
	desc("%s", show(t).c_str()); bool orphan = false; for (auto &b : bs) if (b.has_sub) { bool f = false; for (auto &o : bs) if (!o.has_sub && o.main == b.main) f = true; if (!f) orphan = true; } bool trailing = !bad && bs.empty() && t.find_first_not_of(" \t\r\n") == std::string::npos; (void) trailing;
	bool expect = !bad && !orphan && !toolong && !defdup; Coll c(t); CHECK((c.ret == 0) == expect, "parsing returned %d (%d %s)", c.ret, bad, bad ? "broken on purpose" : orphan ? "no main instance" : "well-formed"); if (!c.c) { label(bad ? "broken" : defdup ? "duplicate definition" : "orphan"); return; }
	CHECK(rrr_instance_config_collection_count(c.c) == (int) bs.size(), "%d instances, expected %zu", rrr_instance_config_collection_count(c.c), bs.size()); size_t k = 0; std::map<std::string, struct rrr_instance_config_data *> mains; for (auto *i = c.c->ptr_first; i; i = i->ptr_next) if (!i->sub_name) mains[i->name_main] = i; size_t sets = 0;
	for (auto *i = c.c->ptr_first; i; i = i->ptr_next, k++) { Blk &b = bs[k]; CHECK(b.main == i->name_main && b.has_sub == (i->sub_name != NULL) && (!b.has_sub || b.sub == i->sub_name), "instance %zu: %s", k, i->name_debug); CHECK(i->sub_parent == (b.has_sub ? mains[b.main] : NULL), "main instance of %s", i->name_debug);
		struct rrr_instance_config_data *nx = NULL; bool past = !b.has_sub; for (auto *j = c.c->ptr_first; j; j = j->ptr_next) { if (j == i && b.has_sub) { past = true; continue; } if (past && j->sub_name && b.main == j->name_main && j != i) { nx = j; break; } } CHECK(i->sub_next == nx, "next sub instance of %s", i->name_debug); sets += b.s.size(); auto g = all(i); CHECK(g.size() == b.s.size(), "instance %s: %zu settings, expected %zu", i->name_debug, g.size(), b.s.size()); for (size_t j = 0; j < g.size(); j++) CHECK(g[j].n == b.s[j].n && g[j].v == b.s[j].v, "setting %zu is %s=%s, expected %s=%s", j, g[j].n.c_str(), show(g[j].v).c_str(), b.s[j].n.c_str(), show(b.s[j].v).c_str()); }
	k = 0; for (auto *i = c.c->ptr_first; i; i = i->ptr_next, k++) queries(s, i, bs[k]); if (sets > 2) nontrivial(); if (bs.size() > 2) label("several instances");
}
static void noise(Src &s) {
	std::string t; if (s.flip()) { for (size_t i = 1 + s.n(3); i; i--) { t += "[i" + std::to_string(i) + "]\n"; for (size_t k = s.n(4); k; k--) t += name(s) + "=" + value(s) + nl(s); } for (size_t e = s.n(3); e; e--) { size_t a = s.n(t.size()), l = s.n(std::min<size_t>(6, t.size() - a)); if (s.flip()) t.erase(a, l); else t.insert(a, s.pick({"\n", "[", "]", "=", "#", " ", "\r", "a", "{", "<", "("})); } if (s.chance(1, 4)) t.resize(s.n(t.size())); }
	else for (size_t k = s.len(25); k; k--) t += s.pick({"[", "]", "[", "]", "a", "b=", "=", "1", "v", "\n", "\n", "\r\n", " ", "\t", "#", "# x\n", "{", "}", "{t}be4#x;", "be4,", ";", "<", ">", "<r> T a/b APPLY;", "(m)", "H x", ",", "-", "_", "*", "[i]\nx=y\n", "[i[s]]\n", "\xc3", "\x01"}); if (s.chance(1, 10)) t += std::string(1, (char) s.u(255)); desc("%s", show(t).c_str());
	Coll c(t); if (!c.c) { label("refused"); return; } for (auto *i = c.c->ptr_first; i; i = i->ptr_next) { CHECK(*i->name_main, "empty name"); for (auto &x : all(i)) { CHECK(!x.n.empty() && (!x.v.empty() || t.find((char) 0) != std::string::npos) && x.v.find_first_of("\r\n") == std::string::npos, "setting"); CHECK(t.find(x.v) != std::string::npos && t.find(x.n) != std::string::npos, "not from the file"); } nontrivial(); }
}
VP_TARGET(config, 60000, "a well-formed file with more than two settings");
VP_TARGET(noise, 80000, "an accepted file with an instance");
VP_MAIN(vp_lib_init)
